From ea23e066cdf53843daa3833ae0305ec146721a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 001/117] fix: report read errors while preprocessing a
 document instead of silently truncating it

---
 pkg/parser/document_preprocessing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..e9aed2e 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -77,6 +77,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", errors.Wrap(err, "unable to read the document to preprocess")
+	}
 	return b.String(), nil
 }
 
-- 
2.43.0


From 597bf3f1c6cdf3eef877f43ae7f40109a505f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 002/117] fix: do not panic on an unmatched end tag in a file
 to include

---
 pkg/parser/document_preprocessing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index e9aed2e..1f6ab41 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -412,7 +412,10 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			// ignore the end tag if there was no corresponding start tag
+			if tr, found := currentRanges[endTag.Value]; found {
+				tr.EndLine = lineNumber
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From ea24bd64519ebb820c8be1a52e8b39234373b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 003/117] fix: ignore attributes, inclusions and delimiters in
 regions excluded by a condition

---
 pkg/parser/document_preprocessing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 1f6ab41..5597306 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -43,6 +43,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
 			// }
+			if !b.enabled {
+				// within a region which is excluded by a condition: only the (nested) conditions matter
+				switch element.(type) {
+				case types.ConditionalInclusion, *types.EndOfCondition:
+				default:
+					continue
+				}
+			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				ctx.attributes.set(e.Name, e.Value)
-- 
2.43.0


From 5e3587ab7dc5d6794080edb47b01fdb04fb3cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 004/117] fix: match the '<=' and '>=' operators of the ifeval
 conditions

---
 pkg/parser/parser.go  | 32 ++++++++++++++++----------------
 pkg/parser/parser.peg | 10 +++++-----
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..9625dfe 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -995,19 +995,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine198,
 																expr: &litMatcher{
 																	pos:        position{line: 106, col: 8, offset: 3009},
-																	val:        "<",
+																	val:        "<=",
 																	ignoreCase: false,
-																	want:       "\"<\"",
+																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3071},
+																pos: position{line: 109, col: 8, offset: 3075},
 																run: (*parser).callonDocumentRawLine200,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3071},
-																	val:        "<=",
+																	pos:        position{line: 109, col: 8, offset: 3075},
+																	val:        "<",
 																	ignoreCase: false,
-																	want:       "\"<=\"",
+																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
@@ -1015,19 +1015,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine202,
 																expr: &litMatcher{
 																	pos:        position{line: 112, col: 8, offset: 3137},
-																	val:        ">",
+																	val:        ">=",
 																	ignoreCase: false,
-																	want:       "\">\"",
+																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3202},
+																pos: position{line: 115, col: 8, offset: 3206},
 																run: (*parser).callonDocumentRawLine204,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3202},
-																	val:        ">=",
+																	pos:        position{line: 115, col: 8, offset: 3206},
+																	val:        ">",
 																	ignoreCase: false,
-																	want:       "\">=\"",
+																	want:       "\">\"",
 																},
 															},
 														},
@@ -47791,7 +47791,7 @@ func (p *parser) callonDocumentRawLine196() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine198() (interface{}, error) {
-	return types.NewLessThanOperand()
+	return types.NewLessOrEqualOperand()
 
 }
 
@@ -47802,7 +47802,7 @@ func (p *parser) callonDocumentRawLine198() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine200() (interface{}, error) {
-	return types.NewLessOrEqualOperand()
+	return types.NewLessThanOperand()
 
 }
 
@@ -47813,7 +47813,7 @@ func (p *parser) callonDocumentRawLine200() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine202() (interface{}, error) {
-	return types.NewGreaterThanOperand()
+	return types.NewGreaterOrEqualOperand()
 
 }
 
@@ -47824,7 +47824,7 @@ func (p *parser) callonDocumentRawLine202() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine204() (interface{}, error) {
-	return types.NewGreaterOrEqualOperand()
+	return types.NewGreaterThanOperand()
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..42efae4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -103,18 +103,18 @@ IfevalExpressionOperand <-
     / ("!=" {
         return types.NewNotEqualOperand()
     })
-    / ("<" {
-        return types.NewLessThanOperand()
-    })
     / ("<=" {
         return types.NewLessOrEqualOperand()
     })
-    / (">" {
-        return types.NewGreaterThanOperand()
+    / ("<" {
+        return types.NewLessThanOperand()
     })
     / (">=" {
         return types.NewGreaterOrEqualOperand()
     })
+    / (">" {
+        return types.NewGreaterThanOperand()
+    })
 
 IfevalExpressionValue <- 
     Number
-- 
2.43.0


From c4e0f95c0922f8ed353eece4d2841ad3b25c712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 005/117] fix: track literal block delimiters as literal (not
 listing) delimiters while preprocessing

---
 pkg/parser/parser.go  | 20 ++++++++++----------
 pkg/parser/parser.peg |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9625dfe..f782fe1 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48409,7 +48409,7 @@ func (p *parser) callonDocumentRawLine446() (interface{}, error) {
 
 func (c *current) onDocumentRawLine434(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50750,7 +50750,7 @@ func (p *parser) callonDocumentFragment539() (interface{}, error) {
 
 func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50808,7 +50808,7 @@ func (p *parser) callonDocumentFragment567() (interface{}, error) {
 
 func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50912,7 +50912,7 @@ func (p *parser) callonDocumentFragment611() (interface{}, error) {
 
 func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -62349,7 +62349,7 @@ func (p *parser) callonExtraListElement733() (interface{}, error) {
 
 func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64454,7 +64454,7 @@ func (p *parser) callonListContinuationElement754() (interface{}, error) {
 
 func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64512,7 +64512,7 @@ func (p *parser) callonListContinuationElement782() (interface{}, error) {
 
 func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64616,7 +64616,7 @@ func (p *parser) callonListContinuationElement826() (interface{}, error) {
 
 func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67015,7 +67015,7 @@ func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 
 func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67768,7 +67768,7 @@ func (p *parser) callonShortcutParagraph188() (interface{}, error) {
 
 func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 42efae4..db35d33 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -783,7 +783,7 @@ LiteralBlockDelimiter <-
     delimiter:("...." "."* { // sequence of 4 "." chars or more
         return string(c.text), nil
     }) Space* EOL { 
-        return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+        return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
     }
 
 PassthroughBlockDelimiter <- 
-- 
2.43.0


From 6bc9b5258027d0275cd9f0ad8aa42b1509558335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 006/117] fix: ignore other delimiters within verbatim blocks
 while preprocessing

---
 pkg/parser/document_preprocessing.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 5597306..dc8ed3a 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -111,6 +111,8 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
 		// pop
 		t.stack = t.stack[:len(t.stack)-1]
+	case len(t.stack) > 0 && isVerbatim(t.stack[len(t.stack)-1].kind):
+		// any other delimiter is part of the content of the verbatim block
 	default:
 		// push
 		t.stack = append(t.stack, blockDelimiter{
@@ -120,6 +122,16 @@ func (t *blockDelimiterTracker) track(kind string, length int) {
 	}
 }
 
+// isVerbatim returns true if blocks of the given kind have a content which cannot contain other blocks
+func isVerbatim(kind string) bool {
+	switch kind {
+	case types.Comment, types.Fenced, types.Listing, types.Literal, types.Passthrough:
+		return true
+	default:
+		return false
+	}
+}
+
 func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
-- 
2.43.0


From 9e2b6cdcb05c46282c55ddb34d35bc7445f248c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 007/117] fix: do not change the working directory of the
 process while including files

---
 pkg/parser/document_preprocessing.go | 39 +++++++---------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index dc8ed3a..bc2fbe7 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -493,46 +493,25 @@ func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 }
 
 func open(path string) (*os.File, string, func(), error) {
-	wd, err := os.Getwd()
+	// note: the path is not resolved by changing the working directory of the process,
+	// which is shared with all other conversions
+	absPath, err := filepath.Abs(path)
 	if err != nil {
 		return nil, "", func() {}, err
 	}
-	absPath, err := filepath.Abs(path)
-	if err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
-	}
-	dir := filepath.Dir(absPath)
-	// TODO: we could skip the Chdir part if we retain the absPath in the context,
-	// and use `filepath.Join` to compute the abspath of the file to include
-	if err = os.Chdir(dir); err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+	if _, err := os.Stat(filepath.Dir(absPath)); err != nil {
+		if e, ok := err.(*os.PathError); ok {
+			e.Op = "chdir" // the directory is missing, not (just) the file
+		}
+		return nil, "", func() {}, err
 	}
 	// read the file per-se
 	// log.Debugf("opening '%s'", absPath)
 	f, err := os.Open(absPath)
 	if err != nil {
-		return nil, absPath, func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, absPath, func() {}, err
 	}
 	return f, absPath, func() {
-		log.Debugf("restoring current working dir to: %s", wd)
-		if err := os.Chdir(wd); err != nil { // restore the previous working directory
-			log.WithError(err).Error("failed to restore previous working directory")
-		}
 		if err := f.Close(); err != nil {
 			log.WithError(err).Errorf("failed to close file '%s'", absPath)
 		}
-- 
2.43.0


From 9dbffc3a3afc6910566d5c54d8f9df0c581e2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 008/117] fix: report an error instead of overflowing the stack
 when a file includes itself

---
 pkg/parser/context.go                | 2 ++
 pkg/parser/document_preprocessing.go | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..4f4452b 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -13,6 +13,7 @@ type ParseContext struct {
 	filename     string
 	opts         []Option
 	levelOffsets levelOffsets
+	includeDepth int
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -45,6 +46,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		filename:     c.filename,
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
+		includeDepth: c.includeDepth,
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index bc2fbe7..5a8247e 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -235,7 +235,15 @@ func (c *conditions) eval() bool {
 	return true
 }
 
+// maxIncludeDepth the maximum level of nested file inclusions (to detect files including themselves)
+const maxIncludeDepth = 64
+
 func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, error) {
+	// (`ctx` is the clone which is dedicated to the file being included)
+	ctx.includeDepth++
+	if ctx.includeDepth > maxIncludeDepth {
+		return "", false, errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
+	}
 	path := incl.Location.ToString()
 	currentDir := filepath.Dir(ctx.filename)
 	filename := filepath.Join(currentDir, path)
-- 
2.43.0


From 11ecb21bca54d77e21f6f3b56a64d1d074273891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 009/117] fix: do not leak the attributes of a document into
 the configuration of the caller

---
 pkg/renderer/sgml/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..4fdf262 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -24,7 +24,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx := &context{
 		config:            config,
 		counters:          make(map[string]int),
-		attributes:        config.Attributes,
+		attributes:        config.Attributes.Clone(), // do not alter the caller's configuration
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
 	}
-- 
2.43.0


From c9f5036d9f64ba7634155e9ed1c8479035cdeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 010/117] fix: give precedence to the attributes of the
 configuration while rendering

---
 pkg/renderer/sgml/context.go  | 23 +++++++++++++++++++----
 pkg/renderer/sgml/elements.go |  4 ++--
 pkg/renderer/sgml/sgml.go     |  8 ++++----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 4fdf262..f60fab6 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -29,10 +29,10 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		hasHeader:         header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
-	ctx.attributes[types.AttrFigureCaption] = "Figure"
-	ctx.attributes[types.AttrExampleCaption] = "Example"
-	ctx.attributes[types.AttrTableCaption] = "Table"
-	ctx.attributes[types.AttrVersionLabel] = "version"
+	ctx.setAttribute(types.AttrFigureCaption, "Figure")
+	ctx.setAttribute(types.AttrExampleCaption, "Example")
+	ctx.setAttribute(types.AttrTableCaption, "Table")
+	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
@@ -47,6 +47,21 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+// setAttribute sets an attribute, unless it is set in the configuration, whose attributes
+// take precedence over the ones declared in the document
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if !ctx.config.Attributes.Has(name) {
+		ctx.attributes[name] = value
+	}
+}
+
+// unsetAttribute unsets an attribute, unless it is set in the configuration
+func (ctx *context) unsetAttribute(name string) {
+	if !ctx.config.Attributes.Has(name) {
+		delete(ctx.attributes, name)
+	}
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..e9659b6 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,10 +103,10 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.unsetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
 		ctx.attributes.AddAll(e.Attributes)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..b68f053 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.unsetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,9 +64,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.unsetAttribute(e.Name)
 		default:
 			break elements
 		}
-- 
2.43.0


From fde57b95d176ccb876ccde07f7d985ac6e17195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 011/117] fix: validate manpages (whose type may be declared in
 the document) without panic nor change in the configuration

---
 libasciidoc.go             | 38 ++++++++++++++++++++++++++++++++++++--
 pkg/validator/validator.go | 19 ++++++++++++++++---
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..e620154 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -70,7 +70,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	}
 	emdOfParse = time.Now()
 	// validate the document
-	doctype := config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
+	doctype := doctypeOf(doc, config)
 	problems, err := validator.Validate(doc, doctype)
 	if err != nil {
 		return types.Metadata{}, err
@@ -79,7 +79,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	if len(problems) > 0 {
 		// if any problem found, change the doctype to render the document as a regular article
 		log.Warnf("changing doctype to 'article' because problems were found in the document: %v", problems)
-		config.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		config = withDoctype(config, "article") // switch to `article` rendering (in case it was a manpage with problems)
 		for _, problem := range problems {
 			switch problem.Severity {
 			case validator.Error:
@@ -99,3 +99,37 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	return metadata, nil
 
 }
+
+// doctypeOf returns the type of the document: the one in the configuration (if set), or the one
+// declared in the document header (or before the first block if there is no header)
+func doctypeOf(doc *types.Document, config *configuration.Configuration) string {
+	attributes := types.Attributes{}
+	elements := doc.Elements
+	header, _ := doc.Header()
+	if header != nil {
+		elements = header.Elements
+	}
+elements:
+	for _, e := range elements {
+		switch e := e.(type) {
+		case *types.AttributeDeclaration:
+			attributes[e.Name] = e.Value
+		case *types.AttributeReset:
+			delete(attributes, e.Name)
+		default:
+			if header == nil {
+				break elements
+			}
+		}
+	}
+	return config.Attributes.GetAsStringWithDefault(types.AttrDocType, attributes.GetAsStringWithDefault(types.AttrDocType, "article"))
+}
+
+// withDoctype returns a copy of the given configuration with the given type of document
+// (the configuration of the caller is left unchanged)
+func withDoctype(config *configuration.Configuration, doctype string) *configuration.Configuration {
+	result := *config
+	result.Attributes = config.Attributes.Clone()
+	result.Attributes[types.AttrDocType] = doctype
+	return &result
+}
diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..46f49cb 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,17 +49,17 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).haveCount(1) && assertThatElement(elementAt(nameSection.Elements, 0)).isParagraph(); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElement(elementAt(elements, 1)).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -91,6 +91,19 @@ func (e elementAssertion) isSection(assertions ...sectionAssertion) (*types.Sect
 	return s, match
 }
 
+func (e elementAssertion) isParagraph() bool {
+	_, ok := e.element.(*types.Paragraph)
+	return ok
+}
+
+// elementAt returns the element at the given index, or nil if there is no such element
+func elementAt(elements []interface{}, index int) interface{} {
+	if index >= len(elements) {
+		return nil
+	}
+	return elements[index]
+}
+
 type sectionAssertion func(s *types.Section) bool
 
 func withTitle(title string) sectionAssertion {
-- 
2.43.0


From d61bfaf0f4cf404497a724eed209f6c8f7d74023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 012/117] fix: do not confuse some content of the document with
 an internal placeholder

---
 ...document_processing_apply_substitutions.go | 16 ++++++++-
 .../document_processing_refine_fragments.go   |  2 +-
 pkg/parser/parser.go                          | 36 +++++++++----------
 pkg/parser/parser.peg                         |  2 +-
 4 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..46e5be3 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -615,7 +615,7 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 		log.Debugf("parsing '%s' with '%s' substitutions", serialized, subs.toString())
 	}
 	// stats := Stats{}
-	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs))...) // , Statistics(&stats, "no match"), Debug(false)
+	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs), GlobalStore(placeholdersKey, placeholders))...) // , Statistics(&stats, "no match"), Debug(false)
 	if err != nil {
 		return nil, err
 	}
@@ -728,6 +728,20 @@ func serializePlainText(content interface{}) (string, error) {
 	}
 }
 
+const placeholdersKey string = "placeholders"
+
+// resolveElementPlaceHolder returns the placeholder with the given ref if it stands for an element, or a regular string
+// otherwise (ie, if the content of the document just looks like a placeholder)
+func (c *current) resolveElementPlaceHolder(ref string) (interface{}, error) {
+	placeholder := &types.ElementPlaceHolder{Ref: ref}
+	if p, ok := c.globalStore[placeholdersKey].(*placeholders); ok {
+		if _, found := p.elements[ref]; found {
+			return placeholder, nil
+		}
+	}
+	return types.NewStringElement(placeholder.String())
+}
+
 type placeholders struct {
 	seq      int
 	elements map[string]interface{}
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index cc63b87..866b6ea 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -146,7 +146,7 @@ func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, err
 	if err != nil {
 		return nil, err
 	}
-	elmts, err := Parse("", content, opts...)
+	elmts, err := Parse("", content, append(opts, GlobalStore(placeholdersKey, placeholders))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "unable to parse elements") // ignore error (malformed content)
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f782fe1..2be96c6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48883,7 +48883,7 @@ func (p *parser) callonFileInclusion103() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion99(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonFileInclusion99() (interface{}, error) {
@@ -52718,7 +52718,7 @@ func (p *parser) callonDelimitedBlockElements11() (interface{}, error) {
 }
 
 func (c *current) onDelimitedBlockElements7(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonDelimitedBlockElements7() (interface{}, error) {
@@ -53151,7 +53151,7 @@ func (p *parser) callonBlockAttributes23() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes19(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonBlockAttributes19() (interface{}, error) {
@@ -55347,7 +55347,7 @@ func (p *parser) callonExternalCrossReference100() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference96(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonExternalCrossReference96() (interface{}, error) {
@@ -57048,7 +57048,7 @@ func (p *parser) callonIndexTermContent21() (interface{}, error) {
 }
 
 func (c *current) onIndexTermContent17(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonIndexTermContent17() (interface{}, error) {
@@ -57302,7 +57302,7 @@ func (p *parser) callonImageBlock110() (interface{}, error) {
 }
 
 func (c *current) onImageBlock106(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonImageBlock106() (interface{}, error) {
@@ -57604,7 +57604,7 @@ func (p *parser) callonInlineImage112() (interface{}, error) {
 }
 
 func (c *current) onInlineImage108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonInlineImage108() (interface{}, error) {
@@ -58420,7 +58420,7 @@ func (p *parser) callonLink112() (interface{}, error) {
 }
 
 func (c *current) onLink108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonLink108() (interface{}, error) {
@@ -58780,7 +58780,7 @@ func (p *parser) callonRelativeLink111() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink107(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonRelativeLink107() (interface{}, error) {
@@ -59058,7 +59058,7 @@ func (p *parser) callonRelativeLink228() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink224(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonRelativeLink224() (interface{}, error) {
@@ -59336,7 +59336,7 @@ func (p *parser) callonExternalLink112() (interface{}, error) {
 }
 
 func (c *current) onExternalLink108(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonExternalLink108() (interface{}, error) {
@@ -59614,7 +59614,7 @@ func (p *parser) callonExternalLink230() (interface{}, error) {
 }
 
 func (c *current) onExternalLink226(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonExternalLink226() (interface{}, error) {
@@ -68753,7 +68753,7 @@ func (p *parser) callonQuotedTextElement140() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonQuotedTextElement136() (interface{}, error) {
@@ -70062,7 +70062,7 @@ func (p *parser) callonSectionTitleElement141() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonSectionTitleElement137() (interface{}, error) {
@@ -70105,7 +70105,7 @@ func (p *parser) callonSectionTitleElement164() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonSectionTitleElement160() (interface{}, error) {
@@ -70860,7 +70860,7 @@ func (p *parser) callonNormalGroup160() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonNormalGroup156() (interface{}, error) {
@@ -71046,7 +71046,7 @@ func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error)
 }
 
 func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
@@ -72411,7 +72411,7 @@ func (p *parser) callonFileLocation96() (interface{}, error) {
 }
 
 func (c *current) onFileLocation92(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
+	return c.resolveElementPlaceHolder(ref.(string))
 }
 
 func (p *parser) callonFileLocation92() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index db35d33..81ee9f7 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1196,7 +1196,7 @@ DocumentRevisionRemark <- [^\r\r\n]+ {
 ElementPlaceHolderDelimiter <- "\uFFFD"
 
 ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter {
-    return types.NewElementPlaceHolder(ref.(string))
+    return c.resolveElementPlaceHolder(ref.(string))
 }
 
 // -----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ed8ed712d6d15a9a0d9a8605dc7b7856f295b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 013/117] fix: do not skip the content of a document after an
 invalid UTF-8 sequence

---
 pkg/parser/document_preprocessing.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 5a8247e..a1d6467 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -19,7 +19,12 @@ import (
 // Preprocess reads line by line to look-up and process file inclusions and conditionals (`ifdef`, `ifndef` and `ifeval`)
 func Preprocess(source io.Reader, config *configuration.Configuration, opts ...Option) (string, error) {
 	ctx := NewParseContext(config, opts...) // each pipeline step will have its own clone of `ctx`
-	return preprocess(ctx, source)
+	result, err := preprocess(ctx, source)
+	if err != nil {
+		return "", err
+	}
+	// the parser stops at the first invalid sequence, so the rest of the document would be skipped
+	return strings.ToValidUTF8(result, "\uFFFD"), nil
 }
 
 func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
-- 
2.43.0


From 8254051824d4ca24233bd5d6c6b0c20a6458c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 014/117] fix: take the start value of hidden counters into
 account

---
 pkg/parser/parser.go  | 42 +++++++++++++++++++++---------------------
 pkg/parser/parser.peg |  2 +-
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 2be96c6..f9d07c9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48852,7 +48852,7 @@ func (p *parser) callonFileInclusion88() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion77(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileInclusion77() (interface{}, error) {
@@ -53093,7 +53093,7 @@ func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error)
 }
 
 func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
@@ -53320,7 +53320,7 @@ func (p *parser) callonBlockAttributes85() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonBlockAttributes74() (interface{}, error) {
@@ -54032,7 +54032,7 @@ func (p *parser) callonShortHandAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onShortHandAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
@@ -54435,7 +54435,7 @@ func (p *parser) callonSingleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
@@ -54708,7 +54708,7 @@ func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
@@ -54947,7 +54947,7 @@ func (p *parser) callonUnquotedAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onUnquotedAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
@@ -55316,7 +55316,7 @@ func (p *parser) callonExternalCrossReference85() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference74() (interface{}, error) {
@@ -57271,7 +57271,7 @@ func (p *parser) callonImageBlock95() (interface{}, error) {
 }
 
 func (c *current) onImageBlock84(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonImageBlock84() (interface{}, error) {
@@ -57573,7 +57573,7 @@ func (p *parser) callonInlineImage97() (interface{}, error) {
 }
 
 func (c *current) onInlineImage86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonInlineImage86() (interface{}, error) {
@@ -58060,7 +58060,7 @@ func (p *parser) callonFootnoteElement128() (interface{}, error) {
 }
 
 func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFootnoteElement117() (interface{}, error) {
@@ -58389,7 +58389,7 @@ func (p *parser) callonLink97() (interface{}, error) {
 }
 
 func (c *current) onLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonLink86() (interface{}, error) {
@@ -58749,7 +58749,7 @@ func (p *parser) callonRelativeLink96() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink85(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink85() (interface{}, error) {
@@ -59027,7 +59027,7 @@ func (p *parser) callonRelativeLink213() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink202() (interface{}, error) {
@@ -59305,7 +59305,7 @@ func (p *parser) callonExternalLink97() (interface{}, error) {
 }
 
 func (c *current) onExternalLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink86() (interface{}, error) {
@@ -59583,7 +59583,7 @@ func (p *parser) callonExternalLink215() (interface{}, error) {
 }
 
 func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink204() (interface{}, error) {
@@ -68657,7 +68657,7 @@ func (p *parser) callonQuotedTextElement104() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement93() (interface{}, error) {
@@ -70031,7 +70031,7 @@ func (p *parser) callonSectionTitleElement126() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement115() (interface{}, error) {
@@ -70274,7 +70274,7 @@ func (p *parser) callonSectionTitleElement226() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleElement215() (interface{}, error) {
@@ -70737,7 +70737,7 @@ func (p *parser) callonNormalGroup118() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonNormalGroup107() (interface{}, error) {
@@ -72380,7 +72380,7 @@ func (p *parser) callonFileLocation81() (interface{}, error) {
 }
 
 func (c *current) onFileLocation70(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileLocation70() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 81ee9f7..43db1df 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -660,7 +660,7 @@ CounterSubstitution1 <- "{counter:" name:AttributeName start:(CounterStart)? "}"
 }
 
 CounterSubstitution2 <- "{counter2:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+    return types.NewCounterSubstitution(name.(string), true,start,string(c.text))
 }
 
 CounterStart <- ":" start:([A-Za-z] {
-- 
2.43.0


From a2474300d4ba370be9c4978521d88f0a331cb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 015/117] fix: keep the whole value of attributes set in the
 command line

---
 cmd/libasciidoc/root_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 27a188b..f58520a 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -126,7 +126,7 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
 	for _, attr := range attributes {
-		data := strings.Split(attr, "=")
+		data := strings.SplitN(attr, "=", 2) // the value itself may contain `=` characters
 		if len(data) > 1 {
 			result[data[0]] = data[1]
 		} else {
-- 
2.43.0


From 1a32aa88fbb489b74dc66a1ed2dcfa1aeea5bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 016/117] fix: do not overwrite the source file with its own
 conversion

---
 cmd/libasciidoc/root_cmd.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index f58520a..2610fb7 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -103,6 +103,10 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		return cmd.OutOrStdout(), defaultCloseFunc()
 	} else if outputName != "" {
 		// outfile is specified in the command line
+		if isSameFile(sourcePath, outputName) {
+			log.Errorf("Output file is the source file - %v, skipping", outputName)
+			return nil, nil
+		}
 		outfile, e := os.Create(outputName)
 		if e != nil {
 			log.Warnf("Cannot create output file - %v, skipping", outputName)
@@ -112,6 +116,10 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
 		outname := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
+		if isSameFile(sourcePath, outname) {
+			log.Errorf("Output file is the source file - %v, skipping", outname)
+			return nil, nil
+		}
 		outfile, err := os.Create(outname)
 		if err != nil {
 			log.Warnf("Cannot create output file - %v, skipping", outname)
@@ -122,6 +130,16 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 	return cmd.OutOrStdout(), defaultCloseFunc()
 }
 
+// isSameFile checks if the given paths refer to the same (existing) file
+func isSameFile(path1, path2 string) bool {
+	stat1, err := os.Stat(path1)
+	if err != nil {
+		return false
+	}
+	stat2, err := os.Stat(path2)
+	return err == nil && os.SameFile(stat1, stat2)
+}
+
 // converts the `name`, `!name` and `name=value` into a map
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
-- 
2.43.0


From 9dd60e270399ebd7e5bb3c7a9fe140ab81d55c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 017/117] fix: no panic, no loss of content in tables with no
 row but a header or a footer, nor with useless column definitions

---
 pkg/renderer/sgml/html5/table.go  |  2 +-
 pkg/renderer/sgml/xhtml5/table.go |  2 +-
 pkg/types/types.go                | 25 ++++++++++++++++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..2719f37 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3841,17 +3841,22 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size <= 0 {
+		log.Debug("no actual column definition")
+		return
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
+	t.Header, t.Footer = nil, nil
 	t.Rows = organizeTableCells(rows, size)
 	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	if len(t.Rows) > 0 && (header || t.Attributes.HasOption("header")) {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if len(t.Rows) > 0 && (footer || t.Attributes.HasOption("footer")) {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
@@ -4008,8 +4013,18 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
+	// (the header or the footer matters if there is no other row)
+	var firstRow *TableRow
+	switch {
+	case len(t.Rows) > 0:
+		firstRow = t.Rows[0]
+	case t.Header != nil:
+		firstRow = t.Header
+	case t.Footer != nil:
+		firstRow = t.Footer
+	}
+	if firstRow != nil && len(firstRow.Cells) > len(result) {
+		m := len(firstRow.Cells) - len(result)
 		for i := 0; i < m; i++ {
 			col := newDefaultTableColumn()
 			result = append(result, col)
@@ -4031,7 +4046,7 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 					col.Width = strconv.Itoa(col.Weight)
 				}
 			}
-		} else {
+		} else if sumWeight > 0 {
 			// now, compute the Width for each column, based on each one's relative weight
 			sumWidth := 0 // sum by a factor 1e5 to retain precision
 			for i, col := range result {
-- 
2.43.0


From 3b12979abfd3bd75e356adbcfffc785d5fb47dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 018/117] fix: no panic on authors without a name, keep the
 initials of non-ASCII names

---
 pkg/types/types.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 2719f37..b478534 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -340,11 +340,12 @@ elements:
 				if author, ok := e.Value.(string); ok {
 					if result == nil {
 						result = DocumentAuthors{
-							&DocumentAuthor{
-								DocumentAuthorFullName: &DocumentAuthorFullName{},
-							},
+							&DocumentAuthor{},
 						}
 					}
+					if result[0].DocumentAuthorFullName == nil {
+						result[0].DocumentAuthorFullName = &DocumentAuthorFullName{}
+					}
 					result[0].DocumentAuthorFullName.FirstName = author
 				}
 			}
@@ -449,14 +450,16 @@ func (authors DocumentAuthors) Expand() Attributes {
 	result := Attributes{}
 	result[AttrAuthors] = []*DocumentAuthor(authors)
 	for i, author := range authors {
-		result[key("author", i)] = author.FullName()
-		result[key("authorinitials", i)] = author.Initials()
-		result[key("firstname", i)] = author.FirstName
-		if author.MiddleName != "" {
-			result[key("middlename", i)] = author.MiddleName
-		}
-		if author.LastName != "" {
-			result[key("lastname", i)] = author.LastName
+		if author.DocumentAuthorFullName != nil { // may be missing (eg: `<me@example.com>`)
+			result[key("author", i)] = author.FullName()
+			result[key("authorinitials", i)] = author.Initials()
+			result[key("firstname", i)] = author.FirstName
+			if author.MiddleName != "" {
+				result[key("middlename", i)] = author.MiddleName
+			}
+			if author.LastName != "" {
+				result[key("lastname", i)] = author.LastName
+			}
 		}
 		if author.Email != "" {
 			result[key("email", i)] = author.Email
@@ -476,8 +479,8 @@ func key(k string, i int) string {
 }
 
 func initial(s string) string {
-	if len(s) > 0 {
-		return s[0:1]
+	for _, r := range s {
+		return string(r)
 	}
 	return ""
 }
-- 
2.43.0


From 6efb479d8b7e549da793f8b90df556657ed34286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 019/117] fix: render verse paragraphs like other paragraphs
 (no panic on special characters, no error on macros, formatting retained)

---
 pkg/renderer/sgml/delimited_block_verse.go | 2 +-
 pkg/renderer/sgml/render_plain_text.go     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..ab516ea 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..ff318d8 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
-- 
2.43.0


From 66db15f4c27b3eeb32e35d639c4642454cb74470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 020/117] fix: render images whose location is not a valid URL

---
 pkg/renderer/sgml/image.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..c89d5c3 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -135,12 +135,12 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
 	}
-	u, err := url.Parse(path)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render image")
+	// (use the path as-is if it is not a valid URL)
+	if u, err := url.Parse(path); err == nil {
+		path = u.Path
 	}
 	// return base path without its extension
-	result := strings.TrimSuffix(filepath.Base(u.Path), filepath.Ext(u.Path))
+	result := strings.TrimSuffix(filepath.Base(path), filepath.Ext(path))
 	// replace separators
 	result = strings.ReplaceAll(result, "-", " ")
 	result = strings.ReplaceAll(result, "_", " ")
-- 
2.43.0


From 61cdd2f4f83fe27ba139d30103b50dca4bb34216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 021/117] fix: collect the footnotes of all elements (blocks,
 tables, titles, quoted texts, list continuations): no conversion error

---
 pkg/types/types.go | 139 +++++++++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 44 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index b478534..eececa0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -286,6 +286,13 @@ type DocumentHeader struct {
 	Elements   []interface{}
 }
 
+var _ WithFootnotes = &DocumentHeader{}
+
+// SubstituteFootnotes replaces the footnotes in the title of the document
+func (h *DocumentHeader) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(h.Title, notes)
+}
+
 func NewDocumentHeader(title []interface{}, ar interface{}, extraAttrs []interface{}) (*DocumentHeader, error) {
 	header := &DocumentHeader{}
 	elements := make([]interface{}, 0, 2+len(extraAttrs)) // estimated max capacity
@@ -976,14 +983,7 @@ var _ WithFootnotes = &ListElements{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (l *ListElements) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range l.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			if log.IsLevelEnabled(log.DebugLevel) {
-				log.Debugf("collecting footnotes in element of type '%T'", e)
-			}
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(l.Elements, notes)
 }
 
 type ListKind string
@@ -1036,6 +1036,15 @@ func (c *ListContinuation) AddElement(element interface{}) error {
 	return errors.Errorf("cannot add element of type '%T' to list element continuation", c.Element)
 }
 
+var _ WithFootnotes = &ListContinuation{}
+
+// SubstituteFootnotes replaces the footnotes in the attached element
+func (c *ListContinuation) SubstituteFootnotes(notes *Footnotes) {
+	if e, ok := c.Element.(WithFootnotes); ok {
+		e.SubstituteFootnotes(notes)
+	}
+}
+
 // ------------------------------------------
 // Callouts
 // ------------------------------------------
@@ -1150,11 +1159,8 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1283,11 +1289,8 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1449,11 +1452,8 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -1713,16 +1713,9 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1829,11 +1822,8 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotesInTitle(p.Attributes, notes)
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -2009,6 +1999,13 @@ type ImageBlock struct {
 	Attributes Attributes
 }
 
+var _ WithFootnotes = &ImageBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the title of the image
+func (i *ImageBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(i.Attributes, notes)
+}
+
 // NewImageBlock initializes a new `ImageBlock`
 func NewImageBlock(location *Location, inlineAttributes Attributes) (*ImageBlock, error) {
 	// inline attributes trump block attributes
@@ -2168,6 +2165,25 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements (and in the elements that they contain)
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch e := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(e)
+		case WithFootnotes:
+			e.SubstituteFootnotes(notes)
+		}
+	}
+}
+
+// substituteFootnotesInTitle replaces the footnotes in the title of an element
+func substituteFootnotesInTitle(attrs Attributes, notes *Footnotes) {
+	if title, ok := attrs[AttrTitle].([]interface{}); ok {
+		substituteFootnotes(title, notes)
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2187,7 +2203,7 @@ func NewFootnotes() *Footnotes {
 // IndexOf returns the index of the given note in the footnotes.
 func (f *Footnotes) indexOf(actual *Footnote) (int, bool) {
 	for _, note := range f.Notes {
-		if note.Ref == actual.Ref {
+		if actual.Ref != "" && note.Ref == actual.Ref {
 			return note.ID, true
 		}
 	}
@@ -2413,6 +2429,14 @@ func (b *DelimitedBlock) Reference(refs ElementReferences) {
 	}
 }
 
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the elements of the block
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(b.Attributes, notes)
+	substituteFootnotes(b.Elements, notes)
+}
+
 // ------------------------------------------
 // Sections
 // ------------------------------------------
@@ -2587,11 +2611,7 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
@@ -2771,6 +2791,13 @@ func NewQuotedText(kind QuotedTextKind, elements ...interface{}) (*QuotedText, e
 	}, nil
 }
 
+var _ WithFootnotes = &QuotedText{}
+
+// SubstituteFootnotes replaces the footnotes in the quoted text
+func (t *QuotedText) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Elements, notes)
+}
+
 var _ WithElements = &QuotedText{}
 
 // GetElements returns this QuotedText's elements
@@ -2878,6 +2905,15 @@ type InlineLink struct {
 	Location   *Location
 }
 
+var _ WithFootnotes = &InlineLink{}
+
+// SubstituteFootnotes replaces the footnotes in the text of the link
+func (l *InlineLink) SubstituteFootnotes(notes *Footnotes) {
+	if text, ok := l.Attributes[AttrInlineLinkText].([]interface{}); ok {
+		substituteFootnotes(text, notes)
+	}
+}
+
 // NewInlineLink initializes a new inline `InlineLink`
 func NewInlineLink(url *Location, attributes interface{}) (*InlineLink, error) {
 	attrs := toAttributesWithMapping(attributes, map[string]string{
@@ -3882,6 +3918,21 @@ func (t *Table) rows() ([]interface{}, bool, bool) {
 	return rows, header, footer
 }
 
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in all cells of the table
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(t.Attributes, notes)
+	rows, _, _ := t.rows()
+	for _, r := range rows {
+		if r, ok := r.(*TableRow); ok {
+			for _, c := range r.Cells {
+				substituteFootnotes(c.Elements, notes)
+			}
+		}
+	}
+}
+
 var _ Referencable = &Table{}
 
 func (t *Table) Reference(refs ElementReferences) {
-- 
2.43.0


From 508160ce8e10302306b09a4ba2c1f0cc47af1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 022/117] fix: fall back on the default layout of labeled lists
 with an unknown style

---
 pkg/renderer/sgml/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..e9e53fd 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/pkg/errors"
+	log "github.com/sirupsen/logrus"
 )
 
 func (r *sgmlRenderer) renderList(ctx *context, l *types.List) (string, error) {
@@ -266,7 +267,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 			}
 			return listTmpl, listElementTmpl, nil
 		default:
-			return nil, nil, errors.Errorf("unsupported labeled list layout: %s", layout)
+			log.Debugf("unknown labeled list layout: '%v'", layout) // fall back on the default layout
 		}
 	}
 	listTmpl, err := r.labeledList()
-- 
2.43.0


From bc900fda4b906663f87c5b1cd6825ab69167eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 023/117] fix: arrange the lists of the blocks attached to list
 elements

---
 pkg/parser/document_processing_arrange_lists.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..23ca17b 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -83,6 +83,15 @@ content:
 		// if log.IsLevelEnabled(log.DebugLevel) {
 		// 	log.Debugf("arranging element of type '%T'", element)
 		// }
+		if c, ok := element.(*types.ListContinuation); ok {
+			// also arrange the lists in the attached block
+			if b, ok := c.Element.(*types.DelimitedBlock); ok {
+				var err error
+				if b.Elements, err = arrangeListElements(b.Elements); err != nil {
+					return nil, err
+				}
+			}
+		}
 		// lookup the parent block which can add the given element
 		if parentBlock := lists.parentFor(element); parentBlock != nil {
 			if err := parentBlock.AddElement(element); err != nil {
-- 
2.43.0


From d5050d25a247face53a33a1b94da217837714328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 024/117] fix: keep quote blocks with an unknown style as such

---
 pkg/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index eececa0..645d2a3 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2397,7 +2397,7 @@ func (b *DelimitedBlock) mapAttributes() {
 			AttrPositional3: AttrQuoteTitle,
 		})
 		// override the `kind` with `style` attribute (if exists)
-		if style, exists := b.Attributes[AttrStyle].(string); exists {
+		if style, exists := b.Attributes[AttrStyle].(string); exists && (style == Quote || style == Verse) {
 			b.Kind = style
 		}
 	case Example:
-- 
2.43.0


From 67f2e3c363aef3ea6a953f10b6d93af22c9cc2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 025/117] fix: substitute attributes in footnotes, and
 attributes without a value (or authors, or values which are not strings)
 without error

---
 ...document_processing_apply_substitutions.go | 22 +++++++++++++++++++
 pkg/renderer/sgml/element_role.go             |  1 +
 pkg/renderer/sgml/paragraph.go                |  2 ++
 pkg/types/types.go                            | 18 ++++++++-------
 pkg/types/types_utils.go                      |  2 ++
 5 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 46e5be3..0387373 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -476,6 +476,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			elements[i] = &types.StringElement{
 				Content: v,
 			}
+		case *types.Footnote:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
@@ -559,6 +565,20 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case nil: // attribute without a value
+		return "", true, nil
+	case []*types.DocumentAuthor:
+		names := make([]string, len(v))
+		for i, author := range v {
+			if author.DocumentAuthorFullName != nil {
+				names[i] = author.FullName()
+			}
+		}
+		return strings.Join(names, ", "), true, nil
+	case *types.DocumentRevision:
+		return v.Revnumber, true, nil
+	case bool, int, float64: // set in the configuration
+		return fmt.Sprintf("%v", v), true, nil
 	default:
 		return v, true, nil
 	}
@@ -657,6 +677,8 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 	}
 	placeholders := newPlaceholders()
 	switch content := content.(type) {
+	case nil:
+		return nil, placeholders, nil
 	case string:
 		return []byte(content), placeholders, nil
 	case []interface{}:
diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 7cb696f..748e86e 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -47,6 +47,7 @@ func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (s
 func (r *sgmlRenderer) renderElementRole(ctx *context, role interface{}) (string, error) {
 	result := strings.Builder{}
 	switch role := role.(type) {
+	case nil: // eg: reference to an attribute without a value
 	case string:
 		result.WriteString(role)
 	case []interface{}:
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..4ac9493 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -137,6 +137,8 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 		return "", nil
 	}
 	switch title := title.(type) {
+	case nil: // blank title
+		return "", nil
 	case string:
 		return title, nil
 	case []interface{}:
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 645d2a3..4fe879e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2512,13 +2512,15 @@ func (s *Section) SetTitle(title []interface{}) {
 		log.Debugf("setting section title: %s", spew.Sdump(title))
 	}
 	// inline ID attribute foud at the end is *moved* at the attributes level of the section
-	if id, ok := title[len(title)-1].(*Attribute); ok {
-		sectionID := stringify(id.Value)
-		s.AddAttributes(Attributes{
-			AttrID: sectionID,
-			// AttrCustomID: true,
-		})
-		title = title[:len(title)-1]
+	if len(title) > 0 { // title may be empty (eg: reference to an attribute without a value)
+		if id, ok := title[len(title)-1].(*Attribute); ok {
+			sectionID := stringify(id.Value)
+			s.AddAttributes(Attributes{
+				AttrID: sectionID,
+				// AttrCustomID: true,
+			})
+			title = title[:len(title)-1]
+		}
 	}
 	s.Title = TrimTrailingSpaces(title)
 }
@@ -2593,7 +2595,7 @@ var _ Referencable = &Section{}
 
 func (s *Section) Reference(refs ElementReferences) {
 	id := s.Attributes.GetAsStringWithDefault(AttrID, "")
-	if id != "" && s.Title != nil {
+	if id != "" { // title may be empty (eg: reference to an attribute without a value)
 		refs[id] = s.Title
 	}
 }
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..6970325 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -145,6 +145,8 @@ func Apply(source string, fs ...applyFunc) string {
 
 func stringify(element interface{}) string {
 	switch element := element.(type) {
+	case nil:
+		return ""
 	case []interface{}:
 		result := strings.Builder{}
 		for _, e := range element {
-- 
2.43.0


From d2abe5d7f03a45e8723e95c2bf40f1fd6ce03f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 026/117] fix: substitute counters in attributes, and nested
 footnotes, without error

---
 .../document_processing_apply_substitutions.go  | 17 +++++++++++++++--
 pkg/types/types.go                              |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 0387373..ee38f7e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -343,9 +344,15 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 }
 
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
+	// in a fixed order, since the counters are incremented along the way
+	keys := make([]string, 0, len(attrs))
+	for k := range attrs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
 	var err error
-	for k, v := range attrs {
-		if attrs[k], err = replaceAttributeRefsInValue(ctx, v); err != nil {
+	for _, k := range keys {
+		if attrs[k], err = replaceAttributeRefsInValue(ctx, attrs[k]); err != nil {
 			return err
 		}
 	}
@@ -388,6 +395,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 4fe879e..6f16af7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2224,6 +2224,7 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 	if len(note.Elements) > 0 {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
+		substituteFootnotes(note.Elements, f) // nested footnotes
 		r.ID = note.ID
 	} else if id, found := f.indexOf(note); found {
 		r.ID = id
-- 
2.43.0


From c264853a7223ae9c9b958f409279d6b1652ac8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 027/117] fix: render the attributes of the first paragraph
 attached to a labeled list element, and the content of the first block as
 usual

---
 pkg/renderer/sgml/elements.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index e9659b6..d2519ee 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -27,14 +27,15 @@ func (r *sgmlRenderer) renderListElements(ctx *context, elements []interface{})
 	// log.Debugf("rendering list with %d element(s)...", len(elements))
 	buff := &strings.Builder{}
 	for i, element := range elements {
-		if i == 0 {
+		embedded := i == 0 && isPlainParagraph(element)
+		if embedded {
 			ctx.withinList++
 		}
 		renderedElement, err := r.renderElement(ctx, element)
 		if err != nil {
 			return "", errors.Wrap(err, "unable to render a list element")
 		}
-		if i == 0 {
+		if embedded {
 			ctx.withinList--
 		}
 		buff.WriteString(renderedElement)
@@ -42,6 +43,21 @@ func (r *sgmlRenderer) renderListElements(ctx *context, elements []interface{})
 	return buff.String(), nil
 }
 
+// isPlainParagraph returns true if the given element is a paragraph without any attribute
+// (besides the check style of the list element to which it belongs)
+func isPlainParagraph(element interface{}) bool {
+	p, ok := element.(*types.Paragraph)
+	if !ok {
+		return false
+	}
+	for k := range p.Attributes {
+		if k != types.AttrCheckStyle {
+			return false
+		}
+	}
+	return true
+}
+
 //nolint:gocyclo
 func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string, error) {
 	// log.Debugf("rendering element of type `%T`", element)
-- 
2.43.0


From fe8b8a98b28f6716a2083ed7f3ca5415481a1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 028/117] fix: arrange the lists and the blocks in the cells of
 tables, and keep headers as plain text

---
 .../document_processing_arrange_lists.go      | 30 +++++++++++++++++--
 .../document_processing_refine_fragments.go   |  6 ++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 23ca17b..769ab3a 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -58,6 +58,11 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			if err := arrangeListElementsInTable(e); err != nil {
+				return nil, err
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			l, err := doArrangeListElements(e.Elements)
@@ -75,6 +80,22 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 	return result, nil
 }
 
+func arrangeListElementsInTable(t *types.Table) error {
+	rows := []*types.TableRow{t.Header, t.Footer}
+	for _, r := range append(rows, t.Rows...) {
+		if r == nil {
+			continue
+		}
+		for _, c := range r.Cells {
+			var err error
+			if c.Elements, err = arrangeListElements(c.Elements); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func doArrangeListElements(elements []interface{}) (interface{}, error) {
 	lists := newListStack() // so we can support delimited blocks in list elements, etc.
 
@@ -85,9 +106,14 @@ content:
 		// }
 		if c, ok := element.(*types.ListContinuation); ok {
 			// also arrange the lists in the attached block
-			if b, ok := c.Element.(*types.DelimitedBlock); ok {
+			switch e := c.Element.(type) {
+			case *types.DelimitedBlock:
 				var err error
-				if b.Elements, err = arrangeListElements(b.Elements); err != nil {
+				if e.Elements, err = arrangeListElements(e.Elements); err != nil {
+					return nil, err
+				}
+			case *types.Table:
+				if err := arrangeListElementsInTable(e); err != nil {
 					return nil, err
 				}
 			}
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 866b6ea..7a3d1bf 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -76,6 +76,7 @@ func refineElement(ctx *ParseContext, element interface{}) error {
 func reparseTable(ctx *ParseContext, t *types.Table) error {
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
+			c.Format = "" // headers are always plain text
 			if err := reparseTableCell(ctx, c); err != nil {
 				return err
 			}
@@ -110,6 +111,11 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			return err
 		}
 		c.Elements = elements
+		for _, e := range c.Elements {
+			if err := refineElement(ctx, e); err != nil {
+				return err
+			}
+		}
 	default:
 		// wrap in a paragraph
 		c.Elements = []interface{}{
-- 
2.43.0


From ea11f6c7e19e20e0fbe39d7cb5c418fba9995982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 029/117] fix: keep the lines of lists which contain '::'
 without being a labeled list element

---
 pkg/parser/parser.go  | 804 +++++++++++++++++++++++++-----------------
 pkg/parser/parser.peg |   4 +-
 2 files changed, 476 insertions(+), 332 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f9d07c9..5789bc6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -27438,13 +27438,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48795},
+										pos: position{line: 1505, col: 5, offset: 48781},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48795},
+											pos: position{line: 1505, col: 5, offset: 48781},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48795},
+													pos: position{line: 1505, col: 5, offset: 48781},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27514,7 +27514,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48810},
+													pos: position{line: 1506, col: 5, offset: 48796},
 													expr: &seqExpr{
 														pos: position{line: 1536, col: 27, offset: 49636},
 														exprs: []interface{}{
@@ -27569,7 +27569,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48838},
+													pos: position{line: 1507, col: 5, offset: 48824},
 													expr: &actionExpr{
 														pos: position{line: 1577, col: 5, offset: 50855},
 														run: (*parser).callonExtraListElement522,
@@ -27767,7 +27767,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48868},
+													pos: position{line: 1508, col: 5, offset: 48854},
 													expr: &actionExpr{
 														pos: position{line: 1627, col: 5, offset: 52817},
 														run: (*parser).callonExtraListElement563,
@@ -27839,7 +27839,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48900},
+													pos: position{line: 1509, col: 5, offset: 48886},
 													expr: &actionExpr{
 														pos: position{line: 1716, col: 5, offset: 55354},
 														run: (*parser).callonExtraListElement579,
@@ -27895,9 +27895,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48930},
+													pos: position{line: 1510, col: 5, offset: 48916},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48932},
+														pos: position{line: 1510, col: 7, offset: 48918},
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1662, col: 5, offset: 53836},
@@ -28018,6 +28018,55 @@ var g = &grammar{
 																	},
 																},
 															},
+															&choiceExpr{
+																pos: position{line: 1510, col: 59, offset: 48970},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2852, col: 10, offset: 90239},
+																		run: (*parser).callonExtraListElement621,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																	&actionExpr{
+																		pos: position{line: 2861, col: 12, offset: 90410},
+																		run: (*parser).callonExtraListElement623,
+																		expr: &choiceExpr{
+																			pos: position{line: 2861, col: 13, offset: 90411},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2871, col: 8, offset: 90587},
+																		expr: &anyMatcher{
+																			line: 2871, col: 9, offset: 90588,
+																		},
+																	},
+																},
+															},
 														},
 													},
 												},
@@ -28025,7 +28074,7 @@ var g = &grammar{
 													pos: position{line: 1511, col: 5, offset: 48988},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
-														run: (*parser).callonExtraListElement621,
+														run: (*parser).callonExtraListElement631,
 														expr: &seqExpr{
 															pos: position{line: 724, col: 5, offset: 23042},
 															exprs: []interface{}{
@@ -28047,7 +28096,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
-																				run: (*parser).callonExtraListElement627,
+																				run: (*parser).callonExtraListElement637,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
@@ -28056,7 +28105,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
-																								run: (*parser).callonExtraListElement630,
+																								run: (*parser).callonExtraListElement640,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23595},
 																									exprs: []interface{}{
@@ -28083,7 +28132,7 @@ var g = &grammar{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement636,
+																								run: (*parser).callonExtraListElement646,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28098,7 +28147,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement639,
+																									run: (*parser).callonExtraListElement649,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28136,7 +28185,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonExtraListElement646,
+																				run: (*parser).callonExtraListElement656,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -28145,7 +28194,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonExtraListElement649,
+																								run: (*parser).callonExtraListElement659,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -28172,7 +28221,7 @@ var g = &grammar{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement655,
+																								run: (*parser).callonExtraListElement665,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28187,7 +28236,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement658,
+																									run: (*parser).callonExtraListElement668,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28225,7 +28274,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 760, col: 26, offset: 24320},
-																				run: (*parser).callonExtraListElement665,
+																				run: (*parser).callonExtraListElement675,
 																				expr: &seqExpr{
 																					pos: position{line: 760, col: 26, offset: 24320},
 																					exprs: []interface{}{
@@ -28240,7 +28289,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 764, col: 13, offset: 24456},
-																								run: (*parser).callonExtraListElement669,
+																								run: (*parser).callonExtraListElement679,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 764, col: 14, offset: 24457},
 																									expr: &charClassMatcher{
@@ -28257,7 +28306,7 @@ var g = &grammar{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement673,
+																								run: (*parser).callonExtraListElement683,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28272,7 +28321,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement676,
+																									run: (*parser).callonExtraListElement686,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28310,7 +28359,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement693,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -28319,7 +28368,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonExtraListElement686,
+																								run: (*parser).callonExtraListElement696,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -28346,7 +28395,7 @@ var g = &grammar{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement692,
+																								run: (*parser).callonExtraListElement702,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28361,7 +28410,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement695,
+																									run: (*parser).callonExtraListElement705,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28399,7 +28448,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonExtraListElement702,
+																				run: (*parser).callonExtraListElement712,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -28408,7 +28457,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonExtraListElement705,
+																								run: (*parser).callonExtraListElement715,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -28435,7 +28484,7 @@ var g = &grammar{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement711,
+																								run: (*parser).callonExtraListElement721,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28450,7 +28499,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement714,
+																									run: (*parser).callonExtraListElement724,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28488,7 +28537,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonExtraListElement721,
+																				run: (*parser).callonExtraListElement731,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -28497,7 +28546,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonExtraListElement724,
+																								run: (*parser).callonExtraListElement734,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -28524,7 +28573,7 @@ var g = &grammar{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement730,
+																								run: (*parser).callonExtraListElement740,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28539,7 +28588,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement733,
+																									run: (*parser).callonExtraListElement743,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28577,7 +28626,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonExtraListElement740,
+																				run: (*parser).callonExtraListElement750,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -28586,7 +28635,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonExtraListElement743,
+																								run: (*parser).callonExtraListElement753,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -28613,7 +28662,7 @@ var g = &grammar{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement749,
+																								run: (*parser).callonExtraListElement759,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28628,7 +28677,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement752,
+																									run: (*parser).callonExtraListElement762,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28666,7 +28715,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonExtraListElement759,
+																				run: (*parser).callonExtraListElement769,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -28675,7 +28724,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonExtraListElement762,
+																								run: (*parser).callonExtraListElement772,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -28702,7 +28751,7 @@ var g = &grammar{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement768,
+																								run: (*parser).callonExtraListElement778,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28717,7 +28766,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement771,
+																									run: (*parser).callonExtraListElement781,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28755,7 +28804,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonExtraListElement778,
+																				run: (*parser).callonExtraListElement788,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -28764,7 +28813,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonExtraListElement781,
+																								run: (*parser).callonExtraListElement791,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -28791,7 +28840,7 @@ var g = &grammar{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement787,
+																								run: (*parser).callonExtraListElement797,
 																								expr: &charClassMatcher{
 																									pos:        position{line: 2852, col: 10, offset: 90239},
 																									val:        "[\\t ]",
@@ -28806,7 +28855,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement790,
+																									run: (*parser).callonExtraListElement800,
 																									expr: &choiceExpr{
 																										pos: position{line: 2861, col: 13, offset: 90411},
 																										alternatives: []interface{}{
@@ -28854,7 +28903,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2802, col: 14, offset: 88832},
-														run: (*parser).callonExtraListElement798,
+														run: (*parser).callonExtraListElement808,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 2802, col: 14, offset: 88832},
 															expr: &charClassMatcher{
@@ -28872,7 +28921,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonExtraListElement802,
+															run: (*parser).callonExtraListElement812,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -36188,13 +36237,13 @@ var g = &grammar{
 													pos:   position{line: 1562, col: 5, offset: 50445},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48795},
+														pos: position{line: 1505, col: 5, offset: 48781},
 														run: (*parser).callonListContinuationElement1585,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48795},
+															pos: position{line: 1505, col: 5, offset: 48781},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48795},
+																	pos: position{line: 1505, col: 5, offset: 48781},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		run: (*parser).callonListContinuationElement1588,
@@ -36264,7 +36313,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48810},
+																	pos: position{line: 1506, col: 5, offset: 48796},
 																	expr: &seqExpr{
 																		pos: position{line: 1536, col: 27, offset: 49636},
 																		exprs: []interface{}{
@@ -36319,7 +36368,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48838},
+																	pos: position{line: 1507, col: 5, offset: 48824},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50855},
 																		run: (*parser).callonListContinuationElement1615,
@@ -36517,7 +36566,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48868},
+																	pos: position{line: 1508, col: 5, offset: 48854},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52817},
 																		run: (*parser).callonListContinuationElement1656,
@@ -36589,7 +36638,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48900},
+																	pos: position{line: 1509, col: 5, offset: 48886},
 																	expr: &actionExpr{
 																		pos: position{line: 1716, col: 5, offset: 55354},
 																		run: (*parser).callonListContinuationElement1672,
@@ -36645,9 +36694,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48930},
+																	pos: position{line: 1510, col: 5, offset: 48916},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48932},
+																		pos: position{line: 1510, col: 7, offset: 48918},
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
@@ -36768,6 +36817,55 @@ var g = &grammar{
 																					},
 																				},
 																			},
+																			&choiceExpr{
+																				pos: position{line: 1510, col: 59, offset: 48970},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2852, col: 10, offset: 90239},
+																						run: (*parser).callonListContinuationElement1714,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							val:        "[\\t ]",
+																							chars:      []rune{'\t', ' '},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																					&actionExpr{
+																						pos: position{line: 2861, col: 12, offset: 90410},
+																						run: (*parser).callonListContinuationElement1716,
+																						expr: &choiceExpr{
+																							pos: position{line: 2861, col: 13, offset: 90411},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2871, col: 8, offset: 90587},
+																						expr: &anyMatcher{
+																							line: 2871, col: 9, offset: 90588,
+																						},
+																					},
+																				},
+																			},
 																		},
 																	},
 																},
@@ -36775,7 +36873,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 48988},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1714,
+																		run: (*parser).callonListContinuationElement1724,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
@@ -36797,7 +36895,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1720,
+																								run: (*parser).callonListContinuationElement1730,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36806,7 +36904,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1723,
+																												run: (*parser).callonListContinuationElement1733,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -36833,7 +36931,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1729,
+																												run: (*parser).callonListContinuationElement1739,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -36848,7 +36946,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1732,
+																													run: (*parser).callonListContinuationElement1742,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -36886,7 +36984,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1739,
+																								run: (*parser).callonListContinuationElement1749,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -36895,7 +36993,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1742,
+																												run: (*parser).callonListContinuationElement1752,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -36922,7 +37020,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1748,
+																												run: (*parser).callonListContinuationElement1758,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -36937,7 +37035,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1751,
+																													run: (*parser).callonListContinuationElement1761,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -36975,7 +37073,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1758,
+																								run: (*parser).callonListContinuationElement1768,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -36990,7 +37088,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1762,
+																												run: (*parser).callonListContinuationElement1772,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37007,7 +37105,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1766,
+																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37022,7 +37120,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1769,
+																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37060,7 +37158,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1776,
+																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37069,7 +37167,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1779,
+																												run: (*parser).callonListContinuationElement1789,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37096,7 +37194,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1785,
+																												run: (*parser).callonListContinuationElement1795,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37111,7 +37209,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1788,
+																													run: (*parser).callonListContinuationElement1798,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37149,7 +37247,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1795,
+																								run: (*parser).callonListContinuationElement1805,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37158,7 +37256,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1798,
+																												run: (*parser).callonListContinuationElement1808,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37185,7 +37283,7 @@ var g = &grammar{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1804,
+																												run: (*parser).callonListContinuationElement1814,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37200,7 +37298,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1807,
+																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37238,7 +37336,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1814,
+																								run: (*parser).callonListContinuationElement1824,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37247,7 +37345,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1817,
+																												run: (*parser).callonListContinuationElement1827,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37274,7 +37372,7 @@ var g = &grammar{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1823,
+																												run: (*parser).callonListContinuationElement1833,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37289,7 +37387,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1826,
+																													run: (*parser).callonListContinuationElement1836,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37327,7 +37425,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1833,
+																								run: (*parser).callonListContinuationElement1843,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37336,7 +37434,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1836,
+																												run: (*parser).callonListContinuationElement1846,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37363,7 +37461,7 @@ var g = &grammar{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1842,
+																												run: (*parser).callonListContinuationElement1852,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37378,7 +37476,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1845,
+																													run: (*parser).callonListContinuationElement1855,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37416,7 +37514,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1852,
+																								run: (*parser).callonListContinuationElement1862,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37425,7 +37523,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1855,
+																												run: (*parser).callonListContinuationElement1865,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37452,7 +37550,7 @@ var g = &grammar{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1861,
+																												run: (*parser).callonListContinuationElement1871,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37467,7 +37565,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1864,
+																													run: (*parser).callonListContinuationElement1874,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37505,7 +37603,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1871,
+																								run: (*parser).callonListContinuationElement1881,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37514,7 +37612,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1874,
+																												run: (*parser).callonListContinuationElement1884,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37541,7 +37639,7 @@ var g = &grammar{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1880,
+																												run: (*parser).callonListContinuationElement1890,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37556,7 +37654,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1883,
+																													run: (*parser).callonListContinuationElement1893,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37604,7 +37702,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1891,
+																		run: (*parser).callonListContinuationElement1901,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
 																			expr: &charClassMatcher{
@@ -37622,7 +37720,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1895,
+																			run: (*parser).callonListContinuationElement1905,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -62080,458 +62178,481 @@ func (p *parser) callonExtraListElement613() (interface{}, error) {
 	return p.cur.onExtraListElement613(stack["separator"])
 }
 
-func (c *current) onExtraListElement630() (interface{}, error) {
+func (c *current) onExtraListElement621() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement621() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement621()
+}
+
+func (c *current) onExtraListElement623() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonExtraListElement623() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement623()
+}
+
+func (c *current) onExtraListElement640() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement630() (interface{}, error) {
+func (p *parser) callonExtraListElement640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement630()
+	return p.cur.onExtraListElement640()
 }
 
-func (c *current) onExtraListElement636() (interface{}, error) {
+func (c *current) onExtraListElement646() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement636() (interface{}, error) {
+func (p *parser) callonExtraListElement646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement636()
+	return p.cur.onExtraListElement646()
 }
 
-func (c *current) onExtraListElement639() (interface{}, error) {
+func (c *current) onExtraListElement649() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement649() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639()
+	return p.cur.onExtraListElement649()
 }
 
-func (c *current) onExtraListElement627(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement637(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement627() (interface{}, error) {
+func (p *parser) callonExtraListElement637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement627(stack["delimiter"])
+	return p.cur.onExtraListElement637(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement659() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement659() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement659()
 }
 
-func (c *current) onExtraListElement655() (interface{}, error) {
+func (c *current) onExtraListElement665() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement655() (interface{}, error) {
+func (p *parser) callonExtraListElement665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement655()
+	return p.cur.onExtraListElement665()
 }
 
-func (c *current) onExtraListElement658() (interface{}, error) {
+func (c *current) onExtraListElement668() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement658() (interface{}, error) {
+func (p *parser) callonExtraListElement668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement658()
+	return p.cur.onExtraListElement668()
 }
 
-func (c *current) onExtraListElement646(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement656(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646(stack["delimiter"])
+	return p.cur.onExtraListElement656(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement669() (interface{}, error) {
+func (c *current) onExtraListElement679() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement669() (interface{}, error) {
+func (p *parser) callonExtraListElement679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement669()
+	return p.cur.onExtraListElement679()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement683() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement683()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement686() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement686()
 }
 
-func (c *current) onExtraListElement665(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement675(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665(stack["language"])
+	return p.cur.onExtraListElement675(stack["language"])
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement696() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement696()
 }
 
-func (c *current) onExtraListElement692() (interface{}, error) {
+func (c *current) onExtraListElement702() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement692() (interface{}, error) {
+func (p *parser) callonExtraListElement702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement692()
+	return p.cur.onExtraListElement702()
 }
 
-func (c *current) onExtraListElement695() (interface{}, error) {
+func (c *current) onExtraListElement705() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement695() (interface{}, error) {
+func (p *parser) callonExtraListElement705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement695()
+	return p.cur.onExtraListElement705()
 }
 
-func (c *current) onExtraListElement683(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement693(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["delimiter"])
+	return p.cur.onExtraListElement693(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement715() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement715()
 }
 
-func (c *current) onExtraListElement711() (interface{}, error) {
+func (c *current) onExtraListElement721() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement711() (interface{}, error) {
+func (p *parser) callonExtraListElement721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement711()
+	return p.cur.onExtraListElement721()
 }
 
-func (c *current) onExtraListElement714() (interface{}, error) {
+func (c *current) onExtraListElement724() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement714() (interface{}, error) {
+func (p *parser) callonExtraListElement724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement714()
+	return p.cur.onExtraListElement724()
 }
 
-func (c *current) onExtraListElement702(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement712(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702(stack["delimiter"])
+	return p.cur.onExtraListElement712(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement734() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement734()
 }
 
-func (c *current) onExtraListElement730() (interface{}, error) {
+func (c *current) onExtraListElement740() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement730() (interface{}, error) {
+func (p *parser) callonExtraListElement740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement730()
+	return p.cur.onExtraListElement740()
 }
 
-func (c *current) onExtraListElement733() (interface{}, error) {
+func (c *current) onExtraListElement743() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement733() (interface{}, error) {
+func (p *parser) callonExtraListElement743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement733()
+	return p.cur.onExtraListElement743()
 }
 
-func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement731(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721(stack["delimiter"])
+	return p.cur.onExtraListElement731(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement753() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement753()
 }
 
-func (c *current) onExtraListElement749() (interface{}, error) {
+func (c *current) onExtraListElement759() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement749() (interface{}, error) {
+func (p *parser) callonExtraListElement759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement749()
+	return p.cur.onExtraListElement759()
 }
 
-func (c *current) onExtraListElement752() (interface{}, error) {
+func (c *current) onExtraListElement762() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement752() (interface{}, error) {
+func (p *parser) callonExtraListElement762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement752()
+	return p.cur.onExtraListElement762()
 }
 
-func (c *current) onExtraListElement740(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement750(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement750() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740(stack["delimiter"])
+	return p.cur.onExtraListElement750(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement772() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement772()
 }
 
-func (c *current) onExtraListElement768() (interface{}, error) {
+func (c *current) onExtraListElement778() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement768() (interface{}, error) {
+func (p *parser) callonExtraListElement778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement768()
+	return p.cur.onExtraListElement778()
 }
 
-func (c *current) onExtraListElement771() (interface{}, error) {
+func (c *current) onExtraListElement781() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement771() (interface{}, error) {
+func (p *parser) callonExtraListElement781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement771()
+	return p.cur.onExtraListElement781()
 }
 
-func (c *current) onExtraListElement759(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement769(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759(stack["delimiter"])
+	return p.cur.onExtraListElement769(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement781() (interface{}, error) {
+func (c *current) onExtraListElement791() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement791()
 }
 
-func (c *current) onExtraListElement787() (interface{}, error) {
+func (c *current) onExtraListElement797() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement787() (interface{}, error) {
+func (p *parser) callonExtraListElement797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement787()
+	return p.cur.onExtraListElement797()
 }
 
-func (c *current) onExtraListElement790() (interface{}, error) {
+func (c *current) onExtraListElement800() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement790() (interface{}, error) {
+func (p *parser) callonExtraListElement800() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement790()
+	return p.cur.onExtraListElement800()
 }
 
-func (c *current) onExtraListElement778(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement788(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
+func (p *parser) callonExtraListElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement778(stack["delimiter"])
+	return p.cur.onExtraListElement788(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement621(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement631(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement621() (interface{}, error) {
+func (p *parser) callonExtraListElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement621(stack["delimiter"])
+	return p.cur.onExtraListElement631(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement798() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement798() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement798()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement812() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement812()
 }
 
 func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
@@ -66746,458 +66867,481 @@ func (p *parser) callonListContinuationElement1706() (interface{}, error) {
 	return p.cur.onListContinuationElement1706(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1714() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1714()
+}
+
+func (c *current) onListContinuationElement1716() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1716() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1716()
+}
+
+func (c *current) onListContinuationElement1733() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1733()
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1739() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1739()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1742() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1742()
 }
 
-func (c *current) onListContinuationElement1720(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1730(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1730() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["delimiter"])
+	return p.cur.onListContinuationElement1730(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1752() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1752() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1752()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1758() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1758()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1761() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1761()
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1749(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1749(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1772() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1772()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1776() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1758(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1768(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["language"])
+	return p.cur.onListContinuationElement1768(stack["language"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1789() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1789()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1795() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1795()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1786(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776(stack["delimiter"])
+	return p.cur.onListContinuationElement1786(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1808() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1808()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1814() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1814() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1814()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1795(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1805(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["delimiter"])
+	return p.cur.onListContinuationElement1805(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1827() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1827()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1833() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1833()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1824(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["delimiter"])
+	return p.cur.onListContinuationElement1824(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1846() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1846()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1852() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1852()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1843(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1843() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1843(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1865() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1865()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1871() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1871()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1874() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1874()
 }
 
-func (c *current) onListContinuationElement1852(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1862(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1862() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852(stack["delimiter"])
+	return p.cur.onListContinuationElement1862(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1884() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1884()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1890() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1890()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1893() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1893()
 }
 
-func (c *current) onListContinuationElement1871(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1881(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871(stack["delimiter"])
+	return p.cur.onListContinuationElement1881(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1714(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1724(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["delimiter"])
+	return p.cur.onListContinuationElement1724(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1901() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1901() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1901()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1905() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1905()
 }
 
 func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 43db1df..93eeb88 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1496,7 +1496,7 @@ ExtraListElement <- // other elements can be separated by blankline WITHOUT attr
             })
         / ListContinuation
         / SinglelineComment // must be attached, i.e., no intermediate blankline allowed
-        / ListElementParagraphLine // must be attached, i.e., no intermediate blankline allowed
+        / ListElementParagraphLine // must be attached (ie, no blankline allowed)
     ) {
         return element, nil
     }
@@ -1507,7 +1507,7 @@ ListElementParagraphLine <-
     !OrderedListElementPrefix
     !UnorderedListElementPrefix
     !CalloutListElementPrefix
-    !(LabeledListElementTerm LabeledListElementSeparator)
+    !(LabeledListElementTerm LabeledListElementSeparator (Space / EOL))
     !BlockDelimiter
     content:(ManyChars)
     EOL { // do not retain the EOL chars
-- 
2.43.0


From 33b78d3e5d2d003a06d3ab2493fa650b41b8c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 030/117] fix: well-formed XHTML for interactive checklists and
 markdown quotes, and keep the description

---
 pkg/renderer/sgml/paragraph.go                  | 11 +++++++++--
 pkg/renderer/sgml/table.go                      |  2 +-
 pkg/renderer/sgml/xhtml5/article.go             |  1 +
 .../delimited_block_markdown_quote_tmpl.go      | 17 +++++++++++++++++
 pkg/renderer/sgml/xhtml5/xhtml5.go              |  1 +
 5 files changed, 29 insertions(+), 3 deletions(-)
 create mode 100644 pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go

diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 4ac9493..654a83b 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -95,7 +95,7 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	}{
 		Context:    ctx,
 		Class:      class,
-		CheckStyle: renderCheckStyle(p.Attributes[types.AttrCheckStyle]),
+		CheckStyle: renderCheckStyle(ctx, p.Attributes[types.AttrCheckStyle]),
 		Content:    trimSpaces(content),
 	})
 }
@@ -114,16 +114,23 @@ func trimSpaces(content string) string {
 	return contentBuf.String()
 }
 
-func renderCheckStyle(style interface{}) string {
+func renderCheckStyle(ctx *context, style interface{}) string {
+	xhtml := strings.HasPrefix(ctx.config.BackEnd, "xhtml")
 	// default checkboxes
 	switch style {
 	case types.Checked:
 		return "&#10003; "
 	case types.CheckedInteractive:
+		if xhtml {
+			return `<input type="checkbox" data-item-complete="1" checked="checked"/> `
+		}
 		return `<input type="checkbox" data-item-complete="1" checked> `
 	case types.Unchecked:
 		return "&#10063; "
 	case types.UncheckedInteractive:
+		if xhtml {
+			return `<input type="checkbox" data-item-complete="0"/> `
+		}
 		return `<input type="checkbox" data-item-complete="0"> `
 	default:
 		return ""
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..98b4813 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -304,7 +304,7 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 			ID:         r.renderElementID(e.Attributes),
 			Title:      title,
 			Class:      "tableblock",
-			CheckStyle: renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
+			CheckStyle: renderCheckStyle(ctx, e.Attributes[types.AttrCheckStyle]),
 			Content:    string(content),
 		})
 		if err != nil {
diff --git a/pkg/renderer/sgml/xhtml5/article.go b/pkg/renderer/sgml/xhtml5/article.go
index cf8983d..17ddc75 100644
--- a/pkg/renderer/sgml/xhtml5/article.go
+++ b/pkg/renderer/sgml/xhtml5/article.go
@@ -8,6 +8,7 @@ const (
 		"<meta http-equiv=\"X-UA-Compatible\" content=\"IE=edge\"/>\n" +
 		"<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\"/>\n" +
 		"{{ if .Generator }}<meta name=\"generator\" content=\"{{ .Generator }}\"/>\n{{ end }}" +
+		"{{ if .Description }}<meta name=\"description\" content=\"{{ .Description }}\"/>\n{{ end }}" +
 		"{{ if .Authors }}<meta name=\"author\" content=\"{{ .Authors }}\"/>\n{{ end }}" +
 		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ $css }}\"/>\n{{ end }}" +
 		"<title>{{ .Title }}</title>\n" +
diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
new file mode 100644
index 0000000..1ae08a8
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
@@ -0,0 +1,17 @@
+package xhtml5
+
+const (
+	markdownQuoteBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
+		"class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
+		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
+		"<blockquote>\n" +
+		"{{ if .Content }}<div class=\"paragraph\">\n" +
+		"<p>{{ .Content }}</p>\n" +
+		"</div>\n{{ end }}" +
+		"</blockquote>\n" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
+		"&#8212; {{ .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"</div>\n{{ end }}" +
+		"</div>\n"
+)
diff --git a/pkg/renderer/sgml/xhtml5/xhtml5.go b/pkg/renderer/sgml/xhtml5/xhtml5.go
index a379e0e..b4eac58 100644
--- a/pkg/renderer/sgml/xhtml5/xhtml5.go
+++ b/pkg/renderer/sgml/xhtml5/xhtml5.go
@@ -22,6 +22,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	templates.IconImage = iconImageTmpl
 	templates.InlineImage = inlineImageTmpl
 	templates.LabeledListHorizontalElement = labeledListHorizontalItemTmpl
+	templates.MarkdownQuoteBlock = markdownQuoteBlockTmpl
 	templates.Table = tableTmpl
 	templates.ThematicBreak = thematicBreakTmpl
 	templates.QuoteBlock = quoteBlockTmpl
-- 
2.43.0


From b21f04250de2b3433a0ff4434b7e76fb98bd80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 031/117] fix: render the titles and the styles of paragraphs
 in the cells of tables

---
 pkg/renderer/sgml/table.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 98b4813..6414e0f 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -283,6 +283,9 @@ func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col
 func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (string, error) {
 	switch e := element.(type) {
 	case *types.Paragraph:
+		if e.Attributes.Has(types.AttrTitle) || e.Attributes.Has(types.AttrStyle) {
+			return r.renderTableCellElement(ctx, e)
+		}
 		log.Debug("rendering paragraph within table cell")
 		content, err := r.renderElements(ctx, e.Elements)
 		if err != nil {
@@ -312,15 +315,19 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 		}
 		return strings.TrimSuffix(result, "\n"), nil
 	default:
-		// Note: Asciidoctor wraps the `<div class=imageblock>` elements within a `<div class="content">`, which we also do here for the sake of compatibility
-		renderedElement, err := r.renderElement(ctx, e)
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render table cell")
-		}
-		return r.execute(r.tableCellBlock, struct {
-			Content string
-		}{
-			Content: renderedElement,
-		})
+		return r.renderTableCellElement(ctx, e)
+	}
+}
+
+func (r *sgmlRenderer) renderTableCellElement(ctx *context, element interface{}) (string, error) {
+	// Note: Asciidoctor wraps the `<div class=imageblock>` elements within a `<div class="content">`, which we also do here for the sake of compatibility
+	renderedElement, err := r.renderElement(ctx, element)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table cell")
 	}
+	return r.execute(r.tableCellBlock, struct {
+		Content string
+	}{
+		Content: renderedElement,
+	})
 }
-- 
2.43.0


From 227bfacd9f60a0cdec7425cc0aabed1fb16a5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 032/117] fix: the literal style of a paragraph does not apply
 to the next blocks

---
 pkg/parser/parser.go  | 6 +++---
 pkg/parser/parser.peg | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5789bc6..ca3eb08 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -49633,9 +49633,9 @@ func (p *parser) callonIncludedFileLine1() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment8(attributes interface{}) error {
-	if attributes, ok := attributes.(types.Attributes); ok {
-		c.storeBlockAttributes(attributes)
-	}
+	// (discard the previous ones...)
+	a, _ := attributes.(types.Attributes)
+	c.storeBlockAttributes(a)
 	return nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 93eeb88..e70c8c0 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -228,9 +228,9 @@ DocumentFragment <-
     NotEOF
     attributes:(BlockAttributes)? 
     #{
-        if attributes, ok := attributes.(types.Attributes); ok {
-            c.storeBlockAttributes(attributes)
-        }
+        // (discard the previous ones...)
+        a, _ := attributes.(types.Attributes)
+        c.storeBlockAttributes(a)
         return nil
     }
     element:(
-- 
2.43.0


From 847976856229764aa9a58ddaba7f8ceacf78dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 033/117] fix: number the titled examples only, in the order of
 the document

---
 pkg/renderer/sgml/delimited_block_example.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..eb8afb4 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -13,10 +13,6 @@ import (
 func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	// default, example block
 	number := 0
-	content, err := r.renderElements(ctx, b.Elements)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render example block content")
-	}
 	roles, err := r.renderElementRoles(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
@@ -29,7 +25,8 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		}
 	}
 	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
+	// (examples without a title have no caption, hence no number)
+	if b.Attributes.Has(types.AttrTitle) && strings.Contains(c, "{counter:example-number}") {
 		number = ctx.GetAndIncrementExampleBlockCounter()
 		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
 	}
@@ -39,6 +36,11 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 	}
 	caption := &strings.Builder{}
 	caption.WriteString(c)
+	// after the caption, so that the numbers are in the order of the document
+	content, err := r.renderElements(ctx, b.Elements)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render example block content")
+	}
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
-- 
2.43.0


From 12ba4f3d8df4f9e46a89345060d99b70fd917df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 034/117] fix: render the roles of literal blocks, and of quote
 and verse paragraphs

---
 pkg/renderer/sgml/delimited_block_quote.go              | 6 ++++++
 pkg/renderer/sgml/delimited_block_verse.go              | 6 ++++++
 pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go | 2 +-
 pkg/renderer/sgml/html5/paragraph.go                    | 4 ++--
 pkg/renderer/sgml/xhtml5/paragraph.go                   | 4 ++--
 5 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_quote.go b/pkg/renderer/sgml/delimited_block_quote.go
index 4764215..292add2 100644
--- a/pkg/renderer/sgml/delimited_block_quote.go
+++ b/pkg/renderer/sgml/delimited_block_quote.go
@@ -44,6 +44,10 @@ func (r *sgmlRenderer) renderQuoteParagraph(ctx *context, p *types.Paragraph) (s
 		return "", errors.Wrap(err, "unable to render quote paragraph lines")
 	}
 	attribution := newAttribution(p)
+	roles, err := r.renderElementRoles(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render quote paragraph roles")
+	}
 	title, err := r.renderElementTitle(ctx, p.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render callout list roles")
@@ -52,12 +56,14 @@ func (r *sgmlRenderer) renderQuoteParagraph(ctx *context, p *types.Paragraph) (s
 		Context     *context
 		ID          string
 		Title       string
+		Roles       string
 		Attribution Attribution
 		Content     string
 	}{
 		Context:     ctx,
 		ID:          r.renderElementID(p.Attributes),
 		Title:       title,
+		Roles:       roles,
 		Attribution: attribution,
 		Content:     string(content),
 	})
diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index ab516ea..18d3d3c 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -51,6 +51,10 @@ func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (s
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
 	attribution := newAttribution(p)
+	roles, err := r.renderElementRoles(ctx, p.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render verse paragraph roles")
+	}
 	title, err := r.renderElementTitle(ctx, p.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render callout list roles")
@@ -59,12 +63,14 @@ func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (s
 		Context     *context
 		ID          string
 		Title       string
+		Roles       string
 		Attribution Attribution
 		Content     string
 	}{
 		Context:     ctx,
 		ID:          r.renderElementID(p.Attributes),
 		Title:       title,
+		Roles:       roles,
 		Attribution: attribution,
 		Content:     string(content),
 	})
diff --git a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
index 58802e1..1bde785 100644
--- a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
@@ -2,7 +2,7 @@ package html5
 
 const (
 	literalBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
-		"class=\"literalblock\"{{ if .Roles }} {{ .Roles }}{{ end }}>\n" +
+		"class=\"literalblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre>{{ .Content }}</pre>\n" +
diff --git a/pkg/renderer/sgml/html5/paragraph.go b/pkg/renderer/sgml/html5/paragraph.go
index 79b1d45..a563331 100644
--- a/pkg/renderer/sgml/html5/paragraph.go
+++ b/pkg/renderer/sgml/html5/paragraph.go
@@ -20,14 +20,14 @@ const (
 
 	embeddedParagraphTmpl = "<p{{ if .Class }} class=\"{{ .Class }}\"{{ end }}>{{ .CheckStyle }}{{ .Content }}</p>\n"
 
-	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
+	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
 		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
-	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
+	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
diff --git a/pkg/renderer/sgml/xhtml5/paragraph.go b/pkg/renderer/sgml/xhtml5/paragraph.go
index 90edb2b..b37643a 100644
--- a/pkg/renderer/sgml/xhtml5/paragraph.go
+++ b/pkg/renderer/sgml/xhtml5/paragraph.go
@@ -1,14 +1,14 @@
 package xhtml5
 
 const (
-	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
+	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
 		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
-	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
+	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
-- 
2.43.0


From 2dcb19f4f90912f40d3608cb7dc390f6bb310c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 035/117] fix: escape the special characters of all texts and
 attributes in the output

---
 pkg/parser/parser.go                         | 188 ++++++++++++++++---
 pkg/parser/parser.peg                        |   8 +-
 pkg/renderer/sgml/attribution.go             |   6 +-
 pkg/renderer/sgml/delimited_block_example.go |   2 +-
 pkg/renderer/sgml/delimited_block_source.go  |   2 +-
 pkg/renderer/sgml/document_details.go        |  12 +-
 pkg/renderer/sgml/icon.go                    |  26 +--
 pkg/renderer/sgml/image.go                   |  32 ++--
 pkg/renderer/sgml/link.go                    |   4 +-
 pkg/renderer/sgml/list.go                    |   2 +-
 pkg/renderer/sgml/sgml.go                    |   6 +-
 pkg/renderer/sgml/table.go                   |  10 +-
 pkg/renderer/sgml/table_of_contents.go       |   4 +-
 pkg/types/attributes.go                      |  21 ++-
 14 files changed, 245 insertions(+), 78 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index ca3eb08..eb5afdc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -42310,14 +42310,51 @@ var g = &grammar{
 					&actionExpr{
 						pos: position{line: 2237, col: 21, offset: 72487},
 						run: (*parser).callonSubscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2237, col: 21, offset: 72487},
-							expr: &charClassMatcher{
-								pos:        position{line: 2237, col: 21, offset: 72487},
-								val:        "[^\\r\\n ~]",
-								chars:      []rune{'\r', '\n', ' ', '~'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2237, col: 21, offset: 72487},
+							label: "content",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2237, col: 29, offset: 72495},
+								expr: &choiceExpr{
+									pos: position{line: 2237, col: 30, offset: 72496},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2449, col: 5, offset: 78770},
+											run: (*parser).callonSubscriptTextElement7,
+											expr: &seqExpr{
+												pos: position{line: 2449, col: 5, offset: 78770},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2449, col: 5, offset: 78770},
+														run: (*parser).callonSubscriptTextElement9,
+													},
+													&labeledExpr{
+														pos:   position{line: 2452, col: 5, offset: 78846},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2453, col: 9, offset: 78864},
+															run: (*parser).callonSubscriptTextElement11,
+															expr: &charClassMatcher{
+																pos:        position{line: 2453, col: 10, offset: 78865},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 2237, col: 49, offset: 72515},
+											val:        "[^\\r\\n ~]",
+											chars:      []rune{'\r', '\n', ' ', '~'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42420,14 +42457,51 @@ var g = &grammar{
 					&actionExpr{
 						pos: position{line: 2264, col: 23, offset: 73317},
 						run: (*parser).callonSuperscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 23, offset: 73317},
-							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 23, offset: 73317},
-								val:        "[^\\r\\n ^]",
-								chars:      []rune{'\r', '\n', ' ', '^'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2264, col: 23, offset: 73317},
+							label: "content",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2264, col: 31, offset: 73325},
+								expr: &choiceExpr{
+									pos: position{line: 2264, col: 32, offset: 73326},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2449, col: 5, offset: 78770},
+											run: (*parser).callonSuperscriptTextElement7,
+											expr: &seqExpr{
+												pos: position{line: 2449, col: 5, offset: 78770},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2449, col: 5, offset: 78770},
+														run: (*parser).callonSuperscriptTextElement9,
+													},
+													&labeledExpr{
+														pos:   position{line: 2452, col: 5, offset: 78846},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2453, col: 9, offset: 78864},
+															run: (*parser).callonSuperscriptTextElement11,
+															expr: &charClassMatcher{
+																pos:        position{line: 2453, col: 10, offset: 78865},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 2264, col: 51, offset: 73345},
+											val:        "[^\\r\\n ^]",
+											chars:      []rune{'\r', '\n', ' ', '^'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
 							},
 						},
 					},
@@ -69663,16 +69737,49 @@ func (p *parser) callonSubscriptText1() (interface{}, error) {
 	return p.cur.onSubscriptText1(stack["element"])
 }
 
-func (c *current) onSubscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '~'
-	return c.text, nil
+func (c *current) onSubscriptTextElement9() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSubscriptTextElement9() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement9()
+}
+
+func (c *current) onSubscriptTextElement11() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSubscriptTextElement11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement11()
+}
+
+func (c *current) onSubscriptTextElement7(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement7(stack["element"])
+}
+
+func (c *current) onSubscriptTextElement3(content interface{}) (interface{}, error) {
+	// text
+	return content, nil
 
 }
 
 func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement3()
+	return p.cur.onSubscriptTextElement3(stack["content"])
 }
 
 func (c *current) onEscapedSubscriptText4() (interface{}, error) {
@@ -69710,16 +69817,49 @@ func (p *parser) callonSuperscriptText1() (interface{}, error) {
 	return p.cur.onSuperscriptText1(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '^'
-	return c.text, nil
+func (c *current) onSuperscriptTextElement9() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement9() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement9()
+}
+
+func (c *current) onSuperscriptTextElement11() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSuperscriptTextElement11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement11()
+}
+
+func (c *current) onSuperscriptTextElement7(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement7(stack["element"])
+}
+
+func (c *current) onSuperscriptTextElement3(content interface{}) (interface{}, error) {
+	// text
+	return content, nil
 
 }
 
 func (p *parser) callonSuperscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement3()
+	return p.cur.onSuperscriptTextElement3(stack["content"])
 }
 
 func (c *current) onEscapedSuperscriptText4() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index e70c8c0..3e367b0 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2234,8 +2234,8 @@ SubscriptTextDelimiter <- "~"
 
 SubscriptTextElement <- QuotedText / NonSubscriptText 
 
-NonSubscriptText <- [^\r\n ~]+ { // anything except spaces, EOL or '~'
-        return c.text, nil
+NonSubscriptText <- content:(SpecialCharacter / [^\r\n ~])+ { // text
+        return content, nil
     }
 
 EscapedSubscriptText <-
@@ -2261,8 +2261,8 @@ SuperscriptTextDelimiter <- "^"
 
 SuperscriptTextElement <- QuotedText / NonSuperscriptText 
 
-NonSuperscriptText <- [^\r\n ^]+ { // anything except spaces, EOL or '^'
-        return c.text, nil
+NonSuperscriptText <- content:(SpecialCharacter / [^\r\n ^])+ { // text
+        return content, nil
     }
 
 EscapedSuperscriptText <- 
diff --git a/pkg/renderer/sgml/attribution.go b/pkg/renderer/sgml/attribution.go
index 2727b6f..c1c7a51 100644
--- a/pkg/renderer/sgml/attribution.go
+++ b/pkg/renderer/sgml/attribution.go
@@ -11,12 +11,12 @@ type Attribution struct { // TODO: unexport this type?
 func newAttribution(b types.WithAttributes) Attribution {
 	result := Attribution{}
 	if author, found := b.GetAttributes().GetAsString(types.AttrQuoteAuthor); found {
-		result.First = author
+		result.First = escapeString(author)
 		if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-			result.Second = title
+			result.Second = escapeString(title)
 		}
 	} else if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-		result.First = title
+		result.First = escapeString(title)
 	}
 	return result
 }
diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index eb8afb4..a2beb6c 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -35,7 +35,7 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
 	caption := &strings.Builder{}
-	caption.WriteString(c)
+	caption.WriteString(escapeString(c))
 	// after the caption, so that the numbers are in the order of the document
 	content, err := r.renderElements(ctx, b.Elements)
 	if err != nil {
diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..ff97b6a 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -50,7 +50,7 @@ func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock)
 		Title:             title,
 		SyntaxHighlighter: highlighter,
 		Roles:             roles,
-		Language:          language,
+		Language:          escapeString(language),
 		Nowrap:            nowrap,
 		Content:           strings.Trim(content, "\n"),
 	})
diff --git a/pkg/renderer/sgml/document_details.go b/pkg/renderer/sgml/document_details.go
index 7761e9e..75eaadb 100644
--- a/pkg/renderer/sgml/document_details.go
+++ b/pkg/renderer/sgml/document_details.go
@@ -36,10 +36,10 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 		RevRemark string
 	}{
 		Authors:   authors,
-		RevLabel:  revLabel,
-		RevNumber: revNumber,
-		RevDate:   revDate,
-		RevRemark: revRemark,
+		RevLabel:  escapeString(revLabel),
+		RevNumber: escapeString(revNumber),
+		RevDate:   escapeString(revDate),
+		RevRemark: escapeString(revRemark),
 	}); err != nil {
 		return "", errors.Wrap(err, "error while rendering the document details")
 	}
@@ -78,8 +78,8 @@ func (r *sgmlRenderer) renderDocumentAuthorsDetails(ctx *context) (string, error
 				Email string
 			}{
 				Index: index,
-				Name:  author,
-				Email: email,
+				Name:  escapeString(author),
+				Email: escapeString(email),
 			}); err != nil {
 				return "", errors.Wrap(err, "error while rendering the document authors")
 			}
diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..db87e3f 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -29,9 +29,9 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		Class:  icon.Class,
 		Icon:   iconStr,
 		ID:     r.renderElementID(icon.Attributes),
-		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Role:   icon.Attributes.GetAsStringWithDefault(types.AttrRoles, ""),
+		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Role:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrRoles, "")),
 	})
 }
 
@@ -99,16 +99,16 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		Admonition bool
 	}{
 		Class:      icon.Class,
-		Alt:        alt,
-		Title:      title,
-		Width:      icon.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:     icon.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
-		Size:       icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, ""),
-		Rotate:     icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, ""),
-		Flip:       icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, ""),
-		Link:       icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window:     icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Src:        renderIconPath(ctx, icon.Class),
+		Alt:        escapeString(alt),
+		Title:      escapeString(title),
+		Width:      escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
+		Size:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, "")),
+		Rotate:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, "")),
+		Flip:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, "")),
+		Link:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Src:        escapeString(renderIconPath(ctx, icon.Class)),
 		Admonition: admonition,
 	}); err != nil {
 		return "", errors.Wrap(err, "unable to render icon")
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index c89d5c3..d85c6d9 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -39,7 +39,7 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 			number = ctx.GetAndIncrementImageCounter()
 			c = strings.ReplaceAll(c, "{counter:figure-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeString(c))
 	}
 	roles, err := r.renderImageRoles(ctx, img.Attributes)
 	if err != nil {
@@ -63,15 +63,15 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 		Height      string
 	}{
 		ID:          r.renderElementID(img.Attributes),
-		Src:         src,
+		Src:         escapeImageSrc(ctx, src),
 		Title:       title,
 		ImageNumber: number,
 		Caption:     caption.String(),
 		Roles:       roles,
-		Href:        img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Alt:         alt,
-		Width:       img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:      img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:        escapeString(img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Alt:         escapeString(alt),
+		Width:       escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:      escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -80,7 +80,7 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image")
 	}
-	href := img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")
+	href := escapeString(img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""))
 	src := r.getImageSrc(ctx, img.Location)
 	alt, err := r.renderImageAlt(img.Attributes, src)
 	if err != nil {
@@ -99,13 +99,13 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 		Width  string
 		Height string
 	}{
-		Src:    src,
+		Src:    escapeImageSrc(ctx, src),
 		Title:  title,
 		Roles:  roles,
 		Href:   href,
-		Alt:    alt,
-		Width:  img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height: img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Alt:    escapeString(alt),
+		Width:  escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height: escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -131,6 +131,16 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 	return result
 }
 
+// escapeImageSrc escapes the special characters in the source of an image, except the ampersands (eg: in a query string)
+// when the output is not XML
+func escapeImageSrc(ctx *context, src string) string {
+	src = escapeString(src)
+	if !strings.HasPrefix(ctx.config.BackEnd, "xhtml") {
+		src = strings.ReplaceAll(src, "&amp;", "&")
+	}
+	return src
+}
+
 func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (string, error) {
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index c8003c7..c2fa6df 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -46,11 +46,11 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		Target   string
 		NoOpener bool
 	}{
-		ID:       id,
+		ID:       escapeString(id),
 		URL:      htmlEscaper.Replace(l.Location.ToString()),
 		Text:     text,
 		Class:    class,
-		Target:   target,
+		Target:   escapeString(target),
 		NoOpener: noopener,
 	})
 }
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index e9e53fd..a7cf6ad 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -69,7 +69,7 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 		Roles:     roles,
 		Style:     style,
 		ListStyle: r.numberingType(style),
-		Start:     l.Attributes.GetAsStringWithDefault(types.AttrStart, ""),
+		Start:     escapeString(l.Attributes.GetAsStringWithDefault(types.AttrStart, "")),
 		Content:   content.String(),
 		Reversed:  l.Attributes.HasOption("reversed"),
 	})
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index b68f053..de5e761 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -112,14 +112,14 @@ elements:
 		}{
 			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
-			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
+			Description:           escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
 			Title:                 renderedTitle,
 			Authors:               r.renderAuthors(ctx, doc),
 			Header:                renderedHeader,
 			Roles:                 roles,
 			ID:                    r.renderDocumentID(doc),
 			Content:               string(renderedContent),
-			RevNumber:             ctx.attributes.GetAsStringWithDefault("revnumber", ""),
+			RevNumber:             escapeString(ctx.attributes.GetAsStringWithDefault("revnumber", "")),
 			LastUpdated:           ctx.config.LastUpdated.Format(configuration.LastUpdatedFormat),
 			CSS:                   ctx.config.CSS,
 			IncludeHTMLBodyHeader: !ctx.attributes.Has(types.AttrNoHeader),
@@ -294,7 +294,7 @@ func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { /
 		if a := header.Authors(); a != nil {
 			authorStrs := make([]string, len(a))
 			for i, author := range a {
-				authorStrs[i] = author.FullName()
+				authorStrs[i] = escapeString(author.FullName())
 			}
 			return strings.Join(authorStrs, "; ")
 
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 6414e0f..28ab56e 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -57,7 +57,7 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 			number = ctx.GetAndIncrementTableCounter()
 			c = strings.ReplaceAll(c, "{counter:table-number}", strconv.Itoa(number))
 		}
-		caption.WriteString(c)
+		caption.WriteString(escapeString(c))
 	}
 	columns, err := t.Columns()
 	if err != nil {
@@ -108,11 +108,11 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 		TableNumber: number,
 		Caption:     caption.String(),
 		Roles:       roles,
-		Frame:       frame,
-		Grid:        grid,
+		Frame:       escapeString(frame),
+		Grid:        escapeString(grid),
 		Fit:         fit,
-		Float:       float,
-		Stripes:     stripes,
+		Float:       escapeString(float),
+		Stripes:     escapeString(stripes),
 		Width:       width,
 		Header:      header,
 		Body:        body,
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..b681383 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -102,7 +102,7 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 	}
 	switch title := title.(type) {
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
@@ -144,7 +144,7 @@ func (r *sgmlRenderer) renderTableOfContentsEntry(ctx *context, entry *types.ToC
 		Content string
 	}{
 		Number:  entry.Number,
-		ID:      entry.ID,
+		ID:      escapeString(entry.ID),
 		Title:   entry.Title,
 		Content: content,
 	})
diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 2a89e9d..b01eb25 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -496,13 +496,30 @@ func (a Attributes) HasOption(key string) bool {
 // GetAsString gets the string value for the given key (+ `true`),
 // or empty string (+ `false`) if none was found
 func (a Attributes) GetAsString(k string) (string, bool) {
-	if value, ok := a[k].(string); ok {
+	switch value := a[k].(type) {
+	case string:
 		return value, true
+	case []interface{}: // when the value contains special characters
+		if isPlainText(value) {
+			return stringify(value), true
+		}
 	}
 	// log.Warnf("no entry for key '%s' in attributes, or value is not a string: '%T'", k, a[k])
 	return "", false
 }
 
+// isPlainText checks if the given elements are only made of strings and special characters
+func isPlainText(elements []interface{}) bool {
+	for _, e := range elements {
+		switch e.(type) {
+		case *StringElement, *SpecialCharacter:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // GetAsIntWithDefault gets the int value for the given key ,
 // or default if none was found,
 func (a Attributes) GetAsIntWithDefault(key string, defaultValue int) int {
@@ -538,7 +555,7 @@ func (a Attributes) GetAsStringWithDefault(key, defaultValue string) string {
 		if value == nil {
 			return "" // nil present means attribute was reset
 		}
-		if value, ok := value.(string); ok {
+		if value, ok := a.GetAsString(key); ok {
 			return value
 		} else if v, ok := a[key]; ok {
 			return fmt.Sprintf("%v", v)
-- 
2.43.0


From c6b9ba128075bef751587696a50c4b43fae2defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 036/117] fix: the formatted title of an inline image gives a
 well-formed attribute

---
 pkg/renderer/sgml/image.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index d85c6d9..fdc0ea2 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -100,7 +101,7 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 		Height string
 	}{
 		Src:    escapeImageSrc(ctx, src),
-		Title:  title,
+		Title:  toAttributeValue(title),
 		Roles:  roles,
 		Href:   href,
 		Alt:    escapeString(alt),
@@ -156,3 +157,11 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	result = strings.ReplaceAll(result, "_", " ")
 	return result, nil
 }
+
+var markup = regexp.MustCompile(`<[^>]*>`)
+
+// toAttributeValue converts the given rendered text into the value of an attribute, in which there
+// can be no element and no (double) quote.
+func toAttributeValue(text string) string {
+	return strings.ReplaceAll(markup.ReplaceAllString(text, ""), `"`, "&#34;")
+}
-- 
2.43.0


From a11d24876ccc95e9f34719263c429288d9e34cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 037/117] fix: escape the special characters in the labels of
 cross references

---
 pkg/renderer/sgml/cross_reference.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..17bd909 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -21,7 +21,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
-		label = xrefLabel
+		label = escapeString(xrefLabel)
 	} else if target, found := ctx.elementReferences[xrefID]; found {
 		switch t := target.(type) {
 		case string:
@@ -50,13 +50,13 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
 	} else {
-		label = "[" + xrefID + "]"
+		label = "[" + escapeString(xrefID) + "]"
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  escapeString(xrefID),
 		Label: label,
 	})
 }
@@ -67,7 +67,7 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 	var err error
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		label = l
+		label = escapeString(l)
 	case []interface{}:
 		if label, err = r.renderInlineElements(ctx, l); err != nil {
 			return "", err
@@ -79,7 +79,7 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 		Href  string
 		Label string
 	}{
-		Href:  getCrossReferenceLocation(xref),
+		Href:  escapeString(getCrossReferenceLocation(xref)),
 		Label: label,
 	})
 }
-- 
2.43.0


From 742d8834fbb59012f5ba1d51a28c8cea3a521d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 038/117] fix: no panic when rendering the metadata of authors
 without a name

---
 pkg/renderer/sgml/sgml.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index de5e761..8779e76 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -292,9 +292,11 @@ func (r *sgmlRenderer) renderDocumentID(doc *types.Document) string {
 func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { // TODO: pass header instead of doc
 	if header, _ := doc.Header(); header != nil {
 		if a := header.Authors(); a != nil {
-			authorStrs := make([]string, len(a))
-			for i, author := range a {
-				authorStrs[i] = escapeString(author.FullName())
+			authorStrs := make([]string, 0, len(a))
+			for _, author := range a {
+				if author.DocumentAuthorFullName != nil { // may be missing (eg: `<me@example.com>`)
+					authorStrs = append(authorStrs, escapeString(author.FullName()))
+				}
 			}
 			return strings.Join(authorStrs, "; ")
 
-- 
2.43.0


From f018c613875c7f073df52abc64e3a047c5164282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 039/117] fix: take the author and the email attributes with
 special characters into account

---
 pkg/types/attributes.go | 8 ++++++--
 pkg/types/types.go      | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index b01eb25..d14fa0d 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -496,7 +496,12 @@ func (a Attributes) HasOption(key string) bool {
 // GetAsString gets the string value for the given key (+ `true`),
 // or empty string (+ `false`) if none was found
 func (a Attributes) GetAsString(k string) (string, bool) {
-	switch value := a[k].(type) {
+	// log.Warnf("no entry for key '%s' in attributes, or value is not a string: '%T'", k, a[k])
+	return valueAsString(a[k])
+}
+
+func valueAsString(value interface{}) (string, bool) {
+	switch value := value.(type) {
 	case string:
 		return value, true
 	case []interface{}: // when the value contains special characters
@@ -504,7 +509,6 @@ func (a Attributes) GetAsString(k string) (string, bool) {
 			return stringify(value), true
 		}
 	}
-	// log.Warnf("no entry for key '%s' in attributes, or value is not a string: '%T'", k, a[k])
 	return "", false
 }
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6f16af7..b798a97 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -335,7 +335,7 @@ elements:
 					break elements
 				}
 			case AttrEmail:
-				if email, ok := e.Value.(string); ok {
+				if email, ok := valueAsString(e.Value); ok {
 					if result == nil {
 						result = DocumentAuthors{
 							&DocumentAuthor{},
@@ -344,7 +344,7 @@ elements:
 					result[0].Email = email
 				}
 			case AttrAuthor:
-				if author, ok := e.Value.(string); ok {
+				if author, ok := valueAsString(e.Value); ok {
 					if result == nil {
 						result = DocumentAuthors{
 							&DocumentAuthor{},
-- 
2.43.0


From 9e80e7361c8d8f4f031f43c02072f3dfe1787f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 040/117] fix: unique section ids, table of contents with gaps
 between levels, and section numbers enabled in the preamble

---
 pkg/types/document_xrefs.go | 16 ++++++++++++++++
 pkg/types/types.go          | 34 ++++++++++++++--------------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index 4b807d6..af29cfa 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -1,6 +1,22 @@
 package types
 
+import "strings"
+
 // ElementReferences the element references in the document
 type ElementReferences map[string]interface{}
 
+// hasSimilar checks if there is a reference with the given ID, regardless of the case (since the
+// IDs of the sections are rendered in lower case)
+func (r ElementReferences) hasSimilar(id string) bool {
+	if _, exists := r[id]; exists {
+		return true
+	}
+	for k := range r {
+		if strings.EqualFold(k, id) {
+			return true
+		}
+	}
+	return false
+}
+
 // ElementReferencesCollector the visitor that traverses the whole document structure in search for elements with an ID
diff --git a/pkg/types/types.go b/pkg/types/types.go
index b798a97..e07dd9a 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -192,6 +192,12 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 			for id, n := range numbers {
 				result[id] = n
 			}
+		case *Preamble:
+			// there is no section in the preamble, but numbering may be enabled or disabled in there
+			var err error
+			if _, enabled, err = traverseElements(e.Elements, enabled, prefix); err != nil {
+				return nil, false, err
+			}
 		}
 	}
 	return result, enabled, nil
@@ -243,28 +249,16 @@ func (t *TableOfContents) Add(s *Section) {
 		ID:    s.GetAttributes().GetAsStringWithDefault(AttrID, ""),
 		Level: s.Level,
 	}
-	// lookup the last child at the given section's level
-	if len(t.Sections) == 0 {
-		t.Sections = []*ToCSection{ts}
-		return
-	} else if s.Level == t.Sections[0].Level {
-		// add at top level
-		t.Sections = append(t.Sections, ts)
-		return
-	}
-	// look-up parent for the ts, starting with the last section at root level
-	parent := t.Sections[len(t.Sections)-1]
-	for {
-		if len(parent.Children) == 0 ||
-			parent.Children[0].Level == s.Level {
-			// (first) child level matches section level
-			// or no child beneath current parent
+	// look-up the siblings of the section, ie, the children of the last section with a lower level
+	siblings := &t.Sections
+	for len(*siblings) > 0 {
+		last := (*siblings)[len(*siblings)-1]
+		if last.Level >= s.Level {
 			break
 		}
-		// move to last child of current parent
-		parent = parent.Children[len(parent.Children)-1]
+		siblings = &last.Children
 	}
-	parent.Children = append(parent.Children, ts)
+	*siblings = append(*siblings, ts)
 }
 
 // ------------------------------------------
@@ -2563,7 +2557,7 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
+		if !refs.hasSimilar(id) {
 			s.Attributes[AttrID] = id
 			break
 		}
-- 
2.43.0


From 7235a12ca88a1ff74cc4f179d0d0f1b56b228208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 041/117] fix: cross references to elements whose id has
 capitals, to sections by their rendered id, to anchors of other documents

---
 pkg/renderer/sgml/context.go               |  27 +++++
 pkg/renderer/sgml/cross_reference.go       | 114 ++++++++++++---------
 pkg/renderer/sgml/html5/cross_reference.go |   2 +-
 3 files changed, 95 insertions(+), 48 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index f60fab6..2f5fb51 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,8 @@
 package sgml
 
 import (
+	"strings"
+
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 )
@@ -14,6 +16,7 @@ type context struct {
 	counters             map[string]int
 	attributes           types.Attributes
 	elementReferences    types.ElementReferences
+	sectionIDs           map[string]string // the IDs of the sections, by the way they are rendered (ie, in lower case)
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
 }
@@ -26,8 +29,10 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		counters:          make(map[string]int),
 		attributes:        config.Attributes.Clone(), // do not alter the caller's configuration
 		elementReferences: doc.ElementReferences,
+		sectionIDs:        make(map[string]string),
 		hasHeader:         header != nil,
 	}
+	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.setAttribute(types.AttrFigureCaption, "Figure")
 	ctx.setAttribute(types.AttrExampleCaption, "Example")
@@ -47,6 +52,28 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+func (ctx *context) addSectionIDs(elements []interface{}) {
+	for _, e := range elements {
+		if s, ok := e.(*types.Section); ok {
+			ctx.sectionIDs[strings.ToLower(s.GetID())] = s.GetID()
+			ctx.addSectionIDs(s.Elements)
+		}
+	}
+}
+
+// resolveReference returns the actual ID of the element which the given ID refers to, along with the
+// way this ID is rendered: the IDs of sections (only) are rendered in lower case, and may be referred to as such
+func (ctx *context) resolveReference(id string) (string, string) {
+	sectionID, found := ctx.sectionIDs[strings.ToLower(id)]
+	if !found {
+		return id, id
+	}
+	if _, exists := ctx.elementReferences[id]; exists && sectionID != id {
+		return id, id // another element
+	}
+	return sectionID, strings.ToLower(sectionID)
+}
+
 // setAttribute sets an attribute, unless it is set in the configuration, whose attributes
 // take precedence over the ones declared in the document
 func (ctx *context) setAttribute(name string, value interface{}) {
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 17bd909..37ad795 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -15,56 +15,74 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("rendering cross reference with ID: %s", spew.Sdump(xref.ID))
 	}
-	var label string
 	xrefID, ok := xref.ID.(string)
 	if !ok {
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
-	if xrefLabel, ok := xref.Label.(string); ok {
-		label = escapeString(xrefLabel)
-	} else if target, found := ctx.elementReferences[xrefID]; found {
-		switch t := target.(type) {
-		case string:
-			label = t
-		case []interface{}:
-			// render as usual except for links as plain text (since the cross reference is already displayed as a link)
-			buff := &strings.Builder{}
-			for _, e := range t {
-				switch e := e.(type) {
-				case *types.InlineLink:
-					renderedElement, err := RenderPlainText(e)
-					if err != nil {
-						return "", err
-					}
-					buff.WriteString(renderedElement)
-				default:
-					renderedElement, err := r.renderElement(ctx, e)
-					if err != nil {
-						return "", err
-					}
-					buff.WriteString(renderedElement)
-				}
-			}
-			label = buff.String()
-		default:
-			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
-		}
+	xrefID, href := ctx.resolveReference(xrefID)
+	label, ok := xref.Label.(string)
+	if ok {
+		label = escapeString(label)
 	} else {
-		label = "[" + escapeString(xrefID) + "]"
+		var err error
+		if label, err = r.renderReferenceLabel(ctx, xrefID); err != nil {
+			return "", err
+		}
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  escapeString(xrefID),
+		Href:  escapeString(href),
 		Label: label,
 	})
 }
 
+// renderReferenceLabel renders the default label for a cross reference to the element with the given ID
+func (r *sgmlRenderer) renderReferenceLabel(ctx *context, xrefID string) (string, error) {
+	target, found := ctx.elementReferences[xrefID]
+	if !found {
+		return "[" + escapeString(xrefID) + "]", nil
+	}
+	switch t := target.(type) {
+	case string:
+		return t, nil
+	case []interface{}:
+		// render as usual except for links as plain text (since the cross reference is already displayed as a link)
+		buff := &strings.Builder{}
+		for _, e := range t {
+			switch e := e.(type) {
+			case *types.InlineLink:
+				renderedElement, err := RenderPlainText(e)
+				if err != nil {
+					return "", err
+				}
+				buff.WriteString(renderedElement)
+			default:
+				renderedElement, err := r.renderElement(ctx, e)
+				if err != nil {
+					return "", err
+				}
+				buff.WriteString(renderedElement)
+			}
+		}
+		return buff.String(), nil
+	default:
+		return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
+	}
+}
+
 func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.ExternalCrossReference) (string, error) {
 	// log.Debugf("rendering cross reference with ID: %s", xref.Location)
 	var label string
 	var err error
+	href, id := getCrossReferenceLocation(xref)
+	if href == "" { // internal reference
+		id, href = ctx.resolveReference(id)
+		href = "#" + href
+	} else if id != "" {
+		href = href + "#" + id
+	}
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
 		label = escapeString(l)
@@ -73,31 +91,33 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 			return "", err
 		}
 	default:
-		label = defaultXrefLabel(xref)
+		if strings.HasPrefix(href, "#") {
+			if label, err = r.renderReferenceLabel(ctx, id); err != nil {
+				return "", err
+			}
+		} else {
+			label = escapeString(href)
+		}
 	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
 		Label string
 	}{
-		Href:  escapeString(getCrossReferenceLocation(xref)),
+		Href:  escapeString(href),
 		Label: label,
 	})
 }
 
-func defaultXrefLabel(xref *types.ExternalCrossReference) string {
-	loc := xref.Location.ToDisplayString()
-	ext := filepath.Ext(loc)
-	if ext == "" {
-		return "[" + loc + "]" // internal references are within brackets
-	}
-	return loc[:len(loc)-len(ext)] + ".html"
-}
-
-func getCrossReferenceLocation(xref *types.ExternalCrossReference) string {
-	loc := xref.Location.ToDisplayString()
+// getCrossReferenceLocation returns the location of the output document (empty if the reference is within the same
+// document), and the ID of the element
+func getCrossReferenceLocation(xref *types.ExternalCrossReference) (string, string) {
+	loc, id, found := strings.Cut(xref.Location.ToDisplayString(), "#")
 	ext := filepath.Ext(loc)
 	if ext == "" { // internal reference
-		return "#" + loc
+		if found {
+			return loc, id
+		}
+		return "", loc
 	}
-	return loc[:len(loc)-len(ext)] + ".html" // TODO output extension
+	return loc[:len(loc)-len(ext)] + ".html", id // TODO output extension
 }
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 7be4da8..0488cb2 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ toLower .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
 	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
 )
-- 
2.43.0


From 70c36f33bc92287cb54a169d4fc3d2094a73cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 042/117] fix: no endless rendering, no duplicate anchor, no
 nested link in the labels of cross references and of the table of contents

---
 pkg/renderer/sgml/context.go           | 20 ++++++++------
 pkg/renderer/sgml/cross_reference.go   | 38 ++++++++++++--------------
 pkg/renderer/sgml/elements.go          |  3 ++
 pkg/renderer/sgml/link.go              |  3 ++
 pkg/renderer/sgml/quoted_text.go       |  6 +++-
 pkg/renderer/sgml/table_of_contents.go |  6 +++-
 6 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 2f5fb51..9d4ea68 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -10,15 +10,17 @@ import (
 // context is a custom implementation of the standard golang context.context interface,
 // which carries the types.Document which is being processed
 type context struct {
-	config               *configuration.Configuration // TODO: use composition (remove the `Config` field)
-	withinDelimitedBlock bool
-	withinList           int
-	counters             map[string]int
-	attributes           types.Attributes
-	elementReferences    types.ElementReferences
-	sectionIDs           map[string]string // the IDs of the sections, by the way they are rendered (ie, in lower case)
-	hasHeader            bool
-	sectionNumbering     types.SectionNumbers
+	config                *configuration.Configuration // TODO: use composition (remove the `Config` field)
+	withinDelimitedBlock  bool
+	withinList            int
+	withinLabel           int  // rendering the label of a reference, in which there is no anchor, no link and no footnote
+	withinTableOfContents bool // rendering the labels of the table of contents (footnotes are kept)
+	counters              map[string]int
+	attributes            types.Attributes
+	elementReferences     types.ElementReferences
+	sectionIDs            map[string]string // the IDs of the sections, by the way they are rendered (ie, in lower case)
+	hasHeader             bool
+	sectionNumbering      types.SectionNumbers
 }
 
 // newContext returns a new rendering context for the given document.
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 37ad795..448eca6 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -29,6 +29,9 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", err
 		}
 	}
+	if ctx.withinLabel > 0 {
+		return label, nil
+	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
 		Label string
@@ -41,37 +44,29 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 // renderReferenceLabel renders the default label for a cross reference to the element with the given ID
 func (r *sgmlRenderer) renderReferenceLabel(ctx *context, xrefID string) (string, error) {
 	target, found := ctx.elementReferences[xrefID]
-	if !found {
+	if !found || ctx.withinLabel > 0 { // do not resolve references in labels (there could be cycles)
 		return "[" + escapeString(xrefID) + "]", nil
 	}
 	switch t := target.(type) {
 	case string:
 		return t, nil
 	case []interface{}:
-		// render as usual except for links as plain text (since the cross reference is already displayed as a link)
-		buff := &strings.Builder{}
-		for _, e := range t {
-			switch e := e.(type) {
-			case *types.InlineLink:
-				renderedElement, err := RenderPlainText(e)
-				if err != nil {
-					return "", err
-				}
-				buff.WriteString(renderedElement)
-			default:
-				renderedElement, err := r.renderElement(ctx, e)
-				if err != nil {
-					return "", err
-				}
-				buff.WriteString(renderedElement)
-			}
-		}
-		return buff.String(), nil
+		return r.renderLabel(ctx, t)
 	default:
 		return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 	}
 }
 
+// renderLabel renders the given elements as usual except for links as plain text (since the reference is already displayed
+// as a link)
+func (r *sgmlRenderer) renderLabel(ctx *context, elements []interface{}) (string, error) {
+	ctx.withinLabel++
+	defer func() {
+		ctx.withinLabel--
+	}()
+	return r.renderElements(ctx, elements)
+}
+
 func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.ExternalCrossReference) (string, error) {
 	// log.Debugf("rendering cross reference with ID: %s", xref.Location)
 	var label string
@@ -99,6 +94,9 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 			label = escapeString(href)
 		}
 	}
+	if ctx.withinLabel > 0 {
+		return label, nil
+	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
 		Label string
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index d2519ee..b3dd2f4 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -101,6 +101,9 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.StringElement:
 		return r.renderStringElement(ctx, e)
 	case *types.FootnoteReference:
+		if ctx.withinLabel > 0 && !ctx.withinTableOfContents {
+			return "", nil
+		}
 		return r.renderFootnoteReference(e)
 	case *types.LineBreak:
 		return r.renderLineBreak()
diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index c2fa6df..846167d 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -36,6 +36,9 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 			class = strings.Join([]string{class, roles}, " ") // support case where class == "" (for email addresses)
 		}
 	}
+	if ctx.withinLabel > 0 {
+		return text, nil
+	}
 	target := l.Attributes.GetAsStringWithDefault(types.AttrInlineLinkTarget, "")
 	noopener := target == "_blank" || l.Attributes.HasOption("noopener")
 	return r.execute(r.link, struct {
diff --git a/pkg/renderer/sgml/quoted_text.go b/pkg/renderer/sgml/quoted_text.go
index ec5daa0..062e6bf 100644
--- a/pkg/renderer/sgml/quoted_text.go
+++ b/pkg/renderer/sgml/quoted_text.go
@@ -46,6 +46,10 @@ func (r *sgmlRenderer) renderQuotedText(ctx *context, t *types.QuotedText) (stri
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load quoted text template")
 	}
+	id := r.renderElementID(t.Attributes)
+	if ctx.withinLabel > 0 {
+		id = ""
+	}
 	result := &strings.Builder{}
 	if err := tmpl.Execute(result, struct {
 		ID         string
@@ -54,7 +58,7 @@ func (r *sgmlRenderer) renderQuotedText(ctx *context, t *types.QuotedText) (stri
 		Content    string
 	}{
 		Attributes: t.Attributes,
-		ID:         r.renderElementID(t.Attributes),
+		ID:         id,
 		Roles:      roles,
 		Content:    string(elementsBuffer.String()),
 	}); err != nil {
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index b681383..60e85c3 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -17,6 +17,10 @@ func (r *sgmlRenderer) prerenderTableOfContents(ctx *context, toc *types.TableOf
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("pre-rendering table of contents: %s", spew.Sdump(toc))
 	}
+	ctx.withinTableOfContents = true
+	defer func() {
+		ctx.withinTableOfContents = false
+	}()
 	if err := r.prerenderTableOfContentsSections(ctx, toc.Sections); err != nil {
 		return errors.Wrap(err, "error while rendering table of contents")
 	}
@@ -49,7 +53,7 @@ func (r *sgmlRenderer) prerenderTableOfContentsEntry(ctx *context, entry *types.
 	}
 	switch s := s.(type) {
 	case []interface{}:
-		title, err := r.renderElements(ctx, s)
+		title, err := r.renderLabel(ctx, s)
 		if err != nil {
 			return errors.Wrap(err, "unable to render table of contents entry title (missing element reference")
 		}
-- 
2.43.0


From 4a030da5a204f134044d7ddd24ebde4e88220d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 043/117] fix: fall back on the defaults for unknown icons and
 table of contents placements, and keep references to undefined attributes in
 the macros of titles

---
 pkg/renderer/sgml/elements.go          | 2 ++
 pkg/renderer/sgml/icon.go              | 5 +++--
 pkg/renderer/sgml/render_plain_text.go | 2 ++
 pkg/renderer/sgml/sgml.go              | 8 ++++----
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index b3dd2f4..a29388b 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -100,6 +100,8 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 		return r.renderLink(ctx, e)
 	case *types.StringElement:
 		return r.renderStringElement(ctx, e)
+	case *types.AttributeReference: // reference to an attribute which is not defined
+		return "{" + escapeString(e.Name) + "}", nil
 	case *types.FootnoteReference:
 		if ctx.withinLabel > 0 && !ctx.withinTableOfContents {
 			return "", nil
diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index db87e3f..4674927 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -1,13 +1,13 @@
 package sgml
 
 import (
-	fmt "fmt"
 	"path"
 	"strings"
 	texttemplate "text/template"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/pkg/errors"
+	log "github.com/sirupsen/logrus"
 )
 
 func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string, error) {
@@ -57,7 +57,8 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 	case "image", "":
 		tmpl, err = r.iconImage()
 	default:
-		return "", fmt.Errorf("unsupported icon type %s", icons)
+		log.Warnf("unsupported icon type '%s': using images instead", icons)
+		tmpl, err = r.iconImage()
 	}
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load icon template")
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index ff318d8..4357bcf 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -74,6 +74,8 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return r.renderSymbol(e)
 	case *types.StringElement:
 		return e.Content, nil
+	case *types.AttributeReference: // reference to an attribute which is not defined
+		return "{" + r.escape(e.Name) + "}", nil
 	case *types.FootnoteReference:
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 8779e76..f896048 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"io"
 	"path/filepath"
 	"strings"
@@ -404,13 +403,14 @@ func (r *sgmlRenderer) renderDocumentBody(ctx *context, source []interface{}, to
 			} else {
 				elements = source
 			}
-		case "", nil:
+		default:
+			if placement != "" && placement != nil {
+				log.Warnf("unsupported table of contents placement: '%v'", placement)
+			}
 			log.Debug("inserting ToC as first element")
 			elements = make([]interface{}, len(source)+1)
 			elements[0] = toc
 			copy(elements[1:], source)
-		default:
-			return "", fmt.Errorf("unsupported table of contents placement: '%s'", placement)
 		}
 	} else {
 		log.Debug("not inserting ToC")
-- 
2.43.0


From 49e875c6f732c53025645f072366da7bb587fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 044/117] fix: render inline images with a footnote in their
 title

---
 pkg/types/types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index e07dd9a..1559478 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2055,6 +2055,13 @@ type InlineImage struct {
 	Attributes Attributes
 }
 
+var _ WithFootnotes = &InlineImage{}
+
+// SubstituteFootnotes replaces the footnotes in the title with footnote references
+func (i *InlineImage) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(i.Attributes, notes)
+}
+
 // NewInlineImage initializes a new `InlineImage` (similar to ImageBlock, but without attributes)
 func NewInlineImage(location *Location, attributes interface{}) (*InlineImage, error) {
 	attrs := toAttributesWithMapping(attributes, map[string]string{
-- 
2.43.0


From a003c277982a1e56b54ce7d6446abbf83b22f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 045/117] fix: give precedence to the author and revision
 attributes of the configuration

---
 pkg/renderer/sgml/context.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 9d4ea68..64f5122 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -43,11 +43,11 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
-			ctx.attributes.AddAll(authors.Expand())
+			ctx.setAttributes(authors.Expand())
 		}
 
 		if revision := header.Revision(); revision != nil {
-			ctx.attributes.AddAll(revision.Expand())
+			ctx.setAttributes(revision.Expand())
 
 		}
 	}
@@ -84,6 +84,13 @@ func (ctx *context) setAttribute(name string, value interface{}) {
 	}
 }
 
+// setAttributes sets the attributes, except the ones which are set in the configuration
+func (ctx *context) setAttributes(attributes types.Attributes) {
+	for name, value := range attributes {
+		ctx.setAttribute(name, value)
+	}
+}
+
 // unsetAttribute unsets an attribute, unless it is set in the configuration
 func (ctx *context) unsetAttribute(name string) {
 	if !ctx.config.Attributes.Has(name) {
-- 
2.43.0


From 89a3c0ed9e9db5c4ddc0e7c4556e22ee46b790d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 046/117] fix: number the sections when the attribute is set in
 the configuration

---
 pkg/renderer/sgml/sgml.go |  2 +-
 pkg/types/types.go        | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index f896048..bfb8d52 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -70,7 +70,7 @@ elements:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.sectionNumbering, err = doc.SectionNumbersWith(config.Attributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 1559478..5198fff 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -151,19 +151,26 @@ func (d *Document) AddElement(element interface{}) error {
 type SectionNumbers map[string]string // assigned number by section id
 
 func (d *Document) SectionNumbers() (SectionNumbers, error) {
-	enabled := false
+	return d.SectionNumbersWith(nil)
+}
+
+// SectionNumbersWith returns the numbers of the sections when the given attributes are set in the
+// configuration, which takes precedence over the declarations in the document
+func (d *Document) SectionNumbersWith(config Attributes) (SectionNumbers, error) {
+	enabled := config.Has(AttrSectionNumbering) || config.Has(AttrNumbered)
+	locked := enabled
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
 		var err error
-		if _, enabled, err = traverseElements(header.Elements, false, ""); err != nil {
+		if _, enabled, err = traverseElements(header.Elements, enabled, locked, ""); err != nil {
 			return nil, err
 		}
 	}
-	numbers, _, err := traverseElements(d.Elements, enabled, "") // disabled by default
+	numbers, _, err := traverseElements(d.Elements, enabled, locked, "") // disabled by default
 	return numbers, err
 }
 
-func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
+func traverseElements(elements []interface{}, enabled, locked bool, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
 	for _, e := range elements {
@@ -174,7 +181,7 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 			}
 		case *AttributeReset:
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
-				enabled = false
+				enabled = locked
 			}
 		case *Section:
 			var n string
@@ -184,7 +191,7 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 				n = prefix + strconv.Itoa(counter)
 				result[id] = n
 			}
-			numbers, en, err := traverseElements(e.Elements, enabled, n+".")
+			numbers, en, err := traverseElements(e.Elements, enabled, locked, n+".")
 			if err != nil {
 				return nil, false, err
 			}
@@ -195,7 +202,7 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 		case *Preamble:
 			// there is no section in the preamble, but numbering may be enabled or disabled in there
 			var err error
-			if _, enabled, err = traverseElements(e.Elements, enabled, prefix); err != nil {
+			if _, enabled, err = traverseElements(e.Elements, enabled, locked, prefix); err != nil {
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 63f1c742552bdedd1e24d4d305881c3bf7135664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 047/117] fix: format a quoted text at the beginning of a
 section title regardless of the previous element

---
 pkg/parser/parser_ext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 1fd921d..7b34953 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -88,6 +88,8 @@ func (p *parser) next() (val interface{}, err error) {
 		return nil, p.errs.err()
 	}
 
+	// there is no character before the element to parse (the previous elements don't matter)
+	delete(p.cur.globalStore, suffixTrackingKey)
 	val, ok = p.parseRule(startRule)
 	if !ok {
 		if len(*p.errs) == 0 {
-- 
2.43.0


From 03d16b3e5094b43366515747dba13a5053ad4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 048/117] fix: labels of cross references with a single
 character, or with spaces or punctuation at the beginning

---
 pkg/parser/parser.go  | 84 +++++++++++++++++++------------------------
 pkg/parser/parser.peg |  2 +-
 pkg/types/types.go    | 12 ++++++-
 3 files changed, 48 insertions(+), 50 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index eb5afdc..d230bfa 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -14932,32 +14932,20 @@ var g = &grammar{
 												&actionExpr{
 													pos: position{line: 697, col: 6, offset: 22276},
 													run: (*parser).callonCrossReference16,
-													expr: &seqExpr{
+													expr: &oneOrMoreExpr{
 														pos: position{line: 697, col: 6, offset: 22276},
-														exprs: []interface{}{
-															&charClassMatcher{
-																pos:        position{line: 697, col: 6, offset: 22276},
-																val:        "[\\pL\\pN]",
-																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																ignoreCase: false,
-																inverted:   false,
-															},
-															&oneOrMoreExpr{
-																pos: position{line: 697, col: 14, offset: 22284},
-																expr: &charClassMatcher{
-																	pos:        position{line: 697, col: 14, offset: 22284},
-																	val:        "[^\\r\\n{<>]",
-																	chars:      []rune{'\r', '\n', '{', '<', '>'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
+														expr: &charClassMatcher{
+															pos:        position{line: 697, col: 6, offset: 22276},
+															val:        "[^\\r\\n{<>]",
+															chars:      []rune{'\r', '\n', '{', '<', '>'},
+															ignoreCase: false,
+															inverted:   true,
 														},
 													},
 												},
 												&actionExpr{
 													pos: position{line: 645, col: 5, offset: 20319},
-													run: (*parser).callonCrossReference21,
+													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
 														pos: position{line: 645, col: 5, offset: 20319},
 														exprs: []interface{}{
@@ -14972,7 +14960,7 @@ var g = &grammar{
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference25,
+																	run: (*parser).callonCrossReference23,
 																	expr: &seqExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
 																		exprs: []interface{}{
@@ -15010,7 +14998,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 652, col: 5, offset: 20587},
-													run: (*parser).callonCrossReference31,
+													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
 														pos: position{line: 652, col: 5, offset: 20587},
 														exprs: []interface{}{
@@ -15025,7 +15013,7 @@ var g = &grammar{
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference35,
+																	run: (*parser).callonCrossReference33,
 																	expr: &seqExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
 																		exprs: []interface{}{
@@ -15063,7 +15051,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 701, col: 8, offset: 22510},
-													run: (*parser).callonCrossReference41,
+													run: (*parser).callonCrossReference39,
 													expr: &litMatcher{
 														pos:        position{line: 701, col: 8, offset: 22510},
 														val:        "{",
@@ -15086,7 +15074,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 688, col: 9, offset: 21969},
-						run: (*parser).callonCrossReference44,
+						run: (*parser).callonCrossReference42,
 						expr: &seqExpr{
 							pos: position{line: 688, col: 9, offset: 21969},
 							exprs: []interface{}{
@@ -15101,7 +15089,7 @@ var g = &grammar{
 									label: "id",
 									expr: &actionExpr{
 										pos: position{line: 2837, col: 7, offset: 89891},
-										run: (*parser).callonCrossReference48,
+										run: (*parser).callonCrossReference46,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 2837, col: 7, offset: 89891},
 											expr: &charClassMatcher{
@@ -55199,7 +55187,7 @@ func (p *parser) callonCrossReference10() (interface{}, error) {
 }
 
 func (c *current) onCrossReference16() (interface{}, error) {
-	// `{`, `>` and `>` characters are not allowed as they are used for attribute substitutions and cross-references
+	// `{`, `<` and `>` characters are not allowed as they are used for attribute substitutions and cross-references
 	return types.NewStringElement(string(c.text))
 
 }
@@ -55210,18 +55198,18 @@ func (p *parser) callonCrossReference16() (interface{}, error) {
 	return p.cur.onCrossReference16()
 }
 
-func (c *current) onCrossReference25() (interface{}, error) {
+func (c *current) onCrossReference23() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference25() (interface{}, error) {
+func (p *parser) callonCrossReference23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference25()
+	return p.cur.onCrossReference23()
 }
 
-func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference19(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -55229,45 +55217,45 @@ func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonCrossReference21() (interface{}, error) {
+func (p *parser) callonCrossReference19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference21(stack["name"])
+	return p.cur.onCrossReference19(stack["name"])
 }
 
-func (c *current) onCrossReference35() (interface{}, error) {
+func (c *current) onCrossReference33() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference35() (interface{}, error) {
+func (p *parser) callonCrossReference33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference35()
+	return p.cur.onCrossReference33()
 }
 
-func (c *current) onCrossReference31(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference29(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonCrossReference31() (interface{}, error) {
+func (p *parser) callonCrossReference29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference31(stack["name"])
+	return p.cur.onCrossReference29(stack["name"])
 }
 
-func (c *current) onCrossReference41() (interface{}, error) {
+func (c *current) onCrossReference39() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonCrossReference41() (interface{}, error) {
+func (p *parser) callonCrossReference39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference41()
+	return p.cur.onCrossReference39()
 }
 
 func (c *current) onCrossReference2(id, label interface{}) (interface{}, error) {
@@ -55281,27 +55269,27 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 	return p.cur.onCrossReference2(stack["id"], stack["label"])
 }
 
-func (c *current) onCrossReference48() (interface{}, error) {
+func (c *current) onCrossReference46() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference48() (interface{}, error) {
+func (p *parser) callonCrossReference46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference48()
+	return p.cur.onCrossReference46()
 }
 
-func (c *current) onCrossReference44(id interface{}) (interface{}, error) {
+func (c *current) onCrossReference42(id interface{}) (interface{}, error) {
 	return types.NewInternalCrossReference(id, nil)
 
 }
 
-func (p *parser) callonCrossReference44() (interface{}, error) {
+func (p *parser) callonCrossReference42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference44(stack["id"])
+	return p.cur.onCrossReference42(stack["id"])
 }
 
 func (c *current) onExternalCrossReference11() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 3e367b0..465a37d 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -694,7 +694,7 @@ ExternalCrossReference <- "xref:" url:(FileLocation) attributes:(InlineAttribute
     }
 
 CrossReferenceLabel <- (
-    ([\pL\pN][^\r\n{<>]+ { // `{`, `>` and `>` characters are not allowed as they are used for attribute substitutions and cross-references 
+    ([^\r\n{<>]+ { // `{`, `<` and `>` characters are not allowed as they are used for attribute substitutions and cross-references         
         return types.NewStringElement(string(c.text))
     })
     / AttributeReferenceValue
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 5198fff..8d43715 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -1876,8 +1876,18 @@ type InternalCrossReference struct {
 // NewInternalCrossReference initializes a new `InternalCrossReference` from the given ID
 func NewInternalCrossReference(id, label interface{}) (*InternalCrossReference, error) {
 	// log.Debugf("new InternalCrossReference with ID=%s", id)
+	i := Reduce(id)
+	if s, ok := i.(string); ok {
+		i = strings.TrimPrefix(s, "#") // `<<#id>>` is the same as `<<id>>`
+	}
+	// ignore the spaces at the beginning of the label (eg: `<<id, label>>`)
+	if elements, ok := label.([]interface{}); ok && len(elements) > 0 {
+		if s, ok := elements[0].(*StringElement); ok {
+			s.Content = strings.TrimLeft(s.Content, " ")
+		}
+	}
 	return &InternalCrossReference{
-		ID:    Reduce(id),
+		ID:    i,
 		Label: Reduce(label),
 	}, nil
 }
-- 
2.43.0


From b2c484a41837903db60e82027c600dd1a6a309e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 049/117] fix: substitute the attributes in the labels of cross
 references

---
 .../document_processing_apply_substitutions.go    |  8 ++++++++
 pkg/renderer/sgml/cross_reference.go              | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index ee38f7e..71ecebb 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -495,6 +495,14 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.InternalCrossReference:
+			if label, ok := e.Label.([]interface{}); ok {
+				label, err := replaceAttributeRefsInElements(ctx, label) // no need to reparse the label
+				if err != nil {
+					return nil, err
+				}
+				e.Label = types.Reduce(label)
+			}
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 448eca6..9aac496 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -20,11 +20,16 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	xrefID, href := ctx.resolveReference(xrefID)
-	label, ok := xref.Label.(string)
-	if ok {
-		label = escapeString(label)
-	} else {
-		var err error
+	var label string
+	var err error
+	switch l := xref.Label.(type) {
+	case string:
+		label = escapeString(l)
+	case []interface{}:
+		if label, err = r.renderLabel(ctx, l); err != nil {
+			return "", err
+		}
+	default:
 		if label, err = r.renderReferenceLabel(ctx, xrefID); err != nil {
 			return "", err
 		}
-- 
2.43.0


From 7cace9ba63682565e9d21d0cd0126cf85f4a2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 050/117] fix: format the labels of links and cross references
 in titles, terms, footnotes and verses

---
 ...document_processing_apply_substitutions.go | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 71ecebb..cb5763f 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -140,7 +140,7 @@ func applySubstitutionsOnWithTitle(ctx *ParseContext, b types.WithTitle, _ ...Op
 		}
 		b.SetTitle(title)
 	}
-	return nil
+	return reparseAttributesOfInlineElements(ctx, b.GetTitle(), headerSubstitutions())
 }
 
 func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option) error {
@@ -232,6 +232,9 @@ func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, o
 		if b.Term, err = applySubstitutionsOnSlice(ctx, b.Term, subs, opts...); err != nil {
 			return err
 		}
+		if err := reparseAttributesOfInlineElements(ctx, b.Term, subs, opts...); err != nil {
+			return err
+		}
 		return applySubstitutionsOnElements(ctx, b.Elements, opts...)
 	case *types.DelimitedBlock:
 		switch b.Kind {
@@ -242,23 +245,17 @@ func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, o
 			if b.Elements, attribution = extractMarkdownQuoteAttribution(b.Elements); attribution != "" {
 				b.Attributes = b.Attributes.Set(types.AttrQuoteAuthor, attribution)
 			}
-			b.Elements, err = applySubstitutionsOnSlice(ctx, b.Elements, subs, opts...)
-			return err
-		default:
-			b.Elements, err = applySubstitutionsOnSlice(ctx, b.Elements, subs, opts...)
+		}
+		if b.Elements, err = applySubstitutionsOnSlice(ctx, b.Elements, subs, opts...); err != nil {
 			return err
 		}
+		return reparseAttributesOfInlineElements(ctx, b.Elements, subs, opts...)
 	case *types.Paragraph:
 		b.Elements, err = applySubstitutionsOnSlice(ctx, b.Elements, subs, opts...)
-		// reparse attributes in inline elements :/
-		for _, e := range b.Elements {
-			if e, ok := e.(types.WithAttributes); ok {
-				if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
-					return err
-				}
-			}
+		if err != nil {
+			return err
 		}
-		return err
+		return reparseAttributesOfInlineElements(ctx, b.Elements, subs, opts...)
 	default:
 		return applySubstitutionsOnElements(ctx, b.GetElements(), opts...)
 	}
@@ -279,6 +276,9 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
+			if err := reparseAttributesOfInlineElements(ctx, v, subs, opts...); err != nil {
+				return err
+			}
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
@@ -317,6 +317,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
+			subs := &substitutions{sequence: subs.sequence} // (but allow for them in the other elements)
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
@@ -330,13 +331,22 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 		}
 	}
 	// also, recursively perform the same changes on nested elements with attributes
-	switch e := element.(type) {
-	case types.WithElements:
-		for _, e := range e.GetElements() {
-			if e, ok := e.(types.WithAttributes); ok {
-				if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
-					return err
-				}
+	if e, ok := element.(types.WithElements); ok {
+		return reparseAttributesOfInlineElements(ctx, e.GetElements(), subs, opts...)
+	}
+	return nil
+}
+
+func reparseAttributesOfInlineElements(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) error {
+	for _, e := range elements {
+		switch e := e.(type) {
+		case *types.Footnote:
+			if err := reparseAttributesOfInlineElements(ctx, e.Elements, subs, opts...); err != nil {
+				return err
+			}
+		case types.WithAttributes:
+			if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 481fc80b6636ffe587f1ecebc7e9c1988759b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 051/117] fix: resolve the cross references by title in tables,
 terms, titles and footnotes

---
 pkg/parser/document_processing.go           |  8 +++++-
 pkg/parser/document_processing_aggregate.go | 32 ++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/document_processing.go b/pkg/parser/document_processing.go
index acd86a1..a596f64 100644
--- a/pkg/parser/document_processing.go
+++ b/pkg/parser/document_processing.go
@@ -18,7 +18,8 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	defer close(done)
 
 	footnotes := types.NewFootnotes()
-	doc, err := Aggregate(NewParseContext(config, opts...),
+	ctx := NewParseContext(config, opts...)
+	doc, err := Aggregate(ctx,
 		// SplitHeader(done,
 		FilterOut(done,
 			ArrangeLists(done,
@@ -38,6 +39,11 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	}
 	if len(footnotes.Notes) > 0 {
 		doc.Footnotes = footnotes.Notes
+		for _, n := range doc.Footnotes {
+			if err := resolveCrossReferences(n.Elements, ctx.attributes); err != nil {
+				return nil, err
+			}
+		}
 	}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("parsed document:\n%s", spew.Sdump(doc))
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index effabce..798a551 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -112,17 +112,41 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("resolving cross references in element of type '%T'", element)
 	// }
+	if e, ok := element.(types.WithAttributes); ok {
+		if err := resolveCrossReferences(e.GetAttributes()[types.AttrTitle], attrs); err != nil {
+			return err
+		}
+	}
 	switch e := element.(type) {
-	case types.WithElements:
-		for _, elmt := range e.GetElements() {
+	case []interface{}:
+		for _, elmt := range e {
 			if err := resolveCrossReferences(elmt, attrs); err != nil {
 				return err
 			}
 		}
-	case *types.InternalCrossReference:
-		if err := e.ResolveID(attrs.allAttributes()); err != nil {
+	case *types.LabeledListElement:
+		if err := resolveCrossReferences(e.Term, attrs); err != nil {
 			return err
 		}
+		return resolveCrossReferences(e.Elements, attrs)
+	case *types.ListContinuation:
+		return resolveCrossReferences(e.Element, attrs)
+	case *types.Table:
+		rows := append([]*types.TableRow{e.Header, e.Footer}, e.Rows...)
+		for _, r := range rows {
+			if r == nil {
+				continue
+			}
+			for _, c := range r.Cells {
+				if err := resolveCrossReferences(c.Elements, attrs); err != nil {
+					return err
+				}
+			}
+		}
+	case types.WithElements:
+		return resolveCrossReferences(e.GetElements(), attrs)
+	case *types.InternalCrossReference:
+		return e.ResolveID(attrs.allAttributes())
 	}
 	return nil
 }
-- 
2.43.0


From 974d9fcfbf379c602e3517451f6248cc3bb9cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 052/117] fix: escape buttons, menus, doctype and chroma class
 prefix

---
 pkg/renderer/sgml/delimited_block_source.go | 2 +-
 pkg/renderer/sgml/inline_button.go          | 2 +-
 pkg/renderer/sgml/inline_menu.go            | 6 +++++-
 pkg/renderer/sgml/sgml.go                   | 2 +-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index ff97b6a..29d4e3a 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -98,7 +98,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 		style = styles.Get(s)
 	}
 	options := []html.Option{
-		html.ClassPrefix(ctx.attributes.GetAsStringWithDefault(types.AttrChromaClassPrefix, "tok-")),
+		html.ClassPrefix(escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrChromaClassPrefix, "tok-"))),
 		html.PreventSurroundingPre(true),
 	}
 	// extra option: inline CSS instead of classes
diff --git a/pkg/renderer/sgml/inline_button.go b/pkg/renderer/sgml/inline_button.go
index cc6a677..2fc5254 100644
--- a/pkg/renderer/sgml/inline_button.go
+++ b/pkg/renderer/sgml/inline_button.go
@@ -13,7 +13,7 @@ func (r *sgmlRenderer) renderInlineButton(b *types.InlineButton) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load inline button template")
 	}
-	if err = tmpl.Execute(result, b.Attributes[types.AttrButtonLabel]); err != nil {
+	if err = tmpl.Execute(result, escapeString(b.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, ""))); err != nil {
 		return "", errors.Wrap(err, "unable to render inline button")
 	}
 	return result.String(), nil
diff --git a/pkg/renderer/sgml/inline_menu.go b/pkg/renderer/sgml/inline_menu.go
index 4998d54..953aa38 100644
--- a/pkg/renderer/sgml/inline_menu.go
+++ b/pkg/renderer/sgml/inline_menu.go
@@ -5,9 +5,13 @@ import (
 )
 
 func (r *sgmlRenderer) renderInlineMenu(m *types.InlineMenu) (string, error) {
+	path := make([]string, len(m.Path))
+	for i, p := range m.Path {
+		path[i] = escapeString(p)
+	}
 	return r.execute(r.inlineMenu, struct {
 		Path []string
 	}{
-		Path: m.Path,
+		Path: path,
 	})
 }
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index bfb8d52..1f81f99 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -109,7 +109,7 @@ elements:
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
+			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
 			Description:           escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
 			Title:                 renderedTitle,
-- 
2.43.0


From 0ebb4312f1ad616d01978f422ef63c0753ecb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 053/117] fix: do not lose the content attached to list items
 after blank lines, comments or blocks

---
 .../document_processing_arrange_lists.go      |   2 +-
 pkg/parser/parser.go                          | 222 ++++++++++++++----
 pkg/parser/parser.peg                         |   6 +-
 pkg/types/types.go                            |  26 +-
 4 files changed, 208 insertions(+), 48 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 769ab3a..8247147 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -199,7 +199,7 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
 	// }
 	if c, ok := element.(*types.ListContinuation); ok {
-		for i := 0; i < c.Offset; i++ {
+		for i := 0; i < c.Offset && len(s.stack) > 1; i++ { // attach to the root list at most
 			s.pop()
 		}
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index d230bfa..11fcab4 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -27504,16 +27504,16 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1506, col: 5, offset: 48796},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49636},
+														pos: position{line: 1536, col: 27, offset: 49661},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49636},
+																pos:        position{line: 1536, col: 27, offset: 49661},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49640},
+																pos: position{line: 1536, col: 31, offset: 49665},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
 																	run: (*parser).callonExtraListElement514,
@@ -29015,13 +29015,13 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49636},
+							pos:        position{line: 1530, col: 5, offset: 49454},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49640},
+							pos: position{line: 1530, col: 9, offset: 49458},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonListContinuation16,
@@ -29034,41 +29034,135 @@ var g = &grammar{
 								},
 							},
 						},
-						&actionExpr{
-							pos: position{line: 2861, col: 12, offset: 90410},
-							run: (*parser).callonListContinuation18,
-							expr: &choiceExpr{
-								pos: position{line: 2861, col: 13, offset: 90411},
-								alternatives: []interface{}{
-									&litMatcher{
-										pos:        position{line: 2861, col: 13, offset: 90411},
-										val:        "\n",
-										ignoreCase: false,
-										want:       "\"\\n\"",
-									},
-									&litMatcher{
-										pos:        position{line: 2861, col: 20, offset: 90418},
-										val:        "\r\n",
-										ignoreCase: false,
-										want:       "\"\\r\\n\"",
+						&choiceExpr{
+							pos: position{line: 2874, col: 8, offset: 90637},
+							alternatives: []interface{}{
+								&actionExpr{
+									pos: position{line: 2861, col: 12, offset: 90410},
+									run: (*parser).callonListContinuation19,
+									expr: &choiceExpr{
+										pos: position{line: 2861, col: 13, offset: 90411},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 2861, col: 13, offset: 90411},
+												val:        "\n",
+												ignoreCase: false,
+												want:       "\"\\n\"",
+											},
+											&litMatcher{
+												pos:        position{line: 2861, col: 20, offset: 90418},
+												val:        "\r\n",
+												ignoreCase: false,
+												want:       "\"\\r\\n\"",
+											},
+											&litMatcher{
+												pos:        position{line: 2861, col: 29, offset: 90427},
+												val:        "\r",
+												ignoreCase: false,
+												want:       "\"\\r\"",
+											},
+										},
 									},
-									&litMatcher{
-										pos:        position{line: 2861, col: 29, offset: 90427},
-										val:        "\r",
-										ignoreCase: false,
-										want:       "\"\\r\"",
+								},
+								&notExpr{
+									pos: position{line: 2871, col: 8, offset: 90587},
+									expr: &anyMatcher{
+										line: 2871, col: 9, offset: 90588,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49481},
+							pos:   position{line: 1531, col: 5, offset: 49473},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49489},
-								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49489},
-									name: "ListContinuationElement",
+								pos: position{line: 1531, col: 13, offset: 49481},
+								expr: &actionExpr{
+									pos: position{line: 1531, col: 14, offset: 49482},
+									run: (*parser).callonListContinuation28,
+									expr: &seqExpr{
+										pos: position{line: 1531, col: 14, offset: 49482},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 1531, col: 14, offset: 49482},
+												expr: &actionExpr{
+													pos: position{line: 677, col: 14, offset: 21489},
+													run: (*parser).callonListContinuation31,
+													expr: &seqExpr{
+														pos: position{line: 677, col: 14, offset: 21489},
+														exprs: []interface{}{
+															&andExpr{
+																pos: position{line: 2869, col: 11, offset: 90573},
+																expr: &anyMatcher{
+																	line: 2869, col: 13, offset: 90575,
+																},
+															},
+															&zeroOrMoreExpr{
+																pos: position{line: 677, col: 21, offset: 21496},
+																expr: &actionExpr{
+																	pos: position{line: 2852, col: 10, offset: 90239},
+																	run: (*parser).callonListContinuation36,
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		val:        "[\\t ]",
+																		chars:      []rune{'\t', ' '},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+															&choiceExpr{
+																pos: position{line: 2874, col: 8, offset: 90637},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2861, col: 12, offset: 90410},
+																		run: (*parser).callonListContinuation39,
+																		expr: &choiceExpr{
+																			pos: position{line: 2861, col: 13, offset: 90411},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2871, col: 8, offset: 90587},
+																		expr: &anyMatcher{
+																			line: 2871, col: 9, offset: 90588,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&labeledExpr{
+												pos:   position{line: 1531, col: 25, offset: 49493},
+												label: "e",
+												expr: &ruleRefExpr{
+													pos:  position{line: 1531, col: 27, offset: 49495},
+													name: "ListContinuationElement",
+												},
+											},
+										},
+									},
 								},
 							},
 						},
@@ -29078,7 +29172,7 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49656},
+			pos:  position{line: 1538, col: 1, offset: 49681},
 			expr: &actionExpr{
 				pos: position{line: 1539, col: 5, offset: 49727},
 				run: (*parser).callonListContinuationElement1,
@@ -36303,16 +36397,16 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1506, col: 5, offset: 48796},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49636},
+																		pos: position{line: 1536, col: 27, offset: 49661},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49636},
+																				pos:        position{line: 1536, col: 27, offset: 49661},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49640},
+																				pos: position{line: 1536, col: 31, offset: 49665},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
 																					run: (*parser).callonListContinuationElement1607,
@@ -39016,16 +39110,16 @@ var g = &grammar{
 											&notExpr{
 												pos: position{line: 1761, col: 9, offset: 56967},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49636},
+													pos: position{line: 1536, col: 27, offset: 49661},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49636},
+															pos:        position{line: 1536, col: 27, offset: 49661},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49640},
+															pos: position{line: 1536, col: 31, offset: 49665},
 															expr: &actionExpr{
 																pos: position{line: 2852, col: 10, offset: 90239},
 																run: (*parser).callonShortcutParagraph256,
@@ -62775,15 +62869,59 @@ func (p *parser) callonListContinuation16() (interface{}, error) {
 	return p.cur.onListContinuation16()
 }
 
-func (c *current) onListContinuation18(offset interface{}) (interface{}, error) {
+func (c *current) onListContinuation19() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuation18() (interface{}, error) {
+func (p *parser) callonListContinuation19() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation19()
+}
+
+func (c *current) onListContinuation36() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuation36() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation36()
+}
+
+func (c *current) onListContinuation39() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuation39() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation39()
+}
+
+func (c *current) onListContinuation31() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonListContinuation31() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation31()
+}
+
+func (c *current) onListContinuation28(e interface{}) (interface{}, error) {
+	return e, nil
+}
+
+func (p *parser) callonListContinuation28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation18(stack["offset"])
+	return p.cur.onListContinuation28(stack["e"])
 }
 
 func (c *current) onListContinuation1(offset, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 465a37d..edb1a02 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1527,15 +1527,15 @@ ListElementContent <-
 // ---------------------------
 ListContinuation <- 
     offset:(Space* Newline)* 
-    ListContinuationMarker
-    element:ListContinuationElement?
+    "+" Space* EOL
+    element:(BlankLine* e:ListContinuationElement { return e, nil })?
     {
         return types.NewListContinuation(len(offset.([]interface{})), element)    
     }
 
 ListContinuationMarker <- "+" Space* Newline
 
-ListContinuationElement <- // TODO: same as DelimitedBlockElement?
+ListContinuationElement <- // TODO: same 
     NotEOF // quick escapes
     !ListElement
     attributes:(BlockAttributes)?
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 8d43715..d08b30e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -786,8 +786,18 @@ func addToListElement(e ListElement, element interface{}) error {
 	case *RawLine:
 		// append to last element of this OrderedListElement if it's a Paragraph,
 		// otherwise, append a new Paragraph with this RawLine
-		if p, ok := e.LastElement().(*Paragraph); ok {
-			return p.AddElement(element)
+		// (comments do not interrupt paragraphs)
+		elements := e.GetElements()
+		for len(elements) > 0 {
+			if _, ok := elements[len(elements)-1].(*SinglelineComment); !ok {
+				break
+			}
+			elements = elements[:len(elements)-1]
+		}
+		if len(elements) > 0 {
+			if p, ok := elements[len(elements)-1].(*Paragraph); ok {
+				return p.AddElement(element)
+			}
 		}
 		return e.SetElements(append(e.GetElements(), &Paragraph{
 			Elements: []interface{}{
@@ -922,6 +932,18 @@ func NewListElements(elements []interface{}) (*ListElements, error) {
 			// append to last element
 			if len(elmts) > 0 {
 				switch elmt := elmts[len(elmts)-1].(type) {
+				case *ListContinuation:
+					if p, ok := elmt.Element.(*Paragraph); ok {
+						if err := p.AddElement(e); err != nil {
+							return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+						}
+						continue
+					}
+					// cannot be added to the attached block, so attach it after this block
+					if l, ok := e.(*RawLine); ok {
+						e = &Paragraph{Elements: []interface{}{l}}
+					}
+					elmts = append(elmts, &ListContinuation{Element: e})
 				case WithElementAddition:
 					if err := elmt.AddElement(e); err != nil {
 						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
-- 
2.43.0


From 64854161dfe1622420895fc52bfa254684b403c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 054/117] fix: do not swallow the blank line after a thematic
 break in a list

---
 pkg/parser/parser.go  | 2118 ++++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    6 +-
 2 files changed, 1149 insertions(+), 975 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 11fcab4..7ecff3e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -8897,144 +8897,209 @@ var g = &grammar{
 										&actionExpr{
 											pos: position{line: 2697, col: 18, offset: 85829},
 											run: (*parser).callonDocumentFragment1076,
-											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85829},
-												exprs: []interface{}{
-													&choiceExpr{
+											expr: &choiceExpr{
+												pos: position{line: 2698, col: 9, offset: 85839},
+												alternatives: []interface{}{
+													&seqExpr{
 														pos: position{line: 2698, col: 9, offset: 85839},
-														alternatives: []interface{}{
+														exprs: []interface{}{
 															&litMatcher{
 																pos:        position{line: 2698, col: 9, offset: 85839},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85875},
-																val:        "***",
-																ignoreCase: false,
-																want:       "\"***\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85883},
-																val:        "* * *",
-																ignoreCase: false,
-																want:       "\"* * *\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85893},
-																val:        "---",
-																ignoreCase: false,
-																want:       "\"---\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85901},
-																val:        "- - -",
-																ignoreCase: false,
-																want:       "\"- - -\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85911},
-																val:        "___",
-																ignoreCase: false,
-																want:       "\"___\"",
+															&zeroOrMoreExpr{
+																pos: position{line: 2698, col: 15, offset: 85845},
+																expr: &actionExpr{
+																	pos: position{line: 2852, col: 10, offset: 90239},
+																	run: (*parser).callonDocumentFragment1081,
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		val:        "[\\t ]",
+																		chars:      []rune{'\t', ' '},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
-															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85919},
-																val:        "_ _ _",
-																ignoreCase: false,
-																want:       "\"_ _ _\"",
+															&choiceExpr{
+																pos: position{line: 2874, col: 8, offset: 90637},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2861, col: 12, offset: 90410},
+																		run: (*parser).callonDocumentFragment1084,
+																		expr: &choiceExpr{
+																			pos: position{line: 2861, col: 13, offset: 90411},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2871, col: 8, offset: 90587},
+																		expr: &anyMatcher{
+																			line: 2871, col: 9, offset: 90588,
+																		},
+																	},
+																},
 															},
 														},
 													},
-													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85977},
-														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1087,
-															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
-																val:        "[\\t ]",
-																chars:      []rune{'\t', ' '},
-																ignoreCase: false,
-																inverted:   false,
+													&seqExpr{
+														pos: position{line: 2699, col: 11, offset: 85878},
+														exprs: []interface{}{
+															&choiceExpr{
+																pos: position{line: 2699, col: 12, offset: 85879},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 12, offset: 85879},
+																		val:        "***",
+																		ignoreCase: false,
+																		want:       "\"***\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 20, offset: 85887},
+																		val:        "* * *",
+																		ignoreCase: false,
+																		want:       "\"* * *\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 30, offset: 85897},
+																		val:        "---",
+																		ignoreCase: false,
+																		want:       "\"---\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 38, offset: 85905},
+																		val:        "- - -",
+																		ignoreCase: false,
+																		want:       "\"- - -\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 48, offset: 85915},
+																		val:        "___",
+																		ignoreCase: false,
+																		want:       "\"___\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2699, col: 56, offset: 85923},
+																		val:        "_ _ _",
+																		ignoreCase: false,
+																		want:       "\"_ _ _\"",
+																	},
+																},
 															},
-														},
-													},
-													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1090,
-																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
-																	alternatives: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
-																			val:        "\n",
-																			ignoreCase: false,
-																			want:       "\"\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
-																			val:        "\r\n",
-																			ignoreCase: false,
-																			want:       "\"\\r\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
-																			val:        "\r",
-																			ignoreCase: false,
-																			want:       "\"\\r\"",
-																		},
+															&zeroOrMoreExpr{
+																pos: position{line: 2699, col: 65, offset: 85932},
+																expr: &actionExpr{
+																	pos: position{line: 2852, col: 10, offset: 90239},
+																	run: (*parser).callonDocumentFragment1100,
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		val:        "[\\t ]",
+																		chars:      []rune{'\t', ' '},
+																		ignoreCase: false,
+																		inverted:   false,
 																	},
 																},
 															},
-															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
-																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+															&choiceExpr{
+																pos: position{line: 2874, col: 8, offset: 90637},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2861, col: 12, offset: 90410},
+																		run: (*parser).callonDocumentFragment1103,
+																		expr: &choiceExpr{
+																			pos: position{line: 2861, col: 13, offset: 90411},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2871, col: 8, offset: 90587},
+																		expr: &anyMatcher{
+																			line: 2871, col: 9, offset: 90588,
+																		},
+																	},
 																},
 															},
-														},
-													},
-													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1098,
+															&andExpr{
+																pos: position{line: 2699, col: 76, offset: 85943},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2874, col: 8, offset: 90637},
 																	alternatives: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
-																			val:        "\n",
-																			ignoreCase: false,
-																			want:       "\"\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
-																			val:        "\r\n",
-																			ignoreCase: false,
-																			want:       "\"\\r\\n\"",
+																		&actionExpr{
+																			pos: position{line: 2861, col: 12, offset: 90410},
+																			run: (*parser).callonDocumentFragment1112,
+																			expr: &choiceExpr{
+																				pos: position{line: 2861, col: 13, offset: 90411},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
+																				},
+																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
-																			val:        "\r",
-																			ignoreCase: false,
-																			want:       "\"\\r\"",
+																		&notExpr{
+																			pos: position{line: 2871, col: 8, offset: 90587},
+																			expr: &anyMatcher{
+																				line: 2871, col: 9, offset: 90588,
+																			},
 																		},
 																	},
 																},
 															},
-															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
-																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
-																},
-															},
 														},
 													},
 												},
@@ -9046,7 +9111,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2588, col: 5, offset: 82765},
-											run: (*parser).callonDocumentFragment1106,
+											run: (*parser).callonDocumentFragment1120,
 											expr: &seqExpr{
 												pos: position{line: 2588, col: 5, offset: 82765},
 												exprs: []interface{}{
@@ -9060,7 +9125,7 @@ var g = &grammar{
 														pos: position{line: 2594, col: 26, offset: 82929},
 														expr: &actionExpr{
 															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1110,
+															run: (*parser).callonDocumentFragment1124,
 															expr: &charClassMatcher{
 																pos:        position{line: 2852, col: 10, offset: 90239},
 																val:        "[\\t ]",
@@ -9075,7 +9140,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1113,
+																run: (*parser).callonDocumentFragment1127,
 																expr: &choiceExpr{
 																	pos: position{line: 2861, col: 13, offset: 90411},
 																	alternatives: []interface{}{
@@ -9118,7 +9183,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonDocumentFragment1123,
+																		run: (*parser).callonDocumentFragment1137,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
@@ -9132,7 +9197,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment1128,
+																						run: (*parser).callonDocumentFragment1142,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -9147,7 +9212,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment1131,
+																							run: (*parser).callonDocumentFragment1145,
 																							expr: &choiceExpr{
 																								pos: position{line: 2861, col: 13, offset: 90411},
 																								alternatives: []interface{}{
@@ -9185,7 +9250,7 @@ var g = &grammar{
 																	},
 																	&actionExpr{
 																		pos: position{line: 2601, col: 5, offset: 83041},
-																		run: (*parser).callonDocumentFragment1138,
+																		run: (*parser).callonDocumentFragment1152,
 																		expr: &seqExpr{
 																			pos: position{line: 2601, col: 5, offset: 83041},
 																			exprs: []interface{}{
@@ -9207,7 +9272,7 @@ var g = &grammar{
 																										pos: position{line: 2594, col: 26, offset: 82929},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentFragment1145,
+																											run: (*parser).callonDocumentFragment1159,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2852, col: 10, offset: 90239},
 																												val:        "[\\t ]",
@@ -9222,7 +9287,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonDocumentFragment1148,
+																												run: (*parser).callonDocumentFragment1162,
 																												expr: &choiceExpr{
 																													pos: position{line: 2861, col: 13, offset: 90411},
 																													alternatives: []interface{}{
@@ -9274,7 +9339,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2603, col: 10, offset: 83083},
-																								run: (*parser).callonDocumentFragment1159,
+																								run: (*parser).callonDocumentFragment1173,
 																								expr: &labeledExpr{
 																									pos:   position{line: 2603, col: 10, offset: 83083},
 																									label: "cells",
@@ -9283,7 +9348,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2611, col: 21, offset: 83286},
-																												run: (*parser).callonDocumentFragment1162,
+																												run: (*parser).callonDocumentFragment1176,
 																												expr: &seqExpr{
 																													pos: position{line: 2611, col: 21, offset: 83286},
 																													exprs: []interface{}{
@@ -9294,7 +9359,7 @@ var g = &grammar{
 																																pos: position{line: 2611, col: 27, offset: 83292},
 																																expr: &actionExpr{
 																																	pos: position{line: 2616, col: 5, offset: 83367},
-																																	run: (*parser).callonDocumentFragment1166,
+																																	run: (*parser).callonDocumentFragment1180,
 																																	expr: &seqExpr{
 																																		pos: position{line: 2616, col: 5, offset: 83367},
 																																		exprs: []interface{}{
@@ -9308,7 +9373,7 @@ var g = &grammar{
 																																				pos: position{line: 2616, col: 9, offset: 83371},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2852, col: 10, offset: 90239},
-																																					run: (*parser).callonDocumentFragment1170,
+																																					run: (*parser).callonDocumentFragment1184,
 																																					expr: &charClassMatcher{
 																																						pos:        position{line: 2852, col: 10, offset: 90239},
 																																						val:        "[\\t ]",
@@ -9323,13 +9388,13 @@ var g = &grammar{
 																																				label: "content",
 																																				expr: &actionExpr{
 																																					pos: position{line: 2622, col: 5, offset: 83578},
-																																					run: (*parser).callonDocumentFragment1173,
+																																					run: (*parser).callonDocumentFragment1187,
 																																					expr: &labeledExpr{
 																																						pos:   position{line: 2622, col: 5, offset: 83578},
 																																						label: "content",
 																																						expr: &actionExpr{
 																																							pos: position{line: 2622, col: 14, offset: 83587},
-																																							run: (*parser).callonDocumentFragment1175,
+																																							run: (*parser).callonDocumentFragment1189,
 																																							expr: &zeroOrMoreExpr{
 																																								pos: position{line: 2622, col: 14, offset: 83587},
 																																								expr: &charClassMatcher{
@@ -9354,7 +9419,7 @@ var g = &grammar{
 																															alternatives: []interface{}{
 																																&actionExpr{
 																																	pos: position{line: 2861, col: 12, offset: 90410},
-																																	run: (*parser).callonDocumentFragment1179,
+																																	run: (*parser).callonDocumentFragment1193,
 																																	expr: &choiceExpr{
 																																		pos: position{line: 2861, col: 13, offset: 90411},
 																																		alternatives: []interface{}{
@@ -9392,7 +9457,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 2628, col: 24, offset: 83723},
-																												run: (*parser).callonDocumentFragment1186,
+																												run: (*parser).callonDocumentFragment1200,
 																												expr: &labeledExpr{
 																													pos:   position{line: 2628, col: 24, offset: 83723},
 																													label: "cells",
@@ -9400,7 +9465,7 @@ var g = &grammar{
 																														pos: position{line: 2628, col: 30, offset: 83729},
 																														expr: &actionExpr{
 																															pos: position{line: 2633, col: 5, offset: 83805},
-																															run: (*parser).callonDocumentFragment1189,
+																															run: (*parser).callonDocumentFragment1203,
 																															expr: &seqExpr{
 																																pos: position{line: 2633, col: 5, offset: 83805},
 																																exprs: []interface{}{
@@ -9422,7 +9487,7 @@ var g = &grammar{
 																																							pos: position{line: 2594, col: 26, offset: 82929},
 																																							expr: &actionExpr{
 																																								pos: position{line: 2852, col: 10, offset: 90239},
-																																								run: (*parser).callonDocumentFragment1196,
+																																								run: (*parser).callonDocumentFragment1210,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 2852, col: 10, offset: 90239},
 																																									val:        "[\\t ]",
@@ -9437,7 +9502,7 @@ var g = &grammar{
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonDocumentFragment1199,
+																																									run: (*parser).callonDocumentFragment1213,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2861, col: 13, offset: 90411},
 																																										alternatives: []interface{}{
@@ -9485,7 +9550,7 @@ var g = &grammar{
 																																		pos: position{line: 2634, col: 5, offset: 83828},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
-																																			run: (*parser).callonDocumentFragment1209,
+																																			run: (*parser).callonDocumentFragment1223,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
@@ -9499,7 +9564,7 @@ var g = &grammar{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonDocumentFragment1214,
+																																							run: (*parser).callonDocumentFragment1228,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2852, col: 10, offset: 90239},
 																																								val:        "[\\t ]",
@@ -9514,7 +9579,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonDocumentFragment1217,
+																																								run: (*parser).callonDocumentFragment1231,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2861, col: 13, offset: 90411},
 																																									alternatives: []interface{}{
@@ -9558,7 +9623,7 @@ var g = &grammar{
 																																			pos: position{line: 2635, col: 12, offset: 83850},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2652, col: 20, offset: 84314},
-																																				run: (*parser).callonDocumentFragment1226,
+																																				run: (*parser).callonDocumentFragment1240,
 																																				expr: &zeroOrMoreExpr{
 																																					pos: position{line: 2652, col: 20, offset: 84314},
 																																					expr: &charClassMatcher{
@@ -9582,7 +9647,7 @@ var g = &grammar{
 																																		pos: position{line: 2635, col: 35, offset: 83873},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2852, col: 10, offset: 90239},
-																																			run: (*parser).callonDocumentFragment1231,
+																																			run: (*parser).callonDocumentFragment1245,
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 2852, col: 10, offset: 90239},
 																																				val:        "[\\t ]",
@@ -9596,7 +9661,7 @@ var g = &grammar{
 																																		pos: position{line: 2635, col: 42, offset: 83880},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2861, col: 12, offset: 90410},
-																																			run: (*parser).callonDocumentFragment1234,
+																																			run: (*parser).callonDocumentFragment1248,
 																																			expr: &choiceExpr{
 																																				pos: position{line: 2861, col: 13, offset: 90411},
 																																				alternatives: []interface{}{
@@ -9629,7 +9694,7 @@ var g = &grammar{
 																																			pos: position{line: 2641, col: 5, offset: 84048},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2642, col: 9, offset: 84058},
-																																				run: (*parser).callonDocumentFragment1241,
+																																				run: (*parser).callonDocumentFragment1255,
 																																				expr: &seqExpr{
 																																					pos: position{line: 2642, col: 9, offset: 84058},
 																																					exprs: []interface{}{
@@ -9651,7 +9716,7 @@ var g = &grammar{
 																																												pos: position{line: 2594, col: 26, offset: 82929},
 																																												expr: &actionExpr{
 																																													pos: position{line: 2852, col: 10, offset: 90239},
-																																													run: (*parser).callonDocumentFragment1248,
+																																													run: (*parser).callonDocumentFragment1262,
 																																													expr: &charClassMatcher{
 																																														pos:        position{line: 2852, col: 10, offset: 90239},
 																																														val:        "[\\t ]",
@@ -9666,7 +9731,7 @@ var g = &grammar{
 																																												alternatives: []interface{}{
 																																													&actionExpr{
 																																														pos: position{line: 2861, col: 12, offset: 90410},
-																																														run: (*parser).callonDocumentFragment1251,
+																																														run: (*parser).callonDocumentFragment1265,
 																																														expr: &choiceExpr{
 																																															pos: position{line: 2861, col: 13, offset: 90411},
 																																															alternatives: []interface{}{
@@ -9714,7 +9779,7 @@ var g = &grammar{
 																																							pos: position{line: 2643, col: 9, offset: 84085},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1261,
+																																								run: (*parser).callonDocumentFragment1275,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
@@ -9728,7 +9793,7 @@ var g = &grammar{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
 																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonDocumentFragment1266,
+																																												run: (*parser).callonDocumentFragment1280,
 																																												expr: &charClassMatcher{
 																																													pos:        position{line: 2852, col: 10, offset: 90239},
 																																													val:        "[\\t ]",
@@ -9743,7 +9808,7 @@ var g = &grammar{
 																																											alternatives: []interface{}{
 																																												&actionExpr{
 																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonDocumentFragment1269,
+																																													run: (*parser).callonDocumentFragment1283,
 																																													expr: &choiceExpr{
 																																														pos: position{line: 2861, col: 13, offset: 90411},
 																																														alternatives: []interface{}{
@@ -9792,7 +9857,7 @@ var g = &grammar{
 																																											pos: position{line: 2644, col: 18, offset: 84113},
 																																											expr: &actionExpr{
 																																												pos: position{line: 2652, col: 20, offset: 84314},
-																																												run: (*parser).callonDocumentFragment1280,
+																																												run: (*parser).callonDocumentFragment1294,
 																																												expr: &zeroOrMoreExpr{
 																																													pos: position{line: 2652, col: 20, offset: 84314},
 																																													expr: &charClassMatcher{
@@ -9820,7 +9885,7 @@ var g = &grammar{
 																																							label: "content",
 																																							expr: &actionExpr{
 																																								pos: position{line: 2645, col: 18, offset: 84154},
-																																								run: (*parser).callonDocumentFragment1285,
+																																								run: (*parser).callonDocumentFragment1299,
 																																								expr: &zeroOrMoreExpr{
 																																									pos: position{line: 2645, col: 18, offset: 84154},
 																																									expr: &charClassMatcher{
@@ -9840,7 +9905,7 @@ var g = &grammar{
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2861, col: 12, offset: 90410},
-																																										run: (*parser).callonDocumentFragment1290,
+																																										run: (*parser).callonDocumentFragment1304,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2861, col: 13, offset: 90411},
 																																											alternatives: []interface{}{
@@ -9891,7 +9956,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1297,
+																								run: (*parser).callonDocumentFragment1311,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
@@ -9905,7 +9970,7 @@ var g = &grammar{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonDocumentFragment1302,
+																												run: (*parser).callonDocumentFragment1316,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -9920,7 +9985,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentFragment1305,
+																													run: (*parser).callonDocumentFragment1319,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -9982,7 +10047,7 @@ var g = &grammar{
 																		pos: position{line: 2594, col: 26, offset: 82929},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1316,
+																			run: (*parser).callonDocumentFragment1330,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -9997,7 +10062,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1319,
+																				run: (*parser).callonDocumentFragment1333,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10045,7 +10110,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2462, col: 22, offset: 79224},
-											run: (*parser).callonDocumentFragment1328,
+											run: (*parser).callonDocumentFragment1342,
 											expr: &seqExpr{
 												pos: position{line: 2462, col: 22, offset: 79224},
 												exprs: []interface{}{
@@ -10069,7 +10134,7 @@ var g = &grammar{
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentFragment1334,
+															run: (*parser).callonDocumentFragment1348,
 															expr: &zeroOrMoreExpr{
 																pos: position{line: 2798, col: 13, offset: 88765},
 																expr: &charClassMatcher{
@@ -10087,7 +10152,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1338,
+																run: (*parser).callonDocumentFragment1352,
 																expr: &choiceExpr{
 																	pos: position{line: 2861, col: 13, offset: 90411},
 																	alternatives: []interface{}{
@@ -10125,20 +10190,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1222, col: 5, offset: 37866},
-											run: (*parser).callonDocumentFragment1345,
+											run: (*parser).callonDocumentFragment1359,
 											expr: &seqExpr{
 												pos: position{line: 1222, col: 5, offset: 37866},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1222, col: 5, offset: 37866},
-														run: (*parser).callonDocumentFragment1347,
+														run: (*parser).callonDocumentFragment1361,
 													},
 													&labeledExpr{
 														pos:   position{line: 1225, col: 5, offset: 37924},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1230, col: 20, offset: 38019},
-															run: (*parser).callonDocumentFragment1349,
+															run: (*parser).callonDocumentFragment1363,
 															expr: &seqExpr{
 																pos: position{line: 1230, col: 20, offset: 38019},
 																exprs: []interface{}{
@@ -10152,7 +10217,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1353,
+																			run: (*parser).callonDocumentFragment1367,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -10167,7 +10232,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1356,
+																				run: (*parser).callonDocumentFragment1370,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10207,7 +10272,7 @@ var g = &grammar{
 																			pos: position{line: 1230, col: 53, offset: 38052},
 																			expr: &actionExpr{
 																				pos: position{line: 1236, col: 27, offset: 38235},
-																				run: (*parser).callonDocumentFragment1365,
+																				run: (*parser).callonDocumentFragment1379,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1236, col: 27, offset: 38235},
 																					expr: &oneOrMoreExpr{
@@ -10230,7 +10295,7 @@ var g = &grammar{
 																												pos: position{line: 1234, col: 36, offset: 38197},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1373,
+																													run: (*parser).callonDocumentFragment1387,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2852, col: 10, offset: 90239},
 																														val:        "[\\t ]",
@@ -10245,7 +10310,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1376,
+																														run: (*parser).callonDocumentFragment1390,
 																														expr: &choiceExpr{
 																															pos: position{line: 2861, col: 13, offset: 90411},
 																															alternatives: []interface{}{
@@ -10301,7 +10366,7 @@ var g = &grammar{
 																		pos: position{line: 1234, col: 36, offset: 38197},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1386,
+																			run: (*parser).callonDocumentFragment1400,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -10316,7 +10381,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1389,
+																				run: (*parser).callonDocumentFragment1403,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10366,7 +10431,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1397,
+							run: (*parser).callonDocumentFragment1411,
 						},
 					},
 				},
@@ -34983,144 +35048,209 @@ var g = &grammar{
 									&actionExpr{
 										pos: position{line: 2697, col: 18, offset: 85829},
 										run: (*parser).callonListContinuationElement1291,
-										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
-											exprs: []interface{}{
-												&choiceExpr{
+										expr: &choiceExpr{
+											pos: position{line: 2698, col: 9, offset: 85839},
+											alternatives: []interface{}{
+												&seqExpr{
 													pos: position{line: 2698, col: 9, offset: 85839},
-													alternatives: []interface{}{
+													exprs: []interface{}{
 														&litMatcher{
 															pos:        position{line: 2698, col: 9, offset: 85839},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85875},
-															val:        "***",
-															ignoreCase: false,
-															want:       "\"***\"",
-														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85883},
-															val:        "* * *",
-															ignoreCase: false,
-															want:       "\"* * *\"",
-														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85893},
-															val:        "---",
-															ignoreCase: false,
-															want:       "\"---\"",
-														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85901},
-															val:        "- - -",
-															ignoreCase: false,
-															want:       "\"- - -\"",
-														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85911},
-															val:        "___",
-															ignoreCase: false,
-															want:       "\"___\"",
+														&zeroOrMoreExpr{
+															pos: position{line: 2698, col: 15, offset: 85845},
+															expr: &actionExpr{
+																pos: position{line: 2852, col: 10, offset: 90239},
+																run: (*parser).callonListContinuationElement1296,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
 														},
-														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85919},
-															val:        "_ _ _",
-															ignoreCase: false,
-															want:       "\"_ _ _\"",
+														&choiceExpr{
+															pos: position{line: 2874, col: 8, offset: 90637},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2861, col: 12, offset: 90410},
+																	run: (*parser).callonListContinuationElement1299,
+																	expr: &choiceExpr{
+																		pos: position{line: 2861, col: 13, offset: 90411},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2871, col: 8, offset: 90587},
+																	expr: &anyMatcher{
+																		line: 2871, col: 9, offset: 90588,
+																	},
+																},
+															},
 														},
 													},
 												},
-												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85977},
-													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1302,
-														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
-															val:        "[\\t ]",
-															chars:      []rune{'\t', ' '},
-															ignoreCase: false,
-															inverted:   false,
+												&seqExpr{
+													pos: position{line: 2699, col: 11, offset: 85878},
+													exprs: []interface{}{
+														&choiceExpr{
+															pos: position{line: 2699, col: 12, offset: 85879},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2699, col: 12, offset: 85879},
+																	val:        "***",
+																	ignoreCase: false,
+																	want:       "\"***\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2699, col: 20, offset: 85887},
+																	val:        "* * *",
+																	ignoreCase: false,
+																	want:       "\"* * *\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2699, col: 30, offset: 85897},
+																	val:        "---",
+																	ignoreCase: false,
+																	want:       "\"---\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2699, col: 38, offset: 85905},
+																	val:        "- - -",
+																	ignoreCase: false,
+																	want:       "\"- - -\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2699, col: 48, offset: 85915},
+																	val:        "___",
+																	ignoreCase: false,
+																	want:       "\"___\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2699, col: 56, offset: 85923},
+																	val:        "_ _ _",
+																	ignoreCase: false,
+																	want:       "\"_ _ _\"",
+																},
+															},
 														},
-													},
-												},
-												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
-													alternatives: []interface{}{
-														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1305,
-															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
-																alternatives: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
-																		val:        "\n",
-																		ignoreCase: false,
-																		want:       "\"\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
-																		val:        "\r\n",
-																		ignoreCase: false,
-																		want:       "\"\\r\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
-																		val:        "\r",
-																		ignoreCase: false,
-																		want:       "\"\\r\"",
-																	},
+														&zeroOrMoreExpr{
+															pos: position{line: 2699, col: 65, offset: 85932},
+															expr: &actionExpr{
+																pos: position{line: 2852, col: 10, offset: 90239},
+																run: (*parser).callonListContinuationElement1315,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
 																},
 															},
 														},
-														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
-															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+														&choiceExpr{
+															pos: position{line: 2874, col: 8, offset: 90637},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2861, col: 12, offset: 90410},
+																	run: (*parser).callonListContinuationElement1318,
+																	expr: &choiceExpr{
+																		pos: position{line: 2861, col: 13, offset: 90411},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2871, col: 8, offset: 90587},
+																	expr: &anyMatcher{
+																		line: 2871, col: 9, offset: 90588,
+																	},
+																},
 															},
 														},
-													},
-												},
-												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
-													alternatives: []interface{}{
-														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1313,
+														&andExpr{
+															pos: position{line: 2699, col: 76, offset: 85943},
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2874, col: 8, offset: 90637},
 																alternatives: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
-																		val:        "\n",
-																		ignoreCase: false,
-																		want:       "\"\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
-																		val:        "\r\n",
-																		ignoreCase: false,
-																		want:       "\"\\r\\n\"",
+																	&actionExpr{
+																		pos: position{line: 2861, col: 12, offset: 90410},
+																		run: (*parser).callonListContinuationElement1327,
+																		expr: &choiceExpr{
+																			pos: position{line: 2861, col: 13, offset: 90411},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
 																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
-																		val:        "\r",
-																		ignoreCase: false,
-																		want:       "\"\\r\"",
+																	&notExpr{
+																		pos: position{line: 2871, col: 8, offset: 90587},
+																		expr: &anyMatcher{
+																			line: 2871, col: 9, offset: 90588,
+																		},
 																	},
 																},
 															},
 														},
-														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
-															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
-															},
-														},
 													},
 												},
 											},
@@ -35132,7 +35262,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2588, col: 5, offset: 82765},
-										run: (*parser).callonListContinuationElement1321,
+										run: (*parser).callonListContinuationElement1335,
 										expr: &seqExpr{
 											pos: position{line: 2588, col: 5, offset: 82765},
 											exprs: []interface{}{
@@ -35146,7 +35276,7 @@ var g = &grammar{
 													pos: position{line: 2594, col: 26, offset: 82929},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1325,
+														run: (*parser).callonListContinuationElement1339,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -35161,7 +35291,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1328,
+															run: (*parser).callonListContinuationElement1342,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -35204,7 +35334,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1338,
+																	run: (*parser).callonListContinuationElement1352,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
@@ -35218,7 +35348,7 @@ var g = &grammar{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1343,
+																					run: (*parser).callonListContinuationElement1357,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2852, col: 10, offset: 90239},
 																						val:        "[\\t ]",
@@ -35233,7 +35363,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1346,
+																						run: (*parser).callonListContinuationElement1360,
 																						expr: &choiceExpr{
 																							pos: position{line: 2861, col: 13, offset: 90411},
 																							alternatives: []interface{}{
@@ -35271,7 +35401,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2601, col: 5, offset: 83041},
-																	run: (*parser).callonListContinuationElement1353,
+																	run: (*parser).callonListContinuationElement1367,
 																	expr: &seqExpr{
 																		pos: position{line: 2601, col: 5, offset: 83041},
 																		exprs: []interface{}{
@@ -35293,7 +35423,7 @@ var g = &grammar{
 																									pos: position{line: 2594, col: 26, offset: 82929},
 																									expr: &actionExpr{
 																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonListContinuationElement1360,
+																										run: (*parser).callonListContinuationElement1374,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 2852, col: 10, offset: 90239},
 																											val:        "[\\t ]",
@@ -35308,7 +35438,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1363,
+																											run: (*parser).callonListContinuationElement1377,
 																											expr: &choiceExpr{
 																												pos: position{line: 2861, col: 13, offset: 90411},
 																												alternatives: []interface{}{
@@ -35360,7 +35490,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2603, col: 10, offset: 83083},
-																							run: (*parser).callonListContinuationElement1374,
+																							run: (*parser).callonListContinuationElement1388,
 																							expr: &labeledExpr{
 																								pos:   position{line: 2603, col: 10, offset: 83083},
 																								label: "cells",
@@ -35369,7 +35499,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2611, col: 21, offset: 83286},
-																											run: (*parser).callonListContinuationElement1377,
+																											run: (*parser).callonListContinuationElement1391,
 																											expr: &seqExpr{
 																												pos: position{line: 2611, col: 21, offset: 83286},
 																												exprs: []interface{}{
@@ -35380,7 +35510,7 @@ var g = &grammar{
 																															pos: position{line: 2611, col: 27, offset: 83292},
 																															expr: &actionExpr{
 																																pos: position{line: 2616, col: 5, offset: 83367},
-																																run: (*parser).callonListContinuationElement1381,
+																																run: (*parser).callonListContinuationElement1395,
 																																expr: &seqExpr{
 																																	pos: position{line: 2616, col: 5, offset: 83367},
 																																	exprs: []interface{}{
@@ -35394,7 +35524,7 @@ var g = &grammar{
 																																			pos: position{line: 2616, col: 9, offset: 83371},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2852, col: 10, offset: 90239},
-																																				run: (*parser).callonListContinuationElement1385,
+																																				run: (*parser).callonListContinuationElement1399,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 2852, col: 10, offset: 90239},
 																																					val:        "[\\t ]",
@@ -35409,13 +35539,13 @@ var g = &grammar{
 																																			label: "content",
 																																			expr: &actionExpr{
 																																				pos: position{line: 2622, col: 5, offset: 83578},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				run: (*parser).callonListContinuationElement1402,
 																																				expr: &labeledExpr{
 																																					pos:   position{line: 2622, col: 5, offset: 83578},
 																																					label: "content",
 																																					expr: &actionExpr{
 																																						pos: position{line: 2622, col: 14, offset: 83587},
-																																						run: (*parser).callonListContinuationElement1390,
+																																						run: (*parser).callonListContinuationElement1404,
 																																						expr: &zeroOrMoreExpr{
 																																							pos: position{line: 2622, col: 14, offset: 83587},
 																																							expr: &charClassMatcher{
@@ -35440,7 +35570,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 2861, col: 12, offset: 90410},
-																																run: (*parser).callonListContinuationElement1394,
+																																run: (*parser).callonListContinuationElement1408,
 																																expr: &choiceExpr{
 																																	pos: position{line: 2861, col: 13, offset: 90411},
 																																	alternatives: []interface{}{
@@ -35478,7 +35608,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 2628, col: 24, offset: 83723},
-																											run: (*parser).callonListContinuationElement1401,
+																											run: (*parser).callonListContinuationElement1415,
 																											expr: &labeledExpr{
 																												pos:   position{line: 2628, col: 24, offset: 83723},
 																												label: "cells",
@@ -35486,7 +35616,7 @@ var g = &grammar{
 																													pos: position{line: 2628, col: 30, offset: 83729},
 																													expr: &actionExpr{
 																														pos: position{line: 2633, col: 5, offset: 83805},
-																														run: (*parser).callonListContinuationElement1404,
+																														run: (*parser).callonListContinuationElement1418,
 																														expr: &seqExpr{
 																															pos: position{line: 2633, col: 5, offset: 83805},
 																															exprs: []interface{}{
@@ -35508,7 +35638,7 @@ var g = &grammar{
 																																						pos: position{line: 2594, col: 26, offset: 82929},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonListContinuationElement1411,
+																																							run: (*parser).callonListContinuationElement1425,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2852, col: 10, offset: 90239},
 																																								val:        "[\\t ]",
@@ -35523,7 +35653,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonListContinuationElement1414,
+																																								run: (*parser).callonListContinuationElement1428,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2861, col: 13, offset: 90411},
 																																									alternatives: []interface{}{
@@ -35571,7 +35701,7 @@ var g = &grammar{
 																																	pos: position{line: 2634, col: 5, offset: 83828},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1424,
+																																		run: (*parser).callonListContinuationElement1438,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
@@ -35585,7 +35715,7 @@ var g = &grammar{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2852, col: 10, offset: 90239},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						run: (*parser).callonListContinuationElement1443,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 2852, col: 10, offset: 90239},
 																																							val:        "[\\t ]",
@@ -35600,7 +35730,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 2861, col: 12, offset: 90410},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							run: (*parser).callonListContinuationElement1446,
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2861, col: 13, offset: 90411},
 																																								alternatives: []interface{}{
@@ -35644,7 +35774,7 @@ var g = &grammar{
 																																		pos: position{line: 2635, col: 12, offset: 83850},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2652, col: 20, offset: 84314},
-																																			run: (*parser).callonListContinuationElement1441,
+																																			run: (*parser).callonListContinuationElement1455,
 																																			expr: &zeroOrMoreExpr{
 																																				pos: position{line: 2652, col: 20, offset: 84314},
 																																				expr: &charClassMatcher{
@@ -35668,7 +35798,7 @@ var g = &grammar{
 																																	pos: position{line: 2635, col: 35, offset: 83873},
 																																	expr: &actionExpr{
 																																		pos: position{line: 2852, col: 10, offset: 90239},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		run: (*parser).callonListContinuationElement1460,
 																																		expr: &charClassMatcher{
 																																			pos:        position{line: 2852, col: 10, offset: 90239},
 																																			val:        "[\\t ]",
@@ -35682,7 +35812,7 @@ var g = &grammar{
 																																	pos: position{line: 2635, col: 42, offset: 83880},
 																																	expr: &actionExpr{
 																																		pos: position{line: 2861, col: 12, offset: 90410},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		run: (*parser).callonListContinuationElement1463,
 																																		expr: &choiceExpr{
 																																			pos: position{line: 2861, col: 13, offset: 90411},
 																																			alternatives: []interface{}{
@@ -35715,7 +35845,7 @@ var g = &grammar{
 																																		pos: position{line: 2641, col: 5, offset: 84048},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2642, col: 9, offset: 84058},
-																																			run: (*parser).callonListContinuationElement1456,
+																																			run: (*parser).callonListContinuationElement1470,
 																																			expr: &seqExpr{
 																																				pos: position{line: 2642, col: 9, offset: 84058},
 																																				exprs: []interface{}{
@@ -35737,7 +35867,7 @@ var g = &grammar{
 																																											pos: position{line: 2594, col: 26, offset: 82929},
 																																											expr: &actionExpr{
 																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonListContinuationElement1463,
+																																												run: (*parser).callonListContinuationElement1477,
 																																												expr: &charClassMatcher{
 																																													pos:        position{line: 2852, col: 10, offset: 90239},
 																																													val:        "[\\t ]",
@@ -35752,7 +35882,7 @@ var g = &grammar{
 																																											alternatives: []interface{}{
 																																												&actionExpr{
 																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonListContinuationElement1466,
+																																													run: (*parser).callonListContinuationElement1480,
 																																													expr: &choiceExpr{
 																																														pos: position{line: 2861, col: 13, offset: 90411},
 																																														alternatives: []interface{}{
@@ -35800,7 +35930,7 @@ var g = &grammar{
 																																						pos: position{line: 2643, col: 9, offset: 84085},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1476,
+																																							run: (*parser).callonListContinuationElement1490,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
@@ -35814,7 +35944,7 @@ var g = &grammar{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
 																																											pos: position{line: 2852, col: 10, offset: 90239},
-																																											run: (*parser).callonListContinuationElement1481,
+																																											run: (*parser).callonListContinuationElement1495,
 																																											expr: &charClassMatcher{
 																																												pos:        position{line: 2852, col: 10, offset: 90239},
 																																												val:        "[\\t ]",
@@ -35829,7 +35959,7 @@ var g = &grammar{
 																																										alternatives: []interface{}{
 																																											&actionExpr{
 																																												pos: position{line: 2861, col: 12, offset: 90410},
-																																												run: (*parser).callonListContinuationElement1484,
+																																												run: (*parser).callonListContinuationElement1498,
 																																												expr: &choiceExpr{
 																																													pos: position{line: 2861, col: 13, offset: 90411},
 																																													alternatives: []interface{}{
@@ -35878,7 +36008,7 @@ var g = &grammar{
 																																										pos: position{line: 2644, col: 18, offset: 84113},
 																																										expr: &actionExpr{
 																																											pos: position{line: 2652, col: 20, offset: 84314},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											run: (*parser).callonListContinuationElement1509,
 																																											expr: &zeroOrMoreExpr{
 																																												pos: position{line: 2652, col: 20, offset: 84314},
 																																												expr: &charClassMatcher{
@@ -35906,7 +36036,7 @@ var g = &grammar{
 																																						label: "content",
 																																						expr: &actionExpr{
 																																							pos: position{line: 2645, col: 18, offset: 84154},
-																																							run: (*parser).callonListContinuationElement1500,
+																																							run: (*parser).callonListContinuationElement1514,
 																																							expr: &zeroOrMoreExpr{
 																																								pos: position{line: 2645, col: 18, offset: 84154},
 																																								expr: &charClassMatcher{
@@ -35926,7 +36056,7 @@ var g = &grammar{
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonListContinuationElement1505,
+																																									run: (*parser).callonListContinuationElement1519,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2861, col: 13, offset: 90411},
 																																										alternatives: []interface{}{
@@ -35977,7 +36107,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1512,
+																							run: (*parser).callonListContinuationElement1526,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
@@ -35991,7 +36121,7 @@ var g = &grammar{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonListContinuationElement1517,
+																											run: (*parser).callonListContinuationElement1531,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2852, col: 10, offset: 90239},
 																												val:        "[\\t ]",
@@ -36006,7 +36136,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonListContinuationElement1520,
+																												run: (*parser).callonListContinuationElement1534,
 																												expr: &choiceExpr{
 																													pos: position{line: 2861, col: 13, offset: 90411},
 																													alternatives: []interface{}{
@@ -36068,7 +36198,7 @@ var g = &grammar{
 																	pos: position{line: 2594, col: 26, offset: 82929},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1531,
+																		run: (*parser).callonListContinuationElement1545,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2852, col: 10, offset: 90239},
 																			val:        "[\\t ]",
@@ -36083,7 +36213,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1534,
+																			run: (*parser).callonListContinuationElement1548,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -36131,7 +36261,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2462, col: 22, offset: 79224},
-										run: (*parser).callonListContinuationElement1543,
+										run: (*parser).callonListContinuationElement1557,
 										expr: &seqExpr{
 											pos: position{line: 2462, col: 22, offset: 79224},
 											exprs: []interface{}{
@@ -36155,7 +36285,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonListContinuationElement1549,
+														run: (*parser).callonListContinuationElement1563,
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
 															expr: &charClassMatcher{
@@ -36173,7 +36303,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1553,
+															run: (*parser).callonListContinuationElement1567,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -36211,7 +36341,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1561, col: 5, offset: 50416},
-										run: (*parser).callonListContinuationElement1560,
+										run: (*parser).callonListContinuationElement1574,
 										expr: &seqExpr{
 											pos: position{line: 1561, col: 5, offset: 50416},
 											exprs: []interface{}{
@@ -36222,13 +36352,13 @@ var g = &grammar{
 														pos: position{line: 1561, col: 11, offset: 50422},
 														expr: &actionExpr{
 															pos: position{line: 1725, col: 5, offset: 55739},
-															run: (*parser).callonListContinuationElement1564,
+															run: (*parser).callonListContinuationElement1578,
 															expr: &seqExpr{
 																pos: position{line: 1725, col: 5, offset: 55739},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1725, col: 5, offset: 55739},
-																		run: (*parser).callonListContinuationElement1566,
+																		run: (*parser).callonListContinuationElement1580,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1728, col: 5, offset: 55802},
@@ -36238,7 +36368,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1728, col: 12, offset: 55809},
-																					run: (*parser).callonListContinuationElement1569,
+																					run: (*parser).callonListContinuationElement1583,
 																					expr: &litMatcher{
 																						pos:        position{line: 1728, col: 12, offset: 55809},
 																						val:        "TIP: ",
@@ -36248,7 +36378,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1730, col: 13, offset: 55865},
-																					run: (*parser).callonListContinuationElement1571,
+																					run: (*parser).callonListContinuationElement1585,
 																					expr: &litMatcher{
 																						pos:        position{line: 1730, col: 13, offset: 55865},
 																						val:        "NOTE: ",
@@ -36258,7 +36388,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1732, col: 13, offset: 55923},
-																					run: (*parser).callonListContinuationElement1573,
+																					run: (*parser).callonListContinuationElement1587,
 																					expr: &litMatcher{
 																						pos:        position{line: 1732, col: 13, offset: 55923},
 																						val:        "IMPORTANT: ",
@@ -36268,7 +36398,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1734, col: 13, offset: 55991},
-																					run: (*parser).callonListContinuationElement1575,
+																					run: (*parser).callonListContinuationElement1589,
 																					expr: &litMatcher{
 																						pos:        position{line: 1734, col: 13, offset: 55991},
 																						val:        "WARNING: ",
@@ -36278,7 +36408,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1736, col: 13, offset: 56055},
-																					run: (*parser).callonListContinuationElement1577,
+																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
 																						pos:        position{line: 1736, col: 13, offset: 56055},
 																						val:        "CAUTION: ",
@@ -36288,12 +36418,12 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1738, col: 13, offset: 56119},
-																					run: (*parser).callonListContinuationElement1579,
+																					run: (*parser).callonListContinuationElement1593,
 																					expr: &andExpr{
 																						pos: position{line: 1738, col: 13, offset: 56119},
 																						expr: &actionExpr{
 																							pos: position{line: 2856, col: 11, offset: 90300},
-																							run: (*parser).callonListContinuationElement1581,
+																							run: (*parser).callonListContinuationElement1595,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 2856, col: 11, offset: 90300},
 																								expr: &charClassMatcher{
@@ -36320,7 +36450,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48781},
-														run: (*parser).callonListContinuationElement1585,
+														run: (*parser).callonListContinuationElement1599,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48781},
 															exprs: []interface{}{
@@ -36328,7 +36458,7 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48781},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1588,
+																		run: (*parser).callonListContinuationElement1602,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
@@ -36342,7 +36472,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1593,
+																						run: (*parser).callonListContinuationElement1607,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36357,7 +36487,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement1596,
+																							run: (*parser).callonListContinuationElement1610,
 																							expr: &choiceExpr{
 																								pos: position{line: 2861, col: 13, offset: 90411},
 																								alternatives: []interface{}{
@@ -36409,7 +36539,7 @@ var g = &grammar{
 																				pos: position{line: 1536, col: 31, offset: 49665},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1607,
+																					run: (*parser).callonListContinuationElement1621,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2852, col: 10, offset: 90239},
 																						val:        "[\\t ]",
@@ -36421,7 +36551,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonListContinuationElement1609,
+																				run: (*parser).callonListContinuationElement1623,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -36453,7 +36583,7 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48824},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1615,
+																		run: (*parser).callonListContinuationElement1629,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50855},
 																			exprs: []interface{}{
@@ -36461,7 +36591,7 @@ var g = &grammar{
 																					pos: position{line: 1577, col: 5, offset: 50855},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1618,
+																						run: (*parser).callonListContinuationElement1632,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36479,7 +36609,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1622,
+																								run: (*parser).callonListContinuationElement1636,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50925},
 																									exprs: []interface{}{
@@ -36488,7 +36618,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1625,
+																												run: (*parser).callonListContinuationElement1639,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50932},
 																													expr: &litMatcher{
@@ -36502,14 +36632,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1628,
+																											run: (*parser).callonListContinuationElement1642,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1629,
+																								run: (*parser).callonListContinuationElement1643,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51750},
 																									exprs: []interface{}{
@@ -36534,7 +36664,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1634,
+																								run: (*parser).callonListContinuationElement1648,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51876},
 																									exprs: []interface{}{
@@ -36556,7 +36686,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1638,
+																								run: (*parser).callonListContinuationElement1652,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52004},
 																									exprs: []interface{}{
@@ -36578,7 +36708,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1642,
+																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52132},
 																									exprs: []interface{}{
@@ -36603,7 +36733,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1647,
+																								run: (*parser).callonListContinuationElement1661,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52265},
 																									exprs: []interface{}{
@@ -36631,7 +36761,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1652,
+																					run: (*parser).callonListContinuationElement1666,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36651,7 +36781,7 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48854},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1656,
+																		run: (*parser).callonListContinuationElement1670,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52817},
 																			exprs: []interface{}{
@@ -36659,7 +36789,7 @@ var g = &grammar{
 																					pos: position{line: 1627, col: 5, offset: 52817},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1659,
+																						run: (*parser).callonListContinuationElement1673,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36674,7 +36804,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1662,
+																						run: (*parser).callonListContinuationElement1676,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52846},
 																							alternatives: []interface{}{
@@ -36699,11 +36829,11 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1667,
+																					run: (*parser).callonListContinuationElement1681,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1668,
+																					run: (*parser).callonListContinuationElement1682,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36723,7 +36853,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48886},
 																	expr: &actionExpr{
 																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1672,
+																		run: (*parser).callonListContinuationElement1686,
 																		expr: &seqExpr{
 																			pos: position{line: 1716, col: 5, offset: 55354},
 																			exprs: []interface{}{
@@ -36738,7 +36868,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1676,
+																						run: (*parser).callonListContinuationElement1690,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1716, col: 14, offset: 55363},
 																							expr: &charClassMatcher{
@@ -36759,7 +36889,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1680,
+																					run: (*parser).callonListContinuationElement1694,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36782,7 +36912,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1685,
+																				run: (*parser).callonListContinuationElement1699,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1662, col: 5, offset: 53836},
 																					expr: &seqExpr{
@@ -36792,7 +36922,7 @@ var g = &grammar{
 																								pos: position{line: 1662, col: 6, offset: 53837},
 																								expr: &actionExpr{
 																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1689,
+																									run: (*parser).callonListContinuationElement1703,
 																									expr: &seqExpr{
 																										pos: position{line: 1667, col: 5, offset: 53987},
 																										exprs: []interface{}{
@@ -36801,7 +36931,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1692,
+																													run: (*parser).callonListContinuationElement1706,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1667, col: 16, offset: 53998},
 																														expr: &litMatcher{
@@ -36815,7 +36945,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1695,
+																												run: (*parser).callonListContinuationElement1709,
 																											},
 																										},
 																									},
@@ -36828,7 +36958,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1698,
+																											run: (*parser).callonListContinuationElement1712,
 																											expr: &choiceExpr{
 																												pos: position{line: 2861, col: 13, offset: 90411},
 																												alternatives: []interface{}{
@@ -36871,7 +37001,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1706,
+																				run: (*parser).callonListContinuationElement1720,
 																				expr: &seqExpr{
 																					pos: position{line: 1667, col: 5, offset: 53987},
 																					exprs: []interface{}{
@@ -36880,7 +37010,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1709,
+																								run: (*parser).callonListContinuationElement1723,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1667, col: 16, offset: 53998},
 																									expr: &litMatcher{
@@ -36894,7 +37024,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1712,
+																							run: (*parser).callonListContinuationElement1726,
 																						},
 																					},
 																				},
@@ -36904,7 +37034,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1714,
+																						run: (*parser).callonListContinuationElement1728,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36915,7 +37045,7 @@ var g = &grammar{
 																					},
 																					&actionExpr{
 																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1716,
+																						run: (*parser).callonListContinuationElement1730,
 																						expr: &choiceExpr{
 																							pos: position{line: 2861, col: 13, offset: 90411},
 																							alternatives: []interface{}{
@@ -36955,7 +37085,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 48988},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1724,
+																		run: (*parser).callonListContinuationElement1738,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
@@ -36977,7 +37107,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1730,
+																								run: (*parser).callonListContinuationElement1744,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36986,7 +37116,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1733,
+																												run: (*parser).callonListContinuationElement1747,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37013,7 +37143,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1739,
+																												run: (*parser).callonListContinuationElement1753,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37028,7 +37158,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1742,
+																													run: (*parser).callonListContinuationElement1756,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37066,7 +37196,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1749,
+																								run: (*parser).callonListContinuationElement1763,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -37075,7 +37205,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1752,
+																												run: (*parser).callonListContinuationElement1766,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -37102,7 +37232,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1758,
+																												run: (*parser).callonListContinuationElement1772,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37117,7 +37247,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1761,
+																													run: (*parser).callonListContinuationElement1775,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37155,7 +37285,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1768,
+																								run: (*parser).callonListContinuationElement1782,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37170,7 +37300,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1772,
+																												run: (*parser).callonListContinuationElement1786,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37187,7 +37317,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1776,
+																												run: (*parser).callonListContinuationElement1790,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37202,7 +37332,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1779,
+																													run: (*parser).callonListContinuationElement1793,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37240,7 +37370,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1786,
+																								run: (*parser).callonListContinuationElement1800,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37249,7 +37379,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1789,
+																												run: (*parser).callonListContinuationElement1803,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37276,7 +37406,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1795,
+																												run: (*parser).callonListContinuationElement1809,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37291,7 +37421,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1798,
+																													run: (*parser).callonListContinuationElement1812,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37329,7 +37459,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1805,
+																								run: (*parser).callonListContinuationElement1819,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37338,7 +37468,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1808,
+																												run: (*parser).callonListContinuationElement1822,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37365,7 +37495,7 @@ var g = &grammar{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1814,
+																												run: (*parser).callonListContinuationElement1828,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37380,7 +37510,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1817,
+																													run: (*parser).callonListContinuationElement1831,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37418,7 +37548,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1824,
+																								run: (*parser).callonListContinuationElement1838,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37427,7 +37557,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1827,
+																												run: (*parser).callonListContinuationElement1841,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37454,7 +37584,7 @@ var g = &grammar{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1833,
+																												run: (*parser).callonListContinuationElement1847,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37469,7 +37599,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1836,
+																													run: (*parser).callonListContinuationElement1850,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37507,7 +37637,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1843,
+																								run: (*parser).callonListContinuationElement1857,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37516,7 +37646,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1846,
+																												run: (*parser).callonListContinuationElement1860,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37543,7 +37673,7 @@ var g = &grammar{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1852,
+																												run: (*parser).callonListContinuationElement1866,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37558,7 +37688,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1855,
+																													run: (*parser).callonListContinuationElement1869,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37596,7 +37726,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1862,
+																								run: (*parser).callonListContinuationElement1876,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37605,7 +37735,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1865,
+																												run: (*parser).callonListContinuationElement1879,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37632,7 +37762,7 @@ var g = &grammar{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1871,
+																												run: (*parser).callonListContinuationElement1885,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37647,7 +37777,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1874,
+																													run: (*parser).callonListContinuationElement1888,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37685,7 +37815,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1881,
+																								run: (*parser).callonListContinuationElement1895,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37694,7 +37824,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1884,
+																												run: (*parser).callonListContinuationElement1898,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37721,7 +37851,7 @@ var g = &grammar{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1890,
+																												run: (*parser).callonListContinuationElement1904,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37736,7 +37866,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1893,
+																													run: (*parser).callonListContinuationElement1907,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37784,7 +37914,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1901,
+																		run: (*parser).callonListContinuationElement1915,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
 																			expr: &charClassMatcher{
@@ -37802,7 +37932,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1905,
+																			run: (*parser).callonListContinuationElement1919,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -52281,42 +52411,64 @@ func (p *parser) callonDocumentFragment979() (interface{}, error) {
 	return p.cur.onDocumentFragment979(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment1087() (interface{}, error) {
+func (c *current) onDocumentFragment1081() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1087() (interface{}, error) {
+func (p *parser) callonDocumentFragment1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1087()
+	return p.cur.onDocumentFragment1081()
 }
 
-func (c *current) onDocumentFragment1090() (interface{}, error) {
+func (c *current) onDocumentFragment1084() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1090() (interface{}, error) {
+func (p *parser) callonDocumentFragment1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1090()
+	return p.cur.onDocumentFragment1084()
+}
+
+func (c *current) onDocumentFragment1100() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (c *current) onDocumentFragment1098() (interface{}, error) {
+func (p *parser) callonDocumentFragment1100() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1100()
+}
+
+func (c *current) onDocumentFragment1103() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1098() (interface{}, error) {
+func (p *parser) callonDocumentFragment1103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1098()
+	return p.cur.onDocumentFragment1103()
 }
 
-func (c *current) onDocumentFragment1076() (interface{}, error) {
+func (c *current) onDocumentFragment1112() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1112() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1112()
+}
 
+func (c *current) onDocumentFragment1076() (interface{}, error) {
 	return types.NewThematicBreak()
 
 }
@@ -52327,609 +52479,609 @@ func (p *parser) callonDocumentFragment1076() (interface{}, error) {
 	return p.cur.onDocumentFragment1076()
 }
 
-func (c *current) onDocumentFragment1110() (interface{}, error) {
+func (c *current) onDocumentFragment1124() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1110() (interface{}, error) {
+func (p *parser) callonDocumentFragment1124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1110()
+	return p.cur.onDocumentFragment1124()
 }
 
-func (c *current) onDocumentFragment1113() (interface{}, error) {
+func (c *current) onDocumentFragment1127() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1113() (interface{}, error) {
+func (p *parser) callonDocumentFragment1127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1113()
+	return p.cur.onDocumentFragment1127()
 }
 
-func (c *current) onDocumentFragment1128() (interface{}, error) {
+func (c *current) onDocumentFragment1142() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1128() (interface{}, error) {
+func (p *parser) callonDocumentFragment1142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1128()
+	return p.cur.onDocumentFragment1142()
 }
 
-func (c *current) onDocumentFragment1131() (interface{}, error) {
+func (c *current) onDocumentFragment1145() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1131() (interface{}, error) {
+func (p *parser) callonDocumentFragment1145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1131()
+	return p.cur.onDocumentFragment1145()
 }
 
-func (c *current) onDocumentFragment1123() (interface{}, error) {
+func (c *current) onDocumentFragment1137() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1123() (interface{}, error) {
+func (p *parser) callonDocumentFragment1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1123()
+	return p.cur.onDocumentFragment1137()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1159() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1159()
 }
 
-func (c *current) onDocumentFragment1148() (interface{}, error) {
+func (c *current) onDocumentFragment1162() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1148() (interface{}, error) {
+func (p *parser) callonDocumentFragment1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1148()
+	return p.cur.onDocumentFragment1162()
 }
 
-func (c *current) onDocumentFragment1170() (interface{}, error) {
+func (c *current) onDocumentFragment1184() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1170() (interface{}, error) {
+func (p *parser) callonDocumentFragment1184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1170()
+	return p.cur.onDocumentFragment1184()
 }
 
-func (c *current) onDocumentFragment1175() (interface{}, error) {
+func (c *current) onDocumentFragment1189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175()
+	return p.cur.onDocumentFragment1189()
 }
 
-func (c *current) onDocumentFragment1173(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1187(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["content"])
+	return p.cur.onDocumentFragment1187(stack["content"])
 }
 
-func (c *current) onDocumentFragment1166(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1180(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1166() (interface{}, error) {
+func (p *parser) callonDocumentFragment1180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1166(stack["content"])
+	return p.cur.onDocumentFragment1180(stack["content"])
 }
 
-func (c *current) onDocumentFragment1179() (interface{}, error) {
+func (c *current) onDocumentFragment1193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1179() (interface{}, error) {
+func (p *parser) callonDocumentFragment1193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1179()
+	return p.cur.onDocumentFragment1193()
 }
 
-func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1176(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162(stack["cells"])
+	return p.cur.onDocumentFragment1176(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1196() (interface{}, error) {
+func (c *current) onDocumentFragment1210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1196() (interface{}, error) {
+func (p *parser) callonDocumentFragment1210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1196()
+	return p.cur.onDocumentFragment1210()
 }
 
-func (c *current) onDocumentFragment1199() (interface{}, error) {
+func (c *current) onDocumentFragment1213() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1199() (interface{}, error) {
+func (p *parser) callonDocumentFragment1213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1199()
+	return p.cur.onDocumentFragment1213()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1228() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1228()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
+func (c *current) onDocumentFragment1231() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1231()
 }
 
-func (c *current) onDocumentFragment1209() (interface{}, error) {
+func (c *current) onDocumentFragment1223() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1209() (interface{}, error) {
+func (p *parser) callonDocumentFragment1223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1209()
+	return p.cur.onDocumentFragment1223()
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
+func (c *current) onDocumentFragment1240() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1240()
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1245() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1245()
 }
 
-func (c *current) onDocumentFragment1234() (interface{}, error) {
+func (c *current) onDocumentFragment1248() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1234() (interface{}, error) {
+func (p *parser) callonDocumentFragment1248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1234()
+	return p.cur.onDocumentFragment1248()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1262() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1262()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1265() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1265()
 }
 
-func (c *current) onDocumentFragment1266() (interface{}, error) {
+func (c *current) onDocumentFragment1280() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1266() (interface{}, error) {
+func (p *parser) callonDocumentFragment1280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1266()
+	return p.cur.onDocumentFragment1280()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1261() (interface{}, error) {
+func (c *current) onDocumentFragment1275() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1261() (interface{}, error) {
+func (p *parser) callonDocumentFragment1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1275()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1294() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1294()
 }
 
-func (c *current) onDocumentFragment1285() (interface{}, error) {
+func (c *current) onDocumentFragment1299() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1285() (interface{}, error) {
+func (p *parser) callonDocumentFragment1299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1285()
+	return p.cur.onDocumentFragment1299()
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1304() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1304()
 }
 
-func (c *current) onDocumentFragment1241(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1255(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1241() (interface{}, error) {
+func (p *parser) callonDocumentFragment1255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1241(stack["content"])
+	return p.cur.onDocumentFragment1255(stack["content"])
 }
 
-func (c *current) onDocumentFragment1189(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1203(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1203(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1186(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1200(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1186() (interface{}, error) {
+func (p *parser) callonDocumentFragment1200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1186(stack["cells"])
+	return p.cur.onDocumentFragment1200(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1173(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159(stack["cells"])
+	return p.cur.onDocumentFragment1173(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1316() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1316()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1319() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1319()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1311() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1311()
 }
 
-func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1152(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+func (p *parser) callonDocumentFragment1152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1138(stack["content"])
+	return p.cur.onDocumentFragment1152(stack["content"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1330() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1330()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1333() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1333()
 }
 
-func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1120(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1106() (interface{}, error) {
+func (p *parser) callonDocumentFragment1120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1106(stack["lines"])
+	return p.cur.onDocumentFragment1120(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1334() (interface{}, error) {
+func (c *current) onDocumentFragment1348() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1334() (interface{}, error) {
+func (p *parser) callonDocumentFragment1348() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1334()
+	return p.cur.onDocumentFragment1348()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1352() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1352()
 }
 
-func (c *current) onDocumentFragment1328(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1342(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328(stack["content"])
+	return p.cur.onDocumentFragment1342(stack["content"])
 }
 
-func (c *current) onDocumentFragment1347() (bool, error) {
+func (c *current) onDocumentFragment1361() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1347() (bool, error) {
+func (p *parser) callonDocumentFragment1361() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1361()
 }
 
-func (c *current) onDocumentFragment1353() (interface{}, error) {
+func (c *current) onDocumentFragment1367() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1353() (interface{}, error) {
+func (p *parser) callonDocumentFragment1367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1353()
+	return p.cur.onDocumentFragment1367()
 }
 
-func (c *current) onDocumentFragment1356() (interface{}, error) {
+func (c *current) onDocumentFragment1370() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1356() (interface{}, error) {
+func (p *parser) callonDocumentFragment1370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1370()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1387() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1387()
 }
 
-func (c *current) onDocumentFragment1376() (interface{}, error) {
+func (c *current) onDocumentFragment1390() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1376() (interface{}, error) {
+func (p *parser) callonDocumentFragment1390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1376()
+	return p.cur.onDocumentFragment1390()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1379() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1379()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1400() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1400()
 }
 
-func (c *current) onDocumentFragment1389() (interface{}, error) {
+func (c *current) onDocumentFragment1403() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1389() (interface{}, error) {
+func (p *parser) callonDocumentFragment1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1389()
+	return p.cur.onDocumentFragment1403()
 }
 
-func (c *current) onDocumentFragment1349(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1363(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349(stack["content"])
+	return p.cur.onDocumentFragment1363(stack["content"])
 }
 
-func (c *current) onDocumentFragment1345(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1359(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["frontmatter"])
+	return p.cur.onDocumentFragment1359(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1397(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1411(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (bool, error) {
+func (p *parser) callonDocumentFragment1411() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1411(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -66052,42 +66204,64 @@ func (p *parser) callonListContinuationElement1194() (interface{}, error) {
 	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1302() (interface{}, error) {
+func (c *current) onListContinuationElement1296() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1296() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1296()
+}
+
+func (c *current) onListContinuationElement1299() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1299() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1299()
+}
+
+func (c *current) onListContinuationElement1315() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1302() (interface{}, error) {
+func (p *parser) callonListContinuationElement1315() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1302()
+	return p.cur.onListContinuationElement1315()
 }
 
-func (c *current) onListContinuationElement1305() (interface{}, error) {
+func (c *current) onListContinuationElement1318() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1305() (interface{}, error) {
+func (p *parser) callonListContinuationElement1318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1305()
+	return p.cur.onListContinuationElement1318()
 }
 
-func (c *current) onListContinuationElement1313() (interface{}, error) {
+func (c *current) onListContinuationElement1327() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1313() (interface{}, error) {
+func (p *parser) callonListContinuationElement1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313()
+	return p.cur.onListContinuationElement1327()
 }
 
 func (c *current) onListContinuationElement1291() (interface{}, error) {
-
 	return types.NewThematicBreak()
 
 }
@@ -66098,685 +66272,685 @@ func (p *parser) callonListContinuationElement1291() (interface{}, error) {
 	return p.cur.onListContinuationElement1291()
 }
 
-func (c *current) onListContinuationElement1325() (interface{}, error) {
+func (c *current) onListContinuationElement1339() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1325() (interface{}, error) {
+func (p *parser) callonListContinuationElement1339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1325()
+	return p.cur.onListContinuationElement1339()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1342() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1342()
 }
 
-func (c *current) onListContinuationElement1343() (interface{}, error) {
+func (c *current) onListContinuationElement1357() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1357() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343()
+	return p.cur.onListContinuationElement1357()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1360() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1360()
 }
 
-func (c *current) onListContinuationElement1338() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1374() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1374()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1377() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1377()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1399() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1399()
 }
 
-func (c *current) onListContinuationElement1390() (interface{}, error) {
+func (c *current) onListContinuationElement1404() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390()
+	return p.cur.onListContinuationElement1404()
 }
 
-func (c *current) onListContinuationElement1388(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1402(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["content"])
+	return p.cur.onListContinuationElement1402(stack["content"])
 }
 
-func (c *current) onListContinuationElement1381(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1395(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1381() (interface{}, error) {
+func (p *parser) callonListContinuationElement1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1381(stack["content"])
+	return p.cur.onListContinuationElement1395(stack["content"])
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1408() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1408()
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1391(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1391(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1425() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1425()
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1428() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1428()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1443()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1446() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1446()
 }
 
-func (c *current) onListContinuationElement1424() (interface{}, error) {
+func (c *current) onListContinuationElement1438() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1424() (interface{}, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1424()
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1460() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1460()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1463() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1463()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1477() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1477() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1477()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1480() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1480()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1495() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1495()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1498() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1498()
 }
 
-func (c *current) onListContinuationElement1476() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
+func (c *current) onListContinuationElement1509() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1509()
 }
 
-func (c *current) onListContinuationElement1500() (interface{}, error) {
+func (c *current) onListContinuationElement1514() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1500() (interface{}, error) {
+func (p *parser) callonListContinuationElement1514() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1500()
+	return p.cur.onListContinuationElement1514()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1519() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1519()
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1470(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1470(stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1418(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1418(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1401(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1415(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1401() (interface{}, error) {
+func (p *parser) callonListContinuationElement1415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1401(stack["cells"])
+	return p.cur.onListContinuationElement1415(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1374(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1388(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374(stack["cells"])
+	return p.cur.onListContinuationElement1388(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1531() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1531()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1534() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1367(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1367(stack["content"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1545() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1545() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1545()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1548() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1548()
 }
 
-func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1335(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1321() (interface{}, error) {
+func (p *parser) callonListContinuationElement1335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1321(stack["lines"])
+	return p.cur.onListContinuationElement1335(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1549() (interface{}, error) {
+func (c *current) onListContinuationElement1563() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549()
+	return p.cur.onListContinuationElement1563()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1567() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1567() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1567()
 }
 
-func (c *current) onListContinuationElement1543(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1557(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543(stack["content"])
+	return p.cur.onListContinuationElement1557(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566() (bool, error) {
+func (c *current) onListContinuationElement1580() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (bool, error) {
+func (p *parser) callonListContinuationElement1580() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1580()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1583() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1583()
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1585() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1585()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1587() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1587()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1589() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1589() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1589()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1591() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1591()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1595() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1595()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1593() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1593()
 }
 
-func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1578(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564(stack["style"])
+	return p.cur.onListContinuationElement1578(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1607() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1607()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1602() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1602()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1621() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1621() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1621()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1623()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1632() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1632()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1639() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1639()
 }
 
-func (c *current) onListContinuationElement1628(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1642(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (bool, error) {
+func (p *parser) callonListContinuationElement1642() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["depth"])
+	return p.cur.onListContinuationElement1642(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1622(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1636(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66792,779 +66966,779 @@ func (c *current) onListContinuationElement1622(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1636() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622(stack["depth"])
+	return p.cur.onListContinuationElement1636(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1643() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1643()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1652() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1652()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1661() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1652(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1666(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652(stack["prefix"])
+	return p.cur.onListContinuationElement1666(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1615(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1629(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615(stack["prefix"])
+	return p.cur.onListContinuationElement1629(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1673() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1673()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1676() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1676()
 }
 
-func (c *current) onListContinuationElement1667(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1681(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1681() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"])
+	return p.cur.onListContinuationElement1681(stack["style"])
 }
 
-func (c *current) onListContinuationElement1668(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1682(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["style"])
+	return p.cur.onListContinuationElement1682(stack["style"])
 }
 
-func (c *current) onListContinuationElement1656(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1670(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["style"])
+	return p.cur.onListContinuationElement1670(stack["style"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1690() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1690()
 }
 
-func (c *current) onListContinuationElement1680(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["ref"])
+	return p.cur.onListContinuationElement1694(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1672(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1686(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["ref"])
+	return p.cur.onListContinuationElement1686(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1706() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1706()
 }
 
-func (c *current) onListContinuationElement1695(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1709(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (bool, error) {
+func (p *parser) callonListContinuationElement1709() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["separator"])
+	return p.cur.onListContinuationElement1709(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1689(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1703(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["separator"])
+	return p.cur.onListContinuationElement1703(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1712() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1712()
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1699() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1699()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1723() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1723()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1726(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1726() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1726(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1720(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1720(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1714() (interface{}, error) {
+func (c *current) onListContinuationElement1728() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714()
+	return p.cur.onListContinuationElement1728()
 }
 
-func (c *current) onListContinuationElement1716() (interface{}, error) {
+func (c *current) onListContinuationElement1730() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1716() (interface{}, error) {
+func (p *parser) callonListContinuationElement1730() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1716()
+	return p.cur.onListContinuationElement1730()
 }
 
-func (c *current) onListContinuationElement1733() (interface{}, error) {
+func (c *current) onListContinuationElement1747() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1733() (interface{}, error) {
+func (p *parser) callonListContinuationElement1747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1733()
+	return p.cur.onListContinuationElement1747()
 }
 
-func (c *current) onListContinuationElement1739() (interface{}, error) {
+func (c *current) onListContinuationElement1753() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739()
+	return p.cur.onListContinuationElement1753()
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1756() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1756()
 }
 
-func (c *current) onListContinuationElement1730(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1744(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1730() (interface{}, error) {
+func (p *parser) callonListContinuationElement1744() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1730(stack["delimiter"])
+	return p.cur.onListContinuationElement1744(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1752() (interface{}, error) {
+func (c *current) onListContinuationElement1766() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1752() (interface{}, error) {
+func (p *parser) callonListContinuationElement1766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1752()
+	return p.cur.onListContinuationElement1766()
 }
 
-func (c *current) onListContinuationElement1758() (interface{}, error) {
+func (c *current) onListContinuationElement1772() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758()
+	return p.cur.onListContinuationElement1772()
 }
 
-func (c *current) onListContinuationElement1761() (interface{}, error) {
+func (c *current) onListContinuationElement1775() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1761() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1761()
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1749(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1763(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1763() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749(stack["delimiter"])
+	return p.cur.onListContinuationElement1763(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1772() (interface{}, error) {
+func (c *current) onListContinuationElement1786() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772()
+	return p.cur.onListContinuationElement1786()
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1790() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1790()
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1793() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1793()
 }
 
-func (c *current) onListContinuationElement1768(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1782(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1768() (interface{}, error) {
+func (p *parser) callonListContinuationElement1782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1768(stack["language"])
+	return p.cur.onListContinuationElement1782(stack["language"])
 }
 
-func (c *current) onListContinuationElement1789() (interface{}, error) {
+func (c *current) onListContinuationElement1803() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1789() (interface{}, error) {
+func (p *parser) callonListContinuationElement1803() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1789()
+	return p.cur.onListContinuationElement1803()
 }
 
-func (c *current) onListContinuationElement1795() (interface{}, error) {
+func (c *current) onListContinuationElement1809() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795()
+	return p.cur.onListContinuationElement1809()
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1812() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1812()
 }
 
-func (c *current) onListContinuationElement1786(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1800(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1786() (interface{}, error) {
+func (p *parser) callonListContinuationElement1800() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1786(stack["delimiter"])
+	return p.cur.onListContinuationElement1800(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1808() (interface{}, error) {
+func (c *current) onListContinuationElement1822() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1822() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808()
+	return p.cur.onListContinuationElement1822()
 }
 
-func (c *current) onListContinuationElement1814() (interface{}, error) {
+func (c *current) onListContinuationElement1828() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814()
+	return p.cur.onListContinuationElement1828()
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1831() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1831()
 }
 
-func (c *current) onListContinuationElement1805(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1819(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1805() (interface{}, error) {
+func (p *parser) callonListContinuationElement1819() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1805(stack["delimiter"])
+	return p.cur.onListContinuationElement1819(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1827() (interface{}, error) {
+func (c *current) onListContinuationElement1841() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1841() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827()
+	return p.cur.onListContinuationElement1841()
 }
 
-func (c *current) onListContinuationElement1833() (interface{}, error) {
+func (c *current) onListContinuationElement1847() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1847() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833()
+	return p.cur.onListContinuationElement1847()
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1850() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1850()
 }
 
-func (c *current) onListContinuationElement1824(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1838(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1824() (interface{}, error) {
+func (p *parser) callonListContinuationElement1838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1824(stack["delimiter"])
+	return p.cur.onListContinuationElement1838(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1846() (interface{}, error) {
+func (c *current) onListContinuationElement1860() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1846() (interface{}, error) {
+func (p *parser) callonListContinuationElement1860() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1846()
+	return p.cur.onListContinuationElement1860()
 }
 
-func (c *current) onListContinuationElement1852() (interface{}, error) {
+func (c *current) onListContinuationElement1866() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1866() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852()
+	return p.cur.onListContinuationElement1866()
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1869()
 }
 
-func (c *current) onListContinuationElement1843(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1857(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1843() (interface{}, error) {
+func (p *parser) callonListContinuationElement1857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1843(stack["delimiter"])
+	return p.cur.onListContinuationElement1857(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1865() (interface{}, error) {
+func (c *current) onListContinuationElement1879() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1865() (interface{}, error) {
+func (p *parser) callonListContinuationElement1879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1865()
+	return p.cur.onListContinuationElement1879()
 }
 
-func (c *current) onListContinuationElement1871() (interface{}, error) {
+func (c *current) onListContinuationElement1885() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871()
+	return p.cur.onListContinuationElement1885()
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1888() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1888()
 }
 
-func (c *current) onListContinuationElement1862(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1876(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1862() (interface{}, error) {
+func (p *parser) callonListContinuationElement1876() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1862(stack["delimiter"])
+	return p.cur.onListContinuationElement1876(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1884() (interface{}, error) {
+func (c *current) onListContinuationElement1898() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1884() (interface{}, error) {
+func (p *parser) callonListContinuationElement1898() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1884()
+	return p.cur.onListContinuationElement1898()
 }
 
-func (c *current) onListContinuationElement1890() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1890() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1890()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1893() (interface{}, error) {
+func (c *current) onListContinuationElement1907() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1893() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1893()
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1881(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1895(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1881() (interface{}, error) {
+func (p *parser) callonListContinuationElement1895() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1881(stack["delimiter"])
+	return p.cur.onListContinuationElement1895(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1724(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1738(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1724() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1724(stack["delimiter"])
+	return p.cur.onListContinuationElement1738(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1901() (interface{}, error) {
+func (c *current) onListContinuationElement1915() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1901() (interface{}, error) {
+func (p *parser) callonListContinuationElement1915() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1901()
+	return p.cur.onListContinuationElement1915()
 }
 
-func (c *current) onListContinuationElement1905() (interface{}, error) {
+func (c *current) onListContinuationElement1919() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1905() (interface{}, error) {
+func (p *parser) callonListContinuationElement1919() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1905()
+	return p.cur.onListContinuationElement1919()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1599(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1599(stack["content"])
 }
 
-func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1574(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1574(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index edb1a02..00c872c 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2695,9 +2695,9 @@ Column <-
 // Thematic break
 // -------------------------------------------------------------------------------------
 ThematicBreak <- (
-        "'''" // Asciidoc flavour
-        / "***" / "* * *" / "---" / "- - -" / "___" / "_ _ _" // Markdown flavours are supported, too
-        ) Space* EOL EOL { 
+        "'''" Space* EOL // Asciidoc
+        / ("***" / "* * *" / "---" / "- - -" / "___" / "_ _ _") Space* EOL &EOL // Markdown, then a blank line    
+        ) {
         return types.NewThematicBreak()
     }
 
-- 
2.43.0


From 1fbc921a89f485df297a28f4ef7c3c595c128bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 055/117] fix: accept dashes and underscores in the names of
 footnotes

---
 pkg/parser/parser.go  | 12 ++++++------
 pkg/parser/parser.peg |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 7ecff3e..513b00f 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -20298,13 +20298,14 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 1335, col: 16, offset: 42327},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 1335, col: 16, offset: 42327},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
-											val:        "[\\pL\\pN]",
+											pos:        position{line: 1335, col: 16, offset: 42327},
+											val:        "[_-\\pL\\pN]",
+											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
 											inverted:   false,
@@ -58086,7 +58087,6 @@ func (p *parser) callonInlineIcon1() (interface{}, error) {
 
 func (c *current) onInlineFootnote6() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonInlineFootnote6() (interface{}, error) {
@@ -58096,7 +58096,7 @@ func (p *parser) callonInlineFootnote6() (interface{}, error) {
 }
 
 func (c *current) onInlineFootnote1(ref, elements interface{}) (interface{}, error) {
-	// TODO: use only this rule with `ref:(FootnoteRef)?`
+	// optional ref name
 	return types.NewFootnote(ref, elements.([]interface{}))
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 00c872c..beddf53 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1328,11 +1328,11 @@ InlineIcon <- "icon:" icon:([\pL\pN_-]+ { return string(c.text), nil }) attribut
 // -------------------------------------------------------------------------------------------------------------------------------
 // Inline Foot Notes
 // -------------------------------------------------------------------------------------------------------------------------------
-InlineFootnote <- "footnote:" ref:(FootnoteRef)? "[" elements:(FootnoteElements) "]" { // TODO: use only this rule with `ref:(FootnoteRef)?`
+InlineFootnote <- "footnote:" ref:(FootnoteRef)? "[" elements:(FootnoteElements) "]" { // optional ref name
         return types.NewFootnote(ref, elements.([]interface{}))
     }
 
-FootnoteRef <- Alphanums
+FootnoteRef <- [\pL\pN_-]+ { return string(c.text), nil }
 
 FootnoteElements <- elements:(FootnoteElement)* {
         return types.NewInlineElements(elements.([]interface{}))
-- 
2.43.0


From acf0117201e845e4a53c8cdff9db128cef5bcaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 056/117] fix: enable the experimental macros when the
 attribute is set in the configuration

---
 pkg/parser/context.go                                 | 3 +++
 pkg/parser/document_processing_apply_substitutions.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 4f4452b..cd86f7f 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -30,6 +30,9 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 		GlobalStore(usermacrosKey, config.Macros),
 		GlobalStore(enabledSubstitutionsKey, normalSubstitutions()),
 	}
+	if config.Attributes.Has(types.AttrExperimental) {
+		opts = append(opts, enableExperimentalMacros(true))
+	}
 	opts = append(opts, options...)
 	return &ParseContext{
 		filename:     config.Filename,
diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index cb5763f..56a495d 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -117,7 +117,7 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 
 func applySubstitutionsOnAttributeReset(ctx *ParseContext, b *types.AttributeReset, _ ...Option) error {
 	ctx.attributes.unset(b.Name)
-	if b.Name == types.AttrExperimental {
+	if b.Name == types.AttrExperimental && !ctx.attributes.immutableAttributes.Has(b.Name) {
 		ctx.opts = append(ctx.opts, enableExperimentalMacros(false))
 	}
 	return nil
-- 
2.43.0


From 91cb4157dec8997bb644169b760d0a5f671019a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 057/117] fix: end paragraphs at the delimiters of blocks and
 tables, and comment blocks at their own delimiter

---
 pkg/parser/parser.go  | 30537 ++++++++++++++++++++++------------------
 pkg/parser/parser.peg |    17 +-
 2 files changed, 16538 insertions(+), 14016 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 513b00f..5683261 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2853, col: 12, offset: 90416},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2853, col: 13, offset: 90417},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2853, col: 13, offset: 90417},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2853, col: 13, offset: 90417},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2853, col: 18, offset: 90422},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2853, col: 18, offset: 90422},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2853, col: 12, offset: 90416},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2853, col: 13, offset: 90417},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2853, col: 13, offset: 90417},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2853, col: 13, offset: 90417},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2853, col: 18, offset: 90422},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2853, col: 18, offset: 90422},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2751, col: 13, offset: 87684},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2865, col: 11, offset: 90650},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2865, col: 11, offset: 90650},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2865, col: 11, offset: 90650},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2811, col: 14, offset: 89182},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2811, col: 14, offset: 89182},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88832},
+															pos:        position{line: 2811, col: 14, offset: 89182},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2806, col: 17, offset: 88902},
+												pos: position{line: 2815, col: 17, offset: 89252},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2806, col: 17, offset: 88902},
+													pos:   position{line: 2815, col: 17, offset: 89252},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2853, col: 12, offset: 90416},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2853, col: 13, offset: 90417},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2853, col: 13, offset: 90417},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2853, col: 13, offset: 90417},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2853, col: 18, offset: 90422},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2853, col: 18, offset: 90422},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2853, col: 12, offset: 90416},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2853, col: 13, offset: 90417},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2853, col: 13, offset: 90417},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2853, col: 13, offset: 90417},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2853, col: 18, offset: 90422},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2853, col: 18, offset: 90422},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2853, col: 12, offset: 90416},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2853, col: 13, offset: 90417},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2853, col: 13, offset: 90417},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2853, col: 13, offset: 90417},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2853, col: 18, offset: 90422},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2853, col: 18, offset: 90422},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2853, col: 12, offset: 90416},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2853, col: 13, offset: 90417},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2853, col: 13, offset: 90417},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2853, col: 13, offset: 90417},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2853, col: 18, offset: 90422},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2853, col: 18, offset: 90422},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2853, col: 12, offset: 90416},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2853, col: 13, offset: 90417},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2853, col: 13, offset: 90417},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2853, col: 13, offset: 90417},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2853, col: 18, offset: 90422},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2853, col: 18, offset: 90422},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2844, col: 12, offset: 90066},
+																							pos: position{line: 2853, col: 12, offset: 90416},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2844, col: 13, offset: 90067},
+																								pos: position{line: 2853, col: 13, offset: 90417},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2853, col: 13, offset: 90417},
 																										expr: &litMatcher{
-																											pos:        position{line: 2844, col: 13, offset: 90067},
+																											pos:        position{line: 2853, col: 13, offset: 90417},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2844, col: 18, offset: 90072},
+																										pos: position{line: 2853, col: 18, offset: 90422},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2844, col: 18, offset: 90072},
+																											pos:        position{line: 2853, col: 18, offset: 90422},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2853, col: 12, offset: 90416},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2853, col: 13, offset: 90417},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2853, col: 13, offset: 90417},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2853, col: 13, offset: 90417},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2853, col: 18, offset: 90422},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2853, col: 18, offset: 90422},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2853, col: 12, offset: 90416},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2853, col: 13, offset: 90417},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2853, col: 13, offset: 90417},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2853, col: 13, offset: 90417},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2853, col: 18, offset: 90422},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2853, col: 18, offset: 90422},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 12, offset: 90066},
+												pos: position{line: 2853, col: 12, offset: 90416},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90067},
+													pos: position{line: 2853, col: 13, offset: 90417},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2853, col: 13, offset: 90417},
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90067},
+																pos:        position{line: 2853, col: 13, offset: 90417},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2844, col: 18, offset: 90072},
+															pos: position{line: 2853, col: 18, offset: 90422},
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 18, offset: 90072},
+																pos:        position{line: 2853, col: 18, offset: 90422},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2746, col: 14, offset: 87408},
+																		pos: position{line: 2755, col: 14, offset: 87758},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2746, col: 14, offset: 87408},
+																			pos: position{line: 2755, col: 14, offset: 87758},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2746, col: 14, offset: 87408},
+																				pos:        position{line: 2755, col: 14, offset: 87758},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2755, col: 14, offset: 87758},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2755, col: 14, offset: 87758},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2755, col: 14, offset: 87758},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2746, col: 14, offset: 87408},
+																							pos: position{line: 2755, col: 14, offset: 87758},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2746, col: 14, offset: 87408},
+																								pos: position{line: 2755, col: 14, offset: 87758},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2746, col: 14, offset: 87408},
+																									pos:        position{line: 2755, col: 14, offset: 87758},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2746, col: 14, offset: 87408},
+																									pos: position{line: 2755, col: 14, offset: 87758},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2746, col: 14, offset: 87408},
+																										pos: position{line: 2755, col: 14, offset: 87758},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2746, col: 14, offset: 87408},
+																											pos:        position{line: 2755, col: 14, offset: 87758},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2755, col: 14, offset: 87758},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2755, col: 14, offset: 87758},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2755, col: 14, offset: 87758},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2755, col: 14, offset: 87758},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2755, col: 14, offset: 87758},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2755, col: 14, offset: 87758},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2861, col: 10, offset: 90589},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2861, col: 10, offset: 90589},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2869, col: 11, offset: 90573},
+														pos: position{line: 2878, col: 11, offset: 90923},
 														expr: &anyMatcher{
-															line: 2869, col: 13, offset: 90575,
+															line: 2878, col: 13, offset: 90925,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2861, col: 10, offset: 90589},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -4416,88 +4416,92 @@ var g = &grammar{
 											expr: &seqExpr{
 												pos: position{line: 820, col: 5, offset: 26324},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
-														run: (*parser).callonDocumentFragment77,
-														expr: &seqExpr{
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26324},
+														label: "start",
+														expr: &actionExpr{
 															pos: position{line: 740, col: 5, offset: 23584},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
-																		run: (*parser).callonDocumentFragment80,
-																		expr: &seqExpr{
+															run: (*parser).callonDocumentFragment78,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23584},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23584},
+																		label: "delimiter",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 16, offset: 23595},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
-																						val:        "/",
+																			run: (*parser).callonDocumentFragment81,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23595},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23595},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23602},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23602},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
-																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentFragment86,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23686},
+																		expr: &actionExpr{
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment87,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentFragment89,
-																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment90,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
-																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
 																			},
 																		},
 																	},
@@ -4505,145 +4509,162 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 821, col: 5, offset: 26363},
+														run: (*parser).callonDocumentFragment97,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 824, col: 5, offset: 26455},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 839, col: 5, offset: 26847},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
-																run: (*parser).callonDocumentFragment98,
+																pos: position{line: 839, col: 6, offset: 26848},
+																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 839, col: 6, offset: 26848},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 839, col: 6, offset: 26848},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 832, col: 5, offset: 26689},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						run: (*parser).callonDocumentFragment102,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										run: (*parser).callonDocumentFragment105,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 832, col: 5, offset: 26689},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 832, col: 5, offset: 26689},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									run: (*parser).callonDocumentFragment106,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23584},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23584},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													run: (*parser).callonDocumentFragment109,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23595},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23602},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23686},
+																												expr: &actionExpr{
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment115,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
-																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment111,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment114,
-																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																											&choiceExpr{
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment118,
+																														expr: &choiceExpr{
+																															pos: position{line: 2870, col: 13, offset: 90761},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2880, col: 8, offset: 90937},
+																														expr: &anyMatcher{
+																															line: 2880, col: 9, offset: 90938,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
-																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 833, col: 5, offset: 26720},
+																								run: (*parser).callonDocumentFragment125,
+																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 840, col: 5, offset: 26878},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment124,
+																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment129,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment133,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -4700,103 +4721,116 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 825, col: 5, offset: 26489},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 832, col: 5, offset: 26689},
 															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	run: (*parser).callonDocumentFragment142,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
-																		exprs: []interface{}{
-																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
-																				label: "delimiter",
-																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					run: (*parser).callonDocumentFragment145,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																&seqExpr{
+																	pos: position{line: 832, col: 5, offset: 26689},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 832, col: 5, offset: 26689},
+																			label: "end",
+																			expr: &actionExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				run: (*parser).callonDocumentFragment149,
+																				expr: &seqExpr{
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23584},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								run: (*parser).callonDocumentFragment152,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23595},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23602},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23602},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
 																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
-																									val:        "/",
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 742, col: 8, offset: 23686},
+																							expr: &actionExpr{
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonDocumentFragment158,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
-																									want:       "\"/\"",
+																									inverted:   false,
 																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
-																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonDocumentFragment151,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonDocumentFragment154,
-																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																						&choiceExpr{
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
+																								&actionExpr{
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment161,
+																									expr: &choiceExpr{
+																										pos: position{line: 2870, col: 13, offset: 90761},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																								&notExpr{
+																									pos: position{line: 2880, col: 8, offset: 90937},
+																									expr: &anyMatcher{
+																										line: 2880, col: 9, offset: 90938,
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
-																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
-																						},
-																					},
 																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 833, col: 5, offset: 26720},
+																			run: (*parser).callonDocumentFragment168,
+																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -4806,17 +4840,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
-											run: (*parser).callonDocumentFragment163,
+											pos: position{line: 848, col: 5, offset: 27031},
+											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26825},
+												pos: position{line: 848, col: 5, offset: 27031},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26825},
+														pos:   position{line: 848, col: 5, offset: 27031},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
-															run: (*parser).callonDocumentFragment166,
+															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
 																pos: position{line: 747, col: 5, offset: 23832},
 																exprs: []interface{}{
@@ -4825,7 +4859,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
-																			run: (*parser).callonDocumentFragment169,
+																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
 																				pos: position{line: 747, col: 16, offset: 23843},
 																				exprs: []interface{}{
@@ -4851,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment175,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment178,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -4905,34 +4939,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26864},
-														run: (*parser).callonDocumentFragment185,
+														pos: position{line: 849, col: 5, offset: 27070},
+														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26956},
+														pos:   position{line: 852, col: 5, offset: 27162},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27353},
+															pos: position{line: 867, col: 4, offset: 27559},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
-																run: (*parser).callonDocumentFragment188,
+																pos: position{line: 867, col: 5, offset: 27560},
+																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27354},
+																	pos: position{line: 867, col: 5, offset: 27560},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27354},
+																			pos: position{line: 867, col: 5, offset: 27560},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27196},
+																				pos: position{line: 860, col: 5, offset: 27402},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27196},
+																						pos: position{line: 860, col: 5, offset: 27402},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27196},
+																								pos:   position{line: 860, col: 5, offset: 27402},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
-																									run: (*parser).callonDocumentFragment194,
+																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 5, offset: 23832},
 																										exprs: []interface{}{
@@ -4941,7 +4975,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
-																													run: (*parser).callonDocumentFragment197,
+																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
 																														pos: position{line: 747, col: 16, offset: 23843},
 																														exprs: []interface{}{
@@ -4967,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment203,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment206,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -5021,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27227},
-																								run: (*parser).callonDocumentFragment213,
+																								pos: position{line: 861, col: 5, offset: 27433},
+																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27384},
+																			pos:   position{line: 868, col: 5, offset: 27590},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment217,
+																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment222,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment226,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -5116,22 +5150,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26990},
+														pos:   position{line: 853, col: 5, offset: 27196},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26994},
+															pos: position{line: 853, col: 9, offset: 27200},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27196},
+																pos: position{line: 860, col: 5, offset: 27402},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27196},
+																		pos: position{line: 860, col: 5, offset: 27402},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27196},
+																				pos:   position{line: 860, col: 5, offset: 27402},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
-																					run: (*parser).callonDocumentFragment238,
+																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
 																						pos: position{line: 747, col: 5, offset: 23832},
 																						exprs: []interface{}{
@@ -5140,7 +5174,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
-																									run: (*parser).callonDocumentFragment241,
+																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 16, offset: 23843},
 																										exprs: []interface{}{
@@ -5166,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment247,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment250,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -5220,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27227},
-																				run: (*parser).callonDocumentFragment257,
+																				pos: position{line: 861, col: 5, offset: 27433},
+																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -5239,17 +5273,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
-											run: (*parser).callonDocumentFragment260,
+											pos: position{line: 960, col: 5, offset: 29882},
+											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29676},
+												pos: position{line: 960, col: 5, offset: 29882},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29676},
+														pos:   position{line: 960, col: 5, offset: 29882},
 														label: "delimiter",
 														expr: &actionExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
-															run: (*parser).callonDocumentFragment263,
+															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
 																pos: position{line: 760, col: 26, offset: 24320},
 																exprs: []interface{}{
@@ -5264,7 +5298,7 @@ var g = &grammar{
 																		label: "language",
 																		expr: &actionExpr{
 																			pos: position{line: 764, col: 13, offset: 24456},
-																			run: (*parser).callonDocumentFragment267,
+																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 764, col: 14, offset: 24457},
 																				expr: &charClassMatcher{
@@ -5280,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment271,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment274,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -5334,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29722},
+														pos:   position{line: 961, col: 5, offset: 29928},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30195},
+															pos: position{line: 974, col: 5, offset: 30401},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
-																run: (*parser).callonDocumentFragment283,
+																pos: position{line: 974, col: 6, offset: 30402},
+																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30196},
+																	pos: position{line: 974, col: 6, offset: 30402},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30196},
+																			pos: position{line: 974, col: 6, offset: 30402},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30143},
+																				pos: position{line: 971, col: 34, offset: 30349},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30143},
+																						pos:        position{line: 971, col: 34, offset: 30349},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30149},
+																						pos: position{line: 971, col: 40, offset: 30355},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonDocumentFragment289,
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentFragment292,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -5411,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30231},
+																			pos:   position{line: 975, col: 5, offset: 30437},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment300,
+																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment305,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment309,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -5491,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29761},
+														pos: position{line: 962, col: 5, offset: 29967},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30143},
+															pos: position{line: 971, col: 34, offset: 30349},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30143},
+																	pos:        position{line: 971, col: 34, offset: 30349},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30149},
+																	pos: position{line: 971, col: 40, offset: 30355},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentFragment320,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentFragment323,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -5560,17 +5594,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
-											run: (*parser).callonDocumentFragment330,
+											pos: position{line: 876, col: 5, offset: 27743},
+											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27537},
+												pos: position{line: 876, col: 5, offset: 27743},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27537},
+														pos:   position{line: 876, col: 5, offset: 27743},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
-															run: (*parser).callonDocumentFragment333,
+															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
 																pos: position{line: 754, col: 5, offset: 24079},
 																exprs: []interface{}{
@@ -5579,7 +5613,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
-																			run: (*parser).callonDocumentFragment336,
+																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
 																				pos: position{line: 754, col: 16, offset: 24090},
 																				exprs: []interface{}{
@@ -5605,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment342,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment345,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -5659,34 +5693,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27575},
-														run: (*parser).callonDocumentFragment352,
+														pos: position{line: 877, col: 5, offset: 27781},
+														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27667},
+														pos:   position{line: 880, col: 5, offset: 27873},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28057},
+															pos: position{line: 895, col: 5, offset: 28263},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
-																run: (*parser).callonDocumentFragment355,
+																pos: position{line: 895, col: 6, offset: 28264},
+																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28058},
+																	pos: position{line: 895, col: 6, offset: 28264},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28058},
+																			pos: position{line: 895, col: 6, offset: 28264},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27901},
+																				pos: position{line: 888, col: 5, offset: 28107},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27901},
+																						pos: position{line: 888, col: 5, offset: 28107},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27901},
+																								pos:   position{line: 888, col: 5, offset: 28107},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
-																									run: (*parser).callonDocumentFragment361,
+																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 5, offset: 24079},
 																										exprs: []interface{}{
@@ -5695,7 +5729,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
-																													run: (*parser).callonDocumentFragment364,
+																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
 																														pos: position{line: 754, col: 16, offset: 24090},
 																														exprs: []interface{}{
@@ -5721,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment370,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment373,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -5775,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27931},
-																								run: (*parser).callonDocumentFragment380,
+																								pos: position{line: 889, col: 5, offset: 28137},
+																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28087},
+																			pos:   position{line: 896, col: 5, offset: 28293},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment384,
+																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment389,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment393,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -5870,22 +5904,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27700},
+														pos:   position{line: 881, col: 5, offset: 27906},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27704},
+															pos: position{line: 881, col: 9, offset: 27910},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27901},
+																pos: position{line: 888, col: 5, offset: 28107},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27901},
+																		pos: position{line: 888, col: 5, offset: 28107},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27901},
+																				pos:   position{line: 888, col: 5, offset: 28107},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
-																					run: (*parser).callonDocumentFragment405,
+																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
 																						pos: position{line: 754, col: 5, offset: 24079},
 																						exprs: []interface{}{
@@ -5894,7 +5928,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
-																									run: (*parser).callonDocumentFragment408,
+																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 16, offset: 24090},
 																										exprs: []interface{}{
@@ -5920,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment414,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment417,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -5974,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27931},
-																				run: (*parser).callonDocumentFragment424,
+																				pos: position{line: 889, col: 5, offset: 28137},
+																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -5993,17 +6027,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
-											run: (*parser).callonDocumentFragment427,
+											pos: position{line: 904, col: 5, offset: 28448},
+											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28242},
+												pos: position{line: 904, col: 5, offset: 28448},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28242},
+														pos:   position{line: 904, col: 5, offset: 28448},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
-															run: (*parser).callonDocumentFragment430,
+															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
 																pos: position{line: 769, col: 5, offset: 24616},
 																exprs: []interface{}{
@@ -6012,7 +6046,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
-																			run: (*parser).callonDocumentFragment433,
+																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
 																				pos: position{line: 769, col: 16, offset: 24627},
 																				exprs: []interface{}{
@@ -6038,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment439,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment442,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -6092,34 +6126,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28281},
-														run: (*parser).callonDocumentFragment449,
+														pos: position{line: 905, col: 5, offset: 28487},
+														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28373},
+														pos:   position{line: 908, col: 5, offset: 28579},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28771},
+															pos: position{line: 923, col: 5, offset: 28977},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
-																run: (*parser).callonDocumentFragment452,
+																pos: position{line: 923, col: 6, offset: 28978},
+																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28772},
+																	pos: position{line: 923, col: 6, offset: 28978},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28772},
+																			pos: position{line: 923, col: 6, offset: 28978},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28613},
+																				pos: position{line: 916, col: 5, offset: 28819},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28613},
+																						pos: position{line: 916, col: 5, offset: 28819},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28613},
+																								pos:   position{line: 916, col: 5, offset: 28819},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
-																									run: (*parser).callonDocumentFragment458,
+																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 5, offset: 24616},
 																										exprs: []interface{}{
@@ -6128,7 +6162,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
-																													run: (*parser).callonDocumentFragment461,
+																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
 																														pos: position{line: 769, col: 16, offset: 24627},
 																														exprs: []interface{}{
@@ -6154,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment467,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment470,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -6208,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28644},
-																								run: (*parser).callonDocumentFragment477,
+																								pos: position{line: 917, col: 5, offset: 28850},
+																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28802},
+																			pos:   position{line: 924, col: 5, offset: 29008},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment481,
+																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment486,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment490,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -6303,22 +6337,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28407},
+														pos:   position{line: 909, col: 5, offset: 28613},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28411},
+															pos: position{line: 909, col: 9, offset: 28617},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28613},
+																pos: position{line: 916, col: 5, offset: 28819},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28613},
+																		pos: position{line: 916, col: 5, offset: 28819},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28613},
+																				pos:   position{line: 916, col: 5, offset: 28819},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
-																					run: (*parser).callonDocumentFragment502,
+																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
 																						pos: position{line: 769, col: 5, offset: 24616},
 																						exprs: []interface{}{
@@ -6327,7 +6361,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
-																									run: (*parser).callonDocumentFragment505,
+																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 16, offset: 24627},
 																										exprs: []interface{}{
@@ -6353,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment511,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment514,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -6407,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28644},
-																				run: (*parser).callonDocumentFragment521,
+																				pos: position{line: 917, col: 5, offset: 28850},
+																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -6426,17 +6460,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
-											run: (*parser).callonDocumentFragment524,
+											pos: position{line: 932, col: 5, offset: 29163},
+											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28957},
+												pos: position{line: 932, col: 5, offset: 29163},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28957},
+														pos:   position{line: 932, col: 5, offset: 29163},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
-															run: (*parser).callonDocumentFragment527,
+															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
 																pos: position{line: 783, col: 5, offset: 25092},
 																exprs: []interface{}{
@@ -6445,7 +6479,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
-																			run: (*parser).callonDocumentFragment530,
+																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
 																				pos: position{line: 783, col: 16, offset: 25103},
 																				exprs: []interface{}{
@@ -6471,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment536,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment539,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -6525,34 +6559,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 28996},
-														run: (*parser).callonDocumentFragment546,
+														pos: position{line: 933, col: 5, offset: 29202},
+														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29088},
+														pos:   position{line: 936, col: 5, offset: 29294},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29486},
+															pos: position{line: 951, col: 5, offset: 29692},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
-																run: (*parser).callonDocumentFragment549,
+																pos: position{line: 951, col: 6, offset: 29693},
+																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29487},
+																	pos: position{line: 951, col: 6, offset: 29693},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29487},
+																			pos: position{line: 951, col: 6, offset: 29693},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29328},
+																				pos: position{line: 944, col: 5, offset: 29534},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29328},
+																						pos: position{line: 944, col: 5, offset: 29534},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29328},
+																								pos:   position{line: 944, col: 5, offset: 29534},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
-																									run: (*parser).callonDocumentFragment555,
+																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 5, offset: 25092},
 																										exprs: []interface{}{
@@ -6561,7 +6595,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
-																													run: (*parser).callonDocumentFragment558,
+																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
 																														pos: position{line: 783, col: 16, offset: 25103},
 																														exprs: []interface{}{
@@ -6587,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment564,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment567,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -6641,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29359},
-																								run: (*parser).callonDocumentFragment574,
+																								pos: position{line: 945, col: 5, offset: 29565},
+																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29517},
+																			pos:   position{line: 952, col: 5, offset: 29723},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment578,
+																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment583,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment587,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -6736,22 +6770,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29122},
+														pos:   position{line: 937, col: 5, offset: 29328},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29126},
+															pos: position{line: 937, col: 9, offset: 29332},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29328},
+																pos: position{line: 944, col: 5, offset: 29534},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29328},
+																		pos: position{line: 944, col: 5, offset: 29534},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29328},
+																				pos:   position{line: 944, col: 5, offset: 29534},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
-																					run: (*parser).callonDocumentFragment599,
+																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
 																						pos: position{line: 783, col: 5, offset: 25092},
 																						exprs: []interface{}{
@@ -6760,7 +6794,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
-																									run: (*parser).callonDocumentFragment602,
+																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 16, offset: 25103},
 																										exprs: []interface{}{
@@ -6786,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment608,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment611,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -6840,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29359},
-																				run: (*parser).callonDocumentFragment618,
+																				pos: position{line: 945, col: 5, offset: 29565},
+																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -6859,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
-											run: (*parser).callonDocumentFragment621,
+											pos: position{line: 983, col: 5, offset: 30606},
+											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30400},
+												pos: position{line: 983, col: 5, offset: 30606},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30400},
+														pos:   position{line: 983, col: 5, offset: 30606},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
-															run: (*parser).callonDocumentFragment624,
+															pos: position{line: 990, col: 5, offset: 30865},
+															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30659},
+																pos: position{line: 990, col: 5, offset: 30865},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 990, col: 5, offset: 30865},
 																		expr: &actionExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
-																			run: (*parser).callonDocumentFragment627,
+																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonDocumentFragment632,
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentFragment635,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -6944,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30674},
+																		pos:        position{line: 991, col: 5, offset: 30880},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30684},
+																		pos:   position{line: 992, col: 5, offset: 30890},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonDocumentFragment644,
+																			pos: position{line: 2811, col: 14, offset: 89182},
+																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2811, col: 14, offset: 89182},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2811, col: 14, offset: 89182},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment648,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -7010,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30437},
+														pos:   position{line: 984, col: 5, offset: 30643},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30448},
+															pos: position{line: 984, col: 16, offset: 30654},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30449},
+																pos: position{line: 984, col: 17, offset: 30655},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
-																		run: (*parser).callonDocumentFragment658,
+																		pos: position{line: 990, col: 5, offset: 30865},
+																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30659},
+																			pos: position{line: 990, col: 5, offset: 30865},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30659},
+																					pos: position{line: 990, col: 5, offset: 30865},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
-																						run: (*parser).callonDocumentFragment661,
+																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2869, col: 11, offset: 90573},
+																									pos: position{line: 2878, col: 11, offset: 90923},
 																									expr: &anyMatcher{
-																										line: 2869, col: 13, offset: 90575,
+																										line: 2878, col: 13, offset: 90925,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment666,
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2861, col: 10, offset: 90589},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment669,
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
@@ -7094,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30674},
+																					pos:        position{line: 991, col: 5, offset: 30880},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30684},
+																					pos:   position{line: 992, col: 5, offset: 30890},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
-																						run: (*parser).callonDocumentFragment678,
+																						pos: position{line: 2811, col: 14, offset: 89182},
+																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2811, col: 14, offset: 89182},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2811, col: 14, offset: 89182},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment682,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -7159,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
-																		run: (*parser).callonDocumentFragment689,
+																		pos: position{line: 1793, col: 5, offset: 57955},
+																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57605},
+																			pos: position{line: 1793, col: 5, offset: 57955},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57605},
+																					pos:   position{line: 1793, col: 5, offset: 57955},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
-																						run: (*parser).callonDocumentFragment692,
+																						pos: position{line: 2811, col: 14, offset: 89182},
+																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2811, col: 14, offset: 89182},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2811, col: 14, offset: 89182},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57629},
-																					run: (*parser).callonDocumentFragment695,
+																					pos: position{line: 1794, col: 5, offset: 57979},
+																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment697,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -7235,17 +7269,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
-											run: (*parser).callonDocumentFragment704,
+											pos: position{line: 1005, col: 5, offset: 31155},
+											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30949},
+												pos: position{line: 1005, col: 5, offset: 31155},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30949},
+														pos:   position{line: 1005, col: 5, offset: 31155},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
-															run: (*parser).callonDocumentFragment707,
+															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
 																pos: position{line: 776, col: 5, offset: 24861},
 																exprs: []interface{}{
@@ -7254,7 +7288,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 776, col: 16, offset: 24872},
-																			run: (*parser).callonDocumentFragment710,
+																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
 																				pos:        position{line: 776, col: 16, offset: 24872},
 																				val:        "--",
@@ -7266,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment713,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment716,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -7320,24 +7354,24 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30985},
+														pos:   position{line: 1006, col: 5, offset: 31191},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31253},
+															pos: position{line: 1016, col: 5, offset: 31459},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
-																run: (*parser).callonDocumentFragment725,
+																pos: position{line: 1016, col: 6, offset: 31460},
+																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31254},
+																	pos: position{line: 1016, col: 6, offset: 31460},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31254},
+																			pos: position{line: 1016, col: 6, offset: 31460},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31202},
+																				pos: position{line: 1013, col: 26, offset: 31408},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
-																						run: (*parser).callonDocumentFragment729,
+																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
 																							pos: position{line: 776, col: 5, offset: 24861},
 																							exprs: []interface{}{
@@ -7346,7 +7380,7 @@ var g = &grammar{
 																									label: "delimiter",
 																									expr: &actionExpr{
 																										pos: position{line: 776, col: 16, offset: 24872},
-																										run: (*parser).callonDocumentFragment732,
+																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
 																											pos:        position{line: 776, col: 16, offset: 24872},
 																											val:        "--",
@@ -7358,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment735,
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2861, col: 10, offset: 90589},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment738,
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
@@ -7411,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31281},
+																			pos:   position{line: 1017, col: 5, offset: 31487},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment748,
+																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment753,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment757,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -7500,16 +7534,16 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31016},
+														pos:   position{line: 1007, col: 5, offset: 31222},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31020},
+															pos: position{line: 1007, col: 9, offset: 31226},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31202},
+																pos: position{line: 1013, col: 26, offset: 31408},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
-																		run: (*parser).callonDocumentFragment767,
+																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
 																			pos: position{line: 776, col: 5, offset: 24861},
 																			exprs: []interface{}{
@@ -7518,7 +7552,7 @@ var g = &grammar{
 																					label: "delimiter",
 																					expr: &actionExpr{
 																						pos: position{line: 776, col: 16, offset: 24872},
-																						run: (*parser).callonDocumentFragment770,
+																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
 																							pos:        position{line: 776, col: 16, offset: 24872},
 																							val:        "--",
@@ -7530,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment773,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment776,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -7583,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -7596,17 +7630,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
-											run: (*parser).callonDocumentFragment785,
+											pos: position{line: 1025, col: 5, offset: 31650},
+											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31444},
+												pos: position{line: 1025, col: 5, offset: 31650},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31444},
+														pos:   position{line: 1025, col: 5, offset: 31650},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
-															run: (*parser).callonDocumentFragment788,
+															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
 																pos: position{line: 790, col: 5, offset: 25344},
 																exprs: []interface{}{
@@ -7615,7 +7649,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
-																			run: (*parser).callonDocumentFragment791,
+																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
 																				pos: position{line: 790, col: 16, offset: 25355},
 																				exprs: []interface{}{
@@ -7641,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment797,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment800,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -7695,34 +7729,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31487},
-														run: (*parser).callonDocumentFragment807,
+														pos: position{line: 1026, col: 5, offset: 31693},
+														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31579},
+														pos:   position{line: 1029, col: 5, offset: 31785},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32009},
+															pos: position{line: 1044, col: 5, offset: 32215},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
-																run: (*parser).callonDocumentFragment810,
+																pos: position{line: 1044, col: 6, offset: 32216},
+																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32010},
+																	pos: position{line: 1044, col: 6, offset: 32216},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32010},
+																			pos: position{line: 1044, col: 6, offset: 32216},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31843},
+																				pos: position{line: 1037, col: 5, offset: 32049},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31843},
+																						pos: position{line: 1037, col: 5, offset: 32049},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31843},
+																								pos:   position{line: 1037, col: 5, offset: 32049},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
-																									run: (*parser).callonDocumentFragment816,
+																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 5, offset: 25344},
 																										exprs: []interface{}{
@@ -7731,7 +7765,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
-																													run: (*parser).callonDocumentFragment819,
+																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
 																														pos: position{line: 790, col: 16, offset: 25355},
 																														exprs: []interface{}{
@@ -7757,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment825,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment828,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -7811,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31878},
-																								run: (*parser).callonDocumentFragment835,
+																								pos: position{line: 1038, col: 5, offset: 32084},
+																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32044},
+																			pos:   position{line: 1045, col: 5, offset: 32250},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment839,
+																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment844,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7859,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment848,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7889,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -7906,22 +7940,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31617},
+														pos:   position{line: 1030, col: 5, offset: 31823},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31621},
+															pos: position{line: 1030, col: 9, offset: 31827},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31843},
+																pos: position{line: 1037, col: 5, offset: 32049},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31843},
+																		pos: position{line: 1037, col: 5, offset: 32049},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31843},
+																				pos:   position{line: 1037, col: 5, offset: 32049},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
-																					run: (*parser).callonDocumentFragment860,
+																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
 																						pos: position{line: 790, col: 5, offset: 25344},
 																						exprs: []interface{}{
@@ -7930,7 +7964,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
-																									run: (*parser).callonDocumentFragment863,
+																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 16, offset: 25355},
 																										exprs: []interface{}{
@@ -7956,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment869,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7968,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment872,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7998,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -8010,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31878},
-																				run: (*parser).callonDocumentFragment879,
+																				pos: position{line: 1038, col: 5, offset: 32084},
+																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -8029,17 +8063,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
-											run: (*parser).callonDocumentFragment882,
+											pos: position{line: 1053, col: 5, offset: 32401},
+											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32195},
+												pos: position{line: 1053, col: 5, offset: 32401},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32195},
+														pos:   position{line: 1053, col: 5, offset: 32401},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
-															run: (*parser).callonDocumentFragment885,
+															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
 																pos: position{line: 797, col: 5, offset: 25594},
 																exprs: []interface{}{
@@ -8048,7 +8082,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
-																			run: (*parser).callonDocumentFragment888,
+																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
 																				pos: position{line: 797, col: 16, offset: 25605},
 																				exprs: []interface{}{
@@ -8074,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment894,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8086,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment897,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8116,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -8128,34 +8162,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32232},
-														run: (*parser).callonDocumentFragment904,
+														pos: position{line: 1054, col: 5, offset: 32438},
+														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32324},
+														pos:   position{line: 1057, col: 5, offset: 32530},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32705},
+															pos: position{line: 1072, col: 4, offset: 32911},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
-																run: (*parser).callonDocumentFragment907,
+																pos: position{line: 1072, col: 5, offset: 32912},
+																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32706},
+																	pos: position{line: 1072, col: 5, offset: 32912},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32706},
+																			pos: position{line: 1072, col: 5, offset: 32912},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32552},
+																				pos: position{line: 1065, col: 5, offset: 32758},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32552},
+																						pos: position{line: 1065, col: 5, offset: 32758},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32552},
+																								pos:   position{line: 1065, col: 5, offset: 32758},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
-																									run: (*parser).callonDocumentFragment913,
+																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 5, offset: 25594},
 																										exprs: []interface{}{
@@ -8164,7 +8198,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
-																													run: (*parser).callonDocumentFragment916,
+																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
 																														pos: position{line: 797, col: 16, offset: 25605},
 																														exprs: []interface{}{
@@ -8190,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment922,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8202,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment925,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8232,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -8244,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32581},
-																								run: (*parser).callonDocumentFragment932,
+																								pos: position{line: 1066, col: 5, offset: 32787},
+																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32734},
+																			pos:   position{line: 1073, col: 5, offset: 32940},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment936,
+																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment941,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment945,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -8339,22 +8373,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32356},
+														pos:   position{line: 1058, col: 5, offset: 32562},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32360},
+															pos: position{line: 1058, col: 9, offset: 32566},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32552},
+																pos: position{line: 1065, col: 5, offset: 32758},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32552},
+																		pos: position{line: 1065, col: 5, offset: 32758},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32552},
+																				pos:   position{line: 1065, col: 5, offset: 32758},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
-																					run: (*parser).callonDocumentFragment957,
+																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
 																						pos: position{line: 797, col: 5, offset: 25594},
 																						exprs: []interface{}{
@@ -8363,7 +8397,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
-																									run: (*parser).callonDocumentFragment960,
+																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 16, offset: 25605},
 																										exprs: []interface{}{
@@ -8389,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment966,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment969,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -8443,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
-																				run: (*parser).callonDocumentFragment976,
+																				pos: position{line: 1066, col: 5, offset: 32787},
+																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -8462,17 +8496,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
-											run: (*parser).callonDocumentFragment979,
+											pos: position{line: 1081, col: 5, offset: 33095},
+											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32889},
+												pos: position{line: 1081, col: 5, offset: 33095},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32889},
+														pos:   position{line: 1081, col: 5, offset: 33095},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
-															run: (*parser).callonDocumentFragment982,
+															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
 																pos: position{line: 804, col: 5, offset: 25840},
 																exprs: []interface{}{
@@ -8481,7 +8515,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
-																			run: (*parser).callonDocumentFragment985,
+																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
 																				pos: position{line: 804, col: 16, offset: 25851},
 																				exprs: []interface{}{
@@ -8507,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment991,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment994,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -8561,34 +8595,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32928},
-														run: (*parser).callonDocumentFragment1001,
+														pos: position{line: 1082, col: 5, offset: 33134},
+														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33020},
+														pos:   position{line: 1085, col: 5, offset: 33226},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33417},
+															pos: position{line: 1100, col: 4, offset: 33623},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
-																run: (*parser).callonDocumentFragment1004,
+																pos: position{line: 1100, col: 5, offset: 33624},
+																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33418},
+																	pos: position{line: 1100, col: 5, offset: 33624},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33418},
+																			pos: position{line: 1100, col: 5, offset: 33624},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33260},
+																				pos: position{line: 1093, col: 5, offset: 33466},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33260},
+																						pos: position{line: 1093, col: 5, offset: 33466},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33260},
+																								pos:   position{line: 1093, col: 5, offset: 33466},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
-																									run: (*parser).callonDocumentFragment1010,
+																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 5, offset: 25840},
 																										exprs: []interface{}{
@@ -8597,7 +8631,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
-																													run: (*parser).callonDocumentFragment1013,
+																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
 																														pos: position{line: 804, col: 16, offset: 25851},
 																														exprs: []interface{}{
@@ -8623,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1019,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1022,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -8677,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33291},
-																								run: (*parser).callonDocumentFragment1029,
+																								pos: position{line: 1094, col: 5, offset: 33497},
+																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33448},
+																			pos:   position{line: 1101, col: 5, offset: 33654},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment1033,
+																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment1038,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment1042,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -8772,22 +8806,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33054},
+														pos:   position{line: 1086, col: 5, offset: 33260},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33058},
+															pos: position{line: 1086, col: 9, offset: 33264},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33260},
+																pos: position{line: 1093, col: 5, offset: 33466},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33260},
+																		pos: position{line: 1093, col: 5, offset: 33466},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33260},
+																				pos:   position{line: 1093, col: 5, offset: 33466},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
-																					run: (*parser).callonDocumentFragment1054,
+																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
 																						pos: position{line: 804, col: 5, offset: 25840},
 																						exprs: []interface{}{
@@ -8796,7 +8830,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
-																									run: (*parser).callonDocumentFragment1057,
+																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 16, offset: 25851},
 																										exprs: []interface{}{
@@ -8822,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment1063,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment1066,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -8876,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33291},
-																				run: (*parser).callonDocumentFragment1073,
+																				pos: position{line: 1094, col: 5, offset: 33497},
+																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -8895,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
-											run: (*parser).callonDocumentFragment1076,
+											pos: position{line: 2706, col: 18, offset: 86179},
+											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2698, col: 9, offset: 85839},
+												pos: position{line: 2707, col: 9, offset: 86189},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2698, col: 9, offset: 85839},
+														pos: position{line: 2707, col: 9, offset: 86189},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85839},
+																pos:        position{line: 2707, col: 9, offset: 86189},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2698, col: 15, offset: 85845},
+																pos: position{line: 2707, col: 15, offset: 86195},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentFragment1081,
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8924,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentFragment1084,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8954,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -8964,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2699, col: 11, offset: 85878},
+														pos: position{line: 2708, col: 11, offset: 86228},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2699, col: 12, offset: 85879},
+																pos: position{line: 2708, col: 12, offset: 86229},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 12, offset: 85879},
+																		pos:        position{line: 2708, col: 12, offset: 86229},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 20, offset: 85887},
+																		pos:        position{line: 2708, col: 20, offset: 86237},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 30, offset: 85897},
+																		pos:        position{line: 2708, col: 30, offset: 86247},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 38, offset: 85905},
+																		pos:        position{line: 2708, col: 38, offset: 86255},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 48, offset: 85915},
+																		pos:        position{line: 2708, col: 48, offset: 86265},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2699, col: 56, offset: 85923},
+																		pos:        position{line: 2708, col: 56, offset: 86273},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9008,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2699, col: 65, offset: 85932},
+																pos: position{line: 2708, col: 65, offset: 86282},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentFragment1100,
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9022,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentFragment1103,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9052,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2699, col: 76, offset: 85943},
+																pos: position{line: 2708, col: 76, offset: 86293},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentFragment1112,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9092,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -9110,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
-											run: (*parser).callonDocumentFragment1120,
+											pos: position{line: 2597, col: 5, offset: 83115},
+											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82765},
+												pos: position{line: 2597, col: 5, offset: 83115},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82922},
+														pos:        position{line: 2603, col: 19, offset: 83272},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82929},
+														pos: position{line: 2603, col: 26, offset: 83279},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1124,
+															pos: position{line: 2861, col: 10, offset: 90589},
+															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9136,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1127,
+																pos: position{line: 2870, col: 12, offset: 90760},
+																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9166,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82789},
+														pos:   position{line: 2598, col: 5, offset: 83139},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82795},
+															pos: position{line: 2598, col: 11, offset: 83145},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82796},
+																pos: position{line: 2598, col: 12, offset: 83146},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonDocumentFragment1137,
+																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2878, col: 11, offset: 90923},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2878, col: 13, offset: 90925,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment1142,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9208,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment1145,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9238,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -9249,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
-																		run: (*parser).callonDocumentFragment1152,
+																		pos: position{line: 2610, col: 5, offset: 83391},
+																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83041},
+																			pos: position{line: 2610, col: 5, offset: 83391},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83041},
+																					pos: position{line: 2610, col: 5, offset: 83391},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83002},
+																						pos: position{line: 2607, col: 22, offset: 83352},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82922},
+																								pos: position{line: 2603, col: 19, offset: 83272},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82922},
+																										pos:        position{line: 2603, col: 19, offset: 83272},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82929},
+																										pos: position{line: 2603, col: 26, offset: 83279},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentFragment1159,
+																											pos: position{line: 2861, col: 10, offset: 90589},
+																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2861, col: 10, offset: 90589},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9283,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2883, col: 8, offset: 90987},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonDocumentFragment1162,
+																												pos: position{line: 2870, col: 12, offset: 90760},
+																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2870, col: 13, offset: 90761},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2870, col: 13, offset: 90761},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2870, col: 20, offset: 90768},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2870, col: 29, offset: 90777},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9313,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2880, col: 8, offset: 90937},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2880, col: 9, offset: 90938,
 																												},
 																											},
 																										},
@@ -9323,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83064},
+																					pos:   position{line: 2611, col: 5, offset: 83414},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83082},
+																						pos: position{line: 2612, col: 9, offset: 83432},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83083},
-																								run: (*parser).callonDocumentFragment1173,
+																								pos: position{line: 2612, col: 10, offset: 83433},
+																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83083},
+																									pos:   position{line: 2612, col: 10, offset: 83433},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83090},
+																										pos: position{line: 2612, col: 17, offset: 83440},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
-																												run: (*parser).callonDocumentFragment1176,
+																												pos: position{line: 2620, col: 21, offset: 83636},
+																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83286},
+																													pos: position{line: 2620, col: 21, offset: 83636},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83286},
+																															pos:   position{line: 2620, col: 21, offset: 83636},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83292},
+																																pos: position{line: 2620, col: 27, offset: 83642},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
-																																	run: (*parser).callonDocumentFragment1180,
+																																	pos: position{line: 2625, col: 5, offset: 83717},
+																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83367},
+																																		pos: position{line: 2625, col: 5, offset: 83717},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83367},
+																																				pos:        position{line: 2625, col: 5, offset: 83717},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83371},
+																																				pos: position{line: 2625, col: 9, offset: 83721},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2852, col: 10, offset: 90239},
-																																					run: (*parser).callonDocumentFragment1184,
+																																					pos: position{line: 2861, col: 10, offset: 90589},
+																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2852, col: 10, offset: 90239},
+																																						pos:        position{line: 2861, col: 10, offset: 90589},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9384,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83378},
+																																				pos:   position{line: 2625, col: 16, offset: 83728},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83578},
-																																					run: (*parser).callonDocumentFragment1187,
+																																					pos: position{line: 2631, col: 5, offset: 83928},
+																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83578},
+																																						pos:   position{line: 2631, col: 5, offset: 83928},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
-																																							run: (*parser).callonDocumentFragment1189,
+																																							pos: position{line: 2631, col: 14, offset: 83937},
+																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83587},
+																																								pos: position{line: 2631, col: 14, offset: 83937},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83587},
+																																									pos:        position{line: 2631, col: 14, offset: 83937},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9415,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2874, col: 8, offset: 90637},
+																															pos: position{line: 2883, col: 8, offset: 90987},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2861, col: 12, offset: 90410},
-																																	run: (*parser).callonDocumentFragment1193,
+																																	pos: position{line: 2870, col: 12, offset: 90760},
+																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2861, col: 13, offset: 90411},
+																																		pos: position{line: 2870, col: 13, offset: 90761},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 13, offset: 90411},
+																																				pos:        position{line: 2870, col: 13, offset: 90761},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 20, offset: 90418},
+																																				pos:        position{line: 2870, col: 20, offset: 90768},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 29, offset: 90427},
+																																				pos:        position{line: 2870, col: 29, offset: 90777},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9445,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2871, col: 8, offset: 90587},
+																																	pos: position{line: 2880, col: 8, offset: 90937},
 																																	expr: &anyMatcher{
-																																		line: 2871, col: 9, offset: 90588,
+																																		line: 2880, col: 9, offset: 90938,
 																																	},
 																																},
 																															},
@@ -9456,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83723},
-																												run: (*parser).callonDocumentFragment1200,
+																												pos: position{line: 2637, col: 24, offset: 84073},
+																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83723},
+																													pos:   position{line: 2637, col: 24, offset: 84073},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83729},
+																														pos: position{line: 2637, col: 30, offset: 84079},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
-																															run: (*parser).callonDocumentFragment1203,
+																															pos: position{line: 2642, col: 5, offset: 84155},
+																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83805},
+																																pos: position{line: 2642, col: 5, offset: 84155},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83805},
+																																		pos: position{line: 2642, col: 5, offset: 84155},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83002},
+																																			pos: position{line: 2607, col: 22, offset: 83352},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82922},
+																																					pos: position{line: 2603, col: 19, offset: 83272},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82922},
+																																							pos:        position{line: 2603, col: 19, offset: 83272},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82929},
+																																							pos: position{line: 2603, col: 26, offset: 83279},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2852, col: 10, offset: 90239},
-																																								run: (*parser).callonDocumentFragment1210,
+																																								pos: position{line: 2861, col: 10, offset: 90589},
+																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2852, col: 10, offset: 90239},
+																																									pos:        position{line: 2861, col: 10, offset: 90589},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9498,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2883, col: 8, offset: 90987},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonDocumentFragment1213,
+																																									pos: position{line: 2870, col: 12, offset: 90760},
+																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2870, col: 13, offset: 90761},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2870, col: 13, offset: 90761},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2870, col: 20, offset: 90768},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2870, col: 29, offset: 90777},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9528,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2880, col: 8, offset: 90937},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2880, col: 9, offset: 90938,
 																																									},
 																																								},
 																																							},
@@ -9538,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2871, col: 8, offset: 90587},
+																																					pos: position{line: 2880, col: 8, offset: 90937},
 																																					expr: &anyMatcher{
-																																						line: 2871, col: 9, offset: 90588,
+																																						line: 2880, col: 9, offset: 90938,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83828},
+																																		pos: position{line: 2643, col: 5, offset: 84178},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
-																																			run: (*parser).callonDocumentFragment1223,
+																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2869, col: 11, offset: 90573},
+																																						pos: position{line: 2878, col: 11, offset: 90923},
 																																						expr: &anyMatcher{
-																																							line: 2869, col: 13, offset: 90575,
+																																							line: 2878, col: 13, offset: 90925,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonDocumentFragment1228,
+																																							pos: position{line: 2861, col: 10, offset: 90589},
+																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2861, col: 10, offset: 90589},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9575,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2883, col: 8, offset: 90987},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonDocumentFragment1231,
+																																								pos: position{line: 2870, col: 12, offset: 90760},
+																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2870, col: 13, offset: 90761},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2870, col: 13, offset: 90761},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2870, col: 20, offset: 90768},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2870, col: 29, offset: 90777},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9605,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2880, col: 8, offset: 90937},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2880, col: 9, offset: 90938,
 																																								},
 																																							},
 																																						},
@@ -9617,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83843},
+																																		pos:   position{line: 2644, col: 5, offset: 84193},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83850},
+																																			pos: position{line: 2644, col: 12, offset: 84200},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
-																																				run: (*parser).callonDocumentFragment1240,
+																																				pos: position{line: 2661, col: 20, offset: 84664},
+																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84314},
+																																					pos: position{line: 2661, col: 20, offset: 84664},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84314},
+																																						pos:        position{line: 2661, col: 20, offset: 84664},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9638,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83869},
+																																		pos:        position{line: 2644, col: 31, offset: 84219},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83873},
+																																		pos: position{line: 2644, col: 35, offset: 84223},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2852, col: 10, offset: 90239},
-																																			run: (*parser).callonDocumentFragment1245,
+																																			pos: position{line: 2861, col: 10, offset: 90589},
+																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2852, col: 10, offset: 90239},
+																																				pos:        position{line: 2861, col: 10, offset: 90589},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9658,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83880},
+																																		pos: position{line: 2644, col: 42, offset: 84230},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 12, offset: 90410},
-																																			run: (*parser).callonDocumentFragment1248,
+																																			pos: position{line: 2870, col: 12, offset: 90760},
+																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2861, col: 13, offset: 90411},
+																																				pos: position{line: 2870, col: 13, offset: 90761},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 13, offset: 90411},
+																																						pos:        position{line: 2870, col: 13, offset: 90761},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 20, offset: 90418},
+																																						pos:        position{line: 2870, col: 20, offset: 90768},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 29, offset: 90427},
+																																						pos:        position{line: 2870, col: 29, offset: 90777},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9688,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83889},
+																																		pos:   position{line: 2644, col: 51, offset: 84239},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84048},
+																																			pos: position{line: 2650, col: 5, offset: 84398},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
-																																				run: (*parser).callonDocumentFragment1255,
+																																				pos: position{line: 2651, col: 9, offset: 84408},
+																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84058},
+																																					pos: position{line: 2651, col: 9, offset: 84408},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84058},
+																																							pos: position{line: 2651, col: 9, offset: 84408},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83002},
+																																								pos: position{line: 2607, col: 22, offset: 83352},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82922},
+																																										pos: position{line: 2603, col: 19, offset: 83272},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82922},
+																																												pos:        position{line: 2603, col: 19, offset: 83272},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82929},
+																																												pos: position{line: 2603, col: 26, offset: 83279},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2852, col: 10, offset: 90239},
-																																													run: (*parser).callonDocumentFragment1262,
+																																													pos: position{line: 2861, col: 10, offset: 90589},
+																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2852, col: 10, offset: 90239},
+																																														pos:        position{line: 2861, col: 10, offset: 90589},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9727,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2874, col: 8, offset: 90637},
+																																												pos: position{line: 2883, col: 8, offset: 90987},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2861, col: 12, offset: 90410},
-																																														run: (*parser).callonDocumentFragment1265,
+																																														pos: position{line: 2870, col: 12, offset: 90760},
+																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2861, col: 13, offset: 90411},
+																																															pos: position{line: 2870, col: 13, offset: 90761},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9757,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2871, col: 8, offset: 90587},
+																																														pos: position{line: 2880, col: 8, offset: 90937},
 																																														expr: &anyMatcher{
-																																															line: 2871, col: 9, offset: 90588,
+																																															line: 2880, col: 9, offset: 90938,
 																																														},
 																																													},
 																																												},
@@ -9767,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2880, col: 8, offset: 90937},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2880, col: 9, offset: 90938,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84085},
+																																							pos: position{line: 2652, col: 9, offset: 84435},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1275,
+																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2869, col: 11, offset: 90573},
+																																											pos: position{line: 2878, col: 11, offset: 90923},
 																																											expr: &anyMatcher{
-																																												line: 2869, col: 13, offset: 90575,
+																																												line: 2878, col: 13, offset: 90925,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonDocumentFragment1280,
+																																												pos: position{line: 2861, col: 10, offset: 90589},
+																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2861, col: 10, offset: 90589},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9804,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2883, col: 8, offset: 90987},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonDocumentFragment1283,
+																																													pos: position{line: 2870, col: 12, offset: 90760},
+																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2870, col: 13, offset: 90761},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9834,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2880, col: 8, offset: 90937},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2880, col: 9, offset: 90938,
 																																													},
 																																												},
 																																											},
@@ -9846,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84104},
+																																							pos: position{line: 2653, col: 9, offset: 84454},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84106},
+																																								pos: position{line: 2653, col: 11, offset: 84456},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84106},
+																																										pos:   position{line: 2653, col: 11, offset: 84456},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84113},
+																																											pos: position{line: 2653, col: 18, offset: 84463},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
-																																												run: (*parser).callonDocumentFragment1294,
+																																												pos: position{line: 2661, col: 20, offset: 84664},
+																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84314},
+																																													pos: position{line: 2661, col: 20, offset: 84664},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84314},
+																																														pos:        position{line: 2661, col: 20, offset: 84664},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9872,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84132},
+																																										pos:        position{line: 2653, col: 37, offset: 84482},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9881,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84145},
+																																							pos:   position{line: 2654, col: 9, offset: 84495},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
-																																								run: (*parser).callonDocumentFragment1299,
+																																								pos: position{line: 2654, col: 18, offset: 84504},
+																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84154},
+																																									pos: position{line: 2654, col: 18, offset: 84504},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84154},
+																																										pos:        position{line: 2654, col: 18, offset: 84504},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9899,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84216},
+																																							pos: position{line: 2656, col: 12, offset: 84566},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 8, offset: 90637},
+																																								pos: position{line: 2883, col: 8, offset: 90987},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2861, col: 12, offset: 90410},
-																																										run: (*parser).callonDocumentFragment1304,
+																																										pos: position{line: 2870, col: 12, offset: 90760},
+																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2861, col: 13, offset: 90411},
+																																											pos: position{line: 2870, col: 13, offset: 90761},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 13, offset: 90411},
+																																													pos:        position{line: 2870, col: 13, offset: 90761},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 20, offset: 90418},
+																																													pos:        position{line: 2870, col: 20, offset: 90768},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 29, offset: 90427},
+																																													pos:        position{line: 2870, col: 29, offset: 90777},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9931,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2880, col: 8, offset: 90937},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2880, col: 9, offset: 90938,
 																																										},
 																																									},
 																																								},
@@ -9956,23 +9990,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1311,
+																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2878, col: 11, offset: 90923},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2878, col: 13, offset: 90925,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonDocumentFragment1316,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9981,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentFragment1319,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10011,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -10032,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83002},
+														pos: position{line: 2607, col: 22, offset: 83352},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82922},
+																pos: position{line: 2603, col: 19, offset: 83272},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82922},
+																		pos:        position{line: 2603, col: 19, offset: 83272},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82929},
+																		pos: position{line: 2603, col: 26, offset: 83279},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1330,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10058,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1333,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10088,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -10098,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -10109,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
-											run: (*parser).callonDocumentFragment1342,
+											pos: position{line: 2471, col: 22, offset: 79574},
+											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2471, col: 22, offset: 79574},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2476, col: 31, offset: 79795},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2476, col: 36, offset: 79800},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2476, col: 37, offset: 79801},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2471, col: 49, offset: 79601},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentFragment1348,
+															pos: position{line: 2807, col: 13, offset: 89115},
+															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2807, col: 13, offset: 89115},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2807, col: 13, offset: 89115},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10148,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1352,
+																pos: position{line: 2870, col: 12, offset: 90760},
+																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10178,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -10189,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37866},
-											run: (*parser).callonDocumentFragment1359,
+											pos: position{line: 1230, col: 5, offset: 38072},
+											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37866},
+												pos: position{line: 1230, col: 5, offset: 38072},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37866},
-														run: (*parser).callonDocumentFragment1361,
+														pos: position{line: 1230, col: 5, offset: 38072},
+														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37924},
+														pos:   position{line: 1233, col: 5, offset: 38130},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38019},
-															run: (*parser).callonDocumentFragment1363,
+															pos: position{line: 1238, col: 20, offset: 38225},
+															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38019},
+																pos: position{line: 1238, col: 20, offset: 38225},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1242, col: 30, offset: 38397},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1242, col: 36, offset: 38403},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1367,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10228,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1370,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10258,46 +10292,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38044},
+																		pos:   position{line: 1238, col: 45, offset: 38250},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38052},
+																			pos: position{line: 1238, col: 53, offset: 38258},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38235},
-																				run: (*parser).callonDocumentFragment1379,
+																				pos: position{line: 1244, col: 27, offset: 38441},
+																				run: (*parser).callonDocumentFragment1387,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38235},
+																					pos: position{line: 1244, col: 27, offset: 38441},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38236},
+																						pos: position{line: 1244, col: 28, offset: 38442},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38237},
+																							pos: position{line: 1244, col: 29, offset: 38443},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38237},
+																									pos: position{line: 1244, col: 29, offset: 38443},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38191},
+																										pos: position{line: 1242, col: 30, offset: 38397},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38191},
+																												pos:        position{line: 1242, col: 30, offset: 38397},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38197},
+																												pos: position{line: 1242, col: 36, offset: 38403},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1387,
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentFragment1395,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2861, col: 10, offset: 90589},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10306,28 +10340,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1390,
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentFragment1398,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2870, col: 13, offset: 90761},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10336,9 +10370,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2880, col: 8, offset: 90937},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2880, col: 9, offset: 90938,
 																														},
 																													},
 																												},
@@ -10347,7 +10381,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38263,
+																									line: 1244, col: 55, offset: 38469,
 																								},
 																							},
 																						},
@@ -10357,18 +10391,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1242, col: 30, offset: 38397},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1242, col: 36, offset: 38403},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1400,
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentFragment1408,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10377,28 +10411,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1403,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentFragment1411,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10407,9 +10441,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -10431,7 +10465,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1411,
+							run: (*parser).callonDocumentFragment1419,
 						},
 					},
 				},
@@ -10459,27 +10493,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37178},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1206, col: 23, offset: 37178},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37146},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1206, col: 51, offset: 37206},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37211},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1206, col: 56, offset: 37211},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1206, col: 56, offset: 37211},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10489,7 +10523,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37146},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10506,9 +10540,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -10580,12 +10614,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2856, col: 11, offset: 90300},
+												pos: position{line: 2865, col: 11, offset: 90650},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2865, col: 11, offset: 90650},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 11, offset: 90300},
+														pos:        position{line: 2865, col: 11, offset: 90650},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10607,28 +10641,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10637,9 +10671,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -10683,25 +10717,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2870, col: 12, offset: 90760},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2870, col: 13, offset: 90761},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2870, col: 13, offset: 90761},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2870, col: 20, offset: 90768},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2870, col: 29, offset: 90777},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10712,10 +10746,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2861, col: 10, offset: 90589},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2861, col: 10, offset: 90589},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10785,10 +10819,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2861, col: 10, offset: 90589},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2861, col: 10, offset: 90589},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10797,28 +10831,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2874, col: 8, offset: 90637},
+										pos: position{line: 2883, col: 8, offset: 90987},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2870, col: 12, offset: 90760},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2870, col: 13, offset: 90761},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2870, col: 13, offset: 90761},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2870, col: 20, offset: 90768},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2870, col: 29, offset: 90777},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10827,9 +10861,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2880, col: 8, offset: 90937},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2880, col: 9, offset: 90938,
 												},
 											},
 										},
@@ -10862,23 +10896,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2458, col: 5, offset: 79120},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2458, col: 5, offset: 79120},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2461, col: 5, offset: 79196},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2462, col: 9, offset: 79214},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2462, col: 10, offset: 79215},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10890,10 +10924,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2861, col: 10, offset: 90589},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2861, col: 10, offset: 90589},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11317,27 +11351,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36972},
+																						pos: position{line: 1206, col: 23, offset: 37178},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1206, col: 23, offset: 37178},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1204, col: 32, offset: 37146},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37000},
+																									pos:   position{line: 1206, col: 51, offset: 37206},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37005},
+																										pos: position{line: 1206, col: 56, offset: 37211},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1206, col: 56, offset: 37211},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37005},
+																												pos:        position{line: 1206, col: 56, offset: 37211},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11347,7 +11381,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1204, col: 32, offset: 37146},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11730,10 +11764,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2861, col: 10, offset: 90589},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2861, col: 10, offset: 90589},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11742,28 +11776,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2883, col: 8, offset: 90987},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2870, col: 12, offset: 90760},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2870, col: 13, offset: 90761},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2870, col: 13, offset: 90761},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2870, col: 20, offset: 90768},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2870, col: 29, offset: 90777},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11772,9 +11806,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2880, col: 8, offset: 90937},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2880, col: 9, offset: 90938,
 														},
 													},
 												},
@@ -11788,18 +11822,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2878, col: 11, offset: 90923},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2878, col: 13, offset: 90925,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11808,28 +11842,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2870, col: 12, offset: 90760},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11838,9 +11872,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -11892,12 +11926,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2755, col: 14, offset: 87758},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2755, col: 14, offset: 87758},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2755, col: 14, offset: 87758},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11906,10 +11940,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11917,27 +11951,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2769, col: 5, offset: 87893},
+																				pos: position{line: 2778, col: 5, offset: 88243},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2770, col: 9, offset: 87903},
+																					pos: position{line: 2779, col: 9, offset: 88253},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 10, offset: 87904},
+																							pos:        position{line: 2779, col: 10, offset: 88254},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2772, col: 13, offset: 88001},
+																							pos: position{line: 2781, col: 13, offset: 88351},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2772, col: 13, offset: 88001},
+																									pos: position{line: 2781, col: 13, offset: 88351},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2775, col: 13, offset: 88101},
+																									pos:        position{line: 2784, col: 13, offset: 88451},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11945,20 +11979,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2775, col: 19, offset: 88107},
+																							pos:        position{line: 2784, col: 19, offset: 88457},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2778, col: 13, offset: 88145},
+																							pos: position{line: 2787, col: 13, offset: 88495},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2778, col: 13, offset: 88145},
+																									pos: position{line: 2787, col: 13, offset: 88495},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2781, col: 14, offset: 88238},
+																									pos:        position{line: 2790, col: 14, offset: 88588},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11967,18 +12001,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 12, offset: 88282},
+																							pos: position{line: 2792, col: 12, offset: 88632},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 12, offset: 88282},
+																									pos:        position{line: 2792, col: 12, offset: 88632},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2783, col: 16, offset: 88286},
+																									pos: position{line: 2792, col: 16, offset: 88636},
 																									expr: &litMatcher{
-																										pos:        position{line: 2783, col: 17, offset: 88287},
+																										pos:        position{line: 2792, col: 17, offset: 88637},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12096,10 +12130,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 12, offset: 88547},
+																				pos: position{line: 2800, col: 12, offset: 88897},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 12, offset: 88547},
+																					pos:        position{line: 2800, col: 12, offset: 88897},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12117,10 +12151,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2861, col: 10, offset: 90589},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2861, col: 10, offset: 90589},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12129,28 +12163,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2883, col: 8, offset: 90987},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2870, col: 12, offset: 90760},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2870, col: 13, offset: 90761},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2870, col: 13, offset: 90761},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2870, col: 20, offset: 90768},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2870, col: 29, offset: 90777},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12159,9 +12193,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2880, col: 8, offset: 90937},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2880, col: 9, offset: 90938,
 														},
 													},
 												},
@@ -12175,18 +12209,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2878, col: 11, offset: 90923},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2878, col: 13, offset: 90925,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12195,28 +12229,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2870, col: 12, offset: 90760},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12225,9 +12259,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -12256,10 +12290,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2861, col: 10, offset: 90589},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2861, col: 10, offset: 90589},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12268,28 +12302,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2883, col: 8, offset: 90987},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2870, col: 12, offset: 90760},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2870, col: 13, offset: 90761},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2870, col: 13, offset: 90761},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2870, col: 20, offset: 90768},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2870, col: 29, offset: 90777},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12298,9 +12332,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2880, col: 8, offset: 90937},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2880, col: 9, offset: 90938,
 														},
 													},
 												},
@@ -12314,18 +12348,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2878, col: 11, offset: 90923},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2878, col: 13, offset: 90925,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12334,28 +12368,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2870, col: 12, offset: 90760},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12364,9 +12398,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -12614,10 +12648,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2861, col: 10, offset: 90589},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2861, col: 10, offset: 90589},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13149,10 +13183,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13213,10 +13247,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2861, col: 10, offset: 90589},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13256,10 +13290,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2861, col: 10, offset: 90589},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2861, col: 10, offset: 90589},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13282,10 +13316,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13340,10 +13374,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2861, col: 10, offset: 90589},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2861, col: 10, offset: 90589},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13374,10 +13408,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13407,10 +13441,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2861, col: 10, offset: 90589},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2861, col: 10, offset: 90589},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13465,10 +13499,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2861, col: 10, offset: 90589},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2861, col: 10, offset: 90589},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13547,12 +13581,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2755, col: 14, offset: 87758},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2755, col: 14, offset: 87758},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2755, col: 14, offset: 87758},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13561,10 +13595,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2861, col: 10, offset: 90589},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2861, col: 10, offset: 90589},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14021,10 +14055,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2861, col: 10, offset: 90589},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2861, col: 10, offset: 90589},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14061,12 +14095,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2755, col: 14, offset: 87758},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2755, col: 14, offset: 87758},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2755, col: 14, offset: 87758},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14075,10 +14109,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2861, col: 10, offset: 90589},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2861, col: 10, offset: 90589},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14505,10 +14539,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14898,10 +14932,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2861, col: 10, offset: 90589},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2861, col: 10, offset: 90589},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14952,12 +14986,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2846, col: 7, offset: 90241},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2846, col: 7, offset: 90241},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2846, col: 7, offset: 90241},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14969,10 +15003,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2861, col: 10, offset: 90589},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2861, col: 10, offset: 90589},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15153,12 +15187,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2846, col: 7, offset: 90241},
 										run: (*parser).callonCrossReference46,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2846, col: 7, offset: 90241},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2846, col: 7, offset: 90241},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15202,41 +15236,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 17, offset: 88902},
+								pos: position{line: 2815, col: 17, offset: 89252},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2806, col: 17, offset: 88902},
+									pos:   position{line: 2815, col: 17, offset: 89252},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89356},
+										pos: position{line: 2832, col: 5, offset: 89706},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2823, col: 5, offset: 89356},
+											pos:   position{line: 2832, col: 5, offset: 89706},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2823, col: 14, offset: 89365},
+												pos: position{line: 2832, col: 14, offset: 89715},
 												expr: &choiceExpr{
-													pos: position{line: 2824, col: 9, offset: 89375},
+													pos: position{line: 2833, col: 9, offset: 89725},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2833, col: 9, offset: 89725},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2824, col: 9, offset: 89375},
+																pos: position{line: 2833, col: 9, offset: 89725},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2833, col: 9, offset: 89725},
 																		expr: &litMatcher{
-																			pos:        position{line: 2824, col: 10, offset: 89376},
+																			pos:        position{line: 2833, col: 10, offset: 89726},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2825, col: 9, offset: 89404},
+																		pos: position{line: 2834, col: 9, offset: 89754},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2825, col: 10, offset: 89405},
+																			pos:        position{line: 2834, col: 10, offset: 89755},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15247,27 +15281,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2828, col: 11, offset: 89617},
+															pos: position{line: 2837, col: 11, offset: 89967},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2828, col: 11, offset: 89617},
+																	pos:        position{line: 2837, col: 11, offset: 89967},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2828, col: 19, offset: 89625},
+																	pos: position{line: 2837, col: 19, offset: 89975},
 																	expr: &seqExpr{
-																		pos: position{line: 2828, col: 21, offset: 89627},
+																		pos: position{line: 2837, col: 21, offset: 89977},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2837, col: 21, offset: 89977},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2861, col: 10, offset: 90589},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2861, col: 10, offset: 90589},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15276,11 +15310,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2828, col: 28, offset: 89634},
+																				pos: position{line: 2837, col: 28, offset: 89984},
 																				expr: &notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -15636,27 +15670,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1206, col: 23, offset: 37178},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1206, col: 23, offset: 37178},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37146},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1206, col: 51, offset: 37206},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1206, col: 56, offset: 37211},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1206, col: 56, offset: 37211},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1206, col: 56, offset: 37211},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15666,7 +15700,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37146},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15675,10 +15709,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89754},
+															pos: position{line: 2840, col: 11, offset: 90104},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 11, offset: 89754},
+																pos:        position{line: 2840, col: 11, offset: 90104},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15706,29 +15740,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30767},
+			pos:  position{line: 996, col: 1, offset: 30973},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30800},
+				pos: position{line: 997, col: 5, offset: 31006},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30800},
+					pos: position{line: 997, col: 5, offset: 31006},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30800},
+							pos:        position{line: 997, col: 5, offset: 31006},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30806},
+							pos:   position{line: 997, col: 11, offset: 31012},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 14, offset: 88832},
+								pos: position{line: 2811, col: 14, offset: 89182},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 14, offset: 88832},
+									pos: position{line: 2811, col: 14, offset: 89182},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 14, offset: 88832},
+										pos:        position{line: 2811, col: 14, offset: 89182},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15738,28 +15772,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15768,9 +15802,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -15781,53 +15815,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33723},
+			pos:  position{line: 1108, col: 1, offset: 33929},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33746},
+				pos: position{line: 1109, col: 5, offset: 33952},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33746},
+					pos: position{line: 1109, col: 5, offset: 33952},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33746},
+							pos: position{line: 1109, col: 5, offset: 33952},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33807},
+							pos: position{line: 1112, col: 5, offset: 34013},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33808},
+								pos: position{line: 1112, col: 6, offset: 34014},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2471, col: 22, offset: 79574},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2471, col: 22, offset: 79574},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2476, col: 31, offset: 79795},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2476, col: 36, offset: 79800},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2476, col: 37, offset: 79801},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2471, col: 49, offset: 79601},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2807, col: 13, offset: 89115},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2807, col: 13, offset: 89115},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2807, col: 13, offset: 89115},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15837,28 +15871,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15867,9 +15901,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -15883,88 +15917,92 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonDocumentHeader25,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonDocumentHeader28,
-																	expr: &seqExpr{
+														run: (*parser).callonDocumentHeader26,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonDocumentHeader29,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader34,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonDocumentHeader35,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader37,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2883, col: 8, offset: 90987},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonDocumentHeader38,
+																			expr: &choiceExpr{
+																				pos: position{line: 2870, col: 13, offset: 90761},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2880, col: 8, offset: 90937},
+																			expr: &anyMatcher{
+																				line: 2880, col: 9, offset: 90938,
+																			},
 																		},
 																	},
 																},
@@ -15972,145 +16010,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonDocumentHeader45,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26847},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonDocumentHeader46,
+															pos: position{line: 839, col: 6, offset: 26848},
+															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26848},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26848},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26689},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader50,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader53,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26689},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26689},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonDocumentHeader54,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonDocumentHeader57,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonDocumentHeader63,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader59,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader62,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonDocumentHeader66,
+																													expr: &choiceExpr{
+																														pos: position{line: 2870, col: 13, offset: 90761},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2880, col: 8, offset: 90937},
+																													expr: &anyMatcher{
+																														line: 2880, col: 9, offset: 90938,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26720},
+																							run: (*parser).callonDocumentHeader73,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26878},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonDocumentHeader72,
+																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonDocumentHeader77,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16120,28 +16175,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentHeader81,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16150,9 +16205,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -16167,103 +16222,116 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 825, col: 5, offset: 26489},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 832, col: 5, offset: 26689},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonDocumentHeader90,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonDocumentHeader93,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 832, col: 5, offset: 26689},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 832, col: 5, offset: 26689},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23584},
+																			run: (*parser).callonDocumentHeader97,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23584},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23595},
+																							run: (*parser).callonDocumentHeader100,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23595},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23602},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23602},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23686},
+																						expr: &actionExpr{
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonDocumentHeader106,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentHeader99,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentHeader102,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																					&choiceExpr{
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentHeader109,
+																								expr: &choiceExpr{
+																									pos: position{line: 2870, col: 13, offset: 90761},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2880, col: 8, offset: 90937},
+																								expr: &anyMatcher{
+																									line: 2880, col: 9, offset: 90938,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 833, col: 5, offset: 26720},
+																		run: (*parser).callonDocumentHeader116,
+																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -16276,49 +16344,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33904},
+							pos:   position{line: 1113, col: 5, offset: 34110},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33911},
+								pos:  position{line: 1113, col: 12, offset: 34117},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33930},
+							pos: position{line: 1114, col: 5, offset: 34136},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33931},
+								pos: position{line: 1114, col: 6, offset: 34137},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
-										run: (*parser).callonDocumentHeader115,
+										pos: position{line: 2471, col: 22, offset: 79574},
+										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2471, col: 22, offset: 79574},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2476, col: 31, offset: 79795},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2476, col: 36, offset: 79800},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2476, col: 37, offset: 79801},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2471, col: 49, offset: 79601},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonDocumentHeader121,
+														pos: position{line: 2807, col: 13, offset: 89115},
+														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2807, col: 13, offset: 89115},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2807, col: 13, offset: 89115},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16328,28 +16396,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonDocumentHeader125,
+															pos: position{line: 2870, col: 12, offset: 90760},
+															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16358,9 +16426,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -16370,92 +16438,96 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 820, col: 5, offset: 26324},
-										run: (*parser).callonDocumentHeader132,
+										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonDocumentHeader134,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonDocumentHeader137,
-																	expr: &seqExpr{
+														run: (*parser).callonDocumentHeader143,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonDocumentHeader146,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader143,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonDocumentHeader152,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader146,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2883, col: 8, offset: 90987},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonDocumentHeader155,
+																			expr: &choiceExpr{
+																				pos: position{line: 2870, col: 13, offset: 90761},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2880, col: 8, offset: 90937},
+																			expr: &anyMatcher{
+																				line: 2880, col: 9, offset: 90938,
+																			},
 																		},
 																	},
 																},
@@ -16463,145 +16535,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonDocumentHeader162,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26847},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonDocumentHeader155,
+															pos: position{line: 839, col: 6, offset: 26848},
+															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26848},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26848},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26689},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader159,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader162,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
-																													ignoreCase: false,
-																													want:       "\"/\"",
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader168,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader171,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
-																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26689},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26689},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonDocumentHeader171,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonDocumentHeader174,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
+																											},
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonDocumentHeader180,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																										&choiceExpr{
+																											pos: position{line: 2883, col: 8, offset: 90987},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonDocumentHeader183,
+																													expr: &choiceExpr{
+																														pos: position{line: 2870, col: 13, offset: 90761},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2880, col: 8, offset: 90937},
+																													expr: &anyMatcher{
+																														line: 2880, col: 9, offset: 90938,
+																													},
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26720},
+																							run: (*parser).callonDocumentHeader190,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26878},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonDocumentHeader181,
+																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonDocumentHeader186,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16611,28 +16700,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentHeader190,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16641,9 +16730,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -16658,103 +16747,116 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 825, col: 5, offset: 26489},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 832, col: 5, offset: 26689},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonDocumentHeader199,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonDocumentHeader202,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 832, col: 5, offset: 26689},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 832, col: 5, offset: 26689},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23584},
+																			run: (*parser).callonDocumentHeader214,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23584},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23595},
+																							run: (*parser).callonDocumentHeader217,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23595},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23602},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23602},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23686},
+																						expr: &actionExpr{
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonDocumentHeader223,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentHeader208,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentHeader211,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																					&choiceExpr{
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentHeader226,
+																								expr: &choiceExpr{
+																									pos: position{line: 2870, col: 13, offset: 90761},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2880, col: 8, offset: 90937},
+																								expr: &anyMatcher{
+																									line: 2880, col: 9, offset: 90938,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 833, col: 5, offset: 26720},
+																		run: (*parser).callonDocumentHeader233,
+																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -16767,41 +16869,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34027},
+							pos:   position{line: 1115, col: 5, offset: 34233},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34046},
+								pos: position{line: 1115, col: 24, offset: 34252},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34421},
-									run: (*parser).callonDocumentHeader222,
+									pos: position{line: 1126, col: 5, offset: 34627},
+									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34421},
+										pos: position{line: 1126, col: 5, offset: 34627},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34421},
+												pos: position{line: 1126, col: 5, offset: 34627},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34422},
+													pos:        position{line: 1126, col: 6, offset: 34628},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34430},
+												pos:   position{line: 1127, col: 5, offset: 34636},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34686},
-													run: (*parser).callonDocumentHeader227,
+													pos: position{line: 1133, col: 20, offset: 34892},
+													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34686},
+														pos: position{line: 1133, col: 20, offset: 34892},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34686},
+																pos: position{line: 1133, col: 20, offset: 34892},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader230,
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16810,37 +16912,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34693},
+																pos:   position{line: 1133, col: 27, offset: 34899},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34702},
+																	pos: position{line: 1133, col: 36, offset: 34908},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34815},
-																		run: (*parser).callonDocumentHeader234,
+																		pos: position{line: 1138, col: 5, offset: 35021},
+																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34815},
+																			pos: position{line: 1138, col: 5, offset: 35021},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34815},
+																					pos:   position{line: 1138, col: 5, offset: 35021},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34824},
+																						pos: position{line: 1138, col: 14, offset: 35030},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35204},
-																							run: (*parser).callonDocumentHeader238,
+																							pos: position{line: 1149, col: 5, offset: 35410},
+																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35204},
+																								pos: position{line: 1149, col: 5, offset: 35410},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35204},
+																										pos:   position{line: 1149, col: 5, offset: 35410},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35211},
-																											run: (*parser).callonDocumentHeader241,
+																											pos: position{line: 1149, col: 12, offset: 35417},
+																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35211},
+																												pos: position{line: 1149, col: 12, offset: 35417},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35211},
+																													pos:        position{line: 1149, col: 12, offset: 35417},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16850,12 +16952,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35291},
+																										pos: position{line: 1152, col: 5, offset: 35497},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader245,
+																											pos: position{line: 2861, col: 10, offset: 90589},
+																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2861, col: 10, offset: 90589},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16864,17 +16966,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35302},
+																										pos:   position{line: 1153, col: 5, offset: 35508},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35308},
+																											pos: position{line: 1153, col: 11, offset: 35514},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35309},
-																												run: (*parser).callonDocumentHeader249,
+																												pos: position{line: 1153, col: 12, offset: 35515},
+																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35309},
+																													pos: position{line: 1153, col: 12, offset: 35515},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35309},
+																														pos:        position{line: 1153, col: 12, offset: 35515},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16885,12 +16987,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35390},
+																										pos: position{line: 1156, col: 5, offset: 35596},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader253,
+																											pos: position{line: 2861, col: 10, offset: 90589},
+																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2861, col: 10, offset: 90589},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16899,17 +17001,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35401},
+																										pos:   position{line: 1157, col: 5, offset: 35607},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35407},
+																											pos: position{line: 1157, col: 11, offset: 35613},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35408},
-																												run: (*parser).callonDocumentHeader257,
+																												pos: position{line: 1157, col: 12, offset: 35614},
+																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35408},
+																													pos: position{line: 1157, col: 12, offset: 35614},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35408},
+																														pos:        position{line: 1157, col: 12, offset: 35614},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -16920,12 +17022,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35487},
+																										pos: position{line: 1160, col: 5, offset: 35693},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader261,
+																											pos: position{line: 2861, col: 10, offset: 90589},
+																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2861, col: 10, offset: 90589},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16939,38 +17041,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34850},
+																					pos:   position{line: 1138, col: 40, offset: 35056},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34856},
+																						pos: position{line: 1138, col: 46, offset: 35062},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35609},
-																							run: (*parser).callonDocumentHeader265,
+																							pos: position{line: 1166, col: 5, offset: 35815},
+																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35609},
+																								pos: position{line: 1166, col: 5, offset: 35815},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2878, col: 11, offset: 90923},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2878, col: 13, offset: 90925,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35621},
+																										pos:        position{line: 1167, col: 5, offset: 35827},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35630},
+																										pos:   position{line: 1168, col: 5, offset: 35836},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35637},
-																											run: (*parser).callonDocumentHeader271,
+																											pos: position{line: 1168, col: 12, offset: 35843},
+																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35638},
+																												pos: position{line: 1168, col: 13, offset: 35844},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35638},
+																													pos:        position{line: 1168, col: 13, offset: 35844},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -16980,7 +17082,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35698},
+																										pos:        position{line: 1171, col: 5, offset: 35904},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -16991,12 +17093,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34879},
+																					pos: position{line: 1138, col: 69, offset: 35085},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader276,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17005,21 +17107,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34886},
+																					pos: position{line: 1138, col: 76, offset: 35092},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34886},
+																						pos:        position{line: 1138, col: 76, offset: 35092},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34891},
+																					pos: position{line: 1138, col: 81, offset: 35097},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader281,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17028,8 +17130,8 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34903},
-																					run: (*parser).callonDocumentHeader283,
+																					pos: position{line: 1139, col: 5, offset: 35109},
+																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
 																		},
@@ -17037,28 +17139,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader285,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17067,9 +17169,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -17079,41 +17181,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34460},
+												pos: position{line: 1128, col: 5, offset: 34666},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34461},
+													pos: position{line: 1128, col: 6, offset: 34667},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
-															run: (*parser).callonDocumentHeader294,
+															pos: position{line: 2471, col: 22, offset: 79574},
+															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2471, col: 22, offset: 79574},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2476, col: 31, offset: 79795},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2476, col: 36, offset: 79800},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2476, col: 37, offset: 79801},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2471, col: 49, offset: 79601},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonDocumentHeader300,
+																			pos: position{line: 2807, col: 13, offset: 89115},
+																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2807, col: 13, offset: 89115},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2807, col: 13, offset: 89115},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17123,28 +17225,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentHeader304,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17153,9 +17255,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -17165,92 +17267,96 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 820, col: 5, offset: 26324},
-															run: (*parser).callonDocumentHeader311,
+															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
 																pos: position{line: 820, col: 5, offset: 26324},
 																exprs: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
-																		run: (*parser).callonDocumentHeader313,
-																		expr: &seqExpr{
+																	&labeledExpr{
+																		pos:   position{line: 820, col: 5, offset: 26324},
+																		label: "start",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 5, offset: 23584},
-																			exprs: []interface{}{
-																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23584},
-																					label: "delimiter",
-																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
-																						run: (*parser).callonDocumentHeader316,
-																						expr: &seqExpr{
+																			run: (*parser).callonDocumentHeader330,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23584},
+																						label: "delimiter",
+																						expr: &actionExpr{
 																							pos: position{line: 740, col: 16, offset: 23595},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23595},
-																									val:        "////",
-																									ignoreCase: false,
-																									want:       "\"////\"",
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23602},
-																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23602},
-																										val:        "/",
+																							run: (*parser).callonDocumentHeader333,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23595},
+																										val:        "////",
 																										ignoreCase: false,
-																										want:       "\"/\"",
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23602},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23602},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23686},
-																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader322,
-																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
-																							val:        "[\\t ]",
-																							chars:      []rune{'\t', ' '},
-																							ignoreCase: false,
-																							inverted:   false,
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23686},
+																						expr: &actionExpr{
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonDocumentHeader339,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
 																						},
 																					},
-																				},
-																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentHeader325,
-																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																					&choiceExpr{
+																						pos: position{line: 2883, col: 8, offset: 90987},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonDocumentHeader342,
+																								expr: &choiceExpr{
+																									pos: position{line: 2870, col: 13, offset: 90761},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
 																									},
 																								},
 																							},
-																						},
-																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
-																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																							&notExpr{
+																								pos: position{line: 2880, col: 8, offset: 90937},
+																								expr: &anyMatcher{
+																									line: 2880, col: 9, offset: 90938,
+																								},
 																							},
 																						},
 																					},
@@ -17258,145 +17364,162 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 821, col: 5, offset: 26363},
+																		run: (*parser).callonDocumentHeader349,
+																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26355},
+																		pos:   position{line: 824, col: 5, offset: 26455},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26641},
+																			pos: position{line: 839, col: 5, offset: 26847},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26642},
-																				run: (*parser).callonDocumentHeader334,
+																				pos: position{line: 839, col: 6, offset: 26848},
+																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26642},
+																					pos: position{line: 839, col: 6, offset: 26848},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26642},
+																							pos: position{line: 839, col: 6, offset: 26848},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26584},
+																								pos: position{line: 832, col: 5, offset: 26689},
 																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
-																										run: (*parser).callonDocumentHeader338,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
-																											exprs: []interface{}{
-																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
-																													label: "delimiter",
-																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
-																														run: (*parser).callonDocumentHeader341,
-																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
-																																	val:        "////",
-																																	ignoreCase: false,
-																																	want:       "\"////\"",
+																									&seqExpr{
+																										pos: position{line: 832, col: 5, offset: 26689},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 832, col: 5, offset: 26689},
+																												label: "end",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 5, offset: 23584},
+																													run: (*parser).callonDocumentHeader358,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 5, offset: 23584},
+																														exprs: []interface{}{
+																															&labeledExpr{
+																																pos:   position{line: 740, col: 5, offset: 23584},
+																																label: "delimiter",
+																																expr: &actionExpr{
+																																	pos: position{line: 740, col: 16, offset: 23595},
+																																	run: (*parser).callonDocumentHeader361,
+																																	expr: &seqExpr{
+																																		pos: position{line: 740, col: 16, offset: 23595},
+																																		exprs: []interface{}{
+																																			&litMatcher{
+																																				pos:        position{line: 740, col: 16, offset: 23595},
+																																				val:        "////",
+																																				ignoreCase: false,
+																																				want:       "\"////\"",
+																																			},
+																																			&zeroOrMoreExpr{
+																																				pos: position{line: 740, col: 23, offset: 23602},
+																																				expr: &litMatcher{
+																																					pos:        position{line: 740, col: 23, offset: 23602},
+																																					val:        "/",
+																																					ignoreCase: false,
+																																					want:       "\"/\"",
+																																				},
+																																			},
+																																		},
+																																	},
 																																},
-																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
-																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
-																																		val:        "/",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 742, col: 8, offset: 23686},
+																																expr: &actionExpr{
+																																	pos: position{line: 2861, col: 10, offset: 90589},
+																																	run: (*parser).callonDocumentHeader367,
+																																	expr: &charClassMatcher{
+																																		pos:        position{line: 2861, col: 10, offset: 90589},
+																																		val:        "[\\t ]",
+																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
-																																		want:       "\"/\"",
+																																		inverted:   false,
 																																	},
 																																},
 																															},
-																														},
-																													},
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
-																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
-																														run: (*parser).callonDocumentHeader347,
-																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
-																															val:        "[\\t ]",
-																															chars:      []rune{'\t', ' '},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																												},
-																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
-																													alternatives: []interface{}{
-																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
-																															run: (*parser).callonDocumentHeader350,
-																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																															&choiceExpr{
+																																pos: position{line: 2883, col: 8, offset: 90987},
 																																alternatives: []interface{}{
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
-																																		val:        "\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\n\"",
-																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
-																																		val:        "\r\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\\n\"",
+																																	&actionExpr{
+																																		pos: position{line: 2870, col: 12, offset: 90760},
+																																		run: (*parser).callonDocumentHeader370,
+																																		expr: &choiceExpr{
+																																			pos: position{line: 2870, col: 13, offset: 90761},
+																																			alternatives: []interface{}{
+																																				&litMatcher{
+																																					pos:        position{line: 2870, col: 13, offset: 90761},
+																																					val:        "\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2870, col: 20, offset: 90768},
+																																					val:        "\r\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2870, col: 29, offset: 90777},
+																																					val:        "\r",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\"",
+																																				},
+																																			},
+																																		},
 																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
-																																		val:        "\r",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\"",
+																																	&notExpr{
+																																		pos: position{line: 2880, col: 8, offset: 90937},
+																																		expr: &anyMatcher{
+																																			line: 2880, col: 9, offset: 90938,
+																																		},
 																																	},
 																																},
 																															},
 																														},
-																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
-																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
-																															},
-																														},
 																													},
 																												},
 																											},
+																											&andCodeExpr{
+																												pos: position{line: 833, col: 5, offset: 26720},
+																												run: (*parser).callonDocumentHeader377,
+																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26672},
+																							pos:   position{line: 840, col: 5, offset: 26878},
 																							label: "line",
 																							expr: &actionExpr{
 																								pos: position{line: 811, col: 5, offset: 26088},
-																								run: (*parser).callonDocumentHeader360,
+																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2878, col: 11, offset: 90923},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2878, col: 13, offset: 90925,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2798, col: 13, offset: 88765},
-																												run: (*parser).callonDocumentHeader365,
+																												pos: position{line: 2807, col: 13, offset: 89115},
+																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2798, col: 13, offset: 88765},
+																													pos: position{line: 2807, col: 13, offset: 89115},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2798, col: 13, offset: 88765},
+																														pos:        position{line: 2807, col: 13, offset: 89115},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17406,28 +17529,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentHeader369,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17436,9 +17559,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -17453,103 +17576,116 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26389},
+																		pos: position{line: 825, col: 5, offset: 26489},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26689},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader378,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader381,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26689},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26689},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonDocumentHeader401,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonDocumentHeader404,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonDocumentHeader410,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader387,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader390,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonDocumentHeader413,
+																													expr: &choiceExpr{
+																														pos: position{line: 2870, col: 13, offset: 90761},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2880, col: 8, offset: 90937},
+																													expr: &anyMatcher{
+																														line: 2880, col: 9, offset: 90938,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26720},
+																							run: (*parser).callonDocumentHeader420,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -17562,23 +17698,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34535},
+												pos:   position{line: 1129, col: 5, offset: 34741},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34544},
+													pos: position{line: 1129, col: 14, offset: 34750},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35887},
-														run: (*parser).callonDocumentHeader401,
+														pos: position{line: 1177, col: 21, offset: 36093},
+														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35887},
+															pos: position{line: 1177, col: 21, offset: 36093},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35887},
+																	pos: position{line: 1177, col: 21, offset: 36093},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentHeader404,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17587,55 +17723,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35894},
+																	pos: position{line: 1177, col: 28, offset: 36100},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35895},
+																		pos:        position{line: 1177, col: 29, offset: 36101},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35899},
+																	pos:   position{line: 1177, col: 33, offset: 36105},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35918},
+																		pos: position{line: 1178, col: 9, offset: 36124},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35919},
-																				run: (*parser).callonDocumentHeader410,
+																				pos: position{line: 1178, col: 10, offset: 36125},
+																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35919},
+																					pos: position{line: 1178, col: 10, offset: 36125},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35919},
+																							pos:   position{line: 1178, col: 10, offset: 36125},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36436},
+																								pos: position{line: 1187, col: 27, offset: 36642},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36436},
-																										run: (*parser).callonDocumentHeader414,
+																										pos: position{line: 1187, col: 27, offset: 36642},
+																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36436},
+																											pos: position{line: 1187, col: 27, offset: 36642},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36436},
+																													pos:        position{line: 1187, col: 27, offset: 36642},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36441},
+																													pos:        position{line: 1187, col: 32, offset: 36647},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36447},
+																													pos: position{line: 1187, col: 38, offset: 36653},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36447},
+																														pos:        position{line: 1187, col: 38, offset: 36653},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17646,31 +17782,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36495},
-																										run: (*parser).callonDocumentHeader420,
+																										pos: position{line: 1189, col: 5, offset: 36701},
+																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36495},
+																											pos: position{line: 1189, col: 5, offset: 36701},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36495},
+																													pos: position{line: 1189, col: 5, offset: 36701},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36495},
+																														pos:        position{line: 1189, col: 5, offset: 36701},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36501},
+																													pos:        position{line: 1189, col: 11, offset: 36707},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36507},
+																													pos: position{line: 1189, col: 17, offset: 36713},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36507},
+																														pos:        position{line: 1189, col: 17, offset: 36713},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17678,12 +17814,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36518},
+																													pos: position{line: 1189, col: 28, offset: 36724},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
-																														run: (*parser).callonDocumentHeader428,
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2861, col: 10, offset: 90589},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17692,9 +17828,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36525},
+																													pos: position{line: 1189, col: 35, offset: 36731},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36526},
+																														pos:        position{line: 1189, col: 36, offset: 36732},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17707,26 +17843,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35954},
+																							pos: position{line: 1178, col: 45, offset: 36160},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35954},
+																								pos:        position{line: 1178, col: 45, offset: 36160},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35959},
+																							pos:   position{line: 1178, col: 50, offset: 36165},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35967},
+																								pos: position{line: 1178, col: 58, offset: 36173},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
-																									run: (*parser).callonDocumentHeader436,
+																									pos: position{line: 1193, col: 25, offset: 36796},
+																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36590},
+																										pos: position{line: 1193, col: 25, offset: 36796},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36590},
+																											pos:        position{line: 1193, col: 25, offset: 36796},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17737,26 +17873,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35991},
+																							pos: position{line: 1178, col: 82, offset: 36197},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35991},
+																								pos:        position{line: 1178, col: 82, offset: 36197},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 35996},
+																							pos:   position{line: 1178, col: 87, offset: 36202},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36006},
+																								pos: position{line: 1178, col: 97, offset: 36212},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
-																									run: (*parser).callonDocumentHeader443,
+																									pos: position{line: 1197, col: 27, offset: 36868},
+																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1197, col: 27, offset: 36868},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1197, col: 27, offset: 36868},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17770,21 +17906,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36124},
-																				run: (*parser).callonDocumentHeader446,
+																				pos: position{line: 1180, col: 15, offset: 36330},
+																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36124},
+																					pos: position{line: 1180, col: 15, offset: 36330},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36124},
+																							pos:   position{line: 1180, col: 15, offset: 36330},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36590},
-																								run: (*parser).callonDocumentHeader449,
+																								pos: position{line: 1193, col: 25, offset: 36796},
+																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1193, col: 25, offset: 36796},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36590},
+																										pos:        position{line: 1193, col: 25, offset: 36796},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17794,26 +17930,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36155},
+																							pos: position{line: 1180, col: 46, offset: 36361},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36155},
+																								pos:        position{line: 1180, col: 46, offset: 36361},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36160},
+																							pos:   position{line: 1180, col: 51, offset: 36366},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36170},
+																								pos: position{line: 1180, col: 61, offset: 36376},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
-																									run: (*parser).callonDocumentHeader456,
+																									pos: position{line: 1197, col: 27, offset: 36868},
+																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1197, col: 27, offset: 36868},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1197, col: 27, offset: 36868},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17830,28 +17966,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentHeader460,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17860,9 +17996,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -17878,20 +18014,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34081},
+							pos:   position{line: 1116, col: 5, offset: 34287},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34095},
+								pos: position{line: 1116, col: 19, offset: 34301},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34096},
+									pos: position{line: 1116, col: 20, offset: 34302},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34096},
+											pos:  position{line: 1116, col: 20, offset: 34302},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
-											run: (*parser).callonDocumentHeader471,
+											run: (*parser).callonDocumentHeader495,
 											expr: &seqExpr{
 												pos: position{line: 360, col: 19, offset: 10910},
 												exprs: []interface{}{
@@ -17906,7 +18042,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
-															run: (*parser).callonDocumentHeader475,
+															run: (*parser).callonDocumentHeader499,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
 																exprs: []interface{}{
@@ -17942,10 +18078,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentHeader482,
+															pos: position{line: 2861, col: 10, offset: 90589},
+															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17954,28 +18090,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader485,
+																pos: position{line: 2870, col: 12, offset: 90760},
+																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17984,9 +18120,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -17996,7 +18132,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
-											run: (*parser).callonDocumentHeader492,
+											run: (*parser).callonDocumentHeader516,
 											expr: &seqExpr{
 												pos: position{line: 362, col: 9, offset: 11031},
 												exprs: []interface{}{
@@ -18011,7 +18147,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
-															run: (*parser).callonDocumentHeader496,
+															run: (*parser).callonDocumentHeader520,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
 																exprs: []interface{}{
@@ -18047,10 +18183,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentHeader503,
+															pos: position{line: 2861, col: 10, offset: 90589},
+															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2861, col: 10, offset: 90589},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18059,28 +18195,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader506,
+																pos: position{line: 2870, col: 12, offset: 90760},
+																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18089,9 +18225,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -18100,36 +18236,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
-											run: (*parser).callonDocumentHeader513,
+											pos: position{line: 2471, col: 22, offset: 79574},
+											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2471, col: 22, offset: 79574},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2476, col: 31, offset: 79795},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2476, col: 36, offset: 79800},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2476, col: 37, offset: 79801},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2471, col: 49, offset: 79601},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentHeader519,
+															pos: position{line: 2807, col: 13, offset: 89115},
+															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2807, col: 13, offset: 89115},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2807, col: 13, offset: 89115},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18139,28 +18275,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader523,
+																pos: position{line: 2870, col: 12, offset: 90760},
+																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18169,9 +18305,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -18181,92 +18317,96 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
-											run: (*parser).callonDocumentHeader530,
+											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
 												pos: position{line: 820, col: 5, offset: 26324},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
-														run: (*parser).callonDocumentHeader532,
-														expr: &seqExpr{
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26324},
+														label: "start",
+														expr: &actionExpr{
 															pos: position{line: 740, col: 5, offset: 23584},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
-																		run: (*parser).callonDocumentHeader535,
-																		expr: &seqExpr{
+															run: (*parser).callonDocumentHeader557,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23584},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23584},
+																		label: "delimiter",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 16, offset: 23595},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
-																						val:        "/",
+																			run: (*parser).callonDocumentHeader560,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23595},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23595},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23602},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23602},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
-																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentHeader541,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23686},
+																		expr: &actionExpr{
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonDocumentHeader566,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentHeader544,
-																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonDocumentHeader569,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
-																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
 																			},
 																		},
 																	},
@@ -18274,145 +18414,162 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 821, col: 5, offset: 26363},
+														run: (*parser).callonDocumentHeader576,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 824, col: 5, offset: 26455},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 839, col: 5, offset: 26847},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
-																run: (*parser).callonDocumentHeader553,
+																pos: position{line: 839, col: 6, offset: 26848},
+																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 839, col: 6, offset: 26848},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 839, col: 6, offset: 26848},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 832, col: 5, offset: 26689},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						run: (*parser).callonDocumentHeader557,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										run: (*parser).callonDocumentHeader560,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 832, col: 5, offset: 26689},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 832, col: 5, offset: 26689},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									run: (*parser).callonDocumentHeader585,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23584},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23584},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													run: (*parser).callonDocumentHeader588,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23595},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23602},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23686},
+																												expr: &actionExpr{
+																													pos: position{line: 2861, col: 10, offset: 90589},
+																													run: (*parser).callonDocumentHeader594,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
-																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentHeader566,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentHeader569,
-																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																											&choiceExpr{
+																												pos: position{line: 2883, col: 8, offset: 90987},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2870, col: 12, offset: 90760},
+																														run: (*parser).callonDocumentHeader597,
+																														expr: &choiceExpr{
+																															pos: position{line: 2870, col: 13, offset: 90761},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2880, col: 8, offset: 90937},
+																														expr: &anyMatcher{
+																															line: 2880, col: 9, offset: 90938,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
-																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 833, col: 5, offset: 26720},
+																								run: (*parser).callonDocumentHeader604,
+																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 840, col: 5, offset: 26878},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentHeader579,
+																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentHeader584,
+																								pos: position{line: 2807, col: 13, offset: 89115},
+																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2807, col: 13, offset: 89115},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2807, col: 13, offset: 89115},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18422,28 +18579,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentHeader588,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18452,9 +18609,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -18469,103 +18626,116 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 825, col: 5, offset: 26489},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 832, col: 5, offset: 26689},
 															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	run: (*parser).callonDocumentHeader597,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
-																		exprs: []interface{}{
-																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
-																				label: "delimiter",
-																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					run: (*parser).callonDocumentHeader600,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																&seqExpr{
+																	pos: position{line: 832, col: 5, offset: 26689},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 832, col: 5, offset: 26689},
+																			label: "end",
+																			expr: &actionExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				run: (*parser).callonDocumentHeader628,
+																				expr: &seqExpr{
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23584},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								run: (*parser).callonDocumentHeader631,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23595},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23602},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23602},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
 																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
-																									val:        "/",
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 742, col: 8, offset: 23686},
+																							expr: &actionExpr{
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonDocumentHeader637,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
-																									want:       "\"/\"",
+																									inverted:   false,
 																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
-																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonDocumentHeader606,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonDocumentHeader609,
-																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																						&choiceExpr{
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
+																								&actionExpr{
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonDocumentHeader640,
+																									expr: &choiceExpr{
+																										pos: position{line: 2870, col: 13, offset: 90761},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																								&notExpr{
+																									pos: position{line: 2880, col: 8, offset: 90937},
+																									expr: &anyMatcher{
+																										line: 2880, col: 9, offset: 90938,
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
-																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
-																						},
-																					},
 																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 833, col: 5, offset: 26720},
+																			run: (*parser).callonDocumentHeader647,
+																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -18584,26 +18754,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34293},
+			pos:  position{line: 1120, col: 1, offset: 34499},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34315},
+				pos: position{line: 1121, col: 5, offset: 34521},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34315},
+					pos: position{line: 1121, col: 5, offset: 34521},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34315},
+							pos:        position{line: 1121, col: 5, offset: 34521},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2865, col: 11, offset: 90650},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2865, col: 11, offset: 90650},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2865, col: 11, offset: 90650},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18612,36 +18782,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34326},
+							pos:   position{line: 1121, col: 16, offset: 34532},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34333},
+								pos:  position{line: 1121, col: 23, offset: 34539},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18650,9 +18820,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -18663,23 +18833,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35173},
+			pos:  position{line: 1148, col: 1, offset: 35379},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35204},
+				pos: position{line: 1149, col: 5, offset: 35410},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35204},
+					pos: position{line: 1149, col: 5, offset: 35410},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35204},
+							pos:   position{line: 1149, col: 5, offset: 35410},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35211},
+								pos: position{line: 1149, col: 12, offset: 35417},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35211},
+									pos: position{line: 1149, col: 12, offset: 35417},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35211},
+										pos:        position{line: 1149, col: 12, offset: 35417},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18689,12 +18859,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35291},
+							pos: position{line: 1152, col: 5, offset: 35497},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18703,17 +18873,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35302},
+							pos:   position{line: 1153, col: 5, offset: 35508},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35308},
+								pos: position{line: 1153, col: 11, offset: 35514},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35309},
+									pos: position{line: 1153, col: 12, offset: 35515},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35309},
+										pos: position{line: 1153, col: 12, offset: 35515},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35309},
+											pos:        position{line: 1153, col: 12, offset: 35515},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18724,12 +18894,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35390},
+							pos: position{line: 1156, col: 5, offset: 35596},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18738,17 +18908,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35401},
+							pos:   position{line: 1157, col: 5, offset: 35607},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35407},
+								pos: position{line: 1157, col: 11, offset: 35613},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35408},
+									pos: position{line: 1157, col: 12, offset: 35614},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35408},
+										pos: position{line: 1157, col: 12, offset: 35614},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35408},
+											pos:        position{line: 1157, col: 12, offset: 35614},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18759,12 +18929,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35487},
+							pos: position{line: 1160, col: 5, offset: 35693},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18778,28 +18948,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39216},
+			pos:  position{line: 1273, col: 1, offset: 39422},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39237},
+				pos: position{line: 1274, col: 5, offset: 39443},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39237},
+					pos: position{line: 1274, col: 5, offset: 39443},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39237},
+							pos: position{line: 1274, col: 5, offset: 39443},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39296},
+							pos:        position{line: 1277, col: 5, offset: 39502},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39303},
+							pos:   position{line: 1277, col: 12, offset: 39509},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39315},
+								pos:  position{line: 1277, col: 24, offset: 39521},
 								name: "InlineAttributes",
 							},
 						},
@@ -18809,33 +18979,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39603},
+			pos:  position{line: 1284, col: 1, offset: 39809},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39622},
+				pos: position{line: 1285, col: 5, offset: 39828},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39622},
+					pos: position{line: 1285, col: 5, offset: 39828},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39622},
+							pos: position{line: 1285, col: 5, offset: 39828},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39681},
+							pos:        position{line: 1288, col: 5, offset: 39887},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39689},
+							pos:   position{line: 1288, col: 13, offset: 39895},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 7, offset: 89891},
+								pos: position{line: 2846, col: 7, offset: 90241},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2837, col: 7, offset: 89891},
+									pos: position{line: 2846, col: 7, offset: 90241},
 									expr: &charClassMatcher{
-										pos:        position{line: 2837, col: 7, offset: 89891},
+										pos:        position{line: 2846, col: 7, offset: 90241},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18845,10 +19015,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39697},
+							pos:   position{line: 1288, col: 21, offset: 39903},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39709},
+								pos:  position{line: 1288, col: 33, offset: 39915},
 								name: "InlineAttributes",
 							},
 						},
@@ -18858,29 +19028,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40008},
+			pos:  position{line: 1295, col: 1, offset: 40214},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40021},
+				pos: position{line: 1295, col: 14, offset: 40227},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40021},
+					pos: position{line: 1295, col: 14, offset: 40227},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40021},
+							pos:        position{line: 1295, col: 14, offset: 40227},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40026},
+							pos:   position{line: 1295, col: 19, offset: 40232},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40032},
+								pos:  position{line: 1295, col: 25, offset: 40238},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40050},
+							pos:        position{line: 1295, col: 43, offset: 40256},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -18891,25 +19061,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40119},
+			pos:  position{line: 1299, col: 1, offset: 40325},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40139},
+				pos: position{line: 1299, col: 21, offset: 40345},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40139},
+					pos:   position{line: 1299, col: 21, offset: 40345},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40148},
+						pos: position{line: 1299, col: 30, offset: 40354},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40149},
+							pos: position{line: 1299, col: 31, offset: 40355},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2755, col: 14, offset: 87758},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2755, col: 14, offset: 87758},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2755, col: 14, offset: 87758},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18918,14 +19088,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40161},
+									pos:  position{line: 1299, col: 43, offset: 40367},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2861, col: 10, offset: 90589},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2861, col: 10, offset: 90589},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18933,23 +19103,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2458, col: 5, offset: 79120},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2458, col: 5, offset: 79120},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2458, col: 5, offset: 79120},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78846},
+												pos:   position{line: 2461, col: 5, offset: 79196},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78864},
+													pos: position{line: 2462, col: 9, offset: 79214},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78865},
+														pos:        position{line: 2462, col: 10, offset: 79215},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18961,27 +19131,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36972},
+									pos: position{line: 1206, col: 23, offset: 37178},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37178},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1204, col: 32, offset: 37146},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37000},
+												pos:   position{line: 1206, col: 51, offset: 37206},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37005},
+													pos: position{line: 1206, col: 56, offset: 37211},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37211},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37005},
+															pos:        position{line: 1206, col: 56, offset: 37211},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -18991,7 +19161,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1204, col: 32, offset: 37146},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19000,22 +19170,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40222},
+									pos: position{line: 1299, col: 104, offset: 40428},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40223},
+										pos: position{line: 1299, col: 105, offset: 40429},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40223},
+												pos: position{line: 1299, col: 105, offset: 40429},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40224},
+													pos:        position{line: 1299, col: 106, offset: 40430},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40229,
+												line: 1299, col: 111, offset: 40435,
 											},
 										},
 									},
@@ -19028,65 +19198,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40938},
+			pos:  position{line: 1319, col: 1, offset: 41144},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40957},
+				pos: position{line: 1320, col: 5, offset: 41163},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40957},
+					pos: position{line: 1320, col: 5, offset: 41163},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40957},
+							pos:        position{line: 1320, col: 5, offset: 41163},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40967},
+							pos:   position{line: 1320, col: 15, offset: 41173},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2819, col: 13, offset: 89348},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2819, col: 13, offset: 89348},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2819, col: 13, offset: 89348},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2819, col: 20, offset: 89355},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2827, col: 11, offset: 89594},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2827, col: 12, offset: 89595},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2827, col: 12, offset: 89595},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2827, col: 24, offset: 89607},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2827, col: 37, offset: 89620},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2827, col: 48, offset: 89631},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2827, col: 59, offset: 89642},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19097,38 +19267,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2819, col: 30, offset: 89365},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2832, col: 5, offset: 89706},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2832, col: 5, offset: 89706},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2832, col: 14, offset: 89715},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2833, col: 9, offset: 89725},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2833, col: 9, offset: 89725},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2833, col: 10, offset: 89726},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2834, col: 9, offset: 89754},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2834, col: 10, offset: 89755},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19139,27 +19309,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2837, col: 11, offset: 89967},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2837, col: 11, offset: 89967},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2837, col: 19, offset: 89975},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2837, col: 21, offset: 89977},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2861, col: 10, offset: 90589},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19168,11 +19338,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2837, col: 28, offset: 89984},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -19528,27 +19698,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1206, col: 23, offset: 37178},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1206, col: 23, offset: 37178},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37146},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1206, col: 51, offset: 37206},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1206, col: 56, offset: 37211},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1206, col: 56, offset: 37211},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1206, col: 56, offset: 37211},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19558,7 +19728,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37146},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19567,10 +19737,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2840, col: 11, offset: 90104},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2840, col: 11, offset: 90104},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19587,20 +19757,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40983},
+							pos:   position{line: 1320, col: 31, offset: 41189},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 40995},
+								pos:  position{line: 1320, col: 43, offset: 41201},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41013},
+							pos: position{line: 1320, col: 61, offset: 41219},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19609,28 +19779,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19639,9 +19809,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -19652,74 +19822,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41230},
+			pos:  position{line: 1325, col: 1, offset: 41436},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41245},
+				pos: position{line: 1325, col: 16, offset: 41451},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41245},
+					pos: position{line: 1325, col: 16, offset: 41451},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41245},
+							pos:        position{line: 1325, col: 16, offset: 41451},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41254},
+							pos: position{line: 1325, col: 25, offset: 41460},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41255},
+								pos:        position{line: 1325, col: 26, offset: 41461},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41259},
+							pos:   position{line: 1325, col: 30, offset: 41465},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2819, col: 13, offset: 89348},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2819, col: 13, offset: 89348},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2819, col: 13, offset: 89348},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2819, col: 20, offset: 89355},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2827, col: 11, offset: 89594},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2827, col: 12, offset: 89595},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2827, col: 12, offset: 89595},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2827, col: 24, offset: 89607},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2827, col: 37, offset: 89620},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2827, col: 48, offset: 89631},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2827, col: 59, offset: 89642},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19730,38 +19900,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2819, col: 30, offset: 89365},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2832, col: 5, offset: 89706},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2832, col: 5, offset: 89706},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2832, col: 14, offset: 89715},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2833, col: 9, offset: 89725},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2833, col: 9, offset: 89725},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2833, col: 10, offset: 89726},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2834, col: 9, offset: 89754},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2834, col: 10, offset: 89755},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19772,27 +19942,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2837, col: 11, offset: 89967},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2837, col: 11, offset: 89967},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2837, col: 19, offset: 89975},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2837, col: 21, offset: 89977},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2861, col: 10, offset: 90589},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19801,11 +19971,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2837, col: 28, offset: 89984},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -20161,27 +20331,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1206, col: 23, offset: 37178},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1206, col: 23, offset: 37178},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37146},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1206, col: 51, offset: 37206},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1206, col: 56, offset: 37211},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1206, col: 56, offset: 37211},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1206, col: 56, offset: 37211},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20191,7 +20361,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37146},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20200,10 +20370,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2840, col: 11, offset: 90104},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2840, col: 11, offset: 90104},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20220,10 +20390,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41275},
+							pos:   position{line: 1325, col: 46, offset: 41481},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41287},
+								pos:  position{line: 1325, col: 58, offset: 41493},
 								name: "InlineAttributes",
 							},
 						},
@@ -20233,29 +20403,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41683},
+			pos:  position{line: 1332, col: 1, offset: 41889},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41697},
+				pos: position{line: 1332, col: 15, offset: 41903},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41697},
+					pos: position{line: 1332, col: 15, offset: 41903},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41697},
+							pos:        position{line: 1332, col: 15, offset: 41903},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41705},
+							pos:   position{line: 1332, col: 23, offset: 41911},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41711},
+								pos: position{line: 1332, col: 29, offset: 41917},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41711},
+									pos: position{line: 1332, col: 29, offset: 41917},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41711},
+										pos:        position{line: 1332, col: 29, offset: 41917},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20266,10 +20436,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41755},
+							pos:   position{line: 1332, col: 73, offset: 41961},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41767},
+								pos:  position{line: 1332, col: 85, offset: 41973},
 								name: "InlineAttributes",
 							},
 						},
@@ -20279,31 +20449,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42133},
+			pos:  position{line: 1339, col: 1, offset: 42339},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42151},
+				pos: position{line: 1339, col: 19, offset: 42357},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42151},
+					pos: position{line: 1339, col: 19, offset: 42357},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42151},
+							pos:        position{line: 1339, col: 19, offset: 42357},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42163},
+							pos:   position{line: 1339, col: 31, offset: 42369},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42167},
+								pos: position{line: 1339, col: 35, offset: 42373},
 								expr: &actionExpr{
-									pos: position{line: 1335, col: 16, offset: 42327},
+									pos: position{line: 1343, col: 16, offset: 42533},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1335, col: 16, offset: 42327},
+										pos: position{line: 1343, col: 16, offset: 42533},
 										expr: &charClassMatcher{
-											pos:        position{line: 1335, col: 16, offset: 42327},
+											pos:        position{line: 1343, col: 16, offset: 42533},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20315,21 +20485,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42182},
+							pos:        position{line: 1339, col: 50, offset: 42388},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42186},
+							pos:   position{line: 1339, col: 54, offset: 42392},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42196},
+								pos:  position{line: 1339, col: 64, offset: 42402},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42214},
+							pos:        position{line: 1339, col: 82, offset: 42420},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20340,17 +20510,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42371},
+			pos:  position{line: 1345, col: 1, offset: 42577},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42391},
+				pos: position{line: 1345, col: 21, offset: 42597},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42391},
+					pos:   position{line: 1345, col: 21, offset: 42597},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42400},
+						pos: position{line: 1345, col: 30, offset: 42606},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42401},
+							pos:  position{line: 1345, col: 31, offset: 42607},
 							name: "FootnoteElement",
 						},
 					},
@@ -20359,44 +20529,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42493},
+			pos:  position{line: 1349, col: 1, offset: 42699},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42517},
+				pos: position{line: 1350, col: 5, offset: 42723},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42517},
+					pos: position{line: 1350, col: 5, offset: 42723},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42517},
+							pos: position{line: 1350, col: 5, offset: 42723},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42518},
+								pos:        position{line: 1350, col: 6, offset: 42724},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42527},
+							pos:   position{line: 1351, col: 5, offset: 42733},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42545},
+								pos: position{line: 1352, col: 9, offset: 42751},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2760, col: 5, offset: 87831},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2760, col: 5, offset: 87831},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2760, col: 5, offset: 87831},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2760, col: 11, offset: 87837},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2760, col: 11, offset: 87837},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2760, col: 11, offset: 87837},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20406,36 +20576,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2763, col: 5, offset: 87895},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2764, col: 9, offset: 87906},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2764, col: 9, offset: 87906},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2765, col: 9, offset: 87955},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2769, col: 5, offset: 88035},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2770, col: 9, offset: 88046},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2770, col: 9, offset: 88046},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2770, col: 13, offset: 88050},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20448,12 +20618,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2865, col: 11, offset: 90650},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2865, col: 11, offset: 90650},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2865, col: 11, offset: 90650},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20462,21 +20632,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2489, col: 5, offset: 80291},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2489, col: 5, offset: 80291},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2489, col: 5, offset: 80291},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2489, col: 10, offset: 80296},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2489, col: 11, offset: 80297},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20487,29 +20657,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2495, col: 5, offset: 80489},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2495, col: 5, offset: 80489},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2495, col: 5, offset: 80489},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2498, col: 5, offset: 80560},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2502, col: 5, offset: 80685},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2502, col: 9, offset: 80689},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2502, col: 10, offset: 80690},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20520,35 +20690,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42612},
+										pos:  position{line: 1355, col: 11, offset: 42818},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42628},
+										pos:  position{line: 1356, col: 11, offset: 42834},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2778, col: 5, offset: 88243},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2779, col: 9, offset: 88253},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2779, col: 10, offset: 88254},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2781, col: 13, offset: 88351},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2781, col: 13, offset: 88351},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2784, col: 13, offset: 88451},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20556,20 +20726,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2784, col: 19, offset: 88457},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2787, col: 13, offset: 88495},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2787, col: 13, offset: 88495},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2790, col: 14, offset: 88588},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20578,18 +20748,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2792, col: 12, offset: 88632},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2792, col: 12, offset: 88632},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2792, col: 16, offset: 88636},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2792, col: 17, offset: 88637},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20601,36 +20771,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42701},
+										pos:  position{line: 1358, col: 11, offset: 42907},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37418},
+										pos: position{line: 1214, col: 5, offset: 37624},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37418},
+											pos: position{line: 1214, col: 5, offset: 37624},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37418},
+													pos: position{line: 1214, col: 5, offset: 37624},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37494},
+													pos:        position{line: 1217, col: 5, offset: 37700},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37502},
+													pos: position{line: 1218, col: 5, offset: 37708},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37589},
+													pos: position{line: 1222, col: 5, offset: 37795},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20639,30 +20809,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37596},
+													pos: position{line: 1222, col: 12, offset: 37802},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20671,9 +20841,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -21029,23 +21199,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2458, col: 5, offset: 79120},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2458, col: 5, offset: 79120},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2461, col: 5, offset: 79196},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2462, col: 9, offset: 79214},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2462, col: 10, offset: 79215},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21057,25 +21227,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2870, col: 12, offset: 90760},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2870, col: 13, offset: 90761},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2870, col: 13, offset: 90761},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2870, col: 20, offset: 90768},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2870, col: 29, offset: 90777},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21084,10 +21254,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2800, col: 12, offset: 88897},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2800, col: 12, offset: 88897},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21103,32 +21273,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44546},
+			pos:  position{line: 1397, col: 1, offset: 44752},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44566},
+				pos: position{line: 1397, col: 21, offset: 44772},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44566},
+						pos: position{line: 1397, col: 21, offset: 44772},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44566},
+							pos: position{line: 1397, col: 21, offset: 44772},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44566},
+									pos:        position{line: 1397, col: 21, offset: 44772},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44575},
+									pos:   position{line: 1397, col: 30, offset: 44781},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44583},
+										pos: position{line: 1397, col: 38, offset: 44789},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44909},
+											pos: position{line: 1403, col: 30, offset: 45115},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44909},
+												pos:        position{line: 1403, col: 30, offset: 45115},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21138,7 +21308,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44612},
+									pos:        position{line: 1397, col: 67, offset: 44818},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21147,34 +21317,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44716},
+						pos: position{line: 1399, col: 9, offset: 44922},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44716},
+							pos: position{line: 1399, col: 9, offset: 44922},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44716},
+									pos:        position{line: 1399, col: 9, offset: 44922},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44726},
+									pos:   position{line: 1399, col: 19, offset: 44932},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44734},
+										pos: position{line: 1399, col: 27, offset: 44940},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44735},
+											pos: position{line: 1399, col: 28, offset: 44941},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44735},
+													pos:  position{line: 1399, col: 28, offset: 44941},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44909},
+													pos: position{line: 1403, col: 30, offset: 45115},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44909},
+														pos:        position{line: 1403, col: 30, offset: 45115},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21186,7 +21356,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44776},
+									pos:        position{line: 1399, col: 69, offset: 44982},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21199,75 +21369,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45165},
+			pos:  position{line: 1410, col: 1, offset: 45371},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45173},
+				pos: position{line: 1410, col: 9, offset: 45379},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45242},
+						pos: position{line: 1413, col: 5, offset: 45448},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45242},
+							pos: position{line: 1413, col: 5, offset: 45448},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45242},
+									pos:        position{line: 1413, col: 5, offset: 45448},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45251},
+									pos:   position{line: 1414, col: 5, offset: 45457},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2823, col: 23, offset: 89475},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2823, col: 23, offset: 89475},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2823, col: 23, offset: 89475},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2823, col: 24, offset: 89476},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2823, col: 28, offset: 89480},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2827, col: 11, offset: 89594},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2827, col: 12, offset: 89595},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2827, col: 12, offset: 89595},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2827, col: 24, offset: 89607},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2827, col: 37, offset: 89620},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2827, col: 48, offset: 89631},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2827, col: 59, offset: 89642},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21277,38 +21447,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2823, col: 44, offset: 89496},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21319,27 +21489,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21348,11 +21518,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -21708,27 +21878,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21738,7 +21908,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21747,10 +21917,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21767,7 +21937,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45470},
+									pos:        position{line: 1419, col: 5, offset: 45676},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21776,38 +21946,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45183},
+						pos:  position{line: 1410, col: 19, offset: 45389},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45198},
+						pos:  position{line: 1410, col: 34, offset: 45404},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46463},
+						pos: position{line: 1448, col: 17, offset: 46669},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46463},
+							pos: position{line: 1448, col: 17, offset: 46669},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46463},
+									pos:   position{line: 1448, col: 17, offset: 46669},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46628},
+										pos: position{line: 1453, col: 5, offset: 46834},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46628},
+											pos: position{line: 1453, col: 5, offset: 46834},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46628},
+													pos:   position{line: 1453, col: 5, offset: 46834},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46635},
+														pos: position{line: 1453, col: 12, offset: 46841},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46635},
+															pos: position{line: 1453, col: 12, offset: 46841},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46635},
+																pos:        position{line: 1453, col: 12, offset: 46841},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21819,7 +21989,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46719},
+													pos: position{line: 1456, col: 5, offset: 46925},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21827,33 +21997,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46489},
+									pos:        position{line: 1448, col: 43, offset: 46695},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46493},
+									pos:   position{line: 1448, col: 47, offset: 46699},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47013},
+										pos: position{line: 1465, col: 23, offset: 47219},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47013},
+											pos: position{line: 1465, col: 23, offset: 47219},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47013},
+													pos:   position{line: 1465, col: 23, offset: 47219},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47021},
+														pos: position{line: 1465, col: 31, offset: 47227},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47021},
+															pos: position{line: 1465, col: 31, offset: 47227},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47021},
+																	pos: position{line: 1465, col: 31, offset: 47227},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47021},
+																		pos:        position{line: 1465, col: 31, offset: 47227},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21861,20 +22031,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47031},
+																	pos: position{line: 1465, col: 41, offset: 47237},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47032},
+																		pos: position{line: 1465, col: 42, offset: 47238},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47032},
+																				pos:        position{line: 1465, col: 42, offset: 47238},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47036},
+																				pos: position{line: 1465, col: 46, offset: 47242},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47036},
+																					pos:        position{line: 1465, col: 46, offset: 47242},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21890,7 +22060,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47097},
+													pos: position{line: 1468, col: 5, offset: 47303},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -21905,68 +22075,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45618},
+			pos:  position{line: 1425, col: 1, offset: 45824},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45654},
+				pos: position{line: 1427, col: 5, offset: 45860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45654},
+						pos: position{line: 1427, col: 5, offset: 45860},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45654},
+							pos: position{line: 1427, col: 5, offset: 45860},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45654},
+									pos:        position{line: 1427, col: 5, offset: 45860},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45666},
+									pos:   position{line: 1427, col: 17, offset: 45872},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2819, col: 13, offset: 89348},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2819, col: 13, offset: 89348},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2819, col: 13, offset: 89348},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2819, col: 20, offset: 89355},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2827, col: 11, offset: 89594},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2827, col: 12, offset: 89595},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2827, col: 12, offset: 89595},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2827, col: 24, offset: 89607},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2827, col: 37, offset: 89620},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2827, col: 48, offset: 89631},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2827, col: 59, offset: 89642},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21977,38 +22147,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2819, col: 30, offset: 89365},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22019,27 +22189,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22048,11 +22218,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -22408,27 +22578,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22438,7 +22608,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22447,10 +22617,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22467,10 +22637,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45681},
+									pos:   position{line: 1427, col: 32, offset: 45887},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45693},
+										pos:  position{line: 1427, col: 44, offset: 45899},
 										name: "InlineAttributes",
 									},
 								},
@@ -22478,63 +22648,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45825},
+						pos: position{line: 1432, col: 5, offset: 46031},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45825},
+							pos: position{line: 1432, col: 5, offset: 46031},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45825},
+									pos:        position{line: 1432, col: 5, offset: 46031},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45833},
+									pos:   position{line: 1432, col: 13, offset: 46039},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2819, col: 13, offset: 89348},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2819, col: 13, offset: 89348},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2819, col: 13, offset: 89348},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2819, col: 20, offset: 89355},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2827, col: 11, offset: 89594},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2827, col: 12, offset: 89595},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2827, col: 12, offset: 89595},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2827, col: 24, offset: 89607},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2827, col: 37, offset: 89620},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2827, col: 48, offset: 89631},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2827, col: 59, offset: 89642},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22545,38 +22715,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2819, col: 30, offset: 89365},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22587,27 +22757,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22616,11 +22786,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -22976,27 +23146,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23006,7 +23176,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23015,10 +23185,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23035,10 +23205,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45848},
+									pos:   position{line: 1432, col: 28, offset: 46054},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45860},
+										pos:  position{line: 1432, col: 40, offset: 46066},
 										name: "InlineAttributes",
 									},
 								},
@@ -23050,75 +23220,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45976},
+			pos:  position{line: 1436, col: 1, offset: 46182},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46138},
+				pos: position{line: 1439, col: 5, offset: 46344},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46138},
+						pos: position{line: 1439, col: 5, offset: 46344},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46138},
+							pos: position{line: 1439, col: 5, offset: 46344},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46138},
+									pos:        position{line: 1439, col: 5, offset: 46344},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46142},
+									pos:   position{line: 1439, col: 9, offset: 46348},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2823, col: 23, offset: 89475},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2823, col: 23, offset: 89475},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2823, col: 23, offset: 89475},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2823, col: 24, offset: 89476},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2823, col: 28, offset: 89480},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2827, col: 11, offset: 89594},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2827, col: 12, offset: 89595},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2827, col: 12, offset: 89595},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2827, col: 24, offset: 89607},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2827, col: 37, offset: 89620},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2827, col: 48, offset: 89631},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2827, col: 59, offset: 89642},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23128,38 +23298,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2823, col: 44, offset: 89496},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23170,27 +23340,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23199,11 +23369,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -23559,27 +23729,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23589,7 +23759,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23598,10 +23768,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23618,12 +23788,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46167},
+									pos:   position{line: 1439, col: 34, offset: 46373},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46178},
+										pos: position{line: 1439, col: 45, offset: 46384},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46179},
+											pos:  position{line: 1439, col: 46, offset: 46385},
 											name: "InlineAttributes",
 										},
 									},
@@ -23632,64 +23802,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46312},
+						pos: position{line: 1444, col: 5, offset: 46518},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46312},
+							pos: position{line: 1444, col: 5, offset: 46518},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46312},
+									pos:   position{line: 1444, col: 5, offset: 46518},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2823, col: 23, offset: 89475},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2823, col: 23, offset: 89475},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2823, col: 23, offset: 89475},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2823, col: 24, offset: 89476},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2823, col: 28, offset: 89480},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2827, col: 11, offset: 89594},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2827, col: 12, offset: 89595},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2827, col: 12, offset: 89595},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2827, col: 24, offset: 89607},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2827, col: 37, offset: 89620},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2827, col: 48, offset: 89631},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2827, col: 59, offset: 89642},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23699,38 +23869,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2823, col: 44, offset: 89496},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2832, col: 5, offset: 89706},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2832, col: 5, offset: 89706},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2832, col: 14, offset: 89715},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2833, col: 9, offset: 89725},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2833, col: 9, offset: 89725},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2833, col: 9, offset: 89725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2833, col: 9, offset: 89725},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2833, col: 10, offset: 89726},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2834, col: 9, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2834, col: 10, offset: 89755},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23741,27 +23911,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2837, col: 11, offset: 89967},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2837, col: 11, offset: 89967},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2837, col: 19, offset: 89975},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2837, col: 21, offset: 89977},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2837, col: 21, offset: 89977},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2861, col: 10, offset: 90589},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23770,11 +23940,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2837, col: 28, offset: 89984},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -24130,27 +24300,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37178},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37178},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37206},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37211},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37211},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24160,7 +24330,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37146},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24169,10 +24339,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2840, col: 11, offset: 90104},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2840, col: 11, offset: 90104},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24189,12 +24359,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46337},
+									pos:   position{line: 1444, col: 30, offset: 46543},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46348},
+										pos: position{line: 1444, col: 41, offset: 46554},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46349},
+											pos:  position{line: 1444, col: 42, offset: 46555},
 											name: "InlineAttributes",
 										},
 									},
@@ -24207,41 +24377,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47490},
+			pos:  position{line: 1478, col: 1, offset: 47696},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47511},
+				pos: position{line: 1479, col: 5, offset: 47717},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47511},
+					pos: position{line: 1479, col: 5, offset: 47717},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47511},
+							pos:   position{line: 1479, col: 5, offset: 47717},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1485, col: 5, offset: 47919},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1578, col: 5, offset: 50893},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1578, col: 5, offset: 50893},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1578, col: 5, offset: 50893},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51101},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51101},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24250,27 +24420,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51108},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51171},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51171},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51171},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51171},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51178},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51178},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51179},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24279,22 +24449,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51279},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51996},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51996},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51996},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51997},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24302,7 +24472,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 52005},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24311,20 +24481,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52122},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52122},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52123},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52130},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24333,20 +24503,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52250},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52250},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52251},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52258},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24355,15 +24525,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52378},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52378},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52378},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52379},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24371,7 +24541,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52391},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24380,15 +24550,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52511},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52511},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52511},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52512},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24396,7 +24566,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52524},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24408,12 +24578,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24426,26 +24596,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1579, col: 5, offset: 50932},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24456,28 +24626,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24486,9 +24656,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -24501,27 +24671,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1628, col: 5, offset: 52790},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1628, col: 5, offset: 52790},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1628, col: 5, offset: 52790},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53063},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53063},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53063},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24530,24 +24700,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53075},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53091},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53092},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53093},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53100},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53101},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24558,16 +24728,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53191},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24580,56 +24750,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1629, col: 5, offset: 52831},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1629, col: 16, offset: 52842},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1650, col: 5, offset: 53456},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1650, col: 5, offset: 53456},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1650, col: 5, offset: 53456},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1650, col: 6, offset: 53457},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1650, col: 10, offset: 53461},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1651, col: 7, offset: 53475},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1651, col: 7, offset: 53475},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1651, col: 7, offset: 53475},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1652, col: 7, offset: 53520},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1652, col: 7, offset: 53520},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1653, col: 7, offset: 53563},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1653, col: 7, offset: 53563},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24639,12 +24809,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2865, col: 11, offset: 90650},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2865, col: 11, offset: 90650},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24658,26 +24828,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1630, col: 5, offset: 52881},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24688,28 +24858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24718,9 +24888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -24733,36 +24903,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1718, col: 5, offset: 55403},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1718, col: 5, offset: 55403},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1718, col: 5, offset: 55403},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55600},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55600},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55600},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55604},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55609},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55609},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55609},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24772,18 +24942,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55657},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24796,26 +24966,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1719, col: 5, offset: 55439},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24826,28 +24996,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24856,9 +25026,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -24871,40 +25041,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1662, col: 5, offset: 53756},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1662, col: 5, offset: 53756},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1662, col: 5, offset: 53756},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1670, col: 5, offset: 54082},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1670, col: 5, offset: 54082},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1670, col: 6, offset: 54083},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54083},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1675, col: 5, offset: 54233},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54233},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1675, col: 5, offset: 54233},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1675, col: 16, offset: 54244},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54244},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1675, col: 17, offset: 54245},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -24913,7 +25083,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1678, col: 5, offset: 54302},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -24921,30 +25091,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1670, col: 35, offset: 54112},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24953,16 +25123,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1670, col: 40, offset: 54117,
 																	},
 																},
 															},
@@ -24970,24 +25140,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1663, col: 5, offset: 53791},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1675, col: 5, offset: 54233},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1675, col: 5, offset: 54233},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1675, col: 5, offset: 54233},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1675, col: 16, offset: 54244},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1675, col: 16, offset: 54244},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1675, col: 17, offset: 54245},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24996,7 +25166,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1678, col: 5, offset: 54302},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25004,24 +25174,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1664, col: 5, offset: 53836},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1686, col: 5, offset: 54551},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1688, col: 9, offset: 54617},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1688, col: 9, offset: 54617},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1688, col: 9, offset: 54617},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25030,28 +25200,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25060,15 +25230,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1689, col: 9, offset: 54636},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListElements193,
@@ -25076,18 +25246,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25096,28 +25266,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25126,9 +25296,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -25141,18 +25311,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1695, col: 9, offset: 54765},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1695, col: 9, offset: 54765},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2865, col: 11, offset: 90650},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2865, col: 11, offset: 90650},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2865, col: 11, offset: 90650},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25161,15 +25331,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1696, col: 9, offset: 54838},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1696, col: 18, offset: 54847},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1696, col: 18, offset: 54847},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1696, col: 18, offset: 54847},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25179,28 +25349,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25209,9 +25379,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -25229,10 +25399,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47542},
+							pos:   position{line: 1480, col: 5, offset: 47748},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47557},
+								pos:  position{line: 1480, col: 20, offset: 47763},
 								name: "ExtraListElements",
 							},
 						},
@@ -25242,17 +25412,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47812},
+			pos:  position{line: 1490, col: 1, offset: 48018},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47833},
+				pos: position{line: 1490, col: 22, offset: 48039},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47833},
+					pos:   position{line: 1490, col: 22, offset: 48039},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47842},
+						pos: position{line: 1490, col: 31, offset: 48048},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47843},
+							pos:  position{line: 1490, col: 32, offset: 48049},
 							name: "ExtraListElement",
 						},
 					},
@@ -25261,33 +25431,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47923},
+			pos:  position{line: 1494, col: 1, offset: 48129},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48062},
+				pos: position{line: 1495, col: 5, offset: 48268},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48062},
+					pos: position{line: 1495, col: 5, offset: 48268},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48074},
+							pos:   position{line: 1496, col: 5, offset: 48280},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48092},
+								pos: position{line: 1497, col: 9, offset: 48298},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48096},
+										pos: position{line: 1497, col: 13, offset: 48302},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48096},
+											pos: position{line: 1497, col: 13, offset: 48302},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48096},
+													pos: position{line: 1497, col: 13, offset: 48302},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement10,
@@ -25295,18 +25465,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2878, col: 11, offset: 90923},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2878, col: 13, offset: 90925,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25315,28 +25485,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25345,9 +25515,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -25357,33 +25527,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48120},
+													pos:   position{line: 1498, col: 13, offset: 48326},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48129},
+														pos: position{line: 1498, col: 22, offset: 48335},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1578, col: 5, offset: 50893},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1578, col: 5, offset: 50893},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1578, col: 5, offset: 50893},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1585, col: 5, offset: 51101},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51101},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1585, col: 5, offset: 51101},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25392,27 +25562,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1585, col: 12, offset: 51108},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1587, col: 9, offset: 51171},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1587, col: 9, offset: 51171},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1587, col: 9, offset: 51171},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1587, col: 9, offset: 51171},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1587, col: 16, offset: 51178},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1587, col: 16, offset: 51178},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1587, col: 17, offset: 51179},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25421,22 +25591,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1591, col: 9, offset: 51279},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1610, col: 11, offset: 51996},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51996},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1610, col: 11, offset: 51996},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1610, col: 12, offset: 51997},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25444,7 +25614,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1610, col: 20, offset: 52005},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25453,20 +25623,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1612, col: 13, offset: 52122},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1612, col: 13, offset: 52122},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1612, col: 14, offset: 52123},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1612, col: 21, offset: 52130},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25475,20 +25645,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1614, col: 13, offset: 52250},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1614, col: 13, offset: 52250},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1614, col: 14, offset: 52251},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1614, col: 21, offset: 52258},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25497,15 +25667,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1616, col: 13, offset: 52378},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52378},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1616, col: 13, offset: 52378},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1616, col: 14, offset: 52379},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25513,7 +25683,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1616, col: 26, offset: 52391},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25522,15 +25692,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1618, col: 13, offset: 52511},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52511},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1618, col: 13, offset: 52511},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1618, col: 14, offset: 52512},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25538,7 +25708,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1618, col: 26, offset: 52524},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25550,12 +25720,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25568,26 +25738,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1579, col: 5, offset: 50932},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25598,28 +25768,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25628,9 +25798,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -25643,27 +25813,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1628, col: 5, offset: 52790},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1628, col: 5, offset: 52790},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1628, col: 5, offset: 52790},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1635, col: 5, offset: 53063},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53063},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1635, col: 5, offset: 53063},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25672,24 +25842,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1636, col: 5, offset: 53075},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1637, col: 9, offset: 53091},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1637, col: 10, offset: 53092},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1637, col: 11, offset: 53093},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1637, col: 18, offset: 53100},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1637, col: 19, offset: 53101},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25700,16 +25870,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1640, col: 7, offset: 53191},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25722,56 +25892,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1629, col: 5, offset: 52831},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1629, col: 16, offset: 52842},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1650, col: 5, offset: 53456},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1650, col: 5, offset: 53456},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1650, col: 5, offset: 53456},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1650, col: 6, offset: 53457},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1650, col: 10, offset: 53461},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1651, col: 7, offset: 53475},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1651, col: 7, offset: 53475},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1651, col: 7, offset: 53475},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1652, col: 7, offset: 53520},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1652, col: 7, offset: 53520},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1653, col: 7, offset: 53563},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1653, col: 7, offset: 53563},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25781,12 +25951,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2865, col: 11, offset: 90650},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2865, col: 11, offset: 90650},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25800,26 +25970,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1630, col: 5, offset: 52881},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25830,28 +26000,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25860,9 +26030,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -25875,36 +26045,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1718, col: 5, offset: 55403},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1718, col: 5, offset: 55403},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1718, col: 5, offset: 55403},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1724, col: 5, offset: 55600},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1724, col: 5, offset: 55600},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1724, col: 5, offset: 55600},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1724, col: 9, offset: 55604},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1724, col: 14, offset: 55609},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1724, col: 14, offset: 55609},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1724, col: 14, offset: 55609},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25914,18 +26084,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1724, col: 62, offset: 55657},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25938,26 +26108,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1719, col: 5, offset: 55439},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25968,28 +26138,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25998,9 +26168,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -26013,40 +26183,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1662, col: 5, offset: 53756},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1662, col: 5, offset: 53756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1662, col: 5, offset: 53756},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1670, col: 5, offset: 54082},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54082},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54083},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54083},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1675, col: 5, offset: 54233},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54233},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54233},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1675, col: 16, offset: 54244},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54244},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54245},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26055,7 +26225,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1678, col: 5, offset: 54302},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26063,30 +26233,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54112},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26095,16 +26265,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54117,
 																							},
 																						},
 																					},
@@ -26112,24 +26282,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1663, col: 5, offset: 53791},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54233},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54233},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54233},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54244},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54245},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26138,7 +26308,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1678, col: 5, offset: 54302},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26146,24 +26316,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1664, col: 5, offset: 53836},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1686, col: 5, offset: 54551},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1688, col: 9, offset: 54617},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1688, col: 9, offset: 54617},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1688, col: 9, offset: 54617},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2861, col: 10, offset: 90589},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2861, col: 10, offset: 90589},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26172,28 +26342,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26202,15 +26372,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1689, col: 9, offset: 54636},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement215,
@@ -26218,18 +26388,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2878, col: 11, offset: 90923},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2878, col: 13, offset: 90925,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2861, col: 10, offset: 90589},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2861, col: 10, offset: 90589},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26238,28 +26408,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2883, col: 8, offset: 90987},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2870, col: 12, offset: 90760},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2870, col: 13, offset: 90761},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26268,9 +26438,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2880, col: 8, offset: 90937},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
@@ -26283,18 +26453,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1695, col: 9, offset: 54765},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1695, col: 9, offset: 54765},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2865, col: 11, offset: 90650},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2865, col: 11, offset: 90650},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2865, col: 11, offset: 90650},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26303,15 +26473,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1696, col: 9, offset: 54838},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1696, col: 18, offset: 54847},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1696, col: 18, offset: 54847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1696, col: 18, offset: 54847},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26321,28 +26491,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26351,9 +26521,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
@@ -26374,50 +26544,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48280},
+										pos: position{line: 1501, col: 13, offset: 48486},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48280},
+											pos: position{line: 1501, col: 13, offset: 48486},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48280},
+													pos:   position{line: 1501, col: 13, offset: 48486},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48291},
+														pos: position{line: 1501, col: 24, offset: 48497},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48292},
+															pos:  position{line: 1501, col: 25, offset: 48498},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48323},
+													pos:   position{line: 1502, col: 13, offset: 48529},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48332},
+														pos: position{line: 1502, col: 22, offset: 48538},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1578, col: 5, offset: 50893},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1578, col: 5, offset: 50893},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1578, col: 5, offset: 50893},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1585, col: 5, offset: 51101},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51101},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1585, col: 5, offset: 51101},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26426,27 +26596,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1585, col: 12, offset: 51108},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1587, col: 9, offset: 51171},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1587, col: 9, offset: 51171},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1587, col: 9, offset: 51171},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1587, col: 9, offset: 51171},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1587, col: 16, offset: 51178},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1587, col: 16, offset: 51178},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1587, col: 17, offset: 51179},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26455,22 +26625,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1591, col: 9, offset: 51279},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1610, col: 11, offset: 51996},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51996},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1610, col: 11, offset: 51996},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1610, col: 12, offset: 51997},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26478,7 +26648,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1610, col: 20, offset: 52005},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26487,20 +26657,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1612, col: 13, offset: 52122},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1612, col: 13, offset: 52122},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1612, col: 14, offset: 52123},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1612, col: 21, offset: 52130},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26509,20 +26679,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1614, col: 13, offset: 52250},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1614, col: 13, offset: 52250},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1614, col: 14, offset: 52251},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1614, col: 21, offset: 52258},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26531,15 +26701,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1616, col: 13, offset: 52378},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52378},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1616, col: 13, offset: 52378},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1616, col: 14, offset: 52379},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26547,7 +26717,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1616, col: 26, offset: 52391},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26556,15 +26726,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1618, col: 13, offset: 52511},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52511},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1618, col: 13, offset: 52511},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1618, col: 14, offset: 52512},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26572,7 +26742,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1618, col: 26, offset: 52524},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26584,12 +26754,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26602,26 +26772,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1579, col: 5, offset: 50932},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26632,28 +26802,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26662,9 +26832,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -26677,27 +26847,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1628, col: 5, offset: 52790},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1628, col: 5, offset: 52790},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1628, col: 5, offset: 52790},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1635, col: 5, offset: 53063},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53063},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1635, col: 5, offset: 53063},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26706,24 +26876,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1636, col: 5, offset: 53075},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1637, col: 9, offset: 53091},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1637, col: 10, offset: 53092},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1637, col: 11, offset: 53093},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1637, col: 18, offset: 53100},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1637, col: 19, offset: 53101},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26734,16 +26904,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1640, col: 7, offset: 53191},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26756,56 +26926,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1629, col: 5, offset: 52831},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1629, col: 16, offset: 52842},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1650, col: 5, offset: 53456},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1650, col: 5, offset: 53456},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1650, col: 5, offset: 53456},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1650, col: 6, offset: 53457},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1650, col: 10, offset: 53461},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1651, col: 7, offset: 53475},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1651, col: 7, offset: 53475},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1651, col: 7, offset: 53475},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1652, col: 7, offset: 53520},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1652, col: 7, offset: 53520},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1653, col: 7, offset: 53563},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1653, col: 7, offset: 53563},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26815,12 +26985,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2865, col: 11, offset: 90650},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2865, col: 11, offset: 90650},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26834,26 +27004,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1630, col: 5, offset: 52881},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26864,28 +27034,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26894,9 +27064,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -26909,36 +27079,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1718, col: 5, offset: 55403},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1718, col: 5, offset: 55403},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1718, col: 5, offset: 55403},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1724, col: 5, offset: 55600},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1724, col: 5, offset: 55600},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1724, col: 5, offset: 55600},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1724, col: 9, offset: 55604},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1724, col: 14, offset: 55609},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1724, col: 14, offset: 55609},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1724, col: 14, offset: 55609},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26948,18 +27118,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1724, col: 62, offset: 55657},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2865, col: 11, offset: 90650},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26972,26 +27142,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1719, col: 5, offset: 55439},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49399},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49399},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49399},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49408},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49409},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49409},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49409},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27002,28 +27172,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27032,9 +27202,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -27047,40 +27217,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1662, col: 5, offset: 53756},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1662, col: 5, offset: 53756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1662, col: 5, offset: 53756},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1670, col: 5, offset: 54082},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54082},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54083},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54083},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1675, col: 5, offset: 54233},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54233},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54233},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1675, col: 16, offset: 54244},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54244},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54245},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27089,7 +27259,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1678, col: 5, offset: 54302},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27097,30 +27267,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54112},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27129,16 +27299,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54117,
 																							},
 																						},
 																					},
@@ -27146,24 +27316,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1663, col: 5, offset: 53791},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54233},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54233},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54233},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54244},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54245},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27172,7 +27342,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1678, col: 5, offset: 54302},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27180,24 +27350,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1664, col: 5, offset: 53836},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1686, col: 5, offset: 54551},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1688, col: 9, offset: 54617},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1688, col: 9, offset: 54617},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1688, col: 9, offset: 54617},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2861, col: 10, offset: 90589},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2861, col: 10, offset: 90589},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27206,28 +27376,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27236,15 +27406,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1689, col: 9, offset: 54636},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement442,
@@ -27252,18 +27422,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2878, col: 11, offset: 90923},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2878, col: 13, offset: 90925,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2861, col: 10, offset: 90589},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2861, col: 10, offset: 90589},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27272,28 +27442,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2883, col: 8, offset: 90987},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2870, col: 12, offset: 90760},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2870, col: 13, offset: 90761},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27302,9 +27472,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2880, col: 8, offset: 90937},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
@@ -27317,18 +27487,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1695, col: 9, offset: 54765},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1695, col: 9, offset: 54765},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2865, col: 11, offset: 90650},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2865, col: 11, offset: 90650},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2865, col: 11, offset: 90650},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27337,15 +27507,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1696, col: 9, offset: 54838},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1696, col: 18, offset: 54847},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1696, col: 18, offset: 54847},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1696, col: 18, offset: 54847},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27355,28 +27525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2870, col: 12, offset: 90760},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27385,9 +27555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
@@ -27408,40 +27578,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48517},
+										pos:  position{line: 1505, col: 11, offset: 48723},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2471, col: 22, offset: 79574},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2471, col: 22, offset: 79574},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2476, col: 31, offset: 79795},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2476, col: 36, offset: 79800},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2476, col: 37, offset: 79801},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2471, col: 49, offset: 79601},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2807, col: 13, offset: 89115},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2807, col: 13, offset: 89115},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2807, col: 13, offset: 89115},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27451,28 +27621,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27481,9 +27651,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -27492,13 +27662,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48781},
+										pos: position{line: 1513, col: 5, offset: 48987},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48781},
+											pos: position{line: 1513, col: 5, offset: 48987},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48781},
+													pos: position{line: 1513, col: 5, offset: 48987},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27506,18 +27676,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2878, col: 11, offset: 90923},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2878, col: 13, offset: 90925,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27526,28 +27696,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27556,9 +27726,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -27568,23 +27738,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48796},
+													pos: position{line: 1514, col: 5, offset: 49002},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49661},
+														pos: position{line: 1544, col: 27, offset: 49907},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49661},
+																pos:        position{line: 1544, col: 27, offset: 49907},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49665},
+																pos: position{line: 1544, col: 31, offset: 49911},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27593,25 +27763,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27623,20 +27793,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48824},
+													pos: position{line: 1515, col: 5, offset: 49030},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51101},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51101},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27645,27 +27815,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51108},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51171},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51171},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51171},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51171},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51178},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51178},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51179},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27674,22 +27844,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51279},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51996},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51996},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51996},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51997},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27697,7 +27867,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 52005},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27706,20 +27876,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52122},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52122},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52123},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52130},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27728,20 +27898,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52250},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52250},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52251},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52258},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27750,15 +27920,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52378},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52378},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52378},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52379},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27766,7 +27936,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52391},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27775,15 +27945,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52511},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52511},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52511},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52512},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27791,7 +27961,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52524},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27803,12 +27973,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27821,20 +27991,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48854},
+													pos: position{line: 1516, col: 5, offset: 49060},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53063},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53063},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53063},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27843,24 +28013,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53075},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53091},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53092},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53093},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53100},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53101},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -27871,16 +28041,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53191},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27893,29 +28063,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48886},
+													pos: position{line: 1517, col: 5, offset: 49092},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55600},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55600},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55600},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55604},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55609},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55609},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55609},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27925,18 +28095,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55657},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27949,36 +28119,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48916},
+													pos: position{line: 1518, col: 5, offset: 49122},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48918},
+														pos: position{line: 1518, col: 7, offset: 49124},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53836},
+																pos: position{line: 1670, col: 5, offset: 54082},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1670, col: 5, offset: 54082},
 																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54083},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53837},
+																				pos: position{line: 1670, col: 6, offset: 54083},
 																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54233},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53987},
+																						pos: position{line: 1675, col: 5, offset: 54233},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53987},
+																								pos:   position{line: 1675, col: 5, offset: 54233},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54244},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 53998},
+																										pos: position{line: 1675, col: 16, offset: 54244},
 																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 53999},
+																											pos:        position{line: 1675, col: 17, offset: 54245},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -27987,7 +28157,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54056},
+																								pos: position{line: 1678, col: 5, offset: 54302},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -27995,30 +28165,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53866},
+																				pos: position{line: 1670, col: 35, offset: 54112},
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2870, col: 12, offset: 90760},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28027,37 +28197,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53871,
+																				line: 1670, col: 40, offset: 54117,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53987},
+																pos: position{line: 1675, col: 5, offset: 54233},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53987},
+																	pos: position{line: 1675, col: 5, offset: 54233},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53987},
+																			pos:   position{line: 1675, col: 5, offset: 54233},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 53998},
+																				pos: position{line: 1675, col: 16, offset: 54244},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 53998},
+																					pos: position{line: 1675, col: 16, offset: 54244},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 53999},
+																						pos:        position{line: 1675, col: 17, offset: 54245},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28066,20 +28236,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54056},
+																			pos: position{line: 1678, col: 5, offset: 54302},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1510, col: 59, offset: 48970},
+																pos: position{line: 1518, col: 59, offset: 49176},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28087,25 +28257,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2870, col: 12, offset: 90760},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28114,9 +28284,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -28125,819 +28295,824 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48988},
-													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
-														run: (*parser).callonExtraListElement631,
-														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
-															exprs: []interface{}{
-																&notExpr{
+													pos: position{line: 1519, col: 5, offset: 49194},
+													expr: &choiceExpr{
+														pos: position{line: 1519, col: 7, offset: 49196},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 724, col: 5, offset: 23042},
+																run: (*parser).callonExtraListElement632,
+																expr: &seqExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
-																		val:        "[\\pL\\pN]",
-																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																		ignoreCase: false,
-																		inverted:   false,
-																	},
-																},
-																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23072},
-																	label: "delimiter",
-																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23092},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
-																				run: (*parser).callonExtraListElement637,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
-																								run: (*parser).callonExtraListElement640,
-																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
-																											val:        "////",
-																											ignoreCase: false,
-																											want:       "\"////\"",
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
-																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
-																												val:        "/",
-																												ignoreCase: false,
-																												want:       "\"/\"",
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 724, col: 5, offset: 23042},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2751, col: 13, offset: 87684},
+																				val:        "[\\pL\\pN]",
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 725, col: 5, offset: 23072},
+																			label: "delimiter",
+																			expr: &choiceExpr{
+																				pos: position{line: 726, col: 9, offset: 23092},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 740, col: 5, offset: 23584},
+																						run: (*parser).callonExtraListElement638,
+																						expr: &seqExpr{
+																							pos: position{line: 740, col: 5, offset: 23584},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 740, col: 5, offset: 23584},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 740, col: 16, offset: 23595},
+																										run: (*parser).callonExtraListElement641,
+																										expr: &seqExpr{
+																											pos: position{line: 740, col: 16, offset: 23595},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 740, col: 16, offset: 23595},
+																													val:        "////",
+																													ignoreCase: false,
+																													want:       "\"////\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 740, col: 23, offset: 23602},
+																													expr: &litMatcher{
+																														pos:        position{line: 740, col: 23, offset: 23602},
+																														val:        "/",
+																														ignoreCase: false,
+																														want:       "\"/\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																							},
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement646,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 742, col: 8, offset: 23686},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement647,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
 																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement649,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement650,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
 																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																										},
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
-																									},
-																								},
 																							},
 																						},
 																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonExtraListElement656,
-																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonExtraListElement659,
-																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
-																											val:        "====",
-																											ignoreCase: false,
-																											want:       "\"====\"",
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
-																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
-																												val:        "=",
-																												ignoreCase: false,
-																												want:       "\"=\"",
+																					&actionExpr{
+																						pos: position{line: 747, col: 5, offset: 23832},
+																						run: (*parser).callonExtraListElement657,
+																						expr: &seqExpr{
+																							pos: position{line: 747, col: 5, offset: 23832},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 747, col: 5, offset: 23832},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 747, col: 16, offset: 23843},
+																										run: (*parser).callonExtraListElement660,
+																										expr: &seqExpr{
+																											pos: position{line: 747, col: 16, offset: 23843},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 747, col: 16, offset: 23843},
+																													val:        "====",
+																													ignoreCase: false,
+																													want:       "\"====\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 747, col: 23, offset: 23850},
+																													expr: &litMatcher{
+																														pos:        position{line: 747, col: 23, offset: 23850},
+																														val:        "=",
+																														ignoreCase: false,
+																														want:       "\"=\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																							},
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement665,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 749, col: 8, offset: 23934},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement666,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
 																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement668,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement669,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
 																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																										},
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
-																									},
-																								},
 																							},
 																						},
 																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
-																				run: (*parser).callonExtraListElement675,
-																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24320},
-																							val:        "```",
-																							ignoreCase: false,
-																							want:       "\"```\"",
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24326},
-																							label: "language",
-																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24456},
-																								run: (*parser).callonExtraListElement679,
-																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24457},
-																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24457},
-																										val:        "[^\\r\\n` ]",
-																										chars:      []rune{'\r', '\n', '`', ' '},
-																										ignoreCase: false,
-																										inverted:   true,
-																									},
-																								},
-																							},
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24346},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement683,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
+																					&actionExpr{
+																						pos: position{line: 760, col: 26, offset: 24320},
+																						run: (*parser).callonExtraListElement676,
+																						expr: &seqExpr{
+																							pos: position{line: 760, col: 26, offset: 24320},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 760, col: 26, offset: 24320},
+																									val:        "```",
 																									ignoreCase: false,
-																									inverted:   false,
+																									want:       "\"```\"",
 																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement686,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
+																								&labeledExpr{
+																									pos:   position{line: 760, col: 32, offset: 24326},
+																									label: "language",
+																									expr: &actionExpr{
+																										pos: position{line: 764, col: 13, offset: 24456},
+																										run: (*parser).callonExtraListElement680,
+																										expr: &oneOrMoreExpr{
+																											pos: position{line: 764, col: 14, offset: 24457},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 764, col: 14, offset: 24457},
+																												val:        "[^\\r\\n` ]",
+																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																												inverted:   true,
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 760, col: 52, offset: 24346},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement684,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonExtraListElement693,
-																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonExtraListElement696,
-																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
-																											val:        "```",
-																											ignoreCase: false,
-																											want:       "\"```\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement687,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
-																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
-																												val:        "`",
-																												ignoreCase: false,
-																												want:       "\"`\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement702,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement705,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 754, col: 5, offset: 24079},
+																						run: (*parser).callonExtraListElement694,
+																						expr: &seqExpr{
+																							pos: position{line: 754, col: 5, offset: 24079},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 754, col: 5, offset: 24079},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 754, col: 16, offset: 24090},
+																										run: (*parser).callonExtraListElement697,
+																										expr: &seqExpr{
+																											pos: position{line: 754, col: 16, offset: 24090},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 754, col: 16, offset: 24090},
+																													val:        "```",
+																													ignoreCase: false,
+																													want:       "\"```\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 754, col: 22, offset: 24096},
+																													expr: &litMatcher{
+																														pos:        position{line: 754, col: 22, offset: 24096},
+																														val:        "`",
+																														ignoreCase: false,
+																														want:       "\"`\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 756, col: 8, offset: 24180},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement703,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonExtraListElement712,
-																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonExtraListElement715,
-																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
-																											val:        "----",
-																											ignoreCase: false,
-																											want:       "\"----\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement706,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
-																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
-																												val:        "-",
-																												ignoreCase: false,
-																												want:       "\"-\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement721,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement724,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 769, col: 5, offset: 24616},
+																						run: (*parser).callonExtraListElement713,
+																						expr: &seqExpr{
+																							pos: position{line: 769, col: 5, offset: 24616},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 769, col: 5, offset: 24616},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 769, col: 16, offset: 24627},
+																										run: (*parser).callonExtraListElement716,
+																										expr: &seqExpr{
+																											pos: position{line: 769, col: 16, offset: 24627},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 769, col: 16, offset: 24627},
+																													val:        "----",
+																													ignoreCase: false,
+																													want:       "\"----\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 769, col: 23, offset: 24634},
+																													expr: &litMatcher{
+																														pos:        position{line: 769, col: 23, offset: 24634},
+																														val:        "-",
+																														ignoreCase: false,
+																														want:       "\"-\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 771, col: 8, offset: 24718},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement722,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonExtraListElement731,
-																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonExtraListElement734,
-																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
-																											val:        "....",
-																											ignoreCase: false,
-																											want:       "\"....\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement725,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
-																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
-																												val:        ".",
-																												ignoreCase: false,
-																												want:       "\".\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement740,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement743,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 783, col: 5, offset: 25092},
+																						run: (*parser).callonExtraListElement732,
+																						expr: &seqExpr{
+																							pos: position{line: 783, col: 5, offset: 25092},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 783, col: 5, offset: 25092},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 783, col: 16, offset: 25103},
+																										run: (*parser).callonExtraListElement735,
+																										expr: &seqExpr{
+																											pos: position{line: 783, col: 16, offset: 25103},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 783, col: 16, offset: 25103},
+																													val:        "....",
+																													ignoreCase: false,
+																													want:       "\"....\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 783, col: 23, offset: 25110},
+																													expr: &litMatcher{
+																														pos:        position{line: 783, col: 23, offset: 25110},
+																														val:        ".",
+																														ignoreCase: false,
+																														want:       "\".\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 785, col: 8, offset: 25194},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement741,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonExtraListElement750,
-																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonExtraListElement753,
-																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
-																											val:        "++++",
-																											ignoreCase: false,
-																											want:       "\"++++\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement744,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
-																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
-																												val:        "+",
-																												ignoreCase: false,
-																												want:       "\"+\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement759,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement762,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 790, col: 5, offset: 25344},
+																						run: (*parser).callonExtraListElement751,
+																						expr: &seqExpr{
+																							pos: position{line: 790, col: 5, offset: 25344},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 790, col: 5, offset: 25344},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 790, col: 16, offset: 25355},
+																										run: (*parser).callonExtraListElement754,
+																										expr: &seqExpr{
+																											pos: position{line: 790, col: 16, offset: 25355},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 790, col: 16, offset: 25355},
+																													val:        "++++",
+																													ignoreCase: false,
+																													want:       "\"++++\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 790, col: 23, offset: 25362},
+																													expr: &litMatcher{
+																														pos:        position{line: 790, col: 23, offset: 25362},
+																														val:        "+",
+																														ignoreCase: false,
+																														want:       "\"+\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 792, col: 8, offset: 25446},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement760,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonExtraListElement769,
-																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonExtraListElement772,
-																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
-																											val:        "____",
-																											ignoreCase: false,
-																											want:       "\"____\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement763,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
-																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
-																												val:        "_",
-																												ignoreCase: false,
-																												want:       "\"_\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement778,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement781,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 797, col: 5, offset: 25594},
+																						run: (*parser).callonExtraListElement770,
+																						expr: &seqExpr{
+																							pos: position{line: 797, col: 5, offset: 25594},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 797, col: 5, offset: 25594},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 797, col: 16, offset: 25605},
+																										run: (*parser).callonExtraListElement773,
+																										expr: &seqExpr{
+																											pos: position{line: 797, col: 16, offset: 25605},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 797, col: 16, offset: 25605},
+																													val:        "____",
+																													ignoreCase: false,
+																													want:       "\"____\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 797, col: 23, offset: 25612},
+																													expr: &litMatcher{
+																														pos:        position{line: 797, col: 23, offset: 25612},
+																														val:        "_",
+																														ignoreCase: false,
+																														want:       "\"_\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 799, col: 8, offset: 25696},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement779,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
 																									},
 																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonExtraListElement788,
-																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
-																					exprs: []interface{}{
-																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
-																							label: "delimiter",
-																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonExtraListElement791,
-																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
-																											val:        "****",
-																											ignoreCase: false,
-																											want:       "\"****\"",
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement782,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
 																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
-																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
-																												val:        "*",
-																												ignoreCase: false,
-																												want:       "\"*\"",
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
-																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonExtraListElement797,
-																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
-																									val:        "[\\t ]",
-																									chars:      []rune{'\t', ' '},
-																									ignoreCase: false,
-																									inverted:   false,
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonExtraListElement800,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
+																					},
+																					&actionExpr{
+																						pos: position{line: 804, col: 5, offset: 25840},
+																						run: (*parser).callonExtraListElement789,
+																						expr: &seqExpr{
+																							pos: position{line: 804, col: 5, offset: 25840},
+																							exprs: []interface{}{
+																								&labeledExpr{
+																									pos:   position{line: 804, col: 5, offset: 25840},
+																									label: "delimiter",
+																									expr: &actionExpr{
+																										pos: position{line: 804, col: 16, offset: 25851},
+																										run: (*parser).callonExtraListElement792,
+																										expr: &seqExpr{
+																											pos: position{line: 804, col: 16, offset: 25851},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 804, col: 16, offset: 25851},
+																													val:        "****",
+																													ignoreCase: false,
+																													want:       "\"****\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 804, col: 23, offset: 25858},
+																													expr: &litMatcher{
+																														pos:        position{line: 804, col: 23, offset: 25858},
+																														val:        "*",
+																														ignoreCase: false,
+																														want:       "\"*\"",
+																													},
+																												},
 																											},
 																										},
 																									},
 																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																								&zeroOrMoreExpr{
+																									pos: position{line: 806, col: 8, offset: 25942},
+																									expr: &actionExpr{
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonExtraListElement798,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
+																								},
+																								&choiceExpr{
+																									pos: position{line: 2883, col: 8, offset: 90987},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonExtraListElement801,
+																											expr: &choiceExpr{
+																												pos: position{line: 2870, col: 13, offset: 90761},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
+																										},
+																										&notExpr{
+																											pos: position{line: 2880, col: 8, offset: 90937},
+																											expr: &anyMatcher{
+																												line: 2880, col: 9, offset: 90938,
+																											},
+																										},
 																									},
 																								},
 																							},
@@ -28949,19 +29124,157 @@ var g = &grammar{
 																	},
 																},
 															},
+															&actionExpr{
+																pos: position{line: 776, col: 5, offset: 24861},
+																run: (*parser).callonExtraListElement808,
+																expr: &seqExpr{
+																	pos: position{line: 776, col: 5, offset: 24861},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 776, col: 5, offset: 24861},
+																			label: "delimiter",
+																			expr: &actionExpr{
+																				pos: position{line: 776, col: 16, offset: 24872},
+																				run: (*parser).callonExtraListElement811,
+																				expr: &litMatcher{
+																					pos:        position{line: 776, col: 16, offset: 24872},
+																					val:        "--",
+																					ignoreCase: false,
+																					want:       "\"--\"",
+																				},
+																			},
+																		},
+																		&zeroOrMoreExpr{
+																			pos: position{line: 778, col: 8, offset: 24949},
+																			expr: &actionExpr{
+																				pos: position{line: 2861, col: 10, offset: 90589},
+																				run: (*parser).callonExtraListElement814,
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					val:        "[\\t ]",
+																					chars:      []rune{'\t', ' '},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																		&choiceExpr{
+																			pos: position{line: 2883, col: 8, offset: 90987},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 2870, col: 12, offset: 90760},
+																					run: (*parser).callonExtraListElement817,
+																					expr: &choiceExpr{
+																						pos: position{line: 2870, col: 13, offset: 90761},
+																						alternatives: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								val:        "\n",
+																								ignoreCase: false,
+																								want:       "\"\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								val:        "\r\n",
+																								ignoreCase: false,
+																								want:       "\"\\r\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								val:        "\r",
+																								ignoreCase: false,
+																								want:       "\"\\r\"",
+																							},
+																						},
+																					},
+																				},
+																				&notExpr{
+																					pos: position{line: 2880, col: 8, offset: 90937},
+																					expr: &anyMatcher{
+																						line: 2880, col: 9, offset: 90938,
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&seqExpr{
+																pos: position{line: 2603, col: 19, offset: 83272},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2603, col: 19, offset: 83272},
+																		val:        "|===",
+																		ignoreCase: false,
+																		want:       "\"|===\"",
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 2603, col: 26, offset: 83279},
+																		expr: &actionExpr{
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonExtraListElement827,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonExtraListElement830,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49008},
+													pos:   position{line: 1520, col: 5, offset: 49254},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
-														run: (*parser).callonExtraListElement808,
+														pos: position{line: 2811, col: 14, offset: 89182},
+														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 14, offset: 88832},
+															pos: position{line: 2811, col: 14, offset: 89182},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 14, offset: 88832},
+																pos:        position{line: 2811, col: 14, offset: 89182},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28971,28 +29284,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonExtraListElement812,
+															pos: position{line: 2870, col: 12, offset: 90760},
+															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29001,9 +29314,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -29020,28 +29333,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49399},
+			pos:  position{line: 1536, col: 1, offset: 49645},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49424},
+				pos: position{line: 1537, col: 5, offset: 49670},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49424},
+					pos: position{line: 1537, col: 5, offset: 49670},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49424},
+							pos:   position{line: 1537, col: 5, offset: 49670},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49431},
+								pos: position{line: 1537, col: 12, offset: 49677},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49432},
+									pos: position{line: 1537, col: 13, offset: 49678},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49432},
+											pos: position{line: 1537, col: 13, offset: 49678},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2861, col: 10, offset: 90589},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2861, col: 10, offset: 90589},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29050,25 +29363,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 12, offset: 90410},
+											pos: position{line: 2870, col: 12, offset: 90760},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2861, col: 13, offset: 90411},
+												pos: position{line: 2870, col: 13, offset: 90761},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2861, col: 13, offset: 90411},
+														pos:        position{line: 2870, col: 13, offset: 90761},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 20, offset: 90418},
+														pos:        position{line: 2870, col: 20, offset: 90768},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 29, offset: 90427},
+														pos:        position{line: 2870, col: 29, offset: 90777},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29081,18 +29394,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1530, col: 5, offset: 49454},
+							pos:        position{line: 1538, col: 5, offset: 49700},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1530, col: 9, offset: 49458},
+							pos: position{line: 1538, col: 9, offset: 49704},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29101,28 +29414,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29131,26 +29444,26 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49473},
+							pos:   position{line: 1539, col: 5, offset: 49719},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49481},
+								pos: position{line: 1539, col: 13, offset: 49727},
 								expr: &actionExpr{
-									pos: position{line: 1531, col: 14, offset: 49482},
+									pos: position{line: 1539, col: 14, offset: 49728},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1531, col: 14, offset: 49482},
+										pos: position{line: 1539, col: 14, offset: 49728},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1531, col: 14, offset: 49482},
+												pos: position{line: 1539, col: 14, offset: 49728},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonListContinuation31,
@@ -29158,18 +29471,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2878, col: 11, offset: 90923},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2878, col: 13, offset: 90925,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29178,28 +29491,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2870, col: 12, offset: 90760},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29208,9 +29521,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -29220,10 +29533,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1531, col: 25, offset: 49493},
+												pos:   position{line: 1539, col: 25, offset: 49739},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1531, col: 27, offset: 49495},
+													pos:  position{line: 1539, col: 27, offset: 49741},
 													name: "ListContinuationElement",
 												},
 											},
@@ -29238,46 +29551,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49681},
+			pos:  position{line: 1546, col: 1, offset: 49927},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49727},
+				pos: position{line: 1547, col: 5, offset: 49973},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49727},
+					pos: position{line: 1547, col: 5, offset: 49973},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49755},
+							pos: position{line: 1548, col: 5, offset: 50001},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1485, col: 5, offset: 47919},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1578, col: 5, offset: 50893},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1578, col: 5, offset: 50893},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1578, col: 5, offset: 50893},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51101},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51101},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29286,27 +29599,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51108},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51171},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51171},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51171},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51171},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51178},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51178},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51179},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29315,22 +29628,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51279},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51996},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51996},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51996},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51997},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29338,7 +29651,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 52005},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29347,20 +29660,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52122},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52122},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52123},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52130},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29369,20 +29682,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52250},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52250},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52251},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52258},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29391,15 +29704,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52378},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52378},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52378},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52379},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29407,7 +29720,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52391},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29416,15 +29729,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52511},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52511},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52511},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52512},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29432,7 +29745,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52524},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29444,12 +29757,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29462,26 +29775,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1579, col: 5, offset: 50932},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29492,28 +29805,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29522,9 +29835,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -29537,27 +29850,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1628, col: 5, offset: 52790},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1628, col: 5, offset: 52790},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1628, col: 5, offset: 52790},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53063},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53063},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53063},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29566,24 +29879,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53075},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53091},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53092},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53093},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53100},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53101},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29594,16 +29907,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53191},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29616,56 +29929,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1629, col: 5, offset: 52831},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1629, col: 16, offset: 52842},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1650, col: 5, offset: 53456},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1650, col: 5, offset: 53456},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1650, col: 5, offset: 53456},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1650, col: 6, offset: 53457},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1650, col: 10, offset: 53461},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1651, col: 7, offset: 53475},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1651, col: 7, offset: 53475},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1651, col: 7, offset: 53475},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1652, col: 7, offset: 53520},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1652, col: 7, offset: 53520},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1653, col: 7, offset: 53563},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1653, col: 7, offset: 53563},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29675,12 +29988,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2865, col: 11, offset: 90650},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2865, col: 11, offset: 90650},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29694,26 +30007,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1630, col: 5, offset: 52881},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29724,28 +30037,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29754,9 +30067,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -29769,36 +30082,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1718, col: 5, offset: 55403},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1718, col: 5, offset: 55403},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1718, col: 5, offset: 55403},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55600},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55600},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55600},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55604},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55609},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55609},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55609},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29808,18 +30121,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55657},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2865, col: 11, offset: 90650},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29832,26 +30145,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1719, col: 5, offset: 55439},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49399},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49399},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49399},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49408},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49409},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49409},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49409},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29862,28 +30175,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29892,9 +30205,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -29907,40 +30220,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1662, col: 5, offset: 53756},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1662, col: 5, offset: 53756},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1662, col: 5, offset: 53756},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1670, col: 5, offset: 54082},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1670, col: 5, offset: 54082},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1670, col: 6, offset: 54083},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54083},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1675, col: 5, offset: 54233},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54233},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1675, col: 5, offset: 54233},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1675, col: 16, offset: 54244},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54244},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1675, col: 17, offset: 54245},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29949,7 +30262,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1678, col: 5, offset: 54302},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29957,30 +30270,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1670, col: 35, offset: 54112},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29989,16 +30302,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1670, col: 40, offset: 54117,
 																	},
 																},
 															},
@@ -30006,24 +30319,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1663, col: 5, offset: 53791},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1675, col: 5, offset: 54233},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1675, col: 5, offset: 54233},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1675, col: 5, offset: 54233},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1675, col: 16, offset: 54244},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1675, col: 16, offset: 54244},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1675, col: 17, offset: 54245},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30032,7 +30345,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1678, col: 5, offset: 54302},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30040,24 +30353,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1664, col: 5, offset: 53836},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1686, col: 5, offset: 54551},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1688, col: 9, offset: 54617},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1688, col: 9, offset: 54617},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1688, col: 9, offset: 54617},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30066,28 +30379,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30096,15 +30409,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1689, col: 9, offset: 54636},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListContinuationElement195,
@@ -30112,18 +30425,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2878, col: 11, offset: 90923},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2878, col: 13, offset: 90925,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2861, col: 10, offset: 90589},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30132,28 +30445,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2870, col: 12, offset: 90760},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30162,9 +30475,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -30177,18 +30490,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1695, col: 9, offset: 54765},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1695, col: 9, offset: 54765},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2865, col: 11, offset: 90650},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2865, col: 11, offset: 90650},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2865, col: 11, offset: 90650},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30197,15 +30510,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1696, col: 9, offset: 54838},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1696, col: 18, offset: 54847},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1696, col: 18, offset: 54847},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1696, col: 18, offset: 54847},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30215,28 +30528,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30245,9 +30558,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -30265,21 +30578,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49772},
+							pos:   position{line: 1549, col: 5, offset: 50018},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49783},
+								pos: position{line: 1549, col: 16, offset: 50029},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49784},
+									pos:  position{line: 1549, col: 17, offset: 50030},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49806},
+							pos:   position{line: 1550, col: 5, offset: 50052},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49824},
+								pos: position{line: 1551, col: 9, offset: 50070},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
@@ -30288,18 +30601,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2869, col: 11, offset: 90573},
+													pos: position{line: 2878, col: 11, offset: 90923},
 													expr: &anyMatcher{
-														line: 2869, col: 13, offset: 90575,
+														line: 2878, col: 13, offset: 90925,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30308,28 +30621,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30338,9 +30651,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -30349,7 +30662,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49844},
+										pos:  position{line: 1552, col: 11, offset: 50090},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30405,10 +30718,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30417,28 +30730,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30447,9 +30760,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -30510,10 +30823,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30522,28 +30835,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30552,9 +30865,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -30568,88 +30881,92 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonListContinuationElement292,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonListContinuationElement295,
-																	expr: &seqExpr{
+														run: (*parser).callonListContinuationElement293,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonListContinuationElement296,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonListContinuationElement301,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement302,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonListContinuationElement304,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2883, col: 8, offset: 90987},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement305,
+																			expr: &choiceExpr{
+																				pos: position{line: 2870, col: 13, offset: 90761},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2880, col: 8, offset: 90937},
+																			expr: &anyMatcher{
+																				line: 2880, col: 9, offset: 90938,
+																			},
 																		},
 																	},
 																},
@@ -30657,145 +30974,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonListContinuationElement312,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26847},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonListContinuationElement313,
+															pos: position{line: 839, col: 6, offset: 26848},
+															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26848},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26848},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26689},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonListContinuationElement317,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonListContinuationElement320,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26689},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26689},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonListContinuationElement321,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonListContinuationElement324,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement330,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement326,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement329,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement333,
+																													expr: &choiceExpr{
+																														pos: position{line: 2870, col: 13, offset: 90761},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2880, col: 8, offset: 90937},
+																													expr: &anyMatcher{
+																														line: 2880, col: 9, offset: 90938,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26720},
+																							run: (*parser).callonListContinuationElement340,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26878},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement339,
+																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement344,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30805,28 +31139,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement348,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30835,9 +31169,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -30852,103 +31186,116 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 825, col: 5, offset: 26489},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 832, col: 5, offset: 26689},
 														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonListContinuationElement357,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	exprs: []interface{}{
-																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
-																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonListContinuationElement360,
-																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+															&seqExpr{
+																pos: position{line: 832, col: 5, offset: 26689},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 832, col: 5, offset: 26689},
+																		label: "end",
+																		expr: &actionExpr{
+																			pos: position{line: 740, col: 5, offset: 23584},
+																			run: (*parser).callonListContinuationElement364,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23584},
+																						label: "delimiter",
+																						expr: &actionExpr{
+																							pos: position{line: 740, col: 16, offset: 23595},
+																							run: (*parser).callonListContinuationElement367,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23595},
+																										val:        "////",
+																										ignoreCase: false,
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23602},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23602},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
+																									},
+																								},
+																							},
 																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23686},
+																						expr: &actionExpr{
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonListContinuationElement373,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
-																								want:       "\"/\"",
+																								inverted:   false,
 																							},
 																						},
 																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonListContinuationElement366,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonListContinuationElement369,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																					&choiceExpr{
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																							&actionExpr{
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement376,
+																								expr: &choiceExpr{
+																									pos: position{line: 2870, col: 13, offset: 90761},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&notExpr{
+																								pos: position{line: 2880, col: 8, offset: 90937},
+																								expr: &anyMatcher{
+																									line: 2880, col: 9, offset: 90938,
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 833, col: 5, offset: 26720},
+																		run: (*parser).callonListContinuationElement383,
+																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -30958,17 +31305,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26825},
-										run: (*parser).callonListContinuationElement378,
+										pos: position{line: 848, col: 5, offset: 27031},
+										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 848, col: 5, offset: 27031},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26825},
+													pos:   position{line: 848, col: 5, offset: 27031},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23832},
-														run: (*parser).callonListContinuationElement381,
+														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
 															exprs: []interface{}{
@@ -30977,7 +31324,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 747, col: 16, offset: 23843},
-																		run: (*parser).callonListContinuationElement384,
+																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
 																			exprs: []interface{}{
@@ -31003,10 +31350,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31015,28 +31362,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement393,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31045,9 +31392,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -31057,34 +31404,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26864},
-													run: (*parser).callonListContinuationElement400,
+													pos: position{line: 849, col: 5, offset: 27070},
+													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26956},
+													pos:   position{line: 852, col: 5, offset: 27162},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27353},
+														pos: position{line: 867, col: 4, offset: 27559},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27354},
-															run: (*parser).callonListContinuationElement403,
+															pos: position{line: 867, col: 5, offset: 27560},
+															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 867, col: 5, offset: 27560},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27354},
+																		pos: position{line: 867, col: 5, offset: 27560},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27196},
+																			pos: position{line: 860, col: 5, offset: 27402},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27196},
+																					pos: position{line: 860, col: 5, offset: 27402},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27196},
+																							pos:   position{line: 860, col: 5, offset: 27402},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement409,
+																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -31093,7 +31440,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement412,
+																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -31119,10 +31466,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31131,28 +31478,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement421,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31161,9 +31508,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -31173,45 +31520,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27227},
-																							run: (*parser).callonListContinuationElement428,
+																							pos: position{line: 861, col: 5, offset: 27433},
+																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27384},
+																		pos:   position{line: 868, col: 5, offset: 27590},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement432,
+																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement437,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31221,28 +31568,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement441,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31251,9 +31598,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -31268,22 +31615,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26990},
+													pos:   position{line: 853, col: 5, offset: 27196},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26994},
+														pos: position{line: 853, col: 9, offset: 27200},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27196},
+															pos: position{line: 860, col: 5, offset: 27402},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27196},
+																	pos: position{line: 860, col: 5, offset: 27402},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27196},
+																			pos:   position{line: 860, col: 5, offset: 27402},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonListContinuationElement453,
+																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -31292,7 +31639,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonListContinuationElement456,
+																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -31318,10 +31665,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31330,28 +31677,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement465,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31360,9 +31707,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -31372,15 +31719,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27227},
-																			run: (*parser).callonListContinuationElement472,
+																			pos: position{line: 861, col: 5, offset: 27433},
+																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -31391,17 +31738,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29676},
-										run: (*parser).callonListContinuationElement475,
+										pos: position{line: 960, col: 5, offset: 29882},
+										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 960, col: 5, offset: 29882},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29676},
+													pos:   position{line: 960, col: 5, offset: 29882},
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24320},
-														run: (*parser).callonListContinuationElement478,
+														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
 															exprs: []interface{}{
@@ -31416,7 +31763,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 764, col: 13, offset: 24456},
-																		run: (*parser).callonListContinuationElement482,
+																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 764, col: 14, offset: 24457},
 																			expr: &charClassMatcher{
@@ -31432,10 +31779,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement486,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31444,28 +31791,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement489,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31474,9 +31821,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -31486,34 +31833,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29722},
+													pos:   position{line: 961, col: 5, offset: 29928},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30195},
+														pos: position{line: 974, col: 5, offset: 30401},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30196},
-															run: (*parser).callonListContinuationElement498,
+															pos: position{line: 974, col: 6, offset: 30402},
+															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 974, col: 6, offset: 30402},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30196},
+																		pos: position{line: 974, col: 6, offset: 30402},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30143},
+																			pos: position{line: 971, col: 34, offset: 30349},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30143},
+																					pos:        position{line: 971, col: 34, offset: 30349},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30149},
+																					pos: position{line: 971, col: 40, offset: 30355},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement504,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31522,28 +31869,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement507,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31552,9 +31899,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -31563,30 +31910,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30231},
+																		pos:   position{line: 975, col: 5, offset: 30437},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement515,
+																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement520,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31596,28 +31943,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement524,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31626,9 +31973,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -31643,23 +31990,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29761},
+													pos: position{line: 962, col: 5, offset: 29967},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30143},
+														pos: position{line: 971, col: 34, offset: 30349},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30143},
+																pos:        position{line: 971, col: 34, offset: 30349},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30149},
+																pos: position{line: 971, col: 40, offset: 30355},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonListContinuationElement535,
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31668,28 +32015,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonListContinuationElement538,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31698,9 +32045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -31712,17 +32059,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27537},
-										run: (*parser).callonListContinuationElement545,
+										pos: position{line: 876, col: 5, offset: 27743},
+										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 876, col: 5, offset: 27743},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27537},
+													pos:   position{line: 876, col: 5, offset: 27743},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24079},
-														run: (*parser).callonListContinuationElement548,
+														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
 															exprs: []interface{}{
@@ -31731,7 +32078,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 754, col: 16, offset: 24090},
-																		run: (*parser).callonListContinuationElement551,
+																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
 																			exprs: []interface{}{
@@ -31757,10 +32104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31769,28 +32116,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement560,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31799,9 +32146,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -31811,34 +32158,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27575},
-													run: (*parser).callonListContinuationElement567,
+													pos: position{line: 877, col: 5, offset: 27781},
+													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27667},
+													pos:   position{line: 880, col: 5, offset: 27873},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28057},
+														pos: position{line: 895, col: 5, offset: 28263},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28058},
-															run: (*parser).callonListContinuationElement570,
+															pos: position{line: 895, col: 6, offset: 28264},
+															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 895, col: 6, offset: 28264},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28058},
+																		pos: position{line: 895, col: 6, offset: 28264},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27901},
+																			pos: position{line: 888, col: 5, offset: 28107},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27901},
+																					pos: position{line: 888, col: 5, offset: 28107},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27901},
+																							pos:   position{line: 888, col: 5, offset: 28107},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement576,
+																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -31847,7 +32194,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement579,
+																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -31873,10 +32220,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31885,28 +32232,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement588,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31915,9 +32262,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -31927,45 +32274,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27931},
-																							run: (*parser).callonListContinuationElement595,
+																							pos: position{line: 889, col: 5, offset: 28137},
+																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28087},
+																		pos:   position{line: 896, col: 5, offset: 28293},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement599,
+																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement604,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31975,28 +32322,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement608,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32005,9 +32352,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -32022,22 +32369,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27700},
+													pos:   position{line: 881, col: 5, offset: 27906},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27704},
+														pos: position{line: 881, col: 9, offset: 27910},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27901},
+															pos: position{line: 888, col: 5, offset: 28107},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27901},
+																	pos: position{line: 888, col: 5, offset: 28107},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27901},
+																			pos:   position{line: 888, col: 5, offset: 28107},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonListContinuationElement620,
+																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -32046,7 +32393,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonListContinuationElement623,
+																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -32072,10 +32419,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32084,28 +32431,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement632,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32114,9 +32461,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -32126,15 +32473,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27931},
-																			run: (*parser).callonListContinuationElement639,
+																			pos: position{line: 889, col: 5, offset: 28137},
+																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -32145,17 +32492,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28242},
-										run: (*parser).callonListContinuationElement642,
+										pos: position{line: 904, col: 5, offset: 28448},
+										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 904, col: 5, offset: 28448},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28242},
+													pos:   position{line: 904, col: 5, offset: 28448},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 769, col: 5, offset: 24616},
-														run: (*parser).callonListContinuationElement645,
+														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
 															exprs: []interface{}{
@@ -32164,7 +32511,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 769, col: 16, offset: 24627},
-																		run: (*parser).callonListContinuationElement648,
+																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
 																			exprs: []interface{}{
@@ -32190,10 +32537,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32202,28 +32549,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement657,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32232,9 +32579,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -32244,34 +32591,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28281},
-													run: (*parser).callonListContinuationElement664,
+													pos: position{line: 905, col: 5, offset: 28487},
+													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28373},
+													pos:   position{line: 908, col: 5, offset: 28579},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28771},
+														pos: position{line: 923, col: 5, offset: 28977},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28772},
-															run: (*parser).callonListContinuationElement667,
+															pos: position{line: 923, col: 6, offset: 28978},
+															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 923, col: 6, offset: 28978},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28772},
+																		pos: position{line: 923, col: 6, offset: 28978},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28613},
+																			pos: position{line: 916, col: 5, offset: 28819},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28613},
+																					pos: position{line: 916, col: 5, offset: 28819},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28613},
+																							pos:   position{line: 916, col: 5, offset: 28819},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement673,
+																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -32280,7 +32627,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement676,
+																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -32306,10 +32653,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32318,28 +32665,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement685,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32348,9 +32695,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -32360,45 +32707,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28644},
-																							run: (*parser).callonListContinuationElement692,
+																							pos: position{line: 917, col: 5, offset: 28850},
+																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28802},
+																		pos:   position{line: 924, col: 5, offset: 29008},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement696,
+																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement701,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32408,28 +32755,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement705,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32438,9 +32785,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -32455,22 +32802,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28407},
+													pos:   position{line: 909, col: 5, offset: 28613},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28411},
+														pos: position{line: 909, col: 9, offset: 28617},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28613},
+															pos: position{line: 916, col: 5, offset: 28819},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28613},
+																	pos: position{line: 916, col: 5, offset: 28819},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28613},
+																			pos:   position{line: 916, col: 5, offset: 28819},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonListContinuationElement717,
+																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -32479,7 +32826,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonListContinuationElement720,
+																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -32505,10 +32852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32517,28 +32864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement729,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32547,9 +32894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -32559,15 +32906,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28644},
-																			run: (*parser).callonListContinuationElement736,
+																			pos: position{line: 917, col: 5, offset: 28850},
+																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -32578,17 +32925,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28957},
-										run: (*parser).callonListContinuationElement739,
+										pos: position{line: 932, col: 5, offset: 29163},
+										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 932, col: 5, offset: 29163},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28957},
+													pos:   position{line: 932, col: 5, offset: 29163},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 783, col: 5, offset: 25092},
-														run: (*parser).callonListContinuationElement742,
+														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
 															exprs: []interface{}{
@@ -32597,7 +32944,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 783, col: 16, offset: 25103},
-																		run: (*parser).callonListContinuationElement745,
+																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
 																			exprs: []interface{}{
@@ -32623,10 +32970,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32635,28 +32982,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement754,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32665,9 +33012,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -32677,34 +33024,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 28996},
-													run: (*parser).callonListContinuationElement761,
+													pos: position{line: 933, col: 5, offset: 29202},
+													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29088},
+													pos:   position{line: 936, col: 5, offset: 29294},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29486},
+														pos: position{line: 951, col: 5, offset: 29692},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29487},
-															run: (*parser).callonListContinuationElement764,
+															pos: position{line: 951, col: 6, offset: 29693},
+															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 951, col: 6, offset: 29693},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29487},
+																		pos: position{line: 951, col: 6, offset: 29693},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29328},
+																			pos: position{line: 944, col: 5, offset: 29534},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29328},
+																					pos: position{line: 944, col: 5, offset: 29534},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29328},
+																							pos:   position{line: 944, col: 5, offset: 29534},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement770,
+																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -32713,7 +33060,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement773,
+																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -32739,10 +33086,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32751,28 +33098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement782,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32781,9 +33128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -32793,45 +33140,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29359},
-																							run: (*parser).callonListContinuationElement789,
+																							pos: position{line: 945, col: 5, offset: 29565},
+																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29517},
+																		pos:   position{line: 952, col: 5, offset: 29723},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement793,
+																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement798,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32841,28 +33188,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement802,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32871,9 +33218,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -32888,22 +33235,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29122},
+													pos:   position{line: 937, col: 5, offset: 29328},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29126},
+														pos: position{line: 937, col: 9, offset: 29332},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29328},
+															pos: position{line: 944, col: 5, offset: 29534},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29328},
+																	pos: position{line: 944, col: 5, offset: 29534},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29328},
+																			pos:   position{line: 944, col: 5, offset: 29534},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonListContinuationElement814,
+																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -32912,7 +33259,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonListContinuationElement817,
+																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -32938,10 +33285,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32950,28 +33297,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement826,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32980,9 +33327,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -32992,15 +33339,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29359},
-																			run: (*parser).callonListContinuationElement833,
+																			pos: position{line: 945, col: 5, offset: 29565},
+																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -33011,41 +33358,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30400},
-										run: (*parser).callonListContinuationElement836,
+										pos: position{line: 983, col: 5, offset: 30606},
+										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 983, col: 5, offset: 30606},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30400},
+													pos:   position{line: 983, col: 5, offset: 30606},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30659},
-														run: (*parser).callonListContinuationElement839,
+														pos: position{line: 990, col: 5, offset: 30865},
+														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 990, col: 5, offset: 30865},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 990, col: 5, offset: 30865},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement842,
+																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2878, col: 11, offset: 90923},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2878, col: 13, offset: 90925,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement847,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33054,28 +33401,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement850,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33084,9 +33431,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -33096,21 +33443,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30674},
+																	pos:        position{line: 991, col: 5, offset: 30880},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30684},
+																	pos:   position{line: 992, col: 5, offset: 30890},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement859,
+																		pos: position{line: 2811, col: 14, offset: 89182},
+																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2811, col: 14, offset: 89182},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2811, col: 14, offset: 89182},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33120,28 +33467,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement863,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33150,9 +33497,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -33162,40 +33509,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30437},
+													pos:   position{line: 984, col: 5, offset: 30643},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30448},
+														pos: position{line: 984, col: 16, offset: 30654},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30449},
+															pos: position{line: 984, col: 17, offset: 30655},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
-																	run: (*parser).callonListContinuationElement873,
+																	pos: position{line: 990, col: 5, offset: 30865},
+																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 990, col: 5, offset: 30865},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30659},
+																				pos: position{line: 990, col: 5, offset: 30865},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
-																					run: (*parser).callonListContinuationElement876,
+																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2869, col: 11, offset: 90573},
+																								pos: position{line: 2878, col: 11, offset: 90923},
 																								expr: &anyMatcher{
-																									line: 2869, col: 13, offset: 90575,
+																									line: 2878, col: 13, offset: 90925,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33204,28 +33551,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement884,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33234,9 +33581,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -33246,21 +33593,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30674},
+																				pos:        position{line: 991, col: 5, offset: 30880},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30684},
+																				pos:   position{line: 992, col: 5, offset: 30890},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
-																					run: (*parser).callonListContinuationElement893,
+																					pos: position{line: 2811, col: 14, offset: 89182},
+																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2811, col: 14, offset: 89182},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2811, col: 14, offset: 89182},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33270,28 +33617,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2883, col: 8, offset: 90987},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement897,
+																						pos: position{line: 2870, col: 12, offset: 90760},
+																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2870, col: 13, offset: 90761},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2870, col: 13, offset: 90761},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2870, col: 20, offset: 90768},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2870, col: 29, offset: 90777},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33300,9 +33647,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
@@ -33311,21 +33658,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57605},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 1793, col: 5, offset: 57955},
+																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1793, col: 5, offset: 57955},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57605},
+																				pos:   position{line: 1793, col: 5, offset: 57955},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
-																					run: (*parser).callonListContinuationElement907,
+																					pos: position{line: 2811, col: 14, offset: 89182},
+																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2811, col: 14, offset: 89182},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2811, col: 14, offset: 89182},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33335,32 +33682,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57629},
-																				run: (*parser).callonListContinuationElement910,
+																				pos: position{line: 1794, col: 5, offset: 57979},
+																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2883, col: 8, offset: 90987},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement912,
+																						pos: position{line: 2870, col: 12, offset: 90760},
+																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2870, col: 13, offset: 90761},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2870, col: 13, offset: 90761},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2870, col: 20, offset: 90768},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2870, col: 29, offset: 90777},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33369,9 +33716,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
@@ -33387,17 +33734,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30949},
-										run: (*parser).callonListContinuationElement919,
+										pos: position{line: 1005, col: 5, offset: 31155},
+										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 1005, col: 5, offset: 31155},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30949},
+													pos:   position{line: 1005, col: 5, offset: 31155},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24861},
-														run: (*parser).callonListContinuationElement922,
+														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
 															exprs: []interface{}{
@@ -33406,7 +33753,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24872},
-																		run: (*parser).callonListContinuationElement925,
+																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24872},
 																			val:        "--",
@@ -33418,10 +33765,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement928,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33430,28 +33777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement931,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33460,9 +33807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -33472,24 +33819,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30985},
+													pos:   position{line: 1006, col: 5, offset: 31191},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31253},
+														pos: position{line: 1016, col: 5, offset: 31459},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31254},
-															run: (*parser).callonListContinuationElement940,
+															pos: position{line: 1016, col: 6, offset: 31460},
+															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1016, col: 6, offset: 31460},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31254},
+																		pos: position{line: 1016, col: 6, offset: 31460},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31202},
+																			pos: position{line: 1013, col: 26, offset: 31408},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24861},
-																					run: (*parser).callonListContinuationElement944,
+																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
 																						exprs: []interface{}{
@@ -33498,7 +33845,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24872},
-																									run: (*parser).callonListContinuationElement947,
+																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24872},
 																										val:        "--",
@@ -33510,10 +33857,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2861, col: 10, offset: 90589},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33522,28 +33869,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2883, col: 8, offset: 90987},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2870, col: 13, offset: 90761},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2870, col: 13, offset: 90761},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2870, col: 20, offset: 90768},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2870, col: 29, offset: 90777},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33552,9 +33899,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2880, col: 8, offset: 90937},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
@@ -33563,39 +33910,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31281},
+																		pos:   position{line: 1017, col: 5, offset: 31487},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement963,
+																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement968,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33605,28 +33952,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement972,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33635,9 +33982,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -33652,16 +33999,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31016},
+													pos:   position{line: 1007, col: 5, offset: 31222},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31020},
+														pos: position{line: 1007, col: 9, offset: 31226},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31202},
+															pos: position{line: 1013, col: 26, offset: 31408},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24861},
-																	run: (*parser).callonListContinuationElement982,
+																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
 																		exprs: []interface{}{
@@ -33670,7 +34017,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24872},
-																					run: (*parser).callonListContinuationElement985,
+																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24872},
 																						val:        "--",
@@ -33682,10 +34029,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement988,
+																					pos: position{line: 2861, col: 10, offset: 90589},
+																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2861, col: 10, offset: 90589},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33694,28 +34041,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2883, col: 8, offset: 90987},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement991,
+																						pos: position{line: 2870, col: 12, offset: 90760},
+																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2870, col: 13, offset: 90761},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2870, col: 13, offset: 90761},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2870, col: 20, offset: 90768},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2870, col: 29, offset: 90777},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33724,9 +34071,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
@@ -33735,9 +34082,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -33748,17 +34095,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31444},
-										run: (*parser).callonListContinuationElement1000,
+										pos: position{line: 1025, col: 5, offset: 31650},
+										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1025, col: 5, offset: 31650},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31444},
+													pos:   position{line: 1025, col: 5, offset: 31650},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25344},
-														run: (*parser).callonListContinuationElement1003,
+														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
 															exprs: []interface{}{
@@ -33767,7 +34114,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25355},
-																		run: (*parser).callonListContinuationElement1006,
+																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
 																			exprs: []interface{}{
@@ -33793,10 +34140,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33805,28 +34152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1015,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33835,9 +34182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -33847,34 +34194,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31487},
-													run: (*parser).callonListContinuationElement1022,
+													pos: position{line: 1026, col: 5, offset: 31693},
+													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31579},
+													pos:   position{line: 1029, col: 5, offset: 31785},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32009},
+														pos: position{line: 1044, col: 5, offset: 32215},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32010},
-															run: (*parser).callonListContinuationElement1025,
+															pos: position{line: 1044, col: 6, offset: 32216},
+															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1044, col: 6, offset: 32216},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32010},
+																		pos: position{line: 1044, col: 6, offset: 32216},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31843},
+																			pos: position{line: 1037, col: 5, offset: 32049},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31843},
+																					pos: position{line: 1037, col: 5, offset: 32049},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31843},
+																							pos:   position{line: 1037, col: 5, offset: 32049},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1031,
+																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -33883,7 +34230,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1034,
+																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -33909,10 +34256,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33921,28 +34268,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1043,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33951,9 +34298,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -33963,45 +34310,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31878},
-																							run: (*parser).callonListContinuationElement1050,
+																							pos: position{line: 1038, col: 5, offset: 32084},
+																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32044},
+																		pos:   position{line: 1045, col: 5, offset: 32250},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1054,
+																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34011,28 +34358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1063,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34041,9 +34388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -34058,22 +34405,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31617},
+													pos:   position{line: 1030, col: 5, offset: 31823},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31621},
+														pos: position{line: 1030, col: 9, offset: 31827},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31843},
+															pos: position{line: 1037, col: 5, offset: 32049},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31843},
+																	pos: position{line: 1037, col: 5, offset: 32049},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31843},
+																			pos:   position{line: 1037, col: 5, offset: 32049},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonListContinuationElement1075,
+																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -34082,7 +34429,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonListContinuationElement1078,
+																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -34108,10 +34455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34120,28 +34467,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1087,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34150,9 +34497,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -34162,15 +34509,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31878},
-																			run: (*parser).callonListContinuationElement1094,
+																			pos: position{line: 1038, col: 5, offset: 32084},
+																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -34181,17 +34528,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32195},
-										run: (*parser).callonListContinuationElement1097,
+										pos: position{line: 1053, col: 5, offset: 32401},
+										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1053, col: 5, offset: 32401},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32195},
+													pos:   position{line: 1053, col: 5, offset: 32401},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25594},
-														run: (*parser).callonListContinuationElement1100,
+														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
 															exprs: []interface{}{
@@ -34200,7 +34547,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25605},
-																		run: (*parser).callonListContinuationElement1103,
+																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
 																			exprs: []interface{}{
@@ -34226,10 +34573,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34238,28 +34585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1112,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34268,9 +34615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -34280,34 +34627,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32232},
-													run: (*parser).callonListContinuationElement1119,
+													pos: position{line: 1054, col: 5, offset: 32438},
+													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32324},
+													pos:   position{line: 1057, col: 5, offset: 32530},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32705},
+														pos: position{line: 1072, col: 4, offset: 32911},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32706},
-															run: (*parser).callonListContinuationElement1122,
+															pos: position{line: 1072, col: 5, offset: 32912},
+															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1072, col: 5, offset: 32912},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32706},
+																		pos: position{line: 1072, col: 5, offset: 32912},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32552},
+																			pos: position{line: 1065, col: 5, offset: 32758},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32552},
+																					pos: position{line: 1065, col: 5, offset: 32758},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32552},
+																							pos:   position{line: 1065, col: 5, offset: 32758},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1128,
+																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -34316,7 +34663,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1131,
+																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -34342,10 +34689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34354,28 +34701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1140,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34384,9 +34731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -34396,45 +34743,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32581},
-																							run: (*parser).callonListContinuationElement1147,
+																							pos: position{line: 1066, col: 5, offset: 32787},
+																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32734},
+																		pos:   position{line: 1073, col: 5, offset: 32940},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1151,
+																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34444,28 +34791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1160,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34474,9 +34821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -34491,22 +34838,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32356},
+													pos:   position{line: 1058, col: 5, offset: 32562},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32360},
+														pos: position{line: 1058, col: 9, offset: 32566},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32552},
+															pos: position{line: 1065, col: 5, offset: 32758},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32552},
+																	pos: position{line: 1065, col: 5, offset: 32758},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32552},
+																			pos:   position{line: 1065, col: 5, offset: 32758},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonListContinuationElement1172,
+																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -34515,7 +34862,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonListContinuationElement1175,
+																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -34541,10 +34888,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34553,28 +34900,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1184,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34583,9 +34930,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -34595,15 +34942,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
-																			run: (*parser).callonListContinuationElement1191,
+																			pos: position{line: 1066, col: 5, offset: 32787},
+																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -34614,17 +34961,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32889},
-										run: (*parser).callonListContinuationElement1194,
+										pos: position{line: 1081, col: 5, offset: 33095},
+										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1081, col: 5, offset: 33095},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32889},
+													pos:   position{line: 1081, col: 5, offset: 33095},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25840},
-														run: (*parser).callonListContinuationElement1197,
+														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
 															exprs: []interface{}{
@@ -34633,7 +34980,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25851},
-																		run: (*parser).callonListContinuationElement1200,
+																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
 																			exprs: []interface{}{
@@ -34659,10 +35006,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34671,28 +35018,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1209,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34701,9 +35048,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -34713,34 +35060,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32928},
-													run: (*parser).callonListContinuationElement1216,
+													pos: position{line: 1082, col: 5, offset: 33134},
+													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33020},
+													pos:   position{line: 1085, col: 5, offset: 33226},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33417},
+														pos: position{line: 1100, col: 4, offset: 33623},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33418},
-															run: (*parser).callonListContinuationElement1219,
+															pos: position{line: 1100, col: 5, offset: 33624},
+															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1100, col: 5, offset: 33624},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33418},
+																		pos: position{line: 1100, col: 5, offset: 33624},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33260},
+																			pos: position{line: 1093, col: 5, offset: 33466},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33260},
+																					pos: position{line: 1093, col: 5, offset: 33466},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33260},
+																							pos:   position{line: 1093, col: 5, offset: 33466},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1225,
+																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -34749,7 +35096,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1228,
+																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -34775,10 +35122,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 2861, col: 10, offset: 90589},
+																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2861, col: 10, offset: 90589},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34787,28 +35134,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2883, col: 8, offset: 90987},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1237,
+																													pos: position{line: 2870, col: 12, offset: 90760},
+																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2870, col: 13, offset: 90761},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34817,9 +35164,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2880, col: 8, offset: 90937},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2880, col: 9, offset: 90938,
 																													},
 																												},
 																											},
@@ -34829,45 +35176,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33291},
-																							run: (*parser).callonListContinuationElement1244,
+																							pos: position{line: 1094, col: 5, offset: 33497},
+																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33448},
+																		pos:   position{line: 1101, col: 5, offset: 33654},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1248,
+																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2878, col: 11, offset: 90923},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2878, col: 13, offset: 90925,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 2807, col: 13, offset: 89115},
+																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2807, col: 13, offset: 89115},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2807, col: 13, offset: 89115},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34877,28 +35224,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2883, col: 8, offset: 90987},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1257,
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2870, col: 13, offset: 90761},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2870, col: 13, offset: 90761},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2870, col: 20, offset: 90768},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2870, col: 29, offset: 90777},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34907,9 +35254,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2880, col: 8, offset: 90937},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2880, col: 9, offset: 90938,
 																								},
 																							},
 																						},
@@ -34924,22 +35271,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33054},
+													pos:   position{line: 1086, col: 5, offset: 33260},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33058},
+														pos: position{line: 1086, col: 9, offset: 33264},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33260},
+															pos: position{line: 1093, col: 5, offset: 33466},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33260},
+																	pos: position{line: 1093, col: 5, offset: 33466},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33260},
+																			pos:   position{line: 1093, col: 5, offset: 33466},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonListContinuationElement1269,
+																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -34948,7 +35295,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonListContinuationElement1272,
+																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -34974,10 +35321,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2861, col: 10, offset: 90589},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34986,28 +35333,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2883, col: 8, offset: 90987},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1281,
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2870, col: 13, offset: 90761},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2870, col: 13, offset: 90761},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2870, col: 20, offset: 90768},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2870, col: 29, offset: 90777},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35016,9 +35363,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2880, col: 8, offset: 90937},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2880, col: 9, offset: 90938,
 																									},
 																								},
 																							},
@@ -35028,15 +35375,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33291},
-																			run: (*parser).callonListContinuationElement1288,
+																			pos: position{line: 1094, col: 5, offset: 33497},
+																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -35047,27 +35394,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85829},
-										run: (*parser).callonListContinuationElement1291,
+										pos: position{line: 2706, col: 18, offset: 86179},
+										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2698, col: 9, offset: 85839},
+											pos: position{line: 2707, col: 9, offset: 86189},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2698, col: 9, offset: 85839},
+													pos: position{line: 2707, col: 9, offset: 86189},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85839},
+															pos:        position{line: 2707, col: 9, offset: 86189},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2698, col: 15, offset: 85845},
+															pos: position{line: 2707, col: 15, offset: 86195},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
-																run: (*parser).callonListContinuationElement1296,
+																pos: position{line: 2861, col: 10, offset: 90589},
+																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2861, col: 10, offset: 90589},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35076,28 +35423,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2874, col: 8, offset: 90637},
+															pos: position{line: 2883, col: 8, offset: 90987},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
-																	run: (*parser).callonListContinuationElement1299,
+																	pos: position{line: 2870, col: 12, offset: 90760},
+																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2870, col: 13, offset: 90761},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2870, col: 13, offset: 90761},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2870, col: 20, offset: 90768},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2870, col: 29, offset: 90777},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35106,9 +35453,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -35116,43 +35463,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2699, col: 11, offset: 85878},
+													pos: position{line: 2708, col: 11, offset: 86228},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2699, col: 12, offset: 85879},
+															pos: position{line: 2708, col: 12, offset: 86229},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2699, col: 12, offset: 85879},
+																	pos:        position{line: 2708, col: 12, offset: 86229},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 20, offset: 85887},
+																	pos:        position{line: 2708, col: 20, offset: 86237},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 30, offset: 85897},
+																	pos:        position{line: 2708, col: 30, offset: 86247},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 38, offset: 85905},
+																	pos:        position{line: 2708, col: 38, offset: 86255},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 48, offset: 85915},
+																	pos:        position{line: 2708, col: 48, offset: 86265},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 56, offset: 85923},
+																	pos:        position{line: 2708, col: 56, offset: 86273},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35160,12 +35507,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2699, col: 65, offset: 85932},
+															pos: position{line: 2708, col: 65, offset: 86282},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
-																run: (*parser).callonListContinuationElement1315,
+																pos: position{line: 2861, col: 10, offset: 90589},
+																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2861, col: 10, offset: 90589},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35174,28 +35521,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2874, col: 8, offset: 90637},
+															pos: position{line: 2883, col: 8, offset: 90987},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
-																	run: (*parser).callonListContinuationElement1318,
+																	pos: position{line: 2870, col: 12, offset: 90760},
+																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2870, col: 13, offset: 90761},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2870, col: 13, offset: 90761},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2870, col: 20, offset: 90768},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2870, col: 29, offset: 90777},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35204,38 +35551,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2699, col: 76, offset: 85943},
+															pos: position{line: 2708, col: 76, offset: 86293},
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonListContinuationElement1327,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -35244,9 +35591,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -35258,28 +35605,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49986},
+										pos:  position{line: 1556, col: 11, offset: 50232},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82765},
-										run: (*parser).callonListContinuationElement1335,
+										pos: position{line: 2597, col: 5, offset: 83115},
+										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2597, col: 5, offset: 83115},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82922},
+													pos:        position{line: 2603, col: 19, offset: 83272},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82929},
+													pos: position{line: 2603, col: 26, offset: 83279},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1339,
+														pos: position{line: 2861, col: 10, offset: 90589},
+														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35288,28 +35635,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1342,
+															pos: position{line: 2870, col: 12, offset: 90760},
+															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35318,40 +35665,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82789},
+													pos:   position{line: 2598, col: 5, offset: 83139},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82795},
+														pos: position{line: 2598, col: 11, offset: 83145},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82796},
+															pos: position{line: 2598, col: 12, offset: 83146},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1352,
+																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2869, col: 11, offset: 90573},
+																				pos: position{line: 2878, col: 11, offset: 90923},
 																				expr: &anyMatcher{
-																					line: 2869, col: 13, offset: 90575,
+																					line: 2878, col: 13, offset: 90925,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1357,
+																					pos: position{line: 2861, col: 10, offset: 90589},
+																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2861, col: 10, offset: 90589},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35360,28 +35707,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2883, col: 8, offset: 90987},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1360,
+																						pos: position{line: 2870, col: 12, offset: 90760},
+																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2870, col: 13, offset: 90761},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2870, col: 13, offset: 90761},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2870, col: 20, offset: 90768},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2870, col: 29, offset: 90777},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35390,9 +35737,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
@@ -35401,32 +35748,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83041},
-																	run: (*parser).callonListContinuationElement1367,
+																	pos: position{line: 2610, col: 5, offset: 83391},
+																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2610, col: 5, offset: 83391},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83041},
+																				pos: position{line: 2610, col: 5, offset: 83391},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83002},
+																					pos: position{line: 2607, col: 22, offset: 83352},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82922},
+																							pos: position{line: 2603, col: 19, offset: 83272},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82922},
+																									pos:        position{line: 2603, col: 19, offset: 83272},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82929},
+																									pos: position{line: 2603, col: 26, offset: 83279},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonListContinuationElement1374,
+																										pos: position{line: 2861, col: 10, offset: 90589},
+																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2861, col: 10, offset: 90589},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35435,28 +35782,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1377,
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35465,9 +35812,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
@@ -35475,59 +35822,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83064},
+																				pos:   position{line: 2611, col: 5, offset: 83414},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83082},
+																					pos: position{line: 2612, col: 9, offset: 83432},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83083},
-																							run: (*parser).callonListContinuationElement1388,
+																							pos: position{line: 2612, col: 10, offset: 83433},
+																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83083},
+																								pos:   position{line: 2612, col: 10, offset: 83433},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83090},
+																									pos: position{line: 2612, col: 17, offset: 83440},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83286},
-																											run: (*parser).callonListContinuationElement1391,
+																											pos: position{line: 2620, col: 21, offset: 83636},
+																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2620, col: 21, offset: 83636},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83286},
+																														pos:   position{line: 2620, col: 21, offset: 83636},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83292},
+																															pos: position{line: 2620, col: 27, offset: 83642},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83367},
-																																run: (*parser).callonListContinuationElement1395,
+																																pos: position{line: 2625, col: 5, offset: 83717},
+																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2625, col: 5, offset: 83717},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83367},
+																																			pos:        position{line: 2625, col: 5, offset: 83717},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83371},
+																																			pos: position{line: 2625, col: 9, offset: 83721},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2852, col: 10, offset: 90239},
-																																				run: (*parser).callonListContinuationElement1399,
+																																				pos: position{line: 2861, col: 10, offset: 90589},
+																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2852, col: 10, offset: 90239},
+																																					pos:        position{line: 2861, col: 10, offset: 90589},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35536,21 +35883,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83378},
+																																			pos:   position{line: 2625, col: 16, offset: 83728},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83578},
-																																				run: (*parser).callonListContinuationElement1402,
+																																				pos: position{line: 2631, col: 5, offset: 83928},
+																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83578},
+																																					pos:   position{line: 2631, col: 5, offset: 83928},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83587},
-																																						run: (*parser).callonListContinuationElement1404,
+																																						pos: position{line: 2631, col: 14, offset: 83937},
+																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2631, col: 14, offset: 83937},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83587},
+																																								pos:        position{line: 2631, col: 14, offset: 83937},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35567,28 +35914,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2874, col: 8, offset: 90637},
+																														pos: position{line: 2883, col: 8, offset: 90987},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2861, col: 12, offset: 90410},
-																																run: (*parser).callonListContinuationElement1408,
+																																pos: position{line: 2870, col: 12, offset: 90760},
+																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2861, col: 13, offset: 90411},
+																																	pos: position{line: 2870, col: 13, offset: 90761},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 13, offset: 90411},
+																																			pos:        position{line: 2870, col: 13, offset: 90761},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 20, offset: 90418},
+																																			pos:        position{line: 2870, col: 20, offset: 90768},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 29, offset: 90427},
+																																			pos:        position{line: 2870, col: 29, offset: 90777},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35597,9 +35944,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2871, col: 8, offset: 90587},
+																																pos: position{line: 2880, col: 8, offset: 90937},
 																																expr: &anyMatcher{
-																																	line: 2871, col: 9, offset: 90588,
+																																	line: 2880, col: 9, offset: 90938,
 																																},
 																															},
 																														},
@@ -35608,40 +35955,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83723},
-																											run: (*parser).callonListContinuationElement1415,
+																											pos: position{line: 2637, col: 24, offset: 84073},
+																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83723},
+																												pos:   position{line: 2637, col: 24, offset: 84073},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83729},
+																													pos: position{line: 2637, col: 30, offset: 84079},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83805},
-																														run: (*parser).callonListContinuationElement1418,
+																														pos: position{line: 2642, col: 5, offset: 84155},
+																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2642, col: 5, offset: 84155},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83805},
+																																	pos: position{line: 2642, col: 5, offset: 84155},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83002},
+																																		pos: position{line: 2607, col: 22, offset: 83352},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82922},
+																																				pos: position{line: 2603, col: 19, offset: 83272},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82922},
+																																						pos:        position{line: 2603, col: 19, offset: 83272},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82929},
+																																						pos: position{line: 2603, col: 26, offset: 83279},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonListContinuationElement1425,
+																																							pos: position{line: 2861, col: 10, offset: 90589},
+																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2861, col: 10, offset: 90589},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35650,28 +35997,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2883, col: 8, offset: 90987},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonListContinuationElement1428,
+																																								pos: position{line: 2870, col: 12, offset: 90760},
+																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2870, col: 13, offset: 90761},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2870, col: 13, offset: 90761},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2870, col: 20, offset: 90768},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2870, col: 29, offset: 90777},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35680,9 +36027,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2880, col: 8, offset: 90937},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2880, col: 9, offset: 90938,
 																																								},
 																																							},
 																																						},
@@ -35690,35 +36037,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2871, col: 8, offset: 90587},
+																																				pos: position{line: 2880, col: 8, offset: 90937},
 																																				expr: &anyMatcher{
-																																					line: 2871, col: 9, offset: 90588,
+																																					line: 2880, col: 9, offset: 90938,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83828},
+																																	pos: position{line: 2643, col: 5, offset: 84178},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1438,
+																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2869, col: 11, offset: 90573},
+																																					pos: position{line: 2878, col: 11, offset: 90923},
 																																					expr: &anyMatcher{
-																																						line: 2869, col: 13, offset: 90575,
+																																						line: 2878, col: 13, offset: 90925,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2852, col: 10, offset: 90239},
-																																						run: (*parser).callonListContinuationElement1443,
+																																						pos: position{line: 2861, col: 10, offset: 90589},
+																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2852, col: 10, offset: 90239},
+																																							pos:        position{line: 2861, col: 10, offset: 90589},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35727,28 +36074,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2874, col: 8, offset: 90637},
+																																					pos: position{line: 2883, col: 8, offset: 90987},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2861, col: 12, offset: 90410},
-																																							run: (*parser).callonListContinuationElement1446,
+																																							pos: position{line: 2870, col: 12, offset: 90760},
+																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2861, col: 13, offset: 90411},
+																																								pos: position{line: 2870, col: 13, offset: 90761},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 13, offset: 90411},
+																																										pos:        position{line: 2870, col: 13, offset: 90761},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 20, offset: 90418},
+																																										pos:        position{line: 2870, col: 20, offset: 90768},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 29, offset: 90427},
+																																										pos:        position{line: 2870, col: 29, offset: 90777},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35757,9 +36104,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2871, col: 8, offset: 90587},
+																																							pos: position{line: 2880, col: 8, offset: 90937},
 																																							expr: &anyMatcher{
-																																								line: 2871, col: 9, offset: 90588,
+																																								line: 2880, col: 9, offset: 90938,
 																																							},
 																																						},
 																																					},
@@ -35769,17 +36116,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83843},
+																																	pos:   position{line: 2644, col: 5, offset: 84193},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83850},
+																																		pos: position{line: 2644, col: 12, offset: 84200},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84314},
-																																			run: (*parser).callonListContinuationElement1455,
+																																			pos: position{line: 2661, col: 20, offset: 84664},
+																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2661, col: 20, offset: 84664},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84314},
+																																					pos:        position{line: 2661, col: 20, offset: 84664},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35790,18 +36137,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83869},
+																																	pos:        position{line: 2644, col: 31, offset: 84219},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83873},
+																																	pos: position{line: 2644, col: 35, offset: 84223},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2852, col: 10, offset: 90239},
-																																		run: (*parser).callonListContinuationElement1460,
+																																		pos: position{line: 2861, col: 10, offset: 90589},
+																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2852, col: 10, offset: 90239},
+																																			pos:        position{line: 2861, col: 10, offset: 90589},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35810,27 +36157,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83880},
+																																	pos: position{line: 2644, col: 42, offset: 84230},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 12, offset: 90410},
-																																		run: (*parser).callonListContinuationElement1463,
+																																		pos: position{line: 2870, col: 12, offset: 90760},
+																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2861, col: 13, offset: 90411},
+																																			pos: position{line: 2870, col: 13, offset: 90761},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 13, offset: 90411},
+																																					pos:        position{line: 2870, col: 13, offset: 90761},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 20, offset: 90418},
+																																					pos:        position{line: 2870, col: 20, offset: 90768},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 29, offset: 90427},
+																																					pos:        position{line: 2870, col: 29, offset: 90777},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35840,37 +36187,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83889},
+																																	pos:   position{line: 2644, col: 51, offset: 84239},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84048},
+																																		pos: position{line: 2650, col: 5, offset: 84398},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84058},
-																																			run: (*parser).callonListContinuationElement1470,
+																																			pos: position{line: 2651, col: 9, offset: 84408},
+																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2651, col: 9, offset: 84408},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84058},
+																																						pos: position{line: 2651, col: 9, offset: 84408},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83002},
+																																							pos: position{line: 2607, col: 22, offset: 83352},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82922},
+																																									pos: position{line: 2603, col: 19, offset: 83272},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82922},
+																																											pos:        position{line: 2603, col: 19, offset: 83272},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82929},
+																																											pos: position{line: 2603, col: 26, offset: 83279},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonListContinuationElement1477,
+																																												pos: position{line: 2861, col: 10, offset: 90589},
+																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2861, col: 10, offset: 90589},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35879,28 +36226,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2883, col: 8, offset: 90987},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonListContinuationElement1480,
+																																													pos: position{line: 2870, col: 12, offset: 90760},
+																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2870, col: 13, offset: 90761},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2870, col: 13, offset: 90761},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2870, col: 20, offset: 90768},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2870, col: 29, offset: 90777},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35909,9 +36256,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2880, col: 8, offset: 90937},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2880, col: 9, offset: 90938,
 																																													},
 																																												},
 																																											},
@@ -35919,35 +36266,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2880, col: 8, offset: 90937},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2880, col: 9, offset: 90938,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84085},
+																																						pos: position{line: 2652, col: 9, offset: 84435},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1490,
+																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2869, col: 11, offset: 90573},
+																																										pos: position{line: 2878, col: 11, offset: 90923},
 																																										expr: &anyMatcher{
-																																											line: 2869, col: 13, offset: 90575,
+																																											line: 2878, col: 13, offset: 90925,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2852, col: 10, offset: 90239},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											pos: position{line: 2861, col: 10, offset: 90589},
+																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2852, col: 10, offset: 90239},
+																																												pos:        position{line: 2861, col: 10, offset: 90589},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35956,28 +36303,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2874, col: 8, offset: 90637},
+																																										pos: position{line: 2883, col: 8, offset: 90987},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2861, col: 12, offset: 90410},
-																																												run: (*parser).callonListContinuationElement1498,
+																																												pos: position{line: 2870, col: 12, offset: 90760},
+																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2861, col: 13, offset: 90411},
+																																													pos: position{line: 2870, col: 13, offset: 90761},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 13, offset: 90411},
+																																															pos:        position{line: 2870, col: 13, offset: 90761},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 20, offset: 90418},
+																																															pos:        position{line: 2870, col: 20, offset: 90768},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 29, offset: 90427},
+																																															pos:        position{line: 2870, col: 29, offset: 90777},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35986,9 +36333,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2871, col: 8, offset: 90587},
+																																												pos: position{line: 2880, col: 8, offset: 90937},
 																																												expr: &anyMatcher{
-																																													line: 2871, col: 9, offset: 90588,
+																																													line: 2880, col: 9, offset: 90938,
 																																												},
 																																											},
 																																										},
@@ -35998,22 +36345,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84104},
+																																						pos: position{line: 2653, col: 9, offset: 84454},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84106},
+																																							pos: position{line: 2653, col: 11, offset: 84456},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84106},
+																																									pos:   position{line: 2653, col: 11, offset: 84456},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84113},
+																																										pos: position{line: 2653, col: 18, offset: 84463},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84314},
-																																											run: (*parser).callonListContinuationElement1509,
+																																											pos: position{line: 2661, col: 20, offset: 84664},
+																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2661, col: 20, offset: 84664},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84314},
+																																													pos:        position{line: 2661, col: 20, offset: 84664},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36024,7 +36371,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84132},
+																																									pos:        position{line: 2653, col: 37, offset: 84482},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36033,15 +36380,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84145},
+																																						pos:   position{line: 2654, col: 9, offset: 84495},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84154},
-																																							run: (*parser).callonListContinuationElement1514,
+																																							pos: position{line: 2654, col: 18, offset: 84504},
+																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2654, col: 18, offset: 84504},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84154},
+																																									pos:        position{line: 2654, col: 18, offset: 84504},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36051,30 +36398,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84216},
+																																						pos: position{line: 2656, col: 12, offset: 84566},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2883, col: 8, offset: 90987},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonListContinuationElement1519,
+																																									pos: position{line: 2870, col: 12, offset: 90760},
+																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2870, col: 13, offset: 90761},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2870, col: 13, offset: 90761},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2870, col: 20, offset: 90768},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2870, col: 29, offset: 90777},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36083,9 +36430,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2880, col: 8, offset: 90937},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2880, col: 9, offset: 90938,
 																																									},
 																																								},
 																																							},
@@ -36108,23 +36455,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1526,
+																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2878, col: 11, offset: 90923},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2878, col: 13, offset: 90925,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonListContinuationElement1531,
+																											pos: position{line: 2861, col: 10, offset: 90589},
+																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2861, col: 10, offset: 90589},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36133,28 +36480,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2883, col: 8, offset: 90987},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonListContinuationElement1534,
+																												pos: position{line: 2870, col: 12, offset: 90760},
+																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2870, col: 13, offset: 90761},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2870, col: 13, offset: 90761},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2870, col: 20, offset: 90768},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2870, col: 29, offset: 90777},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36163,9 +36510,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2880, col: 8, offset: 90937},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2880, col: 9, offset: 90938,
 																												},
 																											},
 																										},
@@ -36184,24 +36531,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83002},
+													pos: position{line: 2607, col: 22, offset: 83352},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82922},
+															pos: position{line: 2603, col: 19, offset: 83272},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82922},
+																	pos:        position{line: 2603, col: 19, offset: 83272},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82929},
+																	pos: position{line: 2603, col: 26, offset: 83279},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1545,
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36210,28 +36557,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1548,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36240,9 +36587,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -36250,9 +36597,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -36261,36 +36608,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
-										run: (*parser).callonListContinuationElement1557,
+										pos: position{line: 2471, col: 22, offset: 79574},
+										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2471, col: 22, offset: 79574},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2476, col: 31, offset: 79795},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2476, col: 36, offset: 79800},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2476, col: 37, offset: 79801},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2471, col: 49, offset: 79601},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonListContinuationElement1563,
+														pos: position{line: 2807, col: 13, offset: 89115},
+														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2807, col: 13, offset: 89115},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2807, col: 13, offset: 89115},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36300,28 +36647,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2883, col: 8, offset: 90987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1567,
+															pos: position{line: 2870, col: 12, offset: 90760},
+															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36330,9 +36677,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2880, col: 8, offset: 90937},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2880, col: 9, offset: 90938,
 															},
 														},
 													},
@@ -36341,94 +36688,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50416},
-										run: (*parser).callonListContinuationElement1574,
+										pos: position{line: 1569, col: 5, offset: 50662},
+										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50416},
+											pos: position{line: 1569, col: 5, offset: 50662},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50416},
+													pos:   position{line: 1569, col: 5, offset: 50662},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50422},
+														pos: position{line: 1569, col: 11, offset: 50668},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55739},
-															run: (*parser).callonListContinuationElement1578,
+															pos: position{line: 1733, col: 5, offset: 55985},
+															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55739},
+																pos: position{line: 1733, col: 5, offset: 55985},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55739},
-																		run: (*parser).callonListContinuationElement1580,
+																		pos: position{line: 1733, col: 5, offset: 55985},
+																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55802},
+																		pos:   position{line: 1736, col: 5, offset: 56048},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55809},
+																			pos: position{line: 1736, col: 12, offset: 56055},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55809},
-																					run: (*parser).callonListContinuationElement1583,
+																					pos: position{line: 1736, col: 12, offset: 56055},
+																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55809},
+																						pos:        position{line: 1736, col: 12, offset: 56055},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55865},
-																					run: (*parser).callonListContinuationElement1585,
+																					pos: position{line: 1738, col: 13, offset: 56111},
+																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55865},
+																						pos:        position{line: 1738, col: 13, offset: 56111},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55923},
-																					run: (*parser).callonListContinuationElement1587,
+																					pos: position{line: 1740, col: 13, offset: 56169},
+																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55923},
+																						pos:        position{line: 1740, col: 13, offset: 56169},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55991},
-																					run: (*parser).callonListContinuationElement1589,
+																					pos: position{line: 1742, col: 13, offset: 56237},
+																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55991},
+																						pos:        position{line: 1742, col: 13, offset: 56237},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56055},
-																					run: (*parser).callonListContinuationElement1591,
+																					pos: position{line: 1744, col: 13, offset: 56301},
+																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56055},
+																						pos:        position{line: 1744, col: 13, offset: 56301},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56119},
-																					run: (*parser).callonListContinuationElement1593,
+																					pos: position{line: 1746, col: 13, offset: 56365},
+																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56119},
+																						pos: position{line: 1746, col: 13, offset: 56365},
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
-																							run: (*parser).callonListContinuationElement1595,
+																							pos: position{line: 2865, col: 11, offset: 90650},
+																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2865, col: 11, offset: 90650},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2865, col: 11, offset: 90650},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36447,35 +36794,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50445},
+													pos:   position{line: 1570, col: 5, offset: 50691},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48781},
-														run: (*parser).callonListContinuationElement1599,
+														pos: position{line: 1513, col: 5, offset: 48987},
+														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48781},
+															pos: position{line: 1513, col: 5, offset: 48987},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48781},
+																	pos: position{line: 1513, col: 5, offset: 48987},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1602,
+																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2878, col: 11, offset: 90923},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2878, col: 13, offset: 90925,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1607,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36484,28 +36831,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2883, col: 8, offset: 90987},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement1610,
+																							pos: position{line: 2870, col: 12, offset: 90760},
+																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36514,9 +36861,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2880, col: 8, offset: 90937},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2880, col: 9, offset: 90938,
 																							},
 																						},
 																					},
@@ -36526,23 +36873,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48796},
+																	pos: position{line: 1514, col: 5, offset: 49002},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49661},
+																		pos: position{line: 1544, col: 27, offset: 49907},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49661},
+																				pos:        position{line: 1544, col: 27, offset: 49907},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49665},
+																				pos: position{line: 1544, col: 31, offset: 49911},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1621,
+																					pos: position{line: 2861, col: 10, offset: 90589},
+																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2861, col: 10, offset: 90589},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36551,25 +36898,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonListContinuationElement1623,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36581,20 +36928,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48824},
+																	pos: position{line: 1515, col: 5, offset: 49030},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1629,
+																		pos: position{line: 1585, col: 5, offset: 51101},
+																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50855},
+																			pos: position{line: 1585, col: 5, offset: 51101},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51101},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1632,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36603,27 +36950,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50862},
+																					pos:   position{line: 1585, col: 12, offset: 51108},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50925},
+																						pos: position{line: 1587, col: 9, offset: 51171},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1636,
+																								pos: position{line: 1587, col: 9, offset: 51171},
+																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50925},
+																									pos: position{line: 1587, col: 9, offset: 51171},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50925},
+																											pos:   position{line: 1587, col: 9, offset: 51171},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1639,
+																												pos: position{line: 1587, col: 16, offset: 51178},
+																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50932},
+																													pos: position{line: 1587, col: 16, offset: 51178},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50933},
+																														pos:        position{line: 1587, col: 17, offset: 51179},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36632,22 +36979,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1642,
+																											pos: position{line: 1591, col: 9, offset: 51279},
+																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1643,
+																								pos: position{line: 1610, col: 11, offset: 51996},
+																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51750},
+																									pos: position{line: 1610, col: 11, offset: 51996},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51996},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51751},
+																												pos:        position{line: 1610, col: 12, offset: 51997},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36655,7 +37002,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51759},
+																											pos:        position{line: 1610, col: 20, offset: 52005},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36664,20 +37011,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1648,
+																								pos: position{line: 1612, col: 13, offset: 52122},
+																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51876},
+																									pos: position{line: 1612, col: 13, offset: 52122},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51877},
+																											pos:        position{line: 1612, col: 14, offset: 52123},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51884},
+																											pos:        position{line: 1612, col: 21, offset: 52130},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36686,20 +37033,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1652,
+																								pos: position{line: 1614, col: 13, offset: 52250},
+																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52004},
+																									pos: position{line: 1614, col: 13, offset: 52250},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52005},
+																											pos:        position{line: 1614, col: 14, offset: 52251},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52012},
+																											pos:        position{line: 1614, col: 21, offset: 52258},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36708,15 +37055,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1656,
+																								pos: position{line: 1616, col: 13, offset: 52378},
+																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52132},
+																									pos: position{line: 1616, col: 13, offset: 52378},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52378},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52133},
+																												pos:        position{line: 1616, col: 14, offset: 52379},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36724,7 +37071,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52145},
+																											pos:        position{line: 1616, col: 26, offset: 52391},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36733,15 +37080,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1661,
+																								pos: position{line: 1618, col: 13, offset: 52511},
+																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52265},
+																									pos: position{line: 1618, col: 13, offset: 52511},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52511},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52266},
+																												pos:        position{line: 1618, col: 14, offset: 52512},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36749,7 +37096,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52278},
+																											pos:        position{line: 1618, col: 26, offset: 52524},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36761,12 +37108,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1666,
+																					pos: position{line: 2865, col: 11, offset: 90650},
+																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2865, col: 11, offset: 90650},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2865, col: 11, offset: 90650},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36779,20 +37126,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48854},
+																	pos: position{line: 1516, col: 5, offset: 49060},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1670,
+																		pos: position{line: 1635, col: 5, offset: 53063},
+																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52817},
+																			pos: position{line: 1635, col: 5, offset: 53063},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53063},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1673,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36801,24 +37148,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52829},
+																					pos:   position{line: 1636, col: 5, offset: 53075},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1676,
+																						pos: position{line: 1637, col: 9, offset: 53091},
+																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52846},
+																							pos: position{line: 1637, col: 10, offset: 53092},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52847},
+																									pos:        position{line: 1637, col: 11, offset: 53093},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52854},
+																									pos: position{line: 1637, col: 18, offset: 53100},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52855},
+																										pos:        position{line: 1637, col: 19, offset: 53101},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36829,16 +37176,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1681,
+																					pos: position{line: 1640, col: 7, offset: 53191},
+																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1682,
+																					pos: position{line: 2865, col: 11, offset: 90650},
+																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2865, col: 11, offset: 90650},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2865, col: 11, offset: 90650},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36851,29 +37198,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48886},
+																	pos: position{line: 1517, col: 5, offset: 49092},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1686,
+																		pos: position{line: 1724, col: 5, offset: 55600},
+																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55354},
+																			pos: position{line: 1724, col: 5, offset: 55600},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55354},
+																					pos:        position{line: 1724, col: 5, offset: 55600},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55358},
+																					pos:   position{line: 1724, col: 9, offset: 55604},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1690,
+																						pos: position{line: 1724, col: 14, offset: 55609},
+																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55363},
+																							pos: position{line: 1724, col: 14, offset: 55609},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55363},
+																								pos:        position{line: 1724, col: 14, offset: 55609},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36883,18 +37230,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55411},
+																					pos:        position{line: 1724, col: 62, offset: 55657},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1694,
+																					pos: position{line: 2865, col: 11, offset: 90650},
+																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2865, col: 11, offset: 90650},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2865, col: 11, offset: 90650},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36907,36 +37254,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48916},
+																	pos: position{line: 1518, col: 5, offset: 49122},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48918},
+																		pos: position{line: 1518, col: 7, offset: 49124},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1699,
+																				pos: position{line: 1670, col: 5, offset: 54082},
+																				run: (*parser).callonListContinuationElement1707,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54082},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54083},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54083},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1703,
+																									pos: position{line: 1675, col: 5, offset: 54233},
+																									run: (*parser).callonListContinuationElement1711,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54233},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54233},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1706,
+																													pos: position{line: 1675, col: 16, offset: 54244},
+																													run: (*parser).callonListContinuationElement1714,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54244},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54245},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36945,38 +37292,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1709,
+																												pos: position{line: 1678, col: 5, offset: 54302},
+																												run: (*parser).callonListContinuationElement1717,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54112},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2883, col: 8, offset: 90987},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1712,
+																											pos: position{line: 2870, col: 12, offset: 90760},
+																											run: (*parser).callonListContinuationElement1720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2870, col: 13, offset: 90761},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2870, col: 13, offset: 90761},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2870, col: 20, offset: 90768},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2870, col: 29, offset: 90777},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36985,37 +37332,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2880, col: 8, offset: 90937},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2880, col: 9, offset: 90938,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54117,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1720,
+																				pos: position{line: 1675, col: 5, offset: 54233},
+																				run: (*parser).callonListContinuationElement1728,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54233},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54233},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1723,
+																								pos: position{line: 1675, col: 16, offset: 54244},
+																								run: (*parser).callonListContinuationElement1731,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54245},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37024,20 +37371,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1726,
+																							pos: position{line: 1678, col: 5, offset: 54302},
+																							run: (*parser).callonListContinuationElement1734,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1510, col: 59, offset: 48970},
+																				pos: position{line: 1518, col: 59, offset: 49176},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1728,
+																						pos: position{line: 2861, col: 10, offset: 90589},
+																						run: (*parser).callonListContinuationElement1736,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2861, col: 10, offset: 90589},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37045,25 +37392,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1730,
+																						pos: position{line: 2870, col: 12, offset: 90760},
+																						run: (*parser).callonListContinuationElement1738,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2870, col: 13, offset: 90761},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2870, col: 13, offset: 90761},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2870, col: 20, offset: 90768},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2870, col: 29, offset: 90777},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37072,9 +37419,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2880, col: 8, offset: 90937},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2880, col: 9, offset: 90938,
 																						},
 																					},
 																				},
@@ -37083,821 +37430,826 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48988},
-																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1738,
-																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
-																			exprs: []interface{}{
-																				&notExpr{
+																	pos: position{line: 1519, col: 5, offset: 49194},
+																	expr: &choiceExpr{
+																		pos: position{line: 1519, col: 7, offset: 49196},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 724, col: 5, offset: 23042},
+																				run: (*parser).callonListContinuationElement1747,
+																				expr: &seqExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2742, col: 13, offset: 87334},
-																						val:        "[\\pL\\pN]",
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23072},
-																					label: "delimiter",
-																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23092},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1744,
-																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1747,
-																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
-																															val:        "////",
-																															ignoreCase: false,
-																															want:       "\"////\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
-																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
-																																val:        "/",
-																																ignoreCase: false,
-																																want:       "\"/\"",
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 724, col: 5, offset: 23042},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2751, col: 13, offset: 87684},
+																								val:        "[\\pL\\pN]",
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 725, col: 5, offset: 23072},
+																							label: "delimiter",
+																							expr: &choiceExpr{
+																								pos: position{line: 726, col: 9, offset: 23092},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 740, col: 5, offset: 23584},
+																										run: (*parser).callonListContinuationElement1753,
+																										expr: &seqExpr{
+																											pos: position{line: 740, col: 5, offset: 23584},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 740, col: 5, offset: 23584},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														run: (*parser).callonListContinuationElement1756,
+																														expr: &seqExpr{
+																															pos: position{line: 740, col: 16, offset: 23595},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 740, col: 16, offset: 23595},
+																																	val:        "////",
+																																	ignoreCase: false,
+																																	want:       "\"////\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 740, col: 23, offset: 23602},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 740, col: 23, offset: 23602},
+																																		val:        "/",
+																																		ignoreCase: false,
+																																		want:       "\"/\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1753,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 742, col: 8, offset: 23686},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1762,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1756,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1765,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1763,
-																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1766,
-																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
-																															val:        "====",
-																															ignoreCase: false,
-																															want:       "\"====\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
-																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
-																																val:        "=",
-																																ignoreCase: false,
-																																want:       "\"=\"",
+																									&actionExpr{
+																										pos: position{line: 747, col: 5, offset: 23832},
+																										run: (*parser).callonListContinuationElement1772,
+																										expr: &seqExpr{
+																											pos: position{line: 747, col: 5, offset: 23832},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 747, col: 5, offset: 23832},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 747, col: 16, offset: 23843},
+																														run: (*parser).callonListContinuationElement1775,
+																														expr: &seqExpr{
+																															pos: position{line: 747, col: 16, offset: 23843},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 747, col: 16, offset: 23843},
+																																	val:        "====",
+																																	ignoreCase: false,
+																																	want:       "\"====\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 747, col: 23, offset: 23850},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 747, col: 23, offset: 23850},
+																																		val:        "=",
+																																		ignoreCase: false,
+																																		want:       "\"=\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1772,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 749, col: 8, offset: 23934},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1781,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1775,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1784,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1782,
-																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24320},
-																									exprs: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24320},
-																											val:        "```",
-																											ignoreCase: false,
-																											want:       "\"```\"",
-																										},
-																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24326},
-																											label: "language",
-																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1786,
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24457},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24457},
-																														val:        "[^\\r\\n` ]",
-																														chars:      []rune{'\r', '\n', '`', ' '},
-																														ignoreCase: false,
-																														inverted:   true,
-																													},
-																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24346},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1790,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
+																									&actionExpr{
+																										pos: position{line: 760, col: 26, offset: 24320},
+																										run: (*parser).callonListContinuationElement1791,
+																										expr: &seqExpr{
+																											pos: position{line: 760, col: 26, offset: 24320},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 760, col: 26, offset: 24320},
+																													val:        "```",
 																													ignoreCase: false,
-																													inverted:   false,
+																													want:       "\"```\"",
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1793,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
+																												&labeledExpr{
+																													pos:   position{line: 760, col: 32, offset: 24326},
+																													label: "language",
+																													expr: &actionExpr{
+																														pos: position{line: 764, col: 13, offset: 24456},
+																														run: (*parser).callonListContinuationElement1795,
+																														expr: &oneOrMoreExpr{
+																															pos: position{line: 764, col: 14, offset: 24457},
+																															expr: &charClassMatcher{
+																																pos:        position{line: 764, col: 14, offset: 24457},
+																																val:        "[^\\r\\n` ]",
+																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																																inverted:   true,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 760, col: 52, offset: 24346},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1799,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1802,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
+																															},
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
+																															},
+																														},
 																													},
 																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1800,
-																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1803,
-																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
-																															val:        "```",
-																															ignoreCase: false,
-																															want:       "\"```\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
-																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
-																																val:        "`",
-																																ignoreCase: false,
-																																want:       "\"`\"",
+																									&actionExpr{
+																										pos: position{line: 754, col: 5, offset: 24079},
+																										run: (*parser).callonListContinuationElement1809,
+																										expr: &seqExpr{
+																											pos: position{line: 754, col: 5, offset: 24079},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 754, col: 5, offset: 24079},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 754, col: 16, offset: 24090},
+																														run: (*parser).callonListContinuationElement1812,
+																														expr: &seqExpr{
+																															pos: position{line: 754, col: 16, offset: 24090},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 754, col: 16, offset: 24090},
+																																	val:        "```",
+																																	ignoreCase: false,
+																																	want:       "\"```\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 754, col: 22, offset: 24096},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 754, col: 22, offset: 24096},
+																																		val:        "`",
+																																		ignoreCase: false,
+																																		want:       "\"`\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1809,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 756, col: 8, offset: 24180},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1818,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1812,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1821,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1819,
-																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1822,
-																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
-																															val:        "----",
-																															ignoreCase: false,
-																															want:       "\"----\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
-																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
-																																val:        "-",
-																																ignoreCase: false,
-																																want:       "\"-\"",
+																									&actionExpr{
+																										pos: position{line: 769, col: 5, offset: 24616},
+																										run: (*parser).callonListContinuationElement1828,
+																										expr: &seqExpr{
+																											pos: position{line: 769, col: 5, offset: 24616},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 769, col: 5, offset: 24616},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 769, col: 16, offset: 24627},
+																														run: (*parser).callonListContinuationElement1831,
+																														expr: &seqExpr{
+																															pos: position{line: 769, col: 16, offset: 24627},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 769, col: 16, offset: 24627},
+																																	val:        "----",
+																																	ignoreCase: false,
+																																	want:       "\"----\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 769, col: 23, offset: 24634},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 769, col: 23, offset: 24634},
+																																		val:        "-",
+																																		ignoreCase: false,
+																																		want:       "\"-\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1828,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 771, col: 8, offset: 24718},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1837,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1831,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1840,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1838,
-																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1841,
-																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
-																															val:        "....",
-																															ignoreCase: false,
-																															want:       "\"....\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
-																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
-																																val:        ".",
-																																ignoreCase: false,
-																																want:       "\".\"",
+																									&actionExpr{
+																										pos: position{line: 783, col: 5, offset: 25092},
+																										run: (*parser).callonListContinuationElement1847,
+																										expr: &seqExpr{
+																											pos: position{line: 783, col: 5, offset: 25092},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 783, col: 5, offset: 25092},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 783, col: 16, offset: 25103},
+																														run: (*parser).callonListContinuationElement1850,
+																														expr: &seqExpr{
+																															pos: position{line: 783, col: 16, offset: 25103},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 783, col: 16, offset: 25103},
+																																	val:        "....",
+																																	ignoreCase: false,
+																																	want:       "\"....\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 783, col: 23, offset: 25110},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 783, col: 23, offset: 25110},
+																																		val:        ".",
+																																		ignoreCase: false,
+																																		want:       "\".\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1847,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 785, col: 8, offset: 25194},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1856,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1850,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1859,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1857,
-																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1860,
-																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
-																															val:        "++++",
-																															ignoreCase: false,
-																															want:       "\"++++\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
-																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
-																																val:        "+",
-																																ignoreCase: false,
-																																want:       "\"+\"",
+																									&actionExpr{
+																										pos: position{line: 790, col: 5, offset: 25344},
+																										run: (*parser).callonListContinuationElement1866,
+																										expr: &seqExpr{
+																											pos: position{line: 790, col: 5, offset: 25344},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 790, col: 5, offset: 25344},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 790, col: 16, offset: 25355},
+																														run: (*parser).callonListContinuationElement1869,
+																														expr: &seqExpr{
+																															pos: position{line: 790, col: 16, offset: 25355},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 790, col: 16, offset: 25355},
+																																	val:        "++++",
+																																	ignoreCase: false,
+																																	want:       "\"++++\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 790, col: 23, offset: 25362},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 790, col: 23, offset: 25362},
+																																		val:        "+",
+																																		ignoreCase: false,
+																																		want:       "\"+\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1866,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 792, col: 8, offset: 25446},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1875,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1869,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1878,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1876,
-																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1879,
-																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
-																															val:        "____",
-																															ignoreCase: false,
-																															want:       "\"____\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
-																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
-																																val:        "_",
-																																ignoreCase: false,
-																																want:       "\"_\"",
+																									&actionExpr{
+																										pos: position{line: 797, col: 5, offset: 25594},
+																										run: (*parser).callonListContinuationElement1885,
+																										expr: &seqExpr{
+																											pos: position{line: 797, col: 5, offset: 25594},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 797, col: 5, offset: 25594},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 797, col: 16, offset: 25605},
+																														run: (*parser).callonListContinuationElement1888,
+																														expr: &seqExpr{
+																															pos: position{line: 797, col: 16, offset: 25605},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 797, col: 16, offset: 25605},
+																																	val:        "____",
+																																	ignoreCase: false,
+																																	want:       "\"____\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 797, col: 23, offset: 25612},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 797, col: 23, offset: 25612},
+																																		val:        "_",
+																																		ignoreCase: false,
+																																		want:       "\"_\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1885,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 799, col: 8, offset: 25696},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1894,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1888,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1897,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1895,
-																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
-																									exprs: []interface{}{
-																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
-																											label: "delimiter",
-																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1898,
-																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
-																													exprs: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
-																															val:        "****",
-																															ignoreCase: false,
-																															want:       "\"****\"",
-																														},
-																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
-																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
-																																val:        "*",
-																																ignoreCase: false,
-																																want:       "\"*\"",
+																									&actionExpr{
+																										pos: position{line: 804, col: 5, offset: 25840},
+																										run: (*parser).callonListContinuationElement1904,
+																										expr: &seqExpr{
+																											pos: position{line: 804, col: 5, offset: 25840},
+																											exprs: []interface{}{
+																												&labeledExpr{
+																													pos:   position{line: 804, col: 5, offset: 25840},
+																													label: "delimiter",
+																													expr: &actionExpr{
+																														pos: position{line: 804, col: 16, offset: 25851},
+																														run: (*parser).callonListContinuationElement1907,
+																														expr: &seqExpr{
+																															pos: position{line: 804, col: 16, offset: 25851},
+																															exprs: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 804, col: 16, offset: 25851},
+																																	val:        "****",
+																																	ignoreCase: false,
+																																	want:       "\"****\"",
+																																},
+																																&zeroOrMoreExpr{
+																																	pos: position{line: 804, col: 23, offset: 25858},
+																																	expr: &litMatcher{
+																																		pos:        position{line: 804, col: 23, offset: 25858},
+																																		val:        "*",
+																																		ignoreCase: false,
+																																		want:       "\"*\"",
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
-																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1904,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
+																												&zeroOrMoreExpr{
+																													pos: position{line: 806, col: 8, offset: 25942},
+																													expr: &actionExpr{
+																														pos: position{line: 2861, col: 10, offset: 90589},
+																														run: (*parser).callonListContinuationElement1913,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1907,
-																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
-																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																												&choiceExpr{
+																													pos: position{line: 2883, col: 8, offset: 90987},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2870, col: 12, offset: 90760},
+																															run: (*parser).callonListContinuationElement1916,
+																															expr: &choiceExpr{
+																																pos: position{line: 2870, col: 13, offset: 90761},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
+																																	},
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&notExpr{
+																															pos: position{line: 2880, col: 8, offset: 90937},
+																															expr: &anyMatcher{
+																																line: 2880, col: 9, offset: 90938,
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
-																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
-																													},
-																												},
 																											},
 																										},
 																									},
@@ -37907,50 +38259,1598 @@ var g = &grammar{
 																					},
 																				},
 																			},
+																			&actionExpr{
+																				pos: position{line: 776, col: 5, offset: 24861},
+																				run: (*parser).callonListContinuationElement1923,
+																				expr: &seqExpr{
+																					pos: position{line: 776, col: 5, offset: 24861},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 776, col: 5, offset: 24861},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 776, col: 16, offset: 24872},
+																								run: (*parser).callonListContinuationElement1926,
+																								expr: &litMatcher{
+																									pos:        position{line: 776, col: 16, offset: 24872},
+																									val:        "--",
+																									ignoreCase: false,
+																									want:       "\"--\"",
+																								},
+																							},
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 778, col: 8, offset: 24949},
+																							expr: &actionExpr{
+																								pos: position{line: 2861, col: 10, offset: 90589},
+																								run: (*parser).callonListContinuationElement1929,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2883, col: 8, offset: 90987},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2870, col: 12, offset: 90760},
+																									run: (*parser).callonListContinuationElement1932,
+																									expr: &choiceExpr{
+																										pos: position{line: 2870, col: 13, offset: 90761},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2880, col: 8, offset: 90937},
+																									expr: &anyMatcher{
+																										line: 2880, col: 9, offset: 90938,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&seqExpr{
+																				pos: position{line: 2603, col: 19, offset: 83272},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2603, col: 19, offset: 83272},
+																						val:        "|===",
+																						ignoreCase: false,
+																						want:       "\"|===\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 2603, col: 26, offset: 83279},
+																						expr: &actionExpr{
+																							pos: position{line: 2861, col: 10, offset: 90589},
+																							run: (*parser).callonListContinuationElement1942,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																					&choiceExpr{
+																						pos: position{line: 2883, col: 8, offset: 90987},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2870, col: 12, offset: 90760},
+																								run: (*parser).callonListContinuationElement1945,
+																								expr: &choiceExpr{
+																									pos: position{line: 2870, col: 13, offset: 90761},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
+																							},
+																							&notExpr{
+																								pos: position{line: 2880, col: 8, offset: 90937},
+																								expr: &anyMatcher{
+																									line: 2880, col: 9, offset: 90938,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+																&labeledExpr{
+																	pos:   position{line: 1520, col: 5, offset: 49254},
+																	label: "content",
+																	expr: &actionExpr{
+																		pos: position{line: 2811, col: 14, offset: 89182},
+																		run: (*parser).callonListContinuationElement1953,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2811, col: 14, offset: 89182},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2811, col: 14, offset: 89182},
+																				val:        "[^\\r\\n]",
+																				chars:      []rune{'\r', '\n'},
+																				ignoreCase: false,
+																				inverted:   true,
+																			},
+																		},
+																	},
+																},
+																&choiceExpr{
+																	pos: position{line: 2883, col: 8, offset: 90987},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonListContinuationElement1957,
+																			expr: &choiceExpr{
+																				pos: position{line: 2870, col: 13, offset: 90761},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
+																				},
+																			},
+																		},
+																		&notExpr{
+																			pos: position{line: 2880, col: 8, offset: 90937},
+																			expr: &anyMatcher{
+																				line: 2880, col: 9, offset: 90938,
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "Callout",
+			pos:  position{line: 1708, col: 1, offset: 55094},
+			expr: &actionExpr{
+				pos: position{line: 1710, col: 5, offset: 55172},
+				run: (*parser).callonCallout1,
+				expr: &seqExpr{
+					pos: position{line: 1710, col: 5, offset: 55172},
+					exprs: []interface{}{
+						&andCodeExpr{
+							pos: position{line: 1710, col: 5, offset: 55172},
+							run: (*parser).callonCallout3,
+						},
+						&litMatcher{
+							pos:        position{line: 1713, col: 5, offset: 55239},
+							val:        "<",
+							ignoreCase: false,
+							want:       "\"<\"",
+						},
+						&labeledExpr{
+							pos:   position{line: 1713, col: 9, offset: 55243},
+							label: "ref",
+							expr: &actionExpr{
+								pos: position{line: 1713, col: 14, offset: 55248},
+								run: (*parser).callonCallout6,
+								expr: &oneOrMoreExpr{
+									pos: position{line: 1713, col: 14, offset: 55248},
+									expr: &charClassMatcher{
+										pos:        position{line: 1713, col: 14, offset: 55248},
+										val:        "[0-9]",
+										ranges:     []rune{'0', '9'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
+						&litMatcher{
+							pos:        position{line: 1713, col: 62, offset: 55296},
+							val:        ">",
+							ignoreCase: false,
+							want:       "\">\"",
+						},
+						&zeroOrMoreExpr{
+							pos: position{line: 1713, col: 66, offset: 55300},
+							expr: &actionExpr{
+								pos: position{line: 2861, col: 10, offset: 90589},
+								run: (*parser).callonCallout11,
+								expr: &charClassMatcher{
+									pos:        position{line: 2861, col: 10, offset: 90589},
+									val:        "[\\t ]",
+									chars:      []rune{'\t', ' '},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+						},
+						&andExpr{
+							pos: position{line: 1713, col: 73, offset: 55307},
+							expr: &choiceExpr{
+								pos: position{line: 1713, col: 75, offset: 55309},
+								alternatives: []interface{}{
+									&actionExpr{
+										pos: position{line: 2870, col: 12, offset: 90760},
+										run: (*parser).callonCallout15,
+										expr: &choiceExpr{
+											pos: position{line: 2870, col: 13, offset: 90761},
+											alternatives: []interface{}{
+												&litMatcher{
+													pos:        position{line: 2870, col: 13, offset: 90761},
+													val:        "\n",
+													ignoreCase: false,
+													want:       "\"\\n\"",
+												},
+												&litMatcher{
+													pos:        position{line: 2870, col: 20, offset: 90768},
+													val:        "\r\n",
+													ignoreCase: false,
+													want:       "\"\\r\\n\"",
+												},
+												&litMatcher{
+													pos:        position{line: 2870, col: 29, offset: 90777},
+													val:        "\r",
+													ignoreCase: false,
+													want:       "\"\\r\"",
+												},
+											},
+										},
+									},
+									&notExpr{
+										pos: position{line: 2880, col: 8, offset: 90937},
+										expr: &anyMatcher{
+											line: 2880, col: 9, offset: 90938,
+										},
+									},
+									&ruleRefExpr{
+										pos:  position{line: 1713, col: 81, offset: 55315},
+										name: "Callout",
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "ShortcutParagraph",
+			pos:  position{line: 1752, col: 1, offset: 56488},
+			expr: &actionExpr{
+				pos: position{line: 1754, col: 5, offset: 56562},
+				run: (*parser).callonShortcutParagraph1,
+				expr: &seqExpr{
+					pos: position{line: 1754, col: 5, offset: 56562},
+					exprs: []interface{}{
+						&andExpr{
+							pos: position{line: 1754, col: 5, offset: 56562},
+							expr: &seqExpr{
+								pos: position{line: 1754, col: 7, offset: 56564},
+								exprs: []interface{}{
+									&charClassMatcher{
+										pos:        position{line: 2751, col: 13, offset: 87684},
+										val:        "[\\pL\\pN]",
+										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+										ignoreCase: false,
+										inverted:   false,
+									},
+									&notExpr{
+										pos: position{line: 1754, col: 16, offset: 56573},
+										expr: &seqExpr{
+											pos: position{line: 1754, col: 18, offset: 56575},
+											exprs: []interface{}{
+												&charClassMatcher{
+													pos:        position{line: 1754, col: 19, offset: 56576},
+													val:        "[.)]",
+													chars:      []rune{'.', ')'},
+													ignoreCase: false,
+													inverted:   false,
+												},
+												&actionExpr{
+													pos: position{line: 2865, col: 11, offset: 90650},
+													run: (*parser).callonShortcutParagraph9,
+													expr: &oneOrMoreExpr{
+														pos: position{line: 2865, col: 11, offset: 90650},
+														expr: &charClassMatcher{
+															pos:        position{line: 2865, col: 11, offset: 90650},
+															val:        "[\\t ]",
+															chars:      []rune{'\t', ' '},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
+											},
+										},
+									},
+								},
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 1755, col: 5, offset: 56716},
+							label: "style",
+							expr: &zeroOrOneExpr{
+								pos: position{line: 1755, col: 11, offset: 56722},
+								expr: &actionExpr{
+									pos: position{line: 1733, col: 5, offset: 55985},
+									run: (*parser).callonShortcutParagraph14,
+									expr: &seqExpr{
+										pos: position{line: 1733, col: 5, offset: 55985},
+										exprs: []interface{}{
+											&andCodeExpr{
+												pos: position{line: 1733, col: 5, offset: 55985},
+												run: (*parser).callonShortcutParagraph16,
+											},
+											&labeledExpr{
+												pos:   position{line: 1736, col: 5, offset: 56048},
+												label: "style",
+												expr: &choiceExpr{
+													pos: position{line: 1736, col: 12, offset: 56055},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 1736, col: 12, offset: 56055},
+															run: (*parser).callonShortcutParagraph19,
+															expr: &litMatcher{
+																pos:        position{line: 1736, col: 12, offset: 56055},
+																val:        "TIP: ",
+																ignoreCase: false,
+																want:       "\"TIP: \"",
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1738, col: 13, offset: 56111},
+															run: (*parser).callonShortcutParagraph21,
+															expr: &litMatcher{
+																pos:        position{line: 1738, col: 13, offset: 56111},
+																val:        "NOTE: ",
+																ignoreCase: false,
+																want:       "\"NOTE: \"",
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1740, col: 13, offset: 56169},
+															run: (*parser).callonShortcutParagraph23,
+															expr: &litMatcher{
+																pos:        position{line: 1740, col: 13, offset: 56169},
+																val:        "IMPORTANT: ",
+																ignoreCase: false,
+																want:       "\"IMPORTANT: \"",
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1742, col: 13, offset: 56237},
+															run: (*parser).callonShortcutParagraph25,
+															expr: &litMatcher{
+																pos:        position{line: 1742, col: 13, offset: 56237},
+																val:        "WARNING: ",
+																ignoreCase: false,
+																want:       "\"WARNING: \"",
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1744, col: 13, offset: 56301},
+															run: (*parser).callonShortcutParagraph27,
+															expr: &litMatcher{
+																pos:        position{line: 1744, col: 13, offset: 56301},
+																val:        "CAUTION: ",
+																ignoreCase: false,
+																want:       "\"CAUTION: \"",
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1746, col: 13, offset: 56365},
+															run: (*parser).callonShortcutParagraph29,
+															expr: &andExpr{
+																pos: position{line: 1746, col: 13, offset: 56365},
+																expr: &actionExpr{
+																	pos: position{line: 2865, col: 11, offset: 90650},
+																	run: (*parser).callonShortcutParagraph31,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2865, col: 11, offset: 90650},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+								},
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 1756, col: 5, offset: 56744},
+							label: "firstLine",
+							expr: &actionExpr{
+								pos: position{line: 1793, col: 5, offset: 57955},
+								run: (*parser).callonShortcutParagraph35,
+								expr: &seqExpr{
+									pos: position{line: 1793, col: 5, offset: 57955},
+									exprs: []interface{}{
+										&labeledExpr{
+											pos:   position{line: 1793, col: 5, offset: 57955},
+											label: "content",
+											expr: &actionExpr{
+												pos: position{line: 2811, col: 14, offset: 89182},
+												run: (*parser).callonShortcutParagraph38,
+												expr: &oneOrMoreExpr{
+													pos: position{line: 2811, col: 14, offset: 89182},
+													expr: &charClassMatcher{
+														pos:        position{line: 2811, col: 14, offset: 89182},
+														val:        "[^\\r\\n]",
+														chars:      []rune{'\r', '\n'},
+														ignoreCase: false,
+														inverted:   true,
+													},
+												},
+											},
+										},
+										&andCodeExpr{
+											pos: position{line: 1794, col: 5, offset: 57979},
+											run: (*parser).callonShortcutParagraph41,
+										},
+										&choiceExpr{
+											pos: position{line: 2883, col: 8, offset: 90987},
+											alternatives: []interface{}{
+												&actionExpr{
+													pos: position{line: 2870, col: 12, offset: 90760},
+													run: (*parser).callonShortcutParagraph43,
+													expr: &choiceExpr{
+														pos: position{line: 2870, col: 13, offset: 90761},
+														alternatives: []interface{}{
+															&litMatcher{
+																pos:        position{line: 2870, col: 13, offset: 90761},
+																val:        "\n",
+																ignoreCase: false,
+																want:       "\"\\n\"",
+															},
+															&litMatcher{
+																pos:        position{line: 2870, col: 20, offset: 90768},
+																val:        "\r\n",
+																ignoreCase: false,
+																want:       "\"\\r\\n\"",
+															},
+															&litMatcher{
+																pos:        position{line: 2870, col: 29, offset: 90777},
+																val:        "\r",
+																ignoreCase: false,
+																want:       "\"\\r\"",
+															},
+														},
+													},
+												},
+												&notExpr{
+													pos: position{line: 2880, col: 8, offset: 90937},
+													expr: &anyMatcher{
+														line: 2880, col: 9, offset: 90938,
+													},
+												},
+											},
+										},
+									},
+								},
+							},
+						},
+						&andCodeExpr{
+							pos: position{line: 1757, col: 5, offset: 56778},
+							run: (*parser).callonShortcutParagraph50,
+						},
+						&labeledExpr{
+							pos:   position{line: 1764, col: 5, offset: 57108},
+							label: "otherLines",
+							expr: &zeroOrMoreExpr{
+								pos: position{line: 1764, col: 16, offset: 57119},
+								expr: &actionExpr{
+									pos: position{line: 1765, col: 9, offset: 57129},
+									run: (*parser).callonShortcutParagraph53,
+									expr: &seqExpr{
+										pos: position{line: 1765, col: 9, offset: 57129},
+										exprs: []interface{}{
+											&andExpr{
+												pos: position{line: 2878, col: 11, offset: 90923},
+												expr: &anyMatcher{
+													line: 2878, col: 13, offset: 90925,
+												},
+											},
+											&notExpr{
+												pos: position{line: 1766, col: 9, offset: 57145},
+												expr: &actionExpr{
+													pos: position{line: 677, col: 14, offset: 21489},
+													run: (*parser).callonShortcutParagraph58,
+													expr: &seqExpr{
+														pos: position{line: 677, col: 14, offset: 21489},
+														exprs: []interface{}{
+															&andExpr{
+																pos: position{line: 2878, col: 11, offset: 90923},
+																expr: &anyMatcher{
+																	line: 2878, col: 13, offset: 90925,
+																},
+															},
+															&zeroOrMoreExpr{
+																pos: position{line: 677, col: 21, offset: 21496},
+																expr: &actionExpr{
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonShortcutParagraph63,
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		val:        "[\\t ]",
+																		chars:      []rune{'\t', ' '},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+															&choiceExpr{
+																pos: position{line: 2883, col: 8, offset: 90987},
+																alternatives: []interface{}{
+																	&actionExpr{
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonShortcutParagraph66,
+																		expr: &choiceExpr{
+																			pos: position{line: 2870, col: 13, offset: 90761},
+																			alternatives: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					val:        "\n",
+																					ignoreCase: false,
+																					want:       "\"\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					val:        "\r\n",
+																					ignoreCase: false,
+																					want:       "\"\\r\\n\"",
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					val:        "\r",
+																					ignoreCase: false,
+																					want:       "\"\\r\"",
+																				},
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2880, col: 8, offset: 90937},
+																		expr: &anyMatcher{
+																			line: 2880, col: 9, offset: 90938,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&notExpr{
+												pos: position{line: 1767, col: 9, offset: 57164},
+												expr: &ruleRefExpr{
+													pos:  position{line: 1767, col: 10, offset: 57165},
+													name: "BlockAttributes",
+												},
+											},
+											&notExpr{
+												pos: position{line: 1768, col: 9, offset: 57189},
+												expr: &choiceExpr{
+													pos: position{line: 1768, col: 11, offset: 57191},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 724, col: 5, offset: 23042},
+															run: (*parser).callonShortcutParagraph77,
+															expr: &seqExpr{
+																pos: position{line: 724, col: 5, offset: 23042},
+																exprs: []interface{}{
+																	&notExpr{
+																		pos: position{line: 724, col: 5, offset: 23042},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2751, col: 13, offset: 87684},
+																			val:        "[\\pL\\pN]",
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 725, col: 5, offset: 23072},
+																		label: "delimiter",
+																		expr: &choiceExpr{
+																			pos: position{line: 726, col: 9, offset: 23092},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					run: (*parser).callonShortcutParagraph83,
+																					expr: &seqExpr{
+																						pos: position{line: 740, col: 5, offset: 23584},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 740, col: 5, offset: 23584},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									run: (*parser).callonShortcutParagraph86,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 16, offset: 23595},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 740, col: 16, offset: 23595},
+																												val:        "////",
+																												ignoreCase: false,
+																												want:       "\"////\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 740, col: 23, offset: 23602},
+																												expr: &litMatcher{
+																													pos:        position{line: 740, col: 23, offset: 23602},
+																													val:        "/",
+																													ignoreCase: false,
+																													want:       "\"/\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 742, col: 8, offset: 23686},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph92,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph95,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 747, col: 5, offset: 23832},
+																					run: (*parser).callonShortcutParagraph102,
+																					expr: &seqExpr{
+																						pos: position{line: 747, col: 5, offset: 23832},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 747, col: 5, offset: 23832},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 747, col: 16, offset: 23843},
+																									run: (*parser).callonShortcutParagraph105,
+																									expr: &seqExpr{
+																										pos: position{line: 747, col: 16, offset: 23843},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 747, col: 16, offset: 23843},
+																												val:        "====",
+																												ignoreCase: false,
+																												want:       "\"====\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 747, col: 23, offset: 23850},
+																												expr: &litMatcher{
+																													pos:        position{line: 747, col: 23, offset: 23850},
+																													val:        "=",
+																													ignoreCase: false,
+																													want:       "\"=\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 749, col: 8, offset: 23934},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph111,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph114,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 760, col: 26, offset: 24320},
+																					run: (*parser).callonShortcutParagraph121,
+																					expr: &seqExpr{
+																						pos: position{line: 760, col: 26, offset: 24320},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 760, col: 26, offset: 24320},
+																								val:        "```",
+																								ignoreCase: false,
+																								want:       "\"```\"",
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 760, col: 32, offset: 24326},
+																								label: "language",
+																								expr: &actionExpr{
+																									pos: position{line: 764, col: 13, offset: 24456},
+																									run: (*parser).callonShortcutParagraph125,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 764, col: 14, offset: 24457},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 764, col: 14, offset: 24457},
+																											val:        "[^\\r\\n` ]",
+																											chars:      []rune{'\r', '\n', '`', ' '},
+																											ignoreCase: false,
+																											inverted:   true,
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 760, col: 52, offset: 24346},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph129,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph132,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 754, col: 5, offset: 24079},
+																					run: (*parser).callonShortcutParagraph139,
+																					expr: &seqExpr{
+																						pos: position{line: 754, col: 5, offset: 24079},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 754, col: 5, offset: 24079},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 754, col: 16, offset: 24090},
+																									run: (*parser).callonShortcutParagraph142,
+																									expr: &seqExpr{
+																										pos: position{line: 754, col: 16, offset: 24090},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 754, col: 16, offset: 24090},
+																												val:        "```",
+																												ignoreCase: false,
+																												want:       "\"```\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 754, col: 22, offset: 24096},
+																												expr: &litMatcher{
+																													pos:        position{line: 754, col: 22, offset: 24096},
+																													val:        "`",
+																													ignoreCase: false,
+																													want:       "\"`\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 756, col: 8, offset: 24180},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph148,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph151,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 769, col: 5, offset: 24616},
+																					run: (*parser).callonShortcutParagraph158,
+																					expr: &seqExpr{
+																						pos: position{line: 769, col: 5, offset: 24616},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 769, col: 5, offset: 24616},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 769, col: 16, offset: 24627},
+																									run: (*parser).callonShortcutParagraph161,
+																									expr: &seqExpr{
+																										pos: position{line: 769, col: 16, offset: 24627},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 769, col: 16, offset: 24627},
+																												val:        "----",
+																												ignoreCase: false,
+																												want:       "\"----\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 769, col: 23, offset: 24634},
+																												expr: &litMatcher{
+																													pos:        position{line: 769, col: 23, offset: 24634},
+																													val:        "-",
+																													ignoreCase: false,
+																													want:       "\"-\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 771, col: 8, offset: 24718},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph167,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph170,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 783, col: 5, offset: 25092},
+																					run: (*parser).callonShortcutParagraph177,
+																					expr: &seqExpr{
+																						pos: position{line: 783, col: 5, offset: 25092},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 783, col: 5, offset: 25092},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 783, col: 16, offset: 25103},
+																									run: (*parser).callonShortcutParagraph180,
+																									expr: &seqExpr{
+																										pos: position{line: 783, col: 16, offset: 25103},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 783, col: 16, offset: 25103},
+																												val:        "....",
+																												ignoreCase: false,
+																												want:       "\"....\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 783, col: 23, offset: 25110},
+																												expr: &litMatcher{
+																													pos:        position{line: 783, col: 23, offset: 25110},
+																													val:        ".",
+																													ignoreCase: false,
+																													want:       "\".\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 785, col: 8, offset: 25194},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph186,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph189,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 790, col: 5, offset: 25344},
+																					run: (*parser).callonShortcutParagraph196,
+																					expr: &seqExpr{
+																						pos: position{line: 790, col: 5, offset: 25344},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 790, col: 5, offset: 25344},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 790, col: 16, offset: 25355},
+																									run: (*parser).callonShortcutParagraph199,
+																									expr: &seqExpr{
+																										pos: position{line: 790, col: 16, offset: 25355},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 790, col: 16, offset: 25355},
+																												val:        "++++",
+																												ignoreCase: false,
+																												want:       "\"++++\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 790, col: 23, offset: 25362},
+																												expr: &litMatcher{
+																													pos:        position{line: 790, col: 23, offset: 25362},
+																													val:        "+",
+																													ignoreCase: false,
+																													want:       "\"+\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 792, col: 8, offset: 25446},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph205,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph208,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 797, col: 5, offset: 25594},
+																					run: (*parser).callonShortcutParagraph215,
+																					expr: &seqExpr{
+																						pos: position{line: 797, col: 5, offset: 25594},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 797, col: 5, offset: 25594},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 797, col: 16, offset: 25605},
+																									run: (*parser).callonShortcutParagraph218,
+																									expr: &seqExpr{
+																										pos: position{line: 797, col: 16, offset: 25605},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 797, col: 16, offset: 25605},
+																												val:        "____",
+																												ignoreCase: false,
+																												want:       "\"____\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 797, col: 23, offset: 25612},
+																												expr: &litMatcher{
+																													pos:        position{line: 797, col: 23, offset: 25612},
+																													val:        "_",
+																													ignoreCase: false,
+																													want:       "\"_\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 799, col: 8, offset: 25696},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph224,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph227,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 804, col: 5, offset: 25840},
+																					run: (*parser).callonShortcutParagraph234,
+																					expr: &seqExpr{
+																						pos: position{line: 804, col: 5, offset: 25840},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 804, col: 5, offset: 25840},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 804, col: 16, offset: 25851},
+																									run: (*parser).callonShortcutParagraph237,
+																									expr: &seqExpr{
+																										pos: position{line: 804, col: 16, offset: 25851},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 804, col: 16, offset: 25851},
+																												val:        "****",
+																												ignoreCase: false,
+																												want:       "\"****\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 804, col: 23, offset: 25858},
+																												expr: &litMatcher{
+																													pos:        position{line: 804, col: 23, offset: 25858},
+																													val:        "*",
+																													ignoreCase: false,
+																													want:       "\"*\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 806, col: 8, offset: 25942},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonShortcutParagraph243,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonShortcutParagraph246,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+														&actionExpr{
+															pos: position{line: 776, col: 5, offset: 24861},
+															run: (*parser).callonShortcutParagraph253,
+															expr: &seqExpr{
+																pos: position{line: 776, col: 5, offset: 24861},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 776, col: 5, offset: 24861},
+																		label: "delimiter",
+																		expr: &actionExpr{
+																			pos: position{line: 776, col: 16, offset: 24872},
+																			run: (*parser).callonShortcutParagraph256,
+																			expr: &litMatcher{
+																				pos:        position{line: 776, col: 16, offset: 24872},
+																				val:        "--",
+																				ignoreCase: false,
+																				want:       "\"--\"",
+																			},
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 778, col: 8, offset: 24949},
+																		expr: &actionExpr{
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonShortcutParagraph259,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonShortcutParagraph262,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
+																			},
 																		},
 																	},
 																},
-																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49008},
-																	label: "content",
+															},
+														},
+														&seqExpr{
+															pos: position{line: 2603, col: 19, offset: 83272},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2603, col: 19, offset: 83272},
+																	val:        "|===",
+																	ignoreCase: false,
+																	want:       "\"|===\"",
+																},
+																&zeroOrMoreExpr{
+																	pos: position{line: 2603, col: 26, offset: 83279},
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1915,
-																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
-																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
-																				val:        "[^\\r\\n]",
-																				chars:      []rune{'\r', '\n'},
-																				ignoreCase: false,
-																				inverted:   true,
-																			},
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonShortcutParagraph272,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
 																		},
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1919,
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonShortcutParagraph275,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37959,9 +39859,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -37971,114 +39871,221 @@ var g = &grammar{
 													},
 												},
 											},
-										},
-									},
-								},
-							},
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54848},
-			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54926},
-				run: (*parser).callonCallout1,
-				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54926},
-					exprs: []interface{}{
-						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54926},
-							run: (*parser).callonCallout3,
-						},
-						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54993},
-							val:        "<",
-							ignoreCase: false,
-							want:       "\"<\"",
-						},
-						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 54997},
-							label: "ref",
-							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55002},
-								run: (*parser).callonCallout6,
-								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55002},
-									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55002},
-										val:        "[0-9]",
-										ranges:     []rune{'0', '9'},
-										ignoreCase: false,
-										inverted:   false,
-									},
-								},
-							},
-						},
-						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55050},
-							val:        ">",
-							ignoreCase: false,
-							want:       "\">\"",
-						},
-						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55054},
-							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
-								run: (*parser).callonCallout11,
-								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
-									val:        "[\\t ]",
-									chars:      []rune{'\t', ' '},
-									ignoreCase: false,
-									inverted:   false,
-								},
-							},
-						},
-						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55061},
-							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55063},
-								alternatives: []interface{}{
-									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
-										run: (*parser).callonCallout15,
-										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
-											alternatives: []interface{}{
-												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
-													val:        "\n",
-													ignoreCase: false,
-													want:       "\"\\n\"",
-												},
-												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
-													val:        "\r\n",
-													ignoreCase: false,
-													want:       "\"\\r\\n\"",
+											&notExpr{
+												pos: position{line: 1769, col: 9, offset: 57253},
+												expr: &seqExpr{
+													pos: position{line: 1544, col: 27, offset: 49907},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 1544, col: 27, offset: 49907},
+															val:        "+",
+															ignoreCase: false,
+															want:       "\"+\"",
+														},
+														&zeroOrMoreExpr{
+															pos: position{line: 1544, col: 31, offset: 49911},
+															expr: &actionExpr{
+																pos: position{line: 2861, col: 10, offset: 90589},
+																run: (*parser).callonShortcutParagraph286,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2861, col: 10, offset: 90589},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&actionExpr{
+															pos: position{line: 2870, col: 12, offset: 90760},
+															run: (*parser).callonShortcutParagraph288,
+															expr: &choiceExpr{
+																pos: position{line: 2870, col: 13, offset: 90761},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		val:        "\r\n",
+																		ignoreCase: false,
+																		want:       "\"\\r\\n\"",
+																	},
+																	&litMatcher{
+																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		val:        "\r",
+																		ignoreCase: false,
+																		want:       "\"\\r\"",
+																	},
+																},
+															},
+														},
+													},
 												},
-												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
-													val:        "\r",
-													ignoreCase: false,
-													want:       "\"\\r\"",
+											},
+											&labeledExpr{
+												pos:   position{line: 1770, col: 9, offset: 57285},
+												label: "line",
+												expr: &choiceExpr{
+													pos: position{line: 1770, col: 15, offset: 57291},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 2471, col: 22, offset: 79574},
+															run: (*parser).callonShortcutParagraph295,
+															expr: &seqExpr{
+																pos: position{line: 2471, col: 22, offset: 79574},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2476, col: 31, offset: 79795},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 2476, col: 36, offset: 79800},
+																		expr: &litMatcher{
+																			pos:        position{line: 2476, col: 37, offset: 79801},
+																			val:        "//",
+																			ignoreCase: false,
+																			want:       "\"//\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2471, col: 49, offset: 79601},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2807, col: 13, offset: 89115},
+																			run: (*parser).callonShortcutParagraph301,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2807, col: 13, offset: 89115},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2807, col: 13, offset: 89115},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonShortcutParagraph305,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+														&actionExpr{
+															pos: position{line: 1793, col: 5, offset: 57955},
+															run: (*parser).callonShortcutParagraph312,
+															expr: &seqExpr{
+																pos: position{line: 1793, col: 5, offset: 57955},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 1793, col: 5, offset: 57955},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2811, col: 14, offset: 89182},
+																			run: (*parser).callonShortcutParagraph315,
+																			expr: &oneOrMoreExpr{
+																				pos: position{line: 2811, col: 14, offset: 89182},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2811, col: 14, offset: 89182},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																	&andCodeExpr{
+																		pos: position{line: 1794, col: 5, offset: 57979},
+																		run: (*parser).callonShortcutParagraph318,
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2883, col: 8, offset: 90987},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonShortcutParagraph320,
+																				expr: &choiceExpr{
+																					pos: position{line: 2870, col: 13, offset: 90761},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2880, col: 8, offset: 90937},
+																				expr: &anyMatcher{
+																					line: 2880, col: 9, offset: 90938,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
 												},
 											},
 										},
 									},
-									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
-										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
-										},
-									},
-									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55069},
-										name: "Callout",
-									},
 								},
 							},
 						},
@@ -38087,141 +40094,97 @@ var g = &grammar{
 			},
 		},
 		{
-			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56242},
+			name: "Paragraph",
+			pos:  position{line: 1777, col: 1, offset: 57495},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56316},
-				run: (*parser).callonShortcutParagraph1,
+				pos: position{line: 1778, col: 5, offset: 57513},
+				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56316},
+					pos: position{line: 1778, col: 5, offset: 57513},
 					exprs: []interface{}{
-						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56316},
-							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56318},
-								exprs: []interface{}{
-									&charClassMatcher{
-										pos:        position{line: 2742, col: 13, offset: 87334},
-										val:        "[\\pL\\pN]",
-										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-										ignoreCase: false,
-										inverted:   false,
-									},
-									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56327},
-										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56329},
-											exprs: []interface{}{
-												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56330},
-													val:        "[.)]",
-													chars:      []rune{'.', ')'},
-													ignoreCase: false,
-													inverted:   false,
-												},
-												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
-													run: (*parser).callonShortcutParagraph9,
-													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
-														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
-															val:        "[\\t ]",
-															chars:      []rune{'\t', ' '},
-															ignoreCase: false,
-															inverted:   false,
-														},
-													},
-												},
-											},
-										},
-									},
-								},
-							},
-						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56470},
+							pos:   position{line: 1778, col: 5, offset: 57513},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56476},
+								pos: position{line: 1778, col: 11, offset: 57519},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
-									run: (*parser).callonShortcutParagraph14,
+									pos: position{line: 1733, col: 5, offset: 55985},
+									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1733, col: 5, offset: 55985},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
-												run: (*parser).callonShortcutParagraph16,
+												pos: position{line: 1733, col: 5, offset: 55985},
+												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1736, col: 5, offset: 56048},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1736, col: 12, offset: 56055},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
-															run: (*parser).callonShortcutParagraph19,
+															pos: position{line: 1736, col: 12, offset: 56055},
+															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1736, col: 12, offset: 56055},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
-															run: (*parser).callonShortcutParagraph21,
+															pos: position{line: 1738, col: 13, offset: 56111},
+															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1738, col: 13, offset: 56111},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
-															run: (*parser).callonShortcutParagraph23,
+															pos: position{line: 1740, col: 13, offset: 56169},
+															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1740, col: 13, offset: 56169},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
-															run: (*parser).callonShortcutParagraph25,
+															pos: position{line: 1742, col: 13, offset: 56237},
+															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1742, col: 13, offset: 56237},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
-															run: (*parser).callonShortcutParagraph27,
+															pos: position{line: 1744, col: 13, offset: 56301},
+															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1744, col: 13, offset: 56301},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
-															run: (*parser).callonShortcutParagraph29,
+															pos: position{line: 1746, col: 13, offset: 56365},
+															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1746, col: 13, offset: 56365},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
-																	run: (*parser).callonShortcutParagraph31,
+																	pos: position{line: 2865, col: 11, offset: 90650},
+																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2865, col: 11, offset: 90650},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2865, col: 11, offset: 90650},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38240,24 +40203,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56498},
+							pos:   position{line: 1779, col: 5, offset: 57542},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
-								run: (*parser).callonShortcutParagraph35,
+								pos: position{line: 1793, col: 5, offset: 57955},
+								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1793, col: 5, offset: 57955},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1793, col: 5, offset: 57955},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
-												run: (*parser).callonShortcutParagraph38,
+												pos: position{line: 2811, col: 14, offset: 89182},
+												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2811, col: 14, offset: 89182},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2811, col: 14, offset: 89182},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38267,32 +40230,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
-											run: (*parser).callonShortcutParagraph41,
+											pos: position{line: 1794, col: 5, offset: 57979},
+											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2883, col: 8, offset: 90987},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
-													run: (*parser).callonShortcutParagraph43,
+													pos: position{line: 2870, col: 12, offset: 90760},
+													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2870, col: 13, offset: 90761},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2870, col: 13, offset: 90761},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2870, col: 20, offset: 90768},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2870, col: 29, offset: 90777},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38301,9 +40264,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2880, col: 8, offset: 90937},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2880, col: 9, offset: 90938,
 													},
 												},
 											},
@@ -38312,48 +40275,44 @@ var g = &grammar{
 								},
 							},
 						},
-						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56532},
-							run: (*parser).callonShortcutParagraph50,
-						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56862},
+							pos:   position{line: 1780, col: 5, offset: 57576},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56873},
+								pos: position{line: 1780, col: 16, offset: 57587},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56883},
-									run: (*parser).callonShortcutParagraph53,
+									pos: position{line: 1781, col: 9, offset: 57597},
+									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56883},
+										pos: position{line: 1781, col: 9, offset: 57597},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2878, col: 11, offset: 90923},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2878, col: 13, offset: 90925,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56899},
+												pos: position{line: 1782, col: 9, offset: 57612},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonShortcutParagraph58,
+													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2878, col: 11, offset: 90923},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2878, col: 13, offset: 90925,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonShortcutParagraph63,
+																	pos: position{line: 2861, col: 10, offset: 90589},
+																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38362,28 +40321,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2883, col: 8, offset: 90987},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonShortcutParagraph66,
+																		pos: position{line: 2870, col: 12, offset: 90760},
+																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2870, col: 13, offset: 90761},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2870, col: 13, offset: 90761},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2870, col: 20, offset: 90768},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2870, col: 29, offset: 90777},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38392,9 +40351,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2880, col: 8, offset: 90937},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2880, col: 9, offset: 90938,
 																		},
 																	},
 																},
@@ -38404,826 +40363,831 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56918},
+												pos: position{line: 1783, col: 9, offset: 57631},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56919},
+													pos:  position{line: 1783, col: 10, offset: 57632},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56943},
-												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
-													run: (*parser).callonShortcutParagraph76,
-													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
-														exprs: []interface{}{
-															&notExpr{
+												pos: position{line: 1784, col: 9, offset: 57656},
+												expr: &choiceExpr{
+													pos: position{line: 1784, col: 11, offset: 57658},
+													alternatives: []interface{}{
+														&actionExpr{
+															pos: position{line: 724, col: 5, offset: 23042},
+															run: (*parser).callonParagraph67,
+															expr: &seqExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
-																expr: &charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
-																	val:        "[\\pL\\pN]",
-																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																	ignoreCase: false,
-																	inverted:   false,
-																},
-															},
-															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23072},
-																label: "delimiter",
-																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23092},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
-																			run: (*parser).callonShortcutParagraph82,
-																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
-																							run: (*parser).callonShortcutParagraph85,
-																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
-																										val:        "////",
-																										ignoreCase: false,
-																										want:       "\"////\"",
-																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
-																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
-																											val:        "/",
-																											ignoreCase: false,
-																											want:       "\"/\"",
+																exprs: []interface{}{
+																	&notExpr{
+																		pos: position{line: 724, col: 5, offset: 23042},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2751, col: 13, offset: 87684},
+																			val:        "[\\pL\\pN]",
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 725, col: 5, offset: 23072},
+																		label: "delimiter",
+																		expr: &choiceExpr{
+																			pos: position{line: 726, col: 9, offset: 23092},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					run: (*parser).callonParagraph73,
+																					expr: &seqExpr{
+																						pos: position{line: 740, col: 5, offset: 23584},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 740, col: 5, offset: 23584},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									run: (*parser).callonParagraph76,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 16, offset: 23595},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 740, col: 16, offset: 23595},
+																												val:        "////",
+																												ignoreCase: false,
+																												want:       "\"////\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 740, col: 23, offset: 23602},
+																												expr: &litMatcher{
+																													pos:        position{line: 740, col: 23, offset: 23602},
+																													val:        "/",
+																													ignoreCase: false,
+																													want:       "\"/\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																						},
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph91,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph94,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
-																										},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 742, col: 8, offset: 23686},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph82,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph85,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
 																								},
 																							},
 																						},
 																					},
 																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23832},
-																			run: (*parser).callonShortcutParagraph101,
-																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23832},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23843},
-																							run: (*parser).callonShortcutParagraph104,
-																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23843},
-																										val:        "====",
-																										ignoreCase: false,
-																										want:       "\"====\"",
-																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23850},
-																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23850},
-																											val:        "=",
-																											ignoreCase: false,
-																											want:       "\"=\"",
+																				&actionExpr{
+																					pos: position{line: 747, col: 5, offset: 23832},
+																					run: (*parser).callonParagraph92,
+																					expr: &seqExpr{
+																						pos: position{line: 747, col: 5, offset: 23832},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 747, col: 5, offset: 23832},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 747, col: 16, offset: 23843},
+																									run: (*parser).callonParagraph95,
+																									expr: &seqExpr{
+																										pos: position{line: 747, col: 16, offset: 23843},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 747, col: 16, offset: 23843},
+																												val:        "====",
+																												ignoreCase: false,
+																												want:       "\"====\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 747, col: 23, offset: 23850},
+																												expr: &litMatcher{
+																													pos:        position{line: 747, col: 23, offset: 23850},
+																													val:        "=",
+																													ignoreCase: false,
+																													want:       "\"=\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																						},
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23934},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph110,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 749, col: 8, offset: 23934},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph101,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
 																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph113,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph104,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
 																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
-																								},
-																							},
 																						},
 																					},
 																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24320},
-																			run: (*parser).callonShortcutParagraph120,
-																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
-																				exprs: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24320},
-																						val:        "```",
-																						ignoreCase: false,
-																						want:       "\"```\"",
-																					},
-																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24326},
-																						label: "language",
-																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24456},
-																							run: (*parser).callonShortcutParagraph124,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24457},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24457},
-																									val:        "[^\\r\\n` ]",
-																									chars:      []rune{'\r', '\n', '`', ' '},
-																									ignoreCase: false,
-																									inverted:   true,
-																								},
-																							},
-																						},
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24346},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph128,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
+																				&actionExpr{
+																					pos: position{line: 760, col: 26, offset: 24320},
+																					run: (*parser).callonParagraph111,
+																					expr: &seqExpr{
+																						pos: position{line: 760, col: 26, offset: 24320},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 760, col: 26, offset: 24320},
+																								val:        "```",
 																								ignoreCase: false,
-																								inverted:   false,
+																								want:       "\"```\"",
 																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph131,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
+																							&labeledExpr{
+																								pos:   position{line: 760, col: 32, offset: 24326},
+																								label: "language",
+																								expr: &actionExpr{
+																									pos: position{line: 764, col: 13, offset: 24456},
+																									run: (*parser).callonParagraph115,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 764, col: 14, offset: 24457},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 764, col: 14, offset: 24457},
+																											val:        "[^\\r\\n` ]",
+																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																											inverted:   true,
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 760, col: 52, offset: 24346},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph119,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24079},
-																			run: (*parser).callonShortcutParagraph138,
-																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24079},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24090},
-																							run: (*parser).callonShortcutParagraph141,
-																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24090},
-																										val:        "```",
-																										ignoreCase: false,
-																										want:       "\"```\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph122,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24096},
-																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24096},
-																											val:        "`",
-																											ignoreCase: false,
-																											want:       "\"`\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24180},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph147,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph150,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 754, col: 5, offset: 24079},
+																					run: (*parser).callonParagraph129,
+																					expr: &seqExpr{
+																						pos: position{line: 754, col: 5, offset: 24079},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 754, col: 5, offset: 24079},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 754, col: 16, offset: 24090},
+																									run: (*parser).callonParagraph132,
+																									expr: &seqExpr{
+																										pos: position{line: 754, col: 16, offset: 24090},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 754, col: 16, offset: 24090},
+																												val:        "```",
+																												ignoreCase: false,
+																												want:       "\"```\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 754, col: 22, offset: 24096},
+																												expr: &litMatcher{
+																													pos:        position{line: 754, col: 22, offset: 24096},
+																													val:        "`",
+																													ignoreCase: false,
+																													want:       "\"`\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 756, col: 8, offset: 24180},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph138,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24616},
-																			run: (*parser).callonShortcutParagraph157,
-																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24616},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24627},
-																							run: (*parser).callonShortcutParagraph160,
-																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24627},
-																										val:        "----",
-																										ignoreCase: false,
-																										want:       "\"----\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph141,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24634},
-																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24634},
-																											val:        "-",
-																											ignoreCase: false,
-																											want:       "\"-\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24718},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph166,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph169,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 769, col: 5, offset: 24616},
+																					run: (*parser).callonParagraph148,
+																					expr: &seqExpr{
+																						pos: position{line: 769, col: 5, offset: 24616},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 769, col: 5, offset: 24616},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 769, col: 16, offset: 24627},
+																									run: (*parser).callonParagraph151,
+																									expr: &seqExpr{
+																										pos: position{line: 769, col: 16, offset: 24627},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 769, col: 16, offset: 24627},
+																												val:        "----",
+																												ignoreCase: false,
+																												want:       "\"----\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 769, col: 23, offset: 24634},
+																												expr: &litMatcher{
+																													pos:        position{line: 769, col: 23, offset: 24634},
+																													val:        "-",
+																													ignoreCase: false,
+																													want:       "\"-\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 771, col: 8, offset: 24718},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph157,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25092},
-																			run: (*parser).callonShortcutParagraph176,
-																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25092},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25103},
-																							run: (*parser).callonShortcutParagraph179,
-																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25103},
-																										val:        "....",
-																										ignoreCase: false,
-																										want:       "\"....\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph160,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25110},
-																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25110},
-																											val:        ".",
-																											ignoreCase: false,
-																											want:       "\".\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25194},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph185,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph188,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 783, col: 5, offset: 25092},
+																					run: (*parser).callonParagraph167,
+																					expr: &seqExpr{
+																						pos: position{line: 783, col: 5, offset: 25092},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 783, col: 5, offset: 25092},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 783, col: 16, offset: 25103},
+																									run: (*parser).callonParagraph170,
+																									expr: &seqExpr{
+																										pos: position{line: 783, col: 16, offset: 25103},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 783, col: 16, offset: 25103},
+																												val:        "....",
+																												ignoreCase: false,
+																												want:       "\"....\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 783, col: 23, offset: 25110},
+																												expr: &litMatcher{
+																													pos:        position{line: 783, col: 23, offset: 25110},
+																													val:        ".",
+																													ignoreCase: false,
+																													want:       "\".\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 785, col: 8, offset: 25194},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph176,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25344},
-																			run: (*parser).callonShortcutParagraph195,
-																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25344},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25355},
-																							run: (*parser).callonShortcutParagraph198,
-																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25355},
-																										val:        "++++",
-																										ignoreCase: false,
-																										want:       "\"++++\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph179,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25362},
-																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25362},
-																											val:        "+",
-																											ignoreCase: false,
-																											want:       "\"+\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25446},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph204,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph207,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 790, col: 5, offset: 25344},
+																					run: (*parser).callonParagraph186,
+																					expr: &seqExpr{
+																						pos: position{line: 790, col: 5, offset: 25344},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 790, col: 5, offset: 25344},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 790, col: 16, offset: 25355},
+																									run: (*parser).callonParagraph189,
+																									expr: &seqExpr{
+																										pos: position{line: 790, col: 16, offset: 25355},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 790, col: 16, offset: 25355},
+																												val:        "++++",
+																												ignoreCase: false,
+																												want:       "\"++++\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 790, col: 23, offset: 25362},
+																												expr: &litMatcher{
+																													pos:        position{line: 790, col: 23, offset: 25362},
+																													val:        "+",
+																													ignoreCase: false,
+																													want:       "\"+\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 792, col: 8, offset: 25446},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph195,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25594},
-																			run: (*parser).callonShortcutParagraph214,
-																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25594},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25605},
-																							run: (*parser).callonShortcutParagraph217,
-																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25605},
-																										val:        "____",
-																										ignoreCase: false,
-																										want:       "\"____\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph198,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25612},
-																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25612},
-																											val:        "_",
-																											ignoreCase: false,
-																											want:       "\"_\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25696},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph223,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph226,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 797, col: 5, offset: 25594},
+																					run: (*parser).callonParagraph205,
+																					expr: &seqExpr{
+																						pos: position{line: 797, col: 5, offset: 25594},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 797, col: 5, offset: 25594},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 797, col: 16, offset: 25605},
+																									run: (*parser).callonParagraph208,
+																									expr: &seqExpr{
+																										pos: position{line: 797, col: 16, offset: 25605},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 797, col: 16, offset: 25605},
+																												val:        "____",
+																												ignoreCase: false,
+																												want:       "\"____\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 797, col: 23, offset: 25612},
+																												expr: &litMatcher{
+																													pos:        position{line: 797, col: 23, offset: 25612},
+																													val:        "_",
+																													ignoreCase: false,
+																													want:       "\"_\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 799, col: 8, offset: 25696},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph214,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25840},
-																			run: (*parser).callonShortcutParagraph233,
-																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25840},
-																						label: "delimiter",
-																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25851},
-																							run: (*parser).callonShortcutParagraph236,
-																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25851},
-																										val:        "****",
-																										ignoreCase: false,
-																										want:       "\"****\"",
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph217,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25858},
-																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25858},
-																											val:        "*",
-																											ignoreCase: false,
-																											want:       "\"*\"",
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
 																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25942},
-																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph242,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph245,
-																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
-																											val:        "\r",
-																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																				},
+																				&actionExpr{
+																					pos: position{line: 804, col: 5, offset: 25840},
+																					run: (*parser).callonParagraph224,
+																					expr: &seqExpr{
+																						pos: position{line: 804, col: 5, offset: 25840},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 804, col: 5, offset: 25840},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 804, col: 16, offset: 25851},
+																									run: (*parser).callonParagraph227,
+																									expr: &seqExpr{
+																										pos: position{line: 804, col: 16, offset: 25851},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 804, col: 16, offset: 25851},
+																												val:        "****",
+																												ignoreCase: false,
+																												want:       "\"****\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 804, col: 23, offset: 25858},
+																												expr: &litMatcher{
+																													pos:        position{line: 804, col: 23, offset: 25858},
+																													val:        "*",
+																													ignoreCase: false,
+																													want:       "\"*\"",
+																												},
+																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
-																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																							&zeroOrMoreExpr{
+																								pos: position{line: 806, col: 8, offset: 25942},
+																								expr: &actionExpr{
+																									pos: position{line: 2861, col: 10, offset: 90589},
+																									run: (*parser).callonParagraph233,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2883, col: 8, offset: 90987},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2870, col: 12, offset: 90760},
+																										run: (*parser).callonParagraph236,
+																										expr: &choiceExpr{
+																											pos: position{line: 2870, col: 13, offset: 90761},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2880, col: 8, offset: 90937},
+																										expr: &anyMatcher{
+																											line: 2880, col: 9, offset: 90938,
+																										},
+																									},
 																								},
 																							},
 																						},
@@ -39235,201 +41199,63 @@ var g = &grammar{
 																},
 															},
 														},
-													},
-												},
-											},
-											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56967},
-												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49661},
-													exprs: []interface{}{
-														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49661},
-															val:        "+",
-															ignoreCase: false,
-															want:       "\"+\"",
-														},
-														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49665},
-															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
-																run: (*parser).callonShortcutParagraph256,
-																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
-																	val:        "[\\t ]",
-																	chars:      []rune{'\t', ' '},
-																	ignoreCase: false,
-																	inverted:   false,
-																},
-															},
-														},
-														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonShortcutParagraph258,
-															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
-																alternatives: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
-																		val:        "\n",
-																		ignoreCase: false,
-																		want:       "\"\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
-																		val:        "\r\n",
-																		ignoreCase: false,
-																		want:       "\"\\r\\n\"",
-																	},
-																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
-																		val:        "\r",
-																		ignoreCase: false,
-																		want:       "\"\\r\"",
-																	},
-																},
-															},
-														},
-													},
-												},
-											},
-											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 56999},
-												label: "line",
-												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57005},
-													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
-															run: (*parser).callonShortcutParagraph265,
+															pos: position{line: 776, col: 5, offset: 24861},
+															run: (*parser).callonParagraph243,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 776, col: 5, offset: 24861},
 																exprs: []interface{}{
-																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
-																		val:        "//",
-																		ignoreCase: false,
-																		want:       "\"//\"",
-																	},
-																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
-																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
-																			val:        "//",
-																			ignoreCase: false,
-																			want:       "\"//\"",
-																		},
-																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
-																		label: "content",
+																		pos:   position{line: 776, col: 5, offset: 24861},
+																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonShortcutParagraph271,
-																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
-																					val:        "[^\\r\\n]",
-																					chars:      []rune{'\r', '\n'},
-																					ignoreCase: false,
-																					inverted:   true,
-																				},
-																			},
-																		},
-																	},
-																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonShortcutParagraph275,
-																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
-																					alternatives: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
-																							val:        "\n",
-																							ignoreCase: false,
-																							want:       "\"\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
-																							val:        "\r\n",
-																							ignoreCase: false,
-																							want:       "\"\\r\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
-																							val:        "\r",
-																							ignoreCase: false,
-																							want:       "\"\\r\"",
-																						},
-																					},
-																				},
-																			},
-																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
-																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
-																				},
+																			pos: position{line: 776, col: 16, offset: 24872},
+																			run: (*parser).callonParagraph246,
+																			expr: &litMatcher{
+																				pos:        position{line: 776, col: 16, offset: 24872},
+																				val:        "--",
+																				ignoreCase: false,
+																				want:       "\"--\"",
 																			},
 																		},
 																	},
-																},
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
-															run: (*parser).callonShortcutParagraph282,
-															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
-																exprs: []interface{}{
-																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
-																		label: "content",
+																	&zeroOrMoreExpr{
+																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonShortcutParagraph285,
-																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
-																					val:        "[^\\r\\n]",
-																					chars:      []rune{'\r', '\n'},
-																					ignoreCase: false,
-																					inverted:   true,
-																				},
+																			pos: position{line: 2861, col: 10, offset: 90589},
+																			run: (*parser).callonParagraph249,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
 																			},
 																		},
 																	},
-																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
-																		run: (*parser).callonShortcutParagraph288,
-																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonShortcutParagraph290,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonParagraph252,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39438,9 +41264,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -39448,110 +41274,22 @@ var g = &grammar{
 																},
 															},
 														},
-													},
-												},
-											},
-										},
-									},
-								},
-							},
-						},
-					},
-				},
-			},
-		},
-		{
-			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57209},
-			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57227},
-				run: (*parser).callonParagraph1,
-				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57227},
-					exprs: []interface{}{
-						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57227},
-							label: "style",
-							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57233},
-								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
-									run: (*parser).callonParagraph5,
-									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
-										exprs: []interface{}{
-											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
-												run: (*parser).callonParagraph7,
-											},
-											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
-												label: "style",
-												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
-													alternatives: []interface{}{
-														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
-															run: (*parser).callonParagraph10,
-															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
-																val:        "TIP: ",
-																ignoreCase: false,
-																want:       "\"TIP: \"",
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
-															run: (*parser).callonParagraph12,
-															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
-																val:        "NOTE: ",
-																ignoreCase: false,
-																want:       "\"NOTE: \"",
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
-															run: (*parser).callonParagraph14,
-															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
-																val:        "IMPORTANT: ",
-																ignoreCase: false,
-																want:       "\"IMPORTANT: \"",
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
-															run: (*parser).callonParagraph16,
-															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
-																val:        "WARNING: ",
-																ignoreCase: false,
-																want:       "\"WARNING: \"",
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
-															run: (*parser).callonParagraph18,
-															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
-																val:        "CAUTION: ",
-																ignoreCase: false,
-																want:       "\"CAUTION: \"",
-															},
-														},
-														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
-															run: (*parser).callonParagraph20,
-															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
-																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
-																	run: (*parser).callonParagraph22,
-																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+														&seqExpr{
+															pos: position{line: 2603, col: 19, offset: 83272},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2603, col: 19, offset: 83272},
+																	val:        "|===",
+																	ignoreCase: false,
+																	want:       "\"|===\"",
+																},
+																&zeroOrMoreExpr{
+																	pos: position{line: 2603, col: 26, offset: 83279},
+																	expr: &actionExpr{
+																		pos: position{line: 2861, col: 10, offset: 90589},
+																		run: (*parser).callonParagraph262,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39559,168 +41297,41 @@ var g = &grammar{
 																		},
 																	},
 																},
-															},
-														},
-													},
-												},
-											},
-										},
-									},
-								},
-							},
-						},
-						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57256},
-							label: "firstLine",
-							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
-								run: (*parser).callonParagraph26,
-								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
-									exprs: []interface{}{
-										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
-											label: "content",
-											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
-												run: (*parser).callonParagraph29,
-												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
-													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
-														val:        "[^\\r\\n]",
-														chars:      []rune{'\r', '\n'},
-														ignoreCase: false,
-														inverted:   true,
-													},
-												},
-											},
-										},
-										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
-											run: (*parser).callonParagraph32,
-										},
-										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
-											alternatives: []interface{}{
-												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
-													run: (*parser).callonParagraph34,
-													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
-														alternatives: []interface{}{
-															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
-																val:        "\r\n",
-																ignoreCase: false,
-																want:       "\"\\r\\n\"",
-															},
-															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
-																val:        "\r",
-																ignoreCase: false,
-																want:       "\"\\r\"",
-															},
-														},
-													},
-												},
-												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
-													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
-													},
-												},
-											},
-										},
-									},
-								},
-							},
-						},
-						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57290},
-							label: "otherLines",
-							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57301},
-								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57311},
-									run: (*parser).callonParagraph43,
-									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57311},
-										exprs: []interface{}{
-											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
-												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
-												},
-											},
-											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57326},
-												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonParagraph48,
-													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
-														exprs: []interface{}{
-															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
-																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
-																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonParagraph53,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
-																	},
-																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonParagraph56,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2883, col: 8, offset: 90987},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2870, col: 12, offset: 90760},
+																			run: (*parser).callonParagraph265,
+																			expr: &choiceExpr{
+																				pos: position{line: 2870, col: 13, offset: 90761},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2880, col: 8, offset: 90937},
+																			expr: &anyMatcher{
+																				line: 2880, col: 9, offset: 90938,
+																			},
 																		},
 																	},
 																},
@@ -39729,50 +41340,43 @@ var g = &grammar{
 													},
 												},
 											},
-											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57345},
-												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57346},
-													name: "BlockAttributes",
-												},
-											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57370},
+												pos:   position{line: 1785, col: 9, offset: 57720},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57376},
+													pos: position{line: 1785, col: 15, offset: 57726},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
-															run: (*parser).callonParagraph67,
+															pos: position{line: 2471, col: 22, offset: 79574},
+															run: (*parser).callonParagraph274,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2471, col: 22, offset: 79574},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2476, col: 31, offset: 79795},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2476, col: 36, offset: 79800},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2476, col: 37, offset: 79801},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2471, col: 49, offset: 79601},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonParagraph73,
+																			pos: position{line: 2807, col: 13, offset: 89115},
+																			run: (*parser).callonParagraph280,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2807, col: 13, offset: 89115},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2807, col: 13, offset: 89115},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39782,28 +41386,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonParagraph77,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonParagraph284,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39812,9 +41416,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -39823,21 +41427,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
-															run: (*parser).callonParagraph84,
+															pos: position{line: 1793, col: 5, offset: 57955},
+															run: (*parser).callonParagraph291,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1793, col: 5, offset: 57955},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1793, col: 5, offset: 57955},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonParagraph87,
+																			pos: position{line: 2811, col: 14, offset: 89182},
+																			run: (*parser).callonParagraph294,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2811, col: 14, offset: 89182},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2811, col: 14, offset: 89182},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39847,32 +41451,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
-																		run: (*parser).callonParagraph90,
+																		pos: position{line: 1794, col: 5, offset: 57979},
+																		run: (*parser).callonParagraph297,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2883, col: 8, offset: 90987},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonParagraph92,
+																				pos: position{line: 2870, col: 12, offset: 90760},
+																				run: (*parser).callonParagraph299,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39881,9 +41485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2880, col: 8, offset: 90937},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2880, col: 9, offset: 90938,
 																				},
 																			},
 																		},
@@ -39905,16 +41509,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58115},
+			pos:  position{line: 1804, col: 1, offset: 58465},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58129},
+				pos: position{line: 1804, col: 15, offset: 58479},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58129},
+						pos:  position{line: 1804, col: 15, offset: 58479},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58149},
+						pos:  position{line: 1804, col: 35, offset: 58499},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39922,65 +41526,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58170},
+			pos:  position{line: 1806, col: 1, offset: 58520},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58195},
+				pos: position{line: 1807, col: 5, offset: 58545},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58195},
+					pos: position{line: 1807, col: 5, offset: 58545},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58195},
+							pos:   position{line: 1807, col: 5, offset: 58545},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58206},
+								pos: position{line: 1807, col: 16, offset: 58556},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58207},
+									pos: position{line: 1807, col: 17, offset: 58557},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58207},
+										pos:  position{line: 1807, col: 17, offset: 58557},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58275},
+							pos: position{line: 1810, col: 5, offset: 58625},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58277},
+								pos:        position{line: 1810, col: 7, offset: 58627},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58286},
+							pos:   position{line: 1811, col: 5, offset: 58636},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58304},
+								pos: position{line: 1812, col: 9, offset: 58654},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58304},
+										pos:  position{line: 1812, col: 9, offset: 58654},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58331},
+										pos:  position{line: 1813, col: 11, offset: 58681},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58359},
+										pos:  position{line: 1814, col: 11, offset: 58709},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58390},
+										pos:  position{line: 1815, col: 11, offset: 58740},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58418},
+										pos:  position{line: 1816, col: 11, offset: 58768},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58449},
+										pos:  position{line: 1817, col: 11, offset: 58799},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39992,36 +41596,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58569},
+			pos:  position{line: 1822, col: 1, offset: 58919},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58611},
+				pos: position{line: 1823, col: 5, offset: 58961},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58611},
+					pos: position{line: 1823, col: 5, offset: 58961},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58611},
+							pos:   position{line: 1823, col: 5, offset: 58961},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58622},
+								pos: position{line: 1823, col: 16, offset: 58972},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58623},
+									pos:  position{line: 1823, col: 17, offset: 58973},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58648},
+							pos:   position{line: 1824, col: 5, offset: 58998},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58657},
+								pos: position{line: 1824, col: 14, offset: 59007},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58657},
+										pos:  position{line: 1824, col: 14, offset: 59007},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58676},
+										pos:  position{line: 1824, col: 33, offset: 59026},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40033,32 +41637,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58907},
+			pos:  position{line: 1832, col: 1, offset: 59257},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58932},
+				pos: position{line: 1833, col: 5, offset: 59282},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58932},
+						pos:  position{line: 1833, col: 5, offset: 59282},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58959},
+						pos:  position{line: 1834, col: 7, offset: 59309},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58987},
+						pos:  position{line: 1835, col: 7, offset: 59337},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59019},
+						pos:  position{line: 1836, col: 7, offset: 59369},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59047},
+						pos:  position{line: 1837, col: 7, offset: 59397},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59068},
+						pos:  position{line: 1838, col: 7, offset: 59418},
 						name: "SuperscriptText",
 					},
 				},
@@ -40066,24 +41670,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59086},
+			pos:  position{line: 1840, col: 1, offset: 59436},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59111},
+				pos: position{line: 1841, col: 5, offset: 59461},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59111},
+						pos:  position{line: 1841, col: 5, offset: 59461},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59137},
+						pos:  position{line: 1842, col: 7, offset: 59487},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59165},
+						pos:  position{line: 1843, col: 7, offset: 59515},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59196},
+						pos:  position{line: 1844, col: 7, offset: 59546},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40091,26 +41695,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59550},
+			pos:  position{line: 1858, col: 1, offset: 59900},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59576},
+				pos: position{line: 1859, col: 5, offset: 59926},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2751, col: 5, offset: 87481},
+						pos: position{line: 2760, col: 5, offset: 87831},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2751, col: 5, offset: 87481},
+							pos: position{line: 2760, col: 5, offset: 87831},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2751, col: 5, offset: 87481},
+									pos:   position{line: 2760, col: 5, offset: 87831},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2751, col: 11, offset: 87487},
+										pos: position{line: 2760, col: 11, offset: 87837},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2751, col: 11, offset: 87487},
+											pos: position{line: 2760, col: 11, offset: 87837},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 11, offset: 87487},
+												pos:        position{line: 2760, col: 11, offset: 87837},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40120,36 +41724,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2754, col: 5, offset: 87545},
+									pos: position{line: 2763, col: 5, offset: 87895},
 									expr: &seqExpr{
-										pos: position{line: 2755, col: 9, offset: 87556},
+										pos: position{line: 2764, col: 9, offset: 87906},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2755, col: 9, offset: 87556},
+												pos:        position{line: 2764, col: 9, offset: 87906},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2756, col: 9, offset: 87605},
+												pos: position{line: 2765, col: 9, offset: 87955},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2760, col: 5, offset: 87685},
+									pos: position{line: 2769, col: 5, offset: 88035},
 									expr: &seqExpr{
-										pos: position{line: 2761, col: 9, offset: 87696},
+										pos: position{line: 2770, col: 9, offset: 88046},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2761, col: 9, offset: 87696},
+												pos:        position{line: 2770, col: 9, offset: 88046},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2761, col: 13, offset: 87700},
+												pos:        position{line: 2770, col: 13, offset: 88050},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40162,12 +41766,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2856, col: 11, offset: 90300},
+						pos: position{line: 2865, col: 11, offset: 90650},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2865, col: 11, offset: 90650},
 							expr: &charClassMatcher{
-								pos:        position{line: 2856, col: 11, offset: 90300},
+								pos:        position{line: 2865, col: 11, offset: 90650},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40176,25 +41780,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59639},
+						pos:  position{line: 1861, col: 7, offset: 59989},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79941},
+						pos: position{line: 2489, col: 5, offset: 80291},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79941},
+							pos: position{line: 2489, col: 5, offset: 80291},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79941},
+									pos:        position{line: 2489, col: 5, offset: 80291},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79946},
+									pos: position{line: 2489, col: 10, offset: 80296},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79947},
+										pos:        position{line: 2489, col: 11, offset: 80297},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40205,29 +41809,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80139},
+						pos: position{line: 2495, col: 5, offset: 80489},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80139},
+							pos: position{line: 2495, col: 5, offset: 80489},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80139},
+									pos: position{line: 2495, col: 5, offset: 80489},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80210},
+									pos: position{line: 2498, col: 5, offset: 80560},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80335},
+									pos:        position{line: 2502, col: 5, offset: 80685},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80339},
+									pos: position{line: 2502, col: 9, offset: 80689},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80340},
+										pos:        position{line: 2502, col: 10, offset: 80690},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40238,27 +41842,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87893},
+						pos: position{line: 2778, col: 5, offset: 88243},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2770, col: 9, offset: 87903},
+							pos: position{line: 2779, col: 9, offset: 88253},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2770, col: 10, offset: 87904},
+									pos:        position{line: 2779, col: 10, offset: 88254},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2772, col: 13, offset: 88001},
+									pos: position{line: 2781, col: 13, offset: 88351},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2772, col: 13, offset: 88001},
+											pos: position{line: 2781, col: 13, offset: 88351},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2775, col: 13, offset: 88101},
+											pos:        position{line: 2784, col: 13, offset: 88451},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40266,20 +41870,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2775, col: 19, offset: 88107},
+									pos:        position{line: 2784, col: 19, offset: 88457},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2778, col: 13, offset: 88145},
+									pos: position{line: 2787, col: 13, offset: 88495},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2778, col: 13, offset: 88145},
+											pos: position{line: 2787, col: 13, offset: 88495},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2781, col: 14, offset: 88238},
+											pos:        position{line: 2790, col: 14, offset: 88588},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40288,18 +41892,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 12, offset: 88282},
+									pos: position{line: 2792, col: 12, offset: 88632},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2783, col: 12, offset: 88282},
+											pos:        position{line: 2792, col: 12, offset: 88632},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2783, col: 16, offset: 88286},
+											pos: position{line: 2792, col: 16, offset: 88636},
 											expr: &litMatcher{
-												pos:        position{line: 2783, col: 17, offset: 88287},
+												pos:        position{line: 2792, col: 17, offset: 88637},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40657,31 +42261,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 18, offset: 90510},
+						pos: position{line: 2874, col: 18, offset: 90860},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2865, col: 18, offset: 90510},
+							pos: position{line: 2874, col: 18, offset: 90860},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40690,27 +42294,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2865, col: 26, offset: 90518},
+									pos: position{line: 2874, col: 26, offset: 90868},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2870, col: 12, offset: 90760},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2870, col: 13, offset: 90761},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2870, col: 13, offset: 90761},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2870, col: 20, offset: 90768},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2870, col: 29, offset: 90777},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40723,31 +42327,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59806},
+						pos:  position{line: 1866, col: 7, offset: 60156},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59853},
+						pos:  position{line: 1867, col: 7, offset: 60203},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78770},
+						pos: position{line: 2458, col: 5, offset: 79120},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78770},
+							pos: position{line: 2458, col: 5, offset: 79120},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2458, col: 5, offset: 79120},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78846},
+									pos:   position{line: 2461, col: 5, offset: 79196},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78864},
+										pos: position{line: 2462, col: 9, offset: 79214},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78865},
+											pos:        position{line: 2462, col: 10, offset: 79215},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40759,27 +42363,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36972},
+						pos: position{line: 1206, col: 23, offset: 37178},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36972},
+							pos: position{line: 1206, col: 23, offset: 37178},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1204, col: 32, offset: 37146},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37000},
+									pos:   position{line: 1206, col: 51, offset: 37206},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37005},
+										pos: position{line: 1206, col: 56, offset: 37211},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37005},
+											pos: position{line: 1206, col: 56, offset: 37211},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37005},
+												pos:        position{line: 1206, col: 56, offset: 37211},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40789,7 +42393,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1204, col: 32, offset: 37146},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40798,10 +42402,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 12, offset: 88547},
+						pos: position{line: 2800, col: 12, offset: 88897},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2791, col: 12, offset: 88547},
+							pos:        position{line: 2800, col: 12, offset: 88897},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40813,29 +42417,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60323},
+			pos:  position{line: 1885, col: 1, offset: 60673},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60351},
+				pos: position{line: 1886, col: 5, offset: 60701},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60351},
+					pos: position{line: 1886, col: 5, offset: 60701},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60276},
+							pos:        position{line: 1881, col: 38, offset: 60626},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60390},
+							pos:   position{line: 1887, col: 5, offset: 60740},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60400},
+								pos:  position{line: 1887, col: 15, offset: 60750},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60317},
+							pos:        position{line: 1883, col: 36, offset: 60667},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40846,44 +42450,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60560},
+			pos:  position{line: 1892, col: 1, offset: 60910},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60591},
+				pos: position{line: 1892, col: 32, offset: 60941},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60591},
+					pos:  position{line: 1892, col: 32, offset: 60941},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60622},
+			pos:  position{line: 1894, col: 1, offset: 60972},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60657},
+				pos: position{line: 1895, col: 5, offset: 61007},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60657},
+					pos: position{line: 1895, col: 5, offset: 61007},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60668},
+							pos: position{line: 1896, col: 5, offset: 61018},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60317},
+								pos:        position{line: 1883, col: 36, offset: 60667},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60705},
+							pos:   position{line: 1897, col: 5, offset: 61055},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60714},
+								pos:  position{line: 1897, col: 14, offset: 61064},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40893,29 +42497,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61394},
+			pos:  position{line: 1922, col: 1, offset: 61744},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61422},
+				pos: position{line: 1923, col: 5, offset: 61772},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61422},
+					pos: position{line: 1923, col: 5, offset: 61772},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60948},
+							pos:        position{line: 1906, col: 5, offset: 61298},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60957},
+							pos: position{line: 1907, col: 5, offset: 61307},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61075},
+							pos: position{line: 1911, col: 5, offset: 61425},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61077},
+								pos: position{line: 1911, col: 7, offset: 61427},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61078},
+									pos:        position{line: 1911, col: 8, offset: 61428},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40923,38 +42527,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61460},
+							pos:   position{line: 1924, col: 5, offset: 61810},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61470},
+								pos:  position{line: 1924, col: 15, offset: 61820},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61198},
+							pos:        position{line: 1914, col: 5, offset: 61548},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61207},
+							pos: position{line: 1915, col: 5, offset: 61557},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61208},
+								pos:        position{line: 1915, col: 6, offset: 61558},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61271},
+							pos: position{line: 1916, col: 5, offset: 61621},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61380},
+							pos: position{line: 1920, col: 5, offset: 61730},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61382},
+								pos: position{line: 1920, col: 7, offset: 61732},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2751, col: 13, offset: 87684},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40968,20 +42572,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61630},
+			pos:  position{line: 1929, col: 1, offset: 61980},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61667},
+				pos: position{line: 1930, col: 5, offset: 62017},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61667},
+					pos: position{line: 1930, col: 5, offset: 62017},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61667},
+							pos: position{line: 1930, col: 5, offset: 62017},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40990,18 +42594,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61706},
+							pos:   position{line: 1931, col: 5, offset: 62056},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61715},
+								pos: position{line: 1931, col: 14, offset: 62065},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61716},
+									pos:  position{line: 1931, col: 15, offset: 62066},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61750},
+							pos: position{line: 1932, col: 5, offset: 62100},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41010,49 +42614,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61891},
+			pos:  position{line: 1938, col: 1, offset: 62241},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61926},
+				pos: position{line: 1939, col: 5, offset: 62276},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61926},
+					pos: position{line: 1939, col: 5, offset: 62276},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61954},
+							pos: position{line: 1940, col: 5, offset: 62304},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61198},
+								pos: position{line: 1914, col: 5, offset: 61548},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61198},
+										pos:        position{line: 1914, col: 5, offset: 61548},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61207},
+										pos: position{line: 1915, col: 5, offset: 61557},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61208},
+											pos:        position{line: 1915, col: 6, offset: 61558},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61271},
+										pos: position{line: 1916, col: 5, offset: 61621},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61380},
+										pos: position{line: 1920, col: 5, offset: 61730},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61382},
+											pos: position{line: 1920, col: 7, offset: 61732},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2751, col: 13, offset: 87684},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41064,10 +42668,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61991},
+							pos:   position{line: 1941, col: 5, offset: 62341},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62000},
+								pos:  position{line: 1941, col: 14, offset: 62350},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41077,35 +42681,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62088},
+			pos:  position{line: 1946, col: 1, offset: 62438},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62149},
+				pos: position{line: 1948, col: 5, offset: 62499},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62149},
+						pos: position{line: 1948, col: 5, offset: 62499},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62149},
+							pos: position{line: 1948, col: 5, offset: 62499},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62149},
+									pos:   position{line: 1948, col: 5, offset: 62499},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1854, col: 25, offset: 59846},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1854, col: 25, offset: 59846},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1854, col: 25, offset: 59846},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1854, col: 30, offset: 59851},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1854, col: 30, offset: 59851},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41116,21 +42720,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62184},
+									pos:        position{line: 1948, col: 40, offset: 62534},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62189},
+									pos:   position{line: 1948, col: 45, offset: 62539},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62199},
+										pos:  position{line: 1948, col: 55, offset: 62549},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62228},
+									pos:        position{line: 1948, col: 84, offset: 62578},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41139,21 +42743,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62392},
+						pos: position{line: 1952, col: 7, offset: 62742},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62392},
+							pos: position{line: 1952, col: 7, offset: 62742},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62392},
+									pos:   position{line: 1952, col: 7, offset: 62742},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41162,21 +42766,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62427},
+									pos:        position{line: 1952, col: 42, offset: 62777},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62432},
+									pos:   position{line: 1952, col: 47, offset: 62782},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62442},
+										pos:  position{line: 1952, col: 57, offset: 62792},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62471},
+									pos:        position{line: 1952, col: 86, offset: 62821},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41185,21 +42789,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62673},
+						pos: position{line: 1957, col: 7, offset: 63023},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62673},
+							pos: position{line: 1957, col: 7, offset: 63023},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62673},
+									pos:   position{line: 1957, col: 7, offset: 63023},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41208,21 +42812,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62708},
+									pos:        position{line: 1957, col: 42, offset: 63058},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62712},
+									pos:   position{line: 1957, col: 46, offset: 63062},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62722},
+										pos:  position{line: 1957, col: 56, offset: 63072},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62751},
+									pos:        position{line: 1957, col: 85, offset: 63101},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41235,29 +42839,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63231},
+			pos:  position{line: 1974, col: 1, offset: 63581},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63261},
+				pos: position{line: 1975, col: 5, offset: 63611},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63261},
+					pos: position{line: 1975, col: 5, offset: 63611},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63182},
+							pos:        position{line: 1970, col: 40, offset: 63532},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63302},
+							pos:   position{line: 1976, col: 5, offset: 63652},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63312},
+								pos:  position{line: 1976, col: 15, offset: 63662},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63225},
+							pos:        position{line: 1972, col: 38, offset: 63575},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41268,44 +42872,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63477},
+			pos:  position{line: 1981, col: 1, offset: 63827},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63510},
+				pos: position{line: 1981, col: 34, offset: 63860},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63510},
+					pos:  position{line: 1981, col: 34, offset: 63860},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63542},
+			pos:  position{line: 1983, col: 1, offset: 63892},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63579},
+				pos: position{line: 1984, col: 5, offset: 63929},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63579},
+					pos: position{line: 1984, col: 5, offset: 63929},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63590},
+							pos: position{line: 1985, col: 5, offset: 63940},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63225},
+								pos:        position{line: 1972, col: 38, offset: 63575},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63629},
+							pos:   position{line: 1986, col: 5, offset: 63979},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63638},
+								pos:  position{line: 1986, col: 14, offset: 63988},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41315,29 +42919,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64322},
+			pos:  position{line: 2012, col: 1, offset: 64672},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64352},
+				pos: position{line: 2013, col: 5, offset: 64702},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64352},
+					pos: position{line: 2013, col: 5, offset: 64702},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63880},
+							pos:        position{line: 1995, col: 5, offset: 64230},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63889},
+							pos: position{line: 1996, col: 5, offset: 64239},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64009},
+							pos: position{line: 2000, col: 5, offset: 64359},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64011},
+								pos: position{line: 2000, col: 7, offset: 64361},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64012},
+									pos:        position{line: 2000, col: 8, offset: 64362},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41345,38 +42949,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64392},
+							pos:   position{line: 2014, col: 5, offset: 64742},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64402},
+								pos:  position{line: 2014, col: 15, offset: 64752},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64122},
+							pos:        position{line: 2004, col: 5, offset: 64472},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64131},
+							pos: position{line: 2005, col: 5, offset: 64481},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64132},
+								pos:        position{line: 2005, col: 6, offset: 64482},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64197},
+							pos: position{line: 2006, col: 5, offset: 64547},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64308},
+							pos: position{line: 2010, col: 5, offset: 64658},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64310},
+								pos: position{line: 2010, col: 7, offset: 64660},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2751, col: 13, offset: 87684},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41390,20 +42994,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64569},
+			pos:  position{line: 2019, col: 1, offset: 64919},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64607},
+				pos: position{line: 2020, col: 5, offset: 64957},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64607},
+					pos: position{line: 2020, col: 5, offset: 64957},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64607},
+							pos: position{line: 2020, col: 5, offset: 64957},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41412,18 +43016,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64646},
+							pos:   position{line: 2021, col: 5, offset: 64996},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64655},
+								pos: position{line: 2021, col: 14, offset: 65005},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64656},
+									pos:  position{line: 2021, col: 15, offset: 65006},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64691},
+							pos: position{line: 2022, col: 5, offset: 65041},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41432,49 +43036,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64832},
+			pos:  position{line: 2028, col: 1, offset: 65182},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64869},
+				pos: position{line: 2029, col: 5, offset: 65219},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64869},
+					pos: position{line: 2029, col: 5, offset: 65219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64880},
+							pos: position{line: 2030, col: 5, offset: 65230},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64122},
+								pos: position{line: 2004, col: 5, offset: 64472},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64122},
+										pos:        position{line: 2004, col: 5, offset: 64472},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64131},
+										pos: position{line: 2005, col: 5, offset: 64481},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64132},
+											pos:        position{line: 2005, col: 6, offset: 64482},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64197},
+										pos: position{line: 2006, col: 5, offset: 64547},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64308},
+										pos: position{line: 2010, col: 5, offset: 64658},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64310},
+											pos: position{line: 2010, col: 7, offset: 64660},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2751, col: 13, offset: 87684},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41486,10 +43090,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64919},
+							pos:   position{line: 2031, col: 5, offset: 65269},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64928},
+								pos:  position{line: 2031, col: 14, offset: 65278},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41499,35 +43103,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65016},
+			pos:  position{line: 2036, col: 1, offset: 65366},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65081},
+				pos: position{line: 2038, col: 5, offset: 65431},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65081},
+						pos: position{line: 2038, col: 5, offset: 65431},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65081},
+							pos: position{line: 2038, col: 5, offset: 65431},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65081},
+									pos:   position{line: 2038, col: 5, offset: 65431},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1854, col: 25, offset: 59846},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1854, col: 25, offset: 59846},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1854, col: 25, offset: 59846},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1854, col: 30, offset: 59851},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1854, col: 30, offset: 59851},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41538,21 +43142,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65116},
+									pos:        position{line: 2038, col: 40, offset: 65466},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65121},
+									pos:   position{line: 2038, col: 45, offset: 65471},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65131},
+										pos:  position{line: 2038, col: 55, offset: 65481},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65162},
+									pos:        position{line: 2038, col: 86, offset: 65512},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41561,21 +43165,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65327},
+						pos: position{line: 2042, col: 7, offset: 65677},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65327},
+							pos: position{line: 2042, col: 7, offset: 65677},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65327},
+									pos:   position{line: 2042, col: 7, offset: 65677},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41584,21 +43188,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65362},
+									pos:        position{line: 2042, col: 42, offset: 65712},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65367},
+									pos:   position{line: 2042, col: 47, offset: 65717},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65377},
+										pos:  position{line: 2042, col: 57, offset: 65727},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65408},
+									pos:        position{line: 2042, col: 88, offset: 65758},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41607,21 +43211,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65649},
+						pos: position{line: 2047, col: 7, offset: 65999},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65649},
+							pos: position{line: 2047, col: 7, offset: 65999},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65649},
+									pos:   position{line: 2047, col: 7, offset: 65999},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41630,21 +43234,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65684},
+									pos:        position{line: 2047, col: 42, offset: 66034},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65688},
+									pos:   position{line: 2047, col: 46, offset: 66038},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65698},
+										pos:  position{line: 2047, col: 56, offset: 66048},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65729},
+									pos:        position{line: 2047, col: 87, offset: 66079},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41657,29 +43261,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66293},
+			pos:  position{line: 2064, col: 1, offset: 66643},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66326},
+				pos: position{line: 2065, col: 5, offset: 66676},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66326},
+					pos: position{line: 2065, col: 5, offset: 66676},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66241},
+							pos:        position{line: 2060, col: 43, offset: 66591},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66370},
+							pos:   position{line: 2066, col: 5, offset: 66720},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66380},
+								pos:  position{line: 2066, col: 15, offset: 66730},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66287},
+							pos:        position{line: 2062, col: 41, offset: 66637},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41690,44 +43294,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66555},
+			pos:  position{line: 2071, col: 1, offset: 66905},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66591},
+				pos: position{line: 2071, col: 37, offset: 66941},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66591},
+					pos:  position{line: 2071, col: 37, offset: 66941},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66658},
+			pos:  position{line: 2073, col: 1, offset: 67008},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66698},
+				pos: position{line: 2074, col: 5, offset: 67048},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66698},
+					pos: position{line: 2074, col: 5, offset: 67048},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66709},
+							pos: position{line: 2075, col: 5, offset: 67059},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66287},
+								pos:        position{line: 2062, col: 41, offset: 66637},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66751},
+							pos:   position{line: 2076, col: 5, offset: 67101},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66760},
+								pos:  position{line: 2076, col: 14, offset: 67110},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41737,33 +43341,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67302},
+			pos:  position{line: 2094, col: 1, offset: 67652},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67347},
+				pos: position{line: 2095, col: 5, offset: 67697},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67347},
+						pos: position{line: 2095, col: 5, offset: 67697},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67348},
+							pos:  position{line: 2095, col: 6, offset: 67698},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67367},
+						pos:        position{line: 2096, col: 5, offset: 67717},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67375},
+						pos: position{line: 2097, col: 5, offset: 67725},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67489},
+						pos: position{line: 2101, col: 5, offset: 67839},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67491},
+							pos: position{line: 2101, col: 7, offset: 67841},
 							expr: &charClassMatcher{
-								pos:        position{line: 2742, col: 13, offset: 87334},
+								pos:        position{line: 2751, col: 13, offset: 87684},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41776,29 +43380,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67508},
+			pos:  position{line: 2104, col: 1, offset: 67858},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67541},
+				pos: position{line: 2105, col: 5, offset: 67891},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67541},
+					pos: position{line: 2105, col: 5, offset: 67891},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67104},
+							pos:        position{line: 2087, col: 5, offset: 67454},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67113},
+							pos: position{line: 2088, col: 5, offset: 67463},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67236},
+							pos: position{line: 2092, col: 5, offset: 67586},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67238},
+								pos: position{line: 2092, col: 7, offset: 67588},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67239},
+									pos:        position{line: 2092, col: 8, offset: 67589},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41806,15 +43410,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67585},
+							pos:   position{line: 2106, col: 5, offset: 67935},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67595},
+								pos:  position{line: 2106, col: 15, offset: 67945},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67634},
+							pos:  position{line: 2107, col: 5, offset: 67984},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41823,20 +43427,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67771},
+			pos:  position{line: 2111, col: 1, offset: 68121},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67812},
+				pos: position{line: 2112, col: 5, offset: 68162},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67812},
+					pos: position{line: 2112, col: 5, offset: 68162},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67812},
+							pos: position{line: 2112, col: 5, offset: 68162},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41845,18 +43449,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67851},
+							pos:   position{line: 2113, col: 5, offset: 68201},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67860},
+								pos: position{line: 2113, col: 14, offset: 68210},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67861},
+									pos:  position{line: 2113, col: 15, offset: 68211},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67899},
+							pos: position{line: 2114, col: 5, offset: 68249},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41865,31 +43469,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68040},
+			pos:  position{line: 2120, col: 1, offset: 68390},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68080},
+				pos: position{line: 2121, col: 5, offset: 68430},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68080},
+					pos: position{line: 2121, col: 5, offset: 68430},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68091},
+							pos: position{line: 2122, col: 5, offset: 68441},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68092},
+								pos:  position{line: 2122, col: 6, offset: 68442},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68133},
+							pos:   position{line: 2123, col: 5, offset: 68483},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68142},
+								pos:  position{line: 2123, col: 14, offset: 68492},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41899,35 +43503,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68230},
+			pos:  position{line: 2128, col: 1, offset: 68580},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68301},
+				pos: position{line: 2130, col: 5, offset: 68651},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68301},
+						pos: position{line: 2130, col: 5, offset: 68651},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68301},
+							pos: position{line: 2130, col: 5, offset: 68651},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68301},
+									pos:   position{line: 2130, col: 5, offset: 68651},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1854, col: 25, offset: 59846},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1854, col: 25, offset: 59846},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1854, col: 25, offset: 59846},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1854, col: 30, offset: 59851},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1854, col: 30, offset: 59851},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41938,21 +43542,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68336},
+									pos:        position{line: 2130, col: 40, offset: 68686},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68341},
+									pos:   position{line: 2130, col: 45, offset: 68691},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68351},
+										pos:  position{line: 2130, col: 55, offset: 68701},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68385},
+									pos:        position{line: 2130, col: 89, offset: 68735},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41961,21 +43565,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68554},
+						pos: position{line: 2134, col: 7, offset: 68904},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68554},
+							pos: position{line: 2134, col: 7, offset: 68904},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68554},
+									pos:   position{line: 2134, col: 7, offset: 68904},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41984,21 +43588,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68589},
+									pos:        position{line: 2134, col: 42, offset: 68939},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68594},
+									pos:   position{line: 2134, col: 47, offset: 68944},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68604},
+										pos:  position{line: 2134, col: 57, offset: 68954},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68638},
+									pos:        position{line: 2134, col: 91, offset: 68988},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42007,21 +43611,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68844},
+						pos: position{line: 2139, col: 7, offset: 69194},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68844},
+							pos: position{line: 2139, col: 7, offset: 69194},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68844},
+									pos:   position{line: 2139, col: 7, offset: 69194},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42030,21 +43634,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68879},
+									pos:        position{line: 2139, col: 42, offset: 69229},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68883},
+									pos:   position{line: 2139, col: 46, offset: 69233},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68893},
+										pos:  position{line: 2139, col: 56, offset: 69243},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68927},
+									pos:        position{line: 2139, col: 90, offset: 69277},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42057,29 +43661,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69412},
+			pos:  position{line: 2156, col: 1, offset: 69762},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69442},
+				pos: position{line: 2157, col: 5, offset: 69792},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69442},
+					pos: position{line: 2157, col: 5, offset: 69792},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69363},
+							pos:        position{line: 2152, col: 40, offset: 69713},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69483},
+							pos:   position{line: 2158, col: 5, offset: 69833},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69493},
+								pos:  position{line: 2158, col: 15, offset: 69843},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69406},
+							pos:        position{line: 2154, col: 38, offset: 69756},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42090,44 +43694,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69659},
+			pos:  position{line: 2163, col: 1, offset: 70009},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69692},
+				pos: position{line: 2163, col: 34, offset: 70042},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69692},
+					pos:  position{line: 2163, col: 34, offset: 70042},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69723},
+			pos:  position{line: 2165, col: 1, offset: 70073},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2166, col: 5, offset: 70142},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2166, col: 5, offset: 70142},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69803},
+							pos: position{line: 2167, col: 5, offset: 70153},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69406},
+								pos:        position{line: 2154, col: 38, offset: 69756},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69842},
+							pos:   position{line: 2168, col: 5, offset: 70192},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69851},
+								pos:  position{line: 2168, col: 14, offset: 70201},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42137,29 +43741,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70533},
+			pos:  position{line: 2193, col: 1, offset: 70883},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70563},
+				pos: position{line: 2194, col: 5, offset: 70913},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70563},
+					pos: position{line: 2194, col: 5, offset: 70913},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70099},
+							pos:        position{line: 2177, col: 5, offset: 70449},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70108},
+							pos: position{line: 2178, col: 5, offset: 70458},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70228},
+							pos: position{line: 2182, col: 5, offset: 70578},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70230},
+								pos: position{line: 2182, col: 7, offset: 70580},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70231},
+									pos:        position{line: 2182, col: 8, offset: 70581},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42167,38 +43771,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70603},
+							pos:   position{line: 2195, col: 5, offset: 70953},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70613},
+								pos:  position{line: 2195, col: 15, offset: 70963},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70336},
+							pos:        position{line: 2185, col: 5, offset: 70686},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70344},
+							pos: position{line: 2186, col: 5, offset: 70694},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70345},
+								pos:        position{line: 2186, col: 6, offset: 70695},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70408},
+							pos: position{line: 2187, col: 5, offset: 70758},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70519},
+							pos: position{line: 2191, col: 5, offset: 70869},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70521},
+								pos: position{line: 2191, col: 7, offset: 70871},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2751, col: 13, offset: 87684},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42212,20 +43816,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70780},
+			pos:  position{line: 2200, col: 1, offset: 71130},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70818},
+				pos: position{line: 2201, col: 5, offset: 71168},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70818},
+					pos: position{line: 2201, col: 5, offset: 71168},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70818},
+							pos: position{line: 2201, col: 5, offset: 71168},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2861, col: 10, offset: 90589},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2861, col: 10, offset: 90589},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42234,18 +43838,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70857},
+							pos:   position{line: 2202, col: 5, offset: 71207},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70866},
+								pos: position{line: 2202, col: 14, offset: 71216},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70867},
+									pos:  position{line: 2202, col: 15, offset: 71217},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70903},
+							pos: position{line: 2203, col: 5, offset: 71253},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42254,49 +43858,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71044},
+			pos:  position{line: 2209, col: 1, offset: 71394},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71081},
+				pos: position{line: 2210, col: 5, offset: 71431},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71081},
+					pos: position{line: 2210, col: 5, offset: 71431},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71092},
+							pos: position{line: 2211, col: 5, offset: 71442},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70336},
+								pos: position{line: 2185, col: 5, offset: 70686},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70336},
+										pos:        position{line: 2185, col: 5, offset: 70686},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70344},
+										pos: position{line: 2186, col: 5, offset: 70694},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70345},
+											pos:        position{line: 2186, col: 6, offset: 70695},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70408},
+										pos: position{line: 2187, col: 5, offset: 70758},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70519},
+										pos: position{line: 2191, col: 5, offset: 70869},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70521},
+											pos: position{line: 2191, col: 7, offset: 70871},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2751, col: 13, offset: 87684},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42308,10 +43912,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71131},
+							pos:   position{line: 2212, col: 5, offset: 71481},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71140},
+								pos:  position{line: 2212, col: 14, offset: 71490},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42321,35 +43925,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71228},
+			pos:  position{line: 2217, col: 1, offset: 71578},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71292},
+				pos: position{line: 2219, col: 5, offset: 71642},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71292},
+						pos: position{line: 2219, col: 5, offset: 71642},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71292},
+							pos: position{line: 2219, col: 5, offset: 71642},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71292},
+									pos:   position{line: 2219, col: 5, offset: 71642},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1854, col: 25, offset: 59846},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1854, col: 25, offset: 59846},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1854, col: 25, offset: 59846},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1854, col: 30, offset: 59851},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1854, col: 30, offset: 59851},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42360,21 +43964,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71327},
+									pos:        position{line: 2219, col: 40, offset: 71677},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71332},
+									pos:   position{line: 2219, col: 45, offset: 71682},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71342},
+										pos:  position{line: 2219, col: 55, offset: 71692},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71373},
+									pos:        position{line: 2219, col: 86, offset: 71723},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42383,21 +43987,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71538},
+						pos: position{line: 2223, col: 7, offset: 71888},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71538},
+							pos: position{line: 2223, col: 7, offset: 71888},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71538},
+									pos:   position{line: 2223, col: 7, offset: 71888},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42406,21 +44010,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71573},
+									pos:        position{line: 2223, col: 42, offset: 71923},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71578},
+									pos:   position{line: 2223, col: 47, offset: 71928},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71588},
+										pos:  position{line: 2223, col: 57, offset: 71938},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71619},
+									pos:        position{line: 2223, col: 88, offset: 71969},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42429,21 +44033,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71822},
+						pos: position{line: 2228, col: 7, offset: 72172},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71822},
+							pos: position{line: 2228, col: 7, offset: 72172},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71822},
+									pos:   position{line: 2228, col: 7, offset: 72172},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1850, col: 25, offset: 59773},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1850, col: 25, offset: 59773},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1850, col: 25, offset: 59773},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42452,21 +44056,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71857},
+									pos:        position{line: 2228, col: 42, offset: 72207},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71861},
+									pos:   position{line: 2228, col: 46, offset: 72211},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71871},
+										pos:  position{line: 2228, col: 56, offset: 72221},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71902},
+									pos:        position{line: 2228, col: 87, offset: 72252},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42479,29 +44083,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72169},
+			pos:  position{line: 2235, col: 1, offset: 72519},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72191},
+				pos: position{line: 2236, col: 5, offset: 72541},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72191},
+					pos: position{line: 2236, col: 5, offset: 72541},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2242, col: 27, offset: 72756},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72218},
+							pos:   position{line: 2237, col: 5, offset: 72568},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72227},
+								pos:  position{line: 2237, col: 14, offset: 72577},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2242, col: 27, offset: 72756},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42512,43 +44116,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72411},
+			pos:  position{line: 2244, col: 1, offset: 72761},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72435},
+				pos: position{line: 2244, col: 25, offset: 72785},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72435},
+						pos:  position{line: 2244, col: 25, offset: 72785},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72487},
+						pos: position{line: 2246, col: 21, offset: 72837},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2237, col: 21, offset: 72487},
+							pos:   position{line: 2246, col: 21, offset: 72837},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 29, offset: 72495},
+								pos: position{line: 2246, col: 29, offset: 72845},
 								expr: &choiceExpr{
-									pos: position{line: 2237, col: 30, offset: 72496},
+									pos: position{line: 2246, col: 30, offset: 72846},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2458, col: 5, offset: 79120},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78770},
+														pos: position{line: 2458, col: 5, offset: 79120},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78846},
+														pos:   position{line: 2461, col: 5, offset: 79196},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78864},
+															pos: position{line: 2462, col: 9, offset: 79214},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78865},
+																pos:        position{line: 2462, col: 10, offset: 79215},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42560,7 +44164,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2237, col: 49, offset: 72515},
+											pos:        position{line: 2246, col: 49, offset: 72865},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42576,23 +44180,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72572},
+			pos:  position{line: 2250, col: 1, offset: 72922},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72639},
+				pos: position{line: 2252, col: 5, offset: 72989},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72639},
+					pos: position{line: 2252, col: 5, offset: 72989},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72639},
+							pos:   position{line: 2252, col: 5, offset: 72989},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1850, col: 25, offset: 59773},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1850, col: 25, offset: 59773},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1850, col: 25, offset: 59773},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42601,21 +44205,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2242, col: 27, offset: 72756},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72707},
+							pos:   position{line: 2254, col: 5, offset: 73057},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72716},
+								pos:  position{line: 2254, col: 14, offset: 73066},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2242, col: 27, offset: 72756},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42626,29 +44230,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72979},
+			pos:  position{line: 2262, col: 1, offset: 73329},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73003},
+				pos: position{line: 2263, col: 5, offset: 73353},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73003},
+					pos: position{line: 2263, col: 5, offset: 73353},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73580},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73033},
+							pos:   position{line: 2264, col: 5, offset: 73383},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73042},
+								pos:  position{line: 2264, col: 14, offset: 73392},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73580},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42659,43 +44263,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73235},
+			pos:  position{line: 2271, col: 1, offset: 73585},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73261},
+				pos: position{line: 2271, col: 27, offset: 73611},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73261},
+						pos:  position{line: 2271, col: 27, offset: 73611},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73317},
+						pos: position{line: 2273, col: 23, offset: 73667},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2264, col: 23, offset: 73317},
+							pos:   position{line: 2273, col: 23, offset: 73667},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2264, col: 31, offset: 73325},
+								pos: position{line: 2273, col: 31, offset: 73675},
 								expr: &choiceExpr{
-									pos: position{line: 2264, col: 32, offset: 73326},
+									pos: position{line: 2273, col: 32, offset: 73676},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2458, col: 5, offset: 79120},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78770},
+														pos: position{line: 2458, col: 5, offset: 79120},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78846},
+														pos:   position{line: 2461, col: 5, offset: 79196},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78864},
+															pos: position{line: 2462, col: 9, offset: 79214},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78865},
+																pos:        position{line: 2462, col: 10, offset: 79215},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42707,7 +44311,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2264, col: 51, offset: 73345},
+											pos:        position{line: 2273, col: 51, offset: 73695},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -42723,23 +44327,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73402},
+			pos:  position{line: 2277, col: 1, offset: 73752},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73474},
+				pos: position{line: 2279, col: 5, offset: 73824},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73474},
+					pos: position{line: 2279, col: 5, offset: 73824},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73474},
+							pos:   position{line: 2279, col: 5, offset: 73824},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1850, col: 25, offset: 59773},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1850, col: 25, offset: 59773},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1850, col: 25, offset: 59773},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42748,21 +44352,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73580},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73544},
+							pos:   position{line: 2281, col: 5, offset: 73894},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73553},
+								pos:  position{line: 2281, col: 14, offset: 73903},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2269, col: 29, offset: 73580},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42773,27 +44377,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74022},
+			pos:  position{line: 2290, col: 1, offset: 74372},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74038},
+				pos: position{line: 2291, col: 5, offset: 74388},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74038},
+					pos: position{line: 2291, col: 5, offset: 74388},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74038},
+							pos: position{line: 2291, col: 5, offset: 74388},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74101},
+							pos:   position{line: 2294, col: 5, offset: 74451},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74108},
+								pos: position{line: 2294, col: 12, offset: 74458},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74108},
+									pos: position{line: 2294, col: 12, offset: 74458},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74109},
+										pos:        position{line: 2294, col: 13, offset: 74459},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42802,16 +44406,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74217},
+							pos: position{line: 2298, col: 5, offset: 74567},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2865, col: 11, offset: 90650},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2865, col: 11, offset: 90650},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2865, col: 11, offset: 90650},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42820,36 +44424,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74376},
+							pos:   position{line: 2302, col: 12, offset: 74726},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74383},
+								pos:  position{line: 2302, col: 19, offset: 74733},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42858,9 +44462,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -42871,24 +44475,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74479},
+			pos:  position{line: 2306, col: 1, offset: 74829},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74500},
+				pos: position{line: 2307, col: 5, offset: 74850},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74500},
+					pos: position{line: 2307, col: 5, offset: 74850},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74500},
+							pos: position{line: 2307, col: 5, offset: 74850},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74615},
+							pos:   position{line: 2312, col: 5, offset: 74965},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74624},
+								pos: position{line: 2312, col: 14, offset: 74974},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74625},
+									pos:  position{line: 2312, col: 15, offset: 74975},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42899,38 +44503,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74706},
+			pos:  position{line: 2316, col: 1, offset: 75056},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74733},
+				pos: position{line: 2317, col: 5, offset: 75083},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74733},
+					pos: position{line: 2317, col: 5, offset: 75083},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74733},
+							pos: position{line: 2317, col: 5, offset: 75083},
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 8, offset: 90637},
+								pos: position{line: 2883, col: 8, offset: 90987},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2870, col: 12, offset: 90760},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2870, col: 13, offset: 90761},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2870, col: 13, offset: 90761},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2870, col: 20, offset: 90768},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2870, col: 29, offset: 90777},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42939,36 +44543,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2880, col: 8, offset: 90937},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2880, col: 9, offset: 90938,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74742},
+							pos:   position{line: 2318, col: 5, offset: 75092},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74760},
+								pos: position{line: 2319, col: 9, offset: 75110},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2760, col: 5, offset: 87831},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2760, col: 5, offset: 87831},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2760, col: 5, offset: 87831},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2760, col: 11, offset: 87837},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2760, col: 11, offset: 87837},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2760, col: 11, offset: 87837},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42978,36 +44582,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2763, col: 5, offset: 87895},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2764, col: 9, offset: 87906},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2764, col: 9, offset: 87906},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2765, col: 9, offset: 87955},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2769, col: 5, offset: 88035},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2770, col: 9, offset: 88046},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2770, col: 9, offset: 88046},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2770, col: 13, offset: 88050},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43020,12 +44624,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2865, col: 11, offset: 90650},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2865, col: 11, offset: 90650},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2865, col: 11, offset: 90650},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43034,21 +44638,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2489, col: 5, offset: 80291},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2489, col: 5, offset: 80291},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2489, col: 5, offset: 80291},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2489, col: 10, offset: 80296},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2489, col: 11, offset: 80297},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43059,29 +44663,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2495, col: 5, offset: 80489},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2495, col: 5, offset: 80489},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2495, col: 5, offset: 80489},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2498, col: 5, offset: 80560},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2502, col: 5, offset: 80685},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2502, col: 9, offset: 80689},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2502, col: 10, offset: 80690},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43092,31 +44696,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74825},
+										pos:  position{line: 2322, col: 11, offset: 75175},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2778, col: 5, offset: 88243},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2779, col: 9, offset: 88253},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2779, col: 10, offset: 88254},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2781, col: 13, offset: 88351},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2781, col: 13, offset: 88351},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2784, col: 13, offset: 88451},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43124,20 +44728,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2784, col: 19, offset: 88457},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2787, col: 13, offset: 88495},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2787, col: 13, offset: 88495},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2790, col: 14, offset: 88588},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43146,18 +44750,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2792, col: 12, offset: 88632},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2792, col: 12, offset: 88632},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2792, col: 16, offset: 88636},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2792, col: 17, offset: 88637},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43169,35 +44773,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74898},
+										pos:  position{line: 2324, col: 11, offset: 75248},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74914},
+										pos:  position{line: 2325, col: 11, offset: 75264},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74942},
+										pos:  position{line: 2326, col: 11, offset: 75292},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2458, col: 5, offset: 79120},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2458, col: 5, offset: 79120},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2461, col: 5, offset: 79196},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2462, col: 9, offset: 79214},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2462, col: 10, offset: 79215},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43209,7 +44813,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75027},
+										pos:  position{line: 2328, col: 11, offset: 75377},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43559,27 +45163,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37178},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37178},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37146},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1206, col: 51, offset: 37206},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37211},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37211},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1206, col: 56, offset: 37211},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43589,7 +45193,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37146},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43598,17 +45202,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75480},
+										pos: position{line: 2341, col: 5, offset: 75830},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75480},
+											pos: position{line: 2341, col: 5, offset: 75830},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75480},
+													pos: position{line: 2341, col: 5, offset: 75830},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75535},
+													pos:   position{line: 2344, col: 5, offset: 75885},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43651,27 +45255,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1206, col: 23, offset: 37178},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36972},
+																								pos: position{line: 1206, col: 23, offset: 37178},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1204, col: 32, offset: 37146},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37000},
+																										pos:   position{line: 1206, col: 51, offset: 37206},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1206, col: 56, offset: 37211},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37005},
+																												pos: position{line: 1206, col: 56, offset: 37211},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37005},
+																													pos:        position{line: 1206, col: 56, offset: 37211},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43681,7 +45285,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1204, col: 32, offset: 37146},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44062,12 +45666,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75556},
+													pos: position{line: 2344, col: 26, offset: 75906},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2861, col: 10, offset: 90589},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2861, col: 10, offset: 90589},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44076,30 +45680,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75563},
+													pos: position{line: 2344, col: 33, offset: 75913},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2883, col: 8, offset: 90987},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2870, col: 12, offset: 90760},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2870, col: 13, offset: 90761},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2870, col: 13, offset: 90761},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2870, col: 20, offset: 90768},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2870, col: 29, offset: 90777},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44108,9 +45712,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2880, col: 8, offset: 90937},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2880, col: 9, offset: 90938,
 																},
 															},
 														},
@@ -44120,27 +45724,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1261, col: 5, offset: 38938},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1261, col: 5, offset: 38938},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1261, col: 5, offset: 38938},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1261, col: 14, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2846, col: 7, offset: 90241},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2846, col: 7, offset: 90241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2846, col: 7, offset: 90241},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44150,7 +45754,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1261, col: 22, offset: 38955},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44159,27 +45763,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1266, col: 5, offset: 39074},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1266, col: 5, offset: 39074},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1266, col: 5, offset: 39074},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1266, col: 10, offset: 39079},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2846, col: 7, offset: 90241},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2846, col: 7, offset: 90241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2846, col: 7, offset: 90241},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44189,7 +45793,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1266, col: 18, offset: 39087},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44198,14 +45802,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75281},
+										pos:  position{line: 2333, col: 11, offset: 75631},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2800, col: 12, offset: 88897},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2800, col: 12, offset: 88897},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44221,52 +45825,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75825},
+			pos:  position{line: 2354, col: 1, offset: 76175},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75912},
+				pos: position{line: 2355, col: 5, offset: 76262},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75912},
+					pos: position{line: 2355, col: 5, offset: 76262},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75912},
+							pos:   position{line: 2355, col: 5, offset: 76262},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75921},
+								pos: position{line: 2355, col: 14, offset: 76271},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75947},
+									pos: position{line: 2357, col: 9, offset: 76297},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75947},
+										pos: position{line: 2357, col: 9, offset: 76297},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2878, col: 11, offset: 90923},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2878, col: 13, offset: 90925,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75962},
+												pos:   position{line: 2358, col: 9, offset: 76312},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75984},
+													pos: position{line: 2359, col: 13, offset: 76334},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2751, col: 5, offset: 87481},
+															pos: position{line: 2760, col: 5, offset: 87831},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2751, col: 5, offset: 87481},
+																pos: position{line: 2760, col: 5, offset: 87831},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2751, col: 5, offset: 87481},
+																		pos:   position{line: 2760, col: 5, offset: 87831},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2751, col: 11, offset: 87487},
+																			pos: position{line: 2760, col: 11, offset: 87837},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2751, col: 11, offset: 87487},
+																				pos: position{line: 2760, col: 11, offset: 87837},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2751, col: 11, offset: 87487},
+																					pos:        position{line: 2760, col: 11, offset: 87837},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44276,36 +45880,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2754, col: 5, offset: 87545},
+																		pos: position{line: 2763, col: 5, offset: 87895},
 																		expr: &seqExpr{
-																			pos: position{line: 2755, col: 9, offset: 87556},
+																			pos: position{line: 2764, col: 9, offset: 87906},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2755, col: 9, offset: 87556},
+																					pos:        position{line: 2764, col: 9, offset: 87906},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2756, col: 9, offset: 87605},
+																					pos: position{line: 2765, col: 9, offset: 87955},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2760, col: 5, offset: 87685},
+																		pos: position{line: 2769, col: 5, offset: 88035},
 																		expr: &seqExpr{
-																			pos: position{line: 2761, col: 9, offset: 87696},
+																			pos: position{line: 2770, col: 9, offset: 88046},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2761, col: 9, offset: 87696},
+																					pos:        position{line: 2770, col: 9, offset: 88046},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2761, col: 13, offset: 87700},
+																					pos:        position{line: 2770, col: 13, offset: 88050},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44318,12 +45922,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90300},
+															pos: position{line: 2865, col: 11, offset: 90650},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2856, col: 11, offset: 90300},
+																pos: position{line: 2865, col: 11, offset: 90650},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90300},
+																	pos:        position{line: 2865, col: 11, offset: 90650},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44332,25 +45936,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76030},
+															pos:  position{line: 2361, col: 15, offset: 76380},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79941},
+															pos: position{line: 2489, col: 5, offset: 80291},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79941},
+																pos: position{line: 2489, col: 5, offset: 80291},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79941},
+																		pos:        position{line: 2489, col: 5, offset: 80291},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79946},
+																		pos: position{line: 2489, col: 10, offset: 80296},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79947},
+																			pos:        position{line: 2489, col: 11, offset: 80297},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44361,29 +45965,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80139},
+															pos: position{line: 2495, col: 5, offset: 80489},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80139},
+																pos: position{line: 2495, col: 5, offset: 80489},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80139},
+																		pos: position{line: 2495, col: 5, offset: 80489},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80210},
+																		pos: position{line: 2498, col: 5, offset: 80560},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80335},
+																		pos:        position{line: 2502, col: 5, offset: 80685},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80339},
+																		pos: position{line: 2502, col: 9, offset: 80689},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80340},
+																			pos:        position{line: 2502, col: 10, offset: 80690},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44394,27 +45998,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87893},
+															pos: position{line: 2778, col: 5, offset: 88243},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2770, col: 9, offset: 87903},
+																pos: position{line: 2779, col: 9, offset: 88253},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 10, offset: 87904},
+																		pos:        position{line: 2779, col: 10, offset: 88254},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2772, col: 13, offset: 88001},
+																		pos: position{line: 2781, col: 13, offset: 88351},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2772, col: 13, offset: 88001},
+																				pos: position{line: 2781, col: 13, offset: 88351},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2775, col: 13, offset: 88101},
+																				pos:        position{line: 2784, col: 13, offset: 88451},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44422,20 +46026,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2775, col: 19, offset: 88107},
+																		pos:        position{line: 2784, col: 19, offset: 88457},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2778, col: 13, offset: 88145},
+																		pos: position{line: 2787, col: 13, offset: 88495},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2778, col: 13, offset: 88145},
+																				pos: position{line: 2787, col: 13, offset: 88495},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2781, col: 14, offset: 88238},
+																				pos:        position{line: 2790, col: 14, offset: 88588},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44444,18 +46048,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 12, offset: 88282},
+																		pos: position{line: 2792, col: 12, offset: 88632},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 12, offset: 88282},
+																				pos:        position{line: 2792, col: 12, offset: 88632},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2783, col: 16, offset: 88286},
+																				pos: position{line: 2792, col: 16, offset: 88636},
 																				expr: &litMatcher{
-																					pos:        position{line: 2783, col: 17, offset: 88287},
+																					pos:        position{line: 2792, col: 17, offset: 88637},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44467,25 +46071,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2870, col: 12, offset: 90760},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2870, col: 13, offset: 90761},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2870, col: 13, offset: 90761},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2870, col: 20, offset: 90768},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2870, col: 29, offset: 90777},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44840,35 +46444,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76197},
+															pos:  position{line: 2366, col: 15, offset: 76547},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76217},
+															pos:  position{line: 2367, col: 15, offset: 76567},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76306},
+															pos:  position{line: 2368, col: 15, offset: 76656},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78770},
+															pos: position{line: 2458, col: 5, offset: 79120},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78770},
+																pos: position{line: 2458, col: 5, offset: 79120},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78770},
+																		pos: position{line: 2458, col: 5, offset: 79120},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78846},
+																		pos:   position{line: 2461, col: 5, offset: 79196},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78864},
+																			pos: position{line: 2462, col: 9, offset: 79214},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78865},
+																				pos:        position{line: 2462, col: 10, offset: 79215},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44880,32 +46484,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37418},
+															pos: position{line: 1214, col: 5, offset: 37624},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37418},
+																pos: position{line: 1214, col: 5, offset: 37624},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37418},
+																		pos: position{line: 1214, col: 5, offset: 37624},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37494},
+																		pos:        position{line: 1217, col: 5, offset: 37700},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37502},
+																		pos: position{line: 1218, col: 5, offset: 37708},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37589},
+																		pos: position{line: 1222, col: 5, offset: 37795},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2861, col: 10, offset: 90589},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44914,30 +46518,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37596},
+																		pos: position{line: 1222, col: 12, offset: 37802},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2883, col: 8, offset: 90987},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44946,9 +46550,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2880, col: 8, offset: 90937},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2880, col: 9, offset: 90938,
 																					},
 																				},
 																			},
@@ -44958,31 +46562,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76488},
+															pos:  position{line: 2371, col: 15, offset: 76838},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1206, col: 23, offset: 37178},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1206, col: 23, offset: 37178},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37146},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1206, col: 51, offset: 37206},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1206, col: 56, offset: 37211},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1206, col: 56, offset: 37211},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1206, col: 56, offset: 37211},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44992,7 +46596,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37146},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45001,10 +46605,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 12, offset: 88547},
+															pos: position{line: 2800, col: 12, offset: 88897},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 12, offset: 88547},
+																pos:        position{line: 2800, col: 12, offset: 88897},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45020,9 +46624,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -45031,28 +46635,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76926},
+			pos:  position{line: 2382, col: 1, offset: 77276},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76959},
+				pos: position{line: 2383, col: 5, offset: 77309},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76959},
+					pos: position{line: 2383, col: 5, offset: 77309},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76959},
+							pos:   position{line: 2383, col: 5, offset: 77309},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76968},
+								pos: position{line: 2383, col: 14, offset: 77318},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76969},
+									pos:  position{line: 2383, col: 15, offset: 77319},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -45061,41 +46665,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77066},
+			pos:  position{line: 2387, col: 1, offset: 77416},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77106},
+				pos: position{line: 2388, col: 5, offset: 77456},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77106},
+					pos: position{line: 2388, col: 5, offset: 77456},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2878, col: 11, offset: 90923},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2878, col: 13, offset: 90925,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77117},
+							pos:   position{line: 2389, col: 5, offset: 77467},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77135},
+								pos: position{line: 2390, col: 9, offset: 77485},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2760, col: 5, offset: 87831},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2760, col: 5, offset: 87831},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2760, col: 5, offset: 87831},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2760, col: 11, offset: 87837},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2760, col: 11, offset: 87837},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2760, col: 11, offset: 87837},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45105,36 +46709,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2763, col: 5, offset: 87895},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2764, col: 9, offset: 87906},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2764, col: 9, offset: 87906},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2765, col: 9, offset: 87955},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2769, col: 5, offset: 88035},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2770, col: 9, offset: 88046},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2770, col: 9, offset: 88046},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2770, col: 13, offset: 88050},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45147,10 +46751,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2861, col: 10, offset: 90589},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2861, col: 10, offset: 90589},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45158,31 +46762,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77173},
+										pos:  position{line: 2392, col: 11, offset: 77523},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2778, col: 5, offset: 88243},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2779, col: 9, offset: 88253},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2779, col: 10, offset: 88254},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2781, col: 13, offset: 88351},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2781, col: 13, offset: 88351},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2784, col: 13, offset: 88451},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45190,20 +46794,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2784, col: 19, offset: 88457},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2787, col: 13, offset: 88495},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2787, col: 13, offset: 88495},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2790, col: 14, offset: 88588},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45212,18 +46816,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2792, col: 12, offset: 88632},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2792, col: 12, offset: 88632},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2792, col: 16, offset: 88636},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2792, col: 17, offset: 88637},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45235,31 +46839,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77246},
+										pos:  position{line: 2394, col: 11, offset: 77596},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77262},
+										pos:  position{line: 2395, col: 11, offset: 77612},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2458, col: 5, offset: 79120},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2458, col: 5, offset: 79120},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2458, col: 5, offset: 79120},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2461, col: 5, offset: 79196},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2462, col: 9, offset: 79214},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2462, col: 10, offset: 79215},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45271,27 +46875,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37178},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37178},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37146},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1206, col: 51, offset: 37206},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37211},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37211},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1206, col: 56, offset: 37211},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45301,7 +46905,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37146},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45310,25 +46914,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2870, col: 12, offset: 90760},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2870, col: 13, offset: 90761},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2870, col: 13, offset: 90761},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2870, col: 20, offset: 90768},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2870, col: 29, offset: 90777},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45337,10 +46941,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2800, col: 12, offset: 88897},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2800, col: 12, offset: 88897},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45356,73 +46960,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77532},
+			pos:  position{line: 2406, col: 1, offset: 77882},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77614},
+				pos: position{line: 2408, col: 5, offset: 77964},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77614},
+					pos: position{line: 2408, col: 5, offset: 77964},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77614},
+							pos: position{line: 2408, col: 5, offset: 77964},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77679},
+							pos:   position{line: 2411, col: 5, offset: 78029},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77697},
+								pos: position{line: 2412, col: 9, offset: 78047},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77697},
+										pos:  position{line: 2412, col: 9, offset: 78047},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77718},
+										pos:  position{line: 2413, col: 11, offset: 78068},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77741},
+										pos:  position{line: 2414, col: 11, offset: 78091},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77757},
+										pos:  position{line: 2415, col: 11, offset: 78107},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77786},
+										pos:  position{line: 2416, col: 11, offset: 78136},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77812},
+										pos:  position{line: 2417, col: 11, offset: 78162},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77838},
+										pos:  position{line: 2418, col: 11, offset: 78188},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1261, col: 5, offset: 38938},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1261, col: 5, offset: 38938},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1261, col: 5, offset: 38938},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1261, col: 14, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2846, col: 7, offset: 90241},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2846, col: 7, offset: 90241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2846, col: 7, offset: 90241},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45432,7 +47036,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1261, col: 22, offset: 38955},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45441,27 +47045,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1266, col: 5, offset: 39074},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1266, col: 5, offset: 39074},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1266, col: 5, offset: 39074},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1266, col: 10, offset: 39079},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2846, col: 7, offset: 90241},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2846, col: 7, offset: 90241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2846, col: 7, offset: 90241},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45471,7 +47075,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1266, col: 18, offset: 39087},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45480,40 +47084,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40357},
+										pos: position{line: 1305, col: 23, offset: 40563},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40357},
+											pos: position{line: 1305, col: 23, offset: 40563},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40357},
+													pos:        position{line: 1305, col: 23, offset: 40563},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40363},
+													pos:   position{line: 1305, col: 29, offset: 40569},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40694},
+														pos: position{line: 1312, col: 30, offset: 40900},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40694},
+															pos: position{line: 1312, col: 30, offset: 40900},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40695},
+																pos: position{line: 1312, col: 31, offset: 40901},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2751, col: 13, offset: 87684},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2861, col: 10, offset: 90589},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2861, col: 10, offset: 90589},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45526,23 +47130,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40402},
+													pos:   position{line: 1306, col: 5, offset: 40608},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40408},
+														pos: position{line: 1306, col: 11, offset: 40614},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40409},
+															pos: position{line: 1306, col: 12, offset: 40615},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40409},
+																pos: position{line: 1306, col: 12, offset: 40615},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40409},
+																		pos: position{line: 1306, col: 12, offset: 40615},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2861, col: 10, offset: 90589},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45551,18 +47155,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40416},
+																		pos:        position{line: 1306, col: 19, offset: 40622},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40420},
+																		pos: position{line: 1306, col: 23, offset: 40626},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2861, col: 10, offset: 90589},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45571,28 +47175,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40427},
+																		pos:   position{line: 1306, col: 30, offset: 40633},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1312, col: 30, offset: 40900},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1312, col: 30, offset: 40900},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1312, col: 31, offset: 40901},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2751, col: 13, offset: 87684},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2861, col: 10, offset: 90589},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45610,23 +47214,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40494},
+													pos:   position{line: 1307, col: 5, offset: 40700},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40500},
+														pos: position{line: 1307, col: 11, offset: 40706},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40501},
+															pos: position{line: 1307, col: 12, offset: 40707},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40501},
+																pos: position{line: 1307, col: 12, offset: 40707},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40501},
+																		pos: position{line: 1307, col: 12, offset: 40707},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2861, col: 10, offset: 90589},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45635,18 +47239,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40508},
+																		pos:        position{line: 1307, col: 19, offset: 40714},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40512},
+																		pos: position{line: 1307, col: 23, offset: 40718},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2861, col: 10, offset: 90589},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2861, col: 10, offset: 90589},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45655,28 +47259,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40519},
+																		pos:   position{line: 1307, col: 30, offset: 40725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1312, col: 30, offset: 40900},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1312, col: 30, offset: 40900},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1312, col: 31, offset: 40901},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2751, col: 13, offset: 87684},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2861, col: 10, offset: 90589},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2861, col: 10, offset: 90589},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45694,7 +47298,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40586},
+													pos:        position{line: 1308, col: 5, offset: 40792},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45703,15 +47307,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77917},
+										pos:  position{line: 2421, col: 11, offset: 78267},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77937},
+										pos:  position{line: 2422, col: 11, offset: 78287},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77960},
+										pos:  position{line: 2423, col: 11, offset: 78310},
 										name: "InlineMenu",
 									},
 								},
@@ -45723,80 +47327,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78017},
+			pos:  position{line: 2427, col: 1, offset: 78367},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78105},
+				pos: position{line: 2429, col: 5, offset: 78455},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78105},
+					pos: position{line: 2429, col: 5, offset: 78455},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78105},
+							pos: position{line: 2429, col: 5, offset: 78455},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78182},
+							pos:   position{line: 2432, col: 5, offset: 78532},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78200},
+								pos: position{line: 2433, col: 9, offset: 78550},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43964},
+										pos: position{line: 1387, col: 26, offset: 44170},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43964},
+											pos: position{line: 1387, col: 26, offset: 44170},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1385, col: 32, offset: 44138},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43992},
+													pos:   position{line: 1387, col: 54, offset: 44198},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44205},
+														pos: position{line: 1391, col: 33, offset: 44411},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44206},
+																pos: position{line: 1391, col: 34, offset: 44412},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44206},
+																	pos: position{line: 1391, col: 34, offset: 44412},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44207},
+																		pos: position{line: 1391, col: 35, offset: 44413},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44207},
+																				pos: position{line: 1391, col: 35, offset: 44413},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1385, col: 32, offset: 44138},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44236,
+																				line: 1391, col: 64, offset: 44442,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44409},
+																pos: position{line: 1393, col: 11, offset: 44615},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44409},
+																	pos: position{line: 1393, col: 11, offset: 44615},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44410},
+																		pos: position{line: 1393, col: 12, offset: 44616},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44410},
+																				pos: position{line: 1393, col: 12, offset: 44616},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2861, col: 10, offset: 90589},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2861, col: 10, offset: 90589},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45805,27 +47409,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44417},
+																				pos: position{line: 1393, col: 19, offset: 44623},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2870, col: 12, offset: 90760},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2870, col: 13, offset: 90761},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2870, col: 13, offset: 90761},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2870, col: 20, offset: 90768},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2870, col: 29, offset: 90777},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45835,16 +47439,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44426},
+																				pos: position{line: 1393, col: 28, offset: 44632},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1385, col: 32, offset: 44138},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44455,
+																				line: 1393, col: 57, offset: 44661,
 																			},
 																		},
 																	},
@@ -45854,15 +47458,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1385, col: 32, offset: 44138},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44059},
+													pos: position{line: 1387, col: 121, offset: 44265},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2751, col: 13, offset: 87684},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45873,45 +47477,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43247},
+										pos: position{line: 1375, col: 26, offset: 43453},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43247},
+											pos: position{line: 1375, col: 26, offset: 43453},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1373, col: 32, offset: 43423},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43275},
+													pos:   position{line: 1375, col: 54, offset: 43481},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43488},
+														pos: position{line: 1379, col: 33, offset: 43694},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43489},
+																pos: position{line: 1379, col: 34, offset: 43695},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43489},
+																	pos: position{line: 1379, col: 34, offset: 43695},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43490},
+																			pos: position{line: 1379, col: 35, offset: 43696},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1373, col: 32, offset: 43423},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43519},
+																			pos: position{line: 1379, col: 64, offset: 43725},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45920,27 +47524,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43526},
+																			pos: position{line: 1379, col: 71, offset: 43732},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2870, col: 12, offset: 90760},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45950,25 +47554,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43535,
+																			line: 1379, col: 80, offset: 43741,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43538},
+																			pos: position{line: 1379, col: 83, offset: 43744},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43539},
+																				pos: position{line: 1379, col: 84, offset: 43745},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43539},
+																						pos: position{line: 1379, col: 84, offset: 43745},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43541},
+																							pos: position{line: 1379, col: 86, offset: 43747},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2865, col: 11, offset: 90650},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2865, col: 11, offset: 90650},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2865, col: 11, offset: 90650},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45977,7 +47581,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43217},
+																									pos:        position{line: 1373, col: 32, offset: 43423},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45986,36 +47590,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43577},
+																						pos: position{line: 1379, col: 122, offset: 43783},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43217},
+																							pos:        position{line: 1373, col: 32, offset: 43423},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43606},
+																						pos: position{line: 1379, col: 151, offset: 43812},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2870, col: 12, offset: 90760},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2870, col: 13, offset: 90761},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2870, col: 13, offset: 90761},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2870, col: 20, offset: 90768},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2870, col: 29, offset: 90777},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46025,7 +47629,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43615,
+																						line: 1379, col: 160, offset: 43821,
 																					},
 																				},
 																			},
@@ -46034,18 +47638,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43765},
+																pos: position{line: 1381, col: 11, offset: 43971},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43766},
+																	pos: position{line: 1381, col: 12, offset: 43972},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43766},
+																			pos: position{line: 1381, col: 12, offset: 43972},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2861, col: 10, offset: 90589},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2861, col: 10, offset: 90589},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46054,27 +47658,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43773},
+																			pos: position{line: 1381, col: 19, offset: 43979},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2870, col: 12, offset: 90760},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2870, col: 13, offset: 90761},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2870, col: 13, offset: 90761},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2870, col: 20, offset: 90768},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2870, col: 29, offset: 90777},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46084,16 +47688,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43782},
+																			pos: position{line: 1381, col: 28, offset: 43988},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1373, col: 32, offset: 43423},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43811,
+																			line: 1381, col: 57, offset: 44017,
 																		},
 																	},
 																},
@@ -46102,15 +47706,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1373, col: 32, offset: 43423},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43342},
+													pos: position{line: 1375, col: 121, offset: 43548},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2751, col: 13, offset: 87684},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46121,7 +47725,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78248},
+										pos:  position{line: 2433, col: 57, offset: 78598},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46133,16 +47737,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78308},
+			pos:  position{line: 2438, col: 1, offset: 78658},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78384},
+				pos: position{line: 2440, col: 5, offset: 78734},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78384},
+						pos: position{line: 2440, col: 5, offset: 78734},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78449},
+						pos:  position{line: 2443, col: 5, offset: 78799},
 						name: "QuotedText",
 					},
 				},
@@ -46150,22 +47754,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78462},
+			pos:  position{line: 2445, col: 1, offset: 78812},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78544},
+				pos: position{line: 2447, col: 5, offset: 78894},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78544},
+					pos: position{line: 2447, col: 5, offset: 78894},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78544},
+							pos: position{line: 2447, col: 5, offset: 78894},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78615},
+							pos:   position{line: 2450, col: 5, offset: 78965},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78633},
+								pos:  position{line: 2451, col: 9, offset: 78983},
 								name: "Symbol",
 							},
 						},
@@ -46175,103 +47779,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80392},
+			pos:  position{line: 2506, col: 1, offset: 80742},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80422},
+				pos: position{line: 2508, col: 5, offset: 80772},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80422},
+						pos: position{line: 2508, col: 5, offset: 80772},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80422},
+							pos: position{line: 2508, col: 5, offset: 80772},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80422},
+									pos:        position{line: 2508, col: 5, offset: 80772},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80427},
+									pos: position{line: 2508, col: 10, offset: 80777},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80427},
+											pos:  position{line: 2508, col: 10, offset: 80777},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81531},
+											pos: position{line: 2537, col: 14, offset: 81881},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81531},
+												pos:        position{line: 2537, col: 14, offset: 81881},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81597},
+											pos: position{line: 2541, col: 14, offset: 81947},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81597},
+												pos:        position{line: 2541, col: 14, offset: 81947},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81666},
+											pos: position{line: 2545, col: 15, offset: 82016},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81666},
+												pos:        position{line: 2545, col: 15, offset: 82016},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81731},
+											pos: position{line: 2549, col: 13, offset: 82081},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81731},
+												pos:        position{line: 2549, col: 13, offset: 82081},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 21, offset: 82301},
+											pos: position{line: 2577, col: 21, offset: 82651},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 21, offset: 82301},
+												pos:        position{line: 2577, col: 21, offset: 82651},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81887},
+											pos: position{line: 2556, col: 5, offset: 82237},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81887},
+												pos: position{line: 2556, col: 5, offset: 82237},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81887},
+														pos:        position{line: 2556, col: 5, offset: 82237},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81897},
+														pos: position{line: 2557, col: 5, offset: 82247},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81984},
+														pos: position{line: 2561, col: 6, offset: 82334},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2861, col: 10, offset: 90589},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2861, col: 10, offset: 90589},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46279,30 +47883,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81992},
+																pos: position{line: 2561, col: 14, offset: 82342},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2883, col: 8, offset: 90987},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2870, col: 12, offset: 90760},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2870, col: 13, offset: 90761},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2870, col: 13, offset: 90761},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2870, col: 20, offset: 90768},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2870, col: 29, offset: 90777},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46311,9 +47915,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2880, col: 8, offset: 90937},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2880, col: 9, offset: 90938,
 																			},
 																		},
 																	},
@@ -46325,53 +47929,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82112},
+											pos: position{line: 2566, col: 5, offset: 82462},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82112},
+												pos: position{line: 2566, col: 5, offset: 82462},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82112},
+														pos:        position{line: 2566, col: 5, offset: 82462},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82122},
+														pos: position{line: 2567, col: 5, offset: 82472},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82211},
+														pos: position{line: 2571, col: 5, offset: 82561},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82213},
+															pos: position{line: 2571, col: 7, offset: 82563},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2751, col: 13, offset: 87684},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2870, col: 12, offset: 90760},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2870, col: 13, offset: 90761},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2870, col: 13, offset: 90761},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2870, col: 20, offset: 90768},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2870, col: 29, offset: 90777},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46380,9 +47984,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -46392,30 +47996,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 20, offset: 82371},
+											pos: position{line: 2581, col: 20, offset: 82721},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 20, offset: 82371},
+												pos:        position{line: 2581, col: 20, offset: 82721},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82442},
+											pos: position{line: 2585, col: 21, offset: 82792},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82442},
+												pos:        position{line: 2585, col: 21, offset: 82792},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82512},
+											pos: position{line: 2589, col: 20, offset: 82862},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82512},
+												pos:        position{line: 2589, col: 20, offset: 82862},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46427,73 +48031,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80682},
+						pos:  position{line: 2512, col: 7, offset: 81032},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81531},
+						pos: position{line: 2537, col: 14, offset: 81881},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81531},
+							pos:        position{line: 2537, col: 14, offset: 81881},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81597},
+						pos: position{line: 2541, col: 14, offset: 81947},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81597},
+							pos:        position{line: 2541, col: 14, offset: 81947},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81666},
+						pos: position{line: 2545, col: 15, offset: 82016},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81666},
+							pos:        position{line: 2545, col: 15, offset: 82016},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81731},
+						pos: position{line: 2549, col: 13, offset: 82081},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81731},
+							pos:        position{line: 2549, col: 13, offset: 82081},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81887},
+						pos: position{line: 2556, col: 5, offset: 82237},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81887},
+							pos: position{line: 2556, col: 5, offset: 82237},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81887},
+									pos:        position{line: 2556, col: 5, offset: 82237},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81897},
+									pos: position{line: 2557, col: 5, offset: 82247},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81984},
+									pos: position{line: 2561, col: 6, offset: 82334},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2861, col: 10, offset: 90589},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2861, col: 10, offset: 90589},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46501,30 +48105,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81992},
+											pos: position{line: 2561, col: 14, offset: 82342},
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2883, col: 8, offset: 90987},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2870, col: 12, offset: 90760},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2870, col: 13, offset: 90761},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2870, col: 13, offset: 90761},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2870, col: 20, offset: 90768},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2870, col: 29, offset: 90777},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46533,9 +48137,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2880, col: 8, offset: 90937},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2880, col: 9, offset: 90938,
 														},
 													},
 												},
@@ -46547,53 +48151,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82112},
+						pos: position{line: 2566, col: 5, offset: 82462},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82112},
+							pos: position{line: 2566, col: 5, offset: 82462},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82112},
+									pos:        position{line: 2566, col: 5, offset: 82462},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82122},
+									pos: position{line: 2567, col: 5, offset: 82472},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82211},
+									pos: position{line: 2571, col: 5, offset: 82561},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82213},
+										pos: position{line: 2571, col: 7, offset: 82563},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2751, col: 13, offset: 87684},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2870, col: 12, offset: 90760},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2870, col: 13, offset: 90761},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2870, col: 13, offset: 90761},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2870, col: 20, offset: 90768},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2870, col: 29, offset: 90777},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46602,9 +48206,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2880, col: 8, offset: 90937},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2880, col: 9, offset: 90938,
 												},
 											},
 										},
@@ -46614,40 +48218,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82301},
+						pos: position{line: 2577, col: 21, offset: 82651},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82301},
+							pos:        position{line: 2577, col: 21, offset: 82651},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82371},
+						pos: position{line: 2581, col: 20, offset: 82721},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82371},
+							pos:        position{line: 2581, col: 20, offset: 82721},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82442},
+						pos: position{line: 2585, col: 21, offset: 82792},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82442},
+							pos:        position{line: 2585, col: 21, offset: 82792},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82512},
+						pos: position{line: 2589, col: 20, offset: 82862},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82512},
+							pos:        position{line: 2589, col: 20, offset: 82862},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46658,43 +48262,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80872},
+			pos:  position{line: 2523, col: 1, offset: 81222},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80894},
+				pos: position{line: 2524, col: 5, offset: 81244},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80894},
+						pos: position{line: 2524, col: 5, offset: 81244},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80894},
+							pos: position{line: 2524, col: 5, offset: 81244},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80894},
+									pos:        position{line: 2524, col: 5, offset: 81244},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80900},
+									pos: position{line: 2524, col: 11, offset: 81250},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2087, col: 5, offset: 67454},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2087, col: 5, offset: 67454},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2088, col: 5, offset: 67463},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2092, col: 5, offset: 67586},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2092, col: 7, offset: 67588},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2092, col: 8, offset: 67589},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46708,21 +48312,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81053},
+						pos: position{line: 2527, col: 7, offset: 81403},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81053},
+							pos: position{line: 2527, col: 7, offset: 81403},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81053},
+									pos:        position{line: 2527, col: 7, offset: 81403},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81059},
+									pos: position{line: 2527, col: 13, offset: 81409},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81060},
+										pos:  position{line: 2527, col: 14, offset: 81410},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46730,38 +48334,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81210},
+						pos: position{line: 2530, col: 7, offset: 81560},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81210},
+							pos: position{line: 2530, col: 7, offset: 81560},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81210},
+									pos:        position{line: 2530, col: 7, offset: 81560},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81215},
+									pos: position{line: 2530, col: 12, offset: 81565},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2087, col: 5, offset: 67454},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2087, col: 5, offset: 67454},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2088, col: 5, offset: 67463},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2092, col: 5, offset: 67586},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2092, col: 7, offset: 67588},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2092, col: 8, offset: 67589},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46775,21 +48379,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81368},
+						pos: position{line: 2533, col: 7, offset: 81718},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81368},
+							pos: position{line: 2533, col: 7, offset: 81718},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81368},
+									pos:        position{line: 2533, col: 7, offset: 81718},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81373},
+									pos: position{line: 2533, col: 12, offset: 81723},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81374},
+										pos:  position{line: 2533, col: 13, offset: 81724},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46801,63 +48405,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84414},
+			pos:  position{line: 2666, col: 1, offset: 84764},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84439},
+				pos: position{line: 2666, col: 26, offset: 84789},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84439},
+					pos: position{line: 2666, col: 26, offset: 84789},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84439},
+							pos:   position{line: 2666, col: 26, offset: 84789},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84444},
+								pos: position{line: 2666, col: 31, offset: 84794},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84507},
+									pos: position{line: 2671, col: 5, offset: 84857},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84507},
+										pos: position{line: 2671, col: 5, offset: 84857},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2878, col: 11, offset: 90923},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2878, col: 13, offset: 90925,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84633},
+												pos:   position{line: 2674, col: 5, offset: 84983},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84644},
+													pos: position{line: 2674, col: 16, offset: 84994},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84645},
+														pos: position{line: 2674, col: 17, offset: 84995},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84645},
+															pos: position{line: 2674, col: 17, offset: 84995},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84645},
+																	pos:   position{line: 2674, col: 17, offset: 84995},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2853, col: 12, offset: 90416},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2853, col: 13, offset: 90417},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2853, col: 13, offset: 90417},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2853, col: 13, offset: 90417},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2853, col: 18, offset: 90422},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2853, col: 18, offset: 90422},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46869,7 +48473,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84655},
+																	pos:        position{line: 2674, col: 27, offset: 85005},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46880,38 +48484,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84683},
+												pos:   position{line: 2675, col: 5, offset: 85033},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84690},
+													pos: position{line: 2675, col: 12, offset: 85040},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84700},
+														pos: position{line: 2676, col: 9, offset: 85050},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84700},
+																pos: position{line: 2676, col: 9, offset: 85050},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84700},
+																	pos:        position{line: 2676, col: 9, offset: 85050},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84747},
+																pos: position{line: 2677, col: 11, offset: 85097},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84747},
+																	pos:        position{line: 2677, col: 11, offset: 85097},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84795},
+																pos: position{line: 2678, col: 11, offset: 85145},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84795},
+																	pos:        position{line: 2678, col: 11, offset: 85145},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46922,38 +48526,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84845},
+												pos:   position{line: 2680, col: 5, offset: 85195},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84852},
+													pos: position{line: 2680, col: 12, offset: 85202},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84862},
+														pos: position{line: 2681, col: 9, offset: 85212},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84862},
+																pos: position{line: 2681, col: 9, offset: 85212},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84862},
+																	pos:        position{line: 2681, col: 9, offset: 85212},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84909},
+																pos: position{line: 2682, col: 11, offset: 85259},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84909},
+																	pos:        position{line: 2682, col: 11, offset: 85259},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84959},
+																pos: position{line: 2683, col: 11, offset: 85309},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84959},
+																	pos:        position{line: 2683, col: 11, offset: 85309},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46964,32 +48568,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85010},
+												pos:   position{line: 2685, col: 5, offset: 85360},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85017},
+													pos: position{line: 2685, col: 12, offset: 85367},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85018},
+														pos: position{line: 2685, col: 13, offset: 85368},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2853, col: 12, offset: 90416},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2853, col: 13, offset: 90417},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2853, col: 13, offset: 90417},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2853, col: 13, offset: 90417},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2853, col: 18, offset: 90422},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2853, col: 18, offset: 90422},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47000,10 +48604,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85029},
+																pos: position{line: 2685, col: 24, offset: 85379},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85029},
+																	pos:        position{line: 2685, col: 24, offset: 85379},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47014,15 +48618,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85071},
+												pos:   position{line: 2686, col: 5, offset: 85421},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85077},
+													pos: position{line: 2686, col: 11, offset: 85427},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85078},
+														pos: position{line: 2686, col: 12, offset: 85428},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85078},
+															pos:        position{line: 2686, col: 12, offset: 85428},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47032,12 +48636,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85208},
+												pos:   position{line: 2688, col: 5, offset: 85558},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85214},
+													pos: position{line: 2688, col: 11, offset: 85564},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85215},
+														pos:        position{line: 2688, col: 12, offset: 85565},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47045,7 +48649,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85225},
+												pos: position{line: 2689, col: 5, offset: 85575},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47054,9 +48658,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2880, col: 8, offset: 90937},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2880, col: 9, offset: 90938,
 							},
 						},
 					},
@@ -47065,23 +48669,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2707, col: 1, offset: 86234},
+			pos:  position{line: 2716, col: 1, offset: 86584},
 			expr: &actionExpr{
-				pos: position{line: 2708, col: 5, offset: 86257},
+				pos: position{line: 2717, col: 5, offset: 86607},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2708, col: 5, offset: 86257},
+					pos: position{line: 2717, col: 5, offset: 86607},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2708, col: 5, offset: 86257},
+							pos:   position{line: 2717, col: 5, offset: 86607},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2740, col: 18, offset: 87348},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2740, col: 19, offset: 87349},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2740, col: 19, offset: 87349},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47092,25 +48696,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2709, col: 5, offset: 86283},
+							pos: position{line: 2718, col: 5, offset: 86633},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2713, col: 5, offset: 86411},
+							pos:        position{line: 2722, col: 5, offset: 86761},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2714, col: 5, offset: 86421},
+							pos:   position{line: 2723, col: 5, offset: 86771},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2744, col: 19, offset: 87424},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2744, col: 19, offset: 87424},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2744, col: 19, offset: 87424},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47120,36 +48724,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2715, col: 5, offset: 86449},
+							pos:   position{line: 2724, col: 5, offset: 86799},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2715, col: 17, offset: 86461},
+								pos:  position{line: 2724, col: 17, offset: 86811},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2883, col: 8, offset: 90987},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2870, col: 12, offset: 90760},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2870, col: 13, offset: 90761},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2870, col: 13, offset: 90761},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2870, col: 20, offset: 90768},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2870, col: 29, offset: 90777},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47158,9 +48762,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2880, col: 8, offset: 90937},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2880, col: 9, offset: 90938,
 									},
 								},
 							},
@@ -47171,23 +48775,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2719, col: 1, offset: 86609},
+			pos:  position{line: 2728, col: 1, offset: 86959},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86633},
+				pos: position{line: 2729, col: 5, offset: 86983},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86633},
+					pos: position{line: 2729, col: 5, offset: 86983},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86633},
+							pos:   position{line: 2729, col: 5, offset: 86983},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2740, col: 18, offset: 87348},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2740, col: 19, offset: 87349},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2740, col: 19, offset: 87349},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47198,25 +48802,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86659},
+							pos: position{line: 2730, col: 5, offset: 87009},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86787},
+							pos:        position{line: 2734, col: 5, offset: 87137},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86796},
+							pos:   position{line: 2735, col: 5, offset: 87146},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2744, col: 19, offset: 87424},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2744, col: 19, offset: 87424},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2744, col: 19, offset: 87424},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47226,10 +48830,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86824},
+							pos:   position{line: 2736, col: 5, offset: 87174},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86836},
+								pos:  position{line: 2736, col: 17, offset: 87186},
 								name: "InlineAttributes",
 							},
 						},
@@ -47239,43 +48843,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2806, col: 1, offset: 88886},
+			pos:  position{line: 2815, col: 1, offset: 89236},
 			expr: &actionExpr{
-				pos: position{line: 2806, col: 17, offset: 88902},
+				pos: position{line: 2815, col: 17, offset: 89252},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2806, col: 17, offset: 88902},
+					pos:   position{line: 2815, col: 17, offset: 89252},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89356},
+						pos: position{line: 2832, col: 5, offset: 89706},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2823, col: 5, offset: 89356},
+							pos:   position{line: 2832, col: 5, offset: 89706},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2823, col: 14, offset: 89365},
+								pos: position{line: 2832, col: 14, offset: 89715},
 								expr: &choiceExpr{
-									pos: position{line: 2824, col: 9, offset: 89375},
+									pos: position{line: 2833, col: 9, offset: 89725},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2824, col: 9, offset: 89375},
+											pos: position{line: 2833, col: 9, offset: 89725},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2824, col: 9, offset: 89375},
+												pos: position{line: 2833, col: 9, offset: 89725},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2824, col: 9, offset: 89375},
+														pos: position{line: 2833, col: 9, offset: 89725},
 														expr: &litMatcher{
-															pos:        position{line: 2824, col: 10, offset: 89376},
+															pos:        position{line: 2833, col: 10, offset: 89726},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2825, col: 9, offset: 89404},
+														pos: position{line: 2834, col: 9, offset: 89754},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 10, offset: 89405},
+															pos:        position{line: 2834, col: 10, offset: 89755},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47286,27 +48890,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2828, col: 11, offset: 89617},
+											pos: position{line: 2837, col: 11, offset: 89967},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 11, offset: 89617},
+													pos:        position{line: 2837, col: 11, offset: 89967},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2828, col: 19, offset: 89625},
+													pos: position{line: 2837, col: 19, offset: 89975},
 													expr: &seqExpr{
-														pos: position{line: 2828, col: 21, offset: 89627},
+														pos: position{line: 2837, col: 21, offset: 89977},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2828, col: 21, offset: 89627},
+																pos: position{line: 2837, col: 21, offset: 89977},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2861, col: 10, offset: 90589},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2861, col: 10, offset: 90589},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47315,11 +48919,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2828, col: 28, offset: 89634},
+																pos: position{line: 2837, col: 28, offset: 89984},
 																expr: &notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2880, col: 8, offset: 90937},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2880, col: 9, offset: 90938,
 																	},
 																},
 															},
@@ -47675,27 +49279,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37178},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1206, col: 23, offset: 37178},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37146},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1206, col: 51, offset: 37206},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37211},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1206, col: 56, offset: 37211},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1206, col: 56, offset: 37211},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47705,7 +49309,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37146},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47714,10 +49318,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2831, col: 11, offset: 89754},
+											pos: position{line: 2840, col: 11, offset: 90104},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 11, offset: 89754},
+												pos:        position{line: 2840, col: 11, offset: 90104},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -50057,572 +51661,605 @@ func (p *parser) callonDocumentFragment58() (interface{}, error) {
 	return p.cur.onDocumentFragment58()
 }
 
-func (c *current) onDocumentFragment80() (interface{}, error) {
-	// sequence of 4 "/" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment80() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment80()
-}
-
-func (c *current) onDocumentFragment86() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment86()
-}
-
-func (c *current) onDocumentFragment89() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment89() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment89()
-}
-
-func (c *current) onDocumentFragment77(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment77() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment77(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment105() (interface{}, error) {
+func (c *current) onDocumentFragment81() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment105() (interface{}, error) {
+func (p *parser) callonDocumentFragment81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment105()
+	return p.cur.onDocumentFragment81()
 }
 
-func (c *current) onDocumentFragment111() (interface{}, error) {
+func (c *current) onDocumentFragment87() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment111() (interface{}, error) {
+func (p *parser) callonDocumentFragment87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment111()
+	return p.cur.onDocumentFragment87()
 }
 
-func (c *current) onDocumentFragment114() (interface{}, error) {
+func (c *current) onDocumentFragment90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment114() (interface{}, error) {
+func (p *parser) callonDocumentFragment90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment114()
+	return p.cur.onDocumentFragment90()
 }
 
-func (c *current) onDocumentFragment102(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment78(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment102() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment102(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment129() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment129() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment129()
-}
-
-func (c *current) onDocumentFragment133() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment133() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment133()
-}
-
-func (c *current) onDocumentFragment124(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment124() (interface{}, error) {
+func (p *parser) callonDocumentFragment78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment124(stack["content"])
+	return p.cur.onDocumentFragment78(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment98(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment97(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment98() (interface{}, error) {
+func (p *parser) callonDocumentFragment97() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment98(stack["line"])
+	return p.cur.onDocumentFragment97(stack["start"])
 }
 
-func (c *current) onDocumentFragment145() (interface{}, error) {
+func (c *current) onDocumentFragment109() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment145() (interface{}, error) {
+func (p *parser) callonDocumentFragment109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment145()
+	return p.cur.onDocumentFragment109()
 }
 
-func (c *current) onDocumentFragment151() (interface{}, error) {
+func (c *current) onDocumentFragment115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment151() (interface{}, error) {
+func (p *parser) callonDocumentFragment115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment151()
+	return p.cur.onDocumentFragment115()
 }
 
-func (c *current) onDocumentFragment154() (interface{}, error) {
+func (c *current) onDocumentFragment118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment154() (interface{}, error) {
+func (p *parser) callonDocumentFragment118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment154()
+	return p.cur.onDocumentFragment118()
 }
 
-func (c *current) onDocumentFragment142(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment142() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment142(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment75(delimiter, content interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
-
-}
-
-func (p *parser) callonDocumentFragment75() (interface{}, error) {
+func (p *parser) callonDocumentFragment106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment75(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentFragment106(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment169() (interface{}, error) {
-	// sequence of 4 "=" chars or more
-	return string(c.text), nil
+func (c *current) onDocumentFragment125(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment169() (interface{}, error) {
+func (p *parser) callonDocumentFragment125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment169()
+	return p.cur.onDocumentFragment125(stack["end"])
 }
 
-func (c *current) onDocumentFragment175() (interface{}, error) {
+func (c *current) onDocumentFragment134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment175() (interface{}, error) {
+func (p *parser) callonDocumentFragment134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment175()
+	return p.cur.onDocumentFragment134()
 }
 
-func (c *current) onDocumentFragment178() (interface{}, error) {
+func (c *current) onDocumentFragment138() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment178() (interface{}, error) {
+func (p *parser) callonDocumentFragment138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment178()
+	return p.cur.onDocumentFragment138()
 }
 
-func (c *current) onDocumentFragment166(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment129(content interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment166() (interface{}, error) {
+func (p *parser) callonDocumentFragment129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment166(stack["delimiter"])
+	return p.cur.onDocumentFragment129(stack["content"])
 }
 
-func (c *current) onDocumentFragment185(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onDocumentFragment100(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment185() (bool, error) {
+func (p *parser) callonDocumentFragment100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment185(stack["start"])
+	return p.cur.onDocumentFragment100(stack["line"])
 }
 
-func (c *current) onDocumentFragment197() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onDocumentFragment152() (interface{}, error) {
+	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment197() (interface{}, error) {
+func (p *parser) callonDocumentFragment152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment197()
+	return p.cur.onDocumentFragment152()
 }
 
-func (c *current) onDocumentFragment203() (interface{}, error) {
+func (c *current) onDocumentFragment158() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment203() (interface{}, error) {
+func (p *parser) callonDocumentFragment158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment203()
+	return p.cur.onDocumentFragment158()
 }
 
-func (c *current) onDocumentFragment206() (interface{}, error) {
+func (c *current) onDocumentFragment161() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment206() (interface{}, error) {
+func (p *parser) callonDocumentFragment161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment206()
+	return p.cur.onDocumentFragment161()
 }
 
-func (c *current) onDocumentFragment194(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment149(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment194() (interface{}, error) {
+func (p *parser) callonDocumentFragment149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment194(stack["delimiter"])
+	return p.cur.onDocumentFragment149(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment213(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment168(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment213() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment213(stack["end"])
-}
-
-func (c *current) onDocumentFragment222() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment222() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment222()
-}
-
-func (c *current) onDocumentFragment226() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment226() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment226()
-}
-
-func (c *current) onDocumentFragment217(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment217() (interface{}, error) {
+func (p *parser) callonDocumentFragment168() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment217(stack["content"])
+	return p.cur.onDocumentFragment168(stack["end"])
 }
 
-func (c *current) onDocumentFragment188(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment75(start, content interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment188() (interface{}, error) {
+func (p *parser) callonDocumentFragment75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment188(stack["line"])
+	return p.cur.onDocumentFragment75(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentFragment241() (interface{}, error) {
+func (c *current) onDocumentFragment177() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment241() (interface{}, error) {
+func (p *parser) callonDocumentFragment177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment241()
+	return p.cur.onDocumentFragment177()
 }
 
-func (c *current) onDocumentFragment247() (interface{}, error) {
+func (c *current) onDocumentFragment183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment247() (interface{}, error) {
+func (p *parser) callonDocumentFragment183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment247()
+	return p.cur.onDocumentFragment183()
 }
 
-func (c *current) onDocumentFragment250() (interface{}, error) {
+func (c *current) onDocumentFragment186() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment250() (interface{}, error) {
+func (p *parser) callonDocumentFragment186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment250()
+	return p.cur.onDocumentFragment186()
 }
 
-func (c *current) onDocumentFragment238(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment174(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment238() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment238(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment257(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonDocumentFragment257() (bool, error) {
+func (p *parser) callonDocumentFragment174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment257(stack["end"])
+	return p.cur.onDocumentFragment174(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment163(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
+func (c *current) onDocumentFragment193(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment163() (interface{}, error) {
+func (p *parser) callonDocumentFragment193() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment163(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment193(stack["start"])
 }
 
-func (c *current) onDocumentFragment267() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onDocumentFragment205() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentFragment267() (interface{}, error) {
+func (p *parser) callonDocumentFragment205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment267()
+	return p.cur.onDocumentFragment205()
 }
 
-func (c *current) onDocumentFragment271() (interface{}, error) {
+func (c *current) onDocumentFragment211() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment271() (interface{}, error) {
+func (p *parser) callonDocumentFragment211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment271()
+	return p.cur.onDocumentFragment211()
 }
 
-func (c *current) onDocumentFragment274() (interface{}, error) {
+func (c *current) onDocumentFragment214() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment274() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment274()
-}
-
-func (c *current) onDocumentFragment263(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
-}
-
-func (p *parser) callonDocumentFragment263() (interface{}, error) {
+func (p *parser) callonDocumentFragment214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment263(stack["language"])
+	return p.cur.onDocumentFragment214()
 }
 
-func (c *current) onDocumentFragment289() (interface{}, error) {
+func (c *current) onDocumentFragment202(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment289() (interface{}, error) {
+func (p *parser) callonDocumentFragment202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment289()
+	return p.cur.onDocumentFragment202(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment292() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onDocumentFragment221(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
 }
 
-func (p *parser) callonDocumentFragment292() (interface{}, error) {
+func (p *parser) callonDocumentFragment221() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment292()
+	return p.cur.onDocumentFragment221(stack["end"])
 }
 
-func (c *current) onDocumentFragment305() (interface{}, error) {
+func (c *current) onDocumentFragment230() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment305() (interface{}, error) {
+func (p *parser) callonDocumentFragment230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment305()
+	return p.cur.onDocumentFragment230()
 }
 
-func (c *current) onDocumentFragment309() (interface{}, error) {
+func (c *current) onDocumentFragment234() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment309() (interface{}, error) {
+func (p *parser) callonDocumentFragment234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment309()
+	return p.cur.onDocumentFragment234()
 }
 
-func (c *current) onDocumentFragment300(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment225(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
+func (p *parser) callonDocumentFragment225() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment225(stack["content"])
+}
+
+func (c *current) onDocumentFragment196(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment196() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment196(stack["line"])
+}
+
+func (c *current) onDocumentFragment249() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment249() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment249()
+}
+
+func (c *current) onDocumentFragment255() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment255() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment255()
+}
+
+func (c *current) onDocumentFragment258() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment258() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment258()
+}
+
+func (c *current) onDocumentFragment246(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment246() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment246(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment265(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment265() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment265(stack["end"])
+}
+
+func (c *current) onDocumentFragment171(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment171() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment171(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment275() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment275() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment275()
+}
+
+func (c *current) onDocumentFragment279() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment279() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment279()
+}
+
+func (c *current) onDocumentFragment282() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment282() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment282()
+}
+
+func (c *current) onDocumentFragment271(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+}
+
+func (p *parser) callonDocumentFragment271() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment271(stack["language"])
+}
+
+func (c *current) onDocumentFragment297() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment297() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment297()
+}
+
+func (c *current) onDocumentFragment300() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
 func (p *parser) callonDocumentFragment300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment300(stack["content"])
+	return p.cur.onDocumentFragment300()
+}
+
+func (c *current) onDocumentFragment313() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment313() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment313()
+}
+
+func (c *current) onDocumentFragment317() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment317() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment317()
 }
 
-func (c *current) onDocumentFragment283(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment308(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment308() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment308(stack["content"])
+}
+
+func (c *current) onDocumentFragment291(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment283() (interface{}, error) {
+func (p *parser) callonDocumentFragment291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment283(stack["line"])
+	return p.cur.onDocumentFragment291(stack["line"])
 }
 
-func (c *current) onDocumentFragment320() (interface{}, error) {
+func (c *current) onDocumentFragment328() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment320() (interface{}, error) {
+func (p *parser) callonDocumentFragment328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment320()
+	return p.cur.onDocumentFragment328()
 }
 
-func (c *current) onDocumentFragment323() (interface{}, error) {
+func (c *current) onDocumentFragment331() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment323() (interface{}, error) {
+func (p *parser) callonDocumentFragment331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment323()
+	return p.cur.onDocumentFragment331()
 }
 
-func (c *current) onDocumentFragment260(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment268(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -50630,2459 +52267,2459 @@ func (c *current) onDocumentFragment260(delimiter, content interface{}) (interfa
 
 }
 
-func (p *parser) callonDocumentFragment260() (interface{}, error) {
+func (p *parser) callonDocumentFragment268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment260(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentFragment268(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onDocumentFragment336() (interface{}, error) {
+func (c *current) onDocumentFragment344() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment336() (interface{}, error) {
+func (p *parser) callonDocumentFragment344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment336()
+	return p.cur.onDocumentFragment344()
 }
 
-func (c *current) onDocumentFragment342() (interface{}, error) {
+func (c *current) onDocumentFragment350() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment342() (interface{}, error) {
+func (p *parser) callonDocumentFragment350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment342()
+	return p.cur.onDocumentFragment350()
 }
 
-func (c *current) onDocumentFragment345() (interface{}, error) {
+func (c *current) onDocumentFragment353() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment345() (interface{}, error) {
+func (p *parser) callonDocumentFragment353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment345()
+	return p.cur.onDocumentFragment353()
 }
 
-func (c *current) onDocumentFragment333(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment341(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment333() (interface{}, error) {
+func (p *parser) callonDocumentFragment341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment333(stack["delimiter"])
+	return p.cur.onDocumentFragment341(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment352(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment360(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment352() (bool, error) {
+func (p *parser) callonDocumentFragment360() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment352(stack["start"])
+	return p.cur.onDocumentFragment360(stack["start"])
 }
 
-func (c *current) onDocumentFragment364() (interface{}, error) {
+func (c *current) onDocumentFragment372() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment364() (interface{}, error) {
+func (p *parser) callonDocumentFragment372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment364()
+	return p.cur.onDocumentFragment372()
 }
 
-func (c *current) onDocumentFragment370() (interface{}, error) {
+func (c *current) onDocumentFragment378() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment370() (interface{}, error) {
+func (p *parser) callonDocumentFragment378() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment370()
+	return p.cur.onDocumentFragment378()
 }
 
-func (c *current) onDocumentFragment373() (interface{}, error) {
+func (c *current) onDocumentFragment381() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment373() (interface{}, error) {
+func (p *parser) callonDocumentFragment381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment373()
+	return p.cur.onDocumentFragment381()
 }
 
-func (c *current) onDocumentFragment361(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment369(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment361() (interface{}, error) {
+func (p *parser) callonDocumentFragment369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment361(stack["delimiter"])
+	return p.cur.onDocumentFragment369(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment380(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment388(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment380() (bool, error) {
+func (p *parser) callonDocumentFragment388() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment380(stack["end"])
+	return p.cur.onDocumentFragment388(stack["end"])
 }
 
-func (c *current) onDocumentFragment389() (interface{}, error) {
+func (c *current) onDocumentFragment397() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment389() (interface{}, error) {
+func (p *parser) callonDocumentFragment397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment389()
+	return p.cur.onDocumentFragment397()
 }
 
-func (c *current) onDocumentFragment393() (interface{}, error) {
+func (c *current) onDocumentFragment401() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment393() (interface{}, error) {
+func (p *parser) callonDocumentFragment401() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment393()
+	return p.cur.onDocumentFragment401()
 }
 
-func (c *current) onDocumentFragment384(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment392(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment384() (interface{}, error) {
+func (p *parser) callonDocumentFragment392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment384(stack["content"])
+	return p.cur.onDocumentFragment392(stack["content"])
 }
 
-func (c *current) onDocumentFragment355(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment363(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment355() (interface{}, error) {
+func (p *parser) callonDocumentFragment363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment355(stack["line"])
+	return p.cur.onDocumentFragment363(stack["line"])
 }
 
-func (c *current) onDocumentFragment408() (interface{}, error) {
+func (c *current) onDocumentFragment416() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment408() (interface{}, error) {
+func (p *parser) callonDocumentFragment416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment408()
+	return p.cur.onDocumentFragment416()
 }
 
-func (c *current) onDocumentFragment414() (interface{}, error) {
+func (c *current) onDocumentFragment422() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment414() (interface{}, error) {
+func (p *parser) callonDocumentFragment422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment414()
+	return p.cur.onDocumentFragment422()
 }
 
-func (c *current) onDocumentFragment417() (interface{}, error) {
+func (c *current) onDocumentFragment425() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment417() (interface{}, error) {
+func (p *parser) callonDocumentFragment425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment417()
+	return p.cur.onDocumentFragment425()
 }
 
-func (c *current) onDocumentFragment405(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment413(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment405() (interface{}, error) {
+func (p *parser) callonDocumentFragment413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment405(stack["delimiter"])
+	return p.cur.onDocumentFragment413(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment424(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment432(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment424() (bool, error) {
+func (p *parser) callonDocumentFragment432() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment424(stack["end"])
+	return p.cur.onDocumentFragment432(stack["end"])
 }
 
-func (c *current) onDocumentFragment330(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment338(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment330() (interface{}, error) {
+func (p *parser) callonDocumentFragment338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment330(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment338(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment433() (interface{}, error) {
+func (c *current) onDocumentFragment441() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment433() (interface{}, error) {
+func (p *parser) callonDocumentFragment441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment433()
+	return p.cur.onDocumentFragment441()
 }
 
-func (c *current) onDocumentFragment439() (interface{}, error) {
+func (c *current) onDocumentFragment447() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment439() (interface{}, error) {
+func (p *parser) callonDocumentFragment447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment439()
+	return p.cur.onDocumentFragment447()
 }
 
-func (c *current) onDocumentFragment442() (interface{}, error) {
+func (c *current) onDocumentFragment450() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment442() (interface{}, error) {
+func (p *parser) callonDocumentFragment450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment442()
+	return p.cur.onDocumentFragment450()
 }
 
-func (c *current) onDocumentFragment430(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment438(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment430() (interface{}, error) {
+func (p *parser) callonDocumentFragment438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment430(stack["delimiter"])
+	return p.cur.onDocumentFragment438(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment449(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment457(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment449() (bool, error) {
+func (p *parser) callonDocumentFragment457() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment449(stack["start"])
+	return p.cur.onDocumentFragment457(stack["start"])
 }
 
-func (c *current) onDocumentFragment461() (interface{}, error) {
+func (c *current) onDocumentFragment469() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment461() (interface{}, error) {
+func (p *parser) callonDocumentFragment469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment461()
+	return p.cur.onDocumentFragment469()
 }
 
-func (c *current) onDocumentFragment467() (interface{}, error) {
+func (c *current) onDocumentFragment475() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment467() (interface{}, error) {
+func (p *parser) callonDocumentFragment475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment467()
+	return p.cur.onDocumentFragment475()
 }
 
-func (c *current) onDocumentFragment470() (interface{}, error) {
+func (c *current) onDocumentFragment478() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment470() (interface{}, error) {
+func (p *parser) callonDocumentFragment478() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment470()
+	return p.cur.onDocumentFragment478()
 }
 
-func (c *current) onDocumentFragment458(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment466(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment458() (interface{}, error) {
+func (p *parser) callonDocumentFragment466() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment458(stack["delimiter"])
+	return p.cur.onDocumentFragment466(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment477(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment485(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment477() (bool, error) {
+func (p *parser) callonDocumentFragment485() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment477(stack["end"])
+	return p.cur.onDocumentFragment485(stack["end"])
 }
 
-func (c *current) onDocumentFragment486() (interface{}, error) {
+func (c *current) onDocumentFragment494() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment486() (interface{}, error) {
+func (p *parser) callonDocumentFragment494() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment486()
+	return p.cur.onDocumentFragment494()
 }
 
-func (c *current) onDocumentFragment490() (interface{}, error) {
+func (c *current) onDocumentFragment498() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment490() (interface{}, error) {
+func (p *parser) callonDocumentFragment498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment490()
+	return p.cur.onDocumentFragment498()
 }
 
-func (c *current) onDocumentFragment481(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment489(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment481() (interface{}, error) {
+func (p *parser) callonDocumentFragment489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment481(stack["content"])
+	return p.cur.onDocumentFragment489(stack["content"])
 }
 
-func (c *current) onDocumentFragment452(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment460(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment452() (interface{}, error) {
+func (p *parser) callonDocumentFragment460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment452(stack["line"])
+	return p.cur.onDocumentFragment460(stack["line"])
 }
 
-func (c *current) onDocumentFragment505() (interface{}, error) {
+func (c *current) onDocumentFragment513() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment505() (interface{}, error) {
+func (p *parser) callonDocumentFragment513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment505()
+	return p.cur.onDocumentFragment513()
 }
 
-func (c *current) onDocumentFragment511() (interface{}, error) {
+func (c *current) onDocumentFragment519() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment511() (interface{}, error) {
+func (p *parser) callonDocumentFragment519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment511()
+	return p.cur.onDocumentFragment519()
 }
 
-func (c *current) onDocumentFragment514() (interface{}, error) {
+func (c *current) onDocumentFragment522() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment514() (interface{}, error) {
+func (p *parser) callonDocumentFragment522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment514()
+	return p.cur.onDocumentFragment522()
 }
 
-func (c *current) onDocumentFragment502(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment510(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment502() (interface{}, error) {
+func (p *parser) callonDocumentFragment510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment502(stack["delimiter"])
+	return p.cur.onDocumentFragment510(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment521(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment529(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment521() (bool, error) {
+func (p *parser) callonDocumentFragment529() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment521(stack["end"])
+	return p.cur.onDocumentFragment529(stack["end"])
 }
 
-func (c *current) onDocumentFragment427(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment435(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment427() (interface{}, error) {
+func (p *parser) callonDocumentFragment435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment427(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment435(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment530() (interface{}, error) {
+func (c *current) onDocumentFragment538() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment530() (interface{}, error) {
+func (p *parser) callonDocumentFragment538() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment530()
+	return p.cur.onDocumentFragment538()
 }
 
-func (c *current) onDocumentFragment536() (interface{}, error) {
+func (c *current) onDocumentFragment544() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment536() (interface{}, error) {
+func (p *parser) callonDocumentFragment544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment536()
+	return p.cur.onDocumentFragment544()
 }
 
-func (c *current) onDocumentFragment539() (interface{}, error) {
+func (c *current) onDocumentFragment547() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment539() (interface{}, error) {
+func (p *parser) callonDocumentFragment547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment539()
+	return p.cur.onDocumentFragment547()
 }
 
-func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment535(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment527() (interface{}, error) {
+func (p *parser) callonDocumentFragment535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment527(stack["delimiter"])
+	return p.cur.onDocumentFragment535(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment546(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment554(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment546() (bool, error) {
+func (p *parser) callonDocumentFragment554() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment546(stack["start"])
+	return p.cur.onDocumentFragment554(stack["start"])
 }
 
-func (c *current) onDocumentFragment558() (interface{}, error) {
+func (c *current) onDocumentFragment566() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment558() (interface{}, error) {
+func (p *parser) callonDocumentFragment566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment558()
+	return p.cur.onDocumentFragment566()
 }
 
-func (c *current) onDocumentFragment564() (interface{}, error) {
+func (c *current) onDocumentFragment572() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment564() (interface{}, error) {
+func (p *parser) callonDocumentFragment572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment564()
+	return p.cur.onDocumentFragment572()
 }
 
-func (c *current) onDocumentFragment567() (interface{}, error) {
+func (c *current) onDocumentFragment575() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment567() (interface{}, error) {
+func (p *parser) callonDocumentFragment575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment567()
+	return p.cur.onDocumentFragment575()
 }
 
-func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment563(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment555() (interface{}, error) {
+func (p *parser) callonDocumentFragment563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment555(stack["delimiter"])
+	return p.cur.onDocumentFragment563(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment574(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment582(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment574() (bool, error) {
+func (p *parser) callonDocumentFragment582() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment574(stack["end"])
+	return p.cur.onDocumentFragment582(stack["end"])
 }
 
-func (c *current) onDocumentFragment583() (interface{}, error) {
+func (c *current) onDocumentFragment591() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment583() (interface{}, error) {
+func (p *parser) callonDocumentFragment591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment583()
+	return p.cur.onDocumentFragment591()
 }
 
-func (c *current) onDocumentFragment587() (interface{}, error) {
+func (c *current) onDocumentFragment595() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment587() (interface{}, error) {
+func (p *parser) callonDocumentFragment595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment587()
+	return p.cur.onDocumentFragment595()
 }
 
-func (c *current) onDocumentFragment578(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment586(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment578() (interface{}, error) {
+func (p *parser) callonDocumentFragment586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment578(stack["content"])
+	return p.cur.onDocumentFragment586(stack["content"])
 }
 
-func (c *current) onDocumentFragment549(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment557(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment549() (interface{}, error) {
+func (p *parser) callonDocumentFragment557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment549(stack["line"])
+	return p.cur.onDocumentFragment557(stack["line"])
 }
 
-func (c *current) onDocumentFragment602() (interface{}, error) {
+func (c *current) onDocumentFragment610() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment602() (interface{}, error) {
+func (p *parser) callonDocumentFragment610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment602()
+	return p.cur.onDocumentFragment610()
 }
 
-func (c *current) onDocumentFragment608() (interface{}, error) {
+func (c *current) onDocumentFragment616() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment608() (interface{}, error) {
+func (p *parser) callonDocumentFragment616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment608()
+	return p.cur.onDocumentFragment616()
 }
 
-func (c *current) onDocumentFragment611() (interface{}, error) {
+func (c *current) onDocumentFragment619() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment611() (interface{}, error) {
+func (p *parser) callonDocumentFragment619() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment611()
+	return p.cur.onDocumentFragment619()
 }
 
-func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment607(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment599() (interface{}, error) {
+func (p *parser) callonDocumentFragment607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment599(stack["delimiter"])
+	return p.cur.onDocumentFragment607(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment618(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment626(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment618() (bool, error) {
+func (p *parser) callonDocumentFragment626() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment618(stack["end"])
+	return p.cur.onDocumentFragment626(stack["end"])
 }
 
-func (c *current) onDocumentFragment524(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment532(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment524() (interface{}, error) {
+func (p *parser) callonDocumentFragment532() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment524(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment532(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment632() (interface{}, error) {
+func (c *current) onDocumentFragment640() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment632() (interface{}, error) {
+func (p *parser) callonDocumentFragment640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment632()
+	return p.cur.onDocumentFragment640()
 }
 
-func (c *current) onDocumentFragment635() (interface{}, error) {
+func (c *current) onDocumentFragment643() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment635() (interface{}, error) {
+func (p *parser) callonDocumentFragment643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment635()
+	return p.cur.onDocumentFragment643()
 }
 
-func (c *current) onDocumentFragment627() (interface{}, error) {
+func (c *current) onDocumentFragment635() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment627() (interface{}, error) {
+func (p *parser) callonDocumentFragment635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment627()
+	return p.cur.onDocumentFragment635()
 }
 
-func (c *current) onDocumentFragment644() (interface{}, error) {
+func (c *current) onDocumentFragment652() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment644() (interface{}, error) {
+func (p *parser) callonDocumentFragment652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment644()
+	return p.cur.onDocumentFragment652()
 }
 
-func (c *current) onDocumentFragment648() (interface{}, error) {
+func (c *current) onDocumentFragment656() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment648() (interface{}, error) {
+func (p *parser) callonDocumentFragment656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment648()
+	return p.cur.onDocumentFragment656()
 }
 
-func (c *current) onDocumentFragment624(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment632(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment624() (interface{}, error) {
+func (p *parser) callonDocumentFragment632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment624(stack["content"])
+	return p.cur.onDocumentFragment632(stack["content"])
 }
 
-func (c *current) onDocumentFragment666() (interface{}, error) {
+func (c *current) onDocumentFragment674() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment666() (interface{}, error) {
+func (p *parser) callonDocumentFragment674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment666()
+	return p.cur.onDocumentFragment674()
 }
 
-func (c *current) onDocumentFragment669() (interface{}, error) {
+func (c *current) onDocumentFragment677() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment669() (interface{}, error) {
+func (p *parser) callonDocumentFragment677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment669()
+	return p.cur.onDocumentFragment677()
 }
 
-func (c *current) onDocumentFragment661() (interface{}, error) {
+func (c *current) onDocumentFragment669() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment661() (interface{}, error) {
+func (p *parser) callonDocumentFragment669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment661()
+	return p.cur.onDocumentFragment669()
 }
 
-func (c *current) onDocumentFragment678() (interface{}, error) {
+func (c *current) onDocumentFragment686() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment678() (interface{}, error) {
+func (p *parser) callonDocumentFragment686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment678()
+	return p.cur.onDocumentFragment686()
 }
 
-func (c *current) onDocumentFragment682() (interface{}, error) {
+func (c *current) onDocumentFragment690() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment682() (interface{}, error) {
+func (p *parser) callonDocumentFragment690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment682()
+	return p.cur.onDocumentFragment690()
 }
 
-func (c *current) onDocumentFragment658(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment666(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment658() (interface{}, error) {
+func (p *parser) callonDocumentFragment666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment658(stack["content"])
+	return p.cur.onDocumentFragment666(stack["content"])
 }
 
-func (c *current) onDocumentFragment692() (interface{}, error) {
+func (c *current) onDocumentFragment700() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment692() (interface{}, error) {
+func (p *parser) callonDocumentFragment700() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment692()
+	return p.cur.onDocumentFragment700()
 }
 
-func (c *current) onDocumentFragment695(content interface{}) (bool, error) {
+func (c *current) onDocumentFragment703(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonDocumentFragment695() (bool, error) {
+func (p *parser) callonDocumentFragment703() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment695(stack["content"])
+	return p.cur.onDocumentFragment703(stack["content"])
 }
 
-func (c *current) onDocumentFragment697() (interface{}, error) {
+func (c *current) onDocumentFragment705() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment697() (interface{}, error) {
+func (p *parser) callonDocumentFragment705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment697()
+	return p.cur.onDocumentFragment705()
 }
 
-func (c *current) onDocumentFragment689(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment697(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment689() (interface{}, error) {
+func (p *parser) callonDocumentFragment697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment689(stack["content"])
+	return p.cur.onDocumentFragment697(stack["content"])
 }
 
-func (c *current) onDocumentFragment621(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment629(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonDocumentFragment621() (interface{}, error) {
+func (p *parser) callonDocumentFragment629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment621(stack["firstLine"], stack["otherLines"])
+	return p.cur.onDocumentFragment629(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onDocumentFragment710() (interface{}, error) {
+func (c *current) onDocumentFragment718() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment710() (interface{}, error) {
+func (p *parser) callonDocumentFragment718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment710()
+	return p.cur.onDocumentFragment718()
 }
 
-func (c *current) onDocumentFragment713() (interface{}, error) {
+func (c *current) onDocumentFragment721() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment713() (interface{}, error) {
+func (p *parser) callonDocumentFragment721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment713()
+	return p.cur.onDocumentFragment721()
 }
 
-func (c *current) onDocumentFragment716() (interface{}, error) {
+func (c *current) onDocumentFragment724() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment716() (interface{}, error) {
+func (p *parser) callonDocumentFragment724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment716()
+	return p.cur.onDocumentFragment724()
 }
 
-func (c *current) onDocumentFragment707(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment715(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment707() (interface{}, error) {
+func (p *parser) callonDocumentFragment715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment707(stack["delimiter"])
+	return p.cur.onDocumentFragment715(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment732() (interface{}, error) {
+func (c *current) onDocumentFragment740() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment732() (interface{}, error) {
+func (p *parser) callonDocumentFragment740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment732()
+	return p.cur.onDocumentFragment740()
 }
 
-func (c *current) onDocumentFragment735() (interface{}, error) {
+func (c *current) onDocumentFragment743() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment735() (interface{}, error) {
+func (p *parser) callonDocumentFragment743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment735()
+	return p.cur.onDocumentFragment743()
 }
 
-func (c *current) onDocumentFragment738() (interface{}, error) {
+func (c *current) onDocumentFragment746() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment738() (interface{}, error) {
+func (p *parser) callonDocumentFragment746() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment738()
+	return p.cur.onDocumentFragment746()
 }
 
-func (c *current) onDocumentFragment729(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment737(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment729() (interface{}, error) {
+func (p *parser) callonDocumentFragment737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment729(stack["delimiter"])
+	return p.cur.onDocumentFragment737(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment753() (interface{}, error) {
+func (c *current) onDocumentFragment761() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment753() (interface{}, error) {
+func (p *parser) callonDocumentFragment761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment753()
+	return p.cur.onDocumentFragment761()
 }
 
-func (c *current) onDocumentFragment757() (interface{}, error) {
+func (c *current) onDocumentFragment765() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment757() (interface{}, error) {
+func (p *parser) callonDocumentFragment765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment757()
+	return p.cur.onDocumentFragment765()
 }
 
-func (c *current) onDocumentFragment748(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment756(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment748() (interface{}, error) {
+func (p *parser) callonDocumentFragment756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment748(stack["content"])
+	return p.cur.onDocumentFragment756(stack["content"])
 }
 
-func (c *current) onDocumentFragment725(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment733(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment725() (interface{}, error) {
+func (p *parser) callonDocumentFragment733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment725(stack["line"])
+	return p.cur.onDocumentFragment733(stack["line"])
 }
 
-func (c *current) onDocumentFragment770() (interface{}, error) {
+func (c *current) onDocumentFragment778() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment770() (interface{}, error) {
+func (p *parser) callonDocumentFragment778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment770()
+	return p.cur.onDocumentFragment778()
 }
 
-func (c *current) onDocumentFragment773() (interface{}, error) {
+func (c *current) onDocumentFragment781() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment773() (interface{}, error) {
+func (p *parser) callonDocumentFragment781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment773()
+	return p.cur.onDocumentFragment781()
 }
 
-func (c *current) onDocumentFragment776() (interface{}, error) {
+func (c *current) onDocumentFragment784() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment776() (interface{}, error) {
+func (p *parser) callonDocumentFragment784() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment776()
+	return p.cur.onDocumentFragment784()
 }
 
-func (c *current) onDocumentFragment767(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment775(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment767() (interface{}, error) {
+func (p *parser) callonDocumentFragment775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment767(stack["delimiter"])
+	return p.cur.onDocumentFragment775(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment704(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment712(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment704() (interface{}, error) {
+func (p *parser) callonDocumentFragment712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment704(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment712(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment791() (interface{}, error) {
+func (c *current) onDocumentFragment799() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment791() (interface{}, error) {
+func (p *parser) callonDocumentFragment799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment791()
+	return p.cur.onDocumentFragment799()
 }
 
-func (c *current) onDocumentFragment797() (interface{}, error) {
+func (c *current) onDocumentFragment805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment797() (interface{}, error) {
+func (p *parser) callonDocumentFragment805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment797()
+	return p.cur.onDocumentFragment805()
 }
 
-func (c *current) onDocumentFragment800() (interface{}, error) {
+func (c *current) onDocumentFragment808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment800() (interface{}, error) {
+func (p *parser) callonDocumentFragment808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment800()
+	return p.cur.onDocumentFragment808()
 }
 
-func (c *current) onDocumentFragment788(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment788() (interface{}, error) {
+func (p *parser) callonDocumentFragment796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment788(stack["delimiter"])
+	return p.cur.onDocumentFragment796(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment807(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment815(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment807() (bool, error) {
+func (p *parser) callonDocumentFragment815() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment807(stack["start"])
+	return p.cur.onDocumentFragment815(stack["start"])
 }
 
-func (c *current) onDocumentFragment819() (interface{}, error) {
+func (c *current) onDocumentFragment827() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment819() (interface{}, error) {
+func (p *parser) callonDocumentFragment827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment819()
+	return p.cur.onDocumentFragment827()
 }
 
-func (c *current) onDocumentFragment825() (interface{}, error) {
+func (c *current) onDocumentFragment833() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment825() (interface{}, error) {
+func (p *parser) callonDocumentFragment833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment825()
+	return p.cur.onDocumentFragment833()
 }
 
-func (c *current) onDocumentFragment828() (interface{}, error) {
+func (c *current) onDocumentFragment836() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment828() (interface{}, error) {
+func (p *parser) callonDocumentFragment836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment828()
+	return p.cur.onDocumentFragment836()
 }
 
-func (c *current) onDocumentFragment816(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment824(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment816() (interface{}, error) {
+func (p *parser) callonDocumentFragment824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment816(stack["delimiter"])
+	return p.cur.onDocumentFragment824(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment835(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment843(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment835() (bool, error) {
+func (p *parser) callonDocumentFragment843() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment835(stack["end"])
+	return p.cur.onDocumentFragment843(stack["end"])
 }
 
-func (c *current) onDocumentFragment844() (interface{}, error) {
+func (c *current) onDocumentFragment852() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment844() (interface{}, error) {
+func (p *parser) callonDocumentFragment852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment844()
+	return p.cur.onDocumentFragment852()
 }
 
-func (c *current) onDocumentFragment848() (interface{}, error) {
+func (c *current) onDocumentFragment856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment848() (interface{}, error) {
+func (p *parser) callonDocumentFragment856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment848()
+	return p.cur.onDocumentFragment856()
 }
 
-func (c *current) onDocumentFragment839(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment847(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment839() (interface{}, error) {
+func (p *parser) callonDocumentFragment847() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment839(stack["content"])
+	return p.cur.onDocumentFragment847(stack["content"])
 }
 
-func (c *current) onDocumentFragment810(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment818(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment810() (interface{}, error) {
+func (p *parser) callonDocumentFragment818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment810(stack["line"])
+	return p.cur.onDocumentFragment818(stack["line"])
 }
 
-func (c *current) onDocumentFragment863() (interface{}, error) {
+func (c *current) onDocumentFragment871() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment863() (interface{}, error) {
+func (p *parser) callonDocumentFragment871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment863()
+	return p.cur.onDocumentFragment871()
 }
 
-func (c *current) onDocumentFragment869() (interface{}, error) {
+func (c *current) onDocumentFragment877() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment869() (interface{}, error) {
+func (p *parser) callonDocumentFragment877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment869()
+	return p.cur.onDocumentFragment877()
 }
 
-func (c *current) onDocumentFragment872() (interface{}, error) {
+func (c *current) onDocumentFragment880() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment872() (interface{}, error) {
+func (p *parser) callonDocumentFragment880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment872()
+	return p.cur.onDocumentFragment880()
 }
 
-func (c *current) onDocumentFragment860(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment868(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment860() (interface{}, error) {
+func (p *parser) callonDocumentFragment868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment860(stack["delimiter"])
+	return p.cur.onDocumentFragment868(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment879(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment887(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment879() (bool, error) {
+func (p *parser) callonDocumentFragment887() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment879(stack["end"])
+	return p.cur.onDocumentFragment887(stack["end"])
 }
 
-func (c *current) onDocumentFragment785(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment793(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment785() (interface{}, error) {
+func (p *parser) callonDocumentFragment793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment785(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment793(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment888() (interface{}, error) {
+func (c *current) onDocumentFragment896() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment888() (interface{}, error) {
+func (p *parser) callonDocumentFragment896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment888()
+	return p.cur.onDocumentFragment896()
 }
 
-func (c *current) onDocumentFragment894() (interface{}, error) {
+func (c *current) onDocumentFragment902() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment894() (interface{}, error) {
+func (p *parser) callonDocumentFragment902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment894()
+	return p.cur.onDocumentFragment902()
 }
 
-func (c *current) onDocumentFragment897() (interface{}, error) {
+func (c *current) onDocumentFragment905() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment897() (interface{}, error) {
+func (p *parser) callonDocumentFragment905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment897()
+	return p.cur.onDocumentFragment905()
 }
 
-func (c *current) onDocumentFragment885(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment893(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment885() (interface{}, error) {
+func (p *parser) callonDocumentFragment893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment885(stack["delimiter"])
+	return p.cur.onDocumentFragment893(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment904(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment912(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment904() (bool, error) {
+func (p *parser) callonDocumentFragment912() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment904(stack["start"])
+	return p.cur.onDocumentFragment912(stack["start"])
 }
 
-func (c *current) onDocumentFragment916() (interface{}, error) {
+func (c *current) onDocumentFragment924() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment916() (interface{}, error) {
+func (p *parser) callonDocumentFragment924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment916()
+	return p.cur.onDocumentFragment924()
 }
 
-func (c *current) onDocumentFragment922() (interface{}, error) {
+func (c *current) onDocumentFragment930() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment922() (interface{}, error) {
+func (p *parser) callonDocumentFragment930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment922()
+	return p.cur.onDocumentFragment930()
 }
 
-func (c *current) onDocumentFragment925() (interface{}, error) {
+func (c *current) onDocumentFragment933() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment925() (interface{}, error) {
+func (p *parser) callonDocumentFragment933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment925()
+	return p.cur.onDocumentFragment933()
 }
 
-func (c *current) onDocumentFragment913(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment921(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment913() (interface{}, error) {
+func (p *parser) callonDocumentFragment921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment913(stack["delimiter"])
+	return p.cur.onDocumentFragment921(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment932(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment940(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment932() (bool, error) {
+func (p *parser) callonDocumentFragment940() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment932(stack["end"])
+	return p.cur.onDocumentFragment940(stack["end"])
 }
 
-func (c *current) onDocumentFragment941() (interface{}, error) {
+func (c *current) onDocumentFragment949() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment941() (interface{}, error) {
+func (p *parser) callonDocumentFragment949() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment941()
+	return p.cur.onDocumentFragment949()
 }
 
-func (c *current) onDocumentFragment945() (interface{}, error) {
+func (c *current) onDocumentFragment953() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment945() (interface{}, error) {
+func (p *parser) callonDocumentFragment953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment945()
+	return p.cur.onDocumentFragment953()
 }
 
-func (c *current) onDocumentFragment936(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment944(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment936() (interface{}, error) {
+func (p *parser) callonDocumentFragment944() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment936(stack["content"])
+	return p.cur.onDocumentFragment944(stack["content"])
 }
 
-func (c *current) onDocumentFragment907(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment915(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment907() (interface{}, error) {
+func (p *parser) callonDocumentFragment915() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment907(stack["line"])
+	return p.cur.onDocumentFragment915(stack["line"])
 }
 
-func (c *current) onDocumentFragment960() (interface{}, error) {
+func (c *current) onDocumentFragment968() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment960() (interface{}, error) {
+func (p *parser) callonDocumentFragment968() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment960()
+	return p.cur.onDocumentFragment968()
 }
 
-func (c *current) onDocumentFragment966() (interface{}, error) {
+func (c *current) onDocumentFragment974() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment966() (interface{}, error) {
+func (p *parser) callonDocumentFragment974() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment966()
+	return p.cur.onDocumentFragment974()
 }
 
-func (c *current) onDocumentFragment969() (interface{}, error) {
+func (c *current) onDocumentFragment977() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment969() (interface{}, error) {
+func (p *parser) callonDocumentFragment977() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment969()
+	return p.cur.onDocumentFragment977()
 }
 
-func (c *current) onDocumentFragment957(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment965(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment957() (interface{}, error) {
+func (p *parser) callonDocumentFragment965() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment957(stack["delimiter"])
+	return p.cur.onDocumentFragment965(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment976(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment984(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment976() (bool, error) {
+func (p *parser) callonDocumentFragment984() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment976(stack["end"])
+	return p.cur.onDocumentFragment984(stack["end"])
 }
 
-func (c *current) onDocumentFragment882(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment890(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment882() (interface{}, error) {
+func (p *parser) callonDocumentFragment890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment882(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment890(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment985() (interface{}, error) {
+func (c *current) onDocumentFragment993() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment985() (interface{}, error) {
+func (p *parser) callonDocumentFragment993() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment985()
+	return p.cur.onDocumentFragment993()
 }
 
-func (c *current) onDocumentFragment991() (interface{}, error) {
+func (c *current) onDocumentFragment999() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment991() (interface{}, error) {
+func (p *parser) callonDocumentFragment999() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment991()
+	return p.cur.onDocumentFragment999()
 }
 
-func (c *current) onDocumentFragment994() (interface{}, error) {
+func (c *current) onDocumentFragment1002() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment994() (interface{}, error) {
+func (p *parser) callonDocumentFragment1002() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment994()
+	return p.cur.onDocumentFragment1002()
 }
 
-func (c *current) onDocumentFragment982(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment990(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment982() (interface{}, error) {
+func (p *parser) callonDocumentFragment990() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment982(stack["delimiter"])
+	return p.cur.onDocumentFragment990(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1001(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment1009(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1001() (bool, error) {
+func (p *parser) callonDocumentFragment1009() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1001(stack["start"])
+	return p.cur.onDocumentFragment1009(stack["start"])
 }
 
-func (c *current) onDocumentFragment1013() (interface{}, error) {
+func (c *current) onDocumentFragment1021() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1013() (interface{}, error) {
+func (p *parser) callonDocumentFragment1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1013()
+	return p.cur.onDocumentFragment1021()
 }
 
-func (c *current) onDocumentFragment1019() (interface{}, error) {
+func (c *current) onDocumentFragment1027() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1019() (interface{}, error) {
+func (p *parser) callonDocumentFragment1027() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1019()
+	return p.cur.onDocumentFragment1027()
 }
 
-func (c *current) onDocumentFragment1022() (interface{}, error) {
+func (c *current) onDocumentFragment1030() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1022() (interface{}, error) {
+func (p *parser) callonDocumentFragment1030() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1022()
+	return p.cur.onDocumentFragment1030()
 }
 
-func (c *current) onDocumentFragment1010(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1018(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1010() (interface{}, error) {
+func (p *parser) callonDocumentFragment1018() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1010(stack["delimiter"])
+	return p.cur.onDocumentFragment1018(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1029(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1037(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1029() (bool, error) {
+func (p *parser) callonDocumentFragment1037() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1029(stack["end"])
+	return p.cur.onDocumentFragment1037(stack["end"])
 }
 
-func (c *current) onDocumentFragment1038() (interface{}, error) {
+func (c *current) onDocumentFragment1046() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1038() (interface{}, error) {
+func (p *parser) callonDocumentFragment1046() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1038()
+	return p.cur.onDocumentFragment1046()
 }
 
-func (c *current) onDocumentFragment1042() (interface{}, error) {
+func (c *current) onDocumentFragment1050() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1042() (interface{}, error) {
+func (p *parser) callonDocumentFragment1050() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1042()
+	return p.cur.onDocumentFragment1050()
 }
 
-func (c *current) onDocumentFragment1033(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1041(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1033() (interface{}, error) {
+func (p *parser) callonDocumentFragment1041() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1033(stack["content"])
+	return p.cur.onDocumentFragment1041(stack["content"])
 }
 
-func (c *current) onDocumentFragment1004(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1012(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment1004() (interface{}, error) {
+func (p *parser) callonDocumentFragment1012() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1004(stack["line"])
+	return p.cur.onDocumentFragment1012(stack["line"])
 }
 
-func (c *current) onDocumentFragment1057() (interface{}, error) {
+func (c *current) onDocumentFragment1065() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1057() (interface{}, error) {
+func (p *parser) callonDocumentFragment1065() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1057()
+	return p.cur.onDocumentFragment1065()
 }
 
-func (c *current) onDocumentFragment1063() (interface{}, error) {
+func (c *current) onDocumentFragment1071() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1063() (interface{}, error) {
+func (p *parser) callonDocumentFragment1071() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1063()
+	return p.cur.onDocumentFragment1071()
 }
 
-func (c *current) onDocumentFragment1066() (interface{}, error) {
+func (c *current) onDocumentFragment1074() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1066() (interface{}, error) {
+func (p *parser) callonDocumentFragment1074() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1066()
+	return p.cur.onDocumentFragment1074()
 }
 
-func (c *current) onDocumentFragment1054(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1062(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1054() (interface{}, error) {
+func (p *parser) callonDocumentFragment1062() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1054(stack["delimiter"])
+	return p.cur.onDocumentFragment1062(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1073(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1081(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1073() (bool, error) {
+func (p *parser) callonDocumentFragment1081() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1073(stack["end"])
+	return p.cur.onDocumentFragment1081(stack["end"])
 }
 
-func (c *current) onDocumentFragment979(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment987(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment979() (interface{}, error) {
+func (p *parser) callonDocumentFragment987() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment979(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment987(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment1081() (interface{}, error) {
+func (c *current) onDocumentFragment1089() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1081() (interface{}, error) {
+func (p *parser) callonDocumentFragment1089() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1081()
+	return p.cur.onDocumentFragment1089()
 }
 
-func (c *current) onDocumentFragment1084() (interface{}, error) {
+func (c *current) onDocumentFragment1092() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1084() (interface{}, error) {
+func (p *parser) callonDocumentFragment1092() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1084()
+	return p.cur.onDocumentFragment1092()
 }
 
-func (c *current) onDocumentFragment1100() (interface{}, error) {
+func (c *current) onDocumentFragment1108() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1100() (interface{}, error) {
+func (p *parser) callonDocumentFragment1108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1100()
+	return p.cur.onDocumentFragment1108()
 }
 
-func (c *current) onDocumentFragment1103() (interface{}, error) {
+func (c *current) onDocumentFragment1111() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1103() (interface{}, error) {
+func (p *parser) callonDocumentFragment1111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1103()
+	return p.cur.onDocumentFragment1111()
 }
 
-func (c *current) onDocumentFragment1112() (interface{}, error) {
+func (c *current) onDocumentFragment1120() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1112() (interface{}, error) {
+func (p *parser) callonDocumentFragment1120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1112()
+	return p.cur.onDocumentFragment1120()
 }
 
-func (c *current) onDocumentFragment1076() (interface{}, error) {
+func (c *current) onDocumentFragment1084() (interface{}, error) {
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonDocumentFragment1076() (interface{}, error) {
+func (p *parser) callonDocumentFragment1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1076()
+	return p.cur.onDocumentFragment1084()
 }
 
-func (c *current) onDocumentFragment1124() (interface{}, error) {
+func (c *current) onDocumentFragment1132() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1124() (interface{}, error) {
+func (p *parser) callonDocumentFragment1132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1124()
+	return p.cur.onDocumentFragment1132()
 }
 
-func (c *current) onDocumentFragment1127() (interface{}, error) {
+func (c *current) onDocumentFragment1135() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1127() (interface{}, error) {
+func (p *parser) callonDocumentFragment1135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1127()
+	return p.cur.onDocumentFragment1135()
 }
 
-func (c *current) onDocumentFragment1142() (interface{}, error) {
+func (c *current) onDocumentFragment1150() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1142() (interface{}, error) {
+func (p *parser) callonDocumentFragment1150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1142()
+	return p.cur.onDocumentFragment1150()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1153() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1153()
 }
 
-func (c *current) onDocumentFragment1137() (interface{}, error) {
+func (c *current) onDocumentFragment1145() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1137() (interface{}, error) {
+func (p *parser) callonDocumentFragment1145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1137()
+	return p.cur.onDocumentFragment1145()
 }
 
-func (c *current) onDocumentFragment1159() (interface{}, error) {
+func (c *current) onDocumentFragment1167() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159()
+	return p.cur.onDocumentFragment1167()
 }
 
-func (c *current) onDocumentFragment1162() (interface{}, error) {
+func (c *current) onDocumentFragment1170() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162()
+	return p.cur.onDocumentFragment1170()
 }
 
-func (c *current) onDocumentFragment1184() (interface{}, error) {
+func (c *current) onDocumentFragment1192() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1184() (interface{}, error) {
+func (p *parser) callonDocumentFragment1192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1184()
+	return p.cur.onDocumentFragment1192()
 }
 
-func (c *current) onDocumentFragment1189() (interface{}, error) {
+func (c *current) onDocumentFragment1197() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189()
+	return p.cur.onDocumentFragment1197()
 }
 
-func (c *current) onDocumentFragment1187(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1195(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1187() (interface{}, error) {
+func (p *parser) callonDocumentFragment1195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1187(stack["content"])
+	return p.cur.onDocumentFragment1195(stack["content"])
 }
 
-func (c *current) onDocumentFragment1180(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1188(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1180() (interface{}, error) {
+func (p *parser) callonDocumentFragment1188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1180(stack["content"])
+	return p.cur.onDocumentFragment1188(stack["content"])
 }
 
-func (c *current) onDocumentFragment1193() (interface{}, error) {
+func (c *current) onDocumentFragment1201() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1193() (interface{}, error) {
+func (p *parser) callonDocumentFragment1201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1193()
+	return p.cur.onDocumentFragment1201()
 }
 
-func (c *current) onDocumentFragment1176(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1184(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1176() (interface{}, error) {
+func (p *parser) callonDocumentFragment1184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1176(stack["cells"])
+	return p.cur.onDocumentFragment1184(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1210() (interface{}, error) {
+func (c *current) onDocumentFragment1218() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1210() (interface{}, error) {
+func (p *parser) callonDocumentFragment1218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1210()
+	return p.cur.onDocumentFragment1218()
 }
 
-func (c *current) onDocumentFragment1213() (interface{}, error) {
+func (c *current) onDocumentFragment1221() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1213() (interface{}, error) {
+func (p *parser) callonDocumentFragment1221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1213()
+	return p.cur.onDocumentFragment1221()
 }
 
-func (c *current) onDocumentFragment1228() (interface{}, error) {
+func (c *current) onDocumentFragment1236() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1228() (interface{}, error) {
+func (p *parser) callonDocumentFragment1236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1228()
+	return p.cur.onDocumentFragment1236()
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1239() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1239()
 }
 
-func (c *current) onDocumentFragment1223() (interface{}, error) {
+func (c *current) onDocumentFragment1231() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1223() (interface{}, error) {
+func (p *parser) callonDocumentFragment1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1223()
+	return p.cur.onDocumentFragment1231()
 }
 
-func (c *current) onDocumentFragment1240() (interface{}, error) {
+func (c *current) onDocumentFragment1248() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1240() (interface{}, error) {
+func (p *parser) callonDocumentFragment1248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1240()
+	return p.cur.onDocumentFragment1248()
 }
 
-func (c *current) onDocumentFragment1245() (interface{}, error) {
+func (c *current) onDocumentFragment1253() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1245() (interface{}, error) {
+func (p *parser) callonDocumentFragment1253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1245()
+	return p.cur.onDocumentFragment1253()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1256() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1256()
 }
 
-func (c *current) onDocumentFragment1262() (interface{}, error) {
+func (c *current) onDocumentFragment1270() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1262() (interface{}, error) {
+func (p *parser) callonDocumentFragment1270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1262()
+	return p.cur.onDocumentFragment1270()
 }
 
-func (c *current) onDocumentFragment1265() (interface{}, error) {
+func (c *current) onDocumentFragment1273() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1265() (interface{}, error) {
+func (p *parser) callonDocumentFragment1273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1265()
+	return p.cur.onDocumentFragment1273()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1288() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1288()
 }
 
-func (c *current) onDocumentFragment1283() (interface{}, error) {
+func (c *current) onDocumentFragment1291() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1283() (interface{}, error) {
+func (p *parser) callonDocumentFragment1291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1283()
+	return p.cur.onDocumentFragment1291()
 }
 
-func (c *current) onDocumentFragment1275() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1275() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1275()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1294() (interface{}, error) {
+func (c *current) onDocumentFragment1302() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1294() (interface{}, error) {
+func (p *parser) callonDocumentFragment1302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1294()
+	return p.cur.onDocumentFragment1302()
 }
 
-func (c *current) onDocumentFragment1299() (interface{}, error) {
+func (c *current) onDocumentFragment1307() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1299() (interface{}, error) {
+func (p *parser) callonDocumentFragment1307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1299()
+	return p.cur.onDocumentFragment1307()
 }
 
-func (c *current) onDocumentFragment1304() (interface{}, error) {
+func (c *current) onDocumentFragment1312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1304() (interface{}, error) {
+func (p *parser) callonDocumentFragment1312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1304()
+	return p.cur.onDocumentFragment1312()
 }
 
-func (c *current) onDocumentFragment1255(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1263(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1255() (interface{}, error) {
+func (p *parser) callonDocumentFragment1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1255(stack["content"])
+	return p.cur.onDocumentFragment1263(stack["content"])
 }
 
-func (c *current) onDocumentFragment1203(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1211(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1203() (interface{}, error) {
+func (p *parser) callonDocumentFragment1211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1203(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1211(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1200(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1208(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1200() (interface{}, error) {
+func (p *parser) callonDocumentFragment1208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1200(stack["cells"])
+	return p.cur.onDocumentFragment1208(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1173(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1181(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["cells"])
+	return p.cur.onDocumentFragment1181(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1324() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1324()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1327() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1327()
 }
 
-func (c *current) onDocumentFragment1311() (interface{}, error) {
+func (c *current) onDocumentFragment1319() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1311() (interface{}, error) {
+func (p *parser) callonDocumentFragment1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1311()
+	return p.cur.onDocumentFragment1319()
 }
 
-func (c *current) onDocumentFragment1152(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1160(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1152() (interface{}, error) {
+func (p *parser) callonDocumentFragment1160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1152(stack["content"])
+	return p.cur.onDocumentFragment1160(stack["content"])
 }
 
-func (c *current) onDocumentFragment1330() (interface{}, error) {
+func (c *current) onDocumentFragment1338() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1330() (interface{}, error) {
+func (p *parser) callonDocumentFragment1338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1330()
+	return p.cur.onDocumentFragment1338()
 }
 
-func (c *current) onDocumentFragment1333() (interface{}, error) {
+func (c *current) onDocumentFragment1341() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1333() (interface{}, error) {
+func (p *parser) callonDocumentFragment1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1333()
+	return p.cur.onDocumentFragment1341()
 }
 
-func (c *current) onDocumentFragment1120(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1128(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1120() (interface{}, error) {
+func (p *parser) callonDocumentFragment1128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1120(stack["lines"])
+	return p.cur.onDocumentFragment1128(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1348() (interface{}, error) {
+func (c *current) onDocumentFragment1356() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1348() (interface{}, error) {
+func (p *parser) callonDocumentFragment1356() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1348()
+	return p.cur.onDocumentFragment1356()
 }
 
-func (c *current) onDocumentFragment1352() (interface{}, error) {
+func (c *current) onDocumentFragment1360() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1352() (interface{}, error) {
+func (p *parser) callonDocumentFragment1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1352()
+	return p.cur.onDocumentFragment1360()
 }
 
-func (c *current) onDocumentFragment1342(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1350(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1342() (interface{}, error) {
+func (p *parser) callonDocumentFragment1350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1342(stack["content"])
+	return p.cur.onDocumentFragment1350(stack["content"])
 }
 
-func (c *current) onDocumentFragment1361() (bool, error) {
+func (c *current) onDocumentFragment1369() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1361() (bool, error) {
+func (p *parser) callonDocumentFragment1369() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1361()
+	return p.cur.onDocumentFragment1369()
 }
 
-func (c *current) onDocumentFragment1367() (interface{}, error) {
+func (c *current) onDocumentFragment1375() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1367() (interface{}, error) {
+func (p *parser) callonDocumentFragment1375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1367()
+	return p.cur.onDocumentFragment1375()
 }
 
-func (c *current) onDocumentFragment1370() (interface{}, error) {
+func (c *current) onDocumentFragment1378() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1370() (interface{}, error) {
+func (p *parser) callonDocumentFragment1378() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1370()
+	return p.cur.onDocumentFragment1378()
 }
 
-func (c *current) onDocumentFragment1387() (interface{}, error) {
+func (c *current) onDocumentFragment1395() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1387() (interface{}, error) {
+func (p *parser) callonDocumentFragment1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1387()
+	return p.cur.onDocumentFragment1395()
 }
 
-func (c *current) onDocumentFragment1390() (interface{}, error) {
+func (c *current) onDocumentFragment1398() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1390() (interface{}, error) {
+func (p *parser) callonDocumentFragment1398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1390()
+	return p.cur.onDocumentFragment1398()
 }
 
-func (c *current) onDocumentFragment1379() (interface{}, error) {
+func (c *current) onDocumentFragment1387() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1379() (interface{}, error) {
+func (p *parser) callonDocumentFragment1387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1379()
+	return p.cur.onDocumentFragment1387()
 }
 
-func (c *current) onDocumentFragment1400() (interface{}, error) {
+func (c *current) onDocumentFragment1408() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1400() (interface{}, error) {
+func (p *parser) callonDocumentFragment1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1400()
+	return p.cur.onDocumentFragment1408()
 }
 
-func (c *current) onDocumentFragment1403() (interface{}, error) {
+func (c *current) onDocumentFragment1411() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1403() (interface{}, error) {
+func (p *parser) callonDocumentFragment1411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1403()
+	return p.cur.onDocumentFragment1411()
 }
 
-func (c *current) onDocumentFragment1363(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1371(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1363() (interface{}, error) {
+func (p *parser) callonDocumentFragment1371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1363(stack["content"])
+	return p.cur.onDocumentFragment1371(stack["content"])
 }
 
-func (c *current) onDocumentFragment1359(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1367(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1359() (interface{}, error) {
+func (p *parser) callonDocumentFragment1367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1359(stack["frontmatter"])
+	return p.cur.onDocumentFragment1367(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1411(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1419(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1411() (bool, error) {
+func (p *parser) callonDocumentFragment1419() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1411(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1419(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -55886,194 +57523,227 @@ func (p *parser) callonDocumentHeader6() (interface{}, error) {
 	return p.cur.onDocumentHeader6(stack["content"])
 }
 
-func (c *current) onDocumentHeader28() (interface{}, error) {
+func (c *current) onDocumentHeader29() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader28() (interface{}, error) {
+func (p *parser) callonDocumentHeader29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader28()
+	return p.cur.onDocumentHeader29()
 }
 
-func (c *current) onDocumentHeader34() (interface{}, error) {
+func (c *current) onDocumentHeader35() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader34() (interface{}, error) {
+func (p *parser) callonDocumentHeader35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader34()
+	return p.cur.onDocumentHeader35()
 }
 
-func (c *current) onDocumentHeader37() (interface{}, error) {
+func (c *current) onDocumentHeader38() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader37() (interface{}, error) {
+func (p *parser) callonDocumentHeader38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader37()
+	return p.cur.onDocumentHeader38()
 }
 
-func (c *current) onDocumentHeader25(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader26(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader25() (interface{}, error) {
+func (p *parser) callonDocumentHeader26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader25(stack["delimiter"])
+	return p.cur.onDocumentHeader26(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader45(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
 }
 
-func (c *current) onDocumentHeader53() (interface{}, error) {
+func (p *parser) callonDocumentHeader45() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader45(stack["start"])
+}
+
+func (c *current) onDocumentHeader57() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader53() (interface{}, error) {
+func (p *parser) callonDocumentHeader57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader53()
+	return p.cur.onDocumentHeader57()
 }
 
-func (c *current) onDocumentHeader59() (interface{}, error) {
+func (c *current) onDocumentHeader63() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader59() (interface{}, error) {
+func (p *parser) callonDocumentHeader63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader59()
+	return p.cur.onDocumentHeader63()
 }
 
-func (c *current) onDocumentHeader62() (interface{}, error) {
+func (c *current) onDocumentHeader66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader62() (interface{}, error) {
+func (p *parser) callonDocumentHeader66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader62()
+	return p.cur.onDocumentHeader66()
 }
 
-func (c *current) onDocumentHeader50(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader54(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader50() (interface{}, error) {
+func (p *parser) callonDocumentHeader54() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader50(stack["delimiter"])
+	return p.cur.onDocumentHeader54(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader77() (interface{}, error) {
+func (c *current) onDocumentHeader73(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader73() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader73(stack["end"])
+}
+
+func (c *current) onDocumentHeader82() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader77() (interface{}, error) {
+func (p *parser) callonDocumentHeader82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader77()
+	return p.cur.onDocumentHeader82()
 }
 
-func (c *current) onDocumentHeader81() (interface{}, error) {
+func (c *current) onDocumentHeader86() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader81() (interface{}, error) {
+func (p *parser) callonDocumentHeader86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader81()
+	return p.cur.onDocumentHeader86()
 }
 
-func (c *current) onDocumentHeader72(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader77(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader72() (interface{}, error) {
+func (p *parser) callonDocumentHeader77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader72(stack["content"])
+	return p.cur.onDocumentHeader77(stack["content"])
 }
 
-func (c *current) onDocumentHeader46(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader48(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader46() (interface{}, error) {
+func (p *parser) callonDocumentHeader48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader46(stack["line"])
+	return p.cur.onDocumentHeader48(stack["line"])
 }
 
-func (c *current) onDocumentHeader93() (interface{}, error) {
+func (c *current) onDocumentHeader100() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader93() (interface{}, error) {
+func (p *parser) callonDocumentHeader100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader93()
+	return p.cur.onDocumentHeader100()
 }
 
-func (c *current) onDocumentHeader99() (interface{}, error) {
+func (c *current) onDocumentHeader106() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader99() (interface{}, error) {
+func (p *parser) callonDocumentHeader106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader99()
+	return p.cur.onDocumentHeader106()
 }
 
-func (c *current) onDocumentHeader102() (interface{}, error) {
+func (c *current) onDocumentHeader109() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader102() (interface{}, error) {
+func (p *parser) callonDocumentHeader109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader102()
+	return p.cur.onDocumentHeader109()
 }
 
-func (c *current) onDocumentHeader90(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader97(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader90() (interface{}, error) {
+func (p *parser) callonDocumentHeader97() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader97(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader116(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader116() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader90(stack["delimiter"])
+	return p.cur.onDocumentHeader116(stack["end"])
 }
 
-func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader23(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -56081,1116 +57751,1215 @@ func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{
 func (p *parser) callonDocumentHeader23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader23(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader23(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader121() (interface{}, error) {
+func (c *current) onDocumentHeader129() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader121() (interface{}, error) {
+func (p *parser) callonDocumentHeader129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader121()
+	return p.cur.onDocumentHeader129()
 }
 
-func (c *current) onDocumentHeader125() (interface{}, error) {
+func (c *current) onDocumentHeader133() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader125() (interface{}, error) {
+func (p *parser) callonDocumentHeader133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader125()
+	return p.cur.onDocumentHeader133()
 }
 
-func (c *current) onDocumentHeader115(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader123(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader115() (interface{}, error) {
+func (p *parser) callonDocumentHeader123() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader123(stack["content"])
+}
+
+func (c *current) onDocumentHeader146() (interface{}, error) {
+	// sequence of 4 "/" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentHeader146() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader146()
+}
+
+func (c *current) onDocumentHeader152() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentHeader152() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader152()
+}
+
+func (c *current) onDocumentHeader155() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentHeader155() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader155()
+}
+
+func (c *current) onDocumentHeader143(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentHeader143() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader143(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader162(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader162() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader115(stack["content"])
+	return p.cur.onDocumentHeader162(stack["start"])
 }
 
-func (c *current) onDocumentHeader137() (interface{}, error) {
+func (c *current) onDocumentHeader174() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader137() (interface{}, error) {
+func (p *parser) callonDocumentHeader174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader137()
+	return p.cur.onDocumentHeader174()
 }
 
-func (c *current) onDocumentHeader143() (interface{}, error) {
+func (c *current) onDocumentHeader180() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader143() (interface{}, error) {
+func (p *parser) callonDocumentHeader180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader143()
+	return p.cur.onDocumentHeader180()
 }
 
-func (c *current) onDocumentHeader146() (interface{}, error) {
+func (c *current) onDocumentHeader183() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader146() (interface{}, error) {
+func (p *parser) callonDocumentHeader183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader146()
+	return p.cur.onDocumentHeader183()
 }
 
-func (c *current) onDocumentHeader134(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader171(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader134() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader134(stack["delimiter"])
-}
-
-func (c *current) onDocumentHeader162() (interface{}, error) {
-	// sequence of 4 "/" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentHeader162() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader162()
-}
-
-func (c *current) onDocumentHeader168() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentHeader168() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader168()
-}
-
-func (c *current) onDocumentHeader171() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
 func (p *parser) callonDocumentHeader171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader171()
+	return p.cur.onDocumentHeader171(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader159(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+func (c *current) onDocumentHeader190(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentHeader159() (interface{}, error) {
+func (p *parser) callonDocumentHeader190() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader159(stack["delimiter"])
+	return p.cur.onDocumentHeader190(stack["end"])
 }
 
-func (c *current) onDocumentHeader186() (interface{}, error) {
+func (c *current) onDocumentHeader199() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader186() (interface{}, error) {
+func (p *parser) callonDocumentHeader199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader186()
+	return p.cur.onDocumentHeader199()
 }
 
-func (c *current) onDocumentHeader190() (interface{}, error) {
+func (c *current) onDocumentHeader203() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader190() (interface{}, error) {
+func (p *parser) callonDocumentHeader203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader190()
+	return p.cur.onDocumentHeader203()
 }
 
-func (c *current) onDocumentHeader181(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader194(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader181() (interface{}, error) {
+func (p *parser) callonDocumentHeader194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader181(stack["content"])
+	return p.cur.onDocumentHeader194(stack["content"])
 }
 
-func (c *current) onDocumentHeader155(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader165(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader155() (interface{}, error) {
+func (p *parser) callonDocumentHeader165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader155(stack["line"])
+	return p.cur.onDocumentHeader165(stack["line"])
 }
 
-func (c *current) onDocumentHeader202() (interface{}, error) {
+func (c *current) onDocumentHeader217() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader202() (interface{}, error) {
+func (p *parser) callonDocumentHeader217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader202()
+	return p.cur.onDocumentHeader217()
 }
 
-func (c *current) onDocumentHeader208() (interface{}, error) {
+func (c *current) onDocumentHeader223() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader208() (interface{}, error) {
+func (p *parser) callonDocumentHeader223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader208()
+	return p.cur.onDocumentHeader223()
 }
 
-func (c *current) onDocumentHeader211() (interface{}, error) {
+func (c *current) onDocumentHeader226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader211() (interface{}, error) {
+func (p *parser) callonDocumentHeader226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader211()
+	return p.cur.onDocumentHeader226()
 }
 
-func (c *current) onDocumentHeader199(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader214(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader199() (interface{}, error) {
+func (p *parser) callonDocumentHeader214() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader214(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader233(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader233() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader199(stack["delimiter"])
+	return p.cur.onDocumentHeader233(stack["end"])
 }
 
-func (c *current) onDocumentHeader132(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader140(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader132() (interface{}, error) {
+func (p *parser) callonDocumentHeader140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader132(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader140(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader230() (interface{}, error) {
+func (c *current) onDocumentHeader246() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader230() (interface{}, error) {
+func (p *parser) callonDocumentHeader246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader230()
+	return p.cur.onDocumentHeader246()
 }
 
-func (c *current) onDocumentHeader241() (interface{}, error) {
+func (c *current) onDocumentHeader257() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader241() (interface{}, error) {
+func (p *parser) callonDocumentHeader257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader241()
+	return p.cur.onDocumentHeader257()
 }
 
-func (c *current) onDocumentHeader245() (interface{}, error) {
+func (c *current) onDocumentHeader261() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader245() (interface{}, error) {
+func (p *parser) callonDocumentHeader261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader245()
+	return p.cur.onDocumentHeader261()
 }
 
-func (c *current) onDocumentHeader249() (interface{}, error) {
+func (c *current) onDocumentHeader265() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader249() (interface{}, error) {
+func (p *parser) callonDocumentHeader265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader249()
+	return p.cur.onDocumentHeader265()
 }
 
-func (c *current) onDocumentHeader253() (interface{}, error) {
+func (c *current) onDocumentHeader269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader253() (interface{}, error) {
+func (p *parser) callonDocumentHeader269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader253()
+	return p.cur.onDocumentHeader269()
 }
 
-func (c *current) onDocumentHeader257() (interface{}, error) {
+func (c *current) onDocumentHeader273() (interface{}, error) {
 	// spaces allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader257() (interface{}, error) {
+func (p *parser) callonDocumentHeader273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader257()
+	return p.cur.onDocumentHeader273()
 }
 
-func (c *current) onDocumentHeader261() (interface{}, error) {
+func (c *current) onDocumentHeader277() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader261() (interface{}, error) {
+func (p *parser) callonDocumentHeader277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader261()
+	return p.cur.onDocumentHeader277()
 }
 
-func (c *current) onDocumentHeader238(part1, part2, part3 interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader254(part1, part2, part3 interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorFullName(part1.(string), part2, part3)
 
 }
 
-func (p *parser) callonDocumentHeader238() (interface{}, error) {
+func (p *parser) callonDocumentHeader254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader238(stack["part1"], stack["part2"], stack["part3"])
+	return p.cur.onDocumentHeader254(stack["part1"], stack["part2"], stack["part3"])
 }
 
-func (c *current) onDocumentHeader271() (interface{}, error) {
+func (c *current) onDocumentHeader287() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader271() (interface{}, error) {
+func (p *parser) callonDocumentHeader287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader271()
+	return p.cur.onDocumentHeader287()
 }
 
-func (c *current) onDocumentHeader265(email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader281(email interface{}) (interface{}, error) {
 	return email, nil
 
 }
 
-func (p *parser) callonDocumentHeader265() (interface{}, error) {
+func (p *parser) callonDocumentHeader281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader265(stack["email"])
+	return p.cur.onDocumentHeader281(stack["email"])
 }
 
-func (c *current) onDocumentHeader276() (interface{}, error) {
+func (c *current) onDocumentHeader292() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader276() (interface{}, error) {
+func (p *parser) callonDocumentHeader292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader276()
+	return p.cur.onDocumentHeader292()
 }
 
-func (c *current) onDocumentHeader281() (interface{}, error) {
+func (c *current) onDocumentHeader297() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader281() (interface{}, error) {
+func (p *parser) callonDocumentHeader297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader281()
+	return p.cur.onDocumentHeader297()
 }
 
-func (c *current) onDocumentHeader283(fullName, email interface{}) (bool, error) {
+func (c *current) onDocumentHeader299(fullName, email interface{}) (bool, error) {
 	// at least 1 of [fullName, email] must be defined
 	return fullName != nil || email != nil, nil
 
 }
 
-func (p *parser) callonDocumentHeader283() (bool, error) {
+func (p *parser) callonDocumentHeader299() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader283(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader299(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader234(fullName, email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader250(fullName, email interface{}) (interface{}, error) {
 	return types.NewDocumentAuthor(fullName, email)
 
 }
 
-func (p *parser) callonDocumentHeader234() (interface{}, error) {
+func (p *parser) callonDocumentHeader250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader234(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader250(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader285() (interface{}, error) {
+func (c *current) onDocumentHeader301() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader285() (interface{}, error) {
+func (p *parser) callonDocumentHeader301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader285()
+	return p.cur.onDocumentHeader301()
 }
 
-func (c *current) onDocumentHeader227(authors interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader243(authors interface{}) (interface{}, error) {
 	return types.NewDocumentAuthors(authors.([]interface{})...)
 }
 
-func (p *parser) callonDocumentHeader227() (interface{}, error) {
+func (p *parser) callonDocumentHeader243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader227(stack["authors"])
+	return p.cur.onDocumentHeader243(stack["authors"])
 }
 
-func (c *current) onDocumentHeader300() (interface{}, error) {
+func (c *current) onDocumentHeader316() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader300() (interface{}, error) {
+func (p *parser) callonDocumentHeader316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader300()
+	return p.cur.onDocumentHeader316()
 }
 
-func (c *current) onDocumentHeader304() (interface{}, error) {
+func (c *current) onDocumentHeader320() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader304() (interface{}, error) {
+func (p *parser) callonDocumentHeader320() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader304()
+	return p.cur.onDocumentHeader320()
 }
 
-func (c *current) onDocumentHeader294(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader310(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader294() (interface{}, error) {
+func (p *parser) callonDocumentHeader310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader294(stack["content"])
+	return p.cur.onDocumentHeader310(stack["content"])
 }
 
-func (c *current) onDocumentHeader316() (interface{}, error) {
+func (c *current) onDocumentHeader333() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader316() (interface{}, error) {
+func (p *parser) callonDocumentHeader333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader316()
+	return p.cur.onDocumentHeader333()
 }
 
-func (c *current) onDocumentHeader322() (interface{}, error) {
+func (c *current) onDocumentHeader339() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader322() (interface{}, error) {
+func (p *parser) callonDocumentHeader339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader322()
+	return p.cur.onDocumentHeader339()
 }
 
-func (c *current) onDocumentHeader325() (interface{}, error) {
+func (c *current) onDocumentHeader342() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader325() (interface{}, error) {
+func (p *parser) callonDocumentHeader342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader325()
+	return p.cur.onDocumentHeader342()
 }
 
-func (c *current) onDocumentHeader313(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader330(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader313() (interface{}, error) {
+func (p *parser) callonDocumentHeader330() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader330(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader349(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader349() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader313(stack["delimiter"])
+	return p.cur.onDocumentHeader349(stack["start"])
 }
 
-func (c *current) onDocumentHeader341() (interface{}, error) {
+func (c *current) onDocumentHeader361() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader341() (interface{}, error) {
+func (p *parser) callonDocumentHeader361() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader341()
+	return p.cur.onDocumentHeader361()
 }
 
-func (c *current) onDocumentHeader347() (interface{}, error) {
+func (c *current) onDocumentHeader367() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader347() (interface{}, error) {
+func (p *parser) callonDocumentHeader367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader347()
+	return p.cur.onDocumentHeader367()
 }
 
-func (c *current) onDocumentHeader350() (interface{}, error) {
+func (c *current) onDocumentHeader370() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader350() (interface{}, error) {
+func (p *parser) callonDocumentHeader370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader350()
+	return p.cur.onDocumentHeader370()
 }
 
-func (c *current) onDocumentHeader338(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader358(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader338() (interface{}, error) {
+func (p *parser) callonDocumentHeader358() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader358(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader377(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader377() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader338(stack["delimiter"])
+	return p.cur.onDocumentHeader377(stack["end"])
 }
 
-func (c *current) onDocumentHeader365() (interface{}, error) {
+func (c *current) onDocumentHeader386() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader365() (interface{}, error) {
+func (p *parser) callonDocumentHeader386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader365()
+	return p.cur.onDocumentHeader386()
 }
 
-func (c *current) onDocumentHeader369() (interface{}, error) {
+func (c *current) onDocumentHeader390() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader369() (interface{}, error) {
+func (p *parser) callonDocumentHeader390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader369()
+	return p.cur.onDocumentHeader390()
 }
 
-func (c *current) onDocumentHeader360(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader381(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader360() (interface{}, error) {
+func (p *parser) callonDocumentHeader381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader360(stack["content"])
+	return p.cur.onDocumentHeader381(stack["content"])
 }
 
-func (c *current) onDocumentHeader334(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader352(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader334() (interface{}, error) {
+func (p *parser) callonDocumentHeader352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader334(stack["line"])
+	return p.cur.onDocumentHeader352(stack["line"])
 }
 
-func (c *current) onDocumentHeader381() (interface{}, error) {
+func (c *current) onDocumentHeader404() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader381() (interface{}, error) {
+func (p *parser) callonDocumentHeader404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader381()
+	return p.cur.onDocumentHeader404()
 }
 
-func (c *current) onDocumentHeader387() (interface{}, error) {
+func (c *current) onDocumentHeader410() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader387() (interface{}, error) {
+func (p *parser) callonDocumentHeader410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader387()
+	return p.cur.onDocumentHeader410()
 }
 
-func (c *current) onDocumentHeader390() (interface{}, error) {
+func (c *current) onDocumentHeader413() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader390() (interface{}, error) {
+func (p *parser) callonDocumentHeader413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader390()
+	return p.cur.onDocumentHeader413()
 }
 
-func (c *current) onDocumentHeader378(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader401(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader378() (interface{}, error) {
+func (p *parser) callonDocumentHeader401() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader401(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader420(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader420() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader378(stack["delimiter"])
+	return p.cur.onDocumentHeader420(stack["end"])
 }
 
-func (c *current) onDocumentHeader311(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader327(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader311() (interface{}, error) {
+func (p *parser) callonDocumentHeader327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader311(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader327(stack["start"], stack["content"])
 }
 
-func (c *current) onDocumentHeader404() (interface{}, error) {
+func (c *current) onDocumentHeader428() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader404() (interface{}, error) {
+func (p *parser) callonDocumentHeader428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader404()
+	return p.cur.onDocumentHeader428()
 }
 
-func (c *current) onDocumentHeader414() (interface{}, error) {
+func (c *current) onDocumentHeader438() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader414() (interface{}, error) {
+func (p *parser) callonDocumentHeader438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader414()
+	return p.cur.onDocumentHeader438()
 }
 
-func (c *current) onDocumentHeader428() (interface{}, error) {
+func (c *current) onDocumentHeader452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader428() (interface{}, error) {
+func (p *parser) callonDocumentHeader452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader428()
+	return p.cur.onDocumentHeader452()
 }
 
-func (c *current) onDocumentHeader420() (interface{}, error) {
+func (c *current) onDocumentHeader444() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader420() (interface{}, error) {
+func (p *parser) callonDocumentHeader444() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader420()
+	return p.cur.onDocumentHeader444()
 }
 
-func (c *current) onDocumentHeader436() (interface{}, error) {
+func (c *current) onDocumentHeader460() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader436() (interface{}, error) {
+func (p *parser) callonDocumentHeader460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader436()
+	return p.cur.onDocumentHeader460()
 }
 
-func (c *current) onDocumentHeader443() (interface{}, error) {
+func (c *current) onDocumentHeader467() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader443() (interface{}, error) {
+func (p *parser) callonDocumentHeader467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader443()
+	return p.cur.onDocumentHeader467()
 }
 
-func (c *current) onDocumentHeader410(revnumber, revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader434(revnumber, revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(revnumber, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader410() (interface{}, error) {
+func (p *parser) callonDocumentHeader434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader410(stack["revnumber"], stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader434(stack["revnumber"], stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader449() (interface{}, error) {
+func (c *current) onDocumentHeader473() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader449() (interface{}, error) {
+func (p *parser) callonDocumentHeader473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader449()
+	return p.cur.onDocumentHeader473()
 }
 
-func (c *current) onDocumentHeader456() (interface{}, error) {
+func (c *current) onDocumentHeader480() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader456() (interface{}, error) {
+func (p *parser) callonDocumentHeader480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader456()
+	return p.cur.onDocumentHeader480()
 }
 
-func (c *current) onDocumentHeader446(revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader470(revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(nil, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader446() (interface{}, error) {
+func (p *parser) callonDocumentHeader470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader446(stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader470(stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader460() (interface{}, error) {
+func (c *current) onDocumentHeader484() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader460() (interface{}, error) {
+func (p *parser) callonDocumentHeader484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader460()
+	return p.cur.onDocumentHeader484()
 }
 
-func (c *current) onDocumentHeader401(revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader425(revision interface{}) (interface{}, error) {
 	return revision, nil
 }
 
-func (p *parser) callonDocumentHeader401() (interface{}, error) {
+func (p *parser) callonDocumentHeader425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader401(stack["revision"])
+	return p.cur.onDocumentHeader425(stack["revision"])
 }
 
-func (c *current) onDocumentHeader222(authors, revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader238(authors, revision interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorsAndRevision(authors.(types.DocumentAuthors), revision)
 
 }
 
-func (p *parser) callonDocumentHeader222() (interface{}, error) {
+func (p *parser) callonDocumentHeader238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader222(stack["authors"], stack["revision"])
+	return p.cur.onDocumentHeader238(stack["authors"], stack["revision"])
 }
 
-func (c *current) onDocumentHeader475() (interface{}, error) {
+func (c *current) onDocumentHeader499() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader475() (interface{}, error) {
+func (p *parser) callonDocumentHeader499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader475()
+	return p.cur.onDocumentHeader499()
 }
 
-func (c *current) onDocumentHeader482() (interface{}, error) {
+func (c *current) onDocumentHeader506() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader482() (interface{}, error) {
+func (p *parser) callonDocumentHeader506() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader482()
+	return p.cur.onDocumentHeader506()
 }
 
-func (c *current) onDocumentHeader485() (interface{}, error) {
+func (c *current) onDocumentHeader509() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader485() (interface{}, error) {
+func (p *parser) callonDocumentHeader509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader485()
+	return p.cur.onDocumentHeader509()
 }
 
-func (c *current) onDocumentHeader471(name interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader495(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader471() (interface{}, error) {
+func (p *parser) callonDocumentHeader495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader471(stack["name"])
+	return p.cur.onDocumentHeader495(stack["name"])
 }
 
-func (c *current) onDocumentHeader496() (interface{}, error) {
+func (c *current) onDocumentHeader520() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader496() (interface{}, error) {
+func (p *parser) callonDocumentHeader520() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader496()
+	return p.cur.onDocumentHeader520()
 }
 
-func (c *current) onDocumentHeader503() (interface{}, error) {
+func (c *current) onDocumentHeader527() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader503() (interface{}, error) {
+func (p *parser) callonDocumentHeader527() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader503()
+	return p.cur.onDocumentHeader527()
 }
 
-func (c *current) onDocumentHeader506() (interface{}, error) {
+func (c *current) onDocumentHeader530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader506() (interface{}, error) {
+func (p *parser) callonDocumentHeader530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader506()
+	return p.cur.onDocumentHeader530()
 }
 
-func (c *current) onDocumentHeader492(name interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader516(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader492() (interface{}, error) {
+func (p *parser) callonDocumentHeader516() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader492(stack["name"])
+	return p.cur.onDocumentHeader516(stack["name"])
 }
 
-func (c *current) onDocumentHeader519() (interface{}, error) {
+func (c *current) onDocumentHeader543() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader519() (interface{}, error) {
+func (p *parser) callonDocumentHeader543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader519()
+	return p.cur.onDocumentHeader543()
 }
 
-func (c *current) onDocumentHeader523() (interface{}, error) {
+func (c *current) onDocumentHeader547() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader523() (interface{}, error) {
+func (p *parser) callonDocumentHeader547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader523()
+	return p.cur.onDocumentHeader547()
 }
 
-func (c *current) onDocumentHeader513(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader537(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader513() (interface{}, error) {
+func (p *parser) callonDocumentHeader537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader513(stack["content"])
+	return p.cur.onDocumentHeader537(stack["content"])
 }
 
-func (c *current) onDocumentHeader535() (interface{}, error) {
+func (c *current) onDocumentHeader560() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader535() (interface{}, error) {
+func (p *parser) callonDocumentHeader560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader535()
+	return p.cur.onDocumentHeader560()
 }
 
-func (c *current) onDocumentHeader541() (interface{}, error) {
+func (c *current) onDocumentHeader566() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader541() (interface{}, error) {
+func (p *parser) callonDocumentHeader566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader541()
+	return p.cur.onDocumentHeader566()
 }
 
-func (c *current) onDocumentHeader544() (interface{}, error) {
+func (c *current) onDocumentHeader569() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader544() (interface{}, error) {
+func (p *parser) callonDocumentHeader569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader544()
+	return p.cur.onDocumentHeader569()
 }
 
-func (c *current) onDocumentHeader532(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader557(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader532() (interface{}, error) {
+func (p *parser) callonDocumentHeader557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader532(stack["delimiter"])
+	return p.cur.onDocumentHeader557(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader560() (interface{}, error) {
+func (c *current) onDocumentHeader576(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader576() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader576(stack["start"])
+}
+
+func (c *current) onDocumentHeader588() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader560() (interface{}, error) {
+func (p *parser) callonDocumentHeader588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader560()
+	return p.cur.onDocumentHeader588()
 }
 
-func (c *current) onDocumentHeader566() (interface{}, error) {
+func (c *current) onDocumentHeader594() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader566() (interface{}, error) {
+func (p *parser) callonDocumentHeader594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader566()
+	return p.cur.onDocumentHeader594()
 }
 
-func (c *current) onDocumentHeader569() (interface{}, error) {
+func (c *current) onDocumentHeader597() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader569() (interface{}, error) {
+func (p *parser) callonDocumentHeader597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader569()
+	return p.cur.onDocumentHeader597()
 }
 
-func (c *current) onDocumentHeader557(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader585(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader557() (interface{}, error) {
+func (p *parser) callonDocumentHeader585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader557(stack["delimiter"])
+	return p.cur.onDocumentHeader585(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader604(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
 }
 
-func (c *current) onDocumentHeader584() (interface{}, error) {
+func (p *parser) callonDocumentHeader604() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader604(stack["end"])
+}
+
+func (c *current) onDocumentHeader613() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader584() (interface{}, error) {
+func (p *parser) callonDocumentHeader613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader584()
+	return p.cur.onDocumentHeader613()
 }
 
-func (c *current) onDocumentHeader588() (interface{}, error) {
+func (c *current) onDocumentHeader617() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader588() (interface{}, error) {
+func (p *parser) callonDocumentHeader617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader588()
+	return p.cur.onDocumentHeader617()
 }
 
-func (c *current) onDocumentHeader579(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader608(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader579() (interface{}, error) {
+func (p *parser) callonDocumentHeader608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader579(stack["content"])
+	return p.cur.onDocumentHeader608(stack["content"])
 }
 
-func (c *current) onDocumentHeader553(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader579(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader553() (interface{}, error) {
+func (p *parser) callonDocumentHeader579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader553(stack["line"])
+	return p.cur.onDocumentHeader579(stack["line"])
 }
 
-func (c *current) onDocumentHeader600() (interface{}, error) {
+func (c *current) onDocumentHeader631() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader600() (interface{}, error) {
+func (p *parser) callonDocumentHeader631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader600()
+	return p.cur.onDocumentHeader631()
 }
 
-func (c *current) onDocumentHeader606() (interface{}, error) {
+func (c *current) onDocumentHeader637() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader606() (interface{}, error) {
+func (p *parser) callonDocumentHeader637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader606()
+	return p.cur.onDocumentHeader637()
 }
 
-func (c *current) onDocumentHeader609() (interface{}, error) {
+func (c *current) onDocumentHeader640() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader609() (interface{}, error) {
+func (p *parser) callonDocumentHeader640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader609()
+	return p.cur.onDocumentHeader640()
 }
 
-func (c *current) onDocumentHeader597(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader628(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader597() (interface{}, error) {
+func (p *parser) callonDocumentHeader628() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader628(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader647(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader597(stack["delimiter"])
+	return p.cur.onDocumentHeader647(stack["end"])
 }
 
-func (c *current) onDocumentHeader530(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader554(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader530() (interface{}, error) {
+func (p *parser) callonDocumentHeader554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader530(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader554(stack["start"], stack["content"])
 }
 
 func (c *current) onDocumentHeader1(title, authorsAndRevision, extraElements interface{}) (interface{}, error) {
@@ -62509,458 +64278,528 @@ func (p *parser) callonExtraListElement623() (interface{}, error) {
 	return p.cur.onExtraListElement623()
 }
 
-func (c *current) onExtraListElement640() (interface{}, error) {
+func (c *current) onExtraListElement641() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement640() (interface{}, error) {
+func (p *parser) callonExtraListElement641() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement641()
+}
+
+func (c *current) onExtraListElement647() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement647() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement647()
+}
+
+func (c *current) onExtraListElement650() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonExtraListElement650() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement650()
+}
+
+func (c *current) onExtraListElement638(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonExtraListElement638() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement638(stack["delimiter"])
+}
+
+func (c *current) onExtraListElement660() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement660() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement660()
+}
+
+func (c *current) onExtraListElement666() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExtraListElement666() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement666()
+}
+
+func (c *current) onExtraListElement669() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonExtraListElement669() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement669()
+}
+
+func (c *current) onExtraListElement657(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonExtraListElement657() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExtraListElement657(stack["delimiter"])
+}
+
+func (c *current) onExtraListElement680() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
+}
+
+func (p *parser) callonExtraListElement680() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement640()
+	return p.cur.onExtraListElement680()
 }
 
-func (c *current) onExtraListElement646() (interface{}, error) {
+func (c *current) onExtraListElement684() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646()
+	return p.cur.onExtraListElement684()
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement687() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement687()
 }
 
-func (c *current) onExtraListElement637(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
-
+func (c *current) onExtraListElement676(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement637() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement637(stack["delimiter"])
+	return p.cur.onExtraListElement676(stack["language"])
 }
 
-func (c *current) onExtraListElement659() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onExtraListElement697() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement659() (interface{}, error) {
+func (p *parser) callonExtraListElement697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement659()
+	return p.cur.onExtraListElement697()
 }
 
-func (c *current) onExtraListElement665() (interface{}, error) {
+func (c *current) onExtraListElement703() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665()
+	return p.cur.onExtraListElement703()
 }
 
-func (c *current) onExtraListElement668() (interface{}, error) {
+func (c *current) onExtraListElement706() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement668() (interface{}, error) {
+func (p *parser) callonExtraListElement706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement668()
+	return p.cur.onExtraListElement706()
 }
 
-func (c *current) onExtraListElement656(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement694(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement656() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement656(stack["delimiter"])
+	return p.cur.onExtraListElement694(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement679() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onExtraListElement716() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonExtraListElement679() (interface{}, error) {
+func (p *parser) callonExtraListElement716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement679()
+	return p.cur.onExtraListElement716()
 }
 
-func (c *current) onExtraListElement683() (interface{}, error) {
+func (c *current) onExtraListElement722() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683()
+	return p.cur.onExtraListElement722()
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement725() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement725()
 }
 
-func (c *current) onExtraListElement675(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onExtraListElement713(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonExtraListElement675() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement675(stack["language"])
+	return p.cur.onExtraListElement713(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement696() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onExtraListElement735() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement696() (interface{}, error) {
+func (p *parser) callonExtraListElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement696()
+	return p.cur.onExtraListElement735()
 }
 
-func (c *current) onExtraListElement702() (interface{}, error) {
+func (c *current) onExtraListElement741() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702()
+	return p.cur.onExtraListElement741()
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement744() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement744() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement744()
 }
 
-func (c *current) onExtraListElement693(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement732(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement693() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement693(stack["delimiter"])
+	return p.cur.onExtraListElement732(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement715() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onExtraListElement754() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement715() (interface{}, error) {
+func (p *parser) callonExtraListElement754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement715()
+	return p.cur.onExtraListElement754()
 }
 
-func (c *current) onExtraListElement721() (interface{}, error) {
+func (c *current) onExtraListElement760() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721()
+	return p.cur.onExtraListElement760()
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement763() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement763() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement763()
 }
 
-func (c *current) onExtraListElement712(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement751(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement712() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement712(stack["delimiter"])
+	return p.cur.onExtraListElement751(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement734() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onExtraListElement773() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement734() (interface{}, error) {
+func (p *parser) callonExtraListElement773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement734()
+	return p.cur.onExtraListElement773()
 }
 
-func (c *current) onExtraListElement740() (interface{}, error) {
+func (c *current) onExtraListElement779() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740()
+	return p.cur.onExtraListElement779()
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement782() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement782()
 }
 
-func (c *current) onExtraListElement731(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement770(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement731() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement731(stack["delimiter"])
+	return p.cur.onExtraListElement770(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement753() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onExtraListElement792() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement753() (interface{}, error) {
+func (p *parser) callonExtraListElement792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement753()
+	return p.cur.onExtraListElement792()
 }
 
-func (c *current) onExtraListElement759() (interface{}, error) {
+func (c *current) onExtraListElement798() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759()
+	return p.cur.onExtraListElement798()
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement801() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement801()
 }
 
-func (c *current) onExtraListElement750(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement789(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement750() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement750(stack["delimiter"])
+	return p.cur.onExtraListElement789(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement772() (interface{}, error) {
-	// sequence of 4 "_" chars or more
-	return string(c.text), nil
+func (c *current) onExtraListElement632(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement772() (interface{}, error) {
+func (p *parser) callonExtraListElement632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement772()
+	return p.cur.onExtraListElement632(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement778() (interface{}, error) {
-
+func (c *current) onExtraListElement811() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExtraListElement778()
-}
-
-func (c *current) onExtraListElement781() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement811()
 }
 
-func (c *current) onExtraListElement769(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement814() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement769() (interface{}, error) {
+func (p *parser) callonExtraListElement814() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement769(stack["delimiter"])
+	return p.cur.onExtraListElement814()
 }
 
-func (c *current) onExtraListElement791() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onExtraListElement817() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonExtraListElement791() (interface{}, error) {
+func (p *parser) callonExtraListElement817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement791()
+	return p.cur.onExtraListElement817()
 }
 
-func (c *current) onExtraListElement797() (interface{}, error) {
+func (c *current) onExtraListElement808(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonExtraListElement797() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onExtraListElement797()
-}
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
-func (c *current) onExtraListElement800() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement800() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement800()
+	return p.cur.onExtraListElement808(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement788(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement827() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement788() (interface{}, error) {
+func (p *parser) callonExtraListElement827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement788(stack["delimiter"])
+	return p.cur.onExtraListElement827()
 }
 
-func (c *current) onExtraListElement631(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
-
+func (c *current) onExtraListElement830() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement631() (interface{}, error) {
+func (p *parser) callonExtraListElement830() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement631(stack["delimiter"])
+	return p.cur.onExtraListElement830()
 }
 
-func (c *current) onExtraListElement808() (interface{}, error) {
+func (c *current) onExtraListElement838() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement808() (interface{}, error) {
+func (p *parser) callonExtraListElement838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement808()
+	return p.cur.onExtraListElement838()
 }
 
-func (c *current) onExtraListElement812() (interface{}, error) {
+func (c *current) onExtraListElement842() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement812() (interface{}, error) {
+func (p *parser) callonExtraListElement842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement812()
+	return p.cur.onExtraListElement842()
 }
 
 func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
@@ -63849,194 +65688,227 @@ func (p *parser) callonListContinuationElement269() (interface{}, error) {
 	return p.cur.onListContinuationElement269(stack["name"])
 }
 
-func (c *current) onListContinuationElement295() (interface{}, error) {
+func (c *current) onListContinuationElement296() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement295() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement295()
+	return p.cur.onListContinuationElement296()
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement302() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement302()
 }
 
-func (c *current) onListContinuationElement304() (interface{}, error) {
+func (c *current) onListContinuationElement305() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement304() (interface{}, error) {
+func (p *parser) callonListContinuationElement305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement304()
+	return p.cur.onListContinuationElement305()
 }
 
-func (c *current) onListContinuationElement292(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement293(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement292() (interface{}, error) {
+func (p *parser) callonListContinuationElement293() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement293(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement312(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement312() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement292(stack["delimiter"])
+	return p.cur.onListContinuationElement312(stack["start"])
 }
 
-func (c *current) onListContinuationElement320() (interface{}, error) {
+func (c *current) onListContinuationElement324() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement320() (interface{}, error) {
+func (p *parser) callonListContinuationElement324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement320()
+	return p.cur.onListContinuationElement324()
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement330() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement330()
 }
 
-func (c *current) onListContinuationElement329() (interface{}, error) {
+func (c *current) onListContinuationElement333() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement329() (interface{}, error) {
+func (p *parser) callonListContinuationElement333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement329()
+	return p.cur.onListContinuationElement333()
 }
 
-func (c *current) onListContinuationElement317(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement321(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement317() (interface{}, error) {
+func (p *parser) callonListContinuationElement321() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement321(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement340(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement340() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement317(stack["delimiter"])
+	return p.cur.onListContinuationElement340(stack["end"])
 }
 
-func (c *current) onListContinuationElement344() (interface{}, error) {
+func (c *current) onListContinuationElement349() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344()
+	return p.cur.onListContinuationElement349()
 }
 
-func (c *current) onListContinuationElement348() (interface{}, error) {
+func (c *current) onListContinuationElement353() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement348() (interface{}, error) {
+func (p *parser) callonListContinuationElement353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement348()
+	return p.cur.onListContinuationElement353()
 }
 
-func (c *current) onListContinuationElement339(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement344(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement339() (interface{}, error) {
+func (p *parser) callonListContinuationElement344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement339(stack["content"])
+	return p.cur.onListContinuationElement344(stack["content"])
 }
 
-func (c *current) onListContinuationElement313(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement315(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement313() (interface{}, error) {
+func (p *parser) callonListContinuationElement315() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement313(stack["line"])
+	return p.cur.onListContinuationElement315(stack["line"])
 }
 
-func (c *current) onListContinuationElement360() (interface{}, error) {
+func (c *current) onListContinuationElement367() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement360() (interface{}, error) {
+func (p *parser) callonListContinuationElement367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement360()
+	return p.cur.onListContinuationElement367()
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement373() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement373()
 }
 
-func (c *current) onListContinuationElement369() (interface{}, error) {
+func (c *current) onListContinuationElement376() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement369() (interface{}, error) {
+func (p *parser) callonListContinuationElement376() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement369()
+	return p.cur.onListContinuationElement376()
 }
 
-func (c *current) onListContinuationElement357(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement364(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement357() (interface{}, error) {
+func (p *parser) callonListContinuationElement364() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement364(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement383(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement383() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement357(stack["delimiter"])
+	return p.cur.onListContinuationElement383(stack["end"])
 }
 
-func (c *current) onListContinuationElement290(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement290(start, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -64044,4791 +65916,5432 @@ func (c *current) onListContinuationElement290(delimiter, content interface{}) (
 func (p *parser) callonListContinuationElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement290(stack["start"], stack["content"])
 }
 
-func (c *current) onListContinuationElement384() (interface{}, error) {
+func (c *current) onListContinuationElement392() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384()
+	return p.cur.onListContinuationElement392()
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement398() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement398()
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement401() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement401() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement401()
 }
 
-func (c *current) onListContinuationElement381(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement389(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement381() (interface{}, error) {
+func (p *parser) callonListContinuationElement389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement381(stack["delimiter"])
+	return p.cur.onListContinuationElement389(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement400(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement408(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement400() (bool, error) {
+func (p *parser) callonListContinuationElement408() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement400(stack["start"])
+	return p.cur.onListContinuationElement408(stack["start"])
 }
 
-func (c *current) onListContinuationElement412() (interface{}, error) {
+func (c *current) onListContinuationElement420() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412()
+	return p.cur.onListContinuationElement420()
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement426() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement426()
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement429() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement429() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement429()
 }
 
-func (c *current) onListContinuationElement409(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement417(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["delimiter"])
+	return p.cur.onListContinuationElement417(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement428(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement436(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement428() (bool, error) {
+func (p *parser) callonListContinuationElement436() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement428(stack["end"])
+	return p.cur.onListContinuationElement436(stack["end"])
 }
 
-func (c *current) onListContinuationElement437() (interface{}, error) {
+func (c *current) onListContinuationElement445() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement437() (interface{}, error) {
+func (p *parser) callonListContinuationElement445() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437()
+	return p.cur.onListContinuationElement445()
 }
 
-func (c *current) onListContinuationElement441() (interface{}, error) {
+func (c *current) onListContinuationElement449() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement449() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441()
+	return p.cur.onListContinuationElement449()
 }
 
-func (c *current) onListContinuationElement432(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement440(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement432() (interface{}, error) {
+func (p *parser) callonListContinuationElement440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement432(stack["content"])
+	return p.cur.onListContinuationElement440(stack["content"])
 }
 
-func (c *current) onListContinuationElement403(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement411(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement403() (interface{}, error) {
+func (p *parser) callonListContinuationElement411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement403(stack["line"])
+	return p.cur.onListContinuationElement411(stack["line"])
 }
 
-func (c *current) onListContinuationElement456() (interface{}, error) {
+func (c *current) onListContinuationElement464() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement456() (interface{}, error) {
+func (p *parser) callonListContinuationElement464() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement464()
+}
+
+func (c *current) onListContinuationElement470() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement470() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement470()
+}
+
+func (c *current) onListContinuationElement473() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement473() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement473()
+}
+
+func (c *current) onListContinuationElement461(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement461() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement461(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement480(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement480() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement480(stack["end"])
+}
+
+func (c *current) onListContinuationElement386(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
+
+}
+
+func (p *parser) callonListContinuationElement386() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement386(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onListContinuationElement490() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement490() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement490()
+}
+
+func (c *current) onListContinuationElement494() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement494() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement494()
+}
+
+func (c *current) onListContinuationElement497() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement497() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement497()
+}
+
+func (c *current) onListContinuationElement486(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+}
+
+func (p *parser) callonListContinuationElement486() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement486(stack["language"])
+}
+
+func (c *current) onListContinuationElement512() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement512() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement512()
+}
+
+func (c *current) onListContinuationElement515() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement515() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement515()
+}
+
+func (c *current) onListContinuationElement528() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement528() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement528()
+}
+
+func (c *current) onListContinuationElement532() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement532() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement532()
+}
+
+func (c *current) onListContinuationElement523(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement523() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement523(stack["content"])
+}
+
+func (c *current) onListContinuationElement506(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonListContinuationElement506() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement506(stack["line"])
+}
+
+func (c *current) onListContinuationElement543() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement543() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement543()
+}
+
+func (c *current) onListContinuationElement546() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement546() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement546()
+}
+
+func (c *current) onListContinuationElement483(delimiter, content interface{}) (interface{}, error) {
+	// Markdown code with fences is a "listing/source" block in Asciidoc
+	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
+	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
+	return b, err
+
+}
+
+func (p *parser) callonListContinuationElement483() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement483(stack["delimiter"], stack["content"])
+}
+
+func (c *current) onListContinuationElement559() (interface{}, error) {
+	// sequence of 3 "`" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement456()
+	return p.cur.onListContinuationElement559()
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement565() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement565() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement565()
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement568() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement568() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement568()
 }
 
-func (c *current) onListContinuationElement453(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement556(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement453() (interface{}, error) {
+func (p *parser) callonListContinuationElement556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement453(stack["delimiter"])
+	return p.cur.onListContinuationElement556(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement472(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement575(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement472() (bool, error) {
+func (p *parser) callonListContinuationElement575() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement472(stack["end"])
+	return p.cur.onListContinuationElement575(stack["start"])
 }
 
-func (c *current) onListContinuationElement378(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
+func (c *current) onListContinuationElement587() (interface{}, error) {
+	// sequence of 3 "`" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement378() (interface{}, error) {
+func (p *parser) callonListContinuationElement587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement378(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement587()
 }
 
-func (c *current) onListContinuationElement482() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onListContinuationElement593() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement482() (interface{}, error) {
+func (p *parser) callonListContinuationElement593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement482()
+	return p.cur.onListContinuationElement593()
 }
 
-func (c *current) onListContinuationElement486() (interface{}, error) {
-
+func (c *current) onListContinuationElement596() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement486() (interface{}, error) {
+func (p *parser) callonListContinuationElement596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement486()
+	return p.cur.onListContinuationElement596()
 }
 
-func (c *current) onListContinuationElement489() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement584(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement489() (interface{}, error) {
+func (p *parser) callonListContinuationElement584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement489()
+	return p.cur.onListContinuationElement584(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement478(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onListContinuationElement603(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
 }
 
-func (p *parser) callonListContinuationElement478() (interface{}, error) {
+func (p *parser) callonListContinuationElement603() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["language"])
+	return p.cur.onListContinuationElement603(stack["end"])
 }
 
-func (c *current) onListContinuationElement504() (interface{}, error) {
+func (c *current) onListContinuationElement612() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504()
+	return p.cur.onListContinuationElement612()
 }
 
-func (c *current) onListContinuationElement507() (interface{}, error) {
+func (c *current) onListContinuationElement616() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507()
+	return p.cur.onListContinuationElement616()
 }
 
-func (c *current) onListContinuationElement520() (interface{}, error) {
+func (c *current) onListContinuationElement607(content interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement520() (interface{}, error) {
+func (p *parser) callonListContinuationElement607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement520()
+	return p.cur.onListContinuationElement607(stack["content"])
 }
 
-func (c *current) onListContinuationElement524() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement578(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonListContinuationElement578() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement578(stack["line"])
+}
+
+func (c *current) onListContinuationElement631() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524()
+	return p.cur.onListContinuationElement631()
 }
 
-func (c *current) onListContinuationElement515(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement637() (interface{}, error) {
 
-	return types.NewRawLine(content.(string))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement515() (interface{}, error) {
+func (p *parser) callonListContinuationElement637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement515(stack["content"])
+	return p.cur.onListContinuationElement637()
 }
 
-func (c *current) onListContinuationElement498(line interface{}) (interface{}, error) {
-	return line, nil
-
+func (c *current) onListContinuationElement640() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498(stack["line"])
+	return p.cur.onListContinuationElement640()
 }
 
-func (c *current) onListContinuationElement535() (interface{}, error) {
+func (c *current) onListContinuationElement628(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement535() (interface{}, error) {
+func (p *parser) callonListContinuationElement628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement535()
+	return p.cur.onListContinuationElement628(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement538() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement647(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
 }
 
-func (p *parser) callonListContinuationElement538() (interface{}, error) {
+func (p *parser) callonListContinuationElement647() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement538()
+	return p.cur.onListContinuationElement647(stack["end"])
 }
 
-func (c *current) onListContinuationElement475(delimiter, content interface{}) (interface{}, error) {
-	// Markdown code with fences is a "listing/source" block in Asciidoc
-	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
-	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
-	return b, err
+func (c *current) onListContinuationElement553(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement475() (interface{}, error) {
+func (p *parser) callonListContinuationElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement475(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement553(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement551() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onListContinuationElement656() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551()
+	return p.cur.onListContinuationElement656()
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement662() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement662()
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement665() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement665()
 }
 
-func (c *current) onListContinuationElement548(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement653(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement548() (interface{}, error) {
+func (p *parser) callonListContinuationElement653() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement548(stack["delimiter"])
+	return p.cur.onListContinuationElement653(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement567(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement672(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement567() (bool, error) {
+func (p *parser) callonListContinuationElement672() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement567(stack["start"])
+	return p.cur.onListContinuationElement672(stack["start"])
 }
 
-func (c *current) onListContinuationElement579() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onListContinuationElement684() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579()
+	return p.cur.onListContinuationElement684()
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement690() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement690()
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement693() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement693() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement693()
 }
 
-func (c *current) onListContinuationElement576(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement681(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["delimiter"])
+	return p.cur.onListContinuationElement681(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement595(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement700(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement595() (bool, error) {
+func (p *parser) callonListContinuationElement700() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement595(stack["end"])
+	return p.cur.onListContinuationElement700(stack["end"])
 }
 
-func (c *current) onListContinuationElement604() (interface{}, error) {
+func (c *current) onListContinuationElement709() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement604() (interface{}, error) {
+func (p *parser) callonListContinuationElement709() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604()
+	return p.cur.onListContinuationElement709()
 }
 
-func (c *current) onListContinuationElement608() (interface{}, error) {
+func (c *current) onListContinuationElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608()
+	return p.cur.onListContinuationElement713()
 }
 
-func (c *current) onListContinuationElement599(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement704(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement599() (interface{}, error) {
+func (p *parser) callonListContinuationElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement599(stack["content"])
+	return p.cur.onListContinuationElement704(stack["content"])
 }
 
-func (c *current) onListContinuationElement570(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement675(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement570() (interface{}, error) {
+func (p *parser) callonListContinuationElement675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement570(stack["line"])
+	return p.cur.onListContinuationElement675(stack["line"])
 }
 
-func (c *current) onListContinuationElement623() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onListContinuationElement728() (interface{}, error) {
+	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement623() (interface{}, error) {
+func (p *parser) callonListContinuationElement728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement623()
+	return p.cur.onListContinuationElement728()
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement734() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement734()
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement737() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement737()
 }
 
-func (c *current) onListContinuationElement620(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement725(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement620() (interface{}, error) {
+func (p *parser) callonListContinuationElement725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement620(stack["delimiter"])
+	return p.cur.onListContinuationElement725(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement639(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement744(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement639() (bool, error) {
+func (p *parser) callonListContinuationElement744() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement639(stack["end"])
+	return p.cur.onListContinuationElement744(stack["end"])
 }
 
-func (c *current) onListContinuationElement545(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
+func (c *current) onListContinuationElement650(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement545() (interface{}, error) {
+func (p *parser) callonListContinuationElement650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement545(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement650(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement648() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onListContinuationElement753() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648()
+	return p.cur.onListContinuationElement753()
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement759() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement759()
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement762() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement762()
 }
 
-func (c *current) onListContinuationElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement750(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement645() (interface{}, error) {
+func (p *parser) callonListContinuationElement750() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["delimiter"])
+	return p.cur.onListContinuationElement750(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement664(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement769(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement664() (bool, error) {
+func (p *parser) callonListContinuationElement769() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement664(stack["start"])
+	return p.cur.onListContinuationElement769(stack["start"])
 }
 
-func (c *current) onListContinuationElement676() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onListContinuationElement781() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676()
+	return p.cur.onListContinuationElement781()
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement787() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement787()
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement790() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement790()
 }
 
-func (c *current) onListContinuationElement673(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement778(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["delimiter"])
+	return p.cur.onListContinuationElement778(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement692(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement797(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement692() (bool, error) {
+func (p *parser) callonListContinuationElement797() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement692(stack["end"])
+	return p.cur.onListContinuationElement797(stack["end"])
 }
 
-func (c *current) onListContinuationElement701() (interface{}, error) {
+func (c *current) onListContinuationElement806() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement701() (interface{}, error) {
+func (p *parser) callonListContinuationElement806() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701()
+	return p.cur.onListContinuationElement806()
 }
 
-func (c *current) onListContinuationElement705() (interface{}, error) {
+func (c *current) onListContinuationElement810() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement810() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705()
+	return p.cur.onListContinuationElement810()
 }
 
-func (c *current) onListContinuationElement696(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement801(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement696() (interface{}, error) {
+func (p *parser) callonListContinuationElement801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement696(stack["content"])
+	return p.cur.onListContinuationElement801(stack["content"])
 }
 
-func (c *current) onListContinuationElement667(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement772(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement667() (interface{}, error) {
+func (p *parser) callonListContinuationElement772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement667(stack["line"])
+	return p.cur.onListContinuationElement772(stack["line"])
 }
 
-func (c *current) onListContinuationElement720() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onListContinuationElement825() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement720() (interface{}, error) {
+func (p *parser) callonListContinuationElement825() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement720()
+	return p.cur.onListContinuationElement825()
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement831() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement831()
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement834() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement834() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement834()
 }
 
-func (c *current) onListContinuationElement717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement822(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement717() (interface{}, error) {
+func (p *parser) callonListContinuationElement822() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement717(stack["delimiter"])
+	return p.cur.onListContinuationElement822(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement736(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement841(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement736() (bool, error) {
+func (p *parser) callonListContinuationElement841() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement736(stack["end"])
+	return p.cur.onListContinuationElement841(stack["end"])
 }
 
-func (c *current) onListContinuationElement642(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
+func (c *current) onListContinuationElement747(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement642() (interface{}, error) {
+func (p *parser) callonListContinuationElement747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement642(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement747(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement745() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onListContinuationElement855() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement855() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement855()
+}
+
+func (c *current) onListContinuationElement858() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement858() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement858()
+}
+
+func (c *current) onListContinuationElement850() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745()
+	return p.cur.onListContinuationElement850()
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement867() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement867()
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement871() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement871()
 }
 
-func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement847(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+}
+
+func (p *parser) callonListContinuationElement847() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement847(stack["content"])
+}
+
+func (c *current) onListContinuationElement889() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement742() (interface{}, error) {
+func (p *parser) callonListContinuationElement889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["delimiter"])
+	return p.cur.onListContinuationElement889()
 }
 
-func (c *current) onListContinuationElement761(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement892() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement892() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement892()
+}
+
+func (c *current) onListContinuationElement884() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement761() (bool, error) {
+func (p *parser) callonListContinuationElement884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement761(stack["start"])
+	return p.cur.onListContinuationElement884()
 }
 
-func (c *current) onListContinuationElement773() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onListContinuationElement901() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement901() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement901()
+}
+
+func (c *current) onListContinuationElement905() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement905() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement905()
+}
+
+func (c *current) onListContinuationElement881(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement881() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement881(stack["content"])
+}
+
+func (c *current) onListContinuationElement915() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement915() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement915()
+}
+
+func (c *current) onListContinuationElement918(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+
+}
+
+func (p *parser) callonListContinuationElement918() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement918(stack["content"])
+}
+
+func (c *current) onListContinuationElement920() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement920() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement920()
+}
+
+func (c *current) onListContinuationElement912(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement912() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement912(stack["content"])
+}
+
+func (c *current) onListContinuationElement844(firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
+
+}
+
+func (p *parser) callonListContinuationElement844() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement844(stack["firstLine"], stack["otherLines"])
+}
+
+func (c *current) onListContinuationElement933() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement933() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement933()
+}
+
+func (c *current) onListContinuationElement936() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement936() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement936()
+}
+
+func (c *current) onListContinuationElement939() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement939() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement939()
+}
+
+func (c *current) onListContinuationElement930(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement930() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement930(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement955() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement955() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement955()
+}
+
+func (c *current) onListContinuationElement958() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement958() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement958()
+}
+
+func (c *current) onListContinuationElement961() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement961() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement961()
+}
+
+func (c *current) onListContinuationElement952(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement952() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773()
+	return p.cur.onListContinuationElement952(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement976() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement976() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement976()
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement980() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement980() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement980()
 }
 
-func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement971(content interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement971() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["delimiter"])
+	return p.cur.onListContinuationElement971(stack["content"])
 }
 
-func (c *current) onListContinuationElement789(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement948(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement789() (bool, error) {
+func (p *parser) callonListContinuationElement948() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement789(stack["end"])
+	return p.cur.onListContinuationElement948(stack["line"])
 }
 
-func (c *current) onListContinuationElement798() (interface{}, error) {
+func (c *current) onListContinuationElement993() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement993() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement993()
+}
+
+func (c *current) onListContinuationElement996() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement798() (interface{}, error) {
+func (p *parser) callonListContinuationElement996() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798()
+	return p.cur.onListContinuationElement996()
 }
 
-func (c *current) onListContinuationElement802() (interface{}, error) {
+func (c *current) onListContinuationElement999() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement999() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802()
+	return p.cur.onListContinuationElement999()
 }
 
-func (c *current) onListContinuationElement793(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement990(delimiter interface{}) (interface{}, error) {
 
-	return types.NewRawLine(content.(string))
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement793() (interface{}, error) {
+func (p *parser) callonListContinuationElement990() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement793(stack["content"])
+	return p.cur.onListContinuationElement990(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement764(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onListContinuationElement927(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement764() (interface{}, error) {
+func (p *parser) callonListContinuationElement927() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement764(stack["line"])
+	return p.cur.onListContinuationElement927(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement817() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onListContinuationElement1014() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1014() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement817()
+	return p.cur.onListContinuationElement1014()
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement1020() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1020() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement1020()
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement1023() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1023() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement1023()
 }
 
-func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1011(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1011() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement814(stack["delimiter"])
+	return p.cur.onListContinuationElement1011(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement833(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement1030(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement833() (bool, error) {
+func (p *parser) callonListContinuationElement1030() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement833(stack["end"])
+	return p.cur.onListContinuationElement1030(stack["start"])
 }
 
-func (c *current) onListContinuationElement739(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
+func (c *current) onListContinuationElement1042() (interface{}, error) {
+	// sequence of 4 "+" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1042() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement739(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1042()
 }
 
-func (c *current) onListContinuationElement847() (interface{}, error) {
+func (c *current) onListContinuationElement1048() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement847() (interface{}, error) {
+func (p *parser) callonListContinuationElement1048() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement847()
+	return p.cur.onListContinuationElement1048()
 }
 
-func (c *current) onListContinuationElement850() (interface{}, error) {
+func (c *current) onListContinuationElement1051() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement850() (interface{}, error) {
+func (p *parser) callonListContinuationElement1051() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement850()
+	return p.cur.onListContinuationElement1051()
 }
 
-func (c *current) onListContinuationElement842() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1039(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1039() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842()
+	return p.cur.onListContinuationElement1039(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1058(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement1058() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement1058(stack["end"])
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1067() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
+func (p *parser) callonListContinuationElement1067() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement863()
+	return p.cur.onListContinuationElement1067()
 }
 
-func (c *current) onListContinuationElement839(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
-
+func (c *current) onListContinuationElement1071() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1071() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["content"])
+	return p.cur.onListContinuationElement1071()
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement1062(content interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement1062() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement1062(stack["content"])
 }
 
-func (c *current) onListContinuationElement884() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1033(line interface{}) (interface{}, error) {
+	return line, nil
+
 }
 
-func (p *parser) callonListContinuationElement884() (interface{}, error) {
+func (p *parser) callonListContinuationElement1033() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement884()
+	return p.cur.onListContinuationElement1033(stack["line"])
 }
 
-func (c *current) onListContinuationElement876() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1086() (interface{}, error) {
+	// sequence of 4 "+" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement876() (interface{}, error) {
+func (p *parser) callonListContinuationElement1086() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement876()
+	return p.cur.onListContinuationElement1086()
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement1092() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement893() (interface{}, error) {
+func (p *parser) callonListContinuationElement1092() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement893()
+	return p.cur.onListContinuationElement1092()
 }
 
-func (c *current) onListContinuationElement897() (interface{}, error) {
+func (c *current) onListContinuationElement1095() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement897() (interface{}, error) {
+func (p *parser) callonListContinuationElement1095() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement897()
+	return p.cur.onListContinuationElement1095()
 }
 
-func (c *current) onListContinuationElement873(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1083(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1083() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873(stack["content"])
+	return p.cur.onListContinuationElement1083(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement907() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1102(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1102() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement907()
+	return p.cur.onListContinuationElement1102(stack["end"])
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onListContinuationElement1008(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement910() (bool, error) {
+func (p *parser) callonListContinuationElement1008() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement1008(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement912() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1111() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement912() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement912()
-}
-
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement1111()
 }
 
-func (c *current) onListContinuationElement836(firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
+func (c *current) onListContinuationElement1117() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement836(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement1117()
 }
 
-func (c *current) onListContinuationElement925() (interface{}, error) {
-	// sequence of exactly "--"
+func (c *current) onListContinuationElement1120() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement1120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925()
+	return p.cur.onListContinuationElement1120()
 }
 
-func (c *current) onListContinuationElement928() (interface{}, error) {
+func (c *current) onListContinuationElement1108(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement1108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928()
+	return p.cur.onListContinuationElement1108(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1127(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement1127() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement1127(stack["start"])
 }
 
-func (c *current) onListContinuationElement922(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+func (c *current) onListContinuationElement1139() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement922() (interface{}, error) {
+func (p *parser) callonListContinuationElement1139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement922(stack["delimiter"])
+	return p.cur.onListContinuationElement1139()
 }
 
-func (c *current) onListContinuationElement947() (interface{}, error) {
-	// sequence of exactly "--"
+func (c *current) onListContinuationElement1145() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement947() (interface{}, error) {
+func (p *parser) callonListContinuationElement1145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement947()
+	return p.cur.onListContinuationElement1145()
 }
 
-func (c *current) onListContinuationElement950() (interface{}, error) {
-
+func (c *current) onListContinuationElement1148() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement1148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950()
+	return p.cur.onListContinuationElement1148()
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1136(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement1136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement1136(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement944(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+func (c *current) onListContinuationElement1155(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement944() (interface{}, error) {
+func (p *parser) callonListContinuationElement1155() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement944(stack["delimiter"])
+	return p.cur.onListContinuationElement1155(stack["end"])
 }
 
-func (c *current) onListContinuationElement968() (interface{}, error) {
+func (c *current) onListContinuationElement1164() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement968() (interface{}, error) {
+func (p *parser) callonListContinuationElement1164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement968()
+	return p.cur.onListContinuationElement1164()
 }
 
-func (c *current) onListContinuationElement972() (interface{}, error) {
+func (c *current) onListContinuationElement1168() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement1168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972()
+	return p.cur.onListContinuationElement1168()
 }
 
-func (c *current) onListContinuationElement963(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1159(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement963() (interface{}, error) {
+func (p *parser) callonListContinuationElement1159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement963(stack["content"])
+	return p.cur.onListContinuationElement1159(stack["content"])
 }
 
-func (c *current) onListContinuationElement940(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1130(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement1130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940(stack["line"])
+	return p.cur.onListContinuationElement1130(stack["line"])
 }
 
-func (c *current) onListContinuationElement985() (interface{}, error) {
-	// sequence of exactly "--"
+func (c *current) onListContinuationElement1183() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement985() (interface{}, error) {
+func (p *parser) callonListContinuationElement1183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement985()
+	return p.cur.onListContinuationElement1183()
 }
 
-func (c *current) onListContinuationElement988() (interface{}, error) {
+func (c *current) onListContinuationElement1189() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement1189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988()
+	return p.cur.onListContinuationElement1189()
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement1192() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement1192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement1192()
 }
 
-func (c *current) onListContinuationElement982(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1180(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement982() (interface{}, error) {
+func (p *parser) callonListContinuationElement1180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement982(stack["delimiter"])
+	return p.cur.onListContinuationElement1180(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement919(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
+func (c *current) onListContinuationElement1199(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement919() (interface{}, error) {
+func (p *parser) callonListContinuationElement1199() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1199(stack["end"])
 }
 
-func (c *current) onListContinuationElement1006() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onListContinuationElement1105(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+
+}
+
+func (p *parser) callonListContinuationElement1105() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1105(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onListContinuationElement1208() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006()
+	return p.cur.onListContinuationElement1208()
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1214() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1214()
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1217() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1217()
 }
 
-func (c *current) onListContinuationElement1003(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1205(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1003() (interface{}, error) {
+func (p *parser) callonListContinuationElement1205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1003(stack["delimiter"])
+	return p.cur.onListContinuationElement1205(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1022(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1224(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1022() (bool, error) {
+func (p *parser) callonListContinuationElement1224() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1022(stack["start"])
+	return p.cur.onListContinuationElement1224(stack["start"])
 }
 
-func (c *current) onListContinuationElement1034() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onListContinuationElement1236() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034()
+	return p.cur.onListContinuationElement1236()
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1242() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1242()
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1245() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1245()
 }
 
-func (c *current) onListContinuationElement1031(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1233(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["delimiter"])
+	return p.cur.onListContinuationElement1233(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1050(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1252(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1050() (bool, error) {
+func (p *parser) callonListContinuationElement1252() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1050(stack["end"])
+	return p.cur.onListContinuationElement1252(stack["end"])
 }
 
-func (c *current) onListContinuationElement1059() (interface{}, error) {
+func (c *current) onListContinuationElement1261() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1059() (interface{}, error) {
+func (p *parser) callonListContinuationElement1261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059()
+	return p.cur.onListContinuationElement1261()
 }
 
-func (c *current) onListContinuationElement1063() (interface{}, error) {
+func (c *current) onListContinuationElement1265() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063()
+	return p.cur.onListContinuationElement1265()
 }
 
-func (c *current) onListContinuationElement1054(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1256(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054(stack["content"])
+	return p.cur.onListContinuationElement1256(stack["content"])
 }
 
-func (c *current) onListContinuationElement1025(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1227(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1025() (interface{}, error) {
+func (p *parser) callonListContinuationElement1227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1025(stack["line"])
+	return p.cur.onListContinuationElement1227(stack["line"])
 }
 
-func (c *current) onListContinuationElement1078() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onListContinuationElement1280() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1078() (interface{}, error) {
+func (p *parser) callonListContinuationElement1280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1078()
+	return p.cur.onListContinuationElement1280()
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1286()
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1289()
 }
 
-func (c *current) onListContinuationElement1075(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1277(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
+func (p *parser) callonListContinuationElement1277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1075(stack["delimiter"])
+	return p.cur.onListContinuationElement1277(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1094(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1296(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1094() (bool, error) {
+func (p *parser) callonListContinuationElement1296() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["end"])
+	return p.cur.onListContinuationElement1296(stack["end"])
 }
 
-func (c *current) onListContinuationElement1000(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
+func (c *current) onListContinuationElement1202(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1202(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1304() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1304() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1304()
+}
+
+func (c *current) onListContinuationElement1307() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1307()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1323() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1323() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1323()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1326() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1326()
 }
 
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1335() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+func (p *parser) callonListContinuationElement1335() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1335()
+}
+
+func (c *current) onListContinuationElement1299() (interface{}, error) {
+	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
+func (p *parser) callonListContinuationElement1299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
+	return p.cur.onListContinuationElement1299()
 }
 
-func (c *current) onListContinuationElement1119(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement1347() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["start"])
+	return p.cur.onListContinuationElement1347()
 }
 
-func (c *current) onListContinuationElement1131() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1350() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131()
+	return p.cur.onListContinuationElement1350()
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1365() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1365() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1365()
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1368() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1368() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1368()
 }
 
-func (c *current) onListContinuationElement1128(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+func (c *current) onListContinuationElement1360() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["delimiter"])
+	return p.cur.onListContinuationElement1360()
 }
 
-func (c *current) onListContinuationElement1147(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement1382() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1147() (bool, error) {
+func (p *parser) callonListContinuationElement1382() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1382()
+}
+
+func (c *current) onListContinuationElement1385() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147(stack["end"])
+	return p.cur.onListContinuationElement1385()
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1407() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1407()
 }
 
-func (c *current) onListContinuationElement1160() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1412() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160()
+	return p.cur.onListContinuationElement1412()
 }
 
-func (c *current) onListContinuationElement1151(content interface{}) (interface{}, error) {
-
+func (c *current) onListContinuationElement1410(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1151() (interface{}, error) {
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1151(stack["content"])
+	return p.cur.onListContinuationElement1410(stack["content"])
 }
 
-func (c *current) onListContinuationElement1122(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onListContinuationElement1403(content interface{}) (interface{}, error) {
+	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1122() (interface{}, error) {
+func (p *parser) callonListContinuationElement1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1122(stack["line"])
+	return p.cur.onListContinuationElement1403(stack["content"])
 }
 
-func (c *current) onListContinuationElement1175() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1416() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
 
+func (p *parser) callonListContinuationElement1416() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1416()
+}
+
+func (c *current) onListContinuationElement1399(cells interface{}) (interface{}, error) {
+
+	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1175() (interface{}, error) {
+func (p *parser) callonListContinuationElement1399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1175()
+	return p.cur.onListContinuationElement1399(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1433() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1433()
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1436() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1436() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1436()
 }
 
-func (c *current) onListContinuationElement1172(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1451() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1451() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172(stack["delimiter"])
+	return p.cur.onListContinuationElement1451()
 }
 
-func (c *current) onListContinuationElement1191(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
+func (c *current) onListContinuationElement1454() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1191() (bool, error) {
+func (p *parser) callonListContinuationElement1454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["end"])
+	return p.cur.onListContinuationElement1454()
 }
 
-func (c *current) onListContinuationElement1097(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+func (c *current) onListContinuationElement1446() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1097() (interface{}, error) {
+func (p *parser) callonListContinuationElement1446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1097(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1446()
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onListContinuationElement1463() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1463()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1468() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1468()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1471() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1471()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1485() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1485() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1485()
 }
 
-func (c *current) onListContinuationElement1216(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement1488() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1488() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1488()
+}
+
+func (c *current) onListContinuationElement1503() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1503() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["start"])
+	return p.cur.onListContinuationElement1503()
 }
 
-func (c *current) onListContinuationElement1228() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onListContinuationElement1506() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1506() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1506()
+}
+
+func (c *current) onListContinuationElement1498() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228()
+	return p.cur.onListContinuationElement1498()
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1517() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1517()
+}
 
+func (c *current) onListContinuationElement1522() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1522()
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1527() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1527() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1527()
 }
 
-func (c *current) onListContinuationElement1225(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1478(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+}
+
+func (p *parser) callonListContinuationElement1478() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1478(stack["content"])
+}
+
+func (c *current) onListContinuationElement1426(format, content interface{}) (interface{}, error) {
+	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["delimiter"])
+	return p.cur.onListContinuationElement1426(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1244(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onListContinuationElement1423(cells interface{}) (interface{}, error) {
+	return cells, nil
+}
+
+func (p *parser) callonListContinuationElement1423() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1423(stack["cells"])
+}
+
+func (c *current) onListContinuationElement1396(cells interface{}) (interface{}, error) {
+	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1244() (bool, error) {
+func (p *parser) callonListContinuationElement1396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244(stack["end"])
+	return p.cur.onListContinuationElement1396(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1539() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1539() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1539()
 }
 
-func (c *current) onListContinuationElement1257() (interface{}, error) {
+func (c *current) onListContinuationElement1542() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1542() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257()
+	return p.cur.onListContinuationElement1542()
 }
 
-func (c *current) onListContinuationElement1248(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1534() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1248() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1248(stack["content"])
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1219(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onListContinuationElement1375(content interface{}) (interface{}, error) {
+	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1219() (interface{}, error) {
+func (p *parser) callonListContinuationElement1375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1219(stack["line"])
+	return p.cur.onListContinuationElement1375(stack["content"])
 }
 
-func (c *current) onListContinuationElement1272() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onListContinuationElement1553() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+func (p *parser) callonListContinuationElement1553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1272()
+	return p.cur.onListContinuationElement1553()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
-
+func (c *current) onListContinuationElement1556() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1556()
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1343(lines interface{}) (interface{}, error) {
+	return types.NewTable(lines.([]interface{}))
+
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1343() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1343(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1269(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1571() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269(stack["delimiter"])
+	return p.cur.onListContinuationElement1571()
 }
 
-func (c *current) onListContinuationElement1288(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
-
+func (c *current) onListContinuationElement1575() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1288() (bool, error) {
+func (p *parser) callonListContinuationElement1575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["end"])
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1194(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+func (c *current) onListContinuationElement1565(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1194() (interface{}, error) {
+func (p *parser) callonListContinuationElement1565() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1565(stack["content"])
 }
 
-func (c *current) onListContinuationElement1296() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1588() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1296() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1296()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1299() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1591() (interface{}, error) {
+	return types.Tip, nil
+
 }
 
-func (p *parser) callonListContinuationElement1299() (interface{}, error) {
+func (p *parser) callonListContinuationElement1591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1299()
+	return p.cur.onListContinuationElement1591()
 }
 
-func (c *current) onListContinuationElement1315() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1593() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1315() (interface{}, error) {
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1315()
+	return p.cur.onListContinuationElement1593()
 }
 
-func (c *current) onListContinuationElement1318() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1595() (interface{}, error) {
+	return types.Important, nil
+
 }
 
-func (p *parser) callonListContinuationElement1318() (interface{}, error) {
+func (p *parser) callonListContinuationElement1595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1318()
+	return p.cur.onListContinuationElement1595()
 }
 
-func (c *current) onListContinuationElement1327() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1597() (interface{}, error) {
+	return types.Warning, nil
+
 }
 
-func (p *parser) callonListContinuationElement1327() (interface{}, error) {
+func (p *parser) callonListContinuationElement1597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1327()
+	return p.cur.onListContinuationElement1597()
 }
 
-func (c *current) onListContinuationElement1291() (interface{}, error) {
-	return types.NewThematicBreak()
+func (c *current) onListContinuationElement1599() (interface{}, error) {
+	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1291() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1291()
+	return p.cur.onListContinuationElement1599()
 }
 
-func (c *current) onListContinuationElement1339() (interface{}, error) {
-
+func (c *current) onListContinuationElement1603() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1339() (interface{}, error) {
+func (p *parser) callonListContinuationElement1603() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1339()
+	return p.cur.onListContinuationElement1603()
 }
 
-func (c *current) onListContinuationElement1342() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1601() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
+
 }
 
-func (p *parser) callonListContinuationElement1342() (interface{}, error) {
+func (p *parser) callonListContinuationElement1601() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1342()
+	return p.cur.onListContinuationElement1601()
 }
 
-func (c *current) onListContinuationElement1357() (interface{}, error) {
+func (c *current) onListContinuationElement1586(style interface{}) (interface{}, error) {
+	return style, nil
+
+}
+
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1586(stack["style"])
+}
+
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1357() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1357()
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1352() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1352()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1374() (interface{}, error) {
+func (c *current) onListContinuationElement1629() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374()
+	return p.cur.onListContinuationElement1629()
 }
 
-func (c *current) onListContinuationElement1377() (interface{}, error) {
+func (c *current) onListContinuationElement1631() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377()
+	return p.cur.onListContinuationElement1631()
 }
 
-func (c *current) onListContinuationElement1399() (interface{}, error) {
+func (c *current) onListContinuationElement1640() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1399() (interface{}, error) {
+func (p *parser) callonListContinuationElement1640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1399()
+	return p.cur.onListContinuationElement1640()
 }
 
-func (c *current) onListContinuationElement1404() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1647() (interface{}, error) {
+
+	// `.` is 1, etc.
+	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1402(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1650(depth interface{}) (bool, error) {
+
+	// use a predicate to make sure that only `.` to `.....` are allowed
+	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1402() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1402(stack["content"])
+	return p.cur.onListContinuationElement1650(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1395(content interface{}) (interface{}, error) {
-	return types.NewInlineTableCell(content.(*types.RawLine))
+func (c *current) onListContinuationElement1644(depth interface{}) (interface{}, error) {
+	switch depth.(int) {
+	case 1:
+		return types.NewOrderedListElementPrefix(types.Arabic)
+	case 2:
+		return types.NewOrderedListElementPrefix(types.LowerAlpha)
+	case 3:
+		return types.NewOrderedListElementPrefix(types.LowerRoman)
+	case 4:
+		return types.NewOrderedListElementPrefix(types.UpperAlpha)
+	default:
+		return types.NewOrderedListElementPrefix(types.UpperRoman)
+	}
 
 }
 
-func (p *parser) callonListContinuationElement1395() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1395(stack["content"])
+	return p.cur.onListContinuationElement1644(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1408() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1651() (interface{}, error) {
+	// numbering style: "1.", etc.
+	return types.NewOrderedListElementPrefix(types.Arabic)
+
 }
 
-func (p *parser) callonListContinuationElement1408() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1408()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1391(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
+	// numbering style: "a.", etc.
+	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
-	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1391(stack["cells"])
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1425() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1660() (interface{}, error) {
+	// numbering style: "A.", etc.
+	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1425() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1425()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1428() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1664() (interface{}, error) {
+	// numbering style: "i)", etc.
+	return types.NewOrderedListElementPrefix(types.LowerRoman)
+
 }
 
-func (p *parser) callonListContinuationElement1428() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1428()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1443() (interface{}, error) {
+func (c *current) onListContinuationElement1669() (interface{}, error) {
+	// numbering style: "I)", etc.
+	return types.NewOrderedListElementPrefix(types.UpperRoman)
+
+}
+
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1669()
+}
 
+func (c *current) onListContinuationElement1674(prefix interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1443() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1443()
+	return p.cur.onListContinuationElement1674(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1637(prefix interface{}) (interface{}, error) {
+	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1637(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1681() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1455() (interface{}, error) {
+func (c *current) onListContinuationElement1684() (interface{}, error) {
+	// `-` or `*` to `*****`
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1455() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1455()
+	return p.cur.onListContinuationElement1684()
 }
 
-func (c *current) onListContinuationElement1460() (interface{}, error) {
+func (c *current) onListContinuationElement1689(style interface{}) (bool, error) {
 
-	return string(c.text), nil
+	// use a predicate to make sure that only `*` to `*****` are allowed
+	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1460() (interface{}, error) {
+func (p *parser) callonListContinuationElement1689() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1460()
+	return p.cur.onListContinuationElement1689(stack["style"])
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1690(style interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1690(stack["style"])
 }
 
-func (c *current) onListContinuationElement1477() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1678(style interface{}) (interface{}, error) {
+	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1477() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1477()
+	return p.cur.onListContinuationElement1678(stack["style"])
 }
 
-func (c *current) onListContinuationElement1480() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1698() (interface{}, error) {
+	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1480() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1480()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
-
+func (c *current) onListContinuationElement1702(ref interface{}) (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1702(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1498() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
+	return ref, nil
+
 }
 
-func (p *parser) callonListContinuationElement1498() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1498()
+	return p.cur.onListContinuationElement1694(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1714() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1714()
 }
 
-func (c *current) onListContinuationElement1509() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1717(separator interface{}) (bool, error) {
+
+	// use a predicate to make sure that separator is `::`, `:::` or `::::`
+	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
+
 }
 
-func (p *parser) callonListContinuationElement1509() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1509()
+	return p.cur.onListContinuationElement1717(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1514() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onListContinuationElement1711(separator interface{}) (interface{}, error) {
+	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1514() (interface{}, error) {
+func (p *parser) callonListContinuationElement1711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1514()
+	return p.cur.onListContinuationElement1711(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1519() (interface{}, error) {
+func (c *current) onListContinuationElement1720() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1519() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1519()
+	return p.cur.onListContinuationElement1720()
 }
 
-func (c *current) onListContinuationElement1470(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement1707() (interface{}, error) {
+	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1470() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1470(stack["content"])
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1418(format, content interface{}) (interface{}, error) {
-	return types.NewMultilineTableCell(content.([]interface{}), format)
+func (c *current) onListContinuationElement1731() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1418() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1418(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1731()
 }
 
-func (c *current) onListContinuationElement1415(cells interface{}) (interface{}, error) {
-	return cells, nil
+func (c *current) onListContinuationElement1734(separator interface{}) (bool, error) {
+
+	// use a predicate to make sure that separator is `::`, `:::` or `::::`
+	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
+
 }
 
-func (p *parser) callonListContinuationElement1415() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1415(stack["cells"])
+	return p.cur.onListContinuationElement1734(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1388(cells interface{}) (interface{}, error) {
-	return types.NewTableRow(cells.([]interface{}))
+func (c *current) onListContinuationElement1728(separator interface{}) (interface{}, error) {
+	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["cells"])
+	return p.cur.onListContinuationElement1728(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1736() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1736()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1738() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1738()
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1756() (interface{}, error) {
+	// sequence of 4 "/" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1756() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1756()
 }
 
-func (c *current) onListContinuationElement1367(content interface{}) (interface{}, error) {
-	return content, nil
+func (c *current) onListContinuationElement1762() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1367() (interface{}, error) {
+func (p *parser) callonListContinuationElement1762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1367(stack["content"])
+	return p.cur.onListContinuationElement1762()
 }
 
-func (c *current) onListContinuationElement1545() (interface{}, error) {
-
+func (c *current) onListContinuationElement1765() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1545() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1545()
+	return p.cur.onListContinuationElement1765()
 }
 
-func (c *current) onListContinuationElement1548() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onListContinuationElement1753(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonListContinuationElement1548() (interface{}, error) {
+func (p *parser) callonListContinuationElement1753() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1548()
+	return p.cur.onListContinuationElement1753(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1335(lines interface{}) (interface{}, error) {
-	return types.NewTable(lines.([]interface{}))
+func (c *current) onListContinuationElement1775() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1335() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1335(stack["lines"])
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1563() (interface{}, error) {
+func (c *current) onListContinuationElement1781() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1563() (interface{}, error) {
+func (p *parser) callonListContinuationElement1781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1563()
+	return p.cur.onListContinuationElement1781()
 }
 
-func (c *current) onListContinuationElement1567() (interface{}, error) {
+func (c *current) onListContinuationElement1784() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1567() (interface{}, error) {
+func (p *parser) callonListContinuationElement1784() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1567()
+	return p.cur.onListContinuationElement1784()
 }
 
-func (c *current) onListContinuationElement1557(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onListContinuationElement1772(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1557() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1557(stack["content"])
+	return p.cur.onListContinuationElement1772(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1580() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
-
+func (c *current) onListContinuationElement1795() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1580() (bool, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1580()
+	return p.cur.onListContinuationElement1795()
 }
 
-func (c *current) onListContinuationElement1583() (interface{}, error) {
-	return types.Tip, nil
+func (c *current) onListContinuationElement1799() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1583() (interface{}, error) {
+func (p *parser) callonListContinuationElement1799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1583()
+	return p.cur.onListContinuationElement1799()
 }
 
-func (c *current) onListContinuationElement1585() (interface{}, error) {
-	return types.Note, nil
-
+func (c *current) onListContinuationElement1802() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1802() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585()
+	return p.cur.onListContinuationElement1802()
 }
 
-func (c *current) onListContinuationElement1587() (interface{}, error) {
-	return types.Important, nil
-
+func (c *current) onListContinuationElement1791(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1587() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1587()
+	return p.cur.onListContinuationElement1791(stack["language"])
 }
 
-func (c *current) onListContinuationElement1589() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onListContinuationElement1812() (interface{}, error) {
+	// sequence of 3 "`" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1589() (interface{}, error) {
+func (p *parser) callonListContinuationElement1812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1589()
+	return p.cur.onListContinuationElement1812()
 }
 
-func (c *current) onListContinuationElement1591() (interface{}, error) {
-	return types.Caution, nil
+func (c *current) onListContinuationElement1818() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1591() (interface{}, error) {
+func (p *parser) callonListContinuationElement1818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1591()
+	return p.cur.onListContinuationElement1818()
 }
 
-func (c *current) onListContinuationElement1595() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onListContinuationElement1821() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1595() (interface{}, error) {
+func (p *parser) callonListContinuationElement1821() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1595()
+	return p.cur.onListContinuationElement1821()
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onListContinuationElement1809(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1809(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1578(style interface{}) (interface{}, error) {
-	return style, nil
+func (c *current) onListContinuationElement1831() (interface{}, error) {
+	// sequence of 4 "-" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1578() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1578(stack["style"])
+	return p.cur.onListContinuationElement1831()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1837() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1837()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1840() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1840() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1840()
 }
 
-func (c *current) onListContinuationElement1602() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1828(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+func (p *parser) callonListContinuationElement1828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1602()
+	return p.cur.onListContinuationElement1828(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1621() (interface{}, error) {
-
+func (c *current) onListContinuationElement1850() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1621() (interface{}, error) {
+func (p *parser) callonListContinuationElement1850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1621()
+	return p.cur.onListContinuationElement1850()
 }
 
-func (c *current) onListContinuationElement1623() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onListContinuationElement1856() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1623() (interface{}, error) {
+func (p *parser) callonListContinuationElement1856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1623()
+	return p.cur.onListContinuationElement1856()
 }
 
-func (c *current) onListContinuationElement1632() (interface{}, error) {
-
+func (c *current) onListContinuationElement1859() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1632() (interface{}, error) {
+func (p *parser) callonListContinuationElement1859() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1632()
+	return p.cur.onListContinuationElement1859()
 }
 
-func (c *current) onListContinuationElement1639() (interface{}, error) {
+func (c *current) onListContinuationElement1847(delimiter interface{}) (interface{}, error) {
 
-	// `.` is 1, etc.
-	return (len(c.text)), nil
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1639() (interface{}, error) {
+func (p *parser) callonListContinuationElement1847() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1639()
+	return p.cur.onListContinuationElement1847(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1642(depth interface{}) (bool, error) {
-
-	// use a predicate to make sure that only `.` to `.....` are allowed
-	return depth.(int) <= 5, nil
+func (c *current) onListContinuationElement1869() (interface{}, error) {
+	// sequence of 4 "+" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1642() (bool, error) {
+func (p *parser) callonListContinuationElement1869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642(stack["depth"])
+	return p.cur.onListContinuationElement1869()
 }
 
-func (c *current) onListContinuationElement1636(depth interface{}) (interface{}, error) {
-	switch depth.(int) {
-	case 1:
-		return types.NewOrderedListElementPrefix(types.Arabic)
-	case 2:
-		return types.NewOrderedListElementPrefix(types.LowerAlpha)
-	case 3:
-		return types.NewOrderedListElementPrefix(types.LowerRoman)
-	case 4:
-		return types.NewOrderedListElementPrefix(types.UpperAlpha)
-	default:
-		return types.NewOrderedListElementPrefix(types.UpperRoman)
-	}
+func (c *current) onListContinuationElement1875() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1636() (interface{}, error) {
+func (p *parser) callonListContinuationElement1875() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1636(stack["depth"])
+	return p.cur.onListContinuationElement1875()
 }
 
-func (c *current) onListContinuationElement1643() (interface{}, error) {
-	// numbering style: "1.", etc.
-	return types.NewOrderedListElementPrefix(types.Arabic)
-
+func (c *current) onListContinuationElement1878() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1643() (interface{}, error) {
+func (p *parser) callonListContinuationElement1878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1643()
+	return p.cur.onListContinuationElement1878()
 }
 
-func (c *current) onListContinuationElement1648() (interface{}, error) {
-	// numbering style: "a.", etc.
-	return types.NewOrderedListElementPrefix(types.LowerAlpha)
+func (c *current) onListContinuationElement1866(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1648() (interface{}, error) {
+func (p *parser) callonListContinuationElement1866() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1648()
+	return p.cur.onListContinuationElement1866(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1652() (interface{}, error) {
-	// numbering style: "A.", etc.
-	return types.NewOrderedListElementPrefix(types.UpperAlpha)
+func (c *current) onListContinuationElement1888() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652()
+	return p.cur.onListContinuationElement1888()
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
-	// numbering style: "i)", etc.
-	return types.NewOrderedListElementPrefix(types.LowerRoman)
+func (c *current) onListContinuationElement1894() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1661() (interface{}, error) {
-	// numbering style: "I)", etc.
-	return types.NewOrderedListElementPrefix(types.UpperRoman)
-
+func (c *current) onListContinuationElement1897() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661()
+	return p.cur.onListContinuationElement1897()
 }
 
-func (c *current) onListContinuationElement1666(prefix interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
-	return string(c.text), nil
+func (c *current) onListContinuationElement1885(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1666() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1666(stack["prefix"])
+	return p.cur.onListContinuationElement1885(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1629(prefix interface{}) (interface{}, error) {
-	return prefix, nil
+func (c *current) onListContinuationElement1907() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629(stack["prefix"])
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1673() (interface{}, error) {
+func (c *current) onListContinuationElement1913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1673() (interface{}, error) {
+func (p *parser) callonListContinuationElement1913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673()
+	return p.cur.onListContinuationElement1913()
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
-	// `-` or `*` to `*****`
+func (c *current) onListContinuationElement1916() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1916()
 }
 
-func (c *current) onListContinuationElement1681(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1904(delimiter interface{}) (interface{}, error) {
 
-	// use a predicate to make sure that only `*` to `*****` are allowed
-	return len(style.(string)) <= 5, nil
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1681() (bool, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681(stack["style"])
+	return p.cur.onListContinuationElement1904(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1682(style interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
-	return string(c.text), nil
+func (c *current) onListContinuationElement1747(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1682() (interface{}, error) {
+func (p *parser) callonListContinuationElement1747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1682(stack["style"])
+	return p.cur.onListContinuationElement1747(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1670(style interface{}) (interface{}, error) {
-	return types.NewUnorderedListElementPrefix(style.(string))
+func (c *current) onListContinuationElement1926() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1670() (interface{}, error) {
+func (p *parser) callonListContinuationElement1926() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1670(stack["style"])
+	return p.cur.onListContinuationElement1926()
 }
 
-func (c *current) onListContinuationElement1690() (interface{}, error) {
-	return strconv.Atoi(string(c.text))
+func (c *current) onListContinuationElement1929() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1690() (interface{}, error) {
+func (p *parser) callonListContinuationElement1929() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1690()
+	return p.cur.onListContinuationElement1929()
 }
 
-func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onListContinuationElement1932() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1932() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694(stack["ref"])
+	return p.cur.onListContinuationElement1932()
 }
 
-func (c *current) onListContinuationElement1686(ref interface{}) (interface{}, error) {
-	return ref, nil
+func (c *current) onListContinuationElement1923(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1686() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686(stack["ref"])
+	return p.cur.onListContinuationElement1923(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1706() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1709(separator interface{}) (bool, error) {
-
-	// use a predicate to make sure that separator is `::`, `:::` or `::::`
-	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
-
+func (c *current) onListContinuationElement1945() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1709() (bool, error) {
+func (p *parser) callonListContinuationElement1945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709(stack["separator"])
+	return p.cur.onListContinuationElement1945()
 }
 
-func (c *current) onListContinuationElement1703(separator interface{}) (interface{}, error) {
-	return separator, nil
+func (c *current) onListContinuationElement1953() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1703() (interface{}, error) {
+func (p *parser) callonListContinuationElement1953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1703(stack["separator"])
+	return p.cur.onListContinuationElement1953()
 }
 
-func (c *current) onListContinuationElement1712() (interface{}, error) {
+func (c *current) onListContinuationElement1957() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1712() (interface{}, error) {
+func (p *parser) callonListContinuationElement1957() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712()
+	return p.cur.onListContinuationElement1957()
 }
 
-func (c *current) onListContinuationElement1699() (interface{}, error) {
-	return types.NewRawLine(strings.TrimSpace(string(c.text)))
+func (c *current) onListContinuationElement1607(content interface{}) (interface{}, error) {
+	// do not retain the EOL chars
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1699() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1699()
+	return p.cur.onListContinuationElement1607(stack["content"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement1582(style, content interface{}) (interface{}, error) {
+	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1582(stack["style"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1726(separator interface{}) (bool, error) {
-
-	// use a predicate to make sure that separator is `::`, `:::` or `::::`
-	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
+func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
+	if element, ok := element.(types.WithAttributes); ok && attributes != nil {
+		element.AddAttributes(attributes.(types.Attributes))
+	}
+	return element, nil
 
 }
 
-func (p *parser) callonListContinuationElement1726() (bool, error) {
+func (p *parser) callonListContinuationElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1726(stack["separator"])
+	return p.cur.onListContinuationElement1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onListContinuationElement1720(separator interface{}) (interface{}, error) {
-	return separator, nil
+func (c *current) onCallout3() (bool, error) {
+	return c.isSubstitutionEnabled(Callouts), nil
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonCallout3() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["separator"])
+	return p.cur.onCallout3()
 }
 
-func (c *current) onListContinuationElement1728() (interface{}, error) {
-
-	return string(c.text), nil
-
+func (c *current) onCallout6() (interface{}, error) {
+	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonCallout6() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728()
+	return p.cur.onCallout6()
 }
 
-func (c *current) onListContinuationElement1730() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onCallout11() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1730() (interface{}, error) {
+func (p *parser) callonCallout11() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1730()
+	return p.cur.onCallout11()
 }
 
-func (c *current) onListContinuationElement1747() (interface{}, error) {
-	// sequence of 4 "/" chars or more
+func (c *current) onCallout15() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1747() (interface{}, error) {
+func (p *parser) callonCallout15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1747()
+	return p.cur.onCallout15()
 }
 
-func (c *current) onListContinuationElement1753() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onCallout1(ref interface{}) (interface{}, error) {
+	return types.NewCallout(ref.(int))
 
 }
 
-func (p *parser) callonListContinuationElement1753() (interface{}, error) {
+func (p *parser) callonCallout1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1753()
+	return p.cur.onCallout1(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1756() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onShortcutParagraph9() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonListContinuationElement1756() (interface{}, error) {
+func (p *parser) callonShortcutParagraph9() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1756()
+	return p.cur.onShortcutParagraph9()
 }
 
-func (c *current) onListContinuationElement1744(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph16() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1744() (interface{}, error) {
+func (p *parser) callonShortcutParagraph16() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1744(stack["delimiter"])
+	return p.cur.onShortcutParagraph16()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
-	// sequence of 4 "=" chars or more
-	return string(c.text), nil
+func (c *current) onShortcutParagraph19() (interface{}, error) {
+	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonShortcutParagraph19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onShortcutParagraph19()
 }
 
-func (c *current) onListContinuationElement1772() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph21() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonShortcutParagraph21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772()
+	return p.cur.onShortcutParagraph21()
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph23() (interface{}, error) {
+	return types.Important, nil
+
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonShortcutParagraph23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onShortcutParagraph23()
 }
 
-func (c *current) onListContinuationElement1763(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph25() (interface{}, error) {
+	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1763() (interface{}, error) {
+func (p *parser) callonShortcutParagraph25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1763(stack["delimiter"])
+	return p.cur.onShortcutParagraph25()
 }
 
-func (c *current) onListContinuationElement1786() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
-	return string(c.text), nil
+func (c *current) onShortcutParagraph27() (interface{}, error) {
+	return types.Caution, nil
+
 }
 
-func (p *parser) callonListContinuationElement1786() (interface{}, error) {
+func (p *parser) callonShortcutParagraph27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1786()
+	return p.cur.onShortcutParagraph27()
 }
 
-func (c *current) onListContinuationElement1790() (interface{}, error) {
-
+func (c *current) onShortcutParagraph31() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1790() (interface{}, error) {
+func (p *parser) callonShortcutParagraph31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1790()
+	return p.cur.onShortcutParagraph31()
 }
 
-func (c *current) onListContinuationElement1793() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph29() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
+
 }
 
-func (p *parser) callonListContinuationElement1793() (interface{}, error) {
+func (p *parser) callonShortcutParagraph29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1793()
+	return p.cur.onShortcutParagraph29()
 }
 
-func (c *current) onListContinuationElement1782(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
+	return style, nil
+
 }
 
-func (p *parser) callonListContinuationElement1782() (interface{}, error) {
+func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1782(stack["language"])
+	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onListContinuationElement1803() (interface{}, error) {
-	// sequence of 3 "`" chars or more
+func (c *current) onShortcutParagraph38() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1803() (interface{}, error) {
+func (p *parser) callonShortcutParagraph38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1803()
+	return p.cur.onShortcutParagraph38()
 }
 
-func (c *current) onListContinuationElement1809() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement1809() (interface{}, error) {
+func (p *parser) callonShortcutParagraph41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1809()
+	return p.cur.onShortcutParagraph41(stack["content"])
 }
 
-func (c *current) onListContinuationElement1812() (interface{}, error) {
+func (c *current) onShortcutParagraph43() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1812() (interface{}, error) {
+func (p *parser) callonShortcutParagraph43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1812()
+	return p.cur.onShortcutParagraph43()
 }
 
-func (c *current) onListContinuationElement1800(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1800() (interface{}, error) {
+func (p *parser) callonShortcutParagraph35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1800(stack["delimiter"])
+	return p.cur.onShortcutParagraph35(stack["content"])
 }
 
-func (c *current) onListContinuationElement1822() (interface{}, error) {
-	// sequence of 4 "-" chars or more
-	return string(c.text), nil
+func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
+	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
+	//   in the middle of the line (with space afterwards)
+	//   or at the end of the line
+	return !firstLine.(*types.RawLine).Contains(":: ") &&
+		!firstLine.(*types.RawLine).HasSuffix("::"), nil
 
 }
 
-func (p *parser) callonListContinuationElement1822() (interface{}, error) {
+func (p *parser) callonShortcutParagraph50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1822()
+	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onListContinuationElement1828() (interface{}, error) {
+func (c *current) onShortcutParagraph63() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1828() (interface{}, error) {
+func (p *parser) callonShortcutParagraph63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1828()
+	return p.cur.onShortcutParagraph63()
 }
 
-func (c *current) onListContinuationElement1831() (interface{}, error) {
+func (c *current) onShortcutParagraph66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1831() (interface{}, error) {
+func (p *parser) callonShortcutParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831()
+	return p.cur.onShortcutParagraph66()
 }
 
-func (c *current) onListContinuationElement1819(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph58() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1819() (interface{}, error) {
+func (p *parser) callonShortcutParagraph58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1819(stack["delimiter"])
+	return p.cur.onShortcutParagraph58()
 }
 
-func (c *current) onListContinuationElement1841() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onShortcutParagraph86() (interface{}, error) {
+	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1841() (interface{}, error) {
+func (p *parser) callonShortcutParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1841()
+	return p.cur.onShortcutParagraph86()
 }
 
-func (c *current) onListContinuationElement1847() (interface{}, error) {
+func (c *current) onShortcutParagraph92() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1847() (interface{}, error) {
+func (p *parser) callonShortcutParagraph92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1847()
+	return p.cur.onShortcutParagraph92()
 }
 
-func (c *current) onListContinuationElement1850() (interface{}, error) {
+func (c *current) onShortcutParagraph95() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1850() (interface{}, error) {
+func (p *parser) callonShortcutParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1850()
+	return p.cur.onShortcutParagraph95()
 }
 
-func (c *current) onListContinuationElement1838(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph83(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1838() (interface{}, error) {
+func (p *parser) callonShortcutParagraph83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1838(stack["delimiter"])
+	return p.cur.onShortcutParagraph83(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1860() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onShortcutParagraph105() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1860() (interface{}, error) {
+func (p *parser) callonShortcutParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1860()
+	return p.cur.onShortcutParagraph105()
 }
 
-func (c *current) onListContinuationElement1866() (interface{}, error) {
+func (c *current) onShortcutParagraph111() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1866() (interface{}, error) {
+func (p *parser) callonShortcutParagraph111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1866()
+	return p.cur.onShortcutParagraph111()
 }
 
-func (c *current) onListContinuationElement1869() (interface{}, error) {
+func (c *current) onShortcutParagraph114() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1869() (interface{}, error) {
+func (p *parser) callonShortcutParagraph114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1869()
+	return p.cur.onShortcutParagraph114()
 }
 
-func (c *current) onListContinuationElement1857(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph102(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1857() (interface{}, error) {
+func (p *parser) callonShortcutParagraph102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1857(stack["delimiter"])
+	return p.cur.onShortcutParagraph102(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1879() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onShortcutParagraph125() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonListContinuationElement1879() (interface{}, error) {
+func (p *parser) callonShortcutParagraph125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1879()
+	return p.cur.onShortcutParagraph125()
 }
 
-func (c *current) onListContinuationElement1885() (interface{}, error) {
+func (c *current) onShortcutParagraph129() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1885() (interface{}, error) {
+func (p *parser) callonShortcutParagraph129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1885()
+	return p.cur.onShortcutParagraph129()
 }
 
-func (c *current) onListContinuationElement1888() (interface{}, error) {
+func (c *current) onShortcutParagraph132() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonShortcutParagraph132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888()
+	return p.cur.onShortcutParagraph132()
 }
 
-func (c *current) onListContinuationElement1876(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
-
+func (c *current) onShortcutParagraph121(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1876() (interface{}, error) {
+func (p *parser) callonShortcutParagraph121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1876(stack["delimiter"])
+	return p.cur.onShortcutParagraph121(stack["language"])
 }
 
-func (c *current) onListContinuationElement1898() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onShortcutParagraph142() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1898() (interface{}, error) {
+func (p *parser) callonShortcutParagraph142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1898()
+	return p.cur.onShortcutParagraph142()
 }
 
-func (c *current) onListContinuationElement1904() (interface{}, error) {
+func (c *current) onShortcutParagraph148() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonShortcutParagraph148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904()
+	return p.cur.onShortcutParagraph148()
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onShortcutParagraph151() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonShortcutParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onShortcutParagraph151()
 }
 
-func (c *current) onListContinuationElement1895(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph139(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonShortcutParagraph139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895(stack["delimiter"])
+	return p.cur.onShortcutParagraph139(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1738(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
+func (c *current) onShortcutParagraph161() (interface{}, error) {
+	// sequence of 4 "-" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1738() (interface{}, error) {
+func (p *parser) callonShortcutParagraph161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1738(stack["delimiter"])
+	return p.cur.onShortcutParagraph161()
 }
 
-func (c *current) onListContinuationElement1915() (interface{}, error) {
+func (c *current) onShortcutParagraph167() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1915() (interface{}, error) {
+func (p *parser) callonShortcutParagraph167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1915()
+	return p.cur.onShortcutParagraph167()
 }
 
-func (c *current) onListContinuationElement1919() (interface{}, error) {
+func (c *current) onShortcutParagraph170() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1919() (interface{}, error) {
+func (p *parser) callonShortcutParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1919()
+	return p.cur.onShortcutParagraph170()
 }
 
-func (c *current) onListContinuationElement1599(content interface{}) (interface{}, error) {
-	// do not retain the EOL chars
-	return types.NewRawLine(content.(string))
+func (c *current) onShortcutParagraph158(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonShortcutParagraph158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599(stack["content"])
+	return p.cur.onShortcutParagraph158(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1574(style, content interface{}) (interface{}, error) {
-	return types.NewParagraph(style, content)
+func (c *current) onShortcutParagraph180() (interface{}, error) {
+	// sequence of 4 "." chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1574() (interface{}, error) {
+func (p *parser) callonShortcutParagraph180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1574(stack["style"], stack["content"])
+	return p.cur.onShortcutParagraph180()
 }
 
-func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
-	if element, ok := element.(types.WithAttributes); ok && attributes != nil {
-		element.AddAttributes(attributes.(types.Attributes))
-	}
-	return element, nil
+func (c *current) onShortcutParagraph186() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1() (interface{}, error) {
+func (p *parser) callonShortcutParagraph186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1(stack["attributes"], stack["element"])
+	return p.cur.onShortcutParagraph186()
 }
 
-func (c *current) onCallout3() (bool, error) {
-	return c.isSubstitutionEnabled(Callouts), nil
-
+func (c *current) onShortcutParagraph189() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonCallout3() (bool, error) {
+func (p *parser) callonShortcutParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout3()
+	return p.cur.onShortcutParagraph189()
 }
 
-func (c *current) onCallout6() (interface{}, error) {
-	return strconv.Atoi(string(c.text))
+func (c *current) onShortcutParagraph177(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+
 }
 
-func (p *parser) callonCallout6() (interface{}, error) {
+func (p *parser) callonShortcutParagraph177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout6()
+	return p.cur.onShortcutParagraph177(stack["delimiter"])
 }
 
-func (c *current) onCallout11() (interface{}, error) {
-
+func (c *current) onShortcutParagraph199() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCallout11() (interface{}, error) {
+func (p *parser) callonShortcutParagraph199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout11()
+	return p.cur.onShortcutParagraph199()
 }
 
-func (c *current) onCallout15() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onShortcutParagraph205() (interface{}, error) {
+
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonCallout15() (interface{}, error) {
+func (p *parser) callonShortcutParagraph205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout15()
+	return p.cur.onShortcutParagraph205()
 }
 
-func (c *current) onCallout1(ref interface{}) (interface{}, error) {
-	return types.NewCallout(ref.(int))
-
+func (c *current) onShortcutParagraph208() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonCallout1() (interface{}, error) {
+func (p *parser) callonShortcutParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCallout1(stack["ref"])
+	return p.cur.onShortcutParagraph208()
 }
 
-func (c *current) onShortcutParagraph9() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
-	return string(c.text), nil
+func (c *current) onShortcutParagraph196(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph9() (interface{}, error) {
+func (p *parser) callonShortcutParagraph196() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph9()
+	return p.cur.onShortcutParagraph196(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph16() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onShortcutParagraph218() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph16() (bool, error) {
+func (p *parser) callonShortcutParagraph218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph16()
+	return p.cur.onShortcutParagraph218()
 }
 
-func (c *current) onShortcutParagraph19() (interface{}, error) {
-	return types.Tip, nil
+func (c *current) onShortcutParagraph224() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph19() (interface{}, error) {
+func (p *parser) callonShortcutParagraph224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph19()
+	return p.cur.onShortcutParagraph224()
 }
 
-func (c *current) onShortcutParagraph21() (interface{}, error) {
-	return types.Note, nil
-
+func (c *current) onShortcutParagraph227() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph21() (interface{}, error) {
+func (p *parser) callonShortcutParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph21()
+	return p.cur.onShortcutParagraph227()
 }
 
-func (c *current) onShortcutParagraph23() (interface{}, error) {
-	return types.Important, nil
+func (c *current) onShortcutParagraph215(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph23() (interface{}, error) {
+func (p *parser) callonShortcutParagraph215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph23()
+	return p.cur.onShortcutParagraph215(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph25() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onShortcutParagraph237() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph25() (interface{}, error) {
+func (p *parser) callonShortcutParagraph237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph25()
+	return p.cur.onShortcutParagraph237()
 }
 
-func (c *current) onShortcutParagraph27() (interface{}, error) {
-	return types.Caution, nil
+func (c *current) onShortcutParagraph243() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph27() (interface{}, error) {
+func (p *parser) callonShortcutParagraph243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph27()
+	return p.cur.onShortcutParagraph243()
 }
 
-func (c *current) onShortcutParagraph31() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onShortcutParagraph246() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonShortcutParagraph31() (interface{}, error) {
+func (p *parser) callonShortcutParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph31()
+	return p.cur.onShortcutParagraph246()
 }
 
-func (c *current) onShortcutParagraph29() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onShortcutParagraph234(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph29() (interface{}, error) {
+func (p *parser) callonShortcutParagraph234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph29()
+	return p.cur.onShortcutParagraph234(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
-	return style, nil
+func (c *current) onShortcutParagraph77(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
 
 }
 
-func (p *parser) callonShortcutParagraph14() (interface{}, error) {
+func (p *parser) callonShortcutParagraph77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph14(stack["style"])
+	return p.cur.onShortcutParagraph77(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph38() (interface{}, error) {
-
+func (c *current) onShortcutParagraph256() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+func (p *parser) callonShortcutParagraph256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph38()
+	return p.cur.onShortcutParagraph256()
 }
 
-func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onShortcutParagraph259() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph41() (bool, error) {
+func (p *parser) callonShortcutParagraph259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph41(stack["content"])
+	return p.cur.onShortcutParagraph259()
 }
 
-func (c *current) onShortcutParagraph43() (interface{}, error) {
+func (c *current) onShortcutParagraph262() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+func (p *parser) callonShortcutParagraph262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph43()
-}
-
-func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
-
+	return p.cur.onShortcutParagraph262()
 }
 
-func (p *parser) callonShortcutParagraph35() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph35(stack["content"])
-}
+func (c *current) onShortcutParagraph253(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
-	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
-	//   in the middle of the line (with space afterwards)
-	//   or at the end of the line
-	return !firstLine.(*types.RawLine).Contains(":: ") &&
-		!firstLine.(*types.RawLine).HasSuffix("::"), nil
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph50() (bool, error) {
+func (p *parser) callonShortcutParagraph253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph253(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph63() (interface{}, error) {
+func (c *current) onShortcutParagraph272() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (interface{}, error) {
+func (p *parser) callonShortcutParagraph272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63()
+	return p.cur.onShortcutParagraph272()
 }
 
-func (c *current) onShortcutParagraph66() (interface{}, error) {
+func (c *current) onShortcutParagraph275() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonShortcutParagraph275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66()
+	return p.cur.onShortcutParagraph275()
 }
 
-func (c *current) onShortcutParagraph58() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onShortcutParagraph286() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph58() (interface{}, error) {
+func (p *parser) callonShortcutParagraph286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph58()
+	return p.cur.onShortcutParagraph286()
 }
 
-func (c *current) onShortcutParagraph85() (interface{}, error) {
-	// sequence of 4 "/" chars or more
+func (c *current) onShortcutParagraph288() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonShortcutParagraph85() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph85()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph91() (interface{}, error) {
+func (c *current) onShortcutParagraph301() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph91() (interface{}, error) {
+func (p *parser) callonShortcutParagraph301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph91()
+	return p.cur.onShortcutParagraph301()
 }
 
-func (c *current) onShortcutParagraph94() (interface{}, error) {
+func (c *current) onShortcutParagraph305() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph94() (interface{}, error) {
+func (p *parser) callonShortcutParagraph305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph94()
+	return p.cur.onShortcutParagraph305()
 }
 
-func (c *current) onShortcutParagraph82(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph82() (interface{}, error) {
+func (p *parser) callonShortcutParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph82(stack["delimiter"])
+	return p.cur.onShortcutParagraph295(stack["content"])
 }
 
-func (c *current) onShortcutParagraph104() (interface{}, error) {
-	// sequence of 4 "=" chars or more
+func (c *current) onShortcutParagraph315() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph104() (interface{}, error) {
+func (p *parser) callonShortcutParagraph315() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph104()
+	return p.cur.onShortcutParagraph315()
 }
 
-func (c *current) onShortcutParagraph110() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph318(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonShortcutParagraph110() (interface{}, error) {
+func (p *parser) callonShortcutParagraph318() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph110()
+	return p.cur.onShortcutParagraph318(stack["content"])
 }
 
-func (c *current) onShortcutParagraph113() (interface{}, error) {
+func (c *current) onShortcutParagraph320() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph113() (interface{}, error) {
+func (p *parser) callonShortcutParagraph320() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph113()
+	return p.cur.onShortcutParagraph320()
 }
 
-func (c *current) onShortcutParagraph101(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph312(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+}
 
+func (p *parser) callonShortcutParagraph312() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph312(stack["content"])
 }
 
-func (p *parser) callonShortcutParagraph101() (interface{}, error) {
+func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonShortcutParagraph53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph101(stack["delimiter"])
+	return p.cur.onShortcutParagraph53(stack["line"])
 }
 
-func (c *current) onShortcutParagraph124() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
-	return string(c.text), nil
+func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
+
 }
 
-func (p *parser) callonShortcutParagraph124() (interface{}, error) {
+func (p *parser) callonShortcutParagraph1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph124()
+	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onShortcutParagraph128() (interface{}, error) {
+func (c *current) onParagraph7() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
+
+}
 
-	return string(c.text), nil
+func (p *parser) callonParagraph7() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph7()
+}
+
+func (c *current) onParagraph10() (interface{}, error) {
+	return types.Tip, nil
 
 }
 
-func (p *parser) callonShortcutParagraph128() (interface{}, error) {
+func (p *parser) callonParagraph10() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph128()
+	return p.cur.onParagraph10()
 }
 
-func (c *current) onShortcutParagraph131() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onParagraph12() (interface{}, error) {
+	return types.Note, nil
+
 }
 
-func (p *parser) callonShortcutParagraph131() (interface{}, error) {
+func (p *parser) callonParagraph12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph131()
+	return p.cur.onParagraph12()
 }
 
-func (c *current) onShortcutParagraph120(language interface{}) (interface{}, error) {
-	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
+func (c *current) onParagraph14() (interface{}, error) {
+	return types.Important, nil
+
 }
 
-func (p *parser) callonShortcutParagraph120() (interface{}, error) {
+func (p *parser) callonParagraph14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph120(stack["language"])
+	return p.cur.onParagraph14()
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
-	// sequence of 3 "`" chars or more
-	return string(c.text), nil
+func (c *current) onParagraph16() (interface{}, error) {
+	return types.Warning, nil
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonParagraph16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onParagraph16()
+}
+
+func (c *current) onParagraph18() (interface{}, error) {
+	return types.Caution, nil
+
 }
 
-func (c *current) onShortcutParagraph147() (interface{}, error) {
+func (p *parser) callonParagraph18() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph18()
+}
 
+func (c *current) onParagraph22() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph147() (interface{}, error) {
+func (p *parser) callonParagraph22() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph22()
+}
+
+func (c *current) onParagraph20() (interface{}, error) {
+	// check
+	return types.LiteralParagraph, nil
+
+}
+
+func (p *parser) callonParagraph20() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph147()
+	return p.cur.onParagraph20()
 }
 
-func (c *current) onShortcutParagraph150() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+func (c *current) onParagraph5(style interface{}) (interface{}, error) {
+	return style, nil
+
 }
 
-func (p *parser) callonShortcutParagraph150() (interface{}, error) {
+func (p *parser) callonParagraph5() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph150()
+	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onShortcutParagraph138(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph29() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph138() (interface{}, error) {
+func (p *parser) callonParagraph29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph138(stack["delimiter"])
+	return p.cur.onParagraph29()
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
-	// sequence of 4 "-" chars or more
+func (c *current) onParagraph32(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+
+}
+
+func (p *parser) callonParagraph32() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph32(stack["content"])
+}
+
+func (c *current) onParagraph34() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
 
+func (p *parser) callonParagraph34() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph34()
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (c *current) onParagraph26(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonParagraph26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onParagraph26(stack["content"])
 }
 
-func (c *current) onShortcutParagraph166() (interface{}, error) {
+func (c *current) onParagraph53() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph166() (interface{}, error) {
+func (p *parser) callonParagraph53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph166()
+	return p.cur.onParagraph53()
 }
 
-func (c *current) onShortcutParagraph169() (interface{}, error) {
+func (c *current) onParagraph56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph169() (interface{}, error) {
+func (p *parser) callonParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph169()
+	return p.cur.onParagraph56()
 }
 
-func (c *current) onShortcutParagraph157(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+func (c *current) onParagraph48() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph157() (interface{}, error) {
+func (p *parser) callonParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph157(stack["delimiter"])
+	return p.cur.onParagraph48()
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
-	// sequence of 4 "." chars or more
+func (c *current) onParagraph76() (interface{}, error) {
+	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onParagraph76()
 }
 
-func (c *current) onShortcutParagraph185() (interface{}, error) {
+func (c *current) onParagraph82() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph185() (interface{}, error) {
+func (p *parser) callonParagraph82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph185()
+	return p.cur.onParagraph82()
 }
 
-func (c *current) onShortcutParagraph188() (interface{}, error) {
+func (c *current) onParagraph85() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph188() (interface{}, error) {
+func (p *parser) callonParagraph85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph188()
+	return p.cur.onParagraph85()
 }
 
-func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph73(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph176() (interface{}, error) {
+func (p *parser) callonParagraph73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph176(stack["delimiter"])
+	return p.cur.onParagraph73(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onParagraph95() (interface{}, error) {
+	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onParagraph95()
 }
 
-func (c *current) onShortcutParagraph204() (interface{}, error) {
+func (c *current) onParagraph101() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph204() (interface{}, error) {
+func (p *parser) callonParagraph101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph204()
+	return p.cur.onParagraph101()
 }
 
-func (c *current) onShortcutParagraph207() (interface{}, error) {
+func (c *current) onParagraph104() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph207() (interface{}, error) {
+func (p *parser) callonParagraph104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph207()
+	return p.cur.onParagraph104()
 }
 
-func (c *current) onShortcutParagraph195(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph92(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph195() (interface{}, error) {
+func (p *parser) callonParagraph92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph195(stack["delimiter"])
+	return p.cur.onParagraph92(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onParagraph115() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonParagraph115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onParagraph115()
 }
 
-func (c *current) onShortcutParagraph223() (interface{}, error) {
+func (c *current) onParagraph119() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph223() (interface{}, error) {
+func (p *parser) callonParagraph119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph223()
+	return p.cur.onParagraph119()
 }
 
-func (c *current) onShortcutParagraph226() (interface{}, error) {
+func (c *current) onParagraph122() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph226() (interface{}, error) {
+func (p *parser) callonParagraph122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph226()
+	return p.cur.onParagraph122()
 }
 
-func (c *current) onShortcutParagraph214(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
-
+func (c *current) onParagraph111(language interface{}) (interface{}, error) {
+	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph214() (interface{}, error) {
+func (p *parser) callonParagraph111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph214(stack["delimiter"])
+	return p.cur.onParagraph111(stack["language"])
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onParagraph132() (interface{}, error) {
+	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonParagraph132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onParagraph132()
 }
 
-func (c *current) onShortcutParagraph242() (interface{}, error) {
+func (c *current) onParagraph138() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph242() (interface{}, error) {
+func (p *parser) callonParagraph138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph242()
+	return p.cur.onParagraph138()
 }
 
-func (c *current) onShortcutParagraph245() (interface{}, error) {
+func (c *current) onParagraph141() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph245() (interface{}, error) {
+func (p *parser) callonParagraph141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph245()
+	return p.cur.onParagraph141()
 }
 
-func (c *current) onShortcutParagraph233(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph129(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph233() (interface{}, error) {
+func (p *parser) callonParagraph129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph233(stack["delimiter"])
+	return p.cur.onParagraph129(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph76(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
+func (c *current) onParagraph151() (interface{}, error) {
+	// sequence of 4 "-" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76(stack["delimiter"])
+	return p.cur.onParagraph151()
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
+func (c *current) onParagraph157() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonParagraph157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onParagraph157()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
+func (c *current) onParagraph160() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonParagraph160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onParagraph160()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onParagraph148(delimiter interface{}) (interface{}, error) {
 
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonParagraph148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onParagraph148(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onParagraph170() (interface{}, error) {
+	// sequence of 4 "." chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onParagraph170()
 }
 
-func (c *current) onShortcutParagraph265(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onParagraph176() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph265() (interface{}, error) {
+func (p *parser) callonParagraph176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph265(stack["content"])
+	return p.cur.onParagraph176()
 }
 
-func (c *current) onShortcutParagraph285() (interface{}, error) {
-
+func (c *current) onParagraph179() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonShortcutParagraph285() (interface{}, error) {
+func (p *parser) callonParagraph179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph285()
+	return p.cur.onParagraph179()
 }
 
-func (c *current) onShortcutParagraph288(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph167(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph288() (bool, error) {
+func (p *parser) callonParagraph167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288(stack["content"])
+	return p.cur.onParagraph167(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph290() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onParagraph189() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonShortcutParagraph290() (interface{}, error) {
+func (p *parser) callonParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph290()
+	return p.cur.onParagraph189()
 }
 
-func (c *current) onShortcutParagraph282(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onParagraph195() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph282() (interface{}, error) {
+func (p *parser) callonParagraph195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph282(stack["content"])
+	return p.cur.onParagraph195()
 }
 
-func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
-	return line, nil
-
+func (c *current) onParagraph198() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph53() (interface{}, error) {
+func (p *parser) callonParagraph198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph53(stack["line"])
+	return p.cur.onParagraph198()
 }
 
-func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
+func (c *current) onParagraph186(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph1() (interface{}, error) {
+func (p *parser) callonParagraph186() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
+	return p.cur.onParagraph186(stack["delimiter"])
 }
 
-func (c *current) onParagraph7() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
+func (c *current) onParagraph208() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph7() (bool, error) {
+func (p *parser) callonParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph7()
+	return p.cur.onParagraph208()
 }
 
-func (c *current) onParagraph10() (interface{}, error) {
-	return types.Tip, nil
+func (c *current) onParagraph214() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph10() (interface{}, error) {
+func (p *parser) callonParagraph214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph10()
+	return p.cur.onParagraph214()
 }
 
-func (c *current) onParagraph12() (interface{}, error) {
-	return types.Note, nil
-
+func (c *current) onParagraph217() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph12() (interface{}, error) {
+func (p *parser) callonParagraph217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph12()
+	return p.cur.onParagraph217()
 }
 
-func (c *current) onParagraph14() (interface{}, error) {
-	return types.Important, nil
+func (c *current) onParagraph205(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph14() (interface{}, error) {
+func (p *parser) callonParagraph205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph14()
+	return p.cur.onParagraph205(stack["delimiter"])
 }
 
-func (c *current) onParagraph16() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onParagraph227() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph16() (interface{}, error) {
+func (p *parser) callonParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph16()
+	return p.cur.onParagraph227()
 }
 
-func (c *current) onParagraph18() (interface{}, error) {
-	return types.Caution, nil
+func (c *current) onParagraph233() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph18() (interface{}, error) {
+func (p *parser) callonParagraph233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph18()
+	return p.cur.onParagraph233()
 }
 
-func (c *current) onParagraph22() (interface{}, error) {
-	// log.Debug("matched multiple spaces")
+func (c *current) onParagraph236() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonParagraph22() (interface{}, error) {
+func (p *parser) callonParagraph236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph22()
+	return p.cur.onParagraph236()
 }
 
-func (c *current) onParagraph20() (interface{}, error) {
-	// check
-	return types.LiteralParagraph, nil
+func (c *current) onParagraph224(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph20() (interface{}, error) {
+func (p *parser) callonParagraph224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph20()
+	return p.cur.onParagraph224(stack["delimiter"])
 }
 
-func (c *current) onParagraph5(style interface{}) (interface{}, error) {
-	return style, nil
+func (c *current) onParagraph67(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
 
 }
 
-func (p *parser) callonParagraph5() (interface{}, error) {
+func (p *parser) callonParagraph67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph5(stack["style"])
+	return p.cur.onParagraph67(stack["delimiter"])
 }
 
-func (c *current) onParagraph29() (interface{}, error) {
-
+func (c *current) onParagraph246() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph29() (interface{}, error) {
+func (p *parser) callonParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph29()
+	return p.cur.onParagraph246()
 }
 
-func (c *current) onParagraph32(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph249() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph32() (bool, error) {
+func (p *parser) callonParagraph249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph32(stack["content"])
+	return p.cur.onParagraph249()
 }
 
-func (c *current) onParagraph34() (interface{}, error) {
+func (c *current) onParagraph252() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph34() (interface{}, error) {
+func (p *parser) callonParagraph252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph34()
+	return p.cur.onParagraph252()
 }
 
-func (c *current) onParagraph26(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onParagraph243(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph26() (interface{}, error) {
+func (p *parser) callonParagraph243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph26(stack["content"])
+	return p.cur.onParagraph243(stack["delimiter"])
 }
 
-func (c *current) onParagraph53() (interface{}, error) {
+func (c *current) onParagraph262() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph53() (interface{}, error) {
+func (p *parser) callonParagraph262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph53()
+	return p.cur.onParagraph262()
 }
 
-func (c *current) onParagraph56() (interface{}, error) {
+func (c *current) onParagraph265() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onParagraph56()
-}
-
-func (c *current) onParagraph48() (interface{}, error) {
-	return types.NewBlankLine()
-
-}
-
-func (p *parser) callonParagraph48() (interface{}, error) {
+func (p *parser) callonParagraph265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph48()
+	return p.cur.onParagraph265()
 }
 
-func (c *current) onParagraph73() (interface{}, error) {
+func (c *current) onParagraph280() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph73() (interface{}, error) {
+func (p *parser) callonParagraph280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph73()
+	return p.cur.onParagraph280()
 }
 
-func (c *current) onParagraph77() (interface{}, error) {
+func (c *current) onParagraph284() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph77() (interface{}, error) {
+func (p *parser) callonParagraph284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph77()
+	return p.cur.onParagraph284()
 }
 
-func (c *current) onParagraph67(content interface{}) (interface{}, error) {
+func (c *current) onParagraph274(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonParagraph67() (interface{}, error) {
+func (p *parser) callonParagraph274() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph67(stack["content"])
+	return p.cur.onParagraph274(stack["content"])
 }
 
-func (c *current) onParagraph87() (interface{}, error) {
+func (c *current) onParagraph294() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph87() (interface{}, error) {
+func (p *parser) callonParagraph294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph87()
+	return p.cur.onParagraph294()
 }
 
-func (c *current) onParagraph90(content interface{}) (bool, error) {
+func (c *current) onParagraph297(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonParagraph90() (bool, error) {
+func (p *parser) callonParagraph297() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph90(stack["content"])
+	return p.cur.onParagraph297(stack["content"])
 }
 
-func (c *current) onParagraph92() (interface{}, error) {
+func (c *current) onParagraph299() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph92() (interface{}, error) {
+func (p *parser) callonParagraph299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph92()
+	return p.cur.onParagraph299()
 }
 
-func (c *current) onParagraph84(content interface{}) (interface{}, error) {
+func (c *current) onParagraph291(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph84() (interface{}, error) {
+func (p *parser) callonParagraph291() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph84(stack["content"])
+	return p.cur.onParagraph291(stack["content"])
 }
 
 func (c *current) onParagraph43(line interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index beddf53..c87a726 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -817,7 +817,10 @@ DelimitedBlockRawLine <-
 // Comment Blocks
 // ----------------
 CommentBlock <-
-    CommentBlockStartDelimiter
+    start:(CommentBlockStartDelimiter)
+    &{
+        return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+    }
     content:(CommentBlockContent)
     CommentBlockEndDelimiter? {
         return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
@@ -825,7 +828,12 @@ CommentBlock <-
 
 CommentBlockStartDelimiter <- CommentBlockDelimiter
 
-CommentBlockEndDelimiter <- CommentBlockDelimiter / EOF
+CommentBlockEndDelimiter <- 
+    end:CommentBlockDelimiter 
+    &{
+        return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+    }
+    / EOF
 
 CommentBlockContent <- 
     (!CommentBlockEndDelimiter
@@ -1508,7 +1516,7 @@ ListElementParagraphLine <-
     !UnorderedListElementPrefix
     !CalloutListElementPrefix
     !(LabeledListElementTerm LabeledListElementSeparator (Space / EOL))
-    !BlockDelimiter
+    !(BlockDelimiter / OpenBlockDelimiter / TableDelimiter)
     content:(ManyChars)
     EOL { // do not retain the EOL chars
         return types.NewRawLine(content.(string))
@@ -1757,7 +1765,7 @@ ShortcutParagraph <-
         NotEOF 
         !BlankLine
         !BlockAttributes
-        !BlockDelimiter
+        !(BlockDelimiter / OpenBlockDelimiter / TableDelimiter)
         !ListContinuationMarker
         line:(SinglelineComment / ParagraphRawLine) {
             return line, nil
@@ -1773,6 +1781,7 @@ Paragraph <-
         NotEOF
         !BlankLine
         !BlockAttributes
+        !(BlockDelimiter / OpenBlockDelimiter / TableDelimiter)
         line:(SinglelineComment / ParagraphRawLine) {
             return line, nil
         })* 
-- 
2.43.0


From 8cd06952b68131761ac070a5d6f2bed10b9658bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 058/117] fix: give columns to all the cells of the header when
 the first row of the table is shorter

---
 pkg/types/types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d08b30e..62147b0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -4110,13 +4110,13 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	// (the header or the footer matters if there is no other row)
+	// (the header is the first row if there is one, the footer only matters if there is no other row)
 	var firstRow *TableRow
 	switch {
-	case len(t.Rows) > 0:
-		firstRow = t.Rows[0]
 	case t.Header != nil:
 		firstRow = t.Header
+	case len(t.Rows) > 0:
+		firstRow = t.Rows[0]
 	case t.Footer != nil:
 		firstRow = t.Footer
 	}
-- 
2.43.0


From c52c3eaa76580017c12a8febcf7854040ab73354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 059/117] fix: replace the predefined attributes in the values
 of attributes, and the references in buttons and menus

---
 ...document_processing_apply_substitutions.go | 114 +++++++++++++++---
 pkg/renderer/sgml/render_plain_text.go        |  12 ++
 pkg/types/types.go                            |  22 +++-
 3 files changed, 129 insertions(+), 19 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 56a495d..affdb53 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -202,16 +202,7 @@ func applySubstitutionsOnWithLocation(ctx *ParseContext, b types.WithLocation, o
 	}
 
 	// location
-	if b.GetLocation() != nil {
-		if p, ok := b.GetLocation().Path.([]interface{}); ok {
-			p, err := replaceAttributeRefsInElements(ctx, p) // no need to reparse the location's path
-			if err != nil {
-				return err
-			}
-			b.GetLocation().Path = types.Reduce(p)
-		}
-	}
-	return nil
+	return replaceAttributeRefsInLocation(ctx, b.GetLocation())
 }
 
 func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, opts ...Option) error {
@@ -365,6 +356,90 @@ func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attrib
 		if attrs[k], err = replaceAttributeRefsInValue(ctx, attrs[k]); err != nil {
 			return err
 		}
+		switch k {
+		case types.AttrTitle, types.AttrXRefLabel, types.AttrInlineLinkText:
+			// keep, as the elements of these values are rendered
+		default:
+			if attrs[k], err = replacePredefinedAttributesInValue(attrs[k]); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+// replaces the predefined attributes with their plain text value
+func replacePredefinedAttributesInValue(value interface{}) (interface{}, error) {
+	var err error
+	switch value := value.(type) {
+	case []interface{}:
+		replaced := false
+		result := make([]interface{}, len(value))
+		for i, e := range value {
+			result[i] = e
+			switch e := e.(type) {
+			case *types.PredefinedAttribute:
+				if result[i], err = sgml.RenderPlainText(e, sgml.WithoutEscape()); err != nil {
+					return nil, err
+				}
+				replaced = true
+			case []interface{}: // entries in Roles and Options
+				if result[i], err = replacePredefinedAttributesInValue(e); err != nil {
+					return nil, err
+				}
+			}
+		}
+		if replaced {
+			return types.Reduce(result), nil
+		}
+		return result, nil
+	case types.Roles:
+		for i, r := range value {
+			if value[i], err = replacePredefinedAttributesInValue(r); err != nil {
+				return nil, err
+			}
+		}
+		return value, nil
+	case types.Options:
+		for i, r := range value {
+			if value[i], err = replacePredefinedAttributesInValue(r); err != nil {
+				return nil, err
+			}
+		}
+		return value, nil
+	default:
+		return value, nil
+	}
+}
+
+// replaces the references to attributes in a text without markup
+func replaceAttributeRefsInString(ctx *ParseContext, s string) (string, error) {
+	if !strings.Contains(s, "{") {
+		return s, nil
+	}
+	elements, err := parseWithSubstitutions(s, &substitutions{sequence: []string{AttributeRefs}}, append(ctx.opts, Entrypoint("NormalGroup"))...)
+	if err != nil {
+		return "", err
+	}
+	if elements, err = replaceAttributeRefsInElements(ctx, elements); err != nil {
+		return "", err
+	}
+	return sgml.RenderPlainText(elements, sgml.WithoutEscape())
+}
+
+// replaces the references to attributes in the path of the location of an element
+func replaceAttributeRefsInLocation(ctx *ParseContext, l *types.Location) error {
+	if l == nil {
+		return nil
+	}
+	if p, ok := l.Path.([]interface{}); ok {
+		p, err := replaceAttributeRefsInElements(ctx, p) // no need to reparse the location's path
+		if err != nil {
+			return err
+		}
+		if l.Path, err = replacePredefinedAttributesInValue(types.Reduce(p)); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -474,6 +549,7 @@ func extractMarkdownQuoteAttribution(elements []interface{}) ([]interface{}, str
 }
 
 func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
+	var err error
 	replaced := false
 	for i, e := range elements {
 		switch e := e.(type) {
@@ -532,15 +608,19 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			// in location
-			if e.GetLocation() != nil {
-				if p, ok := e.GetLocation().Path.([]interface{}); ok {
-					p, err := replaceAttributeRefsInElements(ctx, p) // no need to reparse the location's path
-					if err != nil {
-						return nil, err
-					}
-					e.GetLocation().Path = types.Reduce(p)
+			if err := replaceAttributeRefsInLocation(ctx, e.GetLocation()); err != nil {
+				return nil, err
+			}
+		case *types.InlineMenu:
+			for i, p := range e.Path {
+				if e.Path[i], err = replaceAttributeRefsInString(ctx, p); err != nil {
+					return nil, err
 				}
 			}
+		case *types.InlineButton:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		}
 	}
 	// if attribute ref was found, reparse content (if subs)
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 4357bcf..7adecf1 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -2,6 +2,7 @@ package sgml
 
 import (
 	"fmt"
+	"html"
 	"strconv"
 	"strings"
 
@@ -76,6 +77,8 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return e.Content, nil
 	case *types.AttributeReference: // reference to an attribute which is not defined
 		return "{" + r.escape(e.Name) + "}", nil
+	case *types.PredefinedAttribute:
+		return r.renderPredefinedAttribute(e)
 	case *types.FootnoteReference:
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
@@ -121,6 +124,15 @@ func (r *plaintextRenderer) renderSymbol(s *types.Symbol) (string, error) {
 	return s.Name, nil
 }
 
+func (r *plaintextRenderer) renderPredefinedAttribute(a *types.PredefinedAttribute) (string, error) {
+	switch v := html.UnescapeString(predefinedAttribute(a.Name)); v {
+	case "<", ">", "&":
+		return r.escape(v), nil
+	default:
+		return v, nil
+	}
+}
+
 func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error) {
 	switch alt := l.Attributes[types.AttrInlineLinkText].(type) {
 	case []interface{}:
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 62147b0..1fbed9c 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2011,8 +2011,26 @@ type InlineMenu struct {
 // NewInlineMenu initializes a new `InlineMenu`
 func NewInlineMenu(id string, attrs Attributes) (*InlineMenu, error) {
 	path := []string{id}
-	if s, ok := attrs[AttrPositional1].(string); ok {
-		subpaths := strings.Split(s, ">")
+	s := &strings.Builder{}
+	switch v := attrs[AttrPositional1].(type) {
+	case string:
+		s.WriteString(v)
+	case []interface{}: // with references to attributes, which are replaced afterwards
+		for _, e := range v {
+			switch e := e.(type) {
+			case *AttributeReference:
+				s.WriteString(e.rawText)
+			case *PredefinedAttribute:
+				s.WriteString(e.rawText)
+			case *CounterSubstitution:
+				s.WriteString(e.rawText)
+			default:
+				s.WriteString(stringify(e))
+			}
+		}
+	}
+	if s.Len() > 0 {
+		subpaths := strings.Split(s.String(), ">")
 		for _, s := range subpaths {
 			path = append(path, strings.TrimSpace(s))
 		}
-- 
2.43.0


From cf619f1d071a3e245a8975849cb910ec431e45d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 060/117] fix: apply the verbatim substitutions in literal and
 source paragraphs

---
 pkg/parser/document_substitutions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..0c70c0c 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -146,7 +146,7 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 	case *types.Paragraph:
 		// if listing paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source, types.Literal, types.LiteralParagraph:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From f4c25c7e2fb98a0a3fb4ef7dbb0aed6efaf65757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 061/117] fix: substitute the counters in the titles of blocks
 and in the labels of cross references

---
 pkg/parser/parser.go  | 20030 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |     4 +-
 2 files changed, 10345 insertions(+), 9689 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5683261..ed888e0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20338},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20346},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20365},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20606},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20610},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20629},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20338},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20346},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20365},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20606},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20610},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20629},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20338},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20338},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20338},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20346},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20365},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20606},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20606},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20606},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20610},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20629},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90416},
+																pos: position{line: 2853, col: 12, offset: 90454},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90417},
+																	pos: position{line: 2853, col: 13, offset: 90455},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90417},
+																			pos: position{line: 2853, col: 13, offset: 90455},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90417},
+																				pos:        position{line: 2853, col: 13, offset: 90455},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90422},
+																			pos: position{line: 2853, col: 18, offset: 90460},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90422},
+																				pos:        position{line: 2853, col: 18, offset: 90460},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20338},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20346},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20365},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20606},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20610},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20629},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 645, col: 5, offset: 20338},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 645, col: 13, offset: 20346},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 645, col: 32, offset: 20365},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 652, col: 5, offset: 20606},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 652, col: 9, offset: 20610},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 652, col: 28, offset: 20629},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20338},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20338},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20338},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20346},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20365},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20606},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20606},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20606},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20610},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20629},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90416},
+																pos: position{line: 2853, col: 12, offset: 90454},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90417},
+																	pos: position{line: 2853, col: 13, offset: 90455},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90417},
+																			pos: position{line: 2853, col: 13, offset: 90455},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90417},
+																				pos:        position{line: 2853, col: 13, offset: 90455},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90422},
+																			pos: position{line: 2853, col: 18, offset: 90460},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90422},
+																				pos:        position{line: 2853, col: 18, offset: 90460},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23042},
+										pos: position{line: 724, col: 5, offset: 23080},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23042},
+											pos: position{line: 724, col: 5, offset: 23080},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 724, col: 5, offset: 23080},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87684},
+														pos:        position{line: 2751, col: 13, offset: 87722},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23072},
+													pos:   position{line: 725, col: 5, offset: 23110},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23092},
+														pos: position{line: 726, col: 9, offset: 23130},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23622},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23622},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23622},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23633},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23633},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23633},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23640},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23640},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23724},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23870},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23832},
+																	pos: position{line: 747, col: 5, offset: 23870},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23832},
+																			pos:   position{line: 747, col: 5, offset: 23870},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23881},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23843},
+																					pos: position{line: 747, col: 16, offset: 23881},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23843},
+																							pos:        position{line: 747, col: 16, offset: 23881},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23850},
+																							pos: position{line: 747, col: 23, offset: 23888},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23850},
+																								pos:        position{line: 747, col: 23, offset: 23888},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23934},
+																			pos: position{line: 749, col: 8, offset: 23972},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24358},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24320},
+																	pos: position{line: 760, col: 26, offset: 24358},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24320},
+																			pos:        position{line: 760, col: 26, offset: 24358},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24326},
+																			pos:   position{line: 760, col: 32, offset: 24364},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24456},
+																				pos: position{line: 764, col: 13, offset: 24494},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24457},
+																					pos: position{line: 764, col: 14, offset: 24495},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24457},
+																						pos:        position{line: 764, col: 14, offset: 24495},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24346},
+																			pos: position{line: 760, col: 52, offset: 24384},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24117},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24079},
+																	pos: position{line: 754, col: 5, offset: 24117},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24079},
+																			pos:   position{line: 754, col: 5, offset: 24117},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24128},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24090},
+																					pos: position{line: 754, col: 16, offset: 24128},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24090},
+																							pos:        position{line: 754, col: 16, offset: 24128},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24096},
+																							pos: position{line: 754, col: 22, offset: 24134},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24096},
+																								pos:        position{line: 754, col: 22, offset: 24134},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24180},
+																			pos: position{line: 756, col: 8, offset: 24218},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24654},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24616},
+																	pos: position{line: 769, col: 5, offset: 24654},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24616},
+																			pos:   position{line: 769, col: 5, offset: 24654},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24665},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24627},
+																					pos: position{line: 769, col: 16, offset: 24665},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24627},
+																							pos:        position{line: 769, col: 16, offset: 24665},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24634},
+																							pos: position{line: 769, col: 23, offset: 24672},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24634},
+																								pos:        position{line: 769, col: 23, offset: 24672},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24718},
+																			pos: position{line: 771, col: 8, offset: 24756},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25130},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25092},
+																	pos: position{line: 783, col: 5, offset: 25130},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25092},
+																			pos:   position{line: 783, col: 5, offset: 25130},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25141},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25103},
+																					pos: position{line: 783, col: 16, offset: 25141},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25103},
+																							pos:        position{line: 783, col: 16, offset: 25141},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25110},
+																							pos: position{line: 783, col: 23, offset: 25148},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25110},
+																								pos:        position{line: 783, col: 23, offset: 25148},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25194},
+																			pos: position{line: 785, col: 8, offset: 25232},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25382},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25344},
+																	pos: position{line: 790, col: 5, offset: 25382},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25344},
+																			pos:   position{line: 790, col: 5, offset: 25382},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25393},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25355},
+																					pos: position{line: 790, col: 16, offset: 25393},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25355},
+																							pos:        position{line: 790, col: 16, offset: 25393},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25362},
+																							pos: position{line: 790, col: 23, offset: 25400},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25362},
+																								pos:        position{line: 790, col: 23, offset: 25400},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25446},
+																			pos: position{line: 792, col: 8, offset: 25484},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25632},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25594},
+																	pos: position{line: 797, col: 5, offset: 25632},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25594},
+																			pos:   position{line: 797, col: 5, offset: 25632},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25643},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25605},
+																					pos: position{line: 797, col: 16, offset: 25643},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25605},
+																							pos:        position{line: 797, col: 16, offset: 25643},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25612},
+																							pos: position{line: 797, col: 23, offset: 25650},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25612},
+																								pos:        position{line: 797, col: 23, offset: 25650},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25696},
+																			pos: position{line: 799, col: 8, offset: 25734},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25878},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25840},
+																	pos: position{line: 804, col: 5, offset: 25878},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25840},
+																			pos:   position{line: 804, col: 5, offset: 25878},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25889},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25851},
+																					pos: position{line: 804, col: 16, offset: 25889},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25851},
+																							pos:        position{line: 804, col: 16, offset: 25889},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25858},
+																							pos: position{line: 804, col: 23, offset: 25896},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25858},
+																								pos:        position{line: 804, col: 23, offset: 25896},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25942},
+																			pos: position{line: 806, col: 8, offset: 25980},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2865, col: 11, offset: 90650},
+													pos: position{line: 2865, col: 11, offset: 90688},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2865, col: 11, offset: 90650},
+														pos: position{line: 2865, col: 11, offset: 90688},
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 11, offset: 90650},
+															pos:        position{line: 2865, col: 11, offset: 90688},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2811, col: 14, offset: 89182},
+													pos: position{line: 2811, col: 14, offset: 89220},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2811, col: 14, offset: 89182},
+														pos: position{line: 2811, col: 14, offset: 89220},
 														expr: &charClassMatcher{
-															pos:        position{line: 2811, col: 14, offset: 89182},
+															pos:        position{line: 2811, col: 14, offset: 89220},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2815, col: 17, offset: 89252},
+												pos: position{line: 2815, col: 17, offset: 89290},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2815, col: 17, offset: 89252},
+													pos:   position{line: 2815, col: 17, offset: 89290},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2853, col: 12, offset: 90416},
+																				pos: position{line: 2853, col: 12, offset: 90454},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2853, col: 13, offset: 90417},
+																					pos: position{line: 2853, col: 13, offset: 90455},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2853, col: 13, offset: 90417},
+																							pos: position{line: 2853, col: 13, offset: 90455},
 																							expr: &litMatcher{
-																								pos:        position{line: 2853, col: 13, offset: 90417},
+																								pos:        position{line: 2853, col: 13, offset: 90455},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2853, col: 18, offset: 90422},
+																							pos: position{line: 2853, col: 18, offset: 90460},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 18, offset: 90422},
+																								pos:        position{line: 2853, col: 18, offset: 90460},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2853, col: 12, offset: 90416},
+																				pos: position{line: 2853, col: 12, offset: 90454},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2853, col: 13, offset: 90417},
+																					pos: position{line: 2853, col: 13, offset: 90455},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2853, col: 13, offset: 90417},
+																							pos: position{line: 2853, col: 13, offset: 90455},
 																							expr: &litMatcher{
-																								pos:        position{line: 2853, col: 13, offset: 90417},
+																								pos:        position{line: 2853, col: 13, offset: 90455},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2853, col: 18, offset: 90422},
+																							pos: position{line: 2853, col: 18, offset: 90460},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 18, offset: 90422},
+																								pos:        position{line: 2853, col: 18, offset: 90460},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 12, offset: 90416},
+																		pos: position{line: 2853, col: 12, offset: 90454},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 13, offset: 90417},
+																			pos: position{line: 2853, col: 13, offset: 90455},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2853, col: 13, offset: 90417},
+																					pos: position{line: 2853, col: 13, offset: 90455},
 																					expr: &litMatcher{
-																						pos:        position{line: 2853, col: 13, offset: 90417},
+																						pos:        position{line: 2853, col: 13, offset: 90455},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2853, col: 18, offset: 90422},
+																					pos: position{line: 2853, col: 18, offset: 90460},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2853, col: 18, offset: 90422},
+																						pos:        position{line: 2853, col: 18, offset: 90460},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2853, col: 12, offset: 90416},
+																									pos: position{line: 2853, col: 12, offset: 90454},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2853, col: 13, offset: 90417},
+																										pos: position{line: 2853, col: 13, offset: 90455},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2853, col: 13, offset: 90417},
+																												pos: position{line: 2853, col: 13, offset: 90455},
 																												expr: &litMatcher{
-																													pos:        position{line: 2853, col: 13, offset: 90417},
+																													pos:        position{line: 2853, col: 13, offset: 90455},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2853, col: 18, offset: 90422},
+																												pos: position{line: 2853, col: 18, offset: 90460},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2853, col: 18, offset: 90422},
+																													pos:        position{line: 2853, col: 18, offset: 90460},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2853, col: 12, offset: 90416},
+																									pos: position{line: 2853, col: 12, offset: 90454},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2853, col: 13, offset: 90417},
+																										pos: position{line: 2853, col: 13, offset: 90455},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2853, col: 13, offset: 90417},
+																												pos: position{line: 2853, col: 13, offset: 90455},
 																												expr: &litMatcher{
-																													pos:        position{line: 2853, col: 13, offset: 90417},
+																													pos:        position{line: 2853, col: 13, offset: 90455},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2853, col: 18, offset: 90422},
+																												pos: position{line: 2853, col: 18, offset: 90460},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2853, col: 18, offset: 90422},
+																													pos:        position{line: 2853, col: 18, offset: 90460},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2853, col: 12, offset: 90416},
+																							pos: position{line: 2853, col: 12, offset: 90454},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2853, col: 13, offset: 90417},
+																								pos: position{line: 2853, col: 13, offset: 90455},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2853, col: 13, offset: 90417},
+																										pos: position{line: 2853, col: 13, offset: 90455},
 																										expr: &litMatcher{
-																											pos:        position{line: 2853, col: 13, offset: 90417},
+																											pos:        position{line: 2853, col: 13, offset: 90455},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2853, col: 18, offset: 90422},
+																										pos: position{line: 2853, col: 18, offset: 90460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2853, col: 18, offset: 90422},
+																											pos:        position{line: 2853, col: 18, offset: 90460},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 12, offset: 90416},
+														pos: position{line: 2853, col: 12, offset: 90454},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2853, col: 13, offset: 90417},
+															pos: position{line: 2853, col: 13, offset: 90455},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2853, col: 13, offset: 90417},
+																	pos: position{line: 2853, col: 13, offset: 90455},
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 13, offset: 90417},
+																		pos:        position{line: 2853, col: 13, offset: 90455},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2853, col: 18, offset: 90422},
+																	pos: position{line: 2853, col: 18, offset: 90460},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2853, col: 18, offset: 90422},
+																		pos:        position{line: 2853, col: 18, offset: 90460},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 12, offset: 90416},
+														pos: position{line: 2853, col: 12, offset: 90454},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2853, col: 13, offset: 90417},
+															pos: position{line: 2853, col: 13, offset: 90455},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2853, col: 13, offset: 90417},
+																	pos: position{line: 2853, col: 13, offset: 90455},
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 13, offset: 90417},
+																		pos:        position{line: 2853, col: 13, offset: 90455},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2853, col: 18, offset: 90422},
+																	pos: position{line: 2853, col: 18, offset: 90460},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2853, col: 18, offset: 90422},
+																		pos:        position{line: 2853, col: 18, offset: 90460},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2853, col: 12, offset: 90416},
+												pos: position{line: 2853, col: 12, offset: 90454},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2853, col: 13, offset: 90417},
+													pos: position{line: 2853, col: 13, offset: 90455},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2853, col: 13, offset: 90417},
+															pos: position{line: 2853, col: 13, offset: 90455},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90417},
+																pos:        position{line: 2853, col: 13, offset: 90455},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2853, col: 18, offset: 90422},
+															pos: position{line: 2853, col: 18, offset: 90460},
 															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 18, offset: 90422},
+																pos:        position{line: 2853, col: 18, offset: 90460},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2755, col: 14, offset: 87758},
+																		pos: position{line: 2755, col: 14, offset: 87796},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2755, col: 14, offset: 87758},
+																			pos: position{line: 2755, col: 14, offset: 87796},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2755, col: 14, offset: 87758},
+																				pos:        position{line: 2755, col: 14, offset: 87796},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2755, col: 14, offset: 87758},
+																				pos: position{line: 2755, col: 14, offset: 87796},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2755, col: 14, offset: 87758},
+																					pos: position{line: 2755, col: 14, offset: 87796},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2755, col: 14, offset: 87758},
+																						pos:        position{line: 2755, col: 14, offset: 87796},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2755, col: 14, offset: 87758},
+																							pos: position{line: 2755, col: 14, offset: 87796},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2755, col: 14, offset: 87758},
+																								pos: position{line: 2755, col: 14, offset: 87796},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2755, col: 14, offset: 87758},
+																									pos:        position{line: 2755, col: 14, offset: 87796},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2755, col: 14, offset: 87758},
+																									pos: position{line: 2755, col: 14, offset: 87796},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2755, col: 14, offset: 87758},
+																										pos: position{line: 2755, col: 14, offset: 87796},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2755, col: 14, offset: 87758},
+																											pos:        position{line: 2755, col: 14, offset: 87796},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2755, col: 14, offset: 87758},
+																pos: position{line: 2755, col: 14, offset: 87796},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2755, col: 14, offset: 87758},
+																	pos: position{line: 2755, col: 14, offset: 87796},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2755, col: 14, offset: 87758},
+																		pos:        position{line: 2755, col: 14, offset: 87796},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2755, col: 14, offset: 87758},
+																pos: position{line: 2755, col: 14, offset: 87796},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2755, col: 14, offset: 87758},
+																	pos: position{line: 2755, col: 14, offset: 87796},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2755, col: 14, offset: 87758},
+																		pos:        position{line: 2755, col: 14, offset: 87796},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21508},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21489},
+												pos: position{line: 677, col: 14, offset: 21508},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2878, col: 11, offset: 90923},
+														pos: position{line: 2878, col: 11, offset: 90961},
 														expr: &anyMatcher{
-															line: 2878, col: 13, offset: 90925,
+															line: 2878, col: 13, offset: 90963,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21496},
+														pos: position{line: 677, col: 21, offset: 21515},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26362},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26362},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26324},
+														pos:   position{line: 820, col: 5, offset: 26362},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23622},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23622},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23584},
+																		pos:   position{line: 740, col: 5, offset: 23622},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23633},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23633},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23595},
+																						pos:        position{line: 740, col: 16, offset: 23633},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23602},
+																						pos: position{line: 740, col: 23, offset: 23640},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23602},
+																							pos:        position{line: 740, col: 23, offset: 23640},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23686},
+																		pos: position{line: 742, col: 8, offset: 23724},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26363},
+														pos: position{line: 821, col: 5, offset: 26401},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26455},
+														pos:   position{line: 824, col: 5, offset: 26493},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26847},
+															pos: position{line: 839, col: 5, offset: 26885},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26848},
+																pos: position{line: 839, col: 6, offset: 26886},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26848},
+																	pos: position{line: 839, col: 6, offset: 26886},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26848},
+																			pos: position{line: 839, col: 6, offset: 26886},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26689},
+																				pos: position{line: 832, col: 5, offset: 26727},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26689},
+																						pos: position{line: 832, col: 5, offset: 26727},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26689},
+																								pos:   position{line: 832, col: 5, offset: 26727},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 740, col: 5, offset: 23622},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23584},
+																												pos:   position{line: 740, col: 5, offset: 23622},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 740, col: 16, offset: 23633},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23595},
+																																pos:        position{line: 740, col: 16, offset: 23633},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23602},
+																																pos: position{line: 740, col: 23, offset: 23640},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	pos:        position{line: 740, col: 23, offset: 23640},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23686},
+																												pos: position{line: 742, col: 8, offset: 23724},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26720},
+																								pos: position{line: 833, col: 5, offset: 26758},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26878},
+																			pos:   position{line: 840, col: 5, offset: 26916},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -4721,41 +4721,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26489},
+														pos: position{line: 825, col: 5, offset: 26527},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26689},
+															pos: position{line: 832, col: 5, offset: 26727},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26689},
+																	pos: position{line: 832, col: 5, offset: 26727},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26689},
+																			pos:   position{line: 832, col: 5, offset: 26727},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				run: (*parser).callonDocumentFragment149,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23622},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 740, col: 5, offset: 23622},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								run: (*parser).callonDocumentFragment152,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23633},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 740, col: 16, offset: 23633},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 740, col: 23, offset: 23640},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 740, col: 23, offset: 23640},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -4766,12 +4766,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 742, col: 8, offset: 23724},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -4822,15 +4822,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26720},
+																			pos: position{line: 833, col: 5, offset: 26758},
 																			run: (*parser).callonDocumentFragment168,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -4840,39 +4840,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 848, col: 5, offset: 27031},
+											pos: position{line: 848, col: 5, offset: 27069},
 											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 848, col: 5, offset: 27031},
+												pos: position{line: 848, col: 5, offset: 27069},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 848, col: 5, offset: 27031},
+														pos:   position{line: 848, col: 5, offset: 27069},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23870},
 															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23870},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23832},
+																		pos:   position{line: 747, col: 5, offset: 23870},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23881},
 																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23881},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23843},
+																						pos:        position{line: 747, col: 16, offset: 23881},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23850},
+																						pos: position{line: 747, col: 23, offset: 23888},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23850},
+																							pos:        position{line: 747, col: 23, offset: 23888},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4883,12 +4883,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23934},
+																		pos: position{line: 749, col: 8, offset: 23972},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -4939,56 +4939,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 849, col: 5, offset: 27070},
+														pos: position{line: 849, col: 5, offset: 27108},
 														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 852, col: 5, offset: 27162},
+														pos:   position{line: 852, col: 5, offset: 27200},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 867, col: 4, offset: 27559},
+															pos: position{line: 867, col: 4, offset: 27597},
 															expr: &actionExpr{
-																pos: position{line: 867, col: 5, offset: 27560},
+																pos: position{line: 867, col: 5, offset: 27598},
 																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 867, col: 5, offset: 27560},
+																	pos: position{line: 867, col: 5, offset: 27598},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 867, col: 5, offset: 27560},
+																			pos: position{line: 867, col: 5, offset: 27598},
 																			expr: &choiceExpr{
-																				pos: position{line: 860, col: 5, offset: 27402},
+																				pos: position{line: 860, col: 5, offset: 27440},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 860, col: 5, offset: 27402},
+																						pos: position{line: 860, col: 5, offset: 27440},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 860, col: 5, offset: 27402},
+																								pos:   position{line: 860, col: 5, offset: 27440},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23870},
 																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 747, col: 5, offset: 23870},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23832},
+																												pos:   position{line: 747, col: 5, offset: 23870},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23881},
 																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 747, col: 16, offset: 23881},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23843},
+																																pos:        position{line: 747, col: 16, offset: 23881},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23850},
+																																pos: position{line: 747, col: 23, offset: 23888},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23850},
+																																	pos:        position{line: 747, col: 23, offset: 23888},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4999,12 +4999,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23934},
+																												pos: position{line: 749, col: 8, offset: 23972},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -5055,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 861, col: 5, offset: 27433},
+																								pos: position{line: 861, col: 5, offset: 27471},
 																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 868, col: 5, offset: 27590},
+																			pos:   position{line: 868, col: 5, offset: 27628},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -5150,44 +5150,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27196},
+														pos:   position{line: 853, col: 5, offset: 27234},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 853, col: 9, offset: 27200},
+															pos: position{line: 853, col: 9, offset: 27238},
 															expr: &choiceExpr{
-																pos: position{line: 860, col: 5, offset: 27402},
+																pos: position{line: 860, col: 5, offset: 27440},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 860, col: 5, offset: 27402},
+																		pos: position{line: 860, col: 5, offset: 27440},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 860, col: 5, offset: 27402},
+																				pos:   position{line: 860, col: 5, offset: 27440},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23870},
 																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23870},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 747, col: 5, offset: 23870},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23881},
 																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23881},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 747, col: 16, offset: 23881},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 747, col: 23, offset: 23888},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 747, col: 23, offset: 23888},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5198,12 +5198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -5254,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 861, col: 5, offset: 27433},
+																				pos: position{line: 861, col: 5, offset: 27471},
 																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -5273,36 +5273,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 960, col: 5, offset: 29882},
+											pos: position{line: 960, col: 5, offset: 29920},
 											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 960, col: 5, offset: 29882},
+												pos: position{line: 960, col: 5, offset: 29920},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 960, col: 5, offset: 29882},
+														pos:   position{line: 960, col: 5, offset: 29920},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24358},
 															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24358},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24320},
+																		pos:        position{line: 760, col: 26, offset: 24358},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24326},
+																		pos:   position{line: 760, col: 32, offset: 24364},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24456},
+																			pos: position{line: 764, col: 13, offset: 24494},
 																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24457},
+																				pos: position{line: 764, col: 14, offset: 24495},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24457},
+																					pos:        position{line: 764, col: 14, offset: 24495},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5312,12 +5312,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24346},
+																		pos: position{line: 760, col: 52, offset: 24384},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -5368,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 961, col: 5, offset: 29928},
+														pos:   position{line: 961, col: 5, offset: 29966},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 974, col: 5, offset: 30401},
+															pos: position{line: 974, col: 5, offset: 30439},
 															expr: &actionExpr{
-																pos: position{line: 974, col: 6, offset: 30402},
+																pos: position{line: 974, col: 6, offset: 30440},
 																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 974, col: 6, offset: 30402},
+																	pos: position{line: 974, col: 6, offset: 30440},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 974, col: 6, offset: 30402},
+																			pos: position{line: 974, col: 6, offset: 30440},
 																			expr: &seqExpr{
-																				pos: position{line: 971, col: 34, offset: 30349},
+																				pos: position{line: 971, col: 34, offset: 30387},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 971, col: 34, offset: 30349},
+																						pos:        position{line: 971, col: 34, offset: 30387},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 971, col: 40, offset: 30355},
+																						pos: position{line: 971, col: 40, offset: 30393},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -5445,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 975, col: 5, offset: 30437},
+																			pos:   position{line: 975, col: 5, offset: 30475},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -5525,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 962, col: 5, offset: 29967},
+														pos: position{line: 962, col: 5, offset: 30005},
 														expr: &seqExpr{
-															pos: position{line: 971, col: 34, offset: 30349},
+															pos: position{line: 971, col: 34, offset: 30387},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 971, col: 34, offset: 30349},
+																	pos:        position{line: 971, col: 34, offset: 30387},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 971, col: 40, offset: 30355},
+																	pos: position{line: 971, col: 40, offset: 30393},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -5594,39 +5594,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 876, col: 5, offset: 27743},
+											pos: position{line: 876, col: 5, offset: 27781},
 											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 876, col: 5, offset: 27743},
+												pos: position{line: 876, col: 5, offset: 27781},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 876, col: 5, offset: 27743},
+														pos:   position{line: 876, col: 5, offset: 27781},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24117},
 															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24117},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24079},
+																		pos:   position{line: 754, col: 5, offset: 24117},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24128},
 																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24128},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24090},
+																						pos:        position{line: 754, col: 16, offset: 24128},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24096},
+																						pos: position{line: 754, col: 22, offset: 24134},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24096},
+																							pos:        position{line: 754, col: 22, offset: 24134},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5637,12 +5637,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24180},
+																		pos: position{line: 756, col: 8, offset: 24218},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -5693,56 +5693,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 877, col: 5, offset: 27781},
+														pos: position{line: 877, col: 5, offset: 27819},
 														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 880, col: 5, offset: 27873},
+														pos:   position{line: 880, col: 5, offset: 27911},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 895, col: 5, offset: 28263},
+															pos: position{line: 895, col: 5, offset: 28301},
 															expr: &actionExpr{
-																pos: position{line: 895, col: 6, offset: 28264},
+																pos: position{line: 895, col: 6, offset: 28302},
 																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 895, col: 6, offset: 28264},
+																	pos: position{line: 895, col: 6, offset: 28302},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 895, col: 6, offset: 28264},
+																			pos: position{line: 895, col: 6, offset: 28302},
 																			expr: &choiceExpr{
-																				pos: position{line: 888, col: 5, offset: 28107},
+																				pos: position{line: 888, col: 5, offset: 28145},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 888, col: 5, offset: 28107},
+																						pos: position{line: 888, col: 5, offset: 28145},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 888, col: 5, offset: 28107},
+																								pos:   position{line: 888, col: 5, offset: 28145},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24117},
 																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 754, col: 5, offset: 24117},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24079},
+																												pos:   position{line: 754, col: 5, offset: 24117},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24128},
 																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 754, col: 16, offset: 24128},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24090},
+																																pos:        position{line: 754, col: 16, offset: 24128},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24096},
+																																pos: position{line: 754, col: 22, offset: 24134},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24096},
+																																	pos:        position{line: 754, col: 22, offset: 24134},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5753,12 +5753,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24180},
+																												pos: position{line: 756, col: 8, offset: 24218},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -5809,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 889, col: 5, offset: 28137},
+																								pos: position{line: 889, col: 5, offset: 28175},
 																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 896, col: 5, offset: 28293},
+																			pos:   position{line: 896, col: 5, offset: 28331},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -5904,44 +5904,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 27906},
+														pos:   position{line: 881, col: 5, offset: 27944},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 881, col: 9, offset: 27910},
+															pos: position{line: 881, col: 9, offset: 27948},
 															expr: &choiceExpr{
-																pos: position{line: 888, col: 5, offset: 28107},
+																pos: position{line: 888, col: 5, offset: 28145},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 888, col: 5, offset: 28107},
+																		pos: position{line: 888, col: 5, offset: 28145},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 888, col: 5, offset: 28107},
+																				pos:   position{line: 888, col: 5, offset: 28145},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24117},
 																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24117},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 754, col: 5, offset: 24117},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24128},
 																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24128},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 754, col: 16, offset: 24128},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 754, col: 22, offset: 24134},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 754, col: 22, offset: 24134},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5952,12 +5952,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -6008,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 889, col: 5, offset: 28137},
+																				pos: position{line: 889, col: 5, offset: 28175},
 																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -6027,39 +6027,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 904, col: 5, offset: 28448},
+											pos: position{line: 904, col: 5, offset: 28486},
 											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 904, col: 5, offset: 28448},
+												pos: position{line: 904, col: 5, offset: 28486},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 904, col: 5, offset: 28448},
+														pos:   position{line: 904, col: 5, offset: 28486},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24654},
 															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24654},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24616},
+																		pos:   position{line: 769, col: 5, offset: 24654},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24665},
 																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24665},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24627},
+																						pos:        position{line: 769, col: 16, offset: 24665},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24634},
+																						pos: position{line: 769, col: 23, offset: 24672},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24634},
+																							pos:        position{line: 769, col: 23, offset: 24672},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6070,12 +6070,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24718},
+																		pos: position{line: 771, col: 8, offset: 24756},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -6126,56 +6126,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 905, col: 5, offset: 28487},
+														pos: position{line: 905, col: 5, offset: 28525},
 														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 908, col: 5, offset: 28579},
+														pos:   position{line: 908, col: 5, offset: 28617},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 923, col: 5, offset: 28977},
+															pos: position{line: 923, col: 5, offset: 29015},
 															expr: &actionExpr{
-																pos: position{line: 923, col: 6, offset: 28978},
+																pos: position{line: 923, col: 6, offset: 29016},
 																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 923, col: 6, offset: 28978},
+																	pos: position{line: 923, col: 6, offset: 29016},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 923, col: 6, offset: 28978},
+																			pos: position{line: 923, col: 6, offset: 29016},
 																			expr: &choiceExpr{
-																				pos: position{line: 916, col: 5, offset: 28819},
+																				pos: position{line: 916, col: 5, offset: 28857},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 916, col: 5, offset: 28819},
+																						pos: position{line: 916, col: 5, offset: 28857},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 916, col: 5, offset: 28819},
+																								pos:   position{line: 916, col: 5, offset: 28857},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24654},
 																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 769, col: 5, offset: 24654},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24616},
+																												pos:   position{line: 769, col: 5, offset: 24654},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24665},
 																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 769, col: 16, offset: 24665},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24627},
+																																pos:        position{line: 769, col: 16, offset: 24665},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24634},
+																																pos: position{line: 769, col: 23, offset: 24672},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24634},
+																																	pos:        position{line: 769, col: 23, offset: 24672},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6186,12 +6186,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24718},
+																												pos: position{line: 771, col: 8, offset: 24756},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -6242,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 917, col: 5, offset: 28850},
+																								pos: position{line: 917, col: 5, offset: 28888},
 																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 924, col: 5, offset: 29008},
+																			pos:   position{line: 924, col: 5, offset: 29046},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -6337,44 +6337,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28613},
+														pos:   position{line: 909, col: 5, offset: 28651},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 909, col: 9, offset: 28617},
+															pos: position{line: 909, col: 9, offset: 28655},
 															expr: &choiceExpr{
-																pos: position{line: 916, col: 5, offset: 28819},
+																pos: position{line: 916, col: 5, offset: 28857},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 916, col: 5, offset: 28819},
+																		pos: position{line: 916, col: 5, offset: 28857},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 916, col: 5, offset: 28819},
+																				pos:   position{line: 916, col: 5, offset: 28857},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24654},
 																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24654},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 769, col: 5, offset: 24654},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24665},
 																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 769, col: 16, offset: 24665},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 769, col: 23, offset: 24672},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 769, col: 23, offset: 24672},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6385,12 +6385,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -6441,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 917, col: 5, offset: 28850},
+																				pos: position{line: 917, col: 5, offset: 28888},
 																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -6460,39 +6460,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 932, col: 5, offset: 29163},
+											pos: position{line: 932, col: 5, offset: 29201},
 											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 932, col: 5, offset: 29163},
+												pos: position{line: 932, col: 5, offset: 29201},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 932, col: 5, offset: 29163},
+														pos:   position{line: 932, col: 5, offset: 29201},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25130},
 															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25130},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25092},
+																		pos:   position{line: 783, col: 5, offset: 25130},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25141},
 																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25141},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25103},
+																						pos:        position{line: 783, col: 16, offset: 25141},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25110},
+																						pos: position{line: 783, col: 23, offset: 25148},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25110},
+																							pos:        position{line: 783, col: 23, offset: 25148},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6503,12 +6503,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25194},
+																		pos: position{line: 785, col: 8, offset: 25232},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -6559,56 +6559,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 933, col: 5, offset: 29202},
+														pos: position{line: 933, col: 5, offset: 29240},
 														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 936, col: 5, offset: 29294},
+														pos:   position{line: 936, col: 5, offset: 29332},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 951, col: 5, offset: 29692},
+															pos: position{line: 951, col: 5, offset: 29730},
 															expr: &actionExpr{
-																pos: position{line: 951, col: 6, offset: 29693},
+																pos: position{line: 951, col: 6, offset: 29731},
 																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 951, col: 6, offset: 29693},
+																	pos: position{line: 951, col: 6, offset: 29731},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 951, col: 6, offset: 29693},
+																			pos: position{line: 951, col: 6, offset: 29731},
 																			expr: &choiceExpr{
-																				pos: position{line: 944, col: 5, offset: 29534},
+																				pos: position{line: 944, col: 5, offset: 29572},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 944, col: 5, offset: 29534},
+																						pos: position{line: 944, col: 5, offset: 29572},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 944, col: 5, offset: 29534},
+																								pos:   position{line: 944, col: 5, offset: 29572},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25130},
 																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 783, col: 5, offset: 25130},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25092},
+																												pos:   position{line: 783, col: 5, offset: 25130},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25141},
 																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 783, col: 16, offset: 25141},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25103},
+																																pos:        position{line: 783, col: 16, offset: 25141},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25110},
+																																pos: position{line: 783, col: 23, offset: 25148},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25110},
+																																	pos:        position{line: 783, col: 23, offset: 25148},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6619,12 +6619,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25194},
+																												pos: position{line: 785, col: 8, offset: 25232},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -6675,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 945, col: 5, offset: 29565},
+																								pos: position{line: 945, col: 5, offset: 29603},
 																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 952, col: 5, offset: 29723},
+																			pos:   position{line: 952, col: 5, offset: 29761},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -6770,44 +6770,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29328},
+														pos:   position{line: 937, col: 5, offset: 29366},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 937, col: 9, offset: 29332},
+															pos: position{line: 937, col: 9, offset: 29370},
 															expr: &choiceExpr{
-																pos: position{line: 944, col: 5, offset: 29534},
+																pos: position{line: 944, col: 5, offset: 29572},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 944, col: 5, offset: 29534},
+																		pos: position{line: 944, col: 5, offset: 29572},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 944, col: 5, offset: 29534},
+																				pos:   position{line: 944, col: 5, offset: 29572},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25130},
 																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25130},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 783, col: 5, offset: 25130},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25141},
 																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25141},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 783, col: 16, offset: 25141},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 783, col: 23, offset: 25148},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 783, col: 23, offset: 25148},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6818,12 +6818,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -6874,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 945, col: 5, offset: 29565},
+																				pos: position{line: 945, col: 5, offset: 29603},
 																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -6893,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 983, col: 5, offset: 30606},
+											pos: position{line: 983, col: 5, offset: 30644},
 											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 983, col: 5, offset: 30606},
+												pos: position{line: 983, col: 5, offset: 30644},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 983, col: 5, offset: 30606},
+														pos:   position{line: 983, col: 5, offset: 30644},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 990, col: 5, offset: 30865},
+															pos: position{line: 990, col: 5, offset: 30903},
 															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 990, col: 5, offset: 30865},
+																pos: position{line: 990, col: 5, offset: 30903},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 990, col: 5, offset: 30865},
+																		pos: position{line: 990, col: 5, offset: 30903},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21508},
 																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21508},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21496},
+																						pos: position{line: 677, col: 21, offset: 21515},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -6978,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 991, col: 5, offset: 30880},
+																		pos:        position{line: 991, col: 5, offset: 30918},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 992, col: 5, offset: 30890},
+																		pos:   position{line: 992, col: 5, offset: 30928},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89182},
+																			pos: position{line: 2811, col: 14, offset: 89220},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89182},
+																				pos: position{line: 2811, col: 14, offset: 89220},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89182},
+																					pos:        position{line: 2811, col: 14, offset: 89220},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -7044,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30643},
+														pos:   position{line: 984, col: 5, offset: 30681},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 984, col: 16, offset: 30654},
+															pos: position{line: 984, col: 16, offset: 30692},
 															expr: &choiceExpr{
-																pos: position{line: 984, col: 17, offset: 30655},
+																pos: position{line: 984, col: 17, offset: 30693},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 990, col: 5, offset: 30865},
+																		pos: position{line: 990, col: 5, offset: 30903},
 																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 990, col: 5, offset: 30865},
+																			pos: position{line: 990, col: 5, offset: 30903},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 990, col: 5, offset: 30865},
+																					pos: position{line: 990, col: 5, offset: 30903},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21508},
 																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21508},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2878, col: 11, offset: 90923},
+																									pos: position{line: 2878, col: 11, offset: 90961},
 																									expr: &anyMatcher{
-																										line: 2878, col: 13, offset: 90925,
+																										line: 2878, col: 13, offset: 90963,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21496},
+																									pos: position{line: 677, col: 21, offset: 21515},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -7128,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 991, col: 5, offset: 30880},
+																					pos:        position{line: 991, col: 5, offset: 30918},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 992, col: 5, offset: 30890},
+																					pos:   position{line: 992, col: 5, offset: 30928},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2811, col: 14, offset: 89182},
+																						pos: position{line: 2811, col: 14, offset: 89220},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2811, col: 14, offset: 89182},
+																							pos: position{line: 2811, col: 14, offset: 89220},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2811, col: 14, offset: 89182},
+																								pos:        position{line: 2811, col: 14, offset: 89220},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1793, col: 5, offset: 57955},
+																		pos: position{line: 1793, col: 5, offset: 57993},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1793, col: 5, offset: 57955},
+																			pos: position{line: 1793, col: 5, offset: 57993},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1793, col: 5, offset: 57955},
+																					pos:   position{line: 1793, col: 5, offset: 57993},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2811, col: 14, offset: 89182},
+																						pos: position{line: 2811, col: 14, offset: 89220},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2811, col: 14, offset: 89182},
+																							pos: position{line: 2811, col: 14, offset: 89220},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2811, col: 14, offset: 89182},
+																								pos:        position{line: 2811, col: 14, offset: 89220},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1794, col: 5, offset: 57979},
+																					pos: position{line: 1794, col: 5, offset: 58017},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -7269,28 +7269,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1005, col: 5, offset: 31155},
+											pos: position{line: 1005, col: 5, offset: 31193},
 											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 1005, col: 5, offset: 31155},
+												pos: position{line: 1005, col: 5, offset: 31193},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1005, col: 5, offset: 31155},
+														pos:   position{line: 1005, col: 5, offset: 31193},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24899},
 															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24899},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 776, col: 5, offset: 24899},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 776, col: 16, offset: 24910},
 																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 776, col: 16, offset: 24910},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7298,12 +7298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -7354,35 +7354,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1006, col: 5, offset: 31191},
+														pos:   position{line: 1006, col: 5, offset: 31229},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1016, col: 5, offset: 31459},
+															pos: position{line: 1016, col: 5, offset: 31497},
 															expr: &actionExpr{
-																pos: position{line: 1016, col: 6, offset: 31460},
+																pos: position{line: 1016, col: 6, offset: 31498},
 																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1016, col: 6, offset: 31460},
+																	pos: position{line: 1016, col: 6, offset: 31498},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1016, col: 6, offset: 31460},
+																			pos: position{line: 1016, col: 6, offset: 31498},
 																			expr: &choiceExpr{
-																				pos: position{line: 1013, col: 26, offset: 31408},
+																				pos: position{line: 1013, col: 26, offset: 31446},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24899},
 																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24861},
+																							pos: position{line: 776, col: 5, offset: 24899},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24861},
+																									pos:   position{line: 776, col: 5, offset: 24899},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24872},
+																										pos: position{line: 776, col: 16, offset: 24910},
 																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24872},
+																											pos:        position{line: 776, col: 16, offset: 24910},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7390,12 +7390,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24949},
+																									pos: position{line: 778, col: 8, offset: 24987},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -7445,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1017, col: 5, offset: 31487},
+																			pos:   position{line: 1017, col: 5, offset: 31525},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -7534,27 +7534,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1007, col: 5, offset: 31222},
+														pos:   position{line: 1007, col: 5, offset: 31260},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1007, col: 9, offset: 31226},
+															pos: position{line: 1007, col: 9, offset: 31264},
 															expr: &choiceExpr{
-																pos: position{line: 1013, col: 26, offset: 31408},
+																pos: position{line: 1013, col: 26, offset: 31446},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24899},
 																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24861},
+																			pos: position{line: 776, col: 5, offset: 24899},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24861},
+																					pos:   position{line: 776, col: 5, offset: 24899},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24872},
+																						pos: position{line: 776, col: 16, offset: 24910},
 																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24872},
+																							pos:        position{line: 776, col: 16, offset: 24910},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7562,12 +7562,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24949},
+																					pos: position{line: 778, col: 8, offset: 24987},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -7630,39 +7630,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1025, col: 5, offset: 31650},
+											pos: position{line: 1025, col: 5, offset: 31688},
 											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1025, col: 5, offset: 31650},
+												pos: position{line: 1025, col: 5, offset: 31688},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31650},
+														pos:   position{line: 1025, col: 5, offset: 31688},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25382},
 															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25382},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25344},
+																		pos:   position{line: 790, col: 5, offset: 25382},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25393},
 																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25393},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25355},
+																						pos:        position{line: 790, col: 16, offset: 25393},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25362},
+																						pos: position{line: 790, col: 23, offset: 25400},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25362},
+																							pos:        position{line: 790, col: 23, offset: 25400},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7673,12 +7673,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25446},
+																		pos: position{line: 792, col: 8, offset: 25484},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -7729,56 +7729,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1026, col: 5, offset: 31693},
+														pos: position{line: 1026, col: 5, offset: 31731},
 														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1029, col: 5, offset: 31785},
+														pos:   position{line: 1029, col: 5, offset: 31823},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1044, col: 5, offset: 32215},
+															pos: position{line: 1044, col: 5, offset: 32253},
 															expr: &actionExpr{
-																pos: position{line: 1044, col: 6, offset: 32216},
+																pos: position{line: 1044, col: 6, offset: 32254},
 																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1044, col: 6, offset: 32216},
+																	pos: position{line: 1044, col: 6, offset: 32254},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1044, col: 6, offset: 32216},
+																			pos: position{line: 1044, col: 6, offset: 32254},
 																			expr: &choiceExpr{
-																				pos: position{line: 1037, col: 5, offset: 32049},
+																				pos: position{line: 1037, col: 5, offset: 32087},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1037, col: 5, offset: 32049},
+																						pos: position{line: 1037, col: 5, offset: 32087},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1037, col: 5, offset: 32049},
+																								pos:   position{line: 1037, col: 5, offset: 32087},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25382},
 																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 790, col: 5, offset: 25382},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25344},
+																												pos:   position{line: 790, col: 5, offset: 25382},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25393},
 																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 790, col: 16, offset: 25393},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25355},
+																																pos:        position{line: 790, col: 16, offset: 25393},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25362},
+																																pos: position{line: 790, col: 23, offset: 25400},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25362},
+																																	pos:        position{line: 790, col: 23, offset: 25400},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7789,12 +7789,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25446},
+																												pos: position{line: 792, col: 8, offset: 25484},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -7845,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1038, col: 5, offset: 32084},
+																								pos: position{line: 1038, col: 5, offset: 32122},
 																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1045, col: 5, offset: 32250},
+																			pos:   position{line: 1045, col: 5, offset: 32288},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -7940,44 +7940,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 31823},
+														pos:   position{line: 1030, col: 5, offset: 31861},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1030, col: 9, offset: 31827},
+															pos: position{line: 1030, col: 9, offset: 31865},
 															expr: &choiceExpr{
-																pos: position{line: 1037, col: 5, offset: 32049},
+																pos: position{line: 1037, col: 5, offset: 32087},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1037, col: 5, offset: 32049},
+																		pos: position{line: 1037, col: 5, offset: 32087},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1037, col: 5, offset: 32049},
+																				pos:   position{line: 1037, col: 5, offset: 32087},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25382},
 																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25382},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 790, col: 5, offset: 25382},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25393},
 																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25393},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 790, col: 16, offset: 25393},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 790, col: 23, offset: 25400},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 790, col: 23, offset: 25400},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7988,12 +7988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -8044,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1038, col: 5, offset: 32084},
+																				pos: position{line: 1038, col: 5, offset: 32122},
 																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -8063,39 +8063,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1053, col: 5, offset: 32401},
+											pos: position{line: 1053, col: 5, offset: 32439},
 											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1053, col: 5, offset: 32401},
+												pos: position{line: 1053, col: 5, offset: 32439},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1053, col: 5, offset: 32401},
+														pos:   position{line: 1053, col: 5, offset: 32439},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25632},
 															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25632},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
+																		pos:   position{line: 797, col: 5, offset: 25632},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25643},
 																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25643},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
+																						pos:        position{line: 797, col: 16, offset: 25643},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
+																						pos: position{line: 797, col: 23, offset: 25650},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
+																							pos:        position{line: 797, col: 23, offset: 25650},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8106,12 +8106,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
+																		pos: position{line: 799, col: 8, offset: 25734},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -8162,56 +8162,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1054, col: 5, offset: 32438},
+														pos: position{line: 1054, col: 5, offset: 32476},
 														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1057, col: 5, offset: 32530},
+														pos:   position{line: 1057, col: 5, offset: 32568},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1072, col: 4, offset: 32911},
+															pos: position{line: 1072, col: 4, offset: 32949},
 															expr: &actionExpr{
-																pos: position{line: 1072, col: 5, offset: 32912},
+																pos: position{line: 1072, col: 5, offset: 32950},
 																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1072, col: 5, offset: 32912},
+																	pos: position{line: 1072, col: 5, offset: 32950},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1072, col: 5, offset: 32912},
+																			pos: position{line: 1072, col: 5, offset: 32950},
 																			expr: &choiceExpr{
-																				pos: position{line: 1065, col: 5, offset: 32758},
+																				pos: position{line: 1065, col: 5, offset: 32796},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1065, col: 5, offset: 32758},
+																						pos: position{line: 1065, col: 5, offset: 32796},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1065, col: 5, offset: 32758},
+																								pos:   position{line: 1065, col: 5, offset: 32796},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25632},
 																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 797, col: 5, offset: 25632},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
+																												pos:   position{line: 797, col: 5, offset: 25632},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25643},
 																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 797, col: 16, offset: 25643},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
+																																pos:        position{line: 797, col: 16, offset: 25643},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
+																																pos: position{line: 797, col: 23, offset: 25650},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	pos:        position{line: 797, col: 23, offset: 25650},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8222,12 +8222,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
+																												pos: position{line: 799, col: 8, offset: 25734},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -8278,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1066, col: 5, offset: 32787},
+																								pos: position{line: 1066, col: 5, offset: 32825},
 																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1073, col: 5, offset: 32940},
+																			pos:   position{line: 1073, col: 5, offset: 32978},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -8373,44 +8373,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32562},
+														pos:   position{line: 1058, col: 5, offset: 32600},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1058, col: 9, offset: 32566},
+															pos: position{line: 1058, col: 9, offset: 32604},
 															expr: &choiceExpr{
-																pos: position{line: 1065, col: 5, offset: 32758},
+																pos: position{line: 1065, col: 5, offset: 32796},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1065, col: 5, offset: 32758},
+																		pos: position{line: 1065, col: 5, offset: 32796},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1065, col: 5, offset: 32758},
+																				pos:   position{line: 1065, col: 5, offset: 32796},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25632},
 																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25632},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 797, col: 5, offset: 25632},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25643},
 																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 797, col: 16, offset: 25643},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 797, col: 23, offset: 25650},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 797, col: 23, offset: 25650},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8421,12 +8421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -8477,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1066, col: 5, offset: 32787},
+																				pos: position{line: 1066, col: 5, offset: 32825},
 																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -8496,39 +8496,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1081, col: 5, offset: 33095},
+											pos: position{line: 1081, col: 5, offset: 33133},
 											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1081, col: 5, offset: 33095},
+												pos: position{line: 1081, col: 5, offset: 33133},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1081, col: 5, offset: 33095},
+														pos:   position{line: 1081, col: 5, offset: 33133},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25878},
 															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25878},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25840},
+																		pos:   position{line: 804, col: 5, offset: 25878},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25889},
 																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25889},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25851},
+																						pos:        position{line: 804, col: 16, offset: 25889},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25858},
+																						pos: position{line: 804, col: 23, offset: 25896},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25858},
+																							pos:        position{line: 804, col: 23, offset: 25896},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8539,12 +8539,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25942},
+																		pos: position{line: 806, col: 8, offset: 25980},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -8595,56 +8595,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1082, col: 5, offset: 33134},
+														pos: position{line: 1082, col: 5, offset: 33172},
 														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1085, col: 5, offset: 33226},
+														pos:   position{line: 1085, col: 5, offset: 33264},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1100, col: 4, offset: 33623},
+															pos: position{line: 1100, col: 4, offset: 33661},
 															expr: &actionExpr{
-																pos: position{line: 1100, col: 5, offset: 33624},
+																pos: position{line: 1100, col: 5, offset: 33662},
 																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1100, col: 5, offset: 33624},
+																	pos: position{line: 1100, col: 5, offset: 33662},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1100, col: 5, offset: 33624},
+																			pos: position{line: 1100, col: 5, offset: 33662},
 																			expr: &choiceExpr{
-																				pos: position{line: 1093, col: 5, offset: 33466},
+																				pos: position{line: 1093, col: 5, offset: 33504},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1093, col: 5, offset: 33466},
+																						pos: position{line: 1093, col: 5, offset: 33504},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1093, col: 5, offset: 33466},
+																								pos:   position{line: 1093, col: 5, offset: 33504},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25878},
 																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 804, col: 5, offset: 25878},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25840},
+																												pos:   position{line: 804, col: 5, offset: 25878},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25889},
 																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 804, col: 16, offset: 25889},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25851},
+																																pos:        position{line: 804, col: 16, offset: 25889},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25858},
+																																pos: position{line: 804, col: 23, offset: 25896},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25858},
+																																	pos:        position{line: 804, col: 23, offset: 25896},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8655,12 +8655,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25942},
+																												pos: position{line: 806, col: 8, offset: 25980},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -8711,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1094, col: 5, offset: 33497},
+																								pos: position{line: 1094, col: 5, offset: 33535},
 																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1101, col: 5, offset: 33654},
+																			pos:   position{line: 1101, col: 5, offset: 33692},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -8806,44 +8806,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33260},
+														pos:   position{line: 1086, col: 5, offset: 33298},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1086, col: 9, offset: 33264},
+															pos: position{line: 1086, col: 9, offset: 33302},
 															expr: &choiceExpr{
-																pos: position{line: 1093, col: 5, offset: 33466},
+																pos: position{line: 1093, col: 5, offset: 33504},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1093, col: 5, offset: 33466},
+																		pos: position{line: 1093, col: 5, offset: 33504},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1093, col: 5, offset: 33466},
+																				pos:   position{line: 1093, col: 5, offset: 33504},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25878},
 																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25878},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 804, col: 5, offset: 25878},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25889},
 																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25889},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 804, col: 16, offset: 25889},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 804, col: 23, offset: 25896},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 804, col: 23, offset: 25896},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8854,12 +8854,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -8910,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1094, col: 5, offset: 33497},
+																				pos: position{line: 1094, col: 5, offset: 33535},
 																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2706, col: 18, offset: 86179},
+											pos: position{line: 2706, col: 18, offset: 86217},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2707, col: 9, offset: 86189},
+												pos: position{line: 2707, col: 9, offset: 86227},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2707, col: 9, offset: 86189},
+														pos: position{line: 2707, col: 9, offset: 86227},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2707, col: 9, offset: 86189},
+																pos:        position{line: 2707, col: 9, offset: 86227},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2707, col: 15, offset: 86195},
+																pos: position{line: 2707, col: 15, offset: 86233},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2708, col: 11, offset: 86228},
+														pos: position{line: 2708, col: 11, offset: 86266},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2708, col: 12, offset: 86229},
+																pos: position{line: 2708, col: 12, offset: 86267},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 12, offset: 86229},
+																		pos:        position{line: 2708, col: 12, offset: 86267},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 20, offset: 86237},
+																		pos:        position{line: 2708, col: 20, offset: 86275},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 30, offset: 86247},
+																		pos:        position{line: 2708, col: 30, offset: 86285},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 38, offset: 86255},
+																		pos:        position{line: 2708, col: 38, offset: 86293},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 48, offset: 86265},
+																		pos:        position{line: 2708, col: 48, offset: 86303},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 56, offset: 86273},
+																		pos:        position{line: 2708, col: 56, offset: 86311},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2708, col: 65, offset: 86282},
+																pos: position{line: 2708, col: 65, offset: 86320},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2708, col: 76, offset: 86293},
+																pos: position{line: 2708, col: 76, offset: 86331},
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 5, offset: 83115},
+											pos: position{line: 2597, col: 5, offset: 83153},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2597, col: 5, offset: 83115},
+												pos: position{line: 2597, col: 5, offset: 83153},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2603, col: 19, offset: 83272},
+														pos:        position{line: 2603, col: 19, offset: 83310},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2603, col: 26, offset: 83279},
+														pos: position{line: 2603, col: 26, offset: 83317},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2598, col: 5, offset: 83139},
+														pos:   position{line: 2598, col: 5, offset: 83177},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2598, col: 11, offset: 83145},
+															pos: position{line: 2598, col: 11, offset: 83183},
 															expr: &choiceExpr{
-																pos: position{line: 2598, col: 12, offset: 83146},
+																pos: position{line: 2598, col: 12, offset: 83184},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21508},
 																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90923},
+																					pos: position{line: 2878, col: 11, offset: 90961},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90925,
+																						line: 2878, col: 13, offset: 90963,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2610, col: 5, offset: 83391},
+																		pos: position{line: 2610, col: 5, offset: 83429},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2610, col: 5, offset: 83391},
+																			pos: position{line: 2610, col: 5, offset: 83429},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2610, col: 5, offset: 83391},
+																					pos: position{line: 2610, col: 5, offset: 83429},
 																					expr: &choiceExpr{
-																						pos: position{line: 2607, col: 22, offset: 83352},
+																						pos: position{line: 2607, col: 22, offset: 83390},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2603, col: 19, offset: 83272},
+																								pos: position{line: 2603, col: 19, offset: 83310},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2603, col: 19, offset: 83272},
+																										pos:        position{line: 2603, col: 19, offset: 83310},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2603, col: 26, offset: 83279},
+																										pos: position{line: 2603, col: 26, offset: 83317},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90589},
+																											pos: position{line: 2861, col: 10, offset: 90627},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90589},
+																												pos:        position{line: 2861, col: 10, offset: 90627},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2883, col: 8, offset: 90987},
+																										pos: position{line: 2883, col: 8, offset: 91025},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2870, col: 12, offset: 90760},
+																												pos: position{line: 2870, col: 12, offset: 90798},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2870, col: 13, offset: 90761},
+																													pos: position{line: 2870, col: 13, offset: 90799},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 13, offset: 90761},
+																															pos:        position{line: 2870, col: 13, offset: 90799},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 20, offset: 90768},
+																															pos:        position{line: 2870, col: 20, offset: 90806},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 29, offset: 90777},
+																															pos:        position{line: 2870, col: 29, offset: 90815},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2880, col: 8, offset: 90937},
+																												pos: position{line: 2880, col: 8, offset: 90975},
 																												expr: &anyMatcher{
-																													line: 2880, col: 9, offset: 90938,
+																													line: 2880, col: 9, offset: 90976,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2611, col: 5, offset: 83414},
+																					pos:   position{line: 2611, col: 5, offset: 83452},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2612, col: 9, offset: 83432},
+																						pos: position{line: 2612, col: 9, offset: 83470},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2612, col: 10, offset: 83433},
+																								pos: position{line: 2612, col: 10, offset: 83471},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2612, col: 10, offset: 83433},
+																									pos:   position{line: 2612, col: 10, offset: 83471},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2612, col: 17, offset: 83440},
+																										pos: position{line: 2612, col: 17, offset: 83478},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2620, col: 21, offset: 83636},
+																												pos: position{line: 2620, col: 21, offset: 83674},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2620, col: 21, offset: 83636},
+																													pos: position{line: 2620, col: 21, offset: 83674},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2620, col: 21, offset: 83636},
+																															pos:   position{line: 2620, col: 21, offset: 83674},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2620, col: 27, offset: 83642},
+																																pos: position{line: 2620, col: 27, offset: 83680},
 																																expr: &actionExpr{
-																																	pos: position{line: 2625, col: 5, offset: 83717},
+																																	pos: position{line: 2625, col: 5, offset: 83755},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2625, col: 5, offset: 83717},
+																																		pos: position{line: 2625, col: 5, offset: 83755},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2625, col: 5, offset: 83717},
+																																				pos:        position{line: 2625, col: 5, offset: 83755},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2625, col: 9, offset: 83721},
+																																				pos: position{line: 2625, col: 9, offset: 83759},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2861, col: 10, offset: 90589},
+																																					pos: position{line: 2861, col: 10, offset: 90627},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2861, col: 10, offset: 90589},
+																																						pos:        position{line: 2861, col: 10, offset: 90627},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2625, col: 16, offset: 83728},
+																																				pos:   position{line: 2625, col: 16, offset: 83766},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2631, col: 5, offset: 83928},
+																																					pos: position{line: 2631, col: 5, offset: 83966},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2631, col: 5, offset: 83928},
+																																						pos:   position{line: 2631, col: 5, offset: 83966},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2631, col: 14, offset: 83937},
+																																							pos: position{line: 2631, col: 14, offset: 83975},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2631, col: 14, offset: 83937},
+																																								pos: position{line: 2631, col: 14, offset: 83975},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2631, col: 14, offset: 83937},
+																																									pos:        position{line: 2631, col: 14, offset: 83975},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2883, col: 8, offset: 90987},
+																															pos: position{line: 2883, col: 8, offset: 91025},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2870, col: 12, offset: 90760},
+																																	pos: position{line: 2870, col: 12, offset: 90798},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2870, col: 13, offset: 90761},
+																																		pos: position{line: 2870, col: 13, offset: 90799},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 13, offset: 90761},
+																																				pos:        position{line: 2870, col: 13, offset: 90799},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 20, offset: 90768},
+																																				pos:        position{line: 2870, col: 20, offset: 90806},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 29, offset: 90777},
+																																				pos:        position{line: 2870, col: 29, offset: 90815},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2880, col: 8, offset: 90937},
+																																	pos: position{line: 2880, col: 8, offset: 90975},
 																																	expr: &anyMatcher{
-																																		line: 2880, col: 9, offset: 90938,
+																																		line: 2880, col: 9, offset: 90976,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2637, col: 24, offset: 84073},
+																												pos: position{line: 2637, col: 24, offset: 84111},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2637, col: 24, offset: 84073},
+																													pos:   position{line: 2637, col: 24, offset: 84111},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2637, col: 30, offset: 84079},
+																														pos: position{line: 2637, col: 30, offset: 84117},
 																														expr: &actionExpr{
-																															pos: position{line: 2642, col: 5, offset: 84155},
+																															pos: position{line: 2642, col: 5, offset: 84193},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2642, col: 5, offset: 84155},
+																																pos: position{line: 2642, col: 5, offset: 84193},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2642, col: 5, offset: 84155},
+																																		pos: position{line: 2642, col: 5, offset: 84193},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2607, col: 22, offset: 83352},
+																																			pos: position{line: 2607, col: 22, offset: 83390},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2603, col: 19, offset: 83272},
+																																					pos: position{line: 2603, col: 19, offset: 83310},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2603, col: 19, offset: 83272},
+																																							pos:        position{line: 2603, col: 19, offset: 83310},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2603, col: 26, offset: 83279},
+																																							pos: position{line: 2603, col: 26, offset: 83317},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2861, col: 10, offset: 90589},
+																																								pos: position{line: 2861, col: 10, offset: 90627},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2861, col: 10, offset: 90589},
+																																									pos:        position{line: 2861, col: 10, offset: 90627},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2883, col: 8, offset: 90987},
+																																							pos: position{line: 2883, col: 8, offset: 91025},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2870, col: 12, offset: 90760},
+																																									pos: position{line: 2870, col: 12, offset: 90798},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2870, col: 13, offset: 90761},
+																																										pos: position{line: 2870, col: 13, offset: 90799},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 13, offset: 90761},
+																																												pos:        position{line: 2870, col: 13, offset: 90799},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 20, offset: 90768},
+																																												pos:        position{line: 2870, col: 20, offset: 90806},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 29, offset: 90777},
+																																												pos:        position{line: 2870, col: 29, offset: 90815},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90937},
+																																									pos: position{line: 2880, col: 8, offset: 90975},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90938,
+																																										line: 2880, col: 9, offset: 90976,
 																																									},
 																																								},
 																																							},
@@ -9572,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2880, col: 8, offset: 90937},
+																																					pos: position{line: 2880, col: 8, offset: 90975},
 																																					expr: &anyMatcher{
-																																						line: 2880, col: 9, offset: 90938,
+																																						line: 2880, col: 9, offset: 90976,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2643, col: 5, offset: 84178},
+																																		pos: position{line: 2643, col: 5, offset: 84216},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21508},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21489},
+																																				pos: position{line: 677, col: 14, offset: 21508},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2878, col: 11, offset: 90923},
+																																						pos: position{line: 2878, col: 11, offset: 90961},
 																																						expr: &anyMatcher{
-																																							line: 2878, col: 13, offset: 90925,
+																																							line: 2878, col: 13, offset: 90963,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21496},
+																																						pos: position{line: 677, col: 21, offset: 21515},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2861, col: 10, offset: 90589},
+																																							pos: position{line: 2861, col: 10, offset: 90627},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2861, col: 10, offset: 90589},
+																																								pos:        position{line: 2861, col: 10, offset: 90627},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2883, col: 8, offset: 90987},
+																																						pos: position{line: 2883, col: 8, offset: 91025},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2870, col: 12, offset: 90760},
+																																								pos: position{line: 2870, col: 12, offset: 90798},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2870, col: 13, offset: 90761},
+																																									pos: position{line: 2870, col: 13, offset: 90799},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 13, offset: 90761},
+																																											pos:        position{line: 2870, col: 13, offset: 90799},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 20, offset: 90768},
+																																											pos:        position{line: 2870, col: 20, offset: 90806},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 29, offset: 90777},
+																																											pos:        position{line: 2870, col: 29, offset: 90815},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2880, col: 8, offset: 90937},
+																																								pos: position{line: 2880, col: 8, offset: 90975},
 																																								expr: &anyMatcher{
-																																									line: 2880, col: 9, offset: 90938,
+																																									line: 2880, col: 9, offset: 90976,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2644, col: 5, offset: 84193},
+																																		pos:   position{line: 2644, col: 5, offset: 84231},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2644, col: 12, offset: 84200},
+																																			pos: position{line: 2644, col: 12, offset: 84238},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2661, col: 20, offset: 84664},
+																																				pos: position{line: 2661, col: 20, offset: 84702},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2661, col: 20, offset: 84664},
+																																					pos: position{line: 2661, col: 20, offset: 84702},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2661, col: 20, offset: 84664},
+																																						pos:        position{line: 2661, col: 20, offset: 84702},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2644, col: 31, offset: 84219},
+																																		pos:        position{line: 2644, col: 31, offset: 84257},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2644, col: 35, offset: 84223},
+																																		pos: position{line: 2644, col: 35, offset: 84261},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 10, offset: 90589},
+																																			pos: position{line: 2861, col: 10, offset: 90627},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2861, col: 10, offset: 90589},
+																																				pos:        position{line: 2861, col: 10, offset: 90627},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2644, col: 42, offset: 84230},
+																																		pos: position{line: 2644, col: 42, offset: 84268},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2870, col: 12, offset: 90760},
+																																			pos: position{line: 2870, col: 12, offset: 90798},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2870, col: 13, offset: 90761},
+																																				pos: position{line: 2870, col: 13, offset: 90799},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 13, offset: 90761},
+																																						pos:        position{line: 2870, col: 13, offset: 90799},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 20, offset: 90768},
+																																						pos:        position{line: 2870, col: 20, offset: 90806},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 29, offset: 90777},
+																																						pos:        position{line: 2870, col: 29, offset: 90815},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2644, col: 51, offset: 84239},
+																																		pos:   position{line: 2644, col: 51, offset: 84277},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2650, col: 5, offset: 84398},
+																																			pos: position{line: 2650, col: 5, offset: 84436},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2651, col: 9, offset: 84408},
+																																				pos: position{line: 2651, col: 9, offset: 84446},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2651, col: 9, offset: 84408},
+																																					pos: position{line: 2651, col: 9, offset: 84446},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2651, col: 9, offset: 84408},
+																																							pos: position{line: 2651, col: 9, offset: 84446},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2607, col: 22, offset: 83352},
+																																								pos: position{line: 2607, col: 22, offset: 83390},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2603, col: 19, offset: 83272},
+																																										pos: position{line: 2603, col: 19, offset: 83310},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2603, col: 19, offset: 83272},
+																																												pos:        position{line: 2603, col: 19, offset: 83310},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2603, col: 26, offset: 83279},
+																																												pos: position{line: 2603, col: 26, offset: 83317},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2861, col: 10, offset: 90589},
+																																													pos: position{line: 2861, col: 10, offset: 90627},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2861, col: 10, offset: 90589},
+																																														pos:        position{line: 2861, col: 10, offset: 90627},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2883, col: 8, offset: 90987},
+																																												pos: position{line: 2883, col: 8, offset: 91025},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2870, col: 12, offset: 90760},
+																																														pos: position{line: 2870, col: 12, offset: 90798},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2870, col: 13, offset: 90761},
+																																															pos: position{line: 2870, col: 13, offset: 90799},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2880, col: 8, offset: 90937},
+																																														pos: position{line: 2880, col: 8, offset: 90975},
 																																														expr: &anyMatcher{
-																																															line: 2880, col: 9, offset: 90938,
+																																															line: 2880, col: 9, offset: 90976,
 																																														},
 																																													},
 																																												},
@@ -9801,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2880, col: 8, offset: 90937},
+																																										pos: position{line: 2880, col: 8, offset: 90975},
 																																										expr: &anyMatcher{
-																																											line: 2880, col: 9, offset: 90938,
+																																											line: 2880, col: 9, offset: 90976,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2652, col: 9, offset: 84435},
+																																							pos: position{line: 2652, col: 9, offset: 84473},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21508},
 																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21489},
+																																									pos: position{line: 677, col: 14, offset: 21508},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2878, col: 11, offset: 90923},
+																																											pos: position{line: 2878, col: 11, offset: 90961},
 																																											expr: &anyMatcher{
-																																												line: 2878, col: 13, offset: 90925,
+																																												line: 2878, col: 13, offset: 90963,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21496},
+																																											pos: position{line: 677, col: 21, offset: 21515},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2861, col: 10, offset: 90589},
+																																												pos: position{line: 2861, col: 10, offset: 90627},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2861, col: 10, offset: 90589},
+																																													pos:        position{line: 2861, col: 10, offset: 90627},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2883, col: 8, offset: 90987},
+																																											pos: position{line: 2883, col: 8, offset: 91025},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2870, col: 12, offset: 90760},
+																																													pos: position{line: 2870, col: 12, offset: 90798},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2870, col: 13, offset: 90761},
+																																														pos: position{line: 2870, col: 13, offset: 90799},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2880, col: 8, offset: 90937},
+																																													pos: position{line: 2880, col: 8, offset: 90975},
 																																													expr: &anyMatcher{
-																																														line: 2880, col: 9, offset: 90938,
+																																														line: 2880, col: 9, offset: 90976,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2653, col: 9, offset: 84454},
+																																							pos: position{line: 2653, col: 9, offset: 84492},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2653, col: 11, offset: 84456},
+																																								pos: position{line: 2653, col: 11, offset: 84494},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2653, col: 11, offset: 84456},
+																																										pos:   position{line: 2653, col: 11, offset: 84494},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2653, col: 18, offset: 84463},
+																																											pos: position{line: 2653, col: 18, offset: 84501},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2661, col: 20, offset: 84664},
+																																												pos: position{line: 2661, col: 20, offset: 84702},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2661, col: 20, offset: 84664},
+																																													pos: position{line: 2661, col: 20, offset: 84702},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2661, col: 20, offset: 84664},
+																																														pos:        position{line: 2661, col: 20, offset: 84702},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2653, col: 37, offset: 84482},
+																																										pos:        position{line: 2653, col: 37, offset: 84520},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2654, col: 9, offset: 84495},
+																																							pos:   position{line: 2654, col: 9, offset: 84533},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2654, col: 18, offset: 84504},
+																																								pos: position{line: 2654, col: 18, offset: 84542},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2654, col: 18, offset: 84504},
+																																									pos: position{line: 2654, col: 18, offset: 84542},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2654, col: 18, offset: 84504},
+																																										pos:        position{line: 2654, col: 18, offset: 84542},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2656, col: 12, offset: 84566},
+																																							pos: position{line: 2656, col: 12, offset: 84604},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2883, col: 8, offset: 90987},
+																																								pos: position{line: 2883, col: 8, offset: 91025},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2870, col: 12, offset: 90760},
+																																										pos: position{line: 2870, col: 12, offset: 90798},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2870, col: 13, offset: 90761},
+																																											pos: position{line: 2870, col: 13, offset: 90799},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 13, offset: 90761},
+																																													pos:        position{line: 2870, col: 13, offset: 90799},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 20, offset: 90768},
+																																													pos:        position{line: 2870, col: 20, offset: 90806},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 29, offset: 90777},
+																																													pos:        position{line: 2870, col: 29, offset: 90815},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2880, col: 8, offset: 90937},
+																																										pos: position{line: 2880, col: 8, offset: 90975},
 																																										expr: &anyMatcher{
-																																											line: 2880, col: 9, offset: 90938,
+																																											line: 2880, col: 9, offset: 90976,
 																																										},
 																																									},
 																																								},
@@ -9989,24 +9989,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21508},
 																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21489},
+																									pos: position{line: 677, col: 14, offset: 21508},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2878, col: 11, offset: 90923},
+																											pos: position{line: 2878, col: 11, offset: 90961},
 																											expr: &anyMatcher{
-																												line: 2878, col: 13, offset: 90925,
+																												line: 2878, col: 13, offset: 90963,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21496},
+																											pos: position{line: 677, col: 21, offset: 21515},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2607, col: 22, offset: 83352},
+														pos: position{line: 2607, col: 22, offset: 83390},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2603, col: 19, offset: 83272},
+																pos: position{line: 2603, col: 19, offset: 83310},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2603, col: 19, offset: 83272},
+																		pos:        position{line: 2603, col: 19, offset: 83310},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2603, col: 26, offset: 83279},
+																		pos: position{line: 2603, col: 26, offset: 83317},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 22, offset: 79574},
+												pos: position{line: 2471, col: 22, offset: 79612},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2476, col: 31, offset: 79795},
+														pos:        position{line: 2476, col: 31, offset: 79833},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2476, col: 36, offset: 79800},
+														pos: position{line: 2476, col: 36, offset: 79838},
 														expr: &litMatcher{
-															pos:        position{line: 2476, col: 37, offset: 79801},
+															pos:        position{line: 2476, col: 37, offset: 79839},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 49, offset: 79601},
+														pos:   position{line: 2471, col: 49, offset: 79639},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2807, col: 13, offset: 89115},
+																pos: position{line: 2807, col: 13, offset: 89153},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2807, col: 13, offset: 89115},
+																	pos:        position{line: 2807, col: 13, offset: 89153},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -10223,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1230, col: 5, offset: 38072},
+											pos: position{line: 1230, col: 5, offset: 38110},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1230, col: 5, offset: 38072},
+												pos: position{line: 1230, col: 5, offset: 38110},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1230, col: 5, offset: 38072},
+														pos: position{line: 1230, col: 5, offset: 38110},
 														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1233, col: 5, offset: 38130},
+														pos:   position{line: 1233, col: 5, offset: 38168},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1238, col: 20, offset: 38225},
+															pos: position{line: 1238, col: 20, offset: 38263},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1238, col: 20, offset: 38225},
+																pos: position{line: 1238, col: 20, offset: 38263},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38397},
+																		pos:        position{line: 1242, col: 30, offset: 38435},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38403},
+																		pos: position{line: 1242, col: 36, offset: 38441},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,46 +10292,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1238, col: 45, offset: 38250},
+																		pos:   position{line: 1238, col: 45, offset: 38288},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1238, col: 53, offset: 38258},
+																			pos: position{line: 1238, col: 53, offset: 38296},
 																			expr: &actionExpr{
-																				pos: position{line: 1244, col: 27, offset: 38441},
+																				pos: position{line: 1244, col: 27, offset: 38479},
 																				run: (*parser).callonDocumentFragment1387,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1244, col: 27, offset: 38441},
+																					pos: position{line: 1244, col: 27, offset: 38479},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1244, col: 28, offset: 38442},
+																						pos: position{line: 1244, col: 28, offset: 38480},
 																						expr: &seqExpr{
-																							pos: position{line: 1244, col: 29, offset: 38443},
+																							pos: position{line: 1244, col: 29, offset: 38481},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1244, col: 29, offset: 38443},
+																									pos: position{line: 1244, col: 29, offset: 38481},
 																									expr: &seqExpr{
-																										pos: position{line: 1242, col: 30, offset: 38397},
+																										pos: position{line: 1242, col: 30, offset: 38435},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1242, col: 30, offset: 38397},
+																												pos:        position{line: 1242, col: 30, offset: 38435},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1242, col: 36, offset: 38403},
+																												pos: position{line: 1242, col: 36, offset: 38441},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentFragment1395,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentFragment1398,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -10381,7 +10381,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1244, col: 55, offset: 38469,
+																									line: 1244, col: 55, offset: 38507,
 																								},
 																							},
 																						},
@@ -10391,18 +10391,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38397},
+																		pos:        position{line: 1242, col: 30, offset: 38435},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38403},
+																		pos: position{line: 1242, col: 36, offset: 38441},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentFragment1408,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10411,28 +10411,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentFragment1411,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10441,9 +10441,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -10493,27 +10493,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37178},
+											pos: position{line: 1206, col: 23, offset: 37216},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37178},
+												pos: position{line: 1206, col: 23, offset: 37216},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37146},
+														pos:        position{line: 1204, col: 32, offset: 37184},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37206},
+														pos:   position{line: 1206, col: 51, offset: 37244},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37211},
+															pos: position{line: 1206, col: 56, offset: 37249},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37211},
+																pos: position{line: 1206, col: 56, offset: 37249},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37211},
+																	pos:        position{line: 1206, col: 56, offset: 37249},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10523,7 +10523,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37146},
+														pos:        position{line: 1204, col: 32, offset: 37184},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10540,9 +10540,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -10614,12 +10614,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2865, col: 11, offset: 90650},
+												pos: position{line: 2865, col: 11, offset: 90688},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2865, col: 11, offset: 90650},
+													pos: position{line: 2865, col: 11, offset: 90688},
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 11, offset: 90650},
+														pos:        position{line: 2865, col: 11, offset: 90688},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10641,28 +10641,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10671,9 +10671,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -10717,25 +10717,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90760},
+												pos: position{line: 2870, col: 12, offset: 90798},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90761},
+													pos: position{line: 2870, col: 13, offset: 90799},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90761},
+															pos:        position{line: 2870, col: 13, offset: 90799},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90768},
+															pos:        position{line: 2870, col: 20, offset: 90806},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90777},
+															pos:        position{line: 2870, col: 29, offset: 90815},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10746,10 +10746,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90589},
+													pos: position{line: 2861, col: 10, offset: 90627},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90589},
+														pos:        position{line: 2861, col: 10, offset: 90627},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10819,10 +10819,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90589},
+											pos: position{line: 2861, col: 10, offset: 90627},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90589},
+												pos:        position{line: 2861, col: 10, offset: 90627},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10831,28 +10831,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2883, col: 8, offset: 90987},
+										pos: position{line: 2883, col: 8, offset: 91025},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90760},
+												pos: position{line: 2870, col: 12, offset: 90798},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90761},
+													pos: position{line: 2870, col: 13, offset: 90799},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90761},
+															pos:        position{line: 2870, col: 13, offset: 90799},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90768},
+															pos:        position{line: 2870, col: 20, offset: 90806},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90777},
+															pos:        position{line: 2870, col: 29, offset: 90815},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10861,9 +10861,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2880, col: 8, offset: 90937},
+												pos: position{line: 2880, col: 8, offset: 90975},
 												expr: &anyMatcher{
-													line: 2880, col: 9, offset: 90938,
+													line: 2880, col: 9, offset: 90976,
 												},
 											},
 										},
@@ -10896,23 +10896,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79120},
+										pos: position{line: 2458, col: 5, offset: 79158},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79120},
+													pos: position{line: 2458, col: 5, offset: 79158},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79196},
+													pos:   position{line: 2461, col: 5, offset: 79234},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79214},
+														pos: position{line: 2462, col: 9, offset: 79252},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79215},
+															pos:        position{line: 2462, col: 10, offset: 79253},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10924,10 +10924,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90589},
+										pos: position{line: 2861, col: 10, offset: 90627},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90589},
+											pos:        position{line: 2861, col: 10, offset: 90627},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10935,35 +10935,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20128},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20128},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20128},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20200},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20209},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20338},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20338},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20338},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20346},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -10995,7 +10995,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20365},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11004,19 +11004,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20606},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20606},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20606},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20610},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11048,7 +11048,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20629},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11057,19 +11057,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20810},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20810},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20810},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20822},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11101,33 +11101,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20841},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20847},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11135,12 +11135,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11157,7 +11157,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20863},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11166,19 +11166,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 20981},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 20981},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 20981},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 20994},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11210,33 +11210,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21013},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21019},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11244,12 +11244,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11266,7 +11266,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21035},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11351,27 +11351,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1206, col: 23, offset: 37178},
+																						pos: position{line: 1206, col: 23, offset: 37216},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1206, col: 23, offset: 37178},
+																							pos: position{line: 1206, col: 23, offset: 37216},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37146},
+																									pos:        position{line: 1204, col: 32, offset: 37184},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1206, col: 51, offset: 37206},
+																									pos:   position{line: 1206, col: 51, offset: 37244},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1206, col: 56, offset: 37211},
+																										pos: position{line: 1206, col: 56, offset: 37249},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1206, col: 56, offset: 37211},
+																											pos: position{line: 1206, col: 56, offset: 37249},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1206, col: 56, offset: 37211},
+																												pos:        position{line: 1206, col: 56, offset: 37249},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11381,7 +11381,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37146},
+																									pos:        position{line: 1204, col: 32, offset: 37184},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11390,35 +11390,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 636, col: 5, offset: 20128},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20109},
+																									pos: position{line: 636, col: 5, offset: 20128},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20181},
+																									pos:   position{line: 639, col: 5, offset: 20200},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20190},
+																										pos: position{line: 639, col: 14, offset: 20209},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20319},
+																												pos: position{line: 645, col: 5, offset: 20338},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 645, col: 5, offset: 20338},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20319},
+																															pos:        position{line: 645, col: 5, offset: 20338},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20327},
+																															pos:   position{line: 645, col: 13, offset: 20346},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11450,7 +11450,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20346},
+																															pos:        position{line: 645, col: 32, offset: 20365},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11459,19 +11459,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20587},
+																												pos: position{line: 652, col: 5, offset: 20606},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 652, col: 5, offset: 20606},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20587},
+																															pos:        position{line: 652, col: 5, offset: 20606},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20591},
+																															pos:   position{line: 652, col: 9, offset: 20610},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11503,7 +11503,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20610},
+																															pos:        position{line: 652, col: 28, offset: 20629},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11512,19 +11512,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20791},
+																												pos: position{line: 658, col: 25, offset: 20810},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 658, col: 25, offset: 20810},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20791},
+																															pos:        position{line: 658, col: 25, offset: 20810},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20803},
+																															pos:   position{line: 658, col: 37, offset: 20822},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11556,33 +11556,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20822},
+																															pos:   position{line: 658, col: 56, offset: 20841},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20828},
+																																pos: position{line: 658, col: 62, offset: 20847},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21142},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21142},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21142},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21146},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21153},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21153},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21153},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11590,12 +11590,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21207},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21207},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21207},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11612,7 +11612,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20844},
+																															pos:        position{line: 658, col: 78, offset: 20863},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11621,19 +11621,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20962},
+																												pos: position{line: 662, col: 25, offset: 20981},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 662, col: 25, offset: 20981},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20962},
+																															pos:        position{line: 662, col: 25, offset: 20981},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20975},
+																															pos:   position{line: 662, col: 38, offset: 20994},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11665,33 +11665,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 20994},
+																															pos:   position{line: 662, col: 57, offset: 21013},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21000},
+																																pos: position{line: 662, col: 63, offset: 21019},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21142},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21142},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21142},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21146},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21153},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21153},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21153},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11699,12 +11699,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21207},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21207},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21207},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11721,7 +11721,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21016},
+																															pos:        position{line: 662, col: 79, offset: 21035},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11764,10 +11764,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90589},
+													pos: position{line: 2861, col: 10, offset: 90627},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90589},
+														pos:        position{line: 2861, col: 10, offset: 90627},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11776,28 +11776,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 90987},
+												pos: position{line: 2883, col: 8, offset: 91025},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90760},
+														pos: position{line: 2870, col: 12, offset: 90798},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90761},
+															pos: position{line: 2870, col: 13, offset: 90799},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90761},
+																	pos:        position{line: 2870, col: 13, offset: 90799},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90768},
+																	pos:        position{line: 2870, col: 20, offset: 90806},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90777},
+																	pos:        position{line: 2870, col: 29, offset: 90815},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11806,9 +11806,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90937},
+														pos: position{line: 2880, col: 8, offset: 90975},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90938,
+															line: 2880, col: 9, offset: 90976,
 														},
 													},
 												},
@@ -11816,24 +11816,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 46, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21508},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11842,28 +11842,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11872,9 +11872,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -11926,12 +11926,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2755, col: 14, offset: 87758},
+																				pos: position{line: 2755, col: 14, offset: 87796},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2755, col: 14, offset: 87758},
+																					pos: position{line: 2755, col: 14, offset: 87796},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2755, col: 14, offset: 87758},
+																						pos:        position{line: 2755, col: 14, offset: 87796},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11940,10 +11940,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11951,27 +11951,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2778, col: 5, offset: 88243},
+																				pos: position{line: 2778, col: 5, offset: 88281},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2779, col: 9, offset: 88253},
+																					pos: position{line: 2779, col: 9, offset: 88291},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2779, col: 10, offset: 88254},
+																							pos:        position{line: 2779, col: 10, offset: 88292},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2781, col: 13, offset: 88351},
+																							pos: position{line: 2781, col: 13, offset: 88389},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2781, col: 13, offset: 88351},
+																									pos: position{line: 2781, col: 13, offset: 88389},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2784, col: 13, offset: 88451},
+																									pos:        position{line: 2784, col: 13, offset: 88489},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11979,20 +11979,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2784, col: 19, offset: 88457},
+																							pos:        position{line: 2784, col: 19, offset: 88495},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2787, col: 13, offset: 88495},
+																							pos: position{line: 2787, col: 13, offset: 88533},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2787, col: 13, offset: 88495},
+																									pos: position{line: 2787, col: 13, offset: 88533},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2790, col: 14, offset: 88588},
+																									pos:        position{line: 2790, col: 14, offset: 88626},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12001,18 +12001,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2792, col: 12, offset: 88632},
+																							pos: position{line: 2792, col: 12, offset: 88670},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2792, col: 12, offset: 88632},
+																									pos:        position{line: 2792, col: 12, offset: 88670},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2792, col: 16, offset: 88636},
+																									pos: position{line: 2792, col: 16, offset: 88674},
 																									expr: &litMatcher{
-																										pos:        position{line: 2792, col: 17, offset: 88637},
+																										pos:        position{line: 2792, col: 17, offset: 88675},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12024,19 +12024,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20338},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20338},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20346},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12068,7 +12068,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20365},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12077,19 +12077,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20606},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20606},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20606},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20610},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12121,7 +12121,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20629},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12130,10 +12130,228 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2800, col: 12, offset: 88897},
+																				pos: position{line: 658, col: 25, offset: 20810},
 																				run: (*parser).callonBlockAttributes176,
+																				expr: &seqExpr{
+																					pos: position{line: 658, col: 25, offset: 20810},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 658, col: 25, offset: 20810},
+																							val:        "{counter:",
+																							ignoreCase: false,
+																							want:       "\"{counter:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 658, col: 37, offset: 20822},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								run: (*parser).callonBlockAttributes180,
+																								expr: &seqExpr{
+																									pos: position{line: 318, col: 18, offset: 9736},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 318, col: 18, offset: 9736},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 318, col: 28, offset: 9746},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 318, col: 29, offset: 9747},
+																												val:        "[-\\pL\\pN]",
+																												chars:      []rune{'-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 658, col: 56, offset: 20841},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 658, col: 62, offset: 20847},
+																								expr: &actionExpr{
+																									pos: position{line: 666, col: 17, offset: 21142},
+																									run: (*parser).callonBlockAttributes187,
+																									expr: &seqExpr{
+																										pos: position{line: 666, col: 17, offset: 21142},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 666, col: 17, offset: 21142},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 666, col: 21, offset: 21146},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 666, col: 28, offset: 21153},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 666, col: 28, offset: 21153},
+																															run: (*parser).callonBlockAttributes192,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 666, col: 28, offset: 21153},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 668, col: 9, offset: 21207},
+																															run: (*parser).callonBlockAttributes194,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 668, col: 9, offset: 21207},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 668, col: 9, offset: 21207},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 658, col: 78, offset: 20863},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 662, col: 25, offset: 20981},
+																				run: (*parser).callonBlockAttributes198,
+																				expr: &seqExpr{
+																					pos: position{line: 662, col: 25, offset: 20981},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 662, col: 25, offset: 20981},
+																							val:        "{counter2:",
+																							ignoreCase: false,
+																							want:       "\"{counter2:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 662, col: 38, offset: 20994},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								run: (*parser).callonBlockAttributes202,
+																								expr: &seqExpr{
+																									pos: position{line: 318, col: 18, offset: 9736},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 318, col: 18, offset: 9736},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 318, col: 28, offset: 9746},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 318, col: 29, offset: 9747},
+																												val:        "[-\\pL\\pN]",
+																												chars:      []rune{'-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 662, col: 57, offset: 21013},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 662, col: 63, offset: 21019},
+																								expr: &actionExpr{
+																									pos: position{line: 666, col: 17, offset: 21142},
+																									run: (*parser).callonBlockAttributes209,
+																									expr: &seqExpr{
+																										pos: position{line: 666, col: 17, offset: 21142},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 666, col: 17, offset: 21142},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 666, col: 21, offset: 21146},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 666, col: 28, offset: 21153},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 666, col: 28, offset: 21153},
+																															run: (*parser).callonBlockAttributes214,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 666, col: 28, offset: 21153},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 668, col: 9, offset: 21207},
+																															run: (*parser).callonBlockAttributes216,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 668, col: 9, offset: 21207},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 668, col: 9, offset: 21207},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 662, col: 79, offset: 21035},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 2800, col: 12, offset: 88935},
+																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2800, col: 12, offset: 88897},
+																					pos:        position{line: 2800, col: 12, offset: 88935},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12151,10 +12369,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90589},
-													run: (*parser).callonBlockAttributes179,
+													pos: position{line: 2861, col: 10, offset: 90627},
+													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90589},
+														pos:        position{line: 2861, col: 10, offset: 90627},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12163,28 +12381,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 90987},
+												pos: position{line: 2883, col: 8, offset: 91025},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90760},
-														run: (*parser).callonBlockAttributes182,
+														pos: position{line: 2870, col: 12, offset: 90798},
+														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90761},
+															pos: position{line: 2870, col: 13, offset: 90799},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90761},
+																	pos:        position{line: 2870, col: 13, offset: 90799},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90768},
+																	pos:        position{line: 2870, col: 20, offset: 90806},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90777},
+																	pos:        position{line: 2870, col: 29, offset: 90815},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12193,9 +12411,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90937},
+														pos: position{line: 2880, col: 8, offset: 90975},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90938,
+															line: 2880, col: 9, offset: 90976,
 														},
 													},
 												},
@@ -12203,24 +12421,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 46, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonBlockAttributes190,
+													pos: position{line: 677, col: 14, offset: 21508},
+													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
-																	run: (*parser).callonBlockAttributes195,
+																	pos: position{line: 2861, col: 10, offset: 90627},
+																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12229,28 +12447,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
-																		run: (*parser).callonBlockAttributes198,
+																		pos: position{line: 2870, col: 12, offset: 90798},
+																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12259,9 +12477,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -12275,7 +12493,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 380, col: 12, offset: 11743},
-									run: (*parser).callonBlockAttributes205,
+									run: (*parser).callonBlockAttributes249,
 									expr: &seqExpr{
 										pos: position{line: 380, col: 12, offset: 11743},
 										exprs: []interface{}{
@@ -12290,10 +12508,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90589},
-													run: (*parser).callonBlockAttributes210,
+													pos: position{line: 2861, col: 10, offset: 90627},
+													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90589},
+														pos:        position{line: 2861, col: 10, offset: 90627},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12302,28 +12520,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 90987},
+												pos: position{line: 2883, col: 8, offset: 91025},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90760},
-														run: (*parser).callonBlockAttributes213,
+														pos: position{line: 2870, col: 12, offset: 90798},
+														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90761},
+															pos: position{line: 2870, col: 13, offset: 90799},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90761},
+																	pos:        position{line: 2870, col: 13, offset: 90799},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90768},
+																	pos:        position{line: 2870, col: 20, offset: 90806},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90777},
+																	pos:        position{line: 2870, col: 29, offset: 90815},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12332,9 +12550,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90937},
+														pos: position{line: 2880, col: 8, offset: 90975},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90938,
+															line: 2880, col: 9, offset: 90976,
 														},
 													},
 												},
@@ -12342,24 +12560,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 55, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonBlockAttributes221,
+													pos: position{line: 677, col: 14, offset: 21508},
+													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
-																	run: (*parser).callonBlockAttributes226,
+																	pos: position{line: 2861, col: 10, offset: 90627},
+																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12368,28 +12586,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
-																		run: (*parser).callonBlockAttributes229,
+																		pos: position{line: 2870, col: 12, offset: 90798},
+																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12398,9 +12616,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -12487,62 +12705,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13444},
+			pos:  position{line: 437, col: 1, offset: 13463},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13470},
+				pos: position{line: 438, col: 5, offset: 13489},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13470},
+					pos: position{line: 438, col: 5, offset: 13489},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13470},
+							pos: position{line: 438, col: 5, offset: 13489},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13471},
+								pos:        position{line: 438, col: 6, offset: 13490},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13475},
+							pos:        position{line: 438, col: 10, offset: 13494},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13479},
+							pos: position{line: 438, col: 14, offset: 13498},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13480},
+								pos:        position{line: 438, col: 15, offset: 13499},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13593},
+							pos:   position{line: 439, col: 5, offset: 13612},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13619},
+								pos: position{line: 439, col: 31, offset: 13638},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13620},
+									pos:  position{line: 439, col: 32, offset: 13639},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13652},
+							pos:   position{line: 440, col: 5, offset: 13671},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13668},
+								pos: position{line: 440, col: 21, offset: 13687},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13669},
+									pos: position{line: 440, col: 22, offset: 13688},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13669},
+											pos:  position{line: 440, col: 22, offset: 13688},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13691},
+											pos:  position{line: 440, col: 44, offset: 13710},
 											name: "NamedAttribute",
 										},
 									},
@@ -12550,7 +12768,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13712},
+							pos:        position{line: 441, col: 5, offset: 13731},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12561,69 +12779,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14240},
+			pos:  position{line: 454, col: 1, offset: 14259},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14274},
+				pos: position{line: 455, col: 5, offset: 14293},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14274},
+					pos: position{line: 455, col: 5, offset: 14293},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14274},
+							pos:   position{line: 455, col: 5, offset: 14293},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14279},
+								pos: position{line: 455, col: 10, offset: 14298},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14289},
+									pos:  position{line: 456, col: 9, offset: 14308},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14319},
+							pos:   position{line: 458, col: 5, offset: 14338},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14326},
+								pos: position{line: 458, col: 12, offset: 14345},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14337},
+									pos: position{line: 459, col: 9, offset: 14356},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14337},
+										pos: position{line: 459, col: 9, offset: 14356},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14337},
+												pos: position{line: 459, col: 9, offset: 14356},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14338},
+													pos:        position{line: 459, col: 10, offset: 14357},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14342},
+												pos: position{line: 459, col: 14, offset: 14361},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14343},
+													pos:        position{line: 459, col: 15, offset: 14362},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14355},
+												pos:   position{line: 460, col: 9, offset: 14374},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14375},
+													pos: position{line: 461, col: 13, offset: 14394},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14375},
+															pos:  position{line: 461, col: 13, offset: 14394},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14411},
+															pos:  position{line: 462, col: 15, offset: 14430},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14450},
+															pos:  position{line: 463, col: 15, offset: 14469},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12635,23 +12853,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14526},
+							pos: position{line: 466, col: 8, offset: 14545},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14527},
+								pos: position{line: 466, col: 9, offset: 14546},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14527},
+										pos:        position{line: 466, col: 9, offset: 14546},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14531},
+										pos: position{line: 466, col: 13, offset: 14550},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90589},
+											pos: position{line: 2861, col: 10, offset: 90627},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90589},
+												pos:        position{line: 2861, col: 10, offset: 90627},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12663,7 +12881,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14545},
+							pos: position{line: 467, col: 5, offset: 14564},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12672,24 +12890,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14961},
+			pos:  position{line: 483, col: 1, offset: 14980},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 14985},
+				pos: position{line: 483, col: 25, offset: 15004},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 14985},
+					pos: position{line: 483, col: 25, offset: 15004},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 14985},
+							pos:        position{line: 483, col: 25, offset: 15004},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 14989},
+							pos:   position{line: 483, col: 29, offset: 15008},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 14993},
+								pos:  position{line: 483, col: 33, offset: 15012},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12699,15 +12917,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15067},
+			pos:  position{line: 487, col: 1, offset: 15086},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15089},
+				pos: position{line: 487, col: 23, offset: 15108},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15089},
+					pos:   position{line: 487, col: 23, offset: 15108},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15096},
+						pos:  position{line: 487, col: 30, offset: 15115},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12715,24 +12933,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15222},
+			pos:  position{line: 492, col: 1, offset: 15241},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15251},
+				pos: position{line: 492, col: 30, offset: 15270},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15251},
+					pos: position{line: 492, col: 30, offset: 15270},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15251},
+							pos:        position{line: 492, col: 30, offset: 15270},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15255},
+							pos:   position{line: 492, col: 34, offset: 15274},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15261},
+								pos:  position{line: 492, col: 40, offset: 15280},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12742,24 +12960,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15383},
+			pos:  position{line: 497, col: 1, offset: 15402},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15411},
+				pos: position{line: 497, col: 29, offset: 15430},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15411},
+					pos: position{line: 497, col: 29, offset: 15430},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15411},
+							pos:        position{line: 497, col: 29, offset: 15430},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15415},
+							pos:   position{line: 497, col: 33, offset: 15434},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15423},
+								pos:  position{line: 497, col: 41, offset: 15442},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12769,43 +12987,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15536},
+			pos:  position{line: 502, col: 1, offset: 15555},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15568},
+				pos: position{line: 503, col: 5, offset: 15587},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15568},
+						pos:  position{line: 503, col: 5, offset: 15587},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15602},
+						pos:  position{line: 504, col: 7, offset: 15621},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15636},
+						pos: position{line: 505, col: 7, offset: 15655},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15636},
+							pos: position{line: 505, col: 7, offset: 15655},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15636},
+									pos:   position{line: 505, col: 7, offset: 15655},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15645},
+										pos: position{line: 505, col: 16, offset: 15664},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15827},
+											pos: position{line: 508, col: 9, offset: 15846},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15827},
+													pos:  position{line: 508, col: 9, offset: 15846},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15853},
+													pos: position{line: 509, col: 12, offset: 15872},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15853},
+														pos: position{line: 509, col: 12, offset: 15872},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15853},
+															pos:        position{line: 509, col: 12, offset: 15872},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12814,35 +13032,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20128},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20128},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20128},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20181},
+																pos:   position{line: 639, col: 5, offset: 20200},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20190},
+																	pos: position{line: 639, col: 14, offset: 20209},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20319},
+																			pos: position{line: 645, col: 5, offset: 20338},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20338},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20319},
+																						pos:        position{line: 645, col: 5, offset: 20338},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20327},
+																						pos:   position{line: 645, col: 13, offset: 20346},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12874,7 +13092,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20346},
+																						pos:        position{line: 645, col: 32, offset: 20365},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12883,19 +13101,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20587},
+																			pos: position{line: 652, col: 5, offset: 20606},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20606},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20587},
+																						pos:        position{line: 652, col: 5, offset: 20606},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20591},
+																						pos:   position{line: 652, col: 9, offset: 20610},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12927,7 +13145,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20610},
+																						pos:        position{line: 652, col: 28, offset: 20629},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12936,19 +13154,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20791},
+																			pos: position{line: 658, col: 25, offset: 20810},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20791},
+																				pos: position{line: 658, col: 25, offset: 20810},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20791},
+																						pos:        position{line: 658, col: 25, offset: 20810},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20803},
+																						pos:   position{line: 658, col: 37, offset: 20822},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -12980,33 +13198,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20822},
+																						pos:   position{line: 658, col: 56, offset: 20841},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20828},
+																							pos: position{line: 658, col: 62, offset: 20847},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21142},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21142},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21142},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21146},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21153},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13014,12 +13232,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21207},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21207},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21207},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13036,7 +13254,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20844},
+																						pos:        position{line: 658, col: 78, offset: 20863},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13045,19 +13263,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20962},
+																			pos: position{line: 662, col: 25, offset: 20981},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20962},
+																				pos: position{line: 662, col: 25, offset: 20981},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20962},
+																						pos:        position{line: 662, col: 25, offset: 20981},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20975},
+																						pos:   position{line: 662, col: 38, offset: 20994},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13089,33 +13307,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 20994},
+																						pos:   position{line: 662, col: 57, offset: 21013},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21000},
+																							pos: position{line: 662, col: 63, offset: 21019},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21142},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21142},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21142},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21146},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21153},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13123,12 +13341,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21207},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21207},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21207},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13145,7 +13363,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21016},
+																						pos:        position{line: 662, col: 79, offset: 21035},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13160,10 +13378,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16021},
+													pos: position{line: 514, col: 12, offset: 16040},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16021},
+														pos:        position{line: 514, col: 12, offset: 16040},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13174,19 +13392,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16109},
+									pos: position{line: 518, col: 5, offset: 16128},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16111},
+										pos: position{line: 518, col: 7, offset: 16130},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16113},
+											pos: position{line: 518, col: 9, offset: 16132},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16113},
+													pos: position{line: 518, col: 9, offset: 16132},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13195,7 +13413,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16120},
+													pos:        position{line: 518, col: 16, offset: 16139},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13212,45 +13430,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16198},
+			pos:  position{line: 523, col: 1, offset: 16217},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16221},
+				pos: position{line: 523, col: 24, offset: 16240},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16227},
+						pos: position{line: 524, col: 5, offset: 16246},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16227},
+							pos: position{line: 524, col: 5, offset: 16246},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16227},
+									pos:   position{line: 524, col: 5, offset: 16246},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16234},
+										pos:  position{line: 524, col: 12, offset: 16253},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16251},
+									pos: position{line: 524, col: 29, offset: 16270},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16251},
+											pos: position{line: 524, col: 29, offset: 16270},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16252},
+												pos: position{line: 524, col: 30, offset: 16271},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16252},
+														pos:        position{line: 524, col: 30, offset: 16271},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16256},
+														pos: position{line: 524, col: 34, offset: 16275},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13262,9 +13480,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16267},
+											pos: position{line: 524, col: 45, offset: 16286},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16268},
+												pos:        position{line: 524, col: 46, offset: 16287},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13276,24 +13494,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16413},
+						pos: position{line: 529, col: 6, offset: 16432},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16413},
+							pos: position{line: 529, col: 6, offset: 16432},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16413},
+									pos:   position{line: 529, col: 6, offset: 16432},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16420},
+										pos: position{line: 529, col: 13, offset: 16439},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16420},
+												pos: position{line: 529, col: 13, offset: 16439},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90589},
+													pos: position{line: 2861, col: 10, offset: 90627},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90589},
+														pos:        position{line: 2861, col: 10, offset: 90627},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13302,24 +13520,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16428},
+												pos: position{line: 529, col: 21, offset: 16447},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16429},
+														pos: position{line: 529, col: 22, offset: 16448},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16429},
+																pos:        position{line: 529, col: 22, offset: 16448},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16433},
+																pos: position{line: 529, col: 26, offset: 16452},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13330,9 +13548,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16443},
+														pos: position{line: 529, col: 36, offset: 16462},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16444},
+															pos:        position{line: 529, col: 37, offset: 16463},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13344,7 +13562,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16454},
+									pos: position{line: 530, col: 5, offset: 16473},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13355,29 +13573,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16769},
+			pos:  position{line: 540, col: 1, offset: 16788},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16792},
+				pos: position{line: 541, col: 5, offset: 16811},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16792},
+					pos: position{line: 541, col: 5, offset: 16811},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16792},
+							pos:   position{line: 541, col: 5, offset: 16811},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17080},
+								pos: position{line: 549, col: 22, offset: 17099},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17080},
+									pos: position{line: 549, col: 22, offset: 17099},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17080},
+											pos: position{line: 549, col: 22, offset: 17099},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90589},
+												pos: position{line: 2861, col: 10, offset: 90627},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90589},
+													pos:        position{line: 2861, col: 10, offset: 90627},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13386,9 +13604,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17087},
+											pos: position{line: 549, col: 29, offset: 17106},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17087},
+												pos:        position{line: 549, col: 29, offset: 17106},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13400,18 +13618,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16821},
+							pos:        position{line: 542, col: 5, offset: 16840},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16825},
+							pos: position{line: 542, col: 9, offset: 16844},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13420,31 +13638,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16837},
+							pos:   position{line: 543, col: 5, offset: 16856},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16844},
+								pos:  position{line: 543, col: 12, offset: 16863},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16860},
+							pos: position{line: 543, col: 28, offset: 16879},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16861},
+								pos: position{line: 543, col: 29, offset: 16880},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16861},
+										pos:        position{line: 543, col: 29, offset: 16880},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16865},
+										pos: position{line: 543, col: 33, offset: 16884},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90589},
+											pos: position{line: 2861, col: 10, offset: 90627},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90589},
+												pos:        position{line: 2861, col: 10, offset: 90627},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13461,48 +13679,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17144},
+			pos:  position{line: 553, col: 1, offset: 17163},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17167},
+				pos: position{line: 554, col: 5, offset: 17186},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17167},
+					pos: position{line: 554, col: 5, offset: 17186},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17167},
+							pos:   position{line: 554, col: 5, offset: 17186},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17183},
+								pos: position{line: 555, col: 9, offset: 17202},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17183},
+										pos:  position{line: 555, col: 9, offset: 17202},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17221},
+										pos:  position{line: 556, col: 11, offset: 17240},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17259},
+										pos:  position{line: 557, col: 11, offset: 17278},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17293},
+							pos: position{line: 559, col: 5, offset: 17312},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17295},
+								pos: position{line: 559, col: 7, offset: 17314},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17297},
+									pos: position{line: 559, col: 9, offset: 17316},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17297},
+											pos: position{line: 559, col: 9, offset: 17316},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90589},
+												pos: position{line: 2861, col: 10, offset: 90627},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90589},
+													pos:        position{line: 2861, col: 10, offset: 90627},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13511,7 +13729,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17304},
+											pos:        position{line: 559, col: 16, offset: 17323},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13526,38 +13744,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17345},
+			pos:  position{line: 563, col: 1, offset: 17364},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17380},
+				pos: position{line: 564, col: 5, offset: 17399},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17380},
+					pos: position{line: 564, col: 5, offset: 17399},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17380},
+							pos:        position{line: 564, col: 5, offset: 17399},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17384},
+							pos: position{line: 564, col: 9, offset: 17403},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17385},
+								pos:        position{line: 564, col: 10, offset: 17404},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17464},
+							pos:   position{line: 565, col: 5, offset: 17483},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17473},
+								pos:  position{line: 565, col: 14, offset: 17492},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17512},
+							pos:        position{line: 566, col: 5, offset: 17531},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13568,25 +13786,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17553},
+			pos:  position{line: 570, col: 1, offset: 17572},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17595},
+				pos: position{line: 571, col: 5, offset: 17614},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17595},
+					pos:   position{line: 571, col: 5, offset: 17614},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17604},
+						pos: position{line: 571, col: 14, offset: 17623},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17614},
+							pos: position{line: 572, col: 9, offset: 17633},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87758},
+									pos: position{line: 2755, col: 14, offset: 87796},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87758},
+										pos: position{line: 2755, col: 14, offset: 87796},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87758},
+											pos:        position{line: 2755, col: 14, offset: 87796},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13595,10 +13813,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90589},
+									pos: position{line: 2861, col: 10, offset: 90627},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90589},
+										pos:        position{line: 2861, col: 10, offset: 90627},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13606,39 +13824,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17650},
+									pos:  position{line: 574, col: 11, offset: 17669},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20128},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20128},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20128},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20200},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20209},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20338},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20338},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20338},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20346},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13670,7 +13888,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20365},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13679,19 +13897,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20606},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20606},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20606},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20610},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13723,7 +13941,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20629},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13732,19 +13950,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20810},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20810},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20810},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20822},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13776,33 +13994,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20841},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20847},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21142},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21142},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21146},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21153},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21153},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13810,12 +14028,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21207},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21207},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13832,7 +14050,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20863},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13841,19 +14059,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 20981},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 20981},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 20981},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 20994},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -13885,33 +14103,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21013},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21019},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21142},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21142},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21146},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21153},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21153},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13919,12 +14137,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21207},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21207},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13941,7 +14159,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21035},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13956,44 +14174,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17704},
+									pos: position{line: 576, col: 12, offset: 17723},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17704},
+										pos:        position{line: 576, col: 12, offset: 17723},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17806},
+									pos:        position{line: 579, col: 13, offset: 17825},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17813},
+									pos:        position{line: 579, col: 20, offset: 17832},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17820},
+									pos: position{line: 579, col: 27, offset: 17839},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17820},
+										pos:        position{line: 579, col: 27, offset: 17839},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17980},
+									pos: position{line: 582, col: 12, offset: 17999},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17980},
+										pos: position{line: 582, col: 12, offset: 17999},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
+											pos:        position{line: 582, col: 12, offset: 17999},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14009,56 +14227,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18177},
+			pos:  position{line: 589, col: 1, offset: 18196},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18212},
+				pos: position{line: 590, col: 5, offset: 18231},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18212},
+					pos: position{line: 590, col: 5, offset: 18231},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18212},
+							pos:        position{line: 590, col: 5, offset: 18231},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18217},
+							pos: position{line: 590, col: 10, offset: 18236},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18218},
+								pos:        position{line: 590, col: 11, offset: 18237},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18297},
+							pos:   position{line: 591, col: 5, offset: 18316},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18306},
+								pos:  position{line: 591, col: 14, offset: 18325},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18345},
+							pos:        position{line: 592, col: 5, offset: 18364},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18350},
+							pos: position{line: 592, col: 10, offset: 18369},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18352},
+								pos: position{line: 592, col: 12, offset: 18371},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18354},
+									pos: position{line: 592, col: 14, offset: 18373},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18354},
+											pos: position{line: 592, col: 14, offset: 18373},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90589},
+												pos: position{line: 2861, col: 10, offset: 90627},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90589},
+													pos:        position{line: 2861, col: 10, offset: 90627},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14067,7 +14285,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18361},
+											pos:        position{line: 592, col: 21, offset: 18380},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14082,25 +14300,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18404},
+			pos:  position{line: 596, col: 1, offset: 18423},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18446},
+				pos: position{line: 597, col: 5, offset: 18465},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18446},
+					pos:   position{line: 597, col: 5, offset: 18465},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18455},
+						pos: position{line: 597, col: 14, offset: 18474},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18465},
+							pos: position{line: 598, col: 9, offset: 18484},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87758},
+									pos: position{line: 2755, col: 14, offset: 87796},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87758},
+										pos: position{line: 2755, col: 14, offset: 87796},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87758},
+											pos:        position{line: 2755, col: 14, offset: 87796},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14109,10 +14327,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90589},
+									pos: position{line: 2861, col: 10, offset: 90627},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90589},
+										pos:        position{line: 2861, col: 10, offset: 90627},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14120,39 +14338,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18501},
+									pos:  position{line: 600, col: 11, offset: 18520},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20128},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20128},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20128},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20200},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20209},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20338},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20338},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20338},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20346},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14184,7 +14402,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20365},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14193,19 +14411,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20606},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20606},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20606},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20610},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14237,7 +14455,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20629},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14246,19 +14464,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20810},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20810},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20810},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20822},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14290,33 +14508,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20841},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20847},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21142},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21142},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21146},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21153},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21153},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14324,12 +14542,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21207},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21207},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14346,7 +14564,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20863},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14355,19 +14573,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 20981},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 20981},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 20981},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 20994},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14399,33 +14617,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21013},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21019},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21142},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21142},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21146},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21153},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21153},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14433,12 +14651,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21207},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21207},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14455,7 +14673,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21035},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14470,50 +14688,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18556},
+									pos: position{line: 602, col: 12, offset: 18575},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18556},
+										pos:        position{line: 602, col: 12, offset: 18575},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18658},
+									pos:        position{line: 605, col: 13, offset: 18677},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18666},
+									pos:        position{line: 605, col: 21, offset: 18685},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18674},
+									pos:        position{line: 605, col: 29, offset: 18693},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18680},
+									pos: position{line: 605, col: 35, offset: 18699},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18680},
+										pos:        position{line: 605, col: 35, offset: 18699},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18863},
+									pos: position{line: 608, col: 12, offset: 18882},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18863},
+										pos: position{line: 608, col: 12, offset: 18882},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
+											pos:        position{line: 608, col: 12, offset: 18882},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14529,20 +14747,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19137},
+			pos:  position{line: 616, col: 1, offset: 19156},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19321},
+				pos: position{line: 619, col: 5, offset: 19340},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19321},
+					pos: position{line: 619, col: 5, offset: 19340},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19321},
+							pos: position{line: 619, col: 5, offset: 19340},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14551,28 +14769,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19390},
+							pos:   position{line: 620, col: 5, offset: 19409},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19399},
+								pos: position{line: 620, col: 14, offset: 19418},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19409},
+									pos: position{line: 621, col: 9, offset: 19428},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19410},
+											pos: position{line: 621, col: 10, offset: 19429},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19410},
+													pos:        position{line: 621, col: 10, offset: 19429},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19414},
+													pos:  position{line: 621, col: 14, offset: 19433},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19437},
+													pos:        position{line: 621, col: 37, offset: 19456},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14580,35 +14798,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20128},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20128},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20128},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20200},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20209},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20338},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20338},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20338},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20346},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14640,7 +14858,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20365},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14649,19 +14867,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20606},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20606},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20606},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20610},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14693,7 +14911,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20629},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14702,19 +14920,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20810},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20810},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20810},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20822},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14746,33 +14964,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20841},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20847},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21142},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21142},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21146},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21153},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14780,12 +14998,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21207},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21207},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14802,7 +15020,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20863},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14811,19 +15029,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 20981},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 20981},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 20981},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 20994},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -14855,33 +15073,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21013},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21019},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21142},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21142},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21146},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21153},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14889,12 +15107,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21207},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21207},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14911,7 +15129,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21035},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14926,16 +15144,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19524},
+											pos:        position{line: 622, col: 32, offset: 19543},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90589},
+											pos: position{line: 2861, col: 10, offset: 90627},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90589},
+												pos:        position{line: 2861, col: 10, offset: 90627},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14943,12 +15161,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19609},
+											pos: position{line: 624, col: 12, offset: 19628},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19609},
+												pos: position{line: 624, col: 12, offset: 19628},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19609},
+													pos:        position{line: 624, col: 12, offset: 19628},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -14966,32 +15184,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21750},
+			pos:  position{line: 684, col: 1, offset: 21769},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21768},
+				pos: position{line: 684, col: 19, offset: 21787},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21844},
+						pos: position{line: 686, col: 27, offset: 21863},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21844},
+							pos: position{line: 686, col: 27, offset: 21863},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21844},
+									pos:        position{line: 686, col: 27, offset: 21863},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21849},
+									pos:   position{line: 686, col: 32, offset: 21868},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 7, offset: 90241},
+										pos: position{line: 2846, col: 7, offset: 90279},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2846, col: 7, offset: 90241},
+											pos: position{line: 2846, col: 7, offset: 90279},
 											expr: &charClassMatcher{
-												pos:        position{line: 2846, col: 7, offset: 90241},
+												pos:        position{line: 2846, col: 7, offset: 90279},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15001,12 +15219,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21857},
+									pos: position{line: 686, col: 40, offset: 21876},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90589},
+										pos: position{line: 2861, col: 10, offset: 90627},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90589},
+											pos:        position{line: 2861, col: 10, offset: 90627},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15015,26 +15233,26 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21864},
+									pos:        position{line: 686, col: 47, offset: 21883},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21868},
+									pos:   position{line: 686, col: 51, offset: 21887},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22269},
+										pos: position{line: 696, col: 24, offset: 22288},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22275},
+											pos: position{line: 697, col: 5, offset: 22294},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22276},
+													pos: position{line: 697, col: 6, offset: 22295},
 													run: (*parser).callonCrossReference16,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 697, col: 6, offset: 22276},
+														pos: position{line: 697, col: 6, offset: 22295},
 														expr: &charClassMatcher{
-															pos:        position{line: 697, col: 6, offset: 22276},
+															pos:        position{line: 697, col: 6, offset: 22295},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15043,19 +15261,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20338},
 													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20319},
+														pos: position{line: 645, col: 5, offset: 20338},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20319},
+																pos:        position{line: 645, col: 5, offset: 20338},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20327},
+																pos:   position{line: 645, col: 13, offset: 20346},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15087,7 +15305,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20346},
+																pos:        position{line: 645, col: 32, offset: 20365},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15096,19 +15314,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20606},
 													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20587},
+														pos: position{line: 652, col: 5, offset: 20606},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20587},
+																pos:        position{line: 652, col: 5, offset: 20606},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20591},
+																pos:   position{line: 652, col: 9, offset: 20610},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15140,7 +15358,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20610},
+																pos:        position{line: 652, col: 28, offset: 20629},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15149,10 +15367,228 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22510},
+													pos: position{line: 658, col: 25, offset: 20810},
 													run: (*parser).callonCrossReference39,
+													expr: &seqExpr{
+														pos: position{line: 658, col: 25, offset: 20810},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 658, col: 25, offset: 20810},
+																val:        "{counter:",
+																ignoreCase: false,
+																want:       "\"{counter:\"",
+															},
+															&labeledExpr{
+																pos:   position{line: 658, col: 37, offset: 20822},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 318, col: 18, offset: 9736},
+																	run: (*parser).callonCrossReference43,
+																	expr: &seqExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		exprs: []interface{}{
+																			&charClassMatcher{
+																				pos:        position{line: 318, col: 18, offset: 9736},
+																				val:        "[_\\pL\\pN]",
+																				chars:      []rune{'_'},
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 318, col: 28, offset: 9746},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 318, col: 29, offset: 9747},
+																					val:        "[-\\pL\\pN]",
+																					chars:      []rune{'-'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&labeledExpr{
+																pos:   position{line: 658, col: 56, offset: 20841},
+																label: "start",
+																expr: &zeroOrOneExpr{
+																	pos: position{line: 658, col: 62, offset: 20847},
+																	expr: &actionExpr{
+																		pos: position{line: 666, col: 17, offset: 21142},
+																		run: (*parser).callonCrossReference50,
+																		expr: &seqExpr{
+																			pos: position{line: 666, col: 17, offset: 21142},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 666, col: 17, offset: 21142},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 666, col: 21, offset: 21146},
+																					label: "start",
+																					expr: &choiceExpr{
+																						pos: position{line: 666, col: 28, offset: 21153},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 666, col: 28, offset: 21153},
+																								run: (*parser).callonCrossReference55,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 666, col: 28, offset: 21153},
+																									val:        "[A-Za-z]",
+																									ranges:     []rune{'A', 'Z', 'a', 'z'},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 668, col: 9, offset: 21207},
+																								run: (*parser).callonCrossReference57,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 668, col: 9, offset: 21207},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 668, col: 9, offset: 21207},
+																										val:        "[0-9]",
+																										ranges:     []rune{'0', '9'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 658, col: 78, offset: 20863},
+																val:        "}",
+																ignoreCase: false,
+																want:       "\"}\"",
+															},
+														},
+													},
+												},
+												&actionExpr{
+													pos: position{line: 662, col: 25, offset: 20981},
+													run: (*parser).callonCrossReference61,
+													expr: &seqExpr{
+														pos: position{line: 662, col: 25, offset: 20981},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 662, col: 25, offset: 20981},
+																val:        "{counter2:",
+																ignoreCase: false,
+																want:       "\"{counter2:\"",
+															},
+															&labeledExpr{
+																pos:   position{line: 662, col: 38, offset: 20994},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 318, col: 18, offset: 9736},
+																	run: (*parser).callonCrossReference65,
+																	expr: &seqExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		exprs: []interface{}{
+																			&charClassMatcher{
+																				pos:        position{line: 318, col: 18, offset: 9736},
+																				val:        "[_\\pL\\pN]",
+																				chars:      []rune{'_'},
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 318, col: 28, offset: 9746},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 318, col: 29, offset: 9747},
+																					val:        "[-\\pL\\pN]",
+																					chars:      []rune{'-'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&labeledExpr{
+																pos:   position{line: 662, col: 57, offset: 21013},
+																label: "start",
+																expr: &zeroOrOneExpr{
+																	pos: position{line: 662, col: 63, offset: 21019},
+																	expr: &actionExpr{
+																		pos: position{line: 666, col: 17, offset: 21142},
+																		run: (*parser).callonCrossReference72,
+																		expr: &seqExpr{
+																			pos: position{line: 666, col: 17, offset: 21142},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 666, col: 17, offset: 21142},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 666, col: 21, offset: 21146},
+																					label: "start",
+																					expr: &choiceExpr{
+																						pos: position{line: 666, col: 28, offset: 21153},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 666, col: 28, offset: 21153},
+																								run: (*parser).callonCrossReference77,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 666, col: 28, offset: 21153},
+																									val:        "[A-Za-z]",
+																									ranges:     []rune{'A', 'Z', 'a', 'z'},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 668, col: 9, offset: 21207},
+																								run: (*parser).callonCrossReference79,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 668, col: 9, offset: 21207},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 668, col: 9, offset: 21207},
+																										val:        "[0-9]",
+																										ranges:     []rune{'0', '9'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 662, col: 79, offset: 21035},
+																val:        "}",
+																ignoreCase: false,
+																want:       "\"}\"",
+															},
+														},
+													},
+												},
+												&actionExpr{
+													pos: position{line: 701, col: 8, offset: 22548},
+													run: (*parser).callonCrossReference83,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22510},
+														pos:        position{line: 701, col: 8, offset: 22548},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15163,7 +15599,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21896},
+									pos:        position{line: 686, col: 79, offset: 21915},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15172,27 +15608,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21969},
-						run: (*parser).callonCrossReference42,
+						pos: position{line: 688, col: 9, offset: 21988},
+						run: (*parser).callonCrossReference86,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21969},
+							pos: position{line: 688, col: 9, offset: 21988},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21969},
+									pos:        position{line: 688, col: 9, offset: 21988},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21974},
+									pos:   position{line: 688, col: 14, offset: 21993},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 7, offset: 90241},
-										run: (*parser).callonCrossReference46,
+										pos: position{line: 2846, col: 7, offset: 90279},
+										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2846, col: 7, offset: 90241},
+											pos: position{line: 2846, col: 7, offset: 90279},
 											expr: &charClassMatcher{
-												pos:        position{line: 2846, col: 7, offset: 90241},
+												pos:        position{line: 2846, col: 7, offset: 90279},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15202,7 +15638,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21982},
+									pos:        position{line: 688, col: 22, offset: 22001},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15211,7 +15647,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21793},
+						pos:  position{line: 684, col: 44, offset: 21812},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15219,58 +15655,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22053},
+			pos:  position{line: 692, col: 1, offset: 22072},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22079},
+				pos: position{line: 692, col: 27, offset: 22098},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22079},
+					pos: position{line: 692, col: 27, offset: 22098},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22079},
+							pos:        position{line: 692, col: 27, offset: 22098},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22087},
+							pos:   position{line: 692, col: 35, offset: 22106},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2815, col: 17, offset: 89252},
+								pos: position{line: 2815, col: 17, offset: 89290},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2815, col: 17, offset: 89252},
+									pos:   position{line: 2815, col: 17, offset: 89290},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 5, offset: 89706},
+										pos: position{line: 2832, col: 5, offset: 89744},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2832, col: 5, offset: 89706},
+											pos:   position{line: 2832, col: 5, offset: 89744},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2832, col: 14, offset: 89715},
+												pos: position{line: 2832, col: 14, offset: 89753},
 												expr: &choiceExpr{
-													pos: position{line: 2833, col: 9, offset: 89725},
+													pos: position{line: 2833, col: 9, offset: 89763},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2833, col: 9, offset: 89725},
+															pos: position{line: 2833, col: 9, offset: 89763},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2833, col: 9, offset: 89725},
+																pos: position{line: 2833, col: 9, offset: 89763},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2833, col: 9, offset: 89725},
+																		pos: position{line: 2833, col: 9, offset: 89763},
 																		expr: &litMatcher{
-																			pos:        position{line: 2833, col: 10, offset: 89726},
+																			pos:        position{line: 2833, col: 10, offset: 89764},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2834, col: 9, offset: 89754},
+																		pos: position{line: 2834, col: 9, offset: 89792},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2834, col: 10, offset: 89755},
+																			pos:        position{line: 2834, col: 10, offset: 89793},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15281,27 +15717,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2837, col: 11, offset: 89967},
+															pos: position{line: 2837, col: 11, offset: 90005},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2837, col: 11, offset: 89967},
+																	pos:        position{line: 2837, col: 11, offset: 90005},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2837, col: 19, offset: 89975},
+																	pos: position{line: 2837, col: 19, offset: 90013},
 																	expr: &seqExpr{
-																		pos: position{line: 2837, col: 21, offset: 89977},
+																		pos: position{line: 2837, col: 21, offset: 90015},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2837, col: 21, offset: 89977},
+																				pos: position{line: 2837, col: 21, offset: 90015},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90589},
+																					pos: position{line: 2861, col: 10, offset: 90627},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90589},
+																						pos:        position{line: 2861, col: 10, offset: 90627},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15310,11 +15746,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2837, col: 28, offset: 89984},
+																				pos: position{line: 2837, col: 28, offset: 90022},
 																				expr: &notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -15324,35 +15760,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20128},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20128},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20128},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20200},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20209},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20338},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20338},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20346},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15384,7 +15820,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20365},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15393,19 +15829,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20606},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20606},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20610},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15437,7 +15873,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20629},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15446,19 +15882,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20810},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20810},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20810},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20822},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15490,33 +15926,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20841},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20847},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21142},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21142},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21142},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21146},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21153},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15524,12 +15960,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21207},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21207},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21207},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15546,7 +15982,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20863},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15555,19 +15991,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 20981},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 20981},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 20981},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 20994},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15599,33 +16035,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21013},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21019},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21142},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21142},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21142},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21146},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21153},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15633,12 +16069,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21207},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21207},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21207},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15655,7 +16091,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21035},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15670,27 +16106,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37178},
+															pos: position{line: 1206, col: 23, offset: 37216},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37178},
+																pos: position{line: 1206, col: 23, offset: 37216},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37146},
+																		pos:        position{line: 1204, col: 32, offset: 37184},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37206},
+																		pos:   position{line: 1206, col: 51, offset: 37244},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37211},
+																			pos: position{line: 1206, col: 56, offset: 37249},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37211},
+																				pos: position{line: 1206, col: 56, offset: 37249},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37211},
+																					pos:        position{line: 1206, col: 56, offset: 37249},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15700,7 +16136,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37146},
+																		pos:        position{line: 1204, col: 32, offset: 37184},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15709,10 +16145,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2840, col: 11, offset: 90104},
+															pos: position{line: 2840, col: 11, offset: 90142},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2840, col: 11, offset: 90104},
+																pos:        position{line: 2840, col: 11, offset: 90142},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15727,10 +16163,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22106},
+							pos:   position{line: 692, col: 54, offset: 22125},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22118},
+								pos:  position{line: 692, col: 66, offset: 22137},
 								name: "InlineAttributes",
 							},
 						},
@@ -15740,29 +16176,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 996, col: 1, offset: 30973},
+			pos:  position{line: 996, col: 1, offset: 31011},
 			expr: &actionExpr{
-				pos: position{line: 997, col: 5, offset: 31006},
+				pos: position{line: 997, col: 5, offset: 31044},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 997, col: 5, offset: 31006},
+					pos: position{line: 997, col: 5, offset: 31044},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 997, col: 5, offset: 31006},
+							pos:        position{line: 997, col: 5, offset: 31044},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 997, col: 11, offset: 31012},
+							pos:   position{line: 997, col: 11, offset: 31050},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2811, col: 14, offset: 89182},
+								pos: position{line: 2811, col: 14, offset: 89220},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2811, col: 14, offset: 89182},
+									pos: position{line: 2811, col: 14, offset: 89220},
 									expr: &charClassMatcher{
-										pos:        position{line: 2811, col: 14, offset: 89182},
+										pos:        position{line: 2811, col: 14, offset: 89220},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15772,28 +16208,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15802,9 +16238,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -15815,53 +16251,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1108, col: 1, offset: 33929},
+			pos:  position{line: 1108, col: 1, offset: 33967},
 			expr: &actionExpr{
-				pos: position{line: 1109, col: 5, offset: 33952},
+				pos: position{line: 1109, col: 5, offset: 33990},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1109, col: 5, offset: 33952},
+					pos: position{line: 1109, col: 5, offset: 33990},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1109, col: 5, offset: 33952},
+							pos: position{line: 1109, col: 5, offset: 33990},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1112, col: 5, offset: 34013},
+							pos: position{line: 1112, col: 5, offset: 34051},
 							expr: &choiceExpr{
-								pos: position{line: 1112, col: 6, offset: 34014},
+								pos: position{line: 1112, col: 6, offset: 34052},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79574},
+										pos: position{line: 2471, col: 22, offset: 79612},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79795},
+													pos:        position{line: 2476, col: 31, offset: 79833},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79800},
+													pos: position{line: 2476, col: 36, offset: 79838},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79801},
+														pos:        position{line: 2476, col: 37, offset: 79839},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79601},
+													pos:   position{line: 2471, col: 49, offset: 79639},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89115},
+														pos: position{line: 2807, col: 13, offset: 89153},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89115},
+																pos:        position{line: 2807, col: 13, offset: 89153},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15871,28 +16307,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15901,9 +16337,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -15912,39 +16348,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26362},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26362},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 820, col: 5, offset: 26362},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23622},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23622},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23622},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23633},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23633},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23633},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23640},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23640},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -15955,12 +16391,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -15969,28 +16405,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -15999,9 +16435,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -16011,56 +16447,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 821, col: 5, offset: 26401},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 824, col: 5, offset: 26493},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26847},
+														pos: position{line: 839, col: 5, offset: 26885},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26848},
+															pos: position{line: 839, col: 6, offset: 26886},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26848},
+																pos: position{line: 839, col: 6, offset: 26886},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26848},
+																		pos: position{line: 839, col: 6, offset: 26886},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26689},
+																			pos: position{line: 832, col: 5, offset: 26727},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26689},
+																					pos: position{line: 832, col: 5, offset: 26727},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26689},
+																							pos:   position{line: 832, col: 5, offset: 26727},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23622},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23622},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23633},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23633},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23640},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23640},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16071,12 +16507,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16085,28 +16521,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16115,9 +16551,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -16127,45 +16563,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26720},
+																							pos: position{line: 833, col: 5, offset: 26758},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26878},
+																		pos:   position{line: 840, col: 5, offset: 26916},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16175,28 +16611,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16205,9 +16641,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -16222,41 +16658,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26489},
+													pos: position{line: 825, col: 5, offset: 26527},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26689},
+														pos: position{line: 832, col: 5, offset: 26727},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26689},
+																pos: position{line: 832, col: 5, offset: 26727},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26689},
+																		pos:   position{line: 832, col: 5, offset: 26727},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23622},
 																			run: (*parser).callonDocumentHeader97,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23622},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23633},
 																							run: (*parser).callonDocumentHeader100,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23633},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23640},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23640},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -16267,12 +16703,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16281,28 +16717,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16311,9 +16747,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -16323,15 +16759,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26720},
+																		pos: position{line: 833, col: 5, offset: 26758},
 																		run: (*parser).callonDocumentHeader116,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -16344,49 +16780,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 5, offset: 34110},
+							pos:   position{line: 1113, col: 5, offset: 34148},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 12, offset: 34117},
+								pos:  position{line: 1113, col: 12, offset: 34155},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1114, col: 5, offset: 34136},
+							pos: position{line: 1114, col: 5, offset: 34174},
 							expr: &choiceExpr{
-								pos: position{line: 1114, col: 6, offset: 34137},
+								pos: position{line: 1114, col: 6, offset: 34175},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79574},
+										pos: position{line: 2471, col: 22, offset: 79612},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79795},
+													pos:        position{line: 2476, col: 31, offset: 79833},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79800},
+													pos: position{line: 2476, col: 36, offset: 79838},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79801},
+														pos:        position{line: 2476, col: 37, offset: 79839},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79601},
+													pos:   position{line: 2471, col: 49, offset: 79639},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89115},
+														pos: position{line: 2807, col: 13, offset: 89153},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89115},
+																pos:        position{line: 2807, col: 13, offset: 89153},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16396,28 +16832,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16426,9 +16862,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -16437,39 +16873,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26362},
 										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26362},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 820, col: 5, offset: 26362},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23622},
 														run: (*parser).callonDocumentHeader143,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23622},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23622},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23633},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23633},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23633},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23640},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23640},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16480,12 +16916,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16494,28 +16930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16524,9 +16960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -16536,56 +16972,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 821, col: 5, offset: 26401},
 													run: (*parser).callonDocumentHeader162,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 824, col: 5, offset: 26493},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26847},
+														pos: position{line: 839, col: 5, offset: 26885},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26848},
+															pos: position{line: 839, col: 6, offset: 26886},
 															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26848},
+																pos: position{line: 839, col: 6, offset: 26886},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26848},
+																		pos: position{line: 839, col: 6, offset: 26886},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26689},
+																			pos: position{line: 832, col: 5, offset: 26727},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26689},
+																					pos: position{line: 832, col: 5, offset: 26727},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26689},
+																							pos:   position{line: 832, col: 5, offset: 26727},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23622},
 																								run: (*parser).callonDocumentHeader171,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23622},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23633},
 																												run: (*parser).callonDocumentHeader174,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23633},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23640},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23640},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16596,12 +17032,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16610,28 +17046,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16640,9 +17076,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -16652,45 +17088,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26720},
+																							pos: position{line: 833, col: 5, offset: 26758},
 																							run: (*parser).callonDocumentHeader190,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26878},
+																		pos:   position{line: 840, col: 5, offset: 26916},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16700,28 +17136,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16730,9 +17166,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -16747,41 +17183,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26489},
+													pos: position{line: 825, col: 5, offset: 26527},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26689},
+														pos: position{line: 832, col: 5, offset: 26727},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26689},
+																pos: position{line: 832, col: 5, offset: 26727},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26689},
+																		pos:   position{line: 832, col: 5, offset: 26727},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23622},
 																			run: (*parser).callonDocumentHeader214,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23622},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23633},
 																							run: (*parser).callonDocumentHeader217,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23633},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23640},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23640},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -16792,12 +17228,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16806,28 +17242,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16836,9 +17272,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -16848,15 +17284,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26720},
+																		pos: position{line: 833, col: 5, offset: 26758},
 																		run: (*parser).callonDocumentHeader233,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -16869,41 +17305,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1115, col: 5, offset: 34233},
+							pos:   position{line: 1115, col: 5, offset: 34271},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1115, col: 24, offset: 34252},
+								pos: position{line: 1115, col: 24, offset: 34290},
 								expr: &actionExpr{
-									pos: position{line: 1126, col: 5, offset: 34627},
+									pos: position{line: 1126, col: 5, offset: 34665},
 									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1126, col: 5, offset: 34627},
+										pos: position{line: 1126, col: 5, offset: 34665},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1126, col: 5, offset: 34627},
+												pos: position{line: 1126, col: 5, offset: 34665},
 												expr: &litMatcher{
-													pos:        position{line: 1126, col: 6, offset: 34628},
+													pos:        position{line: 1126, col: 6, offset: 34666},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1127, col: 5, offset: 34636},
+												pos:   position{line: 1127, col: 5, offset: 34674},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1133, col: 20, offset: 34892},
+													pos: position{line: 1133, col: 20, offset: 34930},
 													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1133, col: 20, offset: 34892},
+														pos: position{line: 1133, col: 20, offset: 34930},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1133, col: 20, offset: 34892},
+																pos: position{line: 1133, col: 20, offset: 34930},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16912,37 +17348,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1133, col: 27, offset: 34899},
+																pos:   position{line: 1133, col: 27, offset: 34937},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1133, col: 36, offset: 34908},
+																	pos: position{line: 1133, col: 36, offset: 34946},
 																	expr: &actionExpr{
-																		pos: position{line: 1138, col: 5, offset: 35021},
+																		pos: position{line: 1138, col: 5, offset: 35059},
 																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1138, col: 5, offset: 35021},
+																			pos: position{line: 1138, col: 5, offset: 35059},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 5, offset: 35021},
+																					pos:   position{line: 1138, col: 5, offset: 35059},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 14, offset: 35030},
+																						pos: position{line: 1138, col: 14, offset: 35068},
 																						expr: &actionExpr{
-																							pos: position{line: 1149, col: 5, offset: 35410},
+																							pos: position{line: 1149, col: 5, offset: 35448},
 																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1149, col: 5, offset: 35410},
+																								pos: position{line: 1149, col: 5, offset: 35448},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35410},
+																										pos:   position{line: 1149, col: 5, offset: 35448},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1149, col: 12, offset: 35417},
+																											pos: position{line: 1149, col: 12, offset: 35455},
 																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1149, col: 12, offset: 35417},
+																												pos: position{line: 1149, col: 12, offset: 35455},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1149, col: 12, offset: 35417},
+																													pos:        position{line: 1149, col: 12, offset: 35455},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16952,12 +17388,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35497},
+																										pos: position{line: 1152, col: 5, offset: 35535},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90589},
+																											pos: position{line: 2861, col: 10, offset: 90627},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90589},
+																												pos:        position{line: 2861, col: 10, offset: 90627},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16966,17 +17402,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1153, col: 5, offset: 35508},
+																										pos:   position{line: 1153, col: 5, offset: 35546},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1153, col: 11, offset: 35514},
+																											pos: position{line: 1153, col: 11, offset: 35552},
 																											expr: &actionExpr{
-																												pos: position{line: 1153, col: 12, offset: 35515},
+																												pos: position{line: 1153, col: 12, offset: 35553},
 																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1153, col: 12, offset: 35515},
+																													pos: position{line: 1153, col: 12, offset: 35553},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1153, col: 12, offset: 35515},
+																														pos:        position{line: 1153, col: 12, offset: 35553},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16987,12 +17423,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1156, col: 5, offset: 35596},
+																										pos: position{line: 1156, col: 5, offset: 35634},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90589},
+																											pos: position{line: 2861, col: 10, offset: 90627},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90589},
+																												pos:        position{line: 2861, col: 10, offset: 90627},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17001,17 +17437,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1157, col: 5, offset: 35607},
+																										pos:   position{line: 1157, col: 5, offset: 35645},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1157, col: 11, offset: 35613},
+																											pos: position{line: 1157, col: 11, offset: 35651},
 																											expr: &actionExpr{
-																												pos: position{line: 1157, col: 12, offset: 35614},
+																												pos: position{line: 1157, col: 12, offset: 35652},
 																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1157, col: 12, offset: 35614},
+																													pos: position{line: 1157, col: 12, offset: 35652},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1157, col: 12, offset: 35614},
+																														pos:        position{line: 1157, col: 12, offset: 35652},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17022,12 +17458,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1160, col: 5, offset: 35693},
+																										pos: position{line: 1160, col: 5, offset: 35731},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90589},
+																											pos: position{line: 2861, col: 10, offset: 90627},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90589},
+																												pos:        position{line: 2861, col: 10, offset: 90627},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17041,38 +17477,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 40, offset: 35056},
+																					pos:   position{line: 1138, col: 40, offset: 35094},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 46, offset: 35062},
+																						pos: position{line: 1138, col: 46, offset: 35100},
 																						expr: &actionExpr{
-																							pos: position{line: 1166, col: 5, offset: 35815},
+																							pos: position{line: 1166, col: 5, offset: 35853},
 																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1166, col: 5, offset: 35815},
+																								pos: position{line: 1166, col: 5, offset: 35853},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2878, col: 11, offset: 90923},
+																										pos: position{line: 2878, col: 11, offset: 90961},
 																										expr: &anyMatcher{
-																											line: 2878, col: 13, offset: 90925,
+																											line: 2878, col: 13, offset: 90963,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1167, col: 5, offset: 35827},
+																										pos:        position{line: 1167, col: 5, offset: 35865},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1168, col: 5, offset: 35836},
+																										pos:   position{line: 1168, col: 5, offset: 35874},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1168, col: 12, offset: 35843},
+																											pos: position{line: 1168, col: 12, offset: 35881},
 																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1168, col: 13, offset: 35844},
+																												pos: position{line: 1168, col: 13, offset: 35882},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1168, col: 13, offset: 35844},
+																													pos:        position{line: 1168, col: 13, offset: 35882},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17082,7 +17518,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1171, col: 5, offset: 35904},
+																										pos:        position{line: 1171, col: 5, offset: 35942},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17093,12 +17529,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 69, offset: 35085},
+																					pos: position{line: 1138, col: 69, offset: 35123},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17107,21 +17543,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1138, col: 76, offset: 35092},
+																					pos: position{line: 1138, col: 76, offset: 35130},
 																					expr: &litMatcher{
-																						pos:        position{line: 1138, col: 76, offset: 35092},
+																						pos:        position{line: 1138, col: 76, offset: 35130},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 81, offset: 35097},
+																					pos: position{line: 1138, col: 81, offset: 35135},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17130,7 +17566,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1139, col: 5, offset: 35109},
+																					pos: position{line: 1139, col: 5, offset: 35147},
 																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
@@ -17139,28 +17575,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17169,9 +17605,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -17181,41 +17617,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1128, col: 5, offset: 34666},
+												pos: position{line: 1128, col: 5, offset: 34704},
 												expr: &choiceExpr{
-													pos: position{line: 1128, col: 6, offset: 34667},
+													pos: position{line: 1128, col: 6, offset: 34705},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79574},
+															pos: position{line: 2471, col: 22, offset: 79612},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79574},
+																pos: position{line: 2471, col: 22, offset: 79612},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79795},
+																		pos:        position{line: 2476, col: 31, offset: 79833},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79800},
+																		pos: position{line: 2476, col: 36, offset: 79838},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79801},
+																			pos:        position{line: 2476, col: 37, offset: 79839},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79601},
+																		pos:   position{line: 2471, col: 49, offset: 79639},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89115},
+																			pos: position{line: 2807, col: 13, offset: 89153},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89115},
+																				pos: position{line: 2807, col: 13, offset: 89153},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89115},
+																					pos:        position{line: 2807, col: 13, offset: 89153},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17225,28 +17661,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17255,9 +17691,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -17266,39 +17702,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26324},
+															pos: position{line: 820, col: 5, offset: 26362},
 															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26324},
+																pos: position{line: 820, col: 5, offset: 26362},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 820, col: 5, offset: 26324},
+																		pos:   position{line: 820, col: 5, offset: 26362},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23622},
 																			run: (*parser).callonDocumentHeader330,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23622},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23633},
 																							run: (*parser).callonDocumentHeader333,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23633},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23640},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23640},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17309,12 +17745,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17323,28 +17759,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17353,9 +17789,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -17365,56 +17801,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 821, col: 5, offset: 26363},
+																		pos: position{line: 821, col: 5, offset: 26401},
 																		run: (*parser).callonDocumentHeader349,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 824, col: 5, offset: 26455},
+																		pos:   position{line: 824, col: 5, offset: 26493},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 839, col: 5, offset: 26847},
+																			pos: position{line: 839, col: 5, offset: 26885},
 																			expr: &actionExpr{
-																				pos: position{line: 839, col: 6, offset: 26848},
+																				pos: position{line: 839, col: 6, offset: 26886},
 																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 839, col: 6, offset: 26848},
+																					pos: position{line: 839, col: 6, offset: 26886},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 839, col: 6, offset: 26848},
+																							pos: position{line: 839, col: 6, offset: 26886},
 																							expr: &choiceExpr{
-																								pos: position{line: 832, col: 5, offset: 26689},
+																								pos: position{line: 832, col: 5, offset: 26727},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 832, col: 5, offset: 26689},
+																										pos: position{line: 832, col: 5, offset: 26727},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 832, col: 5, offset: 26689},
+																												pos:   position{line: 832, col: 5, offset: 26727},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 5, offset: 23584},
+																													pos: position{line: 740, col: 5, offset: 23622},
 																													run: (*parser).callonDocumentHeader358,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 5, offset: 23584},
+																														pos: position{line: 740, col: 5, offset: 23622},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 740, col: 5, offset: 23584},
+																																pos:   position{line: 740, col: 5, offset: 23622},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 740, col: 16, offset: 23595},
+																																	pos: position{line: 740, col: 16, offset: 23633},
 																																	run: (*parser).callonDocumentHeader361,
 																																	expr: &seqExpr{
-																																		pos: position{line: 740, col: 16, offset: 23595},
+																																		pos: position{line: 740, col: 16, offset: 23633},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 740, col: 16, offset: 23595},
+																																				pos:        position{line: 740, col: 16, offset: 23633},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 740, col: 23, offset: 23602},
+																																				pos: position{line: 740, col: 23, offset: 23640},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 740, col: 23, offset: 23602},
+																																					pos:        position{line: 740, col: 23, offset: 23640},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17425,12 +17861,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 742, col: 8, offset: 23686},
+																																pos: position{line: 742, col: 8, offset: 23724},
 																																expr: &actionExpr{
-																																	pos: position{line: 2861, col: 10, offset: 90589},
+																																	pos: position{line: 2861, col: 10, offset: 90627},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2861, col: 10, offset: 90589},
+																																		pos:        position{line: 2861, col: 10, offset: 90627},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17439,28 +17875,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2883, col: 8, offset: 90987},
+																																pos: position{line: 2883, col: 8, offset: 91025},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2870, col: 12, offset: 90760},
+																																		pos: position{line: 2870, col: 12, offset: 90798},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2870, col: 13, offset: 90761},
+																																			pos: position{line: 2870, col: 13, offset: 90799},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 13, offset: 90761},
+																																					pos:        position{line: 2870, col: 13, offset: 90799},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 20, offset: 90768},
+																																					pos:        position{line: 2870, col: 20, offset: 90806},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 29, offset: 90777},
+																																					pos:        position{line: 2870, col: 29, offset: 90815},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17469,9 +17905,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2880, col: 8, offset: 90937},
+																																		pos: position{line: 2880, col: 8, offset: 90975},
 																																		expr: &anyMatcher{
-																																			line: 2880, col: 9, offset: 90938,
+																																			line: 2880, col: 9, offset: 90976,
 																																		},
 																																	},
 																																},
@@ -17481,45 +17917,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 833, col: 5, offset: 26720},
+																												pos: position{line: 833, col: 5, offset: 26758},
 																												run: (*parser).callonDocumentHeader377,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 840, col: 5, offset: 26878},
+																							pos:   position{line: 840, col: 5, offset: 26916},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26088},
+																								pos: position{line: 811, col: 5, offset: 26126},
 																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26088},
+																									pos: position{line: 811, col: 5, offset: 26126},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2878, col: 11, offset: 90923},
+																											pos: position{line: 2878, col: 11, offset: 90961},
 																											expr: &anyMatcher{
-																												line: 2878, col: 13, offset: 90925,
+																												line: 2878, col: 13, offset: 90963,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26163},
+																											pos:   position{line: 812, col: 5, offset: 26201},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2807, col: 13, offset: 89115},
+																												pos: position{line: 2807, col: 13, offset: 89153},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2807, col: 13, offset: 89115},
+																													pos: position{line: 2807, col: 13, offset: 89153},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2807, col: 13, offset: 89115},
+																														pos:        position{line: 2807, col: 13, offset: 89153},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17529,28 +17965,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17559,9 +17995,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -17576,41 +18012,41 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 825, col: 5, offset: 26489},
+																		pos: position{line: 825, col: 5, offset: 26527},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26689},
+																			pos: position{line: 832, col: 5, offset: 26727},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26689},
+																					pos: position{line: 832, col: 5, offset: 26727},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26689},
+																							pos:   position{line: 832, col: 5, offset: 26727},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23622},
 																								run: (*parser).callonDocumentHeader401,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23622},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23633},
 																												run: (*parser).callonDocumentHeader404,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23633},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23640},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23640},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17621,12 +18057,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17635,28 +18071,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17665,9 +18101,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -17677,15 +18113,15 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26720},
+																							pos: position{line: 833, col: 5, offset: 26758},
 																							run: (*parser).callonDocumentHeader420,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -17698,23 +18134,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1129, col: 5, offset: 34741},
+												pos:   position{line: 1129, col: 5, offset: 34779},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1129, col: 14, offset: 34750},
+													pos: position{line: 1129, col: 14, offset: 34788},
 													expr: &actionExpr{
-														pos: position{line: 1177, col: 21, offset: 36093},
+														pos: position{line: 1177, col: 21, offset: 36131},
 														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1177, col: 21, offset: 36093},
+															pos: position{line: 1177, col: 21, offset: 36131},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1177, col: 21, offset: 36093},
+																	pos: position{line: 1177, col: 21, offset: 36131},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17723,55 +18159,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1177, col: 28, offset: 36100},
+																	pos: position{line: 1177, col: 28, offset: 36138},
 																	expr: &litMatcher{
-																		pos:        position{line: 1177, col: 29, offset: 36101},
+																		pos:        position{line: 1177, col: 29, offset: 36139},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1177, col: 33, offset: 36105},
+																	pos:   position{line: 1177, col: 33, offset: 36143},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1178, col: 9, offset: 36124},
+																		pos: position{line: 1178, col: 9, offset: 36162},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1178, col: 10, offset: 36125},
+																				pos: position{line: 1178, col: 10, offset: 36163},
 																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1178, col: 10, offset: 36125},
+																					pos: position{line: 1178, col: 10, offset: 36163},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 10, offset: 36125},
+																							pos:   position{line: 1178, col: 10, offset: 36163},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1187, col: 27, offset: 36642},
+																								pos: position{line: 1187, col: 27, offset: 36680},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1187, col: 27, offset: 36642},
+																										pos: position{line: 1187, col: 27, offset: 36680},
 																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1187, col: 27, offset: 36642},
+																											pos: position{line: 1187, col: 27, offset: 36680},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1187, col: 27, offset: 36642},
+																													pos:        position{line: 1187, col: 27, offset: 36680},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1187, col: 32, offset: 36647},
+																													pos:        position{line: 1187, col: 32, offset: 36685},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1187, col: 38, offset: 36653},
+																													pos: position{line: 1187, col: 38, offset: 36691},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1187, col: 38, offset: 36653},
+																														pos:        position{line: 1187, col: 38, offset: 36691},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17782,31 +18218,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1189, col: 5, offset: 36701},
+																										pos: position{line: 1189, col: 5, offset: 36739},
 																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1189, col: 5, offset: 36701},
+																											pos: position{line: 1189, col: 5, offset: 36739},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1189, col: 5, offset: 36701},
+																													pos: position{line: 1189, col: 5, offset: 36739},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 5, offset: 36701},
+																														pos:        position{line: 1189, col: 5, offset: 36739},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1189, col: 11, offset: 36707},
+																													pos:        position{line: 1189, col: 11, offset: 36745},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1189, col: 17, offset: 36713},
+																													pos: position{line: 1189, col: 17, offset: 36751},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1189, col: 17, offset: 36713},
+																														pos:        position{line: 1189, col: 17, offset: 36751},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17814,12 +18250,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1189, col: 28, offset: 36724},
+																													pos: position{line: 1189, col: 28, offset: 36762},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17828,9 +18264,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1189, col: 35, offset: 36731},
+																													pos: position{line: 1189, col: 35, offset: 36769},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 36, offset: 36732},
+																														pos:        position{line: 1189, col: 36, offset: 36770},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17843,26 +18279,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 45, offset: 36160},
+																							pos: position{line: 1178, col: 45, offset: 36198},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 45, offset: 36160},
+																								pos:        position{line: 1178, col: 45, offset: 36198},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 50, offset: 36165},
+																							pos:   position{line: 1178, col: 50, offset: 36203},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 58, offset: 36173},
+																								pos: position{line: 1178, col: 58, offset: 36211},
 																								expr: &actionExpr{
-																									pos: position{line: 1193, col: 25, offset: 36796},
+																									pos: position{line: 1193, col: 25, offset: 36834},
 																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1193, col: 25, offset: 36796},
+																										pos: position{line: 1193, col: 25, offset: 36834},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1193, col: 25, offset: 36796},
+																											pos:        position{line: 1193, col: 25, offset: 36834},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17873,26 +18309,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 82, offset: 36197},
+																							pos: position{line: 1178, col: 82, offset: 36235},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 82, offset: 36197},
+																								pos:        position{line: 1178, col: 82, offset: 36235},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 87, offset: 36202},
+																							pos:   position{line: 1178, col: 87, offset: 36240},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 97, offset: 36212},
+																								pos: position{line: 1178, col: 97, offset: 36250},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36868},
+																									pos: position{line: 1197, col: 27, offset: 36906},
 																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36868},
+																										pos: position{line: 1197, col: 27, offset: 36906},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36868},
+																											pos:        position{line: 1197, col: 27, offset: 36906},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17906,21 +18342,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1180, col: 15, offset: 36330},
+																				pos: position{line: 1180, col: 15, offset: 36368},
 																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1180, col: 15, offset: 36330},
+																					pos: position{line: 1180, col: 15, offset: 36368},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 15, offset: 36330},
+																							pos:   position{line: 1180, col: 15, offset: 36368},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1193, col: 25, offset: 36796},
+																								pos: position{line: 1193, col: 25, offset: 36834},
 																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1193, col: 25, offset: 36796},
+																									pos: position{line: 1193, col: 25, offset: 36834},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1193, col: 25, offset: 36796},
+																										pos:        position{line: 1193, col: 25, offset: 36834},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17930,26 +18366,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1180, col: 46, offset: 36361},
+																							pos: position{line: 1180, col: 46, offset: 36399},
 																							expr: &litMatcher{
-																								pos:        position{line: 1180, col: 46, offset: 36361},
+																								pos:        position{line: 1180, col: 46, offset: 36399},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 51, offset: 36366},
+																							pos:   position{line: 1180, col: 51, offset: 36404},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1180, col: 61, offset: 36376},
+																								pos: position{line: 1180, col: 61, offset: 36414},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36868},
+																									pos: position{line: 1197, col: 27, offset: 36906},
 																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36868},
+																										pos: position{line: 1197, col: 27, offset: 36906},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36868},
+																											pos:        position{line: 1197, col: 27, offset: 36906},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17966,28 +18402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17996,9 +18432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -18014,15 +18450,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 5, offset: 34287},
+							pos:   position{line: 1116, col: 5, offset: 34325},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1116, col: 19, offset: 34301},
+								pos: position{line: 1116, col: 19, offset: 34339},
 								expr: &choiceExpr{
-									pos: position{line: 1116, col: 20, offset: 34302},
+									pos: position{line: 1116, col: 20, offset: 34340},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1116, col: 20, offset: 34302},
+											pos:  position{line: 1116, col: 20, offset: 34340},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18078,10 +18514,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18090,28 +18526,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18120,9 +18556,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -18183,10 +18619,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90589},
+															pos: position{line: 2861, col: 10, offset: 90627},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90589},
+																pos:        position{line: 2861, col: 10, offset: 90627},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18195,28 +18631,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18225,9 +18661,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -18236,36 +18672,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 22, offset: 79574},
+												pos: position{line: 2471, col: 22, offset: 79612},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2476, col: 31, offset: 79795},
+														pos:        position{line: 2476, col: 31, offset: 79833},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2476, col: 36, offset: 79800},
+														pos: position{line: 2476, col: 36, offset: 79838},
 														expr: &litMatcher{
-															pos:        position{line: 2476, col: 37, offset: 79801},
+															pos:        position{line: 2476, col: 37, offset: 79839},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 49, offset: 79601},
+														pos:   position{line: 2471, col: 49, offset: 79639},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2807, col: 13, offset: 89115},
+																pos: position{line: 2807, col: 13, offset: 89153},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2807, col: 13, offset: 89115},
+																	pos:        position{line: 2807, col: 13, offset: 89153},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18275,28 +18711,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18305,9 +18741,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -18316,39 +18752,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26362},
 											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26362},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26324},
+														pos:   position{line: 820, col: 5, offset: 26362},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23622},
 															run: (*parser).callonDocumentHeader557,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23622},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23584},
+																		pos:   position{line: 740, col: 5, offset: 23622},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23633},
 																			run: (*parser).callonDocumentHeader560,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23633},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23595},
+																						pos:        position{line: 740, col: 16, offset: 23633},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23602},
+																						pos: position{line: 740, col: 23, offset: 23640},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23602},
+																							pos:        position{line: 740, col: 23, offset: 23640},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18359,12 +18795,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23686},
+																		pos: position{line: 742, col: 8, offset: 23724},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18373,28 +18809,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18403,9 +18839,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -18415,56 +18851,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26363},
+														pos: position{line: 821, col: 5, offset: 26401},
 														run: (*parser).callonDocumentHeader576,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26455},
+														pos:   position{line: 824, col: 5, offset: 26493},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26847},
+															pos: position{line: 839, col: 5, offset: 26885},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26848},
+																pos: position{line: 839, col: 6, offset: 26886},
 																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26848},
+																	pos: position{line: 839, col: 6, offset: 26886},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26848},
+																			pos: position{line: 839, col: 6, offset: 26886},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26689},
+																				pos: position{line: 832, col: 5, offset: 26727},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26689},
+																						pos: position{line: 832, col: 5, offset: 26727},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26689},
+																								pos:   position{line: 832, col: 5, offset: 26727},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									run: (*parser).callonDocumentHeader585,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 740, col: 5, offset: 23622},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23584},
+																												pos:   position{line: 740, col: 5, offset: 23622},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													run: (*parser).callonDocumentHeader588,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 740, col: 16, offset: 23633},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23595},
+																																pos:        position{line: 740, col: 16, offset: 23633},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23602},
+																																pos: position{line: 740, col: 23, offset: 23640},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	pos:        position{line: 740, col: 23, offset: 23640},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18475,12 +18911,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23686},
+																												pos: position{line: 742, col: 8, offset: 23724},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90589},
+																													pos: position{line: 2861, col: 10, offset: 90627},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90589},
+																														pos:        position{line: 2861, col: 10, offset: 90627},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18489,28 +18925,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 90987},
+																												pos: position{line: 2883, col: 8, offset: 91025},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90760},
+																														pos: position{line: 2870, col: 12, offset: 90798},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90761},
+																															pos: position{line: 2870, col: 13, offset: 90799},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90761},
+																																	pos:        position{line: 2870, col: 13, offset: 90799},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90768},
+																																	pos:        position{line: 2870, col: 20, offset: 90806},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90777},
+																																	pos:        position{line: 2870, col: 29, offset: 90815},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18519,9 +18955,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90937},
+																														pos: position{line: 2880, col: 8, offset: 90975},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90938,
+																															line: 2880, col: 9, offset: 90976,
 																														},
 																													},
 																												},
@@ -18531,45 +18967,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26720},
+																								pos: position{line: 833, col: 5, offset: 26758},
 																								run: (*parser).callonDocumentHeader604,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26878},
+																			pos:   position{line: 840, col: 5, offset: 26916},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89115},
+																									pos: position{line: 2807, col: 13, offset: 89153},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89115},
+																										pos:        position{line: 2807, col: 13, offset: 89153},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18579,28 +19015,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18609,9 +19045,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -18626,41 +19062,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26489},
+														pos: position{line: 825, col: 5, offset: 26527},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26689},
+															pos: position{line: 832, col: 5, offset: 26727},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26689},
+																	pos: position{line: 832, col: 5, offset: 26727},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26689},
+																			pos:   position{line: 832, col: 5, offset: 26727},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				run: (*parser).callonDocumentHeader628,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23622},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 740, col: 5, offset: 23622},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								run: (*parser).callonDocumentHeader631,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23633},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 740, col: 16, offset: 23633},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 740, col: 23, offset: 23640},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 740, col: 23, offset: 23640},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -18671,12 +19107,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 742, col: 8, offset: 23724},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -18685,28 +19121,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18715,9 +19151,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -18727,15 +19163,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26720},
+																			pos: position{line: 833, col: 5, offset: 26758},
 																			run: (*parser).callonDocumentHeader647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -18754,26 +19190,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1120, col: 1, offset: 34499},
+			pos:  position{line: 1120, col: 1, offset: 34537},
 			expr: &actionExpr{
-				pos: position{line: 1121, col: 5, offset: 34521},
+				pos: position{line: 1121, col: 5, offset: 34559},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1121, col: 5, offset: 34521},
+					pos: position{line: 1121, col: 5, offset: 34559},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1121, col: 5, offset: 34521},
+							pos:        position{line: 1121, col: 5, offset: 34559},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2865, col: 11, offset: 90650},
+							pos: position{line: 2865, col: 11, offset: 90688},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2865, col: 11, offset: 90650},
+								pos: position{line: 2865, col: 11, offset: 90688},
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 11, offset: 90650},
+									pos:        position{line: 2865, col: 11, offset: 90688},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18782,36 +19218,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1121, col: 16, offset: 34532},
+							pos:   position{line: 1121, col: 16, offset: 34570},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1121, col: 23, offset: 34539},
+								pos:  position{line: 1121, col: 23, offset: 34577},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18820,9 +19256,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -18833,23 +19269,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1148, col: 1, offset: 35379},
+			pos:  position{line: 1148, col: 1, offset: 35417},
 			expr: &actionExpr{
-				pos: position{line: 1149, col: 5, offset: 35410},
+				pos: position{line: 1149, col: 5, offset: 35448},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1149, col: 5, offset: 35410},
+					pos: position{line: 1149, col: 5, offset: 35448},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35410},
+							pos:   position{line: 1149, col: 5, offset: 35448},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1149, col: 12, offset: 35417},
+								pos: position{line: 1149, col: 12, offset: 35455},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1149, col: 12, offset: 35417},
+									pos: position{line: 1149, col: 12, offset: 35455},
 									expr: &charClassMatcher{
-										pos:        position{line: 1149, col: 12, offset: 35417},
+										pos:        position{line: 1149, col: 12, offset: 35455},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18859,12 +19295,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35497},
+							pos: position{line: 1152, col: 5, offset: 35535},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18873,17 +19309,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1153, col: 5, offset: 35508},
+							pos:   position{line: 1153, col: 5, offset: 35546},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1153, col: 11, offset: 35514},
+								pos: position{line: 1153, col: 11, offset: 35552},
 								expr: &actionExpr{
-									pos: position{line: 1153, col: 12, offset: 35515},
+									pos: position{line: 1153, col: 12, offset: 35553},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1153, col: 12, offset: 35515},
+										pos: position{line: 1153, col: 12, offset: 35553},
 										expr: &charClassMatcher{
-											pos:        position{line: 1153, col: 12, offset: 35515},
+											pos:        position{line: 1153, col: 12, offset: 35553},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18894,12 +19330,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1156, col: 5, offset: 35596},
+							pos: position{line: 1156, col: 5, offset: 35634},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18908,17 +19344,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1157, col: 5, offset: 35607},
+							pos:   position{line: 1157, col: 5, offset: 35645},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1157, col: 11, offset: 35613},
+								pos: position{line: 1157, col: 11, offset: 35651},
 								expr: &actionExpr{
-									pos: position{line: 1157, col: 12, offset: 35614},
+									pos: position{line: 1157, col: 12, offset: 35652},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1157, col: 12, offset: 35614},
+										pos: position{line: 1157, col: 12, offset: 35652},
 										expr: &charClassMatcher{
-											pos:        position{line: 1157, col: 12, offset: 35614},
+											pos:        position{line: 1157, col: 12, offset: 35652},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18929,12 +19365,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1160, col: 5, offset: 35693},
+							pos: position{line: 1160, col: 5, offset: 35731},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18948,28 +19384,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1273, col: 1, offset: 39422},
+			pos:  position{line: 1273, col: 1, offset: 39460},
 			expr: &actionExpr{
-				pos: position{line: 1274, col: 5, offset: 39443},
+				pos: position{line: 1274, col: 5, offset: 39481},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1274, col: 5, offset: 39443},
+					pos: position{line: 1274, col: 5, offset: 39481},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1274, col: 5, offset: 39443},
+							pos: position{line: 1274, col: 5, offset: 39481},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1277, col: 5, offset: 39502},
+							pos:        position{line: 1277, col: 5, offset: 39540},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1277, col: 12, offset: 39509},
+							pos:   position{line: 1277, col: 12, offset: 39547},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1277, col: 24, offset: 39521},
+								pos:  position{line: 1277, col: 24, offset: 39559},
 								name: "InlineAttributes",
 							},
 						},
@@ -18979,33 +19415,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1284, col: 1, offset: 39809},
+			pos:  position{line: 1284, col: 1, offset: 39847},
 			expr: &actionExpr{
-				pos: position{line: 1285, col: 5, offset: 39828},
+				pos: position{line: 1285, col: 5, offset: 39866},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1285, col: 5, offset: 39828},
+					pos: position{line: 1285, col: 5, offset: 39866},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1285, col: 5, offset: 39828},
+							pos: position{line: 1285, col: 5, offset: 39866},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1288, col: 5, offset: 39887},
+							pos:        position{line: 1288, col: 5, offset: 39925},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 13, offset: 39895},
+							pos:   position{line: 1288, col: 13, offset: 39933},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 7, offset: 90241},
+								pos: position{line: 2846, col: 7, offset: 90279},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2846, col: 7, offset: 90241},
+									pos: position{line: 2846, col: 7, offset: 90279},
 									expr: &charClassMatcher{
-										pos:        position{line: 2846, col: 7, offset: 90241},
+										pos:        position{line: 2846, col: 7, offset: 90279},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19015,10 +19451,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 21, offset: 39903},
+							pos:   position{line: 1288, col: 21, offset: 39941},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1288, col: 33, offset: 39915},
+								pos:  position{line: 1288, col: 33, offset: 39953},
 								name: "InlineAttributes",
 							},
 						},
@@ -19028,29 +19464,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1295, col: 1, offset: 40214},
+			pos:  position{line: 1295, col: 1, offset: 40252},
 			expr: &actionExpr{
-				pos: position{line: 1295, col: 14, offset: 40227},
+				pos: position{line: 1295, col: 14, offset: 40265},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1295, col: 14, offset: 40227},
+					pos: position{line: 1295, col: 14, offset: 40265},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1295, col: 14, offset: 40227},
+							pos:        position{line: 1295, col: 14, offset: 40265},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 19, offset: 40232},
+							pos:   position{line: 1295, col: 19, offset: 40270},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1295, col: 25, offset: 40238},
+								pos:  position{line: 1295, col: 25, offset: 40276},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1295, col: 43, offset: 40256},
+							pos:        position{line: 1295, col: 43, offset: 40294},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19061,25 +19497,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1299, col: 1, offset: 40325},
+			pos:  position{line: 1299, col: 1, offset: 40363},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 21, offset: 40345},
+				pos: position{line: 1299, col: 21, offset: 40383},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1299, col: 21, offset: 40345},
+					pos:   position{line: 1299, col: 21, offset: 40383},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1299, col: 30, offset: 40354},
+						pos: position{line: 1299, col: 30, offset: 40392},
 						expr: &choiceExpr{
-							pos: position{line: 1299, col: 31, offset: 40355},
+							pos: position{line: 1299, col: 31, offset: 40393},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87758},
+									pos: position{line: 2755, col: 14, offset: 87796},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87758},
+										pos: position{line: 2755, col: 14, offset: 87796},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87758},
+											pos:        position{line: 2755, col: 14, offset: 87796},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19088,14 +19524,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1299, col: 43, offset: 40367},
+									pos:  position{line: 1299, col: 43, offset: 40405},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90589},
+									pos: position{line: 2861, col: 10, offset: 90627},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90589},
+										pos:        position{line: 2861, col: 10, offset: 90627},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19103,23 +19539,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2458, col: 5, offset: 79120},
+									pos: position{line: 2458, col: 5, offset: 79158},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2458, col: 5, offset: 79120},
+										pos: position{line: 2458, col: 5, offset: 79158},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2458, col: 5, offset: 79120},
+												pos: position{line: 2458, col: 5, offset: 79158},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2461, col: 5, offset: 79196},
+												pos:   position{line: 2461, col: 5, offset: 79234},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2462, col: 9, offset: 79214},
+													pos: position{line: 2462, col: 9, offset: 79252},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2462, col: 10, offset: 79215},
+														pos:        position{line: 2462, col: 10, offset: 79253},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19131,27 +19567,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1206, col: 23, offset: 37178},
+									pos: position{line: 1206, col: 23, offset: 37216},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1206, col: 23, offset: 37178},
+										pos: position{line: 1206, col: 23, offset: 37216},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37146},
+												pos:        position{line: 1204, col: 32, offset: 37184},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1206, col: 51, offset: 37206},
+												pos:   position{line: 1206, col: 51, offset: 37244},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1206, col: 56, offset: 37211},
+													pos: position{line: 1206, col: 56, offset: 37249},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1206, col: 56, offset: 37211},
+														pos: position{line: 1206, col: 56, offset: 37249},
 														expr: &charClassMatcher{
-															pos:        position{line: 1206, col: 56, offset: 37211},
+															pos:        position{line: 1206, col: 56, offset: 37249},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19161,7 +19597,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37146},
+												pos:        position{line: 1204, col: 32, offset: 37184},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19170,22 +19606,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1299, col: 104, offset: 40428},
+									pos: position{line: 1299, col: 104, offset: 40466},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1299, col: 105, offset: 40429},
+										pos: position{line: 1299, col: 105, offset: 40467},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1299, col: 105, offset: 40429},
+												pos: position{line: 1299, col: 105, offset: 40467},
 												expr: &litMatcher{
-													pos:        position{line: 1299, col: 106, offset: 40430},
+													pos:        position{line: 1299, col: 106, offset: 40468},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1299, col: 111, offset: 40435,
+												line: 1299, col: 111, offset: 40473,
 											},
 										},
 									},
@@ -19198,65 +19634,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1319, col: 1, offset: 41144},
+			pos:  position{line: 1319, col: 1, offset: 41182},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 5, offset: 41163},
+				pos: position{line: 1320, col: 5, offset: 41201},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 5, offset: 41163},
+					pos: position{line: 1320, col: 5, offset: 41201},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 5, offset: 41163},
+							pos:        position{line: 1320, col: 5, offset: 41201},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 15, offset: 41173},
+							pos:   position{line: 1320, col: 15, offset: 41211},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2819, col: 13, offset: 89348},
+								pos: position{line: 2819, col: 13, offset: 89386},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2819, col: 13, offset: 89348},
+									pos: position{line: 2819, col: 13, offset: 89386},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2819, col: 13, offset: 89348},
+											pos:   position{line: 2819, col: 13, offset: 89386},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2819, col: 20, offset: 89355},
+												pos: position{line: 2819, col: 20, offset: 89393},
 												expr: &actionExpr{
-													pos: position{line: 2827, col: 11, offset: 89594},
+													pos: position{line: 2827, col: 11, offset: 89632},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2827, col: 12, offset: 89595},
+														pos: position{line: 2827, col: 12, offset: 89633},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 12, offset: 89595},
+																pos:        position{line: 2827, col: 12, offset: 89633},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 24, offset: 89607},
+																pos:        position{line: 2827, col: 24, offset: 89645},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 37, offset: 89620},
+																pos:        position{line: 2827, col: 37, offset: 89658},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 48, offset: 89631},
+																pos:        position{line: 2827, col: 48, offset: 89669},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 59, offset: 89642},
+																pos:        position{line: 2827, col: 59, offset: 89680},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19267,38 +19703,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2819, col: 30, offset: 89365},
+											pos:   position{line: 2819, col: 30, offset: 89403},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2832, col: 5, offset: 89706},
+												pos: position{line: 2832, col: 5, offset: 89744},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2832, col: 5, offset: 89706},
+													pos:   position{line: 2832, col: 5, offset: 89744},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2832, col: 14, offset: 89715},
+														pos: position{line: 2832, col: 14, offset: 89753},
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 9, offset: 89725},
+															pos: position{line: 2833, col: 9, offset: 89763},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2833, col: 9, offset: 89725},
+																		pos: position{line: 2833, col: 9, offset: 89763},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				expr: &litMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89726},
+																					pos:        position{line: 2833, col: 10, offset: 89764},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2834, col: 9, offset: 89754},
+																				pos: position{line: 2834, col: 9, offset: 89792},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89755},
+																					pos:        position{line: 2834, col: 10, offset: 89793},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19309,27 +19745,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2837, col: 11, offset: 89967},
+																	pos: position{line: 2837, col: 11, offset: 90005},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2837, col: 11, offset: 89967},
+																			pos:        position{line: 2837, col: 11, offset: 90005},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2837, col: 19, offset: 89975},
+																			pos: position{line: 2837, col: 19, offset: 90013},
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 21, offset: 89977},
+																				pos: position{line: 2837, col: 21, offset: 90015},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19338,11 +19774,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2837, col: 28, offset: 89984},
+																						pos: position{line: 2837, col: 28, offset: 90022},
 																						expr: &notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -19352,35 +19788,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 636, col: 5, offset: 20128},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20128},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20200},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20209},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20338},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20338},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20346},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19412,7 +19848,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20365},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19421,19 +19857,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20606},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20606},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20610},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19465,7 +19901,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20629},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19474,19 +19910,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 658, col: 25, offset: 20810},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20810},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20810},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20822},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19518,33 +19954,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20841},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20847},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21142},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21142},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21142},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21146},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21153},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19552,12 +19988,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21207},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21207},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21207},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19574,7 +20010,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20863},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19583,19 +20019,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 662, col: 25, offset: 20981},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 20981},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 20981},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 20994},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19627,33 +20063,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21013},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21019},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21142},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21142},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21142},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21146},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21153},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19661,12 +20097,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21207},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21207},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21207},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19683,7 +20119,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21035},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19698,27 +20134,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37178},
+																	pos: position{line: 1206, col: 23, offset: 37216},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37178},
+																		pos: position{line: 1206, col: 23, offset: 37216},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37146},
+																				pos:        position{line: 1204, col: 32, offset: 37184},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37206},
+																				pos:   position{line: 1206, col: 51, offset: 37244},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37211},
+																					pos: position{line: 1206, col: 56, offset: 37249},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37211},
+																						pos: position{line: 1206, col: 56, offset: 37249},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37211},
+																							pos:        position{line: 1206, col: 56, offset: 37249},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19728,7 +20164,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37146},
+																				pos:        position{line: 1204, col: 32, offset: 37184},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19737,10 +20173,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2840, col: 11, offset: 90104},
+																	pos: position{line: 2840, col: 11, offset: 90142},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2840, col: 11, offset: 90104},
+																		pos:        position{line: 2840, col: 11, offset: 90142},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19757,20 +20193,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 31, offset: 41189},
+							pos:   position{line: 1320, col: 31, offset: 41227},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 43, offset: 41201},
+								pos:  position{line: 1320, col: 43, offset: 41239},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1320, col: 61, offset: 41219},
+							pos: position{line: 1320, col: 61, offset: 41257},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19779,28 +20215,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19809,9 +20245,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -19822,74 +20258,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1325, col: 1, offset: 41436},
+			pos:  position{line: 1325, col: 1, offset: 41474},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 16, offset: 41451},
+				pos: position{line: 1325, col: 16, offset: 41489},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 16, offset: 41451},
+					pos: position{line: 1325, col: 16, offset: 41489},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 16, offset: 41451},
+							pos:        position{line: 1325, col: 16, offset: 41489},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1325, col: 25, offset: 41460},
+							pos: position{line: 1325, col: 25, offset: 41498},
 							expr: &litMatcher{
-								pos:        position{line: 1325, col: 26, offset: 41461},
+								pos:        position{line: 1325, col: 26, offset: 41499},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 30, offset: 41465},
+							pos:   position{line: 1325, col: 30, offset: 41503},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2819, col: 13, offset: 89348},
+								pos: position{line: 2819, col: 13, offset: 89386},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2819, col: 13, offset: 89348},
+									pos: position{line: 2819, col: 13, offset: 89386},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2819, col: 13, offset: 89348},
+											pos:   position{line: 2819, col: 13, offset: 89386},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2819, col: 20, offset: 89355},
+												pos: position{line: 2819, col: 20, offset: 89393},
 												expr: &actionExpr{
-													pos: position{line: 2827, col: 11, offset: 89594},
+													pos: position{line: 2827, col: 11, offset: 89632},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2827, col: 12, offset: 89595},
+														pos: position{line: 2827, col: 12, offset: 89633},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 12, offset: 89595},
+																pos:        position{line: 2827, col: 12, offset: 89633},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 24, offset: 89607},
+																pos:        position{line: 2827, col: 24, offset: 89645},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 37, offset: 89620},
+																pos:        position{line: 2827, col: 37, offset: 89658},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 48, offset: 89631},
+																pos:        position{line: 2827, col: 48, offset: 89669},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 59, offset: 89642},
+																pos:        position{line: 2827, col: 59, offset: 89680},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19900,38 +20336,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2819, col: 30, offset: 89365},
+											pos:   position{line: 2819, col: 30, offset: 89403},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2832, col: 5, offset: 89706},
+												pos: position{line: 2832, col: 5, offset: 89744},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2832, col: 5, offset: 89706},
+													pos:   position{line: 2832, col: 5, offset: 89744},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2832, col: 14, offset: 89715},
+														pos: position{line: 2832, col: 14, offset: 89753},
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 9, offset: 89725},
+															pos: position{line: 2833, col: 9, offset: 89763},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2833, col: 9, offset: 89725},
+																		pos: position{line: 2833, col: 9, offset: 89763},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				expr: &litMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89726},
+																					pos:        position{line: 2833, col: 10, offset: 89764},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2834, col: 9, offset: 89754},
+																				pos: position{line: 2834, col: 9, offset: 89792},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89755},
+																					pos:        position{line: 2834, col: 10, offset: 89793},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19942,27 +20378,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2837, col: 11, offset: 89967},
+																	pos: position{line: 2837, col: 11, offset: 90005},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2837, col: 11, offset: 89967},
+																			pos:        position{line: 2837, col: 11, offset: 90005},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2837, col: 19, offset: 89975},
+																			pos: position{line: 2837, col: 19, offset: 90013},
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 21, offset: 89977},
+																				pos: position{line: 2837, col: 21, offset: 90015},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19971,11 +20407,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2837, col: 28, offset: 89984},
+																						pos: position{line: 2837, col: 28, offset: 90022},
 																						expr: &notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -19985,35 +20421,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 636, col: 5, offset: 20128},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20128},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20200},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20209},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20338},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20338},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20338},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20346},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20045,7 +20481,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20365},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20054,19 +20490,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20606},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20606},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20606},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20610},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20098,7 +20534,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20629},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20107,19 +20543,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 658, col: 25, offset: 20810},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20810},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20810},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20822},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20151,33 +20587,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20841},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20847},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21142},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21142},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21142},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21146},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21153},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20185,12 +20621,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21207},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21207},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21207},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20207,7 +20643,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20863},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20216,19 +20652,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 662, col: 25, offset: 20981},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 20981},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 20981},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 20994},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20260,33 +20696,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21013},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21019},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21142},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21142},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21142},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21146},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21153},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20294,12 +20730,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21207},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21207},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21207},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20316,7 +20752,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21035},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20331,27 +20767,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37178},
+																	pos: position{line: 1206, col: 23, offset: 37216},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37178},
+																		pos: position{line: 1206, col: 23, offset: 37216},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37146},
+																				pos:        position{line: 1204, col: 32, offset: 37184},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37206},
+																				pos:   position{line: 1206, col: 51, offset: 37244},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37211},
+																					pos: position{line: 1206, col: 56, offset: 37249},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37211},
+																						pos: position{line: 1206, col: 56, offset: 37249},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37211},
+																							pos:        position{line: 1206, col: 56, offset: 37249},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20361,7 +20797,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37146},
+																				pos:        position{line: 1204, col: 32, offset: 37184},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20370,10 +20806,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2840, col: 11, offset: 90104},
+																	pos: position{line: 2840, col: 11, offset: 90142},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2840, col: 11, offset: 90104},
+																		pos:        position{line: 2840, col: 11, offset: 90142},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20390,10 +20826,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 46, offset: 41481},
+							pos:   position{line: 1325, col: 46, offset: 41519},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 58, offset: 41493},
+								pos:  position{line: 1325, col: 58, offset: 41531},
 								name: "InlineAttributes",
 							},
 						},
@@ -20403,29 +20839,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1332, col: 1, offset: 41889},
+			pos:  position{line: 1332, col: 1, offset: 41927},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 15, offset: 41903},
+				pos: position{line: 1332, col: 15, offset: 41941},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 15, offset: 41903},
+					pos: position{line: 1332, col: 15, offset: 41941},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 15, offset: 41903},
+							pos:        position{line: 1332, col: 15, offset: 41941},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 23, offset: 41911},
+							pos:   position{line: 1332, col: 23, offset: 41949},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1332, col: 29, offset: 41917},
+								pos: position{line: 1332, col: 29, offset: 41955},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1332, col: 29, offset: 41917},
+									pos: position{line: 1332, col: 29, offset: 41955},
 									expr: &charClassMatcher{
-										pos:        position{line: 1332, col: 29, offset: 41917},
+										pos:        position{line: 1332, col: 29, offset: 41955},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20436,10 +20872,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 73, offset: 41961},
+							pos:   position{line: 1332, col: 73, offset: 41999},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 85, offset: 41973},
+								pos:  position{line: 1332, col: 85, offset: 42011},
 								name: "InlineAttributes",
 							},
 						},
@@ -20449,31 +20885,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1339, col: 1, offset: 42339},
+			pos:  position{line: 1339, col: 1, offset: 42377},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 19, offset: 42357},
+				pos: position{line: 1339, col: 19, offset: 42395},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 19, offset: 42357},
+					pos: position{line: 1339, col: 19, offset: 42395},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1339, col: 19, offset: 42357},
+							pos:        position{line: 1339, col: 19, offset: 42395},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 31, offset: 42369},
+							pos:   position{line: 1339, col: 31, offset: 42407},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1339, col: 35, offset: 42373},
+								pos: position{line: 1339, col: 35, offset: 42411},
 								expr: &actionExpr{
-									pos: position{line: 1343, col: 16, offset: 42533},
+									pos: position{line: 1343, col: 16, offset: 42571},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1343, col: 16, offset: 42533},
+										pos: position{line: 1343, col: 16, offset: 42571},
 										expr: &charClassMatcher{
-											pos:        position{line: 1343, col: 16, offset: 42533},
+											pos:        position{line: 1343, col: 16, offset: 42571},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20485,21 +20921,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 50, offset: 42388},
+							pos:        position{line: 1339, col: 50, offset: 42426},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 54, offset: 42392},
+							pos:   position{line: 1339, col: 54, offset: 42430},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1339, col: 64, offset: 42402},
+								pos:  position{line: 1339, col: 64, offset: 42440},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 82, offset: 42420},
+							pos:        position{line: 1339, col: 82, offset: 42458},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20510,17 +20946,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1345, col: 1, offset: 42577},
+			pos:  position{line: 1345, col: 1, offset: 42615},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 21, offset: 42597},
+				pos: position{line: 1345, col: 21, offset: 42635},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1345, col: 21, offset: 42597},
+					pos:   position{line: 1345, col: 21, offset: 42635},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1345, col: 30, offset: 42606},
+						pos: position{line: 1345, col: 30, offset: 42644},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1345, col: 31, offset: 42607},
+							pos:  position{line: 1345, col: 31, offset: 42645},
 							name: "FootnoteElement",
 						},
 					},
@@ -20529,44 +20965,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1349, col: 1, offset: 42699},
+			pos:  position{line: 1349, col: 1, offset: 42737},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 5, offset: 42723},
+				pos: position{line: 1350, col: 5, offset: 42761},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 5, offset: 42723},
+					pos: position{line: 1350, col: 5, offset: 42761},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1350, col: 5, offset: 42723},
+							pos: position{line: 1350, col: 5, offset: 42761},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 6, offset: 42724},
+								pos:        position{line: 1350, col: 6, offset: 42762},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 5, offset: 42733},
+							pos:   position{line: 1351, col: 5, offset: 42771},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1352, col: 9, offset: 42751},
+								pos: position{line: 1352, col: 9, offset: 42789},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87831},
+										pos: position{line: 2760, col: 5, offset: 87869},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87831},
+											pos: position{line: 2760, col: 5, offset: 87869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87831},
+													pos:   position{line: 2760, col: 5, offset: 87869},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87837},
+														pos: position{line: 2760, col: 11, offset: 87875},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87837},
+															pos: position{line: 2760, col: 11, offset: 87875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87837},
+																pos:        position{line: 2760, col: 11, offset: 87875},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20576,36 +21012,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87895},
+													pos: position{line: 2763, col: 5, offset: 87933},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87906},
+														pos: position{line: 2764, col: 9, offset: 87944},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87906},
+																pos:        position{line: 2764, col: 9, offset: 87944},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87955},
+																pos: position{line: 2765, col: 9, offset: 87993},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88035},
+													pos: position{line: 2769, col: 5, offset: 88073},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88046},
+														pos: position{line: 2770, col: 9, offset: 88084},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88046},
+																pos:        position{line: 2770, col: 9, offset: 88084},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88050},
+																pos:        position{line: 2770, col: 13, offset: 88088},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20618,12 +21054,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 11, offset: 90650},
+										pos: position{line: 2865, col: 11, offset: 90688},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 11, offset: 90650},
+											pos: position{line: 2865, col: 11, offset: 90688},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90650},
+												pos:        position{line: 2865, col: 11, offset: 90688},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20632,21 +21068,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80291},
+										pos: position{line: 2489, col: 5, offset: 80329},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80291},
+											pos: position{line: 2489, col: 5, offset: 80329},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 5, offset: 80291},
+													pos:        position{line: 2489, col: 5, offset: 80329},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2489, col: 10, offset: 80296},
+													pos: position{line: 2489, col: 10, offset: 80334},
 													expr: &charClassMatcher{
-														pos:        position{line: 2489, col: 11, offset: 80297},
+														pos:        position{line: 2489, col: 11, offset: 80335},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20657,29 +21093,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80489},
+										pos: position{line: 2495, col: 5, offset: 80527},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80489},
+											pos: position{line: 2495, col: 5, offset: 80527},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2495, col: 5, offset: 80489},
+													pos: position{line: 2495, col: 5, offset: 80527},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80560},
+													pos: position{line: 2498, col: 5, offset: 80598},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80685},
+													pos:        position{line: 2502, col: 5, offset: 80723},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 9, offset: 80689},
+													pos: position{line: 2502, col: 9, offset: 80727},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 10, offset: 80690},
+														pos:        position{line: 2502, col: 10, offset: 80728},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20690,35 +21126,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1355, col: 11, offset: 42818},
+										pos:  position{line: 1355, col: 11, offset: 42856},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42834},
+										pos:  position{line: 1356, col: 11, offset: 42872},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88243},
+										pos: position{line: 2778, col: 5, offset: 88281},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88253},
+											pos: position{line: 2779, col: 9, offset: 88291},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88254},
+													pos:        position{line: 2779, col: 10, offset: 88292},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88351},
+													pos: position{line: 2781, col: 13, offset: 88389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88351},
+															pos: position{line: 2781, col: 13, offset: 88389},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88451},
+															pos:        position{line: 2784, col: 13, offset: 88489},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20726,20 +21162,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88457},
+													pos:        position{line: 2784, col: 19, offset: 88495},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88495},
+													pos: position{line: 2787, col: 13, offset: 88533},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88495},
+															pos: position{line: 2787, col: 13, offset: 88533},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88588},
+															pos:        position{line: 2790, col: 14, offset: 88626},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20748,18 +21184,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88632},
+													pos: position{line: 2792, col: 12, offset: 88670},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88632},
+															pos:        position{line: 2792, col: 12, offset: 88670},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88636},
+															pos: position{line: 2792, col: 16, offset: 88674},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88637},
+																pos:        position{line: 2792, col: 17, offset: 88675},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20771,36 +21207,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1358, col: 11, offset: 42907},
+										pos:  position{line: 1358, col: 11, offset: 42945},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1214, col: 5, offset: 37624},
+										pos: position{line: 1214, col: 5, offset: 37662},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1214, col: 5, offset: 37624},
+											pos: position{line: 1214, col: 5, offset: 37662},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1214, col: 5, offset: 37624},
+													pos: position{line: 1214, col: 5, offset: 37662},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1217, col: 5, offset: 37700},
+													pos:        position{line: 1217, col: 5, offset: 37738},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1218, col: 5, offset: 37708},
+													pos: position{line: 1218, col: 5, offset: 37746},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1222, col: 5, offset: 37795},
+													pos: position{line: 1222, col: 5, offset: 37833},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20809,30 +21245,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1222, col: 12, offset: 37802},
+													pos: position{line: 1222, col: 12, offset: 37840},
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20841,9 +21277,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -20853,35 +21289,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20128},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20128},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20128},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20200},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20209},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20338},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20338},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20338},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20346},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20913,7 +21349,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20365},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20922,19 +21358,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20606},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20606},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20606},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20610},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -20966,7 +21402,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20629},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20975,19 +21411,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20810},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20810},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20810},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20822},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21019,33 +21455,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20841},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20847},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21053,12 +21489,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21075,7 +21511,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20863},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21084,19 +21520,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 20981},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 20981},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 20981},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 20994},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21128,33 +21564,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21013},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21019},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21162,12 +21598,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21184,7 +21620,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21035},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21199,23 +21635,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79120},
+										pos: position{line: 2458, col: 5, offset: 79158},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79120},
+													pos: position{line: 2458, col: 5, offset: 79158},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79196},
+													pos:   position{line: 2461, col: 5, offset: 79234},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79214},
+														pos: position{line: 2462, col: 9, offset: 79252},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79215},
+															pos:        position{line: 2462, col: 10, offset: 79253},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21227,25 +21663,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90760},
+										pos: position{line: 2870, col: 12, offset: 90798},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90761},
+											pos: position{line: 2870, col: 13, offset: 90799},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90761},
+													pos:        position{line: 2870, col: 13, offset: 90799},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90768},
+													pos:        position{line: 2870, col: 20, offset: 90806},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90777},
+													pos:        position{line: 2870, col: 29, offset: 90815},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21254,10 +21690,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88897},
+										pos: position{line: 2800, col: 12, offset: 88935},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88897},
+											pos:        position{line: 2800, col: 12, offset: 88935},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21273,32 +21709,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1397, col: 1, offset: 44752},
+			pos:  position{line: 1397, col: 1, offset: 44790},
 			expr: &choiceExpr{
-				pos: position{line: 1397, col: 21, offset: 44772},
+				pos: position{line: 1397, col: 21, offset: 44810},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1397, col: 21, offset: 44772},
+						pos: position{line: 1397, col: 21, offset: 44810},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 21, offset: 44772},
+							pos: position{line: 1397, col: 21, offset: 44810},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 21, offset: 44772},
+									pos:        position{line: 1397, col: 21, offset: 44810},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 30, offset: 44781},
+									pos:   position{line: 1397, col: 30, offset: 44819},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 38, offset: 44789},
+										pos: position{line: 1397, col: 38, offset: 44827},
 										expr: &actionExpr{
-											pos: position{line: 1403, col: 30, offset: 45115},
+											pos: position{line: 1403, col: 30, offset: 45153},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1403, col: 30, offset: 45115},
+												pos:        position{line: 1403, col: 30, offset: 45153},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21308,7 +21744,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 67, offset: 44818},
+									pos:        position{line: 1397, col: 67, offset: 44856},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21317,34 +21753,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1399, col: 9, offset: 44922},
+						pos: position{line: 1399, col: 9, offset: 44960},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1399, col: 9, offset: 44922},
+							pos: position{line: 1399, col: 9, offset: 44960},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1399, col: 9, offset: 44922},
+									pos:        position{line: 1399, col: 9, offset: 44960},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1399, col: 19, offset: 44932},
+									pos:   position{line: 1399, col: 19, offset: 44970},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1399, col: 27, offset: 44940},
+										pos: position{line: 1399, col: 27, offset: 44978},
 										expr: &choiceExpr{
-											pos: position{line: 1399, col: 28, offset: 44941},
+											pos: position{line: 1399, col: 28, offset: 44979},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1399, col: 28, offset: 44941},
+													pos:  position{line: 1399, col: 28, offset: 44979},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1403, col: 30, offset: 45115},
+													pos: position{line: 1403, col: 30, offset: 45153},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1403, col: 30, offset: 45115},
+														pos:        position{line: 1403, col: 30, offset: 45153},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21356,7 +21792,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1399, col: 69, offset: 44982},
+									pos:        position{line: 1399, col: 69, offset: 45020},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21369,75 +21805,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1410, col: 1, offset: 45371},
+			pos:  position{line: 1410, col: 1, offset: 45409},
 			expr: &choiceExpr{
-				pos: position{line: 1410, col: 9, offset: 45379},
+				pos: position{line: 1410, col: 9, offset: 45417},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1413, col: 5, offset: 45448},
+						pos: position{line: 1413, col: 5, offset: 45486},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1413, col: 5, offset: 45448},
+							pos: position{line: 1413, col: 5, offset: 45486},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1413, col: 5, offset: 45448},
+									pos:        position{line: 1413, col: 5, offset: 45486},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1414, col: 5, offset: 45457},
+									pos:   position{line: 1414, col: 5, offset: 45495},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89475},
+										pos: position{line: 2823, col: 23, offset: 89513},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89475},
+											pos: position{line: 2823, col: 23, offset: 89513},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89475},
+													pos: position{line: 2823, col: 23, offset: 89513},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89476},
+														pos:        position{line: 2823, col: 24, offset: 89514},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89480},
+													pos:   position{line: 2823, col: 28, offset: 89518},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89594},
+														pos: position{line: 2827, col: 11, offset: 89632},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89595},
+															pos: position{line: 2827, col: 12, offset: 89633},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89595},
+																	pos:        position{line: 2827, col: 12, offset: 89633},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89607},
+																	pos:        position{line: 2827, col: 24, offset: 89645},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89620},
+																	pos:        position{line: 2827, col: 37, offset: 89658},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89631},
+																	pos:        position{line: 2827, col: 48, offset: 89669},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89642},
+																	pos:        position{line: 2827, col: 59, offset: 89680},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21447,38 +21883,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89496},
+													pos:   position{line: 2823, col: 44, offset: 89534},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21489,27 +21925,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21518,11 +21954,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -21532,35 +21968,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21592,7 +22028,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21601,19 +22037,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21645,7 +22081,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21654,19 +22090,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21698,33 +22134,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21732,12 +22168,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21754,7 +22190,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21763,19 +22199,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -21807,33 +22243,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21841,12 +22277,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21863,7 +22299,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21878,27 +22314,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21908,7 +22344,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21917,10 +22353,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21937,7 +22373,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45676},
+									pos:        position{line: 1419, col: 5, offset: 45714},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21946,38 +22382,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 19, offset: 45389},
+						pos:  position{line: 1410, col: 19, offset: 45427},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 34, offset: 45404},
+						pos:  position{line: 1410, col: 34, offset: 45442},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1448, col: 17, offset: 46669},
+						pos: position{line: 1448, col: 17, offset: 46707},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1448, col: 17, offset: 46669},
+							pos: position{line: 1448, col: 17, offset: 46707},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1448, col: 17, offset: 46669},
+									pos:   position{line: 1448, col: 17, offset: 46707},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1453, col: 5, offset: 46834},
+										pos: position{line: 1453, col: 5, offset: 46872},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1453, col: 5, offset: 46834},
+											pos: position{line: 1453, col: 5, offset: 46872},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1453, col: 5, offset: 46834},
+													pos:   position{line: 1453, col: 5, offset: 46872},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1453, col: 12, offset: 46841},
+														pos: position{line: 1453, col: 12, offset: 46879},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1453, col: 12, offset: 46841},
+															pos: position{line: 1453, col: 12, offset: 46879},
 															expr: &charClassMatcher{
-																pos:        position{line: 1453, col: 12, offset: 46841},
+																pos:        position{line: 1453, col: 12, offset: 46879},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21989,7 +22425,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1456, col: 5, offset: 46925},
+													pos: position{line: 1456, col: 5, offset: 46963},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21997,33 +22433,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 43, offset: 46695},
+									pos:        position{line: 1448, col: 43, offset: 46733},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1448, col: 47, offset: 46699},
+									pos:   position{line: 1448, col: 47, offset: 46737},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1465, col: 23, offset: 47219},
+										pos: position{line: 1465, col: 23, offset: 47257},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1465, col: 23, offset: 47219},
+											pos: position{line: 1465, col: 23, offset: 47257},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1465, col: 23, offset: 47219},
+													pos:   position{line: 1465, col: 23, offset: 47257},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1465, col: 31, offset: 47227},
+														pos: position{line: 1465, col: 31, offset: 47265},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1465, col: 31, offset: 47227},
+															pos: position{line: 1465, col: 31, offset: 47265},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1465, col: 31, offset: 47227},
+																	pos: position{line: 1465, col: 31, offset: 47265},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1465, col: 31, offset: 47227},
+																		pos:        position{line: 1465, col: 31, offset: 47265},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22031,20 +22467,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1465, col: 41, offset: 47237},
+																	pos: position{line: 1465, col: 41, offset: 47275},
 																	expr: &seqExpr{
-																		pos: position{line: 1465, col: 42, offset: 47238},
+																		pos: position{line: 1465, col: 42, offset: 47276},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1465, col: 42, offset: 47238},
+																				pos:        position{line: 1465, col: 42, offset: 47276},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1465, col: 46, offset: 47242},
+																				pos: position{line: 1465, col: 46, offset: 47280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1465, col: 46, offset: 47242},
+																					pos:        position{line: 1465, col: 46, offset: 47280},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22060,7 +22496,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1468, col: 5, offset: 47303},
+													pos: position{line: 1468, col: 5, offset: 47341},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22075,68 +22511,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1425, col: 1, offset: 45824},
+			pos:  position{line: 1425, col: 1, offset: 45862},
 			expr: &choiceExpr{
-				pos: position{line: 1427, col: 5, offset: 45860},
+				pos: position{line: 1427, col: 5, offset: 45898},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1427, col: 5, offset: 45860},
+						pos: position{line: 1427, col: 5, offset: 45898},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1427, col: 5, offset: 45860},
+							pos: position{line: 1427, col: 5, offset: 45898},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1427, col: 5, offset: 45860},
+									pos:        position{line: 1427, col: 5, offset: 45898},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 17, offset: 45872},
+									pos:   position{line: 1427, col: 17, offset: 45910},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2819, col: 13, offset: 89348},
+										pos: position{line: 2819, col: 13, offset: 89386},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2819, col: 13, offset: 89348},
+											pos: position{line: 2819, col: 13, offset: 89386},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2819, col: 13, offset: 89348},
+													pos:   position{line: 2819, col: 13, offset: 89386},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2819, col: 20, offset: 89355},
+														pos: position{line: 2819, col: 20, offset: 89393},
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 11, offset: 89594},
+															pos: position{line: 2827, col: 11, offset: 89632},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2827, col: 12, offset: 89595},
+																pos: position{line: 2827, col: 12, offset: 89633},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 12, offset: 89595},
+																		pos:        position{line: 2827, col: 12, offset: 89633},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 24, offset: 89607},
+																		pos:        position{line: 2827, col: 24, offset: 89645},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 37, offset: 89620},
+																		pos:        position{line: 2827, col: 37, offset: 89658},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 48, offset: 89631},
+																		pos:        position{line: 2827, col: 48, offset: 89669},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 59, offset: 89642},
+																		pos:        position{line: 2827, col: 59, offset: 89680},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22147,38 +22583,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2819, col: 30, offset: 89365},
+													pos:   position{line: 2819, col: 30, offset: 89403},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22189,27 +22625,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22218,11 +22654,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -22232,35 +22668,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22292,7 +22728,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22301,19 +22737,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22345,7 +22781,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22354,19 +22790,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22398,33 +22834,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22432,12 +22868,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22454,7 +22890,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22463,19 +22899,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22507,33 +22943,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22541,12 +22977,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22563,7 +22999,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22578,27 +23014,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22608,7 +23044,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22617,10 +23053,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22637,10 +23073,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 32, offset: 45887},
+									pos:   position{line: 1427, col: 32, offset: 45925},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1427, col: 44, offset: 45899},
+										pos:  position{line: 1427, col: 44, offset: 45937},
 										name: "InlineAttributes",
 									},
 								},
@@ -22648,63 +23084,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46031},
+						pos: position{line: 1432, col: 5, offset: 46069},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46031},
+							pos: position{line: 1432, col: 5, offset: 46069},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46031},
+									pos:        position{line: 1432, col: 5, offset: 46069},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 13, offset: 46039},
+									pos:   position{line: 1432, col: 13, offset: 46077},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2819, col: 13, offset: 89348},
+										pos: position{line: 2819, col: 13, offset: 89386},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2819, col: 13, offset: 89348},
+											pos: position{line: 2819, col: 13, offset: 89386},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2819, col: 13, offset: 89348},
+													pos:   position{line: 2819, col: 13, offset: 89386},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2819, col: 20, offset: 89355},
+														pos: position{line: 2819, col: 20, offset: 89393},
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 11, offset: 89594},
+															pos: position{line: 2827, col: 11, offset: 89632},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2827, col: 12, offset: 89595},
+																pos: position{line: 2827, col: 12, offset: 89633},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 12, offset: 89595},
+																		pos:        position{line: 2827, col: 12, offset: 89633},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 24, offset: 89607},
+																		pos:        position{line: 2827, col: 24, offset: 89645},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 37, offset: 89620},
+																		pos:        position{line: 2827, col: 37, offset: 89658},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 48, offset: 89631},
+																		pos:        position{line: 2827, col: 48, offset: 89669},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 59, offset: 89642},
+																		pos:        position{line: 2827, col: 59, offset: 89680},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22715,38 +23151,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2819, col: 30, offset: 89365},
+													pos:   position{line: 2819, col: 30, offset: 89403},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22757,27 +23193,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22786,11 +23222,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -22800,35 +23236,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22860,7 +23296,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22869,19 +23305,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22913,7 +23349,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22922,19 +23358,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22966,33 +23402,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23000,12 +23436,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23022,7 +23458,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23031,19 +23467,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23075,33 +23511,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23109,12 +23545,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23131,7 +23567,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23146,27 +23582,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23176,7 +23612,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23185,10 +23621,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23205,10 +23641,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 28, offset: 46054},
+									pos:   position{line: 1432, col: 28, offset: 46092},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 40, offset: 46066},
+										pos:  position{line: 1432, col: 40, offset: 46104},
 										name: "InlineAttributes",
 									},
 								},
@@ -23220,75 +23656,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1436, col: 1, offset: 46182},
+			pos:  position{line: 1436, col: 1, offset: 46220},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 5, offset: 46344},
+				pos: position{line: 1439, col: 5, offset: 46382},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46344},
+						pos: position{line: 1439, col: 5, offset: 46382},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46344},
+							pos: position{line: 1439, col: 5, offset: 46382},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46344},
+									pos:        position{line: 1439, col: 5, offset: 46382},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 9, offset: 46348},
+									pos:   position{line: 1439, col: 9, offset: 46386},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89475},
+										pos: position{line: 2823, col: 23, offset: 89513},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89475},
+											pos: position{line: 2823, col: 23, offset: 89513},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89475},
+													pos: position{line: 2823, col: 23, offset: 89513},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89476},
+														pos:        position{line: 2823, col: 24, offset: 89514},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89480},
+													pos:   position{line: 2823, col: 28, offset: 89518},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89594},
+														pos: position{line: 2827, col: 11, offset: 89632},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89595},
+															pos: position{line: 2827, col: 12, offset: 89633},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89595},
+																	pos:        position{line: 2827, col: 12, offset: 89633},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89607},
+																	pos:        position{line: 2827, col: 24, offset: 89645},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89620},
+																	pos:        position{line: 2827, col: 37, offset: 89658},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89631},
+																	pos:        position{line: 2827, col: 48, offset: 89669},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89642},
+																	pos:        position{line: 2827, col: 59, offset: 89680},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23298,38 +23734,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89496},
+													pos:   position{line: 2823, col: 44, offset: 89534},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23340,27 +23776,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23369,11 +23805,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -23383,35 +23819,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23443,7 +23879,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23452,19 +23888,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23496,7 +23932,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23505,19 +23941,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23549,33 +23985,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23583,12 +24019,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23605,7 +24041,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23614,19 +24050,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23658,33 +24094,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23692,12 +24128,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23714,7 +24150,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23729,27 +24165,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23759,7 +24195,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23768,10 +24204,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23788,12 +24224,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 34, offset: 46373},
+									pos:   position{line: 1439, col: 34, offset: 46411},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1439, col: 45, offset: 46384},
+										pos: position{line: 1439, col: 45, offset: 46422},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1439, col: 46, offset: 46385},
+											pos:  position{line: 1439, col: 46, offset: 46423},
 											name: "InlineAttributes",
 										},
 									},
@@ -23802,64 +24238,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46518},
+						pos: position{line: 1444, col: 5, offset: 46556},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46518},
+							pos: position{line: 1444, col: 5, offset: 46556},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1444, col: 5, offset: 46518},
+									pos:   position{line: 1444, col: 5, offset: 46556},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89475},
+										pos: position{line: 2823, col: 23, offset: 89513},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89475},
+											pos: position{line: 2823, col: 23, offset: 89513},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89475},
+													pos: position{line: 2823, col: 23, offset: 89513},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89476},
+														pos:        position{line: 2823, col: 24, offset: 89514},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89480},
+													pos:   position{line: 2823, col: 28, offset: 89518},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89594},
+														pos: position{line: 2827, col: 11, offset: 89632},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89595},
+															pos: position{line: 2827, col: 12, offset: 89633},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89595},
+																	pos:        position{line: 2827, col: 12, offset: 89633},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89607},
+																	pos:        position{line: 2827, col: 24, offset: 89645},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89620},
+																	pos:        position{line: 2827, col: 37, offset: 89658},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89631},
+																	pos:        position{line: 2827, col: 48, offset: 89669},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89642},
+																	pos:        position{line: 2827, col: 59, offset: 89680},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23869,38 +24305,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89496},
+													pos:   position{line: 2823, col: 44, offset: 89534},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89706},
+														pos: position{line: 2832, col: 5, offset: 89744},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89706},
+															pos:   position{line: 2832, col: 5, offset: 89744},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89715},
+																pos: position{line: 2832, col: 14, offset: 89753},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89725},
+																	pos: position{line: 2833, col: 9, offset: 89763},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89725},
+																			pos: position{line: 2833, col: 9, offset: 89763},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89725},
+																				pos: position{line: 2833, col: 9, offset: 89763},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89725},
+																						pos: position{line: 2833, col: 9, offset: 89763},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89726},
+																							pos:        position{line: 2833, col: 10, offset: 89764},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89754},
+																						pos: position{line: 2834, col: 9, offset: 89792},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89755},
+																							pos:        position{line: 2834, col: 10, offset: 89793},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23911,27 +24347,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 89967},
+																			pos: position{line: 2837, col: 11, offset: 90005},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 89967},
+																					pos:        position{line: 2837, col: 11, offset: 90005},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 89975},
+																					pos: position{line: 2837, col: 19, offset: 90013},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 89977},
+																						pos: position{line: 2837, col: 21, offset: 90015},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 89977},
+																								pos: position{line: 2837, col: 21, offset: 90015},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23940,11 +24376,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 89984},
+																								pos: position{line: 2837, col: 28, offset: 90022},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -23954,35 +24390,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20128},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20128},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20128},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20200},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20209},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20338},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20338},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20338},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20346},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24014,7 +24450,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20365},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24023,19 +24459,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20606},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20606},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20606},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20610},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24067,7 +24503,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20629},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24076,19 +24512,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20810},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20810},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20810},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20822},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24120,33 +24556,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20841},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20847},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24154,12 +24590,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24176,7 +24612,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20863},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24185,19 +24621,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 20981},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 20981},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 20981},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 20994},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24229,33 +24665,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21013},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21019},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21142},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21142},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21142},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21146},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21153},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21153},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21153},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24263,12 +24699,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21207},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21207},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21207},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24285,7 +24721,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21035},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24300,27 +24736,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37178},
+																			pos: position{line: 1206, col: 23, offset: 37216},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37178},
+																				pos: position{line: 1206, col: 23, offset: 37216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37206},
+																						pos:   position{line: 1206, col: 51, offset: 37244},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37211},
+																							pos: position{line: 1206, col: 56, offset: 37249},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37211},
+																								pos: position{line: 1206, col: 56, offset: 37249},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37211},
+																									pos:        position{line: 1206, col: 56, offset: 37249},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24330,7 +24766,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37146},
+																						pos:        position{line: 1204, col: 32, offset: 37184},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24339,10 +24775,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90104},
+																			pos: position{line: 2840, col: 11, offset: 90142},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90104},
+																				pos:        position{line: 2840, col: 11, offset: 90142},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24359,12 +24795,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 30, offset: 46543},
+									pos:   position{line: 1444, col: 30, offset: 46581},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 41, offset: 46554},
+										pos: position{line: 1444, col: 41, offset: 46592},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 42, offset: 46555},
+											pos:  position{line: 1444, col: 42, offset: 46593},
 											name: "InlineAttributes",
 										},
 									},
@@ -24377,41 +24813,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1478, col: 1, offset: 47696},
+			pos:  position{line: 1478, col: 1, offset: 47734},
 			expr: &actionExpr{
-				pos: position{line: 1479, col: 5, offset: 47717},
+				pos: position{line: 1479, col: 5, offset: 47755},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1479, col: 5, offset: 47717},
+					pos: position{line: 1479, col: 5, offset: 47755},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1479, col: 5, offset: 47717},
+							pos:   position{line: 1479, col: 5, offset: 47755},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47919},
+								pos: position{line: 1485, col: 5, offset: 47957},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50893},
+										pos: position{line: 1578, col: 5, offset: 50931},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50893},
+											pos: position{line: 1578, col: 5, offset: 50931},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50893},
+													pos:   position{line: 1578, col: 5, offset: 50931},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51101},
+														pos: position{line: 1585, col: 5, offset: 51139},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51101},
+															pos: position{line: 1585, col: 5, offset: 51139},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51101},
+																	pos: position{line: 1585, col: 5, offset: 51139},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24420,27 +24856,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51108},
+																	pos:   position{line: 1585, col: 12, offset: 51146},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51171},
+																		pos: position{line: 1587, col: 9, offset: 51209},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51171},
+																				pos: position{line: 1587, col: 9, offset: 51209},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51171},
+																					pos: position{line: 1587, col: 9, offset: 51209},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51171},
+																							pos:   position{line: 1587, col: 9, offset: 51209},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51178},
+																								pos: position{line: 1587, col: 16, offset: 51216},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51178},
+																									pos: position{line: 1587, col: 16, offset: 51216},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51179},
+																										pos:        position{line: 1587, col: 17, offset: 51217},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24449,22 +24885,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51279},
+																							pos: position{line: 1591, col: 9, offset: 51317},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51996},
+																				pos: position{line: 1610, col: 11, offset: 52034},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51996},
+																					pos: position{line: 1610, col: 11, offset: 52034},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51996},
+																							pos: position{line: 1610, col: 11, offset: 52034},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51997},
+																								pos:        position{line: 1610, col: 12, offset: 52035},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24472,7 +24908,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52005},
+																							pos:        position{line: 1610, col: 20, offset: 52043},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24481,20 +24917,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52122},
+																				pos: position{line: 1612, col: 13, offset: 52160},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52122},
+																					pos: position{line: 1612, col: 13, offset: 52160},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52123},
+																							pos:        position{line: 1612, col: 14, offset: 52161},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52130},
+																							pos:        position{line: 1612, col: 21, offset: 52168},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24503,20 +24939,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52250},
+																				pos: position{line: 1614, col: 13, offset: 52288},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52250},
+																					pos: position{line: 1614, col: 13, offset: 52288},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52251},
+																							pos:        position{line: 1614, col: 14, offset: 52289},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52258},
+																							pos:        position{line: 1614, col: 21, offset: 52296},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24525,15 +24961,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52378},
+																				pos: position{line: 1616, col: 13, offset: 52416},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52378},
+																					pos: position{line: 1616, col: 13, offset: 52416},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52378},
+																							pos: position{line: 1616, col: 13, offset: 52416},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52379},
+																								pos:        position{line: 1616, col: 14, offset: 52417},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24541,7 +24977,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52391},
+																							pos:        position{line: 1616, col: 26, offset: 52429},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24550,15 +24986,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52511},
+																				pos: position{line: 1618, col: 13, offset: 52549},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52511},
+																					pos: position{line: 1618, col: 13, offset: 52549},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52511},
+																							pos: position{line: 1618, col: 13, offset: 52549},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52512},
+																								pos:        position{line: 1618, col: 14, offset: 52550},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24566,7 +25002,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52524},
+																							pos:        position{line: 1618, col: 26, offset: 52562},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24578,12 +25014,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24596,26 +25032,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50932},
+													pos:   position{line: 1579, col: 5, offset: 50970},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24626,28 +25062,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24656,9 +25092,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -24671,27 +25107,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52790},
+										pos: position{line: 1628, col: 5, offset: 52828},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52790},
+											pos: position{line: 1628, col: 5, offset: 52828},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52790},
+													pos:   position{line: 1628, col: 5, offset: 52828},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53063},
+														pos: position{line: 1635, col: 5, offset: 53101},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53063},
+															pos: position{line: 1635, col: 5, offset: 53101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53063},
+																	pos: position{line: 1635, col: 5, offset: 53101},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24700,24 +25136,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53075},
+																	pos:   position{line: 1636, col: 5, offset: 53113},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53091},
+																		pos: position{line: 1637, col: 9, offset: 53129},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53092},
+																			pos: position{line: 1637, col: 10, offset: 53130},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53093},
+																					pos:        position{line: 1637, col: 11, offset: 53131},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53100},
+																					pos: position{line: 1637, col: 18, offset: 53138},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53101},
+																						pos:        position{line: 1637, col: 19, offset: 53139},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24728,16 +25164,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53191},
+																	pos: position{line: 1640, col: 7, offset: 53229},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24750,56 +25186,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52831},
+													pos:   position{line: 1629, col: 5, offset: 52869},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52842},
+														pos: position{line: 1629, col: 16, offset: 52880},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53456},
+															pos: position{line: 1650, col: 5, offset: 53494},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53456},
+																pos: position{line: 1650, col: 5, offset: 53494},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53456},
+																		pos: position{line: 1650, col: 5, offset: 53494},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53457},
+																			pos:        position{line: 1650, col: 6, offset: 53495},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53461},
+																		pos:   position{line: 1650, col: 10, offset: 53499},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53475},
+																			pos: position{line: 1651, col: 7, offset: 53513},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53475},
+																					pos: position{line: 1651, col: 7, offset: 53513},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53475},
+																						pos:        position{line: 1651, col: 7, offset: 53513},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53520},
+																					pos: position{line: 1652, col: 7, offset: 53558},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53520},
+																						pos:        position{line: 1652, col: 7, offset: 53558},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53563},
+																					pos: position{line: 1653, col: 7, offset: 53601},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53563},
+																						pos:        position{line: 1653, col: 7, offset: 53601},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24809,12 +25245,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2865, col: 11, offset: 90650},
+																			pos: position{line: 2865, col: 11, offset: 90688},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90650},
+																				pos:        position{line: 2865, col: 11, offset: 90688},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24828,26 +25264,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52881},
+													pos:   position{line: 1630, col: 5, offset: 52919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24858,28 +25294,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24888,9 +25324,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -24903,36 +25339,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55403},
+										pos: position{line: 1718, col: 5, offset: 55441},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55403},
+											pos: position{line: 1718, col: 5, offset: 55441},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55403},
+													pos:   position{line: 1718, col: 5, offset: 55441},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55600},
+														pos: position{line: 1724, col: 5, offset: 55638},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55600},
+															pos: position{line: 1724, col: 5, offset: 55638},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55600},
+																	pos:        position{line: 1724, col: 5, offset: 55638},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55604},
+																	pos:   position{line: 1724, col: 9, offset: 55642},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55609},
+																		pos: position{line: 1724, col: 14, offset: 55647},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55609},
+																			pos: position{line: 1724, col: 14, offset: 55647},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55609},
+																				pos:        position{line: 1724, col: 14, offset: 55647},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24942,18 +25378,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55657},
+																	pos:        position{line: 1724, col: 62, offset: 55695},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24966,26 +25402,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55439},
+													pos:   position{line: 1719, col: 5, offset: 55477},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24996,28 +25432,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25026,9 +25462,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -25041,40 +25477,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53756},
+										pos: position{line: 1662, col: 5, offset: 53794},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53756},
+											pos: position{line: 1662, col: 5, offset: 53794},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53756},
+													pos:   position{line: 1662, col: 5, offset: 53794},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54082},
+														pos: position{line: 1670, col: 5, offset: 54120},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54082},
+															pos: position{line: 1670, col: 5, offset: 54120},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54083},
+																pos: position{line: 1670, col: 6, offset: 54121},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54083},
+																		pos: position{line: 1670, col: 6, offset: 54121},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54233},
+																			pos: position{line: 1675, col: 5, offset: 54271},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54233},
+																				pos: position{line: 1675, col: 5, offset: 54271},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54233},
+																						pos:   position{line: 1675, col: 5, offset: 54271},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54244},
+																							pos: position{line: 1675, col: 16, offset: 54282},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54244},
+																								pos: position{line: 1675, col: 16, offset: 54282},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54245},
+																									pos:        position{line: 1675, col: 17, offset: 54283},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25083,7 +25519,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54302},
+																						pos: position{line: 1678, col: 5, offset: 54340},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25091,30 +25527,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54112},
+																		pos: position{line: 1670, col: 35, offset: 54150},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25123,16 +25559,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54117,
+																		line: 1670, col: 40, offset: 54155,
 																	},
 																},
 															},
@@ -25140,24 +25576,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53791},
+													pos:   position{line: 1663, col: 5, offset: 53829},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54233},
+														pos: position{line: 1675, col: 5, offset: 54271},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54233},
+															pos: position{line: 1675, col: 5, offset: 54271},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54233},
+																	pos:   position{line: 1675, col: 5, offset: 54271},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54244},
+																		pos: position{line: 1675, col: 16, offset: 54282},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54244},
+																			pos: position{line: 1675, col: 16, offset: 54282},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54245},
+																				pos:        position{line: 1675, col: 17, offset: 54283},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25166,7 +25602,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54302},
+																	pos: position{line: 1678, col: 5, offset: 54340},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25174,24 +25610,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53836},
+													pos:   position{line: 1664, col: 5, offset: 53874},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54551},
+														pos: position{line: 1686, col: 5, offset: 54589},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54617},
+																pos: position{line: 1688, col: 9, offset: 54655},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54617},
+																	pos: position{line: 1688, col: 9, offset: 54655},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54617},
+																			pos: position{line: 1688, col: 9, offset: 54655},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25200,28 +25636,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25230,34 +25666,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54636},
+																			pos: position{line: 1689, col: 9, offset: 54674},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21508},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21508},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21515},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25266,28 +25702,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25296,9 +25732,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -25311,18 +25747,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54765},
+																pos: position{line: 1695, col: 9, offset: 54803},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54765},
+																	pos: position{line: 1695, col: 9, offset: 54803},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90650},
+																			pos: position{line: 2865, col: 11, offset: 90688},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2865, col: 11, offset: 90650},
+																				pos: position{line: 2865, col: 11, offset: 90688},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90650},
+																					pos:        position{line: 2865, col: 11, offset: 90688},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25331,15 +25767,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54838},
+																			pos:   position{line: 1696, col: 9, offset: 54876},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54847},
+																				pos: position{line: 1696, col: 18, offset: 54885},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54847},
+																					pos: position{line: 1696, col: 18, offset: 54885},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54847},
+																						pos:        position{line: 1696, col: 18, offset: 54885},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25349,28 +25785,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25379,9 +25815,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -25399,10 +25835,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1480, col: 5, offset: 47748},
+							pos:   position{line: 1480, col: 5, offset: 47786},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1480, col: 20, offset: 47763},
+								pos:  position{line: 1480, col: 20, offset: 47801},
 								name: "ExtraListElements",
 							},
 						},
@@ -25412,17 +25848,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1490, col: 1, offset: 48018},
+			pos:  position{line: 1490, col: 1, offset: 48056},
 			expr: &actionExpr{
-				pos: position{line: 1490, col: 22, offset: 48039},
+				pos: position{line: 1490, col: 22, offset: 48077},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1490, col: 22, offset: 48039},
+					pos:   position{line: 1490, col: 22, offset: 48077},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1490, col: 31, offset: 48048},
+						pos: position{line: 1490, col: 31, offset: 48086},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1490, col: 32, offset: 48049},
+							pos:  position{line: 1490, col: 32, offset: 48087},
 							name: "ExtraListElement",
 						},
 					},
@@ -25431,52 +25867,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1494, col: 1, offset: 48129},
+			pos:  position{line: 1494, col: 1, offset: 48167},
 			expr: &actionExpr{
-				pos: position{line: 1495, col: 5, offset: 48268},
+				pos: position{line: 1495, col: 5, offset: 48306},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1495, col: 5, offset: 48268},
+					pos: position{line: 1495, col: 5, offset: 48306},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1496, col: 5, offset: 48280},
+							pos:   position{line: 1496, col: 5, offset: 48318},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 9, offset: 48298},
+								pos: position{line: 1497, col: 9, offset: 48336},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1497, col: 13, offset: 48302},
+										pos: position{line: 1497, col: 13, offset: 48340},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1497, col: 13, offset: 48302},
+											pos: position{line: 1497, col: 13, offset: 48340},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1497, col: 13, offset: 48302},
+													pos: position{line: 1497, col: 13, offset: 48340},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21508},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2878, col: 11, offset: 90923},
+																	pos: position{line: 2878, col: 11, offset: 90961},
 																	expr: &anyMatcher{
-																		line: 2878, col: 13, offset: 90925,
+																		line: 2878, col: 13, offset: 90963,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21515},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25485,28 +25921,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25515,9 +25951,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -25527,33 +25963,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1498, col: 13, offset: 48326},
+													pos:   position{line: 1498, col: 13, offset: 48364},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1498, col: 22, offset: 48335},
+														pos: position{line: 1498, col: 22, offset: 48373},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50893},
+																pos: position{line: 1578, col: 5, offset: 50931},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50893},
+																	pos: position{line: 1578, col: 5, offset: 50931},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50893},
+																			pos:   position{line: 1578, col: 5, offset: 50931},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51101},
+																				pos: position{line: 1585, col: 5, offset: 51139},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51101},
+																					pos: position{line: 1585, col: 5, offset: 51139},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51101},
+																							pos: position{line: 1585, col: 5, offset: 51139},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25562,27 +25998,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51108},
+																							pos:   position{line: 1585, col: 12, offset: 51146},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51171},
+																								pos: position{line: 1587, col: 9, offset: 51209},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51171},
+																										pos: position{line: 1587, col: 9, offset: 51209},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51171},
+																											pos: position{line: 1587, col: 9, offset: 51209},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51171},
+																													pos:   position{line: 1587, col: 9, offset: 51209},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51178},
+																														pos: position{line: 1587, col: 16, offset: 51216},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51178},
+																															pos: position{line: 1587, col: 16, offset: 51216},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51179},
+																																pos:        position{line: 1587, col: 17, offset: 51217},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25591,22 +26027,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51279},
+																													pos: position{line: 1591, col: 9, offset: 51317},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 51996},
+																										pos: position{line: 1610, col: 11, offset: 52034},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 51996},
+																											pos: position{line: 1610, col: 11, offset: 52034},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 51996},
+																													pos: position{line: 1610, col: 11, offset: 52034},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 51997},
+																														pos:        position{line: 1610, col: 12, offset: 52035},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25614,7 +26050,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 52005},
+																													pos:        position{line: 1610, col: 20, offset: 52043},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25623,20 +26059,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52122},
+																										pos: position{line: 1612, col: 13, offset: 52160},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52122},
+																											pos: position{line: 1612, col: 13, offset: 52160},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52123},
+																													pos:        position{line: 1612, col: 14, offset: 52161},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52130},
+																													pos:        position{line: 1612, col: 21, offset: 52168},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25645,20 +26081,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52250},
+																										pos: position{line: 1614, col: 13, offset: 52288},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52250},
+																											pos: position{line: 1614, col: 13, offset: 52288},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52251},
+																													pos:        position{line: 1614, col: 14, offset: 52289},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52258},
+																													pos:        position{line: 1614, col: 21, offset: 52296},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25667,15 +26103,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52378},
+																										pos: position{line: 1616, col: 13, offset: 52416},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52378},
+																											pos: position{line: 1616, col: 13, offset: 52416},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52378},
+																													pos: position{line: 1616, col: 13, offset: 52416},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52379},
+																														pos:        position{line: 1616, col: 14, offset: 52417},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25683,7 +26119,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52391},
+																													pos:        position{line: 1616, col: 26, offset: 52429},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25692,15 +26128,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52511},
+																										pos: position{line: 1618, col: 13, offset: 52549},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52511},
+																											pos: position{line: 1618, col: 13, offset: 52549},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52511},
+																													pos: position{line: 1618, col: 13, offset: 52549},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52512},
+																														pos:        position{line: 1618, col: 14, offset: 52550},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25708,7 +26144,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52524},
+																													pos:        position{line: 1618, col: 26, offset: 52562},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25720,12 +26156,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25738,26 +26174,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50932},
+																			pos:   position{line: 1579, col: 5, offset: 50970},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25768,28 +26204,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25798,9 +26234,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -25813,27 +26249,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52790},
+																pos: position{line: 1628, col: 5, offset: 52828},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52790},
+																	pos: position{line: 1628, col: 5, offset: 52828},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52790},
+																			pos:   position{line: 1628, col: 5, offset: 52828},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53063},
+																				pos: position{line: 1635, col: 5, offset: 53101},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53063},
+																					pos: position{line: 1635, col: 5, offset: 53101},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53063},
+																							pos: position{line: 1635, col: 5, offset: 53101},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25842,24 +26278,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53075},
+																							pos:   position{line: 1636, col: 5, offset: 53113},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53091},
+																								pos: position{line: 1637, col: 9, offset: 53129},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53092},
+																									pos: position{line: 1637, col: 10, offset: 53130},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53093},
+																											pos:        position{line: 1637, col: 11, offset: 53131},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53100},
+																											pos: position{line: 1637, col: 18, offset: 53138},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53101},
+																												pos:        position{line: 1637, col: 19, offset: 53139},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25870,16 +26306,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53191},
+																							pos: position{line: 1640, col: 7, offset: 53229},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25892,56 +26328,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52831},
+																			pos:   position{line: 1629, col: 5, offset: 52869},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52842},
+																				pos: position{line: 1629, col: 16, offset: 52880},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53456},
+																					pos: position{line: 1650, col: 5, offset: 53494},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53456},
+																						pos: position{line: 1650, col: 5, offset: 53494},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53456},
+																								pos: position{line: 1650, col: 5, offset: 53494},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53457},
+																									pos:        position{line: 1650, col: 6, offset: 53495},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53461},
+																								pos:   position{line: 1650, col: 10, offset: 53499},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53475},
+																									pos: position{line: 1651, col: 7, offset: 53513},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53475},
+																											pos: position{line: 1651, col: 7, offset: 53513},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53475},
+																												pos:        position{line: 1651, col: 7, offset: 53513},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53520},
+																											pos: position{line: 1652, col: 7, offset: 53558},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53520},
+																												pos:        position{line: 1652, col: 7, offset: 53558},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53563},
+																											pos: position{line: 1653, col: 7, offset: 53601},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53563},
+																												pos:        position{line: 1653, col: 7, offset: 53601},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25951,12 +26387,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2865, col: 11, offset: 90650},
+																									pos: position{line: 2865, col: 11, offset: 90688},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 11, offset: 90650},
+																										pos:        position{line: 2865, col: 11, offset: 90688},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25970,26 +26406,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52881},
+																			pos:   position{line: 1630, col: 5, offset: 52919},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26000,28 +26436,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26030,9 +26466,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -26045,36 +26481,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55403},
+																pos: position{line: 1718, col: 5, offset: 55441},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55403},
+																	pos: position{line: 1718, col: 5, offset: 55441},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55403},
+																			pos:   position{line: 1718, col: 5, offset: 55441},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55600},
+																				pos: position{line: 1724, col: 5, offset: 55638},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55600},
+																					pos: position{line: 1724, col: 5, offset: 55638},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55600},
+																							pos:        position{line: 1724, col: 5, offset: 55638},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55604},
+																							pos:   position{line: 1724, col: 9, offset: 55642},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55609},
+																								pos: position{line: 1724, col: 14, offset: 55647},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55609},
+																									pos: position{line: 1724, col: 14, offset: 55647},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55609},
+																										pos:        position{line: 1724, col: 14, offset: 55647},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26084,18 +26520,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55657},
+																							pos:        position{line: 1724, col: 62, offset: 55695},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26108,26 +26544,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55439},
+																			pos:   position{line: 1719, col: 5, offset: 55477},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26138,28 +26574,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26168,9 +26604,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -26183,40 +26619,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53756},
+																pos: position{line: 1662, col: 5, offset: 53794},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53756},
+																	pos: position{line: 1662, col: 5, offset: 53794},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53756},
+																			pos:   position{line: 1662, col: 5, offset: 53794},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54082},
+																				pos: position{line: 1670, col: 5, offset: 54120},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54082},
+																					pos: position{line: 1670, col: 5, offset: 54120},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54083},
+																						pos: position{line: 1670, col: 6, offset: 54121},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54083},
+																								pos: position{line: 1670, col: 6, offset: 54121},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54233},
+																									pos: position{line: 1675, col: 5, offset: 54271},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54233},
+																										pos: position{line: 1675, col: 5, offset: 54271},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54233},
+																												pos:   position{line: 1675, col: 5, offset: 54271},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54244},
+																													pos: position{line: 1675, col: 16, offset: 54282},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54244},
+																														pos: position{line: 1675, col: 16, offset: 54282},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54245},
+																															pos:        position{line: 1675, col: 17, offset: 54283},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26225,7 +26661,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54302},
+																												pos: position{line: 1678, col: 5, offset: 54340},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26233,30 +26669,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54112},
+																								pos: position{line: 1670, col: 35, offset: 54150},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26265,16 +26701,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54117,
+																								line: 1670, col: 40, offset: 54155,
 																							},
 																						},
 																					},
@@ -26282,24 +26718,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53791},
+																			pos:   position{line: 1663, col: 5, offset: 53829},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54233},
+																				pos: position{line: 1675, col: 5, offset: 54271},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54233},
+																					pos: position{line: 1675, col: 5, offset: 54271},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54233},
+																							pos:   position{line: 1675, col: 5, offset: 54271},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54244},
+																								pos: position{line: 1675, col: 16, offset: 54282},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54244},
+																									pos: position{line: 1675, col: 16, offset: 54282},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54245},
+																										pos:        position{line: 1675, col: 17, offset: 54283},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26308,7 +26744,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54302},
+																							pos: position{line: 1678, col: 5, offset: 54340},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26316,24 +26752,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53836},
+																			pos:   position{line: 1664, col: 5, offset: 53874},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54551},
+																				pos: position{line: 1686, col: 5, offset: 54589},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54617},
+																						pos: position{line: 1688, col: 9, offset: 54655},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54617},
+																							pos: position{line: 1688, col: 9, offset: 54655},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54617},
+																									pos: position{line: 1688, col: 9, offset: 54655},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26342,28 +26778,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26372,34 +26808,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54636},
+																									pos: position{line: 1689, col: 9, offset: 54674},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21508},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21508},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2878, col: 11, offset: 90923},
+																													pos: position{line: 2878, col: 11, offset: 90961},
 																													expr: &anyMatcher{
-																														line: 2878, col: 13, offset: 90925,
+																														line: 2878, col: 13, offset: 90963,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21515},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26408,28 +26844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26438,9 +26874,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -26453,18 +26889,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54765},
+																						pos: position{line: 1695, col: 9, offset: 54803},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54765},
+																							pos: position{line: 1695, col: 9, offset: 54803},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90650},
+																									pos: position{line: 2865, col: 11, offset: 90688},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90650},
+																										pos: position{line: 2865, col: 11, offset: 90688},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90650},
+																											pos:        position{line: 2865, col: 11, offset: 90688},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26473,15 +26909,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54838},
+																									pos:   position{line: 1696, col: 9, offset: 54876},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54847},
+																										pos: position{line: 1696, col: 18, offset: 54885},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54847},
+																											pos: position{line: 1696, col: 18, offset: 54885},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54847},
+																												pos:        position{line: 1696, col: 18, offset: 54885},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26491,28 +26927,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26521,9 +26957,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -26544,50 +26980,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1501, col: 13, offset: 48486},
+										pos: position{line: 1501, col: 13, offset: 48524},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1501, col: 13, offset: 48486},
+											pos: position{line: 1501, col: 13, offset: 48524},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48486},
+													pos:   position{line: 1501, col: 13, offset: 48524},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1501, col: 24, offset: 48497},
+														pos: position{line: 1501, col: 24, offset: 48535},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1501, col: 25, offset: 48498},
+															pos:  position{line: 1501, col: 25, offset: 48536},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1502, col: 13, offset: 48529},
+													pos:   position{line: 1502, col: 13, offset: 48567},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1502, col: 22, offset: 48538},
+														pos: position{line: 1502, col: 22, offset: 48576},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50893},
+																pos: position{line: 1578, col: 5, offset: 50931},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50893},
+																	pos: position{line: 1578, col: 5, offset: 50931},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50893},
+																			pos:   position{line: 1578, col: 5, offset: 50931},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51101},
+																				pos: position{line: 1585, col: 5, offset: 51139},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51101},
+																					pos: position{line: 1585, col: 5, offset: 51139},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51101},
+																							pos: position{line: 1585, col: 5, offset: 51139},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26596,27 +27032,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51108},
+																							pos:   position{line: 1585, col: 12, offset: 51146},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51171},
+																								pos: position{line: 1587, col: 9, offset: 51209},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51171},
+																										pos: position{line: 1587, col: 9, offset: 51209},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51171},
+																											pos: position{line: 1587, col: 9, offset: 51209},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51171},
+																													pos:   position{line: 1587, col: 9, offset: 51209},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51178},
+																														pos: position{line: 1587, col: 16, offset: 51216},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51178},
+																															pos: position{line: 1587, col: 16, offset: 51216},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51179},
+																																pos:        position{line: 1587, col: 17, offset: 51217},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26625,22 +27061,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51279},
+																													pos: position{line: 1591, col: 9, offset: 51317},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 51996},
+																										pos: position{line: 1610, col: 11, offset: 52034},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 51996},
+																											pos: position{line: 1610, col: 11, offset: 52034},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 51996},
+																													pos: position{line: 1610, col: 11, offset: 52034},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 51997},
+																														pos:        position{line: 1610, col: 12, offset: 52035},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26648,7 +27084,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 52005},
+																													pos:        position{line: 1610, col: 20, offset: 52043},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26657,20 +27093,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52122},
+																										pos: position{line: 1612, col: 13, offset: 52160},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52122},
+																											pos: position{line: 1612, col: 13, offset: 52160},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52123},
+																													pos:        position{line: 1612, col: 14, offset: 52161},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52130},
+																													pos:        position{line: 1612, col: 21, offset: 52168},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26679,20 +27115,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52250},
+																										pos: position{line: 1614, col: 13, offset: 52288},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52250},
+																											pos: position{line: 1614, col: 13, offset: 52288},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52251},
+																													pos:        position{line: 1614, col: 14, offset: 52289},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52258},
+																													pos:        position{line: 1614, col: 21, offset: 52296},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26701,15 +27137,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52378},
+																										pos: position{line: 1616, col: 13, offset: 52416},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52378},
+																											pos: position{line: 1616, col: 13, offset: 52416},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52378},
+																													pos: position{line: 1616, col: 13, offset: 52416},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52379},
+																														pos:        position{line: 1616, col: 14, offset: 52417},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26717,7 +27153,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52391},
+																													pos:        position{line: 1616, col: 26, offset: 52429},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26726,15 +27162,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52511},
+																										pos: position{line: 1618, col: 13, offset: 52549},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52511},
+																											pos: position{line: 1618, col: 13, offset: 52549},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52511},
+																													pos: position{line: 1618, col: 13, offset: 52549},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52512},
+																														pos:        position{line: 1618, col: 14, offset: 52550},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26742,7 +27178,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52524},
+																													pos:        position{line: 1618, col: 26, offset: 52562},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26754,12 +27190,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26772,26 +27208,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50932},
+																			pos:   position{line: 1579, col: 5, offset: 50970},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26802,28 +27238,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26832,9 +27268,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -26847,27 +27283,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52790},
+																pos: position{line: 1628, col: 5, offset: 52828},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52790},
+																	pos: position{line: 1628, col: 5, offset: 52828},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52790},
+																			pos:   position{line: 1628, col: 5, offset: 52828},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53063},
+																				pos: position{line: 1635, col: 5, offset: 53101},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53063},
+																					pos: position{line: 1635, col: 5, offset: 53101},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53063},
+																							pos: position{line: 1635, col: 5, offset: 53101},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26876,24 +27312,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53075},
+																							pos:   position{line: 1636, col: 5, offset: 53113},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53091},
+																								pos: position{line: 1637, col: 9, offset: 53129},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53092},
+																									pos: position{line: 1637, col: 10, offset: 53130},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53093},
+																											pos:        position{line: 1637, col: 11, offset: 53131},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53100},
+																											pos: position{line: 1637, col: 18, offset: 53138},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53101},
+																												pos:        position{line: 1637, col: 19, offset: 53139},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26904,16 +27340,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53191},
+																							pos: position{line: 1640, col: 7, offset: 53229},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26926,56 +27362,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52831},
+																			pos:   position{line: 1629, col: 5, offset: 52869},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52842},
+																				pos: position{line: 1629, col: 16, offset: 52880},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53456},
+																					pos: position{line: 1650, col: 5, offset: 53494},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53456},
+																						pos: position{line: 1650, col: 5, offset: 53494},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53456},
+																								pos: position{line: 1650, col: 5, offset: 53494},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53457},
+																									pos:        position{line: 1650, col: 6, offset: 53495},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53461},
+																								pos:   position{line: 1650, col: 10, offset: 53499},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53475},
+																									pos: position{line: 1651, col: 7, offset: 53513},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53475},
+																											pos: position{line: 1651, col: 7, offset: 53513},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53475},
+																												pos:        position{line: 1651, col: 7, offset: 53513},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53520},
+																											pos: position{line: 1652, col: 7, offset: 53558},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53520},
+																												pos:        position{line: 1652, col: 7, offset: 53558},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53563},
+																											pos: position{line: 1653, col: 7, offset: 53601},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53563},
+																												pos:        position{line: 1653, col: 7, offset: 53601},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26985,12 +27421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2865, col: 11, offset: 90650},
+																									pos: position{line: 2865, col: 11, offset: 90688},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 11, offset: 90650},
+																										pos:        position{line: 2865, col: 11, offset: 90688},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27004,26 +27440,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52881},
+																			pos:   position{line: 1630, col: 5, offset: 52919},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27034,28 +27470,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27064,9 +27500,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -27079,36 +27515,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55403},
+																pos: position{line: 1718, col: 5, offset: 55441},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55403},
+																	pos: position{line: 1718, col: 5, offset: 55441},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55403},
+																			pos:   position{line: 1718, col: 5, offset: 55441},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55600},
+																				pos: position{line: 1724, col: 5, offset: 55638},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55600},
+																					pos: position{line: 1724, col: 5, offset: 55638},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55600},
+																							pos:        position{line: 1724, col: 5, offset: 55638},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55604},
+																							pos:   position{line: 1724, col: 9, offset: 55642},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55609},
+																								pos: position{line: 1724, col: 14, offset: 55647},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55609},
+																									pos: position{line: 1724, col: 14, offset: 55647},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55609},
+																										pos:        position{line: 1724, col: 14, offset: 55647},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27118,18 +27554,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55657},
+																							pos:        position{line: 1724, col: 62, offset: 55695},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27142,26 +27578,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55439},
+																			pos:   position{line: 1719, col: 5, offset: 55477},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49399},
+																				pos: position{line: 1526, col: 5, offset: 49437},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49399},
+																					pos: position{line: 1526, col: 5, offset: 49437},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49399},
+																							pos:   position{line: 1526, col: 5, offset: 49437},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49408},
+																								pos: position{line: 1526, col: 14, offset: 49446},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49409},
+																									pos: position{line: 1526, col: 15, offset: 49447},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49409},
+																										pos: position{line: 1526, col: 15, offset: 49447},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49409},
+																											pos:        position{line: 1526, col: 15, offset: 49447},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27172,28 +27608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27202,9 +27638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -27217,40 +27653,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53756},
+																pos: position{line: 1662, col: 5, offset: 53794},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53756},
+																	pos: position{line: 1662, col: 5, offset: 53794},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53756},
+																			pos:   position{line: 1662, col: 5, offset: 53794},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54082},
+																				pos: position{line: 1670, col: 5, offset: 54120},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54082},
+																					pos: position{line: 1670, col: 5, offset: 54120},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54083},
+																						pos: position{line: 1670, col: 6, offset: 54121},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54083},
+																								pos: position{line: 1670, col: 6, offset: 54121},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54233},
+																									pos: position{line: 1675, col: 5, offset: 54271},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54233},
+																										pos: position{line: 1675, col: 5, offset: 54271},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54233},
+																												pos:   position{line: 1675, col: 5, offset: 54271},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54244},
+																													pos: position{line: 1675, col: 16, offset: 54282},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54244},
+																														pos: position{line: 1675, col: 16, offset: 54282},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54245},
+																															pos:        position{line: 1675, col: 17, offset: 54283},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27259,7 +27695,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54302},
+																												pos: position{line: 1678, col: 5, offset: 54340},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27267,30 +27703,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54112},
+																								pos: position{line: 1670, col: 35, offset: 54150},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27299,16 +27735,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54117,
+																								line: 1670, col: 40, offset: 54155,
 																							},
 																						},
 																					},
@@ -27316,24 +27752,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53791},
+																			pos:   position{line: 1663, col: 5, offset: 53829},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54233},
+																				pos: position{line: 1675, col: 5, offset: 54271},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54233},
+																					pos: position{line: 1675, col: 5, offset: 54271},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54233},
+																							pos:   position{line: 1675, col: 5, offset: 54271},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54244},
+																								pos: position{line: 1675, col: 16, offset: 54282},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54244},
+																									pos: position{line: 1675, col: 16, offset: 54282},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54245},
+																										pos:        position{line: 1675, col: 17, offset: 54283},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27342,7 +27778,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54302},
+																							pos: position{line: 1678, col: 5, offset: 54340},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27350,24 +27786,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53836},
+																			pos:   position{line: 1664, col: 5, offset: 53874},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54551},
+																				pos: position{line: 1686, col: 5, offset: 54589},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54617},
+																						pos: position{line: 1688, col: 9, offset: 54655},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54617},
+																							pos: position{line: 1688, col: 9, offset: 54655},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54617},
+																									pos: position{line: 1688, col: 9, offset: 54655},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27376,28 +27812,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27406,34 +27842,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54636},
+																									pos: position{line: 1689, col: 9, offset: 54674},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21508},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21508},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2878, col: 11, offset: 90923},
+																													pos: position{line: 2878, col: 11, offset: 90961},
 																													expr: &anyMatcher{
-																														line: 2878, col: 13, offset: 90925,
+																														line: 2878, col: 13, offset: 90963,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21515},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27442,28 +27878,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27472,9 +27908,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -27487,18 +27923,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54765},
+																						pos: position{line: 1695, col: 9, offset: 54803},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54765},
+																							pos: position{line: 1695, col: 9, offset: 54803},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90650},
+																									pos: position{line: 2865, col: 11, offset: 90688},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90650},
+																										pos: position{line: 2865, col: 11, offset: 90688},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90650},
+																											pos:        position{line: 2865, col: 11, offset: 90688},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27507,15 +27943,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54838},
+																									pos:   position{line: 1696, col: 9, offset: 54876},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54847},
+																										pos: position{line: 1696, col: 18, offset: 54885},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54847},
+																											pos: position{line: 1696, col: 18, offset: 54885},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54847},
+																												pos:        position{line: 1696, col: 18, offset: 54885},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27525,28 +27961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27555,9 +27991,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -27578,40 +28014,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1505, col: 11, offset: 48723},
+										pos:  position{line: 1505, col: 11, offset: 48761},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79574},
+										pos: position{line: 2471, col: 22, offset: 79612},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79795},
+													pos:        position{line: 2476, col: 31, offset: 79833},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79800},
+													pos: position{line: 2476, col: 36, offset: 79838},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79801},
+														pos:        position{line: 2476, col: 37, offset: 79839},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79601},
+													pos:   position{line: 2471, col: 49, offset: 79639},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89115},
+														pos: position{line: 2807, col: 13, offset: 89153},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89115},
+																pos:        position{line: 2807, col: 13, offset: 89153},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27621,28 +28057,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27651,9 +28087,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -27662,32 +28098,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 5, offset: 48987},
+										pos: position{line: 1513, col: 5, offset: 49025},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 5, offset: 48987},
+											pos: position{line: 1513, col: 5, offset: 49025},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 48987},
+													pos: position{line: 1513, col: 5, offset: 49025},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21508},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2878, col: 11, offset: 90923},
+																	pos: position{line: 2878, col: 11, offset: 90961},
 																	expr: &anyMatcher{
-																		line: 2878, col: 13, offset: 90925,
+																		line: 2878, col: 13, offset: 90963,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21515},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27696,28 +28132,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27726,9 +28162,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -27738,23 +28174,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49002},
+													pos: position{line: 1514, col: 5, offset: 49040},
 													expr: &seqExpr{
-														pos: position{line: 1544, col: 27, offset: 49907},
+														pos: position{line: 1544, col: 27, offset: 49945},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1544, col: 27, offset: 49907},
+																pos:        position{line: 1544, col: 27, offset: 49945},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1544, col: 31, offset: 49911},
+																pos: position{line: 1544, col: 31, offset: 49949},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27763,25 +28199,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27793,20 +28229,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49030},
+													pos: position{line: 1515, col: 5, offset: 49068},
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51101},
+														pos: position{line: 1585, col: 5, offset: 51139},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51101},
+															pos: position{line: 1585, col: 5, offset: 51139},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51101},
+																	pos: position{line: 1585, col: 5, offset: 51139},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27815,27 +28251,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51108},
+																	pos:   position{line: 1585, col: 12, offset: 51146},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51171},
+																		pos: position{line: 1587, col: 9, offset: 51209},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51171},
+																				pos: position{line: 1587, col: 9, offset: 51209},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51171},
+																					pos: position{line: 1587, col: 9, offset: 51209},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51171},
+																							pos:   position{line: 1587, col: 9, offset: 51209},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51178},
+																								pos: position{line: 1587, col: 16, offset: 51216},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51178},
+																									pos: position{line: 1587, col: 16, offset: 51216},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51179},
+																										pos:        position{line: 1587, col: 17, offset: 51217},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27844,22 +28280,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51279},
+																							pos: position{line: 1591, col: 9, offset: 51317},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51996},
+																				pos: position{line: 1610, col: 11, offset: 52034},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51996},
+																					pos: position{line: 1610, col: 11, offset: 52034},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51996},
+																							pos: position{line: 1610, col: 11, offset: 52034},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51997},
+																								pos:        position{line: 1610, col: 12, offset: 52035},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27867,7 +28303,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52005},
+																							pos:        position{line: 1610, col: 20, offset: 52043},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27876,20 +28312,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52122},
+																				pos: position{line: 1612, col: 13, offset: 52160},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52122},
+																					pos: position{line: 1612, col: 13, offset: 52160},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52123},
+																							pos:        position{line: 1612, col: 14, offset: 52161},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52130},
+																							pos:        position{line: 1612, col: 21, offset: 52168},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27898,20 +28334,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52250},
+																				pos: position{line: 1614, col: 13, offset: 52288},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52250},
+																					pos: position{line: 1614, col: 13, offset: 52288},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52251},
+																							pos:        position{line: 1614, col: 14, offset: 52289},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52258},
+																							pos:        position{line: 1614, col: 21, offset: 52296},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27920,15 +28356,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52378},
+																				pos: position{line: 1616, col: 13, offset: 52416},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52378},
+																					pos: position{line: 1616, col: 13, offset: 52416},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52378},
+																							pos: position{line: 1616, col: 13, offset: 52416},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52379},
+																								pos:        position{line: 1616, col: 14, offset: 52417},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27936,7 +28372,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52391},
+																							pos:        position{line: 1616, col: 26, offset: 52429},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27945,15 +28381,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52511},
+																				pos: position{line: 1618, col: 13, offset: 52549},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52511},
+																					pos: position{line: 1618, col: 13, offset: 52549},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52511},
+																							pos: position{line: 1618, col: 13, offset: 52549},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52512},
+																								pos:        position{line: 1618, col: 14, offset: 52550},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27961,7 +28397,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52524},
+																							pos:        position{line: 1618, col: 26, offset: 52562},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27973,12 +28409,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27991,20 +28427,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49060},
+													pos: position{line: 1516, col: 5, offset: 49098},
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53063},
+														pos: position{line: 1635, col: 5, offset: 53101},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53063},
+															pos: position{line: 1635, col: 5, offset: 53101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53063},
+																	pos: position{line: 1635, col: 5, offset: 53101},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28013,24 +28449,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53075},
+																	pos:   position{line: 1636, col: 5, offset: 53113},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53091},
+																		pos: position{line: 1637, col: 9, offset: 53129},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53092},
+																			pos: position{line: 1637, col: 10, offset: 53130},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53093},
+																					pos:        position{line: 1637, col: 11, offset: 53131},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53100},
+																					pos: position{line: 1637, col: 18, offset: 53138},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53101},
+																						pos:        position{line: 1637, col: 19, offset: 53139},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28041,16 +28477,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53191},
+																	pos: position{line: 1640, col: 7, offset: 53229},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28063,29 +28499,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49092},
+													pos: position{line: 1517, col: 5, offset: 49130},
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55600},
+														pos: position{line: 1724, col: 5, offset: 55638},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55600},
+															pos: position{line: 1724, col: 5, offset: 55638},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55600},
+																	pos:        position{line: 1724, col: 5, offset: 55638},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55604},
+																	pos:   position{line: 1724, col: 9, offset: 55642},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55609},
+																		pos: position{line: 1724, col: 14, offset: 55647},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55609},
+																			pos: position{line: 1724, col: 14, offset: 55647},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55609},
+																				pos:        position{line: 1724, col: 14, offset: 55647},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28095,18 +28531,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55657},
+																	pos:        position{line: 1724, col: 62, offset: 55695},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28119,36 +28555,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49122},
+													pos: position{line: 1518, col: 5, offset: 49160},
 													expr: &seqExpr{
-														pos: position{line: 1518, col: 7, offset: 49124},
+														pos: position{line: 1518, col: 7, offset: 49162},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1670, col: 5, offset: 54082},
+																pos: position{line: 1670, col: 5, offset: 54120},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54082},
+																	pos: position{line: 1670, col: 5, offset: 54120},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54083},
+																		pos: position{line: 1670, col: 6, offset: 54121},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54083},
+																				pos: position{line: 1670, col: 6, offset: 54121},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54233},
+																					pos: position{line: 1675, col: 5, offset: 54271},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54233},
+																						pos: position{line: 1675, col: 5, offset: 54271},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54233},
+																								pos:   position{line: 1675, col: 5, offset: 54271},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54244},
+																									pos: position{line: 1675, col: 16, offset: 54282},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54244},
+																										pos: position{line: 1675, col: 16, offset: 54282},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54245},
+																											pos:        position{line: 1675, col: 17, offset: 54283},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28157,7 +28593,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54302},
+																								pos: position{line: 1678, col: 5, offset: 54340},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28165,30 +28601,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54112},
+																				pos: position{line: 1670, col: 35, offset: 54150},
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28197,37 +28633,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54117,
+																				line: 1670, col: 40, offset: 54155,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54233},
+																pos: position{line: 1675, col: 5, offset: 54271},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1675, col: 5, offset: 54233},
+																	pos: position{line: 1675, col: 5, offset: 54271},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54233},
+																			pos:   position{line: 1675, col: 5, offset: 54271},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 16, offset: 54244},
+																				pos: position{line: 1675, col: 16, offset: 54282},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 16, offset: 54244},
+																					pos: position{line: 1675, col: 16, offset: 54282},
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 17, offset: 54245},
+																						pos:        position{line: 1675, col: 17, offset: 54283},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28236,20 +28672,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1678, col: 5, offset: 54302},
+																			pos: position{line: 1678, col: 5, offset: 54340},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1518, col: 59, offset: 49176},
+																pos: position{line: 1518, col: 59, offset: 49214},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28257,25 +28693,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28284,9 +28720,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -28295,20 +28731,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49194},
+													pos: position{line: 1519, col: 5, offset: 49232},
 													expr: &choiceExpr{
-														pos: position{line: 1519, col: 7, offset: 49196},
+														pos: position{line: 1519, col: 7, offset: 49234},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 724, col: 5, offset: 23080},
 																run: (*parser).callonExtraListElement632,
 																expr: &seqExpr{
-																	pos: position{line: 724, col: 5, offset: 23042},
+																	pos: position{line: 724, col: 5, offset: 23080},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
+																			pos: position{line: 724, col: 5, offset: 23080},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2751, col: 13, offset: 87684},
+																				pos:        position{line: 2751, col: 13, offset: 87722},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28316,36 +28752,36 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 725, col: 5, offset: 23072},
+																			pos:   position{line: 725, col: 5, offset: 23110},
 																			label: "delimiter",
 																			expr: &choiceExpr{
-																				pos: position{line: 726, col: 9, offset: 23092},
+																				pos: position{line: 726, col: 9, offset: 23130},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23622},
 																						run: (*parser).callonExtraListElement638,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 740, col: 5, offset: 23622},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 740, col: 5, offset: 23622},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23633},
 																										run: (*parser).callonExtraListElement641,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 740, col: 16, offset: 23633},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 740, col: 16, offset: 23633},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 740, col: 23, offset: 23640},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 740, col: 23, offset: 23640},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -28356,12 +28792,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 742, col: 8, offset: 23724},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28370,28 +28806,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28400,9 +28836,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28411,30 +28847,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23870},
 																						run: (*parser).callonExtraListElement657,
 																						expr: &seqExpr{
-																							pos: position{line: 747, col: 5, offset: 23832},
+																							pos: position{line: 747, col: 5, offset: 23870},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 747, col: 5, offset: 23832},
+																									pos:   position{line: 747, col: 5, offset: 23870},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23881},
 																										run: (*parser).callonExtraListElement660,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 16, offset: 23843},
+																											pos: position{line: 747, col: 16, offset: 23881},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 747, col: 16, offset: 23843},
+																													pos:        position{line: 747, col: 16, offset: 23881},
 																													val:        "====",
 																													ignoreCase: false,
 																													want:       "\"====\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 747, col: 23, offset: 23850},
+																													pos: position{line: 747, col: 23, offset: 23888},
 																													expr: &litMatcher{
-																														pos:        position{line: 747, col: 23, offset: 23850},
+																														pos:        position{line: 747, col: 23, offset: 23888},
 																														val:        "=",
 																														ignoreCase: false,
 																														want:       "\"=\"",
@@ -28445,12 +28881,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 749, col: 8, offset: 23934},
+																									pos: position{line: 749, col: 8, offset: 23972},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28459,28 +28895,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28489,9 +28925,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28500,27 +28936,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 760, col: 26, offset: 24320},
+																						pos: position{line: 760, col: 26, offset: 24358},
 																						run: (*parser).callonExtraListElement676,
 																						expr: &seqExpr{
-																							pos: position{line: 760, col: 26, offset: 24320},
+																							pos: position{line: 760, col: 26, offset: 24358},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 760, col: 26, offset: 24320},
+																									pos:        position{line: 760, col: 26, offset: 24358},
 																									val:        "```",
 																									ignoreCase: false,
 																									want:       "\"```\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 760, col: 32, offset: 24326},
+																									pos:   position{line: 760, col: 32, offset: 24364},
 																									label: "language",
 																									expr: &actionExpr{
-																										pos: position{line: 764, col: 13, offset: 24456},
+																										pos: position{line: 764, col: 13, offset: 24494},
 																										run: (*parser).callonExtraListElement680,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 764, col: 14, offset: 24457},
+																											pos: position{line: 764, col: 14, offset: 24495},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 764, col: 14, offset: 24457},
+																												pos:        position{line: 764, col: 14, offset: 24495},
 																												val:        "[^\\r\\n` ]",
 																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
@@ -28530,12 +28966,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 760, col: 52, offset: 24346},
+																									pos: position{line: 760, col: 52, offset: 24384},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28544,28 +28980,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28574,9 +29010,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28585,30 +29021,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24117},
 																						run: (*parser).callonExtraListElement694,
 																						expr: &seqExpr{
-																							pos: position{line: 754, col: 5, offset: 24079},
+																							pos: position{line: 754, col: 5, offset: 24117},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 754, col: 5, offset: 24079},
+																									pos:   position{line: 754, col: 5, offset: 24117},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24128},
 																										run: (*parser).callonExtraListElement697,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 16, offset: 24090},
+																											pos: position{line: 754, col: 16, offset: 24128},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 754, col: 16, offset: 24090},
+																													pos:        position{line: 754, col: 16, offset: 24128},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 754, col: 22, offset: 24096},
+																													pos: position{line: 754, col: 22, offset: 24134},
 																													expr: &litMatcher{
-																														pos:        position{line: 754, col: 22, offset: 24096},
+																														pos:        position{line: 754, col: 22, offset: 24134},
 																														val:        "`",
 																														ignoreCase: false,
 																														want:       "\"`\"",
@@ -28619,12 +29055,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 756, col: 8, offset: 24180},
+																									pos: position{line: 756, col: 8, offset: 24218},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28633,28 +29069,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28663,9 +29099,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28674,30 +29110,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24654},
 																						run: (*parser).callonExtraListElement713,
 																						expr: &seqExpr{
-																							pos: position{line: 769, col: 5, offset: 24616},
+																							pos: position{line: 769, col: 5, offset: 24654},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 769, col: 5, offset: 24616},
+																									pos:   position{line: 769, col: 5, offset: 24654},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24665},
 																										run: (*parser).callonExtraListElement716,
 																										expr: &seqExpr{
-																											pos: position{line: 769, col: 16, offset: 24627},
+																											pos: position{line: 769, col: 16, offset: 24665},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 769, col: 16, offset: 24627},
+																													pos:        position{line: 769, col: 16, offset: 24665},
 																													val:        "----",
 																													ignoreCase: false,
 																													want:       "\"----\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 769, col: 23, offset: 24634},
+																													pos: position{line: 769, col: 23, offset: 24672},
 																													expr: &litMatcher{
-																														pos:        position{line: 769, col: 23, offset: 24634},
+																														pos:        position{line: 769, col: 23, offset: 24672},
 																														val:        "-",
 																														ignoreCase: false,
 																														want:       "\"-\"",
@@ -28708,12 +29144,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 771, col: 8, offset: 24718},
+																									pos: position{line: 771, col: 8, offset: 24756},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28722,28 +29158,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28752,9 +29188,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28763,30 +29199,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25130},
 																						run: (*parser).callonExtraListElement732,
 																						expr: &seqExpr{
-																							pos: position{line: 783, col: 5, offset: 25092},
+																							pos: position{line: 783, col: 5, offset: 25130},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 783, col: 5, offset: 25092},
+																									pos:   position{line: 783, col: 5, offset: 25130},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25141},
 																										run: (*parser).callonExtraListElement735,
 																										expr: &seqExpr{
-																											pos: position{line: 783, col: 16, offset: 25103},
+																											pos: position{line: 783, col: 16, offset: 25141},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 783, col: 16, offset: 25103},
+																													pos:        position{line: 783, col: 16, offset: 25141},
 																													val:        "....",
 																													ignoreCase: false,
 																													want:       "\"....\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 783, col: 23, offset: 25110},
+																													pos: position{line: 783, col: 23, offset: 25148},
 																													expr: &litMatcher{
-																														pos:        position{line: 783, col: 23, offset: 25110},
+																														pos:        position{line: 783, col: 23, offset: 25148},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -28797,12 +29233,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 785, col: 8, offset: 25194},
+																									pos: position{line: 785, col: 8, offset: 25232},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28811,28 +29247,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28841,9 +29277,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28852,30 +29288,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25382},
 																						run: (*parser).callonExtraListElement751,
 																						expr: &seqExpr{
-																							pos: position{line: 790, col: 5, offset: 25344},
+																							pos: position{line: 790, col: 5, offset: 25382},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 790, col: 5, offset: 25344},
+																									pos:   position{line: 790, col: 5, offset: 25382},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25393},
 																										run: (*parser).callonExtraListElement754,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 16, offset: 25355},
+																											pos: position{line: 790, col: 16, offset: 25393},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 790, col: 16, offset: 25355},
+																													pos:        position{line: 790, col: 16, offset: 25393},
 																													val:        "++++",
 																													ignoreCase: false,
 																													want:       "\"++++\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 790, col: 23, offset: 25362},
+																													pos: position{line: 790, col: 23, offset: 25400},
 																													expr: &litMatcher{
-																														pos:        position{line: 790, col: 23, offset: 25362},
+																														pos:        position{line: 790, col: 23, offset: 25400},
 																														val:        "+",
 																														ignoreCase: false,
 																														want:       "\"+\"",
@@ -28886,12 +29322,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 792, col: 8, offset: 25446},
+																									pos: position{line: 792, col: 8, offset: 25484},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28900,28 +29336,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28930,9 +29366,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -28941,30 +29377,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25632},
 																						run: (*parser).callonExtraListElement770,
 																						expr: &seqExpr{
-																							pos: position{line: 797, col: 5, offset: 25594},
+																							pos: position{line: 797, col: 5, offset: 25632},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 797, col: 5, offset: 25594},
+																									pos:   position{line: 797, col: 5, offset: 25632},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25643},
 																										run: (*parser).callonExtraListElement773,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 16, offset: 25605},
+																											pos: position{line: 797, col: 16, offset: 25643},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 797, col: 16, offset: 25605},
+																													pos:        position{line: 797, col: 16, offset: 25643},
 																													val:        "____",
 																													ignoreCase: false,
 																													want:       "\"____\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 797, col: 23, offset: 25612},
+																													pos: position{line: 797, col: 23, offset: 25650},
 																													expr: &litMatcher{
-																														pos:        position{line: 797, col: 23, offset: 25612},
+																														pos:        position{line: 797, col: 23, offset: 25650},
 																														val:        "_",
 																														ignoreCase: false,
 																														want:       "\"_\"",
@@ -28975,12 +29411,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 799, col: 8, offset: 25696},
+																									pos: position{line: 799, col: 8, offset: 25734},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28989,28 +29425,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29019,9 +29455,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -29030,30 +29466,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25878},
 																						run: (*parser).callonExtraListElement789,
 																						expr: &seqExpr{
-																							pos: position{line: 804, col: 5, offset: 25840},
+																							pos: position{line: 804, col: 5, offset: 25878},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 804, col: 5, offset: 25840},
+																									pos:   position{line: 804, col: 5, offset: 25878},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25889},
 																										run: (*parser).callonExtraListElement792,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 16, offset: 25851},
+																											pos: position{line: 804, col: 16, offset: 25889},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 804, col: 16, offset: 25851},
+																													pos:        position{line: 804, col: 16, offset: 25889},
 																													val:        "****",
 																													ignoreCase: false,
 																													want:       "\"****\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 804, col: 23, offset: 25858},
+																													pos: position{line: 804, col: 23, offset: 25896},
 																													expr: &litMatcher{
-																														pos:        position{line: 804, col: 23, offset: 25858},
+																														pos:        position{line: 804, col: 23, offset: 25896},
 																														val:        "*",
 																														ignoreCase: false,
 																														want:       "\"*\"",
@@ -29064,12 +29500,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 806, col: 8, offset: 25942},
+																									pos: position{line: 806, col: 8, offset: 25980},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29078,28 +29514,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29108,9 +29544,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -29125,19 +29561,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24899},
 																run: (*parser).callonExtraListElement808,
 																expr: &seqExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 776, col: 5, offset: 24899},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 776, col: 5, offset: 24861},
+																			pos:   position{line: 776, col: 5, offset: 24899},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 776, col: 16, offset: 24872},
+																				pos: position{line: 776, col: 16, offset: 24910},
 																				run: (*parser).callonExtraListElement811,
 																				expr: &litMatcher{
-																					pos:        position{line: 776, col: 16, offset: 24872},
+																					pos:        position{line: 776, col: 16, offset: 24910},
 																					val:        "--",
 																					ignoreCase: false,
 																					want:       "\"--\"",
@@ -29145,12 +29581,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 778, col: 8, offset: 24949},
+																			pos: position{line: 778, col: 8, offset: 24987},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29159,28 +29595,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29189,9 +29625,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -29200,21 +29636,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2603, col: 19, offset: 83272},
+																pos: position{line: 2603, col: 19, offset: 83310},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2603, col: 19, offset: 83272},
+																		pos:        position{line: 2603, col: 19, offset: 83310},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2603, col: 26, offset: 83279},
+																		pos: position{line: 2603, col: 26, offset: 83317},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29223,28 +29659,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29253,9 +29689,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -29266,15 +29702,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 5, offset: 49254},
+													pos:   position{line: 1520, col: 5, offset: 49292},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 14, offset: 89182},
+														pos: position{line: 2811, col: 14, offset: 89220},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2811, col: 14, offset: 89182},
+															pos: position{line: 2811, col: 14, offset: 89220},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 14, offset: 89182},
+																pos:        position{line: 2811, col: 14, offset: 89220},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29284,28 +29720,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29314,9 +29750,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -29333,28 +29769,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1536, col: 1, offset: 49645},
+			pos:  position{line: 1536, col: 1, offset: 49683},
 			expr: &actionExpr{
-				pos: position{line: 1537, col: 5, offset: 49670},
+				pos: position{line: 1537, col: 5, offset: 49708},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1537, col: 5, offset: 49670},
+					pos: position{line: 1537, col: 5, offset: 49708},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49670},
+							pos:   position{line: 1537, col: 5, offset: 49708},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1537, col: 12, offset: 49677},
+								pos: position{line: 1537, col: 12, offset: 49715},
 								expr: &seqExpr{
-									pos: position{line: 1537, col: 13, offset: 49678},
+									pos: position{line: 1537, col: 13, offset: 49716},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1537, col: 13, offset: 49678},
+											pos: position{line: 1537, col: 13, offset: 49716},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90589},
+												pos: position{line: 2861, col: 10, offset: 90627},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90589},
+													pos:        position{line: 2861, col: 10, offset: 90627},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29363,25 +29799,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2870, col: 12, offset: 90760},
+											pos: position{line: 2870, col: 12, offset: 90798},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2870, col: 13, offset: 90761},
+												pos: position{line: 2870, col: 13, offset: 90799},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2870, col: 13, offset: 90761},
+														pos:        position{line: 2870, col: 13, offset: 90799},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2870, col: 20, offset: 90768},
+														pos:        position{line: 2870, col: 20, offset: 90806},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2870, col: 29, offset: 90777},
+														pos:        position{line: 2870, col: 29, offset: 90815},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29394,18 +29830,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1538, col: 5, offset: 49700},
+							pos:        position{line: 1538, col: 5, offset: 49738},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1538, col: 9, offset: 49704},
+							pos: position{line: 1538, col: 9, offset: 49742},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29414,28 +29850,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29444,45 +29880,45 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49719},
+							pos:   position{line: 1539, col: 5, offset: 49757},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1539, col: 13, offset: 49727},
+								pos: position{line: 1539, col: 13, offset: 49765},
 								expr: &actionExpr{
-									pos: position{line: 1539, col: 14, offset: 49728},
+									pos: position{line: 1539, col: 14, offset: 49766},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1539, col: 14, offset: 49728},
+										pos: position{line: 1539, col: 14, offset: 49766},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1539, col: 14, offset: 49728},
+												pos: position{line: 1539, col: 14, offset: 49766},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21508},
 													run: (*parser).callonListContinuation31,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29491,28 +29927,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29521,9 +29957,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -29533,10 +29969,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1539, col: 25, offset: 49739},
+												pos:   position{line: 1539, col: 25, offset: 49777},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1539, col: 27, offset: 49741},
+													pos:  position{line: 1539, col: 27, offset: 49779},
 													name: "ListContinuationElement",
 												},
 											},
@@ -29551,46 +29987,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1546, col: 1, offset: 49927},
+			pos:  position{line: 1546, col: 1, offset: 49965},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 49973},
+				pos: position{line: 1547, col: 5, offset: 50011},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 49973},
+					pos: position{line: 1547, col: 5, offset: 50011},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1548, col: 5, offset: 50001},
+							pos: position{line: 1548, col: 5, offset: 50039},
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47919},
+								pos: position{line: 1485, col: 5, offset: 47957},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50893},
+										pos: position{line: 1578, col: 5, offset: 50931},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50893},
+											pos: position{line: 1578, col: 5, offset: 50931},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50893},
+													pos:   position{line: 1578, col: 5, offset: 50931},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51101},
+														pos: position{line: 1585, col: 5, offset: 51139},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51101},
+															pos: position{line: 1585, col: 5, offset: 51139},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51101},
+																	pos: position{line: 1585, col: 5, offset: 51139},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29599,27 +30035,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51108},
+																	pos:   position{line: 1585, col: 12, offset: 51146},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51171},
+																		pos: position{line: 1587, col: 9, offset: 51209},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51171},
+																				pos: position{line: 1587, col: 9, offset: 51209},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51171},
+																					pos: position{line: 1587, col: 9, offset: 51209},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51171},
+																							pos:   position{line: 1587, col: 9, offset: 51209},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51178},
+																								pos: position{line: 1587, col: 16, offset: 51216},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51178},
+																									pos: position{line: 1587, col: 16, offset: 51216},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51179},
+																										pos:        position{line: 1587, col: 17, offset: 51217},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29628,22 +30064,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51279},
+																							pos: position{line: 1591, col: 9, offset: 51317},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51996},
+																				pos: position{line: 1610, col: 11, offset: 52034},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51996},
+																					pos: position{line: 1610, col: 11, offset: 52034},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51996},
+																							pos: position{line: 1610, col: 11, offset: 52034},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51997},
+																								pos:        position{line: 1610, col: 12, offset: 52035},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29651,7 +30087,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52005},
+																							pos:        position{line: 1610, col: 20, offset: 52043},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29660,20 +30096,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52122},
+																				pos: position{line: 1612, col: 13, offset: 52160},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52122},
+																					pos: position{line: 1612, col: 13, offset: 52160},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52123},
+																							pos:        position{line: 1612, col: 14, offset: 52161},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52130},
+																							pos:        position{line: 1612, col: 21, offset: 52168},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29682,20 +30118,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52250},
+																				pos: position{line: 1614, col: 13, offset: 52288},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52250},
+																					pos: position{line: 1614, col: 13, offset: 52288},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52251},
+																							pos:        position{line: 1614, col: 14, offset: 52289},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52258},
+																							pos:        position{line: 1614, col: 21, offset: 52296},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29704,15 +30140,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52378},
+																				pos: position{line: 1616, col: 13, offset: 52416},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52378},
+																					pos: position{line: 1616, col: 13, offset: 52416},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52378},
+																							pos: position{line: 1616, col: 13, offset: 52416},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52379},
+																								pos:        position{line: 1616, col: 14, offset: 52417},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29720,7 +30156,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52391},
+																							pos:        position{line: 1616, col: 26, offset: 52429},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29729,15 +30165,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52511},
+																				pos: position{line: 1618, col: 13, offset: 52549},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52511},
+																					pos: position{line: 1618, col: 13, offset: 52549},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52511},
+																							pos: position{line: 1618, col: 13, offset: 52549},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52512},
+																								pos:        position{line: 1618, col: 14, offset: 52550},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29745,7 +30181,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52524},
+																							pos:        position{line: 1618, col: 26, offset: 52562},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29757,12 +30193,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29775,26 +30211,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50932},
+													pos:   position{line: 1579, col: 5, offset: 50970},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29805,28 +30241,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29835,9 +30271,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -29850,27 +30286,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52790},
+										pos: position{line: 1628, col: 5, offset: 52828},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52790},
+											pos: position{line: 1628, col: 5, offset: 52828},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52790},
+													pos:   position{line: 1628, col: 5, offset: 52828},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53063},
+														pos: position{line: 1635, col: 5, offset: 53101},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53063},
+															pos: position{line: 1635, col: 5, offset: 53101},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53063},
+																	pos: position{line: 1635, col: 5, offset: 53101},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29879,24 +30315,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53075},
+																	pos:   position{line: 1636, col: 5, offset: 53113},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53091},
+																		pos: position{line: 1637, col: 9, offset: 53129},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53092},
+																			pos: position{line: 1637, col: 10, offset: 53130},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53093},
+																					pos:        position{line: 1637, col: 11, offset: 53131},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53100},
+																					pos: position{line: 1637, col: 18, offset: 53138},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53101},
+																						pos:        position{line: 1637, col: 19, offset: 53139},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29907,16 +30343,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53191},
+																	pos: position{line: 1640, col: 7, offset: 53229},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29929,56 +30365,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52831},
+													pos:   position{line: 1629, col: 5, offset: 52869},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52842},
+														pos: position{line: 1629, col: 16, offset: 52880},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53456},
+															pos: position{line: 1650, col: 5, offset: 53494},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53456},
+																pos: position{line: 1650, col: 5, offset: 53494},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53456},
+																		pos: position{line: 1650, col: 5, offset: 53494},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53457},
+																			pos:        position{line: 1650, col: 6, offset: 53495},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53461},
+																		pos:   position{line: 1650, col: 10, offset: 53499},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53475},
+																			pos: position{line: 1651, col: 7, offset: 53513},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53475},
+																					pos: position{line: 1651, col: 7, offset: 53513},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53475},
+																						pos:        position{line: 1651, col: 7, offset: 53513},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53520},
+																					pos: position{line: 1652, col: 7, offset: 53558},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53520},
+																						pos:        position{line: 1652, col: 7, offset: 53558},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53563},
+																					pos: position{line: 1653, col: 7, offset: 53601},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53563},
+																						pos:        position{line: 1653, col: 7, offset: 53601},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29988,12 +30424,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2865, col: 11, offset: 90650},
+																			pos: position{line: 2865, col: 11, offset: 90688},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90650},
+																				pos:        position{line: 2865, col: 11, offset: 90688},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30007,26 +30443,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52881},
+													pos:   position{line: 1630, col: 5, offset: 52919},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30037,28 +30473,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30067,9 +30503,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -30082,36 +30518,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55403},
+										pos: position{line: 1718, col: 5, offset: 55441},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55403},
+											pos: position{line: 1718, col: 5, offset: 55441},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55403},
+													pos:   position{line: 1718, col: 5, offset: 55441},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55600},
+														pos: position{line: 1724, col: 5, offset: 55638},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55600},
+															pos: position{line: 1724, col: 5, offset: 55638},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55600},
+																	pos:        position{line: 1724, col: 5, offset: 55638},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55604},
+																	pos:   position{line: 1724, col: 9, offset: 55642},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55609},
+																		pos: position{line: 1724, col: 14, offset: 55647},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55609},
+																			pos: position{line: 1724, col: 14, offset: 55647},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55609},
+																				pos:        position{line: 1724, col: 14, offset: 55647},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30121,18 +30557,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55657},
+																	pos:        position{line: 1724, col: 62, offset: 55695},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30145,26 +30581,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55439},
+													pos:   position{line: 1719, col: 5, offset: 55477},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49399},
+														pos: position{line: 1526, col: 5, offset: 49437},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49399},
+															pos: position{line: 1526, col: 5, offset: 49437},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49399},
+																	pos:   position{line: 1526, col: 5, offset: 49437},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49408},
+																		pos: position{line: 1526, col: 14, offset: 49446},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49409},
+																			pos: position{line: 1526, col: 15, offset: 49447},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49409},
+																				pos: position{line: 1526, col: 15, offset: 49447},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49409},
+																					pos:        position{line: 1526, col: 15, offset: 49447},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30175,28 +30611,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30205,9 +30641,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -30220,40 +30656,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53756},
+										pos: position{line: 1662, col: 5, offset: 53794},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53756},
+											pos: position{line: 1662, col: 5, offset: 53794},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53756},
+													pos:   position{line: 1662, col: 5, offset: 53794},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54082},
+														pos: position{line: 1670, col: 5, offset: 54120},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54082},
+															pos: position{line: 1670, col: 5, offset: 54120},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54083},
+																pos: position{line: 1670, col: 6, offset: 54121},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54083},
+																		pos: position{line: 1670, col: 6, offset: 54121},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54233},
+																			pos: position{line: 1675, col: 5, offset: 54271},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54233},
+																				pos: position{line: 1675, col: 5, offset: 54271},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54233},
+																						pos:   position{line: 1675, col: 5, offset: 54271},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54244},
+																							pos: position{line: 1675, col: 16, offset: 54282},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54244},
+																								pos: position{line: 1675, col: 16, offset: 54282},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54245},
+																									pos:        position{line: 1675, col: 17, offset: 54283},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30262,7 +30698,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54302},
+																						pos: position{line: 1678, col: 5, offset: 54340},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30270,30 +30706,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54112},
+																		pos: position{line: 1670, col: 35, offset: 54150},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30302,16 +30738,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54117,
+																		line: 1670, col: 40, offset: 54155,
 																	},
 																},
 															},
@@ -30319,24 +30755,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53791},
+													pos:   position{line: 1663, col: 5, offset: 53829},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54233},
+														pos: position{line: 1675, col: 5, offset: 54271},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54233},
+															pos: position{line: 1675, col: 5, offset: 54271},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54233},
+																	pos:   position{line: 1675, col: 5, offset: 54271},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54244},
+																		pos: position{line: 1675, col: 16, offset: 54282},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54244},
+																			pos: position{line: 1675, col: 16, offset: 54282},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54245},
+																				pos:        position{line: 1675, col: 17, offset: 54283},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30345,7 +30781,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54302},
+																	pos: position{line: 1678, col: 5, offset: 54340},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30353,24 +30789,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53836},
+													pos:   position{line: 1664, col: 5, offset: 53874},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54551},
+														pos: position{line: 1686, col: 5, offset: 54589},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54617},
+																pos: position{line: 1688, col: 9, offset: 54655},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54617},
+																	pos: position{line: 1688, col: 9, offset: 54655},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54617},
+																			pos: position{line: 1688, col: 9, offset: 54655},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30379,28 +30815,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30409,34 +30845,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54636},
+																			pos: position{line: 1689, col: 9, offset: 54674},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21508},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21508},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90923},
+																							pos: position{line: 2878, col: 11, offset: 90961},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90925,
+																								line: 2878, col: 13, offset: 90963,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21515},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30445,28 +30881,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30475,9 +30911,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -30490,18 +30926,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54765},
+																pos: position{line: 1695, col: 9, offset: 54803},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54765},
+																	pos: position{line: 1695, col: 9, offset: 54803},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90650},
+																			pos: position{line: 2865, col: 11, offset: 90688},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2865, col: 11, offset: 90650},
+																				pos: position{line: 2865, col: 11, offset: 90688},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90650},
+																					pos:        position{line: 2865, col: 11, offset: 90688},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30510,15 +30946,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54838},
+																			pos:   position{line: 1696, col: 9, offset: 54876},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54847},
+																				pos: position{line: 1696, col: 18, offset: 54885},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54847},
+																					pos: position{line: 1696, col: 18, offset: 54885},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54847},
+																						pos:        position{line: 1696, col: 18, offset: 54885},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30528,28 +30964,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30558,9 +30994,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -30578,41 +31014,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 50018},
+							pos:   position{line: 1549, col: 5, offset: 50056},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1549, col: 16, offset: 50029},
+								pos: position{line: 1549, col: 16, offset: 50067},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1549, col: 17, offset: 50030},
+									pos:  position{line: 1549, col: 17, offset: 50068},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50052},
+							pos:   position{line: 1550, col: 5, offset: 50090},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1551, col: 9, offset: 50070},
+								pos: position{line: 1551, col: 9, offset: 50108},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21489},
+										pos: position{line: 677, col: 14, offset: 21508},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21508},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2878, col: 11, offset: 90923},
+													pos: position{line: 2878, col: 11, offset: 90961},
 													expr: &anyMatcher{
-														line: 2878, col: 13, offset: 90925,
+														line: 2878, col: 13, offset: 90963,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21496},
+													pos: position{line: 677, col: 21, offset: 21515},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30621,28 +31057,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30651,9 +31087,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -30662,7 +31098,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1552, col: 11, offset: 50090},
+										pos:  position{line: 1552, col: 11, offset: 50128},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30718,10 +31154,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30730,28 +31166,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30760,9 +31196,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -30823,10 +31259,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30835,28 +31271,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30865,9 +31301,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -30876,39 +31312,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26362},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26362},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 820, col: 5, offset: 26362},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23622},
 														run: (*parser).callonListContinuationElement293,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23622},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23622},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23633},
 																		run: (*parser).callonListContinuationElement296,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23633},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23633},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23640},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23640},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -30919,12 +31355,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30933,28 +31369,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30963,9 +31399,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -30975,56 +31411,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 821, col: 5, offset: 26401},
 													run: (*parser).callonListContinuationElement312,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 824, col: 5, offset: 26493},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26847},
+														pos: position{line: 839, col: 5, offset: 26885},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26848},
+															pos: position{line: 839, col: 6, offset: 26886},
 															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26848},
+																pos: position{line: 839, col: 6, offset: 26886},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26848},
+																		pos: position{line: 839, col: 6, offset: 26886},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26689},
+																			pos: position{line: 832, col: 5, offset: 26727},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26689},
+																					pos: position{line: 832, col: 5, offset: 26727},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26689},
+																							pos:   position{line: 832, col: 5, offset: 26727},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23622},
 																								run: (*parser).callonListContinuationElement321,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23622},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23622},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23633},
 																												run: (*parser).callonListContinuationElement324,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23633},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23633},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23640},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23640},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31035,12 +31471,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31049,28 +31485,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31079,9 +31515,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -31091,45 +31527,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26720},
+																							pos: position{line: 833, col: 5, offset: 26758},
 																							run: (*parser).callonListContinuationElement340,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26878},
+																		pos:   position{line: 840, col: 5, offset: 26916},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31139,28 +31575,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31169,9 +31605,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -31186,41 +31622,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26489},
+													pos: position{line: 825, col: 5, offset: 26527},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26689},
+														pos: position{line: 832, col: 5, offset: 26727},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26689},
+																pos: position{line: 832, col: 5, offset: 26727},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26689},
+																		pos:   position{line: 832, col: 5, offset: 26727},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23622},
 																			run: (*parser).callonListContinuationElement364,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23622},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23622},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23633},
 																							run: (*parser).callonListContinuationElement367,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23633},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23633},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23640},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23640},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -31231,12 +31667,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31245,28 +31681,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31275,9 +31711,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -31287,15 +31723,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26720},
+																		pos: position{line: 833, col: 5, offset: 26758},
 																		run: (*parser).callonListContinuationElement383,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -31305,39 +31741,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 848, col: 5, offset: 27031},
+										pos: position{line: 848, col: 5, offset: 27069},
 										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 848, col: 5, offset: 27031},
+											pos: position{line: 848, col: 5, offset: 27069},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 848, col: 5, offset: 27031},
+													pos:   position{line: 848, col: 5, offset: 27069},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23832},
+														pos: position{line: 747, col: 5, offset: 23870},
 														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23870},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23832},
+																	pos:   position{line: 747, col: 5, offset: 23870},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23843},
+																		pos: position{line: 747, col: 16, offset: 23881},
 																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23881},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23843},
+																					pos:        position{line: 747, col: 16, offset: 23881},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23850},
+																					pos: position{line: 747, col: 23, offset: 23888},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23850},
+																						pos:        position{line: 747, col: 23, offset: 23888},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31348,12 +31784,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23934},
+																	pos: position{line: 749, col: 8, offset: 23972},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31362,28 +31798,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31392,9 +31828,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -31404,56 +31840,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 849, col: 5, offset: 27070},
+													pos: position{line: 849, col: 5, offset: 27108},
 													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 852, col: 5, offset: 27162},
+													pos:   position{line: 852, col: 5, offset: 27200},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 867, col: 4, offset: 27559},
+														pos: position{line: 867, col: 4, offset: 27597},
 														expr: &actionExpr{
-															pos: position{line: 867, col: 5, offset: 27560},
+															pos: position{line: 867, col: 5, offset: 27598},
 															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 867, col: 5, offset: 27560},
+																pos: position{line: 867, col: 5, offset: 27598},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 867, col: 5, offset: 27560},
+																		pos: position{line: 867, col: 5, offset: 27598},
 																		expr: &choiceExpr{
-																			pos: position{line: 860, col: 5, offset: 27402},
+																			pos: position{line: 860, col: 5, offset: 27440},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 860, col: 5, offset: 27402},
+																					pos: position{line: 860, col: 5, offset: 27440},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 860, col: 5, offset: 27402},
+																							pos:   position{line: 860, col: 5, offset: 27440},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 747, col: 5, offset: 23870},
 																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23870},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 747, col: 5, offset: 23870},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 747, col: 16, offset: 23881},
 																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23881},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 747, col: 16, offset: 23881},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 747, col: 23, offset: 23888},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 747, col: 23, offset: 23888},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31464,12 +31900,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 749, col: 8, offset: 23972},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31478,28 +31914,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31508,9 +31944,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -31520,45 +31956,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 861, col: 5, offset: 27433},
+																							pos: position{line: 861, col: 5, offset: 27471},
 																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 868, col: 5, offset: 27590},
+																		pos:   position{line: 868, col: 5, offset: 27628},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31568,28 +32004,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31598,9 +32034,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -31615,44 +32051,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27196},
+													pos:   position{line: 853, col: 5, offset: 27234},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 853, col: 9, offset: 27200},
+														pos: position{line: 853, col: 9, offset: 27238},
 														expr: &choiceExpr{
-															pos: position{line: 860, col: 5, offset: 27402},
+															pos: position{line: 860, col: 5, offset: 27440},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 860, col: 5, offset: 27402},
+																	pos: position{line: 860, col: 5, offset: 27440},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27402},
+																			pos:   position{line: 860, col: 5, offset: 27440},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23870},
 																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23870},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 747, col: 5, offset: 23870},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23881},
 																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23881},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 747, col: 16, offset: 23881},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 747, col: 23, offset: 23888},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 747, col: 23, offset: 23888},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31663,12 +32099,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 749, col: 8, offset: 23972},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31677,28 +32113,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31707,9 +32143,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -31719,15 +32155,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 861, col: 5, offset: 27433},
+																			pos: position{line: 861, col: 5, offset: 27471},
 																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -31738,36 +32174,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 960, col: 5, offset: 29882},
+										pos: position{line: 960, col: 5, offset: 29920},
 										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 960, col: 5, offset: 29882},
+											pos: position{line: 960, col: 5, offset: 29920},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 960, col: 5, offset: 29882},
+													pos:   position{line: 960, col: 5, offset: 29920},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24320},
+														pos: position{line: 760, col: 26, offset: 24358},
 														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24358},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24320},
+																	pos:        position{line: 760, col: 26, offset: 24358},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24326},
+																	pos:   position{line: 760, col: 32, offset: 24364},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24456},
+																		pos: position{line: 764, col: 13, offset: 24494},
 																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24457},
+																			pos: position{line: 764, col: 14, offset: 24495},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24457},
+																				pos:        position{line: 764, col: 14, offset: 24495},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -31777,12 +32213,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24346},
+																	pos: position{line: 760, col: 52, offset: 24384},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31791,28 +32227,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31821,9 +32257,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -31833,34 +32269,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 961, col: 5, offset: 29928},
+													pos:   position{line: 961, col: 5, offset: 29966},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 974, col: 5, offset: 30401},
+														pos: position{line: 974, col: 5, offset: 30439},
 														expr: &actionExpr{
-															pos: position{line: 974, col: 6, offset: 30402},
+															pos: position{line: 974, col: 6, offset: 30440},
 															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 974, col: 6, offset: 30402},
+																pos: position{line: 974, col: 6, offset: 30440},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 974, col: 6, offset: 30402},
+																		pos: position{line: 974, col: 6, offset: 30440},
 																		expr: &seqExpr{
-																			pos: position{line: 971, col: 34, offset: 30349},
+																			pos: position{line: 971, col: 34, offset: 30387},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 971, col: 34, offset: 30349},
+																					pos:        position{line: 971, col: 34, offset: 30387},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 971, col: 40, offset: 30355},
+																					pos: position{line: 971, col: 40, offset: 30393},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31869,28 +32305,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31899,9 +32335,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -31910,30 +32346,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 975, col: 5, offset: 30437},
+																		pos:   position{line: 975, col: 5, offset: 30475},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31943,28 +32379,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31973,9 +32409,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -31990,23 +32426,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 962, col: 5, offset: 29967},
+													pos: position{line: 962, col: 5, offset: 30005},
 													expr: &seqExpr{
-														pos: position{line: 971, col: 34, offset: 30349},
+														pos: position{line: 971, col: 34, offset: 30387},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 971, col: 34, offset: 30349},
+																pos:        position{line: 971, col: 34, offset: 30387},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 971, col: 40, offset: 30355},
+																pos: position{line: 971, col: 40, offset: 30393},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32015,28 +32451,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32045,9 +32481,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -32059,39 +32495,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 876, col: 5, offset: 27743},
+										pos: position{line: 876, col: 5, offset: 27781},
 										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 876, col: 5, offset: 27743},
+											pos: position{line: 876, col: 5, offset: 27781},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 876, col: 5, offset: 27743},
+													pos:   position{line: 876, col: 5, offset: 27781},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24079},
+														pos: position{line: 754, col: 5, offset: 24117},
 														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24117},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24079},
+																	pos:   position{line: 754, col: 5, offset: 24117},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24090},
+																		pos: position{line: 754, col: 16, offset: 24128},
 																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24128},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24090},
+																					pos:        position{line: 754, col: 16, offset: 24128},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24096},
+																					pos: position{line: 754, col: 22, offset: 24134},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24096},
+																						pos:        position{line: 754, col: 22, offset: 24134},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32102,12 +32538,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24180},
+																	pos: position{line: 756, col: 8, offset: 24218},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32116,28 +32552,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32146,9 +32582,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -32158,56 +32594,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 877, col: 5, offset: 27781},
+													pos: position{line: 877, col: 5, offset: 27819},
 													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 880, col: 5, offset: 27873},
+													pos:   position{line: 880, col: 5, offset: 27911},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 895, col: 5, offset: 28263},
+														pos: position{line: 895, col: 5, offset: 28301},
 														expr: &actionExpr{
-															pos: position{line: 895, col: 6, offset: 28264},
+															pos: position{line: 895, col: 6, offset: 28302},
 															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 895, col: 6, offset: 28264},
+																pos: position{line: 895, col: 6, offset: 28302},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 895, col: 6, offset: 28264},
+																		pos: position{line: 895, col: 6, offset: 28302},
 																		expr: &choiceExpr{
-																			pos: position{line: 888, col: 5, offset: 28107},
+																			pos: position{line: 888, col: 5, offset: 28145},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 888, col: 5, offset: 28107},
+																					pos: position{line: 888, col: 5, offset: 28145},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 888, col: 5, offset: 28107},
+																							pos:   position{line: 888, col: 5, offset: 28145},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 754, col: 5, offset: 24117},
 																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24117},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 754, col: 5, offset: 24117},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 754, col: 16, offset: 24128},
 																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24128},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 754, col: 16, offset: 24128},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 754, col: 22, offset: 24134},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 754, col: 22, offset: 24134},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32218,12 +32654,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 756, col: 8, offset: 24218},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32232,28 +32668,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32262,9 +32698,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -32274,45 +32710,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 889, col: 5, offset: 28137},
+																							pos: position{line: 889, col: 5, offset: 28175},
 																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 896, col: 5, offset: 28293},
+																		pos:   position{line: 896, col: 5, offset: 28331},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32322,28 +32758,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32352,9 +32788,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -32369,44 +32805,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 27906},
+													pos:   position{line: 881, col: 5, offset: 27944},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 881, col: 9, offset: 27910},
+														pos: position{line: 881, col: 9, offset: 27948},
 														expr: &choiceExpr{
-															pos: position{line: 888, col: 5, offset: 28107},
+															pos: position{line: 888, col: 5, offset: 28145},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 888, col: 5, offset: 28107},
+																	pos: position{line: 888, col: 5, offset: 28145},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28107},
+																			pos:   position{line: 888, col: 5, offset: 28145},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24117},
 																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24117},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 754, col: 5, offset: 24117},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24128},
 																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24128},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 754, col: 16, offset: 24128},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 754, col: 22, offset: 24134},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 754, col: 22, offset: 24134},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32417,12 +32853,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 756, col: 8, offset: 24218},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32431,28 +32867,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32461,9 +32897,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -32473,15 +32909,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 889, col: 5, offset: 28137},
+																			pos: position{line: 889, col: 5, offset: 28175},
 																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -32492,39 +32928,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 904, col: 5, offset: 28448},
+										pos: position{line: 904, col: 5, offset: 28486},
 										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 904, col: 5, offset: 28448},
+											pos: position{line: 904, col: 5, offset: 28486},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 904, col: 5, offset: 28448},
+													pos:   position{line: 904, col: 5, offset: 28486},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24616},
+														pos: position{line: 769, col: 5, offset: 24654},
 														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24654},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24616},
+																	pos:   position{line: 769, col: 5, offset: 24654},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24627},
+																		pos: position{line: 769, col: 16, offset: 24665},
 																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24665},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24627},
+																					pos:        position{line: 769, col: 16, offset: 24665},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24634},
+																					pos: position{line: 769, col: 23, offset: 24672},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24634},
+																						pos:        position{line: 769, col: 23, offset: 24672},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32535,12 +32971,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24718},
+																	pos: position{line: 771, col: 8, offset: 24756},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32549,28 +32985,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32579,9 +33015,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -32591,56 +33027,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 905, col: 5, offset: 28487},
+													pos: position{line: 905, col: 5, offset: 28525},
 													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 908, col: 5, offset: 28579},
+													pos:   position{line: 908, col: 5, offset: 28617},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 923, col: 5, offset: 28977},
+														pos: position{line: 923, col: 5, offset: 29015},
 														expr: &actionExpr{
-															pos: position{line: 923, col: 6, offset: 28978},
+															pos: position{line: 923, col: 6, offset: 29016},
 															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 923, col: 6, offset: 28978},
+																pos: position{line: 923, col: 6, offset: 29016},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 923, col: 6, offset: 28978},
+																		pos: position{line: 923, col: 6, offset: 29016},
 																		expr: &choiceExpr{
-																			pos: position{line: 916, col: 5, offset: 28819},
+																			pos: position{line: 916, col: 5, offset: 28857},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 916, col: 5, offset: 28819},
+																					pos: position{line: 916, col: 5, offset: 28857},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 916, col: 5, offset: 28819},
+																							pos:   position{line: 916, col: 5, offset: 28857},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 769, col: 5, offset: 24654},
 																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24654},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 769, col: 5, offset: 24654},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 769, col: 16, offset: 24665},
 																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24665},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 769, col: 16, offset: 24665},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 769, col: 23, offset: 24672},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 769, col: 23, offset: 24672},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32651,12 +33087,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 771, col: 8, offset: 24756},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32665,28 +33101,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32695,9 +33131,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -32707,45 +33143,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 917, col: 5, offset: 28850},
+																							pos: position{line: 917, col: 5, offset: 28888},
 																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 924, col: 5, offset: 29008},
+																		pos:   position{line: 924, col: 5, offset: 29046},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32755,28 +33191,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32785,9 +33221,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -32802,44 +33238,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28613},
+													pos:   position{line: 909, col: 5, offset: 28651},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 909, col: 9, offset: 28617},
+														pos: position{line: 909, col: 9, offset: 28655},
 														expr: &choiceExpr{
-															pos: position{line: 916, col: 5, offset: 28819},
+															pos: position{line: 916, col: 5, offset: 28857},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 916, col: 5, offset: 28819},
+																	pos: position{line: 916, col: 5, offset: 28857},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28819},
+																			pos:   position{line: 916, col: 5, offset: 28857},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24654},
 																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24654},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 769, col: 5, offset: 24654},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24665},
 																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24665},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 769, col: 16, offset: 24665},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 769, col: 23, offset: 24672},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 769, col: 23, offset: 24672},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32850,12 +33286,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 771, col: 8, offset: 24756},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32864,28 +33300,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32894,9 +33330,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -32906,15 +33342,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 917, col: 5, offset: 28850},
+																			pos: position{line: 917, col: 5, offset: 28888},
 																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -32925,39 +33361,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 932, col: 5, offset: 29163},
+										pos: position{line: 932, col: 5, offset: 29201},
 										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 932, col: 5, offset: 29163},
+											pos: position{line: 932, col: 5, offset: 29201},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 932, col: 5, offset: 29163},
+													pos:   position{line: 932, col: 5, offset: 29201},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25092},
+														pos: position{line: 783, col: 5, offset: 25130},
 														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25130},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25092},
+																	pos:   position{line: 783, col: 5, offset: 25130},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25103},
+																		pos: position{line: 783, col: 16, offset: 25141},
 																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25141},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25103},
+																					pos:        position{line: 783, col: 16, offset: 25141},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25110},
+																					pos: position{line: 783, col: 23, offset: 25148},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25110},
+																						pos:        position{line: 783, col: 23, offset: 25148},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32968,12 +33404,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25194},
+																	pos: position{line: 785, col: 8, offset: 25232},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32982,28 +33418,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33012,9 +33448,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -33024,56 +33460,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 933, col: 5, offset: 29202},
+													pos: position{line: 933, col: 5, offset: 29240},
 													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 936, col: 5, offset: 29294},
+													pos:   position{line: 936, col: 5, offset: 29332},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 951, col: 5, offset: 29692},
+														pos: position{line: 951, col: 5, offset: 29730},
 														expr: &actionExpr{
-															pos: position{line: 951, col: 6, offset: 29693},
+															pos: position{line: 951, col: 6, offset: 29731},
 															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 951, col: 6, offset: 29693},
+																pos: position{line: 951, col: 6, offset: 29731},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 951, col: 6, offset: 29693},
+																		pos: position{line: 951, col: 6, offset: 29731},
 																		expr: &choiceExpr{
-																			pos: position{line: 944, col: 5, offset: 29534},
+																			pos: position{line: 944, col: 5, offset: 29572},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 944, col: 5, offset: 29534},
+																					pos: position{line: 944, col: 5, offset: 29572},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 944, col: 5, offset: 29534},
+																							pos:   position{line: 944, col: 5, offset: 29572},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 783, col: 5, offset: 25130},
 																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25130},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 783, col: 5, offset: 25130},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 783, col: 16, offset: 25141},
 																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25141},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 783, col: 16, offset: 25141},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 783, col: 23, offset: 25148},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 783, col: 23, offset: 25148},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33084,12 +33520,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 785, col: 8, offset: 25232},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33098,28 +33534,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33128,9 +33564,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -33140,45 +33576,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 945, col: 5, offset: 29565},
+																							pos: position{line: 945, col: 5, offset: 29603},
 																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 952, col: 5, offset: 29723},
+																		pos:   position{line: 952, col: 5, offset: 29761},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33188,28 +33624,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33218,9 +33654,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -33235,44 +33671,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29328},
+													pos:   position{line: 937, col: 5, offset: 29366},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 937, col: 9, offset: 29332},
+														pos: position{line: 937, col: 9, offset: 29370},
 														expr: &choiceExpr{
-															pos: position{line: 944, col: 5, offset: 29534},
+															pos: position{line: 944, col: 5, offset: 29572},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 944, col: 5, offset: 29534},
+																	pos: position{line: 944, col: 5, offset: 29572},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29534},
+																			pos:   position{line: 944, col: 5, offset: 29572},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25130},
 																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25130},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 783, col: 5, offset: 25130},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25141},
 																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25141},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 783, col: 16, offset: 25141},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 783, col: 23, offset: 25148},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 783, col: 23, offset: 25148},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33283,12 +33719,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 785, col: 8, offset: 25232},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33297,28 +33733,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33327,9 +33763,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -33339,15 +33775,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 945, col: 5, offset: 29565},
+																			pos: position{line: 945, col: 5, offset: 29603},
 																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -33358,41 +33794,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 983, col: 5, offset: 30606},
+										pos: position{line: 983, col: 5, offset: 30644},
 										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 983, col: 5, offset: 30606},
+											pos: position{line: 983, col: 5, offset: 30644},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 983, col: 5, offset: 30606},
+													pos:   position{line: 983, col: 5, offset: 30644},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 990, col: 5, offset: 30865},
+														pos: position{line: 990, col: 5, offset: 30903},
 														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 990, col: 5, offset: 30865},
+															pos: position{line: 990, col: 5, offset: 30903},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 990, col: 5, offset: 30865},
+																	pos: position{line: 990, col: 5, offset: 30903},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21508},
 																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90923},
+																					pos: position{line: 2878, col: 11, offset: 90961},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90925,
+																						line: 2878, col: 13, offset: 90963,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33401,28 +33837,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33431,9 +33867,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -33443,21 +33879,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 991, col: 5, offset: 30880},
+																	pos:        position{line: 991, col: 5, offset: 30918},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 992, col: 5, offset: 30890},
+																	pos:   position{line: 992, col: 5, offset: 30928},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2811, col: 14, offset: 89182},
+																		pos: position{line: 2811, col: 14, offset: 89220},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2811, col: 14, offset: 89182},
+																			pos: position{line: 2811, col: 14, offset: 89220},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2811, col: 14, offset: 89182},
+																				pos:        position{line: 2811, col: 14, offset: 89220},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33467,28 +33903,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33497,9 +33933,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -33509,40 +33945,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30643},
+													pos:   position{line: 984, col: 5, offset: 30681},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 984, col: 16, offset: 30654},
+														pos: position{line: 984, col: 16, offset: 30692},
 														expr: &choiceExpr{
-															pos: position{line: 984, col: 17, offset: 30655},
+															pos: position{line: 984, col: 17, offset: 30693},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 990, col: 5, offset: 30865},
+																	pos: position{line: 990, col: 5, offset: 30903},
 																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 990, col: 5, offset: 30865},
+																		pos: position{line: 990, col: 5, offset: 30903},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 990, col: 5, offset: 30865},
+																				pos: position{line: 990, col: 5, offset: 30903},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21508},
 																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21508},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2878, col: 11, offset: 90923},
+																								pos: position{line: 2878, col: 11, offset: 90961},
 																								expr: &anyMatcher{
-																									line: 2878, col: 13, offset: 90925,
+																									line: 2878, col: 13, offset: 90963,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 677, col: 21, offset: 21515},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33551,28 +33987,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33581,9 +34017,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -33593,21 +34029,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 991, col: 5, offset: 30880},
+																				pos:        position{line: 991, col: 5, offset: 30918},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 992, col: 5, offset: 30890},
+																				pos:   position{line: 992, col: 5, offset: 30928},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2811, col: 14, offset: 89182},
+																					pos: position{line: 2811, col: 14, offset: 89220},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2811, col: 14, offset: 89182},
+																						pos: position{line: 2811, col: 14, offset: 89220},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2811, col: 14, offset: 89182},
+																							pos:        position{line: 2811, col: 14, offset: 89220},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33617,28 +34053,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 90987},
+																				pos: position{line: 2883, col: 8, offset: 91025},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90760},
+																						pos: position{line: 2870, col: 12, offset: 90798},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90761},
+																							pos: position{line: 2870, col: 13, offset: 90799},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90761},
+																									pos:        position{line: 2870, col: 13, offset: 90799},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90768},
+																									pos:        position{line: 2870, col: 20, offset: 90806},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90777},
+																									pos:        position{line: 2870, col: 29, offset: 90815},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33647,9 +34083,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
@@ -33658,21 +34094,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1793, col: 5, offset: 57955},
+																	pos: position{line: 1793, col: 5, offset: 57993},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1793, col: 5, offset: 57955},
+																		pos: position{line: 1793, col: 5, offset: 57993},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1793, col: 5, offset: 57955},
+																				pos:   position{line: 1793, col: 5, offset: 57993},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2811, col: 14, offset: 89182},
+																					pos: position{line: 2811, col: 14, offset: 89220},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2811, col: 14, offset: 89182},
+																						pos: position{line: 2811, col: 14, offset: 89220},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2811, col: 14, offset: 89182},
+																							pos:        position{line: 2811, col: 14, offset: 89220},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33682,32 +34118,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1794, col: 5, offset: 57979},
+																				pos: position{line: 1794, col: 5, offset: 58017},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 90987},
+																				pos: position{line: 2883, col: 8, offset: 91025},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90760},
+																						pos: position{line: 2870, col: 12, offset: 90798},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90761},
+																							pos: position{line: 2870, col: 13, offset: 90799},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90761},
+																									pos:        position{line: 2870, col: 13, offset: 90799},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90768},
+																									pos:        position{line: 2870, col: 20, offset: 90806},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90777},
+																									pos:        position{line: 2870, col: 29, offset: 90815},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33716,9 +34152,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
@@ -33734,28 +34170,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1005, col: 5, offset: 31155},
+										pos: position{line: 1005, col: 5, offset: 31193},
 										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 1005, col: 5, offset: 31155},
+											pos: position{line: 1005, col: 5, offset: 31193},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1005, col: 5, offset: 31155},
+													pos:   position{line: 1005, col: 5, offset: 31193},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24861},
+														pos: position{line: 776, col: 5, offset: 24899},
 														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24899},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24861},
+																	pos:   position{line: 776, col: 5, offset: 24899},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24872},
+																		pos: position{line: 776, col: 16, offset: 24910},
 																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24872},
+																			pos:        position{line: 776, col: 16, offset: 24910},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33763,12 +34199,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24949},
+																	pos: position{line: 778, col: 8, offset: 24987},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33777,28 +34213,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33807,9 +34243,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -33819,35 +34255,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1006, col: 5, offset: 31191},
+													pos:   position{line: 1006, col: 5, offset: 31229},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1016, col: 5, offset: 31459},
+														pos: position{line: 1016, col: 5, offset: 31497},
 														expr: &actionExpr{
-															pos: position{line: 1016, col: 6, offset: 31460},
+															pos: position{line: 1016, col: 6, offset: 31498},
 															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1016, col: 6, offset: 31460},
+																pos: position{line: 1016, col: 6, offset: 31498},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1016, col: 6, offset: 31460},
+																		pos: position{line: 1016, col: 6, offset: 31498},
 																		expr: &choiceExpr{
-																			pos: position{line: 1013, col: 26, offset: 31408},
+																			pos: position{line: 1013, col: 26, offset: 31446},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 776, col: 5, offset: 24899},
 																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24899},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24861},
+																								pos:   position{line: 776, col: 5, offset: 24899},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24872},
+																									pos: position{line: 776, col: 16, offset: 24910},
 																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24872},
+																										pos:        position{line: 776, col: 16, offset: 24910},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33855,12 +34291,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24949},
+																								pos: position{line: 778, col: 8, offset: 24987},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33869,28 +34305,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33899,9 +34335,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -33910,39 +34346,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1017, col: 5, offset: 31487},
+																		pos:   position{line: 1017, col: 5, offset: 31525},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33952,28 +34388,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33982,9 +34418,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -33999,27 +34435,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1007, col: 5, offset: 31222},
+													pos:   position{line: 1007, col: 5, offset: 31260},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1007, col: 9, offset: 31226},
+														pos: position{line: 1007, col: 9, offset: 31264},
 														expr: &choiceExpr{
-															pos: position{line: 1013, col: 26, offset: 31408},
+															pos: position{line: 1013, col: 26, offset: 31446},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 776, col: 5, offset: 24899},
 																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24899},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24861},
+																				pos:   position{line: 776, col: 5, offset: 24899},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24872},
+																					pos: position{line: 776, col: 16, offset: 24910},
 																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24872},
+																						pos:        position{line: 776, col: 16, offset: 24910},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34027,12 +34463,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24949},
+																				pos: position{line: 778, col: 8, offset: 24987},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90589},
+																					pos: position{line: 2861, col: 10, offset: 90627},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90589},
+																						pos:        position{line: 2861, col: 10, offset: 90627},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34041,28 +34477,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 90987},
+																				pos: position{line: 2883, col: 8, offset: 91025},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90760},
+																						pos: position{line: 2870, col: 12, offset: 90798},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90761},
+																							pos: position{line: 2870, col: 13, offset: 90799},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90761},
+																									pos:        position{line: 2870, col: 13, offset: 90799},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90768},
+																									pos:        position{line: 2870, col: 20, offset: 90806},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90777},
+																									pos:        position{line: 2870, col: 29, offset: 90815},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34071,9 +34507,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
@@ -34082,9 +34518,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -34095,39 +34531,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1025, col: 5, offset: 31650},
+										pos: position{line: 1025, col: 5, offset: 31688},
 										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1025, col: 5, offset: 31650},
+											pos: position{line: 1025, col: 5, offset: 31688},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31650},
+													pos:   position{line: 1025, col: 5, offset: 31688},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25344},
+														pos: position{line: 790, col: 5, offset: 25382},
 														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25382},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25344},
+																	pos:   position{line: 790, col: 5, offset: 25382},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25355},
+																		pos: position{line: 790, col: 16, offset: 25393},
 																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25393},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25355},
+																					pos:        position{line: 790, col: 16, offset: 25393},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25362},
+																					pos: position{line: 790, col: 23, offset: 25400},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25362},
+																						pos:        position{line: 790, col: 23, offset: 25400},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34138,12 +34574,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25446},
+																	pos: position{line: 792, col: 8, offset: 25484},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34152,28 +34588,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34182,9 +34618,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -34194,56 +34630,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1026, col: 5, offset: 31693},
+													pos: position{line: 1026, col: 5, offset: 31731},
 													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1029, col: 5, offset: 31785},
+													pos:   position{line: 1029, col: 5, offset: 31823},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1044, col: 5, offset: 32215},
+														pos: position{line: 1044, col: 5, offset: 32253},
 														expr: &actionExpr{
-															pos: position{line: 1044, col: 6, offset: 32216},
+															pos: position{line: 1044, col: 6, offset: 32254},
 															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1044, col: 6, offset: 32216},
+																pos: position{line: 1044, col: 6, offset: 32254},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1044, col: 6, offset: 32216},
+																		pos: position{line: 1044, col: 6, offset: 32254},
 																		expr: &choiceExpr{
-																			pos: position{line: 1037, col: 5, offset: 32049},
+																			pos: position{line: 1037, col: 5, offset: 32087},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1037, col: 5, offset: 32049},
+																					pos: position{line: 1037, col: 5, offset: 32087},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1037, col: 5, offset: 32049},
+																							pos:   position{line: 1037, col: 5, offset: 32087},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 790, col: 5, offset: 25382},
 																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25382},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 790, col: 5, offset: 25382},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 790, col: 16, offset: 25393},
 																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25393},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 790, col: 16, offset: 25393},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 790, col: 23, offset: 25400},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 790, col: 23, offset: 25400},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34254,12 +34690,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 792, col: 8, offset: 25484},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34268,28 +34704,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34298,9 +34734,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -34310,45 +34746,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1038, col: 5, offset: 32084},
+																							pos: position{line: 1038, col: 5, offset: 32122},
 																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1045, col: 5, offset: 32250},
+																		pos:   position{line: 1045, col: 5, offset: 32288},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34358,28 +34794,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34388,9 +34824,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -34405,44 +34841,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 31823},
+													pos:   position{line: 1030, col: 5, offset: 31861},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1030, col: 9, offset: 31827},
+														pos: position{line: 1030, col: 9, offset: 31865},
 														expr: &choiceExpr{
-															pos: position{line: 1037, col: 5, offset: 32049},
+															pos: position{line: 1037, col: 5, offset: 32087},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1037, col: 5, offset: 32049},
+																	pos: position{line: 1037, col: 5, offset: 32087},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32049},
+																			pos:   position{line: 1037, col: 5, offset: 32087},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25382},
 																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25382},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 790, col: 5, offset: 25382},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25393},
 																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25393},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 790, col: 16, offset: 25393},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 790, col: 23, offset: 25400},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 790, col: 23, offset: 25400},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34453,12 +34889,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 792, col: 8, offset: 25484},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34467,28 +34903,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34497,9 +34933,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -34509,15 +34945,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1038, col: 5, offset: 32084},
+																			pos: position{line: 1038, col: 5, offset: 32122},
 																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -34528,39 +34964,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1053, col: 5, offset: 32401},
+										pos: position{line: 1053, col: 5, offset: 32439},
 										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1053, col: 5, offset: 32401},
+											pos: position{line: 1053, col: 5, offset: 32439},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1053, col: 5, offset: 32401},
+													pos:   position{line: 1053, col: 5, offset: 32439},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25594},
+														pos: position{line: 797, col: 5, offset: 25632},
 														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25632},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25594},
+																	pos:   position{line: 797, col: 5, offset: 25632},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25605},
+																		pos: position{line: 797, col: 16, offset: 25643},
 																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25643},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25605},
+																					pos:        position{line: 797, col: 16, offset: 25643},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25612},
+																					pos: position{line: 797, col: 23, offset: 25650},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25612},
+																						pos:        position{line: 797, col: 23, offset: 25650},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34571,12 +35007,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25696},
+																	pos: position{line: 799, col: 8, offset: 25734},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34585,28 +35021,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34615,9 +35051,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -34627,56 +35063,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1054, col: 5, offset: 32438},
+													pos: position{line: 1054, col: 5, offset: 32476},
 													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1057, col: 5, offset: 32530},
+													pos:   position{line: 1057, col: 5, offset: 32568},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1072, col: 4, offset: 32911},
+														pos: position{line: 1072, col: 4, offset: 32949},
 														expr: &actionExpr{
-															pos: position{line: 1072, col: 5, offset: 32912},
+															pos: position{line: 1072, col: 5, offset: 32950},
 															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1072, col: 5, offset: 32912},
+																pos: position{line: 1072, col: 5, offset: 32950},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1072, col: 5, offset: 32912},
+																		pos: position{line: 1072, col: 5, offset: 32950},
 																		expr: &choiceExpr{
-																			pos: position{line: 1065, col: 5, offset: 32758},
+																			pos: position{line: 1065, col: 5, offset: 32796},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1065, col: 5, offset: 32758},
+																					pos: position{line: 1065, col: 5, offset: 32796},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1065, col: 5, offset: 32758},
+																							pos:   position{line: 1065, col: 5, offset: 32796},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 797, col: 5, offset: 25632},
 																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25632},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 797, col: 5, offset: 25632},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 797, col: 16, offset: 25643},
 																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25643},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 797, col: 16, offset: 25643},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 797, col: 23, offset: 25650},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 797, col: 23, offset: 25650},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34687,12 +35123,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 799, col: 8, offset: 25734},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34701,28 +35137,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34731,9 +35167,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -34743,45 +35179,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1066, col: 5, offset: 32787},
+																							pos: position{line: 1066, col: 5, offset: 32825},
 																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1073, col: 5, offset: 32940},
+																		pos:   position{line: 1073, col: 5, offset: 32978},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34791,28 +35227,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34821,9 +35257,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -34838,44 +35274,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32562},
+													pos:   position{line: 1058, col: 5, offset: 32600},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1058, col: 9, offset: 32566},
+														pos: position{line: 1058, col: 9, offset: 32604},
 														expr: &choiceExpr{
-															pos: position{line: 1065, col: 5, offset: 32758},
+															pos: position{line: 1065, col: 5, offset: 32796},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1065, col: 5, offset: 32758},
+																	pos: position{line: 1065, col: 5, offset: 32796},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32758},
+																			pos:   position{line: 1065, col: 5, offset: 32796},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25632},
 																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25632},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 797, col: 5, offset: 25632},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25643},
 																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25643},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 797, col: 16, offset: 25643},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 797, col: 23, offset: 25650},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 797, col: 23, offset: 25650},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34886,12 +35322,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 799, col: 8, offset: 25734},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34900,28 +35336,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34930,9 +35366,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -34942,15 +35378,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1066, col: 5, offset: 32787},
+																			pos: position{line: 1066, col: 5, offset: 32825},
 																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -34961,39 +35397,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1081, col: 5, offset: 33095},
+										pos: position{line: 1081, col: 5, offset: 33133},
 										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1081, col: 5, offset: 33095},
+											pos: position{line: 1081, col: 5, offset: 33133},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1081, col: 5, offset: 33095},
+													pos:   position{line: 1081, col: 5, offset: 33133},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25840},
+														pos: position{line: 804, col: 5, offset: 25878},
 														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25878},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25840},
+																	pos:   position{line: 804, col: 5, offset: 25878},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25851},
+																		pos: position{line: 804, col: 16, offset: 25889},
 																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25889},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25851},
+																					pos:        position{line: 804, col: 16, offset: 25889},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25858},
+																					pos: position{line: 804, col: 23, offset: 25896},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25858},
+																						pos:        position{line: 804, col: 23, offset: 25896},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35004,12 +35440,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25942},
+																	pos: position{line: 806, col: 8, offset: 25980},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35018,28 +35454,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35048,9 +35484,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -35060,56 +35496,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1082, col: 5, offset: 33134},
+													pos: position{line: 1082, col: 5, offset: 33172},
 													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1085, col: 5, offset: 33226},
+													pos:   position{line: 1085, col: 5, offset: 33264},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1100, col: 4, offset: 33623},
+														pos: position{line: 1100, col: 4, offset: 33661},
 														expr: &actionExpr{
-															pos: position{line: 1100, col: 5, offset: 33624},
+															pos: position{line: 1100, col: 5, offset: 33662},
 															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1100, col: 5, offset: 33624},
+																pos: position{line: 1100, col: 5, offset: 33662},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1100, col: 5, offset: 33624},
+																		pos: position{line: 1100, col: 5, offset: 33662},
 																		expr: &choiceExpr{
-																			pos: position{line: 1093, col: 5, offset: 33466},
+																			pos: position{line: 1093, col: 5, offset: 33504},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1093, col: 5, offset: 33466},
+																					pos: position{line: 1093, col: 5, offset: 33504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1093, col: 5, offset: 33466},
+																							pos:   position{line: 1093, col: 5, offset: 33504},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 804, col: 5, offset: 25878},
 																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25878},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 804, col: 5, offset: 25878},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 804, col: 16, offset: 25889},
 																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25889},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 804, col: 16, offset: 25889},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 804, col: 23, offset: 25896},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 804, col: 23, offset: 25896},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35120,12 +35556,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 806, col: 8, offset: 25980},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90589},
+																												pos: position{line: 2861, col: 10, offset: 90627},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90589},
+																													pos:        position{line: 2861, col: 10, offset: 90627},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35134,28 +35570,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 90987},
+																											pos: position{line: 2883, col: 8, offset: 91025},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90760},
+																													pos: position{line: 2870, col: 12, offset: 90798},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90761},
+																														pos: position{line: 2870, col: 13, offset: 90799},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35164,9 +35600,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90937},
+																													pos: position{line: 2880, col: 8, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90938,
+																														line: 2880, col: 9, offset: 90976,
 																													},
 																												},
 																											},
@@ -35176,45 +35612,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1094, col: 5, offset: 33497},
+																							pos: position{line: 1094, col: 5, offset: 33535},
 																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1101, col: 5, offset: 33654},
+																		pos:   position{line: 1101, col: 5, offset: 33692},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26126},
 																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90923},
+																						pos: position{line: 2878, col: 11, offset: 90961},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90925,
+																							line: 2878, col: 13, offset: 90963,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89115},
+																							pos: position{line: 2807, col: 13, offset: 89153},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89115},
+																								pos: position{line: 2807, col: 13, offset: 89153},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89115},
+																									pos:        position{line: 2807, col: 13, offset: 89153},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35224,28 +35660,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35254,9 +35690,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -35271,44 +35707,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33260},
+													pos:   position{line: 1086, col: 5, offset: 33298},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1086, col: 9, offset: 33264},
+														pos: position{line: 1086, col: 9, offset: 33302},
 														expr: &choiceExpr{
-															pos: position{line: 1093, col: 5, offset: 33466},
+															pos: position{line: 1093, col: 5, offset: 33504},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1093, col: 5, offset: 33466},
+																	pos: position{line: 1093, col: 5, offset: 33504},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33466},
+																			pos:   position{line: 1093, col: 5, offset: 33504},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25878},
 																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25878},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 804, col: 5, offset: 25878},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25889},
 																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25889},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 804, col: 16, offset: 25889},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 804, col: 23, offset: 25896},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 804, col: 23, offset: 25896},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35319,12 +35755,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 806, col: 8, offset: 25980},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35333,28 +35769,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35363,9 +35799,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -35375,15 +35811,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1094, col: 5, offset: 33497},
+																			pos: position{line: 1094, col: 5, offset: 33535},
 																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -35394,27 +35830,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2706, col: 18, offset: 86179},
+										pos: position{line: 2706, col: 18, offset: 86217},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2707, col: 9, offset: 86189},
+											pos: position{line: 2707, col: 9, offset: 86227},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2707, col: 9, offset: 86189},
+													pos: position{line: 2707, col: 9, offset: 86227},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2707, col: 9, offset: 86189},
+															pos:        position{line: 2707, col: 9, offset: 86227},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2707, col: 15, offset: 86195},
+															pos: position{line: 2707, col: 15, offset: 86233},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90589},
+																pos: position{line: 2861, col: 10, offset: 90627},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90589},
+																	pos:        position{line: 2861, col: 10, offset: 90627},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35423,28 +35859,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2883, col: 8, offset: 90987},
+															pos: position{line: 2883, col: 8, offset: 91025},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90760},
+																	pos: position{line: 2870, col: 12, offset: 90798},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90761},
+																		pos: position{line: 2870, col: 13, offset: 90799},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90761},
+																				pos:        position{line: 2870, col: 13, offset: 90799},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90768},
+																				pos:        position{line: 2870, col: 20, offset: 90806},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90777},
+																				pos:        position{line: 2870, col: 29, offset: 90815},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35453,9 +35889,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -35463,43 +35899,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2708, col: 11, offset: 86228},
+													pos: position{line: 2708, col: 11, offset: 86266},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2708, col: 12, offset: 86229},
+															pos: position{line: 2708, col: 12, offset: 86267},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2708, col: 12, offset: 86229},
+																	pos:        position{line: 2708, col: 12, offset: 86267},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 20, offset: 86237},
+																	pos:        position{line: 2708, col: 20, offset: 86275},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 30, offset: 86247},
+																	pos:        position{line: 2708, col: 30, offset: 86285},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 38, offset: 86255},
+																	pos:        position{line: 2708, col: 38, offset: 86293},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 48, offset: 86265},
+																	pos:        position{line: 2708, col: 48, offset: 86303},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 56, offset: 86273},
+																	pos:        position{line: 2708, col: 56, offset: 86311},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35507,12 +35943,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2708, col: 65, offset: 86282},
+															pos: position{line: 2708, col: 65, offset: 86320},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90589},
+																pos: position{line: 2861, col: 10, offset: 90627},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90589},
+																	pos:        position{line: 2861, col: 10, offset: 90627},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35521,28 +35957,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2883, col: 8, offset: 90987},
+															pos: position{line: 2883, col: 8, offset: 91025},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90760},
+																	pos: position{line: 2870, col: 12, offset: 90798},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90761},
+																		pos: position{line: 2870, col: 13, offset: 90799},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90761},
+																				pos:        position{line: 2870, col: 13, offset: 90799},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90768},
+																				pos:        position{line: 2870, col: 20, offset: 90806},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90777},
+																				pos:        position{line: 2870, col: 29, offset: 90815},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35551,38 +35987,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2708, col: 76, offset: 86293},
+															pos: position{line: 2708, col: 76, offset: 86331},
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -35591,9 +36027,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -35605,28 +36041,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1556, col: 11, offset: 50232},
+										pos:  position{line: 1556, col: 11, offset: 50270},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2597, col: 5, offset: 83115},
+										pos: position{line: 2597, col: 5, offset: 83153},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2597, col: 5, offset: 83115},
+											pos: position{line: 2597, col: 5, offset: 83153},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2603, col: 19, offset: 83272},
+													pos:        position{line: 2603, col: 19, offset: 83310},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2603, col: 26, offset: 83279},
+													pos: position{line: 2603, col: 26, offset: 83317},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35635,28 +36071,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35665,40 +36101,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2598, col: 5, offset: 83139},
+													pos:   position{line: 2598, col: 5, offset: 83177},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2598, col: 11, offset: 83145},
+														pos: position{line: 2598, col: 11, offset: 83183},
 														expr: &choiceExpr{
-															pos: position{line: 2598, col: 12, offset: 83146},
+															pos: position{line: 2598, col: 12, offset: 83184},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21489},
+																	pos: position{line: 677, col: 14, offset: 21508},
 																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21508},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2878, col: 11, offset: 90923},
+																				pos: position{line: 2878, col: 11, offset: 90961},
 																				expr: &anyMatcher{
-																					line: 2878, col: 13, offset: 90925,
+																					line: 2878, col: 13, offset: 90963,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21496},
+																				pos: position{line: 677, col: 21, offset: 21515},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90589},
+																					pos: position{line: 2861, col: 10, offset: 90627},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90589},
+																						pos:        position{line: 2861, col: 10, offset: 90627},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35707,28 +36143,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 90987},
+																				pos: position{line: 2883, col: 8, offset: 91025},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90760},
+																						pos: position{line: 2870, col: 12, offset: 90798},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90761},
+																							pos: position{line: 2870, col: 13, offset: 90799},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90761},
+																									pos:        position{line: 2870, col: 13, offset: 90799},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90768},
+																									pos:        position{line: 2870, col: 20, offset: 90806},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90777},
+																									pos:        position{line: 2870, col: 29, offset: 90815},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35737,9 +36173,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
@@ -35748,32 +36184,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2610, col: 5, offset: 83391},
+																	pos: position{line: 2610, col: 5, offset: 83429},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2610, col: 5, offset: 83391},
+																		pos: position{line: 2610, col: 5, offset: 83429},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2610, col: 5, offset: 83391},
+																				pos: position{line: 2610, col: 5, offset: 83429},
 																				expr: &choiceExpr{
-																					pos: position{line: 2607, col: 22, offset: 83352},
+																					pos: position{line: 2607, col: 22, offset: 83390},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2603, col: 19, offset: 83272},
+																							pos: position{line: 2603, col: 19, offset: 83310},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2603, col: 19, offset: 83272},
+																									pos:        position{line: 2603, col: 19, offset: 83310},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2603, col: 26, offset: 83279},
+																									pos: position{line: 2603, col: 26, offset: 83317},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90589},
+																										pos: position{line: 2861, col: 10, offset: 90627},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90589},
+																											pos:        position{line: 2861, col: 10, offset: 90627},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35782,28 +36218,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35812,9 +36248,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
@@ -35822,59 +36258,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2611, col: 5, offset: 83414},
+																				pos:   position{line: 2611, col: 5, offset: 83452},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2612, col: 9, offset: 83432},
+																					pos: position{line: 2612, col: 9, offset: 83470},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2612, col: 10, offset: 83433},
+																							pos: position{line: 2612, col: 10, offset: 83471},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2612, col: 10, offset: 83433},
+																								pos:   position{line: 2612, col: 10, offset: 83471},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2612, col: 17, offset: 83440},
+																									pos: position{line: 2612, col: 17, offset: 83478},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2620, col: 21, offset: 83636},
+																											pos: position{line: 2620, col: 21, offset: 83674},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2620, col: 21, offset: 83636},
+																												pos: position{line: 2620, col: 21, offset: 83674},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2620, col: 21, offset: 83636},
+																														pos:   position{line: 2620, col: 21, offset: 83674},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2620, col: 27, offset: 83642},
+																															pos: position{line: 2620, col: 27, offset: 83680},
 																															expr: &actionExpr{
-																																pos: position{line: 2625, col: 5, offset: 83717},
+																																pos: position{line: 2625, col: 5, offset: 83755},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2625, col: 5, offset: 83717},
+																																	pos: position{line: 2625, col: 5, offset: 83755},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2625, col: 5, offset: 83717},
+																																			pos:        position{line: 2625, col: 5, offset: 83755},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2625, col: 9, offset: 83721},
+																																			pos: position{line: 2625, col: 9, offset: 83759},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2861, col: 10, offset: 90589},
+																																				pos: position{line: 2861, col: 10, offset: 90627},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2861, col: 10, offset: 90589},
+																																					pos:        position{line: 2861, col: 10, offset: 90627},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35883,21 +36319,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2625, col: 16, offset: 83728},
+																																			pos:   position{line: 2625, col: 16, offset: 83766},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2631, col: 5, offset: 83928},
+																																				pos: position{line: 2631, col: 5, offset: 83966},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2631, col: 5, offset: 83928},
+																																					pos:   position{line: 2631, col: 5, offset: 83966},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2631, col: 14, offset: 83937},
+																																						pos: position{line: 2631, col: 14, offset: 83975},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2631, col: 14, offset: 83937},
+																																							pos: position{line: 2631, col: 14, offset: 83975},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2631, col: 14, offset: 83937},
+																																								pos:        position{line: 2631, col: 14, offset: 83975},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35914,28 +36350,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2883, col: 8, offset: 90987},
+																														pos: position{line: 2883, col: 8, offset: 91025},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2870, col: 12, offset: 90760},
+																																pos: position{line: 2870, col: 12, offset: 90798},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2870, col: 13, offset: 90761},
+																																	pos: position{line: 2870, col: 13, offset: 90799},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 13, offset: 90761},
+																																			pos:        position{line: 2870, col: 13, offset: 90799},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 20, offset: 90768},
+																																			pos:        position{line: 2870, col: 20, offset: 90806},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 29, offset: 90777},
+																																			pos:        position{line: 2870, col: 29, offset: 90815},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35944,9 +36380,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2880, col: 8, offset: 90937},
+																																pos: position{line: 2880, col: 8, offset: 90975},
 																																expr: &anyMatcher{
-																																	line: 2880, col: 9, offset: 90938,
+																																	line: 2880, col: 9, offset: 90976,
 																																},
 																															},
 																														},
@@ -35955,40 +36391,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2637, col: 24, offset: 84073},
+																											pos: position{line: 2637, col: 24, offset: 84111},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2637, col: 24, offset: 84073},
+																												pos:   position{line: 2637, col: 24, offset: 84111},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2637, col: 30, offset: 84079},
+																													pos: position{line: 2637, col: 30, offset: 84117},
 																													expr: &actionExpr{
-																														pos: position{line: 2642, col: 5, offset: 84155},
+																														pos: position{line: 2642, col: 5, offset: 84193},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2642, col: 5, offset: 84155},
+																															pos: position{line: 2642, col: 5, offset: 84193},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2642, col: 5, offset: 84155},
+																																	pos: position{line: 2642, col: 5, offset: 84193},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2607, col: 22, offset: 83352},
+																																		pos: position{line: 2607, col: 22, offset: 83390},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2603, col: 19, offset: 83272},
+																																				pos: position{line: 2603, col: 19, offset: 83310},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2603, col: 19, offset: 83272},
+																																						pos:        position{line: 2603, col: 19, offset: 83310},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2603, col: 26, offset: 83279},
+																																						pos: position{line: 2603, col: 26, offset: 83317},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2861, col: 10, offset: 90589},
+																																							pos: position{line: 2861, col: 10, offset: 90627},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2861, col: 10, offset: 90589},
+																																								pos:        position{line: 2861, col: 10, offset: 90627},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35997,28 +36433,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2883, col: 8, offset: 90987},
+																																						pos: position{line: 2883, col: 8, offset: 91025},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2870, col: 12, offset: 90760},
+																																								pos: position{line: 2870, col: 12, offset: 90798},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2870, col: 13, offset: 90761},
+																																									pos: position{line: 2870, col: 13, offset: 90799},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 13, offset: 90761},
+																																											pos:        position{line: 2870, col: 13, offset: 90799},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 20, offset: 90768},
+																																											pos:        position{line: 2870, col: 20, offset: 90806},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 29, offset: 90777},
+																																											pos:        position{line: 2870, col: 29, offset: 90815},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36027,9 +36463,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2880, col: 8, offset: 90937},
+																																								pos: position{line: 2880, col: 8, offset: 90975},
 																																								expr: &anyMatcher{
-																																									line: 2880, col: 9, offset: 90938,
+																																									line: 2880, col: 9, offset: 90976,
 																																								},
 																																							},
 																																						},
@@ -36037,35 +36473,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2880, col: 8, offset: 90937},
+																																				pos: position{line: 2880, col: 8, offset: 90975},
 																																				expr: &anyMatcher{
-																																					line: 2880, col: 9, offset: 90938,
+																																					line: 2880, col: 9, offset: 90976,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2643, col: 5, offset: 84178},
+																																	pos: position{line: 2643, col: 5, offset: 84216},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21489},
+																																		pos: position{line: 677, col: 14, offset: 21508},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21508},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2878, col: 11, offset: 90923},
+																																					pos: position{line: 2878, col: 11, offset: 90961},
 																																					expr: &anyMatcher{
-																																						line: 2878, col: 13, offset: 90925,
+																																						line: 2878, col: 13, offset: 90963,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21496},
+																																					pos: position{line: 677, col: 21, offset: 21515},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2861, col: 10, offset: 90589},
+																																						pos: position{line: 2861, col: 10, offset: 90627},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2861, col: 10, offset: 90589},
+																																							pos:        position{line: 2861, col: 10, offset: 90627},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36074,28 +36510,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2883, col: 8, offset: 90987},
+																																					pos: position{line: 2883, col: 8, offset: 91025},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2870, col: 12, offset: 90760},
+																																							pos: position{line: 2870, col: 12, offset: 90798},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2870, col: 13, offset: 90761},
+																																								pos: position{line: 2870, col: 13, offset: 90799},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 13, offset: 90761},
+																																										pos:        position{line: 2870, col: 13, offset: 90799},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 20, offset: 90768},
+																																										pos:        position{line: 2870, col: 20, offset: 90806},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 29, offset: 90777},
+																																										pos:        position{line: 2870, col: 29, offset: 90815},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36104,9 +36540,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2880, col: 8, offset: 90937},
+																																							pos: position{line: 2880, col: 8, offset: 90975},
 																																							expr: &anyMatcher{
-																																								line: 2880, col: 9, offset: 90938,
+																																								line: 2880, col: 9, offset: 90976,
 																																							},
 																																						},
 																																					},
@@ -36116,17 +36552,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2644, col: 5, offset: 84193},
+																																	pos:   position{line: 2644, col: 5, offset: 84231},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2644, col: 12, offset: 84200},
+																																		pos: position{line: 2644, col: 12, offset: 84238},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2661, col: 20, offset: 84664},
+																																			pos: position{line: 2661, col: 20, offset: 84702},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2661, col: 20, offset: 84664},
+																																				pos: position{line: 2661, col: 20, offset: 84702},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2661, col: 20, offset: 84664},
+																																					pos:        position{line: 2661, col: 20, offset: 84702},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36137,18 +36573,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2644, col: 31, offset: 84219},
+																																	pos:        position{line: 2644, col: 31, offset: 84257},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2644, col: 35, offset: 84223},
+																																	pos: position{line: 2644, col: 35, offset: 84261},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 10, offset: 90589},
+																																		pos: position{line: 2861, col: 10, offset: 90627},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2861, col: 10, offset: 90589},
+																																			pos:        position{line: 2861, col: 10, offset: 90627},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36157,27 +36593,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2644, col: 42, offset: 84230},
+																																	pos: position{line: 2644, col: 42, offset: 84268},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2870, col: 12, offset: 90760},
+																																		pos: position{line: 2870, col: 12, offset: 90798},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2870, col: 13, offset: 90761},
+																																			pos: position{line: 2870, col: 13, offset: 90799},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 13, offset: 90761},
+																																					pos:        position{line: 2870, col: 13, offset: 90799},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 20, offset: 90768},
+																																					pos:        position{line: 2870, col: 20, offset: 90806},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 29, offset: 90777},
+																																					pos:        position{line: 2870, col: 29, offset: 90815},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36187,37 +36623,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2644, col: 51, offset: 84239},
+																																	pos:   position{line: 2644, col: 51, offset: 84277},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2650, col: 5, offset: 84398},
+																																		pos: position{line: 2650, col: 5, offset: 84436},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2651, col: 9, offset: 84408},
+																																			pos: position{line: 2651, col: 9, offset: 84446},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2651, col: 9, offset: 84408},
+																																				pos: position{line: 2651, col: 9, offset: 84446},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2651, col: 9, offset: 84408},
+																																						pos: position{line: 2651, col: 9, offset: 84446},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2607, col: 22, offset: 83352},
+																																							pos: position{line: 2607, col: 22, offset: 83390},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2603, col: 19, offset: 83272},
+																																									pos: position{line: 2603, col: 19, offset: 83310},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2603, col: 19, offset: 83272},
+																																											pos:        position{line: 2603, col: 19, offset: 83310},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2603, col: 26, offset: 83279},
+																																											pos: position{line: 2603, col: 26, offset: 83317},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2861, col: 10, offset: 90589},
+																																												pos: position{line: 2861, col: 10, offset: 90627},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2861, col: 10, offset: 90589},
+																																													pos:        position{line: 2861, col: 10, offset: 90627},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36226,28 +36662,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2883, col: 8, offset: 90987},
+																																											pos: position{line: 2883, col: 8, offset: 91025},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2870, col: 12, offset: 90760},
+																																													pos: position{line: 2870, col: 12, offset: 90798},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2870, col: 13, offset: 90761},
+																																														pos: position{line: 2870, col: 13, offset: 90799},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 13, offset: 90761},
+																																																pos:        position{line: 2870, col: 13, offset: 90799},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 20, offset: 90768},
+																																																pos:        position{line: 2870, col: 20, offset: 90806},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 29, offset: 90777},
+																																																pos:        position{line: 2870, col: 29, offset: 90815},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36256,9 +36692,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2880, col: 8, offset: 90937},
+																																													pos: position{line: 2880, col: 8, offset: 90975},
 																																													expr: &anyMatcher{
-																																														line: 2880, col: 9, offset: 90938,
+																																														line: 2880, col: 9, offset: 90976,
 																																													},
 																																												},
 																																											},
@@ -36266,35 +36702,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90937},
+																																									pos: position{line: 2880, col: 8, offset: 90975},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90938,
+																																										line: 2880, col: 9, offset: 90976,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2652, col: 9, offset: 84435},
+																																						pos: position{line: 2652, col: 9, offset: 84473},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21489},
+																																							pos: position{line: 677, col: 14, offset: 21508},
 																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21508},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2878, col: 11, offset: 90923},
+																																										pos: position{line: 2878, col: 11, offset: 90961},
 																																										expr: &anyMatcher{
-																																											line: 2878, col: 13, offset: 90925,
+																																											line: 2878, col: 13, offset: 90963,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21496},
+																																										pos: position{line: 677, col: 21, offset: 21515},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2861, col: 10, offset: 90589},
+																																											pos: position{line: 2861, col: 10, offset: 90627},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2861, col: 10, offset: 90589},
+																																												pos:        position{line: 2861, col: 10, offset: 90627},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36303,28 +36739,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2883, col: 8, offset: 90987},
+																																										pos: position{line: 2883, col: 8, offset: 91025},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2870, col: 12, offset: 90760},
+																																												pos: position{line: 2870, col: 12, offset: 90798},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2870, col: 13, offset: 90761},
+																																													pos: position{line: 2870, col: 13, offset: 90799},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 13, offset: 90761},
+																																															pos:        position{line: 2870, col: 13, offset: 90799},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 20, offset: 90768},
+																																															pos:        position{line: 2870, col: 20, offset: 90806},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 29, offset: 90777},
+																																															pos:        position{line: 2870, col: 29, offset: 90815},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36333,9 +36769,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2880, col: 8, offset: 90937},
+																																												pos: position{line: 2880, col: 8, offset: 90975},
 																																												expr: &anyMatcher{
-																																													line: 2880, col: 9, offset: 90938,
+																																													line: 2880, col: 9, offset: 90976,
 																																												},
 																																											},
 																																										},
@@ -36345,22 +36781,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2653, col: 9, offset: 84454},
+																																						pos: position{line: 2653, col: 9, offset: 84492},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2653, col: 11, offset: 84456},
+																																							pos: position{line: 2653, col: 11, offset: 84494},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2653, col: 11, offset: 84456},
+																																									pos:   position{line: 2653, col: 11, offset: 84494},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2653, col: 18, offset: 84463},
+																																										pos: position{line: 2653, col: 18, offset: 84501},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2661, col: 20, offset: 84664},
+																																											pos: position{line: 2661, col: 20, offset: 84702},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2661, col: 20, offset: 84664},
+																																												pos: position{line: 2661, col: 20, offset: 84702},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2661, col: 20, offset: 84664},
+																																													pos:        position{line: 2661, col: 20, offset: 84702},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36371,7 +36807,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2653, col: 37, offset: 84482},
+																																									pos:        position{line: 2653, col: 37, offset: 84520},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36380,15 +36816,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2654, col: 9, offset: 84495},
+																																						pos:   position{line: 2654, col: 9, offset: 84533},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2654, col: 18, offset: 84504},
+																																							pos: position{line: 2654, col: 18, offset: 84542},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2654, col: 18, offset: 84504},
+																																								pos: position{line: 2654, col: 18, offset: 84542},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2654, col: 18, offset: 84504},
+																																									pos:        position{line: 2654, col: 18, offset: 84542},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36398,30 +36834,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2656, col: 12, offset: 84566},
+																																						pos: position{line: 2656, col: 12, offset: 84604},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2883, col: 8, offset: 90987},
+																																							pos: position{line: 2883, col: 8, offset: 91025},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2870, col: 12, offset: 90760},
+																																									pos: position{line: 2870, col: 12, offset: 90798},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2870, col: 13, offset: 90761},
+																																										pos: position{line: 2870, col: 13, offset: 90799},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 13, offset: 90761},
+																																												pos:        position{line: 2870, col: 13, offset: 90799},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 20, offset: 90768},
+																																												pos:        position{line: 2870, col: 20, offset: 90806},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 29, offset: 90777},
+																																												pos:        position{line: 2870, col: 29, offset: 90815},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36430,9 +36866,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90937},
+																																									pos: position{line: 2880, col: 8, offset: 90975},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90938,
+																																										line: 2880, col: 9, offset: 90976,
 																																									},
 																																								},
 																																							},
@@ -36454,24 +36890,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21508},
 																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21508},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2878, col: 11, offset: 90923},
+																										pos: position{line: 2878, col: 11, offset: 90961},
 																										expr: &anyMatcher{
-																											line: 2878, col: 13, offset: 90925,
+																											line: 2878, col: 13, offset: 90963,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21496},
+																										pos: position{line: 677, col: 21, offset: 21515},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90589},
+																											pos: position{line: 2861, col: 10, offset: 90627},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90589},
+																												pos:        position{line: 2861, col: 10, offset: 90627},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36480,28 +36916,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2883, col: 8, offset: 90987},
+																										pos: position{line: 2883, col: 8, offset: 91025},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2870, col: 12, offset: 90760},
+																												pos: position{line: 2870, col: 12, offset: 90798},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2870, col: 13, offset: 90761},
+																													pos: position{line: 2870, col: 13, offset: 90799},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 13, offset: 90761},
+																															pos:        position{line: 2870, col: 13, offset: 90799},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 20, offset: 90768},
+																															pos:        position{line: 2870, col: 20, offset: 90806},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 29, offset: 90777},
+																															pos:        position{line: 2870, col: 29, offset: 90815},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36510,9 +36946,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2880, col: 8, offset: 90937},
+																												pos: position{line: 2880, col: 8, offset: 90975},
 																												expr: &anyMatcher{
-																													line: 2880, col: 9, offset: 90938,
+																													line: 2880, col: 9, offset: 90976,
 																												},
 																											},
 																										},
@@ -36531,24 +36967,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2607, col: 22, offset: 83352},
+													pos: position{line: 2607, col: 22, offset: 83390},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83272},
+															pos: position{line: 2603, col: 19, offset: 83310},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83272},
+																	pos:        position{line: 2603, col: 19, offset: 83310},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83279},
+																	pos: position{line: 2603, col: 26, offset: 83317},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36557,28 +36993,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36587,9 +37023,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -36597,9 +37033,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -36608,36 +37044,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79574},
+										pos: position{line: 2471, col: 22, offset: 79612},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79574},
+											pos: position{line: 2471, col: 22, offset: 79612},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79795},
+													pos:        position{line: 2476, col: 31, offset: 79833},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79800},
+													pos: position{line: 2476, col: 36, offset: 79838},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79801},
+														pos:        position{line: 2476, col: 37, offset: 79839},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79601},
+													pos:   position{line: 2471, col: 49, offset: 79639},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89115},
+														pos: position{line: 2807, col: 13, offset: 89153},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89115},
+															pos: position{line: 2807, col: 13, offset: 89153},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89115},
+																pos:        position{line: 2807, col: 13, offset: 89153},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36647,28 +37083,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 90987},
+													pos: position{line: 2883, col: 8, offset: 91025},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36677,9 +37113,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90937},
+															pos: position{line: 2880, col: 8, offset: 90975},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90938,
+																line: 2880, col: 9, offset: 90976,
 															},
 														},
 													},
@@ -36688,94 +37124,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1569, col: 5, offset: 50662},
+										pos: position{line: 1569, col: 5, offset: 50700},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1569, col: 5, offset: 50662},
+											pos: position{line: 1569, col: 5, offset: 50700},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1569, col: 5, offset: 50662},
+													pos:   position{line: 1569, col: 5, offset: 50700},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1569, col: 11, offset: 50668},
+														pos: position{line: 1569, col: 11, offset: 50706},
 														expr: &actionExpr{
-															pos: position{line: 1733, col: 5, offset: 55985},
+															pos: position{line: 1733, col: 5, offset: 56023},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1733, col: 5, offset: 55985},
+																pos: position{line: 1733, col: 5, offset: 56023},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1733, col: 5, offset: 55985},
+																		pos: position{line: 1733, col: 5, offset: 56023},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1736, col: 5, offset: 56048},
+																		pos:   position{line: 1736, col: 5, offset: 56086},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1736, col: 12, offset: 56055},
+																			pos: position{line: 1736, col: 12, offset: 56093},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1736, col: 12, offset: 56055},
+																					pos: position{line: 1736, col: 12, offset: 56093},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 12, offset: 56055},
+																						pos:        position{line: 1736, col: 12, offset: 56093},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56111},
+																					pos: position{line: 1738, col: 13, offset: 56149},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56111},
+																						pos:        position{line: 1738, col: 13, offset: 56149},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56169},
+																					pos: position{line: 1740, col: 13, offset: 56207},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56169},
+																						pos:        position{line: 1740, col: 13, offset: 56207},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56237},
+																					pos: position{line: 1742, col: 13, offset: 56275},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56237},
+																						pos:        position{line: 1742, col: 13, offset: 56275},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56301},
+																					pos: position{line: 1744, col: 13, offset: 56339},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56301},
+																						pos:        position{line: 1744, col: 13, offset: 56339},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56365},
+																					pos: position{line: 1746, col: 13, offset: 56403},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1746, col: 13, offset: 56365},
+																						pos: position{line: 1746, col: 13, offset: 56403},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90650},
+																							pos: position{line: 2865, col: 11, offset: 90688},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90650},
+																								pos: position{line: 2865, col: 11, offset: 90688},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90650},
+																									pos:        position{line: 2865, col: 11, offset: 90688},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36794,35 +37230,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50691},
+													pos:   position{line: 1570, col: 5, offset: 50729},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1513, col: 5, offset: 48987},
+														pos: position{line: 1513, col: 5, offset: 49025},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1513, col: 5, offset: 48987},
+															pos: position{line: 1513, col: 5, offset: 49025},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 48987},
+																	pos: position{line: 1513, col: 5, offset: 49025},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21508},
 																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90923},
+																					pos: position{line: 2878, col: 11, offset: 90961},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90925,
+																						line: 2878, col: 13, offset: 90963,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36831,28 +37267,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 90987},
+																					pos: position{line: 2883, col: 8, offset: 91025},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36861,9 +37297,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90937},
+																							pos: position{line: 2880, col: 8, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90938,
+																								line: 2880, col: 9, offset: 90976,
 																							},
 																						},
 																					},
@@ -36873,23 +37309,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49002},
+																	pos: position{line: 1514, col: 5, offset: 49040},
 																	expr: &seqExpr{
-																		pos: position{line: 1544, col: 27, offset: 49907},
+																		pos: position{line: 1544, col: 27, offset: 49945},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1544, col: 27, offset: 49907},
+																				pos:        position{line: 1544, col: 27, offset: 49945},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1544, col: 31, offset: 49911},
+																				pos: position{line: 1544, col: 31, offset: 49949},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90589},
+																					pos: position{line: 2861, col: 10, offset: 90627},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90589},
+																						pos:        position{line: 2861, col: 10, offset: 90627},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36898,25 +37334,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36928,20 +37364,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49030},
+																	pos: position{line: 1515, col: 5, offset: 49068},
 																	expr: &actionExpr{
-																		pos: position{line: 1585, col: 5, offset: 51101},
+																		pos: position{line: 1585, col: 5, offset: 51139},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1585, col: 5, offset: 51101},
+																			pos: position{line: 1585, col: 5, offset: 51139},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1585, col: 5, offset: 51101},
+																					pos: position{line: 1585, col: 5, offset: 51139},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36950,27 +37386,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1585, col: 12, offset: 51108},
+																					pos:   position{line: 1585, col: 12, offset: 51146},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1587, col: 9, offset: 51171},
+																						pos: position{line: 1587, col: 9, offset: 51209},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1587, col: 9, offset: 51171},
+																								pos: position{line: 1587, col: 9, offset: 51209},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1587, col: 9, offset: 51171},
+																									pos: position{line: 1587, col: 9, offset: 51209},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1587, col: 9, offset: 51171},
+																											pos:   position{line: 1587, col: 9, offset: 51209},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1587, col: 16, offset: 51178},
+																												pos: position{line: 1587, col: 16, offset: 51216},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1587, col: 16, offset: 51178},
+																													pos: position{line: 1587, col: 16, offset: 51216},
 																													expr: &litMatcher{
-																														pos:        position{line: 1587, col: 17, offset: 51179},
+																														pos:        position{line: 1587, col: 17, offset: 51217},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36979,22 +37415,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1591, col: 9, offset: 51279},
+																											pos: position{line: 1591, col: 9, offset: 51317},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 11, offset: 51996},
+																								pos: position{line: 1610, col: 11, offset: 52034},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 11, offset: 51996},
+																									pos: position{line: 1610, col: 11, offset: 52034},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 11, offset: 51996},
+																											pos: position{line: 1610, col: 11, offset: 52034},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 12, offset: 51997},
+																												pos:        position{line: 1610, col: 12, offset: 52035},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37002,7 +37438,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 20, offset: 52005},
+																											pos:        position{line: 1610, col: 20, offset: 52043},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37011,20 +37447,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 13, offset: 52122},
+																								pos: position{line: 1612, col: 13, offset: 52160},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 13, offset: 52122},
+																									pos: position{line: 1612, col: 13, offset: 52160},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1612, col: 14, offset: 52123},
+																											pos:        position{line: 1612, col: 14, offset: 52161},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 21, offset: 52130},
+																											pos:        position{line: 1612, col: 21, offset: 52168},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37033,20 +37469,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52250},
+																								pos: position{line: 1614, col: 13, offset: 52288},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52250},
+																									pos: position{line: 1614, col: 13, offset: 52288},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52251},
+																											pos:        position{line: 1614, col: 14, offset: 52289},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52258},
+																											pos:        position{line: 1614, col: 21, offset: 52296},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37055,15 +37491,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52378},
+																								pos: position{line: 1616, col: 13, offset: 52416},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52378},
+																									pos: position{line: 1616, col: 13, offset: 52416},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 13, offset: 52378},
+																											pos: position{line: 1616, col: 13, offset: 52416},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 14, offset: 52379},
+																												pos:        position{line: 1616, col: 14, offset: 52417},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37071,7 +37507,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 26, offset: 52391},
+																											pos:        position{line: 1616, col: 26, offset: 52429},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37080,15 +37516,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52511},
+																								pos: position{line: 1618, col: 13, offset: 52549},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52511},
+																									pos: position{line: 1618, col: 13, offset: 52549},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52511},
+																											pos: position{line: 1618, col: 13, offset: 52549},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52512},
+																												pos:        position{line: 1618, col: 14, offset: 52550},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37096,7 +37532,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52524},
+																											pos:        position{line: 1618, col: 26, offset: 52562},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37108,12 +37544,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90650},
+																					pos: position{line: 2865, col: 11, offset: 90688},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90650},
+																						pos: position{line: 2865, col: 11, offset: 90688},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90650},
+																							pos:        position{line: 2865, col: 11, offset: 90688},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37126,20 +37562,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49060},
+																	pos: position{line: 1516, col: 5, offset: 49098},
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 5, offset: 53063},
+																		pos: position{line: 1635, col: 5, offset: 53101},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1635, col: 5, offset: 53063},
+																			pos: position{line: 1635, col: 5, offset: 53101},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1635, col: 5, offset: 53063},
+																					pos: position{line: 1635, col: 5, offset: 53101},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37148,24 +37584,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1636, col: 5, offset: 53075},
+																					pos:   position{line: 1636, col: 5, offset: 53113},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1637, col: 9, offset: 53091},
+																						pos: position{line: 1637, col: 9, offset: 53129},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1637, col: 10, offset: 53092},
+																							pos: position{line: 1637, col: 10, offset: 53130},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1637, col: 11, offset: 53093},
+																									pos:        position{line: 1637, col: 11, offset: 53131},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1637, col: 18, offset: 53100},
+																									pos: position{line: 1637, col: 18, offset: 53138},
 																									expr: &litMatcher{
-																										pos:        position{line: 1637, col: 19, offset: 53101},
+																										pos:        position{line: 1637, col: 19, offset: 53139},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37176,16 +37612,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1640, col: 7, offset: 53191},
+																					pos: position{line: 1640, col: 7, offset: 53229},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90650},
+																					pos: position{line: 2865, col: 11, offset: 90688},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90650},
+																						pos: position{line: 2865, col: 11, offset: 90688},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90650},
+																							pos:        position{line: 2865, col: 11, offset: 90688},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37198,29 +37634,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49092},
+																	pos: position{line: 1517, col: 5, offset: 49130},
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 5, offset: 55600},
+																		pos: position{line: 1724, col: 5, offset: 55638},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1724, col: 5, offset: 55600},
+																			pos: position{line: 1724, col: 5, offset: 55638},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 5, offset: 55600},
+																					pos:        position{line: 1724, col: 5, offset: 55638},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1724, col: 9, offset: 55604},
+																					pos:   position{line: 1724, col: 9, offset: 55642},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1724, col: 14, offset: 55609},
+																						pos: position{line: 1724, col: 14, offset: 55647},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1724, col: 14, offset: 55609},
+																							pos: position{line: 1724, col: 14, offset: 55647},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1724, col: 14, offset: 55609},
+																								pos:        position{line: 1724, col: 14, offset: 55647},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37230,18 +37666,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 62, offset: 55657},
+																					pos:        position{line: 1724, col: 62, offset: 55695},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90650},
+																					pos: position{line: 2865, col: 11, offset: 90688},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90650},
+																						pos: position{line: 2865, col: 11, offset: 90688},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90650},
+																							pos:        position{line: 2865, col: 11, offset: 90688},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37254,36 +37690,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49122},
+																	pos: position{line: 1518, col: 5, offset: 49160},
 																	expr: &seqExpr{
-																		pos: position{line: 1518, col: 7, offset: 49124},
+																		pos: position{line: 1518, col: 7, offset: 49162},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54082},
+																				pos: position{line: 1670, col: 5, offset: 54120},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54082},
+																					pos: position{line: 1670, col: 5, offset: 54120},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54083},
+																						pos: position{line: 1670, col: 6, offset: 54121},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54083},
+																								pos: position{line: 1670, col: 6, offset: 54121},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54233},
+																									pos: position{line: 1675, col: 5, offset: 54271},
 																									run: (*parser).callonListContinuationElement1711,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54233},
+																										pos: position{line: 1675, col: 5, offset: 54271},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54233},
+																												pos:   position{line: 1675, col: 5, offset: 54271},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54244},
+																													pos: position{line: 1675, col: 16, offset: 54282},
 																													run: (*parser).callonListContinuationElement1714,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54244},
+																														pos: position{line: 1675, col: 16, offset: 54282},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54245},
+																															pos:        position{line: 1675, col: 17, offset: 54283},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37292,7 +37728,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54302},
+																												pos: position{line: 1678, col: 5, offset: 54340},
 																												run: (*parser).callonListContinuationElement1717,
 																											},
 																										},
@@ -37300,30 +37736,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54112},
+																								pos: position{line: 1670, col: 35, offset: 54150},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 90987},
+																									pos: position{line: 2883, col: 8, offset: 91025},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90760},
+																											pos: position{line: 2870, col: 12, offset: 90798},
 																											run: (*parser).callonListContinuationElement1720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90761},
+																												pos: position{line: 2870, col: 13, offset: 90799},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90761},
+																														pos:        position{line: 2870, col: 13, offset: 90799},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90768},
+																														pos:        position{line: 2870, col: 20, offset: 90806},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90777},
+																														pos:        position{line: 2870, col: 29, offset: 90815},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37332,37 +37768,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90937},
+																											pos: position{line: 2880, col: 8, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90938,
+																												line: 2880, col: 9, offset: 90976,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54117,
+																								line: 1670, col: 40, offset: 54155,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54233},
+																				pos: position{line: 1675, col: 5, offset: 54271},
 																				run: (*parser).callonListContinuationElement1728,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54233},
+																					pos: position{line: 1675, col: 5, offset: 54271},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54233},
+																							pos:   position{line: 1675, col: 5, offset: 54271},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54244},
+																								pos: position{line: 1675, col: 16, offset: 54282},
 																								run: (*parser).callonListContinuationElement1731,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54244},
+																									pos: position{line: 1675, col: 16, offset: 54282},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54245},
+																										pos:        position{line: 1675, col: 17, offset: 54283},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37371,20 +37807,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54302},
+																							pos: position{line: 1678, col: 5, offset: 54340},
 																							run: (*parser).callonListContinuationElement1734,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1518, col: 59, offset: 49176},
+																				pos: position{line: 1518, col: 59, offset: 49214},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90589},
+																						pos: position{line: 2861, col: 10, offset: 90627},
 																						run: (*parser).callonListContinuationElement1736,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90589},
+																							pos:        position{line: 2861, col: 10, offset: 90627},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37392,25 +37828,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90760},
+																						pos: position{line: 2870, col: 12, offset: 90798},
 																						run: (*parser).callonListContinuationElement1738,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90761},
+																							pos: position{line: 2870, col: 13, offset: 90799},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90761},
+																									pos:        position{line: 2870, col: 13, offset: 90799},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90768},
+																									pos:        position{line: 2870, col: 20, offset: 90806},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90777},
+																									pos:        position{line: 2870, col: 29, offset: 90815},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37419,9 +37855,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90937},
+																						pos: position{line: 2880, col: 8, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90938,
+																							line: 2880, col: 9, offset: 90976,
 																						},
 																					},
 																				},
@@ -37430,20 +37866,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49194},
+																	pos: position{line: 1519, col: 5, offset: 49232},
 																	expr: &choiceExpr{
-																		pos: position{line: 1519, col: 7, offset: 49196},
+																		pos: position{line: 1519, col: 7, offset: 49234},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 724, col: 5, offset: 23042},
+																				pos: position{line: 724, col: 5, offset: 23080},
 																				run: (*parser).callonListContinuationElement1747,
 																				expr: &seqExpr{
-																					pos: position{line: 724, col: 5, offset: 23042},
+																					pos: position{line: 724, col: 5, offset: 23080},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 724, col: 5, offset: 23042},
+																							pos: position{line: 724, col: 5, offset: 23080},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2751, col: 13, offset: 87684},
+																								pos:        position{line: 2751, col: 13, offset: 87722},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -37451,36 +37887,36 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 725, col: 5, offset: 23072},
+																							pos:   position{line: 725, col: 5, offset: 23110},
 																							label: "delimiter",
 																							expr: &choiceExpr{
-																								pos: position{line: 726, col: 9, offset: 23092},
+																								pos: position{line: 726, col: 9, offset: 23130},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 740, col: 5, offset: 23622},
 																										run: (*parser).callonListContinuationElement1753,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
+																											pos: position{line: 740, col: 5, offset: 23622},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
+																													pos:   position{line: 740, col: 5, offset: 23622},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 740, col: 16, offset: 23633},
 																														run: (*parser).callonListContinuationElement1756,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
+																															pos: position{line: 740, col: 16, offset: 23633},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
+																																	pos:        position{line: 740, col: 16, offset: 23633},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
+																																	pos: position{line: 740, col: 23, offset: 23640},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
+																																		pos:        position{line: 740, col: 23, offset: 23640},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -37491,12 +37927,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
+																													pos: position{line: 742, col: 8, offset: 23724},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1762,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37505,28 +37941,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1765,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37535,9 +37971,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37546,30 +37982,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 747, col: 5, offset: 23870},
 																										run: (*parser).callonListContinuationElement1772,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 5, offset: 23832},
+																											pos: position{line: 747, col: 5, offset: 23870},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 747, col: 5, offset: 23832},
+																													pos:   position{line: 747, col: 5, offset: 23870},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 747, col: 16, offset: 23881},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &seqExpr{
-																															pos: position{line: 747, col: 16, offset: 23843},
+																															pos: position{line: 747, col: 16, offset: 23881},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 747, col: 16, offset: 23843},
+																																	pos:        position{line: 747, col: 16, offset: 23881},
 																																	val:        "====",
 																																	ignoreCase: false,
 																																	want:       "\"====\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 747, col: 23, offset: 23850},
+																																	pos: position{line: 747, col: 23, offset: 23888},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 747, col: 23, offset: 23850},
+																																		pos:        position{line: 747, col: 23, offset: 23888},
 																																		val:        "=",
 																																		ignoreCase: false,
 																																		want:       "\"=\"",
@@ -37580,12 +38016,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 749, col: 8, offset: 23934},
+																													pos: position{line: 749, col: 8, offset: 23972},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1781,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37594,28 +38030,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1784,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37624,9 +38060,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37635,27 +38071,27 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 760, col: 26, offset: 24320},
+																										pos: position{line: 760, col: 26, offset: 24358},
 																										run: (*parser).callonListContinuationElement1791,
 																										expr: &seqExpr{
-																											pos: position{line: 760, col: 26, offset: 24320},
+																											pos: position{line: 760, col: 26, offset: 24358},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 760, col: 26, offset: 24320},
+																													pos:        position{line: 760, col: 26, offset: 24358},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 760, col: 32, offset: 24326},
+																													pos:   position{line: 760, col: 32, offset: 24364},
 																													label: "language",
 																													expr: &actionExpr{
-																														pos: position{line: 764, col: 13, offset: 24456},
+																														pos: position{line: 764, col: 13, offset: 24494},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 764, col: 14, offset: 24457},
+																															pos: position{line: 764, col: 14, offset: 24495},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 764, col: 14, offset: 24457},
+																																pos:        position{line: 764, col: 14, offset: 24495},
 																																val:        "[^\\r\\n` ]",
 																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
@@ -37665,12 +38101,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 760, col: 52, offset: 24346},
+																													pos: position{line: 760, col: 52, offset: 24384},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1799,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37679,28 +38115,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1802,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37709,9 +38145,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37720,30 +38156,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 754, col: 5, offset: 24117},
 																										run: (*parser).callonListContinuationElement1809,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 5, offset: 24079},
+																											pos: position{line: 754, col: 5, offset: 24117},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 754, col: 5, offset: 24079},
+																													pos:   position{line: 754, col: 5, offset: 24117},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 754, col: 16, offset: 24128},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &seqExpr{
-																															pos: position{line: 754, col: 16, offset: 24090},
+																															pos: position{line: 754, col: 16, offset: 24128},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 754, col: 16, offset: 24090},
+																																	pos:        position{line: 754, col: 16, offset: 24128},
 																																	val:        "```",
 																																	ignoreCase: false,
 																																	want:       "\"```\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 754, col: 22, offset: 24096},
+																																	pos: position{line: 754, col: 22, offset: 24134},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 754, col: 22, offset: 24096},
+																																		pos:        position{line: 754, col: 22, offset: 24134},
 																																		val:        "`",
 																																		ignoreCase: false,
 																																		want:       "\"`\"",
@@ -37754,12 +38190,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 756, col: 8, offset: 24180},
+																													pos: position{line: 756, col: 8, offset: 24218},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1818,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37768,28 +38204,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1821,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37798,9 +38234,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37809,30 +38245,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 769, col: 5, offset: 24654},
 																										run: (*parser).callonListContinuationElement1828,
 																										expr: &seqExpr{
-																											pos: position{line: 769, col: 5, offset: 24616},
+																											pos: position{line: 769, col: 5, offset: 24654},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 769, col: 5, offset: 24616},
+																													pos:   position{line: 769, col: 5, offset: 24654},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 769, col: 16, offset: 24665},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &seqExpr{
-																															pos: position{line: 769, col: 16, offset: 24627},
+																															pos: position{line: 769, col: 16, offset: 24665},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 769, col: 16, offset: 24627},
+																																	pos:        position{line: 769, col: 16, offset: 24665},
 																																	val:        "----",
 																																	ignoreCase: false,
 																																	want:       "\"----\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 769, col: 23, offset: 24634},
+																																	pos: position{line: 769, col: 23, offset: 24672},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 769, col: 23, offset: 24634},
+																																		pos:        position{line: 769, col: 23, offset: 24672},
 																																		val:        "-",
 																																		ignoreCase: false,
 																																		want:       "\"-\"",
@@ -37843,12 +38279,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 771, col: 8, offset: 24718},
+																													pos: position{line: 771, col: 8, offset: 24756},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1837,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37857,28 +38293,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1840,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37887,9 +38323,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37898,30 +38334,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 783, col: 5, offset: 25130},
 																										run: (*parser).callonListContinuationElement1847,
 																										expr: &seqExpr{
-																											pos: position{line: 783, col: 5, offset: 25092},
+																											pos: position{line: 783, col: 5, offset: 25130},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 783, col: 5, offset: 25092},
+																													pos:   position{line: 783, col: 5, offset: 25130},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 783, col: 16, offset: 25141},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &seqExpr{
-																															pos: position{line: 783, col: 16, offset: 25103},
+																															pos: position{line: 783, col: 16, offset: 25141},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 783, col: 16, offset: 25103},
+																																	pos:        position{line: 783, col: 16, offset: 25141},
 																																	val:        "....",
 																																	ignoreCase: false,
 																																	want:       "\"....\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 783, col: 23, offset: 25110},
+																																	pos: position{line: 783, col: 23, offset: 25148},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 783, col: 23, offset: 25110},
+																																		pos:        position{line: 783, col: 23, offset: 25148},
 																																		val:        ".",
 																																		ignoreCase: false,
 																																		want:       "\".\"",
@@ -37932,12 +38368,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 785, col: 8, offset: 25194},
+																													pos: position{line: 785, col: 8, offset: 25232},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1856,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37946,28 +38382,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1859,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37976,9 +38412,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -37987,30 +38423,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 790, col: 5, offset: 25382},
 																										run: (*parser).callonListContinuationElement1866,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 5, offset: 25344},
+																											pos: position{line: 790, col: 5, offset: 25382},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 790, col: 5, offset: 25344},
+																													pos:   position{line: 790, col: 5, offset: 25382},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 790, col: 16, offset: 25393},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &seqExpr{
-																															pos: position{line: 790, col: 16, offset: 25355},
+																															pos: position{line: 790, col: 16, offset: 25393},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 790, col: 16, offset: 25355},
+																																	pos:        position{line: 790, col: 16, offset: 25393},
 																																	val:        "++++",
 																																	ignoreCase: false,
 																																	want:       "\"++++\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 790, col: 23, offset: 25362},
+																																	pos: position{line: 790, col: 23, offset: 25400},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 790, col: 23, offset: 25362},
+																																		pos:        position{line: 790, col: 23, offset: 25400},
 																																		val:        "+",
 																																		ignoreCase: false,
 																																		want:       "\"+\"",
@@ -38021,12 +38457,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 792, col: 8, offset: 25446},
+																													pos: position{line: 792, col: 8, offset: 25484},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1875,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38035,28 +38471,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1878,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38065,9 +38501,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -38076,30 +38512,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 797, col: 5, offset: 25632},
 																										run: (*parser).callonListContinuationElement1885,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 5, offset: 25594},
+																											pos: position{line: 797, col: 5, offset: 25632},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 797, col: 5, offset: 25594},
+																													pos:   position{line: 797, col: 5, offset: 25632},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 797, col: 16, offset: 25643},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &seqExpr{
-																															pos: position{line: 797, col: 16, offset: 25605},
+																															pos: position{line: 797, col: 16, offset: 25643},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 797, col: 16, offset: 25605},
+																																	pos:        position{line: 797, col: 16, offset: 25643},
 																																	val:        "____",
 																																	ignoreCase: false,
 																																	want:       "\"____\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 797, col: 23, offset: 25612},
+																																	pos: position{line: 797, col: 23, offset: 25650},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 797, col: 23, offset: 25612},
+																																		pos:        position{line: 797, col: 23, offset: 25650},
 																																		val:        "_",
 																																		ignoreCase: false,
 																																		want:       "\"_\"",
@@ -38110,12 +38546,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 799, col: 8, offset: 25696},
+																													pos: position{line: 799, col: 8, offset: 25734},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1894,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38124,28 +38560,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1897,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38154,9 +38590,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -38165,30 +38601,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 804, col: 5, offset: 25878},
 																										run: (*parser).callonListContinuationElement1904,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 5, offset: 25840},
+																											pos: position{line: 804, col: 5, offset: 25878},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 804, col: 5, offset: 25840},
+																													pos:   position{line: 804, col: 5, offset: 25878},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 804, col: 16, offset: 25889},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &seqExpr{
-																															pos: position{line: 804, col: 16, offset: 25851},
+																															pos: position{line: 804, col: 16, offset: 25889},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 804, col: 16, offset: 25851},
+																																	pos:        position{line: 804, col: 16, offset: 25889},
 																																	val:        "****",
 																																	ignoreCase: false,
 																																	want:       "\"****\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 804, col: 23, offset: 25858},
+																																	pos: position{line: 804, col: 23, offset: 25896},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 804, col: 23, offset: 25858},
+																																		pos:        position{line: 804, col: 23, offset: 25896},
 																																		val:        "*",
 																																		ignoreCase: false,
 																																		want:       "\"*\"",
@@ -38199,12 +38635,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 806, col: 8, offset: 25942},
+																													pos: position{line: 806, col: 8, offset: 25980},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90589},
+																														pos: position{line: 2861, col: 10, offset: 90627},
 																														run: (*parser).callonListContinuationElement1913,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90589},
+																															pos:        position{line: 2861, col: 10, offset: 90627},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38213,28 +38649,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 90987},
+																													pos: position{line: 2883, col: 8, offset: 91025},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90760},
+																															pos: position{line: 2870, col: 12, offset: 90798},
 																															run: (*parser).callonListContinuationElement1916,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90761},
+																																pos: position{line: 2870, col: 13, offset: 90799},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90761},
+																																		pos:        position{line: 2870, col: 13, offset: 90799},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90768},
+																																		pos:        position{line: 2870, col: 20, offset: 90806},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90777},
+																																		pos:        position{line: 2870, col: 29, offset: 90815},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38243,9 +38679,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90937},
+																															pos: position{line: 2880, col: 8, offset: 90975},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90938,
+																																line: 2880, col: 9, offset: 90976,
 																															},
 																														},
 																													},
@@ -38260,19 +38696,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 776, col: 5, offset: 24861},
+																				pos: position{line: 776, col: 5, offset: 24899},
 																				run: (*parser).callonListContinuationElement1923,
 																				expr: &seqExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 776, col: 5, offset: 24899},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 776, col: 5, offset: 24861},
+																							pos:   position{line: 776, col: 5, offset: 24899},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 776, col: 16, offset: 24872},
+																								pos: position{line: 776, col: 16, offset: 24910},
 																								run: (*parser).callonListContinuationElement1926,
 																								expr: &litMatcher{
-																									pos:        position{line: 776, col: 16, offset: 24872},
+																									pos:        position{line: 776, col: 16, offset: 24910},
 																									val:        "--",
 																									ignoreCase: false,
 																									want:       "\"--\"",
@@ -38280,12 +38716,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 778, col: 8, offset: 24949},
+																							pos: position{line: 778, col: 8, offset: 24987},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90589},
+																								pos: position{line: 2861, col: 10, offset: 90627},
 																								run: (*parser).callonListContinuationElement1929,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90589},
+																									pos:        position{line: 2861, col: 10, offset: 90627},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38294,28 +38730,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 90987},
+																							pos: position{line: 2883, col: 8, offset: 91025},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90760},
+																									pos: position{line: 2870, col: 12, offset: 90798},
 																									run: (*parser).callonListContinuationElement1932,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90761},
+																										pos: position{line: 2870, col: 13, offset: 90799},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90761},
+																												pos:        position{line: 2870, col: 13, offset: 90799},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90768},
+																												pos:        position{line: 2870, col: 20, offset: 90806},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90777},
+																												pos:        position{line: 2870, col: 29, offset: 90815},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38324,9 +38760,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90937},
+																									pos: position{line: 2880, col: 8, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90938,
+																										line: 2880, col: 9, offset: 90976,
 																									},
 																								},
 																							},
@@ -38335,21 +38771,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2603, col: 19, offset: 83272},
+																				pos: position{line: 2603, col: 19, offset: 83310},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2603, col: 19, offset: 83272},
+																						pos:        position{line: 2603, col: 19, offset: 83310},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2603, col: 26, offset: 83279},
+																						pos: position{line: 2603, col: 26, offset: 83317},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonListContinuationElement1942,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38358,28 +38794,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 90987},
+																						pos: position{line: 2883, col: 8, offset: 91025},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90760},
+																								pos: position{line: 2870, col: 12, offset: 90798},
 																								run: (*parser).callonListContinuationElement1945,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90761},
+																									pos: position{line: 2870, col: 13, offset: 90799},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90761},
+																											pos:        position{line: 2870, col: 13, offset: 90799},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90768},
+																											pos:        position{line: 2870, col: 20, offset: 90806},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90777},
+																											pos:        position{line: 2870, col: 29, offset: 90815},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38388,9 +38824,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90937},
+																								pos: position{line: 2880, col: 8, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90938,
+																									line: 2880, col: 9, offset: 90976,
 																								},
 																							},
 																						},
@@ -38401,15 +38837,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1520, col: 5, offset: 49254},
+																	pos:   position{line: 1520, col: 5, offset: 49292},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2811, col: 14, offset: 89182},
+																		pos: position{line: 2811, col: 14, offset: 89220},
 																		run: (*parser).callonListContinuationElement1953,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2811, col: 14, offset: 89182},
+																			pos: position{line: 2811, col: 14, offset: 89220},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2811, col: 14, offset: 89182},
+																				pos:        position{line: 2811, col: 14, offset: 89220},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38419,28 +38855,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonListContinuationElement1957,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38449,9 +38885,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -38472,33 +38908,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1708, col: 1, offset: 55094},
+			pos:  position{line: 1708, col: 1, offset: 55132},
 			expr: &actionExpr{
-				pos: position{line: 1710, col: 5, offset: 55172},
+				pos: position{line: 1710, col: 5, offset: 55210},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1710, col: 5, offset: 55172},
+					pos: position{line: 1710, col: 5, offset: 55210},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1710, col: 5, offset: 55172},
+							pos: position{line: 1710, col: 5, offset: 55210},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 5, offset: 55239},
+							pos:        position{line: 1713, col: 5, offset: 55277},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1713, col: 9, offset: 55243},
+							pos:   position{line: 1713, col: 9, offset: 55281},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1713, col: 14, offset: 55248},
+								pos: position{line: 1713, col: 14, offset: 55286},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1713, col: 14, offset: 55248},
+									pos: position{line: 1713, col: 14, offset: 55286},
 									expr: &charClassMatcher{
-										pos:        position{line: 1713, col: 14, offset: 55248},
+										pos:        position{line: 1713, col: 14, offset: 55286},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38508,18 +38944,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 62, offset: 55296},
+							pos:        position{line: 1713, col: 62, offset: 55334},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1713, col: 66, offset: 55300},
+							pos: position{line: 1713, col: 66, offset: 55338},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38528,30 +38964,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1713, col: 73, offset: 55307},
+							pos: position{line: 1713, col: 73, offset: 55345},
 							expr: &choiceExpr{
-								pos: position{line: 1713, col: 75, offset: 55309},
+								pos: position{line: 1713, col: 75, offset: 55347},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90760},
+										pos: position{line: 2870, col: 12, offset: 90798},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90761},
+											pos: position{line: 2870, col: 13, offset: 90799},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90761},
+													pos:        position{line: 2870, col: 13, offset: 90799},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90768},
+													pos:        position{line: 2870, col: 20, offset: 90806},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90777},
+													pos:        position{line: 2870, col: 29, offset: 90815},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38560,13 +38996,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2880, col: 8, offset: 90937},
+										pos: position{line: 2880, col: 8, offset: 90975},
 										expr: &anyMatcher{
-											line: 2880, col: 9, offset: 90938,
+											line: 2880, col: 9, offset: 90976,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1713, col: 81, offset: 55315},
+										pos:  position{line: 1713, col: 81, offset: 55353},
 										name: "Callout",
 									},
 								},
@@ -38578,44 +39014,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1752, col: 1, offset: 56488},
+			pos:  position{line: 1752, col: 1, offset: 56526},
 			expr: &actionExpr{
-				pos: position{line: 1754, col: 5, offset: 56562},
+				pos: position{line: 1754, col: 5, offset: 56600},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1754, col: 5, offset: 56562},
+					pos: position{line: 1754, col: 5, offset: 56600},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1754, col: 5, offset: 56562},
+							pos: position{line: 1754, col: 5, offset: 56600},
 							expr: &seqExpr{
-								pos: position{line: 1754, col: 7, offset: 56564},
+								pos: position{line: 1754, col: 7, offset: 56602},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2751, col: 13, offset: 87684},
+										pos:        position{line: 2751, col: 13, offset: 87722},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1754, col: 16, offset: 56573},
+										pos: position{line: 1754, col: 16, offset: 56611},
 										expr: &seqExpr{
-											pos: position{line: 1754, col: 18, offset: 56575},
+											pos: position{line: 1754, col: 18, offset: 56613},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1754, col: 19, offset: 56576},
+													pos:        position{line: 1754, col: 19, offset: 56614},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2865, col: 11, offset: 90650},
+													pos: position{line: 2865, col: 11, offset: 90688},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2865, col: 11, offset: 90650},
+														pos: position{line: 2865, col: 11, offset: 90688},
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 11, offset: 90650},
+															pos:        position{line: 2865, col: 11, offset: 90688},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38630,88 +39066,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56716},
+							pos:   position{line: 1755, col: 5, offset: 56754},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1755, col: 11, offset: 56722},
+								pos: position{line: 1755, col: 11, offset: 56760},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 55985},
+									pos: position{line: 1733, col: 5, offset: 56023},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 55985},
+										pos: position{line: 1733, col: 5, offset: 56023},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 55985},
+												pos: position{line: 1733, col: 5, offset: 56023},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56048},
+												pos:   position{line: 1736, col: 5, offset: 56086},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56055},
+													pos: position{line: 1736, col: 12, offset: 56093},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56055},
+															pos: position{line: 1736, col: 12, offset: 56093},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56055},
+																pos:        position{line: 1736, col: 12, offset: 56093},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56111},
+															pos: position{line: 1738, col: 13, offset: 56149},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56111},
+																pos:        position{line: 1738, col: 13, offset: 56149},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56169},
+															pos: position{line: 1740, col: 13, offset: 56207},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56169},
+																pos:        position{line: 1740, col: 13, offset: 56207},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56237},
+															pos: position{line: 1742, col: 13, offset: 56275},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56237},
+																pos:        position{line: 1742, col: 13, offset: 56275},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56301},
+															pos: position{line: 1744, col: 13, offset: 56339},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56301},
+																pos:        position{line: 1744, col: 13, offset: 56339},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56365},
+															pos: position{line: 1746, col: 13, offset: 56403},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56365},
+																pos: position{line: 1746, col: 13, offset: 56403},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38730,24 +39166,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56744},
+							pos:   position{line: 1756, col: 5, offset: 56782},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1793, col: 5, offset: 57955},
+								pos: position{line: 1793, col: 5, offset: 57993},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1793, col: 5, offset: 57955},
+									pos: position{line: 1793, col: 5, offset: 57993},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1793, col: 5, offset: 57955},
+											pos:   position{line: 1793, col: 5, offset: 57993},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2811, col: 14, offset: 89182},
+												pos: position{line: 2811, col: 14, offset: 89220},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2811, col: 14, offset: 89182},
+													pos: position{line: 2811, col: 14, offset: 89220},
 													expr: &charClassMatcher{
-														pos:        position{line: 2811, col: 14, offset: 89182},
+														pos:        position{line: 2811, col: 14, offset: 89220},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38757,32 +39193,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1794, col: 5, offset: 57979},
+											pos: position{line: 1794, col: 5, offset: 58017},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2883, col: 8, offset: 90987},
+											pos: position{line: 2883, col: 8, offset: 91025},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2870, col: 12, offset: 90760},
+													pos: position{line: 2870, col: 12, offset: 90798},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2870, col: 13, offset: 90761},
+														pos: position{line: 2870, col: 13, offset: 90799},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2870, col: 13, offset: 90761},
+																pos:        position{line: 2870, col: 13, offset: 90799},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 20, offset: 90768},
+																pos:        position{line: 2870, col: 20, offset: 90806},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 29, offset: 90777},
+																pos:        position{line: 2870, col: 29, offset: 90815},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38791,9 +39227,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -38803,47 +39239,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1757, col: 5, offset: 56778},
+							pos: position{line: 1757, col: 5, offset: 56816},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57108},
+							pos:   position{line: 1764, col: 5, offset: 57146},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1764, col: 16, offset: 57119},
+								pos: position{line: 1764, col: 16, offset: 57157},
 								expr: &actionExpr{
-									pos: position{line: 1765, col: 9, offset: 57129},
+									pos: position{line: 1765, col: 9, offset: 57167},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1765, col: 9, offset: 57129},
+										pos: position{line: 1765, col: 9, offset: 57167},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90923},
+												pos: position{line: 2878, col: 11, offset: 90961},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90925,
+													line: 2878, col: 13, offset: 90963,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57145},
+												pos: position{line: 1766, col: 9, offset: 57183},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21508},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38852,28 +39288,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38882,9 +39318,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -38894,27 +39330,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57164},
+												pos: position{line: 1767, col: 9, offset: 57202},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1767, col: 10, offset: 57165},
+													pos:  position{line: 1767, col: 10, offset: 57203},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57189},
+												pos: position{line: 1768, col: 9, offset: 57227},
 												expr: &choiceExpr{
-													pos: position{line: 1768, col: 11, offset: 57191},
+													pos: position{line: 1768, col: 11, offset: 57229},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 724, col: 5, offset: 23080},
 															run: (*parser).callonShortcutParagraph77,
 															expr: &seqExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 724, col: 5, offset: 23080},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 724, col: 5, offset: 23080},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2751, col: 13, offset: 87684},
+																			pos:        position{line: 2751, col: 13, offset: 87722},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -38922,36 +39358,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 725, col: 5, offset: 23072},
+																		pos:   position{line: 725, col: 5, offset: 23110},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 726, col: 9, offset: 23092},
+																			pos: position{line: 726, col: 9, offset: 23130},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23622},
 																					run: (*parser).callonShortcutParagraph83,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23622},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23622},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23633},
 																									run: (*parser).callonShortcutParagraph86,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23633},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23633},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23640},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23640},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -38962,12 +39398,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23724},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph92,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38976,28 +39412,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph95,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39006,9 +39442,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39017,30 +39453,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23870},
 																					run: (*parser).callonShortcutParagraph102,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23870},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 747, col: 5, offset: 23870},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23881},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23881},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 747, col: 16, offset: 23881},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 747, col: 23, offset: 23888},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 747, col: 23, offset: 23888},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -39051,12 +39487,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph111,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39065,28 +39501,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph114,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39095,9 +39531,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39106,27 +39542,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 760, col: 26, offset: 24358},
 																					run: (*parser).callonShortcutParagraph121,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 26, offset: 24320},
+																						pos: position{line: 760, col: 26, offset: 24358},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 760, col: 26, offset: 24320},
+																								pos:        position{line: 760, col: 26, offset: 24358},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 32, offset: 24326},
+																								pos:   position{line: 760, col: 32, offset: 24364},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 13, offset: 24456},
+																									pos: position{line: 764, col: 13, offset: 24494},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 764, col: 14, offset: 24457},
+																										pos: position{line: 764, col: 14, offset: 24495},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 764, col: 14, offset: 24457},
+																											pos:        position{line: 764, col: 14, offset: 24495},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -39136,12 +39572,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 760, col: 52, offset: 24346},
+																								pos: position{line: 760, col: 52, offset: 24384},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph129,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39150,28 +39586,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph132,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39180,9 +39616,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39191,30 +39627,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24117},
 																					run: (*parser).callonShortcutParagraph139,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24117},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 754, col: 5, offset: 24117},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24128},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24128},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 754, col: 16, offset: 24128},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 754, col: 22, offset: 24134},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 754, col: 22, offset: 24134},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -39225,12 +39661,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph148,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39239,28 +39675,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph151,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39269,9 +39705,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39280,30 +39716,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24654},
 																					run: (*parser).callonShortcutParagraph158,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24654},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 769, col: 5, offset: 24654},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24665},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 769, col: 16, offset: 24665},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 769, col: 23, offset: 24672},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 769, col: 23, offset: 24672},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -39314,12 +39750,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph167,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39328,28 +39764,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph170,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39358,9 +39794,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39369,30 +39805,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25130},
 																					run: (*parser).callonShortcutParagraph177,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25130},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 783, col: 5, offset: 25130},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25141},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25141},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 783, col: 16, offset: 25141},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 783, col: 23, offset: 25148},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 783, col: 23, offset: 25148},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -39403,12 +39839,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph186,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39417,28 +39853,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph189,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39447,9 +39883,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39458,30 +39894,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25382},
 																					run: (*parser).callonShortcutParagraph196,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25382},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 790, col: 5, offset: 25382},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25393},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25393},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 790, col: 16, offset: 25393},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 790, col: 23, offset: 25400},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 790, col: 23, offset: 25400},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -39492,12 +39928,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph205,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39506,28 +39942,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph208,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39536,9 +39972,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39547,30 +39983,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25632},
 																					run: (*parser).callonShortcutParagraph215,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25632},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 797, col: 5, offset: 25632},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25643},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 797, col: 16, offset: 25643},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 797, col: 23, offset: 25650},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 797, col: 23, offset: 25650},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -39581,12 +40017,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph224,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39595,28 +40031,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph227,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39625,9 +40061,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39636,30 +40072,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25878},
 																					run: (*parser).callonShortcutParagraph234,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25878},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 804, col: 5, offset: 25878},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25889},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25889},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 804, col: 16, offset: 25889},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 804, col: 23, offset: 25896},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 804, col: 23, offset: 25896},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -39670,12 +40106,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonShortcutParagraph243,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39684,28 +40120,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonShortcutParagraph246,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39714,9 +40150,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -39731,19 +40167,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24899},
 															run: (*parser).callonShortcutParagraph253,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24899},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 776, col: 5, offset: 24899},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 776, col: 16, offset: 24910},
 																			run: (*parser).callonShortcutParagraph256,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 776, col: 16, offset: 24910},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -39751,12 +40187,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonShortcutParagraph259,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -39765,28 +40201,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonShortcutParagraph262,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39795,9 +40231,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -39806,21 +40242,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83272},
+															pos: position{line: 2603, col: 19, offset: 83310},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83272},
+																	pos:        position{line: 2603, col: 19, offset: 83310},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83279},
+																	pos: position{line: 2603, col: 26, offset: 83317},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonShortcutParagraph272,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39829,28 +40265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonShortcutParagraph275,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39859,9 +40295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -39872,23 +40308,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57253},
+												pos: position{line: 1769, col: 9, offset: 57291},
 												expr: &seqExpr{
-													pos: position{line: 1544, col: 27, offset: 49907},
+													pos: position{line: 1544, col: 27, offset: 49945},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1544, col: 27, offset: 49907},
+															pos:        position{line: 1544, col: 27, offset: 49945},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1544, col: 31, offset: 49911},
+															pos: position{line: 1544, col: 31, offset: 49949},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90589},
+																pos: position{line: 2861, col: 10, offset: 90627},
 																run: (*parser).callonShortcutParagraph286,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90589},
+																	pos:        position{line: 2861, col: 10, offset: 90627},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39897,25 +40333,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonShortcutParagraph288,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39927,42 +40363,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1770, col: 9, offset: 57285},
+												pos:   position{line: 1770, col: 9, offset: 57323},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1770, col: 15, offset: 57291},
+													pos: position{line: 1770, col: 15, offset: 57329},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79574},
+															pos: position{line: 2471, col: 22, offset: 79612},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79574},
+																pos: position{line: 2471, col: 22, offset: 79612},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79795},
+																		pos:        position{line: 2476, col: 31, offset: 79833},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79800},
+																		pos: position{line: 2476, col: 36, offset: 79838},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79801},
+																			pos:        position{line: 2476, col: 37, offset: 79839},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79601},
+																		pos:   position{line: 2471, col: 49, offset: 79639},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89115},
+																			pos: position{line: 2807, col: 13, offset: 89153},
 																			run: (*parser).callonShortcutParagraph301,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89115},
+																				pos: position{line: 2807, col: 13, offset: 89153},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89115},
+																					pos:        position{line: 2807, col: 13, offset: 89153},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39972,28 +40408,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonShortcutParagraph305,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40002,9 +40438,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -40013,21 +40449,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1793, col: 5, offset: 57955},
+															pos: position{line: 1793, col: 5, offset: 57993},
 															run: (*parser).callonShortcutParagraph312,
 															expr: &seqExpr{
-																pos: position{line: 1793, col: 5, offset: 57955},
+																pos: position{line: 1793, col: 5, offset: 57993},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1793, col: 5, offset: 57955},
+																		pos:   position{line: 1793, col: 5, offset: 57993},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89182},
+																			pos: position{line: 2811, col: 14, offset: 89220},
 																			run: (*parser).callonShortcutParagraph315,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89182},
+																				pos: position{line: 2811, col: 14, offset: 89220},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89182},
+																					pos:        position{line: 2811, col: 14, offset: 89220},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40037,32 +40473,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1794, col: 5, offset: 57979},
+																		pos: position{line: 1794, col: 5, offset: 58017},
 																		run: (*parser).callonShortcutParagraph318,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonShortcutParagraph320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40071,9 +40507,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -40095,96 +40531,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1777, col: 1, offset: 57495},
+			pos:  position{line: 1777, col: 1, offset: 57533},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57513},
+				pos: position{line: 1778, col: 5, offset: 57551},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57513},
+					pos: position{line: 1778, col: 5, offset: 57551},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57513},
+							pos:   position{line: 1778, col: 5, offset: 57551},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1778, col: 11, offset: 57519},
+								pos: position{line: 1778, col: 11, offset: 57557},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 55985},
+									pos: position{line: 1733, col: 5, offset: 56023},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 55985},
+										pos: position{line: 1733, col: 5, offset: 56023},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 55985},
+												pos: position{line: 1733, col: 5, offset: 56023},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56048},
+												pos:   position{line: 1736, col: 5, offset: 56086},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56055},
+													pos: position{line: 1736, col: 12, offset: 56093},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56055},
+															pos: position{line: 1736, col: 12, offset: 56093},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56055},
+																pos:        position{line: 1736, col: 12, offset: 56093},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56111},
+															pos: position{line: 1738, col: 13, offset: 56149},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56111},
+																pos:        position{line: 1738, col: 13, offset: 56149},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56169},
+															pos: position{line: 1740, col: 13, offset: 56207},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56169},
+																pos:        position{line: 1740, col: 13, offset: 56207},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56237},
+															pos: position{line: 1742, col: 13, offset: 56275},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56237},
+																pos:        position{line: 1742, col: 13, offset: 56275},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56301},
+															pos: position{line: 1744, col: 13, offset: 56339},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56301},
+																pos:        position{line: 1744, col: 13, offset: 56339},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56365},
+															pos: position{line: 1746, col: 13, offset: 56403},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56365},
+																pos: position{line: 1746, col: 13, offset: 56403},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90650},
+																	pos: position{line: 2865, col: 11, offset: 90688},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90650},
+																		pos: position{line: 2865, col: 11, offset: 90688},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90650},
+																			pos:        position{line: 2865, col: 11, offset: 90688},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40203,24 +40639,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57542},
+							pos:   position{line: 1779, col: 5, offset: 57580},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1793, col: 5, offset: 57955},
+								pos: position{line: 1793, col: 5, offset: 57993},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1793, col: 5, offset: 57955},
+									pos: position{line: 1793, col: 5, offset: 57993},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1793, col: 5, offset: 57955},
+											pos:   position{line: 1793, col: 5, offset: 57993},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2811, col: 14, offset: 89182},
+												pos: position{line: 2811, col: 14, offset: 89220},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2811, col: 14, offset: 89182},
+													pos: position{line: 2811, col: 14, offset: 89220},
 													expr: &charClassMatcher{
-														pos:        position{line: 2811, col: 14, offset: 89182},
+														pos:        position{line: 2811, col: 14, offset: 89220},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40230,32 +40666,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1794, col: 5, offset: 57979},
+											pos: position{line: 1794, col: 5, offset: 58017},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2883, col: 8, offset: 90987},
+											pos: position{line: 2883, col: 8, offset: 91025},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2870, col: 12, offset: 90760},
+													pos: position{line: 2870, col: 12, offset: 90798},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2870, col: 13, offset: 90761},
+														pos: position{line: 2870, col: 13, offset: 90799},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2870, col: 13, offset: 90761},
+																pos:        position{line: 2870, col: 13, offset: 90799},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 20, offset: 90768},
+																pos:        position{line: 2870, col: 20, offset: 90806},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 29, offset: 90777},
+																pos:        position{line: 2870, col: 29, offset: 90815},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40264,9 +40700,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90937},
+													pos: position{line: 2880, col: 8, offset: 90975},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90938,
+														line: 2880, col: 9, offset: 90976,
 													},
 												},
 											},
@@ -40276,43 +40712,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57576},
+							pos:   position{line: 1780, col: 5, offset: 57614},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1780, col: 16, offset: 57587},
+								pos: position{line: 1780, col: 16, offset: 57625},
 								expr: &actionExpr{
-									pos: position{line: 1781, col: 9, offset: 57597},
+									pos: position{line: 1781, col: 9, offset: 57635},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1781, col: 9, offset: 57597},
+										pos: position{line: 1781, col: 9, offset: 57635},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90923},
+												pos: position{line: 2878, col: 11, offset: 90961},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90925,
+													line: 2878, col: 13, offset: 90963,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57612},
+												pos: position{line: 1782, col: 9, offset: 57650},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21508},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90923},
+																pos: position{line: 2878, col: 11, offset: 90961},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90925,
+																	line: 2878, col: 13, offset: 90963,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40321,28 +40757,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 90987},
+																pos: position{line: 2883, col: 8, offset: 91025},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90760},
+																		pos: position{line: 2870, col: 12, offset: 90798},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90761},
+																			pos: position{line: 2870, col: 13, offset: 90799},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90761},
+																					pos:        position{line: 2870, col: 13, offset: 90799},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90768},
+																					pos:        position{line: 2870, col: 20, offset: 90806},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90777},
+																					pos:        position{line: 2870, col: 29, offset: 90815},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40351,9 +40787,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90937},
+																		pos: position{line: 2880, col: 8, offset: 90975},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90938,
+																			line: 2880, col: 9, offset: 90976,
 																		},
 																	},
 																},
@@ -40363,27 +40799,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57631},
+												pos: position{line: 1783, col: 9, offset: 57669},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1783, col: 10, offset: 57632},
+													pos:  position{line: 1783, col: 10, offset: 57670},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1784, col: 9, offset: 57656},
+												pos: position{line: 1784, col: 9, offset: 57694},
 												expr: &choiceExpr{
-													pos: position{line: 1784, col: 11, offset: 57658},
+													pos: position{line: 1784, col: 11, offset: 57696},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 724, col: 5, offset: 23080},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 724, col: 5, offset: 23080},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 724, col: 5, offset: 23080},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2751, col: 13, offset: 87684},
+																			pos:        position{line: 2751, col: 13, offset: 87722},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40391,36 +40827,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 725, col: 5, offset: 23072},
+																		pos:   position{line: 725, col: 5, offset: 23110},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 726, col: 9, offset: 23092},
+																			pos: position{line: 726, col: 9, offset: 23130},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23622},
 																					run: (*parser).callonParagraph73,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23622},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23622},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23633},
 																									run: (*parser).callonParagraph76,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23633},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23633},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23640},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23640},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -40431,12 +40867,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23724},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph82,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40445,28 +40881,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph85,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40475,9 +40911,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40486,30 +40922,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23870},
 																					run: (*parser).callonParagraph92,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23870},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 747, col: 5, offset: 23870},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23881},
 																									run: (*parser).callonParagraph95,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23881},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 747, col: 16, offset: 23881},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 747, col: 23, offset: 23888},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 747, col: 23, offset: 23888},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -40520,12 +40956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph101,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40534,28 +40970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph104,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40564,9 +41000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40575,27 +41011,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 760, col: 26, offset: 24358},
 																					run: (*parser).callonParagraph111,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 26, offset: 24320},
+																						pos: position{line: 760, col: 26, offset: 24358},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 760, col: 26, offset: 24320},
+																								pos:        position{line: 760, col: 26, offset: 24358},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 32, offset: 24326},
+																								pos:   position{line: 760, col: 32, offset: 24364},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 13, offset: 24456},
+																									pos: position{line: 764, col: 13, offset: 24494},
 																									run: (*parser).callonParagraph115,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 764, col: 14, offset: 24457},
+																										pos: position{line: 764, col: 14, offset: 24495},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 764, col: 14, offset: 24457},
+																											pos:        position{line: 764, col: 14, offset: 24495},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -40605,12 +41041,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 760, col: 52, offset: 24346},
+																								pos: position{line: 760, col: 52, offset: 24384},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph119,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40619,28 +41055,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph122,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40649,9 +41085,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40660,30 +41096,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24117},
 																					run: (*parser).callonParagraph129,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24117},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 754, col: 5, offset: 24117},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24128},
 																									run: (*parser).callonParagraph132,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24128},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 754, col: 16, offset: 24128},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 754, col: 22, offset: 24134},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 754, col: 22, offset: 24134},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -40694,12 +41130,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph138,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40708,28 +41144,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph141,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40738,9 +41174,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40749,30 +41185,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24654},
 																					run: (*parser).callonParagraph148,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24654},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 769, col: 5, offset: 24654},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24665},
 																									run: (*parser).callonParagraph151,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 769, col: 16, offset: 24665},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 769, col: 23, offset: 24672},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 769, col: 23, offset: 24672},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -40783,12 +41219,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph157,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40797,28 +41233,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph160,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40827,9 +41263,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40838,30 +41274,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25130},
 																					run: (*parser).callonParagraph167,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25130},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 783, col: 5, offset: 25130},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25141},
 																									run: (*parser).callonParagraph170,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25141},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 783, col: 16, offset: 25141},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 783, col: 23, offset: 25148},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 783, col: 23, offset: 25148},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -40872,12 +41308,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph176,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40886,28 +41322,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph179,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40916,9 +41352,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -40927,30 +41363,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25382},
 																					run: (*parser).callonParagraph186,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25382},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 790, col: 5, offset: 25382},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25393},
 																									run: (*parser).callonParagraph189,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25393},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 790, col: 16, offset: 25393},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 790, col: 23, offset: 25400},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 790, col: 23, offset: 25400},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -40961,12 +41397,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph195,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40975,28 +41411,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph198,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41005,9 +41441,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -41016,30 +41452,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25632},
 																					run: (*parser).callonParagraph205,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25632},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 797, col: 5, offset: 25632},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25643},
 																									run: (*parser).callonParagraph208,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25643},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 797, col: 16, offset: 25643},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 797, col: 23, offset: 25650},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 797, col: 23, offset: 25650},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -41050,12 +41486,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph214,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41064,28 +41500,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph217,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41094,9 +41530,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -41105,30 +41541,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25878},
 																					run: (*parser).callonParagraph224,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25878},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 804, col: 5, offset: 25878},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25889},
 																									run: (*parser).callonParagraph227,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25889},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 804, col: 16, offset: 25889},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 804, col: 23, offset: 25896},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 804, col: 23, offset: 25896},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -41139,12 +41575,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90589},
+																									pos: position{line: 2861, col: 10, offset: 90627},
 																									run: (*parser).callonParagraph233,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90589},
+																										pos:        position{line: 2861, col: 10, offset: 90627},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41153,28 +41589,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 90987},
+																								pos: position{line: 2883, col: 8, offset: 91025},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90760},
+																										pos: position{line: 2870, col: 12, offset: 90798},
 																										run: (*parser).callonParagraph236,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90761},
+																											pos: position{line: 2870, col: 13, offset: 90799},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90761},
+																													pos:        position{line: 2870, col: 13, offset: 90799},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90768},
+																													pos:        position{line: 2870, col: 20, offset: 90806},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90777},
+																													pos:        position{line: 2870, col: 29, offset: 90815},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41183,9 +41619,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90937},
+																										pos: position{line: 2880, col: 8, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90938,
+																											line: 2880, col: 9, offset: 90976,
 																										},
 																									},
 																								},
@@ -41200,19 +41636,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24899},
 															run: (*parser).callonParagraph243,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24899},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 776, col: 5, offset: 24899},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 776, col: 16, offset: 24910},
 																			run: (*parser).callonParagraph246,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 776, col: 16, offset: 24910},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -41220,12 +41656,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonParagraph249,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41234,28 +41670,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonParagraph252,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41264,9 +41700,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -41275,21 +41711,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83272},
+															pos: position{line: 2603, col: 19, offset: 83310},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83272},
+																	pos:        position{line: 2603, col: 19, offset: 83310},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83279},
+																	pos: position{line: 2603, col: 26, offset: 83317},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonParagraph262,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41298,28 +41734,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonParagraph265,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41328,9 +41764,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -41341,42 +41777,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1785, col: 9, offset: 57720},
+												pos:   position{line: 1785, col: 9, offset: 57758},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1785, col: 15, offset: 57726},
+													pos: position{line: 1785, col: 15, offset: 57764},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79574},
+															pos: position{line: 2471, col: 22, offset: 79612},
 															run: (*parser).callonParagraph274,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79574},
+																pos: position{line: 2471, col: 22, offset: 79612},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79795},
+																		pos:        position{line: 2476, col: 31, offset: 79833},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79800},
+																		pos: position{line: 2476, col: 36, offset: 79838},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79801},
+																			pos:        position{line: 2476, col: 37, offset: 79839},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79601},
+																		pos:   position{line: 2471, col: 49, offset: 79639},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89115},
+																			pos: position{line: 2807, col: 13, offset: 89153},
 																			run: (*parser).callonParagraph280,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89115},
+																				pos: position{line: 2807, col: 13, offset: 89153},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89115},
+																					pos:        position{line: 2807, col: 13, offset: 89153},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41386,28 +41822,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonParagraph284,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41416,9 +41852,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -41427,21 +41863,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1793, col: 5, offset: 57955},
+															pos: position{line: 1793, col: 5, offset: 57993},
 															run: (*parser).callonParagraph291,
 															expr: &seqExpr{
-																pos: position{line: 1793, col: 5, offset: 57955},
+																pos: position{line: 1793, col: 5, offset: 57993},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1793, col: 5, offset: 57955},
+																		pos:   position{line: 1793, col: 5, offset: 57993},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89182},
+																			pos: position{line: 2811, col: 14, offset: 89220},
 																			run: (*parser).callonParagraph294,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89182},
+																				pos: position{line: 2811, col: 14, offset: 89220},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89182},
+																					pos:        position{line: 2811, col: 14, offset: 89220},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41451,32 +41887,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1794, col: 5, offset: 57979},
+																		pos: position{line: 1794, col: 5, offset: 58017},
 																		run: (*parser).callonParagraph297,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 90987},
+																		pos: position{line: 2883, col: 8, offset: 91025},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonParagraph299,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41485,9 +41921,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90937},
+																				pos: position{line: 2880, col: 8, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90938,
+																					line: 2880, col: 9, offset: 90976,
 																				},
 																			},
 																		},
@@ -41509,16 +41945,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1804, col: 1, offset: 58465},
+			pos:  position{line: 1804, col: 1, offset: 58503},
 			expr: &choiceExpr{
-				pos: position{line: 1804, col: 15, offset: 58479},
+				pos: position{line: 1804, col: 15, offset: 58517},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1804, col: 15, offset: 58479},
+						pos:  position{line: 1804, col: 15, offset: 58517},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1804, col: 35, offset: 58499},
+						pos:  position{line: 1804, col: 35, offset: 58537},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41526,65 +41962,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58520},
+			pos:  position{line: 1806, col: 1, offset: 58558},
 			expr: &actionExpr{
-				pos: position{line: 1807, col: 5, offset: 58545},
+				pos: position{line: 1807, col: 5, offset: 58583},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1807, col: 5, offset: 58545},
+					pos: position{line: 1807, col: 5, offset: 58583},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1807, col: 5, offset: 58545},
+							pos:   position{line: 1807, col: 5, offset: 58583},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1807, col: 16, offset: 58556},
+								pos: position{line: 1807, col: 16, offset: 58594},
 								expr: &actionExpr{
-									pos: position{line: 1807, col: 17, offset: 58557},
+									pos: position{line: 1807, col: 17, offset: 58595},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1807, col: 17, offset: 58557},
+										pos:  position{line: 1807, col: 17, offset: 58595},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1810, col: 5, offset: 58625},
+							pos: position{line: 1810, col: 5, offset: 58663},
 							expr: &litMatcher{
-								pos:        position{line: 1810, col: 7, offset: 58627},
+								pos:        position{line: 1810, col: 7, offset: 58665},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58636},
+							pos:   position{line: 1811, col: 5, offset: 58674},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1812, col: 9, offset: 58654},
+								pos: position{line: 1812, col: 9, offset: 58692},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 9, offset: 58654},
+										pos:  position{line: 1812, col: 9, offset: 58692},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58681},
+										pos:  position{line: 1813, col: 11, offset: 58719},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58709},
+										pos:  position{line: 1814, col: 11, offset: 58747},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58740},
+										pos:  position{line: 1815, col: 11, offset: 58778},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58768},
+										pos:  position{line: 1816, col: 11, offset: 58806},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58799},
+										pos:  position{line: 1817, col: 11, offset: 58837},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41596,36 +42032,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1822, col: 1, offset: 58919},
+			pos:  position{line: 1822, col: 1, offset: 58957},
 			expr: &actionExpr{
-				pos: position{line: 1823, col: 5, offset: 58961},
+				pos: position{line: 1823, col: 5, offset: 58999},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1823, col: 5, offset: 58961},
+					pos: position{line: 1823, col: 5, offset: 58999},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58961},
+							pos:   position{line: 1823, col: 5, offset: 58999},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1823, col: 16, offset: 58972},
+								pos: position{line: 1823, col: 16, offset: 59010},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1823, col: 17, offset: 58973},
+									pos:  position{line: 1823, col: 17, offset: 59011},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1824, col: 5, offset: 58998},
+							pos:   position{line: 1824, col: 5, offset: 59036},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1824, col: 14, offset: 59007},
+								pos: position{line: 1824, col: 14, offset: 59045},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 14, offset: 59007},
+										pos:  position{line: 1824, col: 14, offset: 59045},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 33, offset: 59026},
+										pos:  position{line: 1824, col: 33, offset: 59064},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41637,32 +42073,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1832, col: 1, offset: 59257},
+			pos:  position{line: 1832, col: 1, offset: 59295},
 			expr: &choiceExpr{
-				pos: position{line: 1833, col: 5, offset: 59282},
+				pos: position{line: 1833, col: 5, offset: 59320},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 5, offset: 59282},
+						pos:  position{line: 1833, col: 5, offset: 59320},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59309},
+						pos:  position{line: 1834, col: 7, offset: 59347},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59337},
+						pos:  position{line: 1835, col: 7, offset: 59375},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59369},
+						pos:  position{line: 1836, col: 7, offset: 59407},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59397},
+						pos:  position{line: 1837, col: 7, offset: 59435},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59418},
+						pos:  position{line: 1838, col: 7, offset: 59456},
 						name: "SuperscriptText",
 					},
 				},
@@ -41670,24 +42106,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1840, col: 1, offset: 59436},
+			pos:  position{line: 1840, col: 1, offset: 59474},
 			expr: &choiceExpr{
-				pos: position{line: 1841, col: 5, offset: 59461},
+				pos: position{line: 1841, col: 5, offset: 59499},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 5, offset: 59461},
+						pos:  position{line: 1841, col: 5, offset: 59499},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59487},
+						pos:  position{line: 1842, col: 7, offset: 59525},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59515},
+						pos:  position{line: 1843, col: 7, offset: 59553},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59546},
+						pos:  position{line: 1844, col: 7, offset: 59584},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41695,26 +42131,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1858, col: 1, offset: 59900},
+			pos:  position{line: 1858, col: 1, offset: 59938},
 			expr: &choiceExpr{
-				pos: position{line: 1859, col: 5, offset: 59926},
+				pos: position{line: 1859, col: 5, offset: 59964},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2760, col: 5, offset: 87831},
+						pos: position{line: 2760, col: 5, offset: 87869},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2760, col: 5, offset: 87831},
+							pos: position{line: 2760, col: 5, offset: 87869},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2760, col: 5, offset: 87831},
+									pos:   position{line: 2760, col: 5, offset: 87869},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2760, col: 11, offset: 87837},
+										pos: position{line: 2760, col: 11, offset: 87875},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2760, col: 11, offset: 87837},
+											pos: position{line: 2760, col: 11, offset: 87875},
 											expr: &charClassMatcher{
-												pos:        position{line: 2760, col: 11, offset: 87837},
+												pos:        position{line: 2760, col: 11, offset: 87875},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41724,36 +42160,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2763, col: 5, offset: 87895},
+									pos: position{line: 2763, col: 5, offset: 87933},
 									expr: &seqExpr{
-										pos: position{line: 2764, col: 9, offset: 87906},
+										pos: position{line: 2764, col: 9, offset: 87944},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2764, col: 9, offset: 87906},
+												pos:        position{line: 2764, col: 9, offset: 87944},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2765, col: 9, offset: 87955},
+												pos: position{line: 2765, col: 9, offset: 87993},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2769, col: 5, offset: 88035},
+									pos: position{line: 2769, col: 5, offset: 88073},
 									expr: &seqExpr{
-										pos: position{line: 2770, col: 9, offset: 88046},
+										pos: position{line: 2770, col: 9, offset: 88084},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2770, col: 9, offset: 88046},
+												pos:        position{line: 2770, col: 9, offset: 88084},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88050},
+												pos:        position{line: 2770, col: 13, offset: 88088},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41766,12 +42202,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 11, offset: 90650},
+						pos: position{line: 2865, col: 11, offset: 90688},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2865, col: 11, offset: 90650},
+							pos: position{line: 2865, col: 11, offset: 90688},
 							expr: &charClassMatcher{
-								pos:        position{line: 2865, col: 11, offset: 90650},
+								pos:        position{line: 2865, col: 11, offset: 90688},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41780,25 +42216,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 59989},
+						pos:  position{line: 1861, col: 7, offset: 60027},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2489, col: 5, offset: 80291},
+						pos: position{line: 2489, col: 5, offset: 80329},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2489, col: 5, offset: 80291},
+							pos: position{line: 2489, col: 5, offset: 80329},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2489, col: 5, offset: 80291},
+									pos:        position{line: 2489, col: 5, offset: 80329},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2489, col: 10, offset: 80296},
+									pos: position{line: 2489, col: 10, offset: 80334},
 									expr: &charClassMatcher{
-										pos:        position{line: 2489, col: 11, offset: 80297},
+										pos:        position{line: 2489, col: 11, offset: 80335},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41809,29 +42245,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2495, col: 5, offset: 80489},
+						pos: position{line: 2495, col: 5, offset: 80527},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2495, col: 5, offset: 80489},
+							pos: position{line: 2495, col: 5, offset: 80527},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2495, col: 5, offset: 80489},
+									pos: position{line: 2495, col: 5, offset: 80527},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80560},
+									pos: position{line: 2498, col: 5, offset: 80598},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2502, col: 5, offset: 80685},
+									pos:        position{line: 2502, col: 5, offset: 80723},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2502, col: 9, offset: 80689},
+									pos: position{line: 2502, col: 9, offset: 80727},
 									expr: &charClassMatcher{
-										pos:        position{line: 2502, col: 10, offset: 80690},
+										pos:        position{line: 2502, col: 10, offset: 80728},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41842,27 +42278,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2778, col: 5, offset: 88243},
+						pos: position{line: 2778, col: 5, offset: 88281},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2779, col: 9, offset: 88253},
+							pos: position{line: 2779, col: 9, offset: 88291},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2779, col: 10, offset: 88254},
+									pos:        position{line: 2779, col: 10, offset: 88292},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2781, col: 13, offset: 88351},
+									pos: position{line: 2781, col: 13, offset: 88389},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2781, col: 13, offset: 88351},
+											pos: position{line: 2781, col: 13, offset: 88389},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2784, col: 13, offset: 88451},
+											pos:        position{line: 2784, col: 13, offset: 88489},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41870,20 +42306,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2784, col: 19, offset: 88457},
+									pos:        position{line: 2784, col: 19, offset: 88495},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2787, col: 13, offset: 88495},
+									pos: position{line: 2787, col: 13, offset: 88533},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2787, col: 13, offset: 88495},
+											pos: position{line: 2787, col: 13, offset: 88533},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88588},
+											pos:        position{line: 2790, col: 14, offset: 88626},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41892,18 +42328,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2792, col: 12, offset: 88632},
+									pos: position{line: 2792, col: 12, offset: 88670},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2792, col: 12, offset: 88632},
+											pos:        position{line: 2792, col: 12, offset: 88670},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2792, col: 16, offset: 88636},
+											pos: position{line: 2792, col: 16, offset: 88674},
 											expr: &litMatcher{
-												pos:        position{line: 2792, col: 17, offset: 88637},
+												pos:        position{line: 2792, col: 17, offset: 88675},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41915,35 +42351,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20109},
+						pos: position{line: 636, col: 5, offset: 20128},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20109},
+							pos: position{line: 636, col: 5, offset: 20128},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20128},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20181},
+									pos:   position{line: 639, col: 5, offset: 20200},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20190},
+										pos: position{line: 639, col: 14, offset: 20209},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20319},
+												pos: position{line: 645, col: 5, offset: 20338},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20338},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20319},
+															pos:        position{line: 645, col: 5, offset: 20338},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20327},
+															pos:   position{line: 645, col: 13, offset: 20346},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41975,7 +42411,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20346},
+															pos:        position{line: 645, col: 32, offset: 20365},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41984,19 +42420,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20587},
+												pos: position{line: 652, col: 5, offset: 20606},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20606},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20587},
+															pos:        position{line: 652, col: 5, offset: 20606},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20591},
+															pos:   position{line: 652, col: 9, offset: 20610},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -42028,7 +42464,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20610},
+															pos:        position{line: 652, col: 28, offset: 20629},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42037,19 +42473,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20791},
+												pos: position{line: 658, col: 25, offset: 20810},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20791},
+													pos: position{line: 658, col: 25, offset: 20810},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20791},
+															pos:        position{line: 658, col: 25, offset: 20810},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20803},
+															pos:   position{line: 658, col: 37, offset: 20822},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -42081,33 +42517,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20822},
+															pos:   position{line: 658, col: 56, offset: 20841},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20828},
+																pos: position{line: 658, col: 62, offset: 20847},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21142},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21142},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21142},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21146},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21153},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21153},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21153},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42115,12 +42551,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21207},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21207},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21207},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42137,7 +42573,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20844},
+															pos:        position{line: 658, col: 78, offset: 20863},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42146,19 +42582,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20962},
+												pos: position{line: 662, col: 25, offset: 20981},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20962},
+													pos: position{line: 662, col: 25, offset: 20981},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20962},
+															pos:        position{line: 662, col: 25, offset: 20981},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20975},
+															pos:   position{line: 662, col: 38, offset: 20994},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -42190,33 +42626,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 20994},
+															pos:   position{line: 662, col: 57, offset: 21013},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21000},
+																pos: position{line: 662, col: 63, offset: 21019},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21142},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21142},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21142},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21146},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21153},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21153},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21153},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42224,12 +42660,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21207},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21207},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21207},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42246,7 +42682,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21016},
+															pos:        position{line: 662, col: 79, offset: 21035},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42261,31 +42697,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2874, col: 18, offset: 90860},
+						pos: position{line: 2874, col: 18, offset: 90898},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2874, col: 18, offset: 90860},
+							pos: position{line: 2874, col: 18, offset: 90898},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42294,27 +42730,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2874, col: 26, offset: 90868},
+									pos: position{line: 2874, col: 26, offset: 90906},
 									expr: &actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90760},
+										pos: position{line: 2870, col: 12, offset: 90798},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90761},
+											pos: position{line: 2870, col: 13, offset: 90799},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90761},
+													pos:        position{line: 2870, col: 13, offset: 90799},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90768},
+													pos:        position{line: 2870, col: 20, offset: 90806},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90777},
+													pos:        position{line: 2870, col: 29, offset: 90815},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42327,31 +42763,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60156},
+						pos:  position{line: 1866, col: 7, offset: 60194},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60203},
+						pos:  position{line: 1867, col: 7, offset: 60241},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2458, col: 5, offset: 79120},
+						pos: position{line: 2458, col: 5, offset: 79158},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2458, col: 5, offset: 79120},
+							pos: position{line: 2458, col: 5, offset: 79158},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2458, col: 5, offset: 79120},
+									pos: position{line: 2458, col: 5, offset: 79158},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2461, col: 5, offset: 79196},
+									pos:   position{line: 2461, col: 5, offset: 79234},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2462, col: 9, offset: 79214},
+										pos: position{line: 2462, col: 9, offset: 79252},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2462, col: 10, offset: 79215},
+											pos:        position{line: 2462, col: 10, offset: 79253},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42363,27 +42799,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1206, col: 23, offset: 37178},
+						pos: position{line: 1206, col: 23, offset: 37216},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1206, col: 23, offset: 37178},
+							pos: position{line: 1206, col: 23, offset: 37216},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37146},
+									pos:        position{line: 1204, col: 32, offset: 37184},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1206, col: 51, offset: 37206},
+									pos:   position{line: 1206, col: 51, offset: 37244},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1206, col: 56, offset: 37211},
+										pos: position{line: 1206, col: 56, offset: 37249},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1206, col: 56, offset: 37211},
+											pos: position{line: 1206, col: 56, offset: 37249},
 											expr: &charClassMatcher{
-												pos:        position{line: 1206, col: 56, offset: 37211},
+												pos:        position{line: 1206, col: 56, offset: 37249},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -42393,7 +42829,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37146},
+									pos:        position{line: 1204, col: 32, offset: 37184},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -42402,10 +42838,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2800, col: 12, offset: 88897},
+						pos: position{line: 2800, col: 12, offset: 88935},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2800, col: 12, offset: 88897},
+							pos:        position{line: 2800, col: 12, offset: 88935},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42417,29 +42853,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1885, col: 1, offset: 60673},
+			pos:  position{line: 1885, col: 1, offset: 60711},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60701},
+				pos: position{line: 1886, col: 5, offset: 60739},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60701},
+					pos: position{line: 1886, col: 5, offset: 60739},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1881, col: 38, offset: 60626},
+							pos:        position{line: 1881, col: 38, offset: 60664},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1887, col: 5, offset: 60740},
+							pos:   position{line: 1887, col: 5, offset: 60778},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1887, col: 15, offset: 60750},
+								pos:  position{line: 1887, col: 15, offset: 60788},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1883, col: 36, offset: 60667},
+							pos:        position{line: 1883, col: 36, offset: 60705},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42450,44 +42886,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1892, col: 1, offset: 60910},
+			pos:  position{line: 1892, col: 1, offset: 60948},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1892, col: 32, offset: 60941},
+				pos: position{line: 1892, col: 32, offset: 60979},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1892, col: 32, offset: 60941},
+					pos:  position{line: 1892, col: 32, offset: 60979},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1894, col: 1, offset: 60972},
+			pos:  position{line: 1894, col: 1, offset: 61010},
 			expr: &actionExpr{
-				pos: position{line: 1895, col: 5, offset: 61007},
+				pos: position{line: 1895, col: 5, offset: 61045},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1895, col: 5, offset: 61007},
+					pos: position{line: 1895, col: 5, offset: 61045},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1896, col: 5, offset: 61018},
+							pos: position{line: 1896, col: 5, offset: 61056},
 							expr: &litMatcher{
-								pos:        position{line: 1883, col: 36, offset: 60667},
+								pos:        position{line: 1883, col: 36, offset: 60705},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1897, col: 5, offset: 61055},
+							pos:   position{line: 1897, col: 5, offset: 61093},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1897, col: 14, offset: 61064},
+								pos:  position{line: 1897, col: 14, offset: 61102},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42497,29 +42933,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1922, col: 1, offset: 61744},
+			pos:  position{line: 1922, col: 1, offset: 61782},
 			expr: &actionExpr{
-				pos: position{line: 1923, col: 5, offset: 61772},
+				pos: position{line: 1923, col: 5, offset: 61810},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1923, col: 5, offset: 61772},
+					pos: position{line: 1923, col: 5, offset: 61810},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1906, col: 5, offset: 61298},
+							pos:        position{line: 1906, col: 5, offset: 61336},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61307},
+							pos: position{line: 1907, col: 5, offset: 61345},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61425},
+							pos: position{line: 1911, col: 5, offset: 61463},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61427},
+								pos: position{line: 1911, col: 7, offset: 61465},
 								expr: &litMatcher{
-									pos:        position{line: 1911, col: 8, offset: 61428},
+									pos:        position{line: 1911, col: 8, offset: 61466},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42527,38 +42963,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1924, col: 5, offset: 61810},
+							pos:   position{line: 1924, col: 5, offset: 61848},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1924, col: 15, offset: 61820},
+								pos:  position{line: 1924, col: 15, offset: 61858},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1914, col: 5, offset: 61548},
+							pos:        position{line: 1914, col: 5, offset: 61586},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1915, col: 5, offset: 61557},
+							pos: position{line: 1915, col: 5, offset: 61595},
 							expr: &litMatcher{
-								pos:        position{line: 1915, col: 6, offset: 61558},
+								pos:        position{line: 1915, col: 6, offset: 61596},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1916, col: 5, offset: 61621},
+							pos: position{line: 1916, col: 5, offset: 61659},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1920, col: 5, offset: 61730},
+							pos: position{line: 1920, col: 5, offset: 61768},
 							expr: &notExpr{
-								pos: position{line: 1920, col: 7, offset: 61732},
+								pos: position{line: 1920, col: 7, offset: 61770},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87684},
+									pos:        position{line: 2751, col: 13, offset: 87722},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42572,20 +43008,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1929, col: 1, offset: 61980},
+			pos:  position{line: 1929, col: 1, offset: 62018},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 62017},
+				pos: position{line: 1930, col: 5, offset: 62055},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 62017},
+					pos: position{line: 1930, col: 5, offset: 62055},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1930, col: 5, offset: 62017},
+							pos: position{line: 1930, col: 5, offset: 62055},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42594,18 +43030,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 62056},
+							pos:   position{line: 1931, col: 5, offset: 62094},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1931, col: 14, offset: 62065},
+								pos: position{line: 1931, col: 14, offset: 62103},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1931, col: 15, offset: 62066},
+									pos:  position{line: 1931, col: 15, offset: 62104},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1932, col: 5, offset: 62100},
+							pos: position{line: 1932, col: 5, offset: 62138},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42614,49 +43050,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1938, col: 1, offset: 62241},
+			pos:  position{line: 1938, col: 1, offset: 62279},
 			expr: &actionExpr{
-				pos: position{line: 1939, col: 5, offset: 62276},
+				pos: position{line: 1939, col: 5, offset: 62314},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1939, col: 5, offset: 62276},
+					pos: position{line: 1939, col: 5, offset: 62314},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1940, col: 5, offset: 62304},
+							pos: position{line: 1940, col: 5, offset: 62342},
 							expr: &seqExpr{
-								pos: position{line: 1914, col: 5, offset: 61548},
+								pos: position{line: 1914, col: 5, offset: 61586},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1914, col: 5, offset: 61548},
+										pos:        position{line: 1914, col: 5, offset: 61586},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1915, col: 5, offset: 61557},
+										pos: position{line: 1915, col: 5, offset: 61595},
 										expr: &litMatcher{
-											pos:        position{line: 1915, col: 6, offset: 61558},
+											pos:        position{line: 1915, col: 6, offset: 61596},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1916, col: 5, offset: 61621},
+										pos: position{line: 1916, col: 5, offset: 61659},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1920, col: 5, offset: 61730},
+										pos: position{line: 1920, col: 5, offset: 61768},
 										expr: &notExpr{
-											pos: position{line: 1920, col: 7, offset: 61732},
+											pos: position{line: 1920, col: 7, offset: 61770},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87684},
+												pos:        position{line: 2751, col: 13, offset: 87722},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42668,10 +43104,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1941, col: 5, offset: 62341},
+							pos:   position{line: 1941, col: 5, offset: 62379},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1941, col: 14, offset: 62350},
+								pos:  position{line: 1941, col: 14, offset: 62388},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42681,35 +43117,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1946, col: 1, offset: 62438},
+			pos:  position{line: 1946, col: 1, offset: 62476},
 			expr: &choiceExpr{
-				pos: position{line: 1948, col: 5, offset: 62499},
+				pos: position{line: 1948, col: 5, offset: 62537},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1948, col: 5, offset: 62499},
+						pos: position{line: 1948, col: 5, offset: 62537},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 5, offset: 62499},
+							pos: position{line: 1948, col: 5, offset: 62537},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 5, offset: 62499},
+									pos:   position{line: 1948, col: 5, offset: 62537},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59846},
+										pos: position{line: 1854, col: 25, offset: 59884},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59846},
+											pos: position{line: 1854, col: 25, offset: 59884},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59846},
+													pos:        position{line: 1854, col: 25, offset: 59884},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59851},
+													pos: position{line: 1854, col: 30, offset: 59889},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59851},
+														pos:        position{line: 1854, col: 30, offset: 59889},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42720,21 +43156,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 40, offset: 62534},
+									pos:        position{line: 1948, col: 40, offset: 62572},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 45, offset: 62539},
+									pos:   position{line: 1948, col: 45, offset: 62577},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 55, offset: 62549},
+										pos:  position{line: 1948, col: 55, offset: 62587},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 84, offset: 62578},
+									pos:        position{line: 1948, col: 84, offset: 62616},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42743,21 +43179,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1952, col: 7, offset: 62742},
+						pos: position{line: 1952, col: 7, offset: 62780},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1952, col: 7, offset: 62742},
+							pos: position{line: 1952, col: 7, offset: 62780},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1952, col: 7, offset: 62742},
+									pos:   position{line: 1952, col: 7, offset: 62780},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42766,21 +43202,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 42, offset: 62777},
+									pos:        position{line: 1952, col: 42, offset: 62815},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1952, col: 47, offset: 62782},
+									pos:   position{line: 1952, col: 47, offset: 62820},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1952, col: 57, offset: 62792},
+										pos:  position{line: 1952, col: 57, offset: 62830},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 86, offset: 62821},
+									pos:        position{line: 1952, col: 86, offset: 62859},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42789,21 +43225,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1957, col: 7, offset: 63023},
+						pos: position{line: 1957, col: 7, offset: 63061},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 7, offset: 63023},
+							pos: position{line: 1957, col: 7, offset: 63061},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 7, offset: 63023},
+									pos:   position{line: 1957, col: 7, offset: 63061},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42812,21 +43248,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 42, offset: 63058},
+									pos:        position{line: 1957, col: 42, offset: 63096},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 46, offset: 63062},
+									pos:   position{line: 1957, col: 46, offset: 63100},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 56, offset: 63072},
+										pos:  position{line: 1957, col: 56, offset: 63110},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 85, offset: 63101},
+									pos:        position{line: 1957, col: 85, offset: 63139},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42839,29 +43275,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1974, col: 1, offset: 63581},
+			pos:  position{line: 1974, col: 1, offset: 63619},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63611},
+				pos: position{line: 1975, col: 5, offset: 63649},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63611},
+					pos: position{line: 1975, col: 5, offset: 63649},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1970, col: 40, offset: 63532},
+							pos:        position{line: 1970, col: 40, offset: 63570},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1976, col: 5, offset: 63652},
+							pos:   position{line: 1976, col: 5, offset: 63690},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1976, col: 15, offset: 63662},
+								pos:  position{line: 1976, col: 15, offset: 63700},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1972, col: 38, offset: 63575},
+							pos:        position{line: 1972, col: 38, offset: 63613},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42872,44 +43308,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1981, col: 1, offset: 63827},
+			pos:  position{line: 1981, col: 1, offset: 63865},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1981, col: 34, offset: 63860},
+				pos: position{line: 1981, col: 34, offset: 63898},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1981, col: 34, offset: 63860},
+					pos:  position{line: 1981, col: 34, offset: 63898},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1983, col: 1, offset: 63892},
+			pos:  position{line: 1983, col: 1, offset: 63930},
 			expr: &actionExpr{
-				pos: position{line: 1984, col: 5, offset: 63929},
+				pos: position{line: 1984, col: 5, offset: 63967},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1984, col: 5, offset: 63929},
+					pos: position{line: 1984, col: 5, offset: 63967},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1985, col: 5, offset: 63940},
+							pos: position{line: 1985, col: 5, offset: 63978},
 							expr: &litMatcher{
-								pos:        position{line: 1972, col: 38, offset: 63575},
+								pos:        position{line: 1972, col: 38, offset: 63613},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1986, col: 5, offset: 63979},
+							pos:   position{line: 1986, col: 5, offset: 64017},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1986, col: 14, offset: 63988},
+								pos:  position{line: 1986, col: 14, offset: 64026},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42919,29 +43355,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2012, col: 1, offset: 64672},
+			pos:  position{line: 2012, col: 1, offset: 64710},
 			expr: &actionExpr{
-				pos: position{line: 2013, col: 5, offset: 64702},
+				pos: position{line: 2013, col: 5, offset: 64740},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2013, col: 5, offset: 64702},
+					pos: position{line: 2013, col: 5, offset: 64740},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64230},
+							pos:        position{line: 1995, col: 5, offset: 64268},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1996, col: 5, offset: 64239},
+							pos: position{line: 1996, col: 5, offset: 64277},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2000, col: 5, offset: 64359},
+							pos: position{line: 2000, col: 5, offset: 64397},
 							expr: &notExpr{
-								pos: position{line: 2000, col: 7, offset: 64361},
+								pos: position{line: 2000, col: 7, offset: 64399},
 								expr: &litMatcher{
-									pos:        position{line: 2000, col: 8, offset: 64362},
+									pos:        position{line: 2000, col: 8, offset: 64400},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42949,38 +43385,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2014, col: 5, offset: 64742},
+							pos:   position{line: 2014, col: 5, offset: 64780},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2014, col: 15, offset: 64752},
+								pos:  position{line: 2014, col: 15, offset: 64790},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2004, col: 5, offset: 64472},
+							pos:        position{line: 2004, col: 5, offset: 64510},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2005, col: 5, offset: 64481},
+							pos: position{line: 2005, col: 5, offset: 64519},
 							expr: &litMatcher{
-								pos:        position{line: 2005, col: 6, offset: 64482},
+								pos:        position{line: 2005, col: 6, offset: 64520},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2006, col: 5, offset: 64547},
+							pos: position{line: 2006, col: 5, offset: 64585},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2010, col: 5, offset: 64658},
+							pos: position{line: 2010, col: 5, offset: 64696},
 							expr: &notExpr{
-								pos: position{line: 2010, col: 7, offset: 64660},
+								pos: position{line: 2010, col: 7, offset: 64698},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87684},
+									pos:        position{line: 2751, col: 13, offset: 87722},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42994,20 +43430,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2019, col: 1, offset: 64919},
+			pos:  position{line: 2019, col: 1, offset: 64957},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64957},
+				pos: position{line: 2020, col: 5, offset: 64995},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64957},
+					pos: position{line: 2020, col: 5, offset: 64995},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2020, col: 5, offset: 64957},
+							pos: position{line: 2020, col: 5, offset: 64995},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43016,18 +43452,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2021, col: 5, offset: 64996},
+							pos:   position{line: 2021, col: 5, offset: 65034},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2021, col: 14, offset: 65005},
+								pos: position{line: 2021, col: 14, offset: 65043},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2021, col: 15, offset: 65006},
+									pos:  position{line: 2021, col: 15, offset: 65044},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2022, col: 5, offset: 65041},
+							pos: position{line: 2022, col: 5, offset: 65079},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43036,49 +43472,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2028, col: 1, offset: 65182},
+			pos:  position{line: 2028, col: 1, offset: 65220},
 			expr: &actionExpr{
-				pos: position{line: 2029, col: 5, offset: 65219},
+				pos: position{line: 2029, col: 5, offset: 65257},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2029, col: 5, offset: 65219},
+					pos: position{line: 2029, col: 5, offset: 65257},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65230},
+							pos: position{line: 2030, col: 5, offset: 65268},
 							expr: &seqExpr{
-								pos: position{line: 2004, col: 5, offset: 64472},
+								pos: position{line: 2004, col: 5, offset: 64510},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2004, col: 5, offset: 64472},
+										pos:        position{line: 2004, col: 5, offset: 64510},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2005, col: 5, offset: 64481},
+										pos: position{line: 2005, col: 5, offset: 64519},
 										expr: &litMatcher{
-											pos:        position{line: 2005, col: 6, offset: 64482},
+											pos:        position{line: 2005, col: 6, offset: 64520},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2006, col: 5, offset: 64547},
+										pos: position{line: 2006, col: 5, offset: 64585},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2010, col: 5, offset: 64658},
+										pos: position{line: 2010, col: 5, offset: 64696},
 										expr: &notExpr{
-											pos: position{line: 2010, col: 7, offset: 64660},
+											pos: position{line: 2010, col: 7, offset: 64698},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87684},
+												pos:        position{line: 2751, col: 13, offset: 87722},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43090,10 +43526,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2031, col: 5, offset: 65269},
+							pos:   position{line: 2031, col: 5, offset: 65307},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2031, col: 14, offset: 65278},
+								pos:  position{line: 2031, col: 14, offset: 65316},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43103,35 +43539,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2036, col: 1, offset: 65366},
+			pos:  position{line: 2036, col: 1, offset: 65404},
 			expr: &choiceExpr{
-				pos: position{line: 2038, col: 5, offset: 65431},
+				pos: position{line: 2038, col: 5, offset: 65469},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2038, col: 5, offset: 65431},
+						pos: position{line: 2038, col: 5, offset: 65469},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 5, offset: 65431},
+							pos: position{line: 2038, col: 5, offset: 65469},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 5, offset: 65431},
+									pos:   position{line: 2038, col: 5, offset: 65469},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59846},
+										pos: position{line: 1854, col: 25, offset: 59884},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59846},
+											pos: position{line: 1854, col: 25, offset: 59884},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59846},
+													pos:        position{line: 1854, col: 25, offset: 59884},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59851},
+													pos: position{line: 1854, col: 30, offset: 59889},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59851},
+														pos:        position{line: 1854, col: 30, offset: 59889},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43142,21 +43578,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 40, offset: 65466},
+									pos:        position{line: 2038, col: 40, offset: 65504},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 45, offset: 65471},
+									pos:   position{line: 2038, col: 45, offset: 65509},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 55, offset: 65481},
+										pos:  position{line: 2038, col: 55, offset: 65519},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 86, offset: 65512},
+									pos:        position{line: 2038, col: 86, offset: 65550},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43165,21 +43601,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2042, col: 7, offset: 65677},
+						pos: position{line: 2042, col: 7, offset: 65715},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2042, col: 7, offset: 65677},
+							pos: position{line: 2042, col: 7, offset: 65715},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2042, col: 7, offset: 65677},
+									pos:   position{line: 2042, col: 7, offset: 65715},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43188,21 +43624,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 42, offset: 65712},
+									pos:        position{line: 2042, col: 42, offset: 65750},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2042, col: 47, offset: 65717},
+									pos:   position{line: 2042, col: 47, offset: 65755},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2042, col: 57, offset: 65727},
+										pos:  position{line: 2042, col: 57, offset: 65765},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 88, offset: 65758},
+									pos:        position{line: 2042, col: 88, offset: 65796},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43211,21 +43647,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2047, col: 7, offset: 65999},
+						pos: position{line: 2047, col: 7, offset: 66037},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2047, col: 7, offset: 65999},
+							pos: position{line: 2047, col: 7, offset: 66037},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2047, col: 7, offset: 65999},
+									pos:   position{line: 2047, col: 7, offset: 66037},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43234,21 +43670,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 42, offset: 66034},
+									pos:        position{line: 2047, col: 42, offset: 66072},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2047, col: 46, offset: 66038},
+									pos:   position{line: 2047, col: 46, offset: 66076},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2047, col: 56, offset: 66048},
+										pos:  position{line: 2047, col: 56, offset: 66086},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 87, offset: 66079},
+									pos:        position{line: 2047, col: 87, offset: 66117},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43261,29 +43697,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2064, col: 1, offset: 66643},
+			pos:  position{line: 2064, col: 1, offset: 66681},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66676},
+				pos: position{line: 2065, col: 5, offset: 66714},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66676},
+					pos: position{line: 2065, col: 5, offset: 66714},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2060, col: 43, offset: 66591},
+							pos:        position{line: 2060, col: 43, offset: 66629},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2066, col: 5, offset: 66720},
+							pos:   position{line: 2066, col: 5, offset: 66758},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2066, col: 15, offset: 66730},
+								pos:  position{line: 2066, col: 15, offset: 66768},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2062, col: 41, offset: 66637},
+							pos:        position{line: 2062, col: 41, offset: 66675},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43294,44 +43730,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2071, col: 1, offset: 66905},
+			pos:  position{line: 2071, col: 1, offset: 66943},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2071, col: 37, offset: 66941},
+				pos: position{line: 2071, col: 37, offset: 66979},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2071, col: 37, offset: 66941},
+					pos:  position{line: 2071, col: 37, offset: 66979},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2073, col: 1, offset: 67008},
+			pos:  position{line: 2073, col: 1, offset: 67046},
 			expr: &actionExpr{
-				pos: position{line: 2074, col: 5, offset: 67048},
+				pos: position{line: 2074, col: 5, offset: 67086},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2074, col: 5, offset: 67048},
+					pos: position{line: 2074, col: 5, offset: 67086},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2075, col: 5, offset: 67059},
+							pos: position{line: 2075, col: 5, offset: 67097},
 							expr: &litMatcher{
-								pos:        position{line: 2062, col: 41, offset: 66637},
+								pos:        position{line: 2062, col: 41, offset: 66675},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2076, col: 5, offset: 67101},
+							pos:   position{line: 2076, col: 5, offset: 67139},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2076, col: 14, offset: 67110},
+								pos:  position{line: 2076, col: 14, offset: 67148},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43341,33 +43777,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2094, col: 1, offset: 67652},
+			pos:  position{line: 2094, col: 1, offset: 67690},
 			expr: &seqExpr{
-				pos: position{line: 2095, col: 5, offset: 67697},
+				pos: position{line: 2095, col: 5, offset: 67735},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2095, col: 5, offset: 67697},
+						pos: position{line: 2095, col: 5, offset: 67735},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2095, col: 6, offset: 67698},
+							pos:  position{line: 2095, col: 6, offset: 67736},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2096, col: 5, offset: 67717},
+						pos:        position{line: 2096, col: 5, offset: 67755},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2097, col: 5, offset: 67725},
+						pos: position{line: 2097, col: 5, offset: 67763},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2101, col: 5, offset: 67839},
+						pos: position{line: 2101, col: 5, offset: 67877},
 						expr: &notExpr{
-							pos: position{line: 2101, col: 7, offset: 67841},
+							pos: position{line: 2101, col: 7, offset: 67879},
 							expr: &charClassMatcher{
-								pos:        position{line: 2751, col: 13, offset: 87684},
+								pos:        position{line: 2751, col: 13, offset: 87722},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43380,29 +43816,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 67858},
+			pos:  position{line: 2104, col: 1, offset: 67896},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67891},
+				pos: position{line: 2105, col: 5, offset: 67929},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67891},
+					pos: position{line: 2105, col: 5, offset: 67929},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2087, col: 5, offset: 67454},
+							pos:        position{line: 2087, col: 5, offset: 67492},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2088, col: 5, offset: 67463},
+							pos: position{line: 2088, col: 5, offset: 67501},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2092, col: 5, offset: 67586},
+							pos: position{line: 2092, col: 5, offset: 67624},
 							expr: &notExpr{
-								pos: position{line: 2092, col: 7, offset: 67588},
+								pos: position{line: 2092, col: 7, offset: 67626},
 								expr: &litMatcher{
-									pos:        position{line: 2092, col: 8, offset: 67589},
+									pos:        position{line: 2092, col: 8, offset: 67627},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43410,15 +43846,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 67935},
+							pos:   position{line: 2106, col: 5, offset: 67973},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 67945},
+								pos:  position{line: 2106, col: 15, offset: 67983},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2107, col: 5, offset: 67984},
+							pos:  position{line: 2107, col: 5, offset: 68022},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43427,20 +43863,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68121},
+			pos:  position{line: 2111, col: 1, offset: 68159},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68162},
+				pos: position{line: 2112, col: 5, offset: 68200},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68162},
+					pos: position{line: 2112, col: 5, offset: 68200},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2112, col: 5, offset: 68162},
+							pos: position{line: 2112, col: 5, offset: 68200},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43449,18 +43885,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68201},
+							pos:   position{line: 2113, col: 5, offset: 68239},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2113, col: 14, offset: 68210},
+								pos: position{line: 2113, col: 14, offset: 68248},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2113, col: 15, offset: 68211},
+									pos:  position{line: 2113, col: 15, offset: 68249},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2114, col: 5, offset: 68249},
+							pos: position{line: 2114, col: 5, offset: 68287},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43469,31 +43905,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2120, col: 1, offset: 68390},
+			pos:  position{line: 2120, col: 1, offset: 68428},
 			expr: &actionExpr{
-				pos: position{line: 2121, col: 5, offset: 68430},
+				pos: position{line: 2121, col: 5, offset: 68468},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2121, col: 5, offset: 68430},
+					pos: position{line: 2121, col: 5, offset: 68468},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2122, col: 5, offset: 68441},
+							pos: position{line: 2122, col: 5, offset: 68479},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2122, col: 6, offset: 68442},
+								pos:  position{line: 2122, col: 6, offset: 68480},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2123, col: 5, offset: 68483},
+							pos:   position{line: 2123, col: 5, offset: 68521},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2123, col: 14, offset: 68492},
+								pos:  position{line: 2123, col: 14, offset: 68530},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43503,35 +43939,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2128, col: 1, offset: 68580},
+			pos:  position{line: 2128, col: 1, offset: 68618},
 			expr: &choiceExpr{
-				pos: position{line: 2130, col: 5, offset: 68651},
+				pos: position{line: 2130, col: 5, offset: 68689},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2130, col: 5, offset: 68651},
+						pos: position{line: 2130, col: 5, offset: 68689},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 5, offset: 68651},
+							pos: position{line: 2130, col: 5, offset: 68689},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 5, offset: 68651},
+									pos:   position{line: 2130, col: 5, offset: 68689},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59846},
+										pos: position{line: 1854, col: 25, offset: 59884},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59846},
+											pos: position{line: 1854, col: 25, offset: 59884},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59846},
+													pos:        position{line: 1854, col: 25, offset: 59884},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59851},
+													pos: position{line: 1854, col: 30, offset: 59889},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59851},
+														pos:        position{line: 1854, col: 30, offset: 59889},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43542,21 +43978,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 40, offset: 68686},
+									pos:        position{line: 2130, col: 40, offset: 68724},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 45, offset: 68691},
+									pos:   position{line: 2130, col: 45, offset: 68729},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 55, offset: 68701},
+										pos:  position{line: 2130, col: 55, offset: 68739},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 89, offset: 68735},
+									pos:        position{line: 2130, col: 89, offset: 68773},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43565,21 +44001,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2134, col: 7, offset: 68904},
+						pos: position{line: 2134, col: 7, offset: 68942},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2134, col: 7, offset: 68904},
+							pos: position{line: 2134, col: 7, offset: 68942},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2134, col: 7, offset: 68904},
+									pos:   position{line: 2134, col: 7, offset: 68942},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43588,21 +44024,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 42, offset: 68939},
+									pos:        position{line: 2134, col: 42, offset: 68977},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2134, col: 47, offset: 68944},
+									pos:   position{line: 2134, col: 47, offset: 68982},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2134, col: 57, offset: 68954},
+										pos:  position{line: 2134, col: 57, offset: 68992},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 91, offset: 68988},
+									pos:        position{line: 2134, col: 91, offset: 69026},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43611,21 +44047,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2139, col: 7, offset: 69194},
+						pos: position{line: 2139, col: 7, offset: 69232},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2139, col: 7, offset: 69194},
+							pos: position{line: 2139, col: 7, offset: 69232},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2139, col: 7, offset: 69194},
+									pos:   position{line: 2139, col: 7, offset: 69232},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43634,21 +44070,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 42, offset: 69229},
+									pos:        position{line: 2139, col: 42, offset: 69267},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2139, col: 46, offset: 69233},
+									pos:   position{line: 2139, col: 46, offset: 69271},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2139, col: 56, offset: 69243},
+										pos:  position{line: 2139, col: 56, offset: 69281},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 90, offset: 69277},
+									pos:        position{line: 2139, col: 90, offset: 69315},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43661,29 +44097,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2156, col: 1, offset: 69762},
+			pos:  position{line: 2156, col: 1, offset: 69800},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2157, col: 5, offset: 69830},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2157, col: 5, offset: 69830},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2152, col: 40, offset: 69713},
+							pos:        position{line: 2152, col: 40, offset: 69751},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2158, col: 5, offset: 69833},
+							pos:   position{line: 2158, col: 5, offset: 69871},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2158, col: 15, offset: 69843},
+								pos:  position{line: 2158, col: 15, offset: 69881},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2154, col: 38, offset: 69756},
+							pos:        position{line: 2154, col: 38, offset: 69794},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43694,44 +44130,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2163, col: 1, offset: 70009},
+			pos:  position{line: 2163, col: 1, offset: 70047},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2163, col: 34, offset: 70042},
+				pos: position{line: 2163, col: 34, offset: 70080},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2163, col: 34, offset: 70042},
+					pos:  position{line: 2163, col: 34, offset: 70080},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2165, col: 1, offset: 70073},
+			pos:  position{line: 2165, col: 1, offset: 70111},
 			expr: &actionExpr{
-				pos: position{line: 2166, col: 5, offset: 70142},
+				pos: position{line: 2166, col: 5, offset: 70180},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2166, col: 5, offset: 70142},
+					pos: position{line: 2166, col: 5, offset: 70180},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2167, col: 5, offset: 70153},
+							pos: position{line: 2167, col: 5, offset: 70191},
 							expr: &litMatcher{
-								pos:        position{line: 2154, col: 38, offset: 69756},
+								pos:        position{line: 2154, col: 38, offset: 69794},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2168, col: 5, offset: 70192},
+							pos:   position{line: 2168, col: 5, offset: 70230},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2168, col: 14, offset: 70201},
+								pos:  position{line: 2168, col: 14, offset: 70239},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43741,29 +44177,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2193, col: 1, offset: 70883},
+			pos:  position{line: 2193, col: 1, offset: 70921},
 			expr: &actionExpr{
-				pos: position{line: 2194, col: 5, offset: 70913},
+				pos: position{line: 2194, col: 5, offset: 70951},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2194, col: 5, offset: 70913},
+					pos: position{line: 2194, col: 5, offset: 70951},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2177, col: 5, offset: 70449},
+							pos:        position{line: 2177, col: 5, offset: 70487},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70458},
+							pos: position{line: 2178, col: 5, offset: 70496},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70578},
+							pos: position{line: 2182, col: 5, offset: 70616},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70580},
+								pos: position{line: 2182, col: 7, offset: 70618},
 								expr: &litMatcher{
-									pos:        position{line: 2182, col: 8, offset: 70581},
+									pos:        position{line: 2182, col: 8, offset: 70619},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43771,38 +44207,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2195, col: 5, offset: 70953},
+							pos:   position{line: 2195, col: 5, offset: 70991},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2195, col: 15, offset: 70963},
+								pos:  position{line: 2195, col: 15, offset: 71001},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2185, col: 5, offset: 70686},
+							pos:        position{line: 2185, col: 5, offset: 70724},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2186, col: 5, offset: 70694},
+							pos: position{line: 2186, col: 5, offset: 70732},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 6, offset: 70695},
+								pos:        position{line: 2186, col: 6, offset: 70733},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2187, col: 5, offset: 70758},
+							pos: position{line: 2187, col: 5, offset: 70796},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2191, col: 5, offset: 70869},
+							pos: position{line: 2191, col: 5, offset: 70907},
 							expr: &notExpr{
-								pos: position{line: 2191, col: 7, offset: 70871},
+								pos: position{line: 2191, col: 7, offset: 70909},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87684},
+									pos:        position{line: 2751, col: 13, offset: 87722},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43816,20 +44252,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2200, col: 1, offset: 71130},
+			pos:  position{line: 2200, col: 1, offset: 71168},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71168},
+				pos: position{line: 2201, col: 5, offset: 71206},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71168},
+					pos: position{line: 2201, col: 5, offset: 71206},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2201, col: 5, offset: 71168},
+							pos: position{line: 2201, col: 5, offset: 71206},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90589},
+								pos: position{line: 2861, col: 10, offset: 90627},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90589},
+									pos:        position{line: 2861, col: 10, offset: 90627},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43838,18 +44274,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71207},
+							pos:   position{line: 2202, col: 5, offset: 71245},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2202, col: 14, offset: 71216},
+								pos: position{line: 2202, col: 14, offset: 71254},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2202, col: 15, offset: 71217},
+									pos:  position{line: 2202, col: 15, offset: 71255},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2203, col: 5, offset: 71253},
+							pos: position{line: 2203, col: 5, offset: 71291},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43858,49 +44294,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2209, col: 1, offset: 71394},
+			pos:  position{line: 2209, col: 1, offset: 71432},
 			expr: &actionExpr{
-				pos: position{line: 2210, col: 5, offset: 71431},
+				pos: position{line: 2210, col: 5, offset: 71469},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2210, col: 5, offset: 71431},
+					pos: position{line: 2210, col: 5, offset: 71469},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2211, col: 5, offset: 71442},
+							pos: position{line: 2211, col: 5, offset: 71480},
 							expr: &seqExpr{
-								pos: position{line: 2185, col: 5, offset: 70686},
+								pos: position{line: 2185, col: 5, offset: 70724},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2185, col: 5, offset: 70686},
+										pos:        position{line: 2185, col: 5, offset: 70724},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2186, col: 5, offset: 70694},
+										pos: position{line: 2186, col: 5, offset: 70732},
 										expr: &litMatcher{
-											pos:        position{line: 2186, col: 6, offset: 70695},
+											pos:        position{line: 2186, col: 6, offset: 70733},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2187, col: 5, offset: 70758},
+										pos: position{line: 2187, col: 5, offset: 70796},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2191, col: 5, offset: 70869},
+										pos: position{line: 2191, col: 5, offset: 70907},
 										expr: &notExpr{
-											pos: position{line: 2191, col: 7, offset: 70871},
+											pos: position{line: 2191, col: 7, offset: 70909},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87684},
+												pos:        position{line: 2751, col: 13, offset: 87722},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43912,10 +44348,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2212, col: 5, offset: 71481},
+							pos:   position{line: 2212, col: 5, offset: 71519},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2212, col: 14, offset: 71490},
+								pos:  position{line: 2212, col: 14, offset: 71528},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43925,35 +44361,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2217, col: 1, offset: 71578},
+			pos:  position{line: 2217, col: 1, offset: 71616},
 			expr: &choiceExpr{
-				pos: position{line: 2219, col: 5, offset: 71642},
+				pos: position{line: 2219, col: 5, offset: 71680},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2219, col: 5, offset: 71642},
+						pos: position{line: 2219, col: 5, offset: 71680},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 5, offset: 71642},
+							pos: position{line: 2219, col: 5, offset: 71680},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 5, offset: 71642},
+									pos:   position{line: 2219, col: 5, offset: 71680},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59846},
+										pos: position{line: 1854, col: 25, offset: 59884},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59846},
+											pos: position{line: 1854, col: 25, offset: 59884},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59846},
+													pos:        position{line: 1854, col: 25, offset: 59884},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59851},
+													pos: position{line: 1854, col: 30, offset: 59889},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59851},
+														pos:        position{line: 1854, col: 30, offset: 59889},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43964,21 +44400,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 40, offset: 71677},
+									pos:        position{line: 2219, col: 40, offset: 71715},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 45, offset: 71682},
+									pos:   position{line: 2219, col: 45, offset: 71720},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 55, offset: 71692},
+										pos:  position{line: 2219, col: 55, offset: 71730},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 86, offset: 71723},
+									pos:        position{line: 2219, col: 86, offset: 71761},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43987,21 +44423,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2223, col: 7, offset: 71888},
+						pos: position{line: 2223, col: 7, offset: 71926},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2223, col: 7, offset: 71888},
+							pos: position{line: 2223, col: 7, offset: 71926},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2223, col: 7, offset: 71888},
+									pos:   position{line: 2223, col: 7, offset: 71926},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44010,21 +44446,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 42, offset: 71923},
+									pos:        position{line: 2223, col: 42, offset: 71961},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2223, col: 47, offset: 71928},
+									pos:   position{line: 2223, col: 47, offset: 71966},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2223, col: 57, offset: 71938},
+										pos:  position{line: 2223, col: 57, offset: 71976},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 88, offset: 71969},
+									pos:        position{line: 2223, col: 88, offset: 72007},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44033,21 +44469,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2228, col: 7, offset: 72172},
+						pos: position{line: 2228, col: 7, offset: 72210},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2228, col: 7, offset: 72172},
+							pos: position{line: 2228, col: 7, offset: 72210},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2228, col: 7, offset: 72172},
+									pos:   position{line: 2228, col: 7, offset: 72210},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59773},
+										pos: position{line: 1850, col: 25, offset: 59811},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59773},
+											pos: position{line: 1850, col: 25, offset: 59811},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59773},
+												pos:        position{line: 1850, col: 25, offset: 59811},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44056,21 +44492,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 42, offset: 72207},
+									pos:        position{line: 2228, col: 42, offset: 72245},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2228, col: 46, offset: 72211},
+									pos:   position{line: 2228, col: 46, offset: 72249},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2228, col: 56, offset: 72221},
+										pos:  position{line: 2228, col: 56, offset: 72259},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 87, offset: 72252},
+									pos:        position{line: 2228, col: 87, offset: 72290},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44083,29 +44519,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2235, col: 1, offset: 72519},
+			pos:  position{line: 2235, col: 1, offset: 72557},
 			expr: &actionExpr{
-				pos: position{line: 2236, col: 5, offset: 72541},
+				pos: position{line: 2236, col: 5, offset: 72579},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2236, col: 5, offset: 72541},
+					pos: position{line: 2236, col: 5, offset: 72579},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72756},
+							pos:        position{line: 2242, col: 27, offset: 72794},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 72568},
+							pos:   position{line: 2237, col: 5, offset: 72606},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2237, col: 14, offset: 72577},
+								pos:  position{line: 2237, col: 14, offset: 72615},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72756},
+							pos:        position{line: 2242, col: 27, offset: 72794},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44116,43 +44552,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2244, col: 1, offset: 72761},
+			pos:  position{line: 2244, col: 1, offset: 72799},
 			expr: &choiceExpr{
-				pos: position{line: 2244, col: 25, offset: 72785},
+				pos: position{line: 2244, col: 25, offset: 72823},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2244, col: 25, offset: 72785},
+						pos:  position{line: 2244, col: 25, offset: 72823},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2246, col: 21, offset: 72837},
+						pos: position{line: 2246, col: 21, offset: 72875},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2246, col: 21, offset: 72837},
+							pos:   position{line: 2246, col: 21, offset: 72875},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2246, col: 29, offset: 72845},
+								pos: position{line: 2246, col: 29, offset: 72883},
 								expr: &choiceExpr{
-									pos: position{line: 2246, col: 30, offset: 72846},
+									pos: position{line: 2246, col: 30, offset: 72884},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2458, col: 5, offset: 79120},
+												pos: position{line: 2458, col: 5, offset: 79158},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2458, col: 5, offset: 79120},
+														pos: position{line: 2458, col: 5, offset: 79158},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2461, col: 5, offset: 79196},
+														pos:   position{line: 2461, col: 5, offset: 79234},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2462, col: 9, offset: 79214},
+															pos: position{line: 2462, col: 9, offset: 79252},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2462, col: 10, offset: 79215},
+																pos:        position{line: 2462, col: 10, offset: 79253},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44164,7 +44600,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2246, col: 49, offset: 72865},
+											pos:        position{line: 2246, col: 49, offset: 72903},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44180,23 +44616,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2250, col: 1, offset: 72922},
+			pos:  position{line: 2250, col: 1, offset: 72960},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 72989},
+				pos: position{line: 2252, col: 5, offset: 73027},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 72989},
+					pos: position{line: 2252, col: 5, offset: 73027},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2252, col: 5, offset: 72989},
+							pos:   position{line: 2252, col: 5, offset: 73027},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1850, col: 25, offset: 59773},
+								pos: position{line: 1850, col: 25, offset: 59811},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1850, col: 25, offset: 59773},
+									pos: position{line: 1850, col: 25, offset: 59811},
 									expr: &litMatcher{
-										pos:        position{line: 1850, col: 25, offset: 59773},
+										pos:        position{line: 1850, col: 25, offset: 59811},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44205,21 +44641,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72756},
+							pos:        position{line: 2242, col: 27, offset: 72794},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73057},
+							pos:   position{line: 2254, col: 5, offset: 73095},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2254, col: 14, offset: 73066},
+								pos:  position{line: 2254, col: 14, offset: 73104},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72756},
+							pos:        position{line: 2242, col: 27, offset: 72794},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44230,29 +44666,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73329},
+			pos:  position{line: 2262, col: 1, offset: 73367},
 			expr: &actionExpr{
-				pos: position{line: 2263, col: 5, offset: 73353},
+				pos: position{line: 2263, col: 5, offset: 73391},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2263, col: 5, offset: 73353},
+					pos: position{line: 2263, col: 5, offset: 73391},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73580},
+							pos:        position{line: 2269, col: 29, offset: 73618},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73383},
+							pos:   position{line: 2264, col: 5, offset: 73421},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2264, col: 14, offset: 73392},
+								pos:  position{line: 2264, col: 14, offset: 73430},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73580},
+							pos:        position{line: 2269, col: 29, offset: 73618},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44263,43 +44699,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2271, col: 1, offset: 73585},
+			pos:  position{line: 2271, col: 1, offset: 73623},
 			expr: &choiceExpr{
-				pos: position{line: 2271, col: 27, offset: 73611},
+				pos: position{line: 2271, col: 27, offset: 73649},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2271, col: 27, offset: 73611},
+						pos:  position{line: 2271, col: 27, offset: 73649},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2273, col: 23, offset: 73667},
+						pos: position{line: 2273, col: 23, offset: 73705},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2273, col: 23, offset: 73667},
+							pos:   position{line: 2273, col: 23, offset: 73705},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2273, col: 31, offset: 73675},
+								pos: position{line: 2273, col: 31, offset: 73713},
 								expr: &choiceExpr{
-									pos: position{line: 2273, col: 32, offset: 73676},
+									pos: position{line: 2273, col: 32, offset: 73714},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2458, col: 5, offset: 79120},
+												pos: position{line: 2458, col: 5, offset: 79158},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2458, col: 5, offset: 79120},
+														pos: position{line: 2458, col: 5, offset: 79158},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2461, col: 5, offset: 79196},
+														pos:   position{line: 2461, col: 5, offset: 79234},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2462, col: 9, offset: 79214},
+															pos: position{line: 2462, col: 9, offset: 79252},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2462, col: 10, offset: 79215},
+																pos:        position{line: 2462, col: 10, offset: 79253},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44311,7 +44747,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2273, col: 51, offset: 73695},
+											pos:        position{line: 2273, col: 51, offset: 73733},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44327,23 +44763,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2277, col: 1, offset: 73752},
+			pos:  position{line: 2277, col: 1, offset: 73790},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 73824},
+				pos: position{line: 2279, col: 5, offset: 73862},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 73824},
+					pos: position{line: 2279, col: 5, offset: 73862},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2279, col: 5, offset: 73824},
+							pos:   position{line: 2279, col: 5, offset: 73862},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1850, col: 25, offset: 59773},
+								pos: position{line: 1850, col: 25, offset: 59811},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1850, col: 25, offset: 59773},
+									pos: position{line: 1850, col: 25, offset: 59811},
 									expr: &litMatcher{
-										pos:        position{line: 1850, col: 25, offset: 59773},
+										pos:        position{line: 1850, col: 25, offset: 59811},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44352,21 +44788,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73580},
+							pos:        position{line: 2269, col: 29, offset: 73618},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73894},
+							pos:   position{line: 2281, col: 5, offset: 73932},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2281, col: 14, offset: 73903},
+								pos:  position{line: 2281, col: 14, offset: 73941},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73580},
+							pos:        position{line: 2269, col: 29, offset: 73618},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44377,27 +44813,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2290, col: 1, offset: 74372},
+			pos:  position{line: 2290, col: 1, offset: 74410},
 			expr: &actionExpr{
-				pos: position{line: 2291, col: 5, offset: 74388},
+				pos: position{line: 2291, col: 5, offset: 74426},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2291, col: 5, offset: 74388},
+					pos: position{line: 2291, col: 5, offset: 74426},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2291, col: 5, offset: 74388},
+							pos: position{line: 2291, col: 5, offset: 74426},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2294, col: 5, offset: 74451},
+							pos:   position{line: 2294, col: 5, offset: 74489},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2294, col: 12, offset: 74458},
+								pos: position{line: 2294, col: 12, offset: 74496},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2294, col: 12, offset: 74458},
+									pos: position{line: 2294, col: 12, offset: 74496},
 									expr: &litMatcher{
-										pos:        position{line: 2294, col: 13, offset: 74459},
+										pos:        position{line: 2294, col: 13, offset: 74497},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44406,16 +44842,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74567},
+							pos: position{line: 2298, col: 5, offset: 74605},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2865, col: 11, offset: 90650},
+							pos: position{line: 2865, col: 11, offset: 90688},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2865, col: 11, offset: 90650},
+								pos: position{line: 2865, col: 11, offset: 90688},
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 11, offset: 90650},
+									pos:        position{line: 2865, col: 11, offset: 90688},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44424,36 +44860,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 12, offset: 74726},
+							pos:   position{line: 2302, col: 12, offset: 74764},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 19, offset: 74733},
+								pos:  position{line: 2302, col: 19, offset: 74771},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44462,9 +44898,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -44475,24 +44911,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2306, col: 1, offset: 74829},
+			pos:  position{line: 2306, col: 1, offset: 74867},
 			expr: &actionExpr{
-				pos: position{line: 2307, col: 5, offset: 74850},
+				pos: position{line: 2307, col: 5, offset: 74888},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2307, col: 5, offset: 74850},
+					pos: position{line: 2307, col: 5, offset: 74888},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2307, col: 5, offset: 74850},
+							pos: position{line: 2307, col: 5, offset: 74888},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74965},
+							pos:   position{line: 2312, col: 5, offset: 75003},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2312, col: 14, offset: 74974},
+								pos: position{line: 2312, col: 14, offset: 75012},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2312, col: 15, offset: 74975},
+									pos:  position{line: 2312, col: 15, offset: 75013},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44503,38 +44939,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2316, col: 1, offset: 75056},
+			pos:  position{line: 2316, col: 1, offset: 75094},
 			expr: &actionExpr{
-				pos: position{line: 2317, col: 5, offset: 75083},
+				pos: position{line: 2317, col: 5, offset: 75121},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2317, col: 5, offset: 75083},
+					pos: position{line: 2317, col: 5, offset: 75121},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2317, col: 5, offset: 75083},
+							pos: position{line: 2317, col: 5, offset: 75121},
 							expr: &choiceExpr{
-								pos: position{line: 2883, col: 8, offset: 90987},
+								pos: position{line: 2883, col: 8, offset: 91025},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90760},
+										pos: position{line: 2870, col: 12, offset: 90798},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90761},
+											pos: position{line: 2870, col: 13, offset: 90799},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90761},
+													pos:        position{line: 2870, col: 13, offset: 90799},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90768},
+													pos:        position{line: 2870, col: 20, offset: 90806},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90777},
+													pos:        position{line: 2870, col: 29, offset: 90815},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44543,36 +44979,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2880, col: 8, offset: 90937},
+										pos: position{line: 2880, col: 8, offset: 90975},
 										expr: &anyMatcher{
-											line: 2880, col: 9, offset: 90938,
+											line: 2880, col: 9, offset: 90976,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 75092},
+							pos:   position{line: 2318, col: 5, offset: 75130},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2319, col: 9, offset: 75110},
+								pos: position{line: 2319, col: 9, offset: 75148},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87831},
+										pos: position{line: 2760, col: 5, offset: 87869},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87831},
+											pos: position{line: 2760, col: 5, offset: 87869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87831},
+													pos:   position{line: 2760, col: 5, offset: 87869},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87837},
+														pos: position{line: 2760, col: 11, offset: 87875},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87837},
+															pos: position{line: 2760, col: 11, offset: 87875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87837},
+																pos:        position{line: 2760, col: 11, offset: 87875},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44582,36 +45018,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87895},
+													pos: position{line: 2763, col: 5, offset: 87933},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87906},
+														pos: position{line: 2764, col: 9, offset: 87944},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87906},
+																pos:        position{line: 2764, col: 9, offset: 87944},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87955},
+																pos: position{line: 2765, col: 9, offset: 87993},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88035},
+													pos: position{line: 2769, col: 5, offset: 88073},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88046},
+														pos: position{line: 2770, col: 9, offset: 88084},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88046},
+																pos:        position{line: 2770, col: 9, offset: 88084},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88050},
+																pos:        position{line: 2770, col: 13, offset: 88088},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44624,12 +45060,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 11, offset: 90650},
+										pos: position{line: 2865, col: 11, offset: 90688},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 11, offset: 90650},
+											pos: position{line: 2865, col: 11, offset: 90688},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90650},
+												pos:        position{line: 2865, col: 11, offset: 90688},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44638,21 +45074,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80291},
+										pos: position{line: 2489, col: 5, offset: 80329},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80291},
+											pos: position{line: 2489, col: 5, offset: 80329},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 5, offset: 80291},
+													pos:        position{line: 2489, col: 5, offset: 80329},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2489, col: 10, offset: 80296},
+													pos: position{line: 2489, col: 10, offset: 80334},
 													expr: &charClassMatcher{
-														pos:        position{line: 2489, col: 11, offset: 80297},
+														pos:        position{line: 2489, col: 11, offset: 80335},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44663,29 +45099,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80489},
+										pos: position{line: 2495, col: 5, offset: 80527},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80489},
+											pos: position{line: 2495, col: 5, offset: 80527},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2495, col: 5, offset: 80489},
+													pos: position{line: 2495, col: 5, offset: 80527},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80560},
+													pos: position{line: 2498, col: 5, offset: 80598},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80685},
+													pos:        position{line: 2502, col: 5, offset: 80723},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 9, offset: 80689},
+													pos: position{line: 2502, col: 9, offset: 80727},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 10, offset: 80690},
+														pos:        position{line: 2502, col: 10, offset: 80728},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44696,31 +45132,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 11, offset: 75175},
+										pos:  position{line: 2322, col: 11, offset: 75213},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88243},
+										pos: position{line: 2778, col: 5, offset: 88281},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88253},
+											pos: position{line: 2779, col: 9, offset: 88291},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88254},
+													pos:        position{line: 2779, col: 10, offset: 88292},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88351},
+													pos: position{line: 2781, col: 13, offset: 88389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88351},
+															pos: position{line: 2781, col: 13, offset: 88389},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88451},
+															pos:        position{line: 2784, col: 13, offset: 88489},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44728,20 +45164,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88457},
+													pos:        position{line: 2784, col: 19, offset: 88495},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88495},
+													pos: position{line: 2787, col: 13, offset: 88533},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88495},
+															pos: position{line: 2787, col: 13, offset: 88533},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88588},
+															pos:        position{line: 2790, col: 14, offset: 88626},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44750,18 +45186,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88632},
+													pos: position{line: 2792, col: 12, offset: 88670},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88632},
+															pos:        position{line: 2792, col: 12, offset: 88670},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88636},
+															pos: position{line: 2792, col: 16, offset: 88674},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88637},
+																pos:        position{line: 2792, col: 17, offset: 88675},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44773,35 +45209,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75248},
+										pos:  position{line: 2324, col: 11, offset: 75286},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 11, offset: 75264},
+										pos:  position{line: 2325, col: 11, offset: 75302},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2326, col: 11, offset: 75292},
+										pos:  position{line: 2326, col: 11, offset: 75330},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79120},
+										pos: position{line: 2458, col: 5, offset: 79158},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79120},
+													pos: position{line: 2458, col: 5, offset: 79158},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79196},
+													pos:   position{line: 2461, col: 5, offset: 79234},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79214},
+														pos: position{line: 2462, col: 9, offset: 79252},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79215},
+															pos:        position{line: 2462, col: 10, offset: 79253},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44813,39 +45249,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75377},
+										pos:  position{line: 2328, col: 11, offset: 75415},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20128},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20128},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20128},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20200},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20209},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20338},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20338},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20338},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20346},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44877,7 +45313,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20365},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44886,19 +45322,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20606},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20606},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20606},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20610},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44930,7 +45366,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20629},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44939,19 +45375,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20810},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20810},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20810},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20822},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44983,33 +45419,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20841},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20847},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45017,12 +45453,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45039,7 +45475,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20863},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45048,19 +45484,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 20981},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 20981},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 20981},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 20994},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -45092,33 +45528,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21013},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21019},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21142},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21142},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21146},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21153},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21153},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45126,12 +45562,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21207},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21207},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45148,7 +45584,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21035},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45163,27 +45599,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37178},
+										pos: position{line: 1206, col: 23, offset: 37216},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37178},
+											pos: position{line: 1206, col: 23, offset: 37216},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37146},
+													pos:        position{line: 1204, col: 32, offset: 37184},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37206},
+													pos:   position{line: 1206, col: 51, offset: 37244},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37211},
+														pos: position{line: 1206, col: 56, offset: 37249},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37211},
+															pos: position{line: 1206, col: 56, offset: 37249},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37211},
+																pos:        position{line: 1206, col: 56, offset: 37249},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45193,7 +45629,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37146},
+													pos:        position{line: 1204, col: 32, offset: 37184},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45202,17 +45638,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2341, col: 5, offset: 75830},
+										pos: position{line: 2341, col: 5, offset: 75868},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2341, col: 5, offset: 75830},
+											pos: position{line: 2341, col: 5, offset: 75868},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2341, col: 5, offset: 75830},
+													pos: position{line: 2341, col: 5, offset: 75868},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2344, col: 5, offset: 75885},
+													pos:   position{line: 2344, col: 5, offset: 75923},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -45255,27 +45691,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1206, col: 23, offset: 37178},
+																							pos: position{line: 1206, col: 23, offset: 37216},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1206, col: 23, offset: 37178},
+																								pos: position{line: 1206, col: 23, offset: 37216},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37146},
+																										pos:        position{line: 1204, col: 32, offset: 37184},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1206, col: 51, offset: 37206},
+																										pos:   position{line: 1206, col: 51, offset: 37244},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1206, col: 56, offset: 37211},
+																											pos: position{line: 1206, col: 56, offset: 37249},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1206, col: 56, offset: 37211},
+																												pos: position{line: 1206, col: 56, offset: 37249},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1206, col: 56, offset: 37211},
+																													pos:        position{line: 1206, col: 56, offset: 37249},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45285,7 +45721,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37146},
+																										pos:        position{line: 1204, col: 32, offset: 37184},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -45294,35 +45730,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 636, col: 5, offset: 20128},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20109},
+																								pos: position{line: 636, col: 5, offset: 20128},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20109},
+																										pos: position{line: 636, col: 5, offset: 20128},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20181},
+																										pos:   position{line: 639, col: 5, offset: 20200},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20190},
+																											pos: position{line: 639, col: 14, offset: 20209},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 645, col: 5, offset: 20338},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20319},
+																														pos: position{line: 645, col: 5, offset: 20338},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20319},
+																																pos:        position{line: 645, col: 5, offset: 20338},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20327},
+																																pos:   position{line: 645, col: 13, offset: 20346},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -45354,7 +45790,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20346},
+																																pos:        position{line: 645, col: 32, offset: 20365},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45363,19 +45799,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 652, col: 5, offset: 20606},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20587},
+																														pos: position{line: 652, col: 5, offset: 20606},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20587},
+																																pos:        position{line: 652, col: 5, offset: 20606},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20591},
+																																pos:   position{line: 652, col: 9, offset: 20610},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -45407,7 +45843,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20610},
+																																pos:        position{line: 652, col: 28, offset: 20629},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45416,19 +45852,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 658, col: 25, offset: 20810},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20791},
+																														pos: position{line: 658, col: 25, offset: 20810},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20791},
+																																pos:        position{line: 658, col: 25, offset: 20810},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20803},
+																																pos:   position{line: 658, col: 37, offset: 20822},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -45460,33 +45896,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20822},
+																																pos:   position{line: 658, col: 56, offset: 20841},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20828},
+																																	pos: position{line: 658, col: 62, offset: 20847},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21142},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21142},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21142},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21146},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21153},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 666, col: 28, offset: 21153},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21153},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -45494,12 +45930,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21207},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21207},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21207},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -45516,7 +45952,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20844},
+																																pos:        position{line: 658, col: 78, offset: 20863},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45525,19 +45961,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 662, col: 25, offset: 20981},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20962},
+																														pos: position{line: 662, col: 25, offset: 20981},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20962},
+																																pos:        position{line: 662, col: 25, offset: 20981},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20975},
+																																pos:   position{line: 662, col: 38, offset: 20994},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -45569,33 +46005,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 20994},
+																																pos:   position{line: 662, col: 57, offset: 21013},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21000},
+																																	pos: position{line: 662, col: 63, offset: 21019},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21142},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21142},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21142},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21146},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21153},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 666, col: 28, offset: 21153},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21153},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -45603,12 +46039,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21207},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21207},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21207},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -45625,7 +46061,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21016},
+																																pos:        position{line: 662, col: 79, offset: 21035},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -45666,12 +46102,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2344, col: 26, offset: 75906},
+													pos: position{line: 2344, col: 26, offset: 75944},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90589},
+														pos: position{line: 2861, col: 10, offset: 90627},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90589},
+															pos:        position{line: 2861, col: 10, offset: 90627},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45680,30 +46116,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2344, col: 33, offset: 75913},
+													pos: position{line: 2344, col: 33, offset: 75951},
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 90987},
+														pos: position{line: 2883, col: 8, offset: 91025},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90760},
+																pos: position{line: 2870, col: 12, offset: 90798},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90761},
+																	pos: position{line: 2870, col: 13, offset: 90799},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90761},
+																			pos:        position{line: 2870, col: 13, offset: 90799},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90768},
+																			pos:        position{line: 2870, col: 20, offset: 90806},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90777},
+																			pos:        position{line: 2870, col: 29, offset: 90815},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45712,9 +46148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90937},
+																pos: position{line: 2880, col: 8, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90938,
+																	line: 2880, col: 9, offset: 90976,
 																},
 															},
 														},
@@ -45724,27 +46160,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38938},
+										pos: position{line: 1261, col: 5, offset: 38976},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38938},
+											pos: position{line: 1261, col: 5, offset: 38976},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38938},
+													pos:        position{line: 1261, col: 5, offset: 38976},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38947},
+													pos:   position{line: 1261, col: 14, offset: 38985},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90241},
+														pos: position{line: 2846, col: 7, offset: 90279},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90241},
+															pos: position{line: 2846, col: 7, offset: 90279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90241},
+																pos:        position{line: 2846, col: 7, offset: 90279},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45754,7 +46190,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38955},
+													pos:        position{line: 1261, col: 22, offset: 38993},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45763,27 +46199,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39074},
+										pos: position{line: 1266, col: 5, offset: 39112},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39074},
+											pos: position{line: 1266, col: 5, offset: 39112},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39074},
+													pos:        position{line: 1266, col: 5, offset: 39112},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39079},
+													pos:   position{line: 1266, col: 10, offset: 39117},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90241},
+														pos: position{line: 2846, col: 7, offset: 90279},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90241},
+															pos: position{line: 2846, col: 7, offset: 90279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90241},
+																pos:        position{line: 2846, col: 7, offset: 90279},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45793,7 +46229,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39087},
+													pos:        position{line: 1266, col: 18, offset: 39125},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45802,14 +46238,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75631},
+										pos:  position{line: 2333, col: 11, offset: 75669},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88897},
+										pos: position{line: 2800, col: 12, offset: 88935},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88897},
+											pos:        position{line: 2800, col: 12, offset: 88935},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45825,52 +46261,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2354, col: 1, offset: 76175},
+			pos:  position{line: 2354, col: 1, offset: 76213},
 			expr: &actionExpr{
-				pos: position{line: 2355, col: 5, offset: 76262},
+				pos: position{line: 2355, col: 5, offset: 76300},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2355, col: 5, offset: 76262},
+					pos: position{line: 2355, col: 5, offset: 76300},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2355, col: 5, offset: 76262},
+							pos:   position{line: 2355, col: 5, offset: 76300},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2355, col: 14, offset: 76271},
+								pos: position{line: 2355, col: 14, offset: 76309},
 								expr: &actionExpr{
-									pos: position{line: 2357, col: 9, offset: 76297},
+									pos: position{line: 2357, col: 9, offset: 76335},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2357, col: 9, offset: 76297},
+										pos: position{line: 2357, col: 9, offset: 76335},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90923},
+												pos: position{line: 2878, col: 11, offset: 90961},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90925,
+													line: 2878, col: 13, offset: 90963,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2358, col: 9, offset: 76312},
+												pos:   position{line: 2358, col: 9, offset: 76350},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2359, col: 13, offset: 76334},
+													pos: position{line: 2359, col: 13, offset: 76372},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2760, col: 5, offset: 87831},
+															pos: position{line: 2760, col: 5, offset: 87869},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2760, col: 5, offset: 87831},
+																pos: position{line: 2760, col: 5, offset: 87869},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2760, col: 5, offset: 87831},
+																		pos:   position{line: 2760, col: 5, offset: 87869},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2760, col: 11, offset: 87837},
+																			pos: position{line: 2760, col: 11, offset: 87875},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2760, col: 11, offset: 87837},
+																				pos: position{line: 2760, col: 11, offset: 87875},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2760, col: 11, offset: 87837},
+																					pos:        position{line: 2760, col: 11, offset: 87875},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45880,36 +46316,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2763, col: 5, offset: 87895},
+																		pos: position{line: 2763, col: 5, offset: 87933},
 																		expr: &seqExpr{
-																			pos: position{line: 2764, col: 9, offset: 87906},
+																			pos: position{line: 2764, col: 9, offset: 87944},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2764, col: 9, offset: 87906},
+																					pos:        position{line: 2764, col: 9, offset: 87944},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2765, col: 9, offset: 87955},
+																					pos: position{line: 2765, col: 9, offset: 87993},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2769, col: 5, offset: 88035},
+																		pos: position{line: 2769, col: 5, offset: 88073},
 																		expr: &seqExpr{
-																			pos: position{line: 2770, col: 9, offset: 88046},
+																			pos: position{line: 2770, col: 9, offset: 88084},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2770, col: 9, offset: 88046},
+																					pos:        position{line: 2770, col: 9, offset: 88084},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2770, col: 13, offset: 88050},
+																					pos:        position{line: 2770, col: 13, offset: 88088},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45922,12 +46358,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2865, col: 11, offset: 90650},
+															pos: position{line: 2865, col: 11, offset: 90688},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2865, col: 11, offset: 90650},
+																pos: position{line: 2865, col: 11, offset: 90688},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2865, col: 11, offset: 90650},
+																	pos:        position{line: 2865, col: 11, offset: 90688},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45936,25 +46372,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2361, col: 15, offset: 76380},
+															pos:  position{line: 2361, col: 15, offset: 76418},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2489, col: 5, offset: 80291},
+															pos: position{line: 2489, col: 5, offset: 80329},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2489, col: 5, offset: 80291},
+																pos: position{line: 2489, col: 5, offset: 80329},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 5, offset: 80291},
+																		pos:        position{line: 2489, col: 5, offset: 80329},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2489, col: 10, offset: 80296},
+																		pos: position{line: 2489, col: 10, offset: 80334},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2489, col: 11, offset: 80297},
+																			pos:        position{line: 2489, col: 11, offset: 80335},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45965,29 +46401,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2495, col: 5, offset: 80489},
+															pos: position{line: 2495, col: 5, offset: 80527},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2495, col: 5, offset: 80489},
+																pos: position{line: 2495, col: 5, offset: 80527},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2495, col: 5, offset: 80489},
+																		pos: position{line: 2495, col: 5, offset: 80527},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80560},
+																		pos: position{line: 2498, col: 5, offset: 80598},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 5, offset: 80685},
+																		pos:        position{line: 2502, col: 5, offset: 80723},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2502, col: 9, offset: 80689},
+																		pos: position{line: 2502, col: 9, offset: 80727},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2502, col: 10, offset: 80690},
+																			pos:        position{line: 2502, col: 10, offset: 80728},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45998,27 +46434,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2778, col: 5, offset: 88243},
+															pos: position{line: 2778, col: 5, offset: 88281},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2779, col: 9, offset: 88253},
+																pos: position{line: 2779, col: 9, offset: 88291},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2779, col: 10, offset: 88254},
+																		pos:        position{line: 2779, col: 10, offset: 88292},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2781, col: 13, offset: 88351},
+																		pos: position{line: 2781, col: 13, offset: 88389},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2781, col: 13, offset: 88351},
+																				pos: position{line: 2781, col: 13, offset: 88389},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2784, col: 13, offset: 88451},
+																				pos:        position{line: 2784, col: 13, offset: 88489},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46026,20 +46462,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2784, col: 19, offset: 88457},
+																		pos:        position{line: 2784, col: 19, offset: 88495},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2787, col: 13, offset: 88495},
+																		pos: position{line: 2787, col: 13, offset: 88533},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2787, col: 13, offset: 88495},
+																				pos: position{line: 2787, col: 13, offset: 88533},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2790, col: 14, offset: 88588},
+																				pos:        position{line: 2790, col: 14, offset: 88626},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46048,18 +46484,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2792, col: 12, offset: 88632},
+																		pos: position{line: 2792, col: 12, offset: 88670},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2792, col: 12, offset: 88632},
+																				pos:        position{line: 2792, col: 12, offset: 88670},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2792, col: 16, offset: 88636},
+																				pos: position{line: 2792, col: 16, offset: 88674},
 																				expr: &litMatcher{
-																					pos:        position{line: 2792, col: 17, offset: 88637},
+																					pos:        position{line: 2792, col: 17, offset: 88675},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46071,25 +46507,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90760},
+															pos: position{line: 2870, col: 12, offset: 90798},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90761},
+																pos: position{line: 2870, col: 13, offset: 90799},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90761},
+																		pos:        position{line: 2870, col: 13, offset: 90799},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90768},
+																		pos:        position{line: 2870, col: 20, offset: 90806},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90777},
+																		pos:        position{line: 2870, col: 29, offset: 90815},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46098,35 +46534,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20128},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20128},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20128},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20200},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20209},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20338},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20338},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20338},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20346},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46158,7 +46594,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20365},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46167,19 +46603,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20606},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20606},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20606},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20610},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46211,7 +46647,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20629},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46220,19 +46656,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20810},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20810},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20810},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20822},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46264,33 +46700,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20841},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20847},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21142},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21142},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21142},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21146},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21153},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46298,12 +46734,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21207},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21207},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21207},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46320,7 +46756,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20863},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46329,19 +46765,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 20981},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 20981},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 20981},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 20994},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46373,33 +46809,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21013},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21019},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21142},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21142},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21142},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21146},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21153},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21153},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21153},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46407,12 +46843,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21207},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21207},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21207},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46429,7 +46865,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21035},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46444,35 +46880,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2366, col: 15, offset: 76547},
+															pos:  position{line: 2366, col: 15, offset: 76585},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2367, col: 15, offset: 76567},
+															pos:  position{line: 2367, col: 15, offset: 76605},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2368, col: 15, offset: 76656},
+															pos:  position{line: 2368, col: 15, offset: 76694},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2458, col: 5, offset: 79120},
+															pos: position{line: 2458, col: 5, offset: 79158},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2458, col: 5, offset: 79120},
+																pos: position{line: 2458, col: 5, offset: 79158},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2458, col: 5, offset: 79120},
+																		pos: position{line: 2458, col: 5, offset: 79158},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2461, col: 5, offset: 79196},
+																		pos:   position{line: 2461, col: 5, offset: 79234},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2462, col: 9, offset: 79214},
+																			pos: position{line: 2462, col: 9, offset: 79252},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2462, col: 10, offset: 79215},
+																				pos:        position{line: 2462, col: 10, offset: 79253},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46484,32 +46920,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1214, col: 5, offset: 37624},
+															pos: position{line: 1214, col: 5, offset: 37662},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1214, col: 5, offset: 37624},
+																pos: position{line: 1214, col: 5, offset: 37662},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1214, col: 5, offset: 37624},
+																		pos: position{line: 1214, col: 5, offset: 37662},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1217, col: 5, offset: 37700},
+																		pos:        position{line: 1217, col: 5, offset: 37738},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1218, col: 5, offset: 37708},
+																		pos: position{line: 1218, col: 5, offset: 37746},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1222, col: 5, offset: 37795},
+																		pos: position{line: 1222, col: 5, offset: 37833},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46518,30 +46954,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1222, col: 12, offset: 37802},
+																		pos: position{line: 1222, col: 12, offset: 37840},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 90987},
+																			pos: position{line: 2883, col: 8, offset: 91025},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46550,9 +46986,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90937},
+																					pos: position{line: 2880, col: 8, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90938,
+																						line: 2880, col: 9, offset: 90976,
 																					},
 																				},
 																			},
@@ -46562,31 +46998,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76838},
+															pos:  position{line: 2371, col: 15, offset: 76876},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37178},
+															pos: position{line: 1206, col: 23, offset: 37216},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37178},
+																pos: position{line: 1206, col: 23, offset: 37216},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37146},
+																		pos:        position{line: 1204, col: 32, offset: 37184},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37206},
+																		pos:   position{line: 1206, col: 51, offset: 37244},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37211},
+																			pos: position{line: 1206, col: 56, offset: 37249},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37211},
+																				pos: position{line: 1206, col: 56, offset: 37249},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37211},
+																					pos:        position{line: 1206, col: 56, offset: 37249},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -46596,7 +47032,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37146},
+																		pos:        position{line: 1204, col: 32, offset: 37184},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -46605,10 +47041,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2800, col: 12, offset: 88897},
+															pos: position{line: 2800, col: 12, offset: 88935},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2800, col: 12, offset: 88897},
+																pos:        position{line: 2800, col: 12, offset: 88935},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46624,9 +47060,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -46635,28 +47071,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2382, col: 1, offset: 77276},
+			pos:  position{line: 2382, col: 1, offset: 77314},
 			expr: &actionExpr{
-				pos: position{line: 2383, col: 5, offset: 77309},
+				pos: position{line: 2383, col: 5, offset: 77347},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2383, col: 5, offset: 77309},
+					pos: position{line: 2383, col: 5, offset: 77347},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2383, col: 5, offset: 77309},
+							pos:   position{line: 2383, col: 5, offset: 77347},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2383, col: 14, offset: 77318},
+								pos: position{line: 2383, col: 14, offset: 77356},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2383, col: 15, offset: 77319},
+									pos:  position{line: 2383, col: 15, offset: 77357},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -46665,41 +47101,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2387, col: 1, offset: 77416},
+			pos:  position{line: 2387, col: 1, offset: 77454},
 			expr: &actionExpr{
-				pos: position{line: 2388, col: 5, offset: 77456},
+				pos: position{line: 2388, col: 5, offset: 77494},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2388, col: 5, offset: 77456},
+					pos: position{line: 2388, col: 5, offset: 77494},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90923},
+							pos: position{line: 2878, col: 11, offset: 90961},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90925,
+								line: 2878, col: 13, offset: 90963,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2389, col: 5, offset: 77467},
+							pos:   position{line: 2389, col: 5, offset: 77505},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2390, col: 9, offset: 77485},
+								pos: position{line: 2390, col: 9, offset: 77523},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87831},
+										pos: position{line: 2760, col: 5, offset: 87869},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87831},
+											pos: position{line: 2760, col: 5, offset: 87869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87831},
+													pos:   position{line: 2760, col: 5, offset: 87869},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87837},
+														pos: position{line: 2760, col: 11, offset: 87875},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87837},
+															pos: position{line: 2760, col: 11, offset: 87875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87837},
+																pos:        position{line: 2760, col: 11, offset: 87875},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46709,36 +47145,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87895},
+													pos: position{line: 2763, col: 5, offset: 87933},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87906},
+														pos: position{line: 2764, col: 9, offset: 87944},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87906},
+																pos:        position{line: 2764, col: 9, offset: 87944},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87955},
+																pos: position{line: 2765, col: 9, offset: 87993},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88035},
+													pos: position{line: 2769, col: 5, offset: 88073},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88046},
+														pos: position{line: 2770, col: 9, offset: 88084},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88046},
+																pos:        position{line: 2770, col: 9, offset: 88084},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88050},
+																pos:        position{line: 2770, col: 13, offset: 88088},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46751,10 +47187,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90589},
+										pos: position{line: 2861, col: 10, offset: 90627},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90589},
+											pos:        position{line: 2861, col: 10, offset: 90627},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46762,31 +47198,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77523},
+										pos:  position{line: 2392, col: 11, offset: 77561},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88243},
+										pos: position{line: 2778, col: 5, offset: 88281},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88253},
+											pos: position{line: 2779, col: 9, offset: 88291},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88254},
+													pos:        position{line: 2779, col: 10, offset: 88292},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88351},
+													pos: position{line: 2781, col: 13, offset: 88389},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88351},
+															pos: position{line: 2781, col: 13, offset: 88389},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88451},
+															pos:        position{line: 2784, col: 13, offset: 88489},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46794,20 +47230,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88457},
+													pos:        position{line: 2784, col: 19, offset: 88495},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88495},
+													pos: position{line: 2787, col: 13, offset: 88533},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88495},
+															pos: position{line: 2787, col: 13, offset: 88533},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88588},
+															pos:        position{line: 2790, col: 14, offset: 88626},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46816,18 +47252,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88632},
+													pos: position{line: 2792, col: 12, offset: 88670},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88632},
+															pos:        position{line: 2792, col: 12, offset: 88670},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88636},
+															pos: position{line: 2792, col: 16, offset: 88674},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88637},
+																pos:        position{line: 2792, col: 17, offset: 88675},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46839,31 +47275,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77596},
+										pos:  position{line: 2394, col: 11, offset: 77634},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2395, col: 11, offset: 77612},
+										pos:  position{line: 2395, col: 11, offset: 77650},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79120},
+										pos: position{line: 2458, col: 5, offset: 79158},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79120},
+											pos: position{line: 2458, col: 5, offset: 79158},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79120},
+													pos: position{line: 2458, col: 5, offset: 79158},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79196},
+													pos:   position{line: 2461, col: 5, offset: 79234},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79214},
+														pos: position{line: 2462, col: 9, offset: 79252},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79215},
+															pos:        position{line: 2462, col: 10, offset: 79253},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46875,27 +47311,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37178},
+										pos: position{line: 1206, col: 23, offset: 37216},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37178},
+											pos: position{line: 1206, col: 23, offset: 37216},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37146},
+													pos:        position{line: 1204, col: 32, offset: 37184},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37206},
+													pos:   position{line: 1206, col: 51, offset: 37244},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37211},
+														pos: position{line: 1206, col: 56, offset: 37249},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37211},
+															pos: position{line: 1206, col: 56, offset: 37249},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37211},
+																pos:        position{line: 1206, col: 56, offset: 37249},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46905,7 +47341,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37146},
+													pos:        position{line: 1204, col: 32, offset: 37184},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46914,25 +47350,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90760},
+										pos: position{line: 2870, col: 12, offset: 90798},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90761},
+											pos: position{line: 2870, col: 13, offset: 90799},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90761},
+													pos:        position{line: 2870, col: 13, offset: 90799},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90768},
+													pos:        position{line: 2870, col: 20, offset: 90806},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90777},
+													pos:        position{line: 2870, col: 29, offset: 90815},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46941,10 +47377,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88897},
+										pos: position{line: 2800, col: 12, offset: 88935},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88897},
+											pos:        position{line: 2800, col: 12, offset: 88935},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46960,73 +47396,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2406, col: 1, offset: 77882},
+			pos:  position{line: 2406, col: 1, offset: 77920},
 			expr: &actionExpr{
-				pos: position{line: 2408, col: 5, offset: 77964},
+				pos: position{line: 2408, col: 5, offset: 78002},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2408, col: 5, offset: 77964},
+					pos: position{line: 2408, col: 5, offset: 78002},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2408, col: 5, offset: 77964},
+							pos: position{line: 2408, col: 5, offset: 78002},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2411, col: 5, offset: 78029},
+							pos:   position{line: 2411, col: 5, offset: 78067},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2412, col: 9, offset: 78047},
+								pos: position{line: 2412, col: 9, offset: 78085},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 9, offset: 78047},
+										pos:  position{line: 2412, col: 9, offset: 78085},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 78068},
+										pos:  position{line: 2413, col: 11, offset: 78106},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 78091},
+										pos:  position{line: 2414, col: 11, offset: 78129},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 11, offset: 78107},
+										pos:  position{line: 2415, col: 11, offset: 78145},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78136},
+										pos:  position{line: 2416, col: 11, offset: 78174},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78162},
+										pos:  position{line: 2417, col: 11, offset: 78200},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78188},
+										pos:  position{line: 2418, col: 11, offset: 78226},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38938},
+										pos: position{line: 1261, col: 5, offset: 38976},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38938},
+											pos: position{line: 1261, col: 5, offset: 38976},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38938},
+													pos:        position{line: 1261, col: 5, offset: 38976},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38947},
+													pos:   position{line: 1261, col: 14, offset: 38985},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90241},
+														pos: position{line: 2846, col: 7, offset: 90279},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90241},
+															pos: position{line: 2846, col: 7, offset: 90279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90241},
+																pos:        position{line: 2846, col: 7, offset: 90279},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47036,7 +47472,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38955},
+													pos:        position{line: 1261, col: 22, offset: 38993},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47045,27 +47481,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39074},
+										pos: position{line: 1266, col: 5, offset: 39112},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39074},
+											pos: position{line: 1266, col: 5, offset: 39112},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39074},
+													pos:        position{line: 1266, col: 5, offset: 39112},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39079},
+													pos:   position{line: 1266, col: 10, offset: 39117},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90241},
+														pos: position{line: 2846, col: 7, offset: 90279},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90241},
+															pos: position{line: 2846, col: 7, offset: 90279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90241},
+																pos:        position{line: 2846, col: 7, offset: 90279},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47075,7 +47511,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39087},
+													pos:        position{line: 1266, col: 18, offset: 39125},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47084,40 +47520,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1305, col: 23, offset: 40563},
+										pos: position{line: 1305, col: 23, offset: 40601},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1305, col: 23, offset: 40563},
+											pos: position{line: 1305, col: 23, offset: 40601},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1305, col: 23, offset: 40563},
+													pos:        position{line: 1305, col: 23, offset: 40601},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1305, col: 29, offset: 40569},
+													pos:   position{line: 1305, col: 29, offset: 40607},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1312, col: 30, offset: 40900},
+														pos: position{line: 1312, col: 30, offset: 40938},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1312, col: 30, offset: 40900},
+															pos: position{line: 1312, col: 30, offset: 40938},
 															expr: &choiceExpr{
-																pos: position{line: 1312, col: 31, offset: 40901},
+																pos: position{line: 1312, col: 31, offset: 40939},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2751, col: 13, offset: 87684},
+																		pos:        position{line: 2751, col: 13, offset: 87722},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90589},
+																		pos: position{line: 2861, col: 10, offset: 90627},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90589},
+																			pos:        position{line: 2861, col: 10, offset: 90627},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47130,23 +47566,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1306, col: 5, offset: 40608},
+													pos:   position{line: 1306, col: 5, offset: 40646},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1306, col: 11, offset: 40614},
+														pos: position{line: 1306, col: 11, offset: 40652},
 														expr: &actionExpr{
-															pos: position{line: 1306, col: 12, offset: 40615},
+															pos: position{line: 1306, col: 12, offset: 40653},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1306, col: 12, offset: 40615},
+																pos: position{line: 1306, col: 12, offset: 40653},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 12, offset: 40615},
+																		pos: position{line: 1306, col: 12, offset: 40653},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47155,18 +47591,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1306, col: 19, offset: 40622},
+																		pos:        position{line: 1306, col: 19, offset: 40660},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 23, offset: 40626},
+																		pos: position{line: 1306, col: 23, offset: 40664},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47175,28 +47611,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1306, col: 30, offset: 40633},
+																		pos:   position{line: 1306, col: 30, offset: 40671},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40900},
+																			pos: position{line: 1312, col: 30, offset: 40938},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40900},
+																				pos: position{line: 1312, col: 30, offset: 40938},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40901},
+																					pos: position{line: 1312, col: 31, offset: 40939},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2751, col: 13, offset: 87684},
+																							pos:        position{line: 2751, col: 13, offset: 87722},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47214,23 +47650,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1307, col: 5, offset: 40700},
+													pos:   position{line: 1307, col: 5, offset: 40738},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1307, col: 11, offset: 40706},
+														pos: position{line: 1307, col: 11, offset: 40744},
 														expr: &actionExpr{
-															pos: position{line: 1307, col: 12, offset: 40707},
+															pos: position{line: 1307, col: 12, offset: 40745},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1307, col: 12, offset: 40707},
+																pos: position{line: 1307, col: 12, offset: 40745},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 12, offset: 40707},
+																		pos: position{line: 1307, col: 12, offset: 40745},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47239,18 +47675,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1307, col: 19, offset: 40714},
+																		pos:        position{line: 1307, col: 19, offset: 40752},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 23, offset: 40718},
+																		pos: position{line: 1307, col: 23, offset: 40756},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90589},
+																			pos: position{line: 2861, col: 10, offset: 90627},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90589},
+																				pos:        position{line: 2861, col: 10, offset: 90627},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47259,28 +47695,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1307, col: 30, offset: 40725},
+																		pos:   position{line: 1307, col: 30, offset: 40763},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40900},
+																			pos: position{line: 1312, col: 30, offset: 40938},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40900},
+																				pos: position{line: 1312, col: 30, offset: 40938},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40901},
+																					pos: position{line: 1312, col: 31, offset: 40939},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2751, col: 13, offset: 87684},
+																							pos:        position{line: 2751, col: 13, offset: 87722},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90589},
+																							pos: position{line: 2861, col: 10, offset: 90627},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90589},
+																								pos:        position{line: 2861, col: 10, offset: 90627},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47298,7 +47734,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1308, col: 5, offset: 40792},
+													pos:        position{line: 1308, col: 5, offset: 40830},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47307,15 +47743,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78267},
+										pos:  position{line: 2421, col: 11, offset: 78305},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78287},
+										pos:  position{line: 2422, col: 11, offset: 78325},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78310},
+										pos:  position{line: 2423, col: 11, offset: 78348},
 										name: "InlineMenu",
 									},
 								},
@@ -47327,80 +47763,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2427, col: 1, offset: 78367},
+			pos:  position{line: 2427, col: 1, offset: 78405},
 			expr: &actionExpr{
-				pos: position{line: 2429, col: 5, offset: 78455},
+				pos: position{line: 2429, col: 5, offset: 78493},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2429, col: 5, offset: 78455},
+					pos: position{line: 2429, col: 5, offset: 78493},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2429, col: 5, offset: 78455},
+							pos: position{line: 2429, col: 5, offset: 78493},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2432, col: 5, offset: 78532},
+							pos:   position{line: 2432, col: 5, offset: 78570},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2433, col: 9, offset: 78550},
+								pos: position{line: 2433, col: 9, offset: 78588},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1387, col: 26, offset: 44170},
+										pos: position{line: 1387, col: 26, offset: 44208},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1387, col: 26, offset: 44170},
+											pos: position{line: 1387, col: 26, offset: 44208},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44138},
+													pos:        position{line: 1385, col: 32, offset: 44176},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1387, col: 54, offset: 44198},
+													pos:   position{line: 1387, col: 54, offset: 44236},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1391, col: 33, offset: 44411},
+														pos: position{line: 1391, col: 33, offset: 44449},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1391, col: 34, offset: 44412},
+																pos: position{line: 1391, col: 34, offset: 44450},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1391, col: 34, offset: 44412},
+																	pos: position{line: 1391, col: 34, offset: 44450},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 35, offset: 44413},
+																		pos: position{line: 1391, col: 35, offset: 44451},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 35, offset: 44413},
+																				pos: position{line: 1391, col: 35, offset: 44451},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44138},
+																					pos:        position{line: 1385, col: 32, offset: 44176},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 64, offset: 44442,
+																				line: 1391, col: 64, offset: 44480,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1393, col: 11, offset: 44615},
+																pos: position{line: 1393, col: 11, offset: 44653},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1393, col: 11, offset: 44615},
+																	pos: position{line: 1393, col: 11, offset: 44653},
 																	expr: &seqExpr{
-																		pos: position{line: 1393, col: 12, offset: 44616},
+																		pos: position{line: 1393, col: 12, offset: 44654},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1393, col: 12, offset: 44616},
+																				pos: position{line: 1393, col: 12, offset: 44654},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90589},
+																					pos: position{line: 2861, col: 10, offset: 90627},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90589},
+																						pos:        position{line: 2861, col: 10, offset: 90627},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47409,27 +47845,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 19, offset: 44623},
+																				pos: position{line: 1393, col: 19, offset: 44661},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90760},
+																					pos: position{line: 2870, col: 12, offset: 90798},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90761},
+																						pos: position{line: 2870, col: 13, offset: 90799},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90761},
+																								pos:        position{line: 2870, col: 13, offset: 90799},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90768},
+																								pos:        position{line: 2870, col: 20, offset: 90806},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90777},
+																								pos:        position{line: 2870, col: 29, offset: 90815},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47439,16 +47875,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 28, offset: 44632},
+																				pos: position{line: 1393, col: 28, offset: 44670},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44138},
+																					pos:        position{line: 1385, col: 32, offset: 44176},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1393, col: 57, offset: 44661,
+																				line: 1393, col: 57, offset: 44699,
 																			},
 																		},
 																	},
@@ -47458,15 +47894,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44138},
+													pos:        position{line: 1385, col: 32, offset: 44176},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1387, col: 121, offset: 44265},
+													pos: position{line: 1387, col: 121, offset: 44303},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87684},
+														pos:        position{line: 2751, col: 13, offset: 87722},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47477,45 +47913,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1375, col: 26, offset: 43453},
+										pos: position{line: 1375, col: 26, offset: 43491},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1375, col: 26, offset: 43453},
+											pos: position{line: 1375, col: 26, offset: 43491},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43423},
+													pos:        position{line: 1373, col: 32, offset: 43461},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1375, col: 54, offset: 43481},
+													pos:   position{line: 1375, col: 54, offset: 43519},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1379, col: 33, offset: 43694},
+														pos: position{line: 1379, col: 33, offset: 43732},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1379, col: 34, offset: 43695},
+																pos: position{line: 1379, col: 34, offset: 43733},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 34, offset: 43695},
+																	pos: position{line: 1379, col: 34, offset: 43733},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 35, offset: 43696},
+																			pos: position{line: 1379, col: 35, offset: 43734},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43423},
+																				pos:        position{line: 1373, col: 32, offset: 43461},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 64, offset: 43725},
+																			pos: position{line: 1379, col: 64, offset: 43763},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47524,27 +47960,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 71, offset: 43732},
+																			pos: position{line: 1379, col: 71, offset: 43770},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47554,25 +47990,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 80, offset: 43741,
+																			line: 1379, col: 80, offset: 43779,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1379, col: 83, offset: 43744},
+																			pos: position{line: 1379, col: 83, offset: 43782},
 																			expr: &seqExpr{
-																				pos: position{line: 1379, col: 84, offset: 43745},
+																				pos: position{line: 1379, col: 84, offset: 43783},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1379, col: 84, offset: 43745},
+																						pos: position{line: 1379, col: 84, offset: 43783},
 																						expr: &seqExpr{
-																							pos: position{line: 1379, col: 86, offset: 43747},
+																							pos: position{line: 1379, col: 86, offset: 43785},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90650},
+																									pos: position{line: 2865, col: 11, offset: 90688},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90650},
+																										pos: position{line: 2865, col: 11, offset: 90688},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90650},
+																											pos:        position{line: 2865, col: 11, offset: 90688},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47581,7 +48017,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1373, col: 32, offset: 43423},
+																									pos:        position{line: 1373, col: 32, offset: 43461},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -47590,36 +48026,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 122, offset: 43783},
+																						pos: position{line: 1379, col: 122, offset: 43821},
 																						expr: &litMatcher{
-																							pos:        position{line: 1373, col: 32, offset: 43423},
+																							pos:        position{line: 1373, col: 32, offset: 43461},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 151, offset: 43812},
+																						pos: position{line: 1379, col: 151, offset: 43850},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90760},
+																							pos: position{line: 2870, col: 12, offset: 90798},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90761},
+																								pos: position{line: 2870, col: 13, offset: 90799},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90761},
+																										pos:        position{line: 2870, col: 13, offset: 90799},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90768},
+																										pos:        position{line: 2870, col: 20, offset: 90806},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90777},
+																										pos:        position{line: 2870, col: 29, offset: 90815},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47629,7 +48065,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1379, col: 160, offset: 43821,
+																						line: 1379, col: 160, offset: 43859,
 																					},
 																				},
 																			},
@@ -47638,18 +48074,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1381, col: 11, offset: 43971},
+																pos: position{line: 1381, col: 11, offset: 44009},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1381, col: 12, offset: 43972},
+																	pos: position{line: 1381, col: 12, offset: 44010},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1381, col: 12, offset: 43972},
+																			pos: position{line: 1381, col: 12, offset: 44010},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90589},
+																				pos: position{line: 2861, col: 10, offset: 90627},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90589},
+																					pos:        position{line: 2861, col: 10, offset: 90627},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47658,27 +48094,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 19, offset: 43979},
+																			pos: position{line: 1381, col: 19, offset: 44017},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90760},
+																				pos: position{line: 2870, col: 12, offset: 90798},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90761},
+																					pos: position{line: 2870, col: 13, offset: 90799},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90761},
+																							pos:        position{line: 2870, col: 13, offset: 90799},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90768},
+																							pos:        position{line: 2870, col: 20, offset: 90806},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90777},
+																							pos:        position{line: 2870, col: 29, offset: 90815},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47688,16 +48124,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 28, offset: 43988},
+																			pos: position{line: 1381, col: 28, offset: 44026},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43423},
+																				pos:        position{line: 1373, col: 32, offset: 43461},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1381, col: 57, offset: 44017,
+																			line: 1381, col: 57, offset: 44055,
 																		},
 																	},
 																},
@@ -47706,15 +48142,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43423},
+													pos:        position{line: 1373, col: 32, offset: 43461},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1375, col: 121, offset: 43548},
+													pos: position{line: 1375, col: 121, offset: 43586},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87684},
+														pos:        position{line: 2751, col: 13, offset: 87722},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47725,7 +48161,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 57, offset: 78598},
+										pos:  position{line: 2433, col: 57, offset: 78636},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47737,16 +48173,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2438, col: 1, offset: 78658},
+			pos:  position{line: 2438, col: 1, offset: 78696},
 			expr: &seqExpr{
-				pos: position{line: 2440, col: 5, offset: 78734},
+				pos: position{line: 2440, col: 5, offset: 78772},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2440, col: 5, offset: 78734},
+						pos: position{line: 2440, col: 5, offset: 78772},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2443, col: 5, offset: 78799},
+						pos:  position{line: 2443, col: 5, offset: 78837},
 						name: "QuotedText",
 					},
 				},
@@ -47754,22 +48190,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2445, col: 1, offset: 78812},
+			pos:  position{line: 2445, col: 1, offset: 78850},
 			expr: &actionExpr{
-				pos: position{line: 2447, col: 5, offset: 78894},
+				pos: position{line: 2447, col: 5, offset: 78932},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2447, col: 5, offset: 78894},
+					pos: position{line: 2447, col: 5, offset: 78932},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2447, col: 5, offset: 78894},
+							pos: position{line: 2447, col: 5, offset: 78932},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2450, col: 5, offset: 78965},
+							pos:   position{line: 2450, col: 5, offset: 79003},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2451, col: 9, offset: 78983},
+								pos:  position{line: 2451, col: 9, offset: 79021},
 								name: "Symbol",
 							},
 						},
@@ -47779,103 +48215,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2506, col: 1, offset: 80742},
+			pos:  position{line: 2506, col: 1, offset: 80780},
 			expr: &choiceExpr{
-				pos: position{line: 2508, col: 5, offset: 80772},
+				pos: position{line: 2508, col: 5, offset: 80810},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2508, col: 5, offset: 80772},
+						pos: position{line: 2508, col: 5, offset: 80810},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2508, col: 5, offset: 80772},
+							pos: position{line: 2508, col: 5, offset: 80810},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2508, col: 5, offset: 80772},
+									pos:        position{line: 2508, col: 5, offset: 80810},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2508, col: 10, offset: 80777},
+									pos: position{line: 2508, col: 10, offset: 80815},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2508, col: 10, offset: 80777},
+											pos:  position{line: 2508, col: 10, offset: 80815},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 14, offset: 81881},
+											pos: position{line: 2537, col: 14, offset: 81919},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2537, col: 14, offset: 81881},
+												pos:        position{line: 2537, col: 14, offset: 81919},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2541, col: 14, offset: 81947},
+											pos: position{line: 2541, col: 14, offset: 81985},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2541, col: 14, offset: 81947},
+												pos:        position{line: 2541, col: 14, offset: 81985},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2545, col: 15, offset: 82016},
+											pos: position{line: 2545, col: 15, offset: 82054},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2545, col: 15, offset: 82016},
+												pos:        position{line: 2545, col: 15, offset: 82054},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 13, offset: 82081},
+											pos: position{line: 2549, col: 13, offset: 82119},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 13, offset: 82081},
+												pos:        position{line: 2549, col: 13, offset: 82119},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2577, col: 21, offset: 82651},
+											pos: position{line: 2577, col: 21, offset: 82689},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2577, col: 21, offset: 82651},
+												pos:        position{line: 2577, col: 21, offset: 82689},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 5, offset: 82237},
+											pos: position{line: 2556, col: 5, offset: 82275},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2556, col: 5, offset: 82237},
+												pos: position{line: 2556, col: 5, offset: 82275},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2556, col: 5, offset: 82237},
+														pos:        position{line: 2556, col: 5, offset: 82275},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2557, col: 5, offset: 82247},
+														pos: position{line: 2557, col: 5, offset: 82285},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2561, col: 6, offset: 82334},
+														pos: position{line: 2561, col: 6, offset: 82372},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90589},
+																pos: position{line: 2861, col: 10, offset: 90627},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90589},
+																	pos:        position{line: 2861, col: 10, offset: 90627},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47883,30 +48319,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2561, col: 14, offset: 82342},
+																pos: position{line: 2561, col: 14, offset: 82380},
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 90987},
+																	pos: position{line: 2883, col: 8, offset: 91025},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90760},
+																			pos: position{line: 2870, col: 12, offset: 90798},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90761},
+																				pos: position{line: 2870, col: 13, offset: 90799},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90761},
+																						pos:        position{line: 2870, col: 13, offset: 90799},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90768},
+																						pos:        position{line: 2870, col: 20, offset: 90806},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90777},
+																						pos:        position{line: 2870, col: 29, offset: 90815},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47915,9 +48351,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90937},
+																			pos: position{line: 2880, col: 8, offset: 90975},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90938,
+																				line: 2880, col: 9, offset: 90976,
 																			},
 																		},
 																	},
@@ -47929,53 +48365,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 5, offset: 82462},
+											pos: position{line: 2566, col: 5, offset: 82500},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2566, col: 5, offset: 82462},
+												pos: position{line: 2566, col: 5, offset: 82500},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2566, col: 5, offset: 82462},
+														pos:        position{line: 2566, col: 5, offset: 82500},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2567, col: 5, offset: 82472},
+														pos: position{line: 2567, col: 5, offset: 82510},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2571, col: 5, offset: 82561},
+														pos: position{line: 2571, col: 5, offset: 82599},
 														expr: &choiceExpr{
-															pos: position{line: 2571, col: 7, offset: 82563},
+															pos: position{line: 2571, col: 7, offset: 82601},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2751, col: 13, offset: 87684},
+																	pos:        position{line: 2751, col: 13, offset: 87722},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90760},
+																	pos: position{line: 2870, col: 12, offset: 90798},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90761},
+																		pos: position{line: 2870, col: 13, offset: 90799},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90761},
+																				pos:        position{line: 2870, col: 13, offset: 90799},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90768},
+																				pos:        position{line: 2870, col: 20, offset: 90806},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90777},
+																				pos:        position{line: 2870, col: 29, offset: 90815},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47984,9 +48420,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -47996,30 +48432,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 20, offset: 82721},
+											pos: position{line: 2581, col: 20, offset: 82759},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 20, offset: 82721},
+												pos:        position{line: 2581, col: 20, offset: 82759},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 21, offset: 82792},
+											pos: position{line: 2585, col: 21, offset: 82830},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2585, col: 21, offset: 82792},
+												pos:        position{line: 2585, col: 21, offset: 82830},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 20, offset: 82862},
+											pos: position{line: 2589, col: 20, offset: 82900},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 20, offset: 82862},
+												pos:        position{line: 2589, col: 20, offset: 82900},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48031,73 +48467,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2512, col: 7, offset: 81032},
+						pos:  position{line: 2512, col: 7, offset: 81070},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2537, col: 14, offset: 81881},
+						pos: position{line: 2537, col: 14, offset: 81919},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2537, col: 14, offset: 81881},
+							pos:        position{line: 2537, col: 14, offset: 81919},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2541, col: 14, offset: 81947},
+						pos: position{line: 2541, col: 14, offset: 81985},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2541, col: 14, offset: 81947},
+							pos:        position{line: 2541, col: 14, offset: 81985},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 15, offset: 82016},
+						pos: position{line: 2545, col: 15, offset: 82054},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2545, col: 15, offset: 82016},
+							pos:        position{line: 2545, col: 15, offset: 82054},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 13, offset: 82081},
+						pos: position{line: 2549, col: 13, offset: 82119},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 13, offset: 82081},
+							pos:        position{line: 2549, col: 13, offset: 82119},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 5, offset: 82237},
+						pos: position{line: 2556, col: 5, offset: 82275},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 5, offset: 82237},
+							pos: position{line: 2556, col: 5, offset: 82275},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82237},
+									pos:        position{line: 2556, col: 5, offset: 82275},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2557, col: 5, offset: 82247},
+									pos: position{line: 2557, col: 5, offset: 82285},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2561, col: 6, offset: 82334},
+									pos: position{line: 2561, col: 6, offset: 82372},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90589},
+											pos: position{line: 2861, col: 10, offset: 90627},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90589},
+												pos:        position{line: 2861, col: 10, offset: 90627},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48105,30 +48541,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2561, col: 14, offset: 82342},
+											pos: position{line: 2561, col: 14, offset: 82380},
 											expr: &choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 90987},
+												pos: position{line: 2883, col: 8, offset: 91025},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90760},
+														pos: position{line: 2870, col: 12, offset: 90798},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90761},
+															pos: position{line: 2870, col: 13, offset: 90799},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90761},
+																	pos:        position{line: 2870, col: 13, offset: 90799},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90768},
+																	pos:        position{line: 2870, col: 20, offset: 90806},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90777},
+																	pos:        position{line: 2870, col: 29, offset: 90815},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48137,9 +48573,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90937},
+														pos: position{line: 2880, col: 8, offset: 90975},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90938,
+															line: 2880, col: 9, offset: 90976,
 														},
 													},
 												},
@@ -48151,53 +48587,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82462},
+						pos: position{line: 2566, col: 5, offset: 82500},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82462},
+							pos: position{line: 2566, col: 5, offset: 82500},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82462},
+									pos:        position{line: 2566, col: 5, offset: 82500},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2567, col: 5, offset: 82472},
+									pos: position{line: 2567, col: 5, offset: 82510},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2571, col: 5, offset: 82561},
+									pos: position{line: 2571, col: 5, offset: 82599},
 									expr: &choiceExpr{
-										pos: position{line: 2571, col: 7, offset: 82563},
+										pos: position{line: 2571, col: 7, offset: 82601},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87684},
+												pos:        position{line: 2751, col: 13, offset: 87722},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90760},
+												pos: position{line: 2870, col: 12, offset: 90798},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90761},
+													pos: position{line: 2870, col: 13, offset: 90799},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90761},
+															pos:        position{line: 2870, col: 13, offset: 90799},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90768},
+															pos:        position{line: 2870, col: 20, offset: 90806},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90777},
+															pos:        position{line: 2870, col: 29, offset: 90815},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48206,9 +48642,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2880, col: 8, offset: 90937},
+												pos: position{line: 2880, col: 8, offset: 90975},
 												expr: &anyMatcher{
-													line: 2880, col: 9, offset: 90938,
+													line: 2880, col: 9, offset: 90976,
 												},
 											},
 										},
@@ -48218,40 +48654,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 21, offset: 82651},
+						pos: position{line: 2577, col: 21, offset: 82689},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2577, col: 21, offset: 82651},
+							pos:        position{line: 2577, col: 21, offset: 82689},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 20, offset: 82721},
+						pos: position{line: 2581, col: 20, offset: 82759},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 20, offset: 82721},
+							pos:        position{line: 2581, col: 20, offset: 82759},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 21, offset: 82792},
+						pos: position{line: 2585, col: 21, offset: 82830},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2585, col: 21, offset: 82792},
+							pos:        position{line: 2585, col: 21, offset: 82830},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 20, offset: 82862},
+						pos: position{line: 2589, col: 20, offset: 82900},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 20, offset: 82862},
+							pos:        position{line: 2589, col: 20, offset: 82900},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48262,43 +48698,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2523, col: 1, offset: 81222},
+			pos:  position{line: 2523, col: 1, offset: 81260},
 			expr: &choiceExpr{
-				pos: position{line: 2524, col: 5, offset: 81244},
+				pos: position{line: 2524, col: 5, offset: 81282},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81244},
+						pos: position{line: 2524, col: 5, offset: 81282},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81244},
+							pos: position{line: 2524, col: 5, offset: 81282},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81244},
+									pos:        position{line: 2524, col: 5, offset: 81282},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 11, offset: 81250},
+									pos: position{line: 2524, col: 11, offset: 81288},
 									expr: &seqExpr{
-										pos: position{line: 2087, col: 5, offset: 67454},
+										pos: position{line: 2087, col: 5, offset: 67492},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2087, col: 5, offset: 67454},
+												pos:        position{line: 2087, col: 5, offset: 67492},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2088, col: 5, offset: 67463},
+												pos: position{line: 2088, col: 5, offset: 67501},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2092, col: 5, offset: 67586},
+												pos: position{line: 2092, col: 5, offset: 67624},
 												expr: &notExpr{
-													pos: position{line: 2092, col: 7, offset: 67588},
+													pos: position{line: 2092, col: 7, offset: 67626},
 													expr: &litMatcher{
-														pos:        position{line: 2092, col: 8, offset: 67589},
+														pos:        position{line: 2092, col: 8, offset: 67627},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48312,21 +48748,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 7, offset: 81403},
+						pos: position{line: 2527, col: 7, offset: 81441},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 7, offset: 81403},
+							pos: position{line: 2527, col: 7, offset: 81441},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 7, offset: 81403},
+									pos:        position{line: 2527, col: 7, offset: 81441},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2527, col: 13, offset: 81409},
+									pos: position{line: 2527, col: 13, offset: 81447},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2527, col: 14, offset: 81410},
+										pos:  position{line: 2527, col: 14, offset: 81448},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48334,38 +48770,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 7, offset: 81560},
+						pos: position{line: 2530, col: 7, offset: 81598},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 7, offset: 81560},
+							pos: position{line: 2530, col: 7, offset: 81598},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 7, offset: 81560},
+									pos:        position{line: 2530, col: 7, offset: 81598},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2530, col: 12, offset: 81565},
+									pos: position{line: 2530, col: 12, offset: 81603},
 									expr: &seqExpr{
-										pos: position{line: 2087, col: 5, offset: 67454},
+										pos: position{line: 2087, col: 5, offset: 67492},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2087, col: 5, offset: 67454},
+												pos:        position{line: 2087, col: 5, offset: 67492},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2088, col: 5, offset: 67463},
+												pos: position{line: 2088, col: 5, offset: 67501},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2092, col: 5, offset: 67586},
+												pos: position{line: 2092, col: 5, offset: 67624},
 												expr: &notExpr{
-													pos: position{line: 2092, col: 7, offset: 67588},
+													pos: position{line: 2092, col: 7, offset: 67626},
 													expr: &litMatcher{
-														pos:        position{line: 2092, col: 8, offset: 67589},
+														pos:        position{line: 2092, col: 8, offset: 67627},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48379,21 +48815,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2533, col: 7, offset: 81718},
+						pos: position{line: 2533, col: 7, offset: 81756},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 7, offset: 81718},
+							pos: position{line: 2533, col: 7, offset: 81756},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 7, offset: 81718},
+									pos:        position{line: 2533, col: 7, offset: 81756},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2533, col: 12, offset: 81723},
+									pos: position{line: 2533, col: 12, offset: 81761},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2533, col: 13, offset: 81724},
+										pos:  position{line: 2533, col: 13, offset: 81762},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48405,63 +48841,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2666, col: 1, offset: 84764},
+			pos:  position{line: 2666, col: 1, offset: 84802},
 			expr: &actionExpr{
-				pos: position{line: 2666, col: 26, offset: 84789},
+				pos: position{line: 2666, col: 26, offset: 84827},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2666, col: 26, offset: 84789},
+					pos: position{line: 2666, col: 26, offset: 84827},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2666, col: 26, offset: 84789},
+							pos:   position{line: 2666, col: 26, offset: 84827},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2666, col: 31, offset: 84794},
+								pos: position{line: 2666, col: 31, offset: 84832},
 								expr: &actionExpr{
-									pos: position{line: 2671, col: 5, offset: 84857},
+									pos: position{line: 2671, col: 5, offset: 84895},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2671, col: 5, offset: 84857},
+										pos: position{line: 2671, col: 5, offset: 84895},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90923},
+												pos: position{line: 2878, col: 11, offset: 90961},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90925,
+													line: 2878, col: 13, offset: 90963,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2674, col: 5, offset: 84983},
+												pos:   position{line: 2674, col: 5, offset: 85021},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2674, col: 16, offset: 84994},
+													pos: position{line: 2674, col: 16, offset: 85032},
 													expr: &actionExpr{
-														pos: position{line: 2674, col: 17, offset: 84995},
+														pos: position{line: 2674, col: 17, offset: 85033},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2674, col: 17, offset: 84995},
+															pos: position{line: 2674, col: 17, offset: 85033},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2674, col: 17, offset: 84995},
+																	pos:   position{line: 2674, col: 17, offset: 85033},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 12, offset: 90416},
+																		pos: position{line: 2853, col: 12, offset: 90454},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 13, offset: 90417},
+																			pos: position{line: 2853, col: 13, offset: 90455},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2853, col: 13, offset: 90417},
+																					pos: position{line: 2853, col: 13, offset: 90455},
 																					expr: &litMatcher{
-																						pos:        position{line: 2853, col: 13, offset: 90417},
+																						pos:        position{line: 2853, col: 13, offset: 90455},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2853, col: 18, offset: 90422},
+																					pos: position{line: 2853, col: 18, offset: 90460},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2853, col: 18, offset: 90422},
+																						pos:        position{line: 2853, col: 18, offset: 90460},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48473,7 +48909,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2674, col: 27, offset: 85005},
+																	pos:        position{line: 2674, col: 27, offset: 85043},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48484,38 +48920,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2675, col: 5, offset: 85033},
+												pos:   position{line: 2675, col: 5, offset: 85071},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2675, col: 12, offset: 85040},
+													pos: position{line: 2675, col: 12, offset: 85078},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 9, offset: 85050},
+														pos: position{line: 2676, col: 9, offset: 85088},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2676, col: 9, offset: 85050},
+																pos: position{line: 2676, col: 9, offset: 85088},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 9, offset: 85050},
+																	pos:        position{line: 2676, col: 9, offset: 85088},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2677, col: 11, offset: 85097},
+																pos: position{line: 2677, col: 11, offset: 85135},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2677, col: 11, offset: 85097},
+																	pos:        position{line: 2677, col: 11, offset: 85135},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2678, col: 11, offset: 85145},
+																pos: position{line: 2678, col: 11, offset: 85183},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2678, col: 11, offset: 85145},
+																	pos:        position{line: 2678, col: 11, offset: 85183},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48526,38 +48962,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2680, col: 5, offset: 85195},
+												pos:   position{line: 2680, col: 5, offset: 85233},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2680, col: 12, offset: 85202},
+													pos: position{line: 2680, col: 12, offset: 85240},
 													expr: &choiceExpr{
-														pos: position{line: 2681, col: 9, offset: 85212},
+														pos: position{line: 2681, col: 9, offset: 85250},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2681, col: 9, offset: 85212},
+																pos: position{line: 2681, col: 9, offset: 85250},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 9, offset: 85212},
+																	pos:        position{line: 2681, col: 9, offset: 85250},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85259},
+																pos: position{line: 2682, col: 11, offset: 85297},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85259},
+																	pos:        position{line: 2682, col: 11, offset: 85297},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85309},
+																pos: position{line: 2683, col: 11, offset: 85347},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85309},
+																	pos:        position{line: 2683, col: 11, offset: 85347},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48568,32 +49004,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85360},
+												pos:   position{line: 2685, col: 5, offset: 85398},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 12, offset: 85367},
+													pos: position{line: 2685, col: 12, offset: 85405},
 													expr: &choiceExpr{
-														pos: position{line: 2685, col: 13, offset: 85368},
+														pos: position{line: 2685, col: 13, offset: 85406},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90416},
+																pos: position{line: 2853, col: 12, offset: 90454},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90417},
+																	pos: position{line: 2853, col: 13, offset: 90455},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90417},
+																			pos: position{line: 2853, col: 13, offset: 90455},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90417},
+																				pos:        position{line: 2853, col: 13, offset: 90455},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90422},
+																			pos: position{line: 2853, col: 18, offset: 90460},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90422},
+																				pos:        position{line: 2853, col: 18, offset: 90460},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48604,10 +49040,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 24, offset: 85379},
+																pos: position{line: 2685, col: 24, offset: 85417},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 24, offset: 85379},
+																	pos:        position{line: 2685, col: 24, offset: 85417},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48618,15 +49054,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85421},
+												pos:   position{line: 2686, col: 5, offset: 85459},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 11, offset: 85427},
+													pos: position{line: 2686, col: 11, offset: 85465},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 12, offset: 85428},
+														pos: position{line: 2686, col: 12, offset: 85466},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2686, col: 12, offset: 85428},
+															pos:        position{line: 2686, col: 12, offset: 85466},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48636,12 +49072,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85558},
+												pos:   position{line: 2688, col: 5, offset: 85596},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 11, offset: 85564},
+													pos: position{line: 2688, col: 11, offset: 85602},
 													expr: &litMatcher{
-														pos:        position{line: 2688, col: 12, offset: 85565},
+														pos:        position{line: 2688, col: 12, offset: 85603},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48649,7 +49085,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2689, col: 5, offset: 85575},
+												pos: position{line: 2689, col: 5, offset: 85613},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48658,9 +49094,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90937},
+							pos: position{line: 2880, col: 8, offset: 90975},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90938,
+								line: 2880, col: 9, offset: 90976,
 							},
 						},
 					},
@@ -48669,23 +49105,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2716, col: 1, offset: 86584},
+			pos:  position{line: 2716, col: 1, offset: 86622},
 			expr: &actionExpr{
-				pos: position{line: 2717, col: 5, offset: 86607},
+				pos: position{line: 2717, col: 5, offset: 86645},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2717, col: 5, offset: 86607},
+					pos: position{line: 2717, col: 5, offset: 86645},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2717, col: 5, offset: 86607},
+							pos:   position{line: 2717, col: 5, offset: 86645},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2740, col: 18, offset: 87348},
+								pos: position{line: 2740, col: 18, offset: 87386},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2740, col: 19, offset: 87349},
+									pos: position{line: 2740, col: 19, offset: 87387},
 									expr: &charClassMatcher{
-										pos:        position{line: 2740, col: 19, offset: 87349},
+										pos:        position{line: 2740, col: 19, offset: 87387},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48696,25 +49132,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2718, col: 5, offset: 86633},
+							pos: position{line: 2718, col: 5, offset: 86671},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2722, col: 5, offset: 86761},
+							pos:        position{line: 2722, col: 5, offset: 86799},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2723, col: 5, offset: 86771},
+							pos:   position{line: 2723, col: 5, offset: 86809},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 19, offset: 87424},
+								pos: position{line: 2744, col: 19, offset: 87462},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87424},
+									pos: position{line: 2744, col: 19, offset: 87462},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87424},
+										pos:        position{line: 2744, col: 19, offset: 87462},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48724,36 +49160,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2724, col: 5, offset: 86799},
+							pos:   position{line: 2724, col: 5, offset: 86837},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2724, col: 17, offset: 86811},
+								pos:  position{line: 2724, col: 17, offset: 86849},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 90987},
+							pos: position{line: 2883, col: 8, offset: 91025},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90760},
+									pos: position{line: 2870, col: 12, offset: 90798},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90761},
+										pos: position{line: 2870, col: 13, offset: 90799},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90761},
+												pos:        position{line: 2870, col: 13, offset: 90799},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90768},
+												pos:        position{line: 2870, col: 20, offset: 90806},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90777},
+												pos:        position{line: 2870, col: 29, offset: 90815},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48762,9 +49198,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90937},
+									pos: position{line: 2880, col: 8, offset: 90975},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90938,
+										line: 2880, col: 9, offset: 90976,
 									},
 								},
 							},
@@ -48775,23 +49211,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2728, col: 1, offset: 86959},
+			pos:  position{line: 2728, col: 1, offset: 86997},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 86983},
+				pos: position{line: 2729, col: 5, offset: 87021},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 86983},
+					pos: position{line: 2729, col: 5, offset: 87021},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86983},
+							pos:   position{line: 2729, col: 5, offset: 87021},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2740, col: 18, offset: 87348},
+								pos: position{line: 2740, col: 18, offset: 87386},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2740, col: 19, offset: 87349},
+									pos: position{line: 2740, col: 19, offset: 87387},
 									expr: &charClassMatcher{
-										pos:        position{line: 2740, col: 19, offset: 87349},
+										pos:        position{line: 2740, col: 19, offset: 87387},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48802,25 +49238,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 87009},
+							pos: position{line: 2730, col: 5, offset: 87047},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 87137},
+							pos:        position{line: 2734, col: 5, offset: 87175},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87146},
+							pos:   position{line: 2735, col: 5, offset: 87184},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 19, offset: 87424},
+								pos: position{line: 2744, col: 19, offset: 87462},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87424},
+									pos: position{line: 2744, col: 19, offset: 87462},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87424},
+										pos:        position{line: 2744, col: 19, offset: 87462},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48830,10 +49266,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87174},
+							pos:   position{line: 2736, col: 5, offset: 87212},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87186},
+								pos:  position{line: 2736, col: 17, offset: 87224},
 								name: "InlineAttributes",
 							},
 						},
@@ -48843,43 +49279,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2815, col: 1, offset: 89236},
+			pos:  position{line: 2815, col: 1, offset: 89274},
 			expr: &actionExpr{
-				pos: position{line: 2815, col: 17, offset: 89252},
+				pos: position{line: 2815, col: 17, offset: 89290},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2815, col: 17, offset: 89252},
+					pos:   position{line: 2815, col: 17, offset: 89290},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2832, col: 5, offset: 89706},
+						pos: position{line: 2832, col: 5, offset: 89744},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2832, col: 5, offset: 89706},
+							pos:   position{line: 2832, col: 5, offset: 89744},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2832, col: 14, offset: 89715},
+								pos: position{line: 2832, col: 14, offset: 89753},
 								expr: &choiceExpr{
-									pos: position{line: 2833, col: 9, offset: 89725},
+									pos: position{line: 2833, col: 9, offset: 89763},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2833, col: 9, offset: 89725},
+											pos: position{line: 2833, col: 9, offset: 89763},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2833, col: 9, offset: 89725},
+												pos: position{line: 2833, col: 9, offset: 89763},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2833, col: 9, offset: 89725},
+														pos: position{line: 2833, col: 9, offset: 89763},
 														expr: &litMatcher{
-															pos:        position{line: 2833, col: 10, offset: 89726},
+															pos:        position{line: 2833, col: 10, offset: 89764},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2834, col: 9, offset: 89754},
+														pos: position{line: 2834, col: 9, offset: 89792},
 														expr: &charClassMatcher{
-															pos:        position{line: 2834, col: 10, offset: 89755},
+															pos:        position{line: 2834, col: 10, offset: 89793},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48890,27 +49326,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2837, col: 11, offset: 89967},
+											pos: position{line: 2837, col: 11, offset: 90005},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2837, col: 11, offset: 89967},
+													pos:        position{line: 2837, col: 11, offset: 90005},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2837, col: 19, offset: 89975},
+													pos: position{line: 2837, col: 19, offset: 90013},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 21, offset: 89977},
+														pos: position{line: 2837, col: 21, offset: 90015},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2837, col: 21, offset: 89977},
+																pos: position{line: 2837, col: 21, offset: 90015},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90589},
+																	pos: position{line: 2861, col: 10, offset: 90627},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90589},
+																		pos:        position{line: 2861, col: 10, offset: 90627},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48919,11 +49355,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2837, col: 28, offset: 89984},
+																pos: position{line: 2837, col: 28, offset: 90022},
 																expr: &notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90937},
+																	pos: position{line: 2880, col: 8, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90938,
+																		line: 2880, col: 9, offset: 90976,
 																	},
 																},
 															},
@@ -48933,35 +49369,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20128},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20128},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20128},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20200},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20209},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20338},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20338},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20338},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20346},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48993,7 +49429,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20365},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49002,19 +49438,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20606},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20606},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20606},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20610},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -49046,7 +49482,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20629},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49055,19 +49491,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20810},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20810},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20810},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20822},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -49099,33 +49535,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20841},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20847},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21142},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21142},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21146},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21153},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49133,12 +49569,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21207},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21207},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49155,7 +49591,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20863},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49164,19 +49600,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 20981},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 20981},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 20981},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 20994},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -49208,33 +49644,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21013},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21019},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21142},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21142},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21142},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21146},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21153},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21153},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21153},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49242,12 +49678,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21207},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21207},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21207},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49264,7 +49700,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21035},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49279,27 +49715,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37178},
+											pos: position{line: 1206, col: 23, offset: 37216},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37178},
+												pos: position{line: 1206, col: 23, offset: 37216},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37146},
+														pos:        position{line: 1204, col: 32, offset: 37184},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37206},
+														pos:   position{line: 1206, col: 51, offset: 37244},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37211},
+															pos: position{line: 1206, col: 56, offset: 37249},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37211},
+																pos: position{line: 1206, col: 56, offset: 37249},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37211},
+																	pos:        position{line: 1206, col: 56, offset: 37249},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49309,7 +49745,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37146},
+														pos:        position{line: 1204, col: 32, offset: 37184},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -49318,10 +49754,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2840, col: 11, offset: 90104},
+											pos: position{line: 2840, col: 11, offset: 90142},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2840, col: 11, offset: 90104},
+												pos:        position{line: 2840, col: 11, offset: 90142},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -55594,7 +56030,117 @@ func (p *parser) callonBlockAttributes166() (interface{}, error) {
 	return p.cur.onBlockAttributes166(stack["name"])
 }
 
-func (c *current) onBlockAttributes176() (interface{}, error) {
+func (c *current) onBlockAttributes180() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes180() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes180()
+}
+
+func (c *current) onBlockAttributes192() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes192() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes192()
+}
+
+func (c *current) onBlockAttributes194() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes194() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes194()
+}
+
+func (c *current) onBlockAttributes187(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes187() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes187(stack["start"])
+}
+
+func (c *current) onBlockAttributes176(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes176() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes176(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes202() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes202() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes202()
+}
+
+func (c *current) onBlockAttributes214() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes214() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes214()
+}
+
+func (c *current) onBlockAttributes216() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes216() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes216()
+}
+
+func (c *current) onBlockAttributes209(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes209() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes209(stack["start"])
+}
+
+func (c *current) onBlockAttributes198(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes198() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes198(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes220() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -55603,10 +56149,10 @@ func (c *current) onBlockAttributes176() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes176() (interface{}, error) {
+func (p *parser) callonBlockAttributes220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes176()
+	return p.cur.onBlockAttributes220()
 }
 
 func (c *current) onBlockAttributes129(elements interface{}) (interface{}, error) {
@@ -55620,61 +56166,61 @@ func (p *parser) callonBlockAttributes129() (interface{}, error) {
 	return p.cur.onBlockAttributes129(stack["elements"])
 }
 
-func (c *current) onBlockAttributes179() (interface{}, error) {
+func (c *current) onBlockAttributes223() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes179() (interface{}, error) {
+func (p *parser) callonBlockAttributes223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes179()
+	return p.cur.onBlockAttributes223()
 }
 
-func (c *current) onBlockAttributes182() (interface{}, error) {
+func (c *current) onBlockAttributes226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes182() (interface{}, error) {
+func (p *parser) callonBlockAttributes226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes182()
+	return p.cur.onBlockAttributes226()
 }
 
-func (c *current) onBlockAttributes195() (interface{}, error) {
+func (c *current) onBlockAttributes239() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes195() (interface{}, error) {
+func (p *parser) callonBlockAttributes239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes195()
+	return p.cur.onBlockAttributes239()
 }
 
-func (c *current) onBlockAttributes198() (interface{}, error) {
+func (c *current) onBlockAttributes242() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198()
+	return p.cur.onBlockAttributes242()
 }
 
-func (c *current) onBlockAttributes190() (interface{}, error) {
+func (c *current) onBlockAttributes234() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes190() (interface{}, error) {
+func (p *parser) callonBlockAttributes234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes190()
+	return p.cur.onBlockAttributes234()
 }
 
 func (c *current) onBlockAttributes126(title interface{}) (interface{}, error) {
@@ -55688,72 +56234,72 @@ func (p *parser) callonBlockAttributes126() (interface{}, error) {
 	return p.cur.onBlockAttributes126(stack["title"])
 }
 
-func (c *current) onBlockAttributes210() (interface{}, error) {
+func (c *current) onBlockAttributes254() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes210() (interface{}, error) {
+func (p *parser) callonBlockAttributes254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes210()
+	return p.cur.onBlockAttributes254()
 }
 
-func (c *current) onBlockAttributes213() (interface{}, error) {
+func (c *current) onBlockAttributes257() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes213() (interface{}, error) {
+func (p *parser) callonBlockAttributes257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes213()
+	return p.cur.onBlockAttributes257()
 }
 
-func (c *current) onBlockAttributes226() (interface{}, error) {
+func (c *current) onBlockAttributes270() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes226() (interface{}, error) {
+func (p *parser) callonBlockAttributes270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes226()
+	return p.cur.onBlockAttributes270()
 }
 
-func (c *current) onBlockAttributes229() (interface{}, error) {
+func (c *current) onBlockAttributes273() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes229() (interface{}, error) {
+func (p *parser) callonBlockAttributes273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes229()
+	return p.cur.onBlockAttributes273()
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
+func (c *current) onBlockAttributes265() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonBlockAttributes265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onBlockAttributes265()
 }
 
-func (c *current) onBlockAttributes205(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes249(attributes interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes205() (interface{}, error) {
+func (p *parser) callonBlockAttributes249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["attributes"])
+	return p.cur.onBlockAttributes249(stack["attributes"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -57130,16 +57676,126 @@ func (p *parser) callonCrossReference29() (interface{}, error) {
 	return p.cur.onCrossReference29(stack["name"])
 }
 
-func (c *current) onCrossReference39() (interface{}, error) {
+func (c *current) onCrossReference43() (interface{}, error) {
+	return string(c.text), nil
 
-	return types.NewStringElement(string(c.text))
+}
 
+func (p *parser) callonCrossReference43() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference43()
+}
+
+func (c *current) onCrossReference55() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference55() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference55()
+}
+
+func (c *current) onCrossReference57() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference57() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference57()
+}
+
+func (c *current) onCrossReference50(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonCrossReference50() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference50(stack["start"])
+}
+
+func (c *current) onCrossReference39(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
 func (p *parser) callonCrossReference39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference39()
+	return p.cur.onCrossReference39(stack["name"], stack["start"])
+}
+
+func (c *current) onCrossReference65() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference65() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference65()
+}
+
+func (c *current) onCrossReference77() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference77() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference77()
+}
+
+func (c *current) onCrossReference79() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference79() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference79()
+}
+
+func (c *current) onCrossReference72(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonCrossReference72() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference72(stack["start"])
+}
+
+func (c *current) onCrossReference61(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonCrossReference61() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference61(stack["name"], stack["start"])
+}
+
+func (c *current) onCrossReference83() (interface{}, error) {
+
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference83() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference83()
 }
 
 func (c *current) onCrossReference2(id, label interface{}) (interface{}, error) {
@@ -57153,27 +57809,27 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 	return p.cur.onCrossReference2(stack["id"], stack["label"])
 }
 
-func (c *current) onCrossReference46() (interface{}, error) {
+func (c *current) onCrossReference90() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference46() (interface{}, error) {
+func (p *parser) callonCrossReference90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference46()
+	return p.cur.onCrossReference90()
 }
 
-func (c *current) onCrossReference42(id interface{}) (interface{}, error) {
+func (c *current) onCrossReference86(id interface{}) (interface{}, error) {
 	return types.NewInternalCrossReference(id, nil)
 
 }
 
-func (p *parser) callonCrossReference42() (interface{}, error) {
+func (p *parser) callonCrossReference86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference42(stack["id"])
+	return p.cur.onCrossReference86(stack["id"])
 }
 
 func (c *current) onExternalCrossReference11() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c87a726..806a9c6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -426,7 +426,7 @@ ShortHandTitle <- `.`
         Alphanums
         / Space
         / Punctuation
-        / AttributeReferenceValue
+        / AttributeReferenceValue / CounterReference
         / AnyChar
     )+ {
         return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
@@ -697,7 +697,7 @@ CrossReferenceLabel <- (
     ([^\r\n{<>]+ { // `{`, `<` and `>` characters are not allowed as they are used for attribute substitutions and cross-references         
         return types.NewStringElement(string(c.text))
     })
-    / AttributeReferenceValue
+    / AttributeReferenceValue / CounterReference
     / ("{" { 
         return types.NewStringElement(string(c.text))
     })
-- 
2.43.0


From 40f24ce0de708faef03f594a9c3eee6a121932e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 062/117] fix: substitute the counters of a location before the
 ones of its attributes

---
 ...document_processing_apply_substitutions.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index affdb53..3360e0a 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -193,16 +193,15 @@ func applySubstitutionsOnWithLocation(ctx *ParseContext, b types.WithLocation, o
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("applying substitution on WithLocation of type '%T'", b)
 	}
-	// attributes
-	if err := replaceAttributeRefsInAttributeValues(ctx, b.GetAttributes()); err != nil {
+	// location (first, since it comes before the attributes)
+	if err := replaceAttributeRefsInLocation(ctx, b.GetLocation()); err != nil {
 		return err
 	}
-	if err := reparseAttributes(ctx, b, opts...); err != nil {
+	// attributes
+	if err := replaceAttributeRefsInAttributeValues(ctx, b.GetAttributes()); err != nil {
 		return err
 	}
-
-	// location
-	return replaceAttributeRefsInLocation(ctx, b.GetLocation())
+	return reparseAttributes(ctx, b, opts...)
 }
 
 func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, opts ...Option) error {
@@ -603,12 +602,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
-			// in attributes
-			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
+			// in location (first, since it comes before the attributes)
+			if err := replaceAttributeRefsInLocation(ctx, e.GetLocation()); err != nil {
 				return nil, err
 			}
-			// in location
-			if err := replaceAttributeRefsInLocation(ctx, e.GetLocation()); err != nil {
+			// in attributes
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
 				return nil, err
 			}
 		case *types.InlineMenu:
-- 
2.43.0


From 5ff888a59189d994fe41e98dde4e8b43b26c6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:52 +0000
Subject: [PATCH 063/117] fix: render the blocks of AsciiDoc cells in the
 header and footer of tables

---
 ...document_processing_apply_substitutions.go |  9 +---
 pkg/renderer/sgml/table.go                    | 47 ++++++++++++++-----
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 3360e0a..4441b57 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -158,13 +158,8 @@ func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option
 	}
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-			// assume elements to process were wrapped in a paragraph at parse time
-			if len(c.Elements) == 1 {
-				if p, ok := c.Elements[0].(*types.Paragraph); ok {
-					if err := applySubstitutionsOnWithElements(ctx, p, opts...); err != nil {
-						return err
-					}
-				}
+			if err := applySubstitutionsOnWithElements(ctx, c, opts...); err != nil {
+				return err
 			}
 		}
 	}
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 28ab56e..24ca837 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -142,7 +141,7 @@ func (r *sgmlRenderer) renderTableHeader(ctx *context, h *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	// most often, elements to render are within the first element of the cell, which is a paragraph
 	if len(c.Elements) == 1 {
 		if p, ok := c.Elements[0].(*types.Paragraph); ok {
 			content, err := r.renderInlineElements(ctx, p.Elements)
@@ -160,7 +159,20 @@ func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, c
 			})
 		}
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	// otherwise, render the blocks of the cell (eg: with the AsciiDoc style)
+	content, err := r.renderTableCellBlocks(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
+	}
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
@@ -189,7 +201,7 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	// most often, elements to render are within the first element of the cell, which is a paragraph
 	if len(c.Elements) == 1 {
 		if p, ok := c.Elements[0].(*types.Paragraph); ok {
 			content, err := r.renderInlineElements(ctx, p.Elements)
@@ -207,7 +219,8 @@ func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, c
 			})
 		}
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	// otherwise, render the blocks of the cell, as in the body (eg: with the AsciiDoc style)
+	return r.renderTableCell(ctx, c, col)
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
@@ -253,13 +266,9 @@ func (r *sgmlRenderer) renderTableRow(ctx *context, l *types.TableRow, cols []*t
 }
 
 func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col *types.TableColumn) (string, error) {
-	buff := &strings.Builder{}
-	for _, element := range cell.Elements {
-		renderedElement, err := r.renderTableCellBlock(ctx, element)
-		if err != nil {
-			return "", err
-		}
-		buff.WriteString(renderedElement)
+	content, err := r.renderTableCellBlocks(ctx, cell)
+	if err != nil {
+		return "", err
 	}
 	tmpl := r.tableCell
 	if col.Style == types.HeaderStyle {
@@ -273,13 +282,25 @@ func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col
 		VAlign  types.VAlign
 	}{
 		Context: ctx,
-		Content: buff.String(),
+		Content: content,
 		Cell:    cell,
 		HAlign:  col.HAlign,
 		VAlign:  col.VAlign,
 	})
 }
 
+func (r *sgmlRenderer) renderTableCellBlocks(ctx *context, cell *types.TableCell) (string, error) {
+	buff := &strings.Builder{}
+	for _, element := range cell.Elements {
+		renderedElement, err := r.renderTableCellBlock(ctx, element)
+		if err != nil {
+			return "", err
+		}
+		buff.WriteString(renderedElement)
+	}
+	return buff.String(), nil
+}
+
 func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (string, error) {
 	switch e := element.(type) {
 	case *types.Paragraph:
-- 
2.43.0


From 8672d53684d6b5230e64d8abf24818c4c09dd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 064/117] fix: do not lose the blocks with invalid columns, an
 invalid front matter, non-breaking spaces or an admonition label without text

---
 ...document_processing_apply_substitutions.go |     4 +-
 pkg/parser/parser.go                          | 14618 ++++++++--------
 pkg/parser/parser.peg                         |    17 +-
 pkg/types/types.go                            |    10 +
 4 files changed, 7485 insertions(+), 7164 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4441b57..1a56c0e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -279,7 +279,9 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			}
 			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
 			if err != nil {
-				return err
+				log.Warnf("ignoring invalid specification of columns '%s': %v", s, err)
+				delete(attrs, k)
+				continue
 			}
 			attrs[k] = types.Reduce(v)
 		default:
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index ed888e0..02a93b6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90454},
+																pos: position{line: 2858, col: 12, offset: 90569},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90455},
+																	pos: position{line: 2858, col: 13, offset: 90570},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90455},
+																			pos: position{line: 2858, col: 13, offset: 90570},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90455},
+																				pos:        position{line: 2858, col: 13, offset: 90570},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90460},
+																			pos: position{line: 2858, col: 18, offset: 90575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90460},
+																				pos:        position{line: 2858, col: 18, offset: 90575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90454},
+																pos: position{line: 2858, col: 12, offset: 90569},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90455},
+																	pos: position{line: 2858, col: 13, offset: 90570},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90455},
+																			pos: position{line: 2858, col: 13, offset: 90570},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90455},
+																				pos:        position{line: 2858, col: 13, offset: 90570},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90460},
+																			pos: position{line: 2858, col: 18, offset: 90575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90460},
+																				pos:        position{line: 2858, col: 18, offset: 90575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23080},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87722},
+														pos:        position{line: 2756, col: 13, offset: 87837},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23724},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23972},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24384},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24218},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24756},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25232},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25484},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25734},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25980},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2865, col: 11, offset: 90688},
+													pos: position{line: 2870, col: 11, offset: 90803},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2865, col: 11, offset: 90688},
+														pos: position{line: 2870, col: 11, offset: 90803},
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 11, offset: 90688},
+															pos:        position{line: 2870, col: 11, offset: 90803},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2811, col: 14, offset: 89220},
+													pos: position{line: 2816, col: 14, offset: 89335},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2811, col: 14, offset: 89220},
+														pos: position{line: 2816, col: 14, offset: 89335},
 														expr: &charClassMatcher{
-															pos:        position{line: 2811, col: 14, offset: 89220},
+															pos:        position{line: 2816, col: 14, offset: 89335},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2815, col: 17, offset: 89290},
+												pos: position{line: 2820, col: 17, offset: 89405},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2815, col: 17, offset: 89290},
+													pos:   position{line: 2820, col: 17, offset: 89405},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2853, col: 12, offset: 90454},
+																				pos: position{line: 2858, col: 12, offset: 90569},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2853, col: 13, offset: 90455},
+																					pos: position{line: 2858, col: 13, offset: 90570},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2853, col: 13, offset: 90455},
+																							pos: position{line: 2858, col: 13, offset: 90570},
 																							expr: &litMatcher{
-																								pos:        position{line: 2853, col: 13, offset: 90455},
+																								pos:        position{line: 2858, col: 13, offset: 90570},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2853, col: 18, offset: 90460},
+																							pos: position{line: 2858, col: 18, offset: 90575},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 18, offset: 90460},
+																								pos:        position{line: 2858, col: 18, offset: 90575},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2853, col: 12, offset: 90454},
+																				pos: position{line: 2858, col: 12, offset: 90569},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2853, col: 13, offset: 90455},
+																					pos: position{line: 2858, col: 13, offset: 90570},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2853, col: 13, offset: 90455},
+																							pos: position{line: 2858, col: 13, offset: 90570},
 																							expr: &litMatcher{
-																								pos:        position{line: 2853, col: 13, offset: 90455},
+																								pos:        position{line: 2858, col: 13, offset: 90570},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2853, col: 18, offset: 90460},
+																							pos: position{line: 2858, col: 18, offset: 90575},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 18, offset: 90460},
+																								pos:        position{line: 2858, col: 18, offset: 90575},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 12, offset: 90454},
+																		pos: position{line: 2858, col: 12, offset: 90569},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 13, offset: 90455},
+																			pos: position{line: 2858, col: 13, offset: 90570},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2853, col: 13, offset: 90455},
+																					pos: position{line: 2858, col: 13, offset: 90570},
 																					expr: &litMatcher{
-																						pos:        position{line: 2853, col: 13, offset: 90455},
+																						pos:        position{line: 2858, col: 13, offset: 90570},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2853, col: 18, offset: 90460},
+																					pos: position{line: 2858, col: 18, offset: 90575},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2853, col: 18, offset: 90460},
+																						pos:        position{line: 2858, col: 18, offset: 90575},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2853, col: 12, offset: 90454},
+																									pos: position{line: 2858, col: 12, offset: 90569},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2853, col: 13, offset: 90455},
+																										pos: position{line: 2858, col: 13, offset: 90570},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2853, col: 13, offset: 90455},
+																												pos: position{line: 2858, col: 13, offset: 90570},
 																												expr: &litMatcher{
-																													pos:        position{line: 2853, col: 13, offset: 90455},
+																													pos:        position{line: 2858, col: 13, offset: 90570},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2853, col: 18, offset: 90460},
+																												pos: position{line: 2858, col: 18, offset: 90575},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2853, col: 18, offset: 90460},
+																													pos:        position{line: 2858, col: 18, offset: 90575},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2853, col: 12, offset: 90454},
+																									pos: position{line: 2858, col: 12, offset: 90569},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2853, col: 13, offset: 90455},
+																										pos: position{line: 2858, col: 13, offset: 90570},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2853, col: 13, offset: 90455},
+																												pos: position{line: 2858, col: 13, offset: 90570},
 																												expr: &litMatcher{
-																													pos:        position{line: 2853, col: 13, offset: 90455},
+																													pos:        position{line: 2858, col: 13, offset: 90570},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2853, col: 18, offset: 90460},
+																												pos: position{line: 2858, col: 18, offset: 90575},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2853, col: 18, offset: 90460},
+																													pos:        position{line: 2858, col: 18, offset: 90575},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2853, col: 12, offset: 90454},
+																							pos: position{line: 2858, col: 12, offset: 90569},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2853, col: 13, offset: 90455},
+																								pos: position{line: 2858, col: 13, offset: 90570},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2853, col: 13, offset: 90455},
+																										pos: position{line: 2858, col: 13, offset: 90570},
 																										expr: &litMatcher{
-																											pos:        position{line: 2853, col: 13, offset: 90455},
+																											pos:        position{line: 2858, col: 13, offset: 90570},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2853, col: 18, offset: 90460},
+																										pos: position{line: 2858, col: 18, offset: 90575},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2853, col: 18, offset: 90460},
+																											pos:        position{line: 2858, col: 18, offset: 90575},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 12, offset: 90454},
+														pos: position{line: 2858, col: 12, offset: 90569},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2853, col: 13, offset: 90455},
+															pos: position{line: 2858, col: 13, offset: 90570},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2853, col: 13, offset: 90455},
+																	pos: position{line: 2858, col: 13, offset: 90570},
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 13, offset: 90455},
+																		pos:        position{line: 2858, col: 13, offset: 90570},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2853, col: 18, offset: 90460},
+																	pos: position{line: 2858, col: 18, offset: 90575},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2853, col: 18, offset: 90460},
+																		pos:        position{line: 2858, col: 18, offset: 90575},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 12, offset: 90454},
+														pos: position{line: 2858, col: 12, offset: 90569},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2853, col: 13, offset: 90455},
+															pos: position{line: 2858, col: 13, offset: 90570},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2853, col: 13, offset: 90455},
+																	pos: position{line: 2858, col: 13, offset: 90570},
 																	expr: &litMatcher{
-																		pos:        position{line: 2853, col: 13, offset: 90455},
+																		pos:        position{line: 2858, col: 13, offset: 90570},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2853, col: 18, offset: 90460},
+																	pos: position{line: 2858, col: 18, offset: 90575},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2853, col: 18, offset: 90460},
+																		pos:        position{line: 2858, col: 18, offset: 90575},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2853, col: 12, offset: 90454},
+												pos: position{line: 2858, col: 12, offset: 90569},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2853, col: 13, offset: 90455},
+													pos: position{line: 2858, col: 13, offset: 90570},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2853, col: 13, offset: 90455},
+															pos: position{line: 2858, col: 13, offset: 90570},
 															expr: &litMatcher{
-																pos:        position{line: 2853, col: 13, offset: 90455},
+																pos:        position{line: 2858, col: 13, offset: 90570},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2853, col: 18, offset: 90460},
+															pos: position{line: 2858, col: 18, offset: 90575},
 															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 18, offset: 90460},
+																pos:        position{line: 2858, col: 18, offset: 90575},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2755, col: 14, offset: 87796},
+																		pos: position{line: 2760, col: 14, offset: 87911},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2755, col: 14, offset: 87796},
+																			pos: position{line: 2760, col: 14, offset: 87911},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2755, col: 14, offset: 87796},
+																				pos:        position{line: 2760, col: 14, offset: 87911},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2755, col: 14, offset: 87796},
+																				pos: position{line: 2760, col: 14, offset: 87911},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2755, col: 14, offset: 87796},
+																					pos: position{line: 2760, col: 14, offset: 87911},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2755, col: 14, offset: 87796},
+																						pos:        position{line: 2760, col: 14, offset: 87911},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2755, col: 14, offset: 87796},
+																							pos: position{line: 2760, col: 14, offset: 87911},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2755, col: 14, offset: 87796},
+																								pos: position{line: 2760, col: 14, offset: 87911},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2755, col: 14, offset: 87796},
+																									pos:        position{line: 2760, col: 14, offset: 87911},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2755, col: 14, offset: 87796},
+																									pos: position{line: 2760, col: 14, offset: 87911},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2755, col: 14, offset: 87796},
+																										pos: position{line: 2760, col: 14, offset: 87911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2755, col: 14, offset: 87796},
+																											pos:        position{line: 2760, col: 14, offset: 87911},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2755, col: 14, offset: 87796},
+																pos: position{line: 2760, col: 14, offset: 87911},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2755, col: 14, offset: 87796},
+																	pos: position{line: 2760, col: 14, offset: 87911},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2755, col: 14, offset: 87796},
+																		pos:        position{line: 2760, col: 14, offset: 87911},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2755, col: 14, offset: 87796},
+																pos: position{line: 2760, col: 14, offset: 87911},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2755, col: 14, offset: 87796},
+																	pos: position{line: 2760, col: 14, offset: 87911},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2755, col: 14, offset: 87796},
+																		pos:        position{line: 2760, col: 14, offset: 87911},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21508},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2878, col: 11, offset: 90961},
+														pos: position{line: 2883, col: 11, offset: 91076},
 														expr: &anyMatcher{
-															line: 2878, col: 13, offset: 90963,
+															line: 2883, col: 13, offset: 91078,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21515},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23724},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23724},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23724},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23972},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23972},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24384},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 971, col: 40, offset: 30393},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 971, col: 40, offset: 30393},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24218},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24218},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24756},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24756},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25232},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25232},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21508},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21515},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 992, col: 5, offset: 30928},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89220},
+																			pos: position{line: 2816, col: 14, offset: 89335},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89220},
+																				pos: position{line: 2816, col: 14, offset: 89335},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89220},
+																					pos:        position{line: 2816, col: 14, offset: 89335},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21508},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2878, col: 11, offset: 90961},
+																									pos: position{line: 2883, col: 11, offset: 91076},
 																									expr: &anyMatcher{
-																										line: 2878, col: 13, offset: 90963,
+																										line: 2883, col: 13, offset: 91078,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21515},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 992, col: 5, offset: 30928},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2811, col: 14, offset: 89220},
+																						pos: position{line: 2816, col: 14, offset: 89335},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2811, col: 14, offset: 89220},
+																							pos: position{line: 2816, col: 14, offset: 89335},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2811, col: 14, offset: 89220},
+																								pos:        position{line: 2816, col: 14, offset: 89335},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1793, col: 5, offset: 57993},
+																		pos: position{line: 1798, col: 5, offset: 58111},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1793, col: 5, offset: 57993},
+																			pos: position{line: 1798, col: 5, offset: 58111},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1793, col: 5, offset: 57993},
+																					pos:   position{line: 1798, col: 5, offset: 58111},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2811, col: 14, offset: 89220},
+																						pos: position{line: 2816, col: 14, offset: 89335},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2811, col: 14, offset: 89220},
+																							pos: position{line: 2816, col: 14, offset: 89335},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2811, col: 14, offset: 89220},
+																								pos:        position{line: 2816, col: 14, offset: 89335},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1794, col: 5, offset: 58017},
+																					pos: position{line: 1799, col: 5, offset: 58135},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24987},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24987},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25484},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25484},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25734},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25734},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25980},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25980},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2706, col: 18, offset: 86217},
+											pos: position{line: 2711, col: 18, offset: 86332},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2707, col: 9, offset: 86227},
+												pos: position{line: 2712, col: 9, offset: 86342},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2707, col: 9, offset: 86227},
+														pos: position{line: 2712, col: 9, offset: 86342},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2707, col: 9, offset: 86227},
+																pos:        position{line: 2712, col: 9, offset: 86342},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2707, col: 15, offset: 86233},
+																pos: position{line: 2712, col: 15, offset: 86348},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2708, col: 11, offset: 86266},
+														pos: position{line: 2713, col: 11, offset: 86381},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2708, col: 12, offset: 86267},
+																pos: position{line: 2713, col: 12, offset: 86382},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 12, offset: 86267},
+																		pos:        position{line: 2713, col: 12, offset: 86382},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 20, offset: 86275},
+																		pos:        position{line: 2713, col: 20, offset: 86390},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 30, offset: 86285},
+																		pos:        position{line: 2713, col: 30, offset: 86400},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 38, offset: 86293},
+																		pos:        position{line: 2713, col: 38, offset: 86408},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 48, offset: 86303},
+																		pos:        position{line: 2713, col: 48, offset: 86418},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2708, col: 56, offset: 86311},
+																		pos:        position{line: 2713, col: 56, offset: 86426},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2708, col: 65, offset: 86320},
+																pos: position{line: 2713, col: 65, offset: 86435},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2708, col: 76, offset: 86331},
+																pos: position{line: 2713, col: 76, offset: 86446},
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 5, offset: 83153},
+											pos: position{line: 2602, col: 5, offset: 83268},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2597, col: 5, offset: 83153},
+												pos: position{line: 2602, col: 5, offset: 83268},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2603, col: 19, offset: 83310},
+														pos:        position{line: 2608, col: 19, offset: 83425},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2603, col: 26, offset: 83317},
+														pos: position{line: 2608, col: 26, offset: 83432},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2598, col: 5, offset: 83177},
+														pos:   position{line: 2603, col: 5, offset: 83292},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2598, col: 11, offset: 83183},
+															pos: position{line: 2603, col: 11, offset: 83298},
 															expr: &choiceExpr{
-																pos: position{line: 2598, col: 12, offset: 83184},
+																pos: position{line: 2603, col: 12, offset: 83299},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21508},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90961},
+																					pos: position{line: 2883, col: 11, offset: 91076},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90963,
+																						line: 2883, col: 13, offset: 91078,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2610, col: 5, offset: 83429},
+																		pos: position{line: 2615, col: 5, offset: 83544},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2610, col: 5, offset: 83429},
+																			pos: position{line: 2615, col: 5, offset: 83544},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2610, col: 5, offset: 83429},
+																					pos: position{line: 2615, col: 5, offset: 83544},
 																					expr: &choiceExpr{
-																						pos: position{line: 2607, col: 22, offset: 83390},
+																						pos: position{line: 2612, col: 22, offset: 83505},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2603, col: 19, offset: 83310},
+																								pos: position{line: 2608, col: 19, offset: 83425},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2603, col: 19, offset: 83310},
+																										pos:        position{line: 2608, col: 19, offset: 83425},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2603, col: 26, offset: 83317},
+																										pos: position{line: 2608, col: 26, offset: 83432},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90627},
+																											pos: position{line: 2866, col: 10, offset: 90742},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90627},
+																												pos:        position{line: 2866, col: 10, offset: 90742},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2883, col: 8, offset: 91025},
+																										pos: position{line: 2888, col: 8, offset: 91140},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2870, col: 12, offset: 90798},
+																												pos: position{line: 2875, col: 12, offset: 90913},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2870, col: 13, offset: 90799},
+																													pos: position{line: 2875, col: 13, offset: 90914},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 13, offset: 90799},
+																															pos:        position{line: 2875, col: 13, offset: 90914},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 20, offset: 90806},
+																															pos:        position{line: 2875, col: 20, offset: 90921},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 29, offset: 90815},
+																															pos:        position{line: 2875, col: 29, offset: 90930},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2880, col: 8, offset: 90975},
+																												pos: position{line: 2885, col: 8, offset: 91090},
 																												expr: &anyMatcher{
-																													line: 2880, col: 9, offset: 90976,
+																													line: 2885, col: 9, offset: 91091,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2611, col: 5, offset: 83452},
+																					pos:   position{line: 2616, col: 5, offset: 83567},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2612, col: 9, offset: 83470},
+																						pos: position{line: 2617, col: 9, offset: 83585},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2612, col: 10, offset: 83471},
+																								pos: position{line: 2617, col: 10, offset: 83586},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2612, col: 10, offset: 83471},
+																									pos:   position{line: 2617, col: 10, offset: 83586},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2612, col: 17, offset: 83478},
+																										pos: position{line: 2617, col: 17, offset: 83593},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2620, col: 21, offset: 83674},
+																												pos: position{line: 2625, col: 21, offset: 83789},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2620, col: 21, offset: 83674},
+																													pos: position{line: 2625, col: 21, offset: 83789},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2620, col: 21, offset: 83674},
+																															pos:   position{line: 2625, col: 21, offset: 83789},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2620, col: 27, offset: 83680},
+																																pos: position{line: 2625, col: 27, offset: 83795},
 																																expr: &actionExpr{
-																																	pos: position{line: 2625, col: 5, offset: 83755},
+																																	pos: position{line: 2630, col: 5, offset: 83870},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2625, col: 5, offset: 83755},
+																																		pos: position{line: 2630, col: 5, offset: 83870},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2625, col: 5, offset: 83755},
+																																				pos:        position{line: 2630, col: 5, offset: 83870},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2625, col: 9, offset: 83759},
+																																				pos: position{line: 2630, col: 9, offset: 83874},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2861, col: 10, offset: 90627},
+																																					pos: position{line: 2866, col: 10, offset: 90742},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2861, col: 10, offset: 90627},
+																																						pos:        position{line: 2866, col: 10, offset: 90742},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2625, col: 16, offset: 83766},
+																																				pos:   position{line: 2630, col: 16, offset: 83881},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2631, col: 5, offset: 83966},
+																																					pos: position{line: 2636, col: 5, offset: 84081},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2631, col: 5, offset: 83966},
+																																						pos:   position{line: 2636, col: 5, offset: 84081},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2631, col: 14, offset: 83975},
+																																							pos: position{line: 2636, col: 14, offset: 84090},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2631, col: 14, offset: 83975},
+																																								pos: position{line: 2636, col: 14, offset: 84090},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2631, col: 14, offset: 83975},
+																																									pos:        position{line: 2636, col: 14, offset: 84090},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2883, col: 8, offset: 91025},
+																															pos: position{line: 2888, col: 8, offset: 91140},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2870, col: 12, offset: 90798},
+																																	pos: position{line: 2875, col: 12, offset: 90913},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2870, col: 13, offset: 90799},
+																																		pos: position{line: 2875, col: 13, offset: 90914},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 13, offset: 90799},
+																																				pos:        position{line: 2875, col: 13, offset: 90914},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 20, offset: 90806},
+																																				pos:        position{line: 2875, col: 20, offset: 90921},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2870, col: 29, offset: 90815},
+																																				pos:        position{line: 2875, col: 29, offset: 90930},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2880, col: 8, offset: 90975},
+																																	pos: position{line: 2885, col: 8, offset: 91090},
 																																	expr: &anyMatcher{
-																																		line: 2880, col: 9, offset: 90976,
+																																		line: 2885, col: 9, offset: 91091,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2637, col: 24, offset: 84111},
+																												pos: position{line: 2642, col: 24, offset: 84226},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2637, col: 24, offset: 84111},
+																													pos:   position{line: 2642, col: 24, offset: 84226},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2637, col: 30, offset: 84117},
+																														pos: position{line: 2642, col: 30, offset: 84232},
 																														expr: &actionExpr{
-																															pos: position{line: 2642, col: 5, offset: 84193},
+																															pos: position{line: 2647, col: 5, offset: 84308},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2642, col: 5, offset: 84193},
+																																pos: position{line: 2647, col: 5, offset: 84308},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2642, col: 5, offset: 84193},
+																																		pos: position{line: 2647, col: 5, offset: 84308},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2607, col: 22, offset: 83390},
+																																			pos: position{line: 2612, col: 22, offset: 83505},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2603, col: 19, offset: 83310},
+																																					pos: position{line: 2608, col: 19, offset: 83425},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2603, col: 19, offset: 83310},
+																																							pos:        position{line: 2608, col: 19, offset: 83425},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2603, col: 26, offset: 83317},
+																																							pos: position{line: 2608, col: 26, offset: 83432},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2861, col: 10, offset: 90627},
+																																								pos: position{line: 2866, col: 10, offset: 90742},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2861, col: 10, offset: 90627},
+																																									pos:        position{line: 2866, col: 10, offset: 90742},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2883, col: 8, offset: 91025},
+																																							pos: position{line: 2888, col: 8, offset: 91140},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2870, col: 12, offset: 90798},
+																																									pos: position{line: 2875, col: 12, offset: 90913},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2870, col: 13, offset: 90799},
+																																										pos: position{line: 2875, col: 13, offset: 90914},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 13, offset: 90799},
+																																												pos:        position{line: 2875, col: 13, offset: 90914},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 20, offset: 90806},
+																																												pos:        position{line: 2875, col: 20, offset: 90921},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 29, offset: 90815},
+																																												pos:        position{line: 2875, col: 29, offset: 90930},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90975},
+																																									pos: position{line: 2885, col: 8, offset: 91090},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90976,
+																																										line: 2885, col: 9, offset: 91091,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2880, col: 8, offset: 90975},
+																																					pos: position{line: 2885, col: 8, offset: 91090},
 																																					expr: &anyMatcher{
-																																						line: 2880, col: 9, offset: 90976,
+																																						line: 2885, col: 9, offset: 91091,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2643, col: 5, offset: 84216},
+																																		pos: position{line: 2648, col: 5, offset: 84331},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21508},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21508},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2878, col: 11, offset: 90961},
+																																						pos: position{line: 2883, col: 11, offset: 91076},
 																																						expr: &anyMatcher{
-																																							line: 2878, col: 13, offset: 90963,
+																																							line: 2883, col: 13, offset: 91078,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21515},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2861, col: 10, offset: 90627},
+																																							pos: position{line: 2866, col: 10, offset: 90742},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2861, col: 10, offset: 90627},
+																																								pos:        position{line: 2866, col: 10, offset: 90742},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2883, col: 8, offset: 91025},
+																																						pos: position{line: 2888, col: 8, offset: 91140},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2870, col: 12, offset: 90798},
+																																								pos: position{line: 2875, col: 12, offset: 90913},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2870, col: 13, offset: 90799},
+																																									pos: position{line: 2875, col: 13, offset: 90914},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 13, offset: 90799},
+																																											pos:        position{line: 2875, col: 13, offset: 90914},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 20, offset: 90806},
+																																											pos:        position{line: 2875, col: 20, offset: 90921},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 29, offset: 90815},
+																																											pos:        position{line: 2875, col: 29, offset: 90930},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2880, col: 8, offset: 90975},
+																																								pos: position{line: 2885, col: 8, offset: 91090},
 																																								expr: &anyMatcher{
-																																									line: 2880, col: 9, offset: 90976,
+																																									line: 2885, col: 9, offset: 91091,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2644, col: 5, offset: 84231},
+																																		pos:   position{line: 2649, col: 5, offset: 84346},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2644, col: 12, offset: 84238},
+																																			pos: position{line: 2649, col: 12, offset: 84353},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2661, col: 20, offset: 84702},
+																																				pos: position{line: 2666, col: 20, offset: 84817},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2661, col: 20, offset: 84702},
+																																					pos: position{line: 2666, col: 20, offset: 84817},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2661, col: 20, offset: 84702},
+																																						pos:        position{line: 2666, col: 20, offset: 84817},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2644, col: 31, offset: 84257},
+																																		pos:        position{line: 2649, col: 31, offset: 84372},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2644, col: 35, offset: 84261},
+																																		pos: position{line: 2649, col: 35, offset: 84376},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 10, offset: 90627},
+																																			pos: position{line: 2866, col: 10, offset: 90742},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2861, col: 10, offset: 90627},
+																																				pos:        position{line: 2866, col: 10, offset: 90742},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2644, col: 42, offset: 84268},
+																																		pos: position{line: 2649, col: 42, offset: 84383},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2870, col: 12, offset: 90798},
+																																			pos: position{line: 2875, col: 12, offset: 90913},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2870, col: 13, offset: 90799},
+																																				pos: position{line: 2875, col: 13, offset: 90914},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 13, offset: 90799},
+																																						pos:        position{line: 2875, col: 13, offset: 90914},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 20, offset: 90806},
+																																						pos:        position{line: 2875, col: 20, offset: 90921},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2870, col: 29, offset: 90815},
+																																						pos:        position{line: 2875, col: 29, offset: 90930},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2644, col: 51, offset: 84277},
+																																		pos:   position{line: 2649, col: 51, offset: 84392},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2650, col: 5, offset: 84436},
+																																			pos: position{line: 2655, col: 5, offset: 84551},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2651, col: 9, offset: 84446},
+																																				pos: position{line: 2656, col: 9, offset: 84561},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2651, col: 9, offset: 84446},
+																																					pos: position{line: 2656, col: 9, offset: 84561},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2651, col: 9, offset: 84446},
+																																							pos: position{line: 2656, col: 9, offset: 84561},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2607, col: 22, offset: 83390},
+																																								pos: position{line: 2612, col: 22, offset: 83505},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2603, col: 19, offset: 83310},
+																																										pos: position{line: 2608, col: 19, offset: 83425},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2603, col: 19, offset: 83310},
+																																												pos:        position{line: 2608, col: 19, offset: 83425},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2603, col: 26, offset: 83317},
+																																												pos: position{line: 2608, col: 26, offset: 83432},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2861, col: 10, offset: 90627},
+																																													pos: position{line: 2866, col: 10, offset: 90742},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2861, col: 10, offset: 90627},
+																																														pos:        position{line: 2866, col: 10, offset: 90742},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2883, col: 8, offset: 91025},
+																																												pos: position{line: 2888, col: 8, offset: 91140},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2870, col: 12, offset: 90798},
+																																														pos: position{line: 2875, col: 12, offset: 90913},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2870, col: 13, offset: 90799},
+																																															pos: position{line: 2875, col: 13, offset: 90914},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2880, col: 8, offset: 90975},
+																																														pos: position{line: 2885, col: 8, offset: 91090},
 																																														expr: &anyMatcher{
-																																															line: 2880, col: 9, offset: 90976,
+																																															line: 2885, col: 9, offset: 91091,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2880, col: 8, offset: 90975},
+																																										pos: position{line: 2885, col: 8, offset: 91090},
 																																										expr: &anyMatcher{
-																																											line: 2880, col: 9, offset: 90976,
+																																											line: 2885, col: 9, offset: 91091,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2652, col: 9, offset: 84473},
+																																							pos: position{line: 2657, col: 9, offset: 84588},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21508},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21508},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2878, col: 11, offset: 90961},
+																																											pos: position{line: 2883, col: 11, offset: 91076},
 																																											expr: &anyMatcher{
-																																												line: 2878, col: 13, offset: 90963,
+																																												line: 2883, col: 13, offset: 91078,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21515},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2861, col: 10, offset: 90627},
+																																												pos: position{line: 2866, col: 10, offset: 90742},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2861, col: 10, offset: 90627},
+																																													pos:        position{line: 2866, col: 10, offset: 90742},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2883, col: 8, offset: 91025},
+																																											pos: position{line: 2888, col: 8, offset: 91140},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2870, col: 12, offset: 90798},
+																																													pos: position{line: 2875, col: 12, offset: 90913},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2870, col: 13, offset: 90799},
+																																														pos: position{line: 2875, col: 13, offset: 90914},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2880, col: 8, offset: 90975},
+																																													pos: position{line: 2885, col: 8, offset: 91090},
 																																													expr: &anyMatcher{
-																																														line: 2880, col: 9, offset: 90976,
+																																														line: 2885, col: 9, offset: 91091,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2653, col: 9, offset: 84492},
+																																							pos: position{line: 2658, col: 9, offset: 84607},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2653, col: 11, offset: 84494},
+																																								pos: position{line: 2658, col: 11, offset: 84609},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2653, col: 11, offset: 84494},
+																																										pos:   position{line: 2658, col: 11, offset: 84609},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2653, col: 18, offset: 84501},
+																																											pos: position{line: 2658, col: 18, offset: 84616},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2661, col: 20, offset: 84702},
+																																												pos: position{line: 2666, col: 20, offset: 84817},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2661, col: 20, offset: 84702},
+																																													pos: position{line: 2666, col: 20, offset: 84817},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2661, col: 20, offset: 84702},
+																																														pos:        position{line: 2666, col: 20, offset: 84817},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2653, col: 37, offset: 84520},
+																																										pos:        position{line: 2658, col: 37, offset: 84635},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2654, col: 9, offset: 84533},
+																																							pos:   position{line: 2659, col: 9, offset: 84648},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2654, col: 18, offset: 84542},
+																																								pos: position{line: 2659, col: 18, offset: 84657},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2654, col: 18, offset: 84542},
+																																									pos: position{line: 2659, col: 18, offset: 84657},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2654, col: 18, offset: 84542},
+																																										pos:        position{line: 2659, col: 18, offset: 84657},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2656, col: 12, offset: 84604},
+																																							pos: position{line: 2661, col: 12, offset: 84719},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2883, col: 8, offset: 91025},
+																																								pos: position{line: 2888, col: 8, offset: 91140},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2870, col: 12, offset: 90798},
+																																										pos: position{line: 2875, col: 12, offset: 90913},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2870, col: 13, offset: 90799},
+																																											pos: position{line: 2875, col: 13, offset: 90914},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 13, offset: 90799},
+																																													pos:        position{line: 2875, col: 13, offset: 90914},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 20, offset: 90806},
+																																													pos:        position{line: 2875, col: 20, offset: 90921},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2870, col: 29, offset: 90815},
+																																													pos:        position{line: 2875, col: 29, offset: 90930},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2880, col: 8, offset: 90975},
+																																										pos: position{line: 2885, col: 8, offset: 91090},
 																																										expr: &anyMatcher{
-																																											line: 2880, col: 9, offset: 90976,
+																																											line: 2885, col: 9, offset: 91091,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21508},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2878, col: 11, offset: 90961},
+																											pos: position{line: 2883, col: 11, offset: 91076},
 																											expr: &anyMatcher{
-																												line: 2878, col: 13, offset: 90963,
+																												line: 2883, col: 13, offset: 91078,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21515},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2607, col: 22, offset: 83390},
+														pos: position{line: 2612, col: 22, offset: 83505},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2603, col: 19, offset: 83310},
+																pos: position{line: 2608, col: 19, offset: 83425},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2603, col: 19, offset: 83310},
+																		pos:        position{line: 2608, col: 19, offset: 83425},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2603, col: 26, offset: 83317},
+																		pos: position{line: 2608, col: 26, offset: 83432},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 22, offset: 79612},
+												pos: position{line: 2476, col: 22, offset: 79727},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2476, col: 31, offset: 79833},
+														pos:        position{line: 2481, col: 31, offset: 79948},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2476, col: 36, offset: 79838},
+														pos: position{line: 2481, col: 36, offset: 79953},
 														expr: &litMatcher{
-															pos:        position{line: 2476, col: 37, offset: 79839},
+															pos:        position{line: 2481, col: 37, offset: 79954},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 49, offset: 79639},
+														pos:   position{line: 2476, col: 49, offset: 79754},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2807, col: 13, offset: 89153},
+																pos: position{line: 2812, col: 13, offset: 89268},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2807, col: 13, offset: 89153},
+																	pos:        position{line: 2812, col: 13, offset: 89268},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -10236,24 +10236,24 @@ var g = &grammar{
 														pos:   position{line: 1233, col: 5, offset: 38168},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1238, col: 20, offset: 38263},
+															pos: position{line: 1239, col: 5, offset: 38268},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1238, col: 20, offset: 38263},
+																pos: position{line: 1239, col: 5, offset: 38268},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38435},
+																		pos:        position{line: 1247, col: 30, offset: 38527},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38441},
+																		pos: position{line: 1247, col: 36, offset: 38533},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,96 +10292,124 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1238, col: 45, offset: 38288},
+																		pos:   position{line: 1239, col: 30, offset: 38293},
 																		label: "content",
-																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1238, col: 53, offset: 38296},
-																			expr: &actionExpr{
-																				pos: position{line: 1244, col: 27, offset: 38479},
-																				run: (*parser).callonDocumentFragment1387,
-																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1244, col: 27, offset: 38479},
-																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1244, col: 28, offset: 38480},
-																						expr: &seqExpr{
-																							pos: position{line: 1244, col: 29, offset: 38481},
-																							exprs: []interface{}{
-																								&notExpr{
-																									pos: position{line: 1244, col: 29, offset: 38481},
-																									expr: &seqExpr{
-																										pos: position{line: 1242, col: 30, offset: 38435},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 1242, col: 30, offset: 38435},
-																												val:        "---",
+																		expr: &actionExpr{
+																			pos: position{line: 1249, col: 27, offset: 38571},
+																			run: (*parser).callonDocumentFragment1386,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 1249, col: 27, offset: 38571},
+																				expr: &seqExpr{
+																					pos: position{line: 1249, col: 28, offset: 38572},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1249, col: 28, offset: 38572},
+																							expr: &seqExpr{
+																								pos: position{line: 1247, col: 30, offset: 38527},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 1247, col: 30, offset: 38527},
+																										val:        "---",
+																										ignoreCase: false,
+																										want:       "\"---\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 1247, col: 36, offset: 38533},
+																										expr: &actionExpr{
+																											pos: position{line: 2866, col: 10, offset: 90742},
+																											run: (*parser).callonDocumentFragment1393,
+																											expr: &charClassMatcher{
+																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												val:        "[\\t ]",
+																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
-																												want:       "\"---\"",
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 1242, col: 36, offset: 38441},
-																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
-																													run: (*parser).callonDocumentFragment1395,
-																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
-																														val:        "[\\t ]",
-																														chars:      []rune{'\t', ' '},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
+																												inverted:   false,
 																											},
-																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
-																												alternatives: []interface{}{
-																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
-																														run: (*parser).callonDocumentFragment1398,
-																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
-																															alternatives: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
-																																	val:        "\n",
-																																	ignoreCase: false,
-																																	want:       "\"\\n\"",
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
-																																	val:        "\r\n",
-																																	ignoreCase: false,
-																																	want:       "\"\\r\\n\"",
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
-																																	val:        "\r",
-																																	ignoreCase: false,
-																																	want:       "\"\\r\"",
-																																},
-																															},
+																										},
+																									},
+																									&choiceExpr{
+																										pos: position{line: 2888, col: 8, offset: 91140},
+																										alternatives: []interface{}{
+																											&actionExpr{
+																												pos: position{line: 2875, col: 12, offset: 90913},
+																												run: (*parser).callonDocumentFragment1396,
+																												expr: &choiceExpr{
+																													pos: position{line: 2875, col: 13, offset: 90914},
+																													alternatives: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 2875, col: 13, offset: 90914},
+																															val:        "\n",
+																															ignoreCase: false,
+																															want:       "\"\\n\"",
 																														},
-																													},
-																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
-																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																														&litMatcher{
+																															pos:        position{line: 2875, col: 20, offset: 90921},
+																															val:        "\r\n",
+																															ignoreCase: false,
+																															want:       "\"\\r\\n\"",
+																														},
+																														&litMatcher{
+																															pos:        position{line: 2875, col: 29, offset: 90930},
+																															val:        "\r",
+																															ignoreCase: false,
+																															want:       "\"\\r\"",
 																														},
 																													},
 																												},
 																											},
+																											&notExpr{
+																												pos: position{line: 2885, col: 8, offset: 91090},
+																												expr: &anyMatcher{
+																													line: 2885, col: 9, offset: 91091,
+																												},
+																											},
 																										},
 																									},
 																								},
-																								&anyMatcher{
-																									line: 1244, col: 55, offset: 38507,
+																							},
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 1249, col: 54, offset: 38598},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 1249, col: 54, offset: 38598},
+																								val:        "[^\\r\\n]",
+																								chars:      []rune{'\r', '\n'},
+																								ignoreCase: false,
+																								inverted:   true,
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 2875, col: 12, offset: 90913},
+																							run: (*parser).callonDocumentFragment1405,
+																							expr: &choiceExpr{
+																								pos: position{line: 2875, col: 13, offset: 90914},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
 																								},
 																							},
 																						},
@@ -10391,18 +10419,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38435},
+																		pos:        position{line: 1247, col: 30, offset: 38527},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38441},
+																		pos: position{line: 1247, col: 36, offset: 38533},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
-																			run: (*parser).callonDocumentFragment1408,
+																			pos: position{line: 2866, col: 10, offset: 90742},
+																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10411,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonDocumentFragment1411,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10441,13 +10469,17 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1240, col: 5, offset: 38356},
+																		run: (*parser).callonDocumentFragment1422,
+																	},
 																},
 															},
 														},
@@ -10465,7 +10497,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1419,
+							run: (*parser).callonDocumentFragment1424,
 						},
 					},
 				},
@@ -10540,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -10614,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2865, col: 11, offset: 90688},
+												pos: position{line: 2870, col: 11, offset: 90803},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2865, col: 11, offset: 90688},
+													pos: position{line: 2870, col: 11, offset: 90803},
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 11, offset: 90688},
+														pos:        position{line: 2870, col: 11, offset: 90803},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10641,28 +10673,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10671,9 +10703,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -10717,25 +10749,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90798},
+												pos: position{line: 2875, col: 12, offset: 90913},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90799},
+													pos: position{line: 2875, col: 13, offset: 90914},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90799},
+															pos:        position{line: 2875, col: 13, offset: 90914},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90806},
+															pos:        position{line: 2875, col: 20, offset: 90921},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90815},
+															pos:        position{line: 2875, col: 29, offset: 90930},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10746,10 +10778,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90627},
+													pos: position{line: 2866, col: 10, offset: 90742},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90627},
+														pos:        position{line: 2866, col: 10, offset: 90742},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10819,10 +10851,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90627},
+											pos: position{line: 2866, col: 10, offset: 90742},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90627},
+												pos:        position{line: 2866, col: 10, offset: 90742},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10831,28 +10863,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2883, col: 8, offset: 91025},
+										pos: position{line: 2888, col: 8, offset: 91140},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90798},
+												pos: position{line: 2875, col: 12, offset: 90913},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90799},
+													pos: position{line: 2875, col: 13, offset: 90914},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90799},
+															pos:        position{line: 2875, col: 13, offset: 90914},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90806},
+															pos:        position{line: 2875, col: 20, offset: 90921},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90815},
+															pos:        position{line: 2875, col: 29, offset: 90930},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10861,9 +10893,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2880, col: 8, offset: 90975},
+												pos: position{line: 2885, col: 8, offset: 91090},
 												expr: &anyMatcher{
-													line: 2880, col: 9, offset: 90976,
+													line: 2885, col: 9, offset: 91091,
 												},
 											},
 										},
@@ -10896,23 +10928,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79158},
+										pos: position{line: 2463, col: 5, offset: 79273},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79158},
+													pos: position{line: 2463, col: 5, offset: 79273},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79234},
+													pos:   position{line: 2466, col: 5, offset: 79349},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79252},
+														pos: position{line: 2467, col: 9, offset: 79367},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79253},
+															pos:        position{line: 2467, col: 10, offset: 79368},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10924,10 +10956,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90627},
+										pos: position{line: 2866, col: 10, offset: 90742},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90627},
+											pos:        position{line: 2866, col: 10, offset: 90742},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11764,10 +11796,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90627},
+													pos: position{line: 2866, col: 10, offset: 90742},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90627},
+														pos:        position{line: 2866, col: 10, offset: 90742},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11776,28 +11808,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 91025},
+												pos: position{line: 2888, col: 8, offset: 91140},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90798},
+														pos: position{line: 2875, col: 12, offset: 90913},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90799},
+															pos: position{line: 2875, col: 13, offset: 90914},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90799},
+																	pos:        position{line: 2875, col: 13, offset: 90914},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90806},
+																	pos:        position{line: 2875, col: 20, offset: 90921},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90815},
+																	pos:        position{line: 2875, col: 29, offset: 90930},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11806,9 +11838,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90975},
+														pos: position{line: 2885, col: 8, offset: 91090},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90976,
+															line: 2885, col: 9, offset: 91091,
 														},
 													},
 												},
@@ -11822,18 +11854,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11842,28 +11874,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11872,9 +11904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -11926,12 +11958,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2755, col: 14, offset: 87796},
+																				pos: position{line: 2760, col: 14, offset: 87911},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2755, col: 14, offset: 87796},
+																					pos: position{line: 2760, col: 14, offset: 87911},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2755, col: 14, offset: 87796},
+																						pos:        position{line: 2760, col: 14, offset: 87911},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11940,10 +11972,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11951,27 +11983,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2778, col: 5, offset: 88281},
+																				pos: position{line: 2783, col: 5, offset: 88396},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2779, col: 9, offset: 88291},
+																					pos: position{line: 2784, col: 9, offset: 88406},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2779, col: 10, offset: 88292},
+																							pos:        position{line: 2784, col: 10, offset: 88407},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2781, col: 13, offset: 88389},
+																							pos: position{line: 2786, col: 13, offset: 88504},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2781, col: 13, offset: 88389},
+																									pos: position{line: 2786, col: 13, offset: 88504},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2784, col: 13, offset: 88489},
+																									pos:        position{line: 2789, col: 13, offset: 88604},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11979,20 +12011,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2784, col: 19, offset: 88495},
+																							pos:        position{line: 2789, col: 19, offset: 88610},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2787, col: 13, offset: 88533},
+																							pos: position{line: 2792, col: 13, offset: 88648},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2787, col: 13, offset: 88533},
+																									pos: position{line: 2792, col: 13, offset: 88648},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2790, col: 14, offset: 88626},
+																									pos:        position{line: 2795, col: 14, offset: 88741},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12001,18 +12033,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2792, col: 12, offset: 88670},
+																							pos: position{line: 2797, col: 12, offset: 88785},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2792, col: 12, offset: 88670},
+																									pos:        position{line: 2797, col: 12, offset: 88785},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2792, col: 16, offset: 88674},
+																									pos: position{line: 2797, col: 16, offset: 88789},
 																									expr: &litMatcher{
-																										pos:        position{line: 2792, col: 17, offset: 88675},
+																										pos:        position{line: 2797, col: 17, offset: 88790},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12348,10 +12380,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2800, col: 12, offset: 88935},
+																				pos: position{line: 2805, col: 12, offset: 89050},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2800, col: 12, offset: 88935},
+																					pos:        position{line: 2805, col: 12, offset: 89050},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12369,10 +12401,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90627},
+													pos: position{line: 2866, col: 10, offset: 90742},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90627},
+														pos:        position{line: 2866, col: 10, offset: 90742},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12381,28 +12413,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 91025},
+												pos: position{line: 2888, col: 8, offset: 91140},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90798},
+														pos: position{line: 2875, col: 12, offset: 90913},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90799},
+															pos: position{line: 2875, col: 13, offset: 90914},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90799},
+																	pos:        position{line: 2875, col: 13, offset: 90914},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90806},
+																	pos:        position{line: 2875, col: 20, offset: 90921},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90815},
+																	pos:        position{line: 2875, col: 29, offset: 90930},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12411,9 +12443,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90975},
+														pos: position{line: 2885, col: 8, offset: 91090},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90976,
+															line: 2885, col: 9, offset: 91091,
 														},
 													},
 												},
@@ -12427,18 +12459,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12447,28 +12479,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12477,9 +12509,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -12508,10 +12540,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90627},
+													pos: position{line: 2866, col: 10, offset: 90742},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90627},
+														pos:        position{line: 2866, col: 10, offset: 90742},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12520,28 +12552,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 91025},
+												pos: position{line: 2888, col: 8, offset: 91140},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90798},
+														pos: position{line: 2875, col: 12, offset: 90913},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90799},
+															pos: position{line: 2875, col: 13, offset: 90914},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90799},
+																	pos:        position{line: 2875, col: 13, offset: 90914},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90806},
+																	pos:        position{line: 2875, col: 20, offset: 90921},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90815},
+																	pos:        position{line: 2875, col: 29, offset: 90930},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12550,9 +12582,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90975},
+														pos: position{line: 2885, col: 8, offset: 91090},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90976,
+															line: 2885, col: 9, offset: 91091,
 														},
 													},
 												},
@@ -12566,18 +12598,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12586,28 +12618,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12616,9 +12648,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -12866,10 +12898,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14550},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90627},
+											pos: position{line: 2866, col: 10, offset: 90742},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90627},
+												pos:        position{line: 2866, col: 10, offset: 90742},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13401,10 +13433,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16132},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13465,10 +13497,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16275},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13508,10 +13540,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16439},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 10, offset: 90627},
+													pos: position{line: 2866, col: 10, offset: 90742},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2861, col: 10, offset: 90627},
+														pos:        position{line: 2866, col: 10, offset: 90742},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13534,10 +13566,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16452},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13592,10 +13624,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17099},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90627},
+												pos: position{line: 2866, col: 10, offset: 90742},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90627},
+													pos:        position{line: 2866, col: 10, offset: 90742},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13626,10 +13658,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16844},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13659,10 +13691,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16884},
 										expr: &actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90627},
+											pos: position{line: 2866, col: 10, offset: 90742},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90627},
+												pos:        position{line: 2866, col: 10, offset: 90742},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13717,10 +13749,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17316},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90627},
+												pos: position{line: 2866, col: 10, offset: 90742},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90627},
+													pos:        position{line: 2866, col: 10, offset: 90742},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13799,12 +13831,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17633},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87796},
+									pos: position{line: 2760, col: 14, offset: 87911},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87796},
+										pos: position{line: 2760, col: 14, offset: 87911},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87796},
+											pos:        position{line: 2760, col: 14, offset: 87911},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13813,10 +13845,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90627},
+									pos: position{line: 2866, col: 10, offset: 90742},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90627},
+										pos:        position{line: 2866, col: 10, offset: 90742},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14273,10 +14305,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18373},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90627},
+												pos: position{line: 2866, col: 10, offset: 90742},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90627},
+													pos:        position{line: 2866, col: 10, offset: 90742},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14313,12 +14345,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18484},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87796},
+									pos: position{line: 2760, col: 14, offset: 87911},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87796},
+										pos: position{line: 2760, col: 14, offset: 87911},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87796},
+											pos:        position{line: 2760, col: 14, offset: 87911},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14327,10 +14359,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90627},
+									pos: position{line: 2866, col: 10, offset: 90742},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90627},
+										pos:        position{line: 2866, col: 10, offset: 90742},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14757,10 +14789,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19340},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15150,10 +15182,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90627},
+											pos: position{line: 2866, col: 10, offset: 90742},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90627},
+												pos:        position{line: 2866, col: 10, offset: 90742},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15204,12 +15236,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21868},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 7, offset: 90279},
+										pos: position{line: 2851, col: 7, offset: 90394},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2846, col: 7, offset: 90279},
+											pos: position{line: 2851, col: 7, offset: 90394},
 											expr: &charClassMatcher{
-												pos:        position{line: 2846, col: 7, offset: 90279},
+												pos:        position{line: 2851, col: 7, offset: 90394},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15221,10 +15253,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21876},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90627},
+										pos: position{line: 2866, col: 10, offset: 90742},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90627},
+											pos:        position{line: 2866, col: 10, offset: 90742},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15623,12 +15655,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21993},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 7, offset: 90279},
+										pos: position{line: 2851, col: 7, offset: 90394},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2846, col: 7, offset: 90279},
+											pos: position{line: 2851, col: 7, offset: 90394},
 											expr: &charClassMatcher{
-												pos:        position{line: 2846, col: 7, offset: 90279},
+												pos:        position{line: 2851, col: 7, offset: 90394},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15672,41 +15704,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22106},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2815, col: 17, offset: 89290},
+								pos: position{line: 2820, col: 17, offset: 89405},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2815, col: 17, offset: 89290},
+									pos:   position{line: 2820, col: 17, offset: 89405},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2832, col: 5, offset: 89744},
+										pos: position{line: 2837, col: 5, offset: 89859},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2832, col: 5, offset: 89744},
+											pos:   position{line: 2837, col: 5, offset: 89859},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2832, col: 14, offset: 89753},
+												pos: position{line: 2837, col: 14, offset: 89868},
 												expr: &choiceExpr{
-													pos: position{line: 2833, col: 9, offset: 89763},
+													pos: position{line: 2838, col: 9, offset: 89878},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2833, col: 9, offset: 89763},
+															pos: position{line: 2838, col: 9, offset: 89878},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2833, col: 9, offset: 89763},
+																pos: position{line: 2838, col: 9, offset: 89878},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2833, col: 9, offset: 89763},
+																		pos: position{line: 2838, col: 9, offset: 89878},
 																		expr: &litMatcher{
-																			pos:        position{line: 2833, col: 10, offset: 89764},
+																			pos:        position{line: 2838, col: 10, offset: 89879},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2834, col: 9, offset: 89792},
+																		pos: position{line: 2839, col: 9, offset: 89907},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2834, col: 10, offset: 89793},
+																			pos:        position{line: 2839, col: 10, offset: 89908},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15717,27 +15749,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2837, col: 11, offset: 90005},
+															pos: position{line: 2842, col: 11, offset: 90120},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2837, col: 11, offset: 90005},
+																	pos:        position{line: 2842, col: 11, offset: 90120},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2837, col: 19, offset: 90013},
+																	pos: position{line: 2842, col: 19, offset: 90128},
 																	expr: &seqExpr{
-																		pos: position{line: 2837, col: 21, offset: 90015},
+																		pos: position{line: 2842, col: 21, offset: 90130},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2837, col: 21, offset: 90015},
+																				pos: position{line: 2842, col: 21, offset: 90130},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90627},
+																					pos: position{line: 2866, col: 10, offset: 90742},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90627},
+																						pos:        position{line: 2866, col: 10, offset: 90742},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15746,11 +15778,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2837, col: 28, offset: 90022},
+																				pos: position{line: 2842, col: 28, offset: 90137},
 																				expr: &notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -16145,10 +16177,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2840, col: 11, offset: 90142},
+															pos: position{line: 2845, col: 11, offset: 90257},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2840, col: 11, offset: 90142},
+																pos:        position{line: 2845, col: 11, offset: 90257},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16193,12 +16225,12 @@ var g = &grammar{
 							pos:   position{line: 997, col: 11, offset: 31050},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2811, col: 14, offset: 89220},
+								pos: position{line: 2816, col: 14, offset: 89335},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2811, col: 14, offset: 89220},
+									pos: position{line: 2816, col: 14, offset: 89335},
 									expr: &charClassMatcher{
-										pos:        position{line: 2811, col: 14, offset: 89220},
+										pos:        position{line: 2816, col: 14, offset: 89335},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16208,28 +16240,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16238,9 +16270,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -16268,36 +16300,36 @@ var g = &grammar{
 								pos: position{line: 1112, col: 6, offset: 34052},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79612},
+										pos: position{line: 2476, col: 22, offset: 79727},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79833},
+													pos:        position{line: 2481, col: 31, offset: 79948},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79838},
+													pos: position{line: 2481, col: 36, offset: 79953},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79839},
+														pos:        position{line: 2481, col: 37, offset: 79954},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79639},
+													pos:   position{line: 2476, col: 49, offset: 79754},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89153},
+														pos: position{line: 2812, col: 13, offset: 89268},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89153},
+																pos:        position{line: 2812, col: 13, offset: 89268},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16307,28 +16339,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16337,9 +16369,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -16393,10 +16425,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16405,28 +16437,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16435,9 +16467,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -16509,10 +16541,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16521,28 +16553,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16551,9 +16583,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -16569,9 +16601,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -16587,21 +16619,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16611,28 +16643,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16641,9 +16673,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -16705,10 +16737,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16717,28 +16749,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16747,9 +16779,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -16765,9 +16797,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -16793,36 +16825,36 @@ var g = &grammar{
 								pos: position{line: 1114, col: 6, offset: 34175},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79612},
+										pos: position{line: 2476, col: 22, offset: 79727},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79833},
+													pos:        position{line: 2481, col: 31, offset: 79948},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79838},
+													pos: position{line: 2481, col: 36, offset: 79953},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79839},
+														pos:        position{line: 2481, col: 37, offset: 79954},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79639},
+													pos:   position{line: 2476, col: 49, offset: 79754},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89153},
+														pos: position{line: 2812, col: 13, offset: 89268},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89153},
+																pos:        position{line: 2812, col: 13, offset: 89268},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16832,28 +16864,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16862,9 +16894,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -16918,10 +16950,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16930,28 +16962,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16960,9 +16992,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -17034,10 +17066,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17046,28 +17078,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17076,9 +17108,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -17094,9 +17126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -17112,21 +17144,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17136,28 +17168,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17166,9 +17198,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -17230,10 +17262,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17242,28 +17274,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17272,9 +17304,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -17290,9 +17322,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -17336,10 +17368,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1133, col: 20, offset: 34930},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17390,10 +17422,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35535},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90627},
+																											pos: position{line: 2866, col: 10, offset: 90742},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90627},
+																												pos:        position{line: 2866, col: 10, offset: 90742},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17425,10 +17457,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1156, col: 5, offset: 35634},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90627},
+																											pos: position{line: 2866, col: 10, offset: 90742},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90627},
+																												pos:        position{line: 2866, col: 10, offset: 90742},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17460,10 +17492,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1160, col: 5, offset: 35731},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90627},
+																											pos: position{line: 2866, col: 10, offset: 90742},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90627},
+																												pos:        position{line: 2866, col: 10, offset: 90742},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17488,9 +17520,9 @@ var g = &grammar{
 																								pos: position{line: 1166, col: 5, offset: 35853},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2878, col: 11, offset: 90961},
+																										pos: position{line: 2883, col: 11, offset: 91076},
 																										expr: &anyMatcher{
-																											line: 2878, col: 13, offset: 90963,
+																											line: 2883, col: 13, offset: 91078,
 																										},
 																									},
 																									&litMatcher{
@@ -17531,10 +17563,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1138, col: 69, offset: 35123},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17554,10 +17586,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1138, col: 81, offset: 35135},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17575,28 +17607,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17605,9 +17637,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -17622,36 +17654,36 @@ var g = &grammar{
 													pos: position{line: 1128, col: 6, offset: 34705},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79612},
+															pos: position{line: 2476, col: 22, offset: 79727},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79612},
+																pos: position{line: 2476, col: 22, offset: 79727},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79833},
+																		pos:        position{line: 2481, col: 31, offset: 79948},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79838},
+																		pos: position{line: 2481, col: 36, offset: 79953},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79839},
+																			pos:        position{line: 2481, col: 37, offset: 79954},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79639},
+																		pos:   position{line: 2476, col: 49, offset: 79754},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89153},
+																			pos: position{line: 2812, col: 13, offset: 89268},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89153},
+																				pos: position{line: 2812, col: 13, offset: 89268},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89153},
+																					pos:        position{line: 2812, col: 13, offset: 89268},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17661,28 +17693,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17691,9 +17723,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -17747,10 +17779,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17759,28 +17791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17789,9 +17821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -17863,10 +17895,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 742, col: 8, offset: 23724},
 																																expr: &actionExpr{
-																																	pos: position{line: 2861, col: 10, offset: 90627},
+																																	pos: position{line: 2866, col: 10, offset: 90742},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2861, col: 10, offset: 90627},
+																																		pos:        position{line: 2866, col: 10, offset: 90742},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17875,28 +17907,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2883, col: 8, offset: 91025},
+																																pos: position{line: 2888, col: 8, offset: 91140},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2870, col: 12, offset: 90798},
+																																		pos: position{line: 2875, col: 12, offset: 90913},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2870, col: 13, offset: 90799},
+																																			pos: position{line: 2875, col: 13, offset: 90914},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 13, offset: 90799},
+																																					pos:        position{line: 2875, col: 13, offset: 90914},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 20, offset: 90806},
+																																					pos:        position{line: 2875, col: 20, offset: 90921},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 29, offset: 90815},
+																																					pos:        position{line: 2875, col: 29, offset: 90930},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17905,9 +17937,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2880, col: 8, offset: 90975},
+																																		pos: position{line: 2885, col: 8, offset: 91090},
 																																		expr: &anyMatcher{
-																																			line: 2880, col: 9, offset: 90976,
+																																			line: 2885, col: 9, offset: 91091,
 																																		},
 																																	},
 																																},
@@ -17923,9 +17955,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -17941,21 +17973,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26126},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2878, col: 11, offset: 90961},
+																											pos: position{line: 2883, col: 11, offset: 91076},
 																											expr: &anyMatcher{
-																												line: 2878, col: 13, offset: 90963,
+																												line: 2883, col: 13, offset: 91078,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26201},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2807, col: 13, offset: 89153},
+																												pos: position{line: 2812, col: 13, offset: 89268},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2807, col: 13, offset: 89153},
+																													pos: position{line: 2812, col: 13, offset: 89268},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2807, col: 13, offset: 89153},
+																														pos:        position{line: 2812, col: 13, offset: 89268},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17965,28 +17997,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17995,9 +18027,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -18059,10 +18091,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18071,28 +18103,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18101,9 +18133,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -18119,9 +18151,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -18147,10 +18179,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1177, col: 21, offset: 36131},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18252,10 +18284,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1189, col: 28, offset: 36762},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
+																														pos: position{line: 2866, col: 10, offset: 90742},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18402,28 +18434,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18432,9 +18464,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -18514,10 +18546,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18526,28 +18558,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18556,9 +18588,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -18619,10 +18651,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 10, offset: 90627},
+															pos: position{line: 2866, col: 10, offset: 90742},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 10, offset: 90627},
+																pos:        position{line: 2866, col: 10, offset: 90742},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18631,28 +18663,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18661,9 +18693,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -18672,36 +18704,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 22, offset: 79612},
+												pos: position{line: 2476, col: 22, offset: 79727},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2476, col: 31, offset: 79833},
+														pos:        position{line: 2481, col: 31, offset: 79948},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2476, col: 36, offset: 79838},
+														pos: position{line: 2481, col: 36, offset: 79953},
 														expr: &litMatcher{
-															pos:        position{line: 2476, col: 37, offset: 79839},
+															pos:        position{line: 2481, col: 37, offset: 79954},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2471, col: 49, offset: 79639},
+														pos:   position{line: 2476, col: 49, offset: 79754},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2807, col: 13, offset: 89153},
+																pos: position{line: 2812, col: 13, offset: 89268},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2807, col: 13, offset: 89153},
+																	pos:        position{line: 2812, col: 13, offset: 89268},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18711,28 +18743,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18741,9 +18773,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -18797,10 +18829,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23724},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18809,28 +18841,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18839,9 +18871,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -18913,10 +18945,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23724},
 																												expr: &actionExpr{
-																													pos: position{line: 2861, col: 10, offset: 90627},
+																													pos: position{line: 2866, col: 10, offset: 90742},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2861, col: 10, offset: 90627},
+																														pos:        position{line: 2866, col: 10, offset: 90742},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18925,28 +18957,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2883, col: 8, offset: 91025},
+																												pos: position{line: 2888, col: 8, offset: 91140},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2870, col: 12, offset: 90798},
+																														pos: position{line: 2875, col: 12, offset: 90913},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2870, col: 13, offset: 90799},
+																															pos: position{line: 2875, col: 13, offset: 90914},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 13, offset: 90799},
+																																	pos:        position{line: 2875, col: 13, offset: 90914},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 20, offset: 90806},
+																																	pos:        position{line: 2875, col: 20, offset: 90921},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2870, col: 29, offset: 90815},
+																																	pos:        position{line: 2875, col: 29, offset: 90930},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18955,9 +18987,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2880, col: 8, offset: 90975},
+																														pos: position{line: 2885, col: 8, offset: 91090},
 																														expr: &anyMatcher{
-																															line: 2880, col: 9, offset: 90976,
+																															line: 2885, col: 9, offset: 91091,
 																														},
 																													},
 																												},
@@ -18973,9 +19005,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -18991,21 +19023,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26126},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26201},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2807, col: 13, offset: 89153},
+																									pos: position{line: 2812, col: 13, offset: 89268},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2807, col: 13, offset: 89153},
+																										pos:        position{line: 2812, col: 13, offset: 89268},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19015,28 +19047,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19045,9 +19077,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -19109,10 +19141,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23724},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19121,28 +19153,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19151,9 +19183,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -19169,9 +19201,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -19204,12 +19236,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2865, col: 11, offset: 90688},
+							pos: position{line: 2870, col: 11, offset: 90803},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2865, col: 11, offset: 90688},
+								pos: position{line: 2870, col: 11, offset: 90803},
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 11, offset: 90688},
+									pos:        position{line: 2870, col: 11, offset: 90803},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19226,28 +19258,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19256,9 +19288,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -19297,10 +19329,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35535},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19332,10 +19364,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1156, col: 5, offset: 35634},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19367,10 +19399,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1160, col: 5, offset: 35731},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19384,28 +19416,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1273, col: 1, offset: 39460},
+			pos:  position{line: 1278, col: 1, offset: 39564},
 			expr: &actionExpr{
-				pos: position{line: 1274, col: 5, offset: 39481},
+				pos: position{line: 1279, col: 5, offset: 39585},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1274, col: 5, offset: 39481},
+					pos: position{line: 1279, col: 5, offset: 39585},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1274, col: 5, offset: 39481},
+							pos: position{line: 1279, col: 5, offset: 39585},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1277, col: 5, offset: 39540},
+							pos:        position{line: 1282, col: 5, offset: 39644},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1277, col: 12, offset: 39547},
+							pos:   position{line: 1282, col: 12, offset: 39651},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1277, col: 24, offset: 39559},
+								pos:  position{line: 1282, col: 24, offset: 39663},
 								name: "InlineAttributes",
 							},
 						},
@@ -19415,33 +19447,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1284, col: 1, offset: 39847},
+			pos:  position{line: 1289, col: 1, offset: 39951},
 			expr: &actionExpr{
-				pos: position{line: 1285, col: 5, offset: 39866},
+				pos: position{line: 1290, col: 5, offset: 39970},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1285, col: 5, offset: 39866},
+					pos: position{line: 1290, col: 5, offset: 39970},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1285, col: 5, offset: 39866},
+							pos: position{line: 1290, col: 5, offset: 39970},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1288, col: 5, offset: 39925},
+							pos:        position{line: 1293, col: 5, offset: 40029},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 13, offset: 39933},
+							pos:   position{line: 1293, col: 13, offset: 40037},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 7, offset: 90279},
+								pos: position{line: 2851, col: 7, offset: 90394},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2846, col: 7, offset: 90279},
+									pos: position{line: 2851, col: 7, offset: 90394},
 									expr: &charClassMatcher{
-										pos:        position{line: 2846, col: 7, offset: 90279},
+										pos:        position{line: 2851, col: 7, offset: 90394},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19451,10 +19483,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 21, offset: 39941},
+							pos:   position{line: 1293, col: 21, offset: 40045},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1288, col: 33, offset: 39953},
+								pos:  position{line: 1293, col: 33, offset: 40057},
 								name: "InlineAttributes",
 							},
 						},
@@ -19464,29 +19496,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1295, col: 1, offset: 40252},
+			pos:  position{line: 1300, col: 1, offset: 40356},
 			expr: &actionExpr{
-				pos: position{line: 1295, col: 14, offset: 40265},
+				pos: position{line: 1300, col: 14, offset: 40369},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1295, col: 14, offset: 40265},
+					pos: position{line: 1300, col: 14, offset: 40369},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1295, col: 14, offset: 40265},
+							pos:        position{line: 1300, col: 14, offset: 40369},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 19, offset: 40270},
+							pos:   position{line: 1300, col: 19, offset: 40374},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1295, col: 25, offset: 40276},
+								pos:  position{line: 1300, col: 25, offset: 40380},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1295, col: 43, offset: 40294},
+							pos:        position{line: 1300, col: 43, offset: 40398},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19497,25 +19529,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1299, col: 1, offset: 40363},
+			pos:  position{line: 1304, col: 1, offset: 40467},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 21, offset: 40383},
+				pos: position{line: 1304, col: 21, offset: 40487},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1299, col: 21, offset: 40383},
+					pos:   position{line: 1304, col: 21, offset: 40487},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1299, col: 30, offset: 40392},
+						pos: position{line: 1304, col: 30, offset: 40496},
 						expr: &choiceExpr{
-							pos: position{line: 1299, col: 31, offset: 40393},
+							pos: position{line: 1304, col: 31, offset: 40497},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2755, col: 14, offset: 87796},
+									pos: position{line: 2760, col: 14, offset: 87911},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2755, col: 14, offset: 87796},
+										pos: position{line: 2760, col: 14, offset: 87911},
 										expr: &charClassMatcher{
-											pos:        position{line: 2755, col: 14, offset: 87796},
+											pos:        position{line: 2760, col: 14, offset: 87911},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19524,14 +19556,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1299, col: 43, offset: 40405},
+									pos:  position{line: 1304, col: 43, offset: 40509},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2861, col: 10, offset: 90627},
+									pos: position{line: 2866, col: 10, offset: 90742},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 10, offset: 90627},
+										pos:        position{line: 2866, col: 10, offset: 90742},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19539,23 +19571,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2458, col: 5, offset: 79158},
+									pos: position{line: 2463, col: 5, offset: 79273},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2458, col: 5, offset: 79158},
+										pos: position{line: 2463, col: 5, offset: 79273},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2458, col: 5, offset: 79158},
+												pos: position{line: 2463, col: 5, offset: 79273},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2461, col: 5, offset: 79234},
+												pos:   position{line: 2466, col: 5, offset: 79349},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2462, col: 9, offset: 79252},
+													pos: position{line: 2467, col: 9, offset: 79367},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2462, col: 10, offset: 79253},
+														pos:        position{line: 2467, col: 10, offset: 79368},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19606,22 +19638,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1299, col: 104, offset: 40466},
+									pos: position{line: 1304, col: 104, offset: 40570},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1299, col: 105, offset: 40467},
+										pos: position{line: 1304, col: 105, offset: 40571},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1299, col: 105, offset: 40467},
+												pos: position{line: 1304, col: 105, offset: 40571},
 												expr: &litMatcher{
-													pos:        position{line: 1299, col: 106, offset: 40468},
+													pos:        position{line: 1304, col: 106, offset: 40572},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1299, col: 111, offset: 40473,
+												line: 1304, col: 111, offset: 40577,
 											},
 										},
 									},
@@ -19634,65 +19666,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1319, col: 1, offset: 41182},
+			pos:  position{line: 1324, col: 1, offset: 41286},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 5, offset: 41201},
+				pos: position{line: 1325, col: 5, offset: 41305},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 5, offset: 41201},
+					pos: position{line: 1325, col: 5, offset: 41305},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 5, offset: 41201},
+							pos:        position{line: 1325, col: 5, offset: 41305},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 15, offset: 41211},
+							pos:   position{line: 1325, col: 15, offset: 41315},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2819, col: 13, offset: 89386},
+								pos: position{line: 2824, col: 13, offset: 89501},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2819, col: 13, offset: 89386},
+									pos: position{line: 2824, col: 13, offset: 89501},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2819, col: 13, offset: 89386},
+											pos:   position{line: 2824, col: 13, offset: 89501},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2819, col: 20, offset: 89393},
+												pos: position{line: 2824, col: 20, offset: 89508},
 												expr: &actionExpr{
-													pos: position{line: 2827, col: 11, offset: 89632},
+													pos: position{line: 2832, col: 11, offset: 89747},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2827, col: 12, offset: 89633},
+														pos: position{line: 2832, col: 12, offset: 89748},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 12, offset: 89633},
+																pos:        position{line: 2832, col: 12, offset: 89748},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 24, offset: 89645},
+																pos:        position{line: 2832, col: 24, offset: 89760},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 37, offset: 89658},
+																pos:        position{line: 2832, col: 37, offset: 89773},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 48, offset: 89669},
+																pos:        position{line: 2832, col: 48, offset: 89784},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 59, offset: 89680},
+																pos:        position{line: 2832, col: 59, offset: 89795},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19703,38 +19735,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2819, col: 30, offset: 89403},
+											pos:   position{line: 2824, col: 30, offset: 89518},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2832, col: 5, offset: 89744},
+												pos: position{line: 2837, col: 5, offset: 89859},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2832, col: 5, offset: 89744},
+													pos:   position{line: 2837, col: 5, offset: 89859},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2832, col: 14, offset: 89753},
+														pos: position{line: 2837, col: 14, offset: 89868},
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 9, offset: 89763},
+															pos: position{line: 2838, col: 9, offset: 89878},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2833, col: 9, offset: 89763},
+																		pos: position{line: 2838, col: 9, offset: 89878},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				expr: &litMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89764},
+																					pos:        position{line: 2838, col: 10, offset: 89879},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2834, col: 9, offset: 89792},
+																				pos: position{line: 2839, col: 9, offset: 89907},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89793},
+																					pos:        position{line: 2839, col: 10, offset: 89908},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19745,27 +19777,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2837, col: 11, offset: 90005},
+																	pos: position{line: 2842, col: 11, offset: 90120},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2837, col: 11, offset: 90005},
+																			pos:        position{line: 2842, col: 11, offset: 90120},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2837, col: 19, offset: 90013},
+																			pos: position{line: 2842, col: 19, offset: 90128},
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 21, offset: 90015},
+																				pos: position{line: 2842, col: 21, offset: 90130},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19774,11 +19806,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2837, col: 28, offset: 90022},
+																						pos: position{line: 2842, col: 28, offset: 90137},
 																						expr: &notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -20173,10 +20205,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2840, col: 11, offset: 90142},
+																	pos: position{line: 2845, col: 11, offset: 90257},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2840, col: 11, offset: 90142},
+																		pos:        position{line: 2845, col: 11, offset: 90257},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20193,20 +20225,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 31, offset: 41227},
+							pos:   position{line: 1325, col: 31, offset: 41331},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 43, offset: 41239},
+								pos:  position{line: 1325, col: 43, offset: 41343},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1320, col: 61, offset: 41257},
+							pos: position{line: 1325, col: 61, offset: 41361},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20215,28 +20247,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20245,9 +20277,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -20258,74 +20290,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1325, col: 1, offset: 41474},
+			pos:  position{line: 1330, col: 1, offset: 41578},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 16, offset: 41489},
+				pos: position{line: 1330, col: 16, offset: 41593},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 16, offset: 41489},
+					pos: position{line: 1330, col: 16, offset: 41593},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 16, offset: 41489},
+							pos:        position{line: 1330, col: 16, offset: 41593},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1325, col: 25, offset: 41498},
+							pos: position{line: 1330, col: 25, offset: 41602},
 							expr: &litMatcher{
-								pos:        position{line: 1325, col: 26, offset: 41499},
+								pos:        position{line: 1330, col: 26, offset: 41603},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 30, offset: 41503},
+							pos:   position{line: 1330, col: 30, offset: 41607},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2819, col: 13, offset: 89386},
+								pos: position{line: 2824, col: 13, offset: 89501},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2819, col: 13, offset: 89386},
+									pos: position{line: 2824, col: 13, offset: 89501},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2819, col: 13, offset: 89386},
+											pos:   position{line: 2824, col: 13, offset: 89501},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2819, col: 20, offset: 89393},
+												pos: position{line: 2824, col: 20, offset: 89508},
 												expr: &actionExpr{
-													pos: position{line: 2827, col: 11, offset: 89632},
+													pos: position{line: 2832, col: 11, offset: 89747},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2827, col: 12, offset: 89633},
+														pos: position{line: 2832, col: 12, offset: 89748},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2827, col: 12, offset: 89633},
+																pos:        position{line: 2832, col: 12, offset: 89748},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 24, offset: 89645},
+																pos:        position{line: 2832, col: 24, offset: 89760},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 37, offset: 89658},
+																pos:        position{line: 2832, col: 37, offset: 89773},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 48, offset: 89669},
+																pos:        position{line: 2832, col: 48, offset: 89784},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2827, col: 59, offset: 89680},
+																pos:        position{line: 2832, col: 59, offset: 89795},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20336,38 +20368,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2819, col: 30, offset: 89403},
+											pos:   position{line: 2824, col: 30, offset: 89518},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2832, col: 5, offset: 89744},
+												pos: position{line: 2837, col: 5, offset: 89859},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2832, col: 5, offset: 89744},
+													pos:   position{line: 2837, col: 5, offset: 89859},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2832, col: 14, offset: 89753},
+														pos: position{line: 2837, col: 14, offset: 89868},
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 9, offset: 89763},
+															pos: position{line: 2838, col: 9, offset: 89878},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2833, col: 9, offset: 89763},
+																		pos: position{line: 2838, col: 9, offset: 89878},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				expr: &litMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89764},
+																					pos:        position{line: 2838, col: 10, offset: 89879},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2834, col: 9, offset: 89792},
+																				pos: position{line: 2839, col: 9, offset: 89907},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89793},
+																					pos:        position{line: 2839, col: 10, offset: 89908},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20378,27 +20410,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2837, col: 11, offset: 90005},
+																	pos: position{line: 2842, col: 11, offset: 90120},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2837, col: 11, offset: 90005},
+																			pos:        position{line: 2842, col: 11, offset: 90120},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2837, col: 19, offset: 90013},
+																			pos: position{line: 2842, col: 19, offset: 90128},
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 21, offset: 90015},
+																				pos: position{line: 2842, col: 21, offset: 90130},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20407,11 +20439,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2837, col: 28, offset: 90022},
+																						pos: position{line: 2842, col: 28, offset: 90137},
 																						expr: &notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -20806,10 +20838,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2840, col: 11, offset: 90142},
+																	pos: position{line: 2845, col: 11, offset: 90257},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2840, col: 11, offset: 90142},
+																		pos:        position{line: 2845, col: 11, offset: 90257},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20826,10 +20858,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 46, offset: 41519},
+							pos:   position{line: 1330, col: 46, offset: 41623},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 58, offset: 41531},
+								pos:  position{line: 1330, col: 58, offset: 41635},
 								name: "InlineAttributes",
 							},
 						},
@@ -20839,29 +20871,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1332, col: 1, offset: 41927},
+			pos:  position{line: 1337, col: 1, offset: 42031},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 15, offset: 41941},
+				pos: position{line: 1337, col: 15, offset: 42045},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 15, offset: 41941},
+					pos: position{line: 1337, col: 15, offset: 42045},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 15, offset: 41941},
+							pos:        position{line: 1337, col: 15, offset: 42045},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 23, offset: 41949},
+							pos:   position{line: 1337, col: 23, offset: 42053},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1332, col: 29, offset: 41955},
+								pos: position{line: 1337, col: 29, offset: 42059},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1332, col: 29, offset: 41955},
+									pos: position{line: 1337, col: 29, offset: 42059},
 									expr: &charClassMatcher{
-										pos:        position{line: 1332, col: 29, offset: 41955},
+										pos:        position{line: 1337, col: 29, offset: 42059},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20872,10 +20904,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 73, offset: 41999},
+							pos:   position{line: 1337, col: 73, offset: 42103},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 85, offset: 42011},
+								pos:  position{line: 1337, col: 85, offset: 42115},
 								name: "InlineAttributes",
 							},
 						},
@@ -20885,31 +20917,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1339, col: 1, offset: 42377},
+			pos:  position{line: 1344, col: 1, offset: 42481},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 19, offset: 42395},
+				pos: position{line: 1344, col: 19, offset: 42499},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 19, offset: 42395},
+					pos: position{line: 1344, col: 19, offset: 42499},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1339, col: 19, offset: 42395},
+							pos:        position{line: 1344, col: 19, offset: 42499},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 31, offset: 42407},
+							pos:   position{line: 1344, col: 31, offset: 42511},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1339, col: 35, offset: 42411},
+								pos: position{line: 1344, col: 35, offset: 42515},
 								expr: &actionExpr{
-									pos: position{line: 1343, col: 16, offset: 42571},
+									pos: position{line: 1348, col: 16, offset: 42675},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1343, col: 16, offset: 42571},
+										pos: position{line: 1348, col: 16, offset: 42675},
 										expr: &charClassMatcher{
-											pos:        position{line: 1343, col: 16, offset: 42571},
+											pos:        position{line: 1348, col: 16, offset: 42675},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20921,21 +20953,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 50, offset: 42426},
+							pos:        position{line: 1344, col: 50, offset: 42530},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 54, offset: 42430},
+							pos:   position{line: 1344, col: 54, offset: 42534},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1339, col: 64, offset: 42440},
+								pos:  position{line: 1344, col: 64, offset: 42544},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 82, offset: 42458},
+							pos:        position{line: 1344, col: 82, offset: 42562},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20946,17 +20978,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1345, col: 1, offset: 42615},
+			pos:  position{line: 1350, col: 1, offset: 42719},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 21, offset: 42635},
+				pos: position{line: 1350, col: 21, offset: 42739},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1345, col: 21, offset: 42635},
+					pos:   position{line: 1350, col: 21, offset: 42739},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1345, col: 30, offset: 42644},
+						pos: position{line: 1350, col: 30, offset: 42748},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1345, col: 31, offset: 42645},
+							pos:  position{line: 1350, col: 31, offset: 42749},
 							name: "FootnoteElement",
 						},
 					},
@@ -20965,44 +20997,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1349, col: 1, offset: 42737},
+			pos:  position{line: 1354, col: 1, offset: 42841},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 5, offset: 42761},
+				pos: position{line: 1355, col: 5, offset: 42865},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 5, offset: 42761},
+					pos: position{line: 1355, col: 5, offset: 42865},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1350, col: 5, offset: 42761},
+							pos: position{line: 1355, col: 5, offset: 42865},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 6, offset: 42762},
+								pos:        position{line: 1355, col: 6, offset: 42866},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 5, offset: 42771},
+							pos:   position{line: 1356, col: 5, offset: 42875},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1352, col: 9, offset: 42789},
+								pos: position{line: 1357, col: 9, offset: 42893},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87869},
+										pos: position{line: 2765, col: 5, offset: 87984},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87869},
+											pos: position{line: 2765, col: 5, offset: 87984},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87869},
+													pos:   position{line: 2765, col: 5, offset: 87984},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87875},
+														pos: position{line: 2765, col: 11, offset: 87990},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87875},
+															pos: position{line: 2765, col: 11, offset: 87990},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87875},
+																pos:        position{line: 2765, col: 11, offset: 87990},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21012,36 +21044,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87933},
+													pos: position{line: 2768, col: 5, offset: 88048},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87944},
+														pos: position{line: 2769, col: 9, offset: 88059},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87944},
+																pos:        position{line: 2769, col: 9, offset: 88059},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87993},
+																pos: position{line: 2770, col: 9, offset: 88108},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88073},
+													pos: position{line: 2774, col: 5, offset: 88188},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88084},
+														pos: position{line: 2775, col: 9, offset: 88199},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88084},
+																pos:        position{line: 2775, col: 9, offset: 88199},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88088},
+																pos:        position{line: 2775, col: 13, offset: 88203},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21054,12 +21086,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 11, offset: 90688},
+										pos: position{line: 2870, col: 11, offset: 90803},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 11, offset: 90688},
+											pos: position{line: 2870, col: 11, offset: 90803},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90688},
+												pos:        position{line: 2870, col: 11, offset: 90803},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21068,21 +21100,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80329},
+										pos: position{line: 2494, col: 5, offset: 80444},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80329},
+											pos: position{line: 2494, col: 5, offset: 80444},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 5, offset: 80329},
+													pos:        position{line: 2494, col: 5, offset: 80444},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2489, col: 10, offset: 80334},
+													pos: position{line: 2494, col: 10, offset: 80449},
 													expr: &charClassMatcher{
-														pos:        position{line: 2489, col: 11, offset: 80335},
+														pos:        position{line: 2494, col: 11, offset: 80450},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21093,29 +21125,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80527},
+										pos: position{line: 2500, col: 5, offset: 80642},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80527},
+											pos: position{line: 2500, col: 5, offset: 80642},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2495, col: 5, offset: 80527},
+													pos: position{line: 2500, col: 5, offset: 80642},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80598},
+													pos: position{line: 2503, col: 5, offset: 80713},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80723},
+													pos:        position{line: 2507, col: 5, offset: 80838},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 9, offset: 80727},
+													pos: position{line: 2507, col: 9, offset: 80842},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 10, offset: 80728},
+														pos:        position{line: 2507, col: 10, offset: 80843},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21126,35 +21158,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1355, col: 11, offset: 42856},
+										pos:  position{line: 1360, col: 11, offset: 42960},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42872},
+										pos:  position{line: 1361, col: 11, offset: 42976},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88281},
+										pos: position{line: 2783, col: 5, offset: 88396},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88291},
+											pos: position{line: 2784, col: 9, offset: 88406},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88292},
+													pos:        position{line: 2784, col: 10, offset: 88407},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88389},
+													pos: position{line: 2786, col: 13, offset: 88504},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88389},
+															pos: position{line: 2786, col: 13, offset: 88504},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88489},
+															pos:        position{line: 2789, col: 13, offset: 88604},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21162,20 +21194,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88495},
+													pos:        position{line: 2789, col: 19, offset: 88610},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88533},
+													pos: position{line: 2792, col: 13, offset: 88648},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88533},
+															pos: position{line: 2792, col: 13, offset: 88648},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88626},
+															pos:        position{line: 2795, col: 14, offset: 88741},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21184,18 +21216,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88670},
+													pos: position{line: 2797, col: 12, offset: 88785},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88670},
+															pos:        position{line: 2797, col: 12, offset: 88785},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88674},
+															pos: position{line: 2797, col: 16, offset: 88789},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88675},
+																pos:        position{line: 2797, col: 17, offset: 88790},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21207,7 +21239,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1358, col: 11, offset: 42945},
+										pos:  position{line: 1363, col: 11, offset: 43049},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -21233,10 +21265,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1222, col: 5, offset: 37833},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21247,28 +21279,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1222, col: 12, offset: 37840},
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21277,9 +21309,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -21635,23 +21667,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79158},
+										pos: position{line: 2463, col: 5, offset: 79273},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79158},
+													pos: position{line: 2463, col: 5, offset: 79273},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79234},
+													pos:   position{line: 2466, col: 5, offset: 79349},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79252},
+														pos: position{line: 2467, col: 9, offset: 79367},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79253},
+															pos:        position{line: 2467, col: 10, offset: 79368},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21663,25 +21695,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90798},
+										pos: position{line: 2875, col: 12, offset: 90913},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90799},
+											pos: position{line: 2875, col: 13, offset: 90914},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90799},
+													pos:        position{line: 2875, col: 13, offset: 90914},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90806},
+													pos:        position{line: 2875, col: 20, offset: 90921},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90815},
+													pos:        position{line: 2875, col: 29, offset: 90930},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21690,10 +21722,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88935},
+										pos: position{line: 2805, col: 12, offset: 89050},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88935},
+											pos:        position{line: 2805, col: 12, offset: 89050},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21709,32 +21741,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1397, col: 1, offset: 44790},
+			pos:  position{line: 1402, col: 1, offset: 44894},
 			expr: &choiceExpr{
-				pos: position{line: 1397, col: 21, offset: 44810},
+				pos: position{line: 1402, col: 21, offset: 44914},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1397, col: 21, offset: 44810},
+						pos: position{line: 1402, col: 21, offset: 44914},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 21, offset: 44810},
+							pos: position{line: 1402, col: 21, offset: 44914},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 21, offset: 44810},
+									pos:        position{line: 1402, col: 21, offset: 44914},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 30, offset: 44819},
+									pos:   position{line: 1402, col: 30, offset: 44923},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 38, offset: 44827},
+										pos: position{line: 1402, col: 38, offset: 44931},
 										expr: &actionExpr{
-											pos: position{line: 1403, col: 30, offset: 45153},
+											pos: position{line: 1408, col: 30, offset: 45257},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1403, col: 30, offset: 45153},
+												pos:        position{line: 1408, col: 30, offset: 45257},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21744,7 +21776,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 67, offset: 44856},
+									pos:        position{line: 1402, col: 67, offset: 44960},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21753,34 +21785,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1399, col: 9, offset: 44960},
+						pos: position{line: 1404, col: 9, offset: 45064},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1399, col: 9, offset: 44960},
+							pos: position{line: 1404, col: 9, offset: 45064},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1399, col: 9, offset: 44960},
+									pos:        position{line: 1404, col: 9, offset: 45064},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1399, col: 19, offset: 44970},
+									pos:   position{line: 1404, col: 19, offset: 45074},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1399, col: 27, offset: 44978},
+										pos: position{line: 1404, col: 27, offset: 45082},
 										expr: &choiceExpr{
-											pos: position{line: 1399, col: 28, offset: 44979},
+											pos: position{line: 1404, col: 28, offset: 45083},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1399, col: 28, offset: 44979},
+													pos:  position{line: 1404, col: 28, offset: 45083},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1403, col: 30, offset: 45153},
+													pos: position{line: 1408, col: 30, offset: 45257},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1403, col: 30, offset: 45153},
+														pos:        position{line: 1408, col: 30, offset: 45257},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21792,7 +21824,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1399, col: 69, offset: 45020},
+									pos:        position{line: 1404, col: 69, offset: 45124},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21805,75 +21837,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1410, col: 1, offset: 45409},
+			pos:  position{line: 1415, col: 1, offset: 45513},
 			expr: &choiceExpr{
-				pos: position{line: 1410, col: 9, offset: 45417},
+				pos: position{line: 1415, col: 9, offset: 45521},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1413, col: 5, offset: 45486},
+						pos: position{line: 1418, col: 5, offset: 45590},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1413, col: 5, offset: 45486},
+							pos: position{line: 1418, col: 5, offset: 45590},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1413, col: 5, offset: 45486},
+									pos:        position{line: 1418, col: 5, offset: 45590},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1414, col: 5, offset: 45495},
+									pos:   position{line: 1419, col: 5, offset: 45599},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89513},
+										pos: position{line: 2828, col: 23, offset: 89628},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89513},
+											pos: position{line: 2828, col: 23, offset: 89628},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89513},
+													pos: position{line: 2828, col: 23, offset: 89628},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89514},
+														pos:        position{line: 2828, col: 24, offset: 89629},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89518},
+													pos:   position{line: 2828, col: 28, offset: 89633},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89632},
+														pos: position{line: 2832, col: 11, offset: 89747},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89633},
+															pos: position{line: 2832, col: 12, offset: 89748},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89633},
+																	pos:        position{line: 2832, col: 12, offset: 89748},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89645},
+																	pos:        position{line: 2832, col: 24, offset: 89760},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89658},
+																	pos:        position{line: 2832, col: 37, offset: 89773},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89669},
+																	pos:        position{line: 2832, col: 48, offset: 89784},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89680},
+																	pos:        position{line: 2832, col: 59, offset: 89795},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21883,38 +21915,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89534},
+													pos:   position{line: 2828, col: 44, offset: 89649},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21925,27 +21957,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21954,11 +21986,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -22353,10 +22385,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22373,7 +22405,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45714},
+									pos:        position{line: 1424, col: 5, offset: 45818},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22382,38 +22414,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 19, offset: 45427},
+						pos:  position{line: 1415, col: 19, offset: 45531},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 34, offset: 45442},
+						pos:  position{line: 1415, col: 34, offset: 45546},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1448, col: 17, offset: 46707},
+						pos: position{line: 1453, col: 17, offset: 46811},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1448, col: 17, offset: 46707},
+							pos: position{line: 1453, col: 17, offset: 46811},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1448, col: 17, offset: 46707},
+									pos:   position{line: 1453, col: 17, offset: 46811},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1453, col: 5, offset: 46872},
+										pos: position{line: 1458, col: 5, offset: 46976},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1453, col: 5, offset: 46872},
+											pos: position{line: 1458, col: 5, offset: 46976},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1453, col: 5, offset: 46872},
+													pos:   position{line: 1458, col: 5, offset: 46976},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1453, col: 12, offset: 46879},
+														pos: position{line: 1458, col: 12, offset: 46983},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1453, col: 12, offset: 46879},
+															pos: position{line: 1458, col: 12, offset: 46983},
 															expr: &charClassMatcher{
-																pos:        position{line: 1453, col: 12, offset: 46879},
+																pos:        position{line: 1458, col: 12, offset: 46983},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22425,7 +22457,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1456, col: 5, offset: 46963},
+													pos: position{line: 1461, col: 5, offset: 47067},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22433,33 +22465,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 43, offset: 46733},
+									pos:        position{line: 1453, col: 43, offset: 46837},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1448, col: 47, offset: 46737},
+									pos:   position{line: 1453, col: 47, offset: 46841},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1465, col: 23, offset: 47257},
+										pos: position{line: 1470, col: 23, offset: 47361},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1465, col: 23, offset: 47257},
+											pos: position{line: 1470, col: 23, offset: 47361},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1465, col: 23, offset: 47257},
+													pos:   position{line: 1470, col: 23, offset: 47361},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1465, col: 31, offset: 47265},
+														pos: position{line: 1470, col: 31, offset: 47369},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1465, col: 31, offset: 47265},
+															pos: position{line: 1470, col: 31, offset: 47369},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1465, col: 31, offset: 47265},
+																	pos: position{line: 1470, col: 31, offset: 47369},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1465, col: 31, offset: 47265},
+																		pos:        position{line: 1470, col: 31, offset: 47369},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22467,20 +22499,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1465, col: 41, offset: 47275},
+																	pos: position{line: 1470, col: 41, offset: 47379},
 																	expr: &seqExpr{
-																		pos: position{line: 1465, col: 42, offset: 47276},
+																		pos: position{line: 1470, col: 42, offset: 47380},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1465, col: 42, offset: 47276},
+																				pos:        position{line: 1470, col: 42, offset: 47380},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1465, col: 46, offset: 47280},
+																				pos: position{line: 1470, col: 46, offset: 47384},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1465, col: 46, offset: 47280},
+																					pos:        position{line: 1470, col: 46, offset: 47384},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22496,7 +22528,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1468, col: 5, offset: 47341},
+													pos: position{line: 1473, col: 5, offset: 47445},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22511,68 +22543,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1425, col: 1, offset: 45862},
+			pos:  position{line: 1430, col: 1, offset: 45966},
 			expr: &choiceExpr{
-				pos: position{line: 1427, col: 5, offset: 45898},
+				pos: position{line: 1432, col: 5, offset: 46002},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1427, col: 5, offset: 45898},
+						pos: position{line: 1432, col: 5, offset: 46002},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1427, col: 5, offset: 45898},
+							pos: position{line: 1432, col: 5, offset: 46002},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1427, col: 5, offset: 45898},
+									pos:        position{line: 1432, col: 5, offset: 46002},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 17, offset: 45910},
+									pos:   position{line: 1432, col: 17, offset: 46014},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2819, col: 13, offset: 89386},
+										pos: position{line: 2824, col: 13, offset: 89501},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2819, col: 13, offset: 89386},
+											pos: position{line: 2824, col: 13, offset: 89501},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2819, col: 13, offset: 89386},
+													pos:   position{line: 2824, col: 13, offset: 89501},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2819, col: 20, offset: 89393},
+														pos: position{line: 2824, col: 20, offset: 89508},
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 11, offset: 89632},
+															pos: position{line: 2832, col: 11, offset: 89747},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2827, col: 12, offset: 89633},
+																pos: position{line: 2832, col: 12, offset: 89748},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 12, offset: 89633},
+																		pos:        position{line: 2832, col: 12, offset: 89748},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 24, offset: 89645},
+																		pos:        position{line: 2832, col: 24, offset: 89760},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 37, offset: 89658},
+																		pos:        position{line: 2832, col: 37, offset: 89773},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 48, offset: 89669},
+																		pos:        position{line: 2832, col: 48, offset: 89784},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 59, offset: 89680},
+																		pos:        position{line: 2832, col: 59, offset: 89795},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22583,38 +22615,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2819, col: 30, offset: 89403},
+													pos:   position{line: 2824, col: 30, offset: 89518},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22625,27 +22657,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22654,11 +22686,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -23053,10 +23085,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23073,10 +23105,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 32, offset: 45925},
+									pos:   position{line: 1432, col: 32, offset: 46029},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1427, col: 44, offset: 45937},
+										pos:  position{line: 1432, col: 44, offset: 46041},
 										name: "InlineAttributes",
 									},
 								},
@@ -23084,63 +23116,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46069},
+						pos: position{line: 1437, col: 5, offset: 46173},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46069},
+							pos: position{line: 1437, col: 5, offset: 46173},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46069},
+									pos:        position{line: 1437, col: 5, offset: 46173},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 13, offset: 46077},
+									pos:   position{line: 1437, col: 13, offset: 46181},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2819, col: 13, offset: 89386},
+										pos: position{line: 2824, col: 13, offset: 89501},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2819, col: 13, offset: 89386},
+											pos: position{line: 2824, col: 13, offset: 89501},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2819, col: 13, offset: 89386},
+													pos:   position{line: 2824, col: 13, offset: 89501},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2819, col: 20, offset: 89393},
+														pos: position{line: 2824, col: 20, offset: 89508},
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 11, offset: 89632},
+															pos: position{line: 2832, col: 11, offset: 89747},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2827, col: 12, offset: 89633},
+																pos: position{line: 2832, col: 12, offset: 89748},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 12, offset: 89633},
+																		pos:        position{line: 2832, col: 12, offset: 89748},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 24, offset: 89645},
+																		pos:        position{line: 2832, col: 24, offset: 89760},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 37, offset: 89658},
+																		pos:        position{line: 2832, col: 37, offset: 89773},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 48, offset: 89669},
+																		pos:        position{line: 2832, col: 48, offset: 89784},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2827, col: 59, offset: 89680},
+																		pos:        position{line: 2832, col: 59, offset: 89795},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23151,38 +23183,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2819, col: 30, offset: 89403},
+													pos:   position{line: 2824, col: 30, offset: 89518},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23193,27 +23225,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23222,11 +23254,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -23621,10 +23653,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23641,10 +23673,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 28, offset: 46092},
+									pos:   position{line: 1437, col: 28, offset: 46196},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 40, offset: 46104},
+										pos:  position{line: 1437, col: 40, offset: 46208},
 										name: "InlineAttributes",
 									},
 								},
@@ -23656,75 +23688,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1436, col: 1, offset: 46220},
+			pos:  position{line: 1441, col: 1, offset: 46324},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 5, offset: 46382},
+				pos: position{line: 1444, col: 5, offset: 46486},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46382},
+						pos: position{line: 1444, col: 5, offset: 46486},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46382},
+							pos: position{line: 1444, col: 5, offset: 46486},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46382},
+									pos:        position{line: 1444, col: 5, offset: 46486},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 9, offset: 46386},
+									pos:   position{line: 1444, col: 9, offset: 46490},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89513},
+										pos: position{line: 2828, col: 23, offset: 89628},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89513},
+											pos: position{line: 2828, col: 23, offset: 89628},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89513},
+													pos: position{line: 2828, col: 23, offset: 89628},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89514},
+														pos:        position{line: 2828, col: 24, offset: 89629},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89518},
+													pos:   position{line: 2828, col: 28, offset: 89633},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89632},
+														pos: position{line: 2832, col: 11, offset: 89747},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89633},
+															pos: position{line: 2832, col: 12, offset: 89748},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89633},
+																	pos:        position{line: 2832, col: 12, offset: 89748},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89645},
+																	pos:        position{line: 2832, col: 24, offset: 89760},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89658},
+																	pos:        position{line: 2832, col: 37, offset: 89773},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89669},
+																	pos:        position{line: 2832, col: 48, offset: 89784},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89680},
+																	pos:        position{line: 2832, col: 59, offset: 89795},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23734,38 +23766,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89534},
+													pos:   position{line: 2828, col: 44, offset: 89649},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23776,27 +23808,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23805,11 +23837,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -24204,10 +24236,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24224,12 +24256,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 34, offset: 46411},
+									pos:   position{line: 1444, col: 34, offset: 46515},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1439, col: 45, offset: 46422},
+										pos: position{line: 1444, col: 45, offset: 46526},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1439, col: 46, offset: 46423},
+											pos:  position{line: 1444, col: 46, offset: 46527},
 											name: "InlineAttributes",
 										},
 									},
@@ -24238,64 +24270,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46556},
+						pos: position{line: 1449, col: 5, offset: 46660},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46556},
+							pos: position{line: 1449, col: 5, offset: 46660},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1444, col: 5, offset: 46556},
+									pos:   position{line: 1449, col: 5, offset: 46660},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 23, offset: 89513},
+										pos: position{line: 2828, col: 23, offset: 89628},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 23, offset: 89513},
+											pos: position{line: 2828, col: 23, offset: 89628},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2823, col: 23, offset: 89513},
+													pos: position{line: 2828, col: 23, offset: 89628},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 24, offset: 89514},
+														pos:        position{line: 2828, col: 24, offset: 89629},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 28, offset: 89518},
+													pos:   position{line: 2828, col: 28, offset: 89633},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89632},
+														pos: position{line: 2832, col: 11, offset: 89747},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2827, col: 12, offset: 89633},
+															pos: position{line: 2832, col: 12, offset: 89748},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2827, col: 12, offset: 89633},
+																	pos:        position{line: 2832, col: 12, offset: 89748},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 24, offset: 89645},
+																	pos:        position{line: 2832, col: 24, offset: 89760},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 37, offset: 89658},
+																	pos:        position{line: 2832, col: 37, offset: 89773},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 48, offset: 89669},
+																	pos:        position{line: 2832, col: 48, offset: 89784},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2827, col: 59, offset: 89680},
+																	pos:        position{line: 2832, col: 59, offset: 89795},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24305,38 +24337,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 44, offset: 89534},
+													pos:   position{line: 2828, col: 44, offset: 89649},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 5, offset: 89744},
+														pos: position{line: 2837, col: 5, offset: 89859},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2832, col: 5, offset: 89744},
+															pos:   position{line: 2837, col: 5, offset: 89859},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2832, col: 14, offset: 89753},
+																pos: position{line: 2837, col: 14, offset: 89868},
 																expr: &choiceExpr{
-																	pos: position{line: 2833, col: 9, offset: 89763},
+																	pos: position{line: 2838, col: 9, offset: 89878},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2833, col: 9, offset: 89763},
+																			pos: position{line: 2838, col: 9, offset: 89878},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2833, col: 9, offset: 89763},
+																				pos: position{line: 2838, col: 9, offset: 89878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2833, col: 9, offset: 89763},
+																						pos: position{line: 2838, col: 9, offset: 89878},
 																						expr: &litMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89764},
+																							pos:        position{line: 2838, col: 10, offset: 89879},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2834, col: 9, offset: 89792},
+																						pos: position{line: 2839, col: 9, offset: 89907},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89793},
+																							pos:        position{line: 2839, col: 10, offset: 89908},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24347,27 +24379,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2837, col: 11, offset: 90005},
+																			pos: position{line: 2842, col: 11, offset: 90120},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 11, offset: 90005},
+																					pos:        position{line: 2842, col: 11, offset: 90120},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2837, col: 19, offset: 90013},
+																					pos: position{line: 2842, col: 19, offset: 90128},
 																					expr: &seqExpr{
-																						pos: position{line: 2837, col: 21, offset: 90015},
+																						pos: position{line: 2842, col: 21, offset: 90130},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2837, col: 21, offset: 90015},
+																								pos: position{line: 2842, col: 21, offset: 90130},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24376,11 +24408,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2837, col: 28, offset: 90022},
+																								pos: position{line: 2842, col: 28, offset: 90137},
 																								expr: &notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -24775,10 +24807,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2840, col: 11, offset: 90142},
+																			pos: position{line: 2845, col: 11, offset: 90257},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2840, col: 11, offset: 90142},
+																				pos:        position{line: 2845, col: 11, offset: 90257},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24795,12 +24827,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 30, offset: 46581},
+									pos:   position{line: 1449, col: 30, offset: 46685},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 41, offset: 46592},
+										pos: position{line: 1449, col: 41, offset: 46696},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 42, offset: 46593},
+											pos:  position{line: 1449, col: 42, offset: 46697},
 											name: "InlineAttributes",
 										},
 									},
@@ -24813,41 +24845,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1478, col: 1, offset: 47734},
+			pos:  position{line: 1483, col: 1, offset: 47838},
 			expr: &actionExpr{
-				pos: position{line: 1479, col: 5, offset: 47755},
+				pos: position{line: 1484, col: 5, offset: 47859},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1479, col: 5, offset: 47755},
+					pos: position{line: 1484, col: 5, offset: 47859},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1479, col: 5, offset: 47755},
+							pos:   position{line: 1484, col: 5, offset: 47859},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47957},
+								pos: position{line: 1490, col: 5, offset: 48061},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50931},
+										pos: position{line: 1583, col: 5, offset: 51035},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50931},
+											pos: position{line: 1583, col: 5, offset: 51035},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50931},
+													pos:   position{line: 1583, col: 5, offset: 51035},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51139},
+														pos: position{line: 1590, col: 5, offset: 51243},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51139},
+															pos: position{line: 1590, col: 5, offset: 51243},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51139},
+																	pos: position{line: 1590, col: 5, offset: 51243},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24856,27 +24888,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51146},
+																	pos:   position{line: 1590, col: 12, offset: 51250},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51209},
+																		pos: position{line: 1592, col: 9, offset: 51313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51209},
+																				pos: position{line: 1592, col: 9, offset: 51313},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51209},
+																					pos: position{line: 1592, col: 9, offset: 51313},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51209},
+																							pos:   position{line: 1592, col: 9, offset: 51313},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51216},
+																								pos: position{line: 1592, col: 16, offset: 51320},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51216},
+																									pos: position{line: 1592, col: 16, offset: 51320},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51217},
+																										pos:        position{line: 1592, col: 17, offset: 51321},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24885,22 +24917,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51317},
+																							pos: position{line: 1596, col: 9, offset: 51421},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 52034},
+																				pos: position{line: 1615, col: 11, offset: 52138},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 52034},
+																					pos: position{line: 1615, col: 11, offset: 52138},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 52034},
+																							pos: position{line: 1615, col: 11, offset: 52138},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 52035},
+																								pos:        position{line: 1615, col: 12, offset: 52139},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24908,7 +24940,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52043},
+																							pos:        position{line: 1615, col: 20, offset: 52147},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24917,20 +24949,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52160},
+																				pos: position{line: 1617, col: 13, offset: 52264},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52160},
+																					pos: position{line: 1617, col: 13, offset: 52264},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52161},
+																							pos:        position{line: 1617, col: 14, offset: 52265},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52168},
+																							pos:        position{line: 1617, col: 21, offset: 52272},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24939,20 +24971,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52288},
+																				pos: position{line: 1619, col: 13, offset: 52392},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52288},
+																					pos: position{line: 1619, col: 13, offset: 52392},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52289},
+																							pos:        position{line: 1619, col: 14, offset: 52393},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52296},
+																							pos:        position{line: 1619, col: 21, offset: 52400},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24961,15 +24993,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52416},
+																				pos: position{line: 1621, col: 13, offset: 52520},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52416},
+																					pos: position{line: 1621, col: 13, offset: 52520},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52416},
+																							pos: position{line: 1621, col: 13, offset: 52520},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52417},
+																								pos:        position{line: 1621, col: 14, offset: 52521},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24977,7 +25009,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52429},
+																							pos:        position{line: 1621, col: 26, offset: 52533},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24986,15 +25018,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52549},
+																				pos: position{line: 1623, col: 13, offset: 52653},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52549},
+																					pos: position{line: 1623, col: 13, offset: 52653},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52549},
+																							pos: position{line: 1623, col: 13, offset: 52653},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52550},
+																								pos:        position{line: 1623, col: 14, offset: 52654},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25002,7 +25034,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52562},
+																							pos:        position{line: 1623, col: 26, offset: 52666},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25014,12 +25046,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25032,26 +25064,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50970},
+													pos:   position{line: 1584, col: 5, offset: 51074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25062,28 +25094,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25092,9 +25124,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -25107,27 +25139,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52828},
+										pos: position{line: 1633, col: 5, offset: 52932},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52828},
+											pos: position{line: 1633, col: 5, offset: 52932},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52828},
+													pos:   position{line: 1633, col: 5, offset: 52932},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53101},
+														pos: position{line: 1640, col: 5, offset: 53205},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53101},
+															pos: position{line: 1640, col: 5, offset: 53205},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53101},
+																	pos: position{line: 1640, col: 5, offset: 53205},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25136,24 +25168,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53113},
+																	pos:   position{line: 1641, col: 5, offset: 53217},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53129},
+																		pos: position{line: 1642, col: 9, offset: 53233},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53130},
+																			pos: position{line: 1642, col: 10, offset: 53234},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53131},
+																					pos:        position{line: 1642, col: 11, offset: 53235},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53138},
+																					pos: position{line: 1642, col: 18, offset: 53242},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53139},
+																						pos:        position{line: 1642, col: 19, offset: 53243},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25164,16 +25196,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53229},
+																	pos: position{line: 1645, col: 7, offset: 53333},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25186,56 +25218,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52869},
+													pos:   position{line: 1634, col: 5, offset: 52973},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52880},
+														pos: position{line: 1634, col: 16, offset: 52984},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53494},
+															pos: position{line: 1655, col: 5, offset: 53598},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53494},
+																pos: position{line: 1655, col: 5, offset: 53598},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53494},
+																		pos: position{line: 1655, col: 5, offset: 53598},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53495},
+																			pos:        position{line: 1655, col: 6, offset: 53599},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53499},
+																		pos:   position{line: 1655, col: 10, offset: 53603},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53513},
+																			pos: position{line: 1656, col: 7, offset: 53617},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53513},
+																					pos: position{line: 1656, col: 7, offset: 53617},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53513},
+																						pos:        position{line: 1656, col: 7, offset: 53617},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53558},
+																					pos: position{line: 1657, col: 7, offset: 53662},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53558},
+																						pos:        position{line: 1657, col: 7, offset: 53662},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53601},
+																					pos: position{line: 1658, col: 7, offset: 53705},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53601},
+																						pos:        position{line: 1658, col: 7, offset: 53705},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25245,12 +25277,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2865, col: 11, offset: 90688},
+																			pos: position{line: 2870, col: 11, offset: 90803},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90688},
+																				pos:        position{line: 2870, col: 11, offset: 90803},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25264,26 +25296,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52919},
+													pos:   position{line: 1635, col: 5, offset: 53023},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25294,28 +25326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25324,9 +25356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -25339,36 +25371,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55441},
+										pos: position{line: 1723, col: 5, offset: 55545},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55441},
+											pos: position{line: 1723, col: 5, offset: 55545},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55441},
+													pos:   position{line: 1723, col: 5, offset: 55545},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55638},
+														pos: position{line: 1729, col: 5, offset: 55742},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55638},
+															pos: position{line: 1729, col: 5, offset: 55742},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55638},
+																	pos:        position{line: 1729, col: 5, offset: 55742},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55642},
+																	pos:   position{line: 1729, col: 9, offset: 55746},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55647},
+																		pos: position{line: 1729, col: 14, offset: 55751},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55647},
+																			pos: position{line: 1729, col: 14, offset: 55751},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55647},
+																				pos:        position{line: 1729, col: 14, offset: 55751},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25378,18 +25410,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55695},
+																	pos:        position{line: 1729, col: 62, offset: 55799},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25402,26 +25434,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55477},
+													pos:   position{line: 1724, col: 5, offset: 55581},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25432,28 +25464,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25462,9 +25494,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -25477,40 +25509,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53794},
+										pos: position{line: 1667, col: 5, offset: 53898},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53794},
+											pos: position{line: 1667, col: 5, offset: 53898},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53794},
+													pos:   position{line: 1667, col: 5, offset: 53898},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54120},
+														pos: position{line: 1675, col: 5, offset: 54224},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54120},
+															pos: position{line: 1675, col: 5, offset: 54224},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54121},
+																pos: position{line: 1675, col: 6, offset: 54225},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54121},
+																		pos: position{line: 1675, col: 6, offset: 54225},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54271},
+																			pos: position{line: 1680, col: 5, offset: 54375},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54271},
+																				pos: position{line: 1680, col: 5, offset: 54375},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54271},
+																						pos:   position{line: 1680, col: 5, offset: 54375},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54282},
+																							pos: position{line: 1680, col: 16, offset: 54386},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54282},
+																								pos: position{line: 1680, col: 16, offset: 54386},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54283},
+																									pos:        position{line: 1680, col: 17, offset: 54387},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25519,7 +25551,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54340},
+																						pos: position{line: 1683, col: 5, offset: 54444},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25527,30 +25559,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54150},
+																		pos: position{line: 1675, col: 35, offset: 54254},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25559,16 +25591,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54155,
+																		line: 1675, col: 40, offset: 54259,
 																	},
 																},
 															},
@@ -25576,24 +25608,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53829},
+													pos:   position{line: 1668, col: 5, offset: 53933},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54271},
+														pos: position{line: 1680, col: 5, offset: 54375},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54271},
+															pos: position{line: 1680, col: 5, offset: 54375},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54271},
+																	pos:   position{line: 1680, col: 5, offset: 54375},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54282},
+																		pos: position{line: 1680, col: 16, offset: 54386},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54282},
+																			pos: position{line: 1680, col: 16, offset: 54386},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54283},
+																				pos:        position{line: 1680, col: 17, offset: 54387},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25602,7 +25634,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54340},
+																	pos: position{line: 1683, col: 5, offset: 54444},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25610,24 +25642,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53874},
+													pos:   position{line: 1669, col: 5, offset: 53978},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54589},
+														pos: position{line: 1691, col: 5, offset: 54693},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54655},
+																pos: position{line: 1693, col: 9, offset: 54759},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54655},
+																	pos: position{line: 1693, col: 9, offset: 54759},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54655},
+																			pos: position{line: 1693, col: 9, offset: 54759},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25636,28 +25668,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25666,15 +25698,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54674},
+																			pos: position{line: 1694, col: 9, offset: 54778},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21508},
 																				run: (*parser).callonListElements193,
@@ -25682,18 +25714,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21508},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21515},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25702,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25732,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -25747,18 +25779,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54803},
+																pos: position{line: 1700, col: 9, offset: 54907},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54803},
+																	pos: position{line: 1700, col: 9, offset: 54907},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90688},
+																			pos: position{line: 2870, col: 11, offset: 90803},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2865, col: 11, offset: 90688},
+																				pos: position{line: 2870, col: 11, offset: 90803},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90688},
+																					pos:        position{line: 2870, col: 11, offset: 90803},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25767,15 +25799,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54876},
+																			pos:   position{line: 1701, col: 9, offset: 54980},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54885},
+																				pos: position{line: 1701, col: 18, offset: 54989},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54885},
+																					pos: position{line: 1701, col: 18, offset: 54989},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54885},
+																						pos:        position{line: 1701, col: 18, offset: 54989},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25785,28 +25817,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25815,9 +25847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -25835,10 +25867,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1480, col: 5, offset: 47786},
+							pos:   position{line: 1485, col: 5, offset: 47890},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1480, col: 20, offset: 47801},
+								pos:  position{line: 1485, col: 20, offset: 47905},
 								name: "ExtraListElements",
 							},
 						},
@@ -25848,17 +25880,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1490, col: 1, offset: 48056},
+			pos:  position{line: 1495, col: 1, offset: 48160},
 			expr: &actionExpr{
-				pos: position{line: 1490, col: 22, offset: 48077},
+				pos: position{line: 1495, col: 22, offset: 48181},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1490, col: 22, offset: 48077},
+					pos:   position{line: 1495, col: 22, offset: 48181},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1490, col: 31, offset: 48086},
+						pos: position{line: 1495, col: 31, offset: 48190},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1490, col: 32, offset: 48087},
+							pos:  position{line: 1495, col: 32, offset: 48191},
 							name: "ExtraListElement",
 						},
 					},
@@ -25867,33 +25899,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1494, col: 1, offset: 48167},
+			pos:  position{line: 1499, col: 1, offset: 48271},
 			expr: &actionExpr{
-				pos: position{line: 1495, col: 5, offset: 48306},
+				pos: position{line: 1500, col: 5, offset: 48410},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1495, col: 5, offset: 48306},
+					pos: position{line: 1500, col: 5, offset: 48410},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1496, col: 5, offset: 48318},
+							pos:   position{line: 1501, col: 5, offset: 48422},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 9, offset: 48336},
+								pos: position{line: 1502, col: 9, offset: 48440},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1497, col: 13, offset: 48340},
+										pos: position{line: 1502, col: 13, offset: 48444},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1497, col: 13, offset: 48340},
+											pos: position{line: 1502, col: 13, offset: 48444},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1497, col: 13, offset: 48340},
+													pos: position{line: 1502, col: 13, offset: 48444},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21508},
 														run: (*parser).callonExtraListElement10,
@@ -25901,18 +25933,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21508},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2878, col: 11, offset: 90961},
+																	pos: position{line: 2883, col: 11, offset: 91076},
 																	expr: &anyMatcher{
-																		line: 2878, col: 13, offset: 90963,
+																		line: 2883, col: 13, offset: 91078,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21515},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25921,28 +25953,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25951,9 +25983,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -25963,33 +25995,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1498, col: 13, offset: 48364},
+													pos:   position{line: 1503, col: 13, offset: 48468},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1498, col: 22, offset: 48373},
+														pos: position{line: 1503, col: 22, offset: 48477},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50931},
+																pos: position{line: 1583, col: 5, offset: 51035},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50931},
+																	pos: position{line: 1583, col: 5, offset: 51035},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50931},
+																			pos:   position{line: 1583, col: 5, offset: 51035},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51139},
+																				pos: position{line: 1590, col: 5, offset: 51243},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51139},
+																					pos: position{line: 1590, col: 5, offset: 51243},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51139},
+																							pos: position{line: 1590, col: 5, offset: 51243},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25998,27 +26030,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51146},
+																							pos:   position{line: 1590, col: 12, offset: 51250},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51209},
+																								pos: position{line: 1592, col: 9, offset: 51313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51209},
+																										pos: position{line: 1592, col: 9, offset: 51313},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51209},
+																											pos: position{line: 1592, col: 9, offset: 51313},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51209},
+																													pos:   position{line: 1592, col: 9, offset: 51313},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51216},
+																														pos: position{line: 1592, col: 16, offset: 51320},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51216},
+																															pos: position{line: 1592, col: 16, offset: 51320},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51217},
+																																pos:        position{line: 1592, col: 17, offset: 51321},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26027,22 +26059,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51317},
+																													pos: position{line: 1596, col: 9, offset: 51421},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 52034},
+																										pos: position{line: 1615, col: 11, offset: 52138},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 52034},
+																											pos: position{line: 1615, col: 11, offset: 52138},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 52034},
+																													pos: position{line: 1615, col: 11, offset: 52138},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 52035},
+																														pos:        position{line: 1615, col: 12, offset: 52139},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26050,7 +26082,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 52043},
+																													pos:        position{line: 1615, col: 20, offset: 52147},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26059,20 +26091,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52160},
+																										pos: position{line: 1617, col: 13, offset: 52264},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52160},
+																											pos: position{line: 1617, col: 13, offset: 52264},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52161},
+																													pos:        position{line: 1617, col: 14, offset: 52265},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52168},
+																													pos:        position{line: 1617, col: 21, offset: 52272},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26081,20 +26113,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52288},
+																										pos: position{line: 1619, col: 13, offset: 52392},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52288},
+																											pos: position{line: 1619, col: 13, offset: 52392},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52289},
+																													pos:        position{line: 1619, col: 14, offset: 52393},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52296},
+																													pos:        position{line: 1619, col: 21, offset: 52400},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26103,15 +26135,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52416},
+																										pos: position{line: 1621, col: 13, offset: 52520},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52416},
+																											pos: position{line: 1621, col: 13, offset: 52520},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52416},
+																													pos: position{line: 1621, col: 13, offset: 52520},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52417},
+																														pos:        position{line: 1621, col: 14, offset: 52521},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26119,7 +26151,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52429},
+																													pos:        position{line: 1621, col: 26, offset: 52533},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26128,15 +26160,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52549},
+																										pos: position{line: 1623, col: 13, offset: 52653},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52549},
+																											pos: position{line: 1623, col: 13, offset: 52653},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52549},
+																													pos: position{line: 1623, col: 13, offset: 52653},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52550},
+																														pos:        position{line: 1623, col: 14, offset: 52654},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26144,7 +26176,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52562},
+																													pos:        position{line: 1623, col: 26, offset: 52666},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26156,12 +26188,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26174,26 +26206,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50970},
+																			pos:   position{line: 1584, col: 5, offset: 51074},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26204,28 +26236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26234,9 +26266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -26249,27 +26281,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52828},
+																pos: position{line: 1633, col: 5, offset: 52932},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52828},
+																	pos: position{line: 1633, col: 5, offset: 52932},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52828},
+																			pos:   position{line: 1633, col: 5, offset: 52932},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53101},
+																				pos: position{line: 1640, col: 5, offset: 53205},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53101},
+																					pos: position{line: 1640, col: 5, offset: 53205},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53101},
+																							pos: position{line: 1640, col: 5, offset: 53205},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26278,24 +26310,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53113},
+																							pos:   position{line: 1641, col: 5, offset: 53217},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53129},
+																								pos: position{line: 1642, col: 9, offset: 53233},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53130},
+																									pos: position{line: 1642, col: 10, offset: 53234},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53131},
+																											pos:        position{line: 1642, col: 11, offset: 53235},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53138},
+																											pos: position{line: 1642, col: 18, offset: 53242},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53139},
+																												pos:        position{line: 1642, col: 19, offset: 53243},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26306,16 +26338,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53229},
+																							pos: position{line: 1645, col: 7, offset: 53333},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26328,56 +26360,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52869},
+																			pos:   position{line: 1634, col: 5, offset: 52973},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52880},
+																				pos: position{line: 1634, col: 16, offset: 52984},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53494},
+																					pos: position{line: 1655, col: 5, offset: 53598},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53494},
+																						pos: position{line: 1655, col: 5, offset: 53598},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53494},
+																								pos: position{line: 1655, col: 5, offset: 53598},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53495},
+																									pos:        position{line: 1655, col: 6, offset: 53599},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53499},
+																								pos:   position{line: 1655, col: 10, offset: 53603},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53513},
+																									pos: position{line: 1656, col: 7, offset: 53617},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53513},
+																											pos: position{line: 1656, col: 7, offset: 53617},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53513},
+																												pos:        position{line: 1656, col: 7, offset: 53617},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53558},
+																											pos: position{line: 1657, col: 7, offset: 53662},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53558},
+																												pos:        position{line: 1657, col: 7, offset: 53662},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53601},
+																											pos: position{line: 1658, col: 7, offset: 53705},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53601},
+																												pos:        position{line: 1658, col: 7, offset: 53705},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26387,12 +26419,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2865, col: 11, offset: 90688},
+																									pos: position{line: 2870, col: 11, offset: 90803},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 11, offset: 90688},
+																										pos:        position{line: 2870, col: 11, offset: 90803},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26406,26 +26438,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52919},
+																			pos:   position{line: 1635, col: 5, offset: 53023},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26436,28 +26468,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26466,9 +26498,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -26481,36 +26513,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55441},
+																pos: position{line: 1723, col: 5, offset: 55545},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55441},
+																	pos: position{line: 1723, col: 5, offset: 55545},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55441},
+																			pos:   position{line: 1723, col: 5, offset: 55545},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55638},
+																				pos: position{line: 1729, col: 5, offset: 55742},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55638},
+																					pos: position{line: 1729, col: 5, offset: 55742},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55638},
+																							pos:        position{line: 1729, col: 5, offset: 55742},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55642},
+																							pos:   position{line: 1729, col: 9, offset: 55746},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55647},
+																								pos: position{line: 1729, col: 14, offset: 55751},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55647},
+																									pos: position{line: 1729, col: 14, offset: 55751},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55647},
+																										pos:        position{line: 1729, col: 14, offset: 55751},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26520,18 +26552,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55695},
+																							pos:        position{line: 1729, col: 62, offset: 55799},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26544,26 +26576,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55477},
+																			pos:   position{line: 1724, col: 5, offset: 55581},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26574,28 +26606,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26604,9 +26636,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -26619,40 +26651,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53794},
+																pos: position{line: 1667, col: 5, offset: 53898},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53794},
+																	pos: position{line: 1667, col: 5, offset: 53898},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53794},
+																			pos:   position{line: 1667, col: 5, offset: 53898},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54120},
+																				pos: position{line: 1675, col: 5, offset: 54224},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54120},
+																					pos: position{line: 1675, col: 5, offset: 54224},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54121},
+																						pos: position{line: 1675, col: 6, offset: 54225},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54121},
+																								pos: position{line: 1675, col: 6, offset: 54225},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54271},
+																									pos: position{line: 1680, col: 5, offset: 54375},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54271},
+																										pos: position{line: 1680, col: 5, offset: 54375},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54271},
+																												pos:   position{line: 1680, col: 5, offset: 54375},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54282},
+																													pos: position{line: 1680, col: 16, offset: 54386},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54282},
+																														pos: position{line: 1680, col: 16, offset: 54386},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54283},
+																															pos:        position{line: 1680, col: 17, offset: 54387},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26661,7 +26693,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54340},
+																												pos: position{line: 1683, col: 5, offset: 54444},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26669,30 +26701,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54150},
+																								pos: position{line: 1675, col: 35, offset: 54254},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26701,16 +26733,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54155,
+																								line: 1675, col: 40, offset: 54259,
 																							},
 																						},
 																					},
@@ -26718,24 +26750,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53829},
+																			pos:   position{line: 1668, col: 5, offset: 53933},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54271},
+																				pos: position{line: 1680, col: 5, offset: 54375},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54271},
+																					pos: position{line: 1680, col: 5, offset: 54375},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54271},
+																							pos:   position{line: 1680, col: 5, offset: 54375},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54282},
+																								pos: position{line: 1680, col: 16, offset: 54386},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54282},
+																									pos: position{line: 1680, col: 16, offset: 54386},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54283},
+																										pos:        position{line: 1680, col: 17, offset: 54387},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26744,7 +26776,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54340},
+																							pos: position{line: 1683, col: 5, offset: 54444},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26752,24 +26784,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53874},
+																			pos:   position{line: 1669, col: 5, offset: 53978},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54589},
+																				pos: position{line: 1691, col: 5, offset: 54693},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54655},
+																						pos: position{line: 1693, col: 9, offset: 54759},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54655},
+																							pos: position{line: 1693, col: 9, offset: 54759},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54655},
+																									pos: position{line: 1693, col: 9, offset: 54759},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26778,28 +26810,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26808,15 +26840,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54674},
+																									pos: position{line: 1694, col: 9, offset: 54778},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21508},
 																										run: (*parser).callonExtraListElement215,
@@ -26824,18 +26856,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21508},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2878, col: 11, offset: 90961},
+																													pos: position{line: 2883, col: 11, offset: 91076},
 																													expr: &anyMatcher{
-																														line: 2878, col: 13, offset: 90963,
+																														line: 2883, col: 13, offset: 91078,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21515},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
+																														pos: position{line: 2866, col: 10, offset: 90742},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26844,28 +26876,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
+																															pos: position{line: 2875, col: 12, offset: 90913},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26874,9 +26906,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -26889,18 +26921,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54803},
+																						pos: position{line: 1700, col: 9, offset: 54907},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54803},
+																							pos: position{line: 1700, col: 9, offset: 54907},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90688},
+																									pos: position{line: 2870, col: 11, offset: 90803},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90688},
+																										pos: position{line: 2870, col: 11, offset: 90803},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90688},
+																											pos:        position{line: 2870, col: 11, offset: 90803},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26909,15 +26941,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54876},
+																									pos:   position{line: 1701, col: 9, offset: 54980},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54885},
+																										pos: position{line: 1701, col: 18, offset: 54989},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54885},
+																											pos: position{line: 1701, col: 18, offset: 54989},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54885},
+																												pos:        position{line: 1701, col: 18, offset: 54989},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26927,28 +26959,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26957,9 +26989,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -26980,50 +27012,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1501, col: 13, offset: 48524},
+										pos: position{line: 1506, col: 13, offset: 48628},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1501, col: 13, offset: 48524},
+											pos: position{line: 1506, col: 13, offset: 48628},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48524},
+													pos:   position{line: 1506, col: 13, offset: 48628},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1501, col: 24, offset: 48535},
+														pos: position{line: 1506, col: 24, offset: 48639},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1501, col: 25, offset: 48536},
+															pos:  position{line: 1506, col: 25, offset: 48640},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1502, col: 13, offset: 48567},
+													pos:   position{line: 1507, col: 13, offset: 48671},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1502, col: 22, offset: 48576},
+														pos: position{line: 1507, col: 22, offset: 48680},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50931},
+																pos: position{line: 1583, col: 5, offset: 51035},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50931},
+																	pos: position{line: 1583, col: 5, offset: 51035},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50931},
+																			pos:   position{line: 1583, col: 5, offset: 51035},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51139},
+																				pos: position{line: 1590, col: 5, offset: 51243},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51139},
+																					pos: position{line: 1590, col: 5, offset: 51243},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51139},
+																							pos: position{line: 1590, col: 5, offset: 51243},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27032,27 +27064,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51146},
+																							pos:   position{line: 1590, col: 12, offset: 51250},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51209},
+																								pos: position{line: 1592, col: 9, offset: 51313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51209},
+																										pos: position{line: 1592, col: 9, offset: 51313},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51209},
+																											pos: position{line: 1592, col: 9, offset: 51313},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51209},
+																													pos:   position{line: 1592, col: 9, offset: 51313},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51216},
+																														pos: position{line: 1592, col: 16, offset: 51320},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51216},
+																															pos: position{line: 1592, col: 16, offset: 51320},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51217},
+																																pos:        position{line: 1592, col: 17, offset: 51321},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27061,22 +27093,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51317},
+																													pos: position{line: 1596, col: 9, offset: 51421},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 52034},
+																										pos: position{line: 1615, col: 11, offset: 52138},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 52034},
+																											pos: position{line: 1615, col: 11, offset: 52138},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 52034},
+																													pos: position{line: 1615, col: 11, offset: 52138},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 52035},
+																														pos:        position{line: 1615, col: 12, offset: 52139},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27084,7 +27116,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 52043},
+																													pos:        position{line: 1615, col: 20, offset: 52147},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27093,20 +27125,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52160},
+																										pos: position{line: 1617, col: 13, offset: 52264},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52160},
+																											pos: position{line: 1617, col: 13, offset: 52264},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52161},
+																													pos:        position{line: 1617, col: 14, offset: 52265},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52168},
+																													pos:        position{line: 1617, col: 21, offset: 52272},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27115,20 +27147,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52288},
+																										pos: position{line: 1619, col: 13, offset: 52392},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52288},
+																											pos: position{line: 1619, col: 13, offset: 52392},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52289},
+																													pos:        position{line: 1619, col: 14, offset: 52393},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52296},
+																													pos:        position{line: 1619, col: 21, offset: 52400},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27137,15 +27169,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52416},
+																										pos: position{line: 1621, col: 13, offset: 52520},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52416},
+																											pos: position{line: 1621, col: 13, offset: 52520},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52416},
+																													pos: position{line: 1621, col: 13, offset: 52520},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52417},
+																														pos:        position{line: 1621, col: 14, offset: 52521},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27153,7 +27185,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52429},
+																													pos:        position{line: 1621, col: 26, offset: 52533},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27162,15 +27194,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52549},
+																										pos: position{line: 1623, col: 13, offset: 52653},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52549},
+																											pos: position{line: 1623, col: 13, offset: 52653},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52549},
+																													pos: position{line: 1623, col: 13, offset: 52653},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52550},
+																														pos:        position{line: 1623, col: 14, offset: 52654},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27178,7 +27210,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52562},
+																													pos:        position{line: 1623, col: 26, offset: 52666},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27190,12 +27222,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27208,26 +27240,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50970},
+																			pos:   position{line: 1584, col: 5, offset: 51074},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27238,28 +27270,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27268,9 +27300,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -27283,27 +27315,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52828},
+																pos: position{line: 1633, col: 5, offset: 52932},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52828},
+																	pos: position{line: 1633, col: 5, offset: 52932},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52828},
+																			pos:   position{line: 1633, col: 5, offset: 52932},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53101},
+																				pos: position{line: 1640, col: 5, offset: 53205},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53101},
+																					pos: position{line: 1640, col: 5, offset: 53205},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53101},
+																							pos: position{line: 1640, col: 5, offset: 53205},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27312,24 +27344,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53113},
+																							pos:   position{line: 1641, col: 5, offset: 53217},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53129},
+																								pos: position{line: 1642, col: 9, offset: 53233},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53130},
+																									pos: position{line: 1642, col: 10, offset: 53234},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53131},
+																											pos:        position{line: 1642, col: 11, offset: 53235},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53138},
+																											pos: position{line: 1642, col: 18, offset: 53242},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53139},
+																												pos:        position{line: 1642, col: 19, offset: 53243},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27340,16 +27372,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53229},
+																							pos: position{line: 1645, col: 7, offset: 53333},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27362,56 +27394,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52869},
+																			pos:   position{line: 1634, col: 5, offset: 52973},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52880},
+																				pos: position{line: 1634, col: 16, offset: 52984},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53494},
+																					pos: position{line: 1655, col: 5, offset: 53598},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53494},
+																						pos: position{line: 1655, col: 5, offset: 53598},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53494},
+																								pos: position{line: 1655, col: 5, offset: 53598},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53495},
+																									pos:        position{line: 1655, col: 6, offset: 53599},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53499},
+																								pos:   position{line: 1655, col: 10, offset: 53603},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53513},
+																									pos: position{line: 1656, col: 7, offset: 53617},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53513},
+																											pos: position{line: 1656, col: 7, offset: 53617},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53513},
+																												pos:        position{line: 1656, col: 7, offset: 53617},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53558},
+																											pos: position{line: 1657, col: 7, offset: 53662},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53558},
+																												pos:        position{line: 1657, col: 7, offset: 53662},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53601},
+																											pos: position{line: 1658, col: 7, offset: 53705},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53601},
+																												pos:        position{line: 1658, col: 7, offset: 53705},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27421,12 +27453,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2865, col: 11, offset: 90688},
+																									pos: position{line: 2870, col: 11, offset: 90803},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 11, offset: 90688},
+																										pos:        position{line: 2870, col: 11, offset: 90803},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27440,26 +27472,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52919},
+																			pos:   position{line: 1635, col: 5, offset: 53023},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27470,28 +27502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27500,9 +27532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -27515,36 +27547,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55441},
+																pos: position{line: 1723, col: 5, offset: 55545},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55441},
+																	pos: position{line: 1723, col: 5, offset: 55545},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55441},
+																			pos:   position{line: 1723, col: 5, offset: 55545},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55638},
+																				pos: position{line: 1729, col: 5, offset: 55742},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55638},
+																					pos: position{line: 1729, col: 5, offset: 55742},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55638},
+																							pos:        position{line: 1729, col: 5, offset: 55742},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55642},
+																							pos:   position{line: 1729, col: 9, offset: 55746},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55647},
+																								pos: position{line: 1729, col: 14, offset: 55751},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55647},
+																									pos: position{line: 1729, col: 14, offset: 55751},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55647},
+																										pos:        position{line: 1729, col: 14, offset: 55751},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27554,18 +27586,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55695},
+																							pos:        position{line: 1729, col: 62, offset: 55799},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27578,26 +27610,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55477},
+																			pos:   position{line: 1724, col: 5, offset: 55581},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49437},
+																				pos: position{line: 1531, col: 5, offset: 49541},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49437},
+																					pos: position{line: 1531, col: 5, offset: 49541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49437},
+																							pos:   position{line: 1531, col: 5, offset: 49541},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49446},
+																								pos: position{line: 1531, col: 14, offset: 49550},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49447},
+																									pos: position{line: 1531, col: 15, offset: 49551},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49447},
+																										pos: position{line: 1531, col: 15, offset: 49551},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49447},
+																											pos:        position{line: 1531, col: 15, offset: 49551},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27608,28 +27640,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27638,9 +27670,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -27653,40 +27685,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53794},
+																pos: position{line: 1667, col: 5, offset: 53898},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53794},
+																	pos: position{line: 1667, col: 5, offset: 53898},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53794},
+																			pos:   position{line: 1667, col: 5, offset: 53898},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54120},
+																				pos: position{line: 1675, col: 5, offset: 54224},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54120},
+																					pos: position{line: 1675, col: 5, offset: 54224},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54121},
+																						pos: position{line: 1675, col: 6, offset: 54225},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54121},
+																								pos: position{line: 1675, col: 6, offset: 54225},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54271},
+																									pos: position{line: 1680, col: 5, offset: 54375},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54271},
+																										pos: position{line: 1680, col: 5, offset: 54375},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54271},
+																												pos:   position{line: 1680, col: 5, offset: 54375},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54282},
+																													pos: position{line: 1680, col: 16, offset: 54386},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54282},
+																														pos: position{line: 1680, col: 16, offset: 54386},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54283},
+																															pos:        position{line: 1680, col: 17, offset: 54387},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27695,7 +27727,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54340},
+																												pos: position{line: 1683, col: 5, offset: 54444},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27703,30 +27735,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54150},
+																								pos: position{line: 1675, col: 35, offset: 54254},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27735,16 +27767,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54155,
+																								line: 1675, col: 40, offset: 54259,
 																							},
 																						},
 																					},
@@ -27752,24 +27784,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53829},
+																			pos:   position{line: 1668, col: 5, offset: 53933},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54271},
+																				pos: position{line: 1680, col: 5, offset: 54375},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54271},
+																					pos: position{line: 1680, col: 5, offset: 54375},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54271},
+																							pos:   position{line: 1680, col: 5, offset: 54375},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54282},
+																								pos: position{line: 1680, col: 16, offset: 54386},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54282},
+																									pos: position{line: 1680, col: 16, offset: 54386},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54283},
+																										pos:        position{line: 1680, col: 17, offset: 54387},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27778,7 +27810,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54340},
+																							pos: position{line: 1683, col: 5, offset: 54444},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27786,24 +27818,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53874},
+																			pos:   position{line: 1669, col: 5, offset: 53978},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54589},
+																				pos: position{line: 1691, col: 5, offset: 54693},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54655},
+																						pos: position{line: 1693, col: 9, offset: 54759},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54655},
+																							pos: position{line: 1693, col: 9, offset: 54759},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54655},
+																									pos: position{line: 1693, col: 9, offset: 54759},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27812,28 +27844,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27842,15 +27874,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54674},
+																									pos: position{line: 1694, col: 9, offset: 54778},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21508},
 																										run: (*parser).callonExtraListElement442,
@@ -27858,18 +27890,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21508},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2878, col: 11, offset: 90961},
+																													pos: position{line: 2883, col: 11, offset: 91076},
 																													expr: &anyMatcher{
-																														line: 2878, col: 13, offset: 90963,
+																														line: 2883, col: 13, offset: 91078,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21515},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
+																														pos: position{line: 2866, col: 10, offset: 90742},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27878,28 +27910,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
+																															pos: position{line: 2875, col: 12, offset: 90913},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27908,9 +27940,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -27923,18 +27955,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54803},
+																						pos: position{line: 1700, col: 9, offset: 54907},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54803},
+																							pos: position{line: 1700, col: 9, offset: 54907},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90688},
+																									pos: position{line: 2870, col: 11, offset: 90803},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90688},
+																										pos: position{line: 2870, col: 11, offset: 90803},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90688},
+																											pos:        position{line: 2870, col: 11, offset: 90803},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27943,15 +27975,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54876},
+																									pos:   position{line: 1701, col: 9, offset: 54980},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54885},
+																										pos: position{line: 1701, col: 18, offset: 54989},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54885},
+																											pos: position{line: 1701, col: 18, offset: 54989},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54885},
+																												pos:        position{line: 1701, col: 18, offset: 54989},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27961,28 +27993,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27991,9 +28023,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -28014,40 +28046,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1505, col: 11, offset: 48761},
+										pos:  position{line: 1510, col: 11, offset: 48865},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79612},
+										pos: position{line: 2476, col: 22, offset: 79727},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79833},
+													pos:        position{line: 2481, col: 31, offset: 79948},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79838},
+													pos: position{line: 2481, col: 36, offset: 79953},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79839},
+														pos:        position{line: 2481, col: 37, offset: 79954},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79639},
+													pos:   position{line: 2476, col: 49, offset: 79754},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89153},
+														pos: position{line: 2812, col: 13, offset: 89268},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89153},
+																pos:        position{line: 2812, col: 13, offset: 89268},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28057,28 +28089,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28087,9 +28119,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -28098,13 +28130,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 5, offset: 49025},
+										pos: position{line: 1518, col: 5, offset: 49129},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 5, offset: 49025},
+											pos: position{line: 1518, col: 5, offset: 49129},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49025},
+													pos: position{line: 1518, col: 5, offset: 49129},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21508},
 														run: (*parser).callonExtraListElement495,
@@ -28112,18 +28144,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21508},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2878, col: 11, offset: 90961},
+																	pos: position{line: 2883, col: 11, offset: 91076},
 																	expr: &anyMatcher{
-																		line: 2878, col: 13, offset: 90963,
+																		line: 2883, col: 13, offset: 91078,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21515},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28132,28 +28164,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28162,9 +28194,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -28174,23 +28206,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49040},
+													pos: position{line: 1519, col: 5, offset: 49144},
 													expr: &seqExpr{
-														pos: position{line: 1544, col: 27, offset: 49945},
+														pos: position{line: 1549, col: 27, offset: 50049},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1544, col: 27, offset: 49945},
+																pos:        position{line: 1549, col: 27, offset: 50049},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1544, col: 31, offset: 49949},
+																pos: position{line: 1549, col: 31, offset: 50053},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28199,25 +28231,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28229,20 +28261,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49068},
+													pos: position{line: 1520, col: 5, offset: 49172},
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51139},
+														pos: position{line: 1590, col: 5, offset: 51243},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51139},
+															pos: position{line: 1590, col: 5, offset: 51243},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51139},
+																	pos: position{line: 1590, col: 5, offset: 51243},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28251,27 +28283,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51146},
+																	pos:   position{line: 1590, col: 12, offset: 51250},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51209},
+																		pos: position{line: 1592, col: 9, offset: 51313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51209},
+																				pos: position{line: 1592, col: 9, offset: 51313},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51209},
+																					pos: position{line: 1592, col: 9, offset: 51313},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51209},
+																							pos:   position{line: 1592, col: 9, offset: 51313},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51216},
+																								pos: position{line: 1592, col: 16, offset: 51320},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51216},
+																									pos: position{line: 1592, col: 16, offset: 51320},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51217},
+																										pos:        position{line: 1592, col: 17, offset: 51321},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28280,22 +28312,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51317},
+																							pos: position{line: 1596, col: 9, offset: 51421},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 52034},
+																				pos: position{line: 1615, col: 11, offset: 52138},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 52034},
+																					pos: position{line: 1615, col: 11, offset: 52138},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 52034},
+																							pos: position{line: 1615, col: 11, offset: 52138},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 52035},
+																								pos:        position{line: 1615, col: 12, offset: 52139},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28303,7 +28335,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52043},
+																							pos:        position{line: 1615, col: 20, offset: 52147},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28312,20 +28344,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52160},
+																				pos: position{line: 1617, col: 13, offset: 52264},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52160},
+																					pos: position{line: 1617, col: 13, offset: 52264},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52161},
+																							pos:        position{line: 1617, col: 14, offset: 52265},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52168},
+																							pos:        position{line: 1617, col: 21, offset: 52272},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28334,20 +28366,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52288},
+																				pos: position{line: 1619, col: 13, offset: 52392},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52288},
+																					pos: position{line: 1619, col: 13, offset: 52392},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52289},
+																							pos:        position{line: 1619, col: 14, offset: 52393},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52296},
+																							pos:        position{line: 1619, col: 21, offset: 52400},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28356,15 +28388,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52416},
+																				pos: position{line: 1621, col: 13, offset: 52520},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52416},
+																					pos: position{line: 1621, col: 13, offset: 52520},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52416},
+																							pos: position{line: 1621, col: 13, offset: 52520},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52417},
+																								pos:        position{line: 1621, col: 14, offset: 52521},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28372,7 +28404,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52429},
+																							pos:        position{line: 1621, col: 26, offset: 52533},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28381,15 +28413,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52549},
+																				pos: position{line: 1623, col: 13, offset: 52653},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52549},
+																					pos: position{line: 1623, col: 13, offset: 52653},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52549},
+																							pos: position{line: 1623, col: 13, offset: 52653},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52550},
+																								pos:        position{line: 1623, col: 14, offset: 52654},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28397,7 +28429,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52562},
+																							pos:        position{line: 1623, col: 26, offset: 52666},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28409,12 +28441,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28427,20 +28459,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49098},
+													pos: position{line: 1521, col: 5, offset: 49202},
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53101},
+														pos: position{line: 1640, col: 5, offset: 53205},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53101},
+															pos: position{line: 1640, col: 5, offset: 53205},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53101},
+																	pos: position{line: 1640, col: 5, offset: 53205},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28449,24 +28481,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53113},
+																	pos:   position{line: 1641, col: 5, offset: 53217},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53129},
+																		pos: position{line: 1642, col: 9, offset: 53233},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53130},
+																			pos: position{line: 1642, col: 10, offset: 53234},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53131},
+																					pos:        position{line: 1642, col: 11, offset: 53235},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53138},
+																					pos: position{line: 1642, col: 18, offset: 53242},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53139},
+																						pos:        position{line: 1642, col: 19, offset: 53243},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28477,16 +28509,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53229},
+																	pos: position{line: 1645, col: 7, offset: 53333},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28499,29 +28531,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49130},
+													pos: position{line: 1522, col: 5, offset: 49234},
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55638},
+														pos: position{line: 1729, col: 5, offset: 55742},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55638},
+															pos: position{line: 1729, col: 5, offset: 55742},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55638},
+																	pos:        position{line: 1729, col: 5, offset: 55742},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55642},
+																	pos:   position{line: 1729, col: 9, offset: 55746},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55647},
+																		pos: position{line: 1729, col: 14, offset: 55751},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55647},
+																			pos: position{line: 1729, col: 14, offset: 55751},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55647},
+																				pos:        position{line: 1729, col: 14, offset: 55751},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28531,18 +28563,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55695},
+																	pos:        position{line: 1729, col: 62, offset: 55799},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28555,36 +28587,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49160},
+													pos: position{line: 1523, col: 5, offset: 49264},
 													expr: &seqExpr{
-														pos: position{line: 1518, col: 7, offset: 49162},
+														pos: position{line: 1523, col: 7, offset: 49266},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1670, col: 5, offset: 54120},
+																pos: position{line: 1675, col: 5, offset: 54224},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54120},
+																	pos: position{line: 1675, col: 5, offset: 54224},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54121},
+																		pos: position{line: 1675, col: 6, offset: 54225},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54121},
+																				pos: position{line: 1675, col: 6, offset: 54225},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54271},
+																					pos: position{line: 1680, col: 5, offset: 54375},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54271},
+																						pos: position{line: 1680, col: 5, offset: 54375},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54271},
+																								pos:   position{line: 1680, col: 5, offset: 54375},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54282},
+																									pos: position{line: 1680, col: 16, offset: 54386},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54282},
+																										pos: position{line: 1680, col: 16, offset: 54386},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54283},
+																											pos:        position{line: 1680, col: 17, offset: 54387},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28593,7 +28625,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54340},
+																								pos: position{line: 1683, col: 5, offset: 54444},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28601,30 +28633,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54150},
+																				pos: position{line: 1675, col: 35, offset: 54254},
 																				expr: &choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28633,37 +28665,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54155,
+																				line: 1675, col: 40, offset: 54259,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54271},
+																pos: position{line: 1680, col: 5, offset: 54375},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1675, col: 5, offset: 54271},
+																	pos: position{line: 1680, col: 5, offset: 54375},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54271},
+																			pos:   position{line: 1680, col: 5, offset: 54375},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 16, offset: 54282},
+																				pos: position{line: 1680, col: 16, offset: 54386},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 16, offset: 54282},
+																					pos: position{line: 1680, col: 16, offset: 54386},
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 17, offset: 54283},
+																						pos:        position{line: 1680, col: 17, offset: 54387},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28672,20 +28704,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1678, col: 5, offset: 54340},
+																			pos: position{line: 1683, col: 5, offset: 54444},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1518, col: 59, offset: 49214},
+																pos: position{line: 1523, col: 59, offset: 49318},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28693,25 +28725,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28720,9 +28752,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -28731,9 +28763,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49232},
+													pos: position{line: 1524, col: 5, offset: 49336},
 													expr: &choiceExpr{
-														pos: position{line: 1519, col: 7, offset: 49234},
+														pos: position{line: 1524, col: 7, offset: 49338},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 724, col: 5, offset: 23080},
@@ -28744,7 +28776,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 724, col: 5, offset: 23080},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2751, col: 13, offset: 87722},
+																				pos:        position{line: 2756, col: 13, offset: 87837},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28794,10 +28826,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23724},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28806,28 +28838,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28836,9 +28868,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -28883,10 +28915,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 749, col: 8, offset: 23972},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28895,28 +28927,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28925,9 +28957,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -28968,10 +29000,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 760, col: 52, offset: 24384},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28980,28 +29012,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29010,9 +29042,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29057,10 +29089,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 756, col: 8, offset: 24218},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29069,28 +29101,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29099,9 +29131,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29146,10 +29178,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 771, col: 8, offset: 24756},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29158,28 +29190,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29188,9 +29220,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29235,10 +29267,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 785, col: 8, offset: 25232},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29247,28 +29279,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29277,9 +29309,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29324,10 +29356,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 792, col: 8, offset: 25484},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29336,28 +29368,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29366,9 +29398,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29413,10 +29445,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 799, col: 8, offset: 25734},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29425,28 +29457,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29455,9 +29487,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29502,10 +29534,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 806, col: 8, offset: 25980},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29514,28 +29546,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29544,9 +29576,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -29583,10 +29615,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 778, col: 8, offset: 24987},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29595,28 +29627,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29625,9 +29657,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -29636,21 +29668,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2603, col: 19, offset: 83310},
+																pos: position{line: 2608, col: 19, offset: 83425},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2603, col: 19, offset: 83310},
+																		pos:        position{line: 2608, col: 19, offset: 83425},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2603, col: 26, offset: 83317},
+																		pos: position{line: 2608, col: 26, offset: 83432},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29659,28 +29691,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29689,9 +29721,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -29702,15 +29734,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 5, offset: 49292},
+													pos:   position{line: 1525, col: 5, offset: 49396},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 14, offset: 89220},
+														pos: position{line: 2816, col: 14, offset: 89335},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2811, col: 14, offset: 89220},
+															pos: position{line: 2816, col: 14, offset: 89335},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 14, offset: 89220},
+																pos:        position{line: 2816, col: 14, offset: 89335},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29720,28 +29752,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29750,9 +29782,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -29769,28 +29801,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1536, col: 1, offset: 49683},
+			pos:  position{line: 1541, col: 1, offset: 49787},
 			expr: &actionExpr{
-				pos: position{line: 1537, col: 5, offset: 49708},
+				pos: position{line: 1542, col: 5, offset: 49812},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1537, col: 5, offset: 49708},
+					pos: position{line: 1542, col: 5, offset: 49812},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49708},
+							pos:   position{line: 1542, col: 5, offset: 49812},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1537, col: 12, offset: 49715},
+								pos: position{line: 1542, col: 12, offset: 49819},
 								expr: &seqExpr{
-									pos: position{line: 1537, col: 13, offset: 49716},
+									pos: position{line: 1542, col: 13, offset: 49820},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1537, col: 13, offset: 49716},
+											pos: position{line: 1542, col: 13, offset: 49820},
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 10, offset: 90627},
+												pos: position{line: 2866, col: 10, offset: 90742},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2861, col: 10, offset: 90627},
+													pos:        position{line: 2866, col: 10, offset: 90742},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29799,25 +29831,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2870, col: 12, offset: 90798},
+											pos: position{line: 2875, col: 12, offset: 90913},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2870, col: 13, offset: 90799},
+												pos: position{line: 2875, col: 13, offset: 90914},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2870, col: 13, offset: 90799},
+														pos:        position{line: 2875, col: 13, offset: 90914},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2870, col: 20, offset: 90806},
+														pos:        position{line: 2875, col: 20, offset: 90921},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2870, col: 29, offset: 90815},
+														pos:        position{line: 2875, col: 29, offset: 90930},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29830,18 +29862,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1538, col: 5, offset: 49738},
+							pos:        position{line: 1543, col: 5, offset: 49842},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1538, col: 9, offset: 49742},
+							pos: position{line: 1543, col: 9, offset: 49846},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29850,28 +29882,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29880,26 +29912,26 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49757},
+							pos:   position{line: 1544, col: 5, offset: 49861},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1539, col: 13, offset: 49765},
+								pos: position{line: 1544, col: 13, offset: 49869},
 								expr: &actionExpr{
-									pos: position{line: 1539, col: 14, offset: 49766},
+									pos: position{line: 1544, col: 14, offset: 49870},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1539, col: 14, offset: 49766},
+										pos: position{line: 1544, col: 14, offset: 49870},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1539, col: 14, offset: 49766},
+												pos: position{line: 1544, col: 14, offset: 49870},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21508},
 													run: (*parser).callonListContinuation31,
@@ -29907,18 +29939,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29927,28 +29959,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29957,9 +29989,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -29969,10 +30001,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1539, col: 25, offset: 49777},
+												pos:   position{line: 1544, col: 25, offset: 49881},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1539, col: 27, offset: 49779},
+													pos:  position{line: 1544, col: 27, offset: 49883},
 													name: "ListContinuationElement",
 												},
 											},
@@ -29987,46 +30019,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1546, col: 1, offset: 49965},
+			pos:  position{line: 1551, col: 1, offset: 50069},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 50011},
+				pos: position{line: 1552, col: 5, offset: 50115},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 50011},
+					pos: position{line: 1552, col: 5, offset: 50115},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1548, col: 5, offset: 50039},
+							pos: position{line: 1553, col: 5, offset: 50143},
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47957},
+								pos: position{line: 1490, col: 5, offset: 48061},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50931},
+										pos: position{line: 1583, col: 5, offset: 51035},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50931},
+											pos: position{line: 1583, col: 5, offset: 51035},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50931},
+													pos:   position{line: 1583, col: 5, offset: 51035},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51139},
+														pos: position{line: 1590, col: 5, offset: 51243},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51139},
+															pos: position{line: 1590, col: 5, offset: 51243},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51139},
+																	pos: position{line: 1590, col: 5, offset: 51243},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30035,27 +30067,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51146},
+																	pos:   position{line: 1590, col: 12, offset: 51250},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51209},
+																		pos: position{line: 1592, col: 9, offset: 51313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51209},
+																				pos: position{line: 1592, col: 9, offset: 51313},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51209},
+																					pos: position{line: 1592, col: 9, offset: 51313},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51209},
+																							pos:   position{line: 1592, col: 9, offset: 51313},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51216},
+																								pos: position{line: 1592, col: 16, offset: 51320},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51216},
+																									pos: position{line: 1592, col: 16, offset: 51320},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51217},
+																										pos:        position{line: 1592, col: 17, offset: 51321},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30064,22 +30096,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51317},
+																							pos: position{line: 1596, col: 9, offset: 51421},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 52034},
+																				pos: position{line: 1615, col: 11, offset: 52138},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 52034},
+																					pos: position{line: 1615, col: 11, offset: 52138},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 52034},
+																							pos: position{line: 1615, col: 11, offset: 52138},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 52035},
+																								pos:        position{line: 1615, col: 12, offset: 52139},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30087,7 +30119,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 52043},
+																							pos:        position{line: 1615, col: 20, offset: 52147},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30096,20 +30128,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52160},
+																				pos: position{line: 1617, col: 13, offset: 52264},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52160},
+																					pos: position{line: 1617, col: 13, offset: 52264},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52161},
+																							pos:        position{line: 1617, col: 14, offset: 52265},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52168},
+																							pos:        position{line: 1617, col: 21, offset: 52272},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30118,20 +30150,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52288},
+																				pos: position{line: 1619, col: 13, offset: 52392},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52288},
+																					pos: position{line: 1619, col: 13, offset: 52392},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52289},
+																							pos:        position{line: 1619, col: 14, offset: 52393},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52296},
+																							pos:        position{line: 1619, col: 21, offset: 52400},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30140,15 +30172,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52416},
+																				pos: position{line: 1621, col: 13, offset: 52520},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52416},
+																					pos: position{line: 1621, col: 13, offset: 52520},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52416},
+																							pos: position{line: 1621, col: 13, offset: 52520},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52417},
+																								pos:        position{line: 1621, col: 14, offset: 52521},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30156,7 +30188,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52429},
+																							pos:        position{line: 1621, col: 26, offset: 52533},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30165,15 +30197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52549},
+																				pos: position{line: 1623, col: 13, offset: 52653},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52549},
+																					pos: position{line: 1623, col: 13, offset: 52653},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52549},
+																							pos: position{line: 1623, col: 13, offset: 52653},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52550},
+																								pos:        position{line: 1623, col: 14, offset: 52654},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30181,7 +30213,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52562},
+																							pos:        position{line: 1623, col: 26, offset: 52666},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30193,12 +30225,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30211,26 +30243,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50970},
+													pos:   position{line: 1584, col: 5, offset: 51074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30241,28 +30273,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30271,9 +30303,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -30286,27 +30318,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52828},
+										pos: position{line: 1633, col: 5, offset: 52932},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52828},
+											pos: position{line: 1633, col: 5, offset: 52932},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52828},
+													pos:   position{line: 1633, col: 5, offset: 52932},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53101},
+														pos: position{line: 1640, col: 5, offset: 53205},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53101},
+															pos: position{line: 1640, col: 5, offset: 53205},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53101},
+																	pos: position{line: 1640, col: 5, offset: 53205},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30315,24 +30347,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53113},
+																	pos:   position{line: 1641, col: 5, offset: 53217},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53129},
+																		pos: position{line: 1642, col: 9, offset: 53233},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53130},
+																			pos: position{line: 1642, col: 10, offset: 53234},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53131},
+																					pos:        position{line: 1642, col: 11, offset: 53235},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53138},
+																					pos: position{line: 1642, col: 18, offset: 53242},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53139},
+																						pos:        position{line: 1642, col: 19, offset: 53243},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30343,16 +30375,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53229},
+																	pos: position{line: 1645, col: 7, offset: 53333},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30365,56 +30397,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52869},
+													pos:   position{line: 1634, col: 5, offset: 52973},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52880},
+														pos: position{line: 1634, col: 16, offset: 52984},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53494},
+															pos: position{line: 1655, col: 5, offset: 53598},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53494},
+																pos: position{line: 1655, col: 5, offset: 53598},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53494},
+																		pos: position{line: 1655, col: 5, offset: 53598},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53495},
+																			pos:        position{line: 1655, col: 6, offset: 53599},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53499},
+																		pos:   position{line: 1655, col: 10, offset: 53603},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53513},
+																			pos: position{line: 1656, col: 7, offset: 53617},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53513},
+																					pos: position{line: 1656, col: 7, offset: 53617},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53513},
+																						pos:        position{line: 1656, col: 7, offset: 53617},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53558},
+																					pos: position{line: 1657, col: 7, offset: 53662},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53558},
+																						pos:        position{line: 1657, col: 7, offset: 53662},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53601},
+																					pos: position{line: 1658, col: 7, offset: 53705},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53601},
+																						pos:        position{line: 1658, col: 7, offset: 53705},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30424,12 +30456,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2865, col: 11, offset: 90688},
+																			pos: position{line: 2870, col: 11, offset: 90803},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90688},
+																				pos:        position{line: 2870, col: 11, offset: 90803},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30443,26 +30475,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52919},
+													pos:   position{line: 1635, col: 5, offset: 53023},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30473,28 +30505,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30503,9 +30535,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -30518,36 +30550,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55441},
+										pos: position{line: 1723, col: 5, offset: 55545},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55441},
+											pos: position{line: 1723, col: 5, offset: 55545},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55441},
+													pos:   position{line: 1723, col: 5, offset: 55545},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55638},
+														pos: position{line: 1729, col: 5, offset: 55742},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55638},
+															pos: position{line: 1729, col: 5, offset: 55742},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55638},
+																	pos:        position{line: 1729, col: 5, offset: 55742},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55642},
+																	pos:   position{line: 1729, col: 9, offset: 55746},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55647},
+																		pos: position{line: 1729, col: 14, offset: 55751},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55647},
+																			pos: position{line: 1729, col: 14, offset: 55751},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55647},
+																				pos:        position{line: 1729, col: 14, offset: 55751},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30557,18 +30589,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55695},
+																	pos:        position{line: 1729, col: 62, offset: 55799},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30581,26 +30613,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55477},
+													pos:   position{line: 1724, col: 5, offset: 55581},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49437},
+														pos: position{line: 1531, col: 5, offset: 49541},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49437},
+															pos: position{line: 1531, col: 5, offset: 49541},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49437},
+																	pos:   position{line: 1531, col: 5, offset: 49541},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49446},
+																		pos: position{line: 1531, col: 14, offset: 49550},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49447},
+																			pos: position{line: 1531, col: 15, offset: 49551},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49447},
+																				pos: position{line: 1531, col: 15, offset: 49551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49447},
+																					pos:        position{line: 1531, col: 15, offset: 49551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30611,28 +30643,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30641,9 +30673,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -30656,40 +30688,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53794},
+										pos: position{line: 1667, col: 5, offset: 53898},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53794},
+											pos: position{line: 1667, col: 5, offset: 53898},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53794},
+													pos:   position{line: 1667, col: 5, offset: 53898},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54120},
+														pos: position{line: 1675, col: 5, offset: 54224},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54120},
+															pos: position{line: 1675, col: 5, offset: 54224},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54121},
+																pos: position{line: 1675, col: 6, offset: 54225},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54121},
+																		pos: position{line: 1675, col: 6, offset: 54225},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54271},
+																			pos: position{line: 1680, col: 5, offset: 54375},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54271},
+																				pos: position{line: 1680, col: 5, offset: 54375},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54271},
+																						pos:   position{line: 1680, col: 5, offset: 54375},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54282},
+																							pos: position{line: 1680, col: 16, offset: 54386},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54282},
+																								pos: position{line: 1680, col: 16, offset: 54386},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54283},
+																									pos:        position{line: 1680, col: 17, offset: 54387},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30698,7 +30730,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54340},
+																						pos: position{line: 1683, col: 5, offset: 54444},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30706,30 +30738,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54150},
+																		pos: position{line: 1675, col: 35, offset: 54254},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30738,16 +30770,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54155,
+																		line: 1675, col: 40, offset: 54259,
 																	},
 																},
 															},
@@ -30755,24 +30787,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53829},
+													pos:   position{line: 1668, col: 5, offset: 53933},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54271},
+														pos: position{line: 1680, col: 5, offset: 54375},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54271},
+															pos: position{line: 1680, col: 5, offset: 54375},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54271},
+																	pos:   position{line: 1680, col: 5, offset: 54375},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54282},
+																		pos: position{line: 1680, col: 16, offset: 54386},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54282},
+																			pos: position{line: 1680, col: 16, offset: 54386},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54283},
+																				pos:        position{line: 1680, col: 17, offset: 54387},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30781,7 +30813,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54340},
+																	pos: position{line: 1683, col: 5, offset: 54444},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30789,24 +30821,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53874},
+													pos:   position{line: 1669, col: 5, offset: 53978},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54589},
+														pos: position{line: 1691, col: 5, offset: 54693},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54655},
+																pos: position{line: 1693, col: 9, offset: 54759},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54655},
+																	pos: position{line: 1693, col: 9, offset: 54759},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54655},
+																			pos: position{line: 1693, col: 9, offset: 54759},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30815,28 +30847,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30845,15 +30877,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54674},
+																			pos: position{line: 1694, col: 9, offset: 54778},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21508},
 																				run: (*parser).callonListContinuationElement195,
@@ -30861,18 +30893,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21508},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2878, col: 11, offset: 90961},
+																							pos: position{line: 2883, col: 11, offset: 91076},
 																							expr: &anyMatcher{
-																								line: 2878, col: 13, offset: 90963,
+																								line: 2883, col: 13, offset: 91078,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21515},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30881,28 +30913,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30911,9 +30943,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -30926,18 +30958,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54803},
+																pos: position{line: 1700, col: 9, offset: 54907},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54803},
+																	pos: position{line: 1700, col: 9, offset: 54907},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90688},
+																			pos: position{line: 2870, col: 11, offset: 90803},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2865, col: 11, offset: 90688},
+																				pos: position{line: 2870, col: 11, offset: 90803},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90688},
+																					pos:        position{line: 2870, col: 11, offset: 90803},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30946,15 +30978,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54876},
+																			pos:   position{line: 1701, col: 9, offset: 54980},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54885},
+																				pos: position{line: 1701, col: 18, offset: 54989},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54885},
+																					pos: position{line: 1701, col: 18, offset: 54989},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54885},
+																						pos:        position{line: 1701, col: 18, offset: 54989},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30964,28 +30996,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30994,9 +31026,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -31014,21 +31046,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 50056},
+							pos:   position{line: 1554, col: 5, offset: 50160},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1549, col: 16, offset: 50067},
+								pos: position{line: 1554, col: 16, offset: 50171},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1549, col: 17, offset: 50068},
+									pos:  position{line: 1554, col: 17, offset: 50172},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50090},
+							pos:   position{line: 1555, col: 5, offset: 50194},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1551, col: 9, offset: 50108},
+								pos: position{line: 1556, col: 9, offset: 50212},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21508},
@@ -31037,18 +31069,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21508},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2878, col: 11, offset: 90961},
+													pos: position{line: 2883, col: 11, offset: 91076},
 													expr: &anyMatcher{
-														line: 2878, col: 13, offset: 90963,
+														line: 2883, col: 13, offset: 91078,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21515},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31057,28 +31089,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31087,9 +31119,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -31098,7 +31130,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1552, col: 11, offset: 50128},
+										pos:  position{line: 1557, col: 11, offset: 50232},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31154,10 +31186,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31166,28 +31198,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31196,9 +31228,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -31259,10 +31291,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31271,28 +31303,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31301,9 +31333,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -31357,10 +31389,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23724},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31369,28 +31401,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31399,9 +31431,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -31473,10 +31505,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23724},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31485,28 +31517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31515,9 +31547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -31533,9 +31565,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -31551,21 +31583,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31575,28 +31607,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31605,9 +31637,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -31669,10 +31701,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23724},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31681,28 +31713,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31711,9 +31743,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -31729,9 +31761,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -31786,10 +31818,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23972},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31798,28 +31830,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31828,9 +31860,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -31902,10 +31934,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23972},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31914,28 +31946,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31944,9 +31976,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -31962,9 +31994,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -31980,21 +32012,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32004,28 +32036,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32034,9 +32066,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -32101,10 +32133,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23972},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32113,28 +32145,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32143,9 +32175,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -32161,9 +32193,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -32215,10 +32247,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24384},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32227,28 +32259,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32257,9 +32289,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -32293,10 +32325,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 971, col: 40, offset: 30393},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32305,28 +32337,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32335,9 +32367,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -32355,21 +32387,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32379,28 +32411,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32409,9 +32441,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -32439,10 +32471,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 971, col: 40, offset: 30393},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32451,28 +32483,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32481,9 +32513,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -32540,10 +32572,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24218},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32552,28 +32584,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32582,9 +32614,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -32656,10 +32688,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24218},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32668,28 +32700,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32698,9 +32730,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -32716,9 +32748,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -32734,21 +32766,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32758,28 +32790,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32788,9 +32820,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -32855,10 +32887,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24218},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32867,28 +32899,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32897,9 +32929,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -32915,9 +32947,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -32973,10 +33005,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24756},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32985,28 +33017,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33015,9 +33047,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -33089,10 +33121,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24756},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33101,28 +33133,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33131,9 +33163,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -33149,9 +33181,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -33167,21 +33199,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33191,28 +33223,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33221,9 +33253,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -33288,10 +33320,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24756},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33300,28 +33332,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33330,9 +33362,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -33348,9 +33380,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -33406,10 +33438,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25232},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33418,28 +33450,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33448,9 +33480,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -33522,10 +33554,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25232},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33534,28 +33566,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33564,9 +33596,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -33582,9 +33614,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -33600,21 +33632,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33624,28 +33656,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33654,9 +33686,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -33721,10 +33753,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25232},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33733,28 +33765,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33763,9 +33795,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -33781,9 +33813,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -33817,18 +33849,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90961},
+																					pos: position{line: 2883, col: 11, offset: 91076},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90963,
+																						line: 2883, col: 13, offset: 91078,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
+																						pos: position{line: 2866, col: 10, offset: 90742},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33837,28 +33869,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33867,9 +33899,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -33888,12 +33920,12 @@ var g = &grammar{
 																	pos:   position{line: 992, col: 5, offset: 30928},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2811, col: 14, offset: 89220},
+																		pos: position{line: 2816, col: 14, offset: 89335},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2811, col: 14, offset: 89220},
+																			pos: position{line: 2816, col: 14, offset: 89335},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2811, col: 14, offset: 89220},
+																				pos:        position{line: 2816, col: 14, offset: 89335},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33903,28 +33935,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33933,9 +33965,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -33967,18 +33999,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21508},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2878, col: 11, offset: 90961},
+																								pos: position{line: 2883, col: 11, offset: 91076},
 																								expr: &anyMatcher{
-																									line: 2878, col: 13, offset: 90963,
+																									line: 2883, col: 13, offset: 91078,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21515},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33987,28 +34019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34017,9 +34049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -34038,12 +34070,12 @@ var g = &grammar{
 																				pos:   position{line: 992, col: 5, offset: 30928},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2811, col: 14, offset: 89220},
+																					pos: position{line: 2816, col: 14, offset: 89335},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2811, col: 14, offset: 89220},
+																						pos: position{line: 2816, col: 14, offset: 89335},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2811, col: 14, offset: 89220},
+																							pos:        position{line: 2816, col: 14, offset: 89335},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34053,28 +34085,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 91025},
+																				pos: position{line: 2888, col: 8, offset: 91140},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90798},
+																						pos: position{line: 2875, col: 12, offset: 90913},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90799},
+																							pos: position{line: 2875, col: 13, offset: 90914},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90799},
+																									pos:        position{line: 2875, col: 13, offset: 90914},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90806},
+																									pos:        position{line: 2875, col: 20, offset: 90921},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90815},
+																									pos:        position{line: 2875, col: 29, offset: 90930},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34083,9 +34115,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -34094,21 +34126,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1793, col: 5, offset: 57993},
+																	pos: position{line: 1798, col: 5, offset: 58111},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1793, col: 5, offset: 57993},
+																		pos: position{line: 1798, col: 5, offset: 58111},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1793, col: 5, offset: 57993},
+																				pos:   position{line: 1798, col: 5, offset: 58111},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2811, col: 14, offset: 89220},
+																					pos: position{line: 2816, col: 14, offset: 89335},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2811, col: 14, offset: 89220},
+																						pos: position{line: 2816, col: 14, offset: 89335},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2811, col: 14, offset: 89220},
+																							pos:        position{line: 2816, col: 14, offset: 89335},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34118,32 +34150,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1794, col: 5, offset: 58017},
+																				pos: position{line: 1799, col: 5, offset: 58135},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 91025},
+																				pos: position{line: 2888, col: 8, offset: 91140},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90798},
+																						pos: position{line: 2875, col: 12, offset: 90913},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90799},
+																							pos: position{line: 2875, col: 13, offset: 90914},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90799},
+																									pos:        position{line: 2875, col: 13, offset: 90914},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90806},
+																									pos:        position{line: 2875, col: 20, offset: 90921},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90815},
+																									pos:        position{line: 2875, col: 29, offset: 90930},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34152,9 +34184,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -34201,10 +34233,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24987},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34213,28 +34245,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34243,9 +34275,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -34293,10 +34325,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24987},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
+																									pos: position{line: 2866, col: 10, offset: 90742},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34305,28 +34337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
+																										pos: position{line: 2875, col: 12, offset: 90913},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34335,9 +34367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -34346,9 +34378,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -34364,21 +34396,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34388,28 +34420,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34418,9 +34450,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -34465,10 +34497,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24987},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90627},
+																					pos: position{line: 2866, col: 10, offset: 90742},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90627},
+																						pos:        position{line: 2866, col: 10, offset: 90742},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34477,28 +34509,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 91025},
+																				pos: position{line: 2888, col: 8, offset: 91140},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90798},
+																						pos: position{line: 2875, col: 12, offset: 90913},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90799},
+																							pos: position{line: 2875, col: 13, offset: 90914},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90799},
+																									pos:        position{line: 2875, col: 13, offset: 90914},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90806},
+																									pos:        position{line: 2875, col: 20, offset: 90921},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90815},
+																									pos:        position{line: 2875, col: 29, offset: 90930},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34507,9 +34539,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -34518,9 +34550,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -34576,10 +34608,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25484},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34588,28 +34620,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34618,9 +34650,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -34692,10 +34724,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25484},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34704,28 +34736,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34734,9 +34766,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -34752,9 +34784,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -34770,21 +34802,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34794,28 +34826,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34824,9 +34856,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -34891,10 +34923,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25484},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34903,28 +34935,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34933,9 +34965,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -34951,9 +34983,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -35009,10 +35041,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25734},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35021,28 +35053,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35051,9 +35083,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -35125,10 +35157,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25734},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35137,28 +35169,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35167,9 +35199,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -35185,9 +35217,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -35203,21 +35235,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35227,28 +35259,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35257,9 +35289,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -35324,10 +35356,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25734},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35336,28 +35368,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35366,9 +35398,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -35384,9 +35416,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -35442,10 +35474,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25980},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35454,28 +35486,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35484,9 +35516,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -35558,10 +35590,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25980},
 																											expr: &actionExpr{
-																												pos: position{line: 2861, col: 10, offset: 90627},
+																												pos: position{line: 2866, col: 10, offset: 90742},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2861, col: 10, offset: 90627},
+																													pos:        position{line: 2866, col: 10, offset: 90742},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35570,28 +35602,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2883, col: 8, offset: 91025},
+																											pos: position{line: 2888, col: 8, offset: 91140},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2870, col: 12, offset: 90798},
+																													pos: position{line: 2875, col: 12, offset: 90913},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2870, col: 13, offset: 90799},
+																														pos: position{line: 2875, col: 13, offset: 90914},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35600,9 +35632,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2880, col: 8, offset: 90975},
+																													pos: position{line: 2885, col: 8, offset: 91090},
 																													expr: &anyMatcher{
-																														line: 2880, col: 9, offset: 90976,
+																														line: 2885, col: 9, offset: 91091,
 																													},
 																												},
 																											},
@@ -35618,9 +35650,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -35636,21 +35668,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26126},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2878, col: 11, offset: 90961},
+																						pos: position{line: 2883, col: 11, offset: 91076},
 																						expr: &anyMatcher{
-																							line: 2878, col: 13, offset: 90963,
+																							line: 2883, col: 13, offset: 91078,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26201},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2807, col: 13, offset: 89153},
+																							pos: position{line: 2812, col: 13, offset: 89268},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2807, col: 13, offset: 89153},
+																								pos: position{line: 2812, col: 13, offset: 89268},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2807, col: 13, offset: 89153},
+																									pos:        position{line: 2812, col: 13, offset: 89268},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35660,28 +35692,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
+																								pos: position{line: 2875, col: 12, offset: 90913},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35690,9 +35722,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -35757,10 +35789,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25980},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
+																								pos: position{line: 2866, col: 10, offset: 90742},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35769,28 +35801,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
+																									pos: position{line: 2875, col: 12, offset: 90913},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35799,9 +35831,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -35817,9 +35849,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -35830,27 +35862,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2706, col: 18, offset: 86217},
+										pos: position{line: 2711, col: 18, offset: 86332},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2707, col: 9, offset: 86227},
+											pos: position{line: 2712, col: 9, offset: 86342},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2707, col: 9, offset: 86227},
+													pos: position{line: 2712, col: 9, offset: 86342},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2707, col: 9, offset: 86227},
+															pos:        position{line: 2712, col: 9, offset: 86342},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2707, col: 15, offset: 86233},
+															pos: position{line: 2712, col: 15, offset: 86348},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90627},
+																pos: position{line: 2866, col: 10, offset: 90742},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90627},
+																	pos:        position{line: 2866, col: 10, offset: 90742},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35859,28 +35891,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2883, col: 8, offset: 91025},
+															pos: position{line: 2888, col: 8, offset: 91140},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90798},
+																	pos: position{line: 2875, col: 12, offset: 90913},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90799},
+																		pos: position{line: 2875, col: 13, offset: 90914},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90799},
+																				pos:        position{line: 2875, col: 13, offset: 90914},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90806},
+																				pos:        position{line: 2875, col: 20, offset: 90921},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90815},
+																				pos:        position{line: 2875, col: 29, offset: 90930},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35889,9 +35921,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -35899,43 +35931,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2708, col: 11, offset: 86266},
+													pos: position{line: 2713, col: 11, offset: 86381},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2708, col: 12, offset: 86267},
+															pos: position{line: 2713, col: 12, offset: 86382},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2708, col: 12, offset: 86267},
+																	pos:        position{line: 2713, col: 12, offset: 86382},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 20, offset: 86275},
+																	pos:        position{line: 2713, col: 20, offset: 86390},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 30, offset: 86285},
+																	pos:        position{line: 2713, col: 30, offset: 86400},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 38, offset: 86293},
+																	pos:        position{line: 2713, col: 38, offset: 86408},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 48, offset: 86303},
+																	pos:        position{line: 2713, col: 48, offset: 86418},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2708, col: 56, offset: 86311},
+																	pos:        position{line: 2713, col: 56, offset: 86426},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35943,12 +35975,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2708, col: 65, offset: 86320},
+															pos: position{line: 2713, col: 65, offset: 86435},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90627},
+																pos: position{line: 2866, col: 10, offset: 90742},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90627},
+																	pos:        position{line: 2866, col: 10, offset: 90742},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35957,28 +35989,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2883, col: 8, offset: 91025},
+															pos: position{line: 2888, col: 8, offset: 91140},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90798},
+																	pos: position{line: 2875, col: 12, offset: 90913},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90799},
+																		pos: position{line: 2875, col: 13, offset: 90914},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90799},
+																				pos:        position{line: 2875, col: 13, offset: 90914},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90806},
+																				pos:        position{line: 2875, col: 20, offset: 90921},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90815},
+																				pos:        position{line: 2875, col: 29, offset: 90930},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35987,38 +36019,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2708, col: 76, offset: 86331},
+															pos: position{line: 2713, col: 76, offset: 86446},
 															expr: &choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
+																		pos: position{line: 2875, col: 12, offset: 90913},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36027,9 +36059,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -36041,28 +36073,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1556, col: 11, offset: 50270},
+										pos:  position{line: 1561, col: 11, offset: 50374},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2597, col: 5, offset: 83153},
+										pos: position{line: 2602, col: 5, offset: 83268},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2597, col: 5, offset: 83153},
+											pos: position{line: 2602, col: 5, offset: 83268},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2603, col: 19, offset: 83310},
+													pos:        position{line: 2608, col: 19, offset: 83425},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2603, col: 26, offset: 83317},
+													pos: position{line: 2608, col: 26, offset: 83432},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36071,28 +36103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36101,20 +36133,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2598, col: 5, offset: 83177},
+													pos:   position{line: 2603, col: 5, offset: 83292},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2598, col: 11, offset: 83183},
+														pos: position{line: 2603, col: 11, offset: 83298},
 														expr: &choiceExpr{
-															pos: position{line: 2598, col: 12, offset: 83184},
+															pos: position{line: 2603, col: 12, offset: 83299},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21508},
@@ -36123,18 +36155,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21508},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2878, col: 11, offset: 90961},
+																				pos: position{line: 2883, col: 11, offset: 91076},
 																				expr: &anyMatcher{
-																					line: 2878, col: 13, offset: 90963,
+																					line: 2883, col: 13, offset: 91078,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21515},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90627},
+																					pos: position{line: 2866, col: 10, offset: 90742},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90627},
+																						pos:        position{line: 2866, col: 10, offset: 90742},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36143,28 +36175,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2883, col: 8, offset: 91025},
+																				pos: position{line: 2888, col: 8, offset: 91140},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90798},
+																						pos: position{line: 2875, col: 12, offset: 90913},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90799},
+																							pos: position{line: 2875, col: 13, offset: 90914},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90799},
+																									pos:        position{line: 2875, col: 13, offset: 90914},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90806},
+																									pos:        position{line: 2875, col: 20, offset: 90921},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90815},
+																									pos:        position{line: 2875, col: 29, offset: 90930},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36173,9 +36205,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -36184,32 +36216,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2610, col: 5, offset: 83429},
+																	pos: position{line: 2615, col: 5, offset: 83544},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2610, col: 5, offset: 83429},
+																		pos: position{line: 2615, col: 5, offset: 83544},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2610, col: 5, offset: 83429},
+																				pos: position{line: 2615, col: 5, offset: 83544},
 																				expr: &choiceExpr{
-																					pos: position{line: 2607, col: 22, offset: 83390},
+																					pos: position{line: 2612, col: 22, offset: 83505},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2603, col: 19, offset: 83310},
+																							pos: position{line: 2608, col: 19, offset: 83425},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2603, col: 19, offset: 83310},
+																									pos:        position{line: 2608, col: 19, offset: 83425},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2603, col: 26, offset: 83317},
+																									pos: position{line: 2608, col: 26, offset: 83432},
 																									expr: &actionExpr{
-																										pos: position{line: 2861, col: 10, offset: 90627},
+																										pos: position{line: 2866, col: 10, offset: 90742},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2861, col: 10, offset: 90627},
+																											pos:        position{line: 2866, col: 10, offset: 90742},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36218,28 +36250,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
+																											pos: position{line: 2875, col: 12, offset: 90913},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36248,9 +36280,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
@@ -36258,59 +36290,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2611, col: 5, offset: 83452},
+																				pos:   position{line: 2616, col: 5, offset: 83567},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2612, col: 9, offset: 83470},
+																					pos: position{line: 2617, col: 9, offset: 83585},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2612, col: 10, offset: 83471},
+																							pos: position{line: 2617, col: 10, offset: 83586},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2612, col: 10, offset: 83471},
+																								pos:   position{line: 2617, col: 10, offset: 83586},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2612, col: 17, offset: 83478},
+																									pos: position{line: 2617, col: 17, offset: 83593},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2620, col: 21, offset: 83674},
+																											pos: position{line: 2625, col: 21, offset: 83789},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2620, col: 21, offset: 83674},
+																												pos: position{line: 2625, col: 21, offset: 83789},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2620, col: 21, offset: 83674},
+																														pos:   position{line: 2625, col: 21, offset: 83789},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2620, col: 27, offset: 83680},
+																															pos: position{line: 2625, col: 27, offset: 83795},
 																															expr: &actionExpr{
-																																pos: position{line: 2625, col: 5, offset: 83755},
+																																pos: position{line: 2630, col: 5, offset: 83870},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2625, col: 5, offset: 83755},
+																																	pos: position{line: 2630, col: 5, offset: 83870},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2625, col: 5, offset: 83755},
+																																			pos:        position{line: 2630, col: 5, offset: 83870},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2625, col: 9, offset: 83759},
+																																			pos: position{line: 2630, col: 9, offset: 83874},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2861, col: 10, offset: 90627},
+																																				pos: position{line: 2866, col: 10, offset: 90742},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2861, col: 10, offset: 90627},
+																																					pos:        position{line: 2866, col: 10, offset: 90742},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36319,21 +36351,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2625, col: 16, offset: 83766},
+																																			pos:   position{line: 2630, col: 16, offset: 83881},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2631, col: 5, offset: 83966},
+																																				pos: position{line: 2636, col: 5, offset: 84081},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2631, col: 5, offset: 83966},
+																																					pos:   position{line: 2636, col: 5, offset: 84081},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2631, col: 14, offset: 83975},
+																																						pos: position{line: 2636, col: 14, offset: 84090},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2631, col: 14, offset: 83975},
+																																							pos: position{line: 2636, col: 14, offset: 84090},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2631, col: 14, offset: 83975},
+																																								pos:        position{line: 2636, col: 14, offset: 84090},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36350,28 +36382,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2883, col: 8, offset: 91025},
+																														pos: position{line: 2888, col: 8, offset: 91140},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2870, col: 12, offset: 90798},
+																																pos: position{line: 2875, col: 12, offset: 90913},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2870, col: 13, offset: 90799},
+																																	pos: position{line: 2875, col: 13, offset: 90914},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 13, offset: 90799},
+																																			pos:        position{line: 2875, col: 13, offset: 90914},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 20, offset: 90806},
+																																			pos:        position{line: 2875, col: 20, offset: 90921},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2870, col: 29, offset: 90815},
+																																			pos:        position{line: 2875, col: 29, offset: 90930},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36380,9 +36412,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2880, col: 8, offset: 90975},
+																																pos: position{line: 2885, col: 8, offset: 91090},
 																																expr: &anyMatcher{
-																																	line: 2880, col: 9, offset: 90976,
+																																	line: 2885, col: 9, offset: 91091,
 																																},
 																															},
 																														},
@@ -36391,40 +36423,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2637, col: 24, offset: 84111},
+																											pos: position{line: 2642, col: 24, offset: 84226},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2637, col: 24, offset: 84111},
+																												pos:   position{line: 2642, col: 24, offset: 84226},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2637, col: 30, offset: 84117},
+																													pos: position{line: 2642, col: 30, offset: 84232},
 																													expr: &actionExpr{
-																														pos: position{line: 2642, col: 5, offset: 84193},
+																														pos: position{line: 2647, col: 5, offset: 84308},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2642, col: 5, offset: 84193},
+																															pos: position{line: 2647, col: 5, offset: 84308},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2642, col: 5, offset: 84193},
+																																	pos: position{line: 2647, col: 5, offset: 84308},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2607, col: 22, offset: 83390},
+																																		pos: position{line: 2612, col: 22, offset: 83505},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2603, col: 19, offset: 83310},
+																																				pos: position{line: 2608, col: 19, offset: 83425},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2603, col: 19, offset: 83310},
+																																						pos:        position{line: 2608, col: 19, offset: 83425},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2603, col: 26, offset: 83317},
+																																						pos: position{line: 2608, col: 26, offset: 83432},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2861, col: 10, offset: 90627},
+																																							pos: position{line: 2866, col: 10, offset: 90742},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2861, col: 10, offset: 90627},
+																																								pos:        position{line: 2866, col: 10, offset: 90742},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36433,28 +36465,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2883, col: 8, offset: 91025},
+																																						pos: position{line: 2888, col: 8, offset: 91140},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2870, col: 12, offset: 90798},
+																																								pos: position{line: 2875, col: 12, offset: 90913},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2870, col: 13, offset: 90799},
+																																									pos: position{line: 2875, col: 13, offset: 90914},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 13, offset: 90799},
+																																											pos:        position{line: 2875, col: 13, offset: 90914},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 20, offset: 90806},
+																																											pos:        position{line: 2875, col: 20, offset: 90921},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2870, col: 29, offset: 90815},
+																																											pos:        position{line: 2875, col: 29, offset: 90930},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36463,9 +36495,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2880, col: 8, offset: 90975},
+																																								pos: position{line: 2885, col: 8, offset: 91090},
 																																								expr: &anyMatcher{
-																																									line: 2880, col: 9, offset: 90976,
+																																									line: 2885, col: 9, offset: 91091,
 																																								},
 																																							},
 																																						},
@@ -36473,16 +36505,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2880, col: 8, offset: 90975},
+																																				pos: position{line: 2885, col: 8, offset: 91090},
 																																				expr: &anyMatcher{
-																																					line: 2880, col: 9, offset: 90976,
+																																					line: 2885, col: 9, offset: 91091,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2643, col: 5, offset: 84216},
+																																	pos: position{line: 2648, col: 5, offset: 84331},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21508},
 																																		run: (*parser).callonListContinuationElement1446,
@@ -36490,18 +36522,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21508},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2878, col: 11, offset: 90961},
+																																					pos: position{line: 2883, col: 11, offset: 91076},
 																																					expr: &anyMatcher{
-																																						line: 2878, col: 13, offset: 90963,
+																																						line: 2883, col: 13, offset: 91078,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21515},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2861, col: 10, offset: 90627},
+																																						pos: position{line: 2866, col: 10, offset: 90742},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2861, col: 10, offset: 90627},
+																																							pos:        position{line: 2866, col: 10, offset: 90742},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36510,28 +36542,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2883, col: 8, offset: 91025},
+																																					pos: position{line: 2888, col: 8, offset: 91140},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2870, col: 12, offset: 90798},
+																																							pos: position{line: 2875, col: 12, offset: 90913},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2870, col: 13, offset: 90799},
+																																								pos: position{line: 2875, col: 13, offset: 90914},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 13, offset: 90799},
+																																										pos:        position{line: 2875, col: 13, offset: 90914},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 20, offset: 90806},
+																																										pos:        position{line: 2875, col: 20, offset: 90921},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2870, col: 29, offset: 90815},
+																																										pos:        position{line: 2875, col: 29, offset: 90930},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36540,9 +36572,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2880, col: 8, offset: 90975},
+																																							pos: position{line: 2885, col: 8, offset: 91090},
 																																							expr: &anyMatcher{
-																																								line: 2880, col: 9, offset: 90976,
+																																								line: 2885, col: 9, offset: 91091,
 																																							},
 																																						},
 																																					},
@@ -36552,17 +36584,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2644, col: 5, offset: 84231},
+																																	pos:   position{line: 2649, col: 5, offset: 84346},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2644, col: 12, offset: 84238},
+																																		pos: position{line: 2649, col: 12, offset: 84353},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2661, col: 20, offset: 84702},
+																																			pos: position{line: 2666, col: 20, offset: 84817},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2661, col: 20, offset: 84702},
+																																				pos: position{line: 2666, col: 20, offset: 84817},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2661, col: 20, offset: 84702},
+																																					pos:        position{line: 2666, col: 20, offset: 84817},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36573,18 +36605,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2644, col: 31, offset: 84257},
+																																	pos:        position{line: 2649, col: 31, offset: 84372},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2644, col: 35, offset: 84261},
+																																	pos: position{line: 2649, col: 35, offset: 84376},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 10, offset: 90627},
+																																		pos: position{line: 2866, col: 10, offset: 90742},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2861, col: 10, offset: 90627},
+																																			pos:        position{line: 2866, col: 10, offset: 90742},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36593,27 +36625,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2644, col: 42, offset: 84268},
+																																	pos: position{line: 2649, col: 42, offset: 84383},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2870, col: 12, offset: 90798},
+																																		pos: position{line: 2875, col: 12, offset: 90913},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2870, col: 13, offset: 90799},
+																																			pos: position{line: 2875, col: 13, offset: 90914},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 13, offset: 90799},
+																																					pos:        position{line: 2875, col: 13, offset: 90914},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 20, offset: 90806},
+																																					pos:        position{line: 2875, col: 20, offset: 90921},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2870, col: 29, offset: 90815},
+																																					pos:        position{line: 2875, col: 29, offset: 90930},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36623,37 +36655,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2644, col: 51, offset: 84277},
+																																	pos:   position{line: 2649, col: 51, offset: 84392},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2650, col: 5, offset: 84436},
+																																		pos: position{line: 2655, col: 5, offset: 84551},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2651, col: 9, offset: 84446},
+																																			pos: position{line: 2656, col: 9, offset: 84561},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2651, col: 9, offset: 84446},
+																																				pos: position{line: 2656, col: 9, offset: 84561},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2651, col: 9, offset: 84446},
+																																						pos: position{line: 2656, col: 9, offset: 84561},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2607, col: 22, offset: 83390},
+																																							pos: position{line: 2612, col: 22, offset: 83505},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2603, col: 19, offset: 83310},
+																																									pos: position{line: 2608, col: 19, offset: 83425},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2603, col: 19, offset: 83310},
+																																											pos:        position{line: 2608, col: 19, offset: 83425},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2603, col: 26, offset: 83317},
+																																											pos: position{line: 2608, col: 26, offset: 83432},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2861, col: 10, offset: 90627},
+																																												pos: position{line: 2866, col: 10, offset: 90742},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2861, col: 10, offset: 90627},
+																																													pos:        position{line: 2866, col: 10, offset: 90742},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36662,28 +36694,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2883, col: 8, offset: 91025},
+																																											pos: position{line: 2888, col: 8, offset: 91140},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2870, col: 12, offset: 90798},
+																																													pos: position{line: 2875, col: 12, offset: 90913},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2870, col: 13, offset: 90799},
+																																														pos: position{line: 2875, col: 13, offset: 90914},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 13, offset: 90799},
+																																																pos:        position{line: 2875, col: 13, offset: 90914},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 20, offset: 90806},
+																																																pos:        position{line: 2875, col: 20, offset: 90921},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2870, col: 29, offset: 90815},
+																																																pos:        position{line: 2875, col: 29, offset: 90930},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36692,9 +36724,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2880, col: 8, offset: 90975},
+																																													pos: position{line: 2885, col: 8, offset: 91090},
 																																													expr: &anyMatcher{
-																																														line: 2880, col: 9, offset: 90976,
+																																														line: 2885, col: 9, offset: 91091,
 																																													},
 																																												},
 																																											},
@@ -36702,16 +36734,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90975},
+																																									pos: position{line: 2885, col: 8, offset: 91090},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90976,
+																																										line: 2885, col: 9, offset: 91091,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2652, col: 9, offset: 84473},
+																																						pos: position{line: 2657, col: 9, offset: 84588},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21508},
 																																							run: (*parser).callonListContinuationElement1498,
@@ -36719,18 +36751,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21508},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2878, col: 11, offset: 90961},
+																																										pos: position{line: 2883, col: 11, offset: 91076},
 																																										expr: &anyMatcher{
-																																											line: 2878, col: 13, offset: 90963,
+																																											line: 2883, col: 13, offset: 91078,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21515},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2861, col: 10, offset: 90627},
+																																											pos: position{line: 2866, col: 10, offset: 90742},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2861, col: 10, offset: 90627},
+																																												pos:        position{line: 2866, col: 10, offset: 90742},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36739,28 +36771,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2883, col: 8, offset: 91025},
+																																										pos: position{line: 2888, col: 8, offset: 91140},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2870, col: 12, offset: 90798},
+																																												pos: position{line: 2875, col: 12, offset: 90913},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2870, col: 13, offset: 90799},
+																																													pos: position{line: 2875, col: 13, offset: 90914},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 13, offset: 90799},
+																																															pos:        position{line: 2875, col: 13, offset: 90914},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 20, offset: 90806},
+																																															pos:        position{line: 2875, col: 20, offset: 90921},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2870, col: 29, offset: 90815},
+																																															pos:        position{line: 2875, col: 29, offset: 90930},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36769,9 +36801,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2880, col: 8, offset: 90975},
+																																												pos: position{line: 2885, col: 8, offset: 91090},
 																																												expr: &anyMatcher{
-																																													line: 2880, col: 9, offset: 90976,
+																																													line: 2885, col: 9, offset: 91091,
 																																												},
 																																											},
 																																										},
@@ -36781,22 +36813,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2653, col: 9, offset: 84492},
+																																						pos: position{line: 2658, col: 9, offset: 84607},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2653, col: 11, offset: 84494},
+																																							pos: position{line: 2658, col: 11, offset: 84609},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2653, col: 11, offset: 84494},
+																																									pos:   position{line: 2658, col: 11, offset: 84609},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2653, col: 18, offset: 84501},
+																																										pos: position{line: 2658, col: 18, offset: 84616},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2661, col: 20, offset: 84702},
+																																											pos: position{line: 2666, col: 20, offset: 84817},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2661, col: 20, offset: 84702},
+																																												pos: position{line: 2666, col: 20, offset: 84817},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2661, col: 20, offset: 84702},
+																																													pos:        position{line: 2666, col: 20, offset: 84817},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36807,7 +36839,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2653, col: 37, offset: 84520},
+																																									pos:        position{line: 2658, col: 37, offset: 84635},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36816,15 +36848,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2654, col: 9, offset: 84533},
+																																						pos:   position{line: 2659, col: 9, offset: 84648},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2654, col: 18, offset: 84542},
+																																							pos: position{line: 2659, col: 18, offset: 84657},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2654, col: 18, offset: 84542},
+																																								pos: position{line: 2659, col: 18, offset: 84657},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2654, col: 18, offset: 84542},
+																																									pos:        position{line: 2659, col: 18, offset: 84657},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36834,30 +36866,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2656, col: 12, offset: 84604},
+																																						pos: position{line: 2661, col: 12, offset: 84719},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2883, col: 8, offset: 91025},
+																																							pos: position{line: 2888, col: 8, offset: 91140},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2870, col: 12, offset: 90798},
+																																									pos: position{line: 2875, col: 12, offset: 90913},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2870, col: 13, offset: 90799},
+																																										pos: position{line: 2875, col: 13, offset: 90914},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 13, offset: 90799},
+																																												pos:        position{line: 2875, col: 13, offset: 90914},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 20, offset: 90806},
+																																												pos:        position{line: 2875, col: 20, offset: 90921},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2870, col: 29, offset: 90815},
+																																												pos:        position{line: 2875, col: 29, offset: 90930},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36866,9 +36898,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2880, col: 8, offset: 90975},
+																																									pos: position{line: 2885, col: 8, offset: 91090},
 																																									expr: &anyMatcher{
-																																										line: 2880, col: 9, offset: 90976,
+																																										line: 2885, col: 9, offset: 91091,
 																																									},
 																																								},
 																																							},
@@ -36896,18 +36928,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21508},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2878, col: 11, offset: 90961},
+																										pos: position{line: 2883, col: 11, offset: 91076},
 																										expr: &anyMatcher{
-																											line: 2878, col: 13, offset: 90963,
+																											line: 2883, col: 13, offset: 91078,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21515},
 																										expr: &actionExpr{
-																											pos: position{line: 2861, col: 10, offset: 90627},
+																											pos: position{line: 2866, col: 10, offset: 90742},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2861, col: 10, offset: 90627},
+																												pos:        position{line: 2866, col: 10, offset: 90742},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36916,28 +36948,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2883, col: 8, offset: 91025},
+																										pos: position{line: 2888, col: 8, offset: 91140},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2870, col: 12, offset: 90798},
+																												pos: position{line: 2875, col: 12, offset: 90913},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2870, col: 13, offset: 90799},
+																													pos: position{line: 2875, col: 13, offset: 90914},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 13, offset: 90799},
+																															pos:        position{line: 2875, col: 13, offset: 90914},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 20, offset: 90806},
+																															pos:        position{line: 2875, col: 20, offset: 90921},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2870, col: 29, offset: 90815},
+																															pos:        position{line: 2875, col: 29, offset: 90930},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36946,9 +36978,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2880, col: 8, offset: 90975},
+																												pos: position{line: 2885, col: 8, offset: 91090},
 																												expr: &anyMatcher{
-																													line: 2880, col: 9, offset: 90976,
+																													line: 2885, col: 9, offset: 91091,
 																												},
 																											},
 																										},
@@ -36967,24 +36999,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2607, col: 22, offset: 83390},
+													pos: position{line: 2612, col: 22, offset: 83505},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83310},
+															pos: position{line: 2608, col: 19, offset: 83425},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83310},
+																	pos:        position{line: 2608, col: 19, offset: 83425},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83317},
+																	pos: position{line: 2608, col: 26, offset: 83432},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36993,28 +37025,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37023,9 +37055,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -37033,9 +37065,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -37044,36 +37076,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 22, offset: 79612},
+										pos: position{line: 2476, col: 22, offset: 79727},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 22, offset: 79612},
+											pos: position{line: 2476, col: 22, offset: 79727},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2476, col: 31, offset: 79833},
+													pos:        position{line: 2481, col: 31, offset: 79948},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2476, col: 36, offset: 79838},
+													pos: position{line: 2481, col: 36, offset: 79953},
 													expr: &litMatcher{
-														pos:        position{line: 2476, col: 37, offset: 79839},
+														pos:        position{line: 2481, col: 37, offset: 79954},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2471, col: 49, offset: 79639},
+													pos:   position{line: 2476, col: 49, offset: 79754},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2807, col: 13, offset: 89153},
+														pos: position{line: 2812, col: 13, offset: 89268},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2807, col: 13, offset: 89153},
+															pos: position{line: 2812, col: 13, offset: 89268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 13, offset: 89153},
+																pos:        position{line: 2812, col: 13, offset: 89268},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37083,28 +37115,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2883, col: 8, offset: 91025},
+													pos: position{line: 2888, col: 8, offset: 91140},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37113,9 +37145,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2880, col: 8, offset: 90975},
+															pos: position{line: 2885, col: 8, offset: 91090},
 															expr: &anyMatcher{
-																line: 2880, col: 9, offset: 90976,
+																line: 2885, col: 9, offset: 91091,
 															},
 														},
 													},
@@ -37124,94 +37156,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1569, col: 5, offset: 50700},
+										pos: position{line: 1574, col: 5, offset: 50804},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1569, col: 5, offset: 50700},
+											pos: position{line: 1574, col: 5, offset: 50804},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1569, col: 5, offset: 50700},
+													pos:   position{line: 1574, col: 5, offset: 50804},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1569, col: 11, offset: 50706},
+														pos: position{line: 1574, col: 11, offset: 50810},
 														expr: &actionExpr{
-															pos: position{line: 1733, col: 5, offset: 56023},
+															pos: position{line: 1738, col: 5, offset: 56127},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1733, col: 5, offset: 56023},
+																pos: position{line: 1738, col: 5, offset: 56127},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1733, col: 5, offset: 56023},
+																		pos: position{line: 1738, col: 5, offset: 56127},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1736, col: 5, offset: 56086},
+																		pos:   position{line: 1741, col: 5, offset: 56190},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1736, col: 12, offset: 56093},
+																			pos: position{line: 1741, col: 12, offset: 56197},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1736, col: 12, offset: 56093},
+																					pos: position{line: 1741, col: 12, offset: 56197},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 12, offset: 56093},
+																						pos:        position{line: 1741, col: 12, offset: 56197},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56149},
+																					pos: position{line: 1743, col: 13, offset: 56253},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56149},
+																						pos:        position{line: 1743, col: 13, offset: 56253},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56207},
+																					pos: position{line: 1745, col: 13, offset: 56311},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56207},
+																						pos:        position{line: 1745, col: 13, offset: 56311},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56275},
+																					pos: position{line: 1747, col: 13, offset: 56379},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56275},
+																						pos:        position{line: 1747, col: 13, offset: 56379},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56339},
+																					pos: position{line: 1749, col: 13, offset: 56443},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56339},
+																						pos:        position{line: 1749, col: 13, offset: 56443},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56403},
+																					pos: position{line: 1751, col: 13, offset: 56507},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1746, col: 13, offset: 56403},
+																						pos: position{line: 1751, col: 13, offset: 56507},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 11, offset: 90688},
+																							pos: position{line: 2870, col: 11, offset: 90803},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2865, col: 11, offset: 90688},
+																								pos: position{line: 2870, col: 11, offset: 90803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 11, offset: 90688},
+																									pos:        position{line: 2870, col: 11, offset: 90803},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37224,41 +37256,101 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&notExpr{
+																		pos: position{line: 1753, col: 12, offset: 56587},
+																		expr: &seqExpr{
+																			pos: position{line: 1753, col: 14, offset: 56589},
+																			exprs: []interface{}{
+																				&zeroOrMoreExpr{
+																					pos: position{line: 1753, col: 14, offset: 56589},
+																					expr: &actionExpr{
+																						pos: position{line: 2866, col: 10, offset: 90742},
+																						run: (*parser).callonListContinuationElement1609,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							val:        "[\\t ]",
+																							chars:      []rune{'\t', ' '},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																				},
+																				&choiceExpr{
+																					pos: position{line: 2888, col: 8, offset: 91140},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2875, col: 12, offset: 90913},
+																							run: (*parser).callonListContinuationElement1612,
+																							expr: &choiceExpr{
+																								pos: position{line: 2875, col: 13, offset: 90914},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2885, col: 8, offset: 91090},
+																							expr: &anyMatcher{
+																								line: 2885, col: 9, offset: 91091,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
 																},
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50729},
+													pos:   position{line: 1575, col: 5, offset: 50833},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1513, col: 5, offset: 49025},
-														run: (*parser).callonListContinuationElement1607,
+														pos: position{line: 1518, col: 5, offset: 49129},
+														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1513, col: 5, offset: 49025},
+															pos: position{line: 1518, col: 5, offset: 49129},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49025},
+																	pos: position{line: 1518, col: 5, offset: 49129},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21508},
-																		run: (*parser).callonListContinuationElement1610,
+																		run: (*parser).callonListContinuationElement1623,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21508},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2878, col: 11, offset: 90961},
+																					pos: position{line: 2883, col: 11, offset: 91076},
 																					expr: &anyMatcher{
-																						line: 2878, col: 13, offset: 90963,
+																						line: 2883, col: 13, offset: 91078,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21515},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
-																						run: (*parser).callonListContinuationElement1615,
+																						pos: position{line: 2866, col: 10, offset: 90742},
+																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37267,28 +37359,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2883, col: 8, offset: 91025},
+																					pos: position{line: 2888, col: 8, offset: 91140},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
-																							run: (*parser).callonListContinuationElement1618,
+																							pos: position{line: 2875, col: 12, offset: 90913},
+																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37297,9 +37389,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2880, col: 8, offset: 90975},
+																							pos: position{line: 2885, col: 8, offset: 91090},
 																							expr: &anyMatcher{
-																								line: 2880, col: 9, offset: 90976,
+																								line: 2885, col: 9, offset: 91091,
 																							},
 																						},
 																					},
@@ -37309,23 +37401,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49040},
+																	pos: position{line: 1519, col: 5, offset: 49144},
 																	expr: &seqExpr{
-																		pos: position{line: 1544, col: 27, offset: 49945},
+																		pos: position{line: 1549, col: 27, offset: 50049},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1544, col: 27, offset: 49945},
+																				pos:        position{line: 1549, col: 27, offset: 50049},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1544, col: 31, offset: 49949},
+																				pos: position{line: 1549, col: 31, offset: 50053},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90627},
-																					run: (*parser).callonListContinuationElement1629,
+																					pos: position{line: 2866, col: 10, offset: 90742},
+																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90627},
+																						pos:        position{line: 2866, col: 10, offset: 90742},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37334,25 +37426,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonListContinuationElement1631,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37364,20 +37456,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49068},
+																	pos: position{line: 1520, col: 5, offset: 49172},
 																	expr: &actionExpr{
-																		pos: position{line: 1585, col: 5, offset: 51139},
-																		run: (*parser).callonListContinuationElement1637,
+																		pos: position{line: 1590, col: 5, offset: 51243},
+																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1585, col: 5, offset: 51139},
+																			pos: position{line: 1590, col: 5, offset: 51243},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1585, col: 5, offset: 51139},
+																					pos: position{line: 1590, col: 5, offset: 51243},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
-																						run: (*parser).callonListContinuationElement1640,
+																						pos: position{line: 2866, col: 10, offset: 90742},
+																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37386,27 +37478,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1585, col: 12, offset: 51146},
+																					pos:   position{line: 1590, col: 12, offset: 51250},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1587, col: 9, offset: 51209},
+																						pos: position{line: 1592, col: 9, offset: 51313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1587, col: 9, offset: 51209},
-																								run: (*parser).callonListContinuationElement1644,
+																								pos: position{line: 1592, col: 9, offset: 51313},
+																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1587, col: 9, offset: 51209},
+																									pos: position{line: 1592, col: 9, offset: 51313},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1587, col: 9, offset: 51209},
+																											pos:   position{line: 1592, col: 9, offset: 51313},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1587, col: 16, offset: 51216},
-																												run: (*parser).callonListContinuationElement1647,
+																												pos: position{line: 1592, col: 16, offset: 51320},
+																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1587, col: 16, offset: 51216},
+																													pos: position{line: 1592, col: 16, offset: 51320},
 																													expr: &litMatcher{
-																														pos:        position{line: 1587, col: 17, offset: 51217},
+																														pos:        position{line: 1592, col: 17, offset: 51321},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37415,22 +37507,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1591, col: 9, offset: 51317},
-																											run: (*parser).callonListContinuationElement1650,
+																											pos: position{line: 1596, col: 9, offset: 51421},
+																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 11, offset: 52034},
-																								run: (*parser).callonListContinuationElement1651,
+																								pos: position{line: 1615, col: 11, offset: 52138},
+																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 11, offset: 52034},
+																									pos: position{line: 1615, col: 11, offset: 52138},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 11, offset: 52034},
+																											pos: position{line: 1615, col: 11, offset: 52138},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 12, offset: 52035},
+																												pos:        position{line: 1615, col: 12, offset: 52139},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37438,7 +37530,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 20, offset: 52043},
+																											pos:        position{line: 1615, col: 20, offset: 52147},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37447,20 +37539,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 13, offset: 52160},
-																								run: (*parser).callonListContinuationElement1656,
+																								pos: position{line: 1617, col: 13, offset: 52264},
+																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 13, offset: 52160},
+																									pos: position{line: 1617, col: 13, offset: 52264},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1612, col: 14, offset: 52161},
+																											pos:        position{line: 1617, col: 14, offset: 52265},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 21, offset: 52168},
+																											pos:        position{line: 1617, col: 21, offset: 52272},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37469,20 +37561,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52288},
-																								run: (*parser).callonListContinuationElement1660,
+																								pos: position{line: 1619, col: 13, offset: 52392},
+																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52288},
+																									pos: position{line: 1619, col: 13, offset: 52392},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52289},
+																											pos:        position{line: 1619, col: 14, offset: 52393},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52296},
+																											pos:        position{line: 1619, col: 21, offset: 52400},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37491,15 +37583,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52416},
-																								run: (*parser).callonListContinuationElement1664,
+																								pos: position{line: 1621, col: 13, offset: 52520},
+																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52416},
+																									pos: position{line: 1621, col: 13, offset: 52520},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 13, offset: 52416},
+																											pos: position{line: 1621, col: 13, offset: 52520},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 14, offset: 52417},
+																												pos:        position{line: 1621, col: 14, offset: 52521},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37507,7 +37599,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 26, offset: 52429},
+																											pos:        position{line: 1621, col: 26, offset: 52533},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37516,15 +37608,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52549},
-																								run: (*parser).callonListContinuationElement1669,
+																								pos: position{line: 1623, col: 13, offset: 52653},
+																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52549},
+																									pos: position{line: 1623, col: 13, offset: 52653},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52549},
+																											pos: position{line: 1623, col: 13, offset: 52653},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52550},
+																												pos:        position{line: 1623, col: 14, offset: 52654},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37532,7 +37624,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52562},
+																											pos:        position{line: 1623, col: 26, offset: 52666},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37544,12 +37636,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90688},
-																					run: (*parser).callonListContinuationElement1674,
+																					pos: position{line: 2870, col: 11, offset: 90803},
+																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90688},
+																						pos: position{line: 2870, col: 11, offset: 90803},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90688},
+																							pos:        position{line: 2870, col: 11, offset: 90803},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37562,20 +37654,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49098},
+																	pos: position{line: 1521, col: 5, offset: 49202},
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 5, offset: 53101},
-																		run: (*parser).callonListContinuationElement1678,
+																		pos: position{line: 1640, col: 5, offset: 53205},
+																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1635, col: 5, offset: 53101},
+																			pos: position{line: 1640, col: 5, offset: 53205},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1635, col: 5, offset: 53101},
+																					pos: position{line: 1640, col: 5, offset: 53205},
 																					expr: &actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
-																						run: (*parser).callonListContinuationElement1681,
+																						pos: position{line: 2866, col: 10, offset: 90742},
+																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37584,24 +37676,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1636, col: 5, offset: 53113},
+																					pos:   position{line: 1641, col: 5, offset: 53217},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1637, col: 9, offset: 53129},
-																						run: (*parser).callonListContinuationElement1684,
+																						pos: position{line: 1642, col: 9, offset: 53233},
+																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1637, col: 10, offset: 53130},
+																							pos: position{line: 1642, col: 10, offset: 53234},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1637, col: 11, offset: 53131},
+																									pos:        position{line: 1642, col: 11, offset: 53235},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1637, col: 18, offset: 53138},
+																									pos: position{line: 1642, col: 18, offset: 53242},
 																									expr: &litMatcher{
-																										pos:        position{line: 1637, col: 19, offset: 53139},
+																										pos:        position{line: 1642, col: 19, offset: 53243},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37612,16 +37704,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1640, col: 7, offset: 53229},
-																					run: (*parser).callonListContinuationElement1689,
+																					pos: position{line: 1645, col: 7, offset: 53333},
+																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90688},
-																					run: (*parser).callonListContinuationElement1690,
+																					pos: position{line: 2870, col: 11, offset: 90803},
+																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90688},
+																						pos: position{line: 2870, col: 11, offset: 90803},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90688},
+																							pos:        position{line: 2870, col: 11, offset: 90803},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37634,29 +37726,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49130},
+																	pos: position{line: 1522, col: 5, offset: 49234},
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 5, offset: 55638},
-																		run: (*parser).callonListContinuationElement1694,
+																		pos: position{line: 1729, col: 5, offset: 55742},
+																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1724, col: 5, offset: 55638},
+																			pos: position{line: 1729, col: 5, offset: 55742},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 5, offset: 55638},
+																					pos:        position{line: 1729, col: 5, offset: 55742},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1724, col: 9, offset: 55642},
+																					pos:   position{line: 1729, col: 9, offset: 55746},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1724, col: 14, offset: 55647},
-																						run: (*parser).callonListContinuationElement1698,
+																						pos: position{line: 1729, col: 14, offset: 55751},
+																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1724, col: 14, offset: 55647},
+																							pos: position{line: 1729, col: 14, offset: 55751},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1724, col: 14, offset: 55647},
+																								pos:        position{line: 1729, col: 14, offset: 55751},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37666,18 +37758,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 62, offset: 55695},
+																					pos:        position{line: 1729, col: 62, offset: 55799},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2865, col: 11, offset: 90688},
-																					run: (*parser).callonListContinuationElement1702,
+																					pos: position{line: 2870, col: 11, offset: 90803},
+																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2865, col: 11, offset: 90688},
+																						pos: position{line: 2870, col: 11, offset: 90803},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 11, offset: 90688},
+																							pos:        position{line: 2870, col: 11, offset: 90803},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37690,36 +37782,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49160},
+																	pos: position{line: 1523, col: 5, offset: 49264},
 																	expr: &seqExpr{
-																		pos: position{line: 1518, col: 7, offset: 49162},
+																		pos: position{line: 1523, col: 7, offset: 49266},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54120},
-																				run: (*parser).callonListContinuationElement1707,
+																				pos: position{line: 1675, col: 5, offset: 54224},
+																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54120},
+																					pos: position{line: 1675, col: 5, offset: 54224},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54121},
+																						pos: position{line: 1675, col: 6, offset: 54225},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54121},
+																								pos: position{line: 1675, col: 6, offset: 54225},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54271},
-																									run: (*parser).callonListContinuationElement1711,
+																									pos: position{line: 1680, col: 5, offset: 54375},
+																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54271},
+																										pos: position{line: 1680, col: 5, offset: 54375},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54271},
+																												pos:   position{line: 1680, col: 5, offset: 54375},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54282},
-																													run: (*parser).callonListContinuationElement1714,
+																													pos: position{line: 1680, col: 16, offset: 54386},
+																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54282},
+																														pos: position{line: 1680, col: 16, offset: 54386},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54283},
+																															pos:        position{line: 1680, col: 17, offset: 54387},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37728,38 +37820,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54340},
-																												run: (*parser).callonListContinuationElement1717,
+																												pos: position{line: 1683, col: 5, offset: 54444},
+																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54150},
+																								pos: position{line: 1675, col: 35, offset: 54254},
 																								expr: &choiceExpr{
-																									pos: position{line: 2883, col: 8, offset: 91025},
+																									pos: position{line: 2888, col: 8, offset: 91140},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2870, col: 12, offset: 90798},
-																											run: (*parser).callonListContinuationElement1720,
+																											pos: position{line: 2875, col: 12, offset: 90913},
+																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2870, col: 13, offset: 90799},
+																												pos: position{line: 2875, col: 13, offset: 90914},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 13, offset: 90799},
+																														pos:        position{line: 2875, col: 13, offset: 90914},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 20, offset: 90806},
+																														pos:        position{line: 2875, col: 20, offset: 90921},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2870, col: 29, offset: 90815},
+																														pos:        position{line: 2875, col: 29, offset: 90930},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37768,37 +37860,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2880, col: 8, offset: 90975},
+																											pos: position{line: 2885, col: 8, offset: 91090},
 																											expr: &anyMatcher{
-																												line: 2880, col: 9, offset: 90976,
+																												line: 2885, col: 9, offset: 91091,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54155,
+																								line: 1675, col: 40, offset: 54259,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54271},
-																				run: (*parser).callonListContinuationElement1728,
+																				pos: position{line: 1680, col: 5, offset: 54375},
+																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54271},
+																					pos: position{line: 1680, col: 5, offset: 54375},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54271},
+																							pos:   position{line: 1680, col: 5, offset: 54375},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54282},
-																								run: (*parser).callonListContinuationElement1731,
+																								pos: position{line: 1680, col: 16, offset: 54386},
+																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54282},
+																									pos: position{line: 1680, col: 16, offset: 54386},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54283},
+																										pos:        position{line: 1680, col: 17, offset: 54387},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37807,20 +37899,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54340},
-																							run: (*parser).callonListContinuationElement1734,
+																							pos: position{line: 1683, col: 5, offset: 54444},
+																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1518, col: 59, offset: 49214},
+																				pos: position{line: 1523, col: 59, offset: 49318},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 10, offset: 90627},
-																						run: (*parser).callonListContinuationElement1736,
+																						pos: position{line: 2866, col: 10, offset: 90742},
+																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90627},
+																							pos:        position{line: 2866, col: 10, offset: 90742},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37828,25 +37920,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2870, col: 12, offset: 90798},
-																						run: (*parser).callonListContinuationElement1738,
+																						pos: position{line: 2875, col: 12, offset: 90913},
+																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2870, col: 13, offset: 90799},
+																							pos: position{line: 2875, col: 13, offset: 90914},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 13, offset: 90799},
+																									pos:        position{line: 2875, col: 13, offset: 90914},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 20, offset: 90806},
+																									pos:        position{line: 2875, col: 20, offset: 90921},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2870, col: 29, offset: 90815},
+																									pos:        position{line: 2875, col: 29, offset: 90930},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37855,9 +37947,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2880, col: 8, offset: 90975},
+																						pos: position{line: 2885, col: 8, offset: 91090},
 																						expr: &anyMatcher{
-																							line: 2880, col: 9, offset: 90976,
+																							line: 2885, col: 9, offset: 91091,
 																						},
 																					},
 																				},
@@ -37866,20 +37958,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49232},
+																	pos: position{line: 1524, col: 5, offset: 49336},
 																	expr: &choiceExpr{
-																		pos: position{line: 1519, col: 7, offset: 49234},
+																		pos: position{line: 1524, col: 7, offset: 49338},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 724, col: 5, offset: 23080},
-																				run: (*parser).callonListContinuationElement1747,
+																				run: (*parser).callonListContinuationElement1760,
 																				expr: &seqExpr{
 																					pos: position{line: 724, col: 5, offset: 23080},
 																					exprs: []interface{}{
 																						&notExpr{
 																							pos: position{line: 724, col: 5, offset: 23080},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2751, col: 13, offset: 87722},
+																								pos:        position{line: 2756, col: 13, offset: 87837},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -37894,7 +37986,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 740, col: 5, offset: 23622},
-																										run: (*parser).callonListContinuationElement1753,
+																										run: (*parser).callonListContinuationElement1766,
 																										expr: &seqExpr{
 																											pos: position{line: 740, col: 5, offset: 23622},
 																											exprs: []interface{}{
@@ -37903,7 +37995,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 740, col: 16, offset: 23633},
-																														run: (*parser).callonListContinuationElement1756,
+																														run: (*parser).callonListContinuationElement1769,
 																														expr: &seqExpr{
 																															pos: position{line: 740, col: 16, offset: 23633},
 																															exprs: []interface{}{
@@ -37929,10 +38021,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23724},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1762,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -37941,28 +38033,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1765,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -37971,9 +38063,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -37983,7 +38075,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 747, col: 5, offset: 23870},
-																										run: (*parser).callonListContinuationElement1772,
+																										run: (*parser).callonListContinuationElement1785,
 																										expr: &seqExpr{
 																											pos: position{line: 747, col: 5, offset: 23870},
 																											exprs: []interface{}{
@@ -37992,7 +38084,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 747, col: 16, offset: 23881},
-																														run: (*parser).callonListContinuationElement1775,
+																														run: (*parser).callonListContinuationElement1788,
 																														expr: &seqExpr{
 																															pos: position{line: 747, col: 16, offset: 23881},
 																															exprs: []interface{}{
@@ -38018,10 +38110,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 749, col: 8, offset: 23972},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1781,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38030,28 +38122,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1784,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38060,9 +38152,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38072,7 +38164,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 760, col: 26, offset: 24358},
-																										run: (*parser).callonListContinuationElement1791,
+																										run: (*parser).callonListContinuationElement1804,
 																										expr: &seqExpr{
 																											pos: position{line: 760, col: 26, offset: 24358},
 																											exprs: []interface{}{
@@ -38087,7 +38179,7 @@ var g = &grammar{
 																													label: "language",
 																													expr: &actionExpr{
 																														pos: position{line: 764, col: 13, offset: 24494},
-																														run: (*parser).callonListContinuationElement1795,
+																														run: (*parser).callonListContinuationElement1808,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 764, col: 14, offset: 24495},
 																															expr: &charClassMatcher{
@@ -38103,10 +38195,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 760, col: 52, offset: 24384},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1799,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38115,28 +38207,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1802,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38145,9 +38237,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38157,7 +38249,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 754, col: 5, offset: 24117},
-																										run: (*parser).callonListContinuationElement1809,
+																										run: (*parser).callonListContinuationElement1822,
 																										expr: &seqExpr{
 																											pos: position{line: 754, col: 5, offset: 24117},
 																											exprs: []interface{}{
@@ -38166,7 +38258,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 754, col: 16, offset: 24128},
-																														run: (*parser).callonListContinuationElement1812,
+																														run: (*parser).callonListContinuationElement1825,
 																														expr: &seqExpr{
 																															pos: position{line: 754, col: 16, offset: 24128},
 																															exprs: []interface{}{
@@ -38192,10 +38284,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 756, col: 8, offset: 24218},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1818,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38204,28 +38296,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1821,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38234,9 +38326,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38246,7 +38338,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 769, col: 5, offset: 24654},
-																										run: (*parser).callonListContinuationElement1828,
+																										run: (*parser).callonListContinuationElement1841,
 																										expr: &seqExpr{
 																											pos: position{line: 769, col: 5, offset: 24654},
 																											exprs: []interface{}{
@@ -38255,7 +38347,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 769, col: 16, offset: 24665},
-																														run: (*parser).callonListContinuationElement1831,
+																														run: (*parser).callonListContinuationElement1844,
 																														expr: &seqExpr{
 																															pos: position{line: 769, col: 16, offset: 24665},
 																															exprs: []interface{}{
@@ -38281,10 +38373,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 771, col: 8, offset: 24756},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1837,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38293,28 +38385,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1840,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38323,9 +38415,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38335,7 +38427,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 783, col: 5, offset: 25130},
-																										run: (*parser).callonListContinuationElement1847,
+																										run: (*parser).callonListContinuationElement1860,
 																										expr: &seqExpr{
 																											pos: position{line: 783, col: 5, offset: 25130},
 																											exprs: []interface{}{
@@ -38344,7 +38436,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 783, col: 16, offset: 25141},
-																														run: (*parser).callonListContinuationElement1850,
+																														run: (*parser).callonListContinuationElement1863,
 																														expr: &seqExpr{
 																															pos: position{line: 783, col: 16, offset: 25141},
 																															exprs: []interface{}{
@@ -38370,10 +38462,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 785, col: 8, offset: 25232},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1856,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38382,28 +38474,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1859,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38412,9 +38504,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38424,7 +38516,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 790, col: 5, offset: 25382},
-																										run: (*parser).callonListContinuationElement1866,
+																										run: (*parser).callonListContinuationElement1879,
 																										expr: &seqExpr{
 																											pos: position{line: 790, col: 5, offset: 25382},
 																											exprs: []interface{}{
@@ -38433,7 +38525,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 790, col: 16, offset: 25393},
-																														run: (*parser).callonListContinuationElement1869,
+																														run: (*parser).callonListContinuationElement1882,
 																														expr: &seqExpr{
 																															pos: position{line: 790, col: 16, offset: 25393},
 																															exprs: []interface{}{
@@ -38459,10 +38551,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 792, col: 8, offset: 25484},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1875,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38471,28 +38563,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1878,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38501,9 +38593,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38513,7 +38605,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 797, col: 5, offset: 25632},
-																										run: (*parser).callonListContinuationElement1885,
+																										run: (*parser).callonListContinuationElement1898,
 																										expr: &seqExpr{
 																											pos: position{line: 797, col: 5, offset: 25632},
 																											exprs: []interface{}{
@@ -38522,7 +38614,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 797, col: 16, offset: 25643},
-																														run: (*parser).callonListContinuationElement1888,
+																														run: (*parser).callonListContinuationElement1901,
 																														expr: &seqExpr{
 																															pos: position{line: 797, col: 16, offset: 25643},
 																															exprs: []interface{}{
@@ -38548,10 +38640,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 799, col: 8, offset: 25734},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1894,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38560,28 +38652,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1897,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38590,9 +38682,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38602,7 +38694,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 804, col: 5, offset: 25878},
-																										run: (*parser).callonListContinuationElement1904,
+																										run: (*parser).callonListContinuationElement1917,
 																										expr: &seqExpr{
 																											pos: position{line: 804, col: 5, offset: 25878},
 																											exprs: []interface{}{
@@ -38611,7 +38703,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 804, col: 16, offset: 25889},
-																														run: (*parser).callonListContinuationElement1907,
+																														run: (*parser).callonListContinuationElement1920,
 																														expr: &seqExpr{
 																															pos: position{line: 804, col: 16, offset: 25889},
 																															exprs: []interface{}{
@@ -38637,10 +38729,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 806, col: 8, offset: 25980},
 																													expr: &actionExpr{
-																														pos: position{line: 2861, col: 10, offset: 90627},
-																														run: (*parser).callonListContinuationElement1913,
+																														pos: position{line: 2866, col: 10, offset: 90742},
+																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2861, col: 10, offset: 90627},
+																															pos:        position{line: 2866, col: 10, offset: 90742},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38649,28 +38741,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2883, col: 8, offset: 91025},
+																													pos: position{line: 2888, col: 8, offset: 91140},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2870, col: 12, offset: 90798},
-																															run: (*parser).callonListContinuationElement1916,
+																															pos: position{line: 2875, col: 12, offset: 90913},
+																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2870, col: 13, offset: 90799},
+																																pos: position{line: 2875, col: 13, offset: 90914},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 13, offset: 90799},
+																																		pos:        position{line: 2875, col: 13, offset: 90914},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 20, offset: 90806},
+																																		pos:        position{line: 2875, col: 20, offset: 90921},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2870, col: 29, offset: 90815},
+																																		pos:        position{line: 2875, col: 29, offset: 90930},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38679,9 +38771,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2880, col: 8, offset: 90975},
+																															pos: position{line: 2885, col: 8, offset: 91090},
 																															expr: &anyMatcher{
-																																line: 2880, col: 9, offset: 90976,
+																																line: 2885, col: 9, offset: 91091,
 																															},
 																														},
 																													},
@@ -38697,7 +38789,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 776, col: 5, offset: 24899},
-																				run: (*parser).callonListContinuationElement1923,
+																				run: (*parser).callonListContinuationElement1936,
 																				expr: &seqExpr{
 																					pos: position{line: 776, col: 5, offset: 24899},
 																					exprs: []interface{}{
@@ -38706,7 +38798,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 776, col: 16, offset: 24910},
-																								run: (*parser).callonListContinuationElement1926,
+																								run: (*parser).callonListContinuationElement1939,
 																								expr: &litMatcher{
 																									pos:        position{line: 776, col: 16, offset: 24910},
 																									val:        "--",
@@ -38718,10 +38810,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 778, col: 8, offset: 24987},
 																							expr: &actionExpr{
-																								pos: position{line: 2861, col: 10, offset: 90627},
-																								run: (*parser).callonListContinuationElement1929,
+																								pos: position{line: 2866, col: 10, offset: 90742},
+																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2861, col: 10, offset: 90627},
+																									pos:        position{line: 2866, col: 10, offset: 90742},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38730,28 +38822,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2883, col: 8, offset: 91025},
+																							pos: position{line: 2888, col: 8, offset: 91140},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 90798},
-																									run: (*parser).callonListContinuationElement1932,
+																									pos: position{line: 2875, col: 12, offset: 90913},
+																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2870, col: 13, offset: 90799},
+																										pos: position{line: 2875, col: 13, offset: 90914},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 13, offset: 90799},
+																												pos:        position{line: 2875, col: 13, offset: 90914},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 20, offset: 90806},
+																												pos:        position{line: 2875, col: 20, offset: 90921},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2870, col: 29, offset: 90815},
+																												pos:        position{line: 2875, col: 29, offset: 90930},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38760,9 +38852,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2880, col: 8, offset: 90975},
+																									pos: position{line: 2885, col: 8, offset: 91090},
 																									expr: &anyMatcher{
-																										line: 2880, col: 9, offset: 90976,
+																										line: 2885, col: 9, offset: 91091,
 																									},
 																								},
 																							},
@@ -38771,21 +38863,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2603, col: 19, offset: 83310},
+																				pos: position{line: 2608, col: 19, offset: 83425},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2603, col: 19, offset: 83310},
+																						pos:        position{line: 2608, col: 19, offset: 83425},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2603, col: 26, offset: 83317},
+																						pos: position{line: 2608, col: 26, offset: 83432},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
-																							run: (*parser).callonListContinuationElement1942,
+																							pos: position{line: 2866, col: 10, offset: 90742},
+																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38794,28 +38886,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2883, col: 8, offset: 91025},
+																						pos: position{line: 2888, col: 8, offset: 91140},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2870, col: 12, offset: 90798},
-																								run: (*parser).callonListContinuationElement1945,
+																								pos: position{line: 2875, col: 12, offset: 90913},
+																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2870, col: 13, offset: 90799},
+																									pos: position{line: 2875, col: 13, offset: 90914},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 90799},
+																											pos:        position{line: 2875, col: 13, offset: 90914},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 20, offset: 90806},
+																											pos:        position{line: 2875, col: 20, offset: 90921},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2870, col: 29, offset: 90815},
+																											pos:        position{line: 2875, col: 29, offset: 90930},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38824,9 +38916,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2880, col: 8, offset: 90975},
+																								pos: position{line: 2885, col: 8, offset: 91090},
 																								expr: &anyMatcher{
-																									line: 2880, col: 9, offset: 90976,
+																									line: 2885, col: 9, offset: 91091,
 																								},
 																							},
 																						},
@@ -38837,15 +38929,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1520, col: 5, offset: 49292},
+																	pos:   position{line: 1525, col: 5, offset: 49396},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2811, col: 14, offset: 89220},
-																		run: (*parser).callonListContinuationElement1953,
+																		pos: position{line: 2816, col: 14, offset: 89335},
+																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2811, col: 14, offset: 89220},
+																			pos: position{line: 2816, col: 14, offset: 89335},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2811, col: 14, offset: 89220},
+																				pos:        position{line: 2816, col: 14, offset: 89335},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38855,28 +38947,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
-																			run: (*parser).callonListContinuationElement1957,
+																			pos: position{line: 2875, col: 12, offset: 90913},
+																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38885,9 +38977,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -38908,33 +39000,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1708, col: 1, offset: 55132},
+			pos:  position{line: 1713, col: 1, offset: 55236},
 			expr: &actionExpr{
-				pos: position{line: 1710, col: 5, offset: 55210},
+				pos: position{line: 1715, col: 5, offset: 55314},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1710, col: 5, offset: 55210},
+					pos: position{line: 1715, col: 5, offset: 55314},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1710, col: 5, offset: 55210},
+							pos: position{line: 1715, col: 5, offset: 55314},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 5, offset: 55277},
+							pos:        position{line: 1718, col: 5, offset: 55381},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1713, col: 9, offset: 55281},
+							pos:   position{line: 1718, col: 9, offset: 55385},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1713, col: 14, offset: 55286},
+								pos: position{line: 1718, col: 14, offset: 55390},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1713, col: 14, offset: 55286},
+									pos: position{line: 1718, col: 14, offset: 55390},
 									expr: &charClassMatcher{
-										pos:        position{line: 1713, col: 14, offset: 55286},
+										pos:        position{line: 1718, col: 14, offset: 55390},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38944,18 +39036,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 62, offset: 55334},
+							pos:        position{line: 1718, col: 62, offset: 55438},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1713, col: 66, offset: 55338},
+							pos: position{line: 1718, col: 66, offset: 55442},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38964,30 +39056,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1713, col: 73, offset: 55345},
+							pos: position{line: 1718, col: 73, offset: 55449},
 							expr: &choiceExpr{
-								pos: position{line: 1713, col: 75, offset: 55347},
+								pos: position{line: 1718, col: 75, offset: 55451},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90798},
+										pos: position{line: 2875, col: 12, offset: 90913},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90799},
+											pos: position{line: 2875, col: 13, offset: 90914},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90799},
+													pos:        position{line: 2875, col: 13, offset: 90914},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90806},
+													pos:        position{line: 2875, col: 20, offset: 90921},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90815},
+													pos:        position{line: 2875, col: 29, offset: 90930},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38996,13 +39088,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2880, col: 8, offset: 90975},
+										pos: position{line: 2885, col: 8, offset: 91090},
 										expr: &anyMatcher{
-											line: 2880, col: 9, offset: 90976,
+											line: 2885, col: 9, offset: 91091,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1713, col: 81, offset: 55353},
+										pos:  position{line: 1718, col: 81, offset: 55457},
 										name: "Callout",
 									},
 								},
@@ -39014,44 +39106,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1752, col: 1, offset: 56526},
+			pos:  position{line: 1757, col: 1, offset: 56644},
 			expr: &actionExpr{
-				pos: position{line: 1754, col: 5, offset: 56600},
+				pos: position{line: 1759, col: 5, offset: 56718},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1754, col: 5, offset: 56600},
+					pos: position{line: 1759, col: 5, offset: 56718},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1754, col: 5, offset: 56600},
+							pos: position{line: 1759, col: 5, offset: 56718},
 							expr: &seqExpr{
-								pos: position{line: 1754, col: 7, offset: 56602},
+								pos: position{line: 1759, col: 7, offset: 56720},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2751, col: 13, offset: 87722},
+										pos:        position{line: 2756, col: 13, offset: 87837},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1754, col: 16, offset: 56611},
+										pos: position{line: 1759, col: 16, offset: 56729},
 										expr: &seqExpr{
-											pos: position{line: 1754, col: 18, offset: 56613},
+											pos: position{line: 1759, col: 18, offset: 56731},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1754, col: 19, offset: 56614},
+													pos:        position{line: 1759, col: 19, offset: 56732},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2865, col: 11, offset: 90688},
+													pos: position{line: 2870, col: 11, offset: 90803},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2865, col: 11, offset: 90688},
+														pos: position{line: 2870, col: 11, offset: 90803},
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 11, offset: 90688},
+															pos:        position{line: 2870, col: 11, offset: 90803},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39066,88 +39158,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56754},
+							pos:   position{line: 1760, col: 5, offset: 56872},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1755, col: 11, offset: 56760},
+								pos: position{line: 1760, col: 11, offset: 56878},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56023},
+									pos: position{line: 1738, col: 5, offset: 56127},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56023},
+										pos: position{line: 1738, col: 5, offset: 56127},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56023},
+												pos: position{line: 1738, col: 5, offset: 56127},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56086},
+												pos:   position{line: 1741, col: 5, offset: 56190},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56093},
+													pos: position{line: 1741, col: 12, offset: 56197},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56093},
+															pos: position{line: 1741, col: 12, offset: 56197},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56093},
+																pos:        position{line: 1741, col: 12, offset: 56197},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56149},
+															pos: position{line: 1743, col: 13, offset: 56253},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56149},
+																pos:        position{line: 1743, col: 13, offset: 56253},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56207},
+															pos: position{line: 1745, col: 13, offset: 56311},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56207},
+																pos:        position{line: 1745, col: 13, offset: 56311},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56275},
+															pos: position{line: 1747, col: 13, offset: 56379},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56275},
+																pos:        position{line: 1747, col: 13, offset: 56379},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56339},
+															pos: position{line: 1749, col: 13, offset: 56443},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56339},
+																pos:        position{line: 1749, col: 13, offset: 56443},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56403},
+															pos: position{line: 1751, col: 13, offset: 56507},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56403},
+																pos: position{line: 1751, col: 13, offset: 56507},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39160,30 +39252,90 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1753, col: 12, offset: 56587},
+												expr: &seqExpr{
+													pos: position{line: 1753, col: 14, offset: 56589},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1753, col: 14, offset: 56589},
+															expr: &actionExpr{
+																pos: position{line: 2866, col: 10, offset: 90742},
+																run: (*parser).callonShortcutParagraph37,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2888, col: 8, offset: 91140},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2875, col: 12, offset: 90913},
+																	run: (*parser).callonShortcutParagraph40,
+																	expr: &choiceExpr{
+																		pos: position{line: 2875, col: 13, offset: 90914},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2885, col: 8, offset: 91090},
+																	expr: &anyMatcher{
+																		line: 2885, col: 9, offset: 91091,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56782},
+							pos:   position{line: 1761, col: 5, offset: 56900},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1793, col: 5, offset: 57993},
-								run: (*parser).callonShortcutParagraph35,
+								pos: position{line: 1798, col: 5, offset: 58111},
+								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1793, col: 5, offset: 57993},
+									pos: position{line: 1798, col: 5, offset: 58111},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1793, col: 5, offset: 57993},
+											pos:   position{line: 1798, col: 5, offset: 58111},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2811, col: 14, offset: 89220},
-												run: (*parser).callonShortcutParagraph38,
+												pos: position{line: 2816, col: 14, offset: 89335},
+												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2811, col: 14, offset: 89220},
+													pos: position{line: 2816, col: 14, offset: 89335},
 													expr: &charClassMatcher{
-														pos:        position{line: 2811, col: 14, offset: 89220},
+														pos:        position{line: 2816, col: 14, offset: 89335},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39193,32 +39345,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1794, col: 5, offset: 58017},
-											run: (*parser).callonShortcutParagraph41,
+											pos: position{line: 1799, col: 5, offset: 58135},
+											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2883, col: 8, offset: 91025},
+											pos: position{line: 2888, col: 8, offset: 91140},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2870, col: 12, offset: 90798},
-													run: (*parser).callonShortcutParagraph43,
+													pos: position{line: 2875, col: 12, offset: 90913},
+													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2870, col: 13, offset: 90799},
+														pos: position{line: 2875, col: 13, offset: 90914},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2870, col: 13, offset: 90799},
+																pos:        position{line: 2875, col: 13, offset: 90914},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 20, offset: 90806},
+																pos:        position{line: 2875, col: 20, offset: 90921},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 29, offset: 90815},
+																pos:        position{line: 2875, col: 29, offset: 90930},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39227,9 +39379,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -39239,47 +39391,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1757, col: 5, offset: 56816},
-							run: (*parser).callonShortcutParagraph50,
+							pos: position{line: 1762, col: 5, offset: 56934},
+							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57146},
+							pos:   position{line: 1769, col: 5, offset: 57264},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1764, col: 16, offset: 57157},
+								pos: position{line: 1769, col: 16, offset: 57275},
 								expr: &actionExpr{
-									pos: position{line: 1765, col: 9, offset: 57167},
-									run: (*parser).callonShortcutParagraph53,
+									pos: position{line: 1770, col: 9, offset: 57285},
+									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1765, col: 9, offset: 57167},
+										pos: position{line: 1770, col: 9, offset: 57285},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90961},
+												pos: position{line: 2883, col: 11, offset: 91076},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90963,
+													line: 2883, col: 13, offset: 91078,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57183},
+												pos: position{line: 1771, col: 9, offset: 57301},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21508},
-													run: (*parser).callonShortcutParagraph58,
+													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
-																	run: (*parser).callonShortcutParagraph63,
+																	pos: position{line: 2866, col: 10, offset: 90742},
+																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39288,28 +39440,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
-																		run: (*parser).callonShortcutParagraph66,
+																		pos: position{line: 2875, col: 12, offset: 90913},
+																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39318,9 +39470,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -39330,27 +39482,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57202},
+												pos: position{line: 1772, col: 9, offset: 57320},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1767, col: 10, offset: 57203},
+													pos:  position{line: 1772, col: 10, offset: 57321},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57227},
+												pos: position{line: 1773, col: 9, offset: 57345},
 												expr: &choiceExpr{
-													pos: position{line: 1768, col: 11, offset: 57229},
+													pos: position{line: 1773, col: 11, offset: 57347},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 724, col: 5, offset: 23080},
-															run: (*parser).callonShortcutParagraph77,
+															run: (*parser).callonShortcutParagraph90,
 															expr: &seqExpr{
 																pos: position{line: 724, col: 5, offset: 23080},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 724, col: 5, offset: 23080},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2751, col: 13, offset: 87722},
+																			pos:        position{line: 2756, col: 13, offset: 87837},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -39365,7 +39517,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23622},
-																					run: (*parser).callonShortcutParagraph83,
+																					run: (*parser).callonShortcutParagraph96,
 																					expr: &seqExpr{
 																						pos: position{line: 740, col: 5, offset: 23622},
 																						exprs: []interface{}{
@@ -39374,7 +39526,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 740, col: 16, offset: 23633},
-																									run: (*parser).callonShortcutParagraph86,
+																									run: (*parser).callonShortcutParagraph99,
 																									expr: &seqExpr{
 																										pos: position{line: 740, col: 16, offset: 23633},
 																										exprs: []interface{}{
@@ -39400,10 +39552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23724},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph92,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39412,28 +39564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph95,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39442,9 +39594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39454,7 +39606,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 747, col: 5, offset: 23870},
-																					run: (*parser).callonShortcutParagraph102,
+																					run: (*parser).callonShortcutParagraph115,
 																					expr: &seqExpr{
 																						pos: position{line: 747, col: 5, offset: 23870},
 																						exprs: []interface{}{
@@ -39463,7 +39615,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 16, offset: 23881},
-																									run: (*parser).callonShortcutParagraph105,
+																									run: (*parser).callonShortcutParagraph118,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 16, offset: 23881},
 																										exprs: []interface{}{
@@ -39489,10 +39641,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph111,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39501,28 +39653,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph114,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39531,9 +39683,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39543,7 +39695,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 760, col: 26, offset: 24358},
-																					run: (*parser).callonShortcutParagraph121,
+																					run: (*parser).callonShortcutParagraph134,
 																					expr: &seqExpr{
 																						pos: position{line: 760, col: 26, offset: 24358},
 																						exprs: []interface{}{
@@ -39558,7 +39710,7 @@ var g = &grammar{
 																								label: "language",
 																								expr: &actionExpr{
 																									pos: position{line: 764, col: 13, offset: 24494},
-																									run: (*parser).callonShortcutParagraph125,
+																									run: (*parser).callonShortcutParagraph138,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 764, col: 14, offset: 24495},
 																										expr: &charClassMatcher{
@@ -39574,10 +39726,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 760, col: 52, offset: 24384},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph129,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39586,28 +39738,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph132,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39616,9 +39768,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39628,7 +39780,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 754, col: 5, offset: 24117},
-																					run: (*parser).callonShortcutParagraph139,
+																					run: (*parser).callonShortcutParagraph152,
 																					expr: &seqExpr{
 																						pos: position{line: 754, col: 5, offset: 24117},
 																						exprs: []interface{}{
@@ -39637,7 +39789,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 16, offset: 24128},
-																									run: (*parser).callonShortcutParagraph142,
+																									run: (*parser).callonShortcutParagraph155,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 16, offset: 24128},
 																										exprs: []interface{}{
@@ -39663,10 +39815,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph148,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39675,28 +39827,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph151,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39705,9 +39857,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39717,7 +39869,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 769, col: 5, offset: 24654},
-																					run: (*parser).callonShortcutParagraph158,
+																					run: (*parser).callonShortcutParagraph171,
 																					expr: &seqExpr{
 																						pos: position{line: 769, col: 5, offset: 24654},
 																						exprs: []interface{}{
@@ -39726,7 +39878,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 16, offset: 24665},
-																									run: (*parser).callonShortcutParagraph161,
+																									run: (*parser).callonShortcutParagraph174,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 16, offset: 24665},
 																										exprs: []interface{}{
@@ -39752,10 +39904,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph167,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39764,28 +39916,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph170,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39794,9 +39946,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39806,7 +39958,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 783, col: 5, offset: 25130},
-																					run: (*parser).callonShortcutParagraph177,
+																					run: (*parser).callonShortcutParagraph190,
 																					expr: &seqExpr{
 																						pos: position{line: 783, col: 5, offset: 25130},
 																						exprs: []interface{}{
@@ -39815,7 +39967,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 16, offset: 25141},
-																									run: (*parser).callonShortcutParagraph180,
+																									run: (*parser).callonShortcutParagraph193,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 16, offset: 25141},
 																										exprs: []interface{}{
@@ -39841,10 +39993,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph186,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39853,28 +40005,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph189,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39883,9 +40035,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39895,7 +40047,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 790, col: 5, offset: 25382},
-																					run: (*parser).callonShortcutParagraph196,
+																					run: (*parser).callonShortcutParagraph209,
 																					expr: &seqExpr{
 																						pos: position{line: 790, col: 5, offset: 25382},
 																						exprs: []interface{}{
@@ -39904,7 +40056,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 16, offset: 25393},
-																									run: (*parser).callonShortcutParagraph199,
+																									run: (*parser).callonShortcutParagraph212,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 16, offset: 25393},
 																										exprs: []interface{}{
@@ -39930,10 +40082,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph205,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39942,28 +40094,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph208,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39972,9 +40124,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -39984,7 +40136,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 797, col: 5, offset: 25632},
-																					run: (*parser).callonShortcutParagraph215,
+																					run: (*parser).callonShortcutParagraph228,
 																					expr: &seqExpr{
 																						pos: position{line: 797, col: 5, offset: 25632},
 																						exprs: []interface{}{
@@ -39993,7 +40145,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 16, offset: 25643},
-																									run: (*parser).callonShortcutParagraph218,
+																									run: (*parser).callonShortcutParagraph231,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 16, offset: 25643},
 																										exprs: []interface{}{
@@ -40019,10 +40171,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph224,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40031,28 +40183,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph227,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40061,9 +40213,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -40073,7 +40225,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 804, col: 5, offset: 25878},
-																					run: (*parser).callonShortcutParagraph234,
+																					run: (*parser).callonShortcutParagraph247,
 																					expr: &seqExpr{
 																						pos: position{line: 804, col: 5, offset: 25878},
 																						exprs: []interface{}{
@@ -40082,7 +40234,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 16, offset: 25889},
-																									run: (*parser).callonShortcutParagraph237,
+																									run: (*parser).callonShortcutParagraph250,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 16, offset: 25889},
 																										exprs: []interface{}{
@@ -40108,10 +40260,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonShortcutParagraph243,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40120,28 +40272,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonShortcutParagraph246,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40150,9 +40302,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -40168,7 +40320,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 776, col: 5, offset: 24899},
-															run: (*parser).callonShortcutParagraph253,
+															run: (*parser).callonShortcutParagraph266,
 															expr: &seqExpr{
 																pos: position{line: 776, col: 5, offset: 24899},
 																exprs: []interface{}{
@@ -40177,7 +40329,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 776, col: 16, offset: 24910},
-																			run: (*parser).callonShortcutParagraph256,
+																			run: (*parser).callonShortcutParagraph269,
 																			expr: &litMatcher{
 																				pos:        position{line: 776, col: 16, offset: 24910},
 																				val:        "--",
@@ -40189,10 +40341,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
-																			run: (*parser).callonShortcutParagraph259,
+																			pos: position{line: 2866, col: 10, offset: 90742},
+																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40201,28 +40353,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonShortcutParagraph262,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40231,9 +40383,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -40242,21 +40394,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83310},
+															pos: position{line: 2608, col: 19, offset: 83425},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83310},
+																	pos:        position{line: 2608, col: 19, offset: 83425},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83317},
+																	pos: position{line: 2608, col: 26, offset: 83432},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
-																		run: (*parser).callonShortcutParagraph272,
+																		pos: position{line: 2866, col: 10, offset: 90742},
+																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40265,28 +40417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
-																			run: (*parser).callonShortcutParagraph275,
+																			pos: position{line: 2875, col: 12, offset: 90913},
+																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40295,9 +40447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -40308,23 +40460,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57291},
+												pos: position{line: 1774, col: 9, offset: 57409},
 												expr: &seqExpr{
-													pos: position{line: 1544, col: 27, offset: 49945},
+													pos: position{line: 1549, col: 27, offset: 50049},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1544, col: 27, offset: 49945},
+															pos:        position{line: 1549, col: 27, offset: 50049},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1544, col: 31, offset: 49949},
+															pos: position{line: 1549, col: 31, offset: 50053},
 															expr: &actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90627},
-																run: (*parser).callonShortcutParagraph286,
+																pos: position{line: 2866, col: 10, offset: 90742},
+																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90627},
+																	pos:        position{line: 2866, col: 10, offset: 90742},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40333,25 +40485,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
-															run: (*parser).callonShortcutParagraph288,
+															pos: position{line: 2875, col: 12, offset: 90913},
+															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40363,42 +40515,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1770, col: 9, offset: 57323},
+												pos:   position{line: 1775, col: 9, offset: 57441},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1770, col: 15, offset: 57329},
+													pos: position{line: 1775, col: 15, offset: 57447},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79612},
-															run: (*parser).callonShortcutParagraph295,
+															pos: position{line: 2476, col: 22, offset: 79727},
+															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79612},
+																pos: position{line: 2476, col: 22, offset: 79727},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79833},
+																		pos:        position{line: 2481, col: 31, offset: 79948},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79838},
+																		pos: position{line: 2481, col: 36, offset: 79953},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79839},
+																			pos:        position{line: 2481, col: 37, offset: 79954},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79639},
+																		pos:   position{line: 2476, col: 49, offset: 79754},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89153},
-																			run: (*parser).callonShortcutParagraph301,
+																			pos: position{line: 2812, col: 13, offset: 89268},
+																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89153},
+																				pos: position{line: 2812, col: 13, offset: 89268},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89153},
+																					pos:        position{line: 2812, col: 13, offset: 89268},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40408,28 +40560,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonShortcutParagraph305,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40438,9 +40590,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -40449,21 +40601,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1793, col: 5, offset: 57993},
-															run: (*parser).callonShortcutParagraph312,
+															pos: position{line: 1798, col: 5, offset: 58111},
+															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1793, col: 5, offset: 57993},
+																pos: position{line: 1798, col: 5, offset: 58111},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1793, col: 5, offset: 57993},
+																		pos:   position{line: 1798, col: 5, offset: 58111},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89220},
-																			run: (*parser).callonShortcutParagraph315,
+																			pos: position{line: 2816, col: 14, offset: 89335},
+																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89220},
+																				pos: position{line: 2816, col: 14, offset: 89335},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89220},
+																					pos:        position{line: 2816, col: 14, offset: 89335},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40473,32 +40625,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1794, col: 5, offset: 58017},
-																		run: (*parser).callonShortcutParagraph318,
+																		pos: position{line: 1799, col: 5, offset: 58135},
+																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonShortcutParagraph320,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40507,9 +40659,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -40531,96 +40683,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1777, col: 1, offset: 57533},
+			pos:  position{line: 1782, col: 1, offset: 57651},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57551},
+				pos: position{line: 1783, col: 5, offset: 57669},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57551},
+					pos: position{line: 1783, col: 5, offset: 57669},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57551},
+							pos:   position{line: 1783, col: 5, offset: 57669},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1778, col: 11, offset: 57557},
+								pos: position{line: 1783, col: 11, offset: 57675},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56023},
+									pos: position{line: 1738, col: 5, offset: 56127},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56023},
+										pos: position{line: 1738, col: 5, offset: 56127},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56023},
+												pos: position{line: 1738, col: 5, offset: 56127},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56086},
+												pos:   position{line: 1741, col: 5, offset: 56190},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56093},
+													pos: position{line: 1741, col: 12, offset: 56197},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56093},
+															pos: position{line: 1741, col: 12, offset: 56197},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56093},
+																pos:        position{line: 1741, col: 12, offset: 56197},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56149},
+															pos: position{line: 1743, col: 13, offset: 56253},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56149},
+																pos:        position{line: 1743, col: 13, offset: 56253},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56207},
+															pos: position{line: 1745, col: 13, offset: 56311},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56207},
+																pos:        position{line: 1745, col: 13, offset: 56311},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56275},
+															pos: position{line: 1747, col: 13, offset: 56379},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56275},
+																pos:        position{line: 1747, col: 13, offset: 56379},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56339},
+															pos: position{line: 1749, col: 13, offset: 56443},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56339},
+																pos:        position{line: 1749, col: 13, offset: 56443},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56403},
+															pos: position{line: 1751, col: 13, offset: 56507},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56403},
+																pos: position{line: 1751, col: 13, offset: 56507},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90688},
+																	pos: position{line: 2870, col: 11, offset: 90803},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2865, col: 11, offset: 90688},
+																		pos: position{line: 2870, col: 11, offset: 90803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90688},
+																			pos:        position{line: 2870, col: 11, offset: 90803},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40633,30 +40785,90 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1753, col: 12, offset: 56587},
+												expr: &seqExpr{
+													pos: position{line: 1753, col: 14, offset: 56589},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1753, col: 14, offset: 56589},
+															expr: &actionExpr{
+																pos: position{line: 2866, col: 10, offset: 90742},
+																run: (*parser).callonParagraph28,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2888, col: 8, offset: 91140},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2875, col: 12, offset: 90913},
+																	run: (*parser).callonParagraph31,
+																	expr: &choiceExpr{
+																		pos: position{line: 2875, col: 13, offset: 90914},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2885, col: 8, offset: 91090},
+																	expr: &anyMatcher{
+																		line: 2885, col: 9, offset: 91091,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57580},
+							pos:   position{line: 1784, col: 5, offset: 57698},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1793, col: 5, offset: 57993},
-								run: (*parser).callonParagraph26,
+								pos: position{line: 1798, col: 5, offset: 58111},
+								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1793, col: 5, offset: 57993},
+									pos: position{line: 1798, col: 5, offset: 58111},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1793, col: 5, offset: 57993},
+											pos:   position{line: 1798, col: 5, offset: 58111},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2811, col: 14, offset: 89220},
-												run: (*parser).callonParagraph29,
+												pos: position{line: 2816, col: 14, offset: 89335},
+												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2811, col: 14, offset: 89220},
+													pos: position{line: 2816, col: 14, offset: 89335},
 													expr: &charClassMatcher{
-														pos:        position{line: 2811, col: 14, offset: 89220},
+														pos:        position{line: 2816, col: 14, offset: 89335},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40666,32 +40878,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1794, col: 5, offset: 58017},
-											run: (*parser).callonParagraph32,
+											pos: position{line: 1799, col: 5, offset: 58135},
+											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2883, col: 8, offset: 91025},
+											pos: position{line: 2888, col: 8, offset: 91140},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2870, col: 12, offset: 90798},
-													run: (*parser).callonParagraph34,
+													pos: position{line: 2875, col: 12, offset: 90913},
+													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2870, col: 13, offset: 90799},
+														pos: position{line: 2875, col: 13, offset: 90914},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2870, col: 13, offset: 90799},
+																pos:        position{line: 2875, col: 13, offset: 90914},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 20, offset: 90806},
+																pos:        position{line: 2875, col: 20, offset: 90921},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2870, col: 29, offset: 90815},
+																pos:        position{line: 2875, col: 29, offset: 90930},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40700,9 +40912,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2880, col: 8, offset: 90975},
+													pos: position{line: 2885, col: 8, offset: 91090},
 													expr: &anyMatcher{
-														line: 2880, col: 9, offset: 90976,
+														line: 2885, col: 9, offset: 91091,
 													},
 												},
 											},
@@ -40712,43 +40924,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57614},
+							pos:   position{line: 1785, col: 5, offset: 57732},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1780, col: 16, offset: 57625},
+								pos: position{line: 1785, col: 16, offset: 57743},
 								expr: &actionExpr{
-									pos: position{line: 1781, col: 9, offset: 57635},
-									run: (*parser).callonParagraph43,
+									pos: position{line: 1786, col: 9, offset: 57753},
+									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1781, col: 9, offset: 57635},
+										pos: position{line: 1786, col: 9, offset: 57753},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90961},
+												pos: position{line: 2883, col: 11, offset: 91076},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90963,
+													line: 2883, col: 13, offset: 91078,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57650},
+												pos: position{line: 1787, col: 9, offset: 57768},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21508},
-													run: (*parser).callonParagraph48,
+													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21508},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2878, col: 11, offset: 90961},
+																pos: position{line: 2883, col: 11, offset: 91076},
 																expr: &anyMatcher{
-																	line: 2878, col: 13, offset: 90963,
+																	line: 2883, col: 13, offset: 91078,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21515},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
-																	run: (*parser).callonParagraph53,
+																	pos: position{line: 2866, col: 10, offset: 90742},
+																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40757,28 +40969,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2883, col: 8, offset: 91025},
+																pos: position{line: 2888, col: 8, offset: 91140},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 90798},
-																		run: (*parser).callonParagraph56,
+																		pos: position{line: 2875, col: 12, offset: 90913},
+																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2870, col: 13, offset: 90799},
+																			pos: position{line: 2875, col: 13, offset: 90914},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 13, offset: 90799},
+																					pos:        position{line: 2875, col: 13, offset: 90914},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 20, offset: 90806},
+																					pos:        position{line: 2875, col: 20, offset: 90921},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2870, col: 29, offset: 90815},
+																					pos:        position{line: 2875, col: 29, offset: 90930},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40787,9 +40999,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2880, col: 8, offset: 90975},
+																		pos: position{line: 2885, col: 8, offset: 91090},
 																		expr: &anyMatcher{
-																			line: 2880, col: 9, offset: 90976,
+																			line: 2885, col: 9, offset: 91091,
 																		},
 																	},
 																},
@@ -40799,27 +41011,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57669},
+												pos: position{line: 1788, col: 9, offset: 57787},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1783, col: 10, offset: 57670},
+													pos:  position{line: 1788, col: 10, offset: 57788},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1784, col: 9, offset: 57694},
+												pos: position{line: 1789, col: 9, offset: 57812},
 												expr: &choiceExpr{
-													pos: position{line: 1784, col: 11, offset: 57696},
+													pos: position{line: 1789, col: 11, offset: 57814},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 724, col: 5, offset: 23080},
-															run: (*parser).callonParagraph67,
+															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
 																pos: position{line: 724, col: 5, offset: 23080},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 724, col: 5, offset: 23080},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2751, col: 13, offset: 87722},
+																			pos:        position{line: 2756, col: 13, offset: 87837},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40834,7 +41046,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23622},
-																					run: (*parser).callonParagraph73,
+																					run: (*parser).callonParagraph86,
 																					expr: &seqExpr{
 																						pos: position{line: 740, col: 5, offset: 23622},
 																						exprs: []interface{}{
@@ -40843,7 +41055,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 740, col: 16, offset: 23633},
-																									run: (*parser).callonParagraph76,
+																									run: (*parser).callonParagraph89,
 																									expr: &seqExpr{
 																										pos: position{line: 740, col: 16, offset: 23633},
 																										exprs: []interface{}{
@@ -40869,10 +41081,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23724},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph82,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40881,28 +41093,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph85,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40911,9 +41123,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -40923,7 +41135,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 747, col: 5, offset: 23870},
-																					run: (*parser).callonParagraph92,
+																					run: (*parser).callonParagraph105,
 																					expr: &seqExpr{
 																						pos: position{line: 747, col: 5, offset: 23870},
 																						exprs: []interface{}{
@@ -40932,7 +41144,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 16, offset: 23881},
-																									run: (*parser).callonParagraph95,
+																									run: (*parser).callonParagraph108,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 16, offset: 23881},
 																										exprs: []interface{}{
@@ -40958,10 +41170,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23972},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph101,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40970,28 +41182,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph104,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41000,9 +41212,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41012,7 +41224,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 760, col: 26, offset: 24358},
-																					run: (*parser).callonParagraph111,
+																					run: (*parser).callonParagraph124,
 																					expr: &seqExpr{
 																						pos: position{line: 760, col: 26, offset: 24358},
 																						exprs: []interface{}{
@@ -41027,7 +41239,7 @@ var g = &grammar{
 																								label: "language",
 																								expr: &actionExpr{
 																									pos: position{line: 764, col: 13, offset: 24494},
-																									run: (*parser).callonParagraph115,
+																									run: (*parser).callonParagraph128,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 764, col: 14, offset: 24495},
 																										expr: &charClassMatcher{
@@ -41043,10 +41255,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 760, col: 52, offset: 24384},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph119,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41055,28 +41267,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph122,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41085,9 +41297,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41097,7 +41309,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 754, col: 5, offset: 24117},
-																					run: (*parser).callonParagraph129,
+																					run: (*parser).callonParagraph142,
 																					expr: &seqExpr{
 																						pos: position{line: 754, col: 5, offset: 24117},
 																						exprs: []interface{}{
@@ -41106,7 +41318,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 16, offset: 24128},
-																									run: (*parser).callonParagraph132,
+																									run: (*parser).callonParagraph145,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 16, offset: 24128},
 																										exprs: []interface{}{
@@ -41132,10 +41344,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24218},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph138,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41144,28 +41356,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph141,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41174,9 +41386,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41186,7 +41398,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 769, col: 5, offset: 24654},
-																					run: (*parser).callonParagraph148,
+																					run: (*parser).callonParagraph161,
 																					expr: &seqExpr{
 																						pos: position{line: 769, col: 5, offset: 24654},
 																						exprs: []interface{}{
@@ -41195,7 +41407,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 16, offset: 24665},
-																									run: (*parser).callonParagraph151,
+																									run: (*parser).callonParagraph164,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 16, offset: 24665},
 																										exprs: []interface{}{
@@ -41221,10 +41433,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24756},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph157,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41233,28 +41445,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph160,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41263,9 +41475,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41275,7 +41487,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 783, col: 5, offset: 25130},
-																					run: (*parser).callonParagraph167,
+																					run: (*parser).callonParagraph180,
 																					expr: &seqExpr{
 																						pos: position{line: 783, col: 5, offset: 25130},
 																						exprs: []interface{}{
@@ -41284,7 +41496,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 16, offset: 25141},
-																									run: (*parser).callonParagraph170,
+																									run: (*parser).callonParagraph183,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 16, offset: 25141},
 																										exprs: []interface{}{
@@ -41310,10 +41522,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25232},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph176,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41322,28 +41534,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph179,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41352,9 +41564,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41364,7 +41576,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 790, col: 5, offset: 25382},
-																					run: (*parser).callonParagraph186,
+																					run: (*parser).callonParagraph199,
 																					expr: &seqExpr{
 																						pos: position{line: 790, col: 5, offset: 25382},
 																						exprs: []interface{}{
@@ -41373,7 +41585,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 16, offset: 25393},
-																									run: (*parser).callonParagraph189,
+																									run: (*parser).callonParagraph202,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 16, offset: 25393},
 																										exprs: []interface{}{
@@ -41399,10 +41611,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25484},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph195,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41411,28 +41623,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph198,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41441,9 +41653,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41453,7 +41665,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 797, col: 5, offset: 25632},
-																					run: (*parser).callonParagraph205,
+																					run: (*parser).callonParagraph218,
 																					expr: &seqExpr{
 																						pos: position{line: 797, col: 5, offset: 25632},
 																						exprs: []interface{}{
@@ -41462,7 +41674,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 16, offset: 25643},
-																									run: (*parser).callonParagraph208,
+																									run: (*parser).callonParagraph221,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 16, offset: 25643},
 																										exprs: []interface{}{
@@ -41488,10 +41700,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25734},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph214,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41500,28 +41712,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph217,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41530,9 +41742,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41542,7 +41754,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 804, col: 5, offset: 25878},
-																					run: (*parser).callonParagraph224,
+																					run: (*parser).callonParagraph237,
 																					expr: &seqExpr{
 																						pos: position{line: 804, col: 5, offset: 25878},
 																						exprs: []interface{}{
@@ -41551,7 +41763,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 16, offset: 25889},
-																									run: (*parser).callonParagraph227,
+																									run: (*parser).callonParagraph240,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 16, offset: 25889},
 																										exprs: []interface{}{
@@ -41577,10 +41789,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25980},
 																								expr: &actionExpr{
-																									pos: position{line: 2861, col: 10, offset: 90627},
-																									run: (*parser).callonParagraph233,
+																									pos: position{line: 2866, col: 10, offset: 90742},
+																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2861, col: 10, offset: 90627},
+																										pos:        position{line: 2866, col: 10, offset: 90742},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41589,28 +41801,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2883, col: 8, offset: 91025},
+																								pos: position{line: 2888, col: 8, offset: 91140},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2870, col: 12, offset: 90798},
-																										run: (*parser).callonParagraph236,
+																										pos: position{line: 2875, col: 12, offset: 90913},
+																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2870, col: 13, offset: 90799},
+																											pos: position{line: 2875, col: 13, offset: 90914},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 90799},
+																													pos:        position{line: 2875, col: 13, offset: 90914},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 20, offset: 90806},
+																													pos:        position{line: 2875, col: 20, offset: 90921},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2870, col: 29, offset: 90815},
+																													pos:        position{line: 2875, col: 29, offset: 90930},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41619,9 +41831,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2880, col: 8, offset: 90975},
+																										pos: position{line: 2885, col: 8, offset: 91090},
 																										expr: &anyMatcher{
-																											line: 2880, col: 9, offset: 90976,
+																											line: 2885, col: 9, offset: 91091,
 																										},
 																									},
 																								},
@@ -41637,7 +41849,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 776, col: 5, offset: 24899},
-															run: (*parser).callonParagraph243,
+															run: (*parser).callonParagraph256,
 															expr: &seqExpr{
 																pos: position{line: 776, col: 5, offset: 24899},
 																exprs: []interface{}{
@@ -41646,7 +41858,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 776, col: 16, offset: 24910},
-																			run: (*parser).callonParagraph246,
+																			run: (*parser).callonParagraph259,
 																			expr: &litMatcher{
 																				pos:        position{line: 776, col: 16, offset: 24910},
 																				val:        "--",
@@ -41658,10 +41870,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24987},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
-																			run: (*parser).callonParagraph249,
+																			pos: position{line: 2866, col: 10, offset: 90742},
+																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41670,28 +41882,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonParagraph252,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41700,9 +41912,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -41711,21 +41923,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2603, col: 19, offset: 83310},
+															pos: position{line: 2608, col: 19, offset: 83425},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2603, col: 19, offset: 83310},
+																	pos:        position{line: 2608, col: 19, offset: 83425},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2603, col: 26, offset: 83317},
+																	pos: position{line: 2608, col: 26, offset: 83432},
 																	expr: &actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
-																		run: (*parser).callonParagraph262,
+																		pos: position{line: 2866, col: 10, offset: 90742},
+																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41734,28 +41946,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
-																			run: (*parser).callonParagraph265,
+																			pos: position{line: 2875, col: 12, offset: 90913},
+																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41764,9 +41976,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -41777,42 +41989,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1785, col: 9, offset: 57758},
+												pos:   position{line: 1790, col: 9, offset: 57876},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1785, col: 15, offset: 57764},
+													pos: position{line: 1790, col: 15, offset: 57882},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2471, col: 22, offset: 79612},
-															run: (*parser).callonParagraph274,
+															pos: position{line: 2476, col: 22, offset: 79727},
+															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 22, offset: 79612},
+																pos: position{line: 2476, col: 22, offset: 79727},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2476, col: 31, offset: 79833},
+																		pos:        position{line: 2481, col: 31, offset: 79948},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2476, col: 36, offset: 79838},
+																		pos: position{line: 2481, col: 36, offset: 79953},
 																		expr: &litMatcher{
-																			pos:        position{line: 2476, col: 37, offset: 79839},
+																			pos:        position{line: 2481, col: 37, offset: 79954},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2471, col: 49, offset: 79639},
+																		pos:   position{line: 2476, col: 49, offset: 79754},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2807, col: 13, offset: 89153},
-																			run: (*parser).callonParagraph280,
+																			pos: position{line: 2812, col: 13, offset: 89268},
+																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2807, col: 13, offset: 89153},
+																				pos: position{line: 2812, col: 13, offset: 89268},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 13, offset: 89153},
+																					pos:        position{line: 2812, col: 13, offset: 89268},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41822,28 +42034,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonParagraph284,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41852,9 +42064,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -41863,21 +42075,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1793, col: 5, offset: 57993},
-															run: (*parser).callonParagraph291,
+															pos: position{line: 1798, col: 5, offset: 58111},
+															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1793, col: 5, offset: 57993},
+																pos: position{line: 1798, col: 5, offset: 58111},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1793, col: 5, offset: 57993},
+																		pos:   position{line: 1798, col: 5, offset: 58111},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 14, offset: 89220},
-																			run: (*parser).callonParagraph294,
+																			pos: position{line: 2816, col: 14, offset: 89335},
+																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2811, col: 14, offset: 89220},
+																				pos: position{line: 2816, col: 14, offset: 89335},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 14, offset: 89220},
+																					pos:        position{line: 2816, col: 14, offset: 89335},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41887,32 +42099,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1794, col: 5, offset: 58017},
-																		run: (*parser).callonParagraph297,
+																		pos: position{line: 1799, col: 5, offset: 58135},
+																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2883, col: 8, offset: 91025},
+																		pos: position{line: 2888, col: 8, offset: 91140},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
-																				run: (*parser).callonParagraph299,
+																				pos: position{line: 2875, col: 12, offset: 90913},
+																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41921,9 +42133,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2880, col: 8, offset: 90975},
+																				pos: position{line: 2885, col: 8, offset: 91090},
 																				expr: &anyMatcher{
-																					line: 2880, col: 9, offset: 90976,
+																					line: 2885, col: 9, offset: 91091,
 																				},
 																			},
 																		},
@@ -41945,16 +42157,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1804, col: 1, offset: 58503},
+			pos:  position{line: 1809, col: 1, offset: 58618},
 			expr: &choiceExpr{
-				pos: position{line: 1804, col: 15, offset: 58517},
+				pos: position{line: 1809, col: 15, offset: 58632},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1804, col: 15, offset: 58517},
+						pos:  position{line: 1809, col: 15, offset: 58632},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1804, col: 35, offset: 58537},
+						pos:  position{line: 1809, col: 35, offset: 58652},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41962,65 +42174,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58558},
+			pos:  position{line: 1811, col: 1, offset: 58673},
 			expr: &actionExpr{
-				pos: position{line: 1807, col: 5, offset: 58583},
+				pos: position{line: 1812, col: 5, offset: 58698},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1807, col: 5, offset: 58583},
+					pos: position{line: 1812, col: 5, offset: 58698},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1807, col: 5, offset: 58583},
+							pos:   position{line: 1812, col: 5, offset: 58698},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1807, col: 16, offset: 58594},
+								pos: position{line: 1812, col: 16, offset: 58709},
 								expr: &actionExpr{
-									pos: position{line: 1807, col: 17, offset: 58595},
+									pos: position{line: 1812, col: 17, offset: 58710},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1807, col: 17, offset: 58595},
+										pos:  position{line: 1812, col: 17, offset: 58710},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1810, col: 5, offset: 58663},
+							pos: position{line: 1815, col: 5, offset: 58778},
 							expr: &litMatcher{
-								pos:        position{line: 1810, col: 7, offset: 58665},
+								pos:        position{line: 1815, col: 7, offset: 58780},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58674},
+							pos:   position{line: 1816, col: 5, offset: 58789},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1812, col: 9, offset: 58692},
+								pos: position{line: 1817, col: 9, offset: 58807},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 9, offset: 58692},
+										pos:  position{line: 1817, col: 9, offset: 58807},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58719},
+										pos:  position{line: 1818, col: 11, offset: 58834},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58747},
+										pos:  position{line: 1819, col: 11, offset: 58862},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58778},
+										pos:  position{line: 1820, col: 11, offset: 58893},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58806},
+										pos:  position{line: 1821, col: 11, offset: 58921},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58837},
+										pos:  position{line: 1822, col: 11, offset: 58952},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42032,36 +42244,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1822, col: 1, offset: 58957},
+			pos:  position{line: 1827, col: 1, offset: 59072},
 			expr: &actionExpr{
-				pos: position{line: 1823, col: 5, offset: 58999},
+				pos: position{line: 1828, col: 5, offset: 59114},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1823, col: 5, offset: 58999},
+					pos: position{line: 1828, col: 5, offset: 59114},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58999},
+							pos:   position{line: 1828, col: 5, offset: 59114},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1823, col: 16, offset: 59010},
+								pos: position{line: 1828, col: 16, offset: 59125},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1823, col: 17, offset: 59011},
+									pos:  position{line: 1828, col: 17, offset: 59126},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1824, col: 5, offset: 59036},
+							pos:   position{line: 1829, col: 5, offset: 59151},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1824, col: 14, offset: 59045},
+								pos: position{line: 1829, col: 14, offset: 59160},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 14, offset: 59045},
+										pos:  position{line: 1829, col: 14, offset: 59160},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 33, offset: 59064},
+										pos:  position{line: 1829, col: 33, offset: 59179},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42073,32 +42285,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1832, col: 1, offset: 59295},
+			pos:  position{line: 1837, col: 1, offset: 59410},
 			expr: &choiceExpr{
-				pos: position{line: 1833, col: 5, offset: 59320},
+				pos: position{line: 1838, col: 5, offset: 59435},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 5, offset: 59320},
+						pos:  position{line: 1838, col: 5, offset: 59435},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59347},
+						pos:  position{line: 1839, col: 7, offset: 59462},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59375},
+						pos:  position{line: 1840, col: 7, offset: 59490},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59407},
+						pos:  position{line: 1841, col: 7, offset: 59522},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59435},
+						pos:  position{line: 1842, col: 7, offset: 59550},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59456},
+						pos:  position{line: 1843, col: 7, offset: 59571},
 						name: "SuperscriptText",
 					},
 				},
@@ -42106,24 +42318,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1840, col: 1, offset: 59474},
+			pos:  position{line: 1845, col: 1, offset: 59589},
 			expr: &choiceExpr{
-				pos: position{line: 1841, col: 5, offset: 59499},
+				pos: position{line: 1846, col: 5, offset: 59614},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 5, offset: 59499},
+						pos:  position{line: 1846, col: 5, offset: 59614},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59525},
+						pos:  position{line: 1847, col: 7, offset: 59640},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59553},
+						pos:  position{line: 1848, col: 7, offset: 59668},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59584},
+						pos:  position{line: 1849, col: 7, offset: 59699},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42131,26 +42343,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1858, col: 1, offset: 59938},
+			pos:  position{line: 1863, col: 1, offset: 60053},
 			expr: &choiceExpr{
-				pos: position{line: 1859, col: 5, offset: 59964},
+				pos: position{line: 1864, col: 5, offset: 60079},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2760, col: 5, offset: 87869},
+						pos: position{line: 2765, col: 5, offset: 87984},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2760, col: 5, offset: 87869},
+							pos: position{line: 2765, col: 5, offset: 87984},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2760, col: 5, offset: 87869},
+									pos:   position{line: 2765, col: 5, offset: 87984},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2760, col: 11, offset: 87875},
+										pos: position{line: 2765, col: 11, offset: 87990},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2760, col: 11, offset: 87875},
+											pos: position{line: 2765, col: 11, offset: 87990},
 											expr: &charClassMatcher{
-												pos:        position{line: 2760, col: 11, offset: 87875},
+												pos:        position{line: 2765, col: 11, offset: 87990},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42160,36 +42372,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2763, col: 5, offset: 87933},
+									pos: position{line: 2768, col: 5, offset: 88048},
 									expr: &seqExpr{
-										pos: position{line: 2764, col: 9, offset: 87944},
+										pos: position{line: 2769, col: 9, offset: 88059},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2764, col: 9, offset: 87944},
+												pos:        position{line: 2769, col: 9, offset: 88059},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2765, col: 9, offset: 87993},
+												pos: position{line: 2770, col: 9, offset: 88108},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2769, col: 5, offset: 88073},
+									pos: position{line: 2774, col: 5, offset: 88188},
 									expr: &seqExpr{
-										pos: position{line: 2770, col: 9, offset: 88084},
+										pos: position{line: 2775, col: 9, offset: 88199},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2770, col: 9, offset: 88084},
+												pos:        position{line: 2775, col: 9, offset: 88199},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88088},
+												pos:        position{line: 2775, col: 13, offset: 88203},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42202,12 +42414,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 11, offset: 90688},
+						pos: position{line: 2870, col: 11, offset: 90803},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2865, col: 11, offset: 90688},
+							pos: position{line: 2870, col: 11, offset: 90803},
 							expr: &charClassMatcher{
-								pos:        position{line: 2865, col: 11, offset: 90688},
+								pos:        position{line: 2870, col: 11, offset: 90803},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42216,25 +42428,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60027},
+						pos:  position{line: 1866, col: 7, offset: 60142},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2489, col: 5, offset: 80329},
+						pos: position{line: 2494, col: 5, offset: 80444},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2489, col: 5, offset: 80329},
+							pos: position{line: 2494, col: 5, offset: 80444},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2489, col: 5, offset: 80329},
+									pos:        position{line: 2494, col: 5, offset: 80444},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2489, col: 10, offset: 80334},
+									pos: position{line: 2494, col: 10, offset: 80449},
 									expr: &charClassMatcher{
-										pos:        position{line: 2489, col: 11, offset: 80335},
+										pos:        position{line: 2494, col: 11, offset: 80450},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42245,29 +42457,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2495, col: 5, offset: 80527},
+						pos: position{line: 2500, col: 5, offset: 80642},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2495, col: 5, offset: 80527},
+							pos: position{line: 2500, col: 5, offset: 80642},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2495, col: 5, offset: 80527},
+									pos: position{line: 2500, col: 5, offset: 80642},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80598},
+									pos: position{line: 2503, col: 5, offset: 80713},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2502, col: 5, offset: 80723},
+									pos:        position{line: 2507, col: 5, offset: 80838},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2502, col: 9, offset: 80727},
+									pos: position{line: 2507, col: 9, offset: 80842},
 									expr: &charClassMatcher{
-										pos:        position{line: 2502, col: 10, offset: 80728},
+										pos:        position{line: 2507, col: 10, offset: 80843},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42278,27 +42490,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2778, col: 5, offset: 88281},
+						pos: position{line: 2783, col: 5, offset: 88396},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2779, col: 9, offset: 88291},
+							pos: position{line: 2784, col: 9, offset: 88406},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2779, col: 10, offset: 88292},
+									pos:        position{line: 2784, col: 10, offset: 88407},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2781, col: 13, offset: 88389},
+									pos: position{line: 2786, col: 13, offset: 88504},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2781, col: 13, offset: 88389},
+											pos: position{line: 2786, col: 13, offset: 88504},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2784, col: 13, offset: 88489},
+											pos:        position{line: 2789, col: 13, offset: 88604},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42306,20 +42518,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2784, col: 19, offset: 88495},
+									pos:        position{line: 2789, col: 19, offset: 88610},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2787, col: 13, offset: 88533},
+									pos: position{line: 2792, col: 13, offset: 88648},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2787, col: 13, offset: 88533},
+											pos: position{line: 2792, col: 13, offset: 88648},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88626},
+											pos:        position{line: 2795, col: 14, offset: 88741},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42328,18 +42540,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2792, col: 12, offset: 88670},
+									pos: position{line: 2797, col: 12, offset: 88785},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2792, col: 12, offset: 88670},
+											pos:        position{line: 2797, col: 12, offset: 88785},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2792, col: 16, offset: 88674},
+											pos: position{line: 2797, col: 16, offset: 88789},
 											expr: &litMatcher{
-												pos:        position{line: 2792, col: 17, offset: 88675},
+												pos:        position{line: 2797, col: 17, offset: 88790},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42697,31 +42909,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2874, col: 18, offset: 90898},
+						pos: position{line: 2879, col: 18, offset: 91013},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2874, col: 18, offset: 90898},
+							pos: position{line: 2879, col: 18, offset: 91013},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42730,27 +42942,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2874, col: 26, offset: 90906},
+									pos: position{line: 2879, col: 26, offset: 91021},
 									expr: &actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90798},
+										pos: position{line: 2875, col: 12, offset: 90913},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90799},
+											pos: position{line: 2875, col: 13, offset: 90914},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90799},
+													pos:        position{line: 2875, col: 13, offset: 90914},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90806},
+													pos:        position{line: 2875, col: 20, offset: 90921},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90815},
+													pos:        position{line: 2875, col: 29, offset: 90930},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42763,31 +42975,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60194},
+						pos:  position{line: 1871, col: 7, offset: 60309},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60241},
+						pos:  position{line: 1872, col: 7, offset: 60356},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2458, col: 5, offset: 79158},
+						pos: position{line: 2463, col: 5, offset: 79273},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2458, col: 5, offset: 79158},
+							pos: position{line: 2463, col: 5, offset: 79273},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2458, col: 5, offset: 79158},
+									pos: position{line: 2463, col: 5, offset: 79273},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2461, col: 5, offset: 79234},
+									pos:   position{line: 2466, col: 5, offset: 79349},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2462, col: 9, offset: 79252},
+										pos: position{line: 2467, col: 9, offset: 79367},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2462, col: 10, offset: 79253},
+											pos:        position{line: 2467, col: 10, offset: 79368},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42838,10 +43050,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2800, col: 12, offset: 88935},
+						pos: position{line: 2805, col: 12, offset: 89050},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2800, col: 12, offset: 88935},
+							pos:        position{line: 2805, col: 12, offset: 89050},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42853,29 +43065,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1885, col: 1, offset: 60711},
+			pos:  position{line: 1890, col: 1, offset: 60826},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60739},
+				pos: position{line: 1891, col: 5, offset: 60854},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60739},
+					pos: position{line: 1891, col: 5, offset: 60854},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1881, col: 38, offset: 60664},
+							pos:        position{line: 1886, col: 38, offset: 60779},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1887, col: 5, offset: 60778},
+							pos:   position{line: 1892, col: 5, offset: 60893},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1887, col: 15, offset: 60788},
+								pos:  position{line: 1892, col: 15, offset: 60903},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1883, col: 36, offset: 60705},
+							pos:        position{line: 1888, col: 36, offset: 60820},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42886,44 +43098,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1892, col: 1, offset: 60948},
+			pos:  position{line: 1897, col: 1, offset: 61063},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1892, col: 32, offset: 60979},
+				pos: position{line: 1897, col: 32, offset: 61094},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1892, col: 32, offset: 60979},
+					pos:  position{line: 1897, col: 32, offset: 61094},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1894, col: 1, offset: 61010},
+			pos:  position{line: 1899, col: 1, offset: 61125},
 			expr: &actionExpr{
-				pos: position{line: 1895, col: 5, offset: 61045},
+				pos: position{line: 1900, col: 5, offset: 61160},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1895, col: 5, offset: 61045},
+					pos: position{line: 1900, col: 5, offset: 61160},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1896, col: 5, offset: 61056},
+							pos: position{line: 1901, col: 5, offset: 61171},
 							expr: &litMatcher{
-								pos:        position{line: 1883, col: 36, offset: 60705},
+								pos:        position{line: 1888, col: 36, offset: 60820},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1897, col: 5, offset: 61093},
+							pos:   position{line: 1902, col: 5, offset: 61208},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1897, col: 14, offset: 61102},
+								pos:  position{line: 1902, col: 14, offset: 61217},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42933,29 +43145,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1922, col: 1, offset: 61782},
+			pos:  position{line: 1927, col: 1, offset: 61897},
 			expr: &actionExpr{
-				pos: position{line: 1923, col: 5, offset: 61810},
+				pos: position{line: 1928, col: 5, offset: 61925},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1923, col: 5, offset: 61810},
+					pos: position{line: 1928, col: 5, offset: 61925},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1906, col: 5, offset: 61336},
+							pos:        position{line: 1911, col: 5, offset: 61451},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61345},
+							pos: position{line: 1912, col: 5, offset: 61460},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61463},
+							pos: position{line: 1916, col: 5, offset: 61578},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61465},
+								pos: position{line: 1916, col: 7, offset: 61580},
 								expr: &litMatcher{
-									pos:        position{line: 1911, col: 8, offset: 61466},
+									pos:        position{line: 1916, col: 8, offset: 61581},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42963,38 +43175,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1924, col: 5, offset: 61848},
+							pos:   position{line: 1929, col: 5, offset: 61963},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1924, col: 15, offset: 61858},
+								pos:  position{line: 1929, col: 15, offset: 61973},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1914, col: 5, offset: 61586},
+							pos:        position{line: 1919, col: 5, offset: 61701},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1915, col: 5, offset: 61595},
+							pos: position{line: 1920, col: 5, offset: 61710},
 							expr: &litMatcher{
-								pos:        position{line: 1915, col: 6, offset: 61596},
+								pos:        position{line: 1920, col: 6, offset: 61711},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1916, col: 5, offset: 61659},
+							pos: position{line: 1921, col: 5, offset: 61774},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1920, col: 5, offset: 61768},
+							pos: position{line: 1925, col: 5, offset: 61883},
 							expr: &notExpr{
-								pos: position{line: 1920, col: 7, offset: 61770},
+								pos: position{line: 1925, col: 7, offset: 61885},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87722},
+									pos:        position{line: 2756, col: 13, offset: 87837},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43008,20 +43220,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1929, col: 1, offset: 62018},
+			pos:  position{line: 1934, col: 1, offset: 62133},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 62055},
+				pos: position{line: 1935, col: 5, offset: 62170},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 62055},
+					pos: position{line: 1935, col: 5, offset: 62170},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1930, col: 5, offset: 62055},
+							pos: position{line: 1935, col: 5, offset: 62170},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43030,18 +43242,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 62094},
+							pos:   position{line: 1936, col: 5, offset: 62209},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1931, col: 14, offset: 62103},
+								pos: position{line: 1936, col: 14, offset: 62218},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1931, col: 15, offset: 62104},
+									pos:  position{line: 1936, col: 15, offset: 62219},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1932, col: 5, offset: 62138},
+							pos: position{line: 1937, col: 5, offset: 62253},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43050,49 +43262,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1938, col: 1, offset: 62279},
+			pos:  position{line: 1943, col: 1, offset: 62394},
 			expr: &actionExpr{
-				pos: position{line: 1939, col: 5, offset: 62314},
+				pos: position{line: 1944, col: 5, offset: 62429},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1939, col: 5, offset: 62314},
+					pos: position{line: 1944, col: 5, offset: 62429},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1940, col: 5, offset: 62342},
+							pos: position{line: 1945, col: 5, offset: 62457},
 							expr: &seqExpr{
-								pos: position{line: 1914, col: 5, offset: 61586},
+								pos: position{line: 1919, col: 5, offset: 61701},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1914, col: 5, offset: 61586},
+										pos:        position{line: 1919, col: 5, offset: 61701},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1915, col: 5, offset: 61595},
+										pos: position{line: 1920, col: 5, offset: 61710},
 										expr: &litMatcher{
-											pos:        position{line: 1915, col: 6, offset: 61596},
+											pos:        position{line: 1920, col: 6, offset: 61711},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1916, col: 5, offset: 61659},
+										pos: position{line: 1921, col: 5, offset: 61774},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1920, col: 5, offset: 61768},
+										pos: position{line: 1925, col: 5, offset: 61883},
 										expr: &notExpr{
-											pos: position{line: 1920, col: 7, offset: 61770},
+											pos: position{line: 1925, col: 7, offset: 61885},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87722},
+												pos:        position{line: 2756, col: 13, offset: 87837},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43104,10 +43316,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1941, col: 5, offset: 62379},
+							pos:   position{line: 1946, col: 5, offset: 62494},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1941, col: 14, offset: 62388},
+								pos:  position{line: 1946, col: 14, offset: 62503},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43117,35 +43329,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1946, col: 1, offset: 62476},
+			pos:  position{line: 1951, col: 1, offset: 62591},
 			expr: &choiceExpr{
-				pos: position{line: 1948, col: 5, offset: 62537},
+				pos: position{line: 1953, col: 5, offset: 62652},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1948, col: 5, offset: 62537},
+						pos: position{line: 1953, col: 5, offset: 62652},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 5, offset: 62537},
+							pos: position{line: 1953, col: 5, offset: 62652},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 5, offset: 62537},
+									pos:   position{line: 1953, col: 5, offset: 62652},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59884},
+										pos: position{line: 1859, col: 25, offset: 59999},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59884},
+											pos: position{line: 1859, col: 25, offset: 59999},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59884},
+													pos:        position{line: 1859, col: 25, offset: 59999},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59889},
+													pos: position{line: 1859, col: 30, offset: 60004},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59889},
+														pos:        position{line: 1859, col: 30, offset: 60004},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43156,21 +43368,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 40, offset: 62572},
+									pos:        position{line: 1953, col: 40, offset: 62687},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 45, offset: 62577},
+									pos:   position{line: 1953, col: 45, offset: 62692},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 55, offset: 62587},
+										pos:  position{line: 1953, col: 55, offset: 62702},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 84, offset: 62616},
+									pos:        position{line: 1953, col: 84, offset: 62731},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43179,21 +43391,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1952, col: 7, offset: 62780},
+						pos: position{line: 1957, col: 7, offset: 62895},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1952, col: 7, offset: 62780},
+							pos: position{line: 1957, col: 7, offset: 62895},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1952, col: 7, offset: 62780},
+									pos:   position{line: 1957, col: 7, offset: 62895},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43202,21 +43414,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 42, offset: 62815},
+									pos:        position{line: 1957, col: 42, offset: 62930},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1952, col: 47, offset: 62820},
+									pos:   position{line: 1957, col: 47, offset: 62935},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1952, col: 57, offset: 62830},
+										pos:  position{line: 1957, col: 57, offset: 62945},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 86, offset: 62859},
+									pos:        position{line: 1957, col: 86, offset: 62974},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43225,21 +43437,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1957, col: 7, offset: 63061},
+						pos: position{line: 1962, col: 7, offset: 63176},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 7, offset: 63061},
+							pos: position{line: 1962, col: 7, offset: 63176},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 7, offset: 63061},
+									pos:   position{line: 1962, col: 7, offset: 63176},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43248,21 +43460,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 42, offset: 63096},
+									pos:        position{line: 1962, col: 42, offset: 63211},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 46, offset: 63100},
+									pos:   position{line: 1962, col: 46, offset: 63215},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 56, offset: 63110},
+										pos:  position{line: 1962, col: 56, offset: 63225},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 85, offset: 63139},
+									pos:        position{line: 1962, col: 85, offset: 63254},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43275,29 +43487,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1974, col: 1, offset: 63619},
+			pos:  position{line: 1979, col: 1, offset: 63734},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63649},
+				pos: position{line: 1980, col: 5, offset: 63764},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63649},
+					pos: position{line: 1980, col: 5, offset: 63764},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1970, col: 40, offset: 63570},
+							pos:        position{line: 1975, col: 40, offset: 63685},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1976, col: 5, offset: 63690},
+							pos:   position{line: 1981, col: 5, offset: 63805},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1976, col: 15, offset: 63700},
+								pos:  position{line: 1981, col: 15, offset: 63815},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1972, col: 38, offset: 63613},
+							pos:        position{line: 1977, col: 38, offset: 63728},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43308,44 +43520,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1981, col: 1, offset: 63865},
+			pos:  position{line: 1986, col: 1, offset: 63980},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1981, col: 34, offset: 63898},
+				pos: position{line: 1986, col: 34, offset: 64013},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1981, col: 34, offset: 63898},
+					pos:  position{line: 1986, col: 34, offset: 64013},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1983, col: 1, offset: 63930},
+			pos:  position{line: 1988, col: 1, offset: 64045},
 			expr: &actionExpr{
-				pos: position{line: 1984, col: 5, offset: 63967},
+				pos: position{line: 1989, col: 5, offset: 64082},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1984, col: 5, offset: 63967},
+					pos: position{line: 1989, col: 5, offset: 64082},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1985, col: 5, offset: 63978},
+							pos: position{line: 1990, col: 5, offset: 64093},
 							expr: &litMatcher{
-								pos:        position{line: 1972, col: 38, offset: 63613},
+								pos:        position{line: 1977, col: 38, offset: 63728},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1986, col: 5, offset: 64017},
+							pos:   position{line: 1991, col: 5, offset: 64132},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1986, col: 14, offset: 64026},
+								pos:  position{line: 1991, col: 14, offset: 64141},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43355,29 +43567,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2012, col: 1, offset: 64710},
+			pos:  position{line: 2017, col: 1, offset: 64825},
 			expr: &actionExpr{
-				pos: position{line: 2013, col: 5, offset: 64740},
+				pos: position{line: 2018, col: 5, offset: 64855},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2013, col: 5, offset: 64740},
+					pos: position{line: 2018, col: 5, offset: 64855},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64268},
+							pos:        position{line: 2000, col: 5, offset: 64383},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1996, col: 5, offset: 64277},
+							pos: position{line: 2001, col: 5, offset: 64392},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2000, col: 5, offset: 64397},
+							pos: position{line: 2005, col: 5, offset: 64512},
 							expr: &notExpr{
-								pos: position{line: 2000, col: 7, offset: 64399},
+								pos: position{line: 2005, col: 7, offset: 64514},
 								expr: &litMatcher{
-									pos:        position{line: 2000, col: 8, offset: 64400},
+									pos:        position{line: 2005, col: 8, offset: 64515},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43385,38 +43597,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2014, col: 5, offset: 64780},
+							pos:   position{line: 2019, col: 5, offset: 64895},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2014, col: 15, offset: 64790},
+								pos:  position{line: 2019, col: 15, offset: 64905},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2004, col: 5, offset: 64510},
+							pos:        position{line: 2009, col: 5, offset: 64625},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2005, col: 5, offset: 64519},
+							pos: position{line: 2010, col: 5, offset: 64634},
 							expr: &litMatcher{
-								pos:        position{line: 2005, col: 6, offset: 64520},
+								pos:        position{line: 2010, col: 6, offset: 64635},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2006, col: 5, offset: 64585},
+							pos: position{line: 2011, col: 5, offset: 64700},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2010, col: 5, offset: 64696},
+							pos: position{line: 2015, col: 5, offset: 64811},
 							expr: &notExpr{
-								pos: position{line: 2010, col: 7, offset: 64698},
+								pos: position{line: 2015, col: 7, offset: 64813},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87722},
+									pos:        position{line: 2756, col: 13, offset: 87837},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43430,20 +43642,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2019, col: 1, offset: 64957},
+			pos:  position{line: 2024, col: 1, offset: 65072},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64995},
+				pos: position{line: 2025, col: 5, offset: 65110},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64995},
+					pos: position{line: 2025, col: 5, offset: 65110},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2020, col: 5, offset: 64995},
+							pos: position{line: 2025, col: 5, offset: 65110},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43452,18 +43664,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2021, col: 5, offset: 65034},
+							pos:   position{line: 2026, col: 5, offset: 65149},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2021, col: 14, offset: 65043},
+								pos: position{line: 2026, col: 14, offset: 65158},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2021, col: 15, offset: 65044},
+									pos:  position{line: 2026, col: 15, offset: 65159},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2022, col: 5, offset: 65079},
+							pos: position{line: 2027, col: 5, offset: 65194},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43472,49 +43684,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2028, col: 1, offset: 65220},
+			pos:  position{line: 2033, col: 1, offset: 65335},
 			expr: &actionExpr{
-				pos: position{line: 2029, col: 5, offset: 65257},
+				pos: position{line: 2034, col: 5, offset: 65372},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2029, col: 5, offset: 65257},
+					pos: position{line: 2034, col: 5, offset: 65372},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65268},
+							pos: position{line: 2035, col: 5, offset: 65383},
 							expr: &seqExpr{
-								pos: position{line: 2004, col: 5, offset: 64510},
+								pos: position{line: 2009, col: 5, offset: 64625},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2004, col: 5, offset: 64510},
+										pos:        position{line: 2009, col: 5, offset: 64625},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2005, col: 5, offset: 64519},
+										pos: position{line: 2010, col: 5, offset: 64634},
 										expr: &litMatcher{
-											pos:        position{line: 2005, col: 6, offset: 64520},
+											pos:        position{line: 2010, col: 6, offset: 64635},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2006, col: 5, offset: 64585},
+										pos: position{line: 2011, col: 5, offset: 64700},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2010, col: 5, offset: 64696},
+										pos: position{line: 2015, col: 5, offset: 64811},
 										expr: &notExpr{
-											pos: position{line: 2010, col: 7, offset: 64698},
+											pos: position{line: 2015, col: 7, offset: 64813},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87722},
+												pos:        position{line: 2756, col: 13, offset: 87837},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43526,10 +43738,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2031, col: 5, offset: 65307},
+							pos:   position{line: 2036, col: 5, offset: 65422},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2031, col: 14, offset: 65316},
+								pos:  position{line: 2036, col: 14, offset: 65431},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43539,35 +43751,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2036, col: 1, offset: 65404},
+			pos:  position{line: 2041, col: 1, offset: 65519},
 			expr: &choiceExpr{
-				pos: position{line: 2038, col: 5, offset: 65469},
+				pos: position{line: 2043, col: 5, offset: 65584},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2038, col: 5, offset: 65469},
+						pos: position{line: 2043, col: 5, offset: 65584},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 5, offset: 65469},
+							pos: position{line: 2043, col: 5, offset: 65584},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 5, offset: 65469},
+									pos:   position{line: 2043, col: 5, offset: 65584},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59884},
+										pos: position{line: 1859, col: 25, offset: 59999},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59884},
+											pos: position{line: 1859, col: 25, offset: 59999},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59884},
+													pos:        position{line: 1859, col: 25, offset: 59999},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59889},
+													pos: position{line: 1859, col: 30, offset: 60004},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59889},
+														pos:        position{line: 1859, col: 30, offset: 60004},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43578,21 +43790,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 40, offset: 65504},
+									pos:        position{line: 2043, col: 40, offset: 65619},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 45, offset: 65509},
+									pos:   position{line: 2043, col: 45, offset: 65624},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 55, offset: 65519},
+										pos:  position{line: 2043, col: 55, offset: 65634},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 86, offset: 65550},
+									pos:        position{line: 2043, col: 86, offset: 65665},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43601,21 +43813,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2042, col: 7, offset: 65715},
+						pos: position{line: 2047, col: 7, offset: 65830},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2042, col: 7, offset: 65715},
+							pos: position{line: 2047, col: 7, offset: 65830},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2042, col: 7, offset: 65715},
+									pos:   position{line: 2047, col: 7, offset: 65830},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43624,21 +43836,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 42, offset: 65750},
+									pos:        position{line: 2047, col: 42, offset: 65865},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2042, col: 47, offset: 65755},
+									pos:   position{line: 2047, col: 47, offset: 65870},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2042, col: 57, offset: 65765},
+										pos:  position{line: 2047, col: 57, offset: 65880},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 88, offset: 65796},
+									pos:        position{line: 2047, col: 88, offset: 65911},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43647,21 +43859,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2047, col: 7, offset: 66037},
+						pos: position{line: 2052, col: 7, offset: 66152},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2047, col: 7, offset: 66037},
+							pos: position{line: 2052, col: 7, offset: 66152},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2047, col: 7, offset: 66037},
+									pos:   position{line: 2052, col: 7, offset: 66152},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43670,21 +43882,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 42, offset: 66072},
+									pos:        position{line: 2052, col: 42, offset: 66187},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2047, col: 46, offset: 66076},
+									pos:   position{line: 2052, col: 46, offset: 66191},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2047, col: 56, offset: 66086},
+										pos:  position{line: 2052, col: 56, offset: 66201},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 87, offset: 66117},
+									pos:        position{line: 2052, col: 87, offset: 66232},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43697,29 +43909,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2064, col: 1, offset: 66681},
+			pos:  position{line: 2069, col: 1, offset: 66796},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66714},
+				pos: position{line: 2070, col: 5, offset: 66829},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66714},
+					pos: position{line: 2070, col: 5, offset: 66829},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2060, col: 43, offset: 66629},
+							pos:        position{line: 2065, col: 43, offset: 66744},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2066, col: 5, offset: 66758},
+							pos:   position{line: 2071, col: 5, offset: 66873},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2066, col: 15, offset: 66768},
+								pos:  position{line: 2071, col: 15, offset: 66883},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2062, col: 41, offset: 66675},
+							pos:        position{line: 2067, col: 41, offset: 66790},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43730,44 +43942,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2071, col: 1, offset: 66943},
+			pos:  position{line: 2076, col: 1, offset: 67058},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2071, col: 37, offset: 66979},
+				pos: position{line: 2076, col: 37, offset: 67094},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2071, col: 37, offset: 66979},
+					pos:  position{line: 2076, col: 37, offset: 67094},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2073, col: 1, offset: 67046},
+			pos:  position{line: 2078, col: 1, offset: 67161},
 			expr: &actionExpr{
-				pos: position{line: 2074, col: 5, offset: 67086},
+				pos: position{line: 2079, col: 5, offset: 67201},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2074, col: 5, offset: 67086},
+					pos: position{line: 2079, col: 5, offset: 67201},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2075, col: 5, offset: 67097},
+							pos: position{line: 2080, col: 5, offset: 67212},
 							expr: &litMatcher{
-								pos:        position{line: 2062, col: 41, offset: 66675},
+								pos:        position{line: 2067, col: 41, offset: 66790},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2076, col: 5, offset: 67139},
+							pos:   position{line: 2081, col: 5, offset: 67254},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2076, col: 14, offset: 67148},
+								pos:  position{line: 2081, col: 14, offset: 67263},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43777,33 +43989,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2094, col: 1, offset: 67690},
+			pos:  position{line: 2099, col: 1, offset: 67805},
 			expr: &seqExpr{
-				pos: position{line: 2095, col: 5, offset: 67735},
+				pos: position{line: 2100, col: 5, offset: 67850},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2095, col: 5, offset: 67735},
+						pos: position{line: 2100, col: 5, offset: 67850},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2095, col: 6, offset: 67736},
+							pos:  position{line: 2100, col: 6, offset: 67851},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2096, col: 5, offset: 67755},
+						pos:        position{line: 2101, col: 5, offset: 67870},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2097, col: 5, offset: 67763},
+						pos: position{line: 2102, col: 5, offset: 67878},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2101, col: 5, offset: 67877},
+						pos: position{line: 2106, col: 5, offset: 67992},
 						expr: &notExpr{
-							pos: position{line: 2101, col: 7, offset: 67879},
+							pos: position{line: 2106, col: 7, offset: 67994},
 							expr: &charClassMatcher{
-								pos:        position{line: 2751, col: 13, offset: 87722},
+								pos:        position{line: 2756, col: 13, offset: 87837},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43816,29 +44028,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 67896},
+			pos:  position{line: 2109, col: 1, offset: 68011},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67929},
+				pos: position{line: 2110, col: 5, offset: 68044},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67929},
+					pos: position{line: 2110, col: 5, offset: 68044},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2087, col: 5, offset: 67492},
+							pos:        position{line: 2092, col: 5, offset: 67607},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2088, col: 5, offset: 67501},
+							pos: position{line: 2093, col: 5, offset: 67616},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2092, col: 5, offset: 67624},
+							pos: position{line: 2097, col: 5, offset: 67739},
 							expr: &notExpr{
-								pos: position{line: 2092, col: 7, offset: 67626},
+								pos: position{line: 2097, col: 7, offset: 67741},
 								expr: &litMatcher{
-									pos:        position{line: 2092, col: 8, offset: 67627},
+									pos:        position{line: 2097, col: 8, offset: 67742},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43846,15 +44058,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 67973},
+							pos:   position{line: 2111, col: 5, offset: 68088},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 67983},
+								pos:  position{line: 2111, col: 15, offset: 68098},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2107, col: 5, offset: 68022},
+							pos:  position{line: 2112, col: 5, offset: 68137},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43863,20 +44075,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68159},
+			pos:  position{line: 2116, col: 1, offset: 68274},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68200},
+				pos: position{line: 2117, col: 5, offset: 68315},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68200},
+					pos: position{line: 2117, col: 5, offset: 68315},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2112, col: 5, offset: 68200},
+							pos: position{line: 2117, col: 5, offset: 68315},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43885,18 +44097,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68239},
+							pos:   position{line: 2118, col: 5, offset: 68354},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2113, col: 14, offset: 68248},
+								pos: position{line: 2118, col: 14, offset: 68363},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2113, col: 15, offset: 68249},
+									pos:  position{line: 2118, col: 15, offset: 68364},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2114, col: 5, offset: 68287},
+							pos: position{line: 2119, col: 5, offset: 68402},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43905,31 +44117,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2120, col: 1, offset: 68428},
+			pos:  position{line: 2125, col: 1, offset: 68543},
 			expr: &actionExpr{
-				pos: position{line: 2121, col: 5, offset: 68468},
+				pos: position{line: 2126, col: 5, offset: 68583},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2121, col: 5, offset: 68468},
+					pos: position{line: 2126, col: 5, offset: 68583},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2122, col: 5, offset: 68479},
+							pos: position{line: 2127, col: 5, offset: 68594},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2122, col: 6, offset: 68480},
+								pos:  position{line: 2127, col: 6, offset: 68595},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2123, col: 5, offset: 68521},
+							pos:   position{line: 2128, col: 5, offset: 68636},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2123, col: 14, offset: 68530},
+								pos:  position{line: 2128, col: 14, offset: 68645},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43939,35 +44151,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2128, col: 1, offset: 68618},
+			pos:  position{line: 2133, col: 1, offset: 68733},
 			expr: &choiceExpr{
-				pos: position{line: 2130, col: 5, offset: 68689},
+				pos: position{line: 2135, col: 5, offset: 68804},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2130, col: 5, offset: 68689},
+						pos: position{line: 2135, col: 5, offset: 68804},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 5, offset: 68689},
+							pos: position{line: 2135, col: 5, offset: 68804},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 5, offset: 68689},
+									pos:   position{line: 2135, col: 5, offset: 68804},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59884},
+										pos: position{line: 1859, col: 25, offset: 59999},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59884},
+											pos: position{line: 1859, col: 25, offset: 59999},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59884},
+													pos:        position{line: 1859, col: 25, offset: 59999},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59889},
+													pos: position{line: 1859, col: 30, offset: 60004},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59889},
+														pos:        position{line: 1859, col: 30, offset: 60004},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43978,21 +44190,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 40, offset: 68724},
+									pos:        position{line: 2135, col: 40, offset: 68839},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 45, offset: 68729},
+									pos:   position{line: 2135, col: 45, offset: 68844},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 55, offset: 68739},
+										pos:  position{line: 2135, col: 55, offset: 68854},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 89, offset: 68773},
+									pos:        position{line: 2135, col: 89, offset: 68888},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44001,21 +44213,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2134, col: 7, offset: 68942},
+						pos: position{line: 2139, col: 7, offset: 69057},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2134, col: 7, offset: 68942},
+							pos: position{line: 2139, col: 7, offset: 69057},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2134, col: 7, offset: 68942},
+									pos:   position{line: 2139, col: 7, offset: 69057},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44024,21 +44236,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 42, offset: 68977},
+									pos:        position{line: 2139, col: 42, offset: 69092},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2134, col: 47, offset: 68982},
+									pos:   position{line: 2139, col: 47, offset: 69097},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2134, col: 57, offset: 68992},
+										pos:  position{line: 2139, col: 57, offset: 69107},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 91, offset: 69026},
+									pos:        position{line: 2139, col: 91, offset: 69141},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44047,21 +44259,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2139, col: 7, offset: 69232},
+						pos: position{line: 2144, col: 7, offset: 69347},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2139, col: 7, offset: 69232},
+							pos: position{line: 2144, col: 7, offset: 69347},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2139, col: 7, offset: 69232},
+									pos:   position{line: 2144, col: 7, offset: 69347},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44070,21 +44282,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 42, offset: 69267},
+									pos:        position{line: 2144, col: 42, offset: 69382},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2139, col: 46, offset: 69271},
+									pos:   position{line: 2144, col: 46, offset: 69386},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2139, col: 56, offset: 69281},
+										pos:  position{line: 2144, col: 56, offset: 69396},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 90, offset: 69315},
+									pos:        position{line: 2144, col: 90, offset: 69430},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44097,29 +44309,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2156, col: 1, offset: 69800},
+			pos:  position{line: 2161, col: 1, offset: 69915},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69830},
+				pos: position{line: 2162, col: 5, offset: 69945},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69830},
+					pos: position{line: 2162, col: 5, offset: 69945},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2152, col: 40, offset: 69751},
+							pos:        position{line: 2157, col: 40, offset: 69866},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2158, col: 5, offset: 69871},
+							pos:   position{line: 2163, col: 5, offset: 69986},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2158, col: 15, offset: 69881},
+								pos:  position{line: 2163, col: 15, offset: 69996},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2154, col: 38, offset: 69794},
+							pos:        position{line: 2159, col: 38, offset: 69909},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44130,44 +44342,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2163, col: 1, offset: 70047},
+			pos:  position{line: 2168, col: 1, offset: 70162},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2163, col: 34, offset: 70080},
+				pos: position{line: 2168, col: 34, offset: 70195},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2163, col: 34, offset: 70080},
+					pos:  position{line: 2168, col: 34, offset: 70195},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2165, col: 1, offset: 70111},
+			pos:  position{line: 2170, col: 1, offset: 70226},
 			expr: &actionExpr{
-				pos: position{line: 2166, col: 5, offset: 70180},
+				pos: position{line: 2171, col: 5, offset: 70295},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2166, col: 5, offset: 70180},
+					pos: position{line: 2171, col: 5, offset: 70295},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2167, col: 5, offset: 70191},
+							pos: position{line: 2172, col: 5, offset: 70306},
 							expr: &litMatcher{
-								pos:        position{line: 2154, col: 38, offset: 69794},
+								pos:        position{line: 2159, col: 38, offset: 69909},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2168, col: 5, offset: 70230},
+							pos:   position{line: 2173, col: 5, offset: 70345},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2168, col: 14, offset: 70239},
+								pos:  position{line: 2173, col: 14, offset: 70354},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44177,29 +44389,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2193, col: 1, offset: 70921},
+			pos:  position{line: 2198, col: 1, offset: 71036},
 			expr: &actionExpr{
-				pos: position{line: 2194, col: 5, offset: 70951},
+				pos: position{line: 2199, col: 5, offset: 71066},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2194, col: 5, offset: 70951},
+					pos: position{line: 2199, col: 5, offset: 71066},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2177, col: 5, offset: 70487},
+							pos:        position{line: 2182, col: 5, offset: 70602},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70496},
+							pos: position{line: 2183, col: 5, offset: 70611},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70616},
+							pos: position{line: 2187, col: 5, offset: 70731},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70618},
+								pos: position{line: 2187, col: 7, offset: 70733},
 								expr: &litMatcher{
-									pos:        position{line: 2182, col: 8, offset: 70619},
+									pos:        position{line: 2187, col: 8, offset: 70734},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44207,38 +44419,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2195, col: 5, offset: 70991},
+							pos:   position{line: 2200, col: 5, offset: 71106},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2195, col: 15, offset: 71001},
+								pos:  position{line: 2200, col: 15, offset: 71116},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2185, col: 5, offset: 70724},
+							pos:        position{line: 2190, col: 5, offset: 70839},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2186, col: 5, offset: 70732},
+							pos: position{line: 2191, col: 5, offset: 70847},
 							expr: &litMatcher{
-								pos:        position{line: 2186, col: 6, offset: 70733},
+								pos:        position{line: 2191, col: 6, offset: 70848},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2187, col: 5, offset: 70796},
+							pos: position{line: 2192, col: 5, offset: 70911},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2191, col: 5, offset: 70907},
+							pos: position{line: 2196, col: 5, offset: 71022},
 							expr: &notExpr{
-								pos: position{line: 2191, col: 7, offset: 70909},
+								pos: position{line: 2196, col: 7, offset: 71024},
 								expr: &charClassMatcher{
-									pos:        position{line: 2751, col: 13, offset: 87722},
+									pos:        position{line: 2756, col: 13, offset: 87837},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44252,20 +44464,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2200, col: 1, offset: 71168},
+			pos:  position{line: 2205, col: 1, offset: 71283},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71206},
+				pos: position{line: 2206, col: 5, offset: 71321},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71206},
+					pos: position{line: 2206, col: 5, offset: 71321},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2201, col: 5, offset: 71206},
+							pos: position{line: 2206, col: 5, offset: 71321},
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 10, offset: 90627},
+								pos: position{line: 2866, col: 10, offset: 90742},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2861, col: 10, offset: 90627},
+									pos:        position{line: 2866, col: 10, offset: 90742},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44274,18 +44486,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71245},
+							pos:   position{line: 2207, col: 5, offset: 71360},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2202, col: 14, offset: 71254},
+								pos: position{line: 2207, col: 14, offset: 71369},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2202, col: 15, offset: 71255},
+									pos:  position{line: 2207, col: 15, offset: 71370},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2203, col: 5, offset: 71291},
+							pos: position{line: 2208, col: 5, offset: 71406},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44294,49 +44506,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2209, col: 1, offset: 71432},
+			pos:  position{line: 2214, col: 1, offset: 71547},
 			expr: &actionExpr{
-				pos: position{line: 2210, col: 5, offset: 71469},
+				pos: position{line: 2215, col: 5, offset: 71584},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2210, col: 5, offset: 71469},
+					pos: position{line: 2215, col: 5, offset: 71584},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2211, col: 5, offset: 71480},
+							pos: position{line: 2216, col: 5, offset: 71595},
 							expr: &seqExpr{
-								pos: position{line: 2185, col: 5, offset: 70724},
+								pos: position{line: 2190, col: 5, offset: 70839},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2185, col: 5, offset: 70724},
+										pos:        position{line: 2190, col: 5, offset: 70839},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2186, col: 5, offset: 70732},
+										pos: position{line: 2191, col: 5, offset: 70847},
 										expr: &litMatcher{
-											pos:        position{line: 2186, col: 6, offset: 70733},
+											pos:        position{line: 2191, col: 6, offset: 70848},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2187, col: 5, offset: 70796},
+										pos: position{line: 2192, col: 5, offset: 70911},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2191, col: 5, offset: 70907},
+										pos: position{line: 2196, col: 5, offset: 71022},
 										expr: &notExpr{
-											pos: position{line: 2191, col: 7, offset: 70909},
+											pos: position{line: 2196, col: 7, offset: 71024},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87722},
+												pos:        position{line: 2756, col: 13, offset: 87837},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44348,10 +44560,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2212, col: 5, offset: 71519},
+							pos:   position{line: 2217, col: 5, offset: 71634},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2212, col: 14, offset: 71528},
+								pos:  position{line: 2217, col: 14, offset: 71643},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44361,35 +44573,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2217, col: 1, offset: 71616},
+			pos:  position{line: 2222, col: 1, offset: 71731},
 			expr: &choiceExpr{
-				pos: position{line: 2219, col: 5, offset: 71680},
+				pos: position{line: 2224, col: 5, offset: 71795},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2219, col: 5, offset: 71680},
+						pos: position{line: 2224, col: 5, offset: 71795},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 5, offset: 71680},
+							pos: position{line: 2224, col: 5, offset: 71795},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 5, offset: 71680},
+									pos:   position{line: 2224, col: 5, offset: 71795},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59884},
+										pos: position{line: 1859, col: 25, offset: 59999},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1854, col: 25, offset: 59884},
+											pos: position{line: 1859, col: 25, offset: 59999},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1854, col: 25, offset: 59884},
+													pos:        position{line: 1859, col: 25, offset: 59999},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1854, col: 30, offset: 59889},
+													pos: position{line: 1859, col: 30, offset: 60004},
 													expr: &litMatcher{
-														pos:        position{line: 1854, col: 30, offset: 59889},
+														pos:        position{line: 1859, col: 30, offset: 60004},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44400,21 +44612,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 40, offset: 71715},
+									pos:        position{line: 2224, col: 40, offset: 71830},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 45, offset: 71720},
+									pos:   position{line: 2224, col: 45, offset: 71835},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 55, offset: 71730},
+										pos:  position{line: 2224, col: 55, offset: 71845},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 86, offset: 71761},
+									pos:        position{line: 2224, col: 86, offset: 71876},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44423,21 +44635,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2223, col: 7, offset: 71926},
+						pos: position{line: 2228, col: 7, offset: 72041},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2223, col: 7, offset: 71926},
+							pos: position{line: 2228, col: 7, offset: 72041},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2223, col: 7, offset: 71926},
+									pos:   position{line: 2228, col: 7, offset: 72041},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44446,21 +44658,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 42, offset: 71961},
+									pos:        position{line: 2228, col: 42, offset: 72076},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2223, col: 47, offset: 71966},
+									pos:   position{line: 2228, col: 47, offset: 72081},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2223, col: 57, offset: 71976},
+										pos:  position{line: 2228, col: 57, offset: 72091},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 88, offset: 72007},
+									pos:        position{line: 2228, col: 88, offset: 72122},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44469,21 +44681,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2228, col: 7, offset: 72210},
+						pos: position{line: 2233, col: 7, offset: 72325},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2228, col: 7, offset: 72210},
+							pos: position{line: 2233, col: 7, offset: 72325},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2228, col: 7, offset: 72210},
+									pos:   position{line: 2233, col: 7, offset: 72325},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1850, col: 25, offset: 59811},
+										pos: position{line: 1855, col: 25, offset: 59926},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1850, col: 25, offset: 59811},
+											pos: position{line: 1855, col: 25, offset: 59926},
 											expr: &litMatcher{
-												pos:        position{line: 1850, col: 25, offset: 59811},
+												pos:        position{line: 1855, col: 25, offset: 59926},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44492,21 +44704,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 42, offset: 72245},
+									pos:        position{line: 2233, col: 42, offset: 72360},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2228, col: 46, offset: 72249},
+									pos:   position{line: 2233, col: 46, offset: 72364},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2228, col: 56, offset: 72259},
+										pos:  position{line: 2233, col: 56, offset: 72374},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 87, offset: 72290},
+									pos:        position{line: 2233, col: 87, offset: 72405},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44519,29 +44731,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2235, col: 1, offset: 72557},
+			pos:  position{line: 2240, col: 1, offset: 72672},
 			expr: &actionExpr{
-				pos: position{line: 2236, col: 5, offset: 72579},
+				pos: position{line: 2241, col: 5, offset: 72694},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2236, col: 5, offset: 72579},
+					pos: position{line: 2241, col: 5, offset: 72694},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72794},
+							pos:        position{line: 2247, col: 27, offset: 72909},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 72606},
+							pos:   position{line: 2242, col: 5, offset: 72721},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2237, col: 14, offset: 72615},
+								pos:  position{line: 2242, col: 14, offset: 72730},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72794},
+							pos:        position{line: 2247, col: 27, offset: 72909},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44552,43 +44764,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2244, col: 1, offset: 72799},
+			pos:  position{line: 2249, col: 1, offset: 72914},
 			expr: &choiceExpr{
-				pos: position{line: 2244, col: 25, offset: 72823},
+				pos: position{line: 2249, col: 25, offset: 72938},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2244, col: 25, offset: 72823},
+						pos:  position{line: 2249, col: 25, offset: 72938},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2246, col: 21, offset: 72875},
+						pos: position{line: 2251, col: 21, offset: 72990},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2246, col: 21, offset: 72875},
+							pos:   position{line: 2251, col: 21, offset: 72990},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2246, col: 29, offset: 72883},
+								pos: position{line: 2251, col: 29, offset: 72998},
 								expr: &choiceExpr{
-									pos: position{line: 2246, col: 30, offset: 72884},
+									pos: position{line: 2251, col: 30, offset: 72999},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2458, col: 5, offset: 79158},
+												pos: position{line: 2463, col: 5, offset: 79273},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2458, col: 5, offset: 79158},
+														pos: position{line: 2463, col: 5, offset: 79273},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2461, col: 5, offset: 79234},
+														pos:   position{line: 2466, col: 5, offset: 79349},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2462, col: 9, offset: 79252},
+															pos: position{line: 2467, col: 9, offset: 79367},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2462, col: 10, offset: 79253},
+																pos:        position{line: 2467, col: 10, offset: 79368},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44600,7 +44812,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2246, col: 49, offset: 72903},
+											pos:        position{line: 2251, col: 49, offset: 73018},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44616,23 +44828,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2250, col: 1, offset: 72960},
+			pos:  position{line: 2255, col: 1, offset: 73075},
 			expr: &actionExpr{
-				pos: position{line: 2252, col: 5, offset: 73027},
+				pos: position{line: 2257, col: 5, offset: 73142},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2252, col: 5, offset: 73027},
+					pos: position{line: 2257, col: 5, offset: 73142},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2252, col: 5, offset: 73027},
+							pos:   position{line: 2257, col: 5, offset: 73142},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1850, col: 25, offset: 59811},
+								pos: position{line: 1855, col: 25, offset: 59926},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1850, col: 25, offset: 59811},
+									pos: position{line: 1855, col: 25, offset: 59926},
 									expr: &litMatcher{
-										pos:        position{line: 1850, col: 25, offset: 59811},
+										pos:        position{line: 1855, col: 25, offset: 59926},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44641,21 +44853,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72794},
+							pos:        position{line: 2247, col: 27, offset: 72909},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73095},
+							pos:   position{line: 2259, col: 5, offset: 73210},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2254, col: 14, offset: 73104},
+								pos:  position{line: 2259, col: 14, offset: 73219},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 27, offset: 72794},
+							pos:        position{line: 2247, col: 27, offset: 72909},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44666,29 +44878,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73367},
+			pos:  position{line: 2267, col: 1, offset: 73482},
 			expr: &actionExpr{
-				pos: position{line: 2263, col: 5, offset: 73391},
+				pos: position{line: 2268, col: 5, offset: 73506},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2263, col: 5, offset: 73391},
+					pos: position{line: 2268, col: 5, offset: 73506},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73618},
+							pos:        position{line: 2274, col: 29, offset: 73733},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73421},
+							pos:   position{line: 2269, col: 5, offset: 73536},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2264, col: 14, offset: 73430},
+								pos:  position{line: 2269, col: 14, offset: 73545},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73618},
+							pos:        position{line: 2274, col: 29, offset: 73733},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44699,43 +44911,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2271, col: 1, offset: 73623},
+			pos:  position{line: 2276, col: 1, offset: 73738},
 			expr: &choiceExpr{
-				pos: position{line: 2271, col: 27, offset: 73649},
+				pos: position{line: 2276, col: 27, offset: 73764},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2271, col: 27, offset: 73649},
+						pos:  position{line: 2276, col: 27, offset: 73764},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2273, col: 23, offset: 73705},
+						pos: position{line: 2278, col: 23, offset: 73820},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2273, col: 23, offset: 73705},
+							pos:   position{line: 2278, col: 23, offset: 73820},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2273, col: 31, offset: 73713},
+								pos: position{line: 2278, col: 31, offset: 73828},
 								expr: &choiceExpr{
-									pos: position{line: 2273, col: 32, offset: 73714},
+									pos: position{line: 2278, col: 32, offset: 73829},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2458, col: 5, offset: 79158},
+												pos: position{line: 2463, col: 5, offset: 79273},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2458, col: 5, offset: 79158},
+														pos: position{line: 2463, col: 5, offset: 79273},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2461, col: 5, offset: 79234},
+														pos:   position{line: 2466, col: 5, offset: 79349},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2462, col: 9, offset: 79252},
+															pos: position{line: 2467, col: 9, offset: 79367},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2462, col: 10, offset: 79253},
+																pos:        position{line: 2467, col: 10, offset: 79368},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44747,7 +44959,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2273, col: 51, offset: 73733},
+											pos:        position{line: 2278, col: 51, offset: 73848},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44763,23 +44975,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2277, col: 1, offset: 73790},
+			pos:  position{line: 2282, col: 1, offset: 73905},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 73862},
+				pos: position{line: 2284, col: 5, offset: 73977},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 73862},
+					pos: position{line: 2284, col: 5, offset: 73977},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2279, col: 5, offset: 73862},
+							pos:   position{line: 2284, col: 5, offset: 73977},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1850, col: 25, offset: 59811},
+								pos: position{line: 1855, col: 25, offset: 59926},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1850, col: 25, offset: 59811},
+									pos: position{line: 1855, col: 25, offset: 59926},
 									expr: &litMatcher{
-										pos:        position{line: 1850, col: 25, offset: 59811},
+										pos:        position{line: 1855, col: 25, offset: 59926},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44788,21 +45000,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73618},
+							pos:        position{line: 2274, col: 29, offset: 73733},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73932},
+							pos:   position{line: 2286, col: 5, offset: 74047},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2281, col: 14, offset: 73941},
+								pos:  position{line: 2286, col: 14, offset: 74056},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2269, col: 29, offset: 73618},
+							pos:        position{line: 2274, col: 29, offset: 73733},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44813,27 +45025,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2290, col: 1, offset: 74410},
+			pos:  position{line: 2295, col: 1, offset: 74525},
 			expr: &actionExpr{
-				pos: position{line: 2291, col: 5, offset: 74426},
+				pos: position{line: 2296, col: 5, offset: 74541},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2291, col: 5, offset: 74426},
+					pos: position{line: 2296, col: 5, offset: 74541},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2291, col: 5, offset: 74426},
+							pos: position{line: 2296, col: 5, offset: 74541},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2294, col: 5, offset: 74489},
+							pos:   position{line: 2299, col: 5, offset: 74604},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2294, col: 12, offset: 74496},
+								pos: position{line: 2299, col: 12, offset: 74611},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2294, col: 12, offset: 74496},
+									pos: position{line: 2299, col: 12, offset: 74611},
 									expr: &litMatcher{
-										pos:        position{line: 2294, col: 13, offset: 74497},
+										pos:        position{line: 2299, col: 13, offset: 74612},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44842,16 +45054,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74605},
+							pos: position{line: 2303, col: 5, offset: 74720},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2865, col: 11, offset: 90688},
+							pos: position{line: 2870, col: 11, offset: 90803},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2865, col: 11, offset: 90688},
+								pos: position{line: 2870, col: 11, offset: 90803},
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 11, offset: 90688},
+									pos:        position{line: 2870, col: 11, offset: 90803},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44860,36 +45072,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 12, offset: 74764},
+							pos:   position{line: 2307, col: 12, offset: 74879},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 19, offset: 74771},
+								pos:  position{line: 2307, col: 19, offset: 74886},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44898,9 +45110,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -44911,24 +45123,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2306, col: 1, offset: 74867},
+			pos:  position{line: 2311, col: 1, offset: 74982},
 			expr: &actionExpr{
-				pos: position{line: 2307, col: 5, offset: 74888},
+				pos: position{line: 2312, col: 5, offset: 75003},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2307, col: 5, offset: 74888},
+					pos: position{line: 2312, col: 5, offset: 75003},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2307, col: 5, offset: 74888},
+							pos: position{line: 2312, col: 5, offset: 75003},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 75003},
+							pos:   position{line: 2317, col: 5, offset: 75118},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2312, col: 14, offset: 75012},
+								pos: position{line: 2317, col: 14, offset: 75127},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2312, col: 15, offset: 75013},
+									pos:  position{line: 2317, col: 15, offset: 75128},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44939,38 +45151,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2316, col: 1, offset: 75094},
+			pos:  position{line: 2321, col: 1, offset: 75209},
 			expr: &actionExpr{
-				pos: position{line: 2317, col: 5, offset: 75121},
+				pos: position{line: 2322, col: 5, offset: 75236},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2317, col: 5, offset: 75121},
+					pos: position{line: 2322, col: 5, offset: 75236},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2317, col: 5, offset: 75121},
+							pos: position{line: 2322, col: 5, offset: 75236},
 							expr: &choiceExpr{
-								pos: position{line: 2883, col: 8, offset: 91025},
+								pos: position{line: 2888, col: 8, offset: 91140},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90798},
+										pos: position{line: 2875, col: 12, offset: 90913},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90799},
+											pos: position{line: 2875, col: 13, offset: 90914},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90799},
+													pos:        position{line: 2875, col: 13, offset: 90914},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90806},
+													pos:        position{line: 2875, col: 20, offset: 90921},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90815},
+													pos:        position{line: 2875, col: 29, offset: 90930},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44979,36 +45191,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2880, col: 8, offset: 90975},
+										pos: position{line: 2885, col: 8, offset: 91090},
 										expr: &anyMatcher{
-											line: 2880, col: 9, offset: 90976,
+											line: 2885, col: 9, offset: 91091,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 75130},
+							pos:   position{line: 2323, col: 5, offset: 75245},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2319, col: 9, offset: 75148},
+								pos: position{line: 2324, col: 9, offset: 75263},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87869},
+										pos: position{line: 2765, col: 5, offset: 87984},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87869},
+											pos: position{line: 2765, col: 5, offset: 87984},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87869},
+													pos:   position{line: 2765, col: 5, offset: 87984},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87875},
+														pos: position{line: 2765, col: 11, offset: 87990},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87875},
+															pos: position{line: 2765, col: 11, offset: 87990},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87875},
+																pos:        position{line: 2765, col: 11, offset: 87990},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45018,36 +45230,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87933},
+													pos: position{line: 2768, col: 5, offset: 88048},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87944},
+														pos: position{line: 2769, col: 9, offset: 88059},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87944},
+																pos:        position{line: 2769, col: 9, offset: 88059},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87993},
+																pos: position{line: 2770, col: 9, offset: 88108},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88073},
+													pos: position{line: 2774, col: 5, offset: 88188},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88084},
+														pos: position{line: 2775, col: 9, offset: 88199},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88084},
+																pos:        position{line: 2775, col: 9, offset: 88199},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88088},
+																pos:        position{line: 2775, col: 13, offset: 88203},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45060,12 +45272,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 11, offset: 90688},
+										pos: position{line: 2870, col: 11, offset: 90803},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 11, offset: 90688},
+											pos: position{line: 2870, col: 11, offset: 90803},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90688},
+												pos:        position{line: 2870, col: 11, offset: 90803},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45074,21 +45286,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80329},
+										pos: position{line: 2494, col: 5, offset: 80444},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80329},
+											pos: position{line: 2494, col: 5, offset: 80444},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 5, offset: 80329},
+													pos:        position{line: 2494, col: 5, offset: 80444},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2489, col: 10, offset: 80334},
+													pos: position{line: 2494, col: 10, offset: 80449},
 													expr: &charClassMatcher{
-														pos:        position{line: 2489, col: 11, offset: 80335},
+														pos:        position{line: 2494, col: 11, offset: 80450},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45099,29 +45311,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80527},
+										pos: position{line: 2500, col: 5, offset: 80642},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80527},
+											pos: position{line: 2500, col: 5, offset: 80642},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2495, col: 5, offset: 80527},
+													pos: position{line: 2500, col: 5, offset: 80642},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80598},
+													pos: position{line: 2503, col: 5, offset: 80713},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2502, col: 5, offset: 80723},
+													pos:        position{line: 2507, col: 5, offset: 80838},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2502, col: 9, offset: 80727},
+													pos: position{line: 2507, col: 9, offset: 80842},
 													expr: &charClassMatcher{
-														pos:        position{line: 2502, col: 10, offset: 80728},
+														pos:        position{line: 2507, col: 10, offset: 80843},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45132,31 +45344,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 11, offset: 75213},
+										pos:  position{line: 2327, col: 11, offset: 75328},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88281},
+										pos: position{line: 2783, col: 5, offset: 88396},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88291},
+											pos: position{line: 2784, col: 9, offset: 88406},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88292},
+													pos:        position{line: 2784, col: 10, offset: 88407},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88389},
+													pos: position{line: 2786, col: 13, offset: 88504},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88389},
+															pos: position{line: 2786, col: 13, offset: 88504},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88489},
+															pos:        position{line: 2789, col: 13, offset: 88604},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45164,20 +45376,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88495},
+													pos:        position{line: 2789, col: 19, offset: 88610},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88533},
+													pos: position{line: 2792, col: 13, offset: 88648},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88533},
+															pos: position{line: 2792, col: 13, offset: 88648},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88626},
+															pos:        position{line: 2795, col: 14, offset: 88741},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45186,18 +45398,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88670},
+													pos: position{line: 2797, col: 12, offset: 88785},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88670},
+															pos:        position{line: 2797, col: 12, offset: 88785},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88674},
+															pos: position{line: 2797, col: 16, offset: 88789},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88675},
+																pos:        position{line: 2797, col: 17, offset: 88790},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45209,35 +45421,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75286},
+										pos:  position{line: 2329, col: 11, offset: 75401},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 11, offset: 75302},
+										pos:  position{line: 2330, col: 11, offset: 75417},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2326, col: 11, offset: 75330},
+										pos:  position{line: 2331, col: 11, offset: 75445},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79158},
+										pos: position{line: 2463, col: 5, offset: 79273},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79158},
+													pos: position{line: 2463, col: 5, offset: 79273},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79234},
+													pos:   position{line: 2466, col: 5, offset: 79349},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79252},
+														pos: position{line: 2467, col: 9, offset: 79367},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79253},
+															pos:        position{line: 2467, col: 10, offset: 79368},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45249,7 +45461,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75415},
+										pos:  position{line: 2333, col: 11, offset: 75530},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -45638,17 +45850,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2341, col: 5, offset: 75868},
+										pos: position{line: 2346, col: 5, offset: 75983},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2341, col: 5, offset: 75868},
+											pos: position{line: 2346, col: 5, offset: 75983},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2341, col: 5, offset: 75868},
+													pos: position{line: 2346, col: 5, offset: 75983},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2344, col: 5, offset: 75923},
+													pos:   position{line: 2349, col: 5, offset: 76038},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -46102,12 +46314,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2344, col: 26, offset: 75944},
+													pos: position{line: 2349, col: 26, offset: 76059},
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 10, offset: 90627},
+														pos: position{line: 2866, col: 10, offset: 90742},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90627},
+															pos:        position{line: 2866, col: 10, offset: 90742},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46116,30 +46328,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2344, col: 33, offset: 75951},
+													pos: position{line: 2349, col: 33, offset: 76066},
 													expr: &choiceExpr{
-														pos: position{line: 2883, col: 8, offset: 91025},
+														pos: position{line: 2888, col: 8, offset: 91140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 90798},
+																pos: position{line: 2875, col: 12, offset: 90913},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2870, col: 13, offset: 90799},
+																	pos: position{line: 2875, col: 13, offset: 90914},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 13, offset: 90799},
+																			pos:        position{line: 2875, col: 13, offset: 90914},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 20, offset: 90806},
+																			pos:        position{line: 2875, col: 20, offset: 90921},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2870, col: 29, offset: 90815},
+																			pos:        position{line: 2875, col: 29, offset: 90930},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46148,9 +46360,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2880, col: 8, offset: 90975},
+																pos: position{line: 2885, col: 8, offset: 91090},
 																expr: &anyMatcher{
-																	line: 2880, col: 9, offset: 90976,
+																	line: 2885, col: 9, offset: 91091,
 																},
 															},
 														},
@@ -46160,27 +46372,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38976},
+										pos: position{line: 1266, col: 5, offset: 39080},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38976},
+											pos: position{line: 1266, col: 5, offset: 39080},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38976},
+													pos:        position{line: 1266, col: 5, offset: 39080},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38985},
+													pos:   position{line: 1266, col: 14, offset: 39089},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90279},
+														pos: position{line: 2851, col: 7, offset: 90394},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90279},
+															pos: position{line: 2851, col: 7, offset: 90394},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90279},
+																pos:        position{line: 2851, col: 7, offset: 90394},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46190,7 +46402,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38993},
+													pos:        position{line: 1266, col: 22, offset: 39097},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46199,27 +46411,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39112},
+										pos: position{line: 1271, col: 5, offset: 39216},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39112},
+											pos: position{line: 1271, col: 5, offset: 39216},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39112},
+													pos:        position{line: 1271, col: 5, offset: 39216},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39117},
+													pos:   position{line: 1271, col: 10, offset: 39221},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90279},
+														pos: position{line: 2851, col: 7, offset: 90394},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90279},
+															pos: position{line: 2851, col: 7, offset: 90394},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90279},
+																pos:        position{line: 2851, col: 7, offset: 90394},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46229,7 +46441,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39125},
+													pos:        position{line: 1271, col: 18, offset: 39229},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46238,14 +46450,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75669},
+										pos:  position{line: 2338, col: 11, offset: 75784},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88935},
+										pos: position{line: 2805, col: 12, offset: 89050},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88935},
+											pos:        position{line: 2805, col: 12, offset: 89050},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46261,52 +46473,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2354, col: 1, offset: 76213},
+			pos:  position{line: 2359, col: 1, offset: 76328},
 			expr: &actionExpr{
-				pos: position{line: 2355, col: 5, offset: 76300},
+				pos: position{line: 2360, col: 5, offset: 76415},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2355, col: 5, offset: 76300},
+					pos: position{line: 2360, col: 5, offset: 76415},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2355, col: 5, offset: 76300},
+							pos:   position{line: 2360, col: 5, offset: 76415},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2355, col: 14, offset: 76309},
+								pos: position{line: 2360, col: 14, offset: 76424},
 								expr: &actionExpr{
-									pos: position{line: 2357, col: 9, offset: 76335},
+									pos: position{line: 2362, col: 9, offset: 76450},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2357, col: 9, offset: 76335},
+										pos: position{line: 2362, col: 9, offset: 76450},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90961},
+												pos: position{line: 2883, col: 11, offset: 91076},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90963,
+													line: 2883, col: 13, offset: 91078,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2358, col: 9, offset: 76350},
+												pos:   position{line: 2363, col: 9, offset: 76465},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2359, col: 13, offset: 76372},
+													pos: position{line: 2364, col: 13, offset: 76487},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2760, col: 5, offset: 87869},
+															pos: position{line: 2765, col: 5, offset: 87984},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2760, col: 5, offset: 87869},
+																pos: position{line: 2765, col: 5, offset: 87984},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2760, col: 5, offset: 87869},
+																		pos:   position{line: 2765, col: 5, offset: 87984},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2760, col: 11, offset: 87875},
+																			pos: position{line: 2765, col: 11, offset: 87990},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2760, col: 11, offset: 87875},
+																				pos: position{line: 2765, col: 11, offset: 87990},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2760, col: 11, offset: 87875},
+																					pos:        position{line: 2765, col: 11, offset: 87990},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46316,36 +46528,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2763, col: 5, offset: 87933},
+																		pos: position{line: 2768, col: 5, offset: 88048},
 																		expr: &seqExpr{
-																			pos: position{line: 2764, col: 9, offset: 87944},
+																			pos: position{line: 2769, col: 9, offset: 88059},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2764, col: 9, offset: 87944},
+																					pos:        position{line: 2769, col: 9, offset: 88059},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2765, col: 9, offset: 87993},
+																					pos: position{line: 2770, col: 9, offset: 88108},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2769, col: 5, offset: 88073},
+																		pos: position{line: 2774, col: 5, offset: 88188},
 																		expr: &seqExpr{
-																			pos: position{line: 2770, col: 9, offset: 88084},
+																			pos: position{line: 2775, col: 9, offset: 88199},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2770, col: 9, offset: 88084},
+																					pos:        position{line: 2775, col: 9, offset: 88199},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2770, col: 13, offset: 88088},
+																					pos:        position{line: 2775, col: 13, offset: 88203},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46358,12 +46570,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2865, col: 11, offset: 90688},
+															pos: position{line: 2870, col: 11, offset: 90803},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2865, col: 11, offset: 90688},
+																pos: position{line: 2870, col: 11, offset: 90803},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2865, col: 11, offset: 90688},
+																	pos:        position{line: 2870, col: 11, offset: 90803},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46372,25 +46584,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2361, col: 15, offset: 76418},
+															pos:  position{line: 2366, col: 15, offset: 76533},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2489, col: 5, offset: 80329},
+															pos: position{line: 2494, col: 5, offset: 80444},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2489, col: 5, offset: 80329},
+																pos: position{line: 2494, col: 5, offset: 80444},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 5, offset: 80329},
+																		pos:        position{line: 2494, col: 5, offset: 80444},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2489, col: 10, offset: 80334},
+																		pos: position{line: 2494, col: 10, offset: 80449},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2489, col: 11, offset: 80335},
+																			pos:        position{line: 2494, col: 11, offset: 80450},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46401,29 +46613,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2495, col: 5, offset: 80527},
+															pos: position{line: 2500, col: 5, offset: 80642},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2495, col: 5, offset: 80527},
+																pos: position{line: 2500, col: 5, offset: 80642},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2495, col: 5, offset: 80527},
+																		pos: position{line: 2500, col: 5, offset: 80642},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80598},
+																		pos: position{line: 2503, col: 5, offset: 80713},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 5, offset: 80723},
+																		pos:        position{line: 2507, col: 5, offset: 80838},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2502, col: 9, offset: 80727},
+																		pos: position{line: 2507, col: 9, offset: 80842},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2502, col: 10, offset: 80728},
+																			pos:        position{line: 2507, col: 10, offset: 80843},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46434,27 +46646,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2778, col: 5, offset: 88281},
+															pos: position{line: 2783, col: 5, offset: 88396},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2779, col: 9, offset: 88291},
+																pos: position{line: 2784, col: 9, offset: 88406},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2779, col: 10, offset: 88292},
+																		pos:        position{line: 2784, col: 10, offset: 88407},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2781, col: 13, offset: 88389},
+																		pos: position{line: 2786, col: 13, offset: 88504},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2781, col: 13, offset: 88389},
+																				pos: position{line: 2786, col: 13, offset: 88504},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2784, col: 13, offset: 88489},
+																				pos:        position{line: 2789, col: 13, offset: 88604},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46462,20 +46674,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2784, col: 19, offset: 88495},
+																		pos:        position{line: 2789, col: 19, offset: 88610},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2787, col: 13, offset: 88533},
+																		pos: position{line: 2792, col: 13, offset: 88648},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2787, col: 13, offset: 88533},
+																				pos: position{line: 2792, col: 13, offset: 88648},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2790, col: 14, offset: 88626},
+																				pos:        position{line: 2795, col: 14, offset: 88741},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46484,18 +46696,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2792, col: 12, offset: 88670},
+																		pos: position{line: 2797, col: 12, offset: 88785},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2792, col: 12, offset: 88670},
+																				pos:        position{line: 2797, col: 12, offset: 88785},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2792, col: 16, offset: 88674},
+																				pos: position{line: 2797, col: 16, offset: 88789},
 																				expr: &litMatcher{
-																					pos:        position{line: 2792, col: 17, offset: 88675},
+																					pos:        position{line: 2797, col: 17, offset: 88790},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46507,25 +46719,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 90798},
+															pos: position{line: 2875, col: 12, offset: 90913},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2870, col: 13, offset: 90799},
+																pos: position{line: 2875, col: 13, offset: 90914},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 90799},
+																		pos:        position{line: 2875, col: 13, offset: 90914},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 20, offset: 90806},
+																		pos:        position{line: 2875, col: 20, offset: 90921},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2870, col: 29, offset: 90815},
+																		pos:        position{line: 2875, col: 29, offset: 90930},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46880,35 +47092,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2366, col: 15, offset: 76585},
+															pos:  position{line: 2371, col: 15, offset: 76700},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2367, col: 15, offset: 76605},
+															pos:  position{line: 2372, col: 15, offset: 76720},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2368, col: 15, offset: 76694},
+															pos:  position{line: 2373, col: 15, offset: 76809},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2458, col: 5, offset: 79158},
+															pos: position{line: 2463, col: 5, offset: 79273},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2458, col: 5, offset: 79158},
+																pos: position{line: 2463, col: 5, offset: 79273},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2458, col: 5, offset: 79158},
+																		pos: position{line: 2463, col: 5, offset: 79273},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2461, col: 5, offset: 79234},
+																		pos:   position{line: 2466, col: 5, offset: 79349},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2462, col: 9, offset: 79252},
+																			pos: position{line: 2467, col: 9, offset: 79367},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2462, col: 10, offset: 79253},
+																				pos:        position{line: 2467, col: 10, offset: 79368},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46942,10 +47154,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1222, col: 5, offset: 37833},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46956,28 +47168,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1222, col: 12, offset: 37840},
 																		expr: &choiceExpr{
-																			pos: position{line: 2883, col: 8, offset: 91025},
+																			pos: position{line: 2888, col: 8, offset: 91140},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46986,9 +47198,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2880, col: 8, offset: 90975},
+																					pos: position{line: 2885, col: 8, offset: 91090},
 																					expr: &anyMatcher{
-																						line: 2880, col: 9, offset: 90976,
+																						line: 2885, col: 9, offset: 91091,
 																					},
 																				},
 																			},
@@ -46998,7 +47210,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76876},
+															pos:  position{line: 2376, col: 15, offset: 76991},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -47041,10 +47253,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2800, col: 12, offset: 88935},
+															pos: position{line: 2805, col: 12, offset: 89050},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2800, col: 12, offset: 88935},
+																pos:        position{line: 2805, col: 12, offset: 89050},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47060,9 +47272,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -47071,28 +47283,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2382, col: 1, offset: 77314},
+			pos:  position{line: 2387, col: 1, offset: 77429},
 			expr: &actionExpr{
-				pos: position{line: 2383, col: 5, offset: 77347},
+				pos: position{line: 2388, col: 5, offset: 77462},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2383, col: 5, offset: 77347},
+					pos: position{line: 2388, col: 5, offset: 77462},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2383, col: 5, offset: 77347},
+							pos:   position{line: 2388, col: 5, offset: 77462},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2383, col: 14, offset: 77356},
+								pos: position{line: 2388, col: 14, offset: 77471},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2383, col: 15, offset: 77357},
+									pos:  position{line: 2388, col: 15, offset: 77472},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -47101,41 +47313,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2387, col: 1, offset: 77454},
+			pos:  position{line: 2392, col: 1, offset: 77569},
 			expr: &actionExpr{
-				pos: position{line: 2388, col: 5, offset: 77494},
+				pos: position{line: 2393, col: 5, offset: 77609},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2388, col: 5, offset: 77494},
+					pos: position{line: 2393, col: 5, offset: 77609},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2878, col: 11, offset: 90961},
+							pos: position{line: 2883, col: 11, offset: 91076},
 							expr: &anyMatcher{
-								line: 2878, col: 13, offset: 90963,
+								line: 2883, col: 13, offset: 91078,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2389, col: 5, offset: 77505},
+							pos:   position{line: 2394, col: 5, offset: 77620},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2390, col: 9, offset: 77523},
+								pos: position{line: 2395, col: 9, offset: 77638},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2760, col: 5, offset: 87869},
+										pos: position{line: 2765, col: 5, offset: 87984},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2760, col: 5, offset: 87869},
+											pos: position{line: 2765, col: 5, offset: 87984},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2760, col: 5, offset: 87869},
+													pos:   position{line: 2765, col: 5, offset: 87984},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2760, col: 11, offset: 87875},
+														pos: position{line: 2765, col: 11, offset: 87990},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2760, col: 11, offset: 87875},
+															pos: position{line: 2765, col: 11, offset: 87990},
 															expr: &charClassMatcher{
-																pos:        position{line: 2760, col: 11, offset: 87875},
+																pos:        position{line: 2765, col: 11, offset: 87990},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47145,36 +47357,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2763, col: 5, offset: 87933},
+													pos: position{line: 2768, col: 5, offset: 88048},
 													expr: &seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87944},
+														pos: position{line: 2769, col: 9, offset: 88059},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87944},
+																pos:        position{line: 2769, col: 9, offset: 88059},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2765, col: 9, offset: 87993},
+																pos: position{line: 2770, col: 9, offset: 88108},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88073},
+													pos: position{line: 2774, col: 5, offset: 88188},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88084},
+														pos: position{line: 2775, col: 9, offset: 88199},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88084},
+																pos:        position{line: 2775, col: 9, offset: 88199},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2770, col: 13, offset: 88088},
+																pos:        position{line: 2775, col: 13, offset: 88203},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47187,10 +47399,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 10, offset: 90627},
+										pos: position{line: 2866, col: 10, offset: 90742},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2861, col: 10, offset: 90627},
+											pos:        position{line: 2866, col: 10, offset: 90742},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47198,31 +47410,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77561},
+										pos:  position{line: 2397, col: 11, offset: 77676},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 5, offset: 88281},
+										pos: position{line: 2783, col: 5, offset: 88396},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88291},
+											pos: position{line: 2784, col: 9, offset: 88406},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2779, col: 10, offset: 88292},
+													pos:        position{line: 2784, col: 10, offset: 88407},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2781, col: 13, offset: 88389},
+													pos: position{line: 2786, col: 13, offset: 88504},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2781, col: 13, offset: 88389},
+															pos: position{line: 2786, col: 13, offset: 88504},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2784, col: 13, offset: 88489},
+															pos:        position{line: 2789, col: 13, offset: 88604},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47230,20 +47442,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2784, col: 19, offset: 88495},
+													pos:        position{line: 2789, col: 19, offset: 88610},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88533},
+													pos: position{line: 2792, col: 13, offset: 88648},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88533},
+															pos: position{line: 2792, col: 13, offset: 88648},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 14, offset: 88626},
+															pos:        position{line: 2795, col: 14, offset: 88741},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47252,18 +47464,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 12, offset: 88670},
+													pos: position{line: 2797, col: 12, offset: 88785},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2792, col: 12, offset: 88670},
+															pos:        position{line: 2797, col: 12, offset: 88785},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2792, col: 16, offset: 88674},
+															pos: position{line: 2797, col: 16, offset: 88789},
 															expr: &litMatcher{
-																pos:        position{line: 2792, col: 17, offset: 88675},
+																pos:        position{line: 2797, col: 17, offset: 88790},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47275,31 +47487,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77634},
+										pos:  position{line: 2399, col: 11, offset: 77749},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2395, col: 11, offset: 77650},
+										pos:  position{line: 2400, col: 11, offset: 77765},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2458, col: 5, offset: 79158},
+										pos: position{line: 2463, col: 5, offset: 79273},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2458, col: 5, offset: 79158},
+											pos: position{line: 2463, col: 5, offset: 79273},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2458, col: 5, offset: 79158},
+													pos: position{line: 2463, col: 5, offset: 79273},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2461, col: 5, offset: 79234},
+													pos:   position{line: 2466, col: 5, offset: 79349},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2462, col: 9, offset: 79252},
+														pos: position{line: 2467, col: 9, offset: 79367},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2462, col: 10, offset: 79253},
+															pos:        position{line: 2467, col: 10, offset: 79368},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47350,25 +47562,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 90798},
+										pos: position{line: 2875, col: 12, offset: 90913},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2870, col: 13, offset: 90799},
+											pos: position{line: 2875, col: 13, offset: 90914},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2870, col: 13, offset: 90799},
+													pos:        position{line: 2875, col: 13, offset: 90914},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 20, offset: 90806},
+													pos:        position{line: 2875, col: 20, offset: 90921},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2870, col: 29, offset: 90815},
+													pos:        position{line: 2875, col: 29, offset: 90930},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47377,10 +47589,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 12, offset: 88935},
+										pos: position{line: 2805, col: 12, offset: 89050},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2800, col: 12, offset: 88935},
+											pos:        position{line: 2805, col: 12, offset: 89050},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47396,73 +47608,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2406, col: 1, offset: 77920},
+			pos:  position{line: 2411, col: 1, offset: 78035},
 			expr: &actionExpr{
-				pos: position{line: 2408, col: 5, offset: 78002},
+				pos: position{line: 2413, col: 5, offset: 78117},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2408, col: 5, offset: 78002},
+					pos: position{line: 2413, col: 5, offset: 78117},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2408, col: 5, offset: 78002},
+							pos: position{line: 2413, col: 5, offset: 78117},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2411, col: 5, offset: 78067},
+							pos:   position{line: 2416, col: 5, offset: 78182},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2412, col: 9, offset: 78085},
+								pos: position{line: 2417, col: 9, offset: 78200},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 9, offset: 78085},
+										pos:  position{line: 2417, col: 9, offset: 78200},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 78106},
+										pos:  position{line: 2418, col: 11, offset: 78221},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 78129},
+										pos:  position{line: 2419, col: 11, offset: 78244},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 11, offset: 78145},
+										pos:  position{line: 2420, col: 11, offset: 78260},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78174},
+										pos:  position{line: 2421, col: 11, offset: 78289},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78200},
+										pos:  position{line: 2422, col: 11, offset: 78315},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78226},
+										pos:  position{line: 2423, col: 11, offset: 78341},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38976},
+										pos: position{line: 1266, col: 5, offset: 39080},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38976},
+											pos: position{line: 1266, col: 5, offset: 39080},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38976},
+													pos:        position{line: 1266, col: 5, offset: 39080},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38985},
+													pos:   position{line: 1266, col: 14, offset: 39089},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90279},
+														pos: position{line: 2851, col: 7, offset: 90394},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90279},
+															pos: position{line: 2851, col: 7, offset: 90394},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90279},
+																pos:        position{line: 2851, col: 7, offset: 90394},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47472,7 +47684,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38993},
+													pos:        position{line: 1266, col: 22, offset: 39097},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47481,27 +47693,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39112},
+										pos: position{line: 1271, col: 5, offset: 39216},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39112},
+											pos: position{line: 1271, col: 5, offset: 39216},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39112},
+													pos:        position{line: 1271, col: 5, offset: 39216},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39117},
+													pos:   position{line: 1271, col: 10, offset: 39221},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 7, offset: 90279},
+														pos: position{line: 2851, col: 7, offset: 90394},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 7, offset: 90279},
+															pos: position{line: 2851, col: 7, offset: 90394},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 7, offset: 90279},
+																pos:        position{line: 2851, col: 7, offset: 90394},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47511,7 +47723,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39125},
+													pos:        position{line: 1271, col: 18, offset: 39229},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47520,40 +47732,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1305, col: 23, offset: 40601},
+										pos: position{line: 1310, col: 23, offset: 40705},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1305, col: 23, offset: 40601},
+											pos: position{line: 1310, col: 23, offset: 40705},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1305, col: 23, offset: 40601},
+													pos:        position{line: 1310, col: 23, offset: 40705},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1305, col: 29, offset: 40607},
+													pos:   position{line: 1310, col: 29, offset: 40711},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1312, col: 30, offset: 40938},
+														pos: position{line: 1317, col: 30, offset: 41042},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1312, col: 30, offset: 40938},
+															pos: position{line: 1317, col: 30, offset: 41042},
 															expr: &choiceExpr{
-																pos: position{line: 1312, col: 31, offset: 40939},
+																pos: position{line: 1317, col: 31, offset: 41043},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2751, col: 13, offset: 87722},
+																		pos:        position{line: 2756, col: 13, offset: 87837},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2861, col: 10, offset: 90627},
+																		pos: position{line: 2866, col: 10, offset: 90742},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90627},
+																			pos:        position{line: 2866, col: 10, offset: 90742},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47566,23 +47778,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1306, col: 5, offset: 40646},
+													pos:   position{line: 1311, col: 5, offset: 40750},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1306, col: 11, offset: 40652},
+														pos: position{line: 1311, col: 11, offset: 40756},
 														expr: &actionExpr{
-															pos: position{line: 1306, col: 12, offset: 40653},
+															pos: position{line: 1311, col: 12, offset: 40757},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1306, col: 12, offset: 40653},
+																pos: position{line: 1311, col: 12, offset: 40757},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 12, offset: 40653},
+																		pos: position{line: 1311, col: 12, offset: 40757},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47591,18 +47803,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1306, col: 19, offset: 40660},
+																		pos:        position{line: 1311, col: 19, offset: 40764},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 23, offset: 40664},
+																		pos: position{line: 1311, col: 23, offset: 40768},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47611,28 +47823,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1306, col: 30, offset: 40671},
+																		pos:   position{line: 1311, col: 30, offset: 40775},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40938},
+																			pos: position{line: 1317, col: 30, offset: 41042},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40938},
+																				pos: position{line: 1317, col: 30, offset: 41042},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40939},
+																					pos: position{line: 1317, col: 31, offset: 41043},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2751, col: 13, offset: 87722},
+																							pos:        position{line: 2756, col: 13, offset: 87837},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47650,23 +47862,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1307, col: 5, offset: 40738},
+													pos:   position{line: 1312, col: 5, offset: 40842},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1307, col: 11, offset: 40744},
+														pos: position{line: 1312, col: 11, offset: 40848},
 														expr: &actionExpr{
-															pos: position{line: 1307, col: 12, offset: 40745},
+															pos: position{line: 1312, col: 12, offset: 40849},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1307, col: 12, offset: 40745},
+																pos: position{line: 1312, col: 12, offset: 40849},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 12, offset: 40745},
+																		pos: position{line: 1312, col: 12, offset: 40849},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47675,18 +47887,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1307, col: 19, offset: 40752},
+																		pos:        position{line: 1312, col: 19, offset: 40856},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 23, offset: 40756},
+																		pos: position{line: 1312, col: 23, offset: 40860},
 																		expr: &actionExpr{
-																			pos: position{line: 2861, col: 10, offset: 90627},
+																			pos: position{line: 2866, col: 10, offset: 90742},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2861, col: 10, offset: 90627},
+																				pos:        position{line: 2866, col: 10, offset: 90742},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47695,28 +47907,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1307, col: 30, offset: 40763},
+																		pos:   position{line: 1312, col: 30, offset: 40867},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40938},
+																			pos: position{line: 1317, col: 30, offset: 41042},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40938},
+																				pos: position{line: 1317, col: 30, offset: 41042},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40939},
+																					pos: position{line: 1317, col: 31, offset: 41043},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2751, col: 13, offset: 87722},
+																							pos:        position{line: 2756, col: 13, offset: 87837},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2861, col: 10, offset: 90627},
+																							pos: position{line: 2866, col: 10, offset: 90742},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2861, col: 10, offset: 90627},
+																								pos:        position{line: 2866, col: 10, offset: 90742},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47734,7 +47946,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1308, col: 5, offset: 40830},
+													pos:        position{line: 1313, col: 5, offset: 40934},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47743,15 +47955,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78305},
+										pos:  position{line: 2426, col: 11, offset: 78420},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78325},
+										pos:  position{line: 2427, col: 11, offset: 78440},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78348},
+										pos:  position{line: 2428, col: 11, offset: 78463},
 										name: "InlineMenu",
 									},
 								},
@@ -47763,80 +47975,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2427, col: 1, offset: 78405},
+			pos:  position{line: 2432, col: 1, offset: 78520},
 			expr: &actionExpr{
-				pos: position{line: 2429, col: 5, offset: 78493},
+				pos: position{line: 2434, col: 5, offset: 78608},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2429, col: 5, offset: 78493},
+					pos: position{line: 2434, col: 5, offset: 78608},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2429, col: 5, offset: 78493},
+							pos: position{line: 2434, col: 5, offset: 78608},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2432, col: 5, offset: 78570},
+							pos:   position{line: 2437, col: 5, offset: 78685},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2433, col: 9, offset: 78588},
+								pos: position{line: 2438, col: 9, offset: 78703},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1387, col: 26, offset: 44208},
+										pos: position{line: 1392, col: 26, offset: 44312},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1387, col: 26, offset: 44208},
+											pos: position{line: 1392, col: 26, offset: 44312},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44176},
+													pos:        position{line: 1390, col: 32, offset: 44280},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1387, col: 54, offset: 44236},
+													pos:   position{line: 1392, col: 54, offset: 44340},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1391, col: 33, offset: 44449},
+														pos: position{line: 1396, col: 33, offset: 44553},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1391, col: 34, offset: 44450},
+																pos: position{line: 1396, col: 34, offset: 44554},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1391, col: 34, offset: 44450},
+																	pos: position{line: 1396, col: 34, offset: 44554},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 35, offset: 44451},
+																		pos: position{line: 1396, col: 35, offset: 44555},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 35, offset: 44451},
+																				pos: position{line: 1396, col: 35, offset: 44555},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44176},
+																					pos:        position{line: 1390, col: 32, offset: 44280},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 64, offset: 44480,
+																				line: 1396, col: 64, offset: 44584,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1393, col: 11, offset: 44653},
+																pos: position{line: 1398, col: 11, offset: 44757},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1393, col: 11, offset: 44653},
+																	pos: position{line: 1398, col: 11, offset: 44757},
 																	expr: &seqExpr{
-																		pos: position{line: 1393, col: 12, offset: 44654},
+																		pos: position{line: 1398, col: 12, offset: 44758},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1393, col: 12, offset: 44654},
+																				pos: position{line: 1398, col: 12, offset: 44758},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 10, offset: 90627},
+																					pos: position{line: 2866, col: 10, offset: 90742},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2861, col: 10, offset: 90627},
+																						pos:        position{line: 2866, col: 10, offset: 90742},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47845,27 +48057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 19, offset: 44661},
+																				pos: position{line: 1398, col: 19, offset: 44765},
 																				expr: &actionExpr{
-																					pos: position{line: 2870, col: 12, offset: 90798},
+																					pos: position{line: 2875, col: 12, offset: 90913},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2870, col: 13, offset: 90799},
+																						pos: position{line: 2875, col: 13, offset: 90914},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 90799},
+																								pos:        position{line: 2875, col: 13, offset: 90914},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 20, offset: 90806},
+																								pos:        position{line: 2875, col: 20, offset: 90921},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2870, col: 29, offset: 90815},
+																								pos:        position{line: 2875, col: 29, offset: 90930},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47875,16 +48087,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 28, offset: 44670},
+																				pos: position{line: 1398, col: 28, offset: 44774},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44176},
+																					pos:        position{line: 1390, col: 32, offset: 44280},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1393, col: 57, offset: 44699,
+																				line: 1398, col: 57, offset: 44803,
 																			},
 																		},
 																	},
@@ -47894,15 +48106,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44176},
+													pos:        position{line: 1390, col: 32, offset: 44280},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1387, col: 121, offset: 44303},
+													pos: position{line: 1392, col: 121, offset: 44407},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87722},
+														pos:        position{line: 2756, col: 13, offset: 87837},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47913,45 +48125,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1375, col: 26, offset: 43491},
+										pos: position{line: 1380, col: 26, offset: 43595},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1375, col: 26, offset: 43491},
+											pos: position{line: 1380, col: 26, offset: 43595},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43461},
+													pos:        position{line: 1378, col: 32, offset: 43565},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1375, col: 54, offset: 43519},
+													pos:   position{line: 1380, col: 54, offset: 43623},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1379, col: 33, offset: 43732},
+														pos: position{line: 1384, col: 33, offset: 43836},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1379, col: 34, offset: 43733},
+																pos: position{line: 1384, col: 34, offset: 43837},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 34, offset: 43733},
+																	pos: position{line: 1384, col: 34, offset: 43837},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 35, offset: 43734},
+																			pos: position{line: 1384, col: 35, offset: 43838},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43461},
+																				pos:        position{line: 1378, col: 32, offset: 43565},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 64, offset: 43763},
+																			pos: position{line: 1384, col: 64, offset: 43867},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47960,27 +48172,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 71, offset: 43770},
+																			pos: position{line: 1384, col: 71, offset: 43874},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47990,25 +48202,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 80, offset: 43779,
+																			line: 1384, col: 80, offset: 43883,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1379, col: 83, offset: 43782},
+																			pos: position{line: 1384, col: 83, offset: 43886},
 																			expr: &seqExpr{
-																				pos: position{line: 1379, col: 84, offset: 43783},
+																				pos: position{line: 1384, col: 84, offset: 43887},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1379, col: 84, offset: 43783},
+																						pos: position{line: 1384, col: 84, offset: 43887},
 																						expr: &seqExpr{
-																							pos: position{line: 1379, col: 86, offset: 43785},
+																							pos: position{line: 1384, col: 86, offset: 43889},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2865, col: 11, offset: 90688},
+																									pos: position{line: 2870, col: 11, offset: 90803},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2865, col: 11, offset: 90688},
+																										pos: position{line: 2870, col: 11, offset: 90803},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 11, offset: 90688},
+																											pos:        position{line: 2870, col: 11, offset: 90803},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48017,7 +48229,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1373, col: 32, offset: 43461},
+																									pos:        position{line: 1378, col: 32, offset: 43565},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -48026,36 +48238,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 122, offset: 43821},
+																						pos: position{line: 1384, col: 122, offset: 43925},
 																						expr: &litMatcher{
-																							pos:        position{line: 1373, col: 32, offset: 43461},
+																							pos:        position{line: 1378, col: 32, offset: 43565},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 151, offset: 43850},
+																						pos: position{line: 1384, col: 151, offset: 43954},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 90798},
+																							pos: position{line: 2875, col: 12, offset: 90913},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2870, col: 13, offset: 90799},
+																								pos: position{line: 2875, col: 13, offset: 90914},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 13, offset: 90799},
+																										pos:        position{line: 2875, col: 13, offset: 90914},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 20, offset: 90806},
+																										pos:        position{line: 2875, col: 20, offset: 90921},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2870, col: 29, offset: 90815},
+																										pos:        position{line: 2875, col: 29, offset: 90930},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48065,7 +48277,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1379, col: 160, offset: 43859,
+																						line: 1384, col: 160, offset: 43963,
 																					},
 																				},
 																			},
@@ -48074,18 +48286,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1381, col: 11, offset: 44009},
+																pos: position{line: 1386, col: 11, offset: 44113},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1381, col: 12, offset: 44010},
+																	pos: position{line: 1386, col: 12, offset: 44114},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1381, col: 12, offset: 44010},
+																			pos: position{line: 1386, col: 12, offset: 44114},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 10, offset: 90627},
+																				pos: position{line: 2866, col: 10, offset: 90742},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90627},
+																					pos:        position{line: 2866, col: 10, offset: 90742},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48094,27 +48306,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 19, offset: 44017},
+																			pos: position{line: 1386, col: 19, offset: 44121},
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 90798},
+																				pos: position{line: 2875, col: 12, offset: 90913},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2870, col: 13, offset: 90799},
+																					pos: position{line: 2875, col: 13, offset: 90914},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 13, offset: 90799},
+																							pos:        position{line: 2875, col: 13, offset: 90914},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 20, offset: 90806},
+																							pos:        position{line: 2875, col: 20, offset: 90921},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2870, col: 29, offset: 90815},
+																							pos:        position{line: 2875, col: 29, offset: 90930},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48124,16 +48336,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 28, offset: 44026},
+																			pos: position{line: 1386, col: 28, offset: 44130},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43461},
+																				pos:        position{line: 1378, col: 32, offset: 43565},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1381, col: 57, offset: 44055,
+																			line: 1386, col: 57, offset: 44159,
 																		},
 																	},
 																},
@@ -48142,15 +48354,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43461},
+													pos:        position{line: 1378, col: 32, offset: 43565},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1375, col: 121, offset: 43586},
+													pos: position{line: 1380, col: 121, offset: 43690},
 													expr: &charClassMatcher{
-														pos:        position{line: 2751, col: 13, offset: 87722},
+														pos:        position{line: 2756, col: 13, offset: 87837},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48161,7 +48373,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 57, offset: 78636},
+										pos:  position{line: 2438, col: 57, offset: 78751},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48173,16 +48385,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2438, col: 1, offset: 78696},
+			pos:  position{line: 2443, col: 1, offset: 78811},
 			expr: &seqExpr{
-				pos: position{line: 2440, col: 5, offset: 78772},
+				pos: position{line: 2445, col: 5, offset: 78887},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2440, col: 5, offset: 78772},
+						pos: position{line: 2445, col: 5, offset: 78887},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2443, col: 5, offset: 78837},
+						pos:  position{line: 2448, col: 5, offset: 78952},
 						name: "QuotedText",
 					},
 				},
@@ -48190,22 +48402,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2445, col: 1, offset: 78850},
+			pos:  position{line: 2450, col: 1, offset: 78965},
 			expr: &actionExpr{
-				pos: position{line: 2447, col: 5, offset: 78932},
+				pos: position{line: 2452, col: 5, offset: 79047},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2447, col: 5, offset: 78932},
+					pos: position{line: 2452, col: 5, offset: 79047},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2447, col: 5, offset: 78932},
+							pos: position{line: 2452, col: 5, offset: 79047},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2450, col: 5, offset: 79003},
+							pos:   position{line: 2455, col: 5, offset: 79118},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2451, col: 9, offset: 79021},
+								pos:  position{line: 2456, col: 9, offset: 79136},
 								name: "Symbol",
 							},
 						},
@@ -48215,103 +48427,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2506, col: 1, offset: 80780},
+			pos:  position{line: 2511, col: 1, offset: 80895},
 			expr: &choiceExpr{
-				pos: position{line: 2508, col: 5, offset: 80810},
+				pos: position{line: 2513, col: 5, offset: 80925},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2508, col: 5, offset: 80810},
+						pos: position{line: 2513, col: 5, offset: 80925},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2508, col: 5, offset: 80810},
+							pos: position{line: 2513, col: 5, offset: 80925},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2508, col: 5, offset: 80810},
+									pos:        position{line: 2513, col: 5, offset: 80925},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2508, col: 10, offset: 80815},
+									pos: position{line: 2513, col: 10, offset: 80930},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2508, col: 10, offset: 80815},
+											pos:  position{line: 2513, col: 10, offset: 80930},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2537, col: 14, offset: 81919},
+											pos: position{line: 2542, col: 14, offset: 82034},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2537, col: 14, offset: 81919},
+												pos:        position{line: 2542, col: 14, offset: 82034},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2541, col: 14, offset: 81985},
+											pos: position{line: 2546, col: 14, offset: 82100},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2541, col: 14, offset: 81985},
+												pos:        position{line: 2546, col: 14, offset: 82100},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2545, col: 15, offset: 82054},
+											pos: position{line: 2550, col: 15, offset: 82169},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2545, col: 15, offset: 82054},
+												pos:        position{line: 2550, col: 15, offset: 82169},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 13, offset: 82119},
+											pos: position{line: 2554, col: 13, offset: 82234},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 13, offset: 82119},
+												pos:        position{line: 2554, col: 13, offset: 82234},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2577, col: 21, offset: 82689},
+											pos: position{line: 2582, col: 21, offset: 82804},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2577, col: 21, offset: 82689},
+												pos:        position{line: 2582, col: 21, offset: 82804},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 5, offset: 82275},
+											pos: position{line: 2561, col: 5, offset: 82390},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2556, col: 5, offset: 82275},
+												pos: position{line: 2561, col: 5, offset: 82390},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2556, col: 5, offset: 82275},
+														pos:        position{line: 2561, col: 5, offset: 82390},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2557, col: 5, offset: 82285},
+														pos: position{line: 2562, col: 5, offset: 82400},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2561, col: 6, offset: 82372},
+														pos: position{line: 2566, col: 6, offset: 82487},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 10, offset: 90627},
+																pos: position{line: 2866, col: 10, offset: 90742},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2861, col: 10, offset: 90627},
+																	pos:        position{line: 2866, col: 10, offset: 90742},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48319,30 +48531,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2561, col: 14, offset: 82380},
+																pos: position{line: 2566, col: 14, offset: 82495},
 																expr: &choiceExpr{
-																	pos: position{line: 2883, col: 8, offset: 91025},
+																	pos: position{line: 2888, col: 8, offset: 91140},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 12, offset: 90798},
+																			pos: position{line: 2875, col: 12, offset: 90913},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2870, col: 13, offset: 90799},
+																				pos: position{line: 2875, col: 13, offset: 90914},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 90799},
+																						pos:        position{line: 2875, col: 13, offset: 90914},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 20, offset: 90806},
+																						pos:        position{line: 2875, col: 20, offset: 90921},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2870, col: 29, offset: 90815},
+																						pos:        position{line: 2875, col: 29, offset: 90930},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48351,9 +48563,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2880, col: 8, offset: 90975},
+																			pos: position{line: 2885, col: 8, offset: 91090},
 																			expr: &anyMatcher{
-																				line: 2880, col: 9, offset: 90976,
+																				line: 2885, col: 9, offset: 91091,
 																			},
 																		},
 																	},
@@ -48365,53 +48577,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 5, offset: 82500},
+											pos: position{line: 2571, col: 5, offset: 82615},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2566, col: 5, offset: 82500},
+												pos: position{line: 2571, col: 5, offset: 82615},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2566, col: 5, offset: 82500},
+														pos:        position{line: 2571, col: 5, offset: 82615},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2567, col: 5, offset: 82510},
+														pos: position{line: 2572, col: 5, offset: 82625},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2571, col: 5, offset: 82599},
+														pos: position{line: 2576, col: 5, offset: 82714},
 														expr: &choiceExpr{
-															pos: position{line: 2571, col: 7, offset: 82601},
+															pos: position{line: 2576, col: 7, offset: 82716},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2751, col: 13, offset: 87722},
+																	pos:        position{line: 2756, col: 13, offset: 87837},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 12, offset: 90798},
+																	pos: position{line: 2875, col: 12, offset: 90913},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2870, col: 13, offset: 90799},
+																		pos: position{line: 2875, col: 13, offset: 90914},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 90799},
+																				pos:        position{line: 2875, col: 13, offset: 90914},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 20, offset: 90806},
+																				pos:        position{line: 2875, col: 20, offset: 90921},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2870, col: 29, offset: 90815},
+																				pos:        position{line: 2875, col: 29, offset: 90930},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48420,9 +48632,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -48432,30 +48644,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 20, offset: 82759},
+											pos: position{line: 2586, col: 20, offset: 82874},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 20, offset: 82759},
+												pos:        position{line: 2586, col: 20, offset: 82874},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 21, offset: 82830},
+											pos: position{line: 2590, col: 21, offset: 82945},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2585, col: 21, offset: 82830},
+												pos:        position{line: 2590, col: 21, offset: 82945},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 20, offset: 82900},
+											pos: position{line: 2594, col: 20, offset: 83015},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 20, offset: 82900},
+												pos:        position{line: 2594, col: 20, offset: 83015},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48467,73 +48679,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2512, col: 7, offset: 81070},
+						pos:  position{line: 2517, col: 7, offset: 81185},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2537, col: 14, offset: 81919},
+						pos: position{line: 2542, col: 14, offset: 82034},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2537, col: 14, offset: 81919},
+							pos:        position{line: 2542, col: 14, offset: 82034},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2541, col: 14, offset: 81985},
+						pos: position{line: 2546, col: 14, offset: 82100},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2541, col: 14, offset: 81985},
+							pos:        position{line: 2546, col: 14, offset: 82100},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 15, offset: 82054},
+						pos: position{line: 2550, col: 15, offset: 82169},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2545, col: 15, offset: 82054},
+							pos:        position{line: 2550, col: 15, offset: 82169},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 13, offset: 82119},
+						pos: position{line: 2554, col: 13, offset: 82234},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 13, offset: 82119},
+							pos:        position{line: 2554, col: 13, offset: 82234},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 5, offset: 82275},
+						pos: position{line: 2561, col: 5, offset: 82390},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 5, offset: 82275},
+							pos: position{line: 2561, col: 5, offset: 82390},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82275},
+									pos:        position{line: 2561, col: 5, offset: 82390},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2557, col: 5, offset: 82285},
+									pos: position{line: 2562, col: 5, offset: 82400},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2561, col: 6, offset: 82372},
+									pos: position{line: 2566, col: 6, offset: 82487},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2861, col: 10, offset: 90627},
+											pos: position{line: 2866, col: 10, offset: 90742},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 10, offset: 90627},
+												pos:        position{line: 2866, col: 10, offset: 90742},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48541,30 +48753,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2561, col: 14, offset: 82380},
+											pos: position{line: 2566, col: 14, offset: 82495},
 											expr: &choiceExpr{
-												pos: position{line: 2883, col: 8, offset: 91025},
+												pos: position{line: 2888, col: 8, offset: 91140},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2870, col: 12, offset: 90798},
+														pos: position{line: 2875, col: 12, offset: 90913},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2870, col: 13, offset: 90799},
+															pos: position{line: 2875, col: 13, offset: 90914},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2870, col: 13, offset: 90799},
+																	pos:        position{line: 2875, col: 13, offset: 90914},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 20, offset: 90806},
+																	pos:        position{line: 2875, col: 20, offset: 90921},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2870, col: 29, offset: 90815},
+																	pos:        position{line: 2875, col: 29, offset: 90930},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48573,9 +48785,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2880, col: 8, offset: 90975},
+														pos: position{line: 2885, col: 8, offset: 91090},
 														expr: &anyMatcher{
-															line: 2880, col: 9, offset: 90976,
+															line: 2885, col: 9, offset: 91091,
 														},
 													},
 												},
@@ -48587,53 +48799,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82500},
+						pos: position{line: 2571, col: 5, offset: 82615},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82500},
+							pos: position{line: 2571, col: 5, offset: 82615},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82500},
+									pos:        position{line: 2571, col: 5, offset: 82615},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2567, col: 5, offset: 82510},
+									pos: position{line: 2572, col: 5, offset: 82625},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2571, col: 5, offset: 82599},
+									pos: position{line: 2576, col: 5, offset: 82714},
 									expr: &choiceExpr{
-										pos: position{line: 2571, col: 7, offset: 82601},
+										pos: position{line: 2576, col: 7, offset: 82716},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2751, col: 13, offset: 87722},
+												pos:        position{line: 2756, col: 13, offset: 87837},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2870, col: 12, offset: 90798},
+												pos: position{line: 2875, col: 12, offset: 90913},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2870, col: 13, offset: 90799},
+													pos: position{line: 2875, col: 13, offset: 90914},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2870, col: 13, offset: 90799},
+															pos:        position{line: 2875, col: 13, offset: 90914},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 20, offset: 90806},
+															pos:        position{line: 2875, col: 20, offset: 90921},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2870, col: 29, offset: 90815},
+															pos:        position{line: 2875, col: 29, offset: 90930},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48642,9 +48854,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2880, col: 8, offset: 90975},
+												pos: position{line: 2885, col: 8, offset: 91090},
 												expr: &anyMatcher{
-													line: 2880, col: 9, offset: 90976,
+													line: 2885, col: 9, offset: 91091,
 												},
 											},
 										},
@@ -48654,40 +48866,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 21, offset: 82689},
+						pos: position{line: 2582, col: 21, offset: 82804},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2577, col: 21, offset: 82689},
+							pos:        position{line: 2582, col: 21, offset: 82804},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 20, offset: 82759},
+						pos: position{line: 2586, col: 20, offset: 82874},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 20, offset: 82759},
+							pos:        position{line: 2586, col: 20, offset: 82874},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 21, offset: 82830},
+						pos: position{line: 2590, col: 21, offset: 82945},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2585, col: 21, offset: 82830},
+							pos:        position{line: 2590, col: 21, offset: 82945},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 20, offset: 82900},
+						pos: position{line: 2594, col: 20, offset: 83015},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 20, offset: 82900},
+							pos:        position{line: 2594, col: 20, offset: 83015},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48698,43 +48910,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2523, col: 1, offset: 81260},
+			pos:  position{line: 2528, col: 1, offset: 81375},
 			expr: &choiceExpr{
-				pos: position{line: 2524, col: 5, offset: 81282},
+				pos: position{line: 2529, col: 5, offset: 81397},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81282},
+						pos: position{line: 2529, col: 5, offset: 81397},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81282},
+							pos: position{line: 2529, col: 5, offset: 81397},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81282},
+									pos:        position{line: 2529, col: 5, offset: 81397},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 11, offset: 81288},
+									pos: position{line: 2529, col: 11, offset: 81403},
 									expr: &seqExpr{
-										pos: position{line: 2087, col: 5, offset: 67492},
+										pos: position{line: 2092, col: 5, offset: 67607},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2087, col: 5, offset: 67492},
+												pos:        position{line: 2092, col: 5, offset: 67607},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2088, col: 5, offset: 67501},
+												pos: position{line: 2093, col: 5, offset: 67616},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2092, col: 5, offset: 67624},
+												pos: position{line: 2097, col: 5, offset: 67739},
 												expr: &notExpr{
-													pos: position{line: 2092, col: 7, offset: 67626},
+													pos: position{line: 2097, col: 7, offset: 67741},
 													expr: &litMatcher{
-														pos:        position{line: 2092, col: 8, offset: 67627},
+														pos:        position{line: 2097, col: 8, offset: 67742},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48748,21 +48960,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 7, offset: 81441},
+						pos: position{line: 2532, col: 7, offset: 81556},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 7, offset: 81441},
+							pos: position{line: 2532, col: 7, offset: 81556},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 7, offset: 81441},
+									pos:        position{line: 2532, col: 7, offset: 81556},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2527, col: 13, offset: 81447},
+									pos: position{line: 2532, col: 13, offset: 81562},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2527, col: 14, offset: 81448},
+										pos:  position{line: 2532, col: 14, offset: 81563},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48770,38 +48982,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 7, offset: 81598},
+						pos: position{line: 2535, col: 7, offset: 81713},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 7, offset: 81598},
+							pos: position{line: 2535, col: 7, offset: 81713},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 7, offset: 81598},
+									pos:        position{line: 2535, col: 7, offset: 81713},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2530, col: 12, offset: 81603},
+									pos: position{line: 2535, col: 12, offset: 81718},
 									expr: &seqExpr{
-										pos: position{line: 2087, col: 5, offset: 67492},
+										pos: position{line: 2092, col: 5, offset: 67607},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2087, col: 5, offset: 67492},
+												pos:        position{line: 2092, col: 5, offset: 67607},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2088, col: 5, offset: 67501},
+												pos: position{line: 2093, col: 5, offset: 67616},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2092, col: 5, offset: 67624},
+												pos: position{line: 2097, col: 5, offset: 67739},
 												expr: &notExpr{
-													pos: position{line: 2092, col: 7, offset: 67626},
+													pos: position{line: 2097, col: 7, offset: 67741},
 													expr: &litMatcher{
-														pos:        position{line: 2092, col: 8, offset: 67627},
+														pos:        position{line: 2097, col: 8, offset: 67742},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48815,21 +49027,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2533, col: 7, offset: 81756},
+						pos: position{line: 2538, col: 7, offset: 81871},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 7, offset: 81756},
+							pos: position{line: 2538, col: 7, offset: 81871},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 7, offset: 81756},
+									pos:        position{line: 2538, col: 7, offset: 81871},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2533, col: 12, offset: 81761},
+									pos: position{line: 2538, col: 12, offset: 81876},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2533, col: 13, offset: 81762},
+										pos:  position{line: 2538, col: 13, offset: 81877},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48841,63 +49053,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2666, col: 1, offset: 84802},
+			pos:  position{line: 2671, col: 1, offset: 84917},
 			expr: &actionExpr{
-				pos: position{line: 2666, col: 26, offset: 84827},
+				pos: position{line: 2671, col: 26, offset: 84942},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2666, col: 26, offset: 84827},
+					pos: position{line: 2671, col: 26, offset: 84942},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2666, col: 26, offset: 84827},
+							pos:   position{line: 2671, col: 26, offset: 84942},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2666, col: 31, offset: 84832},
+								pos: position{line: 2671, col: 31, offset: 84947},
 								expr: &actionExpr{
-									pos: position{line: 2671, col: 5, offset: 84895},
+									pos: position{line: 2676, col: 5, offset: 85010},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2671, col: 5, offset: 84895},
+										pos: position{line: 2676, col: 5, offset: 85010},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2878, col: 11, offset: 90961},
+												pos: position{line: 2883, col: 11, offset: 91076},
 												expr: &anyMatcher{
-													line: 2878, col: 13, offset: 90963,
+													line: 2883, col: 13, offset: 91078,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2674, col: 5, offset: 85021},
+												pos:   position{line: 2679, col: 5, offset: 85136},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2674, col: 16, offset: 85032},
+													pos: position{line: 2679, col: 16, offset: 85147},
 													expr: &actionExpr{
-														pos: position{line: 2674, col: 17, offset: 85033},
+														pos: position{line: 2679, col: 17, offset: 85148},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2674, col: 17, offset: 85033},
+															pos: position{line: 2679, col: 17, offset: 85148},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2674, col: 17, offset: 85033},
+																	pos:   position{line: 2679, col: 17, offset: 85148},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 12, offset: 90454},
+																		pos: position{line: 2858, col: 12, offset: 90569},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2853, col: 13, offset: 90455},
+																			pos: position{line: 2858, col: 13, offset: 90570},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2853, col: 13, offset: 90455},
+																					pos: position{line: 2858, col: 13, offset: 90570},
 																					expr: &litMatcher{
-																						pos:        position{line: 2853, col: 13, offset: 90455},
+																						pos:        position{line: 2858, col: 13, offset: 90570},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2853, col: 18, offset: 90460},
+																					pos: position{line: 2858, col: 18, offset: 90575},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2853, col: 18, offset: 90460},
+																						pos:        position{line: 2858, col: 18, offset: 90575},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48909,7 +49121,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2674, col: 27, offset: 85043},
+																	pos:        position{line: 2679, col: 27, offset: 85158},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48920,38 +49132,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2675, col: 5, offset: 85071},
+												pos:   position{line: 2680, col: 5, offset: 85186},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2675, col: 12, offset: 85078},
+													pos: position{line: 2680, col: 12, offset: 85193},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 9, offset: 85088},
+														pos: position{line: 2681, col: 9, offset: 85203},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2676, col: 9, offset: 85088},
+																pos: position{line: 2681, col: 9, offset: 85203},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 9, offset: 85088},
+																	pos:        position{line: 2681, col: 9, offset: 85203},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2677, col: 11, offset: 85135},
+																pos: position{line: 2682, col: 11, offset: 85250},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2677, col: 11, offset: 85135},
+																	pos:        position{line: 2682, col: 11, offset: 85250},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2678, col: 11, offset: 85183},
+																pos: position{line: 2683, col: 11, offset: 85298},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2678, col: 11, offset: 85183},
+																	pos:        position{line: 2683, col: 11, offset: 85298},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48962,38 +49174,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2680, col: 5, offset: 85233},
+												pos:   position{line: 2685, col: 5, offset: 85348},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2680, col: 12, offset: 85240},
+													pos: position{line: 2685, col: 12, offset: 85355},
 													expr: &choiceExpr{
-														pos: position{line: 2681, col: 9, offset: 85250},
+														pos: position{line: 2686, col: 9, offset: 85365},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2681, col: 9, offset: 85250},
+																pos: position{line: 2686, col: 9, offset: 85365},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 9, offset: 85250},
+																	pos:        position{line: 2686, col: 9, offset: 85365},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85297},
+																pos: position{line: 2687, col: 11, offset: 85412},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85297},
+																	pos:        position{line: 2687, col: 11, offset: 85412},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85347},
+																pos: position{line: 2688, col: 11, offset: 85462},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85347},
+																	pos:        position{line: 2688, col: 11, offset: 85462},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49004,32 +49216,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85398},
+												pos:   position{line: 2690, col: 5, offset: 85513},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 12, offset: 85405},
+													pos: position{line: 2690, col: 12, offset: 85520},
 													expr: &choiceExpr{
-														pos: position{line: 2685, col: 13, offset: 85406},
+														pos: position{line: 2690, col: 13, offset: 85521},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2853, col: 12, offset: 90454},
+																pos: position{line: 2858, col: 12, offset: 90569},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2853, col: 13, offset: 90455},
+																	pos: position{line: 2858, col: 13, offset: 90570},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2853, col: 13, offset: 90455},
+																			pos: position{line: 2858, col: 13, offset: 90570},
 																			expr: &litMatcher{
-																				pos:        position{line: 2853, col: 13, offset: 90455},
+																				pos:        position{line: 2858, col: 13, offset: 90570},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2853, col: 18, offset: 90460},
+																			pos: position{line: 2858, col: 18, offset: 90575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 18, offset: 90460},
+																				pos:        position{line: 2858, col: 18, offset: 90575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49040,10 +49252,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 24, offset: 85417},
+																pos: position{line: 2690, col: 24, offset: 85532},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 24, offset: 85417},
+																	pos:        position{line: 2690, col: 24, offset: 85532},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49054,15 +49266,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85459},
+												pos:   position{line: 2691, col: 5, offset: 85574},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 11, offset: 85465},
+													pos: position{line: 2691, col: 11, offset: 85580},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 12, offset: 85466},
+														pos: position{line: 2691, col: 12, offset: 85581},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2686, col: 12, offset: 85466},
+															pos:        position{line: 2691, col: 12, offset: 85581},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49072,12 +49284,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85596},
+												pos:   position{line: 2693, col: 5, offset: 85711},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 11, offset: 85602},
+													pos: position{line: 2693, col: 11, offset: 85717},
 													expr: &litMatcher{
-														pos:        position{line: 2688, col: 12, offset: 85603},
+														pos:        position{line: 2693, col: 12, offset: 85718},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49085,7 +49297,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2689, col: 5, offset: 85613},
+												pos: position{line: 2694, col: 5, offset: 85728},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49094,9 +49306,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2880, col: 8, offset: 90975},
+							pos: position{line: 2885, col: 8, offset: 91090},
 							expr: &anyMatcher{
-								line: 2880, col: 9, offset: 90976,
+								line: 2885, col: 9, offset: 91091,
 							},
 						},
 					},
@@ -49105,23 +49317,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2716, col: 1, offset: 86622},
+			pos:  position{line: 2721, col: 1, offset: 86737},
 			expr: &actionExpr{
-				pos: position{line: 2717, col: 5, offset: 86645},
+				pos: position{line: 2722, col: 5, offset: 86760},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2717, col: 5, offset: 86645},
+					pos: position{line: 2722, col: 5, offset: 86760},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2717, col: 5, offset: 86645},
+							pos:   position{line: 2722, col: 5, offset: 86760},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2740, col: 18, offset: 87386},
+								pos: position{line: 2745, col: 18, offset: 87501},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2740, col: 19, offset: 87387},
+									pos: position{line: 2745, col: 19, offset: 87502},
 									expr: &charClassMatcher{
-										pos:        position{line: 2740, col: 19, offset: 87387},
+										pos:        position{line: 2745, col: 19, offset: 87502},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49132,25 +49344,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2718, col: 5, offset: 86671},
+							pos: position{line: 2723, col: 5, offset: 86786},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2722, col: 5, offset: 86799},
+							pos:        position{line: 2727, col: 5, offset: 86914},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2723, col: 5, offset: 86809},
+							pos:   position{line: 2728, col: 5, offset: 86924},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 19, offset: 87462},
+								pos: position{line: 2749, col: 19, offset: 87577},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87462},
+									pos: position{line: 2749, col: 19, offset: 87577},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87462},
+										pos:        position{line: 2749, col: 19, offset: 87577},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49160,36 +49372,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2724, col: 5, offset: 86837},
+							pos:   position{line: 2729, col: 5, offset: 86952},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2724, col: 17, offset: 86849},
+								pos:  position{line: 2729, col: 17, offset: 86964},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2883, col: 8, offset: 91025},
+							pos: position{line: 2888, col: 8, offset: 91140},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2870, col: 12, offset: 90798},
+									pos: position{line: 2875, col: 12, offset: 90913},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2870, col: 13, offset: 90799},
+										pos: position{line: 2875, col: 13, offset: 90914},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2870, col: 13, offset: 90799},
+												pos:        position{line: 2875, col: 13, offset: 90914},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 20, offset: 90806},
+												pos:        position{line: 2875, col: 20, offset: 90921},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2870, col: 29, offset: 90815},
+												pos:        position{line: 2875, col: 29, offset: 90930},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49198,9 +49410,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 8, offset: 90975},
+									pos: position{line: 2885, col: 8, offset: 91090},
 									expr: &anyMatcher{
-										line: 2880, col: 9, offset: 90976,
+										line: 2885, col: 9, offset: 91091,
 									},
 								},
 							},
@@ -49211,23 +49423,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2728, col: 1, offset: 86997},
+			pos:  position{line: 2733, col: 1, offset: 87112},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 87021},
+				pos: position{line: 2734, col: 5, offset: 87136},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 87021},
+					pos: position{line: 2734, col: 5, offset: 87136},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 87021},
+							pos:   position{line: 2734, col: 5, offset: 87136},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2740, col: 18, offset: 87386},
+								pos: position{line: 2745, col: 18, offset: 87501},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2740, col: 19, offset: 87387},
+									pos: position{line: 2745, col: 19, offset: 87502},
 									expr: &charClassMatcher{
-										pos:        position{line: 2740, col: 19, offset: 87387},
+										pos:        position{line: 2745, col: 19, offset: 87502},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49238,25 +49450,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 87047},
+							pos: position{line: 2735, col: 5, offset: 87162},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 87175},
+							pos:        position{line: 2739, col: 5, offset: 87290},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87184},
+							pos:   position{line: 2740, col: 5, offset: 87299},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 19, offset: 87462},
+								pos: position{line: 2749, col: 19, offset: 87577},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87462},
+									pos: position{line: 2749, col: 19, offset: 87577},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87462},
+										pos:        position{line: 2749, col: 19, offset: 87577},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49266,10 +49478,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87212},
+							pos:   position{line: 2741, col: 5, offset: 87327},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87224},
+								pos:  position{line: 2741, col: 17, offset: 87339},
 								name: "InlineAttributes",
 							},
 						},
@@ -49279,43 +49491,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2815, col: 1, offset: 89274},
+			pos:  position{line: 2820, col: 1, offset: 89389},
 			expr: &actionExpr{
-				pos: position{line: 2815, col: 17, offset: 89290},
+				pos: position{line: 2820, col: 17, offset: 89405},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2815, col: 17, offset: 89290},
+					pos:   position{line: 2820, col: 17, offset: 89405},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2832, col: 5, offset: 89744},
+						pos: position{line: 2837, col: 5, offset: 89859},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2832, col: 5, offset: 89744},
+							pos:   position{line: 2837, col: 5, offset: 89859},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2832, col: 14, offset: 89753},
+								pos: position{line: 2837, col: 14, offset: 89868},
 								expr: &choiceExpr{
-									pos: position{line: 2833, col: 9, offset: 89763},
+									pos: position{line: 2838, col: 9, offset: 89878},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2833, col: 9, offset: 89763},
+											pos: position{line: 2838, col: 9, offset: 89878},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2833, col: 9, offset: 89763},
+												pos: position{line: 2838, col: 9, offset: 89878},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2833, col: 9, offset: 89763},
+														pos: position{line: 2838, col: 9, offset: 89878},
 														expr: &litMatcher{
-															pos:        position{line: 2833, col: 10, offset: 89764},
+															pos:        position{line: 2838, col: 10, offset: 89879},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2834, col: 9, offset: 89792},
+														pos: position{line: 2839, col: 9, offset: 89907},
 														expr: &charClassMatcher{
-															pos:        position{line: 2834, col: 10, offset: 89793},
+															pos:        position{line: 2839, col: 10, offset: 89908},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49326,27 +49538,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2837, col: 11, offset: 90005},
+											pos: position{line: 2842, col: 11, offset: 90120},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2837, col: 11, offset: 90005},
+													pos:        position{line: 2842, col: 11, offset: 90120},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2837, col: 19, offset: 90013},
+													pos: position{line: 2842, col: 19, offset: 90128},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 21, offset: 90015},
+														pos: position{line: 2842, col: 21, offset: 90130},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2837, col: 21, offset: 90015},
+																pos: position{line: 2842, col: 21, offset: 90130},
 																expr: &actionExpr{
-																	pos: position{line: 2861, col: 10, offset: 90627},
+																	pos: position{line: 2866, col: 10, offset: 90742},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2861, col: 10, offset: 90627},
+																		pos:        position{line: 2866, col: 10, offset: 90742},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49355,11 +49567,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2837, col: 28, offset: 90022},
+																pos: position{line: 2842, col: 28, offset: 90137},
 																expr: &notExpr{
-																	pos: position{line: 2880, col: 8, offset: 90975},
+																	pos: position{line: 2885, col: 8, offset: 91090},
 																	expr: &anyMatcher{
-																		line: 2880, col: 9, offset: 90976,
+																		line: 2885, col: 9, offset: 91091,
 																	},
 																},
 															},
@@ -49754,10 +49966,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2840, col: 11, offset: 90142},
+											pos: position{line: 2845, col: 11, offset: 90257},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2840, col: 11, offset: 90142},
+												pos:        position{line: 2845, col: 11, offset: 90257},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -53551,7 +53763,7 @@ func (p *parser) callonDocumentFragment700() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment703(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
@@ -55069,64 +55281,87 @@ func (p *parser) callonDocumentFragment1378() (interface{}, error) {
 	return p.cur.onDocumentFragment1378()
 }
 
-func (c *current) onDocumentFragment1395() (interface{}, error) {
+func (c *current) onDocumentFragment1393() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1395() (interface{}, error) {
+func (p *parser) callonDocumentFragment1393() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1393()
+}
+
+func (c *current) onDocumentFragment1396() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1395()
+	return p.cur.onDocumentFragment1396()
 }
 
-func (c *current) onDocumentFragment1398() (interface{}, error) {
+func (c *current) onDocumentFragment1405() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1398() (interface{}, error) {
+func (p *parser) callonDocumentFragment1405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1398()
+	return p.cur.onDocumentFragment1405()
 }
 
-func (c *current) onDocumentFragment1387() (interface{}, error) {
+func (c *current) onDocumentFragment1386() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1387() (interface{}, error) {
+func (p *parser) callonDocumentFragment1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1387()
+	return p.cur.onDocumentFragment1386()
 }
 
-func (c *current) onDocumentFragment1408() (interface{}, error) {
+func (c *current) onDocumentFragment1412() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1408() (interface{}, error) {
+func (p *parser) callonDocumentFragment1412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1408()
+	return p.cur.onDocumentFragment1412()
 }
 
-func (c *current) onDocumentFragment1411() (interface{}, error) {
+func (c *current) onDocumentFragment1415() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1411() (interface{}, error) {
+func (p *parser) callonDocumentFragment1415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1411()
+	return p.cur.onDocumentFragment1415()
+}
+
+func (c *current) onDocumentFragment1422(content interface{}) (bool, error) {
+	return types.IsYamlFrontMatter(content.(string)), nil
+
+}
+
+func (p *parser) callonDocumentFragment1422() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1422(stack["content"])
 }
 
 func (c *current) onDocumentFragment1371(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
+
 }
 
 func (p *parser) callonDocumentFragment1371() (interface{}, error) {
@@ -55146,16 +55381,16 @@ func (p *parser) callonDocumentFragment1367() (interface{}, error) {
 	return p.cur.onDocumentFragment1367(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1419(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1424(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1419() (bool, error) {
+func (p *parser) callonDocumentFragment1424() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1419(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1424(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -67798,7 +68033,7 @@ func (p *parser) callonListContinuationElement915() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement918(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
@@ -69372,6 +69607,29 @@ func (p *parser) callonListContinuationElement1601() (interface{}, error) {
 	return p.cur.onListContinuationElement1601()
 }
 
+func (c *current) onListContinuationElement1609() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1609()
+}
+
+func (c *current) onListContinuationElement1612() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1612()
+}
+
 func (c *current) onListContinuationElement1586(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -69383,102 +69641,102 @@ func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	return p.cur.onListContinuationElement1586(stack["style"])
 }
 
-func (c *current) onListContinuationElement1615() (interface{}, error) {
+func (c *current) onListContinuationElement1628() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615()
+	return p.cur.onListContinuationElement1628()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1631() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1631()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1623() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1623()
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1642() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1642() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1642()
 }
 
-func (c *current) onListContinuationElement1631() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1640() (interface{}, error) {
+func (c *current) onListContinuationElement1653() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1640() (interface{}, error) {
+func (p *parser) callonListContinuationElement1653() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1640()
+	return p.cur.onListContinuationElement1653()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1650(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1663(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1650() (bool, error) {
+func (p *parser) callonListContinuationElement1663() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650(stack["depth"])
+	return p.cur.onListContinuationElement1663(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1644(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1657(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -69494,838 +69752,838 @@ func (c *current) onListContinuationElement1644(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644(stack["depth"])
+	return p.cur.onListContinuationElement1657(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1651() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
+func (c *current) onListContinuationElement1669() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1669()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1673() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1673()
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1677() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1677()
 }
 
-func (c *current) onListContinuationElement1669() (interface{}, error) {
+func (c *current) onListContinuationElement1682() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1669()
+	return p.cur.onListContinuationElement1682()
 }
 
-func (c *current) onListContinuationElement1674(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1687(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1674() (interface{}, error) {
+func (p *parser) callonListContinuationElement1687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1674(stack["prefix"])
+	return p.cur.onListContinuationElement1687(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1637(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1650(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1637() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637(stack["prefix"])
+	return p.cur.onListContinuationElement1650(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1681() (interface{}, error) {
+func (c *current) onListContinuationElement1694() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681()
+	return p.cur.onListContinuationElement1694()
 }
 
-func (c *current) onListContinuationElement1684() (interface{}, error) {
+func (c *current) onListContinuationElement1697() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684()
+	return p.cur.onListContinuationElement1697()
 }
 
-func (c *current) onListContinuationElement1689(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1702(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (bool, error) {
+func (p *parser) callonListContinuationElement1702() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["style"])
+	return p.cur.onListContinuationElement1702(stack["style"])
 }
 
-func (c *current) onListContinuationElement1690(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1703(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1690() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1690(stack["style"])
+	return p.cur.onListContinuationElement1703(stack["style"])
 }
 
-func (c *current) onListContinuationElement1678(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1691(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678(stack["style"])
+	return p.cur.onListContinuationElement1691(stack["style"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1711() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1711()
 }
 
-func (c *current) onListContinuationElement1702(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1715(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1702() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1702(stack["ref"])
+	return p.cur.onListContinuationElement1715(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1707(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694(stack["ref"])
+	return p.cur.onListContinuationElement1707(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1714() (interface{}, error) {
+func (c *current) onListContinuationElement1727() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1727() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714()
+	return p.cur.onListContinuationElement1727()
 }
 
-func (c *current) onListContinuationElement1717(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1730(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (bool, error) {
+func (p *parser) callonListContinuationElement1730() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717(stack["separator"])
+	return p.cur.onListContinuationElement1730(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1711(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1724(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1711() (interface{}, error) {
+func (p *parser) callonListContinuationElement1724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711(stack["separator"])
+	return p.cur.onListContinuationElement1724(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1720() (interface{}, error) {
+func (c *current) onListContinuationElement1733() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720()
+	return p.cur.onListContinuationElement1733()
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1720() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1720()
 }
 
-func (c *current) onListContinuationElement1731() (interface{}, error) {
+func (c *current) onListContinuationElement1744() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1744() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731()
+	return p.cur.onListContinuationElement1744()
 }
 
-func (c *current) onListContinuationElement1734(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1747(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1734() (bool, error) {
+func (p *parser) callonListContinuationElement1747() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734(stack["separator"])
+	return p.cur.onListContinuationElement1747(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1728(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1741(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728(stack["separator"])
+	return p.cur.onListContinuationElement1741(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1736() (interface{}, error) {
+func (c *current) onListContinuationElement1749() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1736() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1736()
+	return p.cur.onListContinuationElement1749()
 }
 
-func (c *current) onListContinuationElement1738() (interface{}, error) {
+func (c *current) onListContinuationElement1751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1738() (interface{}, error) {
+func (p *parser) callonListContinuationElement1751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1738()
+	return p.cur.onListContinuationElement1751()
 }
 
-func (c *current) onListContinuationElement1756() (interface{}, error) {
+func (c *current) onListContinuationElement1769() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1756() (interface{}, error) {
+func (p *parser) callonListContinuationElement1769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1756()
+	return p.cur.onListContinuationElement1769()
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1775() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1765() (interface{}, error) {
+func (c *current) onListContinuationElement1778() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765()
+	return p.cur.onListContinuationElement1778()
 }
 
-func (c *current) onListContinuationElement1753(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1766(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1753() (interface{}, error) {
+func (p *parser) callonListContinuationElement1766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1753(stack["delimiter"])
+	return p.cur.onListContinuationElement1766(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
+func (c *current) onListContinuationElement1788() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onListContinuationElement1788()
 }
 
-func (c *current) onListContinuationElement1781() (interface{}, error) {
+func (c *current) onListContinuationElement1794() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1781() (interface{}, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1781()
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1784() (interface{}, error) {
+func (c *current) onListContinuationElement1797() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1784() (interface{}, error) {
+func (p *parser) callonListContinuationElement1797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1784()
+	return p.cur.onListContinuationElement1797()
 }
 
-func (c *current) onListContinuationElement1772(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1785(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772(stack["delimiter"])
+	return p.cur.onListContinuationElement1785(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1795() (interface{}, error) {
+func (c *current) onListContinuationElement1808() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795()
+	return p.cur.onListContinuationElement1808()
 }
 
-func (c *current) onListContinuationElement1799() (interface{}, error) {
+func (c *current) onListContinuationElement1812() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1799() (interface{}, error) {
+func (p *parser) callonListContinuationElement1812() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1799()
+	return p.cur.onListContinuationElement1812()
 }
 
-func (c *current) onListContinuationElement1802() (interface{}, error) {
+func (c *current) onListContinuationElement1815() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1802() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1802()
+	return p.cur.onListContinuationElement1815()
 }
 
-func (c *current) onListContinuationElement1791(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1804(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1791() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1791(stack["language"])
+	return p.cur.onListContinuationElement1804(stack["language"])
 }
 
-func (c *current) onListContinuationElement1812() (interface{}, error) {
+func (c *current) onListContinuationElement1825() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1812() (interface{}, error) {
+func (p *parser) callonListContinuationElement1825() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1812()
+	return p.cur.onListContinuationElement1825()
 }
 
-func (c *current) onListContinuationElement1818() (interface{}, error) {
+func (c *current) onListContinuationElement1831() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1818() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1818()
+	return p.cur.onListContinuationElement1831()
 }
 
-func (c *current) onListContinuationElement1821() (interface{}, error) {
+func (c *current) onListContinuationElement1834() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1821() (interface{}, error) {
+func (p *parser) callonListContinuationElement1834() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1821()
+	return p.cur.onListContinuationElement1834()
 }
 
-func (c *current) onListContinuationElement1809(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1822(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1809() (interface{}, error) {
+func (p *parser) callonListContinuationElement1822() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1809(stack["delimiter"])
+	return p.cur.onListContinuationElement1822(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1831() (interface{}, error) {
+func (c *current) onListContinuationElement1844() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1831() (interface{}, error) {
+func (p *parser) callonListContinuationElement1844() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831()
+	return p.cur.onListContinuationElement1844()
 }
 
-func (c *current) onListContinuationElement1837() (interface{}, error) {
+func (c *current) onListContinuationElement1850() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1837() (interface{}, error) {
+func (p *parser) callonListContinuationElement1850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1837()
+	return p.cur.onListContinuationElement1850()
 }
 
-func (c *current) onListContinuationElement1840() (interface{}, error) {
+func (c *current) onListContinuationElement1853() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1840() (interface{}, error) {
+func (p *parser) callonListContinuationElement1853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1840()
+	return p.cur.onListContinuationElement1853()
 }
 
-func (c *current) onListContinuationElement1828(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1841(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1828() (interface{}, error) {
+func (p *parser) callonListContinuationElement1841() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1828(stack["delimiter"])
+	return p.cur.onListContinuationElement1841(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1850() (interface{}, error) {
+func (c *current) onListContinuationElement1863() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1850() (interface{}, error) {
+func (p *parser) callonListContinuationElement1863() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1850()
+	return p.cur.onListContinuationElement1863()
 }
 
-func (c *current) onListContinuationElement1856() (interface{}, error) {
+func (c *current) onListContinuationElement1869() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1856() (interface{}, error) {
+func (p *parser) callonListContinuationElement1869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1856()
+	return p.cur.onListContinuationElement1869()
 }
 
-func (c *current) onListContinuationElement1859() (interface{}, error) {
+func (c *current) onListContinuationElement1872() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1859() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1859()
+	return p.cur.onListContinuationElement1872()
 }
 
-func (c *current) onListContinuationElement1847(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1860(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1847() (interface{}, error) {
+func (p *parser) callonListContinuationElement1860() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1847(stack["delimiter"])
+	return p.cur.onListContinuationElement1860(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1869() (interface{}, error) {
+func (c *current) onListContinuationElement1882() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1869() (interface{}, error) {
+func (p *parser) callonListContinuationElement1882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1869()
+	return p.cur.onListContinuationElement1882()
 }
 
-func (c *current) onListContinuationElement1875() (interface{}, error) {
+func (c *current) onListContinuationElement1888() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1875() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1875()
+	return p.cur.onListContinuationElement1888()
 }
 
-func (c *current) onListContinuationElement1878() (interface{}, error) {
+func (c *current) onListContinuationElement1891() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1878() (interface{}, error) {
+func (p *parser) callonListContinuationElement1891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1878()
+	return p.cur.onListContinuationElement1891()
 }
 
-func (c *current) onListContinuationElement1866(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1879(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1866() (interface{}, error) {
+func (p *parser) callonListContinuationElement1879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1866(stack["delimiter"])
+	return p.cur.onListContinuationElement1879(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1888() (interface{}, error) {
+func (c *current) onListContinuationElement1901() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonListContinuationElement1901() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888()
+	return p.cur.onListContinuationElement1901()
 }
 
-func (c *current) onListContinuationElement1894() (interface{}, error) {
+func (c *current) onListContinuationElement1907() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1894() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1894()
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1897() (interface{}, error) {
+func (c *current) onListContinuationElement1910() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1897() (interface{}, error) {
+func (p *parser) callonListContinuationElement1910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1897()
+	return p.cur.onListContinuationElement1910()
 }
 
-func (c *current) onListContinuationElement1885(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1898(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1885() (interface{}, error) {
+func (p *parser) callonListContinuationElement1898() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1885(stack["delimiter"])
+	return p.cur.onListContinuationElement1898(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onListContinuationElement1920() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onListContinuationElement1920()
 }
 
-func (c *current) onListContinuationElement1913() (interface{}, error) {
+func (c *current) onListContinuationElement1926() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1913() (interface{}, error) {
+func (p *parser) callonListContinuationElement1926() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1913()
+	return p.cur.onListContinuationElement1926()
 }
 
-func (c *current) onListContinuationElement1916() (interface{}, error) {
+func (c *current) onListContinuationElement1929() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1916() (interface{}, error) {
+func (p *parser) callonListContinuationElement1929() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1916()
+	return p.cur.onListContinuationElement1929()
 }
 
-func (c *current) onListContinuationElement1904(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1917(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1917() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904(stack["delimiter"])
+	return p.cur.onListContinuationElement1917(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1747(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1760(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1747() (interface{}, error) {
+func (p *parser) callonListContinuationElement1760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1747(stack["delimiter"])
+	return p.cur.onListContinuationElement1760(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1926() (interface{}, error) {
+func (c *current) onListContinuationElement1939() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1926() (interface{}, error) {
+func (p *parser) callonListContinuationElement1939() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1926()
+	return p.cur.onListContinuationElement1939()
 }
 
-func (c *current) onListContinuationElement1929() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1929() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1929()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1932() (interface{}, error) {
+func (c *current) onListContinuationElement1945() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1932() (interface{}, error) {
+func (p *parser) callonListContinuationElement1945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1932()
+	return p.cur.onListContinuationElement1945()
 }
 
-func (c *current) onListContinuationElement1923(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1936(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1923() (interface{}, error) {
+func (p *parser) callonListContinuationElement1936() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1923(stack["delimiter"])
+	return p.cur.onListContinuationElement1936(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1942() (interface{}, error) {
+func (c *current) onListContinuationElement1955() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1955() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942()
+	return p.cur.onListContinuationElement1955()
 }
 
-func (c *current) onListContinuationElement1945() (interface{}, error) {
+func (c *current) onListContinuationElement1958() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1945() (interface{}, error) {
+func (p *parser) callonListContinuationElement1958() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1945()
+	return p.cur.onListContinuationElement1958()
 }
 
-func (c *current) onListContinuationElement1953() (interface{}, error) {
+func (c *current) onListContinuationElement1966() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1953() (interface{}, error) {
+func (p *parser) callonListContinuationElement1966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1953()
+	return p.cur.onListContinuationElement1966()
 }
 
-func (c *current) onListContinuationElement1957() (interface{}, error) {
+func (c *current) onListContinuationElement1970() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1957() (interface{}, error) {
+func (p *parser) callonListContinuationElement1970() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1957()
+	return p.cur.onListContinuationElement1970()
 }
 
-func (c *current) onListContinuationElement1607(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1620(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607(stack["content"])
+	return p.cur.onListContinuationElement1620(stack["content"])
 }
 
 func (c *current) onListContinuationElement1582(style, content interface{}) (interface{}, error) {
@@ -70510,6 +70768,29 @@ func (p *parser) callonShortcutParagraph29() (interface{}, error) {
 	return p.cur.onShortcutParagraph29()
 }
 
+func (c *current) onShortcutParagraph37() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph37() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph37()
+}
+
+func (c *current) onShortcutParagraph40() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph40()
+}
+
 func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -70521,52 +70802,52 @@ func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onShortcutParagraph38() (interface{}, error) {
+func (c *current) onShortcutParagraph51() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph38()
+	return p.cur.onShortcutParagraph51()
 }
 
-func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonShortcutParagraph41() (bool, error) {
+func (p *parser) callonShortcutParagraph54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph41(stack["content"])
+	return p.cur.onShortcutParagraph54(stack["content"])
 }
 
-func (c *current) onShortcutParagraph43() (interface{}, error) {
+func (c *current) onShortcutParagraph56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+func (p *parser) callonShortcutParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph43()
+	return p.cur.onShortcutParagraph56()
 }
 
-func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph35() (interface{}, error) {
+func (p *parser) callonShortcutParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph35(stack["content"])
+	return p.cur.onShortcutParagraph48(stack["content"])
 }
 
-func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
+func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
 	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
 	//   in the middle of the line (with space afterwards)
 	//   or at the end of the line
@@ -70575,658 +70856,658 @@ func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, err
 
 }
 
-func (p *parser) callonShortcutParagraph50() (bool, error) {
+func (p *parser) callonShortcutParagraph63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onShortcutParagraph63() (interface{}, error) {
+func (c *current) onShortcutParagraph76() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (interface{}, error) {
+func (p *parser) callonShortcutParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63()
+	return p.cur.onShortcutParagraph76()
 }
 
-func (c *current) onShortcutParagraph66() (interface{}, error) {
+func (c *current) onShortcutParagraph79() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonShortcutParagraph79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66()
+	return p.cur.onShortcutParagraph79()
 }
 
-func (c *current) onShortcutParagraph58() (interface{}, error) {
+func (c *current) onShortcutParagraph71() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph58() (interface{}, error) {
+func (p *parser) callonShortcutParagraph71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph58()
+	return p.cur.onShortcutParagraph71()
 }
 
-func (c *current) onShortcutParagraph86() (interface{}, error) {
+func (c *current) onShortcutParagraph99() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph86() (interface{}, error) {
+func (p *parser) callonShortcutParagraph99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph86()
+	return p.cur.onShortcutParagraph99()
 }
 
-func (c *current) onShortcutParagraph92() (interface{}, error) {
+func (c *current) onShortcutParagraph105() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph92() (interface{}, error) {
+func (p *parser) callonShortcutParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph92()
+	return p.cur.onShortcutParagraph105()
 }
 
-func (c *current) onShortcutParagraph95() (interface{}, error) {
+func (c *current) onShortcutParagraph108() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph95() (interface{}, error) {
+func (p *parser) callonShortcutParagraph108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph95()
+	return p.cur.onShortcutParagraph108()
 }
 
-func (c *current) onShortcutParagraph83(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph96(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph83() (interface{}, error) {
+func (p *parser) callonShortcutParagraph96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph83(stack["delimiter"])
+	return p.cur.onShortcutParagraph96(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph105() (interface{}, error) {
+func (c *current) onShortcutParagraph118() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph105() (interface{}, error) {
+func (p *parser) callonShortcutParagraph118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph105()
+	return p.cur.onShortcutParagraph118()
 }
 
-func (c *current) onShortcutParagraph111() (interface{}, error) {
+func (c *current) onShortcutParagraph124() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph111() (interface{}, error) {
+func (p *parser) callonShortcutParagraph124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph111()
+	return p.cur.onShortcutParagraph124()
 }
 
-func (c *current) onShortcutParagraph114() (interface{}, error) {
+func (c *current) onShortcutParagraph127() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph114() (interface{}, error) {
+func (p *parser) callonShortcutParagraph127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph114()
+	return p.cur.onShortcutParagraph127()
 }
 
-func (c *current) onShortcutParagraph102(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph115(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph102() (interface{}, error) {
+func (p *parser) callonShortcutParagraph115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph102(stack["delimiter"])
+	return p.cur.onShortcutParagraph115(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph125() (interface{}, error) {
+func (c *current) onShortcutParagraph138() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph125() (interface{}, error) {
+func (p *parser) callonShortcutParagraph138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph125()
+	return p.cur.onShortcutParagraph138()
 }
 
-func (c *current) onShortcutParagraph129() (interface{}, error) {
+func (c *current) onShortcutParagraph142() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph129() (interface{}, error) {
+func (p *parser) callonShortcutParagraph142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph129()
+	return p.cur.onShortcutParagraph142()
 }
 
-func (c *current) onShortcutParagraph132() (interface{}, error) {
+func (c *current) onShortcutParagraph145() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph132() (interface{}, error) {
+func (p *parser) callonShortcutParagraph145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph132()
+	return p.cur.onShortcutParagraph145()
 }
 
-func (c *current) onShortcutParagraph121(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph134(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph121() (interface{}, error) {
+func (p *parser) callonShortcutParagraph134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph121(stack["language"])
+	return p.cur.onShortcutParagraph134(stack["language"])
 }
 
-func (c *current) onShortcutParagraph142() (interface{}, error) {
+func (c *current) onShortcutParagraph155() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph142() (interface{}, error) {
+func (p *parser) callonShortcutParagraph155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph142()
+	return p.cur.onShortcutParagraph155()
 }
 
-func (c *current) onShortcutParagraph148() (interface{}, error) {
+func (c *current) onShortcutParagraph161() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph148() (interface{}, error) {
+func (p *parser) callonShortcutParagraph161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph148()
+	return p.cur.onShortcutParagraph161()
 }
 
-func (c *current) onShortcutParagraph151() (interface{}, error) {
+func (c *current) onShortcutParagraph164() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph151() (interface{}, error) {
+func (p *parser) callonShortcutParagraph164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph151()
+	return p.cur.onShortcutParagraph164()
 }
 
-func (c *current) onShortcutParagraph139(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph152(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph139() (interface{}, error) {
+func (p *parser) callonShortcutParagraph152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph139(stack["delimiter"])
+	return p.cur.onShortcutParagraph152(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph161() (interface{}, error) {
+func (c *current) onShortcutParagraph174() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph161() (interface{}, error) {
+func (p *parser) callonShortcutParagraph174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph161()
+	return p.cur.onShortcutParagraph174()
 }
 
-func (c *current) onShortcutParagraph167() (interface{}, error) {
+func (c *current) onShortcutParagraph180() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph167() (interface{}, error) {
+func (p *parser) callonShortcutParagraph180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph167()
+	return p.cur.onShortcutParagraph180()
 }
 
-func (c *current) onShortcutParagraph170() (interface{}, error) {
+func (c *current) onShortcutParagraph183() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph170() (interface{}, error) {
+func (p *parser) callonShortcutParagraph183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph170()
+	return p.cur.onShortcutParagraph183()
 }
 
-func (c *current) onShortcutParagraph158(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph171(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph158() (interface{}, error) {
+func (p *parser) callonShortcutParagraph171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph158(stack["delimiter"])
+	return p.cur.onShortcutParagraph171(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph180() (interface{}, error) {
+func (c *current) onShortcutParagraph193() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph180() (interface{}, error) {
+func (p *parser) callonShortcutParagraph193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph180()
+	return p.cur.onShortcutParagraph193()
 }
 
-func (c *current) onShortcutParagraph186() (interface{}, error) {
+func (c *current) onShortcutParagraph199() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph186() (interface{}, error) {
+func (p *parser) callonShortcutParagraph199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph186()
+	return p.cur.onShortcutParagraph199()
 }
 
-func (c *current) onShortcutParagraph189() (interface{}, error) {
+func (c *current) onShortcutParagraph202() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph189() (interface{}, error) {
+func (p *parser) callonShortcutParagraph202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph189()
+	return p.cur.onShortcutParagraph202()
 }
 
-func (c *current) onShortcutParagraph177(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph190(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph177() (interface{}, error) {
+func (p *parser) callonShortcutParagraph190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph177(stack["delimiter"])
+	return p.cur.onShortcutParagraph190(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph199() (interface{}, error) {
+func (c *current) onShortcutParagraph212() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph199() (interface{}, error) {
+func (p *parser) callonShortcutParagraph212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph199()
+	return p.cur.onShortcutParagraph212()
 }
 
-func (c *current) onShortcutParagraph205() (interface{}, error) {
+func (c *current) onShortcutParagraph218() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph205() (interface{}, error) {
+func (p *parser) callonShortcutParagraph218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph205()
+	return p.cur.onShortcutParagraph218()
 }
 
-func (c *current) onShortcutParagraph208() (interface{}, error) {
+func (c *current) onShortcutParagraph221() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph208() (interface{}, error) {
+func (p *parser) callonShortcutParagraph221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph208()
+	return p.cur.onShortcutParagraph221()
 }
 
-func (c *current) onShortcutParagraph196(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph209(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph196() (interface{}, error) {
+func (p *parser) callonShortcutParagraph209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph196(stack["delimiter"])
+	return p.cur.onShortcutParagraph209(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph218() (interface{}, error) {
+func (c *current) onShortcutParagraph231() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph218() (interface{}, error) {
+func (p *parser) callonShortcutParagraph231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph218()
+	return p.cur.onShortcutParagraph231()
 }
 
-func (c *current) onShortcutParagraph224() (interface{}, error) {
+func (c *current) onShortcutParagraph237() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph224() (interface{}, error) {
+func (p *parser) callonShortcutParagraph237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph224()
+	return p.cur.onShortcutParagraph237()
 }
 
-func (c *current) onShortcutParagraph227() (interface{}, error) {
+func (c *current) onShortcutParagraph240() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph227() (interface{}, error) {
+func (p *parser) callonShortcutParagraph240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph227()
+	return p.cur.onShortcutParagraph240()
 }
 
-func (c *current) onShortcutParagraph215(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph228(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph215() (interface{}, error) {
+func (p *parser) callonShortcutParagraph228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph215(stack["delimiter"])
+	return p.cur.onShortcutParagraph228(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph237() (interface{}, error) {
+func (c *current) onShortcutParagraph250() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph237() (interface{}, error) {
+func (p *parser) callonShortcutParagraph250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph237()
+	return p.cur.onShortcutParagraph250()
 }
 
-func (c *current) onShortcutParagraph243() (interface{}, error) {
+func (c *current) onShortcutParagraph256() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph243() (interface{}, error) {
+func (p *parser) callonShortcutParagraph256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph243()
+	return p.cur.onShortcutParagraph256()
 }
 
-func (c *current) onShortcutParagraph246() (interface{}, error) {
+func (c *current) onShortcutParagraph259() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph246() (interface{}, error) {
+func (p *parser) callonShortcutParagraph259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph246()
+	return p.cur.onShortcutParagraph259()
 }
 
-func (c *current) onShortcutParagraph234(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph247(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph234() (interface{}, error) {
+func (p *parser) callonShortcutParagraph247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph234(stack["delimiter"])
+	return p.cur.onShortcutParagraph247(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph77(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph90(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonShortcutParagraph77() (interface{}, error) {
+func (p *parser) callonShortcutParagraph90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph77(stack["delimiter"])
+	return p.cur.onShortcutParagraph90(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
+func (c *current) onShortcutParagraph269() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonShortcutParagraph269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onShortcutParagraph269()
 }
 
-func (c *current) onShortcutParagraph259() (interface{}, error) {
+func (c *current) onShortcutParagraph272() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph259() (interface{}, error) {
+func (p *parser) callonShortcutParagraph272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph259()
+	return p.cur.onShortcutParagraph272()
 }
 
-func (c *current) onShortcutParagraph262() (interface{}, error) {
+func (c *current) onShortcutParagraph275() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph262() (interface{}, error) {
+func (p *parser) callonShortcutParagraph275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph262()
+	return p.cur.onShortcutParagraph275()
 }
 
-func (c *current) onShortcutParagraph253(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph266(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph253() (interface{}, error) {
+func (p *parser) callonShortcutParagraph266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph253(stack["delimiter"])
+	return p.cur.onShortcutParagraph266(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph272() (interface{}, error) {
+func (c *current) onShortcutParagraph285() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph272() (interface{}, error) {
+func (p *parser) callonShortcutParagraph285() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph272()
+	return p.cur.onShortcutParagraph285()
 }
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
+func (c *current) onShortcutParagraph288() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph286() (interface{}, error) {
+func (c *current) onShortcutParagraph299() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph286() (interface{}, error) {
+func (p *parser) callonShortcutParagraph299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph286()
+	return p.cur.onShortcutParagraph299()
 }
 
-func (c *current) onShortcutParagraph288() (interface{}, error) {
+func (c *current) onShortcutParagraph301() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph288() (interface{}, error) {
+func (p *parser) callonShortcutParagraph301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288()
+	return p.cur.onShortcutParagraph301()
 }
 
-func (c *current) onShortcutParagraph301() (interface{}, error) {
+func (c *current) onShortcutParagraph314() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph301() (interface{}, error) {
+func (p *parser) callonShortcutParagraph314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph301()
+	return p.cur.onShortcutParagraph314()
 }
 
-func (c *current) onShortcutParagraph305() (interface{}, error) {
+func (c *current) onShortcutParagraph318() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph305() (interface{}, error) {
+func (p *parser) callonShortcutParagraph318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph305()
+	return p.cur.onShortcutParagraph318()
 }
 
-func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph308(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph295() (interface{}, error) {
+func (p *parser) callonShortcutParagraph308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph295(stack["content"])
+	return p.cur.onShortcutParagraph308(stack["content"])
 }
 
-func (c *current) onShortcutParagraph315() (interface{}, error) {
+func (c *current) onShortcutParagraph328() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph315() (interface{}, error) {
+func (p *parser) callonShortcutParagraph328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph315()
+	return p.cur.onShortcutParagraph328()
 }
 
-func (c *current) onShortcutParagraph318(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onShortcutParagraph331(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonShortcutParagraph318() (bool, error) {
+func (p *parser) callonShortcutParagraph331() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph318(stack["content"])
+	return p.cur.onShortcutParagraph331(stack["content"])
 }
 
-func (c *current) onShortcutParagraph320() (interface{}, error) {
+func (c *current) onShortcutParagraph333() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph320() (interface{}, error) {
+func (p *parser) callonShortcutParagraph333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph320()
+	return p.cur.onShortcutParagraph333()
 }
 
-func (c *current) onShortcutParagraph312(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph325(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph312() (interface{}, error) {
+func (p *parser) callonShortcutParagraph325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph312(stack["content"])
+	return p.cur.onShortcutParagraph325(stack["content"])
 }
 
-func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph53() (interface{}, error) {
+func (p *parser) callonShortcutParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph53(stack["line"])
+	return p.cur.onShortcutParagraph66(stack["line"])
 }
 
 func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
@@ -71330,6 +71611,29 @@ func (p *parser) callonParagraph20() (interface{}, error) {
 	return p.cur.onParagraph20()
 }
 
+func (c *current) onParagraph28() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonParagraph28() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph28()
+}
+
+func (c *current) onParagraph31() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonParagraph31() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph31()
+}
+
 func (c *current) onParagraph5(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -71341,674 +71645,674 @@ func (p *parser) callonParagraph5() (interface{}, error) {
 	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onParagraph29() (interface{}, error) {
+func (c *current) onParagraph42() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph29() (interface{}, error) {
+func (p *parser) callonParagraph42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph29()
+	return p.cur.onParagraph42()
 }
 
-func (c *current) onParagraph32(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph45(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonParagraph32() (bool, error) {
+func (p *parser) callonParagraph45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph32(stack["content"])
+	return p.cur.onParagraph45(stack["content"])
 }
 
-func (c *current) onParagraph34() (interface{}, error) {
+func (c *current) onParagraph47() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph34() (interface{}, error) {
+func (p *parser) callonParagraph47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph34()
+	return p.cur.onParagraph47()
 }
 
-func (c *current) onParagraph26(content interface{}) (interface{}, error) {
+func (c *current) onParagraph39(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph26() (interface{}, error) {
+func (p *parser) callonParagraph39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph26(stack["content"])
+	return p.cur.onParagraph39(stack["content"])
 }
 
-func (c *current) onParagraph53() (interface{}, error) {
+func (c *current) onParagraph66() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph53() (interface{}, error) {
+func (p *parser) callonParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph53()
+	return p.cur.onParagraph66()
 }
 
-func (c *current) onParagraph56() (interface{}, error) {
+func (c *current) onParagraph69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
+func (p *parser) callonParagraph69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph56()
+	return p.cur.onParagraph69()
 }
 
-func (c *current) onParagraph48() (interface{}, error) {
+func (c *current) onParagraph61() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonParagraph48() (interface{}, error) {
+func (p *parser) callonParagraph61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph48()
+	return p.cur.onParagraph61()
 }
 
-func (c *current) onParagraph76() (interface{}, error) {
+func (c *current) onParagraph89() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph76() (interface{}, error) {
+func (p *parser) callonParagraph89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph76()
+	return p.cur.onParagraph89()
 }
 
-func (c *current) onParagraph82() (interface{}, error) {
+func (c *current) onParagraph95() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph82() (interface{}, error) {
+func (p *parser) callonParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph82()
+	return p.cur.onParagraph95()
 }
 
-func (c *current) onParagraph85() (interface{}, error) {
+func (c *current) onParagraph98() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph85() (interface{}, error) {
+func (p *parser) callonParagraph98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph85()
+	return p.cur.onParagraph98()
 }
 
-func (c *current) onParagraph73(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph86(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph73() (interface{}, error) {
+func (p *parser) callonParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph73(stack["delimiter"])
+	return p.cur.onParagraph86(stack["delimiter"])
 }
 
-func (c *current) onParagraph95() (interface{}, error) {
+func (c *current) onParagraph108() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph95() (interface{}, error) {
+func (p *parser) callonParagraph108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph95()
+	return p.cur.onParagraph108()
 }
 
-func (c *current) onParagraph101() (interface{}, error) {
+func (c *current) onParagraph114() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph101() (interface{}, error) {
+func (p *parser) callonParagraph114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph101()
+	return p.cur.onParagraph114()
 }
 
-func (c *current) onParagraph104() (interface{}, error) {
+func (c *current) onParagraph117() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph104() (interface{}, error) {
+func (p *parser) callonParagraph117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph104()
+	return p.cur.onParagraph117()
 }
 
-func (c *current) onParagraph92(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph105(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph92() (interface{}, error) {
+func (p *parser) callonParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph92(stack["delimiter"])
+	return p.cur.onParagraph105(stack["delimiter"])
 }
 
-func (c *current) onParagraph115() (interface{}, error) {
+func (c *current) onParagraph128() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph115() (interface{}, error) {
+func (p *parser) callonParagraph128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph115()
+	return p.cur.onParagraph128()
 }
 
-func (c *current) onParagraph119() (interface{}, error) {
+func (c *current) onParagraph132() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph119() (interface{}, error) {
+func (p *parser) callonParagraph132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph119()
+	return p.cur.onParagraph132()
 }
 
-func (c *current) onParagraph122() (interface{}, error) {
+func (c *current) onParagraph135() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph122() (interface{}, error) {
+func (p *parser) callonParagraph135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph122()
+	return p.cur.onParagraph135()
 }
 
-func (c *current) onParagraph111(language interface{}) (interface{}, error) {
+func (c *current) onParagraph124(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonParagraph111() (interface{}, error) {
+func (p *parser) callonParagraph124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph111(stack["language"])
+	return p.cur.onParagraph124(stack["language"])
 }
 
-func (c *current) onParagraph132() (interface{}, error) {
+func (c *current) onParagraph145() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph132() (interface{}, error) {
+func (p *parser) callonParagraph145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph132()
+	return p.cur.onParagraph145()
 }
 
-func (c *current) onParagraph138() (interface{}, error) {
+func (c *current) onParagraph151() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph138() (interface{}, error) {
+func (p *parser) callonParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph138()
+	return p.cur.onParagraph151()
 }
 
-func (c *current) onParagraph141() (interface{}, error) {
+func (c *current) onParagraph154() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph141() (interface{}, error) {
+func (p *parser) callonParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph141()
+	return p.cur.onParagraph154()
 }
 
-func (c *current) onParagraph129(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph142(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph129() (interface{}, error) {
+func (p *parser) callonParagraph142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph129(stack["delimiter"])
+	return p.cur.onParagraph142(stack["delimiter"])
 }
 
-func (c *current) onParagraph151() (interface{}, error) {
+func (c *current) onParagraph164() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph151() (interface{}, error) {
+func (p *parser) callonParagraph164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph151()
+	return p.cur.onParagraph164()
 }
 
-func (c *current) onParagraph157() (interface{}, error) {
+func (c *current) onParagraph170() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph157() (interface{}, error) {
+func (p *parser) callonParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph157()
+	return p.cur.onParagraph170()
 }
 
-func (c *current) onParagraph160() (interface{}, error) {
+func (c *current) onParagraph173() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph160() (interface{}, error) {
+func (p *parser) callonParagraph173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph160()
+	return p.cur.onParagraph173()
 }
 
-func (c *current) onParagraph148(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph161(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph148() (interface{}, error) {
+func (p *parser) callonParagraph161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph148(stack["delimiter"])
+	return p.cur.onParagraph161(stack["delimiter"])
 }
 
-func (c *current) onParagraph170() (interface{}, error) {
+func (c *current) onParagraph183() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph170() (interface{}, error) {
+func (p *parser) callonParagraph183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph170()
+	return p.cur.onParagraph183()
 }
 
-func (c *current) onParagraph176() (interface{}, error) {
+func (c *current) onParagraph189() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph176() (interface{}, error) {
+func (p *parser) callonParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph176()
+	return p.cur.onParagraph189()
 }
 
-func (c *current) onParagraph179() (interface{}, error) {
+func (c *current) onParagraph192() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph179() (interface{}, error) {
+func (p *parser) callonParagraph192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph179()
+	return p.cur.onParagraph192()
 }
 
-func (c *current) onParagraph167(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph180(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph167() (interface{}, error) {
+func (p *parser) callonParagraph180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph167(stack["delimiter"])
+	return p.cur.onParagraph180(stack["delimiter"])
 }
 
-func (c *current) onParagraph189() (interface{}, error) {
+func (c *current) onParagraph202() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph189() (interface{}, error) {
+func (p *parser) callonParagraph202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph189()
+	return p.cur.onParagraph202()
 }
 
-func (c *current) onParagraph195() (interface{}, error) {
+func (c *current) onParagraph208() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph195() (interface{}, error) {
+func (p *parser) callonParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph195()
+	return p.cur.onParagraph208()
 }
 
-func (c *current) onParagraph198() (interface{}, error) {
+func (c *current) onParagraph211() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph198() (interface{}, error) {
+func (p *parser) callonParagraph211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph198()
+	return p.cur.onParagraph211()
 }
 
-func (c *current) onParagraph186(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph199(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph186() (interface{}, error) {
+func (p *parser) callonParagraph199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph186(stack["delimiter"])
+	return p.cur.onParagraph199(stack["delimiter"])
 }
 
-func (c *current) onParagraph208() (interface{}, error) {
+func (c *current) onParagraph221() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph208() (interface{}, error) {
+func (p *parser) callonParagraph221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph208()
+	return p.cur.onParagraph221()
 }
 
-func (c *current) onParagraph214() (interface{}, error) {
+func (c *current) onParagraph227() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph214() (interface{}, error) {
+func (p *parser) callonParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph214()
+	return p.cur.onParagraph227()
 }
 
-func (c *current) onParagraph217() (interface{}, error) {
+func (c *current) onParagraph230() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph217() (interface{}, error) {
+func (p *parser) callonParagraph230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph217()
+	return p.cur.onParagraph230()
 }
 
-func (c *current) onParagraph205(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph218(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph205() (interface{}, error) {
+func (p *parser) callonParagraph218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph205(stack["delimiter"])
+	return p.cur.onParagraph218(stack["delimiter"])
 }
 
-func (c *current) onParagraph227() (interface{}, error) {
+func (c *current) onParagraph240() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph227() (interface{}, error) {
+func (p *parser) callonParagraph240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph227()
+	return p.cur.onParagraph240()
 }
 
-func (c *current) onParagraph233() (interface{}, error) {
+func (c *current) onParagraph246() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph233() (interface{}, error) {
+func (p *parser) callonParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph233()
+	return p.cur.onParagraph246()
 }
 
-func (c *current) onParagraph236() (interface{}, error) {
+func (c *current) onParagraph249() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph236() (interface{}, error) {
+func (p *parser) callonParagraph249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph236()
+	return p.cur.onParagraph249()
 }
 
-func (c *current) onParagraph224(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph237(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph224() (interface{}, error) {
+func (p *parser) callonParagraph237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph224(stack["delimiter"])
+	return p.cur.onParagraph237(stack["delimiter"])
 }
 
-func (c *current) onParagraph67(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph80(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonParagraph67() (interface{}, error) {
+func (p *parser) callonParagraph80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph67(stack["delimiter"])
+	return p.cur.onParagraph80(stack["delimiter"])
 }
 
-func (c *current) onParagraph246() (interface{}, error) {
+func (c *current) onParagraph259() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph246() (interface{}, error) {
+func (p *parser) callonParagraph259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph246()
+	return p.cur.onParagraph259()
 }
 
-func (c *current) onParagraph249() (interface{}, error) {
+func (c *current) onParagraph262() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph249() (interface{}, error) {
+func (p *parser) callonParagraph262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph249()
+	return p.cur.onParagraph262()
 }
 
-func (c *current) onParagraph252() (interface{}, error) {
+func (c *current) onParagraph265() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph252() (interface{}, error) {
+func (p *parser) callonParagraph265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph252()
+	return p.cur.onParagraph265()
 }
 
-func (c *current) onParagraph243(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph256(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph243() (interface{}, error) {
+func (p *parser) callonParagraph256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph243(stack["delimiter"])
+	return p.cur.onParagraph256(stack["delimiter"])
 }
 
-func (c *current) onParagraph262() (interface{}, error) {
+func (c *current) onParagraph275() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph262() (interface{}, error) {
+func (p *parser) callonParagraph275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph262()
+	return p.cur.onParagraph275()
 }
 
-func (c *current) onParagraph265() (interface{}, error) {
+func (c *current) onParagraph278() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph265() (interface{}, error) {
+func (p *parser) callonParagraph278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph265()
+	return p.cur.onParagraph278()
 }
 
-func (c *current) onParagraph280() (interface{}, error) {
+func (c *current) onParagraph293() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph280() (interface{}, error) {
+func (p *parser) callonParagraph293() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph280()
+	return p.cur.onParagraph293()
 }
 
-func (c *current) onParagraph284() (interface{}, error) {
+func (c *current) onParagraph297() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph284() (interface{}, error) {
+func (p *parser) callonParagraph297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph284()
+	return p.cur.onParagraph297()
 }
 
-func (c *current) onParagraph274(content interface{}) (interface{}, error) {
+func (c *current) onParagraph287(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonParagraph274() (interface{}, error) {
+func (p *parser) callonParagraph287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph274(stack["content"])
+	return p.cur.onParagraph287(stack["content"])
 }
 
-func (c *current) onParagraph294() (interface{}, error) {
+func (c *current) onParagraph307() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph294() (interface{}, error) {
+func (p *parser) callonParagraph307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph294()
+	return p.cur.onParagraph307()
 }
 
-func (c *current) onParagraph297(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph310(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonParagraph297() (bool, error) {
+func (p *parser) callonParagraph310() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph297(stack["content"])
+	return p.cur.onParagraph310(stack["content"])
 }
 
-func (c *current) onParagraph299() (interface{}, error) {
+func (c *current) onParagraph312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph299() (interface{}, error) {
+func (p *parser) callonParagraph312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph299()
+	return p.cur.onParagraph312()
 }
 
-func (c *current) onParagraph291(content interface{}) (interface{}, error) {
+func (c *current) onParagraph304(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph291() (interface{}, error) {
+func (p *parser) callonParagraph304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph291(stack["content"])
+	return p.cur.onParagraph304(stack["content"])
 }
 
-func (c *current) onParagraph43(line interface{}) (interface{}, error) {
+func (c *current) onParagraph56(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonParagraph43() (interface{}, error) {
+func (p *parser) callonParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph43(stack["line"])
+	return p.cur.onParagraph56(stack["line"])
 }
 
 func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 806a9c6..3d6859a 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1235,13 +1235,18 @@ FrontMatter <-
         return frontmatter, nil
     }
 
-YamlFrontMatter <- YamlFrontMatterDelimiter content:(YamlFrontMatterContent)? YamlFrontMatterDelimiter {
-    return types.NewYamlFrontMatter(content.(string))
-}
+YamlFrontMatter <- 
+    YamlFrontMatterDelimiter content:(YamlFrontMatterContent) YamlFrontMatterDelimiter 
+    &{
+        return types.IsYamlFrontMatter(content.(string)), nil
+    }
+    {
+        return types.NewYamlFrontMatter(content.(string))
+    }
 
 YamlFrontMatterDelimiter  <- "---" Space* EOL
 
-YamlFrontMatterContent <- ((!YamlFrontMatterDelimiter .)+)* {
+YamlFrontMatterContent <- (!YamlFrontMatterDelimiter [^\r\n]* Newline)* {
         return string(c.text), nil
 }
 
@@ -1745,7 +1750,7 @@ ParagraphStyle <-
             return types.Caution, nil
         } / &(Spaces) { // check 
             return types.LiteralParagraph, nil
-        }) {
+        }) !(Space* EOL) {
             return style, nil
         }
 
@@ -1792,7 +1797,7 @@ Paragraph <-
 ParagraphRawLine <- 
     content:(ManyChars)
     &{
-        return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+        return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
     }
     EOL {
         return types.NewRawLine(content.(string))
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 1fbed9c..66e8524 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -749,6 +749,16 @@ type FrontMatter struct {
 	Attributes map[string]interface{}
 }
 
+// IsYamlFrontMatter checks if the given content can be parsed as attributes
+func IsYamlFrontMatter(content string) bool {
+	attributes := make(map[string]interface{})
+	if err := yaml.Unmarshal([]byte(content), &attributes); err != nil {
+		log.Warnf("failed to parse the yaml content in the front-matter block: %v", err)
+		return false
+	}
+	return true
+}
+
 // NewYamlFrontMatter initializes a new FrontMatter from the given `content`
 func NewYamlFrontMatter(content string) (*FrontMatter, error) {
 	attributes := make(map[string]interface{})
-- 
2.43.0


From 88d18eae737fc70fe7184d0080b6577b96b9de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 065/117] fix: render the ids and roles of the paragraphs of
 AsciiDoc cells

---
 pkg/renderer/sgml/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 24ca837..c6dcd52 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -304,7 +304,7 @@ func (r *sgmlRenderer) renderTableCellBlocks(ctx *context, cell *types.TableCell
 func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (string, error) {
 	switch e := element.(type) {
 	case *types.Paragraph:
-		if e.Attributes.Has(types.AttrTitle) || e.Attributes.Has(types.AttrStyle) {
+		if e.Attributes.Has(types.AttrTitle) || e.Attributes.Has(types.AttrStyle) || e.Attributes.Has(types.AttrID) || e.Attributes.Has(types.AttrRoles) {
 			return r.renderTableCellElement(ctx, e)
 		}
 		log.Debug("rendering paragraph within table cell")
-- 
2.43.0


From d8de830fce81b83a84deda1570261ed3608107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 066/117] fix: do not panic on level offsets below the first
 level, nor ignore titles with tabs

---
 pkg/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 66e8524..4e94bbd 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2524,8 +2524,12 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 }
 
 func (s *RawSection) OffsetLevel(offset int) {
-	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
-	s.Level = s.Level + offset
+	level := s.Level + offset
+	if level < 0 {
+		level = 0
+	}
+	s.RawText = strings.Repeat("=", level+1) + s.RawText[s.Level+1:]
+	s.Level = level
 }
 
 func (s *RawSection) Stringify() string {
-- 
2.43.0


From d52ca47803b3a24cfe00ef9d3083be858058aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 067/117] fix: select the other lines when all tags are
 excluded, and none with '!**'

---
 pkg/types/types.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 4e94bbd..eaccd36 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3506,13 +3506,13 @@ func NewTagRanges(ranges interface{}) TagRanges {
 
 // Match checks if the given tag matches one of the range
 func (tr TagRanges) Match(line int, currentRanges CurrentRanges) bool {
-	match := false
+	match := tr.onlyExclusions() // all other lines are included, then
 	// log.Debugf("checking line %d", line)
 
 	// compare with expected tag ranges
 	for _, t := range tr {
 		if t.Name == "**" {
-			match = true
+			match = t.Included
 			continue
 		}
 		for n, r := range currentRanges {
@@ -3531,6 +3531,16 @@ func (tr TagRanges) Match(line int, currentRanges CurrentRanges) bool {
 	return match
 }
 
+// onlyExclusions returns true if there are ranges, which are all excluded
+func (tr TagRanges) onlyExclusions() bool {
+	for _, t := range tr {
+		if t.Included {
+			return false
+		}
+	}
+	return len(tr) > 0
+}
+
 // TagRange the range to include or exclude from the file inclusion.
 // The range is excluded if it is prefixed with '!'
 // Also, '*' and '**' have a special meaning:
-- 
2.43.0


From 4dcdaa1680c2fbbf6fdee4226bb1f99a7d5916e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 068/117] fix: include files as if their content was in place

Attributes that a file declares apply to what follows it, declarations in verbatim
blocks do not, references are replaced in the attributes of the directive, files
which are not in AsciiDoc add no blank line after them nor empty ones a line,
absolute paths are kept, and escaped directives lose their backslash.
---
 pkg/parser/context.go                |   8 ++
 pkg/parser/document_preprocessing.go | 107 ++++++++++++++++++++-------
 2 files changed, 90 insertions(+), 25 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index cd86f7f..4c93494 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -56,6 +56,14 @@ func (c *ParseContext) Clone() *ParseContext {
 	}
 }
 
+// cloneForFile returns a clone for the content of a file to include, in which the attributes
+// are the ones of the document: their declarations in the file also apply to what follows its inclusion
+func (c *ParseContext) cloneForFile() *ParseContext {
+	result := c.Clone()
+	result.attributes = c.attributes
+	return result
+}
+
 type options []Option
 
 func (o options) clone() []Option {
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index a1d6467..cecd0da 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
+	"github.com/bytesparadise/libasciidoc/pkg/renderer/sgml"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/davecgh/go-spew/spew"
 	"github.com/pkg/errors"
@@ -19,28 +20,31 @@ import (
 // Preprocess reads line by line to look-up and process file inclusions and conditionals (`ifdef`, `ifndef` and `ifeval`)
 func Preprocess(source io.Reader, config *configuration.Configuration, opts ...Option) (string, error) {
 	ctx := NewParseContext(config, opts...) // each pipeline step will have its own clone of `ctx`
-	result, err := preprocess(ctx, source)
-	if err != nil {
+	b := &builder{
+		enabled: true,
+	}
+	if err := preprocess(ctx, source, b, newBlockDelimiterTracker()); err != nil {
 		return "", err
 	}
 	// the parser stops at the first invalid sequence, so the rest of the document would be skipped
-	return strings.ToValidUTF8(result, "\uFFFD"), nil
+	return strings.ToValidUTF8(b.String(), "\uFFFD"), nil
 }
 
-func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
+// preprocess writes the resulting lines in the given builder
+// (the delimited blocks of the included files are tracked as if their content was in the document itself)
+func preprocess(ctx *ParseContext, source io.Reader, b *builder, t *blockDelimiterTracker) error {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("preprocessing file inclusions in %s with leveloffset=%s", ctx.filename, spew.Sdump(ctx.levelOffsets))
 	}
-	b := &builder{
-		enabled: true,
-	}
 	c := conditions{}
 	scanner := bufio.NewScanner(source)
-	t := newBlockDelimiterTracker()
 	for scanner.Scan() {
 		line := scanner.Bytes()
-		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
+		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"), t.withinDelimitedBlock())...)
 		if err != nil {
+			if len(line) > 0 && line[0] == '\\' && isDirective(ctx, line[1:]) {
+				line = line[1:] // escaped, hence a regular line (without the backslash)
+			}
 			// log.Error(err)
 			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is
 			b.Write(line)
@@ -58,22 +62,27 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes.set(e.Name, e.Value)
+				if !t.withinVerbatimBlock() {
+					v, err := valueOfAttribute(ctx, e)
+					if err != nil {
+						return err
+					}
+					ctx.attributes.set(e.Name, v)
+				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
-				ctx.attributes.unset(e.Name)
+				if !t.withinVerbatimBlock() {
+					ctx.attributes.unset(e.Name)
+				}
 				b.WriteString(e.RawText())
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
-				f, err := includeFile(ctx.Clone(), e)
-				if err != nil {
-					return "", err
+				if err := includeFile(ctx.cloneForFile(), e, b, t); err != nil {
+					return err
 				}
-				b.WriteString(f)
 			case *types.BlockDelimiter:
 				t.track(e.Kind, e.Length)
-				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
 				if content, ok := e.SingleLineContent(); ok {
@@ -86,14 +95,41 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.EndOfCondition:
 				b.enabled = c.pop()
 			default:
-				return "", fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
+				return fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
 			}
 		}
 	}
 	if err := scanner.Err(); err != nil {
-		return "", errors.Wrap(err, "unable to read the document to preprocess")
+		return errors.Wrap(err, "unable to read the document to preprocess")
+	}
+	b.enabled = true // conditions do not apply after the end of the file
+	return nil
+}
+
+// isDirective returns true if the given line is a file inclusion or (the end of) a condition
+func isDirective(ctx *ParseContext, line []byte) bool {
+	element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
+	if err != nil {
+		return false
+	}
+	switch element.(type) {
+	case *types.FileInclusion, types.ConditionalInclusion, *types.EndOfCondition:
+		return true
+	default:
+		return false
+	}
+}
+
+// valueOfAttribute returns the value of an attribute as the conditions and file inclusions need it, ie, as plain text
+func valueOfAttribute(ctx *ParseContext, a *types.AttributeDeclaration) (interface{}, error) {
+	v, err := replaceAttributeRefsInValue(ctx, a.Value)
+	if err != nil {
+		return nil, err
+	}
+	if v, ok := types.Reduce(v).([]interface{}); ok {
+		return sgml.RenderPlainText(v, sgml.WithoutEscape())
 	}
-	return b.String(), nil
+	return types.Reduce(v), nil
 }
 
 type blockDelimiterTracker struct {
@@ -141,28 +177,36 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+func (t *blockDelimiterTracker) withinVerbatimBlock() bool {
+	return len(t.stack) > 0 && isVerbatim(t.stack[len(t.stack)-1].kind)
+}
+
 // replace the content of this FileInclusion element the content of the target file
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
 // of the inclusion (for example, within a delimited block) is not lost.
-func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
+func includeFile(ctx *ParseContext, incl *types.FileInclusion, b *builder, t *blockDelimiterTracker) error {
 	ctx.opts = append(ctx.opts, GlobalStore(documentHeaderKey, false))
+	if err := replaceAttributeRefsInAttributeValues(ctx, incl.Attributes); err != nil {
+		return err
+	}
 	if l, ok := incl.GetLocation().Path.([]interface{}); ok {
 		l, err := replaceAttributeRefsInSlicedValue(ctx, l)
 		if err != nil {
-			return "", err
+			return err
 		}
 		incl.GetLocation().SetPath(l)
 	}
 	content, adoc, err := contentOf(ctx, incl)
 	if err != nil {
-		return "", err
+		return err
 	}
 	if !adoc {
-		return string(content), nil
+		b.WriteLines(content)
+		return nil
 	}
 	ctx.opts = append(ctx.opts, sectionEnabled())
-	return preprocess(ctx, strings.NewReader(content))
+	return preprocess(ctx, strings.NewReader(content), b, t)
 }
 
 type builder struct {
@@ -187,6 +231,16 @@ func (b *builder) Write(p []byte) {
 	b.Builder.Write(p)
 }
 
+// WriteLines writes lines which already end with a line feed
+func (b *builder) WriteLines(s string) {
+	if !b.enabled || s == "" {
+		return
+	}
+	b.doInsertLF()
+	b.Builder.WriteString(s)
+	b.insertLF = false
+}
+
 func (b *builder) doInsertLF() {
 	if b.insertLF {
 		b.Builder.WriteString("\n")
@@ -251,7 +305,10 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 	}
 	path := incl.Location.ToString()
 	currentDir := filepath.Dir(ctx.filename)
-	filename := filepath.Join(currentDir, path)
+	filename := path
+	if !filepath.IsAbs(path) {
+		filename = filepath.Join(currentDir, path)
+	}
 
 	f, absPath, closeFile, err := open(filename)
 	defer closeFile()
-- 
2.43.0


From 57161e490a32b566bef950bed769dedbda6012a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 069/117] fix: read lines of any length, skip the byte order
 mark and ignore the spaces at the end of lines

---
 pkg/parser/document_preprocessing.go |    23 +-
 pkg/parser/parser.go                 | 20946 +++++++++++++------------
 pkg/parser/parser.peg                |     1 +
 3 files changed, 10505 insertions(+), 10465 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index cecd0da..95dbc85 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -2,8 +2,10 @@ package parser
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -37,9 +39,9 @@ func preprocess(ctx *ParseContext, source io.Reader, b *builder, t *blockDelimit
 		log.Debugf("preprocessing file inclusions in %s with leveloffset=%s", ctx.filename, spew.Sdump(ctx.levelOffsets))
 	}
 	c := conditions{}
-	scanner := bufio.NewScanner(source)
+	scanner := newLineScanner(source)
 	for scanner.Scan() {
-		line := scanner.Bytes()
+		line := bytes.TrimRight(scanner.Bytes(), " \t") // spaces at the end of lines have no meaning
 		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"), t.withinDelimitedBlock())...)
 		if err != nil {
 			if len(line) > 0 && line[0] == '\\' && isDirective(ctx, line[1:]) {
@@ -69,12 +71,12 @@ func preprocess(ctx *ParseContext, source io.Reader, b *builder, t *blockDelimit
 					}
 					ctx.attributes.set(e.Name, v)
 				}
-				b.WriteString(e.RawText())
+				b.Write(scanner.Bytes())
 			case *types.AttributeReset:
 				if !t.withinVerbatimBlock() {
 					ctx.attributes.unset(e.Name)
 				}
-				b.WriteString(e.RawText())
+				b.Write(scanner.Bytes())
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
@@ -106,6 +108,17 @@ func preprocess(ctx *ParseContext, source io.Reader, b *builder, t *blockDelimit
 	return nil
 }
 
+// newLineScanner returns a scanner of lines of any length, which skips the byte order mark
+func newLineScanner(source io.Reader) *bufio.Scanner {
+	r := bufio.NewReader(source)
+	if c, _, err := r.ReadRune(); err == nil && c != '\uFEFF' {
+		_ = r.UnreadRune()
+	}
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt)
+	return scanner
+}
+
 // isDirective returns true if the given line is a file inclusion or (the end of) a condition
 func isDirective(ctx *ParseContext, line []byte) bool {
 	element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
@@ -316,7 +329,7 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 		return "", false, errors.Wrapf(err, "Unresolved directive in %s - %s", ctx.filename, incl.RawText)
 	}
 	result := &strings.Builder{}
-	scanner := bufio.NewScanner(bufio.NewReader(f))
+	scanner := newLineScanner(f)
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("reading %s", filename)
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 02a93b6..36da766 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,28 +45,28 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 361, col: 19, offset: 10921},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 361, col: 19, offset: 10921},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 361, col: 19, offset: 10921},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 361, col: 24, offset: 10926},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 319, col: 18, offset: 9747},
 														run: (*parser).callonDocumentRawLine10,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 319, col: 18, offset: 9747},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -74,9 +74,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 319, col: 29, offset: 9758},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 361, col: 45, offset: 10947},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -150,28 +150,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 363, col: 9, offset: 11042},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 363, col: 9, offset: 11042},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 363, col: 9, offset: 11042},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 363, col: 13, offset: 11046},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 319, col: 18, offset: 9747},
 														run: (*parser).callonDocumentRawLine31,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 319, col: 18, offset: 9747},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -179,9 +179,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 319, col: 29, offset: 9758},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 363, col: 34, offset: 11067},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -464,31 +464,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20338},
+																									pos:        position{line: 646, col: 5, offset: 20349},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20346},
+																									pos:   position{line: 646, col: 13, offset: 20357},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine101,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -496,9 +496,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20365},
+																									pos:        position{line: 646, col: 32, offset: 20376},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,28 +520,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20606},
+																									pos:        position{line: 653, col: 5, offset: 20617},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20610},
+																									pos:   position{line: 653, col: 9, offset: 20621},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine111,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -549,9 +549,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20629},
+																									pos:        position{line: 653, col: 28, offset: 20640},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,31 +600,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20338},
+																									pos:        position{line: 646, col: 5, offset: 20349},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20346},
+																									pos:   position{line: 646, col: 13, offset: 20357},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine127,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -632,9 +632,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20365},
+																									pos:        position{line: 646, col: 32, offset: 20376},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,28 +656,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20606},
+																									pos:        position{line: 653, col: 5, offset: 20617},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20610},
+																									pos:   position{line: 653, col: 9, offset: 20621},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine137,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -685,9 +685,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20629},
+																									pos:        position{line: 653, col: 28, offset: 20640},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,31 +727,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20338},
+																		pos: position{line: 646, col: 5, offset: 20349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20338},
+																					pos: position{line: 646, col: 5, offset: 20349},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20338},
+																							pos:        position{line: 646, col: 5, offset: 20349},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20346},
+																							pos:   position{line: 646, col: 13, offset: 20357},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonDocumentRawLine151,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -759,9 +759,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20365},
+																							pos:        position{line: 646, col: 32, offset: 20376},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,28 +783,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20606},
+																				pos: position{line: 653, col: 5, offset: 20617},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20606},
+																					pos: position{line: 653, col: 5, offset: 20617},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20606},
+																							pos:        position{line: 653, col: 5, offset: 20617},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20610},
+																							pos:   position{line: 653, col: 9, offset: 20621},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonDocumentRawLine161,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -812,9 +812,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20629},
+																							pos:        position{line: 653, col: 28, offset: 20640},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90569},
+																pos: position{line: 2859, col: 12, offset: 90580},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90570},
+																	pos: position{line: 2859, col: 13, offset: 90581},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90570},
+																			pos: position{line: 2859, col: 13, offset: 90581},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90570},
+																				pos:        position{line: 2859, col: 13, offset: 90581},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90575},
+																			pos: position{line: 2859, col: 18, offset: 90586},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90575},
+																				pos:        position{line: 2859, col: 18, offset: 90586},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,31 +1069,31 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20338},
+																									pos:        position{line: 646, col: 5, offset: 20349},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20346},
+																									pos:   position{line: 646, col: 13, offset: 20357},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine220,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1101,9 +1101,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20365},
+																									pos:        position{line: 646, col: 32, offset: 20376},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,28 +1125,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20606},
+																									pos:        position{line: 653, col: 5, offset: 20617},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20610},
+																									pos:   position{line: 653, col: 9, offset: 20621},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine230,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1154,9 +1154,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20629},
+																									pos:        position{line: 653, col: 28, offset: 20640},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,31 +1205,31 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20338},
+																									pos:        position{line: 646, col: 5, offset: 20349},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20346},
+																									pos:   position{line: 646, col: 13, offset: 20357},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine246,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1237,9 +1237,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20365},
+																									pos:        position{line: 646, col: 32, offset: 20376},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,28 +1261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20606},
+																									pos:        position{line: 653, col: 5, offset: 20617},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20610},
+																									pos:   position{line: 653, col: 9, offset: 20621},
 																									label: "name",
 																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										run: (*parser).callonDocumentRawLine256,
 																										expr: &seqExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
+																													pos:        position{line: 319, col: 18, offset: 9747},
 																													val:        "[_\\pL\\pN]",
 																													chars:      []rune{'_'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1290,9 +1290,9 @@ var g = &grammar{
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
+																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
+																														pos:        position{line: 319, col: 29, offset: 9758},
 																														val:        "[-\\pL\\pN]",
 																														chars:      []rune{'-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20629},
+																									pos:        position{line: 653, col: 28, offset: 20640},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,31 +1332,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20338},
+																		pos: position{line: 646, col: 5, offset: 20349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20338},
+																					pos: position{line: 646, col: 5, offset: 20349},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20338},
+																							pos:        position{line: 646, col: 5, offset: 20349},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20346},
+																							pos:   position{line: 646, col: 13, offset: 20357},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonDocumentRawLine270,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1364,9 +1364,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20365},
+																							pos:        position{line: 646, col: 32, offset: 20376},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,28 +1388,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20606},
+																				pos: position{line: 653, col: 5, offset: 20617},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20606},
+																					pos: position{line: 653, col: 5, offset: 20617},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20606},
+																							pos:        position{line: 653, col: 5, offset: 20617},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20610},
+																							pos:   position{line: 653, col: 9, offset: 20621},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonDocumentRawLine280,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1417,9 +1417,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20629},
+																							pos:        position{line: 653, col: 28, offset: 20640},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90569},
+																pos: position{line: 2859, col: 12, offset: 90580},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90570},
+																	pos: position{line: 2859, col: 13, offset: 90581},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90570},
+																			pos: position{line: 2859, col: 13, offset: 90581},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90570},
+																				pos:        position{line: 2859, col: 13, offset: 90581},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90575},
+																			pos: position{line: 2859, col: 18, offset: 90586},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90575},
+																				pos:        position{line: 2859, col: 18, offset: 90586},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23080},
+										pos: position{line: 725, col: 5, offset: 23091},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23080},
+											pos: position{line: 725, col: 5, offset: 23091},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23080},
+													pos: position{line: 725, col: 5, offset: 23091},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87837},
+														pos:        position{line: 2757, col: 13, offset: 87848},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23110},
+													pos:   position{line: 726, col: 5, offset: 23121},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23130},
+														pos: position{line: 727, col: 9, offset: 23141},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23622},
+																pos: position{line: 741, col: 5, offset: 23633},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23622},
+																	pos: position{line: 741, col: 5, offset: 23633},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23622},
+																			pos:   position{line: 741, col: 5, offset: 23633},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23633},
+																				pos: position{line: 741, col: 16, offset: 23644},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23633},
+																					pos: position{line: 741, col: 16, offset: 23644},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23633},
+																							pos:        position{line: 741, col: 16, offset: 23644},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23640},
+																							pos: position{line: 741, col: 23, offset: 23651},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23640},
+																								pos:        position{line: 741, col: 23, offset: 23651},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23724},
+																			pos: position{line: 743, col: 8, offset: 23735},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23870},
+																pos: position{line: 748, col: 5, offset: 23881},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23870},
+																	pos: position{line: 748, col: 5, offset: 23881},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23870},
+																			pos:   position{line: 748, col: 5, offset: 23881},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23881},
+																				pos: position{line: 748, col: 16, offset: 23892},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23881},
+																					pos: position{line: 748, col: 16, offset: 23892},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23881},
+																							pos:        position{line: 748, col: 16, offset: 23892},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23888},
+																							pos: position{line: 748, col: 23, offset: 23899},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23888},
+																								pos:        position{line: 748, col: 23, offset: 23899},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23972},
+																			pos: position{line: 750, col: 8, offset: 23983},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24358},
+																pos: position{line: 761, col: 26, offset: 24369},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24358},
+																	pos: position{line: 761, col: 26, offset: 24369},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24358},
+																			pos:        position{line: 761, col: 26, offset: 24369},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24364},
+																			pos:   position{line: 761, col: 32, offset: 24375},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24494},
+																				pos: position{line: 765, col: 13, offset: 24505},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24495},
+																					pos: position{line: 765, col: 14, offset: 24506},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24495},
+																						pos:        position{line: 765, col: 14, offset: 24506},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24384},
+																			pos: position{line: 761, col: 52, offset: 24395},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24117},
+																pos: position{line: 755, col: 5, offset: 24128},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24117},
+																	pos: position{line: 755, col: 5, offset: 24128},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24117},
+																			pos:   position{line: 755, col: 5, offset: 24128},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24128},
+																				pos: position{line: 755, col: 16, offset: 24139},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24128},
+																					pos: position{line: 755, col: 16, offset: 24139},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24128},
+																							pos:        position{line: 755, col: 16, offset: 24139},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24134},
+																							pos: position{line: 755, col: 22, offset: 24145},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24134},
+																								pos:        position{line: 755, col: 22, offset: 24145},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24218},
+																			pos: position{line: 757, col: 8, offset: 24229},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24654},
+																pos: position{line: 770, col: 5, offset: 24665},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24654},
+																	pos: position{line: 770, col: 5, offset: 24665},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24654},
+																			pos:   position{line: 770, col: 5, offset: 24665},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24665},
+																				pos: position{line: 770, col: 16, offset: 24676},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24665},
+																					pos: position{line: 770, col: 16, offset: 24676},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24665},
+																							pos:        position{line: 770, col: 16, offset: 24676},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24672},
+																							pos: position{line: 770, col: 23, offset: 24683},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24672},
+																								pos:        position{line: 770, col: 23, offset: 24683},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24756},
+																			pos: position{line: 772, col: 8, offset: 24767},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25130},
+																pos: position{line: 784, col: 5, offset: 25141},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25130},
+																	pos: position{line: 784, col: 5, offset: 25141},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25130},
+																			pos:   position{line: 784, col: 5, offset: 25141},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25141},
+																				pos: position{line: 784, col: 16, offset: 25152},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25141},
+																					pos: position{line: 784, col: 16, offset: 25152},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25141},
+																							pos:        position{line: 784, col: 16, offset: 25152},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25148},
+																							pos: position{line: 784, col: 23, offset: 25159},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25148},
+																								pos:        position{line: 784, col: 23, offset: 25159},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25232},
+																			pos: position{line: 786, col: 8, offset: 25243},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25382},
+																pos: position{line: 791, col: 5, offset: 25393},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25382},
+																	pos: position{line: 791, col: 5, offset: 25393},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25382},
+																			pos:   position{line: 791, col: 5, offset: 25393},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25393},
+																				pos: position{line: 791, col: 16, offset: 25404},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25393},
+																					pos: position{line: 791, col: 16, offset: 25404},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25393},
+																							pos:        position{line: 791, col: 16, offset: 25404},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25400},
+																							pos: position{line: 791, col: 23, offset: 25411},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25400},
+																								pos:        position{line: 791, col: 23, offset: 25411},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25484},
+																			pos: position{line: 793, col: 8, offset: 25495},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25632},
+																pos: position{line: 798, col: 5, offset: 25643},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25632},
+																	pos: position{line: 798, col: 5, offset: 25643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25632},
+																			pos:   position{line: 798, col: 5, offset: 25643},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25643},
+																				pos: position{line: 798, col: 16, offset: 25654},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25643},
+																					pos: position{line: 798, col: 16, offset: 25654},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25643},
+																							pos:        position{line: 798, col: 16, offset: 25654},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25650},
+																							pos: position{line: 798, col: 23, offset: 25661},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25650},
+																								pos:        position{line: 798, col: 23, offset: 25661},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25734},
+																			pos: position{line: 800, col: 8, offset: 25745},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25878},
+																pos: position{line: 805, col: 5, offset: 25889},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25878},
+																	pos: position{line: 805, col: 5, offset: 25889},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25878},
+																			pos:   position{line: 805, col: 5, offset: 25889},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25889},
+																				pos: position{line: 805, col: 16, offset: 25900},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25889},
+																					pos: position{line: 805, col: 16, offset: 25900},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25889},
+																							pos:        position{line: 805, col: 16, offset: 25900},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25896},
+																							pos: position{line: 805, col: 23, offset: 25907},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25896},
+																								pos:        position{line: 805, col: 23, offset: 25907},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25980},
+																			pos: position{line: 807, col: 8, offset: 25991},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2870, col: 11, offset: 90803},
+													pos: position{line: 2871, col: 11, offset: 90814},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2870, col: 11, offset: 90803},
+														pos: position{line: 2871, col: 11, offset: 90814},
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 11, offset: 90803},
+															pos:        position{line: 2871, col: 11, offset: 90814},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2816, col: 14, offset: 89335},
+													pos: position{line: 2817, col: 14, offset: 89346},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2816, col: 14, offset: 89335},
+														pos: position{line: 2817, col: 14, offset: 89346},
 														expr: &charClassMatcher{
-															pos:        position{line: 2816, col: 14, offset: 89335},
+															pos:        position{line: 2817, col: 14, offset: 89346},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2820, col: 17, offset: 89405},
+												pos: position{line: 2821, col: 17, offset: 89416},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2820, col: 17, offset: 89405},
+													pos:   position{line: 2821, col: 17, offset: 89416},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -2699,44 +2699,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonFileInclusion39,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2744,9 +2744,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,28 +2768,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonFileInclusion49,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2797,9 +2797,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,28 +2821,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonFileInclusion59,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2850,9 +2850,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,28 +2930,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonFileInclusion81,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2959,9 +2959,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2858, col: 12, offset: 90569},
+																				pos: position{line: 2859, col: 12, offset: 90580},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2858, col: 13, offset: 90570},
+																					pos: position{line: 2859, col: 13, offset: 90581},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2858, col: 13, offset: 90570},
+																							pos: position{line: 2859, col: 13, offset: 90581},
 																							expr: &litMatcher{
-																								pos:        position{line: 2858, col: 13, offset: 90570},
+																								pos:        position{line: 2859, col: 13, offset: 90581},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2858, col: 18, offset: 90575},
+																							pos: position{line: 2859, col: 18, offset: 90586},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2858, col: 18, offset: 90575},
+																								pos:        position{line: 2859, col: 18, offset: 90586},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2858, col: 12, offset: 90569},
+																				pos: position{line: 2859, col: 12, offset: 90580},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2858, col: 13, offset: 90570},
+																					pos: position{line: 2859, col: 13, offset: 90581},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2858, col: 13, offset: 90570},
+																							pos: position{line: 2859, col: 13, offset: 90581},
 																							expr: &litMatcher{
-																								pos:        position{line: 2858, col: 13, offset: 90570},
+																								pos:        position{line: 2859, col: 13, offset: 90581},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2858, col: 18, offset: 90575},
+																							pos: position{line: 2859, col: 18, offset: 90586},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2858, col: 18, offset: 90575},
+																								pos:        position{line: 2859, col: 18, offset: 90586},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2858, col: 12, offset: 90569},
+																		pos: position{line: 2859, col: 12, offset: 90580},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2858, col: 13, offset: 90570},
+																			pos: position{line: 2859, col: 13, offset: 90581},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2858, col: 13, offset: 90570},
+																					pos: position{line: 2859, col: 13, offset: 90581},
 																					expr: &litMatcher{
-																						pos:        position{line: 2858, col: 13, offset: 90570},
+																						pos:        position{line: 2859, col: 13, offset: 90581},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2858, col: 18, offset: 90575},
+																					pos: position{line: 2859, col: 18, offset: 90586},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2858, col: 18, offset: 90575},
+																						pos:        position{line: 2859, col: 18, offset: 90586},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2858, col: 12, offset: 90569},
+																									pos: position{line: 2859, col: 12, offset: 90580},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2858, col: 13, offset: 90570},
+																										pos: position{line: 2859, col: 13, offset: 90581},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2858, col: 13, offset: 90570},
+																												pos: position{line: 2859, col: 13, offset: 90581},
 																												expr: &litMatcher{
-																													pos:        position{line: 2858, col: 13, offset: 90570},
+																													pos:        position{line: 2859, col: 13, offset: 90581},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2858, col: 18, offset: 90575},
+																												pos: position{line: 2859, col: 18, offset: 90586},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2858, col: 18, offset: 90575},
+																													pos:        position{line: 2859, col: 18, offset: 90586},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2858, col: 12, offset: 90569},
+																									pos: position{line: 2859, col: 12, offset: 90580},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2858, col: 13, offset: 90570},
+																										pos: position{line: 2859, col: 13, offset: 90581},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2858, col: 13, offset: 90570},
+																												pos: position{line: 2859, col: 13, offset: 90581},
 																												expr: &litMatcher{
-																													pos:        position{line: 2858, col: 13, offset: 90570},
+																													pos:        position{line: 2859, col: 13, offset: 90581},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2858, col: 18, offset: 90575},
+																												pos: position{line: 2859, col: 18, offset: 90586},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2858, col: 18, offset: 90575},
+																													pos:        position{line: 2859, col: 18, offset: 90586},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 12, offset: 90569},
+																							pos: position{line: 2859, col: 12, offset: 90580},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2858, col: 13, offset: 90570},
+																								pos: position{line: 2859, col: 13, offset: 90581},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2858, col: 13, offset: 90570},
+																										pos: position{line: 2859, col: 13, offset: 90581},
 																										expr: &litMatcher{
-																											pos:        position{line: 2858, col: 13, offset: 90570},
+																											pos:        position{line: 2859, col: 13, offset: 90581},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2858, col: 18, offset: 90575},
+																										pos: position{line: 2859, col: 18, offset: 90586},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2858, col: 18, offset: 90575},
+																											pos:        position{line: 2859, col: 18, offset: 90586},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 12, offset: 90569},
+														pos: position{line: 2859, col: 12, offset: 90580},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2858, col: 13, offset: 90570},
+															pos: position{line: 2859, col: 13, offset: 90581},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2858, col: 13, offset: 90570},
+																	pos: position{line: 2859, col: 13, offset: 90581},
 																	expr: &litMatcher{
-																		pos:        position{line: 2858, col: 13, offset: 90570},
+																		pos:        position{line: 2859, col: 13, offset: 90581},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2858, col: 18, offset: 90575},
+																	pos: position{line: 2859, col: 18, offset: 90586},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2858, col: 18, offset: 90575},
+																		pos:        position{line: 2859, col: 18, offset: 90586},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 12, offset: 90569},
+														pos: position{line: 2859, col: 12, offset: 90580},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2858, col: 13, offset: 90570},
+															pos: position{line: 2859, col: 13, offset: 90581},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2858, col: 13, offset: 90570},
+																	pos: position{line: 2859, col: 13, offset: 90581},
 																	expr: &litMatcher{
-																		pos:        position{line: 2858, col: 13, offset: 90570},
+																		pos:        position{line: 2859, col: 13, offset: 90581},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2858, col: 18, offset: 90575},
+																	pos: position{line: 2859, col: 18, offset: 90586},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2858, col: 18, offset: 90575},
+																		pos:        position{line: 2859, col: 18, offset: 90586},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2858, col: 12, offset: 90569},
+												pos: position{line: 2859, col: 12, offset: 90580},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90570},
+													pos: position{line: 2859, col: 13, offset: 90581},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2858, col: 13, offset: 90570},
+															pos: position{line: 2859, col: 13, offset: 90581},
 															expr: &litMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90570},
+																pos:        position{line: 2859, col: 13, offset: 90581},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2858, col: 18, offset: 90575},
+															pos: position{line: 2859, col: 18, offset: 90586},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 18, offset: 90575},
+																pos:        position{line: 2859, col: 18, offset: 90586},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2760, col: 14, offset: 87911},
+																		pos: position{line: 2761, col: 14, offset: 87922},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2760, col: 14, offset: 87911},
+																			pos: position{line: 2761, col: 14, offset: 87922},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2760, col: 14, offset: 87911},
+																				pos:        position{line: 2761, col: 14, offset: 87922},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2760, col: 14, offset: 87911},
+																				pos: position{line: 2761, col: 14, offset: 87922},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2760, col: 14, offset: 87911},
+																					pos: position{line: 2761, col: 14, offset: 87922},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2760, col: 14, offset: 87911},
+																						pos:        position{line: 2761, col: 14, offset: 87922},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2760, col: 14, offset: 87911},
+																							pos: position{line: 2761, col: 14, offset: 87922},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2760, col: 14, offset: 87911},
+																								pos: position{line: 2761, col: 14, offset: 87922},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2760, col: 14, offset: 87911},
+																									pos:        position{line: 2761, col: 14, offset: 87922},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2760, col: 14, offset: 87911},
+																									pos: position{line: 2761, col: 14, offset: 87922},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2760, col: 14, offset: 87911},
+																										pos: position{line: 2761, col: 14, offset: 87922},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2760, col: 14, offset: 87911},
+																											pos:        position{line: 2761, col: 14, offset: 87922},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2760, col: 14, offset: 87911},
+																pos: position{line: 2761, col: 14, offset: 87922},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2760, col: 14, offset: 87911},
+																	pos: position{line: 2761, col: 14, offset: 87922},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2760, col: 14, offset: 87911},
+																		pos:        position{line: 2761, col: 14, offset: 87922},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2760, col: 14, offset: 87911},
+																pos: position{line: 2761, col: 14, offset: 87922},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2760, col: 14, offset: 87911},
+																	pos: position{line: 2761, col: 14, offset: 87922},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2760, col: 14, offset: 87911},
+																		pos:        position{line: 2761, col: 14, offset: 87922},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&labeledExpr{
@@ -4126,28 +4126,28 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 361, col: 19, offset: 10921},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 361, col: 19, offset: 10921},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 361, col: 19, offset: 10921},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 361, col: 24, offset: 10926},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															run: (*parser).callonDocumentFragment20,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 319, col: 18, offset: 9747},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4155,9 +4155,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 319, col: 29, offset: 9758},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 361, col: 45, offset: 10947},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -4231,28 +4231,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 363, col: 9, offset: 11042},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 363, col: 9, offset: 11042},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 363, col: 9, offset: 11042},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 363, col: 13, offset: 11046},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															run: (*parser).callonDocumentFragment41,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 319, col: 18, offset: 9747},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4260,9 +4260,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 319, col: 29, offset: 9758},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 363, col: 34, offset: 11067},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21508},
+											pos: position{line: 678, col: 14, offset: 21519},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21508},
+												pos: position{line: 678, col: 14, offset: 21519},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2883, col: 11, offset: 91076},
+														pos: position{line: 2884, col: 11, offset: 91087},
 														expr: &anyMatcher{
-															line: 2883, col: 13, offset: 91078,
+															line: 2884, col: 13, offset: 91089,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21515},
+														pos: position{line: 678, col: 21, offset: 21526},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26362},
+											pos: position{line: 821, col: 5, offset: 26373},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26362},
+												pos: position{line: 821, col: 5, offset: 26373},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26362},
+														pos:   position{line: 821, col: 5, offset: 26373},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23622},
+															pos: position{line: 741, col: 5, offset: 23633},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23622},
+																pos: position{line: 741, col: 5, offset: 23633},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23622},
+																		pos:   position{line: 741, col: 5, offset: 23633},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23633},
+																			pos: position{line: 741, col: 16, offset: 23644},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23633},
+																				pos: position{line: 741, col: 16, offset: 23644},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23633},
+																						pos:        position{line: 741, col: 16, offset: 23644},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23640},
+																						pos: position{line: 741, col: 23, offset: 23651},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23640},
+																							pos:        position{line: 741, col: 23, offset: 23651},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23724},
+																		pos: position{line: 743, col: 8, offset: 23735},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26401},
+														pos: position{line: 822, col: 5, offset: 26412},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26493},
+														pos:   position{line: 825, col: 5, offset: 26504},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26885},
+															pos: position{line: 840, col: 5, offset: 26896},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26886},
+																pos: position{line: 840, col: 6, offset: 26897},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26886},
+																	pos: position{line: 840, col: 6, offset: 26897},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26886},
+																			pos: position{line: 840, col: 6, offset: 26897},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26727},
+																				pos: position{line: 833, col: 5, offset: 26738},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26727},
+																						pos: position{line: 833, col: 5, offset: 26738},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26727},
+																								pos:   position{line: 833, col: 5, offset: 26738},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23622},
+																										pos: position{line: 741, col: 5, offset: 23633},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23622},
+																												pos:   position{line: 741, col: 5, offset: 23633},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23633},
+																														pos: position{line: 741, col: 16, offset: 23644},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23633},
+																																pos:        position{line: 741, col: 16, offset: 23644},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23640},
+																																pos: position{line: 741, col: 23, offset: 23651},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23640},
+																																	pos:        position{line: 741, col: 23, offset: 23651},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23724},
+																												pos: position{line: 743, col: 8, offset: 23735},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26758},
+																								pos: position{line: 834, col: 5, offset: 26769},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26916},
+																			pos:   position{line: 841, col: 5, offset: 26927},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -4721,41 +4721,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26527},
+														pos: position{line: 826, col: 5, offset: 26538},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26727},
+															pos: position{line: 833, col: 5, offset: 26738},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26727},
+																	pos: position{line: 833, col: 5, offset: 26738},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26727},
+																			pos:   position{line: 833, col: 5, offset: 26738},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				run: (*parser).callonDocumentFragment149,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23622},
+																					pos: position{line: 741, col: 5, offset: 23633},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23622},
+																							pos:   position{line: 741, col: 5, offset: 23633},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								run: (*parser).callonDocumentFragment152,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23633},
+																									pos: position{line: 741, col: 16, offset: 23644},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23633},
+																											pos:        position{line: 741, col: 16, offset: 23644},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23640},
+																											pos: position{line: 741, col: 23, offset: 23651},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23640},
+																												pos:        position{line: 741, col: 23, offset: 23651},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -4766,12 +4766,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23724},
+																							pos: position{line: 743, col: 8, offset: 23735},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -4822,15 +4822,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26758},
+																			pos: position{line: 834, col: 5, offset: 26769},
 																			run: (*parser).callonDocumentFragment168,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -4840,39 +4840,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 848, col: 5, offset: 27069},
+											pos: position{line: 849, col: 5, offset: 27080},
 											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 848, col: 5, offset: 27069},
+												pos: position{line: 849, col: 5, offset: 27080},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 848, col: 5, offset: 27069},
+														pos:   position{line: 849, col: 5, offset: 27080},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23870},
+															pos: position{line: 748, col: 5, offset: 23881},
 															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23870},
+																pos: position{line: 748, col: 5, offset: 23881},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23870},
+																		pos:   position{line: 748, col: 5, offset: 23881},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23881},
+																			pos: position{line: 748, col: 16, offset: 23892},
 																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23881},
+																				pos: position{line: 748, col: 16, offset: 23892},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23881},
+																						pos:        position{line: 748, col: 16, offset: 23892},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23888},
+																						pos: position{line: 748, col: 23, offset: 23899},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23888},
+																							pos:        position{line: 748, col: 23, offset: 23899},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4883,12 +4883,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23972},
+																		pos: position{line: 750, col: 8, offset: 23983},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -4939,56 +4939,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 849, col: 5, offset: 27108},
+														pos: position{line: 850, col: 5, offset: 27119},
 														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 852, col: 5, offset: 27200},
+														pos:   position{line: 853, col: 5, offset: 27211},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 867, col: 4, offset: 27597},
+															pos: position{line: 868, col: 4, offset: 27608},
 															expr: &actionExpr{
-																pos: position{line: 867, col: 5, offset: 27598},
+																pos: position{line: 868, col: 5, offset: 27609},
 																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 867, col: 5, offset: 27598},
+																	pos: position{line: 868, col: 5, offset: 27609},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 867, col: 5, offset: 27598},
+																			pos: position{line: 868, col: 5, offset: 27609},
 																			expr: &choiceExpr{
-																				pos: position{line: 860, col: 5, offset: 27440},
+																				pos: position{line: 861, col: 5, offset: 27451},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 860, col: 5, offset: 27440},
+																						pos: position{line: 861, col: 5, offset: 27451},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 860, col: 5, offset: 27440},
+																								pos:   position{line: 861, col: 5, offset: 27451},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23870},
+																									pos: position{line: 748, col: 5, offset: 23881},
 																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23870},
+																										pos: position{line: 748, col: 5, offset: 23881},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23870},
+																												pos:   position{line: 748, col: 5, offset: 23881},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23881},
+																													pos: position{line: 748, col: 16, offset: 23892},
 																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23881},
+																														pos: position{line: 748, col: 16, offset: 23892},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23881},
+																																pos:        position{line: 748, col: 16, offset: 23892},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23888},
+																																pos: position{line: 748, col: 23, offset: 23899},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23888},
+																																	pos:        position{line: 748, col: 23, offset: 23899},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4999,12 +4999,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23972},
+																												pos: position{line: 750, col: 8, offset: 23983},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -5055,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 861, col: 5, offset: 27471},
+																								pos: position{line: 862, col: 5, offset: 27482},
 																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 868, col: 5, offset: 27628},
+																			pos:   position{line: 869, col: 5, offset: 27639},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -5150,44 +5150,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27234},
+														pos:   position{line: 854, col: 5, offset: 27245},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 853, col: 9, offset: 27238},
+															pos: position{line: 854, col: 9, offset: 27249},
 															expr: &choiceExpr{
-																pos: position{line: 860, col: 5, offset: 27440},
+																pos: position{line: 861, col: 5, offset: 27451},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 860, col: 5, offset: 27440},
+																		pos: position{line: 861, col: 5, offset: 27451},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 860, col: 5, offset: 27440},
+																				pos:   position{line: 861, col: 5, offset: 27451},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23870},
+																					pos: position{line: 748, col: 5, offset: 23881},
 																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23870},
+																						pos: position{line: 748, col: 5, offset: 23881},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23870},
+																								pos:   position{line: 748, col: 5, offset: 23881},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23881},
+																									pos: position{line: 748, col: 16, offset: 23892},
 																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23881},
+																										pos: position{line: 748, col: 16, offset: 23892},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23881},
+																												pos:        position{line: 748, col: 16, offset: 23892},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23888},
+																												pos: position{line: 748, col: 23, offset: 23899},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23888},
+																													pos:        position{line: 748, col: 23, offset: 23899},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5198,12 +5198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23972},
+																								pos: position{line: 750, col: 8, offset: 23983},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -5254,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 861, col: 5, offset: 27471},
+																				pos: position{line: 862, col: 5, offset: 27482},
 																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -5273,36 +5273,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 960, col: 5, offset: 29920},
+											pos: position{line: 961, col: 5, offset: 29931},
 											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 960, col: 5, offset: 29920},
+												pos: position{line: 961, col: 5, offset: 29931},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 960, col: 5, offset: 29920},
+														pos:   position{line: 961, col: 5, offset: 29931},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24358},
+															pos: position{line: 761, col: 26, offset: 24369},
 															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24358},
+																pos: position{line: 761, col: 26, offset: 24369},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24358},
+																		pos:        position{line: 761, col: 26, offset: 24369},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24364},
+																		pos:   position{line: 761, col: 32, offset: 24375},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24494},
+																			pos: position{line: 765, col: 13, offset: 24505},
 																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24495},
+																				pos: position{line: 765, col: 14, offset: 24506},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24495},
+																					pos:        position{line: 765, col: 14, offset: 24506},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5312,12 +5312,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24384},
+																		pos: position{line: 761, col: 52, offset: 24395},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -5368,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 961, col: 5, offset: 29966},
+														pos:   position{line: 962, col: 5, offset: 29977},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 974, col: 5, offset: 30439},
+															pos: position{line: 975, col: 5, offset: 30450},
 															expr: &actionExpr{
-																pos: position{line: 974, col: 6, offset: 30440},
+																pos: position{line: 975, col: 6, offset: 30451},
 																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 974, col: 6, offset: 30440},
+																	pos: position{line: 975, col: 6, offset: 30451},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 974, col: 6, offset: 30440},
+																			pos: position{line: 975, col: 6, offset: 30451},
 																			expr: &seqExpr{
-																				pos: position{line: 971, col: 34, offset: 30387},
+																				pos: position{line: 972, col: 34, offset: 30398},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 971, col: 34, offset: 30387},
+																						pos:        position{line: 972, col: 34, offset: 30398},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 971, col: 40, offset: 30393},
+																						pos: position{line: 972, col: 40, offset: 30404},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -5445,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 975, col: 5, offset: 30475},
+																			pos:   position{line: 976, col: 5, offset: 30486},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -5525,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 962, col: 5, offset: 30005},
+														pos: position{line: 963, col: 5, offset: 30016},
 														expr: &seqExpr{
-															pos: position{line: 971, col: 34, offset: 30387},
+															pos: position{line: 972, col: 34, offset: 30398},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 971, col: 34, offset: 30387},
+																	pos:        position{line: 972, col: 34, offset: 30398},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 971, col: 40, offset: 30393},
+																	pos: position{line: 972, col: 40, offset: 30404},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -5594,39 +5594,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 876, col: 5, offset: 27781},
+											pos: position{line: 877, col: 5, offset: 27792},
 											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 876, col: 5, offset: 27781},
+												pos: position{line: 877, col: 5, offset: 27792},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 876, col: 5, offset: 27781},
+														pos:   position{line: 877, col: 5, offset: 27792},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24117},
+															pos: position{line: 755, col: 5, offset: 24128},
 															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24117},
+																pos: position{line: 755, col: 5, offset: 24128},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24117},
+																		pos:   position{line: 755, col: 5, offset: 24128},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24128},
+																			pos: position{line: 755, col: 16, offset: 24139},
 																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24128},
+																				pos: position{line: 755, col: 16, offset: 24139},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24128},
+																						pos:        position{line: 755, col: 16, offset: 24139},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24134},
+																						pos: position{line: 755, col: 22, offset: 24145},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24134},
+																							pos:        position{line: 755, col: 22, offset: 24145},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5637,12 +5637,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24218},
+																		pos: position{line: 757, col: 8, offset: 24229},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -5693,56 +5693,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 877, col: 5, offset: 27819},
+														pos: position{line: 878, col: 5, offset: 27830},
 														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 880, col: 5, offset: 27911},
+														pos:   position{line: 881, col: 5, offset: 27922},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 895, col: 5, offset: 28301},
+															pos: position{line: 896, col: 5, offset: 28312},
 															expr: &actionExpr{
-																pos: position{line: 895, col: 6, offset: 28302},
+																pos: position{line: 896, col: 6, offset: 28313},
 																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 895, col: 6, offset: 28302},
+																	pos: position{line: 896, col: 6, offset: 28313},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 895, col: 6, offset: 28302},
+																			pos: position{line: 896, col: 6, offset: 28313},
 																			expr: &choiceExpr{
-																				pos: position{line: 888, col: 5, offset: 28145},
+																				pos: position{line: 889, col: 5, offset: 28156},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 888, col: 5, offset: 28145},
+																						pos: position{line: 889, col: 5, offset: 28156},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 888, col: 5, offset: 28145},
+																								pos:   position{line: 889, col: 5, offset: 28156},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24117},
+																									pos: position{line: 755, col: 5, offset: 24128},
 																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24117},
+																										pos: position{line: 755, col: 5, offset: 24128},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24117},
+																												pos:   position{line: 755, col: 5, offset: 24128},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24128},
+																													pos: position{line: 755, col: 16, offset: 24139},
 																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24128},
+																														pos: position{line: 755, col: 16, offset: 24139},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24128},
+																																pos:        position{line: 755, col: 16, offset: 24139},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24134},
+																																pos: position{line: 755, col: 22, offset: 24145},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24134},
+																																	pos:        position{line: 755, col: 22, offset: 24145},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5753,12 +5753,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24218},
+																												pos: position{line: 757, col: 8, offset: 24229},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -5809,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 889, col: 5, offset: 28175},
+																								pos: position{line: 890, col: 5, offset: 28186},
 																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 896, col: 5, offset: 28331},
+																			pos:   position{line: 897, col: 5, offset: 28342},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -5904,44 +5904,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 27944},
+														pos:   position{line: 882, col: 5, offset: 27955},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 881, col: 9, offset: 27948},
+															pos: position{line: 882, col: 9, offset: 27959},
 															expr: &choiceExpr{
-																pos: position{line: 888, col: 5, offset: 28145},
+																pos: position{line: 889, col: 5, offset: 28156},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 888, col: 5, offset: 28145},
+																		pos: position{line: 889, col: 5, offset: 28156},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 888, col: 5, offset: 28145},
+																				pos:   position{line: 889, col: 5, offset: 28156},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24117},
+																					pos: position{line: 755, col: 5, offset: 24128},
 																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24117},
+																						pos: position{line: 755, col: 5, offset: 24128},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24117},
+																								pos:   position{line: 755, col: 5, offset: 24128},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24128},
+																									pos: position{line: 755, col: 16, offset: 24139},
 																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24128},
+																										pos: position{line: 755, col: 16, offset: 24139},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24128},
+																												pos:        position{line: 755, col: 16, offset: 24139},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24134},
+																												pos: position{line: 755, col: 22, offset: 24145},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24134},
+																													pos:        position{line: 755, col: 22, offset: 24145},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5952,12 +5952,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24218},
+																								pos: position{line: 757, col: 8, offset: 24229},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -6008,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 889, col: 5, offset: 28175},
+																				pos: position{line: 890, col: 5, offset: 28186},
 																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -6027,39 +6027,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 904, col: 5, offset: 28486},
+											pos: position{line: 905, col: 5, offset: 28497},
 											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 904, col: 5, offset: 28486},
+												pos: position{line: 905, col: 5, offset: 28497},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 904, col: 5, offset: 28486},
+														pos:   position{line: 905, col: 5, offset: 28497},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24654},
+															pos: position{line: 770, col: 5, offset: 24665},
 															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24654},
+																pos: position{line: 770, col: 5, offset: 24665},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24654},
+																		pos:   position{line: 770, col: 5, offset: 24665},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24665},
+																			pos: position{line: 770, col: 16, offset: 24676},
 																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24665},
+																				pos: position{line: 770, col: 16, offset: 24676},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24665},
+																						pos:        position{line: 770, col: 16, offset: 24676},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24672},
+																						pos: position{line: 770, col: 23, offset: 24683},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24672},
+																							pos:        position{line: 770, col: 23, offset: 24683},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6070,12 +6070,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24756},
+																		pos: position{line: 772, col: 8, offset: 24767},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -6126,56 +6126,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 905, col: 5, offset: 28525},
+														pos: position{line: 906, col: 5, offset: 28536},
 														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 908, col: 5, offset: 28617},
+														pos:   position{line: 909, col: 5, offset: 28628},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 923, col: 5, offset: 29015},
+															pos: position{line: 924, col: 5, offset: 29026},
 															expr: &actionExpr{
-																pos: position{line: 923, col: 6, offset: 29016},
+																pos: position{line: 924, col: 6, offset: 29027},
 																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 923, col: 6, offset: 29016},
+																	pos: position{line: 924, col: 6, offset: 29027},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 923, col: 6, offset: 29016},
+																			pos: position{line: 924, col: 6, offset: 29027},
 																			expr: &choiceExpr{
-																				pos: position{line: 916, col: 5, offset: 28857},
+																				pos: position{line: 917, col: 5, offset: 28868},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 916, col: 5, offset: 28857},
+																						pos: position{line: 917, col: 5, offset: 28868},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 916, col: 5, offset: 28857},
+																								pos:   position{line: 917, col: 5, offset: 28868},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24654},
+																									pos: position{line: 770, col: 5, offset: 24665},
 																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24654},
+																										pos: position{line: 770, col: 5, offset: 24665},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24654},
+																												pos:   position{line: 770, col: 5, offset: 24665},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24665},
+																													pos: position{line: 770, col: 16, offset: 24676},
 																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24665},
+																														pos: position{line: 770, col: 16, offset: 24676},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24665},
+																																pos:        position{line: 770, col: 16, offset: 24676},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24672},
+																																pos: position{line: 770, col: 23, offset: 24683},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24672},
+																																	pos:        position{line: 770, col: 23, offset: 24683},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6186,12 +6186,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24756},
+																												pos: position{line: 772, col: 8, offset: 24767},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -6242,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 917, col: 5, offset: 28888},
+																								pos: position{line: 918, col: 5, offset: 28899},
 																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 924, col: 5, offset: 29046},
+																			pos:   position{line: 925, col: 5, offset: 29057},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -6337,44 +6337,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28651},
+														pos:   position{line: 910, col: 5, offset: 28662},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 909, col: 9, offset: 28655},
+															pos: position{line: 910, col: 9, offset: 28666},
 															expr: &choiceExpr{
-																pos: position{line: 916, col: 5, offset: 28857},
+																pos: position{line: 917, col: 5, offset: 28868},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 916, col: 5, offset: 28857},
+																		pos: position{line: 917, col: 5, offset: 28868},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 916, col: 5, offset: 28857},
+																				pos:   position{line: 917, col: 5, offset: 28868},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24654},
+																					pos: position{line: 770, col: 5, offset: 24665},
 																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24654},
+																						pos: position{line: 770, col: 5, offset: 24665},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24654},
+																								pos:   position{line: 770, col: 5, offset: 24665},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24665},
+																									pos: position{line: 770, col: 16, offset: 24676},
 																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24665},
+																										pos: position{line: 770, col: 16, offset: 24676},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24665},
+																												pos:        position{line: 770, col: 16, offset: 24676},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24672},
+																												pos: position{line: 770, col: 23, offset: 24683},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24672},
+																													pos:        position{line: 770, col: 23, offset: 24683},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6385,12 +6385,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24756},
+																								pos: position{line: 772, col: 8, offset: 24767},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -6441,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 917, col: 5, offset: 28888},
+																				pos: position{line: 918, col: 5, offset: 28899},
 																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -6460,39 +6460,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 932, col: 5, offset: 29201},
+											pos: position{line: 933, col: 5, offset: 29212},
 											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 932, col: 5, offset: 29201},
+												pos: position{line: 933, col: 5, offset: 29212},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 932, col: 5, offset: 29201},
+														pos:   position{line: 933, col: 5, offset: 29212},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25130},
+															pos: position{line: 784, col: 5, offset: 25141},
 															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25130},
+																pos: position{line: 784, col: 5, offset: 25141},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25130},
+																		pos:   position{line: 784, col: 5, offset: 25141},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25141},
+																			pos: position{line: 784, col: 16, offset: 25152},
 																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25141},
+																				pos: position{line: 784, col: 16, offset: 25152},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25141},
+																						pos:        position{line: 784, col: 16, offset: 25152},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25148},
+																						pos: position{line: 784, col: 23, offset: 25159},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25148},
+																							pos:        position{line: 784, col: 23, offset: 25159},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6503,12 +6503,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25232},
+																		pos: position{line: 786, col: 8, offset: 25243},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -6559,56 +6559,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 933, col: 5, offset: 29240},
+														pos: position{line: 934, col: 5, offset: 29251},
 														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 936, col: 5, offset: 29332},
+														pos:   position{line: 937, col: 5, offset: 29343},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 951, col: 5, offset: 29730},
+															pos: position{line: 952, col: 5, offset: 29741},
 															expr: &actionExpr{
-																pos: position{line: 951, col: 6, offset: 29731},
+																pos: position{line: 952, col: 6, offset: 29742},
 																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 951, col: 6, offset: 29731},
+																	pos: position{line: 952, col: 6, offset: 29742},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 951, col: 6, offset: 29731},
+																			pos: position{line: 952, col: 6, offset: 29742},
 																			expr: &choiceExpr{
-																				pos: position{line: 944, col: 5, offset: 29572},
+																				pos: position{line: 945, col: 5, offset: 29583},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 944, col: 5, offset: 29572},
+																						pos: position{line: 945, col: 5, offset: 29583},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 944, col: 5, offset: 29572},
+																								pos:   position{line: 945, col: 5, offset: 29583},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25130},
+																									pos: position{line: 784, col: 5, offset: 25141},
 																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25130},
+																										pos: position{line: 784, col: 5, offset: 25141},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25130},
+																												pos:   position{line: 784, col: 5, offset: 25141},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25141},
+																													pos: position{line: 784, col: 16, offset: 25152},
 																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25141},
+																														pos: position{line: 784, col: 16, offset: 25152},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25141},
+																																pos:        position{line: 784, col: 16, offset: 25152},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25148},
+																																pos: position{line: 784, col: 23, offset: 25159},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25148},
+																																	pos:        position{line: 784, col: 23, offset: 25159},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6619,12 +6619,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25232},
+																												pos: position{line: 786, col: 8, offset: 25243},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -6675,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 945, col: 5, offset: 29603},
+																								pos: position{line: 946, col: 5, offset: 29614},
 																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 952, col: 5, offset: 29761},
+																			pos:   position{line: 953, col: 5, offset: 29772},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -6770,44 +6770,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29366},
+														pos:   position{line: 938, col: 5, offset: 29377},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 937, col: 9, offset: 29370},
+															pos: position{line: 938, col: 9, offset: 29381},
 															expr: &choiceExpr{
-																pos: position{line: 944, col: 5, offset: 29572},
+																pos: position{line: 945, col: 5, offset: 29583},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 944, col: 5, offset: 29572},
+																		pos: position{line: 945, col: 5, offset: 29583},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 944, col: 5, offset: 29572},
+																				pos:   position{line: 945, col: 5, offset: 29583},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25130},
+																					pos: position{line: 784, col: 5, offset: 25141},
 																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25130},
+																						pos: position{line: 784, col: 5, offset: 25141},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25130},
+																								pos:   position{line: 784, col: 5, offset: 25141},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25141},
+																									pos: position{line: 784, col: 16, offset: 25152},
 																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25141},
+																										pos: position{line: 784, col: 16, offset: 25152},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25141},
+																												pos:        position{line: 784, col: 16, offset: 25152},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25148},
+																												pos: position{line: 784, col: 23, offset: 25159},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25148},
+																													pos:        position{line: 784, col: 23, offset: 25159},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6818,12 +6818,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25232},
+																								pos: position{line: 786, col: 8, offset: 25243},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -6874,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 945, col: 5, offset: 29603},
+																				pos: position{line: 946, col: 5, offset: 29614},
 																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -6893,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 983, col: 5, offset: 30644},
+											pos: position{line: 984, col: 5, offset: 30655},
 											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 983, col: 5, offset: 30644},
+												pos: position{line: 984, col: 5, offset: 30655},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 983, col: 5, offset: 30644},
+														pos:   position{line: 984, col: 5, offset: 30655},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 990, col: 5, offset: 30903},
+															pos: position{line: 991, col: 5, offset: 30914},
 															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 990, col: 5, offset: 30903},
+																pos: position{line: 991, col: 5, offset: 30914},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 990, col: 5, offset: 30903},
+																		pos: position{line: 991, col: 5, offset: 30914},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21508},
+																			pos: position{line: 678, col: 14, offset: 21519},
 																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21508},
+																				pos: position{line: 678, col: 14, offset: 21519},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21515},
+																						pos: position{line: 678, col: 21, offset: 21526},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -6978,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 991, col: 5, offset: 30918},
+																		pos:        position{line: 992, col: 5, offset: 30929},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 992, col: 5, offset: 30928},
+																		pos:   position{line: 993, col: 5, offset: 30939},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89335},
+																			pos: position{line: 2817, col: 14, offset: 89346},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89335},
+																				pos: position{line: 2817, col: 14, offset: 89346},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89335},
+																					pos:        position{line: 2817, col: 14, offset: 89346},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -7044,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30681},
+														pos:   position{line: 985, col: 5, offset: 30692},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 984, col: 16, offset: 30692},
+															pos: position{line: 985, col: 16, offset: 30703},
 															expr: &choiceExpr{
-																pos: position{line: 984, col: 17, offset: 30693},
+																pos: position{line: 985, col: 17, offset: 30704},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 990, col: 5, offset: 30903},
+																		pos: position{line: 991, col: 5, offset: 30914},
 																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 990, col: 5, offset: 30903},
+																			pos: position{line: 991, col: 5, offset: 30914},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 990, col: 5, offset: 30903},
+																					pos: position{line: 991, col: 5, offset: 30914},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21508},
+																						pos: position{line: 678, col: 14, offset: 21519},
 																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21508},
+																							pos: position{line: 678, col: 14, offset: 21519},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2883, col: 11, offset: 91076},
+																									pos: position{line: 2884, col: 11, offset: 91087},
 																									expr: &anyMatcher{
-																										line: 2883, col: 13, offset: 91078,
+																										line: 2884, col: 13, offset: 91089,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21515},
+																									pos: position{line: 678, col: 21, offset: 21526},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -7128,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 991, col: 5, offset: 30918},
+																					pos:        position{line: 992, col: 5, offset: 30929},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 992, col: 5, offset: 30928},
+																					pos:   position{line: 993, col: 5, offset: 30939},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2816, col: 14, offset: 89335},
+																						pos: position{line: 2817, col: 14, offset: 89346},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2816, col: 14, offset: 89335},
+																							pos: position{line: 2817, col: 14, offset: 89346},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2816, col: 14, offset: 89335},
+																								pos:        position{line: 2817, col: 14, offset: 89346},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1798, col: 5, offset: 58111},
+																		pos: position{line: 1799, col: 5, offset: 58122},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1798, col: 5, offset: 58111},
+																			pos: position{line: 1799, col: 5, offset: 58122},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1798, col: 5, offset: 58111},
+																					pos:   position{line: 1799, col: 5, offset: 58122},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2816, col: 14, offset: 89335},
+																						pos: position{line: 2817, col: 14, offset: 89346},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2816, col: 14, offset: 89335},
+																							pos: position{line: 2817, col: 14, offset: 89346},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2816, col: 14, offset: 89335},
+																								pos:        position{line: 2817, col: 14, offset: 89346},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1799, col: 5, offset: 58135},
+																					pos: position{line: 1800, col: 5, offset: 58146},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -7269,28 +7269,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1005, col: 5, offset: 31193},
+											pos: position{line: 1006, col: 5, offset: 31204},
 											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 1005, col: 5, offset: 31193},
+												pos: position{line: 1006, col: 5, offset: 31204},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1005, col: 5, offset: 31193},
+														pos:   position{line: 1006, col: 5, offset: 31204},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24899},
+															pos: position{line: 777, col: 5, offset: 24910},
 															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24899},
+																pos: position{line: 777, col: 5, offset: 24910},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24899},
+																		pos:   position{line: 777, col: 5, offset: 24910},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24910},
+																			pos: position{line: 777, col: 16, offset: 24921},
 																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24910},
+																				pos:        position{line: 777, col: 16, offset: 24921},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7298,12 +7298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24987},
+																		pos: position{line: 779, col: 8, offset: 24998},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -7354,35 +7354,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1006, col: 5, offset: 31229},
+														pos:   position{line: 1007, col: 5, offset: 31240},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1016, col: 5, offset: 31497},
+															pos: position{line: 1017, col: 5, offset: 31508},
 															expr: &actionExpr{
-																pos: position{line: 1016, col: 6, offset: 31498},
+																pos: position{line: 1017, col: 6, offset: 31509},
 																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1016, col: 6, offset: 31498},
+																	pos: position{line: 1017, col: 6, offset: 31509},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1016, col: 6, offset: 31498},
+																			pos: position{line: 1017, col: 6, offset: 31509},
 																			expr: &choiceExpr{
-																				pos: position{line: 1013, col: 26, offset: 31446},
+																				pos: position{line: 1014, col: 26, offset: 31457},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24899},
+																						pos: position{line: 777, col: 5, offset: 24910},
 																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24899},
+																							pos: position{line: 777, col: 5, offset: 24910},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24899},
+																									pos:   position{line: 777, col: 5, offset: 24910},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24910},
+																										pos: position{line: 777, col: 16, offset: 24921},
 																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24910},
+																											pos:        position{line: 777, col: 16, offset: 24921},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7390,12 +7390,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24987},
+																									pos: position{line: 779, col: 8, offset: 24998},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -7445,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1017, col: 5, offset: 31525},
+																			pos:   position{line: 1018, col: 5, offset: 31536},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -7534,27 +7534,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1007, col: 5, offset: 31260},
+														pos:   position{line: 1008, col: 5, offset: 31271},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1007, col: 9, offset: 31264},
+															pos: position{line: 1008, col: 9, offset: 31275},
 															expr: &choiceExpr{
-																pos: position{line: 1013, col: 26, offset: 31446},
+																pos: position{line: 1014, col: 26, offset: 31457},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24899},
+																		pos: position{line: 777, col: 5, offset: 24910},
 																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24899},
+																			pos: position{line: 777, col: 5, offset: 24910},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24899},
+																					pos:   position{line: 777, col: 5, offset: 24910},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24910},
+																						pos: position{line: 777, col: 16, offset: 24921},
 																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24910},
+																							pos:        position{line: 777, col: 16, offset: 24921},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7562,12 +7562,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24987},
+																					pos: position{line: 779, col: 8, offset: 24998},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -7630,39 +7630,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1025, col: 5, offset: 31688},
+											pos: position{line: 1026, col: 5, offset: 31699},
 											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1025, col: 5, offset: 31688},
+												pos: position{line: 1026, col: 5, offset: 31699},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31688},
+														pos:   position{line: 1026, col: 5, offset: 31699},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25382},
+															pos: position{line: 791, col: 5, offset: 25393},
 															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25382},
+																pos: position{line: 791, col: 5, offset: 25393},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25382},
+																		pos:   position{line: 791, col: 5, offset: 25393},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25393},
+																			pos: position{line: 791, col: 16, offset: 25404},
 																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25393},
+																				pos: position{line: 791, col: 16, offset: 25404},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25393},
+																						pos:        position{line: 791, col: 16, offset: 25404},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25400},
+																						pos: position{line: 791, col: 23, offset: 25411},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25400},
+																							pos:        position{line: 791, col: 23, offset: 25411},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7673,12 +7673,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25484},
+																		pos: position{line: 793, col: 8, offset: 25495},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -7729,56 +7729,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1026, col: 5, offset: 31731},
+														pos: position{line: 1027, col: 5, offset: 31742},
 														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1029, col: 5, offset: 31823},
+														pos:   position{line: 1030, col: 5, offset: 31834},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1044, col: 5, offset: 32253},
+															pos: position{line: 1045, col: 5, offset: 32264},
 															expr: &actionExpr{
-																pos: position{line: 1044, col: 6, offset: 32254},
+																pos: position{line: 1045, col: 6, offset: 32265},
 																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1044, col: 6, offset: 32254},
+																	pos: position{line: 1045, col: 6, offset: 32265},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1044, col: 6, offset: 32254},
+																			pos: position{line: 1045, col: 6, offset: 32265},
 																			expr: &choiceExpr{
-																				pos: position{line: 1037, col: 5, offset: 32087},
+																				pos: position{line: 1038, col: 5, offset: 32098},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1037, col: 5, offset: 32087},
+																						pos: position{line: 1038, col: 5, offset: 32098},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1037, col: 5, offset: 32087},
+																								pos:   position{line: 1038, col: 5, offset: 32098},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25382},
+																									pos: position{line: 791, col: 5, offset: 25393},
 																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25382},
+																										pos: position{line: 791, col: 5, offset: 25393},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25382},
+																												pos:   position{line: 791, col: 5, offset: 25393},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25393},
+																													pos: position{line: 791, col: 16, offset: 25404},
 																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25393},
+																														pos: position{line: 791, col: 16, offset: 25404},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25393},
+																																pos:        position{line: 791, col: 16, offset: 25404},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25400},
+																																pos: position{line: 791, col: 23, offset: 25411},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25400},
+																																	pos:        position{line: 791, col: 23, offset: 25411},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7789,12 +7789,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25484},
+																												pos: position{line: 793, col: 8, offset: 25495},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -7845,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1038, col: 5, offset: 32122},
+																								pos: position{line: 1039, col: 5, offset: 32133},
 																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1045, col: 5, offset: 32288},
+																			pos:   position{line: 1046, col: 5, offset: 32299},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -7940,44 +7940,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 31861},
+														pos:   position{line: 1031, col: 5, offset: 31872},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1030, col: 9, offset: 31865},
+															pos: position{line: 1031, col: 9, offset: 31876},
 															expr: &choiceExpr{
-																pos: position{line: 1037, col: 5, offset: 32087},
+																pos: position{line: 1038, col: 5, offset: 32098},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1037, col: 5, offset: 32087},
+																		pos: position{line: 1038, col: 5, offset: 32098},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1037, col: 5, offset: 32087},
+																				pos:   position{line: 1038, col: 5, offset: 32098},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25382},
+																					pos: position{line: 791, col: 5, offset: 25393},
 																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25382},
+																						pos: position{line: 791, col: 5, offset: 25393},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25382},
+																								pos:   position{line: 791, col: 5, offset: 25393},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25393},
+																									pos: position{line: 791, col: 16, offset: 25404},
 																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25393},
+																										pos: position{line: 791, col: 16, offset: 25404},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25393},
+																												pos:        position{line: 791, col: 16, offset: 25404},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25400},
+																												pos: position{line: 791, col: 23, offset: 25411},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25400},
+																													pos:        position{line: 791, col: 23, offset: 25411},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7988,12 +7988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25484},
+																								pos: position{line: 793, col: 8, offset: 25495},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -8044,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1038, col: 5, offset: 32122},
+																				pos: position{line: 1039, col: 5, offset: 32133},
 																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -8063,39 +8063,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1053, col: 5, offset: 32439},
+											pos: position{line: 1054, col: 5, offset: 32450},
 											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1053, col: 5, offset: 32439},
+												pos: position{line: 1054, col: 5, offset: 32450},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1053, col: 5, offset: 32439},
+														pos:   position{line: 1054, col: 5, offset: 32450},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25632},
+															pos: position{line: 798, col: 5, offset: 25643},
 															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25632},
+																pos: position{line: 798, col: 5, offset: 25643},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25632},
+																		pos:   position{line: 798, col: 5, offset: 25643},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25643},
+																			pos: position{line: 798, col: 16, offset: 25654},
 																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25643},
+																				pos: position{line: 798, col: 16, offset: 25654},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25643},
+																						pos:        position{line: 798, col: 16, offset: 25654},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25650},
+																						pos: position{line: 798, col: 23, offset: 25661},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25650},
+																							pos:        position{line: 798, col: 23, offset: 25661},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8106,12 +8106,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25734},
+																		pos: position{line: 800, col: 8, offset: 25745},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -8162,56 +8162,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1054, col: 5, offset: 32476},
+														pos: position{line: 1055, col: 5, offset: 32487},
 														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1057, col: 5, offset: 32568},
+														pos:   position{line: 1058, col: 5, offset: 32579},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1072, col: 4, offset: 32949},
+															pos: position{line: 1073, col: 4, offset: 32960},
 															expr: &actionExpr{
-																pos: position{line: 1072, col: 5, offset: 32950},
+																pos: position{line: 1073, col: 5, offset: 32961},
 																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1072, col: 5, offset: 32950},
+																	pos: position{line: 1073, col: 5, offset: 32961},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1072, col: 5, offset: 32950},
+																			pos: position{line: 1073, col: 5, offset: 32961},
 																			expr: &choiceExpr{
-																				pos: position{line: 1065, col: 5, offset: 32796},
+																				pos: position{line: 1066, col: 5, offset: 32807},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1065, col: 5, offset: 32796},
+																						pos: position{line: 1066, col: 5, offset: 32807},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1065, col: 5, offset: 32796},
+																								pos:   position{line: 1066, col: 5, offset: 32807},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25632},
+																									pos: position{line: 798, col: 5, offset: 25643},
 																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25632},
+																										pos: position{line: 798, col: 5, offset: 25643},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25632},
+																												pos:   position{line: 798, col: 5, offset: 25643},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25643},
+																													pos: position{line: 798, col: 16, offset: 25654},
 																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25643},
+																														pos: position{line: 798, col: 16, offset: 25654},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25643},
+																																pos:        position{line: 798, col: 16, offset: 25654},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25650},
+																																pos: position{line: 798, col: 23, offset: 25661},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25650},
+																																	pos:        position{line: 798, col: 23, offset: 25661},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8222,12 +8222,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25734},
+																												pos: position{line: 800, col: 8, offset: 25745},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -8278,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1066, col: 5, offset: 32825},
+																								pos: position{line: 1067, col: 5, offset: 32836},
 																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1073, col: 5, offset: 32978},
+																			pos:   position{line: 1074, col: 5, offset: 32989},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -8373,44 +8373,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32600},
+														pos:   position{line: 1059, col: 5, offset: 32611},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1058, col: 9, offset: 32604},
+															pos: position{line: 1059, col: 9, offset: 32615},
 															expr: &choiceExpr{
-																pos: position{line: 1065, col: 5, offset: 32796},
+																pos: position{line: 1066, col: 5, offset: 32807},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1065, col: 5, offset: 32796},
+																		pos: position{line: 1066, col: 5, offset: 32807},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1065, col: 5, offset: 32796},
+																				pos:   position{line: 1066, col: 5, offset: 32807},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25632},
+																					pos: position{line: 798, col: 5, offset: 25643},
 																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25632},
+																						pos: position{line: 798, col: 5, offset: 25643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25632},
+																								pos:   position{line: 798, col: 5, offset: 25643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25643},
+																									pos: position{line: 798, col: 16, offset: 25654},
 																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25643},
+																										pos: position{line: 798, col: 16, offset: 25654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25643},
+																												pos:        position{line: 798, col: 16, offset: 25654},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25650},
+																												pos: position{line: 798, col: 23, offset: 25661},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25650},
+																													pos:        position{line: 798, col: 23, offset: 25661},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8421,12 +8421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25734},
+																								pos: position{line: 800, col: 8, offset: 25745},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -8477,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1066, col: 5, offset: 32825},
+																				pos: position{line: 1067, col: 5, offset: 32836},
 																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -8496,39 +8496,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1081, col: 5, offset: 33133},
+											pos: position{line: 1082, col: 5, offset: 33144},
 											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1081, col: 5, offset: 33133},
+												pos: position{line: 1082, col: 5, offset: 33144},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1081, col: 5, offset: 33133},
+														pos:   position{line: 1082, col: 5, offset: 33144},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25878},
+															pos: position{line: 805, col: 5, offset: 25889},
 															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25878},
+																pos: position{line: 805, col: 5, offset: 25889},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25878},
+																		pos:   position{line: 805, col: 5, offset: 25889},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25889},
+																			pos: position{line: 805, col: 16, offset: 25900},
 																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25889},
+																				pos: position{line: 805, col: 16, offset: 25900},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25889},
+																						pos:        position{line: 805, col: 16, offset: 25900},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25896},
+																						pos: position{line: 805, col: 23, offset: 25907},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25896},
+																							pos:        position{line: 805, col: 23, offset: 25907},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8539,12 +8539,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25980},
+																		pos: position{line: 807, col: 8, offset: 25991},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -8595,56 +8595,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1082, col: 5, offset: 33172},
+														pos: position{line: 1083, col: 5, offset: 33183},
 														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1085, col: 5, offset: 33264},
+														pos:   position{line: 1086, col: 5, offset: 33275},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1100, col: 4, offset: 33661},
+															pos: position{line: 1101, col: 4, offset: 33672},
 															expr: &actionExpr{
-																pos: position{line: 1100, col: 5, offset: 33662},
+																pos: position{line: 1101, col: 5, offset: 33673},
 																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1100, col: 5, offset: 33662},
+																	pos: position{line: 1101, col: 5, offset: 33673},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1100, col: 5, offset: 33662},
+																			pos: position{line: 1101, col: 5, offset: 33673},
 																			expr: &choiceExpr{
-																				pos: position{line: 1093, col: 5, offset: 33504},
+																				pos: position{line: 1094, col: 5, offset: 33515},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1093, col: 5, offset: 33504},
+																						pos: position{line: 1094, col: 5, offset: 33515},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1093, col: 5, offset: 33504},
+																								pos:   position{line: 1094, col: 5, offset: 33515},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25878},
+																									pos: position{line: 805, col: 5, offset: 25889},
 																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25878},
+																										pos: position{line: 805, col: 5, offset: 25889},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25878},
+																												pos:   position{line: 805, col: 5, offset: 25889},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25889},
+																													pos: position{line: 805, col: 16, offset: 25900},
 																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25889},
+																														pos: position{line: 805, col: 16, offset: 25900},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25889},
+																																pos:        position{line: 805, col: 16, offset: 25900},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25896},
+																																pos: position{line: 805, col: 23, offset: 25907},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25896},
+																																	pos:        position{line: 805, col: 23, offset: 25907},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8655,12 +8655,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25980},
+																												pos: position{line: 807, col: 8, offset: 25991},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -8711,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1094, col: 5, offset: 33535},
+																								pos: position{line: 1095, col: 5, offset: 33546},
 																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1101, col: 5, offset: 33692},
+																			pos:   position{line: 1102, col: 5, offset: 33703},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -8806,44 +8806,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33298},
+														pos:   position{line: 1087, col: 5, offset: 33309},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1086, col: 9, offset: 33302},
+															pos: position{line: 1087, col: 9, offset: 33313},
 															expr: &choiceExpr{
-																pos: position{line: 1093, col: 5, offset: 33504},
+																pos: position{line: 1094, col: 5, offset: 33515},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1093, col: 5, offset: 33504},
+																		pos: position{line: 1094, col: 5, offset: 33515},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1093, col: 5, offset: 33504},
+																				pos:   position{line: 1094, col: 5, offset: 33515},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25878},
+																					pos: position{line: 805, col: 5, offset: 25889},
 																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25878},
+																						pos: position{line: 805, col: 5, offset: 25889},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25878},
+																								pos:   position{line: 805, col: 5, offset: 25889},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25889},
+																									pos: position{line: 805, col: 16, offset: 25900},
 																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25889},
+																										pos: position{line: 805, col: 16, offset: 25900},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25889},
+																												pos:        position{line: 805, col: 16, offset: 25900},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25896},
+																												pos: position{line: 805, col: 23, offset: 25907},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25896},
+																													pos:        position{line: 805, col: 23, offset: 25907},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8854,12 +8854,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25980},
+																								pos: position{line: 807, col: 8, offset: 25991},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -8910,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1094, col: 5, offset: 33535},
+																				pos: position{line: 1095, col: 5, offset: 33546},
 																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2711, col: 18, offset: 86332},
+											pos: position{line: 2712, col: 18, offset: 86343},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2712, col: 9, offset: 86342},
+												pos: position{line: 2713, col: 9, offset: 86353},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2712, col: 9, offset: 86342},
+														pos: position{line: 2713, col: 9, offset: 86353},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2712, col: 9, offset: 86342},
+																pos:        position{line: 2713, col: 9, offset: 86353},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2712, col: 15, offset: 86348},
+																pos: position{line: 2713, col: 15, offset: 86359},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2713, col: 11, offset: 86381},
+														pos: position{line: 2714, col: 11, offset: 86392},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2713, col: 12, offset: 86382},
+																pos: position{line: 2714, col: 12, offset: 86393},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 12, offset: 86382},
+																		pos:        position{line: 2714, col: 12, offset: 86393},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 20, offset: 86390},
+																		pos:        position{line: 2714, col: 20, offset: 86401},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 30, offset: 86400},
+																		pos:        position{line: 2714, col: 30, offset: 86411},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 38, offset: 86408},
+																		pos:        position{line: 2714, col: 38, offset: 86419},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 48, offset: 86418},
+																		pos:        position{line: 2714, col: 48, offset: 86429},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2713, col: 56, offset: 86426},
+																		pos:        position{line: 2714, col: 56, offset: 86437},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2713, col: 65, offset: 86435},
+																pos: position{line: 2714, col: 65, offset: 86446},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2713, col: 76, offset: 86446},
+																pos: position{line: 2714, col: 76, offset: 86457},
 																expr: &choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 5, offset: 83268},
+											pos: position{line: 2603, col: 5, offset: 83279},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2602, col: 5, offset: 83268},
+												pos: position{line: 2603, col: 5, offset: 83279},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2608, col: 19, offset: 83425},
+														pos:        position{line: 2609, col: 19, offset: 83436},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2608, col: 26, offset: 83432},
+														pos: position{line: 2609, col: 26, offset: 83443},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2603, col: 5, offset: 83292},
+														pos:   position{line: 2604, col: 5, offset: 83303},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2603, col: 11, offset: 83298},
+															pos: position{line: 2604, col: 11, offset: 83309},
 															expr: &choiceExpr{
-																pos: position{line: 2603, col: 12, offset: 83299},
+																pos: position{line: 2604, col: 12, offset: 83310},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21508},
+																		pos: position{line: 678, col: 14, offset: 21519},
 																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21508},
+																			pos: position{line: 678, col: 14, offset: 21519},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91076},
+																					pos: position{line: 2884, col: 11, offset: 91087},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91078,
+																						line: 2884, col: 13, offset: 91089,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21515},
+																					pos: position{line: 678, col: 21, offset: 21526},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2615, col: 5, offset: 83544},
+																		pos: position{line: 2616, col: 5, offset: 83555},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2615, col: 5, offset: 83544},
+																			pos: position{line: 2616, col: 5, offset: 83555},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2615, col: 5, offset: 83544},
+																					pos: position{line: 2616, col: 5, offset: 83555},
 																					expr: &choiceExpr{
-																						pos: position{line: 2612, col: 22, offset: 83505},
+																						pos: position{line: 2613, col: 22, offset: 83516},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2608, col: 19, offset: 83425},
+																								pos: position{line: 2609, col: 19, offset: 83436},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2608, col: 19, offset: 83425},
+																										pos:        position{line: 2609, col: 19, offset: 83436},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2608, col: 26, offset: 83432},
+																										pos: position{line: 2609, col: 26, offset: 83443},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2888, col: 8, offset: 91140},
+																										pos: position{line: 2889, col: 8, offset: 91151},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2875, col: 12, offset: 90913},
+																												pos: position{line: 2876, col: 12, offset: 90924},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2875, col: 13, offset: 90914},
+																													pos: position{line: 2876, col: 13, offset: 90925},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 13, offset: 90914},
+																															pos:        position{line: 2876, col: 13, offset: 90925},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 20, offset: 90921},
+																															pos:        position{line: 2876, col: 20, offset: 90932},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 29, offset: 90930},
+																															pos:        position{line: 2876, col: 29, offset: 90941},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2885, col: 8, offset: 91090},
+																												pos: position{line: 2886, col: 8, offset: 91101},
 																												expr: &anyMatcher{
-																													line: 2885, col: 9, offset: 91091,
+																													line: 2886, col: 9, offset: 91102,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2616, col: 5, offset: 83567},
+																					pos:   position{line: 2617, col: 5, offset: 83578},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2617, col: 9, offset: 83585},
+																						pos: position{line: 2618, col: 9, offset: 83596},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2617, col: 10, offset: 83586},
+																								pos: position{line: 2618, col: 10, offset: 83597},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2617, col: 10, offset: 83586},
+																									pos:   position{line: 2618, col: 10, offset: 83597},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2617, col: 17, offset: 83593},
+																										pos: position{line: 2618, col: 17, offset: 83604},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2625, col: 21, offset: 83789},
+																												pos: position{line: 2626, col: 21, offset: 83800},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2625, col: 21, offset: 83789},
+																													pos: position{line: 2626, col: 21, offset: 83800},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2625, col: 21, offset: 83789},
+																															pos:   position{line: 2626, col: 21, offset: 83800},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2625, col: 27, offset: 83795},
+																																pos: position{line: 2626, col: 27, offset: 83806},
 																																expr: &actionExpr{
-																																	pos: position{line: 2630, col: 5, offset: 83870},
+																																	pos: position{line: 2631, col: 5, offset: 83881},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2630, col: 5, offset: 83870},
+																																		pos: position{line: 2631, col: 5, offset: 83881},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2630, col: 5, offset: 83870},
+																																				pos:        position{line: 2631, col: 5, offset: 83881},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2630, col: 9, offset: 83874},
+																																				pos: position{line: 2631, col: 9, offset: 83885},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2866, col: 10, offset: 90742},
+																																					pos: position{line: 2867, col: 10, offset: 90753},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2866, col: 10, offset: 90742},
+																																						pos:        position{line: 2867, col: 10, offset: 90753},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2630, col: 16, offset: 83881},
+																																				pos:   position{line: 2631, col: 16, offset: 83892},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2636, col: 5, offset: 84081},
+																																					pos: position{line: 2637, col: 5, offset: 84092},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2636, col: 5, offset: 84081},
+																																						pos:   position{line: 2637, col: 5, offset: 84092},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2636, col: 14, offset: 84090},
+																																							pos: position{line: 2637, col: 14, offset: 84101},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2636, col: 14, offset: 84090},
+																																								pos: position{line: 2637, col: 14, offset: 84101},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2636, col: 14, offset: 84090},
+																																									pos:        position{line: 2637, col: 14, offset: 84101},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2888, col: 8, offset: 91140},
+																															pos: position{line: 2889, col: 8, offset: 91151},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2875, col: 12, offset: 90913},
+																																	pos: position{line: 2876, col: 12, offset: 90924},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2875, col: 13, offset: 90914},
+																																		pos: position{line: 2876, col: 13, offset: 90925},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 13, offset: 90914},
+																																				pos:        position{line: 2876, col: 13, offset: 90925},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 20, offset: 90921},
+																																				pos:        position{line: 2876, col: 20, offset: 90932},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 29, offset: 90930},
+																																				pos:        position{line: 2876, col: 29, offset: 90941},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2885, col: 8, offset: 91090},
+																																	pos: position{line: 2886, col: 8, offset: 91101},
 																																	expr: &anyMatcher{
-																																		line: 2885, col: 9, offset: 91091,
+																																		line: 2886, col: 9, offset: 91102,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2642, col: 24, offset: 84226},
+																												pos: position{line: 2643, col: 24, offset: 84237},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2642, col: 24, offset: 84226},
+																													pos:   position{line: 2643, col: 24, offset: 84237},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2642, col: 30, offset: 84232},
+																														pos: position{line: 2643, col: 30, offset: 84243},
 																														expr: &actionExpr{
-																															pos: position{line: 2647, col: 5, offset: 84308},
+																															pos: position{line: 2648, col: 5, offset: 84319},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2647, col: 5, offset: 84308},
+																																pos: position{line: 2648, col: 5, offset: 84319},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2647, col: 5, offset: 84308},
+																																		pos: position{line: 2648, col: 5, offset: 84319},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2612, col: 22, offset: 83505},
+																																			pos: position{line: 2613, col: 22, offset: 83516},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2608, col: 19, offset: 83425},
+																																					pos: position{line: 2609, col: 19, offset: 83436},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2608, col: 19, offset: 83425},
+																																							pos:        position{line: 2609, col: 19, offset: 83436},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2608, col: 26, offset: 83432},
+																																							pos: position{line: 2609, col: 26, offset: 83443},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2866, col: 10, offset: 90742},
+																																								pos: position{line: 2867, col: 10, offset: 90753},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2866, col: 10, offset: 90742},
+																																									pos:        position{line: 2867, col: 10, offset: 90753},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2888, col: 8, offset: 91140},
+																																							pos: position{line: 2889, col: 8, offset: 91151},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2875, col: 12, offset: 90913},
+																																									pos: position{line: 2876, col: 12, offset: 90924},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2875, col: 13, offset: 90914},
+																																										pos: position{line: 2876, col: 13, offset: 90925},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 13, offset: 90914},
+																																												pos:        position{line: 2876, col: 13, offset: 90925},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 20, offset: 90921},
+																																												pos:        position{line: 2876, col: 20, offset: 90932},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 29, offset: 90930},
+																																												pos:        position{line: 2876, col: 29, offset: 90941},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91090},
+																																									pos: position{line: 2886, col: 8, offset: 91101},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91091,
+																																										line: 2886, col: 9, offset: 91102,
 																																									},
 																																								},
 																																							},
@@ -9572,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2885, col: 8, offset: 91090},
+																																					pos: position{line: 2886, col: 8, offset: 91101},
 																																					expr: &anyMatcher{
-																																						line: 2885, col: 9, offset: 91091,
+																																						line: 2886, col: 9, offset: 91102,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2648, col: 5, offset: 84331},
+																																		pos: position{line: 2649, col: 5, offset: 84342},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21508},
+																																			pos: position{line: 678, col: 14, offset: 21519},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21508},
+																																				pos: position{line: 678, col: 14, offset: 21519},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2883, col: 11, offset: 91076},
+																																						pos: position{line: 2884, col: 11, offset: 91087},
 																																						expr: &anyMatcher{
-																																							line: 2883, col: 13, offset: 91078,
+																																							line: 2884, col: 13, offset: 91089,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21515},
+																																						pos: position{line: 678, col: 21, offset: 21526},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2866, col: 10, offset: 90742},
+																																							pos: position{line: 2867, col: 10, offset: 90753},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2866, col: 10, offset: 90742},
+																																								pos:        position{line: 2867, col: 10, offset: 90753},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2888, col: 8, offset: 91140},
+																																						pos: position{line: 2889, col: 8, offset: 91151},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2875, col: 12, offset: 90913},
+																																								pos: position{line: 2876, col: 12, offset: 90924},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2875, col: 13, offset: 90914},
+																																									pos: position{line: 2876, col: 13, offset: 90925},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 13, offset: 90914},
+																																											pos:        position{line: 2876, col: 13, offset: 90925},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 20, offset: 90921},
+																																											pos:        position{line: 2876, col: 20, offset: 90932},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 29, offset: 90930},
+																																											pos:        position{line: 2876, col: 29, offset: 90941},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2885, col: 8, offset: 91090},
+																																								pos: position{line: 2886, col: 8, offset: 91101},
 																																								expr: &anyMatcher{
-																																									line: 2885, col: 9, offset: 91091,
+																																									line: 2886, col: 9, offset: 91102,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2649, col: 5, offset: 84346},
+																																		pos:   position{line: 2650, col: 5, offset: 84357},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2649, col: 12, offset: 84353},
+																																			pos: position{line: 2650, col: 12, offset: 84364},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 20, offset: 84817},
+																																				pos: position{line: 2667, col: 20, offset: 84828},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2666, col: 20, offset: 84817},
+																																					pos: position{line: 2667, col: 20, offset: 84828},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2666, col: 20, offset: 84817},
+																																						pos:        position{line: 2667, col: 20, offset: 84828},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2649, col: 31, offset: 84372},
+																																		pos:        position{line: 2650, col: 31, offset: 84383},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2649, col: 35, offset: 84376},
+																																		pos: position{line: 2650, col: 35, offset: 84387},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2866, col: 10, offset: 90742},
+																																			pos: position{line: 2867, col: 10, offset: 90753},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2866, col: 10, offset: 90742},
+																																				pos:        position{line: 2867, col: 10, offset: 90753},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2649, col: 42, offset: 84383},
+																																		pos: position{line: 2650, col: 42, offset: 84394},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2875, col: 12, offset: 90913},
+																																			pos: position{line: 2876, col: 12, offset: 90924},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2875, col: 13, offset: 90914},
+																																				pos: position{line: 2876, col: 13, offset: 90925},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 13, offset: 90914},
+																																						pos:        position{line: 2876, col: 13, offset: 90925},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 20, offset: 90921},
+																																						pos:        position{line: 2876, col: 20, offset: 90932},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 29, offset: 90930},
+																																						pos:        position{line: 2876, col: 29, offset: 90941},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2649, col: 51, offset: 84392},
+																																		pos:   position{line: 2650, col: 51, offset: 84403},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2655, col: 5, offset: 84551},
+																																			pos: position{line: 2656, col: 5, offset: 84562},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2656, col: 9, offset: 84561},
+																																				pos: position{line: 2657, col: 9, offset: 84572},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2656, col: 9, offset: 84561},
+																																					pos: position{line: 2657, col: 9, offset: 84572},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84561},
+																																							pos: position{line: 2657, col: 9, offset: 84572},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2612, col: 22, offset: 83505},
+																																								pos: position{line: 2613, col: 22, offset: 83516},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2608, col: 19, offset: 83425},
+																																										pos: position{line: 2609, col: 19, offset: 83436},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2608, col: 19, offset: 83425},
+																																												pos:        position{line: 2609, col: 19, offset: 83436},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2608, col: 26, offset: 83432},
+																																												pos: position{line: 2609, col: 26, offset: 83443},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2866, col: 10, offset: 90742},
+																																													pos: position{line: 2867, col: 10, offset: 90753},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2866, col: 10, offset: 90742},
+																																														pos:        position{line: 2867, col: 10, offset: 90753},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2888, col: 8, offset: 91140},
+																																												pos: position{line: 2889, col: 8, offset: 91151},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2875, col: 12, offset: 90913},
+																																														pos: position{line: 2876, col: 12, offset: 90924},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2875, col: 13, offset: 90914},
+																																															pos: position{line: 2876, col: 13, offset: 90925},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2885, col: 8, offset: 91090},
+																																														pos: position{line: 2886, col: 8, offset: 91101},
 																																														expr: &anyMatcher{
-																																															line: 2885, col: 9, offset: 91091,
+																																															line: 2886, col: 9, offset: 91102,
 																																														},
 																																													},
 																																												},
@@ -9801,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2885, col: 8, offset: 91090},
+																																										pos: position{line: 2886, col: 8, offset: 91101},
 																																										expr: &anyMatcher{
-																																											line: 2885, col: 9, offset: 91091,
+																																											line: 2886, col: 9, offset: 91102,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2657, col: 9, offset: 84588},
+																																							pos: position{line: 2658, col: 9, offset: 84599},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21508},
+																																								pos: position{line: 678, col: 14, offset: 21519},
 																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21508},
+																																									pos: position{line: 678, col: 14, offset: 21519},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2883, col: 11, offset: 91076},
+																																											pos: position{line: 2884, col: 11, offset: 91087},
 																																											expr: &anyMatcher{
-																																												line: 2883, col: 13, offset: 91078,
+																																												line: 2884, col: 13, offset: 91089,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21515},
+																																											pos: position{line: 678, col: 21, offset: 21526},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2866, col: 10, offset: 90742},
+																																												pos: position{line: 2867, col: 10, offset: 90753},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2866, col: 10, offset: 90742},
+																																													pos:        position{line: 2867, col: 10, offset: 90753},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2888, col: 8, offset: 91140},
+																																											pos: position{line: 2889, col: 8, offset: 91151},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2875, col: 12, offset: 90913},
+																																													pos: position{line: 2876, col: 12, offset: 90924},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2875, col: 13, offset: 90914},
+																																														pos: position{line: 2876, col: 13, offset: 90925},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2885, col: 8, offset: 91090},
+																																													pos: position{line: 2886, col: 8, offset: 91101},
 																																													expr: &anyMatcher{
-																																														line: 2885, col: 9, offset: 91091,
+																																														line: 2886, col: 9, offset: 91102,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2658, col: 9, offset: 84607},
+																																							pos: position{line: 2659, col: 9, offset: 84618},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2658, col: 11, offset: 84609},
+																																								pos: position{line: 2659, col: 11, offset: 84620},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2658, col: 11, offset: 84609},
+																																										pos:   position{line: 2659, col: 11, offset: 84620},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2658, col: 18, offset: 84616},
+																																											pos: position{line: 2659, col: 18, offset: 84627},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2666, col: 20, offset: 84817},
+																																												pos: position{line: 2667, col: 20, offset: 84828},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2666, col: 20, offset: 84817},
+																																													pos: position{line: 2667, col: 20, offset: 84828},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2666, col: 20, offset: 84817},
+																																														pos:        position{line: 2667, col: 20, offset: 84828},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2658, col: 37, offset: 84635},
+																																										pos:        position{line: 2659, col: 37, offset: 84646},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2659, col: 9, offset: 84648},
+																																							pos:   position{line: 2660, col: 9, offset: 84659},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2659, col: 18, offset: 84657},
+																																								pos: position{line: 2660, col: 18, offset: 84668},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2659, col: 18, offset: 84657},
+																																									pos: position{line: 2660, col: 18, offset: 84668},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2659, col: 18, offset: 84657},
+																																										pos:        position{line: 2660, col: 18, offset: 84668},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2661, col: 12, offset: 84719},
+																																							pos: position{line: 2662, col: 12, offset: 84730},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2888, col: 8, offset: 91140},
+																																								pos: position{line: 2889, col: 8, offset: 91151},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2875, col: 12, offset: 90913},
+																																										pos: position{line: 2876, col: 12, offset: 90924},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2875, col: 13, offset: 90914},
+																																											pos: position{line: 2876, col: 13, offset: 90925},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 13, offset: 90914},
+																																													pos:        position{line: 2876, col: 13, offset: 90925},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 20, offset: 90921},
+																																													pos:        position{line: 2876, col: 20, offset: 90932},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 29, offset: 90930},
+																																													pos:        position{line: 2876, col: 29, offset: 90941},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2885, col: 8, offset: 91090},
+																																										pos: position{line: 2886, col: 8, offset: 91101},
 																																										expr: &anyMatcher{
-																																											line: 2885, col: 9, offset: 91091,
+																																											line: 2886, col: 9, offset: 91102,
 																																										},
 																																									},
 																																								},
@@ -9989,24 +9989,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21508},
+																								pos: position{line: 678, col: 14, offset: 21519},
 																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21508},
+																									pos: position{line: 678, col: 14, offset: 21519},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2883, col: 11, offset: 91076},
+																											pos: position{line: 2884, col: 11, offset: 91087},
 																											expr: &anyMatcher{
-																												line: 2883, col: 13, offset: 91078,
+																												line: 2884, col: 13, offset: 91089,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21515},
+																											pos: position{line: 678, col: 21, offset: 21526},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2612, col: 22, offset: 83505},
+														pos: position{line: 2613, col: 22, offset: 83516},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2608, col: 19, offset: 83425},
+																pos: position{line: 2609, col: 19, offset: 83436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2608, col: 19, offset: 83425},
+																		pos:        position{line: 2609, col: 19, offset: 83436},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2608, col: 26, offset: 83432},
+																		pos: position{line: 2609, col: 26, offset: 83443},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2476, col: 22, offset: 79727},
+												pos: position{line: 2477, col: 22, offset: 79738},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2481, col: 31, offset: 79948},
+														pos:        position{line: 2482, col: 31, offset: 79959},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2481, col: 36, offset: 79953},
+														pos: position{line: 2482, col: 36, offset: 79964},
 														expr: &litMatcher{
-															pos:        position{line: 2481, col: 37, offset: 79954},
+															pos:        position{line: 2482, col: 37, offset: 79965},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2476, col: 49, offset: 79754},
+														pos:   position{line: 2477, col: 49, offset: 79765},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2812, col: 13, offset: 89268},
+																pos: position{line: 2813, col: 13, offset: 89279},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89268},
+																	pos:        position{line: 2813, col: 13, offset: 89279},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -10223,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1230, col: 5, offset: 38110},
+											pos: position{line: 1231, col: 5, offset: 38121},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1230, col: 5, offset: 38110},
+												pos: position{line: 1231, col: 5, offset: 38121},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1230, col: 5, offset: 38110},
+														pos: position{line: 1231, col: 5, offset: 38121},
 														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1233, col: 5, offset: 38168},
+														pos:   position{line: 1234, col: 5, offset: 38179},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1239, col: 5, offset: 38268},
+															pos: position{line: 1240, col: 5, offset: 38279},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1239, col: 5, offset: 38268},
+																pos: position{line: 1240, col: 5, offset: 38279},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38527},
+																		pos:        position{line: 1248, col: 30, offset: 38538},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38533},
+																		pos: position{line: 1248, col: 36, offset: 38544},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,42 +10292,42 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1239, col: 30, offset: 38293},
+																		pos:   position{line: 1240, col: 30, offset: 38304},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1249, col: 27, offset: 38571},
+																			pos: position{line: 1250, col: 27, offset: 38582},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 1249, col: 27, offset: 38571},
+																				pos: position{line: 1250, col: 27, offset: 38582},
 																				expr: &seqExpr{
-																					pos: position{line: 1249, col: 28, offset: 38572},
+																					pos: position{line: 1250, col: 28, offset: 38583},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1249, col: 28, offset: 38572},
+																							pos: position{line: 1250, col: 28, offset: 38583},
 																							expr: &seqExpr{
-																								pos: position{line: 1247, col: 30, offset: 38527},
+																								pos: position{line: 1248, col: 30, offset: 38538},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1247, col: 30, offset: 38527},
+																										pos:        position{line: 1248, col: 30, offset: 38538},
 																										val:        "---",
 																										ignoreCase: false,
 																										want:       "\"---\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1247, col: 36, offset: 38533},
+																										pos: position{line: 1248, col: 36, offset: 38544},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2888, col: 8, offset: 91140},
+																										pos: position{line: 2889, col: 8, offset: 91151},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2875, col: 12, offset: 90913},
+																												pos: position{line: 2876, col: 12, offset: 90924},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2875, col: 13, offset: 90914},
+																													pos: position{line: 2876, col: 13, offset: 90925},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 13, offset: 90914},
+																															pos:        position{line: 2876, col: 13, offset: 90925},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 20, offset: 90921},
+																															pos:        position{line: 2876, col: 20, offset: 90932},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 29, offset: 90930},
+																															pos:        position{line: 2876, col: 29, offset: 90941},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2885, col: 8, offset: 91090},
+																												pos: position{line: 2886, col: 8, offset: 91101},
 																												expr: &anyMatcher{
-																													line: 2885, col: 9, offset: 91091,
+																													line: 2886, col: 9, offset: 91102,
 																												},
 																											},
 																										},
@@ -10377,9 +10377,9 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1249, col: 54, offset: 38598},
+																							pos: position{line: 1250, col: 54, offset: 38609},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1249, col: 54, offset: 38598},
+																								pos:        position{line: 1250, col: 54, offset: 38609},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10419,18 +10419,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1247, col: 30, offset: 38527},
+																		pos:        position{line: 1248, col: 30, offset: 38538},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1247, col: 36, offset: 38533},
+																		pos: position{line: 1248, col: 36, offset: 38544},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,15 +10469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1240, col: 5, offset: 38356},
+																		pos: position{line: 1241, col: 5, offset: 38367},
 																		run: (*parser).callonDocumentFragment1422,
 																	},
 																},
@@ -10525,27 +10525,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37216},
+											pos: position{line: 1207, col: 23, offset: 37227},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37216},
+												pos: position{line: 1207, col: 23, offset: 37227},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37184},
+														pos:        position{line: 1205, col: 32, offset: 37195},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37244},
+														pos:   position{line: 1207, col: 51, offset: 37255},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37249},
+															pos: position{line: 1207, col: 56, offset: 37260},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37249},
+																pos: position{line: 1207, col: 56, offset: 37260},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37249},
+																	pos:        position{line: 1207, col: 56, offset: 37260},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10555,7 +10555,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37184},
+														pos:        position{line: 1205, col: 32, offset: 37195},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -10600,13 +10600,13 @@ var g = &grammar{
 							pos:   position{line: 303, col: 9, offset: 9186},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 318, col: 18, offset: 9736},
+								pos: position{line: 319, col: 18, offset: 9747},
 								run: (*parser).callonAttributeDeclaration5,
 								expr: &seqExpr{
-									pos: position{line: 318, col: 18, offset: 9736},
+									pos: position{line: 319, col: 18, offset: 9747},
 									exprs: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 318, col: 18, offset: 9736},
+											pos:        position{line: 319, col: 18, offset: 9747},
 											val:        "[_\\pL\\pN]",
 											chars:      []rune{'_'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10614,9 +10614,9 @@ var g = &grammar{
 											inverted:   false,
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 318, col: 28, offset: 9746},
+											pos: position{line: 319, col: 28, offset: 9757},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9747},
+												pos:        position{line: 319, col: 29, offset: 9758},
 												val:        "[-\\pL\\pN]",
 												chars:      []rune{'-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2870, col: 11, offset: 90803},
+												pos: position{line: 2871, col: 11, offset: 90814},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2870, col: 11, offset: 90803},
+													pos: position{line: 2871, col: 11, offset: 90814},
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 11, offset: 90803},
+														pos:        position{line: 2871, col: 11, offset: 90814},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10672,29 +10672,43 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 310, col: 5, offset: 9412},
+							expr: &actionExpr{
+								pos: position{line: 2867, col: 10, offset: 90753},
+								run: (*parser).callonAttributeDeclaration21,
+								expr: &charClassMatcher{
+									pos:        position{line: 2867, col: 10, offset: 90753},
+									val:        "[\\t ]",
+									chars:      []rune{'\t', ' '},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
-									run: (*parser).callonAttributeDeclaration21,
+									pos: position{line: 2876, col: 12, offset: 90924},
+									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10703,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -10716,58 +10730,58 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9803},
+			pos:  position{line: 323, col: 1, offset: 9814},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9837},
+				pos: position{line: 324, col: 5, offset: 9848},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9837},
+					pos: position{line: 324, col: 5, offset: 9848},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9837},
+							pos:   position{line: 324, col: 5, offset: 9848},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9847},
+								pos:  position{line: 324, col: 15, offset: 9858},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9887},
+							pos:   position{line: 325, col: 5, offset: 9898},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9901},
+								pos: position{line: 325, col: 19, offset: 9912},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9911},
+									pos: position{line: 326, col: 9, offset: 9922},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9911},
+										pos: position{line: 326, col: 9, offset: 9922},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9911},
+												pos:        position{line: 326, col: 9, offset: 9922},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90913},
+												pos: position{line: 2876, col: 12, offset: 90924},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90914},
+													pos: position{line: 2876, col: 13, offset: 90925},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90914},
+															pos:        position{line: 2876, col: 13, offset: 90925},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90921},
+															pos:        position{line: 2876, col: 20, offset: 90932},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90930},
+															pos:        position{line: 2876, col: 29, offset: 90941},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10776,12 +10790,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 326, col: 9, offset: 9933},
+												pos: position{line: 327, col: 9, offset: 9944},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90742},
+													pos: position{line: 2867, col: 10, offset: 90753},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90742},
+														pos:        position{line: 2867, col: 10, offset: 90753},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10790,10 +10804,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 327, col: 9, offset: 9948},
+												pos:   position{line: 328, col: 9, offset: 9959},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 327, col: 19, offset: 9958},
+													pos:  position{line: 328, col: 19, offset: 9969},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10808,17 +10822,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 338, col: 1, offset: 10288},
+			pos:  position{line: 339, col: 1, offset: 10299},
 			expr: &actionExpr{
-				pos: position{line: 339, col: 5, offset: 10330},
+				pos: position{line: 340, col: 5, offset: 10341},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 339, col: 5, offset: 10330},
+					pos:   position{line: 340, col: 5, offset: 10341},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 339, col: 14, offset: 10339},
+						pos: position{line: 340, col: 14, offset: 10350},
 						expr: &ruleRefExpr{
-							pos:  position{line: 339, col: 15, offset: 10340},
+							pos:  position{line: 340, col: 15, offset: 10351},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10827,34 +10841,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 343, col: 1, offset: 10429},
+			pos:  position{line: 344, col: 1, offset: 10440},
 			expr: &actionExpr{
-				pos: position{line: 344, col: 5, offset: 10470},
+				pos: position{line: 345, col: 5, offset: 10481},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 344, col: 5, offset: 10470},
+					pos: position{line: 345, col: 5, offset: 10481},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 344, col: 5, offset: 10470},
+							pos: position{line: 345, col: 5, offset: 10481},
 							expr: &seqExpr{
-								pos: position{line: 344, col: 7, offset: 10472},
+								pos: position{line: 345, col: 7, offset: 10483},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 344, col: 7, offset: 10472},
+										pos: position{line: 345, col: 7, offset: 10483},
 										expr: &litMatcher{
-											pos:        position{line: 344, col: 7, offset: 10472},
+											pos:        position{line: 345, col: 7, offset: 10483},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 344, col: 13, offset: 10478},
+										pos: position{line: 345, col: 13, offset: 10489},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90742},
+											pos: position{line: 2867, col: 10, offset: 90753},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90742},
+												pos:        position{line: 2867, col: 10, offset: 90753},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10863,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2888, col: 8, offset: 91140},
+										pos: position{line: 2889, col: 8, offset: 91151},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90913},
+												pos: position{line: 2876, col: 12, offset: 90924},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90914},
+													pos: position{line: 2876, col: 13, offset: 90925},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90914},
+															pos:        position{line: 2876, col: 13, offset: 90925},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90921},
+															pos:        position{line: 2876, col: 20, offset: 90932},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90930},
+															pos:        position{line: 2876, col: 29, offset: 90941},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10893,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2885, col: 8, offset: 91090},
+												pos: position{line: 2886, col: 8, offset: 91101},
 												expr: &anyMatcher{
-													line: 2885, col: 9, offset: 91091,
+													line: 2886, col: 9, offset: 91102,
 												},
 											},
 										},
@@ -10904,22 +10918,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 345, col: 5, offset: 10494},
+							pos:   position{line: 346, col: 5, offset: 10505},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 346, col: 9, offset: 10512},
+								pos: position{line: 347, col: 9, offset: 10523},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10512},
+										pos:  position{line: 347, col: 9, offset: 10523},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10541},
+										pos: position{line: 348, col: 12, offset: 10552},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10541},
+											pos: position{line: 348, col: 12, offset: 10552},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10541},
+												pos:        position{line: 348, col: 12, offset: 10552},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -10928,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2463, col: 5, offset: 79273},
+										pos: position{line: 2464, col: 5, offset: 79284},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2463, col: 5, offset: 79273},
+													pos: position{line: 2464, col: 5, offset: 79284},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2466, col: 5, offset: 79349},
+													pos:   position{line: 2467, col: 5, offset: 79360},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2467, col: 9, offset: 79367},
+														pos: position{line: 2468, col: 9, offset: 79378},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2467, col: 10, offset: 79368},
+															pos:        position{line: 2468, col: 10, offset: 79379},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10956,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90742},
+										pos: position{line: 2867, col: 10, offset: 90753},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90742},
+											pos:        position{line: 2867, col: 10, offset: 90753},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10967,44 +10981,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20128},
+										pos: position{line: 637, col: 5, offset: 20139},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20128},
+											pos: position{line: 637, col: 5, offset: 20139},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20128},
+													pos: position{line: 637, col: 5, offset: 20139},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20200},
+													pos:   position{line: 640, col: 5, offset: 20211},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20209},
+														pos: position{line: 640, col: 14, offset: 20220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20338},
+																pos: position{line: 646, col: 5, offset: 20349},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20338},
+																	pos: position{line: 646, col: 5, offset: 20349},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20338},
+																			pos:        position{line: 646, col: 5, offset: 20349},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20346},
+																			pos:   position{line: 646, col: 13, offset: 20357},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonAttributeDeclarationValueElement41,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11012,9 +11026,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11027,7 +11041,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20365},
+																			pos:        position{line: 646, col: 32, offset: 20376},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11036,28 +11050,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20606},
+																pos: position{line: 653, col: 5, offset: 20617},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20606},
+																	pos: position{line: 653, col: 5, offset: 20617},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20606},
+																			pos:        position{line: 653, col: 5, offset: 20617},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20610},
+																			pos:   position{line: 653, col: 9, offset: 20621},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonAttributeDeclarationValueElement51,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11065,9 +11079,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11080,7 +11094,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20629},
+																			pos:        position{line: 653, col: 28, offset: 20640},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11089,28 +11103,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20810},
+																pos: position{line: 659, col: 25, offset: 20821},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20810},
+																	pos: position{line: 659, col: 25, offset: 20821},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20810},
+																			pos:        position{line: 659, col: 25, offset: 20821},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20822},
+																			pos:   position{line: 659, col: 37, offset: 20833},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonAttributeDeclarationValueElement61,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11118,9 +11132,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11133,33 +11147,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20841},
+																			pos:   position{line: 659, col: 56, offset: 20852},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20847},
+																				pos: position{line: 659, col: 62, offset: 20858},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11167,12 +11181,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11189,7 +11203,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20863},
+																			pos:        position{line: 659, col: 78, offset: 20874},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11198,28 +11212,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20981},
+																pos: position{line: 663, col: 25, offset: 20992},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20981},
+																	pos: position{line: 663, col: 25, offset: 20992},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20981},
+																			pos:        position{line: 663, col: 25, offset: 20992},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20994},
+																			pos:   position{line: 663, col: 38, offset: 21005},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonAttributeDeclarationValueElement83,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11227,9 +11241,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11242,33 +11256,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21013},
+																			pos:   position{line: 663, col: 57, offset: 21024},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21019},
+																				pos: position{line: 663, col: 63, offset: 21030},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11276,12 +11290,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11298,7 +11312,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21035},
+																			pos:        position{line: 663, col: 79, offset: 21046},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11321,60 +11335,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11360},
+			pos:  position{line: 370, col: 1, offset: 11371},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11383},
+				pos: position{line: 371, col: 5, offset: 11394},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11383},
+					pos:   position{line: 371, col: 5, offset: 11394},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11394},
+						pos: position{line: 371, col: 16, offset: 11405},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11461},
+							pos: position{line: 373, col: 9, offset: 11472},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11462},
+									pos: position{line: 373, col: 10, offset: 11473},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11462},
+										pos: position{line: 373, col: 10, offset: 11473},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11462},
+												pos:   position{line: 373, col: 10, offset: 11473},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12337},
+													pos: position{line: 405, col: 5, offset: 12348},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 405, col: 5, offset: 12348},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12337},
+																pos:        position{line: 405, col: 5, offset: 12348},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12347},
+																pos:   position{line: 406, col: 5, offset: 12358},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12360},
+																	pos: position{line: 407, col: 9, offset: 12371},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12360},
+																		pos:   position{line: 407, col: 9, offset: 12371},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12369},
+																			pos: position{line: 407, col: 18, offset: 12380},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12383},
+																				pos: position{line: 408, col: 13, offset: 12394},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12384},
+																						pos: position{line: 408, col: 14, offset: 12395},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 408, col: 14, offset: 12395},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12384},
+																								pos:        position{line: 408, col: 14, offset: 12395},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11383,27 +11397,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1206, col: 23, offset: 37216},
+																						pos: position{line: 1207, col: 23, offset: 37227},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1206, col: 23, offset: 37216},
+																							pos: position{line: 1207, col: 23, offset: 37227},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37184},
+																									pos:        position{line: 1205, col: 32, offset: 37195},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1206, col: 51, offset: 37244},
+																									pos:   position{line: 1207, col: 51, offset: 37255},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1206, col: 56, offset: 37249},
+																										pos: position{line: 1207, col: 56, offset: 37260},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1206, col: 56, offset: 37249},
+																											pos: position{line: 1207, col: 56, offset: 37260},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1206, col: 56, offset: 37249},
+																												pos:        position{line: 1207, col: 56, offset: 37260},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11413,7 +11427,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37184},
+																									pos:        position{line: 1205, col: 32, offset: 37195},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11422,44 +11436,44 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20128},
+																							pos: position{line: 637, col: 5, offset: 20139},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20128},
+																									pos: position{line: 637, col: 5, offset: 20139},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20200},
+																									pos:   position{line: 640, col: 5, offset: 20211},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20209},
+																										pos: position{line: 640, col: 14, offset: 20220},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20338},
+																												pos: position{line: 646, col: 5, offset: 20349},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20338},
+																													pos: position{line: 646, col: 5, offset: 20349},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20338},
+																															pos:        position{line: 646, col: 5, offset: 20349},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20346},
+																															pos:   position{line: 646, col: 13, offset: 20357},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 319, col: 18, offset: 9747},
 																																run: (*parser).callonBlockAttributes36,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 319, col: 18, offset: 9747},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11467,9 +11481,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 319, col: 29, offset: 9758},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11482,7 +11496,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20365},
+																															pos:        position{line: 646, col: 32, offset: 20376},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11491,28 +11505,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20606},
+																												pos: position{line: 653, col: 5, offset: 20617},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20606},
+																													pos: position{line: 653, col: 5, offset: 20617},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20606},
+																															pos:        position{line: 653, col: 5, offset: 20617},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20610},
+																															pos:   position{line: 653, col: 9, offset: 20621},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 319, col: 18, offset: 9747},
 																																run: (*parser).callonBlockAttributes46,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 319, col: 18, offset: 9747},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11520,9 +11534,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 319, col: 29, offset: 9758},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11535,7 +11549,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20629},
+																															pos:        position{line: 653, col: 28, offset: 20640},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11544,28 +11558,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20810},
+																												pos: position{line: 659, col: 25, offset: 20821},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20810},
+																													pos: position{line: 659, col: 25, offset: 20821},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20810},
+																															pos:        position{line: 659, col: 25, offset: 20821},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20822},
+																															pos:   position{line: 659, col: 37, offset: 20833},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 319, col: 18, offset: 9747},
 																																run: (*parser).callonBlockAttributes56,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 319, col: 18, offset: 9747},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11573,9 +11587,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 319, col: 29, offset: 9758},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11588,33 +11602,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20841},
+																															pos:   position{line: 659, col: 56, offset: 20852},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20847},
+																																pos: position{line: 659, col: 62, offset: 20858},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21142},
+																																	pos: position{line: 667, col: 17, offset: 21153},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21142},
+																																		pos: position{line: 667, col: 17, offset: 21153},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21142},
+																																				pos:        position{line: 667, col: 17, offset: 21153},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21146},
+																																				pos:   position{line: 667, col: 21, offset: 21157},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21153},
+																																					pos: position{line: 667, col: 28, offset: 21164},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21153},
+																																							pos: position{line: 667, col: 28, offset: 21164},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21153},
+																																								pos:        position{line: 667, col: 28, offset: 21164},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11622,12 +11636,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21207},
+																																							pos: position{line: 669, col: 9, offset: 21218},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21207},
+																																								pos: position{line: 669, col: 9, offset: 21218},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21207},
+																																									pos:        position{line: 669, col: 9, offset: 21218},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11644,7 +11658,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20863},
+																															pos:        position{line: 659, col: 78, offset: 20874},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11653,28 +11667,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20981},
+																												pos: position{line: 663, col: 25, offset: 20992},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20981},
+																													pos: position{line: 663, col: 25, offset: 20992},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20981},
+																															pos:        position{line: 663, col: 25, offset: 20992},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20994},
+																															pos:   position{line: 663, col: 38, offset: 21005},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 319, col: 18, offset: 9747},
 																																run: (*parser).callonBlockAttributes78,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 319, col: 18, offset: 9747},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11682,9 +11696,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 319, col: 29, offset: 9758},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11697,33 +11711,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 21013},
+																															pos:   position{line: 663, col: 57, offset: 21024},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21019},
+																																pos: position{line: 663, col: 63, offset: 21030},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21142},
+																																	pos: position{line: 667, col: 17, offset: 21153},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21142},
+																																		pos: position{line: 667, col: 17, offset: 21153},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21142},
+																																				pos:        position{line: 667, col: 17, offset: 21153},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21146},
+																																				pos:   position{line: 667, col: 21, offset: 21157},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21153},
+																																					pos: position{line: 667, col: 28, offset: 21164},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21153},
+																																							pos: position{line: 667, col: 28, offset: 21164},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21153},
+																																								pos:        position{line: 667, col: 28, offset: 21164},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11731,12 +11745,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21207},
+																																							pos: position{line: 669, col: 9, offset: 21218},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21207},
+																																								pos: position{line: 669, col: 9, offset: 21218},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21207},
+																																									pos:        position{line: 669, col: 9, offset: 21218},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11753,7 +11767,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21035},
+																															pos:        position{line: 663, col: 79, offset: 21046},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11768,10 +11782,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12617},
+																						pos: position{line: 413, col: 16, offset: 12628},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12617},
+																							pos:        position{line: 413, col: 16, offset: 12628},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11784,7 +11798,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12803},
+																pos:        position{line: 419, col: 5, offset: 12814},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11794,12 +11808,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11487},
+												pos: position{line: 373, col: 35, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90742},
+													pos: position{line: 2867, col: 10, offset: 90753},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90742},
+														pos:        position{line: 2867, col: 10, offset: 90753},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11808,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91140},
+												pos: position{line: 2889, col: 8, offset: 91151},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90913},
+														pos: position{line: 2876, col: 12, offset: 90924},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90914},
+															pos: position{line: 2876, col: 13, offset: 90925},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90914},
+																	pos:        position{line: 2876, col: 13, offset: 90925},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90921},
+																	pos:        position{line: 2876, col: 20, offset: 90932},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90930},
+																	pos:        position{line: 2876, col: 29, offset: 90941},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11838,34 +11852,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91090},
+														pos: position{line: 2886, col: 8, offset: 91101},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91091,
+															line: 2886, col: 9, offset: 91102,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11498},
+												pos: position{line: 373, col: 46, offset: 11509},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11874,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11904,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -11919,30 +11933,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11619},
+									pos: position{line: 377, col: 12, offset: 11630},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11619},
+										pos: position{line: 377, col: 12, offset: 11630},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11619},
+												pos:   position{line: 377, col: 12, offset: 11630},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12922},
+													pos: position{line: 424, col: 19, offset: 12933},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12922},
+														pos: position{line: 424, col: 19, offset: 12933},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12922},
+																pos:        position{line: 424, col: 19, offset: 12933},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12931},
+																pos: position{line: 425, col: 5, offset: 12942},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 12932},
+																	pos:        position{line: 425, col: 6, offset: 12943},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -11950,20 +11964,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13044},
+																pos:   position{line: 426, col: 5, offset: 13055},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13053},
+																	pos: position{line: 426, col: 14, offset: 13064},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13063},
+																		pos: position{line: 427, col: 9, offset: 13074},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2760, col: 14, offset: 87911},
+																				pos: position{line: 2761, col: 14, offset: 87922},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2760, col: 14, offset: 87911},
+																					pos: position{line: 2761, col: 14, offset: 87922},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2760, col: 14, offset: 87911},
+																						pos:        position{line: 2761, col: 14, offset: 87922},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11972,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11983,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2783, col: 5, offset: 88396},
+																				pos: position{line: 2784, col: 5, offset: 88407},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2784, col: 9, offset: 88406},
+																					pos: position{line: 2785, col: 9, offset: 88417},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2784, col: 10, offset: 88407},
+																							pos:        position{line: 2785, col: 10, offset: 88418},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2786, col: 13, offset: 88504},
+																							pos: position{line: 2787, col: 13, offset: 88515},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2786, col: 13, offset: 88504},
+																									pos: position{line: 2787, col: 13, offset: 88515},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2789, col: 13, offset: 88604},
+																									pos:        position{line: 2790, col: 13, offset: 88615},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12011,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2789, col: 19, offset: 88610},
+																							pos:        position{line: 2790, col: 19, offset: 88621},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2792, col: 13, offset: 88648},
+																							pos: position{line: 2793, col: 13, offset: 88659},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2792, col: 13, offset: 88648},
+																									pos: position{line: 2793, col: 13, offset: 88659},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2795, col: 14, offset: 88741},
+																									pos:        position{line: 2796, col: 14, offset: 88752},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12033,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2797, col: 12, offset: 88785},
+																							pos: position{line: 2798, col: 12, offset: 88796},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2797, col: 12, offset: 88785},
+																									pos:        position{line: 2798, col: 12, offset: 88796},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2797, col: 16, offset: 88789},
+																									pos: position{line: 2798, col: 16, offset: 88800},
 																									expr: &litMatcher{
-																										pos:        position{line: 2797, col: 17, offset: 88790},
+																										pos:        position{line: 2798, col: 17, offset: 88801},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12056,28 +12070,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20338},
+																					pos: position{line: 646, col: 5, offset: 20349},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20338},
+																							pos:        position{line: 646, col: 5, offset: 20349},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20346},
+																							pos:   position{line: 646, col: 13, offset: 20357},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonBlockAttributes160,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12085,9 +12099,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12100,7 +12114,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20365},
+																							pos:        position{line: 646, col: 32, offset: 20376},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12109,28 +12123,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20606},
+																				pos: position{line: 653, col: 5, offset: 20617},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20606},
+																					pos: position{line: 653, col: 5, offset: 20617},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20606},
+																							pos:        position{line: 653, col: 5, offset: 20617},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20610},
+																							pos:   position{line: 653, col: 9, offset: 20621},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonBlockAttributes170,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12138,9 +12152,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12153,7 +12167,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20629},
+																							pos:        position{line: 653, col: 28, offset: 20640},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12162,28 +12176,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 658, col: 25, offset: 20810},
+																				pos: position{line: 659, col: 25, offset: 20821},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &seqExpr{
-																					pos: position{line: 658, col: 25, offset: 20810},
+																					pos: position{line: 659, col: 25, offset: 20821},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 658, col: 25, offset: 20810},
+																							pos:        position{line: 659, col: 25, offset: 20821},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 37, offset: 20822},
+																							pos:   position{line: 659, col: 37, offset: 20833},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonBlockAttributes180,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12191,9 +12205,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12206,33 +12220,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 658, col: 56, offset: 20841},
+																							pos:   position{line: 659, col: 56, offset: 20852},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 658, col: 62, offset: 20847},
+																								pos: position{line: 659, col: 62, offset: 20858},
 																								expr: &actionExpr{
-																									pos: position{line: 666, col: 17, offset: 21142},
+																									pos: position{line: 667, col: 17, offset: 21153},
 																									run: (*parser).callonBlockAttributes187,
 																									expr: &seqExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 666, col: 17, offset: 21142},
+																												pos:        position{line: 667, col: 17, offset: 21153},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 666, col: 21, offset: 21146},
+																												pos:   position{line: 667, col: 21, offset: 21157},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 666, col: 28, offset: 21153},
+																													pos: position{line: 667, col: 28, offset: 21164},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 666, col: 28, offset: 21153},
+																															pos: position{line: 667, col: 28, offset: 21164},
 																															run: (*parser).callonBlockAttributes192,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 666, col: 28, offset: 21153},
+																																pos:        position{line: 667, col: 28, offset: 21164},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12240,12 +12254,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 668, col: 9, offset: 21207},
+																															pos: position{line: 669, col: 9, offset: 21218},
 																															run: (*parser).callonBlockAttributes194,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 668, col: 9, offset: 21207},
+																																	pos:        position{line: 669, col: 9, offset: 21218},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12262,7 +12276,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 658, col: 78, offset: 20863},
+																							pos:        position{line: 659, col: 78, offset: 20874},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12271,28 +12285,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 662, col: 25, offset: 20981},
+																				pos: position{line: 663, col: 25, offset: 20992},
 																				run: (*parser).callonBlockAttributes198,
 																				expr: &seqExpr{
-																					pos: position{line: 662, col: 25, offset: 20981},
+																					pos: position{line: 663, col: 25, offset: 20992},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 662, col: 25, offset: 20981},
+																							pos:        position{line: 663, col: 25, offset: 20992},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 662, col: 38, offset: 20994},
+																							pos:   position{line: 663, col: 38, offset: 21005},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								run: (*parser).callonBlockAttributes202,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 319, col: 18, offset: 9747},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12300,9 +12314,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 319, col: 29, offset: 9758},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12315,33 +12329,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 662, col: 57, offset: 21013},
+																							pos:   position{line: 663, col: 57, offset: 21024},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 662, col: 63, offset: 21019},
+																								pos: position{line: 663, col: 63, offset: 21030},
 																								expr: &actionExpr{
-																									pos: position{line: 666, col: 17, offset: 21142},
+																									pos: position{line: 667, col: 17, offset: 21153},
 																									run: (*parser).callonBlockAttributes209,
 																									expr: &seqExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 666, col: 17, offset: 21142},
+																												pos:        position{line: 667, col: 17, offset: 21153},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 666, col: 21, offset: 21146},
+																												pos:   position{line: 667, col: 21, offset: 21157},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 666, col: 28, offset: 21153},
+																													pos: position{line: 667, col: 28, offset: 21164},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 666, col: 28, offset: 21153},
+																															pos: position{line: 667, col: 28, offset: 21164},
 																															run: (*parser).callonBlockAttributes214,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 666, col: 28, offset: 21153},
+																																pos:        position{line: 667, col: 28, offset: 21164},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12349,12 +12363,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 668, col: 9, offset: 21207},
+																															pos: position{line: 669, col: 9, offset: 21218},
 																															run: (*parser).callonBlockAttributes216,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 668, col: 9, offset: 21207},
+																																	pos:        position{line: 669, col: 9, offset: 21218},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12371,7 +12385,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 662, col: 79, offset: 21035},
+																							pos:        position{line: 663, col: 79, offset: 21046},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12380,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2805, col: 12, offset: 89050},
+																				pos: position{line: 2806, col: 12, offset: 89061},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2805, col: 12, offset: 89050},
+																					pos:        position{line: 2806, col: 12, offset: 89061},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12399,12 +12413,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11642},
+												pos: position{line: 377, col: 35, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90742},
+													pos: position{line: 2867, col: 10, offset: 90753},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90742},
+														pos:        position{line: 2867, col: 10, offset: 90753},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12413,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91140},
+												pos: position{line: 2889, col: 8, offset: 91151},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90913},
+														pos: position{line: 2876, col: 12, offset: 90924},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90914},
+															pos: position{line: 2876, col: 13, offset: 90925},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90914},
+																	pos:        position{line: 2876, col: 13, offset: 90925},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90921},
+																	pos:        position{line: 2876, col: 20, offset: 90932},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90930},
+																	pos:        position{line: 2876, col: 29, offset: 90941},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12443,34 +12457,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91090},
+														pos: position{line: 2886, col: 8, offset: 91101},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91091,
+															line: 2886, col: 9, offset: 91102,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11653},
+												pos: position{line: 377, col: 46, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12479,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12509,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -12524,26 +12538,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11743},
+									pos: position{line: 381, col: 12, offset: 11754},
 									run: (*parser).callonBlockAttributes249,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11743},
+										pos: position{line: 381, col: 12, offset: 11754},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11743},
+												pos:   position{line: 381, col: 12, offset: 11754},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11755},
+													pos:  position{line: 381, col: 24, offset: 11766},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11775},
+												pos: position{line: 381, col: 44, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90742},
+													pos: position{line: 2867, col: 10, offset: 90753},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90742},
+														pos:        position{line: 2867, col: 10, offset: 90753},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12552,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91140},
+												pos: position{line: 2889, col: 8, offset: 91151},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90913},
+														pos: position{line: 2876, col: 12, offset: 90924},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90914},
+															pos: position{line: 2876, col: 13, offset: 90925},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90914},
+																	pos:        position{line: 2876, col: 13, offset: 90925},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90921},
+																	pos:        position{line: 2876, col: 20, offset: 90932},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90930},
+																	pos:        position{line: 2876, col: 29, offset: 90941},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12582,34 +12596,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91090},
+														pos: position{line: 2886, col: 8, offset: 91101},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91091,
+															line: 2886, col: 9, offset: 91102,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11786},
+												pos: position{line: 381, col: 55, offset: 11797},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12618,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12648,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -12670,51 +12684,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 11970},
+			pos:  position{line: 389, col: 1, offset: 11981},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 11994},
+				pos: position{line: 390, col: 5, offset: 12005},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 11994},
+					pos: position{line: 390, col: 5, offset: 12005},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 11994},
+							pos:        position{line: 390, col: 5, offset: 12005},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12002},
+							pos:   position{line: 391, col: 5, offset: 12013},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12013},
+								pos: position{line: 391, col: 16, offset: 12024},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12023},
+									pos: position{line: 392, col: 9, offset: 12034},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12037},
+										pos: position{line: 393, col: 13, offset: 12048},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12037},
+												pos: position{line: 393, col: 13, offset: 12048},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12038},
+													pos:        position{line: 393, col: 14, offset: 12049},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12070},
+												pos:   position{line: 394, col: 13, offset: 12081},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12081},
+													pos: position{line: 394, col: 24, offset: 12092},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12081},
+															pos:  position{line: 394, col: 24, offset: 12092},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12103},
+															pos:  position{line: 394, col: 46, offset: 12114},
 															name: "NamedAttribute",
 														},
 													},
@@ -12726,7 +12740,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12186},
+							pos:        position{line: 399, col: 5, offset: 12197},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12737,62 +12751,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13463},
+			pos:  position{line: 438, col: 1, offset: 13474},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13489},
+				pos: position{line: 439, col: 5, offset: 13500},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13489},
+					pos: position{line: 439, col: 5, offset: 13500},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13489},
+							pos: position{line: 439, col: 5, offset: 13500},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13490},
+								pos:        position{line: 439, col: 6, offset: 13501},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13494},
+							pos:        position{line: 439, col: 10, offset: 13505},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13498},
+							pos: position{line: 439, col: 14, offset: 13509},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13499},
+								pos:        position{line: 439, col: 15, offset: 13510},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13612},
+							pos:   position{line: 440, col: 5, offset: 13623},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13638},
+								pos: position{line: 440, col: 31, offset: 13649},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13639},
+									pos:  position{line: 440, col: 32, offset: 13650},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13671},
+							pos:   position{line: 441, col: 5, offset: 13682},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13687},
+								pos: position{line: 441, col: 21, offset: 13698},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13688},
+									pos: position{line: 441, col: 22, offset: 13699},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13688},
+											pos:  position{line: 441, col: 22, offset: 13699},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13710},
+											pos:  position{line: 441, col: 44, offset: 13721},
 											name: "NamedAttribute",
 										},
 									},
@@ -12800,7 +12814,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13731},
+							pos:        position{line: 442, col: 5, offset: 13742},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12811,69 +12825,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14259},
+			pos:  position{line: 455, col: 1, offset: 14270},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14293},
+				pos: position{line: 456, col: 5, offset: 14304},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14293},
+					pos: position{line: 456, col: 5, offset: 14304},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14293},
+							pos:   position{line: 456, col: 5, offset: 14304},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14298},
+								pos: position{line: 456, col: 10, offset: 14309},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14308},
+									pos:  position{line: 457, col: 9, offset: 14319},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14338},
+							pos:   position{line: 459, col: 5, offset: 14349},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14345},
+								pos: position{line: 459, col: 12, offset: 14356},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14356},
+									pos: position{line: 460, col: 9, offset: 14367},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14356},
+										pos: position{line: 460, col: 9, offset: 14367},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14356},
+												pos: position{line: 460, col: 9, offset: 14367},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14357},
+													pos:        position{line: 460, col: 10, offset: 14368},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14361},
+												pos: position{line: 460, col: 14, offset: 14372},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14362},
+													pos:        position{line: 460, col: 15, offset: 14373},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14374},
+												pos:   position{line: 461, col: 9, offset: 14385},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14394},
+													pos: position{line: 462, col: 13, offset: 14405},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14394},
+															pos:  position{line: 462, col: 13, offset: 14405},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14430},
+															pos:  position{line: 463, col: 15, offset: 14441},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14469},
+															pos:  position{line: 464, col: 15, offset: 14480},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12885,23 +12899,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14545},
+							pos: position{line: 467, col: 8, offset: 14556},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14546},
+								pos: position{line: 467, col: 9, offset: 14557},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14546},
+										pos:        position{line: 467, col: 9, offset: 14557},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14550},
+										pos: position{line: 467, col: 13, offset: 14561},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90742},
+											pos: position{line: 2867, col: 10, offset: 90753},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90742},
+												pos:        position{line: 2867, col: 10, offset: 90753},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12913,7 +12927,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14564},
+							pos: position{line: 468, col: 5, offset: 14575},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12922,24 +12936,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14980},
+			pos:  position{line: 484, col: 1, offset: 14991},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 15004},
+				pos: position{line: 484, col: 25, offset: 15015},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 15004},
+					pos: position{line: 484, col: 25, offset: 15015},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 15004},
+							pos:        position{line: 484, col: 25, offset: 15015},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 15008},
+							pos:   position{line: 484, col: 29, offset: 15019},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 15012},
+								pos:  position{line: 484, col: 33, offset: 15023},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12949,15 +12963,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15086},
+			pos:  position{line: 488, col: 1, offset: 15097},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15108},
+				pos: position{line: 488, col: 23, offset: 15119},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15108},
+					pos:   position{line: 488, col: 23, offset: 15119},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15115},
+						pos:  position{line: 488, col: 30, offset: 15126},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12965,24 +12979,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15241},
+			pos:  position{line: 493, col: 1, offset: 15252},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15270},
+				pos: position{line: 493, col: 30, offset: 15281},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15270},
+					pos: position{line: 493, col: 30, offset: 15281},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15270},
+							pos:        position{line: 493, col: 30, offset: 15281},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15274},
+							pos:   position{line: 493, col: 34, offset: 15285},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15280},
+								pos:  position{line: 493, col: 40, offset: 15291},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12992,24 +13006,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15402},
+			pos:  position{line: 498, col: 1, offset: 15413},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15430},
+				pos: position{line: 498, col: 29, offset: 15441},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15430},
+					pos: position{line: 498, col: 29, offset: 15441},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15430},
+							pos:        position{line: 498, col: 29, offset: 15441},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15434},
+							pos:   position{line: 498, col: 33, offset: 15445},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15442},
+								pos:  position{line: 498, col: 41, offset: 15453},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13019,43 +13033,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15555},
+			pos:  position{line: 503, col: 1, offset: 15566},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15587},
+				pos: position{line: 504, col: 5, offset: 15598},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15587},
+						pos:  position{line: 504, col: 5, offset: 15598},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15621},
+						pos:  position{line: 505, col: 7, offset: 15632},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15655},
+						pos: position{line: 506, col: 7, offset: 15666},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15655},
+							pos: position{line: 506, col: 7, offset: 15666},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15655},
+									pos:   position{line: 506, col: 7, offset: 15666},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15664},
+										pos: position{line: 506, col: 16, offset: 15675},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15846},
+											pos: position{line: 509, col: 9, offset: 15857},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15846},
+													pos:  position{line: 509, col: 9, offset: 15857},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15872},
+													pos: position{line: 510, col: 12, offset: 15883},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15872},
+														pos: position{line: 510, col: 12, offset: 15883},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15872},
+															pos:        position{line: 510, col: 12, offset: 15883},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13064,44 +13078,44 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20128},
+													pos: position{line: 637, col: 5, offset: 20139},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20128},
+														pos: position{line: 637, col: 5, offset: 20139},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20128},
+																pos: position{line: 637, col: 5, offset: 20139},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20200},
+																pos:   position{line: 640, col: 5, offset: 20211},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20209},
+																	pos: position{line: 640, col: 14, offset: 20220},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20338},
+																			pos: position{line: 646, col: 5, offset: 20349},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20338},
+																				pos: position{line: 646, col: 5, offset: 20349},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20338},
+																						pos:        position{line: 646, col: 5, offset: 20349},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20346},
+																						pos:   position{line: 646, col: 13, offset: 20357},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 319, col: 18, offset: 9747},
 																							run: (*parser).callonShortHandAttributeValue22,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 319, col: 18, offset: 9747},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13109,9 +13123,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 319, col: 29, offset: 9758},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13124,7 +13138,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20365},
+																						pos:        position{line: 646, col: 32, offset: 20376},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13133,28 +13147,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20606},
+																			pos: position{line: 653, col: 5, offset: 20617},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20606},
+																				pos: position{line: 653, col: 5, offset: 20617},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20606},
+																						pos:        position{line: 653, col: 5, offset: 20617},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20610},
+																						pos:   position{line: 653, col: 9, offset: 20621},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 319, col: 18, offset: 9747},
 																							run: (*parser).callonShortHandAttributeValue32,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 319, col: 18, offset: 9747},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13162,9 +13176,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 319, col: 29, offset: 9758},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13177,7 +13191,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20629},
+																						pos:        position{line: 653, col: 28, offset: 20640},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13186,28 +13200,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20810},
+																			pos: position{line: 659, col: 25, offset: 20821},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20810},
+																				pos: position{line: 659, col: 25, offset: 20821},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20810},
+																						pos:        position{line: 659, col: 25, offset: 20821},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20822},
+																						pos:   position{line: 659, col: 37, offset: 20833},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 319, col: 18, offset: 9747},
 																							run: (*parser).callonShortHandAttributeValue42,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 319, col: 18, offset: 9747},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13215,9 +13229,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 319, col: 29, offset: 9758},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13230,33 +13244,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20841},
+																						pos:   position{line: 659, col: 56, offset: 20852},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20847},
+																							pos: position{line: 659, col: 62, offset: 20858},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21142},
+																								pos: position{line: 667, col: 17, offset: 21153},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21142},
+																									pos: position{line: 667, col: 17, offset: 21153},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21142},
+																											pos:        position{line: 667, col: 17, offset: 21153},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21146},
+																											pos:   position{line: 667, col: 21, offset: 21157},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21153},
+																															pos:        position{line: 667, col: 28, offset: 21164},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13264,12 +13278,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21207},
+																														pos: position{line: 669, col: 9, offset: 21218},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21207},
+																															pos: position{line: 669, col: 9, offset: 21218},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21207},
+																																pos:        position{line: 669, col: 9, offset: 21218},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13286,7 +13300,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20863},
+																						pos:        position{line: 659, col: 78, offset: 20874},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13295,28 +13309,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20981},
+																			pos: position{line: 663, col: 25, offset: 20992},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20981},
+																				pos: position{line: 663, col: 25, offset: 20992},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20981},
+																						pos:        position{line: 663, col: 25, offset: 20992},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20994},
+																						pos:   position{line: 663, col: 38, offset: 21005},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 319, col: 18, offset: 9747},
 																							run: (*parser).callonShortHandAttributeValue64,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 319, col: 18, offset: 9747},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 319, col: 18, offset: 9747},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13324,9 +13338,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 319, col: 29, offset: 9758},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13339,33 +13353,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 21013},
+																						pos:   position{line: 663, col: 57, offset: 21024},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21019},
+																							pos: position{line: 663, col: 63, offset: 21030},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21142},
+																								pos: position{line: 667, col: 17, offset: 21153},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21142},
+																									pos: position{line: 667, col: 17, offset: 21153},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21142},
+																											pos:        position{line: 667, col: 17, offset: 21153},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21146},
+																											pos:   position{line: 667, col: 21, offset: 21157},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21153},
+																															pos:        position{line: 667, col: 28, offset: 21164},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13373,12 +13387,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21207},
+																														pos: position{line: 669, col: 9, offset: 21218},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21207},
+																															pos: position{line: 669, col: 9, offset: 21218},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21207},
+																																pos:        position{line: 669, col: 9, offset: 21218},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13395,7 +13409,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21035},
+																						pos:        position{line: 663, col: 79, offset: 21046},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13410,10 +13424,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16040},
+													pos: position{line: 515, col: 12, offset: 16051},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16040},
+														pos:        position{line: 515, col: 12, offset: 16051},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13424,19 +13438,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16128},
+									pos: position{line: 519, col: 5, offset: 16139},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16130},
+										pos: position{line: 519, col: 7, offset: 16141},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16132},
+											pos: position{line: 519, col: 9, offset: 16143},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16132},
+													pos: position{line: 519, col: 9, offset: 16143},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13445,7 +13459,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16139},
+													pos:        position{line: 519, col: 16, offset: 16150},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13462,45 +13476,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16217},
+			pos:  position{line: 524, col: 1, offset: 16228},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16240},
+				pos: position{line: 524, col: 24, offset: 16251},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16246},
+						pos: position{line: 525, col: 5, offset: 16257},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16246},
+							pos: position{line: 525, col: 5, offset: 16257},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16246},
+									pos:   position{line: 525, col: 5, offset: 16257},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16253},
+										pos:  position{line: 525, col: 12, offset: 16264},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16270},
+									pos: position{line: 525, col: 29, offset: 16281},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16270},
+											pos: position{line: 525, col: 29, offset: 16281},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16271},
+												pos: position{line: 525, col: 30, offset: 16282},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16271},
+														pos:        position{line: 525, col: 30, offset: 16282},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16275},
+														pos: position{line: 525, col: 34, offset: 16286},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13512,9 +13526,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16286},
+											pos: position{line: 525, col: 45, offset: 16297},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16287},
+												pos:        position{line: 525, col: 46, offset: 16298},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13526,24 +13540,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16432},
+						pos: position{line: 530, col: 6, offset: 16443},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16432},
+							pos: position{line: 530, col: 6, offset: 16443},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16432},
+									pos:   position{line: 530, col: 6, offset: 16443},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16439},
+										pos: position{line: 530, col: 13, offset: 16450},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16439},
+												pos: position{line: 530, col: 13, offset: 16450},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90742},
+													pos: position{line: 2867, col: 10, offset: 90753},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90742},
+														pos:        position{line: 2867, col: 10, offset: 90753},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13552,24 +13566,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16447},
+												pos: position{line: 530, col: 21, offset: 16458},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16448},
+														pos: position{line: 530, col: 22, offset: 16459},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16448},
+																pos:        position{line: 530, col: 22, offset: 16459},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16452},
+																pos: position{line: 530, col: 26, offset: 16463},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13580,9 +13594,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16462},
+														pos: position{line: 530, col: 36, offset: 16473},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16463},
+															pos:        position{line: 530, col: 37, offset: 16474},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13594,7 +13608,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16473},
+									pos: position{line: 531, col: 5, offset: 16484},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13605,29 +13619,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16788},
+			pos:  position{line: 541, col: 1, offset: 16799},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16811},
+				pos: position{line: 542, col: 5, offset: 16822},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16811},
+					pos: position{line: 542, col: 5, offset: 16822},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16811},
+							pos:   position{line: 542, col: 5, offset: 16822},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17099},
+								pos: position{line: 550, col: 22, offset: 17110},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17099},
+									pos: position{line: 550, col: 22, offset: 17110},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17099},
+											pos: position{line: 550, col: 22, offset: 17110},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90742},
+												pos: position{line: 2867, col: 10, offset: 90753},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90742},
+													pos:        position{line: 2867, col: 10, offset: 90753},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13636,9 +13650,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17106},
+											pos: position{line: 550, col: 29, offset: 17117},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17106},
+												pos:        position{line: 550, col: 29, offset: 17117},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13650,18 +13664,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16840},
+							pos:        position{line: 543, col: 5, offset: 16851},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16844},
+							pos: position{line: 543, col: 9, offset: 16855},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13670,31 +13684,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16856},
+							pos:   position{line: 544, col: 5, offset: 16867},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16863},
+								pos:  position{line: 544, col: 12, offset: 16874},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16879},
+							pos: position{line: 544, col: 28, offset: 16890},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16880},
+								pos: position{line: 544, col: 29, offset: 16891},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16880},
+										pos:        position{line: 544, col: 29, offset: 16891},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16884},
+										pos: position{line: 544, col: 33, offset: 16895},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90742},
+											pos: position{line: 2867, col: 10, offset: 90753},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90742},
+												pos:        position{line: 2867, col: 10, offset: 90753},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13711,48 +13725,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17163},
+			pos:  position{line: 554, col: 1, offset: 17174},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17186},
+				pos: position{line: 555, col: 5, offset: 17197},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17186},
+					pos: position{line: 555, col: 5, offset: 17197},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17186},
+							pos:   position{line: 555, col: 5, offset: 17197},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17202},
+								pos: position{line: 556, col: 9, offset: 17213},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17202},
+										pos:  position{line: 556, col: 9, offset: 17213},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17240},
+										pos:  position{line: 557, col: 11, offset: 17251},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17278},
+										pos:  position{line: 558, col: 11, offset: 17289},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17312},
+							pos: position{line: 560, col: 5, offset: 17323},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17314},
+								pos: position{line: 560, col: 7, offset: 17325},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17316},
+									pos: position{line: 560, col: 9, offset: 17327},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17316},
+											pos: position{line: 560, col: 9, offset: 17327},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90742},
+												pos: position{line: 2867, col: 10, offset: 90753},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90742},
+													pos:        position{line: 2867, col: 10, offset: 90753},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13761,7 +13775,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17323},
+											pos:        position{line: 560, col: 16, offset: 17334},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13776,38 +13790,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17364},
+			pos:  position{line: 564, col: 1, offset: 17375},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17399},
+				pos: position{line: 565, col: 5, offset: 17410},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17399},
+					pos: position{line: 565, col: 5, offset: 17410},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17399},
+							pos:        position{line: 565, col: 5, offset: 17410},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17403},
+							pos: position{line: 565, col: 9, offset: 17414},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17404},
+								pos:        position{line: 565, col: 10, offset: 17415},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17483},
+							pos:   position{line: 566, col: 5, offset: 17494},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17492},
+								pos:  position{line: 566, col: 14, offset: 17503},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17531},
+							pos:        position{line: 567, col: 5, offset: 17542},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13818,25 +13832,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17572},
+			pos:  position{line: 571, col: 1, offset: 17583},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17614},
+				pos: position{line: 572, col: 5, offset: 17625},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17614},
+					pos:   position{line: 572, col: 5, offset: 17625},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17623},
+						pos: position{line: 572, col: 14, offset: 17634},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17633},
+							pos: position{line: 573, col: 9, offset: 17644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87911},
+									pos: position{line: 2761, col: 14, offset: 87922},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87911},
+										pos: position{line: 2761, col: 14, offset: 87922},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87911},
+											pos:        position{line: 2761, col: 14, offset: 87922},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13845,10 +13859,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90742},
+									pos: position{line: 2867, col: 10, offset: 90753},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90742},
+										pos:        position{line: 2867, col: 10, offset: 90753},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13856,48 +13870,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17669},
+									pos:  position{line: 575, col: 11, offset: 17680},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20128},
+									pos: position{line: 637, col: 5, offset: 20139},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20128},
+										pos: position{line: 637, col: 5, offset: 20139},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20128},
+												pos: position{line: 637, col: 5, offset: 20139},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20200},
+												pos:   position{line: 640, col: 5, offset: 20211},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20209},
+													pos: position{line: 640, col: 14, offset: 20220},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20338},
+															pos: position{line: 646, col: 5, offset: 20349},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20338},
+																pos: position{line: 646, col: 5, offset: 20349},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20338},
+																		pos:        position{line: 646, col: 5, offset: 20349},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20346},
+																		pos:   position{line: 646, col: 13, offset: 20357},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonSingleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13905,9 +13919,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13920,7 +13934,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20365},
+																		pos:        position{line: 646, col: 32, offset: 20376},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13929,28 +13943,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20606},
+															pos: position{line: 653, col: 5, offset: 20617},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20606},
+																pos: position{line: 653, col: 5, offset: 20617},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20606},
+																		pos:        position{line: 653, col: 5, offset: 20617},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20610},
+																		pos:   position{line: 653, col: 9, offset: 20621},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonSingleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13958,9 +13972,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13973,7 +13987,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20629},
+																		pos:        position{line: 653, col: 28, offset: 20640},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13982,28 +13996,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20810},
+															pos: position{line: 659, col: 25, offset: 20821},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20810},
+																pos: position{line: 659, col: 25, offset: 20821},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20810},
+																		pos:        position{line: 659, col: 25, offset: 20821},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20822},
+																		pos:   position{line: 659, col: 37, offset: 20833},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonSingleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14011,9 +14025,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14026,33 +14040,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20841},
+																		pos:   position{line: 659, col: 56, offset: 20852},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20847},
+																			pos: position{line: 659, col: 62, offset: 20858},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21142},
+																				pos: position{line: 667, col: 17, offset: 21153},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21142},
+																							pos:        position{line: 667, col: 17, offset: 21153},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21146},
+																							pos:   position{line: 667, col: 21, offset: 21157},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21153},
+																											pos:        position{line: 667, col: 28, offset: 21164},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14060,12 +14074,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21207},
+																										pos: position{line: 669, col: 9, offset: 21218},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21207},
+																												pos:        position{line: 669, col: 9, offset: 21218},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14082,7 +14096,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20863},
+																		pos:        position{line: 659, col: 78, offset: 20874},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14091,28 +14105,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20981},
+															pos: position{line: 663, col: 25, offset: 20992},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20981},
+																pos: position{line: 663, col: 25, offset: 20992},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20981},
+																		pos:        position{line: 663, col: 25, offset: 20992},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20994},
+																		pos:   position{line: 663, col: 38, offset: 21005},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonSingleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14120,9 +14134,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14135,33 +14149,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21013},
+																		pos:   position{line: 663, col: 57, offset: 21024},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21019},
+																			pos: position{line: 663, col: 63, offset: 21030},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21142},
+																				pos: position{line: 667, col: 17, offset: 21153},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21142},
+																							pos:        position{line: 667, col: 17, offset: 21153},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21146},
+																							pos:   position{line: 667, col: 21, offset: 21157},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21153},
+																											pos:        position{line: 667, col: 28, offset: 21164},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14169,12 +14183,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21207},
+																										pos: position{line: 669, col: 9, offset: 21218},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21207},
+																												pos:        position{line: 669, col: 9, offset: 21218},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14191,7 +14205,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21035},
+																		pos:        position{line: 663, col: 79, offset: 21046},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14206,44 +14220,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17723},
+									pos: position{line: 577, col: 12, offset: 17734},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17723},
+										pos:        position{line: 577, col: 12, offset: 17734},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17825},
+									pos:        position{line: 580, col: 13, offset: 17836},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17832},
+									pos:        position{line: 580, col: 20, offset: 17843},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17839},
+									pos: position{line: 580, col: 27, offset: 17850},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17839},
+										pos:        position{line: 580, col: 27, offset: 17850},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17999},
+									pos: position{line: 583, col: 12, offset: 18010},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17999},
+										pos: position{line: 583, col: 12, offset: 18010},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17999},
+											pos:        position{line: 583, col: 12, offset: 18010},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14259,56 +14273,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18196},
+			pos:  position{line: 590, col: 1, offset: 18207},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18231},
+				pos: position{line: 591, col: 5, offset: 18242},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18231},
+					pos: position{line: 591, col: 5, offset: 18242},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18231},
+							pos:        position{line: 591, col: 5, offset: 18242},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18236},
+							pos: position{line: 591, col: 10, offset: 18247},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18237},
+								pos:        position{line: 591, col: 11, offset: 18248},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18316},
+							pos:   position{line: 592, col: 5, offset: 18327},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18325},
+								pos:  position{line: 592, col: 14, offset: 18336},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18364},
+							pos:        position{line: 593, col: 5, offset: 18375},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18369},
+							pos: position{line: 593, col: 10, offset: 18380},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18371},
+								pos: position{line: 593, col: 12, offset: 18382},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18373},
+									pos: position{line: 593, col: 14, offset: 18384},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18373},
+											pos: position{line: 593, col: 14, offset: 18384},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90742},
+												pos: position{line: 2867, col: 10, offset: 90753},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90742},
+													pos:        position{line: 2867, col: 10, offset: 90753},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14317,7 +14331,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18380},
+											pos:        position{line: 593, col: 21, offset: 18391},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14332,25 +14346,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18423},
+			pos:  position{line: 597, col: 1, offset: 18434},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18465},
+				pos: position{line: 598, col: 5, offset: 18476},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18465},
+					pos:   position{line: 598, col: 5, offset: 18476},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18474},
+						pos: position{line: 598, col: 14, offset: 18485},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18484},
+							pos: position{line: 599, col: 9, offset: 18495},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87911},
+									pos: position{line: 2761, col: 14, offset: 87922},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87911},
+										pos: position{line: 2761, col: 14, offset: 87922},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87911},
+											pos:        position{line: 2761, col: 14, offset: 87922},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14359,10 +14373,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90742},
+									pos: position{line: 2867, col: 10, offset: 90753},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90742},
+										pos:        position{line: 2867, col: 10, offset: 90753},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14370,48 +14384,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18520},
+									pos:  position{line: 601, col: 11, offset: 18531},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20128},
+									pos: position{line: 637, col: 5, offset: 20139},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20128},
+										pos: position{line: 637, col: 5, offset: 20139},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20128},
+												pos: position{line: 637, col: 5, offset: 20139},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20200},
+												pos:   position{line: 640, col: 5, offset: 20211},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20209},
+													pos: position{line: 640, col: 14, offset: 20220},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20338},
+															pos: position{line: 646, col: 5, offset: 20349},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20338},
+																pos: position{line: 646, col: 5, offset: 20349},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20338},
+																		pos:        position{line: 646, col: 5, offset: 20349},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20346},
+																		pos:   position{line: 646, col: 13, offset: 20357},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14419,9 +14433,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14434,7 +14448,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20365},
+																		pos:        position{line: 646, col: 32, offset: 20376},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14443,28 +14457,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20606},
+															pos: position{line: 653, col: 5, offset: 20617},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20606},
+																pos: position{line: 653, col: 5, offset: 20617},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20606},
+																		pos:        position{line: 653, col: 5, offset: 20617},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20610},
+																		pos:   position{line: 653, col: 9, offset: 20621},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14472,9 +14486,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14487,7 +14501,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20629},
+																		pos:        position{line: 653, col: 28, offset: 20640},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14496,28 +14510,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20810},
+															pos: position{line: 659, col: 25, offset: 20821},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20810},
+																pos: position{line: 659, col: 25, offset: 20821},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20810},
+																		pos:        position{line: 659, col: 25, offset: 20821},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20822},
+																		pos:   position{line: 659, col: 37, offset: 20833},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14525,9 +14539,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14540,33 +14554,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20841},
+																		pos:   position{line: 659, col: 56, offset: 20852},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20847},
+																			pos: position{line: 659, col: 62, offset: 20858},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21142},
+																				pos: position{line: 667, col: 17, offset: 21153},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21142},
+																							pos:        position{line: 667, col: 17, offset: 21153},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21146},
+																							pos:   position{line: 667, col: 21, offset: 21157},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21153},
+																											pos:        position{line: 667, col: 28, offset: 21164},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14574,12 +14588,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21207},
+																										pos: position{line: 669, col: 9, offset: 21218},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21207},
+																												pos:        position{line: 669, col: 9, offset: 21218},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14596,7 +14610,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20863},
+																		pos:        position{line: 659, col: 78, offset: 20874},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14605,28 +14619,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20981},
+															pos: position{line: 663, col: 25, offset: 20992},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20981},
+																pos: position{line: 663, col: 25, offset: 20992},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20981},
+																		pos:        position{line: 663, col: 25, offset: 20992},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20994},
+																		pos:   position{line: 663, col: 38, offset: 21005},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 319, col: 18, offset: 9747},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 319, col: 18, offset: 9747},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14634,9 +14648,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 319, col: 29, offset: 9758},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14649,33 +14663,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21013},
+																		pos:   position{line: 663, col: 57, offset: 21024},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21019},
+																			pos: position{line: 663, col: 63, offset: 21030},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21142},
+																				pos: position{line: 667, col: 17, offset: 21153},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21142},
+																							pos:        position{line: 667, col: 17, offset: 21153},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21146},
+																							pos:   position{line: 667, col: 21, offset: 21157},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21153},
+																											pos:        position{line: 667, col: 28, offset: 21164},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14683,12 +14697,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21207},
+																										pos: position{line: 669, col: 9, offset: 21218},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21207},
+																												pos:        position{line: 669, col: 9, offset: 21218},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14705,7 +14719,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21035},
+																		pos:        position{line: 663, col: 79, offset: 21046},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14720,50 +14734,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18575},
+									pos: position{line: 603, col: 12, offset: 18586},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18575},
+										pos:        position{line: 603, col: 12, offset: 18586},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18677},
+									pos:        position{line: 606, col: 13, offset: 18688},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18685},
+									pos:        position{line: 606, col: 21, offset: 18696},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18693},
+									pos:        position{line: 606, col: 29, offset: 18704},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18699},
+									pos: position{line: 606, col: 35, offset: 18710},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18699},
+										pos:        position{line: 606, col: 35, offset: 18710},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18882},
+									pos: position{line: 609, col: 12, offset: 18893},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18882},
+										pos: position{line: 609, col: 12, offset: 18893},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18882},
+											pos:        position{line: 609, col: 12, offset: 18893},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14779,20 +14793,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19156},
+			pos:  position{line: 617, col: 1, offset: 19167},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19340},
+				pos: position{line: 620, col: 5, offset: 19351},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19340},
+					pos: position{line: 620, col: 5, offset: 19351},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19340},
+							pos: position{line: 620, col: 5, offset: 19351},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14801,28 +14815,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19409},
+							pos:   position{line: 621, col: 5, offset: 19420},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19418},
+								pos: position{line: 621, col: 14, offset: 19429},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19428},
+									pos: position{line: 622, col: 9, offset: 19439},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19429},
+											pos: position{line: 622, col: 10, offset: 19440},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19429},
+													pos:        position{line: 622, col: 10, offset: 19440},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19433},
+													pos:  position{line: 622, col: 14, offset: 19444},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19456},
+													pos:        position{line: 622, col: 37, offset: 19467},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14830,44 +14844,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20128},
+											pos: position{line: 637, col: 5, offset: 20139},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20128},
+												pos: position{line: 637, col: 5, offset: 20139},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20128},
+														pos: position{line: 637, col: 5, offset: 20139},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20200},
+														pos:   position{line: 640, col: 5, offset: 20211},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20209},
+															pos: position{line: 640, col: 14, offset: 20220},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20338},
+																	pos: position{line: 646, col: 5, offset: 20349},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20338},
+																		pos: position{line: 646, col: 5, offset: 20349},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20338},
+																				pos:        position{line: 646, col: 5, offset: 20349},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20346},
+																				pos:   position{line: 646, col: 13, offset: 20357},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonUnquotedAttributeValue22,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14875,9 +14889,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14890,7 +14904,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20365},
+																				pos:        position{line: 646, col: 32, offset: 20376},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14899,28 +14913,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20606},
+																	pos: position{line: 653, col: 5, offset: 20617},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20606},
+																		pos: position{line: 653, col: 5, offset: 20617},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20606},
+																				pos:        position{line: 653, col: 5, offset: 20617},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20610},
+																				pos:   position{line: 653, col: 9, offset: 20621},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonUnquotedAttributeValue32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14928,9 +14942,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14943,7 +14957,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20629},
+																				pos:        position{line: 653, col: 28, offset: 20640},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14952,28 +14966,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20810},
+																	pos: position{line: 659, col: 25, offset: 20821},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20810},
+																		pos: position{line: 659, col: 25, offset: 20821},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20810},
+																				pos:        position{line: 659, col: 25, offset: 20821},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20822},
+																				pos:   position{line: 659, col: 37, offset: 20833},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonUnquotedAttributeValue42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14981,9 +14995,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14996,33 +15010,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20841},
+																				pos:   position{line: 659, col: 56, offset: 20852},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20847},
+																					pos: position{line: 659, col: 62, offset: 20858},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21142},
+																							pos: position{line: 667, col: 17, offset: 21153},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21142},
+																									pos:        position{line: 667, col: 17, offset: 21153},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21146},
+																									pos:   position{line: 667, col: 21, offset: 21157},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21153},
+																													pos:        position{line: 667, col: 28, offset: 21164},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15030,12 +15044,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21207},
+																													pos: position{line: 669, col: 9, offset: 21218},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21207},
+																														pos:        position{line: 669, col: 9, offset: 21218},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15052,7 +15066,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20863},
+																				pos:        position{line: 659, col: 78, offset: 20874},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15061,28 +15075,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20981},
+																	pos: position{line: 663, col: 25, offset: 20992},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20981},
+																		pos: position{line: 663, col: 25, offset: 20992},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20981},
+																				pos:        position{line: 663, col: 25, offset: 20992},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20994},
+																				pos:   position{line: 663, col: 38, offset: 21005},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonUnquotedAttributeValue64,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15090,9 +15104,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15105,33 +15119,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21013},
+																				pos:   position{line: 663, col: 57, offset: 21024},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21019},
+																					pos: position{line: 663, col: 63, offset: 21030},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21142},
+																							pos: position{line: 667, col: 17, offset: 21153},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21142},
+																									pos:        position{line: 667, col: 17, offset: 21153},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21146},
+																									pos:   position{line: 667, col: 21, offset: 21157},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21153},
+																													pos:        position{line: 667, col: 28, offset: 21164},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15139,12 +15153,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21207},
+																													pos: position{line: 669, col: 9, offset: 21218},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21207},
+																														pos:        position{line: 669, col: 9, offset: 21218},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15161,7 +15175,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21035},
+																				pos:        position{line: 663, col: 79, offset: 21046},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15176,16 +15190,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19543},
+											pos:        position{line: 623, col: 32, offset: 19554},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90742},
+											pos: position{line: 2867, col: 10, offset: 90753},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90742},
+												pos:        position{line: 2867, col: 10, offset: 90753},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15193,12 +15207,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19628},
+											pos: position{line: 625, col: 12, offset: 19639},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19628},
+												pos: position{line: 625, col: 12, offset: 19639},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19628},
+													pos:        position{line: 625, col: 12, offset: 19639},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15216,32 +15230,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21769},
+			pos:  position{line: 685, col: 1, offset: 21780},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21787},
+				pos: position{line: 685, col: 19, offset: 21798},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21863},
+						pos: position{line: 687, col: 27, offset: 21874},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21863},
+							pos: position{line: 687, col: 27, offset: 21874},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21863},
+									pos:        position{line: 687, col: 27, offset: 21874},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21868},
+									pos:   position{line: 687, col: 32, offset: 21879},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 7, offset: 90394},
+										pos: position{line: 2852, col: 7, offset: 90405},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2851, col: 7, offset: 90394},
+											pos: position{line: 2852, col: 7, offset: 90405},
 											expr: &charClassMatcher{
-												pos:        position{line: 2851, col: 7, offset: 90394},
+												pos:        position{line: 2852, col: 7, offset: 90405},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15251,12 +15265,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21876},
+									pos: position{line: 687, col: 40, offset: 21887},
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90742},
+										pos: position{line: 2867, col: 10, offset: 90753},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90742},
+											pos:        position{line: 2867, col: 10, offset: 90753},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15265,26 +15279,26 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21883},
+									pos:        position{line: 687, col: 47, offset: 21894},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21887},
+									pos:   position{line: 687, col: 51, offset: 21898},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22288},
+										pos: position{line: 697, col: 24, offset: 22299},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22294},
+											pos: position{line: 698, col: 5, offset: 22305},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22295},
+													pos: position{line: 698, col: 6, offset: 22306},
 													run: (*parser).callonCrossReference16,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 697, col: 6, offset: 22295},
+														pos: position{line: 698, col: 6, offset: 22306},
 														expr: &charClassMatcher{
-															pos:        position{line: 697, col: 6, offset: 22295},
+															pos:        position{line: 698, col: 6, offset: 22306},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15293,28 +15307,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20338},
+													pos: position{line: 646, col: 5, offset: 20349},
 													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20338},
+														pos: position{line: 646, col: 5, offset: 20349},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20338},
+																pos:        position{line: 646, col: 5, offset: 20349},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20346},
+																pos:   position{line: 646, col: 13, offset: 20357},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	run: (*parser).callonCrossReference23,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 319, col: 18, offset: 9747},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 319, col: 18, offset: 9747},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15322,9 +15336,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 319, col: 29, offset: 9758},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15337,7 +15351,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20365},
+																pos:        position{line: 646, col: 32, offset: 20376},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15346,28 +15360,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20606},
+													pos: position{line: 653, col: 5, offset: 20617},
 													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20606},
+														pos: position{line: 653, col: 5, offset: 20617},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20606},
+																pos:        position{line: 653, col: 5, offset: 20617},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20610},
+																pos:   position{line: 653, col: 9, offset: 20621},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	run: (*parser).callonCrossReference33,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 319, col: 18, offset: 9747},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 319, col: 18, offset: 9747},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15375,9 +15389,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 319, col: 29, offset: 9758},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15390,7 +15404,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20629},
+																pos:        position{line: 653, col: 28, offset: 20640},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15399,28 +15413,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 658, col: 25, offset: 20810},
+													pos: position{line: 659, col: 25, offset: 20821},
 													run: (*parser).callonCrossReference39,
 													expr: &seqExpr{
-														pos: position{line: 658, col: 25, offset: 20810},
+														pos: position{line: 659, col: 25, offset: 20821},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 658, col: 25, offset: 20810},
+																pos:        position{line: 659, col: 25, offset: 20821},
 																val:        "{counter:",
 																ignoreCase: false,
 																want:       "\"{counter:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 658, col: 37, offset: 20822},
+																pos:   position{line: 659, col: 37, offset: 20833},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	run: (*parser).callonCrossReference43,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 319, col: 18, offset: 9747},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 319, col: 18, offset: 9747},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15428,9 +15442,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 319, col: 29, offset: 9758},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15443,33 +15457,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 658, col: 56, offset: 20841},
+																pos:   position{line: 659, col: 56, offset: 20852},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 658, col: 62, offset: 20847},
+																	pos: position{line: 659, col: 62, offset: 20858},
 																	expr: &actionExpr{
-																		pos: position{line: 666, col: 17, offset: 21142},
+																		pos: position{line: 667, col: 17, offset: 21153},
 																		run: (*parser).callonCrossReference50,
 																		expr: &seqExpr{
-																			pos: position{line: 666, col: 17, offset: 21142},
+																			pos: position{line: 667, col: 17, offset: 21153},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 666, col: 17, offset: 21142},
+																					pos:        position{line: 667, col: 17, offset: 21153},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 666, col: 21, offset: 21146},
+																					pos:   position{line: 667, col: 21, offset: 21157},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 666, col: 28, offset: 21153},
+																						pos: position{line: 667, col: 28, offset: 21164},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								run: (*parser).callonCrossReference55,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 666, col: 28, offset: 21153},
+																									pos:        position{line: 667, col: 28, offset: 21164},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15477,12 +15491,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 668, col: 9, offset: 21207},
+																								pos: position{line: 669, col: 9, offset: 21218},
 																								run: (*parser).callonCrossReference57,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 668, col: 9, offset: 21207},
+																									pos: position{line: 669, col: 9, offset: 21218},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 668, col: 9, offset: 21207},
+																										pos:        position{line: 669, col: 9, offset: 21218},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15499,7 +15513,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 658, col: 78, offset: 20863},
+																pos:        position{line: 659, col: 78, offset: 20874},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15508,28 +15522,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 662, col: 25, offset: 20981},
+													pos: position{line: 663, col: 25, offset: 20992},
 													run: (*parser).callonCrossReference61,
 													expr: &seqExpr{
-														pos: position{line: 662, col: 25, offset: 20981},
+														pos: position{line: 663, col: 25, offset: 20992},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 662, col: 25, offset: 20981},
+																pos:        position{line: 663, col: 25, offset: 20992},
 																val:        "{counter2:",
 																ignoreCase: false,
 																want:       "\"{counter2:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 662, col: 38, offset: 20994},
+																pos:   position{line: 663, col: 38, offset: 21005},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	run: (*parser).callonCrossReference65,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 319, col: 18, offset: 9747},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 319, col: 18, offset: 9747},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15537,9 +15551,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 319, col: 29, offset: 9758},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15552,33 +15566,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 662, col: 57, offset: 21013},
+																pos:   position{line: 663, col: 57, offset: 21024},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 662, col: 63, offset: 21019},
+																	pos: position{line: 663, col: 63, offset: 21030},
 																	expr: &actionExpr{
-																		pos: position{line: 666, col: 17, offset: 21142},
+																		pos: position{line: 667, col: 17, offset: 21153},
 																		run: (*parser).callonCrossReference72,
 																		expr: &seqExpr{
-																			pos: position{line: 666, col: 17, offset: 21142},
+																			pos: position{line: 667, col: 17, offset: 21153},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 666, col: 17, offset: 21142},
+																					pos:        position{line: 667, col: 17, offset: 21153},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 666, col: 21, offset: 21146},
+																					pos:   position{line: 667, col: 21, offset: 21157},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 666, col: 28, offset: 21153},
+																						pos: position{line: 667, col: 28, offset: 21164},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 666, col: 28, offset: 21153},
+																								pos: position{line: 667, col: 28, offset: 21164},
 																								run: (*parser).callonCrossReference77,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 666, col: 28, offset: 21153},
+																									pos:        position{line: 667, col: 28, offset: 21164},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15586,12 +15600,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 668, col: 9, offset: 21207},
+																								pos: position{line: 669, col: 9, offset: 21218},
 																								run: (*parser).callonCrossReference79,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 668, col: 9, offset: 21207},
+																									pos: position{line: 669, col: 9, offset: 21218},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 668, col: 9, offset: 21207},
+																										pos:        position{line: 669, col: 9, offset: 21218},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15608,7 +15622,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 662, col: 79, offset: 21035},
+																pos:        position{line: 663, col: 79, offset: 21046},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15617,10 +15631,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22548},
+													pos: position{line: 702, col: 8, offset: 22559},
 													run: (*parser).callonCrossReference83,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22548},
+														pos:        position{line: 702, col: 8, offset: 22559},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15631,7 +15645,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21915},
+									pos:        position{line: 687, col: 79, offset: 21926},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15640,27 +15654,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21988},
+						pos: position{line: 689, col: 9, offset: 21999},
 						run: (*parser).callonCrossReference86,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21988},
+							pos: position{line: 689, col: 9, offset: 21999},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21988},
+									pos:        position{line: 689, col: 9, offset: 21999},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21993},
+									pos:   position{line: 689, col: 14, offset: 22004},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 7, offset: 90394},
+										pos: position{line: 2852, col: 7, offset: 90405},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2851, col: 7, offset: 90394},
+											pos: position{line: 2852, col: 7, offset: 90405},
 											expr: &charClassMatcher{
-												pos:        position{line: 2851, col: 7, offset: 90394},
+												pos:        position{line: 2852, col: 7, offset: 90405},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15670,7 +15684,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 22001},
+									pos:        position{line: 689, col: 22, offset: 22012},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15679,7 +15693,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21812},
+						pos:  position{line: 685, col: 44, offset: 21823},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15687,58 +15701,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22072},
+			pos:  position{line: 693, col: 1, offset: 22083},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22098},
+				pos: position{line: 693, col: 27, offset: 22109},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22098},
+					pos: position{line: 693, col: 27, offset: 22109},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22098},
+							pos:        position{line: 693, col: 27, offset: 22109},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22106},
+							pos:   position{line: 693, col: 35, offset: 22117},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 17, offset: 89405},
+								pos: position{line: 2821, col: 17, offset: 89416},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2820, col: 17, offset: 89405},
+									pos:   position{line: 2821, col: 17, offset: 89416},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 5, offset: 89859},
+										pos: position{line: 2838, col: 5, offset: 89870},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2837, col: 5, offset: 89859},
+											pos:   position{line: 2838, col: 5, offset: 89870},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2837, col: 14, offset: 89868},
+												pos: position{line: 2838, col: 14, offset: 89879},
 												expr: &choiceExpr{
-													pos: position{line: 2838, col: 9, offset: 89878},
+													pos: position{line: 2839, col: 9, offset: 89889},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2838, col: 9, offset: 89878},
+															pos: position{line: 2839, col: 9, offset: 89889},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2838, col: 9, offset: 89878},
+																pos: position{line: 2839, col: 9, offset: 89889},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2838, col: 9, offset: 89878},
+																		pos: position{line: 2839, col: 9, offset: 89889},
 																		expr: &litMatcher{
-																			pos:        position{line: 2838, col: 10, offset: 89879},
+																			pos:        position{line: 2839, col: 10, offset: 89890},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2839, col: 9, offset: 89907},
+																		pos: position{line: 2840, col: 9, offset: 89918},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2839, col: 10, offset: 89908},
+																			pos:        position{line: 2840, col: 10, offset: 89919},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15749,27 +15763,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2842, col: 11, offset: 90120},
+															pos: position{line: 2843, col: 11, offset: 90131},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2842, col: 11, offset: 90120},
+																	pos:        position{line: 2843, col: 11, offset: 90131},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2842, col: 19, offset: 90128},
+																	pos: position{line: 2843, col: 19, offset: 90139},
 																	expr: &seqExpr{
-																		pos: position{line: 2842, col: 21, offset: 90130},
+																		pos: position{line: 2843, col: 21, offset: 90141},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2842, col: 21, offset: 90130},
+																				pos: position{line: 2843, col: 21, offset: 90141},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90742},
+																					pos: position{line: 2867, col: 10, offset: 90753},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90742},
+																						pos:        position{line: 2867, col: 10, offset: 90753},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15778,11 +15792,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2842, col: 28, offset: 90137},
+																				pos: position{line: 2843, col: 28, offset: 90148},
 																				expr: &notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -15792,44 +15806,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20128},
+															pos: position{line: 637, col: 5, offset: 20139},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20128},
+																pos: position{line: 637, col: 5, offset: 20139},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20128},
+																		pos: position{line: 637, col: 5, offset: 20139},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20200},
+																		pos:   position{line: 640, col: 5, offset: 20211},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20209},
+																			pos: position{line: 640, col: 14, offset: 20220},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20338},
+																					pos: position{line: 646, col: 5, offset: 20349},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20338},
+																								pos:        position{line: 646, col: 5, offset: 20349},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20346},
+																								pos:   position{line: 646, col: 13, offset: 20357},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonExternalCrossReference36,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15837,9 +15851,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15852,7 +15866,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20365},
+																								pos:        position{line: 646, col: 32, offset: 20376},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15861,28 +15875,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20606},
+																					pos: position{line: 653, col: 5, offset: 20617},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20606},
+																								pos:        position{line: 653, col: 5, offset: 20617},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20610},
+																								pos:   position{line: 653, col: 9, offset: 20621},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonExternalCrossReference46,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15890,9 +15904,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15905,7 +15919,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20629},
+																								pos:        position{line: 653, col: 28, offset: 20640},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15914,28 +15928,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20810},
+																					pos: position{line: 659, col: 25, offset: 20821},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20810},
+																						pos: position{line: 659, col: 25, offset: 20821},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20810},
+																								pos:        position{line: 659, col: 25, offset: 20821},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20822},
+																								pos:   position{line: 659, col: 37, offset: 20833},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonExternalCrossReference56,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15943,9 +15957,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15958,33 +15972,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20841},
+																								pos:   position{line: 659, col: 56, offset: 20852},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20847},
+																									pos: position{line: 659, col: 62, offset: 20858},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21142},
+																											pos: position{line: 667, col: 17, offset: 21153},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21142},
+																													pos:        position{line: 667, col: 17, offset: 21153},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21146},
+																													pos:   position{line: 667, col: 21, offset: 21157},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21153},
+																																	pos:        position{line: 667, col: 28, offset: 21164},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15992,12 +16006,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21207},
+																																	pos: position{line: 669, col: 9, offset: 21218},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21207},
+																																		pos:        position{line: 669, col: 9, offset: 21218},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16014,7 +16028,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20863},
+																								pos:        position{line: 659, col: 78, offset: 20874},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16023,28 +16037,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20981},
+																					pos: position{line: 663, col: 25, offset: 20992},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20981},
+																						pos: position{line: 663, col: 25, offset: 20992},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20981},
+																								pos:        position{line: 663, col: 25, offset: 20992},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20994},
+																								pos:   position{line: 663, col: 38, offset: 21005},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonExternalCrossReference78,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16052,9 +16066,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -16067,33 +16081,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21013},
+																								pos:   position{line: 663, col: 57, offset: 21024},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21019},
+																									pos: position{line: 663, col: 63, offset: 21030},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21142},
+																											pos: position{line: 667, col: 17, offset: 21153},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21142},
+																													pos:        position{line: 667, col: 17, offset: 21153},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21146},
+																													pos:   position{line: 667, col: 21, offset: 21157},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21153},
+																																	pos:        position{line: 667, col: 28, offset: 21164},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16101,12 +16115,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21207},
+																																	pos: position{line: 669, col: 9, offset: 21218},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21207},
+																																		pos:        position{line: 669, col: 9, offset: 21218},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16123,7 +16137,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21035},
+																								pos:        position{line: 663, col: 79, offset: 21046},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16138,27 +16152,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37216},
+															pos: position{line: 1207, col: 23, offset: 37227},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37216},
+																pos: position{line: 1207, col: 23, offset: 37227},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37184},
+																		pos:        position{line: 1205, col: 32, offset: 37195},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37244},
+																		pos:   position{line: 1207, col: 51, offset: 37255},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37249},
+																			pos: position{line: 1207, col: 56, offset: 37260},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37249},
+																				pos: position{line: 1207, col: 56, offset: 37260},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37249},
+																					pos:        position{line: 1207, col: 56, offset: 37260},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16168,7 +16182,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37184},
+																		pos:        position{line: 1205, col: 32, offset: 37195},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16177,10 +16191,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2845, col: 11, offset: 90257},
+															pos: position{line: 2846, col: 11, offset: 90268},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90257},
+																pos:        position{line: 2846, col: 11, offset: 90268},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16195,10 +16209,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22125},
+							pos:   position{line: 693, col: 54, offset: 22136},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22137},
+								pos:  position{line: 693, col: 66, offset: 22148},
 								name: "InlineAttributes",
 							},
 						},
@@ -16208,29 +16222,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 996, col: 1, offset: 31011},
+			pos:  position{line: 997, col: 1, offset: 31022},
 			expr: &actionExpr{
-				pos: position{line: 997, col: 5, offset: 31044},
+				pos: position{line: 998, col: 5, offset: 31055},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 997, col: 5, offset: 31044},
+					pos: position{line: 998, col: 5, offset: 31055},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 997, col: 5, offset: 31044},
+							pos:        position{line: 998, col: 5, offset: 31055},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 997, col: 11, offset: 31050},
+							pos:   position{line: 998, col: 11, offset: 31061},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2816, col: 14, offset: 89335},
+								pos: position{line: 2817, col: 14, offset: 89346},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2816, col: 14, offset: 89335},
+									pos: position{line: 2817, col: 14, offset: 89346},
 									expr: &charClassMatcher{
-										pos:        position{line: 2816, col: 14, offset: 89335},
+										pos:        position{line: 2817, col: 14, offset: 89346},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16240,28 +16254,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16270,9 +16284,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -16283,53 +16297,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1108, col: 1, offset: 33967},
+			pos:  position{line: 1109, col: 1, offset: 33978},
 			expr: &actionExpr{
-				pos: position{line: 1109, col: 5, offset: 33990},
+				pos: position{line: 1110, col: 5, offset: 34001},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1109, col: 5, offset: 33990},
+					pos: position{line: 1110, col: 5, offset: 34001},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1109, col: 5, offset: 33990},
+							pos: position{line: 1110, col: 5, offset: 34001},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1112, col: 5, offset: 34051},
+							pos: position{line: 1113, col: 5, offset: 34062},
 							expr: &choiceExpr{
-								pos: position{line: 1112, col: 6, offset: 34052},
+								pos: position{line: 1113, col: 6, offset: 34063},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2476, col: 22, offset: 79727},
+										pos: position{line: 2477, col: 22, offset: 79738},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2481, col: 31, offset: 79948},
+													pos:        position{line: 2482, col: 31, offset: 79959},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2481, col: 36, offset: 79953},
+													pos: position{line: 2482, col: 36, offset: 79964},
 													expr: &litMatcher{
-														pos:        position{line: 2481, col: 37, offset: 79954},
+														pos:        position{line: 2482, col: 37, offset: 79965},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2476, col: 49, offset: 79754},
+													pos:   position{line: 2477, col: 49, offset: 79765},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89268},
+														pos: position{line: 2813, col: 13, offset: 89279},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89268},
+																pos:        position{line: 2813, col: 13, offset: 89279},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16339,28 +16353,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16369,9 +16383,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -16380,39 +16394,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26362},
+										pos: position{line: 821, col: 5, offset: 26373},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26362},
+											pos: position{line: 821, col: 5, offset: 26373},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26362},
+													pos:   position{line: 821, col: 5, offset: 26373},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23622},
+														pos: position{line: 741, col: 5, offset: 23633},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23622},
+															pos: position{line: 741, col: 5, offset: 23633},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23622},
+																	pos:   position{line: 741, col: 5, offset: 23633},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23633},
+																		pos: position{line: 741, col: 16, offset: 23644},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23633},
+																			pos: position{line: 741, col: 16, offset: 23644},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23633},
+																					pos:        position{line: 741, col: 16, offset: 23644},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23640},
+																					pos: position{line: 741, col: 23, offset: 23651},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23640},
+																						pos:        position{line: 741, col: 23, offset: 23651},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16423,12 +16437,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23724},
+																	pos: position{line: 743, col: 8, offset: 23735},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16437,28 +16451,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16467,9 +16481,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -16479,56 +16493,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 822, col: 5, offset: 26412},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26493},
+													pos:   position{line: 825, col: 5, offset: 26504},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26885},
+														pos: position{line: 840, col: 5, offset: 26896},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26886},
+															pos: position{line: 840, col: 6, offset: 26897},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26886},
+																pos: position{line: 840, col: 6, offset: 26897},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26886},
+																		pos: position{line: 840, col: 6, offset: 26897},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26727},
+																			pos: position{line: 833, col: 5, offset: 26738},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26727},
+																					pos: position{line: 833, col: 5, offset: 26738},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26727},
+																							pos:   position{line: 833, col: 5, offset: 26738},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23622},
+																								pos: position{line: 741, col: 5, offset: 23633},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23622},
+																											pos:   position{line: 741, col: 5, offset: 23633},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23633},
+																												pos: position{line: 741, col: 16, offset: 23644},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23633},
+																															pos:        position{line: 741, col: 16, offset: 23644},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23640},
+																															pos: position{line: 741, col: 23, offset: 23651},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23640},
+																																pos:        position{line: 741, col: 23, offset: 23651},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16539,12 +16553,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23724},
+																											pos: position{line: 743, col: 8, offset: 23735},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16553,28 +16567,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16583,9 +16597,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -16595,45 +16609,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26758},
+																							pos: position{line: 834, col: 5, offset: 26769},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26916},
+																		pos:   position{line: 841, col: 5, offset: 26927},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16643,28 +16657,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16673,9 +16687,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -16690,41 +16704,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26527},
+													pos: position{line: 826, col: 5, offset: 26538},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26727},
+														pos: position{line: 833, col: 5, offset: 26738},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26727},
+																pos: position{line: 833, col: 5, offset: 26738},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26727},
+																		pos:   position{line: 833, col: 5, offset: 26738},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23622},
+																			pos: position{line: 741, col: 5, offset: 23633},
 																			run: (*parser).callonDocumentHeader97,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23622},
+																						pos:   position{line: 741, col: 5, offset: 23633},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23633},
+																							pos: position{line: 741, col: 16, offset: 23644},
 																							run: (*parser).callonDocumentHeader100,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23633},
+																										pos:        position{line: 741, col: 16, offset: 23644},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23640},
+																										pos: position{line: 741, col: 23, offset: 23651},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23640},
+																											pos:        position{line: 741, col: 23, offset: 23651},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -16735,12 +16749,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23724},
+																						pos: position{line: 743, col: 8, offset: 23735},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16749,28 +16763,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16779,9 +16793,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -16791,15 +16805,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26758},
+																		pos: position{line: 834, col: 5, offset: 26769},
 																		run: (*parser).callonDocumentHeader116,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -16812,49 +16826,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 5, offset: 34148},
+							pos:   position{line: 1114, col: 5, offset: 34159},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 12, offset: 34155},
+								pos:  position{line: 1114, col: 12, offset: 34166},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1114, col: 5, offset: 34174},
+							pos: position{line: 1115, col: 5, offset: 34185},
 							expr: &choiceExpr{
-								pos: position{line: 1114, col: 6, offset: 34175},
+								pos: position{line: 1115, col: 6, offset: 34186},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2476, col: 22, offset: 79727},
+										pos: position{line: 2477, col: 22, offset: 79738},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2481, col: 31, offset: 79948},
+													pos:        position{line: 2482, col: 31, offset: 79959},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2481, col: 36, offset: 79953},
+													pos: position{line: 2482, col: 36, offset: 79964},
 													expr: &litMatcher{
-														pos:        position{line: 2481, col: 37, offset: 79954},
+														pos:        position{line: 2482, col: 37, offset: 79965},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2476, col: 49, offset: 79754},
+													pos:   position{line: 2477, col: 49, offset: 79765},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89268},
+														pos: position{line: 2813, col: 13, offset: 89279},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89268},
+																pos:        position{line: 2813, col: 13, offset: 89279},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16864,28 +16878,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16894,9 +16908,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -16905,39 +16919,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26362},
+										pos: position{line: 821, col: 5, offset: 26373},
 										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26362},
+											pos: position{line: 821, col: 5, offset: 26373},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26362},
+													pos:   position{line: 821, col: 5, offset: 26373},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23622},
+														pos: position{line: 741, col: 5, offset: 23633},
 														run: (*parser).callonDocumentHeader143,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23622},
+															pos: position{line: 741, col: 5, offset: 23633},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23622},
+																	pos:   position{line: 741, col: 5, offset: 23633},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23633},
+																		pos: position{line: 741, col: 16, offset: 23644},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23633},
+																			pos: position{line: 741, col: 16, offset: 23644},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23633},
+																					pos:        position{line: 741, col: 16, offset: 23644},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23640},
+																					pos: position{line: 741, col: 23, offset: 23651},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23640},
+																						pos:        position{line: 741, col: 23, offset: 23651},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16948,12 +16962,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23724},
+																	pos: position{line: 743, col: 8, offset: 23735},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16962,28 +16976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16992,9 +17006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -17004,56 +17018,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 822, col: 5, offset: 26412},
 													run: (*parser).callonDocumentHeader162,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26493},
+													pos:   position{line: 825, col: 5, offset: 26504},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26885},
+														pos: position{line: 840, col: 5, offset: 26896},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26886},
+															pos: position{line: 840, col: 6, offset: 26897},
 															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26886},
+																pos: position{line: 840, col: 6, offset: 26897},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26886},
+																		pos: position{line: 840, col: 6, offset: 26897},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26727},
+																			pos: position{line: 833, col: 5, offset: 26738},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26727},
+																					pos: position{line: 833, col: 5, offset: 26738},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26727},
+																							pos:   position{line: 833, col: 5, offset: 26738},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23622},
+																								pos: position{line: 741, col: 5, offset: 23633},
 																								run: (*parser).callonDocumentHeader171,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23622},
+																											pos:   position{line: 741, col: 5, offset: 23633},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23633},
+																												pos: position{line: 741, col: 16, offset: 23644},
 																												run: (*parser).callonDocumentHeader174,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23633},
+																															pos:        position{line: 741, col: 16, offset: 23644},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23640},
+																															pos: position{line: 741, col: 23, offset: 23651},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23640},
+																																pos:        position{line: 741, col: 23, offset: 23651},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17064,12 +17078,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23724},
+																											pos: position{line: 743, col: 8, offset: 23735},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17078,28 +17092,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17108,9 +17122,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -17120,45 +17134,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26758},
+																							pos: position{line: 834, col: 5, offset: 26769},
 																							run: (*parser).callonDocumentHeader190,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26916},
+																		pos:   position{line: 841, col: 5, offset: 26927},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17168,28 +17182,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17198,9 +17212,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -17215,41 +17229,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26527},
+													pos: position{line: 826, col: 5, offset: 26538},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26727},
+														pos: position{line: 833, col: 5, offset: 26738},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26727},
+																pos: position{line: 833, col: 5, offset: 26738},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26727},
+																		pos:   position{line: 833, col: 5, offset: 26738},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23622},
+																			pos: position{line: 741, col: 5, offset: 23633},
 																			run: (*parser).callonDocumentHeader214,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23622},
+																						pos:   position{line: 741, col: 5, offset: 23633},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23633},
+																							pos: position{line: 741, col: 16, offset: 23644},
 																							run: (*parser).callonDocumentHeader217,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23633},
+																										pos:        position{line: 741, col: 16, offset: 23644},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23640},
+																										pos: position{line: 741, col: 23, offset: 23651},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23640},
+																											pos:        position{line: 741, col: 23, offset: 23651},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17260,12 +17274,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23724},
+																						pos: position{line: 743, col: 8, offset: 23735},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17274,28 +17288,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17304,9 +17318,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -17316,15 +17330,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26758},
+																		pos: position{line: 834, col: 5, offset: 26769},
 																		run: (*parser).callonDocumentHeader233,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -17337,41 +17351,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1115, col: 5, offset: 34271},
+							pos:   position{line: 1116, col: 5, offset: 34282},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1115, col: 24, offset: 34290},
+								pos: position{line: 1116, col: 24, offset: 34301},
 								expr: &actionExpr{
-									pos: position{line: 1126, col: 5, offset: 34665},
+									pos: position{line: 1127, col: 5, offset: 34676},
 									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1126, col: 5, offset: 34665},
+										pos: position{line: 1127, col: 5, offset: 34676},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1126, col: 5, offset: 34665},
+												pos: position{line: 1127, col: 5, offset: 34676},
 												expr: &litMatcher{
-													pos:        position{line: 1126, col: 6, offset: 34666},
+													pos:        position{line: 1127, col: 6, offset: 34677},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1127, col: 5, offset: 34674},
+												pos:   position{line: 1128, col: 5, offset: 34685},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1133, col: 20, offset: 34930},
+													pos: position{line: 1134, col: 20, offset: 34941},
 													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1133, col: 20, offset: 34930},
+														pos: position{line: 1134, col: 20, offset: 34941},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1133, col: 20, offset: 34930},
+																pos: position{line: 1134, col: 20, offset: 34941},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17380,37 +17394,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1133, col: 27, offset: 34937},
+																pos:   position{line: 1134, col: 27, offset: 34948},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1133, col: 36, offset: 34946},
+																	pos: position{line: 1134, col: 36, offset: 34957},
 																	expr: &actionExpr{
-																		pos: position{line: 1138, col: 5, offset: 35059},
+																		pos: position{line: 1139, col: 5, offset: 35070},
 																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1138, col: 5, offset: 35059},
+																			pos: position{line: 1139, col: 5, offset: 35070},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 5, offset: 35059},
+																					pos:   position{line: 1139, col: 5, offset: 35070},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 14, offset: 35068},
+																						pos: position{line: 1139, col: 14, offset: 35079},
 																						expr: &actionExpr{
-																							pos: position{line: 1149, col: 5, offset: 35448},
+																							pos: position{line: 1150, col: 5, offset: 35459},
 																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1149, col: 5, offset: 35448},
+																								pos: position{line: 1150, col: 5, offset: 35459},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35448},
+																										pos:   position{line: 1150, col: 5, offset: 35459},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1149, col: 12, offset: 35455},
+																											pos: position{line: 1150, col: 12, offset: 35466},
 																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1149, col: 12, offset: 35455},
+																												pos: position{line: 1150, col: 12, offset: 35466},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1149, col: 12, offset: 35455},
+																													pos:        position{line: 1150, col: 12, offset: 35466},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17420,12 +17434,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35535},
+																										pos: position{line: 1153, col: 5, offset: 35546},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17434,17 +17448,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1153, col: 5, offset: 35546},
+																										pos:   position{line: 1154, col: 5, offset: 35557},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1153, col: 11, offset: 35552},
+																											pos: position{line: 1154, col: 11, offset: 35563},
 																											expr: &actionExpr{
-																												pos: position{line: 1153, col: 12, offset: 35553},
+																												pos: position{line: 1154, col: 12, offset: 35564},
 																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1153, col: 12, offset: 35553},
+																													pos: position{line: 1154, col: 12, offset: 35564},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1153, col: 12, offset: 35553},
+																														pos:        position{line: 1154, col: 12, offset: 35564},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17455,12 +17469,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1156, col: 5, offset: 35634},
+																										pos: position{line: 1157, col: 5, offset: 35645},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17469,17 +17483,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1157, col: 5, offset: 35645},
+																										pos:   position{line: 1158, col: 5, offset: 35656},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1157, col: 11, offset: 35651},
+																											pos: position{line: 1158, col: 11, offset: 35662},
 																											expr: &actionExpr{
-																												pos: position{line: 1157, col: 12, offset: 35652},
+																												pos: position{line: 1158, col: 12, offset: 35663},
 																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1157, col: 12, offset: 35652},
+																													pos: position{line: 1158, col: 12, offset: 35663},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1157, col: 12, offset: 35652},
+																														pos:        position{line: 1158, col: 12, offset: 35663},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17490,12 +17504,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1160, col: 5, offset: 35731},
+																										pos: position{line: 1161, col: 5, offset: 35742},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17509,38 +17523,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 40, offset: 35094},
+																					pos:   position{line: 1139, col: 40, offset: 35105},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 46, offset: 35100},
+																						pos: position{line: 1139, col: 46, offset: 35111},
 																						expr: &actionExpr{
-																							pos: position{line: 1166, col: 5, offset: 35853},
+																							pos: position{line: 1167, col: 5, offset: 35864},
 																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1166, col: 5, offset: 35853},
+																								pos: position{line: 1167, col: 5, offset: 35864},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2883, col: 11, offset: 91076},
+																										pos: position{line: 2884, col: 11, offset: 91087},
 																										expr: &anyMatcher{
-																											line: 2883, col: 13, offset: 91078,
+																											line: 2884, col: 13, offset: 91089,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1167, col: 5, offset: 35865},
+																										pos:        position{line: 1168, col: 5, offset: 35876},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1168, col: 5, offset: 35874},
+																										pos:   position{line: 1169, col: 5, offset: 35885},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1168, col: 12, offset: 35881},
+																											pos: position{line: 1169, col: 12, offset: 35892},
 																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1168, col: 13, offset: 35882},
+																												pos: position{line: 1169, col: 13, offset: 35893},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1168, col: 13, offset: 35882},
+																													pos:        position{line: 1169, col: 13, offset: 35893},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17550,7 +17564,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1171, col: 5, offset: 35942},
+																										pos:        position{line: 1172, col: 5, offset: 35953},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17561,12 +17575,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 69, offset: 35123},
+																					pos: position{line: 1139, col: 69, offset: 35134},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17575,21 +17589,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1138, col: 76, offset: 35130},
+																					pos: position{line: 1139, col: 76, offset: 35141},
 																					expr: &litMatcher{
-																						pos:        position{line: 1138, col: 76, offset: 35130},
+																						pos:        position{line: 1139, col: 76, offset: 35141},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 81, offset: 35135},
+																					pos: position{line: 1139, col: 81, offset: 35146},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17598,7 +17612,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1139, col: 5, offset: 35147},
+																					pos: position{line: 1140, col: 5, offset: 35158},
 																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
@@ -17607,28 +17621,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17637,9 +17651,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -17649,41 +17663,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1128, col: 5, offset: 34704},
+												pos: position{line: 1129, col: 5, offset: 34715},
 												expr: &choiceExpr{
-													pos: position{line: 1128, col: 6, offset: 34705},
+													pos: position{line: 1129, col: 6, offset: 34716},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2476, col: 22, offset: 79727},
+															pos: position{line: 2477, col: 22, offset: 79738},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2476, col: 22, offset: 79727},
+																pos: position{line: 2477, col: 22, offset: 79738},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2481, col: 31, offset: 79948},
+																		pos:        position{line: 2482, col: 31, offset: 79959},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2481, col: 36, offset: 79953},
+																		pos: position{line: 2482, col: 36, offset: 79964},
 																		expr: &litMatcher{
-																			pos:        position{line: 2481, col: 37, offset: 79954},
+																			pos:        position{line: 2482, col: 37, offset: 79965},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2476, col: 49, offset: 79754},
+																		pos:   position{line: 2477, col: 49, offset: 79765},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89268},
+																			pos: position{line: 2813, col: 13, offset: 89279},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89268},
+																				pos: position{line: 2813, col: 13, offset: 89279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89268},
+																					pos:        position{line: 2813, col: 13, offset: 89279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17693,28 +17707,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17723,9 +17737,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -17734,39 +17748,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26362},
+															pos: position{line: 821, col: 5, offset: 26373},
 															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26362},
+																pos: position{line: 821, col: 5, offset: 26373},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 820, col: 5, offset: 26362},
+																		pos:   position{line: 821, col: 5, offset: 26373},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23622},
+																			pos: position{line: 741, col: 5, offset: 23633},
 																			run: (*parser).callonDocumentHeader330,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23622},
+																						pos:   position{line: 741, col: 5, offset: 23633},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23633},
+																							pos: position{line: 741, col: 16, offset: 23644},
 																							run: (*parser).callonDocumentHeader333,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23633},
+																										pos:        position{line: 741, col: 16, offset: 23644},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23640},
+																										pos: position{line: 741, col: 23, offset: 23651},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23640},
+																											pos:        position{line: 741, col: 23, offset: 23651},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17777,12 +17791,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23724},
+																						pos: position{line: 743, col: 8, offset: 23735},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17791,28 +17805,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17821,9 +17835,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -17833,56 +17847,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 821, col: 5, offset: 26401},
+																		pos: position{line: 822, col: 5, offset: 26412},
 																		run: (*parser).callonDocumentHeader349,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 824, col: 5, offset: 26493},
+																		pos:   position{line: 825, col: 5, offset: 26504},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 839, col: 5, offset: 26885},
+																			pos: position{line: 840, col: 5, offset: 26896},
 																			expr: &actionExpr{
-																				pos: position{line: 839, col: 6, offset: 26886},
+																				pos: position{line: 840, col: 6, offset: 26897},
 																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 839, col: 6, offset: 26886},
+																					pos: position{line: 840, col: 6, offset: 26897},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 839, col: 6, offset: 26886},
+																							pos: position{line: 840, col: 6, offset: 26897},
 																							expr: &choiceExpr{
-																								pos: position{line: 832, col: 5, offset: 26727},
+																								pos: position{line: 833, col: 5, offset: 26738},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 832, col: 5, offset: 26727},
+																										pos: position{line: 833, col: 5, offset: 26738},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 832, col: 5, offset: 26727},
+																												pos:   position{line: 833, col: 5, offset: 26738},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 5, offset: 23622},
+																													pos: position{line: 741, col: 5, offset: 23633},
 																													run: (*parser).callonDocumentHeader358,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 5, offset: 23622},
+																														pos: position{line: 741, col: 5, offset: 23633},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 740, col: 5, offset: 23622},
+																																pos:   position{line: 741, col: 5, offset: 23633},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 740, col: 16, offset: 23633},
+																																	pos: position{line: 741, col: 16, offset: 23644},
 																																	run: (*parser).callonDocumentHeader361,
 																																	expr: &seqExpr{
-																																		pos: position{line: 740, col: 16, offset: 23633},
+																																		pos: position{line: 741, col: 16, offset: 23644},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 740, col: 16, offset: 23633},
+																																				pos:        position{line: 741, col: 16, offset: 23644},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 740, col: 23, offset: 23640},
+																																				pos: position{line: 741, col: 23, offset: 23651},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 740, col: 23, offset: 23640},
+																																					pos:        position{line: 741, col: 23, offset: 23651},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17893,12 +17907,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 742, col: 8, offset: 23724},
+																																pos: position{line: 743, col: 8, offset: 23735},
 																																expr: &actionExpr{
-																																	pos: position{line: 2866, col: 10, offset: 90742},
+																																	pos: position{line: 2867, col: 10, offset: 90753},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2866, col: 10, offset: 90742},
+																																		pos:        position{line: 2867, col: 10, offset: 90753},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17907,28 +17921,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2888, col: 8, offset: 91140},
+																																pos: position{line: 2889, col: 8, offset: 91151},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2875, col: 12, offset: 90913},
+																																		pos: position{line: 2876, col: 12, offset: 90924},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2875, col: 13, offset: 90914},
+																																			pos: position{line: 2876, col: 13, offset: 90925},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 13, offset: 90914},
+																																					pos:        position{line: 2876, col: 13, offset: 90925},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 20, offset: 90921},
+																																					pos:        position{line: 2876, col: 20, offset: 90932},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 29, offset: 90930},
+																																					pos:        position{line: 2876, col: 29, offset: 90941},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17937,9 +17951,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2885, col: 8, offset: 91090},
+																																		pos: position{line: 2886, col: 8, offset: 91101},
 																																		expr: &anyMatcher{
-																																			line: 2885, col: 9, offset: 91091,
+																																			line: 2886, col: 9, offset: 91102,
 																																		},
 																																	},
 																																},
@@ -17949,45 +17963,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 833, col: 5, offset: 26758},
+																												pos: position{line: 834, col: 5, offset: 26769},
 																												run: (*parser).callonDocumentHeader377,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 840, col: 5, offset: 26916},
+																							pos:   position{line: 841, col: 5, offset: 26927},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26126},
+																								pos: position{line: 812, col: 5, offset: 26137},
 																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26126},
+																									pos: position{line: 812, col: 5, offset: 26137},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2883, col: 11, offset: 91076},
+																											pos: position{line: 2884, col: 11, offset: 91087},
 																											expr: &anyMatcher{
-																												line: 2883, col: 13, offset: 91078,
+																												line: 2884, col: 13, offset: 91089,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26201},
+																											pos:   position{line: 813, col: 5, offset: 26212},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2812, col: 13, offset: 89268},
+																												pos: position{line: 2813, col: 13, offset: 89279},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2812, col: 13, offset: 89268},
+																													pos: position{line: 2813, col: 13, offset: 89279},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2812, col: 13, offset: 89268},
+																														pos:        position{line: 2813, col: 13, offset: 89279},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17997,28 +18011,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18027,9 +18041,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -18044,41 +18058,41 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 825, col: 5, offset: 26527},
+																		pos: position{line: 826, col: 5, offset: 26538},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26727},
+																			pos: position{line: 833, col: 5, offset: 26738},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26727},
+																					pos: position{line: 833, col: 5, offset: 26738},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26727},
+																							pos:   position{line: 833, col: 5, offset: 26738},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23622},
+																								pos: position{line: 741, col: 5, offset: 23633},
 																								run: (*parser).callonDocumentHeader401,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23622},
+																											pos:   position{line: 741, col: 5, offset: 23633},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23633},
+																												pos: position{line: 741, col: 16, offset: 23644},
 																												run: (*parser).callonDocumentHeader404,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23633},
+																															pos:        position{line: 741, col: 16, offset: 23644},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23640},
+																															pos: position{line: 741, col: 23, offset: 23651},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23640},
+																																pos:        position{line: 741, col: 23, offset: 23651},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -18089,12 +18103,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23724},
+																											pos: position{line: 743, col: 8, offset: 23735},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18103,28 +18117,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18133,9 +18147,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -18145,15 +18159,15 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26758},
+																							pos: position{line: 834, col: 5, offset: 26769},
 																							run: (*parser).callonDocumentHeader420,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -18166,23 +18180,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1129, col: 5, offset: 34779},
+												pos:   position{line: 1130, col: 5, offset: 34790},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1129, col: 14, offset: 34788},
+													pos: position{line: 1130, col: 14, offset: 34799},
 													expr: &actionExpr{
-														pos: position{line: 1177, col: 21, offset: 36131},
+														pos: position{line: 1178, col: 21, offset: 36142},
 														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1177, col: 21, offset: 36131},
+															pos: position{line: 1178, col: 21, offset: 36142},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1177, col: 21, offset: 36131},
+																	pos: position{line: 1178, col: 21, offset: 36142},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18191,55 +18205,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1177, col: 28, offset: 36138},
+																	pos: position{line: 1178, col: 28, offset: 36149},
 																	expr: &litMatcher{
-																		pos:        position{line: 1177, col: 29, offset: 36139},
+																		pos:        position{line: 1178, col: 29, offset: 36150},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1177, col: 33, offset: 36143},
+																	pos:   position{line: 1178, col: 33, offset: 36154},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1178, col: 9, offset: 36162},
+																		pos: position{line: 1179, col: 9, offset: 36173},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1178, col: 10, offset: 36163},
+																				pos: position{line: 1179, col: 10, offset: 36174},
 																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1178, col: 10, offset: 36163},
+																					pos: position{line: 1179, col: 10, offset: 36174},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 10, offset: 36163},
+																							pos:   position{line: 1179, col: 10, offset: 36174},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1187, col: 27, offset: 36680},
+																								pos: position{line: 1188, col: 27, offset: 36691},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1187, col: 27, offset: 36680},
+																										pos: position{line: 1188, col: 27, offset: 36691},
 																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1187, col: 27, offset: 36680},
+																											pos: position{line: 1188, col: 27, offset: 36691},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1187, col: 27, offset: 36680},
+																													pos:        position{line: 1188, col: 27, offset: 36691},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1187, col: 32, offset: 36685},
+																													pos:        position{line: 1188, col: 32, offset: 36696},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1187, col: 38, offset: 36691},
+																													pos: position{line: 1188, col: 38, offset: 36702},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1187, col: 38, offset: 36691},
+																														pos:        position{line: 1188, col: 38, offset: 36702},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18250,31 +18264,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1189, col: 5, offset: 36739},
+																										pos: position{line: 1190, col: 5, offset: 36750},
 																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1189, col: 5, offset: 36739},
+																											pos: position{line: 1190, col: 5, offset: 36750},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1189, col: 5, offset: 36739},
+																													pos: position{line: 1190, col: 5, offset: 36750},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 5, offset: 36739},
+																														pos:        position{line: 1190, col: 5, offset: 36750},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1189, col: 11, offset: 36745},
+																													pos:        position{line: 1190, col: 11, offset: 36756},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1189, col: 17, offset: 36751},
+																													pos: position{line: 1190, col: 17, offset: 36762},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1189, col: 17, offset: 36751},
+																														pos:        position{line: 1190, col: 17, offset: 36762},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18282,12 +18296,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1189, col: 28, offset: 36762},
+																													pos: position{line: 1190, col: 28, offset: 36773},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18296,9 +18310,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1189, col: 35, offset: 36769},
+																													pos: position{line: 1190, col: 35, offset: 36780},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 36, offset: 36770},
+																														pos:        position{line: 1190, col: 36, offset: 36781},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18311,26 +18325,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 45, offset: 36198},
+																							pos: position{line: 1179, col: 45, offset: 36209},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 45, offset: 36198},
+																								pos:        position{line: 1179, col: 45, offset: 36209},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 50, offset: 36203},
+																							pos:   position{line: 1179, col: 50, offset: 36214},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 58, offset: 36211},
+																								pos: position{line: 1179, col: 58, offset: 36222},
 																								expr: &actionExpr{
-																									pos: position{line: 1193, col: 25, offset: 36834},
+																									pos: position{line: 1194, col: 25, offset: 36845},
 																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1193, col: 25, offset: 36834},
+																										pos: position{line: 1194, col: 25, offset: 36845},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1193, col: 25, offset: 36834},
+																											pos:        position{line: 1194, col: 25, offset: 36845},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18341,26 +18355,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 82, offset: 36235},
+																							pos: position{line: 1179, col: 82, offset: 36246},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 82, offset: 36235},
+																								pos:        position{line: 1179, col: 82, offset: 36246},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 87, offset: 36240},
+																							pos:   position{line: 1179, col: 87, offset: 36251},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 97, offset: 36250},
+																								pos: position{line: 1179, col: 97, offset: 36261},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36906},
+																									pos: position{line: 1198, col: 27, offset: 36917},
 																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36906},
+																										pos: position{line: 1198, col: 27, offset: 36917},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36906},
+																											pos:        position{line: 1198, col: 27, offset: 36917},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18374,21 +18388,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1180, col: 15, offset: 36368},
+																				pos: position{line: 1181, col: 15, offset: 36379},
 																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1180, col: 15, offset: 36368},
+																					pos: position{line: 1181, col: 15, offset: 36379},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 15, offset: 36368},
+																							pos:   position{line: 1181, col: 15, offset: 36379},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1193, col: 25, offset: 36834},
+																								pos: position{line: 1194, col: 25, offset: 36845},
 																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1193, col: 25, offset: 36834},
+																									pos: position{line: 1194, col: 25, offset: 36845},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1193, col: 25, offset: 36834},
+																										pos:        position{line: 1194, col: 25, offset: 36845},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18398,26 +18412,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1180, col: 46, offset: 36399},
+																							pos: position{line: 1181, col: 46, offset: 36410},
 																							expr: &litMatcher{
-																								pos:        position{line: 1180, col: 46, offset: 36399},
+																								pos:        position{line: 1181, col: 46, offset: 36410},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 51, offset: 36404},
+																							pos:   position{line: 1181, col: 51, offset: 36415},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1180, col: 61, offset: 36414},
+																								pos: position{line: 1181, col: 61, offset: 36425},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36906},
+																									pos: position{line: 1198, col: 27, offset: 36917},
 																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36906},
+																										pos: position{line: 1198, col: 27, offset: 36917},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36906},
+																											pos:        position{line: 1198, col: 27, offset: 36917},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18434,28 +18448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18464,9 +18478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -18482,40 +18496,40 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 5, offset: 34325},
+							pos:   position{line: 1117, col: 5, offset: 34336},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1116, col: 19, offset: 34339},
+								pos: position{line: 1117, col: 19, offset: 34350},
 								expr: &choiceExpr{
-									pos: position{line: 1116, col: 20, offset: 34340},
+									pos: position{line: 1117, col: 20, offset: 34351},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1116, col: 20, offset: 34340},
+											pos:  position{line: 1117, col: 20, offset: 34351},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 361, col: 19, offset: 10921},
 											run: (*parser).callonDocumentHeader495,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 361, col: 19, offset: 10921},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 361, col: 19, offset: 10921},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 361, col: 24, offset: 10926},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															run: (*parser).callonDocumentHeader499,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 319, col: 18, offset: 9747},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18523,9 +18537,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 319, col: 29, offset: 9758},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18538,18 +18552,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 361, col: 45, offset: 10947},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18558,28 +18572,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18588,9 +18602,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -18599,28 +18613,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 363, col: 9, offset: 11042},
 											run: (*parser).callonDocumentHeader516,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 363, col: 9, offset: 11042},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 363, col: 9, offset: 11042},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 363, col: 13, offset: 11046},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															run: (*parser).callonDocumentHeader520,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 319, col: 18, offset: 9747},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18628,9 +18642,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 319, col: 29, offset: 9758},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18643,18 +18657,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 363, col: 34, offset: 11067},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90742},
+															pos: position{line: 2867, col: 10, offset: 90753},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90742},
+																pos:        position{line: 2867, col: 10, offset: 90753},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18663,28 +18677,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18693,9 +18707,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -18704,36 +18718,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2476, col: 22, offset: 79727},
+												pos: position{line: 2477, col: 22, offset: 79738},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2481, col: 31, offset: 79948},
+														pos:        position{line: 2482, col: 31, offset: 79959},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2481, col: 36, offset: 79953},
+														pos: position{line: 2482, col: 36, offset: 79964},
 														expr: &litMatcher{
-															pos:        position{line: 2481, col: 37, offset: 79954},
+															pos:        position{line: 2482, col: 37, offset: 79965},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2476, col: 49, offset: 79754},
+														pos:   position{line: 2477, col: 49, offset: 79765},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2812, col: 13, offset: 89268},
+																pos: position{line: 2813, col: 13, offset: 89279},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89268},
+																	pos:        position{line: 2813, col: 13, offset: 89279},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18743,28 +18757,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18773,9 +18787,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -18784,39 +18798,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26362},
+											pos: position{line: 821, col: 5, offset: 26373},
 											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26362},
+												pos: position{line: 821, col: 5, offset: 26373},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26362},
+														pos:   position{line: 821, col: 5, offset: 26373},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23622},
+															pos: position{line: 741, col: 5, offset: 23633},
 															run: (*parser).callonDocumentHeader557,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23622},
+																pos: position{line: 741, col: 5, offset: 23633},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23622},
+																		pos:   position{line: 741, col: 5, offset: 23633},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23633},
+																			pos: position{line: 741, col: 16, offset: 23644},
 																			run: (*parser).callonDocumentHeader560,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23633},
+																				pos: position{line: 741, col: 16, offset: 23644},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23633},
+																						pos:        position{line: 741, col: 16, offset: 23644},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23640},
+																						pos: position{line: 741, col: 23, offset: 23651},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23640},
+																							pos:        position{line: 741, col: 23, offset: 23651},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18827,12 +18841,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23724},
+																		pos: position{line: 743, col: 8, offset: 23735},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18841,28 +18855,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18871,9 +18885,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -18883,56 +18897,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26401},
+														pos: position{line: 822, col: 5, offset: 26412},
 														run: (*parser).callonDocumentHeader576,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26493},
+														pos:   position{line: 825, col: 5, offset: 26504},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26885},
+															pos: position{line: 840, col: 5, offset: 26896},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26886},
+																pos: position{line: 840, col: 6, offset: 26897},
 																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26886},
+																	pos: position{line: 840, col: 6, offset: 26897},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26886},
+																			pos: position{line: 840, col: 6, offset: 26897},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26727},
+																				pos: position{line: 833, col: 5, offset: 26738},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26727},
+																						pos: position{line: 833, col: 5, offset: 26738},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26727},
+																								pos:   position{line: 833, col: 5, offset: 26738},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									run: (*parser).callonDocumentHeader585,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23622},
+																										pos: position{line: 741, col: 5, offset: 23633},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23622},
+																												pos:   position{line: 741, col: 5, offset: 23633},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													run: (*parser).callonDocumentHeader588,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23633},
+																														pos: position{line: 741, col: 16, offset: 23644},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23633},
+																																pos:        position{line: 741, col: 16, offset: 23644},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23640},
+																																pos: position{line: 741, col: 23, offset: 23651},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23640},
+																																	pos:        position{line: 741, col: 23, offset: 23651},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18943,12 +18957,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23724},
+																												pos: position{line: 743, col: 8, offset: 23735},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90742},
+																													pos: position{line: 2867, col: 10, offset: 90753},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90742},
+																														pos:        position{line: 2867, col: 10, offset: 90753},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18957,28 +18971,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91140},
+																												pos: position{line: 2889, col: 8, offset: 91151},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90913},
+																														pos: position{line: 2876, col: 12, offset: 90924},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90914},
+																															pos: position{line: 2876, col: 13, offset: 90925},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90914},
+																																	pos:        position{line: 2876, col: 13, offset: 90925},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90921},
+																																	pos:        position{line: 2876, col: 20, offset: 90932},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90930},
+																																	pos:        position{line: 2876, col: 29, offset: 90941},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18987,9 +19001,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91090},
+																														pos: position{line: 2886, col: 8, offset: 91101},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91091,
+																															line: 2886, col: 9, offset: 91102,
 																														},
 																													},
 																												},
@@ -18999,45 +19013,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26758},
+																								pos: position{line: 834, col: 5, offset: 26769},
 																								run: (*parser).callonDocumentHeader604,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26916},
+																			pos:   position{line: 841, col: 5, offset: 26927},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26126},
+																					pos: position{line: 812, col: 5, offset: 26137},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26201},
+																							pos:   position{line: 813, col: 5, offset: 26212},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89268},
+																									pos: position{line: 2813, col: 13, offset: 89279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89268},
+																										pos:        position{line: 2813, col: 13, offset: 89279},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19047,28 +19061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19077,9 +19091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -19094,41 +19108,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 825, col: 5, offset: 26527},
+														pos: position{line: 826, col: 5, offset: 26538},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26727},
+															pos: position{line: 833, col: 5, offset: 26738},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26727},
+																	pos: position{line: 833, col: 5, offset: 26738},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26727},
+																			pos:   position{line: 833, col: 5, offset: 26738},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				run: (*parser).callonDocumentHeader628,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23622},
+																					pos: position{line: 741, col: 5, offset: 23633},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23622},
+																							pos:   position{line: 741, col: 5, offset: 23633},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								run: (*parser).callonDocumentHeader631,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23633},
+																									pos: position{line: 741, col: 16, offset: 23644},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23633},
+																											pos:        position{line: 741, col: 16, offset: 23644},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23640},
+																											pos: position{line: 741, col: 23, offset: 23651},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23640},
+																												pos:        position{line: 741, col: 23, offset: 23651},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -19139,12 +19153,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23724},
+																							pos: position{line: 743, col: 8, offset: 23735},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19153,28 +19167,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19183,9 +19197,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -19195,15 +19209,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26758},
+																			pos: position{line: 834, col: 5, offset: 26769},
 																			run: (*parser).callonDocumentHeader647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -19222,26 +19236,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1120, col: 1, offset: 34537},
+			pos:  position{line: 1121, col: 1, offset: 34548},
 			expr: &actionExpr{
-				pos: position{line: 1121, col: 5, offset: 34559},
+				pos: position{line: 1122, col: 5, offset: 34570},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1121, col: 5, offset: 34559},
+					pos: position{line: 1122, col: 5, offset: 34570},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1121, col: 5, offset: 34559},
+							pos:        position{line: 1122, col: 5, offset: 34570},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2870, col: 11, offset: 90803},
+							pos: position{line: 2871, col: 11, offset: 90814},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2870, col: 11, offset: 90803},
+								pos: position{line: 2871, col: 11, offset: 90814},
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 11, offset: 90803},
+									pos:        position{line: 2871, col: 11, offset: 90814},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19250,36 +19264,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1121, col: 16, offset: 34570},
+							pos:   position{line: 1122, col: 16, offset: 34581},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1121, col: 23, offset: 34577},
+								pos:  position{line: 1122, col: 23, offset: 34588},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19288,9 +19302,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -19301,23 +19315,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1148, col: 1, offset: 35417},
+			pos:  position{line: 1149, col: 1, offset: 35428},
 			expr: &actionExpr{
-				pos: position{line: 1149, col: 5, offset: 35448},
+				pos: position{line: 1150, col: 5, offset: 35459},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1149, col: 5, offset: 35448},
+					pos: position{line: 1150, col: 5, offset: 35459},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35448},
+							pos:   position{line: 1150, col: 5, offset: 35459},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1149, col: 12, offset: 35455},
+								pos: position{line: 1150, col: 12, offset: 35466},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1149, col: 12, offset: 35455},
+									pos: position{line: 1150, col: 12, offset: 35466},
 									expr: &charClassMatcher{
-										pos:        position{line: 1149, col: 12, offset: 35455},
+										pos:        position{line: 1150, col: 12, offset: 35466},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19327,12 +19341,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35535},
+							pos: position{line: 1153, col: 5, offset: 35546},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19341,17 +19355,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1153, col: 5, offset: 35546},
+							pos:   position{line: 1154, col: 5, offset: 35557},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1153, col: 11, offset: 35552},
+								pos: position{line: 1154, col: 11, offset: 35563},
 								expr: &actionExpr{
-									pos: position{line: 1153, col: 12, offset: 35553},
+									pos: position{line: 1154, col: 12, offset: 35564},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1153, col: 12, offset: 35553},
+										pos: position{line: 1154, col: 12, offset: 35564},
 										expr: &charClassMatcher{
-											pos:        position{line: 1153, col: 12, offset: 35553},
+											pos:        position{line: 1154, col: 12, offset: 35564},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19362,12 +19376,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1156, col: 5, offset: 35634},
+							pos: position{line: 1157, col: 5, offset: 35645},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19376,17 +19390,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1157, col: 5, offset: 35645},
+							pos:   position{line: 1158, col: 5, offset: 35656},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1157, col: 11, offset: 35651},
+								pos: position{line: 1158, col: 11, offset: 35662},
 								expr: &actionExpr{
-									pos: position{line: 1157, col: 12, offset: 35652},
+									pos: position{line: 1158, col: 12, offset: 35663},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1157, col: 12, offset: 35652},
+										pos: position{line: 1158, col: 12, offset: 35663},
 										expr: &charClassMatcher{
-											pos:        position{line: 1157, col: 12, offset: 35652},
+											pos:        position{line: 1158, col: 12, offset: 35663},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19397,12 +19411,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1160, col: 5, offset: 35731},
+							pos: position{line: 1161, col: 5, offset: 35742},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19416,28 +19430,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1278, col: 1, offset: 39564},
+			pos:  position{line: 1279, col: 1, offset: 39575},
 			expr: &actionExpr{
-				pos: position{line: 1279, col: 5, offset: 39585},
+				pos: position{line: 1280, col: 5, offset: 39596},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1279, col: 5, offset: 39585},
+					pos: position{line: 1280, col: 5, offset: 39596},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1279, col: 5, offset: 39585},
+							pos: position{line: 1280, col: 5, offset: 39596},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1282, col: 5, offset: 39644},
+							pos:        position{line: 1283, col: 5, offset: 39655},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1282, col: 12, offset: 39651},
+							pos:   position{line: 1283, col: 12, offset: 39662},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1282, col: 24, offset: 39663},
+								pos:  position{line: 1283, col: 24, offset: 39674},
 								name: "InlineAttributes",
 							},
 						},
@@ -19447,33 +19461,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1289, col: 1, offset: 39951},
+			pos:  position{line: 1290, col: 1, offset: 39962},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 5, offset: 39970},
+				pos: position{line: 1291, col: 5, offset: 39981},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 5, offset: 39970},
+					pos: position{line: 1291, col: 5, offset: 39981},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1290, col: 5, offset: 39970},
+							pos: position{line: 1291, col: 5, offset: 39981},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1293, col: 5, offset: 40029},
+							pos:        position{line: 1294, col: 5, offset: 40040},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 13, offset: 40037},
+							pos:   position{line: 1294, col: 13, offset: 40048},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2851, col: 7, offset: 90394},
+								pos: position{line: 2852, col: 7, offset: 90405},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2851, col: 7, offset: 90394},
+									pos: position{line: 2852, col: 7, offset: 90405},
 									expr: &charClassMatcher{
-										pos:        position{line: 2851, col: 7, offset: 90394},
+										pos:        position{line: 2852, col: 7, offset: 90405},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19483,10 +19497,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1293, col: 21, offset: 40045},
+							pos:   position{line: 1294, col: 21, offset: 40056},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1293, col: 33, offset: 40057},
+								pos:  position{line: 1294, col: 33, offset: 40068},
 								name: "InlineAttributes",
 							},
 						},
@@ -19496,29 +19510,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1300, col: 1, offset: 40356},
+			pos:  position{line: 1301, col: 1, offset: 40367},
 			expr: &actionExpr{
-				pos: position{line: 1300, col: 14, offset: 40369},
+				pos: position{line: 1301, col: 14, offset: 40380},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1300, col: 14, offset: 40369},
+					pos: position{line: 1301, col: 14, offset: 40380},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1300, col: 14, offset: 40369},
+							pos:        position{line: 1301, col: 14, offset: 40380},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 19, offset: 40374},
+							pos:   position{line: 1301, col: 19, offset: 40385},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1300, col: 25, offset: 40380},
+								pos:  position{line: 1301, col: 25, offset: 40391},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1300, col: 43, offset: 40398},
+							pos:        position{line: 1301, col: 43, offset: 40409},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19529,25 +19543,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1304, col: 1, offset: 40467},
+			pos:  position{line: 1305, col: 1, offset: 40478},
 			expr: &actionExpr{
-				pos: position{line: 1304, col: 21, offset: 40487},
+				pos: position{line: 1305, col: 21, offset: 40498},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1304, col: 21, offset: 40487},
+					pos:   position{line: 1305, col: 21, offset: 40498},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1304, col: 30, offset: 40496},
+						pos: position{line: 1305, col: 30, offset: 40507},
 						expr: &choiceExpr{
-							pos: position{line: 1304, col: 31, offset: 40497},
+							pos: position{line: 1305, col: 31, offset: 40508},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87911},
+									pos: position{line: 2761, col: 14, offset: 87922},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87911},
+										pos: position{line: 2761, col: 14, offset: 87922},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87911},
+											pos:        position{line: 2761, col: 14, offset: 87922},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19556,14 +19570,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1304, col: 43, offset: 40509},
+									pos:  position{line: 1305, col: 43, offset: 40520},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90742},
+									pos: position{line: 2867, col: 10, offset: 90753},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90742},
+										pos:        position{line: 2867, col: 10, offset: 90753},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19571,23 +19585,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2463, col: 5, offset: 79273},
+									pos: position{line: 2464, col: 5, offset: 79284},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2463, col: 5, offset: 79273},
+										pos: position{line: 2464, col: 5, offset: 79284},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2463, col: 5, offset: 79273},
+												pos: position{line: 2464, col: 5, offset: 79284},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2466, col: 5, offset: 79349},
+												pos:   position{line: 2467, col: 5, offset: 79360},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2467, col: 9, offset: 79367},
+													pos: position{line: 2468, col: 9, offset: 79378},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2467, col: 10, offset: 79368},
+														pos:        position{line: 2468, col: 10, offset: 79379},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19599,27 +19613,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1206, col: 23, offset: 37216},
+									pos: position{line: 1207, col: 23, offset: 37227},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1206, col: 23, offset: 37216},
+										pos: position{line: 1207, col: 23, offset: 37227},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37184},
+												pos:        position{line: 1205, col: 32, offset: 37195},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1206, col: 51, offset: 37244},
+												pos:   position{line: 1207, col: 51, offset: 37255},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1206, col: 56, offset: 37249},
+													pos: position{line: 1207, col: 56, offset: 37260},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1206, col: 56, offset: 37249},
+														pos: position{line: 1207, col: 56, offset: 37260},
 														expr: &charClassMatcher{
-															pos:        position{line: 1206, col: 56, offset: 37249},
+															pos:        position{line: 1207, col: 56, offset: 37260},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19629,7 +19643,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37184},
+												pos:        position{line: 1205, col: 32, offset: 37195},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19638,22 +19652,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1304, col: 104, offset: 40570},
+									pos: position{line: 1305, col: 104, offset: 40581},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1304, col: 105, offset: 40571},
+										pos: position{line: 1305, col: 105, offset: 40582},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1304, col: 105, offset: 40571},
+												pos: position{line: 1305, col: 105, offset: 40582},
 												expr: &litMatcher{
-													pos:        position{line: 1304, col: 106, offset: 40572},
+													pos:        position{line: 1305, col: 106, offset: 40583},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1304, col: 111, offset: 40577,
+												line: 1305, col: 111, offset: 40588,
 											},
 										},
 									},
@@ -19666,65 +19680,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1324, col: 1, offset: 41286},
+			pos:  position{line: 1325, col: 1, offset: 41297},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 5, offset: 41305},
+				pos: position{line: 1326, col: 5, offset: 41316},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 5, offset: 41305},
+					pos: position{line: 1326, col: 5, offset: 41316},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 5, offset: 41305},
+							pos:        position{line: 1326, col: 5, offset: 41316},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 15, offset: 41315},
+							pos:   position{line: 1326, col: 15, offset: 41326},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 13, offset: 89501},
+								pos: position{line: 2825, col: 13, offset: 89512},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2824, col: 13, offset: 89501},
+									pos: position{line: 2825, col: 13, offset: 89512},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2824, col: 13, offset: 89501},
+											pos:   position{line: 2825, col: 13, offset: 89512},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2824, col: 20, offset: 89508},
+												pos: position{line: 2825, col: 20, offset: 89519},
 												expr: &actionExpr{
-													pos: position{line: 2832, col: 11, offset: 89747},
+													pos: position{line: 2833, col: 11, offset: 89758},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2832, col: 12, offset: 89748},
+														pos: position{line: 2833, col: 12, offset: 89759},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2832, col: 12, offset: 89748},
+																pos:        position{line: 2833, col: 12, offset: 89759},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 24, offset: 89760},
+																pos:        position{line: 2833, col: 24, offset: 89771},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 37, offset: 89773},
+																pos:        position{line: 2833, col: 37, offset: 89784},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 48, offset: 89784},
+																pos:        position{line: 2833, col: 48, offset: 89795},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 59, offset: 89795},
+																pos:        position{line: 2833, col: 59, offset: 89806},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19735,38 +19749,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2824, col: 30, offset: 89518},
+											pos:   position{line: 2825, col: 30, offset: 89529},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2837, col: 5, offset: 89859},
+												pos: position{line: 2838, col: 5, offset: 89870},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2837, col: 5, offset: 89859},
+													pos:   position{line: 2838, col: 5, offset: 89870},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2837, col: 14, offset: 89868},
+														pos: position{line: 2838, col: 14, offset: 89879},
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 9, offset: 89878},
+															pos: position{line: 2839, col: 9, offset: 89889},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2838, col: 9, offset: 89878},
+																		pos: position{line: 2839, col: 9, offset: 89889},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				expr: &litMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89879},
+																					pos:        position{line: 2839, col: 10, offset: 89890},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2839, col: 9, offset: 89907},
+																				pos: position{line: 2840, col: 9, offset: 89918},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89908},
+																					pos:        position{line: 2840, col: 10, offset: 89919},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19777,27 +19791,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2842, col: 11, offset: 90120},
+																	pos: position{line: 2843, col: 11, offset: 90131},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2842, col: 11, offset: 90120},
+																			pos:        position{line: 2843, col: 11, offset: 90131},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2842, col: 19, offset: 90128},
+																			pos: position{line: 2843, col: 19, offset: 90139},
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 21, offset: 90130},
+																				pos: position{line: 2843, col: 21, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19806,11 +19820,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2842, col: 28, offset: 90137},
+																						pos: position{line: 2843, col: 28, offset: 90148},
 																						expr: &notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -19820,44 +19834,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20128},
+																	pos: position{line: 637, col: 5, offset: 20139},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20128},
+																		pos: position{line: 637, col: 5, offset: 20139},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20200},
+																				pos:   position{line: 640, col: 5, offset: 20211},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20209},
+																					pos: position{line: 640, col: 14, offset: 20220},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20338},
+																								pos: position{line: 646, col: 5, offset: 20349},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20338},
+																										pos:        position{line: 646, col: 5, offset: 20349},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20346},
+																										pos:   position{line: 646, col: 13, offset: 20357},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonImageBlock46,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19865,9 +19879,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19880,7 +19894,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20365},
+																										pos:        position{line: 646, col: 32, offset: 20376},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19889,28 +19903,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20606},
+																								pos: position{line: 653, col: 5, offset: 20617},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20606},
+																										pos:        position{line: 653, col: 5, offset: 20617},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20610},
+																										pos:   position{line: 653, col: 9, offset: 20621},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonImageBlock56,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19918,9 +19932,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19933,7 +19947,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20629},
+																										pos:        position{line: 653, col: 28, offset: 20640},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19942,28 +19956,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20810},
+																							pos: position{line: 659, col: 25, offset: 20821},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20810},
+																								pos: position{line: 659, col: 25, offset: 20821},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20810},
+																										pos:        position{line: 659, col: 25, offset: 20821},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20822},
+																										pos:   position{line: 659, col: 37, offset: 20833},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonImageBlock66,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19971,9 +19985,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19986,33 +20000,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20841},
+																										pos:   position{line: 659, col: 56, offset: 20852},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20847},
+																											pos: position{line: 659, col: 62, offset: 20858},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21142},
+																												pos: position{line: 667, col: 17, offset: 21153},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21142},
+																													pos: position{line: 667, col: 17, offset: 21153},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21142},
+																															pos:        position{line: 667, col: 17, offset: 21153},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21146},
+																															pos:   position{line: 667, col: 21, offset: 21157},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21153},
+																																			pos:        position{line: 667, col: 28, offset: 21164},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20020,12 +20034,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21207},
+																																		pos: position{line: 669, col: 9, offset: 21218},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21207},
+																																			pos: position{line: 669, col: 9, offset: 21218},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21207},
+																																				pos:        position{line: 669, col: 9, offset: 21218},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20042,7 +20056,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20863},
+																										pos:        position{line: 659, col: 78, offset: 20874},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20051,28 +20065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20981},
+																							pos: position{line: 663, col: 25, offset: 20992},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20981},
+																								pos: position{line: 663, col: 25, offset: 20992},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20981},
+																										pos:        position{line: 663, col: 25, offset: 20992},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20994},
+																										pos:   position{line: 663, col: 38, offset: 21005},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonImageBlock88,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20080,9 +20094,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20095,33 +20109,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21013},
+																										pos:   position{line: 663, col: 57, offset: 21024},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21019},
+																											pos: position{line: 663, col: 63, offset: 21030},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21142},
+																												pos: position{line: 667, col: 17, offset: 21153},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21142},
+																													pos: position{line: 667, col: 17, offset: 21153},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21142},
+																															pos:        position{line: 667, col: 17, offset: 21153},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21146},
+																															pos:   position{line: 667, col: 21, offset: 21157},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21153},
+																																			pos:        position{line: 667, col: 28, offset: 21164},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20129,12 +20143,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21207},
+																																		pos: position{line: 669, col: 9, offset: 21218},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21207},
+																																			pos: position{line: 669, col: 9, offset: 21218},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21207},
+																																				pos:        position{line: 669, col: 9, offset: 21218},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20151,7 +20165,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21035},
+																										pos:        position{line: 663, col: 79, offset: 21046},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20166,27 +20180,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37216},
+																	pos: position{line: 1207, col: 23, offset: 37227},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37216},
+																		pos: position{line: 1207, col: 23, offset: 37227},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37184},
+																				pos:        position{line: 1205, col: 32, offset: 37195},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37244},
+																				pos:   position{line: 1207, col: 51, offset: 37255},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37249},
+																					pos: position{line: 1207, col: 56, offset: 37260},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37249},
+																						pos: position{line: 1207, col: 56, offset: 37260},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37249},
+																							pos:        position{line: 1207, col: 56, offset: 37260},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20196,7 +20210,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37184},
+																				pos:        position{line: 1205, col: 32, offset: 37195},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20205,10 +20219,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2845, col: 11, offset: 90257},
+																	pos: position{line: 2846, col: 11, offset: 90268},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2845, col: 11, offset: 90257},
+																		pos:        position{line: 2846, col: 11, offset: 90268},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20225,20 +20239,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 31, offset: 41331},
+							pos:   position{line: 1326, col: 31, offset: 41342},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 43, offset: 41343},
+								pos:  position{line: 1326, col: 43, offset: 41354},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1325, col: 61, offset: 41361},
+							pos: position{line: 1326, col: 61, offset: 41372},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20247,28 +20261,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20277,9 +20291,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -20290,74 +20304,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1330, col: 1, offset: 41578},
+			pos:  position{line: 1331, col: 1, offset: 41589},
 			expr: &actionExpr{
-				pos: position{line: 1330, col: 16, offset: 41593},
+				pos: position{line: 1331, col: 16, offset: 41604},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1330, col: 16, offset: 41593},
+					pos: position{line: 1331, col: 16, offset: 41604},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1330, col: 16, offset: 41593},
+							pos:        position{line: 1331, col: 16, offset: 41604},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1330, col: 25, offset: 41602},
+							pos: position{line: 1331, col: 25, offset: 41613},
 							expr: &litMatcher{
-								pos:        position{line: 1330, col: 26, offset: 41603},
+								pos:        position{line: 1331, col: 26, offset: 41614},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 30, offset: 41607},
+							pos:   position{line: 1331, col: 30, offset: 41618},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 13, offset: 89501},
+								pos: position{line: 2825, col: 13, offset: 89512},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2824, col: 13, offset: 89501},
+									pos: position{line: 2825, col: 13, offset: 89512},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2824, col: 13, offset: 89501},
+											pos:   position{line: 2825, col: 13, offset: 89512},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2824, col: 20, offset: 89508},
+												pos: position{line: 2825, col: 20, offset: 89519},
 												expr: &actionExpr{
-													pos: position{line: 2832, col: 11, offset: 89747},
+													pos: position{line: 2833, col: 11, offset: 89758},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2832, col: 12, offset: 89748},
+														pos: position{line: 2833, col: 12, offset: 89759},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2832, col: 12, offset: 89748},
+																pos:        position{line: 2833, col: 12, offset: 89759},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 24, offset: 89760},
+																pos:        position{line: 2833, col: 24, offset: 89771},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 37, offset: 89773},
+																pos:        position{line: 2833, col: 37, offset: 89784},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 48, offset: 89784},
+																pos:        position{line: 2833, col: 48, offset: 89795},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 59, offset: 89795},
+																pos:        position{line: 2833, col: 59, offset: 89806},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20368,38 +20382,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2824, col: 30, offset: 89518},
+											pos:   position{line: 2825, col: 30, offset: 89529},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2837, col: 5, offset: 89859},
+												pos: position{line: 2838, col: 5, offset: 89870},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2837, col: 5, offset: 89859},
+													pos:   position{line: 2838, col: 5, offset: 89870},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2837, col: 14, offset: 89868},
+														pos: position{line: 2838, col: 14, offset: 89879},
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 9, offset: 89878},
+															pos: position{line: 2839, col: 9, offset: 89889},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2838, col: 9, offset: 89878},
+																		pos: position{line: 2839, col: 9, offset: 89889},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				expr: &litMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89879},
+																					pos:        position{line: 2839, col: 10, offset: 89890},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2839, col: 9, offset: 89907},
+																				pos: position{line: 2840, col: 9, offset: 89918},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89908},
+																					pos:        position{line: 2840, col: 10, offset: 89919},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20410,27 +20424,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2842, col: 11, offset: 90120},
+																	pos: position{line: 2843, col: 11, offset: 90131},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2842, col: 11, offset: 90120},
+																			pos:        position{line: 2843, col: 11, offset: 90131},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2842, col: 19, offset: 90128},
+																			pos: position{line: 2843, col: 19, offset: 90139},
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 21, offset: 90130},
+																				pos: position{line: 2843, col: 21, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20439,11 +20453,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2842, col: 28, offset: 90137},
+																						pos: position{line: 2843, col: 28, offset: 90148},
 																						expr: &notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -20453,44 +20467,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20128},
+																	pos: position{line: 637, col: 5, offset: 20139},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20128},
+																		pos: position{line: 637, col: 5, offset: 20139},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20200},
+																				pos:   position{line: 640, col: 5, offset: 20211},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20209},
+																					pos: position{line: 640, col: 14, offset: 20220},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20338},
+																							pos: position{line: 646, col: 5, offset: 20349},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20338},
+																								pos: position{line: 646, col: 5, offset: 20349},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20338},
+																										pos:        position{line: 646, col: 5, offset: 20349},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20346},
+																										pos:   position{line: 646, col: 13, offset: 20357},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonInlineImage48,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20498,9 +20512,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20513,7 +20527,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20365},
+																										pos:        position{line: 646, col: 32, offset: 20376},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20522,28 +20536,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20606},
+																							pos: position{line: 653, col: 5, offset: 20617},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20606},
+																								pos: position{line: 653, col: 5, offset: 20617},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20606},
+																										pos:        position{line: 653, col: 5, offset: 20617},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20610},
+																										pos:   position{line: 653, col: 9, offset: 20621},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonInlineImage58,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20551,9 +20565,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20566,7 +20580,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20629},
+																										pos:        position{line: 653, col: 28, offset: 20640},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20575,28 +20589,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20810},
+																							pos: position{line: 659, col: 25, offset: 20821},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20810},
+																								pos: position{line: 659, col: 25, offset: 20821},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20810},
+																										pos:        position{line: 659, col: 25, offset: 20821},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20822},
+																										pos:   position{line: 659, col: 37, offset: 20833},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonInlineImage68,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20604,9 +20618,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20619,33 +20633,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20841},
+																										pos:   position{line: 659, col: 56, offset: 20852},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20847},
+																											pos: position{line: 659, col: 62, offset: 20858},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21142},
+																												pos: position{line: 667, col: 17, offset: 21153},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21142},
+																													pos: position{line: 667, col: 17, offset: 21153},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21142},
+																															pos:        position{line: 667, col: 17, offset: 21153},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21146},
+																															pos:   position{line: 667, col: 21, offset: 21157},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21153},
+																																			pos:        position{line: 667, col: 28, offset: 21164},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20653,12 +20667,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21207},
+																																		pos: position{line: 669, col: 9, offset: 21218},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21207},
+																																			pos: position{line: 669, col: 9, offset: 21218},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21207},
+																																				pos:        position{line: 669, col: 9, offset: 21218},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20675,7 +20689,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20863},
+																										pos:        position{line: 659, col: 78, offset: 20874},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20684,28 +20698,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20981},
+																							pos: position{line: 663, col: 25, offset: 20992},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20981},
+																								pos: position{line: 663, col: 25, offset: 20992},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20981},
+																										pos:        position{line: 663, col: 25, offset: 20992},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20994},
+																										pos:   position{line: 663, col: 38, offset: 21005},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 319, col: 18, offset: 9747},
 																											run: (*parser).callonInlineImage90,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 319, col: 18, offset: 9747},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 319, col: 18, offset: 9747},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20713,9 +20727,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 319, col: 29, offset: 9758},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20728,33 +20742,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21013},
+																										pos:   position{line: 663, col: 57, offset: 21024},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21019},
+																											pos: position{line: 663, col: 63, offset: 21030},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21142},
+																												pos: position{line: 667, col: 17, offset: 21153},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21142},
+																													pos: position{line: 667, col: 17, offset: 21153},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21142},
+																															pos:        position{line: 667, col: 17, offset: 21153},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21146},
+																															pos:   position{line: 667, col: 21, offset: 21157},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21153},
+																																			pos:        position{line: 667, col: 28, offset: 21164},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20762,12 +20776,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21207},
+																																		pos: position{line: 669, col: 9, offset: 21218},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21207},
+																																			pos: position{line: 669, col: 9, offset: 21218},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21207},
+																																				pos:        position{line: 669, col: 9, offset: 21218},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20784,7 +20798,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21035},
+																										pos:        position{line: 663, col: 79, offset: 21046},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20799,27 +20813,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37216},
+																	pos: position{line: 1207, col: 23, offset: 37227},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37216},
+																		pos: position{line: 1207, col: 23, offset: 37227},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37184},
+																				pos:        position{line: 1205, col: 32, offset: 37195},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37244},
+																				pos:   position{line: 1207, col: 51, offset: 37255},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37249},
+																					pos: position{line: 1207, col: 56, offset: 37260},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37249},
+																						pos: position{line: 1207, col: 56, offset: 37260},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37249},
+																							pos:        position{line: 1207, col: 56, offset: 37260},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20829,7 +20843,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37184},
+																				pos:        position{line: 1205, col: 32, offset: 37195},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20838,10 +20852,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2845, col: 11, offset: 90257},
+																	pos: position{line: 2846, col: 11, offset: 90268},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2845, col: 11, offset: 90257},
+																		pos:        position{line: 2846, col: 11, offset: 90268},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20858,10 +20872,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 46, offset: 41623},
+							pos:   position{line: 1331, col: 46, offset: 41634},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1330, col: 58, offset: 41635},
+								pos:  position{line: 1331, col: 58, offset: 41646},
 								name: "InlineAttributes",
 							},
 						},
@@ -20871,29 +20885,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1337, col: 1, offset: 42031},
+			pos:  position{line: 1338, col: 1, offset: 42042},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 15, offset: 42045},
+				pos: position{line: 1338, col: 15, offset: 42056},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 15, offset: 42045},
+					pos: position{line: 1338, col: 15, offset: 42056},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 15, offset: 42045},
+							pos:        position{line: 1338, col: 15, offset: 42056},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 23, offset: 42053},
+							pos:   position{line: 1338, col: 23, offset: 42064},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1337, col: 29, offset: 42059},
+								pos: position{line: 1338, col: 29, offset: 42070},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1337, col: 29, offset: 42059},
+									pos: position{line: 1338, col: 29, offset: 42070},
 									expr: &charClassMatcher{
-										pos:        position{line: 1337, col: 29, offset: 42059},
+										pos:        position{line: 1338, col: 29, offset: 42070},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20904,10 +20918,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 73, offset: 42103},
+							pos:   position{line: 1338, col: 73, offset: 42114},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 85, offset: 42115},
+								pos:  position{line: 1338, col: 85, offset: 42126},
 								name: "InlineAttributes",
 							},
 						},
@@ -20917,31 +20931,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1344, col: 1, offset: 42481},
+			pos:  position{line: 1345, col: 1, offset: 42492},
 			expr: &actionExpr{
-				pos: position{line: 1344, col: 19, offset: 42499},
+				pos: position{line: 1345, col: 19, offset: 42510},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1344, col: 19, offset: 42499},
+					pos: position{line: 1345, col: 19, offset: 42510},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1344, col: 19, offset: 42499},
+							pos:        position{line: 1345, col: 19, offset: 42510},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 31, offset: 42511},
+							pos:   position{line: 1345, col: 31, offset: 42522},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1344, col: 35, offset: 42515},
+								pos: position{line: 1345, col: 35, offset: 42526},
 								expr: &actionExpr{
-									pos: position{line: 1348, col: 16, offset: 42675},
+									pos: position{line: 1349, col: 16, offset: 42686},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1348, col: 16, offset: 42675},
+										pos: position{line: 1349, col: 16, offset: 42686},
 										expr: &charClassMatcher{
-											pos:        position{line: 1348, col: 16, offset: 42675},
+											pos:        position{line: 1349, col: 16, offset: 42686},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20953,21 +20967,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 50, offset: 42530},
+							pos:        position{line: 1345, col: 50, offset: 42541},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 54, offset: 42534},
+							pos:   position{line: 1345, col: 54, offset: 42545},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1344, col: 64, offset: 42544},
+								pos:  position{line: 1345, col: 64, offset: 42555},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1344, col: 82, offset: 42562},
+							pos:        position{line: 1345, col: 82, offset: 42573},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20978,17 +20992,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1350, col: 1, offset: 42719},
+			pos:  position{line: 1351, col: 1, offset: 42730},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 21, offset: 42739},
+				pos: position{line: 1351, col: 21, offset: 42750},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1350, col: 21, offset: 42739},
+					pos:   position{line: 1351, col: 21, offset: 42750},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1350, col: 30, offset: 42748},
+						pos: position{line: 1351, col: 30, offset: 42759},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1350, col: 31, offset: 42749},
+							pos:  position{line: 1351, col: 31, offset: 42760},
 							name: "FootnoteElement",
 						},
 					},
@@ -20997,44 +21011,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1354, col: 1, offset: 42841},
+			pos:  position{line: 1355, col: 1, offset: 42852},
 			expr: &actionExpr{
-				pos: position{line: 1355, col: 5, offset: 42865},
+				pos: position{line: 1356, col: 5, offset: 42876},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1355, col: 5, offset: 42865},
+					pos: position{line: 1356, col: 5, offset: 42876},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1355, col: 5, offset: 42865},
+							pos: position{line: 1356, col: 5, offset: 42876},
 							expr: &litMatcher{
-								pos:        position{line: 1355, col: 6, offset: 42866},
+								pos:        position{line: 1356, col: 6, offset: 42877},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1356, col: 5, offset: 42875},
+							pos:   position{line: 1357, col: 5, offset: 42886},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1357, col: 9, offset: 42893},
+								pos: position{line: 1358, col: 9, offset: 42904},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87984},
+										pos: position{line: 2766, col: 5, offset: 87995},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87984},
+											pos: position{line: 2766, col: 5, offset: 87995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87984},
+													pos:   position{line: 2766, col: 5, offset: 87995},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87990},
+														pos: position{line: 2766, col: 11, offset: 88001},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87990},
+															pos: position{line: 2766, col: 11, offset: 88001},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87990},
+																pos:        position{line: 2766, col: 11, offset: 88001},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21044,36 +21058,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 88048},
+													pos: position{line: 2769, col: 5, offset: 88059},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88059},
+														pos: position{line: 2770, col: 9, offset: 88070},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88059},
+																pos:        position{line: 2770, col: 9, offset: 88070},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88108},
+																pos: position{line: 2771, col: 9, offset: 88119},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88188},
+													pos: position{line: 2775, col: 5, offset: 88199},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88199},
+														pos: position{line: 2776, col: 9, offset: 88210},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88199},
+																pos:        position{line: 2776, col: 9, offset: 88210},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88203},
+																pos:        position{line: 2776, col: 13, offset: 88214},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21086,12 +21100,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 11, offset: 90803},
+										pos: position{line: 2871, col: 11, offset: 90814},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2870, col: 11, offset: 90803},
+											pos: position{line: 2871, col: 11, offset: 90814},
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 11, offset: 90803},
+												pos:        position{line: 2871, col: 11, offset: 90814},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21100,21 +21114,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2494, col: 5, offset: 80444},
+										pos: position{line: 2495, col: 5, offset: 80455},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2494, col: 5, offset: 80444},
+											pos: position{line: 2495, col: 5, offset: 80455},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2494, col: 5, offset: 80444},
+													pos:        position{line: 2495, col: 5, offset: 80455},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2494, col: 10, offset: 80449},
+													pos: position{line: 2495, col: 10, offset: 80460},
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 11, offset: 80450},
+														pos:        position{line: 2495, col: 11, offset: 80461},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21125,29 +21139,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80642},
+										pos: position{line: 2501, col: 5, offset: 80653},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80642},
+											pos: position{line: 2501, col: 5, offset: 80653},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80642},
+													pos: position{line: 2501, col: 5, offset: 80653},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80713},
+													pos: position{line: 2504, col: 5, offset: 80724},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2507, col: 5, offset: 80838},
+													pos:        position{line: 2508, col: 5, offset: 80849},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2507, col: 9, offset: 80842},
+													pos: position{line: 2508, col: 9, offset: 80853},
 													expr: &charClassMatcher{
-														pos:        position{line: 2507, col: 10, offset: 80843},
+														pos:        position{line: 2508, col: 10, offset: 80854},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21158,35 +21172,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1360, col: 11, offset: 42960},
+										pos:  position{line: 1361, col: 11, offset: 42971},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1361, col: 11, offset: 42976},
+										pos:  position{line: 1362, col: 11, offset: 42987},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88396},
+										pos: position{line: 2784, col: 5, offset: 88407},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88406},
+											pos: position{line: 2785, col: 9, offset: 88417},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88407},
+													pos:        position{line: 2785, col: 10, offset: 88418},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88504},
+													pos: position{line: 2787, col: 13, offset: 88515},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88504},
+															pos: position{line: 2787, col: 13, offset: 88515},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88604},
+															pos:        position{line: 2790, col: 13, offset: 88615},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21194,20 +21208,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88610},
+													pos:        position{line: 2790, col: 19, offset: 88621},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88648},
+													pos: position{line: 2793, col: 13, offset: 88659},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88648},
+															pos: position{line: 2793, col: 13, offset: 88659},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88741},
+															pos:        position{line: 2796, col: 14, offset: 88752},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21216,18 +21230,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88785},
+													pos: position{line: 2798, col: 12, offset: 88796},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88785},
+															pos:        position{line: 2798, col: 12, offset: 88796},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88789},
+															pos: position{line: 2798, col: 16, offset: 88800},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88790},
+																pos:        position{line: 2798, col: 17, offset: 88801},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21239,36 +21253,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1363, col: 11, offset: 43049},
+										pos:  position{line: 1364, col: 11, offset: 43060},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1214, col: 5, offset: 37662},
+										pos: position{line: 1215, col: 5, offset: 37673},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1214, col: 5, offset: 37662},
+											pos: position{line: 1215, col: 5, offset: 37673},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1214, col: 5, offset: 37662},
+													pos: position{line: 1215, col: 5, offset: 37673},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1217, col: 5, offset: 37738},
+													pos:        position{line: 1218, col: 5, offset: 37749},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1218, col: 5, offset: 37746},
+													pos: position{line: 1219, col: 5, offset: 37757},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1222, col: 5, offset: 37833},
+													pos: position{line: 1223, col: 5, offset: 37844},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21277,30 +21291,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1222, col: 12, offset: 37840},
+													pos: position{line: 1223, col: 12, offset: 37851},
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21309,9 +21323,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -21321,44 +21335,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20128},
+										pos: position{line: 637, col: 5, offset: 20139},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20128},
+											pos: position{line: 637, col: 5, offset: 20139},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20128},
+													pos: position{line: 637, col: 5, offset: 20139},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20200},
+													pos:   position{line: 640, col: 5, offset: 20211},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20209},
+														pos: position{line: 640, col: 14, offset: 20220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20338},
+																pos: position{line: 646, col: 5, offset: 20349},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20338},
+																	pos: position{line: 646, col: 5, offset: 20349},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20338},
+																			pos:        position{line: 646, col: 5, offset: 20349},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20346},
+																			pos:   position{line: 646, col: 13, offset: 20357},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonFootnoteElement79,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21366,9 +21380,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21381,7 +21395,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20365},
+																			pos:        position{line: 646, col: 32, offset: 20376},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21390,28 +21404,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20606},
+																pos: position{line: 653, col: 5, offset: 20617},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20606},
+																	pos: position{line: 653, col: 5, offset: 20617},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20606},
+																			pos:        position{line: 653, col: 5, offset: 20617},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20610},
+																			pos:   position{line: 653, col: 9, offset: 20621},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonFootnoteElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21419,9 +21433,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21434,7 +21448,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20629},
+																			pos:        position{line: 653, col: 28, offset: 20640},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21443,28 +21457,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20810},
+																pos: position{line: 659, col: 25, offset: 20821},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20810},
+																	pos: position{line: 659, col: 25, offset: 20821},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20810},
+																			pos:        position{line: 659, col: 25, offset: 20821},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20822},
+																			pos:   position{line: 659, col: 37, offset: 20833},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonFootnoteElement99,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21472,9 +21486,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21487,33 +21501,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20841},
+																			pos:   position{line: 659, col: 56, offset: 20852},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20847},
+																				pos: position{line: 659, col: 62, offset: 20858},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21521,12 +21535,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21543,7 +21557,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20863},
+																			pos:        position{line: 659, col: 78, offset: 20874},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21552,28 +21566,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20981},
+																pos: position{line: 663, col: 25, offset: 20992},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20981},
+																	pos: position{line: 663, col: 25, offset: 20992},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20981},
+																			pos:        position{line: 663, col: 25, offset: 20992},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20994},
+																			pos:   position{line: 663, col: 38, offset: 21005},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonFootnoteElement121,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21581,9 +21595,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21596,33 +21610,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21013},
+																			pos:   position{line: 663, col: 57, offset: 21024},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21019},
+																				pos: position{line: 663, col: 63, offset: 21030},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21630,12 +21644,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21652,7 +21666,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21035},
+																			pos:        position{line: 663, col: 79, offset: 21046},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21667,23 +21681,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2463, col: 5, offset: 79273},
+										pos: position{line: 2464, col: 5, offset: 79284},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2463, col: 5, offset: 79273},
+													pos: position{line: 2464, col: 5, offset: 79284},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2466, col: 5, offset: 79349},
+													pos:   position{line: 2467, col: 5, offset: 79360},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2467, col: 9, offset: 79367},
+														pos: position{line: 2468, col: 9, offset: 79378},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2467, col: 10, offset: 79368},
+															pos:        position{line: 2468, col: 10, offset: 79379},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21695,25 +21709,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90913},
+										pos: position{line: 2876, col: 12, offset: 90924},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90914},
+											pos: position{line: 2876, col: 13, offset: 90925},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90914},
+													pos:        position{line: 2876, col: 13, offset: 90925},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90921},
+													pos:        position{line: 2876, col: 20, offset: 90932},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90930},
+													pos:        position{line: 2876, col: 29, offset: 90941},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21722,10 +21736,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 89050},
+										pos: position{line: 2806, col: 12, offset: 89061},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 89050},
+											pos:        position{line: 2806, col: 12, offset: 89061},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21741,32 +21755,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1402, col: 1, offset: 44894},
+			pos:  position{line: 1403, col: 1, offset: 44905},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 21, offset: 44914},
+				pos: position{line: 1403, col: 21, offset: 44925},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1402, col: 21, offset: 44914},
+						pos: position{line: 1403, col: 21, offset: 44925},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1402, col: 21, offset: 44914},
+							pos: position{line: 1403, col: 21, offset: 44925},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1402, col: 21, offset: 44914},
+									pos:        position{line: 1403, col: 21, offset: 44925},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1402, col: 30, offset: 44923},
+									pos:   position{line: 1403, col: 30, offset: 44934},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1402, col: 38, offset: 44931},
+										pos: position{line: 1403, col: 38, offset: 44942},
 										expr: &actionExpr{
-											pos: position{line: 1408, col: 30, offset: 45257},
+											pos: position{line: 1409, col: 30, offset: 45268},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1408, col: 30, offset: 45257},
+												pos:        position{line: 1409, col: 30, offset: 45268},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21776,7 +21790,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1402, col: 67, offset: 44960},
+									pos:        position{line: 1403, col: 67, offset: 44971},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21785,34 +21799,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1404, col: 9, offset: 45064},
+						pos: position{line: 1405, col: 9, offset: 45075},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1404, col: 9, offset: 45064},
+							pos: position{line: 1405, col: 9, offset: 45075},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1404, col: 9, offset: 45064},
+									pos:        position{line: 1405, col: 9, offset: 45075},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1404, col: 19, offset: 45074},
+									pos:   position{line: 1405, col: 19, offset: 45085},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1404, col: 27, offset: 45082},
+										pos: position{line: 1405, col: 27, offset: 45093},
 										expr: &choiceExpr{
-											pos: position{line: 1404, col: 28, offset: 45083},
+											pos: position{line: 1405, col: 28, offset: 45094},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1404, col: 28, offset: 45083},
+													pos:  position{line: 1405, col: 28, offset: 45094},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1408, col: 30, offset: 45257},
+													pos: position{line: 1409, col: 30, offset: 45268},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1408, col: 30, offset: 45257},
+														pos:        position{line: 1409, col: 30, offset: 45268},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21824,7 +21838,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1404, col: 69, offset: 45124},
+									pos:        position{line: 1405, col: 69, offset: 45135},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21837,75 +21851,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1415, col: 1, offset: 45513},
+			pos:  position{line: 1416, col: 1, offset: 45524},
 			expr: &choiceExpr{
-				pos: position{line: 1415, col: 9, offset: 45521},
+				pos: position{line: 1416, col: 9, offset: 45532},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1418, col: 5, offset: 45590},
+						pos: position{line: 1419, col: 5, offset: 45601},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1418, col: 5, offset: 45590},
+							pos: position{line: 1419, col: 5, offset: 45601},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1418, col: 5, offset: 45590},
+									pos:        position{line: 1419, col: 5, offset: 45601},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 5, offset: 45599},
+									pos:   position{line: 1420, col: 5, offset: 45610},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89628},
+										pos: position{line: 2829, col: 23, offset: 89639},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89628},
+											pos: position{line: 2829, col: 23, offset: 89639},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89628},
+													pos: position{line: 2829, col: 23, offset: 89639},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89629},
+														pos:        position{line: 2829, col: 24, offset: 89640},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89633},
+													pos:   position{line: 2829, col: 28, offset: 89644},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89747},
+														pos: position{line: 2833, col: 11, offset: 89758},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89748},
+															pos: position{line: 2833, col: 12, offset: 89759},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89748},
+																	pos:        position{line: 2833, col: 12, offset: 89759},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89760},
+																	pos:        position{line: 2833, col: 24, offset: 89771},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89773},
+																	pos:        position{line: 2833, col: 37, offset: 89784},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89784},
+																	pos:        position{line: 2833, col: 48, offset: 89795},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89795},
+																	pos:        position{line: 2833, col: 59, offset: 89806},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21915,38 +21929,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89649},
+													pos:   position{line: 2829, col: 44, offset: 89660},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21957,27 +21971,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21986,11 +22000,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -22000,44 +22014,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22045,9 +22059,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22060,7 +22074,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22069,28 +22083,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22098,9 +22112,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22113,7 +22127,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22122,28 +22136,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22151,9 +22165,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22166,33 +22180,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22200,12 +22214,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22222,7 +22236,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22231,28 +22245,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22260,9 +22274,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22275,33 +22289,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22309,12 +22323,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22331,7 +22345,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22346,27 +22360,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22376,7 +22390,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22385,10 +22399,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22405,7 +22419,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45818},
+									pos:        position{line: 1425, col: 5, offset: 45829},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22414,38 +22428,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 19, offset: 45531},
+						pos:  position{line: 1416, col: 19, offset: 45542},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 34, offset: 45546},
+						pos:  position{line: 1416, col: 34, offset: 45557},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1453, col: 17, offset: 46811},
+						pos: position{line: 1454, col: 17, offset: 46822},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1453, col: 17, offset: 46811},
+							pos: position{line: 1454, col: 17, offset: 46822},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1453, col: 17, offset: 46811},
+									pos:   position{line: 1454, col: 17, offset: 46822},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1458, col: 5, offset: 46976},
+										pos: position{line: 1459, col: 5, offset: 46987},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1458, col: 5, offset: 46976},
+											pos: position{line: 1459, col: 5, offset: 46987},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1458, col: 5, offset: 46976},
+													pos:   position{line: 1459, col: 5, offset: 46987},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1458, col: 12, offset: 46983},
+														pos: position{line: 1459, col: 12, offset: 46994},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1458, col: 12, offset: 46983},
+															pos: position{line: 1459, col: 12, offset: 46994},
 															expr: &charClassMatcher{
-																pos:        position{line: 1458, col: 12, offset: 46983},
+																pos:        position{line: 1459, col: 12, offset: 46994},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22457,7 +22471,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1461, col: 5, offset: 47067},
+													pos: position{line: 1462, col: 5, offset: 47078},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22465,33 +22479,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1453, col: 43, offset: 46837},
+									pos:        position{line: 1454, col: 43, offset: 46848},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 47, offset: 46841},
+									pos:   position{line: 1454, col: 47, offset: 46852},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1470, col: 23, offset: 47361},
+										pos: position{line: 1471, col: 23, offset: 47372},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1470, col: 23, offset: 47361},
+											pos: position{line: 1471, col: 23, offset: 47372},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1470, col: 23, offset: 47361},
+													pos:   position{line: 1471, col: 23, offset: 47372},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1470, col: 31, offset: 47369},
+														pos: position{line: 1471, col: 31, offset: 47380},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1470, col: 31, offset: 47369},
+															pos: position{line: 1471, col: 31, offset: 47380},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1470, col: 31, offset: 47369},
+																	pos: position{line: 1471, col: 31, offset: 47380},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1470, col: 31, offset: 47369},
+																		pos:        position{line: 1471, col: 31, offset: 47380},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22499,20 +22513,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1470, col: 41, offset: 47379},
+																	pos: position{line: 1471, col: 41, offset: 47390},
 																	expr: &seqExpr{
-																		pos: position{line: 1470, col: 42, offset: 47380},
+																		pos: position{line: 1471, col: 42, offset: 47391},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1470, col: 42, offset: 47380},
+																				pos:        position{line: 1471, col: 42, offset: 47391},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1470, col: 46, offset: 47384},
+																				pos: position{line: 1471, col: 46, offset: 47395},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1470, col: 46, offset: 47384},
+																					pos:        position{line: 1471, col: 46, offset: 47395},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22528,7 +22542,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1473, col: 5, offset: 47445},
+													pos: position{line: 1474, col: 5, offset: 47456},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22543,68 +22557,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1430, col: 1, offset: 45966},
+			pos:  position{line: 1431, col: 1, offset: 45977},
 			expr: &choiceExpr{
-				pos: position{line: 1432, col: 5, offset: 46002},
+				pos: position{line: 1433, col: 5, offset: 46013},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46002},
+						pos: position{line: 1433, col: 5, offset: 46013},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46002},
+							pos: position{line: 1433, col: 5, offset: 46013},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46002},
+									pos:        position{line: 1433, col: 5, offset: 46013},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 17, offset: 46014},
+									pos:   position{line: 1433, col: 17, offset: 46025},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 13, offset: 89501},
+										pos: position{line: 2825, col: 13, offset: 89512},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 13, offset: 89501},
+											pos: position{line: 2825, col: 13, offset: 89512},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2824, col: 13, offset: 89501},
+													pos:   position{line: 2825, col: 13, offset: 89512},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2824, col: 20, offset: 89508},
+														pos: position{line: 2825, col: 20, offset: 89519},
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 11, offset: 89747},
+															pos: position{line: 2833, col: 11, offset: 89758},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2832, col: 12, offset: 89748},
+																pos: position{line: 2833, col: 12, offset: 89759},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 12, offset: 89748},
+																		pos:        position{line: 2833, col: 12, offset: 89759},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 24, offset: 89760},
+																		pos:        position{line: 2833, col: 24, offset: 89771},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 37, offset: 89773},
+																		pos:        position{line: 2833, col: 37, offset: 89784},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 48, offset: 89784},
+																		pos:        position{line: 2833, col: 48, offset: 89795},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 59, offset: 89795},
+																		pos:        position{line: 2833, col: 59, offset: 89806},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22615,38 +22629,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 30, offset: 89518},
+													pos:   position{line: 2825, col: 30, offset: 89529},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22657,27 +22671,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22686,11 +22700,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -22700,44 +22714,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink47,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22745,9 +22759,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22760,7 +22774,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22769,28 +22783,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink57,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22798,9 +22812,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22813,7 +22827,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22822,28 +22836,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink67,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22851,9 +22865,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22866,33 +22880,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22900,12 +22914,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22922,7 +22936,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22931,28 +22945,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink89,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22960,9 +22974,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22975,33 +22989,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23009,12 +23023,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23031,7 +23045,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23046,27 +23060,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23076,7 +23090,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23085,10 +23099,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23105,10 +23119,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 32, offset: 46029},
+									pos:   position{line: 1433, col: 32, offset: 46040},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 44, offset: 46041},
+										pos:  position{line: 1433, col: 44, offset: 46052},
 										name: "InlineAttributes",
 									},
 								},
@@ -23116,63 +23130,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46173},
+						pos: position{line: 1438, col: 5, offset: 46184},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46173},
+							pos: position{line: 1438, col: 5, offset: 46184},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46173},
+									pos:        position{line: 1438, col: 5, offset: 46184},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 13, offset: 46181},
+									pos:   position{line: 1438, col: 13, offset: 46192},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 13, offset: 89501},
+										pos: position{line: 2825, col: 13, offset: 89512},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 13, offset: 89501},
+											pos: position{line: 2825, col: 13, offset: 89512},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2824, col: 13, offset: 89501},
+													pos:   position{line: 2825, col: 13, offset: 89512},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2824, col: 20, offset: 89508},
+														pos: position{line: 2825, col: 20, offset: 89519},
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 11, offset: 89747},
+															pos: position{line: 2833, col: 11, offset: 89758},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2832, col: 12, offset: 89748},
+																pos: position{line: 2833, col: 12, offset: 89759},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 12, offset: 89748},
+																		pos:        position{line: 2833, col: 12, offset: 89759},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 24, offset: 89760},
+																		pos:        position{line: 2833, col: 24, offset: 89771},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 37, offset: 89773},
+																		pos:        position{line: 2833, col: 37, offset: 89784},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 48, offset: 89784},
+																		pos:        position{line: 2833, col: 48, offset: 89795},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 59, offset: 89795},
+																		pos:        position{line: 2833, col: 59, offset: 89806},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23183,38 +23197,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 30, offset: 89518},
+													pos:   position{line: 2825, col: 30, offset: 89529},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23225,27 +23239,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23254,11 +23268,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -23268,44 +23282,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink164,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23313,9 +23327,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23328,7 +23342,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23337,28 +23351,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23366,9 +23380,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23381,7 +23395,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23390,28 +23404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink184,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23419,9 +23433,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23434,33 +23448,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23468,12 +23482,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23490,7 +23504,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23499,28 +23513,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonRelativeLink206,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23528,9 +23542,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23543,33 +23557,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23577,12 +23591,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23599,7 +23613,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23614,27 +23628,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23644,7 +23658,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23653,10 +23667,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23673,10 +23687,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 28, offset: 46196},
+									pos:   position{line: 1438, col: 28, offset: 46207},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 40, offset: 46208},
+										pos:  position{line: 1438, col: 40, offset: 46219},
 										name: "InlineAttributes",
 									},
 								},
@@ -23688,75 +23702,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1441, col: 1, offset: 46324},
+			pos:  position{line: 1442, col: 1, offset: 46335},
 			expr: &choiceExpr{
-				pos: position{line: 1444, col: 5, offset: 46486},
+				pos: position{line: 1445, col: 5, offset: 46497},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46486},
+						pos: position{line: 1445, col: 5, offset: 46497},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46486},
+							pos: position{line: 1445, col: 5, offset: 46497},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46486},
+									pos:        position{line: 1445, col: 5, offset: 46497},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 9, offset: 46490},
+									pos:   position{line: 1445, col: 9, offset: 46501},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89628},
+										pos: position{line: 2829, col: 23, offset: 89639},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89628},
+											pos: position{line: 2829, col: 23, offset: 89639},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89628},
+													pos: position{line: 2829, col: 23, offset: 89639},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89629},
+														pos:        position{line: 2829, col: 24, offset: 89640},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89633},
+													pos:   position{line: 2829, col: 28, offset: 89644},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89747},
+														pos: position{line: 2833, col: 11, offset: 89758},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89748},
+															pos: position{line: 2833, col: 12, offset: 89759},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89748},
+																	pos:        position{line: 2833, col: 12, offset: 89759},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89760},
+																	pos:        position{line: 2833, col: 24, offset: 89771},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89773},
+																	pos:        position{line: 2833, col: 37, offset: 89784},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89784},
+																	pos:        position{line: 2833, col: 48, offset: 89795},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89795},
+																	pos:        position{line: 2833, col: 59, offset: 89806},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23766,38 +23780,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89649},
+													pos:   position{line: 2829, col: 44, offset: 89660},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23808,27 +23822,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23837,11 +23851,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -23851,44 +23865,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23896,9 +23910,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23911,7 +23925,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23920,28 +23934,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23949,9 +23963,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23964,7 +23978,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23973,28 +23987,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24002,9 +24016,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24017,33 +24031,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24051,12 +24065,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24073,7 +24087,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24082,28 +24096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24111,9 +24125,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24126,33 +24140,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24160,12 +24174,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24182,7 +24196,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24197,27 +24211,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24227,7 +24241,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24236,10 +24250,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24256,12 +24270,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 34, offset: 46515},
+									pos:   position{line: 1445, col: 34, offset: 46526},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 45, offset: 46526},
+										pos: position{line: 1445, col: 45, offset: 46537},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 46, offset: 46527},
+											pos:  position{line: 1445, col: 46, offset: 46538},
 											name: "InlineAttributes",
 										},
 									},
@@ -24270,64 +24284,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46660},
+						pos: position{line: 1450, col: 5, offset: 46671},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46660},
+							pos: position{line: 1450, col: 5, offset: 46671},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1449, col: 5, offset: 46660},
+									pos:   position{line: 1450, col: 5, offset: 46671},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89628},
+										pos: position{line: 2829, col: 23, offset: 89639},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89628},
+											pos: position{line: 2829, col: 23, offset: 89639},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89628},
+													pos: position{line: 2829, col: 23, offset: 89639},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89629},
+														pos:        position{line: 2829, col: 24, offset: 89640},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89633},
+													pos:   position{line: 2829, col: 28, offset: 89644},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89747},
+														pos: position{line: 2833, col: 11, offset: 89758},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89748},
+															pos: position{line: 2833, col: 12, offset: 89759},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89748},
+																	pos:        position{line: 2833, col: 12, offset: 89759},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89760},
+																	pos:        position{line: 2833, col: 24, offset: 89771},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89773},
+																	pos:        position{line: 2833, col: 37, offset: 89784},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89784},
+																	pos:        position{line: 2833, col: 48, offset: 89795},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89795},
+																	pos:        position{line: 2833, col: 59, offset: 89806},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24337,38 +24351,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89649},
+													pos:   position{line: 2829, col: 44, offset: 89660},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89859},
+														pos: position{line: 2838, col: 5, offset: 89870},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89859},
+															pos:   position{line: 2838, col: 5, offset: 89870},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89868},
+																pos: position{line: 2838, col: 14, offset: 89879},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89878},
+																	pos: position{line: 2839, col: 9, offset: 89889},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89878},
+																			pos: position{line: 2839, col: 9, offset: 89889},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89878},
+																				pos: position{line: 2839, col: 9, offset: 89889},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89878},
+																						pos: position{line: 2839, col: 9, offset: 89889},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89879},
+																							pos:        position{line: 2839, col: 10, offset: 89890},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89907},
+																						pos: position{line: 2840, col: 9, offset: 89918},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89908},
+																							pos:        position{line: 2840, col: 10, offset: 89919},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24379,27 +24393,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90120},
+																			pos: position{line: 2843, col: 11, offset: 90131},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90120},
+																					pos:        position{line: 2843, col: 11, offset: 90131},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90128},
+																					pos: position{line: 2843, col: 19, offset: 90139},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90130},
+																						pos: position{line: 2843, col: 21, offset: 90141},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90130},
+																								pos: position{line: 2843, col: 21, offset: 90141},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24408,11 +24422,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90137},
+																								pos: position{line: 2843, col: 28, offset: 90148},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -24422,44 +24436,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20128},
+																			pos: position{line: 637, col: 5, offset: 20139},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20128},
+																				pos: position{line: 637, col: 5, offset: 20139},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20128},
+																						pos: position{line: 637, col: 5, offset: 20139},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20200},
+																						pos:   position{line: 640, col: 5, offset: 20211},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20209},
+																							pos: position{line: 640, col: 14, offset: 20220},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20338},
+																									pos: position{line: 646, col: 5, offset: 20349},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20338},
+																										pos: position{line: 646, col: 5, offset: 20349},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20338},
+																												pos:        position{line: 646, col: 5, offset: 20349},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20346},
+																												pos:   position{line: 646, col: 13, offset: 20357},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink166,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24467,9 +24481,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24482,7 +24496,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20365},
+																												pos:        position{line: 646, col: 32, offset: 20376},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24491,28 +24505,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20606},
+																									pos: position{line: 653, col: 5, offset: 20617},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20606},
+																										pos: position{line: 653, col: 5, offset: 20617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20606},
+																												pos:        position{line: 653, col: 5, offset: 20617},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20610},
+																												pos:   position{line: 653, col: 9, offset: 20621},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24520,9 +24534,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24535,7 +24549,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20629},
+																												pos:        position{line: 653, col: 28, offset: 20640},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24544,28 +24558,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20810},
+																									pos: position{line: 659, col: 25, offset: 20821},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20810},
+																										pos: position{line: 659, col: 25, offset: 20821},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20810},
+																												pos:        position{line: 659, col: 25, offset: 20821},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20822},
+																												pos:   position{line: 659, col: 37, offset: 20833},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink186,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24573,9 +24587,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24588,33 +24602,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20841},
+																												pos:   position{line: 659, col: 56, offset: 20852},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20847},
+																													pos: position{line: 659, col: 62, offset: 20858},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24622,12 +24636,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24644,7 +24658,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20863},
+																												pos:        position{line: 659, col: 78, offset: 20874},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24653,28 +24667,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20981},
+																									pos: position{line: 663, col: 25, offset: 20992},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20981},
+																										pos: position{line: 663, col: 25, offset: 20992},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20981},
+																												pos:        position{line: 663, col: 25, offset: 20992},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20994},
+																												pos:   position{line: 663, col: 38, offset: 21005},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 319, col: 18, offset: 9747},
 																													run: (*parser).callonExternalLink208,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 319, col: 18, offset: 9747},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 319, col: 18, offset: 9747},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24682,9 +24696,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 319, col: 29, offset: 9758},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24697,33 +24711,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21013},
+																												pos:   position{line: 663, col: 57, offset: 21024},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21019},
+																													pos: position{line: 663, col: 63, offset: 21030},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21142},
+																														pos: position{line: 667, col: 17, offset: 21153},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21142},
+																															pos: position{line: 667, col: 17, offset: 21153},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21142},
+																																	pos:        position{line: 667, col: 17, offset: 21153},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21146},
+																																	pos:   position{line: 667, col: 21, offset: 21157},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21153},
+																																		pos: position{line: 667, col: 28, offset: 21164},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21153},
+																																				pos: position{line: 667, col: 28, offset: 21164},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21153},
+																																					pos:        position{line: 667, col: 28, offset: 21164},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24731,12 +24745,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21207},
+																																				pos: position{line: 669, col: 9, offset: 21218},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21207},
+																																					pos: position{line: 669, col: 9, offset: 21218},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21207},
+																																						pos:        position{line: 669, col: 9, offset: 21218},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24753,7 +24767,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21035},
+																												pos:        position{line: 663, col: 79, offset: 21046},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24768,27 +24782,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37216},
+																			pos: position{line: 1207, col: 23, offset: 37227},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37216},
+																				pos: position{line: 1207, col: 23, offset: 37227},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37244},
+																						pos:   position{line: 1207, col: 51, offset: 37255},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37249},
+																							pos: position{line: 1207, col: 56, offset: 37260},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37249},
+																								pos: position{line: 1207, col: 56, offset: 37260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37249},
+																									pos:        position{line: 1207, col: 56, offset: 37260},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24798,7 +24812,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37184},
+																						pos:        position{line: 1205, col: 32, offset: 37195},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24807,10 +24821,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90257},
+																			pos: position{line: 2846, col: 11, offset: 90268},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90257},
+																				pos:        position{line: 2846, col: 11, offset: 90268},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24827,12 +24841,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 30, offset: 46685},
+									pos:   position{line: 1450, col: 30, offset: 46696},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 41, offset: 46696},
+										pos: position{line: 1450, col: 41, offset: 46707},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 42, offset: 46697},
+											pos:  position{line: 1450, col: 42, offset: 46708},
 											name: "InlineAttributes",
 										},
 									},
@@ -24845,41 +24859,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1483, col: 1, offset: 47838},
+			pos:  position{line: 1484, col: 1, offset: 47849},
 			expr: &actionExpr{
-				pos: position{line: 1484, col: 5, offset: 47859},
+				pos: position{line: 1485, col: 5, offset: 47870},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1484, col: 5, offset: 47859},
+					pos: position{line: 1485, col: 5, offset: 47870},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1484, col: 5, offset: 47859},
+							pos:   position{line: 1485, col: 5, offset: 47870},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1490, col: 5, offset: 48061},
+								pos: position{line: 1491, col: 5, offset: 48072},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1583, col: 5, offset: 51035},
+										pos: position{line: 1584, col: 5, offset: 51046},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1583, col: 5, offset: 51035},
+											pos: position{line: 1584, col: 5, offset: 51046},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51035},
+													pos:   position{line: 1584, col: 5, offset: 51046},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1590, col: 5, offset: 51243},
+														pos: position{line: 1591, col: 5, offset: 51254},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1590, col: 5, offset: 51243},
+															pos: position{line: 1591, col: 5, offset: 51254},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1590, col: 5, offset: 51243},
+																	pos: position{line: 1591, col: 5, offset: 51254},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24888,27 +24902,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1590, col: 12, offset: 51250},
+																	pos:   position{line: 1591, col: 12, offset: 51261},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1592, col: 9, offset: 51313},
+																		pos: position{line: 1593, col: 9, offset: 51324},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1592, col: 9, offset: 51313},
+																				pos: position{line: 1593, col: 9, offset: 51324},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 9, offset: 51313},
+																					pos: position{line: 1593, col: 9, offset: 51324},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 9, offset: 51313},
+																							pos:   position{line: 1593, col: 9, offset: 51324},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1592, col: 16, offset: 51320},
+																								pos: position{line: 1593, col: 16, offset: 51331},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1592, col: 16, offset: 51320},
+																									pos: position{line: 1593, col: 16, offset: 51331},
 																									expr: &litMatcher{
-																										pos:        position{line: 1592, col: 17, offset: 51321},
+																										pos:        position{line: 1593, col: 17, offset: 51332},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24917,22 +24931,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1596, col: 9, offset: 51421},
+																							pos: position{line: 1597, col: 9, offset: 51432},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 11, offset: 52138},
+																				pos: position{line: 1616, col: 11, offset: 52149},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 11, offset: 52138},
+																					pos: position{line: 1616, col: 11, offset: 52149},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 11, offset: 52138},
+																							pos: position{line: 1616, col: 11, offset: 52149},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 12, offset: 52139},
+																								pos:        position{line: 1616, col: 12, offset: 52150},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24940,7 +24954,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 20, offset: 52147},
+																							pos:        position{line: 1616, col: 20, offset: 52158},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24949,20 +24963,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52264},
+																				pos: position{line: 1618, col: 13, offset: 52275},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52264},
+																					pos: position{line: 1618, col: 13, offset: 52275},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52265},
+																							pos:        position{line: 1618, col: 14, offset: 52276},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52272},
+																							pos:        position{line: 1618, col: 21, offset: 52283},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24971,20 +24985,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52392},
+																				pos: position{line: 1620, col: 13, offset: 52403},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52392},
+																					pos: position{line: 1620, col: 13, offset: 52403},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52393},
+																							pos:        position{line: 1620, col: 14, offset: 52404},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52400},
+																							pos:        position{line: 1620, col: 21, offset: 52411},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24993,15 +25007,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52520},
+																				pos: position{line: 1622, col: 13, offset: 52531},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52520},
+																					pos: position{line: 1622, col: 13, offset: 52531},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52520},
+																							pos: position{line: 1622, col: 13, offset: 52531},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52521},
+																								pos:        position{line: 1622, col: 14, offset: 52532},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25009,7 +25023,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52533},
+																							pos:        position{line: 1622, col: 26, offset: 52544},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25018,15 +25032,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52653},
+																				pos: position{line: 1624, col: 13, offset: 52664},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52653},
+																					pos: position{line: 1624, col: 13, offset: 52664},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52653},
+																							pos: position{line: 1624, col: 13, offset: 52664},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52654},
+																								pos:        position{line: 1624, col: 14, offset: 52665},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25034,7 +25048,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52666},
+																							pos:        position{line: 1624, col: 26, offset: 52677},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25046,12 +25060,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25064,26 +25078,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1584, col: 5, offset: 51074},
+													pos:   position{line: 1585, col: 5, offset: 51085},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25094,28 +25108,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25124,9 +25138,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -25139,27 +25153,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1633, col: 5, offset: 52932},
+										pos: position{line: 1634, col: 5, offset: 52943},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1633, col: 5, offset: 52932},
+											pos: position{line: 1634, col: 5, offset: 52943},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 52932},
+													pos:   position{line: 1634, col: 5, offset: 52943},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1640, col: 5, offset: 53205},
+														pos: position{line: 1641, col: 5, offset: 53216},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1640, col: 5, offset: 53205},
+															pos: position{line: 1641, col: 5, offset: 53216},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1640, col: 5, offset: 53205},
+																	pos: position{line: 1641, col: 5, offset: 53216},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25168,24 +25182,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1641, col: 5, offset: 53217},
+																	pos:   position{line: 1642, col: 5, offset: 53228},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1642, col: 9, offset: 53233},
+																		pos: position{line: 1643, col: 9, offset: 53244},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1642, col: 10, offset: 53234},
+																			pos: position{line: 1643, col: 10, offset: 53245},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1642, col: 11, offset: 53235},
+																					pos:        position{line: 1643, col: 11, offset: 53246},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1642, col: 18, offset: 53242},
+																					pos: position{line: 1643, col: 18, offset: 53253},
 																					expr: &litMatcher{
-																						pos:        position{line: 1642, col: 19, offset: 53243},
+																						pos:        position{line: 1643, col: 19, offset: 53254},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25196,16 +25210,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1645, col: 7, offset: 53333},
+																	pos: position{line: 1646, col: 7, offset: 53344},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25218,56 +25232,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 52973},
+													pos:   position{line: 1635, col: 5, offset: 52984},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1634, col: 16, offset: 52984},
+														pos: position{line: 1635, col: 16, offset: 52995},
 														expr: &actionExpr{
-															pos: position{line: 1655, col: 5, offset: 53598},
+															pos: position{line: 1656, col: 5, offset: 53609},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1655, col: 5, offset: 53598},
+																pos: position{line: 1656, col: 5, offset: 53609},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1655, col: 5, offset: 53598},
+																		pos: position{line: 1656, col: 5, offset: 53609},
 																		expr: &litMatcher{
-																			pos:        position{line: 1655, col: 6, offset: 53599},
+																			pos:        position{line: 1656, col: 6, offset: 53610},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1655, col: 10, offset: 53603},
+																		pos:   position{line: 1656, col: 10, offset: 53614},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1656, col: 7, offset: 53617},
+																			pos: position{line: 1657, col: 7, offset: 53628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53617},
+																					pos: position{line: 1657, col: 7, offset: 53628},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53617},
+																						pos:        position{line: 1657, col: 7, offset: 53628},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53662},
+																					pos: position{line: 1658, col: 7, offset: 53673},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53662},
+																						pos:        position{line: 1658, col: 7, offset: 53673},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53705},
+																					pos: position{line: 1659, col: 7, offset: 53716},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53705},
+																						pos:        position{line: 1659, col: 7, offset: 53716},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25277,12 +25291,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2870, col: 11, offset: 90803},
+																			pos: position{line: 2871, col: 11, offset: 90814},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 11, offset: 90803},
+																				pos:        position{line: 2871, col: 11, offset: 90814},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25296,26 +25310,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53023},
+													pos:   position{line: 1636, col: 5, offset: 53034},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25326,28 +25340,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25356,9 +25370,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -25371,36 +25385,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55545},
+										pos: position{line: 1724, col: 5, offset: 55556},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55545},
+											pos: position{line: 1724, col: 5, offset: 55556},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55545},
+													pos:   position{line: 1724, col: 5, offset: 55556},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55742},
+														pos: position{line: 1730, col: 5, offset: 55753},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55742},
+															pos: position{line: 1730, col: 5, offset: 55753},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55742},
+																	pos:        position{line: 1730, col: 5, offset: 55753},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55746},
+																	pos:   position{line: 1730, col: 9, offset: 55757},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55751},
+																		pos: position{line: 1730, col: 14, offset: 55762},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55751},
+																			pos: position{line: 1730, col: 14, offset: 55762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55751},
+																				pos:        position{line: 1730, col: 14, offset: 55762},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25410,18 +25424,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55799},
+																	pos:        position{line: 1730, col: 62, offset: 55810},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25434,26 +25448,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55581},
+													pos:   position{line: 1725, col: 5, offset: 55592},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25464,28 +25478,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25494,9 +25508,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -25509,40 +25523,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1667, col: 5, offset: 53898},
+										pos: position{line: 1668, col: 5, offset: 53909},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1667, col: 5, offset: 53898},
+											pos: position{line: 1668, col: 5, offset: 53909},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 53898},
+													pos:   position{line: 1668, col: 5, offset: 53909},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54224},
+														pos: position{line: 1676, col: 5, offset: 54235},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1675, col: 5, offset: 54224},
+															pos: position{line: 1676, col: 5, offset: 54235},
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 6, offset: 54225},
+																pos: position{line: 1676, col: 6, offset: 54236},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1675, col: 6, offset: 54225},
+																		pos: position{line: 1676, col: 6, offset: 54236},
 																		expr: &actionExpr{
-																			pos: position{line: 1680, col: 5, offset: 54375},
+																			pos: position{line: 1681, col: 5, offset: 54386},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1680, col: 5, offset: 54375},
+																				pos: position{line: 1681, col: 5, offset: 54386},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1680, col: 5, offset: 54375},
+																						pos:   position{line: 1681, col: 5, offset: 54386},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1680, col: 16, offset: 54386},
+																							pos: position{line: 1681, col: 16, offset: 54397},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1680, col: 16, offset: 54386},
+																								pos: position{line: 1681, col: 16, offset: 54397},
 																								expr: &litMatcher{
-																									pos:        position{line: 1680, col: 17, offset: 54387},
+																									pos:        position{line: 1681, col: 17, offset: 54398},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25551,7 +25565,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1683, col: 5, offset: 54444},
+																						pos: position{line: 1684, col: 5, offset: 54455},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25559,30 +25573,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1675, col: 35, offset: 54254},
+																		pos: position{line: 1676, col: 35, offset: 54265},
 																		expr: &choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25591,16 +25605,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1675, col: 40, offset: 54259,
+																		line: 1676, col: 40, offset: 54270,
 																	},
 																},
 															},
@@ -25608,24 +25622,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53933},
+													pos:   position{line: 1669, col: 5, offset: 53944},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54375},
+														pos: position{line: 1681, col: 5, offset: 54386},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54375},
+															pos: position{line: 1681, col: 5, offset: 54386},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54375},
+																	pos:   position{line: 1681, col: 5, offset: 54386},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54386},
+																		pos: position{line: 1681, col: 16, offset: 54397},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54386},
+																			pos: position{line: 1681, col: 16, offset: 54397},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54387},
+																				pos:        position{line: 1681, col: 17, offset: 54398},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25634,7 +25648,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54444},
+																	pos: position{line: 1684, col: 5, offset: 54455},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25642,24 +25656,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 53978},
+													pos:   position{line: 1670, col: 5, offset: 53989},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54693},
+														pos: position{line: 1692, col: 5, offset: 54704},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54759},
+																pos: position{line: 1694, col: 9, offset: 54770},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54759},
+																	pos: position{line: 1694, col: 9, offset: 54770},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54759},
+																			pos: position{line: 1694, col: 9, offset: 54770},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25668,28 +25682,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25698,34 +25712,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54778},
+																			pos: position{line: 1695, col: 9, offset: 54789},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21508},
+																				pos: position{line: 678, col: 14, offset: 21519},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21508},
+																					pos: position{line: 678, col: 14, offset: 21519},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21515},
+																							pos: position{line: 678, col: 21, offset: 21526},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25734,28 +25748,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +25778,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -25779,18 +25793,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54907},
+																pos: position{line: 1701, col: 9, offset: 54918},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54907},
+																	pos: position{line: 1701, col: 9, offset: 54918},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 11, offset: 90803},
+																			pos: position{line: 2871, col: 11, offset: 90814},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2870, col: 11, offset: 90803},
+																				pos: position{line: 2871, col: 11, offset: 90814},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 11, offset: 90803},
+																					pos:        position{line: 2871, col: 11, offset: 90814},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25799,15 +25813,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 54980},
+																			pos:   position{line: 1702, col: 9, offset: 54991},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 54989},
+																				pos: position{line: 1702, col: 18, offset: 55000},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 54989},
+																					pos: position{line: 1702, col: 18, offset: 55000},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 54989},
+																						pos:        position{line: 1702, col: 18, offset: 55000},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25817,28 +25831,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25847,9 +25861,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -25867,10 +25881,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1485, col: 5, offset: 47890},
+							pos:   position{line: 1486, col: 5, offset: 47901},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1485, col: 20, offset: 47905},
+								pos:  position{line: 1486, col: 20, offset: 47916},
 								name: "ExtraListElements",
 							},
 						},
@@ -25880,17 +25894,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1495, col: 1, offset: 48160},
+			pos:  position{line: 1496, col: 1, offset: 48171},
 			expr: &actionExpr{
-				pos: position{line: 1495, col: 22, offset: 48181},
+				pos: position{line: 1496, col: 22, offset: 48192},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1495, col: 22, offset: 48181},
+					pos:   position{line: 1496, col: 22, offset: 48192},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1495, col: 31, offset: 48190},
+						pos: position{line: 1496, col: 31, offset: 48201},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1495, col: 32, offset: 48191},
+							pos:  position{line: 1496, col: 32, offset: 48202},
 							name: "ExtraListElement",
 						},
 					},
@@ -25899,52 +25913,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1499, col: 1, offset: 48271},
+			pos:  position{line: 1500, col: 1, offset: 48282},
 			expr: &actionExpr{
-				pos: position{line: 1500, col: 5, offset: 48410},
+				pos: position{line: 1501, col: 5, offset: 48421},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1500, col: 5, offset: 48410},
+					pos: position{line: 1501, col: 5, offset: 48421},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1501, col: 5, offset: 48422},
+							pos:   position{line: 1502, col: 5, offset: 48433},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1502, col: 9, offset: 48440},
+								pos: position{line: 1503, col: 9, offset: 48451},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1502, col: 13, offset: 48444},
+										pos: position{line: 1503, col: 13, offset: 48455},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1502, col: 13, offset: 48444},
+											pos: position{line: 1503, col: 13, offset: 48455},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1502, col: 13, offset: 48444},
+													pos: position{line: 1503, col: 13, offset: 48455},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21508},
+															pos: position{line: 678, col: 14, offset: 21519},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2883, col: 11, offset: 91076},
+																	pos: position{line: 2884, col: 11, offset: 91087},
 																	expr: &anyMatcher{
-																		line: 2883, col: 13, offset: 91078,
+																		line: 2884, col: 13, offset: 91089,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21515},
+																	pos: position{line: 678, col: 21, offset: 21526},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25953,28 +25967,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25983,9 +25997,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -25995,33 +26009,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1503, col: 13, offset: 48468},
+													pos:   position{line: 1504, col: 13, offset: 48479},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1503, col: 22, offset: 48477},
+														pos: position{line: 1504, col: 22, offset: 48488},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1583, col: 5, offset: 51035},
+																pos: position{line: 1584, col: 5, offset: 51046},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1583, col: 5, offset: 51035},
+																	pos: position{line: 1584, col: 5, offset: 51046},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51035},
+																			pos:   position{line: 1584, col: 5, offset: 51046},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1590, col: 5, offset: 51243},
+																				pos: position{line: 1591, col: 5, offset: 51254},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 5, offset: 51243},
+																					pos: position{line: 1591, col: 5, offset: 51254},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1590, col: 5, offset: 51243},
+																							pos: position{line: 1591, col: 5, offset: 51254},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26030,27 +26044,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 12, offset: 51250},
+																							pos:   position{line: 1591, col: 12, offset: 51261},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1592, col: 9, offset: 51313},
+																								pos: position{line: 1593, col: 9, offset: 51324},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1592, col: 9, offset: 51313},
+																										pos: position{line: 1593, col: 9, offset: 51324},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1592, col: 9, offset: 51313},
+																											pos: position{line: 1593, col: 9, offset: 51324},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1592, col: 9, offset: 51313},
+																													pos:   position{line: 1593, col: 9, offset: 51324},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1592, col: 16, offset: 51320},
+																														pos: position{line: 1593, col: 16, offset: 51331},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1592, col: 16, offset: 51320},
+																															pos: position{line: 1593, col: 16, offset: 51331},
 																															expr: &litMatcher{
-																																pos:        position{line: 1592, col: 17, offset: 51321},
+																																pos:        position{line: 1593, col: 17, offset: 51332},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26059,22 +26073,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1596, col: 9, offset: 51421},
+																													pos: position{line: 1597, col: 9, offset: 51432},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 11, offset: 52138},
+																										pos: position{line: 1616, col: 11, offset: 52149},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 11, offset: 52138},
+																											pos: position{line: 1616, col: 11, offset: 52149},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 11, offset: 52138},
+																													pos: position{line: 1616, col: 11, offset: 52149},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 12, offset: 52139},
+																														pos:        position{line: 1616, col: 12, offset: 52150},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26082,7 +26096,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 20, offset: 52147},
+																													pos:        position{line: 1616, col: 20, offset: 52158},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26091,20 +26105,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52264},
+																										pos: position{line: 1618, col: 13, offset: 52275},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52264},
+																											pos: position{line: 1618, col: 13, offset: 52275},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52265},
+																													pos:        position{line: 1618, col: 14, offset: 52276},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52272},
+																													pos:        position{line: 1618, col: 21, offset: 52283},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26113,20 +26127,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52392},
+																										pos: position{line: 1620, col: 13, offset: 52403},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52392},
+																											pos: position{line: 1620, col: 13, offset: 52403},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52393},
+																													pos:        position{line: 1620, col: 14, offset: 52404},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52400},
+																													pos:        position{line: 1620, col: 21, offset: 52411},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,15 +26149,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52520},
+																										pos: position{line: 1622, col: 13, offset: 52531},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52520},
+																											pos: position{line: 1622, col: 13, offset: 52531},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52520},
+																													pos: position{line: 1622, col: 13, offset: 52531},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52521},
+																														pos:        position{line: 1622, col: 14, offset: 52532},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26151,7 +26165,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52533},
+																													pos:        position{line: 1622, col: 26, offset: 52544},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26160,15 +26174,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52653},
+																										pos: position{line: 1624, col: 13, offset: 52664},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52653},
+																											pos: position{line: 1624, col: 13, offset: 52664},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52653},
+																													pos: position{line: 1624, col: 13, offset: 52664},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52654},
+																														pos:        position{line: 1624, col: 14, offset: 52665},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26176,7 +26190,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52666},
+																													pos:        position{line: 1624, col: 26, offset: 52677},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26188,12 +26202,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26206,26 +26220,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1584, col: 5, offset: 51074},
+																			pos:   position{line: 1585, col: 5, offset: 51085},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26236,28 +26250,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26266,9 +26280,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -26281,27 +26295,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1633, col: 5, offset: 52932},
+																pos: position{line: 1634, col: 5, offset: 52943},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1633, col: 5, offset: 52932},
+																	pos: position{line: 1634, col: 5, offset: 52943},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 52932},
+																			pos:   position{line: 1634, col: 5, offset: 52943},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1640, col: 5, offset: 53205},
+																				pos: position{line: 1641, col: 5, offset: 53216},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1640, col: 5, offset: 53205},
+																					pos: position{line: 1641, col: 5, offset: 53216},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1640, col: 5, offset: 53205},
+																							pos: position{line: 1641, col: 5, offset: 53216},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26310,24 +26324,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1641, col: 5, offset: 53217},
+																							pos:   position{line: 1642, col: 5, offset: 53228},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1642, col: 9, offset: 53233},
+																								pos: position{line: 1643, col: 9, offset: 53244},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1642, col: 10, offset: 53234},
+																									pos: position{line: 1643, col: 10, offset: 53245},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1642, col: 11, offset: 53235},
+																											pos:        position{line: 1643, col: 11, offset: 53246},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1642, col: 18, offset: 53242},
+																											pos: position{line: 1643, col: 18, offset: 53253},
 																											expr: &litMatcher{
-																												pos:        position{line: 1642, col: 19, offset: 53243},
+																												pos:        position{line: 1643, col: 19, offset: 53254},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26338,16 +26352,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1645, col: 7, offset: 53333},
+																							pos: position{line: 1646, col: 7, offset: 53344},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26360,56 +26374,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 52973},
+																			pos:   position{line: 1635, col: 5, offset: 52984},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1634, col: 16, offset: 52984},
+																				pos: position{line: 1635, col: 16, offset: 52995},
 																				expr: &actionExpr{
-																					pos: position{line: 1655, col: 5, offset: 53598},
+																					pos: position{line: 1656, col: 5, offset: 53609},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1655, col: 5, offset: 53598},
+																						pos: position{line: 1656, col: 5, offset: 53609},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1655, col: 5, offset: 53598},
+																								pos: position{line: 1656, col: 5, offset: 53609},
 																								expr: &litMatcher{
-																									pos:        position{line: 1655, col: 6, offset: 53599},
+																									pos:        position{line: 1656, col: 6, offset: 53610},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1655, col: 10, offset: 53603},
+																								pos:   position{line: 1656, col: 10, offset: 53614},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1656, col: 7, offset: 53617},
+																									pos: position{line: 1657, col: 7, offset: 53628},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53617},
+																											pos: position{line: 1657, col: 7, offset: 53628},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53617},
+																												pos:        position{line: 1657, col: 7, offset: 53628},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53662},
+																											pos: position{line: 1658, col: 7, offset: 53673},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53662},
+																												pos:        position{line: 1658, col: 7, offset: 53673},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53705},
+																											pos: position{line: 1659, col: 7, offset: 53716},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53705},
+																												pos:        position{line: 1659, col: 7, offset: 53716},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26419,12 +26433,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2870, col: 11, offset: 90803},
+																									pos: position{line: 2871, col: 11, offset: 90814},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 11, offset: 90803},
+																										pos:        position{line: 2871, col: 11, offset: 90814},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26438,26 +26452,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53023},
+																			pos:   position{line: 1636, col: 5, offset: 53034},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26468,28 +26482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26498,9 +26512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -26513,36 +26527,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55545},
+																pos: position{line: 1724, col: 5, offset: 55556},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55545},
+																	pos: position{line: 1724, col: 5, offset: 55556},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55545},
+																			pos:   position{line: 1724, col: 5, offset: 55556},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 55742},
+																				pos: position{line: 1730, col: 5, offset: 55753},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 55742},
+																					pos: position{line: 1730, col: 5, offset: 55753},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 55742},
+																							pos:        position{line: 1730, col: 5, offset: 55753},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 55746},
+																							pos:   position{line: 1730, col: 9, offset: 55757},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 55751},
+																								pos: position{line: 1730, col: 14, offset: 55762},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 55751},
+																									pos: position{line: 1730, col: 14, offset: 55762},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 55751},
+																										pos:        position{line: 1730, col: 14, offset: 55762},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26552,18 +26566,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 55799},
+																							pos:        position{line: 1730, col: 62, offset: 55810},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26576,26 +26590,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55581},
+																			pos:   position{line: 1725, col: 5, offset: 55592},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26606,28 +26620,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26636,9 +26650,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -26651,40 +26665,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53898},
+																pos: position{line: 1668, col: 5, offset: 53909},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53898},
+																	pos: position{line: 1668, col: 5, offset: 53909},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53898},
+																			pos:   position{line: 1668, col: 5, offset: 53909},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54224},
+																				pos: position{line: 1676, col: 5, offset: 54235},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 5, offset: 54224},
+																					pos: position{line: 1676, col: 5, offset: 54235},
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 6, offset: 54225},
+																						pos: position{line: 1676, col: 6, offset: 54236},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1675, col: 6, offset: 54225},
+																								pos: position{line: 1676, col: 6, offset: 54236},
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 5, offset: 54375},
+																									pos: position{line: 1681, col: 5, offset: 54386},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1680, col: 5, offset: 54375},
+																										pos: position{line: 1681, col: 5, offset: 54386},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1680, col: 5, offset: 54375},
+																												pos:   position{line: 1681, col: 5, offset: 54386},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1680, col: 16, offset: 54386},
+																													pos: position{line: 1681, col: 16, offset: 54397},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1680, col: 16, offset: 54386},
+																														pos: position{line: 1681, col: 16, offset: 54397},
 																														expr: &litMatcher{
-																															pos:        position{line: 1680, col: 17, offset: 54387},
+																															pos:        position{line: 1681, col: 17, offset: 54398},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26693,7 +26707,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1683, col: 5, offset: 54444},
+																												pos: position{line: 1684, col: 5, offset: 54455},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26701,30 +26715,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1675, col: 35, offset: 54254},
+																								pos: position{line: 1676, col: 35, offset: 54265},
 																								expr: &choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26733,16 +26747,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1675, col: 40, offset: 54259,
+																								line: 1676, col: 40, offset: 54270,
 																							},
 																						},
 																					},
@@ -26750,24 +26764,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53933},
+																			pos:   position{line: 1669, col: 5, offset: 53944},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54375},
+																				pos: position{line: 1681, col: 5, offset: 54386},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54375},
+																					pos: position{line: 1681, col: 5, offset: 54386},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54375},
+																							pos:   position{line: 1681, col: 5, offset: 54386},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54386},
+																								pos: position{line: 1681, col: 16, offset: 54397},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54386},
+																									pos: position{line: 1681, col: 16, offset: 54397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54387},
+																										pos:        position{line: 1681, col: 17, offset: 54398},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26776,7 +26790,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54444},
+																							pos: position{line: 1684, col: 5, offset: 54455},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26784,24 +26798,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 53978},
+																			pos:   position{line: 1670, col: 5, offset: 53989},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54693},
+																				pos: position{line: 1692, col: 5, offset: 54704},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54759},
+																						pos: position{line: 1694, col: 9, offset: 54770},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54759},
+																							pos: position{line: 1694, col: 9, offset: 54770},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54759},
+																									pos: position{line: 1694, col: 9, offset: 54770},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26810,28 +26824,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26840,34 +26854,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54778},
+																									pos: position{line: 1695, col: 9, offset: 54789},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21508},
+																										pos: position{line: 678, col: 14, offset: 21519},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21508},
+																											pos: position{line: 678, col: 14, offset: 21519},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2883, col: 11, offset: 91076},
+																													pos: position{line: 2884, col: 11, offset: 91087},
 																													expr: &anyMatcher{
-																														line: 2883, col: 13, offset: 91078,
+																														line: 2884, col: 13, offset: 91089,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21515},
+																													pos: position{line: 678, col: 21, offset: 21526},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26876,28 +26890,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26906,9 +26920,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -26921,18 +26935,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54907},
+																						pos: position{line: 1701, col: 9, offset: 54918},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54907},
+																							pos: position{line: 1701, col: 9, offset: 54918},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90803},
+																									pos: position{line: 2871, col: 11, offset: 90814},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90803},
+																										pos: position{line: 2871, col: 11, offset: 90814},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90803},
+																											pos:        position{line: 2871, col: 11, offset: 90814},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26941,15 +26955,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 54980},
+																									pos:   position{line: 1702, col: 9, offset: 54991},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 54989},
+																										pos: position{line: 1702, col: 18, offset: 55000},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 54989},
+																											pos: position{line: 1702, col: 18, offset: 55000},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 54989},
+																												pos:        position{line: 1702, col: 18, offset: 55000},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26959,28 +26973,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26989,9 +27003,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -27012,50 +27026,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1506, col: 13, offset: 48628},
+										pos: position{line: 1507, col: 13, offset: 48639},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1506, col: 13, offset: 48628},
+											pos: position{line: 1507, col: 13, offset: 48639},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1506, col: 13, offset: 48628},
+													pos:   position{line: 1507, col: 13, offset: 48639},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1506, col: 24, offset: 48639},
+														pos: position{line: 1507, col: 24, offset: 48650},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1506, col: 25, offset: 48640},
+															pos:  position{line: 1507, col: 25, offset: 48651},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1507, col: 13, offset: 48671},
+													pos:   position{line: 1508, col: 13, offset: 48682},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1507, col: 22, offset: 48680},
+														pos: position{line: 1508, col: 22, offset: 48691},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1583, col: 5, offset: 51035},
+																pos: position{line: 1584, col: 5, offset: 51046},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1583, col: 5, offset: 51035},
+																	pos: position{line: 1584, col: 5, offset: 51046},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51035},
+																			pos:   position{line: 1584, col: 5, offset: 51046},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1590, col: 5, offset: 51243},
+																				pos: position{line: 1591, col: 5, offset: 51254},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 5, offset: 51243},
+																					pos: position{line: 1591, col: 5, offset: 51254},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1590, col: 5, offset: 51243},
+																							pos: position{line: 1591, col: 5, offset: 51254},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27064,27 +27078,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 12, offset: 51250},
+																							pos:   position{line: 1591, col: 12, offset: 51261},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1592, col: 9, offset: 51313},
+																								pos: position{line: 1593, col: 9, offset: 51324},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1592, col: 9, offset: 51313},
+																										pos: position{line: 1593, col: 9, offset: 51324},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1592, col: 9, offset: 51313},
+																											pos: position{line: 1593, col: 9, offset: 51324},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1592, col: 9, offset: 51313},
+																													pos:   position{line: 1593, col: 9, offset: 51324},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1592, col: 16, offset: 51320},
+																														pos: position{line: 1593, col: 16, offset: 51331},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1592, col: 16, offset: 51320},
+																															pos: position{line: 1593, col: 16, offset: 51331},
 																															expr: &litMatcher{
-																																pos:        position{line: 1592, col: 17, offset: 51321},
+																																pos:        position{line: 1593, col: 17, offset: 51332},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27093,22 +27107,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1596, col: 9, offset: 51421},
+																													pos: position{line: 1597, col: 9, offset: 51432},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 11, offset: 52138},
+																										pos: position{line: 1616, col: 11, offset: 52149},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 11, offset: 52138},
+																											pos: position{line: 1616, col: 11, offset: 52149},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 11, offset: 52138},
+																													pos: position{line: 1616, col: 11, offset: 52149},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 12, offset: 52139},
+																														pos:        position{line: 1616, col: 12, offset: 52150},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27116,7 +27130,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 20, offset: 52147},
+																													pos:        position{line: 1616, col: 20, offset: 52158},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27125,20 +27139,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52264},
+																										pos: position{line: 1618, col: 13, offset: 52275},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52264},
+																											pos: position{line: 1618, col: 13, offset: 52275},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52265},
+																													pos:        position{line: 1618, col: 14, offset: 52276},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52272},
+																													pos:        position{line: 1618, col: 21, offset: 52283},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27147,20 +27161,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52392},
+																										pos: position{line: 1620, col: 13, offset: 52403},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52392},
+																											pos: position{line: 1620, col: 13, offset: 52403},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52393},
+																													pos:        position{line: 1620, col: 14, offset: 52404},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52400},
+																													pos:        position{line: 1620, col: 21, offset: 52411},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27169,15 +27183,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52520},
+																										pos: position{line: 1622, col: 13, offset: 52531},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52520},
+																											pos: position{line: 1622, col: 13, offset: 52531},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52520},
+																													pos: position{line: 1622, col: 13, offset: 52531},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52521},
+																														pos:        position{line: 1622, col: 14, offset: 52532},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27185,7 +27199,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52533},
+																													pos:        position{line: 1622, col: 26, offset: 52544},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27194,15 +27208,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52653},
+																										pos: position{line: 1624, col: 13, offset: 52664},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52653},
+																											pos: position{line: 1624, col: 13, offset: 52664},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52653},
+																													pos: position{line: 1624, col: 13, offset: 52664},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52654},
+																														pos:        position{line: 1624, col: 14, offset: 52665},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27210,7 +27224,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52666},
+																													pos:        position{line: 1624, col: 26, offset: 52677},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27222,12 +27236,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27240,26 +27254,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1584, col: 5, offset: 51074},
+																			pos:   position{line: 1585, col: 5, offset: 51085},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27270,28 +27284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27300,9 +27314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -27315,27 +27329,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1633, col: 5, offset: 52932},
+																pos: position{line: 1634, col: 5, offset: 52943},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1633, col: 5, offset: 52932},
+																	pos: position{line: 1634, col: 5, offset: 52943},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 52932},
+																			pos:   position{line: 1634, col: 5, offset: 52943},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1640, col: 5, offset: 53205},
+																				pos: position{line: 1641, col: 5, offset: 53216},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1640, col: 5, offset: 53205},
+																					pos: position{line: 1641, col: 5, offset: 53216},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1640, col: 5, offset: 53205},
+																							pos: position{line: 1641, col: 5, offset: 53216},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27344,24 +27358,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1641, col: 5, offset: 53217},
+																							pos:   position{line: 1642, col: 5, offset: 53228},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1642, col: 9, offset: 53233},
+																								pos: position{line: 1643, col: 9, offset: 53244},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1642, col: 10, offset: 53234},
+																									pos: position{line: 1643, col: 10, offset: 53245},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1642, col: 11, offset: 53235},
+																											pos:        position{line: 1643, col: 11, offset: 53246},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1642, col: 18, offset: 53242},
+																											pos: position{line: 1643, col: 18, offset: 53253},
 																											expr: &litMatcher{
-																												pos:        position{line: 1642, col: 19, offset: 53243},
+																												pos:        position{line: 1643, col: 19, offset: 53254},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27372,16 +27386,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1645, col: 7, offset: 53333},
+																							pos: position{line: 1646, col: 7, offset: 53344},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27394,56 +27408,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 52973},
+																			pos:   position{line: 1635, col: 5, offset: 52984},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1634, col: 16, offset: 52984},
+																				pos: position{line: 1635, col: 16, offset: 52995},
 																				expr: &actionExpr{
-																					pos: position{line: 1655, col: 5, offset: 53598},
+																					pos: position{line: 1656, col: 5, offset: 53609},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1655, col: 5, offset: 53598},
+																						pos: position{line: 1656, col: 5, offset: 53609},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1655, col: 5, offset: 53598},
+																								pos: position{line: 1656, col: 5, offset: 53609},
 																								expr: &litMatcher{
-																									pos:        position{line: 1655, col: 6, offset: 53599},
+																									pos:        position{line: 1656, col: 6, offset: 53610},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1655, col: 10, offset: 53603},
+																								pos:   position{line: 1656, col: 10, offset: 53614},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1656, col: 7, offset: 53617},
+																									pos: position{line: 1657, col: 7, offset: 53628},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53617},
+																											pos: position{line: 1657, col: 7, offset: 53628},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53617},
+																												pos:        position{line: 1657, col: 7, offset: 53628},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53662},
+																											pos: position{line: 1658, col: 7, offset: 53673},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53662},
+																												pos:        position{line: 1658, col: 7, offset: 53673},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53705},
+																											pos: position{line: 1659, col: 7, offset: 53716},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53705},
+																												pos:        position{line: 1659, col: 7, offset: 53716},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27453,12 +27467,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2870, col: 11, offset: 90803},
+																									pos: position{line: 2871, col: 11, offset: 90814},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 11, offset: 90803},
+																										pos:        position{line: 2871, col: 11, offset: 90814},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27472,26 +27486,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53023},
+																			pos:   position{line: 1636, col: 5, offset: 53034},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27502,28 +27516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27532,9 +27546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -27547,36 +27561,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55545},
+																pos: position{line: 1724, col: 5, offset: 55556},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55545},
+																	pos: position{line: 1724, col: 5, offset: 55556},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55545},
+																			pos:   position{line: 1724, col: 5, offset: 55556},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 55742},
+																				pos: position{line: 1730, col: 5, offset: 55753},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 55742},
+																					pos: position{line: 1730, col: 5, offset: 55753},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 55742},
+																							pos:        position{line: 1730, col: 5, offset: 55753},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 55746},
+																							pos:   position{line: 1730, col: 9, offset: 55757},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 55751},
+																								pos: position{line: 1730, col: 14, offset: 55762},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 55751},
+																									pos: position{line: 1730, col: 14, offset: 55762},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 55751},
+																										pos:        position{line: 1730, col: 14, offset: 55762},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27586,18 +27600,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 55799},
+																							pos:        position{line: 1730, col: 62, offset: 55810},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27610,26 +27624,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55581},
+																			pos:   position{line: 1725, col: 5, offset: 55592},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1531, col: 5, offset: 49541},
+																				pos: position{line: 1532, col: 5, offset: 49552},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1531, col: 5, offset: 49541},
+																					pos: position{line: 1532, col: 5, offset: 49552},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1531, col: 5, offset: 49541},
+																							pos:   position{line: 1532, col: 5, offset: 49552},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1531, col: 14, offset: 49550},
+																								pos: position{line: 1532, col: 14, offset: 49561},
 																								expr: &actionExpr{
-																									pos: position{line: 1531, col: 15, offset: 49551},
+																									pos: position{line: 1532, col: 15, offset: 49562},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1531, col: 15, offset: 49551},
+																										pos: position{line: 1532, col: 15, offset: 49562},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1531, col: 15, offset: 49551},
+																											pos:        position{line: 1532, col: 15, offset: 49562},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27640,28 +27654,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27670,9 +27684,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -27685,40 +27699,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53898},
+																pos: position{line: 1668, col: 5, offset: 53909},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53898},
+																	pos: position{line: 1668, col: 5, offset: 53909},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53898},
+																			pos:   position{line: 1668, col: 5, offset: 53909},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54224},
+																				pos: position{line: 1676, col: 5, offset: 54235},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 5, offset: 54224},
+																					pos: position{line: 1676, col: 5, offset: 54235},
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 6, offset: 54225},
+																						pos: position{line: 1676, col: 6, offset: 54236},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1675, col: 6, offset: 54225},
+																								pos: position{line: 1676, col: 6, offset: 54236},
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 5, offset: 54375},
+																									pos: position{line: 1681, col: 5, offset: 54386},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1680, col: 5, offset: 54375},
+																										pos: position{line: 1681, col: 5, offset: 54386},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1680, col: 5, offset: 54375},
+																												pos:   position{line: 1681, col: 5, offset: 54386},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1680, col: 16, offset: 54386},
+																													pos: position{line: 1681, col: 16, offset: 54397},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1680, col: 16, offset: 54386},
+																														pos: position{line: 1681, col: 16, offset: 54397},
 																														expr: &litMatcher{
-																															pos:        position{line: 1680, col: 17, offset: 54387},
+																															pos:        position{line: 1681, col: 17, offset: 54398},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27727,7 +27741,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1683, col: 5, offset: 54444},
+																												pos: position{line: 1684, col: 5, offset: 54455},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27735,30 +27749,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1675, col: 35, offset: 54254},
+																								pos: position{line: 1676, col: 35, offset: 54265},
 																								expr: &choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27767,16 +27781,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1675, col: 40, offset: 54259,
+																								line: 1676, col: 40, offset: 54270,
 																							},
 																						},
 																					},
@@ -27784,24 +27798,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53933},
+																			pos:   position{line: 1669, col: 5, offset: 53944},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54375},
+																				pos: position{line: 1681, col: 5, offset: 54386},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54375},
+																					pos: position{line: 1681, col: 5, offset: 54386},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54375},
+																							pos:   position{line: 1681, col: 5, offset: 54386},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54386},
+																								pos: position{line: 1681, col: 16, offset: 54397},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54386},
+																									pos: position{line: 1681, col: 16, offset: 54397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54387},
+																										pos:        position{line: 1681, col: 17, offset: 54398},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27810,7 +27824,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54444},
+																							pos: position{line: 1684, col: 5, offset: 54455},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27818,24 +27832,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 53978},
+																			pos:   position{line: 1670, col: 5, offset: 53989},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54693},
+																				pos: position{line: 1692, col: 5, offset: 54704},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54759},
+																						pos: position{line: 1694, col: 9, offset: 54770},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54759},
+																							pos: position{line: 1694, col: 9, offset: 54770},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54759},
+																									pos: position{line: 1694, col: 9, offset: 54770},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27844,28 +27858,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27874,34 +27888,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54778},
+																									pos: position{line: 1695, col: 9, offset: 54789},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21508},
+																										pos: position{line: 678, col: 14, offset: 21519},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21508},
+																											pos: position{line: 678, col: 14, offset: 21519},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2883, col: 11, offset: 91076},
+																													pos: position{line: 2884, col: 11, offset: 91087},
 																													expr: &anyMatcher{
-																														line: 2883, col: 13, offset: 91078,
+																														line: 2884, col: 13, offset: 91089,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21515},
+																													pos: position{line: 678, col: 21, offset: 21526},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27910,28 +27924,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27940,9 +27954,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -27955,18 +27969,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54907},
+																						pos: position{line: 1701, col: 9, offset: 54918},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54907},
+																							pos: position{line: 1701, col: 9, offset: 54918},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90803},
+																									pos: position{line: 2871, col: 11, offset: 90814},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90803},
+																										pos: position{line: 2871, col: 11, offset: 90814},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90803},
+																											pos:        position{line: 2871, col: 11, offset: 90814},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27975,15 +27989,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 54980},
+																									pos:   position{line: 1702, col: 9, offset: 54991},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 54989},
+																										pos: position{line: 1702, col: 18, offset: 55000},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 54989},
+																											pos: position{line: 1702, col: 18, offset: 55000},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 54989},
+																												pos:        position{line: 1702, col: 18, offset: 55000},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27993,28 +28007,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28023,9 +28037,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -28046,40 +28060,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1510, col: 11, offset: 48865},
+										pos:  position{line: 1511, col: 11, offset: 48876},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2476, col: 22, offset: 79727},
+										pos: position{line: 2477, col: 22, offset: 79738},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2481, col: 31, offset: 79948},
+													pos:        position{line: 2482, col: 31, offset: 79959},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2481, col: 36, offset: 79953},
+													pos: position{line: 2482, col: 36, offset: 79964},
 													expr: &litMatcher{
-														pos:        position{line: 2481, col: 37, offset: 79954},
+														pos:        position{line: 2482, col: 37, offset: 79965},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2476, col: 49, offset: 79754},
+													pos:   position{line: 2477, col: 49, offset: 79765},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89268},
+														pos: position{line: 2813, col: 13, offset: 89279},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89268},
+																pos:        position{line: 2813, col: 13, offset: 89279},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28089,28 +28103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28119,9 +28133,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -28130,32 +28144,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1518, col: 5, offset: 49129},
+										pos: position{line: 1519, col: 5, offset: 49140},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1518, col: 5, offset: 49129},
+											pos: position{line: 1519, col: 5, offset: 49140},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49129},
+													pos: position{line: 1519, col: 5, offset: 49140},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21508},
+															pos: position{line: 678, col: 14, offset: 21519},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2883, col: 11, offset: 91076},
+																	pos: position{line: 2884, col: 11, offset: 91087},
 																	expr: &anyMatcher{
-																		line: 2883, col: 13, offset: 91078,
+																		line: 2884, col: 13, offset: 91089,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21515},
+																	pos: position{line: 678, col: 21, offset: 21526},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28164,28 +28178,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28194,9 +28208,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -28206,23 +28220,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49144},
+													pos: position{line: 1520, col: 5, offset: 49155},
 													expr: &seqExpr{
-														pos: position{line: 1549, col: 27, offset: 50049},
+														pos: position{line: 1550, col: 27, offset: 50060},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1549, col: 27, offset: 50049},
+																pos:        position{line: 1550, col: 27, offset: 50060},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1549, col: 31, offset: 50053},
+																pos: position{line: 1550, col: 31, offset: 50064},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28231,25 +28245,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28261,20 +28275,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49172},
+													pos: position{line: 1521, col: 5, offset: 49183},
 													expr: &actionExpr{
-														pos: position{line: 1590, col: 5, offset: 51243},
+														pos: position{line: 1591, col: 5, offset: 51254},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1590, col: 5, offset: 51243},
+															pos: position{line: 1591, col: 5, offset: 51254},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1590, col: 5, offset: 51243},
+																	pos: position{line: 1591, col: 5, offset: 51254},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28283,27 +28297,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1590, col: 12, offset: 51250},
+																	pos:   position{line: 1591, col: 12, offset: 51261},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1592, col: 9, offset: 51313},
+																		pos: position{line: 1593, col: 9, offset: 51324},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1592, col: 9, offset: 51313},
+																				pos: position{line: 1593, col: 9, offset: 51324},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 9, offset: 51313},
+																					pos: position{line: 1593, col: 9, offset: 51324},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 9, offset: 51313},
+																							pos:   position{line: 1593, col: 9, offset: 51324},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1592, col: 16, offset: 51320},
+																								pos: position{line: 1593, col: 16, offset: 51331},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1592, col: 16, offset: 51320},
+																									pos: position{line: 1593, col: 16, offset: 51331},
 																									expr: &litMatcher{
-																										pos:        position{line: 1592, col: 17, offset: 51321},
+																										pos:        position{line: 1593, col: 17, offset: 51332},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28312,22 +28326,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1596, col: 9, offset: 51421},
+																							pos: position{line: 1597, col: 9, offset: 51432},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 11, offset: 52138},
+																				pos: position{line: 1616, col: 11, offset: 52149},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 11, offset: 52138},
+																					pos: position{line: 1616, col: 11, offset: 52149},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 11, offset: 52138},
+																							pos: position{line: 1616, col: 11, offset: 52149},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 12, offset: 52139},
+																								pos:        position{line: 1616, col: 12, offset: 52150},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28335,7 +28349,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 20, offset: 52147},
+																							pos:        position{line: 1616, col: 20, offset: 52158},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28344,20 +28358,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52264},
+																				pos: position{line: 1618, col: 13, offset: 52275},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52264},
+																					pos: position{line: 1618, col: 13, offset: 52275},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52265},
+																							pos:        position{line: 1618, col: 14, offset: 52276},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52272},
+																							pos:        position{line: 1618, col: 21, offset: 52283},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28366,20 +28380,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52392},
+																				pos: position{line: 1620, col: 13, offset: 52403},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52392},
+																					pos: position{line: 1620, col: 13, offset: 52403},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52393},
+																							pos:        position{line: 1620, col: 14, offset: 52404},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52400},
+																							pos:        position{line: 1620, col: 21, offset: 52411},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28388,15 +28402,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52520},
+																				pos: position{line: 1622, col: 13, offset: 52531},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52520},
+																					pos: position{line: 1622, col: 13, offset: 52531},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52520},
+																							pos: position{line: 1622, col: 13, offset: 52531},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52521},
+																								pos:        position{line: 1622, col: 14, offset: 52532},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28404,7 +28418,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52533},
+																							pos:        position{line: 1622, col: 26, offset: 52544},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28413,15 +28427,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52653},
+																				pos: position{line: 1624, col: 13, offset: 52664},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52653},
+																					pos: position{line: 1624, col: 13, offset: 52664},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52653},
+																							pos: position{line: 1624, col: 13, offset: 52664},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52654},
+																								pos:        position{line: 1624, col: 14, offset: 52665},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28429,7 +28443,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52666},
+																							pos:        position{line: 1624, col: 26, offset: 52677},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28441,12 +28455,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28459,20 +28473,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49202},
+													pos: position{line: 1522, col: 5, offset: 49213},
 													expr: &actionExpr{
-														pos: position{line: 1640, col: 5, offset: 53205},
+														pos: position{line: 1641, col: 5, offset: 53216},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1640, col: 5, offset: 53205},
+															pos: position{line: 1641, col: 5, offset: 53216},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1640, col: 5, offset: 53205},
+																	pos: position{line: 1641, col: 5, offset: 53216},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28481,24 +28495,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1641, col: 5, offset: 53217},
+																	pos:   position{line: 1642, col: 5, offset: 53228},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1642, col: 9, offset: 53233},
+																		pos: position{line: 1643, col: 9, offset: 53244},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1642, col: 10, offset: 53234},
+																			pos: position{line: 1643, col: 10, offset: 53245},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1642, col: 11, offset: 53235},
+																					pos:        position{line: 1643, col: 11, offset: 53246},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1642, col: 18, offset: 53242},
+																					pos: position{line: 1643, col: 18, offset: 53253},
 																					expr: &litMatcher{
-																						pos:        position{line: 1642, col: 19, offset: 53243},
+																						pos:        position{line: 1643, col: 19, offset: 53254},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28509,16 +28523,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1645, col: 7, offset: 53333},
+																	pos: position{line: 1646, col: 7, offset: 53344},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28531,29 +28545,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49234},
+													pos: position{line: 1523, col: 5, offset: 49245},
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55742},
+														pos: position{line: 1730, col: 5, offset: 55753},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55742},
+															pos: position{line: 1730, col: 5, offset: 55753},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55742},
+																	pos:        position{line: 1730, col: 5, offset: 55753},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55746},
+																	pos:   position{line: 1730, col: 9, offset: 55757},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55751},
+																		pos: position{line: 1730, col: 14, offset: 55762},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55751},
+																			pos: position{line: 1730, col: 14, offset: 55762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55751},
+																				pos:        position{line: 1730, col: 14, offset: 55762},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28563,18 +28577,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55799},
+																	pos:        position{line: 1730, col: 62, offset: 55810},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28587,36 +28601,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49264},
+													pos: position{line: 1524, col: 5, offset: 49275},
 													expr: &seqExpr{
-														pos: position{line: 1523, col: 7, offset: 49266},
+														pos: position{line: 1524, col: 7, offset: 49277},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54224},
+																pos: position{line: 1676, col: 5, offset: 54235},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1675, col: 5, offset: 54224},
+																	pos: position{line: 1676, col: 5, offset: 54235},
 																	expr: &seqExpr{
-																		pos: position{line: 1675, col: 6, offset: 54225},
+																		pos: position{line: 1676, col: 6, offset: 54236},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1675, col: 6, offset: 54225},
+																				pos: position{line: 1676, col: 6, offset: 54236},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54375},
+																					pos: position{line: 1681, col: 5, offset: 54386},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54375},
+																						pos: position{line: 1681, col: 5, offset: 54386},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 5, offset: 54375},
+																								pos:   position{line: 1681, col: 5, offset: 54386},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 16, offset: 54386},
+																									pos: position{line: 1681, col: 16, offset: 54397},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1680, col: 16, offset: 54386},
+																										pos: position{line: 1681, col: 16, offset: 54397},
 																										expr: &litMatcher{
-																											pos:        position{line: 1680, col: 17, offset: 54387},
+																											pos:        position{line: 1681, col: 17, offset: 54398},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28625,7 +28639,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1683, col: 5, offset: 54444},
+																								pos: position{line: 1684, col: 5, offset: 54455},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28633,30 +28647,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1675, col: 35, offset: 54254},
+																				pos: position{line: 1676, col: 35, offset: 54265},
 																				expr: &choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28665,37 +28679,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1675, col: 40, offset: 54259,
+																				line: 1676, col: 40, offset: 54270,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54375},
+																pos: position{line: 1681, col: 5, offset: 54386},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54375},
+																	pos: position{line: 1681, col: 5, offset: 54386},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54375},
+																			pos:   position{line: 1681, col: 5, offset: 54386},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 16, offset: 54386},
+																				pos: position{line: 1681, col: 16, offset: 54397},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1680, col: 16, offset: 54386},
+																					pos: position{line: 1681, col: 16, offset: 54397},
 																					expr: &litMatcher{
-																						pos:        position{line: 1680, col: 17, offset: 54387},
+																						pos:        position{line: 1681, col: 17, offset: 54398},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28704,20 +28718,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1683, col: 5, offset: 54444},
+																			pos: position{line: 1684, col: 5, offset: 54455},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1523, col: 59, offset: 49318},
+																pos: position{line: 1524, col: 59, offset: 49329},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28725,25 +28739,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28752,9 +28766,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -28763,20 +28777,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49336},
+													pos: position{line: 1525, col: 5, offset: 49347},
 													expr: &choiceExpr{
-														pos: position{line: 1524, col: 7, offset: 49338},
+														pos: position{line: 1525, col: 7, offset: 49349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 724, col: 5, offset: 23080},
+																pos: position{line: 725, col: 5, offset: 23091},
 																run: (*parser).callonExtraListElement632,
 																expr: &seqExpr{
-																	pos: position{line: 724, col: 5, offset: 23080},
+																	pos: position{line: 725, col: 5, offset: 23091},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 724, col: 5, offset: 23080},
+																			pos: position{line: 725, col: 5, offset: 23091},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2756, col: 13, offset: 87837},
+																				pos:        position{line: 2757, col: 13, offset: 87848},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28784,36 +28798,36 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 725, col: 5, offset: 23110},
+																			pos:   position{line: 726, col: 5, offset: 23121},
 																			label: "delimiter",
 																			expr: &choiceExpr{
-																				pos: position{line: 726, col: 9, offset: 23130},
+																				pos: position{line: 727, col: 9, offset: 23141},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23622},
+																						pos: position{line: 741, col: 5, offset: 23633},
 																						run: (*parser).callonExtraListElement638,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23622},
+																							pos: position{line: 741, col: 5, offset: 23633},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23622},
+																									pos:   position{line: 741, col: 5, offset: 23633},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23633},
+																										pos: position{line: 741, col: 16, offset: 23644},
 																										run: (*parser).callonExtraListElement641,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23633},
+																											pos: position{line: 741, col: 16, offset: 23644},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23633},
+																													pos:        position{line: 741, col: 16, offset: 23644},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23640},
+																													pos: position{line: 741, col: 23, offset: 23651},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23640},
+																														pos:        position{line: 741, col: 23, offset: 23651},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -28824,12 +28838,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23724},
+																									pos: position{line: 743, col: 8, offset: 23735},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28838,28 +28852,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28868,9 +28882,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -28879,30 +28893,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 747, col: 5, offset: 23870},
+																						pos: position{line: 748, col: 5, offset: 23881},
 																						run: (*parser).callonExtraListElement657,
 																						expr: &seqExpr{
-																							pos: position{line: 747, col: 5, offset: 23870},
+																							pos: position{line: 748, col: 5, offset: 23881},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 747, col: 5, offset: 23870},
+																									pos:   position{line: 748, col: 5, offset: 23881},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 747, col: 16, offset: 23881},
+																										pos: position{line: 748, col: 16, offset: 23892},
 																										run: (*parser).callonExtraListElement660,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 16, offset: 23881},
+																											pos: position{line: 748, col: 16, offset: 23892},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 747, col: 16, offset: 23881},
+																													pos:        position{line: 748, col: 16, offset: 23892},
 																													val:        "====",
 																													ignoreCase: false,
 																													want:       "\"====\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 747, col: 23, offset: 23888},
+																													pos: position{line: 748, col: 23, offset: 23899},
 																													expr: &litMatcher{
-																														pos:        position{line: 747, col: 23, offset: 23888},
+																														pos:        position{line: 748, col: 23, offset: 23899},
 																														val:        "=",
 																														ignoreCase: false,
 																														want:       "\"=\"",
@@ -28913,12 +28927,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 749, col: 8, offset: 23972},
+																									pos: position{line: 750, col: 8, offset: 23983},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28927,28 +28941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28957,9 +28971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -28968,27 +28982,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 760, col: 26, offset: 24358},
+																						pos: position{line: 761, col: 26, offset: 24369},
 																						run: (*parser).callonExtraListElement676,
 																						expr: &seqExpr{
-																							pos: position{line: 760, col: 26, offset: 24358},
+																							pos: position{line: 761, col: 26, offset: 24369},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 760, col: 26, offset: 24358},
+																									pos:        position{line: 761, col: 26, offset: 24369},
 																									val:        "```",
 																									ignoreCase: false,
 																									want:       "\"```\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 760, col: 32, offset: 24364},
+																									pos:   position{line: 761, col: 32, offset: 24375},
 																									label: "language",
 																									expr: &actionExpr{
-																										pos: position{line: 764, col: 13, offset: 24494},
+																										pos: position{line: 765, col: 13, offset: 24505},
 																										run: (*parser).callonExtraListElement680,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 764, col: 14, offset: 24495},
+																											pos: position{line: 765, col: 14, offset: 24506},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 764, col: 14, offset: 24495},
+																												pos:        position{line: 765, col: 14, offset: 24506},
 																												val:        "[^\\r\\n` ]",
 																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
@@ -28998,12 +29012,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 760, col: 52, offset: 24384},
+																									pos: position{line: 761, col: 52, offset: 24395},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29012,28 +29026,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29042,9 +29056,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29053,30 +29067,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 754, col: 5, offset: 24117},
+																						pos: position{line: 755, col: 5, offset: 24128},
 																						run: (*parser).callonExtraListElement694,
 																						expr: &seqExpr{
-																							pos: position{line: 754, col: 5, offset: 24117},
+																							pos: position{line: 755, col: 5, offset: 24128},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 754, col: 5, offset: 24117},
+																									pos:   position{line: 755, col: 5, offset: 24128},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 754, col: 16, offset: 24128},
+																										pos: position{line: 755, col: 16, offset: 24139},
 																										run: (*parser).callonExtraListElement697,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 16, offset: 24128},
+																											pos: position{line: 755, col: 16, offset: 24139},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 754, col: 16, offset: 24128},
+																													pos:        position{line: 755, col: 16, offset: 24139},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 754, col: 22, offset: 24134},
+																													pos: position{line: 755, col: 22, offset: 24145},
 																													expr: &litMatcher{
-																														pos:        position{line: 754, col: 22, offset: 24134},
+																														pos:        position{line: 755, col: 22, offset: 24145},
 																														val:        "`",
 																														ignoreCase: false,
 																														want:       "\"`\"",
@@ -29087,12 +29101,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 756, col: 8, offset: 24218},
+																									pos: position{line: 757, col: 8, offset: 24229},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29101,28 +29115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29131,9 +29145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29142,30 +29156,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 769, col: 5, offset: 24654},
+																						pos: position{line: 770, col: 5, offset: 24665},
 																						run: (*parser).callonExtraListElement713,
 																						expr: &seqExpr{
-																							pos: position{line: 769, col: 5, offset: 24654},
+																							pos: position{line: 770, col: 5, offset: 24665},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 769, col: 5, offset: 24654},
+																									pos:   position{line: 770, col: 5, offset: 24665},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 769, col: 16, offset: 24665},
+																										pos: position{line: 770, col: 16, offset: 24676},
 																										run: (*parser).callonExtraListElement716,
 																										expr: &seqExpr{
-																											pos: position{line: 769, col: 16, offset: 24665},
+																											pos: position{line: 770, col: 16, offset: 24676},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 769, col: 16, offset: 24665},
+																													pos:        position{line: 770, col: 16, offset: 24676},
 																													val:        "----",
 																													ignoreCase: false,
 																													want:       "\"----\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 769, col: 23, offset: 24672},
+																													pos: position{line: 770, col: 23, offset: 24683},
 																													expr: &litMatcher{
-																														pos:        position{line: 769, col: 23, offset: 24672},
+																														pos:        position{line: 770, col: 23, offset: 24683},
 																														val:        "-",
 																														ignoreCase: false,
 																														want:       "\"-\"",
@@ -29176,12 +29190,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 771, col: 8, offset: 24756},
+																									pos: position{line: 772, col: 8, offset: 24767},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29190,28 +29204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29220,9 +29234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29231,30 +29245,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 783, col: 5, offset: 25130},
+																						pos: position{line: 784, col: 5, offset: 25141},
 																						run: (*parser).callonExtraListElement732,
 																						expr: &seqExpr{
-																							pos: position{line: 783, col: 5, offset: 25130},
+																							pos: position{line: 784, col: 5, offset: 25141},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 783, col: 5, offset: 25130},
+																									pos:   position{line: 784, col: 5, offset: 25141},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 783, col: 16, offset: 25141},
+																										pos: position{line: 784, col: 16, offset: 25152},
 																										run: (*parser).callonExtraListElement735,
 																										expr: &seqExpr{
-																											pos: position{line: 783, col: 16, offset: 25141},
+																											pos: position{line: 784, col: 16, offset: 25152},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 783, col: 16, offset: 25141},
+																													pos:        position{line: 784, col: 16, offset: 25152},
 																													val:        "....",
 																													ignoreCase: false,
 																													want:       "\"....\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 783, col: 23, offset: 25148},
+																													pos: position{line: 784, col: 23, offset: 25159},
 																													expr: &litMatcher{
-																														pos:        position{line: 783, col: 23, offset: 25148},
+																														pos:        position{line: 784, col: 23, offset: 25159},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -29265,12 +29279,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 785, col: 8, offset: 25232},
+																									pos: position{line: 786, col: 8, offset: 25243},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29279,28 +29293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29309,9 +29323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29320,30 +29334,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 790, col: 5, offset: 25382},
+																						pos: position{line: 791, col: 5, offset: 25393},
 																						run: (*parser).callonExtraListElement751,
 																						expr: &seqExpr{
-																							pos: position{line: 790, col: 5, offset: 25382},
+																							pos: position{line: 791, col: 5, offset: 25393},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 790, col: 5, offset: 25382},
+																									pos:   position{line: 791, col: 5, offset: 25393},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 790, col: 16, offset: 25393},
+																										pos: position{line: 791, col: 16, offset: 25404},
 																										run: (*parser).callonExtraListElement754,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 16, offset: 25393},
+																											pos: position{line: 791, col: 16, offset: 25404},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 790, col: 16, offset: 25393},
+																													pos:        position{line: 791, col: 16, offset: 25404},
 																													val:        "++++",
 																													ignoreCase: false,
 																													want:       "\"++++\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 790, col: 23, offset: 25400},
+																													pos: position{line: 791, col: 23, offset: 25411},
 																													expr: &litMatcher{
-																														pos:        position{line: 790, col: 23, offset: 25400},
+																														pos:        position{line: 791, col: 23, offset: 25411},
 																														val:        "+",
 																														ignoreCase: false,
 																														want:       "\"+\"",
@@ -29354,12 +29368,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 792, col: 8, offset: 25484},
+																									pos: position{line: 793, col: 8, offset: 25495},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29368,28 +29382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29398,9 +29412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29409,30 +29423,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 797, col: 5, offset: 25632},
+																						pos: position{line: 798, col: 5, offset: 25643},
 																						run: (*parser).callonExtraListElement770,
 																						expr: &seqExpr{
-																							pos: position{line: 797, col: 5, offset: 25632},
+																							pos: position{line: 798, col: 5, offset: 25643},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 797, col: 5, offset: 25632},
+																									pos:   position{line: 798, col: 5, offset: 25643},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 797, col: 16, offset: 25643},
+																										pos: position{line: 798, col: 16, offset: 25654},
 																										run: (*parser).callonExtraListElement773,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 16, offset: 25643},
+																											pos: position{line: 798, col: 16, offset: 25654},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 797, col: 16, offset: 25643},
+																													pos:        position{line: 798, col: 16, offset: 25654},
 																													val:        "____",
 																													ignoreCase: false,
 																													want:       "\"____\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 797, col: 23, offset: 25650},
+																													pos: position{line: 798, col: 23, offset: 25661},
 																													expr: &litMatcher{
-																														pos:        position{line: 797, col: 23, offset: 25650},
+																														pos:        position{line: 798, col: 23, offset: 25661},
 																														val:        "_",
 																														ignoreCase: false,
 																														want:       "\"_\"",
@@ -29443,12 +29457,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 799, col: 8, offset: 25734},
+																									pos: position{line: 800, col: 8, offset: 25745},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29457,28 +29471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29487,9 +29501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29498,30 +29512,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 804, col: 5, offset: 25878},
+																						pos: position{line: 805, col: 5, offset: 25889},
 																						run: (*parser).callonExtraListElement789,
 																						expr: &seqExpr{
-																							pos: position{line: 804, col: 5, offset: 25878},
+																							pos: position{line: 805, col: 5, offset: 25889},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 804, col: 5, offset: 25878},
+																									pos:   position{line: 805, col: 5, offset: 25889},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 804, col: 16, offset: 25889},
+																										pos: position{line: 805, col: 16, offset: 25900},
 																										run: (*parser).callonExtraListElement792,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 16, offset: 25889},
+																											pos: position{line: 805, col: 16, offset: 25900},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 804, col: 16, offset: 25889},
+																													pos:        position{line: 805, col: 16, offset: 25900},
 																													val:        "****",
 																													ignoreCase: false,
 																													want:       "\"****\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 804, col: 23, offset: 25896},
+																													pos: position{line: 805, col: 23, offset: 25907},
 																													expr: &litMatcher{
-																														pos:        position{line: 804, col: 23, offset: 25896},
+																														pos:        position{line: 805, col: 23, offset: 25907},
 																														val:        "*",
 																														ignoreCase: false,
 																														want:       "\"*\"",
@@ -29532,12 +29546,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 806, col: 8, offset: 25980},
+																									pos: position{line: 807, col: 8, offset: 25991},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29546,28 +29560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29576,9 +29590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -29593,19 +29607,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 776, col: 5, offset: 24899},
+																pos: position{line: 777, col: 5, offset: 24910},
 																run: (*parser).callonExtraListElement808,
 																expr: &seqExpr{
-																	pos: position{line: 776, col: 5, offset: 24899},
+																	pos: position{line: 777, col: 5, offset: 24910},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 776, col: 5, offset: 24899},
+																			pos:   position{line: 777, col: 5, offset: 24910},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 776, col: 16, offset: 24910},
+																				pos: position{line: 777, col: 16, offset: 24921},
 																				run: (*parser).callonExtraListElement811,
 																				expr: &litMatcher{
-																					pos:        position{line: 776, col: 16, offset: 24910},
+																					pos:        position{line: 777, col: 16, offset: 24921},
 																					val:        "--",
 																					ignoreCase: false,
 																					want:       "\"--\"",
@@ -29613,12 +29627,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 778, col: 8, offset: 24987},
+																			pos: position{line: 779, col: 8, offset: 24998},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29627,28 +29641,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29657,9 +29671,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -29668,21 +29682,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2608, col: 19, offset: 83425},
+																pos: position{line: 2609, col: 19, offset: 83436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2608, col: 19, offset: 83425},
+																		pos:        position{line: 2609, col: 19, offset: 83436},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2608, col: 26, offset: 83432},
+																		pos: position{line: 2609, col: 26, offset: 83443},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29691,28 +29705,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29721,9 +29735,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -29734,15 +29748,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1525, col: 5, offset: 49396},
+													pos:   position{line: 1526, col: 5, offset: 49407},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 14, offset: 89335},
+														pos: position{line: 2817, col: 14, offset: 89346},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2816, col: 14, offset: 89335},
+															pos: position{line: 2817, col: 14, offset: 89346},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 14, offset: 89335},
+																pos:        position{line: 2817, col: 14, offset: 89346},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29752,28 +29766,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29782,9 +29796,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -29801,28 +29815,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1541, col: 1, offset: 49787},
+			pos:  position{line: 1542, col: 1, offset: 49798},
 			expr: &actionExpr{
-				pos: position{line: 1542, col: 5, offset: 49812},
+				pos: position{line: 1543, col: 5, offset: 49823},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1542, col: 5, offset: 49812},
+					pos: position{line: 1543, col: 5, offset: 49823},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49812},
+							pos:   position{line: 1543, col: 5, offset: 49823},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1542, col: 12, offset: 49819},
+								pos: position{line: 1543, col: 12, offset: 49830},
 								expr: &seqExpr{
-									pos: position{line: 1542, col: 13, offset: 49820},
+									pos: position{line: 1543, col: 13, offset: 49831},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1542, col: 13, offset: 49820},
+											pos: position{line: 1543, col: 13, offset: 49831},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90742},
+												pos: position{line: 2867, col: 10, offset: 90753},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90742},
+													pos:        position{line: 2867, col: 10, offset: 90753},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29831,25 +29845,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2875, col: 12, offset: 90913},
+											pos: position{line: 2876, col: 12, offset: 90924},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2875, col: 13, offset: 90914},
+												pos: position{line: 2876, col: 13, offset: 90925},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2875, col: 13, offset: 90914},
+														pos:        position{line: 2876, col: 13, offset: 90925},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2875, col: 20, offset: 90921},
+														pos:        position{line: 2876, col: 20, offset: 90932},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2875, col: 29, offset: 90930},
+														pos:        position{line: 2876, col: 29, offset: 90941},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29862,18 +29876,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1543, col: 5, offset: 49842},
+							pos:        position{line: 1544, col: 5, offset: 49853},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1543, col: 9, offset: 49846},
+							pos: position{line: 1544, col: 9, offset: 49857},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29882,28 +29896,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29912,45 +29926,45 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1544, col: 5, offset: 49861},
+							pos:   position{line: 1545, col: 5, offset: 49872},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1544, col: 13, offset: 49869},
+								pos: position{line: 1545, col: 13, offset: 49880},
 								expr: &actionExpr{
-									pos: position{line: 1544, col: 14, offset: 49870},
+									pos: position{line: 1545, col: 14, offset: 49881},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1544, col: 14, offset: 49870},
+										pos: position{line: 1545, col: 14, offset: 49881},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1544, col: 14, offset: 49870},
+												pos: position{line: 1545, col: 14, offset: 49881},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonListContinuation31,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29959,28 +29973,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29989,9 +30003,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -30001,10 +30015,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1544, col: 25, offset: 49881},
+												pos:   position{line: 1545, col: 25, offset: 49892},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1544, col: 27, offset: 49883},
+													pos:  position{line: 1545, col: 27, offset: 49894},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30019,46 +30033,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1551, col: 1, offset: 50069},
+			pos:  position{line: 1552, col: 1, offset: 50080},
 			expr: &actionExpr{
-				pos: position{line: 1552, col: 5, offset: 50115},
+				pos: position{line: 1553, col: 5, offset: 50126},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1552, col: 5, offset: 50115},
+					pos: position{line: 1553, col: 5, offset: 50126},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1553, col: 5, offset: 50143},
+							pos: position{line: 1554, col: 5, offset: 50154},
 							expr: &choiceExpr{
-								pos: position{line: 1490, col: 5, offset: 48061},
+								pos: position{line: 1491, col: 5, offset: 48072},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1583, col: 5, offset: 51035},
+										pos: position{line: 1584, col: 5, offset: 51046},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1583, col: 5, offset: 51035},
+											pos: position{line: 1584, col: 5, offset: 51046},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51035},
+													pos:   position{line: 1584, col: 5, offset: 51046},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1590, col: 5, offset: 51243},
+														pos: position{line: 1591, col: 5, offset: 51254},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1590, col: 5, offset: 51243},
+															pos: position{line: 1591, col: 5, offset: 51254},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1590, col: 5, offset: 51243},
+																	pos: position{line: 1591, col: 5, offset: 51254},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30067,27 +30081,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1590, col: 12, offset: 51250},
+																	pos:   position{line: 1591, col: 12, offset: 51261},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1592, col: 9, offset: 51313},
+																		pos: position{line: 1593, col: 9, offset: 51324},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1592, col: 9, offset: 51313},
+																				pos: position{line: 1593, col: 9, offset: 51324},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 9, offset: 51313},
+																					pos: position{line: 1593, col: 9, offset: 51324},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 9, offset: 51313},
+																							pos:   position{line: 1593, col: 9, offset: 51324},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1592, col: 16, offset: 51320},
+																								pos: position{line: 1593, col: 16, offset: 51331},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1592, col: 16, offset: 51320},
+																									pos: position{line: 1593, col: 16, offset: 51331},
 																									expr: &litMatcher{
-																										pos:        position{line: 1592, col: 17, offset: 51321},
+																										pos:        position{line: 1593, col: 17, offset: 51332},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30096,22 +30110,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1596, col: 9, offset: 51421},
+																							pos: position{line: 1597, col: 9, offset: 51432},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 11, offset: 52138},
+																				pos: position{line: 1616, col: 11, offset: 52149},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 11, offset: 52138},
+																					pos: position{line: 1616, col: 11, offset: 52149},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 11, offset: 52138},
+																							pos: position{line: 1616, col: 11, offset: 52149},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 12, offset: 52139},
+																								pos:        position{line: 1616, col: 12, offset: 52150},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30119,7 +30133,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 20, offset: 52147},
+																							pos:        position{line: 1616, col: 20, offset: 52158},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30128,20 +30142,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52264},
+																				pos: position{line: 1618, col: 13, offset: 52275},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52264},
+																					pos: position{line: 1618, col: 13, offset: 52275},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52265},
+																							pos:        position{line: 1618, col: 14, offset: 52276},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52272},
+																							pos:        position{line: 1618, col: 21, offset: 52283},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30150,20 +30164,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52392},
+																				pos: position{line: 1620, col: 13, offset: 52403},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52392},
+																					pos: position{line: 1620, col: 13, offset: 52403},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52393},
+																							pos:        position{line: 1620, col: 14, offset: 52404},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52400},
+																							pos:        position{line: 1620, col: 21, offset: 52411},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30172,15 +30186,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52520},
+																				pos: position{line: 1622, col: 13, offset: 52531},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52520},
+																					pos: position{line: 1622, col: 13, offset: 52531},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52520},
+																							pos: position{line: 1622, col: 13, offset: 52531},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52521},
+																								pos:        position{line: 1622, col: 14, offset: 52532},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30188,7 +30202,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52533},
+																							pos:        position{line: 1622, col: 26, offset: 52544},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30197,15 +30211,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52653},
+																				pos: position{line: 1624, col: 13, offset: 52664},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52653},
+																					pos: position{line: 1624, col: 13, offset: 52664},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52653},
+																							pos: position{line: 1624, col: 13, offset: 52664},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52654},
+																								pos:        position{line: 1624, col: 14, offset: 52665},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30213,7 +30227,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52666},
+																							pos:        position{line: 1624, col: 26, offset: 52677},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30225,12 +30239,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30243,26 +30257,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1584, col: 5, offset: 51074},
+													pos:   position{line: 1585, col: 5, offset: 51085},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30273,28 +30287,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30303,9 +30317,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -30318,27 +30332,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1633, col: 5, offset: 52932},
+										pos: position{line: 1634, col: 5, offset: 52943},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1633, col: 5, offset: 52932},
+											pos: position{line: 1634, col: 5, offset: 52943},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 52932},
+													pos:   position{line: 1634, col: 5, offset: 52943},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1640, col: 5, offset: 53205},
+														pos: position{line: 1641, col: 5, offset: 53216},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1640, col: 5, offset: 53205},
+															pos: position{line: 1641, col: 5, offset: 53216},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1640, col: 5, offset: 53205},
+																	pos: position{line: 1641, col: 5, offset: 53216},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30347,24 +30361,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1641, col: 5, offset: 53217},
+																	pos:   position{line: 1642, col: 5, offset: 53228},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1642, col: 9, offset: 53233},
+																		pos: position{line: 1643, col: 9, offset: 53244},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1642, col: 10, offset: 53234},
+																			pos: position{line: 1643, col: 10, offset: 53245},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1642, col: 11, offset: 53235},
+																					pos:        position{line: 1643, col: 11, offset: 53246},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1642, col: 18, offset: 53242},
+																					pos: position{line: 1643, col: 18, offset: 53253},
 																					expr: &litMatcher{
-																						pos:        position{line: 1642, col: 19, offset: 53243},
+																						pos:        position{line: 1643, col: 19, offset: 53254},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30375,16 +30389,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1645, col: 7, offset: 53333},
+																	pos: position{line: 1646, col: 7, offset: 53344},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30397,56 +30411,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 52973},
+													pos:   position{line: 1635, col: 5, offset: 52984},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1634, col: 16, offset: 52984},
+														pos: position{line: 1635, col: 16, offset: 52995},
 														expr: &actionExpr{
-															pos: position{line: 1655, col: 5, offset: 53598},
+															pos: position{line: 1656, col: 5, offset: 53609},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1655, col: 5, offset: 53598},
+																pos: position{line: 1656, col: 5, offset: 53609},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1655, col: 5, offset: 53598},
+																		pos: position{line: 1656, col: 5, offset: 53609},
 																		expr: &litMatcher{
-																			pos:        position{line: 1655, col: 6, offset: 53599},
+																			pos:        position{line: 1656, col: 6, offset: 53610},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1655, col: 10, offset: 53603},
+																		pos:   position{line: 1656, col: 10, offset: 53614},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1656, col: 7, offset: 53617},
+																			pos: position{line: 1657, col: 7, offset: 53628},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53617},
+																					pos: position{line: 1657, col: 7, offset: 53628},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53617},
+																						pos:        position{line: 1657, col: 7, offset: 53628},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53662},
+																					pos: position{line: 1658, col: 7, offset: 53673},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53662},
+																						pos:        position{line: 1658, col: 7, offset: 53673},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53705},
+																					pos: position{line: 1659, col: 7, offset: 53716},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53705},
+																						pos:        position{line: 1659, col: 7, offset: 53716},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30456,12 +30470,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2870, col: 11, offset: 90803},
+																			pos: position{line: 2871, col: 11, offset: 90814},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 11, offset: 90803},
+																				pos:        position{line: 2871, col: 11, offset: 90814},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30475,26 +30489,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53023},
+													pos:   position{line: 1636, col: 5, offset: 53034},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30505,28 +30519,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30535,9 +30549,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -30550,36 +30564,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55545},
+										pos: position{line: 1724, col: 5, offset: 55556},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55545},
+											pos: position{line: 1724, col: 5, offset: 55556},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55545},
+													pos:   position{line: 1724, col: 5, offset: 55556},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55742},
+														pos: position{line: 1730, col: 5, offset: 55753},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55742},
+															pos: position{line: 1730, col: 5, offset: 55753},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55742},
+																	pos:        position{line: 1730, col: 5, offset: 55753},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55746},
+																	pos:   position{line: 1730, col: 9, offset: 55757},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55751},
+																		pos: position{line: 1730, col: 14, offset: 55762},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55751},
+																			pos: position{line: 1730, col: 14, offset: 55762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55751},
+																				pos:        position{line: 1730, col: 14, offset: 55762},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30589,18 +30603,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55799},
+																	pos:        position{line: 1730, col: 62, offset: 55810},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30613,26 +30627,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55581},
+													pos:   position{line: 1725, col: 5, offset: 55592},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49541},
+														pos: position{line: 1532, col: 5, offset: 49552},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49541},
+															pos: position{line: 1532, col: 5, offset: 49552},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1531, col: 5, offset: 49541},
+																	pos:   position{line: 1532, col: 5, offset: 49552},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1531, col: 14, offset: 49550},
+																		pos: position{line: 1532, col: 14, offset: 49561},
 																		expr: &actionExpr{
-																			pos: position{line: 1531, col: 15, offset: 49551},
+																			pos: position{line: 1532, col: 15, offset: 49562},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1531, col: 15, offset: 49551},
+																				pos: position{line: 1532, col: 15, offset: 49562},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1531, col: 15, offset: 49551},
+																					pos:        position{line: 1532, col: 15, offset: 49562},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30643,28 +30657,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30673,9 +30687,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -30688,40 +30702,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1667, col: 5, offset: 53898},
+										pos: position{line: 1668, col: 5, offset: 53909},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1667, col: 5, offset: 53898},
+											pos: position{line: 1668, col: 5, offset: 53909},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 53898},
+													pos:   position{line: 1668, col: 5, offset: 53909},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54224},
+														pos: position{line: 1676, col: 5, offset: 54235},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1675, col: 5, offset: 54224},
+															pos: position{line: 1676, col: 5, offset: 54235},
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 6, offset: 54225},
+																pos: position{line: 1676, col: 6, offset: 54236},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1675, col: 6, offset: 54225},
+																		pos: position{line: 1676, col: 6, offset: 54236},
 																		expr: &actionExpr{
-																			pos: position{line: 1680, col: 5, offset: 54375},
+																			pos: position{line: 1681, col: 5, offset: 54386},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1680, col: 5, offset: 54375},
+																				pos: position{line: 1681, col: 5, offset: 54386},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1680, col: 5, offset: 54375},
+																						pos:   position{line: 1681, col: 5, offset: 54386},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1680, col: 16, offset: 54386},
+																							pos: position{line: 1681, col: 16, offset: 54397},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1680, col: 16, offset: 54386},
+																								pos: position{line: 1681, col: 16, offset: 54397},
 																								expr: &litMatcher{
-																									pos:        position{line: 1680, col: 17, offset: 54387},
+																									pos:        position{line: 1681, col: 17, offset: 54398},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30730,7 +30744,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1683, col: 5, offset: 54444},
+																						pos: position{line: 1684, col: 5, offset: 54455},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30738,30 +30752,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1675, col: 35, offset: 54254},
+																		pos: position{line: 1676, col: 35, offset: 54265},
 																		expr: &choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30770,16 +30784,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1675, col: 40, offset: 54259,
+																		line: 1676, col: 40, offset: 54270,
 																	},
 																},
 															},
@@ -30787,24 +30801,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53933},
+													pos:   position{line: 1669, col: 5, offset: 53944},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54375},
+														pos: position{line: 1681, col: 5, offset: 54386},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54375},
+															pos: position{line: 1681, col: 5, offset: 54386},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54375},
+																	pos:   position{line: 1681, col: 5, offset: 54386},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54386},
+																		pos: position{line: 1681, col: 16, offset: 54397},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54386},
+																			pos: position{line: 1681, col: 16, offset: 54397},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54387},
+																				pos:        position{line: 1681, col: 17, offset: 54398},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30813,7 +30827,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54444},
+																	pos: position{line: 1684, col: 5, offset: 54455},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30821,24 +30835,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 53978},
+													pos:   position{line: 1670, col: 5, offset: 53989},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54693},
+														pos: position{line: 1692, col: 5, offset: 54704},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54759},
+																pos: position{line: 1694, col: 9, offset: 54770},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54759},
+																	pos: position{line: 1694, col: 9, offset: 54770},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54759},
+																			pos: position{line: 1694, col: 9, offset: 54770},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30847,28 +30861,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30877,34 +30891,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54778},
+																			pos: position{line: 1695, col: 9, offset: 54789},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21508},
+																				pos: position{line: 678, col: 14, offset: 21519},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21508},
+																					pos: position{line: 678, col: 14, offset: 21519},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91076},
+																							pos: position{line: 2884, col: 11, offset: 91087},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91078,
+																								line: 2884, col: 13, offset: 91089,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21515},
+																							pos: position{line: 678, col: 21, offset: 21526},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30913,28 +30927,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30943,9 +30957,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -30958,18 +30972,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54907},
+																pos: position{line: 1701, col: 9, offset: 54918},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54907},
+																	pos: position{line: 1701, col: 9, offset: 54918},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 11, offset: 90803},
+																			pos: position{line: 2871, col: 11, offset: 90814},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2870, col: 11, offset: 90803},
+																				pos: position{line: 2871, col: 11, offset: 90814},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 11, offset: 90803},
+																					pos:        position{line: 2871, col: 11, offset: 90814},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30978,15 +30992,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 54980},
+																			pos:   position{line: 1702, col: 9, offset: 54991},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 54989},
+																				pos: position{line: 1702, col: 18, offset: 55000},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 54989},
+																					pos: position{line: 1702, col: 18, offset: 55000},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 54989},
+																						pos:        position{line: 1702, col: 18, offset: 55000},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30996,28 +31010,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31026,9 +31040,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -31046,41 +31060,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1554, col: 5, offset: 50160},
+							pos:   position{line: 1555, col: 5, offset: 50171},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1554, col: 16, offset: 50171},
+								pos: position{line: 1555, col: 16, offset: 50182},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1554, col: 17, offset: 50172},
+									pos:  position{line: 1555, col: 17, offset: 50183},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1555, col: 5, offset: 50194},
+							pos:   position{line: 1556, col: 5, offset: 50205},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1556, col: 9, offset: 50212},
+								pos: position{line: 1557, col: 9, offset: 50223},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21508},
+										pos: position{line: 678, col: 14, offset: 21519},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21508},
+											pos: position{line: 678, col: 14, offset: 21519},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2883, col: 11, offset: 91076},
+													pos: position{line: 2884, col: 11, offset: 91087},
 													expr: &anyMatcher{
-														line: 2883, col: 13, offset: 91078,
+														line: 2884, col: 13, offset: 91089,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21515},
+													pos: position{line: 678, col: 21, offset: 21526},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31089,28 +31103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31119,9 +31133,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -31130,32 +31144,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1557, col: 11, offset: 50232},
+										pos:  position{line: 1558, col: 11, offset: 50243},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 361, col: 19, offset: 10921},
 										run: (*parser).callonListContinuationElement248,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 361, col: 19, offset: 10921},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 361, col: 19, offset: 10921},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 361, col: 24, offset: 10926},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 319, col: 18, offset: 9747},
 														run: (*parser).callonListContinuationElement252,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 319, col: 18, offset: 9747},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31163,9 +31177,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 319, col: 29, offset: 9758},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31178,18 +31192,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 361, col: 45, offset: 10947},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31198,28 +31212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31228,9 +31242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -31239,28 +31253,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 363, col: 9, offset: 11042},
 										run: (*parser).callonListContinuationElement269,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 363, col: 9, offset: 11042},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 363, col: 9, offset: 11042},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 363, col: 13, offset: 11046},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 319, col: 18, offset: 9747},
 														run: (*parser).callonListContinuationElement273,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 319, col: 18, offset: 9747},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 319, col: 18, offset: 9747},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31268,9 +31282,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 319, col: 29, offset: 9758},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -31283,18 +31297,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 363, col: 34, offset: 11067},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31303,28 +31317,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31333,9 +31347,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -31344,39 +31358,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26362},
+										pos: position{line: 821, col: 5, offset: 26373},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26362},
+											pos: position{line: 821, col: 5, offset: 26373},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26362},
+													pos:   position{line: 821, col: 5, offset: 26373},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23622},
+														pos: position{line: 741, col: 5, offset: 23633},
 														run: (*parser).callonListContinuationElement293,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23622},
+															pos: position{line: 741, col: 5, offset: 23633},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23622},
+																	pos:   position{line: 741, col: 5, offset: 23633},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23633},
+																		pos: position{line: 741, col: 16, offset: 23644},
 																		run: (*parser).callonListContinuationElement296,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23633},
+																			pos: position{line: 741, col: 16, offset: 23644},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23633},
+																					pos:        position{line: 741, col: 16, offset: 23644},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23640},
+																					pos: position{line: 741, col: 23, offset: 23651},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23640},
+																						pos:        position{line: 741, col: 23, offset: 23651},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31387,12 +31401,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23724},
+																	pos: position{line: 743, col: 8, offset: 23735},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31401,28 +31415,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31431,9 +31445,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -31443,56 +31457,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 822, col: 5, offset: 26412},
 													run: (*parser).callonListContinuationElement312,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26493},
+													pos:   position{line: 825, col: 5, offset: 26504},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26885},
+														pos: position{line: 840, col: 5, offset: 26896},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26886},
+															pos: position{line: 840, col: 6, offset: 26897},
 															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26886},
+																pos: position{line: 840, col: 6, offset: 26897},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26886},
+																		pos: position{line: 840, col: 6, offset: 26897},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26727},
+																			pos: position{line: 833, col: 5, offset: 26738},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26727},
+																					pos: position{line: 833, col: 5, offset: 26738},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26727},
+																							pos:   position{line: 833, col: 5, offset: 26738},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23622},
+																								pos: position{line: 741, col: 5, offset: 23633},
 																								run: (*parser).callonListContinuationElement321,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23622},
+																									pos: position{line: 741, col: 5, offset: 23633},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23622},
+																											pos:   position{line: 741, col: 5, offset: 23633},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23633},
+																												pos: position{line: 741, col: 16, offset: 23644},
 																												run: (*parser).callonListContinuationElement324,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23633},
+																													pos: position{line: 741, col: 16, offset: 23644},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23633},
+																															pos:        position{line: 741, col: 16, offset: 23644},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23640},
+																															pos: position{line: 741, col: 23, offset: 23651},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23640},
+																																pos:        position{line: 741, col: 23, offset: 23651},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31503,12 +31517,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23724},
+																											pos: position{line: 743, col: 8, offset: 23735},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31517,28 +31531,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31547,9 +31561,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -31559,45 +31573,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26758},
+																							pos: position{line: 834, col: 5, offset: 26769},
 																							run: (*parser).callonListContinuationElement340,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26916},
+																		pos:   position{line: 841, col: 5, offset: 26927},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31607,28 +31621,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31637,9 +31651,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -31654,41 +31668,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 825, col: 5, offset: 26527},
+													pos: position{line: 826, col: 5, offset: 26538},
 													expr: &choiceExpr{
-														pos: position{line: 832, col: 5, offset: 26727},
+														pos: position{line: 833, col: 5, offset: 26738},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 832, col: 5, offset: 26727},
+																pos: position{line: 833, col: 5, offset: 26738},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26727},
+																		pos:   position{line: 833, col: 5, offset: 26738},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23622},
+																			pos: position{line: 741, col: 5, offset: 23633},
 																			run: (*parser).callonListContinuationElement364,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23622},
+																				pos: position{line: 741, col: 5, offset: 23633},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23622},
+																						pos:   position{line: 741, col: 5, offset: 23633},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23633},
+																							pos: position{line: 741, col: 16, offset: 23644},
 																							run: (*parser).callonListContinuationElement367,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23633},
+																								pos: position{line: 741, col: 16, offset: 23644},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23633},
+																										pos:        position{line: 741, col: 16, offset: 23644},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23640},
+																										pos: position{line: 741, col: 23, offset: 23651},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23640},
+																											pos:        position{line: 741, col: 23, offset: 23651},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -31699,12 +31713,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23724},
+																						pos: position{line: 743, col: 8, offset: 23735},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31713,28 +31727,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31743,9 +31757,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -31755,15 +31769,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 833, col: 5, offset: 26758},
+																		pos: position{line: 834, col: 5, offset: 26769},
 																		run: (*parser).callonListContinuationElement383,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -31773,39 +31787,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 848, col: 5, offset: 27069},
+										pos: position{line: 849, col: 5, offset: 27080},
 										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 848, col: 5, offset: 27069},
+											pos: position{line: 849, col: 5, offset: 27080},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 848, col: 5, offset: 27069},
+													pos:   position{line: 849, col: 5, offset: 27080},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23870},
+														pos: position{line: 748, col: 5, offset: 23881},
 														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23870},
+															pos: position{line: 748, col: 5, offset: 23881},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23870},
+																	pos:   position{line: 748, col: 5, offset: 23881},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23881},
+																		pos: position{line: 748, col: 16, offset: 23892},
 																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23881},
+																			pos: position{line: 748, col: 16, offset: 23892},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23881},
+																					pos:        position{line: 748, col: 16, offset: 23892},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23888},
+																					pos: position{line: 748, col: 23, offset: 23899},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23888},
+																						pos:        position{line: 748, col: 23, offset: 23899},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31816,12 +31830,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23972},
+																	pos: position{line: 750, col: 8, offset: 23983},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31830,28 +31844,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31860,9 +31874,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -31872,56 +31886,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 849, col: 5, offset: 27108},
+													pos: position{line: 850, col: 5, offset: 27119},
 													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 852, col: 5, offset: 27200},
+													pos:   position{line: 853, col: 5, offset: 27211},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 867, col: 4, offset: 27597},
+														pos: position{line: 868, col: 4, offset: 27608},
 														expr: &actionExpr{
-															pos: position{line: 867, col: 5, offset: 27598},
+															pos: position{line: 868, col: 5, offset: 27609},
 															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 867, col: 5, offset: 27598},
+																pos: position{line: 868, col: 5, offset: 27609},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 867, col: 5, offset: 27598},
+																		pos: position{line: 868, col: 5, offset: 27609},
 																		expr: &choiceExpr{
-																			pos: position{line: 860, col: 5, offset: 27440},
+																			pos: position{line: 861, col: 5, offset: 27451},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 860, col: 5, offset: 27440},
+																					pos: position{line: 861, col: 5, offset: 27451},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 860, col: 5, offset: 27440},
+																							pos:   position{line: 861, col: 5, offset: 27451},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23870},
+																								pos: position{line: 748, col: 5, offset: 23881},
 																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23870},
+																									pos: position{line: 748, col: 5, offset: 23881},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23870},
+																											pos:   position{line: 748, col: 5, offset: 23881},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23881},
+																												pos: position{line: 748, col: 16, offset: 23892},
 																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23881},
+																													pos: position{line: 748, col: 16, offset: 23892},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23881},
+																															pos:        position{line: 748, col: 16, offset: 23892},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23888},
+																															pos: position{line: 748, col: 23, offset: 23899},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23888},
+																																pos:        position{line: 748, col: 23, offset: 23899},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31932,12 +31946,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23972},
+																											pos: position{line: 750, col: 8, offset: 23983},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31946,28 +31960,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31976,9 +31990,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -31988,45 +32002,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 861, col: 5, offset: 27471},
+																							pos: position{line: 862, col: 5, offset: 27482},
 																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 868, col: 5, offset: 27628},
+																		pos:   position{line: 869, col: 5, offset: 27639},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32036,28 +32050,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32066,9 +32080,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -32083,44 +32097,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27234},
+													pos:   position{line: 854, col: 5, offset: 27245},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 853, col: 9, offset: 27238},
+														pos: position{line: 854, col: 9, offset: 27249},
 														expr: &choiceExpr{
-															pos: position{line: 860, col: 5, offset: 27440},
+															pos: position{line: 861, col: 5, offset: 27451},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 860, col: 5, offset: 27440},
+																	pos: position{line: 861, col: 5, offset: 27451},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27440},
+																			pos:   position{line: 861, col: 5, offset: 27451},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23870},
+																				pos: position{line: 748, col: 5, offset: 23881},
 																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23870},
+																					pos: position{line: 748, col: 5, offset: 23881},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23870},
+																							pos:   position{line: 748, col: 5, offset: 23881},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23881},
+																								pos: position{line: 748, col: 16, offset: 23892},
 																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23881},
+																									pos: position{line: 748, col: 16, offset: 23892},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23881},
+																											pos:        position{line: 748, col: 16, offset: 23892},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23888},
+																											pos: position{line: 748, col: 23, offset: 23899},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23888},
+																												pos:        position{line: 748, col: 23, offset: 23899},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32131,12 +32145,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23972},
+																							pos: position{line: 750, col: 8, offset: 23983},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32145,28 +32159,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32175,9 +32189,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -32187,15 +32201,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 861, col: 5, offset: 27471},
+																			pos: position{line: 862, col: 5, offset: 27482},
 																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -32206,36 +32220,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 960, col: 5, offset: 29920},
+										pos: position{line: 961, col: 5, offset: 29931},
 										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 960, col: 5, offset: 29920},
+											pos: position{line: 961, col: 5, offset: 29931},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 960, col: 5, offset: 29920},
+													pos:   position{line: 961, col: 5, offset: 29931},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24358},
+														pos: position{line: 761, col: 26, offset: 24369},
 														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24358},
+															pos: position{line: 761, col: 26, offset: 24369},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24358},
+																	pos:        position{line: 761, col: 26, offset: 24369},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24364},
+																	pos:   position{line: 761, col: 32, offset: 24375},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24494},
+																		pos: position{line: 765, col: 13, offset: 24505},
 																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24495},
+																			pos: position{line: 765, col: 14, offset: 24506},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24495},
+																				pos:        position{line: 765, col: 14, offset: 24506},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32245,12 +32259,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24384},
+																	pos: position{line: 761, col: 52, offset: 24395},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32259,28 +32273,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32289,9 +32303,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -32301,34 +32315,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 961, col: 5, offset: 29966},
+													pos:   position{line: 962, col: 5, offset: 29977},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 974, col: 5, offset: 30439},
+														pos: position{line: 975, col: 5, offset: 30450},
 														expr: &actionExpr{
-															pos: position{line: 974, col: 6, offset: 30440},
+															pos: position{line: 975, col: 6, offset: 30451},
 															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 974, col: 6, offset: 30440},
+																pos: position{line: 975, col: 6, offset: 30451},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 974, col: 6, offset: 30440},
+																		pos: position{line: 975, col: 6, offset: 30451},
 																		expr: &seqExpr{
-																			pos: position{line: 971, col: 34, offset: 30387},
+																			pos: position{line: 972, col: 34, offset: 30398},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 971, col: 34, offset: 30387},
+																					pos:        position{line: 972, col: 34, offset: 30398},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 971, col: 40, offset: 30393},
+																					pos: position{line: 972, col: 40, offset: 30404},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32337,28 +32351,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32367,9 +32381,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -32378,30 +32392,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 975, col: 5, offset: 30475},
+																		pos:   position{line: 976, col: 5, offset: 30486},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32411,28 +32425,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32441,9 +32455,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -32458,23 +32472,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 962, col: 5, offset: 30005},
+													pos: position{line: 963, col: 5, offset: 30016},
 													expr: &seqExpr{
-														pos: position{line: 971, col: 34, offset: 30387},
+														pos: position{line: 972, col: 34, offset: 30398},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 971, col: 34, offset: 30387},
+																pos:        position{line: 972, col: 34, offset: 30398},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 971, col: 40, offset: 30393},
+																pos: position{line: 972, col: 40, offset: 30404},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32483,28 +32497,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32513,9 +32527,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -32527,39 +32541,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 876, col: 5, offset: 27781},
+										pos: position{line: 877, col: 5, offset: 27792},
 										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 876, col: 5, offset: 27781},
+											pos: position{line: 877, col: 5, offset: 27792},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 876, col: 5, offset: 27781},
+													pos:   position{line: 877, col: 5, offset: 27792},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24117},
+														pos: position{line: 755, col: 5, offset: 24128},
 														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24117},
+															pos: position{line: 755, col: 5, offset: 24128},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24117},
+																	pos:   position{line: 755, col: 5, offset: 24128},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24128},
+																		pos: position{line: 755, col: 16, offset: 24139},
 																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24128},
+																			pos: position{line: 755, col: 16, offset: 24139},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24128},
+																					pos:        position{line: 755, col: 16, offset: 24139},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24134},
+																					pos: position{line: 755, col: 22, offset: 24145},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24134},
+																						pos:        position{line: 755, col: 22, offset: 24145},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32570,12 +32584,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24218},
+																	pos: position{line: 757, col: 8, offset: 24229},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32584,28 +32598,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32614,9 +32628,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -32626,56 +32640,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 877, col: 5, offset: 27819},
+													pos: position{line: 878, col: 5, offset: 27830},
 													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 880, col: 5, offset: 27911},
+													pos:   position{line: 881, col: 5, offset: 27922},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 895, col: 5, offset: 28301},
+														pos: position{line: 896, col: 5, offset: 28312},
 														expr: &actionExpr{
-															pos: position{line: 895, col: 6, offset: 28302},
+															pos: position{line: 896, col: 6, offset: 28313},
 															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 895, col: 6, offset: 28302},
+																pos: position{line: 896, col: 6, offset: 28313},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 895, col: 6, offset: 28302},
+																		pos: position{line: 896, col: 6, offset: 28313},
 																		expr: &choiceExpr{
-																			pos: position{line: 888, col: 5, offset: 28145},
+																			pos: position{line: 889, col: 5, offset: 28156},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 888, col: 5, offset: 28145},
+																					pos: position{line: 889, col: 5, offset: 28156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 888, col: 5, offset: 28145},
+																							pos:   position{line: 889, col: 5, offset: 28156},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24117},
+																								pos: position{line: 755, col: 5, offset: 24128},
 																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24117},
+																									pos: position{line: 755, col: 5, offset: 24128},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24117},
+																											pos:   position{line: 755, col: 5, offset: 24128},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24128},
+																												pos: position{line: 755, col: 16, offset: 24139},
 																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24128},
+																													pos: position{line: 755, col: 16, offset: 24139},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24128},
+																															pos:        position{line: 755, col: 16, offset: 24139},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24134},
+																															pos: position{line: 755, col: 22, offset: 24145},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24134},
+																																pos:        position{line: 755, col: 22, offset: 24145},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32686,12 +32700,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24218},
+																											pos: position{line: 757, col: 8, offset: 24229},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32700,28 +32714,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32730,9 +32744,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -32742,45 +32756,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 889, col: 5, offset: 28175},
+																							pos: position{line: 890, col: 5, offset: 28186},
 																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 896, col: 5, offset: 28331},
+																		pos:   position{line: 897, col: 5, offset: 28342},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32790,28 +32804,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32820,9 +32834,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -32837,44 +32851,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 27944},
+													pos:   position{line: 882, col: 5, offset: 27955},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 881, col: 9, offset: 27948},
+														pos: position{line: 882, col: 9, offset: 27959},
 														expr: &choiceExpr{
-															pos: position{line: 888, col: 5, offset: 28145},
+															pos: position{line: 889, col: 5, offset: 28156},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 888, col: 5, offset: 28145},
+																	pos: position{line: 889, col: 5, offset: 28156},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28145},
+																			pos:   position{line: 889, col: 5, offset: 28156},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24117},
+																				pos: position{line: 755, col: 5, offset: 24128},
 																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24117},
+																					pos: position{line: 755, col: 5, offset: 24128},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24117},
+																							pos:   position{line: 755, col: 5, offset: 24128},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24128},
+																								pos: position{line: 755, col: 16, offset: 24139},
 																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24128},
+																									pos: position{line: 755, col: 16, offset: 24139},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24128},
+																											pos:        position{line: 755, col: 16, offset: 24139},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24134},
+																											pos: position{line: 755, col: 22, offset: 24145},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24134},
+																												pos:        position{line: 755, col: 22, offset: 24145},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32885,12 +32899,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24218},
+																							pos: position{line: 757, col: 8, offset: 24229},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32899,28 +32913,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32929,9 +32943,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -32941,15 +32955,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 889, col: 5, offset: 28175},
+																			pos: position{line: 890, col: 5, offset: 28186},
 																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -32960,39 +32974,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 904, col: 5, offset: 28486},
+										pos: position{line: 905, col: 5, offset: 28497},
 										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 904, col: 5, offset: 28486},
+											pos: position{line: 905, col: 5, offset: 28497},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 904, col: 5, offset: 28486},
+													pos:   position{line: 905, col: 5, offset: 28497},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24654},
+														pos: position{line: 770, col: 5, offset: 24665},
 														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24654},
+															pos: position{line: 770, col: 5, offset: 24665},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24654},
+																	pos:   position{line: 770, col: 5, offset: 24665},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24665},
+																		pos: position{line: 770, col: 16, offset: 24676},
 																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24665},
+																			pos: position{line: 770, col: 16, offset: 24676},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24665},
+																					pos:        position{line: 770, col: 16, offset: 24676},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24672},
+																					pos: position{line: 770, col: 23, offset: 24683},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24672},
+																						pos:        position{line: 770, col: 23, offset: 24683},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33003,12 +33017,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24756},
+																	pos: position{line: 772, col: 8, offset: 24767},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33017,28 +33031,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33047,9 +33061,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -33059,56 +33073,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 905, col: 5, offset: 28525},
+													pos: position{line: 906, col: 5, offset: 28536},
 													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 908, col: 5, offset: 28617},
+													pos:   position{line: 909, col: 5, offset: 28628},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 923, col: 5, offset: 29015},
+														pos: position{line: 924, col: 5, offset: 29026},
 														expr: &actionExpr{
-															pos: position{line: 923, col: 6, offset: 29016},
+															pos: position{line: 924, col: 6, offset: 29027},
 															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 923, col: 6, offset: 29016},
+																pos: position{line: 924, col: 6, offset: 29027},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 923, col: 6, offset: 29016},
+																		pos: position{line: 924, col: 6, offset: 29027},
 																		expr: &choiceExpr{
-																			pos: position{line: 916, col: 5, offset: 28857},
+																			pos: position{line: 917, col: 5, offset: 28868},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 916, col: 5, offset: 28857},
+																					pos: position{line: 917, col: 5, offset: 28868},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 916, col: 5, offset: 28857},
+																							pos:   position{line: 917, col: 5, offset: 28868},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24654},
+																								pos: position{line: 770, col: 5, offset: 24665},
 																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24654},
+																									pos: position{line: 770, col: 5, offset: 24665},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24654},
+																											pos:   position{line: 770, col: 5, offset: 24665},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24665},
+																												pos: position{line: 770, col: 16, offset: 24676},
 																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24665},
+																													pos: position{line: 770, col: 16, offset: 24676},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24665},
+																															pos:        position{line: 770, col: 16, offset: 24676},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24672},
+																															pos: position{line: 770, col: 23, offset: 24683},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24672},
+																																pos:        position{line: 770, col: 23, offset: 24683},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33119,12 +33133,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24756},
+																											pos: position{line: 772, col: 8, offset: 24767},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33133,28 +33147,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33163,9 +33177,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -33175,45 +33189,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 917, col: 5, offset: 28888},
+																							pos: position{line: 918, col: 5, offset: 28899},
 																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 924, col: 5, offset: 29046},
+																		pos:   position{line: 925, col: 5, offset: 29057},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33223,28 +33237,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33253,9 +33267,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -33270,44 +33284,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28651},
+													pos:   position{line: 910, col: 5, offset: 28662},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 909, col: 9, offset: 28655},
+														pos: position{line: 910, col: 9, offset: 28666},
 														expr: &choiceExpr{
-															pos: position{line: 916, col: 5, offset: 28857},
+															pos: position{line: 917, col: 5, offset: 28868},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 916, col: 5, offset: 28857},
+																	pos: position{line: 917, col: 5, offset: 28868},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28857},
+																			pos:   position{line: 917, col: 5, offset: 28868},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24654},
+																				pos: position{line: 770, col: 5, offset: 24665},
 																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24654},
+																					pos: position{line: 770, col: 5, offset: 24665},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24654},
+																							pos:   position{line: 770, col: 5, offset: 24665},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24665},
+																								pos: position{line: 770, col: 16, offset: 24676},
 																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24665},
+																									pos: position{line: 770, col: 16, offset: 24676},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24665},
+																											pos:        position{line: 770, col: 16, offset: 24676},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24672},
+																											pos: position{line: 770, col: 23, offset: 24683},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24672},
+																												pos:        position{line: 770, col: 23, offset: 24683},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33318,12 +33332,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24756},
+																							pos: position{line: 772, col: 8, offset: 24767},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33332,28 +33346,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33362,9 +33376,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -33374,15 +33388,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 917, col: 5, offset: 28888},
+																			pos: position{line: 918, col: 5, offset: 28899},
 																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -33393,39 +33407,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 932, col: 5, offset: 29201},
+										pos: position{line: 933, col: 5, offset: 29212},
 										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 932, col: 5, offset: 29201},
+											pos: position{line: 933, col: 5, offset: 29212},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 932, col: 5, offset: 29201},
+													pos:   position{line: 933, col: 5, offset: 29212},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25130},
+														pos: position{line: 784, col: 5, offset: 25141},
 														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25130},
+															pos: position{line: 784, col: 5, offset: 25141},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25130},
+																	pos:   position{line: 784, col: 5, offset: 25141},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25141},
+																		pos: position{line: 784, col: 16, offset: 25152},
 																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25141},
+																			pos: position{line: 784, col: 16, offset: 25152},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25141},
+																					pos:        position{line: 784, col: 16, offset: 25152},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25148},
+																					pos: position{line: 784, col: 23, offset: 25159},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25148},
+																						pos:        position{line: 784, col: 23, offset: 25159},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33436,12 +33450,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25232},
+																	pos: position{line: 786, col: 8, offset: 25243},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33450,28 +33464,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33480,9 +33494,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -33492,56 +33506,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 933, col: 5, offset: 29240},
+													pos: position{line: 934, col: 5, offset: 29251},
 													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 936, col: 5, offset: 29332},
+													pos:   position{line: 937, col: 5, offset: 29343},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 951, col: 5, offset: 29730},
+														pos: position{line: 952, col: 5, offset: 29741},
 														expr: &actionExpr{
-															pos: position{line: 951, col: 6, offset: 29731},
+															pos: position{line: 952, col: 6, offset: 29742},
 															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 951, col: 6, offset: 29731},
+																pos: position{line: 952, col: 6, offset: 29742},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 951, col: 6, offset: 29731},
+																		pos: position{line: 952, col: 6, offset: 29742},
 																		expr: &choiceExpr{
-																			pos: position{line: 944, col: 5, offset: 29572},
+																			pos: position{line: 945, col: 5, offset: 29583},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 944, col: 5, offset: 29572},
+																					pos: position{line: 945, col: 5, offset: 29583},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 944, col: 5, offset: 29572},
+																							pos:   position{line: 945, col: 5, offset: 29583},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25130},
+																								pos: position{line: 784, col: 5, offset: 25141},
 																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25130},
+																									pos: position{line: 784, col: 5, offset: 25141},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25130},
+																											pos:   position{line: 784, col: 5, offset: 25141},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25141},
+																												pos: position{line: 784, col: 16, offset: 25152},
 																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25141},
+																													pos: position{line: 784, col: 16, offset: 25152},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25141},
+																															pos:        position{line: 784, col: 16, offset: 25152},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25148},
+																															pos: position{line: 784, col: 23, offset: 25159},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25148},
+																																pos:        position{line: 784, col: 23, offset: 25159},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33552,12 +33566,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25232},
+																											pos: position{line: 786, col: 8, offset: 25243},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33566,28 +33580,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33596,9 +33610,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -33608,45 +33622,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 945, col: 5, offset: 29603},
+																							pos: position{line: 946, col: 5, offset: 29614},
 																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 952, col: 5, offset: 29761},
+																		pos:   position{line: 953, col: 5, offset: 29772},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33656,28 +33670,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33686,9 +33700,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -33703,44 +33717,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29366},
+													pos:   position{line: 938, col: 5, offset: 29377},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 937, col: 9, offset: 29370},
+														pos: position{line: 938, col: 9, offset: 29381},
 														expr: &choiceExpr{
-															pos: position{line: 944, col: 5, offset: 29572},
+															pos: position{line: 945, col: 5, offset: 29583},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 944, col: 5, offset: 29572},
+																	pos: position{line: 945, col: 5, offset: 29583},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29572},
+																			pos:   position{line: 945, col: 5, offset: 29583},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25130},
+																				pos: position{line: 784, col: 5, offset: 25141},
 																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25130},
+																					pos: position{line: 784, col: 5, offset: 25141},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25130},
+																							pos:   position{line: 784, col: 5, offset: 25141},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25141},
+																								pos: position{line: 784, col: 16, offset: 25152},
 																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25141},
+																									pos: position{line: 784, col: 16, offset: 25152},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25141},
+																											pos:        position{line: 784, col: 16, offset: 25152},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25148},
+																											pos: position{line: 784, col: 23, offset: 25159},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25148},
+																												pos:        position{line: 784, col: 23, offset: 25159},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33751,12 +33765,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25232},
+																							pos: position{line: 786, col: 8, offset: 25243},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33765,28 +33779,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33795,9 +33809,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -33807,15 +33821,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 945, col: 5, offset: 29603},
+																			pos: position{line: 946, col: 5, offset: 29614},
 																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -33826,41 +33840,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 983, col: 5, offset: 30644},
+										pos: position{line: 984, col: 5, offset: 30655},
 										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 983, col: 5, offset: 30644},
+											pos: position{line: 984, col: 5, offset: 30655},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 983, col: 5, offset: 30644},
+													pos:   position{line: 984, col: 5, offset: 30655},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 990, col: 5, offset: 30903},
+														pos: position{line: 991, col: 5, offset: 30914},
 														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 990, col: 5, offset: 30903},
+															pos: position{line: 991, col: 5, offset: 30914},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 990, col: 5, offset: 30903},
+																	pos: position{line: 991, col: 5, offset: 30914},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21508},
+																		pos: position{line: 678, col: 14, offset: 21519},
 																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21508},
+																			pos: position{line: 678, col: 14, offset: 21519},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91076},
+																					pos: position{line: 2884, col: 11, offset: 91087},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91078,
+																						line: 2884, col: 13, offset: 91089,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21515},
+																					pos: position{line: 678, col: 21, offset: 21526},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33869,28 +33883,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33899,9 +33913,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -33911,21 +33925,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 991, col: 5, offset: 30918},
+																	pos:        position{line: 992, col: 5, offset: 30929},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 992, col: 5, offset: 30928},
+																	pos:   position{line: 993, col: 5, offset: 30939},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89335},
+																		pos: position{line: 2817, col: 14, offset: 89346},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89335},
+																			pos: position{line: 2817, col: 14, offset: 89346},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89335},
+																				pos:        position{line: 2817, col: 14, offset: 89346},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33935,28 +33949,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33965,9 +33979,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -33977,40 +33991,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30681},
+													pos:   position{line: 985, col: 5, offset: 30692},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 984, col: 16, offset: 30692},
+														pos: position{line: 985, col: 16, offset: 30703},
 														expr: &choiceExpr{
-															pos: position{line: 984, col: 17, offset: 30693},
+															pos: position{line: 985, col: 17, offset: 30704},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 990, col: 5, offset: 30903},
+																	pos: position{line: 991, col: 5, offset: 30914},
 																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 990, col: 5, offset: 30903},
+																		pos: position{line: 991, col: 5, offset: 30914},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 990, col: 5, offset: 30903},
+																				pos: position{line: 991, col: 5, offset: 30914},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21508},
+																					pos: position{line: 678, col: 14, offset: 21519},
 																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21508},
+																						pos: position{line: 678, col: 14, offset: 21519},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2883, col: 11, offset: 91076},
+																								pos: position{line: 2884, col: 11, offset: 91087},
 																								expr: &anyMatcher{
-																									line: 2883, col: 13, offset: 91078,
+																									line: 2884, col: 13, offset: 91089,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21515},
+																								pos: position{line: 678, col: 21, offset: 21526},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34019,28 +34033,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34049,9 +34063,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -34061,21 +34075,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 991, col: 5, offset: 30918},
+																				pos:        position{line: 992, col: 5, offset: 30929},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 992, col: 5, offset: 30928},
+																				pos:   position{line: 993, col: 5, offset: 30939},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2816, col: 14, offset: 89335},
+																					pos: position{line: 2817, col: 14, offset: 89346},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2816, col: 14, offset: 89335},
+																						pos: position{line: 2817, col: 14, offset: 89346},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2816, col: 14, offset: 89335},
+																							pos:        position{line: 2817, col: 14, offset: 89346},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34085,28 +34099,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91140},
+																				pos: position{line: 2889, col: 8, offset: 91151},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90913},
+																						pos: position{line: 2876, col: 12, offset: 90924},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90914},
+																							pos: position{line: 2876, col: 13, offset: 90925},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90914},
+																									pos:        position{line: 2876, col: 13, offset: 90925},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90921},
+																									pos:        position{line: 2876, col: 20, offset: 90932},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90930},
+																									pos:        position{line: 2876, col: 29, offset: 90941},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34115,9 +34129,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
@@ -34126,21 +34140,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1798, col: 5, offset: 58111},
+																	pos: position{line: 1799, col: 5, offset: 58122},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1798, col: 5, offset: 58111},
+																		pos: position{line: 1799, col: 5, offset: 58122},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1798, col: 5, offset: 58111},
+																				pos:   position{line: 1799, col: 5, offset: 58122},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2816, col: 14, offset: 89335},
+																					pos: position{line: 2817, col: 14, offset: 89346},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2816, col: 14, offset: 89335},
+																						pos: position{line: 2817, col: 14, offset: 89346},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2816, col: 14, offset: 89335},
+																							pos:        position{line: 2817, col: 14, offset: 89346},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34150,32 +34164,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1799, col: 5, offset: 58135},
+																				pos: position{line: 1800, col: 5, offset: 58146},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91140},
+																				pos: position{line: 2889, col: 8, offset: 91151},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90913},
+																						pos: position{line: 2876, col: 12, offset: 90924},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90914},
+																							pos: position{line: 2876, col: 13, offset: 90925},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90914},
+																									pos:        position{line: 2876, col: 13, offset: 90925},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90921},
+																									pos:        position{line: 2876, col: 20, offset: 90932},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90930},
+																									pos:        position{line: 2876, col: 29, offset: 90941},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34184,9 +34198,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
@@ -34202,28 +34216,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1005, col: 5, offset: 31193},
+										pos: position{line: 1006, col: 5, offset: 31204},
 										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 1005, col: 5, offset: 31193},
+											pos: position{line: 1006, col: 5, offset: 31204},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1005, col: 5, offset: 31193},
+													pos:   position{line: 1006, col: 5, offset: 31204},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24899},
+														pos: position{line: 777, col: 5, offset: 24910},
 														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24899},
+															pos: position{line: 777, col: 5, offset: 24910},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24899},
+																	pos:   position{line: 777, col: 5, offset: 24910},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24910},
+																		pos: position{line: 777, col: 16, offset: 24921},
 																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24910},
+																			pos:        position{line: 777, col: 16, offset: 24921},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34231,12 +34245,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24987},
+																	pos: position{line: 779, col: 8, offset: 24998},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34245,28 +34259,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34275,9 +34289,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -34287,35 +34301,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1006, col: 5, offset: 31229},
+													pos:   position{line: 1007, col: 5, offset: 31240},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1016, col: 5, offset: 31497},
+														pos: position{line: 1017, col: 5, offset: 31508},
 														expr: &actionExpr{
-															pos: position{line: 1016, col: 6, offset: 31498},
+															pos: position{line: 1017, col: 6, offset: 31509},
 															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1016, col: 6, offset: 31498},
+																pos: position{line: 1017, col: 6, offset: 31509},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1016, col: 6, offset: 31498},
+																		pos: position{line: 1017, col: 6, offset: 31509},
 																		expr: &choiceExpr{
-																			pos: position{line: 1013, col: 26, offset: 31446},
+																			pos: position{line: 1014, col: 26, offset: 31457},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24899},
+																					pos: position{line: 777, col: 5, offset: 24910},
 																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24899},
+																						pos: position{line: 777, col: 5, offset: 24910},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24899},
+																								pos:   position{line: 777, col: 5, offset: 24910},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24910},
+																									pos: position{line: 777, col: 16, offset: 24921},
 																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24910},
+																										pos:        position{line: 777, col: 16, offset: 24921},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34323,12 +34337,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24987},
+																								pos: position{line: 779, col: 8, offset: 24998},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34337,28 +34351,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34367,9 +34381,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -34378,39 +34392,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1017, col: 5, offset: 31525},
+																		pos:   position{line: 1018, col: 5, offset: 31536},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34420,28 +34434,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34450,9 +34464,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -34467,27 +34481,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1007, col: 5, offset: 31260},
+													pos:   position{line: 1008, col: 5, offset: 31271},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1007, col: 9, offset: 31264},
+														pos: position{line: 1008, col: 9, offset: 31275},
 														expr: &choiceExpr{
-															pos: position{line: 1013, col: 26, offset: 31446},
+															pos: position{line: 1014, col: 26, offset: 31457},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24899},
+																	pos: position{line: 777, col: 5, offset: 24910},
 																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24899},
+																		pos: position{line: 777, col: 5, offset: 24910},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24899},
+																				pos:   position{line: 777, col: 5, offset: 24910},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24910},
+																					pos: position{line: 777, col: 16, offset: 24921},
 																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24910},
+																						pos:        position{line: 777, col: 16, offset: 24921},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34495,12 +34509,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24987},
+																				pos: position{line: 779, col: 8, offset: 24998},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90742},
+																					pos: position{line: 2867, col: 10, offset: 90753},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90742},
+																						pos:        position{line: 2867, col: 10, offset: 90753},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34509,28 +34523,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91140},
+																				pos: position{line: 2889, col: 8, offset: 91151},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90913},
+																						pos: position{line: 2876, col: 12, offset: 90924},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90914},
+																							pos: position{line: 2876, col: 13, offset: 90925},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90914},
+																									pos:        position{line: 2876, col: 13, offset: 90925},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90921},
+																									pos:        position{line: 2876, col: 20, offset: 90932},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90930},
+																									pos:        position{line: 2876, col: 29, offset: 90941},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34539,9 +34553,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
@@ -34550,9 +34564,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -34563,39 +34577,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1025, col: 5, offset: 31688},
+										pos: position{line: 1026, col: 5, offset: 31699},
 										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1025, col: 5, offset: 31688},
+											pos: position{line: 1026, col: 5, offset: 31699},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31688},
+													pos:   position{line: 1026, col: 5, offset: 31699},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25382},
+														pos: position{line: 791, col: 5, offset: 25393},
 														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25382},
+															pos: position{line: 791, col: 5, offset: 25393},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25382},
+																	pos:   position{line: 791, col: 5, offset: 25393},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25393},
+																		pos: position{line: 791, col: 16, offset: 25404},
 																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25393},
+																			pos: position{line: 791, col: 16, offset: 25404},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25393},
+																					pos:        position{line: 791, col: 16, offset: 25404},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25400},
+																					pos: position{line: 791, col: 23, offset: 25411},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25400},
+																						pos:        position{line: 791, col: 23, offset: 25411},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34606,12 +34620,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25484},
+																	pos: position{line: 793, col: 8, offset: 25495},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34620,28 +34634,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34650,9 +34664,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -34662,56 +34676,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1026, col: 5, offset: 31731},
+													pos: position{line: 1027, col: 5, offset: 31742},
 													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1029, col: 5, offset: 31823},
+													pos:   position{line: 1030, col: 5, offset: 31834},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1044, col: 5, offset: 32253},
+														pos: position{line: 1045, col: 5, offset: 32264},
 														expr: &actionExpr{
-															pos: position{line: 1044, col: 6, offset: 32254},
+															pos: position{line: 1045, col: 6, offset: 32265},
 															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1044, col: 6, offset: 32254},
+																pos: position{line: 1045, col: 6, offset: 32265},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1044, col: 6, offset: 32254},
+																		pos: position{line: 1045, col: 6, offset: 32265},
 																		expr: &choiceExpr{
-																			pos: position{line: 1037, col: 5, offset: 32087},
+																			pos: position{line: 1038, col: 5, offset: 32098},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1037, col: 5, offset: 32087},
+																					pos: position{line: 1038, col: 5, offset: 32098},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1037, col: 5, offset: 32087},
+																							pos:   position{line: 1038, col: 5, offset: 32098},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25382},
+																								pos: position{line: 791, col: 5, offset: 25393},
 																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25382},
+																									pos: position{line: 791, col: 5, offset: 25393},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25382},
+																											pos:   position{line: 791, col: 5, offset: 25393},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25393},
+																												pos: position{line: 791, col: 16, offset: 25404},
 																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25393},
+																													pos: position{line: 791, col: 16, offset: 25404},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25393},
+																															pos:        position{line: 791, col: 16, offset: 25404},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25400},
+																															pos: position{line: 791, col: 23, offset: 25411},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25400},
+																																pos:        position{line: 791, col: 23, offset: 25411},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34722,12 +34736,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25484},
+																											pos: position{line: 793, col: 8, offset: 25495},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34736,28 +34750,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34766,9 +34780,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -34778,45 +34792,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1038, col: 5, offset: 32122},
+																							pos: position{line: 1039, col: 5, offset: 32133},
 																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1045, col: 5, offset: 32288},
+																		pos:   position{line: 1046, col: 5, offset: 32299},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34826,28 +34840,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34856,9 +34870,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -34873,44 +34887,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 31861},
+													pos:   position{line: 1031, col: 5, offset: 31872},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1030, col: 9, offset: 31865},
+														pos: position{line: 1031, col: 9, offset: 31876},
 														expr: &choiceExpr{
-															pos: position{line: 1037, col: 5, offset: 32087},
+															pos: position{line: 1038, col: 5, offset: 32098},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1037, col: 5, offset: 32087},
+																	pos: position{line: 1038, col: 5, offset: 32098},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32087},
+																			pos:   position{line: 1038, col: 5, offset: 32098},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25382},
+																				pos: position{line: 791, col: 5, offset: 25393},
 																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25382},
+																					pos: position{line: 791, col: 5, offset: 25393},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25382},
+																							pos:   position{line: 791, col: 5, offset: 25393},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25393},
+																								pos: position{line: 791, col: 16, offset: 25404},
 																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25393},
+																									pos: position{line: 791, col: 16, offset: 25404},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25393},
+																											pos:        position{line: 791, col: 16, offset: 25404},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25400},
+																											pos: position{line: 791, col: 23, offset: 25411},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25400},
+																												pos:        position{line: 791, col: 23, offset: 25411},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34921,12 +34935,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25484},
+																							pos: position{line: 793, col: 8, offset: 25495},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34935,28 +34949,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34965,9 +34979,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -34977,15 +34991,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1038, col: 5, offset: 32122},
+																			pos: position{line: 1039, col: 5, offset: 32133},
 																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -34996,39 +35010,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1053, col: 5, offset: 32439},
+										pos: position{line: 1054, col: 5, offset: 32450},
 										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1053, col: 5, offset: 32439},
+											pos: position{line: 1054, col: 5, offset: 32450},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1053, col: 5, offset: 32439},
+													pos:   position{line: 1054, col: 5, offset: 32450},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25632},
+														pos: position{line: 798, col: 5, offset: 25643},
 														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25632},
+															pos: position{line: 798, col: 5, offset: 25643},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25632},
+																	pos:   position{line: 798, col: 5, offset: 25643},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25643},
+																		pos: position{line: 798, col: 16, offset: 25654},
 																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25643},
+																			pos: position{line: 798, col: 16, offset: 25654},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25643},
+																					pos:        position{line: 798, col: 16, offset: 25654},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25650},
+																					pos: position{line: 798, col: 23, offset: 25661},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25650},
+																						pos:        position{line: 798, col: 23, offset: 25661},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35039,12 +35053,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25734},
+																	pos: position{line: 800, col: 8, offset: 25745},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35053,28 +35067,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35083,9 +35097,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -35095,56 +35109,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1054, col: 5, offset: 32476},
+													pos: position{line: 1055, col: 5, offset: 32487},
 													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1057, col: 5, offset: 32568},
+													pos:   position{line: 1058, col: 5, offset: 32579},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1072, col: 4, offset: 32949},
+														pos: position{line: 1073, col: 4, offset: 32960},
 														expr: &actionExpr{
-															pos: position{line: 1072, col: 5, offset: 32950},
+															pos: position{line: 1073, col: 5, offset: 32961},
 															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1072, col: 5, offset: 32950},
+																pos: position{line: 1073, col: 5, offset: 32961},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1072, col: 5, offset: 32950},
+																		pos: position{line: 1073, col: 5, offset: 32961},
 																		expr: &choiceExpr{
-																			pos: position{line: 1065, col: 5, offset: 32796},
+																			pos: position{line: 1066, col: 5, offset: 32807},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1065, col: 5, offset: 32796},
+																					pos: position{line: 1066, col: 5, offset: 32807},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1065, col: 5, offset: 32796},
+																							pos:   position{line: 1066, col: 5, offset: 32807},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25632},
+																								pos: position{line: 798, col: 5, offset: 25643},
 																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25632},
+																									pos: position{line: 798, col: 5, offset: 25643},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25632},
+																											pos:   position{line: 798, col: 5, offset: 25643},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25643},
+																												pos: position{line: 798, col: 16, offset: 25654},
 																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25643},
+																													pos: position{line: 798, col: 16, offset: 25654},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25643},
+																															pos:        position{line: 798, col: 16, offset: 25654},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25650},
+																															pos: position{line: 798, col: 23, offset: 25661},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25650},
+																																pos:        position{line: 798, col: 23, offset: 25661},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35155,12 +35169,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25734},
+																											pos: position{line: 800, col: 8, offset: 25745},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35169,28 +35183,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35199,9 +35213,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -35211,45 +35225,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1066, col: 5, offset: 32825},
+																							pos: position{line: 1067, col: 5, offset: 32836},
 																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1073, col: 5, offset: 32978},
+																		pos:   position{line: 1074, col: 5, offset: 32989},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35259,28 +35273,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35289,9 +35303,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -35306,44 +35320,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32600},
+													pos:   position{line: 1059, col: 5, offset: 32611},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1058, col: 9, offset: 32604},
+														pos: position{line: 1059, col: 9, offset: 32615},
 														expr: &choiceExpr{
-															pos: position{line: 1065, col: 5, offset: 32796},
+															pos: position{line: 1066, col: 5, offset: 32807},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1065, col: 5, offset: 32796},
+																	pos: position{line: 1066, col: 5, offset: 32807},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32796},
+																			pos:   position{line: 1066, col: 5, offset: 32807},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25632},
+																				pos: position{line: 798, col: 5, offset: 25643},
 																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25632},
+																					pos: position{line: 798, col: 5, offset: 25643},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25632},
+																							pos:   position{line: 798, col: 5, offset: 25643},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25643},
+																								pos: position{line: 798, col: 16, offset: 25654},
 																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25643},
+																									pos: position{line: 798, col: 16, offset: 25654},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25643},
+																											pos:        position{line: 798, col: 16, offset: 25654},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25650},
+																											pos: position{line: 798, col: 23, offset: 25661},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25650},
+																												pos:        position{line: 798, col: 23, offset: 25661},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35354,12 +35368,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25734},
+																							pos: position{line: 800, col: 8, offset: 25745},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35368,28 +35382,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35398,9 +35412,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -35410,15 +35424,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1066, col: 5, offset: 32825},
+																			pos: position{line: 1067, col: 5, offset: 32836},
 																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -35429,39 +35443,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1081, col: 5, offset: 33133},
+										pos: position{line: 1082, col: 5, offset: 33144},
 										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1081, col: 5, offset: 33133},
+											pos: position{line: 1082, col: 5, offset: 33144},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1081, col: 5, offset: 33133},
+													pos:   position{line: 1082, col: 5, offset: 33144},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25878},
+														pos: position{line: 805, col: 5, offset: 25889},
 														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25878},
+															pos: position{line: 805, col: 5, offset: 25889},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25878},
+																	pos:   position{line: 805, col: 5, offset: 25889},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25889},
+																		pos: position{line: 805, col: 16, offset: 25900},
 																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25889},
+																			pos: position{line: 805, col: 16, offset: 25900},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25889},
+																					pos:        position{line: 805, col: 16, offset: 25900},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25896},
+																					pos: position{line: 805, col: 23, offset: 25907},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25896},
+																						pos:        position{line: 805, col: 23, offset: 25907},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35472,12 +35486,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25980},
+																	pos: position{line: 807, col: 8, offset: 25991},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35486,28 +35500,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35516,9 +35530,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -35528,56 +35542,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1082, col: 5, offset: 33172},
+													pos: position{line: 1083, col: 5, offset: 33183},
 													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1085, col: 5, offset: 33264},
+													pos:   position{line: 1086, col: 5, offset: 33275},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1100, col: 4, offset: 33661},
+														pos: position{line: 1101, col: 4, offset: 33672},
 														expr: &actionExpr{
-															pos: position{line: 1100, col: 5, offset: 33662},
+															pos: position{line: 1101, col: 5, offset: 33673},
 															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1100, col: 5, offset: 33662},
+																pos: position{line: 1101, col: 5, offset: 33673},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1100, col: 5, offset: 33662},
+																		pos: position{line: 1101, col: 5, offset: 33673},
 																		expr: &choiceExpr{
-																			pos: position{line: 1093, col: 5, offset: 33504},
+																			pos: position{line: 1094, col: 5, offset: 33515},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1093, col: 5, offset: 33504},
+																					pos: position{line: 1094, col: 5, offset: 33515},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1093, col: 5, offset: 33504},
+																							pos:   position{line: 1094, col: 5, offset: 33515},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25878},
+																								pos: position{line: 805, col: 5, offset: 25889},
 																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25878},
+																									pos: position{line: 805, col: 5, offset: 25889},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25878},
+																											pos:   position{line: 805, col: 5, offset: 25889},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25889},
+																												pos: position{line: 805, col: 16, offset: 25900},
 																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25889},
+																													pos: position{line: 805, col: 16, offset: 25900},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25889},
+																															pos:        position{line: 805, col: 16, offset: 25900},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25896},
+																															pos: position{line: 805, col: 23, offset: 25907},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25896},
+																																pos:        position{line: 805, col: 23, offset: 25907},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35588,12 +35602,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25980},
+																											pos: position{line: 807, col: 8, offset: 25991},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90742},
+																												pos: position{line: 2867, col: 10, offset: 90753},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90742},
+																													pos:        position{line: 2867, col: 10, offset: 90753},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35602,28 +35616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91140},
+																											pos: position{line: 2889, col: 8, offset: 91151},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90913},
+																													pos: position{line: 2876, col: 12, offset: 90924},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90914},
+																														pos: position{line: 2876, col: 13, offset: 90925},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35632,9 +35646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91090},
+																													pos: position{line: 2886, col: 8, offset: 91101},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91091,
+																														line: 2886, col: 9, offset: 91102,
 																													},
 																												},
 																											},
@@ -35644,45 +35658,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1094, col: 5, offset: 33535},
+																							pos: position{line: 1095, col: 5, offset: 33546},
 																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1101, col: 5, offset: 33692},
+																		pos:   position{line: 1102, col: 5, offset: 33703},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26126},
+																			pos: position{line: 812, col: 5, offset: 26137},
 																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26126},
+																				pos: position{line: 812, col: 5, offset: 26137},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91076},
+																						pos: position{line: 2884, col: 11, offset: 91087},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91078,
+																							line: 2884, col: 13, offset: 91089,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26201},
+																						pos:   position{line: 813, col: 5, offset: 26212},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89268},
+																							pos: position{line: 2813, col: 13, offset: 89279},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89268},
+																								pos: position{line: 2813, col: 13, offset: 89279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89268},
+																									pos:        position{line: 2813, col: 13, offset: 89279},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35692,28 +35706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35722,9 +35736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -35739,44 +35753,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33298},
+													pos:   position{line: 1087, col: 5, offset: 33309},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1086, col: 9, offset: 33302},
+														pos: position{line: 1087, col: 9, offset: 33313},
 														expr: &choiceExpr{
-															pos: position{line: 1093, col: 5, offset: 33504},
+															pos: position{line: 1094, col: 5, offset: 33515},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1093, col: 5, offset: 33504},
+																	pos: position{line: 1094, col: 5, offset: 33515},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33504},
+																			pos:   position{line: 1094, col: 5, offset: 33515},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25878},
+																				pos: position{line: 805, col: 5, offset: 25889},
 																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25878},
+																					pos: position{line: 805, col: 5, offset: 25889},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25878},
+																							pos:   position{line: 805, col: 5, offset: 25889},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25889},
+																								pos: position{line: 805, col: 16, offset: 25900},
 																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25889},
+																									pos: position{line: 805, col: 16, offset: 25900},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25889},
+																											pos:        position{line: 805, col: 16, offset: 25900},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25896},
+																											pos: position{line: 805, col: 23, offset: 25907},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25896},
+																												pos:        position{line: 805, col: 23, offset: 25907},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35787,12 +35801,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25980},
+																							pos: position{line: 807, col: 8, offset: 25991},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35801,28 +35815,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35831,9 +35845,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -35843,15 +35857,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1094, col: 5, offset: 33535},
+																			pos: position{line: 1095, col: 5, offset: 33546},
 																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -35862,27 +35876,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2711, col: 18, offset: 86332},
+										pos: position{line: 2712, col: 18, offset: 86343},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2712, col: 9, offset: 86342},
+											pos: position{line: 2713, col: 9, offset: 86353},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2712, col: 9, offset: 86342},
+													pos: position{line: 2713, col: 9, offset: 86353},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2712, col: 9, offset: 86342},
+															pos:        position{line: 2713, col: 9, offset: 86353},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2712, col: 15, offset: 86348},
+															pos: position{line: 2713, col: 15, offset: 86359},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35891,28 +35905,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91140},
+															pos: position{line: 2889, col: 8, offset: 91151},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90913},
+																	pos: position{line: 2876, col: 12, offset: 90924},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90914},
+																		pos: position{line: 2876, col: 13, offset: 90925},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				pos:        position{line: 2876, col: 13, offset: 90925},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				pos:        position{line: 2876, col: 20, offset: 90932},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				pos:        position{line: 2876, col: 29, offset: 90941},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35921,9 +35935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -35931,43 +35945,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2713, col: 11, offset: 86381},
+													pos: position{line: 2714, col: 11, offset: 86392},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2713, col: 12, offset: 86382},
+															pos: position{line: 2714, col: 12, offset: 86393},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2713, col: 12, offset: 86382},
+																	pos:        position{line: 2714, col: 12, offset: 86393},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 20, offset: 86390},
+																	pos:        position{line: 2714, col: 20, offset: 86401},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 30, offset: 86400},
+																	pos:        position{line: 2714, col: 30, offset: 86411},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 38, offset: 86408},
+																	pos:        position{line: 2714, col: 38, offset: 86419},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 48, offset: 86418},
+																	pos:        position{line: 2714, col: 48, offset: 86429},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2713, col: 56, offset: 86426},
+																	pos:        position{line: 2714, col: 56, offset: 86437},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35975,12 +35989,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2713, col: 65, offset: 86435},
+															pos: position{line: 2714, col: 65, offset: 86446},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35989,28 +36003,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91140},
+															pos: position{line: 2889, col: 8, offset: 91151},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90913},
+																	pos: position{line: 2876, col: 12, offset: 90924},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90914},
+																		pos: position{line: 2876, col: 13, offset: 90925},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				pos:        position{line: 2876, col: 13, offset: 90925},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				pos:        position{line: 2876, col: 20, offset: 90932},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				pos:        position{line: 2876, col: 29, offset: 90941},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36019,38 +36033,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2713, col: 76, offset: 86446},
+															pos: position{line: 2714, col: 76, offset: 86457},
 															expr: &choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36059,9 +36073,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -36073,28 +36087,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1561, col: 11, offset: 50374},
+										pos:  position{line: 1562, col: 11, offset: 50385},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2602, col: 5, offset: 83268},
+										pos: position{line: 2603, col: 5, offset: 83279},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2602, col: 5, offset: 83268},
+											pos: position{line: 2603, col: 5, offset: 83279},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2608, col: 19, offset: 83425},
+													pos:        position{line: 2609, col: 19, offset: 83436},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2608, col: 26, offset: 83432},
+													pos: position{line: 2609, col: 26, offset: 83443},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36103,28 +36117,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36133,40 +36147,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2603, col: 5, offset: 83292},
+													pos:   position{line: 2604, col: 5, offset: 83303},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2603, col: 11, offset: 83298},
+														pos: position{line: 2604, col: 11, offset: 83309},
 														expr: &choiceExpr{
-															pos: position{line: 2603, col: 12, offset: 83299},
+															pos: position{line: 2604, col: 12, offset: 83310},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21508},
+																	pos: position{line: 678, col: 14, offset: 21519},
 																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21508},
+																		pos: position{line: 678, col: 14, offset: 21519},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2883, col: 11, offset: 91076},
+																				pos: position{line: 2884, col: 11, offset: 91087},
 																				expr: &anyMatcher{
-																					line: 2883, col: 13, offset: 91078,
+																					line: 2884, col: 13, offset: 91089,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21515},
+																				pos: position{line: 678, col: 21, offset: 21526},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90742},
+																					pos: position{line: 2867, col: 10, offset: 90753},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90742},
+																						pos:        position{line: 2867, col: 10, offset: 90753},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36175,28 +36189,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91140},
+																				pos: position{line: 2889, col: 8, offset: 91151},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90913},
+																						pos: position{line: 2876, col: 12, offset: 90924},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90914},
+																							pos: position{line: 2876, col: 13, offset: 90925},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90914},
+																									pos:        position{line: 2876, col: 13, offset: 90925},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90921},
+																									pos:        position{line: 2876, col: 20, offset: 90932},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90930},
+																									pos:        position{line: 2876, col: 29, offset: 90941},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36205,9 +36219,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
@@ -36216,32 +36230,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2615, col: 5, offset: 83544},
+																	pos: position{line: 2616, col: 5, offset: 83555},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2615, col: 5, offset: 83544},
+																		pos: position{line: 2616, col: 5, offset: 83555},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2615, col: 5, offset: 83544},
+																				pos: position{line: 2616, col: 5, offset: 83555},
 																				expr: &choiceExpr{
-																					pos: position{line: 2612, col: 22, offset: 83505},
+																					pos: position{line: 2613, col: 22, offset: 83516},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2608, col: 19, offset: 83425},
+																							pos: position{line: 2609, col: 19, offset: 83436},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2608, col: 19, offset: 83425},
+																									pos:        position{line: 2609, col: 19, offset: 83436},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2608, col: 26, offset: 83432},
+																									pos: position{line: 2609, col: 26, offset: 83443},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90742},
+																										pos: position{line: 2867, col: 10, offset: 90753},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90742},
+																											pos:        position{line: 2867, col: 10, offset: 90753},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36250,28 +36264,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36280,9 +36294,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
@@ -36290,59 +36304,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2616, col: 5, offset: 83567},
+																				pos:   position{line: 2617, col: 5, offset: 83578},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2617, col: 9, offset: 83585},
+																					pos: position{line: 2618, col: 9, offset: 83596},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2617, col: 10, offset: 83586},
+																							pos: position{line: 2618, col: 10, offset: 83597},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2617, col: 10, offset: 83586},
+																								pos:   position{line: 2618, col: 10, offset: 83597},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2617, col: 17, offset: 83593},
+																									pos: position{line: 2618, col: 17, offset: 83604},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2625, col: 21, offset: 83789},
+																											pos: position{line: 2626, col: 21, offset: 83800},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2625, col: 21, offset: 83789},
+																												pos: position{line: 2626, col: 21, offset: 83800},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2625, col: 21, offset: 83789},
+																														pos:   position{line: 2626, col: 21, offset: 83800},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2625, col: 27, offset: 83795},
+																															pos: position{line: 2626, col: 27, offset: 83806},
 																															expr: &actionExpr{
-																																pos: position{line: 2630, col: 5, offset: 83870},
+																																pos: position{line: 2631, col: 5, offset: 83881},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2630, col: 5, offset: 83870},
+																																	pos: position{line: 2631, col: 5, offset: 83881},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2630, col: 5, offset: 83870},
+																																			pos:        position{line: 2631, col: 5, offset: 83881},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2630, col: 9, offset: 83874},
+																																			pos: position{line: 2631, col: 9, offset: 83885},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2866, col: 10, offset: 90742},
+																																				pos: position{line: 2867, col: 10, offset: 90753},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2866, col: 10, offset: 90742},
+																																					pos:        position{line: 2867, col: 10, offset: 90753},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36351,21 +36365,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2630, col: 16, offset: 83881},
+																																			pos:   position{line: 2631, col: 16, offset: 83892},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2636, col: 5, offset: 84081},
+																																				pos: position{line: 2637, col: 5, offset: 84092},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2636, col: 5, offset: 84081},
+																																					pos:   position{line: 2637, col: 5, offset: 84092},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2636, col: 14, offset: 84090},
+																																						pos: position{line: 2637, col: 14, offset: 84101},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2636, col: 14, offset: 84090},
+																																							pos: position{line: 2637, col: 14, offset: 84101},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2636, col: 14, offset: 84090},
+																																								pos:        position{line: 2637, col: 14, offset: 84101},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36382,28 +36396,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2888, col: 8, offset: 91140},
+																														pos: position{line: 2889, col: 8, offset: 91151},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2875, col: 12, offset: 90913},
+																																pos: position{line: 2876, col: 12, offset: 90924},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2875, col: 13, offset: 90914},
+																																	pos: position{line: 2876, col: 13, offset: 90925},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 13, offset: 90914},
+																																			pos:        position{line: 2876, col: 13, offset: 90925},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 20, offset: 90921},
+																																			pos:        position{line: 2876, col: 20, offset: 90932},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 29, offset: 90930},
+																																			pos:        position{line: 2876, col: 29, offset: 90941},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36412,9 +36426,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2885, col: 8, offset: 91090},
+																																pos: position{line: 2886, col: 8, offset: 91101},
 																																expr: &anyMatcher{
-																																	line: 2885, col: 9, offset: 91091,
+																																	line: 2886, col: 9, offset: 91102,
 																																},
 																															},
 																														},
@@ -36423,40 +36437,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2642, col: 24, offset: 84226},
+																											pos: position{line: 2643, col: 24, offset: 84237},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2642, col: 24, offset: 84226},
+																												pos:   position{line: 2643, col: 24, offset: 84237},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2642, col: 30, offset: 84232},
+																													pos: position{line: 2643, col: 30, offset: 84243},
 																													expr: &actionExpr{
-																														pos: position{line: 2647, col: 5, offset: 84308},
+																														pos: position{line: 2648, col: 5, offset: 84319},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2647, col: 5, offset: 84308},
+																															pos: position{line: 2648, col: 5, offset: 84319},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2647, col: 5, offset: 84308},
+																																	pos: position{line: 2648, col: 5, offset: 84319},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2612, col: 22, offset: 83505},
+																																		pos: position{line: 2613, col: 22, offset: 83516},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2608, col: 19, offset: 83425},
+																																				pos: position{line: 2609, col: 19, offset: 83436},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2608, col: 19, offset: 83425},
+																																						pos:        position{line: 2609, col: 19, offset: 83436},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2608, col: 26, offset: 83432},
+																																						pos: position{line: 2609, col: 26, offset: 83443},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2866, col: 10, offset: 90742},
+																																							pos: position{line: 2867, col: 10, offset: 90753},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2866, col: 10, offset: 90742},
+																																								pos:        position{line: 2867, col: 10, offset: 90753},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36465,28 +36479,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2888, col: 8, offset: 91140},
+																																						pos: position{line: 2889, col: 8, offset: 91151},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2875, col: 12, offset: 90913},
+																																								pos: position{line: 2876, col: 12, offset: 90924},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2875, col: 13, offset: 90914},
+																																									pos: position{line: 2876, col: 13, offset: 90925},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 13, offset: 90914},
+																																											pos:        position{line: 2876, col: 13, offset: 90925},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 20, offset: 90921},
+																																											pos:        position{line: 2876, col: 20, offset: 90932},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 29, offset: 90930},
+																																											pos:        position{line: 2876, col: 29, offset: 90941},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36495,9 +36509,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2885, col: 8, offset: 91090},
+																																								pos: position{line: 2886, col: 8, offset: 91101},
 																																								expr: &anyMatcher{
-																																									line: 2885, col: 9, offset: 91091,
+																																									line: 2886, col: 9, offset: 91102,
 																																								},
 																																							},
 																																						},
@@ -36505,35 +36519,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2885, col: 8, offset: 91090},
+																																				pos: position{line: 2886, col: 8, offset: 91101},
 																																				expr: &anyMatcher{
-																																					line: 2885, col: 9, offset: 91091,
+																																					line: 2886, col: 9, offset: 91102,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2648, col: 5, offset: 84331},
+																																	pos: position{line: 2649, col: 5, offset: 84342},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21508},
+																																		pos: position{line: 678, col: 14, offset: 21519},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21508},
+																																			pos: position{line: 678, col: 14, offset: 21519},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2883, col: 11, offset: 91076},
+																																					pos: position{line: 2884, col: 11, offset: 91087},
 																																					expr: &anyMatcher{
-																																						line: 2883, col: 13, offset: 91078,
+																																						line: 2884, col: 13, offset: 91089,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21515},
+																																					pos: position{line: 678, col: 21, offset: 21526},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2866, col: 10, offset: 90742},
+																																						pos: position{line: 2867, col: 10, offset: 90753},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2866, col: 10, offset: 90742},
+																																							pos:        position{line: 2867, col: 10, offset: 90753},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36542,28 +36556,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2888, col: 8, offset: 91140},
+																																					pos: position{line: 2889, col: 8, offset: 91151},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2875, col: 12, offset: 90913},
+																																							pos: position{line: 2876, col: 12, offset: 90924},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2875, col: 13, offset: 90914},
+																																								pos: position{line: 2876, col: 13, offset: 90925},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 13, offset: 90914},
+																																										pos:        position{line: 2876, col: 13, offset: 90925},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 20, offset: 90921},
+																																										pos:        position{line: 2876, col: 20, offset: 90932},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 29, offset: 90930},
+																																										pos:        position{line: 2876, col: 29, offset: 90941},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36572,9 +36586,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2885, col: 8, offset: 91090},
+																																							pos: position{line: 2886, col: 8, offset: 91101},
 																																							expr: &anyMatcher{
-																																								line: 2885, col: 9, offset: 91091,
+																																								line: 2886, col: 9, offset: 91102,
 																																							},
 																																						},
 																																					},
@@ -36584,17 +36598,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2649, col: 5, offset: 84346},
+																																	pos:   position{line: 2650, col: 5, offset: 84357},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2649, col: 12, offset: 84353},
+																																		pos: position{line: 2650, col: 12, offset: 84364},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 20, offset: 84817},
+																																			pos: position{line: 2667, col: 20, offset: 84828},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2666, col: 20, offset: 84817},
+																																				pos: position{line: 2667, col: 20, offset: 84828},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2666, col: 20, offset: 84817},
+																																					pos:        position{line: 2667, col: 20, offset: 84828},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36605,18 +36619,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2649, col: 31, offset: 84372},
+																																	pos:        position{line: 2650, col: 31, offset: 84383},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2649, col: 35, offset: 84376},
+																																	pos: position{line: 2650, col: 35, offset: 84387},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2866, col: 10, offset: 90742},
+																																		pos: position{line: 2867, col: 10, offset: 90753},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2866, col: 10, offset: 90742},
+																																			pos:        position{line: 2867, col: 10, offset: 90753},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36625,27 +36639,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2649, col: 42, offset: 84383},
+																																	pos: position{line: 2650, col: 42, offset: 84394},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2875, col: 12, offset: 90913},
+																																		pos: position{line: 2876, col: 12, offset: 90924},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2875, col: 13, offset: 90914},
+																																			pos: position{line: 2876, col: 13, offset: 90925},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 13, offset: 90914},
+																																					pos:        position{line: 2876, col: 13, offset: 90925},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 20, offset: 90921},
+																																					pos:        position{line: 2876, col: 20, offset: 90932},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 29, offset: 90930},
+																																					pos:        position{line: 2876, col: 29, offset: 90941},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36655,37 +36669,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2649, col: 51, offset: 84392},
+																																	pos:   position{line: 2650, col: 51, offset: 84403},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84551},
+																																		pos: position{line: 2656, col: 5, offset: 84562},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2656, col: 9, offset: 84561},
+																																			pos: position{line: 2657, col: 9, offset: 84572},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2656, col: 9, offset: 84561},
+																																				pos: position{line: 2657, col: 9, offset: 84572},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2656, col: 9, offset: 84561},
+																																						pos: position{line: 2657, col: 9, offset: 84572},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2612, col: 22, offset: 83505},
+																																							pos: position{line: 2613, col: 22, offset: 83516},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2608, col: 19, offset: 83425},
+																																									pos: position{line: 2609, col: 19, offset: 83436},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2608, col: 19, offset: 83425},
+																																											pos:        position{line: 2609, col: 19, offset: 83436},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2608, col: 26, offset: 83432},
+																																											pos: position{line: 2609, col: 26, offset: 83443},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2866, col: 10, offset: 90742},
+																																												pos: position{line: 2867, col: 10, offset: 90753},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2866, col: 10, offset: 90742},
+																																													pos:        position{line: 2867, col: 10, offset: 90753},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36694,28 +36708,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2888, col: 8, offset: 91140},
+																																											pos: position{line: 2889, col: 8, offset: 91151},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2875, col: 12, offset: 90913},
+																																													pos: position{line: 2876, col: 12, offset: 90924},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2875, col: 13, offset: 90914},
+																																														pos: position{line: 2876, col: 13, offset: 90925},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 13, offset: 90914},
+																																																pos:        position{line: 2876, col: 13, offset: 90925},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 20, offset: 90921},
+																																																pos:        position{line: 2876, col: 20, offset: 90932},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 29, offset: 90930},
+																																																pos:        position{line: 2876, col: 29, offset: 90941},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36724,9 +36738,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2885, col: 8, offset: 91090},
+																																													pos: position{line: 2886, col: 8, offset: 91101},
 																																													expr: &anyMatcher{
-																																														line: 2885, col: 9, offset: 91091,
+																																														line: 2886, col: 9, offset: 91102,
 																																													},
 																																												},
 																																											},
@@ -36734,35 +36748,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91090},
+																																									pos: position{line: 2886, col: 8, offset: 91101},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91091,
+																																										line: 2886, col: 9, offset: 91102,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2657, col: 9, offset: 84588},
+																																						pos: position{line: 2658, col: 9, offset: 84599},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21508},
+																																							pos: position{line: 678, col: 14, offset: 21519},
 																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21508},
+																																								pos: position{line: 678, col: 14, offset: 21519},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2883, col: 11, offset: 91076},
+																																										pos: position{line: 2884, col: 11, offset: 91087},
 																																										expr: &anyMatcher{
-																																											line: 2883, col: 13, offset: 91078,
+																																											line: 2884, col: 13, offset: 91089,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21515},
+																																										pos: position{line: 678, col: 21, offset: 21526},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2866, col: 10, offset: 90742},
+																																											pos: position{line: 2867, col: 10, offset: 90753},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2866, col: 10, offset: 90742},
+																																												pos:        position{line: 2867, col: 10, offset: 90753},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36771,28 +36785,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2888, col: 8, offset: 91140},
+																																										pos: position{line: 2889, col: 8, offset: 91151},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2875, col: 12, offset: 90913},
+																																												pos: position{line: 2876, col: 12, offset: 90924},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2875, col: 13, offset: 90914},
+																																													pos: position{line: 2876, col: 13, offset: 90925},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 13, offset: 90914},
+																																															pos:        position{line: 2876, col: 13, offset: 90925},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 20, offset: 90921},
+																																															pos:        position{line: 2876, col: 20, offset: 90932},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 29, offset: 90930},
+																																															pos:        position{line: 2876, col: 29, offset: 90941},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36801,9 +36815,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2885, col: 8, offset: 91090},
+																																												pos: position{line: 2886, col: 8, offset: 91101},
 																																												expr: &anyMatcher{
-																																													line: 2885, col: 9, offset: 91091,
+																																													line: 2886, col: 9, offset: 91102,
 																																												},
 																																											},
 																																										},
@@ -36813,22 +36827,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2658, col: 9, offset: 84607},
+																																						pos: position{line: 2659, col: 9, offset: 84618},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2658, col: 11, offset: 84609},
+																																							pos: position{line: 2659, col: 11, offset: 84620},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2658, col: 11, offset: 84609},
+																																									pos:   position{line: 2659, col: 11, offset: 84620},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2658, col: 18, offset: 84616},
+																																										pos: position{line: 2659, col: 18, offset: 84627},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2666, col: 20, offset: 84817},
+																																											pos: position{line: 2667, col: 20, offset: 84828},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2666, col: 20, offset: 84817},
+																																												pos: position{line: 2667, col: 20, offset: 84828},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2666, col: 20, offset: 84817},
+																																													pos:        position{line: 2667, col: 20, offset: 84828},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36839,7 +36853,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2658, col: 37, offset: 84635},
+																																									pos:        position{line: 2659, col: 37, offset: 84646},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36848,15 +36862,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2659, col: 9, offset: 84648},
+																																						pos:   position{line: 2660, col: 9, offset: 84659},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2659, col: 18, offset: 84657},
+																																							pos: position{line: 2660, col: 18, offset: 84668},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2659, col: 18, offset: 84657},
+																																								pos: position{line: 2660, col: 18, offset: 84668},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2659, col: 18, offset: 84657},
+																																									pos:        position{line: 2660, col: 18, offset: 84668},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36866,30 +36880,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2661, col: 12, offset: 84719},
+																																						pos: position{line: 2662, col: 12, offset: 84730},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2888, col: 8, offset: 91140},
+																																							pos: position{line: 2889, col: 8, offset: 91151},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2875, col: 12, offset: 90913},
+																																									pos: position{line: 2876, col: 12, offset: 90924},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2875, col: 13, offset: 90914},
+																																										pos: position{line: 2876, col: 13, offset: 90925},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 13, offset: 90914},
+																																												pos:        position{line: 2876, col: 13, offset: 90925},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 20, offset: 90921},
+																																												pos:        position{line: 2876, col: 20, offset: 90932},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 29, offset: 90930},
+																																												pos:        position{line: 2876, col: 29, offset: 90941},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36898,9 +36912,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91090},
+																																									pos: position{line: 2886, col: 8, offset: 91101},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91091,
+																																										line: 2886, col: 9, offset: 91102,
 																																									},
 																																								},
 																																							},
@@ -36922,24 +36936,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21508},
+																							pos: position{line: 678, col: 14, offset: 21519},
 																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21508},
+																								pos: position{line: 678, col: 14, offset: 21519},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2883, col: 11, offset: 91076},
+																										pos: position{line: 2884, col: 11, offset: 91087},
 																										expr: &anyMatcher{
-																											line: 2883, col: 13, offset: 91078,
+																											line: 2884, col: 13, offset: 91089,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21515},
+																										pos: position{line: 678, col: 21, offset: 21526},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90742},
+																											pos: position{line: 2867, col: 10, offset: 90753},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90742},
+																												pos:        position{line: 2867, col: 10, offset: 90753},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36948,28 +36962,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2888, col: 8, offset: 91140},
+																										pos: position{line: 2889, col: 8, offset: 91151},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2875, col: 12, offset: 90913},
+																												pos: position{line: 2876, col: 12, offset: 90924},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2875, col: 13, offset: 90914},
+																													pos: position{line: 2876, col: 13, offset: 90925},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 13, offset: 90914},
+																															pos:        position{line: 2876, col: 13, offset: 90925},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 20, offset: 90921},
+																															pos:        position{line: 2876, col: 20, offset: 90932},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 29, offset: 90930},
+																															pos:        position{line: 2876, col: 29, offset: 90941},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36978,9 +36992,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2885, col: 8, offset: 91090},
+																												pos: position{line: 2886, col: 8, offset: 91101},
 																												expr: &anyMatcher{
-																													line: 2885, col: 9, offset: 91091,
+																													line: 2886, col: 9, offset: 91102,
 																												},
 																											},
 																										},
@@ -36999,24 +37013,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2612, col: 22, offset: 83505},
+													pos: position{line: 2613, col: 22, offset: 83516},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2608, col: 19, offset: 83425},
+															pos: position{line: 2609, col: 19, offset: 83436},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2608, col: 19, offset: 83425},
+																	pos:        position{line: 2609, col: 19, offset: 83436},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2608, col: 26, offset: 83432},
+																	pos: position{line: 2609, col: 26, offset: 83443},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37025,28 +37039,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37055,9 +37069,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -37065,9 +37079,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -37076,36 +37090,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2476, col: 22, offset: 79727},
+										pos: position{line: 2477, col: 22, offset: 79738},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2476, col: 22, offset: 79727},
+											pos: position{line: 2477, col: 22, offset: 79738},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2481, col: 31, offset: 79948},
+													pos:        position{line: 2482, col: 31, offset: 79959},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2481, col: 36, offset: 79953},
+													pos: position{line: 2482, col: 36, offset: 79964},
 													expr: &litMatcher{
-														pos:        position{line: 2481, col: 37, offset: 79954},
+														pos:        position{line: 2482, col: 37, offset: 79965},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2476, col: 49, offset: 79754},
+													pos:   position{line: 2477, col: 49, offset: 79765},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89268},
+														pos: position{line: 2813, col: 13, offset: 89279},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89268},
+															pos: position{line: 2813, col: 13, offset: 89279},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89268},
+																pos:        position{line: 2813, col: 13, offset: 89279},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37115,28 +37129,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91140},
+													pos: position{line: 2889, col: 8, offset: 91151},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37145,9 +37159,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91090},
+															pos: position{line: 2886, col: 8, offset: 91101},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91091,
+																line: 2886, col: 9, offset: 91102,
 															},
 														},
 													},
@@ -37156,94 +37170,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1574, col: 5, offset: 50804},
+										pos: position{line: 1575, col: 5, offset: 50815},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1574, col: 5, offset: 50804},
+											pos: position{line: 1575, col: 5, offset: 50815},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1574, col: 5, offset: 50804},
+													pos:   position{line: 1575, col: 5, offset: 50815},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1574, col: 11, offset: 50810},
+														pos: position{line: 1575, col: 11, offset: 50821},
 														expr: &actionExpr{
-															pos: position{line: 1738, col: 5, offset: 56127},
+															pos: position{line: 1739, col: 5, offset: 56138},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1738, col: 5, offset: 56127},
+																pos: position{line: 1739, col: 5, offset: 56138},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1738, col: 5, offset: 56127},
+																		pos: position{line: 1739, col: 5, offset: 56138},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1741, col: 5, offset: 56190},
+																		pos:   position{line: 1742, col: 5, offset: 56201},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1741, col: 12, offset: 56197},
+																			pos: position{line: 1742, col: 12, offset: 56208},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1741, col: 12, offset: 56197},
+																					pos: position{line: 1742, col: 12, offset: 56208},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 12, offset: 56197},
+																						pos:        position{line: 1742, col: 12, offset: 56208},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56253},
+																					pos: position{line: 1744, col: 13, offset: 56264},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56253},
+																						pos:        position{line: 1744, col: 13, offset: 56264},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56311},
+																					pos: position{line: 1746, col: 13, offset: 56322},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56311},
+																						pos:        position{line: 1746, col: 13, offset: 56322},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56379},
+																					pos: position{line: 1748, col: 13, offset: 56390},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56379},
+																						pos:        position{line: 1748, col: 13, offset: 56390},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56443},
+																					pos: position{line: 1750, col: 13, offset: 56454},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1749, col: 13, offset: 56443},
+																						pos:        position{line: 1750, col: 13, offset: 56454},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1751, col: 13, offset: 56507},
+																					pos: position{line: 1752, col: 13, offset: 56518},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1751, col: 13, offset: 56507},
+																						pos: position{line: 1752, col: 13, offset: 56518},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90803},
+																							pos: position{line: 2871, col: 11, offset: 90814},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90803},
+																								pos: position{line: 2871, col: 11, offset: 90814},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90803},
+																									pos:        position{line: 2871, col: 11, offset: 90814},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37257,17 +37271,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1753, col: 12, offset: 56587},
+																		pos: position{line: 1754, col: 12, offset: 56598},
 																		expr: &seqExpr{
-																			pos: position{line: 1753, col: 14, offset: 56589},
+																			pos: position{line: 1754, col: 14, offset: 56600},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1753, col: 14, offset: 56589},
+																					pos: position{line: 1754, col: 14, offset: 56600},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37276,28 +37290,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37306,9 +37320,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -37322,35 +37336,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1575, col: 5, offset: 50833},
+													pos:   position{line: 1576, col: 5, offset: 50844},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49129},
+														pos: position{line: 1519, col: 5, offset: 49140},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49129},
+															pos: position{line: 1519, col: 5, offset: 49140},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49129},
+																	pos: position{line: 1519, col: 5, offset: 49140},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21508},
+																		pos: position{line: 678, col: 14, offset: 21519},
 																		run: (*parser).callonListContinuationElement1623,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21508},
+																			pos: position{line: 678, col: 14, offset: 21519},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91076},
+																					pos: position{line: 2884, col: 11, offset: 91087},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91078,
+																						line: 2884, col: 13, offset: 91089,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21515},
+																					pos: position{line: 678, col: 21, offset: 21526},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37359,28 +37373,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91140},
+																					pos: position{line: 2889, col: 8, offset: 91151},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37389,9 +37403,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91090},
+																							pos: position{line: 2886, col: 8, offset: 91101},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91091,
+																								line: 2886, col: 9, offset: 91102,
 																							},
 																						},
 																					},
@@ -37401,23 +37415,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49144},
+																	pos: position{line: 1520, col: 5, offset: 49155},
 																	expr: &seqExpr{
-																		pos: position{line: 1549, col: 27, offset: 50049},
+																		pos: position{line: 1550, col: 27, offset: 50060},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1549, col: 27, offset: 50049},
+																				pos:        position{line: 1550, col: 27, offset: 50060},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1549, col: 31, offset: 50053},
+																				pos: position{line: 1550, col: 31, offset: 50064},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90742},
+																					pos: position{line: 2867, col: 10, offset: 90753},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90742},
+																						pos:        position{line: 2867, col: 10, offset: 90753},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37426,25 +37440,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37456,20 +37470,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49172},
+																	pos: position{line: 1521, col: 5, offset: 49183},
 																	expr: &actionExpr{
-																		pos: position{line: 1590, col: 5, offset: 51243},
+																		pos: position{line: 1591, col: 5, offset: 51254},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1590, col: 5, offset: 51243},
+																			pos: position{line: 1591, col: 5, offset: 51254},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1590, col: 5, offset: 51243},
+																					pos: position{line: 1591, col: 5, offset: 51254},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37478,27 +37492,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1590, col: 12, offset: 51250},
+																					pos:   position{line: 1591, col: 12, offset: 51261},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1592, col: 9, offset: 51313},
+																						pos: position{line: 1593, col: 9, offset: 51324},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1592, col: 9, offset: 51313},
+																								pos: position{line: 1593, col: 9, offset: 51324},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1592, col: 9, offset: 51313},
+																									pos: position{line: 1593, col: 9, offset: 51324},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1592, col: 9, offset: 51313},
+																											pos:   position{line: 1593, col: 9, offset: 51324},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1592, col: 16, offset: 51320},
+																												pos: position{line: 1593, col: 16, offset: 51331},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1592, col: 16, offset: 51320},
+																													pos: position{line: 1593, col: 16, offset: 51331},
 																													expr: &litMatcher{
-																														pos:        position{line: 1592, col: 17, offset: 51321},
+																														pos:        position{line: 1593, col: 17, offset: 51332},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37507,22 +37521,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1596, col: 9, offset: 51421},
+																											pos: position{line: 1597, col: 9, offset: 51432},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 11, offset: 52138},
+																								pos: position{line: 1616, col: 11, offset: 52149},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 11, offset: 52138},
+																									pos: position{line: 1616, col: 11, offset: 52149},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1615, col: 11, offset: 52138},
+																											pos: position{line: 1616, col: 11, offset: 52149},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1615, col: 12, offset: 52139},
+																												pos:        position{line: 1616, col: 12, offset: 52150},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37530,7 +37544,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 20, offset: 52147},
+																											pos:        position{line: 1616, col: 20, offset: 52158},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37539,20 +37553,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52264},
+																								pos: position{line: 1618, col: 13, offset: 52275},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52264},
+																									pos: position{line: 1618, col: 13, offset: 52275},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1617, col: 14, offset: 52265},
+																											pos:        position{line: 1618, col: 14, offset: 52276},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 21, offset: 52272},
+																											pos:        position{line: 1618, col: 21, offset: 52283},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37561,20 +37575,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52392},
+																								pos: position{line: 1620, col: 13, offset: 52403},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52392},
+																									pos: position{line: 1620, col: 13, offset: 52403},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1619, col: 14, offset: 52393},
+																											pos:        position{line: 1620, col: 14, offset: 52404},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 21, offset: 52400},
+																											pos:        position{line: 1620, col: 21, offset: 52411},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37583,15 +37597,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 13, offset: 52520},
+																								pos: position{line: 1622, col: 13, offset: 52531},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 13, offset: 52520},
+																									pos: position{line: 1622, col: 13, offset: 52531},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 13, offset: 52520},
+																											pos: position{line: 1622, col: 13, offset: 52531},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 14, offset: 52521},
+																												pos:        position{line: 1622, col: 14, offset: 52532},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37599,7 +37613,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 26, offset: 52533},
+																											pos:        position{line: 1622, col: 26, offset: 52544},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37608,15 +37622,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52653},
+																								pos: position{line: 1624, col: 13, offset: 52664},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52653},
+																									pos: position{line: 1624, col: 13, offset: 52664},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1623, col: 13, offset: 52653},
+																											pos: position{line: 1624, col: 13, offset: 52664},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1623, col: 14, offset: 52654},
+																												pos:        position{line: 1624, col: 14, offset: 52665},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37624,7 +37638,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 26, offset: 52666},
+																											pos:        position{line: 1624, col: 26, offset: 52677},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37636,12 +37650,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90803},
+																					pos: position{line: 2871, col: 11, offset: 90814},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90803},
+																						pos: position{line: 2871, col: 11, offset: 90814},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90803},
+																							pos:        position{line: 2871, col: 11, offset: 90814},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37654,20 +37668,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49202},
+																	pos: position{line: 1522, col: 5, offset: 49213},
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 5, offset: 53205},
+																		pos: position{line: 1641, col: 5, offset: 53216},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1640, col: 5, offset: 53205},
+																			pos: position{line: 1641, col: 5, offset: 53216},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1640, col: 5, offset: 53205},
+																					pos: position{line: 1641, col: 5, offset: 53216},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37676,24 +37690,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1641, col: 5, offset: 53217},
+																					pos:   position{line: 1642, col: 5, offset: 53228},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1642, col: 9, offset: 53233},
+																						pos: position{line: 1643, col: 9, offset: 53244},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1642, col: 10, offset: 53234},
+																							pos: position{line: 1643, col: 10, offset: 53245},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1642, col: 11, offset: 53235},
+																									pos:        position{line: 1643, col: 11, offset: 53246},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1642, col: 18, offset: 53242},
+																									pos: position{line: 1643, col: 18, offset: 53253},
 																									expr: &litMatcher{
-																										pos:        position{line: 1642, col: 19, offset: 53243},
+																										pos:        position{line: 1643, col: 19, offset: 53254},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37704,16 +37718,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1645, col: 7, offset: 53333},
+																					pos: position{line: 1646, col: 7, offset: 53344},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90803},
+																					pos: position{line: 2871, col: 11, offset: 90814},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90803},
+																						pos: position{line: 2871, col: 11, offset: 90814},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90803},
+																							pos:        position{line: 2871, col: 11, offset: 90814},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37726,29 +37740,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49234},
+																	pos: position{line: 1523, col: 5, offset: 49245},
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 5, offset: 55742},
+																		pos: position{line: 1730, col: 5, offset: 55753},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1729, col: 5, offset: 55742},
+																			pos: position{line: 1730, col: 5, offset: 55753},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 5, offset: 55742},
+																					pos:        position{line: 1730, col: 5, offset: 55753},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1729, col: 9, offset: 55746},
+																					pos:   position{line: 1730, col: 9, offset: 55757},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1729, col: 14, offset: 55751},
+																						pos: position{line: 1730, col: 14, offset: 55762},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1729, col: 14, offset: 55751},
+																							pos: position{line: 1730, col: 14, offset: 55762},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1729, col: 14, offset: 55751},
+																								pos:        position{line: 1730, col: 14, offset: 55762},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37758,18 +37772,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 62, offset: 55799},
+																					pos:        position{line: 1730, col: 62, offset: 55810},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90803},
+																					pos: position{line: 2871, col: 11, offset: 90814},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90803},
+																						pos: position{line: 2871, col: 11, offset: 90814},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90803},
+																							pos:        position{line: 2871, col: 11, offset: 90814},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37782,36 +37796,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49264},
+																	pos: position{line: 1524, col: 5, offset: 49275},
 																	expr: &seqExpr{
-																		pos: position{line: 1523, col: 7, offset: 49266},
+																		pos: position{line: 1524, col: 7, offset: 49277},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54224},
+																				pos: position{line: 1676, col: 5, offset: 54235},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 5, offset: 54224},
+																					pos: position{line: 1676, col: 5, offset: 54235},
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 6, offset: 54225},
+																						pos: position{line: 1676, col: 6, offset: 54236},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1675, col: 6, offset: 54225},
+																								pos: position{line: 1676, col: 6, offset: 54236},
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 5, offset: 54375},
+																									pos: position{line: 1681, col: 5, offset: 54386},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1680, col: 5, offset: 54375},
+																										pos: position{line: 1681, col: 5, offset: 54386},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1680, col: 5, offset: 54375},
+																												pos:   position{line: 1681, col: 5, offset: 54386},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1680, col: 16, offset: 54386},
+																													pos: position{line: 1681, col: 16, offset: 54397},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1680, col: 16, offset: 54386},
+																														pos: position{line: 1681, col: 16, offset: 54397},
 																														expr: &litMatcher{
-																															pos:        position{line: 1680, col: 17, offset: 54387},
+																															pos:        position{line: 1681, col: 17, offset: 54398},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37820,7 +37834,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1683, col: 5, offset: 54444},
+																												pos: position{line: 1684, col: 5, offset: 54455},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -37828,30 +37842,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1675, col: 35, offset: 54254},
+																								pos: position{line: 1676, col: 35, offset: 54265},
 																								expr: &choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91140},
+																									pos: position{line: 2889, col: 8, offset: 91151},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90913},
+																											pos: position{line: 2876, col: 12, offset: 90924},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90914},
+																												pos: position{line: 2876, col: 13, offset: 90925},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90914},
+																														pos:        position{line: 2876, col: 13, offset: 90925},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90921},
+																														pos:        position{line: 2876, col: 20, offset: 90932},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90930},
+																														pos:        position{line: 2876, col: 29, offset: 90941},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37860,37 +37874,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91090},
+																											pos: position{line: 2886, col: 8, offset: 91101},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91091,
+																												line: 2886, col: 9, offset: 91102,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1675, col: 40, offset: 54259,
+																								line: 1676, col: 40, offset: 54270,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54375},
+																				pos: position{line: 1681, col: 5, offset: 54386},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54375},
+																					pos: position{line: 1681, col: 5, offset: 54386},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54375},
+																							pos:   position{line: 1681, col: 5, offset: 54386},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54386},
+																								pos: position{line: 1681, col: 16, offset: 54397},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54386},
+																									pos: position{line: 1681, col: 16, offset: 54397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54387},
+																										pos:        position{line: 1681, col: 17, offset: 54398},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37899,20 +37913,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54444},
+																							pos: position{line: 1684, col: 5, offset: 54455},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1523, col: 59, offset: 49318},
+																				pos: position{line: 1524, col: 59, offset: 49329},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90742},
+																						pos: position{line: 2867, col: 10, offset: 90753},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90742},
+																							pos:        position{line: 2867, col: 10, offset: 90753},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37920,25 +37934,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90913},
+																						pos: position{line: 2876, col: 12, offset: 90924},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90914},
+																							pos: position{line: 2876, col: 13, offset: 90925},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90914},
+																									pos:        position{line: 2876, col: 13, offset: 90925},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90921},
+																									pos:        position{line: 2876, col: 20, offset: 90932},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90930},
+																									pos:        position{line: 2876, col: 29, offset: 90941},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37947,9 +37961,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91090},
+																						pos: position{line: 2886, col: 8, offset: 91101},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91091,
+																							line: 2886, col: 9, offset: 91102,
 																						},
 																					},
 																				},
@@ -37958,20 +37972,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49336},
+																	pos: position{line: 1525, col: 5, offset: 49347},
 																	expr: &choiceExpr{
-																		pos: position{line: 1524, col: 7, offset: 49338},
+																		pos: position{line: 1525, col: 7, offset: 49349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 724, col: 5, offset: 23080},
+																				pos: position{line: 725, col: 5, offset: 23091},
 																				run: (*parser).callonListContinuationElement1760,
 																				expr: &seqExpr{
-																					pos: position{line: 724, col: 5, offset: 23080},
+																					pos: position{line: 725, col: 5, offset: 23091},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 724, col: 5, offset: 23080},
+																							pos: position{line: 725, col: 5, offset: 23091},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2756, col: 13, offset: 87837},
+																								pos:        position{line: 2757, col: 13, offset: 87848},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -37979,36 +37993,36 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 725, col: 5, offset: 23110},
+																							pos:   position{line: 726, col: 5, offset: 23121},
 																							label: "delimiter",
 																							expr: &choiceExpr{
-																								pos: position{line: 726, col: 9, offset: 23130},
+																								pos: position{line: 727, col: 9, offset: 23141},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23622},
+																										pos: position{line: 741, col: 5, offset: 23633},
 																										run: (*parser).callonListContinuationElement1766,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23622},
+																											pos: position{line: 741, col: 5, offset: 23633},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23622},
+																													pos:   position{line: 741, col: 5, offset: 23633},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23633},
+																														pos: position{line: 741, col: 16, offset: 23644},
 																														run: (*parser).callonListContinuationElement1769,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23633},
+																															pos: position{line: 741, col: 16, offset: 23644},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23633},
+																																	pos:        position{line: 741, col: 16, offset: 23644},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23640},
+																																	pos: position{line: 741, col: 23, offset: 23651},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23640},
+																																		pos:        position{line: 741, col: 23, offset: 23651},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -38019,12 +38033,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23724},
+																													pos: position{line: 743, col: 8, offset: 23735},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38033,28 +38047,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38063,9 +38077,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38074,30 +38088,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 747, col: 5, offset: 23870},
+																										pos: position{line: 748, col: 5, offset: 23881},
 																										run: (*parser).callonListContinuationElement1785,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 5, offset: 23870},
+																											pos: position{line: 748, col: 5, offset: 23881},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 747, col: 5, offset: 23870},
+																													pos:   position{line: 748, col: 5, offset: 23881},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 747, col: 16, offset: 23881},
+																														pos: position{line: 748, col: 16, offset: 23892},
 																														run: (*parser).callonListContinuationElement1788,
 																														expr: &seqExpr{
-																															pos: position{line: 747, col: 16, offset: 23881},
+																															pos: position{line: 748, col: 16, offset: 23892},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 747, col: 16, offset: 23881},
+																																	pos:        position{line: 748, col: 16, offset: 23892},
 																																	val:        "====",
 																																	ignoreCase: false,
 																																	want:       "\"====\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 747, col: 23, offset: 23888},
+																																	pos: position{line: 748, col: 23, offset: 23899},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 747, col: 23, offset: 23888},
+																																		pos:        position{line: 748, col: 23, offset: 23899},
 																																		val:        "=",
 																																		ignoreCase: false,
 																																		want:       "\"=\"",
@@ -38108,12 +38122,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 749, col: 8, offset: 23972},
+																													pos: position{line: 750, col: 8, offset: 23983},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38122,28 +38136,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38152,9 +38166,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38163,27 +38177,27 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 760, col: 26, offset: 24358},
+																										pos: position{line: 761, col: 26, offset: 24369},
 																										run: (*parser).callonListContinuationElement1804,
 																										expr: &seqExpr{
-																											pos: position{line: 760, col: 26, offset: 24358},
+																											pos: position{line: 761, col: 26, offset: 24369},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 760, col: 26, offset: 24358},
+																													pos:        position{line: 761, col: 26, offset: 24369},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 760, col: 32, offset: 24364},
+																													pos:   position{line: 761, col: 32, offset: 24375},
 																													label: "language",
 																													expr: &actionExpr{
-																														pos: position{line: 764, col: 13, offset: 24494},
+																														pos: position{line: 765, col: 13, offset: 24505},
 																														run: (*parser).callonListContinuationElement1808,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 764, col: 14, offset: 24495},
+																															pos: position{line: 765, col: 14, offset: 24506},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 764, col: 14, offset: 24495},
+																																pos:        position{line: 765, col: 14, offset: 24506},
 																																val:        "[^\\r\\n` ]",
 																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
@@ -38193,12 +38207,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 760, col: 52, offset: 24384},
+																													pos: position{line: 761, col: 52, offset: 24395},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38207,28 +38221,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38237,9 +38251,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38248,30 +38262,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 754, col: 5, offset: 24117},
+																										pos: position{line: 755, col: 5, offset: 24128},
 																										run: (*parser).callonListContinuationElement1822,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 5, offset: 24117},
+																											pos: position{line: 755, col: 5, offset: 24128},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 754, col: 5, offset: 24117},
+																													pos:   position{line: 755, col: 5, offset: 24128},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 754, col: 16, offset: 24128},
+																														pos: position{line: 755, col: 16, offset: 24139},
 																														run: (*parser).callonListContinuationElement1825,
 																														expr: &seqExpr{
-																															pos: position{line: 754, col: 16, offset: 24128},
+																															pos: position{line: 755, col: 16, offset: 24139},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 754, col: 16, offset: 24128},
+																																	pos:        position{line: 755, col: 16, offset: 24139},
 																																	val:        "```",
 																																	ignoreCase: false,
 																																	want:       "\"```\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 754, col: 22, offset: 24134},
+																																	pos: position{line: 755, col: 22, offset: 24145},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 754, col: 22, offset: 24134},
+																																		pos:        position{line: 755, col: 22, offset: 24145},
 																																		val:        "`",
 																																		ignoreCase: false,
 																																		want:       "\"`\"",
@@ -38282,12 +38296,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 756, col: 8, offset: 24218},
+																													pos: position{line: 757, col: 8, offset: 24229},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38296,28 +38310,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38326,9 +38340,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38337,30 +38351,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 769, col: 5, offset: 24654},
+																										pos: position{line: 770, col: 5, offset: 24665},
 																										run: (*parser).callonListContinuationElement1841,
 																										expr: &seqExpr{
-																											pos: position{line: 769, col: 5, offset: 24654},
+																											pos: position{line: 770, col: 5, offset: 24665},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 769, col: 5, offset: 24654},
+																													pos:   position{line: 770, col: 5, offset: 24665},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 769, col: 16, offset: 24665},
+																														pos: position{line: 770, col: 16, offset: 24676},
 																														run: (*parser).callonListContinuationElement1844,
 																														expr: &seqExpr{
-																															pos: position{line: 769, col: 16, offset: 24665},
+																															pos: position{line: 770, col: 16, offset: 24676},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 769, col: 16, offset: 24665},
+																																	pos:        position{line: 770, col: 16, offset: 24676},
 																																	val:        "----",
 																																	ignoreCase: false,
 																																	want:       "\"----\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 769, col: 23, offset: 24672},
+																																	pos: position{line: 770, col: 23, offset: 24683},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 769, col: 23, offset: 24672},
+																																		pos:        position{line: 770, col: 23, offset: 24683},
 																																		val:        "-",
 																																		ignoreCase: false,
 																																		want:       "\"-\"",
@@ -38371,12 +38385,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 771, col: 8, offset: 24756},
+																													pos: position{line: 772, col: 8, offset: 24767},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38385,28 +38399,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38415,9 +38429,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38426,30 +38440,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 783, col: 5, offset: 25130},
+																										pos: position{line: 784, col: 5, offset: 25141},
 																										run: (*parser).callonListContinuationElement1860,
 																										expr: &seqExpr{
-																											pos: position{line: 783, col: 5, offset: 25130},
+																											pos: position{line: 784, col: 5, offset: 25141},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 783, col: 5, offset: 25130},
+																													pos:   position{line: 784, col: 5, offset: 25141},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 783, col: 16, offset: 25141},
+																														pos: position{line: 784, col: 16, offset: 25152},
 																														run: (*parser).callonListContinuationElement1863,
 																														expr: &seqExpr{
-																															pos: position{line: 783, col: 16, offset: 25141},
+																															pos: position{line: 784, col: 16, offset: 25152},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 783, col: 16, offset: 25141},
+																																	pos:        position{line: 784, col: 16, offset: 25152},
 																																	val:        "....",
 																																	ignoreCase: false,
 																																	want:       "\"....\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 783, col: 23, offset: 25148},
+																																	pos: position{line: 784, col: 23, offset: 25159},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 783, col: 23, offset: 25148},
+																																		pos:        position{line: 784, col: 23, offset: 25159},
 																																		val:        ".",
 																																		ignoreCase: false,
 																																		want:       "\".\"",
@@ -38460,12 +38474,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 785, col: 8, offset: 25232},
+																													pos: position{line: 786, col: 8, offset: 25243},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38474,28 +38488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38504,9 +38518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38515,30 +38529,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 790, col: 5, offset: 25382},
+																										pos: position{line: 791, col: 5, offset: 25393},
 																										run: (*parser).callonListContinuationElement1879,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 5, offset: 25382},
+																											pos: position{line: 791, col: 5, offset: 25393},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 790, col: 5, offset: 25382},
+																													pos:   position{line: 791, col: 5, offset: 25393},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 790, col: 16, offset: 25393},
+																														pos: position{line: 791, col: 16, offset: 25404},
 																														run: (*parser).callonListContinuationElement1882,
 																														expr: &seqExpr{
-																															pos: position{line: 790, col: 16, offset: 25393},
+																															pos: position{line: 791, col: 16, offset: 25404},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 790, col: 16, offset: 25393},
+																																	pos:        position{line: 791, col: 16, offset: 25404},
 																																	val:        "++++",
 																																	ignoreCase: false,
 																																	want:       "\"++++\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 790, col: 23, offset: 25400},
+																																	pos: position{line: 791, col: 23, offset: 25411},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 790, col: 23, offset: 25400},
+																																		pos:        position{line: 791, col: 23, offset: 25411},
 																																		val:        "+",
 																																		ignoreCase: false,
 																																		want:       "\"+\"",
@@ -38549,12 +38563,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 792, col: 8, offset: 25484},
+																													pos: position{line: 793, col: 8, offset: 25495},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38563,28 +38577,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38593,9 +38607,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38604,30 +38618,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 797, col: 5, offset: 25632},
+																										pos: position{line: 798, col: 5, offset: 25643},
 																										run: (*parser).callonListContinuationElement1898,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 5, offset: 25632},
+																											pos: position{line: 798, col: 5, offset: 25643},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 797, col: 5, offset: 25632},
+																													pos:   position{line: 798, col: 5, offset: 25643},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 797, col: 16, offset: 25643},
+																														pos: position{line: 798, col: 16, offset: 25654},
 																														run: (*parser).callonListContinuationElement1901,
 																														expr: &seqExpr{
-																															pos: position{line: 797, col: 16, offset: 25643},
+																															pos: position{line: 798, col: 16, offset: 25654},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 797, col: 16, offset: 25643},
+																																	pos:        position{line: 798, col: 16, offset: 25654},
 																																	val:        "____",
 																																	ignoreCase: false,
 																																	want:       "\"____\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 797, col: 23, offset: 25650},
+																																	pos: position{line: 798, col: 23, offset: 25661},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 797, col: 23, offset: 25650},
+																																		pos:        position{line: 798, col: 23, offset: 25661},
 																																		val:        "_",
 																																		ignoreCase: false,
 																																		want:       "\"_\"",
@@ -38638,12 +38652,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 799, col: 8, offset: 25734},
+																													pos: position{line: 800, col: 8, offset: 25745},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38652,28 +38666,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38682,9 +38696,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38693,30 +38707,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 804, col: 5, offset: 25878},
+																										pos: position{line: 805, col: 5, offset: 25889},
 																										run: (*parser).callonListContinuationElement1917,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 5, offset: 25878},
+																											pos: position{line: 805, col: 5, offset: 25889},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 804, col: 5, offset: 25878},
+																													pos:   position{line: 805, col: 5, offset: 25889},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 804, col: 16, offset: 25889},
+																														pos: position{line: 805, col: 16, offset: 25900},
 																														run: (*parser).callonListContinuationElement1920,
 																														expr: &seqExpr{
-																															pos: position{line: 804, col: 16, offset: 25889},
+																															pos: position{line: 805, col: 16, offset: 25900},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 804, col: 16, offset: 25889},
+																																	pos:        position{line: 805, col: 16, offset: 25900},
 																																	val:        "****",
 																																	ignoreCase: false,
 																																	want:       "\"****\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 804, col: 23, offset: 25896},
+																																	pos: position{line: 805, col: 23, offset: 25907},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 804, col: 23, offset: 25896},
+																																		pos:        position{line: 805, col: 23, offset: 25907},
 																																		val:        "*",
 																																		ignoreCase: false,
 																																		want:       "\"*\"",
@@ -38727,12 +38741,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 806, col: 8, offset: 25980},
+																													pos: position{line: 807, col: 8, offset: 25991},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90742},
+																														pos: position{line: 2867, col: 10, offset: 90753},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90742},
+																															pos:        position{line: 2867, col: 10, offset: 90753},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38741,28 +38755,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91140},
+																													pos: position{line: 2889, col: 8, offset: 91151},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90913},
+																															pos: position{line: 2876, col: 12, offset: 90924},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90914},
+																																pos: position{line: 2876, col: 13, offset: 90925},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90914},
+																																		pos:        position{line: 2876, col: 13, offset: 90925},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90921},
+																																		pos:        position{line: 2876, col: 20, offset: 90932},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90930},
+																																		pos:        position{line: 2876, col: 29, offset: 90941},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38771,9 +38785,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91090},
+																															pos: position{line: 2886, col: 8, offset: 91101},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91091,
+																																line: 2886, col: 9, offset: 91102,
 																															},
 																														},
 																													},
@@ -38788,19 +38802,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 776, col: 5, offset: 24899},
+																				pos: position{line: 777, col: 5, offset: 24910},
 																				run: (*parser).callonListContinuationElement1936,
 																				expr: &seqExpr{
-																					pos: position{line: 776, col: 5, offset: 24899},
+																					pos: position{line: 777, col: 5, offset: 24910},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 776, col: 5, offset: 24899},
+																							pos:   position{line: 777, col: 5, offset: 24910},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 776, col: 16, offset: 24910},
+																								pos: position{line: 777, col: 16, offset: 24921},
 																								run: (*parser).callonListContinuationElement1939,
 																								expr: &litMatcher{
-																									pos:        position{line: 776, col: 16, offset: 24910},
+																									pos:        position{line: 777, col: 16, offset: 24921},
 																									val:        "--",
 																									ignoreCase: false,
 																									want:       "\"--\"",
@@ -38808,12 +38822,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 778, col: 8, offset: 24987},
+																							pos: position{line: 779, col: 8, offset: 24998},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90742},
+																								pos: position{line: 2867, col: 10, offset: 90753},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90742},
+																									pos:        position{line: 2867, col: 10, offset: 90753},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38822,28 +38836,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91140},
+																							pos: position{line: 2889, col: 8, offset: 91151},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90913},
+																									pos: position{line: 2876, col: 12, offset: 90924},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90914},
+																										pos: position{line: 2876, col: 13, offset: 90925},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90914},
+																												pos:        position{line: 2876, col: 13, offset: 90925},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90921},
+																												pos:        position{line: 2876, col: 20, offset: 90932},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90930},
+																												pos:        position{line: 2876, col: 29, offset: 90941},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38852,9 +38866,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91090},
+																									pos: position{line: 2886, col: 8, offset: 91101},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91091,
+																										line: 2886, col: 9, offset: 91102,
 																									},
 																								},
 																							},
@@ -38863,21 +38877,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2608, col: 19, offset: 83425},
+																				pos: position{line: 2609, col: 19, offset: 83436},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2608, col: 19, offset: 83425},
+																						pos:        position{line: 2609, col: 19, offset: 83436},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2608, col: 26, offset: 83432},
+																						pos: position{line: 2609, col: 26, offset: 83443},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38886,28 +38900,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91140},
+																						pos: position{line: 2889, col: 8, offset: 91151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90913},
+																								pos: position{line: 2876, col: 12, offset: 90924},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90914},
+																									pos: position{line: 2876, col: 13, offset: 90925},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90914},
+																											pos:        position{line: 2876, col: 13, offset: 90925},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90921},
+																											pos:        position{line: 2876, col: 20, offset: 90932},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90930},
+																											pos:        position{line: 2876, col: 29, offset: 90941},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38916,9 +38930,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91090},
+																								pos: position{line: 2886, col: 8, offset: 91101},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91091,
+																									line: 2886, col: 9, offset: 91102,
 																								},
 																							},
 																						},
@@ -38929,15 +38943,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49396},
+																	pos:   position{line: 1526, col: 5, offset: 49407},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89335},
+																		pos: position{line: 2817, col: 14, offset: 89346},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89335},
+																			pos: position{line: 2817, col: 14, offset: 89346},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89335},
+																				pos:        position{line: 2817, col: 14, offset: 89346},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38947,28 +38961,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38977,9 +38991,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -39000,33 +39014,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1713, col: 1, offset: 55236},
+			pos:  position{line: 1714, col: 1, offset: 55247},
 			expr: &actionExpr{
-				pos: position{line: 1715, col: 5, offset: 55314},
+				pos: position{line: 1716, col: 5, offset: 55325},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1715, col: 5, offset: 55314},
+					pos: position{line: 1716, col: 5, offset: 55325},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1715, col: 5, offset: 55314},
+							pos: position{line: 1716, col: 5, offset: 55325},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 5, offset: 55381},
+							pos:        position{line: 1719, col: 5, offset: 55392},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1718, col: 9, offset: 55385},
+							pos:   position{line: 1719, col: 9, offset: 55396},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1718, col: 14, offset: 55390},
+								pos: position{line: 1719, col: 14, offset: 55401},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1718, col: 14, offset: 55390},
+									pos: position{line: 1719, col: 14, offset: 55401},
 									expr: &charClassMatcher{
-										pos:        position{line: 1718, col: 14, offset: 55390},
+										pos:        position{line: 1719, col: 14, offset: 55401},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39036,18 +39050,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 62, offset: 55438},
+							pos:        position{line: 1719, col: 62, offset: 55449},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1718, col: 66, offset: 55442},
+							pos: position{line: 1719, col: 66, offset: 55453},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39056,30 +39070,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1718, col: 73, offset: 55449},
+							pos: position{line: 1719, col: 73, offset: 55460},
 							expr: &choiceExpr{
-								pos: position{line: 1718, col: 75, offset: 55451},
+								pos: position{line: 1719, col: 75, offset: 55462},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90913},
+										pos: position{line: 2876, col: 12, offset: 90924},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90914},
+											pos: position{line: 2876, col: 13, offset: 90925},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90914},
+													pos:        position{line: 2876, col: 13, offset: 90925},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90921},
+													pos:        position{line: 2876, col: 20, offset: 90932},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90930},
+													pos:        position{line: 2876, col: 29, offset: 90941},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39088,13 +39102,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2885, col: 8, offset: 91090},
+										pos: position{line: 2886, col: 8, offset: 91101},
 										expr: &anyMatcher{
-											line: 2885, col: 9, offset: 91091,
+											line: 2886, col: 9, offset: 91102,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1718, col: 81, offset: 55457},
+										pos:  position{line: 1719, col: 81, offset: 55468},
 										name: "Callout",
 									},
 								},
@@ -39106,44 +39120,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1757, col: 1, offset: 56644},
+			pos:  position{line: 1758, col: 1, offset: 56655},
 			expr: &actionExpr{
-				pos: position{line: 1759, col: 5, offset: 56718},
+				pos: position{line: 1760, col: 5, offset: 56729},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1759, col: 5, offset: 56718},
+					pos: position{line: 1760, col: 5, offset: 56729},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1759, col: 5, offset: 56718},
+							pos: position{line: 1760, col: 5, offset: 56729},
 							expr: &seqExpr{
-								pos: position{line: 1759, col: 7, offset: 56720},
+								pos: position{line: 1760, col: 7, offset: 56731},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2756, col: 13, offset: 87837},
+										pos:        position{line: 2757, col: 13, offset: 87848},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1759, col: 16, offset: 56729},
+										pos: position{line: 1760, col: 16, offset: 56740},
 										expr: &seqExpr{
-											pos: position{line: 1759, col: 18, offset: 56731},
+											pos: position{line: 1760, col: 18, offset: 56742},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1759, col: 19, offset: 56732},
+													pos:        position{line: 1760, col: 19, offset: 56743},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2870, col: 11, offset: 90803},
+													pos: position{line: 2871, col: 11, offset: 90814},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2870, col: 11, offset: 90803},
+														pos: position{line: 2871, col: 11, offset: 90814},
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 11, offset: 90803},
+															pos:        position{line: 2871, col: 11, offset: 90814},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39158,88 +39172,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 56872},
+							pos:   position{line: 1761, col: 5, offset: 56883},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1760, col: 11, offset: 56878},
+								pos: position{line: 1761, col: 11, offset: 56889},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56127},
+									pos: position{line: 1739, col: 5, offset: 56138},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56127},
+										pos: position{line: 1739, col: 5, offset: 56138},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56127},
+												pos: position{line: 1739, col: 5, offset: 56138},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56190},
+												pos:   position{line: 1742, col: 5, offset: 56201},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56197},
+													pos: position{line: 1742, col: 12, offset: 56208},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56197},
+															pos: position{line: 1742, col: 12, offset: 56208},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56197},
+																pos:        position{line: 1742, col: 12, offset: 56208},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56253},
+															pos: position{line: 1744, col: 13, offset: 56264},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56253},
+																pos:        position{line: 1744, col: 13, offset: 56264},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56311},
+															pos: position{line: 1746, col: 13, offset: 56322},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56311},
+																pos:        position{line: 1746, col: 13, offset: 56322},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56379},
+															pos: position{line: 1748, col: 13, offset: 56390},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56379},
+																pos:        position{line: 1748, col: 13, offset: 56390},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56443},
+															pos: position{line: 1750, col: 13, offset: 56454},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56443},
+																pos:        position{line: 1750, col: 13, offset: 56454},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56507},
+															pos: position{line: 1752, col: 13, offset: 56518},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56507},
+																pos: position{line: 1752, col: 13, offset: 56518},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39253,17 +39267,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1753, col: 12, offset: 56587},
+												pos: position{line: 1754, col: 12, offset: 56598},
 												expr: &seqExpr{
-													pos: position{line: 1753, col: 14, offset: 56589},
+													pos: position{line: 1754, col: 14, offset: 56600},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1753, col: 14, offset: 56589},
+															pos: position{line: 1754, col: 14, offset: 56600},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39272,28 +39286,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91140},
+															pos: position{line: 2889, col: 8, offset: 91151},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90913},
+																	pos: position{line: 2876, col: 12, offset: 90924},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90914},
+																		pos: position{line: 2876, col: 13, offset: 90925},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				pos:        position{line: 2876, col: 13, offset: 90925},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				pos:        position{line: 2876, col: 20, offset: 90932},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				pos:        position{line: 2876, col: 29, offset: 90941},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39302,9 +39316,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -39318,24 +39332,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1761, col: 5, offset: 56900},
+							pos:   position{line: 1762, col: 5, offset: 56911},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1798, col: 5, offset: 58111},
+								pos: position{line: 1799, col: 5, offset: 58122},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1798, col: 5, offset: 58111},
+									pos: position{line: 1799, col: 5, offset: 58122},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1798, col: 5, offset: 58111},
+											pos:   position{line: 1799, col: 5, offset: 58122},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2816, col: 14, offset: 89335},
+												pos: position{line: 2817, col: 14, offset: 89346},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2816, col: 14, offset: 89335},
+													pos: position{line: 2817, col: 14, offset: 89346},
 													expr: &charClassMatcher{
-														pos:        position{line: 2816, col: 14, offset: 89335},
+														pos:        position{line: 2817, col: 14, offset: 89346},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39345,32 +39359,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1799, col: 5, offset: 58135},
+											pos: position{line: 1800, col: 5, offset: 58146},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2888, col: 8, offset: 91140},
+											pos: position{line: 2889, col: 8, offset: 91151},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2875, col: 12, offset: 90913},
+													pos: position{line: 2876, col: 12, offset: 90924},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 13, offset: 90914},
+														pos: position{line: 2876, col: 13, offset: 90925},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 13, offset: 90914},
+																pos:        position{line: 2876, col: 13, offset: 90925},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 20, offset: 90921},
+																pos:        position{line: 2876, col: 20, offset: 90932},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 29, offset: 90930},
+																pos:        position{line: 2876, col: 29, offset: 90941},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39379,9 +39393,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -39391,47 +39405,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1762, col: 5, offset: 56934},
+							pos: position{line: 1763, col: 5, offset: 56945},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1769, col: 5, offset: 57264},
+							pos:   position{line: 1770, col: 5, offset: 57275},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1769, col: 16, offset: 57275},
+								pos: position{line: 1770, col: 16, offset: 57286},
 								expr: &actionExpr{
-									pos: position{line: 1770, col: 9, offset: 57285},
+									pos: position{line: 1771, col: 9, offset: 57296},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1770, col: 9, offset: 57285},
+										pos: position{line: 1771, col: 9, offset: 57296},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91076},
+												pos: position{line: 2884, col: 11, offset: 91087},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91078,
+													line: 2884, col: 13, offset: 91089,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57301},
+												pos: position{line: 1772, col: 9, offset: 57312},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39440,28 +39454,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39470,9 +39484,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -39482,27 +39496,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57320},
+												pos: position{line: 1773, col: 9, offset: 57331},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1772, col: 10, offset: 57321},
+													pos:  position{line: 1773, col: 10, offset: 57332},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57345},
+												pos: position{line: 1774, col: 9, offset: 57356},
 												expr: &choiceExpr{
-													pos: position{line: 1773, col: 11, offset: 57347},
+													pos: position{line: 1774, col: 11, offset: 57358},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 724, col: 5, offset: 23080},
+															pos: position{line: 725, col: 5, offset: 23091},
 															run: (*parser).callonShortcutParagraph90,
 															expr: &seqExpr{
-																pos: position{line: 724, col: 5, offset: 23080},
+																pos: position{line: 725, col: 5, offset: 23091},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 724, col: 5, offset: 23080},
+																		pos: position{line: 725, col: 5, offset: 23091},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2756, col: 13, offset: 87837},
+																			pos:        position{line: 2757, col: 13, offset: 87848},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -39510,36 +39524,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 725, col: 5, offset: 23110},
+																		pos:   position{line: 726, col: 5, offset: 23121},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 726, col: 9, offset: 23130},
+																			pos: position{line: 727, col: 9, offset: 23141},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23622},
+																					pos: position{line: 741, col: 5, offset: 23633},
 																					run: (*parser).callonShortcutParagraph96,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23622},
+																						pos: position{line: 741, col: 5, offset: 23633},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23622},
+																								pos:   position{line: 741, col: 5, offset: 23633},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23633},
+																									pos: position{line: 741, col: 16, offset: 23644},
 																									run: (*parser).callonShortcutParagraph99,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23633},
+																										pos: position{line: 741, col: 16, offset: 23644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23633},
+																												pos:        position{line: 741, col: 16, offset: 23644},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23640},
+																												pos: position{line: 741, col: 23, offset: 23651},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23640},
+																													pos:        position{line: 741, col: 23, offset: 23651},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -39550,12 +39564,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23724},
+																								pos: position{line: 743, col: 8, offset: 23735},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39564,28 +39578,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39594,9 +39608,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -39605,30 +39619,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23870},
+																					pos: position{line: 748, col: 5, offset: 23881},
 																					run: (*parser).callonShortcutParagraph115,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23870},
+																						pos: position{line: 748, col: 5, offset: 23881},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23870},
+																								pos:   position{line: 748, col: 5, offset: 23881},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23881},
+																									pos: position{line: 748, col: 16, offset: 23892},
 																									run: (*parser).callonShortcutParagraph118,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23881},
+																										pos: position{line: 748, col: 16, offset: 23892},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23881},
+																												pos:        position{line: 748, col: 16, offset: 23892},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23888},
+																												pos: position{line: 748, col: 23, offset: 23899},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23888},
+																													pos:        position{line: 748, col: 23, offset: 23899},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -39639,12 +39653,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23972},
+																								pos: position{line: 750, col: 8, offset: 23983},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39653,28 +39667,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39683,9 +39697,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -39694,27 +39708,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 760, col: 26, offset: 24358},
+																					pos: position{line: 761, col: 26, offset: 24369},
 																					run: (*parser).callonShortcutParagraph134,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 26, offset: 24358},
+																						pos: position{line: 761, col: 26, offset: 24369},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 760, col: 26, offset: 24358},
+																								pos:        position{line: 761, col: 26, offset: 24369},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 32, offset: 24364},
+																								pos:   position{line: 761, col: 32, offset: 24375},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 13, offset: 24494},
+																									pos: position{line: 765, col: 13, offset: 24505},
 																									run: (*parser).callonShortcutParagraph138,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 764, col: 14, offset: 24495},
+																										pos: position{line: 765, col: 14, offset: 24506},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 764, col: 14, offset: 24495},
+																											pos:        position{line: 765, col: 14, offset: 24506},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -39724,12 +39738,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 760, col: 52, offset: 24384},
+																								pos: position{line: 761, col: 52, offset: 24395},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39738,28 +39752,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39768,9 +39782,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -39779,30 +39793,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24117},
+																					pos: position{line: 755, col: 5, offset: 24128},
 																					run: (*parser).callonShortcutParagraph152,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24117},
+																						pos: position{line: 755, col: 5, offset: 24128},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24117},
+																								pos:   position{line: 755, col: 5, offset: 24128},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24128},
+																									pos: position{line: 755, col: 16, offset: 24139},
 																									run: (*parser).callonShortcutParagraph155,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24128},
+																										pos: position{line: 755, col: 16, offset: 24139},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24128},
+																												pos:        position{line: 755, col: 16, offset: 24139},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24134},
+																												pos: position{line: 755, col: 22, offset: 24145},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24134},
+																													pos:        position{line: 755, col: 22, offset: 24145},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -39813,12 +39827,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24218},
+																								pos: position{line: 757, col: 8, offset: 24229},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39827,28 +39841,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39857,9 +39871,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -39868,30 +39882,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24654},
+																					pos: position{line: 770, col: 5, offset: 24665},
 																					run: (*parser).callonShortcutParagraph171,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24654},
+																						pos: position{line: 770, col: 5, offset: 24665},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24654},
+																								pos:   position{line: 770, col: 5, offset: 24665},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24665},
+																									pos: position{line: 770, col: 16, offset: 24676},
 																									run: (*parser).callonShortcutParagraph174,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24665},
+																										pos: position{line: 770, col: 16, offset: 24676},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24665},
+																												pos:        position{line: 770, col: 16, offset: 24676},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24672},
+																												pos: position{line: 770, col: 23, offset: 24683},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24672},
+																													pos:        position{line: 770, col: 23, offset: 24683},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -39902,12 +39916,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24756},
+																								pos: position{line: 772, col: 8, offset: 24767},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39916,28 +39930,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39946,9 +39960,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -39957,30 +39971,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25130},
+																					pos: position{line: 784, col: 5, offset: 25141},
 																					run: (*parser).callonShortcutParagraph190,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25130},
+																						pos: position{line: 784, col: 5, offset: 25141},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25130},
+																								pos:   position{line: 784, col: 5, offset: 25141},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25141},
+																									pos: position{line: 784, col: 16, offset: 25152},
 																									run: (*parser).callonShortcutParagraph193,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25141},
+																										pos: position{line: 784, col: 16, offset: 25152},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25141},
+																												pos:        position{line: 784, col: 16, offset: 25152},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25148},
+																												pos: position{line: 784, col: 23, offset: 25159},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25148},
+																													pos:        position{line: 784, col: 23, offset: 25159},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -39991,12 +40005,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25232},
+																								pos: position{line: 786, col: 8, offset: 25243},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40005,28 +40019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40035,9 +40049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -40046,30 +40060,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25382},
+																					pos: position{line: 791, col: 5, offset: 25393},
 																					run: (*parser).callonShortcutParagraph209,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25382},
+																						pos: position{line: 791, col: 5, offset: 25393},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25382},
+																								pos:   position{line: 791, col: 5, offset: 25393},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25393},
+																									pos: position{line: 791, col: 16, offset: 25404},
 																									run: (*parser).callonShortcutParagraph212,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25393},
+																										pos: position{line: 791, col: 16, offset: 25404},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25393},
+																												pos:        position{line: 791, col: 16, offset: 25404},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25400},
+																												pos: position{line: 791, col: 23, offset: 25411},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25400},
+																													pos:        position{line: 791, col: 23, offset: 25411},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -40080,12 +40094,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25484},
+																								pos: position{line: 793, col: 8, offset: 25495},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40094,28 +40108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40124,9 +40138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -40135,30 +40149,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25632},
+																					pos: position{line: 798, col: 5, offset: 25643},
 																					run: (*parser).callonShortcutParagraph228,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25632},
+																						pos: position{line: 798, col: 5, offset: 25643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25632},
+																								pos:   position{line: 798, col: 5, offset: 25643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25643},
+																									pos: position{line: 798, col: 16, offset: 25654},
 																									run: (*parser).callonShortcutParagraph231,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25643},
+																										pos: position{line: 798, col: 16, offset: 25654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25643},
+																												pos:        position{line: 798, col: 16, offset: 25654},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25650},
+																												pos: position{line: 798, col: 23, offset: 25661},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25650},
+																													pos:        position{line: 798, col: 23, offset: 25661},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -40169,12 +40183,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25734},
+																								pos: position{line: 800, col: 8, offset: 25745},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40183,28 +40197,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40213,9 +40227,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -40224,30 +40238,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25878},
+																					pos: position{line: 805, col: 5, offset: 25889},
 																					run: (*parser).callonShortcutParagraph247,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25878},
+																						pos: position{line: 805, col: 5, offset: 25889},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25878},
+																								pos:   position{line: 805, col: 5, offset: 25889},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25889},
+																									pos: position{line: 805, col: 16, offset: 25900},
 																									run: (*parser).callonShortcutParagraph250,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25889},
+																										pos: position{line: 805, col: 16, offset: 25900},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25889},
+																												pos:        position{line: 805, col: 16, offset: 25900},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25896},
+																												pos: position{line: 805, col: 23, offset: 25907},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25896},
+																													pos:        position{line: 805, col: 23, offset: 25907},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -40258,12 +40272,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25980},
+																								pos: position{line: 807, col: 8, offset: 25991},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40272,28 +40286,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40302,9 +40316,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -40319,19 +40333,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 776, col: 5, offset: 24899},
+															pos: position{line: 777, col: 5, offset: 24910},
 															run: (*parser).callonShortcutParagraph266,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24899},
+																pos: position{line: 777, col: 5, offset: 24910},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24899},
+																		pos:   position{line: 777, col: 5, offset: 24910},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24910},
+																			pos: position{line: 777, col: 16, offset: 24921},
 																			run: (*parser).callonShortcutParagraph269,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24910},
+																				pos:        position{line: 777, col: 16, offset: 24921},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -40339,12 +40353,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24987},
+																		pos: position{line: 779, col: 8, offset: 24998},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40353,28 +40367,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40383,9 +40397,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -40394,21 +40408,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2608, col: 19, offset: 83425},
+															pos: position{line: 2609, col: 19, offset: 83436},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2608, col: 19, offset: 83425},
+																	pos:        position{line: 2609, col: 19, offset: 83436},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2608, col: 26, offset: 83432},
+																	pos: position{line: 2609, col: 26, offset: 83443},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40417,28 +40431,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40447,9 +40461,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -40460,23 +40474,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57409},
+												pos: position{line: 1775, col: 9, offset: 57420},
 												expr: &seqExpr{
-													pos: position{line: 1549, col: 27, offset: 50049},
+													pos: position{line: 1550, col: 27, offset: 50060},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1549, col: 27, offset: 50049},
+															pos:        position{line: 1550, col: 27, offset: 50060},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1549, col: 31, offset: 50053},
+															pos: position{line: 1550, col: 31, offset: 50064},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40485,25 +40499,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40515,42 +40529,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1775, col: 9, offset: 57441},
+												pos:   position{line: 1776, col: 9, offset: 57452},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1775, col: 15, offset: 57447},
+													pos: position{line: 1776, col: 15, offset: 57458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2476, col: 22, offset: 79727},
+															pos: position{line: 2477, col: 22, offset: 79738},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2476, col: 22, offset: 79727},
+																pos: position{line: 2477, col: 22, offset: 79738},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2481, col: 31, offset: 79948},
+																		pos:        position{line: 2482, col: 31, offset: 79959},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2481, col: 36, offset: 79953},
+																		pos: position{line: 2482, col: 36, offset: 79964},
 																		expr: &litMatcher{
-																			pos:        position{line: 2481, col: 37, offset: 79954},
+																			pos:        position{line: 2482, col: 37, offset: 79965},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2476, col: 49, offset: 79754},
+																		pos:   position{line: 2477, col: 49, offset: 79765},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89268},
+																			pos: position{line: 2813, col: 13, offset: 89279},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89268},
+																				pos: position{line: 2813, col: 13, offset: 89279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89268},
+																					pos:        position{line: 2813, col: 13, offset: 89279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40560,28 +40574,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40590,9 +40604,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -40601,21 +40615,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1798, col: 5, offset: 58111},
+															pos: position{line: 1799, col: 5, offset: 58122},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1798, col: 5, offset: 58111},
+																pos: position{line: 1799, col: 5, offset: 58122},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1798, col: 5, offset: 58111},
+																		pos:   position{line: 1799, col: 5, offset: 58122},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89335},
+																			pos: position{line: 2817, col: 14, offset: 89346},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89335},
+																				pos: position{line: 2817, col: 14, offset: 89346},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89335},
+																					pos:        position{line: 2817, col: 14, offset: 89346},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40625,32 +40639,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1799, col: 5, offset: 58135},
+																		pos: position{line: 1800, col: 5, offset: 58146},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40659,9 +40673,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -40683,96 +40697,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1782, col: 1, offset: 57651},
+			pos:  position{line: 1783, col: 1, offset: 57662},
 			expr: &actionExpr{
-				pos: position{line: 1783, col: 5, offset: 57669},
+				pos: position{line: 1784, col: 5, offset: 57680},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1783, col: 5, offset: 57669},
+					pos: position{line: 1784, col: 5, offset: 57680},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57669},
+							pos:   position{line: 1784, col: 5, offset: 57680},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1783, col: 11, offset: 57675},
+								pos: position{line: 1784, col: 11, offset: 57686},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56127},
+									pos: position{line: 1739, col: 5, offset: 56138},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56127},
+										pos: position{line: 1739, col: 5, offset: 56138},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56127},
+												pos: position{line: 1739, col: 5, offset: 56138},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56190},
+												pos:   position{line: 1742, col: 5, offset: 56201},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56197},
+													pos: position{line: 1742, col: 12, offset: 56208},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56197},
+															pos: position{line: 1742, col: 12, offset: 56208},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56197},
+																pos:        position{line: 1742, col: 12, offset: 56208},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56253},
+															pos: position{line: 1744, col: 13, offset: 56264},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56253},
+																pos:        position{line: 1744, col: 13, offset: 56264},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56311},
+															pos: position{line: 1746, col: 13, offset: 56322},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56311},
+																pos:        position{line: 1746, col: 13, offset: 56322},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56379},
+															pos: position{line: 1748, col: 13, offset: 56390},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56379},
+																pos:        position{line: 1748, col: 13, offset: 56390},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56443},
+															pos: position{line: 1750, col: 13, offset: 56454},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56443},
+																pos:        position{line: 1750, col: 13, offset: 56454},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56507},
+															pos: position{line: 1752, col: 13, offset: 56518},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56507},
+																pos: position{line: 1752, col: 13, offset: 56518},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90803},
+																	pos: position{line: 2871, col: 11, offset: 90814},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90803},
+																		pos: position{line: 2871, col: 11, offset: 90814},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90803},
+																			pos:        position{line: 2871, col: 11, offset: 90814},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40786,17 +40800,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1753, col: 12, offset: 56587},
+												pos: position{line: 1754, col: 12, offset: 56598},
 												expr: &seqExpr{
-													pos: position{line: 1753, col: 14, offset: 56589},
+													pos: position{line: 1754, col: 14, offset: 56600},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1753, col: 14, offset: 56589},
+															pos: position{line: 1754, col: 14, offset: 56600},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40805,28 +40819,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91140},
+															pos: position{line: 2889, col: 8, offset: 91151},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90913},
+																	pos: position{line: 2876, col: 12, offset: 90924},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90914},
+																		pos: position{line: 2876, col: 13, offset: 90925},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				pos:        position{line: 2876, col: 13, offset: 90925},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				pos:        position{line: 2876, col: 20, offset: 90932},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				pos:        position{line: 2876, col: 29, offset: 90941},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40835,9 +40849,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -40851,24 +40865,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57698},
+							pos:   position{line: 1785, col: 5, offset: 57709},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1798, col: 5, offset: 58111},
+								pos: position{line: 1799, col: 5, offset: 58122},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1798, col: 5, offset: 58111},
+									pos: position{line: 1799, col: 5, offset: 58122},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1798, col: 5, offset: 58111},
+											pos:   position{line: 1799, col: 5, offset: 58122},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2816, col: 14, offset: 89335},
+												pos: position{line: 2817, col: 14, offset: 89346},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2816, col: 14, offset: 89335},
+													pos: position{line: 2817, col: 14, offset: 89346},
 													expr: &charClassMatcher{
-														pos:        position{line: 2816, col: 14, offset: 89335},
+														pos:        position{line: 2817, col: 14, offset: 89346},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40878,32 +40892,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1799, col: 5, offset: 58135},
+											pos: position{line: 1800, col: 5, offset: 58146},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2888, col: 8, offset: 91140},
+											pos: position{line: 2889, col: 8, offset: 91151},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2875, col: 12, offset: 90913},
+													pos: position{line: 2876, col: 12, offset: 90924},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 13, offset: 90914},
+														pos: position{line: 2876, col: 13, offset: 90925},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 13, offset: 90914},
+																pos:        position{line: 2876, col: 13, offset: 90925},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 20, offset: 90921},
+																pos:        position{line: 2876, col: 20, offset: 90932},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 29, offset: 90930},
+																pos:        position{line: 2876, col: 29, offset: 90941},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40912,9 +40926,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91090},
+													pos: position{line: 2886, col: 8, offset: 91101},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91091,
+														line: 2886, col: 9, offset: 91102,
 													},
 												},
 											},
@@ -40924,43 +40938,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1785, col: 5, offset: 57732},
+							pos:   position{line: 1786, col: 5, offset: 57743},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1785, col: 16, offset: 57743},
+								pos: position{line: 1786, col: 16, offset: 57754},
 								expr: &actionExpr{
-									pos: position{line: 1786, col: 9, offset: 57753},
+									pos: position{line: 1787, col: 9, offset: 57764},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1786, col: 9, offset: 57753},
+										pos: position{line: 1787, col: 9, offset: 57764},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91076},
+												pos: position{line: 2884, col: 11, offset: 91087},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91078,
+													line: 2884, col: 13, offset: 91089,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57768},
+												pos: position{line: 1788, col: 9, offset: 57779},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21508},
+													pos: position{line: 678, col: 14, offset: 21519},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21508},
+														pos: position{line: 678, col: 14, offset: 21519},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91076},
+																pos: position{line: 2884, col: 11, offset: 91087},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91078,
+																	line: 2884, col: 13, offset: 91089,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21515},
+																pos: position{line: 678, col: 21, offset: 21526},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40969,28 +40983,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91140},
+																pos: position{line: 2889, col: 8, offset: 91151},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90913},
+																		pos: position{line: 2876, col: 12, offset: 90924},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90914},
+																			pos: position{line: 2876, col: 13, offset: 90925},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90914},
+																					pos:        position{line: 2876, col: 13, offset: 90925},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90921},
+																					pos:        position{line: 2876, col: 20, offset: 90932},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90930},
+																					pos:        position{line: 2876, col: 29, offset: 90941},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40999,9 +41013,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91090},
+																		pos: position{line: 2886, col: 8, offset: 91101},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91091,
+																			line: 2886, col: 9, offset: 91102,
 																		},
 																	},
 																},
@@ -41011,27 +41025,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57787},
+												pos: position{line: 1789, col: 9, offset: 57798},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1788, col: 10, offset: 57788},
+													pos:  position{line: 1789, col: 10, offset: 57799},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1789, col: 9, offset: 57812},
+												pos: position{line: 1790, col: 9, offset: 57823},
 												expr: &choiceExpr{
-													pos: position{line: 1789, col: 11, offset: 57814},
+													pos: position{line: 1790, col: 11, offset: 57825},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 724, col: 5, offset: 23080},
+															pos: position{line: 725, col: 5, offset: 23091},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 724, col: 5, offset: 23080},
+																pos: position{line: 725, col: 5, offset: 23091},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 724, col: 5, offset: 23080},
+																		pos: position{line: 725, col: 5, offset: 23091},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2756, col: 13, offset: 87837},
+																			pos:        position{line: 2757, col: 13, offset: 87848},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41039,36 +41053,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 725, col: 5, offset: 23110},
+																		pos:   position{line: 726, col: 5, offset: 23121},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 726, col: 9, offset: 23130},
+																			pos: position{line: 727, col: 9, offset: 23141},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23622},
+																					pos: position{line: 741, col: 5, offset: 23633},
 																					run: (*parser).callonParagraph86,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23622},
+																						pos: position{line: 741, col: 5, offset: 23633},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23622},
+																								pos:   position{line: 741, col: 5, offset: 23633},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23633},
+																									pos: position{line: 741, col: 16, offset: 23644},
 																									run: (*parser).callonParagraph89,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23633},
+																										pos: position{line: 741, col: 16, offset: 23644},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23633},
+																												pos:        position{line: 741, col: 16, offset: 23644},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23640},
+																												pos: position{line: 741, col: 23, offset: 23651},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23640},
+																													pos:        position{line: 741, col: 23, offset: 23651},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -41079,12 +41093,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23724},
+																								pos: position{line: 743, col: 8, offset: 23735},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41093,28 +41107,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41123,9 +41137,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41134,30 +41148,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23870},
+																					pos: position{line: 748, col: 5, offset: 23881},
 																					run: (*parser).callonParagraph105,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23870},
+																						pos: position{line: 748, col: 5, offset: 23881},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23870},
+																								pos:   position{line: 748, col: 5, offset: 23881},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23881},
+																									pos: position{line: 748, col: 16, offset: 23892},
 																									run: (*parser).callonParagraph108,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23881},
+																										pos: position{line: 748, col: 16, offset: 23892},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23881},
+																												pos:        position{line: 748, col: 16, offset: 23892},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23888},
+																												pos: position{line: 748, col: 23, offset: 23899},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23888},
+																													pos:        position{line: 748, col: 23, offset: 23899},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -41168,12 +41182,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23972},
+																								pos: position{line: 750, col: 8, offset: 23983},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41182,28 +41196,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41212,9 +41226,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41223,27 +41237,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 760, col: 26, offset: 24358},
+																					pos: position{line: 761, col: 26, offset: 24369},
 																					run: (*parser).callonParagraph124,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 26, offset: 24358},
+																						pos: position{line: 761, col: 26, offset: 24369},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 760, col: 26, offset: 24358},
+																								pos:        position{line: 761, col: 26, offset: 24369},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 32, offset: 24364},
+																								pos:   position{line: 761, col: 32, offset: 24375},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 13, offset: 24494},
+																									pos: position{line: 765, col: 13, offset: 24505},
 																									run: (*parser).callonParagraph128,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 764, col: 14, offset: 24495},
+																										pos: position{line: 765, col: 14, offset: 24506},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 764, col: 14, offset: 24495},
+																											pos:        position{line: 765, col: 14, offset: 24506},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -41253,12 +41267,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 760, col: 52, offset: 24384},
+																								pos: position{line: 761, col: 52, offset: 24395},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41267,28 +41281,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41297,9 +41311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41308,30 +41322,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24117},
+																					pos: position{line: 755, col: 5, offset: 24128},
 																					run: (*parser).callonParagraph142,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24117},
+																						pos: position{line: 755, col: 5, offset: 24128},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24117},
+																								pos:   position{line: 755, col: 5, offset: 24128},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24128},
+																									pos: position{line: 755, col: 16, offset: 24139},
 																									run: (*parser).callonParagraph145,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24128},
+																										pos: position{line: 755, col: 16, offset: 24139},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24128},
+																												pos:        position{line: 755, col: 16, offset: 24139},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24134},
+																												pos: position{line: 755, col: 22, offset: 24145},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24134},
+																													pos:        position{line: 755, col: 22, offset: 24145},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -41342,12 +41356,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24218},
+																								pos: position{line: 757, col: 8, offset: 24229},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41356,28 +41370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41386,9 +41400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41397,30 +41411,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24654},
+																					pos: position{line: 770, col: 5, offset: 24665},
 																					run: (*parser).callonParagraph161,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24654},
+																						pos: position{line: 770, col: 5, offset: 24665},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24654},
+																								pos:   position{line: 770, col: 5, offset: 24665},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24665},
+																									pos: position{line: 770, col: 16, offset: 24676},
 																									run: (*parser).callonParagraph164,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24665},
+																										pos: position{line: 770, col: 16, offset: 24676},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24665},
+																												pos:        position{line: 770, col: 16, offset: 24676},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24672},
+																												pos: position{line: 770, col: 23, offset: 24683},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24672},
+																													pos:        position{line: 770, col: 23, offset: 24683},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -41431,12 +41445,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24756},
+																								pos: position{line: 772, col: 8, offset: 24767},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41445,28 +41459,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41475,9 +41489,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41486,30 +41500,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25130},
+																					pos: position{line: 784, col: 5, offset: 25141},
 																					run: (*parser).callonParagraph180,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25130},
+																						pos: position{line: 784, col: 5, offset: 25141},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25130},
+																								pos:   position{line: 784, col: 5, offset: 25141},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25141},
+																									pos: position{line: 784, col: 16, offset: 25152},
 																									run: (*parser).callonParagraph183,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25141},
+																										pos: position{line: 784, col: 16, offset: 25152},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25141},
+																												pos:        position{line: 784, col: 16, offset: 25152},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25148},
+																												pos: position{line: 784, col: 23, offset: 25159},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25148},
+																													pos:        position{line: 784, col: 23, offset: 25159},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -41520,12 +41534,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25232},
+																								pos: position{line: 786, col: 8, offset: 25243},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41534,28 +41548,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41564,9 +41578,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41575,30 +41589,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25382},
+																					pos: position{line: 791, col: 5, offset: 25393},
 																					run: (*parser).callonParagraph199,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25382},
+																						pos: position{line: 791, col: 5, offset: 25393},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25382},
+																								pos:   position{line: 791, col: 5, offset: 25393},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25393},
+																									pos: position{line: 791, col: 16, offset: 25404},
 																									run: (*parser).callonParagraph202,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25393},
+																										pos: position{line: 791, col: 16, offset: 25404},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25393},
+																												pos:        position{line: 791, col: 16, offset: 25404},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25400},
+																												pos: position{line: 791, col: 23, offset: 25411},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25400},
+																													pos:        position{line: 791, col: 23, offset: 25411},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -41609,12 +41623,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25484},
+																								pos: position{line: 793, col: 8, offset: 25495},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41623,28 +41637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41653,9 +41667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41664,30 +41678,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25632},
+																					pos: position{line: 798, col: 5, offset: 25643},
 																					run: (*parser).callonParagraph218,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25632},
+																						pos: position{line: 798, col: 5, offset: 25643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25632},
+																								pos:   position{line: 798, col: 5, offset: 25643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25643},
+																									pos: position{line: 798, col: 16, offset: 25654},
 																									run: (*parser).callonParagraph221,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25643},
+																										pos: position{line: 798, col: 16, offset: 25654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25643},
+																												pos:        position{line: 798, col: 16, offset: 25654},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25650},
+																												pos: position{line: 798, col: 23, offset: 25661},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25650},
+																													pos:        position{line: 798, col: 23, offset: 25661},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -41698,12 +41712,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25734},
+																								pos: position{line: 800, col: 8, offset: 25745},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41712,28 +41726,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41742,9 +41756,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41753,30 +41767,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25878},
+																					pos: position{line: 805, col: 5, offset: 25889},
 																					run: (*parser).callonParagraph237,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25878},
+																						pos: position{line: 805, col: 5, offset: 25889},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25878},
+																								pos:   position{line: 805, col: 5, offset: 25889},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25889},
+																									pos: position{line: 805, col: 16, offset: 25900},
 																									run: (*parser).callonParagraph240,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25889},
+																										pos: position{line: 805, col: 16, offset: 25900},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25889},
+																												pos:        position{line: 805, col: 16, offset: 25900},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25896},
+																												pos: position{line: 805, col: 23, offset: 25907},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25896},
+																													pos:        position{line: 805, col: 23, offset: 25907},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -41787,12 +41801,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25980},
+																								pos: position{line: 807, col: 8, offset: 25991},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90742},
+																									pos: position{line: 2867, col: 10, offset: 90753},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90742},
+																										pos:        position{line: 2867, col: 10, offset: 90753},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41801,28 +41815,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91140},
+																								pos: position{line: 2889, col: 8, offset: 91151},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90913},
+																										pos: position{line: 2876, col: 12, offset: 90924},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90914},
+																											pos: position{line: 2876, col: 13, offset: 90925},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90914},
+																													pos:        position{line: 2876, col: 13, offset: 90925},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90921},
+																													pos:        position{line: 2876, col: 20, offset: 90932},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90930},
+																													pos:        position{line: 2876, col: 29, offset: 90941},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41831,9 +41845,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91090},
+																										pos: position{line: 2886, col: 8, offset: 91101},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91091,
+																											line: 2886, col: 9, offset: 91102,
 																										},
 																									},
 																								},
@@ -41848,19 +41862,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 776, col: 5, offset: 24899},
+															pos: position{line: 777, col: 5, offset: 24910},
 															run: (*parser).callonParagraph256,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24899},
+																pos: position{line: 777, col: 5, offset: 24910},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24899},
+																		pos:   position{line: 777, col: 5, offset: 24910},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24910},
+																			pos: position{line: 777, col: 16, offset: 24921},
 																			run: (*parser).callonParagraph259,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24910},
+																				pos:        position{line: 777, col: 16, offset: 24921},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -41868,12 +41882,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24987},
+																		pos: position{line: 779, col: 8, offset: 24998},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41882,28 +41896,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41912,9 +41926,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -41923,21 +41937,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2608, col: 19, offset: 83425},
+															pos: position{line: 2609, col: 19, offset: 83436},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2608, col: 19, offset: 83425},
+																	pos:        position{line: 2609, col: 19, offset: 83436},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2608, col: 26, offset: 83432},
+																	pos: position{line: 2609, col: 26, offset: 83443},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41946,28 +41960,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41976,9 +41990,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -41989,42 +42003,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1790, col: 9, offset: 57876},
+												pos:   position{line: 1791, col: 9, offset: 57887},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1790, col: 15, offset: 57882},
+													pos: position{line: 1791, col: 15, offset: 57893},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2476, col: 22, offset: 79727},
+															pos: position{line: 2477, col: 22, offset: 79738},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2476, col: 22, offset: 79727},
+																pos: position{line: 2477, col: 22, offset: 79738},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2481, col: 31, offset: 79948},
+																		pos:        position{line: 2482, col: 31, offset: 79959},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2481, col: 36, offset: 79953},
+																		pos: position{line: 2482, col: 36, offset: 79964},
 																		expr: &litMatcher{
-																			pos:        position{line: 2481, col: 37, offset: 79954},
+																			pos:        position{line: 2482, col: 37, offset: 79965},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2476, col: 49, offset: 79754},
+																		pos:   position{line: 2477, col: 49, offset: 79765},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89268},
+																			pos: position{line: 2813, col: 13, offset: 89279},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89268},
+																				pos: position{line: 2813, col: 13, offset: 89279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89268},
+																					pos:        position{line: 2813, col: 13, offset: 89279},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42034,28 +42048,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42064,9 +42078,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -42075,21 +42089,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1798, col: 5, offset: 58111},
+															pos: position{line: 1799, col: 5, offset: 58122},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1798, col: 5, offset: 58111},
+																pos: position{line: 1799, col: 5, offset: 58122},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1798, col: 5, offset: 58111},
+																		pos:   position{line: 1799, col: 5, offset: 58122},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89335},
+																			pos: position{line: 2817, col: 14, offset: 89346},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89335},
+																				pos: position{line: 2817, col: 14, offset: 89346},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89335},
+																					pos:        position{line: 2817, col: 14, offset: 89346},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42099,32 +42113,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1799, col: 5, offset: 58135},
+																		pos: position{line: 1800, col: 5, offset: 58146},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91140},
+																		pos: position{line: 2889, col: 8, offset: 91151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42133,9 +42147,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91090},
+																				pos: position{line: 2886, col: 8, offset: 91101},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91091,
+																					line: 2886, col: 9, offset: 91102,
 																				},
 																			},
 																		},
@@ -42157,16 +42171,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1809, col: 1, offset: 58618},
+			pos:  position{line: 1810, col: 1, offset: 58629},
 			expr: &choiceExpr{
-				pos: position{line: 1809, col: 15, offset: 58632},
+				pos: position{line: 1810, col: 15, offset: 58643},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1809, col: 15, offset: 58632},
+						pos:  position{line: 1810, col: 15, offset: 58643},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1809, col: 35, offset: 58652},
+						pos:  position{line: 1810, col: 35, offset: 58663},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42174,65 +42188,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1811, col: 1, offset: 58673},
+			pos:  position{line: 1812, col: 1, offset: 58684},
 			expr: &actionExpr{
-				pos: position{line: 1812, col: 5, offset: 58698},
+				pos: position{line: 1813, col: 5, offset: 58709},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1812, col: 5, offset: 58698},
+					pos: position{line: 1813, col: 5, offset: 58709},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1812, col: 5, offset: 58698},
+							pos:   position{line: 1813, col: 5, offset: 58709},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1812, col: 16, offset: 58709},
+								pos: position{line: 1813, col: 16, offset: 58720},
 								expr: &actionExpr{
-									pos: position{line: 1812, col: 17, offset: 58710},
+									pos: position{line: 1813, col: 17, offset: 58721},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1812, col: 17, offset: 58710},
+										pos:  position{line: 1813, col: 17, offset: 58721},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1815, col: 5, offset: 58778},
+							pos: position{line: 1816, col: 5, offset: 58789},
 							expr: &litMatcher{
-								pos:        position{line: 1815, col: 7, offset: 58780},
+								pos:        position{line: 1816, col: 7, offset: 58791},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1816, col: 5, offset: 58789},
+							pos:   position{line: 1817, col: 5, offset: 58800},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1817, col: 9, offset: 58807},
+								pos: position{line: 1818, col: 9, offset: 58818},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 9, offset: 58807},
+										pos:  position{line: 1818, col: 9, offset: 58818},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58834},
+										pos:  position{line: 1819, col: 11, offset: 58845},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58862},
+										pos:  position{line: 1820, col: 11, offset: 58873},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58893},
+										pos:  position{line: 1821, col: 11, offset: 58904},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 58921},
+										pos:  position{line: 1822, col: 11, offset: 58932},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 11, offset: 58952},
+										pos:  position{line: 1823, col: 11, offset: 58963},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42244,36 +42258,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1827, col: 1, offset: 59072},
+			pos:  position{line: 1828, col: 1, offset: 59083},
 			expr: &actionExpr{
-				pos: position{line: 1828, col: 5, offset: 59114},
+				pos: position{line: 1829, col: 5, offset: 59125},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1828, col: 5, offset: 59114},
+					pos: position{line: 1829, col: 5, offset: 59125},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1828, col: 5, offset: 59114},
+							pos:   position{line: 1829, col: 5, offset: 59125},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1828, col: 16, offset: 59125},
+								pos: position{line: 1829, col: 16, offset: 59136},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1828, col: 17, offset: 59126},
+									pos:  position{line: 1829, col: 17, offset: 59137},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1829, col: 5, offset: 59151},
+							pos:   position{line: 1830, col: 5, offset: 59162},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1829, col: 14, offset: 59160},
+								pos: position{line: 1830, col: 14, offset: 59171},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1829, col: 14, offset: 59160},
+										pos:  position{line: 1830, col: 14, offset: 59171},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1829, col: 33, offset: 59179},
+										pos:  position{line: 1830, col: 33, offset: 59190},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42285,32 +42299,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59410},
+			pos:  position{line: 1838, col: 1, offset: 59421},
 			expr: &choiceExpr{
-				pos: position{line: 1838, col: 5, offset: 59435},
+				pos: position{line: 1839, col: 5, offset: 59446},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 5, offset: 59435},
+						pos:  position{line: 1839, col: 5, offset: 59446},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59462},
+						pos:  position{line: 1840, col: 7, offset: 59473},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59490},
+						pos:  position{line: 1841, col: 7, offset: 59501},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59522},
+						pos:  position{line: 1842, col: 7, offset: 59533},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59550},
+						pos:  position{line: 1843, col: 7, offset: 59561},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59571},
+						pos:  position{line: 1844, col: 7, offset: 59582},
 						name: "SuperscriptText",
 					},
 				},
@@ -42318,24 +42332,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1845, col: 1, offset: 59589},
+			pos:  position{line: 1846, col: 1, offset: 59600},
 			expr: &choiceExpr{
-				pos: position{line: 1846, col: 5, offset: 59614},
+				pos: position{line: 1847, col: 5, offset: 59625},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 5, offset: 59614},
+						pos:  position{line: 1847, col: 5, offset: 59625},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59640},
+						pos:  position{line: 1848, col: 7, offset: 59651},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59668},
+						pos:  position{line: 1849, col: 7, offset: 59679},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59699},
+						pos:  position{line: 1850, col: 7, offset: 59710},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42343,26 +42357,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1863, col: 1, offset: 60053},
+			pos:  position{line: 1864, col: 1, offset: 60064},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60079},
+				pos: position{line: 1865, col: 5, offset: 60090},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2765, col: 5, offset: 87984},
+						pos: position{line: 2766, col: 5, offset: 87995},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2765, col: 5, offset: 87984},
+							pos: position{line: 2766, col: 5, offset: 87995},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2765, col: 5, offset: 87984},
+									pos:   position{line: 2766, col: 5, offset: 87995},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2765, col: 11, offset: 87990},
+										pos: position{line: 2766, col: 11, offset: 88001},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2765, col: 11, offset: 87990},
+											pos: position{line: 2766, col: 11, offset: 88001},
 											expr: &charClassMatcher{
-												pos:        position{line: 2765, col: 11, offset: 87990},
+												pos:        position{line: 2766, col: 11, offset: 88001},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42372,36 +42386,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2768, col: 5, offset: 88048},
+									pos: position{line: 2769, col: 5, offset: 88059},
 									expr: &seqExpr{
-										pos: position{line: 2769, col: 9, offset: 88059},
+										pos: position{line: 2770, col: 9, offset: 88070},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2769, col: 9, offset: 88059},
+												pos:        position{line: 2770, col: 9, offset: 88070},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2770, col: 9, offset: 88108},
+												pos: position{line: 2771, col: 9, offset: 88119},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2774, col: 5, offset: 88188},
+									pos: position{line: 2775, col: 5, offset: 88199},
 									expr: &seqExpr{
-										pos: position{line: 2775, col: 9, offset: 88199},
+										pos: position{line: 2776, col: 9, offset: 88210},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2775, col: 9, offset: 88199},
+												pos:        position{line: 2776, col: 9, offset: 88210},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2775, col: 13, offset: 88203},
+												pos:        position{line: 2776, col: 13, offset: 88214},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42414,12 +42428,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2870, col: 11, offset: 90803},
+						pos: position{line: 2871, col: 11, offset: 90814},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2870, col: 11, offset: 90803},
+							pos: position{line: 2871, col: 11, offset: 90814},
 							expr: &charClassMatcher{
-								pos:        position{line: 2870, col: 11, offset: 90803},
+								pos:        position{line: 2871, col: 11, offset: 90814},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42428,25 +42442,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60142},
+						pos:  position{line: 1867, col: 7, offset: 60153},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2494, col: 5, offset: 80444},
+						pos: position{line: 2495, col: 5, offset: 80455},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2494, col: 5, offset: 80444},
+							pos: position{line: 2495, col: 5, offset: 80455},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2494, col: 5, offset: 80444},
+									pos:        position{line: 2495, col: 5, offset: 80455},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2494, col: 10, offset: 80449},
+									pos: position{line: 2495, col: 10, offset: 80460},
 									expr: &charClassMatcher{
-										pos:        position{line: 2494, col: 11, offset: 80450},
+										pos:        position{line: 2495, col: 11, offset: 80461},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42457,29 +42471,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2500, col: 5, offset: 80642},
+						pos: position{line: 2501, col: 5, offset: 80653},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2500, col: 5, offset: 80642},
+							pos: position{line: 2501, col: 5, offset: 80653},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2500, col: 5, offset: 80642},
+									pos: position{line: 2501, col: 5, offset: 80653},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2503, col: 5, offset: 80713},
+									pos: position{line: 2504, col: 5, offset: 80724},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2507, col: 5, offset: 80838},
+									pos:        position{line: 2508, col: 5, offset: 80849},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2507, col: 9, offset: 80842},
+									pos: position{line: 2508, col: 9, offset: 80853},
 									expr: &charClassMatcher{
-										pos:        position{line: 2507, col: 10, offset: 80843},
+										pos:        position{line: 2508, col: 10, offset: 80854},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42490,27 +42504,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2783, col: 5, offset: 88396},
+						pos: position{line: 2784, col: 5, offset: 88407},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2784, col: 9, offset: 88406},
+							pos: position{line: 2785, col: 9, offset: 88417},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2784, col: 10, offset: 88407},
+									pos:        position{line: 2785, col: 10, offset: 88418},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2786, col: 13, offset: 88504},
+									pos: position{line: 2787, col: 13, offset: 88515},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2786, col: 13, offset: 88504},
+											pos: position{line: 2787, col: 13, offset: 88515},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2789, col: 13, offset: 88604},
+											pos:        position{line: 2790, col: 13, offset: 88615},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42518,20 +42532,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2789, col: 19, offset: 88610},
+									pos:        position{line: 2790, col: 19, offset: 88621},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2792, col: 13, offset: 88648},
+									pos: position{line: 2793, col: 13, offset: 88659},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2792, col: 13, offset: 88648},
+											pos: position{line: 2793, col: 13, offset: 88659},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88741},
+											pos:        position{line: 2796, col: 14, offset: 88752},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42540,18 +42554,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2797, col: 12, offset: 88785},
+									pos: position{line: 2798, col: 12, offset: 88796},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2797, col: 12, offset: 88785},
+											pos:        position{line: 2798, col: 12, offset: 88796},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2797, col: 16, offset: 88789},
+											pos: position{line: 2798, col: 16, offset: 88800},
 											expr: &litMatcher{
-												pos:        position{line: 2797, col: 17, offset: 88790},
+												pos:        position{line: 2798, col: 17, offset: 88801},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42563,44 +42577,44 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20128},
+						pos: position{line: 637, col: 5, offset: 20139},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20128},
+							pos: position{line: 637, col: 5, offset: 20139},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20128},
+									pos: position{line: 637, col: 5, offset: 20139},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20200},
+									pos:   position{line: 640, col: 5, offset: 20211},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20209},
+										pos: position{line: 640, col: 14, offset: 20220},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20338},
+												pos: position{line: 646, col: 5, offset: 20349},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20338},
+													pos: position{line: 646, col: 5, offset: 20349},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20338},
+															pos:        position{line: 646, col: 5, offset: 20349},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20346},
+															pos:   position{line: 646, col: 13, offset: 20357},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																run: (*parser).callonQuotedTextElement55,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 319, col: 18, offset: 9747},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42608,9 +42622,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 319, col: 29, offset: 9758},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42623,7 +42637,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20365},
+															pos:        position{line: 646, col: 32, offset: 20376},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42632,28 +42646,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20606},
+												pos: position{line: 653, col: 5, offset: 20617},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20606},
+													pos: position{line: 653, col: 5, offset: 20617},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20606},
+															pos:        position{line: 653, col: 5, offset: 20617},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20610},
+															pos:   position{line: 653, col: 9, offset: 20621},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																run: (*parser).callonQuotedTextElement65,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 319, col: 18, offset: 9747},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42661,9 +42675,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 319, col: 29, offset: 9758},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42676,7 +42690,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20629},
+															pos:        position{line: 653, col: 28, offset: 20640},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42685,28 +42699,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20810},
+												pos: position{line: 659, col: 25, offset: 20821},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20810},
+													pos: position{line: 659, col: 25, offset: 20821},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20810},
+															pos:        position{line: 659, col: 25, offset: 20821},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20822},
+															pos:   position{line: 659, col: 37, offset: 20833},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																run: (*parser).callonQuotedTextElement75,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 319, col: 18, offset: 9747},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42714,9 +42728,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 319, col: 29, offset: 9758},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42729,33 +42743,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20841},
+															pos:   position{line: 659, col: 56, offset: 20852},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20847},
+																pos: position{line: 659, col: 62, offset: 20858},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21142},
+																	pos: position{line: 667, col: 17, offset: 21153},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21142},
+																		pos: position{line: 667, col: 17, offset: 21153},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21142},
+																				pos:        position{line: 667, col: 17, offset: 21153},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21146},
+																				pos:   position{line: 667, col: 21, offset: 21157},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21153},
+																					pos: position{line: 667, col: 28, offset: 21164},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21153},
+																							pos: position{line: 667, col: 28, offset: 21164},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21153},
+																								pos:        position{line: 667, col: 28, offset: 21164},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42763,12 +42777,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21207},
+																							pos: position{line: 669, col: 9, offset: 21218},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21207},
+																								pos: position{line: 669, col: 9, offset: 21218},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21207},
+																									pos:        position{line: 669, col: 9, offset: 21218},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42785,7 +42799,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20863},
+															pos:        position{line: 659, col: 78, offset: 20874},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42794,28 +42808,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20981},
+												pos: position{line: 663, col: 25, offset: 20992},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20981},
+													pos: position{line: 663, col: 25, offset: 20992},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20981},
+															pos:        position{line: 663, col: 25, offset: 20992},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20994},
+															pos:   position{line: 663, col: 38, offset: 21005},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 319, col: 18, offset: 9747},
 																run: (*parser).callonQuotedTextElement97,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 319, col: 18, offset: 9747},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42823,9 +42837,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 319, col: 29, offset: 9758},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42838,33 +42852,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 21013},
+															pos:   position{line: 663, col: 57, offset: 21024},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21019},
+																pos: position{line: 663, col: 63, offset: 21030},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21142},
+																	pos: position{line: 667, col: 17, offset: 21153},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21142},
+																		pos: position{line: 667, col: 17, offset: 21153},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21142},
+																				pos:        position{line: 667, col: 17, offset: 21153},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21146},
+																				pos:   position{line: 667, col: 21, offset: 21157},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21153},
+																					pos: position{line: 667, col: 28, offset: 21164},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21153},
+																							pos: position{line: 667, col: 28, offset: 21164},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21153},
+																								pos:        position{line: 667, col: 28, offset: 21164},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42872,12 +42886,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21207},
+																							pos: position{line: 669, col: 9, offset: 21218},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21207},
+																								pos: position{line: 669, col: 9, offset: 21218},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21207},
+																									pos:        position{line: 669, col: 9, offset: 21218},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42894,7 +42908,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21035},
+															pos:        position{line: 663, col: 79, offset: 21046},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42909,31 +42923,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2879, col: 18, offset: 91013},
+						pos: position{line: 2880, col: 18, offset: 91024},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2879, col: 18, offset: 91013},
+							pos: position{line: 2880, col: 18, offset: 91024},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42942,27 +42956,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 26, offset: 91021},
+									pos: position{line: 2880, col: 26, offset: 91032},
 									expr: &actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90913},
+										pos: position{line: 2876, col: 12, offset: 90924},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90914},
+											pos: position{line: 2876, col: 13, offset: 90925},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90914},
+													pos:        position{line: 2876, col: 13, offset: 90925},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90921},
+													pos:        position{line: 2876, col: 20, offset: 90932},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90930},
+													pos:        position{line: 2876, col: 29, offset: 90941},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42975,31 +42989,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 7, offset: 60309},
+						pos:  position{line: 1872, col: 7, offset: 60320},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60356},
+						pos:  position{line: 1873, col: 7, offset: 60367},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2463, col: 5, offset: 79273},
+						pos: position{line: 2464, col: 5, offset: 79284},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2463, col: 5, offset: 79273},
+							pos: position{line: 2464, col: 5, offset: 79284},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2463, col: 5, offset: 79273},
+									pos: position{line: 2464, col: 5, offset: 79284},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2466, col: 5, offset: 79349},
+									pos:   position{line: 2467, col: 5, offset: 79360},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2467, col: 9, offset: 79367},
+										pos: position{line: 2468, col: 9, offset: 79378},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2467, col: 10, offset: 79368},
+											pos:        position{line: 2468, col: 10, offset: 79379},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43011,27 +43025,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1206, col: 23, offset: 37216},
+						pos: position{line: 1207, col: 23, offset: 37227},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1206, col: 23, offset: 37216},
+							pos: position{line: 1207, col: 23, offset: 37227},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37184},
+									pos:        position{line: 1205, col: 32, offset: 37195},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1206, col: 51, offset: 37244},
+									pos:   position{line: 1207, col: 51, offset: 37255},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1206, col: 56, offset: 37249},
+										pos: position{line: 1207, col: 56, offset: 37260},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1206, col: 56, offset: 37249},
+											pos: position{line: 1207, col: 56, offset: 37260},
 											expr: &charClassMatcher{
-												pos:        position{line: 1206, col: 56, offset: 37249},
+												pos:        position{line: 1207, col: 56, offset: 37260},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -43041,7 +43055,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37184},
+									pos:        position{line: 1205, col: 32, offset: 37195},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -43050,10 +43064,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2805, col: 12, offset: 89050},
+						pos: position{line: 2806, col: 12, offset: 89061},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2805, col: 12, offset: 89050},
+							pos:        position{line: 2806, col: 12, offset: 89061},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43065,29 +43079,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1890, col: 1, offset: 60826},
+			pos:  position{line: 1891, col: 1, offset: 60837},
 			expr: &actionExpr{
-				pos: position{line: 1891, col: 5, offset: 60854},
+				pos: position{line: 1892, col: 5, offset: 60865},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1891, col: 5, offset: 60854},
+					pos: position{line: 1892, col: 5, offset: 60865},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1886, col: 38, offset: 60779},
+							pos:        position{line: 1887, col: 38, offset: 60790},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1892, col: 5, offset: 60893},
+							pos:   position{line: 1893, col: 5, offset: 60904},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1892, col: 15, offset: 60903},
+								pos:  position{line: 1893, col: 15, offset: 60914},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1888, col: 36, offset: 60820},
+							pos:        position{line: 1889, col: 36, offset: 60831},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43098,44 +43112,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1897, col: 1, offset: 61063},
+			pos:  position{line: 1898, col: 1, offset: 61074},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1897, col: 32, offset: 61094},
+				pos: position{line: 1898, col: 32, offset: 61105},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1897, col: 32, offset: 61094},
+					pos:  position{line: 1898, col: 32, offset: 61105},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1899, col: 1, offset: 61125},
+			pos:  position{line: 1900, col: 1, offset: 61136},
 			expr: &actionExpr{
-				pos: position{line: 1900, col: 5, offset: 61160},
+				pos: position{line: 1901, col: 5, offset: 61171},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1900, col: 5, offset: 61160},
+					pos: position{line: 1901, col: 5, offset: 61171},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1901, col: 5, offset: 61171},
+							pos: position{line: 1902, col: 5, offset: 61182},
 							expr: &litMatcher{
-								pos:        position{line: 1888, col: 36, offset: 60820},
+								pos:        position{line: 1889, col: 36, offset: 60831},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1902, col: 5, offset: 61208},
+							pos:   position{line: 1903, col: 5, offset: 61219},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1902, col: 14, offset: 61217},
+								pos:  position{line: 1903, col: 14, offset: 61228},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43145,29 +43159,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1927, col: 1, offset: 61897},
+			pos:  position{line: 1928, col: 1, offset: 61908},
 			expr: &actionExpr{
-				pos: position{line: 1928, col: 5, offset: 61925},
+				pos: position{line: 1929, col: 5, offset: 61936},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1928, col: 5, offset: 61925},
+					pos: position{line: 1929, col: 5, offset: 61936},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1911, col: 5, offset: 61451},
+							pos:        position{line: 1912, col: 5, offset: 61462},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1912, col: 5, offset: 61460},
+							pos: position{line: 1913, col: 5, offset: 61471},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1916, col: 5, offset: 61578},
+							pos: position{line: 1917, col: 5, offset: 61589},
 							expr: &notExpr{
-								pos: position{line: 1916, col: 7, offset: 61580},
+								pos: position{line: 1917, col: 7, offset: 61591},
 								expr: &litMatcher{
-									pos:        position{line: 1916, col: 8, offset: 61581},
+									pos:        position{line: 1917, col: 8, offset: 61592},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43175,38 +43189,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1929, col: 5, offset: 61963},
+							pos:   position{line: 1930, col: 5, offset: 61974},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1929, col: 15, offset: 61973},
+								pos:  position{line: 1930, col: 15, offset: 61984},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1919, col: 5, offset: 61701},
+							pos:        position{line: 1920, col: 5, offset: 61712},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1920, col: 5, offset: 61710},
+							pos: position{line: 1921, col: 5, offset: 61721},
 							expr: &litMatcher{
-								pos:        position{line: 1920, col: 6, offset: 61711},
+								pos:        position{line: 1921, col: 6, offset: 61722},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1921, col: 5, offset: 61774},
+							pos: position{line: 1922, col: 5, offset: 61785},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1925, col: 5, offset: 61883},
+							pos: position{line: 1926, col: 5, offset: 61894},
 							expr: &notExpr{
-								pos: position{line: 1925, col: 7, offset: 61885},
+								pos: position{line: 1926, col: 7, offset: 61896},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87837},
+									pos:        position{line: 2757, col: 13, offset: 87848},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43220,20 +43234,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1934, col: 1, offset: 62133},
+			pos:  position{line: 1935, col: 1, offset: 62144},
 			expr: &actionExpr{
-				pos: position{line: 1935, col: 5, offset: 62170},
+				pos: position{line: 1936, col: 5, offset: 62181},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1935, col: 5, offset: 62170},
+					pos: position{line: 1936, col: 5, offset: 62181},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1935, col: 5, offset: 62170},
+							pos: position{line: 1936, col: 5, offset: 62181},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43242,18 +43256,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1936, col: 5, offset: 62209},
+							pos:   position{line: 1937, col: 5, offset: 62220},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1936, col: 14, offset: 62218},
+								pos: position{line: 1937, col: 14, offset: 62229},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1936, col: 15, offset: 62219},
+									pos:  position{line: 1937, col: 15, offset: 62230},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62253},
+							pos: position{line: 1938, col: 5, offset: 62264},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43262,49 +43276,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1943, col: 1, offset: 62394},
+			pos:  position{line: 1944, col: 1, offset: 62405},
 			expr: &actionExpr{
-				pos: position{line: 1944, col: 5, offset: 62429},
+				pos: position{line: 1945, col: 5, offset: 62440},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1944, col: 5, offset: 62429},
+					pos: position{line: 1945, col: 5, offset: 62440},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62457},
+							pos: position{line: 1946, col: 5, offset: 62468},
 							expr: &seqExpr{
-								pos: position{line: 1919, col: 5, offset: 61701},
+								pos: position{line: 1920, col: 5, offset: 61712},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1919, col: 5, offset: 61701},
+										pos:        position{line: 1920, col: 5, offset: 61712},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1920, col: 5, offset: 61710},
+										pos: position{line: 1921, col: 5, offset: 61721},
 										expr: &litMatcher{
-											pos:        position{line: 1920, col: 6, offset: 61711},
+											pos:        position{line: 1921, col: 6, offset: 61722},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1921, col: 5, offset: 61774},
+										pos: position{line: 1922, col: 5, offset: 61785},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1925, col: 5, offset: 61883},
+										pos: position{line: 1926, col: 5, offset: 61894},
 										expr: &notExpr{
-											pos: position{line: 1925, col: 7, offset: 61885},
+											pos: position{line: 1926, col: 7, offset: 61896},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87837},
+												pos:        position{line: 2757, col: 13, offset: 87848},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43316,10 +43330,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1946, col: 5, offset: 62494},
+							pos:   position{line: 1947, col: 5, offset: 62505},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1946, col: 14, offset: 62503},
+								pos:  position{line: 1947, col: 14, offset: 62514},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43329,35 +43343,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1951, col: 1, offset: 62591},
+			pos:  position{line: 1952, col: 1, offset: 62602},
 			expr: &choiceExpr{
-				pos: position{line: 1953, col: 5, offset: 62652},
+				pos: position{line: 1954, col: 5, offset: 62663},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1953, col: 5, offset: 62652},
+						pos: position{line: 1954, col: 5, offset: 62663},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1953, col: 5, offset: 62652},
+							pos: position{line: 1954, col: 5, offset: 62663},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1953, col: 5, offset: 62652},
+									pos:   position{line: 1954, col: 5, offset: 62663},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1859, col: 25, offset: 59999},
+										pos: position{line: 1860, col: 25, offset: 60010},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1859, col: 25, offset: 59999},
+											pos: position{line: 1860, col: 25, offset: 60010},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1859, col: 25, offset: 59999},
+													pos:        position{line: 1860, col: 25, offset: 60010},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1859, col: 30, offset: 60004},
+													pos: position{line: 1860, col: 30, offset: 60015},
 													expr: &litMatcher{
-														pos:        position{line: 1859, col: 30, offset: 60004},
+														pos:        position{line: 1860, col: 30, offset: 60015},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43368,21 +43382,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 40, offset: 62687},
+									pos:        position{line: 1954, col: 40, offset: 62698},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1953, col: 45, offset: 62692},
+									pos:   position{line: 1954, col: 45, offset: 62703},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1953, col: 55, offset: 62702},
+										pos:  position{line: 1954, col: 55, offset: 62713},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 84, offset: 62731},
+									pos:        position{line: 1954, col: 84, offset: 62742},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43391,21 +43405,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1957, col: 7, offset: 62895},
+						pos: position{line: 1958, col: 7, offset: 62906},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 7, offset: 62895},
+							pos: position{line: 1958, col: 7, offset: 62906},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 7, offset: 62895},
+									pos:   position{line: 1958, col: 7, offset: 62906},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43414,21 +43428,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 42, offset: 62930},
+									pos:        position{line: 1958, col: 42, offset: 62941},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 47, offset: 62935},
+									pos:   position{line: 1958, col: 47, offset: 62946},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 57, offset: 62945},
+										pos:  position{line: 1958, col: 57, offset: 62956},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 86, offset: 62974},
+									pos:        position{line: 1958, col: 86, offset: 62985},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43437,21 +43451,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1962, col: 7, offset: 63176},
+						pos: position{line: 1963, col: 7, offset: 63187},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1962, col: 7, offset: 63176},
+							pos: position{line: 1963, col: 7, offset: 63187},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1962, col: 7, offset: 63176},
+									pos:   position{line: 1963, col: 7, offset: 63187},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43460,21 +43474,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 42, offset: 63211},
+									pos:        position{line: 1963, col: 42, offset: 63222},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1962, col: 46, offset: 63215},
+									pos:   position{line: 1963, col: 46, offset: 63226},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1962, col: 56, offset: 63225},
+										pos:  position{line: 1963, col: 56, offset: 63236},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 85, offset: 63254},
+									pos:        position{line: 1963, col: 85, offset: 63265},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43487,29 +43501,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1979, col: 1, offset: 63734},
+			pos:  position{line: 1980, col: 1, offset: 63745},
 			expr: &actionExpr{
-				pos: position{line: 1980, col: 5, offset: 63764},
+				pos: position{line: 1981, col: 5, offset: 63775},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1980, col: 5, offset: 63764},
+					pos: position{line: 1981, col: 5, offset: 63775},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1975, col: 40, offset: 63685},
+							pos:        position{line: 1976, col: 40, offset: 63696},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1981, col: 5, offset: 63805},
+							pos:   position{line: 1982, col: 5, offset: 63816},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1981, col: 15, offset: 63815},
+								pos:  position{line: 1982, col: 15, offset: 63826},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1977, col: 38, offset: 63728},
+							pos:        position{line: 1978, col: 38, offset: 63739},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43520,44 +43534,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1986, col: 1, offset: 63980},
+			pos:  position{line: 1987, col: 1, offset: 63991},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1986, col: 34, offset: 64013},
+				pos: position{line: 1987, col: 34, offset: 64024},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1986, col: 34, offset: 64013},
+					pos:  position{line: 1987, col: 34, offset: 64024},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1988, col: 1, offset: 64045},
+			pos:  position{line: 1989, col: 1, offset: 64056},
 			expr: &actionExpr{
-				pos: position{line: 1989, col: 5, offset: 64082},
+				pos: position{line: 1990, col: 5, offset: 64093},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1989, col: 5, offset: 64082},
+					pos: position{line: 1990, col: 5, offset: 64093},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1990, col: 5, offset: 64093},
+							pos: position{line: 1991, col: 5, offset: 64104},
 							expr: &litMatcher{
-								pos:        position{line: 1977, col: 38, offset: 63728},
+								pos:        position{line: 1978, col: 38, offset: 63739},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1991, col: 5, offset: 64132},
+							pos:   position{line: 1992, col: 5, offset: 64143},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1991, col: 14, offset: 64141},
+								pos:  position{line: 1992, col: 14, offset: 64152},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43567,29 +43581,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2017, col: 1, offset: 64825},
+			pos:  position{line: 2018, col: 1, offset: 64836},
 			expr: &actionExpr{
-				pos: position{line: 2018, col: 5, offset: 64855},
+				pos: position{line: 2019, col: 5, offset: 64866},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2018, col: 5, offset: 64855},
+					pos: position{line: 2019, col: 5, offset: 64866},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 5, offset: 64383},
+							pos:        position{line: 2001, col: 5, offset: 64394},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2001, col: 5, offset: 64392},
+							pos: position{line: 2002, col: 5, offset: 64403},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2005, col: 5, offset: 64512},
+							pos: position{line: 2006, col: 5, offset: 64523},
 							expr: &notExpr{
-								pos: position{line: 2005, col: 7, offset: 64514},
+								pos: position{line: 2006, col: 7, offset: 64525},
 								expr: &litMatcher{
-									pos:        position{line: 2005, col: 8, offset: 64515},
+									pos:        position{line: 2006, col: 8, offset: 64526},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43597,38 +43611,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2019, col: 5, offset: 64895},
+							pos:   position{line: 2020, col: 5, offset: 64906},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2019, col: 15, offset: 64905},
+								pos:  position{line: 2020, col: 15, offset: 64916},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 5, offset: 64625},
+							pos:        position{line: 2010, col: 5, offset: 64636},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64634},
+							pos: position{line: 2011, col: 5, offset: 64645},
 							expr: &litMatcher{
-								pos:        position{line: 2010, col: 6, offset: 64635},
+								pos:        position{line: 2011, col: 6, offset: 64646},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2011, col: 5, offset: 64700},
+							pos: position{line: 2012, col: 5, offset: 64711},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2015, col: 5, offset: 64811},
+							pos: position{line: 2016, col: 5, offset: 64822},
 							expr: &notExpr{
-								pos: position{line: 2015, col: 7, offset: 64813},
+								pos: position{line: 2016, col: 7, offset: 64824},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87837},
+									pos:        position{line: 2757, col: 13, offset: 87848},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43642,20 +43656,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2024, col: 1, offset: 65072},
+			pos:  position{line: 2025, col: 1, offset: 65083},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65110},
+				pos: position{line: 2026, col: 5, offset: 65121},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65110},
+					pos: position{line: 2026, col: 5, offset: 65121},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2025, col: 5, offset: 65110},
+							pos: position{line: 2026, col: 5, offset: 65121},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43664,18 +43678,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 65149},
+							pos:   position{line: 2027, col: 5, offset: 65160},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2026, col: 14, offset: 65158},
+								pos: position{line: 2027, col: 14, offset: 65169},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2026, col: 15, offset: 65159},
+									pos:  position{line: 2027, col: 15, offset: 65170},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2027, col: 5, offset: 65194},
+							pos: position{line: 2028, col: 5, offset: 65205},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43684,49 +43698,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2033, col: 1, offset: 65335},
+			pos:  position{line: 2034, col: 1, offset: 65346},
 			expr: &actionExpr{
-				pos: position{line: 2034, col: 5, offset: 65372},
+				pos: position{line: 2035, col: 5, offset: 65383},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2034, col: 5, offset: 65372},
+					pos: position{line: 2035, col: 5, offset: 65383},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2035, col: 5, offset: 65383},
+							pos: position{line: 2036, col: 5, offset: 65394},
 							expr: &seqExpr{
-								pos: position{line: 2009, col: 5, offset: 64625},
+								pos: position{line: 2010, col: 5, offset: 64636},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2009, col: 5, offset: 64625},
+										pos:        position{line: 2010, col: 5, offset: 64636},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2010, col: 5, offset: 64634},
+										pos: position{line: 2011, col: 5, offset: 64645},
 										expr: &litMatcher{
-											pos:        position{line: 2010, col: 6, offset: 64635},
+											pos:        position{line: 2011, col: 6, offset: 64646},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2011, col: 5, offset: 64700},
+										pos: position{line: 2012, col: 5, offset: 64711},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2015, col: 5, offset: 64811},
+										pos: position{line: 2016, col: 5, offset: 64822},
 										expr: &notExpr{
-											pos: position{line: 2015, col: 7, offset: 64813},
+											pos: position{line: 2016, col: 7, offset: 64824},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87837},
+												pos:        position{line: 2757, col: 13, offset: 87848},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43738,10 +43752,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2036, col: 5, offset: 65422},
+							pos:   position{line: 2037, col: 5, offset: 65433},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2036, col: 14, offset: 65431},
+								pos:  position{line: 2037, col: 14, offset: 65442},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43751,35 +43765,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2041, col: 1, offset: 65519},
+			pos:  position{line: 2042, col: 1, offset: 65530},
 			expr: &choiceExpr{
-				pos: position{line: 2043, col: 5, offset: 65584},
+				pos: position{line: 2044, col: 5, offset: 65595},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2043, col: 5, offset: 65584},
+						pos: position{line: 2044, col: 5, offset: 65595},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2043, col: 5, offset: 65584},
+							pos: position{line: 2044, col: 5, offset: 65595},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2043, col: 5, offset: 65584},
+									pos:   position{line: 2044, col: 5, offset: 65595},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1859, col: 25, offset: 59999},
+										pos: position{line: 1860, col: 25, offset: 60010},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1859, col: 25, offset: 59999},
+											pos: position{line: 1860, col: 25, offset: 60010},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1859, col: 25, offset: 59999},
+													pos:        position{line: 1860, col: 25, offset: 60010},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1859, col: 30, offset: 60004},
+													pos: position{line: 1860, col: 30, offset: 60015},
 													expr: &litMatcher{
-														pos:        position{line: 1859, col: 30, offset: 60004},
+														pos:        position{line: 1860, col: 30, offset: 60015},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43790,21 +43804,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2043, col: 40, offset: 65619},
+									pos:        position{line: 2044, col: 40, offset: 65630},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2043, col: 45, offset: 65624},
+									pos:   position{line: 2044, col: 45, offset: 65635},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2043, col: 55, offset: 65634},
+										pos:  position{line: 2044, col: 55, offset: 65645},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2043, col: 86, offset: 65665},
+									pos:        position{line: 2044, col: 86, offset: 65676},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43813,21 +43827,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2047, col: 7, offset: 65830},
+						pos: position{line: 2048, col: 7, offset: 65841},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2047, col: 7, offset: 65830},
+							pos: position{line: 2048, col: 7, offset: 65841},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2047, col: 7, offset: 65830},
+									pos:   position{line: 2048, col: 7, offset: 65841},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43836,21 +43850,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 42, offset: 65865},
+									pos:        position{line: 2048, col: 42, offset: 65876},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2047, col: 47, offset: 65870},
+									pos:   position{line: 2048, col: 47, offset: 65881},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2047, col: 57, offset: 65880},
+										pos:  position{line: 2048, col: 57, offset: 65891},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 88, offset: 65911},
+									pos:        position{line: 2048, col: 88, offset: 65922},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43859,21 +43873,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2052, col: 7, offset: 66152},
+						pos: position{line: 2053, col: 7, offset: 66163},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2052, col: 7, offset: 66152},
+							pos: position{line: 2053, col: 7, offset: 66163},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2052, col: 7, offset: 66152},
+									pos:   position{line: 2053, col: 7, offset: 66163},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43882,21 +43896,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 42, offset: 66187},
+									pos:        position{line: 2053, col: 42, offset: 66198},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2052, col: 46, offset: 66191},
+									pos:   position{line: 2053, col: 46, offset: 66202},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2052, col: 56, offset: 66201},
+										pos:  position{line: 2053, col: 56, offset: 66212},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 87, offset: 66232},
+									pos:        position{line: 2053, col: 87, offset: 66243},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43909,29 +43923,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2069, col: 1, offset: 66796},
+			pos:  position{line: 2070, col: 1, offset: 66807},
 			expr: &actionExpr{
-				pos: position{line: 2070, col: 5, offset: 66829},
+				pos: position{line: 2071, col: 5, offset: 66840},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2070, col: 5, offset: 66829},
+					pos: position{line: 2071, col: 5, offset: 66840},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2065, col: 43, offset: 66744},
+							pos:        position{line: 2066, col: 43, offset: 66755},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2071, col: 5, offset: 66873},
+							pos:   position{line: 2072, col: 5, offset: 66884},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2071, col: 15, offset: 66883},
+								pos:  position{line: 2072, col: 15, offset: 66894},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2067, col: 41, offset: 66790},
+							pos:        position{line: 2068, col: 41, offset: 66801},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43942,44 +43956,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2076, col: 1, offset: 67058},
+			pos:  position{line: 2077, col: 1, offset: 67069},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2076, col: 37, offset: 67094},
+				pos: position{line: 2077, col: 37, offset: 67105},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2076, col: 37, offset: 67094},
+					pos:  position{line: 2077, col: 37, offset: 67105},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2078, col: 1, offset: 67161},
+			pos:  position{line: 2079, col: 1, offset: 67172},
 			expr: &actionExpr{
-				pos: position{line: 2079, col: 5, offset: 67201},
+				pos: position{line: 2080, col: 5, offset: 67212},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2079, col: 5, offset: 67201},
+					pos: position{line: 2080, col: 5, offset: 67212},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2080, col: 5, offset: 67212},
+							pos: position{line: 2081, col: 5, offset: 67223},
 							expr: &litMatcher{
-								pos:        position{line: 2067, col: 41, offset: 66790},
+								pos:        position{line: 2068, col: 41, offset: 66801},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2081, col: 5, offset: 67254},
+							pos:   position{line: 2082, col: 5, offset: 67265},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2081, col: 14, offset: 67263},
+								pos:  position{line: 2082, col: 14, offset: 67274},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43989,33 +44003,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2099, col: 1, offset: 67805},
+			pos:  position{line: 2100, col: 1, offset: 67816},
 			expr: &seqExpr{
-				pos: position{line: 2100, col: 5, offset: 67850},
+				pos: position{line: 2101, col: 5, offset: 67861},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2100, col: 5, offset: 67850},
+						pos: position{line: 2101, col: 5, offset: 67861},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2100, col: 6, offset: 67851},
+							pos:  position{line: 2101, col: 6, offset: 67862},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2101, col: 5, offset: 67870},
+						pos:        position{line: 2102, col: 5, offset: 67881},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2102, col: 5, offset: 67878},
+						pos: position{line: 2103, col: 5, offset: 67889},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2106, col: 5, offset: 67992},
+						pos: position{line: 2107, col: 5, offset: 68003},
 						expr: &notExpr{
-							pos: position{line: 2106, col: 7, offset: 67994},
+							pos: position{line: 2107, col: 7, offset: 68005},
 							expr: &charClassMatcher{
-								pos:        position{line: 2756, col: 13, offset: 87837},
+								pos:        position{line: 2757, col: 13, offset: 87848},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44028,29 +44042,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2109, col: 1, offset: 68011},
+			pos:  position{line: 2110, col: 1, offset: 68022},
 			expr: &actionExpr{
-				pos: position{line: 2110, col: 5, offset: 68044},
+				pos: position{line: 2111, col: 5, offset: 68055},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2110, col: 5, offset: 68044},
+					pos: position{line: 2111, col: 5, offset: 68055},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2092, col: 5, offset: 67607},
+							pos:        position{line: 2093, col: 5, offset: 67618},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2093, col: 5, offset: 67616},
+							pos: position{line: 2094, col: 5, offset: 67627},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2097, col: 5, offset: 67739},
+							pos: position{line: 2098, col: 5, offset: 67750},
 							expr: &notExpr{
-								pos: position{line: 2097, col: 7, offset: 67741},
+								pos: position{line: 2098, col: 7, offset: 67752},
 								expr: &litMatcher{
-									pos:        position{line: 2097, col: 8, offset: 67742},
+									pos:        position{line: 2098, col: 8, offset: 67753},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44058,15 +44072,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2111, col: 5, offset: 68088},
+							pos:   position{line: 2112, col: 5, offset: 68099},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2111, col: 15, offset: 68098},
+								pos:  position{line: 2112, col: 15, offset: 68109},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2112, col: 5, offset: 68137},
+							pos:  position{line: 2113, col: 5, offset: 68148},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44075,20 +44089,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2116, col: 1, offset: 68274},
+			pos:  position{line: 2117, col: 1, offset: 68285},
 			expr: &actionExpr{
-				pos: position{line: 2117, col: 5, offset: 68315},
+				pos: position{line: 2118, col: 5, offset: 68326},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2117, col: 5, offset: 68315},
+					pos: position{line: 2118, col: 5, offset: 68326},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2117, col: 5, offset: 68315},
+							pos: position{line: 2118, col: 5, offset: 68326},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44097,18 +44111,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2118, col: 5, offset: 68354},
+							pos:   position{line: 2119, col: 5, offset: 68365},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2118, col: 14, offset: 68363},
+								pos: position{line: 2119, col: 14, offset: 68374},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2118, col: 15, offset: 68364},
+									pos:  position{line: 2119, col: 15, offset: 68375},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2119, col: 5, offset: 68402},
+							pos: position{line: 2120, col: 5, offset: 68413},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44117,31 +44131,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2125, col: 1, offset: 68543},
+			pos:  position{line: 2126, col: 1, offset: 68554},
 			expr: &actionExpr{
-				pos: position{line: 2126, col: 5, offset: 68583},
+				pos: position{line: 2127, col: 5, offset: 68594},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2126, col: 5, offset: 68583},
+					pos: position{line: 2127, col: 5, offset: 68594},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2127, col: 5, offset: 68594},
+							pos: position{line: 2128, col: 5, offset: 68605},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2127, col: 6, offset: 68595},
+								pos:  position{line: 2128, col: 6, offset: 68606},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2128, col: 5, offset: 68636},
+							pos:   position{line: 2129, col: 5, offset: 68647},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2128, col: 14, offset: 68645},
+								pos:  position{line: 2129, col: 14, offset: 68656},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44151,35 +44165,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2133, col: 1, offset: 68733},
+			pos:  position{line: 2134, col: 1, offset: 68744},
 			expr: &choiceExpr{
-				pos: position{line: 2135, col: 5, offset: 68804},
+				pos: position{line: 2136, col: 5, offset: 68815},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2135, col: 5, offset: 68804},
+						pos: position{line: 2136, col: 5, offset: 68815},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2135, col: 5, offset: 68804},
+							pos: position{line: 2136, col: 5, offset: 68815},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2135, col: 5, offset: 68804},
+									pos:   position{line: 2136, col: 5, offset: 68815},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1859, col: 25, offset: 59999},
+										pos: position{line: 1860, col: 25, offset: 60010},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1859, col: 25, offset: 59999},
+											pos: position{line: 1860, col: 25, offset: 60010},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1859, col: 25, offset: 59999},
+													pos:        position{line: 1860, col: 25, offset: 60010},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1859, col: 30, offset: 60004},
+													pos: position{line: 1860, col: 30, offset: 60015},
 													expr: &litMatcher{
-														pos:        position{line: 1859, col: 30, offset: 60004},
+														pos:        position{line: 1860, col: 30, offset: 60015},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44190,21 +44204,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2135, col: 40, offset: 68839},
+									pos:        position{line: 2136, col: 40, offset: 68850},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2135, col: 45, offset: 68844},
+									pos:   position{line: 2136, col: 45, offset: 68855},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2135, col: 55, offset: 68854},
+										pos:  position{line: 2136, col: 55, offset: 68865},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2135, col: 89, offset: 68888},
+									pos:        position{line: 2136, col: 89, offset: 68899},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44213,21 +44227,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2139, col: 7, offset: 69057},
+						pos: position{line: 2140, col: 7, offset: 69068},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2139, col: 7, offset: 69057},
+							pos: position{line: 2140, col: 7, offset: 69068},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2139, col: 7, offset: 69057},
+									pos:   position{line: 2140, col: 7, offset: 69068},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44236,21 +44250,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 42, offset: 69092},
+									pos:        position{line: 2140, col: 42, offset: 69103},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2139, col: 47, offset: 69097},
+									pos:   position{line: 2140, col: 47, offset: 69108},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2139, col: 57, offset: 69107},
+										pos:  position{line: 2140, col: 57, offset: 69118},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 91, offset: 69141},
+									pos:        position{line: 2140, col: 91, offset: 69152},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44259,21 +44273,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2144, col: 7, offset: 69347},
+						pos: position{line: 2145, col: 7, offset: 69358},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2144, col: 7, offset: 69347},
+							pos: position{line: 2145, col: 7, offset: 69358},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2144, col: 7, offset: 69347},
+									pos:   position{line: 2145, col: 7, offset: 69358},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44282,21 +44296,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 42, offset: 69382},
+									pos:        position{line: 2145, col: 42, offset: 69393},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2144, col: 46, offset: 69386},
+									pos:   position{line: 2145, col: 46, offset: 69397},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2144, col: 56, offset: 69396},
+										pos:  position{line: 2145, col: 56, offset: 69407},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 90, offset: 69430},
+									pos:        position{line: 2145, col: 90, offset: 69441},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44309,29 +44323,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2161, col: 1, offset: 69915},
+			pos:  position{line: 2162, col: 1, offset: 69926},
 			expr: &actionExpr{
-				pos: position{line: 2162, col: 5, offset: 69945},
+				pos: position{line: 2163, col: 5, offset: 69956},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2162, col: 5, offset: 69945},
+					pos: position{line: 2163, col: 5, offset: 69956},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2157, col: 40, offset: 69866},
+							pos:        position{line: 2158, col: 40, offset: 69877},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 69986},
+							pos:   position{line: 2164, col: 5, offset: 69997},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 15, offset: 69996},
+								pos:  position{line: 2164, col: 15, offset: 70007},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2159, col: 38, offset: 69909},
+							pos:        position{line: 2160, col: 38, offset: 69920},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44342,44 +44356,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2168, col: 1, offset: 70162},
+			pos:  position{line: 2169, col: 1, offset: 70173},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2168, col: 34, offset: 70195},
+				pos: position{line: 2169, col: 34, offset: 70206},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2168, col: 34, offset: 70195},
+					pos:  position{line: 2169, col: 34, offset: 70206},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2170, col: 1, offset: 70226},
+			pos:  position{line: 2171, col: 1, offset: 70237},
 			expr: &actionExpr{
-				pos: position{line: 2171, col: 5, offset: 70295},
+				pos: position{line: 2172, col: 5, offset: 70306},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2171, col: 5, offset: 70295},
+					pos: position{line: 2172, col: 5, offset: 70306},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2172, col: 5, offset: 70306},
+							pos: position{line: 2173, col: 5, offset: 70317},
 							expr: &litMatcher{
-								pos:        position{line: 2159, col: 38, offset: 69909},
+								pos:        position{line: 2160, col: 38, offset: 69920},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2173, col: 5, offset: 70345},
+							pos:   position{line: 2174, col: 5, offset: 70356},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2173, col: 14, offset: 70354},
+								pos:  position{line: 2174, col: 14, offset: 70365},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44389,29 +44403,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2198, col: 1, offset: 71036},
+			pos:  position{line: 2199, col: 1, offset: 71047},
 			expr: &actionExpr{
-				pos: position{line: 2199, col: 5, offset: 71066},
+				pos: position{line: 2200, col: 5, offset: 71077},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2199, col: 5, offset: 71066},
+					pos: position{line: 2200, col: 5, offset: 71077},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2182, col: 5, offset: 70602},
+							pos:        position{line: 2183, col: 5, offset: 70613},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2183, col: 5, offset: 70611},
+							pos: position{line: 2184, col: 5, offset: 70622},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2187, col: 5, offset: 70731},
+							pos: position{line: 2188, col: 5, offset: 70742},
 							expr: &notExpr{
-								pos: position{line: 2187, col: 7, offset: 70733},
+								pos: position{line: 2188, col: 7, offset: 70744},
 								expr: &litMatcher{
-									pos:        position{line: 2187, col: 8, offset: 70734},
+									pos:        position{line: 2188, col: 8, offset: 70745},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44419,38 +44433,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71106},
+							pos:   position{line: 2201, col: 5, offset: 71117},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2200, col: 15, offset: 71116},
+								pos:  position{line: 2201, col: 15, offset: 71127},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2190, col: 5, offset: 70839},
+							pos:        position{line: 2191, col: 5, offset: 70850},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2191, col: 5, offset: 70847},
+							pos: position{line: 2192, col: 5, offset: 70858},
 							expr: &litMatcher{
-								pos:        position{line: 2191, col: 6, offset: 70848},
+								pos:        position{line: 2192, col: 6, offset: 70859},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2192, col: 5, offset: 70911},
+							pos: position{line: 2193, col: 5, offset: 70922},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2196, col: 5, offset: 71022},
+							pos: position{line: 2197, col: 5, offset: 71033},
 							expr: &notExpr{
-								pos: position{line: 2196, col: 7, offset: 71024},
+								pos: position{line: 2197, col: 7, offset: 71035},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87837},
+									pos:        position{line: 2757, col: 13, offset: 87848},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44464,20 +44478,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2205, col: 1, offset: 71283},
+			pos:  position{line: 2206, col: 1, offset: 71294},
 			expr: &actionExpr{
-				pos: position{line: 2206, col: 5, offset: 71321},
+				pos: position{line: 2207, col: 5, offset: 71332},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2206, col: 5, offset: 71321},
+					pos: position{line: 2207, col: 5, offset: 71332},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71321},
+							pos: position{line: 2207, col: 5, offset: 71332},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90742},
+								pos: position{line: 2867, col: 10, offset: 90753},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90742},
+									pos:        position{line: 2867, col: 10, offset: 90753},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44486,18 +44500,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71360},
+							pos:   position{line: 2208, col: 5, offset: 71371},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2207, col: 14, offset: 71369},
+								pos: position{line: 2208, col: 14, offset: 71380},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2207, col: 15, offset: 71370},
+									pos:  position{line: 2208, col: 15, offset: 71381},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71406},
+							pos: position{line: 2209, col: 5, offset: 71417},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44506,49 +44520,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2214, col: 1, offset: 71547},
+			pos:  position{line: 2215, col: 1, offset: 71558},
 			expr: &actionExpr{
-				pos: position{line: 2215, col: 5, offset: 71584},
+				pos: position{line: 2216, col: 5, offset: 71595},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2215, col: 5, offset: 71584},
+					pos: position{line: 2216, col: 5, offset: 71595},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2216, col: 5, offset: 71595},
+							pos: position{line: 2217, col: 5, offset: 71606},
 							expr: &seqExpr{
-								pos: position{line: 2190, col: 5, offset: 70839},
+								pos: position{line: 2191, col: 5, offset: 70850},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2190, col: 5, offset: 70839},
+										pos:        position{line: 2191, col: 5, offset: 70850},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2191, col: 5, offset: 70847},
+										pos: position{line: 2192, col: 5, offset: 70858},
 										expr: &litMatcher{
-											pos:        position{line: 2191, col: 6, offset: 70848},
+											pos:        position{line: 2192, col: 6, offset: 70859},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2192, col: 5, offset: 70911},
+										pos: position{line: 2193, col: 5, offset: 70922},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2196, col: 5, offset: 71022},
+										pos: position{line: 2197, col: 5, offset: 71033},
 										expr: &notExpr{
-											pos: position{line: 2196, col: 7, offset: 71024},
+											pos: position{line: 2197, col: 7, offset: 71035},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87837},
+												pos:        position{line: 2757, col: 13, offset: 87848},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44560,10 +44574,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2217, col: 5, offset: 71634},
+							pos:   position{line: 2218, col: 5, offset: 71645},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2217, col: 14, offset: 71643},
+								pos:  position{line: 2218, col: 14, offset: 71654},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44573,35 +44587,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2222, col: 1, offset: 71731},
+			pos:  position{line: 2223, col: 1, offset: 71742},
 			expr: &choiceExpr{
-				pos: position{line: 2224, col: 5, offset: 71795},
+				pos: position{line: 2225, col: 5, offset: 71806},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2224, col: 5, offset: 71795},
+						pos: position{line: 2225, col: 5, offset: 71806},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2224, col: 5, offset: 71795},
+							pos: position{line: 2225, col: 5, offset: 71806},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2224, col: 5, offset: 71795},
+									pos:   position{line: 2225, col: 5, offset: 71806},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1859, col: 25, offset: 59999},
+										pos: position{line: 1860, col: 25, offset: 60010},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1859, col: 25, offset: 59999},
+											pos: position{line: 1860, col: 25, offset: 60010},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1859, col: 25, offset: 59999},
+													pos:        position{line: 1860, col: 25, offset: 60010},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1859, col: 30, offset: 60004},
+													pos: position{line: 1860, col: 30, offset: 60015},
 													expr: &litMatcher{
-														pos:        position{line: 1859, col: 30, offset: 60004},
+														pos:        position{line: 1860, col: 30, offset: 60015},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44612,21 +44626,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2224, col: 40, offset: 71830},
+									pos:        position{line: 2225, col: 40, offset: 71841},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2224, col: 45, offset: 71835},
+									pos:   position{line: 2225, col: 45, offset: 71846},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2224, col: 55, offset: 71845},
+										pos:  position{line: 2225, col: 55, offset: 71856},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2224, col: 86, offset: 71876},
+									pos:        position{line: 2225, col: 86, offset: 71887},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44635,21 +44649,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2228, col: 7, offset: 72041},
+						pos: position{line: 2229, col: 7, offset: 72052},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2228, col: 7, offset: 72041},
+							pos: position{line: 2229, col: 7, offset: 72052},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2228, col: 7, offset: 72041},
+									pos:   position{line: 2229, col: 7, offset: 72052},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44658,21 +44672,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 42, offset: 72076},
+									pos:        position{line: 2229, col: 42, offset: 72087},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2228, col: 47, offset: 72081},
+									pos:   position{line: 2229, col: 47, offset: 72092},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2228, col: 57, offset: 72091},
+										pos:  position{line: 2229, col: 57, offset: 72102},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 88, offset: 72122},
+									pos:        position{line: 2229, col: 88, offset: 72133},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44681,21 +44695,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2233, col: 7, offset: 72325},
+						pos: position{line: 2234, col: 7, offset: 72336},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2233, col: 7, offset: 72325},
+							pos: position{line: 2234, col: 7, offset: 72336},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2233, col: 7, offset: 72325},
+									pos:   position{line: 2234, col: 7, offset: 72336},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1855, col: 25, offset: 59926},
+										pos: position{line: 1856, col: 25, offset: 59937},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1855, col: 25, offset: 59926},
+											pos: position{line: 1856, col: 25, offset: 59937},
 											expr: &litMatcher{
-												pos:        position{line: 1855, col: 25, offset: 59926},
+												pos:        position{line: 1856, col: 25, offset: 59937},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44704,21 +44718,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 42, offset: 72360},
+									pos:        position{line: 2234, col: 42, offset: 72371},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2233, col: 46, offset: 72364},
+									pos:   position{line: 2234, col: 46, offset: 72375},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2233, col: 56, offset: 72374},
+										pos:  position{line: 2234, col: 56, offset: 72385},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 87, offset: 72405},
+									pos:        position{line: 2234, col: 87, offset: 72416},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44731,29 +44745,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2240, col: 1, offset: 72672},
+			pos:  position{line: 2241, col: 1, offset: 72683},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72694},
+				pos: position{line: 2242, col: 5, offset: 72705},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72694},
+					pos: position{line: 2242, col: 5, offset: 72705},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 72909},
+							pos:        position{line: 2248, col: 27, offset: 72920},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2242, col: 5, offset: 72721},
+							pos:   position{line: 2243, col: 5, offset: 72732},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2242, col: 14, offset: 72730},
+								pos:  position{line: 2243, col: 14, offset: 72741},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 72909},
+							pos:        position{line: 2248, col: 27, offset: 72920},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44764,43 +44778,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2249, col: 1, offset: 72914},
+			pos:  position{line: 2250, col: 1, offset: 72925},
 			expr: &choiceExpr{
-				pos: position{line: 2249, col: 25, offset: 72938},
+				pos: position{line: 2250, col: 25, offset: 72949},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2249, col: 25, offset: 72938},
+						pos:  position{line: 2250, col: 25, offset: 72949},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2251, col: 21, offset: 72990},
+						pos: position{line: 2252, col: 21, offset: 73001},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2251, col: 21, offset: 72990},
+							pos:   position{line: 2252, col: 21, offset: 73001},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2251, col: 29, offset: 72998},
+								pos: position{line: 2252, col: 29, offset: 73009},
 								expr: &choiceExpr{
-									pos: position{line: 2251, col: 30, offset: 72999},
+									pos: position{line: 2252, col: 30, offset: 73010},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2463, col: 5, offset: 79273},
+												pos: position{line: 2464, col: 5, offset: 79284},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2463, col: 5, offset: 79273},
+														pos: position{line: 2464, col: 5, offset: 79284},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2466, col: 5, offset: 79349},
+														pos:   position{line: 2467, col: 5, offset: 79360},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2467, col: 9, offset: 79367},
+															pos: position{line: 2468, col: 9, offset: 79378},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2467, col: 10, offset: 79368},
+																pos:        position{line: 2468, col: 10, offset: 79379},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44812,7 +44826,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2251, col: 49, offset: 73018},
+											pos:        position{line: 2252, col: 49, offset: 73029},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44828,23 +44842,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2255, col: 1, offset: 73075},
+			pos:  position{line: 2256, col: 1, offset: 73086},
 			expr: &actionExpr{
-				pos: position{line: 2257, col: 5, offset: 73142},
+				pos: position{line: 2258, col: 5, offset: 73153},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2257, col: 5, offset: 73142},
+					pos: position{line: 2258, col: 5, offset: 73153},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73142},
+							pos:   position{line: 2258, col: 5, offset: 73153},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1855, col: 25, offset: 59926},
+								pos: position{line: 1856, col: 25, offset: 59937},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1855, col: 25, offset: 59926},
+									pos: position{line: 1856, col: 25, offset: 59937},
 									expr: &litMatcher{
-										pos:        position{line: 1855, col: 25, offset: 59926},
+										pos:        position{line: 1856, col: 25, offset: 59937},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44853,21 +44867,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 72909},
+							pos:        position{line: 2248, col: 27, offset: 72920},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73210},
+							pos:   position{line: 2260, col: 5, offset: 73221},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2259, col: 14, offset: 73219},
+								pos:  position{line: 2260, col: 14, offset: 73230},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 72909},
+							pos:        position{line: 2248, col: 27, offset: 72920},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44878,29 +44892,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2267, col: 1, offset: 73482},
+			pos:  position{line: 2268, col: 1, offset: 73493},
 			expr: &actionExpr{
-				pos: position{line: 2268, col: 5, offset: 73506},
+				pos: position{line: 2269, col: 5, offset: 73517},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2268, col: 5, offset: 73506},
+					pos: position{line: 2269, col: 5, offset: 73517},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73733},
+							pos:        position{line: 2275, col: 29, offset: 73744},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2269, col: 5, offset: 73536},
+							pos:   position{line: 2270, col: 5, offset: 73547},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2269, col: 14, offset: 73545},
+								pos:  position{line: 2270, col: 14, offset: 73556},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73733},
+							pos:        position{line: 2275, col: 29, offset: 73744},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44911,43 +44925,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2276, col: 1, offset: 73738},
+			pos:  position{line: 2277, col: 1, offset: 73749},
 			expr: &choiceExpr{
-				pos: position{line: 2276, col: 27, offset: 73764},
+				pos: position{line: 2277, col: 27, offset: 73775},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2276, col: 27, offset: 73764},
+						pos:  position{line: 2277, col: 27, offset: 73775},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2278, col: 23, offset: 73820},
+						pos: position{line: 2279, col: 23, offset: 73831},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2278, col: 23, offset: 73820},
+							pos:   position{line: 2279, col: 23, offset: 73831},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2278, col: 31, offset: 73828},
+								pos: position{line: 2279, col: 31, offset: 73839},
 								expr: &choiceExpr{
-									pos: position{line: 2278, col: 32, offset: 73829},
+									pos: position{line: 2279, col: 32, offset: 73840},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2463, col: 5, offset: 79273},
+												pos: position{line: 2464, col: 5, offset: 79284},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2463, col: 5, offset: 79273},
+														pos: position{line: 2464, col: 5, offset: 79284},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2466, col: 5, offset: 79349},
+														pos:   position{line: 2467, col: 5, offset: 79360},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2467, col: 9, offset: 79367},
+															pos: position{line: 2468, col: 9, offset: 79378},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2467, col: 10, offset: 79368},
+																pos:        position{line: 2468, col: 10, offset: 79379},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44959,7 +44973,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2278, col: 51, offset: 73848},
+											pos:        position{line: 2279, col: 51, offset: 73859},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44975,23 +44989,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2282, col: 1, offset: 73905},
+			pos:  position{line: 2283, col: 1, offset: 73916},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 73977},
+				pos: position{line: 2285, col: 5, offset: 73988},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 73977},
+					pos: position{line: 2285, col: 5, offset: 73988},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 73977},
+							pos:   position{line: 2285, col: 5, offset: 73988},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1855, col: 25, offset: 59926},
+								pos: position{line: 1856, col: 25, offset: 59937},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1855, col: 25, offset: 59926},
+									pos: position{line: 1856, col: 25, offset: 59937},
 									expr: &litMatcher{
-										pos:        position{line: 1855, col: 25, offset: 59926},
+										pos:        position{line: 1856, col: 25, offset: 59937},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45000,21 +45014,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73733},
+							pos:        position{line: 2275, col: 29, offset: 73744},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 74047},
+							pos:   position{line: 2287, col: 5, offset: 74058},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2286, col: 14, offset: 74056},
+								pos:  position{line: 2287, col: 14, offset: 74067},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73733},
+							pos:        position{line: 2275, col: 29, offset: 73744},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45025,27 +45039,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2295, col: 1, offset: 74525},
+			pos:  position{line: 2296, col: 1, offset: 74536},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74541},
+				pos: position{line: 2297, col: 5, offset: 74552},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74541},
+					pos: position{line: 2297, col: 5, offset: 74552},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74541},
+							pos: position{line: 2297, col: 5, offset: 74552},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2299, col: 5, offset: 74604},
+							pos:   position{line: 2300, col: 5, offset: 74615},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2299, col: 12, offset: 74611},
+								pos: position{line: 2300, col: 12, offset: 74622},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2299, col: 12, offset: 74611},
+									pos: position{line: 2300, col: 12, offset: 74622},
 									expr: &litMatcher{
-										pos:        position{line: 2299, col: 13, offset: 74612},
+										pos:        position{line: 2300, col: 13, offset: 74623},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45054,16 +45068,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2303, col: 5, offset: 74720},
+							pos: position{line: 2304, col: 5, offset: 74731},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2870, col: 11, offset: 90803},
+							pos: position{line: 2871, col: 11, offset: 90814},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2870, col: 11, offset: 90803},
+								pos: position{line: 2871, col: 11, offset: 90814},
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 11, offset: 90803},
+									pos:        position{line: 2871, col: 11, offset: 90814},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45072,36 +45086,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2307, col: 12, offset: 74879},
+							pos:   position{line: 2308, col: 12, offset: 74890},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2307, col: 19, offset: 74886},
+								pos:  position{line: 2308, col: 19, offset: 74897},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45110,9 +45124,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -45123,24 +45137,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2311, col: 1, offset: 74982},
+			pos:  position{line: 2312, col: 1, offset: 74993},
 			expr: &actionExpr{
-				pos: position{line: 2312, col: 5, offset: 75003},
+				pos: position{line: 2313, col: 5, offset: 75014},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2312, col: 5, offset: 75003},
+					pos: position{line: 2313, col: 5, offset: 75014},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2312, col: 5, offset: 75003},
+							pos: position{line: 2313, col: 5, offset: 75014},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2317, col: 5, offset: 75118},
+							pos:   position{line: 2318, col: 5, offset: 75129},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2317, col: 14, offset: 75127},
+								pos: position{line: 2318, col: 14, offset: 75138},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2317, col: 15, offset: 75128},
+									pos:  position{line: 2318, col: 15, offset: 75139},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45151,38 +45165,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2321, col: 1, offset: 75209},
+			pos:  position{line: 2322, col: 1, offset: 75220},
 			expr: &actionExpr{
-				pos: position{line: 2322, col: 5, offset: 75236},
+				pos: position{line: 2323, col: 5, offset: 75247},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2322, col: 5, offset: 75236},
+					pos: position{line: 2323, col: 5, offset: 75247},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2322, col: 5, offset: 75236},
+							pos: position{line: 2323, col: 5, offset: 75247},
 							expr: &choiceExpr{
-								pos: position{line: 2888, col: 8, offset: 91140},
+								pos: position{line: 2889, col: 8, offset: 91151},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90913},
+										pos: position{line: 2876, col: 12, offset: 90924},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90914},
+											pos: position{line: 2876, col: 13, offset: 90925},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90914},
+													pos:        position{line: 2876, col: 13, offset: 90925},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90921},
+													pos:        position{line: 2876, col: 20, offset: 90932},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90930},
+													pos:        position{line: 2876, col: 29, offset: 90941},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45191,36 +45205,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2885, col: 8, offset: 91090},
+										pos: position{line: 2886, col: 8, offset: 91101},
 										expr: &anyMatcher{
-											line: 2885, col: 9, offset: 91091,
+											line: 2886, col: 9, offset: 91102,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2323, col: 5, offset: 75245},
+							pos:   position{line: 2324, col: 5, offset: 75256},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2324, col: 9, offset: 75263},
+								pos: position{line: 2325, col: 9, offset: 75274},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87984},
+										pos: position{line: 2766, col: 5, offset: 87995},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87984},
+											pos: position{line: 2766, col: 5, offset: 87995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87984},
+													pos:   position{line: 2766, col: 5, offset: 87995},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87990},
+														pos: position{line: 2766, col: 11, offset: 88001},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87990},
+															pos: position{line: 2766, col: 11, offset: 88001},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87990},
+																pos:        position{line: 2766, col: 11, offset: 88001},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45230,36 +45244,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 88048},
+													pos: position{line: 2769, col: 5, offset: 88059},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88059},
+														pos: position{line: 2770, col: 9, offset: 88070},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88059},
+																pos:        position{line: 2770, col: 9, offset: 88070},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88108},
+																pos: position{line: 2771, col: 9, offset: 88119},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88188},
+													pos: position{line: 2775, col: 5, offset: 88199},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88199},
+														pos: position{line: 2776, col: 9, offset: 88210},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88199},
+																pos:        position{line: 2776, col: 9, offset: 88210},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88203},
+																pos:        position{line: 2776, col: 13, offset: 88214},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45272,12 +45286,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 11, offset: 90803},
+										pos: position{line: 2871, col: 11, offset: 90814},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2870, col: 11, offset: 90803},
+											pos: position{line: 2871, col: 11, offset: 90814},
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 11, offset: 90803},
+												pos:        position{line: 2871, col: 11, offset: 90814},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45286,21 +45300,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2494, col: 5, offset: 80444},
+										pos: position{line: 2495, col: 5, offset: 80455},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2494, col: 5, offset: 80444},
+											pos: position{line: 2495, col: 5, offset: 80455},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2494, col: 5, offset: 80444},
+													pos:        position{line: 2495, col: 5, offset: 80455},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2494, col: 10, offset: 80449},
+													pos: position{line: 2495, col: 10, offset: 80460},
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 11, offset: 80450},
+														pos:        position{line: 2495, col: 11, offset: 80461},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45311,29 +45325,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80642},
+										pos: position{line: 2501, col: 5, offset: 80653},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80642},
+											pos: position{line: 2501, col: 5, offset: 80653},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80642},
+													pos: position{line: 2501, col: 5, offset: 80653},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80713},
+													pos: position{line: 2504, col: 5, offset: 80724},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2507, col: 5, offset: 80838},
+													pos:        position{line: 2508, col: 5, offset: 80849},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2507, col: 9, offset: 80842},
+													pos: position{line: 2508, col: 9, offset: 80853},
 													expr: &charClassMatcher{
-														pos:        position{line: 2507, col: 10, offset: 80843},
+														pos:        position{line: 2508, col: 10, offset: 80854},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45344,31 +45358,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2327, col: 11, offset: 75328},
+										pos:  position{line: 2328, col: 11, offset: 75339},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88396},
+										pos: position{line: 2784, col: 5, offset: 88407},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88406},
+											pos: position{line: 2785, col: 9, offset: 88417},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88407},
+													pos:        position{line: 2785, col: 10, offset: 88418},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88504},
+													pos: position{line: 2787, col: 13, offset: 88515},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88504},
+															pos: position{line: 2787, col: 13, offset: 88515},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88604},
+															pos:        position{line: 2790, col: 13, offset: 88615},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45376,20 +45390,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88610},
+													pos:        position{line: 2790, col: 19, offset: 88621},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88648},
+													pos: position{line: 2793, col: 13, offset: 88659},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88648},
+															pos: position{line: 2793, col: 13, offset: 88659},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88741},
+															pos:        position{line: 2796, col: 14, offset: 88752},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45398,18 +45412,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88785},
+													pos: position{line: 2798, col: 12, offset: 88796},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88785},
+															pos:        position{line: 2798, col: 12, offset: 88796},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88789},
+															pos: position{line: 2798, col: 16, offset: 88800},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88790},
+																pos:        position{line: 2798, col: 17, offset: 88801},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45421,35 +45435,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2329, col: 11, offset: 75401},
+										pos:  position{line: 2330, col: 11, offset: 75412},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2330, col: 11, offset: 75417},
+										pos:  position{line: 2331, col: 11, offset: 75428},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75445},
+										pos:  position{line: 2332, col: 11, offset: 75456},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2463, col: 5, offset: 79273},
+										pos: position{line: 2464, col: 5, offset: 79284},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2463, col: 5, offset: 79273},
+													pos: position{line: 2464, col: 5, offset: 79284},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2466, col: 5, offset: 79349},
+													pos:   position{line: 2467, col: 5, offset: 79360},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2467, col: 9, offset: 79367},
+														pos: position{line: 2468, col: 9, offset: 79378},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2467, col: 10, offset: 79368},
+															pos:        position{line: 2468, col: 10, offset: 79379},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45461,48 +45475,48 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75530},
+										pos:  position{line: 2334, col: 11, offset: 75541},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20128},
+										pos: position{line: 637, col: 5, offset: 20139},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20128},
+											pos: position{line: 637, col: 5, offset: 20139},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20128},
+													pos: position{line: 637, col: 5, offset: 20139},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20200},
+													pos:   position{line: 640, col: 5, offset: 20211},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20209},
+														pos: position{line: 640, col: 14, offset: 20220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20338},
+																pos: position{line: 646, col: 5, offset: 20349},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20338},
+																	pos: position{line: 646, col: 5, offset: 20349},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20338},
+																			pos:        position{line: 646, col: 5, offset: 20349},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20346},
+																			pos:   position{line: 646, col: 13, offset: 20357},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonSectionTitleElement77,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45510,9 +45524,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45525,7 +45539,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20365},
+																			pos:        position{line: 646, col: 32, offset: 20376},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45534,28 +45548,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20606},
+																pos: position{line: 653, col: 5, offset: 20617},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20606},
+																	pos: position{line: 653, col: 5, offset: 20617},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20606},
+																			pos:        position{line: 653, col: 5, offset: 20617},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20610},
+																			pos:   position{line: 653, col: 9, offset: 20621},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonSectionTitleElement87,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45563,9 +45577,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45578,7 +45592,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20629},
+																			pos:        position{line: 653, col: 28, offset: 20640},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45587,28 +45601,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20810},
+																pos: position{line: 659, col: 25, offset: 20821},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20810},
+																	pos: position{line: 659, col: 25, offset: 20821},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20810},
+																			pos:        position{line: 659, col: 25, offset: 20821},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20822},
+																			pos:   position{line: 659, col: 37, offset: 20833},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonSectionTitleElement97,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45616,9 +45630,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45631,33 +45645,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20841},
+																			pos:   position{line: 659, col: 56, offset: 20852},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20847},
+																				pos: position{line: 659, col: 62, offset: 20858},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45665,12 +45679,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45687,7 +45701,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20863},
+																			pos:        position{line: 659, col: 78, offset: 20874},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45696,28 +45710,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20981},
+																pos: position{line: 663, col: 25, offset: 20992},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20981},
+																	pos: position{line: 663, col: 25, offset: 20992},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20981},
+																			pos:        position{line: 663, col: 25, offset: 20992},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20994},
+																			pos:   position{line: 663, col: 38, offset: 21005},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 319, col: 18, offset: 9747},
 																				run: (*parser).callonSectionTitleElement119,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 319, col: 18, offset: 9747},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45725,9 +45739,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 319, col: 29, offset: 9758},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45740,33 +45754,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21013},
+																			pos:   position{line: 663, col: 57, offset: 21024},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21019},
+																				pos: position{line: 663, col: 63, offset: 21030},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21142},
+																					pos: position{line: 667, col: 17, offset: 21153},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21142},
+																								pos:        position{line: 667, col: 17, offset: 21153},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21146},
+																								pos:   position{line: 667, col: 21, offset: 21157},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21153},
+																									pos: position{line: 667, col: 28, offset: 21164},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21153},
+																											pos: position{line: 667, col: 28, offset: 21164},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21153},
+																												pos:        position{line: 667, col: 28, offset: 21164},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45774,12 +45788,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21207},
+																											pos: position{line: 669, col: 9, offset: 21218},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21207},
+																													pos:        position{line: 669, col: 9, offset: 21218},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45796,7 +45810,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21035},
+																			pos:        position{line: 663, col: 79, offset: 21046},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45811,27 +45825,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37216},
+										pos: position{line: 1207, col: 23, offset: 37227},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37216},
+											pos: position{line: 1207, col: 23, offset: 37227},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37184},
+													pos:        position{line: 1205, col: 32, offset: 37195},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37244},
+													pos:   position{line: 1207, col: 51, offset: 37255},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37249},
+														pos: position{line: 1207, col: 56, offset: 37260},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37249},
+															pos: position{line: 1207, col: 56, offset: 37260},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37249},
+																pos:        position{line: 1207, col: 56, offset: 37260},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45841,7 +45855,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37184},
+													pos:        position{line: 1205, col: 32, offset: 37195},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45850,51 +45864,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2346, col: 5, offset: 75983},
+										pos: position{line: 2347, col: 5, offset: 75994},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2346, col: 5, offset: 75983},
+											pos: position{line: 2347, col: 5, offset: 75994},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2346, col: 5, offset: 75983},
+													pos: position{line: 2347, col: 5, offset: 75994},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2349, col: 5, offset: 76038},
+													pos:   position{line: 2350, col: 5, offset: 76049},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 405, col: 5, offset: 12348},
 														run: (*parser).callonSectionTitleElement149,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12337},
+															pos: position{line: 405, col: 5, offset: 12348},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12337},
+																	pos:        position{line: 405, col: 5, offset: 12348},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12347},
+																	pos:   position{line: 406, col: 5, offset: 12358},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12360},
+																		pos: position{line: 407, col: 9, offset: 12371},
 																		run: (*parser).callonSectionTitleElement153,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12360},
+																			pos:   position{line: 407, col: 9, offset: 12371},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12369},
+																				pos: position{line: 407, col: 18, offset: 12380},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12383},
+																					pos: position{line: 408, col: 13, offset: 12394},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 408, col: 14, offset: 12395},
 																							run: (*parser).callonSectionTitleElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12384},
+																								pos: position{line: 408, col: 14, offset: 12395},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12384},
+																									pos:        position{line: 408, col: 14, offset: 12395},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -45903,27 +45917,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1206, col: 23, offset: 37216},
+																							pos: position{line: 1207, col: 23, offset: 37227},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1206, col: 23, offset: 37216},
+																								pos: position{line: 1207, col: 23, offset: 37227},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37184},
+																										pos:        position{line: 1205, col: 32, offset: 37195},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1206, col: 51, offset: 37244},
+																										pos:   position{line: 1207, col: 51, offset: 37255},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1206, col: 56, offset: 37249},
+																											pos: position{line: 1207, col: 56, offset: 37260},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1206, col: 56, offset: 37249},
+																												pos: position{line: 1207, col: 56, offset: 37260},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1206, col: 56, offset: 37249},
+																													pos:        position{line: 1207, col: 56, offset: 37260},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45933,7 +45947,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37184},
+																										pos:        position{line: 1205, col: 32, offset: 37195},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -45942,44 +45956,44 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20128},
+																							pos: position{line: 637, col: 5, offset: 20139},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20128},
+																								pos: position{line: 637, col: 5, offset: 20139},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20128},
+																										pos: position{line: 637, col: 5, offset: 20139},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20200},
+																										pos:   position{line: 640, col: 5, offset: 20211},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20209},
+																											pos: position{line: 640, col: 14, offset: 20220},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20338},
+																													pos: position{line: 646, col: 5, offset: 20349},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20338},
+																														pos: position{line: 646, col: 5, offset: 20349},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20338},
+																																pos:        position{line: 646, col: 5, offset: 20349},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20346},
+																																pos:   position{line: 646, col: 13, offset: 20357},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	run: (*parser).callonSectionTitleElement177,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 319, col: 18, offset: 9747},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45987,9 +46001,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 319, col: 29, offset: 9758},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46002,7 +46016,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20365},
+																																pos:        position{line: 646, col: 32, offset: 20376},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46011,28 +46025,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20606},
+																													pos: position{line: 653, col: 5, offset: 20617},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20606},
+																														pos: position{line: 653, col: 5, offset: 20617},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20606},
+																																pos:        position{line: 653, col: 5, offset: 20617},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20610},
+																																pos:   position{line: 653, col: 9, offset: 20621},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	run: (*parser).callonSectionTitleElement187,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 319, col: 18, offset: 9747},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46040,9 +46054,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 319, col: 29, offset: 9758},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46055,7 +46069,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20629},
+																																pos:        position{line: 653, col: 28, offset: 20640},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46064,28 +46078,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20810},
+																													pos: position{line: 659, col: 25, offset: 20821},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20810},
+																														pos: position{line: 659, col: 25, offset: 20821},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20810},
+																																pos:        position{line: 659, col: 25, offset: 20821},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20822},
+																																pos:   position{line: 659, col: 37, offset: 20833},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	run: (*parser).callonSectionTitleElement197,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 319, col: 18, offset: 9747},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46093,9 +46107,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 319, col: 29, offset: 9758},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46108,33 +46122,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20841},
+																																pos:   position{line: 659, col: 56, offset: 20852},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20847},
+																																	pos: position{line: 659, col: 62, offset: 20858},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21142},
+																																		pos: position{line: 667, col: 17, offset: 21153},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21142},
+																																			pos: position{line: 667, col: 17, offset: 21153},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21142},
+																																					pos:        position{line: 667, col: 17, offset: 21153},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21146},
+																																					pos:   position{line: 667, col: 21, offset: 21157},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21153},
+																																						pos: position{line: 667, col: 28, offset: 21164},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21153},
+																																								pos: position{line: 667, col: 28, offset: 21164},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21153},
+																																									pos:        position{line: 667, col: 28, offset: 21164},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46142,12 +46156,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21207},
+																																								pos: position{line: 669, col: 9, offset: 21218},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21207},
+																																									pos: position{line: 669, col: 9, offset: 21218},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21207},
+																																										pos:        position{line: 669, col: 9, offset: 21218},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46164,7 +46178,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20863},
+																																pos:        position{line: 659, col: 78, offset: 20874},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46173,28 +46187,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20981},
+																													pos: position{line: 663, col: 25, offset: 20992},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20981},
+																														pos: position{line: 663, col: 25, offset: 20992},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20981},
+																																pos:        position{line: 663, col: 25, offset: 20992},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20994},
+																																pos:   position{line: 663, col: 38, offset: 21005},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 319, col: 18, offset: 9747},
 																																	run: (*parser).callonSectionTitleElement219,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 319, col: 18, offset: 9747},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46202,9 +46216,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 319, col: 29, offset: 9758},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46217,33 +46231,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 21013},
+																																pos:   position{line: 663, col: 57, offset: 21024},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21019},
+																																	pos: position{line: 663, col: 63, offset: 21030},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21142},
+																																		pos: position{line: 667, col: 17, offset: 21153},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21142},
+																																			pos: position{line: 667, col: 17, offset: 21153},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21142},
+																																					pos:        position{line: 667, col: 17, offset: 21153},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21146},
+																																					pos:   position{line: 667, col: 21, offset: 21157},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21153},
+																																						pos: position{line: 667, col: 28, offset: 21164},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21153},
+																																								pos: position{line: 667, col: 28, offset: 21164},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21153},
+																																									pos:        position{line: 667, col: 28, offset: 21164},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46251,12 +46265,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21207},
+																																								pos: position{line: 669, col: 9, offset: 21218},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21207},
+																																									pos: position{line: 669, col: 9, offset: 21218},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21207},
+																																										pos:        position{line: 669, col: 9, offset: 21218},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46273,7 +46287,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21035},
+																																pos:        position{line: 663, col: 79, offset: 21046},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46288,10 +46302,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12617},
+																							pos: position{line: 413, col: 16, offset: 12628},
 																							run: (*parser).callonSectionTitleElement237,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12617},
+																								pos:        position{line: 413, col: 16, offset: 12628},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -46304,7 +46318,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12803},
+																	pos:        position{line: 419, col: 5, offset: 12814},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -46314,12 +46328,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2349, col: 26, offset: 76059},
+													pos: position{line: 2350, col: 26, offset: 76070},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90742},
+														pos: position{line: 2867, col: 10, offset: 90753},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90742},
+															pos:        position{line: 2867, col: 10, offset: 90753},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46328,30 +46342,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2349, col: 33, offset: 76066},
+													pos: position{line: 2350, col: 33, offset: 76077},
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91140},
+														pos: position{line: 2889, col: 8, offset: 91151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90913},
+																pos: position{line: 2876, col: 12, offset: 90924},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90914},
+																	pos: position{line: 2876, col: 13, offset: 90925},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90914},
+																			pos:        position{line: 2876, col: 13, offset: 90925},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90921},
+																			pos:        position{line: 2876, col: 20, offset: 90932},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90930},
+																			pos:        position{line: 2876, col: 29, offset: 90941},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46360,9 +46374,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91090},
+																pos: position{line: 2886, col: 8, offset: 91101},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91091,
+																	line: 2886, col: 9, offset: 91102,
 																},
 															},
 														},
@@ -46372,27 +46386,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39080},
+										pos: position{line: 1267, col: 5, offset: 39091},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39080},
+											pos: position{line: 1267, col: 5, offset: 39091},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39080},
+													pos:        position{line: 1267, col: 5, offset: 39091},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39089},
+													pos:   position{line: 1267, col: 14, offset: 39100},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90394},
+														pos: position{line: 2852, col: 7, offset: 90405},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90394},
+															pos: position{line: 2852, col: 7, offset: 90405},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90394},
+																pos:        position{line: 2852, col: 7, offset: 90405},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46402,7 +46416,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39097},
+													pos:        position{line: 1267, col: 22, offset: 39108},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46411,27 +46425,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39216},
+										pos: position{line: 1272, col: 5, offset: 39227},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39216},
+											pos: position{line: 1272, col: 5, offset: 39227},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39216},
+													pos:        position{line: 1272, col: 5, offset: 39227},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39221},
+													pos:   position{line: 1272, col: 10, offset: 39232},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90394},
+														pos: position{line: 2852, col: 7, offset: 90405},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90394},
+															pos: position{line: 2852, col: 7, offset: 90405},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90394},
+																pos:        position{line: 2852, col: 7, offset: 90405},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46441,7 +46455,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39229},
+													pos:        position{line: 1272, col: 18, offset: 39240},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46450,14 +46464,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75784},
+										pos:  position{line: 2339, col: 11, offset: 75795},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 89050},
+										pos: position{line: 2806, col: 12, offset: 89061},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 89050},
+											pos:        position{line: 2806, col: 12, offset: 89061},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46473,52 +46487,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2359, col: 1, offset: 76328},
+			pos:  position{line: 2360, col: 1, offset: 76339},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76415},
+				pos: position{line: 2361, col: 5, offset: 76426},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76415},
+					pos: position{line: 2361, col: 5, offset: 76426},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2360, col: 5, offset: 76415},
+							pos:   position{line: 2361, col: 5, offset: 76426},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2360, col: 14, offset: 76424},
+								pos: position{line: 2361, col: 14, offset: 76435},
 								expr: &actionExpr{
-									pos: position{line: 2362, col: 9, offset: 76450},
+									pos: position{line: 2363, col: 9, offset: 76461},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2362, col: 9, offset: 76450},
+										pos: position{line: 2363, col: 9, offset: 76461},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91076},
+												pos: position{line: 2884, col: 11, offset: 91087},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91078,
+													line: 2884, col: 13, offset: 91089,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2363, col: 9, offset: 76465},
+												pos:   position{line: 2364, col: 9, offset: 76476},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2364, col: 13, offset: 76487},
+													pos: position{line: 2365, col: 13, offset: 76498},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2765, col: 5, offset: 87984},
+															pos: position{line: 2766, col: 5, offset: 87995},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2765, col: 5, offset: 87984},
+																pos: position{line: 2766, col: 5, offset: 87995},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2765, col: 5, offset: 87984},
+																		pos:   position{line: 2766, col: 5, offset: 87995},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2765, col: 11, offset: 87990},
+																			pos: position{line: 2766, col: 11, offset: 88001},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2765, col: 11, offset: 87990},
+																				pos: position{line: 2766, col: 11, offset: 88001},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2765, col: 11, offset: 87990},
+																					pos:        position{line: 2766, col: 11, offset: 88001},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46528,36 +46542,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2768, col: 5, offset: 88048},
+																		pos: position{line: 2769, col: 5, offset: 88059},
 																		expr: &seqExpr{
-																			pos: position{line: 2769, col: 9, offset: 88059},
+																			pos: position{line: 2770, col: 9, offset: 88070},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2769, col: 9, offset: 88059},
+																					pos:        position{line: 2770, col: 9, offset: 88070},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2770, col: 9, offset: 88108},
+																					pos: position{line: 2771, col: 9, offset: 88119},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2774, col: 5, offset: 88188},
+																		pos: position{line: 2775, col: 5, offset: 88199},
 																		expr: &seqExpr{
-																			pos: position{line: 2775, col: 9, offset: 88199},
+																			pos: position{line: 2776, col: 9, offset: 88210},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2775, col: 9, offset: 88199},
+																					pos:        position{line: 2776, col: 9, offset: 88210},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2775, col: 13, offset: 88203},
+																					pos:        position{line: 2776, col: 13, offset: 88214},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46570,12 +46584,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 11, offset: 90803},
+															pos: position{line: 2871, col: 11, offset: 90814},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2870, col: 11, offset: 90803},
+																pos: position{line: 2871, col: 11, offset: 90814},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2870, col: 11, offset: 90803},
+																	pos:        position{line: 2871, col: 11, offset: 90814},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46584,25 +46598,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2366, col: 15, offset: 76533},
+															pos:  position{line: 2367, col: 15, offset: 76544},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2494, col: 5, offset: 80444},
+															pos: position{line: 2495, col: 5, offset: 80455},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2494, col: 5, offset: 80444},
+																pos: position{line: 2495, col: 5, offset: 80455},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2494, col: 5, offset: 80444},
+																		pos:        position{line: 2495, col: 5, offset: 80455},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2494, col: 10, offset: 80449},
+																		pos: position{line: 2495, col: 10, offset: 80460},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2494, col: 11, offset: 80450},
+																			pos:        position{line: 2495, col: 11, offset: 80461},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46613,29 +46627,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2500, col: 5, offset: 80642},
+															pos: position{line: 2501, col: 5, offset: 80653},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2500, col: 5, offset: 80642},
+																pos: position{line: 2501, col: 5, offset: 80653},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2500, col: 5, offset: 80642},
+																		pos: position{line: 2501, col: 5, offset: 80653},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2503, col: 5, offset: 80713},
+																		pos: position{line: 2504, col: 5, offset: 80724},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2507, col: 5, offset: 80838},
+																		pos:        position{line: 2508, col: 5, offset: 80849},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2507, col: 9, offset: 80842},
+																		pos: position{line: 2508, col: 9, offset: 80853},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2507, col: 10, offset: 80843},
+																			pos:        position{line: 2508, col: 10, offset: 80854},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46646,27 +46660,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2783, col: 5, offset: 88396},
+															pos: position{line: 2784, col: 5, offset: 88407},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2784, col: 9, offset: 88406},
+																pos: position{line: 2785, col: 9, offset: 88417},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2784, col: 10, offset: 88407},
+																		pos:        position{line: 2785, col: 10, offset: 88418},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2786, col: 13, offset: 88504},
+																		pos: position{line: 2787, col: 13, offset: 88515},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2786, col: 13, offset: 88504},
+																				pos: position{line: 2787, col: 13, offset: 88515},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2789, col: 13, offset: 88604},
+																				pos:        position{line: 2790, col: 13, offset: 88615},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46674,20 +46688,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2789, col: 19, offset: 88610},
+																		pos:        position{line: 2790, col: 19, offset: 88621},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2792, col: 13, offset: 88648},
+																		pos: position{line: 2793, col: 13, offset: 88659},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2792, col: 13, offset: 88648},
+																				pos: position{line: 2793, col: 13, offset: 88659},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2795, col: 14, offset: 88741},
+																				pos:        position{line: 2796, col: 14, offset: 88752},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46696,18 +46710,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2797, col: 12, offset: 88785},
+																		pos: position{line: 2798, col: 12, offset: 88796},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2797, col: 12, offset: 88785},
+																				pos:        position{line: 2798, col: 12, offset: 88796},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2797, col: 16, offset: 88789},
+																				pos: position{line: 2798, col: 16, offset: 88800},
 																				expr: &litMatcher{
-																					pos:        position{line: 2797, col: 17, offset: 88790},
+																					pos:        position{line: 2798, col: 17, offset: 88801},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46719,25 +46733,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90913},
+															pos: position{line: 2876, col: 12, offset: 90924},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90914},
+																pos: position{line: 2876, col: 13, offset: 90925},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90914},
+																		pos:        position{line: 2876, col: 13, offset: 90925},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90921},
+																		pos:        position{line: 2876, col: 20, offset: 90932},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90930},
+																		pos:        position{line: 2876, col: 29, offset: 90941},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46746,44 +46760,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20128},
+															pos: position{line: 637, col: 5, offset: 20139},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20128},
+																pos: position{line: 637, col: 5, offset: 20139},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20128},
+																		pos: position{line: 637, col: 5, offset: 20139},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20200},
+																		pos:   position{line: 640, col: 5, offset: 20211},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20209},
+																			pos: position{line: 640, col: 14, offset: 20220},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20338},
+																					pos: position{line: 646, col: 5, offset: 20349},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20338},
+																						pos: position{line: 646, col: 5, offset: 20349},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20338},
+																								pos:        position{line: 646, col: 5, offset: 20349},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20346},
+																								pos:   position{line: 646, col: 13, offset: 20357},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonNormalGroup69,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46791,9 +46805,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46806,7 +46820,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20365},
+																								pos:        position{line: 646, col: 32, offset: 20376},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46815,28 +46829,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20606},
+																					pos: position{line: 653, col: 5, offset: 20617},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20606},
+																						pos: position{line: 653, col: 5, offset: 20617},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20606},
+																								pos:        position{line: 653, col: 5, offset: 20617},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20610},
+																								pos:   position{line: 653, col: 9, offset: 20621},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonNormalGroup79,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46844,9 +46858,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46859,7 +46873,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20629},
+																								pos:        position{line: 653, col: 28, offset: 20640},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46868,28 +46882,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20810},
+																					pos: position{line: 659, col: 25, offset: 20821},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20810},
+																						pos: position{line: 659, col: 25, offset: 20821},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20810},
+																								pos:        position{line: 659, col: 25, offset: 20821},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20822},
+																								pos:   position{line: 659, col: 37, offset: 20833},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonNormalGroup89,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46897,9 +46911,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46912,33 +46926,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20841},
+																								pos:   position{line: 659, col: 56, offset: 20852},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20847},
+																									pos: position{line: 659, col: 62, offset: 20858},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21142},
+																											pos: position{line: 667, col: 17, offset: 21153},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21142},
+																													pos:        position{line: 667, col: 17, offset: 21153},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21146},
+																													pos:   position{line: 667, col: 21, offset: 21157},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21153},
+																																	pos:        position{line: 667, col: 28, offset: 21164},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46946,12 +46960,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21207},
+																																	pos: position{line: 669, col: 9, offset: 21218},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21207},
+																																		pos:        position{line: 669, col: 9, offset: 21218},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46968,7 +46982,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20863},
+																								pos:        position{line: 659, col: 78, offset: 20874},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46977,28 +46991,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20981},
+																					pos: position{line: 663, col: 25, offset: 20992},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20981},
+																						pos: position{line: 663, col: 25, offset: 20992},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20981},
+																								pos:        position{line: 663, col: 25, offset: 20992},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20994},
+																								pos:   position{line: 663, col: 38, offset: 21005},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 319, col: 18, offset: 9747},
 																									run: (*parser).callonNormalGroup111,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 319, col: 18, offset: 9747},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47006,9 +47020,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 319, col: 29, offset: 9758},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47021,33 +47035,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21013},
+																								pos:   position{line: 663, col: 57, offset: 21024},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21019},
+																									pos: position{line: 663, col: 63, offset: 21030},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21142},
+																										pos: position{line: 667, col: 17, offset: 21153},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21142},
+																											pos: position{line: 667, col: 17, offset: 21153},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21142},
+																													pos:        position{line: 667, col: 17, offset: 21153},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21146},
+																													pos:   position{line: 667, col: 21, offset: 21157},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21153},
+																														pos: position{line: 667, col: 28, offset: 21164},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21153},
+																																pos: position{line: 667, col: 28, offset: 21164},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21153},
+																																	pos:        position{line: 667, col: 28, offset: 21164},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47055,12 +47069,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21207},
+																																pos: position{line: 669, col: 9, offset: 21218},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21207},
+																																	pos: position{line: 669, col: 9, offset: 21218},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21207},
+																																		pos:        position{line: 669, col: 9, offset: 21218},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47077,7 +47091,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21035},
+																								pos:        position{line: 663, col: 79, offset: 21046},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47092,35 +47106,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76700},
+															pos:  position{line: 2372, col: 15, offset: 76711},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2372, col: 15, offset: 76720},
+															pos:  position{line: 2373, col: 15, offset: 76731},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76809},
+															pos:  position{line: 2374, col: 15, offset: 76820},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2463, col: 5, offset: 79273},
+															pos: position{line: 2464, col: 5, offset: 79284},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2463, col: 5, offset: 79273},
+																pos: position{line: 2464, col: 5, offset: 79284},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2463, col: 5, offset: 79273},
+																		pos: position{line: 2464, col: 5, offset: 79284},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2466, col: 5, offset: 79349},
+																		pos:   position{line: 2467, col: 5, offset: 79360},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2467, col: 9, offset: 79367},
+																			pos: position{line: 2468, col: 9, offset: 79378},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2467, col: 10, offset: 79368},
+																				pos:        position{line: 2468, col: 10, offset: 79379},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47132,32 +47146,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1214, col: 5, offset: 37662},
+															pos: position{line: 1215, col: 5, offset: 37673},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1214, col: 5, offset: 37662},
+																pos: position{line: 1215, col: 5, offset: 37673},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1214, col: 5, offset: 37662},
+																		pos: position{line: 1215, col: 5, offset: 37673},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1217, col: 5, offset: 37738},
+																		pos:        position{line: 1218, col: 5, offset: 37749},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1218, col: 5, offset: 37746},
+																		pos: position{line: 1219, col: 5, offset: 37757},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1222, col: 5, offset: 37833},
+																		pos: position{line: 1223, col: 5, offset: 37844},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47166,30 +47180,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1222, col: 12, offset: 37840},
+																		pos: position{line: 1223, col: 12, offset: 37851},
 																		expr: &choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91140},
+																			pos: position{line: 2889, col: 8, offset: 91151},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47198,9 +47212,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91090},
+																					pos: position{line: 2886, col: 8, offset: 91101},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91091,
+																						line: 2886, col: 9, offset: 91102,
 																					},
 																				},
 																			},
@@ -47210,31 +47224,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2376, col: 15, offset: 76991},
+															pos:  position{line: 2377, col: 15, offset: 77002},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37216},
+															pos: position{line: 1207, col: 23, offset: 37227},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37216},
+																pos: position{line: 1207, col: 23, offset: 37227},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37184},
+																		pos:        position{line: 1205, col: 32, offset: 37195},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37244},
+																		pos:   position{line: 1207, col: 51, offset: 37255},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37249},
+																			pos: position{line: 1207, col: 56, offset: 37260},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37249},
+																				pos: position{line: 1207, col: 56, offset: 37260},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37249},
+																					pos:        position{line: 1207, col: 56, offset: 37260},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -47244,7 +47258,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37184},
+																		pos:        position{line: 1205, col: 32, offset: 37195},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -47253,10 +47267,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2805, col: 12, offset: 89050},
+															pos: position{line: 2806, col: 12, offset: 89061},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 12, offset: 89050},
+																pos:        position{line: 2806, col: 12, offset: 89061},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47272,9 +47286,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -47283,28 +47297,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2387, col: 1, offset: 77429},
+			pos:  position{line: 2388, col: 1, offset: 77440},
 			expr: &actionExpr{
-				pos: position{line: 2388, col: 5, offset: 77462},
+				pos: position{line: 2389, col: 5, offset: 77473},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2388, col: 5, offset: 77462},
+					pos: position{line: 2389, col: 5, offset: 77473},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2388, col: 5, offset: 77462},
+							pos:   position{line: 2389, col: 5, offset: 77473},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2388, col: 14, offset: 77471},
+								pos: position{line: 2389, col: 14, offset: 77482},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2388, col: 15, offset: 77472},
+									pos:  position{line: 2389, col: 15, offset: 77483},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -47313,41 +47327,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2392, col: 1, offset: 77569},
+			pos:  position{line: 2393, col: 1, offset: 77580},
 			expr: &actionExpr{
-				pos: position{line: 2393, col: 5, offset: 77609},
+				pos: position{line: 2394, col: 5, offset: 77620},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2393, col: 5, offset: 77609},
+					pos: position{line: 2394, col: 5, offset: 77620},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91076},
+							pos: position{line: 2884, col: 11, offset: 91087},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91078,
+								line: 2884, col: 13, offset: 91089,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2394, col: 5, offset: 77620},
+							pos:   position{line: 2395, col: 5, offset: 77631},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2395, col: 9, offset: 77638},
+								pos: position{line: 2396, col: 9, offset: 77649},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87984},
+										pos: position{line: 2766, col: 5, offset: 87995},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87984},
+											pos: position{line: 2766, col: 5, offset: 87995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87984},
+													pos:   position{line: 2766, col: 5, offset: 87995},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87990},
+														pos: position{line: 2766, col: 11, offset: 88001},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87990},
+															pos: position{line: 2766, col: 11, offset: 88001},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87990},
+																pos:        position{line: 2766, col: 11, offset: 88001},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47357,36 +47371,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 88048},
+													pos: position{line: 2769, col: 5, offset: 88059},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88059},
+														pos: position{line: 2770, col: 9, offset: 88070},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88059},
+																pos:        position{line: 2770, col: 9, offset: 88070},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88108},
+																pos: position{line: 2771, col: 9, offset: 88119},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88188},
+													pos: position{line: 2775, col: 5, offset: 88199},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88199},
+														pos: position{line: 2776, col: 9, offset: 88210},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88199},
+																pos:        position{line: 2776, col: 9, offset: 88210},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88203},
+																pos:        position{line: 2776, col: 13, offset: 88214},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47399,10 +47413,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90742},
+										pos: position{line: 2867, col: 10, offset: 90753},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90742},
+											pos:        position{line: 2867, col: 10, offset: 90753},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47410,31 +47424,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2397, col: 11, offset: 77676},
+										pos:  position{line: 2398, col: 11, offset: 77687},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88396},
+										pos: position{line: 2784, col: 5, offset: 88407},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88406},
+											pos: position{line: 2785, col: 9, offset: 88417},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88407},
+													pos:        position{line: 2785, col: 10, offset: 88418},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88504},
+													pos: position{line: 2787, col: 13, offset: 88515},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88504},
+															pos: position{line: 2787, col: 13, offset: 88515},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88604},
+															pos:        position{line: 2790, col: 13, offset: 88615},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47442,20 +47456,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88610},
+													pos:        position{line: 2790, col: 19, offset: 88621},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88648},
+													pos: position{line: 2793, col: 13, offset: 88659},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88648},
+															pos: position{line: 2793, col: 13, offset: 88659},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88741},
+															pos:        position{line: 2796, col: 14, offset: 88752},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47464,18 +47478,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88785},
+													pos: position{line: 2798, col: 12, offset: 88796},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88785},
+															pos:        position{line: 2798, col: 12, offset: 88796},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88789},
+															pos: position{line: 2798, col: 16, offset: 88800},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88790},
+																pos:        position{line: 2798, col: 17, offset: 88801},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47487,31 +47501,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77749},
+										pos:  position{line: 2400, col: 11, offset: 77760},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2400, col: 11, offset: 77765},
+										pos:  position{line: 2401, col: 11, offset: 77776},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2463, col: 5, offset: 79273},
+										pos: position{line: 2464, col: 5, offset: 79284},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2463, col: 5, offset: 79273},
+											pos: position{line: 2464, col: 5, offset: 79284},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2463, col: 5, offset: 79273},
+													pos: position{line: 2464, col: 5, offset: 79284},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2466, col: 5, offset: 79349},
+													pos:   position{line: 2467, col: 5, offset: 79360},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2467, col: 9, offset: 79367},
+														pos: position{line: 2468, col: 9, offset: 79378},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2467, col: 10, offset: 79368},
+															pos:        position{line: 2468, col: 10, offset: 79379},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47523,27 +47537,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37216},
+										pos: position{line: 1207, col: 23, offset: 37227},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37216},
+											pos: position{line: 1207, col: 23, offset: 37227},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37184},
+													pos:        position{line: 1205, col: 32, offset: 37195},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37244},
+													pos:   position{line: 1207, col: 51, offset: 37255},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37249},
+														pos: position{line: 1207, col: 56, offset: 37260},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37249},
+															pos: position{line: 1207, col: 56, offset: 37260},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37249},
+																pos:        position{line: 1207, col: 56, offset: 37260},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -47553,7 +47567,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37184},
+													pos:        position{line: 1205, col: 32, offset: 37195},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -47562,25 +47576,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90913},
+										pos: position{line: 2876, col: 12, offset: 90924},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90914},
+											pos: position{line: 2876, col: 13, offset: 90925},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90914},
+													pos:        position{line: 2876, col: 13, offset: 90925},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90921},
+													pos:        position{line: 2876, col: 20, offset: 90932},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90930},
+													pos:        position{line: 2876, col: 29, offset: 90941},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47589,10 +47603,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 89050},
+										pos: position{line: 2806, col: 12, offset: 89061},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 89050},
+											pos:        position{line: 2806, col: 12, offset: 89061},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47608,73 +47622,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2411, col: 1, offset: 78035},
+			pos:  position{line: 2412, col: 1, offset: 78046},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78117},
+				pos: position{line: 2414, col: 5, offset: 78128},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78117},
+					pos: position{line: 2414, col: 5, offset: 78128},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2413, col: 5, offset: 78117},
+							pos: position{line: 2414, col: 5, offset: 78128},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2416, col: 5, offset: 78182},
+							pos:   position{line: 2417, col: 5, offset: 78193},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2417, col: 9, offset: 78200},
+								pos: position{line: 2418, col: 9, offset: 78211},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 9, offset: 78200},
+										pos:  position{line: 2418, col: 9, offset: 78211},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78221},
+										pos:  position{line: 2419, col: 11, offset: 78232},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78244},
+										pos:  position{line: 2420, col: 11, offset: 78255},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78260},
+										pos:  position{line: 2421, col: 11, offset: 78271},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78289},
+										pos:  position{line: 2422, col: 11, offset: 78300},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78315},
+										pos:  position{line: 2423, col: 11, offset: 78326},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78341},
+										pos:  position{line: 2424, col: 11, offset: 78352},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39080},
+										pos: position{line: 1267, col: 5, offset: 39091},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39080},
+											pos: position{line: 1267, col: 5, offset: 39091},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39080},
+													pos:        position{line: 1267, col: 5, offset: 39091},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 14, offset: 39089},
+													pos:   position{line: 1267, col: 14, offset: 39100},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90394},
+														pos: position{line: 2852, col: 7, offset: 90405},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90394},
+															pos: position{line: 2852, col: 7, offset: 90405},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90394},
+																pos:        position{line: 2852, col: 7, offset: 90405},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47684,7 +47698,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 22, offset: 39097},
+													pos:        position{line: 1267, col: 22, offset: 39108},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47693,27 +47707,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1271, col: 5, offset: 39216},
+										pos: position{line: 1272, col: 5, offset: 39227},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1271, col: 5, offset: 39216},
+											pos: position{line: 1272, col: 5, offset: 39227},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1271, col: 5, offset: 39216},
+													pos:        position{line: 1272, col: 5, offset: 39227},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1271, col: 10, offset: 39221},
+													pos:   position{line: 1272, col: 10, offset: 39232},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90394},
+														pos: position{line: 2852, col: 7, offset: 90405},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90394},
+															pos: position{line: 2852, col: 7, offset: 90405},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90394},
+																pos:        position{line: 2852, col: 7, offset: 90405},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47723,7 +47737,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1271, col: 18, offset: 39229},
+													pos:        position{line: 1272, col: 18, offset: 39240},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47732,40 +47746,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1310, col: 23, offset: 40705},
+										pos: position{line: 1311, col: 23, offset: 40716},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1310, col: 23, offset: 40705},
+											pos: position{line: 1311, col: 23, offset: 40716},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1310, col: 23, offset: 40705},
+													pos:        position{line: 1311, col: 23, offset: 40716},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1310, col: 29, offset: 40711},
+													pos:   position{line: 1311, col: 29, offset: 40722},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1317, col: 30, offset: 41042},
+														pos: position{line: 1318, col: 30, offset: 41053},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1317, col: 30, offset: 41042},
+															pos: position{line: 1318, col: 30, offset: 41053},
 															expr: &choiceExpr{
-																pos: position{line: 1317, col: 31, offset: 41043},
+																pos: position{line: 1318, col: 31, offset: 41054},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2756, col: 13, offset: 87837},
+																		pos:        position{line: 2757, col: 13, offset: 87848},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90742},
+																		pos: position{line: 2867, col: 10, offset: 90753},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90742},
+																			pos:        position{line: 2867, col: 10, offset: 90753},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47778,23 +47792,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 5, offset: 40750},
+													pos:   position{line: 1312, col: 5, offset: 40761},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1311, col: 11, offset: 40756},
+														pos: position{line: 1312, col: 11, offset: 40767},
 														expr: &actionExpr{
-															pos: position{line: 1311, col: 12, offset: 40757},
+															pos: position{line: 1312, col: 12, offset: 40768},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1311, col: 12, offset: 40757},
+																pos: position{line: 1312, col: 12, offset: 40768},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 12, offset: 40757},
+																		pos: position{line: 1312, col: 12, offset: 40768},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47803,18 +47817,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1311, col: 19, offset: 40764},
+																		pos:        position{line: 1312, col: 19, offset: 40775},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 23, offset: 40768},
+																		pos: position{line: 1312, col: 23, offset: 40779},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47823,28 +47837,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1311, col: 30, offset: 40775},
+																		pos:   position{line: 1312, col: 30, offset: 40786},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41042},
+																			pos: position{line: 1318, col: 30, offset: 41053},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41042},
+																				pos: position{line: 1318, col: 30, offset: 41053},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41043},
+																					pos: position{line: 1318, col: 31, offset: 41054},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2756, col: 13, offset: 87837},
+																							pos:        position{line: 2757, col: 13, offset: 87848},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47862,23 +47876,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 5, offset: 40842},
+													pos:   position{line: 1313, col: 5, offset: 40853},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1312, col: 11, offset: 40848},
+														pos: position{line: 1313, col: 11, offset: 40859},
 														expr: &actionExpr{
-															pos: position{line: 1312, col: 12, offset: 40849},
+															pos: position{line: 1313, col: 12, offset: 40860},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1312, col: 12, offset: 40849},
+																pos: position{line: 1313, col: 12, offset: 40860},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 12, offset: 40849},
+																		pos: position{line: 1313, col: 12, offset: 40860},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47887,18 +47901,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1312, col: 19, offset: 40856},
+																		pos:        position{line: 1313, col: 19, offset: 40867},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 23, offset: 40860},
+																		pos: position{line: 1313, col: 23, offset: 40871},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90742},
+																			pos: position{line: 2867, col: 10, offset: 90753},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90742},
+																				pos:        position{line: 2867, col: 10, offset: 90753},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47907,28 +47921,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1312, col: 30, offset: 40867},
+																		pos:   position{line: 1313, col: 30, offset: 40878},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1317, col: 30, offset: 41042},
+																			pos: position{line: 1318, col: 30, offset: 41053},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1317, col: 30, offset: 41042},
+																				pos: position{line: 1318, col: 30, offset: 41053},
 																				expr: &choiceExpr{
-																					pos: position{line: 1317, col: 31, offset: 41043},
+																					pos: position{line: 1318, col: 31, offset: 41054},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2756, col: 13, offset: 87837},
+																							pos:        position{line: 2757, col: 13, offset: 87848},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90742},
+																							pos: position{line: 2867, col: 10, offset: 90753},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90742},
+																								pos:        position{line: 2867, col: 10, offset: 90753},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47946,7 +47960,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1313, col: 5, offset: 40934},
+													pos:        position{line: 1314, col: 5, offset: 40945},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47955,15 +47969,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78420},
+										pos:  position{line: 2427, col: 11, offset: 78431},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78440},
+										pos:  position{line: 2428, col: 11, offset: 78451},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78463},
+										pos:  position{line: 2429, col: 11, offset: 78474},
 										name: "InlineMenu",
 									},
 								},
@@ -47975,80 +47989,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2432, col: 1, offset: 78520},
+			pos:  position{line: 2433, col: 1, offset: 78531},
 			expr: &actionExpr{
-				pos: position{line: 2434, col: 5, offset: 78608},
+				pos: position{line: 2435, col: 5, offset: 78619},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2434, col: 5, offset: 78608},
+					pos: position{line: 2435, col: 5, offset: 78619},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2434, col: 5, offset: 78608},
+							pos: position{line: 2435, col: 5, offset: 78619},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78685},
+							pos:   position{line: 2438, col: 5, offset: 78696},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2438, col: 9, offset: 78703},
+								pos: position{line: 2439, col: 9, offset: 78714},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1392, col: 26, offset: 44312},
+										pos: position{line: 1393, col: 26, offset: 44323},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1392, col: 26, offset: 44312},
+											pos: position{line: 1393, col: 26, offset: 44323},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1390, col: 32, offset: 44280},
+													pos:        position{line: 1391, col: 32, offset: 44291},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1392, col: 54, offset: 44340},
+													pos:   position{line: 1393, col: 54, offset: 44351},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1396, col: 33, offset: 44553},
+														pos: position{line: 1397, col: 33, offset: 44564},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1396, col: 34, offset: 44554},
+																pos: position{line: 1397, col: 34, offset: 44565},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1396, col: 34, offset: 44554},
+																	pos: position{line: 1397, col: 34, offset: 44565},
 																	expr: &seqExpr{
-																		pos: position{line: 1396, col: 35, offset: 44555},
+																		pos: position{line: 1397, col: 35, offset: 44566},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1396, col: 35, offset: 44555},
+																				pos: position{line: 1397, col: 35, offset: 44566},
 																				expr: &litMatcher{
-																					pos:        position{line: 1390, col: 32, offset: 44280},
+																					pos:        position{line: 1391, col: 32, offset: 44291},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1396, col: 64, offset: 44584,
+																				line: 1397, col: 64, offset: 44595,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1398, col: 11, offset: 44757},
+																pos: position{line: 1399, col: 11, offset: 44768},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1398, col: 11, offset: 44757},
+																	pos: position{line: 1399, col: 11, offset: 44768},
 																	expr: &seqExpr{
-																		pos: position{line: 1398, col: 12, offset: 44758},
+																		pos: position{line: 1399, col: 12, offset: 44769},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1398, col: 12, offset: 44758},
+																				pos: position{line: 1399, col: 12, offset: 44769},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90742},
+																					pos: position{line: 2867, col: 10, offset: 90753},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90742},
+																						pos:        position{line: 2867, col: 10, offset: 90753},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48057,27 +48071,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1398, col: 19, offset: 44765},
+																				pos: position{line: 1399, col: 19, offset: 44776},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90913},
+																					pos: position{line: 2876, col: 12, offset: 90924},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90914},
+																						pos: position{line: 2876, col: 13, offset: 90925},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90914},
+																								pos:        position{line: 2876, col: 13, offset: 90925},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90921},
+																								pos:        position{line: 2876, col: 20, offset: 90932},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90930},
+																								pos:        position{line: 2876, col: 29, offset: 90941},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48087,16 +48101,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1398, col: 28, offset: 44774},
+																				pos: position{line: 1399, col: 28, offset: 44785},
 																				expr: &litMatcher{
-																					pos:        position{line: 1390, col: 32, offset: 44280},
+																					pos:        position{line: 1391, col: 32, offset: 44291},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1398, col: 57, offset: 44803,
+																				line: 1399, col: 57, offset: 44814,
 																			},
 																		},
 																	},
@@ -48106,15 +48120,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1390, col: 32, offset: 44280},
+													pos:        position{line: 1391, col: 32, offset: 44291},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1392, col: 121, offset: 44407},
+													pos: position{line: 1393, col: 121, offset: 44418},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87837},
+														pos:        position{line: 2757, col: 13, offset: 87848},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48125,45 +48139,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1380, col: 26, offset: 43595},
+										pos: position{line: 1381, col: 26, offset: 43606},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1380, col: 26, offset: 43595},
+											pos: position{line: 1381, col: 26, offset: 43606},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1378, col: 32, offset: 43565},
+													pos:        position{line: 1379, col: 32, offset: 43576},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1380, col: 54, offset: 43623},
+													pos:   position{line: 1381, col: 54, offset: 43634},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1384, col: 33, offset: 43836},
+														pos: position{line: 1385, col: 33, offset: 43847},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1384, col: 34, offset: 43837},
+																pos: position{line: 1385, col: 34, offset: 43848},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1384, col: 34, offset: 43837},
+																	pos: position{line: 1385, col: 34, offset: 43848},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1384, col: 35, offset: 43838},
+																			pos: position{line: 1385, col: 35, offset: 43849},
 																			expr: &litMatcher{
-																				pos:        position{line: 1378, col: 32, offset: 43565},
+																				pos:        position{line: 1379, col: 32, offset: 43576},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1384, col: 64, offset: 43867},
+																			pos: position{line: 1385, col: 64, offset: 43878},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48172,27 +48186,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1384, col: 71, offset: 43874},
+																			pos: position{line: 1385, col: 71, offset: 43885},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48202,25 +48216,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1384, col: 80, offset: 43883,
+																			line: 1385, col: 80, offset: 43894,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1384, col: 83, offset: 43886},
+																			pos: position{line: 1385, col: 83, offset: 43897},
 																			expr: &seqExpr{
-																				pos: position{line: 1384, col: 84, offset: 43887},
+																				pos: position{line: 1385, col: 84, offset: 43898},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1384, col: 84, offset: 43887},
+																						pos: position{line: 1385, col: 84, offset: 43898},
 																						expr: &seqExpr{
-																							pos: position{line: 1384, col: 86, offset: 43889},
+																							pos: position{line: 1385, col: 86, offset: 43900},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90803},
+																									pos: position{line: 2871, col: 11, offset: 90814},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90803},
+																										pos: position{line: 2871, col: 11, offset: 90814},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90803},
+																											pos:        position{line: 2871, col: 11, offset: 90814},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48229,7 +48243,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1378, col: 32, offset: 43565},
+																									pos:        position{line: 1379, col: 32, offset: 43576},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -48238,36 +48252,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1384, col: 122, offset: 43925},
+																						pos: position{line: 1385, col: 122, offset: 43936},
 																						expr: &litMatcher{
-																							pos:        position{line: 1378, col: 32, offset: 43565},
+																							pos:        position{line: 1379, col: 32, offset: 43576},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1384, col: 151, offset: 43954},
+																						pos: position{line: 1385, col: 151, offset: 43965},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90913},
+																							pos: position{line: 2876, col: 12, offset: 90924},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90914},
+																								pos: position{line: 2876, col: 13, offset: 90925},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90914},
+																										pos:        position{line: 2876, col: 13, offset: 90925},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90921},
+																										pos:        position{line: 2876, col: 20, offset: 90932},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90930},
+																										pos:        position{line: 2876, col: 29, offset: 90941},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48277,7 +48291,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1384, col: 160, offset: 43963,
+																						line: 1385, col: 160, offset: 43974,
 																					},
 																				},
 																			},
@@ -48286,18 +48300,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1386, col: 11, offset: 44113},
+																pos: position{line: 1387, col: 11, offset: 44124},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1386, col: 12, offset: 44114},
+																	pos: position{line: 1387, col: 12, offset: 44125},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1386, col: 12, offset: 44114},
+																			pos: position{line: 1387, col: 12, offset: 44125},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90742},
+																				pos: position{line: 2867, col: 10, offset: 90753},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90742},
+																					pos:        position{line: 2867, col: 10, offset: 90753},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48306,27 +48320,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1386, col: 19, offset: 44121},
+																			pos: position{line: 1387, col: 19, offset: 44132},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90913},
+																				pos: position{line: 2876, col: 12, offset: 90924},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90914},
+																					pos: position{line: 2876, col: 13, offset: 90925},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90914},
+																							pos:        position{line: 2876, col: 13, offset: 90925},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90921},
+																							pos:        position{line: 2876, col: 20, offset: 90932},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90930},
+																							pos:        position{line: 2876, col: 29, offset: 90941},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48336,16 +48350,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1386, col: 28, offset: 44130},
+																			pos: position{line: 1387, col: 28, offset: 44141},
 																			expr: &litMatcher{
-																				pos:        position{line: 1378, col: 32, offset: 43565},
+																				pos:        position{line: 1379, col: 32, offset: 43576},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1386, col: 57, offset: 44159,
+																			line: 1387, col: 57, offset: 44170,
 																		},
 																	},
 																},
@@ -48354,15 +48368,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1378, col: 32, offset: 43565},
+													pos:        position{line: 1379, col: 32, offset: 43576},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1380, col: 121, offset: 43690},
+													pos: position{line: 1381, col: 121, offset: 43701},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87837},
+														pos:        position{line: 2757, col: 13, offset: 87848},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48373,7 +48387,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 57, offset: 78751},
+										pos:  position{line: 2439, col: 57, offset: 78762},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48385,16 +48399,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2443, col: 1, offset: 78811},
+			pos:  position{line: 2444, col: 1, offset: 78822},
 			expr: &seqExpr{
-				pos: position{line: 2445, col: 5, offset: 78887},
+				pos: position{line: 2446, col: 5, offset: 78898},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2445, col: 5, offset: 78887},
+						pos: position{line: 2446, col: 5, offset: 78898},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2448, col: 5, offset: 78952},
+						pos:  position{line: 2449, col: 5, offset: 78963},
 						name: "QuotedText",
 					},
 				},
@@ -48402,22 +48416,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2450, col: 1, offset: 78965},
+			pos:  position{line: 2451, col: 1, offset: 78976},
 			expr: &actionExpr{
-				pos: position{line: 2452, col: 5, offset: 79047},
+				pos: position{line: 2453, col: 5, offset: 79058},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2452, col: 5, offset: 79047},
+					pos: position{line: 2453, col: 5, offset: 79058},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2452, col: 5, offset: 79047},
+							pos: position{line: 2453, col: 5, offset: 79058},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2455, col: 5, offset: 79118},
+							pos:   position{line: 2456, col: 5, offset: 79129},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2456, col: 9, offset: 79136},
+								pos:  position{line: 2457, col: 9, offset: 79147},
 								name: "Symbol",
 							},
 						},
@@ -48427,103 +48441,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2511, col: 1, offset: 80895},
+			pos:  position{line: 2512, col: 1, offset: 80906},
 			expr: &choiceExpr{
-				pos: position{line: 2513, col: 5, offset: 80925},
+				pos: position{line: 2514, col: 5, offset: 80936},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2513, col: 5, offset: 80925},
+						pos: position{line: 2514, col: 5, offset: 80936},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 5, offset: 80925},
+							pos: position{line: 2514, col: 5, offset: 80936},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2513, col: 5, offset: 80925},
+									pos:        position{line: 2514, col: 5, offset: 80936},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2513, col: 10, offset: 80930},
+									pos: position{line: 2514, col: 10, offset: 80941},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2513, col: 10, offset: 80930},
+											pos:  position{line: 2514, col: 10, offset: 80941},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2542, col: 14, offset: 82034},
+											pos: position{line: 2543, col: 14, offset: 82045},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2542, col: 14, offset: 82034},
+												pos:        position{line: 2543, col: 14, offset: 82045},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2546, col: 14, offset: 82100},
+											pos: position{line: 2547, col: 14, offset: 82111},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2546, col: 14, offset: 82100},
+												pos:        position{line: 2547, col: 14, offset: 82111},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2550, col: 15, offset: 82169},
+											pos: position{line: 2551, col: 15, offset: 82180},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2550, col: 15, offset: 82169},
+												pos:        position{line: 2551, col: 15, offset: 82180},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2554, col: 13, offset: 82234},
+											pos: position{line: 2555, col: 13, offset: 82245},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2554, col: 13, offset: 82234},
+												pos:        position{line: 2555, col: 13, offset: 82245},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2582, col: 21, offset: 82804},
+											pos: position{line: 2583, col: 21, offset: 82815},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2582, col: 21, offset: 82804},
+												pos:        position{line: 2583, col: 21, offset: 82815},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 5, offset: 82390},
+											pos: position{line: 2562, col: 5, offset: 82401},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2561, col: 5, offset: 82390},
+												pos: position{line: 2562, col: 5, offset: 82401},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2561, col: 5, offset: 82390},
+														pos:        position{line: 2562, col: 5, offset: 82401},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2562, col: 5, offset: 82400},
+														pos: position{line: 2563, col: 5, offset: 82411},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2566, col: 6, offset: 82487},
+														pos: position{line: 2567, col: 6, offset: 82498},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90742},
+																pos: position{line: 2867, col: 10, offset: 90753},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90742},
+																	pos:        position{line: 2867, col: 10, offset: 90753},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48531,30 +48545,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2566, col: 14, offset: 82495},
+																pos: position{line: 2567, col: 14, offset: 82506},
 																expr: &choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91140},
+																	pos: position{line: 2889, col: 8, offset: 91151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90913},
+																			pos: position{line: 2876, col: 12, offset: 90924},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90914},
+																				pos: position{line: 2876, col: 13, offset: 90925},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90914},
+																						pos:        position{line: 2876, col: 13, offset: 90925},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90921},
+																						pos:        position{line: 2876, col: 20, offset: 90932},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90930},
+																						pos:        position{line: 2876, col: 29, offset: 90941},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48563,9 +48577,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91090},
+																			pos: position{line: 2886, col: 8, offset: 91101},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91091,
+																				line: 2886, col: 9, offset: 91102,
 																			},
 																		},
 																	},
@@ -48577,53 +48591,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82615},
+											pos: position{line: 2572, col: 5, offset: 82626},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82615},
+												pos: position{line: 2572, col: 5, offset: 82626},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82615},
+														pos:        position{line: 2572, col: 5, offset: 82626},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82625},
+														pos: position{line: 2573, col: 5, offset: 82636},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2576, col: 5, offset: 82714},
+														pos: position{line: 2577, col: 5, offset: 82725},
 														expr: &choiceExpr{
-															pos: position{line: 2576, col: 7, offset: 82716},
+															pos: position{line: 2577, col: 7, offset: 82727},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2756, col: 13, offset: 87837},
+																	pos:        position{line: 2757, col: 13, offset: 87848},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90913},
+																	pos: position{line: 2876, col: 12, offset: 90924},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90914},
+																		pos: position{line: 2876, col: 13, offset: 90925},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90914},
+																				pos:        position{line: 2876, col: 13, offset: 90925},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90921},
+																				pos:        position{line: 2876, col: 20, offset: 90932},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90930},
+																				pos:        position{line: 2876, col: 29, offset: 90941},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48632,9 +48646,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -48644,30 +48658,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2586, col: 20, offset: 82874},
+											pos: position{line: 2587, col: 20, offset: 82885},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2586, col: 20, offset: 82874},
+												pos:        position{line: 2587, col: 20, offset: 82885},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2590, col: 21, offset: 82945},
+											pos: position{line: 2591, col: 21, offset: 82956},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2590, col: 21, offset: 82945},
+												pos:        position{line: 2591, col: 21, offset: 82956},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2594, col: 20, offset: 83015},
+											pos: position{line: 2595, col: 20, offset: 83026},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2594, col: 20, offset: 83015},
+												pos:        position{line: 2595, col: 20, offset: 83026},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48679,73 +48693,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2517, col: 7, offset: 81185},
+						pos:  position{line: 2518, col: 7, offset: 81196},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 14, offset: 82034},
+						pos: position{line: 2543, col: 14, offset: 82045},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2542, col: 14, offset: 82034},
+							pos:        position{line: 2543, col: 14, offset: 82045},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 14, offset: 82100},
+						pos: position{line: 2547, col: 14, offset: 82111},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2546, col: 14, offset: 82100},
+							pos:        position{line: 2547, col: 14, offset: 82111},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 15, offset: 82169},
+						pos: position{line: 2551, col: 15, offset: 82180},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2550, col: 15, offset: 82169},
+							pos:        position{line: 2551, col: 15, offset: 82180},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2554, col: 13, offset: 82234},
+						pos: position{line: 2555, col: 13, offset: 82245},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2554, col: 13, offset: 82234},
+							pos:        position{line: 2555, col: 13, offset: 82245},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 5, offset: 82390},
+						pos: position{line: 2562, col: 5, offset: 82401},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2561, col: 5, offset: 82390},
+							pos: position{line: 2562, col: 5, offset: 82401},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2561, col: 5, offset: 82390},
+									pos:        position{line: 2562, col: 5, offset: 82401},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2562, col: 5, offset: 82400},
+									pos: position{line: 2563, col: 5, offset: 82411},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2566, col: 6, offset: 82487},
+									pos: position{line: 2567, col: 6, offset: 82498},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90742},
+											pos: position{line: 2867, col: 10, offset: 90753},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90742},
+												pos:        position{line: 2867, col: 10, offset: 90753},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48753,30 +48767,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2566, col: 14, offset: 82495},
+											pos: position{line: 2567, col: 14, offset: 82506},
 											expr: &choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91140},
+												pos: position{line: 2889, col: 8, offset: 91151},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90913},
+														pos: position{line: 2876, col: 12, offset: 90924},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90914},
+															pos: position{line: 2876, col: 13, offset: 90925},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90914},
+																	pos:        position{line: 2876, col: 13, offset: 90925},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90921},
+																	pos:        position{line: 2876, col: 20, offset: 90932},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90930},
+																	pos:        position{line: 2876, col: 29, offset: 90941},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48785,9 +48799,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91090},
+														pos: position{line: 2886, col: 8, offset: 91101},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91091,
+															line: 2886, col: 9, offset: 91102,
 														},
 													},
 												},
@@ -48799,53 +48813,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82615},
+						pos: position{line: 2572, col: 5, offset: 82626},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82615},
+							pos: position{line: 2572, col: 5, offset: 82626},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82615},
+									pos:        position{line: 2572, col: 5, offset: 82626},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82625},
+									pos: position{line: 2573, col: 5, offset: 82636},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2576, col: 5, offset: 82714},
+									pos: position{line: 2577, col: 5, offset: 82725},
 									expr: &choiceExpr{
-										pos: position{line: 2576, col: 7, offset: 82716},
+										pos: position{line: 2577, col: 7, offset: 82727},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87837},
+												pos:        position{line: 2757, col: 13, offset: 87848},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90913},
+												pos: position{line: 2876, col: 12, offset: 90924},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90914},
+													pos: position{line: 2876, col: 13, offset: 90925},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90914},
+															pos:        position{line: 2876, col: 13, offset: 90925},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90921},
+															pos:        position{line: 2876, col: 20, offset: 90932},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90930},
+															pos:        position{line: 2876, col: 29, offset: 90941},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48854,9 +48868,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2885, col: 8, offset: 91090},
+												pos: position{line: 2886, col: 8, offset: 91101},
 												expr: &anyMatcher{
-													line: 2885, col: 9, offset: 91091,
+													line: 2886, col: 9, offset: 91102,
 												},
 											},
 										},
@@ -48866,40 +48880,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 21, offset: 82804},
+						pos: position{line: 2583, col: 21, offset: 82815},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2582, col: 21, offset: 82804},
+							pos:        position{line: 2583, col: 21, offset: 82815},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 20, offset: 82874},
+						pos: position{line: 2587, col: 20, offset: 82885},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2586, col: 20, offset: 82874},
+							pos:        position{line: 2587, col: 20, offset: 82885},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 21, offset: 82945},
+						pos: position{line: 2591, col: 21, offset: 82956},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 21, offset: 82945},
+							pos:        position{line: 2591, col: 21, offset: 82956},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 20, offset: 83015},
+						pos: position{line: 2595, col: 20, offset: 83026},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 20, offset: 83015},
+							pos:        position{line: 2595, col: 20, offset: 83026},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48910,43 +48924,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2528, col: 1, offset: 81375},
+			pos:  position{line: 2529, col: 1, offset: 81386},
 			expr: &choiceExpr{
-				pos: position{line: 2529, col: 5, offset: 81397},
+				pos: position{line: 2530, col: 5, offset: 81408},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2529, col: 5, offset: 81397},
+						pos: position{line: 2530, col: 5, offset: 81408},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2529, col: 5, offset: 81397},
+							pos: position{line: 2530, col: 5, offset: 81408},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2529, col: 5, offset: 81397},
+									pos:        position{line: 2530, col: 5, offset: 81408},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2529, col: 11, offset: 81403},
+									pos: position{line: 2530, col: 11, offset: 81414},
 									expr: &seqExpr{
-										pos: position{line: 2092, col: 5, offset: 67607},
+										pos: position{line: 2093, col: 5, offset: 67618},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2092, col: 5, offset: 67607},
+												pos:        position{line: 2093, col: 5, offset: 67618},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2093, col: 5, offset: 67616},
+												pos: position{line: 2094, col: 5, offset: 67627},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2097, col: 5, offset: 67739},
+												pos: position{line: 2098, col: 5, offset: 67750},
 												expr: &notExpr{
-													pos: position{line: 2097, col: 7, offset: 67741},
+													pos: position{line: 2098, col: 7, offset: 67752},
 													expr: &litMatcher{
-														pos:        position{line: 2097, col: 8, offset: 67742},
+														pos:        position{line: 2098, col: 8, offset: 67753},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48960,21 +48974,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 7, offset: 81556},
+						pos: position{line: 2533, col: 7, offset: 81567},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2532, col: 7, offset: 81556},
+							pos: position{line: 2533, col: 7, offset: 81567},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2532, col: 7, offset: 81556},
+									pos:        position{line: 2533, col: 7, offset: 81567},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2532, col: 13, offset: 81562},
+									pos: position{line: 2533, col: 13, offset: 81573},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2532, col: 14, offset: 81563},
+										pos:  position{line: 2533, col: 14, offset: 81574},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48982,38 +48996,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2535, col: 7, offset: 81713},
+						pos: position{line: 2536, col: 7, offset: 81724},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2535, col: 7, offset: 81713},
+							pos: position{line: 2536, col: 7, offset: 81724},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2535, col: 7, offset: 81713},
+									pos:        position{line: 2536, col: 7, offset: 81724},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2535, col: 12, offset: 81718},
+									pos: position{line: 2536, col: 12, offset: 81729},
 									expr: &seqExpr{
-										pos: position{line: 2092, col: 5, offset: 67607},
+										pos: position{line: 2093, col: 5, offset: 67618},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2092, col: 5, offset: 67607},
+												pos:        position{line: 2093, col: 5, offset: 67618},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2093, col: 5, offset: 67616},
+												pos: position{line: 2094, col: 5, offset: 67627},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2097, col: 5, offset: 67739},
+												pos: position{line: 2098, col: 5, offset: 67750},
 												expr: &notExpr{
-													pos: position{line: 2097, col: 7, offset: 67741},
+													pos: position{line: 2098, col: 7, offset: 67752},
 													expr: &litMatcher{
-														pos:        position{line: 2097, col: 8, offset: 67742},
+														pos:        position{line: 2098, col: 8, offset: 67753},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49027,21 +49041,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2538, col: 7, offset: 81871},
+						pos: position{line: 2539, col: 7, offset: 81882},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2538, col: 7, offset: 81871},
+							pos: position{line: 2539, col: 7, offset: 81882},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2538, col: 7, offset: 81871},
+									pos:        position{line: 2539, col: 7, offset: 81882},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2538, col: 12, offset: 81876},
+									pos: position{line: 2539, col: 12, offset: 81887},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2538, col: 13, offset: 81877},
+										pos:  position{line: 2539, col: 13, offset: 81888},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49053,63 +49067,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2671, col: 1, offset: 84917},
+			pos:  position{line: 2672, col: 1, offset: 84928},
 			expr: &actionExpr{
-				pos: position{line: 2671, col: 26, offset: 84942},
+				pos: position{line: 2672, col: 26, offset: 84953},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2671, col: 26, offset: 84942},
+					pos: position{line: 2672, col: 26, offset: 84953},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2671, col: 26, offset: 84942},
+							pos:   position{line: 2672, col: 26, offset: 84953},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2671, col: 31, offset: 84947},
+								pos: position{line: 2672, col: 31, offset: 84958},
 								expr: &actionExpr{
-									pos: position{line: 2676, col: 5, offset: 85010},
+									pos: position{line: 2677, col: 5, offset: 85021},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2676, col: 5, offset: 85010},
+										pos: position{line: 2677, col: 5, offset: 85021},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91076},
+												pos: position{line: 2884, col: 11, offset: 91087},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91078,
+													line: 2884, col: 13, offset: 91089,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85136},
+												pos:   position{line: 2680, col: 5, offset: 85147},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 16, offset: 85147},
+													pos: position{line: 2680, col: 16, offset: 85158},
 													expr: &actionExpr{
-														pos: position{line: 2679, col: 17, offset: 85148},
+														pos: position{line: 2680, col: 17, offset: 85159},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2679, col: 17, offset: 85148},
+															pos: position{line: 2680, col: 17, offset: 85159},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2679, col: 17, offset: 85148},
+																	pos:   position{line: 2680, col: 17, offset: 85159},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2858, col: 12, offset: 90569},
+																		pos: position{line: 2859, col: 12, offset: 90580},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2858, col: 13, offset: 90570},
+																			pos: position{line: 2859, col: 13, offset: 90581},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2858, col: 13, offset: 90570},
+																					pos: position{line: 2859, col: 13, offset: 90581},
 																					expr: &litMatcher{
-																						pos:        position{line: 2858, col: 13, offset: 90570},
+																						pos:        position{line: 2859, col: 13, offset: 90581},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2858, col: 18, offset: 90575},
+																					pos: position{line: 2859, col: 18, offset: 90586},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2858, col: 18, offset: 90575},
+																						pos:        position{line: 2859, col: 18, offset: 90586},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49121,7 +49135,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2679, col: 27, offset: 85158},
+																	pos:        position{line: 2680, col: 27, offset: 85169},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49132,38 +49146,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2680, col: 5, offset: 85186},
+												pos:   position{line: 2681, col: 5, offset: 85197},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2680, col: 12, offset: 85193},
+													pos: position{line: 2681, col: 12, offset: 85204},
 													expr: &choiceExpr{
-														pos: position{line: 2681, col: 9, offset: 85203},
+														pos: position{line: 2682, col: 9, offset: 85214},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2681, col: 9, offset: 85203},
+																pos: position{line: 2682, col: 9, offset: 85214},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 9, offset: 85203},
+																	pos:        position{line: 2682, col: 9, offset: 85214},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85250},
+																pos: position{line: 2683, col: 11, offset: 85261},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85250},
+																	pos:        position{line: 2683, col: 11, offset: 85261},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85298},
+																pos: position{line: 2684, col: 11, offset: 85309},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85298},
+																	pos:        position{line: 2684, col: 11, offset: 85309},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49174,38 +49188,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85348},
+												pos:   position{line: 2686, col: 5, offset: 85359},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 12, offset: 85355},
+													pos: position{line: 2686, col: 12, offset: 85366},
 													expr: &choiceExpr{
-														pos: position{line: 2686, col: 9, offset: 85365},
+														pos: position{line: 2687, col: 9, offset: 85376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2686, col: 9, offset: 85365},
+																pos: position{line: 2687, col: 9, offset: 85376},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 9, offset: 85365},
+																	pos:        position{line: 2687, col: 9, offset: 85376},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2687, col: 11, offset: 85412},
+																pos: position{line: 2688, col: 11, offset: 85423},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 11, offset: 85412},
+																	pos:        position{line: 2688, col: 11, offset: 85423},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 11, offset: 85462},
+																pos: position{line: 2689, col: 11, offset: 85473},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 11, offset: 85462},
+																	pos:        position{line: 2689, col: 11, offset: 85473},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49216,32 +49230,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85513},
+												pos:   position{line: 2691, col: 5, offset: 85524},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85520},
+													pos: position{line: 2691, col: 12, offset: 85531},
 													expr: &choiceExpr{
-														pos: position{line: 2690, col: 13, offset: 85521},
+														pos: position{line: 2691, col: 13, offset: 85532},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90569},
+																pos: position{line: 2859, col: 12, offset: 90580},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90570},
+																	pos: position{line: 2859, col: 13, offset: 90581},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90570},
+																			pos: position{line: 2859, col: 13, offset: 90581},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90570},
+																				pos:        position{line: 2859, col: 13, offset: 90581},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90575},
+																			pos: position{line: 2859, col: 18, offset: 90586},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90575},
+																				pos:        position{line: 2859, col: 18, offset: 90586},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49252,10 +49266,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 24, offset: 85532},
+																pos: position{line: 2691, col: 24, offset: 85543},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 24, offset: 85532},
+																	pos:        position{line: 2691, col: 24, offset: 85543},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49266,15 +49280,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85574},
+												pos:   position{line: 2692, col: 5, offset: 85585},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 11, offset: 85580},
+													pos: position{line: 2692, col: 11, offset: 85591},
 													expr: &actionExpr{
-														pos: position{line: 2691, col: 12, offset: 85581},
+														pos: position{line: 2692, col: 12, offset: 85592},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2691, col: 12, offset: 85581},
+															pos:        position{line: 2692, col: 12, offset: 85592},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49284,12 +49298,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2693, col: 5, offset: 85711},
+												pos:   position{line: 2694, col: 5, offset: 85722},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2693, col: 11, offset: 85717},
+													pos: position{line: 2694, col: 11, offset: 85728},
 													expr: &litMatcher{
-														pos:        position{line: 2693, col: 12, offset: 85718},
+														pos:        position{line: 2694, col: 12, offset: 85729},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49297,7 +49311,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2694, col: 5, offset: 85728},
+												pos: position{line: 2695, col: 5, offset: 85739},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49306,9 +49320,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91090},
+							pos: position{line: 2886, col: 8, offset: 91101},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91091,
+								line: 2886, col: 9, offset: 91102,
 							},
 						},
 					},
@@ -49317,23 +49331,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2721, col: 1, offset: 86737},
+			pos:  position{line: 2722, col: 1, offset: 86748},
 			expr: &actionExpr{
-				pos: position{line: 2722, col: 5, offset: 86760},
+				pos: position{line: 2723, col: 5, offset: 86771},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2722, col: 5, offset: 86760},
+					pos: position{line: 2723, col: 5, offset: 86771},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2722, col: 5, offset: 86760},
+							pos:   position{line: 2723, col: 5, offset: 86771},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 18, offset: 87501},
+								pos: position{line: 2746, col: 18, offset: 87512},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87502},
+									pos: position{line: 2746, col: 19, offset: 87513},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87502},
+										pos:        position{line: 2746, col: 19, offset: 87513},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49344,25 +49358,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2723, col: 5, offset: 86786},
+							pos: position{line: 2724, col: 5, offset: 86797},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2727, col: 5, offset: 86914},
+							pos:        position{line: 2728, col: 5, offset: 86925},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2728, col: 5, offset: 86924},
+							pos:   position{line: 2729, col: 5, offset: 86935},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 19, offset: 87577},
+								pos: position{line: 2750, col: 19, offset: 87588},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87577},
+									pos: position{line: 2750, col: 19, offset: 87588},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87577},
+										pos:        position{line: 2750, col: 19, offset: 87588},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49372,36 +49386,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86952},
+							pos:   position{line: 2730, col: 5, offset: 86963},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2729, col: 17, offset: 86964},
+								pos:  position{line: 2730, col: 17, offset: 86975},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91140},
+							pos: position{line: 2889, col: 8, offset: 91151},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90913},
+									pos: position{line: 2876, col: 12, offset: 90924},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90914},
+										pos: position{line: 2876, col: 13, offset: 90925},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90914},
+												pos:        position{line: 2876, col: 13, offset: 90925},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90921},
+												pos:        position{line: 2876, col: 20, offset: 90932},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90930},
+												pos:        position{line: 2876, col: 29, offset: 90941},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49410,9 +49424,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91090},
+									pos: position{line: 2886, col: 8, offset: 91101},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91091,
+										line: 2886, col: 9, offset: 91102,
 									},
 								},
 							},
@@ -49423,23 +49437,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2733, col: 1, offset: 87112},
+			pos:  position{line: 2734, col: 1, offset: 87123},
 			expr: &actionExpr{
-				pos: position{line: 2734, col: 5, offset: 87136},
+				pos: position{line: 2735, col: 5, offset: 87147},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2734, col: 5, offset: 87136},
+					pos: position{line: 2735, col: 5, offset: 87147},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2734, col: 5, offset: 87136},
+							pos:   position{line: 2735, col: 5, offset: 87147},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 18, offset: 87501},
+								pos: position{line: 2746, col: 18, offset: 87512},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87502},
+									pos: position{line: 2746, col: 19, offset: 87513},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87502},
+										pos:        position{line: 2746, col: 19, offset: 87513},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49450,25 +49464,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2735, col: 5, offset: 87162},
+							pos: position{line: 2736, col: 5, offset: 87173},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2739, col: 5, offset: 87290},
+							pos:        position{line: 2740, col: 5, offset: 87301},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87299},
+							pos:   position{line: 2741, col: 5, offset: 87310},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 19, offset: 87577},
+								pos: position{line: 2750, col: 19, offset: 87588},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87577},
+									pos: position{line: 2750, col: 19, offset: 87588},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87577},
+										pos:        position{line: 2750, col: 19, offset: 87588},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49478,10 +49492,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87327},
+							pos:   position{line: 2742, col: 5, offset: 87338},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2741, col: 17, offset: 87339},
+								pos:  position{line: 2742, col: 17, offset: 87350},
 								name: "InlineAttributes",
 							},
 						},
@@ -49491,43 +49505,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2820, col: 1, offset: 89389},
+			pos:  position{line: 2821, col: 1, offset: 89400},
 			expr: &actionExpr{
-				pos: position{line: 2820, col: 17, offset: 89405},
+				pos: position{line: 2821, col: 17, offset: 89416},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2820, col: 17, offset: 89405},
+					pos:   position{line: 2821, col: 17, offset: 89416},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2837, col: 5, offset: 89859},
+						pos: position{line: 2838, col: 5, offset: 89870},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2837, col: 5, offset: 89859},
+							pos:   position{line: 2838, col: 5, offset: 89870},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2837, col: 14, offset: 89868},
+								pos: position{line: 2838, col: 14, offset: 89879},
 								expr: &choiceExpr{
-									pos: position{line: 2838, col: 9, offset: 89878},
+									pos: position{line: 2839, col: 9, offset: 89889},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2838, col: 9, offset: 89878},
+											pos: position{line: 2839, col: 9, offset: 89889},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2838, col: 9, offset: 89878},
+												pos: position{line: 2839, col: 9, offset: 89889},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2838, col: 9, offset: 89878},
+														pos: position{line: 2839, col: 9, offset: 89889},
 														expr: &litMatcher{
-															pos:        position{line: 2838, col: 10, offset: 89879},
+															pos:        position{line: 2839, col: 10, offset: 89890},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2839, col: 9, offset: 89907},
+														pos: position{line: 2840, col: 9, offset: 89918},
 														expr: &charClassMatcher{
-															pos:        position{line: 2839, col: 10, offset: 89908},
+															pos:        position{line: 2840, col: 10, offset: 89919},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49538,27 +49552,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2842, col: 11, offset: 90120},
+											pos: position{line: 2843, col: 11, offset: 90131},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2842, col: 11, offset: 90120},
+													pos:        position{line: 2843, col: 11, offset: 90131},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2842, col: 19, offset: 90128},
+													pos: position{line: 2843, col: 19, offset: 90139},
 													expr: &seqExpr{
-														pos: position{line: 2842, col: 21, offset: 90130},
+														pos: position{line: 2843, col: 21, offset: 90141},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2842, col: 21, offset: 90130},
+																pos: position{line: 2843, col: 21, offset: 90141},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90742},
+																	pos: position{line: 2867, col: 10, offset: 90753},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90742},
+																		pos:        position{line: 2867, col: 10, offset: 90753},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49567,11 +49581,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2842, col: 28, offset: 90137},
+																pos: position{line: 2843, col: 28, offset: 90148},
 																expr: &notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91090},
+																	pos: position{line: 2886, col: 8, offset: 91101},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91091,
+																		line: 2886, col: 9, offset: 91102,
 																	},
 																},
 															},
@@ -49581,44 +49595,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20128},
+											pos: position{line: 637, col: 5, offset: 20139},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20128},
+												pos: position{line: 637, col: 5, offset: 20139},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20128},
+														pos: position{line: 637, col: 5, offset: 20139},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20200},
+														pos:   position{line: 640, col: 5, offset: 20211},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20209},
+															pos: position{line: 640, col: 14, offset: 20220},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20338},
+																	pos: position{line: 646, col: 5, offset: 20349},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20338},
+																		pos: position{line: 646, col: 5, offset: 20349},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20338},
+																				pos:        position{line: 646, col: 5, offset: 20349},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20346},
+																				pos:   position{line: 646, col: 13, offset: 20357},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonFileLocation32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49626,9 +49640,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49641,7 +49655,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20365},
+																				pos:        position{line: 646, col: 32, offset: 20376},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49650,28 +49664,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20606},
+																	pos: position{line: 653, col: 5, offset: 20617},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20606},
+																		pos: position{line: 653, col: 5, offset: 20617},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20606},
+																				pos:        position{line: 653, col: 5, offset: 20617},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20610},
+																				pos:   position{line: 653, col: 9, offset: 20621},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonFileLocation42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49679,9 +49693,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49694,7 +49708,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20629},
+																				pos:        position{line: 653, col: 28, offset: 20640},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49703,28 +49717,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20810},
+																	pos: position{line: 659, col: 25, offset: 20821},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20810},
+																		pos: position{line: 659, col: 25, offset: 20821},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20810},
+																				pos:        position{line: 659, col: 25, offset: 20821},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20822},
+																				pos:   position{line: 659, col: 37, offset: 20833},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonFileLocation52,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49732,9 +49746,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49747,33 +49761,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20841},
+																				pos:   position{line: 659, col: 56, offset: 20852},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20847},
+																					pos: position{line: 659, col: 62, offset: 20858},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21142},
+																							pos: position{line: 667, col: 17, offset: 21153},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21142},
+																									pos:        position{line: 667, col: 17, offset: 21153},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21146},
+																									pos:   position{line: 667, col: 21, offset: 21157},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21153},
+																													pos:        position{line: 667, col: 28, offset: 21164},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49781,12 +49795,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21207},
+																													pos: position{line: 669, col: 9, offset: 21218},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21207},
+																														pos:        position{line: 669, col: 9, offset: 21218},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49803,7 +49817,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20863},
+																				pos:        position{line: 659, col: 78, offset: 20874},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49812,28 +49826,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20981},
+																	pos: position{line: 663, col: 25, offset: 20992},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20981},
+																		pos: position{line: 663, col: 25, offset: 20992},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20981},
+																				pos:        position{line: 663, col: 25, offset: 20992},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20994},
+																				pos:   position{line: 663, col: 38, offset: 21005},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 319, col: 18, offset: 9747},
 																					run: (*parser).callonFileLocation74,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 319, col: 18, offset: 9747},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 319, col: 18, offset: 9747},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49841,9 +49855,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 319, col: 29, offset: 9758},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49856,33 +49870,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21013},
+																				pos:   position{line: 663, col: 57, offset: 21024},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21019},
+																					pos: position{line: 663, col: 63, offset: 21030},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21142},
+																						pos: position{line: 667, col: 17, offset: 21153},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21142},
+																							pos: position{line: 667, col: 17, offset: 21153},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21142},
+																									pos:        position{line: 667, col: 17, offset: 21153},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21146},
+																									pos:   position{line: 667, col: 21, offset: 21157},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21153},
+																										pos: position{line: 667, col: 28, offset: 21164},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21153},
+																												pos: position{line: 667, col: 28, offset: 21164},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21153},
+																													pos:        position{line: 667, col: 28, offset: 21164},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49890,12 +49904,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21207},
+																												pos: position{line: 669, col: 9, offset: 21218},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21207},
+																													pos: position{line: 669, col: 9, offset: 21218},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21207},
+																														pos:        position{line: 669, col: 9, offset: 21218},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49912,7 +49926,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21035},
+																				pos:        position{line: 663, col: 79, offset: 21046},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49927,27 +49941,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37216},
+											pos: position{line: 1207, col: 23, offset: 37227},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37216},
+												pos: position{line: 1207, col: 23, offset: 37227},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37184},
+														pos:        position{line: 1205, col: 32, offset: 37195},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37244},
+														pos:   position{line: 1207, col: 51, offset: 37255},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37249},
+															pos: position{line: 1207, col: 56, offset: 37260},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37249},
+																pos: position{line: 1207, col: 56, offset: 37260},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37249},
+																	pos:        position{line: 1207, col: 56, offset: 37260},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49957,7 +49971,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37184},
+														pos:        position{line: 1205, col: 32, offset: 37195},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -49966,10 +49980,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2845, col: 11, offset: 90257},
+											pos: position{line: 2846, col: 11, offset: 90268},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2845, col: 11, offset: 90257},
+												pos:        position{line: 2846, col: 11, offset: 90268},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -55488,8 +55502,9 @@ func (p *parser) callonAttributeDeclaration13() (interface{}, error) {
 }
 
 func (c *current) onAttributeDeclaration21() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
@@ -55498,6 +55513,17 @@ func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
 	return p.cur.onAttributeDeclaration21()
 }
 
+func (c *current) onAttributeDeclaration24() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonAttributeDeclaration24() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclaration24()
+}
+
 func (c *current) onAttributeDeclaration1(name, value interface{}) (interface{}, error) {
 	return types.NewAttributeDeclaration(name.(string), value, string(c.text))
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 3d6859a..b9625de 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -307,6 +307,7 @@ AttributeDeclaration <-
             return value, nil
         }
     )? 
+    Space*
     EOL
     {
         return types.NewAttributeDeclaration(name.(string), value, string(c.text))
-- 
2.43.0


From 0e2acaaf68cc45e1a69be64b3fede74eeec5fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 070/117] fix: do not change the configuration of the caller
 when converting a file

ConvertFile recorded the modification time of the file in the given
configuration: the next conversions with this configuration were then
rendered with this time.
---
 libasciidoc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index e620154..e4134a8 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -41,8 +41,10 @@ func ConvertFile(output io.Writer, config *configuration.Configuration) (types.M
 	if err != nil {
 		return types.Metadata{}, errors.Wrapf(err, "error opening %s", config.Filename)
 	}
-	config.LastUpdated = stat.ModTime()
-	return Convert(file, output, config)
+	// (the configuration of the caller is left unchanged)
+	c := *config
+	c.LastUpdated = stat.ModTime()
+	return Convert(file, output, &c)
 }
 
 // Convert converts the content of the given reader `r` into a full output document, written in the given writer `output`.
-- 
2.43.0


From dbb14799ddb3b26012985d61029b6d746f8b403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 071/117] fix: do not share the attributes of the caller
 between configurations

WithAttributes kept the given map: the other settings then changed the
attributes of the caller (and of the other configurations made with them),
and the attributes of the previous settings were lost.
---
 pkg/configuration/configuration.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 69ab6c2..95e5c0b 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -63,9 +63,12 @@ func WithLastUpdated(value time.Time) Setting {
 }
 
 // WithAttributes function to set the `attribute overrides`
+// (in addition to the ones of the other settings, and without any change in the given attributes)
 func WithAttributes(attrs map[string]interface{}) Setting {
 	return func(config *Configuration) {
-		config.Attributes = attrs
+		for k, v := range attrs {
+			config.Attributes[k] = v
+		}
 	}
 }
 
-- 
2.43.0


From c8c5c9e813b2567796b5fed9cf6c8025e6b0aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 072/117] fix: do not double the line breaks after highlighted
 comments

---
 pkg/renderer/sgml/delimited_block_source.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 29d4e3a..886beb9 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -135,7 +135,8 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 			}
 			result.WriteString(renderedCallout)
 		}
-		if i < len(lines)-1 {
+		// (the tokens of some languages already end with a linefeed)
+		if i < len(lines)-1 && (len(callouts) > 0 || !endsWithLinefeed(highlightedLineBuf.String())) {
 			result.WriteRune('\n')
 		}
 
@@ -146,6 +147,14 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	return result.String(), highlighter, language, nil
 }
 
+// endsWithLinefeed checks if the last character of the given highlighted content is a linefeed
+func endsWithLinefeed(content string) bool {
+	for strings.HasSuffix(content, "</span>") {
+		content = strings.TrimSuffix(content, "</span>")
+	}
+	return strings.HasSuffix(content, "\n")
+}
+
 func (r *sgmlRenderer) renderSourceLine(_ *context, line interface{}) (string, []*types.Callout, error) {
 	elements, ok := line.([]interface{})
 	if !ok {
-- 
2.43.0


From 266b243f02fe75f28b6701ec011e09ee254d7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:12 +0000
Subject: [PATCH 073/117] fix: render the source blocks with markup when a
 highlighter is set

---
 pkg/renderer/sgml/delimited_block_source.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 886beb9..4490d2d 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -75,7 +75,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	language := b.Attributes.GetAsStringWithDefault(types.AttrLanguage, "")
 
 	// render without syntax highlight
-	if language == "" || (highlighter != "chroma" && highlighter != "pygments") {
+	if language == "" || (highlighter != "chroma" && highlighter != "pygments") || !isPlainSource(b.Elements) {
 		log.Debug("rendering souce block without syntax highlighting")
 		content, err := r.renderElements(ctx, b.Elements)
 		return content, highlighter, language, err
@@ -147,6 +147,19 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	return result.String(), highlighter, language, nil
 }
 
+// isPlainSource checks if the given elements can be highlighted, i.e., if there is no other markup
+// (because of custom substitutions)
+func isPlainSource(elements []interface{}) bool {
+	for _, e := range elements {
+		switch e.(type) {
+		case *types.StringElement, *types.SpecialCharacter, *types.Callout:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // endsWithLinefeed checks if the last character of the given highlighted content is a linefeed
 func endsWithLinefeed(content string) bool {
 	for strings.HasSuffix(content, "</span>") {
-- 
2.43.0


From 170f488f446b345606b59c039620f8639f34e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 074/117] fix: escape the special characters when the
 attributes are substituted after

---
 pkg/parser/document_processing_apply_substitutions.go | 11 ++++++++---
 pkg/parser/document_processing_refine_fragments.go    |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1a56c0e..5446240 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -731,7 +731,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
 // Also, does not parse the content of the placeholders, but restores them at the end.
 func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
-	serialized, placeholders, err := serialize(content)
+	serialized, placeholders, err := serialize(content, subs)
 	if err != nil {
 		return nil, err
 	}
@@ -778,7 +778,8 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	return elements, nil
 }
 
-func serialize(content interface{}) ([]byte, *placeholders, error) {
+// serialize serializes the given content, so it can be parsed with the given substitutions
+func serialize(content interface{}, subs *substitutions) ([]byte, *placeholders, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("serializing:\n%v", spew.Sdump(content))
 	}
@@ -799,7 +800,11 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 			case *types.StringElement:
 				result.WriteString(element.Content)
 			case *types.SpecialCharacter:
-				result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
+				if subs == nil || subs.contains(SpecialCharacters) {
+					result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
+				} else { // would not be escaped anymore
+					result.WriteString(placeholders.add(element).String())
+				}
 			default:
 				// replace with placeholder
 				p := placeholders.add(element)
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 7a3d1bf..4aaa8dd 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -148,7 +148,7 @@ func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 }
 
 func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, error) {
-	content, placeholders, err := serialize(elements)
+	content, placeholders, err := serialize(elements, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 971128499a65c5f38ab53dd03cba541baebf2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 075/117] fix: accept spaces around the names of substitutions

---
 pkg/parser/document_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 0c70c0c..623f4ce 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -94,6 +94,9 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 		return defaultSubstitutions(b), nil
 	}
 	subs := strings.Split(attrSub, ",")
+	for i := range subs {
+		subs[i] = strings.TrimSpace(subs[i])
+	}
 	var result *substitutions
 	// when dealing with incremental substitutions, use default sub as a baseline and append or prepend the incremental subs
 	if allIncremental(subs) {
@@ -106,6 +109,7 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 	for _, sub := range subs {
 		// log.Debugf("checking subs '%s'", sub)
 		switch {
+		case sub == "": // nothing to add
 		case strings.HasSuffix(sub, "+"): // prepend
 			if err := result.prepend(strings.TrimSuffix(sub, "+")); err != nil {
 				return nil, err
-- 
2.43.0


From 50d7c721ad1205a667d8a01785e2e1a34eacc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:58 +0000
Subject: [PATCH 076/117] fix: accept empty quoted values of attributes

---
 pkg/parser/parser.go  | 19224 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    10 +-
 2 files changed, 9626 insertions(+), 9608 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 36da766..bfc7b1b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20349},
+																									pos:        position{line: 652, col: 5, offset: 20511},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20357},
+																									pos:   position{line: 652, col: 13, offset: 20519},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20376},
+																									pos:        position{line: 652, col: 32, offset: 20538},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20617},
+																									pos:        position{line: 659, col: 5, offset: 20779},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20621},
+																									pos:   position{line: 659, col: 9, offset: 20783},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20640},
+																									pos:        position{line: 659, col: 28, offset: 20802},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20349},
+																									pos:        position{line: 652, col: 5, offset: 20511},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20357},
+																									pos:   position{line: 652, col: 13, offset: 20519},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20376},
+																									pos:        position{line: 652, col: 32, offset: 20538},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20617},
+																									pos:        position{line: 659, col: 5, offset: 20779},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20621},
+																									pos:   position{line: 659, col: 9, offset: 20783},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20640},
+																									pos:        position{line: 659, col: 28, offset: 20802},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20349},
+																		pos: position{line: 652, col: 5, offset: 20511},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20349},
+																					pos: position{line: 652, col: 5, offset: 20511},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20349},
+																							pos:        position{line: 652, col: 5, offset: 20511},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20357},
+																							pos:   position{line: 652, col: 13, offset: 20519},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20376},
+																							pos:        position{line: 652, col: 32, offset: 20538},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20617},
+																				pos: position{line: 659, col: 5, offset: 20779},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20617},
+																					pos: position{line: 659, col: 5, offset: 20779},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20617},
+																							pos:        position{line: 659, col: 5, offset: 20779},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20621},
+																							pos:   position{line: 659, col: 9, offset: 20783},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20640},
+																							pos:        position{line: 659, col: 28, offset: 20802},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2859, col: 12, offset: 90580},
+																pos: position{line: 2865, col: 12, offset: 90742},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2859, col: 13, offset: 90581},
+																	pos: position{line: 2865, col: 13, offset: 90743},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2859, col: 13, offset: 90581},
+																			pos: position{line: 2865, col: 13, offset: 90743},
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 13, offset: 90581},
+																				pos:        position{line: 2865, col: 13, offset: 90743},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 18, offset: 90586},
+																			pos: position{line: 2865, col: 18, offset: 90748},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 18, offset: 90586},
+																				pos:        position{line: 2865, col: 18, offset: 90748},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20349},
+																									pos:        position{line: 652, col: 5, offset: 20511},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20357},
+																									pos:   position{line: 652, col: 13, offset: 20519},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20376},
+																									pos:        position{line: 652, col: 32, offset: 20538},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20617},
+																									pos:        position{line: 659, col: 5, offset: 20779},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20621},
+																									pos:   position{line: 659, col: 9, offset: 20783},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20640},
+																									pos:        position{line: 659, col: 28, offset: 20802},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 646, col: 5, offset: 20349},
+																									pos:        position{line: 652, col: 5, offset: 20511},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 13, offset: 20357},
+																									pos:   position{line: 652, col: 13, offset: 20519},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 646, col: 32, offset: 20376},
+																									pos:        position{line: 652, col: 32, offset: 20538},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 653, col: 5, offset: 20617},
+																									pos:        position{line: 659, col: 5, offset: 20779},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 653, col: 9, offset: 20621},
+																									pos:   position{line: 659, col: 9, offset: 20783},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 653, col: 28, offset: 20640},
+																									pos:        position{line: 659, col: 28, offset: 20802},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 646, col: 5, offset: 20349},
+																		pos: position{line: 652, col: 5, offset: 20511},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20349},
+																					pos: position{line: 652, col: 5, offset: 20511},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20349},
+																							pos:        position{line: 652, col: 5, offset: 20511},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20357},
+																							pos:   position{line: 652, col: 13, offset: 20519},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20376},
+																							pos:        position{line: 652, col: 32, offset: 20538},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20617},
+																				pos: position{line: 659, col: 5, offset: 20779},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20617},
+																					pos: position{line: 659, col: 5, offset: 20779},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20617},
+																							pos:        position{line: 659, col: 5, offset: 20779},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20621},
+																							pos:   position{line: 659, col: 9, offset: 20783},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20640},
+																							pos:        position{line: 659, col: 28, offset: 20802},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2859, col: 12, offset: 90580},
+																pos: position{line: 2865, col: 12, offset: 90742},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2859, col: 13, offset: 90581},
+																	pos: position{line: 2865, col: 13, offset: 90743},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2859, col: 13, offset: 90581},
+																			pos: position{line: 2865, col: 13, offset: 90743},
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 13, offset: 90581},
+																				pos:        position{line: 2865, col: 13, offset: 90743},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 18, offset: 90586},
+																			pos: position{line: 2865, col: 18, offset: 90748},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 18, offset: 90586},
+																				pos:        position{line: 2865, col: 18, offset: 90748},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 725, col: 5, offset: 23091},
+										pos: position{line: 731, col: 5, offset: 23253},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 725, col: 5, offset: 23091},
+											pos: position{line: 731, col: 5, offset: 23253},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 725, col: 5, offset: 23091},
+													pos: position{line: 731, col: 5, offset: 23253},
 													expr: &charClassMatcher{
-														pos:        position{line: 2757, col: 13, offset: 87848},
+														pos:        position{line: 2763, col: 13, offset: 88010},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 726, col: 5, offset: 23121},
+													pos:   position{line: 732, col: 5, offset: 23283},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 727, col: 9, offset: 23141},
+														pos: position{line: 733, col: 9, offset: 23303},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 741, col: 5, offset: 23633},
+																pos: position{line: 747, col: 5, offset: 23795},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 741, col: 5, offset: 23633},
+																	pos: position{line: 747, col: 5, offset: 23795},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 741, col: 5, offset: 23633},
+																			pos:   position{line: 747, col: 5, offset: 23795},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 16, offset: 23644},
+																				pos: position{line: 747, col: 16, offset: 23806},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 16, offset: 23644},
+																					pos: position{line: 747, col: 16, offset: 23806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 741, col: 16, offset: 23644},
+																							pos:        position{line: 747, col: 16, offset: 23806},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 23, offset: 23651},
+																							pos: position{line: 747, col: 23, offset: 23813},
 																							expr: &litMatcher{
-																								pos:        position{line: 741, col: 23, offset: 23651},
+																								pos:        position{line: 747, col: 23, offset: 23813},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 743, col: 8, offset: 23735},
+																			pos: position{line: 749, col: 8, offset: 23897},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 748, col: 5, offset: 23881},
+																pos: position{line: 754, col: 5, offset: 24043},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 748, col: 5, offset: 23881},
+																	pos: position{line: 754, col: 5, offset: 24043},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 748, col: 5, offset: 23881},
+																			pos:   position{line: 754, col: 5, offset: 24043},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 16, offset: 23892},
+																				pos: position{line: 754, col: 16, offset: 24054},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 16, offset: 23892},
+																					pos: position{line: 754, col: 16, offset: 24054},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 748, col: 16, offset: 23892},
+																							pos:        position{line: 754, col: 16, offset: 24054},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 23, offset: 23899},
+																							pos: position{line: 754, col: 23, offset: 24061},
 																							expr: &litMatcher{
-																								pos:        position{line: 748, col: 23, offset: 23899},
+																								pos:        position{line: 754, col: 23, offset: 24061},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 750, col: 8, offset: 23983},
+																			pos: position{line: 756, col: 8, offset: 24145},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 761, col: 26, offset: 24369},
+																pos: position{line: 767, col: 26, offset: 24531},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 761, col: 26, offset: 24369},
+																	pos: position{line: 767, col: 26, offset: 24531},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 761, col: 26, offset: 24369},
+																			pos:        position{line: 767, col: 26, offset: 24531},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 761, col: 32, offset: 24375},
+																			pos:   position{line: 767, col: 32, offset: 24537},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 765, col: 13, offset: 24505},
+																				pos: position{line: 771, col: 13, offset: 24667},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 765, col: 14, offset: 24506},
+																					pos: position{line: 771, col: 14, offset: 24668},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 765, col: 14, offset: 24506},
+																						pos:        position{line: 771, col: 14, offset: 24668},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 761, col: 52, offset: 24395},
+																			pos: position{line: 767, col: 52, offset: 24557},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 755, col: 5, offset: 24128},
+																pos: position{line: 761, col: 5, offset: 24290},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 755, col: 5, offset: 24128},
+																	pos: position{line: 761, col: 5, offset: 24290},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 755, col: 5, offset: 24128},
+																			pos:   position{line: 761, col: 5, offset: 24290},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 16, offset: 24139},
+																				pos: position{line: 761, col: 16, offset: 24301},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 16, offset: 24139},
+																					pos: position{line: 761, col: 16, offset: 24301},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 755, col: 16, offset: 24139},
+																							pos:        position{line: 761, col: 16, offset: 24301},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 22, offset: 24145},
+																							pos: position{line: 761, col: 22, offset: 24307},
 																							expr: &litMatcher{
-																								pos:        position{line: 755, col: 22, offset: 24145},
+																								pos:        position{line: 761, col: 22, offset: 24307},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 757, col: 8, offset: 24229},
+																			pos: position{line: 763, col: 8, offset: 24391},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 770, col: 5, offset: 24665},
+																pos: position{line: 776, col: 5, offset: 24827},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 770, col: 5, offset: 24665},
+																	pos: position{line: 776, col: 5, offset: 24827},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 770, col: 5, offset: 24665},
+																			pos:   position{line: 776, col: 5, offset: 24827},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 16, offset: 24676},
+																				pos: position{line: 776, col: 16, offset: 24838},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 16, offset: 24676},
+																					pos: position{line: 776, col: 16, offset: 24838},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 770, col: 16, offset: 24676},
+																							pos:        position{line: 776, col: 16, offset: 24838},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 23, offset: 24683},
+																							pos: position{line: 776, col: 23, offset: 24845},
 																							expr: &litMatcher{
-																								pos:        position{line: 770, col: 23, offset: 24683},
+																								pos:        position{line: 776, col: 23, offset: 24845},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 772, col: 8, offset: 24767},
+																			pos: position{line: 778, col: 8, offset: 24929},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 784, col: 5, offset: 25141},
+																pos: position{line: 790, col: 5, offset: 25303},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 784, col: 5, offset: 25141},
+																	pos: position{line: 790, col: 5, offset: 25303},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 784, col: 5, offset: 25141},
+																			pos:   position{line: 790, col: 5, offset: 25303},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 16, offset: 25152},
+																				pos: position{line: 790, col: 16, offset: 25314},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 16, offset: 25152},
+																					pos: position{line: 790, col: 16, offset: 25314},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 784, col: 16, offset: 25152},
+																							pos:        position{line: 790, col: 16, offset: 25314},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 23, offset: 25159},
+																							pos: position{line: 790, col: 23, offset: 25321},
 																							expr: &litMatcher{
-																								pos:        position{line: 784, col: 23, offset: 25159},
+																								pos:        position{line: 790, col: 23, offset: 25321},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 786, col: 8, offset: 25243},
+																			pos: position{line: 792, col: 8, offset: 25405},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 791, col: 5, offset: 25393},
+																pos: position{line: 797, col: 5, offset: 25555},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 791, col: 5, offset: 25393},
+																	pos: position{line: 797, col: 5, offset: 25555},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 791, col: 5, offset: 25393},
+																			pos:   position{line: 797, col: 5, offset: 25555},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 16, offset: 25404},
+																				pos: position{line: 797, col: 16, offset: 25566},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 16, offset: 25404},
+																					pos: position{line: 797, col: 16, offset: 25566},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 791, col: 16, offset: 25404},
+																							pos:        position{line: 797, col: 16, offset: 25566},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 23, offset: 25411},
+																							pos: position{line: 797, col: 23, offset: 25573},
 																							expr: &litMatcher{
-																								pos:        position{line: 791, col: 23, offset: 25411},
+																								pos:        position{line: 797, col: 23, offset: 25573},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 793, col: 8, offset: 25495},
+																			pos: position{line: 799, col: 8, offset: 25657},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 798, col: 5, offset: 25643},
+																pos: position{line: 804, col: 5, offset: 25805},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 798, col: 5, offset: 25643},
+																	pos: position{line: 804, col: 5, offset: 25805},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 798, col: 5, offset: 25643},
+																			pos:   position{line: 804, col: 5, offset: 25805},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 16, offset: 25654},
+																				pos: position{line: 804, col: 16, offset: 25816},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 16, offset: 25654},
+																					pos: position{line: 804, col: 16, offset: 25816},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 798, col: 16, offset: 25654},
+																							pos:        position{line: 804, col: 16, offset: 25816},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 23, offset: 25661},
+																							pos: position{line: 804, col: 23, offset: 25823},
 																							expr: &litMatcher{
-																								pos:        position{line: 798, col: 23, offset: 25661},
+																								pos:        position{line: 804, col: 23, offset: 25823},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 800, col: 8, offset: 25745},
+																			pos: position{line: 806, col: 8, offset: 25907},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 805, col: 5, offset: 25889},
+																pos: position{line: 811, col: 5, offset: 26051},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 805, col: 5, offset: 25889},
+																	pos: position{line: 811, col: 5, offset: 26051},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 805, col: 5, offset: 25889},
+																			pos:   position{line: 811, col: 5, offset: 26051},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 16, offset: 25900},
+																				pos: position{line: 811, col: 16, offset: 26062},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 16, offset: 25900},
+																					pos: position{line: 811, col: 16, offset: 26062},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 805, col: 16, offset: 25900},
+																							pos:        position{line: 811, col: 16, offset: 26062},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 23, offset: 25907},
+																							pos: position{line: 811, col: 23, offset: 26069},
 																							expr: &litMatcher{
-																								pos:        position{line: 805, col: 23, offset: 25907},
+																								pos:        position{line: 811, col: 23, offset: 26069},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 807, col: 8, offset: 25991},
+																			pos: position{line: 813, col: 8, offset: 26153},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2871, col: 11, offset: 90814},
+													pos: position{line: 2877, col: 11, offset: 90976},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2871, col: 11, offset: 90814},
+														pos: position{line: 2877, col: 11, offset: 90976},
 														expr: &charClassMatcher{
-															pos:        position{line: 2871, col: 11, offset: 90814},
+															pos:        position{line: 2877, col: 11, offset: 90976},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2817, col: 14, offset: 89346},
+													pos: position{line: 2823, col: 14, offset: 89508},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2817, col: 14, offset: 89346},
+														pos: position{line: 2823, col: 14, offset: 89508},
 														expr: &charClassMatcher{
-															pos:        position{line: 2817, col: 14, offset: 89346},
+															pos:        position{line: 2823, col: 14, offset: 89508},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2821, col: 17, offset: 89416},
+												pos: position{line: 2827, col: 17, offset: 89578},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2821, col: 17, offset: 89416},
+													pos:   position{line: 2827, col: 17, offset: 89578},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2859, col: 12, offset: 90580},
+																				pos: position{line: 2865, col: 12, offset: 90742},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2859, col: 13, offset: 90581},
+																					pos: position{line: 2865, col: 13, offset: 90743},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2859, col: 13, offset: 90581},
+																							pos: position{line: 2865, col: 13, offset: 90743},
 																							expr: &litMatcher{
-																								pos:        position{line: 2859, col: 13, offset: 90581},
+																								pos:        position{line: 2865, col: 13, offset: 90743},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2859, col: 18, offset: 90586},
+																							pos: position{line: 2865, col: 18, offset: 90748},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2859, col: 18, offset: 90586},
+																								pos:        position{line: 2865, col: 18, offset: 90748},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2859, col: 12, offset: 90580},
+																				pos: position{line: 2865, col: 12, offset: 90742},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2859, col: 13, offset: 90581},
+																					pos: position{line: 2865, col: 13, offset: 90743},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2859, col: 13, offset: 90581},
+																							pos: position{line: 2865, col: 13, offset: 90743},
 																							expr: &litMatcher{
-																								pos:        position{line: 2859, col: 13, offset: 90581},
+																								pos:        position{line: 2865, col: 13, offset: 90743},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2859, col: 18, offset: 90586},
+																							pos: position{line: 2865, col: 18, offset: 90748},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2859, col: 18, offset: 90586},
+																								pos:        position{line: 2865, col: 18, offset: 90748},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2859, col: 12, offset: 90580},
+																		pos: position{line: 2865, col: 12, offset: 90742},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2859, col: 13, offset: 90581},
+																			pos: position{line: 2865, col: 13, offset: 90743},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2859, col: 13, offset: 90581},
+																					pos: position{line: 2865, col: 13, offset: 90743},
 																					expr: &litMatcher{
-																						pos:        position{line: 2859, col: 13, offset: 90581},
+																						pos:        position{line: 2865, col: 13, offset: 90743},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2859, col: 18, offset: 90586},
+																					pos: position{line: 2865, col: 18, offset: 90748},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2859, col: 18, offset: 90586},
+																						pos:        position{line: 2865, col: 18, offset: 90748},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2859, col: 12, offset: 90580},
+																									pos: position{line: 2865, col: 12, offset: 90742},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2859, col: 13, offset: 90581},
+																										pos: position{line: 2865, col: 13, offset: 90743},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2859, col: 13, offset: 90581},
+																												pos: position{line: 2865, col: 13, offset: 90743},
 																												expr: &litMatcher{
-																													pos:        position{line: 2859, col: 13, offset: 90581},
+																													pos:        position{line: 2865, col: 13, offset: 90743},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2859, col: 18, offset: 90586},
+																												pos: position{line: 2865, col: 18, offset: 90748},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2859, col: 18, offset: 90586},
+																													pos:        position{line: 2865, col: 18, offset: 90748},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2859, col: 12, offset: 90580},
+																									pos: position{line: 2865, col: 12, offset: 90742},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2859, col: 13, offset: 90581},
+																										pos: position{line: 2865, col: 13, offset: 90743},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2859, col: 13, offset: 90581},
+																												pos: position{line: 2865, col: 13, offset: 90743},
 																												expr: &litMatcher{
-																													pos:        position{line: 2859, col: 13, offset: 90581},
+																													pos:        position{line: 2865, col: 13, offset: 90743},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2859, col: 18, offset: 90586},
+																												pos: position{line: 2865, col: 18, offset: 90748},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2859, col: 18, offset: 90586},
+																													pos:        position{line: 2865, col: 18, offset: 90748},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2859, col: 12, offset: 90580},
+																							pos: position{line: 2865, col: 12, offset: 90742},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2859, col: 13, offset: 90581},
+																								pos: position{line: 2865, col: 13, offset: 90743},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2859, col: 13, offset: 90581},
+																										pos: position{line: 2865, col: 13, offset: 90743},
 																										expr: &litMatcher{
-																											pos:        position{line: 2859, col: 13, offset: 90581},
+																											pos:        position{line: 2865, col: 13, offset: 90743},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2859, col: 18, offset: 90586},
+																										pos: position{line: 2865, col: 18, offset: 90748},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2859, col: 18, offset: 90586},
+																											pos:        position{line: 2865, col: 18, offset: 90748},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 12, offset: 90580},
+														pos: position{line: 2865, col: 12, offset: 90742},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2859, col: 13, offset: 90581},
+															pos: position{line: 2865, col: 13, offset: 90743},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2859, col: 13, offset: 90581},
+																	pos: position{line: 2865, col: 13, offset: 90743},
 																	expr: &litMatcher{
-																		pos:        position{line: 2859, col: 13, offset: 90581},
+																		pos:        position{line: 2865, col: 13, offset: 90743},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2859, col: 18, offset: 90586},
+																	pos: position{line: 2865, col: 18, offset: 90748},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2859, col: 18, offset: 90586},
+																		pos:        position{line: 2865, col: 18, offset: 90748},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 12, offset: 90580},
+														pos: position{line: 2865, col: 12, offset: 90742},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2859, col: 13, offset: 90581},
+															pos: position{line: 2865, col: 13, offset: 90743},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2859, col: 13, offset: 90581},
+																	pos: position{line: 2865, col: 13, offset: 90743},
 																	expr: &litMatcher{
-																		pos:        position{line: 2859, col: 13, offset: 90581},
+																		pos:        position{line: 2865, col: 13, offset: 90743},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2859, col: 18, offset: 90586},
+																	pos: position{line: 2865, col: 18, offset: 90748},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2859, col: 18, offset: 90586},
+																		pos:        position{line: 2865, col: 18, offset: 90748},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 12, offset: 90580},
+												pos: position{line: 2865, col: 12, offset: 90742},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2859, col: 13, offset: 90581},
+													pos: position{line: 2865, col: 13, offset: 90743},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2859, col: 13, offset: 90581},
+															pos: position{line: 2865, col: 13, offset: 90743},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 13, offset: 90581},
+																pos:        position{line: 2865, col: 13, offset: 90743},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2859, col: 18, offset: 90586},
+															pos: position{line: 2865, col: 18, offset: 90748},
 															expr: &charClassMatcher{
-																pos:        position{line: 2859, col: 18, offset: 90586},
+																pos:        position{line: 2865, col: 18, offset: 90748},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2761, col: 14, offset: 87922},
+																		pos: position{line: 2767, col: 14, offset: 88084},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2761, col: 14, offset: 87922},
+																			pos: position{line: 2767, col: 14, offset: 88084},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2761, col: 14, offset: 87922},
+																				pos:        position{line: 2767, col: 14, offset: 88084},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2761, col: 14, offset: 87922},
+																				pos: position{line: 2767, col: 14, offset: 88084},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2761, col: 14, offset: 87922},
+																					pos: position{line: 2767, col: 14, offset: 88084},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2761, col: 14, offset: 87922},
+																						pos:        position{line: 2767, col: 14, offset: 88084},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2761, col: 14, offset: 87922},
+																							pos: position{line: 2767, col: 14, offset: 88084},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2761, col: 14, offset: 87922},
+																								pos: position{line: 2767, col: 14, offset: 88084},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2761, col: 14, offset: 87922},
+																									pos:        position{line: 2767, col: 14, offset: 88084},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2761, col: 14, offset: 87922},
+																									pos: position{line: 2767, col: 14, offset: 88084},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2761, col: 14, offset: 87922},
+																										pos: position{line: 2767, col: 14, offset: 88084},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2761, col: 14, offset: 87922},
+																											pos:        position{line: 2767, col: 14, offset: 88084},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2761, col: 14, offset: 87922},
+																pos: position{line: 2767, col: 14, offset: 88084},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2761, col: 14, offset: 87922},
+																	pos: position{line: 2767, col: 14, offset: 88084},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2761, col: 14, offset: 87922},
+																		pos:        position{line: 2767, col: 14, offset: 88084},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2761, col: 14, offset: 87922},
+																pos: position{line: 2767, col: 14, offset: 88084},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2761, col: 14, offset: 87922},
+																	pos: position{line: 2767, col: 14, offset: 88084},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2761, col: 14, offset: 87922},
+																		pos:        position{line: 2767, col: 14, offset: 88084},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 678, col: 14, offset: 21519},
+											pos: position{line: 684, col: 14, offset: 21681},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 678, col: 14, offset: 21519},
+												pos: position{line: 684, col: 14, offset: 21681},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2884, col: 11, offset: 91087},
+														pos: position{line: 2890, col: 11, offset: 91249},
 														expr: &anyMatcher{
-															line: 2884, col: 13, offset: 91089,
+															line: 2890, col: 13, offset: 91251,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 678, col: 21, offset: 21526},
+														pos: position{line: 684, col: 21, offset: 21688},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26373},
+											pos: position{line: 827, col: 5, offset: 26535},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26373},
+												pos: position{line: 827, col: 5, offset: 26535},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26373},
+														pos:   position{line: 827, col: 5, offset: 26535},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 741, col: 5, offset: 23633},
+															pos: position{line: 747, col: 5, offset: 23795},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 741, col: 5, offset: 23633},
+																pos: position{line: 747, col: 5, offset: 23795},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 741, col: 5, offset: 23633},
+																		pos:   position{line: 747, col: 5, offset: 23795},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 16, offset: 23644},
+																			pos: position{line: 747, col: 16, offset: 23806},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 16, offset: 23644},
+																				pos: position{line: 747, col: 16, offset: 23806},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 741, col: 16, offset: 23644},
+																						pos:        position{line: 747, col: 16, offset: 23806},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 741, col: 23, offset: 23651},
+																						pos: position{line: 747, col: 23, offset: 23813},
 																						expr: &litMatcher{
-																							pos:        position{line: 741, col: 23, offset: 23651},
+																							pos:        position{line: 747, col: 23, offset: 23813},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 743, col: 8, offset: 23735},
+																		pos: position{line: 749, col: 8, offset: 23897},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 822, col: 5, offset: 26412},
+														pos: position{line: 828, col: 5, offset: 26574},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 825, col: 5, offset: 26504},
+														pos:   position{line: 831, col: 5, offset: 26666},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 840, col: 5, offset: 26896},
+															pos: position{line: 846, col: 5, offset: 27058},
 															expr: &actionExpr{
-																pos: position{line: 840, col: 6, offset: 26897},
+																pos: position{line: 846, col: 6, offset: 27059},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 840, col: 6, offset: 26897},
+																	pos: position{line: 846, col: 6, offset: 27059},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 840, col: 6, offset: 26897},
+																			pos: position{line: 846, col: 6, offset: 27059},
 																			expr: &choiceExpr{
-																				pos: position{line: 833, col: 5, offset: 26738},
+																				pos: position{line: 839, col: 5, offset: 26900},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 833, col: 5, offset: 26738},
+																						pos: position{line: 839, col: 5, offset: 26900},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 833, col: 5, offset: 26738},
+																								pos:   position{line: 839, col: 5, offset: 26900},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 5, offset: 23633},
+																										pos: position{line: 747, col: 5, offset: 23795},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 741, col: 5, offset: 23633},
+																												pos:   position{line: 747, col: 5, offset: 23795},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 741, col: 16, offset: 23644},
+																														pos: position{line: 747, col: 16, offset: 23806},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 741, col: 16, offset: 23644},
+																																pos:        position{line: 747, col: 16, offset: 23806},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 741, col: 23, offset: 23651},
+																																pos: position{line: 747, col: 23, offset: 23813},
 																																expr: &litMatcher{
-																																	pos:        position{line: 741, col: 23, offset: 23651},
+																																	pos:        position{line: 747, col: 23, offset: 23813},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 8, offset: 23735},
+																												pos: position{line: 749, col: 8, offset: 23897},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 834, col: 5, offset: 26769},
+																								pos: position{line: 840, col: 5, offset: 26931},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 841, col: 5, offset: 26927},
+																			pos:   position{line: 847, col: 5, offset: 27089},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -4721,41 +4721,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 826, col: 5, offset: 26538},
+														pos: position{line: 832, col: 5, offset: 26700},
 														expr: &choiceExpr{
-															pos: position{line: 833, col: 5, offset: 26738},
+															pos: position{line: 839, col: 5, offset: 26900},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 833, col: 5, offset: 26738},
+																	pos: position{line: 839, col: 5, offset: 26900},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26738},
+																			pos:   position{line: 839, col: 5, offset: 26900},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				run: (*parser).callonDocumentFragment149,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 5, offset: 23633},
+																					pos: position{line: 747, col: 5, offset: 23795},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 741, col: 5, offset: 23633},
+																							pos:   position{line: 747, col: 5, offset: 23795},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								run: (*parser).callonDocumentFragment152,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 16, offset: 23644},
+																									pos: position{line: 747, col: 16, offset: 23806},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 741, col: 16, offset: 23644},
+																											pos:        position{line: 747, col: 16, offset: 23806},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 23, offset: 23651},
+																											pos: position{line: 747, col: 23, offset: 23813},
 																											expr: &litMatcher{
-																												pos:        position{line: 741, col: 23, offset: 23651},
+																												pos:        position{line: 747, col: 23, offset: 23813},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -4766,12 +4766,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 8, offset: 23735},
+																							pos: position{line: 749, col: 8, offset: 23897},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -4822,15 +4822,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 834, col: 5, offset: 26769},
+																			pos: position{line: 840, col: 5, offset: 26931},
 																			run: (*parser).callonDocumentFragment168,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -4840,39 +4840,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 849, col: 5, offset: 27080},
+											pos: position{line: 855, col: 5, offset: 27242},
 											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 849, col: 5, offset: 27080},
+												pos: position{line: 855, col: 5, offset: 27242},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 849, col: 5, offset: 27080},
+														pos:   position{line: 855, col: 5, offset: 27242},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 748, col: 5, offset: 23881},
+															pos: position{line: 754, col: 5, offset: 24043},
 															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 748, col: 5, offset: 23881},
+																pos: position{line: 754, col: 5, offset: 24043},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 748, col: 5, offset: 23881},
+																		pos:   position{line: 754, col: 5, offset: 24043},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 748, col: 16, offset: 23892},
+																			pos: position{line: 754, col: 16, offset: 24054},
 																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 748, col: 16, offset: 23892},
+																				pos: position{line: 754, col: 16, offset: 24054},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 748, col: 16, offset: 23892},
+																						pos:        position{line: 754, col: 16, offset: 24054},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 748, col: 23, offset: 23899},
+																						pos: position{line: 754, col: 23, offset: 24061},
 																						expr: &litMatcher{
-																							pos:        position{line: 748, col: 23, offset: 23899},
+																							pos:        position{line: 754, col: 23, offset: 24061},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4883,12 +4883,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 750, col: 8, offset: 23983},
+																		pos: position{line: 756, col: 8, offset: 24145},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -4939,56 +4939,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 850, col: 5, offset: 27119},
+														pos: position{line: 856, col: 5, offset: 27281},
 														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27211},
+														pos:   position{line: 859, col: 5, offset: 27373},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 868, col: 4, offset: 27608},
+															pos: position{line: 874, col: 4, offset: 27770},
 															expr: &actionExpr{
-																pos: position{line: 868, col: 5, offset: 27609},
+																pos: position{line: 874, col: 5, offset: 27771},
 																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 868, col: 5, offset: 27609},
+																	pos: position{line: 874, col: 5, offset: 27771},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 868, col: 5, offset: 27609},
+																			pos: position{line: 874, col: 5, offset: 27771},
 																			expr: &choiceExpr{
-																				pos: position{line: 861, col: 5, offset: 27451},
+																				pos: position{line: 867, col: 5, offset: 27613},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 861, col: 5, offset: 27451},
+																						pos: position{line: 867, col: 5, offset: 27613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 861, col: 5, offset: 27451},
+																								pos:   position{line: 867, col: 5, offset: 27613},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 5, offset: 23881},
+																									pos: position{line: 754, col: 5, offset: 24043},
 																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 5, offset: 23881},
+																										pos: position{line: 754, col: 5, offset: 24043},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 748, col: 5, offset: 23881},
+																												pos:   position{line: 754, col: 5, offset: 24043},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 748, col: 16, offset: 23892},
+																													pos: position{line: 754, col: 16, offset: 24054},
 																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 748, col: 16, offset: 23892},
+																														pos: position{line: 754, col: 16, offset: 24054},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 748, col: 16, offset: 23892},
+																																pos:        position{line: 754, col: 16, offset: 24054},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 748, col: 23, offset: 23899},
+																																pos: position{line: 754, col: 23, offset: 24061},
 																																expr: &litMatcher{
-																																	pos:        position{line: 748, col: 23, offset: 23899},
+																																	pos:        position{line: 754, col: 23, offset: 24061},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4999,12 +4999,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 8, offset: 23983},
+																												pos: position{line: 756, col: 8, offset: 24145},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -5055,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 862, col: 5, offset: 27482},
+																								pos: position{line: 868, col: 5, offset: 27644},
 																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 869, col: 5, offset: 27639},
+																			pos:   position{line: 875, col: 5, offset: 27801},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -5150,44 +5150,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 854, col: 5, offset: 27245},
+														pos:   position{line: 860, col: 5, offset: 27407},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 854, col: 9, offset: 27249},
+															pos: position{line: 860, col: 9, offset: 27411},
 															expr: &choiceExpr{
-																pos: position{line: 861, col: 5, offset: 27451},
+																pos: position{line: 867, col: 5, offset: 27613},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 861, col: 5, offset: 27451},
+																		pos: position{line: 867, col: 5, offset: 27613},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 861, col: 5, offset: 27451},
+																				pos:   position{line: 867, col: 5, offset: 27613},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 748, col: 5, offset: 23881},
+																					pos: position{line: 754, col: 5, offset: 24043},
 																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 748, col: 5, offset: 23881},
+																						pos: position{line: 754, col: 5, offset: 24043},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 748, col: 5, offset: 23881},
+																								pos:   position{line: 754, col: 5, offset: 24043},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 16, offset: 23892},
+																									pos: position{line: 754, col: 16, offset: 24054},
 																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 16, offset: 23892},
+																										pos: position{line: 754, col: 16, offset: 24054},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 748, col: 16, offset: 23892},
+																												pos:        position{line: 754, col: 16, offset: 24054},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 23, offset: 23899},
+																												pos: position{line: 754, col: 23, offset: 24061},
 																												expr: &litMatcher{
-																													pos:        position{line: 748, col: 23, offset: 23899},
+																													pos:        position{line: 754, col: 23, offset: 24061},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5198,12 +5198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 750, col: 8, offset: 23983},
+																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -5254,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 862, col: 5, offset: 27482},
+																				pos: position{line: 868, col: 5, offset: 27644},
 																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -5273,36 +5273,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 961, col: 5, offset: 29931},
+											pos: position{line: 967, col: 5, offset: 30093},
 											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 961, col: 5, offset: 29931},
+												pos: position{line: 967, col: 5, offset: 30093},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 961, col: 5, offset: 29931},
+														pos:   position{line: 967, col: 5, offset: 30093},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 761, col: 26, offset: 24369},
+															pos: position{line: 767, col: 26, offset: 24531},
 															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 761, col: 26, offset: 24369},
+																pos: position{line: 767, col: 26, offset: 24531},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 761, col: 26, offset: 24369},
+																		pos:        position{line: 767, col: 26, offset: 24531},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 761, col: 32, offset: 24375},
+																		pos:   position{line: 767, col: 32, offset: 24537},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 765, col: 13, offset: 24505},
+																			pos: position{line: 771, col: 13, offset: 24667},
 																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 765, col: 14, offset: 24506},
+																				pos: position{line: 771, col: 14, offset: 24668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 765, col: 14, offset: 24506},
+																					pos:        position{line: 771, col: 14, offset: 24668},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5312,12 +5312,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 761, col: 52, offset: 24395},
+																		pos: position{line: 767, col: 52, offset: 24557},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -5368,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 962, col: 5, offset: 29977},
+														pos:   position{line: 968, col: 5, offset: 30139},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 975, col: 5, offset: 30450},
+															pos: position{line: 981, col: 5, offset: 30612},
 															expr: &actionExpr{
-																pos: position{line: 975, col: 6, offset: 30451},
+																pos: position{line: 981, col: 6, offset: 30613},
 																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 975, col: 6, offset: 30451},
+																	pos: position{line: 981, col: 6, offset: 30613},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 975, col: 6, offset: 30451},
+																			pos: position{line: 981, col: 6, offset: 30613},
 																			expr: &seqExpr{
-																				pos: position{line: 972, col: 34, offset: 30398},
+																				pos: position{line: 978, col: 34, offset: 30560},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 972, col: 34, offset: 30398},
+																						pos:        position{line: 978, col: 34, offset: 30560},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 972, col: 40, offset: 30404},
+																						pos: position{line: 978, col: 40, offset: 30566},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -5445,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 976, col: 5, offset: 30486},
+																			pos:   position{line: 982, col: 5, offset: 30648},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -5525,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 963, col: 5, offset: 30016},
+														pos: position{line: 969, col: 5, offset: 30178},
 														expr: &seqExpr{
-															pos: position{line: 972, col: 34, offset: 30398},
+															pos: position{line: 978, col: 34, offset: 30560},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 972, col: 34, offset: 30398},
+																	pos:        position{line: 978, col: 34, offset: 30560},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 972, col: 40, offset: 30404},
+																	pos: position{line: 978, col: 40, offset: 30566},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -5594,39 +5594,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 877, col: 5, offset: 27792},
+											pos: position{line: 883, col: 5, offset: 27954},
 											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 877, col: 5, offset: 27792},
+												pos: position{line: 883, col: 5, offset: 27954},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 877, col: 5, offset: 27792},
+														pos:   position{line: 883, col: 5, offset: 27954},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 755, col: 5, offset: 24128},
+															pos: position{line: 761, col: 5, offset: 24290},
 															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 755, col: 5, offset: 24128},
+																pos: position{line: 761, col: 5, offset: 24290},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 755, col: 5, offset: 24128},
+																		pos:   position{line: 761, col: 5, offset: 24290},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 755, col: 16, offset: 24139},
+																			pos: position{line: 761, col: 16, offset: 24301},
 																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 755, col: 16, offset: 24139},
+																				pos: position{line: 761, col: 16, offset: 24301},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 755, col: 16, offset: 24139},
+																						pos:        position{line: 761, col: 16, offset: 24301},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 22, offset: 24145},
+																						pos: position{line: 761, col: 22, offset: 24307},
 																						expr: &litMatcher{
-																							pos:        position{line: 755, col: 22, offset: 24145},
+																							pos:        position{line: 761, col: 22, offset: 24307},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5637,12 +5637,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 757, col: 8, offset: 24229},
+																		pos: position{line: 763, col: 8, offset: 24391},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -5693,56 +5693,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 878, col: 5, offset: 27830},
+														pos: position{line: 884, col: 5, offset: 27992},
 														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 27922},
+														pos:   position{line: 887, col: 5, offset: 28084},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 896, col: 5, offset: 28312},
+															pos: position{line: 902, col: 5, offset: 28474},
 															expr: &actionExpr{
-																pos: position{line: 896, col: 6, offset: 28313},
+																pos: position{line: 902, col: 6, offset: 28475},
 																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 896, col: 6, offset: 28313},
+																	pos: position{line: 902, col: 6, offset: 28475},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 896, col: 6, offset: 28313},
+																			pos: position{line: 902, col: 6, offset: 28475},
 																			expr: &choiceExpr{
-																				pos: position{line: 889, col: 5, offset: 28156},
+																				pos: position{line: 895, col: 5, offset: 28318},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 889, col: 5, offset: 28156},
+																						pos: position{line: 895, col: 5, offset: 28318},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 889, col: 5, offset: 28156},
+																								pos:   position{line: 895, col: 5, offset: 28318},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 5, offset: 24128},
+																									pos: position{line: 761, col: 5, offset: 24290},
 																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 5, offset: 24128},
+																										pos: position{line: 761, col: 5, offset: 24290},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 755, col: 5, offset: 24128},
+																												pos:   position{line: 761, col: 5, offset: 24290},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 755, col: 16, offset: 24139},
+																													pos: position{line: 761, col: 16, offset: 24301},
 																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 755, col: 16, offset: 24139},
+																														pos: position{line: 761, col: 16, offset: 24301},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 755, col: 16, offset: 24139},
+																																pos:        position{line: 761, col: 16, offset: 24301},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 755, col: 22, offset: 24145},
+																																pos: position{line: 761, col: 22, offset: 24307},
 																																expr: &litMatcher{
-																																	pos:        position{line: 755, col: 22, offset: 24145},
+																																	pos:        position{line: 761, col: 22, offset: 24307},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5753,12 +5753,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 8, offset: 24229},
+																												pos: position{line: 763, col: 8, offset: 24391},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -5809,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 890, col: 5, offset: 28186},
+																								pos: position{line: 896, col: 5, offset: 28348},
 																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 897, col: 5, offset: 28342},
+																			pos:   position{line: 903, col: 5, offset: 28504},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -5904,44 +5904,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 882, col: 5, offset: 27955},
+														pos:   position{line: 888, col: 5, offset: 28117},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 882, col: 9, offset: 27959},
+															pos: position{line: 888, col: 9, offset: 28121},
 															expr: &choiceExpr{
-																pos: position{line: 889, col: 5, offset: 28156},
+																pos: position{line: 895, col: 5, offset: 28318},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 889, col: 5, offset: 28156},
+																		pos: position{line: 895, col: 5, offset: 28318},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 889, col: 5, offset: 28156},
+																				pos:   position{line: 895, col: 5, offset: 28318},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 755, col: 5, offset: 24128},
+																					pos: position{line: 761, col: 5, offset: 24290},
 																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 755, col: 5, offset: 24128},
+																						pos: position{line: 761, col: 5, offset: 24290},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 755, col: 5, offset: 24128},
+																								pos:   position{line: 761, col: 5, offset: 24290},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 16, offset: 24139},
+																									pos: position{line: 761, col: 16, offset: 24301},
 																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 16, offset: 24139},
+																										pos: position{line: 761, col: 16, offset: 24301},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 755, col: 16, offset: 24139},
+																												pos:        position{line: 761, col: 16, offset: 24301},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 22, offset: 24145},
+																												pos: position{line: 761, col: 22, offset: 24307},
 																												expr: &litMatcher{
-																													pos:        position{line: 755, col: 22, offset: 24145},
+																													pos:        position{line: 761, col: 22, offset: 24307},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5952,12 +5952,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 757, col: 8, offset: 24229},
+																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -6008,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 890, col: 5, offset: 28186},
+																				pos: position{line: 896, col: 5, offset: 28348},
 																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -6027,39 +6027,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 905, col: 5, offset: 28497},
+											pos: position{line: 911, col: 5, offset: 28659},
 											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 905, col: 5, offset: 28497},
+												pos: position{line: 911, col: 5, offset: 28659},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 905, col: 5, offset: 28497},
+														pos:   position{line: 911, col: 5, offset: 28659},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 770, col: 5, offset: 24665},
+															pos: position{line: 776, col: 5, offset: 24827},
 															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 770, col: 5, offset: 24665},
+																pos: position{line: 776, col: 5, offset: 24827},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 770, col: 5, offset: 24665},
+																		pos:   position{line: 776, col: 5, offset: 24827},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 770, col: 16, offset: 24676},
+																			pos: position{line: 776, col: 16, offset: 24838},
 																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 16, offset: 24676},
+																				pos: position{line: 776, col: 16, offset: 24838},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 770, col: 16, offset: 24676},
+																						pos:        position{line: 776, col: 16, offset: 24838},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 23, offset: 24683},
+																						pos: position{line: 776, col: 23, offset: 24845},
 																						expr: &litMatcher{
-																							pos:        position{line: 770, col: 23, offset: 24683},
+																							pos:        position{line: 776, col: 23, offset: 24845},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6070,12 +6070,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 772, col: 8, offset: 24767},
+																		pos: position{line: 778, col: 8, offset: 24929},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -6126,56 +6126,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 906, col: 5, offset: 28536},
+														pos: position{line: 912, col: 5, offset: 28698},
 														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28628},
+														pos:   position{line: 915, col: 5, offset: 28790},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 924, col: 5, offset: 29026},
+															pos: position{line: 930, col: 5, offset: 29188},
 															expr: &actionExpr{
-																pos: position{line: 924, col: 6, offset: 29027},
+																pos: position{line: 930, col: 6, offset: 29189},
 																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 924, col: 6, offset: 29027},
+																	pos: position{line: 930, col: 6, offset: 29189},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 924, col: 6, offset: 29027},
+																			pos: position{line: 930, col: 6, offset: 29189},
 																			expr: &choiceExpr{
-																				pos: position{line: 917, col: 5, offset: 28868},
+																				pos: position{line: 923, col: 5, offset: 29030},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 917, col: 5, offset: 28868},
+																						pos: position{line: 923, col: 5, offset: 29030},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 917, col: 5, offset: 28868},
+																								pos:   position{line: 923, col: 5, offset: 29030},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 5, offset: 24665},
+																									pos: position{line: 776, col: 5, offset: 24827},
 																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 5, offset: 24665},
+																										pos: position{line: 776, col: 5, offset: 24827},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 770, col: 5, offset: 24665},
+																												pos:   position{line: 776, col: 5, offset: 24827},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 770, col: 16, offset: 24676},
+																													pos: position{line: 776, col: 16, offset: 24838},
 																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 770, col: 16, offset: 24676},
+																														pos: position{line: 776, col: 16, offset: 24838},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 770, col: 16, offset: 24676},
+																																pos:        position{line: 776, col: 16, offset: 24838},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 770, col: 23, offset: 24683},
+																																pos: position{line: 776, col: 23, offset: 24845},
 																																expr: &litMatcher{
-																																	pos:        position{line: 770, col: 23, offset: 24683},
+																																	pos:        position{line: 776, col: 23, offset: 24845},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6186,12 +6186,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 8, offset: 24767},
+																												pos: position{line: 778, col: 8, offset: 24929},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -6242,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 918, col: 5, offset: 28899},
+																								pos: position{line: 924, col: 5, offset: 29061},
 																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 925, col: 5, offset: 29057},
+																			pos:   position{line: 931, col: 5, offset: 29219},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -6337,44 +6337,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 910, col: 5, offset: 28662},
+														pos:   position{line: 916, col: 5, offset: 28824},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 910, col: 9, offset: 28666},
+															pos: position{line: 916, col: 9, offset: 28828},
 															expr: &choiceExpr{
-																pos: position{line: 917, col: 5, offset: 28868},
+																pos: position{line: 923, col: 5, offset: 29030},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 917, col: 5, offset: 28868},
+																		pos: position{line: 923, col: 5, offset: 29030},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 917, col: 5, offset: 28868},
+																				pos:   position{line: 923, col: 5, offset: 29030},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 770, col: 5, offset: 24665},
+																					pos: position{line: 776, col: 5, offset: 24827},
 																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 770, col: 5, offset: 24665},
+																						pos: position{line: 776, col: 5, offset: 24827},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 770, col: 5, offset: 24665},
+																								pos:   position{line: 776, col: 5, offset: 24827},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 16, offset: 24676},
+																									pos: position{line: 776, col: 16, offset: 24838},
 																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 16, offset: 24676},
+																										pos: position{line: 776, col: 16, offset: 24838},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 770, col: 16, offset: 24676},
+																												pos:        position{line: 776, col: 16, offset: 24838},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 23, offset: 24683},
+																												pos: position{line: 776, col: 23, offset: 24845},
 																												expr: &litMatcher{
-																													pos:        position{line: 770, col: 23, offset: 24683},
+																													pos:        position{line: 776, col: 23, offset: 24845},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6385,12 +6385,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 772, col: 8, offset: 24767},
+																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -6441,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 918, col: 5, offset: 28899},
+																				pos: position{line: 924, col: 5, offset: 29061},
 																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -6460,39 +6460,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 933, col: 5, offset: 29212},
+											pos: position{line: 939, col: 5, offset: 29374},
 											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 933, col: 5, offset: 29212},
+												pos: position{line: 939, col: 5, offset: 29374},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 933, col: 5, offset: 29212},
+														pos:   position{line: 939, col: 5, offset: 29374},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 784, col: 5, offset: 25141},
+															pos: position{line: 790, col: 5, offset: 25303},
 															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 784, col: 5, offset: 25141},
+																pos: position{line: 790, col: 5, offset: 25303},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 784, col: 5, offset: 25141},
+																		pos:   position{line: 790, col: 5, offset: 25303},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 784, col: 16, offset: 25152},
+																			pos: position{line: 790, col: 16, offset: 25314},
 																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 784, col: 16, offset: 25152},
+																				pos: position{line: 790, col: 16, offset: 25314},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 784, col: 16, offset: 25152},
+																						pos:        position{line: 790, col: 16, offset: 25314},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 23, offset: 25159},
+																						pos: position{line: 790, col: 23, offset: 25321},
 																						expr: &litMatcher{
-																							pos:        position{line: 784, col: 23, offset: 25159},
+																							pos:        position{line: 790, col: 23, offset: 25321},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6503,12 +6503,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 786, col: 8, offset: 25243},
+																		pos: position{line: 792, col: 8, offset: 25405},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -6559,56 +6559,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 934, col: 5, offset: 29251},
+														pos: position{line: 940, col: 5, offset: 29413},
 														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29343},
+														pos:   position{line: 943, col: 5, offset: 29505},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 952, col: 5, offset: 29741},
+															pos: position{line: 958, col: 5, offset: 29903},
 															expr: &actionExpr{
-																pos: position{line: 952, col: 6, offset: 29742},
+																pos: position{line: 958, col: 6, offset: 29904},
 																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 952, col: 6, offset: 29742},
+																	pos: position{line: 958, col: 6, offset: 29904},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 952, col: 6, offset: 29742},
+																			pos: position{line: 958, col: 6, offset: 29904},
 																			expr: &choiceExpr{
-																				pos: position{line: 945, col: 5, offset: 29583},
+																				pos: position{line: 951, col: 5, offset: 29745},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 945, col: 5, offset: 29583},
+																						pos: position{line: 951, col: 5, offset: 29745},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 945, col: 5, offset: 29583},
+																								pos:   position{line: 951, col: 5, offset: 29745},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 5, offset: 25141},
+																									pos: position{line: 790, col: 5, offset: 25303},
 																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 5, offset: 25141},
+																										pos: position{line: 790, col: 5, offset: 25303},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 784, col: 5, offset: 25141},
+																												pos:   position{line: 790, col: 5, offset: 25303},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 784, col: 16, offset: 25152},
+																													pos: position{line: 790, col: 16, offset: 25314},
 																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 784, col: 16, offset: 25152},
+																														pos: position{line: 790, col: 16, offset: 25314},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 784, col: 16, offset: 25152},
+																																pos:        position{line: 790, col: 16, offset: 25314},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 784, col: 23, offset: 25159},
+																																pos: position{line: 790, col: 23, offset: 25321},
 																																expr: &litMatcher{
-																																	pos:        position{line: 784, col: 23, offset: 25159},
+																																	pos:        position{line: 790, col: 23, offset: 25321},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6619,12 +6619,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 786, col: 8, offset: 25243},
+																												pos: position{line: 792, col: 8, offset: 25405},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -6675,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 946, col: 5, offset: 29614},
+																								pos: position{line: 952, col: 5, offset: 29776},
 																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 953, col: 5, offset: 29772},
+																			pos:   position{line: 959, col: 5, offset: 29934},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -6770,44 +6770,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 938, col: 5, offset: 29377},
+														pos:   position{line: 944, col: 5, offset: 29539},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 938, col: 9, offset: 29381},
+															pos: position{line: 944, col: 9, offset: 29543},
 															expr: &choiceExpr{
-																pos: position{line: 945, col: 5, offset: 29583},
+																pos: position{line: 951, col: 5, offset: 29745},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 945, col: 5, offset: 29583},
+																		pos: position{line: 951, col: 5, offset: 29745},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 945, col: 5, offset: 29583},
+																				pos:   position{line: 951, col: 5, offset: 29745},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 784, col: 5, offset: 25141},
+																					pos: position{line: 790, col: 5, offset: 25303},
 																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 784, col: 5, offset: 25141},
+																						pos: position{line: 790, col: 5, offset: 25303},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 784, col: 5, offset: 25141},
+																								pos:   position{line: 790, col: 5, offset: 25303},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 16, offset: 25152},
+																									pos: position{line: 790, col: 16, offset: 25314},
 																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 16, offset: 25152},
+																										pos: position{line: 790, col: 16, offset: 25314},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 784, col: 16, offset: 25152},
+																												pos:        position{line: 790, col: 16, offset: 25314},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 23, offset: 25159},
+																												pos: position{line: 790, col: 23, offset: 25321},
 																												expr: &litMatcher{
-																													pos:        position{line: 784, col: 23, offset: 25159},
+																													pos:        position{line: 790, col: 23, offset: 25321},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6818,12 +6818,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 786, col: 8, offset: 25243},
+																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -6874,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 946, col: 5, offset: 29614},
+																				pos: position{line: 952, col: 5, offset: 29776},
 																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -6893,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 984, col: 5, offset: 30655},
+											pos: position{line: 990, col: 5, offset: 30817},
 											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 984, col: 5, offset: 30655},
+												pos: position{line: 990, col: 5, offset: 30817},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30655},
+														pos:   position{line: 990, col: 5, offset: 30817},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 991, col: 5, offset: 30914},
+															pos: position{line: 997, col: 5, offset: 31076},
 															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 991, col: 5, offset: 30914},
+																pos: position{line: 997, col: 5, offset: 31076},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 991, col: 5, offset: 30914},
+																		pos: position{line: 997, col: 5, offset: 31076},
 																		expr: &actionExpr{
-																			pos: position{line: 678, col: 14, offset: 21519},
+																			pos: position{line: 684, col: 14, offset: 21681},
 																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
-																				pos: position{line: 678, col: 14, offset: 21519},
+																				pos: position{line: 684, col: 14, offset: 21681},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 678, col: 21, offset: 21526},
+																						pos: position{line: 684, col: 21, offset: 21688},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -6978,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 992, col: 5, offset: 30929},
+																		pos:        position{line: 998, col: 5, offset: 31091},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 993, col: 5, offset: 30939},
+																		pos:   position{line: 999, col: 5, offset: 31101},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2817, col: 14, offset: 89346},
+																			pos: position{line: 2823, col: 14, offset: 89508},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2817, col: 14, offset: 89346},
+																				pos: position{line: 2823, col: 14, offset: 89508},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2817, col: 14, offset: 89346},
+																					pos:        position{line: 2823, col: 14, offset: 89508},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -7044,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 985, col: 5, offset: 30692},
+														pos:   position{line: 991, col: 5, offset: 30854},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 985, col: 16, offset: 30703},
+															pos: position{line: 991, col: 16, offset: 30865},
 															expr: &choiceExpr{
-																pos: position{line: 985, col: 17, offset: 30704},
+																pos: position{line: 991, col: 17, offset: 30866},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 991, col: 5, offset: 30914},
+																		pos: position{line: 997, col: 5, offset: 31076},
 																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 991, col: 5, offset: 30914},
+																			pos: position{line: 997, col: 5, offset: 31076},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 991, col: 5, offset: 30914},
+																					pos: position{line: 997, col: 5, offset: 31076},
 																					expr: &actionExpr{
-																						pos: position{line: 678, col: 14, offset: 21519},
+																						pos: position{line: 684, col: 14, offset: 21681},
 																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
-																							pos: position{line: 678, col: 14, offset: 21519},
+																							pos: position{line: 684, col: 14, offset: 21681},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2884, col: 11, offset: 91087},
+																									pos: position{line: 2890, col: 11, offset: 91249},
 																									expr: &anyMatcher{
-																										line: 2884, col: 13, offset: 91089,
+																										line: 2890, col: 13, offset: 91251,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 678, col: 21, offset: 21526},
+																									pos: position{line: 684, col: 21, offset: 21688},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -7128,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 992, col: 5, offset: 30929},
+																					pos:        position{line: 998, col: 5, offset: 31091},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 993, col: 5, offset: 30939},
+																					pos:   position{line: 999, col: 5, offset: 31101},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2817, col: 14, offset: 89346},
+																						pos: position{line: 2823, col: 14, offset: 89508},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2817, col: 14, offset: 89346},
+																							pos: position{line: 2823, col: 14, offset: 89508},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2817, col: 14, offset: 89346},
+																								pos:        position{line: 2823, col: 14, offset: 89508},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1799, col: 5, offset: 58122},
+																		pos: position{line: 1805, col: 5, offset: 58284},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1799, col: 5, offset: 58122},
+																			pos: position{line: 1805, col: 5, offset: 58284},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1799, col: 5, offset: 58122},
+																					pos:   position{line: 1805, col: 5, offset: 58284},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2817, col: 14, offset: 89346},
+																						pos: position{line: 2823, col: 14, offset: 89508},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2817, col: 14, offset: 89346},
+																							pos: position{line: 2823, col: 14, offset: 89508},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2817, col: 14, offset: 89346},
+																								pos:        position{line: 2823, col: 14, offset: 89508},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1800, col: 5, offset: 58146},
+																					pos: position{line: 1806, col: 5, offset: 58308},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -7269,28 +7269,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1006, col: 5, offset: 31204},
+											pos: position{line: 1012, col: 5, offset: 31366},
 											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 1006, col: 5, offset: 31204},
+												pos: position{line: 1012, col: 5, offset: 31366},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1006, col: 5, offset: 31204},
+														pos:   position{line: 1012, col: 5, offset: 31366},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 777, col: 5, offset: 24910},
+															pos: position{line: 783, col: 5, offset: 25072},
 															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 777, col: 5, offset: 24910},
+																pos: position{line: 783, col: 5, offset: 25072},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 777, col: 5, offset: 24910},
+																		pos:   position{line: 783, col: 5, offset: 25072},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 16, offset: 24921},
+																			pos: position{line: 783, col: 16, offset: 25083},
 																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 777, col: 16, offset: 24921},
+																				pos:        position{line: 783, col: 16, offset: 25083},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7298,12 +7298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 779, col: 8, offset: 24998},
+																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -7354,35 +7354,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1007, col: 5, offset: 31240},
+														pos:   position{line: 1013, col: 5, offset: 31402},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1017, col: 5, offset: 31508},
+															pos: position{line: 1023, col: 5, offset: 31670},
 															expr: &actionExpr{
-																pos: position{line: 1017, col: 6, offset: 31509},
+																pos: position{line: 1023, col: 6, offset: 31671},
 																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1017, col: 6, offset: 31509},
+																	pos: position{line: 1023, col: 6, offset: 31671},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1017, col: 6, offset: 31509},
+																			pos: position{line: 1023, col: 6, offset: 31671},
 																			expr: &choiceExpr{
-																				pos: position{line: 1014, col: 26, offset: 31457},
+																				pos: position{line: 1020, col: 26, offset: 31619},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 777, col: 5, offset: 24910},
+																						pos: position{line: 783, col: 5, offset: 25072},
 																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 777, col: 5, offset: 24910},
+																							pos: position{line: 783, col: 5, offset: 25072},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 777, col: 5, offset: 24910},
+																									pos:   position{line: 783, col: 5, offset: 25072},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 777, col: 16, offset: 24921},
+																										pos: position{line: 783, col: 16, offset: 25083},
 																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 777, col: 16, offset: 24921},
+																											pos:        position{line: 783, col: 16, offset: 25083},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7390,12 +7390,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 779, col: 8, offset: 24998},
+																									pos: position{line: 785, col: 8, offset: 25160},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -7445,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1018, col: 5, offset: 31536},
+																			pos:   position{line: 1024, col: 5, offset: 31698},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -7534,27 +7534,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1008, col: 5, offset: 31271},
+														pos:   position{line: 1014, col: 5, offset: 31433},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1008, col: 9, offset: 31275},
+															pos: position{line: 1014, col: 9, offset: 31437},
 															expr: &choiceExpr{
-																pos: position{line: 1014, col: 26, offset: 31457},
+																pos: position{line: 1020, col: 26, offset: 31619},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 777, col: 5, offset: 24910},
+																		pos: position{line: 783, col: 5, offset: 25072},
 																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 777, col: 5, offset: 24910},
+																			pos: position{line: 783, col: 5, offset: 25072},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 777, col: 5, offset: 24910},
+																					pos:   position{line: 783, col: 5, offset: 25072},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 777, col: 16, offset: 24921},
+																						pos: position{line: 783, col: 16, offset: 25083},
 																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 777, col: 16, offset: 24921},
+																							pos:        position{line: 783, col: 16, offset: 25083},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7562,12 +7562,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 779, col: 8, offset: 24998},
+																					pos: position{line: 785, col: 8, offset: 25160},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -7630,39 +7630,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1026, col: 5, offset: 31699},
+											pos: position{line: 1032, col: 5, offset: 31861},
 											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1026, col: 5, offset: 31699},
+												pos: position{line: 1032, col: 5, offset: 31861},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1026, col: 5, offset: 31699},
+														pos:   position{line: 1032, col: 5, offset: 31861},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 791, col: 5, offset: 25393},
+															pos: position{line: 797, col: 5, offset: 25555},
 															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 791, col: 5, offset: 25393},
+																pos: position{line: 797, col: 5, offset: 25555},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 791, col: 5, offset: 25393},
+																		pos:   position{line: 797, col: 5, offset: 25555},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 791, col: 16, offset: 25404},
+																			pos: position{line: 797, col: 16, offset: 25566},
 																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 791, col: 16, offset: 25404},
+																				pos: position{line: 797, col: 16, offset: 25566},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 791, col: 16, offset: 25404},
+																						pos:        position{line: 797, col: 16, offset: 25566},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 791, col: 23, offset: 25411},
+																						pos: position{line: 797, col: 23, offset: 25573},
 																						expr: &litMatcher{
-																							pos:        position{line: 791, col: 23, offset: 25411},
+																							pos:        position{line: 797, col: 23, offset: 25573},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7673,12 +7673,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 793, col: 8, offset: 25495},
+																		pos: position{line: 799, col: 8, offset: 25657},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -7729,56 +7729,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1027, col: 5, offset: 31742},
+														pos: position{line: 1033, col: 5, offset: 31904},
 														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 31834},
+														pos:   position{line: 1036, col: 5, offset: 31996},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1045, col: 5, offset: 32264},
+															pos: position{line: 1051, col: 5, offset: 32426},
 															expr: &actionExpr{
-																pos: position{line: 1045, col: 6, offset: 32265},
+																pos: position{line: 1051, col: 6, offset: 32427},
 																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1045, col: 6, offset: 32265},
+																	pos: position{line: 1051, col: 6, offset: 32427},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1045, col: 6, offset: 32265},
+																			pos: position{line: 1051, col: 6, offset: 32427},
 																			expr: &choiceExpr{
-																				pos: position{line: 1038, col: 5, offset: 32098},
+																				pos: position{line: 1044, col: 5, offset: 32260},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1038, col: 5, offset: 32098},
+																						pos: position{line: 1044, col: 5, offset: 32260},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1038, col: 5, offset: 32098},
+																								pos:   position{line: 1044, col: 5, offset: 32260},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 5, offset: 25393},
+																									pos: position{line: 797, col: 5, offset: 25555},
 																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 5, offset: 25393},
+																										pos: position{line: 797, col: 5, offset: 25555},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 791, col: 5, offset: 25393},
+																												pos:   position{line: 797, col: 5, offset: 25555},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 791, col: 16, offset: 25404},
+																													pos: position{line: 797, col: 16, offset: 25566},
 																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 791, col: 16, offset: 25404},
+																														pos: position{line: 797, col: 16, offset: 25566},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 791, col: 16, offset: 25404},
+																																pos:        position{line: 797, col: 16, offset: 25566},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 791, col: 23, offset: 25411},
+																																pos: position{line: 797, col: 23, offset: 25573},
 																																expr: &litMatcher{
-																																	pos:        position{line: 791, col: 23, offset: 25411},
+																																	pos:        position{line: 797, col: 23, offset: 25573},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7789,12 +7789,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 8, offset: 25495},
+																												pos: position{line: 799, col: 8, offset: 25657},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -7845,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1039, col: 5, offset: 32133},
+																								pos: position{line: 1045, col: 5, offset: 32295},
 																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1046, col: 5, offset: 32299},
+																			pos:   position{line: 1052, col: 5, offset: 32461},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -7940,44 +7940,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1031, col: 5, offset: 31872},
+														pos:   position{line: 1037, col: 5, offset: 32034},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1031, col: 9, offset: 31876},
+															pos: position{line: 1037, col: 9, offset: 32038},
 															expr: &choiceExpr{
-																pos: position{line: 1038, col: 5, offset: 32098},
+																pos: position{line: 1044, col: 5, offset: 32260},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1038, col: 5, offset: 32098},
+																		pos: position{line: 1044, col: 5, offset: 32260},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1038, col: 5, offset: 32098},
+																				pos:   position{line: 1044, col: 5, offset: 32260},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 791, col: 5, offset: 25393},
+																					pos: position{line: 797, col: 5, offset: 25555},
 																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 791, col: 5, offset: 25393},
+																						pos: position{line: 797, col: 5, offset: 25555},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 791, col: 5, offset: 25393},
+																								pos:   position{line: 797, col: 5, offset: 25555},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 16, offset: 25404},
+																									pos: position{line: 797, col: 16, offset: 25566},
 																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 16, offset: 25404},
+																										pos: position{line: 797, col: 16, offset: 25566},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 791, col: 16, offset: 25404},
+																												pos:        position{line: 797, col: 16, offset: 25566},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 23, offset: 25411},
+																												pos: position{line: 797, col: 23, offset: 25573},
 																												expr: &litMatcher{
-																													pos:        position{line: 791, col: 23, offset: 25411},
+																													pos:        position{line: 797, col: 23, offset: 25573},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7988,12 +7988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 793, col: 8, offset: 25495},
+																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -8044,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1039, col: 5, offset: 32133},
+																				pos: position{line: 1045, col: 5, offset: 32295},
 																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -8063,39 +8063,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1054, col: 5, offset: 32450},
+											pos: position{line: 1060, col: 5, offset: 32612},
 											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1054, col: 5, offset: 32450},
+												pos: position{line: 1060, col: 5, offset: 32612},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1054, col: 5, offset: 32450},
+														pos:   position{line: 1060, col: 5, offset: 32612},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 798, col: 5, offset: 25643},
+															pos: position{line: 804, col: 5, offset: 25805},
 															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 798, col: 5, offset: 25643},
+																pos: position{line: 804, col: 5, offset: 25805},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 798, col: 5, offset: 25643},
+																		pos:   position{line: 804, col: 5, offset: 25805},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 798, col: 16, offset: 25654},
+																			pos: position{line: 804, col: 16, offset: 25816},
 																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 798, col: 16, offset: 25654},
+																				pos: position{line: 804, col: 16, offset: 25816},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 798, col: 16, offset: 25654},
+																						pos:        position{line: 804, col: 16, offset: 25816},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 23, offset: 25661},
+																						pos: position{line: 804, col: 23, offset: 25823},
 																						expr: &litMatcher{
-																							pos:        position{line: 798, col: 23, offset: 25661},
+																							pos:        position{line: 804, col: 23, offset: 25823},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8106,12 +8106,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 800, col: 8, offset: 25745},
+																		pos: position{line: 806, col: 8, offset: 25907},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -8162,56 +8162,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1055, col: 5, offset: 32487},
+														pos: position{line: 1061, col: 5, offset: 32649},
 														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32579},
+														pos:   position{line: 1064, col: 5, offset: 32741},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1073, col: 4, offset: 32960},
+															pos: position{line: 1079, col: 4, offset: 33122},
 															expr: &actionExpr{
-																pos: position{line: 1073, col: 5, offset: 32961},
+																pos: position{line: 1079, col: 5, offset: 33123},
 																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1073, col: 5, offset: 32961},
+																	pos: position{line: 1079, col: 5, offset: 33123},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1073, col: 5, offset: 32961},
+																			pos: position{line: 1079, col: 5, offset: 33123},
 																			expr: &choiceExpr{
-																				pos: position{line: 1066, col: 5, offset: 32807},
+																				pos: position{line: 1072, col: 5, offset: 32969},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1066, col: 5, offset: 32807},
+																						pos: position{line: 1072, col: 5, offset: 32969},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1066, col: 5, offset: 32807},
+																								pos:   position{line: 1072, col: 5, offset: 32969},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 5, offset: 25643},
+																									pos: position{line: 804, col: 5, offset: 25805},
 																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 5, offset: 25643},
+																										pos: position{line: 804, col: 5, offset: 25805},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 798, col: 5, offset: 25643},
+																												pos:   position{line: 804, col: 5, offset: 25805},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 798, col: 16, offset: 25654},
+																													pos: position{line: 804, col: 16, offset: 25816},
 																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 798, col: 16, offset: 25654},
+																														pos: position{line: 804, col: 16, offset: 25816},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 798, col: 16, offset: 25654},
+																																pos:        position{line: 804, col: 16, offset: 25816},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 798, col: 23, offset: 25661},
+																																pos: position{line: 804, col: 23, offset: 25823},
 																																expr: &litMatcher{
-																																	pos:        position{line: 798, col: 23, offset: 25661},
+																																	pos:        position{line: 804, col: 23, offset: 25823},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8222,12 +8222,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 8, offset: 25745},
+																												pos: position{line: 806, col: 8, offset: 25907},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -8278,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1067, col: 5, offset: 32836},
+																								pos: position{line: 1073, col: 5, offset: 32998},
 																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1074, col: 5, offset: 32989},
+																			pos:   position{line: 1080, col: 5, offset: 33151},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -8373,44 +8373,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1059, col: 5, offset: 32611},
+														pos:   position{line: 1065, col: 5, offset: 32773},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1059, col: 9, offset: 32615},
+															pos: position{line: 1065, col: 9, offset: 32777},
 															expr: &choiceExpr{
-																pos: position{line: 1066, col: 5, offset: 32807},
+																pos: position{line: 1072, col: 5, offset: 32969},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1066, col: 5, offset: 32807},
+																		pos: position{line: 1072, col: 5, offset: 32969},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1066, col: 5, offset: 32807},
+																				pos:   position{line: 1072, col: 5, offset: 32969},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 798, col: 5, offset: 25643},
+																					pos: position{line: 804, col: 5, offset: 25805},
 																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 798, col: 5, offset: 25643},
+																						pos: position{line: 804, col: 5, offset: 25805},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 798, col: 5, offset: 25643},
+																								pos:   position{line: 804, col: 5, offset: 25805},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 16, offset: 25654},
+																									pos: position{line: 804, col: 16, offset: 25816},
 																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 16, offset: 25654},
+																										pos: position{line: 804, col: 16, offset: 25816},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 798, col: 16, offset: 25654},
+																												pos:        position{line: 804, col: 16, offset: 25816},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 23, offset: 25661},
+																												pos: position{line: 804, col: 23, offset: 25823},
 																												expr: &litMatcher{
-																													pos:        position{line: 798, col: 23, offset: 25661},
+																													pos:        position{line: 804, col: 23, offset: 25823},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8421,12 +8421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 800, col: 8, offset: 25745},
+																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -8477,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1067, col: 5, offset: 32836},
+																				pos: position{line: 1073, col: 5, offset: 32998},
 																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -8496,39 +8496,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1082, col: 5, offset: 33144},
+											pos: position{line: 1088, col: 5, offset: 33306},
 											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1082, col: 5, offset: 33144},
+												pos: position{line: 1088, col: 5, offset: 33306},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1082, col: 5, offset: 33144},
+														pos:   position{line: 1088, col: 5, offset: 33306},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 805, col: 5, offset: 25889},
+															pos: position{line: 811, col: 5, offset: 26051},
 															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 805, col: 5, offset: 25889},
+																pos: position{line: 811, col: 5, offset: 26051},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 805, col: 5, offset: 25889},
+																		pos:   position{line: 811, col: 5, offset: 26051},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 805, col: 16, offset: 25900},
+																			pos: position{line: 811, col: 16, offset: 26062},
 																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 805, col: 16, offset: 25900},
+																				pos: position{line: 811, col: 16, offset: 26062},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 805, col: 16, offset: 25900},
+																						pos:        position{line: 811, col: 16, offset: 26062},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 23, offset: 25907},
+																						pos: position{line: 811, col: 23, offset: 26069},
 																						expr: &litMatcher{
-																							pos:        position{line: 805, col: 23, offset: 25907},
+																							pos:        position{line: 811, col: 23, offset: 26069},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8539,12 +8539,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 807, col: 8, offset: 25991},
+																		pos: position{line: 813, col: 8, offset: 26153},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -8595,56 +8595,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1083, col: 5, offset: 33183},
+														pos: position{line: 1089, col: 5, offset: 33345},
 														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33275},
+														pos:   position{line: 1092, col: 5, offset: 33437},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1101, col: 4, offset: 33672},
+															pos: position{line: 1107, col: 4, offset: 33834},
 															expr: &actionExpr{
-																pos: position{line: 1101, col: 5, offset: 33673},
+																pos: position{line: 1107, col: 5, offset: 33835},
 																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1101, col: 5, offset: 33673},
+																	pos: position{line: 1107, col: 5, offset: 33835},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1101, col: 5, offset: 33673},
+																			pos: position{line: 1107, col: 5, offset: 33835},
 																			expr: &choiceExpr{
-																				pos: position{line: 1094, col: 5, offset: 33515},
+																				pos: position{line: 1100, col: 5, offset: 33677},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1094, col: 5, offset: 33515},
+																						pos: position{line: 1100, col: 5, offset: 33677},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1094, col: 5, offset: 33515},
+																								pos:   position{line: 1100, col: 5, offset: 33677},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 5, offset: 25889},
+																									pos: position{line: 811, col: 5, offset: 26051},
 																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 5, offset: 25889},
+																										pos: position{line: 811, col: 5, offset: 26051},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 805, col: 5, offset: 25889},
+																												pos:   position{line: 811, col: 5, offset: 26051},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 805, col: 16, offset: 25900},
+																													pos: position{line: 811, col: 16, offset: 26062},
 																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 805, col: 16, offset: 25900},
+																														pos: position{line: 811, col: 16, offset: 26062},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 805, col: 16, offset: 25900},
+																																pos:        position{line: 811, col: 16, offset: 26062},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 805, col: 23, offset: 25907},
+																																pos: position{line: 811, col: 23, offset: 26069},
 																																expr: &litMatcher{
-																																	pos:        position{line: 805, col: 23, offset: 25907},
+																																	pos:        position{line: 811, col: 23, offset: 26069},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8655,12 +8655,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 8, offset: 25991},
+																												pos: position{line: 813, col: 8, offset: 26153},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -8711,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1095, col: 5, offset: 33546},
+																								pos: position{line: 1101, col: 5, offset: 33708},
 																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1102, col: 5, offset: 33703},
+																			pos:   position{line: 1108, col: 5, offset: 33865},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -8806,44 +8806,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1087, col: 5, offset: 33309},
+														pos:   position{line: 1093, col: 5, offset: 33471},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1087, col: 9, offset: 33313},
+															pos: position{line: 1093, col: 9, offset: 33475},
 															expr: &choiceExpr{
-																pos: position{line: 1094, col: 5, offset: 33515},
+																pos: position{line: 1100, col: 5, offset: 33677},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1094, col: 5, offset: 33515},
+																		pos: position{line: 1100, col: 5, offset: 33677},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1094, col: 5, offset: 33515},
+																				pos:   position{line: 1100, col: 5, offset: 33677},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 805, col: 5, offset: 25889},
+																					pos: position{line: 811, col: 5, offset: 26051},
 																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 805, col: 5, offset: 25889},
+																						pos: position{line: 811, col: 5, offset: 26051},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 805, col: 5, offset: 25889},
+																								pos:   position{line: 811, col: 5, offset: 26051},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 16, offset: 25900},
+																									pos: position{line: 811, col: 16, offset: 26062},
 																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 16, offset: 25900},
+																										pos: position{line: 811, col: 16, offset: 26062},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 805, col: 16, offset: 25900},
+																												pos:        position{line: 811, col: 16, offset: 26062},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 23, offset: 25907},
+																												pos: position{line: 811, col: 23, offset: 26069},
 																												expr: &litMatcher{
-																													pos:        position{line: 805, col: 23, offset: 25907},
+																													pos:        position{line: 811, col: 23, offset: 26069},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8854,12 +8854,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 807, col: 8, offset: 25991},
+																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -8910,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1095, col: 5, offset: 33546},
+																				pos: position{line: 1101, col: 5, offset: 33708},
 																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2712, col: 18, offset: 86343},
+											pos: position{line: 2718, col: 18, offset: 86505},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2713, col: 9, offset: 86353},
+												pos: position{line: 2719, col: 9, offset: 86515},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2713, col: 9, offset: 86353},
+														pos: position{line: 2719, col: 9, offset: 86515},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2713, col: 9, offset: 86353},
+																pos:        position{line: 2719, col: 9, offset: 86515},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2713, col: 15, offset: 86359},
+																pos: position{line: 2719, col: 15, offset: 86521},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2714, col: 11, offset: 86392},
+														pos: position{line: 2720, col: 11, offset: 86554},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2714, col: 12, offset: 86393},
+																pos: position{line: 2720, col: 12, offset: 86555},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 12, offset: 86393},
+																		pos:        position{line: 2720, col: 12, offset: 86555},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 20, offset: 86401},
+																		pos:        position{line: 2720, col: 20, offset: 86563},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 30, offset: 86411},
+																		pos:        position{line: 2720, col: 30, offset: 86573},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 38, offset: 86419},
+																		pos:        position{line: 2720, col: 38, offset: 86581},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 48, offset: 86429},
+																		pos:        position{line: 2720, col: 48, offset: 86591},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2714, col: 56, offset: 86437},
+																		pos:        position{line: 2720, col: 56, offset: 86599},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2714, col: 65, offset: 86446},
+																pos: position{line: 2720, col: 65, offset: 86608},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2714, col: 76, offset: 86457},
+																pos: position{line: 2720, col: 76, offset: 86619},
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 5, offset: 83279},
+											pos: position{line: 2609, col: 5, offset: 83441},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2603, col: 5, offset: 83279},
+												pos: position{line: 2609, col: 5, offset: 83441},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2609, col: 19, offset: 83436},
+														pos:        position{line: 2615, col: 19, offset: 83598},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2609, col: 26, offset: 83443},
+														pos: position{line: 2615, col: 26, offset: 83605},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2604, col: 5, offset: 83303},
+														pos:   position{line: 2610, col: 5, offset: 83465},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2604, col: 11, offset: 83309},
+															pos: position{line: 2610, col: 11, offset: 83471},
 															expr: &choiceExpr{
-																pos: position{line: 2604, col: 12, offset: 83310},
+																pos: position{line: 2610, col: 12, offset: 83472},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21519},
+																		pos: position{line: 684, col: 14, offset: 21681},
 																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21519},
+																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2884, col: 11, offset: 91087},
+																					pos: position{line: 2890, col: 11, offset: 91249},
 																					expr: &anyMatcher{
-																						line: 2884, col: 13, offset: 91089,
+																						line: 2890, col: 13, offset: 91251,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21526},
+																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2616, col: 5, offset: 83555},
+																		pos: position{line: 2622, col: 5, offset: 83717},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2616, col: 5, offset: 83555},
+																			pos: position{line: 2622, col: 5, offset: 83717},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2616, col: 5, offset: 83555},
+																					pos: position{line: 2622, col: 5, offset: 83717},
 																					expr: &choiceExpr{
-																						pos: position{line: 2613, col: 22, offset: 83516},
+																						pos: position{line: 2619, col: 22, offset: 83678},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2609, col: 19, offset: 83436},
+																								pos: position{line: 2615, col: 19, offset: 83598},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2609, col: 19, offset: 83436},
+																										pos:        position{line: 2615, col: 19, offset: 83598},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2609, col: 26, offset: 83443},
+																										pos: position{line: 2615, col: 26, offset: 83605},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2889, col: 8, offset: 91151},
+																										pos: position{line: 2895, col: 8, offset: 91313},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2876, col: 12, offset: 90924},
+																												pos: position{line: 2882, col: 12, offset: 91086},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2876, col: 13, offset: 90925},
+																													pos: position{line: 2882, col: 13, offset: 91087},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 13, offset: 90925},
+																															pos:        position{line: 2882, col: 13, offset: 91087},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 20, offset: 90932},
+																															pos:        position{line: 2882, col: 20, offset: 91094},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 29, offset: 90941},
+																															pos:        position{line: 2882, col: 29, offset: 91103},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2886, col: 8, offset: 91101},
+																												pos: position{line: 2892, col: 8, offset: 91263},
 																												expr: &anyMatcher{
-																													line: 2886, col: 9, offset: 91102,
+																													line: 2892, col: 9, offset: 91264,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2617, col: 5, offset: 83578},
+																					pos:   position{line: 2623, col: 5, offset: 83740},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2618, col: 9, offset: 83596},
+																						pos: position{line: 2624, col: 9, offset: 83758},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2618, col: 10, offset: 83597},
+																								pos: position{line: 2624, col: 10, offset: 83759},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2618, col: 10, offset: 83597},
+																									pos:   position{line: 2624, col: 10, offset: 83759},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2618, col: 17, offset: 83604},
+																										pos: position{line: 2624, col: 17, offset: 83766},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2626, col: 21, offset: 83800},
+																												pos: position{line: 2632, col: 21, offset: 83962},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2626, col: 21, offset: 83800},
+																													pos: position{line: 2632, col: 21, offset: 83962},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2626, col: 21, offset: 83800},
+																															pos:   position{line: 2632, col: 21, offset: 83962},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2626, col: 27, offset: 83806},
+																																pos: position{line: 2632, col: 27, offset: 83968},
 																																expr: &actionExpr{
-																																	pos: position{line: 2631, col: 5, offset: 83881},
+																																	pos: position{line: 2637, col: 5, offset: 84043},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2631, col: 5, offset: 83881},
+																																		pos: position{line: 2637, col: 5, offset: 84043},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2631, col: 5, offset: 83881},
+																																				pos:        position{line: 2637, col: 5, offset: 84043},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2631, col: 9, offset: 83885},
+																																				pos: position{line: 2637, col: 9, offset: 84047},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2867, col: 10, offset: 90753},
+																																					pos: position{line: 2873, col: 10, offset: 90915},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2867, col: 10, offset: 90753},
+																																						pos:        position{line: 2873, col: 10, offset: 90915},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2631, col: 16, offset: 83892},
+																																				pos:   position{line: 2637, col: 16, offset: 84054},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2637, col: 5, offset: 84092},
+																																					pos: position{line: 2643, col: 5, offset: 84254},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2637, col: 5, offset: 84092},
+																																						pos:   position{line: 2643, col: 5, offset: 84254},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2637, col: 14, offset: 84101},
+																																							pos: position{line: 2643, col: 14, offset: 84263},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2637, col: 14, offset: 84101},
+																																								pos: position{line: 2643, col: 14, offset: 84263},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2637, col: 14, offset: 84101},
+																																									pos:        position{line: 2643, col: 14, offset: 84263},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2889, col: 8, offset: 91151},
+																															pos: position{line: 2895, col: 8, offset: 91313},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2876, col: 12, offset: 90924},
+																																	pos: position{line: 2882, col: 12, offset: 91086},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2876, col: 13, offset: 90925},
+																																		pos: position{line: 2882, col: 13, offset: 91087},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2876, col: 13, offset: 90925},
+																																				pos:        position{line: 2882, col: 13, offset: 91087},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2876, col: 20, offset: 90932},
+																																				pos:        position{line: 2882, col: 20, offset: 91094},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2876, col: 29, offset: 90941},
+																																				pos:        position{line: 2882, col: 29, offset: 91103},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2886, col: 8, offset: 91101},
+																																	pos: position{line: 2892, col: 8, offset: 91263},
 																																	expr: &anyMatcher{
-																																		line: 2886, col: 9, offset: 91102,
+																																		line: 2892, col: 9, offset: 91264,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2643, col: 24, offset: 84237},
+																												pos: position{line: 2649, col: 24, offset: 84399},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2643, col: 24, offset: 84237},
+																													pos:   position{line: 2649, col: 24, offset: 84399},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2643, col: 30, offset: 84243},
+																														pos: position{line: 2649, col: 30, offset: 84405},
 																														expr: &actionExpr{
-																															pos: position{line: 2648, col: 5, offset: 84319},
+																															pos: position{line: 2654, col: 5, offset: 84481},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2648, col: 5, offset: 84319},
+																																pos: position{line: 2654, col: 5, offset: 84481},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2648, col: 5, offset: 84319},
+																																		pos: position{line: 2654, col: 5, offset: 84481},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2613, col: 22, offset: 83516},
+																																			pos: position{line: 2619, col: 22, offset: 83678},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2609, col: 19, offset: 83436},
+																																					pos: position{line: 2615, col: 19, offset: 83598},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2609, col: 19, offset: 83436},
+																																							pos:        position{line: 2615, col: 19, offset: 83598},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2609, col: 26, offset: 83443},
+																																							pos: position{line: 2615, col: 26, offset: 83605},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2867, col: 10, offset: 90753},
+																																								pos: position{line: 2873, col: 10, offset: 90915},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2867, col: 10, offset: 90753},
+																																									pos:        position{line: 2873, col: 10, offset: 90915},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2889, col: 8, offset: 91151},
+																																							pos: position{line: 2895, col: 8, offset: 91313},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2876, col: 12, offset: 90924},
+																																									pos: position{line: 2882, col: 12, offset: 91086},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2876, col: 13, offset: 90925},
+																																										pos: position{line: 2882, col: 13, offset: 91087},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 13, offset: 90925},
+																																												pos:        position{line: 2882, col: 13, offset: 91087},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 20, offset: 90932},
+																																												pos:        position{line: 2882, col: 20, offset: 91094},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 29, offset: 90941},
+																																												pos:        position{line: 2882, col: 29, offset: 91103},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2886, col: 8, offset: 91101},
+																																									pos: position{line: 2892, col: 8, offset: 91263},
 																																									expr: &anyMatcher{
-																																										line: 2886, col: 9, offset: 91102,
+																																										line: 2892, col: 9, offset: 91264,
 																																									},
 																																								},
 																																							},
@@ -9572,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2886, col: 8, offset: 91101},
+																																					pos: position{line: 2892, col: 8, offset: 91263},
 																																					expr: &anyMatcher{
-																																						line: 2886, col: 9, offset: 91102,
+																																						line: 2892, col: 9, offset: 91264,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2649, col: 5, offset: 84342},
+																																		pos: position{line: 2655, col: 5, offset: 84504},
 																																		expr: &actionExpr{
-																																			pos: position{line: 678, col: 14, offset: 21519},
+																																			pos: position{line: 684, col: 14, offset: 21681},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
-																																				pos: position{line: 678, col: 14, offset: 21519},
+																																				pos: position{line: 684, col: 14, offset: 21681},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2884, col: 11, offset: 91087},
+																																						pos: position{line: 2890, col: 11, offset: 91249},
 																																						expr: &anyMatcher{
-																																							line: 2884, col: 13, offset: 91089,
+																																							line: 2890, col: 13, offset: 91251,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 678, col: 21, offset: 21526},
+																																						pos: position{line: 684, col: 21, offset: 21688},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2867, col: 10, offset: 90753},
+																																							pos: position{line: 2873, col: 10, offset: 90915},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2867, col: 10, offset: 90753},
+																																								pos:        position{line: 2873, col: 10, offset: 90915},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2889, col: 8, offset: 91151},
+																																						pos: position{line: 2895, col: 8, offset: 91313},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2876, col: 12, offset: 90924},
+																																								pos: position{line: 2882, col: 12, offset: 91086},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2876, col: 13, offset: 90925},
+																																									pos: position{line: 2882, col: 13, offset: 91087},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 13, offset: 90925},
+																																											pos:        position{line: 2882, col: 13, offset: 91087},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 20, offset: 90932},
+																																											pos:        position{line: 2882, col: 20, offset: 91094},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 29, offset: 90941},
+																																											pos:        position{line: 2882, col: 29, offset: 91103},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2886, col: 8, offset: 91101},
+																																								pos: position{line: 2892, col: 8, offset: 91263},
 																																								expr: &anyMatcher{
-																																									line: 2886, col: 9, offset: 91102,
+																																									line: 2892, col: 9, offset: 91264,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2650, col: 5, offset: 84357},
+																																		pos:   position{line: 2656, col: 5, offset: 84519},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2650, col: 12, offset: 84364},
+																																			pos: position{line: 2656, col: 12, offset: 84526},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2667, col: 20, offset: 84828},
+																																				pos: position{line: 2673, col: 20, offset: 84990},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2667, col: 20, offset: 84828},
+																																					pos: position{line: 2673, col: 20, offset: 84990},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2667, col: 20, offset: 84828},
+																																						pos:        position{line: 2673, col: 20, offset: 84990},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2650, col: 31, offset: 84383},
+																																		pos:        position{line: 2656, col: 31, offset: 84545},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2650, col: 35, offset: 84387},
+																																		pos: position{line: 2656, col: 35, offset: 84549},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2867, col: 10, offset: 90753},
+																																			pos: position{line: 2873, col: 10, offset: 90915},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2867, col: 10, offset: 90753},
+																																				pos:        position{line: 2873, col: 10, offset: 90915},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2650, col: 42, offset: 84394},
+																																		pos: position{line: 2656, col: 42, offset: 84556},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2876, col: 12, offset: 90924},
+																																			pos: position{line: 2882, col: 12, offset: 91086},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2876, col: 13, offset: 90925},
+																																				pos: position{line: 2882, col: 13, offset: 91087},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2876, col: 13, offset: 90925},
+																																						pos:        position{line: 2882, col: 13, offset: 91087},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2876, col: 20, offset: 90932},
+																																						pos:        position{line: 2882, col: 20, offset: 91094},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2876, col: 29, offset: 90941},
+																																						pos:        position{line: 2882, col: 29, offset: 91103},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2650, col: 51, offset: 84403},
+																																		pos:   position{line: 2656, col: 51, offset: 84565},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2656, col: 5, offset: 84562},
+																																			pos: position{line: 2662, col: 5, offset: 84724},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2657, col: 9, offset: 84572},
+																																				pos: position{line: 2663, col: 9, offset: 84734},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2657, col: 9, offset: 84572},
+																																					pos: position{line: 2663, col: 9, offset: 84734},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2657, col: 9, offset: 84572},
+																																							pos: position{line: 2663, col: 9, offset: 84734},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2613, col: 22, offset: 83516},
+																																								pos: position{line: 2619, col: 22, offset: 83678},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2609, col: 19, offset: 83436},
+																																										pos: position{line: 2615, col: 19, offset: 83598},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2609, col: 19, offset: 83436},
+																																												pos:        position{line: 2615, col: 19, offset: 83598},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2609, col: 26, offset: 83443},
+																																												pos: position{line: 2615, col: 26, offset: 83605},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2867, col: 10, offset: 90753},
+																																													pos: position{line: 2873, col: 10, offset: 90915},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2867, col: 10, offset: 90753},
+																																														pos:        position{line: 2873, col: 10, offset: 90915},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2889, col: 8, offset: 91151},
+																																												pos: position{line: 2895, col: 8, offset: 91313},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2876, col: 12, offset: 90924},
+																																														pos: position{line: 2882, col: 12, offset: 91086},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2876, col: 13, offset: 90925},
+																																															pos: position{line: 2882, col: 13, offset: 91087},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2886, col: 8, offset: 91101},
+																																														pos: position{line: 2892, col: 8, offset: 91263},
 																																														expr: &anyMatcher{
-																																															line: 2886, col: 9, offset: 91102,
+																																															line: 2892, col: 9, offset: 91264,
 																																														},
 																																													},
 																																												},
@@ -9801,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2886, col: 8, offset: 91101},
+																																										pos: position{line: 2892, col: 8, offset: 91263},
 																																										expr: &anyMatcher{
-																																											line: 2886, col: 9, offset: 91102,
+																																											line: 2892, col: 9, offset: 91264,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2658, col: 9, offset: 84599},
+																																							pos: position{line: 2664, col: 9, offset: 84761},
 																																							expr: &actionExpr{
-																																								pos: position{line: 678, col: 14, offset: 21519},
+																																								pos: position{line: 684, col: 14, offset: 21681},
 																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
-																																									pos: position{line: 678, col: 14, offset: 21519},
+																																									pos: position{line: 684, col: 14, offset: 21681},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2884, col: 11, offset: 91087},
+																																											pos: position{line: 2890, col: 11, offset: 91249},
 																																											expr: &anyMatcher{
-																																												line: 2884, col: 13, offset: 91089,
+																																												line: 2890, col: 13, offset: 91251,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 678, col: 21, offset: 21526},
+																																											pos: position{line: 684, col: 21, offset: 21688},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2867, col: 10, offset: 90753},
+																																												pos: position{line: 2873, col: 10, offset: 90915},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2867, col: 10, offset: 90753},
+																																													pos:        position{line: 2873, col: 10, offset: 90915},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2889, col: 8, offset: 91151},
+																																											pos: position{line: 2895, col: 8, offset: 91313},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2876, col: 12, offset: 90924},
+																																													pos: position{line: 2882, col: 12, offset: 91086},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2876, col: 13, offset: 90925},
+																																														pos: position{line: 2882, col: 13, offset: 91087},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2886, col: 8, offset: 91101},
+																																													pos: position{line: 2892, col: 8, offset: 91263},
 																																													expr: &anyMatcher{
-																																														line: 2886, col: 9, offset: 91102,
+																																														line: 2892, col: 9, offset: 91264,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2659, col: 9, offset: 84618},
+																																							pos: position{line: 2665, col: 9, offset: 84780},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2659, col: 11, offset: 84620},
+																																								pos: position{line: 2665, col: 11, offset: 84782},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2659, col: 11, offset: 84620},
+																																										pos:   position{line: 2665, col: 11, offset: 84782},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2659, col: 18, offset: 84627},
+																																											pos: position{line: 2665, col: 18, offset: 84789},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2667, col: 20, offset: 84828},
+																																												pos: position{line: 2673, col: 20, offset: 84990},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2667, col: 20, offset: 84828},
+																																													pos: position{line: 2673, col: 20, offset: 84990},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2667, col: 20, offset: 84828},
+																																														pos:        position{line: 2673, col: 20, offset: 84990},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2659, col: 37, offset: 84646},
+																																										pos:        position{line: 2665, col: 37, offset: 84808},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2660, col: 9, offset: 84659},
+																																							pos:   position{line: 2666, col: 9, offset: 84821},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2660, col: 18, offset: 84668},
+																																								pos: position{line: 2666, col: 18, offset: 84830},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2660, col: 18, offset: 84668},
+																																									pos: position{line: 2666, col: 18, offset: 84830},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2660, col: 18, offset: 84668},
+																																										pos:        position{line: 2666, col: 18, offset: 84830},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2662, col: 12, offset: 84730},
+																																							pos: position{line: 2668, col: 12, offset: 84892},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2889, col: 8, offset: 91151},
+																																								pos: position{line: 2895, col: 8, offset: 91313},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2876, col: 12, offset: 90924},
+																																										pos: position{line: 2882, col: 12, offset: 91086},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2876, col: 13, offset: 90925},
+																																											pos: position{line: 2882, col: 13, offset: 91087},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2876, col: 13, offset: 90925},
+																																													pos:        position{line: 2882, col: 13, offset: 91087},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2876, col: 20, offset: 90932},
+																																													pos:        position{line: 2882, col: 20, offset: 91094},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2876, col: 29, offset: 90941},
+																																													pos:        position{line: 2882, col: 29, offset: 91103},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2886, col: 8, offset: 91101},
+																																										pos: position{line: 2892, col: 8, offset: 91263},
 																																										expr: &anyMatcher{
-																																											line: 2886, col: 9, offset: 91102,
+																																											line: 2892, col: 9, offset: 91264,
 																																										},
 																																									},
 																																								},
@@ -9989,24 +9989,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 678, col: 14, offset: 21519},
+																								pos: position{line: 684, col: 14, offset: 21681},
 																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
-																									pos: position{line: 678, col: 14, offset: 21519},
+																									pos: position{line: 684, col: 14, offset: 21681},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2884, col: 11, offset: 91087},
+																											pos: position{line: 2890, col: 11, offset: 91249},
 																											expr: &anyMatcher{
-																												line: 2884, col: 13, offset: 91089,
+																												line: 2890, col: 13, offset: 91251,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 678, col: 21, offset: 21526},
+																											pos: position{line: 684, col: 21, offset: 21688},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2613, col: 22, offset: 83516},
+														pos: position{line: 2619, col: 22, offset: 83678},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2609, col: 19, offset: 83436},
+																pos: position{line: 2615, col: 19, offset: 83598},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2609, col: 19, offset: 83436},
+																		pos:        position{line: 2615, col: 19, offset: 83598},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2609, col: 26, offset: 83443},
+																		pos: position{line: 2615, col: 26, offset: 83605},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2477, col: 22, offset: 79738},
+												pos: position{line: 2483, col: 22, offset: 79900},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2482, col: 31, offset: 79959},
+														pos:        position{line: 2488, col: 31, offset: 80121},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2482, col: 36, offset: 79964},
+														pos: position{line: 2488, col: 36, offset: 80126},
 														expr: &litMatcher{
-															pos:        position{line: 2482, col: 37, offset: 79965},
+															pos:        position{line: 2488, col: 37, offset: 80127},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2477, col: 49, offset: 79765},
+														pos:   position{line: 2483, col: 49, offset: 79927},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2813, col: 13, offset: 89279},
+																pos: position{line: 2819, col: 13, offset: 89441},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2813, col: 13, offset: 89279},
+																	pos:        position{line: 2819, col: 13, offset: 89441},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -10223,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1231, col: 5, offset: 38121},
+											pos: position{line: 1237, col: 5, offset: 38283},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1231, col: 5, offset: 38121},
+												pos: position{line: 1237, col: 5, offset: 38283},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1231, col: 5, offset: 38121},
+														pos: position{line: 1237, col: 5, offset: 38283},
 														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1234, col: 5, offset: 38179},
+														pos:   position{line: 1240, col: 5, offset: 38341},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1240, col: 5, offset: 38279},
+															pos: position{line: 1246, col: 5, offset: 38441},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1240, col: 5, offset: 38279},
+																pos: position{line: 1246, col: 5, offset: 38441},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1248, col: 30, offset: 38538},
+																		pos:        position{line: 1254, col: 30, offset: 38700},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1248, col: 36, offset: 38544},
+																		pos: position{line: 1254, col: 36, offset: 38706},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,42 +10292,42 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1240, col: 30, offset: 38304},
+																		pos:   position{line: 1246, col: 30, offset: 38466},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1250, col: 27, offset: 38582},
+																			pos: position{line: 1256, col: 27, offset: 38744},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 1250, col: 27, offset: 38582},
+																				pos: position{line: 1256, col: 27, offset: 38744},
 																				expr: &seqExpr{
-																					pos: position{line: 1250, col: 28, offset: 38583},
+																					pos: position{line: 1256, col: 28, offset: 38745},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1250, col: 28, offset: 38583},
+																							pos: position{line: 1256, col: 28, offset: 38745},
 																							expr: &seqExpr{
-																								pos: position{line: 1248, col: 30, offset: 38538},
+																								pos: position{line: 1254, col: 30, offset: 38700},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1248, col: 30, offset: 38538},
+																										pos:        position{line: 1254, col: 30, offset: 38700},
 																										val:        "---",
 																										ignoreCase: false,
 																										want:       "\"---\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1248, col: 36, offset: 38544},
+																										pos: position{line: 1254, col: 36, offset: 38706},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2889, col: 8, offset: 91151},
+																										pos: position{line: 2895, col: 8, offset: 91313},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2876, col: 12, offset: 90924},
+																												pos: position{line: 2882, col: 12, offset: 91086},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2876, col: 13, offset: 90925},
+																													pos: position{line: 2882, col: 13, offset: 91087},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 13, offset: 90925},
+																															pos:        position{line: 2882, col: 13, offset: 91087},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 20, offset: 90932},
+																															pos:        position{line: 2882, col: 20, offset: 91094},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 29, offset: 90941},
+																															pos:        position{line: 2882, col: 29, offset: 91103},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2886, col: 8, offset: 91101},
+																												pos: position{line: 2892, col: 8, offset: 91263},
 																												expr: &anyMatcher{
-																													line: 2886, col: 9, offset: 91102,
+																													line: 2892, col: 9, offset: 91264,
 																												},
 																											},
 																										},
@@ -10377,9 +10377,9 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1250, col: 54, offset: 38609},
+																							pos: position{line: 1256, col: 54, offset: 38771},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1250, col: 54, offset: 38609},
+																								pos:        position{line: 1256, col: 54, offset: 38771},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10419,18 +10419,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1248, col: 30, offset: 38538},
+																		pos:        position{line: 1254, col: 30, offset: 38700},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1248, col: 36, offset: 38544},
+																		pos: position{line: 1254, col: 36, offset: 38706},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,15 +10469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1241, col: 5, offset: 38367},
+																		pos: position{line: 1247, col: 5, offset: 38529},
 																		run: (*parser).callonDocumentFragment1422,
 																	},
 																},
@@ -10525,27 +10525,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1207, col: 23, offset: 37227},
+											pos: position{line: 1213, col: 23, offset: 37389},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1207, col: 23, offset: 37227},
+												pos: position{line: 1213, col: 23, offset: 37389},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37195},
+														pos:        position{line: 1211, col: 32, offset: 37357},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1207, col: 51, offset: 37255},
+														pos:   position{line: 1213, col: 51, offset: 37417},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1207, col: 56, offset: 37260},
+															pos: position{line: 1213, col: 56, offset: 37422},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1207, col: 56, offset: 37260},
+																pos: position{line: 1213, col: 56, offset: 37422},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1207, col: 56, offset: 37260},
+																	pos:        position{line: 1213, col: 56, offset: 37422},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10555,7 +10555,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37195},
+														pos:        position{line: 1211, col: 32, offset: 37357},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2871, col: 11, offset: 90814},
+												pos: position{line: 2877, col: 11, offset: 90976},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2871, col: 11, offset: 90814},
+													pos: position{line: 2877, col: 11, offset: 90976},
 													expr: &charClassMatcher{
-														pos:        position{line: 2871, col: 11, offset: 90814},
+														pos:        position{line: 2877, col: 11, offset: 90976},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2876, col: 12, offset: 90924},
+												pos: position{line: 2882, col: 12, offset: 91086},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2876, col: 13, offset: 90925},
+													pos: position{line: 2882, col: 13, offset: 91087},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2876, col: 13, offset: 90925},
+															pos:        position{line: 2882, col: 13, offset: 91087},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 20, offset: 90932},
+															pos:        position{line: 2882, col: 20, offset: 91094},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 29, offset: 90941},
+															pos:        position{line: 2882, col: 29, offset: 91103},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9944},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 10, offset: 90753},
+													pos: position{line: 2873, col: 10, offset: 90915},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 10, offset: 90753},
+														pos:        position{line: 2873, col: 10, offset: 90915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10489},
 										expr: &actionExpr{
-											pos: position{line: 2867, col: 10, offset: 90753},
+											pos: position{line: 2873, col: 10, offset: 90915},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 10, offset: 90753},
+												pos:        position{line: 2873, col: 10, offset: 90915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2889, col: 8, offset: 91151},
+										pos: position{line: 2895, col: 8, offset: 91313},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2876, col: 12, offset: 90924},
+												pos: position{line: 2882, col: 12, offset: 91086},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2876, col: 13, offset: 90925},
+													pos: position{line: 2882, col: 13, offset: 91087},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2876, col: 13, offset: 90925},
+															pos:        position{line: 2882, col: 13, offset: 91087},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 20, offset: 90932},
+															pos:        position{line: 2882, col: 20, offset: 91094},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 29, offset: 90941},
+															pos:        position{line: 2882, col: 29, offset: 91103},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2886, col: 8, offset: 91101},
+												pos: position{line: 2892, col: 8, offset: 91263},
 												expr: &anyMatcher{
-													line: 2886, col: 9, offset: 91102,
+													line: 2892, col: 9, offset: 91264,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2464, col: 5, offset: 79284},
+										pos: position{line: 2470, col: 5, offset: 79446},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2464, col: 5, offset: 79284},
+													pos: position{line: 2470, col: 5, offset: 79446},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2467, col: 5, offset: 79360},
+													pos:   position{line: 2473, col: 5, offset: 79522},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2468, col: 9, offset: 79378},
+														pos: position{line: 2474, col: 9, offset: 79540},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2468, col: 10, offset: 79379},
+															pos:        position{line: 2474, col: 10, offset: 79541},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 10, offset: 90753},
+										pos: position{line: 2873, col: 10, offset: 90915},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 10, offset: 90753},
+											pos:        position{line: 2873, col: 10, offset: 90915},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10981,35 +10981,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20139},
+										pos: position{line: 643, col: 5, offset: 20301},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20139},
+											pos: position{line: 643, col: 5, offset: 20301},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20139},
+													pos: position{line: 643, col: 5, offset: 20301},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20211},
+													pos:   position{line: 646, col: 5, offset: 20373},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20220},
+														pos: position{line: 646, col: 14, offset: 20382},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20349},
+																pos: position{line: 652, col: 5, offset: 20511},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20349},
+																	pos: position{line: 652, col: 5, offset: 20511},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20349},
+																			pos:        position{line: 652, col: 5, offset: 20511},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20357},
+																			pos:   position{line: 652, col: 13, offset: 20519},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11041,7 +11041,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20376},
+																			pos:        position{line: 652, col: 32, offset: 20538},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11050,19 +11050,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20617},
+																pos: position{line: 659, col: 5, offset: 20779},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20617},
+																	pos: position{line: 659, col: 5, offset: 20779},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20617},
+																			pos:        position{line: 659, col: 5, offset: 20779},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20621},
+																			pos:   position{line: 659, col: 9, offset: 20783},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11094,7 +11094,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20640},
+																			pos:        position{line: 659, col: 28, offset: 20802},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11103,19 +11103,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20821},
+																pos: position{line: 665, col: 25, offset: 20983},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20821},
+																	pos: position{line: 665, col: 25, offset: 20983},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20821},
+																			pos:        position{line: 665, col: 25, offset: 20983},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20833},
+																			pos:   position{line: 665, col: 37, offset: 20995},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11147,33 +11147,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20852},
+																			pos:   position{line: 665, col: 56, offset: 21014},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20858},
+																				pos: position{line: 665, col: 62, offset: 21020},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11181,12 +11181,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11203,7 +11203,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20874},
+																			pos:        position{line: 665, col: 78, offset: 21036},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11212,19 +11212,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20992},
+																pos: position{line: 669, col: 25, offset: 21154},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20992},
+																	pos: position{line: 669, col: 25, offset: 21154},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20992},
+																			pos:        position{line: 669, col: 25, offset: 21154},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21005},
+																			pos:   position{line: 669, col: 38, offset: 21167},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11256,33 +11256,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21024},
+																			pos:   position{line: 669, col: 57, offset: 21186},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21030},
+																				pos: position{line: 669, col: 63, offset: 21192},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11290,12 +11290,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11312,7 +11312,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21046},
+																			pos:        position{line: 669, col: 79, offset: 21208},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11397,27 +11397,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1207, col: 23, offset: 37227},
+																						pos: position{line: 1213, col: 23, offset: 37389},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1207, col: 23, offset: 37227},
+																							pos: position{line: 1213, col: 23, offset: 37389},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1205, col: 32, offset: 37195},
+																									pos:        position{line: 1211, col: 32, offset: 37357},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1207, col: 51, offset: 37255},
+																									pos:   position{line: 1213, col: 51, offset: 37417},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1207, col: 56, offset: 37260},
+																										pos: position{line: 1213, col: 56, offset: 37422},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1207, col: 56, offset: 37260},
+																											pos: position{line: 1213, col: 56, offset: 37422},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1207, col: 56, offset: 37260},
+																												pos:        position{line: 1213, col: 56, offset: 37422},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11427,7 +11427,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1205, col: 32, offset: 37195},
+																									pos:        position{line: 1211, col: 32, offset: 37357},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11436,35 +11436,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 637, col: 5, offset: 20139},
+																							pos: position{line: 643, col: 5, offset: 20301},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 637, col: 5, offset: 20139},
+																									pos: position{line: 643, col: 5, offset: 20301},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 640, col: 5, offset: 20211},
+																									pos:   position{line: 646, col: 5, offset: 20373},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 640, col: 14, offset: 20220},
+																										pos: position{line: 646, col: 14, offset: 20382},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 646, col: 5, offset: 20349},
+																												pos: position{line: 652, col: 5, offset: 20511},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 646, col: 5, offset: 20349},
+																													pos: position{line: 652, col: 5, offset: 20511},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 646, col: 5, offset: 20349},
+																															pos:        position{line: 652, col: 5, offset: 20511},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 646, col: 13, offset: 20357},
+																															pos:   position{line: 652, col: 13, offset: 20519},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11496,7 +11496,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 646, col: 32, offset: 20376},
+																															pos:        position{line: 652, col: 32, offset: 20538},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11505,19 +11505,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 653, col: 5, offset: 20617},
+																												pos: position{line: 659, col: 5, offset: 20779},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 653, col: 5, offset: 20617},
+																													pos: position{line: 659, col: 5, offset: 20779},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 653, col: 5, offset: 20617},
+																															pos:        position{line: 659, col: 5, offset: 20779},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 653, col: 9, offset: 20621},
+																															pos:   position{line: 659, col: 9, offset: 20783},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11549,7 +11549,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 653, col: 28, offset: 20640},
+																															pos:        position{line: 659, col: 28, offset: 20802},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11558,19 +11558,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 659, col: 25, offset: 20821},
+																												pos: position{line: 665, col: 25, offset: 20983},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 659, col: 25, offset: 20821},
+																													pos: position{line: 665, col: 25, offset: 20983},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 659, col: 25, offset: 20821},
+																															pos:        position{line: 665, col: 25, offset: 20983},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 37, offset: 20833},
+																															pos:   position{line: 665, col: 37, offset: 20995},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11602,33 +11602,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 56, offset: 20852},
+																															pos:   position{line: 665, col: 56, offset: 21014},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 659, col: 62, offset: 20858},
+																																pos: position{line: 665, col: 62, offset: 21020},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21153},
+																																	pos: position{line: 673, col: 17, offset: 21315},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21153},
+																																		pos: position{line: 673, col: 17, offset: 21315},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21153},
+																																				pos:        position{line: 673, col: 17, offset: 21315},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21157},
+																																				pos:   position{line: 673, col: 21, offset: 21319},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21164},
+																																					pos: position{line: 673, col: 28, offset: 21326},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21164},
+																																							pos: position{line: 673, col: 28, offset: 21326},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21164},
+																																								pos:        position{line: 673, col: 28, offset: 21326},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11636,12 +11636,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21218},
+																																							pos: position{line: 675, col: 9, offset: 21380},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21218},
+																																								pos: position{line: 675, col: 9, offset: 21380},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21218},
+																																									pos:        position{line: 675, col: 9, offset: 21380},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11658,7 +11658,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 659, col: 78, offset: 20874},
+																															pos:        position{line: 665, col: 78, offset: 21036},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11667,19 +11667,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 663, col: 25, offset: 20992},
+																												pos: position{line: 669, col: 25, offset: 21154},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 663, col: 25, offset: 20992},
+																													pos: position{line: 669, col: 25, offset: 21154},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 663, col: 25, offset: 20992},
+																															pos:        position{line: 669, col: 25, offset: 21154},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 38, offset: 21005},
+																															pos:   position{line: 669, col: 38, offset: 21167},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11711,33 +11711,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 663, col: 57, offset: 21024},
+																															pos:   position{line: 669, col: 57, offset: 21186},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 663, col: 63, offset: 21030},
+																																pos: position{line: 669, col: 63, offset: 21192},
 																																expr: &actionExpr{
-																																	pos: position{line: 667, col: 17, offset: 21153},
+																																	pos: position{line: 673, col: 17, offset: 21315},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 667, col: 17, offset: 21153},
+																																		pos: position{line: 673, col: 17, offset: 21315},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 667, col: 17, offset: 21153},
+																																				pos:        position{line: 673, col: 17, offset: 21315},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 667, col: 21, offset: 21157},
+																																				pos:   position{line: 673, col: 21, offset: 21319},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 667, col: 28, offset: 21164},
+																																					pos: position{line: 673, col: 28, offset: 21326},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 28, offset: 21164},
+																																							pos: position{line: 673, col: 28, offset: 21326},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 667, col: 28, offset: 21164},
+																																								pos:        position{line: 673, col: 28, offset: 21326},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11745,12 +11745,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 9, offset: 21218},
+																																							pos: position{line: 675, col: 9, offset: 21380},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 669, col: 9, offset: 21218},
+																																								pos: position{line: 675, col: 9, offset: 21380},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 9, offset: 21218},
+																																									pos:        position{line: 675, col: 9, offset: 21380},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11767,7 +11767,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 663, col: 79, offset: 21046},
+																															pos:        position{line: 669, col: 79, offset: 21208},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 10, offset: 90753},
+													pos: position{line: 2873, col: 10, offset: 90915},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 10, offset: 90753},
+														pos:        position{line: 2873, col: 10, offset: 90915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2889, col: 8, offset: 91151},
+												pos: position{line: 2895, col: 8, offset: 91313},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2876, col: 12, offset: 90924},
+														pos: position{line: 2882, col: 12, offset: 91086},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 13, offset: 90925},
+															pos: position{line: 2882, col: 13, offset: 91087},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 13, offset: 90925},
+																	pos:        position{line: 2882, col: 13, offset: 91087},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 20, offset: 90932},
+																	pos:        position{line: 2882, col: 20, offset: 91094},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 29, offset: 90941},
+																	pos:        position{line: 2882, col: 29, offset: 91103},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2886, col: 8, offset: 91101},
+														pos: position{line: 2892, col: 8, offset: 91263},
 														expr: &anyMatcher{
-															line: 2886, col: 9, offset: 91102,
+															line: 2892, col: 9, offset: 91264,
 														},
 													},
 												},
@@ -11862,24 +11862,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 46, offset: 11509},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13074},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2761, col: 14, offset: 87922},
+																				pos: position{line: 2767, col: 14, offset: 88084},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2761, col: 14, offset: 87922},
+																					pos: position{line: 2767, col: 14, offset: 88084},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2761, col: 14, offset: 87922},
+																						pos:        position{line: 2767, col: 14, offset: 88084},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2784, col: 5, offset: 88407},
+																				pos: position{line: 2790, col: 5, offset: 88569},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2785, col: 9, offset: 88417},
+																					pos: position{line: 2791, col: 9, offset: 88579},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2785, col: 10, offset: 88418},
+																							pos:        position{line: 2791, col: 10, offset: 88580},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2787, col: 13, offset: 88515},
+																							pos: position{line: 2793, col: 13, offset: 88677},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2787, col: 13, offset: 88515},
+																									pos: position{line: 2793, col: 13, offset: 88677},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2790, col: 13, offset: 88615},
+																									pos:        position{line: 2796, col: 13, offset: 88777},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2790, col: 19, offset: 88621},
+																							pos:        position{line: 2796, col: 19, offset: 88783},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 13, offset: 88659},
+																							pos: position{line: 2799, col: 13, offset: 88821},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2793, col: 13, offset: 88659},
+																									pos: position{line: 2799, col: 13, offset: 88821},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2796, col: 14, offset: 88752},
+																									pos:        position{line: 2802, col: 14, offset: 88914},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2798, col: 12, offset: 88796},
+																							pos: position{line: 2804, col: 12, offset: 88958},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2798, col: 12, offset: 88796},
+																									pos:        position{line: 2804, col: 12, offset: 88958},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2798, col: 16, offset: 88800},
+																									pos: position{line: 2804, col: 16, offset: 88962},
 																									expr: &litMatcher{
-																										pos:        position{line: 2798, col: 17, offset: 88801},
+																										pos:        position{line: 2804, col: 17, offset: 88963},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12070,19 +12070,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 646, col: 5, offset: 20349},
+																					pos: position{line: 652, col: 5, offset: 20511},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 646, col: 5, offset: 20349},
+																							pos:        position{line: 652, col: 5, offset: 20511},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 646, col: 13, offset: 20357},
+																							pos:   position{line: 652, col: 13, offset: 20519},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12114,7 +12114,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 646, col: 32, offset: 20376},
+																							pos:        position{line: 652, col: 32, offset: 20538},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12123,19 +12123,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 653, col: 5, offset: 20617},
+																				pos: position{line: 659, col: 5, offset: 20779},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 653, col: 5, offset: 20617},
+																					pos: position{line: 659, col: 5, offset: 20779},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 653, col: 5, offset: 20617},
+																							pos:        position{line: 659, col: 5, offset: 20779},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 653, col: 9, offset: 20621},
+																							pos:   position{line: 659, col: 9, offset: 20783},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12167,7 +12167,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 653, col: 28, offset: 20640},
+																							pos:        position{line: 659, col: 28, offset: 20802},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12176,19 +12176,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 25, offset: 20821},
+																				pos: position{line: 665, col: 25, offset: 20983},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 25, offset: 20821},
+																					pos: position{line: 665, col: 25, offset: 20983},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 25, offset: 20821},
+																							pos:        position{line: 665, col: 25, offset: 20983},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 37, offset: 20833},
+																							pos:   position{line: 665, col: 37, offset: 20995},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12220,33 +12220,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 56, offset: 20852},
+																							pos:   position{line: 665, col: 56, offset: 21014},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 659, col: 62, offset: 20858},
+																								pos: position{line: 665, col: 62, offset: 21020},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21153},
+																									pos: position{line: 673, col: 17, offset: 21315},
 																									run: (*parser).callonBlockAttributes187,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21153},
+																												pos:        position{line: 673, col: 17, offset: 21315},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21157},
+																												pos:   position{line: 673, col: 21, offset: 21319},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21164},
+																													pos: position{line: 673, col: 28, offset: 21326},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21164},
+																															pos: position{line: 673, col: 28, offset: 21326},
 																															run: (*parser).callonBlockAttributes192,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21164},
+																																pos:        position{line: 673, col: 28, offset: 21326},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12254,12 +12254,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21218},
+																															pos: position{line: 675, col: 9, offset: 21380},
 																															run: (*parser).callonBlockAttributes194,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21218},
+																																	pos:        position{line: 675, col: 9, offset: 21380},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12276,7 +12276,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 78, offset: 20874},
+																							pos:        position{line: 665, col: 78, offset: 21036},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12285,19 +12285,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 663, col: 25, offset: 20992},
+																				pos: position{line: 669, col: 25, offset: 21154},
 																				run: (*parser).callonBlockAttributes198,
 																				expr: &seqExpr{
-																					pos: position{line: 663, col: 25, offset: 20992},
+																					pos: position{line: 669, col: 25, offset: 21154},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 663, col: 25, offset: 20992},
+																							pos:        position{line: 669, col: 25, offset: 21154},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 38, offset: 21005},
+																							pos:   position{line: 669, col: 38, offset: 21167},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12329,33 +12329,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 663, col: 57, offset: 21024},
+																							pos:   position{line: 669, col: 57, offset: 21186},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 663, col: 63, offset: 21030},
+																								pos: position{line: 669, col: 63, offset: 21192},
 																								expr: &actionExpr{
-																									pos: position{line: 667, col: 17, offset: 21153},
+																									pos: position{line: 673, col: 17, offset: 21315},
 																									run: (*parser).callonBlockAttributes209,
 																									expr: &seqExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 667, col: 17, offset: 21153},
+																												pos:        position{line: 673, col: 17, offset: 21315},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 667, col: 21, offset: 21157},
+																												pos:   position{line: 673, col: 21, offset: 21319},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 667, col: 28, offset: 21164},
+																													pos: position{line: 673, col: 28, offset: 21326},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 667, col: 28, offset: 21164},
+																															pos: position{line: 673, col: 28, offset: 21326},
 																															run: (*parser).callonBlockAttributes214,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 28, offset: 21164},
+																																pos:        position{line: 673, col: 28, offset: 21326},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12363,12 +12363,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 669, col: 9, offset: 21218},
+																															pos: position{line: 675, col: 9, offset: 21380},
 																															run: (*parser).callonBlockAttributes216,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 9, offset: 21218},
+																																	pos:        position{line: 675, col: 9, offset: 21380},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12385,7 +12385,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 663, col: 79, offset: 21046},
+																							pos:        position{line: 669, col: 79, offset: 21208},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2806, col: 12, offset: 89061},
+																				pos: position{line: 2812, col: 12, offset: 89223},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2806, col: 12, offset: 89061},
+																					pos:        position{line: 2812, col: 12, offset: 89223},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 10, offset: 90753},
+													pos: position{line: 2873, col: 10, offset: 90915},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 10, offset: 90753},
+														pos:        position{line: 2873, col: 10, offset: 90915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2889, col: 8, offset: 91151},
+												pos: position{line: 2895, col: 8, offset: 91313},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2876, col: 12, offset: 90924},
+														pos: position{line: 2882, col: 12, offset: 91086},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 13, offset: 90925},
+															pos: position{line: 2882, col: 13, offset: 91087},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 13, offset: 90925},
+																	pos:        position{line: 2882, col: 13, offset: 91087},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 20, offset: 90932},
+																	pos:        position{line: 2882, col: 20, offset: 91094},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 29, offset: 90941},
+																	pos:        position{line: 2882, col: 29, offset: 91103},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2886, col: 8, offset: 91101},
+														pos: position{line: 2892, col: 8, offset: 91263},
 														expr: &anyMatcher{
-															line: 2886, col: 9, offset: 91102,
+															line: 2892, col: 9, offset: 91264,
 														},
 													},
 												},
@@ -12467,24 +12467,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 46, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 10, offset: 90753},
+													pos: position{line: 2873, col: 10, offset: 90915},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 10, offset: 90753},
+														pos:        position{line: 2873, col: 10, offset: 90915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2889, col: 8, offset: 91151},
+												pos: position{line: 2895, col: 8, offset: 91313},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2876, col: 12, offset: 90924},
+														pos: position{line: 2882, col: 12, offset: 91086},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 13, offset: 90925},
+															pos: position{line: 2882, col: 13, offset: 91087},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 13, offset: 90925},
+																	pos:        position{line: 2882, col: 13, offset: 91087},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 20, offset: 90932},
+																	pos:        position{line: 2882, col: 20, offset: 91094},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 29, offset: 90941},
+																	pos:        position{line: 2882, col: 29, offset: 91103},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2886, col: 8, offset: 91101},
+														pos: position{line: 2892, col: 8, offset: 91263},
 														expr: &anyMatcher{
-															line: 2886, col: 9, offset: 91102,
+															line: 2892, col: 9, offset: 91264,
 														},
 													},
 												},
@@ -12606,24 +12606,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 55, offset: 11797},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14561},
 										expr: &actionExpr{
-											pos: position{line: 2867, col: 10, offset: 90753},
+											pos: position{line: 2873, col: 10, offset: 90915},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 10, offset: 90753},
+												pos:        position{line: 2873, col: 10, offset: 90915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13078,35 +13078,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 637, col: 5, offset: 20139},
+													pos: position{line: 643, col: 5, offset: 20301},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 637, col: 5, offset: 20139},
+														pos: position{line: 643, col: 5, offset: 20301},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 637, col: 5, offset: 20139},
+																pos: position{line: 643, col: 5, offset: 20301},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 640, col: 5, offset: 20211},
+																pos:   position{line: 646, col: 5, offset: 20373},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 640, col: 14, offset: 20220},
+																	pos: position{line: 646, col: 14, offset: 20382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20349},
+																			pos: position{line: 652, col: 5, offset: 20511},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20349},
+																				pos: position{line: 652, col: 5, offset: 20511},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 646, col: 5, offset: 20349},
+																						pos:        position{line: 652, col: 5, offset: 20511},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 13, offset: 20357},
+																						pos:   position{line: 652, col: 13, offset: 20519},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13138,7 +13138,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 646, col: 32, offset: 20376},
+																						pos:        position{line: 652, col: 32, offset: 20538},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13147,19 +13147,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 653, col: 5, offset: 20617},
+																			pos: position{line: 659, col: 5, offset: 20779},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 653, col: 5, offset: 20617},
+																				pos: position{line: 659, col: 5, offset: 20779},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 653, col: 5, offset: 20617},
+																						pos:        position{line: 659, col: 5, offset: 20779},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 653, col: 9, offset: 20621},
+																						pos:   position{line: 659, col: 9, offset: 20783},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13191,7 +13191,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 653, col: 28, offset: 20640},
+																						pos:        position{line: 659, col: 28, offset: 20802},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13200,19 +13200,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 659, col: 25, offset: 20821},
+																			pos: position{line: 665, col: 25, offset: 20983},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 659, col: 25, offset: 20821},
+																				pos: position{line: 665, col: 25, offset: 20983},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 659, col: 25, offset: 20821},
+																						pos:        position{line: 665, col: 25, offset: 20983},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 37, offset: 20833},
+																						pos:   position{line: 665, col: 37, offset: 20995},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13244,33 +13244,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 56, offset: 20852},
+																						pos:   position{line: 665, col: 56, offset: 21014},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 659, col: 62, offset: 20858},
+																							pos: position{line: 665, col: 62, offset: 21020},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21153},
+																								pos: position{line: 673, col: 17, offset: 21315},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21153},
+																									pos: position{line: 673, col: 17, offset: 21315},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21153},
+																											pos:        position{line: 673, col: 17, offset: 21315},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21157},
+																											pos:   position{line: 673, col: 21, offset: 21319},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21164},
+																															pos:        position{line: 673, col: 28, offset: 21326},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13278,12 +13278,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21218},
+																														pos: position{line: 675, col: 9, offset: 21380},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21218},
+																															pos: position{line: 675, col: 9, offset: 21380},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21218},
+																																pos:        position{line: 675, col: 9, offset: 21380},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13300,7 +13300,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 659, col: 78, offset: 20874},
+																						pos:        position{line: 665, col: 78, offset: 21036},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13309,19 +13309,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 663, col: 25, offset: 20992},
+																			pos: position{line: 669, col: 25, offset: 21154},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 663, col: 25, offset: 20992},
+																				pos: position{line: 669, col: 25, offset: 21154},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 663, col: 25, offset: 20992},
+																						pos:        position{line: 669, col: 25, offset: 21154},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 38, offset: 21005},
+																						pos:   position{line: 669, col: 38, offset: 21167},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13353,33 +13353,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 663, col: 57, offset: 21024},
+																						pos:   position{line: 669, col: 57, offset: 21186},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 663, col: 63, offset: 21030},
+																							pos: position{line: 669, col: 63, offset: 21192},
 																							expr: &actionExpr{
-																								pos: position{line: 667, col: 17, offset: 21153},
+																								pos: position{line: 673, col: 17, offset: 21315},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 667, col: 17, offset: 21153},
+																									pos: position{line: 673, col: 17, offset: 21315},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 667, col: 17, offset: 21153},
+																											pos:        position{line: 673, col: 17, offset: 21315},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 667, col: 21, offset: 21157},
+																											pos:   position{line: 673, col: 21, offset: 21319},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 667, col: 28, offset: 21164},
+																															pos:        position{line: 673, col: 28, offset: 21326},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13387,12 +13387,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 669, col: 9, offset: 21218},
+																														pos: position{line: 675, col: 9, offset: 21380},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 669, col: 9, offset: 21218},
+																															pos: position{line: 675, col: 9, offset: 21380},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 669, col: 9, offset: 21218},
+																																pos:        position{line: 675, col: 9, offset: 21380},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13409,7 +13409,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 663, col: 79, offset: 21046},
+																						pos:        position{line: 669, col: 79, offset: 21208},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16143},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16286},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16450},
 												expr: &actionExpr{
-													pos: position{line: 2867, col: 10, offset: 90753},
+													pos: position{line: 2873, col: 10, offset: 90915},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 10, offset: 90753},
+														pos:        position{line: 2873, col: 10, offset: 90915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16463},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17110},
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 10, offset: 90753},
+												pos: position{line: 2873, col: 10, offset: 90915},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2867, col: 10, offset: 90753},
+													pos:        position{line: 2873, col: 10, offset: 90915},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16855},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13705,10 +13705,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 33, offset: 16895},
 										expr: &actionExpr{
-											pos: position{line: 2867, col: 10, offset: 90753},
+											pos: position{line: 2873, col: 10, offset: 90915},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 10, offset: 90753},
+												pos:        position{line: 2873, col: 10, offset: 90915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13763,10 +13763,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17327},
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 10, offset: 90753},
+												pos: position{line: 2873, col: 10, offset: 90915},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2867, col: 10, offset: 90753},
+													pos:        position{line: 2873, col: 10, offset: 90915},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13815,13 +13815,16 @@ var g = &grammar{
 						&labeledExpr{
 							pos:   position{line: 566, col: 5, offset: 17494},
 							label: "content",
-							expr: &ruleRefExpr{
-								pos:  position{line: 566, col: 14, offset: 17503},
-								name: "SingleQuotedAttributeValueContent",
+							expr: &zeroOrOneExpr{
+								pos: position{line: 566, col: 13, offset: 17502},
+								expr: &ruleRefExpr{
+									pos:  position{line: 566, col: 14, offset: 17503},
+									name: "SingleQuotedAttributeValueContent",
+								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17542},
+							pos:        position{line: 567, col: 5, offset: 17543},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13832,25 +13835,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 571, col: 1, offset: 17583},
+			pos:  position{line: 574, col: 1, offset: 17664},
 			expr: &actionExpr{
-				pos: position{line: 572, col: 5, offset: 17625},
+				pos: position{line: 575, col: 5, offset: 17706},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 572, col: 5, offset: 17625},
+					pos:   position{line: 575, col: 5, offset: 17706},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 572, col: 14, offset: 17634},
+						pos: position{line: 575, col: 14, offset: 17715},
 						expr: &choiceExpr{
-							pos: position{line: 573, col: 9, offset: 17644},
+							pos: position{line: 576, col: 9, offset: 17725},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2761, col: 14, offset: 87922},
+									pos: position{line: 2767, col: 14, offset: 88084},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2761, col: 14, offset: 87922},
+										pos: position{line: 2767, col: 14, offset: 88084},
 										expr: &charClassMatcher{
-											pos:        position{line: 2761, col: 14, offset: 87922},
+											pos:        position{line: 2767, col: 14, offset: 88084},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13859,10 +13862,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2867, col: 10, offset: 90753},
+									pos: position{line: 2873, col: 10, offset: 90915},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2867, col: 10, offset: 90753},
+										pos:        position{line: 2873, col: 10, offset: 90915},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13870,39 +13873,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 575, col: 11, offset: 17680},
+									pos:  position{line: 578, col: 11, offset: 17761},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20139},
+									pos: position{line: 643, col: 5, offset: 20301},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20139},
+										pos: position{line: 643, col: 5, offset: 20301},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20139},
+												pos: position{line: 643, col: 5, offset: 20301},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20211},
+												pos:   position{line: 646, col: 5, offset: 20373},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20220},
+													pos: position{line: 646, col: 14, offset: 20382},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20349},
+															pos: position{line: 652, col: 5, offset: 20511},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20349},
+																pos: position{line: 652, col: 5, offset: 20511},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20349},
+																		pos:        position{line: 652, col: 5, offset: 20511},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20357},
+																		pos:   position{line: 652, col: 13, offset: 20519},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -13934,7 +13937,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20376},
+																		pos:        position{line: 652, col: 32, offset: 20538},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13943,19 +13946,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20617},
+															pos: position{line: 659, col: 5, offset: 20779},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20617},
+																pos: position{line: 659, col: 5, offset: 20779},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20617},
+																		pos:        position{line: 659, col: 5, offset: 20779},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20621},
+																		pos:   position{line: 659, col: 9, offset: 20783},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -13987,7 +13990,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20640},
+																		pos:        position{line: 659, col: 28, offset: 20802},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13996,19 +13999,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20821},
+															pos: position{line: 665, col: 25, offset: 20983},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20821},
+																pos: position{line: 665, col: 25, offset: 20983},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20821},
+																		pos:        position{line: 665, col: 25, offset: 20983},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20833},
+																		pos:   position{line: 665, col: 37, offset: 20995},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14040,33 +14043,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20852},
+																		pos:   position{line: 665, col: 56, offset: 21014},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20858},
+																			pos: position{line: 665, col: 62, offset: 21020},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21153},
+																				pos: position{line: 673, col: 17, offset: 21315},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21153},
+																							pos:        position{line: 673, col: 17, offset: 21315},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21157},
+																							pos:   position{line: 673, col: 21, offset: 21319},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21164},
+																											pos:        position{line: 673, col: 28, offset: 21326},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14074,12 +14077,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21218},
+																										pos: position{line: 675, col: 9, offset: 21380},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21218},
+																												pos:        position{line: 675, col: 9, offset: 21380},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14096,7 +14099,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20874},
+																		pos:        position{line: 665, col: 78, offset: 21036},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14105,19 +14108,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 20992},
+															pos: position{line: 669, col: 25, offset: 21154},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 20992},
+																pos: position{line: 669, col: 25, offset: 21154},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 20992},
+																		pos:        position{line: 669, col: 25, offset: 21154},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21005},
+																		pos:   position{line: 669, col: 38, offset: 21167},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14149,33 +14152,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21024},
+																		pos:   position{line: 669, col: 57, offset: 21186},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21030},
+																			pos: position{line: 669, col: 63, offset: 21192},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21153},
+																				pos: position{line: 673, col: 17, offset: 21315},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21153},
+																							pos:        position{line: 673, col: 17, offset: 21315},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21157},
+																							pos:   position{line: 673, col: 21, offset: 21319},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21164},
+																											pos:        position{line: 673, col: 28, offset: 21326},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14183,12 +14186,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21218},
+																										pos: position{line: 675, col: 9, offset: 21380},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21218},
+																												pos:        position{line: 675, col: 9, offset: 21380},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14205,7 +14208,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21046},
+																		pos:        position{line: 669, col: 79, offset: 21208},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14220,44 +14223,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 577, col: 12, offset: 17734},
+									pos: position{line: 580, col: 12, offset: 17815},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 577, col: 12, offset: 17734},
+										pos:        position{line: 580, col: 12, offset: 17815},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 13, offset: 17836},
+									pos:        position{line: 583, col: 13, offset: 17917},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 580, col: 20, offset: 17843},
+									pos:        position{line: 583, col: 20, offset: 17924},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 580, col: 27, offset: 17850},
+									pos: position{line: 583, col: 27, offset: 17931},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 580, col: 27, offset: 17850},
+										pos:        position{line: 583, col: 27, offset: 17931},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 18010},
+									pos: position{line: 586, col: 12, offset: 18091},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 583, col: 12, offset: 18010},
+										pos: position{line: 586, col: 12, offset: 18091},
 										expr: &charClassMatcher{
-											pos:        position{line: 583, col: 12, offset: 18010},
+											pos:        position{line: 586, col: 12, offset: 18091},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14273,56 +14276,59 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 590, col: 1, offset: 18207},
+			pos:  position{line: 593, col: 1, offset: 18288},
 			expr: &actionExpr{
-				pos: position{line: 591, col: 5, offset: 18242},
+				pos: position{line: 594, col: 5, offset: 18323},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 591, col: 5, offset: 18242},
+					pos: position{line: 594, col: 5, offset: 18323},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 591, col: 5, offset: 18242},
+							pos:        position{line: 594, col: 5, offset: 18323},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 591, col: 10, offset: 18247},
+							pos: position{line: 594, col: 10, offset: 18328},
 							expr: &litMatcher{
-								pos:        position{line: 591, col: 11, offset: 18248},
+								pos:        position{line: 594, col: 11, offset: 18329},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 592, col: 5, offset: 18327},
+							pos:   position{line: 595, col: 5, offset: 18408},
 							label: "content",
-							expr: &ruleRefExpr{
-								pos:  position{line: 592, col: 14, offset: 18336},
-								name: "DoubleQuotedAttributeValueContent",
+							expr: &zeroOrOneExpr{
+								pos: position{line: 595, col: 13, offset: 18416},
+								expr: &ruleRefExpr{
+									pos:  position{line: 595, col: 14, offset: 18417},
+									name: "DoubleQuotedAttributeValueContent",
+								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 593, col: 5, offset: 18375},
+							pos:        position{line: 596, col: 5, offset: 18457},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 593, col: 10, offset: 18380},
+							pos: position{line: 596, col: 10, offset: 18462},
 							expr: &notExpr{
-								pos: position{line: 593, col: 12, offset: 18382},
+								pos: position{line: 596, col: 12, offset: 18464},
 								expr: &seqExpr{
-									pos: position{line: 593, col: 14, offset: 18384},
+									pos: position{line: 596, col: 14, offset: 18466},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 593, col: 14, offset: 18384},
+											pos: position{line: 596, col: 14, offset: 18466},
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 10, offset: 90753},
-												run: (*parser).callonDoubleQuotedAttributeValue13,
+												pos: position{line: 2873, col: 10, offset: 90915},
+												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2867, col: 10, offset: 90753},
+													pos:        position{line: 2873, col: 10, offset: 90915},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14331,7 +14337,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 593, col: 21, offset: 18391},
+											pos:        position{line: 596, col: 21, offset: 18473},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14346,25 +14352,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 597, col: 1, offset: 18434},
+			pos:  position{line: 603, col: 1, offset: 18596},
 			expr: &actionExpr{
-				pos: position{line: 598, col: 5, offset: 18476},
+				pos: position{line: 604, col: 5, offset: 18638},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 598, col: 5, offset: 18476},
+					pos:   position{line: 604, col: 5, offset: 18638},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 598, col: 14, offset: 18485},
+						pos: position{line: 604, col: 14, offset: 18647},
 						expr: &choiceExpr{
-							pos: position{line: 599, col: 9, offset: 18495},
+							pos: position{line: 605, col: 9, offset: 18657},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2761, col: 14, offset: 87922},
+									pos: position{line: 2767, col: 14, offset: 88084},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2761, col: 14, offset: 87922},
+										pos: position{line: 2767, col: 14, offset: 88084},
 										expr: &charClassMatcher{
-											pos:        position{line: 2761, col: 14, offset: 87922},
+											pos:        position{line: 2767, col: 14, offset: 88084},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14373,10 +14379,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2867, col: 10, offset: 90753},
+									pos: position{line: 2873, col: 10, offset: 90915},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2867, col: 10, offset: 90753},
+										pos:        position{line: 2873, col: 10, offset: 90915},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14384,39 +14390,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 601, col: 11, offset: 18531},
+									pos:  position{line: 607, col: 11, offset: 18693},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 637, col: 5, offset: 20139},
+									pos: position{line: 643, col: 5, offset: 20301},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 637, col: 5, offset: 20139},
+										pos: position{line: 643, col: 5, offset: 20301},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 637, col: 5, offset: 20139},
+												pos: position{line: 643, col: 5, offset: 20301},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 640, col: 5, offset: 20211},
+												pos:   position{line: 646, col: 5, offset: 20373},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 640, col: 14, offset: 20220},
+													pos: position{line: 646, col: 14, offset: 20382},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20349},
+															pos: position{line: 652, col: 5, offset: 20511},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20349},
+																pos: position{line: 652, col: 5, offset: 20511},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 646, col: 5, offset: 20349},
+																		pos:        position{line: 652, col: 5, offset: 20511},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 13, offset: 20357},
+																		pos:   position{line: 652, col: 13, offset: 20519},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14448,7 +14454,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 646, col: 32, offset: 20376},
+																		pos:        position{line: 652, col: 32, offset: 20538},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14457,19 +14463,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 653, col: 5, offset: 20617},
+															pos: position{line: 659, col: 5, offset: 20779},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 653, col: 5, offset: 20617},
+																pos: position{line: 659, col: 5, offset: 20779},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 653, col: 5, offset: 20617},
+																		pos:        position{line: 659, col: 5, offset: 20779},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 653, col: 9, offset: 20621},
+																		pos:   position{line: 659, col: 9, offset: 20783},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14501,7 +14507,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 653, col: 28, offset: 20640},
+																		pos:        position{line: 659, col: 28, offset: 20802},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14510,19 +14516,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 25, offset: 20821},
+															pos: position{line: 665, col: 25, offset: 20983},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 25, offset: 20821},
+																pos: position{line: 665, col: 25, offset: 20983},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 25, offset: 20821},
+																		pos:        position{line: 665, col: 25, offset: 20983},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 37, offset: 20833},
+																		pos:   position{line: 665, col: 37, offset: 20995},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14554,33 +14560,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 56, offset: 20852},
+																		pos:   position{line: 665, col: 56, offset: 21014},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 659, col: 62, offset: 20858},
+																			pos: position{line: 665, col: 62, offset: 21020},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21153},
+																				pos: position{line: 673, col: 17, offset: 21315},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21153},
+																							pos:        position{line: 673, col: 17, offset: 21315},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21157},
+																							pos:   position{line: 673, col: 21, offset: 21319},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21164},
+																											pos:        position{line: 673, col: 28, offset: 21326},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14588,12 +14594,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21218},
+																										pos: position{line: 675, col: 9, offset: 21380},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21218},
+																												pos:        position{line: 675, col: 9, offset: 21380},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14610,7 +14616,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 78, offset: 20874},
+																		pos:        position{line: 665, col: 78, offset: 21036},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14619,19 +14625,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 663, col: 25, offset: 20992},
+															pos: position{line: 669, col: 25, offset: 21154},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 663, col: 25, offset: 20992},
+																pos: position{line: 669, col: 25, offset: 21154},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 663, col: 25, offset: 20992},
+																		pos:        position{line: 669, col: 25, offset: 21154},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 38, offset: 21005},
+																		pos:   position{line: 669, col: 38, offset: 21167},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14663,33 +14669,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 663, col: 57, offset: 21024},
+																		pos:   position{line: 669, col: 57, offset: 21186},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 663, col: 63, offset: 21030},
+																			pos: position{line: 669, col: 63, offset: 21192},
 																			expr: &actionExpr{
-																				pos: position{line: 667, col: 17, offset: 21153},
+																				pos: position{line: 673, col: 17, offset: 21315},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 667, col: 17, offset: 21153},
+																							pos:        position{line: 673, col: 17, offset: 21315},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 667, col: 21, offset: 21157},
+																							pos:   position{line: 673, col: 21, offset: 21319},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 667, col: 28, offset: 21164},
+																											pos:        position{line: 673, col: 28, offset: 21326},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14697,12 +14703,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 669, col: 9, offset: 21218},
+																										pos: position{line: 675, col: 9, offset: 21380},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 9, offset: 21218},
+																												pos:        position{line: 675, col: 9, offset: 21380},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14719,7 +14725,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 663, col: 79, offset: 21046},
+																		pos:        position{line: 669, col: 79, offset: 21208},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14734,50 +14740,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 603, col: 12, offset: 18586},
+									pos: position{line: 609, col: 12, offset: 18748},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 603, col: 12, offset: 18586},
+										pos:        position{line: 609, col: 12, offset: 18748},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 13, offset: 18688},
+									pos:        position{line: 612, col: 13, offset: 18850},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 21, offset: 18696},
+									pos:        position{line: 612, col: 21, offset: 18858},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 606, col: 29, offset: 18704},
+									pos:        position{line: 612, col: 29, offset: 18866},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 606, col: 35, offset: 18710},
+									pos: position{line: 612, col: 35, offset: 18872},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 606, col: 35, offset: 18710},
+										pos:        position{line: 612, col: 35, offset: 18872},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18893},
+									pos: position{line: 615, col: 12, offset: 19055},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 609, col: 12, offset: 18893},
+										pos: position{line: 615, col: 12, offset: 19055},
 										expr: &charClassMatcher{
-											pos:        position{line: 609, col: 12, offset: 18893},
+											pos:        position{line: 615, col: 12, offset: 19055},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14793,20 +14799,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 617, col: 1, offset: 19167},
+			pos:  position{line: 623, col: 1, offset: 19329},
 			expr: &actionExpr{
-				pos: position{line: 620, col: 5, offset: 19351},
+				pos: position{line: 626, col: 5, offset: 19513},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 620, col: 5, offset: 19351},
+					pos: position{line: 626, col: 5, offset: 19513},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 620, col: 5, offset: 19351},
+							pos: position{line: 626, col: 5, offset: 19513},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14815,28 +14821,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 621, col: 5, offset: 19420},
+							pos:   position{line: 627, col: 5, offset: 19582},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 621, col: 14, offset: 19429},
+								pos: position{line: 627, col: 14, offset: 19591},
 								expr: &choiceExpr{
-									pos: position{line: 622, col: 9, offset: 19439},
+									pos: position{line: 628, col: 9, offset: 19601},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 622, col: 10, offset: 19440},
+											pos: position{line: 628, col: 10, offset: 19602},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 622, col: 10, offset: 19440},
+													pos:        position{line: 628, col: 10, offset: 19602},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 622, col: 14, offset: 19444},
+													pos:  position{line: 628, col: 14, offset: 19606},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 622, col: 37, offset: 19467},
+													pos:        position{line: 628, col: 37, offset: 19629},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14844,35 +14850,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20139},
+											pos: position{line: 643, col: 5, offset: 20301},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20139},
+												pos: position{line: 643, col: 5, offset: 20301},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20139},
+														pos: position{line: 643, col: 5, offset: 20301},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20211},
+														pos:   position{line: 646, col: 5, offset: 20373},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20220},
+															pos: position{line: 646, col: 14, offset: 20382},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20349},
+																	pos: position{line: 652, col: 5, offset: 20511},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20349},
+																		pos: position{line: 652, col: 5, offset: 20511},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20349},
+																				pos:        position{line: 652, col: 5, offset: 20511},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20357},
+																				pos:   position{line: 652, col: 13, offset: 20519},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -14904,7 +14910,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20376},
+																				pos:        position{line: 652, col: 32, offset: 20538},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14913,19 +14919,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20617},
+																	pos: position{line: 659, col: 5, offset: 20779},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20617},
+																		pos: position{line: 659, col: 5, offset: 20779},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20617},
+																				pos:        position{line: 659, col: 5, offset: 20779},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20621},
+																				pos:   position{line: 659, col: 9, offset: 20783},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -14957,7 +14963,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20640},
+																				pos:        position{line: 659, col: 28, offset: 20802},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14966,19 +14972,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20821},
+																	pos: position{line: 665, col: 25, offset: 20983},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20821},
+																		pos: position{line: 665, col: 25, offset: 20983},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20821},
+																				pos:        position{line: 665, col: 25, offset: 20983},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20833},
+																				pos:   position{line: 665, col: 37, offset: 20995},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15010,33 +15016,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20852},
+																				pos:   position{line: 665, col: 56, offset: 21014},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20858},
+																					pos: position{line: 665, col: 62, offset: 21020},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21153},
+																							pos: position{line: 673, col: 17, offset: 21315},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21153},
+																									pos:        position{line: 673, col: 17, offset: 21315},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21157},
+																									pos:   position{line: 673, col: 21, offset: 21319},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21164},
+																													pos:        position{line: 673, col: 28, offset: 21326},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15044,12 +15050,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21218},
+																													pos: position{line: 675, col: 9, offset: 21380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21218},
+																														pos:        position{line: 675, col: 9, offset: 21380},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15066,7 +15072,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20874},
+																				pos:        position{line: 665, col: 78, offset: 21036},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15075,19 +15081,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 20992},
+																	pos: position{line: 669, col: 25, offset: 21154},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 20992},
+																		pos: position{line: 669, col: 25, offset: 21154},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 20992},
+																				pos:        position{line: 669, col: 25, offset: 21154},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21005},
+																				pos:   position{line: 669, col: 38, offset: 21167},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15119,33 +15125,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21024},
+																				pos:   position{line: 669, col: 57, offset: 21186},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21030},
+																					pos: position{line: 669, col: 63, offset: 21192},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21153},
+																							pos: position{line: 673, col: 17, offset: 21315},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21153},
+																									pos:        position{line: 673, col: 17, offset: 21315},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21157},
+																									pos:   position{line: 673, col: 21, offset: 21319},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21164},
+																													pos:        position{line: 673, col: 28, offset: 21326},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15153,12 +15159,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21218},
+																													pos: position{line: 675, col: 9, offset: 21380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21218},
+																														pos:        position{line: 675, col: 9, offset: 21380},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15175,7 +15181,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21046},
+																				pos:        position{line: 669, col: 79, offset: 21208},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15190,16 +15196,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 623, col: 32, offset: 19554},
+											pos:        position{line: 629, col: 32, offset: 19716},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2867, col: 10, offset: 90753},
+											pos: position{line: 2873, col: 10, offset: 90915},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 10, offset: 90753},
+												pos:        position{line: 2873, col: 10, offset: 90915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15207,12 +15213,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 625, col: 12, offset: 19639},
+											pos: position{line: 631, col: 12, offset: 19801},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 625, col: 12, offset: 19639},
+												pos: position{line: 631, col: 12, offset: 19801},
 												expr: &charClassMatcher{
-													pos:        position{line: 625, col: 12, offset: 19639},
+													pos:        position{line: 631, col: 12, offset: 19801},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15230,32 +15236,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 685, col: 1, offset: 21780},
+			pos:  position{line: 691, col: 1, offset: 21942},
 			expr: &choiceExpr{
-				pos: position{line: 685, col: 19, offset: 21798},
+				pos: position{line: 691, col: 19, offset: 21960},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 687, col: 27, offset: 21874},
+						pos: position{line: 693, col: 27, offset: 22036},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 687, col: 27, offset: 21874},
+							pos: position{line: 693, col: 27, offset: 22036},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 687, col: 27, offset: 21874},
+									pos:        position{line: 693, col: 27, offset: 22036},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 32, offset: 21879},
+									pos:   position{line: 693, col: 32, offset: 22041},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 7, offset: 90405},
+										pos: position{line: 2858, col: 7, offset: 90567},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2852, col: 7, offset: 90405},
+											pos: position{line: 2858, col: 7, offset: 90567},
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 7, offset: 90405},
+												pos:        position{line: 2858, col: 7, offset: 90567},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15265,12 +15271,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 687, col: 40, offset: 21887},
+									pos: position{line: 693, col: 40, offset: 22049},
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 10, offset: 90753},
+										pos: position{line: 2873, col: 10, offset: 90915},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 10, offset: 90753},
+											pos:        position{line: 2873, col: 10, offset: 90915},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15279,26 +15285,26 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 47, offset: 21894},
+									pos:        position{line: 693, col: 47, offset: 22056},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 51, offset: 21898},
+									pos:   position{line: 693, col: 51, offset: 22060},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 697, col: 24, offset: 22299},
+										pos: position{line: 703, col: 24, offset: 22461},
 										expr: &choiceExpr{
-											pos: position{line: 698, col: 5, offset: 22305},
+											pos: position{line: 704, col: 5, offset: 22467},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 698, col: 6, offset: 22306},
+													pos: position{line: 704, col: 6, offset: 22468},
 													run: (*parser).callonCrossReference16,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 698, col: 6, offset: 22306},
+														pos: position{line: 704, col: 6, offset: 22468},
 														expr: &charClassMatcher{
-															pos:        position{line: 698, col: 6, offset: 22306},
+															pos:        position{line: 704, col: 6, offset: 22468},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15307,19 +15313,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 646, col: 5, offset: 20349},
+													pos: position{line: 652, col: 5, offset: 20511},
 													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
-														pos: position{line: 646, col: 5, offset: 20349},
+														pos: position{line: 652, col: 5, offset: 20511},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 646, col: 5, offset: 20349},
+																pos:        position{line: 652, col: 5, offset: 20511},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 646, col: 13, offset: 20357},
+																pos:   position{line: 652, col: 13, offset: 20519},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15351,7 +15357,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 646, col: 32, offset: 20376},
+																pos:        position{line: 652, col: 32, offset: 20538},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15360,19 +15366,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 653, col: 5, offset: 20617},
+													pos: position{line: 659, col: 5, offset: 20779},
 													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
-														pos: position{line: 653, col: 5, offset: 20617},
+														pos: position{line: 659, col: 5, offset: 20779},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 653, col: 5, offset: 20617},
+																pos:        position{line: 659, col: 5, offset: 20779},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 653, col: 9, offset: 20621},
+																pos:   position{line: 659, col: 9, offset: 20783},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15404,7 +15410,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 653, col: 28, offset: 20640},
+																pos:        position{line: 659, col: 28, offset: 20802},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15413,19 +15419,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 659, col: 25, offset: 20821},
+													pos: position{line: 665, col: 25, offset: 20983},
 													run: (*parser).callonCrossReference39,
 													expr: &seqExpr{
-														pos: position{line: 659, col: 25, offset: 20821},
+														pos: position{line: 665, col: 25, offset: 20983},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 659, col: 25, offset: 20821},
+																pos:        position{line: 665, col: 25, offset: 20983},
 																val:        "{counter:",
 																ignoreCase: false,
 																want:       "\"{counter:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 659, col: 37, offset: 20833},
+																pos:   position{line: 665, col: 37, offset: 20995},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15457,33 +15463,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 659, col: 56, offset: 20852},
+																pos:   position{line: 665, col: 56, offset: 21014},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 659, col: 62, offset: 20858},
+																	pos: position{line: 665, col: 62, offset: 21020},
 																	expr: &actionExpr{
-																		pos: position{line: 667, col: 17, offset: 21153},
+																		pos: position{line: 673, col: 17, offset: 21315},
 																		run: (*parser).callonCrossReference50,
 																		expr: &seqExpr{
-																			pos: position{line: 667, col: 17, offset: 21153},
+																			pos: position{line: 673, col: 17, offset: 21315},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 667, col: 17, offset: 21153},
+																					pos:        position{line: 673, col: 17, offset: 21315},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 667, col: 21, offset: 21157},
+																					pos:   position{line: 673, col: 21, offset: 21319},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 667, col: 28, offset: 21164},
+																						pos: position{line: 673, col: 28, offset: 21326},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								run: (*parser).callonCrossReference55,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 28, offset: 21164},
+																									pos:        position{line: 673, col: 28, offset: 21326},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15491,12 +15497,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 669, col: 9, offset: 21218},
+																								pos: position{line: 675, col: 9, offset: 21380},
 																								run: (*parser).callonCrossReference57,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 669, col: 9, offset: 21218},
+																									pos: position{line: 675, col: 9, offset: 21380},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 669, col: 9, offset: 21218},
+																										pos:        position{line: 675, col: 9, offset: 21380},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15513,7 +15519,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 659, col: 78, offset: 20874},
+																pos:        position{line: 665, col: 78, offset: 21036},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15522,19 +15528,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 663, col: 25, offset: 20992},
+													pos: position{line: 669, col: 25, offset: 21154},
 													run: (*parser).callonCrossReference61,
 													expr: &seqExpr{
-														pos: position{line: 663, col: 25, offset: 20992},
+														pos: position{line: 669, col: 25, offset: 21154},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 663, col: 25, offset: 20992},
+																pos:        position{line: 669, col: 25, offset: 21154},
 																val:        "{counter2:",
 																ignoreCase: false,
 																want:       "\"{counter2:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 663, col: 38, offset: 21005},
+																pos:   position{line: 669, col: 38, offset: 21167},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15566,33 +15572,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 663, col: 57, offset: 21024},
+																pos:   position{line: 669, col: 57, offset: 21186},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 663, col: 63, offset: 21030},
+																	pos: position{line: 669, col: 63, offset: 21192},
 																	expr: &actionExpr{
-																		pos: position{line: 667, col: 17, offset: 21153},
+																		pos: position{line: 673, col: 17, offset: 21315},
 																		run: (*parser).callonCrossReference72,
 																		expr: &seqExpr{
-																			pos: position{line: 667, col: 17, offset: 21153},
+																			pos: position{line: 673, col: 17, offset: 21315},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 667, col: 17, offset: 21153},
+																					pos:        position{line: 673, col: 17, offset: 21315},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 667, col: 21, offset: 21157},
+																					pos:   position{line: 673, col: 21, offset: 21319},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 667, col: 28, offset: 21164},
+																						pos: position{line: 673, col: 28, offset: 21326},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 667, col: 28, offset: 21164},
+																								pos: position{line: 673, col: 28, offset: 21326},
 																								run: (*parser).callonCrossReference77,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 28, offset: 21164},
+																									pos:        position{line: 673, col: 28, offset: 21326},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15600,12 +15606,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 669, col: 9, offset: 21218},
+																								pos: position{line: 675, col: 9, offset: 21380},
 																								run: (*parser).callonCrossReference79,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 669, col: 9, offset: 21218},
+																									pos: position{line: 675, col: 9, offset: 21380},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 669, col: 9, offset: 21218},
+																										pos:        position{line: 675, col: 9, offset: 21380},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15622,7 +15628,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 663, col: 79, offset: 21046},
+																pos:        position{line: 669, col: 79, offset: 21208},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15631,10 +15637,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 702, col: 8, offset: 22559},
+													pos: position{line: 708, col: 8, offset: 22721},
 													run: (*parser).callonCrossReference83,
 													expr: &litMatcher{
-														pos:        position{line: 702, col: 8, offset: 22559},
+														pos:        position{line: 708, col: 8, offset: 22721},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15645,7 +15651,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 79, offset: 21926},
+									pos:        position{line: 693, col: 79, offset: 22088},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15654,27 +15660,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 689, col: 9, offset: 21999},
+						pos: position{line: 695, col: 9, offset: 22161},
 						run: (*parser).callonCrossReference86,
 						expr: &seqExpr{
-							pos: position{line: 689, col: 9, offset: 21999},
+							pos: position{line: 695, col: 9, offset: 22161},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 689, col: 9, offset: 21999},
+									pos:        position{line: 695, col: 9, offset: 22161},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 14, offset: 22004},
+									pos:   position{line: 695, col: 14, offset: 22166},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 7, offset: 90405},
+										pos: position{line: 2858, col: 7, offset: 90567},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2852, col: 7, offset: 90405},
+											pos: position{line: 2858, col: 7, offset: 90567},
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 7, offset: 90405},
+												pos:        position{line: 2858, col: 7, offset: 90567},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15684,7 +15690,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 22, offset: 22012},
+									pos:        position{line: 695, col: 22, offset: 22174},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15693,7 +15699,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 685, col: 44, offset: 21823},
+						pos:  position{line: 691, col: 44, offset: 21985},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15701,58 +15707,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 693, col: 1, offset: 22083},
+			pos:  position{line: 699, col: 1, offset: 22245},
 			expr: &actionExpr{
-				pos: position{line: 693, col: 27, offset: 22109},
+				pos: position{line: 699, col: 27, offset: 22271},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 693, col: 27, offset: 22109},
+					pos: position{line: 699, col: 27, offset: 22271},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 693, col: 27, offset: 22109},
+							pos:        position{line: 699, col: 27, offset: 22271},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 35, offset: 22117},
+							pos:   position{line: 699, col: 35, offset: 22279},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2821, col: 17, offset: 89416},
+								pos: position{line: 2827, col: 17, offset: 89578},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2821, col: 17, offset: 89416},
+									pos:   position{line: 2827, col: 17, offset: 89578},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 5, offset: 89870},
+										pos: position{line: 2844, col: 5, offset: 90032},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2838, col: 5, offset: 89870},
+											pos:   position{line: 2844, col: 5, offset: 90032},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2838, col: 14, offset: 89879},
+												pos: position{line: 2844, col: 14, offset: 90041},
 												expr: &choiceExpr{
-													pos: position{line: 2839, col: 9, offset: 89889},
+													pos: position{line: 2845, col: 9, offset: 90051},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2839, col: 9, offset: 89889},
+															pos: position{line: 2845, col: 9, offset: 90051},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2839, col: 9, offset: 89889},
+																pos: position{line: 2845, col: 9, offset: 90051},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2839, col: 9, offset: 89889},
+																		pos: position{line: 2845, col: 9, offset: 90051},
 																		expr: &litMatcher{
-																			pos:        position{line: 2839, col: 10, offset: 89890},
+																			pos:        position{line: 2845, col: 10, offset: 90052},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2840, col: 9, offset: 89918},
+																		pos: position{line: 2846, col: 9, offset: 90080},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2840, col: 10, offset: 89919},
+																			pos:        position{line: 2846, col: 10, offset: 90081},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15763,27 +15769,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2843, col: 11, offset: 90131},
+															pos: position{line: 2849, col: 11, offset: 90293},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2843, col: 11, offset: 90131},
+																	pos:        position{line: 2849, col: 11, offset: 90293},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2843, col: 19, offset: 90139},
+																	pos: position{line: 2849, col: 19, offset: 90301},
 																	expr: &seqExpr{
-																		pos: position{line: 2843, col: 21, offset: 90141},
+																		pos: position{line: 2849, col: 21, offset: 90303},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2843, col: 21, offset: 90141},
+																				pos: position{line: 2849, col: 21, offset: 90303},
 																				expr: &actionExpr{
-																					pos: position{line: 2867, col: 10, offset: 90753},
+																					pos: position{line: 2873, col: 10, offset: 90915},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 10, offset: 90753},
+																						pos:        position{line: 2873, col: 10, offset: 90915},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15792,11 +15798,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2843, col: 28, offset: 90148},
+																				pos: position{line: 2849, col: 28, offset: 90310},
 																				expr: &notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -15806,35 +15812,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20139},
+															pos: position{line: 643, col: 5, offset: 20301},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20139},
+																pos: position{line: 643, col: 5, offset: 20301},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20139},
+																		pos: position{line: 643, col: 5, offset: 20301},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20211},
+																		pos:   position{line: 646, col: 5, offset: 20373},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20220},
+																			pos: position{line: 646, col: 14, offset: 20382},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20349},
+																					pos: position{line: 652, col: 5, offset: 20511},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20349},
+																								pos:        position{line: 652, col: 5, offset: 20511},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20357},
+																								pos:   position{line: 652, col: 13, offset: 20519},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15866,7 +15872,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20376},
+																								pos:        position{line: 652, col: 32, offset: 20538},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15875,19 +15881,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20617},
+																					pos: position{line: 659, col: 5, offset: 20779},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20617},
+																								pos:        position{line: 659, col: 5, offset: 20779},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20621},
+																								pos:   position{line: 659, col: 9, offset: 20783},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15919,7 +15925,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20640},
+																								pos:        position{line: 659, col: 28, offset: 20802},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15928,19 +15934,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20821},
+																					pos: position{line: 665, col: 25, offset: 20983},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20821},
+																						pos: position{line: 665, col: 25, offset: 20983},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20821},
+																								pos:        position{line: 665, col: 25, offset: 20983},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20833},
+																								pos:   position{line: 665, col: 37, offset: 20995},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15972,33 +15978,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20852},
+																								pos:   position{line: 665, col: 56, offset: 21014},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20858},
+																									pos: position{line: 665, col: 62, offset: 21020},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21153},
+																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21153},
+																													pos:        position{line: 673, col: 17, offset: 21315},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21157},
+																													pos:   position{line: 673, col: 21, offset: 21319},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21164},
+																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16006,12 +16012,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21218},
+																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21218},
+																																		pos:        position{line: 675, col: 9, offset: 21380},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16028,7 +16034,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20874},
+																								pos:        position{line: 665, col: 78, offset: 21036},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16037,19 +16043,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 20992},
+																					pos: position{line: 669, col: 25, offset: 21154},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 20992},
+																						pos: position{line: 669, col: 25, offset: 21154},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 20992},
+																								pos:        position{line: 669, col: 25, offset: 21154},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21005},
+																								pos:   position{line: 669, col: 38, offset: 21167},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16081,33 +16087,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21024},
+																								pos:   position{line: 669, col: 57, offset: 21186},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21030},
+																									pos: position{line: 669, col: 63, offset: 21192},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21153},
+																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21153},
+																													pos:        position{line: 673, col: 17, offset: 21315},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21157},
+																													pos:   position{line: 673, col: 21, offset: 21319},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21164},
+																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16115,12 +16121,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21218},
+																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21218},
+																																		pos:        position{line: 675, col: 9, offset: 21380},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16137,7 +16143,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21046},
+																								pos:        position{line: 669, col: 79, offset: 21208},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16152,27 +16158,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 23, offset: 37227},
+															pos: position{line: 1213, col: 23, offset: 37389},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 23, offset: 37227},
+																pos: position{line: 1213, col: 23, offset: 37389},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37195},
+																		pos:        position{line: 1211, col: 32, offset: 37357},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1207, col: 51, offset: 37255},
+																		pos:   position{line: 1213, col: 51, offset: 37417},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1207, col: 56, offset: 37260},
+																			pos: position{line: 1213, col: 56, offset: 37422},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1207, col: 56, offset: 37260},
+																				pos: position{line: 1213, col: 56, offset: 37422},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1207, col: 56, offset: 37260},
+																					pos:        position{line: 1213, col: 56, offset: 37422},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16182,7 +16188,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37195},
+																		pos:        position{line: 1211, col: 32, offset: 37357},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16191,10 +16197,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2846, col: 11, offset: 90268},
+															pos: position{line: 2852, col: 11, offset: 90430},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2846, col: 11, offset: 90268},
+																pos:        position{line: 2852, col: 11, offset: 90430},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16209,10 +16215,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 693, col: 54, offset: 22136},
+							pos:   position{line: 699, col: 54, offset: 22298},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 693, col: 66, offset: 22148},
+								pos:  position{line: 699, col: 66, offset: 22310},
 								name: "InlineAttributes",
 							},
 						},
@@ -16222,29 +16228,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 997, col: 1, offset: 31022},
+			pos:  position{line: 1003, col: 1, offset: 31184},
 			expr: &actionExpr{
-				pos: position{line: 998, col: 5, offset: 31055},
+				pos: position{line: 1004, col: 5, offset: 31217},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 998, col: 5, offset: 31055},
+					pos: position{line: 1004, col: 5, offset: 31217},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 998, col: 5, offset: 31055},
+							pos:        position{line: 1004, col: 5, offset: 31217},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 998, col: 11, offset: 31061},
+							pos:   position{line: 1004, col: 11, offset: 31223},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 14, offset: 89346},
+								pos: position{line: 2823, col: 14, offset: 89508},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2817, col: 14, offset: 89346},
+									pos: position{line: 2823, col: 14, offset: 89508},
 									expr: &charClassMatcher{
-										pos:        position{line: 2817, col: 14, offset: 89346},
+										pos:        position{line: 2823, col: 14, offset: 89508},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16254,28 +16260,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16284,9 +16290,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -16297,53 +16303,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1109, col: 1, offset: 33978},
+			pos:  position{line: 1115, col: 1, offset: 34140},
 			expr: &actionExpr{
-				pos: position{line: 1110, col: 5, offset: 34001},
+				pos: position{line: 1116, col: 5, offset: 34163},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1110, col: 5, offset: 34001},
+					pos: position{line: 1116, col: 5, offset: 34163},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1110, col: 5, offset: 34001},
+							pos: position{line: 1116, col: 5, offset: 34163},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1113, col: 5, offset: 34062},
+							pos: position{line: 1119, col: 5, offset: 34224},
 							expr: &choiceExpr{
-								pos: position{line: 1113, col: 6, offset: 34063},
+								pos: position{line: 1119, col: 6, offset: 34225},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2477, col: 22, offset: 79738},
+										pos: position{line: 2483, col: 22, offset: 79900},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2482, col: 31, offset: 79959},
+													pos:        position{line: 2488, col: 31, offset: 80121},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2482, col: 36, offset: 79964},
+													pos: position{line: 2488, col: 36, offset: 80126},
 													expr: &litMatcher{
-														pos:        position{line: 2482, col: 37, offset: 79965},
+														pos:        position{line: 2488, col: 37, offset: 80127},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 49, offset: 79765},
+													pos:   position{line: 2483, col: 49, offset: 79927},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2813, col: 13, offset: 89279},
+														pos: position{line: 2819, col: 13, offset: 89441},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 13, offset: 89279},
+																pos:        position{line: 2819, col: 13, offset: 89441},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16353,28 +16359,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16383,9 +16389,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -16394,39 +16400,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26373},
+										pos: position{line: 827, col: 5, offset: 26535},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26373},
+											pos: position{line: 827, col: 5, offset: 26535},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26373},
+													pos:   position{line: 827, col: 5, offset: 26535},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 741, col: 5, offset: 23633},
+														pos: position{line: 747, col: 5, offset: 23795},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23633},
+															pos: position{line: 747, col: 5, offset: 23795},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23633},
+																	pos:   position{line: 747, col: 5, offset: 23795},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23644},
+																		pos: position{line: 747, col: 16, offset: 23806},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23644},
+																			pos: position{line: 747, col: 16, offset: 23806},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23644},
+																					pos:        position{line: 747, col: 16, offset: 23806},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23651},
+																					pos: position{line: 747, col: 23, offset: 23813},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23651},
+																						pos:        position{line: 747, col: 23, offset: 23813},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16437,12 +16443,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23735},
+																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16451,28 +16457,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16481,9 +16487,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -16493,56 +16499,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 822, col: 5, offset: 26412},
+													pos: position{line: 828, col: 5, offset: 26574},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26504},
+													pos:   position{line: 831, col: 5, offset: 26666},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 26896},
+														pos: position{line: 846, col: 5, offset: 27058},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 26897},
+															pos: position{line: 846, col: 6, offset: 27059},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 26897},
+																pos: position{line: 846, col: 6, offset: 27059},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 26897},
+																		pos: position{line: 846, col: 6, offset: 27059},
 																		expr: &choiceExpr{
-																			pos: position{line: 833, col: 5, offset: 26738},
+																			pos: position{line: 839, col: 5, offset: 26900},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 833, col: 5, offset: 26738},
+																					pos: position{line: 839, col: 5, offset: 26900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26738},
+																							pos:   position{line: 839, col: 5, offset: 26900},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23633},
+																								pos: position{line: 747, col: 5, offset: 23795},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23633},
+																											pos:   position{line: 747, col: 5, offset: 23795},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23644},
+																												pos: position{line: 747, col: 16, offset: 23806},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23644},
+																															pos:        position{line: 747, col: 16, offset: 23806},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23651},
+																															pos: position{line: 747, col: 23, offset: 23813},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23651},
+																																pos:        position{line: 747, col: 23, offset: 23813},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16553,12 +16559,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23735},
+																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16567,28 +16573,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16597,9 +16603,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -16609,45 +16615,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 834, col: 5, offset: 26769},
+																							pos: position{line: 840, col: 5, offset: 26931},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 26927},
+																		pos:   position{line: 847, col: 5, offset: 27089},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16657,28 +16663,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16687,9 +16693,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -16704,41 +16710,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 826, col: 5, offset: 26538},
+													pos: position{line: 832, col: 5, offset: 26700},
 													expr: &choiceExpr{
-														pos: position{line: 833, col: 5, offset: 26738},
+														pos: position{line: 839, col: 5, offset: 26900},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 833, col: 5, offset: 26738},
+																pos: position{line: 839, col: 5, offset: 26900},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26738},
+																		pos:   position{line: 839, col: 5, offset: 26900},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23633},
+																			pos: position{line: 747, col: 5, offset: 23795},
 																			run: (*parser).callonDocumentHeader97,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23633},
+																						pos:   position{line: 747, col: 5, offset: 23795},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23644},
+																							pos: position{line: 747, col: 16, offset: 23806},
 																							run: (*parser).callonDocumentHeader100,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23644},
+																										pos:        position{line: 747, col: 16, offset: 23806},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23651},
+																										pos: position{line: 747, col: 23, offset: 23813},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23651},
+																											pos:        position{line: 747, col: 23, offset: 23813},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -16749,12 +16755,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23735},
+																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16763,28 +16769,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16793,9 +16799,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -16805,15 +16811,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 834, col: 5, offset: 26769},
+																		pos: position{line: 840, col: 5, offset: 26931},
 																		run: (*parser).callonDocumentHeader116,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -16826,49 +16832,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1114, col: 5, offset: 34159},
+							pos:   position{line: 1120, col: 5, offset: 34321},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1114, col: 12, offset: 34166},
+								pos:  position{line: 1120, col: 12, offset: 34328},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1115, col: 5, offset: 34185},
+							pos: position{line: 1121, col: 5, offset: 34347},
 							expr: &choiceExpr{
-								pos: position{line: 1115, col: 6, offset: 34186},
+								pos: position{line: 1121, col: 6, offset: 34348},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2477, col: 22, offset: 79738},
+										pos: position{line: 2483, col: 22, offset: 79900},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2482, col: 31, offset: 79959},
+													pos:        position{line: 2488, col: 31, offset: 80121},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2482, col: 36, offset: 79964},
+													pos: position{line: 2488, col: 36, offset: 80126},
 													expr: &litMatcher{
-														pos:        position{line: 2482, col: 37, offset: 79965},
+														pos:        position{line: 2488, col: 37, offset: 80127},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 49, offset: 79765},
+													pos:   position{line: 2483, col: 49, offset: 79927},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2813, col: 13, offset: 89279},
+														pos: position{line: 2819, col: 13, offset: 89441},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 13, offset: 89279},
+																pos:        position{line: 2819, col: 13, offset: 89441},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16878,28 +16884,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16908,9 +16914,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -16919,39 +16925,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26373},
+										pos: position{line: 827, col: 5, offset: 26535},
 										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26373},
+											pos: position{line: 827, col: 5, offset: 26535},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26373},
+													pos:   position{line: 827, col: 5, offset: 26535},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 741, col: 5, offset: 23633},
+														pos: position{line: 747, col: 5, offset: 23795},
 														run: (*parser).callonDocumentHeader143,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23633},
+															pos: position{line: 747, col: 5, offset: 23795},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23633},
+																	pos:   position{line: 747, col: 5, offset: 23795},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23644},
+																		pos: position{line: 747, col: 16, offset: 23806},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23644},
+																			pos: position{line: 747, col: 16, offset: 23806},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23644},
+																					pos:        position{line: 747, col: 16, offset: 23806},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23651},
+																					pos: position{line: 747, col: 23, offset: 23813},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23651},
+																						pos:        position{line: 747, col: 23, offset: 23813},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16962,12 +16968,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23735},
+																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16976,28 +16982,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17006,9 +17012,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -17018,56 +17024,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 822, col: 5, offset: 26412},
+													pos: position{line: 828, col: 5, offset: 26574},
 													run: (*parser).callonDocumentHeader162,
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26504},
+													pos:   position{line: 831, col: 5, offset: 26666},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 26896},
+														pos: position{line: 846, col: 5, offset: 27058},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 26897},
+															pos: position{line: 846, col: 6, offset: 27059},
 															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 26897},
+																pos: position{line: 846, col: 6, offset: 27059},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 26897},
+																		pos: position{line: 846, col: 6, offset: 27059},
 																		expr: &choiceExpr{
-																			pos: position{line: 833, col: 5, offset: 26738},
+																			pos: position{line: 839, col: 5, offset: 26900},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 833, col: 5, offset: 26738},
+																					pos: position{line: 839, col: 5, offset: 26900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26738},
+																							pos:   position{line: 839, col: 5, offset: 26900},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23633},
+																								pos: position{line: 747, col: 5, offset: 23795},
 																								run: (*parser).callonDocumentHeader171,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23633},
+																											pos:   position{line: 747, col: 5, offset: 23795},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23644},
+																												pos: position{line: 747, col: 16, offset: 23806},
 																												run: (*parser).callonDocumentHeader174,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23644},
+																															pos:        position{line: 747, col: 16, offset: 23806},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23651},
+																															pos: position{line: 747, col: 23, offset: 23813},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23651},
+																																pos:        position{line: 747, col: 23, offset: 23813},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17078,12 +17084,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23735},
+																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17092,28 +17098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17122,9 +17128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -17134,45 +17140,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 834, col: 5, offset: 26769},
+																							pos: position{line: 840, col: 5, offset: 26931},
 																							run: (*parser).callonDocumentHeader190,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 26927},
+																		pos:   position{line: 847, col: 5, offset: 27089},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17182,28 +17188,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17212,9 +17218,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -17229,41 +17235,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 826, col: 5, offset: 26538},
+													pos: position{line: 832, col: 5, offset: 26700},
 													expr: &choiceExpr{
-														pos: position{line: 833, col: 5, offset: 26738},
+														pos: position{line: 839, col: 5, offset: 26900},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 833, col: 5, offset: 26738},
+																pos: position{line: 839, col: 5, offset: 26900},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26738},
+																		pos:   position{line: 839, col: 5, offset: 26900},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23633},
+																			pos: position{line: 747, col: 5, offset: 23795},
 																			run: (*parser).callonDocumentHeader214,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23633},
+																						pos:   position{line: 747, col: 5, offset: 23795},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23644},
+																							pos: position{line: 747, col: 16, offset: 23806},
 																							run: (*parser).callonDocumentHeader217,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23644},
+																										pos:        position{line: 747, col: 16, offset: 23806},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23651},
+																										pos: position{line: 747, col: 23, offset: 23813},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23651},
+																											pos:        position{line: 747, col: 23, offset: 23813},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17274,12 +17280,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23735},
+																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17288,28 +17294,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17318,9 +17324,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -17330,15 +17336,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 834, col: 5, offset: 26769},
+																		pos: position{line: 840, col: 5, offset: 26931},
 																		run: (*parser).callonDocumentHeader233,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -17351,41 +17357,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 5, offset: 34282},
+							pos:   position{line: 1122, col: 5, offset: 34444},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1116, col: 24, offset: 34301},
+								pos: position{line: 1122, col: 24, offset: 34463},
 								expr: &actionExpr{
-									pos: position{line: 1127, col: 5, offset: 34676},
+									pos: position{line: 1133, col: 5, offset: 34838},
 									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1127, col: 5, offset: 34676},
+										pos: position{line: 1133, col: 5, offset: 34838},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1127, col: 5, offset: 34676},
+												pos: position{line: 1133, col: 5, offset: 34838},
 												expr: &litMatcher{
-													pos:        position{line: 1127, col: 6, offset: 34677},
+													pos:        position{line: 1133, col: 6, offset: 34839},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1128, col: 5, offset: 34685},
+												pos:   position{line: 1134, col: 5, offset: 34847},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1134, col: 20, offset: 34941},
+													pos: position{line: 1140, col: 20, offset: 35103},
 													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1134, col: 20, offset: 34941},
+														pos: position{line: 1140, col: 20, offset: 35103},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1134, col: 20, offset: 34941},
+																pos: position{line: 1140, col: 20, offset: 35103},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17394,37 +17400,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1134, col: 27, offset: 34948},
+																pos:   position{line: 1140, col: 27, offset: 35110},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1134, col: 36, offset: 34957},
+																	pos: position{line: 1140, col: 36, offset: 35119},
 																	expr: &actionExpr{
-																		pos: position{line: 1139, col: 5, offset: 35070},
+																		pos: position{line: 1145, col: 5, offset: 35232},
 																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1139, col: 5, offset: 35070},
+																			pos: position{line: 1145, col: 5, offset: 35232},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1139, col: 5, offset: 35070},
+																					pos:   position{line: 1145, col: 5, offset: 35232},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1139, col: 14, offset: 35079},
+																						pos: position{line: 1145, col: 14, offset: 35241},
 																						expr: &actionExpr{
-																							pos: position{line: 1150, col: 5, offset: 35459},
+																							pos: position{line: 1156, col: 5, offset: 35621},
 																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1150, col: 5, offset: 35459},
+																								pos: position{line: 1156, col: 5, offset: 35621},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1150, col: 5, offset: 35459},
+																										pos:   position{line: 1156, col: 5, offset: 35621},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1150, col: 12, offset: 35466},
+																											pos: position{line: 1156, col: 12, offset: 35628},
 																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1150, col: 12, offset: 35466},
+																												pos: position{line: 1156, col: 12, offset: 35628},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1150, col: 12, offset: 35466},
+																													pos:        position{line: 1156, col: 12, offset: 35628},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17434,12 +17440,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1153, col: 5, offset: 35546},
+																										pos: position{line: 1159, col: 5, offset: 35708},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17448,17 +17454,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1154, col: 5, offset: 35557},
+																										pos:   position{line: 1160, col: 5, offset: 35719},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1154, col: 11, offset: 35563},
+																											pos: position{line: 1160, col: 11, offset: 35725},
 																											expr: &actionExpr{
-																												pos: position{line: 1154, col: 12, offset: 35564},
+																												pos: position{line: 1160, col: 12, offset: 35726},
 																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1154, col: 12, offset: 35564},
+																													pos: position{line: 1160, col: 12, offset: 35726},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1154, col: 12, offset: 35564},
+																														pos:        position{line: 1160, col: 12, offset: 35726},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17469,12 +17475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1157, col: 5, offset: 35645},
+																										pos: position{line: 1163, col: 5, offset: 35807},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17483,17 +17489,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1158, col: 5, offset: 35656},
+																										pos:   position{line: 1164, col: 5, offset: 35818},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1158, col: 11, offset: 35662},
+																											pos: position{line: 1164, col: 11, offset: 35824},
 																											expr: &actionExpr{
-																												pos: position{line: 1158, col: 12, offset: 35663},
+																												pos: position{line: 1164, col: 12, offset: 35825},
 																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1158, col: 12, offset: 35663},
+																													pos: position{line: 1164, col: 12, offset: 35825},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1158, col: 12, offset: 35663},
+																														pos:        position{line: 1164, col: 12, offset: 35825},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17504,12 +17510,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1161, col: 5, offset: 35742},
+																										pos: position{line: 1167, col: 5, offset: 35904},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17523,38 +17529,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1139, col: 40, offset: 35105},
+																					pos:   position{line: 1145, col: 40, offset: 35267},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1139, col: 46, offset: 35111},
+																						pos: position{line: 1145, col: 46, offset: 35273},
 																						expr: &actionExpr{
-																							pos: position{line: 1167, col: 5, offset: 35864},
+																							pos: position{line: 1173, col: 5, offset: 36026},
 																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1167, col: 5, offset: 35864},
+																								pos: position{line: 1173, col: 5, offset: 36026},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2884, col: 11, offset: 91087},
+																										pos: position{line: 2890, col: 11, offset: 91249},
 																										expr: &anyMatcher{
-																											line: 2884, col: 13, offset: 91089,
+																											line: 2890, col: 13, offset: 91251,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1168, col: 5, offset: 35876},
+																										pos:        position{line: 1174, col: 5, offset: 36038},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1169, col: 5, offset: 35885},
+																										pos:   position{line: 1175, col: 5, offset: 36047},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1169, col: 12, offset: 35892},
+																											pos: position{line: 1175, col: 12, offset: 36054},
 																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1169, col: 13, offset: 35893},
+																												pos: position{line: 1175, col: 13, offset: 36055},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1169, col: 13, offset: 35893},
+																													pos:        position{line: 1175, col: 13, offset: 36055},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17564,7 +17570,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1172, col: 5, offset: 35953},
+																										pos:        position{line: 1178, col: 5, offset: 36115},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17575,12 +17581,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1139, col: 69, offset: 35134},
+																					pos: position{line: 1145, col: 69, offset: 35296},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17589,21 +17595,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1139, col: 76, offset: 35141},
+																					pos: position{line: 1145, col: 76, offset: 35303},
 																					expr: &litMatcher{
-																						pos:        position{line: 1139, col: 76, offset: 35141},
+																						pos:        position{line: 1145, col: 76, offset: 35303},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1139, col: 81, offset: 35146},
+																					pos: position{line: 1145, col: 81, offset: 35308},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17612,7 +17618,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1140, col: 5, offset: 35158},
+																					pos: position{line: 1146, col: 5, offset: 35320},
 																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
@@ -17621,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17651,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -17663,41 +17669,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1129, col: 5, offset: 34715},
+												pos: position{line: 1135, col: 5, offset: 34877},
 												expr: &choiceExpr{
-													pos: position{line: 1129, col: 6, offset: 34716},
+													pos: position{line: 1135, col: 6, offset: 34878},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2477, col: 22, offset: 79738},
+															pos: position{line: 2483, col: 22, offset: 79900},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2477, col: 22, offset: 79738},
+																pos: position{line: 2483, col: 22, offset: 79900},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2482, col: 31, offset: 79959},
+																		pos:        position{line: 2488, col: 31, offset: 80121},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2482, col: 36, offset: 79964},
+																		pos: position{line: 2488, col: 36, offset: 80126},
 																		expr: &litMatcher{
-																			pos:        position{line: 2482, col: 37, offset: 79965},
+																			pos:        position{line: 2488, col: 37, offset: 80127},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2477, col: 49, offset: 79765},
+																		pos:   position{line: 2483, col: 49, offset: 79927},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 13, offset: 89279},
+																			pos: position{line: 2819, col: 13, offset: 89441},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2813, col: 13, offset: 89279},
+																				pos: position{line: 2819, col: 13, offset: 89441},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 13, offset: 89279},
+																					pos:        position{line: 2819, col: 13, offset: 89441},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17707,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17737,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -17748,39 +17754,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 821, col: 5, offset: 26373},
+															pos: position{line: 827, col: 5, offset: 26535},
 															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 821, col: 5, offset: 26373},
+																pos: position{line: 827, col: 5, offset: 26535},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26373},
+																		pos:   position{line: 827, col: 5, offset: 26535},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23633},
+																			pos: position{line: 747, col: 5, offset: 23795},
 																			run: (*parser).callonDocumentHeader330,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23633},
+																						pos:   position{line: 747, col: 5, offset: 23795},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23644},
+																							pos: position{line: 747, col: 16, offset: 23806},
 																							run: (*parser).callonDocumentHeader333,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23644},
+																										pos:        position{line: 747, col: 16, offset: 23806},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23651},
+																										pos: position{line: 747, col: 23, offset: 23813},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23651},
+																											pos:        position{line: 747, col: 23, offset: 23813},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17791,12 +17797,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23735},
+																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17805,28 +17811,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17835,9 +17841,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -17847,56 +17853,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 822, col: 5, offset: 26412},
+																		pos: position{line: 828, col: 5, offset: 26574},
 																		run: (*parser).callonDocumentHeader349,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 825, col: 5, offset: 26504},
+																		pos:   position{line: 831, col: 5, offset: 26666},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 840, col: 5, offset: 26896},
+																			pos: position{line: 846, col: 5, offset: 27058},
 																			expr: &actionExpr{
-																				pos: position{line: 840, col: 6, offset: 26897},
+																				pos: position{line: 846, col: 6, offset: 27059},
 																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 840, col: 6, offset: 26897},
+																					pos: position{line: 846, col: 6, offset: 27059},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 840, col: 6, offset: 26897},
+																							pos: position{line: 846, col: 6, offset: 27059},
 																							expr: &choiceExpr{
-																								pos: position{line: 833, col: 5, offset: 26738},
+																								pos: position{line: 839, col: 5, offset: 26900},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 833, col: 5, offset: 26738},
+																										pos: position{line: 839, col: 5, offset: 26900},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 833, col: 5, offset: 26738},
+																												pos:   position{line: 839, col: 5, offset: 26900},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 741, col: 5, offset: 23633},
+																													pos: position{line: 747, col: 5, offset: 23795},
 																													run: (*parser).callonDocumentHeader358,
 																													expr: &seqExpr{
-																														pos: position{line: 741, col: 5, offset: 23633},
+																														pos: position{line: 747, col: 5, offset: 23795},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 741, col: 5, offset: 23633},
+																																pos:   position{line: 747, col: 5, offset: 23795},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 741, col: 16, offset: 23644},
+																																	pos: position{line: 747, col: 16, offset: 23806},
 																																	run: (*parser).callonDocumentHeader361,
 																																	expr: &seqExpr{
-																																		pos: position{line: 741, col: 16, offset: 23644},
+																																		pos: position{line: 747, col: 16, offset: 23806},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 741, col: 16, offset: 23644},
+																																				pos:        position{line: 747, col: 16, offset: 23806},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 741, col: 23, offset: 23651},
+																																				pos: position{line: 747, col: 23, offset: 23813},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 741, col: 23, offset: 23651},
+																																					pos:        position{line: 747, col: 23, offset: 23813},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17907,12 +17913,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 743, col: 8, offset: 23735},
+																																pos: position{line: 749, col: 8, offset: 23897},
 																																expr: &actionExpr{
-																																	pos: position{line: 2867, col: 10, offset: 90753},
+																																	pos: position{line: 2873, col: 10, offset: 90915},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2867, col: 10, offset: 90753},
+																																		pos:        position{line: 2873, col: 10, offset: 90915},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17921,28 +17927,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2889, col: 8, offset: 91151},
+																																pos: position{line: 2895, col: 8, offset: 91313},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2876, col: 12, offset: 90924},
+																																		pos: position{line: 2882, col: 12, offset: 91086},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2876, col: 13, offset: 90925},
+																																			pos: position{line: 2882, col: 13, offset: 91087},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 13, offset: 90925},
+																																					pos:        position{line: 2882, col: 13, offset: 91087},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 20, offset: 90932},
+																																					pos:        position{line: 2882, col: 20, offset: 91094},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 29, offset: 90941},
+																																					pos:        position{line: 2882, col: 29, offset: 91103},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17951,9 +17957,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2886, col: 8, offset: 91101},
+																																		pos: position{line: 2892, col: 8, offset: 91263},
 																																		expr: &anyMatcher{
-																																			line: 2886, col: 9, offset: 91102,
+																																			line: 2892, col: 9, offset: 91264,
 																																		},
 																																	},
 																																},
@@ -17963,45 +17969,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 834, col: 5, offset: 26769},
+																												pos: position{line: 840, col: 5, offset: 26931},
 																												run: (*parser).callonDocumentHeader377,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 841, col: 5, offset: 26927},
+																							pos:   position{line: 847, col: 5, offset: 27089},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 812, col: 5, offset: 26137},
+																								pos: position{line: 818, col: 5, offset: 26299},
 																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 812, col: 5, offset: 26137},
+																									pos: position{line: 818, col: 5, offset: 26299},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2884, col: 11, offset: 91087},
+																											pos: position{line: 2890, col: 11, offset: 91249},
 																											expr: &anyMatcher{
-																												line: 2884, col: 13, offset: 91089,
+																												line: 2890, col: 13, offset: 91251,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 813, col: 5, offset: 26212},
+																											pos:   position{line: 819, col: 5, offset: 26374},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2813, col: 13, offset: 89279},
+																												pos: position{line: 2819, col: 13, offset: 89441},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2813, col: 13, offset: 89279},
+																													pos: position{line: 2819, col: 13, offset: 89441},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2813, col: 13, offset: 89279},
+																														pos:        position{line: 2819, col: 13, offset: 89441},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18011,28 +18017,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18041,9 +18047,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -18058,41 +18064,41 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 826, col: 5, offset: 26538},
+																		pos: position{line: 832, col: 5, offset: 26700},
 																		expr: &choiceExpr{
-																			pos: position{line: 833, col: 5, offset: 26738},
+																			pos: position{line: 839, col: 5, offset: 26900},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 833, col: 5, offset: 26738},
+																					pos: position{line: 839, col: 5, offset: 26900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26738},
+																							pos:   position{line: 839, col: 5, offset: 26900},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23633},
+																								pos: position{line: 747, col: 5, offset: 23795},
 																								run: (*parser).callonDocumentHeader401,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23633},
+																											pos:   position{line: 747, col: 5, offset: 23795},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23644},
+																												pos: position{line: 747, col: 16, offset: 23806},
 																												run: (*parser).callonDocumentHeader404,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23644},
+																															pos:        position{line: 747, col: 16, offset: 23806},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23651},
+																															pos: position{line: 747, col: 23, offset: 23813},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23651},
+																																pos:        position{line: 747, col: 23, offset: 23813},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -18103,12 +18109,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23735},
+																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18117,28 +18123,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18147,9 +18153,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -18159,15 +18165,15 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 834, col: 5, offset: 26769},
+																							pos: position{line: 840, col: 5, offset: 26931},
 																							run: (*parser).callonDocumentHeader420,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -18180,23 +18186,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1130, col: 5, offset: 34790},
+												pos:   position{line: 1136, col: 5, offset: 34952},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1130, col: 14, offset: 34799},
+													pos: position{line: 1136, col: 14, offset: 34961},
 													expr: &actionExpr{
-														pos: position{line: 1178, col: 21, offset: 36142},
+														pos: position{line: 1184, col: 21, offset: 36304},
 														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1178, col: 21, offset: 36142},
+															pos: position{line: 1184, col: 21, offset: 36304},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1178, col: 21, offset: 36142},
+																	pos: position{line: 1184, col: 21, offset: 36304},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18205,55 +18211,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1178, col: 28, offset: 36149},
+																	pos: position{line: 1184, col: 28, offset: 36311},
 																	expr: &litMatcher{
-																		pos:        position{line: 1178, col: 29, offset: 36150},
+																		pos:        position{line: 1184, col: 29, offset: 36312},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1178, col: 33, offset: 36154},
+																	pos:   position{line: 1184, col: 33, offset: 36316},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1179, col: 9, offset: 36173},
+																		pos: position{line: 1185, col: 9, offset: 36335},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1179, col: 10, offset: 36174},
+																				pos: position{line: 1185, col: 10, offset: 36336},
 																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1179, col: 10, offset: 36174},
+																					pos: position{line: 1185, col: 10, offset: 36336},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 10, offset: 36174},
+																							pos:   position{line: 1185, col: 10, offset: 36336},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1188, col: 27, offset: 36691},
+																								pos: position{line: 1194, col: 27, offset: 36853},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1188, col: 27, offset: 36691},
+																										pos: position{line: 1194, col: 27, offset: 36853},
 																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1188, col: 27, offset: 36691},
+																											pos: position{line: 1194, col: 27, offset: 36853},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1188, col: 27, offset: 36691},
+																													pos:        position{line: 1194, col: 27, offset: 36853},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1188, col: 32, offset: 36696},
+																													pos:        position{line: 1194, col: 32, offset: 36858},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1188, col: 38, offset: 36702},
+																													pos: position{line: 1194, col: 38, offset: 36864},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1188, col: 38, offset: 36702},
+																														pos:        position{line: 1194, col: 38, offset: 36864},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18264,31 +18270,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1190, col: 5, offset: 36750},
+																										pos: position{line: 1196, col: 5, offset: 36912},
 																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1190, col: 5, offset: 36750},
+																											pos: position{line: 1196, col: 5, offset: 36912},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1190, col: 5, offset: 36750},
+																													pos: position{line: 1196, col: 5, offset: 36912},
 																													expr: &litMatcher{
-																														pos:        position{line: 1190, col: 5, offset: 36750},
+																														pos:        position{line: 1196, col: 5, offset: 36912},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1190, col: 11, offset: 36756},
+																													pos:        position{line: 1196, col: 11, offset: 36918},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1190, col: 17, offset: 36762},
+																													pos: position{line: 1196, col: 17, offset: 36924},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1190, col: 17, offset: 36762},
+																														pos:        position{line: 1196, col: 17, offset: 36924},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18296,12 +18302,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1190, col: 28, offset: 36773},
+																													pos: position{line: 1196, col: 28, offset: 36935},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18310,9 +18316,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1190, col: 35, offset: 36780},
+																													pos: position{line: 1196, col: 35, offset: 36942},
 																													expr: &litMatcher{
-																														pos:        position{line: 1190, col: 36, offset: 36781},
+																														pos:        position{line: 1196, col: 36, offset: 36943},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18325,26 +18331,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1179, col: 45, offset: 36209},
+																							pos: position{line: 1185, col: 45, offset: 36371},
 																							expr: &litMatcher{
-																								pos:        position{line: 1179, col: 45, offset: 36209},
+																								pos:        position{line: 1185, col: 45, offset: 36371},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 50, offset: 36214},
+																							pos:   position{line: 1185, col: 50, offset: 36376},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1179, col: 58, offset: 36222},
+																								pos: position{line: 1185, col: 58, offset: 36384},
 																								expr: &actionExpr{
-																									pos: position{line: 1194, col: 25, offset: 36845},
+																									pos: position{line: 1200, col: 25, offset: 37007},
 																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1194, col: 25, offset: 36845},
+																										pos: position{line: 1200, col: 25, offset: 37007},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1194, col: 25, offset: 36845},
+																											pos:        position{line: 1200, col: 25, offset: 37007},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18355,26 +18361,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1179, col: 82, offset: 36246},
+																							pos: position{line: 1185, col: 82, offset: 36408},
 																							expr: &litMatcher{
-																								pos:        position{line: 1179, col: 82, offset: 36246},
+																								pos:        position{line: 1185, col: 82, offset: 36408},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1179, col: 87, offset: 36251},
+																							pos:   position{line: 1185, col: 87, offset: 36413},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1179, col: 97, offset: 36261},
+																								pos: position{line: 1185, col: 97, offset: 36423},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 27, offset: 36917},
+																									pos: position{line: 1204, col: 27, offset: 37079},
 																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 27, offset: 36917},
+																										pos: position{line: 1204, col: 27, offset: 37079},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 27, offset: 36917},
+																											pos:        position{line: 1204, col: 27, offset: 37079},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18388,21 +18394,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1181, col: 15, offset: 36379},
+																				pos: position{line: 1187, col: 15, offset: 36541},
 																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1181, col: 15, offset: 36379},
+																					pos: position{line: 1187, col: 15, offset: 36541},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1181, col: 15, offset: 36379},
+																							pos:   position{line: 1187, col: 15, offset: 36541},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1194, col: 25, offset: 36845},
+																								pos: position{line: 1200, col: 25, offset: 37007},
 																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1194, col: 25, offset: 36845},
+																									pos: position{line: 1200, col: 25, offset: 37007},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1194, col: 25, offset: 36845},
+																										pos:        position{line: 1200, col: 25, offset: 37007},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18412,26 +18418,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1181, col: 46, offset: 36410},
+																							pos: position{line: 1187, col: 46, offset: 36572},
 																							expr: &litMatcher{
-																								pos:        position{line: 1181, col: 46, offset: 36410},
+																								pos:        position{line: 1187, col: 46, offset: 36572},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1181, col: 51, offset: 36415},
+																							pos:   position{line: 1187, col: 51, offset: 36577},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1181, col: 61, offset: 36425},
+																								pos: position{line: 1187, col: 61, offset: 36587},
 																								expr: &actionExpr{
-																									pos: position{line: 1198, col: 27, offset: 36917},
+																									pos: position{line: 1204, col: 27, offset: 37079},
 																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1198, col: 27, offset: 36917},
+																										pos: position{line: 1204, col: 27, offset: 37079},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1198, col: 27, offset: 36917},
+																											pos:        position{line: 1204, col: 27, offset: 37079},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18448,28 +18454,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18478,9 +18484,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -18496,15 +18502,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1117, col: 5, offset: 34336},
+							pos:   position{line: 1123, col: 5, offset: 34498},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1117, col: 19, offset: 34350},
+								pos: position{line: 1123, col: 19, offset: 34512},
 								expr: &choiceExpr{
-									pos: position{line: 1117, col: 20, offset: 34351},
+									pos: position{line: 1123, col: 20, offset: 34513},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1117, col: 20, offset: 34351},
+											pos:  position{line: 1123, col: 20, offset: 34513},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18560,10 +18566,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18572,28 +18578,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18602,9 +18608,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -18665,10 +18671,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2867, col: 10, offset: 90753},
+															pos: position{line: 2873, col: 10, offset: 90915},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 10, offset: 90753},
+																pos:        position{line: 2873, col: 10, offset: 90915},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18677,28 +18683,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18707,9 +18713,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -18718,36 +18724,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2477, col: 22, offset: 79738},
+												pos: position{line: 2483, col: 22, offset: 79900},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2482, col: 31, offset: 79959},
+														pos:        position{line: 2488, col: 31, offset: 80121},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2482, col: 36, offset: 79964},
+														pos: position{line: 2488, col: 36, offset: 80126},
 														expr: &litMatcher{
-															pos:        position{line: 2482, col: 37, offset: 79965},
+															pos:        position{line: 2488, col: 37, offset: 80127},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2477, col: 49, offset: 79765},
+														pos:   position{line: 2483, col: 49, offset: 79927},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2813, col: 13, offset: 89279},
+																pos: position{line: 2819, col: 13, offset: 89441},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2813, col: 13, offset: 89279},
+																	pos:        position{line: 2819, col: 13, offset: 89441},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18757,28 +18763,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18787,9 +18793,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -18798,39 +18804,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 821, col: 5, offset: 26373},
+											pos: position{line: 827, col: 5, offset: 26535},
 											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 821, col: 5, offset: 26373},
+												pos: position{line: 827, col: 5, offset: 26535},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26373},
+														pos:   position{line: 827, col: 5, offset: 26535},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 741, col: 5, offset: 23633},
+															pos: position{line: 747, col: 5, offset: 23795},
 															run: (*parser).callonDocumentHeader557,
 															expr: &seqExpr{
-																pos: position{line: 741, col: 5, offset: 23633},
+																pos: position{line: 747, col: 5, offset: 23795},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 741, col: 5, offset: 23633},
+																		pos:   position{line: 747, col: 5, offset: 23795},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 16, offset: 23644},
+																			pos: position{line: 747, col: 16, offset: 23806},
 																			run: (*parser).callonDocumentHeader560,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 16, offset: 23644},
+																				pos: position{line: 747, col: 16, offset: 23806},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 741, col: 16, offset: 23644},
+																						pos:        position{line: 747, col: 16, offset: 23806},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 741, col: 23, offset: 23651},
+																						pos: position{line: 747, col: 23, offset: 23813},
 																						expr: &litMatcher{
-																							pos:        position{line: 741, col: 23, offset: 23651},
+																							pos:        position{line: 747, col: 23, offset: 23813},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18841,12 +18847,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 743, col: 8, offset: 23735},
+																		pos: position{line: 749, col: 8, offset: 23897},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18855,28 +18861,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18885,9 +18891,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -18897,56 +18903,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 822, col: 5, offset: 26412},
+														pos: position{line: 828, col: 5, offset: 26574},
 														run: (*parser).callonDocumentHeader576,
 													},
 													&labeledExpr{
-														pos:   position{line: 825, col: 5, offset: 26504},
+														pos:   position{line: 831, col: 5, offset: 26666},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 840, col: 5, offset: 26896},
+															pos: position{line: 846, col: 5, offset: 27058},
 															expr: &actionExpr{
-																pos: position{line: 840, col: 6, offset: 26897},
+																pos: position{line: 846, col: 6, offset: 27059},
 																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 840, col: 6, offset: 26897},
+																	pos: position{line: 846, col: 6, offset: 27059},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 840, col: 6, offset: 26897},
+																			pos: position{line: 846, col: 6, offset: 27059},
 																			expr: &choiceExpr{
-																				pos: position{line: 833, col: 5, offset: 26738},
+																				pos: position{line: 839, col: 5, offset: 26900},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 833, col: 5, offset: 26738},
+																						pos: position{line: 839, col: 5, offset: 26900},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 833, col: 5, offset: 26738},
+																								pos:   position{line: 839, col: 5, offset: 26900},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									run: (*parser).callonDocumentHeader585,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 5, offset: 23633},
+																										pos: position{line: 747, col: 5, offset: 23795},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 741, col: 5, offset: 23633},
+																												pos:   position{line: 747, col: 5, offset: 23795},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													run: (*parser).callonDocumentHeader588,
 																													expr: &seqExpr{
-																														pos: position{line: 741, col: 16, offset: 23644},
+																														pos: position{line: 747, col: 16, offset: 23806},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 741, col: 16, offset: 23644},
+																																pos:        position{line: 747, col: 16, offset: 23806},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 741, col: 23, offset: 23651},
+																																pos: position{line: 747, col: 23, offset: 23813},
 																																expr: &litMatcher{
-																																	pos:        position{line: 741, col: 23, offset: 23651},
+																																	pos:        position{line: 747, col: 23, offset: 23813},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18957,12 +18963,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 8, offset: 23735},
+																												pos: position{line: 749, col: 8, offset: 23897},
 																												expr: &actionExpr{
-																													pos: position{line: 2867, col: 10, offset: 90753},
+																													pos: position{line: 2873, col: 10, offset: 90915},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2867, col: 10, offset: 90753},
+																														pos:        position{line: 2873, col: 10, offset: 90915},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18971,28 +18977,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2889, col: 8, offset: 91151},
+																												pos: position{line: 2895, col: 8, offset: 91313},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2876, col: 12, offset: 90924},
+																														pos: position{line: 2882, col: 12, offset: 91086},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2876, col: 13, offset: 90925},
+																															pos: position{line: 2882, col: 13, offset: 91087},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 13, offset: 90925},
+																																	pos:        position{line: 2882, col: 13, offset: 91087},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 20, offset: 90932},
+																																	pos:        position{line: 2882, col: 20, offset: 91094},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2876, col: 29, offset: 90941},
+																																	pos:        position{line: 2882, col: 29, offset: 91103},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19001,9 +19007,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2886, col: 8, offset: 91101},
+																														pos: position{line: 2892, col: 8, offset: 91263},
 																														expr: &anyMatcher{
-																															line: 2886, col: 9, offset: 91102,
+																															line: 2892, col: 9, offset: 91264,
 																														},
 																													},
 																												},
@@ -19013,45 +19019,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 834, col: 5, offset: 26769},
+																								pos: position{line: 840, col: 5, offset: 26931},
 																								run: (*parser).callonDocumentHeader604,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 841, col: 5, offset: 26927},
+																			pos:   position{line: 847, col: 5, offset: 27089},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 812, col: 5, offset: 26137},
+																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 813, col: 5, offset: 26212},
+																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2813, col: 13, offset: 89279},
+																									pos: position{line: 2819, col: 13, offset: 89441},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2813, col: 13, offset: 89279},
+																										pos:        position{line: 2819, col: 13, offset: 89441},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19061,28 +19067,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19091,9 +19097,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -19108,41 +19114,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 826, col: 5, offset: 26538},
+														pos: position{line: 832, col: 5, offset: 26700},
 														expr: &choiceExpr{
-															pos: position{line: 833, col: 5, offset: 26738},
+															pos: position{line: 839, col: 5, offset: 26900},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 833, col: 5, offset: 26738},
+																	pos: position{line: 839, col: 5, offset: 26900},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 833, col: 5, offset: 26738},
+																			pos:   position{line: 839, col: 5, offset: 26900},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				run: (*parser).callonDocumentHeader628,
 																				expr: &seqExpr{
-																					pos: position{line: 741, col: 5, offset: 23633},
+																					pos: position{line: 747, col: 5, offset: 23795},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 741, col: 5, offset: 23633},
+																							pos:   position{line: 747, col: 5, offset: 23795},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								run: (*parser).callonDocumentHeader631,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 16, offset: 23644},
+																									pos: position{line: 747, col: 16, offset: 23806},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 741, col: 16, offset: 23644},
+																											pos:        position{line: 747, col: 16, offset: 23806},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 23, offset: 23651},
+																											pos: position{line: 747, col: 23, offset: 23813},
 																											expr: &litMatcher{
-																												pos:        position{line: 741, col: 23, offset: 23651},
+																												pos:        position{line: 747, col: 23, offset: 23813},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -19153,12 +19159,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 8, offset: 23735},
+																							pos: position{line: 749, col: 8, offset: 23897},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19167,28 +19173,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19197,9 +19203,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -19209,15 +19215,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 834, col: 5, offset: 26769},
+																			pos: position{line: 840, col: 5, offset: 26931},
 																			run: (*parser).callonDocumentHeader647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -19236,26 +19242,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1121, col: 1, offset: 34548},
+			pos:  position{line: 1127, col: 1, offset: 34710},
 			expr: &actionExpr{
-				pos: position{line: 1122, col: 5, offset: 34570},
+				pos: position{line: 1128, col: 5, offset: 34732},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1122, col: 5, offset: 34570},
+					pos: position{line: 1128, col: 5, offset: 34732},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1122, col: 5, offset: 34570},
+							pos:        position{line: 1128, col: 5, offset: 34732},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2871, col: 11, offset: 90814},
+							pos: position{line: 2877, col: 11, offset: 90976},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2871, col: 11, offset: 90814},
+								pos: position{line: 2877, col: 11, offset: 90976},
 								expr: &charClassMatcher{
-									pos:        position{line: 2871, col: 11, offset: 90814},
+									pos:        position{line: 2877, col: 11, offset: 90976},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19264,36 +19270,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1122, col: 16, offset: 34581},
+							pos:   position{line: 1128, col: 16, offset: 34743},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1122, col: 23, offset: 34588},
+								pos:  position{line: 1128, col: 23, offset: 34750},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19302,9 +19308,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -19315,23 +19321,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1149, col: 1, offset: 35428},
+			pos:  position{line: 1155, col: 1, offset: 35590},
 			expr: &actionExpr{
-				pos: position{line: 1150, col: 5, offset: 35459},
+				pos: position{line: 1156, col: 5, offset: 35621},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1150, col: 5, offset: 35459},
+					pos: position{line: 1156, col: 5, offset: 35621},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1150, col: 5, offset: 35459},
+							pos:   position{line: 1156, col: 5, offset: 35621},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1150, col: 12, offset: 35466},
+								pos: position{line: 1156, col: 12, offset: 35628},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1150, col: 12, offset: 35466},
+									pos: position{line: 1156, col: 12, offset: 35628},
 									expr: &charClassMatcher{
-										pos:        position{line: 1150, col: 12, offset: 35466},
+										pos:        position{line: 1156, col: 12, offset: 35628},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19341,12 +19347,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1153, col: 5, offset: 35546},
+							pos: position{line: 1159, col: 5, offset: 35708},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19355,17 +19361,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1154, col: 5, offset: 35557},
+							pos:   position{line: 1160, col: 5, offset: 35719},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1154, col: 11, offset: 35563},
+								pos: position{line: 1160, col: 11, offset: 35725},
 								expr: &actionExpr{
-									pos: position{line: 1154, col: 12, offset: 35564},
+									pos: position{line: 1160, col: 12, offset: 35726},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1154, col: 12, offset: 35564},
+										pos: position{line: 1160, col: 12, offset: 35726},
 										expr: &charClassMatcher{
-											pos:        position{line: 1154, col: 12, offset: 35564},
+											pos:        position{line: 1160, col: 12, offset: 35726},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19376,12 +19382,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1157, col: 5, offset: 35645},
+							pos: position{line: 1163, col: 5, offset: 35807},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19390,17 +19396,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1158, col: 5, offset: 35656},
+							pos:   position{line: 1164, col: 5, offset: 35818},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1158, col: 11, offset: 35662},
+								pos: position{line: 1164, col: 11, offset: 35824},
 								expr: &actionExpr{
-									pos: position{line: 1158, col: 12, offset: 35663},
+									pos: position{line: 1164, col: 12, offset: 35825},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1158, col: 12, offset: 35663},
+										pos: position{line: 1164, col: 12, offset: 35825},
 										expr: &charClassMatcher{
-											pos:        position{line: 1158, col: 12, offset: 35663},
+											pos:        position{line: 1164, col: 12, offset: 35825},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19411,12 +19417,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1161, col: 5, offset: 35742},
+							pos: position{line: 1167, col: 5, offset: 35904},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19430,28 +19436,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1279, col: 1, offset: 39575},
+			pos:  position{line: 1285, col: 1, offset: 39737},
 			expr: &actionExpr{
-				pos: position{line: 1280, col: 5, offset: 39596},
+				pos: position{line: 1286, col: 5, offset: 39758},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1280, col: 5, offset: 39596},
+					pos: position{line: 1286, col: 5, offset: 39758},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1280, col: 5, offset: 39596},
+							pos: position{line: 1286, col: 5, offset: 39758},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1283, col: 5, offset: 39655},
+							pos:        position{line: 1289, col: 5, offset: 39817},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 12, offset: 39662},
+							pos:   position{line: 1289, col: 12, offset: 39824},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1283, col: 24, offset: 39674},
+								pos:  position{line: 1289, col: 24, offset: 39836},
 								name: "InlineAttributes",
 							},
 						},
@@ -19461,33 +19467,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1290, col: 1, offset: 39962},
+			pos:  position{line: 1296, col: 1, offset: 40124},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 5, offset: 39981},
+				pos: position{line: 1297, col: 5, offset: 40143},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1291, col: 5, offset: 39981},
+					pos: position{line: 1297, col: 5, offset: 40143},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1291, col: 5, offset: 39981},
+							pos: position{line: 1297, col: 5, offset: 40143},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1294, col: 5, offset: 40040},
+							pos:        position{line: 1300, col: 5, offset: 40202},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1294, col: 13, offset: 40048},
+							pos:   position{line: 1300, col: 13, offset: 40210},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 7, offset: 90405},
+								pos: position{line: 2858, col: 7, offset: 90567},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2852, col: 7, offset: 90405},
+									pos: position{line: 2858, col: 7, offset: 90567},
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 7, offset: 90405},
+										pos:        position{line: 2858, col: 7, offset: 90567},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19497,10 +19503,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1294, col: 21, offset: 40056},
+							pos:   position{line: 1300, col: 21, offset: 40218},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1294, col: 33, offset: 40068},
+								pos:  position{line: 1300, col: 33, offset: 40230},
 								name: "InlineAttributes",
 							},
 						},
@@ -19510,29 +19516,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1301, col: 1, offset: 40367},
+			pos:  position{line: 1307, col: 1, offset: 40529},
 			expr: &actionExpr{
-				pos: position{line: 1301, col: 14, offset: 40380},
+				pos: position{line: 1307, col: 14, offset: 40542},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1301, col: 14, offset: 40380},
+					pos: position{line: 1307, col: 14, offset: 40542},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1301, col: 14, offset: 40380},
+							pos:        position{line: 1307, col: 14, offset: 40542},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1301, col: 19, offset: 40385},
+							pos:   position{line: 1307, col: 19, offset: 40547},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1301, col: 25, offset: 40391},
+								pos:  position{line: 1307, col: 25, offset: 40553},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1301, col: 43, offset: 40409},
+							pos:        position{line: 1307, col: 43, offset: 40571},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19543,25 +19549,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1305, col: 1, offset: 40478},
+			pos:  position{line: 1311, col: 1, offset: 40640},
 			expr: &actionExpr{
-				pos: position{line: 1305, col: 21, offset: 40498},
+				pos: position{line: 1311, col: 21, offset: 40660},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1305, col: 21, offset: 40498},
+					pos:   position{line: 1311, col: 21, offset: 40660},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1305, col: 30, offset: 40507},
+						pos: position{line: 1311, col: 30, offset: 40669},
 						expr: &choiceExpr{
-							pos: position{line: 1305, col: 31, offset: 40508},
+							pos: position{line: 1311, col: 31, offset: 40670},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2761, col: 14, offset: 87922},
+									pos: position{line: 2767, col: 14, offset: 88084},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2761, col: 14, offset: 87922},
+										pos: position{line: 2767, col: 14, offset: 88084},
 										expr: &charClassMatcher{
-											pos:        position{line: 2761, col: 14, offset: 87922},
+											pos:        position{line: 2767, col: 14, offset: 88084},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19570,14 +19576,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1305, col: 43, offset: 40520},
+									pos:  position{line: 1311, col: 43, offset: 40682},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2867, col: 10, offset: 90753},
+									pos: position{line: 2873, col: 10, offset: 90915},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2867, col: 10, offset: 90753},
+										pos:        position{line: 2873, col: 10, offset: 90915},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19585,23 +19591,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2464, col: 5, offset: 79284},
+									pos: position{line: 2470, col: 5, offset: 79446},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2464, col: 5, offset: 79284},
+										pos: position{line: 2470, col: 5, offset: 79446},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2464, col: 5, offset: 79284},
+												pos: position{line: 2470, col: 5, offset: 79446},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2467, col: 5, offset: 79360},
+												pos:   position{line: 2473, col: 5, offset: 79522},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2468, col: 9, offset: 79378},
+													pos: position{line: 2474, col: 9, offset: 79540},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2468, col: 10, offset: 79379},
+														pos:        position{line: 2474, col: 10, offset: 79541},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19613,27 +19619,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1207, col: 23, offset: 37227},
+									pos: position{line: 1213, col: 23, offset: 37389},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1207, col: 23, offset: 37227},
+										pos: position{line: 1213, col: 23, offset: 37389},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1205, col: 32, offset: 37195},
+												pos:        position{line: 1211, col: 32, offset: 37357},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1207, col: 51, offset: 37255},
+												pos:   position{line: 1213, col: 51, offset: 37417},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1207, col: 56, offset: 37260},
+													pos: position{line: 1213, col: 56, offset: 37422},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1207, col: 56, offset: 37260},
+														pos: position{line: 1213, col: 56, offset: 37422},
 														expr: &charClassMatcher{
-															pos:        position{line: 1207, col: 56, offset: 37260},
+															pos:        position{line: 1213, col: 56, offset: 37422},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19643,7 +19649,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1205, col: 32, offset: 37195},
+												pos:        position{line: 1211, col: 32, offset: 37357},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19652,22 +19658,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1305, col: 104, offset: 40581},
+									pos: position{line: 1311, col: 104, offset: 40743},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1305, col: 105, offset: 40582},
+										pos: position{line: 1311, col: 105, offset: 40744},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1305, col: 105, offset: 40582},
+												pos: position{line: 1311, col: 105, offset: 40744},
 												expr: &litMatcher{
-													pos:        position{line: 1305, col: 106, offset: 40583},
+													pos:        position{line: 1311, col: 106, offset: 40745},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1305, col: 111, offset: 40588,
+												line: 1311, col: 111, offset: 40750,
 											},
 										},
 									},
@@ -19680,65 +19686,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1325, col: 1, offset: 41297},
+			pos:  position{line: 1331, col: 1, offset: 41459},
 			expr: &actionExpr{
-				pos: position{line: 1326, col: 5, offset: 41316},
+				pos: position{line: 1332, col: 5, offset: 41478},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1326, col: 5, offset: 41316},
+					pos: position{line: 1332, col: 5, offset: 41478},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1326, col: 5, offset: 41316},
+							pos:        position{line: 1332, col: 5, offset: 41478},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1326, col: 15, offset: 41326},
+							pos:   position{line: 1332, col: 15, offset: 41488},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2825, col: 13, offset: 89512},
+								pos: position{line: 2831, col: 13, offset: 89674},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2825, col: 13, offset: 89512},
+									pos: position{line: 2831, col: 13, offset: 89674},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2825, col: 13, offset: 89512},
+											pos:   position{line: 2831, col: 13, offset: 89674},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2825, col: 20, offset: 89519},
+												pos: position{line: 2831, col: 20, offset: 89681},
 												expr: &actionExpr{
-													pos: position{line: 2833, col: 11, offset: 89758},
+													pos: position{line: 2839, col: 11, offset: 89920},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2833, col: 12, offset: 89759},
+														pos: position{line: 2839, col: 12, offset: 89921},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2833, col: 12, offset: 89759},
+																pos:        position{line: 2839, col: 12, offset: 89921},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 24, offset: 89771},
+																pos:        position{line: 2839, col: 24, offset: 89933},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 37, offset: 89784},
+																pos:        position{line: 2839, col: 37, offset: 89946},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 48, offset: 89795},
+																pos:        position{line: 2839, col: 48, offset: 89957},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 59, offset: 89806},
+																pos:        position{line: 2839, col: 59, offset: 89968},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19749,38 +19755,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2825, col: 30, offset: 89529},
+											pos:   position{line: 2831, col: 30, offset: 89691},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2838, col: 5, offset: 89870},
+												pos: position{line: 2844, col: 5, offset: 90032},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2838, col: 5, offset: 89870},
+													pos:   position{line: 2844, col: 5, offset: 90032},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2838, col: 14, offset: 89879},
+														pos: position{line: 2844, col: 14, offset: 90041},
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 9, offset: 89889},
+															pos: position{line: 2845, col: 9, offset: 90051},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2839, col: 9, offset: 89889},
+																		pos: position{line: 2845, col: 9, offset: 90051},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				expr: &litMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89890},
+																					pos:        position{line: 2845, col: 10, offset: 90052},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2840, col: 9, offset: 89918},
+																				pos: position{line: 2846, col: 9, offset: 90080},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2840, col: 10, offset: 89919},
+																					pos:        position{line: 2846, col: 10, offset: 90081},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19791,27 +19797,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2843, col: 11, offset: 90131},
+																	pos: position{line: 2849, col: 11, offset: 90293},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2843, col: 11, offset: 90131},
+																			pos:        position{line: 2849, col: 11, offset: 90293},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2843, col: 19, offset: 90139},
+																			pos: position{line: 2849, col: 19, offset: 90301},
 																			expr: &seqExpr{
-																				pos: position{line: 2843, col: 21, offset: 90141},
+																				pos: position{line: 2849, col: 21, offset: 90303},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19820,11 +19826,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2843, col: 28, offset: 90148},
+																						pos: position{line: 2849, col: 28, offset: 90310},
 																						expr: &notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -19834,35 +19840,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20139},
+																	pos: position{line: 643, col: 5, offset: 20301},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20139},
+																		pos: position{line: 643, col: 5, offset: 20301},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20211},
+																				pos:   position{line: 646, col: 5, offset: 20373},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20220},
+																					pos: position{line: 646, col: 14, offset: 20382},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20349},
+																								pos: position{line: 652, col: 5, offset: 20511},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20349},
+																										pos:        position{line: 652, col: 5, offset: 20511},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20357},
+																										pos:   position{line: 652, col: 13, offset: 20519},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -19894,7 +19900,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20376},
+																										pos:        position{line: 652, col: 32, offset: 20538},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19903,19 +19909,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20617},
+																								pos: position{line: 659, col: 5, offset: 20779},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20617},
+																										pos:        position{line: 659, col: 5, offset: 20779},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20621},
+																										pos:   position{line: 659, col: 9, offset: 20783},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -19947,7 +19953,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20640},
+																										pos:        position{line: 659, col: 28, offset: 20802},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19956,19 +19962,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20821},
+																							pos: position{line: 665, col: 25, offset: 20983},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20821},
+																								pos: position{line: 665, col: 25, offset: 20983},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20821},
+																										pos:        position{line: 665, col: 25, offset: 20983},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20833},
+																										pos:   position{line: 665, col: 37, offset: 20995},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20000,33 +20006,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20852},
+																										pos:   position{line: 665, col: 56, offset: 21014},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20858},
+																											pos: position{line: 665, col: 62, offset: 21020},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21153},
+																												pos: position{line: 673, col: 17, offset: 21315},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21153},
+																													pos: position{line: 673, col: 17, offset: 21315},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21153},
+																															pos:        position{line: 673, col: 17, offset: 21315},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21157},
+																															pos:   position{line: 673, col: 21, offset: 21319},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21164},
+																																			pos:        position{line: 673, col: 28, offset: 21326},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20034,12 +20040,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21218},
+																																		pos: position{line: 675, col: 9, offset: 21380},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21218},
+																																			pos: position{line: 675, col: 9, offset: 21380},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21218},
+																																				pos:        position{line: 675, col: 9, offset: 21380},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20056,7 +20062,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20874},
+																										pos:        position{line: 665, col: 78, offset: 21036},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20065,19 +20071,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 20992},
+																							pos: position{line: 669, col: 25, offset: 21154},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 20992},
+																								pos: position{line: 669, col: 25, offset: 21154},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 20992},
+																										pos:        position{line: 669, col: 25, offset: 21154},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21005},
+																										pos:   position{line: 669, col: 38, offset: 21167},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20109,33 +20115,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21024},
+																										pos:   position{line: 669, col: 57, offset: 21186},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21030},
+																											pos: position{line: 669, col: 63, offset: 21192},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21153},
+																												pos: position{line: 673, col: 17, offset: 21315},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21153},
+																													pos: position{line: 673, col: 17, offset: 21315},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21153},
+																															pos:        position{line: 673, col: 17, offset: 21315},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21157},
+																															pos:   position{line: 673, col: 21, offset: 21319},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21164},
+																																			pos:        position{line: 673, col: 28, offset: 21326},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20143,12 +20149,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21218},
+																																		pos: position{line: 675, col: 9, offset: 21380},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21218},
+																																			pos: position{line: 675, col: 9, offset: 21380},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21218},
+																																				pos:        position{line: 675, col: 9, offset: 21380},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20165,7 +20171,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21046},
+																										pos:        position{line: 669, col: 79, offset: 21208},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20180,27 +20186,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1207, col: 23, offset: 37227},
+																	pos: position{line: 1213, col: 23, offset: 37389},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1207, col: 23, offset: 37227},
+																		pos: position{line: 1213, col: 23, offset: 37389},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37195},
+																				pos:        position{line: 1211, col: 32, offset: 37357},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1207, col: 51, offset: 37255},
+																				pos:   position{line: 1213, col: 51, offset: 37417},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1207, col: 56, offset: 37260},
+																					pos: position{line: 1213, col: 56, offset: 37422},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1207, col: 56, offset: 37260},
+																						pos: position{line: 1213, col: 56, offset: 37422},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1207, col: 56, offset: 37260},
+																							pos:        position{line: 1213, col: 56, offset: 37422},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20210,7 +20216,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37195},
+																				pos:        position{line: 1211, col: 32, offset: 37357},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20219,10 +20225,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2846, col: 11, offset: 90268},
+																	pos: position{line: 2852, col: 11, offset: 90430},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2846, col: 11, offset: 90268},
+																		pos:        position{line: 2852, col: 11, offset: 90430},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20239,20 +20245,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1326, col: 31, offset: 41342},
+							pos:   position{line: 1332, col: 31, offset: 41504},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1326, col: 43, offset: 41354},
+								pos:  position{line: 1332, col: 43, offset: 41516},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1326, col: 61, offset: 41372},
+							pos: position{line: 1332, col: 61, offset: 41534},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20261,28 +20267,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20291,9 +20297,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -20304,74 +20310,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1331, col: 1, offset: 41589},
+			pos:  position{line: 1337, col: 1, offset: 41751},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 16, offset: 41604},
+				pos: position{line: 1337, col: 16, offset: 41766},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 16, offset: 41604},
+					pos: position{line: 1337, col: 16, offset: 41766},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 16, offset: 41604},
+							pos:        position{line: 1337, col: 16, offset: 41766},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1331, col: 25, offset: 41613},
+							pos: position{line: 1337, col: 25, offset: 41775},
 							expr: &litMatcher{
-								pos:        position{line: 1331, col: 26, offset: 41614},
+								pos:        position{line: 1337, col: 26, offset: 41776},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 30, offset: 41618},
+							pos:   position{line: 1337, col: 30, offset: 41780},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2825, col: 13, offset: 89512},
+								pos: position{line: 2831, col: 13, offset: 89674},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2825, col: 13, offset: 89512},
+									pos: position{line: 2831, col: 13, offset: 89674},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2825, col: 13, offset: 89512},
+											pos:   position{line: 2831, col: 13, offset: 89674},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2825, col: 20, offset: 89519},
+												pos: position{line: 2831, col: 20, offset: 89681},
 												expr: &actionExpr{
-													pos: position{line: 2833, col: 11, offset: 89758},
+													pos: position{line: 2839, col: 11, offset: 89920},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2833, col: 12, offset: 89759},
+														pos: position{line: 2839, col: 12, offset: 89921},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2833, col: 12, offset: 89759},
+																pos:        position{line: 2839, col: 12, offset: 89921},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 24, offset: 89771},
+																pos:        position{line: 2839, col: 24, offset: 89933},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 37, offset: 89784},
+																pos:        position{line: 2839, col: 37, offset: 89946},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 48, offset: 89795},
+																pos:        position{line: 2839, col: 48, offset: 89957},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2833, col: 59, offset: 89806},
+																pos:        position{line: 2839, col: 59, offset: 89968},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20382,38 +20388,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2825, col: 30, offset: 89529},
+											pos:   position{line: 2831, col: 30, offset: 89691},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2838, col: 5, offset: 89870},
+												pos: position{line: 2844, col: 5, offset: 90032},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2838, col: 5, offset: 89870},
+													pos:   position{line: 2844, col: 5, offset: 90032},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2838, col: 14, offset: 89879},
+														pos: position{line: 2844, col: 14, offset: 90041},
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 9, offset: 89889},
+															pos: position{line: 2845, col: 9, offset: 90051},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2839, col: 9, offset: 89889},
+																		pos: position{line: 2845, col: 9, offset: 90051},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				expr: &litMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89890},
+																					pos:        position{line: 2845, col: 10, offset: 90052},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2840, col: 9, offset: 89918},
+																				pos: position{line: 2846, col: 9, offset: 90080},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2840, col: 10, offset: 89919},
+																					pos:        position{line: 2846, col: 10, offset: 90081},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20424,27 +20430,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2843, col: 11, offset: 90131},
+																	pos: position{line: 2849, col: 11, offset: 90293},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2843, col: 11, offset: 90131},
+																			pos:        position{line: 2849, col: 11, offset: 90293},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2843, col: 19, offset: 90139},
+																			pos: position{line: 2849, col: 19, offset: 90301},
 																			expr: &seqExpr{
-																				pos: position{line: 2843, col: 21, offset: 90141},
+																				pos: position{line: 2849, col: 21, offset: 90303},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20453,11 +20459,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2843, col: 28, offset: 90148},
+																						pos: position{line: 2849, col: 28, offset: 90310},
 																						expr: &notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -20467,35 +20473,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 637, col: 5, offset: 20139},
+																	pos: position{line: 643, col: 5, offset: 20301},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 637, col: 5, offset: 20139},
+																		pos: position{line: 643, col: 5, offset: 20301},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 640, col: 5, offset: 20211},
+																				pos:   position{line: 646, col: 5, offset: 20373},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 640, col: 14, offset: 20220},
+																					pos: position{line: 646, col: 14, offset: 20382},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 646, col: 5, offset: 20349},
+																							pos: position{line: 652, col: 5, offset: 20511},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 646, col: 5, offset: 20349},
+																								pos: position{line: 652, col: 5, offset: 20511},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 646, col: 5, offset: 20349},
+																										pos:        position{line: 652, col: 5, offset: 20511},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 13, offset: 20357},
+																										pos:   position{line: 652, col: 13, offset: 20519},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20527,7 +20533,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 646, col: 32, offset: 20376},
+																										pos:        position{line: 652, col: 32, offset: 20538},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20536,19 +20542,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 653, col: 5, offset: 20617},
+																							pos: position{line: 659, col: 5, offset: 20779},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 653, col: 5, offset: 20617},
+																								pos: position{line: 659, col: 5, offset: 20779},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 653, col: 5, offset: 20617},
+																										pos:        position{line: 659, col: 5, offset: 20779},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 653, col: 9, offset: 20621},
+																										pos:   position{line: 659, col: 9, offset: 20783},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20580,7 +20586,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 653, col: 28, offset: 20640},
+																										pos:        position{line: 659, col: 28, offset: 20802},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20589,19 +20595,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 25, offset: 20821},
+																							pos: position{line: 665, col: 25, offset: 20983},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 25, offset: 20821},
+																								pos: position{line: 665, col: 25, offset: 20983},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 25, offset: 20821},
+																										pos:        position{line: 665, col: 25, offset: 20983},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 37, offset: 20833},
+																										pos:   position{line: 665, col: 37, offset: 20995},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20633,33 +20639,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 56, offset: 20852},
+																										pos:   position{line: 665, col: 56, offset: 21014},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 659, col: 62, offset: 20858},
+																											pos: position{line: 665, col: 62, offset: 21020},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21153},
+																												pos: position{line: 673, col: 17, offset: 21315},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21153},
+																													pos: position{line: 673, col: 17, offset: 21315},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21153},
+																															pos:        position{line: 673, col: 17, offset: 21315},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21157},
+																															pos:   position{line: 673, col: 21, offset: 21319},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21164},
+																																			pos:        position{line: 673, col: 28, offset: 21326},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20667,12 +20673,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21218},
+																																		pos: position{line: 675, col: 9, offset: 21380},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21218},
+																																			pos: position{line: 675, col: 9, offset: 21380},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21218},
+																																				pos:        position{line: 675, col: 9, offset: 21380},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20689,7 +20695,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 78, offset: 20874},
+																										pos:        position{line: 665, col: 78, offset: 21036},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20698,19 +20704,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 663, col: 25, offset: 20992},
+																							pos: position{line: 669, col: 25, offset: 21154},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 663, col: 25, offset: 20992},
+																								pos: position{line: 669, col: 25, offset: 21154},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 663, col: 25, offset: 20992},
+																										pos:        position{line: 669, col: 25, offset: 21154},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 38, offset: 21005},
+																										pos:   position{line: 669, col: 38, offset: 21167},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20742,33 +20748,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 663, col: 57, offset: 21024},
+																										pos:   position{line: 669, col: 57, offset: 21186},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 663, col: 63, offset: 21030},
+																											pos: position{line: 669, col: 63, offset: 21192},
 																											expr: &actionExpr{
-																												pos: position{line: 667, col: 17, offset: 21153},
+																												pos: position{line: 673, col: 17, offset: 21315},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 667, col: 17, offset: 21153},
+																													pos: position{line: 673, col: 17, offset: 21315},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 667, col: 17, offset: 21153},
+																															pos:        position{line: 673, col: 17, offset: 21315},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 667, col: 21, offset: 21157},
+																															pos:   position{line: 673, col: 21, offset: 21319},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 667, col: 28, offset: 21164},
+																																			pos:        position{line: 673, col: 28, offset: 21326},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20776,12 +20782,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 9, offset: 21218},
+																																		pos: position{line: 675, col: 9, offset: 21380},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 669, col: 9, offset: 21218},
+																																			pos: position{line: 675, col: 9, offset: 21380},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 669, col: 9, offset: 21218},
+																																				pos:        position{line: 675, col: 9, offset: 21380},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20798,7 +20804,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 663, col: 79, offset: 21046},
+																										pos:        position{line: 669, col: 79, offset: 21208},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20813,27 +20819,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1207, col: 23, offset: 37227},
+																	pos: position{line: 1213, col: 23, offset: 37389},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1207, col: 23, offset: 37227},
+																		pos: position{line: 1213, col: 23, offset: 37389},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37195},
+																				pos:        position{line: 1211, col: 32, offset: 37357},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1207, col: 51, offset: 37255},
+																				pos:   position{line: 1213, col: 51, offset: 37417},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1207, col: 56, offset: 37260},
+																					pos: position{line: 1213, col: 56, offset: 37422},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1207, col: 56, offset: 37260},
+																						pos: position{line: 1213, col: 56, offset: 37422},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1207, col: 56, offset: 37260},
+																							pos:        position{line: 1213, col: 56, offset: 37422},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20843,7 +20849,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1205, col: 32, offset: 37195},
+																				pos:        position{line: 1211, col: 32, offset: 37357},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20852,10 +20858,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2846, col: 11, offset: 90268},
+																	pos: position{line: 2852, col: 11, offset: 90430},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2846, col: 11, offset: 90268},
+																		pos:        position{line: 2852, col: 11, offset: 90430},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20872,10 +20878,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 46, offset: 41634},
+							pos:   position{line: 1337, col: 46, offset: 41796},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 58, offset: 41646},
+								pos:  position{line: 1337, col: 58, offset: 41808},
 								name: "InlineAttributes",
 							},
 						},
@@ -20885,29 +20891,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1338, col: 1, offset: 42042},
+			pos:  position{line: 1344, col: 1, offset: 42204},
 			expr: &actionExpr{
-				pos: position{line: 1338, col: 15, offset: 42056},
+				pos: position{line: 1344, col: 15, offset: 42218},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1338, col: 15, offset: 42056},
+					pos: position{line: 1344, col: 15, offset: 42218},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1338, col: 15, offset: 42056},
+							pos:        position{line: 1344, col: 15, offset: 42218},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 23, offset: 42064},
+							pos:   position{line: 1344, col: 23, offset: 42226},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1338, col: 29, offset: 42070},
+								pos: position{line: 1344, col: 29, offset: 42232},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1338, col: 29, offset: 42070},
+									pos: position{line: 1344, col: 29, offset: 42232},
 									expr: &charClassMatcher{
-										pos:        position{line: 1338, col: 29, offset: 42070},
+										pos:        position{line: 1344, col: 29, offset: 42232},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20918,10 +20924,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 73, offset: 42114},
+							pos:   position{line: 1344, col: 73, offset: 42276},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1338, col: 85, offset: 42126},
+								pos:  position{line: 1344, col: 85, offset: 42288},
 								name: "InlineAttributes",
 							},
 						},
@@ -20931,31 +20937,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1345, col: 1, offset: 42492},
+			pos:  position{line: 1351, col: 1, offset: 42654},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 19, offset: 42510},
+				pos: position{line: 1351, col: 19, offset: 42672},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 19, offset: 42510},
+					pos: position{line: 1351, col: 19, offset: 42672},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1345, col: 19, offset: 42510},
+							pos:        position{line: 1351, col: 19, offset: 42672},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 31, offset: 42522},
+							pos:   position{line: 1351, col: 31, offset: 42684},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1345, col: 35, offset: 42526},
+								pos: position{line: 1351, col: 35, offset: 42688},
 								expr: &actionExpr{
-									pos: position{line: 1349, col: 16, offset: 42686},
+									pos: position{line: 1355, col: 16, offset: 42848},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1349, col: 16, offset: 42686},
+										pos: position{line: 1355, col: 16, offset: 42848},
 										expr: &charClassMatcher{
-											pos:        position{line: 1349, col: 16, offset: 42686},
+											pos:        position{line: 1355, col: 16, offset: 42848},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20967,21 +20973,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1345, col: 50, offset: 42541},
+							pos:        position{line: 1351, col: 50, offset: 42703},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 54, offset: 42545},
+							pos:   position{line: 1351, col: 54, offset: 42707},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1345, col: 64, offset: 42555},
+								pos:  position{line: 1351, col: 64, offset: 42717},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1345, col: 82, offset: 42573},
+							pos:        position{line: 1351, col: 82, offset: 42735},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20992,17 +20998,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1351, col: 1, offset: 42730},
+			pos:  position{line: 1357, col: 1, offset: 42892},
 			expr: &actionExpr{
-				pos: position{line: 1351, col: 21, offset: 42750},
+				pos: position{line: 1357, col: 21, offset: 42912},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1351, col: 21, offset: 42750},
+					pos:   position{line: 1357, col: 21, offset: 42912},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1351, col: 30, offset: 42759},
+						pos: position{line: 1357, col: 30, offset: 42921},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1351, col: 31, offset: 42760},
+							pos:  position{line: 1357, col: 31, offset: 42922},
 							name: "FootnoteElement",
 						},
 					},
@@ -21011,44 +21017,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1355, col: 1, offset: 42852},
+			pos:  position{line: 1361, col: 1, offset: 43014},
 			expr: &actionExpr{
-				pos: position{line: 1356, col: 5, offset: 42876},
+				pos: position{line: 1362, col: 5, offset: 43038},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1356, col: 5, offset: 42876},
+					pos: position{line: 1362, col: 5, offset: 43038},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1356, col: 5, offset: 42876},
+							pos: position{line: 1362, col: 5, offset: 43038},
 							expr: &litMatcher{
-								pos:        position{line: 1356, col: 6, offset: 42877},
+								pos:        position{line: 1362, col: 6, offset: 43039},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 5, offset: 42886},
+							pos:   position{line: 1363, col: 5, offset: 43048},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1358, col: 9, offset: 42904},
+								pos: position{line: 1364, col: 9, offset: 43066},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2766, col: 5, offset: 87995},
+										pos: position{line: 2772, col: 5, offset: 88157},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2766, col: 5, offset: 87995},
+											pos: position{line: 2772, col: 5, offset: 88157},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2766, col: 5, offset: 87995},
+													pos:   position{line: 2772, col: 5, offset: 88157},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2766, col: 11, offset: 88001},
+														pos: position{line: 2772, col: 11, offset: 88163},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2766, col: 11, offset: 88001},
+															pos: position{line: 2772, col: 11, offset: 88163},
 															expr: &charClassMatcher{
-																pos:        position{line: 2766, col: 11, offset: 88001},
+																pos:        position{line: 2772, col: 11, offset: 88163},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21058,36 +21064,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88059},
+													pos: position{line: 2775, col: 5, offset: 88221},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88070},
+														pos: position{line: 2776, col: 9, offset: 88232},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88070},
+																pos:        position{line: 2776, col: 9, offset: 88232},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2771, col: 9, offset: 88119},
+																pos: position{line: 2777, col: 9, offset: 88281},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88199},
+													pos: position{line: 2781, col: 5, offset: 88361},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88210},
+														pos: position{line: 2782, col: 9, offset: 88372},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88210},
+																pos:        position{line: 2782, col: 9, offset: 88372},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2776, col: 13, offset: 88214},
+																pos:        position{line: 2782, col: 13, offset: 88376},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21100,12 +21106,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 11, offset: 90814},
+										pos: position{line: 2877, col: 11, offset: 90976},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 11, offset: 90814},
+											pos: position{line: 2877, col: 11, offset: 90976},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 11, offset: 90814},
+												pos:        position{line: 2877, col: 11, offset: 90976},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21114,21 +21120,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80455},
+										pos: position{line: 2501, col: 5, offset: 80617},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80455},
+											pos: position{line: 2501, col: 5, offset: 80617},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2495, col: 5, offset: 80455},
+													pos:        position{line: 2501, col: 5, offset: 80617},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2495, col: 10, offset: 80460},
+													pos: position{line: 2501, col: 10, offset: 80622},
 													expr: &charClassMatcher{
-														pos:        position{line: 2495, col: 11, offset: 80461},
+														pos:        position{line: 2501, col: 11, offset: 80623},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21139,29 +21145,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80653},
+										pos: position{line: 2507, col: 5, offset: 80815},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80653},
+											pos: position{line: 2507, col: 5, offset: 80815},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80653},
+													pos: position{line: 2507, col: 5, offset: 80815},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2504, col: 5, offset: 80724},
+													pos: position{line: 2510, col: 5, offset: 80886},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2508, col: 5, offset: 80849},
+													pos:        position{line: 2514, col: 5, offset: 81011},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2508, col: 9, offset: 80853},
+													pos: position{line: 2514, col: 9, offset: 81015},
 													expr: &charClassMatcher{
-														pos:        position{line: 2508, col: 10, offset: 80854},
+														pos:        position{line: 2514, col: 10, offset: 81016},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21172,35 +21178,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1361, col: 11, offset: 42971},
+										pos:  position{line: 1367, col: 11, offset: 43133},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1362, col: 11, offset: 42987},
+										pos:  position{line: 1368, col: 11, offset: 43149},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2784, col: 5, offset: 88407},
+										pos: position{line: 2790, col: 5, offset: 88569},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2785, col: 9, offset: 88417},
+											pos: position{line: 2791, col: 9, offset: 88579},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2785, col: 10, offset: 88418},
+													pos:        position{line: 2791, col: 10, offset: 88580},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88515},
+													pos: position{line: 2793, col: 13, offset: 88677},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88515},
+															pos: position{line: 2793, col: 13, offset: 88677},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2790, col: 13, offset: 88615},
+															pos:        position{line: 2796, col: 13, offset: 88777},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21208,20 +21214,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2790, col: 19, offset: 88621},
+													pos:        position{line: 2796, col: 19, offset: 88783},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88659},
+													pos: position{line: 2799, col: 13, offset: 88821},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88659},
+															pos: position{line: 2799, col: 13, offset: 88821},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2796, col: 14, offset: 88752},
+															pos:        position{line: 2802, col: 14, offset: 88914},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21230,18 +21236,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 12, offset: 88796},
+													pos: position{line: 2804, col: 12, offset: 88958},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2798, col: 12, offset: 88796},
+															pos:        position{line: 2804, col: 12, offset: 88958},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2798, col: 16, offset: 88800},
+															pos: position{line: 2804, col: 16, offset: 88962},
 															expr: &litMatcher{
-																pos:        position{line: 2798, col: 17, offset: 88801},
+																pos:        position{line: 2804, col: 17, offset: 88963},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21253,36 +21259,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1364, col: 11, offset: 43060},
+										pos:  position{line: 1370, col: 11, offset: 43222},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1215, col: 5, offset: 37673},
+										pos: position{line: 1221, col: 5, offset: 37835},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1215, col: 5, offset: 37673},
+											pos: position{line: 1221, col: 5, offset: 37835},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1215, col: 5, offset: 37673},
+													pos: position{line: 1221, col: 5, offset: 37835},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1218, col: 5, offset: 37749},
+													pos:        position{line: 1224, col: 5, offset: 37911},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1219, col: 5, offset: 37757},
+													pos: position{line: 1225, col: 5, offset: 37919},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1223, col: 5, offset: 37844},
+													pos: position{line: 1229, col: 5, offset: 38006},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21291,30 +21297,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1223, col: 12, offset: 37851},
+													pos: position{line: 1229, col: 12, offset: 38013},
 													expr: &choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21323,9 +21329,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -21335,35 +21341,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20139},
+										pos: position{line: 643, col: 5, offset: 20301},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20139},
+											pos: position{line: 643, col: 5, offset: 20301},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20139},
+													pos: position{line: 643, col: 5, offset: 20301},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20211},
+													pos:   position{line: 646, col: 5, offset: 20373},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20220},
+														pos: position{line: 646, col: 14, offset: 20382},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20349},
+																pos: position{line: 652, col: 5, offset: 20511},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20349},
+																	pos: position{line: 652, col: 5, offset: 20511},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20349},
+																			pos:        position{line: 652, col: 5, offset: 20511},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20357},
+																			pos:   position{line: 652, col: 13, offset: 20519},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21395,7 +21401,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20376},
+																			pos:        position{line: 652, col: 32, offset: 20538},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21404,19 +21410,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20617},
+																pos: position{line: 659, col: 5, offset: 20779},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20617},
+																	pos: position{line: 659, col: 5, offset: 20779},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20617},
+																			pos:        position{line: 659, col: 5, offset: 20779},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20621},
+																			pos:   position{line: 659, col: 9, offset: 20783},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21448,7 +21454,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20640},
+																			pos:        position{line: 659, col: 28, offset: 20802},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21457,19 +21463,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20821},
+																pos: position{line: 665, col: 25, offset: 20983},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20821},
+																	pos: position{line: 665, col: 25, offset: 20983},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20821},
+																			pos:        position{line: 665, col: 25, offset: 20983},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20833},
+																			pos:   position{line: 665, col: 37, offset: 20995},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21501,33 +21507,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20852},
+																			pos:   position{line: 665, col: 56, offset: 21014},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20858},
+																				pos: position{line: 665, col: 62, offset: 21020},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21535,12 +21541,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21557,7 +21563,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20874},
+																			pos:        position{line: 665, col: 78, offset: 21036},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21566,19 +21572,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20992},
+																pos: position{line: 669, col: 25, offset: 21154},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20992},
+																	pos: position{line: 669, col: 25, offset: 21154},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20992},
+																			pos:        position{line: 669, col: 25, offset: 21154},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21005},
+																			pos:   position{line: 669, col: 38, offset: 21167},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21610,33 +21616,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21024},
+																			pos:   position{line: 669, col: 57, offset: 21186},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21030},
+																				pos: position{line: 669, col: 63, offset: 21192},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21644,12 +21650,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21666,7 +21672,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21046},
+																			pos:        position{line: 669, col: 79, offset: 21208},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21681,23 +21687,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2464, col: 5, offset: 79284},
+										pos: position{line: 2470, col: 5, offset: 79446},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2464, col: 5, offset: 79284},
+													pos: position{line: 2470, col: 5, offset: 79446},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2467, col: 5, offset: 79360},
+													pos:   position{line: 2473, col: 5, offset: 79522},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2468, col: 9, offset: 79378},
+														pos: position{line: 2474, col: 9, offset: 79540},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2468, col: 10, offset: 79379},
+															pos:        position{line: 2474, col: 10, offset: 79541},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21709,25 +21715,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 12, offset: 90924},
+										pos: position{line: 2882, col: 12, offset: 91086},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2876, col: 13, offset: 90925},
+											pos: position{line: 2882, col: 13, offset: 91087},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2876, col: 13, offset: 90925},
+													pos:        position{line: 2882, col: 13, offset: 91087},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 20, offset: 90932},
+													pos:        position{line: 2882, col: 20, offset: 91094},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 29, offset: 90941},
+													pos:        position{line: 2882, col: 29, offset: 91103},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21736,10 +21742,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2806, col: 12, offset: 89061},
+										pos: position{line: 2812, col: 12, offset: 89223},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 12, offset: 89061},
+											pos:        position{line: 2812, col: 12, offset: 89223},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21755,32 +21761,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1403, col: 1, offset: 44905},
+			pos:  position{line: 1409, col: 1, offset: 45067},
 			expr: &choiceExpr{
-				pos: position{line: 1403, col: 21, offset: 44925},
+				pos: position{line: 1409, col: 21, offset: 45087},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1403, col: 21, offset: 44925},
+						pos: position{line: 1409, col: 21, offset: 45087},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1403, col: 21, offset: 44925},
+							pos: position{line: 1409, col: 21, offset: 45087},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1403, col: 21, offset: 44925},
+									pos:        position{line: 1409, col: 21, offset: 45087},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1403, col: 30, offset: 44934},
+									pos:   position{line: 1409, col: 30, offset: 45096},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1403, col: 38, offset: 44942},
+										pos: position{line: 1409, col: 38, offset: 45104},
 										expr: &actionExpr{
-											pos: position{line: 1409, col: 30, offset: 45268},
+											pos: position{line: 1415, col: 30, offset: 45430},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1409, col: 30, offset: 45268},
+												pos:        position{line: 1415, col: 30, offset: 45430},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21790,7 +21796,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1403, col: 67, offset: 44971},
+									pos:        position{line: 1409, col: 67, offset: 45133},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21799,34 +21805,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1405, col: 9, offset: 45075},
+						pos: position{line: 1411, col: 9, offset: 45237},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 9, offset: 45075},
+							pos: position{line: 1411, col: 9, offset: 45237},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 9, offset: 45075},
+									pos:        position{line: 1411, col: 9, offset: 45237},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1405, col: 19, offset: 45085},
+									pos:   position{line: 1411, col: 19, offset: 45247},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1405, col: 27, offset: 45093},
+										pos: position{line: 1411, col: 27, offset: 45255},
 										expr: &choiceExpr{
-											pos: position{line: 1405, col: 28, offset: 45094},
+											pos: position{line: 1411, col: 28, offset: 45256},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1405, col: 28, offset: 45094},
+													pos:  position{line: 1411, col: 28, offset: 45256},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1409, col: 30, offset: 45268},
+													pos: position{line: 1415, col: 30, offset: 45430},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1409, col: 30, offset: 45268},
+														pos:        position{line: 1415, col: 30, offset: 45430},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21838,7 +21844,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1405, col: 69, offset: 45135},
+									pos:        position{line: 1411, col: 69, offset: 45297},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21851,75 +21857,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1416, col: 1, offset: 45524},
+			pos:  position{line: 1422, col: 1, offset: 45686},
 			expr: &choiceExpr{
-				pos: position{line: 1416, col: 9, offset: 45532},
+				pos: position{line: 1422, col: 9, offset: 45694},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45601},
+						pos: position{line: 1425, col: 5, offset: 45763},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45601},
+							pos: position{line: 1425, col: 5, offset: 45763},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45601},
+									pos:        position{line: 1425, col: 5, offset: 45763},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1420, col: 5, offset: 45610},
+									pos:   position{line: 1426, col: 5, offset: 45772},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2829, col: 23, offset: 89639},
+										pos: position{line: 2835, col: 23, offset: 89801},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2829, col: 23, offset: 89639},
+											pos: position{line: 2835, col: 23, offset: 89801},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2829, col: 23, offset: 89639},
+													pos: position{line: 2835, col: 23, offset: 89801},
 													expr: &litMatcher{
-														pos:        position{line: 2829, col: 24, offset: 89640},
+														pos:        position{line: 2835, col: 24, offset: 89802},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 28, offset: 89644},
+													pos:   position{line: 2835, col: 28, offset: 89806},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 89758},
+														pos: position{line: 2839, col: 11, offset: 89920},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 12, offset: 89759},
+															pos: position{line: 2839, col: 12, offset: 89921},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2833, col: 12, offset: 89759},
+																	pos:        position{line: 2839, col: 12, offset: 89921},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 24, offset: 89771},
+																	pos:        position{line: 2839, col: 24, offset: 89933},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 37, offset: 89784},
+																	pos:        position{line: 2839, col: 37, offset: 89946},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 48, offset: 89795},
+																	pos:        position{line: 2839, col: 48, offset: 89957},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 59, offset: 89806},
+																	pos:        position{line: 2839, col: 59, offset: 89968},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21929,38 +21935,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 44, offset: 89660},
+													pos:   position{line: 2835, col: 44, offset: 89822},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21971,27 +21977,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22000,11 +22006,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -22014,35 +22020,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22074,7 +22080,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22083,19 +22089,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22127,7 +22133,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22136,19 +22142,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22180,33 +22186,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22214,12 +22220,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22236,7 +22242,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22245,19 +22251,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22289,33 +22295,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22323,12 +22329,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22345,7 +22351,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22360,27 +22366,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22390,7 +22396,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22399,10 +22405,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22419,7 +22425,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45829},
+									pos:        position{line: 1431, col: 5, offset: 45991},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22428,38 +22434,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 19, offset: 45542},
+						pos:  position{line: 1422, col: 19, offset: 45704},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 34, offset: 45557},
+						pos:  position{line: 1422, col: 34, offset: 45719},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 17, offset: 46822},
+						pos: position{line: 1460, col: 17, offset: 46984},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 17, offset: 46822},
+							pos: position{line: 1460, col: 17, offset: 46984},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 17, offset: 46822},
+									pos:   position{line: 1460, col: 17, offset: 46984},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1459, col: 5, offset: 46987},
+										pos: position{line: 1465, col: 5, offset: 47149},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1459, col: 5, offset: 46987},
+											pos: position{line: 1465, col: 5, offset: 47149},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1459, col: 5, offset: 46987},
+													pos:   position{line: 1465, col: 5, offset: 47149},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1459, col: 12, offset: 46994},
+														pos: position{line: 1465, col: 12, offset: 47156},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1459, col: 12, offset: 46994},
+															pos: position{line: 1465, col: 12, offset: 47156},
 															expr: &charClassMatcher{
-																pos:        position{line: 1459, col: 12, offset: 46994},
+																pos:        position{line: 1465, col: 12, offset: 47156},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22471,7 +22477,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1462, col: 5, offset: 47078},
+													pos: position{line: 1468, col: 5, offset: 47240},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22479,33 +22485,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1454, col: 43, offset: 46848},
+									pos:        position{line: 1460, col: 43, offset: 47010},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 47, offset: 46852},
+									pos:   position{line: 1460, col: 47, offset: 47014},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 23, offset: 47372},
+										pos: position{line: 1477, col: 23, offset: 47534},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 23, offset: 47372},
+											pos: position{line: 1477, col: 23, offset: 47534},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1471, col: 23, offset: 47372},
+													pos:   position{line: 1477, col: 23, offset: 47534},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1471, col: 31, offset: 47380},
+														pos: position{line: 1477, col: 31, offset: 47542},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1471, col: 31, offset: 47380},
+															pos: position{line: 1477, col: 31, offset: 47542},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1471, col: 31, offset: 47380},
+																	pos: position{line: 1477, col: 31, offset: 47542},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1471, col: 31, offset: 47380},
+																		pos:        position{line: 1477, col: 31, offset: 47542},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22513,20 +22519,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1471, col: 41, offset: 47390},
+																	pos: position{line: 1477, col: 41, offset: 47552},
 																	expr: &seqExpr{
-																		pos: position{line: 1471, col: 42, offset: 47391},
+																		pos: position{line: 1477, col: 42, offset: 47553},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1471, col: 42, offset: 47391},
+																				pos:        position{line: 1477, col: 42, offset: 47553},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1471, col: 46, offset: 47395},
+																				pos: position{line: 1477, col: 46, offset: 47557},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1471, col: 46, offset: 47395},
+																					pos:        position{line: 1477, col: 46, offset: 47557},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22542,7 +22548,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1474, col: 5, offset: 47456},
+													pos: position{line: 1480, col: 5, offset: 47618},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22557,68 +22563,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1431, col: 1, offset: 45977},
+			pos:  position{line: 1437, col: 1, offset: 46139},
 			expr: &choiceExpr{
-				pos: position{line: 1433, col: 5, offset: 46013},
+				pos: position{line: 1439, col: 5, offset: 46175},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1433, col: 5, offset: 46013},
+						pos: position{line: 1439, col: 5, offset: 46175},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1433, col: 5, offset: 46013},
+							pos: position{line: 1439, col: 5, offset: 46175},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46013},
+									pos:        position{line: 1439, col: 5, offset: 46175},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 17, offset: 46025},
+									pos:   position{line: 1439, col: 17, offset: 46187},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2825, col: 13, offset: 89512},
+										pos: position{line: 2831, col: 13, offset: 89674},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2825, col: 13, offset: 89512},
+											pos: position{line: 2831, col: 13, offset: 89674},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2825, col: 13, offset: 89512},
+													pos:   position{line: 2831, col: 13, offset: 89674},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2825, col: 20, offset: 89519},
+														pos: position{line: 2831, col: 20, offset: 89681},
 														expr: &actionExpr{
-															pos: position{line: 2833, col: 11, offset: 89758},
+															pos: position{line: 2839, col: 11, offset: 89920},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2833, col: 12, offset: 89759},
+																pos: position{line: 2839, col: 12, offset: 89921},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 12, offset: 89759},
+																		pos:        position{line: 2839, col: 12, offset: 89921},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 24, offset: 89771},
+																		pos:        position{line: 2839, col: 24, offset: 89933},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 37, offset: 89784},
+																		pos:        position{line: 2839, col: 37, offset: 89946},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 48, offset: 89795},
+																		pos:        position{line: 2839, col: 48, offset: 89957},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 59, offset: 89806},
+																		pos:        position{line: 2839, col: 59, offset: 89968},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22629,38 +22635,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 30, offset: 89529},
+													pos:   position{line: 2831, col: 30, offset: 89691},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22671,27 +22677,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22700,11 +22706,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -22714,35 +22720,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22774,7 +22780,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22783,19 +22789,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22827,7 +22833,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22836,19 +22842,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22880,33 +22886,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22914,12 +22920,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22936,7 +22942,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22945,19 +22951,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22989,33 +22995,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23023,12 +23029,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23045,7 +23051,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23060,27 +23066,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23090,7 +23096,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23099,10 +23105,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23119,10 +23125,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 32, offset: 46040},
+									pos:   position{line: 1439, col: 32, offset: 46202},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1433, col: 44, offset: 46052},
+										pos:  position{line: 1439, col: 44, offset: 46214},
 										name: "InlineAttributes",
 									},
 								},
@@ -23130,63 +23136,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46184},
+						pos: position{line: 1444, col: 5, offset: 46346},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46184},
+							pos: position{line: 1444, col: 5, offset: 46346},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46184},
+									pos:        position{line: 1444, col: 5, offset: 46346},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 13, offset: 46192},
+									pos:   position{line: 1444, col: 13, offset: 46354},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2825, col: 13, offset: 89512},
+										pos: position{line: 2831, col: 13, offset: 89674},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2825, col: 13, offset: 89512},
+											pos: position{line: 2831, col: 13, offset: 89674},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2825, col: 13, offset: 89512},
+													pos:   position{line: 2831, col: 13, offset: 89674},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2825, col: 20, offset: 89519},
+														pos: position{line: 2831, col: 20, offset: 89681},
 														expr: &actionExpr{
-															pos: position{line: 2833, col: 11, offset: 89758},
+															pos: position{line: 2839, col: 11, offset: 89920},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2833, col: 12, offset: 89759},
+																pos: position{line: 2839, col: 12, offset: 89921},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 12, offset: 89759},
+																		pos:        position{line: 2839, col: 12, offset: 89921},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 24, offset: 89771},
+																		pos:        position{line: 2839, col: 24, offset: 89933},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 37, offset: 89784},
+																		pos:        position{line: 2839, col: 37, offset: 89946},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 48, offset: 89795},
+																		pos:        position{line: 2839, col: 48, offset: 89957},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2833, col: 59, offset: 89806},
+																		pos:        position{line: 2839, col: 59, offset: 89968},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23197,38 +23203,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 30, offset: 89529},
+													pos:   position{line: 2831, col: 30, offset: 89691},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23239,27 +23245,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23268,11 +23274,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -23282,35 +23288,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23342,7 +23348,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23351,19 +23357,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23395,7 +23401,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23404,19 +23410,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23448,33 +23454,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23482,12 +23488,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23504,7 +23510,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23513,19 +23519,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23557,33 +23563,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23591,12 +23597,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23613,7 +23619,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23628,27 +23634,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23658,7 +23664,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23667,10 +23673,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23687,10 +23693,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 28, offset: 46207},
+									pos:   position{line: 1444, col: 28, offset: 46369},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1438, col: 40, offset: 46219},
+										pos:  position{line: 1444, col: 40, offset: 46381},
 										name: "InlineAttributes",
 									},
 								},
@@ -23702,75 +23708,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1442, col: 1, offset: 46335},
+			pos:  position{line: 1448, col: 1, offset: 46497},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46497},
+				pos: position{line: 1451, col: 5, offset: 46659},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46497},
+						pos: position{line: 1451, col: 5, offset: 46659},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46497},
+							pos: position{line: 1451, col: 5, offset: 46659},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46497},
+									pos:        position{line: 1451, col: 5, offset: 46659},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 9, offset: 46501},
+									pos:   position{line: 1451, col: 9, offset: 46663},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2829, col: 23, offset: 89639},
+										pos: position{line: 2835, col: 23, offset: 89801},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2829, col: 23, offset: 89639},
+											pos: position{line: 2835, col: 23, offset: 89801},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2829, col: 23, offset: 89639},
+													pos: position{line: 2835, col: 23, offset: 89801},
 													expr: &litMatcher{
-														pos:        position{line: 2829, col: 24, offset: 89640},
+														pos:        position{line: 2835, col: 24, offset: 89802},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 28, offset: 89644},
+													pos:   position{line: 2835, col: 28, offset: 89806},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 89758},
+														pos: position{line: 2839, col: 11, offset: 89920},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 12, offset: 89759},
+															pos: position{line: 2839, col: 12, offset: 89921},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2833, col: 12, offset: 89759},
+																	pos:        position{line: 2839, col: 12, offset: 89921},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 24, offset: 89771},
+																	pos:        position{line: 2839, col: 24, offset: 89933},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 37, offset: 89784},
+																	pos:        position{line: 2839, col: 37, offset: 89946},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 48, offset: 89795},
+																	pos:        position{line: 2839, col: 48, offset: 89957},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 59, offset: 89806},
+																	pos:        position{line: 2839, col: 59, offset: 89968},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23780,38 +23786,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 44, offset: 89660},
+													pos:   position{line: 2835, col: 44, offset: 89822},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23822,27 +23828,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23851,11 +23857,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -23865,35 +23871,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23925,7 +23931,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23934,19 +23940,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23978,7 +23984,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23987,19 +23993,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24031,33 +24037,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24065,12 +24071,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24087,7 +24093,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24096,19 +24102,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24140,33 +24146,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24174,12 +24180,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24196,7 +24202,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24211,27 +24217,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24241,7 +24247,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24250,10 +24256,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24270,12 +24276,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 34, offset: 46526},
+									pos:   position{line: 1451, col: 34, offset: 46688},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1445, col: 45, offset: 46537},
+										pos: position{line: 1451, col: 45, offset: 46699},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1445, col: 46, offset: 46538},
+											pos:  position{line: 1451, col: 46, offset: 46700},
 											name: "InlineAttributes",
 										},
 									},
@@ -24284,64 +24290,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46671},
+						pos: position{line: 1456, col: 5, offset: 46833},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46671},
+							pos: position{line: 1456, col: 5, offset: 46833},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 5, offset: 46671},
+									pos:   position{line: 1456, col: 5, offset: 46833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2829, col: 23, offset: 89639},
+										pos: position{line: 2835, col: 23, offset: 89801},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2829, col: 23, offset: 89639},
+											pos: position{line: 2835, col: 23, offset: 89801},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2829, col: 23, offset: 89639},
+													pos: position{line: 2835, col: 23, offset: 89801},
 													expr: &litMatcher{
-														pos:        position{line: 2829, col: 24, offset: 89640},
+														pos:        position{line: 2835, col: 24, offset: 89802},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 28, offset: 89644},
+													pos:   position{line: 2835, col: 28, offset: 89806},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 11, offset: 89758},
+														pos: position{line: 2839, col: 11, offset: 89920},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2833, col: 12, offset: 89759},
+															pos: position{line: 2839, col: 12, offset: 89921},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2833, col: 12, offset: 89759},
+																	pos:        position{line: 2839, col: 12, offset: 89921},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 24, offset: 89771},
+																	pos:        position{line: 2839, col: 24, offset: 89933},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 37, offset: 89784},
+																	pos:        position{line: 2839, col: 37, offset: 89946},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 48, offset: 89795},
+																	pos:        position{line: 2839, col: 48, offset: 89957},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2833, col: 59, offset: 89806},
+																	pos:        position{line: 2839, col: 59, offset: 89968},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24351,38 +24357,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2829, col: 44, offset: 89660},
+													pos:   position{line: 2835, col: 44, offset: 89822},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 5, offset: 89870},
+														pos: position{line: 2844, col: 5, offset: 90032},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2838, col: 5, offset: 89870},
+															pos:   position{line: 2844, col: 5, offset: 90032},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2838, col: 14, offset: 89879},
+																pos: position{line: 2844, col: 14, offset: 90041},
 																expr: &choiceExpr{
-																	pos: position{line: 2839, col: 9, offset: 89889},
+																	pos: position{line: 2845, col: 9, offset: 90051},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2839, col: 9, offset: 89889},
+																			pos: position{line: 2845, col: 9, offset: 90051},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 9, offset: 89889},
+																				pos: position{line: 2845, col: 9, offset: 90051},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 9, offset: 89889},
+																						pos: position{line: 2845, col: 9, offset: 90051},
 																						expr: &litMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89890},
+																							pos:        position{line: 2845, col: 10, offset: 90052},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2840, col: 9, offset: 89918},
+																						pos: position{line: 2846, col: 9, offset: 90080},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89919},
+																							pos:        position{line: 2846, col: 10, offset: 90081},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24393,27 +24399,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2843, col: 11, offset: 90131},
+																			pos: position{line: 2849, col: 11, offset: 90293},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2843, col: 11, offset: 90131},
+																					pos:        position{line: 2849, col: 11, offset: 90293},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2843, col: 19, offset: 90139},
+																					pos: position{line: 2849, col: 19, offset: 90301},
 																					expr: &seqExpr{
-																						pos: position{line: 2843, col: 21, offset: 90141},
+																						pos: position{line: 2849, col: 21, offset: 90303},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2843, col: 21, offset: 90141},
+																								pos: position{line: 2849, col: 21, offset: 90303},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24422,11 +24428,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2843, col: 28, offset: 90148},
+																								pos: position{line: 2849, col: 28, offset: 90310},
 																								expr: &notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -24436,35 +24442,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 637, col: 5, offset: 20139},
+																			pos: position{line: 643, col: 5, offset: 20301},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 637, col: 5, offset: 20139},
+																				pos: position{line: 643, col: 5, offset: 20301},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 637, col: 5, offset: 20139},
+																						pos: position{line: 643, col: 5, offset: 20301},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 640, col: 5, offset: 20211},
+																						pos:   position{line: 646, col: 5, offset: 20373},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 640, col: 14, offset: 20220},
+																							pos: position{line: 646, col: 14, offset: 20382},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 646, col: 5, offset: 20349},
+																									pos: position{line: 652, col: 5, offset: 20511},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 646, col: 5, offset: 20349},
+																										pos: position{line: 652, col: 5, offset: 20511},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 646, col: 5, offset: 20349},
+																												pos:        position{line: 652, col: 5, offset: 20511},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 646, col: 13, offset: 20357},
+																												pos:   position{line: 652, col: 13, offset: 20519},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24496,7 +24502,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 646, col: 32, offset: 20376},
+																												pos:        position{line: 652, col: 32, offset: 20538},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24505,19 +24511,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 653, col: 5, offset: 20617},
+																									pos: position{line: 659, col: 5, offset: 20779},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 653, col: 5, offset: 20617},
+																										pos: position{line: 659, col: 5, offset: 20779},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 653, col: 5, offset: 20617},
+																												pos:        position{line: 659, col: 5, offset: 20779},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 653, col: 9, offset: 20621},
+																												pos:   position{line: 659, col: 9, offset: 20783},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24549,7 +24555,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 653, col: 28, offset: 20640},
+																												pos:        position{line: 659, col: 28, offset: 20802},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24558,19 +24564,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 25, offset: 20821},
+																									pos: position{line: 665, col: 25, offset: 20983},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 25, offset: 20821},
+																										pos: position{line: 665, col: 25, offset: 20983},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 25, offset: 20821},
+																												pos:        position{line: 665, col: 25, offset: 20983},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 37, offset: 20833},
+																												pos:   position{line: 665, col: 37, offset: 20995},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24602,33 +24608,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 56, offset: 20852},
+																												pos:   position{line: 665, col: 56, offset: 21014},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 659, col: 62, offset: 20858},
+																													pos: position{line: 665, col: 62, offset: 21020},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24636,12 +24642,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24658,7 +24664,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 78, offset: 20874},
+																												pos:        position{line: 665, col: 78, offset: 21036},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24667,19 +24673,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 663, col: 25, offset: 20992},
+																									pos: position{line: 669, col: 25, offset: 21154},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 663, col: 25, offset: 20992},
+																										pos: position{line: 669, col: 25, offset: 21154},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 663, col: 25, offset: 20992},
+																												pos:        position{line: 669, col: 25, offset: 21154},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 38, offset: 21005},
+																												pos:   position{line: 669, col: 38, offset: 21167},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24711,33 +24717,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 663, col: 57, offset: 21024},
+																												pos:   position{line: 669, col: 57, offset: 21186},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 663, col: 63, offset: 21030},
+																													pos: position{line: 669, col: 63, offset: 21192},
 																													expr: &actionExpr{
-																														pos: position{line: 667, col: 17, offset: 21153},
+																														pos: position{line: 673, col: 17, offset: 21315},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 667, col: 17, offset: 21153},
+																															pos: position{line: 673, col: 17, offset: 21315},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 667, col: 17, offset: 21153},
+																																	pos:        position{line: 673, col: 17, offset: 21315},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 667, col: 21, offset: 21157},
+																																	pos:   position{line: 673, col: 21, offset: 21319},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 667, col: 28, offset: 21164},
+																																		pos: position{line: 673, col: 28, offset: 21326},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 28, offset: 21164},
+																																				pos: position{line: 673, col: 28, offset: 21326},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 667, col: 28, offset: 21164},
+																																					pos:        position{line: 673, col: 28, offset: 21326},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24745,12 +24751,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 9, offset: 21218},
+																																				pos: position{line: 675, col: 9, offset: 21380},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 669, col: 9, offset: 21218},
+																																					pos: position{line: 675, col: 9, offset: 21380},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 669, col: 9, offset: 21218},
+																																						pos:        position{line: 675, col: 9, offset: 21380},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24767,7 +24773,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 663, col: 79, offset: 21046},
+																												pos:        position{line: 669, col: 79, offset: 21208},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24782,27 +24788,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1207, col: 23, offset: 37227},
+																			pos: position{line: 1213, col: 23, offset: 37389},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1207, col: 23, offset: 37227},
+																				pos: position{line: 1213, col: 23, offset: 37389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1207, col: 51, offset: 37255},
+																						pos:   position{line: 1213, col: 51, offset: 37417},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1207, col: 56, offset: 37260},
+																							pos: position{line: 1213, col: 56, offset: 37422},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1207, col: 56, offset: 37260},
+																								pos: position{line: 1213, col: 56, offset: 37422},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1207, col: 56, offset: 37260},
+																									pos:        position{line: 1213, col: 56, offset: 37422},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24812,7 +24818,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1205, col: 32, offset: 37195},
+																						pos:        position{line: 1211, col: 32, offset: 37357},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24821,10 +24827,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2846, col: 11, offset: 90268},
+																			pos: position{line: 2852, col: 11, offset: 90430},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2846, col: 11, offset: 90268},
+																				pos:        position{line: 2852, col: 11, offset: 90430},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24841,12 +24847,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 30, offset: 46696},
+									pos:   position{line: 1456, col: 30, offset: 46858},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1450, col: 41, offset: 46707},
+										pos: position{line: 1456, col: 41, offset: 46869},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1450, col: 42, offset: 46708},
+											pos:  position{line: 1456, col: 42, offset: 46870},
 											name: "InlineAttributes",
 										},
 									},
@@ -24859,41 +24865,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1484, col: 1, offset: 47849},
+			pos:  position{line: 1490, col: 1, offset: 48011},
 			expr: &actionExpr{
-				pos: position{line: 1485, col: 5, offset: 47870},
+				pos: position{line: 1491, col: 5, offset: 48032},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1485, col: 5, offset: 47870},
+					pos: position{line: 1491, col: 5, offset: 48032},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1485, col: 5, offset: 47870},
+							pos:   position{line: 1491, col: 5, offset: 48032},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1491, col: 5, offset: 48072},
+								pos: position{line: 1497, col: 5, offset: 48234},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1584, col: 5, offset: 51046},
+										pos: position{line: 1590, col: 5, offset: 51208},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1584, col: 5, offset: 51046},
+											pos: position{line: 1590, col: 5, offset: 51208},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1584, col: 5, offset: 51046},
+													pos:   position{line: 1590, col: 5, offset: 51208},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1591, col: 5, offset: 51254},
+														pos: position{line: 1597, col: 5, offset: 51416},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1591, col: 5, offset: 51254},
+															pos: position{line: 1597, col: 5, offset: 51416},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1591, col: 5, offset: 51254},
+																	pos: position{line: 1597, col: 5, offset: 51416},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24902,27 +24908,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1591, col: 12, offset: 51261},
+																	pos:   position{line: 1597, col: 12, offset: 51423},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1593, col: 9, offset: 51324},
+																		pos: position{line: 1599, col: 9, offset: 51486},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1593, col: 9, offset: 51324},
+																				pos: position{line: 1599, col: 9, offset: 51486},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1593, col: 9, offset: 51324},
+																					pos: position{line: 1599, col: 9, offset: 51486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1593, col: 9, offset: 51324},
+																							pos:   position{line: 1599, col: 9, offset: 51486},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1593, col: 16, offset: 51331},
+																								pos: position{line: 1599, col: 16, offset: 51493},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1593, col: 16, offset: 51331},
+																									pos: position{line: 1599, col: 16, offset: 51493},
 																									expr: &litMatcher{
-																										pos:        position{line: 1593, col: 17, offset: 51332},
+																										pos:        position{line: 1599, col: 17, offset: 51494},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24931,22 +24937,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1597, col: 9, offset: 51432},
+																							pos: position{line: 1603, col: 9, offset: 51594},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 11, offset: 52149},
+																				pos: position{line: 1622, col: 11, offset: 52311},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 11, offset: 52149},
+																					pos: position{line: 1622, col: 11, offset: 52311},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 11, offset: 52149},
+																							pos: position{line: 1622, col: 11, offset: 52311},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 12, offset: 52150},
+																								pos:        position{line: 1622, col: 12, offset: 52312},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24954,7 +24960,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 20, offset: 52158},
+																							pos:        position{line: 1622, col: 20, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24963,20 +24969,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52275},
+																				pos: position{line: 1624, col: 13, offset: 52437},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52275},
+																					pos: position{line: 1624, col: 13, offset: 52437},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52276},
+																							pos:        position{line: 1624, col: 14, offset: 52438},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52283},
+																							pos:        position{line: 1624, col: 21, offset: 52445},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24985,20 +24991,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52403},
+																				pos: position{line: 1626, col: 13, offset: 52565},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52403},
+																					pos: position{line: 1626, col: 13, offset: 52565},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1620, col: 14, offset: 52404},
+																							pos:        position{line: 1626, col: 14, offset: 52566},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 21, offset: 52411},
+																							pos:        position{line: 1626, col: 21, offset: 52573},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25007,15 +25013,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52531},
+																				pos: position{line: 1628, col: 13, offset: 52693},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52531},
+																					pos: position{line: 1628, col: 13, offset: 52693},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52531},
+																							pos: position{line: 1628, col: 13, offset: 52693},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52532},
+																								pos:        position{line: 1628, col: 14, offset: 52694},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25023,7 +25029,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52544},
+																							pos:        position{line: 1628, col: 26, offset: 52706},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25032,15 +25038,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52664},
+																				pos: position{line: 1630, col: 13, offset: 52826},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52664},
+																					pos: position{line: 1630, col: 13, offset: 52826},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 13, offset: 52664},
+																							pos: position{line: 1630, col: 13, offset: 52826},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 14, offset: 52665},
+																								pos:        position{line: 1630, col: 14, offset: 52827},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25048,7 +25054,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 26, offset: 52677},
+																							pos:        position{line: 1630, col: 26, offset: 52839},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25060,12 +25066,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25078,26 +25084,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51085},
+													pos:   position{line: 1591, col: 5, offset: 51247},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25108,28 +25114,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25138,9 +25144,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -25153,27 +25159,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1634, col: 5, offset: 52943},
+										pos: position{line: 1640, col: 5, offset: 53105},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1634, col: 5, offset: 52943},
+											pos: position{line: 1640, col: 5, offset: 53105},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 52943},
+													pos:   position{line: 1640, col: 5, offset: 53105},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1641, col: 5, offset: 53216},
+														pos: position{line: 1647, col: 5, offset: 53378},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1641, col: 5, offset: 53216},
+															pos: position{line: 1647, col: 5, offset: 53378},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1641, col: 5, offset: 53216},
+																	pos: position{line: 1647, col: 5, offset: 53378},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25182,24 +25188,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1642, col: 5, offset: 53228},
+																	pos:   position{line: 1648, col: 5, offset: 53390},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1643, col: 9, offset: 53244},
+																		pos: position{line: 1649, col: 9, offset: 53406},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 10, offset: 53245},
+																			pos: position{line: 1649, col: 10, offset: 53407},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1643, col: 11, offset: 53246},
+																					pos:        position{line: 1649, col: 11, offset: 53408},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1643, col: 18, offset: 53253},
+																					pos: position{line: 1649, col: 18, offset: 53415},
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 19, offset: 53254},
+																						pos:        position{line: 1649, col: 19, offset: 53416},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25210,16 +25216,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1646, col: 7, offset: 53344},
+																	pos: position{line: 1652, col: 7, offset: 53506},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25232,56 +25238,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 52984},
+													pos:   position{line: 1641, col: 5, offset: 53146},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1635, col: 16, offset: 52995},
+														pos: position{line: 1641, col: 16, offset: 53157},
 														expr: &actionExpr{
-															pos: position{line: 1656, col: 5, offset: 53609},
+															pos: position{line: 1662, col: 5, offset: 53771},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1656, col: 5, offset: 53609},
+																pos: position{line: 1662, col: 5, offset: 53771},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1656, col: 5, offset: 53609},
+																		pos: position{line: 1662, col: 5, offset: 53771},
 																		expr: &litMatcher{
-																			pos:        position{line: 1656, col: 6, offset: 53610},
+																			pos:        position{line: 1662, col: 6, offset: 53772},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1656, col: 10, offset: 53614},
+																		pos:   position{line: 1662, col: 10, offset: 53776},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1657, col: 7, offset: 53628},
+																			pos: position{line: 1663, col: 7, offset: 53790},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53628},
+																					pos: position{line: 1663, col: 7, offset: 53790},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53628},
+																						pos:        position{line: 1663, col: 7, offset: 53790},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53673},
+																					pos: position{line: 1664, col: 7, offset: 53835},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53673},
+																						pos:        position{line: 1664, col: 7, offset: 53835},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53716},
+																					pos: position{line: 1665, col: 7, offset: 53878},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53716},
+																						pos:        position{line: 1665, col: 7, offset: 53878},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25291,12 +25297,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2871, col: 11, offset: 90814},
+																			pos: position{line: 2877, col: 11, offset: 90976},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90814},
+																				pos:        position{line: 2877, col: 11, offset: 90976},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25310,26 +25316,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53034},
+													pos:   position{line: 1642, col: 5, offset: 53196},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25340,28 +25346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25370,9 +25376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -25385,36 +25391,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1724, col: 5, offset: 55556},
+										pos: position{line: 1730, col: 5, offset: 55718},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1724, col: 5, offset: 55556},
+											pos: position{line: 1730, col: 5, offset: 55718},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55556},
+													pos:   position{line: 1730, col: 5, offset: 55718},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1730, col: 5, offset: 55753},
+														pos: position{line: 1736, col: 5, offset: 55915},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1730, col: 5, offset: 55753},
+															pos: position{line: 1736, col: 5, offset: 55915},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1730, col: 5, offset: 55753},
+																	pos:        position{line: 1736, col: 5, offset: 55915},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1730, col: 9, offset: 55757},
+																	pos:   position{line: 1736, col: 9, offset: 55919},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1730, col: 14, offset: 55762},
+																		pos: position{line: 1736, col: 14, offset: 55924},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1730, col: 14, offset: 55762},
+																			pos: position{line: 1736, col: 14, offset: 55924},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1730, col: 14, offset: 55762},
+																				pos:        position{line: 1736, col: 14, offset: 55924},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25424,18 +25430,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1730, col: 62, offset: 55810},
+																	pos:        position{line: 1736, col: 62, offset: 55972},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25448,26 +25454,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1725, col: 5, offset: 55592},
+													pos:   position{line: 1731, col: 5, offset: 55754},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25478,28 +25484,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25508,9 +25514,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -25523,40 +25529,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1668, col: 5, offset: 53909},
+										pos: position{line: 1674, col: 5, offset: 54071},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1668, col: 5, offset: 53909},
+											pos: position{line: 1674, col: 5, offset: 54071},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53909},
+													pos:   position{line: 1674, col: 5, offset: 54071},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1676, col: 5, offset: 54235},
+														pos: position{line: 1682, col: 5, offset: 54397},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1676, col: 5, offset: 54235},
+															pos: position{line: 1682, col: 5, offset: 54397},
 															expr: &seqExpr{
-																pos: position{line: 1676, col: 6, offset: 54236},
+																pos: position{line: 1682, col: 6, offset: 54398},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1676, col: 6, offset: 54236},
+																		pos: position{line: 1682, col: 6, offset: 54398},
 																		expr: &actionExpr{
-																			pos: position{line: 1681, col: 5, offset: 54386},
+																			pos: position{line: 1687, col: 5, offset: 54548},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1681, col: 5, offset: 54386},
+																				pos: position{line: 1687, col: 5, offset: 54548},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1681, col: 5, offset: 54386},
+																						pos:   position{line: 1687, col: 5, offset: 54548},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1681, col: 16, offset: 54397},
+																							pos: position{line: 1687, col: 16, offset: 54559},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1681, col: 16, offset: 54397},
+																								pos: position{line: 1687, col: 16, offset: 54559},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 17, offset: 54398},
+																									pos:        position{line: 1687, col: 17, offset: 54560},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25565,7 +25571,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1684, col: 5, offset: 54455},
+																						pos: position{line: 1690, col: 5, offset: 54617},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25573,30 +25579,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1676, col: 35, offset: 54265},
+																		pos: position{line: 1682, col: 35, offset: 54427},
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25605,16 +25611,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1676, col: 40, offset: 54270,
+																		line: 1682, col: 40, offset: 54432,
 																	},
 																},
 															},
@@ -25622,24 +25628,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 53944},
+													pos:   position{line: 1675, col: 5, offset: 54106},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54386},
+														pos: position{line: 1687, col: 5, offset: 54548},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54386},
+															pos: position{line: 1687, col: 5, offset: 54548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1681, col: 5, offset: 54386},
+																	pos:   position{line: 1687, col: 5, offset: 54548},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1681, col: 16, offset: 54397},
+																		pos: position{line: 1687, col: 16, offset: 54559},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1681, col: 16, offset: 54397},
+																			pos: position{line: 1687, col: 16, offset: 54559},
 																			expr: &litMatcher{
-																				pos:        position{line: 1681, col: 17, offset: 54398},
+																				pos:        position{line: 1687, col: 17, offset: 54560},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25648,7 +25654,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1684, col: 5, offset: 54455},
+																	pos: position{line: 1690, col: 5, offset: 54617},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25656,24 +25662,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 53989},
+													pos:   position{line: 1676, col: 5, offset: 54151},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1692, col: 5, offset: 54704},
+														pos: position{line: 1698, col: 5, offset: 54866},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54770},
+																pos: position{line: 1700, col: 9, offset: 54932},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54770},
+																	pos: position{line: 1700, col: 9, offset: 54932},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54770},
+																			pos: position{line: 1700, col: 9, offset: 54932},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25682,28 +25688,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25712,34 +25718,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1695, col: 9, offset: 54789},
+																			pos: position{line: 1701, col: 9, offset: 54951},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21519},
+																				pos: position{line: 684, col: 14, offset: 21681},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21519},
+																					pos: position{line: 684, col: 14, offset: 21681},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21526},
+																							pos: position{line: 684, col: 21, offset: 21688},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25748,28 +25754,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25778,9 +25784,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -25793,18 +25799,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1701, col: 9, offset: 54918},
+																pos: position{line: 1707, col: 9, offset: 55080},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1701, col: 9, offset: 54918},
+																	pos: position{line: 1707, col: 9, offset: 55080},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90814},
+																			pos: position{line: 2877, col: 11, offset: 90976},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2871, col: 11, offset: 90814},
+																				pos: position{line: 2877, col: 11, offset: 90976},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 90814},
+																					pos:        position{line: 2877, col: 11, offset: 90976},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25813,15 +25819,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1702, col: 9, offset: 54991},
+																			pos:   position{line: 1708, col: 9, offset: 55153},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1702, col: 18, offset: 55000},
+																				pos: position{line: 1708, col: 18, offset: 55162},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1702, col: 18, offset: 55000},
+																					pos: position{line: 1708, col: 18, offset: 55162},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1702, col: 18, offset: 55000},
+																						pos:        position{line: 1708, col: 18, offset: 55162},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25831,28 +25837,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25861,9 +25867,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -25881,10 +25887,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1486, col: 5, offset: 47901},
+							pos:   position{line: 1492, col: 5, offset: 48063},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1486, col: 20, offset: 47916},
+								pos:  position{line: 1492, col: 20, offset: 48078},
 								name: "ExtraListElements",
 							},
 						},
@@ -25894,17 +25900,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1496, col: 1, offset: 48171},
+			pos:  position{line: 1502, col: 1, offset: 48333},
 			expr: &actionExpr{
-				pos: position{line: 1496, col: 22, offset: 48192},
+				pos: position{line: 1502, col: 22, offset: 48354},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1496, col: 22, offset: 48192},
+					pos:   position{line: 1502, col: 22, offset: 48354},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1496, col: 31, offset: 48201},
+						pos: position{line: 1502, col: 31, offset: 48363},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1496, col: 32, offset: 48202},
+							pos:  position{line: 1502, col: 32, offset: 48364},
 							name: "ExtraListElement",
 						},
 					},
@@ -25913,52 +25919,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1500, col: 1, offset: 48282},
+			pos:  position{line: 1506, col: 1, offset: 48444},
 			expr: &actionExpr{
-				pos: position{line: 1501, col: 5, offset: 48421},
+				pos: position{line: 1507, col: 5, offset: 48583},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1501, col: 5, offset: 48421},
+					pos: position{line: 1507, col: 5, offset: 48583},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1502, col: 5, offset: 48433},
+							pos:   position{line: 1508, col: 5, offset: 48595},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 9, offset: 48451},
+								pos: position{line: 1509, col: 9, offset: 48613},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48455},
+										pos: position{line: 1509, col: 13, offset: 48617},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48455},
+											pos: position{line: 1509, col: 13, offset: 48617},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1503, col: 13, offset: 48455},
+													pos: position{line: 1509, col: 13, offset: 48617},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21519},
+															pos: position{line: 684, col: 14, offset: 21681},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2884, col: 11, offset: 91087},
+																	pos: position{line: 2890, col: 11, offset: 91249},
 																	expr: &anyMatcher{
-																		line: 2884, col: 13, offset: 91089,
+																		line: 2890, col: 13, offset: 91251,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21526},
+																	pos: position{line: 684, col: 21, offset: 21688},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25967,28 +25973,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25997,9 +26003,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -26009,33 +26015,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48479},
+													pos:   position{line: 1510, col: 13, offset: 48641},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48488},
+														pos: position{line: 1510, col: 22, offset: 48650},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1584, col: 5, offset: 51046},
+																pos: position{line: 1590, col: 5, offset: 51208},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1584, col: 5, offset: 51046},
+																	pos: position{line: 1590, col: 5, offset: 51208},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1584, col: 5, offset: 51046},
+																			pos:   position{line: 1590, col: 5, offset: 51208},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1591, col: 5, offset: 51254},
+																				pos: position{line: 1597, col: 5, offset: 51416},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 5, offset: 51254},
+																					pos: position{line: 1597, col: 5, offset: 51416},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1591, col: 5, offset: 51254},
+																							pos: position{line: 1597, col: 5, offset: 51416},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26044,27 +26050,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 12, offset: 51261},
+																							pos:   position{line: 1597, col: 12, offset: 51423},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1593, col: 9, offset: 51324},
+																								pos: position{line: 1599, col: 9, offset: 51486},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1593, col: 9, offset: 51324},
+																										pos: position{line: 1599, col: 9, offset: 51486},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1593, col: 9, offset: 51324},
+																											pos: position{line: 1599, col: 9, offset: 51486},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1593, col: 9, offset: 51324},
+																													pos:   position{line: 1599, col: 9, offset: 51486},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1593, col: 16, offset: 51331},
+																														pos: position{line: 1599, col: 16, offset: 51493},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1593, col: 16, offset: 51331},
+																															pos: position{line: 1599, col: 16, offset: 51493},
 																															expr: &litMatcher{
-																																pos:        position{line: 1593, col: 17, offset: 51332},
+																																pos:        position{line: 1599, col: 17, offset: 51494},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26073,22 +26079,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1597, col: 9, offset: 51432},
+																													pos: position{line: 1603, col: 9, offset: 51594},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 11, offset: 52149},
+																										pos: position{line: 1622, col: 11, offset: 52311},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 11, offset: 52149},
+																											pos: position{line: 1622, col: 11, offset: 52311},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 11, offset: 52149},
+																													pos: position{line: 1622, col: 11, offset: 52311},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 12, offset: 52150},
+																														pos:        position{line: 1622, col: 12, offset: 52312},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26096,7 +26102,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 20, offset: 52158},
+																													pos:        position{line: 1622, col: 20, offset: 52320},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26105,20 +26111,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52275},
+																										pos: position{line: 1624, col: 13, offset: 52437},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52275},
+																											pos: position{line: 1624, col: 13, offset: 52437},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52276},
+																													pos:        position{line: 1624, col: 14, offset: 52438},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52283},
+																													pos:        position{line: 1624, col: 21, offset: 52445},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26127,20 +26133,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52403},
+																										pos: position{line: 1626, col: 13, offset: 52565},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52403},
+																											pos: position{line: 1626, col: 13, offset: 52565},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1620, col: 14, offset: 52404},
+																													pos:        position{line: 1626, col: 14, offset: 52566},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 21, offset: 52411},
+																													pos:        position{line: 1626, col: 21, offset: 52573},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26149,15 +26155,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52531},
+																										pos: position{line: 1628, col: 13, offset: 52693},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52531},
+																											pos: position{line: 1628, col: 13, offset: 52693},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52531},
+																													pos: position{line: 1628, col: 13, offset: 52693},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52532},
+																														pos:        position{line: 1628, col: 14, offset: 52694},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26165,7 +26171,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52544},
+																													pos:        position{line: 1628, col: 26, offset: 52706},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26174,15 +26180,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52664},
+																										pos: position{line: 1630, col: 13, offset: 52826},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52664},
+																											pos: position{line: 1630, col: 13, offset: 52826},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1624, col: 13, offset: 52664},
+																													pos: position{line: 1630, col: 13, offset: 52826},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1624, col: 14, offset: 52665},
+																														pos:        position{line: 1630, col: 14, offset: 52827},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26190,7 +26196,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 26, offset: 52677},
+																													pos:        position{line: 1630, col: 26, offset: 52839},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26202,12 +26208,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26220,26 +26226,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51085},
+																			pos:   position{line: 1591, col: 5, offset: 51247},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26250,28 +26256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26280,9 +26286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -26295,27 +26301,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1634, col: 5, offset: 52943},
+																pos: position{line: 1640, col: 5, offset: 53105},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1634, col: 5, offset: 52943},
+																	pos: position{line: 1640, col: 5, offset: 53105},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 52943},
+																			pos:   position{line: 1640, col: 5, offset: 53105},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1641, col: 5, offset: 53216},
+																				pos: position{line: 1647, col: 5, offset: 53378},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 5, offset: 53216},
+																					pos: position{line: 1647, col: 5, offset: 53378},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1641, col: 5, offset: 53216},
+																							pos: position{line: 1647, col: 5, offset: 53378},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26324,24 +26330,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1642, col: 5, offset: 53228},
+																							pos:   position{line: 1648, col: 5, offset: 53390},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1643, col: 9, offset: 53244},
+																								pos: position{line: 1649, col: 9, offset: 53406},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 10, offset: 53245},
+																									pos: position{line: 1649, col: 10, offset: 53407},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 11, offset: 53246},
+																											pos:        position{line: 1649, col: 11, offset: 53408},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1643, col: 18, offset: 53253},
+																											pos: position{line: 1649, col: 18, offset: 53415},
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 19, offset: 53254},
+																												pos:        position{line: 1649, col: 19, offset: 53416},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26352,16 +26358,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1646, col: 7, offset: 53344},
+																							pos: position{line: 1652, col: 7, offset: 53506},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26374,56 +26380,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 52984},
+																			pos:   position{line: 1641, col: 5, offset: 53146},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1635, col: 16, offset: 52995},
+																				pos: position{line: 1641, col: 16, offset: 53157},
 																				expr: &actionExpr{
-																					pos: position{line: 1656, col: 5, offset: 53609},
+																					pos: position{line: 1662, col: 5, offset: 53771},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1656, col: 5, offset: 53609},
+																						pos: position{line: 1662, col: 5, offset: 53771},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1656, col: 5, offset: 53609},
+																								pos: position{line: 1662, col: 5, offset: 53771},
 																								expr: &litMatcher{
-																									pos:        position{line: 1656, col: 6, offset: 53610},
+																									pos:        position{line: 1662, col: 6, offset: 53772},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1656, col: 10, offset: 53614},
+																								pos:   position{line: 1662, col: 10, offset: 53776},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1657, col: 7, offset: 53628},
+																									pos: position{line: 1663, col: 7, offset: 53790},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53628},
+																											pos: position{line: 1663, col: 7, offset: 53790},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53628},
+																												pos:        position{line: 1663, col: 7, offset: 53790},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53673},
+																											pos: position{line: 1664, col: 7, offset: 53835},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53673},
+																												pos:        position{line: 1664, col: 7, offset: 53835},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53716},
+																											pos: position{line: 1665, col: 7, offset: 53878},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53716},
+																												pos:        position{line: 1665, col: 7, offset: 53878},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26433,12 +26439,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2871, col: 11, offset: 90814},
+																									pos: position{line: 2877, col: 11, offset: 90976},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2871, col: 11, offset: 90814},
+																										pos:        position{line: 2877, col: 11, offset: 90976},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26452,26 +26458,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53034},
+																			pos:   position{line: 1642, col: 5, offset: 53196},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26482,28 +26488,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26512,9 +26518,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -26527,36 +26533,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1724, col: 5, offset: 55556},
+																pos: position{line: 1730, col: 5, offset: 55718},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1724, col: 5, offset: 55556},
+																	pos: position{line: 1730, col: 5, offset: 55718},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55556},
+																			pos:   position{line: 1730, col: 5, offset: 55718},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1730, col: 5, offset: 55753},
+																				pos: position{line: 1736, col: 5, offset: 55915},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1730, col: 5, offset: 55753},
+																					pos: position{line: 1736, col: 5, offset: 55915},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1730, col: 5, offset: 55753},
+																							pos:        position{line: 1736, col: 5, offset: 55915},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1730, col: 9, offset: 55757},
+																							pos:   position{line: 1736, col: 9, offset: 55919},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1730, col: 14, offset: 55762},
+																								pos: position{line: 1736, col: 14, offset: 55924},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1730, col: 14, offset: 55762},
+																									pos: position{line: 1736, col: 14, offset: 55924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1730, col: 14, offset: 55762},
+																										pos:        position{line: 1736, col: 14, offset: 55924},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26566,18 +26572,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1730, col: 62, offset: 55810},
+																							pos:        position{line: 1736, col: 62, offset: 55972},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26590,26 +26596,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1725, col: 5, offset: 55592},
+																			pos:   position{line: 1731, col: 5, offset: 55754},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26620,28 +26626,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26650,9 +26656,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -26665,40 +26671,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 53909},
+																pos: position{line: 1674, col: 5, offset: 54071},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1668, col: 5, offset: 53909},
+																	pos: position{line: 1674, col: 5, offset: 54071},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53909},
+																			pos:   position{line: 1674, col: 5, offset: 54071},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1676, col: 5, offset: 54235},
+																				pos: position{line: 1682, col: 5, offset: 54397},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1676, col: 5, offset: 54235},
+																					pos: position{line: 1682, col: 5, offset: 54397},
 																					expr: &seqExpr{
-																						pos: position{line: 1676, col: 6, offset: 54236},
+																						pos: position{line: 1682, col: 6, offset: 54398},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1676, col: 6, offset: 54236},
+																								pos: position{line: 1682, col: 6, offset: 54398},
 																								expr: &actionExpr{
-																									pos: position{line: 1681, col: 5, offset: 54386},
+																									pos: position{line: 1687, col: 5, offset: 54548},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1681, col: 5, offset: 54386},
+																										pos: position{line: 1687, col: 5, offset: 54548},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1681, col: 5, offset: 54386},
+																												pos:   position{line: 1687, col: 5, offset: 54548},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1681, col: 16, offset: 54397},
+																													pos: position{line: 1687, col: 16, offset: 54559},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1681, col: 16, offset: 54397},
+																														pos: position{line: 1687, col: 16, offset: 54559},
 																														expr: &litMatcher{
-																															pos:        position{line: 1681, col: 17, offset: 54398},
+																															pos:        position{line: 1687, col: 17, offset: 54560},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26707,7 +26713,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1684, col: 5, offset: 54455},
+																												pos: position{line: 1690, col: 5, offset: 54617},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26715,30 +26721,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1676, col: 35, offset: 54265},
+																								pos: position{line: 1682, col: 35, offset: 54427},
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26747,16 +26753,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1676, col: 40, offset: 54270,
+																								line: 1682, col: 40, offset: 54432,
 																							},
 																						},
 																					},
@@ -26764,24 +26770,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 53944},
+																			pos:   position{line: 1675, col: 5, offset: 54106},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54386},
+																				pos: position{line: 1687, col: 5, offset: 54548},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54386},
+																					pos: position{line: 1687, col: 5, offset: 54548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1681, col: 5, offset: 54386},
+																							pos:   position{line: 1687, col: 5, offset: 54548},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1681, col: 16, offset: 54397},
+																								pos: position{line: 1687, col: 16, offset: 54559},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1681, col: 16, offset: 54397},
+																									pos: position{line: 1687, col: 16, offset: 54559},
 																									expr: &litMatcher{
-																										pos:        position{line: 1681, col: 17, offset: 54398},
+																										pos:        position{line: 1687, col: 17, offset: 54560},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26790,7 +26796,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1684, col: 5, offset: 54455},
+																							pos: position{line: 1690, col: 5, offset: 54617},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26798,24 +26804,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 53989},
+																			pos:   position{line: 1676, col: 5, offset: 54151},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1692, col: 5, offset: 54704},
+																				pos: position{line: 1698, col: 5, offset: 54866},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54770},
+																						pos: position{line: 1700, col: 9, offset: 54932},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54770},
+																							pos: position{line: 1700, col: 9, offset: 54932},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54770},
+																									pos: position{line: 1700, col: 9, offset: 54932},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26824,28 +26830,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26854,34 +26860,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1695, col: 9, offset: 54789},
+																									pos: position{line: 1701, col: 9, offset: 54951},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21519},
+																										pos: position{line: 684, col: 14, offset: 21681},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21519},
+																											pos: position{line: 684, col: 14, offset: 21681},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2884, col: 11, offset: 91087},
+																													pos: position{line: 2890, col: 11, offset: 91249},
 																													expr: &anyMatcher{
-																														line: 2884, col: 13, offset: 91089,
+																														line: 2890, col: 13, offset: 91251,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21526},
+																													pos: position{line: 684, col: 21, offset: 21688},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26890,28 +26896,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26920,9 +26926,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -26935,18 +26941,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1701, col: 9, offset: 54918},
+																						pos: position{line: 1707, col: 9, offset: 55080},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1701, col: 9, offset: 54918},
+																							pos: position{line: 1707, col: 9, offset: 55080},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 11, offset: 90814},
+																									pos: position{line: 2877, col: 11, offset: 90976},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2871, col: 11, offset: 90814},
+																										pos: position{line: 2877, col: 11, offset: 90976},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2871, col: 11, offset: 90814},
+																											pos:        position{line: 2877, col: 11, offset: 90976},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26955,15 +26961,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1702, col: 9, offset: 54991},
+																									pos:   position{line: 1708, col: 9, offset: 55153},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1702, col: 18, offset: 55000},
+																										pos: position{line: 1708, col: 18, offset: 55162},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1702, col: 18, offset: 55000},
+																											pos: position{line: 1708, col: 18, offset: 55162},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1702, col: 18, offset: 55000},
+																												pos:        position{line: 1708, col: 18, offset: 55162},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26973,28 +26979,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27003,9 +27009,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -27026,50 +27032,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1507, col: 13, offset: 48639},
+										pos: position{line: 1513, col: 13, offset: 48801},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1507, col: 13, offset: 48639},
+											pos: position{line: 1513, col: 13, offset: 48801},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1507, col: 13, offset: 48639},
+													pos:   position{line: 1513, col: 13, offset: 48801},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1507, col: 24, offset: 48650},
+														pos: position{line: 1513, col: 24, offset: 48812},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1507, col: 25, offset: 48651},
+															pos:  position{line: 1513, col: 25, offset: 48813},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48682},
+													pos:   position{line: 1514, col: 13, offset: 48844},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1508, col: 22, offset: 48691},
+														pos: position{line: 1514, col: 22, offset: 48853},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1584, col: 5, offset: 51046},
+																pos: position{line: 1590, col: 5, offset: 51208},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1584, col: 5, offset: 51046},
+																	pos: position{line: 1590, col: 5, offset: 51208},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1584, col: 5, offset: 51046},
+																			pos:   position{line: 1590, col: 5, offset: 51208},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1591, col: 5, offset: 51254},
+																				pos: position{line: 1597, col: 5, offset: 51416},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 5, offset: 51254},
+																					pos: position{line: 1597, col: 5, offset: 51416},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1591, col: 5, offset: 51254},
+																							pos: position{line: 1597, col: 5, offset: 51416},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27078,27 +27084,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 12, offset: 51261},
+																							pos:   position{line: 1597, col: 12, offset: 51423},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1593, col: 9, offset: 51324},
+																								pos: position{line: 1599, col: 9, offset: 51486},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1593, col: 9, offset: 51324},
+																										pos: position{line: 1599, col: 9, offset: 51486},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1593, col: 9, offset: 51324},
+																											pos: position{line: 1599, col: 9, offset: 51486},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1593, col: 9, offset: 51324},
+																													pos:   position{line: 1599, col: 9, offset: 51486},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1593, col: 16, offset: 51331},
+																														pos: position{line: 1599, col: 16, offset: 51493},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1593, col: 16, offset: 51331},
+																															pos: position{line: 1599, col: 16, offset: 51493},
 																															expr: &litMatcher{
-																																pos:        position{line: 1593, col: 17, offset: 51332},
+																																pos:        position{line: 1599, col: 17, offset: 51494},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27107,22 +27113,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1597, col: 9, offset: 51432},
+																													pos: position{line: 1603, col: 9, offset: 51594},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 11, offset: 52149},
+																										pos: position{line: 1622, col: 11, offset: 52311},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 11, offset: 52149},
+																											pos: position{line: 1622, col: 11, offset: 52311},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 11, offset: 52149},
+																													pos: position{line: 1622, col: 11, offset: 52311},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 12, offset: 52150},
+																														pos:        position{line: 1622, col: 12, offset: 52312},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27130,7 +27136,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 20, offset: 52158},
+																													pos:        position{line: 1622, col: 20, offset: 52320},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27139,20 +27145,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52275},
+																										pos: position{line: 1624, col: 13, offset: 52437},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52275},
+																											pos: position{line: 1624, col: 13, offset: 52437},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52276},
+																													pos:        position{line: 1624, col: 14, offset: 52438},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52283},
+																													pos:        position{line: 1624, col: 21, offset: 52445},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27161,20 +27167,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52403},
+																										pos: position{line: 1626, col: 13, offset: 52565},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52403},
+																											pos: position{line: 1626, col: 13, offset: 52565},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1620, col: 14, offset: 52404},
+																													pos:        position{line: 1626, col: 14, offset: 52566},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 21, offset: 52411},
+																													pos:        position{line: 1626, col: 21, offset: 52573},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27183,15 +27189,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52531},
+																										pos: position{line: 1628, col: 13, offset: 52693},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52531},
+																											pos: position{line: 1628, col: 13, offset: 52693},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52531},
+																													pos: position{line: 1628, col: 13, offset: 52693},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52532},
+																														pos:        position{line: 1628, col: 14, offset: 52694},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27199,7 +27205,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52544},
+																													pos:        position{line: 1628, col: 26, offset: 52706},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27208,15 +27214,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52664},
+																										pos: position{line: 1630, col: 13, offset: 52826},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52664},
+																											pos: position{line: 1630, col: 13, offset: 52826},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1624, col: 13, offset: 52664},
+																													pos: position{line: 1630, col: 13, offset: 52826},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1624, col: 14, offset: 52665},
+																														pos:        position{line: 1630, col: 14, offset: 52827},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27224,7 +27230,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 26, offset: 52677},
+																													pos:        position{line: 1630, col: 26, offset: 52839},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27236,12 +27242,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27254,26 +27260,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51085},
+																			pos:   position{line: 1591, col: 5, offset: 51247},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27284,28 +27290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27314,9 +27320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -27329,27 +27335,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1634, col: 5, offset: 52943},
+																pos: position{line: 1640, col: 5, offset: 53105},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1634, col: 5, offset: 52943},
+																	pos: position{line: 1640, col: 5, offset: 53105},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 52943},
+																			pos:   position{line: 1640, col: 5, offset: 53105},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1641, col: 5, offset: 53216},
+																				pos: position{line: 1647, col: 5, offset: 53378},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 5, offset: 53216},
+																					pos: position{line: 1647, col: 5, offset: 53378},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1641, col: 5, offset: 53216},
+																							pos: position{line: 1647, col: 5, offset: 53378},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27358,24 +27364,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1642, col: 5, offset: 53228},
+																							pos:   position{line: 1648, col: 5, offset: 53390},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1643, col: 9, offset: 53244},
+																								pos: position{line: 1649, col: 9, offset: 53406},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 10, offset: 53245},
+																									pos: position{line: 1649, col: 10, offset: 53407},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 11, offset: 53246},
+																											pos:        position{line: 1649, col: 11, offset: 53408},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1643, col: 18, offset: 53253},
+																											pos: position{line: 1649, col: 18, offset: 53415},
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 19, offset: 53254},
+																												pos:        position{line: 1649, col: 19, offset: 53416},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27386,16 +27392,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1646, col: 7, offset: 53344},
+																							pos: position{line: 1652, col: 7, offset: 53506},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27408,56 +27414,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 52984},
+																			pos:   position{line: 1641, col: 5, offset: 53146},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1635, col: 16, offset: 52995},
+																				pos: position{line: 1641, col: 16, offset: 53157},
 																				expr: &actionExpr{
-																					pos: position{line: 1656, col: 5, offset: 53609},
+																					pos: position{line: 1662, col: 5, offset: 53771},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1656, col: 5, offset: 53609},
+																						pos: position{line: 1662, col: 5, offset: 53771},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1656, col: 5, offset: 53609},
+																								pos: position{line: 1662, col: 5, offset: 53771},
 																								expr: &litMatcher{
-																									pos:        position{line: 1656, col: 6, offset: 53610},
+																									pos:        position{line: 1662, col: 6, offset: 53772},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1656, col: 10, offset: 53614},
+																								pos:   position{line: 1662, col: 10, offset: 53776},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1657, col: 7, offset: 53628},
+																									pos: position{line: 1663, col: 7, offset: 53790},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53628},
+																											pos: position{line: 1663, col: 7, offset: 53790},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53628},
+																												pos:        position{line: 1663, col: 7, offset: 53790},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53673},
+																											pos: position{line: 1664, col: 7, offset: 53835},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53673},
+																												pos:        position{line: 1664, col: 7, offset: 53835},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53716},
+																											pos: position{line: 1665, col: 7, offset: 53878},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53716},
+																												pos:        position{line: 1665, col: 7, offset: 53878},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27467,12 +27473,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2871, col: 11, offset: 90814},
+																									pos: position{line: 2877, col: 11, offset: 90976},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2871, col: 11, offset: 90814},
+																										pos:        position{line: 2877, col: 11, offset: 90976},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27486,26 +27492,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53034},
+																			pos:   position{line: 1642, col: 5, offset: 53196},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27516,28 +27522,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27546,9 +27552,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -27561,36 +27567,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1724, col: 5, offset: 55556},
+																pos: position{line: 1730, col: 5, offset: 55718},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1724, col: 5, offset: 55556},
+																	pos: position{line: 1730, col: 5, offset: 55718},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55556},
+																			pos:   position{line: 1730, col: 5, offset: 55718},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1730, col: 5, offset: 55753},
+																				pos: position{line: 1736, col: 5, offset: 55915},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1730, col: 5, offset: 55753},
+																					pos: position{line: 1736, col: 5, offset: 55915},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1730, col: 5, offset: 55753},
+																							pos:        position{line: 1736, col: 5, offset: 55915},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1730, col: 9, offset: 55757},
+																							pos:   position{line: 1736, col: 9, offset: 55919},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1730, col: 14, offset: 55762},
+																								pos: position{line: 1736, col: 14, offset: 55924},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1730, col: 14, offset: 55762},
+																									pos: position{line: 1736, col: 14, offset: 55924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1730, col: 14, offset: 55762},
+																										pos:        position{line: 1736, col: 14, offset: 55924},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27600,18 +27606,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1730, col: 62, offset: 55810},
+																							pos:        position{line: 1736, col: 62, offset: 55972},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27624,26 +27630,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1725, col: 5, offset: 55592},
+																			pos:   position{line: 1731, col: 5, offset: 55754},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1532, col: 5, offset: 49552},
+																				pos: position{line: 1538, col: 5, offset: 49714},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1532, col: 5, offset: 49552},
+																					pos: position{line: 1538, col: 5, offset: 49714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1532, col: 5, offset: 49552},
+																							pos:   position{line: 1538, col: 5, offset: 49714},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1532, col: 14, offset: 49561},
+																								pos: position{line: 1538, col: 14, offset: 49723},
 																								expr: &actionExpr{
-																									pos: position{line: 1532, col: 15, offset: 49562},
+																									pos: position{line: 1538, col: 15, offset: 49724},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1532, col: 15, offset: 49562},
+																										pos: position{line: 1538, col: 15, offset: 49724},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1532, col: 15, offset: 49562},
+																											pos:        position{line: 1538, col: 15, offset: 49724},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27654,28 +27660,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27684,9 +27690,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -27699,40 +27705,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 53909},
+																pos: position{line: 1674, col: 5, offset: 54071},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1668, col: 5, offset: 53909},
+																	pos: position{line: 1674, col: 5, offset: 54071},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53909},
+																			pos:   position{line: 1674, col: 5, offset: 54071},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1676, col: 5, offset: 54235},
+																				pos: position{line: 1682, col: 5, offset: 54397},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1676, col: 5, offset: 54235},
+																					pos: position{line: 1682, col: 5, offset: 54397},
 																					expr: &seqExpr{
-																						pos: position{line: 1676, col: 6, offset: 54236},
+																						pos: position{line: 1682, col: 6, offset: 54398},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1676, col: 6, offset: 54236},
+																								pos: position{line: 1682, col: 6, offset: 54398},
 																								expr: &actionExpr{
-																									pos: position{line: 1681, col: 5, offset: 54386},
+																									pos: position{line: 1687, col: 5, offset: 54548},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1681, col: 5, offset: 54386},
+																										pos: position{line: 1687, col: 5, offset: 54548},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1681, col: 5, offset: 54386},
+																												pos:   position{line: 1687, col: 5, offset: 54548},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1681, col: 16, offset: 54397},
+																													pos: position{line: 1687, col: 16, offset: 54559},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1681, col: 16, offset: 54397},
+																														pos: position{line: 1687, col: 16, offset: 54559},
 																														expr: &litMatcher{
-																															pos:        position{line: 1681, col: 17, offset: 54398},
+																															pos:        position{line: 1687, col: 17, offset: 54560},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27741,7 +27747,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1684, col: 5, offset: 54455},
+																												pos: position{line: 1690, col: 5, offset: 54617},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27749,30 +27755,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1676, col: 35, offset: 54265},
+																								pos: position{line: 1682, col: 35, offset: 54427},
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27781,16 +27787,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1676, col: 40, offset: 54270,
+																								line: 1682, col: 40, offset: 54432,
 																							},
 																						},
 																					},
@@ -27798,24 +27804,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 53944},
+																			pos:   position{line: 1675, col: 5, offset: 54106},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54386},
+																				pos: position{line: 1687, col: 5, offset: 54548},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54386},
+																					pos: position{line: 1687, col: 5, offset: 54548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1681, col: 5, offset: 54386},
+																							pos:   position{line: 1687, col: 5, offset: 54548},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1681, col: 16, offset: 54397},
+																								pos: position{line: 1687, col: 16, offset: 54559},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1681, col: 16, offset: 54397},
+																									pos: position{line: 1687, col: 16, offset: 54559},
 																									expr: &litMatcher{
-																										pos:        position{line: 1681, col: 17, offset: 54398},
+																										pos:        position{line: 1687, col: 17, offset: 54560},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27824,7 +27830,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1684, col: 5, offset: 54455},
+																							pos: position{line: 1690, col: 5, offset: 54617},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27832,24 +27838,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 53989},
+																			pos:   position{line: 1676, col: 5, offset: 54151},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1692, col: 5, offset: 54704},
+																				pos: position{line: 1698, col: 5, offset: 54866},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54770},
+																						pos: position{line: 1700, col: 9, offset: 54932},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54770},
+																							pos: position{line: 1700, col: 9, offset: 54932},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54770},
+																									pos: position{line: 1700, col: 9, offset: 54932},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27858,28 +27864,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27888,34 +27894,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1695, col: 9, offset: 54789},
+																									pos: position{line: 1701, col: 9, offset: 54951},
 																									expr: &actionExpr{
-																										pos: position{line: 678, col: 14, offset: 21519},
+																										pos: position{line: 684, col: 14, offset: 21681},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 678, col: 14, offset: 21519},
+																											pos: position{line: 684, col: 14, offset: 21681},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2884, col: 11, offset: 91087},
+																													pos: position{line: 2890, col: 11, offset: 91249},
 																													expr: &anyMatcher{
-																														line: 2884, col: 13, offset: 91089,
+																														line: 2890, col: 13, offset: 91251,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 678, col: 21, offset: 21526},
+																													pos: position{line: 684, col: 21, offset: 21688},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27924,28 +27930,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27954,9 +27960,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -27969,18 +27975,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1701, col: 9, offset: 54918},
+																						pos: position{line: 1707, col: 9, offset: 55080},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1701, col: 9, offset: 54918},
+																							pos: position{line: 1707, col: 9, offset: 55080},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 11, offset: 90814},
+																									pos: position{line: 2877, col: 11, offset: 90976},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2871, col: 11, offset: 90814},
+																										pos: position{line: 2877, col: 11, offset: 90976},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2871, col: 11, offset: 90814},
+																											pos:        position{line: 2877, col: 11, offset: 90976},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27989,15 +27995,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1702, col: 9, offset: 54991},
+																									pos:   position{line: 1708, col: 9, offset: 55153},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1702, col: 18, offset: 55000},
+																										pos: position{line: 1708, col: 18, offset: 55162},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1702, col: 18, offset: 55000},
+																											pos: position{line: 1708, col: 18, offset: 55162},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1702, col: 18, offset: 55000},
+																												pos:        position{line: 1708, col: 18, offset: 55162},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28007,28 +28013,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28037,9 +28043,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -28060,40 +28066,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1511, col: 11, offset: 48876},
+										pos:  position{line: 1517, col: 11, offset: 49038},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2477, col: 22, offset: 79738},
+										pos: position{line: 2483, col: 22, offset: 79900},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2482, col: 31, offset: 79959},
+													pos:        position{line: 2488, col: 31, offset: 80121},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2482, col: 36, offset: 79964},
+													pos: position{line: 2488, col: 36, offset: 80126},
 													expr: &litMatcher{
-														pos:        position{line: 2482, col: 37, offset: 79965},
+														pos:        position{line: 2488, col: 37, offset: 80127},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 49, offset: 79765},
+													pos:   position{line: 2483, col: 49, offset: 79927},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2813, col: 13, offset: 89279},
+														pos: position{line: 2819, col: 13, offset: 89441},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 13, offset: 89279},
+																pos:        position{line: 2819, col: 13, offset: 89441},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28103,28 +28109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28133,9 +28139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -28144,32 +28150,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1519, col: 5, offset: 49140},
+										pos: position{line: 1525, col: 5, offset: 49302},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 5, offset: 49140},
+											pos: position{line: 1525, col: 5, offset: 49302},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49140},
+													pos: position{line: 1525, col: 5, offset: 49302},
 													expr: &actionExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 678, col: 14, offset: 21519},
+															pos: position{line: 684, col: 14, offset: 21681},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2884, col: 11, offset: 91087},
+																	pos: position{line: 2890, col: 11, offset: 91249},
 																	expr: &anyMatcher{
-																		line: 2884, col: 13, offset: 91089,
+																		line: 2890, col: 13, offset: 91251,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 678, col: 21, offset: 21526},
+																	pos: position{line: 684, col: 21, offset: 21688},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28178,28 +28184,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28208,9 +28214,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -28220,23 +28226,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49155},
+													pos: position{line: 1526, col: 5, offset: 49317},
 													expr: &seqExpr{
-														pos: position{line: 1550, col: 27, offset: 50060},
+														pos: position{line: 1556, col: 27, offset: 50222},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1550, col: 27, offset: 50060},
+																pos:        position{line: 1556, col: 27, offset: 50222},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1550, col: 31, offset: 50064},
+																pos: position{line: 1556, col: 31, offset: 50226},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28245,25 +28251,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28275,20 +28281,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49183},
+													pos: position{line: 1527, col: 5, offset: 49345},
 													expr: &actionExpr{
-														pos: position{line: 1591, col: 5, offset: 51254},
+														pos: position{line: 1597, col: 5, offset: 51416},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1591, col: 5, offset: 51254},
+															pos: position{line: 1597, col: 5, offset: 51416},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1591, col: 5, offset: 51254},
+																	pos: position{line: 1597, col: 5, offset: 51416},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28297,27 +28303,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1591, col: 12, offset: 51261},
+																	pos:   position{line: 1597, col: 12, offset: 51423},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1593, col: 9, offset: 51324},
+																		pos: position{line: 1599, col: 9, offset: 51486},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1593, col: 9, offset: 51324},
+																				pos: position{line: 1599, col: 9, offset: 51486},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1593, col: 9, offset: 51324},
+																					pos: position{line: 1599, col: 9, offset: 51486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1593, col: 9, offset: 51324},
+																							pos:   position{line: 1599, col: 9, offset: 51486},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1593, col: 16, offset: 51331},
+																								pos: position{line: 1599, col: 16, offset: 51493},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1593, col: 16, offset: 51331},
+																									pos: position{line: 1599, col: 16, offset: 51493},
 																									expr: &litMatcher{
-																										pos:        position{line: 1593, col: 17, offset: 51332},
+																										pos:        position{line: 1599, col: 17, offset: 51494},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28326,22 +28332,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1597, col: 9, offset: 51432},
+																							pos: position{line: 1603, col: 9, offset: 51594},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 11, offset: 52149},
+																				pos: position{line: 1622, col: 11, offset: 52311},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 11, offset: 52149},
+																					pos: position{line: 1622, col: 11, offset: 52311},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 11, offset: 52149},
+																							pos: position{line: 1622, col: 11, offset: 52311},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 12, offset: 52150},
+																								pos:        position{line: 1622, col: 12, offset: 52312},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28349,7 +28355,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 20, offset: 52158},
+																							pos:        position{line: 1622, col: 20, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28358,20 +28364,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52275},
+																				pos: position{line: 1624, col: 13, offset: 52437},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52275},
+																					pos: position{line: 1624, col: 13, offset: 52437},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52276},
+																							pos:        position{line: 1624, col: 14, offset: 52438},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52283},
+																							pos:        position{line: 1624, col: 21, offset: 52445},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28380,20 +28386,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52403},
+																				pos: position{line: 1626, col: 13, offset: 52565},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52403},
+																					pos: position{line: 1626, col: 13, offset: 52565},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1620, col: 14, offset: 52404},
+																							pos:        position{line: 1626, col: 14, offset: 52566},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 21, offset: 52411},
+																							pos:        position{line: 1626, col: 21, offset: 52573},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28402,15 +28408,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52531},
+																				pos: position{line: 1628, col: 13, offset: 52693},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52531},
+																					pos: position{line: 1628, col: 13, offset: 52693},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52531},
+																							pos: position{line: 1628, col: 13, offset: 52693},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52532},
+																								pos:        position{line: 1628, col: 14, offset: 52694},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28418,7 +28424,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52544},
+																							pos:        position{line: 1628, col: 26, offset: 52706},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28427,15 +28433,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52664},
+																				pos: position{line: 1630, col: 13, offset: 52826},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52664},
+																					pos: position{line: 1630, col: 13, offset: 52826},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 13, offset: 52664},
+																							pos: position{line: 1630, col: 13, offset: 52826},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 14, offset: 52665},
+																								pos:        position{line: 1630, col: 14, offset: 52827},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28443,7 +28449,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 26, offset: 52677},
+																							pos:        position{line: 1630, col: 26, offset: 52839},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28455,12 +28461,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28473,20 +28479,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49213},
+													pos: position{line: 1528, col: 5, offset: 49375},
 													expr: &actionExpr{
-														pos: position{line: 1641, col: 5, offset: 53216},
+														pos: position{line: 1647, col: 5, offset: 53378},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1641, col: 5, offset: 53216},
+															pos: position{line: 1647, col: 5, offset: 53378},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1641, col: 5, offset: 53216},
+																	pos: position{line: 1647, col: 5, offset: 53378},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28495,24 +28501,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1642, col: 5, offset: 53228},
+																	pos:   position{line: 1648, col: 5, offset: 53390},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1643, col: 9, offset: 53244},
+																		pos: position{line: 1649, col: 9, offset: 53406},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 10, offset: 53245},
+																			pos: position{line: 1649, col: 10, offset: 53407},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1643, col: 11, offset: 53246},
+																					pos:        position{line: 1649, col: 11, offset: 53408},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1643, col: 18, offset: 53253},
+																					pos: position{line: 1649, col: 18, offset: 53415},
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 19, offset: 53254},
+																						pos:        position{line: 1649, col: 19, offset: 53416},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28523,16 +28529,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1646, col: 7, offset: 53344},
+																	pos: position{line: 1652, col: 7, offset: 53506},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28545,29 +28551,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49245},
+													pos: position{line: 1529, col: 5, offset: 49407},
 													expr: &actionExpr{
-														pos: position{line: 1730, col: 5, offset: 55753},
+														pos: position{line: 1736, col: 5, offset: 55915},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1730, col: 5, offset: 55753},
+															pos: position{line: 1736, col: 5, offset: 55915},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1730, col: 5, offset: 55753},
+																	pos:        position{line: 1736, col: 5, offset: 55915},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1730, col: 9, offset: 55757},
+																	pos:   position{line: 1736, col: 9, offset: 55919},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1730, col: 14, offset: 55762},
+																		pos: position{line: 1736, col: 14, offset: 55924},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1730, col: 14, offset: 55762},
+																			pos: position{line: 1736, col: 14, offset: 55924},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1730, col: 14, offset: 55762},
+																				pos:        position{line: 1736, col: 14, offset: 55924},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28577,18 +28583,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1730, col: 62, offset: 55810},
+																	pos:        position{line: 1736, col: 62, offset: 55972},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28601,36 +28607,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49275},
+													pos: position{line: 1530, col: 5, offset: 49437},
 													expr: &seqExpr{
-														pos: position{line: 1524, col: 7, offset: 49277},
+														pos: position{line: 1530, col: 7, offset: 49439},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1676, col: 5, offset: 54235},
+																pos: position{line: 1682, col: 5, offset: 54397},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1676, col: 5, offset: 54235},
+																	pos: position{line: 1682, col: 5, offset: 54397},
 																	expr: &seqExpr{
-																		pos: position{line: 1676, col: 6, offset: 54236},
+																		pos: position{line: 1682, col: 6, offset: 54398},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1676, col: 6, offset: 54236},
+																				pos: position{line: 1682, col: 6, offset: 54398},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54386},
+																					pos: position{line: 1687, col: 5, offset: 54548},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54386},
+																						pos: position{line: 1687, col: 5, offset: 54548},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 5, offset: 54386},
+																								pos:   position{line: 1687, col: 5, offset: 54548},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1681, col: 16, offset: 54397},
+																									pos: position{line: 1687, col: 16, offset: 54559},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1681, col: 16, offset: 54397},
+																										pos: position{line: 1687, col: 16, offset: 54559},
 																										expr: &litMatcher{
-																											pos:        position{line: 1681, col: 17, offset: 54398},
+																											pos:        position{line: 1687, col: 17, offset: 54560},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28639,7 +28645,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1684, col: 5, offset: 54455},
+																								pos: position{line: 1690, col: 5, offset: 54617},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28647,30 +28653,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1676, col: 35, offset: 54265},
+																				pos: position{line: 1682, col: 35, offset: 54427},
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28679,37 +28685,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1676, col: 40, offset: 54270,
+																				line: 1682, col: 40, offset: 54432,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1681, col: 5, offset: 54386},
+																pos: position{line: 1687, col: 5, offset: 54548},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 5, offset: 54386},
+																	pos: position{line: 1687, col: 5, offset: 54548},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1681, col: 5, offset: 54386},
+																			pos:   position{line: 1687, col: 5, offset: 54548},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1681, col: 16, offset: 54397},
+																				pos: position{line: 1687, col: 16, offset: 54559},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1681, col: 16, offset: 54397},
+																					pos: position{line: 1687, col: 16, offset: 54559},
 																					expr: &litMatcher{
-																						pos:        position{line: 1681, col: 17, offset: 54398},
+																						pos:        position{line: 1687, col: 17, offset: 54560},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28718,20 +28724,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1684, col: 5, offset: 54455},
+																			pos: position{line: 1690, col: 5, offset: 54617},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1524, col: 59, offset: 49329},
+																pos: position{line: 1530, col: 59, offset: 49491},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28739,25 +28745,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28766,9 +28772,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -28777,20 +28783,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49347},
+													pos: position{line: 1531, col: 5, offset: 49509},
 													expr: &choiceExpr{
-														pos: position{line: 1525, col: 7, offset: 49349},
+														pos: position{line: 1531, col: 7, offset: 49511},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 725, col: 5, offset: 23091},
+																pos: position{line: 731, col: 5, offset: 23253},
 																run: (*parser).callonExtraListElement632,
 																expr: &seqExpr{
-																	pos: position{line: 725, col: 5, offset: 23091},
+																	pos: position{line: 731, col: 5, offset: 23253},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 725, col: 5, offset: 23091},
+																			pos: position{line: 731, col: 5, offset: 23253},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2757, col: 13, offset: 87848},
+																				pos:        position{line: 2763, col: 13, offset: 88010},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28798,36 +28804,36 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 726, col: 5, offset: 23121},
+																			pos:   position{line: 732, col: 5, offset: 23283},
 																			label: "delimiter",
 																			expr: &choiceExpr{
-																				pos: position{line: 727, col: 9, offset: 23141},
+																				pos: position{line: 733, col: 9, offset: 23303},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 741, col: 5, offset: 23633},
+																						pos: position{line: 747, col: 5, offset: 23795},
 																						run: (*parser).callonExtraListElement638,
 																						expr: &seqExpr{
-																							pos: position{line: 741, col: 5, offset: 23633},
+																							pos: position{line: 747, col: 5, offset: 23795},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 741, col: 5, offset: 23633},
+																									pos:   position{line: 747, col: 5, offset: 23795},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 741, col: 16, offset: 23644},
+																										pos: position{line: 747, col: 16, offset: 23806},
 																										run: (*parser).callonExtraListElement641,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 16, offset: 23644},
+																											pos: position{line: 747, col: 16, offset: 23806},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 741, col: 16, offset: 23644},
+																													pos:        position{line: 747, col: 16, offset: 23806},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 23, offset: 23651},
+																													pos: position{line: 747, col: 23, offset: 23813},
 																													expr: &litMatcher{
-																														pos:        position{line: 741, col: 23, offset: 23651},
+																														pos:        position{line: 747, col: 23, offset: 23813},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -28838,12 +28844,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 743, col: 8, offset: 23735},
+																									pos: position{line: 749, col: 8, offset: 23897},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28852,28 +28858,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28882,9 +28888,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -28893,30 +28899,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 748, col: 5, offset: 23881},
+																						pos: position{line: 754, col: 5, offset: 24043},
 																						run: (*parser).callonExtraListElement657,
 																						expr: &seqExpr{
-																							pos: position{line: 748, col: 5, offset: 23881},
+																							pos: position{line: 754, col: 5, offset: 24043},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 748, col: 5, offset: 23881},
+																									pos:   position{line: 754, col: 5, offset: 24043},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 748, col: 16, offset: 23892},
+																										pos: position{line: 754, col: 16, offset: 24054},
 																										run: (*parser).callonExtraListElement660,
 																										expr: &seqExpr{
-																											pos: position{line: 748, col: 16, offset: 23892},
+																											pos: position{line: 754, col: 16, offset: 24054},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 748, col: 16, offset: 23892},
+																													pos:        position{line: 754, col: 16, offset: 24054},
 																													val:        "====",
 																													ignoreCase: false,
 																													want:       "\"====\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 748, col: 23, offset: 23899},
+																													pos: position{line: 754, col: 23, offset: 24061},
 																													expr: &litMatcher{
-																														pos:        position{line: 748, col: 23, offset: 23899},
+																														pos:        position{line: 754, col: 23, offset: 24061},
 																														val:        "=",
 																														ignoreCase: false,
 																														want:       "\"=\"",
@@ -28927,12 +28933,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 750, col: 8, offset: 23983},
+																									pos: position{line: 756, col: 8, offset: 24145},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28941,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28971,9 +28977,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -28982,27 +28988,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 761, col: 26, offset: 24369},
+																						pos: position{line: 767, col: 26, offset: 24531},
 																						run: (*parser).callonExtraListElement676,
 																						expr: &seqExpr{
-																							pos: position{line: 761, col: 26, offset: 24369},
+																							pos: position{line: 767, col: 26, offset: 24531},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 761, col: 26, offset: 24369},
+																									pos:        position{line: 767, col: 26, offset: 24531},
 																									val:        "```",
 																									ignoreCase: false,
 																									want:       "\"```\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 761, col: 32, offset: 24375},
+																									pos:   position{line: 767, col: 32, offset: 24537},
 																									label: "language",
 																									expr: &actionExpr{
-																										pos: position{line: 765, col: 13, offset: 24505},
+																										pos: position{line: 771, col: 13, offset: 24667},
 																										run: (*parser).callonExtraListElement680,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 765, col: 14, offset: 24506},
+																											pos: position{line: 771, col: 14, offset: 24668},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 765, col: 14, offset: 24506},
+																												pos:        position{line: 771, col: 14, offset: 24668},
 																												val:        "[^\\r\\n` ]",
 																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
@@ -29012,12 +29018,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 761, col: 52, offset: 24395},
+																									pos: position{line: 767, col: 52, offset: 24557},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29026,28 +29032,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29056,9 +29062,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29067,30 +29073,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 755, col: 5, offset: 24128},
+																						pos: position{line: 761, col: 5, offset: 24290},
 																						run: (*parser).callonExtraListElement694,
 																						expr: &seqExpr{
-																							pos: position{line: 755, col: 5, offset: 24128},
+																							pos: position{line: 761, col: 5, offset: 24290},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 755, col: 5, offset: 24128},
+																									pos:   position{line: 761, col: 5, offset: 24290},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 755, col: 16, offset: 24139},
+																										pos: position{line: 761, col: 16, offset: 24301},
 																										run: (*parser).callonExtraListElement697,
 																										expr: &seqExpr{
-																											pos: position{line: 755, col: 16, offset: 24139},
+																											pos: position{line: 761, col: 16, offset: 24301},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 755, col: 16, offset: 24139},
+																													pos:        position{line: 761, col: 16, offset: 24301},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 755, col: 22, offset: 24145},
+																													pos: position{line: 761, col: 22, offset: 24307},
 																													expr: &litMatcher{
-																														pos:        position{line: 755, col: 22, offset: 24145},
+																														pos:        position{line: 761, col: 22, offset: 24307},
 																														val:        "`",
 																														ignoreCase: false,
 																														want:       "\"`\"",
@@ -29101,12 +29107,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 757, col: 8, offset: 24229},
+																									pos: position{line: 763, col: 8, offset: 24391},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29115,28 +29121,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29145,9 +29151,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29156,30 +29162,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 770, col: 5, offset: 24665},
+																						pos: position{line: 776, col: 5, offset: 24827},
 																						run: (*parser).callonExtraListElement713,
 																						expr: &seqExpr{
-																							pos: position{line: 770, col: 5, offset: 24665},
+																							pos: position{line: 776, col: 5, offset: 24827},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 770, col: 5, offset: 24665},
+																									pos:   position{line: 776, col: 5, offset: 24827},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 770, col: 16, offset: 24676},
+																										pos: position{line: 776, col: 16, offset: 24838},
 																										run: (*parser).callonExtraListElement716,
 																										expr: &seqExpr{
-																											pos: position{line: 770, col: 16, offset: 24676},
+																											pos: position{line: 776, col: 16, offset: 24838},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 770, col: 16, offset: 24676},
+																													pos:        position{line: 776, col: 16, offset: 24838},
 																													val:        "----",
 																													ignoreCase: false,
 																													want:       "\"----\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 770, col: 23, offset: 24683},
+																													pos: position{line: 776, col: 23, offset: 24845},
 																													expr: &litMatcher{
-																														pos:        position{line: 770, col: 23, offset: 24683},
+																														pos:        position{line: 776, col: 23, offset: 24845},
 																														val:        "-",
 																														ignoreCase: false,
 																														want:       "\"-\"",
@@ -29190,12 +29196,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 772, col: 8, offset: 24767},
+																									pos: position{line: 778, col: 8, offset: 24929},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29204,28 +29210,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29234,9 +29240,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29245,30 +29251,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 784, col: 5, offset: 25141},
+																						pos: position{line: 790, col: 5, offset: 25303},
 																						run: (*parser).callonExtraListElement732,
 																						expr: &seqExpr{
-																							pos: position{line: 784, col: 5, offset: 25141},
+																							pos: position{line: 790, col: 5, offset: 25303},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 784, col: 5, offset: 25141},
+																									pos:   position{line: 790, col: 5, offset: 25303},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 784, col: 16, offset: 25152},
+																										pos: position{line: 790, col: 16, offset: 25314},
 																										run: (*parser).callonExtraListElement735,
 																										expr: &seqExpr{
-																											pos: position{line: 784, col: 16, offset: 25152},
+																											pos: position{line: 790, col: 16, offset: 25314},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 784, col: 16, offset: 25152},
+																													pos:        position{line: 790, col: 16, offset: 25314},
 																													val:        "....",
 																													ignoreCase: false,
 																													want:       "\"....\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 784, col: 23, offset: 25159},
+																													pos: position{line: 790, col: 23, offset: 25321},
 																													expr: &litMatcher{
-																														pos:        position{line: 784, col: 23, offset: 25159},
+																														pos:        position{line: 790, col: 23, offset: 25321},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -29279,12 +29285,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 786, col: 8, offset: 25243},
+																									pos: position{line: 792, col: 8, offset: 25405},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29293,28 +29299,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29323,9 +29329,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29334,30 +29340,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 791, col: 5, offset: 25393},
+																						pos: position{line: 797, col: 5, offset: 25555},
 																						run: (*parser).callonExtraListElement751,
 																						expr: &seqExpr{
-																							pos: position{line: 791, col: 5, offset: 25393},
+																							pos: position{line: 797, col: 5, offset: 25555},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 791, col: 5, offset: 25393},
+																									pos:   position{line: 797, col: 5, offset: 25555},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 791, col: 16, offset: 25404},
+																										pos: position{line: 797, col: 16, offset: 25566},
 																										run: (*parser).callonExtraListElement754,
 																										expr: &seqExpr{
-																											pos: position{line: 791, col: 16, offset: 25404},
+																											pos: position{line: 797, col: 16, offset: 25566},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 791, col: 16, offset: 25404},
+																													pos:        position{line: 797, col: 16, offset: 25566},
 																													val:        "++++",
 																													ignoreCase: false,
 																													want:       "\"++++\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 791, col: 23, offset: 25411},
+																													pos: position{line: 797, col: 23, offset: 25573},
 																													expr: &litMatcher{
-																														pos:        position{line: 791, col: 23, offset: 25411},
+																														pos:        position{line: 797, col: 23, offset: 25573},
 																														val:        "+",
 																														ignoreCase: false,
 																														want:       "\"+\"",
@@ -29368,12 +29374,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 793, col: 8, offset: 25495},
+																									pos: position{line: 799, col: 8, offset: 25657},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29382,28 +29388,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29412,9 +29418,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29423,30 +29429,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 798, col: 5, offset: 25643},
+																						pos: position{line: 804, col: 5, offset: 25805},
 																						run: (*parser).callonExtraListElement770,
 																						expr: &seqExpr{
-																							pos: position{line: 798, col: 5, offset: 25643},
+																							pos: position{line: 804, col: 5, offset: 25805},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 798, col: 5, offset: 25643},
+																									pos:   position{line: 804, col: 5, offset: 25805},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 798, col: 16, offset: 25654},
+																										pos: position{line: 804, col: 16, offset: 25816},
 																										run: (*parser).callonExtraListElement773,
 																										expr: &seqExpr{
-																											pos: position{line: 798, col: 16, offset: 25654},
+																											pos: position{line: 804, col: 16, offset: 25816},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 798, col: 16, offset: 25654},
+																													pos:        position{line: 804, col: 16, offset: 25816},
 																													val:        "____",
 																													ignoreCase: false,
 																													want:       "\"____\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 798, col: 23, offset: 25661},
+																													pos: position{line: 804, col: 23, offset: 25823},
 																													expr: &litMatcher{
-																														pos:        position{line: 798, col: 23, offset: 25661},
+																														pos:        position{line: 804, col: 23, offset: 25823},
 																														val:        "_",
 																														ignoreCase: false,
 																														want:       "\"_\"",
@@ -29457,12 +29463,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 800, col: 8, offset: 25745},
+																									pos: position{line: 806, col: 8, offset: 25907},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29471,28 +29477,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29501,9 +29507,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29512,30 +29518,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 805, col: 5, offset: 25889},
+																						pos: position{line: 811, col: 5, offset: 26051},
 																						run: (*parser).callonExtraListElement789,
 																						expr: &seqExpr{
-																							pos: position{line: 805, col: 5, offset: 25889},
+																							pos: position{line: 811, col: 5, offset: 26051},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 805, col: 5, offset: 25889},
+																									pos:   position{line: 811, col: 5, offset: 26051},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 805, col: 16, offset: 25900},
+																										pos: position{line: 811, col: 16, offset: 26062},
 																										run: (*parser).callonExtraListElement792,
 																										expr: &seqExpr{
-																											pos: position{line: 805, col: 16, offset: 25900},
+																											pos: position{line: 811, col: 16, offset: 26062},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 805, col: 16, offset: 25900},
+																													pos:        position{line: 811, col: 16, offset: 26062},
 																													val:        "****",
 																													ignoreCase: false,
 																													want:       "\"****\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 805, col: 23, offset: 25907},
+																													pos: position{line: 811, col: 23, offset: 26069},
 																													expr: &litMatcher{
-																														pos:        position{line: 805, col: 23, offset: 25907},
+																														pos:        position{line: 811, col: 23, offset: 26069},
 																														val:        "*",
 																														ignoreCase: false,
 																														want:       "\"*\"",
@@ -29546,12 +29552,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 807, col: 8, offset: 25991},
+																									pos: position{line: 813, col: 8, offset: 26153},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29560,28 +29566,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29590,9 +29596,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -29607,19 +29613,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 777, col: 5, offset: 24910},
+																pos: position{line: 783, col: 5, offset: 25072},
 																run: (*parser).callonExtraListElement808,
 																expr: &seqExpr{
-																	pos: position{line: 777, col: 5, offset: 24910},
+																	pos: position{line: 783, col: 5, offset: 25072},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 777, col: 5, offset: 24910},
+																			pos:   position{line: 783, col: 5, offset: 25072},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 777, col: 16, offset: 24921},
+																				pos: position{line: 783, col: 16, offset: 25083},
 																				run: (*parser).callonExtraListElement811,
 																				expr: &litMatcher{
-																					pos:        position{line: 777, col: 16, offset: 24921},
+																					pos:        position{line: 783, col: 16, offset: 25083},
 																					val:        "--",
 																					ignoreCase: false,
 																					want:       "\"--\"",
@@ -29627,12 +29633,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 779, col: 8, offset: 24998},
+																			pos: position{line: 785, col: 8, offset: 25160},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29641,28 +29647,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29671,9 +29677,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -29682,21 +29688,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2609, col: 19, offset: 83436},
+																pos: position{line: 2615, col: 19, offset: 83598},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2609, col: 19, offset: 83436},
+																		pos:        position{line: 2615, col: 19, offset: 83598},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2609, col: 26, offset: 83443},
+																		pos: position{line: 2615, col: 26, offset: 83605},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29705,28 +29711,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29735,9 +29741,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -29748,15 +29754,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1526, col: 5, offset: 49407},
+													pos:   position{line: 1532, col: 5, offset: 49569},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2817, col: 14, offset: 89346},
+														pos: position{line: 2823, col: 14, offset: 89508},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2817, col: 14, offset: 89346},
+															pos: position{line: 2823, col: 14, offset: 89508},
 															expr: &charClassMatcher{
-																pos:        position{line: 2817, col: 14, offset: 89346},
+																pos:        position{line: 2823, col: 14, offset: 89508},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29766,28 +29772,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29796,9 +29802,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -29815,28 +29821,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1542, col: 1, offset: 49798},
+			pos:  position{line: 1548, col: 1, offset: 49960},
 			expr: &actionExpr{
-				pos: position{line: 1543, col: 5, offset: 49823},
+				pos: position{line: 1549, col: 5, offset: 49985},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1543, col: 5, offset: 49823},
+					pos: position{line: 1549, col: 5, offset: 49985},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1543, col: 5, offset: 49823},
+							pos:   position{line: 1549, col: 5, offset: 49985},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1543, col: 12, offset: 49830},
+								pos: position{line: 1549, col: 12, offset: 49992},
 								expr: &seqExpr{
-									pos: position{line: 1543, col: 13, offset: 49831},
+									pos: position{line: 1549, col: 13, offset: 49993},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1543, col: 13, offset: 49831},
+											pos: position{line: 1549, col: 13, offset: 49993},
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 10, offset: 90753},
+												pos: position{line: 2873, col: 10, offset: 90915},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2867, col: 10, offset: 90753},
+													pos:        position{line: 2873, col: 10, offset: 90915},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29845,25 +29851,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2876, col: 12, offset: 90924},
+											pos: position{line: 2882, col: 12, offset: 91086},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2876, col: 13, offset: 90925},
+												pos: position{line: 2882, col: 13, offset: 91087},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2876, col: 13, offset: 90925},
+														pos:        position{line: 2882, col: 13, offset: 91087},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2876, col: 20, offset: 90932},
+														pos:        position{line: 2882, col: 20, offset: 91094},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2876, col: 29, offset: 90941},
+														pos:        position{line: 2882, col: 29, offset: 91103},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29876,18 +29882,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1544, col: 5, offset: 49853},
+							pos:        position{line: 1550, col: 5, offset: 50015},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1544, col: 9, offset: 49857},
+							pos: position{line: 1550, col: 9, offset: 50019},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29896,28 +29902,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29926,45 +29932,45 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1545, col: 5, offset: 49872},
+							pos:   position{line: 1551, col: 5, offset: 50034},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1545, col: 13, offset: 49880},
+								pos: position{line: 1551, col: 13, offset: 50042},
 								expr: &actionExpr{
-									pos: position{line: 1545, col: 14, offset: 49881},
+									pos: position{line: 1551, col: 14, offset: 50043},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1545, col: 14, offset: 49881},
+										pos: position{line: 1551, col: 14, offset: 50043},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1545, col: 14, offset: 49881},
+												pos: position{line: 1551, col: 14, offset: 50043},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonListContinuation31,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29973,28 +29979,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30003,9 +30009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -30015,10 +30021,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1545, col: 25, offset: 49892},
+												pos:   position{line: 1551, col: 25, offset: 50054},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1545, col: 27, offset: 49894},
+													pos:  position{line: 1551, col: 27, offset: 50056},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30033,46 +30039,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1552, col: 1, offset: 50080},
+			pos:  position{line: 1558, col: 1, offset: 50242},
 			expr: &actionExpr{
-				pos: position{line: 1553, col: 5, offset: 50126},
+				pos: position{line: 1559, col: 5, offset: 50288},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1553, col: 5, offset: 50126},
+					pos: position{line: 1559, col: 5, offset: 50288},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1554, col: 5, offset: 50154},
+							pos: position{line: 1560, col: 5, offset: 50316},
 							expr: &choiceExpr{
-								pos: position{line: 1491, col: 5, offset: 48072},
+								pos: position{line: 1497, col: 5, offset: 48234},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1584, col: 5, offset: 51046},
+										pos: position{line: 1590, col: 5, offset: 51208},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1584, col: 5, offset: 51046},
+											pos: position{line: 1590, col: 5, offset: 51208},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1584, col: 5, offset: 51046},
+													pos:   position{line: 1590, col: 5, offset: 51208},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1591, col: 5, offset: 51254},
+														pos: position{line: 1597, col: 5, offset: 51416},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1591, col: 5, offset: 51254},
+															pos: position{line: 1597, col: 5, offset: 51416},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1591, col: 5, offset: 51254},
+																	pos: position{line: 1597, col: 5, offset: 51416},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30081,27 +30087,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1591, col: 12, offset: 51261},
+																	pos:   position{line: 1597, col: 12, offset: 51423},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1593, col: 9, offset: 51324},
+																		pos: position{line: 1599, col: 9, offset: 51486},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1593, col: 9, offset: 51324},
+																				pos: position{line: 1599, col: 9, offset: 51486},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1593, col: 9, offset: 51324},
+																					pos: position{line: 1599, col: 9, offset: 51486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1593, col: 9, offset: 51324},
+																							pos:   position{line: 1599, col: 9, offset: 51486},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1593, col: 16, offset: 51331},
+																								pos: position{line: 1599, col: 16, offset: 51493},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1593, col: 16, offset: 51331},
+																									pos: position{line: 1599, col: 16, offset: 51493},
 																									expr: &litMatcher{
-																										pos:        position{line: 1593, col: 17, offset: 51332},
+																										pos:        position{line: 1599, col: 17, offset: 51494},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30110,22 +30116,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1597, col: 9, offset: 51432},
+																							pos: position{line: 1603, col: 9, offset: 51594},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 11, offset: 52149},
+																				pos: position{line: 1622, col: 11, offset: 52311},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 11, offset: 52149},
+																					pos: position{line: 1622, col: 11, offset: 52311},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 11, offset: 52149},
+																							pos: position{line: 1622, col: 11, offset: 52311},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 12, offset: 52150},
+																								pos:        position{line: 1622, col: 12, offset: 52312},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30133,7 +30139,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 20, offset: 52158},
+																							pos:        position{line: 1622, col: 20, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30142,20 +30148,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52275},
+																				pos: position{line: 1624, col: 13, offset: 52437},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52275},
+																					pos: position{line: 1624, col: 13, offset: 52437},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52276},
+																							pos:        position{line: 1624, col: 14, offset: 52438},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52283},
+																							pos:        position{line: 1624, col: 21, offset: 52445},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30164,20 +30170,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52403},
+																				pos: position{line: 1626, col: 13, offset: 52565},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52403},
+																					pos: position{line: 1626, col: 13, offset: 52565},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1620, col: 14, offset: 52404},
+																							pos:        position{line: 1626, col: 14, offset: 52566},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 21, offset: 52411},
+																							pos:        position{line: 1626, col: 21, offset: 52573},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30186,15 +30192,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52531},
+																				pos: position{line: 1628, col: 13, offset: 52693},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52531},
+																					pos: position{line: 1628, col: 13, offset: 52693},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52531},
+																							pos: position{line: 1628, col: 13, offset: 52693},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52532},
+																								pos:        position{line: 1628, col: 14, offset: 52694},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30202,7 +30208,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52544},
+																							pos:        position{line: 1628, col: 26, offset: 52706},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30211,15 +30217,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52664},
+																				pos: position{line: 1630, col: 13, offset: 52826},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52664},
+																					pos: position{line: 1630, col: 13, offset: 52826},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 13, offset: 52664},
+																							pos: position{line: 1630, col: 13, offset: 52826},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 14, offset: 52665},
+																								pos:        position{line: 1630, col: 14, offset: 52827},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30227,7 +30233,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 26, offset: 52677},
+																							pos:        position{line: 1630, col: 26, offset: 52839},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30239,12 +30245,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30257,26 +30263,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51085},
+													pos:   position{line: 1591, col: 5, offset: 51247},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30287,28 +30293,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30317,9 +30323,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -30332,27 +30338,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1634, col: 5, offset: 52943},
+										pos: position{line: 1640, col: 5, offset: 53105},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1634, col: 5, offset: 52943},
+											pos: position{line: 1640, col: 5, offset: 53105},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 52943},
+													pos:   position{line: 1640, col: 5, offset: 53105},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1641, col: 5, offset: 53216},
+														pos: position{line: 1647, col: 5, offset: 53378},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1641, col: 5, offset: 53216},
+															pos: position{line: 1647, col: 5, offset: 53378},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1641, col: 5, offset: 53216},
+																	pos: position{line: 1647, col: 5, offset: 53378},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30361,24 +30367,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1642, col: 5, offset: 53228},
+																	pos:   position{line: 1648, col: 5, offset: 53390},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1643, col: 9, offset: 53244},
+																		pos: position{line: 1649, col: 9, offset: 53406},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 10, offset: 53245},
+																			pos: position{line: 1649, col: 10, offset: 53407},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1643, col: 11, offset: 53246},
+																					pos:        position{line: 1649, col: 11, offset: 53408},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1643, col: 18, offset: 53253},
+																					pos: position{line: 1649, col: 18, offset: 53415},
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 19, offset: 53254},
+																						pos:        position{line: 1649, col: 19, offset: 53416},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30389,16 +30395,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1646, col: 7, offset: 53344},
+																	pos: position{line: 1652, col: 7, offset: 53506},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30411,56 +30417,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 52984},
+													pos:   position{line: 1641, col: 5, offset: 53146},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1635, col: 16, offset: 52995},
+														pos: position{line: 1641, col: 16, offset: 53157},
 														expr: &actionExpr{
-															pos: position{line: 1656, col: 5, offset: 53609},
+															pos: position{line: 1662, col: 5, offset: 53771},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1656, col: 5, offset: 53609},
+																pos: position{line: 1662, col: 5, offset: 53771},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1656, col: 5, offset: 53609},
+																		pos: position{line: 1662, col: 5, offset: 53771},
 																		expr: &litMatcher{
-																			pos:        position{line: 1656, col: 6, offset: 53610},
+																			pos:        position{line: 1662, col: 6, offset: 53772},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1656, col: 10, offset: 53614},
+																		pos:   position{line: 1662, col: 10, offset: 53776},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1657, col: 7, offset: 53628},
+																			pos: position{line: 1663, col: 7, offset: 53790},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53628},
+																					pos: position{line: 1663, col: 7, offset: 53790},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53628},
+																						pos:        position{line: 1663, col: 7, offset: 53790},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53673},
+																					pos: position{line: 1664, col: 7, offset: 53835},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53673},
+																						pos:        position{line: 1664, col: 7, offset: 53835},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53716},
+																					pos: position{line: 1665, col: 7, offset: 53878},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53716},
+																						pos:        position{line: 1665, col: 7, offset: 53878},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30470,12 +30476,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2871, col: 11, offset: 90814},
+																			pos: position{line: 2877, col: 11, offset: 90976},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90814},
+																				pos:        position{line: 2877, col: 11, offset: 90976},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30489,26 +30495,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53034},
+													pos:   position{line: 1642, col: 5, offset: 53196},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30519,28 +30525,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30549,9 +30555,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -30564,36 +30570,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1724, col: 5, offset: 55556},
+										pos: position{line: 1730, col: 5, offset: 55718},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1724, col: 5, offset: 55556},
+											pos: position{line: 1730, col: 5, offset: 55718},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55556},
+													pos:   position{line: 1730, col: 5, offset: 55718},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1730, col: 5, offset: 55753},
+														pos: position{line: 1736, col: 5, offset: 55915},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1730, col: 5, offset: 55753},
+															pos: position{line: 1736, col: 5, offset: 55915},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1730, col: 5, offset: 55753},
+																	pos:        position{line: 1736, col: 5, offset: 55915},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1730, col: 9, offset: 55757},
+																	pos:   position{line: 1736, col: 9, offset: 55919},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1730, col: 14, offset: 55762},
+																		pos: position{line: 1736, col: 14, offset: 55924},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1730, col: 14, offset: 55762},
+																			pos: position{line: 1736, col: 14, offset: 55924},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1730, col: 14, offset: 55762},
+																				pos:        position{line: 1736, col: 14, offset: 55924},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30603,18 +30609,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1730, col: 62, offset: 55810},
+																	pos:        position{line: 1736, col: 62, offset: 55972},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30627,26 +30633,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1725, col: 5, offset: 55592},
+													pos:   position{line: 1731, col: 5, offset: 55754},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1532, col: 5, offset: 49552},
+														pos: position{line: 1538, col: 5, offset: 49714},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1532, col: 5, offset: 49552},
+															pos: position{line: 1538, col: 5, offset: 49714},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49552},
+																	pos:   position{line: 1538, col: 5, offset: 49714},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1532, col: 14, offset: 49561},
+																		pos: position{line: 1538, col: 14, offset: 49723},
 																		expr: &actionExpr{
-																			pos: position{line: 1532, col: 15, offset: 49562},
+																			pos: position{line: 1538, col: 15, offset: 49724},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1532, col: 15, offset: 49562},
+																				pos: position{line: 1538, col: 15, offset: 49724},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1532, col: 15, offset: 49562},
+																					pos:        position{line: 1538, col: 15, offset: 49724},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30657,28 +30663,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30687,9 +30693,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -30702,40 +30708,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1668, col: 5, offset: 53909},
+										pos: position{line: 1674, col: 5, offset: 54071},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1668, col: 5, offset: 53909},
+											pos: position{line: 1674, col: 5, offset: 54071},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53909},
+													pos:   position{line: 1674, col: 5, offset: 54071},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1676, col: 5, offset: 54235},
+														pos: position{line: 1682, col: 5, offset: 54397},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1676, col: 5, offset: 54235},
+															pos: position{line: 1682, col: 5, offset: 54397},
 															expr: &seqExpr{
-																pos: position{line: 1676, col: 6, offset: 54236},
+																pos: position{line: 1682, col: 6, offset: 54398},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1676, col: 6, offset: 54236},
+																		pos: position{line: 1682, col: 6, offset: 54398},
 																		expr: &actionExpr{
-																			pos: position{line: 1681, col: 5, offset: 54386},
+																			pos: position{line: 1687, col: 5, offset: 54548},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1681, col: 5, offset: 54386},
+																				pos: position{line: 1687, col: 5, offset: 54548},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1681, col: 5, offset: 54386},
+																						pos:   position{line: 1687, col: 5, offset: 54548},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1681, col: 16, offset: 54397},
+																							pos: position{line: 1687, col: 16, offset: 54559},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1681, col: 16, offset: 54397},
+																								pos: position{line: 1687, col: 16, offset: 54559},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 17, offset: 54398},
+																									pos:        position{line: 1687, col: 17, offset: 54560},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30744,7 +30750,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1684, col: 5, offset: 54455},
+																						pos: position{line: 1690, col: 5, offset: 54617},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30752,30 +30758,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1676, col: 35, offset: 54265},
+																		pos: position{line: 1682, col: 35, offset: 54427},
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30784,16 +30790,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1676, col: 40, offset: 54270,
+																		line: 1682, col: 40, offset: 54432,
 																	},
 																},
 															},
@@ -30801,24 +30807,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 53944},
+													pos:   position{line: 1675, col: 5, offset: 54106},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1681, col: 5, offset: 54386},
+														pos: position{line: 1687, col: 5, offset: 54548},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1681, col: 5, offset: 54386},
+															pos: position{line: 1687, col: 5, offset: 54548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1681, col: 5, offset: 54386},
+																	pos:   position{line: 1687, col: 5, offset: 54548},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1681, col: 16, offset: 54397},
+																		pos: position{line: 1687, col: 16, offset: 54559},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1681, col: 16, offset: 54397},
+																			pos: position{line: 1687, col: 16, offset: 54559},
 																			expr: &litMatcher{
-																				pos:        position{line: 1681, col: 17, offset: 54398},
+																				pos:        position{line: 1687, col: 17, offset: 54560},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30827,7 +30833,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1684, col: 5, offset: 54455},
+																	pos: position{line: 1690, col: 5, offset: 54617},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30835,24 +30841,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 53989},
+													pos:   position{line: 1676, col: 5, offset: 54151},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1692, col: 5, offset: 54704},
+														pos: position{line: 1698, col: 5, offset: 54866},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54770},
+																pos: position{line: 1700, col: 9, offset: 54932},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54770},
+																	pos: position{line: 1700, col: 9, offset: 54932},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54770},
+																			pos: position{line: 1700, col: 9, offset: 54932},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30861,28 +30867,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30891,34 +30897,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1695, col: 9, offset: 54789},
+																			pos: position{line: 1701, col: 9, offset: 54951},
 																			expr: &actionExpr{
-																				pos: position{line: 678, col: 14, offset: 21519},
+																				pos: position{line: 684, col: 14, offset: 21681},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 14, offset: 21519},
+																					pos: position{line: 684, col: 14, offset: 21681},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2884, col: 11, offset: 91087},
+																							pos: position{line: 2890, col: 11, offset: 91249},
 																							expr: &anyMatcher{
-																								line: 2884, col: 13, offset: 91089,
+																								line: 2890, col: 13, offset: 91251,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 678, col: 21, offset: 21526},
+																							pos: position{line: 684, col: 21, offset: 21688},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30927,28 +30933,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30957,9 +30963,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -30972,18 +30978,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1701, col: 9, offset: 54918},
+																pos: position{line: 1707, col: 9, offset: 55080},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1701, col: 9, offset: 54918},
+																	pos: position{line: 1707, col: 9, offset: 55080},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90814},
+																			pos: position{line: 2877, col: 11, offset: 90976},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2871, col: 11, offset: 90814},
+																				pos: position{line: 2877, col: 11, offset: 90976},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 90814},
+																					pos:        position{line: 2877, col: 11, offset: 90976},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30992,15 +30998,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1702, col: 9, offset: 54991},
+																			pos:   position{line: 1708, col: 9, offset: 55153},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1702, col: 18, offset: 55000},
+																				pos: position{line: 1708, col: 18, offset: 55162},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1702, col: 18, offset: 55000},
+																					pos: position{line: 1708, col: 18, offset: 55162},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1702, col: 18, offset: 55000},
+																						pos:        position{line: 1708, col: 18, offset: 55162},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31010,28 +31016,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31040,9 +31046,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -31060,41 +31066,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1555, col: 5, offset: 50171},
+							pos:   position{line: 1561, col: 5, offset: 50333},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1555, col: 16, offset: 50182},
+								pos: position{line: 1561, col: 16, offset: 50344},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1555, col: 17, offset: 50183},
+									pos:  position{line: 1561, col: 17, offset: 50345},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1556, col: 5, offset: 50205},
+							pos:   position{line: 1562, col: 5, offset: 50367},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1557, col: 9, offset: 50223},
+								pos: position{line: 1563, col: 9, offset: 50385},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 678, col: 14, offset: 21519},
+										pos: position{line: 684, col: 14, offset: 21681},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 678, col: 14, offset: 21519},
+											pos: position{line: 684, col: 14, offset: 21681},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2884, col: 11, offset: 91087},
+													pos: position{line: 2890, col: 11, offset: 91249},
 													expr: &anyMatcher{
-														line: 2884, col: 13, offset: 91089,
+														line: 2890, col: 13, offset: 91251,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 678, col: 21, offset: 21526},
+													pos: position{line: 684, col: 21, offset: 21688},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31103,28 +31109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31133,9 +31139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -31144,7 +31150,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1558, col: 11, offset: 50243},
+										pos:  position{line: 1564, col: 11, offset: 50405},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31200,10 +31206,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31212,28 +31218,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31242,9 +31248,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -31305,10 +31311,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31317,28 +31323,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31347,9 +31353,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -31358,39 +31364,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 821, col: 5, offset: 26373},
+										pos: position{line: 827, col: 5, offset: 26535},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 821, col: 5, offset: 26373},
+											pos: position{line: 827, col: 5, offset: 26535},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26373},
+													pos:   position{line: 827, col: 5, offset: 26535},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 741, col: 5, offset: 23633},
+														pos: position{line: 747, col: 5, offset: 23795},
 														run: (*parser).callonListContinuationElement293,
 														expr: &seqExpr{
-															pos: position{line: 741, col: 5, offset: 23633},
+															pos: position{line: 747, col: 5, offset: 23795},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 741, col: 5, offset: 23633},
+																	pos:   position{line: 747, col: 5, offset: 23795},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 741, col: 16, offset: 23644},
+																		pos: position{line: 747, col: 16, offset: 23806},
 																		run: (*parser).callonListContinuationElement296,
 																		expr: &seqExpr{
-																			pos: position{line: 741, col: 16, offset: 23644},
+																			pos: position{line: 747, col: 16, offset: 23806},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 741, col: 16, offset: 23644},
+																					pos:        position{line: 747, col: 16, offset: 23806},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 23, offset: 23651},
+																					pos: position{line: 747, col: 23, offset: 23813},
 																					expr: &litMatcher{
-																						pos:        position{line: 741, col: 23, offset: 23651},
+																						pos:        position{line: 747, col: 23, offset: 23813},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31401,12 +31407,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 743, col: 8, offset: 23735},
+																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31415,28 +31421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31445,9 +31451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -31457,56 +31463,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 822, col: 5, offset: 26412},
+													pos: position{line: 828, col: 5, offset: 26574},
 													run: (*parser).callonListContinuationElement312,
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26504},
+													pos:   position{line: 831, col: 5, offset: 26666},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 840, col: 5, offset: 26896},
+														pos: position{line: 846, col: 5, offset: 27058},
 														expr: &actionExpr{
-															pos: position{line: 840, col: 6, offset: 26897},
+															pos: position{line: 846, col: 6, offset: 27059},
 															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 6, offset: 26897},
+																pos: position{line: 846, col: 6, offset: 27059},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 840, col: 6, offset: 26897},
+																		pos: position{line: 846, col: 6, offset: 27059},
 																		expr: &choiceExpr{
-																			pos: position{line: 833, col: 5, offset: 26738},
+																			pos: position{line: 839, col: 5, offset: 26900},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 833, col: 5, offset: 26738},
+																					pos: position{line: 839, col: 5, offset: 26900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 833, col: 5, offset: 26738},
+																							pos:   position{line: 839, col: 5, offset: 26900},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 741, col: 5, offset: 23633},
+																								pos: position{line: 747, col: 5, offset: 23795},
 																								run: (*parser).callonListContinuationElement321,
 																								expr: &seqExpr{
-																									pos: position{line: 741, col: 5, offset: 23633},
+																									pos: position{line: 747, col: 5, offset: 23795},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 741, col: 5, offset: 23633},
+																											pos:   position{line: 747, col: 5, offset: 23795},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 741, col: 16, offset: 23644},
+																												pos: position{line: 747, col: 16, offset: 23806},
 																												run: (*parser).callonListContinuationElement324,
 																												expr: &seqExpr{
-																													pos: position{line: 741, col: 16, offset: 23644},
+																													pos: position{line: 747, col: 16, offset: 23806},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 741, col: 16, offset: 23644},
+																															pos:        position{line: 747, col: 16, offset: 23806},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 741, col: 23, offset: 23651},
+																															pos: position{line: 747, col: 23, offset: 23813},
 																															expr: &litMatcher{
-																																pos:        position{line: 741, col: 23, offset: 23651},
+																																pos:        position{line: 747, col: 23, offset: 23813},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31517,12 +31523,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 8, offset: 23735},
+																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31531,28 +31537,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31561,9 +31567,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -31573,45 +31579,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 834, col: 5, offset: 26769},
+																							pos: position{line: 840, col: 5, offset: 26931},
 																							run: (*parser).callonListContinuationElement340,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 841, col: 5, offset: 26927},
+																		pos:   position{line: 847, col: 5, offset: 27089},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31621,28 +31627,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31651,9 +31657,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -31668,41 +31674,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 826, col: 5, offset: 26538},
+													pos: position{line: 832, col: 5, offset: 26700},
 													expr: &choiceExpr{
-														pos: position{line: 833, col: 5, offset: 26738},
+														pos: position{line: 839, col: 5, offset: 26900},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 833, col: 5, offset: 26738},
+																pos: position{line: 839, col: 5, offset: 26900},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 833, col: 5, offset: 26738},
+																		pos:   position{line: 839, col: 5, offset: 26900},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 741, col: 5, offset: 23633},
+																			pos: position{line: 747, col: 5, offset: 23795},
 																			run: (*parser).callonListContinuationElement364,
 																			expr: &seqExpr{
-																				pos: position{line: 741, col: 5, offset: 23633},
+																				pos: position{line: 747, col: 5, offset: 23795},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 741, col: 5, offset: 23633},
+																						pos:   position{line: 747, col: 5, offset: 23795},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 741, col: 16, offset: 23644},
+																							pos: position{line: 747, col: 16, offset: 23806},
 																							run: (*parser).callonListContinuationElement367,
 																							expr: &seqExpr{
-																								pos: position{line: 741, col: 16, offset: 23644},
+																								pos: position{line: 747, col: 16, offset: 23806},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 741, col: 16, offset: 23644},
+																										pos:        position{line: 747, col: 16, offset: 23806},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 741, col: 23, offset: 23651},
+																										pos: position{line: 747, col: 23, offset: 23813},
 																										expr: &litMatcher{
-																											pos:        position{line: 741, col: 23, offset: 23651},
+																											pos:        position{line: 747, col: 23, offset: 23813},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -31713,12 +31719,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 8, offset: 23735},
+																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31727,28 +31733,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31757,9 +31763,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -31769,15 +31775,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 834, col: 5, offset: 26769},
+																		pos: position{line: 840, col: 5, offset: 26931},
 																		run: (*parser).callonListContinuationElement383,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -31787,39 +31793,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 849, col: 5, offset: 27080},
+										pos: position{line: 855, col: 5, offset: 27242},
 										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 849, col: 5, offset: 27080},
+											pos: position{line: 855, col: 5, offset: 27242},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 849, col: 5, offset: 27080},
+													pos:   position{line: 855, col: 5, offset: 27242},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 748, col: 5, offset: 23881},
+														pos: position{line: 754, col: 5, offset: 24043},
 														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
-															pos: position{line: 748, col: 5, offset: 23881},
+															pos: position{line: 754, col: 5, offset: 24043},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 748, col: 5, offset: 23881},
+																	pos:   position{line: 754, col: 5, offset: 24043},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 748, col: 16, offset: 23892},
+																		pos: position{line: 754, col: 16, offset: 24054},
 																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
-																			pos: position{line: 748, col: 16, offset: 23892},
+																			pos: position{line: 754, col: 16, offset: 24054},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 748, col: 16, offset: 23892},
+																					pos:        position{line: 754, col: 16, offset: 24054},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 748, col: 23, offset: 23899},
+																					pos: position{line: 754, col: 23, offset: 24061},
 																					expr: &litMatcher{
-																						pos:        position{line: 748, col: 23, offset: 23899},
+																						pos:        position{line: 754, col: 23, offset: 24061},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31830,12 +31836,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 750, col: 8, offset: 23983},
+																	pos: position{line: 756, col: 8, offset: 24145},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31844,28 +31850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31874,9 +31880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -31886,56 +31892,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 850, col: 5, offset: 27119},
+													pos: position{line: 856, col: 5, offset: 27281},
 													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27211},
+													pos:   position{line: 859, col: 5, offset: 27373},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 868, col: 4, offset: 27608},
+														pos: position{line: 874, col: 4, offset: 27770},
 														expr: &actionExpr{
-															pos: position{line: 868, col: 5, offset: 27609},
+															pos: position{line: 874, col: 5, offset: 27771},
 															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 868, col: 5, offset: 27609},
+																pos: position{line: 874, col: 5, offset: 27771},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 868, col: 5, offset: 27609},
+																		pos: position{line: 874, col: 5, offset: 27771},
 																		expr: &choiceExpr{
-																			pos: position{line: 861, col: 5, offset: 27451},
+																			pos: position{line: 867, col: 5, offset: 27613},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 861, col: 5, offset: 27451},
+																					pos: position{line: 867, col: 5, offset: 27613},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 861, col: 5, offset: 27451},
+																							pos:   position{line: 867, col: 5, offset: 27613},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 5, offset: 23881},
+																								pos: position{line: 754, col: 5, offset: 24043},
 																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 5, offset: 23881},
+																									pos: position{line: 754, col: 5, offset: 24043},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 748, col: 5, offset: 23881},
+																											pos:   position{line: 754, col: 5, offset: 24043},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 748, col: 16, offset: 23892},
+																												pos: position{line: 754, col: 16, offset: 24054},
 																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
-																													pos: position{line: 748, col: 16, offset: 23892},
+																													pos: position{line: 754, col: 16, offset: 24054},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 748, col: 16, offset: 23892},
+																															pos:        position{line: 754, col: 16, offset: 24054},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 748, col: 23, offset: 23899},
+																															pos: position{line: 754, col: 23, offset: 24061},
 																															expr: &litMatcher{
-																																pos:        position{line: 748, col: 23, offset: 23899},
+																																pos:        position{line: 754, col: 23, offset: 24061},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31946,12 +31952,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 8, offset: 23983},
+																											pos: position{line: 756, col: 8, offset: 24145},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31960,28 +31966,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31990,9 +31996,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -32002,45 +32008,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 862, col: 5, offset: 27482},
+																							pos: position{line: 868, col: 5, offset: 27644},
 																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 869, col: 5, offset: 27639},
+																		pos:   position{line: 875, col: 5, offset: 27801},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32050,28 +32056,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32080,9 +32086,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -32097,44 +32103,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 854, col: 5, offset: 27245},
+													pos:   position{line: 860, col: 5, offset: 27407},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 854, col: 9, offset: 27249},
+														pos: position{line: 860, col: 9, offset: 27411},
 														expr: &choiceExpr{
-															pos: position{line: 861, col: 5, offset: 27451},
+															pos: position{line: 867, col: 5, offset: 27613},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 861, col: 5, offset: 27451},
+																	pos: position{line: 867, col: 5, offset: 27613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 861, col: 5, offset: 27451},
+																			pos:   position{line: 867, col: 5, offset: 27613},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 748, col: 5, offset: 23881},
+																				pos: position{line: 754, col: 5, offset: 24043},
 																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
-																					pos: position{line: 748, col: 5, offset: 23881},
+																					pos: position{line: 754, col: 5, offset: 24043},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 748, col: 5, offset: 23881},
+																							pos:   position{line: 754, col: 5, offset: 24043},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 748, col: 16, offset: 23892},
+																								pos: position{line: 754, col: 16, offset: 24054},
 																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
-																									pos: position{line: 748, col: 16, offset: 23892},
+																									pos: position{line: 754, col: 16, offset: 24054},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 748, col: 16, offset: 23892},
+																											pos:        position{line: 754, col: 16, offset: 24054},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 23, offset: 23899},
+																											pos: position{line: 754, col: 23, offset: 24061},
 																											expr: &litMatcher{
-																												pos:        position{line: 748, col: 23, offset: 23899},
+																												pos:        position{line: 754, col: 23, offset: 24061},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32145,12 +32151,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 8, offset: 23983},
+																							pos: position{line: 756, col: 8, offset: 24145},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32159,28 +32165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32189,9 +32195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -32201,15 +32207,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 862, col: 5, offset: 27482},
+																			pos: position{line: 868, col: 5, offset: 27644},
 																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -32220,36 +32226,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 961, col: 5, offset: 29931},
+										pos: position{line: 967, col: 5, offset: 30093},
 										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 961, col: 5, offset: 29931},
+											pos: position{line: 967, col: 5, offset: 30093},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 961, col: 5, offset: 29931},
+													pos:   position{line: 967, col: 5, offset: 30093},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 761, col: 26, offset: 24369},
+														pos: position{line: 767, col: 26, offset: 24531},
 														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
-															pos: position{line: 761, col: 26, offset: 24369},
+															pos: position{line: 767, col: 26, offset: 24531},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 761, col: 26, offset: 24369},
+																	pos:        position{line: 767, col: 26, offset: 24531},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 761, col: 32, offset: 24375},
+																	pos:   position{line: 767, col: 32, offset: 24537},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 765, col: 13, offset: 24505},
+																		pos: position{line: 771, col: 13, offset: 24667},
 																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 765, col: 14, offset: 24506},
+																			pos: position{line: 771, col: 14, offset: 24668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 765, col: 14, offset: 24506},
+																				pos:        position{line: 771, col: 14, offset: 24668},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32259,12 +32265,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 761, col: 52, offset: 24395},
+																	pos: position{line: 767, col: 52, offset: 24557},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32273,28 +32279,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32303,9 +32309,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -32315,34 +32321,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 962, col: 5, offset: 29977},
+													pos:   position{line: 968, col: 5, offset: 30139},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 975, col: 5, offset: 30450},
+														pos: position{line: 981, col: 5, offset: 30612},
 														expr: &actionExpr{
-															pos: position{line: 975, col: 6, offset: 30451},
+															pos: position{line: 981, col: 6, offset: 30613},
 															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 975, col: 6, offset: 30451},
+																pos: position{line: 981, col: 6, offset: 30613},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 975, col: 6, offset: 30451},
+																		pos: position{line: 981, col: 6, offset: 30613},
 																		expr: &seqExpr{
-																			pos: position{line: 972, col: 34, offset: 30398},
+																			pos: position{line: 978, col: 34, offset: 30560},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 972, col: 34, offset: 30398},
+																					pos:        position{line: 978, col: 34, offset: 30560},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 972, col: 40, offset: 30404},
+																					pos: position{line: 978, col: 40, offset: 30566},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32351,28 +32357,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32381,9 +32387,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -32392,30 +32398,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 976, col: 5, offset: 30486},
+																		pos:   position{line: 982, col: 5, offset: 30648},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32425,28 +32431,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32455,9 +32461,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -32472,23 +32478,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 963, col: 5, offset: 30016},
+													pos: position{line: 969, col: 5, offset: 30178},
 													expr: &seqExpr{
-														pos: position{line: 972, col: 34, offset: 30398},
+														pos: position{line: 978, col: 34, offset: 30560},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 972, col: 34, offset: 30398},
+																pos:        position{line: 978, col: 34, offset: 30560},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 972, col: 40, offset: 30404},
+																pos: position{line: 978, col: 40, offset: 30566},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32497,28 +32503,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32527,9 +32533,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -32541,39 +32547,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 877, col: 5, offset: 27792},
+										pos: position{line: 883, col: 5, offset: 27954},
 										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 877, col: 5, offset: 27792},
+											pos: position{line: 883, col: 5, offset: 27954},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 877, col: 5, offset: 27792},
+													pos:   position{line: 883, col: 5, offset: 27954},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 755, col: 5, offset: 24128},
+														pos: position{line: 761, col: 5, offset: 24290},
 														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
-															pos: position{line: 755, col: 5, offset: 24128},
+															pos: position{line: 761, col: 5, offset: 24290},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 755, col: 5, offset: 24128},
+																	pos:   position{line: 761, col: 5, offset: 24290},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 755, col: 16, offset: 24139},
+																		pos: position{line: 761, col: 16, offset: 24301},
 																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
-																			pos: position{line: 755, col: 16, offset: 24139},
+																			pos: position{line: 761, col: 16, offset: 24301},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 755, col: 16, offset: 24139},
+																					pos:        position{line: 761, col: 16, offset: 24301},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 755, col: 22, offset: 24145},
+																					pos: position{line: 761, col: 22, offset: 24307},
 																					expr: &litMatcher{
-																						pos:        position{line: 755, col: 22, offset: 24145},
+																						pos:        position{line: 761, col: 22, offset: 24307},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32584,12 +32590,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 757, col: 8, offset: 24229},
+																	pos: position{line: 763, col: 8, offset: 24391},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32598,28 +32604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32628,9 +32634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -32640,56 +32646,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 878, col: 5, offset: 27830},
+													pos: position{line: 884, col: 5, offset: 27992},
 													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 27922},
+													pos:   position{line: 887, col: 5, offset: 28084},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 896, col: 5, offset: 28312},
+														pos: position{line: 902, col: 5, offset: 28474},
 														expr: &actionExpr{
-															pos: position{line: 896, col: 6, offset: 28313},
+															pos: position{line: 902, col: 6, offset: 28475},
 															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 896, col: 6, offset: 28313},
+																pos: position{line: 902, col: 6, offset: 28475},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 896, col: 6, offset: 28313},
+																		pos: position{line: 902, col: 6, offset: 28475},
 																		expr: &choiceExpr{
-																			pos: position{line: 889, col: 5, offset: 28156},
+																			pos: position{line: 895, col: 5, offset: 28318},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 889, col: 5, offset: 28156},
+																					pos: position{line: 895, col: 5, offset: 28318},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 889, col: 5, offset: 28156},
+																							pos:   position{line: 895, col: 5, offset: 28318},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 5, offset: 24128},
+																								pos: position{line: 761, col: 5, offset: 24290},
 																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 5, offset: 24128},
+																									pos: position{line: 761, col: 5, offset: 24290},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 755, col: 5, offset: 24128},
+																											pos:   position{line: 761, col: 5, offset: 24290},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 755, col: 16, offset: 24139},
+																												pos: position{line: 761, col: 16, offset: 24301},
 																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
-																													pos: position{line: 755, col: 16, offset: 24139},
+																													pos: position{line: 761, col: 16, offset: 24301},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 755, col: 16, offset: 24139},
+																															pos:        position{line: 761, col: 16, offset: 24301},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 755, col: 22, offset: 24145},
+																															pos: position{line: 761, col: 22, offset: 24307},
 																															expr: &litMatcher{
-																																pos:        position{line: 755, col: 22, offset: 24145},
+																																pos:        position{line: 761, col: 22, offset: 24307},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32700,12 +32706,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 8, offset: 24229},
+																											pos: position{line: 763, col: 8, offset: 24391},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32714,28 +32720,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32744,9 +32750,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -32756,45 +32762,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 890, col: 5, offset: 28186},
+																							pos: position{line: 896, col: 5, offset: 28348},
 																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 897, col: 5, offset: 28342},
+																		pos:   position{line: 903, col: 5, offset: 28504},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32804,28 +32810,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32834,9 +32840,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -32851,44 +32857,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 882, col: 5, offset: 27955},
+													pos:   position{line: 888, col: 5, offset: 28117},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 882, col: 9, offset: 27959},
+														pos: position{line: 888, col: 9, offset: 28121},
 														expr: &choiceExpr{
-															pos: position{line: 889, col: 5, offset: 28156},
+															pos: position{line: 895, col: 5, offset: 28318},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 889, col: 5, offset: 28156},
+																	pos: position{line: 895, col: 5, offset: 28318},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 889, col: 5, offset: 28156},
+																			pos:   position{line: 895, col: 5, offset: 28318},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 755, col: 5, offset: 24128},
+																				pos: position{line: 761, col: 5, offset: 24290},
 																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
-																					pos: position{line: 755, col: 5, offset: 24128},
+																					pos: position{line: 761, col: 5, offset: 24290},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 755, col: 5, offset: 24128},
+																							pos:   position{line: 761, col: 5, offset: 24290},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 755, col: 16, offset: 24139},
+																								pos: position{line: 761, col: 16, offset: 24301},
 																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
-																									pos: position{line: 755, col: 16, offset: 24139},
+																									pos: position{line: 761, col: 16, offset: 24301},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 755, col: 16, offset: 24139},
+																											pos:        position{line: 761, col: 16, offset: 24301},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 22, offset: 24145},
+																											pos: position{line: 761, col: 22, offset: 24307},
 																											expr: &litMatcher{
-																												pos:        position{line: 755, col: 22, offset: 24145},
+																												pos:        position{line: 761, col: 22, offset: 24307},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32899,12 +32905,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 8, offset: 24229},
+																							pos: position{line: 763, col: 8, offset: 24391},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32913,28 +32919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32943,9 +32949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -32955,15 +32961,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 890, col: 5, offset: 28186},
+																			pos: position{line: 896, col: 5, offset: 28348},
 																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -32974,39 +32980,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 905, col: 5, offset: 28497},
+										pos: position{line: 911, col: 5, offset: 28659},
 										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 905, col: 5, offset: 28497},
+											pos: position{line: 911, col: 5, offset: 28659},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 905, col: 5, offset: 28497},
+													pos:   position{line: 911, col: 5, offset: 28659},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 770, col: 5, offset: 24665},
+														pos: position{line: 776, col: 5, offset: 24827},
 														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
-															pos: position{line: 770, col: 5, offset: 24665},
+															pos: position{line: 776, col: 5, offset: 24827},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 770, col: 5, offset: 24665},
+																	pos:   position{line: 776, col: 5, offset: 24827},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 770, col: 16, offset: 24676},
+																		pos: position{line: 776, col: 16, offset: 24838},
 																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
-																			pos: position{line: 770, col: 16, offset: 24676},
+																			pos: position{line: 776, col: 16, offset: 24838},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 770, col: 16, offset: 24676},
+																					pos:        position{line: 776, col: 16, offset: 24838},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 770, col: 23, offset: 24683},
+																					pos: position{line: 776, col: 23, offset: 24845},
 																					expr: &litMatcher{
-																						pos:        position{line: 770, col: 23, offset: 24683},
+																						pos:        position{line: 776, col: 23, offset: 24845},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33017,12 +33023,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 772, col: 8, offset: 24767},
+																	pos: position{line: 778, col: 8, offset: 24929},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33031,28 +33037,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33061,9 +33067,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -33073,56 +33079,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 906, col: 5, offset: 28536},
+													pos: position{line: 912, col: 5, offset: 28698},
 													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28628},
+													pos:   position{line: 915, col: 5, offset: 28790},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 924, col: 5, offset: 29026},
+														pos: position{line: 930, col: 5, offset: 29188},
 														expr: &actionExpr{
-															pos: position{line: 924, col: 6, offset: 29027},
+															pos: position{line: 930, col: 6, offset: 29189},
 															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 924, col: 6, offset: 29027},
+																pos: position{line: 930, col: 6, offset: 29189},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 924, col: 6, offset: 29027},
+																		pos: position{line: 930, col: 6, offset: 29189},
 																		expr: &choiceExpr{
-																			pos: position{line: 917, col: 5, offset: 28868},
+																			pos: position{line: 923, col: 5, offset: 29030},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 917, col: 5, offset: 28868},
+																					pos: position{line: 923, col: 5, offset: 29030},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 917, col: 5, offset: 28868},
+																							pos:   position{line: 923, col: 5, offset: 29030},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 5, offset: 24665},
+																								pos: position{line: 776, col: 5, offset: 24827},
 																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 5, offset: 24665},
+																									pos: position{line: 776, col: 5, offset: 24827},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 5, offset: 24665},
+																											pos:   position{line: 776, col: 5, offset: 24827},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 770, col: 16, offset: 24676},
+																												pos: position{line: 776, col: 16, offset: 24838},
 																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
-																													pos: position{line: 770, col: 16, offset: 24676},
+																													pos: position{line: 776, col: 16, offset: 24838},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 770, col: 16, offset: 24676},
+																															pos:        position{line: 776, col: 16, offset: 24838},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 770, col: 23, offset: 24683},
+																															pos: position{line: 776, col: 23, offset: 24845},
 																															expr: &litMatcher{
-																																pos:        position{line: 770, col: 23, offset: 24683},
+																																pos:        position{line: 776, col: 23, offset: 24845},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33133,12 +33139,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 8, offset: 24767},
+																											pos: position{line: 778, col: 8, offset: 24929},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33147,28 +33153,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33177,9 +33183,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -33189,45 +33195,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 918, col: 5, offset: 28899},
+																							pos: position{line: 924, col: 5, offset: 29061},
 																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 925, col: 5, offset: 29057},
+																		pos:   position{line: 931, col: 5, offset: 29219},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33237,28 +33243,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33267,9 +33273,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -33284,44 +33290,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 910, col: 5, offset: 28662},
+													pos:   position{line: 916, col: 5, offset: 28824},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 910, col: 9, offset: 28666},
+														pos: position{line: 916, col: 9, offset: 28828},
 														expr: &choiceExpr{
-															pos: position{line: 917, col: 5, offset: 28868},
+															pos: position{line: 923, col: 5, offset: 29030},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 917, col: 5, offset: 28868},
+																	pos: position{line: 923, col: 5, offset: 29030},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 917, col: 5, offset: 28868},
+																			pos:   position{line: 923, col: 5, offset: 29030},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 770, col: 5, offset: 24665},
+																				pos: position{line: 776, col: 5, offset: 24827},
 																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 5, offset: 24665},
+																					pos: position{line: 776, col: 5, offset: 24827},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 5, offset: 24665},
+																							pos:   position{line: 776, col: 5, offset: 24827},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 770, col: 16, offset: 24676},
+																								pos: position{line: 776, col: 16, offset: 24838},
 																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 16, offset: 24676},
+																									pos: position{line: 776, col: 16, offset: 24838},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 16, offset: 24676},
+																											pos:        position{line: 776, col: 16, offset: 24838},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 23, offset: 24683},
+																											pos: position{line: 776, col: 23, offset: 24845},
 																											expr: &litMatcher{
-																												pos:        position{line: 770, col: 23, offset: 24683},
+																												pos:        position{line: 776, col: 23, offset: 24845},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33332,12 +33338,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 8, offset: 24767},
+																							pos: position{line: 778, col: 8, offset: 24929},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33346,28 +33352,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33376,9 +33382,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -33388,15 +33394,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 918, col: 5, offset: 28899},
+																			pos: position{line: 924, col: 5, offset: 29061},
 																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -33407,39 +33413,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 933, col: 5, offset: 29212},
+										pos: position{line: 939, col: 5, offset: 29374},
 										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 933, col: 5, offset: 29212},
+											pos: position{line: 939, col: 5, offset: 29374},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 933, col: 5, offset: 29212},
+													pos:   position{line: 939, col: 5, offset: 29374},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 784, col: 5, offset: 25141},
+														pos: position{line: 790, col: 5, offset: 25303},
 														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
-															pos: position{line: 784, col: 5, offset: 25141},
+															pos: position{line: 790, col: 5, offset: 25303},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 784, col: 5, offset: 25141},
+																	pos:   position{line: 790, col: 5, offset: 25303},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 784, col: 16, offset: 25152},
+																		pos: position{line: 790, col: 16, offset: 25314},
 																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
-																			pos: position{line: 784, col: 16, offset: 25152},
+																			pos: position{line: 790, col: 16, offset: 25314},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 784, col: 16, offset: 25152},
+																					pos:        position{line: 790, col: 16, offset: 25314},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 784, col: 23, offset: 25159},
+																					pos: position{line: 790, col: 23, offset: 25321},
 																					expr: &litMatcher{
-																						pos:        position{line: 784, col: 23, offset: 25159},
+																						pos:        position{line: 790, col: 23, offset: 25321},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33450,12 +33456,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 786, col: 8, offset: 25243},
+																	pos: position{line: 792, col: 8, offset: 25405},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33464,28 +33470,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33494,9 +33500,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -33506,56 +33512,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 934, col: 5, offset: 29251},
+													pos: position{line: 940, col: 5, offset: 29413},
 													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29343},
+													pos:   position{line: 943, col: 5, offset: 29505},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 952, col: 5, offset: 29741},
+														pos: position{line: 958, col: 5, offset: 29903},
 														expr: &actionExpr{
-															pos: position{line: 952, col: 6, offset: 29742},
+															pos: position{line: 958, col: 6, offset: 29904},
 															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 952, col: 6, offset: 29742},
+																pos: position{line: 958, col: 6, offset: 29904},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 952, col: 6, offset: 29742},
+																		pos: position{line: 958, col: 6, offset: 29904},
 																		expr: &choiceExpr{
-																			pos: position{line: 945, col: 5, offset: 29583},
+																			pos: position{line: 951, col: 5, offset: 29745},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 945, col: 5, offset: 29583},
+																					pos: position{line: 951, col: 5, offset: 29745},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 945, col: 5, offset: 29583},
+																							pos:   position{line: 951, col: 5, offset: 29745},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 5, offset: 25141},
+																								pos: position{line: 790, col: 5, offset: 25303},
 																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 5, offset: 25141},
+																									pos: position{line: 790, col: 5, offset: 25303},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 784, col: 5, offset: 25141},
+																											pos:   position{line: 790, col: 5, offset: 25303},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 784, col: 16, offset: 25152},
+																												pos: position{line: 790, col: 16, offset: 25314},
 																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
-																													pos: position{line: 784, col: 16, offset: 25152},
+																													pos: position{line: 790, col: 16, offset: 25314},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 784, col: 16, offset: 25152},
+																															pos:        position{line: 790, col: 16, offset: 25314},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 784, col: 23, offset: 25159},
+																															pos: position{line: 790, col: 23, offset: 25321},
 																															expr: &litMatcher{
-																																pos:        position{line: 784, col: 23, offset: 25159},
+																																pos:        position{line: 790, col: 23, offset: 25321},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33566,12 +33572,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 8, offset: 25243},
+																											pos: position{line: 792, col: 8, offset: 25405},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33580,28 +33586,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33610,9 +33616,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -33622,45 +33628,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 946, col: 5, offset: 29614},
+																							pos: position{line: 952, col: 5, offset: 29776},
 																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 953, col: 5, offset: 29772},
+																		pos:   position{line: 959, col: 5, offset: 29934},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33670,28 +33676,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33700,9 +33706,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -33717,44 +33723,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 938, col: 5, offset: 29377},
+													pos:   position{line: 944, col: 5, offset: 29539},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 938, col: 9, offset: 29381},
+														pos: position{line: 944, col: 9, offset: 29543},
 														expr: &choiceExpr{
-															pos: position{line: 945, col: 5, offset: 29583},
+															pos: position{line: 951, col: 5, offset: 29745},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 945, col: 5, offset: 29583},
+																	pos: position{line: 951, col: 5, offset: 29745},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 945, col: 5, offset: 29583},
+																			pos:   position{line: 951, col: 5, offset: 29745},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 5, offset: 25141},
+																				pos: position{line: 790, col: 5, offset: 25303},
 																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
-																					pos: position{line: 784, col: 5, offset: 25141},
+																					pos: position{line: 790, col: 5, offset: 25303},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 784, col: 5, offset: 25141},
+																							pos:   position{line: 790, col: 5, offset: 25303},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 784, col: 16, offset: 25152},
+																								pos: position{line: 790, col: 16, offset: 25314},
 																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
-																									pos: position{line: 784, col: 16, offset: 25152},
+																									pos: position{line: 790, col: 16, offset: 25314},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 784, col: 16, offset: 25152},
+																											pos:        position{line: 790, col: 16, offset: 25314},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 23, offset: 25159},
+																											pos: position{line: 790, col: 23, offset: 25321},
 																											expr: &litMatcher{
-																												pos:        position{line: 784, col: 23, offset: 25159},
+																												pos:        position{line: 790, col: 23, offset: 25321},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33765,12 +33771,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 8, offset: 25243},
+																							pos: position{line: 792, col: 8, offset: 25405},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33779,28 +33785,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33809,9 +33815,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -33821,15 +33827,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 946, col: 5, offset: 29614},
+																			pos: position{line: 952, col: 5, offset: 29776},
 																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -33840,41 +33846,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 984, col: 5, offset: 30655},
+										pos: position{line: 990, col: 5, offset: 30817},
 										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 984, col: 5, offset: 30655},
+											pos: position{line: 990, col: 5, offset: 30817},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30655},
+													pos:   position{line: 990, col: 5, offset: 30817},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 991, col: 5, offset: 30914},
+														pos: position{line: 997, col: 5, offset: 31076},
 														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 991, col: 5, offset: 30914},
+															pos: position{line: 997, col: 5, offset: 31076},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 991, col: 5, offset: 30914},
+																	pos: position{line: 997, col: 5, offset: 31076},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21519},
+																		pos: position{line: 684, col: 14, offset: 21681},
 																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21519},
+																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2884, col: 11, offset: 91087},
+																					pos: position{line: 2890, col: 11, offset: 91249},
 																					expr: &anyMatcher{
-																						line: 2884, col: 13, offset: 91089,
+																						line: 2890, col: 13, offset: 91251,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21526},
+																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33883,28 +33889,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33913,9 +33919,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -33925,21 +33931,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 992, col: 5, offset: 30929},
+																	pos:        position{line: 998, col: 5, offset: 31091},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 993, col: 5, offset: 30939},
+																	pos:   position{line: 999, col: 5, offset: 31101},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2817, col: 14, offset: 89346},
+																		pos: position{line: 2823, col: 14, offset: 89508},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2817, col: 14, offset: 89346},
+																			pos: position{line: 2823, col: 14, offset: 89508},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89346},
+																				pos:        position{line: 2823, col: 14, offset: 89508},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33949,28 +33955,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33979,9 +33985,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -33991,40 +33997,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 985, col: 5, offset: 30692},
+													pos:   position{line: 991, col: 5, offset: 30854},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 985, col: 16, offset: 30703},
+														pos: position{line: 991, col: 16, offset: 30865},
 														expr: &choiceExpr{
-															pos: position{line: 985, col: 17, offset: 30704},
+															pos: position{line: 991, col: 17, offset: 30866},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 991, col: 5, offset: 30914},
+																	pos: position{line: 997, col: 5, offset: 31076},
 																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 991, col: 5, offset: 30914},
+																		pos: position{line: 997, col: 5, offset: 31076},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 991, col: 5, offset: 30914},
+																				pos: position{line: 997, col: 5, offset: 31076},
 																				expr: &actionExpr{
-																					pos: position{line: 678, col: 14, offset: 21519},
+																					pos: position{line: 684, col: 14, offset: 21681},
 																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
-																						pos: position{line: 678, col: 14, offset: 21519},
+																						pos: position{line: 684, col: 14, offset: 21681},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2884, col: 11, offset: 91087},
+																								pos: position{line: 2890, col: 11, offset: 91249},
 																								expr: &anyMatcher{
-																									line: 2884, col: 13, offset: 91089,
+																									line: 2890, col: 13, offset: 91251,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 678, col: 21, offset: 21526},
+																								pos: position{line: 684, col: 21, offset: 21688},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34033,28 +34039,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34063,9 +34069,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -34075,21 +34081,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 992, col: 5, offset: 30929},
+																				pos:        position{line: 998, col: 5, offset: 31091},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 993, col: 5, offset: 30939},
+																				pos:   position{line: 999, col: 5, offset: 31101},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2817, col: 14, offset: 89346},
+																					pos: position{line: 2823, col: 14, offset: 89508},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2817, col: 14, offset: 89346},
+																						pos: position{line: 2823, col: 14, offset: 89508},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2817, col: 14, offset: 89346},
+																							pos:        position{line: 2823, col: 14, offset: 89508},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34099,28 +34105,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2889, col: 8, offset: 91151},
+																				pos: position{line: 2895, col: 8, offset: 91313},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2876, col: 12, offset: 90924},
+																						pos: position{line: 2882, col: 12, offset: 91086},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2876, col: 13, offset: 90925},
+																							pos: position{line: 2882, col: 13, offset: 91087},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 13, offset: 90925},
+																									pos:        position{line: 2882, col: 13, offset: 91087},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 20, offset: 90932},
+																									pos:        position{line: 2882, col: 20, offset: 91094},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 29, offset: 90941},
+																									pos:        position{line: 2882, col: 29, offset: 91103},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34129,9 +34135,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
@@ -34140,21 +34146,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1799, col: 5, offset: 58122},
+																	pos: position{line: 1805, col: 5, offset: 58284},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1799, col: 5, offset: 58122},
+																		pos: position{line: 1805, col: 5, offset: 58284},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1799, col: 5, offset: 58122},
+																				pos:   position{line: 1805, col: 5, offset: 58284},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2817, col: 14, offset: 89346},
+																					pos: position{line: 2823, col: 14, offset: 89508},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2817, col: 14, offset: 89346},
+																						pos: position{line: 2823, col: 14, offset: 89508},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2817, col: 14, offset: 89346},
+																							pos:        position{line: 2823, col: 14, offset: 89508},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34164,32 +34170,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1800, col: 5, offset: 58146},
+																				pos: position{line: 1806, col: 5, offset: 58308},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2889, col: 8, offset: 91151},
+																				pos: position{line: 2895, col: 8, offset: 91313},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2876, col: 12, offset: 90924},
+																						pos: position{line: 2882, col: 12, offset: 91086},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2876, col: 13, offset: 90925},
+																							pos: position{line: 2882, col: 13, offset: 91087},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 13, offset: 90925},
+																									pos:        position{line: 2882, col: 13, offset: 91087},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 20, offset: 90932},
+																									pos:        position{line: 2882, col: 20, offset: 91094},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 29, offset: 90941},
+																									pos:        position{line: 2882, col: 29, offset: 91103},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34198,9 +34204,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
@@ -34216,28 +34222,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1006, col: 5, offset: 31204},
+										pos: position{line: 1012, col: 5, offset: 31366},
 										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 1006, col: 5, offset: 31204},
+											pos: position{line: 1012, col: 5, offset: 31366},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1006, col: 5, offset: 31204},
+													pos:   position{line: 1012, col: 5, offset: 31366},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 777, col: 5, offset: 24910},
+														pos: position{line: 783, col: 5, offset: 25072},
 														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
-															pos: position{line: 777, col: 5, offset: 24910},
+															pos: position{line: 783, col: 5, offset: 25072},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 777, col: 5, offset: 24910},
+																	pos:   position{line: 783, col: 5, offset: 25072},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 777, col: 16, offset: 24921},
+																		pos: position{line: 783, col: 16, offset: 25083},
 																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
-																			pos:        position{line: 777, col: 16, offset: 24921},
+																			pos:        position{line: 783, col: 16, offset: 25083},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34245,12 +34251,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 779, col: 8, offset: 24998},
+																	pos: position{line: 785, col: 8, offset: 25160},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34259,28 +34265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34289,9 +34295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -34301,35 +34307,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1007, col: 5, offset: 31240},
+													pos:   position{line: 1013, col: 5, offset: 31402},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1017, col: 5, offset: 31508},
+														pos: position{line: 1023, col: 5, offset: 31670},
 														expr: &actionExpr{
-															pos: position{line: 1017, col: 6, offset: 31509},
+															pos: position{line: 1023, col: 6, offset: 31671},
 															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1017, col: 6, offset: 31509},
+																pos: position{line: 1023, col: 6, offset: 31671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1017, col: 6, offset: 31509},
+																		pos: position{line: 1023, col: 6, offset: 31671},
 																		expr: &choiceExpr{
-																			pos: position{line: 1014, col: 26, offset: 31457},
+																			pos: position{line: 1020, col: 26, offset: 31619},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 777, col: 5, offset: 24910},
+																					pos: position{line: 783, col: 5, offset: 25072},
 																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
-																						pos: position{line: 777, col: 5, offset: 24910},
+																						pos: position{line: 783, col: 5, offset: 25072},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 777, col: 5, offset: 24910},
+																								pos:   position{line: 783, col: 5, offset: 25072},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 777, col: 16, offset: 24921},
+																									pos: position{line: 783, col: 16, offset: 25083},
 																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
-																										pos:        position{line: 777, col: 16, offset: 24921},
+																										pos:        position{line: 783, col: 16, offset: 25083},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34337,12 +34343,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 779, col: 8, offset: 24998},
+																								pos: position{line: 785, col: 8, offset: 25160},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34351,28 +34357,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34381,9 +34387,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -34392,39 +34398,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1018, col: 5, offset: 31536},
+																		pos:   position{line: 1024, col: 5, offset: 31698},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34434,28 +34440,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34464,9 +34470,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -34481,27 +34487,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1008, col: 5, offset: 31271},
+													pos:   position{line: 1014, col: 5, offset: 31433},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1008, col: 9, offset: 31275},
+														pos: position{line: 1014, col: 9, offset: 31437},
 														expr: &choiceExpr{
-															pos: position{line: 1014, col: 26, offset: 31457},
+															pos: position{line: 1020, col: 26, offset: 31619},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 777, col: 5, offset: 24910},
+																	pos: position{line: 783, col: 5, offset: 25072},
 																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
-																		pos: position{line: 777, col: 5, offset: 24910},
+																		pos: position{line: 783, col: 5, offset: 25072},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 777, col: 5, offset: 24910},
+																				pos:   position{line: 783, col: 5, offset: 25072},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 777, col: 16, offset: 24921},
+																					pos: position{line: 783, col: 16, offset: 25083},
 																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
-																						pos:        position{line: 777, col: 16, offset: 24921},
+																						pos:        position{line: 783, col: 16, offset: 25083},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34509,12 +34515,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 779, col: 8, offset: 24998},
+																				pos: position{line: 785, col: 8, offset: 25160},
 																				expr: &actionExpr{
-																					pos: position{line: 2867, col: 10, offset: 90753},
+																					pos: position{line: 2873, col: 10, offset: 90915},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 10, offset: 90753},
+																						pos:        position{line: 2873, col: 10, offset: 90915},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34523,28 +34529,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2889, col: 8, offset: 91151},
+																				pos: position{line: 2895, col: 8, offset: 91313},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2876, col: 12, offset: 90924},
+																						pos: position{line: 2882, col: 12, offset: 91086},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2876, col: 13, offset: 90925},
+																							pos: position{line: 2882, col: 13, offset: 91087},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 13, offset: 90925},
+																									pos:        position{line: 2882, col: 13, offset: 91087},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 20, offset: 90932},
+																									pos:        position{line: 2882, col: 20, offset: 91094},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 29, offset: 90941},
+																									pos:        position{line: 2882, col: 29, offset: 91103},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34553,9 +34559,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
@@ -34564,9 +34570,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -34577,39 +34583,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1026, col: 5, offset: 31699},
+										pos: position{line: 1032, col: 5, offset: 31861},
 										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1026, col: 5, offset: 31699},
+											pos: position{line: 1032, col: 5, offset: 31861},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1026, col: 5, offset: 31699},
+													pos:   position{line: 1032, col: 5, offset: 31861},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 791, col: 5, offset: 25393},
+														pos: position{line: 797, col: 5, offset: 25555},
 														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
-															pos: position{line: 791, col: 5, offset: 25393},
+															pos: position{line: 797, col: 5, offset: 25555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 791, col: 5, offset: 25393},
+																	pos:   position{line: 797, col: 5, offset: 25555},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 791, col: 16, offset: 25404},
+																		pos: position{line: 797, col: 16, offset: 25566},
 																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
-																			pos: position{line: 791, col: 16, offset: 25404},
+																			pos: position{line: 797, col: 16, offset: 25566},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 791, col: 16, offset: 25404},
+																					pos:        position{line: 797, col: 16, offset: 25566},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 791, col: 23, offset: 25411},
+																					pos: position{line: 797, col: 23, offset: 25573},
 																					expr: &litMatcher{
-																						pos:        position{line: 791, col: 23, offset: 25411},
+																						pos:        position{line: 797, col: 23, offset: 25573},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34620,12 +34626,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 793, col: 8, offset: 25495},
+																	pos: position{line: 799, col: 8, offset: 25657},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34634,28 +34640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34664,9 +34670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -34676,56 +34682,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1027, col: 5, offset: 31742},
+													pos: position{line: 1033, col: 5, offset: 31904},
 													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 31834},
+													pos:   position{line: 1036, col: 5, offset: 31996},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1045, col: 5, offset: 32264},
+														pos: position{line: 1051, col: 5, offset: 32426},
 														expr: &actionExpr{
-															pos: position{line: 1045, col: 6, offset: 32265},
+															pos: position{line: 1051, col: 6, offset: 32427},
 															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1045, col: 6, offset: 32265},
+																pos: position{line: 1051, col: 6, offset: 32427},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1045, col: 6, offset: 32265},
+																		pos: position{line: 1051, col: 6, offset: 32427},
 																		expr: &choiceExpr{
-																			pos: position{line: 1038, col: 5, offset: 32098},
+																			pos: position{line: 1044, col: 5, offset: 32260},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1038, col: 5, offset: 32098},
+																					pos: position{line: 1044, col: 5, offset: 32260},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1038, col: 5, offset: 32098},
+																							pos:   position{line: 1044, col: 5, offset: 32260},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 5, offset: 25393},
+																								pos: position{line: 797, col: 5, offset: 25555},
 																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 5, offset: 25393},
+																									pos: position{line: 797, col: 5, offset: 25555},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 791, col: 5, offset: 25393},
+																											pos:   position{line: 797, col: 5, offset: 25555},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 791, col: 16, offset: 25404},
+																												pos: position{line: 797, col: 16, offset: 25566},
 																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
-																													pos: position{line: 791, col: 16, offset: 25404},
+																													pos: position{line: 797, col: 16, offset: 25566},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 791, col: 16, offset: 25404},
+																															pos:        position{line: 797, col: 16, offset: 25566},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 791, col: 23, offset: 25411},
+																															pos: position{line: 797, col: 23, offset: 25573},
 																															expr: &litMatcher{
-																																pos:        position{line: 791, col: 23, offset: 25411},
+																																pos:        position{line: 797, col: 23, offset: 25573},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34736,12 +34742,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 8, offset: 25495},
+																											pos: position{line: 799, col: 8, offset: 25657},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34750,28 +34756,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34780,9 +34786,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -34792,45 +34798,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1039, col: 5, offset: 32133},
+																							pos: position{line: 1045, col: 5, offset: 32295},
 																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1046, col: 5, offset: 32299},
+																		pos:   position{line: 1052, col: 5, offset: 32461},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34840,28 +34846,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34870,9 +34876,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -34887,44 +34893,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1031, col: 5, offset: 31872},
+													pos:   position{line: 1037, col: 5, offset: 32034},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1031, col: 9, offset: 31876},
+														pos: position{line: 1037, col: 9, offset: 32038},
 														expr: &choiceExpr{
-															pos: position{line: 1038, col: 5, offset: 32098},
+															pos: position{line: 1044, col: 5, offset: 32260},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1038, col: 5, offset: 32098},
+																	pos: position{line: 1044, col: 5, offset: 32260},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1038, col: 5, offset: 32098},
+																			pos:   position{line: 1044, col: 5, offset: 32260},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 791, col: 5, offset: 25393},
+																				pos: position{line: 797, col: 5, offset: 25555},
 																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
-																					pos: position{line: 791, col: 5, offset: 25393},
+																					pos: position{line: 797, col: 5, offset: 25555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 791, col: 5, offset: 25393},
+																							pos:   position{line: 797, col: 5, offset: 25555},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 791, col: 16, offset: 25404},
+																								pos: position{line: 797, col: 16, offset: 25566},
 																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
-																									pos: position{line: 791, col: 16, offset: 25404},
+																									pos: position{line: 797, col: 16, offset: 25566},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 791, col: 16, offset: 25404},
+																											pos:        position{line: 797, col: 16, offset: 25566},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 23, offset: 25411},
+																											pos: position{line: 797, col: 23, offset: 25573},
 																											expr: &litMatcher{
-																												pos:        position{line: 791, col: 23, offset: 25411},
+																												pos:        position{line: 797, col: 23, offset: 25573},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34935,12 +34941,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 8, offset: 25495},
+																							pos: position{line: 799, col: 8, offset: 25657},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34949,28 +34955,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34979,9 +34985,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -34991,15 +34997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1039, col: 5, offset: 32133},
+																			pos: position{line: 1045, col: 5, offset: 32295},
 																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -35010,39 +35016,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1054, col: 5, offset: 32450},
+										pos: position{line: 1060, col: 5, offset: 32612},
 										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1054, col: 5, offset: 32450},
+											pos: position{line: 1060, col: 5, offset: 32612},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1054, col: 5, offset: 32450},
+													pos:   position{line: 1060, col: 5, offset: 32612},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 798, col: 5, offset: 25643},
+														pos: position{line: 804, col: 5, offset: 25805},
 														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
-															pos: position{line: 798, col: 5, offset: 25643},
+															pos: position{line: 804, col: 5, offset: 25805},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 798, col: 5, offset: 25643},
+																	pos:   position{line: 804, col: 5, offset: 25805},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 798, col: 16, offset: 25654},
+																		pos: position{line: 804, col: 16, offset: 25816},
 																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
-																			pos: position{line: 798, col: 16, offset: 25654},
+																			pos: position{line: 804, col: 16, offset: 25816},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 798, col: 16, offset: 25654},
+																					pos:        position{line: 804, col: 16, offset: 25816},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 798, col: 23, offset: 25661},
+																					pos: position{line: 804, col: 23, offset: 25823},
 																					expr: &litMatcher{
-																						pos:        position{line: 798, col: 23, offset: 25661},
+																						pos:        position{line: 804, col: 23, offset: 25823},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35053,12 +35059,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 800, col: 8, offset: 25745},
+																	pos: position{line: 806, col: 8, offset: 25907},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35067,28 +35073,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35097,9 +35103,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -35109,56 +35115,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1055, col: 5, offset: 32487},
+													pos: position{line: 1061, col: 5, offset: 32649},
 													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32579},
+													pos:   position{line: 1064, col: 5, offset: 32741},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1073, col: 4, offset: 32960},
+														pos: position{line: 1079, col: 4, offset: 33122},
 														expr: &actionExpr{
-															pos: position{line: 1073, col: 5, offset: 32961},
+															pos: position{line: 1079, col: 5, offset: 33123},
 															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1073, col: 5, offset: 32961},
+																pos: position{line: 1079, col: 5, offset: 33123},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1073, col: 5, offset: 32961},
+																		pos: position{line: 1079, col: 5, offset: 33123},
 																		expr: &choiceExpr{
-																			pos: position{line: 1066, col: 5, offset: 32807},
+																			pos: position{line: 1072, col: 5, offset: 32969},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1066, col: 5, offset: 32807},
+																					pos: position{line: 1072, col: 5, offset: 32969},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1066, col: 5, offset: 32807},
+																							pos:   position{line: 1072, col: 5, offset: 32969},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 5, offset: 25643},
+																								pos: position{line: 804, col: 5, offset: 25805},
 																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 5, offset: 25643},
+																									pos: position{line: 804, col: 5, offset: 25805},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 798, col: 5, offset: 25643},
+																											pos:   position{line: 804, col: 5, offset: 25805},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 798, col: 16, offset: 25654},
+																												pos: position{line: 804, col: 16, offset: 25816},
 																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
-																													pos: position{line: 798, col: 16, offset: 25654},
+																													pos: position{line: 804, col: 16, offset: 25816},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 798, col: 16, offset: 25654},
+																															pos:        position{line: 804, col: 16, offset: 25816},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 798, col: 23, offset: 25661},
+																															pos: position{line: 804, col: 23, offset: 25823},
 																															expr: &litMatcher{
-																																pos:        position{line: 798, col: 23, offset: 25661},
+																																pos:        position{line: 804, col: 23, offset: 25823},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35169,12 +35175,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 8, offset: 25745},
+																											pos: position{line: 806, col: 8, offset: 25907},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35183,28 +35189,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35213,9 +35219,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -35225,45 +35231,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1067, col: 5, offset: 32836},
+																							pos: position{line: 1073, col: 5, offset: 32998},
 																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1074, col: 5, offset: 32989},
+																		pos:   position{line: 1080, col: 5, offset: 33151},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35273,28 +35279,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35303,9 +35309,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -35320,44 +35326,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1059, col: 5, offset: 32611},
+													pos:   position{line: 1065, col: 5, offset: 32773},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1059, col: 9, offset: 32615},
+														pos: position{line: 1065, col: 9, offset: 32777},
 														expr: &choiceExpr{
-															pos: position{line: 1066, col: 5, offset: 32807},
+															pos: position{line: 1072, col: 5, offset: 32969},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1066, col: 5, offset: 32807},
+																	pos: position{line: 1072, col: 5, offset: 32969},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1066, col: 5, offset: 32807},
+																			pos:   position{line: 1072, col: 5, offset: 32969},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 798, col: 5, offset: 25643},
+																				pos: position{line: 804, col: 5, offset: 25805},
 																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
-																					pos: position{line: 798, col: 5, offset: 25643},
+																					pos: position{line: 804, col: 5, offset: 25805},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 798, col: 5, offset: 25643},
+																							pos:   position{line: 804, col: 5, offset: 25805},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 798, col: 16, offset: 25654},
+																								pos: position{line: 804, col: 16, offset: 25816},
 																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
-																									pos: position{line: 798, col: 16, offset: 25654},
+																									pos: position{line: 804, col: 16, offset: 25816},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 798, col: 16, offset: 25654},
+																											pos:        position{line: 804, col: 16, offset: 25816},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 23, offset: 25661},
+																											pos: position{line: 804, col: 23, offset: 25823},
 																											expr: &litMatcher{
-																												pos:        position{line: 798, col: 23, offset: 25661},
+																												pos:        position{line: 804, col: 23, offset: 25823},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35368,12 +35374,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 8, offset: 25745},
+																							pos: position{line: 806, col: 8, offset: 25907},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35382,28 +35388,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35412,9 +35418,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -35424,15 +35430,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1067, col: 5, offset: 32836},
+																			pos: position{line: 1073, col: 5, offset: 32998},
 																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -35443,39 +35449,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1082, col: 5, offset: 33144},
+										pos: position{line: 1088, col: 5, offset: 33306},
 										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1082, col: 5, offset: 33144},
+											pos: position{line: 1088, col: 5, offset: 33306},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1082, col: 5, offset: 33144},
+													pos:   position{line: 1088, col: 5, offset: 33306},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 805, col: 5, offset: 25889},
+														pos: position{line: 811, col: 5, offset: 26051},
 														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
-															pos: position{line: 805, col: 5, offset: 25889},
+															pos: position{line: 811, col: 5, offset: 26051},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 805, col: 5, offset: 25889},
+																	pos:   position{line: 811, col: 5, offset: 26051},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 805, col: 16, offset: 25900},
+																		pos: position{line: 811, col: 16, offset: 26062},
 																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
-																			pos: position{line: 805, col: 16, offset: 25900},
+																			pos: position{line: 811, col: 16, offset: 26062},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 805, col: 16, offset: 25900},
+																					pos:        position{line: 811, col: 16, offset: 26062},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 805, col: 23, offset: 25907},
+																					pos: position{line: 811, col: 23, offset: 26069},
 																					expr: &litMatcher{
-																						pos:        position{line: 805, col: 23, offset: 25907},
+																						pos:        position{line: 811, col: 23, offset: 26069},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35486,12 +35492,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 807, col: 8, offset: 25991},
+																	pos: position{line: 813, col: 8, offset: 26153},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35500,28 +35506,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35530,9 +35536,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -35542,56 +35548,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1083, col: 5, offset: 33183},
+													pos: position{line: 1089, col: 5, offset: 33345},
 													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33275},
+													pos:   position{line: 1092, col: 5, offset: 33437},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1101, col: 4, offset: 33672},
+														pos: position{line: 1107, col: 4, offset: 33834},
 														expr: &actionExpr{
-															pos: position{line: 1101, col: 5, offset: 33673},
+															pos: position{line: 1107, col: 5, offset: 33835},
 															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1101, col: 5, offset: 33673},
+																pos: position{line: 1107, col: 5, offset: 33835},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1101, col: 5, offset: 33673},
+																		pos: position{line: 1107, col: 5, offset: 33835},
 																		expr: &choiceExpr{
-																			pos: position{line: 1094, col: 5, offset: 33515},
+																			pos: position{line: 1100, col: 5, offset: 33677},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1094, col: 5, offset: 33515},
+																					pos: position{line: 1100, col: 5, offset: 33677},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1094, col: 5, offset: 33515},
+																							pos:   position{line: 1100, col: 5, offset: 33677},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 5, offset: 25889},
+																								pos: position{line: 811, col: 5, offset: 26051},
 																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 5, offset: 25889},
+																									pos: position{line: 811, col: 5, offset: 26051},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 805, col: 5, offset: 25889},
+																											pos:   position{line: 811, col: 5, offset: 26051},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 805, col: 16, offset: 25900},
+																												pos: position{line: 811, col: 16, offset: 26062},
 																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
-																													pos: position{line: 805, col: 16, offset: 25900},
+																													pos: position{line: 811, col: 16, offset: 26062},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 805, col: 16, offset: 25900},
+																															pos:        position{line: 811, col: 16, offset: 26062},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 805, col: 23, offset: 25907},
+																															pos: position{line: 811, col: 23, offset: 26069},
 																															expr: &litMatcher{
-																																pos:        position{line: 805, col: 23, offset: 25907},
+																																pos:        position{line: 811, col: 23, offset: 26069},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35602,12 +35608,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 8, offset: 25991},
+																											pos: position{line: 813, col: 8, offset: 26153},
 																											expr: &actionExpr{
-																												pos: position{line: 2867, col: 10, offset: 90753},
+																												pos: position{line: 2873, col: 10, offset: 90915},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2867, col: 10, offset: 90753},
+																													pos:        position{line: 2873, col: 10, offset: 90915},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35616,28 +35622,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2889, col: 8, offset: 91151},
+																											pos: position{line: 2895, col: 8, offset: 91313},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2876, col: 12, offset: 90924},
+																													pos: position{line: 2882, col: 12, offset: 91086},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2876, col: 13, offset: 90925},
+																														pos: position{line: 2882, col: 13, offset: 91087},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35646,9 +35652,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2886, col: 8, offset: 91101},
+																													pos: position{line: 2892, col: 8, offset: 91263},
 																													expr: &anyMatcher{
-																														line: 2886, col: 9, offset: 91102,
+																														line: 2892, col: 9, offset: 91264,
 																													},
 																												},
 																											},
@@ -35658,45 +35664,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1095, col: 5, offset: 33546},
+																							pos: position{line: 1101, col: 5, offset: 33708},
 																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1102, col: 5, offset: 33703},
+																		pos:   position{line: 1108, col: 5, offset: 33865},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 812, col: 5, offset: 26137},
+																			pos: position{line: 818, col: 5, offset: 26299},
 																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
-																				pos: position{line: 812, col: 5, offset: 26137},
+																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2884, col: 11, offset: 91087},
+																						pos: position{line: 2890, col: 11, offset: 91249},
 																						expr: &anyMatcher{
-																							line: 2884, col: 13, offset: 91089,
+																							line: 2890, col: 13, offset: 91251,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 813, col: 5, offset: 26212},
+																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2813, col: 13, offset: 89279},
+																							pos: position{line: 2819, col: 13, offset: 89441},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2813, col: 13, offset: 89279},
+																								pos: position{line: 2819, col: 13, offset: 89441},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 13, offset: 89279},
+																									pos:        position{line: 2819, col: 13, offset: 89441},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35706,28 +35712,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35736,9 +35742,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -35753,44 +35759,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1087, col: 5, offset: 33309},
+													pos:   position{line: 1093, col: 5, offset: 33471},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1087, col: 9, offset: 33313},
+														pos: position{line: 1093, col: 9, offset: 33475},
 														expr: &choiceExpr{
-															pos: position{line: 1094, col: 5, offset: 33515},
+															pos: position{line: 1100, col: 5, offset: 33677},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1094, col: 5, offset: 33515},
+																	pos: position{line: 1100, col: 5, offset: 33677},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1094, col: 5, offset: 33515},
+																			pos:   position{line: 1100, col: 5, offset: 33677},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 805, col: 5, offset: 25889},
+																				pos: position{line: 811, col: 5, offset: 26051},
 																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
-																					pos: position{line: 805, col: 5, offset: 25889},
+																					pos: position{line: 811, col: 5, offset: 26051},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 805, col: 5, offset: 25889},
+																							pos:   position{line: 811, col: 5, offset: 26051},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 805, col: 16, offset: 25900},
+																								pos: position{line: 811, col: 16, offset: 26062},
 																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
-																									pos: position{line: 805, col: 16, offset: 25900},
+																									pos: position{line: 811, col: 16, offset: 26062},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 805, col: 16, offset: 25900},
+																											pos:        position{line: 811, col: 16, offset: 26062},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 23, offset: 25907},
+																											pos: position{line: 811, col: 23, offset: 26069},
 																											expr: &litMatcher{
-																												pos:        position{line: 805, col: 23, offset: 25907},
+																												pos:        position{line: 811, col: 23, offset: 26069},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35801,12 +35807,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 8, offset: 25991},
+																							pos: position{line: 813, col: 8, offset: 26153},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35815,28 +35821,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35845,9 +35851,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -35857,15 +35863,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1095, col: 5, offset: 33546},
+																			pos: position{line: 1101, col: 5, offset: 33708},
 																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -35876,27 +35882,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2712, col: 18, offset: 86343},
+										pos: position{line: 2718, col: 18, offset: 86505},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2713, col: 9, offset: 86353},
+											pos: position{line: 2719, col: 9, offset: 86515},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2713, col: 9, offset: 86353},
+													pos: position{line: 2719, col: 9, offset: 86515},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2713, col: 9, offset: 86353},
+															pos:        position{line: 2719, col: 9, offset: 86515},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2713, col: 15, offset: 86359},
+															pos: position{line: 2719, col: 15, offset: 86521},
 															expr: &actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35905,28 +35911,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2889, col: 8, offset: 91151},
+															pos: position{line: 2895, col: 8, offset: 91313},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2876, col: 12, offset: 90924},
+																	pos: position{line: 2882, col: 12, offset: 91086},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2876, col: 13, offset: 90925},
+																		pos: position{line: 2882, col: 13, offset: 91087},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 13, offset: 90925},
+																				pos:        position{line: 2882, col: 13, offset: 91087},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 20, offset: 90932},
+																				pos:        position{line: 2882, col: 20, offset: 91094},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 29, offset: 90941},
+																				pos:        position{line: 2882, col: 29, offset: 91103},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35935,9 +35941,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -35945,43 +35951,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2714, col: 11, offset: 86392},
+													pos: position{line: 2720, col: 11, offset: 86554},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2714, col: 12, offset: 86393},
+															pos: position{line: 2720, col: 12, offset: 86555},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2714, col: 12, offset: 86393},
+																	pos:        position{line: 2720, col: 12, offset: 86555},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 20, offset: 86401},
+																	pos:        position{line: 2720, col: 20, offset: 86563},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 30, offset: 86411},
+																	pos:        position{line: 2720, col: 30, offset: 86573},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 38, offset: 86419},
+																	pos:        position{line: 2720, col: 38, offset: 86581},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 48, offset: 86429},
+																	pos:        position{line: 2720, col: 48, offset: 86591},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2714, col: 56, offset: 86437},
+																	pos:        position{line: 2720, col: 56, offset: 86599},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35989,12 +35995,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2714, col: 65, offset: 86446},
+															pos: position{line: 2720, col: 65, offset: 86608},
 															expr: &actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36003,28 +36009,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2889, col: 8, offset: 91151},
+															pos: position{line: 2895, col: 8, offset: 91313},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2876, col: 12, offset: 90924},
+																	pos: position{line: 2882, col: 12, offset: 91086},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2876, col: 13, offset: 90925},
+																		pos: position{line: 2882, col: 13, offset: 91087},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 13, offset: 90925},
+																				pos:        position{line: 2882, col: 13, offset: 91087},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 20, offset: 90932},
+																				pos:        position{line: 2882, col: 20, offset: 91094},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 29, offset: 90941},
+																				pos:        position{line: 2882, col: 29, offset: 91103},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36033,38 +36039,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2714, col: 76, offset: 86457},
+															pos: position{line: 2720, col: 76, offset: 86619},
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36073,9 +36079,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -36087,28 +36093,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1562, col: 11, offset: 50385},
+										pos:  position{line: 1568, col: 11, offset: 50547},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2603, col: 5, offset: 83279},
+										pos: position{line: 2609, col: 5, offset: 83441},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2603, col: 5, offset: 83279},
+											pos: position{line: 2609, col: 5, offset: 83441},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2609, col: 19, offset: 83436},
+													pos:        position{line: 2615, col: 19, offset: 83598},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2609, col: 26, offset: 83443},
+													pos: position{line: 2615, col: 26, offset: 83605},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36117,28 +36123,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36147,40 +36153,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2604, col: 5, offset: 83303},
+													pos:   position{line: 2610, col: 5, offset: 83465},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2604, col: 11, offset: 83309},
+														pos: position{line: 2610, col: 11, offset: 83471},
 														expr: &choiceExpr{
-															pos: position{line: 2604, col: 12, offset: 83310},
+															pos: position{line: 2610, col: 12, offset: 83472},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 678, col: 14, offset: 21519},
+																	pos: position{line: 684, col: 14, offset: 21681},
 																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
-																		pos: position{line: 678, col: 14, offset: 21519},
+																		pos: position{line: 684, col: 14, offset: 21681},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2884, col: 11, offset: 91087},
+																				pos: position{line: 2890, col: 11, offset: 91249},
 																				expr: &anyMatcher{
-																					line: 2884, col: 13, offset: 91089,
+																					line: 2890, col: 13, offset: 91251,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 678, col: 21, offset: 21526},
+																				pos: position{line: 684, col: 21, offset: 21688},
 																				expr: &actionExpr{
-																					pos: position{line: 2867, col: 10, offset: 90753},
+																					pos: position{line: 2873, col: 10, offset: 90915},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 10, offset: 90753},
+																						pos:        position{line: 2873, col: 10, offset: 90915},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36189,28 +36195,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2889, col: 8, offset: 91151},
+																				pos: position{line: 2895, col: 8, offset: 91313},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2876, col: 12, offset: 90924},
+																						pos: position{line: 2882, col: 12, offset: 91086},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2876, col: 13, offset: 90925},
+																							pos: position{line: 2882, col: 13, offset: 91087},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 13, offset: 90925},
+																									pos:        position{line: 2882, col: 13, offset: 91087},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 20, offset: 90932},
+																									pos:        position{line: 2882, col: 20, offset: 91094},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 29, offset: 90941},
+																									pos:        position{line: 2882, col: 29, offset: 91103},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36219,9 +36225,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
@@ -36230,32 +36236,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2616, col: 5, offset: 83555},
+																	pos: position{line: 2622, col: 5, offset: 83717},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2616, col: 5, offset: 83555},
+																		pos: position{line: 2622, col: 5, offset: 83717},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2616, col: 5, offset: 83555},
+																				pos: position{line: 2622, col: 5, offset: 83717},
 																				expr: &choiceExpr{
-																					pos: position{line: 2613, col: 22, offset: 83516},
+																					pos: position{line: 2619, col: 22, offset: 83678},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2609, col: 19, offset: 83436},
+																							pos: position{line: 2615, col: 19, offset: 83598},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2609, col: 19, offset: 83436},
+																									pos:        position{line: 2615, col: 19, offset: 83598},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2609, col: 26, offset: 83443},
+																									pos: position{line: 2615, col: 26, offset: 83605},
 																									expr: &actionExpr{
-																										pos: position{line: 2867, col: 10, offset: 90753},
+																										pos: position{line: 2873, col: 10, offset: 90915},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 10, offset: 90753},
+																											pos:        position{line: 2873, col: 10, offset: 90915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36264,28 +36270,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36294,9 +36300,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
@@ -36304,59 +36310,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2617, col: 5, offset: 83578},
+																				pos:   position{line: 2623, col: 5, offset: 83740},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2618, col: 9, offset: 83596},
+																					pos: position{line: 2624, col: 9, offset: 83758},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2618, col: 10, offset: 83597},
+																							pos: position{line: 2624, col: 10, offset: 83759},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2618, col: 10, offset: 83597},
+																								pos:   position{line: 2624, col: 10, offset: 83759},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2618, col: 17, offset: 83604},
+																									pos: position{line: 2624, col: 17, offset: 83766},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2626, col: 21, offset: 83800},
+																											pos: position{line: 2632, col: 21, offset: 83962},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2626, col: 21, offset: 83800},
+																												pos: position{line: 2632, col: 21, offset: 83962},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2626, col: 21, offset: 83800},
+																														pos:   position{line: 2632, col: 21, offset: 83962},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2626, col: 27, offset: 83806},
+																															pos: position{line: 2632, col: 27, offset: 83968},
 																															expr: &actionExpr{
-																																pos: position{line: 2631, col: 5, offset: 83881},
+																																pos: position{line: 2637, col: 5, offset: 84043},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2631, col: 5, offset: 83881},
+																																	pos: position{line: 2637, col: 5, offset: 84043},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2631, col: 5, offset: 83881},
+																																			pos:        position{line: 2637, col: 5, offset: 84043},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2631, col: 9, offset: 83885},
+																																			pos: position{line: 2637, col: 9, offset: 84047},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2867, col: 10, offset: 90753},
+																																				pos: position{line: 2873, col: 10, offset: 90915},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2867, col: 10, offset: 90753},
+																																					pos:        position{line: 2873, col: 10, offset: 90915},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36365,21 +36371,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2631, col: 16, offset: 83892},
+																																			pos:   position{line: 2637, col: 16, offset: 84054},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2637, col: 5, offset: 84092},
+																																				pos: position{line: 2643, col: 5, offset: 84254},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2637, col: 5, offset: 84092},
+																																					pos:   position{line: 2643, col: 5, offset: 84254},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2637, col: 14, offset: 84101},
+																																						pos: position{line: 2643, col: 14, offset: 84263},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2637, col: 14, offset: 84101},
+																																							pos: position{line: 2643, col: 14, offset: 84263},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2637, col: 14, offset: 84101},
+																																								pos:        position{line: 2643, col: 14, offset: 84263},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36396,28 +36402,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2889, col: 8, offset: 91151},
+																														pos: position{line: 2895, col: 8, offset: 91313},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2876, col: 12, offset: 90924},
+																																pos: position{line: 2882, col: 12, offset: 91086},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2876, col: 13, offset: 90925},
+																																	pos: position{line: 2882, col: 13, offset: 91087},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2876, col: 13, offset: 90925},
+																																			pos:        position{line: 2882, col: 13, offset: 91087},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2876, col: 20, offset: 90932},
+																																			pos:        position{line: 2882, col: 20, offset: 91094},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2876, col: 29, offset: 90941},
+																																			pos:        position{line: 2882, col: 29, offset: 91103},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36426,9 +36432,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2886, col: 8, offset: 91101},
+																																pos: position{line: 2892, col: 8, offset: 91263},
 																																expr: &anyMatcher{
-																																	line: 2886, col: 9, offset: 91102,
+																																	line: 2892, col: 9, offset: 91264,
 																																},
 																															},
 																														},
@@ -36437,40 +36443,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2643, col: 24, offset: 84237},
+																											pos: position{line: 2649, col: 24, offset: 84399},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2643, col: 24, offset: 84237},
+																												pos:   position{line: 2649, col: 24, offset: 84399},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2643, col: 30, offset: 84243},
+																													pos: position{line: 2649, col: 30, offset: 84405},
 																													expr: &actionExpr{
-																														pos: position{line: 2648, col: 5, offset: 84319},
+																														pos: position{line: 2654, col: 5, offset: 84481},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2648, col: 5, offset: 84319},
+																															pos: position{line: 2654, col: 5, offset: 84481},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2648, col: 5, offset: 84319},
+																																	pos: position{line: 2654, col: 5, offset: 84481},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2613, col: 22, offset: 83516},
+																																		pos: position{line: 2619, col: 22, offset: 83678},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2609, col: 19, offset: 83436},
+																																				pos: position{line: 2615, col: 19, offset: 83598},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2609, col: 19, offset: 83436},
+																																						pos:        position{line: 2615, col: 19, offset: 83598},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2609, col: 26, offset: 83443},
+																																						pos: position{line: 2615, col: 26, offset: 83605},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2867, col: 10, offset: 90753},
+																																							pos: position{line: 2873, col: 10, offset: 90915},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2867, col: 10, offset: 90753},
+																																								pos:        position{line: 2873, col: 10, offset: 90915},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36479,28 +36485,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2889, col: 8, offset: 91151},
+																																						pos: position{line: 2895, col: 8, offset: 91313},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2876, col: 12, offset: 90924},
+																																								pos: position{line: 2882, col: 12, offset: 91086},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2876, col: 13, offset: 90925},
+																																									pos: position{line: 2882, col: 13, offset: 91087},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 13, offset: 90925},
+																																											pos:        position{line: 2882, col: 13, offset: 91087},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 20, offset: 90932},
+																																											pos:        position{line: 2882, col: 20, offset: 91094},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2876, col: 29, offset: 90941},
+																																											pos:        position{line: 2882, col: 29, offset: 91103},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36509,9 +36515,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2886, col: 8, offset: 91101},
+																																								pos: position{line: 2892, col: 8, offset: 91263},
 																																								expr: &anyMatcher{
-																																									line: 2886, col: 9, offset: 91102,
+																																									line: 2892, col: 9, offset: 91264,
 																																								},
 																																							},
 																																						},
@@ -36519,35 +36525,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2886, col: 8, offset: 91101},
+																																				pos: position{line: 2892, col: 8, offset: 91263},
 																																				expr: &anyMatcher{
-																																					line: 2886, col: 9, offset: 91102,
+																																					line: 2892, col: 9, offset: 91264,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2649, col: 5, offset: 84342},
+																																	pos: position{line: 2655, col: 5, offset: 84504},
 																																	expr: &actionExpr{
-																																		pos: position{line: 678, col: 14, offset: 21519},
+																																		pos: position{line: 684, col: 14, offset: 21681},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
-																																			pos: position{line: 678, col: 14, offset: 21519},
+																																			pos: position{line: 684, col: 14, offset: 21681},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2884, col: 11, offset: 91087},
+																																					pos: position{line: 2890, col: 11, offset: 91249},
 																																					expr: &anyMatcher{
-																																						line: 2884, col: 13, offset: 91089,
+																																						line: 2890, col: 13, offset: 91251,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 678, col: 21, offset: 21526},
+																																					pos: position{line: 684, col: 21, offset: 21688},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2867, col: 10, offset: 90753},
+																																						pos: position{line: 2873, col: 10, offset: 90915},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2867, col: 10, offset: 90753},
+																																							pos:        position{line: 2873, col: 10, offset: 90915},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36556,28 +36562,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2889, col: 8, offset: 91151},
+																																					pos: position{line: 2895, col: 8, offset: 91313},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2876, col: 12, offset: 90924},
+																																							pos: position{line: 2882, col: 12, offset: 91086},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2876, col: 13, offset: 90925},
+																																								pos: position{line: 2882, col: 13, offset: 91087},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2876, col: 13, offset: 90925},
+																																										pos:        position{line: 2882, col: 13, offset: 91087},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2876, col: 20, offset: 90932},
+																																										pos:        position{line: 2882, col: 20, offset: 91094},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2876, col: 29, offset: 90941},
+																																										pos:        position{line: 2882, col: 29, offset: 91103},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36586,9 +36592,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2886, col: 8, offset: 91101},
+																																							pos: position{line: 2892, col: 8, offset: 91263},
 																																							expr: &anyMatcher{
-																																								line: 2886, col: 9, offset: 91102,
+																																								line: 2892, col: 9, offset: 91264,
 																																							},
 																																						},
 																																					},
@@ -36598,17 +36604,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2650, col: 5, offset: 84357},
+																																	pos:   position{line: 2656, col: 5, offset: 84519},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2650, col: 12, offset: 84364},
+																																		pos: position{line: 2656, col: 12, offset: 84526},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2667, col: 20, offset: 84828},
+																																			pos: position{line: 2673, col: 20, offset: 84990},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2667, col: 20, offset: 84828},
+																																				pos: position{line: 2673, col: 20, offset: 84990},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2667, col: 20, offset: 84828},
+																																					pos:        position{line: 2673, col: 20, offset: 84990},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36619,18 +36625,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2650, col: 31, offset: 84383},
+																																	pos:        position{line: 2656, col: 31, offset: 84545},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2650, col: 35, offset: 84387},
+																																	pos: position{line: 2656, col: 35, offset: 84549},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2867, col: 10, offset: 90753},
+																																		pos: position{line: 2873, col: 10, offset: 90915},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2867, col: 10, offset: 90753},
+																																			pos:        position{line: 2873, col: 10, offset: 90915},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36639,27 +36645,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2650, col: 42, offset: 84394},
+																																	pos: position{line: 2656, col: 42, offset: 84556},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2876, col: 12, offset: 90924},
+																																		pos: position{line: 2882, col: 12, offset: 91086},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2876, col: 13, offset: 90925},
+																																			pos: position{line: 2882, col: 13, offset: 91087},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 13, offset: 90925},
+																																					pos:        position{line: 2882, col: 13, offset: 91087},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 20, offset: 90932},
+																																					pos:        position{line: 2882, col: 20, offset: 91094},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2876, col: 29, offset: 90941},
+																																					pos:        position{line: 2882, col: 29, offset: 91103},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36669,37 +36675,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2650, col: 51, offset: 84403},
+																																	pos:   position{line: 2656, col: 51, offset: 84565},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2656, col: 5, offset: 84562},
+																																		pos: position{line: 2662, col: 5, offset: 84724},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2657, col: 9, offset: 84572},
+																																			pos: position{line: 2663, col: 9, offset: 84734},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2657, col: 9, offset: 84572},
+																																				pos: position{line: 2663, col: 9, offset: 84734},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2657, col: 9, offset: 84572},
+																																						pos: position{line: 2663, col: 9, offset: 84734},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2613, col: 22, offset: 83516},
+																																							pos: position{line: 2619, col: 22, offset: 83678},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2609, col: 19, offset: 83436},
+																																									pos: position{line: 2615, col: 19, offset: 83598},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2609, col: 19, offset: 83436},
+																																											pos:        position{line: 2615, col: 19, offset: 83598},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2609, col: 26, offset: 83443},
+																																											pos: position{line: 2615, col: 26, offset: 83605},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2867, col: 10, offset: 90753},
+																																												pos: position{line: 2873, col: 10, offset: 90915},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2867, col: 10, offset: 90753},
+																																													pos:        position{line: 2873, col: 10, offset: 90915},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36708,28 +36714,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2889, col: 8, offset: 91151},
+																																											pos: position{line: 2895, col: 8, offset: 91313},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2876, col: 12, offset: 90924},
+																																													pos: position{line: 2882, col: 12, offset: 91086},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2876, col: 13, offset: 90925},
+																																														pos: position{line: 2882, col: 13, offset: 91087},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 13, offset: 90925},
+																																																pos:        position{line: 2882, col: 13, offset: 91087},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 20, offset: 90932},
+																																																pos:        position{line: 2882, col: 20, offset: 91094},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2876, col: 29, offset: 90941},
+																																																pos:        position{line: 2882, col: 29, offset: 91103},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36738,9 +36744,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2886, col: 8, offset: 91101},
+																																													pos: position{line: 2892, col: 8, offset: 91263},
 																																													expr: &anyMatcher{
-																																														line: 2886, col: 9, offset: 91102,
+																																														line: 2892, col: 9, offset: 91264,
 																																													},
 																																												},
 																																											},
@@ -36748,35 +36754,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2886, col: 8, offset: 91101},
+																																									pos: position{line: 2892, col: 8, offset: 91263},
 																																									expr: &anyMatcher{
-																																										line: 2886, col: 9, offset: 91102,
+																																										line: 2892, col: 9, offset: 91264,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2658, col: 9, offset: 84599},
+																																						pos: position{line: 2664, col: 9, offset: 84761},
 																																						expr: &actionExpr{
-																																							pos: position{line: 678, col: 14, offset: 21519},
+																																							pos: position{line: 684, col: 14, offset: 21681},
 																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
-																																								pos: position{line: 678, col: 14, offset: 21519},
+																																								pos: position{line: 684, col: 14, offset: 21681},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2884, col: 11, offset: 91087},
+																																										pos: position{line: 2890, col: 11, offset: 91249},
 																																										expr: &anyMatcher{
-																																											line: 2884, col: 13, offset: 91089,
+																																											line: 2890, col: 13, offset: 91251,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 678, col: 21, offset: 21526},
+																																										pos: position{line: 684, col: 21, offset: 21688},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2867, col: 10, offset: 90753},
+																																											pos: position{line: 2873, col: 10, offset: 90915},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2867, col: 10, offset: 90753},
+																																												pos:        position{line: 2873, col: 10, offset: 90915},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36785,28 +36791,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2889, col: 8, offset: 91151},
+																																										pos: position{line: 2895, col: 8, offset: 91313},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2876, col: 12, offset: 90924},
+																																												pos: position{line: 2882, col: 12, offset: 91086},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2876, col: 13, offset: 90925},
+																																													pos: position{line: 2882, col: 13, offset: 91087},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2876, col: 13, offset: 90925},
+																																															pos:        position{line: 2882, col: 13, offset: 91087},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2876, col: 20, offset: 90932},
+																																															pos:        position{line: 2882, col: 20, offset: 91094},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2876, col: 29, offset: 90941},
+																																															pos:        position{line: 2882, col: 29, offset: 91103},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36815,9 +36821,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2886, col: 8, offset: 91101},
+																																												pos: position{line: 2892, col: 8, offset: 91263},
 																																												expr: &anyMatcher{
-																																													line: 2886, col: 9, offset: 91102,
+																																													line: 2892, col: 9, offset: 91264,
 																																												},
 																																											},
 																																										},
@@ -36827,22 +36833,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2659, col: 9, offset: 84618},
+																																						pos: position{line: 2665, col: 9, offset: 84780},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2659, col: 11, offset: 84620},
+																																							pos: position{line: 2665, col: 11, offset: 84782},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2659, col: 11, offset: 84620},
+																																									pos:   position{line: 2665, col: 11, offset: 84782},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2659, col: 18, offset: 84627},
+																																										pos: position{line: 2665, col: 18, offset: 84789},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2667, col: 20, offset: 84828},
+																																											pos: position{line: 2673, col: 20, offset: 84990},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2667, col: 20, offset: 84828},
+																																												pos: position{line: 2673, col: 20, offset: 84990},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2667, col: 20, offset: 84828},
+																																													pos:        position{line: 2673, col: 20, offset: 84990},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36853,7 +36859,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2659, col: 37, offset: 84646},
+																																									pos:        position{line: 2665, col: 37, offset: 84808},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36862,15 +36868,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2660, col: 9, offset: 84659},
+																																						pos:   position{line: 2666, col: 9, offset: 84821},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2660, col: 18, offset: 84668},
+																																							pos: position{line: 2666, col: 18, offset: 84830},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2660, col: 18, offset: 84668},
+																																								pos: position{line: 2666, col: 18, offset: 84830},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2660, col: 18, offset: 84668},
+																																									pos:        position{line: 2666, col: 18, offset: 84830},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36880,30 +36886,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2662, col: 12, offset: 84730},
+																																						pos: position{line: 2668, col: 12, offset: 84892},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2889, col: 8, offset: 91151},
+																																							pos: position{line: 2895, col: 8, offset: 91313},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2876, col: 12, offset: 90924},
+																																									pos: position{line: 2882, col: 12, offset: 91086},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2876, col: 13, offset: 90925},
+																																										pos: position{line: 2882, col: 13, offset: 91087},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 13, offset: 90925},
+																																												pos:        position{line: 2882, col: 13, offset: 91087},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 20, offset: 90932},
+																																												pos:        position{line: 2882, col: 20, offset: 91094},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2876, col: 29, offset: 90941},
+																																												pos:        position{line: 2882, col: 29, offset: 91103},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36912,9 +36918,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2886, col: 8, offset: 91101},
+																																									pos: position{line: 2892, col: 8, offset: 91263},
 																																									expr: &anyMatcher{
-																																										line: 2886, col: 9, offset: 91102,
+																																										line: 2892, col: 9, offset: 91264,
 																																									},
 																																								},
 																																							},
@@ -36936,24 +36942,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 14, offset: 21519},
+																							pos: position{line: 684, col: 14, offset: 21681},
 																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 14, offset: 21519},
+																								pos: position{line: 684, col: 14, offset: 21681},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2884, col: 11, offset: 91087},
+																										pos: position{line: 2890, col: 11, offset: 91249},
 																										expr: &anyMatcher{
-																											line: 2884, col: 13, offset: 91089,
+																											line: 2890, col: 13, offset: 91251,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 678, col: 21, offset: 21526},
+																										pos: position{line: 684, col: 21, offset: 21688},
 																										expr: &actionExpr{
-																											pos: position{line: 2867, col: 10, offset: 90753},
+																											pos: position{line: 2873, col: 10, offset: 90915},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2867, col: 10, offset: 90753},
+																												pos:        position{line: 2873, col: 10, offset: 90915},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36962,28 +36968,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2889, col: 8, offset: 91151},
+																										pos: position{line: 2895, col: 8, offset: 91313},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2876, col: 12, offset: 90924},
+																												pos: position{line: 2882, col: 12, offset: 91086},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2876, col: 13, offset: 90925},
+																													pos: position{line: 2882, col: 13, offset: 91087},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 13, offset: 90925},
+																															pos:        position{line: 2882, col: 13, offset: 91087},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 20, offset: 90932},
+																															pos:        position{line: 2882, col: 20, offset: 91094},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2876, col: 29, offset: 90941},
+																															pos:        position{line: 2882, col: 29, offset: 91103},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36992,9 +36998,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2886, col: 8, offset: 91101},
+																												pos: position{line: 2892, col: 8, offset: 91263},
 																												expr: &anyMatcher{
-																													line: 2886, col: 9, offset: 91102,
+																													line: 2892, col: 9, offset: 91264,
 																												},
 																											},
 																										},
@@ -37013,24 +37019,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2613, col: 22, offset: 83516},
+													pos: position{line: 2619, col: 22, offset: 83678},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2609, col: 19, offset: 83436},
+															pos: position{line: 2615, col: 19, offset: 83598},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2609, col: 19, offset: 83436},
+																	pos:        position{line: 2615, col: 19, offset: 83598},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2609, col: 26, offset: 83443},
+																	pos: position{line: 2615, col: 26, offset: 83605},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37039,28 +37045,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37069,9 +37075,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -37079,9 +37085,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -37090,36 +37096,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2477, col: 22, offset: 79738},
+										pos: position{line: 2483, col: 22, offset: 79900},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2477, col: 22, offset: 79738},
+											pos: position{line: 2483, col: 22, offset: 79900},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2482, col: 31, offset: 79959},
+													pos:        position{line: 2488, col: 31, offset: 80121},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2482, col: 36, offset: 79964},
+													pos: position{line: 2488, col: 36, offset: 80126},
 													expr: &litMatcher{
-														pos:        position{line: 2482, col: 37, offset: 79965},
+														pos:        position{line: 2488, col: 37, offset: 80127},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 49, offset: 79765},
+													pos:   position{line: 2483, col: 49, offset: 79927},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2813, col: 13, offset: 89279},
+														pos: position{line: 2819, col: 13, offset: 89441},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2813, col: 13, offset: 89279},
+															pos: position{line: 2819, col: 13, offset: 89441},
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 13, offset: 89279},
+																pos:        position{line: 2819, col: 13, offset: 89441},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37129,28 +37135,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2889, col: 8, offset: 91151},
+													pos: position{line: 2895, col: 8, offset: 91313},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37159,9 +37165,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2886, col: 8, offset: 91101},
+															pos: position{line: 2892, col: 8, offset: 91263},
 															expr: &anyMatcher{
-																line: 2886, col: 9, offset: 91102,
+																line: 2892, col: 9, offset: 91264,
 															},
 														},
 													},
@@ -37170,94 +37176,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1575, col: 5, offset: 50815},
+										pos: position{line: 1581, col: 5, offset: 50977},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1575, col: 5, offset: 50815},
+											pos: position{line: 1581, col: 5, offset: 50977},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1575, col: 5, offset: 50815},
+													pos:   position{line: 1581, col: 5, offset: 50977},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1575, col: 11, offset: 50821},
+														pos: position{line: 1581, col: 11, offset: 50983},
 														expr: &actionExpr{
-															pos: position{line: 1739, col: 5, offset: 56138},
+															pos: position{line: 1745, col: 5, offset: 56300},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1739, col: 5, offset: 56138},
+																pos: position{line: 1745, col: 5, offset: 56300},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1739, col: 5, offset: 56138},
+																		pos: position{line: 1745, col: 5, offset: 56300},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1742, col: 5, offset: 56201},
+																		pos:   position{line: 1748, col: 5, offset: 56363},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1742, col: 12, offset: 56208},
+																			pos: position{line: 1748, col: 12, offset: 56370},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1742, col: 12, offset: 56208},
+																					pos: position{line: 1748, col: 12, offset: 56370},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 12, offset: 56208},
+																						pos:        position{line: 1748, col: 12, offset: 56370},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56264},
+																					pos: position{line: 1750, col: 13, offset: 56426},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56264},
+																						pos:        position{line: 1750, col: 13, offset: 56426},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56322},
+																					pos: position{line: 1752, col: 13, offset: 56484},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56322},
+																						pos:        position{line: 1752, col: 13, offset: 56484},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56390},
+																					pos: position{line: 1754, col: 13, offset: 56552},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56390},
+																						pos:        position{line: 1754, col: 13, offset: 56552},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56454},
+																					pos: position{line: 1756, col: 13, offset: 56616},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56454},
+																						pos:        position{line: 1756, col: 13, offset: 56616},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56518},
+																					pos: position{line: 1758, col: 13, offset: 56680},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1752, col: 13, offset: 56518},
+																						pos: position{line: 1758, col: 13, offset: 56680},
 																						expr: &actionExpr{
-																							pos: position{line: 2871, col: 11, offset: 90814},
+																							pos: position{line: 2877, col: 11, offset: 90976},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2871, col: 11, offset: 90814},
+																								pos: position{line: 2877, col: 11, offset: 90976},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2871, col: 11, offset: 90814},
+																									pos:        position{line: 2877, col: 11, offset: 90976},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37271,17 +37277,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1754, col: 12, offset: 56598},
+																		pos: position{line: 1760, col: 12, offset: 56760},
 																		expr: &seqExpr{
-																			pos: position{line: 1754, col: 14, offset: 56600},
+																			pos: position{line: 1760, col: 14, offset: 56762},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1754, col: 14, offset: 56600},
+																					pos: position{line: 1760, col: 14, offset: 56762},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37290,28 +37296,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37320,9 +37326,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -37336,35 +37342,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50844},
+													pos:   position{line: 1582, col: 5, offset: 51006},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1519, col: 5, offset: 49140},
+														pos: position{line: 1525, col: 5, offset: 49302},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1519, col: 5, offset: 49140},
+															pos: position{line: 1525, col: 5, offset: 49302},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49140},
+																	pos: position{line: 1525, col: 5, offset: 49302},
 																	expr: &actionExpr{
-																		pos: position{line: 678, col: 14, offset: 21519},
+																		pos: position{line: 684, col: 14, offset: 21681},
 																		run: (*parser).callonListContinuationElement1623,
 																		expr: &seqExpr{
-																			pos: position{line: 678, col: 14, offset: 21519},
+																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2884, col: 11, offset: 91087},
+																					pos: position{line: 2890, col: 11, offset: 91249},
 																					expr: &anyMatcher{
-																						line: 2884, col: 13, offset: 91089,
+																						line: 2890, col: 13, offset: 91251,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 678, col: 21, offset: 21526},
+																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37373,28 +37379,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2889, col: 8, offset: 91151},
+																					pos: position{line: 2895, col: 8, offset: 91313},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37403,9 +37409,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2886, col: 8, offset: 91101},
+																							pos: position{line: 2892, col: 8, offset: 91263},
 																							expr: &anyMatcher{
-																								line: 2886, col: 9, offset: 91102,
+																								line: 2892, col: 9, offset: 91264,
 																							},
 																						},
 																					},
@@ -37415,23 +37421,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49155},
+																	pos: position{line: 1526, col: 5, offset: 49317},
 																	expr: &seqExpr{
-																		pos: position{line: 1550, col: 27, offset: 50060},
+																		pos: position{line: 1556, col: 27, offset: 50222},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1550, col: 27, offset: 50060},
+																				pos:        position{line: 1556, col: 27, offset: 50222},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1550, col: 31, offset: 50064},
+																				pos: position{line: 1556, col: 31, offset: 50226},
 																				expr: &actionExpr{
-																					pos: position{line: 2867, col: 10, offset: 90753},
+																					pos: position{line: 2873, col: 10, offset: 90915},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 10, offset: 90753},
+																						pos:        position{line: 2873, col: 10, offset: 90915},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37440,25 +37446,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37470,20 +37476,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49183},
+																	pos: position{line: 1527, col: 5, offset: 49345},
 																	expr: &actionExpr{
-																		pos: position{line: 1591, col: 5, offset: 51254},
+																		pos: position{line: 1597, col: 5, offset: 51416},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1591, col: 5, offset: 51254},
+																			pos: position{line: 1597, col: 5, offset: 51416},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1591, col: 5, offset: 51254},
+																					pos: position{line: 1597, col: 5, offset: 51416},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37492,27 +37498,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1591, col: 12, offset: 51261},
+																					pos:   position{line: 1597, col: 12, offset: 51423},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1593, col: 9, offset: 51324},
+																						pos: position{line: 1599, col: 9, offset: 51486},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1593, col: 9, offset: 51324},
+																								pos: position{line: 1599, col: 9, offset: 51486},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1593, col: 9, offset: 51324},
+																									pos: position{line: 1599, col: 9, offset: 51486},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1593, col: 9, offset: 51324},
+																											pos:   position{line: 1599, col: 9, offset: 51486},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1593, col: 16, offset: 51331},
+																												pos: position{line: 1599, col: 16, offset: 51493},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1593, col: 16, offset: 51331},
+																													pos: position{line: 1599, col: 16, offset: 51493},
 																													expr: &litMatcher{
-																														pos:        position{line: 1593, col: 17, offset: 51332},
+																														pos:        position{line: 1599, col: 17, offset: 51494},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37521,22 +37527,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1597, col: 9, offset: 51432},
+																											pos: position{line: 1603, col: 9, offset: 51594},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 11, offset: 52149},
+																								pos: position{line: 1622, col: 11, offset: 52311},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 11, offset: 52149},
+																									pos: position{line: 1622, col: 11, offset: 52311},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 11, offset: 52149},
+																											pos: position{line: 1622, col: 11, offset: 52311},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 12, offset: 52150},
+																												pos:        position{line: 1622, col: 12, offset: 52312},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37544,7 +37550,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 20, offset: 52158},
+																											pos:        position{line: 1622, col: 20, offset: 52320},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37553,20 +37559,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52275},
+																								pos: position{line: 1624, col: 13, offset: 52437},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52275},
+																									pos: position{line: 1624, col: 13, offset: 52437},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1618, col: 14, offset: 52276},
+																											pos:        position{line: 1624, col: 14, offset: 52438},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 21, offset: 52283},
+																											pos:        position{line: 1624, col: 21, offset: 52445},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37575,20 +37581,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52403},
+																								pos: position{line: 1626, col: 13, offset: 52565},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52403},
+																									pos: position{line: 1626, col: 13, offset: 52565},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1620, col: 14, offset: 52404},
+																											pos:        position{line: 1626, col: 14, offset: 52566},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 21, offset: 52411},
+																											pos:        position{line: 1626, col: 21, offset: 52573},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37597,15 +37603,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1622, col: 13, offset: 52531},
+																								pos: position{line: 1628, col: 13, offset: 52693},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 13, offset: 52531},
+																									pos: position{line: 1628, col: 13, offset: 52693},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1622, col: 13, offset: 52531},
+																											pos: position{line: 1628, col: 13, offset: 52693},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1622, col: 14, offset: 52532},
+																												pos:        position{line: 1628, col: 14, offset: 52694},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37613,7 +37619,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1622, col: 26, offset: 52544},
+																											pos:        position{line: 1628, col: 26, offset: 52706},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37622,15 +37628,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1624, col: 13, offset: 52664},
+																								pos: position{line: 1630, col: 13, offset: 52826},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1624, col: 13, offset: 52664},
+																									pos: position{line: 1630, col: 13, offset: 52826},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1624, col: 13, offset: 52664},
+																											pos: position{line: 1630, col: 13, offset: 52826},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1624, col: 14, offset: 52665},
+																												pos:        position{line: 1630, col: 14, offset: 52827},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37638,7 +37644,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1624, col: 26, offset: 52677},
+																											pos:        position{line: 1630, col: 26, offset: 52839},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37650,12 +37656,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2871, col: 11, offset: 90814},
+																					pos: position{line: 2877, col: 11, offset: 90976},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2871, col: 11, offset: 90814},
+																						pos: position{line: 2877, col: 11, offset: 90976},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2871, col: 11, offset: 90814},
+																							pos:        position{line: 2877, col: 11, offset: 90976},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37668,20 +37674,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49213},
+																	pos: position{line: 1528, col: 5, offset: 49375},
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 5, offset: 53216},
+																		pos: position{line: 1647, col: 5, offset: 53378},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1641, col: 5, offset: 53216},
+																			pos: position{line: 1647, col: 5, offset: 53378},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1641, col: 5, offset: 53216},
+																					pos: position{line: 1647, col: 5, offset: 53378},
 																					expr: &actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37690,24 +37696,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1642, col: 5, offset: 53228},
+																					pos:   position{line: 1648, col: 5, offset: 53390},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1643, col: 9, offset: 53244},
+																						pos: position{line: 1649, col: 9, offset: 53406},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1643, col: 10, offset: 53245},
+																							pos: position{line: 1649, col: 10, offset: 53407},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1643, col: 11, offset: 53246},
+																									pos:        position{line: 1649, col: 11, offset: 53408},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1643, col: 18, offset: 53253},
+																									pos: position{line: 1649, col: 18, offset: 53415},
 																									expr: &litMatcher{
-																										pos:        position{line: 1643, col: 19, offset: 53254},
+																										pos:        position{line: 1649, col: 19, offset: 53416},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37718,16 +37724,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1646, col: 7, offset: 53344},
+																					pos: position{line: 1652, col: 7, offset: 53506},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2871, col: 11, offset: 90814},
+																					pos: position{line: 2877, col: 11, offset: 90976},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2871, col: 11, offset: 90814},
+																						pos: position{line: 2877, col: 11, offset: 90976},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2871, col: 11, offset: 90814},
+																							pos:        position{line: 2877, col: 11, offset: 90976},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37740,29 +37746,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49245},
+																	pos: position{line: 1529, col: 5, offset: 49407},
 																	expr: &actionExpr{
-																		pos: position{line: 1730, col: 5, offset: 55753},
+																		pos: position{line: 1736, col: 5, offset: 55915},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1730, col: 5, offset: 55753},
+																			pos: position{line: 1736, col: 5, offset: 55915},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1730, col: 5, offset: 55753},
+																					pos:        position{line: 1736, col: 5, offset: 55915},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1730, col: 9, offset: 55757},
+																					pos:   position{line: 1736, col: 9, offset: 55919},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1730, col: 14, offset: 55762},
+																						pos: position{line: 1736, col: 14, offset: 55924},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1730, col: 14, offset: 55762},
+																							pos: position{line: 1736, col: 14, offset: 55924},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1730, col: 14, offset: 55762},
+																								pos:        position{line: 1736, col: 14, offset: 55924},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37772,18 +37778,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1730, col: 62, offset: 55810},
+																					pos:        position{line: 1736, col: 62, offset: 55972},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2871, col: 11, offset: 90814},
+																					pos: position{line: 2877, col: 11, offset: 90976},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2871, col: 11, offset: 90814},
+																						pos: position{line: 2877, col: 11, offset: 90976},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2871, col: 11, offset: 90814},
+																							pos:        position{line: 2877, col: 11, offset: 90976},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37796,36 +37802,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49275},
+																	pos: position{line: 1530, col: 5, offset: 49437},
 																	expr: &seqExpr{
-																		pos: position{line: 1524, col: 7, offset: 49277},
+																		pos: position{line: 1530, col: 7, offset: 49439},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1676, col: 5, offset: 54235},
+																				pos: position{line: 1682, col: 5, offset: 54397},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1676, col: 5, offset: 54235},
+																					pos: position{line: 1682, col: 5, offset: 54397},
 																					expr: &seqExpr{
-																						pos: position{line: 1676, col: 6, offset: 54236},
+																						pos: position{line: 1682, col: 6, offset: 54398},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1676, col: 6, offset: 54236},
+																								pos: position{line: 1682, col: 6, offset: 54398},
 																								expr: &actionExpr{
-																									pos: position{line: 1681, col: 5, offset: 54386},
+																									pos: position{line: 1687, col: 5, offset: 54548},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1681, col: 5, offset: 54386},
+																										pos: position{line: 1687, col: 5, offset: 54548},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1681, col: 5, offset: 54386},
+																												pos:   position{line: 1687, col: 5, offset: 54548},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1681, col: 16, offset: 54397},
+																													pos: position{line: 1687, col: 16, offset: 54559},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1681, col: 16, offset: 54397},
+																														pos: position{line: 1687, col: 16, offset: 54559},
 																														expr: &litMatcher{
-																															pos:        position{line: 1681, col: 17, offset: 54398},
+																															pos:        position{line: 1687, col: 17, offset: 54560},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37834,7 +37840,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1684, col: 5, offset: 54455},
+																												pos: position{line: 1690, col: 5, offset: 54617},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -37842,30 +37848,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1676, col: 35, offset: 54265},
+																								pos: position{line: 1682, col: 35, offset: 54427},
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 8, offset: 91151},
+																									pos: position{line: 2895, col: 8, offset: 91313},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2876, col: 12, offset: 90924},
+																											pos: position{line: 2882, col: 12, offset: 91086},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2876, col: 13, offset: 90925},
+																												pos: position{line: 2882, col: 13, offset: 91087},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 13, offset: 90925},
+																														pos:        position{line: 2882, col: 13, offset: 91087},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 20, offset: 90932},
+																														pos:        position{line: 2882, col: 20, offset: 91094},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2876, col: 29, offset: 90941},
+																														pos:        position{line: 2882, col: 29, offset: 91103},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37874,37 +37880,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2886, col: 8, offset: 91101},
+																											pos: position{line: 2892, col: 8, offset: 91263},
 																											expr: &anyMatcher{
-																												line: 2886, col: 9, offset: 91102,
+																												line: 2892, col: 9, offset: 91264,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1676, col: 40, offset: 54270,
+																								line: 1682, col: 40, offset: 54432,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1681, col: 5, offset: 54386},
+																				pos: position{line: 1687, col: 5, offset: 54548},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1681, col: 5, offset: 54386},
+																					pos: position{line: 1687, col: 5, offset: 54548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1681, col: 5, offset: 54386},
+																							pos:   position{line: 1687, col: 5, offset: 54548},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1681, col: 16, offset: 54397},
+																								pos: position{line: 1687, col: 16, offset: 54559},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1681, col: 16, offset: 54397},
+																									pos: position{line: 1687, col: 16, offset: 54559},
 																									expr: &litMatcher{
-																										pos:        position{line: 1681, col: 17, offset: 54398},
+																										pos:        position{line: 1687, col: 17, offset: 54560},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37913,20 +37919,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1684, col: 5, offset: 54455},
+																							pos: position{line: 1690, col: 5, offset: 54617},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1524, col: 59, offset: 49329},
+																				pos: position{line: 1530, col: 59, offset: 49491},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2867, col: 10, offset: 90753},
+																						pos: position{line: 2873, col: 10, offset: 90915},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90753},
+																							pos:        position{line: 2873, col: 10, offset: 90915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37934,25 +37940,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2876, col: 12, offset: 90924},
+																						pos: position{line: 2882, col: 12, offset: 91086},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2876, col: 13, offset: 90925},
+																							pos: position{line: 2882, col: 13, offset: 91087},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 13, offset: 90925},
+																									pos:        position{line: 2882, col: 13, offset: 91087},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 20, offset: 90932},
+																									pos:        position{line: 2882, col: 20, offset: 91094},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2876, col: 29, offset: 90941},
+																									pos:        position{line: 2882, col: 29, offset: 91103},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37961,9 +37967,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 8, offset: 91101},
+																						pos: position{line: 2892, col: 8, offset: 91263},
 																						expr: &anyMatcher{
-																							line: 2886, col: 9, offset: 91102,
+																							line: 2892, col: 9, offset: 91264,
 																						},
 																					},
 																				},
@@ -37972,20 +37978,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49347},
+																	pos: position{line: 1531, col: 5, offset: 49509},
 																	expr: &choiceExpr{
-																		pos: position{line: 1525, col: 7, offset: 49349},
+																		pos: position{line: 1531, col: 7, offset: 49511},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 725, col: 5, offset: 23091},
+																				pos: position{line: 731, col: 5, offset: 23253},
 																				run: (*parser).callonListContinuationElement1760,
 																				expr: &seqExpr{
-																					pos: position{line: 725, col: 5, offset: 23091},
+																					pos: position{line: 731, col: 5, offset: 23253},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 725, col: 5, offset: 23091},
+																							pos: position{line: 731, col: 5, offset: 23253},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2757, col: 13, offset: 87848},
+																								pos:        position{line: 2763, col: 13, offset: 88010},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -37993,36 +37999,36 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 726, col: 5, offset: 23121},
+																							pos:   position{line: 732, col: 5, offset: 23283},
 																							label: "delimiter",
 																							expr: &choiceExpr{
-																								pos: position{line: 727, col: 9, offset: 23141},
+																								pos: position{line: 733, col: 9, offset: 23303},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 741, col: 5, offset: 23633},
+																										pos: position{line: 747, col: 5, offset: 23795},
 																										run: (*parser).callonListContinuationElement1766,
 																										expr: &seqExpr{
-																											pos: position{line: 741, col: 5, offset: 23633},
+																											pos: position{line: 747, col: 5, offset: 23795},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 741, col: 5, offset: 23633},
+																													pos:   position{line: 747, col: 5, offset: 23795},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 741, col: 16, offset: 23644},
+																														pos: position{line: 747, col: 16, offset: 23806},
 																														run: (*parser).callonListContinuationElement1769,
 																														expr: &seqExpr{
-																															pos: position{line: 741, col: 16, offset: 23644},
+																															pos: position{line: 747, col: 16, offset: 23806},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 741, col: 16, offset: 23644},
+																																	pos:        position{line: 747, col: 16, offset: 23806},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 741, col: 23, offset: 23651},
+																																	pos: position{line: 747, col: 23, offset: 23813},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 741, col: 23, offset: 23651},
+																																		pos:        position{line: 747, col: 23, offset: 23813},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -38033,12 +38039,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 743, col: 8, offset: 23735},
+																													pos: position{line: 749, col: 8, offset: 23897},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38047,28 +38053,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38077,9 +38083,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38088,30 +38094,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 748, col: 5, offset: 23881},
+																										pos: position{line: 754, col: 5, offset: 24043},
 																										run: (*parser).callonListContinuationElement1785,
 																										expr: &seqExpr{
-																											pos: position{line: 748, col: 5, offset: 23881},
+																											pos: position{line: 754, col: 5, offset: 24043},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 748, col: 5, offset: 23881},
+																													pos:   position{line: 754, col: 5, offset: 24043},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 748, col: 16, offset: 23892},
+																														pos: position{line: 754, col: 16, offset: 24054},
 																														run: (*parser).callonListContinuationElement1788,
 																														expr: &seqExpr{
-																															pos: position{line: 748, col: 16, offset: 23892},
+																															pos: position{line: 754, col: 16, offset: 24054},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 748, col: 16, offset: 23892},
+																																	pos:        position{line: 754, col: 16, offset: 24054},
 																																	val:        "====",
 																																	ignoreCase: false,
 																																	want:       "\"====\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 748, col: 23, offset: 23899},
+																																	pos: position{line: 754, col: 23, offset: 24061},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 748, col: 23, offset: 23899},
+																																		pos:        position{line: 754, col: 23, offset: 24061},
 																																		val:        "=",
 																																		ignoreCase: false,
 																																		want:       "\"=\"",
@@ -38122,12 +38128,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 750, col: 8, offset: 23983},
+																													pos: position{line: 756, col: 8, offset: 24145},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38136,28 +38142,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38166,9 +38172,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38177,27 +38183,27 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 761, col: 26, offset: 24369},
+																										pos: position{line: 767, col: 26, offset: 24531},
 																										run: (*parser).callonListContinuationElement1804,
 																										expr: &seqExpr{
-																											pos: position{line: 761, col: 26, offset: 24369},
+																											pos: position{line: 767, col: 26, offset: 24531},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 761, col: 26, offset: 24369},
+																													pos:        position{line: 767, col: 26, offset: 24531},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 761, col: 32, offset: 24375},
+																													pos:   position{line: 767, col: 32, offset: 24537},
 																													label: "language",
 																													expr: &actionExpr{
-																														pos: position{line: 765, col: 13, offset: 24505},
+																														pos: position{line: 771, col: 13, offset: 24667},
 																														run: (*parser).callonListContinuationElement1808,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 765, col: 14, offset: 24506},
+																															pos: position{line: 771, col: 14, offset: 24668},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 765, col: 14, offset: 24506},
+																																pos:        position{line: 771, col: 14, offset: 24668},
 																																val:        "[^\\r\\n` ]",
 																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
@@ -38207,12 +38213,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 761, col: 52, offset: 24395},
+																													pos: position{line: 767, col: 52, offset: 24557},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38221,28 +38227,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38251,9 +38257,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38262,30 +38268,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 755, col: 5, offset: 24128},
+																										pos: position{line: 761, col: 5, offset: 24290},
 																										run: (*parser).callonListContinuationElement1822,
 																										expr: &seqExpr{
-																											pos: position{line: 755, col: 5, offset: 24128},
+																											pos: position{line: 761, col: 5, offset: 24290},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 755, col: 5, offset: 24128},
+																													pos:   position{line: 761, col: 5, offset: 24290},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 755, col: 16, offset: 24139},
+																														pos: position{line: 761, col: 16, offset: 24301},
 																														run: (*parser).callonListContinuationElement1825,
 																														expr: &seqExpr{
-																															pos: position{line: 755, col: 16, offset: 24139},
+																															pos: position{line: 761, col: 16, offset: 24301},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 755, col: 16, offset: 24139},
+																																	pos:        position{line: 761, col: 16, offset: 24301},
 																																	val:        "```",
 																																	ignoreCase: false,
 																																	want:       "\"```\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 755, col: 22, offset: 24145},
+																																	pos: position{line: 761, col: 22, offset: 24307},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 755, col: 22, offset: 24145},
+																																		pos:        position{line: 761, col: 22, offset: 24307},
 																																		val:        "`",
 																																		ignoreCase: false,
 																																		want:       "\"`\"",
@@ -38296,12 +38302,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 757, col: 8, offset: 24229},
+																													pos: position{line: 763, col: 8, offset: 24391},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38310,28 +38316,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38340,9 +38346,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38351,30 +38357,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 770, col: 5, offset: 24665},
+																										pos: position{line: 776, col: 5, offset: 24827},
 																										run: (*parser).callonListContinuationElement1841,
 																										expr: &seqExpr{
-																											pos: position{line: 770, col: 5, offset: 24665},
+																											pos: position{line: 776, col: 5, offset: 24827},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 770, col: 5, offset: 24665},
+																													pos:   position{line: 776, col: 5, offset: 24827},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 770, col: 16, offset: 24676},
+																														pos: position{line: 776, col: 16, offset: 24838},
 																														run: (*parser).callonListContinuationElement1844,
 																														expr: &seqExpr{
-																															pos: position{line: 770, col: 16, offset: 24676},
+																															pos: position{line: 776, col: 16, offset: 24838},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 770, col: 16, offset: 24676},
+																																	pos:        position{line: 776, col: 16, offset: 24838},
 																																	val:        "----",
 																																	ignoreCase: false,
 																																	want:       "\"----\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 770, col: 23, offset: 24683},
+																																	pos: position{line: 776, col: 23, offset: 24845},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 770, col: 23, offset: 24683},
+																																		pos:        position{line: 776, col: 23, offset: 24845},
 																																		val:        "-",
 																																		ignoreCase: false,
 																																		want:       "\"-\"",
@@ -38385,12 +38391,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 772, col: 8, offset: 24767},
+																													pos: position{line: 778, col: 8, offset: 24929},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38399,28 +38405,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38429,9 +38435,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38440,30 +38446,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 784, col: 5, offset: 25141},
+																										pos: position{line: 790, col: 5, offset: 25303},
 																										run: (*parser).callonListContinuationElement1860,
 																										expr: &seqExpr{
-																											pos: position{line: 784, col: 5, offset: 25141},
+																											pos: position{line: 790, col: 5, offset: 25303},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 784, col: 5, offset: 25141},
+																													pos:   position{line: 790, col: 5, offset: 25303},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 784, col: 16, offset: 25152},
+																														pos: position{line: 790, col: 16, offset: 25314},
 																														run: (*parser).callonListContinuationElement1863,
 																														expr: &seqExpr{
-																															pos: position{line: 784, col: 16, offset: 25152},
+																															pos: position{line: 790, col: 16, offset: 25314},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 784, col: 16, offset: 25152},
+																																	pos:        position{line: 790, col: 16, offset: 25314},
 																																	val:        "....",
 																																	ignoreCase: false,
 																																	want:       "\"....\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 784, col: 23, offset: 25159},
+																																	pos: position{line: 790, col: 23, offset: 25321},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 784, col: 23, offset: 25159},
+																																		pos:        position{line: 790, col: 23, offset: 25321},
 																																		val:        ".",
 																																		ignoreCase: false,
 																																		want:       "\".\"",
@@ -38474,12 +38480,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 786, col: 8, offset: 25243},
+																													pos: position{line: 792, col: 8, offset: 25405},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38488,28 +38494,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38518,9 +38524,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38529,30 +38535,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 791, col: 5, offset: 25393},
+																										pos: position{line: 797, col: 5, offset: 25555},
 																										run: (*parser).callonListContinuationElement1879,
 																										expr: &seqExpr{
-																											pos: position{line: 791, col: 5, offset: 25393},
+																											pos: position{line: 797, col: 5, offset: 25555},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 791, col: 5, offset: 25393},
+																													pos:   position{line: 797, col: 5, offset: 25555},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 791, col: 16, offset: 25404},
+																														pos: position{line: 797, col: 16, offset: 25566},
 																														run: (*parser).callonListContinuationElement1882,
 																														expr: &seqExpr{
-																															pos: position{line: 791, col: 16, offset: 25404},
+																															pos: position{line: 797, col: 16, offset: 25566},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 791, col: 16, offset: 25404},
+																																	pos:        position{line: 797, col: 16, offset: 25566},
 																																	val:        "++++",
 																																	ignoreCase: false,
 																																	want:       "\"++++\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 791, col: 23, offset: 25411},
+																																	pos: position{line: 797, col: 23, offset: 25573},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 791, col: 23, offset: 25411},
+																																		pos:        position{line: 797, col: 23, offset: 25573},
 																																		val:        "+",
 																																		ignoreCase: false,
 																																		want:       "\"+\"",
@@ -38563,12 +38569,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 793, col: 8, offset: 25495},
+																													pos: position{line: 799, col: 8, offset: 25657},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38577,28 +38583,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38607,9 +38613,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38618,30 +38624,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 798, col: 5, offset: 25643},
+																										pos: position{line: 804, col: 5, offset: 25805},
 																										run: (*parser).callonListContinuationElement1898,
 																										expr: &seqExpr{
-																											pos: position{line: 798, col: 5, offset: 25643},
+																											pos: position{line: 804, col: 5, offset: 25805},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 798, col: 5, offset: 25643},
+																													pos:   position{line: 804, col: 5, offset: 25805},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 798, col: 16, offset: 25654},
+																														pos: position{line: 804, col: 16, offset: 25816},
 																														run: (*parser).callonListContinuationElement1901,
 																														expr: &seqExpr{
-																															pos: position{line: 798, col: 16, offset: 25654},
+																															pos: position{line: 804, col: 16, offset: 25816},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 798, col: 16, offset: 25654},
+																																	pos:        position{line: 804, col: 16, offset: 25816},
 																																	val:        "____",
 																																	ignoreCase: false,
 																																	want:       "\"____\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 798, col: 23, offset: 25661},
+																																	pos: position{line: 804, col: 23, offset: 25823},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 798, col: 23, offset: 25661},
+																																		pos:        position{line: 804, col: 23, offset: 25823},
 																																		val:        "_",
 																																		ignoreCase: false,
 																																		want:       "\"_\"",
@@ -38652,12 +38658,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 800, col: 8, offset: 25745},
+																													pos: position{line: 806, col: 8, offset: 25907},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38666,28 +38672,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38696,9 +38702,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38707,30 +38713,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 805, col: 5, offset: 25889},
+																										pos: position{line: 811, col: 5, offset: 26051},
 																										run: (*parser).callonListContinuationElement1917,
 																										expr: &seqExpr{
-																											pos: position{line: 805, col: 5, offset: 25889},
+																											pos: position{line: 811, col: 5, offset: 26051},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 805, col: 5, offset: 25889},
+																													pos:   position{line: 811, col: 5, offset: 26051},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 805, col: 16, offset: 25900},
+																														pos: position{line: 811, col: 16, offset: 26062},
 																														run: (*parser).callonListContinuationElement1920,
 																														expr: &seqExpr{
-																															pos: position{line: 805, col: 16, offset: 25900},
+																															pos: position{line: 811, col: 16, offset: 26062},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 805, col: 16, offset: 25900},
+																																	pos:        position{line: 811, col: 16, offset: 26062},
 																																	val:        "****",
 																																	ignoreCase: false,
 																																	want:       "\"****\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 805, col: 23, offset: 25907},
+																																	pos: position{line: 811, col: 23, offset: 26069},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 805, col: 23, offset: 25907},
+																																		pos:        position{line: 811, col: 23, offset: 26069},
 																																		val:        "*",
 																																		ignoreCase: false,
 																																		want:       "\"*\"",
@@ -38741,12 +38747,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 807, col: 8, offset: 25991},
+																													pos: position{line: 813, col: 8, offset: 26153},
 																													expr: &actionExpr{
-																														pos: position{line: 2867, col: 10, offset: 90753},
+																														pos: position{line: 2873, col: 10, offset: 90915},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2867, col: 10, offset: 90753},
+																															pos:        position{line: 2873, col: 10, offset: 90915},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38755,28 +38761,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2889, col: 8, offset: 91151},
+																													pos: position{line: 2895, col: 8, offset: 91313},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2876, col: 12, offset: 90924},
+																															pos: position{line: 2882, col: 12, offset: 91086},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2876, col: 13, offset: 90925},
+																																pos: position{line: 2882, col: 13, offset: 91087},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 13, offset: 90925},
+																																		pos:        position{line: 2882, col: 13, offset: 91087},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 20, offset: 90932},
+																																		pos:        position{line: 2882, col: 20, offset: 91094},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2876, col: 29, offset: 90941},
+																																		pos:        position{line: 2882, col: 29, offset: 91103},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38785,9 +38791,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2886, col: 8, offset: 91101},
+																															pos: position{line: 2892, col: 8, offset: 91263},
 																															expr: &anyMatcher{
-																																line: 2886, col: 9, offset: 91102,
+																																line: 2892, col: 9, offset: 91264,
 																															},
 																														},
 																													},
@@ -38802,19 +38808,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 777, col: 5, offset: 24910},
+																				pos: position{line: 783, col: 5, offset: 25072},
 																				run: (*parser).callonListContinuationElement1936,
 																				expr: &seqExpr{
-																					pos: position{line: 777, col: 5, offset: 24910},
+																					pos: position{line: 783, col: 5, offset: 25072},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 777, col: 5, offset: 24910},
+																							pos:   position{line: 783, col: 5, offset: 25072},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 777, col: 16, offset: 24921},
+																								pos: position{line: 783, col: 16, offset: 25083},
 																								run: (*parser).callonListContinuationElement1939,
 																								expr: &litMatcher{
-																									pos:        position{line: 777, col: 16, offset: 24921},
+																									pos:        position{line: 783, col: 16, offset: 25083},
 																									val:        "--",
 																									ignoreCase: false,
 																									want:       "\"--\"",
@@ -38822,12 +38828,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 779, col: 8, offset: 24998},
+																							pos: position{line: 785, col: 8, offset: 25160},
 																							expr: &actionExpr{
-																								pos: position{line: 2867, col: 10, offset: 90753},
+																								pos: position{line: 2873, col: 10, offset: 90915},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 10, offset: 90753},
+																									pos:        position{line: 2873, col: 10, offset: 90915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38836,28 +38842,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2889, col: 8, offset: 91151},
+																							pos: position{line: 2895, col: 8, offset: 91313},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 12, offset: 90924},
+																									pos: position{line: 2882, col: 12, offset: 91086},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2876, col: 13, offset: 90925},
+																										pos: position{line: 2882, col: 13, offset: 91087},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 13, offset: 90925},
+																												pos:        position{line: 2882, col: 13, offset: 91087},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 20, offset: 90932},
+																												pos:        position{line: 2882, col: 20, offset: 91094},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2876, col: 29, offset: 90941},
+																												pos:        position{line: 2882, col: 29, offset: 91103},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38866,9 +38872,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2886, col: 8, offset: 91101},
+																									pos: position{line: 2892, col: 8, offset: 91263},
 																									expr: &anyMatcher{
-																										line: 2886, col: 9, offset: 91102,
+																										line: 2892, col: 9, offset: 91264,
 																									},
 																								},
 																							},
@@ -38877,21 +38883,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2609, col: 19, offset: 83436},
+																				pos: position{line: 2615, col: 19, offset: 83598},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2609, col: 19, offset: 83436},
+																						pos:        position{line: 2615, col: 19, offset: 83598},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2609, col: 26, offset: 83443},
+																						pos: position{line: 2615, col: 26, offset: 83605},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38900,28 +38906,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2889, col: 8, offset: 91151},
+																						pos: position{line: 2895, col: 8, offset: 91313},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2876, col: 12, offset: 90924},
+																								pos: position{line: 2882, col: 12, offset: 91086},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2876, col: 13, offset: 90925},
+																									pos: position{line: 2882, col: 13, offset: 91087},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 13, offset: 90925},
+																											pos:        position{line: 2882, col: 13, offset: 91087},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 20, offset: 90932},
+																											pos:        position{line: 2882, col: 20, offset: 91094},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2876, col: 29, offset: 90941},
+																											pos:        position{line: 2882, col: 29, offset: 91103},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38930,9 +38936,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 8, offset: 91101},
+																								pos: position{line: 2892, col: 8, offset: 91263},
 																								expr: &anyMatcher{
-																									line: 2886, col: 9, offset: 91102,
+																									line: 2892, col: 9, offset: 91264,
 																								},
 																							},
 																						},
@@ -38943,15 +38949,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49407},
+																	pos:   position{line: 1532, col: 5, offset: 49569},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2817, col: 14, offset: 89346},
+																		pos: position{line: 2823, col: 14, offset: 89508},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2817, col: 14, offset: 89346},
+																			pos: position{line: 2823, col: 14, offset: 89508},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89346},
+																				pos:        position{line: 2823, col: 14, offset: 89508},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38961,28 +38967,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38991,9 +38997,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -39014,33 +39020,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1714, col: 1, offset: 55247},
+			pos:  position{line: 1720, col: 1, offset: 55409},
 			expr: &actionExpr{
-				pos: position{line: 1716, col: 5, offset: 55325},
+				pos: position{line: 1722, col: 5, offset: 55487},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1716, col: 5, offset: 55325},
+					pos: position{line: 1722, col: 5, offset: 55487},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1716, col: 5, offset: 55325},
+							pos: position{line: 1722, col: 5, offset: 55487},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1719, col: 5, offset: 55392},
+							pos:        position{line: 1725, col: 5, offset: 55554},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1719, col: 9, offset: 55396},
+							pos:   position{line: 1725, col: 9, offset: 55558},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1719, col: 14, offset: 55401},
+								pos: position{line: 1725, col: 14, offset: 55563},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1719, col: 14, offset: 55401},
+									pos: position{line: 1725, col: 14, offset: 55563},
 									expr: &charClassMatcher{
-										pos:        position{line: 1719, col: 14, offset: 55401},
+										pos:        position{line: 1725, col: 14, offset: 55563},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39050,18 +39056,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1719, col: 62, offset: 55449},
+							pos:        position{line: 1725, col: 62, offset: 55611},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1719, col: 66, offset: 55453},
+							pos: position{line: 1725, col: 66, offset: 55615},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39070,30 +39076,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1719, col: 73, offset: 55460},
+							pos: position{line: 1725, col: 73, offset: 55622},
 							expr: &choiceExpr{
-								pos: position{line: 1719, col: 75, offset: 55462},
+								pos: position{line: 1725, col: 75, offset: 55624},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2876, col: 12, offset: 90924},
+										pos: position{line: 2882, col: 12, offset: 91086},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2876, col: 13, offset: 90925},
+											pos: position{line: 2882, col: 13, offset: 91087},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2876, col: 13, offset: 90925},
+													pos:        position{line: 2882, col: 13, offset: 91087},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 20, offset: 90932},
+													pos:        position{line: 2882, col: 20, offset: 91094},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 29, offset: 90941},
+													pos:        position{line: 2882, col: 29, offset: 91103},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39102,13 +39108,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2886, col: 8, offset: 91101},
+										pos: position{line: 2892, col: 8, offset: 91263},
 										expr: &anyMatcher{
-											line: 2886, col: 9, offset: 91102,
+											line: 2892, col: 9, offset: 91264,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1719, col: 81, offset: 55468},
+										pos:  position{line: 1725, col: 81, offset: 55630},
 										name: "Callout",
 									},
 								},
@@ -39120,44 +39126,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1758, col: 1, offset: 56655},
+			pos:  position{line: 1764, col: 1, offset: 56817},
 			expr: &actionExpr{
-				pos: position{line: 1760, col: 5, offset: 56729},
+				pos: position{line: 1766, col: 5, offset: 56891},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1760, col: 5, offset: 56729},
+					pos: position{line: 1766, col: 5, offset: 56891},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1760, col: 5, offset: 56729},
+							pos: position{line: 1766, col: 5, offset: 56891},
 							expr: &seqExpr{
-								pos: position{line: 1760, col: 7, offset: 56731},
+								pos: position{line: 1766, col: 7, offset: 56893},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2757, col: 13, offset: 87848},
+										pos:        position{line: 2763, col: 13, offset: 88010},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1760, col: 16, offset: 56740},
+										pos: position{line: 1766, col: 16, offset: 56902},
 										expr: &seqExpr{
-											pos: position{line: 1760, col: 18, offset: 56742},
+											pos: position{line: 1766, col: 18, offset: 56904},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1760, col: 19, offset: 56743},
+													pos:        position{line: 1766, col: 19, offset: 56905},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2871, col: 11, offset: 90814},
+													pos: position{line: 2877, col: 11, offset: 90976},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2871, col: 11, offset: 90814},
+														pos: position{line: 2877, col: 11, offset: 90976},
 														expr: &charClassMatcher{
-															pos:        position{line: 2871, col: 11, offset: 90814},
+															pos:        position{line: 2877, col: 11, offset: 90976},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39172,88 +39178,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1761, col: 5, offset: 56883},
+							pos:   position{line: 1767, col: 5, offset: 57045},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1761, col: 11, offset: 56889},
+								pos: position{line: 1767, col: 11, offset: 57051},
 								expr: &actionExpr{
-									pos: position{line: 1739, col: 5, offset: 56138},
+									pos: position{line: 1745, col: 5, offset: 56300},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1739, col: 5, offset: 56138},
+										pos: position{line: 1745, col: 5, offset: 56300},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1739, col: 5, offset: 56138},
+												pos: position{line: 1745, col: 5, offset: 56300},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1742, col: 5, offset: 56201},
+												pos:   position{line: 1748, col: 5, offset: 56363},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1742, col: 12, offset: 56208},
+													pos: position{line: 1748, col: 12, offset: 56370},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1742, col: 12, offset: 56208},
+															pos: position{line: 1748, col: 12, offset: 56370},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 12, offset: 56208},
+																pos:        position{line: 1748, col: 12, offset: 56370},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56264},
+															pos: position{line: 1750, col: 13, offset: 56426},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56264},
+																pos:        position{line: 1750, col: 13, offset: 56426},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56322},
+															pos: position{line: 1752, col: 13, offset: 56484},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56322},
+																pos:        position{line: 1752, col: 13, offset: 56484},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56390},
+															pos: position{line: 1754, col: 13, offset: 56552},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56390},
+																pos:        position{line: 1754, col: 13, offset: 56552},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56454},
+															pos: position{line: 1756, col: 13, offset: 56616},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56454},
+																pos:        position{line: 1756, col: 13, offset: 56616},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56518},
+															pos: position{line: 1758, col: 13, offset: 56680},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1752, col: 13, offset: 56518},
+																pos: position{line: 1758, col: 13, offset: 56680},
 																expr: &actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39267,17 +39273,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1754, col: 12, offset: 56598},
+												pos: position{line: 1760, col: 12, offset: 56760},
 												expr: &seqExpr{
-													pos: position{line: 1754, col: 14, offset: 56600},
+													pos: position{line: 1760, col: 14, offset: 56762},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1754, col: 14, offset: 56600},
+															pos: position{line: 1760, col: 14, offset: 56762},
 															expr: &actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39286,28 +39292,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2889, col: 8, offset: 91151},
+															pos: position{line: 2895, col: 8, offset: 91313},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2876, col: 12, offset: 90924},
+																	pos: position{line: 2882, col: 12, offset: 91086},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2876, col: 13, offset: 90925},
+																		pos: position{line: 2882, col: 13, offset: 91087},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 13, offset: 90925},
+																				pos:        position{line: 2882, col: 13, offset: 91087},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 20, offset: 90932},
+																				pos:        position{line: 2882, col: 20, offset: 91094},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 29, offset: 90941},
+																				pos:        position{line: 2882, col: 29, offset: 91103},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39316,9 +39322,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -39332,24 +39338,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1762, col: 5, offset: 56911},
+							pos:   position{line: 1768, col: 5, offset: 57073},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1799, col: 5, offset: 58122},
+								pos: position{line: 1805, col: 5, offset: 58284},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1799, col: 5, offset: 58122},
+									pos: position{line: 1805, col: 5, offset: 58284},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1799, col: 5, offset: 58122},
+											pos:   position{line: 1805, col: 5, offset: 58284},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2817, col: 14, offset: 89346},
+												pos: position{line: 2823, col: 14, offset: 89508},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2817, col: 14, offset: 89346},
+													pos: position{line: 2823, col: 14, offset: 89508},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 14, offset: 89346},
+														pos:        position{line: 2823, col: 14, offset: 89508},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39359,32 +39365,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1800, col: 5, offset: 58146},
+											pos: position{line: 1806, col: 5, offset: 58308},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2889, col: 8, offset: 91151},
+											pos: position{line: 2895, col: 8, offset: 91313},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2876, col: 12, offset: 90924},
+													pos: position{line: 2882, col: 12, offset: 91086},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 13, offset: 90925},
+														pos: position{line: 2882, col: 13, offset: 91087},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 13, offset: 90925},
+																pos:        position{line: 2882, col: 13, offset: 91087},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 20, offset: 90932},
+																pos:        position{line: 2882, col: 20, offset: 91094},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 29, offset: 90941},
+																pos:        position{line: 2882, col: 29, offset: 91103},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39393,9 +39399,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -39405,47 +39411,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1763, col: 5, offset: 56945},
+							pos: position{line: 1769, col: 5, offset: 57107},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57275},
+							pos:   position{line: 1776, col: 5, offset: 57437},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1770, col: 16, offset: 57286},
+								pos: position{line: 1776, col: 16, offset: 57448},
 								expr: &actionExpr{
-									pos: position{line: 1771, col: 9, offset: 57296},
+									pos: position{line: 1777, col: 9, offset: 57458},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1771, col: 9, offset: 57296},
+										pos: position{line: 1777, col: 9, offset: 57458},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2884, col: 11, offset: 91087},
+												pos: position{line: 2890, col: 11, offset: 91249},
 												expr: &anyMatcher{
-													line: 2884, col: 13, offset: 91089,
+													line: 2890, col: 13, offset: 91251,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57312},
+												pos: position{line: 1778, col: 9, offset: 57474},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39454,28 +39460,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39484,9 +39490,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -39496,27 +39502,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57331},
+												pos: position{line: 1779, col: 9, offset: 57493},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1773, col: 10, offset: 57332},
+													pos:  position{line: 1779, col: 10, offset: 57494},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57356},
+												pos: position{line: 1780, col: 9, offset: 57518},
 												expr: &choiceExpr{
-													pos: position{line: 1774, col: 11, offset: 57358},
+													pos: position{line: 1780, col: 11, offset: 57520},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 725, col: 5, offset: 23091},
+															pos: position{line: 731, col: 5, offset: 23253},
 															run: (*parser).callonShortcutParagraph90,
 															expr: &seqExpr{
-																pos: position{line: 725, col: 5, offset: 23091},
+																pos: position{line: 731, col: 5, offset: 23253},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 725, col: 5, offset: 23091},
+																		pos: position{line: 731, col: 5, offset: 23253},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2757, col: 13, offset: 87848},
+																			pos:        position{line: 2763, col: 13, offset: 88010},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -39524,36 +39530,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 726, col: 5, offset: 23121},
+																		pos:   position{line: 732, col: 5, offset: 23283},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 727, col: 9, offset: 23141},
+																			pos: position{line: 733, col: 9, offset: 23303},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23633},
+																					pos: position{line: 747, col: 5, offset: 23795},
 																					run: (*parser).callonShortcutParagraph96,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23633},
+																						pos: position{line: 747, col: 5, offset: 23795},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23633},
+																								pos:   position{line: 747, col: 5, offset: 23795},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23644},
+																									pos: position{line: 747, col: 16, offset: 23806},
 																									run: (*parser).callonShortcutParagraph99,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23644},
+																										pos: position{line: 747, col: 16, offset: 23806},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23644},
+																												pos:        position{line: 747, col: 16, offset: 23806},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23651},
+																												pos: position{line: 747, col: 23, offset: 23813},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23651},
+																													pos:        position{line: 747, col: 23, offset: 23813},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -39564,12 +39570,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23735},
+																								pos: position{line: 749, col: 8, offset: 23897},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39578,28 +39584,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39608,9 +39614,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -39619,30 +39625,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 748, col: 5, offset: 23881},
+																					pos: position{line: 754, col: 5, offset: 24043},
 																					run: (*parser).callonShortcutParagraph115,
 																					expr: &seqExpr{
-																						pos: position{line: 748, col: 5, offset: 23881},
+																						pos: position{line: 754, col: 5, offset: 24043},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 748, col: 5, offset: 23881},
+																								pos:   position{line: 754, col: 5, offset: 24043},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 16, offset: 23892},
+																									pos: position{line: 754, col: 16, offset: 24054},
 																									run: (*parser).callonShortcutParagraph118,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 16, offset: 23892},
+																										pos: position{line: 754, col: 16, offset: 24054},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 748, col: 16, offset: 23892},
+																												pos:        position{line: 754, col: 16, offset: 24054},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 23, offset: 23899},
+																												pos: position{line: 754, col: 23, offset: 24061},
 																												expr: &litMatcher{
-																													pos:        position{line: 748, col: 23, offset: 23899},
+																													pos:        position{line: 754, col: 23, offset: 24061},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -39653,12 +39659,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 750, col: 8, offset: 23983},
+																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39667,28 +39673,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39697,9 +39703,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -39708,27 +39714,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 761, col: 26, offset: 24369},
+																					pos: position{line: 767, col: 26, offset: 24531},
 																					run: (*parser).callonShortcutParagraph134,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 26, offset: 24369},
+																						pos: position{line: 767, col: 26, offset: 24531},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 761, col: 26, offset: 24369},
+																								pos:        position{line: 767, col: 26, offset: 24531},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 32, offset: 24375},
+																								pos:   position{line: 767, col: 32, offset: 24537},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 13, offset: 24505},
+																									pos: position{line: 771, col: 13, offset: 24667},
 																									run: (*parser).callonShortcutParagraph138,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 765, col: 14, offset: 24506},
+																										pos: position{line: 771, col: 14, offset: 24668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 765, col: 14, offset: 24506},
+																											pos:        position{line: 771, col: 14, offset: 24668},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -39738,12 +39744,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 761, col: 52, offset: 24395},
+																								pos: position{line: 767, col: 52, offset: 24557},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39752,28 +39758,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39782,9 +39788,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -39793,30 +39799,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 755, col: 5, offset: 24128},
+																					pos: position{line: 761, col: 5, offset: 24290},
 																					run: (*parser).callonShortcutParagraph152,
 																					expr: &seqExpr{
-																						pos: position{line: 755, col: 5, offset: 24128},
+																						pos: position{line: 761, col: 5, offset: 24290},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 755, col: 5, offset: 24128},
+																								pos:   position{line: 761, col: 5, offset: 24290},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 16, offset: 24139},
+																									pos: position{line: 761, col: 16, offset: 24301},
 																									run: (*parser).callonShortcutParagraph155,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 16, offset: 24139},
+																										pos: position{line: 761, col: 16, offset: 24301},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 755, col: 16, offset: 24139},
+																												pos:        position{line: 761, col: 16, offset: 24301},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 22, offset: 24145},
+																												pos: position{line: 761, col: 22, offset: 24307},
 																												expr: &litMatcher{
-																													pos:        position{line: 755, col: 22, offset: 24145},
+																													pos:        position{line: 761, col: 22, offset: 24307},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -39827,12 +39833,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 757, col: 8, offset: 24229},
+																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39841,28 +39847,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39871,9 +39877,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -39882,30 +39888,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 770, col: 5, offset: 24665},
+																					pos: position{line: 776, col: 5, offset: 24827},
 																					run: (*parser).callonShortcutParagraph171,
 																					expr: &seqExpr{
-																						pos: position{line: 770, col: 5, offset: 24665},
+																						pos: position{line: 776, col: 5, offset: 24827},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 770, col: 5, offset: 24665},
+																								pos:   position{line: 776, col: 5, offset: 24827},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 16, offset: 24676},
+																									pos: position{line: 776, col: 16, offset: 24838},
 																									run: (*parser).callonShortcutParagraph174,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 16, offset: 24676},
+																										pos: position{line: 776, col: 16, offset: 24838},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 770, col: 16, offset: 24676},
+																												pos:        position{line: 776, col: 16, offset: 24838},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 23, offset: 24683},
+																												pos: position{line: 776, col: 23, offset: 24845},
 																												expr: &litMatcher{
-																													pos:        position{line: 770, col: 23, offset: 24683},
+																													pos:        position{line: 776, col: 23, offset: 24845},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -39916,12 +39922,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 772, col: 8, offset: 24767},
+																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39930,28 +39936,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39960,9 +39966,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -39971,30 +39977,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 784, col: 5, offset: 25141},
+																					pos: position{line: 790, col: 5, offset: 25303},
 																					run: (*parser).callonShortcutParagraph190,
 																					expr: &seqExpr{
-																						pos: position{line: 784, col: 5, offset: 25141},
+																						pos: position{line: 790, col: 5, offset: 25303},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 784, col: 5, offset: 25141},
+																								pos:   position{line: 790, col: 5, offset: 25303},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 16, offset: 25152},
+																									pos: position{line: 790, col: 16, offset: 25314},
 																									run: (*parser).callonShortcutParagraph193,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 16, offset: 25152},
+																										pos: position{line: 790, col: 16, offset: 25314},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 784, col: 16, offset: 25152},
+																												pos:        position{line: 790, col: 16, offset: 25314},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 23, offset: 25159},
+																												pos: position{line: 790, col: 23, offset: 25321},
 																												expr: &litMatcher{
-																													pos:        position{line: 784, col: 23, offset: 25159},
+																													pos:        position{line: 790, col: 23, offset: 25321},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -40005,12 +40011,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 786, col: 8, offset: 25243},
+																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40019,28 +40025,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40049,9 +40055,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -40060,30 +40066,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 791, col: 5, offset: 25393},
+																					pos: position{line: 797, col: 5, offset: 25555},
 																					run: (*parser).callonShortcutParagraph209,
 																					expr: &seqExpr{
-																						pos: position{line: 791, col: 5, offset: 25393},
+																						pos: position{line: 797, col: 5, offset: 25555},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 791, col: 5, offset: 25393},
+																								pos:   position{line: 797, col: 5, offset: 25555},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 16, offset: 25404},
+																									pos: position{line: 797, col: 16, offset: 25566},
 																									run: (*parser).callonShortcutParagraph212,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 16, offset: 25404},
+																										pos: position{line: 797, col: 16, offset: 25566},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 791, col: 16, offset: 25404},
+																												pos:        position{line: 797, col: 16, offset: 25566},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 23, offset: 25411},
+																												pos: position{line: 797, col: 23, offset: 25573},
 																												expr: &litMatcher{
-																													pos:        position{line: 791, col: 23, offset: 25411},
+																													pos:        position{line: 797, col: 23, offset: 25573},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -40094,12 +40100,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 793, col: 8, offset: 25495},
+																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40108,28 +40114,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40138,9 +40144,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -40149,30 +40155,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 798, col: 5, offset: 25643},
+																					pos: position{line: 804, col: 5, offset: 25805},
 																					run: (*parser).callonShortcutParagraph228,
 																					expr: &seqExpr{
-																						pos: position{line: 798, col: 5, offset: 25643},
+																						pos: position{line: 804, col: 5, offset: 25805},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 798, col: 5, offset: 25643},
+																								pos:   position{line: 804, col: 5, offset: 25805},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 16, offset: 25654},
+																									pos: position{line: 804, col: 16, offset: 25816},
 																									run: (*parser).callonShortcutParagraph231,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 16, offset: 25654},
+																										pos: position{line: 804, col: 16, offset: 25816},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 798, col: 16, offset: 25654},
+																												pos:        position{line: 804, col: 16, offset: 25816},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 23, offset: 25661},
+																												pos: position{line: 804, col: 23, offset: 25823},
 																												expr: &litMatcher{
-																													pos:        position{line: 798, col: 23, offset: 25661},
+																													pos:        position{line: 804, col: 23, offset: 25823},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -40183,12 +40189,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 800, col: 8, offset: 25745},
+																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40197,28 +40203,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40227,9 +40233,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -40238,30 +40244,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 805, col: 5, offset: 25889},
+																					pos: position{line: 811, col: 5, offset: 26051},
 																					run: (*parser).callonShortcutParagraph247,
 																					expr: &seqExpr{
-																						pos: position{line: 805, col: 5, offset: 25889},
+																						pos: position{line: 811, col: 5, offset: 26051},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 805, col: 5, offset: 25889},
+																								pos:   position{line: 811, col: 5, offset: 26051},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 16, offset: 25900},
+																									pos: position{line: 811, col: 16, offset: 26062},
 																									run: (*parser).callonShortcutParagraph250,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 16, offset: 25900},
+																										pos: position{line: 811, col: 16, offset: 26062},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 805, col: 16, offset: 25900},
+																												pos:        position{line: 811, col: 16, offset: 26062},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 23, offset: 25907},
+																												pos: position{line: 811, col: 23, offset: 26069},
 																												expr: &litMatcher{
-																													pos:        position{line: 805, col: 23, offset: 25907},
+																													pos:        position{line: 811, col: 23, offset: 26069},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -40272,12 +40278,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 807, col: 8, offset: 25991},
+																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40286,28 +40292,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40316,9 +40322,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -40333,19 +40339,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 777, col: 5, offset: 24910},
+															pos: position{line: 783, col: 5, offset: 25072},
 															run: (*parser).callonShortcutParagraph266,
 															expr: &seqExpr{
-																pos: position{line: 777, col: 5, offset: 24910},
+																pos: position{line: 783, col: 5, offset: 25072},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 777, col: 5, offset: 24910},
+																		pos:   position{line: 783, col: 5, offset: 25072},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 16, offset: 24921},
+																			pos: position{line: 783, col: 16, offset: 25083},
 																			run: (*parser).callonShortcutParagraph269,
 																			expr: &litMatcher{
-																				pos:        position{line: 777, col: 16, offset: 24921},
+																				pos:        position{line: 783, col: 16, offset: 25083},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -40353,12 +40359,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 779, col: 8, offset: 24998},
+																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40367,28 +40373,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40397,9 +40403,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -40408,21 +40414,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2609, col: 19, offset: 83436},
+															pos: position{line: 2615, col: 19, offset: 83598},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2609, col: 19, offset: 83436},
+																	pos:        position{line: 2615, col: 19, offset: 83598},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2609, col: 26, offset: 83443},
+																	pos: position{line: 2615, col: 26, offset: 83605},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40431,28 +40437,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40461,9 +40467,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -40474,23 +40480,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57420},
+												pos: position{line: 1781, col: 9, offset: 57582},
 												expr: &seqExpr{
-													pos: position{line: 1550, col: 27, offset: 50060},
+													pos: position{line: 1556, col: 27, offset: 50222},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1550, col: 27, offset: 50060},
+															pos:        position{line: 1556, col: 27, offset: 50222},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1550, col: 31, offset: 50064},
+															pos: position{line: 1556, col: 31, offset: 50226},
 															expr: &actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40499,25 +40505,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40529,42 +40535,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57452},
+												pos:   position{line: 1782, col: 9, offset: 57614},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57458},
+													pos: position{line: 1782, col: 15, offset: 57620},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2477, col: 22, offset: 79738},
+															pos: position{line: 2483, col: 22, offset: 79900},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2477, col: 22, offset: 79738},
+																pos: position{line: 2483, col: 22, offset: 79900},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2482, col: 31, offset: 79959},
+																		pos:        position{line: 2488, col: 31, offset: 80121},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2482, col: 36, offset: 79964},
+																		pos: position{line: 2488, col: 36, offset: 80126},
 																		expr: &litMatcher{
-																			pos:        position{line: 2482, col: 37, offset: 79965},
+																			pos:        position{line: 2488, col: 37, offset: 80127},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2477, col: 49, offset: 79765},
+																		pos:   position{line: 2483, col: 49, offset: 79927},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 13, offset: 89279},
+																			pos: position{line: 2819, col: 13, offset: 89441},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2813, col: 13, offset: 89279},
+																				pos: position{line: 2819, col: 13, offset: 89441},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 13, offset: 89279},
+																					pos:        position{line: 2819, col: 13, offset: 89441},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40574,28 +40580,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40604,9 +40610,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -40615,21 +40621,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1799, col: 5, offset: 58122},
+															pos: position{line: 1805, col: 5, offset: 58284},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1799, col: 5, offset: 58122},
+																pos: position{line: 1805, col: 5, offset: 58284},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1799, col: 5, offset: 58122},
+																		pos:   position{line: 1805, col: 5, offset: 58284},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2817, col: 14, offset: 89346},
+																			pos: position{line: 2823, col: 14, offset: 89508},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2817, col: 14, offset: 89346},
+																				pos: position{line: 2823, col: 14, offset: 89508},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2817, col: 14, offset: 89346},
+																					pos:        position{line: 2823, col: 14, offset: 89508},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40639,32 +40645,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1800, col: 5, offset: 58146},
+																		pos: position{line: 1806, col: 5, offset: 58308},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40673,9 +40679,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -40697,96 +40703,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1783, col: 1, offset: 57662},
+			pos:  position{line: 1789, col: 1, offset: 57824},
 			expr: &actionExpr{
-				pos: position{line: 1784, col: 5, offset: 57680},
+				pos: position{line: 1790, col: 5, offset: 57842},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1784, col: 5, offset: 57680},
+					pos: position{line: 1790, col: 5, offset: 57842},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57680},
+							pos:   position{line: 1790, col: 5, offset: 57842},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1784, col: 11, offset: 57686},
+								pos: position{line: 1790, col: 11, offset: 57848},
 								expr: &actionExpr{
-									pos: position{line: 1739, col: 5, offset: 56138},
+									pos: position{line: 1745, col: 5, offset: 56300},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1739, col: 5, offset: 56138},
+										pos: position{line: 1745, col: 5, offset: 56300},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1739, col: 5, offset: 56138},
+												pos: position{line: 1745, col: 5, offset: 56300},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1742, col: 5, offset: 56201},
+												pos:   position{line: 1748, col: 5, offset: 56363},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1742, col: 12, offset: 56208},
+													pos: position{line: 1748, col: 12, offset: 56370},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1742, col: 12, offset: 56208},
+															pos: position{line: 1748, col: 12, offset: 56370},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 12, offset: 56208},
+																pos:        position{line: 1748, col: 12, offset: 56370},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56264},
+															pos: position{line: 1750, col: 13, offset: 56426},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56264},
+																pos:        position{line: 1750, col: 13, offset: 56426},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56322},
+															pos: position{line: 1752, col: 13, offset: 56484},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56322},
+																pos:        position{line: 1752, col: 13, offset: 56484},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56390},
+															pos: position{line: 1754, col: 13, offset: 56552},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56390},
+																pos:        position{line: 1754, col: 13, offset: 56552},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56454},
+															pos: position{line: 1756, col: 13, offset: 56616},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56454},
+																pos:        position{line: 1756, col: 13, offset: 56616},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56518},
+															pos: position{line: 1758, col: 13, offset: 56680},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1752, col: 13, offset: 56518},
+																pos: position{line: 1758, col: 13, offset: 56680},
 																expr: &actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90814},
+																	pos: position{line: 2877, col: 11, offset: 90976},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2871, col: 11, offset: 90814},
+																		pos: position{line: 2877, col: 11, offset: 90976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 90814},
+																			pos:        position{line: 2877, col: 11, offset: 90976},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40800,17 +40806,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1754, col: 12, offset: 56598},
+												pos: position{line: 1760, col: 12, offset: 56760},
 												expr: &seqExpr{
-													pos: position{line: 1754, col: 14, offset: 56600},
+													pos: position{line: 1760, col: 14, offset: 56762},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1754, col: 14, offset: 56600},
+															pos: position{line: 1760, col: 14, offset: 56762},
 															expr: &actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40819,28 +40825,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2889, col: 8, offset: 91151},
+															pos: position{line: 2895, col: 8, offset: 91313},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2876, col: 12, offset: 90924},
+																	pos: position{line: 2882, col: 12, offset: 91086},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2876, col: 13, offset: 90925},
+																		pos: position{line: 2882, col: 13, offset: 91087},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 13, offset: 90925},
+																				pos:        position{line: 2882, col: 13, offset: 91087},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 20, offset: 90932},
+																				pos:        position{line: 2882, col: 20, offset: 91094},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 29, offset: 90941},
+																				pos:        position{line: 2882, col: 29, offset: 91103},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40849,9 +40855,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -40865,24 +40871,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1785, col: 5, offset: 57709},
+							pos:   position{line: 1791, col: 5, offset: 57871},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1799, col: 5, offset: 58122},
+								pos: position{line: 1805, col: 5, offset: 58284},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1799, col: 5, offset: 58122},
+									pos: position{line: 1805, col: 5, offset: 58284},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1799, col: 5, offset: 58122},
+											pos:   position{line: 1805, col: 5, offset: 58284},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2817, col: 14, offset: 89346},
+												pos: position{line: 2823, col: 14, offset: 89508},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2817, col: 14, offset: 89346},
+													pos: position{line: 2823, col: 14, offset: 89508},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 14, offset: 89346},
+														pos:        position{line: 2823, col: 14, offset: 89508},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40892,32 +40898,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1800, col: 5, offset: 58146},
+											pos: position{line: 1806, col: 5, offset: 58308},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2889, col: 8, offset: 91151},
+											pos: position{line: 2895, col: 8, offset: 91313},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2876, col: 12, offset: 90924},
+													pos: position{line: 2882, col: 12, offset: 91086},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 13, offset: 90925},
+														pos: position{line: 2882, col: 13, offset: 91087},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 13, offset: 90925},
+																pos:        position{line: 2882, col: 13, offset: 91087},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 20, offset: 90932},
+																pos:        position{line: 2882, col: 20, offset: 91094},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 29, offset: 90941},
+																pos:        position{line: 2882, col: 29, offset: 91103},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40926,9 +40932,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2886, col: 8, offset: 91101},
+													pos: position{line: 2892, col: 8, offset: 91263},
 													expr: &anyMatcher{
-														line: 2886, col: 9, offset: 91102,
+														line: 2892, col: 9, offset: 91264,
 													},
 												},
 											},
@@ -40938,43 +40944,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57743},
+							pos:   position{line: 1792, col: 5, offset: 57905},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1786, col: 16, offset: 57754},
+								pos: position{line: 1792, col: 16, offset: 57916},
 								expr: &actionExpr{
-									pos: position{line: 1787, col: 9, offset: 57764},
+									pos: position{line: 1793, col: 9, offset: 57926},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1787, col: 9, offset: 57764},
+										pos: position{line: 1793, col: 9, offset: 57926},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2884, col: 11, offset: 91087},
+												pos: position{line: 2890, col: 11, offset: 91249},
 												expr: &anyMatcher{
-													line: 2884, col: 13, offset: 91089,
+													line: 2890, col: 13, offset: 91251,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57779},
+												pos: position{line: 1794, col: 9, offset: 57941},
 												expr: &actionExpr{
-													pos: position{line: 678, col: 14, offset: 21519},
+													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 14, offset: 21519},
+														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2884, col: 11, offset: 91087},
+																pos: position{line: 2890, col: 11, offset: 91249},
 																expr: &anyMatcher{
-																	line: 2884, col: 13, offset: 91089,
+																	line: 2890, col: 13, offset: 91251,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 678, col: 21, offset: 21526},
+																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40983,28 +40989,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2889, col: 8, offset: 91151},
+																pos: position{line: 2895, col: 8, offset: 91313},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2876, col: 12, offset: 90924},
+																		pos: position{line: 2882, col: 12, offset: 91086},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2876, col: 13, offset: 90925},
+																			pos: position{line: 2882, col: 13, offset: 91087},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 13, offset: 90925},
+																					pos:        position{line: 2882, col: 13, offset: 91087},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 20, offset: 90932},
+																					pos:        position{line: 2882, col: 20, offset: 91094},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2876, col: 29, offset: 90941},
+																					pos:        position{line: 2882, col: 29, offset: 91103},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41013,9 +41019,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2886, col: 8, offset: 91101},
+																		pos: position{line: 2892, col: 8, offset: 91263},
 																		expr: &anyMatcher{
-																			line: 2886, col: 9, offset: 91102,
+																			line: 2892, col: 9, offset: 91264,
 																		},
 																	},
 																},
@@ -41025,27 +41031,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1789, col: 9, offset: 57798},
+												pos: position{line: 1795, col: 9, offset: 57960},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1789, col: 10, offset: 57799},
+													pos:  position{line: 1795, col: 10, offset: 57961},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 57823},
+												pos: position{line: 1796, col: 9, offset: 57985},
 												expr: &choiceExpr{
-													pos: position{line: 1790, col: 11, offset: 57825},
+													pos: position{line: 1796, col: 11, offset: 57987},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 725, col: 5, offset: 23091},
+															pos: position{line: 731, col: 5, offset: 23253},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 725, col: 5, offset: 23091},
+																pos: position{line: 731, col: 5, offset: 23253},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 725, col: 5, offset: 23091},
+																		pos: position{line: 731, col: 5, offset: 23253},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2757, col: 13, offset: 87848},
+																			pos:        position{line: 2763, col: 13, offset: 88010},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41053,36 +41059,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 726, col: 5, offset: 23121},
+																		pos:   position{line: 732, col: 5, offset: 23283},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 727, col: 9, offset: 23141},
+																			pos: position{line: 733, col: 9, offset: 23303},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 741, col: 5, offset: 23633},
+																					pos: position{line: 747, col: 5, offset: 23795},
 																					run: (*parser).callonParagraph86,
 																					expr: &seqExpr{
-																						pos: position{line: 741, col: 5, offset: 23633},
+																						pos: position{line: 747, col: 5, offset: 23795},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 741, col: 5, offset: 23633},
+																								pos:   position{line: 747, col: 5, offset: 23795},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 741, col: 16, offset: 23644},
+																									pos: position{line: 747, col: 16, offset: 23806},
 																									run: (*parser).callonParagraph89,
 																									expr: &seqExpr{
-																										pos: position{line: 741, col: 16, offset: 23644},
+																										pos: position{line: 747, col: 16, offset: 23806},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 741, col: 16, offset: 23644},
+																												pos:        position{line: 747, col: 16, offset: 23806},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 741, col: 23, offset: 23651},
+																												pos: position{line: 747, col: 23, offset: 23813},
 																												expr: &litMatcher{
-																													pos:        position{line: 741, col: 23, offset: 23651},
+																													pos:        position{line: 747, col: 23, offset: 23813},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -41093,12 +41099,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 743, col: 8, offset: 23735},
+																								pos: position{line: 749, col: 8, offset: 23897},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41107,28 +41113,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41137,9 +41143,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41148,30 +41154,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 748, col: 5, offset: 23881},
+																					pos: position{line: 754, col: 5, offset: 24043},
 																					run: (*parser).callonParagraph105,
 																					expr: &seqExpr{
-																						pos: position{line: 748, col: 5, offset: 23881},
+																						pos: position{line: 754, col: 5, offset: 24043},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 748, col: 5, offset: 23881},
+																								pos:   position{line: 754, col: 5, offset: 24043},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 748, col: 16, offset: 23892},
+																									pos: position{line: 754, col: 16, offset: 24054},
 																									run: (*parser).callonParagraph108,
 																									expr: &seqExpr{
-																										pos: position{line: 748, col: 16, offset: 23892},
+																										pos: position{line: 754, col: 16, offset: 24054},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 748, col: 16, offset: 23892},
+																												pos:        position{line: 754, col: 16, offset: 24054},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 23, offset: 23899},
+																												pos: position{line: 754, col: 23, offset: 24061},
 																												expr: &litMatcher{
-																													pos:        position{line: 748, col: 23, offset: 23899},
+																													pos:        position{line: 754, col: 23, offset: 24061},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -41182,12 +41188,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 750, col: 8, offset: 23983},
+																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41196,28 +41202,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41226,9 +41232,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41237,27 +41243,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 761, col: 26, offset: 24369},
+																					pos: position{line: 767, col: 26, offset: 24531},
 																					run: (*parser).callonParagraph124,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 26, offset: 24369},
+																						pos: position{line: 767, col: 26, offset: 24531},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 761, col: 26, offset: 24369},
+																								pos:        position{line: 767, col: 26, offset: 24531},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 32, offset: 24375},
+																								pos:   position{line: 767, col: 32, offset: 24537},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 765, col: 13, offset: 24505},
+																									pos: position{line: 771, col: 13, offset: 24667},
 																									run: (*parser).callonParagraph128,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 765, col: 14, offset: 24506},
+																										pos: position{line: 771, col: 14, offset: 24668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 765, col: 14, offset: 24506},
+																											pos:        position{line: 771, col: 14, offset: 24668},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -41267,12 +41273,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 761, col: 52, offset: 24395},
+																								pos: position{line: 767, col: 52, offset: 24557},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41281,28 +41287,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41311,9 +41317,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41322,30 +41328,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 755, col: 5, offset: 24128},
+																					pos: position{line: 761, col: 5, offset: 24290},
 																					run: (*parser).callonParagraph142,
 																					expr: &seqExpr{
-																						pos: position{line: 755, col: 5, offset: 24128},
+																						pos: position{line: 761, col: 5, offset: 24290},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 755, col: 5, offset: 24128},
+																								pos:   position{line: 761, col: 5, offset: 24290},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 755, col: 16, offset: 24139},
+																									pos: position{line: 761, col: 16, offset: 24301},
 																									run: (*parser).callonParagraph145,
 																									expr: &seqExpr{
-																										pos: position{line: 755, col: 16, offset: 24139},
+																										pos: position{line: 761, col: 16, offset: 24301},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 755, col: 16, offset: 24139},
+																												pos:        position{line: 761, col: 16, offset: 24301},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 22, offset: 24145},
+																												pos: position{line: 761, col: 22, offset: 24307},
 																												expr: &litMatcher{
-																													pos:        position{line: 755, col: 22, offset: 24145},
+																													pos:        position{line: 761, col: 22, offset: 24307},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -41356,12 +41362,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 757, col: 8, offset: 24229},
+																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41370,28 +41376,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41400,9 +41406,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41411,30 +41417,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 770, col: 5, offset: 24665},
+																					pos: position{line: 776, col: 5, offset: 24827},
 																					run: (*parser).callonParagraph161,
 																					expr: &seqExpr{
-																						pos: position{line: 770, col: 5, offset: 24665},
+																						pos: position{line: 776, col: 5, offset: 24827},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 770, col: 5, offset: 24665},
+																								pos:   position{line: 776, col: 5, offset: 24827},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 770, col: 16, offset: 24676},
+																									pos: position{line: 776, col: 16, offset: 24838},
 																									run: (*parser).callonParagraph164,
 																									expr: &seqExpr{
-																										pos: position{line: 770, col: 16, offset: 24676},
+																										pos: position{line: 776, col: 16, offset: 24838},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 770, col: 16, offset: 24676},
+																												pos:        position{line: 776, col: 16, offset: 24838},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 23, offset: 24683},
+																												pos: position{line: 776, col: 23, offset: 24845},
 																												expr: &litMatcher{
-																													pos:        position{line: 770, col: 23, offset: 24683},
+																													pos:        position{line: 776, col: 23, offset: 24845},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -41445,12 +41451,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 772, col: 8, offset: 24767},
+																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41459,28 +41465,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41489,9 +41495,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41500,30 +41506,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 784, col: 5, offset: 25141},
+																					pos: position{line: 790, col: 5, offset: 25303},
 																					run: (*parser).callonParagraph180,
 																					expr: &seqExpr{
-																						pos: position{line: 784, col: 5, offset: 25141},
+																						pos: position{line: 790, col: 5, offset: 25303},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 784, col: 5, offset: 25141},
+																								pos:   position{line: 790, col: 5, offset: 25303},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 16, offset: 25152},
+																									pos: position{line: 790, col: 16, offset: 25314},
 																									run: (*parser).callonParagraph183,
 																									expr: &seqExpr{
-																										pos: position{line: 784, col: 16, offset: 25152},
+																										pos: position{line: 790, col: 16, offset: 25314},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 784, col: 16, offset: 25152},
+																												pos:        position{line: 790, col: 16, offset: 25314},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 23, offset: 25159},
+																												pos: position{line: 790, col: 23, offset: 25321},
 																												expr: &litMatcher{
-																													pos:        position{line: 784, col: 23, offset: 25159},
+																													pos:        position{line: 790, col: 23, offset: 25321},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -41534,12 +41540,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 786, col: 8, offset: 25243},
+																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41548,28 +41554,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41578,9 +41584,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41589,30 +41595,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 791, col: 5, offset: 25393},
+																					pos: position{line: 797, col: 5, offset: 25555},
 																					run: (*parser).callonParagraph199,
 																					expr: &seqExpr{
-																						pos: position{line: 791, col: 5, offset: 25393},
+																						pos: position{line: 797, col: 5, offset: 25555},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 791, col: 5, offset: 25393},
+																								pos:   position{line: 797, col: 5, offset: 25555},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 791, col: 16, offset: 25404},
+																									pos: position{line: 797, col: 16, offset: 25566},
 																									run: (*parser).callonParagraph202,
 																									expr: &seqExpr{
-																										pos: position{line: 791, col: 16, offset: 25404},
+																										pos: position{line: 797, col: 16, offset: 25566},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 791, col: 16, offset: 25404},
+																												pos:        position{line: 797, col: 16, offset: 25566},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 23, offset: 25411},
+																												pos: position{line: 797, col: 23, offset: 25573},
 																												expr: &litMatcher{
-																													pos:        position{line: 791, col: 23, offset: 25411},
+																													pos:        position{line: 797, col: 23, offset: 25573},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -41623,12 +41629,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 793, col: 8, offset: 25495},
+																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41637,28 +41643,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41667,9 +41673,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41678,30 +41684,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 798, col: 5, offset: 25643},
+																					pos: position{line: 804, col: 5, offset: 25805},
 																					run: (*parser).callonParagraph218,
 																					expr: &seqExpr{
-																						pos: position{line: 798, col: 5, offset: 25643},
+																						pos: position{line: 804, col: 5, offset: 25805},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 798, col: 5, offset: 25643},
+																								pos:   position{line: 804, col: 5, offset: 25805},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 798, col: 16, offset: 25654},
+																									pos: position{line: 804, col: 16, offset: 25816},
 																									run: (*parser).callonParagraph221,
 																									expr: &seqExpr{
-																										pos: position{line: 798, col: 16, offset: 25654},
+																										pos: position{line: 804, col: 16, offset: 25816},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 798, col: 16, offset: 25654},
+																												pos:        position{line: 804, col: 16, offset: 25816},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 23, offset: 25661},
+																												pos: position{line: 804, col: 23, offset: 25823},
 																												expr: &litMatcher{
-																													pos:        position{line: 798, col: 23, offset: 25661},
+																													pos:        position{line: 804, col: 23, offset: 25823},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -41712,12 +41718,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 800, col: 8, offset: 25745},
+																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41726,28 +41732,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41756,9 +41762,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41767,30 +41773,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 805, col: 5, offset: 25889},
+																					pos: position{line: 811, col: 5, offset: 26051},
 																					run: (*parser).callonParagraph237,
 																					expr: &seqExpr{
-																						pos: position{line: 805, col: 5, offset: 25889},
+																						pos: position{line: 811, col: 5, offset: 26051},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 805, col: 5, offset: 25889},
+																								pos:   position{line: 811, col: 5, offset: 26051},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 805, col: 16, offset: 25900},
+																									pos: position{line: 811, col: 16, offset: 26062},
 																									run: (*parser).callonParagraph240,
 																									expr: &seqExpr{
-																										pos: position{line: 805, col: 16, offset: 25900},
+																										pos: position{line: 811, col: 16, offset: 26062},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 805, col: 16, offset: 25900},
+																												pos:        position{line: 811, col: 16, offset: 26062},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 23, offset: 25907},
+																												pos: position{line: 811, col: 23, offset: 26069},
 																												expr: &litMatcher{
-																													pos:        position{line: 805, col: 23, offset: 25907},
+																													pos:        position{line: 811, col: 23, offset: 26069},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -41801,12 +41807,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 807, col: 8, offset: 25991},
+																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2867, col: 10, offset: 90753},
+																									pos: position{line: 2873, col: 10, offset: 90915},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 10, offset: 90753},
+																										pos:        position{line: 2873, col: 10, offset: 90915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41815,28 +41821,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2889, col: 8, offset: 91151},
+																								pos: position{line: 2895, col: 8, offset: 91313},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2876, col: 12, offset: 90924},
+																										pos: position{line: 2882, col: 12, offset: 91086},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2876, col: 13, offset: 90925},
+																											pos: position{line: 2882, col: 13, offset: 91087},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 13, offset: 90925},
+																													pos:        position{line: 2882, col: 13, offset: 91087},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 20, offset: 90932},
+																													pos:        position{line: 2882, col: 20, offset: 91094},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2876, col: 29, offset: 90941},
+																													pos:        position{line: 2882, col: 29, offset: 91103},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41845,9 +41851,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2886, col: 8, offset: 91101},
+																										pos: position{line: 2892, col: 8, offset: 91263},
 																										expr: &anyMatcher{
-																											line: 2886, col: 9, offset: 91102,
+																											line: 2892, col: 9, offset: 91264,
 																										},
 																									},
 																								},
@@ -41862,19 +41868,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 777, col: 5, offset: 24910},
+															pos: position{line: 783, col: 5, offset: 25072},
 															run: (*parser).callonParagraph256,
 															expr: &seqExpr{
-																pos: position{line: 777, col: 5, offset: 24910},
+																pos: position{line: 783, col: 5, offset: 25072},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 777, col: 5, offset: 24910},
+																		pos:   position{line: 783, col: 5, offset: 25072},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 777, col: 16, offset: 24921},
+																			pos: position{line: 783, col: 16, offset: 25083},
 																			run: (*parser).callonParagraph259,
 																			expr: &litMatcher{
-																				pos:        position{line: 777, col: 16, offset: 24921},
+																				pos:        position{line: 783, col: 16, offset: 25083},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -41882,12 +41888,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 779, col: 8, offset: 24998},
+																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41896,28 +41902,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41926,9 +41932,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -41937,21 +41943,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2609, col: 19, offset: 83436},
+															pos: position{line: 2615, col: 19, offset: 83598},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2609, col: 19, offset: 83436},
+																	pos:        position{line: 2615, col: 19, offset: 83598},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2609, col: 26, offset: 83443},
+																	pos: position{line: 2615, col: 26, offset: 83605},
 																	expr: &actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41960,28 +41966,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41990,9 +41996,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -42003,42 +42009,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1791, col: 9, offset: 57887},
+												pos:   position{line: 1797, col: 9, offset: 58049},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1791, col: 15, offset: 57893},
+													pos: position{line: 1797, col: 15, offset: 58055},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2477, col: 22, offset: 79738},
+															pos: position{line: 2483, col: 22, offset: 79900},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2477, col: 22, offset: 79738},
+																pos: position{line: 2483, col: 22, offset: 79900},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2482, col: 31, offset: 79959},
+																		pos:        position{line: 2488, col: 31, offset: 80121},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2482, col: 36, offset: 79964},
+																		pos: position{line: 2488, col: 36, offset: 80126},
 																		expr: &litMatcher{
-																			pos:        position{line: 2482, col: 37, offset: 79965},
+																			pos:        position{line: 2488, col: 37, offset: 80127},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2477, col: 49, offset: 79765},
+																		pos:   position{line: 2483, col: 49, offset: 79927},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 13, offset: 89279},
+																			pos: position{line: 2819, col: 13, offset: 89441},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2813, col: 13, offset: 89279},
+																				pos: position{line: 2819, col: 13, offset: 89441},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 13, offset: 89279},
+																					pos:        position{line: 2819, col: 13, offset: 89441},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42048,28 +42054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42078,9 +42084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -42089,21 +42095,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1799, col: 5, offset: 58122},
+															pos: position{line: 1805, col: 5, offset: 58284},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1799, col: 5, offset: 58122},
+																pos: position{line: 1805, col: 5, offset: 58284},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1799, col: 5, offset: 58122},
+																		pos:   position{line: 1805, col: 5, offset: 58284},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2817, col: 14, offset: 89346},
+																			pos: position{line: 2823, col: 14, offset: 89508},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2817, col: 14, offset: 89346},
+																				pos: position{line: 2823, col: 14, offset: 89508},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2817, col: 14, offset: 89346},
+																					pos:        position{line: 2823, col: 14, offset: 89508},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42113,32 +42119,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1800, col: 5, offset: 58146},
+																		pos: position{line: 1806, col: 5, offset: 58308},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2889, col: 8, offset: 91151},
+																		pos: position{line: 2895, col: 8, offset: 91313},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42147,9 +42153,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 8, offset: 91101},
+																				pos: position{line: 2892, col: 8, offset: 91263},
 																				expr: &anyMatcher{
-																					line: 2886, col: 9, offset: 91102,
+																					line: 2892, col: 9, offset: 91264,
 																				},
 																			},
 																		},
@@ -42171,16 +42177,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1810, col: 1, offset: 58629},
+			pos:  position{line: 1816, col: 1, offset: 58791},
 			expr: &choiceExpr{
-				pos: position{line: 1810, col: 15, offset: 58643},
+				pos: position{line: 1816, col: 15, offset: 58805},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1810, col: 15, offset: 58643},
+						pos:  position{line: 1816, col: 15, offset: 58805},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1810, col: 35, offset: 58663},
+						pos:  position{line: 1816, col: 35, offset: 58825},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42188,65 +42194,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1812, col: 1, offset: 58684},
+			pos:  position{line: 1818, col: 1, offset: 58846},
 			expr: &actionExpr{
-				pos: position{line: 1813, col: 5, offset: 58709},
+				pos: position{line: 1819, col: 5, offset: 58871},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1813, col: 5, offset: 58709},
+					pos: position{line: 1819, col: 5, offset: 58871},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58709},
+							pos:   position{line: 1819, col: 5, offset: 58871},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1813, col: 16, offset: 58720},
+								pos: position{line: 1819, col: 16, offset: 58882},
 								expr: &actionExpr{
-									pos: position{line: 1813, col: 17, offset: 58721},
+									pos: position{line: 1819, col: 17, offset: 58883},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1813, col: 17, offset: 58721},
+										pos:  position{line: 1819, col: 17, offset: 58883},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1816, col: 5, offset: 58789},
+							pos: position{line: 1822, col: 5, offset: 58951},
 							expr: &litMatcher{
-								pos:        position{line: 1816, col: 7, offset: 58791},
+								pos:        position{line: 1822, col: 7, offset: 58953},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1817, col: 5, offset: 58800},
+							pos:   position{line: 1823, col: 5, offset: 58962},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1818, col: 9, offset: 58818},
+								pos: position{line: 1824, col: 9, offset: 58980},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 9, offset: 58818},
+										pos:  position{line: 1824, col: 9, offset: 58980},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58845},
+										pos:  position{line: 1825, col: 11, offset: 59007},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58873},
+										pos:  position{line: 1826, col: 11, offset: 59035},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 58904},
+										pos:  position{line: 1827, col: 11, offset: 59066},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 11, offset: 58932},
+										pos:  position{line: 1828, col: 11, offset: 59094},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 11, offset: 58963},
+										pos:  position{line: 1829, col: 11, offset: 59125},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42258,36 +42264,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1828, col: 1, offset: 59083},
+			pos:  position{line: 1834, col: 1, offset: 59245},
 			expr: &actionExpr{
-				pos: position{line: 1829, col: 5, offset: 59125},
+				pos: position{line: 1835, col: 5, offset: 59287},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1829, col: 5, offset: 59125},
+					pos: position{line: 1835, col: 5, offset: 59287},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1829, col: 5, offset: 59125},
+							pos:   position{line: 1835, col: 5, offset: 59287},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1829, col: 16, offset: 59136},
+								pos: position{line: 1835, col: 16, offset: 59298},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1829, col: 17, offset: 59137},
+									pos:  position{line: 1835, col: 17, offset: 59299},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59162},
+							pos:   position{line: 1836, col: 5, offset: 59324},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1830, col: 14, offset: 59171},
+								pos: position{line: 1836, col: 14, offset: 59333},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1830, col: 14, offset: 59171},
+										pos:  position{line: 1836, col: 14, offset: 59333},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1830, col: 33, offset: 59190},
+										pos:  position{line: 1836, col: 33, offset: 59352},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42299,32 +42305,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1838, col: 1, offset: 59421},
+			pos:  position{line: 1844, col: 1, offset: 59583},
 			expr: &choiceExpr{
-				pos: position{line: 1839, col: 5, offset: 59446},
+				pos: position{line: 1845, col: 5, offset: 59608},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 5, offset: 59446},
+						pos:  position{line: 1845, col: 5, offset: 59608},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59473},
+						pos:  position{line: 1846, col: 7, offset: 59635},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59501},
+						pos:  position{line: 1847, col: 7, offset: 59663},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59533},
+						pos:  position{line: 1848, col: 7, offset: 59695},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59561},
+						pos:  position{line: 1849, col: 7, offset: 59723},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59582},
+						pos:  position{line: 1850, col: 7, offset: 59744},
 						name: "SuperscriptText",
 					},
 				},
@@ -42332,24 +42338,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1846, col: 1, offset: 59600},
+			pos:  position{line: 1852, col: 1, offset: 59762},
 			expr: &choiceExpr{
-				pos: position{line: 1847, col: 5, offset: 59625},
+				pos: position{line: 1853, col: 5, offset: 59787},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 5, offset: 59625},
+						pos:  position{line: 1853, col: 5, offset: 59787},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59651},
+						pos:  position{line: 1854, col: 7, offset: 59813},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59679},
+						pos:  position{line: 1855, col: 7, offset: 59841},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59710},
+						pos:  position{line: 1856, col: 7, offset: 59872},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42357,26 +42363,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1864, col: 1, offset: 60064},
+			pos:  position{line: 1870, col: 1, offset: 60226},
 			expr: &choiceExpr{
-				pos: position{line: 1865, col: 5, offset: 60090},
+				pos: position{line: 1871, col: 5, offset: 60252},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2766, col: 5, offset: 87995},
+						pos: position{line: 2772, col: 5, offset: 88157},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2766, col: 5, offset: 87995},
+							pos: position{line: 2772, col: 5, offset: 88157},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2766, col: 5, offset: 87995},
+									pos:   position{line: 2772, col: 5, offset: 88157},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2766, col: 11, offset: 88001},
+										pos: position{line: 2772, col: 11, offset: 88163},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2766, col: 11, offset: 88001},
+											pos: position{line: 2772, col: 11, offset: 88163},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 11, offset: 88001},
+												pos:        position{line: 2772, col: 11, offset: 88163},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42386,36 +42392,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2769, col: 5, offset: 88059},
+									pos: position{line: 2775, col: 5, offset: 88221},
 									expr: &seqExpr{
-										pos: position{line: 2770, col: 9, offset: 88070},
+										pos: position{line: 2776, col: 9, offset: 88232},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2770, col: 9, offset: 88070},
+												pos:        position{line: 2776, col: 9, offset: 88232},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2771, col: 9, offset: 88119},
+												pos: position{line: 2777, col: 9, offset: 88281},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2775, col: 5, offset: 88199},
+									pos: position{line: 2781, col: 5, offset: 88361},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 9, offset: 88210},
+										pos: position{line: 2782, col: 9, offset: 88372},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2776, col: 9, offset: 88210},
+												pos:        position{line: 2782, col: 9, offset: 88372},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88214},
+												pos:        position{line: 2782, col: 13, offset: 88376},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42428,12 +42434,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2871, col: 11, offset: 90814},
+						pos: position{line: 2877, col: 11, offset: 90976},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2871, col: 11, offset: 90814},
+							pos: position{line: 2877, col: 11, offset: 90976},
 							expr: &charClassMatcher{
-								pos:        position{line: 2871, col: 11, offset: 90814},
+								pos:        position{line: 2877, col: 11, offset: 90976},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42442,25 +42448,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60153},
+						pos:  position{line: 1873, col: 7, offset: 60315},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2495, col: 5, offset: 80455},
+						pos: position{line: 2501, col: 5, offset: 80617},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2495, col: 5, offset: 80455},
+							pos: position{line: 2501, col: 5, offset: 80617},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2495, col: 5, offset: 80455},
+									pos:        position{line: 2501, col: 5, offset: 80617},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2495, col: 10, offset: 80460},
+									pos: position{line: 2501, col: 10, offset: 80622},
 									expr: &charClassMatcher{
-										pos:        position{line: 2495, col: 11, offset: 80461},
+										pos:        position{line: 2501, col: 11, offset: 80623},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42471,29 +42477,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80653},
+						pos: position{line: 2507, col: 5, offset: 80815},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80653},
+							pos: position{line: 2507, col: 5, offset: 80815},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80653},
+									pos: position{line: 2507, col: 5, offset: 80815},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2504, col: 5, offset: 80724},
+									pos: position{line: 2510, col: 5, offset: 80886},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2508, col: 5, offset: 80849},
+									pos:        position{line: 2514, col: 5, offset: 81011},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2508, col: 9, offset: 80853},
+									pos: position{line: 2514, col: 9, offset: 81015},
 									expr: &charClassMatcher{
-										pos:        position{line: 2508, col: 10, offset: 80854},
+										pos:        position{line: 2514, col: 10, offset: 81016},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42504,27 +42510,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2784, col: 5, offset: 88407},
+						pos: position{line: 2790, col: 5, offset: 88569},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2785, col: 9, offset: 88417},
+							pos: position{line: 2791, col: 9, offset: 88579},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2785, col: 10, offset: 88418},
+									pos:        position{line: 2791, col: 10, offset: 88580},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2787, col: 13, offset: 88515},
+									pos: position{line: 2793, col: 13, offset: 88677},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2787, col: 13, offset: 88515},
+											pos: position{line: 2793, col: 13, offset: 88677},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2790, col: 13, offset: 88615},
+											pos:        position{line: 2796, col: 13, offset: 88777},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42532,20 +42538,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2790, col: 19, offset: 88621},
+									pos:        position{line: 2796, col: 19, offset: 88783},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 13, offset: 88659},
+									pos: position{line: 2799, col: 13, offset: 88821},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2793, col: 13, offset: 88659},
+											pos: position{line: 2799, col: 13, offset: 88821},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2796, col: 14, offset: 88752},
+											pos:        position{line: 2802, col: 14, offset: 88914},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42554,18 +42560,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2798, col: 12, offset: 88796},
+									pos: position{line: 2804, col: 12, offset: 88958},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2798, col: 12, offset: 88796},
+											pos:        position{line: 2804, col: 12, offset: 88958},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2798, col: 16, offset: 88800},
+											pos: position{line: 2804, col: 16, offset: 88962},
 											expr: &litMatcher{
-												pos:        position{line: 2798, col: 17, offset: 88801},
+												pos:        position{line: 2804, col: 17, offset: 88963},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42577,35 +42583,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 637, col: 5, offset: 20139},
+						pos: position{line: 643, col: 5, offset: 20301},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 637, col: 5, offset: 20139},
+							pos: position{line: 643, col: 5, offset: 20301},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 637, col: 5, offset: 20139},
+									pos: position{line: 643, col: 5, offset: 20301},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 640, col: 5, offset: 20211},
+									pos:   position{line: 646, col: 5, offset: 20373},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 640, col: 14, offset: 20220},
+										pos: position{line: 646, col: 14, offset: 20382},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 646, col: 5, offset: 20349},
+												pos: position{line: 652, col: 5, offset: 20511},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 646, col: 5, offset: 20349},
+													pos: position{line: 652, col: 5, offset: 20511},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 646, col: 5, offset: 20349},
+															pos:        position{line: 652, col: 5, offset: 20511},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 646, col: 13, offset: 20357},
+															pos:   position{line: 652, col: 13, offset: 20519},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42637,7 +42643,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 646, col: 32, offset: 20376},
+															pos:        position{line: 652, col: 32, offset: 20538},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42646,19 +42652,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 653, col: 5, offset: 20617},
+												pos: position{line: 659, col: 5, offset: 20779},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 653, col: 5, offset: 20617},
+													pos: position{line: 659, col: 5, offset: 20779},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 653, col: 5, offset: 20617},
+															pos:        position{line: 659, col: 5, offset: 20779},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 653, col: 9, offset: 20621},
+															pos:   position{line: 659, col: 9, offset: 20783},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42690,7 +42696,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 653, col: 28, offset: 20640},
+															pos:        position{line: 659, col: 28, offset: 20802},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42699,19 +42705,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 659, col: 25, offset: 20821},
+												pos: position{line: 665, col: 25, offset: 20983},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 659, col: 25, offset: 20821},
+													pos: position{line: 665, col: 25, offset: 20983},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 659, col: 25, offset: 20821},
+															pos:        position{line: 665, col: 25, offset: 20983},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 37, offset: 20833},
+															pos:   position{line: 665, col: 37, offset: 20995},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42743,33 +42749,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 56, offset: 20852},
+															pos:   position{line: 665, col: 56, offset: 21014},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 659, col: 62, offset: 20858},
+																pos: position{line: 665, col: 62, offset: 21020},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21153},
+																	pos: position{line: 673, col: 17, offset: 21315},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21153},
+																		pos: position{line: 673, col: 17, offset: 21315},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21153},
+																				pos:        position{line: 673, col: 17, offset: 21315},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21157},
+																				pos:   position{line: 673, col: 21, offset: 21319},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21164},
+																					pos: position{line: 673, col: 28, offset: 21326},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21164},
+																							pos: position{line: 673, col: 28, offset: 21326},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21164},
+																								pos:        position{line: 673, col: 28, offset: 21326},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42777,12 +42783,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21218},
+																							pos: position{line: 675, col: 9, offset: 21380},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21218},
+																								pos: position{line: 675, col: 9, offset: 21380},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21218},
+																									pos:        position{line: 675, col: 9, offset: 21380},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42799,7 +42805,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 659, col: 78, offset: 20874},
+															pos:        position{line: 665, col: 78, offset: 21036},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42808,19 +42814,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 663, col: 25, offset: 20992},
+												pos: position{line: 669, col: 25, offset: 21154},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 663, col: 25, offset: 20992},
+													pos: position{line: 669, col: 25, offset: 21154},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 663, col: 25, offset: 20992},
+															pos:        position{line: 669, col: 25, offset: 21154},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 38, offset: 21005},
+															pos:   position{line: 669, col: 38, offset: 21167},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42852,33 +42858,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 663, col: 57, offset: 21024},
+															pos:   position{line: 669, col: 57, offset: 21186},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 663, col: 63, offset: 21030},
+																pos: position{line: 669, col: 63, offset: 21192},
 																expr: &actionExpr{
-																	pos: position{line: 667, col: 17, offset: 21153},
+																	pos: position{line: 673, col: 17, offset: 21315},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 667, col: 17, offset: 21153},
+																		pos: position{line: 673, col: 17, offset: 21315},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 667, col: 17, offset: 21153},
+																				pos:        position{line: 673, col: 17, offset: 21315},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 667, col: 21, offset: 21157},
+																				pos:   position{line: 673, col: 21, offset: 21319},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 667, col: 28, offset: 21164},
+																					pos: position{line: 673, col: 28, offset: 21326},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 667, col: 28, offset: 21164},
+																							pos: position{line: 673, col: 28, offset: 21326},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 667, col: 28, offset: 21164},
+																								pos:        position{line: 673, col: 28, offset: 21326},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42886,12 +42892,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 9, offset: 21218},
+																							pos: position{line: 675, col: 9, offset: 21380},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 669, col: 9, offset: 21218},
+																								pos: position{line: 675, col: 9, offset: 21380},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 669, col: 9, offset: 21218},
+																									pos:        position{line: 675, col: 9, offset: 21380},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42908,7 +42914,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 663, col: 79, offset: 21046},
+															pos:        position{line: 669, col: 79, offset: 21208},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42923,31 +42929,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2880, col: 18, offset: 91024},
+						pos: position{line: 2886, col: 18, offset: 91186},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2880, col: 18, offset: 91024},
+							pos: position{line: 2886, col: 18, offset: 91186},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42956,27 +42962,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2880, col: 26, offset: 91032},
+									pos: position{line: 2886, col: 26, offset: 91194},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 12, offset: 90924},
+										pos: position{line: 2882, col: 12, offset: 91086},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2876, col: 13, offset: 90925},
+											pos: position{line: 2882, col: 13, offset: 91087},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2876, col: 13, offset: 90925},
+													pos:        position{line: 2882, col: 13, offset: 91087},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 20, offset: 90932},
+													pos:        position{line: 2882, col: 20, offset: 91094},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 29, offset: 90941},
+													pos:        position{line: 2882, col: 29, offset: 91103},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42989,31 +42995,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60320},
+						pos:  position{line: 1878, col: 7, offset: 60482},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60367},
+						pos:  position{line: 1879, col: 7, offset: 60529},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2464, col: 5, offset: 79284},
+						pos: position{line: 2470, col: 5, offset: 79446},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2464, col: 5, offset: 79284},
+							pos: position{line: 2470, col: 5, offset: 79446},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2464, col: 5, offset: 79284},
+									pos: position{line: 2470, col: 5, offset: 79446},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2467, col: 5, offset: 79360},
+									pos:   position{line: 2473, col: 5, offset: 79522},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2468, col: 9, offset: 79378},
+										pos: position{line: 2474, col: 9, offset: 79540},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2468, col: 10, offset: 79379},
+											pos:        position{line: 2474, col: 10, offset: 79541},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43025,27 +43031,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1207, col: 23, offset: 37227},
+						pos: position{line: 1213, col: 23, offset: 37389},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1207, col: 23, offset: 37227},
+							pos: position{line: 1213, col: 23, offset: 37389},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1205, col: 32, offset: 37195},
+									pos:        position{line: 1211, col: 32, offset: 37357},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1207, col: 51, offset: 37255},
+									pos:   position{line: 1213, col: 51, offset: 37417},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1207, col: 56, offset: 37260},
+										pos: position{line: 1213, col: 56, offset: 37422},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1207, col: 56, offset: 37260},
+											pos: position{line: 1213, col: 56, offset: 37422},
 											expr: &charClassMatcher{
-												pos:        position{line: 1207, col: 56, offset: 37260},
+												pos:        position{line: 1213, col: 56, offset: 37422},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -43055,7 +43061,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1205, col: 32, offset: 37195},
+									pos:        position{line: 1211, col: 32, offset: 37357},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -43064,10 +43070,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2806, col: 12, offset: 89061},
+						pos: position{line: 2812, col: 12, offset: 89223},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2806, col: 12, offset: 89061},
+							pos:        position{line: 2812, col: 12, offset: 89223},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43079,29 +43085,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1891, col: 1, offset: 60837},
+			pos:  position{line: 1897, col: 1, offset: 60999},
 			expr: &actionExpr{
-				pos: position{line: 1892, col: 5, offset: 60865},
+				pos: position{line: 1898, col: 5, offset: 61027},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1892, col: 5, offset: 60865},
+					pos: position{line: 1898, col: 5, offset: 61027},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1887, col: 38, offset: 60790},
+							pos:        position{line: 1893, col: 38, offset: 60952},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1893, col: 5, offset: 60904},
+							pos:   position{line: 1899, col: 5, offset: 61066},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1893, col: 15, offset: 60914},
+								pos:  position{line: 1899, col: 15, offset: 61076},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1889, col: 36, offset: 60831},
+							pos:        position{line: 1895, col: 36, offset: 60993},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43112,44 +43118,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1898, col: 1, offset: 61074},
+			pos:  position{line: 1904, col: 1, offset: 61236},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1898, col: 32, offset: 61105},
+				pos: position{line: 1904, col: 32, offset: 61267},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1898, col: 32, offset: 61105},
+					pos:  position{line: 1904, col: 32, offset: 61267},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1900, col: 1, offset: 61136},
+			pos:  position{line: 1906, col: 1, offset: 61298},
 			expr: &actionExpr{
-				pos: position{line: 1901, col: 5, offset: 61171},
+				pos: position{line: 1907, col: 5, offset: 61333},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1901, col: 5, offset: 61171},
+					pos: position{line: 1907, col: 5, offset: 61333},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1902, col: 5, offset: 61182},
+							pos: position{line: 1908, col: 5, offset: 61344},
 							expr: &litMatcher{
-								pos:        position{line: 1889, col: 36, offset: 60831},
+								pos:        position{line: 1895, col: 36, offset: 60993},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1903, col: 5, offset: 61219},
+							pos:   position{line: 1909, col: 5, offset: 61381},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1903, col: 14, offset: 61228},
+								pos:  position{line: 1909, col: 14, offset: 61390},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43159,29 +43165,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1928, col: 1, offset: 61908},
+			pos:  position{line: 1934, col: 1, offset: 62070},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 61936},
+				pos: position{line: 1935, col: 5, offset: 62098},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 61936},
+					pos: position{line: 1935, col: 5, offset: 62098},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1912, col: 5, offset: 61462},
+							pos:        position{line: 1918, col: 5, offset: 61624},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1913, col: 5, offset: 61471},
+							pos: position{line: 1919, col: 5, offset: 61633},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1917, col: 5, offset: 61589},
+							pos: position{line: 1923, col: 5, offset: 61751},
 							expr: &notExpr{
-								pos: position{line: 1917, col: 7, offset: 61591},
+								pos: position{line: 1923, col: 7, offset: 61753},
 								expr: &litMatcher{
-									pos:        position{line: 1917, col: 8, offset: 61592},
+									pos:        position{line: 1923, col: 8, offset: 61754},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43189,38 +43195,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1930, col: 5, offset: 61974},
+							pos:   position{line: 1936, col: 5, offset: 62136},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1930, col: 15, offset: 61984},
+								pos:  position{line: 1936, col: 15, offset: 62146},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1920, col: 5, offset: 61712},
+							pos:        position{line: 1926, col: 5, offset: 61874},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61721},
+							pos: position{line: 1927, col: 5, offset: 61883},
 							expr: &litMatcher{
-								pos:        position{line: 1921, col: 6, offset: 61722},
+								pos:        position{line: 1927, col: 6, offset: 61884},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1922, col: 5, offset: 61785},
+							pos: position{line: 1928, col: 5, offset: 61947},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1926, col: 5, offset: 61894},
+							pos: position{line: 1932, col: 5, offset: 62056},
 							expr: &notExpr{
-								pos: position{line: 1926, col: 7, offset: 61896},
+								pos: position{line: 1932, col: 7, offset: 62058},
 								expr: &charClassMatcher{
-									pos:        position{line: 2757, col: 13, offset: 87848},
+									pos:        position{line: 2763, col: 13, offset: 88010},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43234,20 +43240,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1935, col: 1, offset: 62144},
+			pos:  position{line: 1941, col: 1, offset: 62306},
 			expr: &actionExpr{
-				pos: position{line: 1936, col: 5, offset: 62181},
+				pos: position{line: 1942, col: 5, offset: 62343},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1936, col: 5, offset: 62181},
+					pos: position{line: 1942, col: 5, offset: 62343},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1936, col: 5, offset: 62181},
+							pos: position{line: 1942, col: 5, offset: 62343},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43256,18 +43262,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1937, col: 5, offset: 62220},
+							pos:   position{line: 1943, col: 5, offset: 62382},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1937, col: 14, offset: 62229},
+								pos: position{line: 1943, col: 14, offset: 62391},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1937, col: 15, offset: 62230},
+									pos:  position{line: 1943, col: 15, offset: 62392},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1938, col: 5, offset: 62264},
+							pos: position{line: 1944, col: 5, offset: 62426},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43276,49 +43282,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1944, col: 1, offset: 62405},
+			pos:  position{line: 1950, col: 1, offset: 62567},
 			expr: &actionExpr{
-				pos: position{line: 1945, col: 5, offset: 62440},
+				pos: position{line: 1951, col: 5, offset: 62602},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1945, col: 5, offset: 62440},
+					pos: position{line: 1951, col: 5, offset: 62602},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1946, col: 5, offset: 62468},
+							pos: position{line: 1952, col: 5, offset: 62630},
 							expr: &seqExpr{
-								pos: position{line: 1920, col: 5, offset: 61712},
+								pos: position{line: 1926, col: 5, offset: 61874},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1920, col: 5, offset: 61712},
+										pos:        position{line: 1926, col: 5, offset: 61874},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1921, col: 5, offset: 61721},
+										pos: position{line: 1927, col: 5, offset: 61883},
 										expr: &litMatcher{
-											pos:        position{line: 1921, col: 6, offset: 61722},
+											pos:        position{line: 1927, col: 6, offset: 61884},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1922, col: 5, offset: 61785},
+										pos: position{line: 1928, col: 5, offset: 61947},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1926, col: 5, offset: 61894},
+										pos: position{line: 1932, col: 5, offset: 62056},
 										expr: &notExpr{
-											pos: position{line: 1926, col: 7, offset: 61896},
+											pos: position{line: 1932, col: 7, offset: 62058},
 											expr: &charClassMatcher{
-												pos:        position{line: 2757, col: 13, offset: 87848},
+												pos:        position{line: 2763, col: 13, offset: 88010},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43330,10 +43336,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1947, col: 5, offset: 62505},
+							pos:   position{line: 1953, col: 5, offset: 62667},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1947, col: 14, offset: 62514},
+								pos:  position{line: 1953, col: 14, offset: 62676},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43343,35 +43349,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62602},
+			pos:  position{line: 1958, col: 1, offset: 62764},
 			expr: &choiceExpr{
-				pos: position{line: 1954, col: 5, offset: 62663},
+				pos: position{line: 1960, col: 5, offset: 62825},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1954, col: 5, offset: 62663},
+						pos: position{line: 1960, col: 5, offset: 62825},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 5, offset: 62663},
+							pos: position{line: 1960, col: 5, offset: 62825},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 5, offset: 62663},
+									pos:   position{line: 1960, col: 5, offset: 62825},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1860, col: 25, offset: 60010},
+										pos: position{line: 1866, col: 25, offset: 60172},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1860, col: 25, offset: 60010},
+											pos: position{line: 1866, col: 25, offset: 60172},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1860, col: 25, offset: 60010},
+													pos:        position{line: 1866, col: 25, offset: 60172},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1860, col: 30, offset: 60015},
+													pos: position{line: 1866, col: 30, offset: 60177},
 													expr: &litMatcher{
-														pos:        position{line: 1860, col: 30, offset: 60015},
+														pos:        position{line: 1866, col: 30, offset: 60177},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43382,21 +43388,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 40, offset: 62698},
+									pos:        position{line: 1960, col: 40, offset: 62860},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 45, offset: 62703},
+									pos:   position{line: 1960, col: 45, offset: 62865},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 55, offset: 62713},
+										pos:  position{line: 1960, col: 55, offset: 62875},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 84, offset: 62742},
+									pos:        position{line: 1960, col: 84, offset: 62904},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43405,21 +43411,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1958, col: 7, offset: 62906},
+						pos: position{line: 1964, col: 7, offset: 63068},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1958, col: 7, offset: 62906},
+							pos: position{line: 1964, col: 7, offset: 63068},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1958, col: 7, offset: 62906},
+									pos:   position{line: 1964, col: 7, offset: 63068},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43428,21 +43434,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1958, col: 42, offset: 62941},
+									pos:        position{line: 1964, col: 42, offset: 63103},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1958, col: 47, offset: 62946},
+									pos:   position{line: 1964, col: 47, offset: 63108},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1958, col: 57, offset: 62956},
+										pos:  position{line: 1964, col: 57, offset: 63118},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1958, col: 86, offset: 62985},
+									pos:        position{line: 1964, col: 86, offset: 63147},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43451,21 +43457,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1963, col: 7, offset: 63187},
+						pos: position{line: 1969, col: 7, offset: 63349},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1963, col: 7, offset: 63187},
+							pos: position{line: 1969, col: 7, offset: 63349},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1963, col: 7, offset: 63187},
+									pos:   position{line: 1969, col: 7, offset: 63349},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43474,21 +43480,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1963, col: 42, offset: 63222},
+									pos:        position{line: 1969, col: 42, offset: 63384},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1963, col: 46, offset: 63226},
+									pos:   position{line: 1969, col: 46, offset: 63388},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1963, col: 56, offset: 63236},
+										pos:  position{line: 1969, col: 56, offset: 63398},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1963, col: 85, offset: 63265},
+									pos:        position{line: 1969, col: 85, offset: 63427},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43501,29 +43507,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1980, col: 1, offset: 63745},
+			pos:  position{line: 1986, col: 1, offset: 63907},
 			expr: &actionExpr{
-				pos: position{line: 1981, col: 5, offset: 63775},
+				pos: position{line: 1987, col: 5, offset: 63937},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1981, col: 5, offset: 63775},
+					pos: position{line: 1987, col: 5, offset: 63937},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1976, col: 40, offset: 63696},
+							pos:        position{line: 1982, col: 40, offset: 63858},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1982, col: 5, offset: 63816},
+							pos:   position{line: 1988, col: 5, offset: 63978},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1982, col: 15, offset: 63826},
+								pos:  position{line: 1988, col: 15, offset: 63988},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1978, col: 38, offset: 63739},
+							pos:        position{line: 1984, col: 38, offset: 63901},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43534,44 +43540,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1987, col: 1, offset: 63991},
+			pos:  position{line: 1993, col: 1, offset: 64153},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1987, col: 34, offset: 64024},
+				pos: position{line: 1993, col: 34, offset: 64186},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1987, col: 34, offset: 64024},
+					pos:  position{line: 1993, col: 34, offset: 64186},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1989, col: 1, offset: 64056},
+			pos:  position{line: 1995, col: 1, offset: 64218},
 			expr: &actionExpr{
-				pos: position{line: 1990, col: 5, offset: 64093},
+				pos: position{line: 1996, col: 5, offset: 64255},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1990, col: 5, offset: 64093},
+					pos: position{line: 1996, col: 5, offset: 64255},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1991, col: 5, offset: 64104},
+							pos: position{line: 1997, col: 5, offset: 64266},
 							expr: &litMatcher{
-								pos:        position{line: 1978, col: 38, offset: 63739},
+								pos:        position{line: 1984, col: 38, offset: 63901},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1992, col: 5, offset: 64143},
+							pos:   position{line: 1998, col: 5, offset: 64305},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1992, col: 14, offset: 64152},
+								pos:  position{line: 1998, col: 14, offset: 64314},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43581,29 +43587,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2018, col: 1, offset: 64836},
+			pos:  position{line: 2024, col: 1, offset: 64998},
 			expr: &actionExpr{
-				pos: position{line: 2019, col: 5, offset: 64866},
+				pos: position{line: 2025, col: 5, offset: 65028},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2019, col: 5, offset: 64866},
+					pos: position{line: 2025, col: 5, offset: 65028},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2001, col: 5, offset: 64394},
+							pos:        position{line: 2007, col: 5, offset: 64556},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2002, col: 5, offset: 64403},
+							pos: position{line: 2008, col: 5, offset: 64565},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2006, col: 5, offset: 64523},
+							pos: position{line: 2012, col: 5, offset: 64685},
 							expr: &notExpr{
-								pos: position{line: 2006, col: 7, offset: 64525},
+								pos: position{line: 2012, col: 7, offset: 64687},
 								expr: &litMatcher{
-									pos:        position{line: 2006, col: 8, offset: 64526},
+									pos:        position{line: 2012, col: 8, offset: 64688},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43611,38 +43617,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2020, col: 5, offset: 64906},
+							pos:   position{line: 2026, col: 5, offset: 65068},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2020, col: 15, offset: 64916},
+								pos:  position{line: 2026, col: 15, offset: 65078},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2010, col: 5, offset: 64636},
+							pos:        position{line: 2016, col: 5, offset: 64798},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64645},
+							pos: position{line: 2017, col: 5, offset: 64807},
 							expr: &litMatcher{
-								pos:        position{line: 2011, col: 6, offset: 64646},
+								pos:        position{line: 2017, col: 6, offset: 64808},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2012, col: 5, offset: 64711},
+							pos: position{line: 2018, col: 5, offset: 64873},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2016, col: 5, offset: 64822},
+							pos: position{line: 2022, col: 5, offset: 64984},
 							expr: &notExpr{
-								pos: position{line: 2016, col: 7, offset: 64824},
+								pos: position{line: 2022, col: 7, offset: 64986},
 								expr: &charClassMatcher{
-									pos:        position{line: 2757, col: 13, offset: 87848},
+									pos:        position{line: 2763, col: 13, offset: 88010},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43656,20 +43662,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2025, col: 1, offset: 65083},
+			pos:  position{line: 2031, col: 1, offset: 65245},
 			expr: &actionExpr{
-				pos: position{line: 2026, col: 5, offset: 65121},
+				pos: position{line: 2032, col: 5, offset: 65283},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2026, col: 5, offset: 65121},
+					pos: position{line: 2032, col: 5, offset: 65283},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2026, col: 5, offset: 65121},
+							pos: position{line: 2032, col: 5, offset: 65283},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43678,18 +43684,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2027, col: 5, offset: 65160},
+							pos:   position{line: 2033, col: 5, offset: 65322},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2027, col: 14, offset: 65169},
+								pos: position{line: 2033, col: 14, offset: 65331},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2027, col: 15, offset: 65170},
+									pos:  position{line: 2033, col: 15, offset: 65332},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2028, col: 5, offset: 65205},
+							pos: position{line: 2034, col: 5, offset: 65367},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43698,49 +43704,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2034, col: 1, offset: 65346},
+			pos:  position{line: 2040, col: 1, offset: 65508},
 			expr: &actionExpr{
-				pos: position{line: 2035, col: 5, offset: 65383},
+				pos: position{line: 2041, col: 5, offset: 65545},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2035, col: 5, offset: 65383},
+					pos: position{line: 2041, col: 5, offset: 65545},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2036, col: 5, offset: 65394},
+							pos: position{line: 2042, col: 5, offset: 65556},
 							expr: &seqExpr{
-								pos: position{line: 2010, col: 5, offset: 64636},
+								pos: position{line: 2016, col: 5, offset: 64798},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2010, col: 5, offset: 64636},
+										pos:        position{line: 2016, col: 5, offset: 64798},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2011, col: 5, offset: 64645},
+										pos: position{line: 2017, col: 5, offset: 64807},
 										expr: &litMatcher{
-											pos:        position{line: 2011, col: 6, offset: 64646},
+											pos:        position{line: 2017, col: 6, offset: 64808},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2012, col: 5, offset: 64711},
+										pos: position{line: 2018, col: 5, offset: 64873},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2016, col: 5, offset: 64822},
+										pos: position{line: 2022, col: 5, offset: 64984},
 										expr: &notExpr{
-											pos: position{line: 2016, col: 7, offset: 64824},
+											pos: position{line: 2022, col: 7, offset: 64986},
 											expr: &charClassMatcher{
-												pos:        position{line: 2757, col: 13, offset: 87848},
+												pos:        position{line: 2763, col: 13, offset: 88010},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43752,10 +43758,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2037, col: 5, offset: 65433},
+							pos:   position{line: 2043, col: 5, offset: 65595},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2037, col: 14, offset: 65442},
+								pos:  position{line: 2043, col: 14, offset: 65604},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43765,35 +43771,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2042, col: 1, offset: 65530},
+			pos:  position{line: 2048, col: 1, offset: 65692},
 			expr: &choiceExpr{
-				pos: position{line: 2044, col: 5, offset: 65595},
+				pos: position{line: 2050, col: 5, offset: 65757},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2044, col: 5, offset: 65595},
+						pos: position{line: 2050, col: 5, offset: 65757},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2044, col: 5, offset: 65595},
+							pos: position{line: 2050, col: 5, offset: 65757},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2044, col: 5, offset: 65595},
+									pos:   position{line: 2050, col: 5, offset: 65757},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1860, col: 25, offset: 60010},
+										pos: position{line: 1866, col: 25, offset: 60172},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1860, col: 25, offset: 60010},
+											pos: position{line: 1866, col: 25, offset: 60172},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1860, col: 25, offset: 60010},
+													pos:        position{line: 1866, col: 25, offset: 60172},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1860, col: 30, offset: 60015},
+													pos: position{line: 1866, col: 30, offset: 60177},
 													expr: &litMatcher{
-														pos:        position{line: 1860, col: 30, offset: 60015},
+														pos:        position{line: 1866, col: 30, offset: 60177},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43804,21 +43810,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 40, offset: 65630},
+									pos:        position{line: 2050, col: 40, offset: 65792},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2044, col: 45, offset: 65635},
+									pos:   position{line: 2050, col: 45, offset: 65797},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2044, col: 55, offset: 65645},
+										pos:  position{line: 2050, col: 55, offset: 65807},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 86, offset: 65676},
+									pos:        position{line: 2050, col: 86, offset: 65838},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43827,21 +43833,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2048, col: 7, offset: 65841},
+						pos: position{line: 2054, col: 7, offset: 66003},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2048, col: 7, offset: 65841},
+							pos: position{line: 2054, col: 7, offset: 66003},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2048, col: 7, offset: 65841},
+									pos:   position{line: 2054, col: 7, offset: 66003},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43850,21 +43856,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2048, col: 42, offset: 65876},
+									pos:        position{line: 2054, col: 42, offset: 66038},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2048, col: 47, offset: 65881},
+									pos:   position{line: 2054, col: 47, offset: 66043},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2048, col: 57, offset: 65891},
+										pos:  position{line: 2054, col: 57, offset: 66053},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2048, col: 88, offset: 65922},
+									pos:        position{line: 2054, col: 88, offset: 66084},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43873,21 +43879,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2053, col: 7, offset: 66163},
+						pos: position{line: 2059, col: 7, offset: 66325},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2053, col: 7, offset: 66163},
+							pos: position{line: 2059, col: 7, offset: 66325},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2053, col: 7, offset: 66163},
+									pos:   position{line: 2059, col: 7, offset: 66325},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43896,21 +43902,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 42, offset: 66198},
+									pos:        position{line: 2059, col: 42, offset: 66360},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2053, col: 46, offset: 66202},
+									pos:   position{line: 2059, col: 46, offset: 66364},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2053, col: 56, offset: 66212},
+										pos:  position{line: 2059, col: 56, offset: 66374},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2053, col: 87, offset: 66243},
+									pos:        position{line: 2059, col: 87, offset: 66405},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43923,29 +43929,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2070, col: 1, offset: 66807},
+			pos:  position{line: 2076, col: 1, offset: 66969},
 			expr: &actionExpr{
-				pos: position{line: 2071, col: 5, offset: 66840},
+				pos: position{line: 2077, col: 5, offset: 67002},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2071, col: 5, offset: 66840},
+					pos: position{line: 2077, col: 5, offset: 67002},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2066, col: 43, offset: 66755},
+							pos:        position{line: 2072, col: 43, offset: 66917},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2072, col: 5, offset: 66884},
+							pos:   position{line: 2078, col: 5, offset: 67046},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2072, col: 15, offset: 66894},
+								pos:  position{line: 2078, col: 15, offset: 67056},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2068, col: 41, offset: 66801},
+							pos:        position{line: 2074, col: 41, offset: 66963},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43956,44 +43962,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2077, col: 1, offset: 67069},
+			pos:  position{line: 2083, col: 1, offset: 67231},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2077, col: 37, offset: 67105},
+				pos: position{line: 2083, col: 37, offset: 67267},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2077, col: 37, offset: 67105},
+					pos:  position{line: 2083, col: 37, offset: 67267},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2079, col: 1, offset: 67172},
+			pos:  position{line: 2085, col: 1, offset: 67334},
 			expr: &actionExpr{
-				pos: position{line: 2080, col: 5, offset: 67212},
+				pos: position{line: 2086, col: 5, offset: 67374},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2080, col: 5, offset: 67212},
+					pos: position{line: 2086, col: 5, offset: 67374},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2081, col: 5, offset: 67223},
+							pos: position{line: 2087, col: 5, offset: 67385},
 							expr: &litMatcher{
-								pos:        position{line: 2068, col: 41, offset: 66801},
+								pos:        position{line: 2074, col: 41, offset: 66963},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2082, col: 5, offset: 67265},
+							pos:   position{line: 2088, col: 5, offset: 67427},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2082, col: 14, offset: 67274},
+								pos:  position{line: 2088, col: 14, offset: 67436},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44003,33 +44009,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2100, col: 1, offset: 67816},
+			pos:  position{line: 2106, col: 1, offset: 67978},
 			expr: &seqExpr{
-				pos: position{line: 2101, col: 5, offset: 67861},
+				pos: position{line: 2107, col: 5, offset: 68023},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2101, col: 5, offset: 67861},
+						pos: position{line: 2107, col: 5, offset: 68023},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2101, col: 6, offset: 67862},
+							pos:  position{line: 2107, col: 6, offset: 68024},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2102, col: 5, offset: 67881},
+						pos:        position{line: 2108, col: 5, offset: 68043},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2103, col: 5, offset: 67889},
+						pos: position{line: 2109, col: 5, offset: 68051},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2107, col: 5, offset: 68003},
+						pos: position{line: 2113, col: 5, offset: 68165},
 						expr: &notExpr{
-							pos: position{line: 2107, col: 7, offset: 68005},
+							pos: position{line: 2113, col: 7, offset: 68167},
 							expr: &charClassMatcher{
-								pos:        position{line: 2757, col: 13, offset: 87848},
+								pos:        position{line: 2763, col: 13, offset: 88010},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44042,29 +44048,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2110, col: 1, offset: 68022},
+			pos:  position{line: 2116, col: 1, offset: 68184},
 			expr: &actionExpr{
-				pos: position{line: 2111, col: 5, offset: 68055},
+				pos: position{line: 2117, col: 5, offset: 68217},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2111, col: 5, offset: 68055},
+					pos: position{line: 2117, col: 5, offset: 68217},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2093, col: 5, offset: 67618},
+							pos:        position{line: 2099, col: 5, offset: 67780},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2094, col: 5, offset: 67627},
+							pos: position{line: 2100, col: 5, offset: 67789},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2098, col: 5, offset: 67750},
+							pos: position{line: 2104, col: 5, offset: 67912},
 							expr: &notExpr{
-								pos: position{line: 2098, col: 7, offset: 67752},
+								pos: position{line: 2104, col: 7, offset: 67914},
 								expr: &litMatcher{
-									pos:        position{line: 2098, col: 8, offset: 67753},
+									pos:        position{line: 2104, col: 8, offset: 67915},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44072,15 +44078,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2112, col: 5, offset: 68099},
+							pos:   position{line: 2118, col: 5, offset: 68261},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2112, col: 15, offset: 68109},
+								pos:  position{line: 2118, col: 15, offset: 68271},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2113, col: 5, offset: 68148},
+							pos:  position{line: 2119, col: 5, offset: 68310},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44089,20 +44095,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2117, col: 1, offset: 68285},
+			pos:  position{line: 2123, col: 1, offset: 68447},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68326},
+				pos: position{line: 2124, col: 5, offset: 68488},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68326},
+					pos: position{line: 2124, col: 5, offset: 68488},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2118, col: 5, offset: 68326},
+							pos: position{line: 2124, col: 5, offset: 68488},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44111,18 +44117,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2119, col: 5, offset: 68365},
+							pos:   position{line: 2125, col: 5, offset: 68527},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2119, col: 14, offset: 68374},
+								pos: position{line: 2125, col: 14, offset: 68536},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2119, col: 15, offset: 68375},
+									pos:  position{line: 2125, col: 15, offset: 68537},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2120, col: 5, offset: 68413},
+							pos: position{line: 2126, col: 5, offset: 68575},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44131,31 +44137,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2126, col: 1, offset: 68554},
+			pos:  position{line: 2132, col: 1, offset: 68716},
 			expr: &actionExpr{
-				pos: position{line: 2127, col: 5, offset: 68594},
+				pos: position{line: 2133, col: 5, offset: 68756},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2127, col: 5, offset: 68594},
+					pos: position{line: 2133, col: 5, offset: 68756},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2128, col: 5, offset: 68605},
+							pos: position{line: 2134, col: 5, offset: 68767},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2128, col: 6, offset: 68606},
+								pos:  position{line: 2134, col: 6, offset: 68768},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2129, col: 5, offset: 68647},
+							pos:   position{line: 2135, col: 5, offset: 68809},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2129, col: 14, offset: 68656},
+								pos:  position{line: 2135, col: 14, offset: 68818},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44165,35 +44171,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2134, col: 1, offset: 68744},
+			pos:  position{line: 2140, col: 1, offset: 68906},
 			expr: &choiceExpr{
-				pos: position{line: 2136, col: 5, offset: 68815},
+				pos: position{line: 2142, col: 5, offset: 68977},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2136, col: 5, offset: 68815},
+						pos: position{line: 2142, col: 5, offset: 68977},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2136, col: 5, offset: 68815},
+							pos: position{line: 2142, col: 5, offset: 68977},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2136, col: 5, offset: 68815},
+									pos:   position{line: 2142, col: 5, offset: 68977},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1860, col: 25, offset: 60010},
+										pos: position{line: 1866, col: 25, offset: 60172},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1860, col: 25, offset: 60010},
+											pos: position{line: 1866, col: 25, offset: 60172},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1860, col: 25, offset: 60010},
+													pos:        position{line: 1866, col: 25, offset: 60172},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1860, col: 30, offset: 60015},
+													pos: position{line: 1866, col: 30, offset: 60177},
 													expr: &litMatcher{
-														pos:        position{line: 1860, col: 30, offset: 60015},
+														pos:        position{line: 1866, col: 30, offset: 60177},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44204,21 +44210,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 40, offset: 68850},
+									pos:        position{line: 2142, col: 40, offset: 69012},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2136, col: 45, offset: 68855},
+									pos:   position{line: 2142, col: 45, offset: 69017},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2136, col: 55, offset: 68865},
+										pos:  position{line: 2142, col: 55, offset: 69027},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 89, offset: 68899},
+									pos:        position{line: 2142, col: 89, offset: 69061},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44227,21 +44233,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2140, col: 7, offset: 69068},
+						pos: position{line: 2146, col: 7, offset: 69230},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2140, col: 7, offset: 69068},
+							pos: position{line: 2146, col: 7, offset: 69230},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2140, col: 7, offset: 69068},
+									pos:   position{line: 2146, col: 7, offset: 69230},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44250,21 +44256,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2140, col: 42, offset: 69103},
+									pos:        position{line: 2146, col: 42, offset: 69265},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2140, col: 47, offset: 69108},
+									pos:   position{line: 2146, col: 47, offset: 69270},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2140, col: 57, offset: 69118},
+										pos:  position{line: 2146, col: 57, offset: 69280},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2140, col: 91, offset: 69152},
+									pos:        position{line: 2146, col: 91, offset: 69314},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44273,21 +44279,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2145, col: 7, offset: 69358},
+						pos: position{line: 2151, col: 7, offset: 69520},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2145, col: 7, offset: 69358},
+							pos: position{line: 2151, col: 7, offset: 69520},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2145, col: 7, offset: 69358},
+									pos:   position{line: 2151, col: 7, offset: 69520},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44296,21 +44302,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2145, col: 42, offset: 69393},
+									pos:        position{line: 2151, col: 42, offset: 69555},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2145, col: 46, offset: 69397},
+									pos:   position{line: 2151, col: 46, offset: 69559},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2145, col: 56, offset: 69407},
+										pos:  position{line: 2151, col: 56, offset: 69569},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2145, col: 90, offset: 69441},
+									pos:        position{line: 2151, col: 90, offset: 69603},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44323,29 +44329,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2162, col: 1, offset: 69926},
+			pos:  position{line: 2168, col: 1, offset: 70088},
 			expr: &actionExpr{
-				pos: position{line: 2163, col: 5, offset: 69956},
+				pos: position{line: 2169, col: 5, offset: 70118},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2163, col: 5, offset: 69956},
+					pos: position{line: 2169, col: 5, offset: 70118},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2158, col: 40, offset: 69877},
+							pos:        position{line: 2164, col: 40, offset: 70039},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2164, col: 5, offset: 69997},
+							pos:   position{line: 2170, col: 5, offset: 70159},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2164, col: 15, offset: 70007},
+								pos:  position{line: 2170, col: 15, offset: 70169},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2160, col: 38, offset: 69920},
+							pos:        position{line: 2166, col: 38, offset: 70082},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44356,44 +44362,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2169, col: 1, offset: 70173},
+			pos:  position{line: 2175, col: 1, offset: 70335},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2169, col: 34, offset: 70206},
+				pos: position{line: 2175, col: 34, offset: 70368},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2169, col: 34, offset: 70206},
+					pos:  position{line: 2175, col: 34, offset: 70368},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2171, col: 1, offset: 70237},
+			pos:  position{line: 2177, col: 1, offset: 70399},
 			expr: &actionExpr{
-				pos: position{line: 2172, col: 5, offset: 70306},
+				pos: position{line: 2178, col: 5, offset: 70468},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2172, col: 5, offset: 70306},
+					pos: position{line: 2178, col: 5, offset: 70468},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2173, col: 5, offset: 70317},
+							pos: position{line: 2179, col: 5, offset: 70479},
 							expr: &litMatcher{
-								pos:        position{line: 2160, col: 38, offset: 69920},
+								pos:        position{line: 2166, col: 38, offset: 70082},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2174, col: 5, offset: 70356},
+							pos:   position{line: 2180, col: 5, offset: 70518},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2174, col: 14, offset: 70365},
+								pos:  position{line: 2180, col: 14, offset: 70527},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44403,29 +44409,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2199, col: 1, offset: 71047},
+			pos:  position{line: 2205, col: 1, offset: 71209},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71077},
+				pos: position{line: 2206, col: 5, offset: 71239},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71077},
+					pos: position{line: 2206, col: 5, offset: 71239},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2183, col: 5, offset: 70613},
+							pos:        position{line: 2189, col: 5, offset: 70775},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2184, col: 5, offset: 70622},
+							pos: position{line: 2190, col: 5, offset: 70784},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2188, col: 5, offset: 70742},
+							pos: position{line: 2194, col: 5, offset: 70904},
 							expr: &notExpr{
-								pos: position{line: 2188, col: 7, offset: 70744},
+								pos: position{line: 2194, col: 7, offset: 70906},
 								expr: &litMatcher{
-									pos:        position{line: 2188, col: 8, offset: 70745},
+									pos:        position{line: 2194, col: 8, offset: 70907},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44433,38 +44439,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71117},
+							pos:   position{line: 2207, col: 5, offset: 71279},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2201, col: 15, offset: 71127},
+								pos:  position{line: 2207, col: 15, offset: 71289},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2191, col: 5, offset: 70850},
+							pos:        position{line: 2197, col: 5, offset: 71012},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70858},
+							pos: position{line: 2198, col: 5, offset: 71020},
 							expr: &litMatcher{
-								pos:        position{line: 2192, col: 6, offset: 70859},
+								pos:        position{line: 2198, col: 6, offset: 71021},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2193, col: 5, offset: 70922},
+							pos: position{line: 2199, col: 5, offset: 71084},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2197, col: 5, offset: 71033},
+							pos: position{line: 2203, col: 5, offset: 71195},
 							expr: &notExpr{
-								pos: position{line: 2197, col: 7, offset: 71035},
+								pos: position{line: 2203, col: 7, offset: 71197},
 								expr: &charClassMatcher{
-									pos:        position{line: 2757, col: 13, offset: 87848},
+									pos:        position{line: 2763, col: 13, offset: 88010},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44478,20 +44484,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2206, col: 1, offset: 71294},
+			pos:  position{line: 2212, col: 1, offset: 71456},
 			expr: &actionExpr{
-				pos: position{line: 2207, col: 5, offset: 71332},
+				pos: position{line: 2213, col: 5, offset: 71494},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2207, col: 5, offset: 71332},
+					pos: position{line: 2213, col: 5, offset: 71494},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2207, col: 5, offset: 71332},
+							pos: position{line: 2213, col: 5, offset: 71494},
 							expr: &actionExpr{
-								pos: position{line: 2867, col: 10, offset: 90753},
+								pos: position{line: 2873, col: 10, offset: 90915},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 10, offset: 90753},
+									pos:        position{line: 2873, col: 10, offset: 90915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44500,18 +44506,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2208, col: 5, offset: 71371},
+							pos:   position{line: 2214, col: 5, offset: 71533},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2208, col: 14, offset: 71380},
+								pos: position{line: 2214, col: 14, offset: 71542},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2208, col: 15, offset: 71381},
+									pos:  position{line: 2214, col: 15, offset: 71543},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2209, col: 5, offset: 71417},
+							pos: position{line: 2215, col: 5, offset: 71579},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44520,49 +44526,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2215, col: 1, offset: 71558},
+			pos:  position{line: 2221, col: 1, offset: 71720},
 			expr: &actionExpr{
-				pos: position{line: 2216, col: 5, offset: 71595},
+				pos: position{line: 2222, col: 5, offset: 71757},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2216, col: 5, offset: 71595},
+					pos: position{line: 2222, col: 5, offset: 71757},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2217, col: 5, offset: 71606},
+							pos: position{line: 2223, col: 5, offset: 71768},
 							expr: &seqExpr{
-								pos: position{line: 2191, col: 5, offset: 70850},
+								pos: position{line: 2197, col: 5, offset: 71012},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2191, col: 5, offset: 70850},
+										pos:        position{line: 2197, col: 5, offset: 71012},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2192, col: 5, offset: 70858},
+										pos: position{line: 2198, col: 5, offset: 71020},
 										expr: &litMatcher{
-											pos:        position{line: 2192, col: 6, offset: 70859},
+											pos:        position{line: 2198, col: 6, offset: 71021},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2193, col: 5, offset: 70922},
+										pos: position{line: 2199, col: 5, offset: 71084},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2197, col: 5, offset: 71033},
+										pos: position{line: 2203, col: 5, offset: 71195},
 										expr: &notExpr{
-											pos: position{line: 2197, col: 7, offset: 71035},
+											pos: position{line: 2203, col: 7, offset: 71197},
 											expr: &charClassMatcher{
-												pos:        position{line: 2757, col: 13, offset: 87848},
+												pos:        position{line: 2763, col: 13, offset: 88010},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44574,10 +44580,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2218, col: 5, offset: 71645},
+							pos:   position{line: 2224, col: 5, offset: 71807},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2218, col: 14, offset: 71654},
+								pos:  position{line: 2224, col: 14, offset: 71816},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44587,35 +44593,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2223, col: 1, offset: 71742},
+			pos:  position{line: 2229, col: 1, offset: 71904},
 			expr: &choiceExpr{
-				pos: position{line: 2225, col: 5, offset: 71806},
+				pos: position{line: 2231, col: 5, offset: 71968},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2225, col: 5, offset: 71806},
+						pos: position{line: 2231, col: 5, offset: 71968},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2225, col: 5, offset: 71806},
+							pos: position{line: 2231, col: 5, offset: 71968},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2225, col: 5, offset: 71806},
+									pos:   position{line: 2231, col: 5, offset: 71968},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1860, col: 25, offset: 60010},
+										pos: position{line: 1866, col: 25, offset: 60172},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1860, col: 25, offset: 60010},
+											pos: position{line: 1866, col: 25, offset: 60172},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1860, col: 25, offset: 60010},
+													pos:        position{line: 1866, col: 25, offset: 60172},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1860, col: 30, offset: 60015},
+													pos: position{line: 1866, col: 30, offset: 60177},
 													expr: &litMatcher{
-														pos:        position{line: 1860, col: 30, offset: 60015},
+														pos:        position{line: 1866, col: 30, offset: 60177},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44626,21 +44632,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 40, offset: 71841},
+									pos:        position{line: 2231, col: 40, offset: 72003},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2225, col: 45, offset: 71846},
+									pos:   position{line: 2231, col: 45, offset: 72008},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2225, col: 55, offset: 71856},
+										pos:  position{line: 2231, col: 55, offset: 72018},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 86, offset: 71887},
+									pos:        position{line: 2231, col: 86, offset: 72049},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44649,21 +44655,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2229, col: 7, offset: 72052},
+						pos: position{line: 2235, col: 7, offset: 72214},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2229, col: 7, offset: 72052},
+							pos: position{line: 2235, col: 7, offset: 72214},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2229, col: 7, offset: 72052},
+									pos:   position{line: 2235, col: 7, offset: 72214},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44672,21 +44678,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2229, col: 42, offset: 72087},
+									pos:        position{line: 2235, col: 42, offset: 72249},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2229, col: 47, offset: 72092},
+									pos:   position{line: 2235, col: 47, offset: 72254},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2229, col: 57, offset: 72102},
+										pos:  position{line: 2235, col: 57, offset: 72264},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2229, col: 88, offset: 72133},
+									pos:        position{line: 2235, col: 88, offset: 72295},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44695,21 +44701,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2234, col: 7, offset: 72336},
+						pos: position{line: 2240, col: 7, offset: 72498},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2234, col: 7, offset: 72336},
+							pos: position{line: 2240, col: 7, offset: 72498},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2234, col: 7, offset: 72336},
+									pos:   position{line: 2240, col: 7, offset: 72498},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59937},
+										pos: position{line: 1862, col: 25, offset: 60099},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1856, col: 25, offset: 59937},
+											pos: position{line: 1862, col: 25, offset: 60099},
 											expr: &litMatcher{
-												pos:        position{line: 1856, col: 25, offset: 59937},
+												pos:        position{line: 1862, col: 25, offset: 60099},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44718,21 +44724,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2234, col: 42, offset: 72371},
+									pos:        position{line: 2240, col: 42, offset: 72533},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2234, col: 46, offset: 72375},
+									pos:   position{line: 2240, col: 46, offset: 72537},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2234, col: 56, offset: 72385},
+										pos:  position{line: 2240, col: 56, offset: 72547},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2234, col: 87, offset: 72416},
+									pos:        position{line: 2240, col: 87, offset: 72578},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44745,29 +44751,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72683},
+			pos:  position{line: 2247, col: 1, offset: 72845},
 			expr: &actionExpr{
-				pos: position{line: 2242, col: 5, offset: 72705},
+				pos: position{line: 2248, col: 5, offset: 72867},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2242, col: 5, offset: 72705},
+					pos: position{line: 2248, col: 5, offset: 72867},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2248, col: 27, offset: 72920},
+							pos:        position{line: 2254, col: 27, offset: 73082},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72732},
+							pos:   position{line: 2249, col: 5, offset: 72894},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2243, col: 14, offset: 72741},
+								pos:  position{line: 2249, col: 14, offset: 72903},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2248, col: 27, offset: 72920},
+							pos:        position{line: 2254, col: 27, offset: 73082},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44778,43 +44784,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2250, col: 1, offset: 72925},
+			pos:  position{line: 2256, col: 1, offset: 73087},
 			expr: &choiceExpr{
-				pos: position{line: 2250, col: 25, offset: 72949},
+				pos: position{line: 2256, col: 25, offset: 73111},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2250, col: 25, offset: 72949},
+						pos:  position{line: 2256, col: 25, offset: 73111},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2252, col: 21, offset: 73001},
+						pos: position{line: 2258, col: 21, offset: 73163},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2252, col: 21, offset: 73001},
+							pos:   position{line: 2258, col: 21, offset: 73163},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2252, col: 29, offset: 73009},
+								pos: position{line: 2258, col: 29, offset: 73171},
 								expr: &choiceExpr{
-									pos: position{line: 2252, col: 30, offset: 73010},
+									pos: position{line: 2258, col: 30, offset: 73172},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2464, col: 5, offset: 79284},
+												pos: position{line: 2470, col: 5, offset: 79446},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2464, col: 5, offset: 79284},
+														pos: position{line: 2470, col: 5, offset: 79446},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2467, col: 5, offset: 79360},
+														pos:   position{line: 2473, col: 5, offset: 79522},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2468, col: 9, offset: 79378},
+															pos: position{line: 2474, col: 9, offset: 79540},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2468, col: 10, offset: 79379},
+																pos:        position{line: 2474, col: 10, offset: 79541},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44826,7 +44832,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2252, col: 49, offset: 73029},
+											pos:        position{line: 2258, col: 49, offset: 73191},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44842,23 +44848,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2256, col: 1, offset: 73086},
+			pos:  position{line: 2262, col: 1, offset: 73248},
 			expr: &actionExpr{
-				pos: position{line: 2258, col: 5, offset: 73153},
+				pos: position{line: 2264, col: 5, offset: 73315},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2258, col: 5, offset: 73153},
+					pos: position{line: 2264, col: 5, offset: 73315},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2258, col: 5, offset: 73153},
+							pos:   position{line: 2264, col: 5, offset: 73315},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1856, col: 25, offset: 59937},
+								pos: position{line: 1862, col: 25, offset: 60099},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1856, col: 25, offset: 59937},
+									pos: position{line: 1862, col: 25, offset: 60099},
 									expr: &litMatcher{
-										pos:        position{line: 1856, col: 25, offset: 59937},
+										pos:        position{line: 1862, col: 25, offset: 60099},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44867,21 +44873,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2248, col: 27, offset: 72920},
+							pos:        position{line: 2254, col: 27, offset: 73082},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2260, col: 5, offset: 73221},
+							pos:   position{line: 2266, col: 5, offset: 73383},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2260, col: 14, offset: 73230},
+								pos:  position{line: 2266, col: 14, offset: 73392},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2248, col: 27, offset: 72920},
+							pos:        position{line: 2254, col: 27, offset: 73082},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44892,29 +44898,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73493},
+			pos:  position{line: 2274, col: 1, offset: 73655},
 			expr: &actionExpr{
-				pos: position{line: 2269, col: 5, offset: 73517},
+				pos: position{line: 2275, col: 5, offset: 73679},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2269, col: 5, offset: 73517},
+					pos: position{line: 2275, col: 5, offset: 73679},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2275, col: 29, offset: 73744},
+							pos:        position{line: 2281, col: 29, offset: 73906},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73547},
+							pos:   position{line: 2276, col: 5, offset: 73709},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2270, col: 14, offset: 73556},
+								pos:  position{line: 2276, col: 14, offset: 73718},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2275, col: 29, offset: 73744},
+							pos:        position{line: 2281, col: 29, offset: 73906},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44925,43 +44931,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2277, col: 1, offset: 73749},
+			pos:  position{line: 2283, col: 1, offset: 73911},
 			expr: &choiceExpr{
-				pos: position{line: 2277, col: 27, offset: 73775},
+				pos: position{line: 2283, col: 27, offset: 73937},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2277, col: 27, offset: 73775},
+						pos:  position{line: 2283, col: 27, offset: 73937},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2279, col: 23, offset: 73831},
+						pos: position{line: 2285, col: 23, offset: 73993},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2279, col: 23, offset: 73831},
+							pos:   position{line: 2285, col: 23, offset: 73993},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2279, col: 31, offset: 73839},
+								pos: position{line: 2285, col: 31, offset: 74001},
 								expr: &choiceExpr{
-									pos: position{line: 2279, col: 32, offset: 73840},
+									pos: position{line: 2285, col: 32, offset: 74002},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2464, col: 5, offset: 79284},
+												pos: position{line: 2470, col: 5, offset: 79446},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2464, col: 5, offset: 79284},
+														pos: position{line: 2470, col: 5, offset: 79446},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2467, col: 5, offset: 79360},
+														pos:   position{line: 2473, col: 5, offset: 79522},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2468, col: 9, offset: 79378},
+															pos: position{line: 2474, col: 9, offset: 79540},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2468, col: 10, offset: 79379},
+																pos:        position{line: 2474, col: 10, offset: 79541},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44973,7 +44979,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2279, col: 51, offset: 73859},
+											pos:        position{line: 2285, col: 51, offset: 74021},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44989,23 +44995,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2283, col: 1, offset: 73916},
+			pos:  position{line: 2289, col: 1, offset: 74078},
 			expr: &actionExpr{
-				pos: position{line: 2285, col: 5, offset: 73988},
+				pos: position{line: 2291, col: 5, offset: 74150},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2285, col: 5, offset: 73988},
+					pos: position{line: 2291, col: 5, offset: 74150},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 73988},
+							pos:   position{line: 2291, col: 5, offset: 74150},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1856, col: 25, offset: 59937},
+								pos: position{line: 1862, col: 25, offset: 60099},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1856, col: 25, offset: 59937},
+									pos: position{line: 1862, col: 25, offset: 60099},
 									expr: &litMatcher{
-										pos:        position{line: 1856, col: 25, offset: 59937},
+										pos:        position{line: 1862, col: 25, offset: 60099},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45014,21 +45020,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2275, col: 29, offset: 73744},
+							pos:        position{line: 2281, col: 29, offset: 73906},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2287, col: 5, offset: 74058},
+							pos:   position{line: 2293, col: 5, offset: 74220},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2287, col: 14, offset: 74067},
+								pos:  position{line: 2293, col: 14, offset: 74229},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2275, col: 29, offset: 73744},
+							pos:        position{line: 2281, col: 29, offset: 73906},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45039,27 +45045,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2296, col: 1, offset: 74536},
+			pos:  position{line: 2302, col: 1, offset: 74698},
 			expr: &actionExpr{
-				pos: position{line: 2297, col: 5, offset: 74552},
+				pos: position{line: 2303, col: 5, offset: 74714},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2297, col: 5, offset: 74552},
+					pos: position{line: 2303, col: 5, offset: 74714},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2297, col: 5, offset: 74552},
+							pos: position{line: 2303, col: 5, offset: 74714},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74615},
+							pos:   position{line: 2306, col: 5, offset: 74777},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2300, col: 12, offset: 74622},
+								pos: position{line: 2306, col: 12, offset: 74784},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2300, col: 12, offset: 74622},
+									pos: position{line: 2306, col: 12, offset: 74784},
 									expr: &litMatcher{
-										pos:        position{line: 2300, col: 13, offset: 74623},
+										pos:        position{line: 2306, col: 13, offset: 74785},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45068,16 +45074,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2304, col: 5, offset: 74731},
+							pos: position{line: 2310, col: 5, offset: 74893},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2871, col: 11, offset: 90814},
+							pos: position{line: 2877, col: 11, offset: 90976},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2871, col: 11, offset: 90814},
+								pos: position{line: 2877, col: 11, offset: 90976},
 								expr: &charClassMatcher{
-									pos:        position{line: 2871, col: 11, offset: 90814},
+									pos:        position{line: 2877, col: 11, offset: 90976},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45086,36 +45092,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2308, col: 12, offset: 74890},
+							pos:   position{line: 2314, col: 12, offset: 75052},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2308, col: 19, offset: 74897},
+								pos:  position{line: 2314, col: 19, offset: 75059},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45124,9 +45130,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -45137,24 +45143,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2312, col: 1, offset: 74993},
+			pos:  position{line: 2318, col: 1, offset: 75155},
 			expr: &actionExpr{
-				pos: position{line: 2313, col: 5, offset: 75014},
+				pos: position{line: 2319, col: 5, offset: 75176},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2313, col: 5, offset: 75014},
+					pos: position{line: 2319, col: 5, offset: 75176},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2313, col: 5, offset: 75014},
+							pos: position{line: 2319, col: 5, offset: 75176},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 75129},
+							pos:   position{line: 2324, col: 5, offset: 75291},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2318, col: 14, offset: 75138},
+								pos: position{line: 2324, col: 14, offset: 75300},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2318, col: 15, offset: 75139},
+									pos:  position{line: 2324, col: 15, offset: 75301},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45165,38 +45171,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2322, col: 1, offset: 75220},
+			pos:  position{line: 2328, col: 1, offset: 75382},
 			expr: &actionExpr{
-				pos: position{line: 2323, col: 5, offset: 75247},
+				pos: position{line: 2329, col: 5, offset: 75409},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2323, col: 5, offset: 75247},
+					pos: position{line: 2329, col: 5, offset: 75409},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2323, col: 5, offset: 75247},
+							pos: position{line: 2329, col: 5, offset: 75409},
 							expr: &choiceExpr{
-								pos: position{line: 2889, col: 8, offset: 91151},
+								pos: position{line: 2895, col: 8, offset: 91313},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2876, col: 12, offset: 90924},
+										pos: position{line: 2882, col: 12, offset: 91086},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2876, col: 13, offset: 90925},
+											pos: position{line: 2882, col: 13, offset: 91087},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2876, col: 13, offset: 90925},
+													pos:        position{line: 2882, col: 13, offset: 91087},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 20, offset: 90932},
+													pos:        position{line: 2882, col: 20, offset: 91094},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 29, offset: 90941},
+													pos:        position{line: 2882, col: 29, offset: 91103},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45205,36 +45211,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2886, col: 8, offset: 91101},
+										pos: position{line: 2892, col: 8, offset: 91263},
 										expr: &anyMatcher{
-											line: 2886, col: 9, offset: 91102,
+											line: 2892, col: 9, offset: 91264,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75256},
+							pos:   position{line: 2330, col: 5, offset: 75418},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2325, col: 9, offset: 75274},
+								pos: position{line: 2331, col: 9, offset: 75436},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2766, col: 5, offset: 87995},
+										pos: position{line: 2772, col: 5, offset: 88157},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2766, col: 5, offset: 87995},
+											pos: position{line: 2772, col: 5, offset: 88157},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2766, col: 5, offset: 87995},
+													pos:   position{line: 2772, col: 5, offset: 88157},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2766, col: 11, offset: 88001},
+														pos: position{line: 2772, col: 11, offset: 88163},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2766, col: 11, offset: 88001},
+															pos: position{line: 2772, col: 11, offset: 88163},
 															expr: &charClassMatcher{
-																pos:        position{line: 2766, col: 11, offset: 88001},
+																pos:        position{line: 2772, col: 11, offset: 88163},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45244,36 +45250,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88059},
+													pos: position{line: 2775, col: 5, offset: 88221},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88070},
+														pos: position{line: 2776, col: 9, offset: 88232},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88070},
+																pos:        position{line: 2776, col: 9, offset: 88232},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2771, col: 9, offset: 88119},
+																pos: position{line: 2777, col: 9, offset: 88281},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88199},
+													pos: position{line: 2781, col: 5, offset: 88361},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88210},
+														pos: position{line: 2782, col: 9, offset: 88372},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88210},
+																pos:        position{line: 2782, col: 9, offset: 88372},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2776, col: 13, offset: 88214},
+																pos:        position{line: 2782, col: 13, offset: 88376},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45286,12 +45292,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 11, offset: 90814},
+										pos: position{line: 2877, col: 11, offset: 90976},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 11, offset: 90814},
+											pos: position{line: 2877, col: 11, offset: 90976},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 11, offset: 90814},
+												pos:        position{line: 2877, col: 11, offset: 90976},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45300,21 +45306,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2495, col: 5, offset: 80455},
+										pos: position{line: 2501, col: 5, offset: 80617},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2495, col: 5, offset: 80455},
+											pos: position{line: 2501, col: 5, offset: 80617},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2495, col: 5, offset: 80455},
+													pos:        position{line: 2501, col: 5, offset: 80617},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2495, col: 10, offset: 80460},
+													pos: position{line: 2501, col: 10, offset: 80622},
 													expr: &charClassMatcher{
-														pos:        position{line: 2495, col: 11, offset: 80461},
+														pos:        position{line: 2501, col: 11, offset: 80623},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45325,29 +45331,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80653},
+										pos: position{line: 2507, col: 5, offset: 80815},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80653},
+											pos: position{line: 2507, col: 5, offset: 80815},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80653},
+													pos: position{line: 2507, col: 5, offset: 80815},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2504, col: 5, offset: 80724},
+													pos: position{line: 2510, col: 5, offset: 80886},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2508, col: 5, offset: 80849},
+													pos:        position{line: 2514, col: 5, offset: 81011},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2508, col: 9, offset: 80853},
+													pos: position{line: 2514, col: 9, offset: 81015},
 													expr: &charClassMatcher{
-														pos:        position{line: 2508, col: 10, offset: 80854},
+														pos:        position{line: 2514, col: 10, offset: 81016},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45358,31 +45364,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75339},
+										pos:  position{line: 2334, col: 11, offset: 75501},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2784, col: 5, offset: 88407},
+										pos: position{line: 2790, col: 5, offset: 88569},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2785, col: 9, offset: 88417},
+											pos: position{line: 2791, col: 9, offset: 88579},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2785, col: 10, offset: 88418},
+													pos:        position{line: 2791, col: 10, offset: 88580},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88515},
+													pos: position{line: 2793, col: 13, offset: 88677},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88515},
+															pos: position{line: 2793, col: 13, offset: 88677},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2790, col: 13, offset: 88615},
+															pos:        position{line: 2796, col: 13, offset: 88777},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45390,20 +45396,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2790, col: 19, offset: 88621},
+													pos:        position{line: 2796, col: 19, offset: 88783},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88659},
+													pos: position{line: 2799, col: 13, offset: 88821},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88659},
+															pos: position{line: 2799, col: 13, offset: 88821},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2796, col: 14, offset: 88752},
+															pos:        position{line: 2802, col: 14, offset: 88914},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45412,18 +45418,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 12, offset: 88796},
+													pos: position{line: 2804, col: 12, offset: 88958},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2798, col: 12, offset: 88796},
+															pos:        position{line: 2804, col: 12, offset: 88958},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2798, col: 16, offset: 88800},
+															pos: position{line: 2804, col: 16, offset: 88962},
 															expr: &litMatcher{
-																pos:        position{line: 2798, col: 17, offset: 88801},
+																pos:        position{line: 2804, col: 17, offset: 88963},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45435,35 +45441,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2330, col: 11, offset: 75412},
+										pos:  position{line: 2336, col: 11, offset: 75574},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75428},
+										pos:  position{line: 2337, col: 11, offset: 75590},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75456},
+										pos:  position{line: 2338, col: 11, offset: 75618},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2464, col: 5, offset: 79284},
+										pos: position{line: 2470, col: 5, offset: 79446},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2464, col: 5, offset: 79284},
+													pos: position{line: 2470, col: 5, offset: 79446},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2467, col: 5, offset: 79360},
+													pos:   position{line: 2473, col: 5, offset: 79522},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2468, col: 9, offset: 79378},
+														pos: position{line: 2474, col: 9, offset: 79540},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2468, col: 10, offset: 79379},
+															pos:        position{line: 2474, col: 10, offset: 79541},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45475,39 +45481,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75541},
+										pos:  position{line: 2340, col: 11, offset: 75703},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 637, col: 5, offset: 20139},
+										pos: position{line: 643, col: 5, offset: 20301},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 637, col: 5, offset: 20139},
+											pos: position{line: 643, col: 5, offset: 20301},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 637, col: 5, offset: 20139},
+													pos: position{line: 643, col: 5, offset: 20301},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 640, col: 5, offset: 20211},
+													pos:   position{line: 646, col: 5, offset: 20373},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 640, col: 14, offset: 20220},
+														pos: position{line: 646, col: 14, offset: 20382},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 646, col: 5, offset: 20349},
+																pos: position{line: 652, col: 5, offset: 20511},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 646, col: 5, offset: 20349},
+																	pos: position{line: 652, col: 5, offset: 20511},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 646, col: 5, offset: 20349},
+																			pos:        position{line: 652, col: 5, offset: 20511},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 646, col: 13, offset: 20357},
+																			pos:   position{line: 652, col: 13, offset: 20519},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45539,7 +45545,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 646, col: 32, offset: 20376},
+																			pos:        position{line: 652, col: 32, offset: 20538},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45548,19 +45554,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 653, col: 5, offset: 20617},
+																pos: position{line: 659, col: 5, offset: 20779},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 653, col: 5, offset: 20617},
+																	pos: position{line: 659, col: 5, offset: 20779},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 653, col: 5, offset: 20617},
+																			pos:        position{line: 659, col: 5, offset: 20779},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 653, col: 9, offset: 20621},
+																			pos:   position{line: 659, col: 9, offset: 20783},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45592,7 +45598,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 653, col: 28, offset: 20640},
+																			pos:        position{line: 659, col: 28, offset: 20802},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45601,19 +45607,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 25, offset: 20821},
+																pos: position{line: 665, col: 25, offset: 20983},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 25, offset: 20821},
+																	pos: position{line: 665, col: 25, offset: 20983},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 25, offset: 20821},
+																			pos:        position{line: 665, col: 25, offset: 20983},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 37, offset: 20833},
+																			pos:   position{line: 665, col: 37, offset: 20995},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45645,33 +45651,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 56, offset: 20852},
+																			pos:   position{line: 665, col: 56, offset: 21014},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 659, col: 62, offset: 20858},
+																				pos: position{line: 665, col: 62, offset: 21020},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45679,12 +45685,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45701,7 +45707,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 78, offset: 20874},
+																			pos:        position{line: 665, col: 78, offset: 21036},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45710,19 +45716,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 663, col: 25, offset: 20992},
+																pos: position{line: 669, col: 25, offset: 21154},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 663, col: 25, offset: 20992},
+																	pos: position{line: 669, col: 25, offset: 21154},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 663, col: 25, offset: 20992},
+																			pos:        position{line: 669, col: 25, offset: 21154},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 38, offset: 21005},
+																			pos:   position{line: 669, col: 38, offset: 21167},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45754,33 +45760,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 663, col: 57, offset: 21024},
+																			pos:   position{line: 669, col: 57, offset: 21186},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 663, col: 63, offset: 21030},
+																				pos: position{line: 669, col: 63, offset: 21192},
 																				expr: &actionExpr{
-																					pos: position{line: 667, col: 17, offset: 21153},
+																					pos: position{line: 673, col: 17, offset: 21315},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 667, col: 17, offset: 21153},
+																								pos:        position{line: 673, col: 17, offset: 21315},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 667, col: 21, offset: 21157},
+																								pos:   position{line: 673, col: 21, offset: 21319},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 667, col: 28, offset: 21164},
+																									pos: position{line: 673, col: 28, offset: 21326},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 667, col: 28, offset: 21164},
+																											pos: position{line: 673, col: 28, offset: 21326},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 28, offset: 21164},
+																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45788,12 +45794,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 669, col: 9, offset: 21218},
+																											pos: position{line: 675, col: 9, offset: 21380},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 9, offset: 21218},
+																													pos:        position{line: 675, col: 9, offset: 21380},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45810,7 +45816,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 663, col: 79, offset: 21046},
+																			pos:        position{line: 669, col: 79, offset: 21208},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45825,27 +45831,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 23, offset: 37227},
+										pos: position{line: 1213, col: 23, offset: 37389},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 23, offset: 37227},
+											pos: position{line: 1213, col: 23, offset: 37389},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37195},
+													pos:        position{line: 1211, col: 32, offset: 37357},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1207, col: 51, offset: 37255},
+													pos:   position{line: 1213, col: 51, offset: 37417},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1207, col: 56, offset: 37260},
+														pos: position{line: 1213, col: 56, offset: 37422},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1207, col: 56, offset: 37260},
+															pos: position{line: 1213, col: 56, offset: 37422},
 															expr: &charClassMatcher{
-																pos:        position{line: 1207, col: 56, offset: 37260},
+																pos:        position{line: 1213, col: 56, offset: 37422},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45855,7 +45861,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37195},
+													pos:        position{line: 1211, col: 32, offset: 37357},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45864,17 +45870,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2347, col: 5, offset: 75994},
+										pos: position{line: 2353, col: 5, offset: 76156},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2347, col: 5, offset: 75994},
+											pos: position{line: 2353, col: 5, offset: 76156},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2347, col: 5, offset: 75994},
+													pos: position{line: 2353, col: 5, offset: 76156},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2350, col: 5, offset: 76049},
+													pos:   position{line: 2356, col: 5, offset: 76211},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12348},
@@ -45917,27 +45923,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1207, col: 23, offset: 37227},
+																							pos: position{line: 1213, col: 23, offset: 37389},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1207, col: 23, offset: 37227},
+																								pos: position{line: 1213, col: 23, offset: 37389},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1205, col: 32, offset: 37195},
+																										pos:        position{line: 1211, col: 32, offset: 37357},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1207, col: 51, offset: 37255},
+																										pos:   position{line: 1213, col: 51, offset: 37417},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1207, col: 56, offset: 37260},
+																											pos: position{line: 1213, col: 56, offset: 37422},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1207, col: 56, offset: 37260},
+																												pos: position{line: 1213, col: 56, offset: 37422},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1207, col: 56, offset: 37260},
+																													pos:        position{line: 1213, col: 56, offset: 37422},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45947,7 +45953,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1205, col: 32, offset: 37195},
+																										pos:        position{line: 1211, col: 32, offset: 37357},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -45956,35 +45962,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 637, col: 5, offset: 20139},
+																							pos: position{line: 643, col: 5, offset: 20301},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 637, col: 5, offset: 20139},
+																								pos: position{line: 643, col: 5, offset: 20301},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 637, col: 5, offset: 20139},
+																										pos: position{line: 643, col: 5, offset: 20301},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 640, col: 5, offset: 20211},
+																										pos:   position{line: 646, col: 5, offset: 20373},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 640, col: 14, offset: 20220},
+																											pos: position{line: 646, col: 14, offset: 20382},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 646, col: 5, offset: 20349},
+																													pos: position{line: 652, col: 5, offset: 20511},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 646, col: 5, offset: 20349},
+																														pos: position{line: 652, col: 5, offset: 20511},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 646, col: 5, offset: 20349},
+																																pos:        position{line: 652, col: 5, offset: 20511},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 646, col: 13, offset: 20357},
+																																pos:   position{line: 652, col: 13, offset: 20519},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46016,7 +46022,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 646, col: 32, offset: 20376},
+																																pos:        position{line: 652, col: 32, offset: 20538},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46025,19 +46031,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 653, col: 5, offset: 20617},
+																													pos: position{line: 659, col: 5, offset: 20779},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 653, col: 5, offset: 20617},
+																														pos: position{line: 659, col: 5, offset: 20779},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 653, col: 5, offset: 20617},
+																																pos:        position{line: 659, col: 5, offset: 20779},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 653, col: 9, offset: 20621},
+																																pos:   position{line: 659, col: 9, offset: 20783},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46069,7 +46075,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 653, col: 28, offset: 20640},
+																																pos:        position{line: 659, col: 28, offset: 20802},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46078,19 +46084,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 659, col: 25, offset: 20821},
+																													pos: position{line: 665, col: 25, offset: 20983},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 659, col: 25, offset: 20821},
+																														pos: position{line: 665, col: 25, offset: 20983},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 659, col: 25, offset: 20821},
+																																pos:        position{line: 665, col: 25, offset: 20983},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 37, offset: 20833},
+																																pos:   position{line: 665, col: 37, offset: 20995},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46122,33 +46128,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 56, offset: 20852},
+																																pos:   position{line: 665, col: 56, offset: 21014},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 659, col: 62, offset: 20858},
+																																	pos: position{line: 665, col: 62, offset: 21020},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21153},
+																																		pos: position{line: 673, col: 17, offset: 21315},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21153},
+																																			pos: position{line: 673, col: 17, offset: 21315},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21153},
+																																					pos:        position{line: 673, col: 17, offset: 21315},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21157},
+																																					pos:   position{line: 673, col: 21, offset: 21319},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21164},
+																																						pos: position{line: 673, col: 28, offset: 21326},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21164},
+																																								pos: position{line: 673, col: 28, offset: 21326},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21164},
+																																									pos:        position{line: 673, col: 28, offset: 21326},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46156,12 +46162,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21218},
+																																								pos: position{line: 675, col: 9, offset: 21380},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21218},
+																																									pos: position{line: 675, col: 9, offset: 21380},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21218},
+																																										pos:        position{line: 675, col: 9, offset: 21380},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46178,7 +46184,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 659, col: 78, offset: 20874},
+																																pos:        position{line: 665, col: 78, offset: 21036},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46187,19 +46193,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 663, col: 25, offset: 20992},
+																													pos: position{line: 669, col: 25, offset: 21154},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 663, col: 25, offset: 20992},
+																														pos: position{line: 669, col: 25, offset: 21154},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 663, col: 25, offset: 20992},
+																																pos:        position{line: 669, col: 25, offset: 21154},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 38, offset: 21005},
+																																pos:   position{line: 669, col: 38, offset: 21167},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46231,33 +46237,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 663, col: 57, offset: 21024},
+																																pos:   position{line: 669, col: 57, offset: 21186},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 663, col: 63, offset: 21030},
+																																	pos: position{line: 669, col: 63, offset: 21192},
 																																	expr: &actionExpr{
-																																		pos: position{line: 667, col: 17, offset: 21153},
+																																		pos: position{line: 673, col: 17, offset: 21315},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 667, col: 17, offset: 21153},
+																																			pos: position{line: 673, col: 17, offset: 21315},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 667, col: 17, offset: 21153},
+																																					pos:        position{line: 673, col: 17, offset: 21315},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 667, col: 21, offset: 21157},
+																																					pos:   position{line: 673, col: 21, offset: 21319},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 667, col: 28, offset: 21164},
+																																						pos: position{line: 673, col: 28, offset: 21326},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 28, offset: 21164},
+																																								pos: position{line: 673, col: 28, offset: 21326},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 28, offset: 21164},
+																																									pos:        position{line: 673, col: 28, offset: 21326},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46265,12 +46271,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 669, col: 9, offset: 21218},
+																																								pos: position{line: 675, col: 9, offset: 21380},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 669, col: 9, offset: 21218},
+																																									pos: position{line: 675, col: 9, offset: 21380},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 669, col: 9, offset: 21218},
+																																										pos:        position{line: 675, col: 9, offset: 21380},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46287,7 +46293,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 663, col: 79, offset: 21046},
+																																pos:        position{line: 669, col: 79, offset: 21208},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46328,12 +46334,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2350, col: 26, offset: 76070},
+													pos: position{line: 2356, col: 26, offset: 76232},
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 10, offset: 90753},
+														pos: position{line: 2873, col: 10, offset: 90915},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90753},
+															pos:        position{line: 2873, col: 10, offset: 90915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46342,30 +46348,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2350, col: 33, offset: 76077},
+													pos: position{line: 2356, col: 33, offset: 76239},
 													expr: &choiceExpr{
-														pos: position{line: 2889, col: 8, offset: 91151},
+														pos: position{line: 2895, col: 8, offset: 91313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 12, offset: 90924},
+																pos: position{line: 2882, col: 12, offset: 91086},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2876, col: 13, offset: 90925},
+																	pos: position{line: 2882, col: 13, offset: 91087},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 13, offset: 90925},
+																			pos:        position{line: 2882, col: 13, offset: 91087},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 20, offset: 90932},
+																			pos:        position{line: 2882, col: 20, offset: 91094},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 29, offset: 90941},
+																			pos:        position{line: 2882, col: 29, offset: 91103},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46374,9 +46380,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 8, offset: 91101},
+																pos: position{line: 2892, col: 8, offset: 91263},
 																expr: &anyMatcher{
-																	line: 2886, col: 9, offset: 91102,
+																	line: 2892, col: 9, offset: 91264,
 																},
 															},
 														},
@@ -46386,27 +46392,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1267, col: 5, offset: 39091},
+										pos: position{line: 1273, col: 5, offset: 39253},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1267, col: 5, offset: 39091},
+											pos: position{line: 1273, col: 5, offset: 39253},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1267, col: 5, offset: 39091},
+													pos:        position{line: 1273, col: 5, offset: 39253},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1267, col: 14, offset: 39100},
+													pos:   position{line: 1273, col: 14, offset: 39262},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 7, offset: 90405},
+														pos: position{line: 2858, col: 7, offset: 90567},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2852, col: 7, offset: 90405},
+															pos: position{line: 2858, col: 7, offset: 90567},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 7, offset: 90405},
+																pos:        position{line: 2858, col: 7, offset: 90567},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46416,7 +46422,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1267, col: 22, offset: 39108},
+													pos:        position{line: 1273, col: 22, offset: 39270},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46425,27 +46431,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1272, col: 5, offset: 39227},
+										pos: position{line: 1278, col: 5, offset: 39389},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1272, col: 5, offset: 39227},
+											pos: position{line: 1278, col: 5, offset: 39389},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1272, col: 5, offset: 39227},
+													pos:        position{line: 1278, col: 5, offset: 39389},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1272, col: 10, offset: 39232},
+													pos:   position{line: 1278, col: 10, offset: 39394},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 7, offset: 90405},
+														pos: position{line: 2858, col: 7, offset: 90567},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2852, col: 7, offset: 90405},
+															pos: position{line: 2858, col: 7, offset: 90567},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 7, offset: 90405},
+																pos:        position{line: 2858, col: 7, offset: 90567},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46455,7 +46461,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1272, col: 18, offset: 39240},
+													pos:        position{line: 1278, col: 18, offset: 39402},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46464,14 +46470,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75795},
+										pos:  position{line: 2345, col: 11, offset: 75957},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2806, col: 12, offset: 89061},
+										pos: position{line: 2812, col: 12, offset: 89223},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 12, offset: 89061},
+											pos:        position{line: 2812, col: 12, offset: 89223},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46487,52 +46493,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2360, col: 1, offset: 76339},
+			pos:  position{line: 2366, col: 1, offset: 76501},
 			expr: &actionExpr{
-				pos: position{line: 2361, col: 5, offset: 76426},
+				pos: position{line: 2367, col: 5, offset: 76588},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2361, col: 5, offset: 76426},
+					pos: position{line: 2367, col: 5, offset: 76588},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2361, col: 5, offset: 76426},
+							pos:   position{line: 2367, col: 5, offset: 76588},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2361, col: 14, offset: 76435},
+								pos: position{line: 2367, col: 14, offset: 76597},
 								expr: &actionExpr{
-									pos: position{line: 2363, col: 9, offset: 76461},
+									pos: position{line: 2369, col: 9, offset: 76623},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2363, col: 9, offset: 76461},
+										pos: position{line: 2369, col: 9, offset: 76623},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2884, col: 11, offset: 91087},
+												pos: position{line: 2890, col: 11, offset: 91249},
 												expr: &anyMatcher{
-													line: 2884, col: 13, offset: 91089,
+													line: 2890, col: 13, offset: 91251,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2364, col: 9, offset: 76476},
+												pos:   position{line: 2370, col: 9, offset: 76638},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2365, col: 13, offset: 76498},
+													pos: position{line: 2371, col: 13, offset: 76660},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2766, col: 5, offset: 87995},
+															pos: position{line: 2772, col: 5, offset: 88157},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2766, col: 5, offset: 87995},
+																pos: position{line: 2772, col: 5, offset: 88157},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2766, col: 5, offset: 87995},
+																		pos:   position{line: 2772, col: 5, offset: 88157},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2766, col: 11, offset: 88001},
+																			pos: position{line: 2772, col: 11, offset: 88163},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2766, col: 11, offset: 88001},
+																				pos: position{line: 2772, col: 11, offset: 88163},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2766, col: 11, offset: 88001},
+																					pos:        position{line: 2772, col: 11, offset: 88163},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46542,36 +46548,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2769, col: 5, offset: 88059},
+																		pos: position{line: 2775, col: 5, offset: 88221},
 																		expr: &seqExpr{
-																			pos: position{line: 2770, col: 9, offset: 88070},
+																			pos: position{line: 2776, col: 9, offset: 88232},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2770, col: 9, offset: 88070},
+																					pos:        position{line: 2776, col: 9, offset: 88232},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2771, col: 9, offset: 88119},
+																					pos: position{line: 2777, col: 9, offset: 88281},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2775, col: 5, offset: 88199},
+																		pos: position{line: 2781, col: 5, offset: 88361},
 																		expr: &seqExpr{
-																			pos: position{line: 2776, col: 9, offset: 88210},
+																			pos: position{line: 2782, col: 9, offset: 88372},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2776, col: 9, offset: 88210},
+																					pos:        position{line: 2782, col: 9, offset: 88372},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2776, col: 13, offset: 88214},
+																					pos:        position{line: 2782, col: 13, offset: 88376},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46584,12 +46590,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 11, offset: 90814},
+															pos: position{line: 2877, col: 11, offset: 90976},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2871, col: 11, offset: 90814},
+																pos: position{line: 2877, col: 11, offset: 90976},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2871, col: 11, offset: 90814},
+																	pos:        position{line: 2877, col: 11, offset: 90976},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46598,25 +46604,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2367, col: 15, offset: 76544},
+															pos:  position{line: 2373, col: 15, offset: 76706},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2495, col: 5, offset: 80455},
+															pos: position{line: 2501, col: 5, offset: 80617},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2495, col: 5, offset: 80455},
+																pos: position{line: 2501, col: 5, offset: 80617},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2495, col: 5, offset: 80455},
+																		pos:        position{line: 2501, col: 5, offset: 80617},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2495, col: 10, offset: 80460},
+																		pos: position{line: 2501, col: 10, offset: 80622},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2495, col: 11, offset: 80461},
+																			pos:        position{line: 2501, col: 11, offset: 80623},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46627,29 +46633,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80653},
+															pos: position{line: 2507, col: 5, offset: 80815},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80653},
+																pos: position{line: 2507, col: 5, offset: 80815},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80653},
+																		pos: position{line: 2507, col: 5, offset: 80815},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2504, col: 5, offset: 80724},
+																		pos: position{line: 2510, col: 5, offset: 80886},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 5, offset: 80849},
+																		pos:        position{line: 2514, col: 5, offset: 81011},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2508, col: 9, offset: 80853},
+																		pos: position{line: 2514, col: 9, offset: 81015},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2508, col: 10, offset: 80854},
+																			pos:        position{line: 2514, col: 10, offset: 81016},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46660,27 +46666,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2784, col: 5, offset: 88407},
+															pos: position{line: 2790, col: 5, offset: 88569},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2785, col: 9, offset: 88417},
+																pos: position{line: 2791, col: 9, offset: 88579},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2785, col: 10, offset: 88418},
+																		pos:        position{line: 2791, col: 10, offset: 88580},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2787, col: 13, offset: 88515},
+																		pos: position{line: 2793, col: 13, offset: 88677},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2787, col: 13, offset: 88515},
+																				pos: position{line: 2793, col: 13, offset: 88677},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2790, col: 13, offset: 88615},
+																				pos:        position{line: 2796, col: 13, offset: 88777},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46688,20 +46694,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2790, col: 19, offset: 88621},
+																		pos:        position{line: 2796, col: 19, offset: 88783},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 13, offset: 88659},
+																		pos: position{line: 2799, col: 13, offset: 88821},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2793, col: 13, offset: 88659},
+																				pos: position{line: 2799, col: 13, offset: 88821},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2796, col: 14, offset: 88752},
+																				pos:        position{line: 2802, col: 14, offset: 88914},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46710,18 +46716,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2798, col: 12, offset: 88796},
+																		pos: position{line: 2804, col: 12, offset: 88958},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2798, col: 12, offset: 88796},
+																				pos:        position{line: 2804, col: 12, offset: 88958},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2798, col: 16, offset: 88800},
+																				pos: position{line: 2804, col: 16, offset: 88962},
 																				expr: &litMatcher{
-																					pos:        position{line: 2798, col: 17, offset: 88801},
+																					pos:        position{line: 2804, col: 17, offset: 88963},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46733,25 +46739,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2876, col: 12, offset: 90924},
+															pos: position{line: 2882, col: 12, offset: 91086},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 13, offset: 90925},
+																pos: position{line: 2882, col: 13, offset: 91087},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 13, offset: 90925},
+																		pos:        position{line: 2882, col: 13, offset: 91087},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 20, offset: 90932},
+																		pos:        position{line: 2882, col: 20, offset: 91094},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 29, offset: 90941},
+																		pos:        position{line: 2882, col: 29, offset: 91103},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46760,35 +46766,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 637, col: 5, offset: 20139},
+															pos: position{line: 643, col: 5, offset: 20301},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 637, col: 5, offset: 20139},
+																pos: position{line: 643, col: 5, offset: 20301},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 637, col: 5, offset: 20139},
+																		pos: position{line: 643, col: 5, offset: 20301},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 640, col: 5, offset: 20211},
+																		pos:   position{line: 646, col: 5, offset: 20373},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 640, col: 14, offset: 20220},
+																			pos: position{line: 646, col: 14, offset: 20382},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20349},
+																					pos: position{line: 652, col: 5, offset: 20511},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20349},
+																						pos: position{line: 652, col: 5, offset: 20511},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 646, col: 5, offset: 20349},
+																								pos:        position{line: 652, col: 5, offset: 20511},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 646, col: 13, offset: 20357},
+																								pos:   position{line: 652, col: 13, offset: 20519},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -46820,7 +46826,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 646, col: 32, offset: 20376},
+																								pos:        position{line: 652, col: 32, offset: 20538},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46829,19 +46835,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 653, col: 5, offset: 20617},
+																					pos: position{line: 659, col: 5, offset: 20779},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 653, col: 5, offset: 20617},
+																						pos: position{line: 659, col: 5, offset: 20779},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 653, col: 5, offset: 20617},
+																								pos:        position{line: 659, col: 5, offset: 20779},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 653, col: 9, offset: 20621},
+																								pos:   position{line: 659, col: 9, offset: 20783},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -46873,7 +46879,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 653, col: 28, offset: 20640},
+																								pos:        position{line: 659, col: 28, offset: 20802},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46882,19 +46888,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 25, offset: 20821},
+																					pos: position{line: 665, col: 25, offset: 20983},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 25, offset: 20821},
+																						pos: position{line: 665, col: 25, offset: 20983},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 25, offset: 20821},
+																								pos:        position{line: 665, col: 25, offset: 20983},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 37, offset: 20833},
+																								pos:   position{line: 665, col: 37, offset: 20995},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -46926,33 +46932,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 56, offset: 20852},
+																								pos:   position{line: 665, col: 56, offset: 21014},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 659, col: 62, offset: 20858},
+																									pos: position{line: 665, col: 62, offset: 21020},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21153},
+																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21153},
+																													pos:        position{line: 673, col: 17, offset: 21315},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21157},
+																													pos:   position{line: 673, col: 21, offset: 21319},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21164},
+																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46960,12 +46966,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21218},
+																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21218},
+																																		pos:        position{line: 675, col: 9, offset: 21380},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46982,7 +46988,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 78, offset: 20874},
+																								pos:        position{line: 665, col: 78, offset: 21036},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46991,19 +46997,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 663, col: 25, offset: 20992},
+																					pos: position{line: 669, col: 25, offset: 21154},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 663, col: 25, offset: 20992},
+																						pos: position{line: 669, col: 25, offset: 21154},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 663, col: 25, offset: 20992},
+																								pos:        position{line: 669, col: 25, offset: 21154},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 38, offset: 21005},
+																								pos:   position{line: 669, col: 38, offset: 21167},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47035,33 +47041,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 663, col: 57, offset: 21024},
+																								pos:   position{line: 669, col: 57, offset: 21186},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 663, col: 63, offset: 21030},
+																									pos: position{line: 669, col: 63, offset: 21192},
 																									expr: &actionExpr{
-																										pos: position{line: 667, col: 17, offset: 21153},
+																										pos: position{line: 673, col: 17, offset: 21315},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 667, col: 17, offset: 21153},
+																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 667, col: 17, offset: 21153},
+																													pos:        position{line: 673, col: 17, offset: 21315},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 667, col: 21, offset: 21157},
+																													pos:   position{line: 673, col: 21, offset: 21319},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 667, col: 28, offset: 21164},
+																														pos: position{line: 673, col: 28, offset: 21326},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 667, col: 28, offset: 21164},
+																																pos: position{line: 673, col: 28, offset: 21326},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 667, col: 28, offset: 21164},
+																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47069,12 +47075,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 669, col: 9, offset: 21218},
+																																pos: position{line: 675, col: 9, offset: 21380},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 669, col: 9, offset: 21218},
+																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 669, col: 9, offset: 21218},
+																																		pos:        position{line: 675, col: 9, offset: 21380},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47091,7 +47097,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 663, col: 79, offset: 21046},
+																								pos:        position{line: 669, col: 79, offset: 21208},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47106,35 +47112,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2372, col: 15, offset: 76711},
+															pos:  position{line: 2378, col: 15, offset: 76873},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76731},
+															pos:  position{line: 2379, col: 15, offset: 76893},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76820},
+															pos:  position{line: 2380, col: 15, offset: 76982},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2464, col: 5, offset: 79284},
+															pos: position{line: 2470, col: 5, offset: 79446},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2464, col: 5, offset: 79284},
+																pos: position{line: 2470, col: 5, offset: 79446},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2464, col: 5, offset: 79284},
+																		pos: position{line: 2470, col: 5, offset: 79446},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2467, col: 5, offset: 79360},
+																		pos:   position{line: 2473, col: 5, offset: 79522},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2468, col: 9, offset: 79378},
+																			pos: position{line: 2474, col: 9, offset: 79540},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2468, col: 10, offset: 79379},
+																				pos:        position{line: 2474, col: 10, offset: 79541},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47146,32 +47152,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1215, col: 5, offset: 37673},
+															pos: position{line: 1221, col: 5, offset: 37835},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1215, col: 5, offset: 37673},
+																pos: position{line: 1221, col: 5, offset: 37835},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1215, col: 5, offset: 37673},
+																		pos: position{line: 1221, col: 5, offset: 37835},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 5, offset: 37749},
+																		pos:        position{line: 1224, col: 5, offset: 37911},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1219, col: 5, offset: 37757},
+																		pos: position{line: 1225, col: 5, offset: 37919},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1223, col: 5, offset: 37844},
+																		pos: position{line: 1229, col: 5, offset: 38006},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47180,30 +47186,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1223, col: 12, offset: 37851},
+																		pos: position{line: 1229, col: 12, offset: 38013},
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 8, offset: 91151},
+																			pos: position{line: 2895, col: 8, offset: 91313},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47212,9 +47218,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2886, col: 8, offset: 91101},
+																					pos: position{line: 2892, col: 8, offset: 91263},
 																					expr: &anyMatcher{
-																						line: 2886, col: 9, offset: 91102,
+																						line: 2892, col: 9, offset: 91264,
 																					},
 																				},
 																			},
@@ -47224,31 +47230,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 77002},
+															pos:  position{line: 2383, col: 15, offset: 77164},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1207, col: 23, offset: 37227},
+															pos: position{line: 1213, col: 23, offset: 37389},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1207, col: 23, offset: 37227},
+																pos: position{line: 1213, col: 23, offset: 37389},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37195},
+																		pos:        position{line: 1211, col: 32, offset: 37357},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1207, col: 51, offset: 37255},
+																		pos:   position{line: 1213, col: 51, offset: 37417},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1207, col: 56, offset: 37260},
+																			pos: position{line: 1213, col: 56, offset: 37422},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1207, col: 56, offset: 37260},
+																				pos: position{line: 1213, col: 56, offset: 37422},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1207, col: 56, offset: 37260},
+																					pos:        position{line: 1213, col: 56, offset: 37422},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -47258,7 +47264,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1205, col: 32, offset: 37195},
+																		pos:        position{line: 1211, col: 32, offset: 37357},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -47267,10 +47273,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2806, col: 12, offset: 89061},
+															pos: position{line: 2812, col: 12, offset: 89223},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 12, offset: 89061},
+																pos:        position{line: 2812, col: 12, offset: 89223},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47286,9 +47292,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -47297,28 +47303,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2388, col: 1, offset: 77440},
+			pos:  position{line: 2394, col: 1, offset: 77602},
 			expr: &actionExpr{
-				pos: position{line: 2389, col: 5, offset: 77473},
+				pos: position{line: 2395, col: 5, offset: 77635},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2389, col: 5, offset: 77473},
+					pos: position{line: 2395, col: 5, offset: 77635},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2389, col: 5, offset: 77473},
+							pos:   position{line: 2395, col: 5, offset: 77635},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2389, col: 14, offset: 77482},
+								pos: position{line: 2395, col: 14, offset: 77644},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2389, col: 15, offset: 77483},
+									pos:  position{line: 2395, col: 15, offset: 77645},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -47327,41 +47333,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2393, col: 1, offset: 77580},
+			pos:  position{line: 2399, col: 1, offset: 77742},
 			expr: &actionExpr{
-				pos: position{line: 2394, col: 5, offset: 77620},
+				pos: position{line: 2400, col: 5, offset: 77782},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2394, col: 5, offset: 77620},
+					pos: position{line: 2400, col: 5, offset: 77782},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2884, col: 11, offset: 91087},
+							pos: position{line: 2890, col: 11, offset: 91249},
 							expr: &anyMatcher{
-								line: 2884, col: 13, offset: 91089,
+								line: 2890, col: 13, offset: 91251,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77631},
+							pos:   position{line: 2401, col: 5, offset: 77793},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2396, col: 9, offset: 77649},
+								pos: position{line: 2402, col: 9, offset: 77811},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2766, col: 5, offset: 87995},
+										pos: position{line: 2772, col: 5, offset: 88157},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2766, col: 5, offset: 87995},
+											pos: position{line: 2772, col: 5, offset: 88157},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2766, col: 5, offset: 87995},
+													pos:   position{line: 2772, col: 5, offset: 88157},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2766, col: 11, offset: 88001},
+														pos: position{line: 2772, col: 11, offset: 88163},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2766, col: 11, offset: 88001},
+															pos: position{line: 2772, col: 11, offset: 88163},
 															expr: &charClassMatcher{
-																pos:        position{line: 2766, col: 11, offset: 88001},
+																pos:        position{line: 2772, col: 11, offset: 88163},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47371,36 +47377,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2769, col: 5, offset: 88059},
+													pos: position{line: 2775, col: 5, offset: 88221},
 													expr: &seqExpr{
-														pos: position{line: 2770, col: 9, offset: 88070},
+														pos: position{line: 2776, col: 9, offset: 88232},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2770, col: 9, offset: 88070},
+																pos:        position{line: 2776, col: 9, offset: 88232},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2771, col: 9, offset: 88119},
+																pos: position{line: 2777, col: 9, offset: 88281},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88199},
+													pos: position{line: 2781, col: 5, offset: 88361},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88210},
+														pos: position{line: 2782, col: 9, offset: 88372},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88210},
+																pos:        position{line: 2782, col: 9, offset: 88372},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2776, col: 13, offset: 88214},
+																pos:        position{line: 2782, col: 13, offset: 88376},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47413,10 +47419,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 10, offset: 90753},
+										pos: position{line: 2873, col: 10, offset: 90915},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 10, offset: 90753},
+											pos:        position{line: 2873, col: 10, offset: 90915},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47424,31 +47430,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2398, col: 11, offset: 77687},
+										pos:  position{line: 2404, col: 11, offset: 77849},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2784, col: 5, offset: 88407},
+										pos: position{line: 2790, col: 5, offset: 88569},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2785, col: 9, offset: 88417},
+											pos: position{line: 2791, col: 9, offset: 88579},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2785, col: 10, offset: 88418},
+													pos:        position{line: 2791, col: 10, offset: 88580},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2787, col: 13, offset: 88515},
+													pos: position{line: 2793, col: 13, offset: 88677},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2787, col: 13, offset: 88515},
+															pos: position{line: 2793, col: 13, offset: 88677},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2790, col: 13, offset: 88615},
+															pos:        position{line: 2796, col: 13, offset: 88777},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47456,20 +47462,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2790, col: 19, offset: 88621},
+													pos:        position{line: 2796, col: 19, offset: 88783},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88659},
+													pos: position{line: 2799, col: 13, offset: 88821},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88659},
+															pos: position{line: 2799, col: 13, offset: 88821},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2796, col: 14, offset: 88752},
+															pos:        position{line: 2802, col: 14, offset: 88914},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47478,18 +47484,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 12, offset: 88796},
+													pos: position{line: 2804, col: 12, offset: 88958},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2798, col: 12, offset: 88796},
+															pos:        position{line: 2804, col: 12, offset: 88958},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2798, col: 16, offset: 88800},
+															pos: position{line: 2804, col: 16, offset: 88962},
 															expr: &litMatcher{
-																pos:        position{line: 2798, col: 17, offset: 88801},
+																pos:        position{line: 2804, col: 17, offset: 88963},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47501,31 +47507,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2400, col: 11, offset: 77760},
+										pos:  position{line: 2406, col: 11, offset: 77922},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2401, col: 11, offset: 77776},
+										pos:  position{line: 2407, col: 11, offset: 77938},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2464, col: 5, offset: 79284},
+										pos: position{line: 2470, col: 5, offset: 79446},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2464, col: 5, offset: 79284},
+											pos: position{line: 2470, col: 5, offset: 79446},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2464, col: 5, offset: 79284},
+													pos: position{line: 2470, col: 5, offset: 79446},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2467, col: 5, offset: 79360},
+													pos:   position{line: 2473, col: 5, offset: 79522},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2468, col: 9, offset: 79378},
+														pos: position{line: 2474, col: 9, offset: 79540},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2468, col: 10, offset: 79379},
+															pos:        position{line: 2474, col: 10, offset: 79541},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47537,27 +47543,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1207, col: 23, offset: 37227},
+										pos: position{line: 1213, col: 23, offset: 37389},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1207, col: 23, offset: 37227},
+											pos: position{line: 1213, col: 23, offset: 37389},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37195},
+													pos:        position{line: 1211, col: 32, offset: 37357},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1207, col: 51, offset: 37255},
+													pos:   position{line: 1213, col: 51, offset: 37417},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1207, col: 56, offset: 37260},
+														pos: position{line: 1213, col: 56, offset: 37422},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1207, col: 56, offset: 37260},
+															pos: position{line: 1213, col: 56, offset: 37422},
 															expr: &charClassMatcher{
-																pos:        position{line: 1207, col: 56, offset: 37260},
+																pos:        position{line: 1213, col: 56, offset: 37422},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -47567,7 +47573,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1205, col: 32, offset: 37195},
+													pos:        position{line: 1211, col: 32, offset: 37357},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -47576,25 +47582,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 12, offset: 90924},
+										pos: position{line: 2882, col: 12, offset: 91086},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2876, col: 13, offset: 90925},
+											pos: position{line: 2882, col: 13, offset: 91087},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2876, col: 13, offset: 90925},
+													pos:        position{line: 2882, col: 13, offset: 91087},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 20, offset: 90932},
+													pos:        position{line: 2882, col: 20, offset: 91094},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2876, col: 29, offset: 90941},
+													pos:        position{line: 2882, col: 29, offset: 91103},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47603,10 +47609,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2806, col: 12, offset: 89061},
+										pos: position{line: 2812, col: 12, offset: 89223},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2806, col: 12, offset: 89061},
+											pos:        position{line: 2812, col: 12, offset: 89223},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47622,73 +47628,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2412, col: 1, offset: 78046},
+			pos:  position{line: 2418, col: 1, offset: 78208},
 			expr: &actionExpr{
-				pos: position{line: 2414, col: 5, offset: 78128},
+				pos: position{line: 2420, col: 5, offset: 78290},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2414, col: 5, offset: 78128},
+					pos: position{line: 2420, col: 5, offset: 78290},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2414, col: 5, offset: 78128},
+							pos: position{line: 2420, col: 5, offset: 78290},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2417, col: 5, offset: 78193},
+							pos:   position{line: 2423, col: 5, offset: 78355},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2418, col: 9, offset: 78211},
+								pos: position{line: 2424, col: 9, offset: 78373},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 9, offset: 78211},
+										pos:  position{line: 2424, col: 9, offset: 78373},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78232},
+										pos:  position{line: 2425, col: 11, offset: 78394},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78255},
+										pos:  position{line: 2426, col: 11, offset: 78417},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78271},
+										pos:  position{line: 2427, col: 11, offset: 78433},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78300},
+										pos:  position{line: 2428, col: 11, offset: 78462},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78326},
+										pos:  position{line: 2429, col: 11, offset: 78488},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78352},
+										pos:  position{line: 2430, col: 11, offset: 78514},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1267, col: 5, offset: 39091},
+										pos: position{line: 1273, col: 5, offset: 39253},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1267, col: 5, offset: 39091},
+											pos: position{line: 1273, col: 5, offset: 39253},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1267, col: 5, offset: 39091},
+													pos:        position{line: 1273, col: 5, offset: 39253},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1267, col: 14, offset: 39100},
+													pos:   position{line: 1273, col: 14, offset: 39262},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 7, offset: 90405},
+														pos: position{line: 2858, col: 7, offset: 90567},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2852, col: 7, offset: 90405},
+															pos: position{line: 2858, col: 7, offset: 90567},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 7, offset: 90405},
+																pos:        position{line: 2858, col: 7, offset: 90567},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47698,7 +47704,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1267, col: 22, offset: 39108},
+													pos:        position{line: 1273, col: 22, offset: 39270},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47707,27 +47713,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1272, col: 5, offset: 39227},
+										pos: position{line: 1278, col: 5, offset: 39389},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1272, col: 5, offset: 39227},
+											pos: position{line: 1278, col: 5, offset: 39389},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1272, col: 5, offset: 39227},
+													pos:        position{line: 1278, col: 5, offset: 39389},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1272, col: 10, offset: 39232},
+													pos:   position{line: 1278, col: 10, offset: 39394},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 7, offset: 90405},
+														pos: position{line: 2858, col: 7, offset: 90567},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2852, col: 7, offset: 90405},
+															pos: position{line: 2858, col: 7, offset: 90567},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 7, offset: 90405},
+																pos:        position{line: 2858, col: 7, offset: 90567},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47737,7 +47743,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1272, col: 18, offset: 39240},
+													pos:        position{line: 1278, col: 18, offset: 39402},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47746,40 +47752,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1311, col: 23, offset: 40716},
+										pos: position{line: 1317, col: 23, offset: 40878},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1311, col: 23, offset: 40716},
+											pos: position{line: 1317, col: 23, offset: 40878},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1311, col: 23, offset: 40716},
+													pos:        position{line: 1317, col: 23, offset: 40878},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 29, offset: 40722},
+													pos:   position{line: 1317, col: 29, offset: 40884},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1318, col: 30, offset: 41053},
+														pos: position{line: 1324, col: 30, offset: 41215},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1318, col: 30, offset: 41053},
+															pos: position{line: 1324, col: 30, offset: 41215},
 															expr: &choiceExpr{
-																pos: position{line: 1318, col: 31, offset: 41054},
+																pos: position{line: 1324, col: 31, offset: 41216},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2757, col: 13, offset: 87848},
+																		pos:        position{line: 2763, col: 13, offset: 88010},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2867, col: 10, offset: 90753},
+																		pos: position{line: 2873, col: 10, offset: 90915},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90753},
+																			pos:        position{line: 2873, col: 10, offset: 90915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47792,23 +47798,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 5, offset: 40761},
+													pos:   position{line: 1318, col: 5, offset: 40923},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1312, col: 11, offset: 40767},
+														pos: position{line: 1318, col: 11, offset: 40929},
 														expr: &actionExpr{
-															pos: position{line: 1312, col: 12, offset: 40768},
+															pos: position{line: 1318, col: 12, offset: 40930},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1312, col: 12, offset: 40768},
+																pos: position{line: 1318, col: 12, offset: 40930},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 12, offset: 40768},
+																		pos: position{line: 1318, col: 12, offset: 40930},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47817,18 +47823,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1312, col: 19, offset: 40775},
+																		pos:        position{line: 1318, col: 19, offset: 40937},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1312, col: 23, offset: 40779},
+																		pos: position{line: 1318, col: 23, offset: 40941},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47837,28 +47843,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1312, col: 30, offset: 40786},
+																		pos:   position{line: 1318, col: 30, offset: 40948},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1318, col: 30, offset: 41053},
+																			pos: position{line: 1324, col: 30, offset: 41215},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1318, col: 30, offset: 41053},
+																				pos: position{line: 1324, col: 30, offset: 41215},
 																				expr: &choiceExpr{
-																					pos: position{line: 1318, col: 31, offset: 41054},
+																					pos: position{line: 1324, col: 31, offset: 41216},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2757, col: 13, offset: 87848},
+																							pos:        position{line: 2763, col: 13, offset: 88010},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47876,23 +47882,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1313, col: 5, offset: 40853},
+													pos:   position{line: 1319, col: 5, offset: 41015},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1313, col: 11, offset: 40859},
+														pos: position{line: 1319, col: 11, offset: 41021},
 														expr: &actionExpr{
-															pos: position{line: 1313, col: 12, offset: 40860},
+															pos: position{line: 1319, col: 12, offset: 41022},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1313, col: 12, offset: 40860},
+																pos: position{line: 1319, col: 12, offset: 41022},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1313, col: 12, offset: 40860},
+																		pos: position{line: 1319, col: 12, offset: 41022},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47901,18 +47907,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1313, col: 19, offset: 40867},
+																		pos:        position{line: 1319, col: 19, offset: 41029},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1313, col: 23, offset: 40871},
+																		pos: position{line: 1319, col: 23, offset: 41033},
 																		expr: &actionExpr{
-																			pos: position{line: 2867, col: 10, offset: 90753},
+																			pos: position{line: 2873, col: 10, offset: 90915},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 10, offset: 90753},
+																				pos:        position{line: 2873, col: 10, offset: 90915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47921,28 +47927,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1313, col: 30, offset: 40878},
+																		pos:   position{line: 1319, col: 30, offset: 41040},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1318, col: 30, offset: 41053},
+																			pos: position{line: 1324, col: 30, offset: 41215},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1318, col: 30, offset: 41053},
+																				pos: position{line: 1324, col: 30, offset: 41215},
 																				expr: &choiceExpr{
-																					pos: position{line: 1318, col: 31, offset: 41054},
+																					pos: position{line: 1324, col: 31, offset: 41216},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2757, col: 13, offset: 87848},
+																							pos:        position{line: 2763, col: 13, offset: 88010},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 10, offset: 90753},
+																							pos: position{line: 2873, col: 10, offset: 90915},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2867, col: 10, offset: 90753},
+																								pos:        position{line: 2873, col: 10, offset: 90915},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47960,7 +47966,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1314, col: 5, offset: 40945},
+													pos:        position{line: 1320, col: 5, offset: 41107},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47969,15 +47975,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78431},
+										pos:  position{line: 2433, col: 11, offset: 78593},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78451},
+										pos:  position{line: 2434, col: 11, offset: 78613},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78474},
+										pos:  position{line: 2435, col: 11, offset: 78636},
 										name: "InlineMenu",
 									},
 								},
@@ -47989,80 +47995,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2433, col: 1, offset: 78531},
+			pos:  position{line: 2439, col: 1, offset: 78693},
 			expr: &actionExpr{
-				pos: position{line: 2435, col: 5, offset: 78619},
+				pos: position{line: 2441, col: 5, offset: 78781},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2435, col: 5, offset: 78619},
+					pos: position{line: 2441, col: 5, offset: 78781},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2435, col: 5, offset: 78619},
+							pos: position{line: 2441, col: 5, offset: 78781},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2438, col: 5, offset: 78696},
+							pos:   position{line: 2444, col: 5, offset: 78858},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2439, col: 9, offset: 78714},
+								pos: position{line: 2445, col: 9, offset: 78876},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1393, col: 26, offset: 44323},
+										pos: position{line: 1399, col: 26, offset: 44485},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1393, col: 26, offset: 44323},
+											pos: position{line: 1399, col: 26, offset: 44485},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44291},
+													pos:        position{line: 1397, col: 32, offset: 44453},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1393, col: 54, offset: 44351},
+													pos:   position{line: 1399, col: 54, offset: 44513},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1397, col: 33, offset: 44564},
+														pos: position{line: 1403, col: 33, offset: 44726},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1397, col: 34, offset: 44565},
+																pos: position{line: 1403, col: 34, offset: 44727},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1397, col: 34, offset: 44565},
+																	pos: position{line: 1403, col: 34, offset: 44727},
 																	expr: &seqExpr{
-																		pos: position{line: 1397, col: 35, offset: 44566},
+																		pos: position{line: 1403, col: 35, offset: 44728},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1397, col: 35, offset: 44566},
+																				pos: position{line: 1403, col: 35, offset: 44728},
 																				expr: &litMatcher{
-																					pos:        position{line: 1391, col: 32, offset: 44291},
+																					pos:        position{line: 1397, col: 32, offset: 44453},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1397, col: 64, offset: 44595,
+																				line: 1403, col: 64, offset: 44757,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1399, col: 11, offset: 44768},
+																pos: position{line: 1405, col: 11, offset: 44930},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1399, col: 11, offset: 44768},
+																	pos: position{line: 1405, col: 11, offset: 44930},
 																	expr: &seqExpr{
-																		pos: position{line: 1399, col: 12, offset: 44769},
+																		pos: position{line: 1405, col: 12, offset: 44931},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1399, col: 12, offset: 44769},
+																				pos: position{line: 1405, col: 12, offset: 44931},
 																				expr: &actionExpr{
-																					pos: position{line: 2867, col: 10, offset: 90753},
+																					pos: position{line: 2873, col: 10, offset: 90915},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2867, col: 10, offset: 90753},
+																						pos:        position{line: 2873, col: 10, offset: 90915},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48071,27 +48077,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1399, col: 19, offset: 44776},
+																				pos: position{line: 1405, col: 19, offset: 44938},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 12, offset: 90924},
+																					pos: position{line: 2882, col: 12, offset: 91086},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2876, col: 13, offset: 90925},
+																						pos: position{line: 2882, col: 13, offset: 91087},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 13, offset: 90925},
+																								pos:        position{line: 2882, col: 13, offset: 91087},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 20, offset: 90932},
+																								pos:        position{line: 2882, col: 20, offset: 91094},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2876, col: 29, offset: 90941},
+																								pos:        position{line: 2882, col: 29, offset: 91103},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48101,16 +48107,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1399, col: 28, offset: 44785},
+																				pos: position{line: 1405, col: 28, offset: 44947},
 																				expr: &litMatcher{
-																					pos:        position{line: 1391, col: 32, offset: 44291},
+																					pos:        position{line: 1397, col: 32, offset: 44453},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1399, col: 57, offset: 44814,
+																				line: 1405, col: 57, offset: 44976,
 																			},
 																		},
 																	},
@@ -48120,15 +48126,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44291},
+													pos:        position{line: 1397, col: 32, offset: 44453},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1393, col: 121, offset: 44418},
+													pos: position{line: 1399, col: 121, offset: 44580},
 													expr: &charClassMatcher{
-														pos:        position{line: 2757, col: 13, offset: 87848},
+														pos:        position{line: 2763, col: 13, offset: 88010},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48139,45 +48145,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1381, col: 26, offset: 43606},
+										pos: position{line: 1387, col: 26, offset: 43768},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1381, col: 26, offset: 43606},
+											pos: position{line: 1387, col: 26, offset: 43768},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1379, col: 32, offset: 43576},
+													pos:        position{line: 1385, col: 32, offset: 43738},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1381, col: 54, offset: 43634},
+													pos:   position{line: 1387, col: 54, offset: 43796},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1385, col: 33, offset: 43847},
+														pos: position{line: 1391, col: 33, offset: 44009},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1385, col: 34, offset: 43848},
+																pos: position{line: 1391, col: 34, offset: 44010},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1385, col: 34, offset: 43848},
+																	pos: position{line: 1391, col: 34, offset: 44010},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1385, col: 35, offset: 43849},
+																			pos: position{line: 1391, col: 35, offset: 44011},
 																			expr: &litMatcher{
-																				pos:        position{line: 1379, col: 32, offset: 43576},
+																				pos:        position{line: 1385, col: 32, offset: 43738},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 64, offset: 43878},
+																			pos: position{line: 1391, col: 64, offset: 44040},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48186,27 +48192,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 71, offset: 43885},
+																			pos: position{line: 1391, col: 71, offset: 44047},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48216,25 +48222,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1385, col: 80, offset: 43894,
+																			line: 1391, col: 80, offset: 44056,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1385, col: 83, offset: 43897},
+																			pos: position{line: 1391, col: 83, offset: 44059},
 																			expr: &seqExpr{
-																				pos: position{line: 1385, col: 84, offset: 43898},
+																				pos: position{line: 1391, col: 84, offset: 44060},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1385, col: 84, offset: 43898},
+																						pos: position{line: 1391, col: 84, offset: 44060},
 																						expr: &seqExpr{
-																							pos: position{line: 1385, col: 86, offset: 43900},
+																							pos: position{line: 1391, col: 86, offset: 44062},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 11, offset: 90814},
+																									pos: position{line: 2877, col: 11, offset: 90976},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2871, col: 11, offset: 90814},
+																										pos: position{line: 2877, col: 11, offset: 90976},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2871, col: 11, offset: 90814},
+																											pos:        position{line: 2877, col: 11, offset: 90976},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48243,7 +48249,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1379, col: 32, offset: 43576},
+																									pos:        position{line: 1385, col: 32, offset: 43738},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -48252,36 +48258,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1385, col: 122, offset: 43936},
+																						pos: position{line: 1391, col: 122, offset: 44098},
 																						expr: &litMatcher{
-																							pos:        position{line: 1379, col: 32, offset: 43576},
+																							pos:        position{line: 1385, col: 32, offset: 43738},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1385, col: 151, offset: 43965},
+																						pos: position{line: 1391, col: 151, offset: 44127},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 12, offset: 90924},
+																							pos: position{line: 2882, col: 12, offset: 91086},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2876, col: 13, offset: 90925},
+																								pos: position{line: 2882, col: 13, offset: 91087},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 13, offset: 90925},
+																										pos:        position{line: 2882, col: 13, offset: 91087},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 20, offset: 90932},
+																										pos:        position{line: 2882, col: 20, offset: 91094},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2876, col: 29, offset: 90941},
+																										pos:        position{line: 2882, col: 29, offset: 91103},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48291,7 +48297,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1385, col: 160, offset: 43974,
+																						line: 1391, col: 160, offset: 44136,
 																					},
 																				},
 																			},
@@ -48300,18 +48306,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1387, col: 11, offset: 44124},
+																pos: position{line: 1393, col: 11, offset: 44286},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1387, col: 12, offset: 44125},
+																	pos: position{line: 1393, col: 12, offset: 44287},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1387, col: 12, offset: 44125},
+																			pos: position{line: 1393, col: 12, offset: 44287},
 																			expr: &actionExpr{
-																				pos: position{line: 2867, col: 10, offset: 90753},
+																				pos: position{line: 2873, col: 10, offset: 90915},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90753},
+																					pos:        position{line: 2873, col: 10, offset: 90915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48320,27 +48326,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1387, col: 19, offset: 44132},
+																			pos: position{line: 1393, col: 19, offset: 44294},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 12, offset: 90924},
+																				pos: position{line: 2882, col: 12, offset: 91086},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2876, col: 13, offset: 90925},
+																					pos: position{line: 2882, col: 13, offset: 91087},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 13, offset: 90925},
+																							pos:        position{line: 2882, col: 13, offset: 91087},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 20, offset: 90932},
+																							pos:        position{line: 2882, col: 20, offset: 91094},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2876, col: 29, offset: 90941},
+																							pos:        position{line: 2882, col: 29, offset: 91103},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48350,16 +48356,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1387, col: 28, offset: 44141},
+																			pos: position{line: 1393, col: 28, offset: 44303},
 																			expr: &litMatcher{
-																				pos:        position{line: 1379, col: 32, offset: 43576},
+																				pos:        position{line: 1385, col: 32, offset: 43738},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1387, col: 57, offset: 44170,
+																			line: 1393, col: 57, offset: 44332,
 																		},
 																	},
 																},
@@ -48368,15 +48374,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1379, col: 32, offset: 43576},
+													pos:        position{line: 1385, col: 32, offset: 43738},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1381, col: 121, offset: 43701},
+													pos: position{line: 1387, col: 121, offset: 43863},
 													expr: &charClassMatcher{
-														pos:        position{line: 2757, col: 13, offset: 87848},
+														pos:        position{line: 2763, col: 13, offset: 88010},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48387,7 +48393,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 57, offset: 78762},
+										pos:  position{line: 2445, col: 57, offset: 78924},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48399,16 +48405,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2444, col: 1, offset: 78822},
+			pos:  position{line: 2450, col: 1, offset: 78984},
 			expr: &seqExpr{
-				pos: position{line: 2446, col: 5, offset: 78898},
+				pos: position{line: 2452, col: 5, offset: 79060},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2446, col: 5, offset: 78898},
+						pos: position{line: 2452, col: 5, offset: 79060},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2449, col: 5, offset: 78963},
+						pos:  position{line: 2455, col: 5, offset: 79125},
 						name: "QuotedText",
 					},
 				},
@@ -48416,22 +48422,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2451, col: 1, offset: 78976},
+			pos:  position{line: 2457, col: 1, offset: 79138},
 			expr: &actionExpr{
-				pos: position{line: 2453, col: 5, offset: 79058},
+				pos: position{line: 2459, col: 5, offset: 79220},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2453, col: 5, offset: 79058},
+					pos: position{line: 2459, col: 5, offset: 79220},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2453, col: 5, offset: 79058},
+							pos: position{line: 2459, col: 5, offset: 79220},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2456, col: 5, offset: 79129},
+							pos:   position{line: 2462, col: 5, offset: 79291},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2457, col: 9, offset: 79147},
+								pos:  position{line: 2463, col: 9, offset: 79309},
 								name: "Symbol",
 							},
 						},
@@ -48441,103 +48447,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2512, col: 1, offset: 80906},
+			pos:  position{line: 2518, col: 1, offset: 81068},
 			expr: &choiceExpr{
-				pos: position{line: 2514, col: 5, offset: 80936},
+				pos: position{line: 2520, col: 5, offset: 81098},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2514, col: 5, offset: 80936},
+						pos: position{line: 2520, col: 5, offset: 81098},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2514, col: 5, offset: 80936},
+							pos: position{line: 2520, col: 5, offset: 81098},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 80936},
+									pos:        position{line: 2520, col: 5, offset: 81098},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2514, col: 10, offset: 80941},
+									pos: position{line: 2520, col: 10, offset: 81103},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2514, col: 10, offset: 80941},
+											pos:  position{line: 2520, col: 10, offset: 81103},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2543, col: 14, offset: 82045},
+											pos: position{line: 2549, col: 14, offset: 82207},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2543, col: 14, offset: 82045},
+												pos:        position{line: 2549, col: 14, offset: 82207},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 14, offset: 82111},
+											pos: position{line: 2553, col: 14, offset: 82273},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2547, col: 14, offset: 82111},
+												pos:        position{line: 2553, col: 14, offset: 82273},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2551, col: 15, offset: 82180},
+											pos: position{line: 2557, col: 15, offset: 82342},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2551, col: 15, offset: 82180},
+												pos:        position{line: 2557, col: 15, offset: 82342},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2555, col: 13, offset: 82245},
+											pos: position{line: 2561, col: 13, offset: 82407},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2555, col: 13, offset: 82245},
+												pos:        position{line: 2561, col: 13, offset: 82407},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2583, col: 21, offset: 82815},
+											pos: position{line: 2589, col: 21, offset: 82977},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2583, col: 21, offset: 82815},
+												pos:        position{line: 2589, col: 21, offset: 82977},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 5, offset: 82401},
+											pos: position{line: 2568, col: 5, offset: 82563},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2562, col: 5, offset: 82401},
+												pos: position{line: 2568, col: 5, offset: 82563},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2562, col: 5, offset: 82401},
+														pos:        position{line: 2568, col: 5, offset: 82563},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2563, col: 5, offset: 82411},
+														pos: position{line: 2569, col: 5, offset: 82573},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2567, col: 6, offset: 82498},
+														pos: position{line: 2573, col: 6, offset: 82660},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2867, col: 10, offset: 90753},
+																pos: position{line: 2873, col: 10, offset: 90915},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 10, offset: 90753},
+																	pos:        position{line: 2873, col: 10, offset: 90915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48545,30 +48551,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2567, col: 14, offset: 82506},
+																pos: position{line: 2573, col: 14, offset: 82668},
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 8, offset: 91151},
+																	pos: position{line: 2895, col: 8, offset: 91313},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 12, offset: 90924},
+																			pos: position{line: 2882, col: 12, offset: 91086},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2876, col: 13, offset: 90925},
+																				pos: position{line: 2882, col: 13, offset: 91087},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 13, offset: 90925},
+																						pos:        position{line: 2882, col: 13, offset: 91087},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 20, offset: 90932},
+																						pos:        position{line: 2882, col: 20, offset: 91094},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2876, col: 29, offset: 90941},
+																						pos:        position{line: 2882, col: 29, offset: 91103},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48577,9 +48583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2886, col: 8, offset: 91101},
+																			pos: position{line: 2892, col: 8, offset: 91263},
 																			expr: &anyMatcher{
-																				line: 2886, col: 9, offset: 91102,
+																				line: 2892, col: 9, offset: 91264,
 																			},
 																		},
 																	},
@@ -48591,53 +48597,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 5, offset: 82626},
+											pos: position{line: 2578, col: 5, offset: 82788},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2572, col: 5, offset: 82626},
+												pos: position{line: 2578, col: 5, offset: 82788},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2572, col: 5, offset: 82626},
+														pos:        position{line: 2578, col: 5, offset: 82788},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2573, col: 5, offset: 82636},
+														pos: position{line: 2579, col: 5, offset: 82798},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2577, col: 5, offset: 82725},
+														pos: position{line: 2583, col: 5, offset: 82887},
 														expr: &choiceExpr{
-															pos: position{line: 2577, col: 7, offset: 82727},
+															pos: position{line: 2583, col: 7, offset: 82889},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2757, col: 13, offset: 87848},
+																	pos:        position{line: 2763, col: 13, offset: 88010},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 12, offset: 90924},
+																	pos: position{line: 2882, col: 12, offset: 91086},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2876, col: 13, offset: 90925},
+																		pos: position{line: 2882, col: 13, offset: 91087},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 13, offset: 90925},
+																				pos:        position{line: 2882, col: 13, offset: 91087},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 20, offset: 90932},
+																				pos:        position{line: 2882, col: 20, offset: 91094},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2876, col: 29, offset: 90941},
+																				pos:        position{line: 2882, col: 29, offset: 91103},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48646,9 +48652,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -48658,30 +48664,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2587, col: 20, offset: 82885},
+											pos: position{line: 2593, col: 20, offset: 83047},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2587, col: 20, offset: 82885},
+												pos:        position{line: 2593, col: 20, offset: 83047},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 21, offset: 82956},
+											pos: position{line: 2597, col: 21, offset: 83118},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 21, offset: 82956},
+												pos:        position{line: 2597, col: 21, offset: 83118},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 20, offset: 83026},
+											pos: position{line: 2601, col: 20, offset: 83188},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 20, offset: 83026},
+												pos:        position{line: 2601, col: 20, offset: 83188},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48693,73 +48699,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2518, col: 7, offset: 81196},
+						pos:  position{line: 2524, col: 7, offset: 81358},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 14, offset: 82045},
+						pos: position{line: 2549, col: 14, offset: 82207},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2543, col: 14, offset: 82045},
+							pos:        position{line: 2549, col: 14, offset: 82207},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 14, offset: 82111},
+						pos: position{line: 2553, col: 14, offset: 82273},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2547, col: 14, offset: 82111},
+							pos:        position{line: 2553, col: 14, offset: 82273},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2551, col: 15, offset: 82180},
+						pos: position{line: 2557, col: 15, offset: 82342},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2551, col: 15, offset: 82180},
+							pos:        position{line: 2557, col: 15, offset: 82342},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 13, offset: 82245},
+						pos: position{line: 2561, col: 13, offset: 82407},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2555, col: 13, offset: 82245},
+							pos:        position{line: 2561, col: 13, offset: 82407},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82401},
+						pos: position{line: 2568, col: 5, offset: 82563},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82401},
+							pos: position{line: 2568, col: 5, offset: 82563},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82401},
+									pos:        position{line: 2568, col: 5, offset: 82563},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2563, col: 5, offset: 82411},
+									pos: position{line: 2569, col: 5, offset: 82573},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2567, col: 6, offset: 82498},
+									pos: position{line: 2573, col: 6, offset: 82660},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2867, col: 10, offset: 90753},
+											pos: position{line: 2873, col: 10, offset: 90915},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 10, offset: 90753},
+												pos:        position{line: 2873, col: 10, offset: 90915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48767,30 +48773,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2567, col: 14, offset: 82506},
+											pos: position{line: 2573, col: 14, offset: 82668},
 											expr: &choiceExpr{
-												pos: position{line: 2889, col: 8, offset: 91151},
+												pos: position{line: 2895, col: 8, offset: 91313},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2876, col: 12, offset: 90924},
+														pos: position{line: 2882, col: 12, offset: 91086},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 13, offset: 90925},
+															pos: position{line: 2882, col: 13, offset: 91087},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 13, offset: 90925},
+																	pos:        position{line: 2882, col: 13, offset: 91087},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 20, offset: 90932},
+																	pos:        position{line: 2882, col: 20, offset: 91094},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 29, offset: 90941},
+																	pos:        position{line: 2882, col: 29, offset: 91103},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48799,9 +48805,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2886, col: 8, offset: 91101},
+														pos: position{line: 2892, col: 8, offset: 91263},
 														expr: &anyMatcher{
-															line: 2886, col: 9, offset: 91102,
+															line: 2892, col: 9, offset: 91264,
 														},
 													},
 												},
@@ -48813,53 +48819,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 5, offset: 82626},
+						pos: position{line: 2578, col: 5, offset: 82788},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 5, offset: 82626},
+							pos: position{line: 2578, col: 5, offset: 82788},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 5, offset: 82626},
+									pos:        position{line: 2578, col: 5, offset: 82788},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2573, col: 5, offset: 82636},
+									pos: position{line: 2579, col: 5, offset: 82798},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2577, col: 5, offset: 82725},
+									pos: position{line: 2583, col: 5, offset: 82887},
 									expr: &choiceExpr{
-										pos: position{line: 2577, col: 7, offset: 82727},
+										pos: position{line: 2583, col: 7, offset: 82889},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2757, col: 13, offset: 87848},
+												pos:        position{line: 2763, col: 13, offset: 88010},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2876, col: 12, offset: 90924},
+												pos: position{line: 2882, col: 12, offset: 91086},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2876, col: 13, offset: 90925},
+													pos: position{line: 2882, col: 13, offset: 91087},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2876, col: 13, offset: 90925},
+															pos:        position{line: 2882, col: 13, offset: 91087},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 20, offset: 90932},
+															pos:        position{line: 2882, col: 20, offset: 91094},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 29, offset: 90941},
+															pos:        position{line: 2882, col: 29, offset: 91103},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48868,9 +48874,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2886, col: 8, offset: 91101},
+												pos: position{line: 2892, col: 8, offset: 91263},
 												expr: &anyMatcher{
-													line: 2886, col: 9, offset: 91102,
+													line: 2892, col: 9, offset: 91264,
 												},
 											},
 										},
@@ -48880,40 +48886,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 21, offset: 82815},
+						pos: position{line: 2589, col: 21, offset: 82977},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2583, col: 21, offset: 82815},
+							pos:        position{line: 2589, col: 21, offset: 82977},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 20, offset: 82885},
+						pos: position{line: 2593, col: 20, offset: 83047},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2587, col: 20, offset: 82885},
+							pos:        position{line: 2593, col: 20, offset: 83047},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 21, offset: 82956},
+						pos: position{line: 2597, col: 21, offset: 83118},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 21, offset: 82956},
+							pos:        position{line: 2597, col: 21, offset: 83118},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 20, offset: 83026},
+						pos: position{line: 2601, col: 20, offset: 83188},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 20, offset: 83026},
+							pos:        position{line: 2601, col: 20, offset: 83188},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48924,43 +48930,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2529, col: 1, offset: 81386},
+			pos:  position{line: 2535, col: 1, offset: 81548},
 			expr: &choiceExpr{
-				pos: position{line: 2530, col: 5, offset: 81408},
+				pos: position{line: 2536, col: 5, offset: 81570},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2530, col: 5, offset: 81408},
+						pos: position{line: 2536, col: 5, offset: 81570},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 5, offset: 81408},
+							pos: position{line: 2536, col: 5, offset: 81570},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 5, offset: 81408},
+									pos:        position{line: 2536, col: 5, offset: 81570},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2530, col: 11, offset: 81414},
+									pos: position{line: 2536, col: 11, offset: 81576},
 									expr: &seqExpr{
-										pos: position{line: 2093, col: 5, offset: 67618},
+										pos: position{line: 2099, col: 5, offset: 67780},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2093, col: 5, offset: 67618},
+												pos:        position{line: 2099, col: 5, offset: 67780},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2094, col: 5, offset: 67627},
+												pos: position{line: 2100, col: 5, offset: 67789},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2098, col: 5, offset: 67750},
+												pos: position{line: 2104, col: 5, offset: 67912},
 												expr: &notExpr{
-													pos: position{line: 2098, col: 7, offset: 67752},
+													pos: position{line: 2104, col: 7, offset: 67914},
 													expr: &litMatcher{
-														pos:        position{line: 2098, col: 8, offset: 67753},
+														pos:        position{line: 2104, col: 8, offset: 67915},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48974,21 +48980,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2533, col: 7, offset: 81567},
+						pos: position{line: 2539, col: 7, offset: 81729},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 7, offset: 81567},
+							pos: position{line: 2539, col: 7, offset: 81729},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 7, offset: 81567},
+									pos:        position{line: 2539, col: 7, offset: 81729},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2533, col: 13, offset: 81573},
+									pos: position{line: 2539, col: 13, offset: 81735},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2533, col: 14, offset: 81574},
+										pos:  position{line: 2539, col: 14, offset: 81736},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48996,38 +49002,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 7, offset: 81724},
+						pos: position{line: 2542, col: 7, offset: 81886},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 7, offset: 81724},
+							pos: position{line: 2542, col: 7, offset: 81886},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 7, offset: 81724},
+									pos:        position{line: 2542, col: 7, offset: 81886},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 12, offset: 81729},
+									pos: position{line: 2542, col: 12, offset: 81891},
 									expr: &seqExpr{
-										pos: position{line: 2093, col: 5, offset: 67618},
+										pos: position{line: 2099, col: 5, offset: 67780},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2093, col: 5, offset: 67618},
+												pos:        position{line: 2099, col: 5, offset: 67780},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2094, col: 5, offset: 67627},
+												pos: position{line: 2100, col: 5, offset: 67789},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2098, col: 5, offset: 67750},
+												pos: position{line: 2104, col: 5, offset: 67912},
 												expr: &notExpr{
-													pos: position{line: 2098, col: 7, offset: 67752},
+													pos: position{line: 2104, col: 7, offset: 67914},
 													expr: &litMatcher{
-														pos:        position{line: 2098, col: 8, offset: 67753},
+														pos:        position{line: 2104, col: 8, offset: 67915},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49041,21 +49047,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81882},
+						pos: position{line: 2545, col: 7, offset: 82044},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81882},
+							pos: position{line: 2545, col: 7, offset: 82044},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81882},
+									pos:        position{line: 2545, col: 7, offset: 82044},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 12, offset: 81887},
+									pos: position{line: 2545, col: 12, offset: 82049},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2539, col: 13, offset: 81888},
+										pos:  position{line: 2545, col: 13, offset: 82050},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49067,63 +49073,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2672, col: 1, offset: 84928},
+			pos:  position{line: 2678, col: 1, offset: 85090},
 			expr: &actionExpr{
-				pos: position{line: 2672, col: 26, offset: 84953},
+				pos: position{line: 2678, col: 26, offset: 85115},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2672, col: 26, offset: 84953},
+					pos: position{line: 2678, col: 26, offset: 85115},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2672, col: 26, offset: 84953},
+							pos:   position{line: 2678, col: 26, offset: 85115},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2672, col: 31, offset: 84958},
+								pos: position{line: 2678, col: 31, offset: 85120},
 								expr: &actionExpr{
-									pos: position{line: 2677, col: 5, offset: 85021},
+									pos: position{line: 2683, col: 5, offset: 85183},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2677, col: 5, offset: 85021},
+										pos: position{line: 2683, col: 5, offset: 85183},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2884, col: 11, offset: 91087},
+												pos: position{line: 2890, col: 11, offset: 91249},
 												expr: &anyMatcher{
-													line: 2884, col: 13, offset: 91089,
+													line: 2890, col: 13, offset: 91251,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2680, col: 5, offset: 85147},
+												pos:   position{line: 2686, col: 5, offset: 85309},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2680, col: 16, offset: 85158},
+													pos: position{line: 2686, col: 16, offset: 85320},
 													expr: &actionExpr{
-														pos: position{line: 2680, col: 17, offset: 85159},
+														pos: position{line: 2686, col: 17, offset: 85321},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2680, col: 17, offset: 85159},
+															pos: position{line: 2686, col: 17, offset: 85321},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2680, col: 17, offset: 85159},
+																	pos:   position{line: 2686, col: 17, offset: 85321},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2859, col: 12, offset: 90580},
+																		pos: position{line: 2865, col: 12, offset: 90742},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2859, col: 13, offset: 90581},
+																			pos: position{line: 2865, col: 13, offset: 90743},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2859, col: 13, offset: 90581},
+																					pos: position{line: 2865, col: 13, offset: 90743},
 																					expr: &litMatcher{
-																						pos:        position{line: 2859, col: 13, offset: 90581},
+																						pos:        position{line: 2865, col: 13, offset: 90743},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2859, col: 18, offset: 90586},
+																					pos: position{line: 2865, col: 18, offset: 90748},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2859, col: 18, offset: 90586},
+																						pos:        position{line: 2865, col: 18, offset: 90748},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49135,7 +49141,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2680, col: 27, offset: 85169},
+																	pos:        position{line: 2686, col: 27, offset: 85331},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49146,38 +49152,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2681, col: 5, offset: 85197},
+												pos:   position{line: 2687, col: 5, offset: 85359},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2681, col: 12, offset: 85204},
+													pos: position{line: 2687, col: 12, offset: 85366},
 													expr: &choiceExpr{
-														pos: position{line: 2682, col: 9, offset: 85214},
+														pos: position{line: 2688, col: 9, offset: 85376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2682, col: 9, offset: 85214},
+																pos: position{line: 2688, col: 9, offset: 85376},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 9, offset: 85214},
+																	pos:        position{line: 2688, col: 9, offset: 85376},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85261},
+																pos: position{line: 2689, col: 11, offset: 85423},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85261},
+																	pos:        position{line: 2689, col: 11, offset: 85423},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2684, col: 11, offset: 85309},
+																pos: position{line: 2690, col: 11, offset: 85471},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 11, offset: 85309},
+																	pos:        position{line: 2690, col: 11, offset: 85471},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49188,38 +49194,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85359},
+												pos:   position{line: 2692, col: 5, offset: 85521},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 12, offset: 85366},
+													pos: position{line: 2692, col: 12, offset: 85528},
 													expr: &choiceExpr{
-														pos: position{line: 2687, col: 9, offset: 85376},
+														pos: position{line: 2693, col: 9, offset: 85538},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2687, col: 9, offset: 85376},
+																pos: position{line: 2693, col: 9, offset: 85538},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 9, offset: 85376},
+																	pos:        position{line: 2693, col: 9, offset: 85538},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 11, offset: 85423},
+																pos: position{line: 2694, col: 11, offset: 85585},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 11, offset: 85423},
+																	pos:        position{line: 2694, col: 11, offset: 85585},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85473},
+																pos: position{line: 2695, col: 11, offset: 85635},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85473},
+																	pos:        position{line: 2695, col: 11, offset: 85635},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49230,32 +49236,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85524},
+												pos:   position{line: 2697, col: 5, offset: 85686},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 12, offset: 85531},
+													pos: position{line: 2697, col: 12, offset: 85693},
 													expr: &choiceExpr{
-														pos: position{line: 2691, col: 13, offset: 85532},
+														pos: position{line: 2697, col: 13, offset: 85694},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2859, col: 12, offset: 90580},
+																pos: position{line: 2865, col: 12, offset: 90742},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2859, col: 13, offset: 90581},
+																	pos: position{line: 2865, col: 13, offset: 90743},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2859, col: 13, offset: 90581},
+																			pos: position{line: 2865, col: 13, offset: 90743},
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 13, offset: 90581},
+																				pos:        position{line: 2865, col: 13, offset: 90743},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 18, offset: 90586},
+																			pos: position{line: 2865, col: 18, offset: 90748},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 18, offset: 90586},
+																				pos:        position{line: 2865, col: 18, offset: 90748},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49266,10 +49272,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2691, col: 24, offset: 85543},
+																pos: position{line: 2697, col: 24, offset: 85705},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 24, offset: 85543},
+																	pos:        position{line: 2697, col: 24, offset: 85705},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49280,15 +49286,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85585},
+												pos:   position{line: 2698, col: 5, offset: 85747},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 11, offset: 85591},
+													pos: position{line: 2698, col: 11, offset: 85753},
 													expr: &actionExpr{
-														pos: position{line: 2692, col: 12, offset: 85592},
+														pos: position{line: 2698, col: 12, offset: 85754},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2692, col: 12, offset: 85592},
+															pos:        position{line: 2698, col: 12, offset: 85754},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49298,12 +49304,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85722},
+												pos:   position{line: 2700, col: 5, offset: 85884},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 11, offset: 85728},
+													pos: position{line: 2700, col: 11, offset: 85890},
 													expr: &litMatcher{
-														pos:        position{line: 2694, col: 12, offset: 85729},
+														pos:        position{line: 2700, col: 12, offset: 85891},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49311,7 +49317,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2695, col: 5, offset: 85739},
+												pos: position{line: 2701, col: 5, offset: 85901},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49320,9 +49326,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2886, col: 8, offset: 91101},
+							pos: position{line: 2892, col: 8, offset: 91263},
 							expr: &anyMatcher{
-								line: 2886, col: 9, offset: 91102,
+								line: 2892, col: 9, offset: 91264,
 							},
 						},
 					},
@@ -49331,23 +49337,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2722, col: 1, offset: 86748},
+			pos:  position{line: 2728, col: 1, offset: 86910},
 			expr: &actionExpr{
-				pos: position{line: 2723, col: 5, offset: 86771},
+				pos: position{line: 2729, col: 5, offset: 86933},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2723, col: 5, offset: 86771},
+					pos: position{line: 2729, col: 5, offset: 86933},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2723, col: 5, offset: 86771},
+							pos:   position{line: 2729, col: 5, offset: 86933},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2746, col: 18, offset: 87512},
+								pos: position{line: 2752, col: 18, offset: 87674},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2746, col: 19, offset: 87513},
+									pos: position{line: 2752, col: 19, offset: 87675},
 									expr: &charClassMatcher{
-										pos:        position{line: 2746, col: 19, offset: 87513},
+										pos:        position{line: 2752, col: 19, offset: 87675},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49358,25 +49364,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2724, col: 5, offset: 86797},
+							pos: position{line: 2730, col: 5, offset: 86959},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2728, col: 5, offset: 86925},
+							pos:        position{line: 2734, col: 5, offset: 87087},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86935},
+							pos:   position{line: 2735, col: 5, offset: 87097},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2750, col: 19, offset: 87588},
+								pos: position{line: 2756, col: 19, offset: 87750},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2750, col: 19, offset: 87588},
+									pos: position{line: 2756, col: 19, offset: 87750},
 									expr: &charClassMatcher{
-										pos:        position{line: 2750, col: 19, offset: 87588},
+										pos:        position{line: 2756, col: 19, offset: 87750},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49386,36 +49392,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2730, col: 5, offset: 86963},
+							pos:   position{line: 2736, col: 5, offset: 87125},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2730, col: 17, offset: 86975},
+								pos:  position{line: 2736, col: 17, offset: 87137},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2889, col: 8, offset: 91151},
+							pos: position{line: 2895, col: 8, offset: 91313},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2876, col: 12, offset: 90924},
+									pos: position{line: 2882, col: 12, offset: 91086},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2876, col: 13, offset: 90925},
+										pos: position{line: 2882, col: 13, offset: 91087},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2876, col: 13, offset: 90925},
+												pos:        position{line: 2882, col: 13, offset: 91087},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 20, offset: 90932},
+												pos:        position{line: 2882, col: 20, offset: 91094},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2876, col: 29, offset: 90941},
+												pos:        position{line: 2882, col: 29, offset: 91103},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49424,9 +49430,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 8, offset: 91101},
+									pos: position{line: 2892, col: 8, offset: 91263},
 									expr: &anyMatcher{
-										line: 2886, col: 9, offset: 91102,
+										line: 2892, col: 9, offset: 91264,
 									},
 								},
 							},
@@ -49437,23 +49443,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2734, col: 1, offset: 87123},
+			pos:  position{line: 2740, col: 1, offset: 87285},
 			expr: &actionExpr{
-				pos: position{line: 2735, col: 5, offset: 87147},
+				pos: position{line: 2741, col: 5, offset: 87309},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2735, col: 5, offset: 87147},
+					pos: position{line: 2741, col: 5, offset: 87309},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87147},
+							pos:   position{line: 2741, col: 5, offset: 87309},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2746, col: 18, offset: 87512},
+								pos: position{line: 2752, col: 18, offset: 87674},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2746, col: 19, offset: 87513},
+									pos: position{line: 2752, col: 19, offset: 87675},
 									expr: &charClassMatcher{
-										pos:        position{line: 2746, col: 19, offset: 87513},
+										pos:        position{line: 2752, col: 19, offset: 87675},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49464,25 +49470,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2736, col: 5, offset: 87173},
+							pos: position{line: 2742, col: 5, offset: 87335},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2740, col: 5, offset: 87301},
+							pos:        position{line: 2746, col: 5, offset: 87463},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87310},
+							pos:   position{line: 2747, col: 5, offset: 87472},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2750, col: 19, offset: 87588},
+								pos: position{line: 2756, col: 19, offset: 87750},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2750, col: 19, offset: 87588},
+									pos: position{line: 2756, col: 19, offset: 87750},
 									expr: &charClassMatcher{
-										pos:        position{line: 2750, col: 19, offset: 87588},
+										pos:        position{line: 2756, col: 19, offset: 87750},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49492,10 +49498,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87338},
+							pos:   position{line: 2748, col: 5, offset: 87500},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2742, col: 17, offset: 87350},
+								pos:  position{line: 2748, col: 17, offset: 87512},
 								name: "InlineAttributes",
 							},
 						},
@@ -49505,43 +49511,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2821, col: 1, offset: 89400},
+			pos:  position{line: 2827, col: 1, offset: 89562},
 			expr: &actionExpr{
-				pos: position{line: 2821, col: 17, offset: 89416},
+				pos: position{line: 2827, col: 17, offset: 89578},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2821, col: 17, offset: 89416},
+					pos:   position{line: 2827, col: 17, offset: 89578},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2838, col: 5, offset: 89870},
+						pos: position{line: 2844, col: 5, offset: 90032},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2838, col: 5, offset: 89870},
+							pos:   position{line: 2844, col: 5, offset: 90032},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2838, col: 14, offset: 89879},
+								pos: position{line: 2844, col: 14, offset: 90041},
 								expr: &choiceExpr{
-									pos: position{line: 2839, col: 9, offset: 89889},
+									pos: position{line: 2845, col: 9, offset: 90051},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2839, col: 9, offset: 89889},
+											pos: position{line: 2845, col: 9, offset: 90051},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2839, col: 9, offset: 89889},
+												pos: position{line: 2845, col: 9, offset: 90051},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2839, col: 9, offset: 89889},
+														pos: position{line: 2845, col: 9, offset: 90051},
 														expr: &litMatcher{
-															pos:        position{line: 2839, col: 10, offset: 89890},
+															pos:        position{line: 2845, col: 10, offset: 90052},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2840, col: 9, offset: 89918},
+														pos: position{line: 2846, col: 9, offset: 90080},
 														expr: &charClassMatcher{
-															pos:        position{line: 2840, col: 10, offset: 89919},
+															pos:        position{line: 2846, col: 10, offset: 90081},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49552,27 +49558,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2843, col: 11, offset: 90131},
+											pos: position{line: 2849, col: 11, offset: 90293},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2843, col: 11, offset: 90131},
+													pos:        position{line: 2849, col: 11, offset: 90293},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2843, col: 19, offset: 90139},
+													pos: position{line: 2849, col: 19, offset: 90301},
 													expr: &seqExpr{
-														pos: position{line: 2843, col: 21, offset: 90141},
+														pos: position{line: 2849, col: 21, offset: 90303},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2843, col: 21, offset: 90141},
+																pos: position{line: 2849, col: 21, offset: 90303},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 10, offset: 90753},
+																	pos: position{line: 2873, col: 10, offset: 90915},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2867, col: 10, offset: 90753},
+																		pos:        position{line: 2873, col: 10, offset: 90915},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49581,11 +49587,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2843, col: 28, offset: 90148},
+																pos: position{line: 2849, col: 28, offset: 90310},
 																expr: &notExpr{
-																	pos: position{line: 2886, col: 8, offset: 91101},
+																	pos: position{line: 2892, col: 8, offset: 91263},
 																	expr: &anyMatcher{
-																		line: 2886, col: 9, offset: 91102,
+																		line: 2892, col: 9, offset: 91264,
 																	},
 																},
 															},
@@ -49595,35 +49601,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 637, col: 5, offset: 20139},
+											pos: position{line: 643, col: 5, offset: 20301},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 637, col: 5, offset: 20139},
+												pos: position{line: 643, col: 5, offset: 20301},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 637, col: 5, offset: 20139},
+														pos: position{line: 643, col: 5, offset: 20301},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 640, col: 5, offset: 20211},
+														pos:   position{line: 646, col: 5, offset: 20373},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 640, col: 14, offset: 20220},
+															pos: position{line: 646, col: 14, offset: 20382},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20349},
+																	pos: position{line: 652, col: 5, offset: 20511},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20349},
+																		pos: position{line: 652, col: 5, offset: 20511},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 646, col: 5, offset: 20349},
+																				pos:        position{line: 652, col: 5, offset: 20511},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 13, offset: 20357},
+																				pos:   position{line: 652, col: 13, offset: 20519},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49655,7 +49661,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 646, col: 32, offset: 20376},
+																				pos:        position{line: 652, col: 32, offset: 20538},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49664,19 +49670,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 653, col: 5, offset: 20617},
+																	pos: position{line: 659, col: 5, offset: 20779},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 653, col: 5, offset: 20617},
+																		pos: position{line: 659, col: 5, offset: 20779},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 653, col: 5, offset: 20617},
+																				pos:        position{line: 659, col: 5, offset: 20779},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 653, col: 9, offset: 20621},
+																				pos:   position{line: 659, col: 9, offset: 20783},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49708,7 +49714,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 653, col: 28, offset: 20640},
+																				pos:        position{line: 659, col: 28, offset: 20802},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49717,19 +49723,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 25, offset: 20821},
+																	pos: position{line: 665, col: 25, offset: 20983},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 25, offset: 20821},
+																		pos: position{line: 665, col: 25, offset: 20983},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 25, offset: 20821},
+																				pos:        position{line: 665, col: 25, offset: 20983},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 37, offset: 20833},
+																				pos:   position{line: 665, col: 37, offset: 20995},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49761,33 +49767,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 56, offset: 20852},
+																				pos:   position{line: 665, col: 56, offset: 21014},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 659, col: 62, offset: 20858},
+																					pos: position{line: 665, col: 62, offset: 21020},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21153},
+																							pos: position{line: 673, col: 17, offset: 21315},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21153},
+																									pos:        position{line: 673, col: 17, offset: 21315},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21157},
+																									pos:   position{line: 673, col: 21, offset: 21319},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21164},
+																													pos:        position{line: 673, col: 28, offset: 21326},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49795,12 +49801,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21218},
+																													pos: position{line: 675, col: 9, offset: 21380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21218},
+																														pos:        position{line: 675, col: 9, offset: 21380},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49817,7 +49823,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 78, offset: 20874},
+																				pos:        position{line: 665, col: 78, offset: 21036},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49826,19 +49832,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 663, col: 25, offset: 20992},
+																	pos: position{line: 669, col: 25, offset: 21154},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 663, col: 25, offset: 20992},
+																		pos: position{line: 669, col: 25, offset: 21154},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 663, col: 25, offset: 20992},
+																				pos:        position{line: 669, col: 25, offset: 21154},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 38, offset: 21005},
+																				pos:   position{line: 669, col: 38, offset: 21167},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49870,33 +49876,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 663, col: 57, offset: 21024},
+																				pos:   position{line: 669, col: 57, offset: 21186},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 663, col: 63, offset: 21030},
+																					pos: position{line: 669, col: 63, offset: 21192},
 																					expr: &actionExpr{
-																						pos: position{line: 667, col: 17, offset: 21153},
+																						pos: position{line: 673, col: 17, offset: 21315},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 667, col: 17, offset: 21153},
+																							pos: position{line: 673, col: 17, offset: 21315},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 667, col: 17, offset: 21153},
+																									pos:        position{line: 673, col: 17, offset: 21315},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 667, col: 21, offset: 21157},
+																									pos:   position{line: 673, col: 21, offset: 21319},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 667, col: 28, offset: 21164},
+																										pos: position{line: 673, col: 28, offset: 21326},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 667, col: 28, offset: 21164},
+																												pos: position{line: 673, col: 28, offset: 21326},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 28, offset: 21164},
+																													pos:        position{line: 673, col: 28, offset: 21326},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49904,12 +49910,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 9, offset: 21218},
+																												pos: position{line: 675, col: 9, offset: 21380},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 669, col: 9, offset: 21218},
+																													pos: position{line: 675, col: 9, offset: 21380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 669, col: 9, offset: 21218},
+																														pos:        position{line: 675, col: 9, offset: 21380},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49926,7 +49932,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 663, col: 79, offset: 21046},
+																				pos:        position{line: 669, col: 79, offset: 21208},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49941,27 +49947,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1207, col: 23, offset: 37227},
+											pos: position{line: 1213, col: 23, offset: 37389},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1207, col: 23, offset: 37227},
+												pos: position{line: 1213, col: 23, offset: 37389},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37195},
+														pos:        position{line: 1211, col: 32, offset: 37357},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1207, col: 51, offset: 37255},
+														pos:   position{line: 1213, col: 51, offset: 37417},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1207, col: 56, offset: 37260},
+															pos: position{line: 1213, col: 56, offset: 37422},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1207, col: 56, offset: 37260},
+																pos: position{line: 1213, col: 56, offset: 37422},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1207, col: 56, offset: 37260},
+																	pos:        position{line: 1213, col: 56, offset: 37422},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49971,7 +49977,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1205, col: 32, offset: 37195},
+														pos:        position{line: 1211, col: 32, offset: 37357},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -49980,10 +49986,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2846, col: 11, offset: 90268},
+											pos: position{line: 2852, col: 11, offset: 90430},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2846, col: 11, offset: 90268},
+												pos:        position{line: 2852, col: 11, offset: 90430},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -57093,6 +57099,9 @@ func (p *parser) callonAttributeValue1() (interface{}, error) {
 }
 
 func (c *current) onSingleQuotedAttributeValue1(content interface{}) (interface{}, error) {
+	if content == nil {
+		return "", nil // empty value
+	}
 	return content, nil
 
 }
@@ -57353,19 +57362,22 @@ func (p *parser) callonSingleQuotedAttributeValueContent1() (interface{}, error)
 	return p.cur.onSingleQuotedAttributeValueContent1(stack["elements"])
 }
 
-func (c *current) onDoubleQuotedAttributeValue13() (interface{}, error) {
+func (c *current) onDoubleQuotedAttributeValue14() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDoubleQuotedAttributeValue13() (interface{}, error) {
+func (p *parser) callonDoubleQuotedAttributeValue14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDoubleQuotedAttributeValue13()
+	return p.cur.onDoubleQuotedAttributeValue14()
 }
 
 func (c *current) onDoubleQuotedAttributeValue1(content interface{}) (interface{}, error) {
+	if content == nil {
+		return "", nil // empty value
+	}
 	return content, nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b9625de..b968427 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -563,8 +563,11 @@ AttributeValue <-
 
 SingleQuotedAttributeValue <- 
     "'" !"`" // prevent entering when the value is a quoted string (eg: '`cookie`')
-    content:(SingleQuotedAttributeValueContent)
+    content:(SingleQuotedAttributeValueContent)?
     "'" {
+        if content == nil {
+            return "", nil // empty value
+        }
         return content, nil
     }
 
@@ -589,8 +592,11 @@ SingleQuotedAttributeValueContent <-
 
 DoubleQuotedAttributeValue <- 
     "\"" !"`" // prevent entering when the value is a quoted string (eg: "`cookie`")
-    content:(DoubleQuotedAttributeValueContent)
+    content:(DoubleQuotedAttributeValueContent)?
     "\"" &(!(Space* "=")) {
+        if content == nil {
+            return "", nil // empty value
+        }
         return content, nil
     }
 
-- 
2.43.0


From a92c318ca52ffa206cc9bc198ed9bd8caf80830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 077/117] fix: link to FTP and IRC locations

---
 pkg/parser/parser_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 7b34953..4b398f3 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -154,7 +154,7 @@ func (c *current) isInlineMacro(text string) bool {
 	default:
 		switch text {
 		// TODO: refine by checking is associated substitution is enabled?
-		case "http", "https", "mailto", "image", "link", "icon", "pass", "menu", "xref", "btn":
+		case "http", "https", "ftp", "irc", "mailto", "image", "link", "icon", "pass", "menu", "xref", "btn":
 			log.Debugf("invalid inline text: '%s' (conflicts with inline macro)", text)
 			return true
 		}
-- 
2.43.0


From 6d5d040dee5aa97a9e7723e334b874e961a5e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:16 +0000
Subject: [PATCH 078/117] fix: link whole email addresses

---
 pkg/parser/parser.go  | 13572 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     4 +-
 2 files changed, 6829 insertions(+), 6747 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index bfc7b1b..559ba43 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90742},
+																pos: position{line: 2865, col: 12, offset: 90774},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90743},
+																	pos: position{line: 2865, col: 13, offset: 90775},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90743},
+																			pos: position{line: 2865, col: 13, offset: 90775},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90743},
+																				pos:        position{line: 2865, col: 13, offset: 90775},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90748},
+																			pos: position{line: 2865, col: 18, offset: 90780},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90748},
+																				pos:        position{line: 2865, col: 18, offset: 90780},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90742},
+																pos: position{line: 2865, col: 12, offset: 90774},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90743},
+																	pos: position{line: 2865, col: 13, offset: 90775},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90743},
+																			pos: position{line: 2865, col: 13, offset: 90775},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90743},
+																				pos:        position{line: 2865, col: 13, offset: 90775},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90748},
+																			pos: position{line: 2865, col: 18, offset: 90780},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90748},
+																				pos:        position{line: 2865, col: 18, offset: 90780},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 731, col: 5, offset: 23253},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88010},
+														pos:        position{line: 2763, col: 13, offset: 88028},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23897},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24145},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 767, col: 52, offset: 24557},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 763, col: 8, offset: 24391},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 778, col: 8, offset: 24929},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25405},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25657},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25907},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 813, col: 8, offset: 26153},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 90976},
+													pos: position{line: 2877, col: 11, offset: 91008},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 90976},
+														pos: position{line: 2877, col: 11, offset: 91008},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 90976},
+															pos:        position{line: 2877, col: 11, offset: 91008},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2823, col: 14, offset: 89508},
+													pos: position{line: 2823, col: 14, offset: 89540},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89508},
+														pos: position{line: 2823, col: 14, offset: 89540},
 														expr: &charClassMatcher{
-															pos:        position{line: 2823, col: 14, offset: 89508},
+															pos:        position{line: 2823, col: 14, offset: 89540},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 17, offset: 89578},
+												pos: position{line: 2827, col: 17, offset: 89610},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2827, col: 17, offset: 89578},
+													pos:   position{line: 2827, col: 17, offset: 89610},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90742},
+																				pos: position{line: 2865, col: 12, offset: 90774},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90743},
+																					pos: position{line: 2865, col: 13, offset: 90775},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90743},
+																							pos: position{line: 2865, col: 13, offset: 90775},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90743},
+																								pos:        position{line: 2865, col: 13, offset: 90775},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90748},
+																							pos: position{line: 2865, col: 18, offset: 90780},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90748},
+																								pos:        position{line: 2865, col: 18, offset: 90780},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90742},
+																				pos: position{line: 2865, col: 12, offset: 90774},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90743},
+																					pos: position{line: 2865, col: 13, offset: 90775},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90743},
+																							pos: position{line: 2865, col: 13, offset: 90775},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90743},
+																								pos:        position{line: 2865, col: 13, offset: 90775},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90748},
+																							pos: position{line: 2865, col: 18, offset: 90780},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90748},
+																								pos:        position{line: 2865, col: 18, offset: 90780},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90742},
+																		pos: position{line: 2865, col: 12, offset: 90774},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90743},
+																			pos: position{line: 2865, col: 13, offset: 90775},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90743},
+																					pos: position{line: 2865, col: 13, offset: 90775},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90743},
+																						pos:        position{line: 2865, col: 13, offset: 90775},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90748},
+																					pos: position{line: 2865, col: 18, offset: 90780},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90748},
+																						pos:        position{line: 2865, col: 18, offset: 90780},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90742},
+																									pos: position{line: 2865, col: 12, offset: 90774},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90743},
+																										pos: position{line: 2865, col: 13, offset: 90775},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90743},
+																												pos: position{line: 2865, col: 13, offset: 90775},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90743},
+																													pos:        position{line: 2865, col: 13, offset: 90775},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90748},
+																												pos: position{line: 2865, col: 18, offset: 90780},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90748},
+																													pos:        position{line: 2865, col: 18, offset: 90780},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90742},
+																									pos: position{line: 2865, col: 12, offset: 90774},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90743},
+																										pos: position{line: 2865, col: 13, offset: 90775},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90743},
+																												pos: position{line: 2865, col: 13, offset: 90775},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90743},
+																													pos:        position{line: 2865, col: 13, offset: 90775},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90748},
+																												pos: position{line: 2865, col: 18, offset: 90780},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90748},
+																													pos:        position{line: 2865, col: 18, offset: 90780},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 12, offset: 90742},
+																							pos: position{line: 2865, col: 12, offset: 90774},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2865, col: 13, offset: 90743},
+																								pos: position{line: 2865, col: 13, offset: 90775},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2865, col: 13, offset: 90743},
+																										pos: position{line: 2865, col: 13, offset: 90775},
 																										expr: &litMatcher{
-																											pos:        position{line: 2865, col: 13, offset: 90743},
+																											pos:        position{line: 2865, col: 13, offset: 90775},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2865, col: 18, offset: 90748},
+																										pos: position{line: 2865, col: 18, offset: 90780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 18, offset: 90748},
+																											pos:        position{line: 2865, col: 18, offset: 90780},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90742},
+														pos: position{line: 2865, col: 12, offset: 90774},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90743},
+															pos: position{line: 2865, col: 13, offset: 90775},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90743},
+																	pos: position{line: 2865, col: 13, offset: 90775},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90743},
+																		pos:        position{line: 2865, col: 13, offset: 90775},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90748},
+																	pos: position{line: 2865, col: 18, offset: 90780},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90748},
+																		pos:        position{line: 2865, col: 18, offset: 90780},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90742},
+														pos: position{line: 2865, col: 12, offset: 90774},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90743},
+															pos: position{line: 2865, col: 13, offset: 90775},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90743},
+																	pos: position{line: 2865, col: 13, offset: 90775},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90743},
+																		pos:        position{line: 2865, col: 13, offset: 90775},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90748},
+																	pos: position{line: 2865, col: 18, offset: 90780},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90748},
+																		pos:        position{line: 2865, col: 18, offset: 90780},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 12, offset: 90742},
+												pos: position{line: 2865, col: 12, offset: 90774},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2865, col: 13, offset: 90743},
+													pos: position{line: 2865, col: 13, offset: 90775},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2865, col: 13, offset: 90743},
+															pos: position{line: 2865, col: 13, offset: 90775},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 13, offset: 90743},
+																pos:        position{line: 2865, col: 13, offset: 90775},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2865, col: 18, offset: 90748},
+															pos: position{line: 2865, col: 18, offset: 90780},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 18, offset: 90748},
+																pos:        position{line: 2865, col: 18, offset: 90780},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2767, col: 14, offset: 88084},
+																		pos: position{line: 2767, col: 14, offset: 88102},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2767, col: 14, offset: 88084},
+																			pos: position{line: 2767, col: 14, offset: 88102},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2767, col: 14, offset: 88084},
+																				pos:        position{line: 2767, col: 14, offset: 88102},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 88084},
+																				pos: position{line: 2767, col: 14, offset: 88102},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 88084},
+																					pos: position{line: 2767, col: 14, offset: 88102},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 88084},
+																						pos:        position{line: 2767, col: 14, offset: 88102},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2767, col: 14, offset: 88084},
+																							pos: position{line: 2767, col: 14, offset: 88102},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2767, col: 14, offset: 88084},
+																								pos: position{line: 2767, col: 14, offset: 88102},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2767, col: 14, offset: 88084},
+																									pos:        position{line: 2767, col: 14, offset: 88102},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2767, col: 14, offset: 88084},
+																									pos: position{line: 2767, col: 14, offset: 88102},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2767, col: 14, offset: 88084},
+																										pos: position{line: 2767, col: 14, offset: 88102},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2767, col: 14, offset: 88084},
+																											pos:        position{line: 2767, col: 14, offset: 88102},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 88084},
+																pos: position{line: 2767, col: 14, offset: 88102},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 88084},
+																	pos: position{line: 2767, col: 14, offset: 88102},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 88084},
+																		pos:        position{line: 2767, col: 14, offset: 88102},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 88084},
+																pos: position{line: 2767, col: 14, offset: 88102},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 88084},
+																	pos: position{line: 2767, col: 14, offset: 88102},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 88084},
+																		pos:        position{line: 2767, col: 14, offset: 88102},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 684, col: 14, offset: 21681},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2890, col: 11, offset: 91249},
+														pos: position{line: 2890, col: 11, offset: 91281},
 														expr: &anyMatcher{
-															line: 2890, col: 13, offset: 91251,
+															line: 2890, col: 13, offset: 91283,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 684, col: 21, offset: 21688},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23897},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23897},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23897},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24145},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24145},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 767, col: 52, offset: 24557},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 978, col: 40, offset: 30566},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 978, col: 40, offset: 30566},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 763, col: 8, offset: 24391},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 763, col: 8, offset: 24391},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24929},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 778, col: 8, offset: 24929},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25405},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25405},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 684, col: 14, offset: 21681},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 684, col: 21, offset: 21688},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 999, col: 5, offset: 31101},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89508},
+																			pos: position{line: 2823, col: 14, offset: 89540},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89508},
+																				pos: position{line: 2823, col: 14, offset: 89540},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89508},
+																					pos:        position{line: 2823, col: 14, offset: 89540},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 684, col: 14, offset: 21681},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2890, col: 11, offset: 91249},
+																									pos: position{line: 2890, col: 11, offset: 91281},
 																									expr: &anyMatcher{
-																										line: 2890, col: 13, offset: 91251,
+																										line: 2890, col: 13, offset: 91283,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 684, col: 21, offset: 21688},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 999, col: 5, offset: 31101},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89508},
+																						pos: position{line: 2823, col: 14, offset: 89540},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89508},
+																							pos: position{line: 2823, col: 14, offset: 89540},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89508},
+																								pos:        position{line: 2823, col: 14, offset: 89540},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1805, col: 5, offset: 58284},
+																		pos: position{line: 1805, col: 5, offset: 58302},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1805, col: 5, offset: 58284},
+																			pos: position{line: 1805, col: 5, offset: 58302},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1805, col: 5, offset: 58284},
+																					pos:   position{line: 1805, col: 5, offset: 58302},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89508},
+																						pos: position{line: 2823, col: 14, offset: 89540},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89508},
+																							pos: position{line: 2823, col: 14, offset: 89540},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89508},
+																								pos:        position{line: 2823, col: 14, offset: 89540},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1806, col: 5, offset: 58308},
+																					pos: position{line: 1806, col: 5, offset: 58326},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 785, col: 8, offset: 25160},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 785, col: 8, offset: 25160},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25657},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25657},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25907},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25907},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 813, col: 8, offset: 26153},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 813, col: 8, offset: 26153},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2718, col: 18, offset: 86505},
+											pos: position{line: 2718, col: 18, offset: 86523},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2719, col: 9, offset: 86515},
+												pos: position{line: 2719, col: 9, offset: 86533},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2719, col: 9, offset: 86515},
+														pos: position{line: 2719, col: 9, offset: 86533},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2719, col: 9, offset: 86515},
+																pos:        position{line: 2719, col: 9, offset: 86533},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2719, col: 15, offset: 86521},
+																pos: position{line: 2719, col: 15, offset: 86539},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2720, col: 11, offset: 86554},
+														pos: position{line: 2720, col: 11, offset: 86572},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2720, col: 12, offset: 86555},
+																pos: position{line: 2720, col: 12, offset: 86573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 12, offset: 86555},
+																		pos:        position{line: 2720, col: 12, offset: 86573},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 20, offset: 86563},
+																		pos:        position{line: 2720, col: 20, offset: 86581},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 30, offset: 86573},
+																		pos:        position{line: 2720, col: 30, offset: 86591},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 38, offset: 86581},
+																		pos:        position{line: 2720, col: 38, offset: 86599},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 48, offset: 86591},
+																		pos:        position{line: 2720, col: 48, offset: 86609},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 56, offset: 86599},
+																		pos:        position{line: 2720, col: 56, offset: 86617},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2720, col: 65, offset: 86608},
+																pos: position{line: 2720, col: 65, offset: 86626},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2720, col: 76, offset: 86619},
+																pos: position{line: 2720, col: 76, offset: 86637},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 5, offset: 83441},
+											pos: position{line: 2609, col: 5, offset: 83459},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2609, col: 5, offset: 83441},
+												pos: position{line: 2609, col: 5, offset: 83459},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2615, col: 19, offset: 83598},
+														pos:        position{line: 2615, col: 19, offset: 83616},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2615, col: 26, offset: 83605},
+														pos: position{line: 2615, col: 26, offset: 83623},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2610, col: 5, offset: 83465},
+														pos:   position{line: 2610, col: 5, offset: 83483},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2610, col: 11, offset: 83471},
+															pos: position{line: 2610, col: 11, offset: 83489},
 															expr: &choiceExpr{
-																pos: position{line: 2610, col: 12, offset: 83472},
+																pos: position{line: 2610, col: 12, offset: 83490},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 684, col: 14, offset: 21681},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91249},
+																					pos: position{line: 2890, col: 11, offset: 91281},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91251,
+																						line: 2890, col: 13, offset: 91283,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2622, col: 5, offset: 83717},
+																		pos: position{line: 2622, col: 5, offset: 83735},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2622, col: 5, offset: 83717},
+																			pos: position{line: 2622, col: 5, offset: 83735},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2622, col: 5, offset: 83717},
+																					pos: position{line: 2622, col: 5, offset: 83735},
 																					expr: &choiceExpr{
-																						pos: position{line: 2619, col: 22, offset: 83678},
+																						pos: position{line: 2619, col: 22, offset: 83696},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2615, col: 19, offset: 83598},
+																								pos: position{line: 2615, col: 19, offset: 83616},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2615, col: 19, offset: 83598},
+																										pos:        position{line: 2615, col: 19, offset: 83616},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2615, col: 26, offset: 83605},
+																										pos: position{line: 2615, col: 26, offset: 83623},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91313},
+																										pos: position{line: 2895, col: 8, offset: 91345},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91086},
+																												pos: position{line: 2882, col: 12, offset: 91118},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91087},
+																													pos: position{line: 2882, col: 13, offset: 91119},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91087},
+																															pos:        position{line: 2882, col: 13, offset: 91119},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91094},
+																															pos:        position{line: 2882, col: 20, offset: 91126},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91103},
+																															pos:        position{line: 2882, col: 29, offset: 91135},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91263},
+																												pos: position{line: 2892, col: 8, offset: 91295},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91264,
+																													line: 2892, col: 9, offset: 91296,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2623, col: 5, offset: 83740},
+																					pos:   position{line: 2623, col: 5, offset: 83758},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2624, col: 9, offset: 83758},
+																						pos: position{line: 2624, col: 9, offset: 83776},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2624, col: 10, offset: 83759},
+																								pos: position{line: 2624, col: 10, offset: 83777},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2624, col: 10, offset: 83759},
+																									pos:   position{line: 2624, col: 10, offset: 83777},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2624, col: 17, offset: 83766},
+																										pos: position{line: 2624, col: 17, offset: 83784},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2632, col: 21, offset: 83962},
+																												pos: position{line: 2632, col: 21, offset: 83980},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2632, col: 21, offset: 83962},
+																													pos: position{line: 2632, col: 21, offset: 83980},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2632, col: 21, offset: 83962},
+																															pos:   position{line: 2632, col: 21, offset: 83980},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2632, col: 27, offset: 83968},
+																																pos: position{line: 2632, col: 27, offset: 83986},
 																																expr: &actionExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84043},
+																																	pos: position{line: 2637, col: 5, offset: 84061},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2637, col: 5, offset: 84043},
+																																		pos: position{line: 2637, col: 5, offset: 84061},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2637, col: 5, offset: 84043},
+																																				pos:        position{line: 2637, col: 5, offset: 84061},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2637, col: 9, offset: 84047},
+																																				pos: position{line: 2637, col: 9, offset: 84065},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2873, col: 10, offset: 90915},
+																																					pos: position{line: 2873, col: 10, offset: 90947},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2873, col: 10, offset: 90915},
+																																						pos:        position{line: 2873, col: 10, offset: 90947},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2637, col: 16, offset: 84054},
+																																				pos:   position{line: 2637, col: 16, offset: 84072},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2643, col: 5, offset: 84254},
+																																					pos: position{line: 2643, col: 5, offset: 84272},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2643, col: 5, offset: 84254},
+																																						pos:   position{line: 2643, col: 5, offset: 84272},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84263},
+																																							pos: position{line: 2643, col: 14, offset: 84281},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2643, col: 14, offset: 84263},
+																																								pos: position{line: 2643, col: 14, offset: 84281},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2643, col: 14, offset: 84263},
+																																									pos:        position{line: 2643, col: 14, offset: 84281},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2895, col: 8, offset: 91313},
+																															pos: position{line: 2895, col: 8, offset: 91345},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2882, col: 12, offset: 91086},
+																																	pos: position{line: 2882, col: 12, offset: 91118},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2882, col: 13, offset: 91087},
+																																		pos: position{line: 2882, col: 13, offset: 91119},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 13, offset: 91087},
+																																				pos:        position{line: 2882, col: 13, offset: 91119},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 20, offset: 91094},
+																																				pos:        position{line: 2882, col: 20, offset: 91126},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 29, offset: 91103},
+																																				pos:        position{line: 2882, col: 29, offset: 91135},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2892, col: 8, offset: 91263},
+																																	pos: position{line: 2892, col: 8, offset: 91295},
 																																	expr: &anyMatcher{
-																																		line: 2892, col: 9, offset: 91264,
+																																		line: 2892, col: 9, offset: 91296,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2649, col: 24, offset: 84399},
+																												pos: position{line: 2649, col: 24, offset: 84417},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2649, col: 24, offset: 84399},
+																													pos:   position{line: 2649, col: 24, offset: 84417},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2649, col: 30, offset: 84405},
+																														pos: position{line: 2649, col: 30, offset: 84423},
 																														expr: &actionExpr{
-																															pos: position{line: 2654, col: 5, offset: 84481},
+																															pos: position{line: 2654, col: 5, offset: 84499},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2654, col: 5, offset: 84481},
+																																pos: position{line: 2654, col: 5, offset: 84499},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84481},
+																																		pos: position{line: 2654, col: 5, offset: 84499},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2619, col: 22, offset: 83678},
+																																			pos: position{line: 2619, col: 22, offset: 83696},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2615, col: 19, offset: 83598},
+																																					pos: position{line: 2615, col: 19, offset: 83616},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2615, col: 19, offset: 83598},
+																																							pos:        position{line: 2615, col: 19, offset: 83616},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2615, col: 26, offset: 83605},
+																																							pos: position{line: 2615, col: 26, offset: 83623},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2873, col: 10, offset: 90915},
+																																								pos: position{line: 2873, col: 10, offset: 90947},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2873, col: 10, offset: 90915},
+																																									pos:        position{line: 2873, col: 10, offset: 90947},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91313},
+																																							pos: position{line: 2895, col: 8, offset: 91345},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91086},
+																																									pos: position{line: 2882, col: 12, offset: 91118},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91087},
+																																										pos: position{line: 2882, col: 13, offset: 91119},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91087},
+																																												pos:        position{line: 2882, col: 13, offset: 91119},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91094},
+																																												pos:        position{line: 2882, col: 20, offset: 91126},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91103},
+																																												pos:        position{line: 2882, col: 29, offset: 91135},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91263},
+																																									pos: position{line: 2892, col: 8, offset: 91295},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91264,
+																																										line: 2892, col: 9, offset: 91296,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2892, col: 8, offset: 91263},
+																																					pos: position{line: 2892, col: 8, offset: 91295},
 																																					expr: &anyMatcher{
-																																						line: 2892, col: 9, offset: 91264,
+																																						line: 2892, col: 9, offset: 91296,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84504},
+																																		pos: position{line: 2655, col: 5, offset: 84522},
 																																		expr: &actionExpr{
 																																			pos: position{line: 684, col: 14, offset: 21681},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 684, col: 14, offset: 21681},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2890, col: 11, offset: 91249},
+																																						pos: position{line: 2890, col: 11, offset: 91281},
 																																						expr: &anyMatcher{
-																																							line: 2890, col: 13, offset: 91251,
+																																							line: 2890, col: 13, offset: 91283,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 684, col: 21, offset: 21688},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90915},
+																																							pos: position{line: 2873, col: 10, offset: 90947},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90915},
+																																								pos:        position{line: 2873, col: 10, offset: 90947},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91313},
+																																						pos: position{line: 2895, col: 8, offset: 91345},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91086},
+																																								pos: position{line: 2882, col: 12, offset: 91118},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91087},
+																																									pos: position{line: 2882, col: 13, offset: 91119},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91087},
+																																											pos:        position{line: 2882, col: 13, offset: 91119},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91094},
+																																											pos:        position{line: 2882, col: 20, offset: 91126},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91103},
+																																											pos:        position{line: 2882, col: 29, offset: 91135},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91263},
+																																								pos: position{line: 2892, col: 8, offset: 91295},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91264,
+																																									line: 2892, col: 9, offset: 91296,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 5, offset: 84519},
+																																		pos:   position{line: 2656, col: 5, offset: 84537},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2656, col: 12, offset: 84526},
+																																			pos: position{line: 2656, col: 12, offset: 84544},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 20, offset: 84990},
+																																				pos: position{line: 2673, col: 20, offset: 85008},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2673, col: 20, offset: 84990},
+																																					pos: position{line: 2673, col: 20, offset: 85008},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2673, col: 20, offset: 84990},
+																																						pos:        position{line: 2673, col: 20, offset: 85008},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2656, col: 31, offset: 84545},
+																																		pos:        position{line: 2656, col: 31, offset: 84563},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2656, col: 35, offset: 84549},
+																																		pos: position{line: 2656, col: 35, offset: 84567},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2873, col: 10, offset: 90915},
+																																			pos: position{line: 2873, col: 10, offset: 90947},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2873, col: 10, offset: 90915},
+																																				pos:        position{line: 2873, col: 10, offset: 90947},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 42, offset: 84556},
+																																		pos: position{line: 2656, col: 42, offset: 84574},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2882, col: 12, offset: 91086},
+																																			pos: position{line: 2882, col: 12, offset: 91118},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2882, col: 13, offset: 91087},
+																																				pos: position{line: 2882, col: 13, offset: 91119},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 13, offset: 91087},
+																																						pos:        position{line: 2882, col: 13, offset: 91119},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 20, offset: 91094},
+																																						pos:        position{line: 2882, col: 20, offset: 91126},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 29, offset: 91103},
+																																						pos:        position{line: 2882, col: 29, offset: 91135},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 51, offset: 84565},
+																																		pos:   position{line: 2656, col: 51, offset: 84583},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2662, col: 5, offset: 84724},
+																																			pos: position{line: 2662, col: 5, offset: 84742},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84734},
+																																				pos: position{line: 2663, col: 9, offset: 84752},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2663, col: 9, offset: 84734},
+																																					pos: position{line: 2663, col: 9, offset: 84752},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2663, col: 9, offset: 84734},
+																																							pos: position{line: 2663, col: 9, offset: 84752},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2619, col: 22, offset: 83678},
+																																								pos: position{line: 2619, col: 22, offset: 83696},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2615, col: 19, offset: 83598},
+																																										pos: position{line: 2615, col: 19, offset: 83616},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2615, col: 19, offset: 83598},
+																																												pos:        position{line: 2615, col: 19, offset: 83616},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2615, col: 26, offset: 83605},
+																																												pos: position{line: 2615, col: 26, offset: 83623},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2873, col: 10, offset: 90915},
+																																													pos: position{line: 2873, col: 10, offset: 90947},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2873, col: 10, offset: 90915},
+																																														pos:        position{line: 2873, col: 10, offset: 90947},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91313},
+																																												pos: position{line: 2895, col: 8, offset: 91345},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2882, col: 12, offset: 91086},
+																																														pos: position{line: 2882, col: 12, offset: 91118},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2882, col: 13, offset: 91087},
+																																															pos: position{line: 2882, col: 13, offset: 91119},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2892, col: 8, offset: 91263},
+																																														pos: position{line: 2892, col: 8, offset: 91295},
 																																														expr: &anyMatcher{
-																																															line: 2892, col: 9, offset: 91264,
+																																															line: 2892, col: 9, offset: 91296,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91263},
+																																										pos: position{line: 2892, col: 8, offset: 91295},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91264,
+																																											line: 2892, col: 9, offset: 91296,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84761},
+																																							pos: position{line: 2664, col: 9, offset: 84779},
 																																							expr: &actionExpr{
 																																								pos: position{line: 684, col: 14, offset: 21681},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 684, col: 14, offset: 21681},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2890, col: 11, offset: 91249},
+																																											pos: position{line: 2890, col: 11, offset: 91281},
 																																											expr: &anyMatcher{
-																																												line: 2890, col: 13, offset: 91251,
+																																												line: 2890, col: 13, offset: 91283,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 684, col: 21, offset: 21688},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90915},
+																																												pos: position{line: 2873, col: 10, offset: 90947},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90915},
+																																													pos:        position{line: 2873, col: 10, offset: 90947},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91313},
+																																											pos: position{line: 2895, col: 8, offset: 91345},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91086},
+																																													pos: position{line: 2882, col: 12, offset: 91118},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91087},
+																																														pos: position{line: 2882, col: 13, offset: 91119},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91263},
+																																													pos: position{line: 2892, col: 8, offset: 91295},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91264,
+																																														line: 2892, col: 9, offset: 91296,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84780},
+																																							pos: position{line: 2665, col: 9, offset: 84798},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2665, col: 11, offset: 84782},
+																																								pos: position{line: 2665, col: 11, offset: 84800},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2665, col: 11, offset: 84782},
+																																										pos:   position{line: 2665, col: 11, offset: 84800},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2665, col: 18, offset: 84789},
+																																											pos: position{line: 2665, col: 18, offset: 84807},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2673, col: 20, offset: 84990},
+																																												pos: position{line: 2673, col: 20, offset: 85008},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2673, col: 20, offset: 84990},
+																																													pos: position{line: 2673, col: 20, offset: 85008},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2673, col: 20, offset: 84990},
+																																														pos:        position{line: 2673, col: 20, offset: 85008},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2665, col: 37, offset: 84808},
+																																										pos:        position{line: 2665, col: 37, offset: 84826},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2666, col: 9, offset: 84821},
+																																							pos:   position{line: 2666, col: 9, offset: 84839},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84830},
+																																								pos: position{line: 2666, col: 18, offset: 84848},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2666, col: 18, offset: 84830},
+																																									pos: position{line: 2666, col: 18, offset: 84848},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2666, col: 18, offset: 84830},
+																																										pos:        position{line: 2666, col: 18, offset: 84848},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2668, col: 12, offset: 84892},
+																																							pos: position{line: 2668, col: 12, offset: 84910},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91313},
+																																								pos: position{line: 2895, col: 8, offset: 91345},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2882, col: 12, offset: 91086},
+																																										pos: position{line: 2882, col: 12, offset: 91118},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2882, col: 13, offset: 91087},
+																																											pos: position{line: 2882, col: 13, offset: 91119},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 13, offset: 91087},
+																																													pos:        position{line: 2882, col: 13, offset: 91119},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 20, offset: 91094},
+																																													pos:        position{line: 2882, col: 20, offset: 91126},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 29, offset: 91103},
+																																													pos:        position{line: 2882, col: 29, offset: 91135},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91263},
+																																										pos: position{line: 2892, col: 8, offset: 91295},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91264,
+																																											line: 2892, col: 9, offset: 91296,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 684, col: 14, offset: 21681},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91249},
+																											pos: position{line: 2890, col: 11, offset: 91281},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91251,
+																												line: 2890, col: 13, offset: 91283,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 684, col: 21, offset: 21688},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 22, offset: 83678},
+														pos: position{line: 2619, col: 22, offset: 83696},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83598},
+																pos: position{line: 2615, col: 19, offset: 83616},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83598},
+																		pos:        position{line: 2615, col: 19, offset: 83616},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83605},
+																		pos: position{line: 2615, col: 26, offset: 83623},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79900},
+												pos: position{line: 2483, col: 22, offset: 79918},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80121},
+														pos:        position{line: 2488, col: 31, offset: 80139},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80126},
+														pos: position{line: 2488, col: 36, offset: 80144},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80127},
+															pos:        position{line: 2488, col: 37, offset: 80145},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79927},
+														pos:   position{line: 2483, col: 49, offset: 79945},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89441},
+																pos: position{line: 2819, col: 13, offset: 89473},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89441},
+																	pos:        position{line: 2819, col: 13, offset: 89473},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1254, col: 36, offset: 38706},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1254, col: 36, offset: 38706},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91313},
+																										pos: position{line: 2895, col: 8, offset: 91345},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91086},
+																												pos: position{line: 2882, col: 12, offset: 91118},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91087},
+																													pos: position{line: 2882, col: 13, offset: 91119},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91087},
+																															pos:        position{line: 2882, col: 13, offset: 91119},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91094},
+																															pos:        position{line: 2882, col: 20, offset: 91126},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91103},
+																															pos:        position{line: 2882, col: 29, offset: 91135},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91263},
+																												pos: position{line: 2892, col: 8, offset: 91295},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91264,
+																													line: 2892, col: 9, offset: 91296,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1254, col: 36, offset: 38706},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2877, col: 11, offset: 90976},
+												pos: position{line: 2877, col: 11, offset: 91008},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 11, offset: 90976},
+													pos: position{line: 2877, col: 11, offset: 91008},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 11, offset: 90976},
+														pos:        position{line: 2877, col: 11, offset: 91008},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91086},
+												pos: position{line: 2882, col: 12, offset: 91118},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91087},
+													pos: position{line: 2882, col: 13, offset: 91119},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91087},
+															pos:        position{line: 2882, col: 13, offset: 91119},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91094},
+															pos:        position{line: 2882, col: 20, offset: 91126},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91103},
+															pos:        position{line: 2882, col: 29, offset: 91135},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9944},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90915},
+													pos: position{line: 2873, col: 10, offset: 90947},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90915},
+														pos:        position{line: 2873, col: 10, offset: 90947},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10489},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90915},
+											pos: position{line: 2873, col: 10, offset: 90947},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90915},
+												pos:        position{line: 2873, col: 10, offset: 90947},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2895, col: 8, offset: 91313},
+										pos: position{line: 2895, col: 8, offset: 91345},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91086},
+												pos: position{line: 2882, col: 12, offset: 91118},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91087},
+													pos: position{line: 2882, col: 13, offset: 91119},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91087},
+															pos:        position{line: 2882, col: 13, offset: 91119},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91094},
+															pos:        position{line: 2882, col: 20, offset: 91126},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91103},
+															pos:        position{line: 2882, col: 29, offset: 91135},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91263},
+												pos: position{line: 2892, col: 8, offset: 91295},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91264,
+													line: 2892, col: 9, offset: 91296,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79446},
+										pos: position{line: 2470, col: 5, offset: 79464},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79446},
+													pos: position{line: 2470, col: 5, offset: 79464},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79522},
+													pos:   position{line: 2473, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79540},
+														pos: position{line: 2474, col: 9, offset: 79558},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79541},
+															pos:        position{line: 2474, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90915},
+										pos: position{line: 2873, col: 10, offset: 90947},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90915},
+											pos:        position{line: 2873, col: 10, offset: 90947},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90915},
+													pos: position{line: 2873, col: 10, offset: 90947},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90915},
+														pos:        position{line: 2873, col: 10, offset: 90947},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91313},
+												pos: position{line: 2895, col: 8, offset: 91345},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91086},
+														pos: position{line: 2882, col: 12, offset: 91118},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91087},
+															pos: position{line: 2882, col: 13, offset: 91119},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91087},
+																	pos:        position{line: 2882, col: 13, offset: 91119},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91094},
+																	pos:        position{line: 2882, col: 20, offset: 91126},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91103},
+																	pos:        position{line: 2882, col: 29, offset: 91135},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91263},
+														pos: position{line: 2892, col: 8, offset: 91295},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91264,
+															line: 2892, col: 9, offset: 91296,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13074},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 88084},
+																				pos: position{line: 2767, col: 14, offset: 88102},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 88084},
+																					pos: position{line: 2767, col: 14, offset: 88102},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 88084},
+																						pos:        position{line: 2767, col: 14, offset: 88102},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2790, col: 5, offset: 88569},
+																				pos: position{line: 2790, col: 5, offset: 88601},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2791, col: 9, offset: 88579},
+																					pos: position{line: 2791, col: 9, offset: 88611},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 10, offset: 88580},
+																							pos:        position{line: 2791, col: 10, offset: 88612},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 13, offset: 88677},
+																							pos: position{line: 2793, col: 13, offset: 88709},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2793, col: 13, offset: 88677},
+																									pos: position{line: 2793, col: 13, offset: 88709},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2796, col: 13, offset: 88777},
+																									pos:        position{line: 2796, col: 13, offset: 88809},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2796, col: 19, offset: 88783},
+																							pos:        position{line: 2796, col: 19, offset: 88815},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2799, col: 13, offset: 88821},
+																							pos: position{line: 2799, col: 13, offset: 88853},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2799, col: 13, offset: 88821},
+																									pos: position{line: 2799, col: 13, offset: 88853},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2802, col: 14, offset: 88914},
+																									pos:        position{line: 2802, col: 14, offset: 88946},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2804, col: 12, offset: 88958},
+																							pos: position{line: 2804, col: 12, offset: 88990},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2804, col: 12, offset: 88958},
+																									pos:        position{line: 2804, col: 12, offset: 88990},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2804, col: 16, offset: 88962},
+																									pos: position{line: 2804, col: 16, offset: 88994},
 																									expr: &litMatcher{
-																										pos:        position{line: 2804, col: 17, offset: 88963},
+																										pos:        position{line: 2804, col: 17, offset: 88995},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2812, col: 12, offset: 89223},
+																				pos: position{line: 2812, col: 12, offset: 89255},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 12, offset: 89223},
+																					pos:        position{line: 2812, col: 12, offset: 89255},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90915},
+													pos: position{line: 2873, col: 10, offset: 90947},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90915},
+														pos:        position{line: 2873, col: 10, offset: 90947},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91313},
+												pos: position{line: 2895, col: 8, offset: 91345},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91086},
+														pos: position{line: 2882, col: 12, offset: 91118},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91087},
+															pos: position{line: 2882, col: 13, offset: 91119},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91087},
+																	pos:        position{line: 2882, col: 13, offset: 91119},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91094},
+																	pos:        position{line: 2882, col: 20, offset: 91126},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91103},
+																	pos:        position{line: 2882, col: 29, offset: 91135},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91263},
+														pos: position{line: 2892, col: 8, offset: 91295},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91264,
+															line: 2892, col: 9, offset: 91296,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90915},
+													pos: position{line: 2873, col: 10, offset: 90947},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90915},
+														pos:        position{line: 2873, col: 10, offset: 90947},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91313},
+												pos: position{line: 2895, col: 8, offset: 91345},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91086},
+														pos: position{line: 2882, col: 12, offset: 91118},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91087},
+															pos: position{line: 2882, col: 13, offset: 91119},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91087},
+																	pos:        position{line: 2882, col: 13, offset: 91119},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91094},
+																	pos:        position{line: 2882, col: 20, offset: 91126},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91103},
+																	pos:        position{line: 2882, col: 29, offset: 91135},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91263},
+														pos: position{line: 2892, col: 8, offset: 91295},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91264,
+															line: 2892, col: 9, offset: 91296,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14561},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90915},
+											pos: position{line: 2873, col: 10, offset: 90947},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90915},
+												pos:        position{line: 2873, col: 10, offset: 90947},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16143},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16286},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16450},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90915},
+													pos: position{line: 2873, col: 10, offset: 90947},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90915},
+														pos:        position{line: 2873, col: 10, offset: 90947},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16463},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17110},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90915},
+												pos: position{line: 2873, col: 10, offset: 90947},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90915},
+													pos:        position{line: 2873, col: 10, offset: 90947},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16855},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13705,10 +13705,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 33, offset: 16895},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90915},
+											pos: position{line: 2873, col: 10, offset: 90947},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90915},
+												pos:        position{line: 2873, col: 10, offset: 90947},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13763,10 +13763,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17327},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90915},
+												pos: position{line: 2873, col: 10, offset: 90947},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90915},
+													pos:        position{line: 2873, col: 10, offset: 90947},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13848,12 +13848,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17725},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88084},
+									pos: position{line: 2767, col: 14, offset: 88102},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88084},
+										pos: position{line: 2767, col: 14, offset: 88102},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88084},
+											pos:        position{line: 2767, col: 14, offset: 88102},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13862,10 +13862,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90915},
+									pos: position{line: 2873, col: 10, offset: 90947},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90915},
+										pos:        position{line: 2873, col: 10, offset: 90947},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14325,10 +14325,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18466},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90915},
+												pos: position{line: 2873, col: 10, offset: 90947},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90915},
+													pos:        position{line: 2873, col: 10, offset: 90947},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14365,12 +14365,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18657},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88084},
+									pos: position{line: 2767, col: 14, offset: 88102},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88084},
+										pos: position{line: 2767, col: 14, offset: 88102},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88084},
+											pos:        position{line: 2767, col: 14, offset: 88102},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14379,10 +14379,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90915},
+									pos: position{line: 2873, col: 10, offset: 90947},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90915},
+										pos:        position{line: 2873, col: 10, offset: 90947},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14809,10 +14809,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 626, col: 5, offset: 19513},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15202,10 +15202,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90915},
+											pos: position{line: 2873, col: 10, offset: 90947},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90915},
+												pos:        position{line: 2873, col: 10, offset: 90947},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15256,12 +15256,12 @@ var g = &grammar{
 									pos:   position{line: 693, col: 32, offset: 22041},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90567},
+										pos: position{line: 2858, col: 7, offset: 90599},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90567},
+											pos: position{line: 2858, col: 7, offset: 90599},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90567},
+												pos:        position{line: 2858, col: 7, offset: 90599},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15273,10 +15273,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 693, col: 40, offset: 22049},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90915},
+										pos: position{line: 2873, col: 10, offset: 90947},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90915},
+											pos:        position{line: 2873, col: 10, offset: 90947},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15675,12 +15675,12 @@ var g = &grammar{
 									pos:   position{line: 695, col: 14, offset: 22166},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90567},
+										pos: position{line: 2858, col: 7, offset: 90599},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90567},
+											pos: position{line: 2858, col: 7, offset: 90599},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90567},
+												pos:        position{line: 2858, col: 7, offset: 90599},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15724,41 +15724,41 @@ var g = &grammar{
 							pos:   position{line: 699, col: 35, offset: 22279},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 17, offset: 89578},
+								pos: position{line: 2827, col: 17, offset: 89610},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2827, col: 17, offset: 89578},
+									pos:   position{line: 2827, col: 17, offset: 89610},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 5, offset: 90032},
+										pos: position{line: 2844, col: 5, offset: 90064},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2844, col: 5, offset: 90032},
+											pos:   position{line: 2844, col: 5, offset: 90064},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2844, col: 14, offset: 90041},
+												pos: position{line: 2844, col: 14, offset: 90073},
 												expr: &choiceExpr{
-													pos: position{line: 2845, col: 9, offset: 90051},
+													pos: position{line: 2845, col: 9, offset: 90083},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2845, col: 9, offset: 90051},
+															pos: position{line: 2845, col: 9, offset: 90083},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2845, col: 9, offset: 90051},
+																pos: position{line: 2845, col: 9, offset: 90083},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2845, col: 9, offset: 90051},
+																		pos: position{line: 2845, col: 9, offset: 90083},
 																		expr: &litMatcher{
-																			pos:        position{line: 2845, col: 10, offset: 90052},
+																			pos:        position{line: 2845, col: 10, offset: 90084},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2846, col: 9, offset: 90080},
+																		pos: position{line: 2846, col: 9, offset: 90112},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2846, col: 10, offset: 90081},
+																			pos:        position{line: 2846, col: 10, offset: 90113},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15769,27 +15769,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2849, col: 11, offset: 90293},
+															pos: position{line: 2849, col: 11, offset: 90325},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2849, col: 11, offset: 90293},
+																	pos:        position{line: 2849, col: 11, offset: 90325},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2849, col: 19, offset: 90301},
+																	pos: position{line: 2849, col: 19, offset: 90333},
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 21, offset: 90303},
+																		pos: position{line: 2849, col: 21, offset: 90335},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 21, offset: 90303},
+																				pos: position{line: 2849, col: 21, offset: 90335},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90915},
+																					pos: position{line: 2873, col: 10, offset: 90947},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90915},
+																						pos:        position{line: 2873, col: 10, offset: 90947},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15798,11 +15798,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2849, col: 28, offset: 90310},
+																				pos: position{line: 2849, col: 28, offset: 90342},
 																				expr: &notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -16197,10 +16197,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90430},
+															pos: position{line: 2852, col: 11, offset: 90462},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2852, col: 11, offset: 90430},
+																pos:        position{line: 2852, col: 11, offset: 90462},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16245,12 +16245,12 @@ var g = &grammar{
 							pos:   position{line: 1004, col: 11, offset: 31223},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 14, offset: 89508},
+								pos: position{line: 2823, col: 14, offset: 89540},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 14, offset: 89508},
+									pos: position{line: 2823, col: 14, offset: 89540},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 14, offset: 89508},
+										pos:        position{line: 2823, col: 14, offset: 89540},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16260,28 +16260,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16290,9 +16290,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -16320,36 +16320,36 @@ var g = &grammar{
 								pos: position{line: 1119, col: 6, offset: 34225},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79900},
+										pos: position{line: 2483, col: 22, offset: 79918},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80121},
+													pos:        position{line: 2488, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80126},
+													pos: position{line: 2488, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80127},
+														pos:        position{line: 2488, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79927},
+													pos:   position{line: 2483, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89441},
+														pos: position{line: 2819, col: 13, offset: 89473},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89441},
+																pos:        position{line: 2819, col: 13, offset: 89473},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16359,28 +16359,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16389,9 +16389,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -16445,10 +16445,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16457,28 +16457,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16487,9 +16487,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -16561,10 +16561,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16573,28 +16573,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16603,9 +16603,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -16621,9 +16621,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -16639,21 +16639,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16663,28 +16663,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16693,9 +16693,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -16757,10 +16757,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16769,28 +16769,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16799,9 +16799,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -16817,9 +16817,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -16845,36 +16845,36 @@ var g = &grammar{
 								pos: position{line: 1121, col: 6, offset: 34348},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79900},
+										pos: position{line: 2483, col: 22, offset: 79918},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80121},
+													pos:        position{line: 2488, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80126},
+													pos: position{line: 2488, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80127},
+														pos:        position{line: 2488, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79927},
+													pos:   position{line: 2483, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89441},
+														pos: position{line: 2819, col: 13, offset: 89473},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89441},
+																pos:        position{line: 2819, col: 13, offset: 89473},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16884,28 +16884,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16914,9 +16914,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -16970,10 +16970,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16982,28 +16982,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17012,9 +17012,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -17086,10 +17086,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -17146,9 +17146,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -17164,21 +17164,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17188,28 +17188,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17218,9 +17218,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -17282,10 +17282,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17294,28 +17294,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17324,9 +17324,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1140, col: 20, offset: 35103},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1159, col: 5, offset: 35708},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1163, col: 5, offset: 35807},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1167, col: 5, offset: 35904},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1173, col: 5, offset: 36026},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91249},
+																										pos: position{line: 2890, col: 11, offset: 91281},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91251,
+																											line: 2890, col: 13, offset: 91283,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1145, col: 69, offset: 35296},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1145, col: 81, offset: 35308},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -17674,36 +17674,36 @@ var g = &grammar{
 													pos: position{line: 1135, col: 6, offset: 34878},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79900},
+															pos: position{line: 2483, col: 22, offset: 79918},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79900},
+																pos: position{line: 2483, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80121},
+																		pos:        position{line: 2488, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80126},
+																		pos: position{line: 2488, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80127},
+																			pos:        position{line: 2488, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79927},
+																		pos:   position{line: 2483, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89441},
+																			pos: position{line: 2819, col: 13, offset: 89473},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89441},
+																				pos: position{line: 2819, col: 13, offset: 89473},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89441},
+																					pos:        position{line: 2819, col: 13, offset: 89473},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -17799,10 +17799,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17811,28 +17811,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17841,9 +17841,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -17915,10 +17915,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 749, col: 8, offset: 23897},
 																																expr: &actionExpr{
-																																	pos: position{line: 2873, col: 10, offset: 90915},
+																																	pos: position{line: 2873, col: 10, offset: 90947},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2873, col: 10, offset: 90915},
+																																		pos:        position{line: 2873, col: 10, offset: 90947},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17927,28 +17927,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2895, col: 8, offset: 91313},
+																																pos: position{line: 2895, col: 8, offset: 91345},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 91086},
+																																		pos: position{line: 2882, col: 12, offset: 91118},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 91087},
+																																			pos: position{line: 2882, col: 13, offset: 91119},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 91087},
+																																					pos:        position{line: 2882, col: 13, offset: 91119},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 91094},
+																																					pos:        position{line: 2882, col: 20, offset: 91126},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 91103},
+																																					pos:        position{line: 2882, col: 29, offset: 91135},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17957,9 +17957,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2892, col: 8, offset: 91263},
+																																		pos: position{line: 2892, col: 8, offset: 91295},
 																																		expr: &anyMatcher{
-																																			line: 2892, col: 9, offset: 91264,
+																																			line: 2892, col: 9, offset: 91296,
 																																		},
 																																	},
 																																},
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -17993,21 +17993,21 @@ var g = &grammar{
 																									pos: position{line: 818, col: 5, offset: 26299},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91249},
+																											pos: position{line: 2890, col: 11, offset: 91281},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91251,
+																												line: 2890, col: 13, offset: 91283,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 819, col: 5, offset: 26374},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2819, col: 13, offset: 89441},
+																												pos: position{line: 2819, col: 13, offset: 89473},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2819, col: 13, offset: 89441},
+																													pos: position{line: 2819, col: 13, offset: 89473},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2819, col: 13, offset: 89441},
+																														pos:        position{line: 2819, col: 13, offset: 89473},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18017,28 +18017,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18047,9 +18047,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -18111,10 +18111,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18123,28 +18123,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18153,9 +18153,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -18171,9 +18171,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -18199,10 +18199,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1184, col: 21, offset: 36304},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18304,10 +18304,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1196, col: 28, offset: 36935},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18454,28 +18454,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18484,9 +18484,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -18566,10 +18566,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18578,28 +18578,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18608,9 +18608,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -18671,10 +18671,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90915},
+															pos: position{line: 2873, col: 10, offset: 90947},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90915},
+																pos:        position{line: 2873, col: 10, offset: 90947},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18683,28 +18683,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18713,9 +18713,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -18724,36 +18724,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79900},
+												pos: position{line: 2483, col: 22, offset: 79918},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80121},
+														pos:        position{line: 2488, col: 31, offset: 80139},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80126},
+														pos: position{line: 2488, col: 36, offset: 80144},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80127},
+															pos:        position{line: 2488, col: 37, offset: 80145},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79927},
+														pos:   position{line: 2483, col: 49, offset: 79945},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89441},
+																pos: position{line: 2819, col: 13, offset: 89473},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89441},
+																	pos:        position{line: 2819, col: 13, offset: 89473},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18763,28 +18763,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18793,9 +18793,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -18849,10 +18849,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23897},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18861,28 +18861,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18891,9 +18891,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -18965,10 +18965,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23897},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90915},
+																													pos: position{line: 2873, col: 10, offset: 90947},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90915},
+																														pos:        position{line: 2873, col: 10, offset: 90947},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18977,28 +18977,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91313},
+																												pos: position{line: 2895, col: 8, offset: 91345},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91086},
+																														pos: position{line: 2882, col: 12, offset: 91118},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91087},
+																															pos: position{line: 2882, col: 13, offset: 91119},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91087},
+																																	pos:        position{line: 2882, col: 13, offset: 91119},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91094},
+																																	pos:        position{line: 2882, col: 20, offset: 91126},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91103},
+																																	pos:        position{line: 2882, col: 29, offset: 91135},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19007,9 +19007,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91263},
+																														pos: position{line: 2892, col: 8, offset: 91295},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91264,
+																															line: 2892, col: 9, offset: 91296,
 																														},
 																													},
 																												},
@@ -19025,9 +19025,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -19043,21 +19043,21 @@ var g = &grammar{
 																					pos: position{line: 818, col: 5, offset: 26299},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 819, col: 5, offset: 26374},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89441},
+																									pos: position{line: 2819, col: 13, offset: 89473},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89441},
+																										pos:        position{line: 2819, col: 13, offset: 89473},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19067,28 +19067,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19097,9 +19097,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -19161,10 +19161,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23897},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19173,28 +19173,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19203,9 +19203,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -19221,9 +19221,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -19256,12 +19256,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 90976},
+							pos: position{line: 2877, col: 11, offset: 91008},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 90976},
+								pos: position{line: 2877, col: 11, offset: 91008},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 90976},
+									pos:        position{line: 2877, col: 11, offset: 91008},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19278,28 +19278,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19308,9 +19308,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -19349,10 +19349,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1159, col: 5, offset: 35708},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19384,10 +19384,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1163, col: 5, offset: 35807},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19419,10 +19419,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1167, col: 5, offset: 35904},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19488,12 +19488,12 @@ var g = &grammar{
 							pos:   position{line: 1300, col: 13, offset: 40210},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 7, offset: 90567},
+								pos: position{line: 2858, col: 7, offset: 90599},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2858, col: 7, offset: 90567},
+									pos: position{line: 2858, col: 7, offset: 90599},
 									expr: &charClassMatcher{
-										pos:        position{line: 2858, col: 7, offset: 90567},
+										pos:        position{line: 2858, col: 7, offset: 90599},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19562,12 +19562,12 @@ var g = &grammar{
 							pos: position{line: 1311, col: 31, offset: 40670},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88084},
+									pos: position{line: 2767, col: 14, offset: 88102},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88084},
+										pos: position{line: 2767, col: 14, offset: 88102},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88084},
+											pos:        position{line: 2767, col: 14, offset: 88102},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19580,10 +19580,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90915},
+									pos: position{line: 2873, col: 10, offset: 90947},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90915},
+										pos:        position{line: 2873, col: 10, offset: 90947},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19591,23 +19591,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79446},
+									pos: position{line: 2470, col: 5, offset: 79464},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79446},
+										pos: position{line: 2470, col: 5, offset: 79464},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79446},
+												pos: position{line: 2470, col: 5, offset: 79464},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79522},
+												pos:   position{line: 2473, col: 5, offset: 79540},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79540},
+													pos: position{line: 2474, col: 9, offset: 79558},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79541},
+														pos:        position{line: 2474, col: 10, offset: 79559},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19703,48 +19703,48 @@ var g = &grammar{
 							pos:   position{line: 1332, col: 15, offset: 41488},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89674},
+								pos: position{line: 2831, col: 13, offset: 89706},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89674},
+									pos: position{line: 2831, col: 13, offset: 89706},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89674},
+											pos:   position{line: 2831, col: 13, offset: 89706},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89681},
+												pos: position{line: 2831, col: 20, offset: 89713},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89920},
+													pos: position{line: 2839, col: 11, offset: 89952},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89921},
+														pos: position{line: 2839, col: 12, offset: 89953},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89921},
+																pos:        position{line: 2839, col: 12, offset: 89953},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89933},
+																pos:        position{line: 2839, col: 24, offset: 89965},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89946},
+																pos:        position{line: 2839, col: 37, offset: 89978},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89957},
+																pos:        position{line: 2839, col: 48, offset: 89989},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 89968},
+																pos:        position{line: 2839, col: 59, offset: 90000},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19755,38 +19755,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89691},
+											pos:   position{line: 2831, col: 30, offset: 89723},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90032},
+												pos: position{line: 2844, col: 5, offset: 90064},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90032},
+													pos:   position{line: 2844, col: 5, offset: 90064},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90041},
+														pos: position{line: 2844, col: 14, offset: 90073},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90051},
+															pos: position{line: 2845, col: 9, offset: 90083},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90051},
+																		pos: position{line: 2845, col: 9, offset: 90083},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90052},
+																					pos:        position{line: 2845, col: 10, offset: 90084},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90080},
+																				pos: position{line: 2846, col: 9, offset: 90112},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90081},
+																					pos:        position{line: 2846, col: 10, offset: 90113},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19797,27 +19797,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90293},
+																	pos: position{line: 2849, col: 11, offset: 90325},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90293},
+																			pos:        position{line: 2849, col: 11, offset: 90325},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90301},
+																			pos: position{line: 2849, col: 19, offset: 90333},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90303},
+																				pos: position{line: 2849, col: 21, offset: 90335},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19826,11 +19826,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90310},
+																						pos: position{line: 2849, col: 28, offset: 90342},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -20225,10 +20225,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90430},
+																	pos: position{line: 2852, col: 11, offset: 90462},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90430},
+																		pos:        position{line: 2852, col: 11, offset: 90462},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20255,10 +20255,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1332, col: 61, offset: 41534},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20267,28 +20267,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20297,9 +20297,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -20336,48 +20336,48 @@ var g = &grammar{
 							pos:   position{line: 1337, col: 30, offset: 41780},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89674},
+								pos: position{line: 2831, col: 13, offset: 89706},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89674},
+									pos: position{line: 2831, col: 13, offset: 89706},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89674},
+											pos:   position{line: 2831, col: 13, offset: 89706},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89681},
+												pos: position{line: 2831, col: 20, offset: 89713},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89920},
+													pos: position{line: 2839, col: 11, offset: 89952},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89921},
+														pos: position{line: 2839, col: 12, offset: 89953},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89921},
+																pos:        position{line: 2839, col: 12, offset: 89953},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89933},
+																pos:        position{line: 2839, col: 24, offset: 89965},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89946},
+																pos:        position{line: 2839, col: 37, offset: 89978},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89957},
+																pos:        position{line: 2839, col: 48, offset: 89989},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 89968},
+																pos:        position{line: 2839, col: 59, offset: 90000},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20388,38 +20388,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89691},
+											pos:   position{line: 2831, col: 30, offset: 89723},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90032},
+												pos: position{line: 2844, col: 5, offset: 90064},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90032},
+													pos:   position{line: 2844, col: 5, offset: 90064},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90041},
+														pos: position{line: 2844, col: 14, offset: 90073},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90051},
+															pos: position{line: 2845, col: 9, offset: 90083},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90051},
+																		pos: position{line: 2845, col: 9, offset: 90083},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90052},
+																					pos:        position{line: 2845, col: 10, offset: 90084},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90080},
+																				pos: position{line: 2846, col: 9, offset: 90112},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90081},
+																					pos:        position{line: 2846, col: 10, offset: 90113},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20430,27 +20430,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90293},
+																	pos: position{line: 2849, col: 11, offset: 90325},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90293},
+																			pos:        position{line: 2849, col: 11, offset: 90325},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90301},
+																			pos: position{line: 2849, col: 19, offset: 90333},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90303},
+																				pos: position{line: 2849, col: 21, offset: 90335},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20459,11 +20459,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90310},
+																						pos: position{line: 2849, col: 28, offset: 90342},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -20858,10 +20858,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90430},
+																	pos: position{line: 2852, col: 11, offset: 90462},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90430},
+																		pos:        position{line: 2852, col: 11, offset: 90462},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21040,21 +21040,21 @@ var g = &grammar{
 								pos: position{line: 1364, col: 9, offset: 43066},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88157},
+										pos: position{line: 2772, col: 5, offset: 88175},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88157},
+											pos: position{line: 2772, col: 5, offset: 88175},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88157},
+													pos:   position{line: 2772, col: 5, offset: 88175},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88163},
+														pos: position{line: 2772, col: 11, offset: 88181},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88163},
+															pos: position{line: 2772, col: 11, offset: 88181},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88163},
+																pos:        position{line: 2772, col: 11, offset: 88181},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21064,36 +21064,47 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88221},
+													pos: position{line: 2775, col: 5, offset: 88239},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88232},
+														pos: position{line: 2776, col: 9, offset: 88250},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88232},
+																pos:        position{line: 2776, col: 9, offset: 88250},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88281},
+																pos: position{line: 2777, col: 9, offset: 88299},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88361},
+													pos: position{line: 2781, col: 5, offset: 88379},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88372},
+														pos: position{line: 2782, col: 9, offset: 88390},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88390},
+																expr: &charClassMatcher{
+																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	val:        "[._+-\\pL\\pN]",
+																	chars:      []rune{'.', '_', '+', '-'},
+																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88372},
+																pos:        position{line: 2782, col: 23, offset: 88404},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88376},
+																pos:        position{line: 2782, col: 27, offset: 88408},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21106,12 +21117,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 90976},
-										run: (*parser).callonFootnoteElement21,
+										pos: position{line: 2877, col: 11, offset: 91008},
+										run: (*parser).callonFootnoteElement23,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 90976},
+											pos: position{line: 2877, col: 11, offset: 91008},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 90976},
+												pos:        position{line: 2877, col: 11, offset: 91008},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21120,21 +21131,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80617},
-										run: (*parser).callonFootnoteElement24,
+										pos: position{line: 2501, col: 5, offset: 80635},
+										run: (*parser).callonFootnoteElement26,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80617},
+											pos: position{line: 2501, col: 5, offset: 80635},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80617},
+													pos:        position{line: 2501, col: 5, offset: 80635},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80622},
+													pos: position{line: 2501, col: 10, offset: 80640},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80623},
+														pos:        position{line: 2501, col: 11, offset: 80641},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21145,29 +21156,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80815},
-										run: (*parser).callonFootnoteElement29,
+										pos: position{line: 2507, col: 5, offset: 80833},
+										run: (*parser).callonFootnoteElement31,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80815},
+											pos: position{line: 2507, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80815},
-													run: (*parser).callonFootnoteElement31,
+													pos: position{line: 2507, col: 5, offset: 80833},
+													run: (*parser).callonFootnoteElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80886},
-													run: (*parser).callonFootnoteElement32,
+													pos: position{line: 2510, col: 5, offset: 80904},
+													run: (*parser).callonFootnoteElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81011},
+													pos:        position{line: 2514, col: 5, offset: 81029},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81015},
+													pos: position{line: 2514, col: 9, offset: 81033},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81016},
+														pos:        position{line: 2514, col: 10, offset: 81034},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21186,27 +21197,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88569},
-										run: (*parser).callonFootnoteElement38,
+										pos: position{line: 2790, col: 5, offset: 88601},
+										run: (*parser).callonFootnoteElement40,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88579},
+											pos: position{line: 2791, col: 9, offset: 88611},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88580},
+													pos:        position{line: 2791, col: 10, offset: 88612},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88677},
+													pos: position{line: 2793, col: 13, offset: 88709},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88677},
-															run: (*parser).callonFootnoteElement42,
+															pos: position{line: 2793, col: 13, offset: 88709},
+															run: (*parser).callonFootnoteElement44,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88777},
+															pos:        position{line: 2796, col: 13, offset: 88809},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21214,20 +21225,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88783},
+													pos:        position{line: 2796, col: 19, offset: 88815},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88821},
+													pos: position{line: 2799, col: 13, offset: 88853},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88821},
-															run: (*parser).callonFootnoteElement46,
+															pos: position{line: 2799, col: 13, offset: 88853},
+															run: (*parser).callonFootnoteElement48,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88914},
+															pos:        position{line: 2802, col: 14, offset: 88946},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21236,18 +21247,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88958},
+													pos: position{line: 2804, col: 12, offset: 88990},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88958},
+															pos:        position{line: 2804, col: 12, offset: 88990},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88962},
+															pos: position{line: 2804, col: 16, offset: 88994},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88963},
+																pos:        position{line: 2804, col: 17, offset: 88995},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21264,13 +21275,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1221, col: 5, offset: 37835},
-										run: (*parser).callonFootnoteElement53,
+										run: (*parser).callonFootnoteElement55,
 										expr: &seqExpr{
 											pos: position{line: 1221, col: 5, offset: 37835},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1221, col: 5, offset: 37835},
-													run: (*parser).callonFootnoteElement55,
+													run: (*parser).callonFootnoteElement57,
 												},
 												&litMatcher{
 													pos:        position{line: 1224, col: 5, offset: 37911},
@@ -21280,15 +21291,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1225, col: 5, offset: 37919},
-													run: (*parser).callonFootnoteElement57,
+													run: (*parser).callonFootnoteElement59,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1229, col: 5, offset: 38006},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
-														run: (*parser).callonFootnoteElement59,
+														pos: position{line: 2873, col: 10, offset: 90947},
+														run: (*parser).callonFootnoteElement61,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21299,28 +21310,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1229, col: 12, offset: 38013},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
-																run: (*parser).callonFootnoteElement63,
+																pos: position{line: 2882, col: 12, offset: 91118},
+																run: (*parser).callonFootnoteElement65,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21329,9 +21340,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -21342,13 +21353,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 643, col: 5, offset: 20301},
-										run: (*parser).callonFootnoteElement70,
+										run: (*parser).callonFootnoteElement72,
 										expr: &seqExpr{
 											pos: position{line: 643, col: 5, offset: 20301},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 643, col: 5, offset: 20301},
-													run: (*parser).callonFootnoteElement72,
+													run: (*parser).callonFootnoteElement74,
 												},
 												&labeledExpr{
 													pos:   position{line: 646, col: 5, offset: 20373},
@@ -21358,7 +21369,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20511},
-																run: (*parser).callonFootnoteElement75,
+																run: (*parser).callonFootnoteElement77,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20511},
 																	exprs: []interface{}{
@@ -21373,7 +21384,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement79,
+																				run: (*parser).callonFootnoteElement81,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21411,7 +21422,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 659, col: 5, offset: 20779},
-																run: (*parser).callonFootnoteElement85,
+																run: (*parser).callonFootnoteElement87,
 																expr: &seqExpr{
 																	pos: position{line: 659, col: 5, offset: 20779},
 																	exprs: []interface{}{
@@ -21426,7 +21437,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement89,
+																				run: (*parser).callonFootnoteElement91,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21464,7 +21475,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 665, col: 25, offset: 20983},
-																run: (*parser).callonFootnoteElement95,
+																run: (*parser).callonFootnoteElement97,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 25, offset: 20983},
 																	exprs: []interface{}{
@@ -21479,7 +21490,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement99,
+																				run: (*parser).callonFootnoteElement101,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21513,7 +21524,7 @@ var g = &grammar{
 																				pos: position{line: 665, col: 62, offset: 21020},
 																				expr: &actionExpr{
 																					pos: position{line: 673, col: 17, offset: 21315},
-																					run: (*parser).callonFootnoteElement106,
+																					run: (*parser).callonFootnoteElement108,
 																					expr: &seqExpr{
 																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
@@ -21531,7 +21542,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 673, col: 28, offset: 21326},
-																											run: (*parser).callonFootnoteElement111,
+																											run: (*parser).callonFootnoteElement113,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
@@ -21542,7 +21553,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 675, col: 9, offset: 21380},
-																											run: (*parser).callonFootnoteElement113,
+																											run: (*parser).callonFootnoteElement115,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
@@ -21573,7 +21584,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 669, col: 25, offset: 21154},
-																run: (*parser).callonFootnoteElement117,
+																run: (*parser).callonFootnoteElement119,
 																expr: &seqExpr{
 																	pos: position{line: 669, col: 25, offset: 21154},
 																	exprs: []interface{}{
@@ -21588,7 +21599,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement121,
+																				run: (*parser).callonFootnoteElement123,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21622,7 +21633,7 @@ var g = &grammar{
 																				pos: position{line: 669, col: 63, offset: 21192},
 																				expr: &actionExpr{
 																					pos: position{line: 673, col: 17, offset: 21315},
-																					run: (*parser).callonFootnoteElement128,
+																					run: (*parser).callonFootnoteElement130,
 																					expr: &seqExpr{
 																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
@@ -21640,7 +21651,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 673, col: 28, offset: 21326},
-																											run: (*parser).callonFootnoteElement133,
+																											run: (*parser).callonFootnoteElement135,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
@@ -21651,7 +21662,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 675, col: 9, offset: 21380},
-																											run: (*parser).callonFootnoteElement135,
+																											run: (*parser).callonFootnoteElement137,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
@@ -21687,23 +21698,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79446},
-										run: (*parser).callonFootnoteElement139,
+										pos: position{line: 2470, col: 5, offset: 79464},
+										run: (*parser).callonFootnoteElement141,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79446},
-													run: (*parser).callonFootnoteElement141,
+													pos: position{line: 2470, col: 5, offset: 79464},
+													run: (*parser).callonFootnoteElement143,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79522},
+													pos:   position{line: 2473, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79540},
-														run: (*parser).callonFootnoteElement143,
+														pos: position{line: 2474, col: 9, offset: 79558},
+														run: (*parser).callonFootnoteElement145,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79541},
+															pos:        position{line: 2474, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21715,25 +21726,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91086},
-										run: (*parser).callonFootnoteElement145,
+										pos: position{line: 2882, col: 12, offset: 91118},
+										run: (*parser).callonFootnoteElement147,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91087},
+											pos: position{line: 2882, col: 13, offset: 91119},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91087},
+													pos:        position{line: 2882, col: 13, offset: 91119},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91094},
+													pos:        position{line: 2882, col: 20, offset: 91126},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91103},
+													pos:        position{line: 2882, col: 29, offset: 91135},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21742,10 +21753,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89223},
-										run: (*parser).callonFootnoteElement150,
+										pos: position{line: 2812, col: 12, offset: 89255},
+										run: (*parser).callonFootnoteElement152,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89223},
+											pos:        position{line: 2812, col: 12, offset: 89255},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21877,55 +21888,55 @@ var g = &grammar{
 									pos:   position{line: 1426, col: 5, offset: 45772},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89801},
+										pos: position{line: 2835, col: 23, offset: 89833},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89801},
+											pos: position{line: 2835, col: 23, offset: 89833},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89801},
+													pos: position{line: 2835, col: 23, offset: 89833},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89802},
+														pos:        position{line: 2835, col: 24, offset: 89834},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89806},
+													pos:   position{line: 2835, col: 28, offset: 89838},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89920},
+														pos: position{line: 2839, col: 11, offset: 89952},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89921},
+															pos: position{line: 2839, col: 12, offset: 89953},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89921},
+																	pos:        position{line: 2839, col: 12, offset: 89953},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89933},
+																	pos:        position{line: 2839, col: 24, offset: 89965},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89946},
+																	pos:        position{line: 2839, col: 37, offset: 89978},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89957},
+																	pos:        position{line: 2839, col: 48, offset: 89989},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89968},
+																	pos:        position{line: 2839, col: 59, offset: 90000},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21935,38 +21946,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89822},
+													pos:   position{line: 2835, col: 44, offset: 89854},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21977,27 +21988,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22006,11 +22017,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -22405,10 +22416,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22522,17 +22533,44 @@ var g = &grammar{
 																	pos: position{line: 1477, col: 41, offset: 47552},
 																	expr: &seqExpr{
 																		pos: position{line: 1477, col: 42, offset: 47553},
+																		exprs: []interface{}{
+																			&oneOrMoreExpr{
+																				pos: position{line: 1477, col: 42, offset: 47553},
+																				expr: &litMatcher{
+																					pos:        position{line: 1477, col: 42, offset: 47553},
+																					val:        "-",
+																					ignoreCase: false,
+																					want:       "\"-\"",
+																				},
+																			},
+																			&oneOrMoreExpr{
+																				pos: position{line: 1477, col: 47, offset: 47558},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 1477, col: 47, offset: 47558},
+																					val:        "[\\pL\\pN]",
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+																&zeroOrMoreExpr{
+																	pos: position{line: 1477, col: 59, offset: 47570},
+																	expr: &seqExpr{
+																		pos: position{line: 1477, col: 60, offset: 47571},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1477, col: 42, offset: 47553},
+																				pos:        position{line: 1477, col: 60, offset: 47571},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1477, col: 46, offset: 47557},
+																				pos: position{line: 1477, col: 64, offset: 47575},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1477, col: 46, offset: 47557},
+																					pos:        position{line: 1477, col: 64, offset: 47575},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22548,8 +22586,8 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1480, col: 5, offset: 47618},
-													run: (*parser).callonLink145,
+													pos: position{line: 1480, col: 5, offset: 47636},
+													run: (*parser).callonLink151,
 												},
 											},
 										},
@@ -22583,48 +22621,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 17, offset: 46187},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89674},
+										pos: position{line: 2831, col: 13, offset: 89706},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89674},
+											pos: position{line: 2831, col: 13, offset: 89706},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89674},
+													pos:   position{line: 2831, col: 13, offset: 89706},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89681},
+														pos: position{line: 2831, col: 20, offset: 89713},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89920},
+															pos: position{line: 2839, col: 11, offset: 89952},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89921},
+																pos: position{line: 2839, col: 12, offset: 89953},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89921},
+																		pos:        position{line: 2839, col: 12, offset: 89953},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89933},
+																		pos:        position{line: 2839, col: 24, offset: 89965},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89946},
+																		pos:        position{line: 2839, col: 37, offset: 89978},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89957},
+																		pos:        position{line: 2839, col: 48, offset: 89989},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 89968},
+																		pos:        position{line: 2839, col: 59, offset: 90000},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22635,38 +22673,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89691},
+													pos:   position{line: 2831, col: 30, offset: 89723},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22677,27 +22715,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22706,11 +22744,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -23105,10 +23143,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23151,48 +23189,48 @@ var g = &grammar{
 									pos:   position{line: 1444, col: 13, offset: 46354},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89674},
+										pos: position{line: 2831, col: 13, offset: 89706},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89674},
+											pos: position{line: 2831, col: 13, offset: 89706},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89674},
+													pos:   position{line: 2831, col: 13, offset: 89706},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89681},
+														pos: position{line: 2831, col: 20, offset: 89713},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89920},
+															pos: position{line: 2839, col: 11, offset: 89952},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89921},
+																pos: position{line: 2839, col: 12, offset: 89953},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89921},
+																		pos:        position{line: 2839, col: 12, offset: 89953},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89933},
+																		pos:        position{line: 2839, col: 24, offset: 89965},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89946},
+																		pos:        position{line: 2839, col: 37, offset: 89978},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89957},
+																		pos:        position{line: 2839, col: 48, offset: 89989},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 89968},
+																		pos:        position{line: 2839, col: 59, offset: 90000},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23203,38 +23241,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89691},
+													pos:   position{line: 2831, col: 30, offset: 89723},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23245,27 +23283,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23274,11 +23312,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -23673,10 +23711,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23728,55 +23766,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 9, offset: 46663},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89801},
+										pos: position{line: 2835, col: 23, offset: 89833},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89801},
+											pos: position{line: 2835, col: 23, offset: 89833},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89801},
+													pos: position{line: 2835, col: 23, offset: 89833},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89802},
+														pos:        position{line: 2835, col: 24, offset: 89834},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89806},
+													pos:   position{line: 2835, col: 28, offset: 89838},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89920},
+														pos: position{line: 2839, col: 11, offset: 89952},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89921},
+															pos: position{line: 2839, col: 12, offset: 89953},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89921},
+																	pos:        position{line: 2839, col: 12, offset: 89953},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89933},
+																	pos:        position{line: 2839, col: 24, offset: 89965},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89946},
+																	pos:        position{line: 2839, col: 37, offset: 89978},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89957},
+																	pos:        position{line: 2839, col: 48, offset: 89989},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89968},
+																	pos:        position{line: 2839, col: 59, offset: 90000},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23786,38 +23824,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89822},
+													pos:   position{line: 2835, col: 44, offset: 89854},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23828,27 +23866,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23857,11 +23895,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -24256,10 +24294,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24299,55 +24337,55 @@ var g = &grammar{
 									pos:   position{line: 1456, col: 5, offset: 46833},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89801},
+										pos: position{line: 2835, col: 23, offset: 89833},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89801},
+											pos: position{line: 2835, col: 23, offset: 89833},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89801},
+													pos: position{line: 2835, col: 23, offset: 89833},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89802},
+														pos:        position{line: 2835, col: 24, offset: 89834},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89806},
+													pos:   position{line: 2835, col: 28, offset: 89838},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89920},
+														pos: position{line: 2839, col: 11, offset: 89952},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89921},
+															pos: position{line: 2839, col: 12, offset: 89953},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89921},
+																	pos:        position{line: 2839, col: 12, offset: 89953},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89933},
+																	pos:        position{line: 2839, col: 24, offset: 89965},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89946},
+																	pos:        position{line: 2839, col: 37, offset: 89978},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89957},
+																	pos:        position{line: 2839, col: 48, offset: 89989},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 89968},
+																	pos:        position{line: 2839, col: 59, offset: 90000},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24357,38 +24395,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89822},
+													pos:   position{line: 2835, col: 44, offset: 89854},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90032},
+														pos: position{line: 2844, col: 5, offset: 90064},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90032},
+															pos:   position{line: 2844, col: 5, offset: 90064},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90041},
+																pos: position{line: 2844, col: 14, offset: 90073},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90051},
+																	pos: position{line: 2845, col: 9, offset: 90083},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90051},
+																			pos: position{line: 2845, col: 9, offset: 90083},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90051},
+																				pos: position{line: 2845, col: 9, offset: 90083},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90051},
+																						pos: position{line: 2845, col: 9, offset: 90083},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90052},
+																							pos:        position{line: 2845, col: 10, offset: 90084},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90080},
+																						pos: position{line: 2846, col: 9, offset: 90112},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90081},
+																							pos:        position{line: 2846, col: 10, offset: 90113},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24399,27 +24437,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90293},
+																			pos: position{line: 2849, col: 11, offset: 90325},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90293},
+																					pos:        position{line: 2849, col: 11, offset: 90325},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90301},
+																					pos: position{line: 2849, col: 19, offset: 90333},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90303},
+																						pos: position{line: 2849, col: 21, offset: 90335},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90303},
+																								pos: position{line: 2849, col: 21, offset: 90335},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24428,11 +24466,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90310},
+																								pos: position{line: 2849, col: 28, offset: 90342},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -24827,10 +24865,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90430},
+																			pos: position{line: 2852, col: 11, offset: 90462},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90430},
+																				pos:        position{line: 2852, col: 11, offset: 90462},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24865,41 +24903,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1490, col: 1, offset: 48011},
+			pos:  position{line: 1490, col: 1, offset: 48029},
 			expr: &actionExpr{
-				pos: position{line: 1491, col: 5, offset: 48032},
+				pos: position{line: 1491, col: 5, offset: 48050},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1491, col: 5, offset: 48032},
+					pos: position{line: 1491, col: 5, offset: 48050},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1491, col: 5, offset: 48032},
+							pos:   position{line: 1491, col: 5, offset: 48050},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 5, offset: 48234},
+								pos: position{line: 1497, col: 5, offset: 48252},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1590, col: 5, offset: 51208},
+										pos: position{line: 1590, col: 5, offset: 51226},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1590, col: 5, offset: 51208},
+											pos: position{line: 1590, col: 5, offset: 51226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51208},
+													pos:   position{line: 1590, col: 5, offset: 51226},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51416},
+														pos: position{line: 1597, col: 5, offset: 51434},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51416},
+															pos: position{line: 1597, col: 5, offset: 51434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51416},
+																	pos: position{line: 1597, col: 5, offset: 51434},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24908,27 +24946,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51423},
+																	pos:   position{line: 1597, col: 12, offset: 51441},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51486},
+																		pos: position{line: 1599, col: 9, offset: 51504},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51486},
+																				pos: position{line: 1599, col: 9, offset: 51504},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51486},
+																					pos: position{line: 1599, col: 9, offset: 51504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51486},
+																							pos:   position{line: 1599, col: 9, offset: 51504},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51493},
+																								pos: position{line: 1599, col: 16, offset: 51511},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51493},
+																									pos: position{line: 1599, col: 16, offset: 51511},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51494},
+																										pos:        position{line: 1599, col: 17, offset: 51512},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24937,22 +24975,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51594},
+																							pos: position{line: 1603, col: 9, offset: 51612},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52311},
+																				pos: position{line: 1622, col: 11, offset: 52329},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52311},
+																					pos: position{line: 1622, col: 11, offset: 52329},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52311},
+																							pos: position{line: 1622, col: 11, offset: 52329},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52312},
+																								pos:        position{line: 1622, col: 12, offset: 52330},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24960,7 +24998,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52320},
+																							pos:        position{line: 1622, col: 20, offset: 52338},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24969,20 +25007,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52437},
+																				pos: position{line: 1624, col: 13, offset: 52455},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52437},
+																					pos: position{line: 1624, col: 13, offset: 52455},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52438},
+																							pos:        position{line: 1624, col: 14, offset: 52456},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52445},
+																							pos:        position{line: 1624, col: 21, offset: 52463},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24991,20 +25029,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52565},
+																				pos: position{line: 1626, col: 13, offset: 52583},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52565},
+																					pos: position{line: 1626, col: 13, offset: 52583},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52566},
+																							pos:        position{line: 1626, col: 14, offset: 52584},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52573},
+																							pos:        position{line: 1626, col: 21, offset: 52591},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25013,15 +25051,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52693},
+																				pos: position{line: 1628, col: 13, offset: 52711},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52693},
+																					pos: position{line: 1628, col: 13, offset: 52711},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52693},
+																							pos: position{line: 1628, col: 13, offset: 52711},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52694},
+																								pos:        position{line: 1628, col: 14, offset: 52712},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25029,7 +25067,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52706},
+																							pos:        position{line: 1628, col: 26, offset: 52724},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25038,15 +25076,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52826},
+																				pos: position{line: 1630, col: 13, offset: 52844},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52826},
+																					pos: position{line: 1630, col: 13, offset: 52844},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52826},
+																							pos: position{line: 1630, col: 13, offset: 52844},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52827},
+																								pos:        position{line: 1630, col: 14, offset: 52845},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25054,7 +25092,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52839},
+																							pos:        position{line: 1630, col: 26, offset: 52857},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25066,12 +25104,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25084,26 +25122,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1591, col: 5, offset: 51247},
+													pos:   position{line: 1591, col: 5, offset: 51265},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25114,28 +25152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25144,9 +25182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -25159,27 +25197,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1640, col: 5, offset: 53105},
+										pos: position{line: 1640, col: 5, offset: 53123},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1640, col: 5, offset: 53105},
+											pos: position{line: 1640, col: 5, offset: 53123},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53105},
+													pos:   position{line: 1640, col: 5, offset: 53123},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53378},
+														pos: position{line: 1647, col: 5, offset: 53396},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53378},
+															pos: position{line: 1647, col: 5, offset: 53396},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53378},
+																	pos: position{line: 1647, col: 5, offset: 53396},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25188,24 +25226,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53390},
+																	pos:   position{line: 1648, col: 5, offset: 53408},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53406},
+																		pos: position{line: 1649, col: 9, offset: 53424},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53407},
+																			pos: position{line: 1649, col: 10, offset: 53425},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53408},
+																					pos:        position{line: 1649, col: 11, offset: 53426},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53415},
+																					pos: position{line: 1649, col: 18, offset: 53433},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53416},
+																						pos:        position{line: 1649, col: 19, offset: 53434},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25216,16 +25254,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53506},
+																	pos: position{line: 1652, col: 7, offset: 53524},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25238,56 +25276,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53146},
+													pos:   position{line: 1641, col: 5, offset: 53164},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1641, col: 16, offset: 53157},
+														pos: position{line: 1641, col: 16, offset: 53175},
 														expr: &actionExpr{
-															pos: position{line: 1662, col: 5, offset: 53771},
+															pos: position{line: 1662, col: 5, offset: 53789},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 5, offset: 53771},
+																pos: position{line: 1662, col: 5, offset: 53789},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1662, col: 5, offset: 53771},
+																		pos: position{line: 1662, col: 5, offset: 53789},
 																		expr: &litMatcher{
-																			pos:        position{line: 1662, col: 6, offset: 53772},
+																			pos:        position{line: 1662, col: 6, offset: 53790},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1662, col: 10, offset: 53776},
+																		pos:   position{line: 1662, col: 10, offset: 53794},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1663, col: 7, offset: 53790},
+																			pos: position{line: 1663, col: 7, offset: 53808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 53790},
+																					pos: position{line: 1663, col: 7, offset: 53808},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 53790},
+																						pos:        position{line: 1663, col: 7, offset: 53808},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 53835},
+																					pos: position{line: 1664, col: 7, offset: 53853},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 53835},
+																						pos:        position{line: 1664, col: 7, offset: 53853},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53878},
+																					pos: position{line: 1665, col: 7, offset: 53896},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53878},
+																						pos:        position{line: 1665, col: 7, offset: 53896},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25297,12 +25335,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 90976},
+																			pos: position{line: 2877, col: 11, offset: 91008},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 90976},
+																				pos:        position{line: 2877, col: 11, offset: 91008},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25316,26 +25354,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53196},
+													pos:   position{line: 1642, col: 5, offset: 53214},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25346,28 +25384,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25376,9 +25414,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -25391,36 +25429,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 55718},
+										pos: position{line: 1730, col: 5, offset: 55736},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 55718},
+											pos: position{line: 1730, col: 5, offset: 55736},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 55718},
+													pos:   position{line: 1730, col: 5, offset: 55736},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55915},
+														pos: position{line: 1736, col: 5, offset: 55933},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55915},
+															pos: position{line: 1736, col: 5, offset: 55933},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55915},
+																	pos:        position{line: 1736, col: 5, offset: 55933},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55919},
+																	pos:   position{line: 1736, col: 9, offset: 55937},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55924},
+																		pos: position{line: 1736, col: 14, offset: 55942},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55924},
+																			pos: position{line: 1736, col: 14, offset: 55942},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55924},
+																				pos:        position{line: 1736, col: 14, offset: 55942},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25430,18 +25468,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55972},
+																	pos:        position{line: 1736, col: 62, offset: 55990},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25454,26 +25492,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 55754},
+													pos:   position{line: 1731, col: 5, offset: 55772},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25484,28 +25522,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25514,9 +25552,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -25529,40 +25567,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1674, col: 5, offset: 54071},
+										pos: position{line: 1674, col: 5, offset: 54089},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1674, col: 5, offset: 54071},
+											pos: position{line: 1674, col: 5, offset: 54089},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54071},
+													pos:   position{line: 1674, col: 5, offset: 54089},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1682, col: 5, offset: 54397},
+														pos: position{line: 1682, col: 5, offset: 54415},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1682, col: 5, offset: 54397},
+															pos: position{line: 1682, col: 5, offset: 54415},
 															expr: &seqExpr{
-																pos: position{line: 1682, col: 6, offset: 54398},
+																pos: position{line: 1682, col: 6, offset: 54416},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1682, col: 6, offset: 54398},
+																		pos: position{line: 1682, col: 6, offset: 54416},
 																		expr: &actionExpr{
-																			pos: position{line: 1687, col: 5, offset: 54548},
+																			pos: position{line: 1687, col: 5, offset: 54566},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1687, col: 5, offset: 54548},
+																				pos: position{line: 1687, col: 5, offset: 54566},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1687, col: 5, offset: 54548},
+																						pos:   position{line: 1687, col: 5, offset: 54566},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 16, offset: 54559},
+																							pos: position{line: 1687, col: 16, offset: 54577},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1687, col: 16, offset: 54559},
+																								pos: position{line: 1687, col: 16, offset: 54577},
 																								expr: &litMatcher{
-																									pos:        position{line: 1687, col: 17, offset: 54560},
+																									pos:        position{line: 1687, col: 17, offset: 54578},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25571,7 +25609,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1690, col: 5, offset: 54617},
+																						pos: position{line: 1690, col: 5, offset: 54635},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25579,30 +25617,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1682, col: 35, offset: 54427},
+																		pos: position{line: 1682, col: 35, offset: 54445},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25611,16 +25649,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1682, col: 40, offset: 54432,
+																		line: 1682, col: 40, offset: 54450,
 																	},
 																},
 															},
@@ -25628,24 +25666,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54106},
+													pos:   position{line: 1675, col: 5, offset: 54124},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54548},
+														pos: position{line: 1687, col: 5, offset: 54566},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54548},
+															pos: position{line: 1687, col: 5, offset: 54566},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54548},
+																	pos:   position{line: 1687, col: 5, offset: 54566},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54559},
+																		pos: position{line: 1687, col: 16, offset: 54577},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54559},
+																			pos: position{line: 1687, col: 16, offset: 54577},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54560},
+																				pos:        position{line: 1687, col: 17, offset: 54578},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25654,7 +25692,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54617},
+																	pos: position{line: 1690, col: 5, offset: 54635},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25662,24 +25700,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54151},
+													pos:   position{line: 1676, col: 5, offset: 54169},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 54866},
+														pos: position{line: 1698, col: 5, offset: 54884},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54932},
+																pos: position{line: 1700, col: 9, offset: 54950},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54932},
+																	pos: position{line: 1700, col: 9, offset: 54950},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 54932},
+																			pos: position{line: 1700, col: 9, offset: 54950},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25688,28 +25726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25718,15 +25756,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 54951},
+																			pos: position{line: 1701, col: 9, offset: 54969},
 																			expr: &actionExpr{
 																				pos: position{line: 684, col: 14, offset: 21681},
 																				run: (*parser).callonListElements193,
@@ -25734,18 +25772,18 @@ var g = &grammar{
 																					pos: position{line: 684, col: 14, offset: 21681},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 684, col: 21, offset: 21688},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25754,28 +25792,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25784,9 +25822,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -25799,18 +25837,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55080},
+																pos: position{line: 1707, col: 9, offset: 55098},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55080},
+																	pos: position{line: 1707, col: 9, offset: 55098},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 90976},
+																			pos: position{line: 2877, col: 11, offset: 91008},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 90976},
+																				pos: position{line: 2877, col: 11, offset: 91008},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90976},
+																					pos:        position{line: 2877, col: 11, offset: 91008},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25819,15 +25857,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55153},
+																			pos:   position{line: 1708, col: 9, offset: 55171},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55162},
+																				pos: position{line: 1708, col: 18, offset: 55180},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55162},
+																					pos: position{line: 1708, col: 18, offset: 55180},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55162},
+																						pos:        position{line: 1708, col: 18, offset: 55180},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25837,28 +25875,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25867,9 +25905,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -25887,10 +25925,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1492, col: 5, offset: 48063},
+							pos:   position{line: 1492, col: 5, offset: 48081},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1492, col: 20, offset: 48078},
+								pos:  position{line: 1492, col: 20, offset: 48096},
 								name: "ExtraListElements",
 							},
 						},
@@ -25900,17 +25938,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1502, col: 1, offset: 48333},
+			pos:  position{line: 1502, col: 1, offset: 48351},
 			expr: &actionExpr{
-				pos: position{line: 1502, col: 22, offset: 48354},
+				pos: position{line: 1502, col: 22, offset: 48372},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1502, col: 22, offset: 48354},
+					pos:   position{line: 1502, col: 22, offset: 48372},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1502, col: 31, offset: 48363},
+						pos: position{line: 1502, col: 31, offset: 48381},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1502, col: 32, offset: 48364},
+							pos:  position{line: 1502, col: 32, offset: 48382},
 							name: "ExtraListElement",
 						},
 					},
@@ -25919,33 +25957,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1506, col: 1, offset: 48444},
+			pos:  position{line: 1506, col: 1, offset: 48462},
 			expr: &actionExpr{
-				pos: position{line: 1507, col: 5, offset: 48583},
+				pos: position{line: 1507, col: 5, offset: 48601},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1507, col: 5, offset: 48583},
+					pos: position{line: 1507, col: 5, offset: 48601},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1508, col: 5, offset: 48595},
+							pos:   position{line: 1508, col: 5, offset: 48613},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1509, col: 9, offset: 48613},
+								pos: position{line: 1509, col: 9, offset: 48631},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1509, col: 13, offset: 48617},
+										pos: position{line: 1509, col: 13, offset: 48635},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1509, col: 13, offset: 48617},
+											pos: position{line: 1509, col: 13, offset: 48635},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1509, col: 13, offset: 48617},
+													pos: position{line: 1509, col: 13, offset: 48635},
 													expr: &actionExpr{
 														pos: position{line: 684, col: 14, offset: 21681},
 														run: (*parser).callonExtraListElement10,
@@ -25953,18 +25991,18 @@ var g = &grammar{
 															pos: position{line: 684, col: 14, offset: 21681},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91249},
+																	pos: position{line: 2890, col: 11, offset: 91281},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91251,
+																		line: 2890, col: 13, offset: 91283,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 684, col: 21, offset: 21688},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25973,28 +26011,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26003,9 +26041,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -26015,33 +26053,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1510, col: 13, offset: 48641},
+													pos:   position{line: 1510, col: 13, offset: 48659},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1510, col: 22, offset: 48650},
+														pos: position{line: 1510, col: 22, offset: 48668},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1590, col: 5, offset: 51208},
+																pos: position{line: 1590, col: 5, offset: 51226},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1590, col: 5, offset: 51208},
+																	pos: position{line: 1590, col: 5, offset: 51226},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51208},
+																			pos:   position{line: 1590, col: 5, offset: 51226},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1597, col: 5, offset: 51416},
+																				pos: position{line: 1597, col: 5, offset: 51434},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1597, col: 5, offset: 51416},
+																					pos: position{line: 1597, col: 5, offset: 51434},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1597, col: 5, offset: 51416},
+																							pos: position{line: 1597, col: 5, offset: 51434},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26050,27 +26088,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1597, col: 12, offset: 51423},
+																							pos:   position{line: 1597, col: 12, offset: 51441},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1599, col: 9, offset: 51486},
+																								pos: position{line: 1599, col: 9, offset: 51504},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1599, col: 9, offset: 51486},
+																										pos: position{line: 1599, col: 9, offset: 51504},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1599, col: 9, offset: 51486},
+																											pos: position{line: 1599, col: 9, offset: 51504},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1599, col: 9, offset: 51486},
+																													pos:   position{line: 1599, col: 9, offset: 51504},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1599, col: 16, offset: 51493},
+																														pos: position{line: 1599, col: 16, offset: 51511},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1599, col: 16, offset: 51493},
+																															pos: position{line: 1599, col: 16, offset: 51511},
 																															expr: &litMatcher{
-																																pos:        position{line: 1599, col: 17, offset: 51494},
+																																pos:        position{line: 1599, col: 17, offset: 51512},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26079,22 +26117,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1603, col: 9, offset: 51594},
+																													pos: position{line: 1603, col: 9, offset: 51612},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 11, offset: 52311},
+																										pos: position{line: 1622, col: 11, offset: 52329},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 11, offset: 52311},
+																											pos: position{line: 1622, col: 11, offset: 52329},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 11, offset: 52311},
+																													pos: position{line: 1622, col: 11, offset: 52329},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 12, offset: 52312},
+																														pos:        position{line: 1622, col: 12, offset: 52330},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26102,7 +26140,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 20, offset: 52320},
+																													pos:        position{line: 1622, col: 20, offset: 52338},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26111,20 +26149,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52437},
+																										pos: position{line: 1624, col: 13, offset: 52455},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52437},
+																											pos: position{line: 1624, col: 13, offset: 52455},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1624, col: 14, offset: 52438},
+																													pos:        position{line: 1624, col: 14, offset: 52456},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 21, offset: 52445},
+																													pos:        position{line: 1624, col: 21, offset: 52463},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26133,20 +26171,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52565},
+																										pos: position{line: 1626, col: 13, offset: 52583},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52565},
+																											pos: position{line: 1626, col: 13, offset: 52583},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52566},
+																													pos:        position{line: 1626, col: 14, offset: 52584},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52573},
+																													pos:        position{line: 1626, col: 21, offset: 52591},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26155,15 +26193,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52693},
+																										pos: position{line: 1628, col: 13, offset: 52711},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52693},
+																											pos: position{line: 1628, col: 13, offset: 52711},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 13, offset: 52693},
+																													pos: position{line: 1628, col: 13, offset: 52711},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 14, offset: 52694},
+																														pos:        position{line: 1628, col: 14, offset: 52712},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26171,7 +26209,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 26, offset: 52706},
+																													pos:        position{line: 1628, col: 26, offset: 52724},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26180,15 +26218,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52826},
+																										pos: position{line: 1630, col: 13, offset: 52844},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52826},
+																											pos: position{line: 1630, col: 13, offset: 52844},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52826},
+																													pos: position{line: 1630, col: 13, offset: 52844},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52827},
+																														pos:        position{line: 1630, col: 14, offset: 52845},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26196,7 +26234,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52839},
+																													pos:        position{line: 1630, col: 26, offset: 52857},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26208,12 +26246,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26226,26 +26264,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1591, col: 5, offset: 51247},
+																			pos:   position{line: 1591, col: 5, offset: 51265},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26256,28 +26294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26286,9 +26324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -26301,27 +26339,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1640, col: 5, offset: 53105},
+																pos: position{line: 1640, col: 5, offset: 53123},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1640, col: 5, offset: 53105},
+																	pos: position{line: 1640, col: 5, offset: 53123},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53105},
+																			pos:   position{line: 1640, col: 5, offset: 53123},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1647, col: 5, offset: 53378},
+																				pos: position{line: 1647, col: 5, offset: 53396},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 5, offset: 53378},
+																					pos: position{line: 1647, col: 5, offset: 53396},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1647, col: 5, offset: 53378},
+																							pos: position{line: 1647, col: 5, offset: 53396},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26330,24 +26368,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1648, col: 5, offset: 53390},
+																							pos:   position{line: 1648, col: 5, offset: 53408},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1649, col: 9, offset: 53406},
+																								pos: position{line: 1649, col: 9, offset: 53424},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 10, offset: 53407},
+																									pos: position{line: 1649, col: 10, offset: 53425},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 11, offset: 53408},
+																											pos:        position{line: 1649, col: 11, offset: 53426},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 18, offset: 53415},
+																											pos: position{line: 1649, col: 18, offset: 53433},
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 19, offset: 53416},
+																												pos:        position{line: 1649, col: 19, offset: 53434},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26358,16 +26396,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1652, col: 7, offset: 53506},
+																							pos: position{line: 1652, col: 7, offset: 53524},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26380,56 +26418,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53146},
+																			pos:   position{line: 1641, col: 5, offset: 53164},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1641, col: 16, offset: 53157},
+																				pos: position{line: 1641, col: 16, offset: 53175},
 																				expr: &actionExpr{
-																					pos: position{line: 1662, col: 5, offset: 53771},
+																					pos: position{line: 1662, col: 5, offset: 53789},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 5, offset: 53771},
+																						pos: position{line: 1662, col: 5, offset: 53789},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1662, col: 5, offset: 53771},
+																								pos: position{line: 1662, col: 5, offset: 53789},
 																								expr: &litMatcher{
-																									pos:        position{line: 1662, col: 6, offset: 53772},
+																									pos:        position{line: 1662, col: 6, offset: 53790},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1662, col: 10, offset: 53776},
+																								pos:   position{line: 1662, col: 10, offset: 53794},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1663, col: 7, offset: 53790},
+																									pos: position{line: 1663, col: 7, offset: 53808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 53790},
+																											pos: position{line: 1663, col: 7, offset: 53808},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 53790},
+																												pos:        position{line: 1663, col: 7, offset: 53808},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 53835},
+																											pos: position{line: 1664, col: 7, offset: 53853},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 53835},
+																												pos:        position{line: 1664, col: 7, offset: 53853},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53878},
+																											pos: position{line: 1665, col: 7, offset: 53896},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53878},
+																												pos:        position{line: 1665, col: 7, offset: 53896},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26439,12 +26477,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 90976},
+																									pos: position{line: 2877, col: 11, offset: 91008},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 90976},
+																										pos:        position{line: 2877, col: 11, offset: 91008},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26458,26 +26496,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53196},
+																			pos:   position{line: 1642, col: 5, offset: 53214},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26488,28 +26526,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26518,9 +26556,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -26533,36 +26571,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 55718},
+																pos: position{line: 1730, col: 5, offset: 55736},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 55718},
+																	pos: position{line: 1730, col: 5, offset: 55736},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 55718},
+																			pos:   position{line: 1730, col: 5, offset: 55736},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 55915},
+																				pos: position{line: 1736, col: 5, offset: 55933},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 55915},
+																					pos: position{line: 1736, col: 5, offset: 55933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 55915},
+																							pos:        position{line: 1736, col: 5, offset: 55933},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 55919},
+																							pos:   position{line: 1736, col: 9, offset: 55937},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 55924},
+																								pos: position{line: 1736, col: 14, offset: 55942},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 55924},
+																									pos: position{line: 1736, col: 14, offset: 55942},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 55924},
+																										pos:        position{line: 1736, col: 14, offset: 55942},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26572,18 +26610,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 55972},
+																							pos:        position{line: 1736, col: 62, offset: 55990},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26596,26 +26634,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 55754},
+																			pos:   position{line: 1731, col: 5, offset: 55772},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26626,28 +26664,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26656,9 +26694,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -26671,40 +26709,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54071},
+																pos: position{line: 1674, col: 5, offset: 54089},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54071},
+																	pos: position{line: 1674, col: 5, offset: 54089},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54071},
+																			pos:   position{line: 1674, col: 5, offset: 54089},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54397},
+																				pos: position{line: 1682, col: 5, offset: 54415},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54397},
+																					pos: position{line: 1682, col: 5, offset: 54415},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54398},
+																						pos: position{line: 1682, col: 6, offset: 54416},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54398},
+																								pos: position{line: 1682, col: 6, offset: 54416},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54548},
+																									pos: position{line: 1687, col: 5, offset: 54566},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54548},
+																										pos: position{line: 1687, col: 5, offset: 54566},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54548},
+																												pos:   position{line: 1687, col: 5, offset: 54566},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54559},
+																													pos: position{line: 1687, col: 16, offset: 54577},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54559},
+																														pos: position{line: 1687, col: 16, offset: 54577},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54560},
+																															pos:        position{line: 1687, col: 17, offset: 54578},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26713,7 +26751,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54617},
+																												pos: position{line: 1690, col: 5, offset: 54635},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26721,30 +26759,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54427},
+																								pos: position{line: 1682, col: 35, offset: 54445},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26753,16 +26791,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54432,
+																								line: 1682, col: 40, offset: 54450,
 																							},
 																						},
 																					},
@@ -26770,24 +26808,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54106},
+																			pos:   position{line: 1675, col: 5, offset: 54124},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54548},
+																				pos: position{line: 1687, col: 5, offset: 54566},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54548},
+																					pos: position{line: 1687, col: 5, offset: 54566},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54548},
+																							pos:   position{line: 1687, col: 5, offset: 54566},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54559},
+																								pos: position{line: 1687, col: 16, offset: 54577},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54559},
+																									pos: position{line: 1687, col: 16, offset: 54577},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54560},
+																										pos:        position{line: 1687, col: 17, offset: 54578},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26796,7 +26834,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54617},
+																							pos: position{line: 1690, col: 5, offset: 54635},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26804,24 +26842,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54151},
+																			pos:   position{line: 1676, col: 5, offset: 54169},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 54866},
+																				pos: position{line: 1698, col: 5, offset: 54884},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54932},
+																						pos: position{line: 1700, col: 9, offset: 54950},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54932},
+																							pos: position{line: 1700, col: 9, offset: 54950},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 54932},
+																									pos: position{line: 1700, col: 9, offset: 54950},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26830,28 +26868,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26860,15 +26898,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 54951},
+																									pos: position{line: 1701, col: 9, offset: 54969},
 																									expr: &actionExpr{
 																										pos: position{line: 684, col: 14, offset: 21681},
 																										run: (*parser).callonExtraListElement215,
@@ -26876,18 +26914,18 @@ var g = &grammar{
 																											pos: position{line: 684, col: 14, offset: 21681},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91249},
+																													pos: position{line: 2890, col: 11, offset: 91281},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91251,
+																														line: 2890, col: 13, offset: 91283,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 684, col: 21, offset: 21688},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26896,28 +26934,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26926,9 +26964,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -26941,18 +26979,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55080},
+																						pos: position{line: 1707, col: 9, offset: 55098},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55080},
+																							pos: position{line: 1707, col: 9, offset: 55098},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90976},
+																									pos: position{line: 2877, col: 11, offset: 91008},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90976},
+																										pos: position{line: 2877, col: 11, offset: 91008},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90976},
+																											pos:        position{line: 2877, col: 11, offset: 91008},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26961,15 +26999,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55153},
+																									pos:   position{line: 1708, col: 9, offset: 55171},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55162},
+																										pos: position{line: 1708, col: 18, offset: 55180},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55162},
+																											pos: position{line: 1708, col: 18, offset: 55180},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55162},
+																												pos:        position{line: 1708, col: 18, offset: 55180},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26979,28 +27017,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27009,9 +27047,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -27032,50 +27070,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 13, offset: 48801},
+										pos: position{line: 1513, col: 13, offset: 48819},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 13, offset: 48801},
+											pos: position{line: 1513, col: 13, offset: 48819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1513, col: 13, offset: 48801},
+													pos:   position{line: 1513, col: 13, offset: 48819},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1513, col: 24, offset: 48812},
+														pos: position{line: 1513, col: 24, offset: 48830},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1513, col: 25, offset: 48813},
+															pos:  position{line: 1513, col: 25, offset: 48831},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1514, col: 13, offset: 48844},
+													pos:   position{line: 1514, col: 13, offset: 48862},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1514, col: 22, offset: 48853},
+														pos: position{line: 1514, col: 22, offset: 48871},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1590, col: 5, offset: 51208},
+																pos: position{line: 1590, col: 5, offset: 51226},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1590, col: 5, offset: 51208},
+																	pos: position{line: 1590, col: 5, offset: 51226},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51208},
+																			pos:   position{line: 1590, col: 5, offset: 51226},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1597, col: 5, offset: 51416},
+																				pos: position{line: 1597, col: 5, offset: 51434},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1597, col: 5, offset: 51416},
+																					pos: position{line: 1597, col: 5, offset: 51434},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1597, col: 5, offset: 51416},
+																							pos: position{line: 1597, col: 5, offset: 51434},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27084,27 +27122,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1597, col: 12, offset: 51423},
+																							pos:   position{line: 1597, col: 12, offset: 51441},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1599, col: 9, offset: 51486},
+																								pos: position{line: 1599, col: 9, offset: 51504},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1599, col: 9, offset: 51486},
+																										pos: position{line: 1599, col: 9, offset: 51504},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1599, col: 9, offset: 51486},
+																											pos: position{line: 1599, col: 9, offset: 51504},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1599, col: 9, offset: 51486},
+																													pos:   position{line: 1599, col: 9, offset: 51504},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1599, col: 16, offset: 51493},
+																														pos: position{line: 1599, col: 16, offset: 51511},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1599, col: 16, offset: 51493},
+																															pos: position{line: 1599, col: 16, offset: 51511},
 																															expr: &litMatcher{
-																																pos:        position{line: 1599, col: 17, offset: 51494},
+																																pos:        position{line: 1599, col: 17, offset: 51512},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27113,22 +27151,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1603, col: 9, offset: 51594},
+																													pos: position{line: 1603, col: 9, offset: 51612},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 11, offset: 52311},
+																										pos: position{line: 1622, col: 11, offset: 52329},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 11, offset: 52311},
+																											pos: position{line: 1622, col: 11, offset: 52329},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 11, offset: 52311},
+																													pos: position{line: 1622, col: 11, offset: 52329},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 12, offset: 52312},
+																														pos:        position{line: 1622, col: 12, offset: 52330},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27136,7 +27174,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 20, offset: 52320},
+																													pos:        position{line: 1622, col: 20, offset: 52338},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27145,20 +27183,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52437},
+																										pos: position{line: 1624, col: 13, offset: 52455},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52437},
+																											pos: position{line: 1624, col: 13, offset: 52455},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1624, col: 14, offset: 52438},
+																													pos:        position{line: 1624, col: 14, offset: 52456},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 21, offset: 52445},
+																													pos:        position{line: 1624, col: 21, offset: 52463},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27167,20 +27205,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52565},
+																										pos: position{line: 1626, col: 13, offset: 52583},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52565},
+																											pos: position{line: 1626, col: 13, offset: 52583},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52566},
+																													pos:        position{line: 1626, col: 14, offset: 52584},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52573},
+																													pos:        position{line: 1626, col: 21, offset: 52591},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27189,15 +27227,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52693},
+																										pos: position{line: 1628, col: 13, offset: 52711},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52693},
+																											pos: position{line: 1628, col: 13, offset: 52711},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 13, offset: 52693},
+																													pos: position{line: 1628, col: 13, offset: 52711},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 14, offset: 52694},
+																														pos:        position{line: 1628, col: 14, offset: 52712},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27205,7 +27243,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 26, offset: 52706},
+																													pos:        position{line: 1628, col: 26, offset: 52724},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27214,15 +27252,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52826},
+																										pos: position{line: 1630, col: 13, offset: 52844},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52826},
+																											pos: position{line: 1630, col: 13, offset: 52844},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52826},
+																													pos: position{line: 1630, col: 13, offset: 52844},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52827},
+																														pos:        position{line: 1630, col: 14, offset: 52845},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27230,7 +27268,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52839},
+																													pos:        position{line: 1630, col: 26, offset: 52857},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27242,12 +27280,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27260,26 +27298,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1591, col: 5, offset: 51247},
+																			pos:   position{line: 1591, col: 5, offset: 51265},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27290,28 +27328,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27320,9 +27358,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -27335,27 +27373,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1640, col: 5, offset: 53105},
+																pos: position{line: 1640, col: 5, offset: 53123},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1640, col: 5, offset: 53105},
+																	pos: position{line: 1640, col: 5, offset: 53123},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53105},
+																			pos:   position{line: 1640, col: 5, offset: 53123},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1647, col: 5, offset: 53378},
+																				pos: position{line: 1647, col: 5, offset: 53396},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 5, offset: 53378},
+																					pos: position{line: 1647, col: 5, offset: 53396},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1647, col: 5, offset: 53378},
+																							pos: position{line: 1647, col: 5, offset: 53396},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27364,24 +27402,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1648, col: 5, offset: 53390},
+																							pos:   position{line: 1648, col: 5, offset: 53408},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1649, col: 9, offset: 53406},
+																								pos: position{line: 1649, col: 9, offset: 53424},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 10, offset: 53407},
+																									pos: position{line: 1649, col: 10, offset: 53425},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 11, offset: 53408},
+																											pos:        position{line: 1649, col: 11, offset: 53426},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 18, offset: 53415},
+																											pos: position{line: 1649, col: 18, offset: 53433},
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 19, offset: 53416},
+																												pos:        position{line: 1649, col: 19, offset: 53434},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27392,16 +27430,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1652, col: 7, offset: 53506},
+																							pos: position{line: 1652, col: 7, offset: 53524},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27414,56 +27452,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53146},
+																			pos:   position{line: 1641, col: 5, offset: 53164},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1641, col: 16, offset: 53157},
+																				pos: position{line: 1641, col: 16, offset: 53175},
 																				expr: &actionExpr{
-																					pos: position{line: 1662, col: 5, offset: 53771},
+																					pos: position{line: 1662, col: 5, offset: 53789},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 5, offset: 53771},
+																						pos: position{line: 1662, col: 5, offset: 53789},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1662, col: 5, offset: 53771},
+																								pos: position{line: 1662, col: 5, offset: 53789},
 																								expr: &litMatcher{
-																									pos:        position{line: 1662, col: 6, offset: 53772},
+																									pos:        position{line: 1662, col: 6, offset: 53790},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1662, col: 10, offset: 53776},
+																								pos:   position{line: 1662, col: 10, offset: 53794},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1663, col: 7, offset: 53790},
+																									pos: position{line: 1663, col: 7, offset: 53808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 53790},
+																											pos: position{line: 1663, col: 7, offset: 53808},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 53790},
+																												pos:        position{line: 1663, col: 7, offset: 53808},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 53835},
+																											pos: position{line: 1664, col: 7, offset: 53853},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 53835},
+																												pos:        position{line: 1664, col: 7, offset: 53853},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53878},
+																											pos: position{line: 1665, col: 7, offset: 53896},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53878},
+																												pos:        position{line: 1665, col: 7, offset: 53896},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27473,12 +27511,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 90976},
+																									pos: position{line: 2877, col: 11, offset: 91008},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 90976},
+																										pos:        position{line: 2877, col: 11, offset: 91008},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27492,26 +27530,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53196},
+																			pos:   position{line: 1642, col: 5, offset: 53214},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27522,28 +27560,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27552,9 +27590,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -27567,36 +27605,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 55718},
+																pos: position{line: 1730, col: 5, offset: 55736},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 55718},
+																	pos: position{line: 1730, col: 5, offset: 55736},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 55718},
+																			pos:   position{line: 1730, col: 5, offset: 55736},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 55915},
+																				pos: position{line: 1736, col: 5, offset: 55933},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 55915},
+																					pos: position{line: 1736, col: 5, offset: 55933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 55915},
+																							pos:        position{line: 1736, col: 5, offset: 55933},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 55919},
+																							pos:   position{line: 1736, col: 9, offset: 55937},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 55924},
+																								pos: position{line: 1736, col: 14, offset: 55942},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 55924},
+																									pos: position{line: 1736, col: 14, offset: 55942},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 55924},
+																										pos:        position{line: 1736, col: 14, offset: 55942},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27606,18 +27644,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 55972},
+																							pos:        position{line: 1736, col: 62, offset: 55990},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27630,26 +27668,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 55754},
+																			pos:   position{line: 1731, col: 5, offset: 55772},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49714},
+																				pos: position{line: 1538, col: 5, offset: 49732},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49714},
+																					pos: position{line: 1538, col: 5, offset: 49732},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49714},
+																							pos:   position{line: 1538, col: 5, offset: 49732},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49723},
+																								pos: position{line: 1538, col: 14, offset: 49741},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49724},
+																									pos: position{line: 1538, col: 15, offset: 49742},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49724},
+																										pos: position{line: 1538, col: 15, offset: 49742},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49724},
+																											pos:        position{line: 1538, col: 15, offset: 49742},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27660,28 +27698,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27690,9 +27728,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -27705,40 +27743,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54071},
+																pos: position{line: 1674, col: 5, offset: 54089},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54071},
+																	pos: position{line: 1674, col: 5, offset: 54089},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54071},
+																			pos:   position{line: 1674, col: 5, offset: 54089},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54397},
+																				pos: position{line: 1682, col: 5, offset: 54415},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54397},
+																					pos: position{line: 1682, col: 5, offset: 54415},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54398},
+																						pos: position{line: 1682, col: 6, offset: 54416},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54398},
+																								pos: position{line: 1682, col: 6, offset: 54416},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54548},
+																									pos: position{line: 1687, col: 5, offset: 54566},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54548},
+																										pos: position{line: 1687, col: 5, offset: 54566},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54548},
+																												pos:   position{line: 1687, col: 5, offset: 54566},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54559},
+																													pos: position{line: 1687, col: 16, offset: 54577},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54559},
+																														pos: position{line: 1687, col: 16, offset: 54577},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54560},
+																															pos:        position{line: 1687, col: 17, offset: 54578},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27747,7 +27785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54617},
+																												pos: position{line: 1690, col: 5, offset: 54635},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27755,30 +27793,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54427},
+																								pos: position{line: 1682, col: 35, offset: 54445},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27787,16 +27825,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54432,
+																								line: 1682, col: 40, offset: 54450,
 																							},
 																						},
 																					},
@@ -27804,24 +27842,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54106},
+																			pos:   position{line: 1675, col: 5, offset: 54124},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54548},
+																				pos: position{line: 1687, col: 5, offset: 54566},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54548},
+																					pos: position{line: 1687, col: 5, offset: 54566},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54548},
+																							pos:   position{line: 1687, col: 5, offset: 54566},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54559},
+																								pos: position{line: 1687, col: 16, offset: 54577},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54559},
+																									pos: position{line: 1687, col: 16, offset: 54577},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54560},
+																										pos:        position{line: 1687, col: 17, offset: 54578},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27830,7 +27868,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54617},
+																							pos: position{line: 1690, col: 5, offset: 54635},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27838,24 +27876,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54151},
+																			pos:   position{line: 1676, col: 5, offset: 54169},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 54866},
+																				pos: position{line: 1698, col: 5, offset: 54884},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54932},
+																						pos: position{line: 1700, col: 9, offset: 54950},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54932},
+																							pos: position{line: 1700, col: 9, offset: 54950},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 54932},
+																									pos: position{line: 1700, col: 9, offset: 54950},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27864,28 +27902,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27894,15 +27932,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 54951},
+																									pos: position{line: 1701, col: 9, offset: 54969},
 																									expr: &actionExpr{
 																										pos: position{line: 684, col: 14, offset: 21681},
 																										run: (*parser).callonExtraListElement442,
@@ -27910,18 +27948,18 @@ var g = &grammar{
 																											pos: position{line: 684, col: 14, offset: 21681},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91249},
+																													pos: position{line: 2890, col: 11, offset: 91281},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91251,
+																														line: 2890, col: 13, offset: 91283,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 684, col: 21, offset: 21688},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27930,28 +27968,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27960,9 +27998,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -27975,18 +28013,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55080},
+																						pos: position{line: 1707, col: 9, offset: 55098},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55080},
+																							pos: position{line: 1707, col: 9, offset: 55098},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90976},
+																									pos: position{line: 2877, col: 11, offset: 91008},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90976},
+																										pos: position{line: 2877, col: 11, offset: 91008},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90976},
+																											pos:        position{line: 2877, col: 11, offset: 91008},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27995,15 +28033,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55153},
+																									pos:   position{line: 1708, col: 9, offset: 55171},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55162},
+																										pos: position{line: 1708, col: 18, offset: 55180},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55162},
+																											pos: position{line: 1708, col: 18, offset: 55180},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55162},
+																												pos:        position{line: 1708, col: 18, offset: 55180},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28013,28 +28051,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28043,9 +28081,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -28066,40 +28104,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1517, col: 11, offset: 49038},
+										pos:  position{line: 1517, col: 11, offset: 49056},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79900},
+										pos: position{line: 2483, col: 22, offset: 79918},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80121},
+													pos:        position{line: 2488, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80126},
+													pos: position{line: 2488, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80127},
+														pos:        position{line: 2488, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79927},
+													pos:   position{line: 2483, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89441},
+														pos: position{line: 2819, col: 13, offset: 89473},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89441},
+																pos:        position{line: 2819, col: 13, offset: 89473},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28109,28 +28147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28139,9 +28177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -28150,13 +28188,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1525, col: 5, offset: 49302},
+										pos: position{line: 1525, col: 5, offset: 49320},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1525, col: 5, offset: 49302},
+											pos: position{line: 1525, col: 5, offset: 49320},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49302},
+													pos: position{line: 1525, col: 5, offset: 49320},
 													expr: &actionExpr{
 														pos: position{line: 684, col: 14, offset: 21681},
 														run: (*parser).callonExtraListElement495,
@@ -28164,18 +28202,18 @@ var g = &grammar{
 															pos: position{line: 684, col: 14, offset: 21681},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91249},
+																	pos: position{line: 2890, col: 11, offset: 91281},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91251,
+																		line: 2890, col: 13, offset: 91283,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 684, col: 21, offset: 21688},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28184,28 +28222,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28214,9 +28252,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -28226,23 +28264,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49317},
+													pos: position{line: 1526, col: 5, offset: 49335},
 													expr: &seqExpr{
-														pos: position{line: 1556, col: 27, offset: 50222},
+														pos: position{line: 1556, col: 27, offset: 50240},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1556, col: 27, offset: 50222},
+																pos:        position{line: 1556, col: 27, offset: 50240},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1556, col: 31, offset: 50226},
+																pos: position{line: 1556, col: 31, offset: 50244},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28251,25 +28289,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
+																pos: position{line: 2882, col: 12, offset: 91118},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28281,20 +28319,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49345},
+													pos: position{line: 1527, col: 5, offset: 49363},
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51416},
+														pos: position{line: 1597, col: 5, offset: 51434},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51416},
+															pos: position{line: 1597, col: 5, offset: 51434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51416},
+																	pos: position{line: 1597, col: 5, offset: 51434},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28303,27 +28341,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51423},
+																	pos:   position{line: 1597, col: 12, offset: 51441},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51486},
+																		pos: position{line: 1599, col: 9, offset: 51504},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51486},
+																				pos: position{line: 1599, col: 9, offset: 51504},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51486},
+																					pos: position{line: 1599, col: 9, offset: 51504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51486},
+																							pos:   position{line: 1599, col: 9, offset: 51504},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51493},
+																								pos: position{line: 1599, col: 16, offset: 51511},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51493},
+																									pos: position{line: 1599, col: 16, offset: 51511},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51494},
+																										pos:        position{line: 1599, col: 17, offset: 51512},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28332,22 +28370,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51594},
+																							pos: position{line: 1603, col: 9, offset: 51612},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52311},
+																				pos: position{line: 1622, col: 11, offset: 52329},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52311},
+																					pos: position{line: 1622, col: 11, offset: 52329},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52311},
+																							pos: position{line: 1622, col: 11, offset: 52329},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52312},
+																								pos:        position{line: 1622, col: 12, offset: 52330},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28355,7 +28393,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52320},
+																							pos:        position{line: 1622, col: 20, offset: 52338},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28364,20 +28402,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52437},
+																				pos: position{line: 1624, col: 13, offset: 52455},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52437},
+																					pos: position{line: 1624, col: 13, offset: 52455},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52438},
+																							pos:        position{line: 1624, col: 14, offset: 52456},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52445},
+																							pos:        position{line: 1624, col: 21, offset: 52463},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28386,20 +28424,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52565},
+																				pos: position{line: 1626, col: 13, offset: 52583},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52565},
+																					pos: position{line: 1626, col: 13, offset: 52583},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52566},
+																							pos:        position{line: 1626, col: 14, offset: 52584},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52573},
+																							pos:        position{line: 1626, col: 21, offset: 52591},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28408,15 +28446,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52693},
+																				pos: position{line: 1628, col: 13, offset: 52711},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52693},
+																					pos: position{line: 1628, col: 13, offset: 52711},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52693},
+																							pos: position{line: 1628, col: 13, offset: 52711},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52694},
+																								pos:        position{line: 1628, col: 14, offset: 52712},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28424,7 +28462,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52706},
+																							pos:        position{line: 1628, col: 26, offset: 52724},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28433,15 +28471,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52826},
+																				pos: position{line: 1630, col: 13, offset: 52844},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52826},
+																					pos: position{line: 1630, col: 13, offset: 52844},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52826},
+																							pos: position{line: 1630, col: 13, offset: 52844},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52827},
+																								pos:        position{line: 1630, col: 14, offset: 52845},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28449,7 +28487,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52839},
+																							pos:        position{line: 1630, col: 26, offset: 52857},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28461,12 +28499,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28479,20 +28517,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49375},
+													pos: position{line: 1528, col: 5, offset: 49393},
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53378},
+														pos: position{line: 1647, col: 5, offset: 53396},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53378},
+															pos: position{line: 1647, col: 5, offset: 53396},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53378},
+																	pos: position{line: 1647, col: 5, offset: 53396},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28501,24 +28539,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53390},
+																	pos:   position{line: 1648, col: 5, offset: 53408},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53406},
+																		pos: position{line: 1649, col: 9, offset: 53424},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53407},
+																			pos: position{line: 1649, col: 10, offset: 53425},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53408},
+																					pos:        position{line: 1649, col: 11, offset: 53426},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53415},
+																					pos: position{line: 1649, col: 18, offset: 53433},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53416},
+																						pos:        position{line: 1649, col: 19, offset: 53434},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28529,16 +28567,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53506},
+																	pos: position{line: 1652, col: 7, offset: 53524},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28551,29 +28589,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49407},
+													pos: position{line: 1529, col: 5, offset: 49425},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55915},
+														pos: position{line: 1736, col: 5, offset: 55933},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55915},
+															pos: position{line: 1736, col: 5, offset: 55933},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55915},
+																	pos:        position{line: 1736, col: 5, offset: 55933},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55919},
+																	pos:   position{line: 1736, col: 9, offset: 55937},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55924},
+																		pos: position{line: 1736, col: 14, offset: 55942},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55924},
+																			pos: position{line: 1736, col: 14, offset: 55942},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55924},
+																				pos:        position{line: 1736, col: 14, offset: 55942},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28583,18 +28621,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55972},
+																	pos:        position{line: 1736, col: 62, offset: 55990},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28607,36 +28645,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1530, col: 5, offset: 49437},
+													pos: position{line: 1530, col: 5, offset: 49455},
 													expr: &seqExpr{
-														pos: position{line: 1530, col: 7, offset: 49439},
+														pos: position{line: 1530, col: 7, offset: 49457},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1682, col: 5, offset: 54397},
+																pos: position{line: 1682, col: 5, offset: 54415},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54397},
+																	pos: position{line: 1682, col: 5, offset: 54415},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54398},
+																		pos: position{line: 1682, col: 6, offset: 54416},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54398},
+																				pos: position{line: 1682, col: 6, offset: 54416},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54548},
+																					pos: position{line: 1687, col: 5, offset: 54566},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54548},
+																						pos: position{line: 1687, col: 5, offset: 54566},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54548},
+																								pos:   position{line: 1687, col: 5, offset: 54566},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54559},
+																									pos: position{line: 1687, col: 16, offset: 54577},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54559},
+																										pos: position{line: 1687, col: 16, offset: 54577},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54560},
+																											pos:        position{line: 1687, col: 17, offset: 54578},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28645,7 +28683,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54617},
+																								pos: position{line: 1690, col: 5, offset: 54635},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28653,30 +28691,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54427},
+																				pos: position{line: 1682, col: 35, offset: 54445},
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28685,37 +28723,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54432,
+																				line: 1682, col: 40, offset: 54450,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54548},
+																pos: position{line: 1687, col: 5, offset: 54566},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54548},
+																	pos: position{line: 1687, col: 5, offset: 54566},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54548},
+																			pos:   position{line: 1687, col: 5, offset: 54566},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54559},
+																				pos: position{line: 1687, col: 16, offset: 54577},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54559},
+																					pos: position{line: 1687, col: 16, offset: 54577},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54560},
+																						pos:        position{line: 1687, col: 17, offset: 54578},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28724,20 +28762,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54617},
+																			pos: position{line: 1690, col: 5, offset: 54635},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1530, col: 59, offset: 49491},
+																pos: position{line: 1530, col: 59, offset: 49509},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28745,25 +28783,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28772,9 +28810,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -28783,9 +28821,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1531, col: 5, offset: 49509},
+													pos: position{line: 1531, col: 5, offset: 49527},
 													expr: &choiceExpr{
-														pos: position{line: 1531, col: 7, offset: 49511},
+														pos: position{line: 1531, col: 7, offset: 49529},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 731, col: 5, offset: 23253},
@@ -28796,7 +28834,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 731, col: 5, offset: 23253},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2763, col: 13, offset: 88010},
+																				pos:        position{line: 2763, col: 13, offset: 88028},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28846,10 +28884,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 749, col: 8, offset: 23897},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28858,28 +28896,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28888,9 +28926,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -28935,10 +28973,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 756, col: 8, offset: 24145},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28985,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,9 +29015,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29020,10 +29058,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 767, col: 52, offset: 24557},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29032,28 +29070,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29062,9 +29100,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29109,10 +29147,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 763, col: 8, offset: 24391},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29121,28 +29159,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29151,9 +29189,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29198,10 +29236,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24929},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29210,28 +29248,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29240,9 +29278,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29287,10 +29325,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 792, col: 8, offset: 25405},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29299,28 +29337,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29329,9 +29367,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29376,10 +29414,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 799, col: 8, offset: 25657},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29388,28 +29426,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29418,9 +29456,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29465,10 +29503,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 806, col: 8, offset: 25907},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29477,28 +29515,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29507,9 +29545,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29554,10 +29592,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 813, col: 8, offset: 26153},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29566,28 +29604,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29596,9 +29634,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -29635,10 +29673,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25160},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29647,28 +29685,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29677,9 +29715,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -29688,21 +29726,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83598},
+																pos: position{line: 2615, col: 19, offset: 83616},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83598},
+																		pos:        position{line: 2615, col: 19, offset: 83616},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83605},
+																		pos: position{line: 2615, col: 26, offset: 83623},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29711,28 +29749,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29741,9 +29779,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -29754,15 +29792,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 5, offset: 49569},
+													pos:   position{line: 1532, col: 5, offset: 49587},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 14, offset: 89508},
+														pos: position{line: 2823, col: 14, offset: 89540},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2823, col: 14, offset: 89508},
+															pos: position{line: 2823, col: 14, offset: 89540},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 14, offset: 89508},
+																pos:        position{line: 2823, col: 14, offset: 89540},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29772,28 +29810,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29802,9 +29840,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -29821,28 +29859,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1548, col: 1, offset: 49960},
+			pos:  position{line: 1548, col: 1, offset: 49978},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 49985},
+				pos: position{line: 1549, col: 5, offset: 50003},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 49985},
+					pos: position{line: 1549, col: 5, offset: 50003},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 49985},
+							pos:   position{line: 1549, col: 5, offset: 50003},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1549, col: 12, offset: 49992},
+								pos: position{line: 1549, col: 12, offset: 50010},
 								expr: &seqExpr{
-									pos: position{line: 1549, col: 13, offset: 49993},
+									pos: position{line: 1549, col: 13, offset: 50011},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1549, col: 13, offset: 49993},
+											pos: position{line: 1549, col: 13, offset: 50011},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90915},
+												pos: position{line: 2873, col: 10, offset: 90947},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90915},
+													pos:        position{line: 2873, col: 10, offset: 90947},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29851,25 +29889,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2882, col: 12, offset: 91086},
+											pos: position{line: 2882, col: 12, offset: 91118},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2882, col: 13, offset: 91087},
+												pos: position{line: 2882, col: 13, offset: 91119},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2882, col: 13, offset: 91087},
+														pos:        position{line: 2882, col: 13, offset: 91119},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 20, offset: 91094},
+														pos:        position{line: 2882, col: 20, offset: 91126},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 29, offset: 91103},
+														pos:        position{line: 2882, col: 29, offset: 91135},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29882,18 +29920,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1550, col: 5, offset: 50015},
+							pos:        position{line: 1550, col: 5, offset: 50033},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1550, col: 9, offset: 50019},
+							pos: position{line: 1550, col: 9, offset: 50037},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29902,28 +29940,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29932,26 +29970,26 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50034},
+							pos:   position{line: 1551, col: 5, offset: 50052},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 13, offset: 50042},
+								pos: position{line: 1551, col: 13, offset: 50060},
 								expr: &actionExpr{
-									pos: position{line: 1551, col: 14, offset: 50043},
+									pos: position{line: 1551, col: 14, offset: 50061},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1551, col: 14, offset: 50043},
+										pos: position{line: 1551, col: 14, offset: 50061},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1551, col: 14, offset: 50043},
+												pos: position{line: 1551, col: 14, offset: 50061},
 												expr: &actionExpr{
 													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonListContinuation31,
@@ -29959,18 +29997,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29979,28 +30017,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30009,9 +30047,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -30021,10 +30059,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1551, col: 25, offset: 50054},
+												pos:   position{line: 1551, col: 25, offset: 50072},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1551, col: 27, offset: 50056},
+													pos:  position{line: 1551, col: 27, offset: 50074},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30039,46 +30077,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1558, col: 1, offset: 50242},
+			pos:  position{line: 1558, col: 1, offset: 50260},
 			expr: &actionExpr{
-				pos: position{line: 1559, col: 5, offset: 50288},
+				pos: position{line: 1559, col: 5, offset: 50306},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1559, col: 5, offset: 50288},
+					pos: position{line: 1559, col: 5, offset: 50306},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1560, col: 5, offset: 50316},
+							pos: position{line: 1560, col: 5, offset: 50334},
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 5, offset: 48234},
+								pos: position{line: 1497, col: 5, offset: 48252},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1590, col: 5, offset: 51208},
+										pos: position{line: 1590, col: 5, offset: 51226},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1590, col: 5, offset: 51208},
+											pos: position{line: 1590, col: 5, offset: 51226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51208},
+													pos:   position{line: 1590, col: 5, offset: 51226},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51416},
+														pos: position{line: 1597, col: 5, offset: 51434},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51416},
+															pos: position{line: 1597, col: 5, offset: 51434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51416},
+																	pos: position{line: 1597, col: 5, offset: 51434},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30087,27 +30125,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51423},
+																	pos:   position{line: 1597, col: 12, offset: 51441},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51486},
+																		pos: position{line: 1599, col: 9, offset: 51504},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51486},
+																				pos: position{line: 1599, col: 9, offset: 51504},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51486},
+																					pos: position{line: 1599, col: 9, offset: 51504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51486},
+																							pos:   position{line: 1599, col: 9, offset: 51504},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51493},
+																								pos: position{line: 1599, col: 16, offset: 51511},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51493},
+																									pos: position{line: 1599, col: 16, offset: 51511},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51494},
+																										pos:        position{line: 1599, col: 17, offset: 51512},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30116,22 +30154,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51594},
+																							pos: position{line: 1603, col: 9, offset: 51612},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52311},
+																				pos: position{line: 1622, col: 11, offset: 52329},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52311},
+																					pos: position{line: 1622, col: 11, offset: 52329},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52311},
+																							pos: position{line: 1622, col: 11, offset: 52329},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52312},
+																								pos:        position{line: 1622, col: 12, offset: 52330},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30139,7 +30177,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52320},
+																							pos:        position{line: 1622, col: 20, offset: 52338},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30148,20 +30186,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52437},
+																				pos: position{line: 1624, col: 13, offset: 52455},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52437},
+																					pos: position{line: 1624, col: 13, offset: 52455},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52438},
+																							pos:        position{line: 1624, col: 14, offset: 52456},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52445},
+																							pos:        position{line: 1624, col: 21, offset: 52463},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30170,20 +30208,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52565},
+																				pos: position{line: 1626, col: 13, offset: 52583},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52565},
+																					pos: position{line: 1626, col: 13, offset: 52583},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52566},
+																							pos:        position{line: 1626, col: 14, offset: 52584},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52573},
+																							pos:        position{line: 1626, col: 21, offset: 52591},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30192,15 +30230,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52693},
+																				pos: position{line: 1628, col: 13, offset: 52711},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52693},
+																					pos: position{line: 1628, col: 13, offset: 52711},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52693},
+																							pos: position{line: 1628, col: 13, offset: 52711},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52694},
+																								pos:        position{line: 1628, col: 14, offset: 52712},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30208,7 +30246,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52706},
+																							pos:        position{line: 1628, col: 26, offset: 52724},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30217,15 +30255,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52826},
+																				pos: position{line: 1630, col: 13, offset: 52844},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52826},
+																					pos: position{line: 1630, col: 13, offset: 52844},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52826},
+																							pos: position{line: 1630, col: 13, offset: 52844},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52827},
+																								pos:        position{line: 1630, col: 14, offset: 52845},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30233,7 +30271,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52839},
+																							pos:        position{line: 1630, col: 26, offset: 52857},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30245,12 +30283,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30263,26 +30301,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1591, col: 5, offset: 51247},
+													pos:   position{line: 1591, col: 5, offset: 51265},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30293,28 +30331,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30323,9 +30361,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -30338,27 +30376,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1640, col: 5, offset: 53105},
+										pos: position{line: 1640, col: 5, offset: 53123},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1640, col: 5, offset: 53105},
+											pos: position{line: 1640, col: 5, offset: 53123},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53105},
+													pos:   position{line: 1640, col: 5, offset: 53123},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53378},
+														pos: position{line: 1647, col: 5, offset: 53396},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53378},
+															pos: position{line: 1647, col: 5, offset: 53396},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53378},
+																	pos: position{line: 1647, col: 5, offset: 53396},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30367,24 +30405,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53390},
+																	pos:   position{line: 1648, col: 5, offset: 53408},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53406},
+																		pos: position{line: 1649, col: 9, offset: 53424},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53407},
+																			pos: position{line: 1649, col: 10, offset: 53425},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53408},
+																					pos:        position{line: 1649, col: 11, offset: 53426},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53415},
+																					pos: position{line: 1649, col: 18, offset: 53433},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53416},
+																						pos:        position{line: 1649, col: 19, offset: 53434},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30395,16 +30433,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53506},
+																	pos: position{line: 1652, col: 7, offset: 53524},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30417,56 +30455,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53146},
+													pos:   position{line: 1641, col: 5, offset: 53164},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1641, col: 16, offset: 53157},
+														pos: position{line: 1641, col: 16, offset: 53175},
 														expr: &actionExpr{
-															pos: position{line: 1662, col: 5, offset: 53771},
+															pos: position{line: 1662, col: 5, offset: 53789},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 5, offset: 53771},
+																pos: position{line: 1662, col: 5, offset: 53789},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1662, col: 5, offset: 53771},
+																		pos: position{line: 1662, col: 5, offset: 53789},
 																		expr: &litMatcher{
-																			pos:        position{line: 1662, col: 6, offset: 53772},
+																			pos:        position{line: 1662, col: 6, offset: 53790},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1662, col: 10, offset: 53776},
+																		pos:   position{line: 1662, col: 10, offset: 53794},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1663, col: 7, offset: 53790},
+																			pos: position{line: 1663, col: 7, offset: 53808},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 53790},
+																					pos: position{line: 1663, col: 7, offset: 53808},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 53790},
+																						pos:        position{line: 1663, col: 7, offset: 53808},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 53835},
+																					pos: position{line: 1664, col: 7, offset: 53853},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 53835},
+																						pos:        position{line: 1664, col: 7, offset: 53853},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53878},
+																					pos: position{line: 1665, col: 7, offset: 53896},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53878},
+																						pos:        position{line: 1665, col: 7, offset: 53896},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30476,12 +30514,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 90976},
+																			pos: position{line: 2877, col: 11, offset: 91008},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 90976},
+																				pos:        position{line: 2877, col: 11, offset: 91008},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30495,26 +30533,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53196},
+													pos:   position{line: 1642, col: 5, offset: 53214},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30525,28 +30563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30555,9 +30593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -30570,36 +30608,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 55718},
+										pos: position{line: 1730, col: 5, offset: 55736},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 55718},
+											pos: position{line: 1730, col: 5, offset: 55736},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 55718},
+													pos:   position{line: 1730, col: 5, offset: 55736},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55915},
+														pos: position{line: 1736, col: 5, offset: 55933},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55915},
+															pos: position{line: 1736, col: 5, offset: 55933},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55915},
+																	pos:        position{line: 1736, col: 5, offset: 55933},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55919},
+																	pos:   position{line: 1736, col: 9, offset: 55937},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55924},
+																		pos: position{line: 1736, col: 14, offset: 55942},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55924},
+																			pos: position{line: 1736, col: 14, offset: 55942},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55924},
+																				pos:        position{line: 1736, col: 14, offset: 55942},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30609,18 +30647,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55972},
+																	pos:        position{line: 1736, col: 62, offset: 55990},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30633,26 +30671,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 55754},
+													pos:   position{line: 1731, col: 5, offset: 55772},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49714},
+														pos: position{line: 1538, col: 5, offset: 49732},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49714},
+															pos: position{line: 1538, col: 5, offset: 49732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49714},
+																	pos:   position{line: 1538, col: 5, offset: 49732},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49723},
+																		pos: position{line: 1538, col: 14, offset: 49741},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49724},
+																			pos: position{line: 1538, col: 15, offset: 49742},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49724},
+																				pos: position{line: 1538, col: 15, offset: 49742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49724},
+																					pos:        position{line: 1538, col: 15, offset: 49742},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30663,28 +30701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30693,9 +30731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -30708,40 +30746,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1674, col: 5, offset: 54071},
+										pos: position{line: 1674, col: 5, offset: 54089},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1674, col: 5, offset: 54071},
+											pos: position{line: 1674, col: 5, offset: 54089},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54071},
+													pos:   position{line: 1674, col: 5, offset: 54089},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1682, col: 5, offset: 54397},
+														pos: position{line: 1682, col: 5, offset: 54415},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1682, col: 5, offset: 54397},
+															pos: position{line: 1682, col: 5, offset: 54415},
 															expr: &seqExpr{
-																pos: position{line: 1682, col: 6, offset: 54398},
+																pos: position{line: 1682, col: 6, offset: 54416},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1682, col: 6, offset: 54398},
+																		pos: position{line: 1682, col: 6, offset: 54416},
 																		expr: &actionExpr{
-																			pos: position{line: 1687, col: 5, offset: 54548},
+																			pos: position{line: 1687, col: 5, offset: 54566},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1687, col: 5, offset: 54548},
+																				pos: position{line: 1687, col: 5, offset: 54566},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1687, col: 5, offset: 54548},
+																						pos:   position{line: 1687, col: 5, offset: 54566},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 16, offset: 54559},
+																							pos: position{line: 1687, col: 16, offset: 54577},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1687, col: 16, offset: 54559},
+																								pos: position{line: 1687, col: 16, offset: 54577},
 																								expr: &litMatcher{
-																									pos:        position{line: 1687, col: 17, offset: 54560},
+																									pos:        position{line: 1687, col: 17, offset: 54578},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30750,7 +30788,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1690, col: 5, offset: 54617},
+																						pos: position{line: 1690, col: 5, offset: 54635},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30758,30 +30796,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1682, col: 35, offset: 54427},
+																		pos: position{line: 1682, col: 35, offset: 54445},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30790,16 +30828,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1682, col: 40, offset: 54432,
+																		line: 1682, col: 40, offset: 54450,
 																	},
 																},
 															},
@@ -30807,24 +30845,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54106},
+													pos:   position{line: 1675, col: 5, offset: 54124},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54548},
+														pos: position{line: 1687, col: 5, offset: 54566},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54548},
+															pos: position{line: 1687, col: 5, offset: 54566},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54548},
+																	pos:   position{line: 1687, col: 5, offset: 54566},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54559},
+																		pos: position{line: 1687, col: 16, offset: 54577},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54559},
+																			pos: position{line: 1687, col: 16, offset: 54577},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54560},
+																				pos:        position{line: 1687, col: 17, offset: 54578},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30833,7 +30871,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54617},
+																	pos: position{line: 1690, col: 5, offset: 54635},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30841,24 +30879,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54151},
+													pos:   position{line: 1676, col: 5, offset: 54169},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 54866},
+														pos: position{line: 1698, col: 5, offset: 54884},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54932},
+																pos: position{line: 1700, col: 9, offset: 54950},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54932},
+																	pos: position{line: 1700, col: 9, offset: 54950},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 54932},
+																			pos: position{line: 1700, col: 9, offset: 54950},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30867,28 +30905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30897,15 +30935,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 54951},
+																			pos: position{line: 1701, col: 9, offset: 54969},
 																			expr: &actionExpr{
 																				pos: position{line: 684, col: 14, offset: 21681},
 																				run: (*parser).callonListContinuationElement195,
@@ -30913,18 +30951,18 @@ var g = &grammar{
 																					pos: position{line: 684, col: 14, offset: 21681},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91249},
+																							pos: position{line: 2890, col: 11, offset: 91281},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91251,
+																								line: 2890, col: 13, offset: 91283,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 684, col: 21, offset: 21688},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30933,28 +30971,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30963,9 +31001,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -30978,18 +31016,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55080},
+																pos: position{line: 1707, col: 9, offset: 55098},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55080},
+																	pos: position{line: 1707, col: 9, offset: 55098},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 90976},
+																			pos: position{line: 2877, col: 11, offset: 91008},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 90976},
+																				pos: position{line: 2877, col: 11, offset: 91008},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 90976},
+																					pos:        position{line: 2877, col: 11, offset: 91008},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30998,15 +31036,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55153},
+																			pos:   position{line: 1708, col: 9, offset: 55171},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55162},
+																				pos: position{line: 1708, col: 18, offset: 55180},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55162},
+																					pos: position{line: 1708, col: 18, offset: 55180},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55162},
+																						pos:        position{line: 1708, col: 18, offset: 55180},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31016,28 +31054,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31046,9 +31084,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -31066,21 +31104,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50333},
+							pos:   position{line: 1561, col: 5, offset: 50351},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1561, col: 16, offset: 50344},
+								pos: position{line: 1561, col: 16, offset: 50362},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1561, col: 17, offset: 50345},
+									pos:  position{line: 1561, col: 17, offset: 50363},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50367},
+							pos:   position{line: 1562, col: 5, offset: 50385},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1563, col: 9, offset: 50385},
+								pos: position{line: 1563, col: 9, offset: 50403},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 684, col: 14, offset: 21681},
@@ -31089,18 +31127,18 @@ var g = &grammar{
 											pos: position{line: 684, col: 14, offset: 21681},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2890, col: 11, offset: 91249},
+													pos: position{line: 2890, col: 11, offset: 91281},
 													expr: &anyMatcher{
-														line: 2890, col: 13, offset: 91251,
+														line: 2890, col: 13, offset: 91283,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 684, col: 21, offset: 21688},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31109,28 +31147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31139,9 +31177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -31150,7 +31188,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1564, col: 11, offset: 50405},
+										pos:  position{line: 1564, col: 11, offset: 50423},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31206,10 +31244,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31218,28 +31256,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31248,9 +31286,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -31311,10 +31349,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31323,28 +31361,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31353,9 +31391,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -31409,10 +31447,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23897},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31421,28 +31459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31451,9 +31489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -31525,10 +31563,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23897},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31537,28 +31575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31567,9 +31605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -31585,9 +31623,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -31603,21 +31641,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31627,28 +31665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31657,9 +31695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -31721,10 +31759,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23897},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31733,28 +31771,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31763,9 +31801,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -31781,9 +31819,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -31838,10 +31876,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24145},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31850,28 +31888,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31880,9 +31918,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -31954,10 +31992,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24145},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31966,28 +32004,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31996,9 +32034,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -32014,9 +32052,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -32032,21 +32070,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32056,28 +32094,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32086,9 +32124,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -32153,10 +32191,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24145},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32165,28 +32203,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32195,9 +32233,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -32213,9 +32251,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -32267,10 +32305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 767, col: 52, offset: 24557},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32279,28 +32317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32309,9 +32347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -32345,10 +32383,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 978, col: 40, offset: 30566},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32357,28 +32395,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32387,9 +32425,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -32407,21 +32445,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32431,28 +32469,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32461,9 +32499,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -32491,10 +32529,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 978, col: 40, offset: 30566},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32503,28 +32541,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32533,9 +32571,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -32592,10 +32630,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 763, col: 8, offset: 24391},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32604,28 +32642,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32634,9 +32672,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -32708,10 +32746,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 763, col: 8, offset: 24391},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32720,28 +32758,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32750,9 +32788,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -32768,9 +32806,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -32786,21 +32824,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32810,28 +32848,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32840,9 +32878,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -32907,10 +32945,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 763, col: 8, offset: 24391},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32919,28 +32957,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32949,9 +32987,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -32967,9 +33005,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -33025,10 +33063,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24929},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33037,28 +33075,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33067,9 +33105,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -33141,10 +33179,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 778, col: 8, offset: 24929},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33153,28 +33191,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33183,9 +33221,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -33201,9 +33239,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -33219,21 +33257,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33243,28 +33281,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33273,9 +33311,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -33340,10 +33378,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 778, col: 8, offset: 24929},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33352,28 +33390,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33382,9 +33420,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -33400,9 +33438,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -33458,10 +33496,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25405},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33470,28 +33508,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33500,9 +33538,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -33574,10 +33612,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25405},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33586,28 +33624,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33616,9 +33654,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -33634,9 +33672,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -33652,21 +33690,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33676,28 +33714,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33706,9 +33744,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -33773,10 +33811,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25405},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33785,28 +33823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33815,9 +33853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -33833,9 +33871,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -33869,18 +33907,18 @@ var g = &grammar{
 																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91249},
+																					pos: position{line: 2890, col: 11, offset: 91281},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91251,
+																						line: 2890, col: 13, offset: 91283,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33889,28 +33927,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33919,9 +33957,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -33940,12 +33978,12 @@ var g = &grammar{
 																	pos:   position{line: 999, col: 5, offset: 31101},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89508},
+																		pos: position{line: 2823, col: 14, offset: 89540},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89508},
+																			pos: position{line: 2823, col: 14, offset: 89540},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89508},
+																				pos:        position{line: 2823, col: 14, offset: 89540},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33955,28 +33993,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33985,9 +34023,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -34019,18 +34057,18 @@ var g = &grammar{
 																						pos: position{line: 684, col: 14, offset: 21681},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2890, col: 11, offset: 91249},
+																								pos: position{line: 2890, col: 11, offset: 91281},
 																								expr: &anyMatcher{
-																									line: 2890, col: 13, offset: 91251,
+																									line: 2890, col: 13, offset: 91283,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 684, col: 21, offset: 21688},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34039,28 +34077,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34069,9 +34107,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -34090,12 +34128,12 @@ var g = &grammar{
 																				pos:   position{line: 999, col: 5, offset: 31101},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89508},
+																					pos: position{line: 2823, col: 14, offset: 89540},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89508},
+																						pos: position{line: 2823, col: 14, offset: 89540},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89508},
+																							pos:        position{line: 2823, col: 14, offset: 89540},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34105,28 +34143,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91313},
+																				pos: position{line: 2895, col: 8, offset: 91345},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91086},
+																						pos: position{line: 2882, col: 12, offset: 91118},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91087},
+																							pos: position{line: 2882, col: 13, offset: 91119},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91087},
+																									pos:        position{line: 2882, col: 13, offset: 91119},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91094},
+																									pos:        position{line: 2882, col: 20, offset: 91126},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91103},
+																									pos:        position{line: 2882, col: 29, offset: 91135},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34135,9 +34173,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -34146,21 +34184,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1805, col: 5, offset: 58284},
+																	pos: position{line: 1805, col: 5, offset: 58302},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1805, col: 5, offset: 58284},
+																		pos: position{line: 1805, col: 5, offset: 58302},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1805, col: 5, offset: 58284},
+																				pos:   position{line: 1805, col: 5, offset: 58302},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89508},
+																					pos: position{line: 2823, col: 14, offset: 89540},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89508},
+																						pos: position{line: 2823, col: 14, offset: 89540},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89508},
+																							pos:        position{line: 2823, col: 14, offset: 89540},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34170,32 +34208,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1806, col: 5, offset: 58308},
+																				pos: position{line: 1806, col: 5, offset: 58326},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91313},
+																				pos: position{line: 2895, col: 8, offset: 91345},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91086},
+																						pos: position{line: 2882, col: 12, offset: 91118},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91087},
+																							pos: position{line: 2882, col: 13, offset: 91119},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91087},
+																									pos:        position{line: 2882, col: 13, offset: 91119},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91094},
+																									pos:        position{line: 2882, col: 20, offset: 91126},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91103},
+																									pos:        position{line: 2882, col: 29, offset: 91135},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34204,9 +34242,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -34253,10 +34291,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25160},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34265,28 +34303,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34295,9 +34333,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -34345,10 +34383,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25160},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34357,28 +34395,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34387,9 +34425,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -34398,9 +34436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -34416,21 +34454,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34440,28 +34478,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34470,9 +34508,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -34517,10 +34555,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 785, col: 8, offset: 25160},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90915},
+																					pos: position{line: 2873, col: 10, offset: 90947},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90915},
+																						pos:        position{line: 2873, col: 10, offset: 90947},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34529,28 +34567,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91313},
+																				pos: position{line: 2895, col: 8, offset: 91345},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91086},
+																						pos: position{line: 2882, col: 12, offset: 91118},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91087},
+																							pos: position{line: 2882, col: 13, offset: 91119},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91087},
+																									pos:        position{line: 2882, col: 13, offset: 91119},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91094},
+																									pos:        position{line: 2882, col: 20, offset: 91126},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91103},
+																									pos:        position{line: 2882, col: 29, offset: 91135},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34559,9 +34597,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -34570,9 +34608,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -34628,10 +34666,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25657},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34640,28 +34678,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34670,9 +34708,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -34744,10 +34782,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25657},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34756,28 +34794,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34786,9 +34824,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -34804,9 +34842,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -34822,21 +34860,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34846,28 +34884,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34876,9 +34914,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -34943,10 +34981,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25657},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34955,28 +34993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34985,9 +35023,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -35003,9 +35041,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -35061,10 +35099,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25907},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35073,28 +35111,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35103,9 +35141,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -35177,10 +35215,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25907},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35189,28 +35227,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35219,9 +35257,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -35237,9 +35275,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -35255,21 +35293,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35279,28 +35317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35309,9 +35347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -35376,10 +35414,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25907},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35388,28 +35426,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35418,9 +35456,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -35436,9 +35474,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -35494,10 +35532,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 813, col: 8, offset: 26153},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35506,28 +35544,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35536,9 +35574,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -35610,10 +35648,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 813, col: 8, offset: 26153},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90915},
+																												pos: position{line: 2873, col: 10, offset: 90947},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90915},
+																													pos:        position{line: 2873, col: 10, offset: 90947},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35622,28 +35660,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91313},
+																											pos: position{line: 2895, col: 8, offset: 91345},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91086},
+																													pos: position{line: 2882, col: 12, offset: 91118},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91087},
+																														pos: position{line: 2882, col: 13, offset: 91119},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35652,9 +35690,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91263},
+																													pos: position{line: 2892, col: 8, offset: 91295},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91264,
+																														line: 2892, col: 9, offset: 91296,
 																													},
 																												},
 																											},
@@ -35670,9 +35708,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -35688,21 +35726,21 @@ var g = &grammar{
 																				pos: position{line: 818, col: 5, offset: 26299},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91249},
+																						pos: position{line: 2890, col: 11, offset: 91281},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91251,
+																							line: 2890, col: 13, offset: 91283,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 819, col: 5, offset: 26374},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89441},
+																							pos: position{line: 2819, col: 13, offset: 89473},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89441},
+																								pos: position{line: 2819, col: 13, offset: 89473},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89441},
+																									pos:        position{line: 2819, col: 13, offset: 89473},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35712,28 +35750,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35742,9 +35780,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -35809,10 +35847,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 813, col: 8, offset: 26153},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35821,28 +35859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35851,9 +35889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -35869,9 +35907,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -35882,27 +35920,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2718, col: 18, offset: 86505},
+										pos: position{line: 2718, col: 18, offset: 86523},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2719, col: 9, offset: 86515},
+											pos: position{line: 2719, col: 9, offset: 86533},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2719, col: 9, offset: 86515},
+													pos: position{line: 2719, col: 9, offset: 86533},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2719, col: 9, offset: 86515},
+															pos:        position{line: 2719, col: 9, offset: 86533},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2719, col: 15, offset: 86521},
+															pos: position{line: 2719, col: 15, offset: 86539},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35911,28 +35949,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91313},
+															pos: position{line: 2895, col: 8, offset: 91345},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91086},
+																	pos: position{line: 2882, col: 12, offset: 91118},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91087},
+																		pos: position{line: 2882, col: 13, offset: 91119},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91087},
+																				pos:        position{line: 2882, col: 13, offset: 91119},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91094},
+																				pos:        position{line: 2882, col: 20, offset: 91126},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91103},
+																				pos:        position{line: 2882, col: 29, offset: 91135},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35941,9 +35979,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -35951,43 +35989,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2720, col: 11, offset: 86554},
+													pos: position{line: 2720, col: 11, offset: 86572},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2720, col: 12, offset: 86555},
+															pos: position{line: 2720, col: 12, offset: 86573},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2720, col: 12, offset: 86555},
+																	pos:        position{line: 2720, col: 12, offset: 86573},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 20, offset: 86563},
+																	pos:        position{line: 2720, col: 20, offset: 86581},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 30, offset: 86573},
+																	pos:        position{line: 2720, col: 30, offset: 86591},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 38, offset: 86581},
+																	pos:        position{line: 2720, col: 38, offset: 86599},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 48, offset: 86591},
+																	pos:        position{line: 2720, col: 48, offset: 86609},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 56, offset: 86599},
+																	pos:        position{line: 2720, col: 56, offset: 86617},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -35995,12 +36033,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2720, col: 65, offset: 86608},
+															pos: position{line: 2720, col: 65, offset: 86626},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36009,28 +36047,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91313},
+															pos: position{line: 2895, col: 8, offset: 91345},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91086},
+																	pos: position{line: 2882, col: 12, offset: 91118},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91087},
+																		pos: position{line: 2882, col: 13, offset: 91119},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91087},
+																				pos:        position{line: 2882, col: 13, offset: 91119},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91094},
+																				pos:        position{line: 2882, col: 20, offset: 91126},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91103},
+																				pos:        position{line: 2882, col: 29, offset: 91135},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36039,38 +36077,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2720, col: 76, offset: 86619},
+															pos: position{line: 2720, col: 76, offset: 86637},
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36079,9 +36117,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -36093,28 +36131,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1568, col: 11, offset: 50547},
+										pos:  position{line: 1568, col: 11, offset: 50565},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2609, col: 5, offset: 83441},
+										pos: position{line: 2609, col: 5, offset: 83459},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2609, col: 5, offset: 83441},
+											pos: position{line: 2609, col: 5, offset: 83459},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2615, col: 19, offset: 83598},
+													pos:        position{line: 2615, col: 19, offset: 83616},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2615, col: 26, offset: 83605},
+													pos: position{line: 2615, col: 26, offset: 83623},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
+														pos: position{line: 2873, col: 10, offset: 90947},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36123,28 +36161,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36153,20 +36191,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2610, col: 5, offset: 83465},
+													pos:   position{line: 2610, col: 5, offset: 83483},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2610, col: 11, offset: 83471},
+														pos: position{line: 2610, col: 11, offset: 83489},
 														expr: &choiceExpr{
-															pos: position{line: 2610, col: 12, offset: 83472},
+															pos: position{line: 2610, col: 12, offset: 83490},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 684, col: 14, offset: 21681},
@@ -36175,18 +36213,18 @@ var g = &grammar{
 																		pos: position{line: 684, col: 14, offset: 21681},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2890, col: 11, offset: 91249},
+																				pos: position{line: 2890, col: 11, offset: 91281},
 																				expr: &anyMatcher{
-																					line: 2890, col: 13, offset: 91251,
+																					line: 2890, col: 13, offset: 91283,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 684, col: 21, offset: 21688},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90915},
+																					pos: position{line: 2873, col: 10, offset: 90947},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90915},
+																						pos:        position{line: 2873, col: 10, offset: 90947},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36195,28 +36233,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91313},
+																				pos: position{line: 2895, col: 8, offset: 91345},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91086},
+																						pos: position{line: 2882, col: 12, offset: 91118},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91087},
+																							pos: position{line: 2882, col: 13, offset: 91119},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91087},
+																									pos:        position{line: 2882, col: 13, offset: 91119},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91094},
+																									pos:        position{line: 2882, col: 20, offset: 91126},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91103},
+																									pos:        position{line: 2882, col: 29, offset: 91135},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36225,9 +36263,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -36236,32 +36274,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2622, col: 5, offset: 83717},
+																	pos: position{line: 2622, col: 5, offset: 83735},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2622, col: 5, offset: 83717},
+																		pos: position{line: 2622, col: 5, offset: 83735},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2622, col: 5, offset: 83717},
+																				pos: position{line: 2622, col: 5, offset: 83735},
 																				expr: &choiceExpr{
-																					pos: position{line: 2619, col: 22, offset: 83678},
+																					pos: position{line: 2619, col: 22, offset: 83696},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2615, col: 19, offset: 83598},
+																							pos: position{line: 2615, col: 19, offset: 83616},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2615, col: 19, offset: 83598},
+																									pos:        position{line: 2615, col: 19, offset: 83616},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2615, col: 26, offset: 83605},
+																									pos: position{line: 2615, col: 26, offset: 83623},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90915},
+																										pos: position{line: 2873, col: 10, offset: 90947},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90915},
+																											pos:        position{line: 2873, col: 10, offset: 90947},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36270,28 +36308,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36300,9 +36338,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
@@ -36310,59 +36348,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2623, col: 5, offset: 83740},
+																				pos:   position{line: 2623, col: 5, offset: 83758},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2624, col: 9, offset: 83758},
+																					pos: position{line: 2624, col: 9, offset: 83776},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2624, col: 10, offset: 83759},
+																							pos: position{line: 2624, col: 10, offset: 83777},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2624, col: 10, offset: 83759},
+																								pos:   position{line: 2624, col: 10, offset: 83777},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2624, col: 17, offset: 83766},
+																									pos: position{line: 2624, col: 17, offset: 83784},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2632, col: 21, offset: 83962},
+																											pos: position{line: 2632, col: 21, offset: 83980},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2632, col: 21, offset: 83962},
+																												pos: position{line: 2632, col: 21, offset: 83980},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2632, col: 21, offset: 83962},
+																														pos:   position{line: 2632, col: 21, offset: 83980},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2632, col: 27, offset: 83968},
+																															pos: position{line: 2632, col: 27, offset: 83986},
 																															expr: &actionExpr{
-																																pos: position{line: 2637, col: 5, offset: 84043},
+																																pos: position{line: 2637, col: 5, offset: 84061},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84043},
+																																	pos: position{line: 2637, col: 5, offset: 84061},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2637, col: 5, offset: 84043},
+																																			pos:        position{line: 2637, col: 5, offset: 84061},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2637, col: 9, offset: 84047},
+																																			pos: position{line: 2637, col: 9, offset: 84065},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2873, col: 10, offset: 90915},
+																																				pos: position{line: 2873, col: 10, offset: 90947},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2873, col: 10, offset: 90915},
+																																					pos:        position{line: 2873, col: 10, offset: 90947},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36371,21 +36409,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2637, col: 16, offset: 84054},
+																																			pos:   position{line: 2637, col: 16, offset: 84072},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2643, col: 5, offset: 84254},
+																																				pos: position{line: 2643, col: 5, offset: 84272},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2643, col: 5, offset: 84254},
+																																					pos:   position{line: 2643, col: 5, offset: 84272},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2643, col: 14, offset: 84263},
+																																						pos: position{line: 2643, col: 14, offset: 84281},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84263},
+																																							pos: position{line: 2643, col: 14, offset: 84281},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2643, col: 14, offset: 84263},
+																																								pos:        position{line: 2643, col: 14, offset: 84281},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36402,28 +36440,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2895, col: 8, offset: 91313},
+																														pos: position{line: 2895, col: 8, offset: 91345},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2882, col: 12, offset: 91086},
+																																pos: position{line: 2882, col: 12, offset: 91118},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2882, col: 13, offset: 91087},
+																																	pos: position{line: 2882, col: 13, offset: 91119},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 13, offset: 91087},
+																																			pos:        position{line: 2882, col: 13, offset: 91119},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 20, offset: 91094},
+																																			pos:        position{line: 2882, col: 20, offset: 91126},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 29, offset: 91103},
+																																			pos:        position{line: 2882, col: 29, offset: 91135},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36432,9 +36470,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2892, col: 8, offset: 91263},
+																																pos: position{line: 2892, col: 8, offset: 91295},
 																																expr: &anyMatcher{
-																																	line: 2892, col: 9, offset: 91264,
+																																	line: 2892, col: 9, offset: 91296,
 																																},
 																															},
 																														},
@@ -36443,40 +36481,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2649, col: 24, offset: 84399},
+																											pos: position{line: 2649, col: 24, offset: 84417},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2649, col: 24, offset: 84399},
+																												pos:   position{line: 2649, col: 24, offset: 84417},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2649, col: 30, offset: 84405},
+																													pos: position{line: 2649, col: 30, offset: 84423},
 																													expr: &actionExpr{
-																														pos: position{line: 2654, col: 5, offset: 84481},
+																														pos: position{line: 2654, col: 5, offset: 84499},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2654, col: 5, offset: 84481},
+																															pos: position{line: 2654, col: 5, offset: 84499},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2654, col: 5, offset: 84481},
+																																	pos: position{line: 2654, col: 5, offset: 84499},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2619, col: 22, offset: 83678},
+																																		pos: position{line: 2619, col: 22, offset: 83696},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2615, col: 19, offset: 83598},
+																																				pos: position{line: 2615, col: 19, offset: 83616},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2615, col: 19, offset: 83598},
+																																						pos:        position{line: 2615, col: 19, offset: 83616},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2615, col: 26, offset: 83605},
+																																						pos: position{line: 2615, col: 26, offset: 83623},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90915},
+																																							pos: position{line: 2873, col: 10, offset: 90947},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90915},
+																																								pos:        position{line: 2873, col: 10, offset: 90947},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36485,28 +36523,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91313},
+																																						pos: position{line: 2895, col: 8, offset: 91345},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91086},
+																																								pos: position{line: 2882, col: 12, offset: 91118},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91087},
+																																									pos: position{line: 2882, col: 13, offset: 91119},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91087},
+																																											pos:        position{line: 2882, col: 13, offset: 91119},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91094},
+																																											pos:        position{line: 2882, col: 20, offset: 91126},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91103},
+																																											pos:        position{line: 2882, col: 29, offset: 91135},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36515,9 +36553,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91263},
+																																								pos: position{line: 2892, col: 8, offset: 91295},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91264,
+																																									line: 2892, col: 9, offset: 91296,
 																																								},
 																																							},
 																																						},
@@ -36525,16 +36563,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2892, col: 8, offset: 91263},
+																																				pos: position{line: 2892, col: 8, offset: 91295},
 																																				expr: &anyMatcher{
-																																					line: 2892, col: 9, offset: 91264,
+																																					line: 2892, col: 9, offset: 91296,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84504},
+																																	pos: position{line: 2655, col: 5, offset: 84522},
 																																	expr: &actionExpr{
 																																		pos: position{line: 684, col: 14, offset: 21681},
 																																		run: (*parser).callonListContinuationElement1446,
@@ -36542,18 +36580,18 @@ var g = &grammar{
 																																			pos: position{line: 684, col: 14, offset: 21681},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2890, col: 11, offset: 91249},
+																																					pos: position{line: 2890, col: 11, offset: 91281},
 																																					expr: &anyMatcher{
-																																						line: 2890, col: 13, offset: 91251,
+																																						line: 2890, col: 13, offset: 91283,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 684, col: 21, offset: 21688},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2873, col: 10, offset: 90915},
+																																						pos: position{line: 2873, col: 10, offset: 90947},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2873, col: 10, offset: 90915},
+																																							pos:        position{line: 2873, col: 10, offset: 90947},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36562,28 +36600,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91313},
+																																					pos: position{line: 2895, col: 8, offset: 91345},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2882, col: 12, offset: 91086},
+																																							pos: position{line: 2882, col: 12, offset: 91118},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2882, col: 13, offset: 91087},
+																																								pos: position{line: 2882, col: 13, offset: 91119},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 13, offset: 91087},
+																																										pos:        position{line: 2882, col: 13, offset: 91119},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 20, offset: 91094},
+																																										pos:        position{line: 2882, col: 20, offset: 91126},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 29, offset: 91103},
+																																										pos:        position{line: 2882, col: 29, offset: 91135},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36592,9 +36630,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91263},
+																																							pos: position{line: 2892, col: 8, offset: 91295},
 																																							expr: &anyMatcher{
-																																								line: 2892, col: 9, offset: 91264,
+																																								line: 2892, col: 9, offset: 91296,
 																																							},
 																																						},
 																																					},
@@ -36604,17 +36642,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 5, offset: 84519},
+																																	pos:   position{line: 2656, col: 5, offset: 84537},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 12, offset: 84526},
+																																		pos: position{line: 2656, col: 12, offset: 84544},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 20, offset: 84990},
+																																			pos: position{line: 2673, col: 20, offset: 85008},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2673, col: 20, offset: 84990},
+																																				pos: position{line: 2673, col: 20, offset: 85008},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2673, col: 20, offset: 84990},
+																																					pos:        position{line: 2673, col: 20, offset: 85008},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36625,18 +36663,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2656, col: 31, offset: 84545},
+																																	pos:        position{line: 2656, col: 31, offset: 84563},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2656, col: 35, offset: 84549},
+																																	pos: position{line: 2656, col: 35, offset: 84567},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2873, col: 10, offset: 90915},
+																																		pos: position{line: 2873, col: 10, offset: 90947},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2873, col: 10, offset: 90915},
+																																			pos:        position{line: 2873, col: 10, offset: 90947},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36645,27 +36683,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2656, col: 42, offset: 84556},
+																																	pos: position{line: 2656, col: 42, offset: 84574},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 91086},
+																																		pos: position{line: 2882, col: 12, offset: 91118},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 91087},
+																																			pos: position{line: 2882, col: 13, offset: 91119},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 91087},
+																																					pos:        position{line: 2882, col: 13, offset: 91119},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 91094},
+																																					pos:        position{line: 2882, col: 20, offset: 91126},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 91103},
+																																					pos:        position{line: 2882, col: 29, offset: 91135},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36675,37 +36713,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 51, offset: 84565},
+																																	pos:   position{line: 2656, col: 51, offset: 84583},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84724},
+																																		pos: position{line: 2662, col: 5, offset: 84742},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2663, col: 9, offset: 84734},
+																																			pos: position{line: 2663, col: 9, offset: 84752},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84734},
+																																				pos: position{line: 2663, col: 9, offset: 84752},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2663, col: 9, offset: 84734},
+																																						pos: position{line: 2663, col: 9, offset: 84752},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2619, col: 22, offset: 83678},
+																																							pos: position{line: 2619, col: 22, offset: 83696},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2615, col: 19, offset: 83598},
+																																									pos: position{line: 2615, col: 19, offset: 83616},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2615, col: 19, offset: 83598},
+																																											pos:        position{line: 2615, col: 19, offset: 83616},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2615, col: 26, offset: 83605},
+																																											pos: position{line: 2615, col: 26, offset: 83623},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90915},
+																																												pos: position{line: 2873, col: 10, offset: 90947},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90915},
+																																													pos:        position{line: 2873, col: 10, offset: 90947},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36714,28 +36752,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91313},
+																																											pos: position{line: 2895, col: 8, offset: 91345},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91086},
+																																													pos: position{line: 2882, col: 12, offset: 91118},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91087},
+																																														pos: position{line: 2882, col: 13, offset: 91119},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91087},
+																																																pos:        position{line: 2882, col: 13, offset: 91119},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91094},
+																																																pos:        position{line: 2882, col: 20, offset: 91126},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91103},
+																																																pos:        position{line: 2882, col: 29, offset: 91135},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36744,9 +36782,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91263},
+																																													pos: position{line: 2892, col: 8, offset: 91295},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91264,
+																																														line: 2892, col: 9, offset: 91296,
 																																													},
 																																												},
 																																											},
@@ -36754,16 +36792,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91263},
+																																									pos: position{line: 2892, col: 8, offset: 91295},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91264,
+																																										line: 2892, col: 9, offset: 91296,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84761},
+																																						pos: position{line: 2664, col: 9, offset: 84779},
 																																						expr: &actionExpr{
 																																							pos: position{line: 684, col: 14, offset: 21681},
 																																							run: (*parser).callonListContinuationElement1498,
@@ -36771,18 +36809,18 @@ var g = &grammar{
 																																								pos: position{line: 684, col: 14, offset: 21681},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2890, col: 11, offset: 91249},
+																																										pos: position{line: 2890, col: 11, offset: 91281},
 																																										expr: &anyMatcher{
-																																											line: 2890, col: 13, offset: 91251,
+																																											line: 2890, col: 13, offset: 91283,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 684, col: 21, offset: 21688},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2873, col: 10, offset: 90915},
+																																											pos: position{line: 2873, col: 10, offset: 90947},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2873, col: 10, offset: 90915},
+																																												pos:        position{line: 2873, col: 10, offset: 90947},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36791,28 +36829,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91313},
+																																										pos: position{line: 2895, col: 8, offset: 91345},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2882, col: 12, offset: 91086},
+																																												pos: position{line: 2882, col: 12, offset: 91118},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2882, col: 13, offset: 91087},
+																																													pos: position{line: 2882, col: 13, offset: 91119},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 13, offset: 91087},
+																																															pos:        position{line: 2882, col: 13, offset: 91119},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 20, offset: 91094},
+																																															pos:        position{line: 2882, col: 20, offset: 91126},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 29, offset: 91103},
+																																															pos:        position{line: 2882, col: 29, offset: 91135},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36821,9 +36859,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2892, col: 8, offset: 91263},
+																																												pos: position{line: 2892, col: 8, offset: 91295},
 																																												expr: &anyMatcher{
-																																													line: 2892, col: 9, offset: 91264,
+																																													line: 2892, col: 9, offset: 91296,
 																																												},
 																																											},
 																																										},
@@ -36833,22 +36871,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84780},
+																																						pos: position{line: 2665, col: 9, offset: 84798},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2665, col: 11, offset: 84782},
+																																							pos: position{line: 2665, col: 11, offset: 84800},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2665, col: 11, offset: 84782},
+																																									pos:   position{line: 2665, col: 11, offset: 84800},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2665, col: 18, offset: 84789},
+																																										pos: position{line: 2665, col: 18, offset: 84807},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2673, col: 20, offset: 84990},
+																																											pos: position{line: 2673, col: 20, offset: 85008},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2673, col: 20, offset: 84990},
+																																												pos: position{line: 2673, col: 20, offset: 85008},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2673, col: 20, offset: 84990},
+																																													pos:        position{line: 2673, col: 20, offset: 85008},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36859,7 +36897,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2665, col: 37, offset: 84808},
+																																									pos:        position{line: 2665, col: 37, offset: 84826},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36868,15 +36906,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2666, col: 9, offset: 84821},
+																																						pos:   position{line: 2666, col: 9, offset: 84839},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2666, col: 18, offset: 84830},
+																																							pos: position{line: 2666, col: 18, offset: 84848},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84830},
+																																								pos: position{line: 2666, col: 18, offset: 84848},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2666, col: 18, offset: 84830},
+																																									pos:        position{line: 2666, col: 18, offset: 84848},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36886,30 +36924,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2668, col: 12, offset: 84892},
+																																						pos: position{line: 2668, col: 12, offset: 84910},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91313},
+																																							pos: position{line: 2895, col: 8, offset: 91345},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91086},
+																																									pos: position{line: 2882, col: 12, offset: 91118},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91087},
+																																										pos: position{line: 2882, col: 13, offset: 91119},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91087},
+																																												pos:        position{line: 2882, col: 13, offset: 91119},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91094},
+																																												pos:        position{line: 2882, col: 20, offset: 91126},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91103},
+																																												pos:        position{line: 2882, col: 29, offset: 91135},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36918,9 +36956,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91263},
+																																									pos: position{line: 2892, col: 8, offset: 91295},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91264,
+																																										line: 2892, col: 9, offset: 91296,
 																																									},
 																																								},
 																																							},
@@ -36948,18 +36986,18 @@ var g = &grammar{
 																								pos: position{line: 684, col: 14, offset: 21681},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91249},
+																										pos: position{line: 2890, col: 11, offset: 91281},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91251,
+																											line: 2890, col: 13, offset: 91283,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 684, col: 21, offset: 21688},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90915},
+																											pos: position{line: 2873, col: 10, offset: 90947},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90915},
+																												pos:        position{line: 2873, col: 10, offset: 90947},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36968,28 +37006,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91313},
+																										pos: position{line: 2895, col: 8, offset: 91345},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91086},
+																												pos: position{line: 2882, col: 12, offset: 91118},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91087},
+																													pos: position{line: 2882, col: 13, offset: 91119},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91087},
+																															pos:        position{line: 2882, col: 13, offset: 91119},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91094},
+																															pos:        position{line: 2882, col: 20, offset: 91126},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91103},
+																															pos:        position{line: 2882, col: 29, offset: 91135},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36998,9 +37036,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91263},
+																												pos: position{line: 2892, col: 8, offset: 91295},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91264,
+																													line: 2892, col: 9, offset: 91296,
 																												},
 																											},
 																										},
@@ -37019,24 +37057,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2619, col: 22, offset: 83678},
+													pos: position{line: 2619, col: 22, offset: 83696},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83598},
+															pos: position{line: 2615, col: 19, offset: 83616},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83598},
+																	pos:        position{line: 2615, col: 19, offset: 83616},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83605},
+																	pos: position{line: 2615, col: 26, offset: 83623},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37045,28 +37083,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37075,9 +37113,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -37085,9 +37123,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -37096,36 +37134,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79900},
+										pos: position{line: 2483, col: 22, offset: 79918},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79900},
+											pos: position{line: 2483, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80121},
+													pos:        position{line: 2488, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80126},
+													pos: position{line: 2488, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80127},
+														pos:        position{line: 2488, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79927},
+													pos:   position{line: 2483, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89441},
+														pos: position{line: 2819, col: 13, offset: 89473},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89441},
+															pos: position{line: 2819, col: 13, offset: 89473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89441},
+																pos:        position{line: 2819, col: 13, offset: 89473},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37135,28 +37173,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91313},
+													pos: position{line: 2895, col: 8, offset: 91345},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37165,9 +37203,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91263},
+															pos: position{line: 2892, col: 8, offset: 91295},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91264,
+																line: 2892, col: 9, offset: 91296,
 															},
 														},
 													},
@@ -37176,94 +37214,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 50977},
+										pos: position{line: 1581, col: 5, offset: 50995},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 50977},
+											pos: position{line: 1581, col: 5, offset: 50995},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 50977},
+													pos:   position{line: 1581, col: 5, offset: 50995},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1581, col: 11, offset: 50983},
+														pos: position{line: 1581, col: 11, offset: 51001},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56300},
+															pos: position{line: 1745, col: 5, offset: 56318},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56300},
+																pos: position{line: 1745, col: 5, offset: 56318},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56300},
+																		pos: position{line: 1745, col: 5, offset: 56318},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56363},
+																		pos:   position{line: 1748, col: 5, offset: 56381},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56370},
+																			pos: position{line: 1748, col: 12, offset: 56388},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56370},
+																					pos: position{line: 1748, col: 12, offset: 56388},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56370},
+																						pos:        position{line: 1748, col: 12, offset: 56388},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56426},
+																					pos: position{line: 1750, col: 13, offset: 56444},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56426},
+																						pos:        position{line: 1750, col: 13, offset: 56444},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56484},
+																					pos: position{line: 1752, col: 13, offset: 56502},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56484},
+																						pos:        position{line: 1752, col: 13, offset: 56502},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56552},
+																					pos: position{line: 1754, col: 13, offset: 56570},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56552},
+																						pos:        position{line: 1754, col: 13, offset: 56570},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56616},
+																					pos: position{line: 1756, col: 13, offset: 56634},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56616},
+																						pos:        position{line: 1756, col: 13, offset: 56634},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 56680},
+																					pos: position{line: 1758, col: 13, offset: 56698},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 56680},
+																						pos: position{line: 1758, col: 13, offset: 56698},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 90976},
+																							pos: position{line: 2877, col: 11, offset: 91008},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 90976},
+																								pos: position{line: 2877, col: 11, offset: 91008},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 90976},
+																									pos:        position{line: 2877, col: 11, offset: 91008},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37277,17 +37315,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1760, col: 12, offset: 56760},
+																		pos: position{line: 1760, col: 12, offset: 56778},
 																		expr: &seqExpr{
-																			pos: position{line: 1760, col: 14, offset: 56762},
+																			pos: position{line: 1760, col: 14, offset: 56780},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1760, col: 14, offset: 56762},
+																					pos: position{line: 1760, col: 14, offset: 56780},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37296,28 +37334,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37326,9 +37364,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -37342,16 +37380,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51006},
+													pos:   position{line: 1582, col: 5, offset: 51024},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49302},
+														pos: position{line: 1525, col: 5, offset: 49320},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49302},
+															pos: position{line: 1525, col: 5, offset: 49320},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49302},
+																	pos: position{line: 1525, col: 5, offset: 49320},
 																	expr: &actionExpr{
 																		pos: position{line: 684, col: 14, offset: 21681},
 																		run: (*parser).callonListContinuationElement1623,
@@ -37359,18 +37397,18 @@ var g = &grammar{
 																			pos: position{line: 684, col: 14, offset: 21681},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91249},
+																					pos: position{line: 2890, col: 11, offset: 91281},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91251,
+																						line: 2890, col: 13, offset: 91283,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 684, col: 21, offset: 21688},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37379,28 +37417,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91313},
+																					pos: position{line: 2895, col: 8, offset: 91345},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37409,9 +37447,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91263},
+																							pos: position{line: 2892, col: 8, offset: 91295},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91264,
+																								line: 2892, col: 9, offset: 91296,
 																							},
 																						},
 																					},
@@ -37421,23 +37459,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49317},
+																	pos: position{line: 1526, col: 5, offset: 49335},
 																	expr: &seqExpr{
-																		pos: position{line: 1556, col: 27, offset: 50222},
+																		pos: position{line: 1556, col: 27, offset: 50240},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1556, col: 27, offset: 50222},
+																				pos:        position{line: 1556, col: 27, offset: 50240},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1556, col: 31, offset: 50226},
+																				pos: position{line: 1556, col: 31, offset: 50244},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90915},
+																					pos: position{line: 2873, col: 10, offset: 90947},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90915},
+																						pos:        position{line: 2873, col: 10, offset: 90947},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37446,25 +37484,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37476,20 +37514,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49345},
+																	pos: position{line: 1527, col: 5, offset: 49363},
 																	expr: &actionExpr{
-																		pos: position{line: 1597, col: 5, offset: 51416},
+																		pos: position{line: 1597, col: 5, offset: 51434},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1597, col: 5, offset: 51416},
+																			pos: position{line: 1597, col: 5, offset: 51434},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1597, col: 5, offset: 51416},
+																					pos: position{line: 1597, col: 5, offset: 51434},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37498,27 +37536,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1597, col: 12, offset: 51423},
+																					pos:   position{line: 1597, col: 12, offset: 51441},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1599, col: 9, offset: 51486},
+																						pos: position{line: 1599, col: 9, offset: 51504},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1599, col: 9, offset: 51486},
+																								pos: position{line: 1599, col: 9, offset: 51504},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1599, col: 9, offset: 51486},
+																									pos: position{line: 1599, col: 9, offset: 51504},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1599, col: 9, offset: 51486},
+																											pos:   position{line: 1599, col: 9, offset: 51504},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1599, col: 16, offset: 51493},
+																												pos: position{line: 1599, col: 16, offset: 51511},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1599, col: 16, offset: 51493},
+																													pos: position{line: 1599, col: 16, offset: 51511},
 																													expr: &litMatcher{
-																														pos:        position{line: 1599, col: 17, offset: 51494},
+																														pos:        position{line: 1599, col: 17, offset: 51512},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37527,22 +37565,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1603, col: 9, offset: 51594},
+																											pos: position{line: 1603, col: 9, offset: 51612},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1622, col: 11, offset: 52311},
+																								pos: position{line: 1622, col: 11, offset: 52329},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 11, offset: 52311},
+																									pos: position{line: 1622, col: 11, offset: 52329},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1622, col: 11, offset: 52311},
+																											pos: position{line: 1622, col: 11, offset: 52329},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1622, col: 12, offset: 52312},
+																												pos:        position{line: 1622, col: 12, offset: 52330},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37550,7 +37588,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1622, col: 20, offset: 52320},
+																											pos:        position{line: 1622, col: 20, offset: 52338},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37559,20 +37597,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1624, col: 13, offset: 52437},
+																								pos: position{line: 1624, col: 13, offset: 52455},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1624, col: 13, offset: 52437},
+																									pos: position{line: 1624, col: 13, offset: 52455},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1624, col: 14, offset: 52438},
+																											pos:        position{line: 1624, col: 14, offset: 52456},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1624, col: 21, offset: 52445},
+																											pos:        position{line: 1624, col: 21, offset: 52463},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37581,20 +37619,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1626, col: 13, offset: 52565},
+																								pos: position{line: 1626, col: 13, offset: 52583},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1626, col: 13, offset: 52565},
+																									pos: position{line: 1626, col: 13, offset: 52583},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1626, col: 14, offset: 52566},
+																											pos:        position{line: 1626, col: 14, offset: 52584},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1626, col: 21, offset: 52573},
+																											pos:        position{line: 1626, col: 21, offset: 52591},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37603,15 +37641,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1628, col: 13, offset: 52693},
+																								pos: position{line: 1628, col: 13, offset: 52711},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1628, col: 13, offset: 52693},
+																									pos: position{line: 1628, col: 13, offset: 52711},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1628, col: 13, offset: 52693},
+																											pos: position{line: 1628, col: 13, offset: 52711},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1628, col: 14, offset: 52694},
+																												pos:        position{line: 1628, col: 14, offset: 52712},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37619,7 +37657,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1628, col: 26, offset: 52706},
+																											pos:        position{line: 1628, col: 26, offset: 52724},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37628,15 +37666,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1630, col: 13, offset: 52826},
+																								pos: position{line: 1630, col: 13, offset: 52844},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1630, col: 13, offset: 52826},
+																									pos: position{line: 1630, col: 13, offset: 52844},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1630, col: 13, offset: 52826},
+																											pos: position{line: 1630, col: 13, offset: 52844},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1630, col: 14, offset: 52827},
+																												pos:        position{line: 1630, col: 14, offset: 52845},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37644,7 +37682,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1630, col: 26, offset: 52839},
+																											pos:        position{line: 1630, col: 26, offset: 52857},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37656,12 +37694,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90976},
+																					pos: position{line: 2877, col: 11, offset: 91008},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90976},
+																						pos: position{line: 2877, col: 11, offset: 91008},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90976},
+																							pos:        position{line: 2877, col: 11, offset: 91008},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37674,20 +37712,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49375},
+																	pos: position{line: 1528, col: 5, offset: 49393},
 																	expr: &actionExpr{
-																		pos: position{line: 1647, col: 5, offset: 53378},
+																		pos: position{line: 1647, col: 5, offset: 53396},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1647, col: 5, offset: 53378},
+																			pos: position{line: 1647, col: 5, offset: 53396},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1647, col: 5, offset: 53378},
+																					pos: position{line: 1647, col: 5, offset: 53396},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37696,24 +37734,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1648, col: 5, offset: 53390},
+																					pos:   position{line: 1648, col: 5, offset: 53408},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1649, col: 9, offset: 53406},
+																						pos: position{line: 1649, col: 9, offset: 53424},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1649, col: 10, offset: 53407},
+																							pos: position{line: 1649, col: 10, offset: 53425},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1649, col: 11, offset: 53408},
+																									pos:        position{line: 1649, col: 11, offset: 53426},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1649, col: 18, offset: 53415},
+																									pos: position{line: 1649, col: 18, offset: 53433},
 																									expr: &litMatcher{
-																										pos:        position{line: 1649, col: 19, offset: 53416},
+																										pos:        position{line: 1649, col: 19, offset: 53434},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37724,16 +37762,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1652, col: 7, offset: 53506},
+																					pos: position{line: 1652, col: 7, offset: 53524},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90976},
+																					pos: position{line: 2877, col: 11, offset: 91008},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90976},
+																						pos: position{line: 2877, col: 11, offset: 91008},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90976},
+																							pos:        position{line: 2877, col: 11, offset: 91008},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37746,29 +37784,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49407},
+																	pos: position{line: 1529, col: 5, offset: 49425},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 55915},
+																		pos: position{line: 1736, col: 5, offset: 55933},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 55915},
+																			pos: position{line: 1736, col: 5, offset: 55933},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 55915},
+																					pos:        position{line: 1736, col: 5, offset: 55933},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 55919},
+																					pos:   position{line: 1736, col: 9, offset: 55937},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 55924},
+																						pos: position{line: 1736, col: 14, offset: 55942},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 55924},
+																							pos: position{line: 1736, col: 14, offset: 55942},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 55924},
+																								pos:        position{line: 1736, col: 14, offset: 55942},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37778,18 +37816,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 55972},
+																					pos:        position{line: 1736, col: 62, offset: 55990},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 90976},
+																					pos: position{line: 2877, col: 11, offset: 91008},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 90976},
+																						pos: position{line: 2877, col: 11, offset: 91008},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 90976},
+																							pos:        position{line: 2877, col: 11, offset: 91008},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37802,36 +37840,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1530, col: 5, offset: 49437},
+																	pos: position{line: 1530, col: 5, offset: 49455},
 																	expr: &seqExpr{
-																		pos: position{line: 1530, col: 7, offset: 49439},
+																		pos: position{line: 1530, col: 7, offset: 49457},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54397},
+																				pos: position{line: 1682, col: 5, offset: 54415},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54397},
+																					pos: position{line: 1682, col: 5, offset: 54415},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54398},
+																						pos: position{line: 1682, col: 6, offset: 54416},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54398},
+																								pos: position{line: 1682, col: 6, offset: 54416},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54548},
+																									pos: position{line: 1687, col: 5, offset: 54566},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54548},
+																										pos: position{line: 1687, col: 5, offset: 54566},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54548},
+																												pos:   position{line: 1687, col: 5, offset: 54566},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54559},
+																													pos: position{line: 1687, col: 16, offset: 54577},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54559},
+																														pos: position{line: 1687, col: 16, offset: 54577},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54560},
+																															pos:        position{line: 1687, col: 17, offset: 54578},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37840,7 +37878,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54617},
+																												pos: position{line: 1690, col: 5, offset: 54635},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -37848,30 +37886,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54427},
+																								pos: position{line: 1682, col: 35, offset: 54445},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91313},
+																									pos: position{line: 2895, col: 8, offset: 91345},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91086},
+																											pos: position{line: 2882, col: 12, offset: 91118},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91087},
+																												pos: position{line: 2882, col: 13, offset: 91119},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91087},
+																														pos:        position{line: 2882, col: 13, offset: 91119},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91094},
+																														pos:        position{line: 2882, col: 20, offset: 91126},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91103},
+																														pos:        position{line: 2882, col: 29, offset: 91135},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37880,37 +37918,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91263},
+																											pos: position{line: 2892, col: 8, offset: 91295},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91264,
+																												line: 2892, col: 9, offset: 91296,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54432,
+																								line: 1682, col: 40, offset: 54450,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54548},
+																				pos: position{line: 1687, col: 5, offset: 54566},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54548},
+																					pos: position{line: 1687, col: 5, offset: 54566},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54548},
+																							pos:   position{line: 1687, col: 5, offset: 54566},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54559},
+																								pos: position{line: 1687, col: 16, offset: 54577},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54559},
+																									pos: position{line: 1687, col: 16, offset: 54577},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54560},
+																										pos:        position{line: 1687, col: 17, offset: 54578},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37919,20 +37957,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54617},
+																							pos: position{line: 1690, col: 5, offset: 54635},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1530, col: 59, offset: 49491},
+																				pos: position{line: 1530, col: 59, offset: 49509},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90915},
+																						pos: position{line: 2873, col: 10, offset: 90947},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90915},
+																							pos:        position{line: 2873, col: 10, offset: 90947},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37940,25 +37978,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91086},
+																						pos: position{line: 2882, col: 12, offset: 91118},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91087},
+																							pos: position{line: 2882, col: 13, offset: 91119},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91087},
+																									pos:        position{line: 2882, col: 13, offset: 91119},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91094},
+																									pos:        position{line: 2882, col: 20, offset: 91126},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91103},
+																									pos:        position{line: 2882, col: 29, offset: 91135},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37967,9 +38005,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91263},
+																						pos: position{line: 2892, col: 8, offset: 91295},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91264,
+																							line: 2892, col: 9, offset: 91296,
 																						},
 																					},
 																				},
@@ -37978,9 +38016,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1531, col: 5, offset: 49509},
+																	pos: position{line: 1531, col: 5, offset: 49527},
 																	expr: &choiceExpr{
-																		pos: position{line: 1531, col: 7, offset: 49511},
+																		pos: position{line: 1531, col: 7, offset: 49529},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 731, col: 5, offset: 23253},
@@ -37991,7 +38029,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 731, col: 5, offset: 23253},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2763, col: 13, offset: 88010},
+																								pos:        position{line: 2763, col: 13, offset: 88028},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -38041,10 +38079,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 749, col: 8, offset: 23897},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38053,28 +38091,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38083,9 +38121,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38130,10 +38168,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 756, col: 8, offset: 24145},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38142,28 +38180,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38172,9 +38210,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38215,10 +38253,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 767, col: 52, offset: 24557},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38227,28 +38265,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38257,9 +38295,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38304,10 +38342,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 763, col: 8, offset: 24391},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38316,28 +38354,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38346,9 +38384,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38393,10 +38431,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 778, col: 8, offset: 24929},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38405,28 +38443,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38435,9 +38473,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38482,10 +38520,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 792, col: 8, offset: 25405},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38494,28 +38532,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38524,9 +38562,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38571,10 +38609,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 799, col: 8, offset: 25657},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38583,28 +38621,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38613,9 +38651,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38660,10 +38698,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 806, col: 8, offset: 25907},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38672,28 +38710,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38702,9 +38740,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38749,10 +38787,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 813, col: 8, offset: 26153},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90915},
+																														pos: position{line: 2873, col: 10, offset: 90947},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90915},
+																															pos:        position{line: 2873, col: 10, offset: 90947},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38761,28 +38799,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91313},
+																													pos: position{line: 2895, col: 8, offset: 91345},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91086},
+																															pos: position{line: 2882, col: 12, offset: 91118},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91087},
+																																pos: position{line: 2882, col: 13, offset: 91119},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91087},
+																																		pos:        position{line: 2882, col: 13, offset: 91119},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91094},
+																																		pos:        position{line: 2882, col: 20, offset: 91126},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91103},
+																																		pos:        position{line: 2882, col: 29, offset: 91135},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38791,9 +38829,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91263},
+																															pos: position{line: 2892, col: 8, offset: 91295},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91264,
+																																line: 2892, col: 9, offset: 91296,
 																															},
 																														},
 																													},
@@ -38830,10 +38868,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25160},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90915},
+																								pos: position{line: 2873, col: 10, offset: 90947},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90915},
+																									pos:        position{line: 2873, col: 10, offset: 90947},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38842,28 +38880,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91313},
+																							pos: position{line: 2895, col: 8, offset: 91345},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91086},
+																									pos: position{line: 2882, col: 12, offset: 91118},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91087},
+																										pos: position{line: 2882, col: 13, offset: 91119},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91087},
+																												pos:        position{line: 2882, col: 13, offset: 91119},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91094},
+																												pos:        position{line: 2882, col: 20, offset: 91126},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91103},
+																												pos:        position{line: 2882, col: 29, offset: 91135},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38872,9 +38910,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91263},
+																									pos: position{line: 2892, col: 8, offset: 91295},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91264,
+																										line: 2892, col: 9, offset: 91296,
 																									},
 																								},
 																							},
@@ -38883,21 +38921,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2615, col: 19, offset: 83598},
+																				pos: position{line: 2615, col: 19, offset: 83616},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2615, col: 19, offset: 83598},
+																						pos:        position{line: 2615, col: 19, offset: 83616},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2615, col: 26, offset: 83605},
+																						pos: position{line: 2615, col: 26, offset: 83623},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38906,28 +38944,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91313},
+																						pos: position{line: 2895, col: 8, offset: 91345},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91086},
+																								pos: position{line: 2882, col: 12, offset: 91118},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91087},
+																									pos: position{line: 2882, col: 13, offset: 91119},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91087},
+																											pos:        position{line: 2882, col: 13, offset: 91119},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91094},
+																											pos:        position{line: 2882, col: 20, offset: 91126},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91103},
+																											pos:        position{line: 2882, col: 29, offset: 91135},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38936,9 +38974,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91263},
+																								pos: position{line: 2892, col: 8, offset: 91295},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91264,
+																									line: 2892, col: 9, offset: 91296,
 																								},
 																							},
 																						},
@@ -38949,15 +38987,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49569},
+																	pos:   position{line: 1532, col: 5, offset: 49587},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89508},
+																		pos: position{line: 2823, col: 14, offset: 89540},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89508},
+																			pos: position{line: 2823, col: 14, offset: 89540},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89508},
+																				pos:        position{line: 2823, col: 14, offset: 89540},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38967,28 +39005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38997,9 +39035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -39020,33 +39058,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55409},
+			pos:  position{line: 1720, col: 1, offset: 55427},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55487},
+				pos: position{line: 1722, col: 5, offset: 55505},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55487},
+					pos: position{line: 1722, col: 5, offset: 55505},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55487},
+							pos: position{line: 1722, col: 5, offset: 55505},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55554},
+							pos:        position{line: 1725, col: 5, offset: 55572},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55558},
+							pos:   position{line: 1725, col: 9, offset: 55576},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55563},
+								pos: position{line: 1725, col: 14, offset: 55581},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55563},
+									pos: position{line: 1725, col: 14, offset: 55581},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55563},
+										pos:        position{line: 1725, col: 14, offset: 55581},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39056,18 +39094,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55611},
+							pos:        position{line: 1725, col: 62, offset: 55629},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55615},
+							pos: position{line: 1725, col: 66, offset: 55633},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39076,30 +39114,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55622},
+							pos: position{line: 1725, col: 73, offset: 55640},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55624},
+								pos: position{line: 1725, col: 75, offset: 55642},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91086},
+										pos: position{line: 2882, col: 12, offset: 91118},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91087},
+											pos: position{line: 2882, col: 13, offset: 91119},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91087},
+													pos:        position{line: 2882, col: 13, offset: 91119},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91094},
+													pos:        position{line: 2882, col: 20, offset: 91126},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91103},
+													pos:        position{line: 2882, col: 29, offset: 91135},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39108,13 +39146,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91263},
+										pos: position{line: 2892, col: 8, offset: 91295},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91264,
+											line: 2892, col: 9, offset: 91296,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55630},
+										pos:  position{line: 1725, col: 81, offset: 55648},
 										name: "Callout",
 									},
 								},
@@ -39126,44 +39164,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 56817},
+			pos:  position{line: 1764, col: 1, offset: 56835},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 56891},
+				pos: position{line: 1766, col: 5, offset: 56909},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 56891},
+					pos: position{line: 1766, col: 5, offset: 56909},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 56891},
+							pos: position{line: 1766, col: 5, offset: 56909},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 56893},
+								pos: position{line: 1766, col: 7, offset: 56911},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2763, col: 13, offset: 88010},
+										pos:        position{line: 2763, col: 13, offset: 88028},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 56902},
+										pos: position{line: 1766, col: 16, offset: 56920},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 56904},
+											pos: position{line: 1766, col: 18, offset: 56922},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 56905},
+													pos:        position{line: 1766, col: 19, offset: 56923},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 90976},
+													pos: position{line: 2877, col: 11, offset: 91008},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 90976},
+														pos: position{line: 2877, col: 11, offset: 91008},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 90976},
+															pos:        position{line: 2877, col: 11, offset: 91008},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39178,88 +39216,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57045},
+							pos:   position{line: 1767, col: 5, offset: 57063},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57051},
+								pos: position{line: 1767, col: 11, offset: 57069},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56300},
+									pos: position{line: 1745, col: 5, offset: 56318},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56300},
+										pos: position{line: 1745, col: 5, offset: 56318},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56300},
+												pos: position{line: 1745, col: 5, offset: 56318},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56363},
+												pos:   position{line: 1748, col: 5, offset: 56381},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56370},
+													pos: position{line: 1748, col: 12, offset: 56388},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56370},
+															pos: position{line: 1748, col: 12, offset: 56388},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56370},
+																pos:        position{line: 1748, col: 12, offset: 56388},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56426},
+															pos: position{line: 1750, col: 13, offset: 56444},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56426},
+																pos:        position{line: 1750, col: 13, offset: 56444},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56484},
+															pos: position{line: 1752, col: 13, offset: 56502},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56484},
+																pos:        position{line: 1752, col: 13, offset: 56502},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56552},
+															pos: position{line: 1754, col: 13, offset: 56570},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56552},
+																pos:        position{line: 1754, col: 13, offset: 56570},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56616},
+															pos: position{line: 1756, col: 13, offset: 56634},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56616},
+																pos:        position{line: 1756, col: 13, offset: 56634},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56680},
+															pos: position{line: 1758, col: 13, offset: 56698},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56680},
+																pos: position{line: 1758, col: 13, offset: 56698},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39273,17 +39311,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 12, offset: 56760},
+												pos: position{line: 1760, col: 12, offset: 56778},
 												expr: &seqExpr{
-													pos: position{line: 1760, col: 14, offset: 56762},
+													pos: position{line: 1760, col: 14, offset: 56780},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1760, col: 14, offset: 56762},
+															pos: position{line: 1760, col: 14, offset: 56780},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39292,28 +39330,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91313},
+															pos: position{line: 2895, col: 8, offset: 91345},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91086},
+																	pos: position{line: 2882, col: 12, offset: 91118},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91087},
+																		pos: position{line: 2882, col: 13, offset: 91119},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91087},
+																				pos:        position{line: 2882, col: 13, offset: 91119},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91094},
+																				pos:        position{line: 2882, col: 20, offset: 91126},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91103},
+																				pos:        position{line: 2882, col: 29, offset: 91135},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39322,9 +39360,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -39338,24 +39376,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57073},
+							pos:   position{line: 1768, col: 5, offset: 57091},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1805, col: 5, offset: 58284},
+								pos: position{line: 1805, col: 5, offset: 58302},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1805, col: 5, offset: 58284},
+									pos: position{line: 1805, col: 5, offset: 58302},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1805, col: 5, offset: 58284},
+											pos:   position{line: 1805, col: 5, offset: 58302},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89508},
+												pos: position{line: 2823, col: 14, offset: 89540},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89508},
+													pos: position{line: 2823, col: 14, offset: 89540},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89508},
+														pos:        position{line: 2823, col: 14, offset: 89540},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39365,32 +39403,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1806, col: 5, offset: 58308},
+											pos: position{line: 1806, col: 5, offset: 58326},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91313},
+											pos: position{line: 2895, col: 8, offset: 91345},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91086},
+													pos: position{line: 2882, col: 12, offset: 91118},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91087},
+														pos: position{line: 2882, col: 13, offset: 91119},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91087},
+																pos:        position{line: 2882, col: 13, offset: 91119},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91094},
+																pos:        position{line: 2882, col: 20, offset: 91126},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91103},
+																pos:        position{line: 2882, col: 29, offset: 91135},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39399,9 +39437,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -39411,28 +39449,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57107},
+							pos: position{line: 1769, col: 5, offset: 57125},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57437},
+							pos:   position{line: 1776, col: 5, offset: 57455},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57448},
+								pos: position{line: 1776, col: 16, offset: 57466},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57458},
+									pos: position{line: 1777, col: 9, offset: 57476},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57458},
+										pos: position{line: 1777, col: 9, offset: 57476},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91249},
+												pos: position{line: 2890, col: 11, offset: 91281},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91251,
+													line: 2890, col: 13, offset: 91283,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57474},
+												pos: position{line: 1778, col: 9, offset: 57492},
 												expr: &actionExpr{
 													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonShortcutParagraph71,
@@ -39440,18 +39478,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39460,28 +39498,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39490,9 +39528,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -39502,16 +39540,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57493},
+												pos: position{line: 1779, col: 9, offset: 57511},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57494},
+													pos:  position{line: 1779, col: 10, offset: 57512},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57518},
+												pos: position{line: 1780, col: 9, offset: 57536},
 												expr: &choiceExpr{
-													pos: position{line: 1780, col: 11, offset: 57520},
+													pos: position{line: 1780, col: 11, offset: 57538},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 731, col: 5, offset: 23253},
@@ -39522,7 +39560,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 731, col: 5, offset: 23253},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2763, col: 13, offset: 88010},
+																			pos:        position{line: 2763, col: 13, offset: 88028},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -39572,10 +39610,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23897},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39584,28 +39622,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39614,9 +39652,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -39661,10 +39699,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39673,28 +39711,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39703,9 +39741,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -39746,10 +39784,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 52, offset: 24557},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39758,28 +39796,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39788,9 +39826,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -39835,10 +39873,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39847,28 +39885,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39877,9 +39915,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -39924,10 +39962,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39936,28 +39974,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39966,9 +40004,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -40013,10 +40051,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40025,28 +40063,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40055,9 +40093,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -40102,10 +40140,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40114,28 +40152,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40144,9 +40182,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -40191,10 +40229,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40203,28 +40241,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40233,9 +40271,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -40280,10 +40318,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40292,28 +40330,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40322,9 +40360,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -40361,10 +40399,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40373,28 +40411,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40403,9 +40441,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -40414,21 +40452,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83598},
+															pos: position{line: 2615, col: 19, offset: 83616},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83598},
+																	pos:        position{line: 2615, col: 19, offset: 83616},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83605},
+																	pos: position{line: 2615, col: 26, offset: 83623},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40437,28 +40475,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40467,9 +40505,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -40480,23 +40518,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57582},
+												pos: position{line: 1781, col: 9, offset: 57600},
 												expr: &seqExpr{
-													pos: position{line: 1556, col: 27, offset: 50222},
+													pos: position{line: 1556, col: 27, offset: 50240},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1556, col: 27, offset: 50222},
+															pos:        position{line: 1556, col: 27, offset: 50240},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1556, col: 31, offset: 50226},
+															pos: position{line: 1556, col: 31, offset: 50244},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40505,25 +40543,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
+															pos: position{line: 2882, col: 12, offset: 91118},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40535,42 +40573,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57614},
+												pos:   position{line: 1782, col: 9, offset: 57632},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57620},
+													pos: position{line: 1782, col: 15, offset: 57638},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79900},
+															pos: position{line: 2483, col: 22, offset: 79918},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79900},
+																pos: position{line: 2483, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80121},
+																		pos:        position{line: 2488, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80126},
+																		pos: position{line: 2488, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80127},
+																			pos:        position{line: 2488, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79927},
+																		pos:   position{line: 2483, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89441},
+																			pos: position{line: 2819, col: 13, offset: 89473},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89441},
+																				pos: position{line: 2819, col: 13, offset: 89473},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89441},
+																					pos:        position{line: 2819, col: 13, offset: 89473},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40580,28 +40618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40610,9 +40648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -40621,21 +40659,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1805, col: 5, offset: 58284},
+															pos: position{line: 1805, col: 5, offset: 58302},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1805, col: 5, offset: 58284},
+																pos: position{line: 1805, col: 5, offset: 58302},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1805, col: 5, offset: 58284},
+																		pos:   position{line: 1805, col: 5, offset: 58302},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89508},
+																			pos: position{line: 2823, col: 14, offset: 89540},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89508},
+																				pos: position{line: 2823, col: 14, offset: 89540},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89508},
+																					pos:        position{line: 2823, col: 14, offset: 89540},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40645,32 +40683,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1806, col: 5, offset: 58308},
+																		pos: position{line: 1806, col: 5, offset: 58326},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40679,9 +40717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -40703,96 +40741,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 57824},
+			pos:  position{line: 1789, col: 1, offset: 57842},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 57842},
+				pos: position{line: 1790, col: 5, offset: 57860},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 57842},
+					pos: position{line: 1790, col: 5, offset: 57860},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 57842},
+							pos:   position{line: 1790, col: 5, offset: 57860},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 57848},
+								pos: position{line: 1790, col: 11, offset: 57866},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56300},
+									pos: position{line: 1745, col: 5, offset: 56318},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56300},
+										pos: position{line: 1745, col: 5, offset: 56318},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56300},
+												pos: position{line: 1745, col: 5, offset: 56318},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56363},
+												pos:   position{line: 1748, col: 5, offset: 56381},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56370},
+													pos: position{line: 1748, col: 12, offset: 56388},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56370},
+															pos: position{line: 1748, col: 12, offset: 56388},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56370},
+																pos:        position{line: 1748, col: 12, offset: 56388},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56426},
+															pos: position{line: 1750, col: 13, offset: 56444},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56426},
+																pos:        position{line: 1750, col: 13, offset: 56444},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56484},
+															pos: position{line: 1752, col: 13, offset: 56502},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56484},
+																pos:        position{line: 1752, col: 13, offset: 56502},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56552},
+															pos: position{line: 1754, col: 13, offset: 56570},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56552},
+																pos:        position{line: 1754, col: 13, offset: 56570},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56616},
+															pos: position{line: 1756, col: 13, offset: 56634},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56616},
+																pos:        position{line: 1756, col: 13, offset: 56634},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56680},
+															pos: position{line: 1758, col: 13, offset: 56698},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56680},
+																pos: position{line: 1758, col: 13, offset: 56698},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 90976},
+																	pos: position{line: 2877, col: 11, offset: 91008},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 90976},
+																		pos: position{line: 2877, col: 11, offset: 91008},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 90976},
+																			pos:        position{line: 2877, col: 11, offset: 91008},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40806,17 +40844,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 12, offset: 56760},
+												pos: position{line: 1760, col: 12, offset: 56778},
 												expr: &seqExpr{
-													pos: position{line: 1760, col: 14, offset: 56762},
+													pos: position{line: 1760, col: 14, offset: 56780},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1760, col: 14, offset: 56762},
+															pos: position{line: 1760, col: 14, offset: 56780},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40825,28 +40863,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91313},
+															pos: position{line: 2895, col: 8, offset: 91345},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91086},
+																	pos: position{line: 2882, col: 12, offset: 91118},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91087},
+																		pos: position{line: 2882, col: 13, offset: 91119},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91087},
+																				pos:        position{line: 2882, col: 13, offset: 91119},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91094},
+																				pos:        position{line: 2882, col: 20, offset: 91126},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91103},
+																				pos:        position{line: 2882, col: 29, offset: 91135},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40855,9 +40893,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -40871,24 +40909,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 57871},
+							pos:   position{line: 1791, col: 5, offset: 57889},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1805, col: 5, offset: 58284},
+								pos: position{line: 1805, col: 5, offset: 58302},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1805, col: 5, offset: 58284},
+									pos: position{line: 1805, col: 5, offset: 58302},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1805, col: 5, offset: 58284},
+											pos:   position{line: 1805, col: 5, offset: 58302},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89508},
+												pos: position{line: 2823, col: 14, offset: 89540},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89508},
+													pos: position{line: 2823, col: 14, offset: 89540},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89508},
+														pos:        position{line: 2823, col: 14, offset: 89540},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40898,32 +40936,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1806, col: 5, offset: 58308},
+											pos: position{line: 1806, col: 5, offset: 58326},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91313},
+											pos: position{line: 2895, col: 8, offset: 91345},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91086},
+													pos: position{line: 2882, col: 12, offset: 91118},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91087},
+														pos: position{line: 2882, col: 13, offset: 91119},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91087},
+																pos:        position{line: 2882, col: 13, offset: 91119},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91094},
+																pos:        position{line: 2882, col: 20, offset: 91126},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91103},
+																pos:        position{line: 2882, col: 29, offset: 91135},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40932,9 +40970,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91263},
+													pos: position{line: 2892, col: 8, offset: 91295},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91264,
+														line: 2892, col: 9, offset: 91296,
 													},
 												},
 											},
@@ -40944,24 +40982,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 57905},
+							pos:   position{line: 1792, col: 5, offset: 57923},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 57916},
+								pos: position{line: 1792, col: 16, offset: 57934},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 57926},
+									pos: position{line: 1793, col: 9, offset: 57944},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 57926},
+										pos: position{line: 1793, col: 9, offset: 57944},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91249},
+												pos: position{line: 2890, col: 11, offset: 91281},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91251,
+													line: 2890, col: 13, offset: 91283,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 57941},
+												pos: position{line: 1794, col: 9, offset: 57959},
 												expr: &actionExpr{
 													pos: position{line: 684, col: 14, offset: 21681},
 													run: (*parser).callonParagraph61,
@@ -40969,18 +41007,18 @@ var g = &grammar{
 														pos: position{line: 684, col: 14, offset: 21681},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91249},
+																pos: position{line: 2890, col: 11, offset: 91281},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91251,
+																	line: 2890, col: 13, offset: 91283,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 684, col: 21, offset: 21688},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40989,28 +41027,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91313},
+																pos: position{line: 2895, col: 8, offset: 91345},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91086},
+																		pos: position{line: 2882, col: 12, offset: 91118},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91087},
+																			pos: position{line: 2882, col: 13, offset: 91119},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91087},
+																					pos:        position{line: 2882, col: 13, offset: 91119},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91094},
+																					pos:        position{line: 2882, col: 20, offset: 91126},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91103},
+																					pos:        position{line: 2882, col: 29, offset: 91135},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41019,9 +41057,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91263},
+																		pos: position{line: 2892, col: 8, offset: 91295},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91264,
+																			line: 2892, col: 9, offset: 91296,
 																		},
 																	},
 																},
@@ -41031,16 +41069,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 57960},
+												pos: position{line: 1795, col: 9, offset: 57978},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 57961},
+													pos:  position{line: 1795, col: 10, offset: 57979},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1796, col: 9, offset: 57985},
+												pos: position{line: 1796, col: 9, offset: 58003},
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 11, offset: 57987},
+													pos: position{line: 1796, col: 11, offset: 58005},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 731, col: 5, offset: 23253},
@@ -41051,7 +41089,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 731, col: 5, offset: 23253},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2763, col: 13, offset: 88010},
+																			pos:        position{line: 2763, col: 13, offset: 88028},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41101,10 +41139,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23897},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41113,28 +41151,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41143,9 +41181,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41190,10 +41228,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24145},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41202,28 +41240,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41232,9 +41270,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41275,10 +41313,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 767, col: 52, offset: 24557},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41287,28 +41325,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41317,9 +41355,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41364,10 +41402,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 763, col: 8, offset: 24391},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41376,28 +41414,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41406,9 +41444,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41453,10 +41491,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24929},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41465,28 +41503,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41495,9 +41533,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41542,10 +41580,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25405},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41554,28 +41592,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41584,9 +41622,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41631,10 +41669,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25657},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41643,28 +41681,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41673,9 +41711,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41720,10 +41758,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25907},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41732,28 +41770,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41762,9 +41800,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41809,10 +41847,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 813, col: 8, offset: 26153},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90915},
+																									pos: position{line: 2873, col: 10, offset: 90947},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90915},
+																										pos:        position{line: 2873, col: 10, offset: 90947},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41821,28 +41859,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91313},
+																								pos: position{line: 2895, col: 8, offset: 91345},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91086},
+																										pos: position{line: 2882, col: 12, offset: 91118},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91087},
+																											pos: position{line: 2882, col: 13, offset: 91119},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91087},
+																													pos:        position{line: 2882, col: 13, offset: 91119},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91094},
+																													pos:        position{line: 2882, col: 20, offset: 91126},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91103},
+																													pos:        position{line: 2882, col: 29, offset: 91135},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41851,9 +41889,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91263},
+																										pos: position{line: 2892, col: 8, offset: 91295},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91264,
+																											line: 2892, col: 9, offset: 91296,
 																										},
 																									},
 																								},
@@ -41890,10 +41928,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25160},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41902,28 +41940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41932,9 +41970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -41943,21 +41981,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83598},
+															pos: position{line: 2615, col: 19, offset: 83616},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83598},
+																	pos:        position{line: 2615, col: 19, offset: 83616},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83605},
+																	pos: position{line: 2615, col: 26, offset: 83623},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41966,28 +42004,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41996,9 +42034,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -42009,42 +42047,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1797, col: 9, offset: 58049},
+												pos:   position{line: 1797, col: 9, offset: 58067},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1797, col: 15, offset: 58055},
+													pos: position{line: 1797, col: 15, offset: 58073},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79900},
+															pos: position{line: 2483, col: 22, offset: 79918},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79900},
+																pos: position{line: 2483, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80121},
+																		pos:        position{line: 2488, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80126},
+																		pos: position{line: 2488, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80127},
+																			pos:        position{line: 2488, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79927},
+																		pos:   position{line: 2483, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89441},
+																			pos: position{line: 2819, col: 13, offset: 89473},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89441},
+																				pos: position{line: 2819, col: 13, offset: 89473},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89441},
+																					pos:        position{line: 2819, col: 13, offset: 89473},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42054,28 +42092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42084,9 +42122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -42095,21 +42133,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1805, col: 5, offset: 58284},
+															pos: position{line: 1805, col: 5, offset: 58302},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1805, col: 5, offset: 58284},
+																pos: position{line: 1805, col: 5, offset: 58302},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1805, col: 5, offset: 58284},
+																		pos:   position{line: 1805, col: 5, offset: 58302},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89508},
+																			pos: position{line: 2823, col: 14, offset: 89540},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89508},
+																				pos: position{line: 2823, col: 14, offset: 89540},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89508},
+																					pos:        position{line: 2823, col: 14, offset: 89540},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42119,32 +42157,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1806, col: 5, offset: 58308},
+																		pos: position{line: 1806, col: 5, offset: 58326},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91313},
+																		pos: position{line: 2895, col: 8, offset: 91345},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42153,9 +42191,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91263},
+																				pos: position{line: 2892, col: 8, offset: 91295},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91264,
+																					line: 2892, col: 9, offset: 91296,
 																				},
 																			},
 																		},
@@ -42177,16 +42215,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1816, col: 1, offset: 58791},
+			pos:  position{line: 1816, col: 1, offset: 58809},
 			expr: &choiceExpr{
-				pos: position{line: 1816, col: 15, offset: 58805},
+				pos: position{line: 1816, col: 15, offset: 58823},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1816, col: 15, offset: 58805},
+						pos:  position{line: 1816, col: 15, offset: 58823},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1816, col: 35, offset: 58825},
+						pos:  position{line: 1816, col: 35, offset: 58843},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42194,65 +42232,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1818, col: 1, offset: 58846},
+			pos:  position{line: 1818, col: 1, offset: 58864},
 			expr: &actionExpr{
-				pos: position{line: 1819, col: 5, offset: 58871},
+				pos: position{line: 1819, col: 5, offset: 58889},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1819, col: 5, offset: 58871},
+					pos: position{line: 1819, col: 5, offset: 58889},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1819, col: 5, offset: 58871},
+							pos:   position{line: 1819, col: 5, offset: 58889},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1819, col: 16, offset: 58882},
+								pos: position{line: 1819, col: 16, offset: 58900},
 								expr: &actionExpr{
-									pos: position{line: 1819, col: 17, offset: 58883},
+									pos: position{line: 1819, col: 17, offset: 58901},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1819, col: 17, offset: 58883},
+										pos:  position{line: 1819, col: 17, offset: 58901},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1822, col: 5, offset: 58951},
+							pos: position{line: 1822, col: 5, offset: 58969},
 							expr: &litMatcher{
-								pos:        position{line: 1822, col: 7, offset: 58953},
+								pos:        position{line: 1822, col: 7, offset: 58971},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58962},
+							pos:   position{line: 1823, col: 5, offset: 58980},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1824, col: 9, offset: 58980},
+								pos: position{line: 1824, col: 9, offset: 58998},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 9, offset: 58980},
+										pos:  position{line: 1824, col: 9, offset: 58998},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59007},
+										pos:  position{line: 1825, col: 11, offset: 59025},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59035},
+										pos:  position{line: 1826, col: 11, offset: 59053},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59066},
+										pos:  position{line: 1827, col: 11, offset: 59084},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59094},
+										pos:  position{line: 1828, col: 11, offset: 59112},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1829, col: 11, offset: 59125},
+										pos:  position{line: 1829, col: 11, offset: 59143},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42264,36 +42302,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59245},
+			pos:  position{line: 1834, col: 1, offset: 59263},
 			expr: &actionExpr{
-				pos: position{line: 1835, col: 5, offset: 59287},
+				pos: position{line: 1835, col: 5, offset: 59305},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1835, col: 5, offset: 59287},
+					pos: position{line: 1835, col: 5, offset: 59305},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59287},
+							pos:   position{line: 1835, col: 5, offset: 59305},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1835, col: 16, offset: 59298},
+								pos: position{line: 1835, col: 16, offset: 59316},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1835, col: 17, offset: 59299},
+									pos:  position{line: 1835, col: 17, offset: 59317},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1836, col: 5, offset: 59324},
+							pos:   position{line: 1836, col: 5, offset: 59342},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1836, col: 14, offset: 59333},
+								pos: position{line: 1836, col: 14, offset: 59351},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 14, offset: 59333},
+										pos:  position{line: 1836, col: 14, offset: 59351},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 33, offset: 59352},
+										pos:  position{line: 1836, col: 33, offset: 59370},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42305,32 +42343,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1844, col: 1, offset: 59583},
+			pos:  position{line: 1844, col: 1, offset: 59601},
 			expr: &choiceExpr{
-				pos: position{line: 1845, col: 5, offset: 59608},
+				pos: position{line: 1845, col: 5, offset: 59626},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 5, offset: 59608},
+						pos:  position{line: 1845, col: 5, offset: 59626},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59635},
+						pos:  position{line: 1846, col: 7, offset: 59653},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59663},
+						pos:  position{line: 1847, col: 7, offset: 59681},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59695},
+						pos:  position{line: 1848, col: 7, offset: 59713},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59723},
+						pos:  position{line: 1849, col: 7, offset: 59741},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59744},
+						pos:  position{line: 1850, col: 7, offset: 59762},
 						name: "SuperscriptText",
 					},
 				},
@@ -42338,24 +42376,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1852, col: 1, offset: 59762},
+			pos:  position{line: 1852, col: 1, offset: 59780},
 			expr: &choiceExpr{
-				pos: position{line: 1853, col: 5, offset: 59787},
+				pos: position{line: 1853, col: 5, offset: 59805},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 5, offset: 59787},
+						pos:  position{line: 1853, col: 5, offset: 59805},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 59813},
+						pos:  position{line: 1854, col: 7, offset: 59831},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 59841},
+						pos:  position{line: 1855, col: 7, offset: 59859},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 7, offset: 59872},
+						pos:  position{line: 1856, col: 7, offset: 59890},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42363,26 +42401,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1870, col: 1, offset: 60226},
+			pos:  position{line: 1870, col: 1, offset: 60244},
 			expr: &choiceExpr{
-				pos: position{line: 1871, col: 5, offset: 60252},
+				pos: position{line: 1871, col: 5, offset: 60270},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2772, col: 5, offset: 88157},
+						pos: position{line: 2772, col: 5, offset: 88175},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2772, col: 5, offset: 88157},
+							pos: position{line: 2772, col: 5, offset: 88175},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2772, col: 5, offset: 88157},
+									pos:   position{line: 2772, col: 5, offset: 88175},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2772, col: 11, offset: 88163},
+										pos: position{line: 2772, col: 11, offset: 88181},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2772, col: 11, offset: 88163},
+											pos: position{line: 2772, col: 11, offset: 88181},
 											expr: &charClassMatcher{
-												pos:        position{line: 2772, col: 11, offset: 88163},
+												pos:        position{line: 2772, col: 11, offset: 88181},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42392,36 +42430,47 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2775, col: 5, offset: 88221},
+									pos: position{line: 2775, col: 5, offset: 88239},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 9, offset: 88232},
+										pos: position{line: 2776, col: 9, offset: 88250},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2776, col: 9, offset: 88232},
+												pos:        position{line: 2776, col: 9, offset: 88250},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2777, col: 9, offset: 88281},
+												pos: position{line: 2777, col: 9, offset: 88299},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2781, col: 5, offset: 88361},
+									pos: position{line: 2781, col: 5, offset: 88379},
 									expr: &seqExpr{
-										pos: position{line: 2782, col: 9, offset: 88372},
+										pos: position{line: 2782, col: 9, offset: 88390},
 										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 2782, col: 9, offset: 88390},
+												expr: &charClassMatcher{
+													pos:        position{line: 2782, col: 9, offset: 88390},
+													val:        "[._+-\\pL\\pN]",
+													chars:      []rune{'.', '_', '+', '-'},
+													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+													ignoreCase: false,
+													inverted:   false,
+												},
+											},
 											&litMatcher{
-												pos:        position{line: 2782, col: 9, offset: 88372},
+												pos:        position{line: 2782, col: 23, offset: 88404},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88376},
+												pos:        position{line: 2782, col: 27, offset: 88408},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42434,12 +42483,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 11, offset: 90976},
-						run: (*parser).callonQuotedTextElement16,
+						pos: position{line: 2877, col: 11, offset: 91008},
+						run: (*parser).callonQuotedTextElement18,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2877, col: 11, offset: 90976},
+							pos: position{line: 2877, col: 11, offset: 91008},
 							expr: &charClassMatcher{
-								pos:        position{line: 2877, col: 11, offset: 90976},
+								pos:        position{line: 2877, col: 11, offset: 91008},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42448,25 +42497,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60315},
+						pos:  position{line: 1873, col: 7, offset: 60333},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80617},
-						run: (*parser).callonQuotedTextElement20,
+						pos: position{line: 2501, col: 5, offset: 80635},
+						run: (*parser).callonQuotedTextElement22,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80617},
+							pos: position{line: 2501, col: 5, offset: 80635},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2501, col: 5, offset: 80617},
+									pos:        position{line: 2501, col: 5, offset: 80635},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2501, col: 10, offset: 80622},
+									pos: position{line: 2501, col: 10, offset: 80640},
 									expr: &charClassMatcher{
-										pos:        position{line: 2501, col: 11, offset: 80623},
+										pos:        position{line: 2501, col: 11, offset: 80641},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42477,29 +42526,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2507, col: 5, offset: 80815},
-						run: (*parser).callonQuotedTextElement25,
+						pos: position{line: 2507, col: 5, offset: 80833},
+						run: (*parser).callonQuotedTextElement27,
 						expr: &seqExpr{
-							pos: position{line: 2507, col: 5, offset: 80815},
+							pos: position{line: 2507, col: 5, offset: 80833},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2507, col: 5, offset: 80815},
-									run: (*parser).callonQuotedTextElement27,
+									pos: position{line: 2507, col: 5, offset: 80833},
+									run: (*parser).callonQuotedTextElement29,
 								},
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80886},
-									run: (*parser).callonQuotedTextElement28,
+									pos: position{line: 2510, col: 5, offset: 80904},
+									run: (*parser).callonQuotedTextElement30,
 								},
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81011},
+									pos:        position{line: 2514, col: 5, offset: 81029},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 9, offset: 81015},
+									pos: position{line: 2514, col: 9, offset: 81033},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 10, offset: 81016},
+										pos:        position{line: 2514, col: 10, offset: 81034},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42510,27 +42559,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2790, col: 5, offset: 88569},
-						run: (*parser).callonQuotedTextElement32,
+						pos: position{line: 2790, col: 5, offset: 88601},
+						run: (*parser).callonQuotedTextElement34,
 						expr: &choiceExpr{
-							pos: position{line: 2791, col: 9, offset: 88579},
+							pos: position{line: 2791, col: 9, offset: 88611},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2791, col: 10, offset: 88580},
+									pos:        position{line: 2791, col: 10, offset: 88612},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 13, offset: 88677},
+									pos: position{line: 2793, col: 13, offset: 88709},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2793, col: 13, offset: 88677},
-											run: (*parser).callonQuotedTextElement36,
+											pos: position{line: 2793, col: 13, offset: 88709},
+											run: (*parser).callonQuotedTextElement38,
 										},
 										&litMatcher{
-											pos:        position{line: 2796, col: 13, offset: 88777},
+											pos:        position{line: 2796, col: 13, offset: 88809},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42538,20 +42587,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2796, col: 19, offset: 88783},
+									pos:        position{line: 2796, col: 19, offset: 88815},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2799, col: 13, offset: 88821},
+									pos: position{line: 2799, col: 13, offset: 88853},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2799, col: 13, offset: 88821},
-											run: (*parser).callonQuotedTextElement40,
+											pos: position{line: 2799, col: 13, offset: 88853},
+											run: (*parser).callonQuotedTextElement42,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2802, col: 14, offset: 88914},
+											pos:        position{line: 2802, col: 14, offset: 88946},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42560,18 +42609,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2804, col: 12, offset: 88958},
+									pos: position{line: 2804, col: 12, offset: 88990},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2804, col: 12, offset: 88958},
+											pos:        position{line: 2804, col: 12, offset: 88990},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2804, col: 16, offset: 88962},
+											pos: position{line: 2804, col: 16, offset: 88994},
 											expr: &litMatcher{
-												pos:        position{line: 2804, col: 17, offset: 88963},
+												pos:        position{line: 2804, col: 17, offset: 88995},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42584,13 +42633,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 643, col: 5, offset: 20301},
-						run: (*parser).callonQuotedTextElement46,
+						run: (*parser).callonQuotedTextElement48,
 						expr: &seqExpr{
 							pos: position{line: 643, col: 5, offset: 20301},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 643, col: 5, offset: 20301},
-									run: (*parser).callonQuotedTextElement48,
+									run: (*parser).callonQuotedTextElement50,
 								},
 								&labeledExpr{
 									pos:   position{line: 646, col: 5, offset: 20373},
@@ -42600,7 +42649,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 652, col: 5, offset: 20511},
-												run: (*parser).callonQuotedTextElement51,
+												run: (*parser).callonQuotedTextElement53,
 												expr: &seqExpr{
 													pos: position{line: 652, col: 5, offset: 20511},
 													exprs: []interface{}{
@@ -42615,7 +42664,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement55,
+																run: (*parser).callonQuotedTextElement57,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -42653,7 +42702,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 659, col: 5, offset: 20779},
-												run: (*parser).callonQuotedTextElement61,
+												run: (*parser).callonQuotedTextElement63,
 												expr: &seqExpr{
 													pos: position{line: 659, col: 5, offset: 20779},
 													exprs: []interface{}{
@@ -42668,7 +42717,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement65,
+																run: (*parser).callonQuotedTextElement67,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -42706,7 +42755,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 665, col: 25, offset: 20983},
-												run: (*parser).callonQuotedTextElement71,
+												run: (*parser).callonQuotedTextElement73,
 												expr: &seqExpr{
 													pos: position{line: 665, col: 25, offset: 20983},
 													exprs: []interface{}{
@@ -42721,7 +42770,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement75,
+																run: (*parser).callonQuotedTextElement77,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -42755,7 +42804,7 @@ var g = &grammar{
 																pos: position{line: 665, col: 62, offset: 21020},
 																expr: &actionExpr{
 																	pos: position{line: 673, col: 17, offset: 21315},
-																	run: (*parser).callonQuotedTextElement82,
+																	run: (*parser).callonQuotedTextElement84,
 																	expr: &seqExpr{
 																		pos: position{line: 673, col: 17, offset: 21315},
 																		exprs: []interface{}{
@@ -42773,7 +42822,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 673, col: 28, offset: 21326},
-																							run: (*parser).callonQuotedTextElement87,
+																							run: (*parser).callonQuotedTextElement89,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 673, col: 28, offset: 21326},
 																								val:        "[A-Za-z]",
@@ -42784,7 +42833,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 675, col: 9, offset: 21380},
-																							run: (*parser).callonQuotedTextElement89,
+																							run: (*parser).callonQuotedTextElement91,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 675, col: 9, offset: 21380},
 																								expr: &charClassMatcher{
@@ -42815,7 +42864,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 669, col: 25, offset: 21154},
-												run: (*parser).callonQuotedTextElement93,
+												run: (*parser).callonQuotedTextElement95,
 												expr: &seqExpr{
 													pos: position{line: 669, col: 25, offset: 21154},
 													exprs: []interface{}{
@@ -42830,7 +42879,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement97,
+																run: (*parser).callonQuotedTextElement99,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -42864,7 +42913,7 @@ var g = &grammar{
 																pos: position{line: 669, col: 63, offset: 21192},
 																expr: &actionExpr{
 																	pos: position{line: 673, col: 17, offset: 21315},
-																	run: (*parser).callonQuotedTextElement104,
+																	run: (*parser).callonQuotedTextElement106,
 																	expr: &seqExpr{
 																		pos: position{line: 673, col: 17, offset: 21315},
 																		exprs: []interface{}{
@@ -42882,7 +42931,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 673, col: 28, offset: 21326},
-																							run: (*parser).callonQuotedTextElement109,
+																							run: (*parser).callonQuotedTextElement111,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 673, col: 28, offset: 21326},
 																								val:        "[A-Za-z]",
@@ -42893,7 +42942,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 675, col: 9, offset: 21380},
-																							run: (*parser).callonQuotedTextElement111,
+																							run: (*parser).callonQuotedTextElement113,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 675, col: 9, offset: 21380},
 																								expr: &charClassMatcher{
@@ -42929,31 +42978,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2886, col: 18, offset: 91186},
-						run: (*parser).callonQuotedTextElement115,
+						pos: position{line: 2886, col: 18, offset: 91218},
+						run: (*parser).callonQuotedTextElement117,
 						expr: &seqExpr{
-							pos: position{line: 2886, col: 18, offset: 91186},
+							pos: position{line: 2886, col: 18, offset: 91218},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
-									run: (*parser).callonQuotedTextElement117,
+									pos: position{line: 2882, col: 12, offset: 91118},
+									run: (*parser).callonQuotedTextElement119,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42962,27 +43011,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 26, offset: 91194},
+									pos: position{line: 2886, col: 26, offset: 91226},
 									expr: &actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91086},
-										run: (*parser).callonQuotedTextElement123,
+										pos: position{line: 2882, col: 12, offset: 91118},
+										run: (*parser).callonQuotedTextElement125,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91087},
+											pos: position{line: 2882, col: 13, offset: 91119},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91087},
+													pos:        position{line: 2882, col: 13, offset: 91119},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91094},
+													pos:        position{line: 2882, col: 20, offset: 91126},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91103},
+													pos:        position{line: 2882, col: 29, offset: 91135},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42995,31 +43044,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60482},
+						pos:  position{line: 1878, col: 7, offset: 60500},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60529},
+						pos:  position{line: 1879, col: 7, offset: 60547},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79446},
-						run: (*parser).callonQuotedTextElement130,
+						pos: position{line: 2470, col: 5, offset: 79464},
+						run: (*parser).callonQuotedTextElement132,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79446},
+							pos: position{line: 2470, col: 5, offset: 79464},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79446},
-									run: (*parser).callonQuotedTextElement132,
+									pos: position{line: 2470, col: 5, offset: 79464},
+									run: (*parser).callonQuotedTextElement134,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79522},
+									pos:   position{line: 2473, col: 5, offset: 79540},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79540},
-										run: (*parser).callonQuotedTextElement134,
+										pos: position{line: 2474, col: 9, offset: 79558},
+										run: (*parser).callonQuotedTextElement136,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79541},
+											pos:        position{line: 2474, col: 10, offset: 79559},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43032,7 +43081,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1213, col: 23, offset: 37389},
-						run: (*parser).callonQuotedTextElement136,
+						run: (*parser).callonQuotedTextElement138,
 						expr: &seqExpr{
 							pos: position{line: 1213, col: 23, offset: 37389},
 							exprs: []interface{}{
@@ -43047,7 +43096,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1213, col: 56, offset: 37422},
-										run: (*parser).callonQuotedTextElement140,
+										run: (*parser).callonQuotedTextElement142,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1213, col: 56, offset: 37422},
 											expr: &charClassMatcher{
@@ -43070,10 +43119,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2812, col: 12, offset: 89223},
-						run: (*parser).callonQuotedTextElement144,
+						pos: position{line: 2812, col: 12, offset: 89255},
+						run: (*parser).callonQuotedTextElement146,
 						expr: &charClassMatcher{
-							pos:        position{line: 2812, col: 12, offset: 89223},
+							pos:        position{line: 2812, col: 12, offset: 89255},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43085,29 +43134,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1897, col: 1, offset: 60999},
+			pos:  position{line: 1897, col: 1, offset: 61017},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61027},
+				pos: position{line: 1898, col: 5, offset: 61045},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61027},
+					pos: position{line: 1898, col: 5, offset: 61045},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1893, col: 38, offset: 60952},
+							pos:        position{line: 1893, col: 38, offset: 60970},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61066},
+							pos:   position{line: 1899, col: 5, offset: 61084},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 15, offset: 61076},
+								pos:  position{line: 1899, col: 15, offset: 61094},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1895, col: 36, offset: 60993},
+							pos:        position{line: 1895, col: 36, offset: 61011},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43118,44 +43167,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1904, col: 1, offset: 61236},
+			pos:  position{line: 1904, col: 1, offset: 61254},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1904, col: 32, offset: 61267},
+				pos: position{line: 1904, col: 32, offset: 61285},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1904, col: 32, offset: 61267},
+					pos:  position{line: 1904, col: 32, offset: 61285},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1906, col: 1, offset: 61298},
+			pos:  position{line: 1906, col: 1, offset: 61316},
 			expr: &actionExpr{
-				pos: position{line: 1907, col: 5, offset: 61333},
+				pos: position{line: 1907, col: 5, offset: 61351},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1907, col: 5, offset: 61333},
+					pos: position{line: 1907, col: 5, offset: 61351},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1908, col: 5, offset: 61344},
+							pos: position{line: 1908, col: 5, offset: 61362},
 							expr: &litMatcher{
-								pos:        position{line: 1895, col: 36, offset: 60993},
+								pos:        position{line: 1895, col: 36, offset: 61011},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1909, col: 5, offset: 61381},
+							pos:   position{line: 1909, col: 5, offset: 61399},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1909, col: 14, offset: 61390},
+								pos:  position{line: 1909, col: 14, offset: 61408},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43165,29 +43214,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1934, col: 1, offset: 62070},
+			pos:  position{line: 1934, col: 1, offset: 62088},
 			expr: &actionExpr{
-				pos: position{line: 1935, col: 5, offset: 62098},
+				pos: position{line: 1935, col: 5, offset: 62116},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1935, col: 5, offset: 62098},
+					pos: position{line: 1935, col: 5, offset: 62116},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1918, col: 5, offset: 61624},
+							pos:        position{line: 1918, col: 5, offset: 61642},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61633},
+							pos: position{line: 1919, col: 5, offset: 61651},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 61751},
+							pos: position{line: 1923, col: 5, offset: 61769},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 61753},
+								pos: position{line: 1923, col: 7, offset: 61771},
 								expr: &litMatcher{
-									pos:        position{line: 1923, col: 8, offset: 61754},
+									pos:        position{line: 1923, col: 8, offset: 61772},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43195,38 +43244,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1936, col: 5, offset: 62136},
+							pos:   position{line: 1936, col: 5, offset: 62154},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1936, col: 15, offset: 62146},
+								pos:  position{line: 1936, col: 15, offset: 62164},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1926, col: 5, offset: 61874},
+							pos:        position{line: 1926, col: 5, offset: 61892},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1927, col: 5, offset: 61883},
+							pos: position{line: 1927, col: 5, offset: 61901},
 							expr: &litMatcher{
-								pos:        position{line: 1927, col: 6, offset: 61884},
+								pos:        position{line: 1927, col: 6, offset: 61902},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1928, col: 5, offset: 61947},
+							pos: position{line: 1928, col: 5, offset: 61965},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1932, col: 5, offset: 62056},
+							pos: position{line: 1932, col: 5, offset: 62074},
 							expr: &notExpr{
-								pos: position{line: 1932, col: 7, offset: 62058},
+								pos: position{line: 1932, col: 7, offset: 62076},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88010},
+									pos:        position{line: 2763, col: 13, offset: 88028},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43240,20 +43289,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1941, col: 1, offset: 62306},
+			pos:  position{line: 1941, col: 1, offset: 62324},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62343},
+				pos: position{line: 1942, col: 5, offset: 62361},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62343},
+					pos: position{line: 1942, col: 5, offset: 62361},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62343},
+							pos: position{line: 1942, col: 5, offset: 62361},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43262,18 +43311,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62382},
+							pos:   position{line: 1943, col: 5, offset: 62400},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1943, col: 14, offset: 62391},
+								pos: position{line: 1943, col: 14, offset: 62409},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1943, col: 15, offset: 62392},
+									pos:  position{line: 1943, col: 15, offset: 62410},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1944, col: 5, offset: 62426},
+							pos: position{line: 1944, col: 5, offset: 62444},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43282,49 +43331,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1950, col: 1, offset: 62567},
+			pos:  position{line: 1950, col: 1, offset: 62585},
 			expr: &actionExpr{
-				pos: position{line: 1951, col: 5, offset: 62602},
+				pos: position{line: 1951, col: 5, offset: 62620},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1951, col: 5, offset: 62602},
+					pos: position{line: 1951, col: 5, offset: 62620},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1952, col: 5, offset: 62630},
+							pos: position{line: 1952, col: 5, offset: 62648},
 							expr: &seqExpr{
-								pos: position{line: 1926, col: 5, offset: 61874},
+								pos: position{line: 1926, col: 5, offset: 61892},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1926, col: 5, offset: 61874},
+										pos:        position{line: 1926, col: 5, offset: 61892},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1927, col: 5, offset: 61883},
+										pos: position{line: 1927, col: 5, offset: 61901},
 										expr: &litMatcher{
-											pos:        position{line: 1927, col: 6, offset: 61884},
+											pos:        position{line: 1927, col: 6, offset: 61902},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1928, col: 5, offset: 61947},
+										pos: position{line: 1928, col: 5, offset: 61965},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1932, col: 5, offset: 62056},
+										pos: position{line: 1932, col: 5, offset: 62074},
 										expr: &notExpr{
-											pos: position{line: 1932, col: 7, offset: 62058},
+											pos: position{line: 1932, col: 7, offset: 62076},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88010},
+												pos:        position{line: 2763, col: 13, offset: 88028},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43336,10 +43385,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1953, col: 5, offset: 62667},
+							pos:   position{line: 1953, col: 5, offset: 62685},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1953, col: 14, offset: 62676},
+								pos:  position{line: 1953, col: 14, offset: 62694},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43349,35 +43398,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1958, col: 1, offset: 62764},
+			pos:  position{line: 1958, col: 1, offset: 62782},
 			expr: &choiceExpr{
-				pos: position{line: 1960, col: 5, offset: 62825},
+				pos: position{line: 1960, col: 5, offset: 62843},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1960, col: 5, offset: 62825},
+						pos: position{line: 1960, col: 5, offset: 62843},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 5, offset: 62825},
+							pos: position{line: 1960, col: 5, offset: 62843},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 5, offset: 62825},
+									pos:   position{line: 1960, col: 5, offset: 62843},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60172},
+										pos: position{line: 1866, col: 25, offset: 60190},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60172},
+											pos: position{line: 1866, col: 25, offset: 60190},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60172},
+													pos:        position{line: 1866, col: 25, offset: 60190},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60177},
+													pos: position{line: 1866, col: 30, offset: 60195},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60177},
+														pos:        position{line: 1866, col: 30, offset: 60195},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43388,21 +43437,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 40, offset: 62860},
+									pos:        position{line: 1960, col: 40, offset: 62878},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 45, offset: 62865},
+									pos:   position{line: 1960, col: 45, offset: 62883},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 55, offset: 62875},
+										pos:  position{line: 1960, col: 55, offset: 62893},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 84, offset: 62904},
+									pos:        position{line: 1960, col: 84, offset: 62922},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43411,21 +43460,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1964, col: 7, offset: 63068},
+						pos: position{line: 1964, col: 7, offset: 63086},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1964, col: 7, offset: 63068},
+							pos: position{line: 1964, col: 7, offset: 63086},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1964, col: 7, offset: 63068},
+									pos:   position{line: 1964, col: 7, offset: 63086},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43434,21 +43483,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 42, offset: 63103},
+									pos:        position{line: 1964, col: 42, offset: 63121},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1964, col: 47, offset: 63108},
+									pos:   position{line: 1964, col: 47, offset: 63126},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1964, col: 57, offset: 63118},
+										pos:  position{line: 1964, col: 57, offset: 63136},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 86, offset: 63147},
+									pos:        position{line: 1964, col: 86, offset: 63165},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43457,21 +43506,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1969, col: 7, offset: 63349},
+						pos: position{line: 1969, col: 7, offset: 63367},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1969, col: 7, offset: 63349},
+							pos: position{line: 1969, col: 7, offset: 63367},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1969, col: 7, offset: 63349},
+									pos:   position{line: 1969, col: 7, offset: 63367},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43480,21 +43529,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1969, col: 42, offset: 63384},
+									pos:        position{line: 1969, col: 42, offset: 63402},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1969, col: 46, offset: 63388},
+									pos:   position{line: 1969, col: 46, offset: 63406},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1969, col: 56, offset: 63398},
+										pos:  position{line: 1969, col: 56, offset: 63416},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1969, col: 85, offset: 63427},
+									pos:        position{line: 1969, col: 85, offset: 63445},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43507,29 +43556,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1986, col: 1, offset: 63907},
+			pos:  position{line: 1986, col: 1, offset: 63925},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 63937},
+				pos: position{line: 1987, col: 5, offset: 63955},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 63937},
+					pos: position{line: 1987, col: 5, offset: 63955},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1982, col: 40, offset: 63858},
+							pos:        position{line: 1982, col: 40, offset: 63876},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 63978},
+							pos:   position{line: 1988, col: 5, offset: 63996},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 15, offset: 63988},
+								pos:  position{line: 1988, col: 15, offset: 64006},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1984, col: 38, offset: 63901},
+							pos:        position{line: 1984, col: 38, offset: 63919},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43540,44 +43589,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1993, col: 1, offset: 64153},
+			pos:  position{line: 1993, col: 1, offset: 64171},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1993, col: 34, offset: 64186},
+				pos: position{line: 1993, col: 34, offset: 64204},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1993, col: 34, offset: 64186},
+					pos:  position{line: 1993, col: 34, offset: 64204},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1995, col: 1, offset: 64218},
+			pos:  position{line: 1995, col: 1, offset: 64236},
 			expr: &actionExpr{
-				pos: position{line: 1996, col: 5, offset: 64255},
+				pos: position{line: 1996, col: 5, offset: 64273},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1996, col: 5, offset: 64255},
+					pos: position{line: 1996, col: 5, offset: 64273},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1997, col: 5, offset: 64266},
+							pos: position{line: 1997, col: 5, offset: 64284},
 							expr: &litMatcher{
-								pos:        position{line: 1984, col: 38, offset: 63901},
+								pos:        position{line: 1984, col: 38, offset: 63919},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1998, col: 5, offset: 64305},
+							pos:   position{line: 1998, col: 5, offset: 64323},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1998, col: 14, offset: 64314},
+								pos:  position{line: 1998, col: 14, offset: 64332},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43587,29 +43636,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2024, col: 1, offset: 64998},
+			pos:  position{line: 2024, col: 1, offset: 65016},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65028},
+				pos: position{line: 2025, col: 5, offset: 65046},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65028},
+					pos: position{line: 2025, col: 5, offset: 65046},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64556},
+							pos:        position{line: 2007, col: 5, offset: 64574},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64565},
+							pos: position{line: 2008, col: 5, offset: 64583},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64685},
+							pos: position{line: 2012, col: 5, offset: 64703},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64687},
+								pos: position{line: 2012, col: 7, offset: 64705},
 								expr: &litMatcher{
-									pos:        position{line: 2012, col: 8, offset: 64688},
+									pos:        position{line: 2012, col: 8, offset: 64706},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43617,38 +43666,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 65068},
+							pos:   position{line: 2026, col: 5, offset: 65086},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2026, col: 15, offset: 65078},
+								pos:  position{line: 2026, col: 15, offset: 65096},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2016, col: 5, offset: 64798},
+							pos:        position{line: 2016, col: 5, offset: 64816},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2017, col: 5, offset: 64807},
+							pos: position{line: 2017, col: 5, offset: 64825},
 							expr: &litMatcher{
-								pos:        position{line: 2017, col: 6, offset: 64808},
+								pos:        position{line: 2017, col: 6, offset: 64826},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2018, col: 5, offset: 64873},
+							pos: position{line: 2018, col: 5, offset: 64891},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2022, col: 5, offset: 64984},
+							pos: position{line: 2022, col: 5, offset: 65002},
 							expr: &notExpr{
-								pos: position{line: 2022, col: 7, offset: 64986},
+								pos: position{line: 2022, col: 7, offset: 65004},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88010},
+									pos:        position{line: 2763, col: 13, offset: 88028},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43662,20 +43711,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2031, col: 1, offset: 65245},
+			pos:  position{line: 2031, col: 1, offset: 65263},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65283},
+				pos: position{line: 2032, col: 5, offset: 65301},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65283},
+					pos: position{line: 2032, col: 5, offset: 65301},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65283},
+							pos: position{line: 2032, col: 5, offset: 65301},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43684,18 +43733,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65322},
+							pos:   position{line: 2033, col: 5, offset: 65340},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2033, col: 14, offset: 65331},
+								pos: position{line: 2033, col: 14, offset: 65349},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2033, col: 15, offset: 65332},
+									pos:  position{line: 2033, col: 15, offset: 65350},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2034, col: 5, offset: 65367},
+							pos: position{line: 2034, col: 5, offset: 65385},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43704,49 +43753,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2040, col: 1, offset: 65508},
+			pos:  position{line: 2040, col: 1, offset: 65526},
 			expr: &actionExpr{
-				pos: position{line: 2041, col: 5, offset: 65545},
+				pos: position{line: 2041, col: 5, offset: 65563},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2041, col: 5, offset: 65545},
+					pos: position{line: 2041, col: 5, offset: 65563},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65556},
+							pos: position{line: 2042, col: 5, offset: 65574},
 							expr: &seqExpr{
-								pos: position{line: 2016, col: 5, offset: 64798},
+								pos: position{line: 2016, col: 5, offset: 64816},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2016, col: 5, offset: 64798},
+										pos:        position{line: 2016, col: 5, offset: 64816},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2017, col: 5, offset: 64807},
+										pos: position{line: 2017, col: 5, offset: 64825},
 										expr: &litMatcher{
-											pos:        position{line: 2017, col: 6, offset: 64808},
+											pos:        position{line: 2017, col: 6, offset: 64826},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2018, col: 5, offset: 64873},
+										pos: position{line: 2018, col: 5, offset: 64891},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2022, col: 5, offset: 64984},
+										pos: position{line: 2022, col: 5, offset: 65002},
 										expr: &notExpr{
-											pos: position{line: 2022, col: 7, offset: 64986},
+											pos: position{line: 2022, col: 7, offset: 65004},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88010},
+												pos:        position{line: 2763, col: 13, offset: 88028},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43758,10 +43807,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2043, col: 5, offset: 65595},
+							pos:   position{line: 2043, col: 5, offset: 65613},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2043, col: 14, offset: 65604},
+								pos:  position{line: 2043, col: 14, offset: 65622},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43771,35 +43820,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2048, col: 1, offset: 65692},
+			pos:  position{line: 2048, col: 1, offset: 65710},
 			expr: &choiceExpr{
-				pos: position{line: 2050, col: 5, offset: 65757},
+				pos: position{line: 2050, col: 5, offset: 65775},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2050, col: 5, offset: 65757},
+						pos: position{line: 2050, col: 5, offset: 65775},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 5, offset: 65757},
+							pos: position{line: 2050, col: 5, offset: 65775},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 5, offset: 65757},
+									pos:   position{line: 2050, col: 5, offset: 65775},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60172},
+										pos: position{line: 1866, col: 25, offset: 60190},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60172},
+											pos: position{line: 1866, col: 25, offset: 60190},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60172},
+													pos:        position{line: 1866, col: 25, offset: 60190},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60177},
+													pos: position{line: 1866, col: 30, offset: 60195},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60177},
+														pos:        position{line: 1866, col: 30, offset: 60195},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43810,21 +43859,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 40, offset: 65792},
+									pos:        position{line: 2050, col: 40, offset: 65810},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 45, offset: 65797},
+									pos:   position{line: 2050, col: 45, offset: 65815},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 55, offset: 65807},
+										pos:  position{line: 2050, col: 55, offset: 65825},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 86, offset: 65838},
+									pos:        position{line: 2050, col: 86, offset: 65856},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43833,21 +43882,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2054, col: 7, offset: 66003},
+						pos: position{line: 2054, col: 7, offset: 66021},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2054, col: 7, offset: 66003},
+							pos: position{line: 2054, col: 7, offset: 66021},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2054, col: 7, offset: 66003},
+									pos:   position{line: 2054, col: 7, offset: 66021},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43856,21 +43905,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 42, offset: 66038},
+									pos:        position{line: 2054, col: 42, offset: 66056},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2054, col: 47, offset: 66043},
+									pos:   position{line: 2054, col: 47, offset: 66061},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2054, col: 57, offset: 66053},
+										pos:  position{line: 2054, col: 57, offset: 66071},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 88, offset: 66084},
+									pos:        position{line: 2054, col: 88, offset: 66102},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43879,21 +43928,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2059, col: 7, offset: 66325},
+						pos: position{line: 2059, col: 7, offset: 66343},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2059, col: 7, offset: 66325},
+							pos: position{line: 2059, col: 7, offset: 66343},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2059, col: 7, offset: 66325},
+									pos:   position{line: 2059, col: 7, offset: 66343},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43902,21 +43951,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 42, offset: 66360},
+									pos:        position{line: 2059, col: 42, offset: 66378},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2059, col: 46, offset: 66364},
+									pos:   position{line: 2059, col: 46, offset: 66382},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2059, col: 56, offset: 66374},
+										pos:  position{line: 2059, col: 56, offset: 66392},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 87, offset: 66405},
+									pos:        position{line: 2059, col: 87, offset: 66423},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43929,29 +43978,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2076, col: 1, offset: 66969},
+			pos:  position{line: 2076, col: 1, offset: 66987},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67002},
+				pos: position{line: 2077, col: 5, offset: 67020},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67002},
+					pos: position{line: 2077, col: 5, offset: 67020},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2072, col: 43, offset: 66917},
+							pos:        position{line: 2072, col: 43, offset: 66935},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67046},
+							pos:   position{line: 2078, col: 5, offset: 67064},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 15, offset: 67056},
+								pos:  position{line: 2078, col: 15, offset: 67074},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2074, col: 41, offset: 66963},
+							pos:        position{line: 2074, col: 41, offset: 66981},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43962,44 +44011,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2083, col: 1, offset: 67231},
+			pos:  position{line: 2083, col: 1, offset: 67249},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2083, col: 37, offset: 67267},
+				pos: position{line: 2083, col: 37, offset: 67285},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2083, col: 37, offset: 67267},
+					pos:  position{line: 2083, col: 37, offset: 67285},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2085, col: 1, offset: 67334},
+			pos:  position{line: 2085, col: 1, offset: 67352},
 			expr: &actionExpr{
-				pos: position{line: 2086, col: 5, offset: 67374},
+				pos: position{line: 2086, col: 5, offset: 67392},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2086, col: 5, offset: 67374},
+					pos: position{line: 2086, col: 5, offset: 67392},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2087, col: 5, offset: 67385},
+							pos: position{line: 2087, col: 5, offset: 67403},
 							expr: &litMatcher{
-								pos:        position{line: 2074, col: 41, offset: 66963},
+								pos:        position{line: 2074, col: 41, offset: 66981},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2088, col: 5, offset: 67427},
+							pos:   position{line: 2088, col: 5, offset: 67445},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2088, col: 14, offset: 67436},
+								pos:  position{line: 2088, col: 14, offset: 67454},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44009,33 +44058,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2106, col: 1, offset: 67978},
+			pos:  position{line: 2106, col: 1, offset: 67996},
 			expr: &seqExpr{
-				pos: position{line: 2107, col: 5, offset: 68023},
+				pos: position{line: 2107, col: 5, offset: 68041},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2107, col: 5, offset: 68023},
+						pos: position{line: 2107, col: 5, offset: 68041},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2107, col: 6, offset: 68024},
+							pos:  position{line: 2107, col: 6, offset: 68042},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2108, col: 5, offset: 68043},
+						pos:        position{line: 2108, col: 5, offset: 68061},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2109, col: 5, offset: 68051},
+						pos: position{line: 2109, col: 5, offset: 68069},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2113, col: 5, offset: 68165},
+						pos: position{line: 2113, col: 5, offset: 68183},
 						expr: &notExpr{
-							pos: position{line: 2113, col: 7, offset: 68167},
+							pos: position{line: 2113, col: 7, offset: 68185},
 							expr: &charClassMatcher{
-								pos:        position{line: 2763, col: 13, offset: 88010},
+								pos:        position{line: 2763, col: 13, offset: 88028},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44048,29 +44097,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2116, col: 1, offset: 68184},
+			pos:  position{line: 2116, col: 1, offset: 68202},
 			expr: &actionExpr{
-				pos: position{line: 2117, col: 5, offset: 68217},
+				pos: position{line: 2117, col: 5, offset: 68235},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2117, col: 5, offset: 68217},
+					pos: position{line: 2117, col: 5, offset: 68235},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2099, col: 5, offset: 67780},
+							pos:        position{line: 2099, col: 5, offset: 67798},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2100, col: 5, offset: 67789},
+							pos: position{line: 2100, col: 5, offset: 67807},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2104, col: 5, offset: 67912},
+							pos: position{line: 2104, col: 5, offset: 67930},
 							expr: &notExpr{
-								pos: position{line: 2104, col: 7, offset: 67914},
+								pos: position{line: 2104, col: 7, offset: 67932},
 								expr: &litMatcher{
-									pos:        position{line: 2104, col: 8, offset: 67915},
+									pos:        position{line: 2104, col: 8, offset: 67933},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44078,15 +44127,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2118, col: 5, offset: 68261},
+							pos:   position{line: 2118, col: 5, offset: 68279},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2118, col: 15, offset: 68271},
+								pos:  position{line: 2118, col: 15, offset: 68289},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2119, col: 5, offset: 68310},
+							pos:  position{line: 2119, col: 5, offset: 68328},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44095,20 +44144,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2123, col: 1, offset: 68447},
+			pos:  position{line: 2123, col: 1, offset: 68465},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68488},
+				pos: position{line: 2124, col: 5, offset: 68506},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68488},
+					pos: position{line: 2124, col: 5, offset: 68506},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68488},
+							pos: position{line: 2124, col: 5, offset: 68506},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44117,18 +44166,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68527},
+							pos:   position{line: 2125, col: 5, offset: 68545},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2125, col: 14, offset: 68536},
+								pos: position{line: 2125, col: 14, offset: 68554},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2125, col: 15, offset: 68537},
+									pos:  position{line: 2125, col: 15, offset: 68555},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2126, col: 5, offset: 68575},
+							pos: position{line: 2126, col: 5, offset: 68593},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44137,31 +44186,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2132, col: 1, offset: 68716},
+			pos:  position{line: 2132, col: 1, offset: 68734},
 			expr: &actionExpr{
-				pos: position{line: 2133, col: 5, offset: 68756},
+				pos: position{line: 2133, col: 5, offset: 68774},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2133, col: 5, offset: 68756},
+					pos: position{line: 2133, col: 5, offset: 68774},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2134, col: 5, offset: 68767},
+							pos: position{line: 2134, col: 5, offset: 68785},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2134, col: 6, offset: 68768},
+								pos:  position{line: 2134, col: 6, offset: 68786},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2135, col: 5, offset: 68809},
+							pos:   position{line: 2135, col: 5, offset: 68827},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2135, col: 14, offset: 68818},
+								pos:  position{line: 2135, col: 14, offset: 68836},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44171,35 +44220,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2140, col: 1, offset: 68906},
+			pos:  position{line: 2140, col: 1, offset: 68924},
 			expr: &choiceExpr{
-				pos: position{line: 2142, col: 5, offset: 68977},
+				pos: position{line: 2142, col: 5, offset: 68995},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2142, col: 5, offset: 68977},
+						pos: position{line: 2142, col: 5, offset: 68995},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 5, offset: 68977},
+							pos: position{line: 2142, col: 5, offset: 68995},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 5, offset: 68977},
+									pos:   position{line: 2142, col: 5, offset: 68995},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60172},
+										pos: position{line: 1866, col: 25, offset: 60190},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60172},
+											pos: position{line: 1866, col: 25, offset: 60190},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60172},
+													pos:        position{line: 1866, col: 25, offset: 60190},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60177},
+													pos: position{line: 1866, col: 30, offset: 60195},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60177},
+														pos:        position{line: 1866, col: 30, offset: 60195},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44210,21 +44259,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 40, offset: 69012},
+									pos:        position{line: 2142, col: 40, offset: 69030},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 45, offset: 69017},
+									pos:   position{line: 2142, col: 45, offset: 69035},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 55, offset: 69027},
+										pos:  position{line: 2142, col: 55, offset: 69045},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 89, offset: 69061},
+									pos:        position{line: 2142, col: 89, offset: 69079},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44233,21 +44282,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2146, col: 7, offset: 69230},
+						pos: position{line: 2146, col: 7, offset: 69248},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2146, col: 7, offset: 69230},
+							pos: position{line: 2146, col: 7, offset: 69248},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2146, col: 7, offset: 69230},
+									pos:   position{line: 2146, col: 7, offset: 69248},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44256,21 +44305,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 42, offset: 69265},
+									pos:        position{line: 2146, col: 42, offset: 69283},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2146, col: 47, offset: 69270},
+									pos:   position{line: 2146, col: 47, offset: 69288},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2146, col: 57, offset: 69280},
+										pos:  position{line: 2146, col: 57, offset: 69298},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 91, offset: 69314},
+									pos:        position{line: 2146, col: 91, offset: 69332},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44279,21 +44328,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2151, col: 7, offset: 69520},
+						pos: position{line: 2151, col: 7, offset: 69538},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2151, col: 7, offset: 69520},
+							pos: position{line: 2151, col: 7, offset: 69538},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2151, col: 7, offset: 69520},
+									pos:   position{line: 2151, col: 7, offset: 69538},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44302,21 +44351,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 42, offset: 69555},
+									pos:        position{line: 2151, col: 42, offset: 69573},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2151, col: 46, offset: 69559},
+									pos:   position{line: 2151, col: 46, offset: 69577},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2151, col: 56, offset: 69569},
+										pos:  position{line: 2151, col: 56, offset: 69587},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 90, offset: 69603},
+									pos:        position{line: 2151, col: 90, offset: 69621},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44329,29 +44378,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2168, col: 1, offset: 70088},
+			pos:  position{line: 2168, col: 1, offset: 70106},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70118},
+				pos: position{line: 2169, col: 5, offset: 70136},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70118},
+					pos: position{line: 2169, col: 5, offset: 70136},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2164, col: 40, offset: 70039},
+							pos:        position{line: 2164, col: 40, offset: 70057},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70159},
+							pos:   position{line: 2170, col: 5, offset: 70177},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 15, offset: 70169},
+								pos:  position{line: 2170, col: 15, offset: 70187},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2166, col: 38, offset: 70082},
+							pos:        position{line: 2166, col: 38, offset: 70100},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44362,44 +44411,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2175, col: 1, offset: 70335},
+			pos:  position{line: 2175, col: 1, offset: 70353},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2175, col: 34, offset: 70368},
+				pos: position{line: 2175, col: 34, offset: 70386},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2175, col: 34, offset: 70368},
+					pos:  position{line: 2175, col: 34, offset: 70386},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2177, col: 1, offset: 70399},
+			pos:  position{line: 2177, col: 1, offset: 70417},
 			expr: &actionExpr{
-				pos: position{line: 2178, col: 5, offset: 70468},
+				pos: position{line: 2178, col: 5, offset: 70486},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2178, col: 5, offset: 70468},
+					pos: position{line: 2178, col: 5, offset: 70486},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2179, col: 5, offset: 70479},
+							pos: position{line: 2179, col: 5, offset: 70497},
 							expr: &litMatcher{
-								pos:        position{line: 2166, col: 38, offset: 70082},
+								pos:        position{line: 2166, col: 38, offset: 70100},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2180, col: 5, offset: 70518},
+							pos:   position{line: 2180, col: 5, offset: 70536},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2180, col: 14, offset: 70527},
+								pos:  position{line: 2180, col: 14, offset: 70545},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44409,29 +44458,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2205, col: 1, offset: 71209},
+			pos:  position{line: 2205, col: 1, offset: 71227},
 			expr: &actionExpr{
-				pos: position{line: 2206, col: 5, offset: 71239},
+				pos: position{line: 2206, col: 5, offset: 71257},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2206, col: 5, offset: 71239},
+					pos: position{line: 2206, col: 5, offset: 71257},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2189, col: 5, offset: 70775},
+							pos:        position{line: 2189, col: 5, offset: 70793},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 70784},
+							pos: position{line: 2190, col: 5, offset: 70802},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 70904},
+							pos: position{line: 2194, col: 5, offset: 70922},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 70906},
+								pos: position{line: 2194, col: 7, offset: 70924},
 								expr: &litMatcher{
-									pos:        position{line: 2194, col: 8, offset: 70907},
+									pos:        position{line: 2194, col: 8, offset: 70925},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44439,38 +44488,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71279},
+							pos:   position{line: 2207, col: 5, offset: 71297},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 15, offset: 71289},
+								pos:  position{line: 2207, col: 15, offset: 71307},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 5, offset: 71012},
+							pos:        position{line: 2197, col: 5, offset: 71030},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2198, col: 5, offset: 71020},
+							pos: position{line: 2198, col: 5, offset: 71038},
 							expr: &litMatcher{
-								pos:        position{line: 2198, col: 6, offset: 71021},
+								pos:        position{line: 2198, col: 6, offset: 71039},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2199, col: 5, offset: 71084},
+							pos: position{line: 2199, col: 5, offset: 71102},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2203, col: 5, offset: 71195},
+							pos: position{line: 2203, col: 5, offset: 71213},
 							expr: &notExpr{
-								pos: position{line: 2203, col: 7, offset: 71197},
+								pos: position{line: 2203, col: 7, offset: 71215},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88010},
+									pos:        position{line: 2763, col: 13, offset: 88028},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44484,20 +44533,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2212, col: 1, offset: 71456},
+			pos:  position{line: 2212, col: 1, offset: 71474},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71494},
+				pos: position{line: 2213, col: 5, offset: 71512},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71494},
+					pos: position{line: 2213, col: 5, offset: 71512},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71494},
+							pos: position{line: 2213, col: 5, offset: 71512},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90915},
+								pos: position{line: 2873, col: 10, offset: 90947},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90915},
+									pos:        position{line: 2873, col: 10, offset: 90947},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44506,18 +44555,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71533},
+							pos:   position{line: 2214, col: 5, offset: 71551},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2214, col: 14, offset: 71542},
+								pos: position{line: 2214, col: 14, offset: 71560},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2214, col: 15, offset: 71543},
+									pos:  position{line: 2214, col: 15, offset: 71561},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2215, col: 5, offset: 71579},
+							pos: position{line: 2215, col: 5, offset: 71597},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44526,49 +44575,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2221, col: 1, offset: 71720},
+			pos:  position{line: 2221, col: 1, offset: 71738},
 			expr: &actionExpr{
-				pos: position{line: 2222, col: 5, offset: 71757},
+				pos: position{line: 2222, col: 5, offset: 71775},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2222, col: 5, offset: 71757},
+					pos: position{line: 2222, col: 5, offset: 71775},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2223, col: 5, offset: 71768},
+							pos: position{line: 2223, col: 5, offset: 71786},
 							expr: &seqExpr{
-								pos: position{line: 2197, col: 5, offset: 71012},
+								pos: position{line: 2197, col: 5, offset: 71030},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2197, col: 5, offset: 71012},
+										pos:        position{line: 2197, col: 5, offset: 71030},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2198, col: 5, offset: 71020},
+										pos: position{line: 2198, col: 5, offset: 71038},
 										expr: &litMatcher{
-											pos:        position{line: 2198, col: 6, offset: 71021},
+											pos:        position{line: 2198, col: 6, offset: 71039},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2199, col: 5, offset: 71084},
+										pos: position{line: 2199, col: 5, offset: 71102},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2203, col: 5, offset: 71195},
+										pos: position{line: 2203, col: 5, offset: 71213},
 										expr: &notExpr{
-											pos: position{line: 2203, col: 7, offset: 71197},
+											pos: position{line: 2203, col: 7, offset: 71215},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88010},
+												pos:        position{line: 2763, col: 13, offset: 88028},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44580,10 +44629,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2224, col: 5, offset: 71807},
+							pos:   position{line: 2224, col: 5, offset: 71825},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2224, col: 14, offset: 71816},
+								pos:  position{line: 2224, col: 14, offset: 71834},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44593,35 +44642,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2229, col: 1, offset: 71904},
+			pos:  position{line: 2229, col: 1, offset: 71922},
 			expr: &choiceExpr{
-				pos: position{line: 2231, col: 5, offset: 71968},
+				pos: position{line: 2231, col: 5, offset: 71986},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2231, col: 5, offset: 71968},
+						pos: position{line: 2231, col: 5, offset: 71986},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 5, offset: 71968},
+							pos: position{line: 2231, col: 5, offset: 71986},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 5, offset: 71968},
+									pos:   position{line: 2231, col: 5, offset: 71986},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60172},
+										pos: position{line: 1866, col: 25, offset: 60190},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60172},
+											pos: position{line: 1866, col: 25, offset: 60190},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60172},
+													pos:        position{line: 1866, col: 25, offset: 60190},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60177},
+													pos: position{line: 1866, col: 30, offset: 60195},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60177},
+														pos:        position{line: 1866, col: 30, offset: 60195},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44632,21 +44681,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 40, offset: 72003},
+									pos:        position{line: 2231, col: 40, offset: 72021},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 45, offset: 72008},
+									pos:   position{line: 2231, col: 45, offset: 72026},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 55, offset: 72018},
+										pos:  position{line: 2231, col: 55, offset: 72036},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 86, offset: 72049},
+									pos:        position{line: 2231, col: 86, offset: 72067},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44655,21 +44704,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2235, col: 7, offset: 72214},
+						pos: position{line: 2235, col: 7, offset: 72232},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2235, col: 7, offset: 72214},
+							pos: position{line: 2235, col: 7, offset: 72232},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2235, col: 7, offset: 72214},
+									pos:   position{line: 2235, col: 7, offset: 72232},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44678,21 +44727,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 42, offset: 72249},
+									pos:        position{line: 2235, col: 42, offset: 72267},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2235, col: 47, offset: 72254},
+									pos:   position{line: 2235, col: 47, offset: 72272},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2235, col: 57, offset: 72264},
+										pos:  position{line: 2235, col: 57, offset: 72282},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 88, offset: 72295},
+									pos:        position{line: 2235, col: 88, offset: 72313},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44701,21 +44750,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2240, col: 7, offset: 72498},
+						pos: position{line: 2240, col: 7, offset: 72516},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2240, col: 7, offset: 72498},
+							pos: position{line: 2240, col: 7, offset: 72516},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2240, col: 7, offset: 72498},
+									pos:   position{line: 2240, col: 7, offset: 72516},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60099},
+										pos: position{line: 1862, col: 25, offset: 60117},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60099},
+											pos: position{line: 1862, col: 25, offset: 60117},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60099},
+												pos:        position{line: 1862, col: 25, offset: 60117},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44724,21 +44773,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2240, col: 42, offset: 72533},
+									pos:        position{line: 2240, col: 42, offset: 72551},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2240, col: 46, offset: 72537},
+									pos:   position{line: 2240, col: 46, offset: 72555},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2240, col: 56, offset: 72547},
+										pos:  position{line: 2240, col: 56, offset: 72565},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2240, col: 87, offset: 72578},
+									pos:        position{line: 2240, col: 87, offset: 72596},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44751,29 +44800,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2247, col: 1, offset: 72845},
+			pos:  position{line: 2247, col: 1, offset: 72863},
 			expr: &actionExpr{
-				pos: position{line: 2248, col: 5, offset: 72867},
+				pos: position{line: 2248, col: 5, offset: 72885},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2248, col: 5, offset: 72867},
+					pos: position{line: 2248, col: 5, offset: 72885},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73082},
+							pos:        position{line: 2254, col: 27, offset: 73100},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2249, col: 5, offset: 72894},
+							pos:   position{line: 2249, col: 5, offset: 72912},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2249, col: 14, offset: 72903},
+								pos:  position{line: 2249, col: 14, offset: 72921},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73082},
+							pos:        position{line: 2254, col: 27, offset: 73100},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44784,43 +44833,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2256, col: 1, offset: 73087},
+			pos:  position{line: 2256, col: 1, offset: 73105},
 			expr: &choiceExpr{
-				pos: position{line: 2256, col: 25, offset: 73111},
+				pos: position{line: 2256, col: 25, offset: 73129},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2256, col: 25, offset: 73111},
+						pos:  position{line: 2256, col: 25, offset: 73129},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2258, col: 21, offset: 73163},
+						pos: position{line: 2258, col: 21, offset: 73181},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2258, col: 21, offset: 73163},
+							pos:   position{line: 2258, col: 21, offset: 73181},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2258, col: 29, offset: 73171},
+								pos: position{line: 2258, col: 29, offset: 73189},
 								expr: &choiceExpr{
-									pos: position{line: 2258, col: 30, offset: 73172},
+									pos: position{line: 2258, col: 30, offset: 73190},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79446},
+												pos: position{line: 2470, col: 5, offset: 79464},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79446},
+														pos: position{line: 2470, col: 5, offset: 79464},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79522},
+														pos:   position{line: 2473, col: 5, offset: 79540},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79540},
+															pos: position{line: 2474, col: 9, offset: 79558},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79541},
+																pos:        position{line: 2474, col: 10, offset: 79559},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44832,7 +44881,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2258, col: 49, offset: 73191},
+											pos:        position{line: 2258, col: 49, offset: 73209},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44848,23 +44897,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73248},
+			pos:  position{line: 2262, col: 1, offset: 73266},
 			expr: &actionExpr{
-				pos: position{line: 2264, col: 5, offset: 73315},
+				pos: position{line: 2264, col: 5, offset: 73333},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2264, col: 5, offset: 73315},
+					pos: position{line: 2264, col: 5, offset: 73333},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73315},
+							pos:   position{line: 2264, col: 5, offset: 73333},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1862, col: 25, offset: 60099},
+								pos: position{line: 1862, col: 25, offset: 60117},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1862, col: 25, offset: 60099},
+									pos: position{line: 1862, col: 25, offset: 60117},
 									expr: &litMatcher{
-										pos:        position{line: 1862, col: 25, offset: 60099},
+										pos:        position{line: 1862, col: 25, offset: 60117},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44873,21 +44922,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73082},
+							pos:        position{line: 2254, col: 27, offset: 73100},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73383},
+							pos:   position{line: 2266, col: 5, offset: 73401},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73392},
+								pos:  position{line: 2266, col: 14, offset: 73410},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73082},
+							pos:        position{line: 2254, col: 27, offset: 73100},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44898,29 +44947,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73655},
+			pos:  position{line: 2274, col: 1, offset: 73673},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73679},
+				pos: position{line: 2275, col: 5, offset: 73697},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73679},
+					pos: position{line: 2275, col: 5, offset: 73697},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73906},
+							pos:        position{line: 2281, col: 29, offset: 73924},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73709},
+							pos:   position{line: 2276, col: 5, offset: 73727},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73718},
+								pos:  position{line: 2276, col: 14, offset: 73736},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73906},
+							pos:        position{line: 2281, col: 29, offset: 73924},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44931,43 +44980,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 73911},
+			pos:  position{line: 2283, col: 1, offset: 73929},
 			expr: &choiceExpr{
-				pos: position{line: 2283, col: 27, offset: 73937},
+				pos: position{line: 2283, col: 27, offset: 73955},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2283, col: 27, offset: 73937},
+						pos:  position{line: 2283, col: 27, offset: 73955},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2285, col: 23, offset: 73993},
+						pos: position{line: 2285, col: 23, offset: 74011},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2285, col: 23, offset: 73993},
+							pos:   position{line: 2285, col: 23, offset: 74011},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2285, col: 31, offset: 74001},
+								pos: position{line: 2285, col: 31, offset: 74019},
 								expr: &choiceExpr{
-									pos: position{line: 2285, col: 32, offset: 74002},
+									pos: position{line: 2285, col: 32, offset: 74020},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79446},
+												pos: position{line: 2470, col: 5, offset: 79464},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79446},
+														pos: position{line: 2470, col: 5, offset: 79464},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79522},
+														pos:   position{line: 2473, col: 5, offset: 79540},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79540},
+															pos: position{line: 2474, col: 9, offset: 79558},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79541},
+																pos:        position{line: 2474, col: 10, offset: 79559},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44979,7 +45028,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2285, col: 51, offset: 74021},
+											pos:        position{line: 2285, col: 51, offset: 74039},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44995,23 +45044,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2289, col: 1, offset: 74078},
+			pos:  position{line: 2289, col: 1, offset: 74096},
 			expr: &actionExpr{
-				pos: position{line: 2291, col: 5, offset: 74150},
+				pos: position{line: 2291, col: 5, offset: 74168},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2291, col: 5, offset: 74150},
+					pos: position{line: 2291, col: 5, offset: 74168},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2291, col: 5, offset: 74150},
+							pos:   position{line: 2291, col: 5, offset: 74168},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1862, col: 25, offset: 60099},
+								pos: position{line: 1862, col: 25, offset: 60117},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1862, col: 25, offset: 60099},
+									pos: position{line: 1862, col: 25, offset: 60117},
 									expr: &litMatcher{
-										pos:        position{line: 1862, col: 25, offset: 60099},
+										pos:        position{line: 1862, col: 25, offset: 60117},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45020,21 +45069,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73906},
+							pos:        position{line: 2281, col: 29, offset: 73924},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 5, offset: 74220},
+							pos:   position{line: 2293, col: 5, offset: 74238},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 14, offset: 74229},
+								pos:  position{line: 2293, col: 14, offset: 74247},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73906},
+							pos:        position{line: 2281, col: 29, offset: 73924},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45045,27 +45094,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2302, col: 1, offset: 74698},
+			pos:  position{line: 2302, col: 1, offset: 74716},
 			expr: &actionExpr{
-				pos: position{line: 2303, col: 5, offset: 74714},
+				pos: position{line: 2303, col: 5, offset: 74732},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2303, col: 5, offset: 74714},
+					pos: position{line: 2303, col: 5, offset: 74732},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2303, col: 5, offset: 74714},
+							pos: position{line: 2303, col: 5, offset: 74732},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74777},
+							pos:   position{line: 2306, col: 5, offset: 74795},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2306, col: 12, offset: 74784},
+								pos: position{line: 2306, col: 12, offset: 74802},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2306, col: 12, offset: 74784},
+									pos: position{line: 2306, col: 12, offset: 74802},
 									expr: &litMatcher{
-										pos:        position{line: 2306, col: 13, offset: 74785},
+										pos:        position{line: 2306, col: 13, offset: 74803},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45074,16 +45123,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 74893},
+							pos: position{line: 2310, col: 5, offset: 74911},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 90976},
+							pos: position{line: 2877, col: 11, offset: 91008},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 90976},
+								pos: position{line: 2877, col: 11, offset: 91008},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 90976},
+									pos:        position{line: 2877, col: 11, offset: 91008},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45092,36 +45141,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 12, offset: 75052},
+							pos:   position{line: 2314, col: 12, offset: 75070},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2314, col: 19, offset: 75059},
+								pos:  position{line: 2314, col: 19, offset: 75077},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45130,9 +45179,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -45143,24 +45192,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2318, col: 1, offset: 75155},
+			pos:  position{line: 2318, col: 1, offset: 75173},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75176},
+				pos: position{line: 2319, col: 5, offset: 75194},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75176},
+					pos: position{line: 2319, col: 5, offset: 75194},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2319, col: 5, offset: 75176},
+							pos: position{line: 2319, col: 5, offset: 75194},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75291},
+							pos:   position{line: 2324, col: 5, offset: 75309},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2324, col: 14, offset: 75300},
+								pos: position{line: 2324, col: 14, offset: 75318},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2324, col: 15, offset: 75301},
+									pos:  position{line: 2324, col: 15, offset: 75319},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45171,38 +45220,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2328, col: 1, offset: 75382},
+			pos:  position{line: 2328, col: 1, offset: 75400},
 			expr: &actionExpr{
-				pos: position{line: 2329, col: 5, offset: 75409},
+				pos: position{line: 2329, col: 5, offset: 75427},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2329, col: 5, offset: 75409},
+					pos: position{line: 2329, col: 5, offset: 75427},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2329, col: 5, offset: 75409},
+							pos: position{line: 2329, col: 5, offset: 75427},
 							expr: &choiceExpr{
-								pos: position{line: 2895, col: 8, offset: 91313},
+								pos: position{line: 2895, col: 8, offset: 91345},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91086},
+										pos: position{line: 2882, col: 12, offset: 91118},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91087},
+											pos: position{line: 2882, col: 13, offset: 91119},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91087},
+													pos:        position{line: 2882, col: 13, offset: 91119},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91094},
+													pos:        position{line: 2882, col: 20, offset: 91126},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91103},
+													pos:        position{line: 2882, col: 29, offset: 91135},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45211,36 +45260,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91263},
+										pos: position{line: 2892, col: 8, offset: 91295},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91264,
+											line: 2892, col: 9, offset: 91296,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75418},
+							pos:   position{line: 2330, col: 5, offset: 75436},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2331, col: 9, offset: 75436},
+								pos: position{line: 2331, col: 9, offset: 75454},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88157},
+										pos: position{line: 2772, col: 5, offset: 88175},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88157},
+											pos: position{line: 2772, col: 5, offset: 88175},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88157},
+													pos:   position{line: 2772, col: 5, offset: 88175},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88163},
+														pos: position{line: 2772, col: 11, offset: 88181},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88163},
+															pos: position{line: 2772, col: 11, offset: 88181},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88163},
+																pos:        position{line: 2772, col: 11, offset: 88181},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45250,36 +45299,47 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88221},
+													pos: position{line: 2775, col: 5, offset: 88239},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88232},
+														pos: position{line: 2776, col: 9, offset: 88250},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88232},
+																pos:        position{line: 2776, col: 9, offset: 88250},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88281},
+																pos: position{line: 2777, col: 9, offset: 88299},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88361},
+													pos: position{line: 2781, col: 5, offset: 88379},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88372},
+														pos: position{line: 2782, col: 9, offset: 88390},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88390},
+																expr: &charClassMatcher{
+																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	val:        "[._+-\\pL\\pN]",
+																	chars:      []rune{'.', '_', '+', '-'},
+																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88372},
+																pos:        position{line: 2782, col: 23, offset: 88404},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88376},
+																pos:        position{line: 2782, col: 27, offset: 88408},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45292,12 +45352,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 90976},
-										run: (*parser).callonSectionTitleElement28,
+										pos: position{line: 2877, col: 11, offset: 91008},
+										run: (*parser).callonSectionTitleElement30,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 90976},
+											pos: position{line: 2877, col: 11, offset: 91008},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 90976},
+												pos:        position{line: 2877, col: 11, offset: 91008},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45306,21 +45366,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80617},
-										run: (*parser).callonSectionTitleElement31,
+										pos: position{line: 2501, col: 5, offset: 80635},
+										run: (*parser).callonSectionTitleElement33,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80617},
+											pos: position{line: 2501, col: 5, offset: 80635},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80617},
+													pos:        position{line: 2501, col: 5, offset: 80635},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80622},
+													pos: position{line: 2501, col: 10, offset: 80640},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80623},
+														pos:        position{line: 2501, col: 11, offset: 80641},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45331,29 +45391,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80815},
-										run: (*parser).callonSectionTitleElement36,
+										pos: position{line: 2507, col: 5, offset: 80833},
+										run: (*parser).callonSectionTitleElement38,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80815},
+											pos: position{line: 2507, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80815},
-													run: (*parser).callonSectionTitleElement38,
+													pos: position{line: 2507, col: 5, offset: 80833},
+													run: (*parser).callonSectionTitleElement40,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80886},
-													run: (*parser).callonSectionTitleElement39,
+													pos: position{line: 2510, col: 5, offset: 80904},
+													run: (*parser).callonSectionTitleElement41,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81011},
+													pos:        position{line: 2514, col: 5, offset: 81029},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81015},
+													pos: position{line: 2514, col: 9, offset: 81033},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81016},
+														pos:        position{line: 2514, col: 10, offset: 81034},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45364,31 +45424,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75501},
+										pos:  position{line: 2334, col: 11, offset: 75519},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88569},
-										run: (*parser).callonSectionTitleElement44,
+										pos: position{line: 2790, col: 5, offset: 88601},
+										run: (*parser).callonSectionTitleElement46,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88579},
+											pos: position{line: 2791, col: 9, offset: 88611},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88580},
+													pos:        position{line: 2791, col: 10, offset: 88612},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88677},
+													pos: position{line: 2793, col: 13, offset: 88709},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88677},
-															run: (*parser).callonSectionTitleElement48,
+															pos: position{line: 2793, col: 13, offset: 88709},
+															run: (*parser).callonSectionTitleElement50,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88777},
+															pos:        position{line: 2796, col: 13, offset: 88809},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45396,20 +45456,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88783},
+													pos:        position{line: 2796, col: 19, offset: 88815},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88821},
+													pos: position{line: 2799, col: 13, offset: 88853},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88821},
-															run: (*parser).callonSectionTitleElement52,
+															pos: position{line: 2799, col: 13, offset: 88853},
+															run: (*parser).callonSectionTitleElement54,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88914},
+															pos:        position{line: 2802, col: 14, offset: 88946},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45418,18 +45478,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88958},
+													pos: position{line: 2804, col: 12, offset: 88990},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88958},
+															pos:        position{line: 2804, col: 12, offset: 88990},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88962},
+															pos: position{line: 2804, col: 16, offset: 88994},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88963},
+																pos:        position{line: 2804, col: 17, offset: 88995},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45441,35 +45501,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75574},
+										pos:  position{line: 2336, col: 11, offset: 75592},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75590},
+										pos:  position{line: 2337, col: 11, offset: 75608},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75618},
+										pos:  position{line: 2338, col: 11, offset: 75636},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79446},
-										run: (*parser).callonSectionTitleElement61,
+										pos: position{line: 2470, col: 5, offset: 79464},
+										run: (*parser).callonSectionTitleElement63,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79446},
-													run: (*parser).callonSectionTitleElement63,
+													pos: position{line: 2470, col: 5, offset: 79464},
+													run: (*parser).callonSectionTitleElement65,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79522},
+													pos:   position{line: 2473, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79540},
-														run: (*parser).callonSectionTitleElement65,
+														pos: position{line: 2474, col: 9, offset: 79558},
+														run: (*parser).callonSectionTitleElement67,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79541},
+															pos:        position{line: 2474, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45481,18 +45541,18 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2340, col: 11, offset: 75703},
+										pos:  position{line: 2340, col: 11, offset: 75721},
 										name: "InlineIcon",
 									},
 									&actionExpr{
 										pos: position{line: 643, col: 5, offset: 20301},
-										run: (*parser).callonSectionTitleElement68,
+										run: (*parser).callonSectionTitleElement70,
 										expr: &seqExpr{
 											pos: position{line: 643, col: 5, offset: 20301},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 643, col: 5, offset: 20301},
-													run: (*parser).callonSectionTitleElement70,
+													run: (*parser).callonSectionTitleElement72,
 												},
 												&labeledExpr{
 													pos:   position{line: 646, col: 5, offset: 20373},
@@ -45502,7 +45562,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20511},
-																run: (*parser).callonSectionTitleElement73,
+																run: (*parser).callonSectionTitleElement75,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20511},
 																	exprs: []interface{}{
@@ -45517,7 +45577,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement77,
+																				run: (*parser).callonSectionTitleElement79,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -45555,7 +45615,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 659, col: 5, offset: 20779},
-																run: (*parser).callonSectionTitleElement83,
+																run: (*parser).callonSectionTitleElement85,
 																expr: &seqExpr{
 																	pos: position{line: 659, col: 5, offset: 20779},
 																	exprs: []interface{}{
@@ -45570,7 +45630,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement87,
+																				run: (*parser).callonSectionTitleElement89,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -45608,7 +45668,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 665, col: 25, offset: 20983},
-																run: (*parser).callonSectionTitleElement93,
+																run: (*parser).callonSectionTitleElement95,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 25, offset: 20983},
 																	exprs: []interface{}{
@@ -45623,7 +45683,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement97,
+																				run: (*parser).callonSectionTitleElement99,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -45657,7 +45717,7 @@ var g = &grammar{
 																				pos: position{line: 665, col: 62, offset: 21020},
 																				expr: &actionExpr{
 																					pos: position{line: 673, col: 17, offset: 21315},
-																					run: (*parser).callonSectionTitleElement104,
+																					run: (*parser).callonSectionTitleElement106,
 																					expr: &seqExpr{
 																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
@@ -45675,7 +45735,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 673, col: 28, offset: 21326},
-																											run: (*parser).callonSectionTitleElement109,
+																											run: (*parser).callonSectionTitleElement111,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
@@ -45686,7 +45746,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 675, col: 9, offset: 21380},
-																											run: (*parser).callonSectionTitleElement111,
+																											run: (*parser).callonSectionTitleElement113,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
@@ -45717,7 +45777,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 669, col: 25, offset: 21154},
-																run: (*parser).callonSectionTitleElement115,
+																run: (*parser).callonSectionTitleElement117,
 																expr: &seqExpr{
 																	pos: position{line: 669, col: 25, offset: 21154},
 																	exprs: []interface{}{
@@ -45732,7 +45792,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement119,
+																				run: (*parser).callonSectionTitleElement121,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -45766,7 +45826,7 @@ var g = &grammar{
 																				pos: position{line: 669, col: 63, offset: 21192},
 																				expr: &actionExpr{
 																					pos: position{line: 673, col: 17, offset: 21315},
-																					run: (*parser).callonSectionTitleElement126,
+																					run: (*parser).callonSectionTitleElement128,
 																					expr: &seqExpr{
 																						pos: position{line: 673, col: 17, offset: 21315},
 																						exprs: []interface{}{
@@ -45784,7 +45844,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 673, col: 28, offset: 21326},
-																											run: (*parser).callonSectionTitleElement131,
+																											run: (*parser).callonSectionTitleElement133,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 673, col: 28, offset: 21326},
 																												val:        "[A-Za-z]",
@@ -45795,7 +45855,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 675, col: 9, offset: 21380},
-																											run: (*parser).callonSectionTitleElement133,
+																											run: (*parser).callonSectionTitleElement135,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 675, col: 9, offset: 21380},
 																												expr: &charClassMatcher{
@@ -45832,7 +45892,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1213, col: 23, offset: 37389},
-										run: (*parser).callonSectionTitleElement137,
+										run: (*parser).callonSectionTitleElement139,
 										expr: &seqExpr{
 											pos: position{line: 1213, col: 23, offset: 37389},
 											exprs: []interface{}{
@@ -45847,7 +45907,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1213, col: 56, offset: 37422},
-														run: (*parser).callonSectionTitleElement141,
+														run: (*parser).callonSectionTitleElement143,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1213, col: 56, offset: 37422},
 															expr: &charClassMatcher{
@@ -45870,21 +45930,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76156},
-										run: (*parser).callonSectionTitleElement145,
+										pos: position{line: 2353, col: 5, offset: 76174},
+										run: (*parser).callonSectionTitleElement147,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76156},
+											pos: position{line: 2353, col: 5, offset: 76174},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76156},
-													run: (*parser).callonSectionTitleElement147,
+													pos: position{line: 2353, col: 5, offset: 76174},
+													run: (*parser).callonSectionTitleElement149,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76211},
+													pos:   position{line: 2356, col: 5, offset: 76229},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12348},
-														run: (*parser).callonSectionTitleElement149,
+														run: (*parser).callonSectionTitleElement151,
 														expr: &seqExpr{
 															pos: position{line: 405, col: 5, offset: 12348},
 															exprs: []interface{}{
@@ -45899,7 +45959,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 407, col: 9, offset: 12371},
-																		run: (*parser).callonSectionTitleElement153,
+																		run: (*parser).callonSectionTitleElement155,
 																		expr: &labeledExpr{
 																			pos:   position{line: 407, col: 9, offset: 12371},
 																			label: "elements",
@@ -45910,7 +45970,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 408, col: 14, offset: 12395},
-																							run: (*parser).callonSectionTitleElement157,
+																							run: (*parser).callonSectionTitleElement159,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 408, col: 14, offset: 12395},
 																								expr: &charClassMatcher{
@@ -45924,7 +45984,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1213, col: 23, offset: 37389},
-																							run: (*parser).callonSectionTitleElement160,
+																							run: (*parser).callonSectionTitleElement162,
 																							expr: &seqExpr{
 																								pos: position{line: 1213, col: 23, offset: 37389},
 																								exprs: []interface{}{
@@ -45939,7 +45999,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1213, col: 56, offset: 37422},
-																											run: (*parser).callonSectionTitleElement164,
+																											run: (*parser).callonSectionTitleElement166,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1213, col: 56, offset: 37422},
 																												expr: &charClassMatcher{
@@ -45963,13 +46023,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 643, col: 5, offset: 20301},
-																							run: (*parser).callonSectionTitleElement168,
+																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
 																								pos: position{line: 643, col: 5, offset: 20301},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 643, col: 5, offset: 20301},
-																										run: (*parser).callonSectionTitleElement170,
+																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 646, col: 5, offset: 20373},
@@ -45979,7 +46039,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 652, col: 5, offset: 20511},
-																													run: (*parser).callonSectionTitleElement173,
+																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
 																														pos: position{line: 652, col: 5, offset: 20511},
 																														exprs: []interface{}{
@@ -45994,7 +46054,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement177,
+																																	run: (*parser).callonSectionTitleElement179,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -46032,7 +46092,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 659, col: 5, offset: 20779},
-																													run: (*parser).callonSectionTitleElement183,
+																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
 																														pos: position{line: 659, col: 5, offset: 20779},
 																														exprs: []interface{}{
@@ -46047,7 +46107,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement187,
+																																	run: (*parser).callonSectionTitleElement189,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -46085,7 +46145,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 665, col: 25, offset: 20983},
-																													run: (*parser).callonSectionTitleElement193,
+																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
 																														pos: position{line: 665, col: 25, offset: 20983},
 																														exprs: []interface{}{
@@ -46100,7 +46160,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement197,
+																																	run: (*parser).callonSectionTitleElement199,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -46134,7 +46194,7 @@ var g = &grammar{
 																																	pos: position{line: 665, col: 62, offset: 21020},
 																																	expr: &actionExpr{
 																																		pos: position{line: 673, col: 17, offset: 21315},
-																																		run: (*parser).callonSectionTitleElement204,
+																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
 																																			pos: position{line: 673, col: 17, offset: 21315},
 																																			exprs: []interface{}{
@@ -46152,7 +46212,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 673, col: 28, offset: 21326},
-																																								run: (*parser).callonSectionTitleElement209,
+																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 673, col: 28, offset: 21326},
 																																									val:        "[A-Za-z]",
@@ -46163,7 +46223,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 675, col: 9, offset: 21380},
-																																								run: (*parser).callonSectionTitleElement211,
+																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 675, col: 9, offset: 21380},
 																																									expr: &charClassMatcher{
@@ -46194,7 +46254,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 669, col: 25, offset: 21154},
-																													run: (*parser).callonSectionTitleElement215,
+																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
 																														pos: position{line: 669, col: 25, offset: 21154},
 																														exprs: []interface{}{
@@ -46209,7 +46269,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement219,
+																																	run: (*parser).callonSectionTitleElement221,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -46243,7 +46303,7 @@ var g = &grammar{
 																																	pos: position{line: 669, col: 63, offset: 21192},
 																																	expr: &actionExpr{
 																																		pos: position{line: 673, col: 17, offset: 21315},
-																																		run: (*parser).callonSectionTitleElement226,
+																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
 																																			pos: position{line: 673, col: 17, offset: 21315},
 																																			exprs: []interface{}{
@@ -46261,7 +46321,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 673, col: 28, offset: 21326},
-																																								run: (*parser).callonSectionTitleElement231,
+																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 673, col: 28, offset: 21326},
 																																									val:        "[A-Za-z]",
@@ -46272,7 +46332,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 675, col: 9, offset: 21380},
-																																								run: (*parser).callonSectionTitleElement233,
+																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 675, col: 9, offset: 21380},
 																																									expr: &charClassMatcher{
@@ -46309,7 +46369,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 413, col: 16, offset: 12628},
-																							run: (*parser).callonSectionTitleElement237,
+																							run: (*parser).callonSectionTitleElement239,
 																							expr: &litMatcher{
 																								pos:        position{line: 413, col: 16, offset: 12628},
 																								val:        "{",
@@ -46334,12 +46394,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76232},
+													pos: position{line: 2356, col: 26, offset: 76250},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90915},
-														run: (*parser).callonSectionTitleElement241,
+														pos: position{line: 2873, col: 10, offset: 90947},
+														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90915},
+															pos:        position{line: 2873, col: 10, offset: 90947},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46348,30 +46408,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76239},
+													pos: position{line: 2356, col: 33, offset: 76257},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91313},
+														pos: position{line: 2895, col: 8, offset: 91345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91086},
-																run: (*parser).callonSectionTitleElement245,
+																pos: position{line: 2882, col: 12, offset: 91118},
+																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91087},
+																	pos: position{line: 2882, col: 13, offset: 91119},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91087},
+																			pos:        position{line: 2882, col: 13, offset: 91119},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91094},
+																			pos:        position{line: 2882, col: 20, offset: 91126},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91103},
+																			pos:        position{line: 2882, col: 29, offset: 91135},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46380,9 +46440,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91263},
+																pos: position{line: 2892, col: 8, offset: 91295},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91264,
+																	line: 2892, col: 9, offset: 91296,
 																},
 															},
 														},
@@ -46393,7 +46453,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1273, col: 5, offset: 39253},
-										run: (*parser).callonSectionTitleElement252,
+										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
 											pos: position{line: 1273, col: 5, offset: 39253},
 											exprs: []interface{}{
@@ -46407,12 +46467,12 @@ var g = &grammar{
 													pos:   position{line: 1273, col: 14, offset: 39262},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90567},
-														run: (*parser).callonSectionTitleElement256,
+														pos: position{line: 2858, col: 7, offset: 90599},
+														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90567},
+															pos: position{line: 2858, col: 7, offset: 90599},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90567},
+																pos:        position{line: 2858, col: 7, offset: 90599},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46432,7 +46492,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1278, col: 5, offset: 39389},
-										run: (*parser).callonSectionTitleElement260,
+										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
 											pos: position{line: 1278, col: 5, offset: 39389},
 											exprs: []interface{}{
@@ -46446,12 +46506,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 10, offset: 39394},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90567},
-														run: (*parser).callonSectionTitleElement264,
+														pos: position{line: 2858, col: 7, offset: 90599},
+														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90567},
+															pos: position{line: 2858, col: 7, offset: 90599},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90567},
+																pos:        position{line: 2858, col: 7, offset: 90599},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46470,14 +46530,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2345, col: 11, offset: 75957},
+										pos:  position{line: 2345, col: 11, offset: 75975},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89223},
-										run: (*parser).callonSectionTitleElement269,
+										pos: position{line: 2812, col: 12, offset: 89255},
+										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89223},
+											pos:        position{line: 2812, col: 12, offset: 89255},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46493,52 +46553,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76501},
+			pos:  position{line: 2366, col: 1, offset: 76519},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76588},
+				pos: position{line: 2367, col: 5, offset: 76606},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76588},
+					pos: position{line: 2367, col: 5, offset: 76606},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76588},
+							pos:   position{line: 2367, col: 5, offset: 76606},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76597},
+								pos: position{line: 2367, col: 14, offset: 76615},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76623},
+									pos: position{line: 2369, col: 9, offset: 76641},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76623},
+										pos: position{line: 2369, col: 9, offset: 76641},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91249},
+												pos: position{line: 2890, col: 11, offset: 91281},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91251,
+													line: 2890, col: 13, offset: 91283,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76638},
+												pos:   position{line: 2370, col: 9, offset: 76656},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76660},
+													pos: position{line: 2371, col: 13, offset: 76678},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2772, col: 5, offset: 88157},
+															pos: position{line: 2772, col: 5, offset: 88175},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2772, col: 5, offset: 88157},
+																pos: position{line: 2772, col: 5, offset: 88175},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2772, col: 5, offset: 88157},
+																		pos:   position{line: 2772, col: 5, offset: 88175},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2772, col: 11, offset: 88163},
+																			pos: position{line: 2772, col: 11, offset: 88181},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2772, col: 11, offset: 88163},
+																				pos: position{line: 2772, col: 11, offset: 88181},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2772, col: 11, offset: 88163},
+																					pos:        position{line: 2772, col: 11, offset: 88181},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46548,36 +46608,47 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2775, col: 5, offset: 88221},
+																		pos: position{line: 2775, col: 5, offset: 88239},
 																		expr: &seqExpr{
-																			pos: position{line: 2776, col: 9, offset: 88232},
+																			pos: position{line: 2776, col: 9, offset: 88250},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2776, col: 9, offset: 88232},
+																					pos:        position{line: 2776, col: 9, offset: 88250},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2777, col: 9, offset: 88281},
+																					pos: position{line: 2777, col: 9, offset: 88299},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2781, col: 5, offset: 88361},
+																		pos: position{line: 2781, col: 5, offset: 88379},
 																		expr: &seqExpr{
-																			pos: position{line: 2782, col: 9, offset: 88372},
+																			pos: position{line: 2782, col: 9, offset: 88390},
 																			exprs: []interface{}{
+																				&zeroOrMoreExpr{
+																					pos: position{line: 2782, col: 9, offset: 88390},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 2782, col: 9, offset: 88390},
+																						val:        "[._+-\\pL\\pN]",
+																						chars:      []rune{'.', '_', '+', '-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
+																					},
+																				},
 																				&litMatcher{
-																					pos:        position{line: 2782, col: 9, offset: 88372},
+																					pos:        position{line: 2782, col: 23, offset: 88404},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2782, col: 13, offset: 88376},
+																					pos:        position{line: 2782, col: 27, offset: 88408},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46590,12 +46661,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 11, offset: 90976},
-															run: (*parser).callonNormalGroup25,
+															pos: position{line: 2877, col: 11, offset: 91008},
+															run: (*parser).callonNormalGroup27,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2877, col: 11, offset: 90976},
+																pos: position{line: 2877, col: 11, offset: 91008},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 11, offset: 90976},
+																	pos:        position{line: 2877, col: 11, offset: 91008},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46604,25 +46675,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76706},
+															pos:  position{line: 2373, col: 15, offset: 76724},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80617},
-															run: (*parser).callonNormalGroup29,
+															pos: position{line: 2501, col: 5, offset: 80635},
+															run: (*parser).callonNormalGroup31,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80617},
+																pos: position{line: 2501, col: 5, offset: 80635},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 5, offset: 80617},
+																		pos:        position{line: 2501, col: 5, offset: 80635},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2501, col: 10, offset: 80622},
+																		pos: position{line: 2501, col: 10, offset: 80640},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2501, col: 11, offset: 80623},
+																			pos:        position{line: 2501, col: 11, offset: 80641},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46633,29 +46704,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2507, col: 5, offset: 80815},
-															run: (*parser).callonNormalGroup34,
+															pos: position{line: 2507, col: 5, offset: 80833},
+															run: (*parser).callonNormalGroup36,
 															expr: &seqExpr{
-																pos: position{line: 2507, col: 5, offset: 80815},
+																pos: position{line: 2507, col: 5, offset: 80833},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2507, col: 5, offset: 80815},
-																		run: (*parser).callonNormalGroup36,
+																		pos: position{line: 2507, col: 5, offset: 80833},
+																		run: (*parser).callonNormalGroup38,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80886},
-																		run: (*parser).callonNormalGroup37,
+																		pos: position{line: 2510, col: 5, offset: 80904},
+																		run: (*parser).callonNormalGroup39,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81011},
+																		pos:        position{line: 2514, col: 5, offset: 81029},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 9, offset: 81015},
+																		pos: position{line: 2514, col: 9, offset: 81033},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 10, offset: 81016},
+																			pos:        position{line: 2514, col: 10, offset: 81034},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46666,27 +46737,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2790, col: 5, offset: 88569},
-															run: (*parser).callonNormalGroup41,
+															pos: position{line: 2790, col: 5, offset: 88601},
+															run: (*parser).callonNormalGroup43,
 															expr: &choiceExpr{
-																pos: position{line: 2791, col: 9, offset: 88579},
+																pos: position{line: 2791, col: 9, offset: 88611},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2791, col: 10, offset: 88580},
+																		pos:        position{line: 2791, col: 10, offset: 88612},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 13, offset: 88677},
+																		pos: position{line: 2793, col: 13, offset: 88709},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2793, col: 13, offset: 88677},
-																				run: (*parser).callonNormalGroup45,
+																				pos: position{line: 2793, col: 13, offset: 88709},
+																				run: (*parser).callonNormalGroup47,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2796, col: 13, offset: 88777},
+																				pos:        position{line: 2796, col: 13, offset: 88809},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46694,20 +46765,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2796, col: 19, offset: 88783},
+																		pos:        position{line: 2796, col: 19, offset: 88815},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2799, col: 13, offset: 88821},
+																		pos: position{line: 2799, col: 13, offset: 88853},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2799, col: 13, offset: 88821},
-																				run: (*parser).callonNormalGroup49,
+																				pos: position{line: 2799, col: 13, offset: 88853},
+																				run: (*parser).callonNormalGroup51,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88914},
+																				pos:        position{line: 2802, col: 14, offset: 88946},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46716,18 +46787,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2804, col: 12, offset: 88958},
+																		pos: position{line: 2804, col: 12, offset: 88990},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2804, col: 12, offset: 88958},
+																				pos:        position{line: 2804, col: 12, offset: 88990},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2804, col: 16, offset: 88962},
+																				pos: position{line: 2804, col: 16, offset: 88994},
 																				expr: &litMatcher{
-																					pos:        position{line: 2804, col: 17, offset: 88963},
+																					pos:        position{line: 2804, col: 17, offset: 88995},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46739,25 +46810,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91086},
-															run: (*parser).callonNormalGroup55,
+															pos: position{line: 2882, col: 12, offset: 91118},
+															run: (*parser).callonNormalGroup57,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91087},
+																pos: position{line: 2882, col: 13, offset: 91119},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91087},
+																		pos:        position{line: 2882, col: 13, offset: 91119},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91094},
+																		pos:        position{line: 2882, col: 20, offset: 91126},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91103},
+																		pos:        position{line: 2882, col: 29, offset: 91135},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46767,13 +46838,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 643, col: 5, offset: 20301},
-															run: (*parser).callonNormalGroup60,
+															run: (*parser).callonNormalGroup62,
 															expr: &seqExpr{
 																pos: position{line: 643, col: 5, offset: 20301},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 643, col: 5, offset: 20301},
-																		run: (*parser).callonNormalGroup62,
+																		run: (*parser).callonNormalGroup64,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 646, col: 5, offset: 20373},
@@ -46783,7 +46854,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 652, col: 5, offset: 20511},
-																					run: (*parser).callonNormalGroup65,
+																					run: (*parser).callonNormalGroup67,
 																					expr: &seqExpr{
 																						pos: position{line: 652, col: 5, offset: 20511},
 																						exprs: []interface{}{
@@ -46798,7 +46869,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup69,
+																									run: (*parser).callonNormalGroup71,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -46836,7 +46907,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 659, col: 5, offset: 20779},
-																					run: (*parser).callonNormalGroup75,
+																					run: (*parser).callonNormalGroup77,
 																					expr: &seqExpr{
 																						pos: position{line: 659, col: 5, offset: 20779},
 																						exprs: []interface{}{
@@ -46851,7 +46922,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup79,
+																									run: (*parser).callonNormalGroup81,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -46889,7 +46960,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 665, col: 25, offset: 20983},
-																					run: (*parser).callonNormalGroup85,
+																					run: (*parser).callonNormalGroup87,
 																					expr: &seqExpr{
 																						pos: position{line: 665, col: 25, offset: 20983},
 																						exprs: []interface{}{
@@ -46904,7 +46975,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup89,
+																									run: (*parser).callonNormalGroup91,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -46938,7 +47009,7 @@ var g = &grammar{
 																									pos: position{line: 665, col: 62, offset: 21020},
 																									expr: &actionExpr{
 																										pos: position{line: 673, col: 17, offset: 21315},
-																										run: (*parser).callonNormalGroup96,
+																										run: (*parser).callonNormalGroup98,
 																										expr: &seqExpr{
 																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
@@ -46956,7 +47027,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 673, col: 28, offset: 21326},
-																																run: (*parser).callonNormalGroup101,
+																																run: (*parser).callonNormalGroup103,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
@@ -46967,7 +47038,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 675, col: 9, offset: 21380},
-																																run: (*parser).callonNormalGroup103,
+																																run: (*parser).callonNormalGroup105,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
@@ -46998,7 +47069,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 669, col: 25, offset: 21154},
-																					run: (*parser).callonNormalGroup107,
+																					run: (*parser).callonNormalGroup109,
 																					expr: &seqExpr{
 																						pos: position{line: 669, col: 25, offset: 21154},
 																						exprs: []interface{}{
@@ -47013,7 +47084,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup111,
+																									run: (*parser).callonNormalGroup113,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -47047,7 +47118,7 @@ var g = &grammar{
 																									pos: position{line: 669, col: 63, offset: 21192},
 																									expr: &actionExpr{
 																										pos: position{line: 673, col: 17, offset: 21315},
-																										run: (*parser).callonNormalGroup118,
+																										run: (*parser).callonNormalGroup120,
 																										expr: &seqExpr{
 																											pos: position{line: 673, col: 17, offset: 21315},
 																											exprs: []interface{}{
@@ -47065,7 +47136,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 673, col: 28, offset: 21326},
-																																run: (*parser).callonNormalGroup123,
+																																run: (*parser).callonNormalGroup125,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 673, col: 28, offset: 21326},
 																																	val:        "[A-Za-z]",
@@ -47076,7 +47147,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 675, col: 9, offset: 21380},
-																																run: (*parser).callonNormalGroup125,
+																																run: (*parser).callonNormalGroup127,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 675, col: 9, offset: 21380},
 																																	expr: &charClassMatcher{
@@ -47112,35 +47183,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76873},
+															pos:  position{line: 2378, col: 15, offset: 76891},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76893},
+															pos:  position{line: 2379, col: 15, offset: 76911},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76982},
+															pos:  position{line: 2380, col: 15, offset: 77000},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79446},
-															run: (*parser).callonNormalGroup132,
+															pos: position{line: 2470, col: 5, offset: 79464},
+															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79446},
+																pos: position{line: 2470, col: 5, offset: 79464},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79446},
-																		run: (*parser).callonNormalGroup134,
+																		pos: position{line: 2470, col: 5, offset: 79464},
+																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79522},
+																		pos:   position{line: 2473, col: 5, offset: 79540},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79540},
-																			run: (*parser).callonNormalGroup136,
+																			pos: position{line: 2474, col: 9, offset: 79558},
+																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79541},
+																				pos:        position{line: 2474, col: 10, offset: 79559},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47153,13 +47224,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1221, col: 5, offset: 37835},
-															run: (*parser).callonNormalGroup138,
+															run: (*parser).callonNormalGroup140,
 															expr: &seqExpr{
 																pos: position{line: 1221, col: 5, offset: 37835},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1221, col: 5, offset: 37835},
-																		run: (*parser).callonNormalGroup140,
+																		run: (*parser).callonNormalGroup142,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1224, col: 5, offset: 37911},
@@ -47169,15 +47240,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1225, col: 5, offset: 37919},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup144,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1229, col: 5, offset: 38006},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
-																			run: (*parser).callonNormalGroup144,
+																			pos: position{line: 2873, col: 10, offset: 90947},
+																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47188,28 +47259,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1229, col: 12, offset: 38013},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91313},
+																			pos: position{line: 2895, col: 8, offset: 91345},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
-																					run: (*parser).callonNormalGroup148,
+																					pos: position{line: 2882, col: 12, offset: 91118},
+																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47218,9 +47289,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91263},
+																					pos: position{line: 2892, col: 8, offset: 91295},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91264,
+																						line: 2892, col: 9, offset: 91296,
 																					},
 																				},
 																			},
@@ -47230,12 +47301,12 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77164},
+															pos:  position{line: 2383, col: 15, offset: 77182},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
 															pos: position{line: 1213, col: 23, offset: 37389},
-															run: (*parser).callonNormalGroup156,
+															run: (*parser).callonNormalGroup158,
 															expr: &seqExpr{
 																pos: position{line: 1213, col: 23, offset: 37389},
 																exprs: []interface{}{
@@ -47250,7 +47321,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1213, col: 56, offset: 37422},
-																			run: (*parser).callonNormalGroup160,
+																			run: (*parser).callonNormalGroup162,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1213, col: 56, offset: 37422},
 																				expr: &charClassMatcher{
@@ -47273,10 +47344,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2812, col: 12, offset: 89223},
-															run: (*parser).callonNormalGroup164,
+															pos: position{line: 2812, col: 12, offset: 89255},
+															run: (*parser).callonNormalGroup166,
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 12, offset: 89223},
+																pos:        position{line: 2812, col: 12, offset: 89255},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47292,9 +47363,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -47303,28 +47374,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77602},
+			pos:  position{line: 2394, col: 1, offset: 77620},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77635},
+				pos: position{line: 2395, col: 5, offset: 77653},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77635},
+					pos: position{line: 2395, col: 5, offset: 77653},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77635},
+							pos:   position{line: 2395, col: 5, offset: 77653},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77644},
+								pos: position{line: 2395, col: 14, offset: 77662},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77645},
+									pos:  position{line: 2395, col: 15, offset: 77663},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -47333,41 +47404,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77742},
+			pos:  position{line: 2399, col: 1, offset: 77760},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77782},
+				pos: position{line: 2400, col: 5, offset: 77800},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77782},
+					pos: position{line: 2400, col: 5, offset: 77800},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91249},
+							pos: position{line: 2890, col: 11, offset: 91281},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91251,
+								line: 2890, col: 13, offset: 91283,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77793},
+							pos:   position{line: 2401, col: 5, offset: 77811},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77811},
+								pos: position{line: 2402, col: 9, offset: 77829},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88157},
+										pos: position{line: 2772, col: 5, offset: 88175},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88157},
+											pos: position{line: 2772, col: 5, offset: 88175},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88157},
+													pos:   position{line: 2772, col: 5, offset: 88175},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88163},
+														pos: position{line: 2772, col: 11, offset: 88181},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88163},
+															pos: position{line: 2772, col: 11, offset: 88181},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88163},
+																pos:        position{line: 2772, col: 11, offset: 88181},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47377,36 +47448,47 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88221},
+													pos: position{line: 2775, col: 5, offset: 88239},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88232},
+														pos: position{line: 2776, col: 9, offset: 88250},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88232},
+																pos:        position{line: 2776, col: 9, offset: 88250},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88281},
+																pos: position{line: 2777, col: 9, offset: 88299},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88361},
+													pos: position{line: 2781, col: 5, offset: 88379},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88372},
+														pos: position{line: 2782, col: 9, offset: 88390},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88390},
+																expr: &charClassMatcher{
+																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	val:        "[._+-\\pL\\pN]",
+																	chars:      []rune{'.', '_', '+', '-'},
+																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88372},
+																pos:        position{line: 2782, col: 23, offset: 88404},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 13, offset: 88376},
+																pos:        position{line: 2782, col: 27, offset: 88408},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47419,10 +47501,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90915},
-										run: (*parser).callonAttributeStructuredValueElement21,
+										pos: position{line: 2873, col: 10, offset: 90947},
+										run: (*parser).callonAttributeStructuredValueElement23,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90915},
+											pos:        position{line: 2873, col: 10, offset: 90947},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47430,31 +47512,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77849},
+										pos:  position{line: 2404, col: 11, offset: 77867},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88569},
-										run: (*parser).callonAttributeStructuredValueElement24,
+										pos: position{line: 2790, col: 5, offset: 88601},
+										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88579},
+											pos: position{line: 2791, col: 9, offset: 88611},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88580},
+													pos:        position{line: 2791, col: 10, offset: 88612},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88677},
+													pos: position{line: 2793, col: 13, offset: 88709},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88677},
-															run: (*parser).callonAttributeStructuredValueElement28,
+															pos: position{line: 2793, col: 13, offset: 88709},
+															run: (*parser).callonAttributeStructuredValueElement30,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88777},
+															pos:        position{line: 2796, col: 13, offset: 88809},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47462,20 +47544,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88783},
+													pos:        position{line: 2796, col: 19, offset: 88815},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88821},
+													pos: position{line: 2799, col: 13, offset: 88853},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88821},
-															run: (*parser).callonAttributeStructuredValueElement32,
+															pos: position{line: 2799, col: 13, offset: 88853},
+															run: (*parser).callonAttributeStructuredValueElement34,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88914},
+															pos:        position{line: 2802, col: 14, offset: 88946},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47484,18 +47566,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88958},
+													pos: position{line: 2804, col: 12, offset: 88990},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88958},
+															pos:        position{line: 2804, col: 12, offset: 88990},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88962},
+															pos: position{line: 2804, col: 16, offset: 88994},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88963},
+																pos:        position{line: 2804, col: 17, offset: 88995},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47507,31 +47589,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77922},
+										pos:  position{line: 2406, col: 11, offset: 77940},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77938},
+										pos:  position{line: 2407, col: 11, offset: 77956},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79446},
-										run: (*parser).callonAttributeStructuredValueElement40,
+										pos: position{line: 2470, col: 5, offset: 79464},
+										run: (*parser).callonAttributeStructuredValueElement42,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79446},
+											pos: position{line: 2470, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79446},
-													run: (*parser).callonAttributeStructuredValueElement42,
+													pos: position{line: 2470, col: 5, offset: 79464},
+													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79522},
+													pos:   position{line: 2473, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79540},
-														run: (*parser).callonAttributeStructuredValueElement44,
+														pos: position{line: 2474, col: 9, offset: 79558},
+														run: (*parser).callonAttributeStructuredValueElement46,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79541},
+															pos:        position{line: 2474, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47544,7 +47626,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1213, col: 23, offset: 37389},
-										run: (*parser).callonAttributeStructuredValueElement46,
+										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &seqExpr{
 											pos: position{line: 1213, col: 23, offset: 37389},
 											exprs: []interface{}{
@@ -47559,7 +47641,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1213, col: 56, offset: 37422},
-														run: (*parser).callonAttributeStructuredValueElement50,
+														run: (*parser).callonAttributeStructuredValueElement52,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1213, col: 56, offset: 37422},
 															expr: &charClassMatcher{
@@ -47582,25 +47664,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91086},
-										run: (*parser).callonAttributeStructuredValueElement54,
+										pos: position{line: 2882, col: 12, offset: 91118},
+										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91087},
+											pos: position{line: 2882, col: 13, offset: 91119},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91087},
+													pos:        position{line: 2882, col: 13, offset: 91119},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91094},
+													pos:        position{line: 2882, col: 20, offset: 91126},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91103},
+													pos:        position{line: 2882, col: 29, offset: 91135},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47609,10 +47691,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89223},
-										run: (*parser).callonAttributeStructuredValueElement59,
+										pos: position{line: 2812, col: 12, offset: 89255},
+										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89223},
+											pos:        position{line: 2812, col: 12, offset: 89255},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47628,49 +47710,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78208},
+			pos:  position{line: 2418, col: 1, offset: 78226},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78290},
+				pos: position{line: 2420, col: 5, offset: 78308},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78290},
+					pos: position{line: 2420, col: 5, offset: 78308},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78290},
+							pos: position{line: 2420, col: 5, offset: 78308},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78355},
+							pos:   position{line: 2423, col: 5, offset: 78373},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78373},
+								pos: position{line: 2424, col: 9, offset: 78391},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78373},
+										pos:  position{line: 2424, col: 9, offset: 78391},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78394},
+										pos:  position{line: 2425, col: 11, offset: 78412},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78417},
+										pos:  position{line: 2426, col: 11, offset: 78435},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78433},
+										pos:  position{line: 2427, col: 11, offset: 78451},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78462},
+										pos:  position{line: 2428, col: 11, offset: 78480},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78488},
+										pos:  position{line: 2429, col: 11, offset: 78506},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78514},
+										pos:  position{line: 2430, col: 11, offset: 78532},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -47689,12 +47771,12 @@ var g = &grammar{
 													pos:   position{line: 1273, col: 14, offset: 39262},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90567},
+														pos: position{line: 2858, col: 7, offset: 90599},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90567},
+															pos: position{line: 2858, col: 7, offset: 90599},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90567},
+																pos:        position{line: 2858, col: 7, offset: 90599},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47728,12 +47810,12 @@ var g = &grammar{
 													pos:   position{line: 1278, col: 10, offset: 39394},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90567},
+														pos: position{line: 2858, col: 7, offset: 90599},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90567},
+															pos: position{line: 2858, col: 7, offset: 90599},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90567},
+																pos:        position{line: 2858, col: 7, offset: 90599},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47775,17 +47857,17 @@ var g = &grammar{
 																pos: position{line: 1324, col: 31, offset: 41216},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 88010},
+																		pos:        position{line: 2763, col: 13, offset: 88028},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90915},
+																		pos: position{line: 2873, col: 10, offset: 90947},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90915},
+																			pos:        position{line: 2873, col: 10, offset: 90947},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47811,10 +47893,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1318, col: 12, offset: 40930},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47831,10 +47913,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1318, col: 23, offset: 40941},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47854,17 +47936,17 @@ var g = &grammar{
 																					pos: position{line: 1324, col: 31, offset: 41216},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88010},
+																							pos:        position{line: 2763, col: 13, offset: 88028},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47895,10 +47977,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1319, col: 12, offset: 41022},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47915,10 +47997,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1319, col: 23, offset: 41033},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90915},
+																			pos: position{line: 2873, col: 10, offset: 90947},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90915},
+																				pos:        position{line: 2873, col: 10, offset: 90947},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47938,17 +48020,17 @@ var g = &grammar{
 																					pos: position{line: 1324, col: 31, offset: 41216},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88010},
+																							pos:        position{line: 2763, col: 13, offset: 88028},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90915},
+																							pos: position{line: 2873, col: 10, offset: 90947},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90915},
+																								pos:        position{line: 2873, col: 10, offset: 90947},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47975,15 +48057,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78593},
+										pos:  position{line: 2433, col: 11, offset: 78611},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78613},
+										pos:  position{line: 2434, col: 11, offset: 78631},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78636},
+										pos:  position{line: 2435, col: 11, offset: 78654},
 										name: "InlineMenu",
 									},
 								},
@@ -47995,22 +48077,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78693},
+			pos:  position{line: 2439, col: 1, offset: 78711},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78781},
+				pos: position{line: 2441, col: 5, offset: 78799},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78781},
+					pos: position{line: 2441, col: 5, offset: 78799},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78781},
+							pos: position{line: 2441, col: 5, offset: 78799},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78858},
+							pos:   position{line: 2444, col: 5, offset: 78876},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78876},
+								pos: position{line: 2445, col: 9, offset: 78894},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1399, col: 26, offset: 44485},
@@ -48065,10 +48147,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1405, col: 12, offset: 44931},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90915},
+																					pos: position{line: 2873, col: 10, offset: 90947},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90915},
+																						pos:        position{line: 2873, col: 10, offset: 90947},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48079,25 +48161,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1405, col: 19, offset: 44938},
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91086},
+																					pos: position{line: 2882, col: 12, offset: 91118},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91087},
+																						pos: position{line: 2882, col: 13, offset: 91119},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91087},
+																								pos:        position{line: 2882, col: 13, offset: 91119},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91094},
+																								pos:        position{line: 2882, col: 20, offset: 91126},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91103},
+																								pos:        position{line: 2882, col: 29, offset: 91135},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48134,7 +48216,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1399, col: 121, offset: 44580},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88010},
+														pos:        position{line: 2763, col: 13, offset: 88028},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48180,10 +48262,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1391, col: 64, offset: 44040},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48194,25 +48276,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1391, col: 71, offset: 44047},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48235,12 +48317,12 @@ var g = &grammar{
 																							pos: position{line: 1391, col: 86, offset: 44062},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 90976},
+																									pos: position{line: 2877, col: 11, offset: 91008},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 90976},
+																										pos: position{line: 2877, col: 11, offset: 91008},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 90976},
+																											pos:        position{line: 2877, col: 11, offset: 91008},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48269,25 +48351,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1391, col: 151, offset: 44127},
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91086},
+																							pos: position{line: 2882, col: 12, offset: 91118},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91087},
+																								pos: position{line: 2882, col: 13, offset: 91119},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91087},
+																										pos:        position{line: 2882, col: 13, offset: 91119},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91094},
+																										pos:        position{line: 2882, col: 20, offset: 91126},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91103},
+																										pos:        position{line: 2882, col: 29, offset: 91135},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48314,10 +48396,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 12, offset: 44287},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90915},
+																				pos: position{line: 2873, col: 10, offset: 90947},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90915},
+																					pos:        position{line: 2873, col: 10, offset: 90947},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48328,25 +48410,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 19, offset: 44294},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91086},
+																				pos: position{line: 2882, col: 12, offset: 91118},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91087},
+																					pos: position{line: 2882, col: 13, offset: 91119},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91087},
+																							pos:        position{line: 2882, col: 13, offset: 91119},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91094},
+																							pos:        position{line: 2882, col: 20, offset: 91126},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91103},
+																							pos:        position{line: 2882, col: 29, offset: 91135},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48382,7 +48464,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1387, col: 121, offset: 43863},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88010},
+														pos:        position{line: 2763, col: 13, offset: 88028},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48393,7 +48475,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78924},
+										pos:  position{line: 2445, col: 57, offset: 78942},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48405,16 +48487,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 78984},
+			pos:  position{line: 2450, col: 1, offset: 79002},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79060},
+				pos: position{line: 2452, col: 5, offset: 79078},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79060},
+						pos: position{line: 2452, col: 5, offset: 79078},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79125},
+						pos:  position{line: 2455, col: 5, offset: 79143},
 						name: "QuotedText",
 					},
 				},
@@ -48422,22 +48504,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79138},
+			pos:  position{line: 2457, col: 1, offset: 79156},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79220},
+				pos: position{line: 2459, col: 5, offset: 79238},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79220},
+					pos: position{line: 2459, col: 5, offset: 79238},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79220},
+							pos: position{line: 2459, col: 5, offset: 79238},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79291},
+							pos:   position{line: 2462, col: 5, offset: 79309},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79309},
+								pos:  position{line: 2463, col: 9, offset: 79327},
 								name: "Symbol",
 							},
 						},
@@ -48447,103 +48529,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2518, col: 1, offset: 81068},
+			pos:  position{line: 2518, col: 1, offset: 81086},
 			expr: &choiceExpr{
-				pos: position{line: 2520, col: 5, offset: 81098},
+				pos: position{line: 2520, col: 5, offset: 81116},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81098},
+						pos: position{line: 2520, col: 5, offset: 81116},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81098},
+							pos: position{line: 2520, col: 5, offset: 81116},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2520, col: 5, offset: 81098},
+									pos:        position{line: 2520, col: 5, offset: 81116},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2520, col: 10, offset: 81103},
+									pos: position{line: 2520, col: 10, offset: 81121},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2520, col: 10, offset: 81103},
+											pos:  position{line: 2520, col: 10, offset: 81121},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 14, offset: 82207},
+											pos: position{line: 2549, col: 14, offset: 82225},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 14, offset: 82207},
+												pos:        position{line: 2549, col: 14, offset: 82225},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82273},
+											pos: position{line: 2553, col: 14, offset: 82291},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82273},
+												pos:        position{line: 2553, col: 14, offset: 82291},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 15, offset: 82342},
+											pos: position{line: 2557, col: 15, offset: 82360},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 15, offset: 82342},
+												pos:        position{line: 2557, col: 15, offset: 82360},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 13, offset: 82407},
+											pos: position{line: 2561, col: 13, offset: 82425},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 13, offset: 82407},
+												pos:        position{line: 2561, col: 13, offset: 82425},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 21, offset: 82977},
+											pos: position{line: 2589, col: 21, offset: 82995},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 21, offset: 82977},
+												pos:        position{line: 2589, col: 21, offset: 82995},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 5, offset: 82563},
+											pos: position{line: 2568, col: 5, offset: 82581},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2568, col: 5, offset: 82563},
+												pos: position{line: 2568, col: 5, offset: 82581},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2568, col: 5, offset: 82563},
+														pos:        position{line: 2568, col: 5, offset: 82581},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2569, col: 5, offset: 82573},
+														pos: position{line: 2569, col: 5, offset: 82591},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2573, col: 6, offset: 82660},
+														pos: position{line: 2573, col: 6, offset: 82678},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90915},
+																pos: position{line: 2873, col: 10, offset: 90947},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90915},
+																	pos:        position{line: 2873, col: 10, offset: 90947},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48551,30 +48633,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2573, col: 14, offset: 82668},
+																pos: position{line: 2573, col: 14, offset: 82686},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91313},
+																	pos: position{line: 2895, col: 8, offset: 91345},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91086},
+																			pos: position{line: 2882, col: 12, offset: 91118},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91087},
+																				pos: position{line: 2882, col: 13, offset: 91119},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91087},
+																						pos:        position{line: 2882, col: 13, offset: 91119},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91094},
+																						pos:        position{line: 2882, col: 20, offset: 91126},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91103},
+																						pos:        position{line: 2882, col: 29, offset: 91135},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48583,9 +48665,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91263},
+																			pos: position{line: 2892, col: 8, offset: 91295},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91264,
+																				line: 2892, col: 9, offset: 91296,
 																			},
 																		},
 																	},
@@ -48597,53 +48679,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 5, offset: 82788},
+											pos: position{line: 2578, col: 5, offset: 82806},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2578, col: 5, offset: 82788},
+												pos: position{line: 2578, col: 5, offset: 82806},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2578, col: 5, offset: 82788},
+														pos:        position{line: 2578, col: 5, offset: 82806},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2579, col: 5, offset: 82798},
+														pos: position{line: 2579, col: 5, offset: 82816},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2583, col: 5, offset: 82887},
+														pos: position{line: 2583, col: 5, offset: 82905},
 														expr: &choiceExpr{
-															pos: position{line: 2583, col: 7, offset: 82889},
+															pos: position{line: 2583, col: 7, offset: 82907},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 88010},
+																	pos:        position{line: 2763, col: 13, offset: 88028},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91086},
+																	pos: position{line: 2882, col: 12, offset: 91118},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91087},
+																		pos: position{line: 2882, col: 13, offset: 91119},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91087},
+																				pos:        position{line: 2882, col: 13, offset: 91119},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91094},
+																				pos:        position{line: 2882, col: 20, offset: 91126},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91103},
+																				pos:        position{line: 2882, col: 29, offset: 91135},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48652,9 +48734,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -48664,30 +48746,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2593, col: 20, offset: 83047},
+											pos: position{line: 2593, col: 20, offset: 83065},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2593, col: 20, offset: 83047},
+												pos:        position{line: 2593, col: 20, offset: 83065},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 21, offset: 83118},
+											pos: position{line: 2597, col: 21, offset: 83136},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2597, col: 21, offset: 83118},
+												pos:        position{line: 2597, col: 21, offset: 83136},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2601, col: 20, offset: 83188},
+											pos: position{line: 2601, col: 20, offset: 83206},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2601, col: 20, offset: 83188},
+												pos:        position{line: 2601, col: 20, offset: 83206},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48699,73 +48781,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2524, col: 7, offset: 81358},
+						pos:  position{line: 2524, col: 7, offset: 81376},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 14, offset: 82207},
+						pos: position{line: 2549, col: 14, offset: 82225},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 14, offset: 82207},
+							pos:        position{line: 2549, col: 14, offset: 82225},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82273},
+						pos: position{line: 2553, col: 14, offset: 82291},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82273},
+							pos:        position{line: 2553, col: 14, offset: 82291},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 15, offset: 82342},
+						pos: position{line: 2557, col: 15, offset: 82360},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 15, offset: 82342},
+							pos:        position{line: 2557, col: 15, offset: 82360},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 13, offset: 82407},
+						pos: position{line: 2561, col: 13, offset: 82425},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 13, offset: 82407},
+							pos:        position{line: 2561, col: 13, offset: 82425},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82563},
+						pos: position{line: 2568, col: 5, offset: 82581},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82563},
+							pos: position{line: 2568, col: 5, offset: 82581},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82563},
+									pos:        position{line: 2568, col: 5, offset: 82581},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2569, col: 5, offset: 82573},
+									pos: position{line: 2569, col: 5, offset: 82591},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2573, col: 6, offset: 82660},
+									pos: position{line: 2573, col: 6, offset: 82678},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90915},
+											pos: position{line: 2873, col: 10, offset: 90947},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90915},
+												pos:        position{line: 2873, col: 10, offset: 90947},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48773,30 +48855,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2573, col: 14, offset: 82668},
+											pos: position{line: 2573, col: 14, offset: 82686},
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91313},
+												pos: position{line: 2895, col: 8, offset: 91345},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91086},
+														pos: position{line: 2882, col: 12, offset: 91118},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91087},
+															pos: position{line: 2882, col: 13, offset: 91119},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91087},
+																	pos:        position{line: 2882, col: 13, offset: 91119},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91094},
+																	pos:        position{line: 2882, col: 20, offset: 91126},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91103},
+																	pos:        position{line: 2882, col: 29, offset: 91135},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48805,9 +48887,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91263},
+														pos: position{line: 2892, col: 8, offset: 91295},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91264,
+															line: 2892, col: 9, offset: 91296,
 														},
 													},
 												},
@@ -48819,53 +48901,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82788},
+						pos: position{line: 2578, col: 5, offset: 82806},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82788},
+							pos: position{line: 2578, col: 5, offset: 82806},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82788},
+									pos:        position{line: 2578, col: 5, offset: 82806},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2579, col: 5, offset: 82798},
+									pos: position{line: 2579, col: 5, offset: 82816},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2583, col: 5, offset: 82887},
+									pos: position{line: 2583, col: 5, offset: 82905},
 									expr: &choiceExpr{
-										pos: position{line: 2583, col: 7, offset: 82889},
+										pos: position{line: 2583, col: 7, offset: 82907},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88010},
+												pos:        position{line: 2763, col: 13, offset: 88028},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91086},
+												pos: position{line: 2882, col: 12, offset: 91118},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91087},
+													pos: position{line: 2882, col: 13, offset: 91119},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91087},
+															pos:        position{line: 2882, col: 13, offset: 91119},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91094},
+															pos:        position{line: 2882, col: 20, offset: 91126},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91103},
+															pos:        position{line: 2882, col: 29, offset: 91135},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48874,9 +48956,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91263},
+												pos: position{line: 2892, col: 8, offset: 91295},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91264,
+													line: 2892, col: 9, offset: 91296,
 												},
 											},
 										},
@@ -48886,40 +48968,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 21, offset: 82977},
+						pos: position{line: 2589, col: 21, offset: 82995},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 21, offset: 82977},
+							pos:        position{line: 2589, col: 21, offset: 82995},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 20, offset: 83047},
+						pos: position{line: 2593, col: 20, offset: 83065},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 20, offset: 83047},
+							pos:        position{line: 2593, col: 20, offset: 83065},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 21, offset: 83118},
+						pos: position{line: 2597, col: 21, offset: 83136},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 21, offset: 83118},
+							pos:        position{line: 2597, col: 21, offset: 83136},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 20, offset: 83188},
+						pos: position{line: 2601, col: 20, offset: 83206},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 20, offset: 83188},
+							pos:        position{line: 2601, col: 20, offset: 83206},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48930,43 +49012,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2535, col: 1, offset: 81548},
+			pos:  position{line: 2535, col: 1, offset: 81566},
 			expr: &choiceExpr{
-				pos: position{line: 2536, col: 5, offset: 81570},
+				pos: position{line: 2536, col: 5, offset: 81588},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2536, col: 5, offset: 81570},
+						pos: position{line: 2536, col: 5, offset: 81588},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 5, offset: 81570},
+							pos: position{line: 2536, col: 5, offset: 81588},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 5, offset: 81570},
+									pos:        position{line: 2536, col: 5, offset: 81588},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 11, offset: 81576},
+									pos: position{line: 2536, col: 11, offset: 81594},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 67780},
+										pos: position{line: 2099, col: 5, offset: 67798},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 67780},
+												pos:        position{line: 2099, col: 5, offset: 67798},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 67789},
+												pos: position{line: 2100, col: 5, offset: 67807},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 67912},
+												pos: position{line: 2104, col: 5, offset: 67930},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 67914},
+													pos: position{line: 2104, col: 7, offset: 67932},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 67915},
+														pos:        position{line: 2104, col: 8, offset: 67933},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48980,21 +49062,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81729},
+						pos: position{line: 2539, col: 7, offset: 81747},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81729},
+							pos: position{line: 2539, col: 7, offset: 81747},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81729},
+									pos:        position{line: 2539, col: 7, offset: 81747},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 13, offset: 81735},
+									pos: position{line: 2539, col: 13, offset: 81753},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2539, col: 14, offset: 81736},
+										pos:  position{line: 2539, col: 14, offset: 81754},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49002,38 +49084,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81886},
+						pos: position{line: 2542, col: 7, offset: 81904},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81886},
+							pos: position{line: 2542, col: 7, offset: 81904},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81886},
+									pos:        position{line: 2542, col: 7, offset: 81904},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 12, offset: 81891},
+									pos: position{line: 2542, col: 12, offset: 81909},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 67780},
+										pos: position{line: 2099, col: 5, offset: 67798},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 67780},
+												pos:        position{line: 2099, col: 5, offset: 67798},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 67789},
+												pos: position{line: 2100, col: 5, offset: 67807},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 67912},
+												pos: position{line: 2104, col: 5, offset: 67930},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 67914},
+													pos: position{line: 2104, col: 7, offset: 67932},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 67915},
+														pos:        position{line: 2104, col: 8, offset: 67933},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49047,21 +49129,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 82044},
+						pos: position{line: 2545, col: 7, offset: 82062},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 82044},
+							pos: position{line: 2545, col: 7, offset: 82062},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 82044},
+									pos:        position{line: 2545, col: 7, offset: 82062},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 82049},
+									pos: position{line: 2545, col: 12, offset: 82067},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2545, col: 13, offset: 82050},
+										pos:  position{line: 2545, col: 13, offset: 82068},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49073,63 +49155,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2678, col: 1, offset: 85090},
+			pos:  position{line: 2678, col: 1, offset: 85108},
 			expr: &actionExpr{
-				pos: position{line: 2678, col: 26, offset: 85115},
+				pos: position{line: 2678, col: 26, offset: 85133},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2678, col: 26, offset: 85115},
+					pos: position{line: 2678, col: 26, offset: 85133},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2678, col: 26, offset: 85115},
+							pos:   position{line: 2678, col: 26, offset: 85133},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2678, col: 31, offset: 85120},
+								pos: position{line: 2678, col: 31, offset: 85138},
 								expr: &actionExpr{
-									pos: position{line: 2683, col: 5, offset: 85183},
+									pos: position{line: 2683, col: 5, offset: 85201},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2683, col: 5, offset: 85183},
+										pos: position{line: 2683, col: 5, offset: 85201},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91249},
+												pos: position{line: 2890, col: 11, offset: 91281},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91251,
+													line: 2890, col: 13, offset: 91283,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85309},
+												pos:   position{line: 2686, col: 5, offset: 85327},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 16, offset: 85320},
+													pos: position{line: 2686, col: 16, offset: 85338},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 17, offset: 85321},
+														pos: position{line: 2686, col: 17, offset: 85339},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2686, col: 17, offset: 85321},
+															pos: position{line: 2686, col: 17, offset: 85339},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2686, col: 17, offset: 85321},
+																	pos:   position{line: 2686, col: 17, offset: 85339},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90742},
+																		pos: position{line: 2865, col: 12, offset: 90774},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90743},
+																			pos: position{line: 2865, col: 13, offset: 90775},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90743},
+																					pos: position{line: 2865, col: 13, offset: 90775},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90743},
+																						pos:        position{line: 2865, col: 13, offset: 90775},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90748},
+																					pos: position{line: 2865, col: 18, offset: 90780},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90748},
+																						pos:        position{line: 2865, col: 18, offset: 90780},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49141,7 +49223,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2686, col: 27, offset: 85331},
+																	pos:        position{line: 2686, col: 27, offset: 85349},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49152,38 +49234,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85359},
+												pos:   position{line: 2687, col: 5, offset: 85377},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85366},
+													pos: position{line: 2687, col: 12, offset: 85384},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 9, offset: 85376},
+														pos: position{line: 2688, col: 9, offset: 85394},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2688, col: 9, offset: 85376},
+																pos: position{line: 2688, col: 9, offset: 85394},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 9, offset: 85376},
+																	pos:        position{line: 2688, col: 9, offset: 85394},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85423},
+																pos: position{line: 2689, col: 11, offset: 85441},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85423},
+																	pos:        position{line: 2689, col: 11, offset: 85441},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85471},
+																pos: position{line: 2690, col: 11, offset: 85489},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85471},
+																	pos:        position{line: 2690, col: 11, offset: 85489},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49194,38 +49276,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85521},
+												pos:   position{line: 2692, col: 5, offset: 85539},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85528},
+													pos: position{line: 2692, col: 12, offset: 85546},
 													expr: &choiceExpr{
-														pos: position{line: 2693, col: 9, offset: 85538},
+														pos: position{line: 2693, col: 9, offset: 85556},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2693, col: 9, offset: 85538},
+																pos: position{line: 2693, col: 9, offset: 85556},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 9, offset: 85538},
+																	pos:        position{line: 2693, col: 9, offset: 85556},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85585},
+																pos: position{line: 2694, col: 11, offset: 85603},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85585},
+																	pos:        position{line: 2694, col: 11, offset: 85603},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85635},
+																pos: position{line: 2695, col: 11, offset: 85653},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85635},
+																	pos:        position{line: 2695, col: 11, offset: 85653},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49236,32 +49318,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85686},
+												pos:   position{line: 2697, col: 5, offset: 85704},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85693},
+													pos: position{line: 2697, col: 12, offset: 85711},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 13, offset: 85694},
+														pos: position{line: 2697, col: 13, offset: 85712},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90742},
+																pos: position{line: 2865, col: 12, offset: 90774},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90743},
+																	pos: position{line: 2865, col: 13, offset: 90775},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90743},
+																			pos: position{line: 2865, col: 13, offset: 90775},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90743},
+																				pos:        position{line: 2865, col: 13, offset: 90775},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90748},
+																			pos: position{line: 2865, col: 18, offset: 90780},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90748},
+																				pos:        position{line: 2865, col: 18, offset: 90780},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49272,10 +49354,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 24, offset: 85705},
+																pos: position{line: 2697, col: 24, offset: 85723},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 24, offset: 85705},
+																	pos:        position{line: 2697, col: 24, offset: 85723},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49286,15 +49368,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2698, col: 5, offset: 85747},
+												pos:   position{line: 2698, col: 5, offset: 85765},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2698, col: 11, offset: 85753},
+													pos: position{line: 2698, col: 11, offset: 85771},
 													expr: &actionExpr{
-														pos: position{line: 2698, col: 12, offset: 85754},
+														pos: position{line: 2698, col: 12, offset: 85772},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2698, col: 12, offset: 85754},
+															pos:        position{line: 2698, col: 12, offset: 85772},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49304,12 +49386,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85884},
+												pos:   position{line: 2700, col: 5, offset: 85902},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85890},
+													pos: position{line: 2700, col: 11, offset: 85908},
 													expr: &litMatcher{
-														pos:        position{line: 2700, col: 12, offset: 85891},
+														pos:        position{line: 2700, col: 12, offset: 85909},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49317,7 +49399,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2701, col: 5, offset: 85901},
+												pos: position{line: 2701, col: 5, offset: 85919},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49326,9 +49408,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91263},
+							pos: position{line: 2892, col: 8, offset: 91295},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91264,
+								line: 2892, col: 9, offset: 91296,
 							},
 						},
 					},
@@ -49337,23 +49419,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2728, col: 1, offset: 86910},
+			pos:  position{line: 2728, col: 1, offset: 86928},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 86933},
+				pos: position{line: 2729, col: 5, offset: 86951},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 86933},
+					pos: position{line: 2729, col: 5, offset: 86951},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86933},
+							pos:   position{line: 2729, col: 5, offset: 86951},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87674},
+								pos: position{line: 2752, col: 18, offset: 87692},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87675},
+									pos: position{line: 2752, col: 19, offset: 87693},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87675},
+										pos:        position{line: 2752, col: 19, offset: 87693},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49364,25 +49446,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 86959},
+							pos: position{line: 2730, col: 5, offset: 86977},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 87087},
+							pos:        position{line: 2734, col: 5, offset: 87105},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87097},
+							pos:   position{line: 2735, col: 5, offset: 87115},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87750},
+								pos: position{line: 2756, col: 19, offset: 87768},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87750},
+									pos: position{line: 2756, col: 19, offset: 87768},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87750},
+										pos:        position{line: 2756, col: 19, offset: 87768},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49392,36 +49474,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87125},
+							pos:   position{line: 2736, col: 5, offset: 87143},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87137},
+								pos:  position{line: 2736, col: 17, offset: 87155},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91313},
+							pos: position{line: 2895, col: 8, offset: 91345},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91086},
+									pos: position{line: 2882, col: 12, offset: 91118},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91087},
+										pos: position{line: 2882, col: 13, offset: 91119},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91087},
+												pos:        position{line: 2882, col: 13, offset: 91119},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91094},
+												pos:        position{line: 2882, col: 20, offset: 91126},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91103},
+												pos:        position{line: 2882, col: 29, offset: 91135},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49430,9 +49512,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91263},
+									pos: position{line: 2892, col: 8, offset: 91295},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91264,
+										line: 2892, col: 9, offset: 91296,
 									},
 								},
 							},
@@ -49443,23 +49525,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2740, col: 1, offset: 87285},
+			pos:  position{line: 2740, col: 1, offset: 87303},
 			expr: &actionExpr{
-				pos: position{line: 2741, col: 5, offset: 87309},
+				pos: position{line: 2741, col: 5, offset: 87327},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2741, col: 5, offset: 87309},
+					pos: position{line: 2741, col: 5, offset: 87327},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87309},
+							pos:   position{line: 2741, col: 5, offset: 87327},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87674},
+								pos: position{line: 2752, col: 18, offset: 87692},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87675},
+									pos: position{line: 2752, col: 19, offset: 87693},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87675},
+										pos:        position{line: 2752, col: 19, offset: 87693},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49470,25 +49552,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2742, col: 5, offset: 87335},
+							pos: position{line: 2742, col: 5, offset: 87353},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2746, col: 5, offset: 87463},
+							pos:        position{line: 2746, col: 5, offset: 87481},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87472},
+							pos:   position{line: 2747, col: 5, offset: 87490},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87750},
+								pos: position{line: 2756, col: 19, offset: 87768},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87750},
+									pos: position{line: 2756, col: 19, offset: 87768},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87750},
+										pos:        position{line: 2756, col: 19, offset: 87768},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49498,10 +49580,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87500},
+							pos:   position{line: 2748, col: 5, offset: 87518},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2748, col: 17, offset: 87512},
+								pos:  position{line: 2748, col: 17, offset: 87530},
 								name: "InlineAttributes",
 							},
 						},
@@ -49511,43 +49593,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2827, col: 1, offset: 89562},
+			pos:  position{line: 2827, col: 1, offset: 89594},
 			expr: &actionExpr{
-				pos: position{line: 2827, col: 17, offset: 89578},
+				pos: position{line: 2827, col: 17, offset: 89610},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2827, col: 17, offset: 89578},
+					pos:   position{line: 2827, col: 17, offset: 89610},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2844, col: 5, offset: 90032},
+						pos: position{line: 2844, col: 5, offset: 90064},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2844, col: 5, offset: 90032},
+							pos:   position{line: 2844, col: 5, offset: 90064},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2844, col: 14, offset: 90041},
+								pos: position{line: 2844, col: 14, offset: 90073},
 								expr: &choiceExpr{
-									pos: position{line: 2845, col: 9, offset: 90051},
+									pos: position{line: 2845, col: 9, offset: 90083},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2845, col: 9, offset: 90051},
+											pos: position{line: 2845, col: 9, offset: 90083},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2845, col: 9, offset: 90051},
+												pos: position{line: 2845, col: 9, offset: 90083},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2845, col: 9, offset: 90051},
+														pos: position{line: 2845, col: 9, offset: 90083},
 														expr: &litMatcher{
-															pos:        position{line: 2845, col: 10, offset: 90052},
+															pos:        position{line: 2845, col: 10, offset: 90084},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2846, col: 9, offset: 90080},
+														pos: position{line: 2846, col: 9, offset: 90112},
 														expr: &charClassMatcher{
-															pos:        position{line: 2846, col: 10, offset: 90081},
+															pos:        position{line: 2846, col: 10, offset: 90113},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49558,27 +49640,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2849, col: 11, offset: 90293},
+											pos: position{line: 2849, col: 11, offset: 90325},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 11, offset: 90293},
+													pos:        position{line: 2849, col: 11, offset: 90325},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2849, col: 19, offset: 90301},
+													pos: position{line: 2849, col: 19, offset: 90333},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 21, offset: 90303},
+														pos: position{line: 2849, col: 21, offset: 90335},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2849, col: 21, offset: 90303},
+																pos: position{line: 2849, col: 21, offset: 90335},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90915},
+																	pos: position{line: 2873, col: 10, offset: 90947},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90915},
+																		pos:        position{line: 2873, col: 10, offset: 90947},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49587,11 +49669,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2849, col: 28, offset: 90310},
+																pos: position{line: 2849, col: 28, offset: 90342},
 																expr: &notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91263},
+																	pos: position{line: 2892, col: 8, offset: 91295},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91264,
+																		line: 2892, col: 9, offset: 91296,
 																	},
 																},
 															},
@@ -49986,10 +50068,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 11, offset: 90430},
+											pos: position{line: 2852, col: 11, offset: 90462},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2852, col: 11, offset: 90430},
+												pos:        position{line: 2852, col: 11, offset: 90462},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60850,183 +60932,183 @@ func (p *parser) callonFootnoteElement7() (interface{}, error) {
 	return p.cur.onFootnoteElement7(stack["text"])
 }
 
-func (c *current) onFootnoteElement21() (interface{}, error) {
+func (c *current) onFootnoteElement23() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement21() (interface{}, error) {
+func (p *parser) callonFootnoteElement23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement21()
+	return p.cur.onFootnoteElement23()
 }
 
-func (c *current) onFootnoteElement24() (interface{}, error) {
+func (c *current) onFootnoteElement26() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonFootnoteElement24() (interface{}, error) {
+func (p *parser) callonFootnoteElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement24()
+	return p.cur.onFootnoteElement26()
 }
 
-func (c *current) onFootnoteElement31() (bool, error) {
+func (c *current) onFootnoteElement33() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement31() (bool, error) {
+func (p *parser) callonFootnoteElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement33()
 }
 
-func (c *current) onFootnoteElement32() (bool, error) {
+func (c *current) onFootnoteElement34() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement32() (bool, error) {
+func (p *parser) callonFootnoteElement34() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement32()
+	return p.cur.onFootnoteElement34()
 }
 
-func (c *current) onFootnoteElement29() (interface{}, error) {
+func (c *current) onFootnoteElement31() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement29() (interface{}, error) {
+func (p *parser) callonFootnoteElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement29()
+	return p.cur.onFootnoteElement31()
 }
 
-func (c *current) onFootnoteElement42() (bool, error) {
+func (c *current) onFootnoteElement44() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement42() (bool, error) {
+func (p *parser) callonFootnoteElement44() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement42()
+	return p.cur.onFootnoteElement44()
 }
 
-func (c *current) onFootnoteElement46() (bool, error) {
+func (c *current) onFootnoteElement48() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement46() (bool, error) {
+func (p *parser) callonFootnoteElement48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement46()
+	return p.cur.onFootnoteElement48()
 }
 
-func (c *current) onFootnoteElement38() (interface{}, error) {
+func (c *current) onFootnoteElement40() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement38() (interface{}, error) {
+func (p *parser) callonFootnoteElement40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement38()
+	return p.cur.onFootnoteElement40()
 }
 
-func (c *current) onFootnoteElement55() (bool, error) {
+func (c *current) onFootnoteElement57() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement55() (bool, error) {
+func (p *parser) callonFootnoteElement57() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement55()
+	return p.cur.onFootnoteElement57()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement59() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement59() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement59()
 }
 
-func (c *current) onFootnoteElement59() (interface{}, error) {
+func (c *current) onFootnoteElement61() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement59() (interface{}, error) {
+func (p *parser) callonFootnoteElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement61()
 }
 
-func (c *current) onFootnoteElement63() (interface{}, error) {
+func (c *current) onFootnoteElement65() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement63() (interface{}, error) {
+func (p *parser) callonFootnoteElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement63()
+	return p.cur.onFootnoteElement65()
 }
 
-func (c *current) onFootnoteElement53() (interface{}, error) {
+func (c *current) onFootnoteElement55() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement53() (interface{}, error) {
+func (p *parser) callonFootnoteElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement53()
+	return p.cur.onFootnoteElement55()
 }
 
-func (c *current) onFootnoteElement72() (bool, error) {
+func (c *current) onFootnoteElement74() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement72() (bool, error) {
+func (p *parser) callonFootnoteElement74() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement72()
+	return p.cur.onFootnoteElement74()
 }
 
-func (c *current) onFootnoteElement79() (interface{}, error) {
+func (c *current) onFootnoteElement81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement79() (interface{}, error) {
+func (p *parser) callonFootnoteElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement79()
+	return p.cur.onFootnoteElement81()
 }
 
-func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement77(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -61034,201 +61116,201 @@ func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement75() (interface{}, error) {
+func (p *parser) callonFootnoteElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement75(stack["name"])
+	return p.cur.onFootnoteElement77(stack["name"])
 }
 
-func (c *current) onFootnoteElement89() (interface{}, error) {
+func (c *current) onFootnoteElement91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement89() (interface{}, error) {
+func (p *parser) callonFootnoteElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement89()
+	return p.cur.onFootnoteElement91()
 }
 
-func (c *current) onFootnoteElement85(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement87(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement85() (interface{}, error) {
+func (p *parser) callonFootnoteElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement85(stack["name"])
+	return p.cur.onFootnoteElement87(stack["name"])
 }
 
-func (c *current) onFootnoteElement99() (interface{}, error) {
+func (c *current) onFootnoteElement101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement99() (interface{}, error) {
+func (p *parser) callonFootnoteElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement99()
+	return p.cur.onFootnoteElement101()
 }
 
-func (c *current) onFootnoteElement111() (interface{}, error) {
+func (c *current) onFootnoteElement113() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement111() (interface{}, error) {
+func (p *parser) callonFootnoteElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement111()
+	return p.cur.onFootnoteElement113()
 }
 
-func (c *current) onFootnoteElement113() (interface{}, error) {
+func (c *current) onFootnoteElement115() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement113() (interface{}, error) {
+func (p *parser) callonFootnoteElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement113()
+	return p.cur.onFootnoteElement115()
 }
 
-func (c *current) onFootnoteElement106(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement108(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement106() (interface{}, error) {
+func (p *parser) callonFootnoteElement108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement106(stack["start"])
+	return p.cur.onFootnoteElement108(stack["start"])
 }
 
-func (c *current) onFootnoteElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement97(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement95() (interface{}, error) {
+func (p *parser) callonFootnoteElement97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement95(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement97(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement121() (interface{}, error) {
+func (c *current) onFootnoteElement123() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement121() (interface{}, error) {
+func (p *parser) callonFootnoteElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement121()
+	return p.cur.onFootnoteElement123()
 }
 
-func (c *current) onFootnoteElement133() (interface{}, error) {
+func (c *current) onFootnoteElement135() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement133() (interface{}, error) {
+func (p *parser) callonFootnoteElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement133()
+	return p.cur.onFootnoteElement135()
 }
 
-func (c *current) onFootnoteElement135() (interface{}, error) {
+func (c *current) onFootnoteElement137() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement135() (interface{}, error) {
+func (p *parser) callonFootnoteElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement135()
+	return p.cur.onFootnoteElement137()
 }
 
-func (c *current) onFootnoteElement128(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement130(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement128() (interface{}, error) {
+func (p *parser) callonFootnoteElement130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement128(stack["start"])
+	return p.cur.onFootnoteElement130(stack["start"])
 }
 
-func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement119(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement119(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement70(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement72(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement70() (interface{}, error) {
+func (p *parser) callonFootnoteElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement70(stack["element"])
+	return p.cur.onFootnoteElement72(stack["element"])
 }
 
-func (c *current) onFootnoteElement141() (bool, error) {
+func (c *current) onFootnoteElement143() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement141() (bool, error) {
+func (p *parser) callonFootnoteElement143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141()
+	return p.cur.onFootnoteElement143()
 }
 
-func (c *current) onFootnoteElement143() (interface{}, error) {
+func (c *current) onFootnoteElement145() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement143() (interface{}, error) {
+func (p *parser) callonFootnoteElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement143()
+	return p.cur.onFootnoteElement145()
 }
 
-func (c *current) onFootnoteElement139(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement141(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139(stack["element"])
+	return p.cur.onFootnoteElement141(stack["element"])
 }
 
-func (c *current) onFootnoteElement145() (interface{}, error) {
+func (c *current) onFootnoteElement147() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145()
+	return p.cur.onFootnoteElement147()
 }
 
-func (c *current) onFootnoteElement150() (interface{}, error) {
+func (c *current) onFootnoteElement152() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -61237,10 +61319,10 @@ func (c *current) onFootnoteElement150() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement150() (interface{}, error) {
+func (p *parser) callonFootnoteElement152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement150()
+	return p.cur.onFootnoteElement152()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -61626,16 +61708,16 @@ func (p *parser) callonLink136() (interface{}, error) {
 	return p.cur.onLink136()
 }
 
-func (c *current) onLink145(domain interface{}) (bool, error) {
+func (c *current) onLink151(domain interface{}) (bool, error) {
 	// must not end with `-`
 	return !strings.HasSuffix(domain.(string), "-"), nil
 
 }
 
-func (p *parser) callonLink145() (bool, error) {
+func (p *parser) callonLink151() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink145(stack["domain"])
+	return p.cur.onLink151(stack["domain"])
 }
 
 func (c *current) onLink133(domain interface{}) (interface{}, error) {
@@ -72431,124 +72513,124 @@ func (p *parser) callonQuotedTextElement2() (interface{}, error) {
 	return p.cur.onQuotedTextElement2(stack["text"])
 }
 
-func (c *current) onQuotedTextElement16() (interface{}, error) {
+func (c *current) onQuotedTextElement18() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement16() (interface{}, error) {
+func (p *parser) callonQuotedTextElement18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement16()
+	return p.cur.onQuotedTextElement18()
 }
 
-func (c *current) onQuotedTextElement20() (interface{}, error) {
+func (c *current) onQuotedTextElement22() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonQuotedTextElement20() (interface{}, error) {
+func (p *parser) callonQuotedTextElement22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement20()
+	return p.cur.onQuotedTextElement22()
 }
 
-func (c *current) onQuotedTextElement27() (bool, error) {
+func (c *current) onQuotedTextElement29() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement27() (bool, error) {
+func (p *parser) callonQuotedTextElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
+func (c *current) onQuotedTextElement30() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonQuotedTextElement30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onQuotedTextElement30()
 }
 
-func (c *current) onQuotedTextElement25() (interface{}, error) {
+func (c *current) onQuotedTextElement27() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement25() (interface{}, error) {
+func (p *parser) callonQuotedTextElement27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement25()
+	return p.cur.onQuotedTextElement27()
 }
 
-func (c *current) onQuotedTextElement36() (bool, error) {
+func (c *current) onQuotedTextElement38() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement36() (bool, error) {
+func (p *parser) callonQuotedTextElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement36()
+	return p.cur.onQuotedTextElement38()
 }
 
-func (c *current) onQuotedTextElement40() (bool, error) {
+func (c *current) onQuotedTextElement42() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement40() (bool, error) {
+func (p *parser) callonQuotedTextElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement40()
+	return p.cur.onQuotedTextElement42()
 }
 
-func (c *current) onQuotedTextElement32() (interface{}, error) {
+func (c *current) onQuotedTextElement34() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement32() (interface{}, error) {
+func (p *parser) callonQuotedTextElement34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement32()
+	return p.cur.onQuotedTextElement34()
 }
 
-func (c *current) onQuotedTextElement48() (bool, error) {
+func (c *current) onQuotedTextElement50() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement48() (bool, error) {
+func (p *parser) callonQuotedTextElement50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement48()
+	return p.cur.onQuotedTextElement50()
 }
 
-func (c *current) onQuotedTextElement55() (interface{}, error) {
+func (c *current) onQuotedTextElement57() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement55() (interface{}, error) {
+func (p *parser) callonQuotedTextElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement55()
+	return p.cur.onQuotedTextElement57()
 }
 
-func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement53(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72556,242 +72638,242 @@ func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement51() (interface{}, error) {
+func (p *parser) callonQuotedTextElement53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement51(stack["name"])
+	return p.cur.onQuotedTextElement53(stack["name"])
 }
 
-func (c *current) onQuotedTextElement65() (interface{}, error) {
+func (c *current) onQuotedTextElement67() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement65() (interface{}, error) {
+func (p *parser) callonQuotedTextElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement65()
+	return p.cur.onQuotedTextElement67()
 }
 
-func (c *current) onQuotedTextElement61(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement63(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement61(stack["name"])
+	return p.cur.onQuotedTextElement63(stack["name"])
 }
 
-func (c *current) onQuotedTextElement75() (interface{}, error) {
+func (c *current) onQuotedTextElement77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement75() (interface{}, error) {
+func (p *parser) callonQuotedTextElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement75()
+	return p.cur.onQuotedTextElement77()
 }
 
-func (c *current) onQuotedTextElement87() (interface{}, error) {
+func (c *current) onQuotedTextElement89() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement87() (interface{}, error) {
+func (p *parser) callonQuotedTextElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement87()
+	return p.cur.onQuotedTextElement89()
 }
 
-func (c *current) onQuotedTextElement89() (interface{}, error) {
+func (c *current) onQuotedTextElement91() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement89() (interface{}, error) {
+func (p *parser) callonQuotedTextElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement89()
+	return p.cur.onQuotedTextElement91()
 }
 
-func (c *current) onQuotedTextElement82(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement84(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement82() (interface{}, error) {
+func (p *parser) callonQuotedTextElement84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement82(stack["start"])
+	return p.cur.onQuotedTextElement84(stack["start"])
 }
 
-func (c *current) onQuotedTextElement71(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement73(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement71() (interface{}, error) {
+func (p *parser) callonQuotedTextElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement71(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement73(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement97() (interface{}, error) {
+func (c *current) onQuotedTextElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement97() (interface{}, error) {
+func (p *parser) callonQuotedTextElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement97()
+	return p.cur.onQuotedTextElement99()
 }
 
-func (c *current) onQuotedTextElement109() (interface{}, error) {
+func (c *current) onQuotedTextElement111() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement109() (interface{}, error) {
+func (p *parser) callonQuotedTextElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement109()
+	return p.cur.onQuotedTextElement111()
 }
 
-func (c *current) onQuotedTextElement111() (interface{}, error) {
+func (c *current) onQuotedTextElement113() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement111() (interface{}, error) {
+func (p *parser) callonQuotedTextElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement111()
+	return p.cur.onQuotedTextElement113()
 }
 
-func (c *current) onQuotedTextElement104(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement106(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement104() (interface{}, error) {
+func (p *parser) callonQuotedTextElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement104(stack["start"])
+	return p.cur.onQuotedTextElement106(stack["start"])
 }
 
-func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement95(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement95(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement46(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement48(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement46() (interface{}, error) {
+func (p *parser) callonQuotedTextElement48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement46(stack["element"])
+	return p.cur.onQuotedTextElement48(stack["element"])
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement119() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement119()
 }
 
-func (c *current) onQuotedTextElement123() (interface{}, error) {
+func (c *current) onQuotedTextElement125() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement123() (interface{}, error) {
+func (p *parser) callonQuotedTextElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement123()
+	return p.cur.onQuotedTextElement125()
 }
 
-func (c *current) onQuotedTextElement115() (interface{}, error) {
+func (c *current) onQuotedTextElement117() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115()
+	return p.cur.onQuotedTextElement117()
 }
 
-func (c *current) onQuotedTextElement132() (bool, error) {
+func (c *current) onQuotedTextElement134() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement132() (bool, error) {
+func (p *parser) callonQuotedTextElement134() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement132()
+	return p.cur.onQuotedTextElement134()
 }
 
-func (c *current) onQuotedTextElement134() (interface{}, error) {
+func (c *current) onQuotedTextElement136() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement134() (interface{}, error) {
+func (p *parser) callonQuotedTextElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement136()
 }
 
-func (c *current) onQuotedTextElement130(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement132(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement130() (interface{}, error) {
+func (p *parser) callonQuotedTextElement132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement130(stack["element"])
+	return p.cur.onQuotedTextElement132(stack["element"])
 }
 
-func (c *current) onQuotedTextElement140() (interface{}, error) {
+func (c *current) onQuotedTextElement142() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement140() (interface{}, error) {
+func (p *parser) callonQuotedTextElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement140()
+	return p.cur.onQuotedTextElement142()
 }
 
-func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement138(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136(stack["ref"])
+	return p.cur.onQuotedTextElement138(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement144() (interface{}, error) {
+func (c *current) onQuotedTextElement146() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72800,10 +72882,10 @@ func (c *current) onQuotedTextElement144() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement144() (interface{}, error) {
+func (p *parser) callonQuotedTextElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement144()
+	return p.cur.onQuotedTextElement146()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -73838,157 +73920,157 @@ func (p *parser) callonSectionTitleElement14() (interface{}, error) {
 	return p.cur.onSectionTitleElement14(stack["text"])
 }
 
-func (c *current) onSectionTitleElement28() (interface{}, error) {
+func (c *current) onSectionTitleElement30() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement28() (interface{}, error) {
+func (p *parser) callonSectionTitleElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement28()
+	return p.cur.onSectionTitleElement30()
 }
 
-func (c *current) onSectionTitleElement31() (interface{}, error) {
+func (c *current) onSectionTitleElement33() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleElement31() (interface{}, error) {
+func (p *parser) callonSectionTitleElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement31()
+	return p.cur.onSectionTitleElement33()
 }
 
-func (c *current) onSectionTitleElement38() (bool, error) {
+func (c *current) onSectionTitleElement40() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement38() (bool, error) {
+func (p *parser) callonSectionTitleElement40() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement38()
+	return p.cur.onSectionTitleElement40()
 }
 
-func (c *current) onSectionTitleElement39() (bool, error) {
+func (c *current) onSectionTitleElement41() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement39() (bool, error) {
+func (p *parser) callonSectionTitleElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement39()
+	return p.cur.onSectionTitleElement41()
 }
 
-func (c *current) onSectionTitleElement36() (interface{}, error) {
+func (c *current) onSectionTitleElement38() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement36() (interface{}, error) {
+func (p *parser) callonSectionTitleElement38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement36()
+	return p.cur.onSectionTitleElement38()
 }
 
-func (c *current) onSectionTitleElement48() (bool, error) {
+func (c *current) onSectionTitleElement50() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement48() (bool, error) {
+func (p *parser) callonSectionTitleElement50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement48()
+	return p.cur.onSectionTitleElement50()
 }
 
-func (c *current) onSectionTitleElement52() (bool, error) {
+func (c *current) onSectionTitleElement54() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement52() (bool, error) {
+func (p *parser) callonSectionTitleElement54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement52()
+	return p.cur.onSectionTitleElement54()
 }
 
-func (c *current) onSectionTitleElement44() (interface{}, error) {
+func (c *current) onSectionTitleElement46() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement44() (interface{}, error) {
+func (p *parser) callonSectionTitleElement46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement44()
+	return p.cur.onSectionTitleElement46()
 }
 
-func (c *current) onSectionTitleElement63() (bool, error) {
+func (c *current) onSectionTitleElement65() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (bool, error) {
+func (p *parser) callonSectionTitleElement65() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63()
+	return p.cur.onSectionTitleElement65()
 }
 
-func (c *current) onSectionTitleElement65() (interface{}, error) {
+func (c *current) onSectionTitleElement67() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement65() (interface{}, error) {
+func (p *parser) callonSectionTitleElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement65()
+	return p.cur.onSectionTitleElement67()
 }
 
-func (c *current) onSectionTitleElement61(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement63(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement61() (interface{}, error) {
+func (p *parser) callonSectionTitleElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement61(stack["element"])
+	return p.cur.onSectionTitleElement63(stack["element"])
 }
 
-func (c *current) onSectionTitleElement70() (bool, error) {
+func (c *current) onSectionTitleElement72() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement70() (bool, error) {
+func (p *parser) callonSectionTitleElement72() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement70()
+	return p.cur.onSectionTitleElement72()
 }
 
-func (c *current) onSectionTitleElement77() (interface{}, error) {
+func (c *current) onSectionTitleElement79() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement77()
+	return p.cur.onSectionTitleElement79()
 }
 
-func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement75(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -73996,242 +74078,242 @@ func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleElement75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement73(stack["name"])
+	return p.cur.onSectionTitleElement75(stack["name"])
 }
 
-func (c *current) onSectionTitleElement87() (interface{}, error) {
+func (c *current) onSectionTitleElement89() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement87()
+	return p.cur.onSectionTitleElement89()
 }
 
-func (c *current) onSectionTitleElement83(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement85(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement83(stack["name"])
+	return p.cur.onSectionTitleElement85(stack["name"])
 }
 
-func (c *current) onSectionTitleElement97() (interface{}, error) {
+func (c *current) onSectionTitleElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement97() (interface{}, error) {
+func (p *parser) callonSectionTitleElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement97()
+	return p.cur.onSectionTitleElement99()
 }
 
-func (c *current) onSectionTitleElement109() (interface{}, error) {
+func (c *current) onSectionTitleElement111() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement109()
+	return p.cur.onSectionTitleElement111()
 }
 
-func (c *current) onSectionTitleElement111() (interface{}, error) {
+func (c *current) onSectionTitleElement113() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement111()
+	return p.cur.onSectionTitleElement113()
 }
 
-func (c *current) onSectionTitleElement104(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement106(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement104(stack["start"])
+	return p.cur.onSectionTitleElement106(stack["start"])
 }
 
-func (c *current) onSectionTitleElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement95(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement93() (interface{}, error) {
+func (p *parser) callonSectionTitleElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement93(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement95(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement119() (interface{}, error) {
+func (c *current) onSectionTitleElement121() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement119() (interface{}, error) {
+func (p *parser) callonSectionTitleElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement119()
+	return p.cur.onSectionTitleElement121()
 }
 
-func (c *current) onSectionTitleElement131() (interface{}, error) {
+func (c *current) onSectionTitleElement133() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleElement133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement131()
+	return p.cur.onSectionTitleElement133()
 }
 
-func (c *current) onSectionTitleElement133() (interface{}, error) {
+func (c *current) onSectionTitleElement135() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement133()
+	return p.cur.onSectionTitleElement135()
 }
 
-func (c *current) onSectionTitleElement126(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement128(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement126(stack["start"])
+	return p.cur.onSectionTitleElement128(stack["start"])
 }
 
-func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement117(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement115(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement117(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement68(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement70(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleElement70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement68(stack["element"])
+	return p.cur.onSectionTitleElement70(stack["element"])
 }
 
-func (c *current) onSectionTitleElement141() (interface{}, error) {
+func (c *current) onSectionTitleElement143() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement141() (interface{}, error) {
+func (p *parser) callonSectionTitleElement143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement141()
+	return p.cur.onSectionTitleElement143()
 }
 
-func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement139(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement137(stack["ref"])
+	return p.cur.onSectionTitleElement139(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement147() (bool, error) {
+func (c *current) onSectionTitleElement149() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (bool, error) {
+func (p *parser) callonSectionTitleElement149() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147()
+	return p.cur.onSectionTitleElement149()
 }
 
-func (c *current) onSectionTitleElement157() (interface{}, error) {
+func (c *current) onSectionTitleElement159() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleElement159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement157()
+	return p.cur.onSectionTitleElement159()
 }
 
-func (c *current) onSectionTitleElement164() (interface{}, error) {
+func (c *current) onSectionTitleElement166() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleElement166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164()
+	return p.cur.onSectionTitleElement166()
 }
 
-func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement162(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleElement162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["ref"])
+	return p.cur.onSectionTitleElement162(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement170() (bool, error) {
+func (c *current) onSectionTitleElement172() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (bool, error) {
+func (p *parser) callonSectionTitleElement172() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170()
+	return p.cur.onSectionTitleElement172()
 }
 
-func (c *current) onSectionTitleElement177() (interface{}, error) {
+func (c *current) onSectionTitleElement179() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleElement179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement177()
+	return p.cur.onSectionTitleElement179()
 }
 
-func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement175(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -74239,273 +74321,273 @@ func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleElement175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement173(stack["name"])
+	return p.cur.onSectionTitleElement175(stack["name"])
 }
 
-func (c *current) onSectionTitleElement187() (interface{}, error) {
+func (c *current) onSectionTitleElement189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement187()
+	return p.cur.onSectionTitleElement189()
 }
 
-func (c *current) onSectionTitleElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement185(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleElement185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement183(stack["name"])
+	return p.cur.onSectionTitleElement185(stack["name"])
 }
 
-func (c *current) onSectionTitleElement197() (interface{}, error) {
+func (c *current) onSectionTitleElement199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement197()
+	return p.cur.onSectionTitleElement199()
 }
 
-func (c *current) onSectionTitleElement209() (interface{}, error) {
+func (c *current) onSectionTitleElement211() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleElement211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement209()
+	return p.cur.onSectionTitleElement211()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleElement213() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleElement213()
 }
 
-func (c *current) onSectionTitleElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement206(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["start"])
+	return p.cur.onSectionTitleElement206(stack["start"])
 }
 
-func (c *current) onSectionTitleElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement195(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement195(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement219() (interface{}, error) {
+func (c *current) onSectionTitleElement221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement219()
+	return p.cur.onSectionTitleElement221()
 }
 
-func (c *current) onSectionTitleElement231() (interface{}, error) {
+func (c *current) onSectionTitleElement233() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleElement233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement231()
+	return p.cur.onSectionTitleElement233()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleElement235() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleElement235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleElement235()
 }
 
-func (c *current) onSectionTitleElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement228(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleElement228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["start"])
+	return p.cur.onSectionTitleElement228(stack["start"])
 }
 
-func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement217(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleElement217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement217(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement170(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleElement170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168(stack["element"])
+	return p.cur.onSectionTitleElement170(stack["element"])
 }
 
-func (c *current) onSectionTitleElement237() (interface{}, error) {
+func (c *current) onSectionTitleElement239() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleElement239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237()
+	return p.cur.onSectionTitleElement239()
 }
 
-func (c *current) onSectionTitleElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement155(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleElement155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement153(stack["elements"])
+	return p.cur.onSectionTitleElement155(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement151(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149(stack["id"])
+	return p.cur.onSectionTitleElement151(stack["id"])
 }
 
-func (c *current) onSectionTitleElement241() (interface{}, error) {
+func (c *current) onSectionTitleElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement241()
+	return p.cur.onSectionTitleElement243()
 }
 
-func (c *current) onSectionTitleElement245() (interface{}, error) {
+func (c *current) onSectionTitleElement247() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement245()
+	return p.cur.onSectionTitleElement247()
 }
 
-func (c *current) onSectionTitleElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement147(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement145(stack["id"])
+	return p.cur.onSectionTitleElement147(stack["id"])
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleElement258() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleElement258()
 }
 
-func (c *current) onSectionTitleElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement254(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252(stack["id"])
+	return p.cur.onSectionTitleElement254(stack["id"])
 }
 
-func (c *current) onSectionTitleElement264() (interface{}, error) {
+func (c *current) onSectionTitleElement266() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement264()
+	return p.cur.onSectionTitleElement266()
 }
 
-func (c *current) onSectionTitleElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement262(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement260() (interface{}, error) {
+func (p *parser) callonSectionTitleElement262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement260(stack["id"])
+	return p.cur.onSectionTitleElement262(stack["id"])
 }
 
-func (c *current) onSectionTitleElement269() (interface{}, error) {
+func (c *current) onSectionTitleElement271() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74514,10 +74596,10 @@ func (c *current) onSectionTitleElement269() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement269() (interface{}, error) {
+func (p *parser) callonSectionTitleElement271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement269()
+	return p.cur.onSectionTitleElement271()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -74566,135 +74648,135 @@ func (p *parser) callonNormalGroup11() (interface{}, error) {
 	return p.cur.onNormalGroup11(stack["text"])
 }
 
-func (c *current) onNormalGroup25() (interface{}, error) {
+func (c *current) onNormalGroup27() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup25() (interface{}, error) {
+func (p *parser) callonNormalGroup27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup25()
+	return p.cur.onNormalGroup27()
 }
 
-func (c *current) onNormalGroup29() (interface{}, error) {
+func (c *current) onNormalGroup31() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonNormalGroup29() (interface{}, error) {
+func (p *parser) callonNormalGroup31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup29()
+	return p.cur.onNormalGroup31()
 }
 
-func (c *current) onNormalGroup36() (bool, error) {
+func (c *current) onNormalGroup38() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup36() (bool, error) {
+func (p *parser) callonNormalGroup38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup38()
 }
 
-func (c *current) onNormalGroup37() (bool, error) {
+func (c *current) onNormalGroup39() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup37() (bool, error) {
+func (p *parser) callonNormalGroup39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup37()
+	return p.cur.onNormalGroup39()
 }
 
-func (c *current) onNormalGroup34() (interface{}, error) {
+func (c *current) onNormalGroup36() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup34() (interface{}, error) {
+func (p *parser) callonNormalGroup36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup34()
+	return p.cur.onNormalGroup36()
 }
 
-func (c *current) onNormalGroup45() (bool, error) {
+func (c *current) onNormalGroup47() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup45() (bool, error) {
+func (p *parser) callonNormalGroup47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup45()
+	return p.cur.onNormalGroup47()
 }
 
-func (c *current) onNormalGroup49() (bool, error) {
+func (c *current) onNormalGroup51() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup49() (bool, error) {
+func (p *parser) callonNormalGroup51() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup49()
+	return p.cur.onNormalGroup51()
 }
 
-func (c *current) onNormalGroup41() (interface{}, error) {
+func (c *current) onNormalGroup43() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup41() (interface{}, error) {
+func (p *parser) callonNormalGroup43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup41()
+	return p.cur.onNormalGroup43()
 }
 
-func (c *current) onNormalGroup55() (interface{}, error) {
+func (c *current) onNormalGroup57() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup55() (interface{}, error) {
+func (p *parser) callonNormalGroup57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup55()
+	return p.cur.onNormalGroup57()
 }
 
-func (c *current) onNormalGroup62() (bool, error) {
+func (c *current) onNormalGroup64() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup62() (bool, error) {
+func (p *parser) callonNormalGroup64() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup62()
+	return p.cur.onNormalGroup64()
 }
 
-func (c *current) onNormalGroup69() (interface{}, error) {
+func (c *current) onNormalGroup71() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup69() (interface{}, error) {
+func (p *parser) callonNormalGroup71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup69()
+	return p.cur.onNormalGroup71()
 }
 
-func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup67(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -74702,269 +74784,269 @@ func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup65() (interface{}, error) {
+func (p *parser) callonNormalGroup67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup65(stack["name"])
+	return p.cur.onNormalGroup67(stack["name"])
 }
 
-func (c *current) onNormalGroup79() (interface{}, error) {
+func (c *current) onNormalGroup81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup79() (interface{}, error) {
+func (p *parser) callonNormalGroup81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup79()
+	return p.cur.onNormalGroup81()
 }
 
-func (c *current) onNormalGroup75(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup77(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup75() (interface{}, error) {
+func (p *parser) callonNormalGroup77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup75(stack["name"])
+	return p.cur.onNormalGroup77(stack["name"])
 }
 
-func (c *current) onNormalGroup89() (interface{}, error) {
+func (c *current) onNormalGroup91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup89() (interface{}, error) {
+func (p *parser) callonNormalGroup91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup89()
+	return p.cur.onNormalGroup91()
 }
 
-func (c *current) onNormalGroup101() (interface{}, error) {
+func (c *current) onNormalGroup103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup101() (interface{}, error) {
+func (p *parser) callonNormalGroup103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup101()
+	return p.cur.onNormalGroup103()
 }
 
-func (c *current) onNormalGroup103() (interface{}, error) {
+func (c *current) onNormalGroup105() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup103() (interface{}, error) {
+func (p *parser) callonNormalGroup105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup103()
+	return p.cur.onNormalGroup105()
 }
 
-func (c *current) onNormalGroup96(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup98(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup96() (interface{}, error) {
+func (p *parser) callonNormalGroup98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup96(stack["start"])
+	return p.cur.onNormalGroup98(stack["start"])
 }
 
-func (c *current) onNormalGroup85(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup87(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup85() (interface{}, error) {
+func (p *parser) callonNormalGroup87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup85(stack["name"], stack["start"])
+	return p.cur.onNormalGroup87(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup111() (interface{}, error) {
+func (c *current) onNormalGroup113() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup111() (interface{}, error) {
+func (p *parser) callonNormalGroup113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup111()
+	return p.cur.onNormalGroup113()
 }
 
-func (c *current) onNormalGroup123() (interface{}, error) {
+func (c *current) onNormalGroup125() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup123() (interface{}, error) {
+func (p *parser) callonNormalGroup125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup123()
+	return p.cur.onNormalGroup125()
 }
 
-func (c *current) onNormalGroup125() (interface{}, error) {
+func (c *current) onNormalGroup127() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup125() (interface{}, error) {
+func (p *parser) callonNormalGroup127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup125()
+	return p.cur.onNormalGroup127()
 }
 
-func (c *current) onNormalGroup118(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup120(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup118() (interface{}, error) {
+func (p *parser) callonNormalGroup120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup118(stack["start"])
+	return p.cur.onNormalGroup120(stack["start"])
 }
 
-func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup109(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107(stack["name"], stack["start"])
+	return p.cur.onNormalGroup109(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup60(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup62(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup60() (interface{}, error) {
+func (p *parser) callonNormalGroup62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup60(stack["element"])
+	return p.cur.onNormalGroup62(stack["element"])
 }
 
-func (c *current) onNormalGroup134() (bool, error) {
+func (c *current) onNormalGroup136() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup134() (bool, error) {
+func (p *parser) callonNormalGroup136() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134()
+	return p.cur.onNormalGroup136()
 }
 
-func (c *current) onNormalGroup136() (interface{}, error) {
+func (c *current) onNormalGroup138() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup136() (interface{}, error) {
+func (p *parser) callonNormalGroup138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup138()
 }
 
-func (c *current) onNormalGroup132(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup134(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup132() (interface{}, error) {
+func (p *parser) callonNormalGroup134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup132(stack["element"])
+	return p.cur.onNormalGroup134(stack["element"])
 }
 
-func (c *current) onNormalGroup140() (bool, error) {
+func (c *current) onNormalGroup142() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup140() (bool, error) {
+func (p *parser) callonNormalGroup142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup142()
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup144() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup144() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup144()
 }
 
-func (c *current) onNormalGroup144() (interface{}, error) {
+func (c *current) onNormalGroup146() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (interface{}, error) {
+func (p *parser) callonNormalGroup146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup146()
 }
 
-func (c *current) onNormalGroup148() (interface{}, error) {
+func (c *current) onNormalGroup150() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup148() (interface{}, error) {
+func (p *parser) callonNormalGroup150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup148()
+	return p.cur.onNormalGroup150()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup140() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup140()
 }
 
-func (c *current) onNormalGroup160() (interface{}, error) {
+func (c *current) onNormalGroup162() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup160() (interface{}, error) {
+func (p *parser) callonNormalGroup162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup160()
+	return p.cur.onNormalGroup162()
 }
 
-func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup158(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup156() (interface{}, error) {
+func (p *parser) callonNormalGroup158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup156(stack["ref"])
+	return p.cur.onNormalGroup158(stack["ref"])
 }
 
-func (c *current) onNormalGroup164() (interface{}, error) {
+func (c *current) onNormalGroup166() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74973,10 +75055,10 @@ func (c *current) onNormalGroup164() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup164() (interface{}, error) {
+func (p *parser) callonNormalGroup166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup164()
+	return p.cur.onNormalGroup166()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -75048,120 +75130,120 @@ func (p *parser) callonAttributeStructuredValueElement7() (interface{}, error) {
 	return p.cur.onAttributeStructuredValueElement7(stack["text"])
 }
 
-func (c *current) onAttributeStructuredValueElement21() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement23() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement21() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement21()
+	return p.cur.onAttributeStructuredValueElement23()
 }
 
-func (c *current) onAttributeStructuredValueElement28() (bool, error) {
+func (c *current) onAttributeStructuredValueElement30() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement28() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement28()
+	return p.cur.onAttributeStructuredValueElement30()
 }
 
-func (c *current) onAttributeStructuredValueElement32() (bool, error) {
+func (c *current) onAttributeStructuredValueElement34() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement32() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement34() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement32()
+	return p.cur.onAttributeStructuredValueElement34()
 }
 
-func (c *current) onAttributeStructuredValueElement24() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement26() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement24() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement24()
+	return p.cur.onAttributeStructuredValueElement26()
 }
 
-func (c *current) onAttributeStructuredValueElement42() (bool, error) {
+func (c *current) onAttributeStructuredValueElement44() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement42() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement44() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement42()
+	return p.cur.onAttributeStructuredValueElement44()
 }
 
-func (c *current) onAttributeStructuredValueElement44() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement46() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement44() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement44()
+	return p.cur.onAttributeStructuredValueElement46()
 }
 
-func (c *current) onAttributeStructuredValueElement40(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement42(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement40() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement40(stack["element"])
+	return p.cur.onAttributeStructuredValueElement42(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement50() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement52() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement50()
+	return p.cur.onAttributeStructuredValueElement52()
 }
 
-func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement48(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement46(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement48(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement54() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement54() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement54()
+	return p.cur.onAttributeStructuredValueElement56()
 }
 
-func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -75170,10 +75252,10 @@ func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement59()
+	return p.cur.onAttributeStructuredValueElement61()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b968427..3baa609 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1474,7 +1474,7 @@ EmailAddressLocal <-
         return local, nil
     }
 
-EmailAddressDomain <- domain:([\pL\pN]+ ("." [\pL\pN-]+)* {
+EmailAddressDomain <- domain:([\pL\pN]+ ("-"+ [\pL\pN]+)* ("." [\pL\pN-]+)* {
         return string(c.text), nil
     })
     &{
@@ -2779,7 +2779,7 @@ InlineText <-
         } 
     )
     !(
-        "@" [\pL\pN] // avoid conflict with email address
+        [\pL\pN._+-]* "@" [\pL\pN] // avoid conflict with email address
     ) 
     {
         log.Debugf("new text: '%v'", string(c.text))
-- 
2.43.0


From 0b96bced94a587a89278656685d8b7fae3da5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:28 +0000
Subject: [PATCH 079/117] fix: accept = in the values of named attributes

---
 pkg/parser/parser.go  | 19959 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    15 +-
 2 files changed, 10324 insertions(+), 9650 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 559ba43..2dc88a5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20511},
+																									pos:        position{line: 665, col: 5, offset: 20964},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 13, offset: 20519},
+																									pos:   position{line: 665, col: 13, offset: 20972},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 32, offset: 20538},
+																									pos:        position{line: 665, col: 32, offset: 20991},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 659, col: 5, offset: 20779},
+																									pos:        position{line: 672, col: 5, offset: 21232},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 659, col: 9, offset: 20783},
+																									pos:   position{line: 672, col: 9, offset: 21236},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 659, col: 28, offset: 20802},
+																									pos:        position{line: 672, col: 28, offset: 21255},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20511},
+																									pos:        position{line: 665, col: 5, offset: 20964},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 13, offset: 20519},
+																									pos:   position{line: 665, col: 13, offset: 20972},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 32, offset: 20538},
+																									pos:        position{line: 665, col: 32, offset: 20991},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 659, col: 5, offset: 20779},
+																									pos:        position{line: 672, col: 5, offset: 21232},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 659, col: 9, offset: 20783},
+																									pos:   position{line: 672, col: 9, offset: 21236},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 659, col: 28, offset: 20802},
+																									pos:        position{line: 672, col: 28, offset: 21255},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 652, col: 5, offset: 20511},
+																		pos: position{line: 665, col: 5, offset: 20964},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20511},
+																					pos: position{line: 665, col: 5, offset: 20964},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20511},
+																							pos:        position{line: 665, col: 5, offset: 20964},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 13, offset: 20519},
+																							pos:   position{line: 665, col: 13, offset: 20972},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 32, offset: 20538},
+																							pos:        position{line: 665, col: 32, offset: 20991},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 5, offset: 20779},
+																				pos: position{line: 672, col: 5, offset: 21232},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 5, offset: 20779},
+																					pos: position{line: 672, col: 5, offset: 21232},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 5, offset: 20779},
+																							pos:        position{line: 672, col: 5, offset: 21232},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 9, offset: 20783},
+																							pos:   position{line: 672, col: 9, offset: 21236},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 28, offset: 20802},
+																							pos:        position{line: 672, col: 28, offset: 21255},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90774},
+																pos: position{line: 2878, col: 12, offset: 91227},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90775},
+																	pos: position{line: 2878, col: 13, offset: 91228},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90775},
+																			pos: position{line: 2878, col: 13, offset: 91228},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90775},
+																				pos:        position{line: 2878, col: 13, offset: 91228},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90780},
+																			pos: position{line: 2878, col: 18, offset: 91233},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90780},
+																				pos:        position{line: 2878, col: 18, offset: 91233},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20511},
+																									pos:        position{line: 665, col: 5, offset: 20964},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 13, offset: 20519},
+																									pos:   position{line: 665, col: 13, offset: 20972},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 32, offset: 20538},
+																									pos:        position{line: 665, col: 32, offset: 20991},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 659, col: 5, offset: 20779},
+																									pos:        position{line: 672, col: 5, offset: 21232},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 659, col: 9, offset: 20783},
+																									pos:   position{line: 672, col: 9, offset: 21236},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 659, col: 28, offset: 20802},
+																									pos:        position{line: 672, col: 28, offset: 21255},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20511},
+																									pos:        position{line: 665, col: 5, offset: 20964},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 13, offset: 20519},
+																									pos:   position{line: 665, col: 13, offset: 20972},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 32, offset: 20538},
+																									pos:        position{line: 665, col: 32, offset: 20991},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 659, col: 5, offset: 20779},
+																									pos:        position{line: 672, col: 5, offset: 21232},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 659, col: 9, offset: 20783},
+																									pos:   position{line: 672, col: 9, offset: 21236},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 659, col: 28, offset: 20802},
+																									pos:        position{line: 672, col: 28, offset: 21255},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 652, col: 5, offset: 20511},
+																		pos: position{line: 665, col: 5, offset: 20964},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20511},
+																					pos: position{line: 665, col: 5, offset: 20964},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20511},
+																							pos:        position{line: 665, col: 5, offset: 20964},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 13, offset: 20519},
+																							pos:   position{line: 665, col: 13, offset: 20972},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 32, offset: 20538},
+																							pos:        position{line: 665, col: 32, offset: 20991},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 5, offset: 20779},
+																				pos: position{line: 672, col: 5, offset: 21232},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 5, offset: 20779},
+																					pos: position{line: 672, col: 5, offset: 21232},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 5, offset: 20779},
+																							pos:        position{line: 672, col: 5, offset: 21232},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 9, offset: 20783},
+																							pos:   position{line: 672, col: 9, offset: 21236},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 28, offset: 20802},
+																							pos:        position{line: 672, col: 28, offset: 21255},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90774},
+																pos: position{line: 2878, col: 12, offset: 91227},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90775},
+																	pos: position{line: 2878, col: 13, offset: 91228},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90775},
+																			pos: position{line: 2878, col: 13, offset: 91228},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90775},
+																				pos:        position{line: 2878, col: 13, offset: 91228},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90780},
+																			pos: position{line: 2878, col: 18, offset: 91233},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90780},
+																				pos:        position{line: 2878, col: 18, offset: 91233},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 731, col: 5, offset: 23253},
+										pos: position{line: 744, col: 5, offset: 23706},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 731, col: 5, offset: 23253},
+											pos: position{line: 744, col: 5, offset: 23706},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 731, col: 5, offset: 23253},
+													pos: position{line: 744, col: 5, offset: 23706},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88028},
+														pos:        position{line: 2776, col: 13, offset: 88481},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 732, col: 5, offset: 23283},
+													pos:   position{line: 745, col: 5, offset: 23736},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 733, col: 9, offset: 23303},
+														pos: position{line: 746, col: 9, offset: 23756},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23795},
+																pos: position{line: 760, col: 5, offset: 24248},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23795},
+																	pos: position{line: 760, col: 5, offset: 24248},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23795},
+																			pos:   position{line: 760, col: 5, offset: 24248},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23806},
+																				pos: position{line: 760, col: 16, offset: 24259},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23806},
+																					pos: position{line: 760, col: 16, offset: 24259},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23806},
+																							pos:        position{line: 760, col: 16, offset: 24259},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23813},
+																							pos: position{line: 760, col: 23, offset: 24266},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23813},
+																								pos:        position{line: 760, col: 23, offset: 24266},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23897},
+																			pos: position{line: 762, col: 8, offset: 24350},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24043},
+																pos: position{line: 767, col: 5, offset: 24496},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24043},
+																	pos: position{line: 767, col: 5, offset: 24496},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24043},
+																			pos:   position{line: 767, col: 5, offset: 24496},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24054},
+																				pos: position{line: 767, col: 16, offset: 24507},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24054},
+																					pos: position{line: 767, col: 16, offset: 24507},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24054},
+																							pos:        position{line: 767, col: 16, offset: 24507},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 23, offset: 24061},
+																							pos: position{line: 767, col: 23, offset: 24514},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 23, offset: 24061},
+																								pos:        position{line: 767, col: 23, offset: 24514},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24145},
+																			pos: position{line: 769, col: 8, offset: 24598},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 767, col: 26, offset: 24531},
+																pos: position{line: 780, col: 26, offset: 24984},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 767, col: 26, offset: 24531},
+																	pos: position{line: 780, col: 26, offset: 24984},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 767, col: 26, offset: 24531},
+																			pos:        position{line: 780, col: 26, offset: 24984},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 767, col: 32, offset: 24537},
+																			pos:   position{line: 780, col: 32, offset: 24990},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 771, col: 13, offset: 24667},
+																				pos: position{line: 784, col: 13, offset: 25120},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 771, col: 14, offset: 24668},
+																					pos: position{line: 784, col: 14, offset: 25121},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 771, col: 14, offset: 24668},
+																						pos:        position{line: 784, col: 14, offset: 25121},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 767, col: 52, offset: 24557},
+																			pos: position{line: 780, col: 52, offset: 25010},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 761, col: 5, offset: 24290},
+																pos: position{line: 774, col: 5, offset: 24743},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 761, col: 5, offset: 24290},
+																	pos: position{line: 774, col: 5, offset: 24743},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 761, col: 5, offset: 24290},
+																			pos:   position{line: 774, col: 5, offset: 24743},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 761, col: 16, offset: 24301},
+																				pos: position{line: 774, col: 16, offset: 24754},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 16, offset: 24301},
+																					pos: position{line: 774, col: 16, offset: 24754},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 761, col: 16, offset: 24301},
+																							pos:        position{line: 774, col: 16, offset: 24754},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 761, col: 22, offset: 24307},
+																							pos: position{line: 774, col: 22, offset: 24760},
 																							expr: &litMatcher{
-																								pos:        position{line: 761, col: 22, offset: 24307},
+																								pos:        position{line: 774, col: 22, offset: 24760},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 763, col: 8, offset: 24391},
+																			pos: position{line: 776, col: 8, offset: 24844},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 776, col: 5, offset: 24827},
+																pos: position{line: 789, col: 5, offset: 25280},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 776, col: 5, offset: 24827},
+																	pos: position{line: 789, col: 5, offset: 25280},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 776, col: 5, offset: 24827},
+																			pos:   position{line: 789, col: 5, offset: 25280},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 776, col: 16, offset: 24838},
+																				pos: position{line: 789, col: 16, offset: 25291},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 776, col: 16, offset: 24838},
+																					pos: position{line: 789, col: 16, offset: 25291},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24838},
+																							pos:        position{line: 789, col: 16, offset: 25291},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 776, col: 23, offset: 24845},
+																							pos: position{line: 789, col: 23, offset: 25298},
 																							expr: &litMatcher{
-																								pos:        position{line: 776, col: 23, offset: 24845},
+																								pos:        position{line: 789, col: 23, offset: 25298},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 778, col: 8, offset: 24929},
+																			pos: position{line: 791, col: 8, offset: 25382},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25303},
+																pos: position{line: 803, col: 5, offset: 25756},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25303},
+																	pos: position{line: 803, col: 5, offset: 25756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25303},
+																			pos:   position{line: 803, col: 5, offset: 25756},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25314},
+																				pos: position{line: 803, col: 16, offset: 25767},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25314},
+																					pos: position{line: 803, col: 16, offset: 25767},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25314},
+																							pos:        position{line: 803, col: 16, offset: 25767},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25321},
+																							pos: position{line: 803, col: 23, offset: 25774},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25321},
+																								pos:        position{line: 803, col: 23, offset: 25774},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25405},
+																			pos: position{line: 805, col: 8, offset: 25858},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25555},
+																pos: position{line: 810, col: 5, offset: 26008},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25555},
+																	pos: position{line: 810, col: 5, offset: 26008},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25555},
+																			pos:   position{line: 810, col: 5, offset: 26008},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25566},
+																				pos: position{line: 810, col: 16, offset: 26019},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25566},
+																					pos: position{line: 810, col: 16, offset: 26019},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25566},
+																							pos:        position{line: 810, col: 16, offset: 26019},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25573},
+																							pos: position{line: 810, col: 23, offset: 26026},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25573},
+																								pos:        position{line: 810, col: 23, offset: 26026},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25657},
+																			pos: position{line: 812, col: 8, offset: 26110},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25805},
+																pos: position{line: 817, col: 5, offset: 26258},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25805},
+																	pos: position{line: 817, col: 5, offset: 26258},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25805},
+																			pos:   position{line: 817, col: 5, offset: 26258},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25816},
+																				pos: position{line: 817, col: 16, offset: 26269},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25816},
+																					pos: position{line: 817, col: 16, offset: 26269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25816},
+																							pos:        position{line: 817, col: 16, offset: 26269},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25823},
+																							pos: position{line: 817, col: 23, offset: 26276},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25823},
+																								pos:        position{line: 817, col: 23, offset: 26276},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25907},
+																			pos: position{line: 819, col: 8, offset: 26360},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 811, col: 5, offset: 26051},
+																pos: position{line: 824, col: 5, offset: 26504},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 811, col: 5, offset: 26051},
+																	pos: position{line: 824, col: 5, offset: 26504},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 811, col: 5, offset: 26051},
+																			pos:   position{line: 824, col: 5, offset: 26504},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 16, offset: 26062},
+																				pos: position{line: 824, col: 16, offset: 26515},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 16, offset: 26062},
+																					pos: position{line: 824, col: 16, offset: 26515},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 811, col: 16, offset: 26062},
+																							pos:        position{line: 824, col: 16, offset: 26515},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 811, col: 23, offset: 26069},
+																							pos: position{line: 824, col: 23, offset: 26522},
 																							expr: &litMatcher{
-																								pos:        position{line: 811, col: 23, offset: 26069},
+																								pos:        position{line: 824, col: 23, offset: 26522},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 813, col: 8, offset: 26153},
+																			pos: position{line: 826, col: 8, offset: 26606},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 91008},
+													pos: position{line: 2890, col: 11, offset: 91461},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 91008},
+														pos: position{line: 2890, col: 11, offset: 91461},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 91008},
+															pos:        position{line: 2890, col: 11, offset: 91461},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2823, col: 14, offset: 89540},
+													pos: position{line: 2836, col: 14, offset: 89993},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89540},
+														pos: position{line: 2836, col: 14, offset: 89993},
 														expr: &charClassMatcher{
-															pos:        position{line: 2823, col: 14, offset: 89540},
+															pos:        position{line: 2836, col: 14, offset: 89993},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 17, offset: 89610},
+												pos: position{line: 2840, col: 17, offset: 90063},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2827, col: 17, offset: 89610},
+													pos:   position{line: 2840, col: 17, offset: 90063},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90774},
+																				pos: position{line: 2878, col: 12, offset: 91227},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90775},
+																					pos: position{line: 2878, col: 13, offset: 91228},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90775},
+																							pos: position{line: 2878, col: 13, offset: 91228},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90775},
+																								pos:        position{line: 2878, col: 13, offset: 91228},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90780},
+																							pos: position{line: 2878, col: 18, offset: 91233},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90780},
+																								pos:        position{line: 2878, col: 18, offset: 91233},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90774},
+																				pos: position{line: 2878, col: 12, offset: 91227},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90775},
+																					pos: position{line: 2878, col: 13, offset: 91228},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90775},
+																							pos: position{line: 2878, col: 13, offset: 91228},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90775},
+																								pos:        position{line: 2878, col: 13, offset: 91228},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90780},
+																							pos: position{line: 2878, col: 18, offset: 91233},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90780},
+																								pos:        position{line: 2878, col: 18, offset: 91233},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90774},
+																		pos: position{line: 2878, col: 12, offset: 91227},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90775},
+																			pos: position{line: 2878, col: 13, offset: 91228},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90775},
+																					pos: position{line: 2878, col: 13, offset: 91228},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90775},
+																						pos:        position{line: 2878, col: 13, offset: 91228},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90780},
+																					pos: position{line: 2878, col: 18, offset: 91233},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90780},
+																						pos:        position{line: 2878, col: 18, offset: 91233},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90774},
+																									pos: position{line: 2878, col: 12, offset: 91227},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90775},
+																										pos: position{line: 2878, col: 13, offset: 91228},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90775},
+																												pos: position{line: 2878, col: 13, offset: 91228},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90775},
+																													pos:        position{line: 2878, col: 13, offset: 91228},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90780},
+																												pos: position{line: 2878, col: 18, offset: 91233},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90780},
+																													pos:        position{line: 2878, col: 18, offset: 91233},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90774},
+																									pos: position{line: 2878, col: 12, offset: 91227},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90775},
+																										pos: position{line: 2878, col: 13, offset: 91228},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90775},
+																												pos: position{line: 2878, col: 13, offset: 91228},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90775},
+																													pos:        position{line: 2878, col: 13, offset: 91228},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90780},
+																												pos: position{line: 2878, col: 18, offset: 91233},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90780},
+																													pos:        position{line: 2878, col: 18, offset: 91233},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 12, offset: 90774},
+																							pos: position{line: 2878, col: 12, offset: 91227},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2865, col: 13, offset: 90775},
+																								pos: position{line: 2878, col: 13, offset: 91228},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2865, col: 13, offset: 90775},
+																										pos: position{line: 2878, col: 13, offset: 91228},
 																										expr: &litMatcher{
-																											pos:        position{line: 2865, col: 13, offset: 90775},
+																											pos:        position{line: 2878, col: 13, offset: 91228},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2865, col: 18, offset: 90780},
+																										pos: position{line: 2878, col: 18, offset: 91233},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 18, offset: 90780},
+																											pos:        position{line: 2878, col: 18, offset: 91233},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90774},
+														pos: position{line: 2878, col: 12, offset: 91227},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90775},
+															pos: position{line: 2878, col: 13, offset: 91228},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90775},
+																	pos: position{line: 2878, col: 13, offset: 91228},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90775},
+																		pos:        position{line: 2878, col: 13, offset: 91228},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90780},
+																	pos: position{line: 2878, col: 18, offset: 91233},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90780},
+																		pos:        position{line: 2878, col: 18, offset: 91233},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90774},
+														pos: position{line: 2878, col: 12, offset: 91227},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90775},
+															pos: position{line: 2878, col: 13, offset: 91228},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90775},
+																	pos: position{line: 2878, col: 13, offset: 91228},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90775},
+																		pos:        position{line: 2878, col: 13, offset: 91228},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90780},
+																	pos: position{line: 2878, col: 18, offset: 91233},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90780},
+																		pos:        position{line: 2878, col: 18, offset: 91233},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 12, offset: 90774},
+												pos: position{line: 2878, col: 12, offset: 91227},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2865, col: 13, offset: 90775},
+													pos: position{line: 2878, col: 13, offset: 91228},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2865, col: 13, offset: 90775},
+															pos: position{line: 2878, col: 13, offset: 91228},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 13, offset: 90775},
+																pos:        position{line: 2878, col: 13, offset: 91228},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2865, col: 18, offset: 90780},
+															pos: position{line: 2878, col: 18, offset: 91233},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 18, offset: 90780},
+																pos:        position{line: 2878, col: 18, offset: 91233},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2767, col: 14, offset: 88102},
+																		pos: position{line: 2780, col: 14, offset: 88555},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2767, col: 14, offset: 88102},
+																			pos: position{line: 2780, col: 14, offset: 88555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2767, col: 14, offset: 88102},
+																				pos:        position{line: 2780, col: 14, offset: 88555},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 88102},
+																				pos: position{line: 2780, col: 14, offset: 88555},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 88102},
+																					pos: position{line: 2780, col: 14, offset: 88555},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 88102},
+																						pos:        position{line: 2780, col: 14, offset: 88555},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2767, col: 14, offset: 88102},
+																							pos: position{line: 2780, col: 14, offset: 88555},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2767, col: 14, offset: 88102},
+																								pos: position{line: 2780, col: 14, offset: 88555},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2767, col: 14, offset: 88102},
+																									pos:        position{line: 2780, col: 14, offset: 88555},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2767, col: 14, offset: 88102},
+																									pos: position{line: 2780, col: 14, offset: 88555},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2767, col: 14, offset: 88102},
+																										pos: position{line: 2780, col: 14, offset: 88555},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2767, col: 14, offset: 88102},
+																											pos:        position{line: 2780, col: 14, offset: 88555},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 88102},
+																pos: position{line: 2780, col: 14, offset: 88555},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 88102},
+																	pos: position{line: 2780, col: 14, offset: 88555},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 88102},
+																		pos:        position{line: 2780, col: 14, offset: 88555},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2767, col: 14, offset: 88102},
+																pos: position{line: 2780, col: 14, offset: 88555},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2767, col: 14, offset: 88102},
+																	pos: position{line: 2780, col: 14, offset: 88555},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 14, offset: 88102},
+																		pos:        position{line: 2780, col: 14, offset: 88555},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 684, col: 14, offset: 21681},
+											pos: position{line: 697, col: 14, offset: 22134},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 684, col: 14, offset: 21681},
+												pos: position{line: 697, col: 14, offset: 22134},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2890, col: 11, offset: 91281},
+														pos: position{line: 2903, col: 11, offset: 91734},
 														expr: &anyMatcher{
-															line: 2890, col: 13, offset: 91283,
+															line: 2903, col: 13, offset: 91736,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 684, col: 21, offset: 21688},
+														pos: position{line: 697, col: 21, offset: 22141},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 827, col: 5, offset: 26535},
+											pos: position{line: 840, col: 5, offset: 26988},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 827, col: 5, offset: 26535},
+												pos: position{line: 840, col: 5, offset: 26988},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 827, col: 5, offset: 26535},
+														pos:   position{line: 840, col: 5, offset: 26988},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23795},
+															pos: position{line: 760, col: 5, offset: 24248},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23795},
+																pos: position{line: 760, col: 5, offset: 24248},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23795},
+																		pos:   position{line: 760, col: 5, offset: 24248},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23806},
+																			pos: position{line: 760, col: 16, offset: 24259},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23806},
+																				pos: position{line: 760, col: 16, offset: 24259},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23806},
+																						pos:        position{line: 760, col: 16, offset: 24259},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23813},
+																						pos: position{line: 760, col: 23, offset: 24266},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23813},
+																							pos:        position{line: 760, col: 23, offset: 24266},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23897},
+																		pos: position{line: 762, col: 8, offset: 24350},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 828, col: 5, offset: 26574},
+														pos: position{line: 841, col: 5, offset: 27027},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 831, col: 5, offset: 26666},
+														pos:   position{line: 844, col: 5, offset: 27119},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 846, col: 5, offset: 27058},
+															pos: position{line: 859, col: 5, offset: 27511},
 															expr: &actionExpr{
-																pos: position{line: 846, col: 6, offset: 27059},
+																pos: position{line: 859, col: 6, offset: 27512},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 846, col: 6, offset: 27059},
+																	pos: position{line: 859, col: 6, offset: 27512},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 846, col: 6, offset: 27059},
+																			pos: position{line: 859, col: 6, offset: 27512},
 																			expr: &choiceExpr{
-																				pos: position{line: 839, col: 5, offset: 26900},
+																				pos: position{line: 852, col: 5, offset: 27353},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 839, col: 5, offset: 26900},
+																						pos: position{line: 852, col: 5, offset: 27353},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 839, col: 5, offset: 26900},
+																								pos:   position{line: 852, col: 5, offset: 27353},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23795},
+																										pos: position{line: 760, col: 5, offset: 24248},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23795},
+																												pos:   position{line: 760, col: 5, offset: 24248},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23806},
+																														pos: position{line: 760, col: 16, offset: 24259},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23806},
+																																pos:        position{line: 760, col: 16, offset: 24259},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23813},
+																																pos: position{line: 760, col: 23, offset: 24266},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23813},
+																																	pos:        position{line: 760, col: 23, offset: 24266},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23897},
+																												pos: position{line: 762, col: 8, offset: 24350},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 840, col: 5, offset: 26931},
+																								pos: position{line: 853, col: 5, offset: 27384},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 847, col: 5, offset: 27089},
+																			pos:   position{line: 860, col: 5, offset: 27542},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -4721,41 +4721,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 832, col: 5, offset: 26700},
+														pos: position{line: 845, col: 5, offset: 27153},
 														expr: &choiceExpr{
-															pos: position{line: 839, col: 5, offset: 26900},
+															pos: position{line: 852, col: 5, offset: 27353},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 839, col: 5, offset: 26900},
+																	pos: position{line: 852, col: 5, offset: 27353},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 839, col: 5, offset: 26900},
+																			pos:   position{line: 852, col: 5, offset: 27353},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				run: (*parser).callonDocumentFragment149,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23795},
+																					pos: position{line: 760, col: 5, offset: 24248},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23795},
+																							pos:   position{line: 760, col: 5, offset: 24248},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								run: (*parser).callonDocumentFragment152,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23806},
+																									pos: position{line: 760, col: 16, offset: 24259},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23806},
+																											pos:        position{line: 760, col: 16, offset: 24259},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23813},
+																											pos: position{line: 760, col: 23, offset: 24266},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23813},
+																												pos:        position{line: 760, col: 23, offset: 24266},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -4766,12 +4766,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23897},
+																							pos: position{line: 762, col: 8, offset: 24350},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -4822,15 +4822,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 840, col: 5, offset: 26931},
+																			pos: position{line: 853, col: 5, offset: 27384},
 																			run: (*parser).callonDocumentFragment168,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -4840,39 +4840,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 855, col: 5, offset: 27242},
+											pos: position{line: 868, col: 5, offset: 27695},
 											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 855, col: 5, offset: 27242},
+												pos: position{line: 868, col: 5, offset: 27695},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 855, col: 5, offset: 27242},
+														pos:   position{line: 868, col: 5, offset: 27695},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24043},
+															pos: position{line: 767, col: 5, offset: 24496},
 															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24043},
+																pos: position{line: 767, col: 5, offset: 24496},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24043},
+																		pos:   position{line: 767, col: 5, offset: 24496},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24054},
+																			pos: position{line: 767, col: 16, offset: 24507},
 																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24054},
+																				pos: position{line: 767, col: 16, offset: 24507},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24054},
+																						pos:        position{line: 767, col: 16, offset: 24507},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 23, offset: 24061},
+																						pos: position{line: 767, col: 23, offset: 24514},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 23, offset: 24061},
+																							pos:        position{line: 767, col: 23, offset: 24514},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4883,12 +4883,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24145},
+																		pos: position{line: 769, col: 8, offset: 24598},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -4939,56 +4939,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 856, col: 5, offset: 27281},
+														pos: position{line: 869, col: 5, offset: 27734},
 														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 859, col: 5, offset: 27373},
+														pos:   position{line: 872, col: 5, offset: 27826},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 874, col: 4, offset: 27770},
+															pos: position{line: 887, col: 4, offset: 28223},
 															expr: &actionExpr{
-																pos: position{line: 874, col: 5, offset: 27771},
+																pos: position{line: 887, col: 5, offset: 28224},
 																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 874, col: 5, offset: 27771},
+																	pos: position{line: 887, col: 5, offset: 28224},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 874, col: 5, offset: 27771},
+																			pos: position{line: 887, col: 5, offset: 28224},
 																			expr: &choiceExpr{
-																				pos: position{line: 867, col: 5, offset: 27613},
+																				pos: position{line: 880, col: 5, offset: 28066},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 867, col: 5, offset: 27613},
+																						pos: position{line: 880, col: 5, offset: 28066},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 867, col: 5, offset: 27613},
+																								pos:   position{line: 880, col: 5, offset: 28066},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24043},
+																									pos: position{line: 767, col: 5, offset: 24496},
 																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24043},
+																										pos: position{line: 767, col: 5, offset: 24496},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24043},
+																												pos:   position{line: 767, col: 5, offset: 24496},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24054},
+																													pos: position{line: 767, col: 16, offset: 24507},
 																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24054},
+																														pos: position{line: 767, col: 16, offset: 24507},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24054},
+																																pos:        position{line: 767, col: 16, offset: 24507},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 23, offset: 24061},
+																																pos: position{line: 767, col: 23, offset: 24514},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 23, offset: 24061},
+																																	pos:        position{line: 767, col: 23, offset: 24514},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4999,12 +4999,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24145},
+																												pos: position{line: 769, col: 8, offset: 24598},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -5055,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 868, col: 5, offset: 27644},
+																								pos: position{line: 881, col: 5, offset: 28097},
 																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 875, col: 5, offset: 27801},
+																			pos:   position{line: 888, col: 5, offset: 28254},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -5150,44 +5150,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 860, col: 5, offset: 27407},
+														pos:   position{line: 873, col: 5, offset: 27860},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 860, col: 9, offset: 27411},
+															pos: position{line: 873, col: 9, offset: 27864},
 															expr: &choiceExpr{
-																pos: position{line: 867, col: 5, offset: 27613},
+																pos: position{line: 880, col: 5, offset: 28066},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 867, col: 5, offset: 27613},
+																		pos: position{line: 880, col: 5, offset: 28066},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 867, col: 5, offset: 27613},
+																				pos:   position{line: 880, col: 5, offset: 28066},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24043},
+																					pos: position{line: 767, col: 5, offset: 24496},
 																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24043},
+																						pos: position{line: 767, col: 5, offset: 24496},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24043},
+																								pos:   position{line: 767, col: 5, offset: 24496},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24054},
+																									pos: position{line: 767, col: 16, offset: 24507},
 																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24054},
+																										pos: position{line: 767, col: 16, offset: 24507},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24054},
+																												pos:        position{line: 767, col: 16, offset: 24507},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 23, offset: 24061},
+																												pos: position{line: 767, col: 23, offset: 24514},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 23, offset: 24061},
+																													pos:        position{line: 767, col: 23, offset: 24514},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5198,12 +5198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24145},
+																								pos: position{line: 769, col: 8, offset: 24598},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -5254,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 868, col: 5, offset: 27644},
+																				pos: position{line: 881, col: 5, offset: 28097},
 																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -5273,36 +5273,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 967, col: 5, offset: 30093},
+											pos: position{line: 980, col: 5, offset: 30546},
 											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 967, col: 5, offset: 30093},
+												pos: position{line: 980, col: 5, offset: 30546},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 967, col: 5, offset: 30093},
+														pos:   position{line: 980, col: 5, offset: 30546},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 767, col: 26, offset: 24531},
+															pos: position{line: 780, col: 26, offset: 24984},
 															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 767, col: 26, offset: 24531},
+																pos: position{line: 780, col: 26, offset: 24984},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 767, col: 26, offset: 24531},
+																		pos:        position{line: 780, col: 26, offset: 24984},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 767, col: 32, offset: 24537},
+																		pos:   position{line: 780, col: 32, offset: 24990},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 771, col: 13, offset: 24667},
+																			pos: position{line: 784, col: 13, offset: 25120},
 																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 771, col: 14, offset: 24668},
+																				pos: position{line: 784, col: 14, offset: 25121},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 771, col: 14, offset: 24668},
+																					pos:        position{line: 784, col: 14, offset: 25121},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5312,12 +5312,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 767, col: 52, offset: 24557},
+																		pos: position{line: 780, col: 52, offset: 25010},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -5368,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 968, col: 5, offset: 30139},
+														pos:   position{line: 981, col: 5, offset: 30592},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 981, col: 5, offset: 30612},
+															pos: position{line: 994, col: 5, offset: 31065},
 															expr: &actionExpr{
-																pos: position{line: 981, col: 6, offset: 30613},
+																pos: position{line: 994, col: 6, offset: 31066},
 																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 981, col: 6, offset: 30613},
+																	pos: position{line: 994, col: 6, offset: 31066},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 981, col: 6, offset: 30613},
+																			pos: position{line: 994, col: 6, offset: 31066},
 																			expr: &seqExpr{
-																				pos: position{line: 978, col: 34, offset: 30560},
+																				pos: position{line: 991, col: 34, offset: 31013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 978, col: 34, offset: 30560},
+																						pos:        position{line: 991, col: 34, offset: 31013},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 978, col: 40, offset: 30566},
+																						pos: position{line: 991, col: 40, offset: 31019},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -5445,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 982, col: 5, offset: 30648},
+																			pos:   position{line: 995, col: 5, offset: 31101},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -5525,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 969, col: 5, offset: 30178},
+														pos: position{line: 982, col: 5, offset: 30631},
 														expr: &seqExpr{
-															pos: position{line: 978, col: 34, offset: 30560},
+															pos: position{line: 991, col: 34, offset: 31013},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 978, col: 34, offset: 30560},
+																	pos:        position{line: 991, col: 34, offset: 31013},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 978, col: 40, offset: 30566},
+																	pos: position{line: 991, col: 40, offset: 31019},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -5594,39 +5594,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 883, col: 5, offset: 27954},
+											pos: position{line: 896, col: 5, offset: 28407},
 											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 883, col: 5, offset: 27954},
+												pos: position{line: 896, col: 5, offset: 28407},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 883, col: 5, offset: 27954},
+														pos:   position{line: 896, col: 5, offset: 28407},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 761, col: 5, offset: 24290},
+															pos: position{line: 774, col: 5, offset: 24743},
 															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 761, col: 5, offset: 24290},
+																pos: position{line: 774, col: 5, offset: 24743},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 761, col: 5, offset: 24290},
+																		pos:   position{line: 774, col: 5, offset: 24743},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 761, col: 16, offset: 24301},
+																			pos: position{line: 774, col: 16, offset: 24754},
 																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 761, col: 16, offset: 24301},
+																				pos: position{line: 774, col: 16, offset: 24754},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 761, col: 16, offset: 24301},
+																						pos:        position{line: 774, col: 16, offset: 24754},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 761, col: 22, offset: 24307},
+																						pos: position{line: 774, col: 22, offset: 24760},
 																						expr: &litMatcher{
-																							pos:        position{line: 761, col: 22, offset: 24307},
+																							pos:        position{line: 774, col: 22, offset: 24760},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5637,12 +5637,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 763, col: 8, offset: 24391},
+																		pos: position{line: 776, col: 8, offset: 24844},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -5693,56 +5693,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 884, col: 5, offset: 27992},
+														pos: position{line: 897, col: 5, offset: 28445},
 														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 887, col: 5, offset: 28084},
+														pos:   position{line: 900, col: 5, offset: 28537},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 902, col: 5, offset: 28474},
+															pos: position{line: 915, col: 5, offset: 28927},
 															expr: &actionExpr{
-																pos: position{line: 902, col: 6, offset: 28475},
+																pos: position{line: 915, col: 6, offset: 28928},
 																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 902, col: 6, offset: 28475},
+																	pos: position{line: 915, col: 6, offset: 28928},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 902, col: 6, offset: 28475},
+																			pos: position{line: 915, col: 6, offset: 28928},
 																			expr: &choiceExpr{
-																				pos: position{line: 895, col: 5, offset: 28318},
+																				pos: position{line: 908, col: 5, offset: 28771},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 895, col: 5, offset: 28318},
+																						pos: position{line: 908, col: 5, offset: 28771},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 895, col: 5, offset: 28318},
+																								pos:   position{line: 908, col: 5, offset: 28771},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 5, offset: 24290},
+																									pos: position{line: 774, col: 5, offset: 24743},
 																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 5, offset: 24290},
+																										pos: position{line: 774, col: 5, offset: 24743},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 761, col: 5, offset: 24290},
+																												pos:   position{line: 774, col: 5, offset: 24743},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 761, col: 16, offset: 24301},
+																													pos: position{line: 774, col: 16, offset: 24754},
 																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 761, col: 16, offset: 24301},
+																														pos: position{line: 774, col: 16, offset: 24754},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 761, col: 16, offset: 24301},
+																																pos:        position{line: 774, col: 16, offset: 24754},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 761, col: 22, offset: 24307},
+																																pos: position{line: 774, col: 22, offset: 24760},
 																																expr: &litMatcher{
-																																	pos:        position{line: 761, col: 22, offset: 24307},
+																																	pos:        position{line: 774, col: 22, offset: 24760},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5753,12 +5753,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 763, col: 8, offset: 24391},
+																												pos: position{line: 776, col: 8, offset: 24844},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -5809,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 896, col: 5, offset: 28348},
+																								pos: position{line: 909, col: 5, offset: 28801},
 																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 903, col: 5, offset: 28504},
+																			pos:   position{line: 916, col: 5, offset: 28957},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -5904,44 +5904,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 888, col: 5, offset: 28117},
+														pos:   position{line: 901, col: 5, offset: 28570},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 888, col: 9, offset: 28121},
+															pos: position{line: 901, col: 9, offset: 28574},
 															expr: &choiceExpr{
-																pos: position{line: 895, col: 5, offset: 28318},
+																pos: position{line: 908, col: 5, offset: 28771},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 895, col: 5, offset: 28318},
+																		pos: position{line: 908, col: 5, offset: 28771},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 895, col: 5, offset: 28318},
+																				pos:   position{line: 908, col: 5, offset: 28771},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 761, col: 5, offset: 24290},
+																					pos: position{line: 774, col: 5, offset: 24743},
 																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 5, offset: 24290},
+																						pos: position{line: 774, col: 5, offset: 24743},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 5, offset: 24290},
+																								pos:   position{line: 774, col: 5, offset: 24743},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 16, offset: 24301},
+																									pos: position{line: 774, col: 16, offset: 24754},
 																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 16, offset: 24301},
+																										pos: position{line: 774, col: 16, offset: 24754},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 761, col: 16, offset: 24301},
+																												pos:        position{line: 774, col: 16, offset: 24754},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 761, col: 22, offset: 24307},
+																												pos: position{line: 774, col: 22, offset: 24760},
 																												expr: &litMatcher{
-																													pos:        position{line: 761, col: 22, offset: 24307},
+																													pos:        position{line: 774, col: 22, offset: 24760},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5952,12 +5952,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 763, col: 8, offset: 24391},
+																								pos: position{line: 776, col: 8, offset: 24844},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -6008,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 896, col: 5, offset: 28348},
+																				pos: position{line: 909, col: 5, offset: 28801},
 																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -6027,39 +6027,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 911, col: 5, offset: 28659},
+											pos: position{line: 924, col: 5, offset: 29112},
 											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 911, col: 5, offset: 28659},
+												pos: position{line: 924, col: 5, offset: 29112},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 911, col: 5, offset: 28659},
+														pos:   position{line: 924, col: 5, offset: 29112},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24827},
+															pos: position{line: 789, col: 5, offset: 25280},
 															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24827},
+																pos: position{line: 789, col: 5, offset: 25280},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24827},
+																		pos:   position{line: 789, col: 5, offset: 25280},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24838},
+																			pos: position{line: 789, col: 16, offset: 25291},
 																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 776, col: 16, offset: 24838},
+																				pos: position{line: 789, col: 16, offset: 25291},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24838},
+																						pos:        position{line: 789, col: 16, offset: 25291},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 776, col: 23, offset: 24845},
+																						pos: position{line: 789, col: 23, offset: 25298},
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 23, offset: 24845},
+																							pos:        position{line: 789, col: 23, offset: 25298},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6070,12 +6070,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24929},
+																		pos: position{line: 791, col: 8, offset: 25382},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -6126,56 +6126,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 912, col: 5, offset: 28698},
+														pos: position{line: 925, col: 5, offset: 29151},
 														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 915, col: 5, offset: 28790},
+														pos:   position{line: 928, col: 5, offset: 29243},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 930, col: 5, offset: 29188},
+															pos: position{line: 943, col: 5, offset: 29641},
 															expr: &actionExpr{
-																pos: position{line: 930, col: 6, offset: 29189},
+																pos: position{line: 943, col: 6, offset: 29642},
 																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 930, col: 6, offset: 29189},
+																	pos: position{line: 943, col: 6, offset: 29642},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 930, col: 6, offset: 29189},
+																			pos: position{line: 943, col: 6, offset: 29642},
 																			expr: &choiceExpr{
-																				pos: position{line: 923, col: 5, offset: 29030},
+																				pos: position{line: 936, col: 5, offset: 29483},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 923, col: 5, offset: 29030},
+																						pos: position{line: 936, col: 5, offset: 29483},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 923, col: 5, offset: 29030},
+																								pos:   position{line: 936, col: 5, offset: 29483},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 5, offset: 24827},
+																									pos: position{line: 789, col: 5, offset: 25280},
 																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 776, col: 5, offset: 24827},
+																										pos: position{line: 789, col: 5, offset: 25280},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 776, col: 5, offset: 24827},
+																												pos:   position{line: 789, col: 5, offset: 25280},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 776, col: 16, offset: 24838},
+																													pos: position{line: 789, col: 16, offset: 25291},
 																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 776, col: 16, offset: 24838},
+																														pos: position{line: 789, col: 16, offset: 25291},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 776, col: 16, offset: 24838},
+																																pos:        position{line: 789, col: 16, offset: 25291},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 776, col: 23, offset: 24845},
+																																pos: position{line: 789, col: 23, offset: 25298},
 																																expr: &litMatcher{
-																																	pos:        position{line: 776, col: 23, offset: 24845},
+																																	pos:        position{line: 789, col: 23, offset: 25298},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6186,12 +6186,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 778, col: 8, offset: 24929},
+																												pos: position{line: 791, col: 8, offset: 25382},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -6242,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 924, col: 5, offset: 29061},
+																								pos: position{line: 937, col: 5, offset: 29514},
 																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 931, col: 5, offset: 29219},
+																			pos:   position{line: 944, col: 5, offset: 29672},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -6337,44 +6337,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 916, col: 5, offset: 28824},
+														pos:   position{line: 929, col: 5, offset: 29277},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 916, col: 9, offset: 28828},
+															pos: position{line: 929, col: 9, offset: 29281},
 															expr: &choiceExpr{
-																pos: position{line: 923, col: 5, offset: 29030},
+																pos: position{line: 936, col: 5, offset: 29483},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 923, col: 5, offset: 29030},
+																		pos: position{line: 936, col: 5, offset: 29483},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 923, col: 5, offset: 29030},
+																				pos:   position{line: 936, col: 5, offset: 29483},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24827},
+																					pos: position{line: 789, col: 5, offset: 25280},
 																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24827},
+																						pos: position{line: 789, col: 5, offset: 25280},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24827},
+																								pos:   position{line: 789, col: 5, offset: 25280},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24838},
+																									pos: position{line: 789, col: 16, offset: 25291},
 																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 776, col: 16, offset: 24838},
+																										pos: position{line: 789, col: 16, offset: 25291},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 776, col: 16, offset: 24838},
+																												pos:        position{line: 789, col: 16, offset: 25291},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 776, col: 23, offset: 24845},
+																												pos: position{line: 789, col: 23, offset: 25298},
 																												expr: &litMatcher{
-																													pos:        position{line: 776, col: 23, offset: 24845},
+																													pos:        position{line: 789, col: 23, offset: 25298},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6385,12 +6385,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24929},
+																								pos: position{line: 791, col: 8, offset: 25382},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -6441,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 924, col: 5, offset: 29061},
+																				pos: position{line: 937, col: 5, offset: 29514},
 																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -6460,39 +6460,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 939, col: 5, offset: 29374},
+											pos: position{line: 952, col: 5, offset: 29827},
 											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 939, col: 5, offset: 29374},
+												pos: position{line: 952, col: 5, offset: 29827},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 939, col: 5, offset: 29374},
+														pos:   position{line: 952, col: 5, offset: 29827},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25303},
+															pos: position{line: 803, col: 5, offset: 25756},
 															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25303},
+																pos: position{line: 803, col: 5, offset: 25756},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25303},
+																		pos:   position{line: 803, col: 5, offset: 25756},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25314},
+																			pos: position{line: 803, col: 16, offset: 25767},
 																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25314},
+																				pos: position{line: 803, col: 16, offset: 25767},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25314},
+																						pos:        position{line: 803, col: 16, offset: 25767},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25321},
+																						pos: position{line: 803, col: 23, offset: 25774},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25321},
+																							pos:        position{line: 803, col: 23, offset: 25774},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6503,12 +6503,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25405},
+																		pos: position{line: 805, col: 8, offset: 25858},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -6559,56 +6559,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 940, col: 5, offset: 29413},
+														pos: position{line: 953, col: 5, offset: 29866},
 														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 943, col: 5, offset: 29505},
+														pos:   position{line: 956, col: 5, offset: 29958},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 958, col: 5, offset: 29903},
+															pos: position{line: 971, col: 5, offset: 30356},
 															expr: &actionExpr{
-																pos: position{line: 958, col: 6, offset: 29904},
+																pos: position{line: 971, col: 6, offset: 30357},
 																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 958, col: 6, offset: 29904},
+																	pos: position{line: 971, col: 6, offset: 30357},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 958, col: 6, offset: 29904},
+																			pos: position{line: 971, col: 6, offset: 30357},
 																			expr: &choiceExpr{
-																				pos: position{line: 951, col: 5, offset: 29745},
+																				pos: position{line: 964, col: 5, offset: 30198},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 951, col: 5, offset: 29745},
+																						pos: position{line: 964, col: 5, offset: 30198},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 951, col: 5, offset: 29745},
+																								pos:   position{line: 964, col: 5, offset: 30198},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25303},
+																									pos: position{line: 803, col: 5, offset: 25756},
 																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25303},
+																										pos: position{line: 803, col: 5, offset: 25756},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25303},
+																												pos:   position{line: 803, col: 5, offset: 25756},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25314},
+																													pos: position{line: 803, col: 16, offset: 25767},
 																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25314},
+																														pos: position{line: 803, col: 16, offset: 25767},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25314},
+																																pos:        position{line: 803, col: 16, offset: 25767},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25321},
+																																pos: position{line: 803, col: 23, offset: 25774},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25321},
+																																	pos:        position{line: 803, col: 23, offset: 25774},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6619,12 +6619,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25405},
+																												pos: position{line: 805, col: 8, offset: 25858},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -6675,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 952, col: 5, offset: 29776},
+																								pos: position{line: 965, col: 5, offset: 30229},
 																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 959, col: 5, offset: 29934},
+																			pos:   position{line: 972, col: 5, offset: 30387},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -6770,44 +6770,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 944, col: 5, offset: 29539},
+														pos:   position{line: 957, col: 5, offset: 29992},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 944, col: 9, offset: 29543},
+															pos: position{line: 957, col: 9, offset: 29996},
 															expr: &choiceExpr{
-																pos: position{line: 951, col: 5, offset: 29745},
+																pos: position{line: 964, col: 5, offset: 30198},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 951, col: 5, offset: 29745},
+																		pos: position{line: 964, col: 5, offset: 30198},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 951, col: 5, offset: 29745},
+																				pos:   position{line: 964, col: 5, offset: 30198},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25303},
+																					pos: position{line: 803, col: 5, offset: 25756},
 																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25303},
+																						pos: position{line: 803, col: 5, offset: 25756},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25303},
+																								pos:   position{line: 803, col: 5, offset: 25756},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25314},
+																									pos: position{line: 803, col: 16, offset: 25767},
 																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25314},
+																										pos: position{line: 803, col: 16, offset: 25767},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25314},
+																												pos:        position{line: 803, col: 16, offset: 25767},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25321},
+																												pos: position{line: 803, col: 23, offset: 25774},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25321},
+																													pos:        position{line: 803, col: 23, offset: 25774},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6818,12 +6818,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25405},
+																								pos: position{line: 805, col: 8, offset: 25858},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -6874,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 952, col: 5, offset: 29776},
+																				pos: position{line: 965, col: 5, offset: 30229},
 																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -6893,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 990, col: 5, offset: 30817},
+											pos: position{line: 1003, col: 5, offset: 31270},
 											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 990, col: 5, offset: 30817},
+												pos: position{line: 1003, col: 5, offset: 31270},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 990, col: 5, offset: 30817},
+														pos:   position{line: 1003, col: 5, offset: 31270},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 997, col: 5, offset: 31076},
+															pos: position{line: 1010, col: 5, offset: 31529},
 															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 997, col: 5, offset: 31076},
+																pos: position{line: 1010, col: 5, offset: 31529},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 997, col: 5, offset: 31076},
+																		pos: position{line: 1010, col: 5, offset: 31529},
 																		expr: &actionExpr{
-																			pos: position{line: 684, col: 14, offset: 21681},
+																			pos: position{line: 697, col: 14, offset: 22134},
 																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
-																				pos: position{line: 684, col: 14, offset: 21681},
+																				pos: position{line: 697, col: 14, offset: 22134},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 684, col: 21, offset: 21688},
+																						pos: position{line: 697, col: 21, offset: 22141},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -6978,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 998, col: 5, offset: 31091},
+																		pos:        position{line: 1011, col: 5, offset: 31544},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 999, col: 5, offset: 31101},
+																		pos:   position{line: 1012, col: 5, offset: 31554},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89540},
+																			pos: position{line: 2836, col: 14, offset: 89993},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89540},
+																				pos: position{line: 2836, col: 14, offset: 89993},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89540},
+																					pos:        position{line: 2836, col: 14, offset: 89993},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -7044,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 991, col: 5, offset: 30854},
+														pos:   position{line: 1004, col: 5, offset: 31307},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 991, col: 16, offset: 30865},
+															pos: position{line: 1004, col: 16, offset: 31318},
 															expr: &choiceExpr{
-																pos: position{line: 991, col: 17, offset: 30866},
+																pos: position{line: 1004, col: 17, offset: 31319},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 997, col: 5, offset: 31076},
+																		pos: position{line: 1010, col: 5, offset: 31529},
 																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 997, col: 5, offset: 31076},
+																			pos: position{line: 1010, col: 5, offset: 31529},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 997, col: 5, offset: 31076},
+																					pos: position{line: 1010, col: 5, offset: 31529},
 																					expr: &actionExpr{
-																						pos: position{line: 684, col: 14, offset: 21681},
+																						pos: position{line: 697, col: 14, offset: 22134},
 																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
-																							pos: position{line: 684, col: 14, offset: 21681},
+																							pos: position{line: 697, col: 14, offset: 22134},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2890, col: 11, offset: 91281},
+																									pos: position{line: 2903, col: 11, offset: 91734},
 																									expr: &anyMatcher{
-																										line: 2890, col: 13, offset: 91283,
+																										line: 2903, col: 13, offset: 91736,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 684, col: 21, offset: 21688},
+																									pos: position{line: 697, col: 21, offset: 22141},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -7128,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 998, col: 5, offset: 31091},
+																					pos:        position{line: 1011, col: 5, offset: 31544},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 999, col: 5, offset: 31101},
+																					pos:   position{line: 1012, col: 5, offset: 31554},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89540},
+																						pos: position{line: 2836, col: 14, offset: 89993},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89540},
+																							pos: position{line: 2836, col: 14, offset: 89993},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89540},
+																								pos:        position{line: 2836, col: 14, offset: 89993},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1805, col: 5, offset: 58302},
+																		pos: position{line: 1818, col: 5, offset: 58755},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1805, col: 5, offset: 58302},
+																			pos: position{line: 1818, col: 5, offset: 58755},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1805, col: 5, offset: 58302},
+																					pos:   position{line: 1818, col: 5, offset: 58755},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89540},
+																						pos: position{line: 2836, col: 14, offset: 89993},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89540},
+																							pos: position{line: 2836, col: 14, offset: 89993},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89540},
+																								pos:        position{line: 2836, col: 14, offset: 89993},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1806, col: 5, offset: 58326},
+																					pos: position{line: 1819, col: 5, offset: 58779},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -7269,28 +7269,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1012, col: 5, offset: 31366},
+											pos: position{line: 1025, col: 5, offset: 31819},
 											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 1012, col: 5, offset: 31366},
+												pos: position{line: 1025, col: 5, offset: 31819},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1012, col: 5, offset: 31366},
+														pos:   position{line: 1025, col: 5, offset: 31819},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25072},
+															pos: position{line: 796, col: 5, offset: 25525},
 															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25072},
+																pos: position{line: 796, col: 5, offset: 25525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25072},
+																		pos:   position{line: 796, col: 5, offset: 25525},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25083},
+																			pos: position{line: 796, col: 16, offset: 25536},
 																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 783, col: 16, offset: 25083},
+																				pos:        position{line: 796, col: 16, offset: 25536},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7298,12 +7298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25160},
+																		pos: position{line: 798, col: 8, offset: 25613},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -7354,35 +7354,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1013, col: 5, offset: 31402},
+														pos:   position{line: 1026, col: 5, offset: 31855},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1023, col: 5, offset: 31670},
+															pos: position{line: 1036, col: 5, offset: 32123},
 															expr: &actionExpr{
-																pos: position{line: 1023, col: 6, offset: 31671},
+																pos: position{line: 1036, col: 6, offset: 32124},
 																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1023, col: 6, offset: 31671},
+																	pos: position{line: 1036, col: 6, offset: 32124},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1023, col: 6, offset: 31671},
+																			pos: position{line: 1036, col: 6, offset: 32124},
 																			expr: &choiceExpr{
-																				pos: position{line: 1020, col: 26, offset: 31619},
+																				pos: position{line: 1033, col: 26, offset: 32072},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 783, col: 5, offset: 25072},
+																						pos: position{line: 796, col: 5, offset: 25525},
 																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 783, col: 5, offset: 25072},
+																							pos: position{line: 796, col: 5, offset: 25525},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 783, col: 5, offset: 25072},
+																									pos:   position{line: 796, col: 5, offset: 25525},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 783, col: 16, offset: 25083},
+																										pos: position{line: 796, col: 16, offset: 25536},
 																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25083},
+																											pos:        position{line: 796, col: 16, offset: 25536},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7390,12 +7390,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 785, col: 8, offset: 25160},
+																									pos: position{line: 798, col: 8, offset: 25613},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -7445,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1024, col: 5, offset: 31698},
+																			pos:   position{line: 1037, col: 5, offset: 32151},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -7534,27 +7534,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1014, col: 5, offset: 31433},
+														pos:   position{line: 1027, col: 5, offset: 31886},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1014, col: 9, offset: 31437},
+															pos: position{line: 1027, col: 9, offset: 31890},
 															expr: &choiceExpr{
-																pos: position{line: 1020, col: 26, offset: 31619},
+																pos: position{line: 1033, col: 26, offset: 32072},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 783, col: 5, offset: 25072},
+																		pos: position{line: 796, col: 5, offset: 25525},
 																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 5, offset: 25072},
+																			pos: position{line: 796, col: 5, offset: 25525},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 783, col: 5, offset: 25072},
+																					pos:   position{line: 796, col: 5, offset: 25525},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 783, col: 16, offset: 25083},
+																						pos: position{line: 796, col: 16, offset: 25536},
 																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25083},
+																							pos:        position{line: 796, col: 16, offset: 25536},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7562,12 +7562,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 785, col: 8, offset: 25160},
+																					pos: position{line: 798, col: 8, offset: 25613},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -7630,39 +7630,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1032, col: 5, offset: 31861},
+											pos: position{line: 1045, col: 5, offset: 32314},
 											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1032, col: 5, offset: 31861},
+												pos: position{line: 1045, col: 5, offset: 32314},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1032, col: 5, offset: 31861},
+														pos:   position{line: 1045, col: 5, offset: 32314},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25555},
+															pos: position{line: 810, col: 5, offset: 26008},
 															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25555},
+																pos: position{line: 810, col: 5, offset: 26008},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25555},
+																		pos:   position{line: 810, col: 5, offset: 26008},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25566},
+																			pos: position{line: 810, col: 16, offset: 26019},
 																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25566},
+																				pos: position{line: 810, col: 16, offset: 26019},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25566},
+																						pos:        position{line: 810, col: 16, offset: 26019},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25573},
+																						pos: position{line: 810, col: 23, offset: 26026},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25573},
+																							pos:        position{line: 810, col: 23, offset: 26026},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7673,12 +7673,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25657},
+																		pos: position{line: 812, col: 8, offset: 26110},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -7729,56 +7729,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1033, col: 5, offset: 31904},
+														pos: position{line: 1046, col: 5, offset: 32357},
 														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1036, col: 5, offset: 31996},
+														pos:   position{line: 1049, col: 5, offset: 32449},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1051, col: 5, offset: 32426},
+															pos: position{line: 1064, col: 5, offset: 32879},
 															expr: &actionExpr{
-																pos: position{line: 1051, col: 6, offset: 32427},
+																pos: position{line: 1064, col: 6, offset: 32880},
 																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1051, col: 6, offset: 32427},
+																	pos: position{line: 1064, col: 6, offset: 32880},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1051, col: 6, offset: 32427},
+																			pos: position{line: 1064, col: 6, offset: 32880},
 																			expr: &choiceExpr{
-																				pos: position{line: 1044, col: 5, offset: 32260},
+																				pos: position{line: 1057, col: 5, offset: 32713},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1044, col: 5, offset: 32260},
+																						pos: position{line: 1057, col: 5, offset: 32713},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1044, col: 5, offset: 32260},
+																								pos:   position{line: 1057, col: 5, offset: 32713},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25555},
+																									pos: position{line: 810, col: 5, offset: 26008},
 																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25555},
+																										pos: position{line: 810, col: 5, offset: 26008},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25555},
+																												pos:   position{line: 810, col: 5, offset: 26008},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25566},
+																													pos: position{line: 810, col: 16, offset: 26019},
 																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25566},
+																														pos: position{line: 810, col: 16, offset: 26019},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25566},
+																																pos:        position{line: 810, col: 16, offset: 26019},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25573},
+																																pos: position{line: 810, col: 23, offset: 26026},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25573},
+																																	pos:        position{line: 810, col: 23, offset: 26026},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7789,12 +7789,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25657},
+																												pos: position{line: 812, col: 8, offset: 26110},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -7845,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1045, col: 5, offset: 32295},
+																								pos: position{line: 1058, col: 5, offset: 32748},
 																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1052, col: 5, offset: 32461},
+																			pos:   position{line: 1065, col: 5, offset: 32914},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -7940,44 +7940,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1037, col: 5, offset: 32034},
+														pos:   position{line: 1050, col: 5, offset: 32487},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1037, col: 9, offset: 32038},
+															pos: position{line: 1050, col: 9, offset: 32491},
 															expr: &choiceExpr{
-																pos: position{line: 1044, col: 5, offset: 32260},
+																pos: position{line: 1057, col: 5, offset: 32713},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1044, col: 5, offset: 32260},
+																		pos: position{line: 1057, col: 5, offset: 32713},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1044, col: 5, offset: 32260},
+																				pos:   position{line: 1057, col: 5, offset: 32713},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25555},
+																					pos: position{line: 810, col: 5, offset: 26008},
 																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25555},
+																						pos: position{line: 810, col: 5, offset: 26008},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25555},
+																								pos:   position{line: 810, col: 5, offset: 26008},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25566},
+																									pos: position{line: 810, col: 16, offset: 26019},
 																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25566},
+																										pos: position{line: 810, col: 16, offset: 26019},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25566},
+																												pos:        position{line: 810, col: 16, offset: 26019},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25573},
+																												pos: position{line: 810, col: 23, offset: 26026},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25573},
+																													pos:        position{line: 810, col: 23, offset: 26026},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7988,12 +7988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25657},
+																								pos: position{line: 812, col: 8, offset: 26110},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -8044,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1045, col: 5, offset: 32295},
+																				pos: position{line: 1058, col: 5, offset: 32748},
 																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -8063,39 +8063,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1060, col: 5, offset: 32612},
+											pos: position{line: 1073, col: 5, offset: 33065},
 											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1060, col: 5, offset: 32612},
+												pos: position{line: 1073, col: 5, offset: 33065},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1060, col: 5, offset: 32612},
+														pos:   position{line: 1073, col: 5, offset: 33065},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25805},
+															pos: position{line: 817, col: 5, offset: 26258},
 															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25805},
+																pos: position{line: 817, col: 5, offset: 26258},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25805},
+																		pos:   position{line: 817, col: 5, offset: 26258},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25816},
+																			pos: position{line: 817, col: 16, offset: 26269},
 																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25816},
+																				pos: position{line: 817, col: 16, offset: 26269},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25816},
+																						pos:        position{line: 817, col: 16, offset: 26269},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25823},
+																						pos: position{line: 817, col: 23, offset: 26276},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25823},
+																							pos:        position{line: 817, col: 23, offset: 26276},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8106,12 +8106,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25907},
+																		pos: position{line: 819, col: 8, offset: 26360},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -8162,56 +8162,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1061, col: 5, offset: 32649},
+														pos: position{line: 1074, col: 5, offset: 33102},
 														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1064, col: 5, offset: 32741},
+														pos:   position{line: 1077, col: 5, offset: 33194},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1079, col: 4, offset: 33122},
+															pos: position{line: 1092, col: 4, offset: 33575},
 															expr: &actionExpr{
-																pos: position{line: 1079, col: 5, offset: 33123},
+																pos: position{line: 1092, col: 5, offset: 33576},
 																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1079, col: 5, offset: 33123},
+																	pos: position{line: 1092, col: 5, offset: 33576},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1079, col: 5, offset: 33123},
+																			pos: position{line: 1092, col: 5, offset: 33576},
 																			expr: &choiceExpr{
-																				pos: position{line: 1072, col: 5, offset: 32969},
+																				pos: position{line: 1085, col: 5, offset: 33422},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1072, col: 5, offset: 32969},
+																						pos: position{line: 1085, col: 5, offset: 33422},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1072, col: 5, offset: 32969},
+																								pos:   position{line: 1085, col: 5, offset: 33422},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25805},
+																									pos: position{line: 817, col: 5, offset: 26258},
 																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25805},
+																										pos: position{line: 817, col: 5, offset: 26258},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25805},
+																												pos:   position{line: 817, col: 5, offset: 26258},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25816},
+																													pos: position{line: 817, col: 16, offset: 26269},
 																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25816},
+																														pos: position{line: 817, col: 16, offset: 26269},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25816},
+																																pos:        position{line: 817, col: 16, offset: 26269},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25823},
+																																pos: position{line: 817, col: 23, offset: 26276},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25823},
+																																	pos:        position{line: 817, col: 23, offset: 26276},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8222,12 +8222,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25907},
+																												pos: position{line: 819, col: 8, offset: 26360},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -8278,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1073, col: 5, offset: 32998},
+																								pos: position{line: 1086, col: 5, offset: 33451},
 																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1080, col: 5, offset: 33151},
+																			pos:   position{line: 1093, col: 5, offset: 33604},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -8373,44 +8373,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1065, col: 5, offset: 32773},
+														pos:   position{line: 1078, col: 5, offset: 33226},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1065, col: 9, offset: 32777},
+															pos: position{line: 1078, col: 9, offset: 33230},
 															expr: &choiceExpr{
-																pos: position{line: 1072, col: 5, offset: 32969},
+																pos: position{line: 1085, col: 5, offset: 33422},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1072, col: 5, offset: 32969},
+																		pos: position{line: 1085, col: 5, offset: 33422},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1072, col: 5, offset: 32969},
+																				pos:   position{line: 1085, col: 5, offset: 33422},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25805},
+																					pos: position{line: 817, col: 5, offset: 26258},
 																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25805},
+																						pos: position{line: 817, col: 5, offset: 26258},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25805},
+																								pos:   position{line: 817, col: 5, offset: 26258},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25816},
+																									pos: position{line: 817, col: 16, offset: 26269},
 																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25816},
+																										pos: position{line: 817, col: 16, offset: 26269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25816},
+																												pos:        position{line: 817, col: 16, offset: 26269},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25823},
+																												pos: position{line: 817, col: 23, offset: 26276},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25823},
+																													pos:        position{line: 817, col: 23, offset: 26276},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8421,12 +8421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25907},
+																								pos: position{line: 819, col: 8, offset: 26360},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -8477,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1073, col: 5, offset: 32998},
+																				pos: position{line: 1086, col: 5, offset: 33451},
 																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -8496,39 +8496,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1088, col: 5, offset: 33306},
+											pos: position{line: 1101, col: 5, offset: 33759},
 											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1088, col: 5, offset: 33306},
+												pos: position{line: 1101, col: 5, offset: 33759},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1088, col: 5, offset: 33306},
+														pos:   position{line: 1101, col: 5, offset: 33759},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 811, col: 5, offset: 26051},
+															pos: position{line: 824, col: 5, offset: 26504},
 															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 811, col: 5, offset: 26051},
+																pos: position{line: 824, col: 5, offset: 26504},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 811, col: 5, offset: 26051},
+																		pos:   position{line: 824, col: 5, offset: 26504},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 16, offset: 26062},
+																			pos: position{line: 824, col: 16, offset: 26515},
 																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 16, offset: 26062},
+																				pos: position{line: 824, col: 16, offset: 26515},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 811, col: 16, offset: 26062},
+																						pos:        position{line: 824, col: 16, offset: 26515},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 811, col: 23, offset: 26069},
+																						pos: position{line: 824, col: 23, offset: 26522},
 																						expr: &litMatcher{
-																							pos:        position{line: 811, col: 23, offset: 26069},
+																							pos:        position{line: 824, col: 23, offset: 26522},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8539,12 +8539,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 813, col: 8, offset: 26153},
+																		pos: position{line: 826, col: 8, offset: 26606},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -8595,56 +8595,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1089, col: 5, offset: 33345},
+														pos: position{line: 1102, col: 5, offset: 33798},
 														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1092, col: 5, offset: 33437},
+														pos:   position{line: 1105, col: 5, offset: 33890},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1107, col: 4, offset: 33834},
+															pos: position{line: 1120, col: 4, offset: 34287},
 															expr: &actionExpr{
-																pos: position{line: 1107, col: 5, offset: 33835},
+																pos: position{line: 1120, col: 5, offset: 34288},
 																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1107, col: 5, offset: 33835},
+																	pos: position{line: 1120, col: 5, offset: 34288},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1107, col: 5, offset: 33835},
+																			pos: position{line: 1120, col: 5, offset: 34288},
 																			expr: &choiceExpr{
-																				pos: position{line: 1100, col: 5, offset: 33677},
+																				pos: position{line: 1113, col: 5, offset: 34130},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1100, col: 5, offset: 33677},
+																						pos: position{line: 1113, col: 5, offset: 34130},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1100, col: 5, offset: 33677},
+																								pos:   position{line: 1113, col: 5, offset: 34130},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 5, offset: 26051},
+																									pos: position{line: 824, col: 5, offset: 26504},
 																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 5, offset: 26051},
+																										pos: position{line: 824, col: 5, offset: 26504},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 811, col: 5, offset: 26051},
+																												pos:   position{line: 824, col: 5, offset: 26504},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 811, col: 16, offset: 26062},
+																													pos: position{line: 824, col: 16, offset: 26515},
 																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 811, col: 16, offset: 26062},
+																														pos: position{line: 824, col: 16, offset: 26515},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 811, col: 16, offset: 26062},
+																																pos:        position{line: 824, col: 16, offset: 26515},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 811, col: 23, offset: 26069},
+																																pos: position{line: 824, col: 23, offset: 26522},
 																																expr: &litMatcher{
-																																	pos:        position{line: 811, col: 23, offset: 26069},
+																																	pos:        position{line: 824, col: 23, offset: 26522},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8655,12 +8655,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 813, col: 8, offset: 26153},
+																												pos: position{line: 826, col: 8, offset: 26606},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -8711,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1101, col: 5, offset: 33708},
+																								pos: position{line: 1114, col: 5, offset: 34161},
 																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1108, col: 5, offset: 33865},
+																			pos:   position{line: 1121, col: 5, offset: 34318},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -8806,44 +8806,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1093, col: 5, offset: 33471},
+														pos:   position{line: 1106, col: 5, offset: 33924},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1093, col: 9, offset: 33475},
+															pos: position{line: 1106, col: 9, offset: 33928},
 															expr: &choiceExpr{
-																pos: position{line: 1100, col: 5, offset: 33677},
+																pos: position{line: 1113, col: 5, offset: 34130},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1100, col: 5, offset: 33677},
+																		pos: position{line: 1113, col: 5, offset: 34130},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1100, col: 5, offset: 33677},
+																				pos:   position{line: 1113, col: 5, offset: 34130},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 811, col: 5, offset: 26051},
+																					pos: position{line: 824, col: 5, offset: 26504},
 																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 811, col: 5, offset: 26051},
+																						pos: position{line: 824, col: 5, offset: 26504},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 811, col: 5, offset: 26051},
+																								pos:   position{line: 824, col: 5, offset: 26504},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 16, offset: 26062},
+																									pos: position{line: 824, col: 16, offset: 26515},
 																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 16, offset: 26062},
+																										pos: position{line: 824, col: 16, offset: 26515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 811, col: 16, offset: 26062},
+																												pos:        position{line: 824, col: 16, offset: 26515},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 811, col: 23, offset: 26069},
+																												pos: position{line: 824, col: 23, offset: 26522},
 																												expr: &litMatcher{
-																													pos:        position{line: 811, col: 23, offset: 26069},
+																													pos:        position{line: 824, col: 23, offset: 26522},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8854,12 +8854,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 813, col: 8, offset: 26153},
+																								pos: position{line: 826, col: 8, offset: 26606},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -8910,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1101, col: 5, offset: 33708},
+																				pos: position{line: 1114, col: 5, offset: 34161},
 																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2718, col: 18, offset: 86523},
+											pos: position{line: 2731, col: 18, offset: 86976},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2719, col: 9, offset: 86533},
+												pos: position{line: 2732, col: 9, offset: 86986},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2719, col: 9, offset: 86533},
+														pos: position{line: 2732, col: 9, offset: 86986},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2719, col: 9, offset: 86533},
+																pos:        position{line: 2732, col: 9, offset: 86986},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2719, col: 15, offset: 86539},
+																pos: position{line: 2732, col: 15, offset: 86992},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2720, col: 11, offset: 86572},
+														pos: position{line: 2733, col: 11, offset: 87025},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2720, col: 12, offset: 86573},
+																pos: position{line: 2733, col: 12, offset: 87026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 12, offset: 86573},
+																		pos:        position{line: 2733, col: 12, offset: 87026},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 20, offset: 86581},
+																		pos:        position{line: 2733, col: 20, offset: 87034},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 30, offset: 86591},
+																		pos:        position{line: 2733, col: 30, offset: 87044},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 38, offset: 86599},
+																		pos:        position{line: 2733, col: 38, offset: 87052},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 48, offset: 86609},
+																		pos:        position{line: 2733, col: 48, offset: 87062},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2720, col: 56, offset: 86617},
+																		pos:        position{line: 2733, col: 56, offset: 87070},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2720, col: 65, offset: 86626},
+																pos: position{line: 2733, col: 65, offset: 87079},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2720, col: 76, offset: 86637},
+																pos: position{line: 2733, col: 76, offset: 87090},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 5, offset: 83459},
+											pos: position{line: 2622, col: 5, offset: 83912},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2609, col: 5, offset: 83459},
+												pos: position{line: 2622, col: 5, offset: 83912},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2615, col: 19, offset: 83616},
+														pos:        position{line: 2628, col: 19, offset: 84069},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2615, col: 26, offset: 83623},
+														pos: position{line: 2628, col: 26, offset: 84076},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2610, col: 5, offset: 83483},
+														pos:   position{line: 2623, col: 5, offset: 83936},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2610, col: 11, offset: 83489},
+															pos: position{line: 2623, col: 11, offset: 83942},
 															expr: &choiceExpr{
-																pos: position{line: 2610, col: 12, offset: 83490},
+																pos: position{line: 2623, col: 12, offset: 83943},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 684, col: 14, offset: 21681},
+																		pos: position{line: 697, col: 14, offset: 22134},
 																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
-																			pos: position{line: 684, col: 14, offset: 21681},
+																			pos: position{line: 697, col: 14, offset: 22134},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91281},
+																					pos: position{line: 2903, col: 11, offset: 91734},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91283,
+																						line: 2903, col: 13, offset: 91736,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 684, col: 21, offset: 21688},
+																					pos: position{line: 697, col: 21, offset: 22141},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2622, col: 5, offset: 83735},
+																		pos: position{line: 2635, col: 5, offset: 84188},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2622, col: 5, offset: 83735},
+																			pos: position{line: 2635, col: 5, offset: 84188},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2622, col: 5, offset: 83735},
+																					pos: position{line: 2635, col: 5, offset: 84188},
 																					expr: &choiceExpr{
-																						pos: position{line: 2619, col: 22, offset: 83696},
+																						pos: position{line: 2632, col: 22, offset: 84149},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2615, col: 19, offset: 83616},
+																								pos: position{line: 2628, col: 19, offset: 84069},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2615, col: 19, offset: 83616},
+																										pos:        position{line: 2628, col: 19, offset: 84069},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2615, col: 26, offset: 83623},
+																										pos: position{line: 2628, col: 26, offset: 84076},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91345},
+																										pos: position{line: 2908, col: 8, offset: 91798},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91118},
+																												pos: position{line: 2895, col: 12, offset: 91571},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91119},
+																													pos: position{line: 2895, col: 13, offset: 91572},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91119},
+																															pos:        position{line: 2895, col: 13, offset: 91572},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91126},
+																															pos:        position{line: 2895, col: 20, offset: 91579},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91135},
+																															pos:        position{line: 2895, col: 29, offset: 91588},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91295},
+																												pos: position{line: 2905, col: 8, offset: 91748},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91296,
+																													line: 2905, col: 9, offset: 91749,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2623, col: 5, offset: 83758},
+																					pos:   position{line: 2636, col: 5, offset: 84211},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2624, col: 9, offset: 83776},
+																						pos: position{line: 2637, col: 9, offset: 84229},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2624, col: 10, offset: 83777},
+																								pos: position{line: 2637, col: 10, offset: 84230},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2624, col: 10, offset: 83777},
+																									pos:   position{line: 2637, col: 10, offset: 84230},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2624, col: 17, offset: 83784},
+																										pos: position{line: 2637, col: 17, offset: 84237},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2632, col: 21, offset: 83980},
+																												pos: position{line: 2645, col: 21, offset: 84433},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2632, col: 21, offset: 83980},
+																													pos: position{line: 2645, col: 21, offset: 84433},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2632, col: 21, offset: 83980},
+																															pos:   position{line: 2645, col: 21, offset: 84433},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2632, col: 27, offset: 83986},
+																																pos: position{line: 2645, col: 27, offset: 84439},
 																																expr: &actionExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84061},
+																																	pos: position{line: 2650, col: 5, offset: 84514},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2637, col: 5, offset: 84061},
+																																		pos: position{line: 2650, col: 5, offset: 84514},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2637, col: 5, offset: 84061},
+																																				pos:        position{line: 2650, col: 5, offset: 84514},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2637, col: 9, offset: 84065},
+																																				pos: position{line: 2650, col: 9, offset: 84518},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2873, col: 10, offset: 90947},
+																																					pos: position{line: 2886, col: 10, offset: 91400},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2873, col: 10, offset: 90947},
+																																						pos:        position{line: 2886, col: 10, offset: 91400},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2637, col: 16, offset: 84072},
+																																				pos:   position{line: 2650, col: 16, offset: 84525},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2643, col: 5, offset: 84272},
+																																					pos: position{line: 2656, col: 5, offset: 84725},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2643, col: 5, offset: 84272},
+																																						pos:   position{line: 2656, col: 5, offset: 84725},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84281},
+																																							pos: position{line: 2656, col: 14, offset: 84734},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2643, col: 14, offset: 84281},
+																																								pos: position{line: 2656, col: 14, offset: 84734},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2643, col: 14, offset: 84281},
+																																									pos:        position{line: 2656, col: 14, offset: 84734},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2895, col: 8, offset: 91345},
+																															pos: position{line: 2908, col: 8, offset: 91798},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2882, col: 12, offset: 91118},
+																																	pos: position{line: 2895, col: 12, offset: 91571},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2882, col: 13, offset: 91119},
+																																		pos: position{line: 2895, col: 13, offset: 91572},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 13, offset: 91119},
+																																				pos:        position{line: 2895, col: 13, offset: 91572},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 20, offset: 91126},
+																																				pos:        position{line: 2895, col: 20, offset: 91579},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 29, offset: 91135},
+																																				pos:        position{line: 2895, col: 29, offset: 91588},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2892, col: 8, offset: 91295},
+																																	pos: position{line: 2905, col: 8, offset: 91748},
 																																	expr: &anyMatcher{
-																																		line: 2892, col: 9, offset: 91296,
+																																		line: 2905, col: 9, offset: 91749,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2649, col: 24, offset: 84417},
+																												pos: position{line: 2662, col: 24, offset: 84870},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2649, col: 24, offset: 84417},
+																													pos:   position{line: 2662, col: 24, offset: 84870},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2649, col: 30, offset: 84423},
+																														pos: position{line: 2662, col: 30, offset: 84876},
 																														expr: &actionExpr{
-																															pos: position{line: 2654, col: 5, offset: 84499},
+																															pos: position{line: 2667, col: 5, offset: 84952},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2654, col: 5, offset: 84499},
+																																pos: position{line: 2667, col: 5, offset: 84952},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84499},
+																																		pos: position{line: 2667, col: 5, offset: 84952},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2619, col: 22, offset: 83696},
+																																			pos: position{line: 2632, col: 22, offset: 84149},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2615, col: 19, offset: 83616},
+																																					pos: position{line: 2628, col: 19, offset: 84069},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2615, col: 19, offset: 83616},
+																																							pos:        position{line: 2628, col: 19, offset: 84069},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2615, col: 26, offset: 83623},
+																																							pos: position{line: 2628, col: 26, offset: 84076},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2873, col: 10, offset: 90947},
+																																								pos: position{line: 2886, col: 10, offset: 91400},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2873, col: 10, offset: 90947},
+																																									pos:        position{line: 2886, col: 10, offset: 91400},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91345},
+																																							pos: position{line: 2908, col: 8, offset: 91798},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91118},
+																																									pos: position{line: 2895, col: 12, offset: 91571},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91119},
+																																										pos: position{line: 2895, col: 13, offset: 91572},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91119},
+																																												pos:        position{line: 2895, col: 13, offset: 91572},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91126},
+																																												pos:        position{line: 2895, col: 20, offset: 91579},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91135},
+																																												pos:        position{line: 2895, col: 29, offset: 91588},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91295},
+																																									pos: position{line: 2905, col: 8, offset: 91748},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91296,
+																																										line: 2905, col: 9, offset: 91749,
 																																									},
 																																								},
 																																							},
@@ -9572,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2892, col: 8, offset: 91295},
+																																					pos: position{line: 2905, col: 8, offset: 91748},
 																																					expr: &anyMatcher{
-																																						line: 2892, col: 9, offset: 91296,
+																																						line: 2905, col: 9, offset: 91749,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84522},
+																																		pos: position{line: 2668, col: 5, offset: 84975},
 																																		expr: &actionExpr{
-																																			pos: position{line: 684, col: 14, offset: 21681},
+																																			pos: position{line: 697, col: 14, offset: 22134},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
-																																				pos: position{line: 684, col: 14, offset: 21681},
+																																				pos: position{line: 697, col: 14, offset: 22134},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2890, col: 11, offset: 91281},
+																																						pos: position{line: 2903, col: 11, offset: 91734},
 																																						expr: &anyMatcher{
-																																							line: 2890, col: 13, offset: 91283,
+																																							line: 2903, col: 13, offset: 91736,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 684, col: 21, offset: 21688},
+																																						pos: position{line: 697, col: 21, offset: 22141},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90947},
+																																							pos: position{line: 2886, col: 10, offset: 91400},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90947},
+																																								pos:        position{line: 2886, col: 10, offset: 91400},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91345},
+																																						pos: position{line: 2908, col: 8, offset: 91798},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91118},
+																																								pos: position{line: 2895, col: 12, offset: 91571},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91119},
+																																									pos: position{line: 2895, col: 13, offset: 91572},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91119},
+																																											pos:        position{line: 2895, col: 13, offset: 91572},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91126},
+																																											pos:        position{line: 2895, col: 20, offset: 91579},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91135},
+																																											pos:        position{line: 2895, col: 29, offset: 91588},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91295},
+																																								pos: position{line: 2905, col: 8, offset: 91748},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91296,
+																																									line: 2905, col: 9, offset: 91749,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 5, offset: 84537},
+																																		pos:   position{line: 2669, col: 5, offset: 84990},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2656, col: 12, offset: 84544},
+																																			pos: position{line: 2669, col: 12, offset: 84997},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 20, offset: 85008},
+																																				pos: position{line: 2686, col: 20, offset: 85461},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2673, col: 20, offset: 85008},
+																																					pos: position{line: 2686, col: 20, offset: 85461},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2673, col: 20, offset: 85008},
+																																						pos:        position{line: 2686, col: 20, offset: 85461},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2656, col: 31, offset: 84563},
+																																		pos:        position{line: 2669, col: 31, offset: 85016},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2656, col: 35, offset: 84567},
+																																		pos: position{line: 2669, col: 35, offset: 85020},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2873, col: 10, offset: 90947},
+																																			pos: position{line: 2886, col: 10, offset: 91400},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2873, col: 10, offset: 90947},
+																																				pos:        position{line: 2886, col: 10, offset: 91400},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 42, offset: 84574},
+																																		pos: position{line: 2669, col: 42, offset: 85027},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2882, col: 12, offset: 91118},
+																																			pos: position{line: 2895, col: 12, offset: 91571},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2882, col: 13, offset: 91119},
+																																				pos: position{line: 2895, col: 13, offset: 91572},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 13, offset: 91119},
+																																						pos:        position{line: 2895, col: 13, offset: 91572},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 20, offset: 91126},
+																																						pos:        position{line: 2895, col: 20, offset: 91579},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 29, offset: 91135},
+																																						pos:        position{line: 2895, col: 29, offset: 91588},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 51, offset: 84583},
+																																		pos:   position{line: 2669, col: 51, offset: 85036},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2662, col: 5, offset: 84742},
+																																			pos: position{line: 2675, col: 5, offset: 85195},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84752},
+																																				pos: position{line: 2676, col: 9, offset: 85205},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2663, col: 9, offset: 84752},
+																																					pos: position{line: 2676, col: 9, offset: 85205},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2663, col: 9, offset: 84752},
+																																							pos: position{line: 2676, col: 9, offset: 85205},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2619, col: 22, offset: 83696},
+																																								pos: position{line: 2632, col: 22, offset: 84149},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2615, col: 19, offset: 83616},
+																																										pos: position{line: 2628, col: 19, offset: 84069},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2615, col: 19, offset: 83616},
+																																												pos:        position{line: 2628, col: 19, offset: 84069},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2615, col: 26, offset: 83623},
+																																												pos: position{line: 2628, col: 26, offset: 84076},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2873, col: 10, offset: 90947},
+																																													pos: position{line: 2886, col: 10, offset: 91400},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2873, col: 10, offset: 90947},
+																																														pos:        position{line: 2886, col: 10, offset: 91400},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91345},
+																																												pos: position{line: 2908, col: 8, offset: 91798},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2882, col: 12, offset: 91118},
+																																														pos: position{line: 2895, col: 12, offset: 91571},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2882, col: 13, offset: 91119},
+																																															pos: position{line: 2895, col: 13, offset: 91572},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2892, col: 8, offset: 91295},
+																																														pos: position{line: 2905, col: 8, offset: 91748},
 																																														expr: &anyMatcher{
-																																															line: 2892, col: 9, offset: 91296,
+																																															line: 2905, col: 9, offset: 91749,
 																																														},
 																																													},
 																																												},
@@ -9801,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91295},
+																																										pos: position{line: 2905, col: 8, offset: 91748},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91296,
+																																											line: 2905, col: 9, offset: 91749,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84779},
+																																							pos: position{line: 2677, col: 9, offset: 85232},
 																																							expr: &actionExpr{
-																																								pos: position{line: 684, col: 14, offset: 21681},
+																																								pos: position{line: 697, col: 14, offset: 22134},
 																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
-																																									pos: position{line: 684, col: 14, offset: 21681},
+																																									pos: position{line: 697, col: 14, offset: 22134},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2890, col: 11, offset: 91281},
+																																											pos: position{line: 2903, col: 11, offset: 91734},
 																																											expr: &anyMatcher{
-																																												line: 2890, col: 13, offset: 91283,
+																																												line: 2903, col: 13, offset: 91736,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 684, col: 21, offset: 21688},
+																																											pos: position{line: 697, col: 21, offset: 22141},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90947},
+																																												pos: position{line: 2886, col: 10, offset: 91400},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90947},
+																																													pos:        position{line: 2886, col: 10, offset: 91400},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91345},
+																																											pos: position{line: 2908, col: 8, offset: 91798},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91118},
+																																													pos: position{line: 2895, col: 12, offset: 91571},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91119},
+																																														pos: position{line: 2895, col: 13, offset: 91572},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91295},
+																																													pos: position{line: 2905, col: 8, offset: 91748},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91296,
+																																														line: 2905, col: 9, offset: 91749,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84798},
+																																							pos: position{line: 2678, col: 9, offset: 85251},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2665, col: 11, offset: 84800},
+																																								pos: position{line: 2678, col: 11, offset: 85253},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2665, col: 11, offset: 84800},
+																																										pos:   position{line: 2678, col: 11, offset: 85253},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2665, col: 18, offset: 84807},
+																																											pos: position{line: 2678, col: 18, offset: 85260},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2673, col: 20, offset: 85008},
+																																												pos: position{line: 2686, col: 20, offset: 85461},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2673, col: 20, offset: 85008},
+																																													pos: position{line: 2686, col: 20, offset: 85461},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2673, col: 20, offset: 85008},
+																																														pos:        position{line: 2686, col: 20, offset: 85461},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2665, col: 37, offset: 84826},
+																																										pos:        position{line: 2678, col: 37, offset: 85279},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2666, col: 9, offset: 84839},
+																																							pos:   position{line: 2679, col: 9, offset: 85292},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84848},
+																																								pos: position{line: 2679, col: 18, offset: 85301},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2666, col: 18, offset: 84848},
+																																									pos: position{line: 2679, col: 18, offset: 85301},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2666, col: 18, offset: 84848},
+																																										pos:        position{line: 2679, col: 18, offset: 85301},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2668, col: 12, offset: 84910},
+																																							pos: position{line: 2681, col: 12, offset: 85363},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91345},
+																																								pos: position{line: 2908, col: 8, offset: 91798},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2882, col: 12, offset: 91118},
+																																										pos: position{line: 2895, col: 12, offset: 91571},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2882, col: 13, offset: 91119},
+																																											pos: position{line: 2895, col: 13, offset: 91572},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 13, offset: 91119},
+																																													pos:        position{line: 2895, col: 13, offset: 91572},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 20, offset: 91126},
+																																													pos:        position{line: 2895, col: 20, offset: 91579},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 29, offset: 91135},
+																																													pos:        position{line: 2895, col: 29, offset: 91588},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91295},
+																																										pos: position{line: 2905, col: 8, offset: 91748},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91296,
+																																											line: 2905, col: 9, offset: 91749,
 																																										},
 																																									},
 																																								},
@@ -9989,24 +9989,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 684, col: 14, offset: 21681},
+																								pos: position{line: 697, col: 14, offset: 22134},
 																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
-																									pos: position{line: 684, col: 14, offset: 21681},
+																									pos: position{line: 697, col: 14, offset: 22134},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91281},
+																											pos: position{line: 2903, col: 11, offset: 91734},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91283,
+																												line: 2903, col: 13, offset: 91736,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 684, col: 21, offset: 21688},
+																											pos: position{line: 697, col: 21, offset: 22141},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 22, offset: 83696},
+														pos: position{line: 2632, col: 22, offset: 84149},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83616},
+																pos: position{line: 2628, col: 19, offset: 84069},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83616},
+																		pos:        position{line: 2628, col: 19, offset: 84069},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83623},
+																		pos: position{line: 2628, col: 26, offset: 84076},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79918},
+												pos: position{line: 2496, col: 22, offset: 80371},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80139},
+														pos:        position{line: 2501, col: 31, offset: 80592},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80144},
+														pos: position{line: 2501, col: 36, offset: 80597},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80145},
+															pos:        position{line: 2501, col: 37, offset: 80598},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79945},
+														pos:   position{line: 2496, col: 49, offset: 80398},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89473},
+																pos: position{line: 2832, col: 13, offset: 89926},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89473},
+																	pos:        position{line: 2832, col: 13, offset: 89926},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -10223,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1237, col: 5, offset: 38283},
+											pos: position{line: 1250, col: 5, offset: 38736},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1237, col: 5, offset: 38283},
+												pos: position{line: 1250, col: 5, offset: 38736},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1237, col: 5, offset: 38283},
+														pos: position{line: 1250, col: 5, offset: 38736},
 														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1240, col: 5, offset: 38341},
+														pos:   position{line: 1253, col: 5, offset: 38794},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1246, col: 5, offset: 38441},
+															pos: position{line: 1259, col: 5, offset: 38894},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1246, col: 5, offset: 38441},
+																pos: position{line: 1259, col: 5, offset: 38894},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1254, col: 30, offset: 38700},
+																		pos:        position{line: 1267, col: 30, offset: 39153},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1254, col: 36, offset: 38706},
+																		pos: position{line: 1267, col: 36, offset: 39159},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,42 +10292,42 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1246, col: 30, offset: 38466},
+																		pos:   position{line: 1259, col: 30, offset: 38919},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1256, col: 27, offset: 38744},
+																			pos: position{line: 1269, col: 27, offset: 39197},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 1256, col: 27, offset: 38744},
+																				pos: position{line: 1269, col: 27, offset: 39197},
 																				expr: &seqExpr{
-																					pos: position{line: 1256, col: 28, offset: 38745},
+																					pos: position{line: 1269, col: 28, offset: 39198},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1256, col: 28, offset: 38745},
+																							pos: position{line: 1269, col: 28, offset: 39198},
 																							expr: &seqExpr{
-																								pos: position{line: 1254, col: 30, offset: 38700},
+																								pos: position{line: 1267, col: 30, offset: 39153},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1254, col: 30, offset: 38700},
+																										pos:        position{line: 1267, col: 30, offset: 39153},
 																										val:        "---",
 																										ignoreCase: false,
 																										want:       "\"---\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1254, col: 36, offset: 38706},
+																										pos: position{line: 1267, col: 36, offset: 39159},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91345},
+																										pos: position{line: 2908, col: 8, offset: 91798},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91118},
+																												pos: position{line: 2895, col: 12, offset: 91571},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91119},
+																													pos: position{line: 2895, col: 13, offset: 91572},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91119},
+																															pos:        position{line: 2895, col: 13, offset: 91572},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91126},
+																															pos:        position{line: 2895, col: 20, offset: 91579},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91135},
+																															pos:        position{line: 2895, col: 29, offset: 91588},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91295},
+																												pos: position{line: 2905, col: 8, offset: 91748},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91296,
+																													line: 2905, col: 9, offset: 91749,
 																												},
 																											},
 																										},
@@ -10377,9 +10377,9 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1256, col: 54, offset: 38771},
+																							pos: position{line: 1269, col: 54, offset: 39224},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1256, col: 54, offset: 38771},
+																								pos:        position{line: 1269, col: 54, offset: 39224},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10419,18 +10419,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1254, col: 30, offset: 38700},
+																		pos:        position{line: 1267, col: 30, offset: 39153},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1254, col: 36, offset: 38706},
+																		pos: position{line: 1267, col: 36, offset: 39159},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,15 +10469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1247, col: 5, offset: 38529},
+																		pos: position{line: 1260, col: 5, offset: 38982},
 																		run: (*parser).callonDocumentFragment1422,
 																	},
 																},
@@ -10525,27 +10525,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1213, col: 23, offset: 37389},
+											pos: position{line: 1226, col: 23, offset: 37842},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1213, col: 23, offset: 37389},
+												pos: position{line: 1226, col: 23, offset: 37842},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37357},
+														pos:        position{line: 1224, col: 32, offset: 37810},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1213, col: 51, offset: 37417},
+														pos:   position{line: 1226, col: 51, offset: 37870},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1213, col: 56, offset: 37422},
+															pos: position{line: 1226, col: 56, offset: 37875},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1213, col: 56, offset: 37422},
+																pos: position{line: 1226, col: 56, offset: 37875},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1213, col: 56, offset: 37422},
+																	pos:        position{line: 1226, col: 56, offset: 37875},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10555,7 +10555,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37357},
+														pos:        position{line: 1224, col: 32, offset: 37810},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2877, col: 11, offset: 91008},
+												pos: position{line: 2890, col: 11, offset: 91461},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 11, offset: 91008},
+													pos: position{line: 2890, col: 11, offset: 91461},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 11, offset: 91008},
+														pos:        position{line: 2890, col: 11, offset: 91461},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91118},
+												pos: position{line: 2895, col: 12, offset: 91571},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91119},
+													pos: position{line: 2895, col: 13, offset: 91572},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91119},
+															pos:        position{line: 2895, col: 13, offset: 91572},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91126},
+															pos:        position{line: 2895, col: 20, offset: 91579},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91135},
+															pos:        position{line: 2895, col: 29, offset: 91588},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9944},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90947},
+													pos: position{line: 2886, col: 10, offset: 91400},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90947},
+														pos:        position{line: 2886, col: 10, offset: 91400},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10489},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90947},
+											pos: position{line: 2886, col: 10, offset: 91400},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90947},
+												pos:        position{line: 2886, col: 10, offset: 91400},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2895, col: 8, offset: 91345},
+										pos: position{line: 2908, col: 8, offset: 91798},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91118},
+												pos: position{line: 2895, col: 12, offset: 91571},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91119},
+													pos: position{line: 2895, col: 13, offset: 91572},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91119},
+															pos:        position{line: 2895, col: 13, offset: 91572},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91126},
+															pos:        position{line: 2895, col: 20, offset: 91579},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91135},
+															pos:        position{line: 2895, col: 29, offset: 91588},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91295},
+												pos: position{line: 2905, col: 8, offset: 91748},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91296,
+													line: 2905, col: 9, offset: 91749,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79464},
+										pos: position{line: 2483, col: 5, offset: 79917},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79464},
+													pos: position{line: 2483, col: 5, offset: 79917},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79540},
+													pos:   position{line: 2486, col: 5, offset: 79993},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79558},
+														pos: position{line: 2487, col: 9, offset: 80011},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79559},
+															pos:        position{line: 2487, col: 10, offset: 80012},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90947},
+										pos: position{line: 2886, col: 10, offset: 91400},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90947},
+											pos:        position{line: 2886, col: 10, offset: 91400},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10981,35 +10981,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 643, col: 5, offset: 20301},
+										pos: position{line: 656, col: 5, offset: 20754},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 643, col: 5, offset: 20301},
+											pos: position{line: 656, col: 5, offset: 20754},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 643, col: 5, offset: 20301},
+													pos: position{line: 656, col: 5, offset: 20754},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 646, col: 5, offset: 20373},
+													pos:   position{line: 659, col: 5, offset: 20826},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 646, col: 14, offset: 20382},
+														pos: position{line: 659, col: 14, offset: 20835},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20511},
+																pos: position{line: 665, col: 5, offset: 20964},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20511},
+																	pos: position{line: 665, col: 5, offset: 20964},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20511},
+																			pos:        position{line: 665, col: 5, offset: 20964},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 13, offset: 20519},
+																			pos:   position{line: 665, col: 13, offset: 20972},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11041,7 +11041,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 32, offset: 20538},
+																			pos:        position{line: 665, col: 32, offset: 20991},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11050,19 +11050,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 5, offset: 20779},
+																pos: position{line: 672, col: 5, offset: 21232},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 5, offset: 20779},
+																	pos: position{line: 672, col: 5, offset: 21232},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 5, offset: 20779},
+																			pos:        position{line: 672, col: 5, offset: 21232},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 9, offset: 20783},
+																			pos:   position{line: 672, col: 9, offset: 21236},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11094,7 +11094,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 28, offset: 20802},
+																			pos:        position{line: 672, col: 28, offset: 21255},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11103,19 +11103,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 20983},
+																pos: position{line: 678, col: 25, offset: 21436},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 20983},
+																	pos: position{line: 678, col: 25, offset: 21436},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 20983},
+																			pos:        position{line: 678, col: 25, offset: 21436},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 37, offset: 20995},
+																			pos:   position{line: 678, col: 37, offset: 21448},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11147,33 +11147,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 56, offset: 21014},
+																			pos:   position{line: 678, col: 56, offset: 21467},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 62, offset: 21020},
+																				pos: position{line: 678, col: 62, offset: 21473},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11181,12 +11181,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11203,7 +11203,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 78, offset: 21036},
+																			pos:        position{line: 678, col: 78, offset: 21489},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11212,19 +11212,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 669, col: 25, offset: 21154},
+																pos: position{line: 682, col: 25, offset: 21607},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 669, col: 25, offset: 21154},
+																	pos: position{line: 682, col: 25, offset: 21607},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 669, col: 25, offset: 21154},
+																			pos:        position{line: 682, col: 25, offset: 21607},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 38, offset: 21167},
+																			pos:   position{line: 682, col: 38, offset: 21620},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11256,33 +11256,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 57, offset: 21186},
+																			pos:   position{line: 682, col: 57, offset: 21639},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 669, col: 63, offset: 21192},
+																				pos: position{line: 682, col: 63, offset: 21645},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11290,12 +11290,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11312,7 +11312,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 669, col: 79, offset: 21208},
+																			pos:        position{line: 682, col: 79, offset: 21661},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11397,27 +11397,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1213, col: 23, offset: 37389},
+																						pos: position{line: 1226, col: 23, offset: 37842},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1213, col: 23, offset: 37389},
+																							pos: position{line: 1226, col: 23, offset: 37842},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1211, col: 32, offset: 37357},
+																									pos:        position{line: 1224, col: 32, offset: 37810},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1213, col: 51, offset: 37417},
+																									pos:   position{line: 1226, col: 51, offset: 37870},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1213, col: 56, offset: 37422},
+																										pos: position{line: 1226, col: 56, offset: 37875},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1213, col: 56, offset: 37422},
+																											pos: position{line: 1226, col: 56, offset: 37875},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1213, col: 56, offset: 37422},
+																												pos:        position{line: 1226, col: 56, offset: 37875},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11427,7 +11427,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1211, col: 32, offset: 37357},
+																									pos:        position{line: 1224, col: 32, offset: 37810},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11436,35 +11436,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 643, col: 5, offset: 20301},
+																							pos: position{line: 656, col: 5, offset: 20754},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 643, col: 5, offset: 20301},
+																									pos: position{line: 656, col: 5, offset: 20754},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 646, col: 5, offset: 20373},
+																									pos:   position{line: 659, col: 5, offset: 20826},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 646, col: 14, offset: 20382},
+																										pos: position{line: 659, col: 14, offset: 20835},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20511},
+																												pos: position{line: 665, col: 5, offset: 20964},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20511},
+																													pos: position{line: 665, col: 5, offset: 20964},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20511},
+																															pos:        position{line: 665, col: 5, offset: 20964},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 13, offset: 20519},
+																															pos:   position{line: 665, col: 13, offset: 20972},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11496,7 +11496,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 32, offset: 20538},
+																															pos:        position{line: 665, col: 32, offset: 20991},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11505,19 +11505,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 659, col: 5, offset: 20779},
+																												pos: position{line: 672, col: 5, offset: 21232},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 659, col: 5, offset: 20779},
+																													pos: position{line: 672, col: 5, offset: 21232},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 659, col: 5, offset: 20779},
+																															pos:        position{line: 672, col: 5, offset: 21232},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 659, col: 9, offset: 20783},
+																															pos:   position{line: 672, col: 9, offset: 21236},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11549,7 +11549,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 659, col: 28, offset: 20802},
+																															pos:        position{line: 672, col: 28, offset: 21255},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11558,19 +11558,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 665, col: 25, offset: 20983},
+																												pos: position{line: 678, col: 25, offset: 21436},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 25, offset: 20983},
+																													pos: position{line: 678, col: 25, offset: 21436},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 25, offset: 20983},
+																															pos:        position{line: 678, col: 25, offset: 21436},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 37, offset: 20995},
+																															pos:   position{line: 678, col: 37, offset: 21448},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11602,33 +11602,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 56, offset: 21014},
+																															pos:   position{line: 678, col: 56, offset: 21467},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 665, col: 62, offset: 21020},
+																																pos: position{line: 678, col: 62, offset: 21473},
 																																expr: &actionExpr{
-																																	pos: position{line: 673, col: 17, offset: 21315},
+																																	pos: position{line: 686, col: 17, offset: 21768},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 673, col: 17, offset: 21315},
+																																		pos: position{line: 686, col: 17, offset: 21768},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 673, col: 17, offset: 21315},
+																																				pos:        position{line: 686, col: 17, offset: 21768},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 673, col: 21, offset: 21319},
+																																				pos:   position{line: 686, col: 21, offset: 21772},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 673, col: 28, offset: 21326},
+																																					pos: position{line: 686, col: 28, offset: 21779},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 673, col: 28, offset: 21326},
+																																							pos: position{line: 686, col: 28, offset: 21779},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 673, col: 28, offset: 21326},
+																																								pos:        position{line: 686, col: 28, offset: 21779},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11636,12 +11636,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 675, col: 9, offset: 21380},
+																																							pos: position{line: 688, col: 9, offset: 21833},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 675, col: 9, offset: 21380},
+																																								pos: position{line: 688, col: 9, offset: 21833},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 675, col: 9, offset: 21380},
+																																									pos:        position{line: 688, col: 9, offset: 21833},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11658,7 +11658,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 78, offset: 21036},
+																															pos:        position{line: 678, col: 78, offset: 21489},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11667,19 +11667,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 669, col: 25, offset: 21154},
+																												pos: position{line: 682, col: 25, offset: 21607},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 25, offset: 21154},
+																													pos: position{line: 682, col: 25, offset: 21607},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 25, offset: 21154},
+																															pos:        position{line: 682, col: 25, offset: 21607},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 38, offset: 21167},
+																															pos:   position{line: 682, col: 38, offset: 21620},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11711,33 +11711,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 57, offset: 21186},
+																															pos:   position{line: 682, col: 57, offset: 21639},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 669, col: 63, offset: 21192},
+																																pos: position{line: 682, col: 63, offset: 21645},
 																																expr: &actionExpr{
-																																	pos: position{line: 673, col: 17, offset: 21315},
+																																	pos: position{line: 686, col: 17, offset: 21768},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 673, col: 17, offset: 21315},
+																																		pos: position{line: 686, col: 17, offset: 21768},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 673, col: 17, offset: 21315},
+																																				pos:        position{line: 686, col: 17, offset: 21768},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 673, col: 21, offset: 21319},
+																																				pos:   position{line: 686, col: 21, offset: 21772},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 673, col: 28, offset: 21326},
+																																					pos: position{line: 686, col: 28, offset: 21779},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 673, col: 28, offset: 21326},
+																																							pos: position{line: 686, col: 28, offset: 21779},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 673, col: 28, offset: 21326},
+																																								pos:        position{line: 686, col: 28, offset: 21779},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11745,12 +11745,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 675, col: 9, offset: 21380},
+																																							pos: position{line: 688, col: 9, offset: 21833},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 675, col: 9, offset: 21380},
+																																								pos: position{line: 688, col: 9, offset: 21833},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 675, col: 9, offset: 21380},
+																																									pos:        position{line: 688, col: 9, offset: 21833},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11767,7 +11767,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 669, col: 79, offset: 21208},
+																															pos:        position{line: 682, col: 79, offset: 21661},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90947},
+													pos: position{line: 2886, col: 10, offset: 91400},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90947},
+														pos:        position{line: 2886, col: 10, offset: 91400},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91345},
+												pos: position{line: 2908, col: 8, offset: 91798},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91118},
+														pos: position{line: 2895, col: 12, offset: 91571},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91119},
+															pos: position{line: 2895, col: 13, offset: 91572},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91119},
+																	pos:        position{line: 2895, col: 13, offset: 91572},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91126},
+																	pos:        position{line: 2895, col: 20, offset: 91579},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91135},
+																	pos:        position{line: 2895, col: 29, offset: 91588},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91295},
+														pos: position{line: 2905, col: 8, offset: 91748},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91296,
+															line: 2905, col: 9, offset: 91749,
 														},
 													},
 												},
@@ -11862,24 +11862,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 46, offset: 11509},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13074},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 88102},
+																				pos: position{line: 2780, col: 14, offset: 88555},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 88102},
+																					pos: position{line: 2780, col: 14, offset: 88555},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 88102},
+																						pos:        position{line: 2780, col: 14, offset: 88555},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2790, col: 5, offset: 88601},
+																				pos: position{line: 2803, col: 5, offset: 89054},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2791, col: 9, offset: 88611},
+																					pos: position{line: 2804, col: 9, offset: 89064},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 10, offset: 88612},
+																							pos:        position{line: 2804, col: 10, offset: 89065},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 13, offset: 88709},
+																							pos: position{line: 2806, col: 13, offset: 89162},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2793, col: 13, offset: 88709},
+																									pos: position{line: 2806, col: 13, offset: 89162},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2796, col: 13, offset: 88809},
+																									pos:        position{line: 2809, col: 13, offset: 89262},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2796, col: 19, offset: 88815},
+																							pos:        position{line: 2809, col: 19, offset: 89268},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2799, col: 13, offset: 88853},
+																							pos: position{line: 2812, col: 13, offset: 89306},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2799, col: 13, offset: 88853},
+																									pos: position{line: 2812, col: 13, offset: 89306},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2802, col: 14, offset: 88946},
+																									pos:        position{line: 2815, col: 14, offset: 89399},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2804, col: 12, offset: 88990},
+																							pos: position{line: 2817, col: 12, offset: 89443},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2804, col: 12, offset: 88990},
+																									pos:        position{line: 2817, col: 12, offset: 89443},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2804, col: 16, offset: 88994},
+																									pos: position{line: 2817, col: 16, offset: 89447},
 																									expr: &litMatcher{
-																										pos:        position{line: 2804, col: 17, offset: 88995},
+																										pos:        position{line: 2817, col: 17, offset: 89448},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12070,19 +12070,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20511},
+																					pos: position{line: 665, col: 5, offset: 20964},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20511},
+																							pos:        position{line: 665, col: 5, offset: 20964},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 13, offset: 20519},
+																							pos:   position{line: 665, col: 13, offset: 20972},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12114,7 +12114,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 32, offset: 20538},
+																							pos:        position{line: 665, col: 32, offset: 20991},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12123,19 +12123,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 659, col: 5, offset: 20779},
+																				pos: position{line: 672, col: 5, offset: 21232},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 659, col: 5, offset: 20779},
+																					pos: position{line: 672, col: 5, offset: 21232},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 659, col: 5, offset: 20779},
+																							pos:        position{line: 672, col: 5, offset: 21232},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 659, col: 9, offset: 20783},
+																							pos:   position{line: 672, col: 9, offset: 21236},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12167,7 +12167,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 659, col: 28, offset: 20802},
+																							pos:        position{line: 672, col: 28, offset: 21255},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12176,19 +12176,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 25, offset: 20983},
+																				pos: position{line: 678, col: 25, offset: 21436},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 25, offset: 20983},
+																					pos: position{line: 678, col: 25, offset: 21436},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 25, offset: 20983},
+																							pos:        position{line: 678, col: 25, offset: 21436},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 37, offset: 20995},
+																							pos:   position{line: 678, col: 37, offset: 21448},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12220,33 +12220,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 56, offset: 21014},
+																							pos:   position{line: 678, col: 56, offset: 21467},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 665, col: 62, offset: 21020},
+																								pos: position{line: 678, col: 62, offset: 21473},
 																								expr: &actionExpr{
-																									pos: position{line: 673, col: 17, offset: 21315},
+																									pos: position{line: 686, col: 17, offset: 21768},
 																									run: (*parser).callonBlockAttributes187,
 																									expr: &seqExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 673, col: 17, offset: 21315},
+																												pos:        position{line: 686, col: 17, offset: 21768},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 673, col: 21, offset: 21319},
+																												pos:   position{line: 686, col: 21, offset: 21772},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 673, col: 28, offset: 21326},
+																													pos: position{line: 686, col: 28, offset: 21779},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 673, col: 28, offset: 21326},
+																															pos: position{line: 686, col: 28, offset: 21779},
 																															run: (*parser).callonBlockAttributes192,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 673, col: 28, offset: 21326},
+																																pos:        position{line: 686, col: 28, offset: 21779},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12254,12 +12254,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 675, col: 9, offset: 21380},
+																															pos: position{line: 688, col: 9, offset: 21833},
 																															run: (*parser).callonBlockAttributes194,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 9, offset: 21380},
+																																	pos:        position{line: 688, col: 9, offset: 21833},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12276,7 +12276,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 78, offset: 21036},
+																							pos:        position{line: 678, col: 78, offset: 21489},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12285,19 +12285,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 669, col: 25, offset: 21154},
+																				pos: position{line: 682, col: 25, offset: 21607},
 																				run: (*parser).callonBlockAttributes198,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 25, offset: 21154},
+																					pos: position{line: 682, col: 25, offset: 21607},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 25, offset: 21154},
+																							pos:        position{line: 682, col: 25, offset: 21607},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 38, offset: 21167},
+																							pos:   position{line: 682, col: 38, offset: 21620},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12329,33 +12329,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 57, offset: 21186},
+																							pos:   position{line: 682, col: 57, offset: 21639},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 669, col: 63, offset: 21192},
+																								pos: position{line: 682, col: 63, offset: 21645},
 																								expr: &actionExpr{
-																									pos: position{line: 673, col: 17, offset: 21315},
+																									pos: position{line: 686, col: 17, offset: 21768},
 																									run: (*parser).callonBlockAttributes209,
 																									expr: &seqExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 673, col: 17, offset: 21315},
+																												pos:        position{line: 686, col: 17, offset: 21768},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 673, col: 21, offset: 21319},
+																												pos:   position{line: 686, col: 21, offset: 21772},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 673, col: 28, offset: 21326},
+																													pos: position{line: 686, col: 28, offset: 21779},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 673, col: 28, offset: 21326},
+																															pos: position{line: 686, col: 28, offset: 21779},
 																															run: (*parser).callonBlockAttributes214,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 673, col: 28, offset: 21326},
+																																pos:        position{line: 686, col: 28, offset: 21779},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12363,12 +12363,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 675, col: 9, offset: 21380},
+																															pos: position{line: 688, col: 9, offset: 21833},
 																															run: (*parser).callonBlockAttributes216,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 675, col: 9, offset: 21380},
+																																	pos:        position{line: 688, col: 9, offset: 21833},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12385,7 +12385,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 669, col: 79, offset: 21208},
+																							pos:        position{line: 682, col: 79, offset: 21661},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2812, col: 12, offset: 89255},
+																				pos: position{line: 2825, col: 12, offset: 89708},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 12, offset: 89255},
+																					pos:        position{line: 2825, col: 12, offset: 89708},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90947},
+													pos: position{line: 2886, col: 10, offset: 91400},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90947},
+														pos:        position{line: 2886, col: 10, offset: 91400},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91345},
+												pos: position{line: 2908, col: 8, offset: 91798},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91118},
+														pos: position{line: 2895, col: 12, offset: 91571},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91119},
+															pos: position{line: 2895, col: 13, offset: 91572},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91119},
+																	pos:        position{line: 2895, col: 13, offset: 91572},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91126},
+																	pos:        position{line: 2895, col: 20, offset: 91579},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91135},
+																	pos:        position{line: 2895, col: 29, offset: 91588},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91295},
+														pos: position{line: 2905, col: 8, offset: 91748},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91296,
+															line: 2905, col: 9, offset: 91749,
 														},
 													},
 												},
@@ -12467,24 +12467,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 46, offset: 11664},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90947},
+													pos: position{line: 2886, col: 10, offset: 91400},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90947},
+														pos:        position{line: 2886, col: 10, offset: 91400},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91345},
+												pos: position{line: 2908, col: 8, offset: 91798},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91118},
+														pos: position{line: 2895, col: 12, offset: 91571},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91119},
+															pos: position{line: 2895, col: 13, offset: 91572},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91119},
+																	pos:        position{line: 2895, col: 13, offset: 91572},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91126},
+																	pos:        position{line: 2895, col: 20, offset: 91579},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91135},
+																	pos:        position{line: 2895, col: 29, offset: 91588},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91295},
+														pos: position{line: 2905, col: 8, offset: 91748},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91296,
+															line: 2905, col: 9, offset: 91749,
 														},
 													},
 												},
@@ -12606,24 +12606,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 55, offset: 11797},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14561},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90947},
+											pos: position{line: 2886, col: 10, offset: 91400},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90947},
+												pos:        position{line: 2886, col: 10, offset: 91400},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13078,35 +13078,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 643, col: 5, offset: 20301},
+													pos: position{line: 656, col: 5, offset: 20754},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 643, col: 5, offset: 20301},
+														pos: position{line: 656, col: 5, offset: 20754},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 643, col: 5, offset: 20301},
+																pos: position{line: 656, col: 5, offset: 20754},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 646, col: 5, offset: 20373},
+																pos:   position{line: 659, col: 5, offset: 20826},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 646, col: 14, offset: 20382},
+																	pos: position{line: 659, col: 14, offset: 20835},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20511},
+																			pos: position{line: 665, col: 5, offset: 20964},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20511},
+																				pos: position{line: 665, col: 5, offset: 20964},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20511},
+																						pos:        position{line: 665, col: 5, offset: 20964},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 13, offset: 20519},
+																						pos:   position{line: 665, col: 13, offset: 20972},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13138,7 +13138,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 32, offset: 20538},
+																						pos:        position{line: 665, col: 32, offset: 20991},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13147,19 +13147,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 659, col: 5, offset: 20779},
+																			pos: position{line: 672, col: 5, offset: 21232},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 659, col: 5, offset: 20779},
+																				pos: position{line: 672, col: 5, offset: 21232},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 659, col: 5, offset: 20779},
+																						pos:        position{line: 672, col: 5, offset: 21232},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 9, offset: 20783},
+																						pos:   position{line: 672, col: 9, offset: 21236},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13191,7 +13191,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 659, col: 28, offset: 20802},
+																						pos:        position{line: 672, col: 28, offset: 21255},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13200,19 +13200,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 665, col: 25, offset: 20983},
+																			pos: position{line: 678, col: 25, offset: 21436},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 25, offset: 20983},
+																				pos: position{line: 678, col: 25, offset: 21436},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 25, offset: 20983},
+																						pos:        position{line: 678, col: 25, offset: 21436},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 37, offset: 20995},
+																						pos:   position{line: 678, col: 37, offset: 21448},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13244,33 +13244,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 56, offset: 21014},
+																						pos:   position{line: 678, col: 56, offset: 21467},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 665, col: 62, offset: 21020},
+																							pos: position{line: 678, col: 62, offset: 21473},
 																							expr: &actionExpr{
-																								pos: position{line: 673, col: 17, offset: 21315},
+																								pos: position{line: 686, col: 17, offset: 21768},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 673, col: 17, offset: 21315},
+																									pos: position{line: 686, col: 17, offset: 21768},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 673, col: 17, offset: 21315},
+																											pos:        position{line: 686, col: 17, offset: 21768},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 673, col: 21, offset: 21319},
+																											pos:   position{line: 686, col: 21, offset: 21772},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 673, col: 28, offset: 21326},
+																															pos:        position{line: 686, col: 28, offset: 21779},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13278,12 +13278,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 675, col: 9, offset: 21380},
+																														pos: position{line: 688, col: 9, offset: 21833},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 675, col: 9, offset: 21380},
+																															pos: position{line: 688, col: 9, offset: 21833},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 675, col: 9, offset: 21380},
+																																pos:        position{line: 688, col: 9, offset: 21833},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13300,7 +13300,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 78, offset: 21036},
+																						pos:        position{line: 678, col: 78, offset: 21489},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13309,19 +13309,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 669, col: 25, offset: 21154},
+																			pos: position{line: 682, col: 25, offset: 21607},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 669, col: 25, offset: 21154},
+																				pos: position{line: 682, col: 25, offset: 21607},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 669, col: 25, offset: 21154},
+																						pos:        position{line: 682, col: 25, offset: 21607},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 669, col: 38, offset: 21167},
+																						pos:   position{line: 682, col: 38, offset: 21620},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13353,33 +13353,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 669, col: 57, offset: 21186},
+																						pos:   position{line: 682, col: 57, offset: 21639},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 669, col: 63, offset: 21192},
+																							pos: position{line: 682, col: 63, offset: 21645},
 																							expr: &actionExpr{
-																								pos: position{line: 673, col: 17, offset: 21315},
+																								pos: position{line: 686, col: 17, offset: 21768},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 673, col: 17, offset: 21315},
+																									pos: position{line: 686, col: 17, offset: 21768},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 673, col: 17, offset: 21315},
+																											pos:        position{line: 686, col: 17, offset: 21768},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 673, col: 21, offset: 21319},
+																											pos:   position{line: 686, col: 21, offset: 21772},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 673, col: 28, offset: 21326},
+																															pos:        position{line: 686, col: 28, offset: 21779},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13387,12 +13387,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 675, col: 9, offset: 21380},
+																														pos: position{line: 688, col: 9, offset: 21833},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 675, col: 9, offset: 21380},
+																															pos: position{line: 688, col: 9, offset: 21833},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 675, col: 9, offset: 21380},
+																																pos:        position{line: 688, col: 9, offset: 21833},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13409,7 +13409,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 669, col: 79, offset: 21208},
+																						pos:        position{line: 682, col: 79, offset: 21661},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16143},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16286},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16450},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90947},
+													pos: position{line: 2886, col: 10, offset: 91400},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90947},
+														pos:        position{line: 2886, col: 10, offset: 91400},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16463},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13630,18 +13630,18 @@ var g = &grammar{
 							pos:   position{line: 542, col: 5, offset: 16822},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 550, col: 22, offset: 17110},
+								pos: position{line: 550, col: 22, offset: 17140},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 550, col: 22, offset: 17110},
+									pos: position{line: 550, col: 22, offset: 17140},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 550, col: 22, offset: 17110},
+											pos: position{line: 550, col: 22, offset: 17140},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90947},
+												pos: position{line: 2886, col: 10, offset: 91400},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90947},
+													pos:        position{line: 2886, col: 10, offset: 91400},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13650,9 +13650,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 550, col: 29, offset: 17117},
+											pos: position{line: 550, col: 29, offset: 17147},
 											expr: &charClassMatcher{
-												pos:        position{line: 550, col: 29, offset: 17117},
+												pos:        position{line: 550, col: 29, offset: 17147},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16855},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13686,29 +13686,464 @@ var g = &grammar{
 						&labeledExpr{
 							pos:   position{line: 544, col: 5, offset: 16867},
 							label: "value",
-							expr: &ruleRefExpr{
-								pos:  position{line: 544, col: 12, offset: 16874},
-								name: "AttributeValue",
+							expr: &choiceExpr{
+								pos: position{line: 544, col: 12, offset: 16874},
+								alternatives: []interface{}{
+									&ruleRefExpr{
+										pos:  position{line: 544, col: 12, offset: 16874},
+										name: "AttributeValue",
+									},
+									&actionExpr{
+										pos: position{line: 624, col: 5, offset: 19398},
+										run: (*parser).callonNamedAttribute18,
+										expr: &seqExpr{
+											pos: position{line: 624, col: 5, offset: 19398},
+											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 624, col: 5, offset: 19398},
+													expr: &actionExpr{
+														pos: position{line: 2886, col: 10, offset: 91400},
+														run: (*parser).callonNamedAttribute21,
+														expr: &charClassMatcher{
+															pos:        position{line: 2886, col: 10, offset: 91400},
+															val:        "[\\t ]",
+															chars:      []rune{'\t', ' '},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
+												&notExpr{
+													pos: position{line: 624, col: 12, offset: 19405},
+													expr: &litMatcher{
+														pos:        position{line: 624, col: 13, offset: 19406},
+														val:        "'",
+														ignoreCase: false,
+														want:       "\"'\"",
+													},
+												},
+												&notExpr{
+													pos: position{line: 624, col: 17, offset: 19410},
+													expr: &litMatcher{
+														pos:        position{line: 624, col: 18, offset: 19411},
+														val:        "\"",
+														ignoreCase: false,
+														want:       "\"\\\"\"",
+													},
+												},
+												&labeledExpr{
+													pos:   position{line: 625, col: 5, offset: 19434},
+													label: "elements",
+													expr: &oneOrMoreExpr{
+														pos: position{line: 625, col: 14, offset: 19443},
+														expr: &choiceExpr{
+															pos: position{line: 626, col: 9, offset: 19453},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 656, col: 5, offset: 20754},
+																	run: (*parser).callonNamedAttribute30,
+																	expr: &seqExpr{
+																		pos: position{line: 656, col: 5, offset: 20754},
+																		exprs: []interface{}{
+																			&andCodeExpr{
+																				pos: position{line: 656, col: 5, offset: 20754},
+																				run: (*parser).callonNamedAttribute32,
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 659, col: 5, offset: 20826},
+																				label: "element",
+																				expr: &choiceExpr{
+																					pos: position{line: 659, col: 14, offset: 20835},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 665, col: 5, offset: 20964},
+																							run: (*parser).callonNamedAttribute35,
+																							expr: &seqExpr{
+																								pos: position{line: 665, col: 5, offset: 20964},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 665, col: 5, offset: 20964},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 665, col: 13, offset: 20972},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonNamedAttribute39,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 665, col: 32, offset: 20991},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 672, col: 5, offset: 21232},
+																							run: (*parser).callonNamedAttribute45,
+																							expr: &seqExpr{
+																								pos: position{line: 672, col: 5, offset: 21232},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 672, col: 5, offset: 21232},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 672, col: 9, offset: 21236},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonNamedAttribute49,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 672, col: 28, offset: 21255},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 678, col: 25, offset: 21436},
+																							run: (*parser).callonNamedAttribute55,
+																							expr: &seqExpr{
+																								pos: position{line: 678, col: 25, offset: 21436},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 678, col: 25, offset: 21436},
+																										val:        "{counter:",
+																										ignoreCase: false,
+																										want:       "\"{counter:\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 678, col: 37, offset: 21448},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonNamedAttribute59,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 678, col: 56, offset: 21467},
+																										label: "start",
+																										expr: &zeroOrOneExpr{
+																											pos: position{line: 678, col: 62, offset: 21473},
+																											expr: &actionExpr{
+																												pos: position{line: 686, col: 17, offset: 21768},
+																												run: (*parser).callonNamedAttribute66,
+																												expr: &seqExpr{
+																													pos: position{line: 686, col: 17, offset: 21768},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 686, col: 17, offset: 21768},
+																															val:        ":",
+																															ignoreCase: false,
+																															want:       "\":\"",
+																														},
+																														&labeledExpr{
+																															pos:   position{line: 686, col: 21, offset: 21772},
+																															label: "start",
+																															expr: &choiceExpr{
+																																pos: position{line: 686, col: 28, offset: 21779},
+																																alternatives: []interface{}{
+																																	&actionExpr{
+																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		run: (*parser).callonNamedAttribute71,
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			val:        "[A-Za-z]",
+																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																			ignoreCase: false,
+																																			inverted:   false,
+																																		},
+																																	},
+																																	&actionExpr{
+																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		run: (*parser).callonNamedAttribute73,
+																																		expr: &oneOrMoreExpr{
+																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			expr: &charClassMatcher{
+																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				val:        "[0-9]",
+																																				ranges:     []rune{'0', '9'},
+																																				ignoreCase: false,
+																																				inverted:   false,
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 678, col: 78, offset: 21489},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 682, col: 25, offset: 21607},
+																							run: (*parser).callonNamedAttribute77,
+																							expr: &seqExpr{
+																								pos: position{line: 682, col: 25, offset: 21607},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 682, col: 25, offset: 21607},
+																										val:        "{counter2:",
+																										ignoreCase: false,
+																										want:       "\"{counter2:\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 682, col: 38, offset: 21620},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonNamedAttribute81,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 682, col: 57, offset: 21639},
+																										label: "start",
+																										expr: &zeroOrOneExpr{
+																											pos: position{line: 682, col: 63, offset: 21645},
+																											expr: &actionExpr{
+																												pos: position{line: 686, col: 17, offset: 21768},
+																												run: (*parser).callonNamedAttribute88,
+																												expr: &seqExpr{
+																													pos: position{line: 686, col: 17, offset: 21768},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 686, col: 17, offset: 21768},
+																															val:        ":",
+																															ignoreCase: false,
+																															want:       "\":\"",
+																														},
+																														&labeledExpr{
+																															pos:   position{line: 686, col: 21, offset: 21772},
+																															label: "start",
+																															expr: &choiceExpr{
+																																pos: position{line: 686, col: 28, offset: 21779},
+																																alternatives: []interface{}{
+																																	&actionExpr{
+																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		run: (*parser).callonNamedAttribute93,
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			val:        "[A-Za-z]",
+																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																			ignoreCase: false,
+																																			inverted:   false,
+																																		},
+																																	},
+																																	&actionExpr{
+																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		run: (*parser).callonNamedAttribute95,
+																																		expr: &oneOrMoreExpr{
+																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			expr: &charClassMatcher{
+																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				val:        "[0-9]",
+																																				ranges:     []rune{'0', '9'},
+																																				ignoreCase: false,
+																																				inverted:   false,
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 682, col: 79, offset: 21661},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+																&litMatcher{
+																	pos:        position{line: 626, col: 30, offset: 19474},
+																	val:        "{",
+																	ignoreCase: false,
+																	want:       "\"{\"",
+																},
+																&actionExpr{
+																	pos: position{line: 2886, col: 10, offset: 91400},
+																	run: (*parser).callonNamedAttribute100,
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		val:        "[\\t ]",
+																		chars:      []rune{'\t', ' '},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 628, col: 12, offset: 19559},
+																	run: (*parser).callonNamedAttribute102,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 628, col: 12, offset: 19559},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 628, col: 12, offset: 19559},
+																			val:        "[^\\r\\n,[]{ ]",
+																			chars:      []rune{'\r', '\n', ',', '[', ']', '{', ' '},
+																			ignoreCase: false,
+																			inverted:   true,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+								},
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 544, col: 28, offset: 16890},
+							pos: position{line: 544, col: 58, offset: 16920},
 							expr: &seqExpr{
-								pos: position{line: 544, col: 29, offset: 16891},
+								pos: position{line: 544, col: 59, offset: 16921},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 544, col: 29, offset: 16891},
+										pos:        position{line: 544, col: 59, offset: 16921},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 544, col: 33, offset: 16895},
+										pos: position{line: 544, col: 63, offset: 16925},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90947},
-											run: (*parser).callonNamedAttribute21,
+											pos: position{line: 2886, col: 10, offset: 91400},
+											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90947},
+												pos:        position{line: 2886, col: 10, offset: 91400},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13725,48 +14160,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 554, col: 1, offset: 17174},
+			pos:  position{line: 554, col: 1, offset: 17204},
 			expr: &actionExpr{
-				pos: position{line: 555, col: 5, offset: 17197},
+				pos: position{line: 555, col: 5, offset: 17227},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 555, col: 5, offset: 17197},
+					pos: position{line: 555, col: 5, offset: 17227},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 555, col: 5, offset: 17197},
+							pos:   position{line: 555, col: 5, offset: 17227},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 556, col: 9, offset: 17213},
+								pos: position{line: 556, col: 9, offset: 17243},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 9, offset: 17213},
+										pos:  position{line: 556, col: 9, offset: 17243},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17251},
+										pos:  position{line: 557, col: 11, offset: 17281},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 558, col: 11, offset: 17289},
+										pos:  position{line: 558, col: 11, offset: 17319},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 560, col: 5, offset: 17323},
+							pos: position{line: 560, col: 5, offset: 17353},
 							expr: &notExpr{
-								pos: position{line: 560, col: 7, offset: 17325},
+								pos: position{line: 560, col: 7, offset: 17355},
 								expr: &seqExpr{
-									pos: position{line: 560, col: 9, offset: 17327},
+									pos: position{line: 560, col: 9, offset: 17357},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 560, col: 9, offset: 17327},
+											pos: position{line: 560, col: 9, offset: 17357},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90947},
+												pos: position{line: 2886, col: 10, offset: 91400},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90947},
+													pos:        position{line: 2886, col: 10, offset: 91400},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13775,7 +14210,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 560, col: 16, offset: 17334},
+											pos:        position{line: 560, col: 16, offset: 17364},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13790,41 +14225,41 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 564, col: 1, offset: 17375},
+			pos:  position{line: 564, col: 1, offset: 17405},
 			expr: &actionExpr{
-				pos: position{line: 565, col: 5, offset: 17410},
+				pos: position{line: 565, col: 5, offset: 17440},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 565, col: 5, offset: 17410},
+					pos: position{line: 565, col: 5, offset: 17440},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 565, col: 5, offset: 17410},
+							pos:        position{line: 565, col: 5, offset: 17440},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 565, col: 9, offset: 17414},
+							pos: position{line: 565, col: 9, offset: 17444},
 							expr: &litMatcher{
-								pos:        position{line: 565, col: 10, offset: 17415},
+								pos:        position{line: 565, col: 10, offset: 17445},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 566, col: 5, offset: 17494},
+							pos:   position{line: 566, col: 5, offset: 17524},
 							label: "content",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 566, col: 13, offset: 17502},
+								pos: position{line: 566, col: 13, offset: 17532},
 								expr: &ruleRefExpr{
-									pos:  position{line: 566, col: 14, offset: 17503},
+									pos:  position{line: 566, col: 14, offset: 17533},
 									name: "SingleQuotedAttributeValueContent",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17543},
+							pos:        position{line: 567, col: 5, offset: 17573},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13835,25 +14270,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 574, col: 1, offset: 17664},
+			pos:  position{line: 574, col: 1, offset: 17694},
 			expr: &actionExpr{
-				pos: position{line: 575, col: 5, offset: 17706},
+				pos: position{line: 575, col: 5, offset: 17736},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 575, col: 5, offset: 17706},
+					pos:   position{line: 575, col: 5, offset: 17736},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 575, col: 14, offset: 17715},
+						pos: position{line: 575, col: 14, offset: 17745},
 						expr: &choiceExpr{
-							pos: position{line: 576, col: 9, offset: 17725},
+							pos: position{line: 576, col: 9, offset: 17755},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88102},
+									pos: position{line: 2780, col: 14, offset: 88555},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88102},
+										pos: position{line: 2780, col: 14, offset: 88555},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88102},
+											pos:        position{line: 2780, col: 14, offset: 88555},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13862,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90947},
+									pos: position{line: 2886, col: 10, offset: 91400},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90947},
+										pos:        position{line: 2886, col: 10, offset: 91400},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13873,39 +14308,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 578, col: 11, offset: 17761},
+									pos:  position{line: 578, col: 11, offset: 17791},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 643, col: 5, offset: 20301},
+									pos: position{line: 656, col: 5, offset: 20754},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 643, col: 5, offset: 20301},
+										pos: position{line: 656, col: 5, offset: 20754},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 643, col: 5, offset: 20301},
+												pos: position{line: 656, col: 5, offset: 20754},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 646, col: 5, offset: 20373},
+												pos:   position{line: 659, col: 5, offset: 20826},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 646, col: 14, offset: 20382},
+													pos: position{line: 659, col: 14, offset: 20835},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20511},
+															pos: position{line: 665, col: 5, offset: 20964},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20511},
+																pos: position{line: 665, col: 5, offset: 20964},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20511},
+																		pos:        position{line: 665, col: 5, offset: 20964},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 13, offset: 20519},
+																		pos:   position{line: 665, col: 13, offset: 20972},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -13937,7 +14372,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 32, offset: 20538},
+																		pos:        position{line: 665, col: 32, offset: 20991},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13946,19 +14381,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 5, offset: 20779},
+															pos: position{line: 672, col: 5, offset: 21232},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 5, offset: 20779},
+																pos: position{line: 672, col: 5, offset: 21232},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 5, offset: 20779},
+																		pos:        position{line: 672, col: 5, offset: 21232},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 9, offset: 20783},
+																		pos:   position{line: 672, col: 9, offset: 21236},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -13990,7 +14425,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 28, offset: 20802},
+																		pos:        position{line: 672, col: 28, offset: 21255},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13999,19 +14434,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 20983},
+															pos: position{line: 678, col: 25, offset: 21436},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 20983},
+																pos: position{line: 678, col: 25, offset: 21436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 20983},
+																		pos:        position{line: 678, col: 25, offset: 21436},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 37, offset: 20995},
+																		pos:   position{line: 678, col: 37, offset: 21448},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14043,33 +14478,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 56, offset: 21014},
+																		pos:   position{line: 678, col: 56, offset: 21467},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 62, offset: 21020},
+																			pos: position{line: 678, col: 62, offset: 21473},
 																			expr: &actionExpr{
-																				pos: position{line: 673, col: 17, offset: 21315},
+																				pos: position{line: 686, col: 17, offset: 21768},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 673, col: 17, offset: 21315},
+																							pos:        position{line: 686, col: 17, offset: 21768},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 673, col: 21, offset: 21319},
+																							pos:   position{line: 686, col: 21, offset: 21772},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 673, col: 28, offset: 21326},
+																											pos:        position{line: 686, col: 28, offset: 21779},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14077,12 +14512,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 675, col: 9, offset: 21380},
+																										pos: position{line: 688, col: 9, offset: 21833},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 9, offset: 21380},
+																												pos:        position{line: 688, col: 9, offset: 21833},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14099,7 +14534,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 78, offset: 21036},
+																		pos:        position{line: 678, col: 78, offset: 21489},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14108,19 +14543,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 669, col: 25, offset: 21154},
+															pos: position{line: 682, col: 25, offset: 21607},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 669, col: 25, offset: 21154},
+																pos: position{line: 682, col: 25, offset: 21607},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 669, col: 25, offset: 21154},
+																		pos:        position{line: 682, col: 25, offset: 21607},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 669, col: 38, offset: 21167},
+																		pos:   position{line: 682, col: 38, offset: 21620},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14152,33 +14587,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 669, col: 57, offset: 21186},
+																		pos:   position{line: 682, col: 57, offset: 21639},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 669, col: 63, offset: 21192},
+																			pos: position{line: 682, col: 63, offset: 21645},
 																			expr: &actionExpr{
-																				pos: position{line: 673, col: 17, offset: 21315},
+																				pos: position{line: 686, col: 17, offset: 21768},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 673, col: 17, offset: 21315},
+																							pos:        position{line: 686, col: 17, offset: 21768},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 673, col: 21, offset: 21319},
+																							pos:   position{line: 686, col: 21, offset: 21772},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 673, col: 28, offset: 21326},
+																											pos:        position{line: 686, col: 28, offset: 21779},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14186,12 +14621,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 675, col: 9, offset: 21380},
+																										pos: position{line: 688, col: 9, offset: 21833},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 9, offset: 21380},
+																												pos:        position{line: 688, col: 9, offset: 21833},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14208,7 +14643,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 669, col: 79, offset: 21208},
+																		pos:        position{line: 682, col: 79, offset: 21661},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14223,44 +14658,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 580, col: 12, offset: 17815},
+									pos: position{line: 580, col: 12, offset: 17845},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 580, col: 12, offset: 17815},
+										pos:        position{line: 580, col: 12, offset: 17845},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 583, col: 13, offset: 17917},
+									pos:        position{line: 583, col: 13, offset: 17947},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 583, col: 20, offset: 17924},
+									pos:        position{line: 583, col: 20, offset: 17954},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 27, offset: 17931},
+									pos: position{line: 583, col: 27, offset: 17961},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 583, col: 27, offset: 17931},
+										pos:        position{line: 583, col: 27, offset: 17961},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 586, col: 12, offset: 18091},
+									pos: position{line: 586, col: 12, offset: 18121},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 586, col: 12, offset: 18091},
+										pos: position{line: 586, col: 12, offset: 18121},
 										expr: &charClassMatcher{
-											pos:        position{line: 586, col: 12, offset: 18091},
+											pos:        position{line: 586, col: 12, offset: 18121},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14276,59 +14711,59 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 593, col: 1, offset: 18288},
+			pos:  position{line: 593, col: 1, offset: 18318},
 			expr: &actionExpr{
-				pos: position{line: 594, col: 5, offset: 18323},
+				pos: position{line: 594, col: 5, offset: 18353},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 594, col: 5, offset: 18323},
+					pos: position{line: 594, col: 5, offset: 18353},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 594, col: 5, offset: 18323},
+							pos:        position{line: 594, col: 5, offset: 18353},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 594, col: 10, offset: 18328},
+							pos: position{line: 594, col: 10, offset: 18358},
 							expr: &litMatcher{
-								pos:        position{line: 594, col: 11, offset: 18329},
+								pos:        position{line: 594, col: 11, offset: 18359},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 595, col: 5, offset: 18408},
+							pos:   position{line: 595, col: 5, offset: 18438},
 							label: "content",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 595, col: 13, offset: 18416},
+								pos: position{line: 595, col: 13, offset: 18446},
 								expr: &ruleRefExpr{
-									pos:  position{line: 595, col: 14, offset: 18417},
+									pos:  position{line: 595, col: 14, offset: 18447},
 									name: "DoubleQuotedAttributeValueContent",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 596, col: 5, offset: 18457},
+							pos:        position{line: 596, col: 5, offset: 18487},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 596, col: 10, offset: 18462},
+							pos: position{line: 596, col: 10, offset: 18492},
 							expr: &notExpr{
-								pos: position{line: 596, col: 12, offset: 18464},
+								pos: position{line: 596, col: 12, offset: 18494},
 								expr: &seqExpr{
-									pos: position{line: 596, col: 14, offset: 18466},
+									pos: position{line: 596, col: 14, offset: 18496},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 596, col: 14, offset: 18466},
+											pos: position{line: 596, col: 14, offset: 18496},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90947},
+												pos: position{line: 2886, col: 10, offset: 91400},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90947},
+													pos:        position{line: 2886, col: 10, offset: 91400},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14337,7 +14772,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 596, col: 21, offset: 18473},
+											pos:        position{line: 596, col: 21, offset: 18503},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14352,25 +14787,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 603, col: 1, offset: 18596},
+			pos:  position{line: 603, col: 1, offset: 18626},
 			expr: &actionExpr{
-				pos: position{line: 604, col: 5, offset: 18638},
+				pos: position{line: 604, col: 5, offset: 18668},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 604, col: 5, offset: 18638},
+					pos:   position{line: 604, col: 5, offset: 18668},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 604, col: 14, offset: 18647},
+						pos: position{line: 604, col: 14, offset: 18677},
 						expr: &choiceExpr{
-							pos: position{line: 605, col: 9, offset: 18657},
+							pos: position{line: 605, col: 9, offset: 18687},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88102},
+									pos: position{line: 2780, col: 14, offset: 88555},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88102},
+										pos: position{line: 2780, col: 14, offset: 88555},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88102},
+											pos:        position{line: 2780, col: 14, offset: 88555},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14379,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90947},
+									pos: position{line: 2886, col: 10, offset: 91400},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90947},
+										pos:        position{line: 2886, col: 10, offset: 91400},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14390,39 +14825,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 607, col: 11, offset: 18693},
+									pos:  position{line: 607, col: 11, offset: 18723},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 643, col: 5, offset: 20301},
+									pos: position{line: 656, col: 5, offset: 20754},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 643, col: 5, offset: 20301},
+										pos: position{line: 656, col: 5, offset: 20754},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 643, col: 5, offset: 20301},
+												pos: position{line: 656, col: 5, offset: 20754},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 646, col: 5, offset: 20373},
+												pos:   position{line: 659, col: 5, offset: 20826},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 646, col: 14, offset: 20382},
+													pos: position{line: 659, col: 14, offset: 20835},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20511},
+															pos: position{line: 665, col: 5, offset: 20964},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20511},
+																pos: position{line: 665, col: 5, offset: 20964},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20511},
+																		pos:        position{line: 665, col: 5, offset: 20964},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 13, offset: 20519},
+																		pos:   position{line: 665, col: 13, offset: 20972},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14454,7 +14889,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 32, offset: 20538},
+																		pos:        position{line: 665, col: 32, offset: 20991},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14463,19 +14898,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 659, col: 5, offset: 20779},
+															pos: position{line: 672, col: 5, offset: 21232},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 659, col: 5, offset: 20779},
+																pos: position{line: 672, col: 5, offset: 21232},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 659, col: 5, offset: 20779},
+																		pos:        position{line: 672, col: 5, offset: 21232},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 9, offset: 20783},
+																		pos:   position{line: 672, col: 9, offset: 21236},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14507,7 +14942,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 659, col: 28, offset: 20802},
+																		pos:        position{line: 672, col: 28, offset: 21255},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14516,19 +14951,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 20983},
+															pos: position{line: 678, col: 25, offset: 21436},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 20983},
+																pos: position{line: 678, col: 25, offset: 21436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 20983},
+																		pos:        position{line: 678, col: 25, offset: 21436},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 37, offset: 20995},
+																		pos:   position{line: 678, col: 37, offset: 21448},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14560,33 +14995,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 56, offset: 21014},
+																		pos:   position{line: 678, col: 56, offset: 21467},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 62, offset: 21020},
+																			pos: position{line: 678, col: 62, offset: 21473},
 																			expr: &actionExpr{
-																				pos: position{line: 673, col: 17, offset: 21315},
+																				pos: position{line: 686, col: 17, offset: 21768},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 673, col: 17, offset: 21315},
+																							pos:        position{line: 686, col: 17, offset: 21768},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 673, col: 21, offset: 21319},
+																							pos:   position{line: 686, col: 21, offset: 21772},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 673, col: 28, offset: 21326},
+																											pos:        position{line: 686, col: 28, offset: 21779},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14594,12 +15029,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 675, col: 9, offset: 21380},
+																										pos: position{line: 688, col: 9, offset: 21833},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 9, offset: 21380},
+																												pos:        position{line: 688, col: 9, offset: 21833},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14616,7 +15051,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 78, offset: 21036},
+																		pos:        position{line: 678, col: 78, offset: 21489},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14625,19 +15060,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 669, col: 25, offset: 21154},
+															pos: position{line: 682, col: 25, offset: 21607},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 669, col: 25, offset: 21154},
+																pos: position{line: 682, col: 25, offset: 21607},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 669, col: 25, offset: 21154},
+																		pos:        position{line: 682, col: 25, offset: 21607},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 669, col: 38, offset: 21167},
+																		pos:   position{line: 682, col: 38, offset: 21620},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14669,33 +15104,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 669, col: 57, offset: 21186},
+																		pos:   position{line: 682, col: 57, offset: 21639},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 669, col: 63, offset: 21192},
+																			pos: position{line: 682, col: 63, offset: 21645},
 																			expr: &actionExpr{
-																				pos: position{line: 673, col: 17, offset: 21315},
+																				pos: position{line: 686, col: 17, offset: 21768},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 673, col: 17, offset: 21315},
+																							pos:        position{line: 686, col: 17, offset: 21768},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 673, col: 21, offset: 21319},
+																							pos:   position{line: 686, col: 21, offset: 21772},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 673, col: 28, offset: 21326},
+																											pos:        position{line: 686, col: 28, offset: 21779},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14703,12 +15138,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 675, col: 9, offset: 21380},
+																										pos: position{line: 688, col: 9, offset: 21833},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 675, col: 9, offset: 21380},
+																												pos:        position{line: 688, col: 9, offset: 21833},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14725,7 +15160,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 669, col: 79, offset: 21208},
+																		pos:        position{line: 682, col: 79, offset: 21661},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14740,50 +15175,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18748},
+									pos: position{line: 609, col: 12, offset: 18778},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 609, col: 12, offset: 18748},
+										pos:        position{line: 609, col: 12, offset: 18778},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 13, offset: 18850},
+									pos:        position{line: 612, col: 13, offset: 18880},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 21, offset: 18858},
+									pos:        position{line: 612, col: 21, offset: 18888},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 29, offset: 18866},
+									pos:        position{line: 612, col: 29, offset: 18896},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 612, col: 35, offset: 18872},
+									pos: position{line: 612, col: 35, offset: 18902},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 612, col: 35, offset: 18872},
+										pos:        position{line: 612, col: 35, offset: 18902},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 615, col: 12, offset: 19055},
+									pos: position{line: 615, col: 12, offset: 19085},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 615, col: 12, offset: 19055},
+										pos: position{line: 615, col: 12, offset: 19085},
 										expr: &charClassMatcher{
-											pos:        position{line: 615, col: 12, offset: 19055},
+											pos:        position{line: 615, col: 12, offset: 19085},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14799,20 +15234,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 623, col: 1, offset: 19329},
+			pos:  position{line: 636, col: 1, offset: 19782},
 			expr: &actionExpr{
-				pos: position{line: 626, col: 5, offset: 19513},
+				pos: position{line: 639, col: 5, offset: 19966},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 626, col: 5, offset: 19513},
+					pos: position{line: 639, col: 5, offset: 19966},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 626, col: 5, offset: 19513},
+							pos: position{line: 639, col: 5, offset: 19966},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14821,28 +15256,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 627, col: 5, offset: 19582},
+							pos:   position{line: 640, col: 5, offset: 20035},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 627, col: 14, offset: 19591},
+								pos: position{line: 640, col: 14, offset: 20044},
 								expr: &choiceExpr{
-									pos: position{line: 628, col: 9, offset: 19601},
+									pos: position{line: 641, col: 9, offset: 20054},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 628, col: 10, offset: 19602},
+											pos: position{line: 641, col: 10, offset: 20055},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 628, col: 10, offset: 19602},
+													pos:        position{line: 641, col: 10, offset: 20055},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 628, col: 14, offset: 19606},
+													pos:  position{line: 641, col: 14, offset: 20059},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 628, col: 37, offset: 19629},
+													pos:        position{line: 641, col: 37, offset: 20082},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14850,35 +15285,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 643, col: 5, offset: 20301},
+											pos: position{line: 656, col: 5, offset: 20754},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 643, col: 5, offset: 20301},
+												pos: position{line: 656, col: 5, offset: 20754},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 643, col: 5, offset: 20301},
+														pos: position{line: 656, col: 5, offset: 20754},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 646, col: 5, offset: 20373},
+														pos:   position{line: 659, col: 5, offset: 20826},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 646, col: 14, offset: 20382},
+															pos: position{line: 659, col: 14, offset: 20835},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20511},
+																	pos: position{line: 665, col: 5, offset: 20964},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20511},
+																		pos: position{line: 665, col: 5, offset: 20964},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20511},
+																				pos:        position{line: 665, col: 5, offset: 20964},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 13, offset: 20519},
+																				pos:   position{line: 665, col: 13, offset: 20972},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -14910,7 +15345,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 32, offset: 20538},
+																				pos:        position{line: 665, col: 32, offset: 20991},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14919,19 +15354,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 5, offset: 20779},
+																	pos: position{line: 672, col: 5, offset: 21232},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 5, offset: 20779},
+																		pos: position{line: 672, col: 5, offset: 21232},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 5, offset: 20779},
+																				pos:        position{line: 672, col: 5, offset: 21232},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 9, offset: 20783},
+																				pos:   position{line: 672, col: 9, offset: 21236},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -14963,7 +15398,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 28, offset: 20802},
+																				pos:        position{line: 672, col: 28, offset: 21255},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14972,19 +15407,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 20983},
+																	pos: position{line: 678, col: 25, offset: 21436},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 20983},
+																		pos: position{line: 678, col: 25, offset: 21436},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 20983},
+																				pos:        position{line: 678, col: 25, offset: 21436},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 37, offset: 20995},
+																				pos:   position{line: 678, col: 37, offset: 21448},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15016,33 +15451,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 56, offset: 21014},
+																				pos:   position{line: 678, col: 56, offset: 21467},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 62, offset: 21020},
+																					pos: position{line: 678, col: 62, offset: 21473},
 																					expr: &actionExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 673, col: 17, offset: 21315},
+																							pos: position{line: 686, col: 17, offset: 21768},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 673, col: 17, offset: 21315},
+																									pos:        position{line: 686, col: 17, offset: 21768},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 673, col: 21, offset: 21319},
+																									pos:   position{line: 686, col: 21, offset: 21772},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 673, col: 28, offset: 21326},
+																													pos:        position{line: 686, col: 28, offset: 21779},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15050,12 +15485,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 675, col: 9, offset: 21380},
+																													pos: position{line: 688, col: 9, offset: 21833},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 675, col: 9, offset: 21380},
+																														pos:        position{line: 688, col: 9, offset: 21833},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15072,7 +15507,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 78, offset: 21036},
+																				pos:        position{line: 678, col: 78, offset: 21489},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15081,19 +15516,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 669, col: 25, offset: 21154},
+																	pos: position{line: 682, col: 25, offset: 21607},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 25, offset: 21154},
+																		pos: position{line: 682, col: 25, offset: 21607},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 25, offset: 21154},
+																				pos:        position{line: 682, col: 25, offset: 21607},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 38, offset: 21167},
+																				pos:   position{line: 682, col: 38, offset: 21620},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15125,33 +15560,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 57, offset: 21186},
+																				pos:   position{line: 682, col: 57, offset: 21639},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 669, col: 63, offset: 21192},
+																					pos: position{line: 682, col: 63, offset: 21645},
 																					expr: &actionExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 673, col: 17, offset: 21315},
+																							pos: position{line: 686, col: 17, offset: 21768},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 673, col: 17, offset: 21315},
+																									pos:        position{line: 686, col: 17, offset: 21768},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 673, col: 21, offset: 21319},
+																									pos:   position{line: 686, col: 21, offset: 21772},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 673, col: 28, offset: 21326},
+																													pos:        position{line: 686, col: 28, offset: 21779},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15159,12 +15594,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 675, col: 9, offset: 21380},
+																													pos: position{line: 688, col: 9, offset: 21833},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 675, col: 9, offset: 21380},
+																														pos:        position{line: 688, col: 9, offset: 21833},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15181,7 +15616,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 669, col: 79, offset: 21208},
+																				pos:        position{line: 682, col: 79, offset: 21661},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15196,16 +15631,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 629, col: 32, offset: 19716},
+											pos:        position{line: 642, col: 32, offset: 20169},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90947},
+											pos: position{line: 2886, col: 10, offset: 91400},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90947},
+												pos:        position{line: 2886, col: 10, offset: 91400},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15213,12 +15648,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 631, col: 12, offset: 19801},
+											pos: position{line: 644, col: 12, offset: 20254},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 631, col: 12, offset: 19801},
+												pos: position{line: 644, col: 12, offset: 20254},
 												expr: &charClassMatcher{
-													pos:        position{line: 631, col: 12, offset: 19801},
+													pos:        position{line: 644, col: 12, offset: 20254},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15236,32 +15671,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 691, col: 1, offset: 21942},
+			pos:  position{line: 704, col: 1, offset: 22395},
 			expr: &choiceExpr{
-				pos: position{line: 691, col: 19, offset: 21960},
+				pos: position{line: 704, col: 19, offset: 22413},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 693, col: 27, offset: 22036},
+						pos: position{line: 706, col: 27, offset: 22489},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 693, col: 27, offset: 22036},
+							pos: position{line: 706, col: 27, offset: 22489},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 693, col: 27, offset: 22036},
+									pos:        position{line: 706, col: 27, offset: 22489},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 693, col: 32, offset: 22041},
+									pos:   position{line: 706, col: 32, offset: 22494},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90599},
+										pos: position{line: 2871, col: 7, offset: 91052},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90599},
+											pos: position{line: 2871, col: 7, offset: 91052},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90599},
+												pos:        position{line: 2871, col: 7, offset: 91052},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15271,12 +15706,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 693, col: 40, offset: 22049},
+									pos: position{line: 706, col: 40, offset: 22502},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90947},
+										pos: position{line: 2886, col: 10, offset: 91400},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90947},
+											pos:        position{line: 2886, col: 10, offset: 91400},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15285,26 +15720,26 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 693, col: 47, offset: 22056},
+									pos:        position{line: 706, col: 47, offset: 22509},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 693, col: 51, offset: 22060},
+									pos:   position{line: 706, col: 51, offset: 22513},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 703, col: 24, offset: 22461},
+										pos: position{line: 716, col: 24, offset: 22914},
 										expr: &choiceExpr{
-											pos: position{line: 704, col: 5, offset: 22467},
+											pos: position{line: 717, col: 5, offset: 22920},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 704, col: 6, offset: 22468},
+													pos: position{line: 717, col: 6, offset: 22921},
 													run: (*parser).callonCrossReference16,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 704, col: 6, offset: 22468},
+														pos: position{line: 717, col: 6, offset: 22921},
 														expr: &charClassMatcher{
-															pos:        position{line: 704, col: 6, offset: 22468},
+															pos:        position{line: 717, col: 6, offset: 22921},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15313,19 +15748,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20511},
+													pos: position{line: 665, col: 5, offset: 20964},
 													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20511},
+														pos: position{line: 665, col: 5, offset: 20964},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20511},
+																pos:        position{line: 665, col: 5, offset: 20964},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 13, offset: 20519},
+																pos:   position{line: 665, col: 13, offset: 20972},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15357,7 +15792,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 32, offset: 20538},
+																pos:        position{line: 665, col: 32, offset: 20991},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15366,19 +15801,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 659, col: 5, offset: 20779},
+													pos: position{line: 672, col: 5, offset: 21232},
 													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
-														pos: position{line: 659, col: 5, offset: 20779},
+														pos: position{line: 672, col: 5, offset: 21232},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 659, col: 5, offset: 20779},
+																pos:        position{line: 672, col: 5, offset: 21232},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 659, col: 9, offset: 20783},
+																pos:   position{line: 672, col: 9, offset: 21236},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15410,7 +15845,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 659, col: 28, offset: 20802},
+																pos:        position{line: 672, col: 28, offset: 21255},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15419,19 +15854,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 665, col: 25, offset: 20983},
+													pos: position{line: 678, col: 25, offset: 21436},
 													run: (*parser).callonCrossReference39,
 													expr: &seqExpr{
-														pos: position{line: 665, col: 25, offset: 20983},
+														pos: position{line: 678, col: 25, offset: 21436},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 665, col: 25, offset: 20983},
+																pos:        position{line: 678, col: 25, offset: 21436},
 																val:        "{counter:",
 																ignoreCase: false,
 																want:       "\"{counter:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 665, col: 37, offset: 20995},
+																pos:   position{line: 678, col: 37, offset: 21448},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15463,33 +15898,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 665, col: 56, offset: 21014},
+																pos:   position{line: 678, col: 56, offset: 21467},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 665, col: 62, offset: 21020},
+																	pos: position{line: 678, col: 62, offset: 21473},
 																	expr: &actionExpr{
-																		pos: position{line: 673, col: 17, offset: 21315},
+																		pos: position{line: 686, col: 17, offset: 21768},
 																		run: (*parser).callonCrossReference50,
 																		expr: &seqExpr{
-																			pos: position{line: 673, col: 17, offset: 21315},
+																			pos: position{line: 686, col: 17, offset: 21768},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 673, col: 17, offset: 21315},
+																					pos:        position{line: 686, col: 17, offset: 21768},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 673, col: 21, offset: 21319},
+																					pos:   position{line: 686, col: 21, offset: 21772},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 673, col: 28, offset: 21326},
+																						pos: position{line: 686, col: 28, offset: 21779},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								run: (*parser).callonCrossReference55,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 673, col: 28, offset: 21326},
+																									pos:        position{line: 686, col: 28, offset: 21779},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15497,12 +15932,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 675, col: 9, offset: 21380},
+																								pos: position{line: 688, col: 9, offset: 21833},
 																								run: (*parser).callonCrossReference57,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 675, col: 9, offset: 21380},
+																									pos: position{line: 688, col: 9, offset: 21833},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 675, col: 9, offset: 21380},
+																										pos:        position{line: 688, col: 9, offset: 21833},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15519,7 +15954,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 665, col: 78, offset: 21036},
+																pos:        position{line: 678, col: 78, offset: 21489},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15528,19 +15963,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 669, col: 25, offset: 21154},
+													pos: position{line: 682, col: 25, offset: 21607},
 													run: (*parser).callonCrossReference61,
 													expr: &seqExpr{
-														pos: position{line: 669, col: 25, offset: 21154},
+														pos: position{line: 682, col: 25, offset: 21607},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 669, col: 25, offset: 21154},
+																pos:        position{line: 682, col: 25, offset: 21607},
 																val:        "{counter2:",
 																ignoreCase: false,
 																want:       "\"{counter2:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 669, col: 38, offset: 21167},
+																pos:   position{line: 682, col: 38, offset: 21620},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15572,33 +16007,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 669, col: 57, offset: 21186},
+																pos:   position{line: 682, col: 57, offset: 21639},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 669, col: 63, offset: 21192},
+																	pos: position{line: 682, col: 63, offset: 21645},
 																	expr: &actionExpr{
-																		pos: position{line: 673, col: 17, offset: 21315},
+																		pos: position{line: 686, col: 17, offset: 21768},
 																		run: (*parser).callonCrossReference72,
 																		expr: &seqExpr{
-																			pos: position{line: 673, col: 17, offset: 21315},
+																			pos: position{line: 686, col: 17, offset: 21768},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 673, col: 17, offset: 21315},
+																					pos:        position{line: 686, col: 17, offset: 21768},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 673, col: 21, offset: 21319},
+																					pos:   position{line: 686, col: 21, offset: 21772},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 673, col: 28, offset: 21326},
+																						pos: position{line: 686, col: 28, offset: 21779},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 673, col: 28, offset: 21326},
+																								pos: position{line: 686, col: 28, offset: 21779},
 																								run: (*parser).callonCrossReference77,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 673, col: 28, offset: 21326},
+																									pos:        position{line: 686, col: 28, offset: 21779},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15606,12 +16041,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 675, col: 9, offset: 21380},
+																								pos: position{line: 688, col: 9, offset: 21833},
 																								run: (*parser).callonCrossReference79,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 675, col: 9, offset: 21380},
+																									pos: position{line: 688, col: 9, offset: 21833},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 675, col: 9, offset: 21380},
+																										pos:        position{line: 688, col: 9, offset: 21833},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15628,7 +16063,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 669, col: 79, offset: 21208},
+																pos:        position{line: 682, col: 79, offset: 21661},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15637,10 +16072,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 708, col: 8, offset: 22721},
+													pos: position{line: 721, col: 8, offset: 23174},
 													run: (*parser).callonCrossReference83,
 													expr: &litMatcher{
-														pos:        position{line: 708, col: 8, offset: 22721},
+														pos:        position{line: 721, col: 8, offset: 23174},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15651,7 +16086,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 693, col: 79, offset: 22088},
+									pos:        position{line: 706, col: 79, offset: 22541},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15660,27 +16095,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 695, col: 9, offset: 22161},
+						pos: position{line: 708, col: 9, offset: 22614},
 						run: (*parser).callonCrossReference86,
 						expr: &seqExpr{
-							pos: position{line: 695, col: 9, offset: 22161},
+							pos: position{line: 708, col: 9, offset: 22614},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 695, col: 9, offset: 22161},
+									pos:        position{line: 708, col: 9, offset: 22614},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 695, col: 14, offset: 22166},
+									pos:   position{line: 708, col: 14, offset: 22619},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90599},
+										pos: position{line: 2871, col: 7, offset: 91052},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90599},
+											pos: position{line: 2871, col: 7, offset: 91052},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90599},
+												pos:        position{line: 2871, col: 7, offset: 91052},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15690,7 +16125,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 695, col: 22, offset: 22174},
+									pos:        position{line: 708, col: 22, offset: 22627},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15699,7 +16134,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 691, col: 44, offset: 21985},
+						pos:  position{line: 704, col: 44, offset: 22438},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15707,58 +16142,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 699, col: 1, offset: 22245},
+			pos:  position{line: 712, col: 1, offset: 22698},
 			expr: &actionExpr{
-				pos: position{line: 699, col: 27, offset: 22271},
+				pos: position{line: 712, col: 27, offset: 22724},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 699, col: 27, offset: 22271},
+					pos: position{line: 712, col: 27, offset: 22724},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 699, col: 27, offset: 22271},
+							pos:        position{line: 712, col: 27, offset: 22724},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 699, col: 35, offset: 22279},
+							pos:   position{line: 712, col: 35, offset: 22732},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 17, offset: 89610},
+								pos: position{line: 2840, col: 17, offset: 90063},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2827, col: 17, offset: 89610},
+									pos:   position{line: 2840, col: 17, offset: 90063},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 5, offset: 90064},
+										pos: position{line: 2857, col: 5, offset: 90517},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2844, col: 5, offset: 90064},
+											pos:   position{line: 2857, col: 5, offset: 90517},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2844, col: 14, offset: 90073},
+												pos: position{line: 2857, col: 14, offset: 90526},
 												expr: &choiceExpr{
-													pos: position{line: 2845, col: 9, offset: 90083},
+													pos: position{line: 2858, col: 9, offset: 90536},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2845, col: 9, offset: 90083},
+															pos: position{line: 2858, col: 9, offset: 90536},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2845, col: 9, offset: 90083},
+																pos: position{line: 2858, col: 9, offset: 90536},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2845, col: 9, offset: 90083},
+																		pos: position{line: 2858, col: 9, offset: 90536},
 																		expr: &litMatcher{
-																			pos:        position{line: 2845, col: 10, offset: 90084},
+																			pos:        position{line: 2858, col: 10, offset: 90537},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2846, col: 9, offset: 90112},
+																		pos: position{line: 2859, col: 9, offset: 90565},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2846, col: 10, offset: 90113},
+																			pos:        position{line: 2859, col: 10, offset: 90566},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15769,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2849, col: 11, offset: 90325},
+															pos: position{line: 2862, col: 11, offset: 90778},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2849, col: 11, offset: 90325},
+																	pos:        position{line: 2862, col: 11, offset: 90778},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2849, col: 19, offset: 90333},
+																	pos: position{line: 2862, col: 19, offset: 90786},
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 21, offset: 90335},
+																		pos: position{line: 2862, col: 21, offset: 90788},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 21, offset: 90335},
+																				pos: position{line: 2862, col: 21, offset: 90788},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90947},
+																					pos: position{line: 2886, col: 10, offset: 91400},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90947},
+																						pos:        position{line: 2886, col: 10, offset: 91400},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15798,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2849, col: 28, offset: 90342},
+																				pos: position{line: 2862, col: 28, offset: 90795},
 																				expr: &notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -15812,35 +16247,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 643, col: 5, offset: 20301},
+															pos: position{line: 656, col: 5, offset: 20754},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 643, col: 5, offset: 20301},
+																pos: position{line: 656, col: 5, offset: 20754},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 643, col: 5, offset: 20301},
+																		pos: position{line: 656, col: 5, offset: 20754},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 5, offset: 20373},
+																		pos:   position{line: 659, col: 5, offset: 20826},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 646, col: 14, offset: 20382},
+																			pos: position{line: 659, col: 14, offset: 20835},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20511},
+																					pos: position{line: 665, col: 5, offset: 20964},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20511},
+																								pos:        position{line: 665, col: 5, offset: 20964},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 13, offset: 20519},
+																								pos:   position{line: 665, col: 13, offset: 20972},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15872,7 +16307,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 32, offset: 20538},
+																								pos:        position{line: 665, col: 32, offset: 20991},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15881,19 +16316,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 5, offset: 20779},
+																					pos: position{line: 672, col: 5, offset: 21232},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 5, offset: 20779},
+																								pos:        position{line: 672, col: 5, offset: 21232},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 9, offset: 20783},
+																								pos:   position{line: 672, col: 9, offset: 21236},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15925,7 +16360,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 28, offset: 20802},
+																								pos:        position{line: 672, col: 28, offset: 21255},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15934,19 +16369,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 20983},
+																					pos: position{line: 678, col: 25, offset: 21436},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 20983},
+																						pos: position{line: 678, col: 25, offset: 21436},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 20983},
+																								pos:        position{line: 678, col: 25, offset: 21436},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 37, offset: 20995},
+																								pos:   position{line: 678, col: 37, offset: 21448},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -15978,33 +16413,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 56, offset: 21014},
+																								pos:   position{line: 678, col: 56, offset: 21467},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 62, offset: 21020},
+																									pos: position{line: 678, col: 62, offset: 21473},
 																									expr: &actionExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 673, col: 17, offset: 21315},
+																											pos: position{line: 686, col: 17, offset: 21768},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 673, col: 17, offset: 21315},
+																													pos:        position{line: 686, col: 17, offset: 21768},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 673, col: 21, offset: 21319},
+																													pos:   position{line: 686, col: 21, offset: 21772},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 673, col: 28, offset: 21326},
+																																	pos:        position{line: 686, col: 28, offset: 21779},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16012,12 +16447,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 675, col: 9, offset: 21380},
+																																	pos: position{line: 688, col: 9, offset: 21833},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 675, col: 9, offset: 21380},
+																																		pos:        position{line: 688, col: 9, offset: 21833},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16034,7 +16469,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 78, offset: 21036},
+																								pos:        position{line: 678, col: 78, offset: 21489},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16043,19 +16478,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 669, col: 25, offset: 21154},
+																					pos: position{line: 682, col: 25, offset: 21607},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 25, offset: 21154},
+																						pos: position{line: 682, col: 25, offset: 21607},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 25, offset: 21154},
+																								pos:        position{line: 682, col: 25, offset: 21607},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 38, offset: 21167},
+																								pos:   position{line: 682, col: 38, offset: 21620},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16087,33 +16522,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 57, offset: 21186},
+																								pos:   position{line: 682, col: 57, offset: 21639},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 669, col: 63, offset: 21192},
+																									pos: position{line: 682, col: 63, offset: 21645},
 																									expr: &actionExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 673, col: 17, offset: 21315},
+																											pos: position{line: 686, col: 17, offset: 21768},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 673, col: 17, offset: 21315},
+																													pos:        position{line: 686, col: 17, offset: 21768},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 673, col: 21, offset: 21319},
+																													pos:   position{line: 686, col: 21, offset: 21772},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 673, col: 28, offset: 21326},
+																																	pos:        position{line: 686, col: 28, offset: 21779},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16121,12 +16556,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 675, col: 9, offset: 21380},
+																																	pos: position{line: 688, col: 9, offset: 21833},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 675, col: 9, offset: 21380},
+																																		pos:        position{line: 688, col: 9, offset: 21833},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16143,7 +16578,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 669, col: 79, offset: 21208},
+																								pos:        position{line: 682, col: 79, offset: 21661},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16158,27 +16593,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1213, col: 23, offset: 37389},
+															pos: position{line: 1226, col: 23, offset: 37842},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1213, col: 23, offset: 37389},
+																pos: position{line: 1226, col: 23, offset: 37842},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37357},
+																		pos:        position{line: 1224, col: 32, offset: 37810},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1213, col: 51, offset: 37417},
+																		pos:   position{line: 1226, col: 51, offset: 37870},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1213, col: 56, offset: 37422},
+																			pos: position{line: 1226, col: 56, offset: 37875},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1213, col: 56, offset: 37422},
+																				pos: position{line: 1226, col: 56, offset: 37875},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1213, col: 56, offset: 37422},
+																					pos:        position{line: 1226, col: 56, offset: 37875},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16188,7 +16623,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37357},
+																		pos:        position{line: 1224, col: 32, offset: 37810},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16197,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90462},
+															pos: position{line: 2865, col: 11, offset: 90915},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2852, col: 11, offset: 90462},
+																pos:        position{line: 2865, col: 11, offset: 90915},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16215,10 +16650,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 699, col: 54, offset: 22298},
+							pos:   position{line: 712, col: 54, offset: 22751},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 699, col: 66, offset: 22310},
+								pos:  position{line: 712, col: 66, offset: 22763},
 								name: "InlineAttributes",
 							},
 						},
@@ -16228,29 +16663,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1003, col: 1, offset: 31184},
+			pos:  position{line: 1016, col: 1, offset: 31637},
 			expr: &actionExpr{
-				pos: position{line: 1004, col: 5, offset: 31217},
+				pos: position{line: 1017, col: 5, offset: 31670},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1004, col: 5, offset: 31217},
+					pos: position{line: 1017, col: 5, offset: 31670},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1004, col: 5, offset: 31217},
+							pos:        position{line: 1017, col: 5, offset: 31670},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1004, col: 11, offset: 31223},
+							pos:   position{line: 1017, col: 11, offset: 31676},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 14, offset: 89540},
+								pos: position{line: 2836, col: 14, offset: 89993},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 14, offset: 89540},
+									pos: position{line: 2836, col: 14, offset: 89993},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 14, offset: 89540},
+										pos:        position{line: 2836, col: 14, offset: 89993},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16260,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16290,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -16303,53 +16738,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1115, col: 1, offset: 34140},
+			pos:  position{line: 1128, col: 1, offset: 34593},
 			expr: &actionExpr{
-				pos: position{line: 1116, col: 5, offset: 34163},
+				pos: position{line: 1129, col: 5, offset: 34616},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1116, col: 5, offset: 34163},
+					pos: position{line: 1129, col: 5, offset: 34616},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1116, col: 5, offset: 34163},
+							pos: position{line: 1129, col: 5, offset: 34616},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1119, col: 5, offset: 34224},
+							pos: position{line: 1132, col: 5, offset: 34677},
 							expr: &choiceExpr{
-								pos: position{line: 1119, col: 6, offset: 34225},
+								pos: position{line: 1132, col: 6, offset: 34678},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79918},
+										pos: position{line: 2496, col: 22, offset: 80371},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80139},
+													pos:        position{line: 2501, col: 31, offset: 80592},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80144},
+													pos: position{line: 2501, col: 36, offset: 80597},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80145},
+														pos:        position{line: 2501, col: 37, offset: 80598},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79945},
+													pos:   position{line: 2496, col: 49, offset: 80398},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89473},
+														pos: position{line: 2832, col: 13, offset: 89926},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89473},
+																pos:        position{line: 2832, col: 13, offset: 89926},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16359,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16389,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -16400,39 +16835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 827, col: 5, offset: 26535},
+										pos: position{line: 840, col: 5, offset: 26988},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 827, col: 5, offset: 26535},
+											pos: position{line: 840, col: 5, offset: 26988},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26535},
+													pos:   position{line: 840, col: 5, offset: 26988},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23795},
+														pos: position{line: 760, col: 5, offset: 24248},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23795},
+															pos: position{line: 760, col: 5, offset: 24248},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23795},
+																	pos:   position{line: 760, col: 5, offset: 24248},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23806},
+																		pos: position{line: 760, col: 16, offset: 24259},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23806},
+																			pos: position{line: 760, col: 16, offset: 24259},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23806},
+																					pos:        position{line: 760, col: 16, offset: 24259},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23813},
+																					pos: position{line: 760, col: 23, offset: 24266},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23813},
+																						pos:        position{line: 760, col: 23, offset: 24266},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16443,12 +16878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23897},
+																	pos: position{line: 762, col: 8, offset: 24350},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16457,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16487,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -16499,56 +16934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 828, col: 5, offset: 26574},
+													pos: position{line: 841, col: 5, offset: 27027},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 831, col: 5, offset: 26666},
+													pos:   position{line: 844, col: 5, offset: 27119},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 846, col: 5, offset: 27058},
+														pos: position{line: 859, col: 5, offset: 27511},
 														expr: &actionExpr{
-															pos: position{line: 846, col: 6, offset: 27059},
+															pos: position{line: 859, col: 6, offset: 27512},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 846, col: 6, offset: 27059},
+																pos: position{line: 859, col: 6, offset: 27512},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 846, col: 6, offset: 27059},
+																		pos: position{line: 859, col: 6, offset: 27512},
 																		expr: &choiceExpr{
-																			pos: position{line: 839, col: 5, offset: 26900},
+																			pos: position{line: 852, col: 5, offset: 27353},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 839, col: 5, offset: 26900},
+																					pos: position{line: 852, col: 5, offset: 27353},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 839, col: 5, offset: 26900},
+																							pos:   position{line: 852, col: 5, offset: 27353},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23795},
+																								pos: position{line: 760, col: 5, offset: 24248},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23795},
+																											pos:   position{line: 760, col: 5, offset: 24248},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23806},
+																												pos: position{line: 760, col: 16, offset: 24259},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23806},
+																															pos:        position{line: 760, col: 16, offset: 24259},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23813},
+																															pos: position{line: 760, col: 23, offset: 24266},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23813},
+																																pos:        position{line: 760, col: 23, offset: 24266},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16559,12 +16994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23897},
+																											pos: position{line: 762, col: 8, offset: 24350},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16573,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16603,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -16615,45 +17050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 840, col: 5, offset: 26931},
+																							pos: position{line: 853, col: 5, offset: 27384},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 847, col: 5, offset: 27089},
+																		pos:   position{line: 860, col: 5, offset: 27542},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16663,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16693,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -16710,41 +17145,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 832, col: 5, offset: 26700},
+													pos: position{line: 845, col: 5, offset: 27153},
 													expr: &choiceExpr{
-														pos: position{line: 839, col: 5, offset: 26900},
+														pos: position{line: 852, col: 5, offset: 27353},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 839, col: 5, offset: 26900},
+																pos: position{line: 852, col: 5, offset: 27353},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 839, col: 5, offset: 26900},
+																		pos:   position{line: 852, col: 5, offset: 27353},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23795},
+																			pos: position{line: 760, col: 5, offset: 24248},
 																			run: (*parser).callonDocumentHeader97,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23795},
+																						pos:   position{line: 760, col: 5, offset: 24248},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23806},
+																							pos: position{line: 760, col: 16, offset: 24259},
 																							run: (*parser).callonDocumentHeader100,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23806},
+																										pos:        position{line: 760, col: 16, offset: 24259},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23813},
+																										pos: position{line: 760, col: 23, offset: 24266},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23813},
+																											pos:        position{line: 760, col: 23, offset: 24266},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -16755,12 +17190,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23897},
+																						pos: position{line: 762, col: 8, offset: 24350},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -16769,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16799,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -16811,15 +17246,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 840, col: 5, offset: 26931},
+																		pos: position{line: 853, col: 5, offset: 27384},
 																		run: (*parser).callonDocumentHeader116,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -16832,49 +17267,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1120, col: 5, offset: 34321},
+							pos:   position{line: 1133, col: 5, offset: 34774},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1120, col: 12, offset: 34328},
+								pos:  position{line: 1133, col: 12, offset: 34781},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1121, col: 5, offset: 34347},
+							pos: position{line: 1134, col: 5, offset: 34800},
 							expr: &choiceExpr{
-								pos: position{line: 1121, col: 6, offset: 34348},
+								pos: position{line: 1134, col: 6, offset: 34801},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79918},
+										pos: position{line: 2496, col: 22, offset: 80371},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80139},
+													pos:        position{line: 2501, col: 31, offset: 80592},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80144},
+													pos: position{line: 2501, col: 36, offset: 80597},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80145},
+														pos:        position{line: 2501, col: 37, offset: 80598},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79945},
+													pos:   position{line: 2496, col: 49, offset: 80398},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89473},
+														pos: position{line: 2832, col: 13, offset: 89926},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89473},
+																pos:        position{line: 2832, col: 13, offset: 89926},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16884,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16914,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -16925,39 +17360,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 827, col: 5, offset: 26535},
+										pos: position{line: 840, col: 5, offset: 26988},
 										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 827, col: 5, offset: 26535},
+											pos: position{line: 840, col: 5, offset: 26988},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26535},
+													pos:   position{line: 840, col: 5, offset: 26988},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23795},
+														pos: position{line: 760, col: 5, offset: 24248},
 														run: (*parser).callonDocumentHeader143,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23795},
+															pos: position{line: 760, col: 5, offset: 24248},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23795},
+																	pos:   position{line: 760, col: 5, offset: 24248},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23806},
+																		pos: position{line: 760, col: 16, offset: 24259},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23806},
+																			pos: position{line: 760, col: 16, offset: 24259},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23806},
+																					pos:        position{line: 760, col: 16, offset: 24259},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23813},
+																					pos: position{line: 760, col: 23, offset: 24266},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23813},
+																						pos:        position{line: 760, col: 23, offset: 24266},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16968,12 +17403,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23897},
+																	pos: position{line: 762, col: 8, offset: 24350},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16982,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17012,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -17024,56 +17459,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 828, col: 5, offset: 26574},
+													pos: position{line: 841, col: 5, offset: 27027},
 													run: (*parser).callonDocumentHeader162,
 												},
 												&labeledExpr{
-													pos:   position{line: 831, col: 5, offset: 26666},
+													pos:   position{line: 844, col: 5, offset: 27119},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 846, col: 5, offset: 27058},
+														pos: position{line: 859, col: 5, offset: 27511},
 														expr: &actionExpr{
-															pos: position{line: 846, col: 6, offset: 27059},
+															pos: position{line: 859, col: 6, offset: 27512},
 															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 846, col: 6, offset: 27059},
+																pos: position{line: 859, col: 6, offset: 27512},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 846, col: 6, offset: 27059},
+																		pos: position{line: 859, col: 6, offset: 27512},
 																		expr: &choiceExpr{
-																			pos: position{line: 839, col: 5, offset: 26900},
+																			pos: position{line: 852, col: 5, offset: 27353},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 839, col: 5, offset: 26900},
+																					pos: position{line: 852, col: 5, offset: 27353},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 839, col: 5, offset: 26900},
+																							pos:   position{line: 852, col: 5, offset: 27353},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23795},
+																								pos: position{line: 760, col: 5, offset: 24248},
 																								run: (*parser).callonDocumentHeader171,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23795},
+																											pos:   position{line: 760, col: 5, offset: 24248},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23806},
+																												pos: position{line: 760, col: 16, offset: 24259},
 																												run: (*parser).callonDocumentHeader174,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23806},
+																															pos:        position{line: 760, col: 16, offset: 24259},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23813},
+																															pos: position{line: 760, col: 23, offset: 24266},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23813},
+																																pos:        position{line: 760, col: 23, offset: 24266},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17084,12 +17519,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23897},
+																											pos: position{line: 762, col: 8, offset: 24350},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17098,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17128,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -17140,45 +17575,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 840, col: 5, offset: 26931},
+																							pos: position{line: 853, col: 5, offset: 27384},
 																							run: (*parser).callonDocumentHeader190,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 847, col: 5, offset: 27089},
+																		pos:   position{line: 860, col: 5, offset: 27542},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17188,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17218,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -17235,41 +17670,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 832, col: 5, offset: 26700},
+													pos: position{line: 845, col: 5, offset: 27153},
 													expr: &choiceExpr{
-														pos: position{line: 839, col: 5, offset: 26900},
+														pos: position{line: 852, col: 5, offset: 27353},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 839, col: 5, offset: 26900},
+																pos: position{line: 852, col: 5, offset: 27353},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 839, col: 5, offset: 26900},
+																		pos:   position{line: 852, col: 5, offset: 27353},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23795},
+																			pos: position{line: 760, col: 5, offset: 24248},
 																			run: (*parser).callonDocumentHeader214,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23795},
+																						pos:   position{line: 760, col: 5, offset: 24248},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23806},
+																							pos: position{line: 760, col: 16, offset: 24259},
 																							run: (*parser).callonDocumentHeader217,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23806},
+																										pos:        position{line: 760, col: 16, offset: 24259},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23813},
+																										pos: position{line: 760, col: 23, offset: 24266},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23813},
+																											pos:        position{line: 760, col: 23, offset: 24266},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17280,12 +17715,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23897},
+																						pos: position{line: 762, col: 8, offset: 24350},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17294,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17324,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -17336,15 +17771,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 840, col: 5, offset: 26931},
+																		pos: position{line: 853, col: 5, offset: 27384},
 																		run: (*parser).callonDocumentHeader233,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -17357,41 +17792,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1122, col: 5, offset: 34444},
+							pos:   position{line: 1135, col: 5, offset: 34897},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1122, col: 24, offset: 34463},
+								pos: position{line: 1135, col: 24, offset: 34916},
 								expr: &actionExpr{
-									pos: position{line: 1133, col: 5, offset: 34838},
+									pos: position{line: 1146, col: 5, offset: 35291},
 									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1133, col: 5, offset: 34838},
+										pos: position{line: 1146, col: 5, offset: 35291},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1133, col: 5, offset: 34838},
+												pos: position{line: 1146, col: 5, offset: 35291},
 												expr: &litMatcher{
-													pos:        position{line: 1133, col: 6, offset: 34839},
+													pos:        position{line: 1146, col: 6, offset: 35292},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1134, col: 5, offset: 34847},
+												pos:   position{line: 1147, col: 5, offset: 35300},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1140, col: 20, offset: 35103},
+													pos: position{line: 1153, col: 20, offset: 35556},
 													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1140, col: 20, offset: 35103},
+														pos: position{line: 1153, col: 20, offset: 35556},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1140, col: 20, offset: 35103},
+																pos: position{line: 1153, col: 20, offset: 35556},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17400,37 +17835,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1140, col: 27, offset: 35110},
+																pos:   position{line: 1153, col: 27, offset: 35563},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1140, col: 36, offset: 35119},
+																	pos: position{line: 1153, col: 36, offset: 35572},
 																	expr: &actionExpr{
-																		pos: position{line: 1145, col: 5, offset: 35232},
+																		pos: position{line: 1158, col: 5, offset: 35685},
 																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1145, col: 5, offset: 35232},
+																			pos: position{line: 1158, col: 5, offset: 35685},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1145, col: 5, offset: 35232},
+																					pos:   position{line: 1158, col: 5, offset: 35685},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1145, col: 14, offset: 35241},
+																						pos: position{line: 1158, col: 14, offset: 35694},
 																						expr: &actionExpr{
-																							pos: position{line: 1156, col: 5, offset: 35621},
+																							pos: position{line: 1169, col: 5, offset: 36074},
 																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1156, col: 5, offset: 35621},
+																								pos: position{line: 1169, col: 5, offset: 36074},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1156, col: 5, offset: 35621},
+																										pos:   position{line: 1169, col: 5, offset: 36074},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1156, col: 12, offset: 35628},
+																											pos: position{line: 1169, col: 12, offset: 36081},
 																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1156, col: 12, offset: 35628},
+																												pos: position{line: 1169, col: 12, offset: 36081},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1156, col: 12, offset: 35628},
+																													pos:        position{line: 1169, col: 12, offset: 36081},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17440,12 +17875,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1159, col: 5, offset: 35708},
+																										pos: position{line: 1172, col: 5, offset: 36161},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17454,17 +17889,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35719},
+																										pos:   position{line: 1173, col: 5, offset: 36172},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1160, col: 11, offset: 35725},
+																											pos: position{line: 1173, col: 11, offset: 36178},
 																											expr: &actionExpr{
-																												pos: position{line: 1160, col: 12, offset: 35726},
+																												pos: position{line: 1173, col: 12, offset: 36179},
 																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1160, col: 12, offset: 35726},
+																													pos: position{line: 1173, col: 12, offset: 36179},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1160, col: 12, offset: 35726},
+																														pos:        position{line: 1173, col: 12, offset: 36179},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17475,12 +17910,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1163, col: 5, offset: 35807},
+																										pos: position{line: 1176, col: 5, offset: 36260},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17489,17 +17924,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1164, col: 5, offset: 35818},
+																										pos:   position{line: 1177, col: 5, offset: 36271},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1164, col: 11, offset: 35824},
+																											pos: position{line: 1177, col: 11, offset: 36277},
 																											expr: &actionExpr{
-																												pos: position{line: 1164, col: 12, offset: 35825},
+																												pos: position{line: 1177, col: 12, offset: 36278},
 																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1164, col: 12, offset: 35825},
+																													pos: position{line: 1177, col: 12, offset: 36278},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1164, col: 12, offset: 35825},
+																														pos:        position{line: 1177, col: 12, offset: 36278},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17510,12 +17945,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1167, col: 5, offset: 35904},
+																										pos: position{line: 1180, col: 5, offset: 36357},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17529,38 +17964,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1145, col: 40, offset: 35267},
+																					pos:   position{line: 1158, col: 40, offset: 35720},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1145, col: 46, offset: 35273},
+																						pos: position{line: 1158, col: 46, offset: 35726},
 																						expr: &actionExpr{
-																							pos: position{line: 1173, col: 5, offset: 36026},
+																							pos: position{line: 1186, col: 5, offset: 36479},
 																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1173, col: 5, offset: 36026},
+																								pos: position{line: 1186, col: 5, offset: 36479},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91281},
+																										pos: position{line: 2903, col: 11, offset: 91734},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91283,
+																											line: 2903, col: 13, offset: 91736,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1174, col: 5, offset: 36038},
+																										pos:        position{line: 1187, col: 5, offset: 36491},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1175, col: 5, offset: 36047},
+																										pos:   position{line: 1188, col: 5, offset: 36500},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1175, col: 12, offset: 36054},
+																											pos: position{line: 1188, col: 12, offset: 36507},
 																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1175, col: 13, offset: 36055},
+																												pos: position{line: 1188, col: 13, offset: 36508},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1175, col: 13, offset: 36055},
+																													pos:        position{line: 1188, col: 13, offset: 36508},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17570,7 +18005,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1178, col: 5, offset: 36115},
+																										pos:        position{line: 1191, col: 5, offset: 36568},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17581,12 +18016,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1145, col: 69, offset: 35296},
+																					pos: position{line: 1158, col: 69, offset: 35749},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17595,21 +18030,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1145, col: 76, offset: 35303},
+																					pos: position{line: 1158, col: 76, offset: 35756},
 																					expr: &litMatcher{
-																						pos:        position{line: 1145, col: 76, offset: 35303},
+																						pos:        position{line: 1158, col: 76, offset: 35756},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1145, col: 81, offset: 35308},
+																					pos: position{line: 1158, col: 81, offset: 35761},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17618,7 +18053,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1146, col: 5, offset: 35320},
+																					pos: position{line: 1159, col: 5, offset: 35773},
 																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
@@ -17627,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -17669,41 +18104,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1135, col: 5, offset: 34877},
+												pos: position{line: 1148, col: 5, offset: 35330},
 												expr: &choiceExpr{
-													pos: position{line: 1135, col: 6, offset: 34878},
+													pos: position{line: 1148, col: 6, offset: 35331},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79918},
+															pos: position{line: 2496, col: 22, offset: 80371},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79918},
+																pos: position{line: 2496, col: 22, offset: 80371},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80139},
+																		pos:        position{line: 2501, col: 31, offset: 80592},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80144},
+																		pos: position{line: 2501, col: 36, offset: 80597},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80145},
+																			pos:        position{line: 2501, col: 37, offset: 80598},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79945},
+																		pos:   position{line: 2496, col: 49, offset: 80398},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89473},
+																			pos: position{line: 2832, col: 13, offset: 89926},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89473},
+																				pos: position{line: 2832, col: 13, offset: 89926},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89473},
+																					pos:        position{line: 2832, col: 13, offset: 89926},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -17754,39 +18189,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 827, col: 5, offset: 26535},
+															pos: position{line: 840, col: 5, offset: 26988},
 															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 827, col: 5, offset: 26535},
+																pos: position{line: 840, col: 5, offset: 26988},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 827, col: 5, offset: 26535},
+																		pos:   position{line: 840, col: 5, offset: 26988},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23795},
+																			pos: position{line: 760, col: 5, offset: 24248},
 																			run: (*parser).callonDocumentHeader330,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23795},
+																						pos:   position{line: 760, col: 5, offset: 24248},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23806},
+																							pos: position{line: 760, col: 16, offset: 24259},
 																							run: (*parser).callonDocumentHeader333,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23806},
+																										pos:        position{line: 760, col: 16, offset: 24259},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23813},
+																										pos: position{line: 760, col: 23, offset: 24266},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23813},
+																											pos:        position{line: 760, col: 23, offset: 24266},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17797,12 +18232,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23897},
+																						pos: position{line: 762, col: 8, offset: 24350},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17811,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17841,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -17853,56 +18288,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 828, col: 5, offset: 26574},
+																		pos: position{line: 841, col: 5, offset: 27027},
 																		run: (*parser).callonDocumentHeader349,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26666},
+																		pos:   position{line: 844, col: 5, offset: 27119},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 846, col: 5, offset: 27058},
+																			pos: position{line: 859, col: 5, offset: 27511},
 																			expr: &actionExpr{
-																				pos: position{line: 846, col: 6, offset: 27059},
+																				pos: position{line: 859, col: 6, offset: 27512},
 																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 846, col: 6, offset: 27059},
+																					pos: position{line: 859, col: 6, offset: 27512},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 846, col: 6, offset: 27059},
+																							pos: position{line: 859, col: 6, offset: 27512},
 																							expr: &choiceExpr{
-																								pos: position{line: 839, col: 5, offset: 26900},
+																								pos: position{line: 852, col: 5, offset: 27353},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 839, col: 5, offset: 26900},
+																										pos: position{line: 852, col: 5, offset: 27353},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 839, col: 5, offset: 26900},
+																												pos:   position{line: 852, col: 5, offset: 27353},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 5, offset: 23795},
+																													pos: position{line: 760, col: 5, offset: 24248},
 																													run: (*parser).callonDocumentHeader358,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 5, offset: 23795},
+																														pos: position{line: 760, col: 5, offset: 24248},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 747, col: 5, offset: 23795},
+																																pos:   position{line: 760, col: 5, offset: 24248},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 747, col: 16, offset: 23806},
+																																	pos: position{line: 760, col: 16, offset: 24259},
 																																	run: (*parser).callonDocumentHeader361,
 																																	expr: &seqExpr{
-																																		pos: position{line: 747, col: 16, offset: 23806},
+																																		pos: position{line: 760, col: 16, offset: 24259},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 747, col: 16, offset: 23806},
+																																				pos:        position{line: 760, col: 16, offset: 24259},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 747, col: 23, offset: 23813},
+																																				pos: position{line: 760, col: 23, offset: 24266},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 747, col: 23, offset: 23813},
+																																					pos:        position{line: 760, col: 23, offset: 24266},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17913,12 +18348,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 749, col: 8, offset: 23897},
+																																pos: position{line: 762, col: 8, offset: 24350},
 																																expr: &actionExpr{
-																																	pos: position{line: 2873, col: 10, offset: 90947},
+																																	pos: position{line: 2886, col: 10, offset: 91400},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2873, col: 10, offset: 90947},
+																																		pos:        position{line: 2886, col: 10, offset: 91400},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17927,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2895, col: 8, offset: 91345},
+																																pos: position{line: 2908, col: 8, offset: 91798},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 91118},
+																																		pos: position{line: 2895, col: 12, offset: 91571},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 91119},
+																																			pos: position{line: 2895, col: 13, offset: 91572},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 91119},
+																																					pos:        position{line: 2895, col: 13, offset: 91572},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 91126},
+																																					pos:        position{line: 2895, col: 20, offset: 91579},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 91135},
+																																					pos:        position{line: 2895, col: 29, offset: 91588},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17957,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2892, col: 8, offset: 91295},
+																																		pos: position{line: 2905, col: 8, offset: 91748},
 																																		expr: &anyMatcher{
-																																			line: 2892, col: 9, offset: 91296,
+																																			line: 2905, col: 9, offset: 91749,
 																																		},
 																																	},
 																																},
@@ -17969,45 +18404,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 840, col: 5, offset: 26931},
+																												pos: position{line: 853, col: 5, offset: 27384},
 																												run: (*parser).callonDocumentHeader377,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 847, col: 5, offset: 27089},
+																							pos:   position{line: 860, col: 5, offset: 27542},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 818, col: 5, offset: 26299},
+																								pos: position{line: 831, col: 5, offset: 26752},
 																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 818, col: 5, offset: 26299},
+																									pos: position{line: 831, col: 5, offset: 26752},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91281},
+																											pos: position{line: 2903, col: 11, offset: 91734},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91283,
+																												line: 2903, col: 13, offset: 91736,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 819, col: 5, offset: 26374},
+																											pos:   position{line: 832, col: 5, offset: 26827},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2819, col: 13, offset: 89473},
+																												pos: position{line: 2832, col: 13, offset: 89926},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2819, col: 13, offset: 89473},
+																													pos: position{line: 2832, col: 13, offset: 89926},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2819, col: 13, offset: 89473},
+																														pos:        position{line: 2832, col: 13, offset: 89926},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18017,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18047,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -18064,41 +18499,41 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 832, col: 5, offset: 26700},
+																		pos: position{line: 845, col: 5, offset: 27153},
 																		expr: &choiceExpr{
-																			pos: position{line: 839, col: 5, offset: 26900},
+																			pos: position{line: 852, col: 5, offset: 27353},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 839, col: 5, offset: 26900},
+																					pos: position{line: 852, col: 5, offset: 27353},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 839, col: 5, offset: 26900},
+																							pos:   position{line: 852, col: 5, offset: 27353},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23795},
+																								pos: position{line: 760, col: 5, offset: 24248},
 																								run: (*parser).callonDocumentHeader401,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23795},
+																											pos:   position{line: 760, col: 5, offset: 24248},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23806},
+																												pos: position{line: 760, col: 16, offset: 24259},
 																												run: (*parser).callonDocumentHeader404,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23806},
+																															pos:        position{line: 760, col: 16, offset: 24259},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23813},
+																															pos: position{line: 760, col: 23, offset: 24266},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23813},
+																																pos:        position{line: 760, col: 23, offset: 24266},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -18109,12 +18544,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23897},
+																											pos: position{line: 762, col: 8, offset: 24350},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18123,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18153,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -18165,15 +18600,15 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 840, col: 5, offset: 26931},
+																							pos: position{line: 853, col: 5, offset: 27384},
 																							run: (*parser).callonDocumentHeader420,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -18186,23 +18621,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1136, col: 5, offset: 34952},
+												pos:   position{line: 1149, col: 5, offset: 35405},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1136, col: 14, offset: 34961},
+													pos: position{line: 1149, col: 14, offset: 35414},
 													expr: &actionExpr{
-														pos: position{line: 1184, col: 21, offset: 36304},
+														pos: position{line: 1197, col: 21, offset: 36757},
 														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1184, col: 21, offset: 36304},
+															pos: position{line: 1197, col: 21, offset: 36757},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1184, col: 21, offset: 36304},
+																	pos: position{line: 1197, col: 21, offset: 36757},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18211,55 +18646,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1184, col: 28, offset: 36311},
+																	pos: position{line: 1197, col: 28, offset: 36764},
 																	expr: &litMatcher{
-																		pos:        position{line: 1184, col: 29, offset: 36312},
+																		pos:        position{line: 1197, col: 29, offset: 36765},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1184, col: 33, offset: 36316},
+																	pos:   position{line: 1197, col: 33, offset: 36769},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1185, col: 9, offset: 36335},
+																		pos: position{line: 1198, col: 9, offset: 36788},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1185, col: 10, offset: 36336},
+																				pos: position{line: 1198, col: 10, offset: 36789},
 																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1185, col: 10, offset: 36336},
+																					pos: position{line: 1198, col: 10, offset: 36789},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 10, offset: 36336},
+																							pos:   position{line: 1198, col: 10, offset: 36789},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1194, col: 27, offset: 36853},
+																								pos: position{line: 1207, col: 27, offset: 37306},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1194, col: 27, offset: 36853},
+																										pos: position{line: 1207, col: 27, offset: 37306},
 																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1194, col: 27, offset: 36853},
+																											pos: position{line: 1207, col: 27, offset: 37306},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1194, col: 27, offset: 36853},
+																													pos:        position{line: 1207, col: 27, offset: 37306},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1194, col: 32, offset: 36858},
+																													pos:        position{line: 1207, col: 32, offset: 37311},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1194, col: 38, offset: 36864},
+																													pos: position{line: 1207, col: 38, offset: 37317},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1194, col: 38, offset: 36864},
+																														pos:        position{line: 1207, col: 38, offset: 37317},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18270,31 +18705,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1196, col: 5, offset: 36912},
+																										pos: position{line: 1209, col: 5, offset: 37365},
 																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1196, col: 5, offset: 36912},
+																											pos: position{line: 1209, col: 5, offset: 37365},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1196, col: 5, offset: 36912},
+																													pos: position{line: 1209, col: 5, offset: 37365},
 																													expr: &litMatcher{
-																														pos:        position{line: 1196, col: 5, offset: 36912},
+																														pos:        position{line: 1209, col: 5, offset: 37365},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1196, col: 11, offset: 36918},
+																													pos:        position{line: 1209, col: 11, offset: 37371},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1196, col: 17, offset: 36924},
+																													pos: position{line: 1209, col: 17, offset: 37377},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1196, col: 17, offset: 36924},
+																														pos:        position{line: 1209, col: 17, offset: 37377},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18302,12 +18737,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1196, col: 28, offset: 36935},
+																													pos: position{line: 1209, col: 28, offset: 37388},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18316,9 +18751,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1196, col: 35, offset: 36942},
+																													pos: position{line: 1209, col: 35, offset: 37395},
 																													expr: &litMatcher{
-																														pos:        position{line: 1196, col: 36, offset: 36943},
+																														pos:        position{line: 1209, col: 36, offset: 37396},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18331,26 +18766,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 45, offset: 36371},
+																							pos: position{line: 1198, col: 45, offset: 36824},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 45, offset: 36371},
+																								pos:        position{line: 1198, col: 45, offset: 36824},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 50, offset: 36376},
+																							pos:   position{line: 1198, col: 50, offset: 36829},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 58, offset: 36384},
+																								pos: position{line: 1198, col: 58, offset: 36837},
 																								expr: &actionExpr{
-																									pos: position{line: 1200, col: 25, offset: 37007},
+																									pos: position{line: 1213, col: 25, offset: 37460},
 																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1200, col: 25, offset: 37007},
+																										pos: position{line: 1213, col: 25, offset: 37460},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1200, col: 25, offset: 37007},
+																											pos:        position{line: 1213, col: 25, offset: 37460},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18361,26 +18796,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 82, offset: 36408},
+																							pos: position{line: 1198, col: 82, offset: 36861},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 82, offset: 36408},
+																								pos:        position{line: 1198, col: 82, offset: 36861},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 87, offset: 36413},
+																							pos:   position{line: 1198, col: 87, offset: 36866},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 97, offset: 36423},
+																								pos: position{line: 1198, col: 97, offset: 36876},
 																								expr: &actionExpr{
-																									pos: position{line: 1204, col: 27, offset: 37079},
+																									pos: position{line: 1217, col: 27, offset: 37532},
 																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1204, col: 27, offset: 37079},
+																										pos: position{line: 1217, col: 27, offset: 37532},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1204, col: 27, offset: 37079},
+																											pos:        position{line: 1217, col: 27, offset: 37532},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18394,21 +18829,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1187, col: 15, offset: 36541},
+																				pos: position{line: 1200, col: 15, offset: 36994},
 																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1187, col: 15, offset: 36541},
+																					pos: position{line: 1200, col: 15, offset: 36994},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1187, col: 15, offset: 36541},
+																							pos:   position{line: 1200, col: 15, offset: 36994},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1200, col: 25, offset: 37007},
+																								pos: position{line: 1213, col: 25, offset: 37460},
 																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1200, col: 25, offset: 37007},
+																									pos: position{line: 1213, col: 25, offset: 37460},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1200, col: 25, offset: 37007},
+																										pos:        position{line: 1213, col: 25, offset: 37460},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18418,26 +18853,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1187, col: 46, offset: 36572},
+																							pos: position{line: 1200, col: 46, offset: 37025},
 																							expr: &litMatcher{
-																								pos:        position{line: 1187, col: 46, offset: 36572},
+																								pos:        position{line: 1200, col: 46, offset: 37025},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1187, col: 51, offset: 36577},
+																							pos:   position{line: 1200, col: 51, offset: 37030},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1187, col: 61, offset: 36587},
+																								pos: position{line: 1200, col: 61, offset: 37040},
 																								expr: &actionExpr{
-																									pos: position{line: 1204, col: 27, offset: 37079},
+																									pos: position{line: 1217, col: 27, offset: 37532},
 																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1204, col: 27, offset: 37079},
+																										pos: position{line: 1217, col: 27, offset: 37532},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1204, col: 27, offset: 37079},
+																											pos:        position{line: 1217, col: 27, offset: 37532},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18454,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18484,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -18502,15 +18937,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1123, col: 5, offset: 34498},
+							pos:   position{line: 1136, col: 5, offset: 34951},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1123, col: 19, offset: 34512},
+								pos: position{line: 1136, col: 19, offset: 34965},
 								expr: &choiceExpr{
-									pos: position{line: 1123, col: 20, offset: 34513},
+									pos: position{line: 1136, col: 20, offset: 34966},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1123, col: 20, offset: 34513},
+											pos:  position{line: 1136, col: 20, offset: 34966},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18566,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10951},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18578,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18608,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -18671,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11072},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90947},
+															pos: position{line: 2886, col: 10, offset: 91400},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90947},
+																pos:        position{line: 2886, col: 10, offset: 91400},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18683,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18713,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -18724,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79918},
+												pos: position{line: 2496, col: 22, offset: 80371},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80139},
+														pos:        position{line: 2501, col: 31, offset: 80592},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80144},
+														pos: position{line: 2501, col: 36, offset: 80597},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80145},
+															pos:        position{line: 2501, col: 37, offset: 80598},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79945},
+														pos:   position{line: 2496, col: 49, offset: 80398},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89473},
+																pos: position{line: 2832, col: 13, offset: 89926},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89473},
+																	pos:        position{line: 2832, col: 13, offset: 89926},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18763,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18793,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -18804,39 +19239,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 827, col: 5, offset: 26535},
+											pos: position{line: 840, col: 5, offset: 26988},
 											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 827, col: 5, offset: 26535},
+												pos: position{line: 840, col: 5, offset: 26988},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 827, col: 5, offset: 26535},
+														pos:   position{line: 840, col: 5, offset: 26988},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23795},
+															pos: position{line: 760, col: 5, offset: 24248},
 															run: (*parser).callonDocumentHeader557,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23795},
+																pos: position{line: 760, col: 5, offset: 24248},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23795},
+																		pos:   position{line: 760, col: 5, offset: 24248},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23806},
+																			pos: position{line: 760, col: 16, offset: 24259},
 																			run: (*parser).callonDocumentHeader560,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23806},
+																				pos: position{line: 760, col: 16, offset: 24259},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23806},
+																						pos:        position{line: 760, col: 16, offset: 24259},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23813},
+																						pos: position{line: 760, col: 23, offset: 24266},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23813},
+																							pos:        position{line: 760, col: 23, offset: 24266},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18847,12 +19282,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23897},
+																		pos: position{line: 762, col: 8, offset: 24350},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18861,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18891,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -18903,56 +19338,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 828, col: 5, offset: 26574},
+														pos: position{line: 841, col: 5, offset: 27027},
 														run: (*parser).callonDocumentHeader576,
 													},
 													&labeledExpr{
-														pos:   position{line: 831, col: 5, offset: 26666},
+														pos:   position{line: 844, col: 5, offset: 27119},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 846, col: 5, offset: 27058},
+															pos: position{line: 859, col: 5, offset: 27511},
 															expr: &actionExpr{
-																pos: position{line: 846, col: 6, offset: 27059},
+																pos: position{line: 859, col: 6, offset: 27512},
 																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 846, col: 6, offset: 27059},
+																	pos: position{line: 859, col: 6, offset: 27512},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 846, col: 6, offset: 27059},
+																			pos: position{line: 859, col: 6, offset: 27512},
 																			expr: &choiceExpr{
-																				pos: position{line: 839, col: 5, offset: 26900},
+																				pos: position{line: 852, col: 5, offset: 27353},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 839, col: 5, offset: 26900},
+																						pos: position{line: 852, col: 5, offset: 27353},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 839, col: 5, offset: 26900},
+																								pos:   position{line: 852, col: 5, offset: 27353},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									run: (*parser).callonDocumentHeader585,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23795},
+																										pos: position{line: 760, col: 5, offset: 24248},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23795},
+																												pos:   position{line: 760, col: 5, offset: 24248},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													run: (*parser).callonDocumentHeader588,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23806},
+																														pos: position{line: 760, col: 16, offset: 24259},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23806},
+																																pos:        position{line: 760, col: 16, offset: 24259},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23813},
+																																pos: position{line: 760, col: 23, offset: 24266},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23813},
+																																	pos:        position{line: 760, col: 23, offset: 24266},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18963,12 +19398,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23897},
+																												pos: position{line: 762, col: 8, offset: 24350},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90947},
+																													pos: position{line: 2886, col: 10, offset: 91400},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90947},
+																														pos:        position{line: 2886, col: 10, offset: 91400},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18977,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91345},
+																												pos: position{line: 2908, col: 8, offset: 91798},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91118},
+																														pos: position{line: 2895, col: 12, offset: 91571},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91119},
+																															pos: position{line: 2895, col: 13, offset: 91572},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91119},
+																																	pos:        position{line: 2895, col: 13, offset: 91572},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91126},
+																																	pos:        position{line: 2895, col: 20, offset: 91579},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91135},
+																																	pos:        position{line: 2895, col: 29, offset: 91588},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19007,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91295},
+																														pos: position{line: 2905, col: 8, offset: 91748},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91296,
+																															line: 2905, col: 9, offset: 91749,
 																														},
 																													},
 																												},
@@ -19019,45 +19454,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 840, col: 5, offset: 26931},
+																								pos: position{line: 853, col: 5, offset: 27384},
 																								run: (*parser).callonDocumentHeader604,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 847, col: 5, offset: 27089},
+																			pos:   position{line: 860, col: 5, offset: 27542},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26299},
+																					pos: position{line: 831, col: 5, offset: 26752},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 819, col: 5, offset: 26374},
+																							pos:   position{line: 832, col: 5, offset: 26827},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89473},
+																									pos: position{line: 2832, col: 13, offset: 89926},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89473},
+																										pos:        position{line: 2832, col: 13, offset: 89926},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19067,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19097,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -19114,41 +19549,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 832, col: 5, offset: 26700},
+														pos: position{line: 845, col: 5, offset: 27153},
 														expr: &choiceExpr{
-															pos: position{line: 839, col: 5, offset: 26900},
+															pos: position{line: 852, col: 5, offset: 27353},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 839, col: 5, offset: 26900},
+																	pos: position{line: 852, col: 5, offset: 27353},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 839, col: 5, offset: 26900},
+																			pos:   position{line: 852, col: 5, offset: 27353},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				run: (*parser).callonDocumentHeader628,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23795},
+																					pos: position{line: 760, col: 5, offset: 24248},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23795},
+																							pos:   position{line: 760, col: 5, offset: 24248},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								run: (*parser).callonDocumentHeader631,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23806},
+																									pos: position{line: 760, col: 16, offset: 24259},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23806},
+																											pos:        position{line: 760, col: 16, offset: 24259},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23813},
+																											pos: position{line: 760, col: 23, offset: 24266},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23813},
+																												pos:        position{line: 760, col: 23, offset: 24266},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -19159,12 +19594,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23897},
+																							pos: position{line: 762, col: 8, offset: 24350},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19173,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19203,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -19215,15 +19650,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 840, col: 5, offset: 26931},
+																			pos: position{line: 853, col: 5, offset: 27384},
 																			run: (*parser).callonDocumentHeader647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -19242,26 +19677,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1127, col: 1, offset: 34710},
+			pos:  position{line: 1140, col: 1, offset: 35163},
 			expr: &actionExpr{
-				pos: position{line: 1128, col: 5, offset: 34732},
+				pos: position{line: 1141, col: 5, offset: 35185},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1128, col: 5, offset: 34732},
+					pos: position{line: 1141, col: 5, offset: 35185},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1128, col: 5, offset: 34732},
+							pos:        position{line: 1141, col: 5, offset: 35185},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 91008},
+							pos: position{line: 2890, col: 11, offset: 91461},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 91008},
+								pos: position{line: 2890, col: 11, offset: 91461},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 91008},
+									pos:        position{line: 2890, col: 11, offset: 91461},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19270,36 +19705,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1128, col: 16, offset: 34743},
+							pos:   position{line: 1141, col: 16, offset: 35196},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1128, col: 23, offset: 34750},
+								pos:  position{line: 1141, col: 23, offset: 35203},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19308,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -19321,23 +19756,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1155, col: 1, offset: 35590},
+			pos:  position{line: 1168, col: 1, offset: 36043},
 			expr: &actionExpr{
-				pos: position{line: 1156, col: 5, offset: 35621},
+				pos: position{line: 1169, col: 5, offset: 36074},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1156, col: 5, offset: 35621},
+					pos: position{line: 1169, col: 5, offset: 36074},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1156, col: 5, offset: 35621},
+							pos:   position{line: 1169, col: 5, offset: 36074},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1156, col: 12, offset: 35628},
+								pos: position{line: 1169, col: 12, offset: 36081},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1156, col: 12, offset: 35628},
+									pos: position{line: 1169, col: 12, offset: 36081},
 									expr: &charClassMatcher{
-										pos:        position{line: 1156, col: 12, offset: 35628},
+										pos:        position{line: 1169, col: 12, offset: 36081},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19347,12 +19782,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1159, col: 5, offset: 35708},
+							pos: position{line: 1172, col: 5, offset: 36161},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19361,17 +19796,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1160, col: 5, offset: 35719},
+							pos:   position{line: 1173, col: 5, offset: 36172},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1160, col: 11, offset: 35725},
+								pos: position{line: 1173, col: 11, offset: 36178},
 								expr: &actionExpr{
-									pos: position{line: 1160, col: 12, offset: 35726},
+									pos: position{line: 1173, col: 12, offset: 36179},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1160, col: 12, offset: 35726},
+										pos: position{line: 1173, col: 12, offset: 36179},
 										expr: &charClassMatcher{
-											pos:        position{line: 1160, col: 12, offset: 35726},
+											pos:        position{line: 1173, col: 12, offset: 36179},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19382,12 +19817,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1163, col: 5, offset: 35807},
+							pos: position{line: 1176, col: 5, offset: 36260},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19396,17 +19831,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1164, col: 5, offset: 35818},
+							pos:   position{line: 1177, col: 5, offset: 36271},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1164, col: 11, offset: 35824},
+								pos: position{line: 1177, col: 11, offset: 36277},
 								expr: &actionExpr{
-									pos: position{line: 1164, col: 12, offset: 35825},
+									pos: position{line: 1177, col: 12, offset: 36278},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1164, col: 12, offset: 35825},
+										pos: position{line: 1177, col: 12, offset: 36278},
 										expr: &charClassMatcher{
-											pos:        position{line: 1164, col: 12, offset: 35825},
+											pos:        position{line: 1177, col: 12, offset: 36278},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19417,12 +19852,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1167, col: 5, offset: 35904},
+							pos: position{line: 1180, col: 5, offset: 36357},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19436,28 +19871,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1285, col: 1, offset: 39737},
+			pos:  position{line: 1298, col: 1, offset: 40190},
 			expr: &actionExpr{
-				pos: position{line: 1286, col: 5, offset: 39758},
+				pos: position{line: 1299, col: 5, offset: 40211},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1286, col: 5, offset: 39758},
+					pos: position{line: 1299, col: 5, offset: 40211},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1286, col: 5, offset: 39758},
+							pos: position{line: 1299, col: 5, offset: 40211},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1289, col: 5, offset: 39817},
+							pos:        position{line: 1302, col: 5, offset: 40270},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1289, col: 12, offset: 39824},
+							pos:   position{line: 1302, col: 12, offset: 40277},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1289, col: 24, offset: 39836},
+								pos:  position{line: 1302, col: 24, offset: 40289},
 								name: "InlineAttributes",
 							},
 						},
@@ -19467,33 +19902,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1296, col: 1, offset: 40124},
+			pos:  position{line: 1309, col: 1, offset: 40577},
 			expr: &actionExpr{
-				pos: position{line: 1297, col: 5, offset: 40143},
+				pos: position{line: 1310, col: 5, offset: 40596},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1297, col: 5, offset: 40143},
+					pos: position{line: 1310, col: 5, offset: 40596},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1297, col: 5, offset: 40143},
+							pos: position{line: 1310, col: 5, offset: 40596},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1300, col: 5, offset: 40202},
+							pos:        position{line: 1313, col: 5, offset: 40655},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 13, offset: 40210},
+							pos:   position{line: 1313, col: 13, offset: 40663},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 7, offset: 90599},
+								pos: position{line: 2871, col: 7, offset: 91052},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2858, col: 7, offset: 90599},
+									pos: position{line: 2871, col: 7, offset: 91052},
 									expr: &charClassMatcher{
-										pos:        position{line: 2858, col: 7, offset: 90599},
+										pos:        position{line: 2871, col: 7, offset: 91052},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19503,10 +19938,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1300, col: 21, offset: 40218},
+							pos:   position{line: 1313, col: 21, offset: 40671},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1300, col: 33, offset: 40230},
+								pos:  position{line: 1313, col: 33, offset: 40683},
 								name: "InlineAttributes",
 							},
 						},
@@ -19516,29 +19951,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1307, col: 1, offset: 40529},
+			pos:  position{line: 1320, col: 1, offset: 40982},
 			expr: &actionExpr{
-				pos: position{line: 1307, col: 14, offset: 40542},
+				pos: position{line: 1320, col: 14, offset: 40995},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1307, col: 14, offset: 40542},
+					pos: position{line: 1320, col: 14, offset: 40995},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1307, col: 14, offset: 40542},
+							pos:        position{line: 1320, col: 14, offset: 40995},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1307, col: 19, offset: 40547},
+							pos:   position{line: 1320, col: 19, offset: 41000},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1307, col: 25, offset: 40553},
+								pos:  position{line: 1320, col: 25, offset: 41006},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1307, col: 43, offset: 40571},
+							pos:        position{line: 1320, col: 43, offset: 41024},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19549,25 +19984,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1311, col: 1, offset: 40640},
+			pos:  position{line: 1324, col: 1, offset: 41093},
 			expr: &actionExpr{
-				pos: position{line: 1311, col: 21, offset: 40660},
+				pos: position{line: 1324, col: 21, offset: 41113},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1311, col: 21, offset: 40660},
+					pos:   position{line: 1324, col: 21, offset: 41113},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1311, col: 30, offset: 40669},
+						pos: position{line: 1324, col: 30, offset: 41122},
 						expr: &choiceExpr{
-							pos: position{line: 1311, col: 31, offset: 40670},
+							pos: position{line: 1324, col: 31, offset: 41123},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88102},
+									pos: position{line: 2780, col: 14, offset: 88555},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88102},
+										pos: position{line: 2780, col: 14, offset: 88555},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88102},
+											pos:        position{line: 2780, col: 14, offset: 88555},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19576,14 +20011,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1311, col: 43, offset: 40682},
+									pos:  position{line: 1324, col: 43, offset: 41135},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90947},
+									pos: position{line: 2886, col: 10, offset: 91400},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90947},
+										pos:        position{line: 2886, col: 10, offset: 91400},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19591,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79464},
+									pos: position{line: 2483, col: 5, offset: 79917},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79464},
+										pos: position{line: 2483, col: 5, offset: 79917},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79464},
+												pos: position{line: 2483, col: 5, offset: 79917},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79540},
+												pos:   position{line: 2486, col: 5, offset: 79993},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79558},
+													pos: position{line: 2487, col: 9, offset: 80011},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79559},
+														pos:        position{line: 2487, col: 10, offset: 80012},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19619,27 +20054,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1213, col: 23, offset: 37389},
+									pos: position{line: 1226, col: 23, offset: 37842},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1213, col: 23, offset: 37389},
+										pos: position{line: 1226, col: 23, offset: 37842},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1211, col: 32, offset: 37357},
+												pos:        position{line: 1224, col: 32, offset: 37810},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1213, col: 51, offset: 37417},
+												pos:   position{line: 1226, col: 51, offset: 37870},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1213, col: 56, offset: 37422},
+													pos: position{line: 1226, col: 56, offset: 37875},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1213, col: 56, offset: 37422},
+														pos: position{line: 1226, col: 56, offset: 37875},
 														expr: &charClassMatcher{
-															pos:        position{line: 1213, col: 56, offset: 37422},
+															pos:        position{line: 1226, col: 56, offset: 37875},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19649,7 +20084,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1211, col: 32, offset: 37357},
+												pos:        position{line: 1224, col: 32, offset: 37810},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19658,22 +20093,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1311, col: 104, offset: 40743},
+									pos: position{line: 1324, col: 104, offset: 41196},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1311, col: 105, offset: 40744},
+										pos: position{line: 1324, col: 105, offset: 41197},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1311, col: 105, offset: 40744},
+												pos: position{line: 1324, col: 105, offset: 41197},
 												expr: &litMatcher{
-													pos:        position{line: 1311, col: 106, offset: 40745},
+													pos:        position{line: 1324, col: 106, offset: 41198},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1311, col: 111, offset: 40750,
+												line: 1324, col: 111, offset: 41203,
 											},
 										},
 									},
@@ -19686,65 +20121,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1331, col: 1, offset: 41459},
+			pos:  position{line: 1344, col: 1, offset: 41912},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 5, offset: 41478},
+				pos: position{line: 1345, col: 5, offset: 41931},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 5, offset: 41478},
+					pos: position{line: 1345, col: 5, offset: 41931},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 5, offset: 41478},
+							pos:        position{line: 1345, col: 5, offset: 41931},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 15, offset: 41488},
+							pos:   position{line: 1345, col: 15, offset: 41941},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89706},
+								pos: position{line: 2844, col: 13, offset: 90159},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89706},
+									pos: position{line: 2844, col: 13, offset: 90159},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89706},
+											pos:   position{line: 2844, col: 13, offset: 90159},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89713},
+												pos: position{line: 2844, col: 20, offset: 90166},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89952},
+													pos: position{line: 2852, col: 11, offset: 90405},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89953},
+														pos: position{line: 2852, col: 12, offset: 90406},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89953},
+																pos:        position{line: 2852, col: 12, offset: 90406},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89965},
+																pos:        position{line: 2852, col: 24, offset: 90418},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89978},
+																pos:        position{line: 2852, col: 37, offset: 90431},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89989},
+																pos:        position{line: 2852, col: 48, offset: 90442},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 90000},
+																pos:        position{line: 2852, col: 59, offset: 90453},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19755,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89723},
+											pos:   position{line: 2844, col: 30, offset: 90176},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90064},
+												pos: position{line: 2857, col: 5, offset: 90517},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90064},
+													pos:   position{line: 2857, col: 5, offset: 90517},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90073},
+														pos: position{line: 2857, col: 14, offset: 90526},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90083},
+															pos: position{line: 2858, col: 9, offset: 90536},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90083},
+																		pos: position{line: 2858, col: 9, offset: 90536},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90084},
+																					pos:        position{line: 2858, col: 10, offset: 90537},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90112},
+																				pos: position{line: 2859, col: 9, offset: 90565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90113},
+																					pos:        position{line: 2859, col: 10, offset: 90566},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19797,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90325},
+																	pos: position{line: 2862, col: 11, offset: 90778},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90325},
+																			pos:        position{line: 2862, col: 11, offset: 90778},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90333},
+																			pos: position{line: 2862, col: 19, offset: 90786},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90335},
+																				pos: position{line: 2862, col: 21, offset: 90788},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19826,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90342},
+																						pos: position{line: 2862, col: 28, offset: 90795},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -19840,35 +20275,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 643, col: 5, offset: 20301},
+																	pos: position{line: 656, col: 5, offset: 20754},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 643, col: 5, offset: 20301},
+																		pos: position{line: 656, col: 5, offset: 20754},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 5, offset: 20373},
+																				pos:   position{line: 659, col: 5, offset: 20826},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 646, col: 14, offset: 20382},
+																					pos: position{line: 659, col: 14, offset: 20835},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20511},
+																								pos: position{line: 665, col: 5, offset: 20964},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20511},
+																										pos:        position{line: 665, col: 5, offset: 20964},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 13, offset: 20519},
+																										pos:   position{line: 665, col: 13, offset: 20972},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -19900,7 +20335,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 32, offset: 20538},
+																										pos:        position{line: 665, col: 32, offset: 20991},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19909,19 +20344,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 5, offset: 20779},
+																								pos: position{line: 672, col: 5, offset: 21232},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 5, offset: 20779},
+																										pos:        position{line: 672, col: 5, offset: 21232},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 9, offset: 20783},
+																										pos:   position{line: 672, col: 9, offset: 21236},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -19953,7 +20388,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 28, offset: 20802},
+																										pos:        position{line: 672, col: 28, offset: 21255},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19962,19 +20397,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 20983},
+																							pos: position{line: 678, col: 25, offset: 21436},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 20983},
+																								pos: position{line: 678, col: 25, offset: 21436},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 20983},
+																										pos:        position{line: 678, col: 25, offset: 21436},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 37, offset: 20995},
+																										pos:   position{line: 678, col: 37, offset: 21448},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20006,33 +20441,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 56, offset: 21014},
+																										pos:   position{line: 678, col: 56, offset: 21467},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 62, offset: 21020},
+																											pos: position{line: 678, col: 62, offset: 21473},
 																											expr: &actionExpr{
-																												pos: position{line: 673, col: 17, offset: 21315},
+																												pos: position{line: 686, col: 17, offset: 21768},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 673, col: 17, offset: 21315},
+																													pos: position{line: 686, col: 17, offset: 21768},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 673, col: 17, offset: 21315},
+																															pos:        position{line: 686, col: 17, offset: 21768},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 673, col: 21, offset: 21319},
+																															pos:   position{line: 686, col: 21, offset: 21772},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 673, col: 28, offset: 21326},
+																																			pos:        position{line: 686, col: 28, offset: 21779},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20040,12 +20475,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 9, offset: 21380},
+																																		pos: position{line: 688, col: 9, offset: 21833},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 675, col: 9, offset: 21380},
+																																			pos: position{line: 688, col: 9, offset: 21833},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 675, col: 9, offset: 21380},
+																																				pos:        position{line: 688, col: 9, offset: 21833},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20062,7 +20497,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 78, offset: 21036},
+																										pos:        position{line: 678, col: 78, offset: 21489},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20071,19 +20506,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 25, offset: 21154},
+																							pos: position{line: 682, col: 25, offset: 21607},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 669, col: 25, offset: 21154},
+																								pos: position{line: 682, col: 25, offset: 21607},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 669, col: 25, offset: 21154},
+																										pos:        position{line: 682, col: 25, offset: 21607},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 669, col: 38, offset: 21167},
+																										pos:   position{line: 682, col: 38, offset: 21620},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20115,33 +20550,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 669, col: 57, offset: 21186},
+																										pos:   position{line: 682, col: 57, offset: 21639},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 669, col: 63, offset: 21192},
+																											pos: position{line: 682, col: 63, offset: 21645},
 																											expr: &actionExpr{
-																												pos: position{line: 673, col: 17, offset: 21315},
+																												pos: position{line: 686, col: 17, offset: 21768},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 673, col: 17, offset: 21315},
+																													pos: position{line: 686, col: 17, offset: 21768},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 673, col: 17, offset: 21315},
+																															pos:        position{line: 686, col: 17, offset: 21768},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 673, col: 21, offset: 21319},
+																															pos:   position{line: 686, col: 21, offset: 21772},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 673, col: 28, offset: 21326},
+																																			pos:        position{line: 686, col: 28, offset: 21779},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20149,12 +20584,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 9, offset: 21380},
+																																		pos: position{line: 688, col: 9, offset: 21833},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 675, col: 9, offset: 21380},
+																																			pos: position{line: 688, col: 9, offset: 21833},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 675, col: 9, offset: 21380},
+																																				pos:        position{line: 688, col: 9, offset: 21833},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20171,7 +20606,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 669, col: 79, offset: 21208},
+																										pos:        position{line: 682, col: 79, offset: 21661},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20186,27 +20621,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1213, col: 23, offset: 37389},
+																	pos: position{line: 1226, col: 23, offset: 37842},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1213, col: 23, offset: 37389},
+																		pos: position{line: 1226, col: 23, offset: 37842},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37357},
+																				pos:        position{line: 1224, col: 32, offset: 37810},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1213, col: 51, offset: 37417},
+																				pos:   position{line: 1226, col: 51, offset: 37870},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1213, col: 56, offset: 37422},
+																					pos: position{line: 1226, col: 56, offset: 37875},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1213, col: 56, offset: 37422},
+																						pos: position{line: 1226, col: 56, offset: 37875},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1213, col: 56, offset: 37422},
+																							pos:        position{line: 1226, col: 56, offset: 37875},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20216,7 +20651,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37357},
+																				pos:        position{line: 1224, col: 32, offset: 37810},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20225,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90462},
+																	pos: position{line: 2865, col: 11, offset: 90915},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90462},
+																		pos:        position{line: 2865, col: 11, offset: 90915},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20245,20 +20680,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 31, offset: 41504},
+							pos:   position{line: 1345, col: 31, offset: 41957},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 43, offset: 41516},
+								pos:  position{line: 1345, col: 43, offset: 41969},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1332, col: 61, offset: 41534},
+							pos: position{line: 1345, col: 61, offset: 41987},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20267,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20297,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -20310,74 +20745,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1337, col: 1, offset: 41751},
+			pos:  position{line: 1350, col: 1, offset: 42204},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 16, offset: 41766},
+				pos: position{line: 1350, col: 16, offset: 42219},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1337, col: 16, offset: 41766},
+					pos: position{line: 1350, col: 16, offset: 42219},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1337, col: 16, offset: 41766},
+							pos:        position{line: 1350, col: 16, offset: 42219},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1337, col: 25, offset: 41775},
+							pos: position{line: 1350, col: 25, offset: 42228},
 							expr: &litMatcher{
-								pos:        position{line: 1337, col: 26, offset: 41776},
+								pos:        position{line: 1350, col: 26, offset: 42229},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 30, offset: 41780},
+							pos:   position{line: 1350, col: 30, offset: 42233},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89706},
+								pos: position{line: 2844, col: 13, offset: 90159},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89706},
+									pos: position{line: 2844, col: 13, offset: 90159},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89706},
+											pos:   position{line: 2844, col: 13, offset: 90159},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89713},
+												pos: position{line: 2844, col: 20, offset: 90166},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89952},
+													pos: position{line: 2852, col: 11, offset: 90405},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89953},
+														pos: position{line: 2852, col: 12, offset: 90406},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89953},
+																pos:        position{line: 2852, col: 12, offset: 90406},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89965},
+																pos:        position{line: 2852, col: 24, offset: 90418},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89978},
+																pos:        position{line: 2852, col: 37, offset: 90431},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 89989},
+																pos:        position{line: 2852, col: 48, offset: 90442},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 90000},
+																pos:        position{line: 2852, col: 59, offset: 90453},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20388,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89723},
+											pos:   position{line: 2844, col: 30, offset: 90176},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90064},
+												pos: position{line: 2857, col: 5, offset: 90517},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90064},
+													pos:   position{line: 2857, col: 5, offset: 90517},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90073},
+														pos: position{line: 2857, col: 14, offset: 90526},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90083},
+															pos: position{line: 2858, col: 9, offset: 90536},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90083},
+																		pos: position{line: 2858, col: 9, offset: 90536},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90084},
+																					pos:        position{line: 2858, col: 10, offset: 90537},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90112},
+																				pos: position{line: 2859, col: 9, offset: 90565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90113},
+																					pos:        position{line: 2859, col: 10, offset: 90566},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20430,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90325},
+																	pos: position{line: 2862, col: 11, offset: 90778},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90325},
+																			pos:        position{line: 2862, col: 11, offset: 90778},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90333},
+																			pos: position{line: 2862, col: 19, offset: 90786},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90335},
+																				pos: position{line: 2862, col: 21, offset: 90788},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20459,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90342},
+																						pos: position{line: 2862, col: 28, offset: 90795},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -20473,35 +20908,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 643, col: 5, offset: 20301},
+																	pos: position{line: 656, col: 5, offset: 20754},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 643, col: 5, offset: 20301},
+																		pos: position{line: 656, col: 5, offset: 20754},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 646, col: 5, offset: 20373},
+																				pos:   position{line: 659, col: 5, offset: 20826},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 646, col: 14, offset: 20382},
+																					pos: position{line: 659, col: 14, offset: 20835},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20511},
+																							pos: position{line: 665, col: 5, offset: 20964},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20511},
+																								pos: position{line: 665, col: 5, offset: 20964},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20511},
+																										pos:        position{line: 665, col: 5, offset: 20964},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 13, offset: 20519},
+																										pos:   position{line: 665, col: 13, offset: 20972},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20533,7 +20968,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 32, offset: 20538},
+																										pos:        position{line: 665, col: 32, offset: 20991},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20542,19 +20977,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 659, col: 5, offset: 20779},
+																							pos: position{line: 672, col: 5, offset: 21232},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 659, col: 5, offset: 20779},
+																								pos: position{line: 672, col: 5, offset: 21232},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 659, col: 5, offset: 20779},
+																										pos:        position{line: 672, col: 5, offset: 21232},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 9, offset: 20783},
+																										pos:   position{line: 672, col: 9, offset: 21236},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20586,7 +21021,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 659, col: 28, offset: 20802},
+																										pos:        position{line: 672, col: 28, offset: 21255},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20595,19 +21030,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 20983},
+																							pos: position{line: 678, col: 25, offset: 21436},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 20983},
+																								pos: position{line: 678, col: 25, offset: 21436},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 20983},
+																										pos:        position{line: 678, col: 25, offset: 21436},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 37, offset: 20995},
+																										pos:   position{line: 678, col: 37, offset: 21448},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20639,33 +21074,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 56, offset: 21014},
+																										pos:   position{line: 678, col: 56, offset: 21467},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 62, offset: 21020},
+																											pos: position{line: 678, col: 62, offset: 21473},
 																											expr: &actionExpr{
-																												pos: position{line: 673, col: 17, offset: 21315},
+																												pos: position{line: 686, col: 17, offset: 21768},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 673, col: 17, offset: 21315},
+																													pos: position{line: 686, col: 17, offset: 21768},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 673, col: 17, offset: 21315},
+																															pos:        position{line: 686, col: 17, offset: 21768},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 673, col: 21, offset: 21319},
+																															pos:   position{line: 686, col: 21, offset: 21772},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 673, col: 28, offset: 21326},
+																																			pos:        position{line: 686, col: 28, offset: 21779},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20673,12 +21108,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 9, offset: 21380},
+																																		pos: position{line: 688, col: 9, offset: 21833},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 675, col: 9, offset: 21380},
+																																			pos: position{line: 688, col: 9, offset: 21833},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 675, col: 9, offset: 21380},
+																																				pos:        position{line: 688, col: 9, offset: 21833},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20695,7 +21130,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 78, offset: 21036},
+																										pos:        position{line: 678, col: 78, offset: 21489},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20704,19 +21139,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 669, col: 25, offset: 21154},
+																							pos: position{line: 682, col: 25, offset: 21607},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 669, col: 25, offset: 21154},
+																								pos: position{line: 682, col: 25, offset: 21607},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 669, col: 25, offset: 21154},
+																										pos:        position{line: 682, col: 25, offset: 21607},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 669, col: 38, offset: 21167},
+																										pos:   position{line: 682, col: 38, offset: 21620},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20748,33 +21183,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 669, col: 57, offset: 21186},
+																										pos:   position{line: 682, col: 57, offset: 21639},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 669, col: 63, offset: 21192},
+																											pos: position{line: 682, col: 63, offset: 21645},
 																											expr: &actionExpr{
-																												pos: position{line: 673, col: 17, offset: 21315},
+																												pos: position{line: 686, col: 17, offset: 21768},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 673, col: 17, offset: 21315},
+																													pos: position{line: 686, col: 17, offset: 21768},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 673, col: 17, offset: 21315},
+																															pos:        position{line: 686, col: 17, offset: 21768},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 673, col: 21, offset: 21319},
+																															pos:   position{line: 686, col: 21, offset: 21772},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 673, col: 28, offset: 21326},
+																																			pos:        position{line: 686, col: 28, offset: 21779},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20782,12 +21217,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 675, col: 9, offset: 21380},
+																																		pos: position{line: 688, col: 9, offset: 21833},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 675, col: 9, offset: 21380},
+																																			pos: position{line: 688, col: 9, offset: 21833},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 675, col: 9, offset: 21380},
+																																				pos:        position{line: 688, col: 9, offset: 21833},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20804,7 +21239,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 669, col: 79, offset: 21208},
+																										pos:        position{line: 682, col: 79, offset: 21661},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20819,27 +21254,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1213, col: 23, offset: 37389},
+																	pos: position{line: 1226, col: 23, offset: 37842},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1213, col: 23, offset: 37389},
+																		pos: position{line: 1226, col: 23, offset: 37842},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37357},
+																				pos:        position{line: 1224, col: 32, offset: 37810},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1213, col: 51, offset: 37417},
+																				pos:   position{line: 1226, col: 51, offset: 37870},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1213, col: 56, offset: 37422},
+																					pos: position{line: 1226, col: 56, offset: 37875},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1213, col: 56, offset: 37422},
+																						pos: position{line: 1226, col: 56, offset: 37875},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1213, col: 56, offset: 37422},
+																							pos:        position{line: 1226, col: 56, offset: 37875},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20849,7 +21284,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37357},
+																				pos:        position{line: 1224, col: 32, offset: 37810},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20858,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90462},
+																	pos: position{line: 2865, col: 11, offset: 90915},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90462},
+																		pos:        position{line: 2865, col: 11, offset: 90915},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20878,10 +21313,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1337, col: 46, offset: 41796},
+							pos:   position{line: 1350, col: 46, offset: 42249},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1337, col: 58, offset: 41808},
+								pos:  position{line: 1350, col: 58, offset: 42261},
 								name: "InlineAttributes",
 							},
 						},
@@ -20891,29 +21326,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1344, col: 1, offset: 42204},
+			pos:  position{line: 1357, col: 1, offset: 42657},
 			expr: &actionExpr{
-				pos: position{line: 1344, col: 15, offset: 42218},
+				pos: position{line: 1357, col: 15, offset: 42671},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1344, col: 15, offset: 42218},
+					pos: position{line: 1357, col: 15, offset: 42671},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1344, col: 15, offset: 42218},
+							pos:        position{line: 1357, col: 15, offset: 42671},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 23, offset: 42226},
+							pos:   position{line: 1357, col: 23, offset: 42679},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1344, col: 29, offset: 42232},
+								pos: position{line: 1357, col: 29, offset: 42685},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1344, col: 29, offset: 42232},
+									pos: position{line: 1357, col: 29, offset: 42685},
 									expr: &charClassMatcher{
-										pos:        position{line: 1344, col: 29, offset: 42232},
+										pos:        position{line: 1357, col: 29, offset: 42685},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20924,10 +21359,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1344, col: 73, offset: 42276},
+							pos:   position{line: 1357, col: 73, offset: 42729},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1344, col: 85, offset: 42288},
+								pos:  position{line: 1357, col: 85, offset: 42741},
 								name: "InlineAttributes",
 							},
 						},
@@ -20937,31 +21372,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1351, col: 1, offset: 42654},
+			pos:  position{line: 1364, col: 1, offset: 43107},
 			expr: &actionExpr{
-				pos: position{line: 1351, col: 19, offset: 42672},
+				pos: position{line: 1364, col: 19, offset: 43125},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1351, col: 19, offset: 42672},
+					pos: position{line: 1364, col: 19, offset: 43125},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1351, col: 19, offset: 42672},
+							pos:        position{line: 1364, col: 19, offset: 43125},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 31, offset: 42684},
+							pos:   position{line: 1364, col: 31, offset: 43137},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1351, col: 35, offset: 42688},
+								pos: position{line: 1364, col: 35, offset: 43141},
 								expr: &actionExpr{
-									pos: position{line: 1355, col: 16, offset: 42848},
+									pos: position{line: 1368, col: 16, offset: 43301},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1355, col: 16, offset: 42848},
+										pos: position{line: 1368, col: 16, offset: 43301},
 										expr: &charClassMatcher{
-											pos:        position{line: 1355, col: 16, offset: 42848},
+											pos:        position{line: 1368, col: 16, offset: 43301},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20973,21 +21408,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1351, col: 50, offset: 42703},
+							pos:        position{line: 1364, col: 50, offset: 43156},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 54, offset: 42707},
+							pos:   position{line: 1364, col: 54, offset: 43160},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1351, col: 64, offset: 42717},
+								pos:  position{line: 1364, col: 64, offset: 43170},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1351, col: 82, offset: 42735},
+							pos:        position{line: 1364, col: 82, offset: 43188},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20998,17 +21433,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1357, col: 1, offset: 42892},
+			pos:  position{line: 1370, col: 1, offset: 43345},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 21, offset: 42912},
+				pos: position{line: 1370, col: 21, offset: 43365},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1357, col: 21, offset: 42912},
+					pos:   position{line: 1370, col: 21, offset: 43365},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1357, col: 30, offset: 42921},
+						pos: position{line: 1370, col: 30, offset: 43374},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1357, col: 31, offset: 42922},
+							pos:  position{line: 1370, col: 31, offset: 43375},
 							name: "FootnoteElement",
 						},
 					},
@@ -21017,44 +21452,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1361, col: 1, offset: 43014},
+			pos:  position{line: 1374, col: 1, offset: 43467},
 			expr: &actionExpr{
-				pos: position{line: 1362, col: 5, offset: 43038},
+				pos: position{line: 1375, col: 5, offset: 43491},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1362, col: 5, offset: 43038},
+					pos: position{line: 1375, col: 5, offset: 43491},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1362, col: 5, offset: 43038},
+							pos: position{line: 1375, col: 5, offset: 43491},
 							expr: &litMatcher{
-								pos:        position{line: 1362, col: 6, offset: 43039},
+								pos:        position{line: 1375, col: 6, offset: 43492},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1363, col: 5, offset: 43048},
+							pos:   position{line: 1376, col: 5, offset: 43501},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1364, col: 9, offset: 43066},
+								pos: position{line: 1377, col: 9, offset: 43519},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88175},
+										pos: position{line: 2785, col: 5, offset: 88628},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88175},
+											pos: position{line: 2785, col: 5, offset: 88628},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88175},
+													pos:   position{line: 2785, col: 5, offset: 88628},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88181},
+														pos: position{line: 2785, col: 11, offset: 88634},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88181},
+															pos: position{line: 2785, col: 11, offset: 88634},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88181},
+																pos:        position{line: 2785, col: 11, offset: 88634},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21064,32 +21499,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88239},
+													pos: position{line: 2788, col: 5, offset: 88692},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88250},
+														pos: position{line: 2789, col: 9, offset: 88703},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88250},
+																pos:        position{line: 2789, col: 9, offset: 88703},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88299},
+																pos: position{line: 2790, col: 9, offset: 88752},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88379},
+													pos: position{line: 2794, col: 5, offset: 88832},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88390},
+														pos: position{line: 2795, col: 9, offset: 88843},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88390},
+																pos: position{line: 2795, col: 9, offset: 88843},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	pos:        position{line: 2795, col: 9, offset: 88843},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21098,13 +21533,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 23, offset: 88404},
+																pos:        position{line: 2795, col: 23, offset: 88857},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 27, offset: 88408},
+																pos:        position{line: 2795, col: 27, offset: 88861},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21117,12 +21552,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 91008},
+										pos: position{line: 2890, col: 11, offset: 91461},
 										run: (*parser).callonFootnoteElement23,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 91008},
+											pos: position{line: 2890, col: 11, offset: 91461},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 91008},
+												pos:        position{line: 2890, col: 11, offset: 91461},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21131,21 +21566,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80635},
+										pos: position{line: 2514, col: 5, offset: 81088},
 										run: (*parser).callonFootnoteElement26,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80635},
+											pos: position{line: 2514, col: 5, offset: 81088},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80635},
+													pos:        position{line: 2514, col: 5, offset: 81088},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80640},
+													pos: position{line: 2514, col: 10, offset: 81093},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80641},
+														pos:        position{line: 2514, col: 11, offset: 81094},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21156,29 +21591,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80833},
+										pos: position{line: 2520, col: 5, offset: 81286},
 										run: (*parser).callonFootnoteElement31,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80833},
+											pos: position{line: 2520, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80833},
+													pos: position{line: 2520, col: 5, offset: 81286},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80904},
+													pos: position{line: 2523, col: 5, offset: 81357},
 													run: (*parser).callonFootnoteElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81029},
+													pos:        position{line: 2527, col: 5, offset: 81482},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81033},
+													pos: position{line: 2527, col: 9, offset: 81486},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81034},
+														pos:        position{line: 2527, col: 10, offset: 81487},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21189,35 +21624,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1367, col: 11, offset: 43133},
+										pos:  position{line: 1380, col: 11, offset: 43586},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1368, col: 11, offset: 43149},
+										pos:  position{line: 1381, col: 11, offset: 43602},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88601},
+										pos: position{line: 2803, col: 5, offset: 89054},
 										run: (*parser).callonFootnoteElement40,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88611},
+											pos: position{line: 2804, col: 9, offset: 89064},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88612},
+													pos:        position{line: 2804, col: 10, offset: 89065},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88709},
+													pos: position{line: 2806, col: 13, offset: 89162},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88709},
+															pos: position{line: 2806, col: 13, offset: 89162},
 															run: (*parser).callonFootnoteElement44,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88809},
+															pos:        position{line: 2809, col: 13, offset: 89262},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21225,20 +21660,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88815},
+													pos:        position{line: 2809, col: 19, offset: 89268},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88853},
+													pos: position{line: 2812, col: 13, offset: 89306},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88853},
+															pos: position{line: 2812, col: 13, offset: 89306},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88946},
+															pos:        position{line: 2815, col: 14, offset: 89399},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21247,18 +21682,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88990},
+													pos: position{line: 2817, col: 12, offset: 89443},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88990},
+															pos:        position{line: 2817, col: 12, offset: 89443},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88994},
+															pos: position{line: 2817, col: 16, offset: 89447},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88995},
+																pos:        position{line: 2817, col: 17, offset: 89448},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21270,36 +21705,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1370, col: 11, offset: 43222},
+										pos:  position{line: 1383, col: 11, offset: 43675},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1221, col: 5, offset: 37835},
+										pos: position{line: 1234, col: 5, offset: 38288},
 										run: (*parser).callonFootnoteElement55,
 										expr: &seqExpr{
-											pos: position{line: 1221, col: 5, offset: 37835},
+											pos: position{line: 1234, col: 5, offset: 38288},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1221, col: 5, offset: 37835},
+													pos: position{line: 1234, col: 5, offset: 38288},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&litMatcher{
-													pos:        position{line: 1224, col: 5, offset: 37911},
+													pos:        position{line: 1237, col: 5, offset: 38364},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1225, col: 5, offset: 37919},
+													pos: position{line: 1238, col: 5, offset: 38372},
 													run: (*parser).callonFootnoteElement59,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1229, col: 5, offset: 38006},
+													pos: position{line: 1242, col: 5, offset: 38459},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonFootnoteElement61,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21308,30 +21743,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1229, col: 12, offset: 38013},
+													pos: position{line: 1242, col: 12, offset: 38466},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonFootnoteElement65,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21340,9 +21775,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -21352,35 +21787,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 643, col: 5, offset: 20301},
+										pos: position{line: 656, col: 5, offset: 20754},
 										run: (*parser).callonFootnoteElement72,
 										expr: &seqExpr{
-											pos: position{line: 643, col: 5, offset: 20301},
+											pos: position{line: 656, col: 5, offset: 20754},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 643, col: 5, offset: 20301},
+													pos: position{line: 656, col: 5, offset: 20754},
 													run: (*parser).callonFootnoteElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 646, col: 5, offset: 20373},
+													pos:   position{line: 659, col: 5, offset: 20826},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 646, col: 14, offset: 20382},
+														pos: position{line: 659, col: 14, offset: 20835},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20511},
+																pos: position{line: 665, col: 5, offset: 20964},
 																run: (*parser).callonFootnoteElement77,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20511},
+																	pos: position{line: 665, col: 5, offset: 20964},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20511},
+																			pos:        position{line: 665, col: 5, offset: 20964},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 13, offset: 20519},
+																			pos:   position{line: 665, col: 13, offset: 20972},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21412,7 +21847,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 32, offset: 20538},
+																			pos:        position{line: 665, col: 32, offset: 20991},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21421,19 +21856,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 5, offset: 20779},
+																pos: position{line: 672, col: 5, offset: 21232},
 																run: (*parser).callonFootnoteElement87,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 5, offset: 20779},
+																	pos: position{line: 672, col: 5, offset: 21232},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 5, offset: 20779},
+																			pos:        position{line: 672, col: 5, offset: 21232},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 9, offset: 20783},
+																			pos:   position{line: 672, col: 9, offset: 21236},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21465,7 +21900,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 28, offset: 20802},
+																			pos:        position{line: 672, col: 28, offset: 21255},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21474,19 +21909,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 20983},
+																pos: position{line: 678, col: 25, offset: 21436},
 																run: (*parser).callonFootnoteElement97,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 20983},
+																	pos: position{line: 678, col: 25, offset: 21436},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 20983},
+																			pos:        position{line: 678, col: 25, offset: 21436},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 37, offset: 20995},
+																			pos:   position{line: 678, col: 37, offset: 21448},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21518,33 +21953,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 56, offset: 21014},
+																			pos:   position{line: 678, col: 56, offset: 21467},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 62, offset: 21020},
+																				pos: position{line: 678, col: 62, offset: 21473},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonFootnoteElement108,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21552,12 +21987,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonFootnoteElement115,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21574,7 +22009,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 78, offset: 21036},
+																			pos:        position{line: 678, col: 78, offset: 21489},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21583,19 +22018,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 669, col: 25, offset: 21154},
+																pos: position{line: 682, col: 25, offset: 21607},
 																run: (*parser).callonFootnoteElement119,
 																expr: &seqExpr{
-																	pos: position{line: 669, col: 25, offset: 21154},
+																	pos: position{line: 682, col: 25, offset: 21607},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 669, col: 25, offset: 21154},
+																			pos:        position{line: 682, col: 25, offset: 21607},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 38, offset: 21167},
+																			pos:   position{line: 682, col: 38, offset: 21620},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21627,33 +22062,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 57, offset: 21186},
+																			pos:   position{line: 682, col: 57, offset: 21639},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 669, col: 63, offset: 21192},
+																				pos: position{line: 682, col: 63, offset: 21645},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonFootnoteElement130,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21661,12 +22096,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonFootnoteElement137,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21683,7 +22118,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 669, col: 79, offset: 21208},
+																			pos:        position{line: 682, col: 79, offset: 21661},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21698,23 +22133,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79464},
+										pos: position{line: 2483, col: 5, offset: 79917},
 										run: (*parser).callonFootnoteElement141,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79464},
+													pos: position{line: 2483, col: 5, offset: 79917},
 													run: (*parser).callonFootnoteElement143,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79540},
+													pos:   position{line: 2486, col: 5, offset: 79993},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79558},
+														pos: position{line: 2487, col: 9, offset: 80011},
 														run: (*parser).callonFootnoteElement145,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79559},
+															pos:        position{line: 2487, col: 10, offset: 80012},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21726,25 +22161,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91118},
+										pos: position{line: 2895, col: 12, offset: 91571},
 										run: (*parser).callonFootnoteElement147,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91119},
+											pos: position{line: 2895, col: 13, offset: 91572},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91119},
+													pos:        position{line: 2895, col: 13, offset: 91572},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91126},
+													pos:        position{line: 2895, col: 20, offset: 91579},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91135},
+													pos:        position{line: 2895, col: 29, offset: 91588},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21753,10 +22188,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89255},
+										pos: position{line: 2825, col: 12, offset: 89708},
 										run: (*parser).callonFootnoteElement152,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89255},
+											pos:        position{line: 2825, col: 12, offset: 89708},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21772,32 +22207,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1409, col: 1, offset: 45067},
+			pos:  position{line: 1422, col: 1, offset: 45520},
 			expr: &choiceExpr{
-				pos: position{line: 1409, col: 21, offset: 45087},
+				pos: position{line: 1422, col: 21, offset: 45540},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1409, col: 21, offset: 45087},
+						pos: position{line: 1422, col: 21, offset: 45540},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1409, col: 21, offset: 45087},
+							pos: position{line: 1422, col: 21, offset: 45540},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1409, col: 21, offset: 45087},
+									pos:        position{line: 1422, col: 21, offset: 45540},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1409, col: 30, offset: 45096},
+									pos:   position{line: 1422, col: 30, offset: 45549},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1409, col: 38, offset: 45104},
+										pos: position{line: 1422, col: 38, offset: 45557},
 										expr: &actionExpr{
-											pos: position{line: 1415, col: 30, offset: 45430},
+											pos: position{line: 1428, col: 30, offset: 45883},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1415, col: 30, offset: 45430},
+												pos:        position{line: 1428, col: 30, offset: 45883},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21807,7 +22242,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1409, col: 67, offset: 45133},
+									pos:        position{line: 1422, col: 67, offset: 45586},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21816,34 +22251,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1411, col: 9, offset: 45237},
+						pos: position{line: 1424, col: 9, offset: 45690},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1411, col: 9, offset: 45237},
+							pos: position{line: 1424, col: 9, offset: 45690},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1411, col: 9, offset: 45237},
+									pos:        position{line: 1424, col: 9, offset: 45690},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1411, col: 19, offset: 45247},
+									pos:   position{line: 1424, col: 19, offset: 45700},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1411, col: 27, offset: 45255},
+										pos: position{line: 1424, col: 27, offset: 45708},
 										expr: &choiceExpr{
-											pos: position{line: 1411, col: 28, offset: 45256},
+											pos: position{line: 1424, col: 28, offset: 45709},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1411, col: 28, offset: 45256},
+													pos:  position{line: 1424, col: 28, offset: 45709},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1415, col: 30, offset: 45430},
+													pos: position{line: 1428, col: 30, offset: 45883},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1415, col: 30, offset: 45430},
+														pos:        position{line: 1428, col: 30, offset: 45883},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21855,7 +22290,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 69, offset: 45297},
+									pos:        position{line: 1424, col: 69, offset: 45750},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21868,75 +22303,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1422, col: 1, offset: 45686},
+			pos:  position{line: 1435, col: 1, offset: 46139},
 			expr: &choiceExpr{
-				pos: position{line: 1422, col: 9, offset: 45694},
+				pos: position{line: 1435, col: 9, offset: 46147},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1425, col: 5, offset: 45763},
+						pos: position{line: 1438, col: 5, offset: 46216},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1425, col: 5, offset: 45763},
+							pos: position{line: 1438, col: 5, offset: 46216},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45763},
+									pos:        position{line: 1438, col: 5, offset: 46216},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1426, col: 5, offset: 45772},
+									pos:   position{line: 1439, col: 5, offset: 46225},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89833},
+										pos: position{line: 2848, col: 23, offset: 90286},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89833},
+											pos: position{line: 2848, col: 23, offset: 90286},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89833},
+													pos: position{line: 2848, col: 23, offset: 90286},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89834},
+														pos:        position{line: 2848, col: 24, offset: 90287},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89838},
+													pos:   position{line: 2848, col: 28, offset: 90291},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89952},
+														pos: position{line: 2852, col: 11, offset: 90405},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89953},
+															pos: position{line: 2852, col: 12, offset: 90406},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89953},
+																	pos:        position{line: 2852, col: 12, offset: 90406},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89965},
+																	pos:        position{line: 2852, col: 24, offset: 90418},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89978},
+																	pos:        position{line: 2852, col: 37, offset: 90431},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89989},
+																	pos:        position{line: 2852, col: 48, offset: 90442},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90000},
+																	pos:        position{line: 2852, col: 59, offset: 90453},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21946,38 +22381,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89854},
+													pos:   position{line: 2848, col: 44, offset: 90307},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21988,27 +22423,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22017,11 +22452,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -22031,35 +22466,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22091,7 +22526,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22100,19 +22535,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22144,7 +22579,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22153,19 +22588,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22197,33 +22632,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22231,12 +22666,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22253,7 +22688,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22262,19 +22697,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22306,33 +22741,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22340,12 +22775,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22362,7 +22797,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22377,27 +22812,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22407,7 +22842,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22416,10 +22851,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22436,7 +22871,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 45991},
+									pos:        position{line: 1444, col: 5, offset: 46444},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22445,38 +22880,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1422, col: 19, offset: 45704},
+						pos:  position{line: 1435, col: 19, offset: 46157},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1422, col: 34, offset: 45719},
+						pos:  position{line: 1435, col: 34, offset: 46172},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1460, col: 17, offset: 46984},
+						pos: position{line: 1473, col: 17, offset: 47437},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1460, col: 17, offset: 46984},
+							pos: position{line: 1473, col: 17, offset: 47437},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1460, col: 17, offset: 46984},
+									pos:   position{line: 1473, col: 17, offset: 47437},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1465, col: 5, offset: 47149},
+										pos: position{line: 1478, col: 5, offset: 47602},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1465, col: 5, offset: 47149},
+											pos: position{line: 1478, col: 5, offset: 47602},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1465, col: 5, offset: 47149},
+													pos:   position{line: 1478, col: 5, offset: 47602},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1465, col: 12, offset: 47156},
+														pos: position{line: 1478, col: 12, offset: 47609},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1465, col: 12, offset: 47156},
+															pos: position{line: 1478, col: 12, offset: 47609},
 															expr: &charClassMatcher{
-																pos:        position{line: 1465, col: 12, offset: 47156},
+																pos:        position{line: 1478, col: 12, offset: 47609},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22488,7 +22923,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1468, col: 5, offset: 47240},
+													pos: position{line: 1481, col: 5, offset: 47693},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22496,33 +22931,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1460, col: 43, offset: 47010},
+									pos:        position{line: 1473, col: 43, offset: 47463},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1460, col: 47, offset: 47014},
+									pos:   position{line: 1473, col: 47, offset: 47467},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1477, col: 23, offset: 47534},
+										pos: position{line: 1490, col: 23, offset: 47987},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1477, col: 23, offset: 47534},
+											pos: position{line: 1490, col: 23, offset: 47987},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1477, col: 23, offset: 47534},
+													pos:   position{line: 1490, col: 23, offset: 47987},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1477, col: 31, offset: 47542},
+														pos: position{line: 1490, col: 31, offset: 47995},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1477, col: 31, offset: 47542},
+															pos: position{line: 1490, col: 31, offset: 47995},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1477, col: 31, offset: 47542},
+																	pos: position{line: 1490, col: 31, offset: 47995},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1477, col: 31, offset: 47542},
+																		pos:        position{line: 1490, col: 31, offset: 47995},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22530,23 +22965,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1477, col: 41, offset: 47552},
+																	pos: position{line: 1490, col: 41, offset: 48005},
 																	expr: &seqExpr{
-																		pos: position{line: 1477, col: 42, offset: 47553},
+																		pos: position{line: 1490, col: 42, offset: 48006},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1477, col: 42, offset: 47553},
+																				pos: position{line: 1490, col: 42, offset: 48006},
 																				expr: &litMatcher{
-																					pos:        position{line: 1477, col: 42, offset: 47553},
+																					pos:        position{line: 1490, col: 42, offset: 48006},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1477, col: 47, offset: 47558},
+																				pos: position{line: 1490, col: 47, offset: 48011},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1477, col: 47, offset: 47558},
+																					pos:        position{line: 1490, col: 47, offset: 48011},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -22557,20 +22992,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1477, col: 59, offset: 47570},
+																	pos: position{line: 1490, col: 59, offset: 48023},
 																	expr: &seqExpr{
-																		pos: position{line: 1477, col: 60, offset: 47571},
+																		pos: position{line: 1490, col: 60, offset: 48024},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1477, col: 60, offset: 47571},
+																				pos:        position{line: 1490, col: 60, offset: 48024},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1477, col: 64, offset: 47575},
+																				pos: position{line: 1490, col: 64, offset: 48028},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1477, col: 64, offset: 47575},
+																					pos:        position{line: 1490, col: 64, offset: 48028},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22586,7 +23021,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1480, col: 5, offset: 47636},
+													pos: position{line: 1493, col: 5, offset: 48089},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -22601,68 +23036,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1437, col: 1, offset: 46139},
+			pos:  position{line: 1450, col: 1, offset: 46592},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 5, offset: 46175},
+				pos: position{line: 1452, col: 5, offset: 46628},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46175},
+						pos: position{line: 1452, col: 5, offset: 46628},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46175},
+							pos: position{line: 1452, col: 5, offset: 46628},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46175},
+									pos:        position{line: 1452, col: 5, offset: 46628},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 17, offset: 46187},
+									pos:   position{line: 1452, col: 17, offset: 46640},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89706},
+										pos: position{line: 2844, col: 13, offset: 90159},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89706},
+											pos: position{line: 2844, col: 13, offset: 90159},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89706},
+													pos:   position{line: 2844, col: 13, offset: 90159},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89713},
+														pos: position{line: 2844, col: 20, offset: 90166},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89952},
+															pos: position{line: 2852, col: 11, offset: 90405},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89953},
+																pos: position{line: 2852, col: 12, offset: 90406},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89953},
+																		pos:        position{line: 2852, col: 12, offset: 90406},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89965},
+																		pos:        position{line: 2852, col: 24, offset: 90418},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89978},
+																		pos:        position{line: 2852, col: 37, offset: 90431},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89989},
+																		pos:        position{line: 2852, col: 48, offset: 90442},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 90000},
+																		pos:        position{line: 2852, col: 59, offset: 90453},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22673,38 +23108,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89723},
+													pos:   position{line: 2844, col: 30, offset: 90176},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22715,27 +23150,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22744,11 +23179,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -22758,35 +23193,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22818,7 +23253,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22827,19 +23262,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22871,7 +23306,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22880,19 +23315,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22924,33 +23359,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22958,12 +23393,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22980,7 +23415,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22989,19 +23424,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23033,33 +23468,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23067,12 +23502,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23089,7 +23524,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23104,27 +23539,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23134,7 +23569,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23143,10 +23578,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23163,10 +23598,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 32, offset: 46202},
+									pos:   position{line: 1452, col: 32, offset: 46655},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1439, col: 44, offset: 46214},
+										pos:  position{line: 1452, col: 44, offset: 46667},
 										name: "InlineAttributes",
 									},
 								},
@@ -23174,63 +23609,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46346},
+						pos: position{line: 1457, col: 5, offset: 46799},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46346},
+							pos: position{line: 1457, col: 5, offset: 46799},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46346},
+									pos:        position{line: 1457, col: 5, offset: 46799},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 13, offset: 46354},
+									pos:   position{line: 1457, col: 13, offset: 46807},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89706},
+										pos: position{line: 2844, col: 13, offset: 90159},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89706},
+											pos: position{line: 2844, col: 13, offset: 90159},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89706},
+													pos:   position{line: 2844, col: 13, offset: 90159},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89713},
+														pos: position{line: 2844, col: 20, offset: 90166},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89952},
+															pos: position{line: 2852, col: 11, offset: 90405},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89953},
+																pos: position{line: 2852, col: 12, offset: 90406},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89953},
+																		pos:        position{line: 2852, col: 12, offset: 90406},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89965},
+																		pos:        position{line: 2852, col: 24, offset: 90418},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89978},
+																		pos:        position{line: 2852, col: 37, offset: 90431},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 89989},
+																		pos:        position{line: 2852, col: 48, offset: 90442},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 90000},
+																		pos:        position{line: 2852, col: 59, offset: 90453},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23241,38 +23676,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89723},
+													pos:   position{line: 2844, col: 30, offset: 90176},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23283,27 +23718,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23312,11 +23747,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -23326,35 +23761,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23386,7 +23821,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23395,19 +23830,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23439,7 +23874,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23448,19 +23883,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23492,33 +23927,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23526,12 +23961,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23548,7 +23983,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23557,19 +23992,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23601,33 +24036,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23635,12 +24070,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23657,7 +24092,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23672,27 +24107,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23702,7 +24137,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23711,10 +24146,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23731,10 +24166,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 28, offset: 46369},
+									pos:   position{line: 1457, col: 28, offset: 46822},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1444, col: 40, offset: 46381},
+										pos:  position{line: 1457, col: 40, offset: 46834},
 										name: "InlineAttributes",
 									},
 								},
@@ -23746,75 +24181,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1448, col: 1, offset: 46497},
+			pos:  position{line: 1461, col: 1, offset: 46950},
 			expr: &choiceExpr{
-				pos: position{line: 1451, col: 5, offset: 46659},
+				pos: position{line: 1464, col: 5, offset: 47112},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1451, col: 5, offset: 46659},
+						pos: position{line: 1464, col: 5, offset: 47112},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1451, col: 5, offset: 46659},
+							pos: position{line: 1464, col: 5, offset: 47112},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1451, col: 5, offset: 46659},
+									pos:        position{line: 1464, col: 5, offset: 47112},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1451, col: 9, offset: 46663},
+									pos:   position{line: 1464, col: 9, offset: 47116},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89833},
+										pos: position{line: 2848, col: 23, offset: 90286},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89833},
+											pos: position{line: 2848, col: 23, offset: 90286},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89833},
+													pos: position{line: 2848, col: 23, offset: 90286},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89834},
+														pos:        position{line: 2848, col: 24, offset: 90287},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89838},
+													pos:   position{line: 2848, col: 28, offset: 90291},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89952},
+														pos: position{line: 2852, col: 11, offset: 90405},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89953},
+															pos: position{line: 2852, col: 12, offset: 90406},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89953},
+																	pos:        position{line: 2852, col: 12, offset: 90406},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89965},
+																	pos:        position{line: 2852, col: 24, offset: 90418},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89978},
+																	pos:        position{line: 2852, col: 37, offset: 90431},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89989},
+																	pos:        position{line: 2852, col: 48, offset: 90442},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90000},
+																	pos:        position{line: 2852, col: 59, offset: 90453},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23824,38 +24259,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89854},
+													pos:   position{line: 2848, col: 44, offset: 90307},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23866,27 +24301,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23895,11 +24330,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -23909,35 +24344,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23969,7 +24404,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23978,19 +24413,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24022,7 +24457,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24031,19 +24466,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24075,33 +24510,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24109,12 +24544,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24131,7 +24566,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24140,19 +24575,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24184,33 +24619,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24218,12 +24653,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24240,7 +24675,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24255,27 +24690,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24285,7 +24720,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24294,10 +24729,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24314,12 +24749,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1451, col: 34, offset: 46688},
+									pos:   position{line: 1464, col: 34, offset: 47141},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1451, col: 45, offset: 46699},
+										pos: position{line: 1464, col: 45, offset: 47152},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1451, col: 46, offset: 46700},
+											pos:  position{line: 1464, col: 46, offset: 47153},
 											name: "InlineAttributes",
 										},
 									},
@@ -24328,64 +24763,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1456, col: 5, offset: 46833},
+						pos: position{line: 1469, col: 5, offset: 47286},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1456, col: 5, offset: 46833},
+							pos: position{line: 1469, col: 5, offset: 47286},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1456, col: 5, offset: 46833},
+									pos:   position{line: 1469, col: 5, offset: 47286},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89833},
+										pos: position{line: 2848, col: 23, offset: 90286},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89833},
+											pos: position{line: 2848, col: 23, offset: 90286},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89833},
+													pos: position{line: 2848, col: 23, offset: 90286},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89834},
+														pos:        position{line: 2848, col: 24, offset: 90287},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89838},
+													pos:   position{line: 2848, col: 28, offset: 90291},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89952},
+														pos: position{line: 2852, col: 11, offset: 90405},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89953},
+															pos: position{line: 2852, col: 12, offset: 90406},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89953},
+																	pos:        position{line: 2852, col: 12, offset: 90406},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89965},
+																	pos:        position{line: 2852, col: 24, offset: 90418},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89978},
+																	pos:        position{line: 2852, col: 37, offset: 90431},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 89989},
+																	pos:        position{line: 2852, col: 48, offset: 90442},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90000},
+																	pos:        position{line: 2852, col: 59, offset: 90453},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24395,38 +24830,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89854},
+													pos:   position{line: 2848, col: 44, offset: 90307},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90064},
+														pos: position{line: 2857, col: 5, offset: 90517},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90064},
+															pos:   position{line: 2857, col: 5, offset: 90517},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90073},
+																pos: position{line: 2857, col: 14, offset: 90526},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90083},
+																	pos: position{line: 2858, col: 9, offset: 90536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90083},
+																			pos: position{line: 2858, col: 9, offset: 90536},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90083},
+																				pos: position{line: 2858, col: 9, offset: 90536},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90083},
+																						pos: position{line: 2858, col: 9, offset: 90536},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90084},
+																							pos:        position{line: 2858, col: 10, offset: 90537},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90112},
+																						pos: position{line: 2859, col: 9, offset: 90565},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90113},
+																							pos:        position{line: 2859, col: 10, offset: 90566},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24437,27 +24872,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90325},
+																			pos: position{line: 2862, col: 11, offset: 90778},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90325},
+																					pos:        position{line: 2862, col: 11, offset: 90778},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90333},
+																					pos: position{line: 2862, col: 19, offset: 90786},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90335},
+																						pos: position{line: 2862, col: 21, offset: 90788},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90335},
+																								pos: position{line: 2862, col: 21, offset: 90788},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24466,11 +24901,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90342},
+																								pos: position{line: 2862, col: 28, offset: 90795},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -24480,35 +24915,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 643, col: 5, offset: 20301},
+																			pos: position{line: 656, col: 5, offset: 20754},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 643, col: 5, offset: 20301},
+																				pos: position{line: 656, col: 5, offset: 20754},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 643, col: 5, offset: 20301},
+																						pos: position{line: 656, col: 5, offset: 20754},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 646, col: 5, offset: 20373},
+																						pos:   position{line: 659, col: 5, offset: 20826},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 646, col: 14, offset: 20382},
+																							pos: position{line: 659, col: 14, offset: 20835},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20511},
+																									pos: position{line: 665, col: 5, offset: 20964},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20511},
+																										pos: position{line: 665, col: 5, offset: 20964},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20511},
+																												pos:        position{line: 665, col: 5, offset: 20964},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 13, offset: 20519},
+																												pos:   position{line: 665, col: 13, offset: 20972},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24540,7 +24975,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 32, offset: 20538},
+																												pos:        position{line: 665, col: 32, offset: 20991},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24549,19 +24984,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 659, col: 5, offset: 20779},
+																									pos: position{line: 672, col: 5, offset: 21232},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 659, col: 5, offset: 20779},
+																										pos: position{line: 672, col: 5, offset: 21232},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 659, col: 5, offset: 20779},
+																												pos:        position{line: 672, col: 5, offset: 21232},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 659, col: 9, offset: 20783},
+																												pos:   position{line: 672, col: 9, offset: 21236},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24593,7 +25028,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 659, col: 28, offset: 20802},
+																												pos:        position{line: 672, col: 28, offset: 21255},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24602,19 +25037,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 20983},
+																									pos: position{line: 678, col: 25, offset: 21436},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 20983},
+																										pos: position{line: 678, col: 25, offset: 21436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 20983},
+																												pos:        position{line: 678, col: 25, offset: 21436},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 37, offset: 20995},
+																												pos:   position{line: 678, col: 37, offset: 21448},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24646,33 +25081,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 56, offset: 21014},
+																												pos:   position{line: 678, col: 56, offset: 21467},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 62, offset: 21020},
+																													pos: position{line: 678, col: 62, offset: 21473},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24680,12 +25115,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24702,7 +25137,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 78, offset: 21036},
+																												pos:        position{line: 678, col: 78, offset: 21489},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24711,19 +25146,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 669, col: 25, offset: 21154},
+																									pos: position{line: 682, col: 25, offset: 21607},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 669, col: 25, offset: 21154},
+																										pos: position{line: 682, col: 25, offset: 21607},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 669, col: 25, offset: 21154},
+																												pos:        position{line: 682, col: 25, offset: 21607},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 38, offset: 21167},
+																												pos:   position{line: 682, col: 38, offset: 21620},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24755,33 +25190,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 669, col: 57, offset: 21186},
+																												pos:   position{line: 682, col: 57, offset: 21639},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 669, col: 63, offset: 21192},
+																													pos: position{line: 682, col: 63, offset: 21645},
 																													expr: &actionExpr{
-																														pos: position{line: 673, col: 17, offset: 21315},
+																														pos: position{line: 686, col: 17, offset: 21768},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 673, col: 17, offset: 21315},
+																															pos: position{line: 686, col: 17, offset: 21768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 673, col: 17, offset: 21315},
+																																	pos:        position{line: 686, col: 17, offset: 21768},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 673, col: 21, offset: 21319},
+																																	pos:   position{line: 686, col: 21, offset: 21772},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 673, col: 28, offset: 21326},
+																																		pos: position{line: 686, col: 28, offset: 21779},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 673, col: 28, offset: 21326},
+																																				pos: position{line: 686, col: 28, offset: 21779},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 673, col: 28, offset: 21326},
+																																					pos:        position{line: 686, col: 28, offset: 21779},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24789,12 +25224,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 675, col: 9, offset: 21380},
+																																				pos: position{line: 688, col: 9, offset: 21833},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 675, col: 9, offset: 21380},
+																																					pos: position{line: 688, col: 9, offset: 21833},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 675, col: 9, offset: 21380},
+																																						pos:        position{line: 688, col: 9, offset: 21833},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24811,7 +25246,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 669, col: 79, offset: 21208},
+																												pos:        position{line: 682, col: 79, offset: 21661},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24826,27 +25261,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37389},
+																			pos: position{line: 1226, col: 23, offset: 37842},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37389},
+																				pos: position{line: 1226, col: 23, offset: 37842},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37417},
+																						pos:   position{line: 1226, col: 51, offset: 37870},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37422},
+																							pos: position{line: 1226, col: 56, offset: 37875},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37422},
+																								pos: position{line: 1226, col: 56, offset: 37875},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37422},
+																									pos:        position{line: 1226, col: 56, offset: 37875},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24856,7 +25291,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37357},
+																						pos:        position{line: 1224, col: 32, offset: 37810},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24865,10 +25300,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90462},
+																			pos: position{line: 2865, col: 11, offset: 90915},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90462},
+																				pos:        position{line: 2865, col: 11, offset: 90915},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24885,12 +25320,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1456, col: 30, offset: 46858},
+									pos:   position{line: 1469, col: 30, offset: 47311},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1456, col: 41, offset: 46869},
+										pos: position{line: 1469, col: 41, offset: 47322},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1456, col: 42, offset: 46870},
+											pos:  position{line: 1469, col: 42, offset: 47323},
 											name: "InlineAttributes",
 										},
 									},
@@ -24903,41 +25338,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1490, col: 1, offset: 48029},
+			pos:  position{line: 1503, col: 1, offset: 48482},
 			expr: &actionExpr{
-				pos: position{line: 1491, col: 5, offset: 48050},
+				pos: position{line: 1504, col: 5, offset: 48503},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1491, col: 5, offset: 48050},
+					pos: position{line: 1504, col: 5, offset: 48503},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1491, col: 5, offset: 48050},
+							pos:   position{line: 1504, col: 5, offset: 48503},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 5, offset: 48252},
+								pos: position{line: 1510, col: 5, offset: 48705},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1590, col: 5, offset: 51226},
+										pos: position{line: 1603, col: 5, offset: 51679},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1590, col: 5, offset: 51226},
+											pos: position{line: 1603, col: 5, offset: 51679},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51226},
+													pos:   position{line: 1603, col: 5, offset: 51679},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51434},
+														pos: position{line: 1610, col: 5, offset: 51887},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51434},
+															pos: position{line: 1610, col: 5, offset: 51887},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51434},
+																	pos: position{line: 1610, col: 5, offset: 51887},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24946,27 +25381,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51441},
+																	pos:   position{line: 1610, col: 12, offset: 51894},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51504},
+																		pos: position{line: 1612, col: 9, offset: 51957},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51504},
+																				pos: position{line: 1612, col: 9, offset: 51957},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51504},
+																					pos: position{line: 1612, col: 9, offset: 51957},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51504},
+																							pos:   position{line: 1612, col: 9, offset: 51957},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51511},
+																								pos: position{line: 1612, col: 16, offset: 51964},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51511},
+																									pos: position{line: 1612, col: 16, offset: 51964},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51512},
+																										pos:        position{line: 1612, col: 17, offset: 51965},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24975,22 +25410,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51612},
+																							pos: position{line: 1616, col: 9, offset: 52065},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52329},
+																				pos: position{line: 1635, col: 11, offset: 52782},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52329},
+																					pos: position{line: 1635, col: 11, offset: 52782},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52329},
+																							pos: position{line: 1635, col: 11, offset: 52782},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52330},
+																								pos:        position{line: 1635, col: 12, offset: 52783},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24998,7 +25433,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52338},
+																							pos:        position{line: 1635, col: 20, offset: 52791},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25007,20 +25442,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52455},
+																				pos: position{line: 1637, col: 13, offset: 52908},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52455},
+																					pos: position{line: 1637, col: 13, offset: 52908},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52456},
+																							pos:        position{line: 1637, col: 14, offset: 52909},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52463},
+																							pos:        position{line: 1637, col: 21, offset: 52916},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25029,20 +25464,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52583},
+																				pos: position{line: 1639, col: 13, offset: 53036},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52583},
+																					pos: position{line: 1639, col: 13, offset: 53036},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52584},
+																							pos:        position{line: 1639, col: 14, offset: 53037},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52591},
+																							pos:        position{line: 1639, col: 21, offset: 53044},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25051,15 +25486,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52711},
+																				pos: position{line: 1641, col: 13, offset: 53164},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52711},
+																					pos: position{line: 1641, col: 13, offset: 53164},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52711},
+																							pos: position{line: 1641, col: 13, offset: 53164},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52712},
+																								pos:        position{line: 1641, col: 14, offset: 53165},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25067,7 +25502,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52724},
+																							pos:        position{line: 1641, col: 26, offset: 53177},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25076,15 +25511,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52844},
+																				pos: position{line: 1643, col: 13, offset: 53297},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52844},
+																					pos: position{line: 1643, col: 13, offset: 53297},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52844},
+																							pos: position{line: 1643, col: 13, offset: 53297},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52845},
+																								pos:        position{line: 1643, col: 14, offset: 53298},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25092,7 +25527,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52857},
+																							pos:        position{line: 1643, col: 26, offset: 53310},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25104,12 +25539,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25122,26 +25557,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1591, col: 5, offset: 51265},
+													pos:   position{line: 1604, col: 5, offset: 51718},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25152,28 +25587,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25182,9 +25617,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -25197,27 +25632,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1640, col: 5, offset: 53123},
+										pos: position{line: 1653, col: 5, offset: 53576},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1640, col: 5, offset: 53123},
+											pos: position{line: 1653, col: 5, offset: 53576},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53123},
+													pos:   position{line: 1653, col: 5, offset: 53576},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53396},
+														pos: position{line: 1660, col: 5, offset: 53849},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53396},
+															pos: position{line: 1660, col: 5, offset: 53849},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53396},
+																	pos: position{line: 1660, col: 5, offset: 53849},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25226,24 +25661,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53408},
+																	pos:   position{line: 1661, col: 5, offset: 53861},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53424},
+																		pos: position{line: 1662, col: 9, offset: 53877},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53425},
+																			pos: position{line: 1662, col: 10, offset: 53878},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53426},
+																					pos:        position{line: 1662, col: 11, offset: 53879},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53433},
+																					pos: position{line: 1662, col: 18, offset: 53886},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53434},
+																						pos:        position{line: 1662, col: 19, offset: 53887},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25254,16 +25689,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53524},
+																	pos: position{line: 1665, col: 7, offset: 53977},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25276,56 +25711,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53164},
+													pos:   position{line: 1654, col: 5, offset: 53617},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1641, col: 16, offset: 53175},
+														pos: position{line: 1654, col: 16, offset: 53628},
 														expr: &actionExpr{
-															pos: position{line: 1662, col: 5, offset: 53789},
+															pos: position{line: 1675, col: 5, offset: 54242},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 5, offset: 53789},
+																pos: position{line: 1675, col: 5, offset: 54242},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1662, col: 5, offset: 53789},
+																		pos: position{line: 1675, col: 5, offset: 54242},
 																		expr: &litMatcher{
-																			pos:        position{line: 1662, col: 6, offset: 53790},
+																			pos:        position{line: 1675, col: 6, offset: 54243},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1662, col: 10, offset: 53794},
+																		pos:   position{line: 1675, col: 10, offset: 54247},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1663, col: 7, offset: 53808},
+																			pos: position{line: 1676, col: 7, offset: 54261},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 53808},
+																					pos: position{line: 1676, col: 7, offset: 54261},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 53808},
+																						pos:        position{line: 1676, col: 7, offset: 54261},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 53853},
+																					pos: position{line: 1677, col: 7, offset: 54306},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 53853},
+																						pos:        position{line: 1677, col: 7, offset: 54306},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53896},
+																					pos: position{line: 1678, col: 7, offset: 54349},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53896},
+																						pos:        position{line: 1678, col: 7, offset: 54349},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25335,12 +25770,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 91008},
+																			pos: position{line: 2890, col: 11, offset: 91461},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91008},
+																				pos:        position{line: 2890, col: 11, offset: 91461},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25354,26 +25789,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53214},
+													pos:   position{line: 1655, col: 5, offset: 53667},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25384,28 +25819,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25414,9 +25849,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -25429,36 +25864,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 55736},
+										pos: position{line: 1743, col: 5, offset: 56189},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 55736},
+											pos: position{line: 1743, col: 5, offset: 56189},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 55736},
+													pos:   position{line: 1743, col: 5, offset: 56189},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55933},
+														pos: position{line: 1749, col: 5, offset: 56386},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55933},
+															pos: position{line: 1749, col: 5, offset: 56386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55933},
+																	pos:        position{line: 1749, col: 5, offset: 56386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55937},
+																	pos:   position{line: 1749, col: 9, offset: 56390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55942},
+																		pos: position{line: 1749, col: 14, offset: 56395},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55942},
+																			pos: position{line: 1749, col: 14, offset: 56395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55942},
+																				pos:        position{line: 1749, col: 14, offset: 56395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25468,18 +25903,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55990},
+																	pos:        position{line: 1749, col: 62, offset: 56443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25492,26 +25927,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 55772},
+													pos:   position{line: 1744, col: 5, offset: 56225},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25522,28 +25957,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25552,9 +25987,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -25567,40 +26002,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1674, col: 5, offset: 54089},
+										pos: position{line: 1687, col: 5, offset: 54542},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1674, col: 5, offset: 54089},
+											pos: position{line: 1687, col: 5, offset: 54542},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54089},
+													pos:   position{line: 1687, col: 5, offset: 54542},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1682, col: 5, offset: 54415},
+														pos: position{line: 1695, col: 5, offset: 54868},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1682, col: 5, offset: 54415},
+															pos: position{line: 1695, col: 5, offset: 54868},
 															expr: &seqExpr{
-																pos: position{line: 1682, col: 6, offset: 54416},
+																pos: position{line: 1695, col: 6, offset: 54869},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1682, col: 6, offset: 54416},
+																		pos: position{line: 1695, col: 6, offset: 54869},
 																		expr: &actionExpr{
-																			pos: position{line: 1687, col: 5, offset: 54566},
+																			pos: position{line: 1700, col: 5, offset: 55019},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1687, col: 5, offset: 54566},
+																				pos: position{line: 1700, col: 5, offset: 55019},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1687, col: 5, offset: 54566},
+																						pos:   position{line: 1700, col: 5, offset: 55019},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 16, offset: 54577},
+																							pos: position{line: 1700, col: 16, offset: 55030},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1687, col: 16, offset: 54577},
+																								pos: position{line: 1700, col: 16, offset: 55030},
 																								expr: &litMatcher{
-																									pos:        position{line: 1687, col: 17, offset: 54578},
+																									pos:        position{line: 1700, col: 17, offset: 55031},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25609,7 +26044,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1690, col: 5, offset: 54635},
+																						pos: position{line: 1703, col: 5, offset: 55088},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25617,30 +26052,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1682, col: 35, offset: 54445},
+																		pos: position{line: 1695, col: 35, offset: 54898},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25649,16 +26084,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1682, col: 40, offset: 54450,
+																		line: 1695, col: 40, offset: 54903,
 																	},
 																},
 															},
@@ -25666,24 +26101,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54124},
+													pos:   position{line: 1688, col: 5, offset: 54577},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54566},
+														pos: position{line: 1700, col: 5, offset: 55019},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54566},
+															pos: position{line: 1700, col: 5, offset: 55019},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54566},
+																	pos:   position{line: 1700, col: 5, offset: 55019},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54577},
+																		pos: position{line: 1700, col: 16, offset: 55030},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54577},
+																			pos: position{line: 1700, col: 16, offset: 55030},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54578},
+																				pos:        position{line: 1700, col: 17, offset: 55031},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25692,7 +26127,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54635},
+																	pos: position{line: 1703, col: 5, offset: 55088},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25700,24 +26135,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54169},
+													pos:   position{line: 1689, col: 5, offset: 54622},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 54884},
+														pos: position{line: 1711, col: 5, offset: 55337},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54950},
+																pos: position{line: 1713, col: 9, offset: 55403},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54950},
+																	pos: position{line: 1713, col: 9, offset: 55403},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 54950},
+																			pos: position{line: 1713, col: 9, offset: 55403},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25726,28 +26161,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25756,34 +26191,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 54969},
+																			pos: position{line: 1714, col: 9, offset: 55422},
 																			expr: &actionExpr{
-																				pos: position{line: 684, col: 14, offset: 21681},
+																				pos: position{line: 697, col: 14, offset: 22134},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 684, col: 14, offset: 21681},
+																					pos: position{line: 697, col: 14, offset: 22134},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 684, col: 21, offset: 21688},
+																							pos: position{line: 697, col: 21, offset: 22141},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25792,28 +26227,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25822,9 +26257,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -25837,18 +26272,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55098},
+																pos: position{line: 1720, col: 9, offset: 55551},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55098},
+																	pos: position{line: 1720, col: 9, offset: 55551},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 91008},
+																			pos: position{line: 2890, col: 11, offset: 91461},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 91008},
+																				pos: position{line: 2890, col: 11, offset: 91461},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 91008},
+																					pos:        position{line: 2890, col: 11, offset: 91461},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25857,15 +26292,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55171},
+																			pos:   position{line: 1721, col: 9, offset: 55624},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55180},
+																				pos: position{line: 1721, col: 18, offset: 55633},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55180},
+																					pos: position{line: 1721, col: 18, offset: 55633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55180},
+																						pos:        position{line: 1721, col: 18, offset: 55633},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25875,28 +26310,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25905,9 +26340,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -25925,10 +26360,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1492, col: 5, offset: 48081},
+							pos:   position{line: 1505, col: 5, offset: 48534},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1492, col: 20, offset: 48096},
+								pos:  position{line: 1505, col: 20, offset: 48549},
 								name: "ExtraListElements",
 							},
 						},
@@ -25938,17 +26373,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1502, col: 1, offset: 48351},
+			pos:  position{line: 1515, col: 1, offset: 48804},
 			expr: &actionExpr{
-				pos: position{line: 1502, col: 22, offset: 48372},
+				pos: position{line: 1515, col: 22, offset: 48825},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1502, col: 22, offset: 48372},
+					pos:   position{line: 1515, col: 22, offset: 48825},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1502, col: 31, offset: 48381},
+						pos: position{line: 1515, col: 31, offset: 48834},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1502, col: 32, offset: 48382},
+							pos:  position{line: 1515, col: 32, offset: 48835},
 							name: "ExtraListElement",
 						},
 					},
@@ -25957,52 +26392,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1506, col: 1, offset: 48462},
+			pos:  position{line: 1519, col: 1, offset: 48915},
 			expr: &actionExpr{
-				pos: position{line: 1507, col: 5, offset: 48601},
+				pos: position{line: 1520, col: 5, offset: 49054},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1507, col: 5, offset: 48601},
+					pos: position{line: 1520, col: 5, offset: 49054},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1508, col: 5, offset: 48613},
+							pos:   position{line: 1521, col: 5, offset: 49066},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1509, col: 9, offset: 48631},
+								pos: position{line: 1522, col: 9, offset: 49084},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1509, col: 13, offset: 48635},
+										pos: position{line: 1522, col: 13, offset: 49088},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1509, col: 13, offset: 48635},
+											pos: position{line: 1522, col: 13, offset: 49088},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1509, col: 13, offset: 48635},
+													pos: position{line: 1522, col: 13, offset: 49088},
 													expr: &actionExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 684, col: 14, offset: 21681},
+															pos: position{line: 697, col: 14, offset: 22134},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91281},
+																	pos: position{line: 2903, col: 11, offset: 91734},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91283,
+																		line: 2903, col: 13, offset: 91736,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 684, col: 21, offset: 21688},
+																	pos: position{line: 697, col: 21, offset: 22141},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26011,28 +26446,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26041,9 +26476,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -26053,33 +26488,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1510, col: 13, offset: 48659},
+													pos:   position{line: 1523, col: 13, offset: 49112},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1510, col: 22, offset: 48668},
+														pos: position{line: 1523, col: 22, offset: 49121},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1590, col: 5, offset: 51226},
+																pos: position{line: 1603, col: 5, offset: 51679},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1590, col: 5, offset: 51226},
+																	pos: position{line: 1603, col: 5, offset: 51679},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51226},
+																			pos:   position{line: 1603, col: 5, offset: 51679},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1597, col: 5, offset: 51434},
+																				pos: position{line: 1610, col: 5, offset: 51887},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1597, col: 5, offset: 51434},
+																					pos: position{line: 1610, col: 5, offset: 51887},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1597, col: 5, offset: 51434},
+																							pos: position{line: 1610, col: 5, offset: 51887},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26088,27 +26523,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1597, col: 12, offset: 51441},
+																							pos:   position{line: 1610, col: 12, offset: 51894},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1599, col: 9, offset: 51504},
+																								pos: position{line: 1612, col: 9, offset: 51957},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1599, col: 9, offset: 51504},
+																										pos: position{line: 1612, col: 9, offset: 51957},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1599, col: 9, offset: 51504},
+																											pos: position{line: 1612, col: 9, offset: 51957},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1599, col: 9, offset: 51504},
+																													pos:   position{line: 1612, col: 9, offset: 51957},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1599, col: 16, offset: 51511},
+																														pos: position{line: 1612, col: 16, offset: 51964},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1599, col: 16, offset: 51511},
+																															pos: position{line: 1612, col: 16, offset: 51964},
 																															expr: &litMatcher{
-																																pos:        position{line: 1599, col: 17, offset: 51512},
+																																pos:        position{line: 1612, col: 17, offset: 51965},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26117,22 +26552,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1603, col: 9, offset: 51612},
+																													pos: position{line: 1616, col: 9, offset: 52065},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 11, offset: 52329},
+																										pos: position{line: 1635, col: 11, offset: 52782},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 11, offset: 52329},
+																											pos: position{line: 1635, col: 11, offset: 52782},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 11, offset: 52329},
+																													pos: position{line: 1635, col: 11, offset: 52782},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 12, offset: 52330},
+																														pos:        position{line: 1635, col: 12, offset: 52783},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26140,7 +26575,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 20, offset: 52338},
+																													pos:        position{line: 1635, col: 20, offset: 52791},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26149,20 +26584,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52455},
+																										pos: position{line: 1637, col: 13, offset: 52908},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52455},
+																											pos: position{line: 1637, col: 13, offset: 52908},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1624, col: 14, offset: 52456},
+																													pos:        position{line: 1637, col: 14, offset: 52909},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 21, offset: 52463},
+																													pos:        position{line: 1637, col: 21, offset: 52916},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26171,20 +26606,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52583},
+																										pos: position{line: 1639, col: 13, offset: 53036},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52583},
+																											pos: position{line: 1639, col: 13, offset: 53036},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52584},
+																													pos:        position{line: 1639, col: 14, offset: 53037},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52591},
+																													pos:        position{line: 1639, col: 21, offset: 53044},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26193,15 +26628,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52711},
+																										pos: position{line: 1641, col: 13, offset: 53164},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52711},
+																											pos: position{line: 1641, col: 13, offset: 53164},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 13, offset: 52711},
+																													pos: position{line: 1641, col: 13, offset: 53164},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 14, offset: 52712},
+																														pos:        position{line: 1641, col: 14, offset: 53165},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26209,7 +26644,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 26, offset: 52724},
+																													pos:        position{line: 1641, col: 26, offset: 53177},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26218,15 +26653,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52844},
+																										pos: position{line: 1643, col: 13, offset: 53297},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52844},
+																											pos: position{line: 1643, col: 13, offset: 53297},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52844},
+																													pos: position{line: 1643, col: 13, offset: 53297},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52845},
+																														pos:        position{line: 1643, col: 14, offset: 53298},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26234,7 +26669,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52857},
+																													pos:        position{line: 1643, col: 26, offset: 53310},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26246,12 +26681,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26264,26 +26699,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1591, col: 5, offset: 51265},
+																			pos:   position{line: 1604, col: 5, offset: 51718},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26294,28 +26729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26324,9 +26759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -26339,27 +26774,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1640, col: 5, offset: 53123},
+																pos: position{line: 1653, col: 5, offset: 53576},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1640, col: 5, offset: 53123},
+																	pos: position{line: 1653, col: 5, offset: 53576},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53123},
+																			pos:   position{line: 1653, col: 5, offset: 53576},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1647, col: 5, offset: 53396},
+																				pos: position{line: 1660, col: 5, offset: 53849},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 5, offset: 53396},
+																					pos: position{line: 1660, col: 5, offset: 53849},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1647, col: 5, offset: 53396},
+																							pos: position{line: 1660, col: 5, offset: 53849},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26368,24 +26803,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1648, col: 5, offset: 53408},
+																							pos:   position{line: 1661, col: 5, offset: 53861},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1649, col: 9, offset: 53424},
+																								pos: position{line: 1662, col: 9, offset: 53877},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 10, offset: 53425},
+																									pos: position{line: 1662, col: 10, offset: 53878},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 11, offset: 53426},
+																											pos:        position{line: 1662, col: 11, offset: 53879},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 18, offset: 53433},
+																											pos: position{line: 1662, col: 18, offset: 53886},
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 19, offset: 53434},
+																												pos:        position{line: 1662, col: 19, offset: 53887},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26396,16 +26831,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1652, col: 7, offset: 53524},
+																							pos: position{line: 1665, col: 7, offset: 53977},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26418,56 +26853,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53164},
+																			pos:   position{line: 1654, col: 5, offset: 53617},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1641, col: 16, offset: 53175},
+																				pos: position{line: 1654, col: 16, offset: 53628},
 																				expr: &actionExpr{
-																					pos: position{line: 1662, col: 5, offset: 53789},
+																					pos: position{line: 1675, col: 5, offset: 54242},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 5, offset: 53789},
+																						pos: position{line: 1675, col: 5, offset: 54242},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1662, col: 5, offset: 53789},
+																								pos: position{line: 1675, col: 5, offset: 54242},
 																								expr: &litMatcher{
-																									pos:        position{line: 1662, col: 6, offset: 53790},
+																									pos:        position{line: 1675, col: 6, offset: 54243},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1662, col: 10, offset: 53794},
+																								pos:   position{line: 1675, col: 10, offset: 54247},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1663, col: 7, offset: 53808},
+																									pos: position{line: 1676, col: 7, offset: 54261},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 53808},
+																											pos: position{line: 1676, col: 7, offset: 54261},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 53808},
+																												pos:        position{line: 1676, col: 7, offset: 54261},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 53853},
+																											pos: position{line: 1677, col: 7, offset: 54306},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 53853},
+																												pos:        position{line: 1677, col: 7, offset: 54306},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53896},
+																											pos: position{line: 1678, col: 7, offset: 54349},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53896},
+																												pos:        position{line: 1678, col: 7, offset: 54349},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26477,12 +26912,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 91008},
+																									pos: position{line: 2890, col: 11, offset: 91461},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 91008},
+																										pos:        position{line: 2890, col: 11, offset: 91461},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26496,26 +26931,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53214},
+																			pos:   position{line: 1655, col: 5, offset: 53667},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26526,28 +26961,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26556,9 +26991,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -26571,36 +27006,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 55736},
+																pos: position{line: 1743, col: 5, offset: 56189},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 55736},
+																	pos: position{line: 1743, col: 5, offset: 56189},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 55736},
+																			pos:   position{line: 1743, col: 5, offset: 56189},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 55933},
+																				pos: position{line: 1749, col: 5, offset: 56386},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 55933},
+																					pos: position{line: 1749, col: 5, offset: 56386},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 55933},
+																							pos:        position{line: 1749, col: 5, offset: 56386},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 55937},
+																							pos:   position{line: 1749, col: 9, offset: 56390},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 55942},
+																								pos: position{line: 1749, col: 14, offset: 56395},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 55942},
+																									pos: position{line: 1749, col: 14, offset: 56395},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 55942},
+																										pos:        position{line: 1749, col: 14, offset: 56395},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26610,18 +27045,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 55990},
+																							pos:        position{line: 1749, col: 62, offset: 56443},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26634,26 +27069,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 55772},
+																			pos:   position{line: 1744, col: 5, offset: 56225},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26664,28 +27099,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26694,9 +27129,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -26709,40 +27144,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54089},
+																pos: position{line: 1687, col: 5, offset: 54542},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54089},
+																	pos: position{line: 1687, col: 5, offset: 54542},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54089},
+																			pos:   position{line: 1687, col: 5, offset: 54542},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54415},
+																				pos: position{line: 1695, col: 5, offset: 54868},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54415},
+																					pos: position{line: 1695, col: 5, offset: 54868},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54416},
+																						pos: position{line: 1695, col: 6, offset: 54869},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54416},
+																								pos: position{line: 1695, col: 6, offset: 54869},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54566},
+																									pos: position{line: 1700, col: 5, offset: 55019},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54566},
+																										pos: position{line: 1700, col: 5, offset: 55019},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54566},
+																												pos:   position{line: 1700, col: 5, offset: 55019},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54577},
+																													pos: position{line: 1700, col: 16, offset: 55030},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54577},
+																														pos: position{line: 1700, col: 16, offset: 55030},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54578},
+																															pos:        position{line: 1700, col: 17, offset: 55031},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26751,7 +27186,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54635},
+																												pos: position{line: 1703, col: 5, offset: 55088},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26759,30 +27194,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54445},
+																								pos: position{line: 1695, col: 35, offset: 54898},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26791,16 +27226,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54450,
+																								line: 1695, col: 40, offset: 54903,
 																							},
 																						},
 																					},
@@ -26808,24 +27243,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54124},
+																			pos:   position{line: 1688, col: 5, offset: 54577},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54566},
+																				pos: position{line: 1700, col: 5, offset: 55019},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54566},
+																					pos: position{line: 1700, col: 5, offset: 55019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54566},
+																							pos:   position{line: 1700, col: 5, offset: 55019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54577},
+																								pos: position{line: 1700, col: 16, offset: 55030},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54577},
+																									pos: position{line: 1700, col: 16, offset: 55030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54578},
+																										pos:        position{line: 1700, col: 17, offset: 55031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26834,7 +27269,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54635},
+																							pos: position{line: 1703, col: 5, offset: 55088},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26842,24 +27277,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54169},
+																			pos:   position{line: 1689, col: 5, offset: 54622},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 54884},
+																				pos: position{line: 1711, col: 5, offset: 55337},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54950},
+																						pos: position{line: 1713, col: 9, offset: 55403},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54950},
+																							pos: position{line: 1713, col: 9, offset: 55403},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 54950},
+																									pos: position{line: 1713, col: 9, offset: 55403},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26868,28 +27303,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26898,34 +27333,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 54969},
+																									pos: position{line: 1714, col: 9, offset: 55422},
 																									expr: &actionExpr{
-																										pos: position{line: 684, col: 14, offset: 21681},
+																										pos: position{line: 697, col: 14, offset: 22134},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 684, col: 14, offset: 21681},
+																											pos: position{line: 697, col: 14, offset: 22134},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91281},
+																													pos: position{line: 2903, col: 11, offset: 91734},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91283,
+																														line: 2903, col: 13, offset: 91736,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 684, col: 21, offset: 21688},
+																													pos: position{line: 697, col: 21, offset: 22141},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26934,28 +27369,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26964,9 +27399,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -26979,18 +27414,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55098},
+																						pos: position{line: 1720, col: 9, offset: 55551},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55098},
+																							pos: position{line: 1720, col: 9, offset: 55551},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91008},
+																									pos: position{line: 2890, col: 11, offset: 91461},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91008},
+																										pos: position{line: 2890, col: 11, offset: 91461},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91008},
+																											pos:        position{line: 2890, col: 11, offset: 91461},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26999,15 +27434,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55171},
+																									pos:   position{line: 1721, col: 9, offset: 55624},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55180},
+																										pos: position{line: 1721, col: 18, offset: 55633},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55180},
+																											pos: position{line: 1721, col: 18, offset: 55633},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55180},
+																												pos:        position{line: 1721, col: 18, offset: 55633},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27017,28 +27452,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27047,9 +27482,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -27070,50 +27505,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 13, offset: 48819},
+										pos: position{line: 1526, col: 13, offset: 49272},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 13, offset: 48819},
+											pos: position{line: 1526, col: 13, offset: 49272},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1513, col: 13, offset: 48819},
+													pos:   position{line: 1526, col: 13, offset: 49272},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1513, col: 24, offset: 48830},
+														pos: position{line: 1526, col: 24, offset: 49283},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1513, col: 25, offset: 48831},
+															pos:  position{line: 1526, col: 25, offset: 49284},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1514, col: 13, offset: 48862},
+													pos:   position{line: 1527, col: 13, offset: 49315},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1514, col: 22, offset: 48871},
+														pos: position{line: 1527, col: 22, offset: 49324},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1590, col: 5, offset: 51226},
+																pos: position{line: 1603, col: 5, offset: 51679},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1590, col: 5, offset: 51226},
+																	pos: position{line: 1603, col: 5, offset: 51679},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1590, col: 5, offset: 51226},
+																			pos:   position{line: 1603, col: 5, offset: 51679},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1597, col: 5, offset: 51434},
+																				pos: position{line: 1610, col: 5, offset: 51887},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1597, col: 5, offset: 51434},
+																					pos: position{line: 1610, col: 5, offset: 51887},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1597, col: 5, offset: 51434},
+																							pos: position{line: 1610, col: 5, offset: 51887},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27122,27 +27557,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1597, col: 12, offset: 51441},
+																							pos:   position{line: 1610, col: 12, offset: 51894},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1599, col: 9, offset: 51504},
+																								pos: position{line: 1612, col: 9, offset: 51957},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1599, col: 9, offset: 51504},
+																										pos: position{line: 1612, col: 9, offset: 51957},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1599, col: 9, offset: 51504},
+																											pos: position{line: 1612, col: 9, offset: 51957},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1599, col: 9, offset: 51504},
+																													pos:   position{line: 1612, col: 9, offset: 51957},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1599, col: 16, offset: 51511},
+																														pos: position{line: 1612, col: 16, offset: 51964},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1599, col: 16, offset: 51511},
+																															pos: position{line: 1612, col: 16, offset: 51964},
 																															expr: &litMatcher{
-																																pos:        position{line: 1599, col: 17, offset: 51512},
+																																pos:        position{line: 1612, col: 17, offset: 51965},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27151,22 +27586,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1603, col: 9, offset: 51612},
+																													pos: position{line: 1616, col: 9, offset: 52065},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 11, offset: 52329},
+																										pos: position{line: 1635, col: 11, offset: 52782},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 11, offset: 52329},
+																											pos: position{line: 1635, col: 11, offset: 52782},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 11, offset: 52329},
+																													pos: position{line: 1635, col: 11, offset: 52782},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 12, offset: 52330},
+																														pos:        position{line: 1635, col: 12, offset: 52783},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27174,7 +27609,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 20, offset: 52338},
+																													pos:        position{line: 1635, col: 20, offset: 52791},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27183,20 +27618,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 13, offset: 52455},
+																										pos: position{line: 1637, col: 13, offset: 52908},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 13, offset: 52455},
+																											pos: position{line: 1637, col: 13, offset: 52908},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1624, col: 14, offset: 52456},
+																													pos:        position{line: 1637, col: 14, offset: 52909},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 21, offset: 52463},
+																													pos:        position{line: 1637, col: 21, offset: 52916},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27205,20 +27640,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52583},
+																										pos: position{line: 1639, col: 13, offset: 53036},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52583},
+																											pos: position{line: 1639, col: 13, offset: 53036},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52584},
+																													pos:        position{line: 1639, col: 14, offset: 53037},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52591},
+																													pos:        position{line: 1639, col: 21, offset: 53044},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27227,15 +27662,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52711},
+																										pos: position{line: 1641, col: 13, offset: 53164},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52711},
+																											pos: position{line: 1641, col: 13, offset: 53164},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 13, offset: 52711},
+																													pos: position{line: 1641, col: 13, offset: 53164},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 14, offset: 52712},
+																														pos:        position{line: 1641, col: 14, offset: 53165},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27243,7 +27678,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 26, offset: 52724},
+																													pos:        position{line: 1641, col: 26, offset: 53177},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27252,15 +27687,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52844},
+																										pos: position{line: 1643, col: 13, offset: 53297},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52844},
+																											pos: position{line: 1643, col: 13, offset: 53297},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52844},
+																													pos: position{line: 1643, col: 13, offset: 53297},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52845},
+																														pos:        position{line: 1643, col: 14, offset: 53298},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27268,7 +27703,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52857},
+																													pos:        position{line: 1643, col: 26, offset: 53310},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27280,12 +27715,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27298,26 +27733,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1591, col: 5, offset: 51265},
+																			pos:   position{line: 1604, col: 5, offset: 51718},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27328,28 +27763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27358,9 +27793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -27373,27 +27808,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1640, col: 5, offset: 53123},
+																pos: position{line: 1653, col: 5, offset: 53576},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1640, col: 5, offset: 53123},
+																	pos: position{line: 1653, col: 5, offset: 53576},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1640, col: 5, offset: 53123},
+																			pos:   position{line: 1653, col: 5, offset: 53576},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1647, col: 5, offset: 53396},
+																				pos: position{line: 1660, col: 5, offset: 53849},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 5, offset: 53396},
+																					pos: position{line: 1660, col: 5, offset: 53849},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1647, col: 5, offset: 53396},
+																							pos: position{line: 1660, col: 5, offset: 53849},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27402,24 +27837,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1648, col: 5, offset: 53408},
+																							pos:   position{line: 1661, col: 5, offset: 53861},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1649, col: 9, offset: 53424},
+																								pos: position{line: 1662, col: 9, offset: 53877},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 10, offset: 53425},
+																									pos: position{line: 1662, col: 10, offset: 53878},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 11, offset: 53426},
+																											pos:        position{line: 1662, col: 11, offset: 53879},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 18, offset: 53433},
+																											pos: position{line: 1662, col: 18, offset: 53886},
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 19, offset: 53434},
+																												pos:        position{line: 1662, col: 19, offset: 53887},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27430,16 +27865,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1652, col: 7, offset: 53524},
+																							pos: position{line: 1665, col: 7, offset: 53977},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27452,56 +27887,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1641, col: 5, offset: 53164},
+																			pos:   position{line: 1654, col: 5, offset: 53617},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1641, col: 16, offset: 53175},
+																				pos: position{line: 1654, col: 16, offset: 53628},
 																				expr: &actionExpr{
-																					pos: position{line: 1662, col: 5, offset: 53789},
+																					pos: position{line: 1675, col: 5, offset: 54242},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 5, offset: 53789},
+																						pos: position{line: 1675, col: 5, offset: 54242},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1662, col: 5, offset: 53789},
+																								pos: position{line: 1675, col: 5, offset: 54242},
 																								expr: &litMatcher{
-																									pos:        position{line: 1662, col: 6, offset: 53790},
+																									pos:        position{line: 1675, col: 6, offset: 54243},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1662, col: 10, offset: 53794},
+																								pos:   position{line: 1675, col: 10, offset: 54247},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1663, col: 7, offset: 53808},
+																									pos: position{line: 1676, col: 7, offset: 54261},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1663, col: 7, offset: 53808},
+																											pos: position{line: 1676, col: 7, offset: 54261},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1663, col: 7, offset: 53808},
+																												pos:        position{line: 1676, col: 7, offset: 54261},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1664, col: 7, offset: 53853},
+																											pos: position{line: 1677, col: 7, offset: 54306},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1664, col: 7, offset: 53853},
+																												pos:        position{line: 1677, col: 7, offset: 54306},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53896},
+																											pos: position{line: 1678, col: 7, offset: 54349},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53896},
+																												pos:        position{line: 1678, col: 7, offset: 54349},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27511,12 +27946,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 91008},
+																									pos: position{line: 2890, col: 11, offset: 91461},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 91008},
+																										pos:        position{line: 2890, col: 11, offset: 91461},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27530,26 +27965,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53214},
+																			pos:   position{line: 1655, col: 5, offset: 53667},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27560,28 +27995,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27590,9 +28025,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -27605,36 +28040,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 5, offset: 55736},
+																pos: position{line: 1743, col: 5, offset: 56189},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 5, offset: 55736},
+																	pos: position{line: 1743, col: 5, offset: 56189},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1730, col: 5, offset: 55736},
+																			pos:   position{line: 1743, col: 5, offset: 56189},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1736, col: 5, offset: 55933},
+																				pos: position{line: 1749, col: 5, offset: 56386},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1736, col: 5, offset: 55933},
+																					pos: position{line: 1749, col: 5, offset: 56386},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 5, offset: 55933},
+																							pos:        position{line: 1749, col: 5, offset: 56386},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1736, col: 9, offset: 55937},
+																							pos:   position{line: 1749, col: 9, offset: 56390},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1736, col: 14, offset: 55942},
+																								pos: position{line: 1749, col: 14, offset: 56395},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1736, col: 14, offset: 55942},
+																									pos: position{line: 1749, col: 14, offset: 56395},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1736, col: 14, offset: 55942},
+																										pos:        position{line: 1749, col: 14, offset: 56395},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27644,18 +28079,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1736, col: 62, offset: 55990},
+																							pos:        position{line: 1749, col: 62, offset: 56443},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27668,26 +28103,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 5, offset: 55772},
+																			pos:   position{line: 1744, col: 5, offset: 56225},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1538, col: 5, offset: 49732},
+																				pos: position{line: 1551, col: 5, offset: 50185},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1538, col: 5, offset: 49732},
+																					pos: position{line: 1551, col: 5, offset: 50185},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1538, col: 5, offset: 49732},
+																							pos:   position{line: 1551, col: 5, offset: 50185},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1538, col: 14, offset: 49741},
+																								pos: position{line: 1551, col: 14, offset: 50194},
 																								expr: &actionExpr{
-																									pos: position{line: 1538, col: 15, offset: 49742},
+																									pos: position{line: 1551, col: 15, offset: 50195},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1538, col: 15, offset: 49742},
+																										pos: position{line: 1551, col: 15, offset: 50195},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1538, col: 15, offset: 49742},
+																											pos:        position{line: 1551, col: 15, offset: 50195},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27698,28 +28133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27728,9 +28163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -27743,40 +28178,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54089},
+																pos: position{line: 1687, col: 5, offset: 54542},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54089},
+																	pos: position{line: 1687, col: 5, offset: 54542},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54089},
+																			pos:   position{line: 1687, col: 5, offset: 54542},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54415},
+																				pos: position{line: 1695, col: 5, offset: 54868},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54415},
+																					pos: position{line: 1695, col: 5, offset: 54868},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54416},
+																						pos: position{line: 1695, col: 6, offset: 54869},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54416},
+																								pos: position{line: 1695, col: 6, offset: 54869},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54566},
+																									pos: position{line: 1700, col: 5, offset: 55019},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54566},
+																										pos: position{line: 1700, col: 5, offset: 55019},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54566},
+																												pos:   position{line: 1700, col: 5, offset: 55019},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54577},
+																													pos: position{line: 1700, col: 16, offset: 55030},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54577},
+																														pos: position{line: 1700, col: 16, offset: 55030},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54578},
+																															pos:        position{line: 1700, col: 17, offset: 55031},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27785,7 +28220,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54635},
+																												pos: position{line: 1703, col: 5, offset: 55088},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27793,30 +28228,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54445},
+																								pos: position{line: 1695, col: 35, offset: 54898},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27825,16 +28260,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54450,
+																								line: 1695, col: 40, offset: 54903,
 																							},
 																						},
 																					},
@@ -27842,24 +28277,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54124},
+																			pos:   position{line: 1688, col: 5, offset: 54577},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54566},
+																				pos: position{line: 1700, col: 5, offset: 55019},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54566},
+																					pos: position{line: 1700, col: 5, offset: 55019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54566},
+																							pos:   position{line: 1700, col: 5, offset: 55019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54577},
+																								pos: position{line: 1700, col: 16, offset: 55030},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54577},
+																									pos: position{line: 1700, col: 16, offset: 55030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54578},
+																										pos:        position{line: 1700, col: 17, offset: 55031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27868,7 +28303,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54635},
+																							pos: position{line: 1703, col: 5, offset: 55088},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27876,24 +28311,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54169},
+																			pos:   position{line: 1689, col: 5, offset: 54622},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1698, col: 5, offset: 54884},
+																				pos: position{line: 1711, col: 5, offset: 55337},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54950},
+																						pos: position{line: 1713, col: 9, offset: 55403},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54950},
+																							pos: position{line: 1713, col: 9, offset: 55403},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1700, col: 9, offset: 54950},
+																									pos: position{line: 1713, col: 9, offset: 55403},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27902,28 +28337,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27932,34 +28367,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1701, col: 9, offset: 54969},
+																									pos: position{line: 1714, col: 9, offset: 55422},
 																									expr: &actionExpr{
-																										pos: position{line: 684, col: 14, offset: 21681},
+																										pos: position{line: 697, col: 14, offset: 22134},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 684, col: 14, offset: 21681},
+																											pos: position{line: 697, col: 14, offset: 22134},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91281},
+																													pos: position{line: 2903, col: 11, offset: 91734},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91283,
+																														line: 2903, col: 13, offset: 91736,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 684, col: 21, offset: 21688},
+																													pos: position{line: 697, col: 21, offset: 22141},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27968,28 +28403,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27998,9 +28433,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -28013,18 +28448,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55098},
+																						pos: position{line: 1720, col: 9, offset: 55551},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55098},
+																							pos: position{line: 1720, col: 9, offset: 55551},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91008},
+																									pos: position{line: 2890, col: 11, offset: 91461},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91008},
+																										pos: position{line: 2890, col: 11, offset: 91461},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91008},
+																											pos:        position{line: 2890, col: 11, offset: 91461},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28033,15 +28468,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1708, col: 9, offset: 55171},
+																									pos:   position{line: 1721, col: 9, offset: 55624},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1708, col: 18, offset: 55180},
+																										pos: position{line: 1721, col: 18, offset: 55633},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1708, col: 18, offset: 55180},
+																											pos: position{line: 1721, col: 18, offset: 55633},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1708, col: 18, offset: 55180},
+																												pos:        position{line: 1721, col: 18, offset: 55633},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28051,28 +28486,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28081,9 +28516,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -28104,40 +28539,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1517, col: 11, offset: 49056},
+										pos:  position{line: 1530, col: 11, offset: 49509},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79918},
+										pos: position{line: 2496, col: 22, offset: 80371},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80139},
+													pos:        position{line: 2501, col: 31, offset: 80592},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80144},
+													pos: position{line: 2501, col: 36, offset: 80597},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80145},
+														pos:        position{line: 2501, col: 37, offset: 80598},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79945},
+													pos:   position{line: 2496, col: 49, offset: 80398},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89473},
+														pos: position{line: 2832, col: 13, offset: 89926},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89473},
+																pos:        position{line: 2832, col: 13, offset: 89926},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28147,28 +28582,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28177,9 +28612,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -28188,32 +28623,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1525, col: 5, offset: 49320},
+										pos: position{line: 1538, col: 5, offset: 49773},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1525, col: 5, offset: 49320},
+											pos: position{line: 1538, col: 5, offset: 49773},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49320},
+													pos: position{line: 1538, col: 5, offset: 49773},
 													expr: &actionExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 684, col: 14, offset: 21681},
+															pos: position{line: 697, col: 14, offset: 22134},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91281},
+																	pos: position{line: 2903, col: 11, offset: 91734},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91283,
+																		line: 2903, col: 13, offset: 91736,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 684, col: 21, offset: 21688},
+																	pos: position{line: 697, col: 21, offset: 22141},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28222,28 +28657,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28252,9 +28687,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -28264,23 +28699,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49335},
+													pos: position{line: 1539, col: 5, offset: 49788},
 													expr: &seqExpr{
-														pos: position{line: 1556, col: 27, offset: 50240},
+														pos: position{line: 1569, col: 27, offset: 50693},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1556, col: 27, offset: 50240},
+																pos:        position{line: 1569, col: 27, offset: 50693},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1556, col: 31, offset: 50244},
+																pos: position{line: 1569, col: 31, offset: 50697},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28289,25 +28724,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28319,20 +28754,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49363},
+													pos: position{line: 1540, col: 5, offset: 49816},
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51434},
+														pos: position{line: 1610, col: 5, offset: 51887},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51434},
+															pos: position{line: 1610, col: 5, offset: 51887},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51434},
+																	pos: position{line: 1610, col: 5, offset: 51887},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28341,27 +28776,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51441},
+																	pos:   position{line: 1610, col: 12, offset: 51894},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51504},
+																		pos: position{line: 1612, col: 9, offset: 51957},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51504},
+																				pos: position{line: 1612, col: 9, offset: 51957},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51504},
+																					pos: position{line: 1612, col: 9, offset: 51957},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51504},
+																							pos:   position{line: 1612, col: 9, offset: 51957},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51511},
+																								pos: position{line: 1612, col: 16, offset: 51964},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51511},
+																									pos: position{line: 1612, col: 16, offset: 51964},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51512},
+																										pos:        position{line: 1612, col: 17, offset: 51965},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28370,22 +28805,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51612},
+																							pos: position{line: 1616, col: 9, offset: 52065},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52329},
+																				pos: position{line: 1635, col: 11, offset: 52782},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52329},
+																					pos: position{line: 1635, col: 11, offset: 52782},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52329},
+																							pos: position{line: 1635, col: 11, offset: 52782},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52330},
+																								pos:        position{line: 1635, col: 12, offset: 52783},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28393,7 +28828,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52338},
+																							pos:        position{line: 1635, col: 20, offset: 52791},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28402,20 +28837,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52455},
+																				pos: position{line: 1637, col: 13, offset: 52908},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52455},
+																					pos: position{line: 1637, col: 13, offset: 52908},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52456},
+																							pos:        position{line: 1637, col: 14, offset: 52909},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52463},
+																							pos:        position{line: 1637, col: 21, offset: 52916},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28424,20 +28859,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52583},
+																				pos: position{line: 1639, col: 13, offset: 53036},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52583},
+																					pos: position{line: 1639, col: 13, offset: 53036},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52584},
+																							pos:        position{line: 1639, col: 14, offset: 53037},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52591},
+																							pos:        position{line: 1639, col: 21, offset: 53044},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28446,15 +28881,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52711},
+																				pos: position{line: 1641, col: 13, offset: 53164},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52711},
+																					pos: position{line: 1641, col: 13, offset: 53164},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52711},
+																							pos: position{line: 1641, col: 13, offset: 53164},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52712},
+																								pos:        position{line: 1641, col: 14, offset: 53165},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28462,7 +28897,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52724},
+																							pos:        position{line: 1641, col: 26, offset: 53177},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28471,15 +28906,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52844},
+																				pos: position{line: 1643, col: 13, offset: 53297},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52844},
+																					pos: position{line: 1643, col: 13, offset: 53297},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52844},
+																							pos: position{line: 1643, col: 13, offset: 53297},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52845},
+																								pos:        position{line: 1643, col: 14, offset: 53298},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28487,7 +28922,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52857},
+																							pos:        position{line: 1643, col: 26, offset: 53310},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28499,12 +28934,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28517,20 +28952,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49393},
+													pos: position{line: 1541, col: 5, offset: 49846},
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53396},
+														pos: position{line: 1660, col: 5, offset: 53849},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53396},
+															pos: position{line: 1660, col: 5, offset: 53849},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53396},
+																	pos: position{line: 1660, col: 5, offset: 53849},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28539,24 +28974,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53408},
+																	pos:   position{line: 1661, col: 5, offset: 53861},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53424},
+																		pos: position{line: 1662, col: 9, offset: 53877},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53425},
+																			pos: position{line: 1662, col: 10, offset: 53878},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53426},
+																					pos:        position{line: 1662, col: 11, offset: 53879},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53433},
+																					pos: position{line: 1662, col: 18, offset: 53886},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53434},
+																						pos:        position{line: 1662, col: 19, offset: 53887},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28567,16 +29002,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53524},
+																	pos: position{line: 1665, col: 7, offset: 53977},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28589,29 +29024,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49425},
+													pos: position{line: 1542, col: 5, offset: 49878},
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55933},
+														pos: position{line: 1749, col: 5, offset: 56386},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55933},
+															pos: position{line: 1749, col: 5, offset: 56386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55933},
+																	pos:        position{line: 1749, col: 5, offset: 56386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55937},
+																	pos:   position{line: 1749, col: 9, offset: 56390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55942},
+																		pos: position{line: 1749, col: 14, offset: 56395},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55942},
+																			pos: position{line: 1749, col: 14, offset: 56395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55942},
+																				pos:        position{line: 1749, col: 14, offset: 56395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28621,18 +29056,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55990},
+																	pos:        position{line: 1749, col: 62, offset: 56443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28645,36 +29080,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1530, col: 5, offset: 49455},
+													pos: position{line: 1543, col: 5, offset: 49908},
 													expr: &seqExpr{
-														pos: position{line: 1530, col: 7, offset: 49457},
+														pos: position{line: 1543, col: 7, offset: 49910},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1682, col: 5, offset: 54415},
+																pos: position{line: 1695, col: 5, offset: 54868},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1682, col: 5, offset: 54415},
+																	pos: position{line: 1695, col: 5, offset: 54868},
 																	expr: &seqExpr{
-																		pos: position{line: 1682, col: 6, offset: 54416},
+																		pos: position{line: 1695, col: 6, offset: 54869},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1682, col: 6, offset: 54416},
+																				pos: position{line: 1695, col: 6, offset: 54869},
 																				expr: &actionExpr{
-																					pos: position{line: 1687, col: 5, offset: 54566},
+																					pos: position{line: 1700, col: 5, offset: 55019},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1687, col: 5, offset: 54566},
+																						pos: position{line: 1700, col: 5, offset: 55019},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1687, col: 5, offset: 54566},
+																								pos:   position{line: 1700, col: 5, offset: 55019},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 16, offset: 54577},
+																									pos: position{line: 1700, col: 16, offset: 55030},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1687, col: 16, offset: 54577},
+																										pos: position{line: 1700, col: 16, offset: 55030},
 																										expr: &litMatcher{
-																											pos:        position{line: 1687, col: 17, offset: 54578},
+																											pos:        position{line: 1700, col: 17, offset: 55031},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28683,7 +29118,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1690, col: 5, offset: 54635},
+																								pos: position{line: 1703, col: 5, offset: 55088},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28691,30 +29126,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1682, col: 35, offset: 54445},
+																				pos: position{line: 1695, col: 35, offset: 54898},
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28723,37 +29158,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1682, col: 40, offset: 54450,
+																				line: 1695, col: 40, offset: 54903,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54566},
+																pos: position{line: 1700, col: 5, offset: 55019},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54566},
+																	pos: position{line: 1700, col: 5, offset: 55019},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54566},
+																			pos:   position{line: 1700, col: 5, offset: 55019},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1687, col: 16, offset: 54577},
+																				pos: position{line: 1700, col: 16, offset: 55030},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1687, col: 16, offset: 54577},
+																					pos: position{line: 1700, col: 16, offset: 55030},
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 17, offset: 54578},
+																						pos:        position{line: 1700, col: 17, offset: 55031},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28762,20 +29197,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1690, col: 5, offset: 54635},
+																			pos: position{line: 1703, col: 5, offset: 55088},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1530, col: 59, offset: 49509},
+																pos: position{line: 1543, col: 59, offset: 49962},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28783,25 +29218,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -28810,9 +29245,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -28821,20 +29256,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1531, col: 5, offset: 49527},
+													pos: position{line: 1544, col: 5, offset: 49980},
 													expr: &choiceExpr{
-														pos: position{line: 1531, col: 7, offset: 49529},
+														pos: position{line: 1544, col: 7, offset: 49982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 731, col: 5, offset: 23253},
+																pos: position{line: 744, col: 5, offset: 23706},
 																run: (*parser).callonExtraListElement632,
 																expr: &seqExpr{
-																	pos: position{line: 731, col: 5, offset: 23253},
+																	pos: position{line: 744, col: 5, offset: 23706},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 731, col: 5, offset: 23253},
+																			pos: position{line: 744, col: 5, offset: 23706},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2763, col: 13, offset: 88028},
+																				pos:        position{line: 2776, col: 13, offset: 88481},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -28842,36 +29277,36 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 732, col: 5, offset: 23283},
+																			pos:   position{line: 745, col: 5, offset: 23736},
 																			label: "delimiter",
 																			expr: &choiceExpr{
-																				pos: position{line: 733, col: 9, offset: 23303},
+																				pos: position{line: 746, col: 9, offset: 23756},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 747, col: 5, offset: 23795},
+																						pos: position{line: 760, col: 5, offset: 24248},
 																						run: (*parser).callonExtraListElement638,
 																						expr: &seqExpr{
-																							pos: position{line: 747, col: 5, offset: 23795},
+																							pos: position{line: 760, col: 5, offset: 24248},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 747, col: 5, offset: 23795},
+																									pos:   position{line: 760, col: 5, offset: 24248},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 747, col: 16, offset: 23806},
+																										pos: position{line: 760, col: 16, offset: 24259},
 																										run: (*parser).callonExtraListElement641,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 16, offset: 23806},
+																											pos: position{line: 760, col: 16, offset: 24259},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 747, col: 16, offset: 23806},
+																													pos:        position{line: 760, col: 16, offset: 24259},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 747, col: 23, offset: 23813},
+																													pos: position{line: 760, col: 23, offset: 24266},
 																													expr: &litMatcher{
-																														pos:        position{line: 747, col: 23, offset: 23813},
+																														pos:        position{line: 760, col: 23, offset: 24266},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -28882,12 +29317,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 749, col: 8, offset: 23897},
+																									pos: position{line: 762, col: 8, offset: 24350},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28896,28 +29331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28926,9 +29361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -28937,30 +29372,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 754, col: 5, offset: 24043},
+																						pos: position{line: 767, col: 5, offset: 24496},
 																						run: (*parser).callonExtraListElement657,
 																						expr: &seqExpr{
-																							pos: position{line: 754, col: 5, offset: 24043},
+																							pos: position{line: 767, col: 5, offset: 24496},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 754, col: 5, offset: 24043},
+																									pos:   position{line: 767, col: 5, offset: 24496},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 754, col: 16, offset: 24054},
+																										pos: position{line: 767, col: 16, offset: 24507},
 																										run: (*parser).callonExtraListElement660,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 16, offset: 24054},
+																											pos: position{line: 767, col: 16, offset: 24507},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 754, col: 16, offset: 24054},
+																													pos:        position{line: 767, col: 16, offset: 24507},
 																													val:        "====",
 																													ignoreCase: false,
 																													want:       "\"====\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 754, col: 23, offset: 24061},
+																													pos: position{line: 767, col: 23, offset: 24514},
 																													expr: &litMatcher{
-																														pos:        position{line: 754, col: 23, offset: 24061},
+																														pos:        position{line: 767, col: 23, offset: 24514},
 																														val:        "=",
 																														ignoreCase: false,
 																														want:       "\"=\"",
@@ -28971,12 +29406,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 756, col: 8, offset: 24145},
+																									pos: position{line: 769, col: 8, offset: 24598},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28985,28 +29420,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29015,9 +29450,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29026,27 +29461,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 767, col: 26, offset: 24531},
+																						pos: position{line: 780, col: 26, offset: 24984},
 																						run: (*parser).callonExtraListElement676,
 																						expr: &seqExpr{
-																							pos: position{line: 767, col: 26, offset: 24531},
+																							pos: position{line: 780, col: 26, offset: 24984},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 767, col: 26, offset: 24531},
+																									pos:        position{line: 780, col: 26, offset: 24984},
 																									val:        "```",
 																									ignoreCase: false,
 																									want:       "\"```\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 767, col: 32, offset: 24537},
+																									pos:   position{line: 780, col: 32, offset: 24990},
 																									label: "language",
 																									expr: &actionExpr{
-																										pos: position{line: 771, col: 13, offset: 24667},
+																										pos: position{line: 784, col: 13, offset: 25120},
 																										run: (*parser).callonExtraListElement680,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 771, col: 14, offset: 24668},
+																											pos: position{line: 784, col: 14, offset: 25121},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 771, col: 14, offset: 24668},
+																												pos:        position{line: 784, col: 14, offset: 25121},
 																												val:        "[^\\r\\n` ]",
 																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
@@ -29056,12 +29491,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 767, col: 52, offset: 24557},
+																									pos: position{line: 780, col: 52, offset: 25010},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29070,28 +29505,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29100,9 +29535,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29111,30 +29546,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 761, col: 5, offset: 24290},
+																						pos: position{line: 774, col: 5, offset: 24743},
 																						run: (*parser).callonExtraListElement694,
 																						expr: &seqExpr{
-																							pos: position{line: 761, col: 5, offset: 24290},
+																							pos: position{line: 774, col: 5, offset: 24743},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 761, col: 5, offset: 24290},
+																									pos:   position{line: 774, col: 5, offset: 24743},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 761, col: 16, offset: 24301},
+																										pos: position{line: 774, col: 16, offset: 24754},
 																										run: (*parser).callonExtraListElement697,
 																										expr: &seqExpr{
-																											pos: position{line: 761, col: 16, offset: 24301},
+																											pos: position{line: 774, col: 16, offset: 24754},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 761, col: 16, offset: 24301},
+																													pos:        position{line: 774, col: 16, offset: 24754},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 761, col: 22, offset: 24307},
+																													pos: position{line: 774, col: 22, offset: 24760},
 																													expr: &litMatcher{
-																														pos:        position{line: 761, col: 22, offset: 24307},
+																														pos:        position{line: 774, col: 22, offset: 24760},
 																														val:        "`",
 																														ignoreCase: false,
 																														want:       "\"`\"",
@@ -29145,12 +29580,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 763, col: 8, offset: 24391},
+																									pos: position{line: 776, col: 8, offset: 24844},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29159,28 +29594,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29189,9 +29624,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29200,30 +29635,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24827},
+																						pos: position{line: 789, col: 5, offset: 25280},
 																						run: (*parser).callonExtraListElement713,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24827},
+																							pos: position{line: 789, col: 5, offset: 25280},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24827},
+																									pos:   position{line: 789, col: 5, offset: 25280},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24838},
+																										pos: position{line: 789, col: 16, offset: 25291},
 																										run: (*parser).callonExtraListElement716,
 																										expr: &seqExpr{
-																											pos: position{line: 776, col: 16, offset: 24838},
+																											pos: position{line: 789, col: 16, offset: 25291},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 776, col: 16, offset: 24838},
+																													pos:        position{line: 789, col: 16, offset: 25291},
 																													val:        "----",
 																													ignoreCase: false,
 																													want:       "\"----\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 776, col: 23, offset: 24845},
+																													pos: position{line: 789, col: 23, offset: 25298},
 																													expr: &litMatcher{
-																														pos:        position{line: 776, col: 23, offset: 24845},
+																														pos:        position{line: 789, col: 23, offset: 25298},
 																														val:        "-",
 																														ignoreCase: false,
 																														want:       "\"-\"",
@@ -29234,12 +29669,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24929},
+																									pos: position{line: 791, col: 8, offset: 25382},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29248,28 +29683,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29278,9 +29713,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29289,30 +29724,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 790, col: 5, offset: 25303},
+																						pos: position{line: 803, col: 5, offset: 25756},
 																						run: (*parser).callonExtraListElement732,
 																						expr: &seqExpr{
-																							pos: position{line: 790, col: 5, offset: 25303},
+																							pos: position{line: 803, col: 5, offset: 25756},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 790, col: 5, offset: 25303},
+																									pos:   position{line: 803, col: 5, offset: 25756},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 790, col: 16, offset: 25314},
+																										pos: position{line: 803, col: 16, offset: 25767},
 																										run: (*parser).callonExtraListElement735,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 16, offset: 25314},
+																											pos: position{line: 803, col: 16, offset: 25767},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 790, col: 16, offset: 25314},
+																													pos:        position{line: 803, col: 16, offset: 25767},
 																													val:        "....",
 																													ignoreCase: false,
 																													want:       "\"....\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 790, col: 23, offset: 25321},
+																													pos: position{line: 803, col: 23, offset: 25774},
 																													expr: &litMatcher{
-																														pos:        position{line: 790, col: 23, offset: 25321},
+																														pos:        position{line: 803, col: 23, offset: 25774},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -29323,12 +29758,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 792, col: 8, offset: 25405},
+																									pos: position{line: 805, col: 8, offset: 25858},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29337,28 +29772,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29367,9 +29802,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29378,30 +29813,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 797, col: 5, offset: 25555},
+																						pos: position{line: 810, col: 5, offset: 26008},
 																						run: (*parser).callonExtraListElement751,
 																						expr: &seqExpr{
-																							pos: position{line: 797, col: 5, offset: 25555},
+																							pos: position{line: 810, col: 5, offset: 26008},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 797, col: 5, offset: 25555},
+																									pos:   position{line: 810, col: 5, offset: 26008},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 797, col: 16, offset: 25566},
+																										pos: position{line: 810, col: 16, offset: 26019},
 																										run: (*parser).callonExtraListElement754,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 16, offset: 25566},
+																											pos: position{line: 810, col: 16, offset: 26019},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 797, col: 16, offset: 25566},
+																													pos:        position{line: 810, col: 16, offset: 26019},
 																													val:        "++++",
 																													ignoreCase: false,
 																													want:       "\"++++\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 797, col: 23, offset: 25573},
+																													pos: position{line: 810, col: 23, offset: 26026},
 																													expr: &litMatcher{
-																														pos:        position{line: 797, col: 23, offset: 25573},
+																														pos:        position{line: 810, col: 23, offset: 26026},
 																														val:        "+",
 																														ignoreCase: false,
 																														want:       "\"+\"",
@@ -29412,12 +29847,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 799, col: 8, offset: 25657},
+																									pos: position{line: 812, col: 8, offset: 26110},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29426,28 +29861,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29456,9 +29891,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29467,30 +29902,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 804, col: 5, offset: 25805},
+																						pos: position{line: 817, col: 5, offset: 26258},
 																						run: (*parser).callonExtraListElement770,
 																						expr: &seqExpr{
-																							pos: position{line: 804, col: 5, offset: 25805},
+																							pos: position{line: 817, col: 5, offset: 26258},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 804, col: 5, offset: 25805},
+																									pos:   position{line: 817, col: 5, offset: 26258},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 804, col: 16, offset: 25816},
+																										pos: position{line: 817, col: 16, offset: 26269},
 																										run: (*parser).callonExtraListElement773,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 16, offset: 25816},
+																											pos: position{line: 817, col: 16, offset: 26269},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 804, col: 16, offset: 25816},
+																													pos:        position{line: 817, col: 16, offset: 26269},
 																													val:        "____",
 																													ignoreCase: false,
 																													want:       "\"____\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 804, col: 23, offset: 25823},
+																													pos: position{line: 817, col: 23, offset: 26276},
 																													expr: &litMatcher{
-																														pos:        position{line: 804, col: 23, offset: 25823},
+																														pos:        position{line: 817, col: 23, offset: 26276},
 																														val:        "_",
 																														ignoreCase: false,
 																														want:       "\"_\"",
@@ -29501,12 +29936,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 806, col: 8, offset: 25907},
+																									pos: position{line: 819, col: 8, offset: 26360},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29515,28 +29950,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29545,9 +29980,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29556,30 +29991,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 811, col: 5, offset: 26051},
+																						pos: position{line: 824, col: 5, offset: 26504},
 																						run: (*parser).callonExtraListElement789,
 																						expr: &seqExpr{
-																							pos: position{line: 811, col: 5, offset: 26051},
+																							pos: position{line: 824, col: 5, offset: 26504},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 811, col: 5, offset: 26051},
+																									pos:   position{line: 824, col: 5, offset: 26504},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 811, col: 16, offset: 26062},
+																										pos: position{line: 824, col: 16, offset: 26515},
 																										run: (*parser).callonExtraListElement792,
 																										expr: &seqExpr{
-																											pos: position{line: 811, col: 16, offset: 26062},
+																											pos: position{line: 824, col: 16, offset: 26515},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 811, col: 16, offset: 26062},
+																													pos:        position{line: 824, col: 16, offset: 26515},
 																													val:        "****",
 																													ignoreCase: false,
 																													want:       "\"****\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 811, col: 23, offset: 26069},
+																													pos: position{line: 824, col: 23, offset: 26522},
 																													expr: &litMatcher{
-																														pos:        position{line: 811, col: 23, offset: 26069},
+																														pos:        position{line: 824, col: 23, offset: 26522},
 																														val:        "*",
 																														ignoreCase: false,
 																														want:       "\"*\"",
@@ -29590,12 +30025,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 813, col: 8, offset: 26153},
+																									pos: position{line: 826, col: 8, offset: 26606},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29604,28 +30039,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29634,9 +30069,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -29651,19 +30086,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25072},
+																pos: position{line: 796, col: 5, offset: 25525},
 																run: (*parser).callonExtraListElement808,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25072},
+																	pos: position{line: 796, col: 5, offset: 25525},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25072},
+																			pos:   position{line: 796, col: 5, offset: 25525},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25083},
+																				pos: position{line: 796, col: 16, offset: 25536},
 																				run: (*parser).callonExtraListElement811,
 																				expr: &litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25083},
+																					pos:        position{line: 796, col: 16, offset: 25536},
 																					val:        "--",
 																					ignoreCase: false,
 																					want:       "\"--\"",
@@ -29671,12 +30106,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25160},
+																			pos: position{line: 798, col: 8, offset: 25613},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29685,28 +30120,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29715,9 +30150,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -29726,21 +30161,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83616},
+																pos: position{line: 2628, col: 19, offset: 84069},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83616},
+																		pos:        position{line: 2628, col: 19, offset: 84069},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83623},
+																		pos: position{line: 2628, col: 26, offset: 84076},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29749,28 +30184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -29779,9 +30214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -29792,15 +30227,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 5, offset: 49587},
+													pos:   position{line: 1545, col: 5, offset: 50040},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 14, offset: 89540},
+														pos: position{line: 2836, col: 14, offset: 89993},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2823, col: 14, offset: 89540},
+															pos: position{line: 2836, col: 14, offset: 89993},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 14, offset: 89540},
+																pos:        position{line: 2836, col: 14, offset: 89993},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29810,28 +30245,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29840,9 +30275,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -29859,28 +30294,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1548, col: 1, offset: 49978},
+			pos:  position{line: 1561, col: 1, offset: 50431},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 50003},
+				pos: position{line: 1562, col: 5, offset: 50456},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 50003},
+					pos: position{line: 1562, col: 5, offset: 50456},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 50003},
+							pos:   position{line: 1562, col: 5, offset: 50456},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1549, col: 12, offset: 50010},
+								pos: position{line: 1562, col: 12, offset: 50463},
 								expr: &seqExpr{
-									pos: position{line: 1549, col: 13, offset: 50011},
+									pos: position{line: 1562, col: 13, offset: 50464},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1549, col: 13, offset: 50011},
+											pos: position{line: 1562, col: 13, offset: 50464},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90947},
+												pos: position{line: 2886, col: 10, offset: 91400},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90947},
+													pos:        position{line: 2886, col: 10, offset: 91400},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29889,25 +30324,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2882, col: 12, offset: 91118},
+											pos: position{line: 2895, col: 12, offset: 91571},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2882, col: 13, offset: 91119},
+												pos: position{line: 2895, col: 13, offset: 91572},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2882, col: 13, offset: 91119},
+														pos:        position{line: 2895, col: 13, offset: 91572},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 20, offset: 91126},
+														pos:        position{line: 2895, col: 20, offset: 91579},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 29, offset: 91135},
+														pos:        position{line: 2895, col: 29, offset: 91588},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29920,18 +30355,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1550, col: 5, offset: 50033},
+							pos:        position{line: 1563, col: 5, offset: 50486},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1550, col: 9, offset: 50037},
+							pos: position{line: 1563, col: 9, offset: 50490},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29940,28 +30375,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -29970,45 +30405,45 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50052},
+							pos:   position{line: 1564, col: 5, offset: 50505},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 13, offset: 50060},
+								pos: position{line: 1564, col: 13, offset: 50513},
 								expr: &actionExpr{
-									pos: position{line: 1551, col: 14, offset: 50061},
+									pos: position{line: 1564, col: 14, offset: 50514},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1551, col: 14, offset: 50061},
+										pos: position{line: 1564, col: 14, offset: 50514},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1551, col: 14, offset: 50061},
+												pos: position{line: 1564, col: 14, offset: 50514},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonListContinuation31,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30017,28 +30452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30047,9 +30482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -30059,10 +30494,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1551, col: 25, offset: 50072},
+												pos:   position{line: 1564, col: 25, offset: 50525},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1551, col: 27, offset: 50074},
+													pos:  position{line: 1564, col: 27, offset: 50527},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30077,46 +30512,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1558, col: 1, offset: 50260},
+			pos:  position{line: 1571, col: 1, offset: 50713},
 			expr: &actionExpr{
-				pos: position{line: 1559, col: 5, offset: 50306},
+				pos: position{line: 1572, col: 5, offset: 50759},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1559, col: 5, offset: 50306},
+					pos: position{line: 1572, col: 5, offset: 50759},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1560, col: 5, offset: 50334},
+							pos: position{line: 1573, col: 5, offset: 50787},
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 5, offset: 48252},
+								pos: position{line: 1510, col: 5, offset: 48705},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1590, col: 5, offset: 51226},
+										pos: position{line: 1603, col: 5, offset: 51679},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1590, col: 5, offset: 51226},
+											pos: position{line: 1603, col: 5, offset: 51679},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1590, col: 5, offset: 51226},
+													pos:   position{line: 1603, col: 5, offset: 51679},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1597, col: 5, offset: 51434},
+														pos: position{line: 1610, col: 5, offset: 51887},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1597, col: 5, offset: 51434},
+															pos: position{line: 1610, col: 5, offset: 51887},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1597, col: 5, offset: 51434},
+																	pos: position{line: 1610, col: 5, offset: 51887},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30125,27 +30560,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1597, col: 12, offset: 51441},
+																	pos:   position{line: 1610, col: 12, offset: 51894},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1599, col: 9, offset: 51504},
+																		pos: position{line: 1612, col: 9, offset: 51957},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1599, col: 9, offset: 51504},
+																				pos: position{line: 1612, col: 9, offset: 51957},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 9, offset: 51504},
+																					pos: position{line: 1612, col: 9, offset: 51957},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 9, offset: 51504},
+																							pos:   position{line: 1612, col: 9, offset: 51957},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1599, col: 16, offset: 51511},
+																								pos: position{line: 1612, col: 16, offset: 51964},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1599, col: 16, offset: 51511},
+																									pos: position{line: 1612, col: 16, offset: 51964},
 																									expr: &litMatcher{
-																										pos:        position{line: 1599, col: 17, offset: 51512},
+																										pos:        position{line: 1612, col: 17, offset: 51965},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30154,22 +30589,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1603, col: 9, offset: 51612},
+																							pos: position{line: 1616, col: 9, offset: 52065},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 11, offset: 52329},
+																				pos: position{line: 1635, col: 11, offset: 52782},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 11, offset: 52329},
+																					pos: position{line: 1635, col: 11, offset: 52782},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 11, offset: 52329},
+																							pos: position{line: 1635, col: 11, offset: 52782},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 12, offset: 52330},
+																								pos:        position{line: 1635, col: 12, offset: 52783},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30177,7 +30612,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 20, offset: 52338},
+																							pos:        position{line: 1635, col: 20, offset: 52791},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30186,20 +30621,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 13, offset: 52455},
+																				pos: position{line: 1637, col: 13, offset: 52908},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 13, offset: 52455},
+																					pos: position{line: 1637, col: 13, offset: 52908},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1624, col: 14, offset: 52456},
+																							pos:        position{line: 1637, col: 14, offset: 52909},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 21, offset: 52463},
+																							pos:        position{line: 1637, col: 21, offset: 52916},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30208,20 +30643,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52583},
+																				pos: position{line: 1639, col: 13, offset: 53036},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52583},
+																					pos: position{line: 1639, col: 13, offset: 53036},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52584},
+																							pos:        position{line: 1639, col: 14, offset: 53037},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52591},
+																							pos:        position{line: 1639, col: 21, offset: 53044},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30230,15 +30665,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52711},
+																				pos: position{line: 1641, col: 13, offset: 53164},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52711},
+																					pos: position{line: 1641, col: 13, offset: 53164},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 13, offset: 52711},
+																							pos: position{line: 1641, col: 13, offset: 53164},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 14, offset: 52712},
+																								pos:        position{line: 1641, col: 14, offset: 53165},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30246,7 +30681,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 26, offset: 52724},
+																							pos:        position{line: 1641, col: 26, offset: 53177},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30255,15 +30690,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52844},
+																				pos: position{line: 1643, col: 13, offset: 53297},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52844},
+																					pos: position{line: 1643, col: 13, offset: 53297},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52844},
+																							pos: position{line: 1643, col: 13, offset: 53297},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52845},
+																								pos:        position{line: 1643, col: 14, offset: 53298},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30271,7 +30706,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52857},
+																							pos:        position{line: 1643, col: 26, offset: 53310},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30283,12 +30718,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30301,26 +30736,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1591, col: 5, offset: 51265},
+													pos:   position{line: 1604, col: 5, offset: 51718},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30331,28 +30766,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30361,9 +30796,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -30376,27 +30811,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1640, col: 5, offset: 53123},
+										pos: position{line: 1653, col: 5, offset: 53576},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1640, col: 5, offset: 53123},
+											pos: position{line: 1653, col: 5, offset: 53576},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1640, col: 5, offset: 53123},
+													pos:   position{line: 1653, col: 5, offset: 53576},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1647, col: 5, offset: 53396},
+														pos: position{line: 1660, col: 5, offset: 53849},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1647, col: 5, offset: 53396},
+															pos: position{line: 1660, col: 5, offset: 53849},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1647, col: 5, offset: 53396},
+																	pos: position{line: 1660, col: 5, offset: 53849},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30405,24 +30840,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1648, col: 5, offset: 53408},
+																	pos:   position{line: 1661, col: 5, offset: 53861},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 9, offset: 53424},
+																		pos: position{line: 1662, col: 9, offset: 53877},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 10, offset: 53425},
+																			pos: position{line: 1662, col: 10, offset: 53878},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1649, col: 11, offset: 53426},
+																					pos:        position{line: 1662, col: 11, offset: 53879},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1649, col: 18, offset: 53433},
+																					pos: position{line: 1662, col: 18, offset: 53886},
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 19, offset: 53434},
+																						pos:        position{line: 1662, col: 19, offset: 53887},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30433,16 +30868,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1652, col: 7, offset: 53524},
+																	pos: position{line: 1665, col: 7, offset: 53977},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30455,56 +30890,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1641, col: 5, offset: 53164},
+													pos:   position{line: 1654, col: 5, offset: 53617},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1641, col: 16, offset: 53175},
+														pos: position{line: 1654, col: 16, offset: 53628},
 														expr: &actionExpr{
-															pos: position{line: 1662, col: 5, offset: 53789},
+															pos: position{line: 1675, col: 5, offset: 54242},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 5, offset: 53789},
+																pos: position{line: 1675, col: 5, offset: 54242},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1662, col: 5, offset: 53789},
+																		pos: position{line: 1675, col: 5, offset: 54242},
 																		expr: &litMatcher{
-																			pos:        position{line: 1662, col: 6, offset: 53790},
+																			pos:        position{line: 1675, col: 6, offset: 54243},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1662, col: 10, offset: 53794},
+																		pos:   position{line: 1675, col: 10, offset: 54247},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1663, col: 7, offset: 53808},
+																			pos: position{line: 1676, col: 7, offset: 54261},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1663, col: 7, offset: 53808},
+																					pos: position{line: 1676, col: 7, offset: 54261},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1663, col: 7, offset: 53808},
+																						pos:        position{line: 1676, col: 7, offset: 54261},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1664, col: 7, offset: 53853},
+																					pos: position{line: 1677, col: 7, offset: 54306},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1664, col: 7, offset: 53853},
+																						pos:        position{line: 1677, col: 7, offset: 54306},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53896},
+																					pos: position{line: 1678, col: 7, offset: 54349},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53896},
+																						pos:        position{line: 1678, col: 7, offset: 54349},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30514,12 +30949,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 91008},
+																			pos: position{line: 2890, col: 11, offset: 91461},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91008},
+																				pos:        position{line: 2890, col: 11, offset: 91461},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30533,26 +30968,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53214},
+													pos:   position{line: 1655, col: 5, offset: 53667},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30563,28 +30998,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30593,9 +31028,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -30608,36 +31043,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1730, col: 5, offset: 55736},
+										pos: position{line: 1743, col: 5, offset: 56189},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1730, col: 5, offset: 55736},
+											pos: position{line: 1743, col: 5, offset: 56189},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1730, col: 5, offset: 55736},
+													pos:   position{line: 1743, col: 5, offset: 56189},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1736, col: 5, offset: 55933},
+														pos: position{line: 1749, col: 5, offset: 56386},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1736, col: 5, offset: 55933},
+															pos: position{line: 1749, col: 5, offset: 56386},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1736, col: 5, offset: 55933},
+																	pos:        position{line: 1749, col: 5, offset: 56386},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1736, col: 9, offset: 55937},
+																	pos:   position{line: 1749, col: 9, offset: 56390},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 14, offset: 55942},
+																		pos: position{line: 1749, col: 14, offset: 56395},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1736, col: 14, offset: 55942},
+																			pos: position{line: 1749, col: 14, offset: 56395},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1736, col: 14, offset: 55942},
+																				pos:        position{line: 1749, col: 14, offset: 56395},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30647,18 +31082,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1736, col: 62, offset: 55990},
+																	pos:        position{line: 1749, col: 62, offset: 56443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30671,26 +31106,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1731, col: 5, offset: 55772},
+													pos:   position{line: 1744, col: 5, offset: 56225},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49732},
+														pos: position{line: 1551, col: 5, offset: 50185},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49732},
+															pos: position{line: 1551, col: 5, offset: 50185},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49732},
+																	pos:   position{line: 1551, col: 5, offset: 50185},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1538, col: 14, offset: 49741},
+																		pos: position{line: 1551, col: 14, offset: 50194},
 																		expr: &actionExpr{
-																			pos: position{line: 1538, col: 15, offset: 49742},
+																			pos: position{line: 1551, col: 15, offset: 50195},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1538, col: 15, offset: 49742},
+																				pos: position{line: 1551, col: 15, offset: 50195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1538, col: 15, offset: 49742},
+																					pos:        position{line: 1551, col: 15, offset: 50195},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30701,28 +31136,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30731,9 +31166,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -30746,40 +31181,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1674, col: 5, offset: 54089},
+										pos: position{line: 1687, col: 5, offset: 54542},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1674, col: 5, offset: 54089},
+											pos: position{line: 1687, col: 5, offset: 54542},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54089},
+													pos:   position{line: 1687, col: 5, offset: 54542},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1682, col: 5, offset: 54415},
+														pos: position{line: 1695, col: 5, offset: 54868},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1682, col: 5, offset: 54415},
+															pos: position{line: 1695, col: 5, offset: 54868},
 															expr: &seqExpr{
-																pos: position{line: 1682, col: 6, offset: 54416},
+																pos: position{line: 1695, col: 6, offset: 54869},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1682, col: 6, offset: 54416},
+																		pos: position{line: 1695, col: 6, offset: 54869},
 																		expr: &actionExpr{
-																			pos: position{line: 1687, col: 5, offset: 54566},
+																			pos: position{line: 1700, col: 5, offset: 55019},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1687, col: 5, offset: 54566},
+																				pos: position{line: 1700, col: 5, offset: 55019},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1687, col: 5, offset: 54566},
+																						pos:   position{line: 1700, col: 5, offset: 55019},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1687, col: 16, offset: 54577},
+																							pos: position{line: 1700, col: 16, offset: 55030},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1687, col: 16, offset: 54577},
+																								pos: position{line: 1700, col: 16, offset: 55030},
 																								expr: &litMatcher{
-																									pos:        position{line: 1687, col: 17, offset: 54578},
+																									pos:        position{line: 1700, col: 17, offset: 55031},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -30788,7 +31223,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1690, col: 5, offset: 54635},
+																						pos: position{line: 1703, col: 5, offset: 55088},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -30796,30 +31231,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1682, col: 35, offset: 54445},
+																		pos: position{line: 1695, col: 35, offset: 54898},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30828,16 +31263,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1682, col: 40, offset: 54450,
+																		line: 1695, col: 40, offset: 54903,
 																	},
 																},
 															},
@@ -30845,24 +31280,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54124},
+													pos:   position{line: 1688, col: 5, offset: 54577},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1687, col: 5, offset: 54566},
+														pos: position{line: 1700, col: 5, offset: 55019},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1687, col: 5, offset: 54566},
+															pos: position{line: 1700, col: 5, offset: 55019},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1687, col: 5, offset: 54566},
+																	pos:   position{line: 1700, col: 5, offset: 55019},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1687, col: 16, offset: 54577},
+																		pos: position{line: 1700, col: 16, offset: 55030},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1687, col: 16, offset: 54577},
+																			pos: position{line: 1700, col: 16, offset: 55030},
 																			expr: &litMatcher{
-																				pos:        position{line: 1687, col: 17, offset: 54578},
+																				pos:        position{line: 1700, col: 17, offset: 55031},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30871,7 +31306,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1690, col: 5, offset: 54635},
+																	pos: position{line: 1703, col: 5, offset: 55088},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30879,24 +31314,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54169},
+													pos:   position{line: 1689, col: 5, offset: 54622},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1698, col: 5, offset: 54884},
+														pos: position{line: 1711, col: 5, offset: 55337},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54950},
+																pos: position{line: 1713, col: 9, offset: 55403},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54950},
+																	pos: position{line: 1713, col: 9, offset: 55403},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1700, col: 9, offset: 54950},
+																			pos: position{line: 1713, col: 9, offset: 55403},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30905,28 +31340,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30935,34 +31370,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1701, col: 9, offset: 54969},
+																			pos: position{line: 1714, col: 9, offset: 55422},
 																			expr: &actionExpr{
-																				pos: position{line: 684, col: 14, offset: 21681},
+																				pos: position{line: 697, col: 14, offset: 22134},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 684, col: 14, offset: 21681},
+																					pos: position{line: 697, col: 14, offset: 22134},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91281},
+																							pos: position{line: 2903, col: 11, offset: 91734},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91283,
+																								line: 2903, col: 13, offset: 91736,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 684, col: 21, offset: 21688},
+																							pos: position{line: 697, col: 21, offset: 22141},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30971,28 +31406,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31001,9 +31436,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -31016,18 +31451,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55098},
+																pos: position{line: 1720, col: 9, offset: 55551},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55098},
+																	pos: position{line: 1720, col: 9, offset: 55551},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 91008},
+																			pos: position{line: 2890, col: 11, offset: 91461},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 91008},
+																				pos: position{line: 2890, col: 11, offset: 91461},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 91008},
+																					pos:        position{line: 2890, col: 11, offset: 91461},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31036,15 +31471,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 9, offset: 55171},
+																			pos:   position{line: 1721, col: 9, offset: 55624},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1708, col: 18, offset: 55180},
+																				pos: position{line: 1721, col: 18, offset: 55633},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1708, col: 18, offset: 55180},
+																					pos: position{line: 1721, col: 18, offset: 55633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1708, col: 18, offset: 55180},
+																						pos:        position{line: 1721, col: 18, offset: 55633},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31054,28 +31489,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31084,9 +31519,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -31104,41 +31539,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1561, col: 5, offset: 50351},
+							pos:   position{line: 1574, col: 5, offset: 50804},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1561, col: 16, offset: 50362},
+								pos: position{line: 1574, col: 16, offset: 50815},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1561, col: 17, offset: 50363},
+									pos:  position{line: 1574, col: 17, offset: 50816},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50385},
+							pos:   position{line: 1575, col: 5, offset: 50838},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1563, col: 9, offset: 50403},
+								pos: position{line: 1576, col: 9, offset: 50856},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 684, col: 14, offset: 21681},
+										pos: position{line: 697, col: 14, offset: 22134},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 684, col: 14, offset: 21681},
+											pos: position{line: 697, col: 14, offset: 22134},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2890, col: 11, offset: 91281},
+													pos: position{line: 2903, col: 11, offset: 91734},
 													expr: &anyMatcher{
-														line: 2890, col: 13, offset: 91283,
+														line: 2903, col: 13, offset: 91736,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 684, col: 21, offset: 21688},
+													pos: position{line: 697, col: 21, offset: 22141},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31147,28 +31582,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31177,9 +31612,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -31188,7 +31623,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1564, col: 11, offset: 50423},
+										pos:  position{line: 1577, col: 11, offset: 50876},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31244,10 +31679,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10951},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31256,28 +31691,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31286,9 +31721,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -31349,10 +31784,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11072},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31361,28 +31796,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31391,9 +31826,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -31402,39 +31837,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 827, col: 5, offset: 26535},
+										pos: position{line: 840, col: 5, offset: 26988},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 827, col: 5, offset: 26535},
+											pos: position{line: 840, col: 5, offset: 26988},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26535},
+													pos:   position{line: 840, col: 5, offset: 26988},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23795},
+														pos: position{line: 760, col: 5, offset: 24248},
 														run: (*parser).callonListContinuationElement293,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23795},
+															pos: position{line: 760, col: 5, offset: 24248},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23795},
+																	pos:   position{line: 760, col: 5, offset: 24248},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23806},
+																		pos: position{line: 760, col: 16, offset: 24259},
 																		run: (*parser).callonListContinuationElement296,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23806},
+																			pos: position{line: 760, col: 16, offset: 24259},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23806},
+																					pos:        position{line: 760, col: 16, offset: 24259},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23813},
+																					pos: position{line: 760, col: 23, offset: 24266},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23813},
+																						pos:        position{line: 760, col: 23, offset: 24266},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31445,12 +31880,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23897},
+																	pos: position{line: 762, col: 8, offset: 24350},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31459,28 +31894,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31489,9 +31924,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -31501,56 +31936,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 828, col: 5, offset: 26574},
+													pos: position{line: 841, col: 5, offset: 27027},
 													run: (*parser).callonListContinuationElement312,
 												},
 												&labeledExpr{
-													pos:   position{line: 831, col: 5, offset: 26666},
+													pos:   position{line: 844, col: 5, offset: 27119},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 846, col: 5, offset: 27058},
+														pos: position{line: 859, col: 5, offset: 27511},
 														expr: &actionExpr{
-															pos: position{line: 846, col: 6, offset: 27059},
+															pos: position{line: 859, col: 6, offset: 27512},
 															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 846, col: 6, offset: 27059},
+																pos: position{line: 859, col: 6, offset: 27512},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 846, col: 6, offset: 27059},
+																		pos: position{line: 859, col: 6, offset: 27512},
 																		expr: &choiceExpr{
-																			pos: position{line: 839, col: 5, offset: 26900},
+																			pos: position{line: 852, col: 5, offset: 27353},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 839, col: 5, offset: 26900},
+																					pos: position{line: 852, col: 5, offset: 27353},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 839, col: 5, offset: 26900},
+																							pos:   position{line: 852, col: 5, offset: 27353},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23795},
+																								pos: position{line: 760, col: 5, offset: 24248},
 																								run: (*parser).callonListContinuationElement321,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23795},
+																									pos: position{line: 760, col: 5, offset: 24248},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23795},
+																											pos:   position{line: 760, col: 5, offset: 24248},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23806},
+																												pos: position{line: 760, col: 16, offset: 24259},
 																												run: (*parser).callonListContinuationElement324,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23806},
+																													pos: position{line: 760, col: 16, offset: 24259},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23806},
+																															pos:        position{line: 760, col: 16, offset: 24259},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23813},
+																															pos: position{line: 760, col: 23, offset: 24266},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23813},
+																																pos:        position{line: 760, col: 23, offset: 24266},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31561,12 +31996,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23897},
+																											pos: position{line: 762, col: 8, offset: 24350},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31575,28 +32010,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31605,9 +32040,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -31617,45 +32052,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 840, col: 5, offset: 26931},
+																							pos: position{line: 853, col: 5, offset: 27384},
 																							run: (*parser).callonListContinuationElement340,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 847, col: 5, offset: 27089},
+																		pos:   position{line: 860, col: 5, offset: 27542},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31665,28 +32100,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31695,9 +32130,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -31712,41 +32147,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 832, col: 5, offset: 26700},
+													pos: position{line: 845, col: 5, offset: 27153},
 													expr: &choiceExpr{
-														pos: position{line: 839, col: 5, offset: 26900},
+														pos: position{line: 852, col: 5, offset: 27353},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 839, col: 5, offset: 26900},
+																pos: position{line: 852, col: 5, offset: 27353},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 839, col: 5, offset: 26900},
+																		pos:   position{line: 852, col: 5, offset: 27353},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23795},
+																			pos: position{line: 760, col: 5, offset: 24248},
 																			run: (*parser).callonListContinuationElement364,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23795},
+																				pos: position{line: 760, col: 5, offset: 24248},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23795},
+																						pos:   position{line: 760, col: 5, offset: 24248},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23806},
+																							pos: position{line: 760, col: 16, offset: 24259},
 																							run: (*parser).callonListContinuationElement367,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23806},
+																								pos: position{line: 760, col: 16, offset: 24259},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23806},
+																										pos:        position{line: 760, col: 16, offset: 24259},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23813},
+																										pos: position{line: 760, col: 23, offset: 24266},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23813},
+																											pos:        position{line: 760, col: 23, offset: 24266},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -31757,12 +32192,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23897},
+																						pos: position{line: 762, col: 8, offset: 24350},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -31771,28 +32206,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31801,9 +32236,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -31813,15 +32248,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 840, col: 5, offset: 26931},
+																		pos: position{line: 853, col: 5, offset: 27384},
 																		run: (*parser).callonListContinuationElement383,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -31831,39 +32266,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 855, col: 5, offset: 27242},
+										pos: position{line: 868, col: 5, offset: 27695},
 										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 855, col: 5, offset: 27242},
+											pos: position{line: 868, col: 5, offset: 27695},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 855, col: 5, offset: 27242},
+													pos:   position{line: 868, col: 5, offset: 27695},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24043},
+														pos: position{line: 767, col: 5, offset: 24496},
 														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24043},
+															pos: position{line: 767, col: 5, offset: 24496},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24043},
+																	pos:   position{line: 767, col: 5, offset: 24496},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24054},
+																		pos: position{line: 767, col: 16, offset: 24507},
 																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24054},
+																			pos: position{line: 767, col: 16, offset: 24507},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24054},
+																					pos:        position{line: 767, col: 16, offset: 24507},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 23, offset: 24061},
+																					pos: position{line: 767, col: 23, offset: 24514},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 23, offset: 24061},
+																						pos:        position{line: 767, col: 23, offset: 24514},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31874,12 +32309,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24145},
+																	pos: position{line: 769, col: 8, offset: 24598},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31888,28 +32323,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31918,9 +32353,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -31930,56 +32365,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 856, col: 5, offset: 27281},
+													pos: position{line: 869, col: 5, offset: 27734},
 													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 859, col: 5, offset: 27373},
+													pos:   position{line: 872, col: 5, offset: 27826},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 874, col: 4, offset: 27770},
+														pos: position{line: 887, col: 4, offset: 28223},
 														expr: &actionExpr{
-															pos: position{line: 874, col: 5, offset: 27771},
+															pos: position{line: 887, col: 5, offset: 28224},
 															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 874, col: 5, offset: 27771},
+																pos: position{line: 887, col: 5, offset: 28224},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 874, col: 5, offset: 27771},
+																		pos: position{line: 887, col: 5, offset: 28224},
 																		expr: &choiceExpr{
-																			pos: position{line: 867, col: 5, offset: 27613},
+																			pos: position{line: 880, col: 5, offset: 28066},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 867, col: 5, offset: 27613},
+																					pos: position{line: 880, col: 5, offset: 28066},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 867, col: 5, offset: 27613},
+																							pos:   position{line: 880, col: 5, offset: 28066},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24043},
+																								pos: position{line: 767, col: 5, offset: 24496},
 																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24043},
+																									pos: position{line: 767, col: 5, offset: 24496},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24043},
+																											pos:   position{line: 767, col: 5, offset: 24496},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24054},
+																												pos: position{line: 767, col: 16, offset: 24507},
 																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24054},
+																													pos: position{line: 767, col: 16, offset: 24507},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24054},
+																															pos:        position{line: 767, col: 16, offset: 24507},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 23, offset: 24061},
+																															pos: position{line: 767, col: 23, offset: 24514},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 23, offset: 24061},
+																																pos:        position{line: 767, col: 23, offset: 24514},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31990,12 +32425,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24145},
+																											pos: position{line: 769, col: 8, offset: 24598},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32004,28 +32439,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32034,9 +32469,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -32046,45 +32481,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 868, col: 5, offset: 27644},
+																							pos: position{line: 881, col: 5, offset: 28097},
 																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 875, col: 5, offset: 27801},
+																		pos:   position{line: 888, col: 5, offset: 28254},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32094,28 +32529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32124,9 +32559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -32141,44 +32576,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 860, col: 5, offset: 27407},
+													pos:   position{line: 873, col: 5, offset: 27860},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 860, col: 9, offset: 27411},
+														pos: position{line: 873, col: 9, offset: 27864},
 														expr: &choiceExpr{
-															pos: position{line: 867, col: 5, offset: 27613},
+															pos: position{line: 880, col: 5, offset: 28066},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 867, col: 5, offset: 27613},
+																	pos: position{line: 880, col: 5, offset: 28066},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 867, col: 5, offset: 27613},
+																			pos:   position{line: 880, col: 5, offset: 28066},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24043},
+																				pos: position{line: 767, col: 5, offset: 24496},
 																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24043},
+																					pos: position{line: 767, col: 5, offset: 24496},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24043},
+																							pos:   position{line: 767, col: 5, offset: 24496},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24054},
+																								pos: position{line: 767, col: 16, offset: 24507},
 																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24054},
+																									pos: position{line: 767, col: 16, offset: 24507},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24054},
+																											pos:        position{line: 767, col: 16, offset: 24507},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 23, offset: 24061},
+																											pos: position{line: 767, col: 23, offset: 24514},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 23, offset: 24061},
+																												pos:        position{line: 767, col: 23, offset: 24514},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32189,12 +32624,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24145},
+																							pos: position{line: 769, col: 8, offset: 24598},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32203,28 +32638,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32233,9 +32668,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -32245,15 +32680,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 868, col: 5, offset: 27644},
+																			pos: position{line: 881, col: 5, offset: 28097},
 																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -32264,36 +32699,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 967, col: 5, offset: 30093},
+										pos: position{line: 980, col: 5, offset: 30546},
 										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 967, col: 5, offset: 30093},
+											pos: position{line: 980, col: 5, offset: 30546},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 967, col: 5, offset: 30093},
+													pos:   position{line: 980, col: 5, offset: 30546},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 767, col: 26, offset: 24531},
+														pos: position{line: 780, col: 26, offset: 24984},
 														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
-															pos: position{line: 767, col: 26, offset: 24531},
+															pos: position{line: 780, col: 26, offset: 24984},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 767, col: 26, offset: 24531},
+																	pos:        position{line: 780, col: 26, offset: 24984},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 767, col: 32, offset: 24537},
+																	pos:   position{line: 780, col: 32, offset: 24990},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 771, col: 13, offset: 24667},
+																		pos: position{line: 784, col: 13, offset: 25120},
 																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 771, col: 14, offset: 24668},
+																			pos: position{line: 784, col: 14, offset: 25121},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 771, col: 14, offset: 24668},
+																				pos:        position{line: 784, col: 14, offset: 25121},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32303,12 +32738,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 767, col: 52, offset: 24557},
+																	pos: position{line: 780, col: 52, offset: 25010},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32317,28 +32752,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32347,9 +32782,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -32359,34 +32794,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 968, col: 5, offset: 30139},
+													pos:   position{line: 981, col: 5, offset: 30592},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 981, col: 5, offset: 30612},
+														pos: position{line: 994, col: 5, offset: 31065},
 														expr: &actionExpr{
-															pos: position{line: 981, col: 6, offset: 30613},
+															pos: position{line: 994, col: 6, offset: 31066},
 															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 981, col: 6, offset: 30613},
+																pos: position{line: 994, col: 6, offset: 31066},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 981, col: 6, offset: 30613},
+																		pos: position{line: 994, col: 6, offset: 31066},
 																		expr: &seqExpr{
-																			pos: position{line: 978, col: 34, offset: 30560},
+																			pos: position{line: 991, col: 34, offset: 31013},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 978, col: 34, offset: 30560},
+																					pos:        position{line: 991, col: 34, offset: 31013},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 978, col: 40, offset: 30566},
+																					pos: position{line: 991, col: 40, offset: 31019},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32395,28 +32830,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32425,9 +32860,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -32436,30 +32871,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 982, col: 5, offset: 30648},
+																		pos:   position{line: 995, col: 5, offset: 31101},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32469,28 +32904,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32499,9 +32934,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -32516,23 +32951,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 969, col: 5, offset: 30178},
+													pos: position{line: 982, col: 5, offset: 30631},
 													expr: &seqExpr{
-														pos: position{line: 978, col: 34, offset: 30560},
+														pos: position{line: 991, col: 34, offset: 31013},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 978, col: 34, offset: 30560},
+																pos:        position{line: 991, col: 34, offset: 31013},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 978, col: 40, offset: 30566},
+																pos: position{line: 991, col: 40, offset: 31019},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32541,28 +32976,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32571,9 +33006,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -32585,39 +33020,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 883, col: 5, offset: 27954},
+										pos: position{line: 896, col: 5, offset: 28407},
 										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 883, col: 5, offset: 27954},
+											pos: position{line: 896, col: 5, offset: 28407},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 883, col: 5, offset: 27954},
+													pos:   position{line: 896, col: 5, offset: 28407},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 761, col: 5, offset: 24290},
+														pos: position{line: 774, col: 5, offset: 24743},
 														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
-															pos: position{line: 761, col: 5, offset: 24290},
+															pos: position{line: 774, col: 5, offset: 24743},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 761, col: 5, offset: 24290},
+																	pos:   position{line: 774, col: 5, offset: 24743},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 761, col: 16, offset: 24301},
+																		pos: position{line: 774, col: 16, offset: 24754},
 																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
-																			pos: position{line: 761, col: 16, offset: 24301},
+																			pos: position{line: 774, col: 16, offset: 24754},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 761, col: 16, offset: 24301},
+																					pos:        position{line: 774, col: 16, offset: 24754},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 761, col: 22, offset: 24307},
+																					pos: position{line: 774, col: 22, offset: 24760},
 																					expr: &litMatcher{
-																						pos:        position{line: 761, col: 22, offset: 24307},
+																						pos:        position{line: 774, col: 22, offset: 24760},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32628,12 +33063,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 763, col: 8, offset: 24391},
+																	pos: position{line: 776, col: 8, offset: 24844},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32642,28 +33077,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32672,9 +33107,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -32684,56 +33119,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 884, col: 5, offset: 27992},
+													pos: position{line: 897, col: 5, offset: 28445},
 													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 887, col: 5, offset: 28084},
+													pos:   position{line: 900, col: 5, offset: 28537},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 902, col: 5, offset: 28474},
+														pos: position{line: 915, col: 5, offset: 28927},
 														expr: &actionExpr{
-															pos: position{line: 902, col: 6, offset: 28475},
+															pos: position{line: 915, col: 6, offset: 28928},
 															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 902, col: 6, offset: 28475},
+																pos: position{line: 915, col: 6, offset: 28928},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 902, col: 6, offset: 28475},
+																		pos: position{line: 915, col: 6, offset: 28928},
 																		expr: &choiceExpr{
-																			pos: position{line: 895, col: 5, offset: 28318},
+																			pos: position{line: 908, col: 5, offset: 28771},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 895, col: 5, offset: 28318},
+																					pos: position{line: 908, col: 5, offset: 28771},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 895, col: 5, offset: 28318},
+																							pos:   position{line: 908, col: 5, offset: 28771},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 761, col: 5, offset: 24290},
+																								pos: position{line: 774, col: 5, offset: 24743},
 																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 5, offset: 24290},
+																									pos: position{line: 774, col: 5, offset: 24743},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 761, col: 5, offset: 24290},
+																											pos:   position{line: 774, col: 5, offset: 24743},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 761, col: 16, offset: 24301},
+																												pos: position{line: 774, col: 16, offset: 24754},
 																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
-																													pos: position{line: 761, col: 16, offset: 24301},
+																													pos: position{line: 774, col: 16, offset: 24754},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 761, col: 16, offset: 24301},
+																															pos:        position{line: 774, col: 16, offset: 24754},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 761, col: 22, offset: 24307},
+																															pos: position{line: 774, col: 22, offset: 24760},
 																															expr: &litMatcher{
-																																pos:        position{line: 761, col: 22, offset: 24307},
+																																pos:        position{line: 774, col: 22, offset: 24760},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32744,12 +33179,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 8, offset: 24391},
+																											pos: position{line: 776, col: 8, offset: 24844},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32758,28 +33193,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32788,9 +33223,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -32800,45 +33235,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 896, col: 5, offset: 28348},
+																							pos: position{line: 909, col: 5, offset: 28801},
 																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 903, col: 5, offset: 28504},
+																		pos:   position{line: 916, col: 5, offset: 28957},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32848,28 +33283,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32878,9 +33313,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -32895,44 +33330,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 888, col: 5, offset: 28117},
+													pos:   position{line: 901, col: 5, offset: 28570},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 888, col: 9, offset: 28121},
+														pos: position{line: 901, col: 9, offset: 28574},
 														expr: &choiceExpr{
-															pos: position{line: 895, col: 5, offset: 28318},
+															pos: position{line: 908, col: 5, offset: 28771},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 895, col: 5, offset: 28318},
+																	pos: position{line: 908, col: 5, offset: 28771},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 895, col: 5, offset: 28318},
+																			pos:   position{line: 908, col: 5, offset: 28771},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 761, col: 5, offset: 24290},
+																				pos: position{line: 774, col: 5, offset: 24743},
 																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 5, offset: 24290},
+																					pos: position{line: 774, col: 5, offset: 24743},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 761, col: 5, offset: 24290},
+																							pos:   position{line: 774, col: 5, offset: 24743},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 761, col: 16, offset: 24301},
+																								pos: position{line: 774, col: 16, offset: 24754},
 																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 16, offset: 24301},
+																									pos: position{line: 774, col: 16, offset: 24754},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 761, col: 16, offset: 24301},
+																											pos:        position{line: 774, col: 16, offset: 24754},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 761, col: 22, offset: 24307},
+																											pos: position{line: 774, col: 22, offset: 24760},
 																											expr: &litMatcher{
-																												pos:        position{line: 761, col: 22, offset: 24307},
+																												pos:        position{line: 774, col: 22, offset: 24760},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32943,12 +33378,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 8, offset: 24391},
+																							pos: position{line: 776, col: 8, offset: 24844},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32957,28 +33392,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32987,9 +33422,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -32999,15 +33434,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 896, col: 5, offset: 28348},
+																			pos: position{line: 909, col: 5, offset: 28801},
 																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -33018,39 +33453,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 911, col: 5, offset: 28659},
+										pos: position{line: 924, col: 5, offset: 29112},
 										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 911, col: 5, offset: 28659},
+											pos: position{line: 924, col: 5, offset: 29112},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 911, col: 5, offset: 28659},
+													pos:   position{line: 924, col: 5, offset: 29112},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24827},
+														pos: position{line: 789, col: 5, offset: 25280},
 														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24827},
+															pos: position{line: 789, col: 5, offset: 25280},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24827},
+																	pos:   position{line: 789, col: 5, offset: 25280},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24838},
+																		pos: position{line: 789, col: 16, offset: 25291},
 																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 16, offset: 24838},
+																			pos: position{line: 789, col: 16, offset: 25291},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 776, col: 16, offset: 24838},
+																					pos:        position{line: 789, col: 16, offset: 25291},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 776, col: 23, offset: 24845},
+																					pos: position{line: 789, col: 23, offset: 25298},
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 23, offset: 24845},
+																						pos:        position{line: 789, col: 23, offset: 25298},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33061,12 +33496,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24929},
+																	pos: position{line: 791, col: 8, offset: 25382},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33075,28 +33510,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33105,9 +33540,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -33117,56 +33552,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 912, col: 5, offset: 28698},
+													pos: position{line: 925, col: 5, offset: 29151},
 													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 915, col: 5, offset: 28790},
+													pos:   position{line: 928, col: 5, offset: 29243},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 930, col: 5, offset: 29188},
+														pos: position{line: 943, col: 5, offset: 29641},
 														expr: &actionExpr{
-															pos: position{line: 930, col: 6, offset: 29189},
+															pos: position{line: 943, col: 6, offset: 29642},
 															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 930, col: 6, offset: 29189},
+																pos: position{line: 943, col: 6, offset: 29642},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 930, col: 6, offset: 29189},
+																		pos: position{line: 943, col: 6, offset: 29642},
 																		expr: &choiceExpr{
-																			pos: position{line: 923, col: 5, offset: 29030},
+																			pos: position{line: 936, col: 5, offset: 29483},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 923, col: 5, offset: 29030},
+																					pos: position{line: 936, col: 5, offset: 29483},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 923, col: 5, offset: 29030},
+																							pos:   position{line: 936, col: 5, offset: 29483},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 776, col: 5, offset: 24827},
+																								pos: position{line: 789, col: 5, offset: 25280},
 																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
-																									pos: position{line: 776, col: 5, offset: 24827},
+																									pos: position{line: 789, col: 5, offset: 25280},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 776, col: 5, offset: 24827},
+																											pos:   position{line: 789, col: 5, offset: 25280},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 776, col: 16, offset: 24838},
+																												pos: position{line: 789, col: 16, offset: 25291},
 																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
-																													pos: position{line: 776, col: 16, offset: 24838},
+																													pos: position{line: 789, col: 16, offset: 25291},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 776, col: 16, offset: 24838},
+																															pos:        position{line: 789, col: 16, offset: 25291},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 776, col: 23, offset: 24845},
+																															pos: position{line: 789, col: 23, offset: 25298},
 																															expr: &litMatcher{
-																																pos:        position{line: 776, col: 23, offset: 24845},
+																																pos:        position{line: 789, col: 23, offset: 25298},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33177,12 +33612,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 778, col: 8, offset: 24929},
+																											pos: position{line: 791, col: 8, offset: 25382},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33191,28 +33626,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33221,9 +33656,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -33233,45 +33668,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 924, col: 5, offset: 29061},
+																							pos: position{line: 937, col: 5, offset: 29514},
 																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 931, col: 5, offset: 29219},
+																		pos:   position{line: 944, col: 5, offset: 29672},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33281,28 +33716,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33311,9 +33746,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -33328,44 +33763,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 916, col: 5, offset: 28824},
+													pos:   position{line: 929, col: 5, offset: 29277},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 916, col: 9, offset: 28828},
+														pos: position{line: 929, col: 9, offset: 29281},
 														expr: &choiceExpr{
-															pos: position{line: 923, col: 5, offset: 29030},
+															pos: position{line: 936, col: 5, offset: 29483},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 923, col: 5, offset: 29030},
+																	pos: position{line: 936, col: 5, offset: 29483},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 923, col: 5, offset: 29030},
+																			pos:   position{line: 936, col: 5, offset: 29483},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 776, col: 5, offset: 24827},
+																				pos: position{line: 789, col: 5, offset: 25280},
 																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
-																					pos: position{line: 776, col: 5, offset: 24827},
+																					pos: position{line: 789, col: 5, offset: 25280},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 776, col: 5, offset: 24827},
+																							pos:   position{line: 789, col: 5, offset: 25280},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 776, col: 16, offset: 24838},
+																								pos: position{line: 789, col: 16, offset: 25291},
 																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
-																									pos: position{line: 776, col: 16, offset: 24838},
+																									pos: position{line: 789, col: 16, offset: 25291},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24838},
+																											pos:        position{line: 789, col: 16, offset: 25291},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 776, col: 23, offset: 24845},
+																											pos: position{line: 789, col: 23, offset: 25298},
 																											expr: &litMatcher{
-																												pos:        position{line: 776, col: 23, offset: 24845},
+																												pos:        position{line: 789, col: 23, offset: 25298},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33376,12 +33811,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 778, col: 8, offset: 24929},
+																							pos: position{line: 791, col: 8, offset: 25382},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33390,28 +33825,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33420,9 +33855,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -33432,15 +33867,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 924, col: 5, offset: 29061},
+																			pos: position{line: 937, col: 5, offset: 29514},
 																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -33451,39 +33886,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 939, col: 5, offset: 29374},
+										pos: position{line: 952, col: 5, offset: 29827},
 										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 939, col: 5, offset: 29374},
+											pos: position{line: 952, col: 5, offset: 29827},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 939, col: 5, offset: 29374},
+													pos:   position{line: 952, col: 5, offset: 29827},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25303},
+														pos: position{line: 803, col: 5, offset: 25756},
 														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25303},
+															pos: position{line: 803, col: 5, offset: 25756},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25303},
+																	pos:   position{line: 803, col: 5, offset: 25756},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25314},
+																		pos: position{line: 803, col: 16, offset: 25767},
 																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25314},
+																			pos: position{line: 803, col: 16, offset: 25767},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25314},
+																					pos:        position{line: 803, col: 16, offset: 25767},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25321},
+																					pos: position{line: 803, col: 23, offset: 25774},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25321},
+																						pos:        position{line: 803, col: 23, offset: 25774},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33494,12 +33929,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25405},
+																	pos: position{line: 805, col: 8, offset: 25858},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33508,28 +33943,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33538,9 +33973,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -33550,56 +33985,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 940, col: 5, offset: 29413},
+													pos: position{line: 953, col: 5, offset: 29866},
 													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 943, col: 5, offset: 29505},
+													pos:   position{line: 956, col: 5, offset: 29958},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 958, col: 5, offset: 29903},
+														pos: position{line: 971, col: 5, offset: 30356},
 														expr: &actionExpr{
-															pos: position{line: 958, col: 6, offset: 29904},
+															pos: position{line: 971, col: 6, offset: 30357},
 															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 958, col: 6, offset: 29904},
+																pos: position{line: 971, col: 6, offset: 30357},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 958, col: 6, offset: 29904},
+																		pos: position{line: 971, col: 6, offset: 30357},
 																		expr: &choiceExpr{
-																			pos: position{line: 951, col: 5, offset: 29745},
+																			pos: position{line: 964, col: 5, offset: 30198},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 951, col: 5, offset: 29745},
+																					pos: position{line: 964, col: 5, offset: 30198},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 951, col: 5, offset: 29745},
+																							pos:   position{line: 964, col: 5, offset: 30198},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25303},
+																								pos: position{line: 803, col: 5, offset: 25756},
 																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25303},
+																									pos: position{line: 803, col: 5, offset: 25756},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25303},
+																											pos:   position{line: 803, col: 5, offset: 25756},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25314},
+																												pos: position{line: 803, col: 16, offset: 25767},
 																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25314},
+																													pos: position{line: 803, col: 16, offset: 25767},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25314},
+																															pos:        position{line: 803, col: 16, offset: 25767},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25321},
+																															pos: position{line: 803, col: 23, offset: 25774},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25321},
+																																pos:        position{line: 803, col: 23, offset: 25774},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33610,12 +34045,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25405},
+																											pos: position{line: 805, col: 8, offset: 25858},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33624,28 +34059,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33654,9 +34089,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -33666,45 +34101,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 952, col: 5, offset: 29776},
+																							pos: position{line: 965, col: 5, offset: 30229},
 																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 959, col: 5, offset: 29934},
+																		pos:   position{line: 972, col: 5, offset: 30387},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33714,28 +34149,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33744,9 +34179,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -33761,44 +34196,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 944, col: 5, offset: 29539},
+													pos:   position{line: 957, col: 5, offset: 29992},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 944, col: 9, offset: 29543},
+														pos: position{line: 957, col: 9, offset: 29996},
 														expr: &choiceExpr{
-															pos: position{line: 951, col: 5, offset: 29745},
+															pos: position{line: 964, col: 5, offset: 30198},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 951, col: 5, offset: 29745},
+																	pos: position{line: 964, col: 5, offset: 30198},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 951, col: 5, offset: 29745},
+																			pos:   position{line: 964, col: 5, offset: 30198},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25303},
+																				pos: position{line: 803, col: 5, offset: 25756},
 																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25303},
+																					pos: position{line: 803, col: 5, offset: 25756},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25303},
+																							pos:   position{line: 803, col: 5, offset: 25756},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25314},
+																								pos: position{line: 803, col: 16, offset: 25767},
 																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25314},
+																									pos: position{line: 803, col: 16, offset: 25767},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25314},
+																											pos:        position{line: 803, col: 16, offset: 25767},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25321},
+																											pos: position{line: 803, col: 23, offset: 25774},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25321},
+																												pos:        position{line: 803, col: 23, offset: 25774},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33809,12 +34244,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25405},
+																							pos: position{line: 805, col: 8, offset: 25858},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33823,28 +34258,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33853,9 +34288,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -33865,15 +34300,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 952, col: 5, offset: 29776},
+																			pos: position{line: 965, col: 5, offset: 30229},
 																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -33884,41 +34319,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 990, col: 5, offset: 30817},
+										pos: position{line: 1003, col: 5, offset: 31270},
 										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 990, col: 5, offset: 30817},
+											pos: position{line: 1003, col: 5, offset: 31270},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 990, col: 5, offset: 30817},
+													pos:   position{line: 1003, col: 5, offset: 31270},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 997, col: 5, offset: 31076},
+														pos: position{line: 1010, col: 5, offset: 31529},
 														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 997, col: 5, offset: 31076},
+															pos: position{line: 1010, col: 5, offset: 31529},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 997, col: 5, offset: 31076},
+																	pos: position{line: 1010, col: 5, offset: 31529},
 																	expr: &actionExpr{
-																		pos: position{line: 684, col: 14, offset: 21681},
+																		pos: position{line: 697, col: 14, offset: 22134},
 																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
-																			pos: position{line: 684, col: 14, offset: 21681},
+																			pos: position{line: 697, col: 14, offset: 22134},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91281},
+																					pos: position{line: 2903, col: 11, offset: 91734},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91283,
+																						line: 2903, col: 13, offset: 91736,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 684, col: 21, offset: 21688},
+																					pos: position{line: 697, col: 21, offset: 22141},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33927,28 +34362,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33957,9 +34392,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -33969,21 +34404,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 998, col: 5, offset: 31091},
+																	pos:        position{line: 1011, col: 5, offset: 31544},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 999, col: 5, offset: 31101},
+																	pos:   position{line: 1012, col: 5, offset: 31554},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89540},
+																		pos: position{line: 2836, col: 14, offset: 89993},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89540},
+																			pos: position{line: 2836, col: 14, offset: 89993},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89540},
+																				pos:        position{line: 2836, col: 14, offset: 89993},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33993,28 +34428,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34023,9 +34458,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -34035,40 +34470,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 991, col: 5, offset: 30854},
+													pos:   position{line: 1004, col: 5, offset: 31307},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 991, col: 16, offset: 30865},
+														pos: position{line: 1004, col: 16, offset: 31318},
 														expr: &choiceExpr{
-															pos: position{line: 991, col: 17, offset: 30866},
+															pos: position{line: 1004, col: 17, offset: 31319},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 997, col: 5, offset: 31076},
+																	pos: position{line: 1010, col: 5, offset: 31529},
 																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 997, col: 5, offset: 31076},
+																		pos: position{line: 1010, col: 5, offset: 31529},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 997, col: 5, offset: 31076},
+																				pos: position{line: 1010, col: 5, offset: 31529},
 																				expr: &actionExpr{
-																					pos: position{line: 684, col: 14, offset: 21681},
+																					pos: position{line: 697, col: 14, offset: 22134},
 																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
-																						pos: position{line: 684, col: 14, offset: 21681},
+																						pos: position{line: 697, col: 14, offset: 22134},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2890, col: 11, offset: 91281},
+																								pos: position{line: 2903, col: 11, offset: 91734},
 																								expr: &anyMatcher{
-																									line: 2890, col: 13, offset: 91283,
+																									line: 2903, col: 13, offset: 91736,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 684, col: 21, offset: 21688},
+																								pos: position{line: 697, col: 21, offset: 22141},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34077,28 +34512,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34107,9 +34542,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -34119,21 +34554,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 998, col: 5, offset: 31091},
+																				pos:        position{line: 1011, col: 5, offset: 31544},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 999, col: 5, offset: 31101},
+																				pos:   position{line: 1012, col: 5, offset: 31554},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89540},
+																					pos: position{line: 2836, col: 14, offset: 89993},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89540},
+																						pos: position{line: 2836, col: 14, offset: 89993},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89540},
+																							pos:        position{line: 2836, col: 14, offset: 89993},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34143,28 +34578,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91345},
+																				pos: position{line: 2908, col: 8, offset: 91798},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91118},
+																						pos: position{line: 2895, col: 12, offset: 91571},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91119},
+																							pos: position{line: 2895, col: 13, offset: 91572},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91119},
+																									pos:        position{line: 2895, col: 13, offset: 91572},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91126},
+																									pos:        position{line: 2895, col: 20, offset: 91579},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91135},
+																									pos:        position{line: 2895, col: 29, offset: 91588},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34173,9 +34608,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
@@ -34184,21 +34619,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1805, col: 5, offset: 58302},
+																	pos: position{line: 1818, col: 5, offset: 58755},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1805, col: 5, offset: 58302},
+																		pos: position{line: 1818, col: 5, offset: 58755},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1805, col: 5, offset: 58302},
+																				pos:   position{line: 1818, col: 5, offset: 58755},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89540},
+																					pos: position{line: 2836, col: 14, offset: 89993},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89540},
+																						pos: position{line: 2836, col: 14, offset: 89993},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89540},
+																							pos:        position{line: 2836, col: 14, offset: 89993},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34208,32 +34643,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1806, col: 5, offset: 58326},
+																				pos: position{line: 1819, col: 5, offset: 58779},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91345},
+																				pos: position{line: 2908, col: 8, offset: 91798},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91118},
+																						pos: position{line: 2895, col: 12, offset: 91571},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91119},
+																							pos: position{line: 2895, col: 13, offset: 91572},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91119},
+																									pos:        position{line: 2895, col: 13, offset: 91572},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91126},
+																									pos:        position{line: 2895, col: 20, offset: 91579},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91135},
+																									pos:        position{line: 2895, col: 29, offset: 91588},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34242,9 +34677,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
@@ -34260,28 +34695,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1012, col: 5, offset: 31366},
+										pos: position{line: 1025, col: 5, offset: 31819},
 										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 1012, col: 5, offset: 31366},
+											pos: position{line: 1025, col: 5, offset: 31819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1012, col: 5, offset: 31366},
+													pos:   position{line: 1025, col: 5, offset: 31819},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25072},
+														pos: position{line: 796, col: 5, offset: 25525},
 														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25072},
+															pos: position{line: 796, col: 5, offset: 25525},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25072},
+																	pos:   position{line: 796, col: 5, offset: 25525},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25083},
+																		pos: position{line: 796, col: 16, offset: 25536},
 																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
-																			pos:        position{line: 783, col: 16, offset: 25083},
+																			pos:        position{line: 796, col: 16, offset: 25536},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34289,12 +34724,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25160},
+																	pos: position{line: 798, col: 8, offset: 25613},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34303,28 +34738,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34333,9 +34768,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -34345,35 +34780,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1013, col: 5, offset: 31402},
+													pos:   position{line: 1026, col: 5, offset: 31855},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1023, col: 5, offset: 31670},
+														pos: position{line: 1036, col: 5, offset: 32123},
 														expr: &actionExpr{
-															pos: position{line: 1023, col: 6, offset: 31671},
+															pos: position{line: 1036, col: 6, offset: 32124},
 															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1023, col: 6, offset: 31671},
+																pos: position{line: 1036, col: 6, offset: 32124},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1023, col: 6, offset: 31671},
+																		pos: position{line: 1036, col: 6, offset: 32124},
 																		expr: &choiceExpr{
-																			pos: position{line: 1020, col: 26, offset: 31619},
+																			pos: position{line: 1033, col: 26, offset: 32072},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25072},
+																					pos: position{line: 796, col: 5, offset: 25525},
 																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25072},
+																						pos: position{line: 796, col: 5, offset: 25525},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25072},
+																								pos:   position{line: 796, col: 5, offset: 25525},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25083},
+																									pos: position{line: 796, col: 16, offset: 25536},
 																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25083},
+																										pos:        position{line: 796, col: 16, offset: 25536},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34381,12 +34816,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25160},
+																								pos: position{line: 798, col: 8, offset: 25613},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34395,28 +34830,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34425,9 +34860,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -34436,39 +34871,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1024, col: 5, offset: 31698},
+																		pos:   position{line: 1037, col: 5, offset: 32151},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34478,28 +34913,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34508,9 +34943,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -34525,27 +34960,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1014, col: 5, offset: 31433},
+													pos:   position{line: 1027, col: 5, offset: 31886},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1014, col: 9, offset: 31437},
+														pos: position{line: 1027, col: 9, offset: 31890},
 														expr: &choiceExpr{
-															pos: position{line: 1020, col: 26, offset: 31619},
+															pos: position{line: 1033, col: 26, offset: 32072},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 783, col: 5, offset: 25072},
+																	pos: position{line: 796, col: 5, offset: 25525},
 																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
-																		pos: position{line: 783, col: 5, offset: 25072},
+																		pos: position{line: 796, col: 5, offset: 25525},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 783, col: 5, offset: 25072},
+																				pos:   position{line: 796, col: 5, offset: 25525},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 16, offset: 25083},
+																					pos: position{line: 796, col: 16, offset: 25536},
 																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25083},
+																						pos:        position{line: 796, col: 16, offset: 25536},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34553,12 +34988,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 785, col: 8, offset: 25160},
+																				pos: position{line: 798, col: 8, offset: 25613},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90947},
+																					pos: position{line: 2886, col: 10, offset: 91400},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90947},
+																						pos:        position{line: 2886, col: 10, offset: 91400},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34567,28 +35002,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91345},
+																				pos: position{line: 2908, col: 8, offset: 91798},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91118},
+																						pos: position{line: 2895, col: 12, offset: 91571},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91119},
+																							pos: position{line: 2895, col: 13, offset: 91572},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91119},
+																									pos:        position{line: 2895, col: 13, offset: 91572},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91126},
+																									pos:        position{line: 2895, col: 20, offset: 91579},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91135},
+																									pos:        position{line: 2895, col: 29, offset: 91588},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34597,9 +35032,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
@@ -34608,9 +35043,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -34621,39 +35056,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1032, col: 5, offset: 31861},
+										pos: position{line: 1045, col: 5, offset: 32314},
 										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1032, col: 5, offset: 31861},
+											pos: position{line: 1045, col: 5, offset: 32314},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1032, col: 5, offset: 31861},
+													pos:   position{line: 1045, col: 5, offset: 32314},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25555},
+														pos: position{line: 810, col: 5, offset: 26008},
 														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25555},
+															pos: position{line: 810, col: 5, offset: 26008},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25555},
+																	pos:   position{line: 810, col: 5, offset: 26008},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25566},
+																		pos: position{line: 810, col: 16, offset: 26019},
 																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25566},
+																			pos: position{line: 810, col: 16, offset: 26019},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25566},
+																					pos:        position{line: 810, col: 16, offset: 26019},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25573},
+																					pos: position{line: 810, col: 23, offset: 26026},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25573},
+																						pos:        position{line: 810, col: 23, offset: 26026},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34664,12 +35099,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25657},
+																	pos: position{line: 812, col: 8, offset: 26110},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34678,28 +35113,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34708,9 +35143,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -34720,56 +35155,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1033, col: 5, offset: 31904},
+													pos: position{line: 1046, col: 5, offset: 32357},
 													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1036, col: 5, offset: 31996},
+													pos:   position{line: 1049, col: 5, offset: 32449},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1051, col: 5, offset: 32426},
+														pos: position{line: 1064, col: 5, offset: 32879},
 														expr: &actionExpr{
-															pos: position{line: 1051, col: 6, offset: 32427},
+															pos: position{line: 1064, col: 6, offset: 32880},
 															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1051, col: 6, offset: 32427},
+																pos: position{line: 1064, col: 6, offset: 32880},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1051, col: 6, offset: 32427},
+																		pos: position{line: 1064, col: 6, offset: 32880},
 																		expr: &choiceExpr{
-																			pos: position{line: 1044, col: 5, offset: 32260},
+																			pos: position{line: 1057, col: 5, offset: 32713},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1044, col: 5, offset: 32260},
+																					pos: position{line: 1057, col: 5, offset: 32713},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1044, col: 5, offset: 32260},
+																							pos:   position{line: 1057, col: 5, offset: 32713},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25555},
+																								pos: position{line: 810, col: 5, offset: 26008},
 																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25555},
+																									pos: position{line: 810, col: 5, offset: 26008},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25555},
+																											pos:   position{line: 810, col: 5, offset: 26008},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25566},
+																												pos: position{line: 810, col: 16, offset: 26019},
 																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25566},
+																													pos: position{line: 810, col: 16, offset: 26019},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25566},
+																															pos:        position{line: 810, col: 16, offset: 26019},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25573},
+																															pos: position{line: 810, col: 23, offset: 26026},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25573},
+																																pos:        position{line: 810, col: 23, offset: 26026},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34780,12 +35215,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25657},
+																											pos: position{line: 812, col: 8, offset: 26110},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34794,28 +35229,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34824,9 +35259,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -34836,45 +35271,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1045, col: 5, offset: 32295},
+																							pos: position{line: 1058, col: 5, offset: 32748},
 																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1052, col: 5, offset: 32461},
+																		pos:   position{line: 1065, col: 5, offset: 32914},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34884,28 +35319,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34914,9 +35349,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -34931,44 +35366,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1037, col: 5, offset: 32034},
+													pos:   position{line: 1050, col: 5, offset: 32487},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1037, col: 9, offset: 32038},
+														pos: position{line: 1050, col: 9, offset: 32491},
 														expr: &choiceExpr{
-															pos: position{line: 1044, col: 5, offset: 32260},
+															pos: position{line: 1057, col: 5, offset: 32713},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1044, col: 5, offset: 32260},
+																	pos: position{line: 1057, col: 5, offset: 32713},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1044, col: 5, offset: 32260},
+																			pos:   position{line: 1057, col: 5, offset: 32713},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25555},
+																				pos: position{line: 810, col: 5, offset: 26008},
 																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25555},
+																					pos: position{line: 810, col: 5, offset: 26008},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25555},
+																							pos:   position{line: 810, col: 5, offset: 26008},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25566},
+																								pos: position{line: 810, col: 16, offset: 26019},
 																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25566},
+																									pos: position{line: 810, col: 16, offset: 26019},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25566},
+																											pos:        position{line: 810, col: 16, offset: 26019},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25573},
+																											pos: position{line: 810, col: 23, offset: 26026},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25573},
+																												pos:        position{line: 810, col: 23, offset: 26026},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34979,12 +35414,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25657},
+																							pos: position{line: 812, col: 8, offset: 26110},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34993,28 +35428,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35023,9 +35458,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -35035,15 +35470,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1045, col: 5, offset: 32295},
+																			pos: position{line: 1058, col: 5, offset: 32748},
 																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -35054,39 +35489,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1060, col: 5, offset: 32612},
+										pos: position{line: 1073, col: 5, offset: 33065},
 										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1060, col: 5, offset: 32612},
+											pos: position{line: 1073, col: 5, offset: 33065},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1060, col: 5, offset: 32612},
+													pos:   position{line: 1073, col: 5, offset: 33065},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25805},
+														pos: position{line: 817, col: 5, offset: 26258},
 														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25805},
+															pos: position{line: 817, col: 5, offset: 26258},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25805},
+																	pos:   position{line: 817, col: 5, offset: 26258},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25816},
+																		pos: position{line: 817, col: 16, offset: 26269},
 																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25816},
+																			pos: position{line: 817, col: 16, offset: 26269},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25816},
+																					pos:        position{line: 817, col: 16, offset: 26269},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25823},
+																					pos: position{line: 817, col: 23, offset: 26276},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25823},
+																						pos:        position{line: 817, col: 23, offset: 26276},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35097,12 +35532,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25907},
+																	pos: position{line: 819, col: 8, offset: 26360},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35111,28 +35546,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35141,9 +35576,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -35153,56 +35588,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1061, col: 5, offset: 32649},
+													pos: position{line: 1074, col: 5, offset: 33102},
 													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1064, col: 5, offset: 32741},
+													pos:   position{line: 1077, col: 5, offset: 33194},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1079, col: 4, offset: 33122},
+														pos: position{line: 1092, col: 4, offset: 33575},
 														expr: &actionExpr{
-															pos: position{line: 1079, col: 5, offset: 33123},
+															pos: position{line: 1092, col: 5, offset: 33576},
 															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1079, col: 5, offset: 33123},
+																pos: position{line: 1092, col: 5, offset: 33576},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1079, col: 5, offset: 33123},
+																		pos: position{line: 1092, col: 5, offset: 33576},
 																		expr: &choiceExpr{
-																			pos: position{line: 1072, col: 5, offset: 32969},
+																			pos: position{line: 1085, col: 5, offset: 33422},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1072, col: 5, offset: 32969},
+																					pos: position{line: 1085, col: 5, offset: 33422},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1072, col: 5, offset: 32969},
+																							pos:   position{line: 1085, col: 5, offset: 33422},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25805},
+																								pos: position{line: 817, col: 5, offset: 26258},
 																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25805},
+																									pos: position{line: 817, col: 5, offset: 26258},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25805},
+																											pos:   position{line: 817, col: 5, offset: 26258},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25816},
+																												pos: position{line: 817, col: 16, offset: 26269},
 																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25816},
+																													pos: position{line: 817, col: 16, offset: 26269},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25816},
+																															pos:        position{line: 817, col: 16, offset: 26269},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25823},
+																															pos: position{line: 817, col: 23, offset: 26276},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25823},
+																																pos:        position{line: 817, col: 23, offset: 26276},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35213,12 +35648,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25907},
+																											pos: position{line: 819, col: 8, offset: 26360},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35227,28 +35662,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35257,9 +35692,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -35269,45 +35704,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1073, col: 5, offset: 32998},
+																							pos: position{line: 1086, col: 5, offset: 33451},
 																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1080, col: 5, offset: 33151},
+																		pos:   position{line: 1093, col: 5, offset: 33604},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35317,28 +35752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35347,9 +35782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -35364,44 +35799,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1065, col: 5, offset: 32773},
+													pos:   position{line: 1078, col: 5, offset: 33226},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1065, col: 9, offset: 32777},
+														pos: position{line: 1078, col: 9, offset: 33230},
 														expr: &choiceExpr{
-															pos: position{line: 1072, col: 5, offset: 32969},
+															pos: position{line: 1085, col: 5, offset: 33422},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1072, col: 5, offset: 32969},
+																	pos: position{line: 1085, col: 5, offset: 33422},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1072, col: 5, offset: 32969},
+																			pos:   position{line: 1085, col: 5, offset: 33422},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25805},
+																				pos: position{line: 817, col: 5, offset: 26258},
 																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25805},
+																					pos: position{line: 817, col: 5, offset: 26258},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25805},
+																							pos:   position{line: 817, col: 5, offset: 26258},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25816},
+																								pos: position{line: 817, col: 16, offset: 26269},
 																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25816},
+																									pos: position{line: 817, col: 16, offset: 26269},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25816},
+																											pos:        position{line: 817, col: 16, offset: 26269},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25823},
+																											pos: position{line: 817, col: 23, offset: 26276},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25823},
+																												pos:        position{line: 817, col: 23, offset: 26276},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35412,12 +35847,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25907},
+																							pos: position{line: 819, col: 8, offset: 26360},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35426,28 +35861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35456,9 +35891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -35468,15 +35903,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1073, col: 5, offset: 32998},
+																			pos: position{line: 1086, col: 5, offset: 33451},
 																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -35487,39 +35922,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1088, col: 5, offset: 33306},
+										pos: position{line: 1101, col: 5, offset: 33759},
 										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1088, col: 5, offset: 33306},
+											pos: position{line: 1101, col: 5, offset: 33759},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1088, col: 5, offset: 33306},
+													pos:   position{line: 1101, col: 5, offset: 33759},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 811, col: 5, offset: 26051},
+														pos: position{line: 824, col: 5, offset: 26504},
 														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
-															pos: position{line: 811, col: 5, offset: 26051},
+															pos: position{line: 824, col: 5, offset: 26504},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 811, col: 5, offset: 26051},
+																	pos:   position{line: 824, col: 5, offset: 26504},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 811, col: 16, offset: 26062},
+																		pos: position{line: 824, col: 16, offset: 26515},
 																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
-																			pos: position{line: 811, col: 16, offset: 26062},
+																			pos: position{line: 824, col: 16, offset: 26515},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 811, col: 16, offset: 26062},
+																					pos:        position{line: 824, col: 16, offset: 26515},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 811, col: 23, offset: 26069},
+																					pos: position{line: 824, col: 23, offset: 26522},
 																					expr: &litMatcher{
-																						pos:        position{line: 811, col: 23, offset: 26069},
+																						pos:        position{line: 824, col: 23, offset: 26522},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35530,12 +35965,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 813, col: 8, offset: 26153},
+																	pos: position{line: 826, col: 8, offset: 26606},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35544,28 +35979,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35574,9 +36009,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -35586,56 +36021,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1089, col: 5, offset: 33345},
+													pos: position{line: 1102, col: 5, offset: 33798},
 													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1092, col: 5, offset: 33437},
+													pos:   position{line: 1105, col: 5, offset: 33890},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1107, col: 4, offset: 33834},
+														pos: position{line: 1120, col: 4, offset: 34287},
 														expr: &actionExpr{
-															pos: position{line: 1107, col: 5, offset: 33835},
+															pos: position{line: 1120, col: 5, offset: 34288},
 															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1107, col: 5, offset: 33835},
+																pos: position{line: 1120, col: 5, offset: 34288},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1107, col: 5, offset: 33835},
+																		pos: position{line: 1120, col: 5, offset: 34288},
 																		expr: &choiceExpr{
-																			pos: position{line: 1100, col: 5, offset: 33677},
+																			pos: position{line: 1113, col: 5, offset: 34130},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1100, col: 5, offset: 33677},
+																					pos: position{line: 1113, col: 5, offset: 34130},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1100, col: 5, offset: 33677},
+																							pos:   position{line: 1113, col: 5, offset: 34130},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26051},
+																								pos: position{line: 824, col: 5, offset: 26504},
 																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26051},
+																									pos: position{line: 824, col: 5, offset: 26504},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 811, col: 5, offset: 26051},
+																											pos:   position{line: 824, col: 5, offset: 26504},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 811, col: 16, offset: 26062},
+																												pos: position{line: 824, col: 16, offset: 26515},
 																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
-																													pos: position{line: 811, col: 16, offset: 26062},
+																													pos: position{line: 824, col: 16, offset: 26515},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 811, col: 16, offset: 26062},
+																															pos:        position{line: 824, col: 16, offset: 26515},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 811, col: 23, offset: 26069},
+																															pos: position{line: 824, col: 23, offset: 26522},
 																															expr: &litMatcher{
-																																pos:        position{line: 811, col: 23, offset: 26069},
+																																pos:        position{line: 824, col: 23, offset: 26522},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35646,12 +36081,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 813, col: 8, offset: 26153},
+																											pos: position{line: 826, col: 8, offset: 26606},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90947},
+																												pos: position{line: 2886, col: 10, offset: 91400},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90947},
+																													pos:        position{line: 2886, col: 10, offset: 91400},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35660,28 +36095,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91345},
+																											pos: position{line: 2908, col: 8, offset: 91798},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91118},
+																													pos: position{line: 2895, col: 12, offset: 91571},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91119},
+																														pos: position{line: 2895, col: 13, offset: 91572},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35690,9 +36125,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91295},
+																													pos: position{line: 2905, col: 8, offset: 91748},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91296,
+																														line: 2905, col: 9, offset: 91749,
 																													},
 																												},
 																											},
@@ -35702,45 +36137,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1101, col: 5, offset: 33708},
+																							pos: position{line: 1114, col: 5, offset: 34161},
 																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1108, col: 5, offset: 33865},
+																		pos:   position{line: 1121, col: 5, offset: 34318},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26299},
+																			pos: position{line: 831, col: 5, offset: 26752},
 																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26299},
+																				pos: position{line: 831, col: 5, offset: 26752},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91281},
+																						pos: position{line: 2903, col: 11, offset: 91734},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91283,
+																							line: 2903, col: 13, offset: 91736,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 819, col: 5, offset: 26374},
+																						pos:   position{line: 832, col: 5, offset: 26827},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89473},
+																							pos: position{line: 2832, col: 13, offset: 89926},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89473},
+																								pos: position{line: 2832, col: 13, offset: 89926},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89473},
+																									pos:        position{line: 2832, col: 13, offset: 89926},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35750,28 +36185,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35780,9 +36215,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -35797,44 +36232,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1093, col: 5, offset: 33471},
+													pos:   position{line: 1106, col: 5, offset: 33924},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1093, col: 9, offset: 33475},
+														pos: position{line: 1106, col: 9, offset: 33928},
 														expr: &choiceExpr{
-															pos: position{line: 1100, col: 5, offset: 33677},
+															pos: position{line: 1113, col: 5, offset: 34130},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1100, col: 5, offset: 33677},
+																	pos: position{line: 1113, col: 5, offset: 34130},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1100, col: 5, offset: 33677},
+																			pos:   position{line: 1113, col: 5, offset: 34130},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26051},
+																				pos: position{line: 824, col: 5, offset: 26504},
 																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26051},
+																					pos: position{line: 824, col: 5, offset: 26504},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26051},
+																							pos:   position{line: 824, col: 5, offset: 26504},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 16, offset: 26062},
+																								pos: position{line: 824, col: 16, offset: 26515},
 																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 16, offset: 26062},
+																									pos: position{line: 824, col: 16, offset: 26515},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 811, col: 16, offset: 26062},
+																											pos:        position{line: 824, col: 16, offset: 26515},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 811, col: 23, offset: 26069},
+																											pos: position{line: 824, col: 23, offset: 26522},
 																											expr: &litMatcher{
-																												pos:        position{line: 811, col: 23, offset: 26069},
+																												pos:        position{line: 824, col: 23, offset: 26522},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35845,12 +36280,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 813, col: 8, offset: 26153},
+																							pos: position{line: 826, col: 8, offset: 26606},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35859,28 +36294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35889,9 +36324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -35901,15 +36336,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1101, col: 5, offset: 33708},
+																			pos: position{line: 1114, col: 5, offset: 34161},
 																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -35920,27 +36355,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2718, col: 18, offset: 86523},
+										pos: position{line: 2731, col: 18, offset: 86976},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2719, col: 9, offset: 86533},
+											pos: position{line: 2732, col: 9, offset: 86986},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2719, col: 9, offset: 86533},
+													pos: position{line: 2732, col: 9, offset: 86986},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2719, col: 9, offset: 86533},
+															pos:        position{line: 2732, col: 9, offset: 86986},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2719, col: 15, offset: 86539},
+															pos: position{line: 2732, col: 15, offset: 86992},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -35949,28 +36384,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91345},
+															pos: position{line: 2908, col: 8, offset: 91798},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91118},
+																	pos: position{line: 2895, col: 12, offset: 91571},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91119},
+																		pos: position{line: 2895, col: 13, offset: 91572},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91119},
+																				pos:        position{line: 2895, col: 13, offset: 91572},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91126},
+																				pos:        position{line: 2895, col: 20, offset: 91579},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91135},
+																				pos:        position{line: 2895, col: 29, offset: 91588},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -35979,9 +36414,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -35989,43 +36424,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2720, col: 11, offset: 86572},
+													pos: position{line: 2733, col: 11, offset: 87025},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2720, col: 12, offset: 86573},
+															pos: position{line: 2733, col: 12, offset: 87026},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2720, col: 12, offset: 86573},
+																	pos:        position{line: 2733, col: 12, offset: 87026},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 20, offset: 86581},
+																	pos:        position{line: 2733, col: 20, offset: 87034},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 30, offset: 86591},
+																	pos:        position{line: 2733, col: 30, offset: 87044},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 38, offset: 86599},
+																	pos:        position{line: 2733, col: 38, offset: 87052},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 48, offset: 86609},
+																	pos:        position{line: 2733, col: 48, offset: 87062},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2720, col: 56, offset: 86617},
+																	pos:        position{line: 2733, col: 56, offset: 87070},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -36033,12 +36468,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2720, col: 65, offset: 86626},
+															pos: position{line: 2733, col: 65, offset: 87079},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36047,28 +36482,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91345},
+															pos: position{line: 2908, col: 8, offset: 91798},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91118},
+																	pos: position{line: 2895, col: 12, offset: 91571},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91119},
+																		pos: position{line: 2895, col: 13, offset: 91572},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91119},
+																				pos:        position{line: 2895, col: 13, offset: 91572},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91126},
+																				pos:        position{line: 2895, col: 20, offset: 91579},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91135},
+																				pos:        position{line: 2895, col: 29, offset: 91588},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36077,38 +36512,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2720, col: 76, offset: 86637},
+															pos: position{line: 2733, col: 76, offset: 87090},
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36117,9 +36552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -36131,28 +36566,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1568, col: 11, offset: 50565},
+										pos:  position{line: 1581, col: 11, offset: 51018},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2609, col: 5, offset: 83459},
+										pos: position{line: 2622, col: 5, offset: 83912},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2609, col: 5, offset: 83459},
+											pos: position{line: 2622, col: 5, offset: 83912},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2615, col: 19, offset: 83616},
+													pos:        position{line: 2628, col: 19, offset: 84069},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2615, col: 26, offset: 83623},
+													pos: position{line: 2628, col: 26, offset: 84076},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36161,28 +36596,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36191,40 +36626,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2610, col: 5, offset: 83483},
+													pos:   position{line: 2623, col: 5, offset: 83936},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2610, col: 11, offset: 83489},
+														pos: position{line: 2623, col: 11, offset: 83942},
 														expr: &choiceExpr{
-															pos: position{line: 2610, col: 12, offset: 83490},
+															pos: position{line: 2623, col: 12, offset: 83943},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 684, col: 14, offset: 21681},
+																	pos: position{line: 697, col: 14, offset: 22134},
 																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
-																		pos: position{line: 684, col: 14, offset: 21681},
+																		pos: position{line: 697, col: 14, offset: 22134},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2890, col: 11, offset: 91281},
+																				pos: position{line: 2903, col: 11, offset: 91734},
 																				expr: &anyMatcher{
-																					line: 2890, col: 13, offset: 91283,
+																					line: 2903, col: 13, offset: 91736,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 684, col: 21, offset: 21688},
+																				pos: position{line: 697, col: 21, offset: 22141},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90947},
+																					pos: position{line: 2886, col: 10, offset: 91400},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90947},
+																						pos:        position{line: 2886, col: 10, offset: 91400},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36233,28 +36668,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91345},
+																				pos: position{line: 2908, col: 8, offset: 91798},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91118},
+																						pos: position{line: 2895, col: 12, offset: 91571},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91119},
+																							pos: position{line: 2895, col: 13, offset: 91572},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91119},
+																									pos:        position{line: 2895, col: 13, offset: 91572},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91126},
+																									pos:        position{line: 2895, col: 20, offset: 91579},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91135},
+																									pos:        position{line: 2895, col: 29, offset: 91588},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36263,9 +36698,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
@@ -36274,32 +36709,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2622, col: 5, offset: 83735},
+																	pos: position{line: 2635, col: 5, offset: 84188},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2622, col: 5, offset: 83735},
+																		pos: position{line: 2635, col: 5, offset: 84188},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2622, col: 5, offset: 83735},
+																				pos: position{line: 2635, col: 5, offset: 84188},
 																				expr: &choiceExpr{
-																					pos: position{line: 2619, col: 22, offset: 83696},
+																					pos: position{line: 2632, col: 22, offset: 84149},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2615, col: 19, offset: 83616},
+																							pos: position{line: 2628, col: 19, offset: 84069},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2615, col: 19, offset: 83616},
+																									pos:        position{line: 2628, col: 19, offset: 84069},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2615, col: 26, offset: 83623},
+																									pos: position{line: 2628, col: 26, offset: 84076},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90947},
+																										pos: position{line: 2886, col: 10, offset: 91400},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90947},
+																											pos:        position{line: 2886, col: 10, offset: 91400},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36308,28 +36743,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36338,9 +36773,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
@@ -36348,59 +36783,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2623, col: 5, offset: 83758},
+																				pos:   position{line: 2636, col: 5, offset: 84211},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2624, col: 9, offset: 83776},
+																					pos: position{line: 2637, col: 9, offset: 84229},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2624, col: 10, offset: 83777},
+																							pos: position{line: 2637, col: 10, offset: 84230},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2624, col: 10, offset: 83777},
+																								pos:   position{line: 2637, col: 10, offset: 84230},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2624, col: 17, offset: 83784},
+																									pos: position{line: 2637, col: 17, offset: 84237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2632, col: 21, offset: 83980},
+																											pos: position{line: 2645, col: 21, offset: 84433},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2632, col: 21, offset: 83980},
+																												pos: position{line: 2645, col: 21, offset: 84433},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2632, col: 21, offset: 83980},
+																														pos:   position{line: 2645, col: 21, offset: 84433},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2632, col: 27, offset: 83986},
+																															pos: position{line: 2645, col: 27, offset: 84439},
 																															expr: &actionExpr{
-																																pos: position{line: 2637, col: 5, offset: 84061},
+																																pos: position{line: 2650, col: 5, offset: 84514},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84061},
+																																	pos: position{line: 2650, col: 5, offset: 84514},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2637, col: 5, offset: 84061},
+																																			pos:        position{line: 2650, col: 5, offset: 84514},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2637, col: 9, offset: 84065},
+																																			pos: position{line: 2650, col: 9, offset: 84518},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2873, col: 10, offset: 90947},
+																																				pos: position{line: 2886, col: 10, offset: 91400},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2873, col: 10, offset: 90947},
+																																					pos:        position{line: 2886, col: 10, offset: 91400},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36409,21 +36844,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2637, col: 16, offset: 84072},
+																																			pos:   position{line: 2650, col: 16, offset: 84525},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2643, col: 5, offset: 84272},
+																																				pos: position{line: 2656, col: 5, offset: 84725},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2643, col: 5, offset: 84272},
+																																					pos:   position{line: 2656, col: 5, offset: 84725},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2643, col: 14, offset: 84281},
+																																						pos: position{line: 2656, col: 14, offset: 84734},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84281},
+																																							pos: position{line: 2656, col: 14, offset: 84734},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2643, col: 14, offset: 84281},
+																																								pos:        position{line: 2656, col: 14, offset: 84734},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36440,28 +36875,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2895, col: 8, offset: 91345},
+																														pos: position{line: 2908, col: 8, offset: 91798},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2882, col: 12, offset: 91118},
+																																pos: position{line: 2895, col: 12, offset: 91571},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2882, col: 13, offset: 91119},
+																																	pos: position{line: 2895, col: 13, offset: 91572},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 13, offset: 91119},
+																																			pos:        position{line: 2895, col: 13, offset: 91572},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 20, offset: 91126},
+																																			pos:        position{line: 2895, col: 20, offset: 91579},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 29, offset: 91135},
+																																			pos:        position{line: 2895, col: 29, offset: 91588},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36470,9 +36905,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2892, col: 8, offset: 91295},
+																																pos: position{line: 2905, col: 8, offset: 91748},
 																																expr: &anyMatcher{
-																																	line: 2892, col: 9, offset: 91296,
+																																	line: 2905, col: 9, offset: 91749,
 																																},
 																															},
 																														},
@@ -36481,40 +36916,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2649, col: 24, offset: 84417},
+																											pos: position{line: 2662, col: 24, offset: 84870},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2649, col: 24, offset: 84417},
+																												pos:   position{line: 2662, col: 24, offset: 84870},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2649, col: 30, offset: 84423},
+																													pos: position{line: 2662, col: 30, offset: 84876},
 																													expr: &actionExpr{
-																														pos: position{line: 2654, col: 5, offset: 84499},
+																														pos: position{line: 2667, col: 5, offset: 84952},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2654, col: 5, offset: 84499},
+																															pos: position{line: 2667, col: 5, offset: 84952},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2654, col: 5, offset: 84499},
+																																	pos: position{line: 2667, col: 5, offset: 84952},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2619, col: 22, offset: 83696},
+																																		pos: position{line: 2632, col: 22, offset: 84149},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2615, col: 19, offset: 83616},
+																																				pos: position{line: 2628, col: 19, offset: 84069},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2615, col: 19, offset: 83616},
+																																						pos:        position{line: 2628, col: 19, offset: 84069},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2615, col: 26, offset: 83623},
+																																						pos: position{line: 2628, col: 26, offset: 84076},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90947},
+																																							pos: position{line: 2886, col: 10, offset: 91400},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90947},
+																																								pos:        position{line: 2886, col: 10, offset: 91400},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36523,28 +36958,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91345},
+																																						pos: position{line: 2908, col: 8, offset: 91798},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91118},
+																																								pos: position{line: 2895, col: 12, offset: 91571},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91119},
+																																									pos: position{line: 2895, col: 13, offset: 91572},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91119},
+																																											pos:        position{line: 2895, col: 13, offset: 91572},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91126},
+																																											pos:        position{line: 2895, col: 20, offset: 91579},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91135},
+																																											pos:        position{line: 2895, col: 29, offset: 91588},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36553,9 +36988,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91295},
+																																								pos: position{line: 2905, col: 8, offset: 91748},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91296,
+																																									line: 2905, col: 9, offset: 91749,
 																																								},
 																																							},
 																																						},
@@ -36563,35 +36998,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2892, col: 8, offset: 91295},
+																																				pos: position{line: 2905, col: 8, offset: 91748},
 																																				expr: &anyMatcher{
-																																					line: 2892, col: 9, offset: 91296,
+																																					line: 2905, col: 9, offset: 91749,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84522},
+																																	pos: position{line: 2668, col: 5, offset: 84975},
 																																	expr: &actionExpr{
-																																		pos: position{line: 684, col: 14, offset: 21681},
+																																		pos: position{line: 697, col: 14, offset: 22134},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
-																																			pos: position{line: 684, col: 14, offset: 21681},
+																																			pos: position{line: 697, col: 14, offset: 22134},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2890, col: 11, offset: 91281},
+																																					pos: position{line: 2903, col: 11, offset: 91734},
 																																					expr: &anyMatcher{
-																																						line: 2890, col: 13, offset: 91283,
+																																						line: 2903, col: 13, offset: 91736,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 684, col: 21, offset: 21688},
+																																					pos: position{line: 697, col: 21, offset: 22141},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2873, col: 10, offset: 90947},
+																																						pos: position{line: 2886, col: 10, offset: 91400},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2873, col: 10, offset: 90947},
+																																							pos:        position{line: 2886, col: 10, offset: 91400},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36600,28 +37035,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91345},
+																																					pos: position{line: 2908, col: 8, offset: 91798},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2882, col: 12, offset: 91118},
+																																							pos: position{line: 2895, col: 12, offset: 91571},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2882, col: 13, offset: 91119},
+																																								pos: position{line: 2895, col: 13, offset: 91572},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 13, offset: 91119},
+																																										pos:        position{line: 2895, col: 13, offset: 91572},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 20, offset: 91126},
+																																										pos:        position{line: 2895, col: 20, offset: 91579},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 29, offset: 91135},
+																																										pos:        position{line: 2895, col: 29, offset: 91588},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36630,9 +37065,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91295},
+																																							pos: position{line: 2905, col: 8, offset: 91748},
 																																							expr: &anyMatcher{
-																																								line: 2892, col: 9, offset: 91296,
+																																								line: 2905, col: 9, offset: 91749,
 																																							},
 																																						},
 																																					},
@@ -36642,17 +37077,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 5, offset: 84537},
+																																	pos:   position{line: 2669, col: 5, offset: 84990},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 12, offset: 84544},
+																																		pos: position{line: 2669, col: 12, offset: 84997},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 20, offset: 85008},
+																																			pos: position{line: 2686, col: 20, offset: 85461},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2673, col: 20, offset: 85008},
+																																				pos: position{line: 2686, col: 20, offset: 85461},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2673, col: 20, offset: 85008},
+																																					pos:        position{line: 2686, col: 20, offset: 85461},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36663,18 +37098,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2656, col: 31, offset: 84563},
+																																	pos:        position{line: 2669, col: 31, offset: 85016},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2656, col: 35, offset: 84567},
+																																	pos: position{line: 2669, col: 35, offset: 85020},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2873, col: 10, offset: 90947},
+																																		pos: position{line: 2886, col: 10, offset: 91400},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2873, col: 10, offset: 90947},
+																																			pos:        position{line: 2886, col: 10, offset: 91400},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36683,27 +37118,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2656, col: 42, offset: 84574},
+																																	pos: position{line: 2669, col: 42, offset: 85027},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 91118},
+																																		pos: position{line: 2895, col: 12, offset: 91571},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 91119},
+																																			pos: position{line: 2895, col: 13, offset: 91572},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 91119},
+																																					pos:        position{line: 2895, col: 13, offset: 91572},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 91126},
+																																					pos:        position{line: 2895, col: 20, offset: 91579},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 91135},
+																																					pos:        position{line: 2895, col: 29, offset: 91588},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36713,37 +37148,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 51, offset: 84583},
+																																	pos:   position{line: 2669, col: 51, offset: 85036},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84742},
+																																		pos: position{line: 2675, col: 5, offset: 85195},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2663, col: 9, offset: 84752},
+																																			pos: position{line: 2676, col: 9, offset: 85205},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84752},
+																																				pos: position{line: 2676, col: 9, offset: 85205},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2663, col: 9, offset: 84752},
+																																						pos: position{line: 2676, col: 9, offset: 85205},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2619, col: 22, offset: 83696},
+																																							pos: position{line: 2632, col: 22, offset: 84149},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2615, col: 19, offset: 83616},
+																																									pos: position{line: 2628, col: 19, offset: 84069},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2615, col: 19, offset: 83616},
+																																											pos:        position{line: 2628, col: 19, offset: 84069},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2615, col: 26, offset: 83623},
+																																											pos: position{line: 2628, col: 26, offset: 84076},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90947},
+																																												pos: position{line: 2886, col: 10, offset: 91400},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90947},
+																																													pos:        position{line: 2886, col: 10, offset: 91400},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36752,28 +37187,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91345},
+																																											pos: position{line: 2908, col: 8, offset: 91798},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91118},
+																																													pos: position{line: 2895, col: 12, offset: 91571},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91119},
+																																														pos: position{line: 2895, col: 13, offset: 91572},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91119},
+																																																pos:        position{line: 2895, col: 13, offset: 91572},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91126},
+																																																pos:        position{line: 2895, col: 20, offset: 91579},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91135},
+																																																pos:        position{line: 2895, col: 29, offset: 91588},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36782,9 +37217,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91295},
+																																													pos: position{line: 2905, col: 8, offset: 91748},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91296,
+																																														line: 2905, col: 9, offset: 91749,
 																																													},
 																																												},
 																																											},
@@ -36792,35 +37227,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91295},
+																																									pos: position{line: 2905, col: 8, offset: 91748},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91296,
+																																										line: 2905, col: 9, offset: 91749,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84779},
+																																						pos: position{line: 2677, col: 9, offset: 85232},
 																																						expr: &actionExpr{
-																																							pos: position{line: 684, col: 14, offset: 21681},
+																																							pos: position{line: 697, col: 14, offset: 22134},
 																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
-																																								pos: position{line: 684, col: 14, offset: 21681},
+																																								pos: position{line: 697, col: 14, offset: 22134},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2890, col: 11, offset: 91281},
+																																										pos: position{line: 2903, col: 11, offset: 91734},
 																																										expr: &anyMatcher{
-																																											line: 2890, col: 13, offset: 91283,
+																																											line: 2903, col: 13, offset: 91736,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 684, col: 21, offset: 21688},
+																																										pos: position{line: 697, col: 21, offset: 22141},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2873, col: 10, offset: 90947},
+																																											pos: position{line: 2886, col: 10, offset: 91400},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2873, col: 10, offset: 90947},
+																																												pos:        position{line: 2886, col: 10, offset: 91400},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36829,28 +37264,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91345},
+																																										pos: position{line: 2908, col: 8, offset: 91798},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2882, col: 12, offset: 91118},
+																																												pos: position{line: 2895, col: 12, offset: 91571},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2882, col: 13, offset: 91119},
+																																													pos: position{line: 2895, col: 13, offset: 91572},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 13, offset: 91119},
+																																															pos:        position{line: 2895, col: 13, offset: 91572},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 20, offset: 91126},
+																																															pos:        position{line: 2895, col: 20, offset: 91579},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 29, offset: 91135},
+																																															pos:        position{line: 2895, col: 29, offset: 91588},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36859,9 +37294,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2892, col: 8, offset: 91295},
+																																												pos: position{line: 2905, col: 8, offset: 91748},
 																																												expr: &anyMatcher{
-																																													line: 2892, col: 9, offset: 91296,
+																																													line: 2905, col: 9, offset: 91749,
 																																												},
 																																											},
 																																										},
@@ -36871,22 +37306,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84798},
+																																						pos: position{line: 2678, col: 9, offset: 85251},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2665, col: 11, offset: 84800},
+																																							pos: position{line: 2678, col: 11, offset: 85253},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2665, col: 11, offset: 84800},
+																																									pos:   position{line: 2678, col: 11, offset: 85253},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2665, col: 18, offset: 84807},
+																																										pos: position{line: 2678, col: 18, offset: 85260},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2673, col: 20, offset: 85008},
+																																											pos: position{line: 2686, col: 20, offset: 85461},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2673, col: 20, offset: 85008},
+																																												pos: position{line: 2686, col: 20, offset: 85461},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2673, col: 20, offset: 85008},
+																																													pos:        position{line: 2686, col: 20, offset: 85461},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36897,7 +37332,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2665, col: 37, offset: 84826},
+																																									pos:        position{line: 2678, col: 37, offset: 85279},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36906,15 +37341,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2666, col: 9, offset: 84839},
+																																						pos:   position{line: 2679, col: 9, offset: 85292},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2666, col: 18, offset: 84848},
+																																							pos: position{line: 2679, col: 18, offset: 85301},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84848},
+																																								pos: position{line: 2679, col: 18, offset: 85301},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2666, col: 18, offset: 84848},
+																																									pos:        position{line: 2679, col: 18, offset: 85301},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36924,30 +37359,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2668, col: 12, offset: 84910},
+																																						pos: position{line: 2681, col: 12, offset: 85363},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91345},
+																																							pos: position{line: 2908, col: 8, offset: 91798},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91118},
+																																									pos: position{line: 2895, col: 12, offset: 91571},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91119},
+																																										pos: position{line: 2895, col: 13, offset: 91572},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91119},
+																																												pos:        position{line: 2895, col: 13, offset: 91572},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91126},
+																																												pos:        position{line: 2895, col: 20, offset: 91579},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91135},
+																																												pos:        position{line: 2895, col: 29, offset: 91588},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36956,9 +37391,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91295},
+																																									pos: position{line: 2905, col: 8, offset: 91748},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91296,
+																																										line: 2905, col: 9, offset: 91749,
 																																									},
 																																								},
 																																							},
@@ -36980,24 +37415,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 684, col: 14, offset: 21681},
+																							pos: position{line: 697, col: 14, offset: 22134},
 																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
-																								pos: position{line: 684, col: 14, offset: 21681},
+																								pos: position{line: 697, col: 14, offset: 22134},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91281},
+																										pos: position{line: 2903, col: 11, offset: 91734},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91283,
+																											line: 2903, col: 13, offset: 91736,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 684, col: 21, offset: 21688},
+																										pos: position{line: 697, col: 21, offset: 22141},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90947},
+																											pos: position{line: 2886, col: 10, offset: 91400},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90947},
+																												pos:        position{line: 2886, col: 10, offset: 91400},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37006,28 +37441,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91345},
+																										pos: position{line: 2908, col: 8, offset: 91798},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91118},
+																												pos: position{line: 2895, col: 12, offset: 91571},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91119},
+																													pos: position{line: 2895, col: 13, offset: 91572},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91119},
+																															pos:        position{line: 2895, col: 13, offset: 91572},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91126},
+																															pos:        position{line: 2895, col: 20, offset: 91579},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91135},
+																															pos:        position{line: 2895, col: 29, offset: 91588},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37036,9 +37471,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91295},
+																												pos: position{line: 2905, col: 8, offset: 91748},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91296,
+																													line: 2905, col: 9, offset: 91749,
 																												},
 																											},
 																										},
@@ -37057,24 +37492,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2619, col: 22, offset: 83696},
+													pos: position{line: 2632, col: 22, offset: 84149},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83616},
+															pos: position{line: 2628, col: 19, offset: 84069},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83616},
+																	pos:        position{line: 2628, col: 19, offset: 84069},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83623},
+																	pos: position{line: 2628, col: 26, offset: 84076},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37083,28 +37518,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37113,9 +37548,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -37123,9 +37558,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -37134,36 +37569,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79918},
+										pos: position{line: 2496, col: 22, offset: 80371},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79918},
+											pos: position{line: 2496, col: 22, offset: 80371},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80139},
+													pos:        position{line: 2501, col: 31, offset: 80592},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80144},
+													pos: position{line: 2501, col: 36, offset: 80597},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80145},
+														pos:        position{line: 2501, col: 37, offset: 80598},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79945},
+													pos:   position{line: 2496, col: 49, offset: 80398},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89473},
+														pos: position{line: 2832, col: 13, offset: 89926},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89473},
+															pos: position{line: 2832, col: 13, offset: 89926},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89473},
+																pos:        position{line: 2832, col: 13, offset: 89926},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37173,28 +37608,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91345},
+													pos: position{line: 2908, col: 8, offset: 91798},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37203,9 +37638,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91295},
+															pos: position{line: 2905, col: 8, offset: 91748},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91296,
+																line: 2905, col: 9, offset: 91749,
 															},
 														},
 													},
@@ -37214,94 +37649,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 50995},
+										pos: position{line: 1594, col: 5, offset: 51448},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 50995},
+											pos: position{line: 1594, col: 5, offset: 51448},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 50995},
+													pos:   position{line: 1594, col: 5, offset: 51448},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1581, col: 11, offset: 51001},
+														pos: position{line: 1594, col: 11, offset: 51454},
 														expr: &actionExpr{
-															pos: position{line: 1745, col: 5, offset: 56318},
+															pos: position{line: 1758, col: 5, offset: 56771},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1745, col: 5, offset: 56318},
+																pos: position{line: 1758, col: 5, offset: 56771},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1745, col: 5, offset: 56318},
+																		pos: position{line: 1758, col: 5, offset: 56771},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1748, col: 5, offset: 56381},
+																		pos:   position{line: 1761, col: 5, offset: 56834},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1748, col: 12, offset: 56388},
+																			pos: position{line: 1761, col: 12, offset: 56841},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1748, col: 12, offset: 56388},
+																					pos: position{line: 1761, col: 12, offset: 56841},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 12, offset: 56388},
+																						pos:        position{line: 1761, col: 12, offset: 56841},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56444},
+																					pos: position{line: 1763, col: 13, offset: 56897},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56444},
+																						pos:        position{line: 1763, col: 13, offset: 56897},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56502},
+																					pos: position{line: 1765, col: 13, offset: 56955},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56502},
+																						pos:        position{line: 1765, col: 13, offset: 56955},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56570},
+																					pos: position{line: 1767, col: 13, offset: 57023},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1754, col: 13, offset: 56570},
+																						pos:        position{line: 1767, col: 13, offset: 57023},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1756, col: 13, offset: 56634},
+																					pos: position{line: 1769, col: 13, offset: 57087},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1756, col: 13, offset: 56634},
+																						pos:        position{line: 1769, col: 13, offset: 57087},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1758, col: 13, offset: 56698},
+																					pos: position{line: 1771, col: 13, offset: 57151},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1758, col: 13, offset: 56698},
+																						pos: position{line: 1771, col: 13, offset: 57151},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91008},
+																							pos: position{line: 2890, col: 11, offset: 91461},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91008},
+																								pos: position{line: 2890, col: 11, offset: 91461},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91008},
+																									pos:        position{line: 2890, col: 11, offset: 91461},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37315,17 +37750,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1760, col: 12, offset: 56778},
+																		pos: position{line: 1773, col: 12, offset: 57231},
 																		expr: &seqExpr{
-																			pos: position{line: 1760, col: 14, offset: 56780},
+																			pos: position{line: 1773, col: 14, offset: 57233},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1760, col: 14, offset: 56780},
+																					pos: position{line: 1773, col: 14, offset: 57233},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37334,28 +37769,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37364,9 +37799,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -37380,35 +37815,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51024},
+													pos:   position{line: 1595, col: 5, offset: 51477},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49320},
+														pos: position{line: 1538, col: 5, offset: 49773},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49320},
+															pos: position{line: 1538, col: 5, offset: 49773},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49320},
+																	pos: position{line: 1538, col: 5, offset: 49773},
 																	expr: &actionExpr{
-																		pos: position{line: 684, col: 14, offset: 21681},
+																		pos: position{line: 697, col: 14, offset: 22134},
 																		run: (*parser).callonListContinuationElement1623,
 																		expr: &seqExpr{
-																			pos: position{line: 684, col: 14, offset: 21681},
+																			pos: position{line: 697, col: 14, offset: 22134},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91281},
+																					pos: position{line: 2903, col: 11, offset: 91734},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91283,
+																						line: 2903, col: 13, offset: 91736,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 684, col: 21, offset: 21688},
+																					pos: position{line: 697, col: 21, offset: 22141},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37417,28 +37852,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91345},
+																					pos: position{line: 2908, col: 8, offset: 91798},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37447,9 +37882,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91295},
+																							pos: position{line: 2905, col: 8, offset: 91748},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91296,
+																								line: 2905, col: 9, offset: 91749,
 																							},
 																						},
 																					},
@@ -37459,23 +37894,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49335},
+																	pos: position{line: 1539, col: 5, offset: 49788},
 																	expr: &seqExpr{
-																		pos: position{line: 1556, col: 27, offset: 50240},
+																		pos: position{line: 1569, col: 27, offset: 50693},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1556, col: 27, offset: 50240},
+																				pos:        position{line: 1569, col: 27, offset: 50693},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1556, col: 31, offset: 50244},
+																				pos: position{line: 1569, col: 31, offset: 50697},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90947},
+																					pos: position{line: 2886, col: 10, offset: 91400},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90947},
+																						pos:        position{line: 2886, col: 10, offset: 91400},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37484,25 +37919,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37514,20 +37949,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49363},
+																	pos: position{line: 1540, col: 5, offset: 49816},
 																	expr: &actionExpr{
-																		pos: position{line: 1597, col: 5, offset: 51434},
+																		pos: position{line: 1610, col: 5, offset: 51887},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1597, col: 5, offset: 51434},
+																			pos: position{line: 1610, col: 5, offset: 51887},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1597, col: 5, offset: 51434},
+																					pos: position{line: 1610, col: 5, offset: 51887},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37536,27 +37971,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1597, col: 12, offset: 51441},
+																					pos:   position{line: 1610, col: 12, offset: 51894},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1599, col: 9, offset: 51504},
+																						pos: position{line: 1612, col: 9, offset: 51957},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1599, col: 9, offset: 51504},
+																								pos: position{line: 1612, col: 9, offset: 51957},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1599, col: 9, offset: 51504},
+																									pos: position{line: 1612, col: 9, offset: 51957},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1599, col: 9, offset: 51504},
+																											pos:   position{line: 1612, col: 9, offset: 51957},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1599, col: 16, offset: 51511},
+																												pos: position{line: 1612, col: 16, offset: 51964},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1599, col: 16, offset: 51511},
+																													pos: position{line: 1612, col: 16, offset: 51964},
 																													expr: &litMatcher{
-																														pos:        position{line: 1599, col: 17, offset: 51512},
+																														pos:        position{line: 1612, col: 17, offset: 51965},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37565,22 +38000,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1603, col: 9, offset: 51612},
+																											pos: position{line: 1616, col: 9, offset: 52065},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1622, col: 11, offset: 52329},
+																								pos: position{line: 1635, col: 11, offset: 52782},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 11, offset: 52329},
+																									pos: position{line: 1635, col: 11, offset: 52782},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1622, col: 11, offset: 52329},
+																											pos: position{line: 1635, col: 11, offset: 52782},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1622, col: 12, offset: 52330},
+																												pos:        position{line: 1635, col: 12, offset: 52783},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37588,7 +38023,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1622, col: 20, offset: 52338},
+																											pos:        position{line: 1635, col: 20, offset: 52791},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37597,20 +38032,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1624, col: 13, offset: 52455},
+																								pos: position{line: 1637, col: 13, offset: 52908},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1624, col: 13, offset: 52455},
+																									pos: position{line: 1637, col: 13, offset: 52908},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1624, col: 14, offset: 52456},
+																											pos:        position{line: 1637, col: 14, offset: 52909},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1624, col: 21, offset: 52463},
+																											pos:        position{line: 1637, col: 21, offset: 52916},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37619,20 +38054,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1626, col: 13, offset: 52583},
+																								pos: position{line: 1639, col: 13, offset: 53036},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1626, col: 13, offset: 52583},
+																									pos: position{line: 1639, col: 13, offset: 53036},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1626, col: 14, offset: 52584},
+																											pos:        position{line: 1639, col: 14, offset: 53037},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1626, col: 21, offset: 52591},
+																											pos:        position{line: 1639, col: 21, offset: 53044},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37641,15 +38076,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1628, col: 13, offset: 52711},
+																								pos: position{line: 1641, col: 13, offset: 53164},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1628, col: 13, offset: 52711},
+																									pos: position{line: 1641, col: 13, offset: 53164},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1628, col: 13, offset: 52711},
+																											pos: position{line: 1641, col: 13, offset: 53164},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1628, col: 14, offset: 52712},
+																												pos:        position{line: 1641, col: 14, offset: 53165},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37657,7 +38092,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1628, col: 26, offset: 52724},
+																											pos:        position{line: 1641, col: 26, offset: 53177},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37666,15 +38101,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1630, col: 13, offset: 52844},
+																								pos: position{line: 1643, col: 13, offset: 53297},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1630, col: 13, offset: 52844},
+																									pos: position{line: 1643, col: 13, offset: 53297},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1630, col: 13, offset: 52844},
+																											pos: position{line: 1643, col: 13, offset: 53297},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1630, col: 14, offset: 52845},
+																												pos:        position{line: 1643, col: 14, offset: 53298},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37682,7 +38117,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1630, col: 26, offset: 52857},
+																											pos:        position{line: 1643, col: 26, offset: 53310},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37694,12 +38129,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91008},
+																					pos: position{line: 2890, col: 11, offset: 91461},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91008},
+																						pos: position{line: 2890, col: 11, offset: 91461},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91008},
+																							pos:        position{line: 2890, col: 11, offset: 91461},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37712,20 +38147,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49393},
+																	pos: position{line: 1541, col: 5, offset: 49846},
 																	expr: &actionExpr{
-																		pos: position{line: 1647, col: 5, offset: 53396},
+																		pos: position{line: 1660, col: 5, offset: 53849},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1647, col: 5, offset: 53396},
+																			pos: position{line: 1660, col: 5, offset: 53849},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1647, col: 5, offset: 53396},
+																					pos: position{line: 1660, col: 5, offset: 53849},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37734,24 +38169,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1648, col: 5, offset: 53408},
+																					pos:   position{line: 1661, col: 5, offset: 53861},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1649, col: 9, offset: 53424},
+																						pos: position{line: 1662, col: 9, offset: 53877},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1649, col: 10, offset: 53425},
+																							pos: position{line: 1662, col: 10, offset: 53878},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1649, col: 11, offset: 53426},
+																									pos:        position{line: 1662, col: 11, offset: 53879},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1649, col: 18, offset: 53433},
+																									pos: position{line: 1662, col: 18, offset: 53886},
 																									expr: &litMatcher{
-																										pos:        position{line: 1649, col: 19, offset: 53434},
+																										pos:        position{line: 1662, col: 19, offset: 53887},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37762,16 +38197,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1652, col: 7, offset: 53524},
+																					pos: position{line: 1665, col: 7, offset: 53977},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91008},
+																					pos: position{line: 2890, col: 11, offset: 91461},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91008},
+																						pos: position{line: 2890, col: 11, offset: 91461},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91008},
+																							pos:        position{line: 2890, col: 11, offset: 91461},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37784,29 +38219,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49425},
+																	pos: position{line: 1542, col: 5, offset: 49878},
 																	expr: &actionExpr{
-																		pos: position{line: 1736, col: 5, offset: 55933},
+																		pos: position{line: 1749, col: 5, offset: 56386},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1736, col: 5, offset: 55933},
+																			pos: position{line: 1749, col: 5, offset: 56386},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 5, offset: 55933},
+																					pos:        position{line: 1749, col: 5, offset: 56386},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1736, col: 9, offset: 55937},
+																					pos:   position{line: 1749, col: 9, offset: 56390},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1736, col: 14, offset: 55942},
+																						pos: position{line: 1749, col: 14, offset: 56395},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1736, col: 14, offset: 55942},
+																							pos: position{line: 1749, col: 14, offset: 56395},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1736, col: 14, offset: 55942},
+																								pos:        position{line: 1749, col: 14, offset: 56395},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37816,18 +38251,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1736, col: 62, offset: 55990},
+																					pos:        position{line: 1749, col: 62, offset: 56443},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91008},
+																					pos: position{line: 2890, col: 11, offset: 91461},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91008},
+																						pos: position{line: 2890, col: 11, offset: 91461},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91008},
+																							pos:        position{line: 2890, col: 11, offset: 91461},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37840,36 +38275,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1530, col: 5, offset: 49455},
+																	pos: position{line: 1543, col: 5, offset: 49908},
 																	expr: &seqExpr{
-																		pos: position{line: 1530, col: 7, offset: 49457},
+																		pos: position{line: 1543, col: 7, offset: 49910},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1682, col: 5, offset: 54415},
+																				pos: position{line: 1695, col: 5, offset: 54868},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1682, col: 5, offset: 54415},
+																					pos: position{line: 1695, col: 5, offset: 54868},
 																					expr: &seqExpr{
-																						pos: position{line: 1682, col: 6, offset: 54416},
+																						pos: position{line: 1695, col: 6, offset: 54869},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1682, col: 6, offset: 54416},
+																								pos: position{line: 1695, col: 6, offset: 54869},
 																								expr: &actionExpr{
-																									pos: position{line: 1687, col: 5, offset: 54566},
+																									pos: position{line: 1700, col: 5, offset: 55019},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1687, col: 5, offset: 54566},
+																										pos: position{line: 1700, col: 5, offset: 55019},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1687, col: 5, offset: 54566},
+																												pos:   position{line: 1700, col: 5, offset: 55019},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1687, col: 16, offset: 54577},
+																													pos: position{line: 1700, col: 16, offset: 55030},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1687, col: 16, offset: 54577},
+																														pos: position{line: 1700, col: 16, offset: 55030},
 																														expr: &litMatcher{
-																															pos:        position{line: 1687, col: 17, offset: 54578},
+																															pos:        position{line: 1700, col: 17, offset: 55031},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -37878,7 +38313,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1690, col: 5, offset: 54635},
+																												pos: position{line: 1703, col: 5, offset: 55088},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -37886,30 +38321,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1682, col: 35, offset: 54445},
+																								pos: position{line: 1695, col: 35, offset: 54898},
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91345},
+																									pos: position{line: 2908, col: 8, offset: 91798},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91118},
+																											pos: position{line: 2895, col: 12, offset: 91571},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91119},
+																												pos: position{line: 2895, col: 13, offset: 91572},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91119},
+																														pos:        position{line: 2895, col: 13, offset: 91572},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91126},
+																														pos:        position{line: 2895, col: 20, offset: 91579},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91135},
+																														pos:        position{line: 2895, col: 29, offset: 91588},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37918,37 +38353,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91295},
+																											pos: position{line: 2905, col: 8, offset: 91748},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91296,
+																												line: 2905, col: 9, offset: 91749,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1682, col: 40, offset: 54450,
+																								line: 1695, col: 40, offset: 54903,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1687, col: 5, offset: 54566},
+																				pos: position{line: 1700, col: 5, offset: 55019},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1687, col: 5, offset: 54566},
+																					pos: position{line: 1700, col: 5, offset: 55019},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1687, col: 5, offset: 54566},
+																							pos:   position{line: 1700, col: 5, offset: 55019},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1687, col: 16, offset: 54577},
+																								pos: position{line: 1700, col: 16, offset: 55030},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1687, col: 16, offset: 54577},
+																									pos: position{line: 1700, col: 16, offset: 55030},
 																									expr: &litMatcher{
-																										pos:        position{line: 1687, col: 17, offset: 54578},
+																										pos:        position{line: 1700, col: 17, offset: 55031},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37957,20 +38392,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1690, col: 5, offset: 54635},
+																							pos: position{line: 1703, col: 5, offset: 55088},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1530, col: 59, offset: 49509},
+																				pos: position{line: 1543, col: 59, offset: 49962},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90947},
+																						pos: position{line: 2886, col: 10, offset: 91400},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90947},
+																							pos:        position{line: 2886, col: 10, offset: 91400},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37978,25 +38413,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91118},
+																						pos: position{line: 2895, col: 12, offset: 91571},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91119},
+																							pos: position{line: 2895, col: 13, offset: 91572},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91119},
+																									pos:        position{line: 2895, col: 13, offset: 91572},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91126},
+																									pos:        position{line: 2895, col: 20, offset: 91579},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91135},
+																									pos:        position{line: 2895, col: 29, offset: 91588},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -38005,9 +38440,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91295},
+																						pos: position{line: 2905, col: 8, offset: 91748},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91296,
+																							line: 2905, col: 9, offset: 91749,
 																						},
 																					},
 																				},
@@ -38016,20 +38451,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1531, col: 5, offset: 49527},
+																	pos: position{line: 1544, col: 5, offset: 49980},
 																	expr: &choiceExpr{
-																		pos: position{line: 1531, col: 7, offset: 49529},
+																		pos: position{line: 1544, col: 7, offset: 49982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 731, col: 5, offset: 23253},
+																				pos: position{line: 744, col: 5, offset: 23706},
 																				run: (*parser).callonListContinuationElement1760,
 																				expr: &seqExpr{
-																					pos: position{line: 731, col: 5, offset: 23253},
+																					pos: position{line: 744, col: 5, offset: 23706},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 731, col: 5, offset: 23253},
+																							pos: position{line: 744, col: 5, offset: 23706},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2763, col: 13, offset: 88028},
+																								pos:        position{line: 2776, col: 13, offset: 88481},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -38037,36 +38472,36 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 732, col: 5, offset: 23283},
+																							pos:   position{line: 745, col: 5, offset: 23736},
 																							label: "delimiter",
 																							expr: &choiceExpr{
-																								pos: position{line: 733, col: 9, offset: 23303},
+																								pos: position{line: 746, col: 9, offset: 23756},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 747, col: 5, offset: 23795},
+																										pos: position{line: 760, col: 5, offset: 24248},
 																										run: (*parser).callonListContinuationElement1766,
 																										expr: &seqExpr{
-																											pos: position{line: 747, col: 5, offset: 23795},
+																											pos: position{line: 760, col: 5, offset: 24248},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 747, col: 5, offset: 23795},
+																													pos:   position{line: 760, col: 5, offset: 24248},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 747, col: 16, offset: 23806},
+																														pos: position{line: 760, col: 16, offset: 24259},
 																														run: (*parser).callonListContinuationElement1769,
 																														expr: &seqExpr{
-																															pos: position{line: 747, col: 16, offset: 23806},
+																															pos: position{line: 760, col: 16, offset: 24259},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 747, col: 16, offset: 23806},
+																																	pos:        position{line: 760, col: 16, offset: 24259},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 747, col: 23, offset: 23813},
+																																	pos: position{line: 760, col: 23, offset: 24266},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 747, col: 23, offset: 23813},
+																																		pos:        position{line: 760, col: 23, offset: 24266},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -38077,12 +38512,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 749, col: 8, offset: 23897},
+																													pos: position{line: 762, col: 8, offset: 24350},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38091,28 +38526,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38121,9 +38556,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38132,30 +38567,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 754, col: 5, offset: 24043},
+																										pos: position{line: 767, col: 5, offset: 24496},
 																										run: (*parser).callonListContinuationElement1785,
 																										expr: &seqExpr{
-																											pos: position{line: 754, col: 5, offset: 24043},
+																											pos: position{line: 767, col: 5, offset: 24496},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 754, col: 5, offset: 24043},
+																													pos:   position{line: 767, col: 5, offset: 24496},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 754, col: 16, offset: 24054},
+																														pos: position{line: 767, col: 16, offset: 24507},
 																														run: (*parser).callonListContinuationElement1788,
 																														expr: &seqExpr{
-																															pos: position{line: 754, col: 16, offset: 24054},
+																															pos: position{line: 767, col: 16, offset: 24507},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 754, col: 16, offset: 24054},
+																																	pos:        position{line: 767, col: 16, offset: 24507},
 																																	val:        "====",
 																																	ignoreCase: false,
 																																	want:       "\"====\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 754, col: 23, offset: 24061},
+																																	pos: position{line: 767, col: 23, offset: 24514},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 754, col: 23, offset: 24061},
+																																		pos:        position{line: 767, col: 23, offset: 24514},
 																																		val:        "=",
 																																		ignoreCase: false,
 																																		want:       "\"=\"",
@@ -38166,12 +38601,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 756, col: 8, offset: 24145},
+																													pos: position{line: 769, col: 8, offset: 24598},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38180,28 +38615,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38210,9 +38645,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38221,27 +38656,27 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 767, col: 26, offset: 24531},
+																										pos: position{line: 780, col: 26, offset: 24984},
 																										run: (*parser).callonListContinuationElement1804,
 																										expr: &seqExpr{
-																											pos: position{line: 767, col: 26, offset: 24531},
+																											pos: position{line: 780, col: 26, offset: 24984},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 767, col: 26, offset: 24531},
+																													pos:        position{line: 780, col: 26, offset: 24984},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 767, col: 32, offset: 24537},
+																													pos:   position{line: 780, col: 32, offset: 24990},
 																													label: "language",
 																													expr: &actionExpr{
-																														pos: position{line: 771, col: 13, offset: 24667},
+																														pos: position{line: 784, col: 13, offset: 25120},
 																														run: (*parser).callonListContinuationElement1808,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 771, col: 14, offset: 24668},
+																															pos: position{line: 784, col: 14, offset: 25121},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 771, col: 14, offset: 24668},
+																																pos:        position{line: 784, col: 14, offset: 25121},
 																																val:        "[^\\r\\n` ]",
 																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
@@ -38251,12 +38686,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 767, col: 52, offset: 24557},
+																													pos: position{line: 780, col: 52, offset: 25010},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38265,28 +38700,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38295,9 +38730,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38306,30 +38741,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 761, col: 5, offset: 24290},
+																										pos: position{line: 774, col: 5, offset: 24743},
 																										run: (*parser).callonListContinuationElement1822,
 																										expr: &seqExpr{
-																											pos: position{line: 761, col: 5, offset: 24290},
+																											pos: position{line: 774, col: 5, offset: 24743},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 761, col: 5, offset: 24290},
+																													pos:   position{line: 774, col: 5, offset: 24743},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 761, col: 16, offset: 24301},
+																														pos: position{line: 774, col: 16, offset: 24754},
 																														run: (*parser).callonListContinuationElement1825,
 																														expr: &seqExpr{
-																															pos: position{line: 761, col: 16, offset: 24301},
+																															pos: position{line: 774, col: 16, offset: 24754},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 761, col: 16, offset: 24301},
+																																	pos:        position{line: 774, col: 16, offset: 24754},
 																																	val:        "```",
 																																	ignoreCase: false,
 																																	want:       "\"```\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 761, col: 22, offset: 24307},
+																																	pos: position{line: 774, col: 22, offset: 24760},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 761, col: 22, offset: 24307},
+																																		pos:        position{line: 774, col: 22, offset: 24760},
 																																		val:        "`",
 																																		ignoreCase: false,
 																																		want:       "\"`\"",
@@ -38340,12 +38775,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 763, col: 8, offset: 24391},
+																													pos: position{line: 776, col: 8, offset: 24844},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38354,28 +38789,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38384,9 +38819,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38395,30 +38830,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 776, col: 5, offset: 24827},
+																										pos: position{line: 789, col: 5, offset: 25280},
 																										run: (*parser).callonListContinuationElement1841,
 																										expr: &seqExpr{
-																											pos: position{line: 776, col: 5, offset: 24827},
+																											pos: position{line: 789, col: 5, offset: 25280},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 776, col: 5, offset: 24827},
+																													pos:   position{line: 789, col: 5, offset: 25280},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 776, col: 16, offset: 24838},
+																														pos: position{line: 789, col: 16, offset: 25291},
 																														run: (*parser).callonListContinuationElement1844,
 																														expr: &seqExpr{
-																															pos: position{line: 776, col: 16, offset: 24838},
+																															pos: position{line: 789, col: 16, offset: 25291},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 776, col: 16, offset: 24838},
+																																	pos:        position{line: 789, col: 16, offset: 25291},
 																																	val:        "----",
 																																	ignoreCase: false,
 																																	want:       "\"----\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 776, col: 23, offset: 24845},
+																																	pos: position{line: 789, col: 23, offset: 25298},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 776, col: 23, offset: 24845},
+																																		pos:        position{line: 789, col: 23, offset: 25298},
 																																		val:        "-",
 																																		ignoreCase: false,
 																																		want:       "\"-\"",
@@ -38429,12 +38864,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 778, col: 8, offset: 24929},
+																													pos: position{line: 791, col: 8, offset: 25382},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38443,28 +38878,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38473,9 +38908,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38484,30 +38919,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 790, col: 5, offset: 25303},
+																										pos: position{line: 803, col: 5, offset: 25756},
 																										run: (*parser).callonListContinuationElement1860,
 																										expr: &seqExpr{
-																											pos: position{line: 790, col: 5, offset: 25303},
+																											pos: position{line: 803, col: 5, offset: 25756},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 790, col: 5, offset: 25303},
+																													pos:   position{line: 803, col: 5, offset: 25756},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 790, col: 16, offset: 25314},
+																														pos: position{line: 803, col: 16, offset: 25767},
 																														run: (*parser).callonListContinuationElement1863,
 																														expr: &seqExpr{
-																															pos: position{line: 790, col: 16, offset: 25314},
+																															pos: position{line: 803, col: 16, offset: 25767},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 790, col: 16, offset: 25314},
+																																	pos:        position{line: 803, col: 16, offset: 25767},
 																																	val:        "....",
 																																	ignoreCase: false,
 																																	want:       "\"....\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 790, col: 23, offset: 25321},
+																																	pos: position{line: 803, col: 23, offset: 25774},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 790, col: 23, offset: 25321},
+																																		pos:        position{line: 803, col: 23, offset: 25774},
 																																		val:        ".",
 																																		ignoreCase: false,
 																																		want:       "\".\"",
@@ -38518,12 +38953,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 792, col: 8, offset: 25405},
+																													pos: position{line: 805, col: 8, offset: 25858},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38532,28 +38967,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38562,9 +38997,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38573,30 +39008,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 797, col: 5, offset: 25555},
+																										pos: position{line: 810, col: 5, offset: 26008},
 																										run: (*parser).callonListContinuationElement1879,
 																										expr: &seqExpr{
-																											pos: position{line: 797, col: 5, offset: 25555},
+																											pos: position{line: 810, col: 5, offset: 26008},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 797, col: 5, offset: 25555},
+																													pos:   position{line: 810, col: 5, offset: 26008},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 797, col: 16, offset: 25566},
+																														pos: position{line: 810, col: 16, offset: 26019},
 																														run: (*parser).callonListContinuationElement1882,
 																														expr: &seqExpr{
-																															pos: position{line: 797, col: 16, offset: 25566},
+																															pos: position{line: 810, col: 16, offset: 26019},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 797, col: 16, offset: 25566},
+																																	pos:        position{line: 810, col: 16, offset: 26019},
 																																	val:        "++++",
 																																	ignoreCase: false,
 																																	want:       "\"++++\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 797, col: 23, offset: 25573},
+																																	pos: position{line: 810, col: 23, offset: 26026},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 797, col: 23, offset: 25573},
+																																		pos:        position{line: 810, col: 23, offset: 26026},
 																																		val:        "+",
 																																		ignoreCase: false,
 																																		want:       "\"+\"",
@@ -38607,12 +39042,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 799, col: 8, offset: 25657},
+																													pos: position{line: 812, col: 8, offset: 26110},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38621,28 +39056,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38651,9 +39086,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38662,30 +39097,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 804, col: 5, offset: 25805},
+																										pos: position{line: 817, col: 5, offset: 26258},
 																										run: (*parser).callonListContinuationElement1898,
 																										expr: &seqExpr{
-																											pos: position{line: 804, col: 5, offset: 25805},
+																											pos: position{line: 817, col: 5, offset: 26258},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 804, col: 5, offset: 25805},
+																													pos:   position{line: 817, col: 5, offset: 26258},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 804, col: 16, offset: 25816},
+																														pos: position{line: 817, col: 16, offset: 26269},
 																														run: (*parser).callonListContinuationElement1901,
 																														expr: &seqExpr{
-																															pos: position{line: 804, col: 16, offset: 25816},
+																															pos: position{line: 817, col: 16, offset: 26269},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 804, col: 16, offset: 25816},
+																																	pos:        position{line: 817, col: 16, offset: 26269},
 																																	val:        "____",
 																																	ignoreCase: false,
 																																	want:       "\"____\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 804, col: 23, offset: 25823},
+																																	pos: position{line: 817, col: 23, offset: 26276},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 804, col: 23, offset: 25823},
+																																		pos:        position{line: 817, col: 23, offset: 26276},
 																																		val:        "_",
 																																		ignoreCase: false,
 																																		want:       "\"_\"",
@@ -38696,12 +39131,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 806, col: 8, offset: 25907},
+																													pos: position{line: 819, col: 8, offset: 26360},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38710,28 +39145,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38740,9 +39175,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38751,30 +39186,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 811, col: 5, offset: 26051},
+																										pos: position{line: 824, col: 5, offset: 26504},
 																										run: (*parser).callonListContinuationElement1917,
 																										expr: &seqExpr{
-																											pos: position{line: 811, col: 5, offset: 26051},
+																											pos: position{line: 824, col: 5, offset: 26504},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 811, col: 5, offset: 26051},
+																													pos:   position{line: 824, col: 5, offset: 26504},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 811, col: 16, offset: 26062},
+																														pos: position{line: 824, col: 16, offset: 26515},
 																														run: (*parser).callonListContinuationElement1920,
 																														expr: &seqExpr{
-																															pos: position{line: 811, col: 16, offset: 26062},
+																															pos: position{line: 824, col: 16, offset: 26515},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 811, col: 16, offset: 26062},
+																																	pos:        position{line: 824, col: 16, offset: 26515},
 																																	val:        "****",
 																																	ignoreCase: false,
 																																	want:       "\"****\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 811, col: 23, offset: 26069},
+																																	pos: position{line: 824, col: 23, offset: 26522},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 811, col: 23, offset: 26069},
+																																		pos:        position{line: 824, col: 23, offset: 26522},
 																																		val:        "*",
 																																		ignoreCase: false,
 																																		want:       "\"*\"",
@@ -38785,12 +39220,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 813, col: 8, offset: 26153},
+																													pos: position{line: 826, col: 8, offset: 26606},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90947},
+																														pos: position{line: 2886, col: 10, offset: 91400},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90947},
+																															pos:        position{line: 2886, col: 10, offset: 91400},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38799,28 +39234,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91345},
+																													pos: position{line: 2908, col: 8, offset: 91798},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91118},
+																															pos: position{line: 2895, col: 12, offset: 91571},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91119},
+																																pos: position{line: 2895, col: 13, offset: 91572},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91119},
+																																		pos:        position{line: 2895, col: 13, offset: 91572},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91126},
+																																		pos:        position{line: 2895, col: 20, offset: 91579},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91135},
+																																		pos:        position{line: 2895, col: 29, offset: 91588},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38829,9 +39264,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91295},
+																															pos: position{line: 2905, col: 8, offset: 91748},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91296,
+																																line: 2905, col: 9, offset: 91749,
 																															},
 																														},
 																													},
@@ -38846,19 +39281,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25072},
+																				pos: position{line: 796, col: 5, offset: 25525},
 																				run: (*parser).callonListContinuationElement1936,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25072},
+																					pos: position{line: 796, col: 5, offset: 25525},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25072},
+																							pos:   position{line: 796, col: 5, offset: 25525},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25083},
+																								pos: position{line: 796, col: 16, offset: 25536},
 																								run: (*parser).callonListContinuationElement1939,
 																								expr: &litMatcher{
-																									pos:        position{line: 783, col: 16, offset: 25083},
+																									pos:        position{line: 796, col: 16, offset: 25536},
 																									val:        "--",
 																									ignoreCase: false,
 																									want:       "\"--\"",
@@ -38866,12 +39301,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25160},
+																							pos: position{line: 798, col: 8, offset: 25613},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90947},
+																								pos: position{line: 2886, col: 10, offset: 91400},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90947},
+																									pos:        position{line: 2886, col: 10, offset: 91400},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38880,28 +39315,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91345},
+																							pos: position{line: 2908, col: 8, offset: 91798},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91118},
+																									pos: position{line: 2895, col: 12, offset: 91571},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91119},
+																										pos: position{line: 2895, col: 13, offset: 91572},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91119},
+																												pos:        position{line: 2895, col: 13, offset: 91572},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91126},
+																												pos:        position{line: 2895, col: 20, offset: 91579},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91135},
+																												pos:        position{line: 2895, col: 29, offset: 91588},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -38910,9 +39345,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91295},
+																									pos: position{line: 2905, col: 8, offset: 91748},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91296,
+																										line: 2905, col: 9, offset: 91749,
 																									},
 																								},
 																							},
@@ -38921,21 +39356,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2615, col: 19, offset: 83616},
+																				pos: position{line: 2628, col: 19, offset: 84069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2615, col: 19, offset: 83616},
+																						pos:        position{line: 2628, col: 19, offset: 84069},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2615, col: 26, offset: 83623},
+																						pos: position{line: 2628, col: 26, offset: 84076},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38944,28 +39379,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91345},
+																						pos: position{line: 2908, col: 8, offset: 91798},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91118},
+																								pos: position{line: 2895, col: 12, offset: 91571},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91119},
+																									pos: position{line: 2895, col: 13, offset: 91572},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91119},
+																											pos:        position{line: 2895, col: 13, offset: 91572},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91126},
+																											pos:        position{line: 2895, col: 20, offset: 91579},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91135},
+																											pos:        position{line: 2895, col: 29, offset: 91588},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38974,9 +39409,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91295},
+																								pos: position{line: 2905, col: 8, offset: 91748},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91296,
+																									line: 2905, col: 9, offset: 91749,
 																								},
 																							},
 																						},
@@ -38987,15 +39422,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1532, col: 5, offset: 49587},
+																	pos:   position{line: 1545, col: 5, offset: 50040},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89540},
+																		pos: position{line: 2836, col: 14, offset: 89993},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89540},
+																			pos: position{line: 2836, col: 14, offset: 89993},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89540},
+																				pos:        position{line: 2836, col: 14, offset: 89993},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39005,28 +39440,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39035,9 +39470,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -39058,33 +39493,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1720, col: 1, offset: 55427},
+			pos:  position{line: 1733, col: 1, offset: 55880},
 			expr: &actionExpr{
-				pos: position{line: 1722, col: 5, offset: 55505},
+				pos: position{line: 1735, col: 5, offset: 55958},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1722, col: 5, offset: 55505},
+					pos: position{line: 1735, col: 5, offset: 55958},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1722, col: 5, offset: 55505},
+							pos: position{line: 1735, col: 5, offset: 55958},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 5, offset: 55572},
+							pos:        position{line: 1738, col: 5, offset: 56025},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1725, col: 9, offset: 55576},
+							pos:   position{line: 1738, col: 9, offset: 56029},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1725, col: 14, offset: 55581},
+								pos: position{line: 1738, col: 14, offset: 56034},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1725, col: 14, offset: 55581},
+									pos: position{line: 1738, col: 14, offset: 56034},
 									expr: &charClassMatcher{
-										pos:        position{line: 1725, col: 14, offset: 55581},
+										pos:        position{line: 1738, col: 14, offset: 56034},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39094,18 +39529,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1725, col: 62, offset: 55629},
+							pos:        position{line: 1738, col: 62, offset: 56082},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1725, col: 66, offset: 55633},
+							pos: position{line: 1738, col: 66, offset: 56086},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39114,30 +39549,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1725, col: 73, offset: 55640},
+							pos: position{line: 1738, col: 73, offset: 56093},
 							expr: &choiceExpr{
-								pos: position{line: 1725, col: 75, offset: 55642},
+								pos: position{line: 1738, col: 75, offset: 56095},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91118},
+										pos: position{line: 2895, col: 12, offset: 91571},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91119},
+											pos: position{line: 2895, col: 13, offset: 91572},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91119},
+													pos:        position{line: 2895, col: 13, offset: 91572},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91126},
+													pos:        position{line: 2895, col: 20, offset: 91579},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91135},
+													pos:        position{line: 2895, col: 29, offset: 91588},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39146,13 +39581,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91295},
+										pos: position{line: 2905, col: 8, offset: 91748},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91296,
+											line: 2905, col: 9, offset: 91749,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1725, col: 81, offset: 55648},
+										pos:  position{line: 1738, col: 81, offset: 56101},
 										name: "Callout",
 									},
 								},
@@ -39164,44 +39599,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1764, col: 1, offset: 56835},
+			pos:  position{line: 1777, col: 1, offset: 57288},
 			expr: &actionExpr{
-				pos: position{line: 1766, col: 5, offset: 56909},
+				pos: position{line: 1779, col: 5, offset: 57362},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1766, col: 5, offset: 56909},
+					pos: position{line: 1779, col: 5, offset: 57362},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1766, col: 5, offset: 56909},
+							pos: position{line: 1779, col: 5, offset: 57362},
 							expr: &seqExpr{
-								pos: position{line: 1766, col: 7, offset: 56911},
+								pos: position{line: 1779, col: 7, offset: 57364},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2763, col: 13, offset: 88028},
+										pos:        position{line: 2776, col: 13, offset: 88481},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1766, col: 16, offset: 56920},
+										pos: position{line: 1779, col: 16, offset: 57373},
 										expr: &seqExpr{
-											pos: position{line: 1766, col: 18, offset: 56922},
+											pos: position{line: 1779, col: 18, offset: 57375},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1766, col: 19, offset: 56923},
+													pos:        position{line: 1779, col: 19, offset: 57376},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 91008},
+													pos: position{line: 2890, col: 11, offset: 91461},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 91008},
+														pos: position{line: 2890, col: 11, offset: 91461},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 91008},
+															pos:        position{line: 2890, col: 11, offset: 91461},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39216,88 +39651,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57063},
+							pos:   position{line: 1780, col: 5, offset: 57516},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1767, col: 11, offset: 57069},
+								pos: position{line: 1780, col: 11, offset: 57522},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56318},
+									pos: position{line: 1758, col: 5, offset: 56771},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56318},
+										pos: position{line: 1758, col: 5, offset: 56771},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56318},
+												pos: position{line: 1758, col: 5, offset: 56771},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56381},
+												pos:   position{line: 1761, col: 5, offset: 56834},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56388},
+													pos: position{line: 1761, col: 12, offset: 56841},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56388},
+															pos: position{line: 1761, col: 12, offset: 56841},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56388},
+																pos:        position{line: 1761, col: 12, offset: 56841},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56444},
+															pos: position{line: 1763, col: 13, offset: 56897},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56444},
+																pos:        position{line: 1763, col: 13, offset: 56897},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56502},
+															pos: position{line: 1765, col: 13, offset: 56955},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56502},
+																pos:        position{line: 1765, col: 13, offset: 56955},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56570},
+															pos: position{line: 1767, col: 13, offset: 57023},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56570},
+																pos:        position{line: 1767, col: 13, offset: 57023},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56634},
+															pos: position{line: 1769, col: 13, offset: 57087},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56634},
+																pos:        position{line: 1769, col: 13, offset: 57087},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56698},
+															pos: position{line: 1771, col: 13, offset: 57151},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56698},
+																pos: position{line: 1771, col: 13, offset: 57151},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39311,17 +39746,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 12, offset: 56778},
+												pos: position{line: 1773, col: 12, offset: 57231},
 												expr: &seqExpr{
-													pos: position{line: 1760, col: 14, offset: 56780},
+													pos: position{line: 1773, col: 14, offset: 57233},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1760, col: 14, offset: 56780},
+															pos: position{line: 1773, col: 14, offset: 57233},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39330,28 +39765,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91345},
+															pos: position{line: 2908, col: 8, offset: 91798},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91118},
+																	pos: position{line: 2895, col: 12, offset: 91571},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91119},
+																		pos: position{line: 2895, col: 13, offset: 91572},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91119},
+																				pos:        position{line: 2895, col: 13, offset: 91572},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91126},
+																				pos:        position{line: 2895, col: 20, offset: 91579},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91135},
+																				pos:        position{line: 2895, col: 29, offset: 91588},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39360,9 +39795,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -39376,24 +39811,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57091},
+							pos:   position{line: 1781, col: 5, offset: 57544},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1805, col: 5, offset: 58302},
+								pos: position{line: 1818, col: 5, offset: 58755},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1805, col: 5, offset: 58302},
+									pos: position{line: 1818, col: 5, offset: 58755},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1805, col: 5, offset: 58302},
+											pos:   position{line: 1818, col: 5, offset: 58755},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89540},
+												pos: position{line: 2836, col: 14, offset: 89993},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89540},
+													pos: position{line: 2836, col: 14, offset: 89993},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89540},
+														pos:        position{line: 2836, col: 14, offset: 89993},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39403,32 +39838,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1806, col: 5, offset: 58326},
+											pos: position{line: 1819, col: 5, offset: 58779},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91345},
+											pos: position{line: 2908, col: 8, offset: 91798},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91118},
+													pos: position{line: 2895, col: 12, offset: 91571},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91119},
+														pos: position{line: 2895, col: 13, offset: 91572},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91119},
+																pos:        position{line: 2895, col: 13, offset: 91572},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91126},
+																pos:        position{line: 2895, col: 20, offset: 91579},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91135},
+																pos:        position{line: 2895, col: 29, offset: 91588},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39437,9 +39872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -39449,47 +39884,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1769, col: 5, offset: 57125},
+							pos: position{line: 1782, col: 5, offset: 57578},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1776, col: 5, offset: 57455},
+							pos:   position{line: 1789, col: 5, offset: 57908},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1776, col: 16, offset: 57466},
+								pos: position{line: 1789, col: 16, offset: 57919},
 								expr: &actionExpr{
-									pos: position{line: 1777, col: 9, offset: 57476},
+									pos: position{line: 1790, col: 9, offset: 57929},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1777, col: 9, offset: 57476},
+										pos: position{line: 1790, col: 9, offset: 57929},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91281},
+												pos: position{line: 2903, col: 11, offset: 91734},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91283,
+													line: 2903, col: 13, offset: 91736,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 9, offset: 57492},
+												pos: position{line: 1791, col: 9, offset: 57945},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39498,28 +39933,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39528,9 +39963,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -39540,27 +39975,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 9, offset: 57511},
+												pos: position{line: 1792, col: 9, offset: 57964},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1779, col: 10, offset: 57512},
+													pos:  position{line: 1792, col: 10, offset: 57965},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1780, col: 9, offset: 57536},
+												pos: position{line: 1793, col: 9, offset: 57989},
 												expr: &choiceExpr{
-													pos: position{line: 1780, col: 11, offset: 57538},
+													pos: position{line: 1793, col: 11, offset: 57991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 731, col: 5, offset: 23253},
+															pos: position{line: 744, col: 5, offset: 23706},
 															run: (*parser).callonShortcutParagraph90,
 															expr: &seqExpr{
-																pos: position{line: 731, col: 5, offset: 23253},
+																pos: position{line: 744, col: 5, offset: 23706},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 731, col: 5, offset: 23253},
+																		pos: position{line: 744, col: 5, offset: 23706},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2763, col: 13, offset: 88028},
+																			pos:        position{line: 2776, col: 13, offset: 88481},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -39568,36 +40003,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 732, col: 5, offset: 23283},
+																		pos:   position{line: 745, col: 5, offset: 23736},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 733, col: 9, offset: 23303},
+																			pos: position{line: 746, col: 9, offset: 23756},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23795},
+																					pos: position{line: 760, col: 5, offset: 24248},
 																					run: (*parser).callonShortcutParagraph96,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23795},
+																						pos: position{line: 760, col: 5, offset: 24248},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23795},
+																								pos:   position{line: 760, col: 5, offset: 24248},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23806},
+																									pos: position{line: 760, col: 16, offset: 24259},
 																									run: (*parser).callonShortcutParagraph99,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23806},
+																										pos: position{line: 760, col: 16, offset: 24259},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23806},
+																												pos:        position{line: 760, col: 16, offset: 24259},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23813},
+																												pos: position{line: 760, col: 23, offset: 24266},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23813},
+																													pos:        position{line: 760, col: 23, offset: 24266},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -39608,12 +40043,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23897},
+																								pos: position{line: 762, col: 8, offset: 24350},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39622,28 +40057,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39652,9 +40087,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -39663,30 +40098,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24043},
+																					pos: position{line: 767, col: 5, offset: 24496},
 																					run: (*parser).callonShortcutParagraph115,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24043},
+																						pos: position{line: 767, col: 5, offset: 24496},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24043},
+																								pos:   position{line: 767, col: 5, offset: 24496},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24054},
+																									pos: position{line: 767, col: 16, offset: 24507},
 																									run: (*parser).callonShortcutParagraph118,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24054},
+																										pos: position{line: 767, col: 16, offset: 24507},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24054},
+																												pos:        position{line: 767, col: 16, offset: 24507},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 23, offset: 24061},
+																												pos: position{line: 767, col: 23, offset: 24514},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 23, offset: 24061},
+																													pos:        position{line: 767, col: 23, offset: 24514},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -39697,12 +40132,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24145},
+																								pos: position{line: 769, col: 8, offset: 24598},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39711,28 +40146,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39741,9 +40176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -39752,27 +40187,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 767, col: 26, offset: 24531},
+																					pos: position{line: 780, col: 26, offset: 24984},
 																					run: (*parser).callonShortcutParagraph134,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 26, offset: 24531},
+																						pos: position{line: 780, col: 26, offset: 24984},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 767, col: 26, offset: 24531},
+																								pos:        position{line: 780, col: 26, offset: 24984},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 32, offset: 24537},
+																								pos:   position{line: 780, col: 32, offset: 24990},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 771, col: 13, offset: 24667},
+																									pos: position{line: 784, col: 13, offset: 25120},
 																									run: (*parser).callonShortcutParagraph138,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 771, col: 14, offset: 24668},
+																										pos: position{line: 784, col: 14, offset: 25121},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 771, col: 14, offset: 24668},
+																											pos:        position{line: 784, col: 14, offset: 25121},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -39782,12 +40217,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 52, offset: 24557},
+																								pos: position{line: 780, col: 52, offset: 25010},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39796,28 +40231,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39826,9 +40261,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -39837,30 +40272,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 761, col: 5, offset: 24290},
+																					pos: position{line: 774, col: 5, offset: 24743},
 																					run: (*parser).callonShortcutParagraph152,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 5, offset: 24290},
+																						pos: position{line: 774, col: 5, offset: 24743},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 5, offset: 24290},
+																								pos:   position{line: 774, col: 5, offset: 24743},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 16, offset: 24301},
+																									pos: position{line: 774, col: 16, offset: 24754},
 																									run: (*parser).callonShortcutParagraph155,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 16, offset: 24301},
+																										pos: position{line: 774, col: 16, offset: 24754},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 761, col: 16, offset: 24301},
+																												pos:        position{line: 774, col: 16, offset: 24754},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 761, col: 22, offset: 24307},
+																												pos: position{line: 774, col: 22, offset: 24760},
 																												expr: &litMatcher{
-																													pos:        position{line: 761, col: 22, offset: 24307},
+																													pos:        position{line: 774, col: 22, offset: 24760},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -39871,12 +40306,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 763, col: 8, offset: 24391},
+																								pos: position{line: 776, col: 8, offset: 24844},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39885,28 +40320,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -39915,9 +40350,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -39926,30 +40361,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24827},
+																					pos: position{line: 789, col: 5, offset: 25280},
 																					run: (*parser).callonShortcutParagraph171,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24827},
+																						pos: position{line: 789, col: 5, offset: 25280},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24827},
+																								pos:   position{line: 789, col: 5, offset: 25280},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24838},
+																									pos: position{line: 789, col: 16, offset: 25291},
 																									run: (*parser).callonShortcutParagraph174,
 																									expr: &seqExpr{
-																										pos: position{line: 776, col: 16, offset: 24838},
+																										pos: position{line: 789, col: 16, offset: 25291},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 776, col: 16, offset: 24838},
+																												pos:        position{line: 789, col: 16, offset: 25291},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 776, col: 23, offset: 24845},
+																												pos: position{line: 789, col: 23, offset: 25298},
 																												expr: &litMatcher{
-																													pos:        position{line: 776, col: 23, offset: 24845},
+																													pos:        position{line: 789, col: 23, offset: 25298},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -39960,12 +40395,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24929},
+																								pos: position{line: 791, col: 8, offset: 25382},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -39974,28 +40409,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40004,9 +40439,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -40015,30 +40450,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25303},
+																					pos: position{line: 803, col: 5, offset: 25756},
 																					run: (*parser).callonShortcutParagraph190,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25303},
+																						pos: position{line: 803, col: 5, offset: 25756},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25303},
+																								pos:   position{line: 803, col: 5, offset: 25756},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25314},
+																									pos: position{line: 803, col: 16, offset: 25767},
 																									run: (*parser).callonShortcutParagraph193,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25314},
+																										pos: position{line: 803, col: 16, offset: 25767},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25314},
+																												pos:        position{line: 803, col: 16, offset: 25767},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25321},
+																												pos: position{line: 803, col: 23, offset: 25774},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25321},
+																													pos:        position{line: 803, col: 23, offset: 25774},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -40049,12 +40484,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25405},
+																								pos: position{line: 805, col: 8, offset: 25858},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40063,28 +40498,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40093,9 +40528,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -40104,30 +40539,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25555},
+																					pos: position{line: 810, col: 5, offset: 26008},
 																					run: (*parser).callonShortcutParagraph209,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25555},
+																						pos: position{line: 810, col: 5, offset: 26008},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25555},
+																								pos:   position{line: 810, col: 5, offset: 26008},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25566},
+																									pos: position{line: 810, col: 16, offset: 26019},
 																									run: (*parser).callonShortcutParagraph212,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25566},
+																										pos: position{line: 810, col: 16, offset: 26019},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25566},
+																												pos:        position{line: 810, col: 16, offset: 26019},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25573},
+																												pos: position{line: 810, col: 23, offset: 26026},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25573},
+																													pos:        position{line: 810, col: 23, offset: 26026},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -40138,12 +40573,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25657},
+																								pos: position{line: 812, col: 8, offset: 26110},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40152,28 +40587,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40182,9 +40617,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -40193,30 +40628,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25805},
+																					pos: position{line: 817, col: 5, offset: 26258},
 																					run: (*parser).callonShortcutParagraph228,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25805},
+																						pos: position{line: 817, col: 5, offset: 26258},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25805},
+																								pos:   position{line: 817, col: 5, offset: 26258},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25816},
+																									pos: position{line: 817, col: 16, offset: 26269},
 																									run: (*parser).callonShortcutParagraph231,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25816},
+																										pos: position{line: 817, col: 16, offset: 26269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25816},
+																												pos:        position{line: 817, col: 16, offset: 26269},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25823},
+																												pos: position{line: 817, col: 23, offset: 26276},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25823},
+																													pos:        position{line: 817, col: 23, offset: 26276},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -40227,12 +40662,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25907},
+																								pos: position{line: 819, col: 8, offset: 26360},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40241,28 +40676,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40271,9 +40706,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -40282,30 +40717,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 811, col: 5, offset: 26051},
+																					pos: position{line: 824, col: 5, offset: 26504},
 																					run: (*parser).callonShortcutParagraph247,
 																					expr: &seqExpr{
-																						pos: position{line: 811, col: 5, offset: 26051},
+																						pos: position{line: 824, col: 5, offset: 26504},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 811, col: 5, offset: 26051},
+																								pos:   position{line: 824, col: 5, offset: 26504},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 16, offset: 26062},
+																									pos: position{line: 824, col: 16, offset: 26515},
 																									run: (*parser).callonShortcutParagraph250,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 16, offset: 26062},
+																										pos: position{line: 824, col: 16, offset: 26515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 811, col: 16, offset: 26062},
+																												pos:        position{line: 824, col: 16, offset: 26515},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 811, col: 23, offset: 26069},
+																												pos: position{line: 824, col: 23, offset: 26522},
 																												expr: &litMatcher{
-																													pos:        position{line: 811, col: 23, offset: 26069},
+																													pos:        position{line: 824, col: 23, offset: 26522},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -40316,12 +40751,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 813, col: 8, offset: 26153},
+																								pos: position{line: 826, col: 8, offset: 26606},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40330,28 +40765,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40360,9 +40795,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -40377,19 +40812,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 783, col: 5, offset: 25072},
+															pos: position{line: 796, col: 5, offset: 25525},
 															run: (*parser).callonShortcutParagraph266,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25072},
+																pos: position{line: 796, col: 5, offset: 25525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25072},
+																		pos:   position{line: 796, col: 5, offset: 25525},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25083},
+																			pos: position{line: 796, col: 16, offset: 25536},
 																			run: (*parser).callonShortcutParagraph269,
 																			expr: &litMatcher{
-																				pos:        position{line: 783, col: 16, offset: 25083},
+																				pos:        position{line: 796, col: 16, offset: 25536},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -40397,12 +40832,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25160},
+																		pos: position{line: 798, col: 8, offset: 25613},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40411,28 +40846,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40441,9 +40876,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -40452,21 +40887,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83616},
+															pos: position{line: 2628, col: 19, offset: 84069},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83616},
+																	pos:        position{line: 2628, col: 19, offset: 84069},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83623},
+																	pos: position{line: 2628, col: 26, offset: 84076},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40475,28 +40910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40505,9 +40940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -40518,23 +40953,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57600},
+												pos: position{line: 1794, col: 9, offset: 58053},
 												expr: &seqExpr{
-													pos: position{line: 1556, col: 27, offset: 50240},
+													pos: position{line: 1569, col: 27, offset: 50693},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1556, col: 27, offset: 50240},
+															pos:        position{line: 1569, col: 27, offset: 50693},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1556, col: 31, offset: 50244},
+															pos: position{line: 1569, col: 31, offset: 50697},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40543,25 +40978,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40573,42 +41008,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1782, col: 9, offset: 57632},
+												pos:   position{line: 1795, col: 9, offset: 58085},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1782, col: 15, offset: 57638},
+													pos: position{line: 1795, col: 15, offset: 58091},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79918},
+															pos: position{line: 2496, col: 22, offset: 80371},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79918},
+																pos: position{line: 2496, col: 22, offset: 80371},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80139},
+																		pos:        position{line: 2501, col: 31, offset: 80592},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80144},
+																		pos: position{line: 2501, col: 36, offset: 80597},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80145},
+																			pos:        position{line: 2501, col: 37, offset: 80598},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79945},
+																		pos:   position{line: 2496, col: 49, offset: 80398},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89473},
+																			pos: position{line: 2832, col: 13, offset: 89926},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89473},
+																				pos: position{line: 2832, col: 13, offset: 89926},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89473},
+																					pos:        position{line: 2832, col: 13, offset: 89926},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40618,28 +41053,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40648,9 +41083,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -40659,21 +41094,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1805, col: 5, offset: 58302},
+															pos: position{line: 1818, col: 5, offset: 58755},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1805, col: 5, offset: 58302},
+																pos: position{line: 1818, col: 5, offset: 58755},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1805, col: 5, offset: 58302},
+																		pos:   position{line: 1818, col: 5, offset: 58755},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89540},
+																			pos: position{line: 2836, col: 14, offset: 89993},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89540},
+																				pos: position{line: 2836, col: 14, offset: 89993},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89540},
+																					pos:        position{line: 2836, col: 14, offset: 89993},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40683,32 +41118,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1806, col: 5, offset: 58326},
+																		pos: position{line: 1819, col: 5, offset: 58779},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40717,9 +41152,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -40741,96 +41176,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1789, col: 1, offset: 57842},
+			pos:  position{line: 1802, col: 1, offset: 58295},
 			expr: &actionExpr{
-				pos: position{line: 1790, col: 5, offset: 57860},
+				pos: position{line: 1803, col: 5, offset: 58313},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1790, col: 5, offset: 57860},
+					pos: position{line: 1803, col: 5, offset: 58313},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 57860},
+							pos:   position{line: 1803, col: 5, offset: 58313},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 57866},
+								pos: position{line: 1803, col: 11, offset: 58319},
 								expr: &actionExpr{
-									pos: position{line: 1745, col: 5, offset: 56318},
+									pos: position{line: 1758, col: 5, offset: 56771},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1745, col: 5, offset: 56318},
+										pos: position{line: 1758, col: 5, offset: 56771},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1745, col: 5, offset: 56318},
+												pos: position{line: 1758, col: 5, offset: 56771},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1748, col: 5, offset: 56381},
+												pos:   position{line: 1761, col: 5, offset: 56834},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1748, col: 12, offset: 56388},
+													pos: position{line: 1761, col: 12, offset: 56841},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1748, col: 12, offset: 56388},
+															pos: position{line: 1761, col: 12, offset: 56841},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 12, offset: 56388},
+																pos:        position{line: 1761, col: 12, offset: 56841},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56444},
+															pos: position{line: 1763, col: 13, offset: 56897},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56444},
+																pos:        position{line: 1763, col: 13, offset: 56897},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56502},
+															pos: position{line: 1765, col: 13, offset: 56955},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56502},
+																pos:        position{line: 1765, col: 13, offset: 56955},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56570},
+															pos: position{line: 1767, col: 13, offset: 57023},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1754, col: 13, offset: 56570},
+																pos:        position{line: 1767, col: 13, offset: 57023},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1756, col: 13, offset: 56634},
+															pos: position{line: 1769, col: 13, offset: 57087},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1756, col: 13, offset: 56634},
+																pos:        position{line: 1769, col: 13, offset: 57087},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1758, col: 13, offset: 56698},
+															pos: position{line: 1771, col: 13, offset: 57151},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1758, col: 13, offset: 56698},
+																pos: position{line: 1771, col: 13, offset: 57151},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91008},
+																	pos: position{line: 2890, col: 11, offset: 91461},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91008},
+																		pos: position{line: 2890, col: 11, offset: 91461},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91008},
+																			pos:        position{line: 2890, col: 11, offset: 91461},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40844,17 +41279,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 12, offset: 56778},
+												pos: position{line: 1773, col: 12, offset: 57231},
 												expr: &seqExpr{
-													pos: position{line: 1760, col: 14, offset: 56780},
+													pos: position{line: 1773, col: 14, offset: 57233},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1760, col: 14, offset: 56780},
+															pos: position{line: 1773, col: 14, offset: 57233},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40863,28 +41298,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91345},
+															pos: position{line: 2908, col: 8, offset: 91798},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91118},
+																	pos: position{line: 2895, col: 12, offset: 91571},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91119},
+																		pos: position{line: 2895, col: 13, offset: 91572},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91119},
+																				pos:        position{line: 2895, col: 13, offset: 91572},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91126},
+																				pos:        position{line: 2895, col: 20, offset: 91579},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91135},
+																				pos:        position{line: 2895, col: 29, offset: 91588},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40893,9 +41328,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -40909,24 +41344,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 57889},
+							pos:   position{line: 1804, col: 5, offset: 58342},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1805, col: 5, offset: 58302},
+								pos: position{line: 1818, col: 5, offset: 58755},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1805, col: 5, offset: 58302},
+									pos: position{line: 1818, col: 5, offset: 58755},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1805, col: 5, offset: 58302},
+											pos:   position{line: 1818, col: 5, offset: 58755},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89540},
+												pos: position{line: 2836, col: 14, offset: 89993},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89540},
+													pos: position{line: 2836, col: 14, offset: 89993},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89540},
+														pos:        position{line: 2836, col: 14, offset: 89993},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40936,32 +41371,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1806, col: 5, offset: 58326},
+											pos: position{line: 1819, col: 5, offset: 58779},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91345},
+											pos: position{line: 2908, col: 8, offset: 91798},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91118},
+													pos: position{line: 2895, col: 12, offset: 91571},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91119},
+														pos: position{line: 2895, col: 13, offset: 91572},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91119},
+																pos:        position{line: 2895, col: 13, offset: 91572},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91126},
+																pos:        position{line: 2895, col: 20, offset: 91579},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91135},
+																pos:        position{line: 2895, col: 29, offset: 91588},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40970,9 +41405,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91295},
+													pos: position{line: 2905, col: 8, offset: 91748},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91296,
+														line: 2905, col: 9, offset: 91749,
 													},
 												},
 											},
@@ -40982,43 +41417,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1792, col: 5, offset: 57923},
+							pos:   position{line: 1805, col: 5, offset: 58376},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1792, col: 16, offset: 57934},
+								pos: position{line: 1805, col: 16, offset: 58387},
 								expr: &actionExpr{
-									pos: position{line: 1793, col: 9, offset: 57944},
+									pos: position{line: 1806, col: 9, offset: 58397},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1793, col: 9, offset: 57944},
+										pos: position{line: 1806, col: 9, offset: 58397},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91281},
+												pos: position{line: 2903, col: 11, offset: 91734},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91283,
+													line: 2903, col: 13, offset: 91736,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 57959},
+												pos: position{line: 1807, col: 9, offset: 58412},
 												expr: &actionExpr{
-													pos: position{line: 684, col: 14, offset: 21681},
+													pos: position{line: 697, col: 14, offset: 22134},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 684, col: 14, offset: 21681},
+														pos: position{line: 697, col: 14, offset: 22134},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91281},
+																pos: position{line: 2903, col: 11, offset: 91734},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91283,
+																	line: 2903, col: 13, offset: 91736,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 684, col: 21, offset: 21688},
+																pos: position{line: 697, col: 21, offset: 22141},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41027,28 +41462,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91345},
+																pos: position{line: 2908, col: 8, offset: 91798},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91118},
+																		pos: position{line: 2895, col: 12, offset: 91571},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91119},
+																			pos: position{line: 2895, col: 13, offset: 91572},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91119},
+																					pos:        position{line: 2895, col: 13, offset: 91572},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91126},
+																					pos:        position{line: 2895, col: 20, offset: 91579},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91135},
+																					pos:        position{line: 2895, col: 29, offset: 91588},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41057,9 +41492,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91295},
+																		pos: position{line: 2905, col: 8, offset: 91748},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91296,
+																			line: 2905, col: 9, offset: 91749,
 																		},
 																	},
 																},
@@ -41069,27 +41504,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1795, col: 9, offset: 57978},
+												pos: position{line: 1808, col: 9, offset: 58431},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1795, col: 10, offset: 57979},
+													pos:  position{line: 1808, col: 10, offset: 58432},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1796, col: 9, offset: 58003},
+												pos: position{line: 1809, col: 9, offset: 58456},
 												expr: &choiceExpr{
-													pos: position{line: 1796, col: 11, offset: 58005},
+													pos: position{line: 1809, col: 11, offset: 58458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 731, col: 5, offset: 23253},
+															pos: position{line: 744, col: 5, offset: 23706},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 731, col: 5, offset: 23253},
+																pos: position{line: 744, col: 5, offset: 23706},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 731, col: 5, offset: 23253},
+																		pos: position{line: 744, col: 5, offset: 23706},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2763, col: 13, offset: 88028},
+																			pos:        position{line: 2776, col: 13, offset: 88481},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41097,36 +41532,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 732, col: 5, offset: 23283},
+																		pos:   position{line: 745, col: 5, offset: 23736},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 733, col: 9, offset: 23303},
+																			pos: position{line: 746, col: 9, offset: 23756},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23795},
+																					pos: position{line: 760, col: 5, offset: 24248},
 																					run: (*parser).callonParagraph86,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23795},
+																						pos: position{line: 760, col: 5, offset: 24248},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23795},
+																								pos:   position{line: 760, col: 5, offset: 24248},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23806},
+																									pos: position{line: 760, col: 16, offset: 24259},
 																									run: (*parser).callonParagraph89,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23806},
+																										pos: position{line: 760, col: 16, offset: 24259},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23806},
+																												pos:        position{line: 760, col: 16, offset: 24259},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23813},
+																												pos: position{line: 760, col: 23, offset: 24266},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23813},
+																													pos:        position{line: 760, col: 23, offset: 24266},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -41137,12 +41572,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23897},
+																								pos: position{line: 762, col: 8, offset: 24350},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41151,28 +41586,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41181,9 +41616,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41192,30 +41627,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24043},
+																					pos: position{line: 767, col: 5, offset: 24496},
 																					run: (*parser).callonParagraph105,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24043},
+																						pos: position{line: 767, col: 5, offset: 24496},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24043},
+																								pos:   position{line: 767, col: 5, offset: 24496},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24054},
+																									pos: position{line: 767, col: 16, offset: 24507},
 																									run: (*parser).callonParagraph108,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24054},
+																										pos: position{line: 767, col: 16, offset: 24507},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24054},
+																												pos:        position{line: 767, col: 16, offset: 24507},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 23, offset: 24061},
+																												pos: position{line: 767, col: 23, offset: 24514},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 23, offset: 24061},
+																													pos:        position{line: 767, col: 23, offset: 24514},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -41226,12 +41661,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24145},
+																								pos: position{line: 769, col: 8, offset: 24598},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41240,28 +41675,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41270,9 +41705,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41281,27 +41716,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 767, col: 26, offset: 24531},
+																					pos: position{line: 780, col: 26, offset: 24984},
 																					run: (*parser).callonParagraph124,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 26, offset: 24531},
+																						pos: position{line: 780, col: 26, offset: 24984},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 767, col: 26, offset: 24531},
+																								pos:        position{line: 780, col: 26, offset: 24984},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 32, offset: 24537},
+																								pos:   position{line: 780, col: 32, offset: 24990},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 771, col: 13, offset: 24667},
+																									pos: position{line: 784, col: 13, offset: 25120},
 																									run: (*parser).callonParagraph128,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 771, col: 14, offset: 24668},
+																										pos: position{line: 784, col: 14, offset: 25121},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 771, col: 14, offset: 24668},
+																											pos:        position{line: 784, col: 14, offset: 25121},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -41311,12 +41746,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 767, col: 52, offset: 24557},
+																								pos: position{line: 780, col: 52, offset: 25010},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41325,28 +41760,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41355,9 +41790,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41366,30 +41801,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 761, col: 5, offset: 24290},
+																					pos: position{line: 774, col: 5, offset: 24743},
 																					run: (*parser).callonParagraph142,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 5, offset: 24290},
+																						pos: position{line: 774, col: 5, offset: 24743},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 5, offset: 24290},
+																								pos:   position{line: 774, col: 5, offset: 24743},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 16, offset: 24301},
+																									pos: position{line: 774, col: 16, offset: 24754},
 																									run: (*parser).callonParagraph145,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 16, offset: 24301},
+																										pos: position{line: 774, col: 16, offset: 24754},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 761, col: 16, offset: 24301},
+																												pos:        position{line: 774, col: 16, offset: 24754},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 761, col: 22, offset: 24307},
+																												pos: position{line: 774, col: 22, offset: 24760},
 																												expr: &litMatcher{
-																													pos:        position{line: 761, col: 22, offset: 24307},
+																													pos:        position{line: 774, col: 22, offset: 24760},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -41400,12 +41835,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 763, col: 8, offset: 24391},
+																								pos: position{line: 776, col: 8, offset: 24844},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41414,28 +41849,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41444,9 +41879,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41455,30 +41890,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24827},
+																					pos: position{line: 789, col: 5, offset: 25280},
 																					run: (*parser).callonParagraph161,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24827},
+																						pos: position{line: 789, col: 5, offset: 25280},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24827},
+																								pos:   position{line: 789, col: 5, offset: 25280},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24838},
+																									pos: position{line: 789, col: 16, offset: 25291},
 																									run: (*parser).callonParagraph164,
 																									expr: &seqExpr{
-																										pos: position{line: 776, col: 16, offset: 24838},
+																										pos: position{line: 789, col: 16, offset: 25291},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 776, col: 16, offset: 24838},
+																												pos:        position{line: 789, col: 16, offset: 25291},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 776, col: 23, offset: 24845},
+																												pos: position{line: 789, col: 23, offset: 25298},
 																												expr: &litMatcher{
-																													pos:        position{line: 776, col: 23, offset: 24845},
+																													pos:        position{line: 789, col: 23, offset: 25298},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -41489,12 +41924,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24929},
+																								pos: position{line: 791, col: 8, offset: 25382},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41503,28 +41938,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41533,9 +41968,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41544,30 +41979,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25303},
+																					pos: position{line: 803, col: 5, offset: 25756},
 																					run: (*parser).callonParagraph180,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25303},
+																						pos: position{line: 803, col: 5, offset: 25756},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25303},
+																								pos:   position{line: 803, col: 5, offset: 25756},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25314},
+																									pos: position{line: 803, col: 16, offset: 25767},
 																									run: (*parser).callonParagraph183,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25314},
+																										pos: position{line: 803, col: 16, offset: 25767},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25314},
+																												pos:        position{line: 803, col: 16, offset: 25767},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25321},
+																												pos: position{line: 803, col: 23, offset: 25774},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25321},
+																													pos:        position{line: 803, col: 23, offset: 25774},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -41578,12 +42013,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25405},
+																								pos: position{line: 805, col: 8, offset: 25858},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41592,28 +42027,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41622,9 +42057,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41633,30 +42068,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25555},
+																					pos: position{line: 810, col: 5, offset: 26008},
 																					run: (*parser).callonParagraph199,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25555},
+																						pos: position{line: 810, col: 5, offset: 26008},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25555},
+																								pos:   position{line: 810, col: 5, offset: 26008},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25566},
+																									pos: position{line: 810, col: 16, offset: 26019},
 																									run: (*parser).callonParagraph202,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25566},
+																										pos: position{line: 810, col: 16, offset: 26019},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25566},
+																												pos:        position{line: 810, col: 16, offset: 26019},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25573},
+																												pos: position{line: 810, col: 23, offset: 26026},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25573},
+																													pos:        position{line: 810, col: 23, offset: 26026},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -41667,12 +42102,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25657},
+																								pos: position{line: 812, col: 8, offset: 26110},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41681,28 +42116,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41711,9 +42146,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41722,30 +42157,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25805},
+																					pos: position{line: 817, col: 5, offset: 26258},
 																					run: (*parser).callonParagraph218,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25805},
+																						pos: position{line: 817, col: 5, offset: 26258},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25805},
+																								pos:   position{line: 817, col: 5, offset: 26258},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25816},
+																									pos: position{line: 817, col: 16, offset: 26269},
 																									run: (*parser).callonParagraph221,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25816},
+																										pos: position{line: 817, col: 16, offset: 26269},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25816},
+																												pos:        position{line: 817, col: 16, offset: 26269},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25823},
+																												pos: position{line: 817, col: 23, offset: 26276},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25823},
+																													pos:        position{line: 817, col: 23, offset: 26276},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -41756,12 +42191,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25907},
+																								pos: position{line: 819, col: 8, offset: 26360},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41770,28 +42205,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41800,9 +42235,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41811,30 +42246,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 811, col: 5, offset: 26051},
+																					pos: position{line: 824, col: 5, offset: 26504},
 																					run: (*parser).callonParagraph237,
 																					expr: &seqExpr{
-																						pos: position{line: 811, col: 5, offset: 26051},
+																						pos: position{line: 824, col: 5, offset: 26504},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 811, col: 5, offset: 26051},
+																								pos:   position{line: 824, col: 5, offset: 26504},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 16, offset: 26062},
+																									pos: position{line: 824, col: 16, offset: 26515},
 																									run: (*parser).callonParagraph240,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 16, offset: 26062},
+																										pos: position{line: 824, col: 16, offset: 26515},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 811, col: 16, offset: 26062},
+																												pos:        position{line: 824, col: 16, offset: 26515},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 811, col: 23, offset: 26069},
+																												pos: position{line: 824, col: 23, offset: 26522},
 																												expr: &litMatcher{
-																													pos:        position{line: 811, col: 23, offset: 26069},
+																													pos:        position{line: 824, col: 23, offset: 26522},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -41845,12 +42280,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 813, col: 8, offset: 26153},
+																								pos: position{line: 826, col: 8, offset: 26606},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90947},
+																									pos: position{line: 2886, col: 10, offset: 91400},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90947},
+																										pos:        position{line: 2886, col: 10, offset: 91400},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41859,28 +42294,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91345},
+																								pos: position{line: 2908, col: 8, offset: 91798},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91118},
+																										pos: position{line: 2895, col: 12, offset: 91571},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91119},
+																											pos: position{line: 2895, col: 13, offset: 91572},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91119},
+																													pos:        position{line: 2895, col: 13, offset: 91572},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91126},
+																													pos:        position{line: 2895, col: 20, offset: 91579},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91135},
+																													pos:        position{line: 2895, col: 29, offset: 91588},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41889,9 +42324,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91295},
+																										pos: position{line: 2905, col: 8, offset: 91748},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91296,
+																											line: 2905, col: 9, offset: 91749,
 																										},
 																									},
 																								},
@@ -41906,19 +42341,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 783, col: 5, offset: 25072},
+															pos: position{line: 796, col: 5, offset: 25525},
 															run: (*parser).callonParagraph256,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25072},
+																pos: position{line: 796, col: 5, offset: 25525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25072},
+																		pos:   position{line: 796, col: 5, offset: 25525},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25083},
+																			pos: position{line: 796, col: 16, offset: 25536},
 																			run: (*parser).callonParagraph259,
 																			expr: &litMatcher{
-																				pos:        position{line: 783, col: 16, offset: 25083},
+																				pos:        position{line: 796, col: 16, offset: 25536},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -41926,12 +42361,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25160},
+																		pos: position{line: 798, col: 8, offset: 25613},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41940,28 +42375,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41970,9 +42405,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -41981,21 +42416,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83616},
+															pos: position{line: 2628, col: 19, offset: 84069},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83616},
+																	pos:        position{line: 2628, col: 19, offset: 84069},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83623},
+																	pos: position{line: 2628, col: 26, offset: 84076},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42004,28 +42439,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -42034,9 +42469,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -42047,42 +42482,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1797, col: 9, offset: 58067},
+												pos:   position{line: 1810, col: 9, offset: 58520},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1797, col: 15, offset: 58073},
+													pos: position{line: 1810, col: 15, offset: 58526},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79918},
+															pos: position{line: 2496, col: 22, offset: 80371},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79918},
+																pos: position{line: 2496, col: 22, offset: 80371},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80139},
+																		pos:        position{line: 2501, col: 31, offset: 80592},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80144},
+																		pos: position{line: 2501, col: 36, offset: 80597},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80145},
+																			pos:        position{line: 2501, col: 37, offset: 80598},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79945},
+																		pos:   position{line: 2496, col: 49, offset: 80398},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89473},
+																			pos: position{line: 2832, col: 13, offset: 89926},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89473},
+																				pos: position{line: 2832, col: 13, offset: 89926},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89473},
+																					pos:        position{line: 2832, col: 13, offset: 89926},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42092,28 +42527,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42122,9 +42557,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -42133,21 +42568,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1805, col: 5, offset: 58302},
+															pos: position{line: 1818, col: 5, offset: 58755},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1805, col: 5, offset: 58302},
+																pos: position{line: 1818, col: 5, offset: 58755},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1805, col: 5, offset: 58302},
+																		pos:   position{line: 1818, col: 5, offset: 58755},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89540},
+																			pos: position{line: 2836, col: 14, offset: 89993},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89540},
+																				pos: position{line: 2836, col: 14, offset: 89993},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89540},
+																					pos:        position{line: 2836, col: 14, offset: 89993},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42157,32 +42592,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1806, col: 5, offset: 58326},
+																		pos: position{line: 1819, col: 5, offset: 58779},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91345},
+																		pos: position{line: 2908, col: 8, offset: 91798},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42191,9 +42626,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91295},
+																				pos: position{line: 2905, col: 8, offset: 91748},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91296,
+																					line: 2905, col: 9, offset: 91749,
 																				},
 																			},
 																		},
@@ -42215,16 +42650,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1816, col: 1, offset: 58809},
+			pos:  position{line: 1829, col: 1, offset: 59262},
 			expr: &choiceExpr{
-				pos: position{line: 1816, col: 15, offset: 58823},
+				pos: position{line: 1829, col: 15, offset: 59276},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1816, col: 15, offset: 58823},
+						pos:  position{line: 1829, col: 15, offset: 59276},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1816, col: 35, offset: 58843},
+						pos:  position{line: 1829, col: 35, offset: 59296},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42232,65 +42667,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1818, col: 1, offset: 58864},
+			pos:  position{line: 1831, col: 1, offset: 59317},
 			expr: &actionExpr{
-				pos: position{line: 1819, col: 5, offset: 58889},
+				pos: position{line: 1832, col: 5, offset: 59342},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1819, col: 5, offset: 58889},
+					pos: position{line: 1832, col: 5, offset: 59342},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1819, col: 5, offset: 58889},
+							pos:   position{line: 1832, col: 5, offset: 59342},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1819, col: 16, offset: 58900},
+								pos: position{line: 1832, col: 16, offset: 59353},
 								expr: &actionExpr{
-									pos: position{line: 1819, col: 17, offset: 58901},
+									pos: position{line: 1832, col: 17, offset: 59354},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1819, col: 17, offset: 58901},
+										pos:  position{line: 1832, col: 17, offset: 59354},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1822, col: 5, offset: 58969},
+							pos: position{line: 1835, col: 5, offset: 59422},
 							expr: &litMatcher{
-								pos:        position{line: 1822, col: 7, offset: 58971},
+								pos:        position{line: 1835, col: 7, offset: 59424},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58980},
+							pos:   position{line: 1836, col: 5, offset: 59433},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1824, col: 9, offset: 58998},
+								pos: position{line: 1837, col: 9, offset: 59451},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 9, offset: 58998},
+										pos:  position{line: 1837, col: 9, offset: 59451},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1825, col: 11, offset: 59025},
+										pos:  position{line: 1838, col: 11, offset: 59478},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 11, offset: 59053},
+										pos:  position{line: 1839, col: 11, offset: 59506},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59084},
+										pos:  position{line: 1840, col: 11, offset: 59537},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59112},
+										pos:  position{line: 1841, col: 11, offset: 59565},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1829, col: 11, offset: 59143},
+										pos:  position{line: 1842, col: 11, offset: 59596},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42302,36 +42737,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59263},
+			pos:  position{line: 1847, col: 1, offset: 59716},
 			expr: &actionExpr{
-				pos: position{line: 1835, col: 5, offset: 59305},
+				pos: position{line: 1848, col: 5, offset: 59758},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1835, col: 5, offset: 59305},
+					pos: position{line: 1848, col: 5, offset: 59758},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1835, col: 5, offset: 59305},
+							pos:   position{line: 1848, col: 5, offset: 59758},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1835, col: 16, offset: 59316},
+								pos: position{line: 1848, col: 16, offset: 59769},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1835, col: 17, offset: 59317},
+									pos:  position{line: 1848, col: 17, offset: 59770},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1836, col: 5, offset: 59342},
+							pos:   position{line: 1849, col: 5, offset: 59795},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1836, col: 14, offset: 59351},
+								pos: position{line: 1849, col: 14, offset: 59804},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 14, offset: 59351},
+										pos:  position{line: 1849, col: 14, offset: 59804},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1836, col: 33, offset: 59370},
+										pos:  position{line: 1849, col: 33, offset: 59823},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42343,32 +42778,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1844, col: 1, offset: 59601},
+			pos:  position{line: 1857, col: 1, offset: 60054},
 			expr: &choiceExpr{
-				pos: position{line: 1845, col: 5, offset: 59626},
+				pos: position{line: 1858, col: 5, offset: 60079},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 5, offset: 59626},
+						pos:  position{line: 1858, col: 5, offset: 60079},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59653},
+						pos:  position{line: 1859, col: 7, offset: 60106},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59681},
+						pos:  position{line: 1860, col: 7, offset: 60134},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59713},
+						pos:  position{line: 1861, col: 7, offset: 60166},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59741},
+						pos:  position{line: 1862, col: 7, offset: 60194},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59762},
+						pos:  position{line: 1863, col: 7, offset: 60215},
 						name: "SuperscriptText",
 					},
 				},
@@ -42376,24 +42811,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1852, col: 1, offset: 59780},
+			pos:  position{line: 1865, col: 1, offset: 60233},
 			expr: &choiceExpr{
-				pos: position{line: 1853, col: 5, offset: 59805},
+				pos: position{line: 1866, col: 5, offset: 60258},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 5, offset: 59805},
+						pos:  position{line: 1866, col: 5, offset: 60258},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 59831},
+						pos:  position{line: 1867, col: 7, offset: 60284},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 59859},
+						pos:  position{line: 1868, col: 7, offset: 60312},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 7, offset: 59890},
+						pos:  position{line: 1869, col: 7, offset: 60343},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42401,26 +42836,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1870, col: 1, offset: 60244},
+			pos:  position{line: 1883, col: 1, offset: 60697},
 			expr: &choiceExpr{
-				pos: position{line: 1871, col: 5, offset: 60270},
+				pos: position{line: 1884, col: 5, offset: 60723},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2772, col: 5, offset: 88175},
+						pos: position{line: 2785, col: 5, offset: 88628},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2772, col: 5, offset: 88175},
+							pos: position{line: 2785, col: 5, offset: 88628},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2772, col: 5, offset: 88175},
+									pos:   position{line: 2785, col: 5, offset: 88628},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2772, col: 11, offset: 88181},
+										pos: position{line: 2785, col: 11, offset: 88634},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2772, col: 11, offset: 88181},
+											pos: position{line: 2785, col: 11, offset: 88634},
 											expr: &charClassMatcher{
-												pos:        position{line: 2772, col: 11, offset: 88181},
+												pos:        position{line: 2785, col: 11, offset: 88634},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42430,32 +42865,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2775, col: 5, offset: 88239},
+									pos: position{line: 2788, col: 5, offset: 88692},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 9, offset: 88250},
+										pos: position{line: 2789, col: 9, offset: 88703},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2776, col: 9, offset: 88250},
+												pos:        position{line: 2789, col: 9, offset: 88703},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2777, col: 9, offset: 88299},
+												pos: position{line: 2790, col: 9, offset: 88752},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2781, col: 5, offset: 88379},
+									pos: position{line: 2794, col: 5, offset: 88832},
 									expr: &seqExpr{
-										pos: position{line: 2782, col: 9, offset: 88390},
+										pos: position{line: 2795, col: 9, offset: 88843},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2782, col: 9, offset: 88390},
+												pos: position{line: 2795, col: 9, offset: 88843},
 												expr: &charClassMatcher{
-													pos:        position{line: 2782, col: 9, offset: 88390},
+													pos:        position{line: 2795, col: 9, offset: 88843},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42464,13 +42899,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2782, col: 23, offset: 88404},
+												pos:        position{line: 2795, col: 23, offset: 88857},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2782, col: 27, offset: 88408},
+												pos:        position{line: 2795, col: 27, offset: 88861},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42483,12 +42918,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 11, offset: 91008},
+						pos: position{line: 2890, col: 11, offset: 91461},
 						run: (*parser).callonQuotedTextElement18,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2877, col: 11, offset: 91008},
+							pos: position{line: 2890, col: 11, offset: 91461},
 							expr: &charClassMatcher{
-								pos:        position{line: 2877, col: 11, offset: 91008},
+								pos:        position{line: 2890, col: 11, offset: 91461},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42497,25 +42932,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60333},
+						pos:  position{line: 1886, col: 7, offset: 60786},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80635},
+						pos: position{line: 2514, col: 5, offset: 81088},
 						run: (*parser).callonQuotedTextElement22,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80635},
+							pos: position{line: 2514, col: 5, offset: 81088},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2501, col: 5, offset: 80635},
+									pos:        position{line: 2514, col: 5, offset: 81088},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2501, col: 10, offset: 80640},
+									pos: position{line: 2514, col: 10, offset: 81093},
 									expr: &charClassMatcher{
-										pos:        position{line: 2501, col: 11, offset: 80641},
+										pos:        position{line: 2514, col: 11, offset: 81094},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42526,29 +42961,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2507, col: 5, offset: 80833},
+						pos: position{line: 2520, col: 5, offset: 81286},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &seqExpr{
-							pos: position{line: 2507, col: 5, offset: 80833},
+							pos: position{line: 2520, col: 5, offset: 81286},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2507, col: 5, offset: 80833},
+									pos: position{line: 2520, col: 5, offset: 81286},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80904},
+									pos: position{line: 2523, col: 5, offset: 81357},
 									run: (*parser).callonQuotedTextElement30,
 								},
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81029},
+									pos:        position{line: 2527, col: 5, offset: 81482},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 9, offset: 81033},
+									pos: position{line: 2527, col: 9, offset: 81486},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 10, offset: 81034},
+										pos:        position{line: 2527, col: 10, offset: 81487},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42559,27 +42994,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2790, col: 5, offset: 88601},
+						pos: position{line: 2803, col: 5, offset: 89054},
 						run: (*parser).callonQuotedTextElement34,
 						expr: &choiceExpr{
-							pos: position{line: 2791, col: 9, offset: 88611},
+							pos: position{line: 2804, col: 9, offset: 89064},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2791, col: 10, offset: 88612},
+									pos:        position{line: 2804, col: 10, offset: 89065},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 13, offset: 88709},
+									pos: position{line: 2806, col: 13, offset: 89162},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2793, col: 13, offset: 88709},
+											pos: position{line: 2806, col: 13, offset: 89162},
 											run: (*parser).callonQuotedTextElement38,
 										},
 										&litMatcher{
-											pos:        position{line: 2796, col: 13, offset: 88809},
+											pos:        position{line: 2809, col: 13, offset: 89262},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -42587,20 +43022,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2796, col: 19, offset: 88815},
+									pos:        position{line: 2809, col: 19, offset: 89268},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2799, col: 13, offset: 88853},
+									pos: position{line: 2812, col: 13, offset: 89306},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2799, col: 13, offset: 88853},
+											pos: position{line: 2812, col: 13, offset: 89306},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2802, col: 14, offset: 88946},
+											pos:        position{line: 2815, col: 14, offset: 89399},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -42609,18 +43044,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2804, col: 12, offset: 88990},
+									pos: position{line: 2817, col: 12, offset: 89443},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2804, col: 12, offset: 88990},
+											pos:        position{line: 2817, col: 12, offset: 89443},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2804, col: 16, offset: 88994},
+											pos: position{line: 2817, col: 16, offset: 89447},
 											expr: &litMatcher{
-												pos:        position{line: 2804, col: 17, offset: 88995},
+												pos:        position{line: 2817, col: 17, offset: 89448},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42632,35 +43067,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 643, col: 5, offset: 20301},
+						pos: position{line: 656, col: 5, offset: 20754},
 						run: (*parser).callonQuotedTextElement48,
 						expr: &seqExpr{
-							pos: position{line: 643, col: 5, offset: 20301},
+							pos: position{line: 656, col: 5, offset: 20754},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 643, col: 5, offset: 20301},
+									pos: position{line: 656, col: 5, offset: 20754},
 									run: (*parser).callonQuotedTextElement50,
 								},
 								&labeledExpr{
-									pos:   position{line: 646, col: 5, offset: 20373},
+									pos:   position{line: 659, col: 5, offset: 20826},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 646, col: 14, offset: 20382},
+										pos: position{line: 659, col: 14, offset: 20835},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20511},
+												pos: position{line: 665, col: 5, offset: 20964},
 												run: (*parser).callonQuotedTextElement53,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20511},
+													pos: position{line: 665, col: 5, offset: 20964},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20511},
+															pos:        position{line: 665, col: 5, offset: 20964},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 13, offset: 20519},
+															pos:   position{line: 665, col: 13, offset: 20972},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42692,7 +43127,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 32, offset: 20538},
+															pos:        position{line: 665, col: 32, offset: 20991},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42701,19 +43136,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 659, col: 5, offset: 20779},
+												pos: position{line: 672, col: 5, offset: 21232},
 												run: (*parser).callonQuotedTextElement63,
 												expr: &seqExpr{
-													pos: position{line: 659, col: 5, offset: 20779},
+													pos: position{line: 672, col: 5, offset: 21232},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 659, col: 5, offset: 20779},
+															pos:        position{line: 672, col: 5, offset: 21232},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 659, col: 9, offset: 20783},
+															pos:   position{line: 672, col: 9, offset: 21236},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42745,7 +43180,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 659, col: 28, offset: 20802},
+															pos:        position{line: 672, col: 28, offset: 21255},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42754,19 +43189,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 665, col: 25, offset: 20983},
+												pos: position{line: 678, col: 25, offset: 21436},
 												run: (*parser).callonQuotedTextElement73,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 25, offset: 20983},
+													pos: position{line: 678, col: 25, offset: 21436},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 25, offset: 20983},
+															pos:        position{line: 678, col: 25, offset: 21436},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 37, offset: 20995},
+															pos:   position{line: 678, col: 37, offset: 21448},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42798,33 +43233,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 56, offset: 21014},
+															pos:   position{line: 678, col: 56, offset: 21467},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 665, col: 62, offset: 21020},
+																pos: position{line: 678, col: 62, offset: 21473},
 																expr: &actionExpr{
-																	pos: position{line: 673, col: 17, offset: 21315},
+																	pos: position{line: 686, col: 17, offset: 21768},
 																	run: (*parser).callonQuotedTextElement84,
 																	expr: &seqExpr{
-																		pos: position{line: 673, col: 17, offset: 21315},
+																		pos: position{line: 686, col: 17, offset: 21768},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 673, col: 17, offset: 21315},
+																				pos:        position{line: 686, col: 17, offset: 21768},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 673, col: 21, offset: 21319},
+																				pos:   position{line: 686, col: 21, offset: 21772},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 673, col: 28, offset: 21326},
+																					pos: position{line: 686, col: 28, offset: 21779},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 673, col: 28, offset: 21326},
+																							pos: position{line: 686, col: 28, offset: 21779},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 673, col: 28, offset: 21326},
+																								pos:        position{line: 686, col: 28, offset: 21779},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42832,12 +43267,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 9, offset: 21380},
+																							pos: position{line: 688, col: 9, offset: 21833},
 																							run: (*parser).callonQuotedTextElement91,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 675, col: 9, offset: 21380},
+																								pos: position{line: 688, col: 9, offset: 21833},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 675, col: 9, offset: 21380},
+																									pos:        position{line: 688, col: 9, offset: 21833},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42854,7 +43289,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 78, offset: 21036},
+															pos:        position{line: 678, col: 78, offset: 21489},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42863,19 +43298,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 669, col: 25, offset: 21154},
+												pos: position{line: 682, col: 25, offset: 21607},
 												run: (*parser).callonQuotedTextElement95,
 												expr: &seqExpr{
-													pos: position{line: 669, col: 25, offset: 21154},
+													pos: position{line: 682, col: 25, offset: 21607},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 669, col: 25, offset: 21154},
+															pos:        position{line: 682, col: 25, offset: 21607},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 669, col: 38, offset: 21167},
+															pos:   position{line: 682, col: 38, offset: 21620},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -42907,33 +43342,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 669, col: 57, offset: 21186},
+															pos:   position{line: 682, col: 57, offset: 21639},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 669, col: 63, offset: 21192},
+																pos: position{line: 682, col: 63, offset: 21645},
 																expr: &actionExpr{
-																	pos: position{line: 673, col: 17, offset: 21315},
+																	pos: position{line: 686, col: 17, offset: 21768},
 																	run: (*parser).callonQuotedTextElement106,
 																	expr: &seqExpr{
-																		pos: position{line: 673, col: 17, offset: 21315},
+																		pos: position{line: 686, col: 17, offset: 21768},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 673, col: 17, offset: 21315},
+																				pos:        position{line: 686, col: 17, offset: 21768},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 673, col: 21, offset: 21319},
+																				pos:   position{line: 686, col: 21, offset: 21772},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 673, col: 28, offset: 21326},
+																					pos: position{line: 686, col: 28, offset: 21779},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 673, col: 28, offset: 21326},
+																							pos: position{line: 686, col: 28, offset: 21779},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 673, col: 28, offset: 21326},
+																								pos:        position{line: 686, col: 28, offset: 21779},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42941,12 +43376,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 675, col: 9, offset: 21380},
+																							pos: position{line: 688, col: 9, offset: 21833},
 																							run: (*parser).callonQuotedTextElement113,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 675, col: 9, offset: 21380},
+																								pos: position{line: 688, col: 9, offset: 21833},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 675, col: 9, offset: 21380},
+																									pos:        position{line: 688, col: 9, offset: 21833},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42963,7 +43398,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 669, col: 79, offset: 21208},
+															pos:        position{line: 682, col: 79, offset: 21661},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42978,31 +43413,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2886, col: 18, offset: 91218},
+						pos: position{line: 2899, col: 18, offset: 91671},
 						run: (*parser).callonQuotedTextElement117,
 						expr: &seqExpr{
-							pos: position{line: 2886, col: 18, offset: 91218},
+							pos: position{line: 2899, col: 18, offset: 91671},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonQuotedTextElement119,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43011,27 +43446,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 26, offset: 91226},
+									pos: position{line: 2899, col: 26, offset: 91679},
 									expr: &actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91118},
+										pos: position{line: 2895, col: 12, offset: 91571},
 										run: (*parser).callonQuotedTextElement125,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91119},
+											pos: position{line: 2895, col: 13, offset: 91572},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91119},
+													pos:        position{line: 2895, col: 13, offset: 91572},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91126},
+													pos:        position{line: 2895, col: 20, offset: 91579},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91135},
+													pos:        position{line: 2895, col: 29, offset: 91588},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43044,31 +43479,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60500},
+						pos:  position{line: 1891, col: 7, offset: 60953},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60547},
+						pos:  position{line: 1892, col: 7, offset: 61000},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79464},
+						pos: position{line: 2483, col: 5, offset: 79917},
 						run: (*parser).callonQuotedTextElement132,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79464},
+							pos: position{line: 2483, col: 5, offset: 79917},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79464},
+									pos: position{line: 2483, col: 5, offset: 79917},
 									run: (*parser).callonQuotedTextElement134,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79540},
+									pos:   position{line: 2486, col: 5, offset: 79993},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79558},
+										pos: position{line: 2487, col: 9, offset: 80011},
 										run: (*parser).callonQuotedTextElement136,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79559},
+											pos:        position{line: 2487, col: 10, offset: 80012},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43080,27 +43515,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1213, col: 23, offset: 37389},
+						pos: position{line: 1226, col: 23, offset: 37842},
 						run: (*parser).callonQuotedTextElement138,
 						expr: &seqExpr{
-							pos: position{line: 1213, col: 23, offset: 37389},
+							pos: position{line: 1226, col: 23, offset: 37842},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1211, col: 32, offset: 37357},
+									pos:        position{line: 1224, col: 32, offset: 37810},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1213, col: 51, offset: 37417},
+									pos:   position{line: 1226, col: 51, offset: 37870},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1213, col: 56, offset: 37422},
+										pos: position{line: 1226, col: 56, offset: 37875},
 										run: (*parser).callonQuotedTextElement142,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1213, col: 56, offset: 37422},
+											pos: position{line: 1226, col: 56, offset: 37875},
 											expr: &charClassMatcher{
-												pos:        position{line: 1213, col: 56, offset: 37422},
+												pos:        position{line: 1226, col: 56, offset: 37875},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -43110,7 +43545,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1211, col: 32, offset: 37357},
+									pos:        position{line: 1224, col: 32, offset: 37810},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -43119,10 +43554,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2812, col: 12, offset: 89255},
+						pos: position{line: 2825, col: 12, offset: 89708},
 						run: (*parser).callonQuotedTextElement146,
 						expr: &charClassMatcher{
-							pos:        position{line: 2812, col: 12, offset: 89255},
+							pos:        position{line: 2825, col: 12, offset: 89708},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43134,29 +43569,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1897, col: 1, offset: 61017},
+			pos:  position{line: 1910, col: 1, offset: 61470},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61045},
+				pos: position{line: 1911, col: 5, offset: 61498},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61045},
+					pos: position{line: 1911, col: 5, offset: 61498},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1893, col: 38, offset: 60970},
+							pos:        position{line: 1906, col: 38, offset: 61423},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61084},
+							pos:   position{line: 1912, col: 5, offset: 61537},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 15, offset: 61094},
+								pos:  position{line: 1912, col: 15, offset: 61547},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1895, col: 36, offset: 61011},
+							pos:        position{line: 1908, col: 36, offset: 61464},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43167,44 +43602,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1904, col: 1, offset: 61254},
+			pos:  position{line: 1917, col: 1, offset: 61707},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1904, col: 32, offset: 61285},
+				pos: position{line: 1917, col: 32, offset: 61738},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1904, col: 32, offset: 61285},
+					pos:  position{line: 1917, col: 32, offset: 61738},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1906, col: 1, offset: 61316},
+			pos:  position{line: 1919, col: 1, offset: 61769},
 			expr: &actionExpr{
-				pos: position{line: 1907, col: 5, offset: 61351},
+				pos: position{line: 1920, col: 5, offset: 61804},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1907, col: 5, offset: 61351},
+					pos: position{line: 1920, col: 5, offset: 61804},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1908, col: 5, offset: 61362},
+							pos: position{line: 1921, col: 5, offset: 61815},
 							expr: &litMatcher{
-								pos:        position{line: 1895, col: 36, offset: 61011},
+								pos:        position{line: 1908, col: 36, offset: 61464},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1909, col: 5, offset: 61399},
+							pos:   position{line: 1922, col: 5, offset: 61852},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1909, col: 14, offset: 61408},
+								pos:  position{line: 1922, col: 14, offset: 61861},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43214,29 +43649,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1934, col: 1, offset: 62088},
+			pos:  position{line: 1947, col: 1, offset: 62541},
 			expr: &actionExpr{
-				pos: position{line: 1935, col: 5, offset: 62116},
+				pos: position{line: 1948, col: 5, offset: 62569},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1935, col: 5, offset: 62116},
+					pos: position{line: 1948, col: 5, offset: 62569},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1918, col: 5, offset: 61642},
+							pos:        position{line: 1931, col: 5, offset: 62095},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61651},
+							pos: position{line: 1932, col: 5, offset: 62104},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 61769},
+							pos: position{line: 1936, col: 5, offset: 62222},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 61771},
+								pos: position{line: 1936, col: 7, offset: 62224},
 								expr: &litMatcher{
-									pos:        position{line: 1923, col: 8, offset: 61772},
+									pos:        position{line: 1936, col: 8, offset: 62225},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43244,38 +43679,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1936, col: 5, offset: 62154},
+							pos:   position{line: 1949, col: 5, offset: 62607},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1936, col: 15, offset: 62164},
+								pos:  position{line: 1949, col: 15, offset: 62617},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1926, col: 5, offset: 61892},
+							pos:        position{line: 1939, col: 5, offset: 62345},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1927, col: 5, offset: 61901},
+							pos: position{line: 1940, col: 5, offset: 62354},
 							expr: &litMatcher{
-								pos:        position{line: 1927, col: 6, offset: 61902},
+								pos:        position{line: 1940, col: 6, offset: 62355},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1928, col: 5, offset: 61965},
+							pos: position{line: 1941, col: 5, offset: 62418},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1932, col: 5, offset: 62074},
+							pos: position{line: 1945, col: 5, offset: 62527},
 							expr: &notExpr{
-								pos: position{line: 1932, col: 7, offset: 62076},
+								pos: position{line: 1945, col: 7, offset: 62529},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88028},
+									pos:        position{line: 2776, col: 13, offset: 88481},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43289,20 +43724,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1941, col: 1, offset: 62324},
+			pos:  position{line: 1954, col: 1, offset: 62777},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62361},
+				pos: position{line: 1955, col: 5, offset: 62814},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62361},
+					pos: position{line: 1955, col: 5, offset: 62814},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62361},
+							pos: position{line: 1955, col: 5, offset: 62814},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43311,18 +43746,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62400},
+							pos:   position{line: 1956, col: 5, offset: 62853},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1943, col: 14, offset: 62409},
+								pos: position{line: 1956, col: 14, offset: 62862},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1943, col: 15, offset: 62410},
+									pos:  position{line: 1956, col: 15, offset: 62863},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1944, col: 5, offset: 62444},
+							pos: position{line: 1957, col: 5, offset: 62897},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43331,49 +43766,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1950, col: 1, offset: 62585},
+			pos:  position{line: 1963, col: 1, offset: 63038},
 			expr: &actionExpr{
-				pos: position{line: 1951, col: 5, offset: 62620},
+				pos: position{line: 1964, col: 5, offset: 63073},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1951, col: 5, offset: 62620},
+					pos: position{line: 1964, col: 5, offset: 63073},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1952, col: 5, offset: 62648},
+							pos: position{line: 1965, col: 5, offset: 63101},
 							expr: &seqExpr{
-								pos: position{line: 1926, col: 5, offset: 61892},
+								pos: position{line: 1939, col: 5, offset: 62345},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1926, col: 5, offset: 61892},
+										pos:        position{line: 1939, col: 5, offset: 62345},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1927, col: 5, offset: 61901},
+										pos: position{line: 1940, col: 5, offset: 62354},
 										expr: &litMatcher{
-											pos:        position{line: 1927, col: 6, offset: 61902},
+											pos:        position{line: 1940, col: 6, offset: 62355},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1928, col: 5, offset: 61965},
+										pos: position{line: 1941, col: 5, offset: 62418},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1932, col: 5, offset: 62074},
+										pos: position{line: 1945, col: 5, offset: 62527},
 										expr: &notExpr{
-											pos: position{line: 1932, col: 7, offset: 62076},
+											pos: position{line: 1945, col: 7, offset: 62529},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88028},
+												pos:        position{line: 2776, col: 13, offset: 88481},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43385,10 +43820,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1953, col: 5, offset: 62685},
+							pos:   position{line: 1966, col: 5, offset: 63138},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1953, col: 14, offset: 62694},
+								pos:  position{line: 1966, col: 14, offset: 63147},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43398,35 +43833,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1958, col: 1, offset: 62782},
+			pos:  position{line: 1971, col: 1, offset: 63235},
 			expr: &choiceExpr{
-				pos: position{line: 1960, col: 5, offset: 62843},
+				pos: position{line: 1973, col: 5, offset: 63296},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1960, col: 5, offset: 62843},
+						pos: position{line: 1973, col: 5, offset: 63296},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 5, offset: 62843},
+							pos: position{line: 1973, col: 5, offset: 63296},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 5, offset: 62843},
+									pos:   position{line: 1973, col: 5, offset: 63296},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60190},
+										pos: position{line: 1879, col: 25, offset: 60643},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60190},
+											pos: position{line: 1879, col: 25, offset: 60643},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60190},
+													pos:        position{line: 1879, col: 25, offset: 60643},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60195},
+													pos: position{line: 1879, col: 30, offset: 60648},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60195},
+														pos:        position{line: 1879, col: 30, offset: 60648},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43437,21 +43872,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 40, offset: 62878},
+									pos:        position{line: 1973, col: 40, offset: 63331},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 45, offset: 62883},
+									pos:   position{line: 1973, col: 45, offset: 63336},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 55, offset: 62893},
+										pos:  position{line: 1973, col: 55, offset: 63346},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 84, offset: 62922},
+									pos:        position{line: 1973, col: 84, offset: 63375},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43460,21 +43895,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1964, col: 7, offset: 63086},
+						pos: position{line: 1977, col: 7, offset: 63539},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1964, col: 7, offset: 63086},
+							pos: position{line: 1977, col: 7, offset: 63539},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1964, col: 7, offset: 63086},
+									pos:   position{line: 1977, col: 7, offset: 63539},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43483,21 +43918,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 42, offset: 63121},
+									pos:        position{line: 1977, col: 42, offset: 63574},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1964, col: 47, offset: 63126},
+									pos:   position{line: 1977, col: 47, offset: 63579},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1964, col: 57, offset: 63136},
+										pos:  position{line: 1977, col: 57, offset: 63589},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 86, offset: 63165},
+									pos:        position{line: 1977, col: 86, offset: 63618},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43506,21 +43941,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1969, col: 7, offset: 63367},
+						pos: position{line: 1982, col: 7, offset: 63820},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1969, col: 7, offset: 63367},
+							pos: position{line: 1982, col: 7, offset: 63820},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1969, col: 7, offset: 63367},
+									pos:   position{line: 1982, col: 7, offset: 63820},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43529,21 +43964,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1969, col: 42, offset: 63402},
+									pos:        position{line: 1982, col: 42, offset: 63855},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1969, col: 46, offset: 63406},
+									pos:   position{line: 1982, col: 46, offset: 63859},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1969, col: 56, offset: 63416},
+										pos:  position{line: 1982, col: 56, offset: 63869},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1969, col: 85, offset: 63445},
+									pos:        position{line: 1982, col: 85, offset: 63898},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43556,29 +43991,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1986, col: 1, offset: 63925},
+			pos:  position{line: 1999, col: 1, offset: 64378},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 63955},
+				pos: position{line: 2000, col: 5, offset: 64408},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 63955},
+					pos: position{line: 2000, col: 5, offset: 64408},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1982, col: 40, offset: 63876},
+							pos:        position{line: 1995, col: 40, offset: 64329},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 63996},
+							pos:   position{line: 2001, col: 5, offset: 64449},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 15, offset: 64006},
+								pos:  position{line: 2001, col: 15, offset: 64459},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1984, col: 38, offset: 63919},
+							pos:        position{line: 1997, col: 38, offset: 64372},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -43589,44 +44024,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1993, col: 1, offset: 64171},
+			pos:  position{line: 2006, col: 1, offset: 64624},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1993, col: 34, offset: 64204},
+				pos: position{line: 2006, col: 34, offset: 64657},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1993, col: 34, offset: 64204},
+					pos:  position{line: 2006, col: 34, offset: 64657},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1995, col: 1, offset: 64236},
+			pos:  position{line: 2008, col: 1, offset: 64689},
 			expr: &actionExpr{
-				pos: position{line: 1996, col: 5, offset: 64273},
+				pos: position{line: 2009, col: 5, offset: 64726},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1996, col: 5, offset: 64273},
+					pos: position{line: 2009, col: 5, offset: 64726},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1997, col: 5, offset: 64284},
+							pos: position{line: 2010, col: 5, offset: 64737},
 							expr: &litMatcher{
-								pos:        position{line: 1984, col: 38, offset: 63919},
+								pos:        position{line: 1997, col: 38, offset: 64372},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1998, col: 5, offset: 64323},
+							pos:   position{line: 2011, col: 5, offset: 64776},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1998, col: 14, offset: 64332},
+								pos:  position{line: 2011, col: 14, offset: 64785},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43636,29 +44071,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2024, col: 1, offset: 65016},
+			pos:  position{line: 2037, col: 1, offset: 65469},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65046},
+				pos: position{line: 2038, col: 5, offset: 65499},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65046},
+					pos: position{line: 2038, col: 5, offset: 65499},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64574},
+							pos:        position{line: 2020, col: 5, offset: 65027},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64583},
+							pos: position{line: 2021, col: 5, offset: 65036},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64703},
+							pos: position{line: 2025, col: 5, offset: 65156},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64705},
+								pos: position{line: 2025, col: 7, offset: 65158},
 								expr: &litMatcher{
-									pos:        position{line: 2012, col: 8, offset: 64706},
+									pos:        position{line: 2025, col: 8, offset: 65159},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43666,38 +44101,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 65086},
+							pos:   position{line: 2039, col: 5, offset: 65539},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2026, col: 15, offset: 65096},
+								pos:  position{line: 2039, col: 15, offset: 65549},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2016, col: 5, offset: 64816},
+							pos:        position{line: 2029, col: 5, offset: 65269},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2017, col: 5, offset: 64825},
+							pos: position{line: 2030, col: 5, offset: 65278},
 							expr: &litMatcher{
-								pos:        position{line: 2017, col: 6, offset: 64826},
+								pos:        position{line: 2030, col: 6, offset: 65279},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2018, col: 5, offset: 64891},
+							pos: position{line: 2031, col: 5, offset: 65344},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2022, col: 5, offset: 65002},
+							pos: position{line: 2035, col: 5, offset: 65455},
 							expr: &notExpr{
-								pos: position{line: 2022, col: 7, offset: 65004},
+								pos: position{line: 2035, col: 7, offset: 65457},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88028},
+									pos:        position{line: 2776, col: 13, offset: 88481},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43711,20 +44146,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2031, col: 1, offset: 65263},
+			pos:  position{line: 2044, col: 1, offset: 65716},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65301},
+				pos: position{line: 2045, col: 5, offset: 65754},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65301},
+					pos: position{line: 2045, col: 5, offset: 65754},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65301},
+							pos: position{line: 2045, col: 5, offset: 65754},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43733,18 +44168,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65340},
+							pos:   position{line: 2046, col: 5, offset: 65793},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2033, col: 14, offset: 65349},
+								pos: position{line: 2046, col: 14, offset: 65802},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2033, col: 15, offset: 65350},
+									pos:  position{line: 2046, col: 15, offset: 65803},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2034, col: 5, offset: 65385},
+							pos: position{line: 2047, col: 5, offset: 65838},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -43753,49 +44188,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2040, col: 1, offset: 65526},
+			pos:  position{line: 2053, col: 1, offset: 65979},
 			expr: &actionExpr{
-				pos: position{line: 2041, col: 5, offset: 65563},
+				pos: position{line: 2054, col: 5, offset: 66016},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2041, col: 5, offset: 65563},
+					pos: position{line: 2054, col: 5, offset: 66016},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65574},
+							pos: position{line: 2055, col: 5, offset: 66027},
 							expr: &seqExpr{
-								pos: position{line: 2016, col: 5, offset: 64816},
+								pos: position{line: 2029, col: 5, offset: 65269},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2016, col: 5, offset: 64816},
+										pos:        position{line: 2029, col: 5, offset: 65269},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2017, col: 5, offset: 64825},
+										pos: position{line: 2030, col: 5, offset: 65278},
 										expr: &litMatcher{
-											pos:        position{line: 2017, col: 6, offset: 64826},
+											pos:        position{line: 2030, col: 6, offset: 65279},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2018, col: 5, offset: 64891},
+										pos: position{line: 2031, col: 5, offset: 65344},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2022, col: 5, offset: 65002},
+										pos: position{line: 2035, col: 5, offset: 65455},
 										expr: &notExpr{
-											pos: position{line: 2022, col: 7, offset: 65004},
+											pos: position{line: 2035, col: 7, offset: 65457},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88028},
+												pos:        position{line: 2776, col: 13, offset: 88481},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43807,10 +44242,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2043, col: 5, offset: 65613},
+							pos:   position{line: 2056, col: 5, offset: 66066},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2043, col: 14, offset: 65622},
+								pos:  position{line: 2056, col: 14, offset: 66075},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43820,35 +44255,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2048, col: 1, offset: 65710},
+			pos:  position{line: 2061, col: 1, offset: 66163},
 			expr: &choiceExpr{
-				pos: position{line: 2050, col: 5, offset: 65775},
+				pos: position{line: 2063, col: 5, offset: 66228},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2050, col: 5, offset: 65775},
+						pos: position{line: 2063, col: 5, offset: 66228},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 5, offset: 65775},
+							pos: position{line: 2063, col: 5, offset: 66228},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 5, offset: 65775},
+									pos:   position{line: 2063, col: 5, offset: 66228},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60190},
+										pos: position{line: 1879, col: 25, offset: 60643},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60190},
+											pos: position{line: 1879, col: 25, offset: 60643},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60190},
+													pos:        position{line: 1879, col: 25, offset: 60643},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60195},
+													pos: position{line: 1879, col: 30, offset: 60648},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60195},
+														pos:        position{line: 1879, col: 30, offset: 60648},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43859,21 +44294,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 40, offset: 65810},
+									pos:        position{line: 2063, col: 40, offset: 66263},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 45, offset: 65815},
+									pos:   position{line: 2063, col: 45, offset: 66268},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 55, offset: 65825},
+										pos:  position{line: 2063, col: 55, offset: 66278},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 86, offset: 65856},
+									pos:        position{line: 2063, col: 86, offset: 66309},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43882,21 +44317,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2054, col: 7, offset: 66021},
+						pos: position{line: 2067, col: 7, offset: 66474},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2054, col: 7, offset: 66021},
+							pos: position{line: 2067, col: 7, offset: 66474},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2054, col: 7, offset: 66021},
+									pos:   position{line: 2067, col: 7, offset: 66474},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43905,21 +44340,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 42, offset: 66056},
+									pos:        position{line: 2067, col: 42, offset: 66509},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2054, col: 47, offset: 66061},
+									pos:   position{line: 2067, col: 47, offset: 66514},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2054, col: 57, offset: 66071},
+										pos:  position{line: 2067, col: 57, offset: 66524},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 88, offset: 66102},
+									pos:        position{line: 2067, col: 88, offset: 66555},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43928,21 +44363,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2059, col: 7, offset: 66343},
+						pos: position{line: 2072, col: 7, offset: 66796},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2059, col: 7, offset: 66343},
+							pos: position{line: 2072, col: 7, offset: 66796},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2059, col: 7, offset: 66343},
+									pos:   position{line: 2072, col: 7, offset: 66796},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43951,21 +44386,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 42, offset: 66378},
+									pos:        position{line: 2072, col: 42, offset: 66831},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2059, col: 46, offset: 66382},
+									pos:   position{line: 2072, col: 46, offset: 66835},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2059, col: 56, offset: 66392},
+										pos:  position{line: 2072, col: 56, offset: 66845},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 87, offset: 66423},
+									pos:        position{line: 2072, col: 87, offset: 66876},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43978,29 +44413,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2076, col: 1, offset: 66987},
+			pos:  position{line: 2089, col: 1, offset: 67440},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67020},
+				pos: position{line: 2090, col: 5, offset: 67473},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67020},
+					pos: position{line: 2090, col: 5, offset: 67473},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2072, col: 43, offset: 66935},
+							pos:        position{line: 2085, col: 43, offset: 67388},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67064},
+							pos:   position{line: 2091, col: 5, offset: 67517},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 15, offset: 67074},
+								pos:  position{line: 2091, col: 15, offset: 67527},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2074, col: 41, offset: 66981},
+							pos:        position{line: 2087, col: 41, offset: 67434},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -44011,44 +44446,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2083, col: 1, offset: 67249},
+			pos:  position{line: 2096, col: 1, offset: 67702},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2083, col: 37, offset: 67285},
+				pos: position{line: 2096, col: 37, offset: 67738},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2083, col: 37, offset: 67285},
+					pos:  position{line: 2096, col: 37, offset: 67738},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2085, col: 1, offset: 67352},
+			pos:  position{line: 2098, col: 1, offset: 67805},
 			expr: &actionExpr{
-				pos: position{line: 2086, col: 5, offset: 67392},
+				pos: position{line: 2099, col: 5, offset: 67845},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2086, col: 5, offset: 67392},
+					pos: position{line: 2099, col: 5, offset: 67845},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2087, col: 5, offset: 67403},
+							pos: position{line: 2100, col: 5, offset: 67856},
 							expr: &litMatcher{
-								pos:        position{line: 2074, col: 41, offset: 66981},
+								pos:        position{line: 2087, col: 41, offset: 67434},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2088, col: 5, offset: 67445},
+							pos:   position{line: 2101, col: 5, offset: 67898},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2088, col: 14, offset: 67454},
+								pos:  position{line: 2101, col: 14, offset: 67907},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44058,33 +44493,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2106, col: 1, offset: 67996},
+			pos:  position{line: 2119, col: 1, offset: 68449},
 			expr: &seqExpr{
-				pos: position{line: 2107, col: 5, offset: 68041},
+				pos: position{line: 2120, col: 5, offset: 68494},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2107, col: 5, offset: 68041},
+						pos: position{line: 2120, col: 5, offset: 68494},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2107, col: 6, offset: 68042},
+							pos:  position{line: 2120, col: 6, offset: 68495},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2108, col: 5, offset: 68061},
+						pos:        position{line: 2121, col: 5, offset: 68514},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2109, col: 5, offset: 68069},
+						pos: position{line: 2122, col: 5, offset: 68522},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2113, col: 5, offset: 68183},
+						pos: position{line: 2126, col: 5, offset: 68636},
 						expr: &notExpr{
-							pos: position{line: 2113, col: 7, offset: 68185},
+							pos: position{line: 2126, col: 7, offset: 68638},
 							expr: &charClassMatcher{
-								pos:        position{line: 2763, col: 13, offset: 88028},
+								pos:        position{line: 2776, col: 13, offset: 88481},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44097,29 +44532,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2116, col: 1, offset: 68202},
+			pos:  position{line: 2129, col: 1, offset: 68655},
 			expr: &actionExpr{
-				pos: position{line: 2117, col: 5, offset: 68235},
+				pos: position{line: 2130, col: 5, offset: 68688},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2117, col: 5, offset: 68235},
+					pos: position{line: 2130, col: 5, offset: 68688},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2099, col: 5, offset: 67798},
+							pos:        position{line: 2112, col: 5, offset: 68251},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2100, col: 5, offset: 67807},
+							pos: position{line: 2113, col: 5, offset: 68260},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2104, col: 5, offset: 67930},
+							pos: position{line: 2117, col: 5, offset: 68383},
 							expr: &notExpr{
-								pos: position{line: 2104, col: 7, offset: 67932},
+								pos: position{line: 2117, col: 7, offset: 68385},
 								expr: &litMatcher{
-									pos:        position{line: 2104, col: 8, offset: 67933},
+									pos:        position{line: 2117, col: 8, offset: 68386},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44127,15 +44562,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2118, col: 5, offset: 68279},
+							pos:   position{line: 2131, col: 5, offset: 68732},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2118, col: 15, offset: 68289},
+								pos:  position{line: 2131, col: 15, offset: 68742},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2119, col: 5, offset: 68328},
+							pos:  position{line: 2132, col: 5, offset: 68781},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44144,20 +44579,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2123, col: 1, offset: 68465},
+			pos:  position{line: 2136, col: 1, offset: 68918},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68506},
+				pos: position{line: 2137, col: 5, offset: 68959},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68506},
+					pos: position{line: 2137, col: 5, offset: 68959},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68506},
+							pos: position{line: 2137, col: 5, offset: 68959},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44166,18 +44601,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68545},
+							pos:   position{line: 2138, col: 5, offset: 68998},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2125, col: 14, offset: 68554},
+								pos: position{line: 2138, col: 14, offset: 69007},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2125, col: 15, offset: 68555},
+									pos:  position{line: 2138, col: 15, offset: 69008},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2126, col: 5, offset: 68593},
+							pos: position{line: 2139, col: 5, offset: 69046},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44186,31 +44621,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2132, col: 1, offset: 68734},
+			pos:  position{line: 2145, col: 1, offset: 69187},
 			expr: &actionExpr{
-				pos: position{line: 2133, col: 5, offset: 68774},
+				pos: position{line: 2146, col: 5, offset: 69227},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2133, col: 5, offset: 68774},
+					pos: position{line: 2146, col: 5, offset: 69227},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2134, col: 5, offset: 68785},
+							pos: position{line: 2147, col: 5, offset: 69238},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2134, col: 6, offset: 68786},
+								pos:  position{line: 2147, col: 6, offset: 69239},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2135, col: 5, offset: 68827},
+							pos:   position{line: 2148, col: 5, offset: 69280},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2135, col: 14, offset: 68836},
+								pos:  position{line: 2148, col: 14, offset: 69289},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44220,35 +44655,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2140, col: 1, offset: 68924},
+			pos:  position{line: 2153, col: 1, offset: 69377},
 			expr: &choiceExpr{
-				pos: position{line: 2142, col: 5, offset: 68995},
+				pos: position{line: 2155, col: 5, offset: 69448},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2142, col: 5, offset: 68995},
+						pos: position{line: 2155, col: 5, offset: 69448},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 5, offset: 68995},
+							pos: position{line: 2155, col: 5, offset: 69448},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 5, offset: 68995},
+									pos:   position{line: 2155, col: 5, offset: 69448},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60190},
+										pos: position{line: 1879, col: 25, offset: 60643},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60190},
+											pos: position{line: 1879, col: 25, offset: 60643},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60190},
+													pos:        position{line: 1879, col: 25, offset: 60643},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60195},
+													pos: position{line: 1879, col: 30, offset: 60648},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60195},
+														pos:        position{line: 1879, col: 30, offset: 60648},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44259,21 +44694,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 40, offset: 69030},
+									pos:        position{line: 2155, col: 40, offset: 69483},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 45, offset: 69035},
+									pos:   position{line: 2155, col: 45, offset: 69488},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 55, offset: 69045},
+										pos:  position{line: 2155, col: 55, offset: 69498},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 89, offset: 69079},
+									pos:        position{line: 2155, col: 89, offset: 69532},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44282,21 +44717,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2146, col: 7, offset: 69248},
+						pos: position{line: 2159, col: 7, offset: 69701},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2146, col: 7, offset: 69248},
+							pos: position{line: 2159, col: 7, offset: 69701},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2146, col: 7, offset: 69248},
+									pos:   position{line: 2159, col: 7, offset: 69701},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44305,21 +44740,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 42, offset: 69283},
+									pos:        position{line: 2159, col: 42, offset: 69736},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2146, col: 47, offset: 69288},
+									pos:   position{line: 2159, col: 47, offset: 69741},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2146, col: 57, offset: 69298},
+										pos:  position{line: 2159, col: 57, offset: 69751},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 91, offset: 69332},
+									pos:        position{line: 2159, col: 91, offset: 69785},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44328,21 +44763,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2151, col: 7, offset: 69538},
+						pos: position{line: 2164, col: 7, offset: 69991},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2151, col: 7, offset: 69538},
+							pos: position{line: 2164, col: 7, offset: 69991},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2151, col: 7, offset: 69538},
+									pos:   position{line: 2164, col: 7, offset: 69991},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44351,21 +44786,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 42, offset: 69573},
+									pos:        position{line: 2164, col: 42, offset: 70026},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2151, col: 46, offset: 69577},
+									pos:   position{line: 2164, col: 46, offset: 70030},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2151, col: 56, offset: 69587},
+										pos:  position{line: 2164, col: 56, offset: 70040},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2151, col: 90, offset: 69621},
+									pos:        position{line: 2164, col: 90, offset: 70074},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44378,29 +44813,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2168, col: 1, offset: 70106},
+			pos:  position{line: 2181, col: 1, offset: 70559},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70136},
+				pos: position{line: 2182, col: 5, offset: 70589},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70136},
+					pos: position{line: 2182, col: 5, offset: 70589},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2164, col: 40, offset: 70057},
+							pos:        position{line: 2177, col: 40, offset: 70510},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70177},
+							pos:   position{line: 2183, col: 5, offset: 70630},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 15, offset: 70187},
+								pos:  position{line: 2183, col: 15, offset: 70640},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2166, col: 38, offset: 70100},
+							pos:        position{line: 2179, col: 38, offset: 70553},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44411,44 +44846,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2175, col: 1, offset: 70353},
+			pos:  position{line: 2188, col: 1, offset: 70806},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2175, col: 34, offset: 70386},
+				pos: position{line: 2188, col: 34, offset: 70839},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2175, col: 34, offset: 70386},
+					pos:  position{line: 2188, col: 34, offset: 70839},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2177, col: 1, offset: 70417},
+			pos:  position{line: 2190, col: 1, offset: 70870},
 			expr: &actionExpr{
-				pos: position{line: 2178, col: 5, offset: 70486},
+				pos: position{line: 2191, col: 5, offset: 70939},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2178, col: 5, offset: 70486},
+					pos: position{line: 2191, col: 5, offset: 70939},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2179, col: 5, offset: 70497},
+							pos: position{line: 2192, col: 5, offset: 70950},
 							expr: &litMatcher{
-								pos:        position{line: 2166, col: 38, offset: 70100},
+								pos:        position{line: 2179, col: 38, offset: 70553},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2180, col: 5, offset: 70536},
+							pos:   position{line: 2193, col: 5, offset: 70989},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2180, col: 14, offset: 70545},
+								pos:  position{line: 2193, col: 14, offset: 70998},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44458,29 +44893,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2205, col: 1, offset: 71227},
+			pos:  position{line: 2218, col: 1, offset: 71680},
 			expr: &actionExpr{
-				pos: position{line: 2206, col: 5, offset: 71257},
+				pos: position{line: 2219, col: 5, offset: 71710},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2206, col: 5, offset: 71257},
+					pos: position{line: 2219, col: 5, offset: 71710},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2189, col: 5, offset: 70793},
+							pos:        position{line: 2202, col: 5, offset: 71246},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 70802},
+							pos: position{line: 2203, col: 5, offset: 71255},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 70922},
+							pos: position{line: 2207, col: 5, offset: 71375},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 70924},
+								pos: position{line: 2207, col: 7, offset: 71377},
 								expr: &litMatcher{
-									pos:        position{line: 2194, col: 8, offset: 70925},
+									pos:        position{line: 2207, col: 8, offset: 71378},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44488,38 +44923,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71297},
+							pos:   position{line: 2220, col: 5, offset: 71750},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2207, col: 15, offset: 71307},
+								pos:  position{line: 2220, col: 15, offset: 71760},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 5, offset: 71030},
+							pos:        position{line: 2210, col: 5, offset: 71483},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2198, col: 5, offset: 71038},
+							pos: position{line: 2211, col: 5, offset: 71491},
 							expr: &litMatcher{
-								pos:        position{line: 2198, col: 6, offset: 71039},
+								pos:        position{line: 2211, col: 6, offset: 71492},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2199, col: 5, offset: 71102},
+							pos: position{line: 2212, col: 5, offset: 71555},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2203, col: 5, offset: 71213},
+							pos: position{line: 2216, col: 5, offset: 71666},
 							expr: &notExpr{
-								pos: position{line: 2203, col: 7, offset: 71215},
+								pos: position{line: 2216, col: 7, offset: 71668},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88028},
+									pos:        position{line: 2776, col: 13, offset: 88481},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44533,20 +44968,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2212, col: 1, offset: 71474},
+			pos:  position{line: 2225, col: 1, offset: 71927},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71512},
+				pos: position{line: 2226, col: 5, offset: 71965},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71512},
+					pos: position{line: 2226, col: 5, offset: 71965},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71512},
+							pos: position{line: 2226, col: 5, offset: 71965},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90947},
+								pos: position{line: 2886, col: 10, offset: 91400},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90947},
+									pos:        position{line: 2886, col: 10, offset: 91400},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44555,18 +44990,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71551},
+							pos:   position{line: 2227, col: 5, offset: 72004},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2214, col: 14, offset: 71560},
+								pos: position{line: 2227, col: 14, offset: 72013},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2214, col: 15, offset: 71561},
+									pos:  position{line: 2227, col: 15, offset: 72014},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2215, col: 5, offset: 71597},
+							pos: position{line: 2228, col: 5, offset: 72050},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -44575,49 +45010,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2221, col: 1, offset: 71738},
+			pos:  position{line: 2234, col: 1, offset: 72191},
 			expr: &actionExpr{
-				pos: position{line: 2222, col: 5, offset: 71775},
+				pos: position{line: 2235, col: 5, offset: 72228},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2222, col: 5, offset: 71775},
+					pos: position{line: 2235, col: 5, offset: 72228},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2223, col: 5, offset: 71786},
+							pos: position{line: 2236, col: 5, offset: 72239},
 							expr: &seqExpr{
-								pos: position{line: 2197, col: 5, offset: 71030},
+								pos: position{line: 2210, col: 5, offset: 71483},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2197, col: 5, offset: 71030},
+										pos:        position{line: 2210, col: 5, offset: 71483},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2198, col: 5, offset: 71038},
+										pos: position{line: 2211, col: 5, offset: 71491},
 										expr: &litMatcher{
-											pos:        position{line: 2198, col: 6, offset: 71039},
+											pos:        position{line: 2211, col: 6, offset: 71492},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2199, col: 5, offset: 71102},
+										pos: position{line: 2212, col: 5, offset: 71555},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2203, col: 5, offset: 71213},
+										pos: position{line: 2216, col: 5, offset: 71666},
 										expr: &notExpr{
-											pos: position{line: 2203, col: 7, offset: 71215},
+											pos: position{line: 2216, col: 7, offset: 71668},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88028},
+												pos:        position{line: 2776, col: 13, offset: 88481},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44629,10 +45064,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2224, col: 5, offset: 71825},
+							pos:   position{line: 2237, col: 5, offset: 72278},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2224, col: 14, offset: 71834},
+								pos:  position{line: 2237, col: 14, offset: 72287},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44642,35 +45077,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2229, col: 1, offset: 71922},
+			pos:  position{line: 2242, col: 1, offset: 72375},
 			expr: &choiceExpr{
-				pos: position{line: 2231, col: 5, offset: 71986},
+				pos: position{line: 2244, col: 5, offset: 72439},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2231, col: 5, offset: 71986},
+						pos: position{line: 2244, col: 5, offset: 72439},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 5, offset: 71986},
+							pos: position{line: 2244, col: 5, offset: 72439},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 5, offset: 71986},
+									pos:   position{line: 2244, col: 5, offset: 72439},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1866, col: 25, offset: 60190},
+										pos: position{line: 1879, col: 25, offset: 60643},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1866, col: 25, offset: 60190},
+											pos: position{line: 1879, col: 25, offset: 60643},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1866, col: 25, offset: 60190},
+													pos:        position{line: 1879, col: 25, offset: 60643},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1866, col: 30, offset: 60195},
+													pos: position{line: 1879, col: 30, offset: 60648},
 													expr: &litMatcher{
-														pos:        position{line: 1866, col: 30, offset: 60195},
+														pos:        position{line: 1879, col: 30, offset: 60648},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44681,21 +45116,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 40, offset: 72021},
+									pos:        position{line: 2244, col: 40, offset: 72474},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 45, offset: 72026},
+									pos:   position{line: 2244, col: 45, offset: 72479},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 55, offset: 72036},
+										pos:  position{line: 2244, col: 55, offset: 72489},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 86, offset: 72067},
+									pos:        position{line: 2244, col: 86, offset: 72520},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -44704,21 +45139,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2235, col: 7, offset: 72232},
+						pos: position{line: 2248, col: 7, offset: 72685},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2235, col: 7, offset: 72232},
+							pos: position{line: 2248, col: 7, offset: 72685},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2235, col: 7, offset: 72232},
+									pos:   position{line: 2248, col: 7, offset: 72685},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44727,21 +45162,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 42, offset: 72267},
+									pos:        position{line: 2248, col: 42, offset: 72720},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2235, col: 47, offset: 72272},
+									pos:   position{line: 2248, col: 47, offset: 72725},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2235, col: 57, offset: 72282},
+										pos:  position{line: 2248, col: 57, offset: 72735},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 88, offset: 72313},
+									pos:        position{line: 2248, col: 88, offset: 72766},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44750,21 +45185,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2240, col: 7, offset: 72516},
+						pos: position{line: 2253, col: 7, offset: 72969},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2240, col: 7, offset: 72516},
+							pos: position{line: 2253, col: 7, offset: 72969},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2240, col: 7, offset: 72516},
+									pos:   position{line: 2253, col: 7, offset: 72969},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1862, col: 25, offset: 60117},
+										pos: position{line: 1875, col: 25, offset: 60570},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1862, col: 25, offset: 60117},
+											pos: position{line: 1875, col: 25, offset: 60570},
 											expr: &litMatcher{
-												pos:        position{line: 1862, col: 25, offset: 60117},
+												pos:        position{line: 1875, col: 25, offset: 60570},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44773,21 +45208,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2240, col: 42, offset: 72551},
+									pos:        position{line: 2253, col: 42, offset: 73004},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2240, col: 46, offset: 72555},
+									pos:   position{line: 2253, col: 46, offset: 73008},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2240, col: 56, offset: 72565},
+										pos:  position{line: 2253, col: 56, offset: 73018},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2240, col: 87, offset: 72596},
+									pos:        position{line: 2253, col: 87, offset: 73049},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44800,29 +45235,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2247, col: 1, offset: 72863},
+			pos:  position{line: 2260, col: 1, offset: 73316},
 			expr: &actionExpr{
-				pos: position{line: 2248, col: 5, offset: 72885},
+				pos: position{line: 2261, col: 5, offset: 73338},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2248, col: 5, offset: 72885},
+					pos: position{line: 2261, col: 5, offset: 73338},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73100},
+							pos:        position{line: 2267, col: 27, offset: 73553},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2249, col: 5, offset: 72912},
+							pos:   position{line: 2262, col: 5, offset: 73365},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2249, col: 14, offset: 72921},
+								pos:  position{line: 2262, col: 14, offset: 73374},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73100},
+							pos:        position{line: 2267, col: 27, offset: 73553},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44833,43 +45268,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2256, col: 1, offset: 73105},
+			pos:  position{line: 2269, col: 1, offset: 73558},
 			expr: &choiceExpr{
-				pos: position{line: 2256, col: 25, offset: 73129},
+				pos: position{line: 2269, col: 25, offset: 73582},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2256, col: 25, offset: 73129},
+						pos:  position{line: 2269, col: 25, offset: 73582},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2258, col: 21, offset: 73181},
+						pos: position{line: 2271, col: 21, offset: 73634},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2258, col: 21, offset: 73181},
+							pos:   position{line: 2271, col: 21, offset: 73634},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2258, col: 29, offset: 73189},
+								pos: position{line: 2271, col: 29, offset: 73642},
 								expr: &choiceExpr{
-									pos: position{line: 2258, col: 30, offset: 73190},
+									pos: position{line: 2271, col: 30, offset: 73643},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79464},
+												pos: position{line: 2483, col: 5, offset: 79917},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79464},
+														pos: position{line: 2483, col: 5, offset: 79917},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79540},
+														pos:   position{line: 2486, col: 5, offset: 79993},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79558},
+															pos: position{line: 2487, col: 9, offset: 80011},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79559},
+																pos:        position{line: 2487, col: 10, offset: 80012},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44881,7 +45316,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2258, col: 49, offset: 73209},
+											pos:        position{line: 2271, col: 49, offset: 73662},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -44897,23 +45332,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2262, col: 1, offset: 73266},
+			pos:  position{line: 2275, col: 1, offset: 73719},
 			expr: &actionExpr{
-				pos: position{line: 2264, col: 5, offset: 73333},
+				pos: position{line: 2277, col: 5, offset: 73786},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2264, col: 5, offset: 73333},
+					pos: position{line: 2277, col: 5, offset: 73786},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2264, col: 5, offset: 73333},
+							pos:   position{line: 2277, col: 5, offset: 73786},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1862, col: 25, offset: 60117},
+								pos: position{line: 1875, col: 25, offset: 60570},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1862, col: 25, offset: 60117},
+									pos: position{line: 1875, col: 25, offset: 60570},
 									expr: &litMatcher{
-										pos:        position{line: 1862, col: 25, offset: 60117},
+										pos:        position{line: 1875, col: 25, offset: 60570},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44922,21 +45357,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73100},
+							pos:        position{line: 2267, col: 27, offset: 73553},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73401},
+							pos:   position{line: 2279, col: 5, offset: 73854},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73410},
+								pos:  position{line: 2279, col: 14, offset: 73863},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2254, col: 27, offset: 73100},
+							pos:        position{line: 2267, col: 27, offset: 73553},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44947,29 +45382,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2274, col: 1, offset: 73673},
+			pos:  position{line: 2287, col: 1, offset: 74126},
 			expr: &actionExpr{
-				pos: position{line: 2275, col: 5, offset: 73697},
+				pos: position{line: 2288, col: 5, offset: 74150},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2275, col: 5, offset: 73697},
+					pos: position{line: 2288, col: 5, offset: 74150},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73924},
+							pos:        position{line: 2294, col: 29, offset: 74377},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2276, col: 5, offset: 73727},
+							pos:   position{line: 2289, col: 5, offset: 74180},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2276, col: 14, offset: 73736},
+								pos:  position{line: 2289, col: 14, offset: 74189},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73924},
+							pos:        position{line: 2294, col: 29, offset: 74377},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44980,43 +45415,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2283, col: 1, offset: 73929},
+			pos:  position{line: 2296, col: 1, offset: 74382},
 			expr: &choiceExpr{
-				pos: position{line: 2283, col: 27, offset: 73955},
+				pos: position{line: 2296, col: 27, offset: 74408},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2283, col: 27, offset: 73955},
+						pos:  position{line: 2296, col: 27, offset: 74408},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2285, col: 23, offset: 74011},
+						pos: position{line: 2298, col: 23, offset: 74464},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2285, col: 23, offset: 74011},
+							pos:   position{line: 2298, col: 23, offset: 74464},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2285, col: 31, offset: 74019},
+								pos: position{line: 2298, col: 31, offset: 74472},
 								expr: &choiceExpr{
-									pos: position{line: 2285, col: 32, offset: 74020},
+									pos: position{line: 2298, col: 32, offset: 74473},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79464},
+												pos: position{line: 2483, col: 5, offset: 79917},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79464},
+														pos: position{line: 2483, col: 5, offset: 79917},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79540},
+														pos:   position{line: 2486, col: 5, offset: 79993},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79558},
+															pos: position{line: 2487, col: 9, offset: 80011},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79559},
+																pos:        position{line: 2487, col: 10, offset: 80012},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45028,7 +45463,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2285, col: 51, offset: 74039},
+											pos:        position{line: 2298, col: 51, offset: 74492},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -45044,23 +45479,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2289, col: 1, offset: 74096},
+			pos:  position{line: 2302, col: 1, offset: 74549},
 			expr: &actionExpr{
-				pos: position{line: 2291, col: 5, offset: 74168},
+				pos: position{line: 2304, col: 5, offset: 74621},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2291, col: 5, offset: 74168},
+					pos: position{line: 2304, col: 5, offset: 74621},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2291, col: 5, offset: 74168},
+							pos:   position{line: 2304, col: 5, offset: 74621},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1862, col: 25, offset: 60117},
+								pos: position{line: 1875, col: 25, offset: 60570},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1862, col: 25, offset: 60117},
+									pos: position{line: 1875, col: 25, offset: 60570},
 									expr: &litMatcher{
-										pos:        position{line: 1862, col: 25, offset: 60117},
+										pos:        position{line: 1875, col: 25, offset: 60570},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45069,21 +45504,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73924},
+							pos:        position{line: 2294, col: 29, offset: 74377},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 5, offset: 74238},
+							pos:   position{line: 2306, col: 5, offset: 74691},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 14, offset: 74247},
+								pos:  position{line: 2306, col: 14, offset: 74700},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2281, col: 29, offset: 73924},
+							pos:        position{line: 2294, col: 29, offset: 74377},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45094,27 +45529,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2302, col: 1, offset: 74716},
+			pos:  position{line: 2315, col: 1, offset: 75169},
 			expr: &actionExpr{
-				pos: position{line: 2303, col: 5, offset: 74732},
+				pos: position{line: 2316, col: 5, offset: 75185},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2303, col: 5, offset: 74732},
+					pos: position{line: 2316, col: 5, offset: 75185},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2303, col: 5, offset: 74732},
+							pos: position{line: 2316, col: 5, offset: 75185},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74795},
+							pos:   position{line: 2319, col: 5, offset: 75248},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2306, col: 12, offset: 74802},
+								pos: position{line: 2319, col: 12, offset: 75255},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2306, col: 12, offset: 74802},
+									pos: position{line: 2319, col: 12, offset: 75255},
 									expr: &litMatcher{
-										pos:        position{line: 2306, col: 13, offset: 74803},
+										pos:        position{line: 2319, col: 13, offset: 75256},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45123,16 +45558,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 74911},
+							pos: position{line: 2323, col: 5, offset: 75364},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 91008},
+							pos: position{line: 2890, col: 11, offset: 91461},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 91008},
+								pos: position{line: 2890, col: 11, offset: 91461},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 91008},
+									pos:        position{line: 2890, col: 11, offset: 91461},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45141,36 +45576,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 12, offset: 75070},
+							pos:   position{line: 2327, col: 12, offset: 75523},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2314, col: 19, offset: 75077},
+								pos:  position{line: 2327, col: 19, offset: 75530},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45179,9 +45614,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -45192,24 +45627,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2318, col: 1, offset: 75173},
+			pos:  position{line: 2331, col: 1, offset: 75626},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75194},
+				pos: position{line: 2332, col: 5, offset: 75647},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75194},
+					pos: position{line: 2332, col: 5, offset: 75647},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2319, col: 5, offset: 75194},
+							pos: position{line: 2332, col: 5, offset: 75647},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75309},
+							pos:   position{line: 2337, col: 5, offset: 75762},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2324, col: 14, offset: 75318},
+								pos: position{line: 2337, col: 14, offset: 75771},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2324, col: 15, offset: 75319},
+									pos:  position{line: 2337, col: 15, offset: 75772},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45220,38 +45655,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2328, col: 1, offset: 75400},
+			pos:  position{line: 2341, col: 1, offset: 75853},
 			expr: &actionExpr{
-				pos: position{line: 2329, col: 5, offset: 75427},
+				pos: position{line: 2342, col: 5, offset: 75880},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2329, col: 5, offset: 75427},
+					pos: position{line: 2342, col: 5, offset: 75880},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2329, col: 5, offset: 75427},
+							pos: position{line: 2342, col: 5, offset: 75880},
 							expr: &choiceExpr{
-								pos: position{line: 2895, col: 8, offset: 91345},
+								pos: position{line: 2908, col: 8, offset: 91798},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91118},
+										pos: position{line: 2895, col: 12, offset: 91571},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91119},
+											pos: position{line: 2895, col: 13, offset: 91572},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91119},
+													pos:        position{line: 2895, col: 13, offset: 91572},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91126},
+													pos:        position{line: 2895, col: 20, offset: 91579},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91135},
+													pos:        position{line: 2895, col: 29, offset: 91588},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45260,36 +45695,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91295},
+										pos: position{line: 2905, col: 8, offset: 91748},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91296,
+											line: 2905, col: 9, offset: 91749,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75436},
+							pos:   position{line: 2343, col: 5, offset: 75889},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2331, col: 9, offset: 75454},
+								pos: position{line: 2344, col: 9, offset: 75907},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88175},
+										pos: position{line: 2785, col: 5, offset: 88628},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88175},
+											pos: position{line: 2785, col: 5, offset: 88628},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88175},
+													pos:   position{line: 2785, col: 5, offset: 88628},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88181},
+														pos: position{line: 2785, col: 11, offset: 88634},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88181},
+															pos: position{line: 2785, col: 11, offset: 88634},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88181},
+																pos:        position{line: 2785, col: 11, offset: 88634},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45299,32 +45734,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88239},
+													pos: position{line: 2788, col: 5, offset: 88692},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88250},
+														pos: position{line: 2789, col: 9, offset: 88703},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88250},
+																pos:        position{line: 2789, col: 9, offset: 88703},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88299},
+																pos: position{line: 2790, col: 9, offset: 88752},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88379},
+													pos: position{line: 2794, col: 5, offset: 88832},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88390},
+														pos: position{line: 2795, col: 9, offset: 88843},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88390},
+																pos: position{line: 2795, col: 9, offset: 88843},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	pos:        position{line: 2795, col: 9, offset: 88843},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45333,13 +45768,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 23, offset: 88404},
+																pos:        position{line: 2795, col: 23, offset: 88857},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 27, offset: 88408},
+																pos:        position{line: 2795, col: 27, offset: 88861},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45352,12 +45787,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 91008},
+										pos: position{line: 2890, col: 11, offset: 91461},
 										run: (*parser).callonSectionTitleElement30,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 91008},
+											pos: position{line: 2890, col: 11, offset: 91461},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 91008},
+												pos:        position{line: 2890, col: 11, offset: 91461},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45366,21 +45801,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80635},
+										pos: position{line: 2514, col: 5, offset: 81088},
 										run: (*parser).callonSectionTitleElement33,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80635},
+											pos: position{line: 2514, col: 5, offset: 81088},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80635},
+													pos:        position{line: 2514, col: 5, offset: 81088},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80640},
+													pos: position{line: 2514, col: 10, offset: 81093},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80641},
+														pos:        position{line: 2514, col: 11, offset: 81094},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45391,29 +45826,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80833},
+										pos: position{line: 2520, col: 5, offset: 81286},
 										run: (*parser).callonSectionTitleElement38,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80833},
+											pos: position{line: 2520, col: 5, offset: 81286},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80833},
+													pos: position{line: 2520, col: 5, offset: 81286},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80904},
+													pos: position{line: 2523, col: 5, offset: 81357},
 													run: (*parser).callonSectionTitleElement41,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81029},
+													pos:        position{line: 2527, col: 5, offset: 81482},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81033},
+													pos: position{line: 2527, col: 9, offset: 81486},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81034},
+														pos:        position{line: 2527, col: 10, offset: 81487},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45424,31 +45859,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75519},
+										pos:  position{line: 2347, col: 11, offset: 75972},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88601},
+										pos: position{line: 2803, col: 5, offset: 89054},
 										run: (*parser).callonSectionTitleElement46,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88611},
+											pos: position{line: 2804, col: 9, offset: 89064},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88612},
+													pos:        position{line: 2804, col: 10, offset: 89065},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88709},
+													pos: position{line: 2806, col: 13, offset: 89162},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88709},
+															pos: position{line: 2806, col: 13, offset: 89162},
 															run: (*parser).callonSectionTitleElement50,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88809},
+															pos:        position{line: 2809, col: 13, offset: 89262},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45456,20 +45891,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88815},
+													pos:        position{line: 2809, col: 19, offset: 89268},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88853},
+													pos: position{line: 2812, col: 13, offset: 89306},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88853},
+															pos: position{line: 2812, col: 13, offset: 89306},
 															run: (*parser).callonSectionTitleElement54,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88946},
+															pos:        position{line: 2815, col: 14, offset: 89399},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45478,18 +45913,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88990},
+													pos: position{line: 2817, col: 12, offset: 89443},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88990},
+															pos:        position{line: 2817, col: 12, offset: 89443},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88994},
+															pos: position{line: 2817, col: 16, offset: 89447},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88995},
+																pos:        position{line: 2817, col: 17, offset: 89448},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45501,35 +45936,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75592},
+										pos:  position{line: 2349, col: 11, offset: 76045},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75608},
+										pos:  position{line: 2350, col: 11, offset: 76061},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75636},
+										pos:  position{line: 2351, col: 11, offset: 76089},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79464},
+										pos: position{line: 2483, col: 5, offset: 79917},
 										run: (*parser).callonSectionTitleElement63,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79464},
+													pos: position{line: 2483, col: 5, offset: 79917},
 													run: (*parser).callonSectionTitleElement65,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79540},
+													pos:   position{line: 2486, col: 5, offset: 79993},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79558},
+														pos: position{line: 2487, col: 9, offset: 80011},
 														run: (*parser).callonSectionTitleElement67,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79559},
+															pos:        position{line: 2487, col: 10, offset: 80012},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45541,39 +45976,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2340, col: 11, offset: 75721},
+										pos:  position{line: 2353, col: 11, offset: 76174},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 643, col: 5, offset: 20301},
+										pos: position{line: 656, col: 5, offset: 20754},
 										run: (*parser).callonSectionTitleElement70,
 										expr: &seqExpr{
-											pos: position{line: 643, col: 5, offset: 20301},
+											pos: position{line: 656, col: 5, offset: 20754},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 643, col: 5, offset: 20301},
+													pos: position{line: 656, col: 5, offset: 20754},
 													run: (*parser).callonSectionTitleElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 646, col: 5, offset: 20373},
+													pos:   position{line: 659, col: 5, offset: 20826},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 646, col: 14, offset: 20382},
+														pos: position{line: 659, col: 14, offset: 20835},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20511},
+																pos: position{line: 665, col: 5, offset: 20964},
 																run: (*parser).callonSectionTitleElement75,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20511},
+																	pos: position{line: 665, col: 5, offset: 20964},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20511},
+																			pos:        position{line: 665, col: 5, offset: 20964},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 13, offset: 20519},
+																			pos:   position{line: 665, col: 13, offset: 20972},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45605,7 +46040,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 32, offset: 20538},
+																			pos:        position{line: 665, col: 32, offset: 20991},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45614,19 +46049,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 659, col: 5, offset: 20779},
+																pos: position{line: 672, col: 5, offset: 21232},
 																run: (*parser).callonSectionTitleElement85,
 																expr: &seqExpr{
-																	pos: position{line: 659, col: 5, offset: 20779},
+																	pos: position{line: 672, col: 5, offset: 21232},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 659, col: 5, offset: 20779},
+																			pos:        position{line: 672, col: 5, offset: 21232},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 659, col: 9, offset: 20783},
+																			pos:   position{line: 672, col: 9, offset: 21236},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45658,7 +46093,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 659, col: 28, offset: 20802},
+																			pos:        position{line: 672, col: 28, offset: 21255},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45667,19 +46102,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 20983},
+																pos: position{line: 678, col: 25, offset: 21436},
 																run: (*parser).callonSectionTitleElement95,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 20983},
+																	pos: position{line: 678, col: 25, offset: 21436},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 20983},
+																			pos:        position{line: 678, col: 25, offset: 21436},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 37, offset: 20995},
+																			pos:   position{line: 678, col: 37, offset: 21448},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45711,33 +46146,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 56, offset: 21014},
+																			pos:   position{line: 678, col: 56, offset: 21467},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 62, offset: 21020},
+																				pos: position{line: 678, col: 62, offset: 21473},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonSectionTitleElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45745,12 +46180,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonSectionTitleElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45767,7 +46202,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 78, offset: 21036},
+																			pos:        position{line: 678, col: 78, offset: 21489},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45776,19 +46211,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 669, col: 25, offset: 21154},
+																pos: position{line: 682, col: 25, offset: 21607},
 																run: (*parser).callonSectionTitleElement117,
 																expr: &seqExpr{
-																	pos: position{line: 669, col: 25, offset: 21154},
+																	pos: position{line: 682, col: 25, offset: 21607},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 669, col: 25, offset: 21154},
+																			pos:        position{line: 682, col: 25, offset: 21607},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 38, offset: 21167},
+																			pos:   position{line: 682, col: 38, offset: 21620},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -45820,33 +46255,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 669, col: 57, offset: 21186},
+																			pos:   position{line: 682, col: 57, offset: 21639},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 669, col: 63, offset: 21192},
+																				pos: position{line: 682, col: 63, offset: 21645},
 																				expr: &actionExpr{
-																					pos: position{line: 673, col: 17, offset: 21315},
+																					pos: position{line: 686, col: 17, offset: 21768},
 																					run: (*parser).callonSectionTitleElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 673, col: 17, offset: 21315},
+																								pos:        position{line: 686, col: 17, offset: 21768},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 673, col: 21, offset: 21319},
+																								pos:   position{line: 686, col: 21, offset: 21772},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 673, col: 28, offset: 21326},
+																									pos: position{line: 686, col: 28, offset: 21779},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 673, col: 28, offset: 21326},
+																											pos: position{line: 686, col: 28, offset: 21779},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 673, col: 28, offset: 21326},
+																												pos:        position{line: 686, col: 28, offset: 21779},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -45854,12 +46289,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 675, col: 9, offset: 21380},
+																											pos: position{line: 688, col: 9, offset: 21833},
 																											run: (*parser).callonSectionTitleElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 675, col: 9, offset: 21380},
+																													pos:        position{line: 688, col: 9, offset: 21833},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -45876,7 +46311,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 669, col: 79, offset: 21208},
+																			pos:        position{line: 682, col: 79, offset: 21661},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -45891,27 +46326,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1213, col: 23, offset: 37389},
+										pos: position{line: 1226, col: 23, offset: 37842},
 										run: (*parser).callonSectionTitleElement139,
 										expr: &seqExpr{
-											pos: position{line: 1213, col: 23, offset: 37389},
+											pos: position{line: 1226, col: 23, offset: 37842},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37357},
+													pos:        position{line: 1224, col: 32, offset: 37810},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1213, col: 51, offset: 37417},
+													pos:   position{line: 1226, col: 51, offset: 37870},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1213, col: 56, offset: 37422},
+														pos: position{line: 1226, col: 56, offset: 37875},
 														run: (*parser).callonSectionTitleElement143,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1213, col: 56, offset: 37422},
+															pos: position{line: 1226, col: 56, offset: 37875},
 															expr: &charClassMatcher{
-																pos:        position{line: 1213, col: 56, offset: 37422},
+																pos:        position{line: 1226, col: 56, offset: 37875},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45921,7 +46356,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37357},
+													pos:        position{line: 1224, col: 32, offset: 37810},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45930,17 +46365,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76174},
+										pos: position{line: 2366, col: 5, offset: 76627},
 										run: (*parser).callonSectionTitleElement147,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76174},
+											pos: position{line: 2366, col: 5, offset: 76627},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76174},
+													pos: position{line: 2366, col: 5, offset: 76627},
 													run: (*parser).callonSectionTitleElement149,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76229},
+													pos:   position{line: 2369, col: 5, offset: 76682},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12348},
@@ -45983,27 +46418,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1213, col: 23, offset: 37389},
+																							pos: position{line: 1226, col: 23, offset: 37842},
 																							run: (*parser).callonSectionTitleElement162,
 																							expr: &seqExpr{
-																								pos: position{line: 1213, col: 23, offset: 37389},
+																								pos: position{line: 1226, col: 23, offset: 37842},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1211, col: 32, offset: 37357},
+																										pos:        position{line: 1224, col: 32, offset: 37810},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1213, col: 51, offset: 37417},
+																										pos:   position{line: 1226, col: 51, offset: 37870},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1213, col: 56, offset: 37422},
+																											pos: position{line: 1226, col: 56, offset: 37875},
 																											run: (*parser).callonSectionTitleElement166,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1213, col: 56, offset: 37422},
+																												pos: position{line: 1226, col: 56, offset: 37875},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1213, col: 56, offset: 37422},
+																													pos:        position{line: 1226, col: 56, offset: 37875},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -46013,7 +46448,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1211, col: 32, offset: 37357},
+																										pos:        position{line: 1224, col: 32, offset: 37810},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -46022,35 +46457,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 643, col: 5, offset: 20301},
+																							pos: position{line: 656, col: 5, offset: 20754},
 																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
-																								pos: position{line: 643, col: 5, offset: 20301},
+																								pos: position{line: 656, col: 5, offset: 20754},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 643, col: 5, offset: 20301},
+																										pos: position{line: 656, col: 5, offset: 20754},
 																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 646, col: 5, offset: 20373},
+																										pos:   position{line: 659, col: 5, offset: 20826},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 646, col: 14, offset: 20382},
+																											pos: position{line: 659, col: 14, offset: 20835},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20511},
+																													pos: position{line: 665, col: 5, offset: 20964},
 																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20511},
+																														pos: position{line: 665, col: 5, offset: 20964},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20511},
+																																pos:        position{line: 665, col: 5, offset: 20964},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 13, offset: 20519},
+																																pos:   position{line: 665, col: 13, offset: 20972},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46082,7 +46517,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 32, offset: 20538},
+																																pos:        position{line: 665, col: 32, offset: 20991},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46091,19 +46526,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 659, col: 5, offset: 20779},
+																													pos: position{line: 672, col: 5, offset: 21232},
 																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
-																														pos: position{line: 659, col: 5, offset: 20779},
+																														pos: position{line: 672, col: 5, offset: 21232},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 659, col: 5, offset: 20779},
+																																pos:        position{line: 672, col: 5, offset: 21232},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 659, col: 9, offset: 20783},
+																																pos:   position{line: 672, col: 9, offset: 21236},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46135,7 +46570,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 659, col: 28, offset: 20802},
+																																pos:        position{line: 672, col: 28, offset: 21255},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46144,19 +46579,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 665, col: 25, offset: 20983},
+																													pos: position{line: 678, col: 25, offset: 21436},
 																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
-																														pos: position{line: 665, col: 25, offset: 20983},
+																														pos: position{line: 678, col: 25, offset: 21436},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 665, col: 25, offset: 20983},
+																																pos:        position{line: 678, col: 25, offset: 21436},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 37, offset: 20995},
+																																pos:   position{line: 678, col: 37, offset: 21448},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46188,33 +46623,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 56, offset: 21014},
+																																pos:   position{line: 678, col: 56, offset: 21467},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 665, col: 62, offset: 21020},
+																																	pos: position{line: 678, col: 62, offset: 21473},
 																																	expr: &actionExpr{
-																																		pos: position{line: 673, col: 17, offset: 21315},
+																																		pos: position{line: 686, col: 17, offset: 21768},
 																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 673, col: 17, offset: 21315},
+																																			pos: position{line: 686, col: 17, offset: 21768},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 673, col: 17, offset: 21315},
+																																					pos:        position{line: 686, col: 17, offset: 21768},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 673, col: 21, offset: 21319},
+																																					pos:   position{line: 686, col: 21, offset: 21772},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 673, col: 28, offset: 21326},
+																																						pos: position{line: 686, col: 28, offset: 21779},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 673, col: 28, offset: 21326},
+																																								pos: position{line: 686, col: 28, offset: 21779},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 673, col: 28, offset: 21326},
+																																									pos:        position{line: 686, col: 28, offset: 21779},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46222,12 +46657,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 675, col: 9, offset: 21380},
+																																								pos: position{line: 688, col: 9, offset: 21833},
 																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 675, col: 9, offset: 21380},
+																																									pos: position{line: 688, col: 9, offset: 21833},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 675, col: 9, offset: 21380},
+																																										pos:        position{line: 688, col: 9, offset: 21833},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46244,7 +46679,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 665, col: 78, offset: 21036},
+																																pos:        position{line: 678, col: 78, offset: 21489},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46253,19 +46688,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 669, col: 25, offset: 21154},
+																													pos: position{line: 682, col: 25, offset: 21607},
 																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
-																														pos: position{line: 669, col: 25, offset: 21154},
+																														pos: position{line: 682, col: 25, offset: 21607},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 669, col: 25, offset: 21154},
+																																pos:        position{line: 682, col: 25, offset: 21607},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 669, col: 38, offset: 21167},
+																																pos:   position{line: 682, col: 38, offset: 21620},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46297,33 +46732,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 669, col: 57, offset: 21186},
+																																pos:   position{line: 682, col: 57, offset: 21639},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 669, col: 63, offset: 21192},
+																																	pos: position{line: 682, col: 63, offset: 21645},
 																																	expr: &actionExpr{
-																																		pos: position{line: 673, col: 17, offset: 21315},
+																																		pos: position{line: 686, col: 17, offset: 21768},
 																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 673, col: 17, offset: 21315},
+																																			pos: position{line: 686, col: 17, offset: 21768},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 673, col: 17, offset: 21315},
+																																					pos:        position{line: 686, col: 17, offset: 21768},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 673, col: 21, offset: 21319},
+																																					pos:   position{line: 686, col: 21, offset: 21772},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 673, col: 28, offset: 21326},
+																																						pos: position{line: 686, col: 28, offset: 21779},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 673, col: 28, offset: 21326},
+																																								pos: position{line: 686, col: 28, offset: 21779},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 673, col: 28, offset: 21326},
+																																									pos:        position{line: 686, col: 28, offset: 21779},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46331,12 +46766,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 675, col: 9, offset: 21380},
+																																								pos: position{line: 688, col: 9, offset: 21833},
 																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 675, col: 9, offset: 21380},
+																																									pos: position{line: 688, col: 9, offset: 21833},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 675, col: 9, offset: 21380},
+																																										pos:        position{line: 688, col: 9, offset: 21833},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46353,7 +46788,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 669, col: 79, offset: 21208},
+																																pos:        position{line: 682, col: 79, offset: 21661},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46394,12 +46829,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76250},
+													pos: position{line: 2369, col: 26, offset: 76703},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90947},
+														pos: position{line: 2886, col: 10, offset: 91400},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90947},
+															pos:        position{line: 2886, col: 10, offset: 91400},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46408,30 +46843,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76257},
+													pos: position{line: 2369, col: 33, offset: 76710},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91345},
+														pos: position{line: 2908, col: 8, offset: 91798},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91118},
+																pos: position{line: 2895, col: 12, offset: 91571},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91119},
+																	pos: position{line: 2895, col: 13, offset: 91572},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91119},
+																			pos:        position{line: 2895, col: 13, offset: 91572},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91126},
+																			pos:        position{line: 2895, col: 20, offset: 91579},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91135},
+																			pos:        position{line: 2895, col: 29, offset: 91588},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46440,9 +46875,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91295},
+																pos: position{line: 2905, col: 8, offset: 91748},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91296,
+																	line: 2905, col: 9, offset: 91749,
 																},
 															},
 														},
@@ -46452,27 +46887,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1273, col: 5, offset: 39253},
+										pos: position{line: 1286, col: 5, offset: 39706},
 										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
-											pos: position{line: 1273, col: 5, offset: 39253},
+											pos: position{line: 1286, col: 5, offset: 39706},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1273, col: 5, offset: 39253},
+													pos:        position{line: 1286, col: 5, offset: 39706},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1273, col: 14, offset: 39262},
+													pos:   position{line: 1286, col: 14, offset: 39715},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90599},
+														pos: position{line: 2871, col: 7, offset: 91052},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90599},
+															pos: position{line: 2871, col: 7, offset: 91052},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90599},
+																pos:        position{line: 2871, col: 7, offset: 91052},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46482,7 +46917,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1273, col: 22, offset: 39270},
+													pos:        position{line: 1286, col: 22, offset: 39723},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46491,27 +46926,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1278, col: 5, offset: 39389},
+										pos: position{line: 1291, col: 5, offset: 39842},
 										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
-											pos: position{line: 1278, col: 5, offset: 39389},
+											pos: position{line: 1291, col: 5, offset: 39842},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1278, col: 5, offset: 39389},
+													pos:        position{line: 1291, col: 5, offset: 39842},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1278, col: 10, offset: 39394},
+													pos:   position{line: 1291, col: 10, offset: 39847},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90599},
+														pos: position{line: 2871, col: 7, offset: 91052},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90599},
+															pos: position{line: 2871, col: 7, offset: 91052},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90599},
+																pos:        position{line: 2871, col: 7, offset: 91052},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46521,7 +46956,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1278, col: 18, offset: 39402},
+													pos:        position{line: 1291, col: 18, offset: 39855},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46530,14 +46965,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2345, col: 11, offset: 75975},
+										pos:  position{line: 2358, col: 11, offset: 76428},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89255},
+										pos: position{line: 2825, col: 12, offset: 89708},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89255},
+											pos:        position{line: 2825, col: 12, offset: 89708},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46553,52 +46988,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76519},
+			pos:  position{line: 2379, col: 1, offset: 76972},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76606},
+				pos: position{line: 2380, col: 5, offset: 77059},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76606},
+					pos: position{line: 2380, col: 5, offset: 77059},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76606},
+							pos:   position{line: 2380, col: 5, offset: 77059},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76615},
+								pos: position{line: 2380, col: 14, offset: 77068},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76641},
+									pos: position{line: 2382, col: 9, offset: 77094},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76641},
+										pos: position{line: 2382, col: 9, offset: 77094},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91281},
+												pos: position{line: 2903, col: 11, offset: 91734},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91283,
+													line: 2903, col: 13, offset: 91736,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76656},
+												pos:   position{line: 2383, col: 9, offset: 77109},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76678},
+													pos: position{line: 2384, col: 13, offset: 77131},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2772, col: 5, offset: 88175},
+															pos: position{line: 2785, col: 5, offset: 88628},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2772, col: 5, offset: 88175},
+																pos: position{line: 2785, col: 5, offset: 88628},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2772, col: 5, offset: 88175},
+																		pos:   position{line: 2785, col: 5, offset: 88628},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2772, col: 11, offset: 88181},
+																			pos: position{line: 2785, col: 11, offset: 88634},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2772, col: 11, offset: 88181},
+																				pos: position{line: 2785, col: 11, offset: 88634},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2772, col: 11, offset: 88181},
+																					pos:        position{line: 2785, col: 11, offset: 88634},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46608,32 +47043,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2775, col: 5, offset: 88239},
+																		pos: position{line: 2788, col: 5, offset: 88692},
 																		expr: &seqExpr{
-																			pos: position{line: 2776, col: 9, offset: 88250},
+																			pos: position{line: 2789, col: 9, offset: 88703},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2776, col: 9, offset: 88250},
+																					pos:        position{line: 2789, col: 9, offset: 88703},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2777, col: 9, offset: 88299},
+																					pos: position{line: 2790, col: 9, offset: 88752},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2781, col: 5, offset: 88379},
+																		pos: position{line: 2794, col: 5, offset: 88832},
 																		expr: &seqExpr{
-																			pos: position{line: 2782, col: 9, offset: 88390},
+																			pos: position{line: 2795, col: 9, offset: 88843},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2782, col: 9, offset: 88390},
+																					pos: position{line: 2795, col: 9, offset: 88843},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2782, col: 9, offset: 88390},
+																						pos:        position{line: 2795, col: 9, offset: 88843},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46642,13 +47077,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2782, col: 23, offset: 88404},
+																					pos:        position{line: 2795, col: 23, offset: 88857},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2782, col: 27, offset: 88408},
+																					pos:        position{line: 2795, col: 27, offset: 88861},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -46661,12 +47096,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 11, offset: 91008},
+															pos: position{line: 2890, col: 11, offset: 91461},
 															run: (*parser).callonNormalGroup27,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2877, col: 11, offset: 91008},
+																pos: position{line: 2890, col: 11, offset: 91461},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 11, offset: 91008},
+																	pos:        position{line: 2890, col: 11, offset: 91461},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46675,25 +47110,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76724},
+															pos:  position{line: 2386, col: 15, offset: 77177},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80635},
+															pos: position{line: 2514, col: 5, offset: 81088},
 															run: (*parser).callonNormalGroup31,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80635},
+																pos: position{line: 2514, col: 5, offset: 81088},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 5, offset: 80635},
+																		pos:        position{line: 2514, col: 5, offset: 81088},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2501, col: 10, offset: 80640},
+																		pos: position{line: 2514, col: 10, offset: 81093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2501, col: 11, offset: 80641},
+																			pos:        position{line: 2514, col: 11, offset: 81094},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46704,29 +47139,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2507, col: 5, offset: 80833},
+															pos: position{line: 2520, col: 5, offset: 81286},
 															run: (*parser).callonNormalGroup36,
 															expr: &seqExpr{
-																pos: position{line: 2507, col: 5, offset: 80833},
+																pos: position{line: 2520, col: 5, offset: 81286},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2507, col: 5, offset: 80833},
+																		pos: position{line: 2520, col: 5, offset: 81286},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80904},
+																		pos: position{line: 2523, col: 5, offset: 81357},
 																		run: (*parser).callonNormalGroup39,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81029},
+																		pos:        position{line: 2527, col: 5, offset: 81482},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 9, offset: 81033},
+																		pos: position{line: 2527, col: 9, offset: 81486},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 10, offset: 81034},
+																			pos:        position{line: 2527, col: 10, offset: 81487},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -46737,27 +47172,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2790, col: 5, offset: 88601},
+															pos: position{line: 2803, col: 5, offset: 89054},
 															run: (*parser).callonNormalGroup43,
 															expr: &choiceExpr{
-																pos: position{line: 2791, col: 9, offset: 88611},
+																pos: position{line: 2804, col: 9, offset: 89064},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2791, col: 10, offset: 88612},
+																		pos:        position{line: 2804, col: 10, offset: 89065},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 13, offset: 88709},
+																		pos: position{line: 2806, col: 13, offset: 89162},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2793, col: 13, offset: 88709},
+																				pos: position{line: 2806, col: 13, offset: 89162},
 																				run: (*parser).callonNormalGroup47,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2796, col: 13, offset: 88809},
+																				pos:        position{line: 2809, col: 13, offset: 89262},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -46765,20 +47200,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2796, col: 19, offset: 88815},
+																		pos:        position{line: 2809, col: 19, offset: 89268},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2799, col: 13, offset: 88853},
+																		pos: position{line: 2812, col: 13, offset: 89306},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2799, col: 13, offset: 88853},
+																				pos: position{line: 2812, col: 13, offset: 89306},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88946},
+																				pos:        position{line: 2815, col: 14, offset: 89399},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -46787,18 +47222,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2804, col: 12, offset: 88990},
+																		pos: position{line: 2817, col: 12, offset: 89443},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2804, col: 12, offset: 88990},
+																				pos:        position{line: 2817, col: 12, offset: 89443},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2804, col: 16, offset: 88994},
+																				pos: position{line: 2817, col: 16, offset: 89447},
 																				expr: &litMatcher{
-																					pos:        position{line: 2804, col: 17, offset: 88995},
+																					pos:        position{line: 2817, col: 17, offset: 89448},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46810,25 +47245,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91118},
+															pos: position{line: 2895, col: 12, offset: 91571},
 															run: (*parser).callonNormalGroup57,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91119},
+																pos: position{line: 2895, col: 13, offset: 91572},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91119},
+																		pos:        position{line: 2895, col: 13, offset: 91572},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91126},
+																		pos:        position{line: 2895, col: 20, offset: 91579},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91135},
+																		pos:        position{line: 2895, col: 29, offset: 91588},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46837,35 +47272,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 643, col: 5, offset: 20301},
+															pos: position{line: 656, col: 5, offset: 20754},
 															run: (*parser).callonNormalGroup62,
 															expr: &seqExpr{
-																pos: position{line: 643, col: 5, offset: 20301},
+																pos: position{line: 656, col: 5, offset: 20754},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 643, col: 5, offset: 20301},
+																		pos: position{line: 656, col: 5, offset: 20754},
 																		run: (*parser).callonNormalGroup64,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 646, col: 5, offset: 20373},
+																		pos:   position{line: 659, col: 5, offset: 20826},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 646, col: 14, offset: 20382},
+																			pos: position{line: 659, col: 14, offset: 20835},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20511},
+																					pos: position{line: 665, col: 5, offset: 20964},
 																					run: (*parser).callonNormalGroup67,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20511},
+																						pos: position{line: 665, col: 5, offset: 20964},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20511},
+																								pos:        position{line: 665, col: 5, offset: 20964},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 13, offset: 20519},
+																								pos:   position{line: 665, col: 13, offset: 20972},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -46897,7 +47332,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 32, offset: 20538},
+																								pos:        position{line: 665, col: 32, offset: 20991},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46906,19 +47341,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 659, col: 5, offset: 20779},
+																					pos: position{line: 672, col: 5, offset: 21232},
 																					run: (*parser).callonNormalGroup77,
 																					expr: &seqExpr{
-																						pos: position{line: 659, col: 5, offset: 20779},
+																						pos: position{line: 672, col: 5, offset: 21232},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 659, col: 5, offset: 20779},
+																								pos:        position{line: 672, col: 5, offset: 21232},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 659, col: 9, offset: 20783},
+																								pos:   position{line: 672, col: 9, offset: 21236},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -46950,7 +47385,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 659, col: 28, offset: 20802},
+																								pos:        position{line: 672, col: 28, offset: 21255},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46959,19 +47394,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 20983},
+																					pos: position{line: 678, col: 25, offset: 21436},
 																					run: (*parser).callonNormalGroup87,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 20983},
+																						pos: position{line: 678, col: 25, offset: 21436},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 20983},
+																								pos:        position{line: 678, col: 25, offset: 21436},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 37, offset: 20995},
+																								pos:   position{line: 678, col: 37, offset: 21448},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47003,33 +47438,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 56, offset: 21014},
+																								pos:   position{line: 678, col: 56, offset: 21467},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 62, offset: 21020},
+																									pos: position{line: 678, col: 62, offset: 21473},
 																									expr: &actionExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										run: (*parser).callonNormalGroup98,
 																										expr: &seqExpr{
-																											pos: position{line: 673, col: 17, offset: 21315},
+																											pos: position{line: 686, col: 17, offset: 21768},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 673, col: 17, offset: 21315},
+																													pos:        position{line: 686, col: 17, offset: 21768},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 673, col: 21, offset: 21319},
+																													pos:   position{line: 686, col: 21, offset: 21772},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 673, col: 28, offset: 21326},
+																																	pos:        position{line: 686, col: 28, offset: 21779},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47037,12 +47472,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																run: (*parser).callonNormalGroup105,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 675, col: 9, offset: 21380},
+																																	pos: position{line: 688, col: 9, offset: 21833},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 675, col: 9, offset: 21380},
+																																		pos:        position{line: 688, col: 9, offset: 21833},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47059,7 +47494,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 78, offset: 21036},
+																								pos:        position{line: 678, col: 78, offset: 21489},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47068,19 +47503,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 669, col: 25, offset: 21154},
+																					pos: position{line: 682, col: 25, offset: 21607},
 																					run: (*parser).callonNormalGroup109,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 25, offset: 21154},
+																						pos: position{line: 682, col: 25, offset: 21607},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 25, offset: 21154},
+																								pos:        position{line: 682, col: 25, offset: 21607},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 38, offset: 21167},
+																								pos:   position{line: 682, col: 38, offset: 21620},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47112,33 +47547,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 57, offset: 21186},
+																								pos:   position{line: 682, col: 57, offset: 21639},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 669, col: 63, offset: 21192},
+																									pos: position{line: 682, col: 63, offset: 21645},
 																									expr: &actionExpr{
-																										pos: position{line: 673, col: 17, offset: 21315},
+																										pos: position{line: 686, col: 17, offset: 21768},
 																										run: (*parser).callonNormalGroup120,
 																										expr: &seqExpr{
-																											pos: position{line: 673, col: 17, offset: 21315},
+																											pos: position{line: 686, col: 17, offset: 21768},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 673, col: 17, offset: 21315},
+																													pos:        position{line: 686, col: 17, offset: 21768},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 673, col: 21, offset: 21319},
+																													pos:   position{line: 686, col: 21, offset: 21772},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 673, col: 28, offset: 21326},
+																														pos: position{line: 686, col: 28, offset: 21779},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 673, col: 28, offset: 21326},
+																																pos: position{line: 686, col: 28, offset: 21779},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 673, col: 28, offset: 21326},
+																																	pos:        position{line: 686, col: 28, offset: 21779},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47146,12 +47581,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 675, col: 9, offset: 21380},
+																																pos: position{line: 688, col: 9, offset: 21833},
 																																run: (*parser).callonNormalGroup127,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 675, col: 9, offset: 21380},
+																																	pos: position{line: 688, col: 9, offset: 21833},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 675, col: 9, offset: 21380},
+																																		pos:        position{line: 688, col: 9, offset: 21833},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47168,7 +47603,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 669, col: 79, offset: 21208},
+																								pos:        position{line: 682, col: 79, offset: 21661},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47183,35 +47618,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76891},
+															pos:  position{line: 2391, col: 15, offset: 77344},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76911},
+															pos:  position{line: 2392, col: 15, offset: 77364},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 77000},
+															pos:  position{line: 2393, col: 15, offset: 77453},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79464},
+															pos: position{line: 2483, col: 5, offset: 79917},
 															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79464},
+																pos: position{line: 2483, col: 5, offset: 79917},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79464},
+																		pos: position{line: 2483, col: 5, offset: 79917},
 																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79540},
+																		pos:   position{line: 2486, col: 5, offset: 79993},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79558},
+																			pos: position{line: 2487, col: 9, offset: 80011},
 																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79559},
+																				pos:        position{line: 2487, col: 10, offset: 80012},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47223,32 +47658,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1221, col: 5, offset: 37835},
+															pos: position{line: 1234, col: 5, offset: 38288},
 															run: (*parser).callonNormalGroup140,
 															expr: &seqExpr{
-																pos: position{line: 1221, col: 5, offset: 37835},
+																pos: position{line: 1234, col: 5, offset: 38288},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1221, col: 5, offset: 37835},
+																		pos: position{line: 1234, col: 5, offset: 38288},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 5, offset: 37911},
+																		pos:        position{line: 1237, col: 5, offset: 38364},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1225, col: 5, offset: 37919},
+																		pos: position{line: 1238, col: 5, offset: 38372},
 																		run: (*parser).callonNormalGroup144,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1229, col: 5, offset: 38006},
+																		pos: position{line: 1242, col: 5, offset: 38459},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47257,30 +47692,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1229, col: 12, offset: 38013},
+																		pos: position{line: 1242, col: 12, offset: 38466},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91345},
+																			pos: position{line: 2908, col: 8, offset: 91798},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47289,9 +47724,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91295},
+																					pos: position{line: 2905, col: 8, offset: 91748},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91296,
+																						line: 2905, col: 9, offset: 91749,
 																					},
 																				},
 																			},
@@ -47301,31 +47736,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77182},
+															pos:  position{line: 2396, col: 15, offset: 77635},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1213, col: 23, offset: 37389},
+															pos: position{line: 1226, col: 23, offset: 37842},
 															run: (*parser).callonNormalGroup158,
 															expr: &seqExpr{
-																pos: position{line: 1213, col: 23, offset: 37389},
+																pos: position{line: 1226, col: 23, offset: 37842},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37357},
+																		pos:        position{line: 1224, col: 32, offset: 37810},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1213, col: 51, offset: 37417},
+																		pos:   position{line: 1226, col: 51, offset: 37870},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1213, col: 56, offset: 37422},
+																			pos: position{line: 1226, col: 56, offset: 37875},
 																			run: (*parser).callonNormalGroup162,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1213, col: 56, offset: 37422},
+																				pos: position{line: 1226, col: 56, offset: 37875},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1213, col: 56, offset: 37422},
+																					pos:        position{line: 1226, col: 56, offset: 37875},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -47335,7 +47770,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37357},
+																		pos:        position{line: 1224, col: 32, offset: 37810},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -47344,10 +47779,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2812, col: 12, offset: 89255},
+															pos: position{line: 2825, col: 12, offset: 89708},
 															run: (*parser).callonNormalGroup166,
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 12, offset: 89255},
+																pos:        position{line: 2825, col: 12, offset: 89708},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47363,9 +47798,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -47374,28 +47809,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77620},
+			pos:  position{line: 2407, col: 1, offset: 78073},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77653},
+				pos: position{line: 2408, col: 5, offset: 78106},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77653},
+					pos: position{line: 2408, col: 5, offset: 78106},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77653},
+							pos:   position{line: 2408, col: 5, offset: 78106},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77662},
+								pos: position{line: 2408, col: 14, offset: 78115},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77663},
+									pos:  position{line: 2408, col: 15, offset: 78116},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -47404,41 +47839,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77760},
+			pos:  position{line: 2412, col: 1, offset: 78213},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77800},
+				pos: position{line: 2413, col: 5, offset: 78253},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77800},
+					pos: position{line: 2413, col: 5, offset: 78253},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91281},
+							pos: position{line: 2903, col: 11, offset: 91734},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91283,
+								line: 2903, col: 13, offset: 91736,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77811},
+							pos:   position{line: 2414, col: 5, offset: 78264},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77829},
+								pos: position{line: 2415, col: 9, offset: 78282},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88175},
+										pos: position{line: 2785, col: 5, offset: 88628},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88175},
+											pos: position{line: 2785, col: 5, offset: 88628},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88175},
+													pos:   position{line: 2785, col: 5, offset: 88628},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88181},
+														pos: position{line: 2785, col: 11, offset: 88634},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88181},
+															pos: position{line: 2785, col: 11, offset: 88634},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88181},
+																pos:        position{line: 2785, col: 11, offset: 88634},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47448,32 +47883,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88239},
+													pos: position{line: 2788, col: 5, offset: 88692},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88250},
+														pos: position{line: 2789, col: 9, offset: 88703},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88250},
+																pos:        position{line: 2789, col: 9, offset: 88703},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88299},
+																pos: position{line: 2790, col: 9, offset: 88752},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88379},
+													pos: position{line: 2794, col: 5, offset: 88832},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88390},
+														pos: position{line: 2795, col: 9, offset: 88843},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88390},
+																pos: position{line: 2795, col: 9, offset: 88843},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2782, col: 9, offset: 88390},
+																	pos:        position{line: 2795, col: 9, offset: 88843},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47482,13 +47917,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 23, offset: 88404},
+																pos:        position{line: 2795, col: 23, offset: 88857},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 27, offset: 88408},
+																pos:        position{line: 2795, col: 27, offset: 88861},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47501,10 +47936,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90947},
+										pos: position{line: 2886, col: 10, offset: 91400},
 										run: (*parser).callonAttributeStructuredValueElement23,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90947},
+											pos:        position{line: 2886, col: 10, offset: 91400},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47512,31 +47947,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77867},
+										pos:  position{line: 2417, col: 11, offset: 78320},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88601},
+										pos: position{line: 2803, col: 5, offset: 89054},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88611},
+											pos: position{line: 2804, col: 9, offset: 89064},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88612},
+													pos:        position{line: 2804, col: 10, offset: 89065},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88709},
+													pos: position{line: 2806, col: 13, offset: 89162},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88709},
+															pos: position{line: 2806, col: 13, offset: 89162},
 															run: (*parser).callonAttributeStructuredValueElement30,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88809},
+															pos:        position{line: 2809, col: 13, offset: 89262},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47544,20 +47979,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88815},
+													pos:        position{line: 2809, col: 19, offset: 89268},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88853},
+													pos: position{line: 2812, col: 13, offset: 89306},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88853},
+															pos: position{line: 2812, col: 13, offset: 89306},
 															run: (*parser).callonAttributeStructuredValueElement34,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88946},
+															pos:        position{line: 2815, col: 14, offset: 89399},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47566,18 +48001,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 88990},
+													pos: position{line: 2817, col: 12, offset: 89443},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 88990},
+															pos:        position{line: 2817, col: 12, offset: 89443},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 88994},
+															pos: position{line: 2817, col: 16, offset: 89447},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 88995},
+																pos:        position{line: 2817, col: 17, offset: 89448},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47589,31 +48024,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77940},
+										pos:  position{line: 2419, col: 11, offset: 78393},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77956},
+										pos:  position{line: 2420, col: 11, offset: 78409},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79464},
+										pos: position{line: 2483, col: 5, offset: 79917},
 										run: (*parser).callonAttributeStructuredValueElement42,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79464},
+											pos: position{line: 2483, col: 5, offset: 79917},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79464},
+													pos: position{line: 2483, col: 5, offset: 79917},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79540},
+													pos:   position{line: 2486, col: 5, offset: 79993},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79558},
+														pos: position{line: 2487, col: 9, offset: 80011},
 														run: (*parser).callonAttributeStructuredValueElement46,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79559},
+															pos:        position{line: 2487, col: 10, offset: 80012},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47625,27 +48060,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1213, col: 23, offset: 37389},
+										pos: position{line: 1226, col: 23, offset: 37842},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &seqExpr{
-											pos: position{line: 1213, col: 23, offset: 37389},
+											pos: position{line: 1226, col: 23, offset: 37842},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37357},
+													pos:        position{line: 1224, col: 32, offset: 37810},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1213, col: 51, offset: 37417},
+													pos:   position{line: 1226, col: 51, offset: 37870},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1213, col: 56, offset: 37422},
+														pos: position{line: 1226, col: 56, offset: 37875},
 														run: (*parser).callonAttributeStructuredValueElement52,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1213, col: 56, offset: 37422},
+															pos: position{line: 1226, col: 56, offset: 37875},
 															expr: &charClassMatcher{
-																pos:        position{line: 1213, col: 56, offset: 37422},
+																pos:        position{line: 1226, col: 56, offset: 37875},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -47655,7 +48090,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37357},
+													pos:        position{line: 1224, col: 32, offset: 37810},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -47664,25 +48099,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91118},
+										pos: position{line: 2895, col: 12, offset: 91571},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91119},
+											pos: position{line: 2895, col: 13, offset: 91572},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91119},
+													pos:        position{line: 2895, col: 13, offset: 91572},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91126},
+													pos:        position{line: 2895, col: 20, offset: 91579},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91135},
+													pos:        position{line: 2895, col: 29, offset: 91588},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -47691,10 +48126,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89255},
+										pos: position{line: 2825, col: 12, offset: 89708},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89255},
+											pos:        position{line: 2825, col: 12, offset: 89708},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47710,73 +48145,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78226},
+			pos:  position{line: 2431, col: 1, offset: 78679},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78308},
+				pos: position{line: 2433, col: 5, offset: 78761},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78308},
+					pos: position{line: 2433, col: 5, offset: 78761},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78308},
+							pos: position{line: 2433, col: 5, offset: 78761},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78373},
+							pos:   position{line: 2436, col: 5, offset: 78826},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78391},
+								pos: position{line: 2437, col: 9, offset: 78844},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78391},
+										pos:  position{line: 2437, col: 9, offset: 78844},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78412},
+										pos:  position{line: 2438, col: 11, offset: 78865},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78435},
+										pos:  position{line: 2439, col: 11, offset: 78888},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78451},
+										pos:  position{line: 2440, col: 11, offset: 78904},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78480},
+										pos:  position{line: 2441, col: 11, offset: 78933},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78506},
+										pos:  position{line: 2442, col: 11, offset: 78959},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78532},
+										pos:  position{line: 2443, col: 11, offset: 78985},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1273, col: 5, offset: 39253},
+										pos: position{line: 1286, col: 5, offset: 39706},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1273, col: 5, offset: 39253},
+											pos: position{line: 1286, col: 5, offset: 39706},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1273, col: 5, offset: 39253},
+													pos:        position{line: 1286, col: 5, offset: 39706},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1273, col: 14, offset: 39262},
+													pos:   position{line: 1286, col: 14, offset: 39715},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90599},
+														pos: position{line: 2871, col: 7, offset: 91052},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90599},
+															pos: position{line: 2871, col: 7, offset: 91052},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90599},
+																pos:        position{line: 2871, col: 7, offset: 91052},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47786,7 +48221,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1273, col: 22, offset: 39270},
+													pos:        position{line: 1286, col: 22, offset: 39723},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47795,27 +48230,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1278, col: 5, offset: 39389},
+										pos: position{line: 1291, col: 5, offset: 39842},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1278, col: 5, offset: 39389},
+											pos: position{line: 1291, col: 5, offset: 39842},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1278, col: 5, offset: 39389},
+													pos:        position{line: 1291, col: 5, offset: 39842},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1278, col: 10, offset: 39394},
+													pos:   position{line: 1291, col: 10, offset: 39847},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90599},
+														pos: position{line: 2871, col: 7, offset: 91052},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90599},
+															pos: position{line: 2871, col: 7, offset: 91052},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90599},
+																pos:        position{line: 2871, col: 7, offset: 91052},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47825,7 +48260,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1278, col: 18, offset: 39402},
+													pos:        position{line: 1291, col: 18, offset: 39855},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47834,40 +48269,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1317, col: 23, offset: 40878},
+										pos: position{line: 1330, col: 23, offset: 41331},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1317, col: 23, offset: 40878},
+											pos: position{line: 1330, col: 23, offset: 41331},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1317, col: 23, offset: 40878},
+													pos:        position{line: 1330, col: 23, offset: 41331},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1317, col: 29, offset: 40884},
+													pos:   position{line: 1330, col: 29, offset: 41337},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1324, col: 30, offset: 41215},
+														pos: position{line: 1337, col: 30, offset: 41668},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1324, col: 30, offset: 41215},
+															pos: position{line: 1337, col: 30, offset: 41668},
 															expr: &choiceExpr{
-																pos: position{line: 1324, col: 31, offset: 41216},
+																pos: position{line: 1337, col: 31, offset: 41669},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 88028},
+																		pos:        position{line: 2776, col: 13, offset: 88481},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90947},
+																		pos: position{line: 2886, col: 10, offset: 91400},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90947},
+																			pos:        position{line: 2886, col: 10, offset: 91400},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47880,23 +48315,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1318, col: 5, offset: 40923},
+													pos:   position{line: 1331, col: 5, offset: 41376},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1318, col: 11, offset: 40929},
+														pos: position{line: 1331, col: 11, offset: 41382},
 														expr: &actionExpr{
-															pos: position{line: 1318, col: 12, offset: 40930},
+															pos: position{line: 1331, col: 12, offset: 41383},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1318, col: 12, offset: 40930},
+																pos: position{line: 1331, col: 12, offset: 41383},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1318, col: 12, offset: 40930},
+																		pos: position{line: 1331, col: 12, offset: 41383},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47905,18 +48340,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1318, col: 19, offset: 40937},
+																		pos:        position{line: 1331, col: 19, offset: 41390},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1318, col: 23, offset: 40941},
+																		pos: position{line: 1331, col: 23, offset: 41394},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47925,28 +48360,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1318, col: 30, offset: 40948},
+																		pos:   position{line: 1331, col: 30, offset: 41401},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1324, col: 30, offset: 41215},
+																			pos: position{line: 1337, col: 30, offset: 41668},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1324, col: 30, offset: 41215},
+																				pos: position{line: 1337, col: 30, offset: 41668},
 																				expr: &choiceExpr{
-																					pos: position{line: 1324, col: 31, offset: 41216},
+																					pos: position{line: 1337, col: 31, offset: 41669},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88028},
+																							pos:        position{line: 2776, col: 13, offset: 88481},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47964,23 +48399,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1319, col: 5, offset: 41015},
+													pos:   position{line: 1332, col: 5, offset: 41468},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1319, col: 11, offset: 41021},
+														pos: position{line: 1332, col: 11, offset: 41474},
 														expr: &actionExpr{
-															pos: position{line: 1319, col: 12, offset: 41022},
+															pos: position{line: 1332, col: 12, offset: 41475},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1319, col: 12, offset: 41022},
+																pos: position{line: 1332, col: 12, offset: 41475},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1319, col: 12, offset: 41022},
+																		pos: position{line: 1332, col: 12, offset: 41475},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47989,18 +48424,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1319, col: 19, offset: 41029},
+																		pos:        position{line: 1332, col: 19, offset: 41482},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1319, col: 23, offset: 41033},
+																		pos: position{line: 1332, col: 23, offset: 41486},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90947},
+																			pos: position{line: 2886, col: 10, offset: 91400},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90947},
+																				pos:        position{line: 2886, col: 10, offset: 91400},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48009,28 +48444,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1319, col: 30, offset: 41040},
+																		pos:   position{line: 1332, col: 30, offset: 41493},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1324, col: 30, offset: 41215},
+																			pos: position{line: 1337, col: 30, offset: 41668},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1324, col: 30, offset: 41215},
+																				pos: position{line: 1337, col: 30, offset: 41668},
 																				expr: &choiceExpr{
-																					pos: position{line: 1324, col: 31, offset: 41216},
+																					pos: position{line: 1337, col: 31, offset: 41669},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88028},
+																							pos:        position{line: 2776, col: 13, offset: 88481},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90947},
+																							pos: position{line: 2886, col: 10, offset: 91400},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90947},
+																								pos:        position{line: 2886, col: 10, offset: 91400},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48048,7 +48483,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1320, col: 5, offset: 41107},
+													pos:        position{line: 1333, col: 5, offset: 41560},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -48057,15 +48492,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78611},
+										pos:  position{line: 2446, col: 11, offset: 79064},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78631},
+										pos:  position{line: 2447, col: 11, offset: 79084},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78654},
+										pos:  position{line: 2448, col: 11, offset: 79107},
 										name: "InlineMenu",
 									},
 								},
@@ -48077,80 +48512,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78711},
+			pos:  position{line: 2452, col: 1, offset: 79164},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78799},
+				pos: position{line: 2454, col: 5, offset: 79252},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78799},
+					pos: position{line: 2454, col: 5, offset: 79252},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78799},
+							pos: position{line: 2454, col: 5, offset: 79252},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78876},
+							pos:   position{line: 2457, col: 5, offset: 79329},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78894},
+								pos: position{line: 2458, col: 9, offset: 79347},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1399, col: 26, offset: 44485},
+										pos: position{line: 1412, col: 26, offset: 44938},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1399, col: 26, offset: 44485},
+											pos: position{line: 1412, col: 26, offset: 44938},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1397, col: 32, offset: 44453},
+													pos:        position{line: 1410, col: 32, offset: 44906},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1399, col: 54, offset: 44513},
+													pos:   position{line: 1412, col: 54, offset: 44966},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1403, col: 33, offset: 44726},
+														pos: position{line: 1416, col: 33, offset: 45179},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1403, col: 34, offset: 44727},
+																pos: position{line: 1416, col: 34, offset: 45180},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1403, col: 34, offset: 44727},
+																	pos: position{line: 1416, col: 34, offset: 45180},
 																	expr: &seqExpr{
-																		pos: position{line: 1403, col: 35, offset: 44728},
+																		pos: position{line: 1416, col: 35, offset: 45181},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1403, col: 35, offset: 44728},
+																				pos: position{line: 1416, col: 35, offset: 45181},
 																				expr: &litMatcher{
-																					pos:        position{line: 1397, col: 32, offset: 44453},
+																					pos:        position{line: 1410, col: 32, offset: 44906},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1403, col: 64, offset: 44757,
+																				line: 1416, col: 64, offset: 45210,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1405, col: 11, offset: 44930},
+																pos: position{line: 1418, col: 11, offset: 45383},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1405, col: 11, offset: 44930},
+																	pos: position{line: 1418, col: 11, offset: 45383},
 																	expr: &seqExpr{
-																		pos: position{line: 1405, col: 12, offset: 44931},
+																		pos: position{line: 1418, col: 12, offset: 45384},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1405, col: 12, offset: 44931},
+																				pos: position{line: 1418, col: 12, offset: 45384},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90947},
+																					pos: position{line: 2886, col: 10, offset: 91400},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90947},
+																						pos:        position{line: 2886, col: 10, offset: 91400},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48159,27 +48594,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1405, col: 19, offset: 44938},
+																				pos: position{line: 1418, col: 19, offset: 45391},
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91118},
+																					pos: position{line: 2895, col: 12, offset: 91571},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91119},
+																						pos: position{line: 2895, col: 13, offset: 91572},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91119},
+																								pos:        position{line: 2895, col: 13, offset: 91572},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91126},
+																								pos:        position{line: 2895, col: 20, offset: 91579},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91135},
+																								pos:        position{line: 2895, col: 29, offset: 91588},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48189,16 +48624,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1405, col: 28, offset: 44947},
+																				pos: position{line: 1418, col: 28, offset: 45400},
 																				expr: &litMatcher{
-																					pos:        position{line: 1397, col: 32, offset: 44453},
+																					pos:        position{line: 1410, col: 32, offset: 44906},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1405, col: 57, offset: 44976,
+																				line: 1418, col: 57, offset: 45429,
 																			},
 																		},
 																	},
@@ -48208,15 +48643,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1397, col: 32, offset: 44453},
+													pos:        position{line: 1410, col: 32, offset: 44906},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1399, col: 121, offset: 44580},
+													pos: position{line: 1412, col: 121, offset: 45033},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88028},
+														pos:        position{line: 2776, col: 13, offset: 88481},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48227,45 +48662,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1387, col: 26, offset: 43768},
+										pos: position{line: 1400, col: 26, offset: 44221},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1387, col: 26, offset: 43768},
+											pos: position{line: 1400, col: 26, offset: 44221},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 43738},
+													pos:        position{line: 1398, col: 32, offset: 44191},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1387, col: 54, offset: 43796},
+													pos:   position{line: 1400, col: 54, offset: 44249},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1391, col: 33, offset: 44009},
+														pos: position{line: 1404, col: 33, offset: 44462},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1391, col: 34, offset: 44010},
+																pos: position{line: 1404, col: 34, offset: 44463},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1391, col: 34, offset: 44010},
+																	pos: position{line: 1404, col: 34, offset: 44463},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1391, col: 35, offset: 44011},
+																			pos: position{line: 1404, col: 35, offset: 44464},
 																			expr: &litMatcher{
-																				pos:        position{line: 1385, col: 32, offset: 43738},
+																				pos:        position{line: 1398, col: 32, offset: 44191},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 64, offset: 44040},
+																			pos: position{line: 1404, col: 64, offset: 44493},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48274,27 +48709,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1391, col: 71, offset: 44047},
+																			pos: position{line: 1404, col: 71, offset: 44500},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48304,25 +48739,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1391, col: 80, offset: 44056,
+																			line: 1404, col: 80, offset: 44509,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1391, col: 83, offset: 44059},
+																			pos: position{line: 1404, col: 83, offset: 44512},
 																			expr: &seqExpr{
-																				pos: position{line: 1391, col: 84, offset: 44060},
+																				pos: position{line: 1404, col: 84, offset: 44513},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1391, col: 84, offset: 44060},
+																						pos: position{line: 1404, col: 84, offset: 44513},
 																						expr: &seqExpr{
-																							pos: position{line: 1391, col: 86, offset: 44062},
+																							pos: position{line: 1404, col: 86, offset: 44515},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91008},
+																									pos: position{line: 2890, col: 11, offset: 91461},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91008},
+																										pos: position{line: 2890, col: 11, offset: 91461},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91008},
+																											pos:        position{line: 2890, col: 11, offset: 91461},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48331,7 +48766,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1385, col: 32, offset: 43738},
+																									pos:        position{line: 1398, col: 32, offset: 44191},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -48340,36 +48775,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1391, col: 122, offset: 44098},
+																						pos: position{line: 1404, col: 122, offset: 44551},
 																						expr: &litMatcher{
-																							pos:        position{line: 1385, col: 32, offset: 43738},
+																							pos:        position{line: 1398, col: 32, offset: 44191},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1391, col: 151, offset: 44127},
+																						pos: position{line: 1404, col: 151, offset: 44580},
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91118},
+																							pos: position{line: 2895, col: 12, offset: 91571},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91119},
+																								pos: position{line: 2895, col: 13, offset: 91572},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91119},
+																										pos:        position{line: 2895, col: 13, offset: 91572},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91126},
+																										pos:        position{line: 2895, col: 20, offset: 91579},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91135},
+																										pos:        position{line: 2895, col: 29, offset: 91588},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48379,7 +48814,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1391, col: 160, offset: 44136,
+																						line: 1404, col: 160, offset: 44589,
 																					},
 																				},
 																			},
@@ -48388,18 +48823,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1393, col: 11, offset: 44286},
+																pos: position{line: 1406, col: 11, offset: 44739},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1393, col: 12, offset: 44287},
+																	pos: position{line: 1406, col: 12, offset: 44740},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1393, col: 12, offset: 44287},
+																			pos: position{line: 1406, col: 12, offset: 44740},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90947},
+																				pos: position{line: 2886, col: 10, offset: 91400},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90947},
+																					pos:        position{line: 2886, col: 10, offset: 91400},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48408,27 +48843,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1393, col: 19, offset: 44294},
+																			pos: position{line: 1406, col: 19, offset: 44747},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91118},
+																				pos: position{line: 2895, col: 12, offset: 91571},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91119},
+																					pos: position{line: 2895, col: 13, offset: 91572},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91119},
+																							pos:        position{line: 2895, col: 13, offset: 91572},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91126},
+																							pos:        position{line: 2895, col: 20, offset: 91579},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91135},
+																							pos:        position{line: 2895, col: 29, offset: 91588},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48438,16 +48873,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1393, col: 28, offset: 44303},
+																			pos: position{line: 1406, col: 28, offset: 44756},
 																			expr: &litMatcher{
-																				pos:        position{line: 1385, col: 32, offset: 43738},
+																				pos:        position{line: 1398, col: 32, offset: 44191},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1393, col: 57, offset: 44332,
+																			line: 1406, col: 57, offset: 44785,
 																		},
 																	},
 																},
@@ -48456,15 +48891,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 43738},
+													pos:        position{line: 1398, col: 32, offset: 44191},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1387, col: 121, offset: 43863},
+													pos: position{line: 1400, col: 121, offset: 44316},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88028},
+														pos:        position{line: 2776, col: 13, offset: 88481},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48475,7 +48910,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78942},
+										pos:  position{line: 2458, col: 57, offset: 79395},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48487,16 +48922,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 79002},
+			pos:  position{line: 2463, col: 1, offset: 79455},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79078},
+				pos: position{line: 2465, col: 5, offset: 79531},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79078},
+						pos: position{line: 2465, col: 5, offset: 79531},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79143},
+						pos:  position{line: 2468, col: 5, offset: 79596},
 						name: "QuotedText",
 					},
 				},
@@ -48504,22 +48939,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79156},
+			pos:  position{line: 2470, col: 1, offset: 79609},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79238},
+				pos: position{line: 2472, col: 5, offset: 79691},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79238},
+					pos: position{line: 2472, col: 5, offset: 79691},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79238},
+							pos: position{line: 2472, col: 5, offset: 79691},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79309},
+							pos:   position{line: 2475, col: 5, offset: 79762},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79327},
+								pos:  position{line: 2476, col: 9, offset: 79780},
 								name: "Symbol",
 							},
 						},
@@ -48529,103 +48964,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2518, col: 1, offset: 81086},
+			pos:  position{line: 2531, col: 1, offset: 81539},
 			expr: &choiceExpr{
-				pos: position{line: 2520, col: 5, offset: 81116},
+				pos: position{line: 2533, col: 5, offset: 81569},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81116},
+						pos: position{line: 2533, col: 5, offset: 81569},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81116},
+							pos: position{line: 2533, col: 5, offset: 81569},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2520, col: 5, offset: 81116},
+									pos:        position{line: 2533, col: 5, offset: 81569},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2520, col: 10, offset: 81121},
+									pos: position{line: 2533, col: 10, offset: 81574},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2520, col: 10, offset: 81121},
+											pos:  position{line: 2533, col: 10, offset: 81574},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 14, offset: 82225},
+											pos: position{line: 2562, col: 14, offset: 82678},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 14, offset: 82225},
+												pos:        position{line: 2562, col: 14, offset: 82678},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82291},
+											pos: position{line: 2566, col: 14, offset: 82744},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82291},
+												pos:        position{line: 2566, col: 14, offset: 82744},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 15, offset: 82360},
+											pos: position{line: 2570, col: 15, offset: 82813},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 15, offset: 82360},
+												pos:        position{line: 2570, col: 15, offset: 82813},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 13, offset: 82425},
+											pos: position{line: 2574, col: 13, offset: 82878},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 13, offset: 82425},
+												pos:        position{line: 2574, col: 13, offset: 82878},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 21, offset: 82995},
+											pos: position{line: 2602, col: 21, offset: 83448},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 21, offset: 82995},
+												pos:        position{line: 2602, col: 21, offset: 83448},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 5, offset: 82581},
+											pos: position{line: 2581, col: 5, offset: 83034},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2568, col: 5, offset: 82581},
+												pos: position{line: 2581, col: 5, offset: 83034},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2568, col: 5, offset: 82581},
+														pos:        position{line: 2581, col: 5, offset: 83034},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2569, col: 5, offset: 82591},
+														pos: position{line: 2582, col: 5, offset: 83044},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2573, col: 6, offset: 82678},
+														pos: position{line: 2586, col: 6, offset: 83131},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90947},
+																pos: position{line: 2886, col: 10, offset: 91400},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90947},
+																	pos:        position{line: 2886, col: 10, offset: 91400},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48633,30 +49068,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2573, col: 14, offset: 82686},
+																pos: position{line: 2586, col: 14, offset: 83139},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91345},
+																	pos: position{line: 2908, col: 8, offset: 91798},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91118},
+																			pos: position{line: 2895, col: 12, offset: 91571},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91119},
+																				pos: position{line: 2895, col: 13, offset: 91572},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91119},
+																						pos:        position{line: 2895, col: 13, offset: 91572},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91126},
+																						pos:        position{line: 2895, col: 20, offset: 91579},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91135},
+																						pos:        position{line: 2895, col: 29, offset: 91588},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -48665,9 +49100,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91295},
+																			pos: position{line: 2905, col: 8, offset: 91748},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91296,
+																				line: 2905, col: 9, offset: 91749,
 																			},
 																		},
 																	},
@@ -48679,53 +49114,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 5, offset: 82806},
+											pos: position{line: 2591, col: 5, offset: 83259},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2578, col: 5, offset: 82806},
+												pos: position{line: 2591, col: 5, offset: 83259},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2578, col: 5, offset: 82806},
+														pos:        position{line: 2591, col: 5, offset: 83259},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2579, col: 5, offset: 82816},
+														pos: position{line: 2592, col: 5, offset: 83269},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2583, col: 5, offset: 82905},
+														pos: position{line: 2596, col: 5, offset: 83358},
 														expr: &choiceExpr{
-															pos: position{line: 2583, col: 7, offset: 82907},
+															pos: position{line: 2596, col: 7, offset: 83360},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 88028},
+																	pos:        position{line: 2776, col: 13, offset: 88481},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91118},
+																	pos: position{line: 2895, col: 12, offset: 91571},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91119},
+																		pos: position{line: 2895, col: 13, offset: 91572},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91119},
+																				pos:        position{line: 2895, col: 13, offset: 91572},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91126},
+																				pos:        position{line: 2895, col: 20, offset: 91579},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91135},
+																				pos:        position{line: 2895, col: 29, offset: 91588},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -48734,9 +49169,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -48746,30 +49181,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2593, col: 20, offset: 83065},
+											pos: position{line: 2606, col: 20, offset: 83518},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2593, col: 20, offset: 83065},
+												pos:        position{line: 2606, col: 20, offset: 83518},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 21, offset: 83136},
+											pos: position{line: 2610, col: 21, offset: 83589},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2597, col: 21, offset: 83136},
+												pos:        position{line: 2610, col: 21, offset: 83589},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2601, col: 20, offset: 83206},
+											pos: position{line: 2614, col: 20, offset: 83659},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2601, col: 20, offset: 83206},
+												pos:        position{line: 2614, col: 20, offset: 83659},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -48781,73 +49216,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2524, col: 7, offset: 81376},
+						pos:  position{line: 2537, col: 7, offset: 81829},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 14, offset: 82225},
+						pos: position{line: 2562, col: 14, offset: 82678},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 14, offset: 82225},
+							pos:        position{line: 2562, col: 14, offset: 82678},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82291},
+						pos: position{line: 2566, col: 14, offset: 82744},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82291},
+							pos:        position{line: 2566, col: 14, offset: 82744},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 15, offset: 82360},
+						pos: position{line: 2570, col: 15, offset: 82813},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 15, offset: 82360},
+							pos:        position{line: 2570, col: 15, offset: 82813},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 13, offset: 82425},
+						pos: position{line: 2574, col: 13, offset: 82878},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 13, offset: 82425},
+							pos:        position{line: 2574, col: 13, offset: 82878},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82581},
+						pos: position{line: 2581, col: 5, offset: 83034},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82581},
+							pos: position{line: 2581, col: 5, offset: 83034},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82581},
+									pos:        position{line: 2581, col: 5, offset: 83034},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2569, col: 5, offset: 82591},
+									pos: position{line: 2582, col: 5, offset: 83044},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2573, col: 6, offset: 82678},
+									pos: position{line: 2586, col: 6, offset: 83131},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90947},
+											pos: position{line: 2886, col: 10, offset: 91400},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90947},
+												pos:        position{line: 2886, col: 10, offset: 91400},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48855,30 +49290,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2573, col: 14, offset: 82686},
+											pos: position{line: 2586, col: 14, offset: 83139},
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91345},
+												pos: position{line: 2908, col: 8, offset: 91798},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91118},
+														pos: position{line: 2895, col: 12, offset: 91571},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91119},
+															pos: position{line: 2895, col: 13, offset: 91572},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91119},
+																	pos:        position{line: 2895, col: 13, offset: 91572},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91126},
+																	pos:        position{line: 2895, col: 20, offset: 91579},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91135},
+																	pos:        position{line: 2895, col: 29, offset: 91588},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48887,9 +49322,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91295},
+														pos: position{line: 2905, col: 8, offset: 91748},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91296,
+															line: 2905, col: 9, offset: 91749,
 														},
 													},
 												},
@@ -48901,53 +49336,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82806},
+						pos: position{line: 2591, col: 5, offset: 83259},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82806},
+							pos: position{line: 2591, col: 5, offset: 83259},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82806},
+									pos:        position{line: 2591, col: 5, offset: 83259},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2579, col: 5, offset: 82816},
+									pos: position{line: 2592, col: 5, offset: 83269},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2583, col: 5, offset: 82905},
+									pos: position{line: 2596, col: 5, offset: 83358},
 									expr: &choiceExpr{
-										pos: position{line: 2583, col: 7, offset: 82907},
+										pos: position{line: 2596, col: 7, offset: 83360},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88028},
+												pos:        position{line: 2776, col: 13, offset: 88481},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91118},
+												pos: position{line: 2895, col: 12, offset: 91571},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91119},
+													pos: position{line: 2895, col: 13, offset: 91572},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91119},
+															pos:        position{line: 2895, col: 13, offset: 91572},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91126},
+															pos:        position{line: 2895, col: 20, offset: 91579},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91135},
+															pos:        position{line: 2895, col: 29, offset: 91588},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48956,9 +49391,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91295},
+												pos: position{line: 2905, col: 8, offset: 91748},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91296,
+													line: 2905, col: 9, offset: 91749,
 												},
 											},
 										},
@@ -48968,40 +49403,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 21, offset: 82995},
+						pos: position{line: 2602, col: 21, offset: 83448},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 21, offset: 82995},
+							pos:        position{line: 2602, col: 21, offset: 83448},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 20, offset: 83065},
+						pos: position{line: 2606, col: 20, offset: 83518},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 20, offset: 83065},
+							pos:        position{line: 2606, col: 20, offset: 83518},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 21, offset: 83136},
+						pos: position{line: 2610, col: 21, offset: 83589},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 21, offset: 83136},
+							pos:        position{line: 2610, col: 21, offset: 83589},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 20, offset: 83206},
+						pos: position{line: 2614, col: 20, offset: 83659},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 20, offset: 83206},
+							pos:        position{line: 2614, col: 20, offset: 83659},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -49012,43 +49447,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2535, col: 1, offset: 81566},
+			pos:  position{line: 2548, col: 1, offset: 82019},
 			expr: &choiceExpr{
-				pos: position{line: 2536, col: 5, offset: 81588},
+				pos: position{line: 2549, col: 5, offset: 82041},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2536, col: 5, offset: 81588},
+						pos: position{line: 2549, col: 5, offset: 82041},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 5, offset: 81588},
+							pos: position{line: 2549, col: 5, offset: 82041},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 5, offset: 81588},
+									pos:        position{line: 2549, col: 5, offset: 82041},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 11, offset: 81594},
+									pos: position{line: 2549, col: 11, offset: 82047},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 67798},
+										pos: position{line: 2112, col: 5, offset: 68251},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 67798},
+												pos:        position{line: 2112, col: 5, offset: 68251},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 67807},
+												pos: position{line: 2113, col: 5, offset: 68260},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 67930},
+												pos: position{line: 2117, col: 5, offset: 68383},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 67932},
+													pos: position{line: 2117, col: 7, offset: 68385},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 67933},
+														pos:        position{line: 2117, col: 8, offset: 68386},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49062,21 +49497,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81747},
+						pos: position{line: 2552, col: 7, offset: 82200},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81747},
+							pos: position{line: 2552, col: 7, offset: 82200},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81747},
+									pos:        position{line: 2552, col: 7, offset: 82200},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 13, offset: 81753},
+									pos: position{line: 2552, col: 13, offset: 82206},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2539, col: 14, offset: 81754},
+										pos:  position{line: 2552, col: 14, offset: 82207},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49084,38 +49519,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81904},
+						pos: position{line: 2555, col: 7, offset: 82357},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81904},
+							pos: position{line: 2555, col: 7, offset: 82357},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81904},
+									pos:        position{line: 2555, col: 7, offset: 82357},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 12, offset: 81909},
+									pos: position{line: 2555, col: 12, offset: 82362},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 67798},
+										pos: position{line: 2112, col: 5, offset: 68251},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 67798},
+												pos:        position{line: 2112, col: 5, offset: 68251},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 67807},
+												pos: position{line: 2113, col: 5, offset: 68260},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 67930},
+												pos: position{line: 2117, col: 5, offset: 68383},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 67932},
+													pos: position{line: 2117, col: 7, offset: 68385},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 67933},
+														pos:        position{line: 2117, col: 8, offset: 68386},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49129,21 +49564,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 82062},
+						pos: position{line: 2558, col: 7, offset: 82515},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 82062},
+							pos: position{line: 2558, col: 7, offset: 82515},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 82062},
+									pos:        position{line: 2558, col: 7, offset: 82515},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 82067},
+									pos: position{line: 2558, col: 12, offset: 82520},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2545, col: 13, offset: 82068},
+										pos:  position{line: 2558, col: 13, offset: 82521},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49155,63 +49590,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2678, col: 1, offset: 85108},
+			pos:  position{line: 2691, col: 1, offset: 85561},
 			expr: &actionExpr{
-				pos: position{line: 2678, col: 26, offset: 85133},
+				pos: position{line: 2691, col: 26, offset: 85586},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2678, col: 26, offset: 85133},
+					pos: position{line: 2691, col: 26, offset: 85586},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2678, col: 26, offset: 85133},
+							pos:   position{line: 2691, col: 26, offset: 85586},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2678, col: 31, offset: 85138},
+								pos: position{line: 2691, col: 31, offset: 85591},
 								expr: &actionExpr{
-									pos: position{line: 2683, col: 5, offset: 85201},
+									pos: position{line: 2696, col: 5, offset: 85654},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2683, col: 5, offset: 85201},
+										pos: position{line: 2696, col: 5, offset: 85654},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91281},
+												pos: position{line: 2903, col: 11, offset: 91734},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91283,
+													line: 2903, col: 13, offset: 91736,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85327},
+												pos:   position{line: 2699, col: 5, offset: 85780},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 16, offset: 85338},
+													pos: position{line: 2699, col: 16, offset: 85791},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 17, offset: 85339},
+														pos: position{line: 2699, col: 17, offset: 85792},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2686, col: 17, offset: 85339},
+															pos: position{line: 2699, col: 17, offset: 85792},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2686, col: 17, offset: 85339},
+																	pos:   position{line: 2699, col: 17, offset: 85792},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90774},
+																		pos: position{line: 2878, col: 12, offset: 91227},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90775},
+																			pos: position{line: 2878, col: 13, offset: 91228},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90775},
+																					pos: position{line: 2878, col: 13, offset: 91228},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90775},
+																						pos:        position{line: 2878, col: 13, offset: 91228},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90780},
+																					pos: position{line: 2878, col: 18, offset: 91233},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90780},
+																						pos:        position{line: 2878, col: 18, offset: 91233},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49223,7 +49658,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2686, col: 27, offset: 85349},
+																	pos:        position{line: 2699, col: 27, offset: 85802},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49234,38 +49669,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85377},
+												pos:   position{line: 2700, col: 5, offset: 85830},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85384},
+													pos: position{line: 2700, col: 12, offset: 85837},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 9, offset: 85394},
+														pos: position{line: 2701, col: 9, offset: 85847},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2688, col: 9, offset: 85394},
+																pos: position{line: 2701, col: 9, offset: 85847},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 9, offset: 85394},
+																	pos:        position{line: 2701, col: 9, offset: 85847},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85441},
+																pos: position{line: 2702, col: 11, offset: 85894},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85441},
+																	pos:        position{line: 2702, col: 11, offset: 85894},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85489},
+																pos: position{line: 2703, col: 11, offset: 85942},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85489},
+																	pos:        position{line: 2703, col: 11, offset: 85942},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49276,38 +49711,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85539},
+												pos:   position{line: 2705, col: 5, offset: 85992},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85546},
+													pos: position{line: 2705, col: 12, offset: 85999},
 													expr: &choiceExpr{
-														pos: position{line: 2693, col: 9, offset: 85556},
+														pos: position{line: 2706, col: 9, offset: 86009},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2693, col: 9, offset: 85556},
+																pos: position{line: 2706, col: 9, offset: 86009},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 9, offset: 85556},
+																	pos:        position{line: 2706, col: 9, offset: 86009},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85603},
+																pos: position{line: 2707, col: 11, offset: 86056},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85603},
+																	pos:        position{line: 2707, col: 11, offset: 86056},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85653},
+																pos: position{line: 2708, col: 11, offset: 86106},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85653},
+																	pos:        position{line: 2708, col: 11, offset: 86106},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49318,32 +49753,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85704},
+												pos:   position{line: 2710, col: 5, offset: 86157},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85711},
+													pos: position{line: 2710, col: 12, offset: 86164},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 13, offset: 85712},
+														pos: position{line: 2710, col: 13, offset: 86165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90774},
+																pos: position{line: 2878, col: 12, offset: 91227},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90775},
+																	pos: position{line: 2878, col: 13, offset: 91228},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90775},
+																			pos: position{line: 2878, col: 13, offset: 91228},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90775},
+																				pos:        position{line: 2878, col: 13, offset: 91228},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90780},
+																			pos: position{line: 2878, col: 18, offset: 91233},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90780},
+																				pos:        position{line: 2878, col: 18, offset: 91233},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49354,10 +49789,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 24, offset: 85723},
+																pos: position{line: 2710, col: 24, offset: 86176},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 24, offset: 85723},
+																	pos:        position{line: 2710, col: 24, offset: 86176},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49368,15 +49803,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2698, col: 5, offset: 85765},
+												pos:   position{line: 2711, col: 5, offset: 86218},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2698, col: 11, offset: 85771},
+													pos: position{line: 2711, col: 11, offset: 86224},
 													expr: &actionExpr{
-														pos: position{line: 2698, col: 12, offset: 85772},
+														pos: position{line: 2711, col: 12, offset: 86225},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2698, col: 12, offset: 85772},
+															pos:        position{line: 2711, col: 12, offset: 86225},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49386,12 +49821,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85902},
+												pos:   position{line: 2713, col: 5, offset: 86355},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85908},
+													pos: position{line: 2713, col: 11, offset: 86361},
 													expr: &litMatcher{
-														pos:        position{line: 2700, col: 12, offset: 85909},
+														pos:        position{line: 2713, col: 12, offset: 86362},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49399,7 +49834,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2701, col: 5, offset: 85919},
+												pos: position{line: 2714, col: 5, offset: 86372},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49408,9 +49843,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91295},
+							pos: position{line: 2905, col: 8, offset: 91748},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91296,
+								line: 2905, col: 9, offset: 91749,
 							},
 						},
 					},
@@ -49419,23 +49854,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2728, col: 1, offset: 86928},
+			pos:  position{line: 2741, col: 1, offset: 87381},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 86951},
+				pos: position{line: 2742, col: 5, offset: 87404},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 86951},
+					pos: position{line: 2742, col: 5, offset: 87404},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86951},
+							pos:   position{line: 2742, col: 5, offset: 87404},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87692},
+								pos: position{line: 2765, col: 18, offset: 88145},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87693},
+									pos: position{line: 2765, col: 19, offset: 88146},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87693},
+										pos:        position{line: 2765, col: 19, offset: 88146},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49446,25 +49881,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 86977},
+							pos: position{line: 2743, col: 5, offset: 87430},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 87105},
+							pos:        position{line: 2747, col: 5, offset: 87558},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87115},
+							pos:   position{line: 2748, col: 5, offset: 87568},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87768},
+								pos: position{line: 2769, col: 19, offset: 88221},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87768},
+									pos: position{line: 2769, col: 19, offset: 88221},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87768},
+										pos:        position{line: 2769, col: 19, offset: 88221},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49474,36 +49909,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87143},
+							pos:   position{line: 2749, col: 5, offset: 87596},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87155},
+								pos:  position{line: 2749, col: 17, offset: 87608},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91345},
+							pos: position{line: 2908, col: 8, offset: 91798},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91118},
+									pos: position{line: 2895, col: 12, offset: 91571},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91119},
+										pos: position{line: 2895, col: 13, offset: 91572},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91119},
+												pos:        position{line: 2895, col: 13, offset: 91572},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91126},
+												pos:        position{line: 2895, col: 20, offset: 91579},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91135},
+												pos:        position{line: 2895, col: 29, offset: 91588},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49512,9 +49947,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91295},
+									pos: position{line: 2905, col: 8, offset: 91748},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91296,
+										line: 2905, col: 9, offset: 91749,
 									},
 								},
 							},
@@ -49525,23 +49960,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2740, col: 1, offset: 87303},
+			pos:  position{line: 2753, col: 1, offset: 87756},
 			expr: &actionExpr{
-				pos: position{line: 2741, col: 5, offset: 87327},
+				pos: position{line: 2754, col: 5, offset: 87780},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2741, col: 5, offset: 87327},
+					pos: position{line: 2754, col: 5, offset: 87780},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87327},
+							pos:   position{line: 2754, col: 5, offset: 87780},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87692},
+								pos: position{line: 2765, col: 18, offset: 88145},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87693},
+									pos: position{line: 2765, col: 19, offset: 88146},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87693},
+										pos:        position{line: 2765, col: 19, offset: 88146},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49552,25 +49987,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2742, col: 5, offset: 87353},
+							pos: position{line: 2755, col: 5, offset: 87806},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2746, col: 5, offset: 87481},
+							pos:        position{line: 2759, col: 5, offset: 87934},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87490},
+							pos:   position{line: 2760, col: 5, offset: 87943},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87768},
+								pos: position{line: 2769, col: 19, offset: 88221},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87768},
+									pos: position{line: 2769, col: 19, offset: 88221},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87768},
+										pos:        position{line: 2769, col: 19, offset: 88221},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49580,10 +50015,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87518},
+							pos:   position{line: 2761, col: 5, offset: 87971},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2748, col: 17, offset: 87530},
+								pos:  position{line: 2761, col: 17, offset: 87983},
 								name: "InlineAttributes",
 							},
 						},
@@ -49593,43 +50028,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2827, col: 1, offset: 89594},
+			pos:  position{line: 2840, col: 1, offset: 90047},
 			expr: &actionExpr{
-				pos: position{line: 2827, col: 17, offset: 89610},
+				pos: position{line: 2840, col: 17, offset: 90063},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2827, col: 17, offset: 89610},
+					pos:   position{line: 2840, col: 17, offset: 90063},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2844, col: 5, offset: 90064},
+						pos: position{line: 2857, col: 5, offset: 90517},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2844, col: 5, offset: 90064},
+							pos:   position{line: 2857, col: 5, offset: 90517},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2844, col: 14, offset: 90073},
+								pos: position{line: 2857, col: 14, offset: 90526},
 								expr: &choiceExpr{
-									pos: position{line: 2845, col: 9, offset: 90083},
+									pos: position{line: 2858, col: 9, offset: 90536},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2845, col: 9, offset: 90083},
+											pos: position{line: 2858, col: 9, offset: 90536},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2845, col: 9, offset: 90083},
+												pos: position{line: 2858, col: 9, offset: 90536},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2845, col: 9, offset: 90083},
+														pos: position{line: 2858, col: 9, offset: 90536},
 														expr: &litMatcher{
-															pos:        position{line: 2845, col: 10, offset: 90084},
+															pos:        position{line: 2858, col: 10, offset: 90537},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2846, col: 9, offset: 90112},
+														pos: position{line: 2859, col: 9, offset: 90565},
 														expr: &charClassMatcher{
-															pos:        position{line: 2846, col: 10, offset: 90113},
+															pos:        position{line: 2859, col: 10, offset: 90566},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49640,27 +50075,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2849, col: 11, offset: 90325},
+											pos: position{line: 2862, col: 11, offset: 90778},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 11, offset: 90325},
+													pos:        position{line: 2862, col: 11, offset: 90778},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2849, col: 19, offset: 90333},
+													pos: position{line: 2862, col: 19, offset: 90786},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 21, offset: 90335},
+														pos: position{line: 2862, col: 21, offset: 90788},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2849, col: 21, offset: 90335},
+																pos: position{line: 2862, col: 21, offset: 90788},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90947},
+																	pos: position{line: 2886, col: 10, offset: 91400},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90947},
+																		pos:        position{line: 2886, col: 10, offset: 91400},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49669,11 +50104,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2849, col: 28, offset: 90342},
+																pos: position{line: 2862, col: 28, offset: 90795},
 																expr: &notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91295},
+																	pos: position{line: 2905, col: 8, offset: 91748},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91296,
+																		line: 2905, col: 9, offset: 91749,
 																	},
 																},
 															},
@@ -49683,35 +50118,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 643, col: 5, offset: 20301},
+											pos: position{line: 656, col: 5, offset: 20754},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 643, col: 5, offset: 20301},
+												pos: position{line: 656, col: 5, offset: 20754},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 643, col: 5, offset: 20301},
+														pos: position{line: 656, col: 5, offset: 20754},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 646, col: 5, offset: 20373},
+														pos:   position{line: 659, col: 5, offset: 20826},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 646, col: 14, offset: 20382},
+															pos: position{line: 659, col: 14, offset: 20835},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20511},
+																	pos: position{line: 665, col: 5, offset: 20964},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20511},
+																		pos: position{line: 665, col: 5, offset: 20964},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20511},
+																				pos:        position{line: 665, col: 5, offset: 20964},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 13, offset: 20519},
+																				pos:   position{line: 665, col: 13, offset: 20972},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49743,7 +50178,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 32, offset: 20538},
+																				pos:        position{line: 665, col: 32, offset: 20991},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49752,19 +50187,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 659, col: 5, offset: 20779},
+																	pos: position{line: 672, col: 5, offset: 21232},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 659, col: 5, offset: 20779},
+																		pos: position{line: 672, col: 5, offset: 21232},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 659, col: 5, offset: 20779},
+																				pos:        position{line: 672, col: 5, offset: 21232},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 9, offset: 20783},
+																				pos:   position{line: 672, col: 9, offset: 21236},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49796,7 +50231,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 659, col: 28, offset: 20802},
+																				pos:        position{line: 672, col: 28, offset: 21255},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49805,19 +50240,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 20983},
+																	pos: position{line: 678, col: 25, offset: 21436},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 20983},
+																		pos: position{line: 678, col: 25, offset: 21436},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 20983},
+																				pos:        position{line: 678, col: 25, offset: 21436},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 37, offset: 20995},
+																				pos:   position{line: 678, col: 37, offset: 21448},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49849,33 +50284,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 56, offset: 21014},
+																				pos:   position{line: 678, col: 56, offset: 21467},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 62, offset: 21020},
+																					pos: position{line: 678, col: 62, offset: 21473},
 																					expr: &actionExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 673, col: 17, offset: 21315},
+																							pos: position{line: 686, col: 17, offset: 21768},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 673, col: 17, offset: 21315},
+																									pos:        position{line: 686, col: 17, offset: 21768},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 673, col: 21, offset: 21319},
+																									pos:   position{line: 686, col: 21, offset: 21772},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 673, col: 28, offset: 21326},
+																													pos:        position{line: 686, col: 28, offset: 21779},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49883,12 +50318,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 675, col: 9, offset: 21380},
+																													pos: position{line: 688, col: 9, offset: 21833},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 675, col: 9, offset: 21380},
+																														pos:        position{line: 688, col: 9, offset: 21833},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49905,7 +50340,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 78, offset: 21036},
+																				pos:        position{line: 678, col: 78, offset: 21489},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49914,19 +50349,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 669, col: 25, offset: 21154},
+																	pos: position{line: 682, col: 25, offset: 21607},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 25, offset: 21154},
+																		pos: position{line: 682, col: 25, offset: 21607},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 25, offset: 21154},
+																				pos:        position{line: 682, col: 25, offset: 21607},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 38, offset: 21167},
+																				pos:   position{line: 682, col: 38, offset: 21620},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -49958,33 +50393,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 57, offset: 21186},
+																				pos:   position{line: 682, col: 57, offset: 21639},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 669, col: 63, offset: 21192},
+																					pos: position{line: 682, col: 63, offset: 21645},
 																					expr: &actionExpr{
-																						pos: position{line: 673, col: 17, offset: 21315},
+																						pos: position{line: 686, col: 17, offset: 21768},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 673, col: 17, offset: 21315},
+																							pos: position{line: 686, col: 17, offset: 21768},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 673, col: 17, offset: 21315},
+																									pos:        position{line: 686, col: 17, offset: 21768},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 673, col: 21, offset: 21319},
+																									pos:   position{line: 686, col: 21, offset: 21772},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 673, col: 28, offset: 21326},
+																										pos: position{line: 686, col: 28, offset: 21779},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 673, col: 28, offset: 21326},
+																												pos: position{line: 686, col: 28, offset: 21779},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 673, col: 28, offset: 21326},
+																													pos:        position{line: 686, col: 28, offset: 21779},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49992,12 +50427,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 675, col: 9, offset: 21380},
+																												pos: position{line: 688, col: 9, offset: 21833},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 675, col: 9, offset: 21380},
+																													pos: position{line: 688, col: 9, offset: 21833},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 675, col: 9, offset: 21380},
+																														pos:        position{line: 688, col: 9, offset: 21833},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -50014,7 +50449,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 669, col: 79, offset: 21208},
+																				pos:        position{line: 682, col: 79, offset: 21661},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -50029,27 +50464,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1213, col: 23, offset: 37389},
+											pos: position{line: 1226, col: 23, offset: 37842},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1213, col: 23, offset: 37389},
+												pos: position{line: 1226, col: 23, offset: 37842},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37357},
+														pos:        position{line: 1224, col: 32, offset: 37810},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1213, col: 51, offset: 37417},
+														pos:   position{line: 1226, col: 51, offset: 37870},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1213, col: 56, offset: 37422},
+															pos: position{line: 1226, col: 56, offset: 37875},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1213, col: 56, offset: 37422},
+																pos: position{line: 1226, col: 56, offset: 37875},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1213, col: 56, offset: 37422},
+																	pos:        position{line: 1226, col: 56, offset: 37875},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -50059,7 +50494,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37357},
+														pos:        position{line: 1224, col: 32, offset: 37810},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -50068,10 +50503,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 11, offset: 90462},
+											pos: position{line: 2865, col: 11, offset: 90915},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2852, col: 11, offset: 90462},
+												pos:        position{line: 2865, col: 11, offset: 90915},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -57146,6 +57581,232 @@ func (p *parser) callonNamedAttribute21() (interface{}, error) {
 	return p.cur.onNamedAttribute21()
 }
 
+func (c *current) onNamedAttribute32() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
+
+}
+
+func (p *parser) callonNamedAttribute32() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute32()
+}
+
+func (c *current) onNamedAttribute39() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute39() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute39()
+}
+
+func (c *current) onNamedAttribute35(name interface{}) (interface{}, error) {
+
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+
+}
+
+func (p *parser) callonNamedAttribute35() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute35(stack["name"])
+}
+
+func (c *current) onNamedAttribute49() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute49() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute49()
+}
+
+func (c *current) onNamedAttribute45(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
+
+}
+
+func (p *parser) callonNamedAttribute45() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute45(stack["name"])
+}
+
+func (c *current) onNamedAttribute59() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute59() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute59()
+}
+
+func (c *current) onNamedAttribute71() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute71() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute71()
+}
+
+func (c *current) onNamedAttribute73() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonNamedAttribute73() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute73()
+}
+
+func (c *current) onNamedAttribute66(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonNamedAttribute66() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute66(stack["start"])
+}
+
+func (c *current) onNamedAttribute55(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
+func (p *parser) callonNamedAttribute55() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute55(stack["name"], stack["start"])
+}
+
+func (c *current) onNamedAttribute81() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute81() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute81()
+}
+
+func (c *current) onNamedAttribute93() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute93() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute93()
+}
+
+func (c *current) onNamedAttribute95() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonNamedAttribute95() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute95()
+}
+
+func (c *current) onNamedAttribute88(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonNamedAttribute88() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute88(stack["start"])
+}
+
+func (c *current) onNamedAttribute77(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonNamedAttribute77() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute77(stack["name"], stack["start"])
+}
+
+func (c *current) onNamedAttribute30(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonNamedAttribute30() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute30(stack["element"])
+}
+
+func (c *current) onNamedAttribute100() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute100() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute100()
+}
+
+func (c *current) onNamedAttribute102() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute102() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute102()
+}
+
+func (c *current) onNamedAttribute18(elements interface{}) (interface{}, error) {
+	return types.Reduce(elements, strings.TrimSpace), nil
+
+}
+
+func (p *parser) callonNamedAttribute18() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute18(stack["elements"])
+}
+
+func (c *current) onNamedAttribute109() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNamedAttribute109() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNamedAttribute109()
+}
+
 func (c *current) onNamedAttribute1(key, value interface{}) (interface{}, error) {
 	return types.NewNamedAttribute(key.(string), value)
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 3baa609..c698ca6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -541,7 +541,7 @@ PositionalAttribute <- (
 NamedAttribute <- 
     key:(NamedAttributeKey) 
     "=" Space* 
-    value:(AttributeValue) ("," Space*)? 
+    value:(AttributeValue / UnquotedNamedAttributeValue) ("," Space*)? 
     {
         return types.NewNamedAttribute(key.(string), value)
     }
@@ -619,6 +619,19 @@ DoubleQuotedAttributeValueContent <-
         return types.Reduce(elements), nil
     }
 
+// Unquoted value of a named attribute, which may include `=` signs (eg: in URLs)
+UnquotedNamedAttributeValue <-
+    !Space !"'" !"\"" // not quoted
+    elements:(
+        AttributeReference / "{" // standalone, if `AttributeReference` is not enabled
+        / Space
+        / ([^\r\n,[\]{ ]+ {
+            return string(c.text), nil
+        })
+    )+ {
+        return types.Reduce(elements, strings.TrimSpace), nil
+    }
+
 // Unquoted Attribute Value, may include spaces but not on the first position
 UnquotedAttributeValue <-
     // need to support value like `[.myrole1]_a_` in `a link to https://example.com[[.myrole1]_a_]`
-- 
2.43.0


From f79181992700bac30a3e55601f550ede355af608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 080/117] fix: accept underscores in the names of attributes

---
 pkg/parser/parser.go  | 20430 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 10216 insertions(+), 10216 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 2dc88a5..81e0298 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,19 +45,19 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 361, col: 19, offset: 10921},
+										pos: position{line: 361, col: 19, offset: 10922},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 361, col: 19, offset: 10921},
+											pos: position{line: 361, col: 19, offset: 10922},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 361, col: 19, offset: 10921},
+													pos:        position{line: 361, col: 19, offset: 10922},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 361, col: 24, offset: 10926},
+													pos:   position{line: 361, col: 24, offset: 10927},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 319, col: 18, offset: 9747},
@@ -77,8 +77,8 @@ var g = &grammar{
 																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 319, col: 29, offset: 9758},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 361, col: 45, offset: 10947},
+													pos:        position{line: 361, col: 45, offset: 10948},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 361, col: 49, offset: 10951},
+													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -150,19 +150,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 363, col: 9, offset: 11042},
+										pos: position{line: 363, col: 9, offset: 11043},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 363, col: 9, offset: 11042},
+											pos: position{line: 363, col: 9, offset: 11043},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 363, col: 9, offset: 11042},
+													pos:        position{line: 363, col: 9, offset: 11043},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 363, col: 13, offset: 11046},
+													pos:   position{line: 363, col: 13, offset: 11047},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 319, col: 18, offset: 9747},
@@ -182,8 +182,8 @@ var g = &grammar{
 																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 319, col: 29, offset: 9758},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 363, col: 34, offset: 11067},
+													pos:        position{line: 363, col: 34, offset: 11068},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 363, col: 39, offset: 11072},
+													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 20964},
+																									pos:        position{line: 665, col: 5, offset: 20965},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 13, offset: 20972},
+																									pos:   position{line: 665, col: 13, offset: 20973},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -499,8 +499,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 32, offset: 20991},
+																									pos:        position{line: 665, col: 32, offset: 20992},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 672, col: 5, offset: 21232},
+																									pos:        position{line: 672, col: 5, offset: 21233},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 672, col: 9, offset: 21236},
+																									pos:   position{line: 672, col: 9, offset: 21237},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -552,8 +552,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 672, col: 28, offset: 21255},
+																									pos:        position{line: 672, col: 28, offset: 21256},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 20964},
+																									pos:        position{line: 665, col: 5, offset: 20965},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 13, offset: 20972},
+																									pos:   position{line: 665, col: 13, offset: 20973},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -635,8 +635,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 32, offset: 20991},
+																									pos:        position{line: 665, col: 32, offset: 20992},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 672, col: 5, offset: 21232},
+																									pos:        position{line: 672, col: 5, offset: 21233},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 672, col: 9, offset: 21236},
+																									pos:   position{line: 672, col: 9, offset: 21237},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -688,8 +688,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 672, col: 28, offset: 21255},
+																									pos:        position{line: 672, col: 28, offset: 21256},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 665, col: 5, offset: 20964},
+																		pos: position{line: 665, col: 5, offset: 20965},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 20964},
+																					pos: position{line: 665, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 20964},
+																							pos:        position{line: 665, col: 5, offset: 20965},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 13, offset: 20972},
+																							pos:   position{line: 665, col: 13, offset: 20973},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -762,8 +762,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 32, offset: 20991},
+																							pos:        position{line: 665, col: 32, offset: 20992},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 672, col: 5, offset: 21232},
+																				pos: position{line: 672, col: 5, offset: 21233},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 672, col: 5, offset: 21232},
+																					pos: position{line: 672, col: 5, offset: 21233},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 672, col: 5, offset: 21232},
+																							pos:        position{line: 672, col: 5, offset: 21233},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 672, col: 9, offset: 21236},
+																							pos:   position{line: 672, col: 9, offset: 21237},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -815,8 +815,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 672, col: 28, offset: 21255},
+																							pos:        position{line: 672, col: 28, offset: 21256},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91227},
+																pos: position{line: 2878, col: 12, offset: 91228},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91228},
+																	pos: position{line: 2878, col: 13, offset: 91229},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91228},
+																			pos: position{line: 2878, col: 13, offset: 91229},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91228},
+																				pos:        position{line: 2878, col: 13, offset: 91229},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91233},
+																			pos: position{line: 2878, col: 18, offset: 91234},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91233},
+																				pos:        position{line: 2878, col: 18, offset: 91234},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 20964},
+																									pos:        position{line: 665, col: 5, offset: 20965},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 13, offset: 20972},
+																									pos:   position{line: 665, col: 13, offset: 20973},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1104,8 +1104,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 32, offset: 20991},
+																									pos:        position{line: 665, col: 32, offset: 20992},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 672, col: 5, offset: 21232},
+																									pos:        position{line: 672, col: 5, offset: 21233},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 672, col: 9, offset: 21236},
+																									pos:   position{line: 672, col: 9, offset: 21237},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1157,8 +1157,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 672, col: 28, offset: 21255},
+																									pos:        position{line: 672, col: 28, offset: 21256},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 5, offset: 20964},
+																									pos:        position{line: 665, col: 5, offset: 20965},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 13, offset: 20972},
+																									pos:   position{line: 665, col: 13, offset: 20973},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1240,8 +1240,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 665, col: 32, offset: 20991},
+																									pos:        position{line: 665, col: 32, offset: 20992},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 672, col: 5, offset: 21232},
+																									pos:        position{line: 672, col: 5, offset: 21233},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 672, col: 9, offset: 21236},
+																									pos:   position{line: 672, col: 9, offset: 21237},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
@@ -1293,8 +1293,8 @@ var g = &grammar{
 																													pos: position{line: 319, col: 28, offset: 9757},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 319, col: 29, offset: 9758},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																														val:        "[_-\\pL\\pN]",
+																														chars:      []rune{'_', '-'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 672, col: 28, offset: 21255},
+																									pos:        position{line: 672, col: 28, offset: 21256},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 665, col: 5, offset: 20964},
+																		pos: position{line: 665, col: 5, offset: 20965},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 20964},
+																					pos: position{line: 665, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 20964},
+																							pos:        position{line: 665, col: 5, offset: 20965},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 13, offset: 20972},
+																							pos:   position{line: 665, col: 13, offset: 20973},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1367,8 +1367,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 32, offset: 20991},
+																							pos:        position{line: 665, col: 32, offset: 20992},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 672, col: 5, offset: 21232},
+																				pos: position{line: 672, col: 5, offset: 21233},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 672, col: 5, offset: 21232},
+																					pos: position{line: 672, col: 5, offset: 21233},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 672, col: 5, offset: 21232},
+																							pos:        position{line: 672, col: 5, offset: 21233},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 672, col: 9, offset: 21236},
+																							pos:   position{line: 672, col: 9, offset: 21237},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -1420,8 +1420,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 672, col: 28, offset: 21255},
+																							pos:        position{line: 672, col: 28, offset: 21256},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91227},
+																pos: position{line: 2878, col: 12, offset: 91228},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91228},
+																	pos: position{line: 2878, col: 13, offset: 91229},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91228},
+																			pos: position{line: 2878, col: 13, offset: 91229},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91228},
+																				pos:        position{line: 2878, col: 13, offset: 91229},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91233},
+																			pos: position{line: 2878, col: 18, offset: 91234},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91233},
+																				pos:        position{line: 2878, col: 18, offset: 91234},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 744, col: 5, offset: 23706},
+										pos: position{line: 744, col: 5, offset: 23707},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 744, col: 5, offset: 23706},
+											pos: position{line: 744, col: 5, offset: 23707},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 744, col: 5, offset: 23706},
+													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88481},
+														pos:        position{line: 2776, col: 13, offset: 88482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 745, col: 5, offset: 23736},
+													pos:   position{line: 745, col: 5, offset: 23737},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 746, col: 9, offset: 23756},
+														pos: position{line: 746, col: 9, offset: 23757},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 760, col: 5, offset: 24248},
+																pos: position{line: 760, col: 5, offset: 24249},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 5, offset: 24248},
+																	pos: position{line: 760, col: 5, offset: 24249},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 5, offset: 24248},
+																			pos:   position{line: 760, col: 5, offset: 24249},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 16, offset: 24259},
+																				pos: position{line: 760, col: 16, offset: 24260},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 16, offset: 24259},
+																					pos: position{line: 760, col: 16, offset: 24260},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 16, offset: 24259},
+																							pos:        position{line: 760, col: 16, offset: 24260},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 23, offset: 24266},
+																							pos: position{line: 760, col: 23, offset: 24267},
 																							expr: &litMatcher{
-																								pos:        position{line: 760, col: 23, offset: 24266},
+																								pos:        position{line: 760, col: 23, offset: 24267},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 762, col: 8, offset: 24350},
+																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 767, col: 5, offset: 24496},
+																pos: position{line: 767, col: 5, offset: 24497},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 767, col: 5, offset: 24496},
+																	pos: position{line: 767, col: 5, offset: 24497},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 767, col: 5, offset: 24496},
+																			pos:   position{line: 767, col: 5, offset: 24497},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 16, offset: 24507},
+																				pos: position{line: 767, col: 16, offset: 24508},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 16, offset: 24507},
+																					pos: position{line: 767, col: 16, offset: 24508},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 767, col: 16, offset: 24507},
+																							pos:        position{line: 767, col: 16, offset: 24508},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 767, col: 23, offset: 24514},
+																							pos: position{line: 767, col: 23, offset: 24515},
 																							expr: &litMatcher{
-																								pos:        position{line: 767, col: 23, offset: 24514},
+																								pos:        position{line: 767, col: 23, offset: 24515},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 769, col: 8, offset: 24598},
+																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 780, col: 26, offset: 24984},
+																pos: position{line: 780, col: 26, offset: 24985},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 780, col: 26, offset: 24984},
+																	pos: position{line: 780, col: 26, offset: 24985},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 780, col: 26, offset: 24984},
+																			pos:        position{line: 780, col: 26, offset: 24985},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 780, col: 32, offset: 24990},
+																			pos:   position{line: 780, col: 32, offset: 24991},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 784, col: 13, offset: 25120},
+																				pos: position{line: 784, col: 13, offset: 25121},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 784, col: 14, offset: 25121},
+																					pos: position{line: 784, col: 14, offset: 25122},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 784, col: 14, offset: 25121},
+																						pos:        position{line: 784, col: 14, offset: 25122},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 780, col: 52, offset: 25010},
+																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 774, col: 5, offset: 24743},
+																pos: position{line: 774, col: 5, offset: 24744},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 774, col: 5, offset: 24743},
+																	pos: position{line: 774, col: 5, offset: 24744},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 774, col: 5, offset: 24743},
+																			pos:   position{line: 774, col: 5, offset: 24744},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 774, col: 16, offset: 24754},
+																				pos: position{line: 774, col: 16, offset: 24755},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 774, col: 16, offset: 24754},
+																					pos: position{line: 774, col: 16, offset: 24755},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 774, col: 16, offset: 24754},
+																							pos:        position{line: 774, col: 16, offset: 24755},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 22, offset: 24760},
+																							pos: position{line: 774, col: 22, offset: 24761},
 																							expr: &litMatcher{
-																								pos:        position{line: 774, col: 22, offset: 24760},
+																								pos:        position{line: 774, col: 22, offset: 24761},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 776, col: 8, offset: 24844},
+																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 789, col: 5, offset: 25280},
+																pos: position{line: 789, col: 5, offset: 25281},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 789, col: 5, offset: 25280},
+																	pos: position{line: 789, col: 5, offset: 25281},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 789, col: 5, offset: 25280},
+																			pos:   position{line: 789, col: 5, offset: 25281},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 16, offset: 25291},
+																				pos: position{line: 789, col: 16, offset: 25292},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 16, offset: 25291},
+																					pos: position{line: 789, col: 16, offset: 25292},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 789, col: 16, offset: 25291},
+																							pos:        position{line: 789, col: 16, offset: 25292},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 789, col: 23, offset: 25298},
+																							pos: position{line: 789, col: 23, offset: 25299},
 																							expr: &litMatcher{
-																								pos:        position{line: 789, col: 23, offset: 25298},
+																								pos:        position{line: 789, col: 23, offset: 25299},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 791, col: 8, offset: 25382},
+																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 803, col: 5, offset: 25756},
+																pos: position{line: 803, col: 5, offset: 25757},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 803, col: 5, offset: 25756},
+																	pos: position{line: 803, col: 5, offset: 25757},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 803, col: 5, offset: 25756},
+																			pos:   position{line: 803, col: 5, offset: 25757},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 16, offset: 25767},
+																				pos: position{line: 803, col: 16, offset: 25768},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 16, offset: 25767},
+																					pos: position{line: 803, col: 16, offset: 25768},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 803, col: 16, offset: 25767},
+																							pos:        position{line: 803, col: 16, offset: 25768},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 803, col: 23, offset: 25774},
+																							pos: position{line: 803, col: 23, offset: 25775},
 																							expr: &litMatcher{
-																								pos:        position{line: 803, col: 23, offset: 25774},
+																								pos:        position{line: 803, col: 23, offset: 25775},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 805, col: 8, offset: 25858},
+																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 810, col: 5, offset: 26008},
+																pos: position{line: 810, col: 5, offset: 26009},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 810, col: 5, offset: 26008},
+																	pos: position{line: 810, col: 5, offset: 26009},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 810, col: 5, offset: 26008},
+																			pos:   position{line: 810, col: 5, offset: 26009},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 16, offset: 26019},
+																				pos: position{line: 810, col: 16, offset: 26020},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 16, offset: 26019},
+																					pos: position{line: 810, col: 16, offset: 26020},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 810, col: 16, offset: 26019},
+																							pos:        position{line: 810, col: 16, offset: 26020},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 810, col: 23, offset: 26026},
+																							pos: position{line: 810, col: 23, offset: 26027},
 																							expr: &litMatcher{
-																								pos:        position{line: 810, col: 23, offset: 26026},
+																								pos:        position{line: 810, col: 23, offset: 26027},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 812, col: 8, offset: 26110},
+																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 817, col: 5, offset: 26258},
+																pos: position{line: 817, col: 5, offset: 26259},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 817, col: 5, offset: 26258},
+																	pos: position{line: 817, col: 5, offset: 26259},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 817, col: 5, offset: 26258},
+																			pos:   position{line: 817, col: 5, offset: 26259},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 16, offset: 26269},
+																				pos: position{line: 817, col: 16, offset: 26270},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 16, offset: 26269},
+																					pos: position{line: 817, col: 16, offset: 26270},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 817, col: 16, offset: 26269},
+																							pos:        position{line: 817, col: 16, offset: 26270},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 817, col: 23, offset: 26276},
+																							pos: position{line: 817, col: 23, offset: 26277},
 																							expr: &litMatcher{
-																								pos:        position{line: 817, col: 23, offset: 26276},
+																								pos:        position{line: 817, col: 23, offset: 26277},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 819, col: 8, offset: 26360},
+																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 824, col: 5, offset: 26504},
+																pos: position{line: 824, col: 5, offset: 26505},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 824, col: 5, offset: 26504},
+																	pos: position{line: 824, col: 5, offset: 26505},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 824, col: 5, offset: 26504},
+																			pos:   position{line: 824, col: 5, offset: 26505},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 16, offset: 26515},
+																				pos: position{line: 824, col: 16, offset: 26516},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 16, offset: 26515},
+																					pos: position{line: 824, col: 16, offset: 26516},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 824, col: 16, offset: 26515},
+																							pos:        position{line: 824, col: 16, offset: 26516},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 824, col: 23, offset: 26522},
+																							pos: position{line: 824, col: 23, offset: 26523},
 																							expr: &litMatcher{
-																								pos:        position{line: 824, col: 23, offset: 26522},
+																								pos:        position{line: 824, col: 23, offset: 26523},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 826, col: 8, offset: 26606},
+																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2890, col: 11, offset: 91461},
+													pos: position{line: 2890, col: 11, offset: 91462},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2890, col: 11, offset: 91461},
+														pos: position{line: 2890, col: 11, offset: 91462},
 														expr: &charClassMatcher{
-															pos:        position{line: 2890, col: 11, offset: 91461},
+															pos:        position{line: 2890, col: 11, offset: 91462},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2836, col: 14, offset: 89993},
+													pos: position{line: 2836, col: 14, offset: 89994},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2836, col: 14, offset: 89993},
+														pos: position{line: 2836, col: 14, offset: 89994},
 														expr: &charClassMatcher{
-															pos:        position{line: 2836, col: 14, offset: 89993},
+															pos:        position{line: 2836, col: 14, offset: 89994},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2840, col: 17, offset: 90063},
+												pos: position{line: 2840, col: 17, offset: 90064},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2840, col: 17, offset: 90063},
+													pos:   position{line: 2840, col: 17, offset: 90064},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2747,8 +2747,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2800,8 +2800,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2853,8 +2853,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -2962,8 +2962,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 12, offset: 91227},
+																				pos: position{line: 2878, col: 12, offset: 91228},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2878, col: 13, offset: 91228},
+																					pos: position{line: 2878, col: 13, offset: 91229},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2878, col: 13, offset: 91228},
+																							pos: position{line: 2878, col: 13, offset: 91229},
 																							expr: &litMatcher{
-																								pos:        position{line: 2878, col: 13, offset: 91228},
+																								pos:        position{line: 2878, col: 13, offset: 91229},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2878, col: 18, offset: 91233},
+																							pos: position{line: 2878, col: 18, offset: 91234},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 18, offset: 91233},
+																								pos:        position{line: 2878, col: 18, offset: 91234},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 12, offset: 91227},
+																				pos: position{line: 2878, col: 12, offset: 91228},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2878, col: 13, offset: 91228},
+																					pos: position{line: 2878, col: 13, offset: 91229},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2878, col: 13, offset: 91228},
+																							pos: position{line: 2878, col: 13, offset: 91229},
 																							expr: &litMatcher{
-																								pos:        position{line: 2878, col: 13, offset: 91228},
+																								pos:        position{line: 2878, col: 13, offset: 91229},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2878, col: 18, offset: 91233},
+																							pos: position{line: 2878, col: 18, offset: 91234},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 18, offset: 91233},
+																								pos:        position{line: 2878, col: 18, offset: 91234},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 12, offset: 91227},
+																		pos: position{line: 2878, col: 12, offset: 91228},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2878, col: 13, offset: 91228},
+																			pos: position{line: 2878, col: 13, offset: 91229},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2878, col: 13, offset: 91228},
+																					pos: position{line: 2878, col: 13, offset: 91229},
 																					expr: &litMatcher{
-																						pos:        position{line: 2878, col: 13, offset: 91228},
+																						pos:        position{line: 2878, col: 13, offset: 91229},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2878, col: 18, offset: 91233},
+																					pos: position{line: 2878, col: 18, offset: 91234},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 18, offset: 91233},
+																						pos:        position{line: 2878, col: 18, offset: 91234},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 12, offset: 91227},
+																									pos: position{line: 2878, col: 12, offset: 91228},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2878, col: 13, offset: 91228},
+																										pos: position{line: 2878, col: 13, offset: 91229},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2878, col: 13, offset: 91228},
+																												pos: position{line: 2878, col: 13, offset: 91229},
 																												expr: &litMatcher{
-																													pos:        position{line: 2878, col: 13, offset: 91228},
+																													pos:        position{line: 2878, col: 13, offset: 91229},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2878, col: 18, offset: 91233},
+																												pos: position{line: 2878, col: 18, offset: 91234},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 18, offset: 91233},
+																													pos:        position{line: 2878, col: 18, offset: 91234},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 12, offset: 91227},
+																									pos: position{line: 2878, col: 12, offset: 91228},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2878, col: 13, offset: 91228},
+																										pos: position{line: 2878, col: 13, offset: 91229},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2878, col: 13, offset: 91228},
+																												pos: position{line: 2878, col: 13, offset: 91229},
 																												expr: &litMatcher{
-																													pos:        position{line: 2878, col: 13, offset: 91228},
+																													pos:        position{line: 2878, col: 13, offset: 91229},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2878, col: 18, offset: 91233},
+																												pos: position{line: 2878, col: 18, offset: 91234},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 18, offset: 91233},
+																													pos:        position{line: 2878, col: 18, offset: 91234},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 12, offset: 91227},
+																							pos: position{line: 2878, col: 12, offset: 91228},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2878, col: 13, offset: 91228},
+																								pos: position{line: 2878, col: 13, offset: 91229},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2878, col: 13, offset: 91228},
+																										pos: position{line: 2878, col: 13, offset: 91229},
 																										expr: &litMatcher{
-																											pos:        position{line: 2878, col: 13, offset: 91228},
+																											pos:        position{line: 2878, col: 13, offset: 91229},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2878, col: 18, offset: 91233},
+																										pos: position{line: 2878, col: 18, offset: 91234},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 18, offset: 91233},
+																											pos:        position{line: 2878, col: 18, offset: 91234},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 12, offset: 91227},
+														pos: position{line: 2878, col: 12, offset: 91228},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2878, col: 13, offset: 91228},
+															pos: position{line: 2878, col: 13, offset: 91229},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2878, col: 13, offset: 91228},
+																	pos: position{line: 2878, col: 13, offset: 91229},
 																	expr: &litMatcher{
-																		pos:        position{line: 2878, col: 13, offset: 91228},
+																		pos:        position{line: 2878, col: 13, offset: 91229},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2878, col: 18, offset: 91233},
+																	pos: position{line: 2878, col: 18, offset: 91234},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 18, offset: 91233},
+																		pos:        position{line: 2878, col: 18, offset: 91234},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 12, offset: 91227},
+														pos: position{line: 2878, col: 12, offset: 91228},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2878, col: 13, offset: 91228},
+															pos: position{line: 2878, col: 13, offset: 91229},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2878, col: 13, offset: 91228},
+																	pos: position{line: 2878, col: 13, offset: 91229},
 																	expr: &litMatcher{
-																		pos:        position{line: 2878, col: 13, offset: 91228},
+																		pos:        position{line: 2878, col: 13, offset: 91229},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2878, col: 18, offset: 91233},
+																	pos: position{line: 2878, col: 18, offset: 91234},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 18, offset: 91233},
+																		pos:        position{line: 2878, col: 18, offset: 91234},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 12, offset: 91227},
+												pos: position{line: 2878, col: 12, offset: 91228},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2878, col: 13, offset: 91228},
+													pos: position{line: 2878, col: 13, offset: 91229},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2878, col: 13, offset: 91228},
+															pos: position{line: 2878, col: 13, offset: 91229},
 															expr: &litMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91228},
+																pos:        position{line: 2878, col: 13, offset: 91229},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2878, col: 18, offset: 91233},
+															pos: position{line: 2878, col: 18, offset: 91234},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 18, offset: 91233},
+																pos:        position{line: 2878, col: 18, offset: 91234},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2780, col: 14, offset: 88555},
+																		pos: position{line: 2780, col: 14, offset: 88556},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2780, col: 14, offset: 88555},
+																			pos: position{line: 2780, col: 14, offset: 88556},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2780, col: 14, offset: 88555},
+																				pos:        position{line: 2780, col: 14, offset: 88556},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2780, col: 14, offset: 88555},
+																				pos: position{line: 2780, col: 14, offset: 88556},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2780, col: 14, offset: 88555},
+																					pos: position{line: 2780, col: 14, offset: 88556},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2780, col: 14, offset: 88555},
+																						pos:        position{line: 2780, col: 14, offset: 88556},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2780, col: 14, offset: 88555},
+																							pos: position{line: 2780, col: 14, offset: 88556},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2780, col: 14, offset: 88555},
+																								pos: position{line: 2780, col: 14, offset: 88556},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2780, col: 14, offset: 88555},
+																									pos:        position{line: 2780, col: 14, offset: 88556},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2780, col: 14, offset: 88555},
+																									pos: position{line: 2780, col: 14, offset: 88556},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2780, col: 14, offset: 88555},
+																										pos: position{line: 2780, col: 14, offset: 88556},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2780, col: 14, offset: 88555},
+																											pos:        position{line: 2780, col: 14, offset: 88556},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2780, col: 14, offset: 88555},
+																pos: position{line: 2780, col: 14, offset: 88556},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2780, col: 14, offset: 88555},
+																	pos: position{line: 2780, col: 14, offset: 88556},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2780, col: 14, offset: 88555},
+																		pos:        position{line: 2780, col: 14, offset: 88556},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2780, col: 14, offset: 88555},
+																pos: position{line: 2780, col: 14, offset: 88556},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2780, col: 14, offset: 88555},
+																	pos: position{line: 2780, col: 14, offset: 88556},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2780, col: 14, offset: 88555},
+																		pos:        position{line: 2780, col: 14, offset: 88556},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&labeledExpr{
@@ -4126,19 +4126,19 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 361, col: 19, offset: 10921},
+											pos: position{line: 361, col: 19, offset: 10922},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 361, col: 19, offset: 10921},
+												pos: position{line: 361, col: 19, offset: 10922},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 361, col: 19, offset: 10921},
+														pos:        position{line: 361, col: 19, offset: 10922},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 361, col: 24, offset: 10926},
+														pos:   position{line: 361, col: 24, offset: 10927},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 319, col: 18, offset: 9747},
@@ -4158,8 +4158,8 @@ var g = &grammar{
 																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 319, col: 29, offset: 9758},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 361, col: 45, offset: 10947},
+														pos:        position{line: 361, col: 45, offset: 10948},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 361, col: 49, offset: 10951},
+														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -4231,19 +4231,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 363, col: 9, offset: 11042},
+											pos: position{line: 363, col: 9, offset: 11043},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 363, col: 9, offset: 11042},
+												pos: position{line: 363, col: 9, offset: 11043},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 363, col: 9, offset: 11042},
+														pos:        position{line: 363, col: 9, offset: 11043},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 363, col: 13, offset: 11046},
+														pos:   position{line: 363, col: 13, offset: 11047},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 319, col: 18, offset: 9747},
@@ -4263,8 +4263,8 @@ var g = &grammar{
 																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 319, col: 29, offset: 9758},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 363, col: 34, offset: 11067},
+														pos:        position{line: 363, col: 34, offset: 11068},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 363, col: 39, offset: 11072},
+														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 697, col: 14, offset: 22134},
+											pos: position{line: 697, col: 14, offset: 22135},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 697, col: 14, offset: 22134},
+												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2903, col: 11, offset: 91734},
+														pos: position{line: 2903, col: 11, offset: 91735},
 														expr: &anyMatcher{
-															line: 2903, col: 13, offset: 91736,
+															line: 2903, col: 13, offset: 91737,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 697, col: 21, offset: 22141},
+														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26988},
+											pos: position{line: 840, col: 5, offset: 26989},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26988},
+												pos: position{line: 840, col: 5, offset: 26989},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26988},
+														pos:   position{line: 840, col: 5, offset: 26989},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 5, offset: 24248},
+															pos: position{line: 760, col: 5, offset: 24249},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 5, offset: 24248},
+																pos: position{line: 760, col: 5, offset: 24249},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 5, offset: 24248},
+																		pos:   position{line: 760, col: 5, offset: 24249},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 16, offset: 24259},
+																			pos: position{line: 760, col: 16, offset: 24260},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 16, offset: 24259},
+																				pos: position{line: 760, col: 16, offset: 24260},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 16, offset: 24259},
+																						pos:        position{line: 760, col: 16, offset: 24260},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 23, offset: 24266},
+																						pos: position{line: 760, col: 23, offset: 24267},
 																						expr: &litMatcher{
-																							pos:        position{line: 760, col: 23, offset: 24266},
+																							pos:        position{line: 760, col: 23, offset: 24267},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 762, col: 8, offset: 24350},
+																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 27027},
+														pos: position{line: 841, col: 5, offset: 27028},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27119},
+														pos:   position{line: 844, col: 5, offset: 27120},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 5, offset: 27511},
+															pos: position{line: 859, col: 5, offset: 27512},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 6, offset: 27512},
+																pos: position{line: 859, col: 6, offset: 27513},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 6, offset: 27512},
+																	pos: position{line: 859, col: 6, offset: 27513},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 6, offset: 27512},
+																			pos: position{line: 859, col: 6, offset: 27513},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27353},
+																				pos: position{line: 852, col: 5, offset: 27354},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27353},
+																						pos: position{line: 852, col: 5, offset: 27354},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27353},
+																								pos:   position{line: 852, col: 5, offset: 27354},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 5, offset: 24248},
+																										pos: position{line: 760, col: 5, offset: 24249},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 760, col: 5, offset: 24248},
+																												pos:   position{line: 760, col: 5, offset: 24249},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 760, col: 16, offset: 24259},
+																														pos: position{line: 760, col: 16, offset: 24260},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 760, col: 16, offset: 24259},
+																																pos:        position{line: 760, col: 16, offset: 24260},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 760, col: 23, offset: 24266},
+																																pos: position{line: 760, col: 23, offset: 24267},
 																																expr: &litMatcher{
-																																	pos:        position{line: 760, col: 23, offset: 24266},
+																																	pos:        position{line: 760, col: 23, offset: 24267},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 762, col: 8, offset: 24350},
+																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27384},
+																								pos: position{line: 853, col: 5, offset: 27385},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27542},
+																			pos:   position{line: 860, col: 5, offset: 27543},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -4721,41 +4721,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 845, col: 5, offset: 27153},
+														pos: position{line: 845, col: 5, offset: 27154},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27353},
+															pos: position{line: 852, col: 5, offset: 27354},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27353},
+																	pos: position{line: 852, col: 5, offset: 27354},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27353},
+																			pos:   position{line: 852, col: 5, offset: 27354},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				run: (*parser).callonDocumentFragment149,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24248},
+																					pos: position{line: 760, col: 5, offset: 24249},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24248},
+																							pos:   position{line: 760, col: 5, offset: 24249},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								run: (*parser).callonDocumentFragment152,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24259},
+																									pos: position{line: 760, col: 16, offset: 24260},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24259},
+																											pos:        position{line: 760, col: 16, offset: 24260},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24266},
+																											pos: position{line: 760, col: 23, offset: 24267},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24266},
+																												pos:        position{line: 760, col: 23, offset: 24267},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -4766,12 +4766,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24350},
+																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -4822,15 +4822,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27384},
+																			pos: position{line: 853, col: 5, offset: 27385},
 																			run: (*parser).callonDocumentFragment168,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -4840,39 +4840,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27695},
+											pos: position{line: 868, col: 5, offset: 27696},
 											run: (*parser).callonDocumentFragment171,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27695},
+												pos: position{line: 868, col: 5, offset: 27696},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27695},
+														pos:   position{line: 868, col: 5, offset: 27696},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 767, col: 5, offset: 24496},
+															pos: position{line: 767, col: 5, offset: 24497},
 															run: (*parser).callonDocumentFragment174,
 															expr: &seqExpr{
-																pos: position{line: 767, col: 5, offset: 24496},
+																pos: position{line: 767, col: 5, offset: 24497},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 767, col: 5, offset: 24496},
+																		pos:   position{line: 767, col: 5, offset: 24497},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 767, col: 16, offset: 24507},
+																			pos: position{line: 767, col: 16, offset: 24508},
 																			run: (*parser).callonDocumentFragment177,
 																			expr: &seqExpr{
-																				pos: position{line: 767, col: 16, offset: 24507},
+																				pos: position{line: 767, col: 16, offset: 24508},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 767, col: 16, offset: 24507},
+																						pos:        position{line: 767, col: 16, offset: 24508},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 767, col: 23, offset: 24514},
+																						pos: position{line: 767, col: 23, offset: 24515},
 																						expr: &litMatcher{
-																							pos:        position{line: 767, col: 23, offset: 24514},
+																							pos:        position{line: 767, col: 23, offset: 24515},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4883,12 +4883,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 769, col: 8, offset: 24598},
+																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -4939,56 +4939,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27734},
+														pos: position{line: 869, col: 5, offset: 27735},
 														run: (*parser).callonDocumentFragment193,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27826},
+														pos:   position{line: 872, col: 5, offset: 27827},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 4, offset: 28223},
+															pos: position{line: 887, col: 4, offset: 28224},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 5, offset: 28224},
+																pos: position{line: 887, col: 5, offset: 28225},
 																run: (*parser).callonDocumentFragment196,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 5, offset: 28224},
+																	pos: position{line: 887, col: 5, offset: 28225},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 5, offset: 28224},
+																			pos: position{line: 887, col: 5, offset: 28225},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 28066},
+																				pos: position{line: 880, col: 5, offset: 28067},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 28066},
+																						pos: position{line: 880, col: 5, offset: 28067},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 28066},
+																								pos:   position{line: 880, col: 5, offset: 28067},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 5, offset: 24496},
+																									pos: position{line: 767, col: 5, offset: 24497},
 																									run: (*parser).callonDocumentFragment202,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 5, offset: 24496},
+																										pos: position{line: 767, col: 5, offset: 24497},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 767, col: 5, offset: 24496},
+																												pos:   position{line: 767, col: 5, offset: 24497},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 767, col: 16, offset: 24507},
+																													pos: position{line: 767, col: 16, offset: 24508},
 																													run: (*parser).callonDocumentFragment205,
 																													expr: &seqExpr{
-																														pos: position{line: 767, col: 16, offset: 24507},
+																														pos: position{line: 767, col: 16, offset: 24508},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 767, col: 16, offset: 24507},
+																																pos:        position{line: 767, col: 16, offset: 24508},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 767, col: 23, offset: 24514},
+																																pos: position{line: 767, col: 23, offset: 24515},
 																																expr: &litMatcher{
-																																	pos:        position{line: 767, col: 23, offset: 24514},
+																																	pos:        position{line: 767, col: 23, offset: 24515},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -4999,12 +4999,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 8, offset: 24598},
+																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -5055,45 +5055,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 28097},
+																								pos: position{line: 881, col: 5, offset: 28098},
 																								run: (*parser).callonDocumentFragment221,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28254},
+																			pos:   position{line: 888, col: 5, offset: 28255},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment225,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -5150,44 +5150,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27860},
+														pos:   position{line: 873, col: 5, offset: 27861},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27864},
+															pos: position{line: 873, col: 9, offset: 27865},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 28066},
+																pos: position{line: 880, col: 5, offset: 28067},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 28066},
+																		pos: position{line: 880, col: 5, offset: 28067},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 28066},
+																				pos:   position{line: 880, col: 5, offset: 28067},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 767, col: 5, offset: 24496},
+																					pos: position{line: 767, col: 5, offset: 24497},
 																					run: (*parser).callonDocumentFragment246,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 5, offset: 24496},
+																						pos: position{line: 767, col: 5, offset: 24497},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 5, offset: 24496},
+																								pos:   position{line: 767, col: 5, offset: 24497},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 16, offset: 24507},
+																									pos: position{line: 767, col: 16, offset: 24508},
 																									run: (*parser).callonDocumentFragment249,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 16, offset: 24507},
+																										pos: position{line: 767, col: 16, offset: 24508},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 767, col: 16, offset: 24507},
+																												pos:        position{line: 767, col: 16, offset: 24508},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 767, col: 23, offset: 24514},
+																												pos: position{line: 767, col: 23, offset: 24515},
 																												expr: &litMatcher{
-																													pos:        position{line: 767, col: 23, offset: 24514},
+																													pos:        position{line: 767, col: 23, offset: 24515},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5198,12 +5198,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 769, col: 8, offset: 24598},
+																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -5254,15 +5254,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 28097},
+																				pos: position{line: 881, col: 5, offset: 28098},
 																				run: (*parser).callonDocumentFragment265,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -5273,36 +5273,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 980, col: 5, offset: 30546},
+											pos: position{line: 980, col: 5, offset: 30547},
 											run: (*parser).callonDocumentFragment268,
 											expr: &seqExpr{
-												pos: position{line: 980, col: 5, offset: 30546},
+												pos: position{line: 980, col: 5, offset: 30547},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 980, col: 5, offset: 30546},
+														pos:   position{line: 980, col: 5, offset: 30547},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 780, col: 26, offset: 24984},
+															pos: position{line: 780, col: 26, offset: 24985},
 															run: (*parser).callonDocumentFragment271,
 															expr: &seqExpr{
-																pos: position{line: 780, col: 26, offset: 24984},
+																pos: position{line: 780, col: 26, offset: 24985},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 780, col: 26, offset: 24984},
+																		pos:        position{line: 780, col: 26, offset: 24985},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 780, col: 32, offset: 24990},
+																		pos:   position{line: 780, col: 32, offset: 24991},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 784, col: 13, offset: 25120},
+																			pos: position{line: 784, col: 13, offset: 25121},
 																			run: (*parser).callonDocumentFragment275,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 784, col: 14, offset: 25121},
+																				pos: position{line: 784, col: 14, offset: 25122},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 784, col: 14, offset: 25121},
+																					pos:        position{line: 784, col: 14, offset: 25122},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5312,12 +5312,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 780, col: 52, offset: 25010},
+																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -5368,34 +5368,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 981, col: 5, offset: 30592},
+														pos:   position{line: 981, col: 5, offset: 30593},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 994, col: 5, offset: 31065},
+															pos: position{line: 994, col: 5, offset: 31066},
 															expr: &actionExpr{
-																pos: position{line: 994, col: 6, offset: 31066},
+																pos: position{line: 994, col: 6, offset: 31067},
 																run: (*parser).callonDocumentFragment291,
 																expr: &seqExpr{
-																	pos: position{line: 994, col: 6, offset: 31066},
+																	pos: position{line: 994, col: 6, offset: 31067},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 994, col: 6, offset: 31066},
+																			pos: position{line: 994, col: 6, offset: 31067},
 																			expr: &seqExpr{
-																				pos: position{line: 991, col: 34, offset: 31013},
+																				pos: position{line: 991, col: 34, offset: 31014},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 991, col: 34, offset: 31013},
+																						pos:        position{line: 991, col: 34, offset: 31014},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 991, col: 40, offset: 31019},
+																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -5445,30 +5445,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 995, col: 5, offset: 31101},
+																			pos:   position{line: 995, col: 5, offset: 31102},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment308,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -5525,23 +5525,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 982, col: 5, offset: 30631},
+														pos: position{line: 982, col: 5, offset: 30632},
 														expr: &seqExpr{
-															pos: position{line: 991, col: 34, offset: 31013},
+															pos: position{line: 991, col: 34, offset: 31014},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 991, col: 34, offset: 31013},
+																	pos:        position{line: 991, col: 34, offset: 31014},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 991, col: 40, offset: 31019},
+																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -5594,39 +5594,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28407},
+											pos: position{line: 896, col: 5, offset: 28408},
 											run: (*parser).callonDocumentFragment338,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28407},
+												pos: position{line: 896, col: 5, offset: 28408},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28407},
+														pos:   position{line: 896, col: 5, offset: 28408},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 774, col: 5, offset: 24743},
+															pos: position{line: 774, col: 5, offset: 24744},
 															run: (*parser).callonDocumentFragment341,
 															expr: &seqExpr{
-																pos: position{line: 774, col: 5, offset: 24743},
+																pos: position{line: 774, col: 5, offset: 24744},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 774, col: 5, offset: 24743},
+																		pos:   position{line: 774, col: 5, offset: 24744},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 774, col: 16, offset: 24754},
+																			pos: position{line: 774, col: 16, offset: 24755},
 																			run: (*parser).callonDocumentFragment344,
 																			expr: &seqExpr{
-																				pos: position{line: 774, col: 16, offset: 24754},
+																				pos: position{line: 774, col: 16, offset: 24755},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 774, col: 16, offset: 24754},
+																						pos:        position{line: 774, col: 16, offset: 24755},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 774, col: 22, offset: 24760},
+																						pos: position{line: 774, col: 22, offset: 24761},
 																						expr: &litMatcher{
-																							pos:        position{line: 774, col: 22, offset: 24760},
+																							pos:        position{line: 774, col: 22, offset: 24761},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5637,12 +5637,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 776, col: 8, offset: 24844},
+																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -5693,56 +5693,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28445},
+														pos: position{line: 897, col: 5, offset: 28446},
 														run: (*parser).callonDocumentFragment360,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28537},
+														pos:   position{line: 900, col: 5, offset: 28538},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28927},
+															pos: position{line: 915, col: 5, offset: 28928},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28928},
+																pos: position{line: 915, col: 6, offset: 28929},
 																run: (*parser).callonDocumentFragment363,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28928},
+																	pos: position{line: 915, col: 6, offset: 28929},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28928},
+																			pos: position{line: 915, col: 6, offset: 28929},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28771},
+																				pos: position{line: 908, col: 5, offset: 28772},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28771},
+																						pos: position{line: 908, col: 5, offset: 28772},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28771},
+																								pos:   position{line: 908, col: 5, offset: 28772},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 774, col: 5, offset: 24743},
+																									pos: position{line: 774, col: 5, offset: 24744},
 																									run: (*parser).callonDocumentFragment369,
 																									expr: &seqExpr{
-																										pos: position{line: 774, col: 5, offset: 24743},
+																										pos: position{line: 774, col: 5, offset: 24744},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 774, col: 5, offset: 24743},
+																												pos:   position{line: 774, col: 5, offset: 24744},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 774, col: 16, offset: 24754},
+																													pos: position{line: 774, col: 16, offset: 24755},
 																													run: (*parser).callonDocumentFragment372,
 																													expr: &seqExpr{
-																														pos: position{line: 774, col: 16, offset: 24754},
+																														pos: position{line: 774, col: 16, offset: 24755},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 774, col: 16, offset: 24754},
+																																pos:        position{line: 774, col: 16, offset: 24755},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 774, col: 22, offset: 24760},
+																																pos: position{line: 774, col: 22, offset: 24761},
 																																expr: &litMatcher{
-																																	pos:        position{line: 774, col: 22, offset: 24760},
+																																	pos:        position{line: 774, col: 22, offset: 24761},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5753,12 +5753,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 776, col: 8, offset: 24844},
+																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -5809,45 +5809,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28801},
+																								pos: position{line: 909, col: 5, offset: 28802},
 																								run: (*parser).callonDocumentFragment388,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28957},
+																			pos:   position{line: 916, col: 5, offset: 28958},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment392,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -5904,44 +5904,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28570},
+														pos:   position{line: 901, col: 5, offset: 28571},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28574},
+															pos: position{line: 901, col: 9, offset: 28575},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28771},
+																pos: position{line: 908, col: 5, offset: 28772},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28771},
+																		pos: position{line: 908, col: 5, offset: 28772},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28771},
+																				pos:   position{line: 908, col: 5, offset: 28772},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 774, col: 5, offset: 24743},
+																					pos: position{line: 774, col: 5, offset: 24744},
 																					run: (*parser).callonDocumentFragment413,
 																					expr: &seqExpr{
-																						pos: position{line: 774, col: 5, offset: 24743},
+																						pos: position{line: 774, col: 5, offset: 24744},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 774, col: 5, offset: 24743},
+																								pos:   position{line: 774, col: 5, offset: 24744},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 774, col: 16, offset: 24754},
+																									pos: position{line: 774, col: 16, offset: 24755},
 																									run: (*parser).callonDocumentFragment416,
 																									expr: &seqExpr{
-																										pos: position{line: 774, col: 16, offset: 24754},
+																										pos: position{line: 774, col: 16, offset: 24755},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 774, col: 16, offset: 24754},
+																												pos:        position{line: 774, col: 16, offset: 24755},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 22, offset: 24760},
+																												pos: position{line: 774, col: 22, offset: 24761},
 																												expr: &litMatcher{
-																													pos:        position{line: 774, col: 22, offset: 24760},
+																													pos:        position{line: 774, col: 22, offset: 24761},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5952,12 +5952,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 776, col: 8, offset: 24844},
+																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -6008,15 +6008,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28801},
+																				pos: position{line: 909, col: 5, offset: 28802},
 																				run: (*parser).callonDocumentFragment432,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -6027,39 +6027,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 29112},
+											pos: position{line: 924, col: 5, offset: 29113},
 											run: (*parser).callonDocumentFragment435,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 29112},
+												pos: position{line: 924, col: 5, offset: 29113},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 29112},
+														pos:   position{line: 924, col: 5, offset: 29113},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 789, col: 5, offset: 25280},
+															pos: position{line: 789, col: 5, offset: 25281},
 															run: (*parser).callonDocumentFragment438,
 															expr: &seqExpr{
-																pos: position{line: 789, col: 5, offset: 25280},
+																pos: position{line: 789, col: 5, offset: 25281},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 789, col: 5, offset: 25280},
+																		pos:   position{line: 789, col: 5, offset: 25281},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 16, offset: 25291},
+																			pos: position{line: 789, col: 16, offset: 25292},
 																			run: (*parser).callonDocumentFragment441,
 																			expr: &seqExpr{
-																				pos: position{line: 789, col: 16, offset: 25291},
+																				pos: position{line: 789, col: 16, offset: 25292},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 789, col: 16, offset: 25291},
+																						pos:        position{line: 789, col: 16, offset: 25292},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 789, col: 23, offset: 25298},
+																						pos: position{line: 789, col: 23, offset: 25299},
 																						expr: &litMatcher{
-																							pos:        position{line: 789, col: 23, offset: 25298},
+																							pos:        position{line: 789, col: 23, offset: 25299},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6070,12 +6070,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 791, col: 8, offset: 25382},
+																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -6126,56 +6126,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 29151},
+														pos: position{line: 925, col: 5, offset: 29152},
 														run: (*parser).callonDocumentFragment457,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29243},
+														pos:   position{line: 928, col: 5, offset: 29244},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29641},
+															pos: position{line: 943, col: 5, offset: 29642},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29642},
+																pos: position{line: 943, col: 6, offset: 29643},
 																run: (*parser).callonDocumentFragment460,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29642},
+																	pos: position{line: 943, col: 6, offset: 29643},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29642},
+																			pos: position{line: 943, col: 6, offset: 29643},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29483},
+																				pos: position{line: 936, col: 5, offset: 29484},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29483},
+																						pos: position{line: 936, col: 5, offset: 29484},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29483},
+																								pos:   position{line: 936, col: 5, offset: 29484},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 5, offset: 25280},
+																									pos: position{line: 789, col: 5, offset: 25281},
 																									run: (*parser).callonDocumentFragment466,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 5, offset: 25280},
+																										pos: position{line: 789, col: 5, offset: 25281},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 789, col: 5, offset: 25280},
+																												pos:   position{line: 789, col: 5, offset: 25281},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 789, col: 16, offset: 25291},
+																													pos: position{line: 789, col: 16, offset: 25292},
 																													run: (*parser).callonDocumentFragment469,
 																													expr: &seqExpr{
-																														pos: position{line: 789, col: 16, offset: 25291},
+																														pos: position{line: 789, col: 16, offset: 25292},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 789, col: 16, offset: 25291},
+																																pos:        position{line: 789, col: 16, offset: 25292},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 789, col: 23, offset: 25298},
+																																pos: position{line: 789, col: 23, offset: 25299},
 																																expr: &litMatcher{
-																																	pos:        position{line: 789, col: 23, offset: 25298},
+																																	pos:        position{line: 789, col: 23, offset: 25299},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6186,12 +6186,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 8, offset: 25382},
+																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -6242,45 +6242,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29514},
+																								pos: position{line: 937, col: 5, offset: 29515},
 																								run: (*parser).callonDocumentFragment485,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29672},
+																			pos:   position{line: 944, col: 5, offset: 29673},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment489,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -6337,44 +6337,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29277},
+														pos:   position{line: 929, col: 5, offset: 29278},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29281},
+															pos: position{line: 929, col: 9, offset: 29282},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29483},
+																pos: position{line: 936, col: 5, offset: 29484},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29483},
+																		pos: position{line: 936, col: 5, offset: 29484},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29483},
+																				pos:   position{line: 936, col: 5, offset: 29484},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25280},
+																					pos: position{line: 789, col: 5, offset: 25281},
 																					run: (*parser).callonDocumentFragment510,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25280},
+																						pos: position{line: 789, col: 5, offset: 25281},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25280},
+																								pos:   position{line: 789, col: 5, offset: 25281},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25291},
+																									pos: position{line: 789, col: 16, offset: 25292},
 																									run: (*parser).callonDocumentFragment513,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 16, offset: 25291},
+																										pos: position{line: 789, col: 16, offset: 25292},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 789, col: 16, offset: 25291},
+																												pos:        position{line: 789, col: 16, offset: 25292},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 789, col: 23, offset: 25298},
+																												pos: position{line: 789, col: 23, offset: 25299},
 																												expr: &litMatcher{
-																													pos:        position{line: 789, col: 23, offset: 25298},
+																													pos:        position{line: 789, col: 23, offset: 25299},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6385,12 +6385,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25382},
+																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -6441,15 +6441,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29514},
+																				pos: position{line: 937, col: 5, offset: 29515},
 																				run: (*parser).callonDocumentFragment529,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -6460,39 +6460,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29827},
+											pos: position{line: 952, col: 5, offset: 29828},
 											run: (*parser).callonDocumentFragment532,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29827},
+												pos: position{line: 952, col: 5, offset: 29828},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29827},
+														pos:   position{line: 952, col: 5, offset: 29828},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 803, col: 5, offset: 25756},
+															pos: position{line: 803, col: 5, offset: 25757},
 															run: (*parser).callonDocumentFragment535,
 															expr: &seqExpr{
-																pos: position{line: 803, col: 5, offset: 25756},
+																pos: position{line: 803, col: 5, offset: 25757},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 803, col: 5, offset: 25756},
+																		pos:   position{line: 803, col: 5, offset: 25757},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 803, col: 16, offset: 25767},
+																			pos: position{line: 803, col: 16, offset: 25768},
 																			run: (*parser).callonDocumentFragment538,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 16, offset: 25767},
+																				pos: position{line: 803, col: 16, offset: 25768},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 803, col: 16, offset: 25767},
+																						pos:        position{line: 803, col: 16, offset: 25768},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 803, col: 23, offset: 25774},
+																						pos: position{line: 803, col: 23, offset: 25775},
 																						expr: &litMatcher{
-																							pos:        position{line: 803, col: 23, offset: 25774},
+																							pos:        position{line: 803, col: 23, offset: 25775},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6503,12 +6503,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 805, col: 8, offset: 25858},
+																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -6559,56 +6559,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 953, col: 5, offset: 29866},
+														pos: position{line: 953, col: 5, offset: 29867},
 														run: (*parser).callonDocumentFragment554,
 													},
 													&labeledExpr{
-														pos:   position{line: 956, col: 5, offset: 29958},
+														pos:   position{line: 956, col: 5, offset: 29959},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 971, col: 5, offset: 30356},
+															pos: position{line: 971, col: 5, offset: 30357},
 															expr: &actionExpr{
-																pos: position{line: 971, col: 6, offset: 30357},
+																pos: position{line: 971, col: 6, offset: 30358},
 																run: (*parser).callonDocumentFragment557,
 																expr: &seqExpr{
-																	pos: position{line: 971, col: 6, offset: 30357},
+																	pos: position{line: 971, col: 6, offset: 30358},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 971, col: 6, offset: 30357},
+																			pos: position{line: 971, col: 6, offset: 30358},
 																			expr: &choiceExpr{
-																				pos: position{line: 964, col: 5, offset: 30198},
+																				pos: position{line: 964, col: 5, offset: 30199},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 964, col: 5, offset: 30198},
+																						pos: position{line: 964, col: 5, offset: 30199},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 964, col: 5, offset: 30198},
+																								pos:   position{line: 964, col: 5, offset: 30199},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 5, offset: 25756},
+																									pos: position{line: 803, col: 5, offset: 25757},
 																									run: (*parser).callonDocumentFragment563,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 5, offset: 25756},
+																										pos: position{line: 803, col: 5, offset: 25757},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 803, col: 5, offset: 25756},
+																												pos:   position{line: 803, col: 5, offset: 25757},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 803, col: 16, offset: 25767},
+																													pos: position{line: 803, col: 16, offset: 25768},
 																													run: (*parser).callonDocumentFragment566,
 																													expr: &seqExpr{
-																														pos: position{line: 803, col: 16, offset: 25767},
+																														pos: position{line: 803, col: 16, offset: 25768},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 803, col: 16, offset: 25767},
+																																pos:        position{line: 803, col: 16, offset: 25768},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 803, col: 23, offset: 25774},
+																																pos: position{line: 803, col: 23, offset: 25775},
 																																expr: &litMatcher{
-																																	pos:        position{line: 803, col: 23, offset: 25774},
+																																	pos:        position{line: 803, col: 23, offset: 25775},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6619,12 +6619,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 8, offset: 25858},
+																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -6675,45 +6675,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 965, col: 5, offset: 30229},
+																								pos: position{line: 965, col: 5, offset: 30230},
 																								run: (*parser).callonDocumentFragment582,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 972, col: 5, offset: 30387},
+																			pos:   position{line: 972, col: 5, offset: 30388},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment586,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -6770,44 +6770,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 957, col: 5, offset: 29992},
+														pos:   position{line: 957, col: 5, offset: 29993},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 957, col: 9, offset: 29996},
+															pos: position{line: 957, col: 9, offset: 29997},
 															expr: &choiceExpr{
-																pos: position{line: 964, col: 5, offset: 30198},
+																pos: position{line: 964, col: 5, offset: 30199},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 964, col: 5, offset: 30198},
+																		pos: position{line: 964, col: 5, offset: 30199},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 964, col: 5, offset: 30198},
+																				pos:   position{line: 964, col: 5, offset: 30199},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 803, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 25757},
 																					run: (*parser).callonDocumentFragment607,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 25756},
+																						pos: position{line: 803, col: 5, offset: 25757},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 25756},
+																								pos:   position{line: 803, col: 5, offset: 25757},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 25768},
 																									run: (*parser).callonDocumentFragment610,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 25767},
+																										pos: position{line: 803, col: 16, offset: 25768},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 25767},
+																												pos:        position{line: 803, col: 16, offset: 25768},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 25774},
+																												pos: position{line: 803, col: 23, offset: 25775},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 25774},
+																													pos:        position{line: 803, col: 23, offset: 25775},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6818,12 +6818,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 25858},
+																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -6874,15 +6874,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 965, col: 5, offset: 30229},
+																				pos: position{line: 965, col: 5, offset: 30230},
 																				run: (*parser).callonDocumentFragment626,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -6893,41 +6893,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1003, col: 5, offset: 31270},
+											pos: position{line: 1003, col: 5, offset: 31271},
 											run: (*parser).callonDocumentFragment629,
 											expr: &seqExpr{
-												pos: position{line: 1003, col: 5, offset: 31270},
+												pos: position{line: 1003, col: 5, offset: 31271},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1003, col: 5, offset: 31270},
+														pos:   position{line: 1003, col: 5, offset: 31271},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 1010, col: 5, offset: 31529},
+															pos: position{line: 1010, col: 5, offset: 31530},
 															run: (*parser).callonDocumentFragment632,
 															expr: &seqExpr{
-																pos: position{line: 1010, col: 5, offset: 31529},
+																pos: position{line: 1010, col: 5, offset: 31530},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1010, col: 5, offset: 31529},
+																		pos: position{line: 1010, col: 5, offset: 31530},
 																		expr: &actionExpr{
-																			pos: position{line: 697, col: 14, offset: 22134},
+																			pos: position{line: 697, col: 14, offset: 22135},
 																			run: (*parser).callonDocumentFragment635,
 																			expr: &seqExpr{
-																				pos: position{line: 697, col: 14, offset: 22134},
+																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 697, col: 21, offset: 22141},
+																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -6978,21 +6978,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1011, col: 5, offset: 31544},
+																		pos:        position{line: 1011, col: 5, offset: 31545},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1012, col: 5, offset: 31554},
+																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89993},
+																			pos: position{line: 2836, col: 14, offset: 89994},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89993},
+																				pos: position{line: 2836, col: 14, offset: 89994},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89993},
+																					pos:        position{line: 2836, col: 14, offset: 89994},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -7044,40 +7044,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1004, col: 5, offset: 31307},
+														pos:   position{line: 1004, col: 5, offset: 31308},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1004, col: 16, offset: 31318},
+															pos: position{line: 1004, col: 16, offset: 31319},
 															expr: &choiceExpr{
-																pos: position{line: 1004, col: 17, offset: 31319},
+																pos: position{line: 1004, col: 17, offset: 31320},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 1010, col: 5, offset: 31529},
+																		pos: position{line: 1010, col: 5, offset: 31530},
 																		run: (*parser).callonDocumentFragment666,
 																		expr: &seqExpr{
-																			pos: position{line: 1010, col: 5, offset: 31529},
+																			pos: position{line: 1010, col: 5, offset: 31530},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 1010, col: 5, offset: 31529},
+																					pos: position{line: 1010, col: 5, offset: 31530},
 																					expr: &actionExpr{
-																						pos: position{line: 697, col: 14, offset: 22134},
+																						pos: position{line: 697, col: 14, offset: 22135},
 																						run: (*parser).callonDocumentFragment669,
 																						expr: &seqExpr{
-																							pos: position{line: 697, col: 14, offset: 22134},
+																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2903, col: 11, offset: 91734},
+																									pos: position{line: 2903, col: 11, offset: 91735},
 																									expr: &anyMatcher{
-																										line: 2903, col: 13, offset: 91736,
+																										line: 2903, col: 13, offset: 91737,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 697, col: 21, offset: 22141},
+																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -7128,21 +7128,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1011, col: 5, offset: 31544},
+																					pos:        position{line: 1011, col: 5, offset: 31545},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1012, col: 5, offset: 31554},
+																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2836, col: 14, offset: 89993},
+																						pos: position{line: 2836, col: 14, offset: 89994},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2836, col: 14, offset: 89993},
+																							pos: position{line: 2836, col: 14, offset: 89994},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2836, col: 14, offset: 89993},
+																								pos:        position{line: 2836, col: 14, offset: 89994},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1818, col: 5, offset: 58755},
+																		pos: position{line: 1818, col: 5, offset: 58756},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1818, col: 5, offset: 58755},
+																			pos: position{line: 1818, col: 5, offset: 58756},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1818, col: 5, offset: 58755},
+																					pos:   position{line: 1818, col: 5, offset: 58756},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2836, col: 14, offset: 89993},
+																						pos: position{line: 2836, col: 14, offset: 89994},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2836, col: 14, offset: 89993},
+																							pos: position{line: 2836, col: 14, offset: 89994},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2836, col: 14, offset: 89993},
+																								pos:        position{line: 2836, col: 14, offset: 89994},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1819, col: 5, offset: 58779},
+																					pos: position{line: 1819, col: 5, offset: 58780},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -7269,28 +7269,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1025, col: 5, offset: 31819},
+											pos: position{line: 1025, col: 5, offset: 31820},
 											run: (*parser).callonDocumentFragment712,
 											expr: &seqExpr{
-												pos: position{line: 1025, col: 5, offset: 31819},
+												pos: position{line: 1025, col: 5, offset: 31820},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31819},
+														pos:   position{line: 1025, col: 5, offset: 31820},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 796, col: 5, offset: 25525},
+															pos: position{line: 796, col: 5, offset: 25526},
 															run: (*parser).callonDocumentFragment715,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25525},
+																pos: position{line: 796, col: 5, offset: 25526},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25525},
+																		pos:   position{line: 796, col: 5, offset: 25526},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25536},
+																			pos: position{line: 796, col: 16, offset: 25537},
 																			run: (*parser).callonDocumentFragment718,
 																			expr: &litMatcher{
-																				pos:        position{line: 796, col: 16, offset: 25536},
+																				pos:        position{line: 796, col: 16, offset: 25537},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7298,12 +7298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25613},
+																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -7354,35 +7354,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1026, col: 5, offset: 31855},
+														pos:   position{line: 1026, col: 5, offset: 31856},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32123},
+															pos: position{line: 1036, col: 5, offset: 32124},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32124},
+																pos: position{line: 1036, col: 6, offset: 32125},
 																run: (*parser).callonDocumentFragment733,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32124},
+																	pos: position{line: 1036, col: 6, offset: 32125},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32124},
+																			pos: position{line: 1036, col: 6, offset: 32125},
 																			expr: &choiceExpr{
-																				pos: position{line: 1033, col: 26, offset: 32072},
+																				pos: position{line: 1033, col: 26, offset: 32073},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 796, col: 5, offset: 25525},
+																						pos: position{line: 796, col: 5, offset: 25526},
 																						run: (*parser).callonDocumentFragment737,
 																						expr: &seqExpr{
-																							pos: position{line: 796, col: 5, offset: 25525},
+																							pos: position{line: 796, col: 5, offset: 25526},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 796, col: 5, offset: 25525},
+																									pos:   position{line: 796, col: 5, offset: 25526},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 796, col: 16, offset: 25536},
+																										pos: position{line: 796, col: 16, offset: 25537},
 																										run: (*parser).callonDocumentFragment740,
 																										expr: &litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25536},
+																											pos:        position{line: 796, col: 16, offset: 25537},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7390,12 +7390,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 798, col: 8, offset: 25613},
+																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -7445,39 +7445,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32151},
+																			pos:   position{line: 1037, col: 5, offset: 32152},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment756,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -7534,27 +7534,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1027, col: 5, offset: 31886},
+														pos:   position{line: 1027, col: 5, offset: 31887},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1027, col: 9, offset: 31890},
+															pos: position{line: 1027, col: 9, offset: 31891},
 															expr: &choiceExpr{
-																pos: position{line: 1033, col: 26, offset: 32072},
+																pos: position{line: 1033, col: 26, offset: 32073},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 796, col: 5, offset: 25525},
+																		pos: position{line: 796, col: 5, offset: 25526},
 																		run: (*parser).callonDocumentFragment775,
 																		expr: &seqExpr{
-																			pos: position{line: 796, col: 5, offset: 25525},
+																			pos: position{line: 796, col: 5, offset: 25526},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 796, col: 5, offset: 25525},
+																					pos:   position{line: 796, col: 5, offset: 25526},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 796, col: 16, offset: 25536},
+																						pos: position{line: 796, col: 16, offset: 25537},
 																						run: (*parser).callonDocumentFragment778,
 																						expr: &litMatcher{
-																							pos:        position{line: 796, col: 16, offset: 25536},
+																							pos:        position{line: 796, col: 16, offset: 25537},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7562,12 +7562,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 798, col: 8, offset: 25613},
+																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -7630,39 +7630,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32314},
+											pos: position{line: 1045, col: 5, offset: 32315},
 											run: (*parser).callonDocumentFragment793,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32314},
+												pos: position{line: 1045, col: 5, offset: 32315},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32314},
+														pos:   position{line: 1045, col: 5, offset: 32315},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 810, col: 5, offset: 26008},
+															pos: position{line: 810, col: 5, offset: 26009},
 															run: (*parser).callonDocumentFragment796,
 															expr: &seqExpr{
-																pos: position{line: 810, col: 5, offset: 26008},
+																pos: position{line: 810, col: 5, offset: 26009},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 810, col: 5, offset: 26008},
+																		pos:   position{line: 810, col: 5, offset: 26009},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 16, offset: 26019},
+																			pos: position{line: 810, col: 16, offset: 26020},
 																			run: (*parser).callonDocumentFragment799,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 16, offset: 26019},
+																				pos: position{line: 810, col: 16, offset: 26020},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 810, col: 16, offset: 26019},
+																						pos:        position{line: 810, col: 16, offset: 26020},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 810, col: 23, offset: 26026},
+																						pos: position{line: 810, col: 23, offset: 26027},
 																						expr: &litMatcher{
-																							pos:        position{line: 810, col: 23, offset: 26026},
+																							pos:        position{line: 810, col: 23, offset: 26027},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7673,12 +7673,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 812, col: 8, offset: 26110},
+																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -7729,56 +7729,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32357},
+														pos: position{line: 1046, col: 5, offset: 32358},
 														run: (*parser).callonDocumentFragment815,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32449},
+														pos:   position{line: 1049, col: 5, offset: 32450},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 5, offset: 32879},
+															pos: position{line: 1064, col: 5, offset: 32880},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 6, offset: 32880},
+																pos: position{line: 1064, col: 6, offset: 32881},
 																run: (*parser).callonDocumentFragment818,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 6, offset: 32880},
+																	pos: position{line: 1064, col: 6, offset: 32881},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 6, offset: 32880},
+																			pos: position{line: 1064, col: 6, offset: 32881},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32713},
+																				pos: position{line: 1057, col: 5, offset: 32714},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32713},
+																						pos: position{line: 1057, col: 5, offset: 32714},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32713},
+																								pos:   position{line: 1057, col: 5, offset: 32714},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 5, offset: 26008},
+																									pos: position{line: 810, col: 5, offset: 26009},
 																									run: (*parser).callonDocumentFragment824,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 5, offset: 26008},
+																										pos: position{line: 810, col: 5, offset: 26009},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 810, col: 5, offset: 26008},
+																												pos:   position{line: 810, col: 5, offset: 26009},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 810, col: 16, offset: 26019},
+																													pos: position{line: 810, col: 16, offset: 26020},
 																													run: (*parser).callonDocumentFragment827,
 																													expr: &seqExpr{
-																														pos: position{line: 810, col: 16, offset: 26019},
+																														pos: position{line: 810, col: 16, offset: 26020},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 810, col: 16, offset: 26019},
+																																pos:        position{line: 810, col: 16, offset: 26020},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 810, col: 23, offset: 26026},
+																																pos: position{line: 810, col: 23, offset: 26027},
 																																expr: &litMatcher{
-																																	pos:        position{line: 810, col: 23, offset: 26026},
+																																	pos:        position{line: 810, col: 23, offset: 26027},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7789,12 +7789,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 812, col: 8, offset: 26110},
+																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -7845,45 +7845,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32748},
+																								pos: position{line: 1058, col: 5, offset: 32749},
 																								run: (*parser).callonDocumentFragment843,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32914},
+																			pos:   position{line: 1065, col: 5, offset: 32915},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment847,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -7940,44 +7940,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32487},
+														pos:   position{line: 1050, col: 5, offset: 32488},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32491},
+															pos: position{line: 1050, col: 9, offset: 32492},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32713},
+																pos: position{line: 1057, col: 5, offset: 32714},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32713},
+																		pos: position{line: 1057, col: 5, offset: 32714},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32713},
+																				pos:   position{line: 1057, col: 5, offset: 32714},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 810, col: 5, offset: 26008},
+																					pos: position{line: 810, col: 5, offset: 26009},
 																					run: (*parser).callonDocumentFragment868,
 																					expr: &seqExpr{
-																						pos: position{line: 810, col: 5, offset: 26008},
+																						pos: position{line: 810, col: 5, offset: 26009},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 810, col: 5, offset: 26008},
+																								pos:   position{line: 810, col: 5, offset: 26009},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 16, offset: 26019},
+																									pos: position{line: 810, col: 16, offset: 26020},
 																									run: (*parser).callonDocumentFragment871,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 16, offset: 26019},
+																										pos: position{line: 810, col: 16, offset: 26020},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 810, col: 16, offset: 26019},
+																												pos:        position{line: 810, col: 16, offset: 26020},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 23, offset: 26026},
+																												pos: position{line: 810, col: 23, offset: 26027},
 																												expr: &litMatcher{
-																													pos:        position{line: 810, col: 23, offset: 26026},
+																													pos:        position{line: 810, col: 23, offset: 26027},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -7988,12 +7988,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 812, col: 8, offset: 26110},
+																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -8044,15 +8044,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32748},
+																				pos: position{line: 1058, col: 5, offset: 32749},
 																				run: (*parser).callonDocumentFragment887,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -8063,39 +8063,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 33065},
+											pos: position{line: 1073, col: 5, offset: 33066},
 											run: (*parser).callonDocumentFragment890,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 33065},
+												pos: position{line: 1073, col: 5, offset: 33066},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 33065},
+														pos:   position{line: 1073, col: 5, offset: 33066},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 817, col: 5, offset: 26258},
+															pos: position{line: 817, col: 5, offset: 26259},
 															run: (*parser).callonDocumentFragment893,
 															expr: &seqExpr{
-																pos: position{line: 817, col: 5, offset: 26258},
+																pos: position{line: 817, col: 5, offset: 26259},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 817, col: 5, offset: 26258},
+																		pos:   position{line: 817, col: 5, offset: 26259},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 817, col: 16, offset: 26269},
+																			pos: position{line: 817, col: 16, offset: 26270},
 																			run: (*parser).callonDocumentFragment896,
 																			expr: &seqExpr{
-																				pos: position{line: 817, col: 16, offset: 26269},
+																				pos: position{line: 817, col: 16, offset: 26270},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 817, col: 16, offset: 26269},
+																						pos:        position{line: 817, col: 16, offset: 26270},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 817, col: 23, offset: 26276},
+																						pos: position{line: 817, col: 23, offset: 26277},
 																						expr: &litMatcher{
-																							pos:        position{line: 817, col: 23, offset: 26276},
+																							pos:        position{line: 817, col: 23, offset: 26277},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8106,12 +8106,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 819, col: 8, offset: 26360},
+																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -8162,56 +8162,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 33102},
+														pos: position{line: 1074, col: 5, offset: 33103},
 														run: (*parser).callonDocumentFragment912,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33194},
+														pos:   position{line: 1077, col: 5, offset: 33195},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33575},
+															pos: position{line: 1092, col: 4, offset: 33576},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33576},
+																pos: position{line: 1092, col: 5, offset: 33577},
 																run: (*parser).callonDocumentFragment915,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33576},
+																	pos: position{line: 1092, col: 5, offset: 33577},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33576},
+																			pos: position{line: 1092, col: 5, offset: 33577},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33422},
+																				pos: position{line: 1085, col: 5, offset: 33423},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33422},
+																						pos: position{line: 1085, col: 5, offset: 33423},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33422},
+																								pos:   position{line: 1085, col: 5, offset: 33423},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 5, offset: 26258},
+																									pos: position{line: 817, col: 5, offset: 26259},
 																									run: (*parser).callonDocumentFragment921,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 5, offset: 26258},
+																										pos: position{line: 817, col: 5, offset: 26259},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 817, col: 5, offset: 26258},
+																												pos:   position{line: 817, col: 5, offset: 26259},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 817, col: 16, offset: 26269},
+																													pos: position{line: 817, col: 16, offset: 26270},
 																													run: (*parser).callonDocumentFragment924,
 																													expr: &seqExpr{
-																														pos: position{line: 817, col: 16, offset: 26269},
+																														pos: position{line: 817, col: 16, offset: 26270},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 817, col: 16, offset: 26269},
+																																pos:        position{line: 817, col: 16, offset: 26270},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 817, col: 23, offset: 26276},
+																																pos: position{line: 817, col: 23, offset: 26277},
 																																expr: &litMatcher{
-																																	pos:        position{line: 817, col: 23, offset: 26276},
+																																	pos:        position{line: 817, col: 23, offset: 26277},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8222,12 +8222,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 819, col: 8, offset: 26360},
+																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -8278,45 +8278,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33451},
+																								pos: position{line: 1086, col: 5, offset: 33452},
 																								run: (*parser).callonDocumentFragment940,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33604},
+																			pos:   position{line: 1093, col: 5, offset: 33605},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment944,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -8373,44 +8373,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33226},
+														pos:   position{line: 1078, col: 5, offset: 33227},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33230},
+															pos: position{line: 1078, col: 9, offset: 33231},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33422},
+																pos: position{line: 1085, col: 5, offset: 33423},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33422},
+																		pos: position{line: 1085, col: 5, offset: 33423},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33422},
+																				pos:   position{line: 1085, col: 5, offset: 33423},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 817, col: 5, offset: 26258},
+																					pos: position{line: 817, col: 5, offset: 26259},
 																					run: (*parser).callonDocumentFragment965,
 																					expr: &seqExpr{
-																						pos: position{line: 817, col: 5, offset: 26258},
+																						pos: position{line: 817, col: 5, offset: 26259},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 817, col: 5, offset: 26258},
+																								pos:   position{line: 817, col: 5, offset: 26259},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 16, offset: 26269},
+																									pos: position{line: 817, col: 16, offset: 26270},
 																									run: (*parser).callonDocumentFragment968,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 16, offset: 26269},
+																										pos: position{line: 817, col: 16, offset: 26270},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 817, col: 16, offset: 26269},
+																												pos:        position{line: 817, col: 16, offset: 26270},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 23, offset: 26276},
+																												pos: position{line: 817, col: 23, offset: 26277},
 																												expr: &litMatcher{
-																													pos:        position{line: 817, col: 23, offset: 26276},
+																													pos:        position{line: 817, col: 23, offset: 26277},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8421,12 +8421,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 819, col: 8, offset: 26360},
+																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -8477,15 +8477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33451},
+																				pos: position{line: 1086, col: 5, offset: 33452},
 																				run: (*parser).callonDocumentFragment984,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -8496,39 +8496,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1101, col: 5, offset: 33759},
+											pos: position{line: 1101, col: 5, offset: 33760},
 											run: (*parser).callonDocumentFragment987,
 											expr: &seqExpr{
-												pos: position{line: 1101, col: 5, offset: 33759},
+												pos: position{line: 1101, col: 5, offset: 33760},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1101, col: 5, offset: 33759},
+														pos:   position{line: 1101, col: 5, offset: 33760},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 824, col: 5, offset: 26504},
+															pos: position{line: 824, col: 5, offset: 26505},
 															run: (*parser).callonDocumentFragment990,
 															expr: &seqExpr{
-																pos: position{line: 824, col: 5, offset: 26504},
+																pos: position{line: 824, col: 5, offset: 26505},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 824, col: 5, offset: 26504},
+																		pos:   position{line: 824, col: 5, offset: 26505},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 824, col: 16, offset: 26515},
+																			pos: position{line: 824, col: 16, offset: 26516},
 																			run: (*parser).callonDocumentFragment993,
 																			expr: &seqExpr{
-																				pos: position{line: 824, col: 16, offset: 26515},
+																				pos: position{line: 824, col: 16, offset: 26516},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 824, col: 16, offset: 26515},
+																						pos:        position{line: 824, col: 16, offset: 26516},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 824, col: 23, offset: 26522},
+																						pos: position{line: 824, col: 23, offset: 26523},
 																						expr: &litMatcher{
-																							pos:        position{line: 824, col: 23, offset: 26522},
+																							pos:        position{line: 824, col: 23, offset: 26523},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8539,12 +8539,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 826, col: 8, offset: 26606},
+																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -8595,56 +8595,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1102, col: 5, offset: 33798},
+														pos: position{line: 1102, col: 5, offset: 33799},
 														run: (*parser).callonDocumentFragment1009,
 													},
 													&labeledExpr{
-														pos:   position{line: 1105, col: 5, offset: 33890},
+														pos:   position{line: 1105, col: 5, offset: 33891},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1120, col: 4, offset: 34287},
+															pos: position{line: 1120, col: 4, offset: 34288},
 															expr: &actionExpr{
-																pos: position{line: 1120, col: 5, offset: 34288},
+																pos: position{line: 1120, col: 5, offset: 34289},
 																run: (*parser).callonDocumentFragment1012,
 																expr: &seqExpr{
-																	pos: position{line: 1120, col: 5, offset: 34288},
+																	pos: position{line: 1120, col: 5, offset: 34289},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1120, col: 5, offset: 34288},
+																			pos: position{line: 1120, col: 5, offset: 34289},
 																			expr: &choiceExpr{
-																				pos: position{line: 1113, col: 5, offset: 34130},
+																				pos: position{line: 1113, col: 5, offset: 34131},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1113, col: 5, offset: 34130},
+																						pos: position{line: 1113, col: 5, offset: 34131},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1113, col: 5, offset: 34130},
+																								pos:   position{line: 1113, col: 5, offset: 34131},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 824, col: 5, offset: 26504},
+																									pos: position{line: 824, col: 5, offset: 26505},
 																									run: (*parser).callonDocumentFragment1018,
 																									expr: &seqExpr{
-																										pos: position{line: 824, col: 5, offset: 26504},
+																										pos: position{line: 824, col: 5, offset: 26505},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 824, col: 5, offset: 26504},
+																												pos:   position{line: 824, col: 5, offset: 26505},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 824, col: 16, offset: 26515},
+																													pos: position{line: 824, col: 16, offset: 26516},
 																													run: (*parser).callonDocumentFragment1021,
 																													expr: &seqExpr{
-																														pos: position{line: 824, col: 16, offset: 26515},
+																														pos: position{line: 824, col: 16, offset: 26516},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 824, col: 16, offset: 26515},
+																																pos:        position{line: 824, col: 16, offset: 26516},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 824, col: 23, offset: 26522},
+																																pos: position{line: 824, col: 23, offset: 26523},
 																																expr: &litMatcher{
-																																	pos:        position{line: 824, col: 23, offset: 26522},
+																																	pos:        position{line: 824, col: 23, offset: 26523},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8655,12 +8655,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 826, col: 8, offset: 26606},
+																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -8711,45 +8711,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1114, col: 5, offset: 34161},
+																								pos: position{line: 1114, col: 5, offset: 34162},
 																								run: (*parser).callonDocumentFragment1037,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1121, col: 5, offset: 34318},
+																			pos:   position{line: 1121, col: 5, offset: 34319},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentFragment1041,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -8806,44 +8806,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1106, col: 5, offset: 33924},
+														pos:   position{line: 1106, col: 5, offset: 33925},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1106, col: 9, offset: 33928},
+															pos: position{line: 1106, col: 9, offset: 33929},
 															expr: &choiceExpr{
-																pos: position{line: 1113, col: 5, offset: 34130},
+																pos: position{line: 1113, col: 5, offset: 34131},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1113, col: 5, offset: 34130},
+																		pos: position{line: 1113, col: 5, offset: 34131},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1113, col: 5, offset: 34130},
+																				pos:   position{line: 1113, col: 5, offset: 34131},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 824, col: 5, offset: 26504},
+																					pos: position{line: 824, col: 5, offset: 26505},
 																					run: (*parser).callonDocumentFragment1062,
 																					expr: &seqExpr{
-																						pos: position{line: 824, col: 5, offset: 26504},
+																						pos: position{line: 824, col: 5, offset: 26505},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 824, col: 5, offset: 26504},
+																								pos:   position{line: 824, col: 5, offset: 26505},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 824, col: 16, offset: 26515},
+																									pos: position{line: 824, col: 16, offset: 26516},
 																									run: (*parser).callonDocumentFragment1065,
 																									expr: &seqExpr{
-																										pos: position{line: 824, col: 16, offset: 26515},
+																										pos: position{line: 824, col: 16, offset: 26516},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 824, col: 16, offset: 26515},
+																												pos:        position{line: 824, col: 16, offset: 26516},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 824, col: 23, offset: 26522},
+																												pos: position{line: 824, col: 23, offset: 26523},
 																												expr: &litMatcher{
-																													pos:        position{line: 824, col: 23, offset: 26522},
+																													pos:        position{line: 824, col: 23, offset: 26523},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8854,12 +8854,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 826, col: 8, offset: 26606},
+																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -8910,15 +8910,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1114, col: 5, offset: 34161},
+																				pos: position{line: 1114, col: 5, offset: 34162},
 																				run: (*parser).callonDocumentFragment1081,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2731, col: 18, offset: 86976},
+											pos: position{line: 2731, col: 18, offset: 86977},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2732, col: 9, offset: 86986},
+												pos: position{line: 2732, col: 9, offset: 86987},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2732, col: 9, offset: 86986},
+														pos: position{line: 2732, col: 9, offset: 86987},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2732, col: 9, offset: 86986},
+																pos:        position{line: 2732, col: 9, offset: 86987},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2732, col: 15, offset: 86992},
+																pos: position{line: 2732, col: 15, offset: 86993},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2733, col: 11, offset: 87025},
+														pos: position{line: 2733, col: 11, offset: 87026},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2733, col: 12, offset: 87026},
+																pos: position{line: 2733, col: 12, offset: 87027},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 12, offset: 87026},
+																		pos:        position{line: 2733, col: 12, offset: 87027},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 20, offset: 87034},
+																		pos:        position{line: 2733, col: 20, offset: 87035},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 30, offset: 87044},
+																		pos:        position{line: 2733, col: 30, offset: 87045},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 38, offset: 87052},
+																		pos:        position{line: 2733, col: 38, offset: 87053},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 48, offset: 87062},
+																		pos:        position{line: 2733, col: 48, offset: 87063},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 56, offset: 87070},
+																		pos:        position{line: 2733, col: 56, offset: 87071},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2733, col: 65, offset: 87079},
+																pos: position{line: 2733, col: 65, offset: 87080},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2733, col: 76, offset: 87090},
+																pos: position{line: 2733, col: 76, offset: 87091},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 5, offset: 83912},
+											pos: position{line: 2622, col: 5, offset: 83913},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2622, col: 5, offset: 83912},
+												pos: position{line: 2622, col: 5, offset: 83913},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 19, offset: 84069},
+														pos:        position{line: 2628, col: 19, offset: 84070},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2628, col: 26, offset: 84076},
+														pos: position{line: 2628, col: 26, offset: 84077},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,40 +9200,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2623, col: 5, offset: 83936},
+														pos:   position{line: 2623, col: 5, offset: 83937},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2623, col: 11, offset: 83942},
+															pos: position{line: 2623, col: 11, offset: 83943},
 															expr: &choiceExpr{
-																pos: position{line: 2623, col: 12, offset: 83943},
+																pos: position{line: 2623, col: 12, offset: 83944},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 697, col: 14, offset: 22134},
+																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonDocumentFragment1145,
 																		expr: &seqExpr{
-																			pos: position{line: 697, col: 14, offset: 22134},
+																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91734},
+																					pos: position{line: 2903, col: 11, offset: 91735},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91736,
+																						line: 2903, col: 13, offset: 91737,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 697, col: 21, offset: 22141},
+																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2635, col: 5, offset: 84188},
+																		pos: position{line: 2635, col: 5, offset: 84189},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2635, col: 5, offset: 84188},
+																			pos: position{line: 2635, col: 5, offset: 84189},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2635, col: 5, offset: 84188},
+																					pos: position{line: 2635, col: 5, offset: 84189},
 																					expr: &choiceExpr{
-																						pos: position{line: 2632, col: 22, offset: 84149},
+																						pos: position{line: 2632, col: 22, offset: 84150},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2628, col: 19, offset: 84069},
+																								pos: position{line: 2628, col: 19, offset: 84070},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2628, col: 19, offset: 84069},
+																										pos:        position{line: 2628, col: 19, offset: 84070},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2628, col: 26, offset: 84076},
+																										pos: position{line: 2628, col: 26, offset: 84077},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91798},
+																										pos: position{line: 2908, col: 8, offset: 91799},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91571},
+																												pos: position{line: 2895, col: 12, offset: 91572},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91572},
+																													pos: position{line: 2895, col: 13, offset: 91573},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91572},
+																															pos:        position{line: 2895, col: 13, offset: 91573},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91579},
+																															pos:        position{line: 2895, col: 20, offset: 91580},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91588},
+																															pos:        position{line: 2895, col: 29, offset: 91589},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91748},
+																												pos: position{line: 2905, col: 8, offset: 91749},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91749,
+																													line: 2905, col: 9, offset: 91750,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2636, col: 5, offset: 84211},
+																					pos:   position{line: 2636, col: 5, offset: 84212},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2637, col: 9, offset: 84229},
+																						pos: position{line: 2637, col: 9, offset: 84230},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2637, col: 10, offset: 84230},
+																								pos: position{line: 2637, col: 10, offset: 84231},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2637, col: 10, offset: 84230},
+																									pos:   position{line: 2637, col: 10, offset: 84231},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2637, col: 17, offset: 84237},
+																										pos: position{line: 2637, col: 17, offset: 84238},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2645, col: 21, offset: 84433},
+																												pos: position{line: 2645, col: 21, offset: 84434},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2645, col: 21, offset: 84433},
+																													pos: position{line: 2645, col: 21, offset: 84434},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2645, col: 21, offset: 84433},
+																															pos:   position{line: 2645, col: 21, offset: 84434},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2645, col: 27, offset: 84439},
+																																pos: position{line: 2645, col: 27, offset: 84440},
 																																expr: &actionExpr{
-																																	pos: position{line: 2650, col: 5, offset: 84514},
+																																	pos: position{line: 2650, col: 5, offset: 84515},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2650, col: 5, offset: 84514},
+																																		pos: position{line: 2650, col: 5, offset: 84515},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2650, col: 5, offset: 84514},
+																																				pos:        position{line: 2650, col: 5, offset: 84515},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2650, col: 9, offset: 84518},
+																																				pos: position{line: 2650, col: 9, offset: 84519},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2886, col: 10, offset: 91400},
+																																					pos: position{line: 2886, col: 10, offset: 91401},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2886, col: 10, offset: 91400},
+																																						pos:        position{line: 2886, col: 10, offset: 91401},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2650, col: 16, offset: 84525},
+																																				pos:   position{line: 2650, col: 16, offset: 84526},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2656, col: 5, offset: 84725},
+																																					pos: position{line: 2656, col: 5, offset: 84726},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2656, col: 5, offset: 84725},
+																																						pos:   position{line: 2656, col: 5, offset: 84726},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2656, col: 14, offset: 84734},
+																																							pos: position{line: 2656, col: 14, offset: 84735},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2656, col: 14, offset: 84734},
+																																								pos: position{line: 2656, col: 14, offset: 84735},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2656, col: 14, offset: 84734},
+																																									pos:        position{line: 2656, col: 14, offset: 84735},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2908, col: 8, offset: 91798},
+																															pos: position{line: 2908, col: 8, offset: 91799},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2895, col: 12, offset: 91571},
+																																	pos: position{line: 2895, col: 12, offset: 91572},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2895, col: 13, offset: 91572},
+																																		pos: position{line: 2895, col: 13, offset: 91573},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 13, offset: 91572},
+																																				pos:        position{line: 2895, col: 13, offset: 91573},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 20, offset: 91579},
+																																				pos:        position{line: 2895, col: 20, offset: 91580},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 29, offset: 91588},
+																																				pos:        position{line: 2895, col: 29, offset: 91589},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2905, col: 8, offset: 91748},
+																																	pos: position{line: 2905, col: 8, offset: 91749},
 																																	expr: &anyMatcher{
-																																		line: 2905, col: 9, offset: 91749,
+																																		line: 2905, col: 9, offset: 91750,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2662, col: 24, offset: 84870},
+																												pos: position{line: 2662, col: 24, offset: 84871},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2662, col: 24, offset: 84870},
+																													pos:   position{line: 2662, col: 24, offset: 84871},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2662, col: 30, offset: 84876},
+																														pos: position{line: 2662, col: 30, offset: 84877},
 																														expr: &actionExpr{
-																															pos: position{line: 2667, col: 5, offset: 84952},
+																															pos: position{line: 2667, col: 5, offset: 84953},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2667, col: 5, offset: 84952},
+																																pos: position{line: 2667, col: 5, offset: 84953},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2667, col: 5, offset: 84952},
+																																		pos: position{line: 2667, col: 5, offset: 84953},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2632, col: 22, offset: 84149},
+																																			pos: position{line: 2632, col: 22, offset: 84150},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2628, col: 19, offset: 84069},
+																																					pos: position{line: 2628, col: 19, offset: 84070},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2628, col: 19, offset: 84069},
+																																							pos:        position{line: 2628, col: 19, offset: 84070},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2628, col: 26, offset: 84076},
+																																							pos: position{line: 2628, col: 26, offset: 84077},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2886, col: 10, offset: 91400},
+																																								pos: position{line: 2886, col: 10, offset: 91401},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2886, col: 10, offset: 91400},
+																																									pos:        position{line: 2886, col: 10, offset: 91401},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2908, col: 8, offset: 91798},
+																																							pos: position{line: 2908, col: 8, offset: 91799},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2895, col: 12, offset: 91571},
+																																									pos: position{line: 2895, col: 12, offset: 91572},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2895, col: 13, offset: 91572},
+																																										pos: position{line: 2895, col: 13, offset: 91573},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 13, offset: 91572},
+																																												pos:        position{line: 2895, col: 13, offset: 91573},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 20, offset: 91579},
+																																												pos:        position{line: 2895, col: 20, offset: 91580},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 29, offset: 91588},
+																																												pos:        position{line: 2895, col: 29, offset: 91589},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91748},
+																																									pos: position{line: 2905, col: 8, offset: 91749},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91749,
+																																										line: 2905, col: 9, offset: 91750,
 																																									},
 																																								},
 																																							},
@@ -9572,35 +9572,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2905, col: 8, offset: 91748},
+																																					pos: position{line: 2905, col: 8, offset: 91749},
 																																					expr: &anyMatcher{
-																																						line: 2905, col: 9, offset: 91749,
+																																						line: 2905, col: 9, offset: 91750,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2668, col: 5, offset: 84975},
+																																		pos: position{line: 2668, col: 5, offset: 84976},
 																																		expr: &actionExpr{
-																																			pos: position{line: 697, col: 14, offset: 22134},
+																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
 																																			expr: &seqExpr{
-																																				pos: position{line: 697, col: 14, offset: 22134},
+																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2903, col: 11, offset: 91734},
+																																						pos: position{line: 2903, col: 11, offset: 91735},
 																																						expr: &anyMatcher{
-																																							line: 2903, col: 13, offset: 91736,
+																																							line: 2903, col: 13, offset: 91737,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 697, col: 21, offset: 22141},
+																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2886, col: 10, offset: 91400},
+																																							pos: position{line: 2886, col: 10, offset: 91401},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2886, col: 10, offset: 91400},
+																																								pos:        position{line: 2886, col: 10, offset: 91401},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2908, col: 8, offset: 91798},
+																																						pos: position{line: 2908, col: 8, offset: 91799},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2895, col: 12, offset: 91571},
+																																								pos: position{line: 2895, col: 12, offset: 91572},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2895, col: 13, offset: 91572},
+																																									pos: position{line: 2895, col: 13, offset: 91573},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 13, offset: 91572},
+																																											pos:        position{line: 2895, col: 13, offset: 91573},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 20, offset: 91579},
+																																											pos:        position{line: 2895, col: 20, offset: 91580},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 29, offset: 91588},
+																																											pos:        position{line: 2895, col: 29, offset: 91589},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2905, col: 8, offset: 91748},
+																																								pos: position{line: 2905, col: 8, offset: 91749},
 																																								expr: &anyMatcher{
-																																									line: 2905, col: 9, offset: 91749,
+																																									line: 2905, col: 9, offset: 91750,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2669, col: 5, offset: 84990},
+																																		pos:   position{line: 2669, col: 5, offset: 84991},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2669, col: 12, offset: 84997},
+																																			pos: position{line: 2669, col: 12, offset: 84998},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2686, col: 20, offset: 85461},
+																																				pos: position{line: 2686, col: 20, offset: 85462},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2686, col: 20, offset: 85461},
+																																					pos: position{line: 2686, col: 20, offset: 85462},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2686, col: 20, offset: 85461},
+																																						pos:        position{line: 2686, col: 20, offset: 85462},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2669, col: 31, offset: 85016},
+																																		pos:        position{line: 2669, col: 31, offset: 85017},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2669, col: 35, offset: 85020},
+																																		pos: position{line: 2669, col: 35, offset: 85021},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2886, col: 10, offset: 91400},
+																																			pos: position{line: 2886, col: 10, offset: 91401},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2886, col: 10, offset: 91400},
+																																				pos:        position{line: 2886, col: 10, offset: 91401},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2669, col: 42, offset: 85027},
+																																		pos: position{line: 2669, col: 42, offset: 85028},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2895, col: 12, offset: 91571},
+																																			pos: position{line: 2895, col: 12, offset: 91572},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2895, col: 13, offset: 91572},
+																																				pos: position{line: 2895, col: 13, offset: 91573},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 13, offset: 91572},
+																																						pos:        position{line: 2895, col: 13, offset: 91573},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 20, offset: 91579},
+																																						pos:        position{line: 2895, col: 20, offset: 91580},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 29, offset: 91588},
+																																						pos:        position{line: 2895, col: 29, offset: 91589},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2669, col: 51, offset: 85036},
+																																		pos:   position{line: 2669, col: 51, offset: 85037},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2675, col: 5, offset: 85195},
+																																			pos: position{line: 2675, col: 5, offset: 85196},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 9, offset: 85205},
+																																				pos: position{line: 2676, col: 9, offset: 85206},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2676, col: 9, offset: 85205},
+																																					pos: position{line: 2676, col: 9, offset: 85206},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2676, col: 9, offset: 85205},
+																																							pos: position{line: 2676, col: 9, offset: 85206},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2632, col: 22, offset: 84149},
+																																								pos: position{line: 2632, col: 22, offset: 84150},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2628, col: 19, offset: 84069},
+																																										pos: position{line: 2628, col: 19, offset: 84070},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2628, col: 19, offset: 84069},
+																																												pos:        position{line: 2628, col: 19, offset: 84070},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2628, col: 26, offset: 84076},
+																																												pos: position{line: 2628, col: 26, offset: 84077},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2886, col: 10, offset: 91400},
+																																													pos: position{line: 2886, col: 10, offset: 91401},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2886, col: 10, offset: 91400},
+																																														pos:        position{line: 2886, col: 10, offset: 91401},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2908, col: 8, offset: 91798},
+																																												pos: position{line: 2908, col: 8, offset: 91799},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2895, col: 12, offset: 91571},
+																																														pos: position{line: 2895, col: 12, offset: 91572},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2895, col: 13, offset: 91572},
+																																															pos: position{line: 2895, col: 13, offset: 91573},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2905, col: 8, offset: 91748},
+																																														pos: position{line: 2905, col: 8, offset: 91749},
 																																														expr: &anyMatcher{
-																																															line: 2905, col: 9, offset: 91749,
+																																															line: 2905, col: 9, offset: 91750,
 																																														},
 																																													},
 																																												},
@@ -9801,35 +9801,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91748},
+																																										pos: position{line: 2905, col: 8, offset: 91749},
 																																										expr: &anyMatcher{
-																																											line: 2905, col: 9, offset: 91749,
+																																											line: 2905, col: 9, offset: 91750,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2677, col: 9, offset: 85232},
+																																							pos: position{line: 2677, col: 9, offset: 85233},
 																																							expr: &actionExpr{
-																																								pos: position{line: 697, col: 14, offset: 22134},
+																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
 																																								expr: &seqExpr{
-																																									pos: position{line: 697, col: 14, offset: 22134},
+																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2903, col: 11, offset: 91734},
+																																											pos: position{line: 2903, col: 11, offset: 91735},
 																																											expr: &anyMatcher{
-																																												line: 2903, col: 13, offset: 91736,
+																																												line: 2903, col: 13, offset: 91737,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 697, col: 21, offset: 22141},
+																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2886, col: 10, offset: 91400},
+																																												pos: position{line: 2886, col: 10, offset: 91401},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2886, col: 10, offset: 91400},
+																																													pos:        position{line: 2886, col: 10, offset: 91401},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2908, col: 8, offset: 91798},
+																																											pos: position{line: 2908, col: 8, offset: 91799},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2895, col: 12, offset: 91571},
+																																													pos: position{line: 2895, col: 12, offset: 91572},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2895, col: 13, offset: 91572},
+																																														pos: position{line: 2895, col: 13, offset: 91573},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2905, col: 8, offset: 91748},
+																																													pos: position{line: 2905, col: 8, offset: 91749},
 																																													expr: &anyMatcher{
-																																														line: 2905, col: 9, offset: 91749,
+																																														line: 2905, col: 9, offset: 91750,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2678, col: 9, offset: 85251},
+																																							pos: position{line: 2678, col: 9, offset: 85252},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2678, col: 11, offset: 85253},
+																																								pos: position{line: 2678, col: 11, offset: 85254},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2678, col: 11, offset: 85253},
+																																										pos:   position{line: 2678, col: 11, offset: 85254},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2678, col: 18, offset: 85260},
+																																											pos: position{line: 2678, col: 18, offset: 85261},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2686, col: 20, offset: 85461},
+																																												pos: position{line: 2686, col: 20, offset: 85462},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2686, col: 20, offset: 85461},
+																																													pos: position{line: 2686, col: 20, offset: 85462},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2686, col: 20, offset: 85461},
+																																														pos:        position{line: 2686, col: 20, offset: 85462},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2678, col: 37, offset: 85279},
+																																										pos:        position{line: 2678, col: 37, offset: 85280},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2679, col: 9, offset: 85292},
+																																							pos:   position{line: 2679, col: 9, offset: 85293},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2679, col: 18, offset: 85301},
+																																								pos: position{line: 2679, col: 18, offset: 85302},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2679, col: 18, offset: 85301},
+																																									pos: position{line: 2679, col: 18, offset: 85302},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2679, col: 18, offset: 85301},
+																																										pos:        position{line: 2679, col: 18, offset: 85302},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2681, col: 12, offset: 85363},
+																																							pos: position{line: 2681, col: 12, offset: 85364},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2908, col: 8, offset: 91798},
+																																								pos: position{line: 2908, col: 8, offset: 91799},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2895, col: 12, offset: 91571},
+																																										pos: position{line: 2895, col: 12, offset: 91572},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2895, col: 13, offset: 91572},
+																																											pos: position{line: 2895, col: 13, offset: 91573},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 13, offset: 91572},
+																																													pos:        position{line: 2895, col: 13, offset: 91573},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 20, offset: 91579},
+																																													pos:        position{line: 2895, col: 20, offset: 91580},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 29, offset: 91588},
+																																													pos:        position{line: 2895, col: 29, offset: 91589},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91748},
+																																										pos: position{line: 2905, col: 8, offset: 91749},
 																																										expr: &anyMatcher{
-																																											line: 2905, col: 9, offset: 91749,
+																																											line: 2905, col: 9, offset: 91750,
 																																										},
 																																									},
 																																								},
@@ -9989,24 +9989,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 697, col: 14, offset: 22134},
+																								pos: position{line: 697, col: 14, offset: 22135},
 																								run: (*parser).callonDocumentFragment1319,
 																								expr: &seqExpr{
-																									pos: position{line: 697, col: 14, offset: 22134},
+																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2903, col: 11, offset: 91734},
+																											pos: position{line: 2903, col: 11, offset: 91735},
 																											expr: &anyMatcher{
-																												line: 2903, col: 13, offset: 91736,
+																												line: 2903, col: 13, offset: 91737,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 697, col: 21, offset: 22141},
+																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2632, col: 22, offset: 84149},
+														pos: position{line: 2632, col: 22, offset: 84150},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2628, col: 19, offset: 84069},
+																pos: position{line: 2628, col: 19, offset: 84070},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2628, col: 19, offset: 84069},
+																		pos:        position{line: 2628, col: 19, offset: 84070},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2628, col: 26, offset: 84076},
+																		pos: position{line: 2628, col: 26, offset: 84077},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2496, col: 22, offset: 80371},
+												pos: position{line: 2496, col: 22, offset: 80372},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2501, col: 31, offset: 80592},
+														pos:        position{line: 2501, col: 31, offset: 80593},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2501, col: 36, offset: 80597},
+														pos: position{line: 2501, col: 36, offset: 80598},
 														expr: &litMatcher{
-															pos:        position{line: 2501, col: 37, offset: 80598},
+															pos:        position{line: 2501, col: 37, offset: 80599},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2496, col: 49, offset: 80398},
+														pos:   position{line: 2496, col: 49, offset: 80399},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2832, col: 13, offset: 89926},
+																pos: position{line: 2832, col: 13, offset: 89927},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2832, col: 13, offset: 89926},
+																	pos:        position{line: 2832, col: 13, offset: 89927},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -10223,37 +10223,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1250, col: 5, offset: 38736},
+											pos: position{line: 1250, col: 5, offset: 38737},
 											run: (*parser).callonDocumentFragment1367,
 											expr: &seqExpr{
-												pos: position{line: 1250, col: 5, offset: 38736},
+												pos: position{line: 1250, col: 5, offset: 38737},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1250, col: 5, offset: 38736},
+														pos: position{line: 1250, col: 5, offset: 38737},
 														run: (*parser).callonDocumentFragment1369,
 													},
 													&labeledExpr{
-														pos:   position{line: 1253, col: 5, offset: 38794},
+														pos:   position{line: 1253, col: 5, offset: 38795},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1259, col: 5, offset: 38894},
+															pos: position{line: 1259, col: 5, offset: 38895},
 															run: (*parser).callonDocumentFragment1371,
 															expr: &seqExpr{
-																pos: position{line: 1259, col: 5, offset: 38894},
+																pos: position{line: 1259, col: 5, offset: 38895},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1267, col: 30, offset: 39153},
+																		pos:        position{line: 1267, col: 30, offset: 39154},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1267, col: 36, offset: 39159},
+																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,42 +10292,42 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1259, col: 30, offset: 38919},
+																		pos:   position{line: 1259, col: 30, offset: 38920},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1269, col: 27, offset: 39197},
+																			pos: position{line: 1269, col: 27, offset: 39198},
 																			run: (*parser).callonDocumentFragment1386,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 1269, col: 27, offset: 39197},
+																				pos: position{line: 1269, col: 27, offset: 39198},
 																				expr: &seqExpr{
-																					pos: position{line: 1269, col: 28, offset: 39198},
+																					pos: position{line: 1269, col: 28, offset: 39199},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1269, col: 28, offset: 39198},
+																							pos: position{line: 1269, col: 28, offset: 39199},
 																							expr: &seqExpr{
-																								pos: position{line: 1267, col: 30, offset: 39153},
+																								pos: position{line: 1267, col: 30, offset: 39154},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1267, col: 30, offset: 39153},
+																										pos:        position{line: 1267, col: 30, offset: 39154},
 																										val:        "---",
 																										ignoreCase: false,
 																										want:       "\"---\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1267, col: 36, offset: 39159},
+																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91798},
+																										pos: position{line: 2908, col: 8, offset: 91799},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91571},
+																												pos: position{line: 2895, col: 12, offset: 91572},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91572},
+																													pos: position{line: 2895, col: 13, offset: 91573},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91572},
+																															pos:        position{line: 2895, col: 13, offset: 91573},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91579},
+																															pos:        position{line: 2895, col: 20, offset: 91580},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91588},
+																															pos:        position{line: 2895, col: 29, offset: 91589},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91748},
+																												pos: position{line: 2905, col: 8, offset: 91749},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91749,
+																													line: 2905, col: 9, offset: 91750,
 																												},
 																											},
 																										},
@@ -10377,9 +10377,9 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1269, col: 54, offset: 39224},
+																							pos: position{line: 1269, col: 54, offset: 39225},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1269, col: 54, offset: 39224},
+																								pos:        position{line: 1269, col: 54, offset: 39225},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10419,18 +10419,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1267, col: 30, offset: 39153},
+																		pos:        position{line: 1267, col: 30, offset: 39154},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1267, col: 36, offset: 39159},
+																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,15 +10469,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1260, col: 5, offset: 38982},
+																		pos: position{line: 1260, col: 5, offset: 38983},
 																		run: (*parser).callonDocumentFragment1422,
 																	},
 																},
@@ -10525,27 +10525,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1226, col: 23, offset: 37842},
+											pos: position{line: 1226, col: 23, offset: 37843},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1226, col: 23, offset: 37842},
+												pos: position{line: 1226, col: 23, offset: 37843},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1224, col: 32, offset: 37810},
+														pos:        position{line: 1224, col: 32, offset: 37811},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1226, col: 51, offset: 37870},
+														pos:   position{line: 1226, col: 51, offset: 37871},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1226, col: 56, offset: 37875},
+															pos: position{line: 1226, col: 56, offset: 37876},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1226, col: 56, offset: 37875},
+																pos: position{line: 1226, col: 56, offset: 37876},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1226, col: 56, offset: 37875},
+																	pos:        position{line: 1226, col: 56, offset: 37876},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10555,7 +10555,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1224, col: 32, offset: 37810},
+														pos:        position{line: 1224, col: 32, offset: 37811},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -10617,8 +10617,8 @@ var g = &grammar{
 											pos: position{line: 319, col: 28, offset: 9757},
 											expr: &charClassMatcher{
 												pos:        position{line: 319, col: 29, offset: 9758},
-												val:        "[-\\pL\\pN]",
-												chars:      []rune{'-'},
+												val:        "[_-\\pL\\pN]",
+												chars:      []rune{'_', '-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2890, col: 11, offset: 91461},
+												pos: position{line: 2890, col: 11, offset: 91462},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2890, col: 11, offset: 91461},
+													pos: position{line: 2890, col: 11, offset: 91462},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 11, offset: 91461},
+														pos:        position{line: 2890, col: 11, offset: 91462},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -10730,58 +10730,58 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 323, col: 1, offset: 9814},
+			pos:  position{line: 323, col: 1, offset: 9815},
 			expr: &actionExpr{
-				pos: position{line: 324, col: 5, offset: 9848},
+				pos: position{line: 324, col: 5, offset: 9849},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 324, col: 5, offset: 9848},
+					pos: position{line: 324, col: 5, offset: 9849},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9848},
+							pos:   position{line: 324, col: 5, offset: 9849},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 324, col: 15, offset: 9858},
+								pos:  position{line: 324, col: 15, offset: 9859},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 325, col: 5, offset: 9898},
+							pos:   position{line: 325, col: 5, offset: 9899},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 325, col: 19, offset: 9912},
+								pos: position{line: 325, col: 19, offset: 9913},
 								expr: &actionExpr{
-									pos: position{line: 326, col: 9, offset: 9922},
+									pos: position{line: 326, col: 9, offset: 9923},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 326, col: 9, offset: 9922},
+										pos: position{line: 326, col: 9, offset: 9923},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 326, col: 9, offset: 9922},
+												pos:        position{line: 326, col: 9, offset: 9923},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91571},
+												pos: position{line: 2895, col: 12, offset: 91572},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91572},
+													pos: position{line: 2895, col: 13, offset: 91573},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91572},
+															pos:        position{line: 2895, col: 13, offset: 91573},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91579},
+															pos:        position{line: 2895, col: 20, offset: 91580},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91588},
+															pos:        position{line: 2895, col: 29, offset: 91589},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10790,12 +10790,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 327, col: 9, offset: 9944},
+												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91400},
+													pos: position{line: 2886, col: 10, offset: 91401},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91400},
+														pos:        position{line: 2886, col: 10, offset: 91401},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10804,10 +10804,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 328, col: 9, offset: 9959},
+												pos:   position{line: 328, col: 9, offset: 9960},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 328, col: 19, offset: 9969},
+													pos:  position{line: 328, col: 19, offset: 9970},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10822,17 +10822,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 339, col: 1, offset: 10299},
+			pos:  position{line: 339, col: 1, offset: 10300},
 			expr: &actionExpr{
-				pos: position{line: 340, col: 5, offset: 10341},
+				pos: position{line: 340, col: 5, offset: 10342},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 340, col: 5, offset: 10341},
+					pos:   position{line: 340, col: 5, offset: 10342},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 340, col: 14, offset: 10350},
+						pos: position{line: 340, col: 14, offset: 10351},
 						expr: &ruleRefExpr{
-							pos:  position{line: 340, col: 15, offset: 10351},
+							pos:  position{line: 340, col: 15, offset: 10352},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10841,34 +10841,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 344, col: 1, offset: 10440},
+			pos:  position{line: 344, col: 1, offset: 10441},
 			expr: &actionExpr{
-				pos: position{line: 345, col: 5, offset: 10481},
+				pos: position{line: 345, col: 5, offset: 10482},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 345, col: 5, offset: 10481},
+					pos: position{line: 345, col: 5, offset: 10482},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 345, col: 5, offset: 10481},
+							pos: position{line: 345, col: 5, offset: 10482},
 							expr: &seqExpr{
-								pos: position{line: 345, col: 7, offset: 10483},
+								pos: position{line: 345, col: 7, offset: 10484},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 345, col: 7, offset: 10483},
+										pos: position{line: 345, col: 7, offset: 10484},
 										expr: &litMatcher{
-											pos:        position{line: 345, col: 7, offset: 10483},
+											pos:        position{line: 345, col: 7, offset: 10484},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 345, col: 13, offset: 10489},
+										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91400},
+											pos: position{line: 2886, col: 10, offset: 91401},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91400},
+												pos:        position{line: 2886, col: 10, offset: 91401},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2908, col: 8, offset: 91798},
+										pos: position{line: 2908, col: 8, offset: 91799},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91571},
+												pos: position{line: 2895, col: 12, offset: 91572},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91572},
+													pos: position{line: 2895, col: 13, offset: 91573},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91572},
+															pos:        position{line: 2895, col: 13, offset: 91573},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91579},
+															pos:        position{line: 2895, col: 20, offset: 91580},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91588},
+															pos:        position{line: 2895, col: 29, offset: 91589},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2905, col: 8, offset: 91748},
+												pos: position{line: 2905, col: 8, offset: 91749},
 												expr: &anyMatcher{
-													line: 2905, col: 9, offset: 91749,
+													line: 2905, col: 9, offset: 91750,
 												},
 											},
 										},
@@ -10918,22 +10918,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 346, col: 5, offset: 10505},
+							pos:   position{line: 346, col: 5, offset: 10506},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 347, col: 9, offset: 10523},
+								pos: position{line: 347, col: 9, offset: 10524},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 347, col: 9, offset: 10523},
+										pos:  position{line: 347, col: 9, offset: 10524},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 348, col: 12, offset: 10552},
+										pos: position{line: 348, col: 12, offset: 10553},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 348, col: 12, offset: 10552},
+											pos: position{line: 348, col: 12, offset: 10553},
 											expr: &charClassMatcher{
-												pos:        position{line: 348, col: 12, offset: 10552},
+												pos:        position{line: 348, col: 12, offset: 10553},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79917},
+										pos: position{line: 2483, col: 5, offset: 79918},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79917},
+													pos: position{line: 2483, col: 5, offset: 79918},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79993},
+													pos:   position{line: 2486, col: 5, offset: 79994},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80011},
+														pos: position{line: 2487, col: 9, offset: 80012},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80012},
+															pos:        position{line: 2487, col: 10, offset: 80013},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91400},
+										pos: position{line: 2886, col: 10, offset: 91401},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91400},
+											pos:        position{line: 2886, col: 10, offset: 91401},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -10981,35 +10981,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 656, col: 5, offset: 20754},
+										pos: position{line: 656, col: 5, offset: 20755},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 656, col: 5, offset: 20754},
+											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 656, col: 5, offset: 20754},
+													pos: position{line: 656, col: 5, offset: 20755},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 659, col: 5, offset: 20826},
+													pos:   position{line: 659, col: 5, offset: 20827},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 659, col: 14, offset: 20835},
+														pos: position{line: 659, col: 14, offset: 20836},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 20964},
+																pos: position{line: 665, col: 5, offset: 20965},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 20964},
+																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 20964},
+																			pos:        position{line: 665, col: 5, offset: 20965},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 13, offset: 20972},
+																			pos:   position{line: 665, col: 13, offset: 20973},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11029,8 +11029,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11041,7 +11041,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 32, offset: 20991},
+																			pos:        position{line: 665, col: 32, offset: 20992},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11050,19 +11050,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 672, col: 5, offset: 21232},
+																pos: position{line: 672, col: 5, offset: 21233},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 672, col: 5, offset: 21232},
+																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 672, col: 5, offset: 21232},
+																			pos:        position{line: 672, col: 5, offset: 21233},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 9, offset: 21236},
+																			pos:   position{line: 672, col: 9, offset: 21237},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11082,8 +11082,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11094,7 +11094,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 672, col: 28, offset: 21255},
+																			pos:        position{line: 672, col: 28, offset: 21256},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11103,19 +11103,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 678, col: 25, offset: 21436},
+																pos: position{line: 678, col: 25, offset: 21437},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 678, col: 25, offset: 21436},
+																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 678, col: 25, offset: 21436},
+																			pos:        position{line: 678, col: 25, offset: 21437},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 37, offset: 21448},
+																			pos:   position{line: 678, col: 37, offset: 21449},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11135,8 +11135,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11147,33 +11147,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 56, offset: 21467},
+																			pos:   position{line: 678, col: 56, offset: 21468},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 678, col: 62, offset: 21473},
+																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11181,12 +11181,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11203,7 +11203,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 678, col: 78, offset: 21489},
+																			pos:        position{line: 678, col: 78, offset: 21490},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11212,19 +11212,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 682, col: 25, offset: 21607},
+																pos: position{line: 682, col: 25, offset: 21608},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 682, col: 25, offset: 21607},
+																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 682, col: 25, offset: 21607},
+																			pos:        position{line: 682, col: 25, offset: 21608},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 38, offset: 21620},
+																			pos:   position{line: 682, col: 38, offset: 21621},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -11244,8 +11244,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11256,33 +11256,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 57, offset: 21639},
+																			pos:   position{line: 682, col: 57, offset: 21640},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 682, col: 63, offset: 21645},
+																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11290,12 +11290,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11312,7 +11312,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 682, col: 79, offset: 21661},
+																			pos:        position{line: 682, col: 79, offset: 21662},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11335,60 +11335,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 370, col: 1, offset: 11371},
+			pos:  position{line: 370, col: 1, offset: 11372},
 			expr: &actionExpr{
-				pos: position{line: 371, col: 5, offset: 11394},
+				pos: position{line: 371, col: 5, offset: 11395},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 371, col: 5, offset: 11394},
+					pos:   position{line: 371, col: 5, offset: 11395},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 371, col: 16, offset: 11405},
+						pos: position{line: 371, col: 16, offset: 11406},
 						expr: &choiceExpr{
-							pos: position{line: 373, col: 9, offset: 11472},
+							pos: position{line: 373, col: 9, offset: 11473},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 373, col: 10, offset: 11473},
+									pos: position{line: 373, col: 10, offset: 11474},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 373, col: 10, offset: 11473},
+										pos: position{line: 373, col: 10, offset: 11474},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 373, col: 10, offset: 11473},
+												pos:   position{line: 373, col: 10, offset: 11474},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 405, col: 5, offset: 12348},
+													pos: position{line: 405, col: 5, offset: 12349},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 405, col: 5, offset: 12348},
+														pos: position{line: 405, col: 5, offset: 12349},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 405, col: 5, offset: 12348},
+																pos:        position{line: 405, col: 5, offset: 12349},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 406, col: 5, offset: 12358},
+																pos:   position{line: 406, col: 5, offset: 12359},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 407, col: 9, offset: 12371},
+																	pos: position{line: 407, col: 9, offset: 12372},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 407, col: 9, offset: 12371},
+																		pos:   position{line: 407, col: 9, offset: 12372},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 407, col: 18, offset: 12380},
+																			pos: position{line: 407, col: 18, offset: 12381},
 																			expr: &choiceExpr{
-																				pos: position{line: 408, col: 13, offset: 12394},
+																				pos: position{line: 408, col: 13, offset: 12395},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 408, col: 14, offset: 12395},
+																						pos: position{line: 408, col: 14, offset: 12396},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 408, col: 14, offset: 12395},
+																							pos: position{line: 408, col: 14, offset: 12396},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 408, col: 14, offset: 12395},
+																								pos:        position{line: 408, col: 14, offset: 12396},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11397,27 +11397,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1226, col: 23, offset: 37842},
+																						pos: position{line: 1226, col: 23, offset: 37843},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1226, col: 23, offset: 37842},
+																							pos: position{line: 1226, col: 23, offset: 37843},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1224, col: 32, offset: 37810},
+																									pos:        position{line: 1224, col: 32, offset: 37811},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1226, col: 51, offset: 37870},
+																									pos:   position{line: 1226, col: 51, offset: 37871},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1226, col: 56, offset: 37875},
+																										pos: position{line: 1226, col: 56, offset: 37876},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1226, col: 56, offset: 37875},
+																											pos: position{line: 1226, col: 56, offset: 37876},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1226, col: 56, offset: 37875},
+																												pos:        position{line: 1226, col: 56, offset: 37876},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11427,7 +11427,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1224, col: 32, offset: 37810},
+																									pos:        position{line: 1224, col: 32, offset: 37811},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11436,35 +11436,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 656, col: 5, offset: 20754},
+																							pos: position{line: 656, col: 5, offset: 20755},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 656, col: 5, offset: 20754},
+																									pos: position{line: 656, col: 5, offset: 20755},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 659, col: 5, offset: 20826},
+																									pos:   position{line: 659, col: 5, offset: 20827},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 659, col: 14, offset: 20835},
+																										pos: position{line: 659, col: 14, offset: 20836},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 5, offset: 20964},
+																												pos: position{line: 665, col: 5, offset: 20965},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 5, offset: 20964},
+																													pos: position{line: 665, col: 5, offset: 20965},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 5, offset: 20964},
+																															pos:        position{line: 665, col: 5, offset: 20965},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 13, offset: 20972},
+																															pos:   position{line: 665, col: 13, offset: 20973},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11484,8 +11484,8 @@ var g = &grammar{
 																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 319, col: 29, offset: 9758},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11496,7 +11496,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 32, offset: 20991},
+																															pos:        position{line: 665, col: 32, offset: 20992},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11505,19 +11505,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 672, col: 5, offset: 21232},
+																												pos: position{line: 672, col: 5, offset: 21233},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 672, col: 5, offset: 21232},
+																													pos: position{line: 672, col: 5, offset: 21233},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 672, col: 5, offset: 21232},
+																															pos:        position{line: 672, col: 5, offset: 21233},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 672, col: 9, offset: 21236},
+																															pos:   position{line: 672, col: 9, offset: 21237},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11537,8 +11537,8 @@ var g = &grammar{
 																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 319, col: 29, offset: 9758},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11549,7 +11549,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 672, col: 28, offset: 21255},
+																															pos:        position{line: 672, col: 28, offset: 21256},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11558,19 +11558,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 678, col: 25, offset: 21436},
+																												pos: position{line: 678, col: 25, offset: 21437},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 678, col: 25, offset: 21436},
+																													pos: position{line: 678, col: 25, offset: 21437},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 678, col: 25, offset: 21436},
+																															pos:        position{line: 678, col: 25, offset: 21437},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 678, col: 37, offset: 21448},
+																															pos:   position{line: 678, col: 37, offset: 21449},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11590,8 +11590,8 @@ var g = &grammar{
 																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 319, col: 29, offset: 9758},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11602,33 +11602,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 678, col: 56, offset: 21467},
+																															pos:   position{line: 678, col: 56, offset: 21468},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 678, col: 62, offset: 21473},
+																																pos: position{line: 678, col: 62, offset: 21474},
 																																expr: &actionExpr{
-																																	pos: position{line: 686, col: 17, offset: 21768},
+																																	pos: position{line: 686, col: 17, offset: 21769},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 686, col: 17, offset: 21768},
+																																		pos: position{line: 686, col: 17, offset: 21769},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 686, col: 17, offset: 21768},
+																																				pos:        position{line: 686, col: 17, offset: 21769},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 686, col: 21, offset: 21772},
+																																				pos:   position{line: 686, col: 21, offset: 21773},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 686, col: 28, offset: 21779},
+																																					pos: position{line: 686, col: 28, offset: 21780},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 686, col: 28, offset: 21779},
+																																							pos: position{line: 686, col: 28, offset: 21780},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 686, col: 28, offset: 21779},
+																																								pos:        position{line: 686, col: 28, offset: 21780},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11636,12 +11636,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 688, col: 9, offset: 21833},
+																																							pos: position{line: 688, col: 9, offset: 21834},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 688, col: 9, offset: 21833},
+																																								pos: position{line: 688, col: 9, offset: 21834},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 688, col: 9, offset: 21833},
+																																									pos:        position{line: 688, col: 9, offset: 21834},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11658,7 +11658,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 678, col: 78, offset: 21489},
+																															pos:        position{line: 678, col: 78, offset: 21490},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11667,19 +11667,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 682, col: 25, offset: 21607},
+																												pos: position{line: 682, col: 25, offset: 21608},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 682, col: 25, offset: 21607},
+																													pos: position{line: 682, col: 25, offset: 21608},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 682, col: 25, offset: 21607},
+																															pos:        position{line: 682, col: 25, offset: 21608},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 682, col: 38, offset: 21620},
+																															pos:   position{line: 682, col: 38, offset: 21621},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 319, col: 18, offset: 9747},
@@ -11699,8 +11699,8 @@ var g = &grammar{
 																																			pos: position{line: 319, col: 28, offset: 9757},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 319, col: 29, offset: 9758},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11711,33 +11711,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 682, col: 57, offset: 21639},
+																															pos:   position{line: 682, col: 57, offset: 21640},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 682, col: 63, offset: 21645},
+																																pos: position{line: 682, col: 63, offset: 21646},
 																																expr: &actionExpr{
-																																	pos: position{line: 686, col: 17, offset: 21768},
+																																	pos: position{line: 686, col: 17, offset: 21769},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 686, col: 17, offset: 21768},
+																																		pos: position{line: 686, col: 17, offset: 21769},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 686, col: 17, offset: 21768},
+																																				pos:        position{line: 686, col: 17, offset: 21769},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 686, col: 21, offset: 21772},
+																																				pos:   position{line: 686, col: 21, offset: 21773},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 686, col: 28, offset: 21779},
+																																					pos: position{line: 686, col: 28, offset: 21780},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 686, col: 28, offset: 21779},
+																																							pos: position{line: 686, col: 28, offset: 21780},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 686, col: 28, offset: 21779},
+																																								pos:        position{line: 686, col: 28, offset: 21780},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11745,12 +11745,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 688, col: 9, offset: 21833},
+																																							pos: position{line: 688, col: 9, offset: 21834},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 688, col: 9, offset: 21833},
+																																								pos: position{line: 688, col: 9, offset: 21834},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 688, col: 9, offset: 21833},
+																																									pos:        position{line: 688, col: 9, offset: 21834},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11767,7 +11767,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 682, col: 79, offset: 21661},
+																															pos:        position{line: 682, col: 79, offset: 21662},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11782,10 +11782,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 413, col: 16, offset: 12628},
+																						pos: position{line: 413, col: 16, offset: 12629},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 413, col: 16, offset: 12628},
+																							pos:        position{line: 413, col: 16, offset: 12629},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11798,7 +11798,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 419, col: 5, offset: 12814},
+																pos:        position{line: 419, col: 5, offset: 12815},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11808,12 +11808,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 373, col: 35, offset: 11498},
+												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91400},
+													pos: position{line: 2886, col: 10, offset: 91401},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91400},
+														pos:        position{line: 2886, col: 10, offset: 91401},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91798},
+												pos: position{line: 2908, col: 8, offset: 91799},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91571},
+														pos: position{line: 2895, col: 12, offset: 91572},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91572},
+															pos: position{line: 2895, col: 13, offset: 91573},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91572},
+																	pos:        position{line: 2895, col: 13, offset: 91573},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91579},
+																	pos:        position{line: 2895, col: 20, offset: 91580},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91588},
+																	pos:        position{line: 2895, col: 29, offset: 91589},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,34 +11852,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91748},
+														pos: position{line: 2905, col: 8, offset: 91749},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91749,
+															line: 2905, col: 9, offset: 91750,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 373, col: 46, offset: 11509},
+												pos: position{line: 373, col: 46, offset: 11510},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -11933,30 +11933,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 377, col: 12, offset: 11630},
+									pos: position{line: 377, col: 12, offset: 11631},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 377, col: 12, offset: 11630},
+										pos: position{line: 377, col: 12, offset: 11631},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 377, col: 12, offset: 11630},
+												pos:   position{line: 377, col: 12, offset: 11631},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 424, col: 19, offset: 12933},
+													pos: position{line: 424, col: 19, offset: 12934},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 424, col: 19, offset: 12933},
+														pos: position{line: 424, col: 19, offset: 12934},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 424, col: 19, offset: 12933},
+																pos:        position{line: 424, col: 19, offset: 12934},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 425, col: 5, offset: 12942},
+																pos: position{line: 425, col: 5, offset: 12943},
 																expr: &charClassMatcher{
-																	pos:        position{line: 425, col: 6, offset: 12943},
+																	pos:        position{line: 425, col: 6, offset: 12944},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -11964,20 +11964,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 426, col: 5, offset: 13055},
+																pos:   position{line: 426, col: 5, offset: 13056},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 426, col: 14, offset: 13064},
+																	pos: position{line: 426, col: 14, offset: 13065},
 																	expr: &choiceExpr{
-																		pos: position{line: 427, col: 9, offset: 13074},
+																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2780, col: 14, offset: 88555},
+																				pos: position{line: 2780, col: 14, offset: 88556},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2780, col: 14, offset: 88555},
+																					pos: position{line: 2780, col: 14, offset: 88556},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2780, col: 14, offset: 88555},
+																						pos:        position{line: 2780, col: 14, offset: 88556},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2803, col: 5, offset: 89054},
+																				pos: position{line: 2803, col: 5, offset: 89055},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2804, col: 9, offset: 89064},
+																					pos: position{line: 2804, col: 9, offset: 89065},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2804, col: 10, offset: 89065},
+																							pos:        position{line: 2804, col: 10, offset: 89066},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2806, col: 13, offset: 89162},
+																							pos: position{line: 2806, col: 13, offset: 89163},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2806, col: 13, offset: 89162},
+																									pos: position{line: 2806, col: 13, offset: 89163},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89262},
+																									pos:        position{line: 2809, col: 13, offset: 89263},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2809, col: 19, offset: 89268},
+																							pos:        position{line: 2809, col: 19, offset: 89269},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2812, col: 13, offset: 89306},
+																							pos: position{line: 2812, col: 13, offset: 89307},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2812, col: 13, offset: 89306},
+																									pos: position{line: 2812, col: 13, offset: 89307},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2815, col: 14, offset: 89399},
+																									pos:        position{line: 2815, col: 14, offset: 89400},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2817, col: 12, offset: 89443},
+																							pos: position{line: 2817, col: 12, offset: 89444},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2817, col: 12, offset: 89443},
+																									pos:        position{line: 2817, col: 12, offset: 89444},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2817, col: 16, offset: 89447},
+																									pos: position{line: 2817, col: 16, offset: 89448},
 																									expr: &litMatcher{
-																										pos:        position{line: 2817, col: 17, offset: 89448},
+																										pos:        position{line: 2817, col: 17, offset: 89449},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12070,19 +12070,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 5, offset: 20964},
+																					pos: position{line: 665, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 5, offset: 20964},
+																							pos:        position{line: 665, col: 5, offset: 20965},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 13, offset: 20972},
+																							pos:   position{line: 665, col: 13, offset: 20973},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12102,8 +12102,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12114,7 +12114,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 665, col: 32, offset: 20991},
+																							pos:        position{line: 665, col: 32, offset: 20992},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12123,19 +12123,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 672, col: 5, offset: 21232},
+																				pos: position{line: 672, col: 5, offset: 21233},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 672, col: 5, offset: 21232},
+																					pos: position{line: 672, col: 5, offset: 21233},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 672, col: 5, offset: 21232},
+																							pos:        position{line: 672, col: 5, offset: 21233},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 672, col: 9, offset: 21236},
+																							pos:   position{line: 672, col: 9, offset: 21237},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12155,8 +12155,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12167,7 +12167,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 672, col: 28, offset: 21255},
+																							pos:        position{line: 672, col: 28, offset: 21256},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12176,19 +12176,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 678, col: 25, offset: 21436},
+																				pos: position{line: 678, col: 25, offset: 21437},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &seqExpr{
-																					pos: position{line: 678, col: 25, offset: 21436},
+																					pos: position{line: 678, col: 25, offset: 21437},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 678, col: 25, offset: 21436},
+																							pos:        position{line: 678, col: 25, offset: 21437},
 																							val:        "{counter:",
 																							ignoreCase: false,
 																							want:       "\"{counter:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 678, col: 37, offset: 21448},
+																							pos:   position{line: 678, col: 37, offset: 21449},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12208,8 +12208,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12220,33 +12220,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 678, col: 56, offset: 21467},
+																							pos:   position{line: 678, col: 56, offset: 21468},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 678, col: 62, offset: 21473},
+																								pos: position{line: 678, col: 62, offset: 21474},
 																								expr: &actionExpr{
-																									pos: position{line: 686, col: 17, offset: 21768},
+																									pos: position{line: 686, col: 17, offset: 21769},
 																									run: (*parser).callonBlockAttributes187,
 																									expr: &seqExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 686, col: 17, offset: 21768},
+																												pos:        position{line: 686, col: 17, offset: 21769},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 686, col: 21, offset: 21772},
+																												pos:   position{line: 686, col: 21, offset: 21773},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 686, col: 28, offset: 21779},
+																													pos: position{line: 686, col: 28, offset: 21780},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 686, col: 28, offset: 21779},
+																															pos: position{line: 686, col: 28, offset: 21780},
 																															run: (*parser).callonBlockAttributes192,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 686, col: 28, offset: 21779},
+																																pos:        position{line: 686, col: 28, offset: 21780},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12254,12 +12254,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 688, col: 9, offset: 21833},
+																															pos: position{line: 688, col: 9, offset: 21834},
 																															run: (*parser).callonBlockAttributes194,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 688, col: 9, offset: 21833},
+																																	pos:        position{line: 688, col: 9, offset: 21834},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12276,7 +12276,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 678, col: 78, offset: 21489},
+																							pos:        position{line: 678, col: 78, offset: 21490},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12285,19 +12285,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 682, col: 25, offset: 21607},
+																				pos: position{line: 682, col: 25, offset: 21608},
 																				run: (*parser).callonBlockAttributes198,
 																				expr: &seqExpr{
-																					pos: position{line: 682, col: 25, offset: 21607},
+																					pos: position{line: 682, col: 25, offset: 21608},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 682, col: 25, offset: 21607},
+																							pos:        position{line: 682, col: 25, offset: 21608},
 																							val:        "{counter2:",
 																							ignoreCase: false,
 																							want:       "\"{counter2:\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 682, col: 38, offset: 21620},
+																							pos:   position{line: 682, col: 38, offset: 21621},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 319, col: 18, offset: 9747},
@@ -12317,8 +12317,8 @@ var g = &grammar{
 																											pos: position{line: 319, col: 28, offset: 9757},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 319, col: 29, offset: 9758},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12329,33 +12329,33 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 682, col: 57, offset: 21639},
+																							pos:   position{line: 682, col: 57, offset: 21640},
 																							label: "start",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 682, col: 63, offset: 21645},
+																								pos: position{line: 682, col: 63, offset: 21646},
 																								expr: &actionExpr{
-																									pos: position{line: 686, col: 17, offset: 21768},
+																									pos: position{line: 686, col: 17, offset: 21769},
 																									run: (*parser).callonBlockAttributes209,
 																									expr: &seqExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 686, col: 17, offset: 21768},
+																												pos:        position{line: 686, col: 17, offset: 21769},
 																												val:        ":",
 																												ignoreCase: false,
 																												want:       "\":\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 686, col: 21, offset: 21772},
+																												pos:   position{line: 686, col: 21, offset: 21773},
 																												label: "start",
 																												expr: &choiceExpr{
-																													pos: position{line: 686, col: 28, offset: 21779},
+																													pos: position{line: 686, col: 28, offset: 21780},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 686, col: 28, offset: 21779},
+																															pos: position{line: 686, col: 28, offset: 21780},
 																															run: (*parser).callonBlockAttributes214,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 686, col: 28, offset: 21779},
+																																pos:        position{line: 686, col: 28, offset: 21780},
 																																val:        "[A-Za-z]",
 																																ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																ignoreCase: false,
@@ -12363,12 +12363,12 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 688, col: 9, offset: 21833},
+																															pos: position{line: 688, col: 9, offset: 21834},
 																															run: (*parser).callonBlockAttributes216,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 688, col: 9, offset: 21833},
+																																	pos:        position{line: 688, col: 9, offset: 21834},
 																																	val:        "[0-9]",
 																																	ranges:     []rune{'0', '9'},
 																																	ignoreCase: false,
@@ -12385,7 +12385,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 682, col: 79, offset: 21661},
+																							pos:        position{line: 682, col: 79, offset: 21662},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2825, col: 12, offset: 89708},
+																				pos: position{line: 2825, col: 12, offset: 89709},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 12, offset: 89708},
+																					pos:        position{line: 2825, col: 12, offset: 89709},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12413,12 +12413,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 377, col: 35, offset: 11653},
+												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91400},
+													pos: position{line: 2886, col: 10, offset: 91401},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91400},
+														pos:        position{line: 2886, col: 10, offset: 91401},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91798},
+												pos: position{line: 2908, col: 8, offset: 91799},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91571},
+														pos: position{line: 2895, col: 12, offset: 91572},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91572},
+															pos: position{line: 2895, col: 13, offset: 91573},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91572},
+																	pos:        position{line: 2895, col: 13, offset: 91573},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91579},
+																	pos:        position{line: 2895, col: 20, offset: 91580},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91588},
+																	pos:        position{line: 2895, col: 29, offset: 91589},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,34 +12457,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91748},
+														pos: position{line: 2905, col: 8, offset: 91749},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91749,
+															line: 2905, col: 9, offset: 91750,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 377, col: 46, offset: 11664},
+												pos: position{line: 377, col: 46, offset: 11665},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonBlockAttributes234,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -12538,26 +12538,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 381, col: 12, offset: 11754},
+									pos: position{line: 381, col: 12, offset: 11755},
 									run: (*parser).callonBlockAttributes249,
 									expr: &seqExpr{
-										pos: position{line: 381, col: 12, offset: 11754},
+										pos: position{line: 381, col: 12, offset: 11755},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 381, col: 12, offset: 11754},
+												pos:   position{line: 381, col: 12, offset: 11755},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 381, col: 24, offset: 11766},
+													pos:  position{line: 381, col: 24, offset: 11767},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 381, col: 44, offset: 11786},
+												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91400},
+													pos: position{line: 2886, col: 10, offset: 91401},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91400},
+														pos:        position{line: 2886, col: 10, offset: 91401},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91798},
+												pos: position{line: 2908, col: 8, offset: 91799},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91571},
+														pos: position{line: 2895, col: 12, offset: 91572},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91572},
+															pos: position{line: 2895, col: 13, offset: 91573},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91572},
+																	pos:        position{line: 2895, col: 13, offset: 91573},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91579},
+																	pos:        position{line: 2895, col: 20, offset: 91580},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91588},
+																	pos:        position{line: 2895, col: 29, offset: 91589},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,34 +12596,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91748},
+														pos: position{line: 2905, col: 8, offset: 91749},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91749,
+															line: 2905, col: 9, offset: 91750,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 381, col: 55, offset: 11797},
+												pos: position{line: 381, col: 55, offset: 11798},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonBlockAttributes265,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -12684,51 +12684,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 389, col: 1, offset: 11981},
+			pos:  position{line: 389, col: 1, offset: 11982},
 			expr: &actionExpr{
-				pos: position{line: 390, col: 5, offset: 12005},
+				pos: position{line: 390, col: 5, offset: 12006},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 390, col: 5, offset: 12005},
+					pos: position{line: 390, col: 5, offset: 12006},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 390, col: 5, offset: 12005},
+							pos:        position{line: 390, col: 5, offset: 12006},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 391, col: 5, offset: 12013},
+							pos:   position{line: 391, col: 5, offset: 12014},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 391, col: 16, offset: 12024},
+								pos: position{line: 391, col: 16, offset: 12025},
 								expr: &actionExpr{
-									pos: position{line: 392, col: 9, offset: 12034},
+									pos: position{line: 392, col: 9, offset: 12035},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 393, col: 13, offset: 12048},
+										pos: position{line: 393, col: 13, offset: 12049},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 393, col: 13, offset: 12048},
+												pos: position{line: 393, col: 13, offset: 12049},
 												expr: &litMatcher{
-													pos:        position{line: 393, col: 14, offset: 12049},
+													pos:        position{line: 393, col: 14, offset: 12050},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 394, col: 13, offset: 12081},
+												pos:   position{line: 394, col: 13, offset: 12082},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 394, col: 24, offset: 12092},
+													pos: position{line: 394, col: 24, offset: 12093},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 394, col: 24, offset: 12092},
+															pos:  position{line: 394, col: 24, offset: 12093},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 394, col: 46, offset: 12114},
+															pos:  position{line: 394, col: 46, offset: 12115},
 															name: "NamedAttribute",
 														},
 													},
@@ -12740,7 +12740,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 399, col: 5, offset: 12197},
+							pos:        position{line: 399, col: 5, offset: 12198},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12751,62 +12751,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 438, col: 1, offset: 13474},
+			pos:  position{line: 438, col: 1, offset: 13475},
 			expr: &actionExpr{
-				pos: position{line: 439, col: 5, offset: 13500},
+				pos: position{line: 439, col: 5, offset: 13501},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 439, col: 5, offset: 13500},
+					pos: position{line: 439, col: 5, offset: 13501},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 439, col: 5, offset: 13500},
+							pos: position{line: 439, col: 5, offset: 13501},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 6, offset: 13501},
+								pos:        position{line: 439, col: 6, offset: 13502},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 439, col: 10, offset: 13505},
+							pos:        position{line: 439, col: 10, offset: 13506},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 439, col: 14, offset: 13509},
+							pos: position{line: 439, col: 14, offset: 13510},
 							expr: &litMatcher{
-								pos:        position{line: 439, col: 15, offset: 13510},
+								pos:        position{line: 439, col: 15, offset: 13511},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13623},
+							pos:   position{line: 440, col: 5, offset: 13624},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 440, col: 31, offset: 13649},
+								pos: position{line: 440, col: 31, offset: 13650},
 								expr: &ruleRefExpr{
-									pos:  position{line: 440, col: 32, offset: 13650},
+									pos:  position{line: 440, col: 32, offset: 13651},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 441, col: 5, offset: 13682},
+							pos:   position{line: 441, col: 5, offset: 13683},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 441, col: 21, offset: 13698},
+								pos: position{line: 441, col: 21, offset: 13699},
 								expr: &choiceExpr{
-									pos: position{line: 441, col: 22, offset: 13699},
+									pos: position{line: 441, col: 22, offset: 13700},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 22, offset: 13699},
+											pos:  position{line: 441, col: 22, offset: 13700},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 441, col: 44, offset: 13721},
+											pos:  position{line: 441, col: 44, offset: 13722},
 											name: "NamedAttribute",
 										},
 									},
@@ -12814,7 +12814,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 442, col: 5, offset: 13742},
+							pos:        position{line: 442, col: 5, offset: 13743},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12825,69 +12825,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 455, col: 1, offset: 14270},
+			pos:  position{line: 455, col: 1, offset: 14271},
 			expr: &actionExpr{
-				pos: position{line: 456, col: 5, offset: 14304},
+				pos: position{line: 456, col: 5, offset: 14305},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 456, col: 5, offset: 14304},
+					pos: position{line: 456, col: 5, offset: 14305},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 456, col: 5, offset: 14304},
+							pos:   position{line: 456, col: 5, offset: 14305},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 456, col: 10, offset: 14309},
+								pos: position{line: 456, col: 10, offset: 14310},
 								expr: &ruleRefExpr{
-									pos:  position{line: 457, col: 9, offset: 14319},
+									pos:  position{line: 457, col: 9, offset: 14320},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 459, col: 5, offset: 14349},
+							pos:   position{line: 459, col: 5, offset: 14350},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 459, col: 12, offset: 14356},
+								pos: position{line: 459, col: 12, offset: 14357},
 								expr: &actionExpr{
-									pos: position{line: 460, col: 9, offset: 14367},
+									pos: position{line: 460, col: 9, offset: 14368},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 460, col: 9, offset: 14367},
+										pos: position{line: 460, col: 9, offset: 14368},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 460, col: 9, offset: 14367},
+												pos: position{line: 460, col: 9, offset: 14368},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 10, offset: 14368},
+													pos:        position{line: 460, col: 10, offset: 14369},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 460, col: 14, offset: 14372},
+												pos: position{line: 460, col: 14, offset: 14373},
 												expr: &litMatcher{
-													pos:        position{line: 460, col: 15, offset: 14373},
+													pos:        position{line: 460, col: 15, offset: 14374},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 461, col: 9, offset: 14385},
+												pos:   position{line: 461, col: 9, offset: 14386},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 462, col: 13, offset: 14405},
+													pos: position{line: 462, col: 13, offset: 14406},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 13, offset: 14405},
+															pos:  position{line: 462, col: 13, offset: 14406},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14441},
+															pos:  position{line: 463, col: 15, offset: 14442},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 464, col: 15, offset: 14480},
+															pos:  position{line: 464, col: 15, offset: 14481},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12899,23 +12899,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 467, col: 8, offset: 14556},
+							pos: position{line: 467, col: 8, offset: 14557},
 							expr: &seqExpr{
-								pos: position{line: 467, col: 9, offset: 14557},
+								pos: position{line: 467, col: 9, offset: 14558},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 467, col: 9, offset: 14557},
+										pos:        position{line: 467, col: 9, offset: 14558},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 467, col: 13, offset: 14561},
+										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91400},
+											pos: position{line: 2886, col: 10, offset: 91401},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91400},
+												pos:        position{line: 2886, col: 10, offset: 91401},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12927,7 +12927,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 468, col: 5, offset: 14575},
+							pos: position{line: 468, col: 5, offset: 14576},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12936,24 +12936,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 484, col: 1, offset: 14991},
+			pos:  position{line: 484, col: 1, offset: 14992},
 			expr: &actionExpr{
-				pos: position{line: 484, col: 25, offset: 15015},
+				pos: position{line: 484, col: 25, offset: 15016},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 484, col: 25, offset: 15015},
+					pos: position{line: 484, col: 25, offset: 15016},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 484, col: 25, offset: 15015},
+							pos:        position{line: 484, col: 25, offset: 15016},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 484, col: 29, offset: 15019},
+							pos:   position{line: 484, col: 29, offset: 15020},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 484, col: 33, offset: 15023},
+								pos:  position{line: 484, col: 33, offset: 15024},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12963,15 +12963,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 488, col: 1, offset: 15097},
+			pos:  position{line: 488, col: 1, offset: 15098},
 			expr: &actionExpr{
-				pos: position{line: 488, col: 23, offset: 15119},
+				pos: position{line: 488, col: 23, offset: 15120},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 488, col: 23, offset: 15119},
+					pos:   position{line: 488, col: 23, offset: 15120},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 488, col: 30, offset: 15126},
+						pos:  position{line: 488, col: 30, offset: 15127},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12979,24 +12979,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 493, col: 1, offset: 15252},
+			pos:  position{line: 493, col: 1, offset: 15253},
 			expr: &actionExpr{
-				pos: position{line: 493, col: 30, offset: 15281},
+				pos: position{line: 493, col: 30, offset: 15282},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 493, col: 30, offset: 15281},
+					pos: position{line: 493, col: 30, offset: 15282},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 493, col: 30, offset: 15281},
+							pos:        position{line: 493, col: 30, offset: 15282},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 493, col: 34, offset: 15285},
+							pos:   position{line: 493, col: 34, offset: 15286},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 493, col: 40, offset: 15291},
+								pos:  position{line: 493, col: 40, offset: 15292},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13006,24 +13006,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 498, col: 1, offset: 15413},
+			pos:  position{line: 498, col: 1, offset: 15414},
 			expr: &actionExpr{
-				pos: position{line: 498, col: 29, offset: 15441},
+				pos: position{line: 498, col: 29, offset: 15442},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 498, col: 29, offset: 15441},
+					pos: position{line: 498, col: 29, offset: 15442},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 498, col: 29, offset: 15441},
+							pos:        position{line: 498, col: 29, offset: 15442},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 498, col: 33, offset: 15445},
+							pos:   position{line: 498, col: 33, offset: 15446},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 498, col: 41, offset: 15453},
+								pos:  position{line: 498, col: 41, offset: 15454},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13033,43 +13033,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 503, col: 1, offset: 15566},
+			pos:  position{line: 503, col: 1, offset: 15567},
 			expr: &choiceExpr{
-				pos: position{line: 504, col: 5, offset: 15598},
+				pos: position{line: 504, col: 5, offset: 15599},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 5, offset: 15598},
+						pos:  position{line: 504, col: 5, offset: 15599},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 505, col: 7, offset: 15632},
+						pos:  position{line: 505, col: 7, offset: 15633},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 506, col: 7, offset: 15666},
+						pos: position{line: 506, col: 7, offset: 15667},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 506, col: 7, offset: 15666},
+							pos: position{line: 506, col: 7, offset: 15667},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 506, col: 7, offset: 15666},
+									pos:   position{line: 506, col: 7, offset: 15667},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 506, col: 16, offset: 15675},
+										pos: position{line: 506, col: 16, offset: 15676},
 										expr: &choiceExpr{
-											pos: position{line: 509, col: 9, offset: 15857},
+											pos: position{line: 509, col: 9, offset: 15858},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 509, col: 9, offset: 15857},
+													pos:  position{line: 509, col: 9, offset: 15858},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 510, col: 12, offset: 15883},
+													pos: position{line: 510, col: 12, offset: 15884},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 510, col: 12, offset: 15883},
+														pos: position{line: 510, col: 12, offset: 15884},
 														expr: &charClassMatcher{
-															pos:        position{line: 510, col: 12, offset: 15883},
+															pos:        position{line: 510, col: 12, offset: 15884},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13078,35 +13078,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 656, col: 5, offset: 20754},
+													pos: position{line: 656, col: 5, offset: 20755},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 656, col: 5, offset: 20754},
+														pos: position{line: 656, col: 5, offset: 20755},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 656, col: 5, offset: 20754},
+																pos: position{line: 656, col: 5, offset: 20755},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 659, col: 5, offset: 20826},
+																pos:   position{line: 659, col: 5, offset: 20827},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 659, col: 14, offset: 20835},
+																	pos: position{line: 659, col: 14, offset: 20836},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 665, col: 5, offset: 20964},
+																			pos: position{line: 665, col: 5, offset: 20965},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 5, offset: 20964},
+																				pos: position{line: 665, col: 5, offset: 20965},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 5, offset: 20964},
+																						pos:        position{line: 665, col: 5, offset: 20965},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 13, offset: 20972},
+																						pos:   position{line: 665, col: 13, offset: 20973},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13126,8 +13126,8 @@ var g = &grammar{
 																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 319, col: 29, offset: 9758},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13138,7 +13138,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 32, offset: 20991},
+																						pos:        position{line: 665, col: 32, offset: 20992},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13147,19 +13147,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 672, col: 5, offset: 21232},
+																			pos: position{line: 672, col: 5, offset: 21233},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 672, col: 5, offset: 21232},
+																				pos: position{line: 672, col: 5, offset: 21233},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 672, col: 5, offset: 21232},
+																						pos:        position{line: 672, col: 5, offset: 21233},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 672, col: 9, offset: 21236},
+																						pos:   position{line: 672, col: 9, offset: 21237},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13179,8 +13179,8 @@ var g = &grammar{
 																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 319, col: 29, offset: 9758},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13191,7 +13191,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 672, col: 28, offset: 21255},
+																						pos:        position{line: 672, col: 28, offset: 21256},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13200,19 +13200,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 678, col: 25, offset: 21436},
+																			pos: position{line: 678, col: 25, offset: 21437},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 678, col: 25, offset: 21436},
+																				pos: position{line: 678, col: 25, offset: 21437},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 678, col: 25, offset: 21436},
+																						pos:        position{line: 678, col: 25, offset: 21437},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 678, col: 37, offset: 21448},
+																						pos:   position{line: 678, col: 37, offset: 21449},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13232,8 +13232,8 @@ var g = &grammar{
 																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 319, col: 29, offset: 9758},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13244,33 +13244,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 678, col: 56, offset: 21467},
+																						pos:   position{line: 678, col: 56, offset: 21468},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 678, col: 62, offset: 21473},
+																							pos: position{line: 678, col: 62, offset: 21474},
 																							expr: &actionExpr{
-																								pos: position{line: 686, col: 17, offset: 21768},
+																								pos: position{line: 686, col: 17, offset: 21769},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 686, col: 17, offset: 21768},
+																									pos: position{line: 686, col: 17, offset: 21769},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 686, col: 17, offset: 21768},
+																											pos:        position{line: 686, col: 17, offset: 21769},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 686, col: 21, offset: 21772},
+																											pos:   position{line: 686, col: 21, offset: 21773},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 686, col: 28, offset: 21779},
+																															pos:        position{line: 686, col: 28, offset: 21780},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13278,12 +13278,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 688, col: 9, offset: 21833},
+																														pos: position{line: 688, col: 9, offset: 21834},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 688, col: 9, offset: 21833},
+																															pos: position{line: 688, col: 9, offset: 21834},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 688, col: 9, offset: 21833},
+																																pos:        position{line: 688, col: 9, offset: 21834},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13300,7 +13300,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 678, col: 78, offset: 21489},
+																						pos:        position{line: 678, col: 78, offset: 21490},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13309,19 +13309,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 682, col: 25, offset: 21607},
+																			pos: position{line: 682, col: 25, offset: 21608},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 682, col: 25, offset: 21607},
+																				pos: position{line: 682, col: 25, offset: 21608},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 682, col: 25, offset: 21607},
+																						pos:        position{line: 682, col: 25, offset: 21608},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 682, col: 38, offset: 21620},
+																						pos:   position{line: 682, col: 38, offset: 21621},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 319, col: 18, offset: 9747},
@@ -13341,8 +13341,8 @@ var g = &grammar{
 																										pos: position{line: 319, col: 28, offset: 9757},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 319, col: 29, offset: 9758},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13353,33 +13353,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 682, col: 57, offset: 21639},
+																						pos:   position{line: 682, col: 57, offset: 21640},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 682, col: 63, offset: 21645},
+																							pos: position{line: 682, col: 63, offset: 21646},
 																							expr: &actionExpr{
-																								pos: position{line: 686, col: 17, offset: 21768},
+																								pos: position{line: 686, col: 17, offset: 21769},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 686, col: 17, offset: 21768},
+																									pos: position{line: 686, col: 17, offset: 21769},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 686, col: 17, offset: 21768},
+																											pos:        position{line: 686, col: 17, offset: 21769},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 686, col: 21, offset: 21772},
+																											pos:   position{line: 686, col: 21, offset: 21773},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 686, col: 28, offset: 21779},
+																															pos:        position{line: 686, col: 28, offset: 21780},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13387,12 +13387,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 688, col: 9, offset: 21833},
+																														pos: position{line: 688, col: 9, offset: 21834},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 688, col: 9, offset: 21833},
+																															pos: position{line: 688, col: 9, offset: 21834},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 688, col: 9, offset: 21833},
+																																pos:        position{line: 688, col: 9, offset: 21834},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13409,7 +13409,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 682, col: 79, offset: 21661},
+																						pos:        position{line: 682, col: 79, offset: 21662},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13424,10 +13424,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 515, col: 12, offset: 16051},
+													pos: position{line: 515, col: 12, offset: 16052},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 515, col: 12, offset: 16051},
+														pos:        position{line: 515, col: 12, offset: 16052},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13438,19 +13438,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 519, col: 5, offset: 16139},
+									pos: position{line: 519, col: 5, offset: 16140},
 									expr: &notExpr{
-										pos: position{line: 519, col: 7, offset: 16141},
+										pos: position{line: 519, col: 7, offset: 16142},
 										expr: &seqExpr{
-											pos: position{line: 519, col: 9, offset: 16143},
+											pos: position{line: 519, col: 9, offset: 16144},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 519, col: 9, offset: 16143},
+													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13459,7 +13459,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 519, col: 16, offset: 16150},
+													pos:        position{line: 519, col: 16, offset: 16151},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13476,45 +13476,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 524, col: 1, offset: 16228},
+			pos:  position{line: 524, col: 1, offset: 16229},
 			expr: &choiceExpr{
-				pos: position{line: 524, col: 24, offset: 16251},
+				pos: position{line: 524, col: 24, offset: 16252},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 525, col: 5, offset: 16257},
+						pos: position{line: 525, col: 5, offset: 16258},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 525, col: 5, offset: 16257},
+							pos: position{line: 525, col: 5, offset: 16258},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 525, col: 5, offset: 16257},
+									pos:   position{line: 525, col: 5, offset: 16258},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 525, col: 12, offset: 16264},
+										pos:  position{line: 525, col: 12, offset: 16265},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 525, col: 29, offset: 16281},
+									pos: position{line: 525, col: 29, offset: 16282},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 525, col: 29, offset: 16281},
+											pos: position{line: 525, col: 29, offset: 16282},
 											expr: &seqExpr{
-												pos: position{line: 525, col: 30, offset: 16282},
+												pos: position{line: 525, col: 30, offset: 16283},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 525, col: 30, offset: 16282},
+														pos:        position{line: 525, col: 30, offset: 16283},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 525, col: 34, offset: 16286},
+														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13526,9 +13526,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 525, col: 45, offset: 16297},
+											pos: position{line: 525, col: 45, offset: 16298},
 											expr: &litMatcher{
-												pos:        position{line: 525, col: 46, offset: 16298},
+												pos:        position{line: 525, col: 46, offset: 16299},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13540,24 +13540,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 530, col: 6, offset: 16443},
+						pos: position{line: 530, col: 6, offset: 16444},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 530, col: 6, offset: 16443},
+							pos: position{line: 530, col: 6, offset: 16444},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 530, col: 6, offset: 16443},
+									pos:   position{line: 530, col: 6, offset: 16444},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 530, col: 13, offset: 16450},
+										pos: position{line: 530, col: 13, offset: 16451},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 530, col: 13, offset: 16450},
+												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91400},
+													pos: position{line: 2886, col: 10, offset: 91401},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91400},
+														pos:        position{line: 2886, col: 10, offset: 91401},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13566,24 +13566,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 530, col: 21, offset: 16458},
+												pos: position{line: 530, col: 21, offset: 16459},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 530, col: 22, offset: 16459},
+														pos: position{line: 530, col: 22, offset: 16460},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 530, col: 22, offset: 16459},
+																pos:        position{line: 530, col: 22, offset: 16460},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 530, col: 26, offset: 16463},
+																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13594,9 +13594,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 530, col: 36, offset: 16473},
+														pos: position{line: 530, col: 36, offset: 16474},
 														expr: &litMatcher{
-															pos:        position{line: 530, col: 37, offset: 16474},
+															pos:        position{line: 530, col: 37, offset: 16475},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13608,7 +13608,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 531, col: 5, offset: 16484},
+									pos: position{line: 531, col: 5, offset: 16485},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13619,29 +13619,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 541, col: 1, offset: 16799},
+			pos:  position{line: 541, col: 1, offset: 16800},
 			expr: &actionExpr{
-				pos: position{line: 542, col: 5, offset: 16822},
+				pos: position{line: 542, col: 5, offset: 16823},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 542, col: 5, offset: 16822},
+					pos: position{line: 542, col: 5, offset: 16823},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 542, col: 5, offset: 16822},
+							pos:   position{line: 542, col: 5, offset: 16823},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 550, col: 22, offset: 17140},
+								pos: position{line: 550, col: 22, offset: 17141},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 550, col: 22, offset: 17140},
+									pos: position{line: 550, col: 22, offset: 17141},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 550, col: 22, offset: 17140},
+											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91400},
+												pos: position{line: 2886, col: 10, offset: 91401},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91400},
+													pos:        position{line: 2886, col: 10, offset: 91401},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13650,9 +13650,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 550, col: 29, offset: 17147},
+											pos: position{line: 550, col: 29, offset: 17148},
 											expr: &charClassMatcher{
-												pos:        position{line: 550, col: 29, offset: 17147},
+												pos:        position{line: 550, col: 29, offset: 17148},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13664,18 +13664,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 543, col: 5, offset: 16851},
+							pos:        position{line: 543, col: 5, offset: 16852},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 543, col: 9, offset: 16855},
+							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13684,28 +13684,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 544, col: 5, offset: 16867},
+							pos:   position{line: 544, col: 5, offset: 16868},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 544, col: 12, offset: 16874},
+								pos: position{line: 544, col: 12, offset: 16875},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 544, col: 12, offset: 16874},
+										pos:  position{line: 544, col: 12, offset: 16875},
 										name: "AttributeValue",
 									},
 									&actionExpr{
-										pos: position{line: 624, col: 5, offset: 19398},
+										pos: position{line: 624, col: 5, offset: 19399},
 										run: (*parser).callonNamedAttribute18,
 										expr: &seqExpr{
-											pos: position{line: 624, col: 5, offset: 19398},
+											pos: position{line: 624, col: 5, offset: 19399},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 624, col: 5, offset: 19398},
+													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13714,61 +13714,61 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 624, col: 12, offset: 19405},
+													pos: position{line: 624, col: 12, offset: 19406},
 													expr: &litMatcher{
-														pos:        position{line: 624, col: 13, offset: 19406},
+														pos:        position{line: 624, col: 13, offset: 19407},
 														val:        "'",
 														ignoreCase: false,
 														want:       "\"'\"",
 													},
 												},
 												&notExpr{
-													pos: position{line: 624, col: 17, offset: 19410},
+													pos: position{line: 624, col: 17, offset: 19411},
 													expr: &litMatcher{
-														pos:        position{line: 624, col: 18, offset: 19411},
+														pos:        position{line: 624, col: 18, offset: 19412},
 														val:        "\"",
 														ignoreCase: false,
 														want:       "\"\\\"\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 625, col: 5, offset: 19434},
+													pos:   position{line: 625, col: 5, offset: 19435},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 625, col: 14, offset: 19443},
+														pos: position{line: 625, col: 14, offset: 19444},
 														expr: &choiceExpr{
-															pos: position{line: 626, col: 9, offset: 19453},
+															pos: position{line: 626, col: 9, offset: 19454},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 656, col: 5, offset: 20754},
+																	pos: position{line: 656, col: 5, offset: 20755},
 																	run: (*parser).callonNamedAttribute30,
 																	expr: &seqExpr{
-																		pos: position{line: 656, col: 5, offset: 20754},
+																		pos: position{line: 656, col: 5, offset: 20755},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				run: (*parser).callonNamedAttribute32,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 5, offset: 20826},
+																				pos:   position{line: 659, col: 5, offset: 20827},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 659, col: 14, offset: 20835},
+																					pos: position{line: 659, col: 14, offset: 20836},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							run: (*parser).callonNamedAttribute35,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 20964},
+																								pos: position{line: 665, col: 5, offset: 20965},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 20964},
+																										pos:        position{line: 665, col: 5, offset: 20965},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 13, offset: 20972},
+																										pos:   position{line: 665, col: 13, offset: 20973},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -13788,8 +13788,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -13800,7 +13800,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 32, offset: 20991},
+																										pos:        position{line: 665, col: 32, offset: 20992},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -13809,19 +13809,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							run: (*parser).callonNamedAttribute45,
 																							expr: &seqExpr{
-																								pos: position{line: 672, col: 5, offset: 21232},
+																								pos: position{line: 672, col: 5, offset: 21233},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 672, col: 5, offset: 21232},
+																										pos:        position{line: 672, col: 5, offset: 21233},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 9, offset: 21236},
+																										pos:   position{line: 672, col: 9, offset: 21237},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -13841,8 +13841,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -13853,7 +13853,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 672, col: 28, offset: 21255},
+																										pos:        position{line: 672, col: 28, offset: 21256},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -13862,19 +13862,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 25, offset: 21436},
+																							pos: position{line: 678, col: 25, offset: 21437},
 																							run: (*parser).callonNamedAttribute55,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 25, offset: 21436},
+																								pos: position{line: 678, col: 25, offset: 21437},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 678, col: 25, offset: 21436},
+																										pos:        position{line: 678, col: 25, offset: 21437},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 37, offset: 21448},
+																										pos:   position{line: 678, col: 37, offset: 21449},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -13894,8 +13894,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -13906,33 +13906,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 56, offset: 21467},
+																										pos:   position{line: 678, col: 56, offset: 21468},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 678, col: 62, offset: 21473},
+																											pos: position{line: 678, col: 62, offset: 21474},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonNamedAttribute66,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonNamedAttribute71,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -13940,12 +13940,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonNamedAttribute73,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -13962,7 +13962,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 678, col: 78, offset: 21489},
+																										pos:        position{line: 678, col: 78, offset: 21490},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -13971,19 +13971,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 682, col: 25, offset: 21607},
+																							pos: position{line: 682, col: 25, offset: 21608},
 																							run: (*parser).callonNamedAttribute77,
 																							expr: &seqExpr{
-																								pos: position{line: 682, col: 25, offset: 21607},
+																								pos: position{line: 682, col: 25, offset: 21608},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 682, col: 25, offset: 21607},
+																										pos:        position{line: 682, col: 25, offset: 21608},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 38, offset: 21620},
+																										pos:   position{line: 682, col: 38, offset: 21621},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -14003,8 +14003,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -14015,33 +14015,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 57, offset: 21639},
+																										pos:   position{line: 682, col: 57, offset: 21640},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 682, col: 63, offset: 21645},
+																											pos: position{line: 682, col: 63, offset: 21646},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonNamedAttribute88,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonNamedAttribute93,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -14049,12 +14049,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonNamedAttribute95,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -14071,7 +14071,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 682, col: 79, offset: 21661},
+																										pos:        position{line: 682, col: 79, offset: 21662},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -14086,16 +14086,16 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 626, col: 30, offset: 19474},
+																	pos:        position{line: 626, col: 30, offset: 19475},
 																	val:        "{",
 																	ignoreCase: false,
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14103,12 +14103,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 628, col: 12, offset: 19559},
+																	pos: position{line: 628, col: 12, offset: 19560},
 																	run: (*parser).callonNamedAttribute102,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 628, col: 12, offset: 19559},
+																		pos: position{line: 628, col: 12, offset: 19560},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 628, col: 12, offset: 19559},
+																			pos:        position{line: 628, col: 12, offset: 19560},
 																			val:        "[^\\r\\n,[]{ ]",
 																			chars:      []rune{'\r', '\n', ',', '[', ']', '{', ' '},
 																			ignoreCase: false,
@@ -14127,23 +14127,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 544, col: 58, offset: 16920},
+							pos: position{line: 544, col: 58, offset: 16921},
 							expr: &seqExpr{
-								pos: position{line: 544, col: 59, offset: 16921},
+								pos: position{line: 544, col: 59, offset: 16922},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 544, col: 59, offset: 16921},
+										pos:        position{line: 544, col: 59, offset: 16922},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 544, col: 63, offset: 16925},
+										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91400},
+											pos: position{line: 2886, col: 10, offset: 91401},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91400},
+												pos:        position{line: 2886, col: 10, offset: 91401},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14160,48 +14160,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 554, col: 1, offset: 17204},
+			pos:  position{line: 554, col: 1, offset: 17205},
 			expr: &actionExpr{
-				pos: position{line: 555, col: 5, offset: 17227},
+				pos: position{line: 555, col: 5, offset: 17228},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 555, col: 5, offset: 17227},
+					pos: position{line: 555, col: 5, offset: 17228},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 555, col: 5, offset: 17227},
+							pos:   position{line: 555, col: 5, offset: 17228},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 556, col: 9, offset: 17243},
+								pos: position{line: 556, col: 9, offset: 17244},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 9, offset: 17243},
+										pos:  position{line: 556, col: 9, offset: 17244},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17281},
+										pos:  position{line: 557, col: 11, offset: 17282},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 558, col: 11, offset: 17319},
+										pos:  position{line: 558, col: 11, offset: 17320},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 560, col: 5, offset: 17353},
+							pos: position{line: 560, col: 5, offset: 17354},
 							expr: &notExpr{
-								pos: position{line: 560, col: 7, offset: 17355},
+								pos: position{line: 560, col: 7, offset: 17356},
 								expr: &seqExpr{
-									pos: position{line: 560, col: 9, offset: 17357},
+									pos: position{line: 560, col: 9, offset: 17358},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 560, col: 9, offset: 17357},
+											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91400},
+												pos: position{line: 2886, col: 10, offset: 91401},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91400},
+													pos:        position{line: 2886, col: 10, offset: 91401},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14210,7 +14210,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 560, col: 16, offset: 17364},
+											pos:        position{line: 560, col: 16, offset: 17365},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14225,41 +14225,41 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 564, col: 1, offset: 17405},
+			pos:  position{line: 564, col: 1, offset: 17406},
 			expr: &actionExpr{
-				pos: position{line: 565, col: 5, offset: 17440},
+				pos: position{line: 565, col: 5, offset: 17441},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 565, col: 5, offset: 17440},
+					pos: position{line: 565, col: 5, offset: 17441},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 565, col: 5, offset: 17440},
+							pos:        position{line: 565, col: 5, offset: 17441},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 565, col: 9, offset: 17444},
+							pos: position{line: 565, col: 9, offset: 17445},
 							expr: &litMatcher{
-								pos:        position{line: 565, col: 10, offset: 17445},
+								pos:        position{line: 565, col: 10, offset: 17446},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 566, col: 5, offset: 17524},
+							pos:   position{line: 566, col: 5, offset: 17525},
 							label: "content",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 566, col: 13, offset: 17532},
+								pos: position{line: 566, col: 13, offset: 17533},
 								expr: &ruleRefExpr{
-									pos:  position{line: 566, col: 14, offset: 17533},
+									pos:  position{line: 566, col: 14, offset: 17534},
 									name: "SingleQuotedAttributeValueContent",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 567, col: 5, offset: 17573},
+							pos:        position{line: 567, col: 5, offset: 17574},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14270,25 +14270,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 574, col: 1, offset: 17694},
+			pos:  position{line: 574, col: 1, offset: 17695},
 			expr: &actionExpr{
-				pos: position{line: 575, col: 5, offset: 17736},
+				pos: position{line: 575, col: 5, offset: 17737},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 575, col: 5, offset: 17736},
+					pos:   position{line: 575, col: 5, offset: 17737},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 575, col: 14, offset: 17745},
+						pos: position{line: 575, col: 14, offset: 17746},
 						expr: &choiceExpr{
-							pos: position{line: 576, col: 9, offset: 17755},
+							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88555},
+									pos: position{line: 2780, col: 14, offset: 88556},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88555},
+										pos: position{line: 2780, col: 14, offset: 88556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88555},
+											pos:        position{line: 2780, col: 14, offset: 88556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91400},
+									pos: position{line: 2886, col: 10, offset: 91401},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91400},
+										pos:        position{line: 2886, col: 10, offset: 91401},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14308,39 +14308,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 578, col: 11, offset: 17791},
+									pos:  position{line: 578, col: 11, offset: 17792},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 656, col: 5, offset: 20754},
+									pos: position{line: 656, col: 5, offset: 20755},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 656, col: 5, offset: 20754},
+										pos: position{line: 656, col: 5, offset: 20755},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 656, col: 5, offset: 20754},
+												pos: position{line: 656, col: 5, offset: 20755},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 659, col: 5, offset: 20826},
+												pos:   position{line: 659, col: 5, offset: 20827},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 659, col: 14, offset: 20835},
+													pos: position{line: 659, col: 14, offset: 20836},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 20964},
+															pos: position{line: 665, col: 5, offset: 20965},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 20964},
+																pos: position{line: 665, col: 5, offset: 20965},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 20964},
+																		pos:        position{line: 665, col: 5, offset: 20965},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 13, offset: 20972},
+																		pos:   position{line: 665, col: 13, offset: 20973},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14360,8 +14360,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14372,7 +14372,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 32, offset: 20991},
+																		pos:        position{line: 665, col: 32, offset: 20992},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14381,19 +14381,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 672, col: 5, offset: 21232},
+															pos: position{line: 672, col: 5, offset: 21233},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 672, col: 5, offset: 21232},
+																pos: position{line: 672, col: 5, offset: 21233},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 672, col: 5, offset: 21232},
+																		pos:        position{line: 672, col: 5, offset: 21233},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 9, offset: 21236},
+																		pos:   position{line: 672, col: 9, offset: 21237},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14413,8 +14413,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14425,7 +14425,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 672, col: 28, offset: 21255},
+																		pos:        position{line: 672, col: 28, offset: 21256},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14434,19 +14434,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 678, col: 25, offset: 21436},
+															pos: position{line: 678, col: 25, offset: 21437},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 678, col: 25, offset: 21436},
+																pos: position{line: 678, col: 25, offset: 21437},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 678, col: 25, offset: 21436},
+																		pos:        position{line: 678, col: 25, offset: 21437},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 678, col: 37, offset: 21448},
+																		pos:   position{line: 678, col: 37, offset: 21449},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14466,8 +14466,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14478,33 +14478,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 678, col: 56, offset: 21467},
+																		pos:   position{line: 678, col: 56, offset: 21468},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 678, col: 62, offset: 21473},
+																			pos: position{line: 678, col: 62, offset: 21474},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 17, offset: 21768},
+																				pos: position{line: 686, col: 17, offset: 21769},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 686, col: 17, offset: 21768},
+																							pos:        position{line: 686, col: 17, offset: 21769},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 686, col: 21, offset: 21772},
+																							pos:   position{line: 686, col: 21, offset: 21773},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 686, col: 28, offset: 21779},
+																											pos:        position{line: 686, col: 28, offset: 21780},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14512,12 +14512,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 688, col: 9, offset: 21833},
+																										pos: position{line: 688, col: 9, offset: 21834},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 688, col: 9, offset: 21833},
+																												pos:        position{line: 688, col: 9, offset: 21834},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14534,7 +14534,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 678, col: 78, offset: 21489},
+																		pos:        position{line: 678, col: 78, offset: 21490},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14543,19 +14543,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 682, col: 25, offset: 21607},
+															pos: position{line: 682, col: 25, offset: 21608},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 682, col: 25, offset: 21607},
+																pos: position{line: 682, col: 25, offset: 21608},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 682, col: 25, offset: 21607},
+																		pos:        position{line: 682, col: 25, offset: 21608},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 682, col: 38, offset: 21620},
+																		pos:   position{line: 682, col: 38, offset: 21621},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14575,8 +14575,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14587,33 +14587,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 682, col: 57, offset: 21639},
+																		pos:   position{line: 682, col: 57, offset: 21640},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 682, col: 63, offset: 21645},
+																			pos: position{line: 682, col: 63, offset: 21646},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 17, offset: 21768},
+																				pos: position{line: 686, col: 17, offset: 21769},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 686, col: 17, offset: 21768},
+																							pos:        position{line: 686, col: 17, offset: 21769},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 686, col: 21, offset: 21772},
+																							pos:   position{line: 686, col: 21, offset: 21773},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 686, col: 28, offset: 21779},
+																											pos:        position{line: 686, col: 28, offset: 21780},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14621,12 +14621,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 688, col: 9, offset: 21833},
+																										pos: position{line: 688, col: 9, offset: 21834},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 688, col: 9, offset: 21833},
+																												pos:        position{line: 688, col: 9, offset: 21834},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14643,7 +14643,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 682, col: 79, offset: 21661},
+																		pos:        position{line: 682, col: 79, offset: 21662},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14658,44 +14658,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 580, col: 12, offset: 17845},
+									pos: position{line: 580, col: 12, offset: 17846},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 580, col: 12, offset: 17845},
+										pos:        position{line: 580, col: 12, offset: 17846},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 583, col: 13, offset: 17947},
+									pos:        position{line: 583, col: 13, offset: 17948},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 583, col: 20, offset: 17954},
+									pos:        position{line: 583, col: 20, offset: 17955},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 27, offset: 17961},
+									pos: position{line: 583, col: 27, offset: 17962},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 583, col: 27, offset: 17961},
+										pos:        position{line: 583, col: 27, offset: 17962},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 586, col: 12, offset: 18121},
+									pos: position{line: 586, col: 12, offset: 18122},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 586, col: 12, offset: 18121},
+										pos: position{line: 586, col: 12, offset: 18122},
 										expr: &charClassMatcher{
-											pos:        position{line: 586, col: 12, offset: 18121},
+											pos:        position{line: 586, col: 12, offset: 18122},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14711,59 +14711,59 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 593, col: 1, offset: 18318},
+			pos:  position{line: 593, col: 1, offset: 18319},
 			expr: &actionExpr{
-				pos: position{line: 594, col: 5, offset: 18353},
+				pos: position{line: 594, col: 5, offset: 18354},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 594, col: 5, offset: 18353},
+					pos: position{line: 594, col: 5, offset: 18354},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 594, col: 5, offset: 18353},
+							pos:        position{line: 594, col: 5, offset: 18354},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 594, col: 10, offset: 18358},
+							pos: position{line: 594, col: 10, offset: 18359},
 							expr: &litMatcher{
-								pos:        position{line: 594, col: 11, offset: 18359},
+								pos:        position{line: 594, col: 11, offset: 18360},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 595, col: 5, offset: 18438},
+							pos:   position{line: 595, col: 5, offset: 18439},
 							label: "content",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 595, col: 13, offset: 18446},
+								pos: position{line: 595, col: 13, offset: 18447},
 								expr: &ruleRefExpr{
-									pos:  position{line: 595, col: 14, offset: 18447},
+									pos:  position{line: 595, col: 14, offset: 18448},
 									name: "DoubleQuotedAttributeValueContent",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 596, col: 5, offset: 18487},
+							pos:        position{line: 596, col: 5, offset: 18488},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 596, col: 10, offset: 18492},
+							pos: position{line: 596, col: 10, offset: 18493},
 							expr: &notExpr{
-								pos: position{line: 596, col: 12, offset: 18494},
+								pos: position{line: 596, col: 12, offset: 18495},
 								expr: &seqExpr{
-									pos: position{line: 596, col: 14, offset: 18496},
+									pos: position{line: 596, col: 14, offset: 18497},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 596, col: 14, offset: 18496},
+											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91400},
+												pos: position{line: 2886, col: 10, offset: 91401},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91400},
+													pos:        position{line: 2886, col: 10, offset: 91401},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14772,7 +14772,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 596, col: 21, offset: 18503},
+											pos:        position{line: 596, col: 21, offset: 18504},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14787,25 +14787,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 603, col: 1, offset: 18626},
+			pos:  position{line: 603, col: 1, offset: 18627},
 			expr: &actionExpr{
-				pos: position{line: 604, col: 5, offset: 18668},
+				pos: position{line: 604, col: 5, offset: 18669},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 604, col: 5, offset: 18668},
+					pos:   position{line: 604, col: 5, offset: 18669},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 604, col: 14, offset: 18677},
+						pos: position{line: 604, col: 14, offset: 18678},
 						expr: &choiceExpr{
-							pos: position{line: 605, col: 9, offset: 18687},
+							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88555},
+									pos: position{line: 2780, col: 14, offset: 88556},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88555},
+										pos: position{line: 2780, col: 14, offset: 88556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88555},
+											pos:        position{line: 2780, col: 14, offset: 88556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91400},
+									pos: position{line: 2886, col: 10, offset: 91401},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91400},
+										pos:        position{line: 2886, col: 10, offset: 91401},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14825,39 +14825,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 607, col: 11, offset: 18723},
+									pos:  position{line: 607, col: 11, offset: 18724},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 656, col: 5, offset: 20754},
+									pos: position{line: 656, col: 5, offset: 20755},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 656, col: 5, offset: 20754},
+										pos: position{line: 656, col: 5, offset: 20755},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 656, col: 5, offset: 20754},
+												pos: position{line: 656, col: 5, offset: 20755},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 659, col: 5, offset: 20826},
+												pos:   position{line: 659, col: 5, offset: 20827},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 659, col: 14, offset: 20835},
+													pos: position{line: 659, col: 14, offset: 20836},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 665, col: 5, offset: 20964},
+															pos: position{line: 665, col: 5, offset: 20965},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 5, offset: 20964},
+																pos: position{line: 665, col: 5, offset: 20965},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 5, offset: 20964},
+																		pos:        position{line: 665, col: 5, offset: 20965},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 13, offset: 20972},
+																		pos:   position{line: 665, col: 13, offset: 20973},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14877,8 +14877,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14889,7 +14889,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 32, offset: 20991},
+																		pos:        position{line: 665, col: 32, offset: 20992},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14898,19 +14898,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 672, col: 5, offset: 21232},
+															pos: position{line: 672, col: 5, offset: 21233},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 672, col: 5, offset: 21232},
+																pos: position{line: 672, col: 5, offset: 21233},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 672, col: 5, offset: 21232},
+																		pos:        position{line: 672, col: 5, offset: 21233},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 9, offset: 21236},
+																		pos:   position{line: 672, col: 9, offset: 21237},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14930,8 +14930,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14942,7 +14942,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 672, col: 28, offset: 21255},
+																		pos:        position{line: 672, col: 28, offset: 21256},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14951,19 +14951,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 678, col: 25, offset: 21436},
+															pos: position{line: 678, col: 25, offset: 21437},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 678, col: 25, offset: 21436},
+																pos: position{line: 678, col: 25, offset: 21437},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 678, col: 25, offset: 21436},
+																		pos:        position{line: 678, col: 25, offset: 21437},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 678, col: 37, offset: 21448},
+																		pos:   position{line: 678, col: 37, offset: 21449},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -14983,8 +14983,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14995,33 +14995,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 678, col: 56, offset: 21467},
+																		pos:   position{line: 678, col: 56, offset: 21468},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 678, col: 62, offset: 21473},
+																			pos: position{line: 678, col: 62, offset: 21474},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 17, offset: 21768},
+																				pos: position{line: 686, col: 17, offset: 21769},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 686, col: 17, offset: 21768},
+																							pos:        position{line: 686, col: 17, offset: 21769},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 686, col: 21, offset: 21772},
+																							pos:   position{line: 686, col: 21, offset: 21773},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 686, col: 28, offset: 21779},
+																											pos:        position{line: 686, col: 28, offset: 21780},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15029,12 +15029,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 688, col: 9, offset: 21833},
+																										pos: position{line: 688, col: 9, offset: 21834},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 688, col: 9, offset: 21833},
+																												pos:        position{line: 688, col: 9, offset: 21834},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15051,7 +15051,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 678, col: 78, offset: 21489},
+																		pos:        position{line: 678, col: 78, offset: 21490},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15060,19 +15060,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 682, col: 25, offset: 21607},
+															pos: position{line: 682, col: 25, offset: 21608},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 682, col: 25, offset: 21607},
+																pos: position{line: 682, col: 25, offset: 21608},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 682, col: 25, offset: 21607},
+																		pos:        position{line: 682, col: 25, offset: 21608},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 682, col: 38, offset: 21620},
+																		pos:   position{line: 682, col: 38, offset: 21621},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 319, col: 18, offset: 9747},
@@ -15092,8 +15092,8 @@ var g = &grammar{
 																						pos: position{line: 319, col: 28, offset: 9757},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 319, col: 29, offset: 9758},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -15104,33 +15104,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 682, col: 57, offset: 21639},
+																		pos:   position{line: 682, col: 57, offset: 21640},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 682, col: 63, offset: 21645},
+																			pos: position{line: 682, col: 63, offset: 21646},
 																			expr: &actionExpr{
-																				pos: position{line: 686, col: 17, offset: 21768},
+																				pos: position{line: 686, col: 17, offset: 21769},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 686, col: 17, offset: 21768},
+																							pos:        position{line: 686, col: 17, offset: 21769},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 686, col: 21, offset: 21772},
+																							pos:   position{line: 686, col: 21, offset: 21773},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 686, col: 28, offset: 21779},
+																											pos:        position{line: 686, col: 28, offset: 21780},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15138,12 +15138,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 688, col: 9, offset: 21833},
+																										pos: position{line: 688, col: 9, offset: 21834},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 688, col: 9, offset: 21833},
+																												pos:        position{line: 688, col: 9, offset: 21834},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15160,7 +15160,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 682, col: 79, offset: 21661},
+																		pos:        position{line: 682, col: 79, offset: 21662},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15175,50 +15175,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18778},
+									pos: position{line: 609, col: 12, offset: 18779},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 609, col: 12, offset: 18778},
+										pos:        position{line: 609, col: 12, offset: 18779},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 13, offset: 18880},
+									pos:        position{line: 612, col: 13, offset: 18881},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 21, offset: 18888},
+									pos:        position{line: 612, col: 21, offset: 18889},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 29, offset: 18896},
+									pos:        position{line: 612, col: 29, offset: 18897},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 612, col: 35, offset: 18902},
+									pos: position{line: 612, col: 35, offset: 18903},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 612, col: 35, offset: 18902},
+										pos:        position{line: 612, col: 35, offset: 18903},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 615, col: 12, offset: 19085},
+									pos: position{line: 615, col: 12, offset: 19086},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 615, col: 12, offset: 19085},
+										pos: position{line: 615, col: 12, offset: 19086},
 										expr: &charClassMatcher{
-											pos:        position{line: 615, col: 12, offset: 19085},
+											pos:        position{line: 615, col: 12, offset: 19086},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15234,20 +15234,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 636, col: 1, offset: 19782},
+			pos:  position{line: 636, col: 1, offset: 19783},
 			expr: &actionExpr{
-				pos: position{line: 639, col: 5, offset: 19966},
+				pos: position{line: 639, col: 5, offset: 19967},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 639, col: 5, offset: 19966},
+					pos: position{line: 639, col: 5, offset: 19967},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 639, col: 5, offset: 19966},
+							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15256,28 +15256,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 640, col: 5, offset: 20035},
+							pos:   position{line: 640, col: 5, offset: 20036},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 640, col: 14, offset: 20044},
+								pos: position{line: 640, col: 14, offset: 20045},
 								expr: &choiceExpr{
-									pos: position{line: 641, col: 9, offset: 20054},
+									pos: position{line: 641, col: 9, offset: 20055},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 641, col: 10, offset: 20055},
+											pos: position{line: 641, col: 10, offset: 20056},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 641, col: 10, offset: 20055},
+													pos:        position{line: 641, col: 10, offset: 20056},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 641, col: 14, offset: 20059},
+													pos:  position{line: 641, col: 14, offset: 20060},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 641, col: 37, offset: 20082},
+													pos:        position{line: 641, col: 37, offset: 20083},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15285,35 +15285,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 656, col: 5, offset: 20754},
+											pos: position{line: 656, col: 5, offset: 20755},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 656, col: 5, offset: 20754},
+												pos: position{line: 656, col: 5, offset: 20755},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 656, col: 5, offset: 20754},
+														pos: position{line: 656, col: 5, offset: 20755},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 659, col: 5, offset: 20826},
+														pos:   position{line: 659, col: 5, offset: 20827},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 659, col: 14, offset: 20835},
+															pos: position{line: 659, col: 14, offset: 20836},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 20964},
+																	pos: position{line: 665, col: 5, offset: 20965},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 20964},
+																		pos: position{line: 665, col: 5, offset: 20965},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 20964},
+																				pos:        position{line: 665, col: 5, offset: 20965},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 13, offset: 20972},
+																				pos:   position{line: 665, col: 13, offset: 20973},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15333,8 +15333,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15345,7 +15345,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 32, offset: 20991},
+																				pos:        position{line: 665, col: 32, offset: 20992},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15354,19 +15354,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 672, col: 5, offset: 21232},
+																	pos: position{line: 672, col: 5, offset: 21233},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 672, col: 5, offset: 21232},
+																		pos: position{line: 672, col: 5, offset: 21233},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 672, col: 5, offset: 21232},
+																				pos:        position{line: 672, col: 5, offset: 21233},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 9, offset: 21236},
+																				pos:   position{line: 672, col: 9, offset: 21237},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15386,8 +15386,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15398,7 +15398,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 672, col: 28, offset: 21255},
+																				pos:        position{line: 672, col: 28, offset: 21256},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15407,19 +15407,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 678, col: 25, offset: 21436},
+																	pos: position{line: 678, col: 25, offset: 21437},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 678, col: 25, offset: 21436},
+																		pos: position{line: 678, col: 25, offset: 21437},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 678, col: 25, offset: 21436},
+																				pos:        position{line: 678, col: 25, offset: 21437},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 678, col: 37, offset: 21448},
+																				pos:   position{line: 678, col: 37, offset: 21449},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15439,8 +15439,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15451,33 +15451,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 678, col: 56, offset: 21467},
+																				pos:   position{line: 678, col: 56, offset: 21468},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 678, col: 62, offset: 21473},
+																					pos: position{line: 678, col: 62, offset: 21474},
 																					expr: &actionExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 686, col: 17, offset: 21768},
+																							pos: position{line: 686, col: 17, offset: 21769},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 686, col: 17, offset: 21768},
+																									pos:        position{line: 686, col: 17, offset: 21769},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 686, col: 21, offset: 21772},
+																									pos:   position{line: 686, col: 21, offset: 21773},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 686, col: 28, offset: 21779},
+																													pos:        position{line: 686, col: 28, offset: 21780},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15485,12 +15485,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 688, col: 9, offset: 21833},
+																													pos: position{line: 688, col: 9, offset: 21834},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 688, col: 9, offset: 21833},
+																														pos:        position{line: 688, col: 9, offset: 21834},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15507,7 +15507,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 678, col: 78, offset: 21489},
+																				pos:        position{line: 678, col: 78, offset: 21490},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15516,19 +15516,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 682, col: 25, offset: 21607},
+																	pos: position{line: 682, col: 25, offset: 21608},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 682, col: 25, offset: 21607},
+																		pos: position{line: 682, col: 25, offset: 21608},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 682, col: 25, offset: 21607},
+																				pos:        position{line: 682, col: 25, offset: 21608},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 682, col: 38, offset: 21620},
+																				pos:   position{line: 682, col: 38, offset: 21621},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -15548,8 +15548,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -15560,33 +15560,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 682, col: 57, offset: 21639},
+																				pos:   position{line: 682, col: 57, offset: 21640},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 682, col: 63, offset: 21645},
+																					pos: position{line: 682, col: 63, offset: 21646},
 																					expr: &actionExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 686, col: 17, offset: 21768},
+																							pos: position{line: 686, col: 17, offset: 21769},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 686, col: 17, offset: 21768},
+																									pos:        position{line: 686, col: 17, offset: 21769},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 686, col: 21, offset: 21772},
+																									pos:   position{line: 686, col: 21, offset: 21773},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 686, col: 28, offset: 21779},
+																													pos:        position{line: 686, col: 28, offset: 21780},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15594,12 +15594,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 688, col: 9, offset: 21833},
+																													pos: position{line: 688, col: 9, offset: 21834},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 688, col: 9, offset: 21833},
+																														pos:        position{line: 688, col: 9, offset: 21834},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15616,7 +15616,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 682, col: 79, offset: 21661},
+																				pos:        position{line: 682, col: 79, offset: 21662},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15631,16 +15631,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 642, col: 32, offset: 20169},
+											pos:        position{line: 642, col: 32, offset: 20170},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91400},
+											pos: position{line: 2886, col: 10, offset: 91401},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91400},
+												pos:        position{line: 2886, col: 10, offset: 91401},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15648,12 +15648,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 644, col: 12, offset: 20254},
+											pos: position{line: 644, col: 12, offset: 20255},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 644, col: 12, offset: 20254},
+												pos: position{line: 644, col: 12, offset: 20255},
 												expr: &charClassMatcher{
-													pos:        position{line: 644, col: 12, offset: 20254},
+													pos:        position{line: 644, col: 12, offset: 20255},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15671,32 +15671,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 704, col: 1, offset: 22395},
+			pos:  position{line: 704, col: 1, offset: 22396},
 			expr: &choiceExpr{
-				pos: position{line: 704, col: 19, offset: 22413},
+				pos: position{line: 704, col: 19, offset: 22414},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 706, col: 27, offset: 22489},
+						pos: position{line: 706, col: 27, offset: 22490},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 706, col: 27, offset: 22489},
+							pos: position{line: 706, col: 27, offset: 22490},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 706, col: 27, offset: 22489},
+									pos:        position{line: 706, col: 27, offset: 22490},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 706, col: 32, offset: 22494},
+									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 7, offset: 91052},
+										pos: position{line: 2871, col: 7, offset: 91053},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 7, offset: 91052},
+											pos: position{line: 2871, col: 7, offset: 91053},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 7, offset: 91052},
+												pos:        position{line: 2871, col: 7, offset: 91053},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15706,12 +15706,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 706, col: 40, offset: 22502},
+									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91400},
+										pos: position{line: 2886, col: 10, offset: 91401},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91400},
+											pos:        position{line: 2886, col: 10, offset: 91401},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15720,26 +15720,26 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 706, col: 47, offset: 22509},
+									pos:        position{line: 706, col: 47, offset: 22510},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 706, col: 51, offset: 22513},
+									pos:   position{line: 706, col: 51, offset: 22514},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 716, col: 24, offset: 22914},
+										pos: position{line: 716, col: 24, offset: 22915},
 										expr: &choiceExpr{
-											pos: position{line: 717, col: 5, offset: 22920},
+											pos: position{line: 717, col: 5, offset: 22921},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 717, col: 6, offset: 22921},
+													pos: position{line: 717, col: 6, offset: 22922},
 													run: (*parser).callonCrossReference16,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 717, col: 6, offset: 22921},
+														pos: position{line: 717, col: 6, offset: 22922},
 														expr: &charClassMatcher{
-															pos:        position{line: 717, col: 6, offset: 22921},
+															pos:        position{line: 717, col: 6, offset: 22922},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15748,19 +15748,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 665, col: 5, offset: 20964},
+													pos: position{line: 665, col: 5, offset: 20965},
 													run: (*parser).callonCrossReference19,
 													expr: &seqExpr{
-														pos: position{line: 665, col: 5, offset: 20964},
+														pos: position{line: 665, col: 5, offset: 20965},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 665, col: 5, offset: 20964},
+																pos:        position{line: 665, col: 5, offset: 20965},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 665, col: 13, offset: 20972},
+																pos:   position{line: 665, col: 13, offset: 20973},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15780,8 +15780,8 @@ var g = &grammar{
 																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 319, col: 29, offset: 9758},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15792,7 +15792,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 665, col: 32, offset: 20991},
+																pos:        position{line: 665, col: 32, offset: 20992},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15801,19 +15801,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 672, col: 5, offset: 21232},
+													pos: position{line: 672, col: 5, offset: 21233},
 													run: (*parser).callonCrossReference29,
 													expr: &seqExpr{
-														pos: position{line: 672, col: 5, offset: 21232},
+														pos: position{line: 672, col: 5, offset: 21233},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 672, col: 5, offset: 21232},
+																pos:        position{line: 672, col: 5, offset: 21233},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 672, col: 9, offset: 21236},
+																pos:   position{line: 672, col: 9, offset: 21237},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15833,8 +15833,8 @@ var g = &grammar{
 																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 319, col: 29, offset: 9758},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15845,7 +15845,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 672, col: 28, offset: 21255},
+																pos:        position{line: 672, col: 28, offset: 21256},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15854,19 +15854,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 678, col: 25, offset: 21436},
+													pos: position{line: 678, col: 25, offset: 21437},
 													run: (*parser).callonCrossReference39,
 													expr: &seqExpr{
-														pos: position{line: 678, col: 25, offset: 21436},
+														pos: position{line: 678, col: 25, offset: 21437},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 678, col: 25, offset: 21436},
+																pos:        position{line: 678, col: 25, offset: 21437},
 																val:        "{counter:",
 																ignoreCase: false,
 																want:       "\"{counter:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 678, col: 37, offset: 21448},
+																pos:   position{line: 678, col: 37, offset: 21449},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15886,8 +15886,8 @@ var g = &grammar{
 																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 319, col: 29, offset: 9758},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15898,33 +15898,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 678, col: 56, offset: 21467},
+																pos:   position{line: 678, col: 56, offset: 21468},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 678, col: 62, offset: 21473},
+																	pos: position{line: 678, col: 62, offset: 21474},
 																	expr: &actionExpr{
-																		pos: position{line: 686, col: 17, offset: 21768},
+																		pos: position{line: 686, col: 17, offset: 21769},
 																		run: (*parser).callonCrossReference50,
 																		expr: &seqExpr{
-																			pos: position{line: 686, col: 17, offset: 21768},
+																			pos: position{line: 686, col: 17, offset: 21769},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 686, col: 17, offset: 21768},
+																					pos:        position{line: 686, col: 17, offset: 21769},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 686, col: 21, offset: 21772},
+																					pos:   position{line: 686, col: 21, offset: 21773},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 686, col: 28, offset: 21779},
+																						pos: position{line: 686, col: 28, offset: 21780},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								run: (*parser).callonCrossReference55,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 686, col: 28, offset: 21779},
+																									pos:        position{line: 686, col: 28, offset: 21780},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -15932,12 +15932,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 688, col: 9, offset: 21833},
+																								pos: position{line: 688, col: 9, offset: 21834},
 																								run: (*parser).callonCrossReference57,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 688, col: 9, offset: 21833},
+																									pos: position{line: 688, col: 9, offset: 21834},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 688, col: 9, offset: 21833},
+																										pos:        position{line: 688, col: 9, offset: 21834},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -15954,7 +15954,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 678, col: 78, offset: 21489},
+																pos:        position{line: 678, col: 78, offset: 21490},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15963,19 +15963,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 682, col: 25, offset: 21607},
+													pos: position{line: 682, col: 25, offset: 21608},
 													run: (*parser).callonCrossReference61,
 													expr: &seqExpr{
-														pos: position{line: 682, col: 25, offset: 21607},
+														pos: position{line: 682, col: 25, offset: 21608},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 682, col: 25, offset: 21607},
+																pos:        position{line: 682, col: 25, offset: 21608},
 																val:        "{counter2:",
 																ignoreCase: false,
 																want:       "\"{counter2:\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 682, col: 38, offset: 21620},
+																pos:   position{line: 682, col: 38, offset: 21621},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
@@ -15995,8 +15995,8 @@ var g = &grammar{
 																				pos: position{line: 319, col: 28, offset: 9757},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 319, col: 29, offset: 9758},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -16007,33 +16007,33 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 682, col: 57, offset: 21639},
+																pos:   position{line: 682, col: 57, offset: 21640},
 																label: "start",
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 682, col: 63, offset: 21645},
+																	pos: position{line: 682, col: 63, offset: 21646},
 																	expr: &actionExpr{
-																		pos: position{line: 686, col: 17, offset: 21768},
+																		pos: position{line: 686, col: 17, offset: 21769},
 																		run: (*parser).callonCrossReference72,
 																		expr: &seqExpr{
-																			pos: position{line: 686, col: 17, offset: 21768},
+																			pos: position{line: 686, col: 17, offset: 21769},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 686, col: 17, offset: 21768},
+																					pos:        position{line: 686, col: 17, offset: 21769},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 686, col: 21, offset: 21772},
+																					pos:   position{line: 686, col: 21, offset: 21773},
 																					label: "start",
 																					expr: &choiceExpr{
-																						pos: position{line: 686, col: 28, offset: 21779},
+																						pos: position{line: 686, col: 28, offset: 21780},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 686, col: 28, offset: 21779},
+																								pos: position{line: 686, col: 28, offset: 21780},
 																								run: (*parser).callonCrossReference77,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 686, col: 28, offset: 21779},
+																									pos:        position{line: 686, col: 28, offset: 21780},
 																									val:        "[A-Za-z]",
 																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																									ignoreCase: false,
@@ -16041,12 +16041,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 688, col: 9, offset: 21833},
+																								pos: position{line: 688, col: 9, offset: 21834},
 																								run: (*parser).callonCrossReference79,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 688, col: 9, offset: 21833},
+																									pos: position{line: 688, col: 9, offset: 21834},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 688, col: 9, offset: 21833},
+																										pos:        position{line: 688, col: 9, offset: 21834},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -16063,7 +16063,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 682, col: 79, offset: 21661},
+																pos:        position{line: 682, col: 79, offset: 21662},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -16072,10 +16072,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 721, col: 8, offset: 23174},
+													pos: position{line: 721, col: 8, offset: 23175},
 													run: (*parser).callonCrossReference83,
 													expr: &litMatcher{
-														pos:        position{line: 721, col: 8, offset: 23174},
+														pos:        position{line: 721, col: 8, offset: 23175},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -16086,7 +16086,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 706, col: 79, offset: 22541},
+									pos:        position{line: 706, col: 79, offset: 22542},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -16095,27 +16095,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 708, col: 9, offset: 22614},
+						pos: position{line: 708, col: 9, offset: 22615},
 						run: (*parser).callonCrossReference86,
 						expr: &seqExpr{
-							pos: position{line: 708, col: 9, offset: 22614},
+							pos: position{line: 708, col: 9, offset: 22615},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 708, col: 9, offset: 22614},
+									pos:        position{line: 708, col: 9, offset: 22615},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 708, col: 14, offset: 22619},
+									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 7, offset: 91052},
+										pos: position{line: 2871, col: 7, offset: 91053},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 7, offset: 91052},
+											pos: position{line: 2871, col: 7, offset: 91053},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 7, offset: 91052},
+												pos:        position{line: 2871, col: 7, offset: 91053},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16125,7 +16125,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 708, col: 22, offset: 22627},
+									pos:        position{line: 708, col: 22, offset: 22628},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -16134,7 +16134,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 704, col: 44, offset: 22438},
+						pos:  position{line: 704, col: 44, offset: 22439},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -16142,58 +16142,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 712, col: 1, offset: 22698},
+			pos:  position{line: 712, col: 1, offset: 22699},
 			expr: &actionExpr{
-				pos: position{line: 712, col: 27, offset: 22724},
+				pos: position{line: 712, col: 27, offset: 22725},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 712, col: 27, offset: 22724},
+					pos: position{line: 712, col: 27, offset: 22725},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 712, col: 27, offset: 22724},
+							pos:        position{line: 712, col: 27, offset: 22725},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 712, col: 35, offset: 22732},
+							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2840, col: 17, offset: 90063},
+								pos: position{line: 2840, col: 17, offset: 90064},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2840, col: 17, offset: 90063},
+									pos:   position{line: 2840, col: 17, offset: 90064},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2857, col: 5, offset: 90517},
+										pos: position{line: 2857, col: 5, offset: 90518},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2857, col: 5, offset: 90517},
+											pos:   position{line: 2857, col: 5, offset: 90518},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2857, col: 14, offset: 90526},
+												pos: position{line: 2857, col: 14, offset: 90527},
 												expr: &choiceExpr{
-													pos: position{line: 2858, col: 9, offset: 90536},
+													pos: position{line: 2858, col: 9, offset: 90537},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2858, col: 9, offset: 90536},
+															pos: position{line: 2858, col: 9, offset: 90537},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2858, col: 9, offset: 90536},
+																pos: position{line: 2858, col: 9, offset: 90537},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2858, col: 9, offset: 90536},
+																		pos: position{line: 2858, col: 9, offset: 90537},
 																		expr: &litMatcher{
-																			pos:        position{line: 2858, col: 10, offset: 90537},
+																			pos:        position{line: 2858, col: 10, offset: 90538},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2859, col: 9, offset: 90565},
+																		pos: position{line: 2859, col: 9, offset: 90566},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2859, col: 10, offset: 90566},
+																			pos:        position{line: 2859, col: 10, offset: 90567},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2862, col: 11, offset: 90778},
+															pos: position{line: 2862, col: 11, offset: 90779},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2862, col: 11, offset: 90778},
+																	pos:        position{line: 2862, col: 11, offset: 90779},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2862, col: 19, offset: 90786},
+																	pos: position{line: 2862, col: 19, offset: 90787},
 																	expr: &seqExpr{
-																		pos: position{line: 2862, col: 21, offset: 90788},
+																		pos: position{line: 2862, col: 21, offset: 90789},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2862, col: 21, offset: 90788},
+																				pos: position{line: 2862, col: 21, offset: 90789},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91400},
+																					pos: position{line: 2886, col: 10, offset: 91401},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91400},
+																						pos:        position{line: 2886, col: 10, offset: 91401},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2862, col: 28, offset: 90795},
+																				pos: position{line: 2862, col: 28, offset: 90796},
 																				expr: &notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -16247,35 +16247,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 656, col: 5, offset: 20754},
+															pos: position{line: 656, col: 5, offset: 20755},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 656, col: 5, offset: 20754},
+																pos: position{line: 656, col: 5, offset: 20755},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 656, col: 5, offset: 20754},
+																		pos: position{line: 656, col: 5, offset: 20755},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 5, offset: 20826},
+																		pos:   position{line: 659, col: 5, offset: 20827},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 659, col: 14, offset: 20835},
+																			pos: position{line: 659, col: 14, offset: 20836},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 20964},
+																					pos: position{line: 665, col: 5, offset: 20965},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 20964},
+																								pos:        position{line: 665, col: 5, offset: 20965},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 13, offset: 20972},
+																								pos:   position{line: 665, col: 13, offset: 20973},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16295,8 +16295,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16307,7 +16307,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 32, offset: 20991},
+																								pos:        position{line: 665, col: 32, offset: 20992},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16316,19 +16316,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 672, col: 5, offset: 21232},
+																					pos: position{line: 672, col: 5, offset: 21233},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 672, col: 5, offset: 21232},
+																								pos:        position{line: 672, col: 5, offset: 21233},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 9, offset: 21236},
+																								pos:   position{line: 672, col: 9, offset: 21237},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16348,8 +16348,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16360,7 +16360,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 672, col: 28, offset: 21255},
+																								pos:        position{line: 672, col: 28, offset: 21256},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16369,19 +16369,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 678, col: 25, offset: 21436},
+																					pos: position{line: 678, col: 25, offset: 21437},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 678, col: 25, offset: 21436},
+																						pos: position{line: 678, col: 25, offset: 21437},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 678, col: 25, offset: 21436},
+																								pos:        position{line: 678, col: 25, offset: 21437},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 678, col: 37, offset: 21448},
+																								pos:   position{line: 678, col: 37, offset: 21449},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16401,8 +16401,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16413,33 +16413,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 678, col: 56, offset: 21467},
+																								pos:   position{line: 678, col: 56, offset: 21468},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 678, col: 62, offset: 21473},
+																									pos: position{line: 678, col: 62, offset: 21474},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 17, offset: 21768},
+																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 686, col: 17, offset: 21768},
+																													pos:        position{line: 686, col: 17, offset: 21769},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 686, col: 21, offset: 21772},
+																													pos:   position{line: 686, col: 21, offset: 21773},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 686, col: 28, offset: 21779},
+																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16447,12 +16447,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 688, col: 9, offset: 21833},
+																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 688, col: 9, offset: 21833},
+																																		pos:        position{line: 688, col: 9, offset: 21834},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16469,7 +16469,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 678, col: 78, offset: 21489},
+																								pos:        position{line: 678, col: 78, offset: 21490},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16478,19 +16478,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 682, col: 25, offset: 21607},
+																					pos: position{line: 682, col: 25, offset: 21608},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 682, col: 25, offset: 21607},
+																						pos: position{line: 682, col: 25, offset: 21608},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 682, col: 25, offset: 21607},
+																								pos:        position{line: 682, col: 25, offset: 21608},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 682, col: 38, offset: 21620},
+																								pos:   position{line: 682, col: 38, offset: 21621},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -16510,8 +16510,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -16522,33 +16522,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 682, col: 57, offset: 21639},
+																								pos:   position{line: 682, col: 57, offset: 21640},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 682, col: 63, offset: 21645},
+																									pos: position{line: 682, col: 63, offset: 21646},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 17, offset: 21768},
+																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 686, col: 17, offset: 21768},
+																													pos:        position{line: 686, col: 17, offset: 21769},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 686, col: 21, offset: 21772},
+																													pos:   position{line: 686, col: 21, offset: 21773},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 686, col: 28, offset: 21779},
+																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16556,12 +16556,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 688, col: 9, offset: 21833},
+																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 688, col: 9, offset: 21833},
+																																		pos:        position{line: 688, col: 9, offset: 21834},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16578,7 +16578,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 682, col: 79, offset: 21661},
+																								pos:        position{line: 682, col: 79, offset: 21662},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16593,27 +16593,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1226, col: 23, offset: 37842},
+															pos: position{line: 1226, col: 23, offset: 37843},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1226, col: 23, offset: 37842},
+																pos: position{line: 1226, col: 23, offset: 37843},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 32, offset: 37810},
+																		pos:        position{line: 1224, col: 32, offset: 37811},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1226, col: 51, offset: 37870},
+																		pos:   position{line: 1226, col: 51, offset: 37871},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1226, col: 56, offset: 37875},
+																			pos: position{line: 1226, col: 56, offset: 37876},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1226, col: 56, offset: 37875},
+																				pos: position{line: 1226, col: 56, offset: 37876},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1226, col: 56, offset: 37875},
+																					pos:        position{line: 1226, col: 56, offset: 37876},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16623,7 +16623,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 32, offset: 37810},
+																		pos:        position{line: 1224, col: 32, offset: 37811},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2865, col: 11, offset: 90915},
+															pos: position{line: 2865, col: 11, offset: 90916},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 11, offset: 90915},
+																pos:        position{line: 2865, col: 11, offset: 90916},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16650,10 +16650,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 712, col: 54, offset: 22751},
+							pos:   position{line: 712, col: 54, offset: 22752},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 712, col: 66, offset: 22763},
+								pos:  position{line: 712, col: 66, offset: 22764},
 								name: "InlineAttributes",
 							},
 						},
@@ -16663,29 +16663,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1016, col: 1, offset: 31637},
+			pos:  position{line: 1016, col: 1, offset: 31638},
 			expr: &actionExpr{
-				pos: position{line: 1017, col: 5, offset: 31670},
+				pos: position{line: 1017, col: 5, offset: 31671},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1017, col: 5, offset: 31670},
+					pos: position{line: 1017, col: 5, offset: 31671},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1017, col: 5, offset: 31670},
+							pos:        position{line: 1017, col: 5, offset: 31671},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1017, col: 11, offset: 31676},
+							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2836, col: 14, offset: 89993},
+								pos: position{line: 2836, col: 14, offset: 89994},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2836, col: 14, offset: 89993},
+									pos: position{line: 2836, col: 14, offset: 89994},
 									expr: &charClassMatcher{
-										pos:        position{line: 2836, col: 14, offset: 89993},
+										pos:        position{line: 2836, col: 14, offset: 89994},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -16738,53 +16738,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1128, col: 1, offset: 34593},
+			pos:  position{line: 1128, col: 1, offset: 34594},
 			expr: &actionExpr{
-				pos: position{line: 1129, col: 5, offset: 34616},
+				pos: position{line: 1129, col: 5, offset: 34617},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1129, col: 5, offset: 34616},
+					pos: position{line: 1129, col: 5, offset: 34617},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1129, col: 5, offset: 34616},
+							pos: position{line: 1129, col: 5, offset: 34617},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1132, col: 5, offset: 34677},
+							pos: position{line: 1132, col: 5, offset: 34678},
 							expr: &choiceExpr{
-								pos: position{line: 1132, col: 6, offset: 34678},
+								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80371},
+										pos: position{line: 2496, col: 22, offset: 80372},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80592},
+													pos:        position{line: 2501, col: 31, offset: 80593},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80597},
+													pos: position{line: 2501, col: 36, offset: 80598},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80598},
+														pos:        position{line: 2501, col: 37, offset: 80599},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80398},
+													pos:   position{line: 2496, col: 49, offset: 80399},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89926},
+														pos: position{line: 2832, col: 13, offset: 89927},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89926},
+																pos:        position{line: 2832, col: 13, offset: 89927},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -16835,39 +16835,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26988},
+										pos: position{line: 840, col: 5, offset: 26989},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26988},
+											pos: position{line: 840, col: 5, offset: 26989},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26988},
+													pos:   position{line: 840, col: 5, offset: 26989},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 5, offset: 24248},
+														pos: position{line: 760, col: 5, offset: 24249},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 5, offset: 24248},
+															pos: position{line: 760, col: 5, offset: 24249},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 760, col: 5, offset: 24248},
+																	pos:   position{line: 760, col: 5, offset: 24249},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 760, col: 16, offset: 24259},
+																		pos: position{line: 760, col: 16, offset: 24260},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 760, col: 16, offset: 24259},
+																			pos: position{line: 760, col: 16, offset: 24260},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 760, col: 16, offset: 24259},
+																					pos:        position{line: 760, col: 16, offset: 24260},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 760, col: 23, offset: 24266},
+																					pos: position{line: 760, col: 23, offset: 24267},
 																					expr: &litMatcher{
-																						pos:        position{line: 760, col: 23, offset: 24266},
+																						pos:        position{line: 760, col: 23, offset: 24267},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16878,12 +16878,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 762, col: 8, offset: 24350},
+																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -16934,56 +16934,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 27027},
+													pos: position{line: 841, col: 5, offset: 27028},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27119},
+													pos:   position{line: 844, col: 5, offset: 27120},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 5, offset: 27511},
+														pos: position{line: 859, col: 5, offset: 27512},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 6, offset: 27512},
+															pos: position{line: 859, col: 6, offset: 27513},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 6, offset: 27512},
+																pos: position{line: 859, col: 6, offset: 27513},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 6, offset: 27512},
+																		pos: position{line: 859, col: 6, offset: 27513},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27353},
+																			pos: position{line: 852, col: 5, offset: 27354},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27353},
+																					pos: position{line: 852, col: 5, offset: 27354},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27353},
+																							pos:   position{line: 852, col: 5, offset: 27354},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24248},
+																								pos: position{line: 760, col: 5, offset: 24249},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24248},
+																											pos:   position{line: 760, col: 5, offset: 24249},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24259},
+																												pos: position{line: 760, col: 16, offset: 24260},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24259},
+																															pos:        position{line: 760, col: 16, offset: 24260},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24266},
+																															pos: position{line: 760, col: 23, offset: 24267},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24266},
+																																pos:        position{line: 760, col: 23, offset: 24267},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16994,12 +16994,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24350},
+																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -17050,45 +17050,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27384},
+																							pos: position{line: 853, col: 5, offset: 27385},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27542},
+																		pos:   position{line: 860, col: 5, offset: 27543},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -17145,41 +17145,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 845, col: 5, offset: 27153},
+													pos: position{line: 845, col: 5, offset: 27154},
 													expr: &choiceExpr{
-														pos: position{line: 852, col: 5, offset: 27353},
+														pos: position{line: 852, col: 5, offset: 27354},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 852, col: 5, offset: 27353},
+																pos: position{line: 852, col: 5, offset: 27354},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 852, col: 5, offset: 27353},
+																		pos:   position{line: 852, col: 5, offset: 27354},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24248},
+																			pos: position{line: 760, col: 5, offset: 24249},
 																			run: (*parser).callonDocumentHeader97,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24248},
+																						pos:   position{line: 760, col: 5, offset: 24249},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24259},
+																							pos: position{line: 760, col: 16, offset: 24260},
 																							run: (*parser).callonDocumentHeader100,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24259},
+																										pos:        position{line: 760, col: 16, offset: 24260},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24266},
+																										pos: position{line: 760, col: 23, offset: 24267},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24266},
+																											pos:        position{line: 760, col: 23, offset: 24267},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17190,12 +17190,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24350},
+																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -17246,15 +17246,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 853, col: 5, offset: 27384},
+																		pos: position{line: 853, col: 5, offset: 27385},
 																		run: (*parser).callonDocumentHeader116,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -17267,49 +17267,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1133, col: 5, offset: 34774},
+							pos:   position{line: 1133, col: 5, offset: 34775},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1133, col: 12, offset: 34781},
+								pos:  position{line: 1133, col: 12, offset: 34782},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1134, col: 5, offset: 34800},
+							pos: position{line: 1134, col: 5, offset: 34801},
 							expr: &choiceExpr{
-								pos: position{line: 1134, col: 6, offset: 34801},
+								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80371},
+										pos: position{line: 2496, col: 22, offset: 80372},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80592},
+													pos:        position{line: 2501, col: 31, offset: 80593},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80597},
+													pos: position{line: 2501, col: 36, offset: 80598},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80598},
+														pos:        position{line: 2501, col: 37, offset: 80599},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80398},
+													pos:   position{line: 2496, col: 49, offset: 80399},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89926},
+														pos: position{line: 2832, col: 13, offset: 89927},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89926},
+																pos:        position{line: 2832, col: 13, offset: 89927},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -17360,39 +17360,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26988},
+										pos: position{line: 840, col: 5, offset: 26989},
 										run: (*parser).callonDocumentHeader140,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26988},
+											pos: position{line: 840, col: 5, offset: 26989},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26988},
+													pos:   position{line: 840, col: 5, offset: 26989},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 5, offset: 24248},
+														pos: position{line: 760, col: 5, offset: 24249},
 														run: (*parser).callonDocumentHeader143,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 5, offset: 24248},
+															pos: position{line: 760, col: 5, offset: 24249},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 760, col: 5, offset: 24248},
+																	pos:   position{line: 760, col: 5, offset: 24249},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 760, col: 16, offset: 24259},
+																		pos: position{line: 760, col: 16, offset: 24260},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &seqExpr{
-																			pos: position{line: 760, col: 16, offset: 24259},
+																			pos: position{line: 760, col: 16, offset: 24260},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 760, col: 16, offset: 24259},
+																					pos:        position{line: 760, col: 16, offset: 24260},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 760, col: 23, offset: 24266},
+																					pos: position{line: 760, col: 23, offset: 24267},
 																					expr: &litMatcher{
-																						pos:        position{line: 760, col: 23, offset: 24266},
+																						pos:        position{line: 760, col: 23, offset: 24267},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -17403,12 +17403,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 762, col: 8, offset: 24350},
+																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -17459,56 +17459,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 27027},
+													pos: position{line: 841, col: 5, offset: 27028},
 													run: (*parser).callonDocumentHeader162,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27119},
+													pos:   position{line: 844, col: 5, offset: 27120},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 5, offset: 27511},
+														pos: position{line: 859, col: 5, offset: 27512},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 6, offset: 27512},
+															pos: position{line: 859, col: 6, offset: 27513},
 															run: (*parser).callonDocumentHeader165,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 6, offset: 27512},
+																pos: position{line: 859, col: 6, offset: 27513},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 6, offset: 27512},
+																		pos: position{line: 859, col: 6, offset: 27513},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27353},
+																			pos: position{line: 852, col: 5, offset: 27354},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27353},
+																					pos: position{line: 852, col: 5, offset: 27354},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27353},
+																							pos:   position{line: 852, col: 5, offset: 27354},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24248},
+																								pos: position{line: 760, col: 5, offset: 24249},
 																								run: (*parser).callonDocumentHeader171,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24248},
+																											pos:   position{line: 760, col: 5, offset: 24249},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24259},
+																												pos: position{line: 760, col: 16, offset: 24260},
 																												run: (*parser).callonDocumentHeader174,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24259},
+																															pos:        position{line: 760, col: 16, offset: 24260},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24266},
+																															pos: position{line: 760, col: 23, offset: 24267},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24266},
+																																pos:        position{line: 760, col: 23, offset: 24267},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17519,12 +17519,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24350},
+																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -17575,45 +17575,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27384},
+																							pos: position{line: 853, col: 5, offset: 27385},
 																							run: (*parser).callonDocumentHeader190,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27542},
+																		pos:   position{line: 860, col: 5, offset: 27543},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonDocumentHeader194,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -17670,41 +17670,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 845, col: 5, offset: 27153},
+													pos: position{line: 845, col: 5, offset: 27154},
 													expr: &choiceExpr{
-														pos: position{line: 852, col: 5, offset: 27353},
+														pos: position{line: 852, col: 5, offset: 27354},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 852, col: 5, offset: 27353},
+																pos: position{line: 852, col: 5, offset: 27354},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 852, col: 5, offset: 27353},
+																		pos:   position{line: 852, col: 5, offset: 27354},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24248},
+																			pos: position{line: 760, col: 5, offset: 24249},
 																			run: (*parser).callonDocumentHeader214,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24248},
+																						pos:   position{line: 760, col: 5, offset: 24249},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24259},
+																							pos: position{line: 760, col: 16, offset: 24260},
 																							run: (*parser).callonDocumentHeader217,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24259},
+																										pos:        position{line: 760, col: 16, offset: 24260},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24266},
+																										pos: position{line: 760, col: 23, offset: 24267},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24266},
+																											pos:        position{line: 760, col: 23, offset: 24267},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17715,12 +17715,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24350},
+																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -17771,15 +17771,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 853, col: 5, offset: 27384},
+																		pos: position{line: 853, col: 5, offset: 27385},
 																		run: (*parser).callonDocumentHeader233,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -17792,41 +17792,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1135, col: 5, offset: 34897},
+							pos:   position{line: 1135, col: 5, offset: 34898},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1135, col: 24, offset: 34916},
+								pos: position{line: 1135, col: 24, offset: 34917},
 								expr: &actionExpr{
-									pos: position{line: 1146, col: 5, offset: 35291},
+									pos: position{line: 1146, col: 5, offset: 35292},
 									run: (*parser).callonDocumentHeader238,
 									expr: &seqExpr{
-										pos: position{line: 1146, col: 5, offset: 35291},
+										pos: position{line: 1146, col: 5, offset: 35292},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1146, col: 5, offset: 35291},
+												pos: position{line: 1146, col: 5, offset: 35292},
 												expr: &litMatcher{
-													pos:        position{line: 1146, col: 6, offset: 35292},
+													pos:        position{line: 1146, col: 6, offset: 35293},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1147, col: 5, offset: 35300},
+												pos:   position{line: 1147, col: 5, offset: 35301},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1153, col: 20, offset: 35556},
+													pos: position{line: 1153, col: 20, offset: 35557},
 													run: (*parser).callonDocumentHeader243,
 													expr: &seqExpr{
-														pos: position{line: 1153, col: 20, offset: 35556},
+														pos: position{line: 1153, col: 20, offset: 35557},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1153, col: 20, offset: 35556},
+																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17835,37 +17835,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1153, col: 27, offset: 35563},
+																pos:   position{line: 1153, col: 27, offset: 35564},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1153, col: 36, offset: 35572},
+																	pos: position{line: 1153, col: 36, offset: 35573},
 																	expr: &actionExpr{
-																		pos: position{line: 1158, col: 5, offset: 35685},
+																		pos: position{line: 1158, col: 5, offset: 35686},
 																		run: (*parser).callonDocumentHeader250,
 																		expr: &seqExpr{
-																			pos: position{line: 1158, col: 5, offset: 35685},
+																			pos: position{line: 1158, col: 5, offset: 35686},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1158, col: 5, offset: 35685},
+																					pos:   position{line: 1158, col: 5, offset: 35686},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1158, col: 14, offset: 35694},
+																						pos: position{line: 1158, col: 14, offset: 35695},
 																						expr: &actionExpr{
-																							pos: position{line: 1169, col: 5, offset: 36074},
+																							pos: position{line: 1169, col: 5, offset: 36075},
 																							run: (*parser).callonDocumentHeader254,
 																							expr: &seqExpr{
-																								pos: position{line: 1169, col: 5, offset: 36074},
+																								pos: position{line: 1169, col: 5, offset: 36075},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1169, col: 5, offset: 36074},
+																										pos:   position{line: 1169, col: 5, offset: 36075},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1169, col: 12, offset: 36081},
+																											pos: position{line: 1169, col: 12, offset: 36082},
 																											run: (*parser).callonDocumentHeader257,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1169, col: 12, offset: 36081},
+																												pos: position{line: 1169, col: 12, offset: 36082},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1169, col: 12, offset: 36081},
+																													pos:        position{line: 1169, col: 12, offset: 36082},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17875,12 +17875,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1172, col: 5, offset: 36161},
+																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17889,17 +17889,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1173, col: 5, offset: 36172},
+																										pos:   position{line: 1173, col: 5, offset: 36173},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1173, col: 11, offset: 36178},
+																											pos: position{line: 1173, col: 11, offset: 36179},
 																											expr: &actionExpr{
-																												pos: position{line: 1173, col: 12, offset: 36179},
+																												pos: position{line: 1173, col: 12, offset: 36180},
 																												run: (*parser).callonDocumentHeader265,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1173, col: 12, offset: 36179},
+																													pos: position{line: 1173, col: 12, offset: 36180},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1173, col: 12, offset: 36179},
+																														pos:        position{line: 1173, col: 12, offset: 36180},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17910,12 +17910,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1176, col: 5, offset: 36260},
+																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17924,17 +17924,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1177, col: 5, offset: 36271},
+																										pos:   position{line: 1177, col: 5, offset: 36272},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1177, col: 11, offset: 36277},
+																											pos: position{line: 1177, col: 11, offset: 36278},
 																											expr: &actionExpr{
-																												pos: position{line: 1177, col: 12, offset: 36278},
+																												pos: position{line: 1177, col: 12, offset: 36279},
 																												run: (*parser).callonDocumentHeader273,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1177, col: 12, offset: 36278},
+																													pos: position{line: 1177, col: 12, offset: 36279},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1177, col: 12, offset: 36278},
+																														pos:        position{line: 1177, col: 12, offset: 36279},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17945,12 +17945,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1180, col: 5, offset: 36357},
+																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17964,38 +17964,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1158, col: 40, offset: 35720},
+																					pos:   position{line: 1158, col: 40, offset: 35721},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1158, col: 46, offset: 35726},
+																						pos: position{line: 1158, col: 46, offset: 35727},
 																						expr: &actionExpr{
-																							pos: position{line: 1186, col: 5, offset: 36479},
+																							pos: position{line: 1186, col: 5, offset: 36480},
 																							run: (*parser).callonDocumentHeader281,
 																							expr: &seqExpr{
-																								pos: position{line: 1186, col: 5, offset: 36479},
+																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2903, col: 11, offset: 91734},
+																										pos: position{line: 2903, col: 11, offset: 91735},
 																										expr: &anyMatcher{
-																											line: 2903, col: 13, offset: 91736,
+																											line: 2903, col: 13, offset: 91737,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1187, col: 5, offset: 36491},
+																										pos:        position{line: 1187, col: 5, offset: 36492},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1188, col: 5, offset: 36500},
+																										pos:   position{line: 1188, col: 5, offset: 36501},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1188, col: 12, offset: 36507},
+																											pos: position{line: 1188, col: 12, offset: 36508},
 																											run: (*parser).callonDocumentHeader287,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1188, col: 13, offset: 36508},
+																												pos: position{line: 1188, col: 13, offset: 36509},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1188, col: 13, offset: 36508},
+																													pos:        position{line: 1188, col: 13, offset: 36509},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -18005,7 +18005,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1191, col: 5, offset: 36568},
+																										pos:        position{line: 1191, col: 5, offset: 36569},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -18016,12 +18016,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1158, col: 69, offset: 35749},
+																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18030,21 +18030,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1158, col: 76, offset: 35756},
+																					pos: position{line: 1158, col: 76, offset: 35757},
 																					expr: &litMatcher{
-																						pos:        position{line: 1158, col: 76, offset: 35756},
+																						pos:        position{line: 1158, col: 76, offset: 35757},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1158, col: 81, offset: 35761},
+																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18053,7 +18053,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1159, col: 5, offset: 35773},
+																					pos: position{line: 1159, col: 5, offset: 35774},
 																					run: (*parser).callonDocumentHeader299,
 																				},
 																			},
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -18104,41 +18104,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1148, col: 5, offset: 35330},
+												pos: position{line: 1148, col: 5, offset: 35331},
 												expr: &choiceExpr{
-													pos: position{line: 1148, col: 6, offset: 35331},
+													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80371},
+															pos: position{line: 2496, col: 22, offset: 80372},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80371},
+																pos: position{line: 2496, col: 22, offset: 80372},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80592},
+																		pos:        position{line: 2501, col: 31, offset: 80593},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80597},
+																		pos: position{line: 2501, col: 36, offset: 80598},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80598},
+																			pos:        position{line: 2501, col: 37, offset: 80599},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80398},
+																		pos:   position{line: 2496, col: 49, offset: 80399},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89926},
+																			pos: position{line: 2832, col: 13, offset: 89927},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89926},
+																				pos: position{line: 2832, col: 13, offset: 89927},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89926},
+																					pos:        position{line: 2832, col: 13, offset: 89927},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -18189,39 +18189,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 840, col: 5, offset: 26988},
+															pos: position{line: 840, col: 5, offset: 26989},
 															run: (*parser).callonDocumentHeader327,
 															expr: &seqExpr{
-																pos: position{line: 840, col: 5, offset: 26988},
+																pos: position{line: 840, col: 5, offset: 26989},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26988},
+																		pos:   position{line: 840, col: 5, offset: 26989},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24248},
+																			pos: position{line: 760, col: 5, offset: 24249},
 																			run: (*parser).callonDocumentHeader330,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24248},
+																						pos:   position{line: 760, col: 5, offset: 24249},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24259},
+																							pos: position{line: 760, col: 16, offset: 24260},
 																							run: (*parser).callonDocumentHeader333,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24259},
+																										pos:        position{line: 760, col: 16, offset: 24260},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24266},
+																										pos: position{line: 760, col: 23, offset: 24267},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24266},
+																											pos:        position{line: 760, col: 23, offset: 24267},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -18232,12 +18232,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24350},
+																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -18288,56 +18288,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 841, col: 5, offset: 27027},
+																		pos: position{line: 841, col: 5, offset: 27028},
 																		run: (*parser).callonDocumentHeader349,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 844, col: 5, offset: 27119},
+																		pos:   position{line: 844, col: 5, offset: 27120},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 859, col: 5, offset: 27511},
+																			pos: position{line: 859, col: 5, offset: 27512},
 																			expr: &actionExpr{
-																				pos: position{line: 859, col: 6, offset: 27512},
+																				pos: position{line: 859, col: 6, offset: 27513},
 																				run: (*parser).callonDocumentHeader352,
 																				expr: &seqExpr{
-																					pos: position{line: 859, col: 6, offset: 27512},
+																					pos: position{line: 859, col: 6, offset: 27513},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 859, col: 6, offset: 27512},
+																							pos: position{line: 859, col: 6, offset: 27513},
 																							expr: &choiceExpr{
-																								pos: position{line: 852, col: 5, offset: 27353},
+																								pos: position{line: 852, col: 5, offset: 27354},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 852, col: 5, offset: 27353},
+																										pos: position{line: 852, col: 5, offset: 27354},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 852, col: 5, offset: 27353},
+																												pos:   position{line: 852, col: 5, offset: 27354},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 760, col: 5, offset: 24248},
+																													pos: position{line: 760, col: 5, offset: 24249},
 																													run: (*parser).callonDocumentHeader358,
 																													expr: &seqExpr{
-																														pos: position{line: 760, col: 5, offset: 24248},
+																														pos: position{line: 760, col: 5, offset: 24249},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 760, col: 5, offset: 24248},
+																																pos:   position{line: 760, col: 5, offset: 24249},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 760, col: 16, offset: 24259},
+																																	pos: position{line: 760, col: 16, offset: 24260},
 																																	run: (*parser).callonDocumentHeader361,
 																																	expr: &seqExpr{
-																																		pos: position{line: 760, col: 16, offset: 24259},
+																																		pos: position{line: 760, col: 16, offset: 24260},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 760, col: 16, offset: 24259},
+																																				pos:        position{line: 760, col: 16, offset: 24260},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 760, col: 23, offset: 24266},
+																																				pos: position{line: 760, col: 23, offset: 24267},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 760, col: 23, offset: 24266},
+																																					pos:        position{line: 760, col: 23, offset: 24267},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -18348,12 +18348,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 762, col: 8, offset: 24350},
+																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2886, col: 10, offset: 91400},
+																																	pos: position{line: 2886, col: 10, offset: 91401},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2886, col: 10, offset: 91400},
+																																		pos:        position{line: 2886, col: 10, offset: 91401},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2908, col: 8, offset: 91798},
+																																pos: position{line: 2908, col: 8, offset: 91799},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2895, col: 12, offset: 91571},
+																																		pos: position{line: 2895, col: 12, offset: 91572},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2895, col: 13, offset: 91572},
+																																			pos: position{line: 2895, col: 13, offset: 91573},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 13, offset: 91572},
+																																					pos:        position{line: 2895, col: 13, offset: 91573},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 20, offset: 91579},
+																																					pos:        position{line: 2895, col: 20, offset: 91580},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 29, offset: 91588},
+																																					pos:        position{line: 2895, col: 29, offset: 91589},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2905, col: 8, offset: 91748},
+																																		pos: position{line: 2905, col: 8, offset: 91749},
 																																		expr: &anyMatcher{
-																																			line: 2905, col: 9, offset: 91749,
+																																			line: 2905, col: 9, offset: 91750,
 																																		},
 																																	},
 																																},
@@ -18404,45 +18404,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 853, col: 5, offset: 27384},
+																												pos: position{line: 853, col: 5, offset: 27385},
 																												run: (*parser).callonDocumentHeader377,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 860, col: 5, offset: 27542},
+																							pos:   position{line: 860, col: 5, offset: 27543},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 831, col: 5, offset: 26752},
+																								pos: position{line: 831, col: 5, offset: 26753},
 																								run: (*parser).callonDocumentHeader381,
 																								expr: &seqExpr{
-																									pos: position{line: 831, col: 5, offset: 26752},
+																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2903, col: 11, offset: 91734},
+																											pos: position{line: 2903, col: 11, offset: 91735},
 																											expr: &anyMatcher{
-																												line: 2903, col: 13, offset: 91736,
+																												line: 2903, col: 13, offset: 91737,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 832, col: 5, offset: 26827},
+																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2832, col: 13, offset: 89926},
+																												pos: position{line: 2832, col: 13, offset: 89927},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2832, col: 13, offset: 89926},
+																													pos: position{line: 2832, col: 13, offset: 89927},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2832, col: 13, offset: 89926},
+																														pos:        position{line: 2832, col: 13, offset: 89927},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -18499,41 +18499,41 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 845, col: 5, offset: 27153},
+																		pos: position{line: 845, col: 5, offset: 27154},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27353},
+																			pos: position{line: 852, col: 5, offset: 27354},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27353},
+																					pos: position{line: 852, col: 5, offset: 27354},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27353},
+																							pos:   position{line: 852, col: 5, offset: 27354},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24248},
+																								pos: position{line: 760, col: 5, offset: 24249},
 																								run: (*parser).callonDocumentHeader401,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24248},
+																											pos:   position{line: 760, col: 5, offset: 24249},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24259},
+																												pos: position{line: 760, col: 16, offset: 24260},
 																												run: (*parser).callonDocumentHeader404,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24259},
+																															pos:        position{line: 760, col: 16, offset: 24260},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24266},
+																															pos: position{line: 760, col: 23, offset: 24267},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24266},
+																																pos:        position{line: 760, col: 23, offset: 24267},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -18544,12 +18544,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24350},
+																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -18600,15 +18600,15 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27384},
+																							pos: position{line: 853, col: 5, offset: 27385},
 																							run: (*parser).callonDocumentHeader420,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -18621,23 +18621,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1149, col: 5, offset: 35405},
+												pos:   position{line: 1149, col: 5, offset: 35406},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1149, col: 14, offset: 35414},
+													pos: position{line: 1149, col: 14, offset: 35415},
 													expr: &actionExpr{
-														pos: position{line: 1197, col: 21, offset: 36757},
+														pos: position{line: 1197, col: 21, offset: 36758},
 														run: (*parser).callonDocumentHeader425,
 														expr: &seqExpr{
-															pos: position{line: 1197, col: 21, offset: 36757},
+															pos: position{line: 1197, col: 21, offset: 36758},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1197, col: 21, offset: 36757},
+																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18646,55 +18646,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1197, col: 28, offset: 36764},
+																	pos: position{line: 1197, col: 28, offset: 36765},
 																	expr: &litMatcher{
-																		pos:        position{line: 1197, col: 29, offset: 36765},
+																		pos:        position{line: 1197, col: 29, offset: 36766},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1197, col: 33, offset: 36769},
+																	pos:   position{line: 1197, col: 33, offset: 36770},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1198, col: 9, offset: 36788},
+																		pos: position{line: 1198, col: 9, offset: 36789},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1198, col: 10, offset: 36789},
+																				pos: position{line: 1198, col: 10, offset: 36790},
 																				run: (*parser).callonDocumentHeader434,
 																				expr: &seqExpr{
-																					pos: position{line: 1198, col: 10, offset: 36789},
+																					pos: position{line: 1198, col: 10, offset: 36790},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1198, col: 10, offset: 36789},
+																							pos:   position{line: 1198, col: 10, offset: 36790},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1207, col: 27, offset: 37306},
+																								pos: position{line: 1207, col: 27, offset: 37307},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1207, col: 27, offset: 37306},
+																										pos: position{line: 1207, col: 27, offset: 37307},
 																										run: (*parser).callonDocumentHeader438,
 																										expr: &seqExpr{
-																											pos: position{line: 1207, col: 27, offset: 37306},
+																											pos: position{line: 1207, col: 27, offset: 37307},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1207, col: 27, offset: 37306},
+																													pos:        position{line: 1207, col: 27, offset: 37307},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1207, col: 32, offset: 37311},
+																													pos:        position{line: 1207, col: 32, offset: 37312},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1207, col: 38, offset: 37317},
+																													pos: position{line: 1207, col: 38, offset: 37318},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1207, col: 38, offset: 37317},
+																														pos:        position{line: 1207, col: 38, offset: 37318},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18705,31 +18705,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1209, col: 5, offset: 37365},
+																										pos: position{line: 1209, col: 5, offset: 37366},
 																										run: (*parser).callonDocumentHeader444,
 																										expr: &seqExpr{
-																											pos: position{line: 1209, col: 5, offset: 37365},
+																											pos: position{line: 1209, col: 5, offset: 37366},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1209, col: 5, offset: 37365},
+																													pos: position{line: 1209, col: 5, offset: 37366},
 																													expr: &litMatcher{
-																														pos:        position{line: 1209, col: 5, offset: 37365},
+																														pos:        position{line: 1209, col: 5, offset: 37366},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1209, col: 11, offset: 37371},
+																													pos:        position{line: 1209, col: 11, offset: 37372},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1209, col: 17, offset: 37377},
+																													pos: position{line: 1209, col: 17, offset: 37378},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1209, col: 17, offset: 37377},
+																														pos:        position{line: 1209, col: 17, offset: 37378},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18737,12 +18737,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1209, col: 28, offset: 37388},
+																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18751,9 +18751,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1209, col: 35, offset: 37395},
+																													pos: position{line: 1209, col: 35, offset: 37396},
 																													expr: &litMatcher{
-																														pos:        position{line: 1209, col: 36, offset: 37396},
+																														pos:        position{line: 1209, col: 36, offset: 37397},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18766,26 +18766,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1198, col: 45, offset: 36824},
+																							pos: position{line: 1198, col: 45, offset: 36825},
 																							expr: &litMatcher{
-																								pos:        position{line: 1198, col: 45, offset: 36824},
+																								pos:        position{line: 1198, col: 45, offset: 36825},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1198, col: 50, offset: 36829},
+																							pos:   position{line: 1198, col: 50, offset: 36830},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1198, col: 58, offset: 36837},
+																								pos: position{line: 1198, col: 58, offset: 36838},
 																								expr: &actionExpr{
-																									pos: position{line: 1213, col: 25, offset: 37460},
+																									pos: position{line: 1213, col: 25, offset: 37461},
 																									run: (*parser).callonDocumentHeader460,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1213, col: 25, offset: 37460},
+																										pos: position{line: 1213, col: 25, offset: 37461},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1213, col: 25, offset: 37460},
+																											pos:        position{line: 1213, col: 25, offset: 37461},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18796,26 +18796,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1198, col: 82, offset: 36861},
+																							pos: position{line: 1198, col: 82, offset: 36862},
 																							expr: &litMatcher{
-																								pos:        position{line: 1198, col: 82, offset: 36861},
+																								pos:        position{line: 1198, col: 82, offset: 36862},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1198, col: 87, offset: 36866},
+																							pos:   position{line: 1198, col: 87, offset: 36867},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1198, col: 97, offset: 36876},
+																								pos: position{line: 1198, col: 97, offset: 36877},
 																								expr: &actionExpr{
-																									pos: position{line: 1217, col: 27, offset: 37532},
+																									pos: position{line: 1217, col: 27, offset: 37533},
 																									run: (*parser).callonDocumentHeader467,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1217, col: 27, offset: 37532},
+																										pos: position{line: 1217, col: 27, offset: 37533},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1217, col: 27, offset: 37532},
+																											pos:        position{line: 1217, col: 27, offset: 37533},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18829,21 +18829,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1200, col: 15, offset: 36994},
+																				pos: position{line: 1200, col: 15, offset: 36995},
 																				run: (*parser).callonDocumentHeader470,
 																				expr: &seqExpr{
-																					pos: position{line: 1200, col: 15, offset: 36994},
+																					pos: position{line: 1200, col: 15, offset: 36995},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1200, col: 15, offset: 36994},
+																							pos:   position{line: 1200, col: 15, offset: 36995},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1213, col: 25, offset: 37460},
+																								pos: position{line: 1213, col: 25, offset: 37461},
 																								run: (*parser).callonDocumentHeader473,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1213, col: 25, offset: 37460},
+																									pos: position{line: 1213, col: 25, offset: 37461},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1213, col: 25, offset: 37460},
+																										pos:        position{line: 1213, col: 25, offset: 37461},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18853,26 +18853,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1200, col: 46, offset: 37025},
+																							pos: position{line: 1200, col: 46, offset: 37026},
 																							expr: &litMatcher{
-																								pos:        position{line: 1200, col: 46, offset: 37025},
+																								pos:        position{line: 1200, col: 46, offset: 37026},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1200, col: 51, offset: 37030},
+																							pos:   position{line: 1200, col: 51, offset: 37031},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1200, col: 61, offset: 37040},
+																								pos: position{line: 1200, col: 61, offset: 37041},
 																								expr: &actionExpr{
-																									pos: position{line: 1217, col: 27, offset: 37532},
+																									pos: position{line: 1217, col: 27, offset: 37533},
 																									run: (*parser).callonDocumentHeader480,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1217, col: 27, offset: 37532},
+																										pos: position{line: 1217, col: 27, offset: 37533},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1217, col: 27, offset: 37532},
+																											pos:        position{line: 1217, col: 27, offset: 37533},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -18937,31 +18937,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1136, col: 5, offset: 34951},
+							pos:   position{line: 1136, col: 5, offset: 34952},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1136, col: 19, offset: 34965},
+								pos: position{line: 1136, col: 19, offset: 34966},
 								expr: &choiceExpr{
-									pos: position{line: 1136, col: 20, offset: 34966},
+									pos: position{line: 1136, col: 20, offset: 34967},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1136, col: 20, offset: 34966},
+											pos:  position{line: 1136, col: 20, offset: 34967},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 361, col: 19, offset: 10921},
+											pos: position{line: 361, col: 19, offset: 10922},
 											run: (*parser).callonDocumentHeader495,
 											expr: &seqExpr{
-												pos: position{line: 361, col: 19, offset: 10921},
+												pos: position{line: 361, col: 19, offset: 10922},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 361, col: 19, offset: 10921},
+														pos:        position{line: 361, col: 19, offset: 10922},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 361, col: 24, offset: 10926},
+														pos:   position{line: 361, col: 24, offset: 10927},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 319, col: 18, offset: 9747},
@@ -18981,8 +18981,8 @@ var g = &grammar{
 																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 319, col: 29, offset: 9758},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18993,18 +18993,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 361, col: 45, offset: 10947},
+														pos:        position{line: 361, col: 45, offset: 10948},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 361, col: 49, offset: 10951},
+														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -19054,19 +19054,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 363, col: 9, offset: 11042},
+											pos: position{line: 363, col: 9, offset: 11043},
 											run: (*parser).callonDocumentHeader516,
 											expr: &seqExpr{
-												pos: position{line: 363, col: 9, offset: 11042},
+												pos: position{line: 363, col: 9, offset: 11043},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 363, col: 9, offset: 11042},
+														pos:        position{line: 363, col: 9, offset: 11043},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 363, col: 13, offset: 11046},
+														pos:   position{line: 363, col: 13, offset: 11047},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 319, col: 18, offset: 9747},
@@ -19086,8 +19086,8 @@ var g = &grammar{
 																		pos: position{line: 319, col: 28, offset: 9757},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 319, col: 29, offset: 9758},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -19098,18 +19098,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 363, col: 34, offset: 11067},
+														pos:        position{line: 363, col: 34, offset: 11068},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 363, col: 39, offset: 11072},
+														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91400},
+															pos: position{line: 2886, col: 10, offset: 91401},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91400},
+																pos:        position{line: 2886, col: 10, offset: 91401},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2496, col: 22, offset: 80371},
+												pos: position{line: 2496, col: 22, offset: 80372},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2501, col: 31, offset: 80592},
+														pos:        position{line: 2501, col: 31, offset: 80593},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2501, col: 36, offset: 80597},
+														pos: position{line: 2501, col: 36, offset: 80598},
 														expr: &litMatcher{
-															pos:        position{line: 2501, col: 37, offset: 80598},
+															pos:        position{line: 2501, col: 37, offset: 80599},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2496, col: 49, offset: 80398},
+														pos:   position{line: 2496, col: 49, offset: 80399},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2832, col: 13, offset: 89926},
+																pos: position{line: 2832, col: 13, offset: 89927},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2832, col: 13, offset: 89926},
+																	pos:        position{line: 2832, col: 13, offset: 89927},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -19239,39 +19239,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26988},
+											pos: position{line: 840, col: 5, offset: 26989},
 											run: (*parser).callonDocumentHeader554,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26988},
+												pos: position{line: 840, col: 5, offset: 26989},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26988},
+														pos:   position{line: 840, col: 5, offset: 26989},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 5, offset: 24248},
+															pos: position{line: 760, col: 5, offset: 24249},
 															run: (*parser).callonDocumentHeader557,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 5, offset: 24248},
+																pos: position{line: 760, col: 5, offset: 24249},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 5, offset: 24248},
+																		pos:   position{line: 760, col: 5, offset: 24249},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 16, offset: 24259},
+																			pos: position{line: 760, col: 16, offset: 24260},
 																			run: (*parser).callonDocumentHeader560,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 16, offset: 24259},
+																				pos: position{line: 760, col: 16, offset: 24260},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 16, offset: 24259},
+																						pos:        position{line: 760, col: 16, offset: 24260},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 23, offset: 24266},
+																						pos: position{line: 760, col: 23, offset: 24267},
 																						expr: &litMatcher{
-																							pos:        position{line: 760, col: 23, offset: 24266},
+																							pos:        position{line: 760, col: 23, offset: 24267},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -19282,12 +19282,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 762, col: 8, offset: 24350},
+																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -19338,56 +19338,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 27027},
+														pos: position{line: 841, col: 5, offset: 27028},
 														run: (*parser).callonDocumentHeader576,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27119},
+														pos:   position{line: 844, col: 5, offset: 27120},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 5, offset: 27511},
+															pos: position{line: 859, col: 5, offset: 27512},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 6, offset: 27512},
+																pos: position{line: 859, col: 6, offset: 27513},
 																run: (*parser).callonDocumentHeader579,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 6, offset: 27512},
+																	pos: position{line: 859, col: 6, offset: 27513},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 6, offset: 27512},
+																			pos: position{line: 859, col: 6, offset: 27513},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27353},
+																				pos: position{line: 852, col: 5, offset: 27354},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27353},
+																						pos: position{line: 852, col: 5, offset: 27354},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27353},
+																								pos:   position{line: 852, col: 5, offset: 27354},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									run: (*parser).callonDocumentHeader585,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 5, offset: 24248},
+																										pos: position{line: 760, col: 5, offset: 24249},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 760, col: 5, offset: 24248},
+																												pos:   position{line: 760, col: 5, offset: 24249},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													run: (*parser).callonDocumentHeader588,
 																													expr: &seqExpr{
-																														pos: position{line: 760, col: 16, offset: 24259},
+																														pos: position{line: 760, col: 16, offset: 24260},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 760, col: 16, offset: 24259},
+																																pos:        position{line: 760, col: 16, offset: 24260},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 760, col: 23, offset: 24266},
+																																pos: position{line: 760, col: 23, offset: 24267},
 																																expr: &litMatcher{
-																																	pos:        position{line: 760, col: 23, offset: 24266},
+																																	pos:        position{line: 760, col: 23, offset: 24267},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -19398,12 +19398,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 762, col: 8, offset: 24350},
+																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91400},
+																													pos: position{line: 2886, col: 10, offset: 91401},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91400},
+																														pos:        position{line: 2886, col: 10, offset: 91401},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91798},
+																												pos: position{line: 2908, col: 8, offset: 91799},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91571},
+																														pos: position{line: 2895, col: 12, offset: 91572},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91572},
+																															pos: position{line: 2895, col: 13, offset: 91573},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91572},
+																																	pos:        position{line: 2895, col: 13, offset: 91573},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91579},
+																																	pos:        position{line: 2895, col: 20, offset: 91580},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91588},
+																																	pos:        position{line: 2895, col: 29, offset: 91589},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91748},
+																														pos: position{line: 2905, col: 8, offset: 91749},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91749,
+																															line: 2905, col: 9, offset: 91750,
 																														},
 																													},
 																												},
@@ -19454,45 +19454,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27384},
+																								pos: position{line: 853, col: 5, offset: 27385},
 																								run: (*parser).callonDocumentHeader604,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27542},
+																			pos:   position{line: 860, col: 5, offset: 27543},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				run: (*parser).callonDocumentHeader608,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 5, offset: 26752},
+																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26827},
+																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89926},
+																									pos: position{line: 2832, col: 13, offset: 89927},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89926},
+																										pos:        position{line: 2832, col: 13, offset: 89927},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -19549,41 +19549,41 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 845, col: 5, offset: 27153},
+														pos: position{line: 845, col: 5, offset: 27154},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27353},
+															pos: position{line: 852, col: 5, offset: 27354},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27353},
+																	pos: position{line: 852, col: 5, offset: 27354},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27353},
+																			pos:   position{line: 852, col: 5, offset: 27354},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				run: (*parser).callonDocumentHeader628,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 5, offset: 24248},
+																					pos: position{line: 760, col: 5, offset: 24249},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 5, offset: 24248},
+																							pos:   position{line: 760, col: 5, offset: 24249},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								run: (*parser).callonDocumentHeader631,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 16, offset: 24259},
+																									pos: position{line: 760, col: 16, offset: 24260},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 16, offset: 24259},
+																											pos:        position{line: 760, col: 16, offset: 24260},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 23, offset: 24266},
+																											pos: position{line: 760, col: 23, offset: 24267},
 																											expr: &litMatcher{
-																												pos:        position{line: 760, col: 23, offset: 24266},
+																												pos:        position{line: 760, col: 23, offset: 24267},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -19594,12 +19594,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 762, col: 8, offset: 24350},
+																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -19650,15 +19650,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27384},
+																			pos: position{line: 853, col: 5, offset: 27385},
 																			run: (*parser).callonDocumentHeader647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -19677,26 +19677,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1140, col: 1, offset: 35163},
+			pos:  position{line: 1140, col: 1, offset: 35164},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35185},
+				pos: position{line: 1141, col: 5, offset: 35186},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35185},
+					pos: position{line: 1141, col: 5, offset: 35186},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1141, col: 5, offset: 35185},
+							pos:        position{line: 1141, col: 5, offset: 35186},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2890, col: 11, offset: 91461},
+							pos: position{line: 2890, col: 11, offset: 91462},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2890, col: 11, offset: 91461},
+								pos: position{line: 2890, col: 11, offset: 91462},
 								expr: &charClassMatcher{
-									pos:        position{line: 2890, col: 11, offset: 91461},
+									pos:        position{line: 2890, col: 11, offset: 91462},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19705,36 +19705,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1141, col: 16, offset: 35196},
+							pos:   position{line: 1141, col: 16, offset: 35197},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1141, col: 23, offset: 35203},
+								pos:  position{line: 1141, col: 23, offset: 35204},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -19756,23 +19756,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1168, col: 1, offset: 36043},
+			pos:  position{line: 1168, col: 1, offset: 36044},
 			expr: &actionExpr{
-				pos: position{line: 1169, col: 5, offset: 36074},
+				pos: position{line: 1169, col: 5, offset: 36075},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1169, col: 5, offset: 36074},
+					pos: position{line: 1169, col: 5, offset: 36075},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1169, col: 5, offset: 36074},
+							pos:   position{line: 1169, col: 5, offset: 36075},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1169, col: 12, offset: 36081},
+								pos: position{line: 1169, col: 12, offset: 36082},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1169, col: 12, offset: 36081},
+									pos: position{line: 1169, col: 12, offset: 36082},
 									expr: &charClassMatcher{
-										pos:        position{line: 1169, col: 12, offset: 36081},
+										pos:        position{line: 1169, col: 12, offset: 36082},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19782,12 +19782,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1172, col: 5, offset: 36161},
+							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19796,17 +19796,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1173, col: 5, offset: 36172},
+							pos:   position{line: 1173, col: 5, offset: 36173},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1173, col: 11, offset: 36178},
+								pos: position{line: 1173, col: 11, offset: 36179},
 								expr: &actionExpr{
-									pos: position{line: 1173, col: 12, offset: 36179},
+									pos: position{line: 1173, col: 12, offset: 36180},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1173, col: 12, offset: 36179},
+										pos: position{line: 1173, col: 12, offset: 36180},
 										expr: &charClassMatcher{
-											pos:        position{line: 1173, col: 12, offset: 36179},
+											pos:        position{line: 1173, col: 12, offset: 36180},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19817,12 +19817,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1176, col: 5, offset: 36260},
+							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19831,17 +19831,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1177, col: 5, offset: 36271},
+							pos:   position{line: 1177, col: 5, offset: 36272},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1177, col: 11, offset: 36277},
+								pos: position{line: 1177, col: 11, offset: 36278},
 								expr: &actionExpr{
-									pos: position{line: 1177, col: 12, offset: 36278},
+									pos: position{line: 1177, col: 12, offset: 36279},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1177, col: 12, offset: 36278},
+										pos: position{line: 1177, col: 12, offset: 36279},
 										expr: &charClassMatcher{
-											pos:        position{line: 1177, col: 12, offset: 36278},
+											pos:        position{line: 1177, col: 12, offset: 36279},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19852,12 +19852,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1180, col: 5, offset: 36357},
+							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19871,28 +19871,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1298, col: 1, offset: 40190},
+			pos:  position{line: 1298, col: 1, offset: 40191},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 5, offset: 40211},
+				pos: position{line: 1299, col: 5, offset: 40212},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1299, col: 5, offset: 40211},
+					pos: position{line: 1299, col: 5, offset: 40212},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1299, col: 5, offset: 40211},
+							pos: position{line: 1299, col: 5, offset: 40212},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1302, col: 5, offset: 40270},
+							pos:        position{line: 1302, col: 5, offset: 40271},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1302, col: 12, offset: 40277},
+							pos:   position{line: 1302, col: 12, offset: 40278},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1302, col: 24, offset: 40289},
+								pos:  position{line: 1302, col: 24, offset: 40290},
 								name: "InlineAttributes",
 							},
 						},
@@ -19902,33 +19902,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1309, col: 1, offset: 40577},
+			pos:  position{line: 1309, col: 1, offset: 40578},
 			expr: &actionExpr{
-				pos: position{line: 1310, col: 5, offset: 40596},
+				pos: position{line: 1310, col: 5, offset: 40597},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1310, col: 5, offset: 40596},
+					pos: position{line: 1310, col: 5, offset: 40597},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1310, col: 5, offset: 40596},
+							pos: position{line: 1310, col: 5, offset: 40597},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1313, col: 5, offset: 40655},
+							pos:        position{line: 1313, col: 5, offset: 40656},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 13, offset: 40663},
+							pos:   position{line: 1313, col: 13, offset: 40664},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2871, col: 7, offset: 91052},
+								pos: position{line: 2871, col: 7, offset: 91053},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2871, col: 7, offset: 91052},
+									pos: position{line: 2871, col: 7, offset: 91053},
 									expr: &charClassMatcher{
-										pos:        position{line: 2871, col: 7, offset: 91052},
+										pos:        position{line: 2871, col: 7, offset: 91053},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19938,10 +19938,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 21, offset: 40671},
+							pos:   position{line: 1313, col: 21, offset: 40672},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1313, col: 33, offset: 40683},
+								pos:  position{line: 1313, col: 33, offset: 40684},
 								name: "InlineAttributes",
 							},
 						},
@@ -19951,29 +19951,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1320, col: 1, offset: 40982},
+			pos:  position{line: 1320, col: 1, offset: 40983},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 14, offset: 40995},
+				pos: position{line: 1320, col: 14, offset: 40996},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 14, offset: 40995},
+					pos: position{line: 1320, col: 14, offset: 40996},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 14, offset: 40995},
+							pos:        position{line: 1320, col: 14, offset: 40996},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 19, offset: 41000},
+							pos:   position{line: 1320, col: 19, offset: 41001},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 25, offset: 41006},
+								pos:  position{line: 1320, col: 25, offset: 41007},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1320, col: 43, offset: 41024},
+							pos:        position{line: 1320, col: 43, offset: 41025},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19984,25 +19984,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1324, col: 1, offset: 41093},
+			pos:  position{line: 1324, col: 1, offset: 41094},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 21, offset: 41113},
+				pos: position{line: 1324, col: 21, offset: 41114},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1324, col: 21, offset: 41113},
+					pos:   position{line: 1324, col: 21, offset: 41114},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1324, col: 30, offset: 41122},
+						pos: position{line: 1324, col: 30, offset: 41123},
 						expr: &choiceExpr{
-							pos: position{line: 1324, col: 31, offset: 41123},
+							pos: position{line: 1324, col: 31, offset: 41124},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88555},
+									pos: position{line: 2780, col: 14, offset: 88556},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88555},
+										pos: position{line: 2780, col: 14, offset: 88556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88555},
+											pos:        position{line: 2780, col: 14, offset: 88556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20011,14 +20011,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1324, col: 43, offset: 41135},
+									pos:  position{line: 1324, col: 43, offset: 41136},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91400},
+									pos: position{line: 2886, col: 10, offset: 91401},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91400},
+										pos:        position{line: 2886, col: 10, offset: 91401},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2483, col: 5, offset: 79917},
+									pos: position{line: 2483, col: 5, offset: 79918},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2483, col: 5, offset: 79917},
+										pos: position{line: 2483, col: 5, offset: 79918},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2483, col: 5, offset: 79917},
+												pos: position{line: 2483, col: 5, offset: 79918},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2486, col: 5, offset: 79993},
+												pos:   position{line: 2486, col: 5, offset: 79994},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2487, col: 9, offset: 80011},
+													pos: position{line: 2487, col: 9, offset: 80012},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2487, col: 10, offset: 80012},
+														pos:        position{line: 2487, col: 10, offset: 80013},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20054,27 +20054,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1226, col: 23, offset: 37842},
+									pos: position{line: 1226, col: 23, offset: 37843},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1226, col: 23, offset: 37842},
+										pos: position{line: 1226, col: 23, offset: 37843},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1224, col: 32, offset: 37810},
+												pos:        position{line: 1224, col: 32, offset: 37811},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1226, col: 51, offset: 37870},
+												pos:   position{line: 1226, col: 51, offset: 37871},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1226, col: 56, offset: 37875},
+													pos: position{line: 1226, col: 56, offset: 37876},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1226, col: 56, offset: 37875},
+														pos: position{line: 1226, col: 56, offset: 37876},
 														expr: &charClassMatcher{
-															pos:        position{line: 1226, col: 56, offset: 37875},
+															pos:        position{line: 1226, col: 56, offset: 37876},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -20084,7 +20084,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1224, col: 32, offset: 37810},
+												pos:        position{line: 1224, col: 32, offset: 37811},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -20093,22 +20093,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1324, col: 104, offset: 41196},
+									pos: position{line: 1324, col: 104, offset: 41197},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1324, col: 105, offset: 41197},
+										pos: position{line: 1324, col: 105, offset: 41198},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1324, col: 105, offset: 41197},
+												pos: position{line: 1324, col: 105, offset: 41198},
 												expr: &litMatcher{
-													pos:        position{line: 1324, col: 106, offset: 41198},
+													pos:        position{line: 1324, col: 106, offset: 41199},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1324, col: 111, offset: 41203,
+												line: 1324, col: 111, offset: 41204,
 											},
 										},
 									},
@@ -20121,65 +20121,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1344, col: 1, offset: 41912},
+			pos:  position{line: 1344, col: 1, offset: 41913},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 5, offset: 41931},
+				pos: position{line: 1345, col: 5, offset: 41932},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 5, offset: 41931},
+					pos: position{line: 1345, col: 5, offset: 41932},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1345, col: 5, offset: 41931},
+							pos:        position{line: 1345, col: 5, offset: 41932},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 15, offset: 41941},
+							pos:   position{line: 1345, col: 15, offset: 41942},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2844, col: 13, offset: 90159},
+								pos: position{line: 2844, col: 13, offset: 90160},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2844, col: 13, offset: 90159},
+									pos: position{line: 2844, col: 13, offset: 90160},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2844, col: 13, offset: 90159},
+											pos:   position{line: 2844, col: 13, offset: 90160},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2844, col: 20, offset: 90166},
+												pos: position{line: 2844, col: 20, offset: 90167},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 11, offset: 90405},
+													pos: position{line: 2852, col: 11, offset: 90406},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2852, col: 12, offset: 90406},
+														pos: position{line: 2852, col: 12, offset: 90407},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2852, col: 12, offset: 90406},
+																pos:        position{line: 2852, col: 12, offset: 90407},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 24, offset: 90418},
+																pos:        position{line: 2852, col: 24, offset: 90419},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 37, offset: 90431},
+																pos:        position{line: 2852, col: 37, offset: 90432},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 48, offset: 90442},
+																pos:        position{line: 2852, col: 48, offset: 90443},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 59, offset: 90453},
+																pos:        position{line: 2852, col: 59, offset: 90454},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2844, col: 30, offset: 90176},
+											pos:   position{line: 2844, col: 30, offset: 90177},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 5, offset: 90517},
+												pos: position{line: 2857, col: 5, offset: 90518},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2857, col: 5, offset: 90517},
+													pos:   position{line: 2857, col: 5, offset: 90518},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2857, col: 14, offset: 90526},
+														pos: position{line: 2857, col: 14, offset: 90527},
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 9, offset: 90536},
+															pos: position{line: 2858, col: 9, offset: 90537},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2858, col: 9, offset: 90536},
+																		pos: position{line: 2858, col: 9, offset: 90537},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				expr: &litMatcher{
-																					pos:        position{line: 2858, col: 10, offset: 90537},
+																					pos:        position{line: 2858, col: 10, offset: 90538},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2859, col: 9, offset: 90565},
+																				pos: position{line: 2859, col: 9, offset: 90566},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 10, offset: 90566},
+																					pos:        position{line: 2859, col: 10, offset: 90567},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90778},
+																	pos: position{line: 2862, col: 11, offset: 90779},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2862, col: 11, offset: 90778},
+																			pos:        position{line: 2862, col: 11, offset: 90779},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2862, col: 19, offset: 90786},
+																			pos: position{line: 2862, col: 19, offset: 90787},
 																			expr: &seqExpr{
-																				pos: position{line: 2862, col: 21, offset: 90788},
+																				pos: position{line: 2862, col: 21, offset: 90789},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2862, col: 28, offset: 90795},
+																						pos: position{line: 2862, col: 28, offset: 90796},
 																						expr: &notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -20275,35 +20275,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 656, col: 5, offset: 20754},
+																	pos: position{line: 656, col: 5, offset: 20755},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 656, col: 5, offset: 20754},
+																		pos: position{line: 656, col: 5, offset: 20755},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 5, offset: 20826},
+																				pos:   position{line: 659, col: 5, offset: 20827},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 659, col: 14, offset: 20835},
+																					pos: position{line: 659, col: 14, offset: 20836},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 20964},
+																								pos: position{line: 665, col: 5, offset: 20965},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 20964},
+																										pos:        position{line: 665, col: 5, offset: 20965},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 13, offset: 20972},
+																										pos:   position{line: 665, col: 13, offset: 20973},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20323,8 +20323,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20335,7 +20335,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 32, offset: 20991},
+																										pos:        position{line: 665, col: 32, offset: 20992},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20344,19 +20344,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 672, col: 5, offset: 21232},
+																								pos: position{line: 672, col: 5, offset: 21233},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 672, col: 5, offset: 21232},
+																										pos:        position{line: 672, col: 5, offset: 21233},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 9, offset: 21236},
+																										pos:   position{line: 672, col: 9, offset: 21237},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20376,8 +20376,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20388,7 +20388,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 672, col: 28, offset: 21255},
+																										pos:        position{line: 672, col: 28, offset: 21256},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20397,19 +20397,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 25, offset: 21436},
+																							pos: position{line: 678, col: 25, offset: 21437},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 25, offset: 21436},
+																								pos: position{line: 678, col: 25, offset: 21437},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 678, col: 25, offset: 21436},
+																										pos:        position{line: 678, col: 25, offset: 21437},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 37, offset: 21448},
+																										pos:   position{line: 678, col: 37, offset: 21449},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20429,8 +20429,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20441,33 +20441,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 56, offset: 21467},
+																										pos:   position{line: 678, col: 56, offset: 21468},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 678, col: 62, offset: 21473},
+																											pos: position{line: 678, col: 62, offset: 21474},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20475,12 +20475,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20497,7 +20497,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 678, col: 78, offset: 21489},
+																										pos:        position{line: 678, col: 78, offset: 21490},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20506,19 +20506,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 682, col: 25, offset: 21607},
+																							pos: position{line: 682, col: 25, offset: 21608},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 682, col: 25, offset: 21607},
+																								pos: position{line: 682, col: 25, offset: 21608},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 682, col: 25, offset: 21607},
+																										pos:        position{line: 682, col: 25, offset: 21608},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 38, offset: 21620},
+																										pos:   position{line: 682, col: 38, offset: 21621},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20538,8 +20538,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20550,33 +20550,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 57, offset: 21639},
+																										pos:   position{line: 682, col: 57, offset: 21640},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 682, col: 63, offset: 21645},
+																											pos: position{line: 682, col: 63, offset: 21646},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20584,12 +20584,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20606,7 +20606,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 682, col: 79, offset: 21661},
+																										pos:        position{line: 682, col: 79, offset: 21662},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20621,27 +20621,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1226, col: 23, offset: 37842},
+																	pos: position{line: 1226, col: 23, offset: 37843},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1226, col: 23, offset: 37842},
+																		pos: position{line: 1226, col: 23, offset: 37843},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1224, col: 32, offset: 37810},
+																				pos:        position{line: 1224, col: 32, offset: 37811},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1226, col: 51, offset: 37870},
+																				pos:   position{line: 1226, col: 51, offset: 37871},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1226, col: 56, offset: 37875},
+																					pos: position{line: 1226, col: 56, offset: 37876},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1226, col: 56, offset: 37875},
+																						pos: position{line: 1226, col: 56, offset: 37876},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1226, col: 56, offset: 37875},
+																							pos:        position{line: 1226, col: 56, offset: 37876},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20651,7 +20651,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1224, col: 32, offset: 37810},
+																				pos:        position{line: 1224, col: 32, offset: 37811},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90915},
+																	pos: position{line: 2865, col: 11, offset: 90916},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 11, offset: 90915},
+																		pos:        position{line: 2865, col: 11, offset: 90916},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20680,20 +20680,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 31, offset: 41957},
+							pos:   position{line: 1345, col: 31, offset: 41958},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1345, col: 43, offset: 41969},
+								pos:  position{line: 1345, col: 43, offset: 41970},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1345, col: 61, offset: 41987},
+							pos: position{line: 1345, col: 61, offset: 41988},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -20745,74 +20745,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1350, col: 1, offset: 42204},
+			pos:  position{line: 1350, col: 1, offset: 42205},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 16, offset: 42219},
+				pos: position{line: 1350, col: 16, offset: 42220},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 16, offset: 42219},
+					pos: position{line: 1350, col: 16, offset: 42220},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1350, col: 16, offset: 42219},
+							pos:        position{line: 1350, col: 16, offset: 42220},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1350, col: 25, offset: 42228},
+							pos: position{line: 1350, col: 25, offset: 42229},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 26, offset: 42229},
+								pos:        position{line: 1350, col: 26, offset: 42230},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 30, offset: 42233},
+							pos:   position{line: 1350, col: 30, offset: 42234},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2844, col: 13, offset: 90159},
+								pos: position{line: 2844, col: 13, offset: 90160},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2844, col: 13, offset: 90159},
+									pos: position{line: 2844, col: 13, offset: 90160},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2844, col: 13, offset: 90159},
+											pos:   position{line: 2844, col: 13, offset: 90160},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2844, col: 20, offset: 90166},
+												pos: position{line: 2844, col: 20, offset: 90167},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 11, offset: 90405},
+													pos: position{line: 2852, col: 11, offset: 90406},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2852, col: 12, offset: 90406},
+														pos: position{line: 2852, col: 12, offset: 90407},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2852, col: 12, offset: 90406},
+																pos:        position{line: 2852, col: 12, offset: 90407},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 24, offset: 90418},
+																pos:        position{line: 2852, col: 24, offset: 90419},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 37, offset: 90431},
+																pos:        position{line: 2852, col: 37, offset: 90432},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 48, offset: 90442},
+																pos:        position{line: 2852, col: 48, offset: 90443},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 59, offset: 90453},
+																pos:        position{line: 2852, col: 59, offset: 90454},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2844, col: 30, offset: 90176},
+											pos:   position{line: 2844, col: 30, offset: 90177},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 5, offset: 90517},
+												pos: position{line: 2857, col: 5, offset: 90518},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2857, col: 5, offset: 90517},
+													pos:   position{line: 2857, col: 5, offset: 90518},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2857, col: 14, offset: 90526},
+														pos: position{line: 2857, col: 14, offset: 90527},
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 9, offset: 90536},
+															pos: position{line: 2858, col: 9, offset: 90537},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2858, col: 9, offset: 90536},
+																		pos: position{line: 2858, col: 9, offset: 90537},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				expr: &litMatcher{
-																					pos:        position{line: 2858, col: 10, offset: 90537},
+																					pos:        position{line: 2858, col: 10, offset: 90538},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2859, col: 9, offset: 90565},
+																				pos: position{line: 2859, col: 9, offset: 90566},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 10, offset: 90566},
+																					pos:        position{line: 2859, col: 10, offset: 90567},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90778},
+																	pos: position{line: 2862, col: 11, offset: 90779},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2862, col: 11, offset: 90778},
+																			pos:        position{line: 2862, col: 11, offset: 90779},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2862, col: 19, offset: 90786},
+																			pos: position{line: 2862, col: 19, offset: 90787},
 																			expr: &seqExpr{
-																				pos: position{line: 2862, col: 21, offset: 90788},
+																				pos: position{line: 2862, col: 21, offset: 90789},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2862, col: 28, offset: 90795},
+																						pos: position{line: 2862, col: 28, offset: 90796},
 																						expr: &notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -20908,35 +20908,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 656, col: 5, offset: 20754},
+																	pos: position{line: 656, col: 5, offset: 20755},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 656, col: 5, offset: 20754},
+																		pos: position{line: 656, col: 5, offset: 20755},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 659, col: 5, offset: 20826},
+																				pos:   position{line: 659, col: 5, offset: 20827},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 659, col: 14, offset: 20835},
+																					pos: position{line: 659, col: 14, offset: 20836},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 5, offset: 20964},
+																							pos: position{line: 665, col: 5, offset: 20965},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 5, offset: 20964},
+																								pos: position{line: 665, col: 5, offset: 20965},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 5, offset: 20964},
+																										pos:        position{line: 665, col: 5, offset: 20965},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 13, offset: 20972},
+																										pos:   position{line: 665, col: 13, offset: 20973},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -20956,8 +20956,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20968,7 +20968,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 32, offset: 20991},
+																										pos:        position{line: 665, col: 32, offset: 20992},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20977,19 +20977,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 672, col: 5, offset: 21232},
+																							pos: position{line: 672, col: 5, offset: 21233},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 672, col: 5, offset: 21232},
+																								pos: position{line: 672, col: 5, offset: 21233},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 672, col: 5, offset: 21232},
+																										pos:        position{line: 672, col: 5, offset: 21233},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 9, offset: 21236},
+																										pos:   position{line: 672, col: 9, offset: 21237},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -21009,8 +21009,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -21021,7 +21021,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 672, col: 28, offset: 21255},
+																										pos:        position{line: 672, col: 28, offset: 21256},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21030,19 +21030,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 25, offset: 21436},
+																							pos: position{line: 678, col: 25, offset: 21437},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 678, col: 25, offset: 21436},
+																								pos: position{line: 678, col: 25, offset: 21437},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 678, col: 25, offset: 21436},
+																										pos:        position{line: 678, col: 25, offset: 21437},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 37, offset: 21448},
+																										pos:   position{line: 678, col: 37, offset: 21449},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -21062,8 +21062,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -21074,33 +21074,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 678, col: 56, offset: 21467},
+																										pos:   position{line: 678, col: 56, offset: 21468},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 678, col: 62, offset: 21473},
+																											pos: position{line: 678, col: 62, offset: 21474},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -21108,12 +21108,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -21130,7 +21130,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 678, col: 78, offset: 21489},
+																										pos:        position{line: 678, col: 78, offset: 21490},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21139,19 +21139,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 682, col: 25, offset: 21607},
+																							pos: position{line: 682, col: 25, offset: 21608},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 682, col: 25, offset: 21607},
+																								pos: position{line: 682, col: 25, offset: 21608},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 682, col: 25, offset: 21607},
+																										pos:        position{line: 682, col: 25, offset: 21608},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 38, offset: 21620},
+																										pos:   position{line: 682, col: 38, offset: 21621},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 319, col: 18, offset: 9747},
@@ -21171,8 +21171,8 @@ var g = &grammar{
 																														pos: position{line: 319, col: 28, offset: 9757},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 319, col: 29, offset: 9758},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -21183,33 +21183,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 682, col: 57, offset: 21639},
+																										pos:   position{line: 682, col: 57, offset: 21640},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 682, col: 63, offset: 21645},
+																											pos: position{line: 682, col: 63, offset: 21646},
 																											expr: &actionExpr{
-																												pos: position{line: 686, col: 17, offset: 21768},
+																												pos: position{line: 686, col: 17, offset: 21769},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 686, col: 17, offset: 21768},
+																													pos: position{line: 686, col: 17, offset: 21769},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 686, col: 17, offset: 21768},
+																															pos:        position{line: 686, col: 17, offset: 21769},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 686, col: 21, offset: 21772},
+																															pos:   position{line: 686, col: 21, offset: 21773},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 686, col: 28, offset: 21779},
+																																			pos:        position{line: 686, col: 28, offset: 21780},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -21217,12 +21217,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 688, col: 9, offset: 21833},
+																																		pos: position{line: 688, col: 9, offset: 21834},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 688, col: 9, offset: 21833},
+																																			pos: position{line: 688, col: 9, offset: 21834},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 688, col: 9, offset: 21833},
+																																				pos:        position{line: 688, col: 9, offset: 21834},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -21239,7 +21239,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 682, col: 79, offset: 21661},
+																										pos:        position{line: 682, col: 79, offset: 21662},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21254,27 +21254,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1226, col: 23, offset: 37842},
+																	pos: position{line: 1226, col: 23, offset: 37843},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1226, col: 23, offset: 37842},
+																		pos: position{line: 1226, col: 23, offset: 37843},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1224, col: 32, offset: 37810},
+																				pos:        position{line: 1224, col: 32, offset: 37811},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1226, col: 51, offset: 37870},
+																				pos:   position{line: 1226, col: 51, offset: 37871},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1226, col: 56, offset: 37875},
+																					pos: position{line: 1226, col: 56, offset: 37876},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1226, col: 56, offset: 37875},
+																						pos: position{line: 1226, col: 56, offset: 37876},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1226, col: 56, offset: 37875},
+																							pos:        position{line: 1226, col: 56, offset: 37876},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -21284,7 +21284,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1224, col: 32, offset: 37810},
+																				pos:        position{line: 1224, col: 32, offset: 37811},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90915},
+																	pos: position{line: 2865, col: 11, offset: 90916},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 11, offset: 90915},
+																		pos:        position{line: 2865, col: 11, offset: 90916},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21313,10 +21313,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 46, offset: 42249},
+							pos:   position{line: 1350, col: 46, offset: 42250},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1350, col: 58, offset: 42261},
+								pos:  position{line: 1350, col: 58, offset: 42262},
 								name: "InlineAttributes",
 							},
 						},
@@ -21326,29 +21326,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1357, col: 1, offset: 42657},
+			pos:  position{line: 1357, col: 1, offset: 42658},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 15, offset: 42671},
+				pos: position{line: 1357, col: 15, offset: 42672},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 15, offset: 42671},
+					pos: position{line: 1357, col: 15, offset: 42672},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1357, col: 15, offset: 42671},
+							pos:        position{line: 1357, col: 15, offset: 42672},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 23, offset: 42679},
+							pos:   position{line: 1357, col: 23, offset: 42680},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1357, col: 29, offset: 42685},
+								pos: position{line: 1357, col: 29, offset: 42686},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1357, col: 29, offset: 42685},
+									pos: position{line: 1357, col: 29, offset: 42686},
 									expr: &charClassMatcher{
-										pos:        position{line: 1357, col: 29, offset: 42685},
+										pos:        position{line: 1357, col: 29, offset: 42686},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21359,10 +21359,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 73, offset: 42729},
+							pos:   position{line: 1357, col: 73, offset: 42730},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1357, col: 85, offset: 42741},
+								pos:  position{line: 1357, col: 85, offset: 42742},
 								name: "InlineAttributes",
 							},
 						},
@@ -21372,31 +21372,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1364, col: 1, offset: 43107},
+			pos:  position{line: 1364, col: 1, offset: 43108},
 			expr: &actionExpr{
-				pos: position{line: 1364, col: 19, offset: 43125},
+				pos: position{line: 1364, col: 19, offset: 43126},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1364, col: 19, offset: 43125},
+					pos: position{line: 1364, col: 19, offset: 43126},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1364, col: 19, offset: 43125},
+							pos:        position{line: 1364, col: 19, offset: 43126},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 31, offset: 43137},
+							pos:   position{line: 1364, col: 31, offset: 43138},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1364, col: 35, offset: 43141},
+								pos: position{line: 1364, col: 35, offset: 43142},
 								expr: &actionExpr{
-									pos: position{line: 1368, col: 16, offset: 43301},
+									pos: position{line: 1368, col: 16, offset: 43302},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1368, col: 16, offset: 43301},
+										pos: position{line: 1368, col: 16, offset: 43302},
 										expr: &charClassMatcher{
-											pos:        position{line: 1368, col: 16, offset: 43301},
+											pos:        position{line: 1368, col: 16, offset: 43302},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21408,21 +21408,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 50, offset: 43156},
+							pos:        position{line: 1364, col: 50, offset: 43157},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 54, offset: 43160},
+							pos:   position{line: 1364, col: 54, offset: 43161},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1364, col: 64, offset: 43170},
+								pos:  position{line: 1364, col: 64, offset: 43171},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 82, offset: 43188},
+							pos:        position{line: 1364, col: 82, offset: 43189},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21433,17 +21433,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1370, col: 1, offset: 43345},
+			pos:  position{line: 1370, col: 1, offset: 43346},
 			expr: &actionExpr{
-				pos: position{line: 1370, col: 21, offset: 43365},
+				pos: position{line: 1370, col: 21, offset: 43366},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1370, col: 21, offset: 43365},
+					pos:   position{line: 1370, col: 21, offset: 43366},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1370, col: 30, offset: 43374},
+						pos: position{line: 1370, col: 30, offset: 43375},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1370, col: 31, offset: 43375},
+							pos:  position{line: 1370, col: 31, offset: 43376},
 							name: "FootnoteElement",
 						},
 					},
@@ -21452,44 +21452,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1374, col: 1, offset: 43467},
+			pos:  position{line: 1374, col: 1, offset: 43468},
 			expr: &actionExpr{
-				pos: position{line: 1375, col: 5, offset: 43491},
+				pos: position{line: 1375, col: 5, offset: 43492},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1375, col: 5, offset: 43491},
+					pos: position{line: 1375, col: 5, offset: 43492},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1375, col: 5, offset: 43491},
+							pos: position{line: 1375, col: 5, offset: 43492},
 							expr: &litMatcher{
-								pos:        position{line: 1375, col: 6, offset: 43492},
+								pos:        position{line: 1375, col: 6, offset: 43493},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1376, col: 5, offset: 43501},
+							pos:   position{line: 1376, col: 5, offset: 43502},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1377, col: 9, offset: 43519},
+								pos: position{line: 1377, col: 9, offset: 43520},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88628},
+										pos: position{line: 2785, col: 5, offset: 88629},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88628},
+											pos: position{line: 2785, col: 5, offset: 88629},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88628},
+													pos:   position{line: 2785, col: 5, offset: 88629},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88634},
+														pos: position{line: 2785, col: 11, offset: 88635},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88634},
+															pos: position{line: 2785, col: 11, offset: 88635},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88634},
+																pos:        position{line: 2785, col: 11, offset: 88635},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21499,32 +21499,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88692},
+													pos: position{line: 2788, col: 5, offset: 88693},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88703},
+														pos: position{line: 2789, col: 9, offset: 88704},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88703},
+																pos:        position{line: 2789, col: 9, offset: 88704},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88752},
+																pos: position{line: 2790, col: 9, offset: 88753},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88832},
+													pos: position{line: 2794, col: 5, offset: 88833},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88843},
+														pos: position{line: 2795, col: 9, offset: 88844},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88843},
+																pos: position{line: 2795, col: 9, offset: 88844},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88843},
+																	pos:        position{line: 2795, col: 9, offset: 88844},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21533,13 +21533,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88857},
+																pos:        position{line: 2795, col: 23, offset: 88858},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88861},
+																pos:        position{line: 2795, col: 27, offset: 88862},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21552,12 +21552,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 11, offset: 91461},
+										pos: position{line: 2890, col: 11, offset: 91462},
 										run: (*parser).callonFootnoteElement23,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 11, offset: 91461},
+											pos: position{line: 2890, col: 11, offset: 91462},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 11, offset: 91461},
+												pos:        position{line: 2890, col: 11, offset: 91462},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21566,21 +21566,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81088},
+										pos: position{line: 2514, col: 5, offset: 81089},
 										run: (*parser).callonFootnoteElement26,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81088},
+											pos: position{line: 2514, col: 5, offset: 81089},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81088},
+													pos:        position{line: 2514, col: 5, offset: 81089},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 10, offset: 81093},
+													pos: position{line: 2514, col: 10, offset: 81094},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 11, offset: 81094},
+														pos:        position{line: 2514, col: 11, offset: 81095},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21591,29 +21591,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81286},
+										pos: position{line: 2520, col: 5, offset: 81287},
 										run: (*parser).callonFootnoteElement31,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81286},
+											pos: position{line: 2520, col: 5, offset: 81287},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2520, col: 5, offset: 81286},
+													pos: position{line: 2520, col: 5, offset: 81287},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2523, col: 5, offset: 81357},
+													pos: position{line: 2523, col: 5, offset: 81358},
 													run: (*parser).callonFootnoteElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2527, col: 5, offset: 81482},
+													pos:        position{line: 2527, col: 5, offset: 81483},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2527, col: 9, offset: 81486},
+													pos: position{line: 2527, col: 9, offset: 81487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2527, col: 10, offset: 81487},
+														pos:        position{line: 2527, col: 10, offset: 81488},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21624,35 +21624,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1380, col: 11, offset: 43586},
+										pos:  position{line: 1380, col: 11, offset: 43587},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1381, col: 11, offset: 43602},
+										pos:  position{line: 1381, col: 11, offset: 43603},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89054},
+										pos: position{line: 2803, col: 5, offset: 89055},
 										run: (*parser).callonFootnoteElement40,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89064},
+											pos: position{line: 2804, col: 9, offset: 89065},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89065},
+													pos:        position{line: 2804, col: 10, offset: 89066},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89162},
+													pos: position{line: 2806, col: 13, offset: 89163},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89162},
+															pos: position{line: 2806, col: 13, offset: 89163},
 															run: (*parser).callonFootnoteElement44,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89262},
+															pos:        position{line: 2809, col: 13, offset: 89263},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21660,20 +21660,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89268},
+													pos:        position{line: 2809, col: 19, offset: 89269},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89306},
+													pos: position{line: 2812, col: 13, offset: 89307},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89306},
+															pos: position{line: 2812, col: 13, offset: 89307},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89399},
+															pos:        position{line: 2815, col: 14, offset: 89400},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21682,18 +21682,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89443},
+													pos: position{line: 2817, col: 12, offset: 89444},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89443},
+															pos:        position{line: 2817, col: 12, offset: 89444},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89447},
+															pos: position{line: 2817, col: 16, offset: 89448},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89448},
+																pos:        position{line: 2817, col: 17, offset: 89449},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21705,36 +21705,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1383, col: 11, offset: 43675},
+										pos:  position{line: 1383, col: 11, offset: 43676},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1234, col: 5, offset: 38288},
+										pos: position{line: 1234, col: 5, offset: 38289},
 										run: (*parser).callonFootnoteElement55,
 										expr: &seqExpr{
-											pos: position{line: 1234, col: 5, offset: 38288},
+											pos: position{line: 1234, col: 5, offset: 38289},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1234, col: 5, offset: 38288},
+													pos: position{line: 1234, col: 5, offset: 38289},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&litMatcher{
-													pos:        position{line: 1237, col: 5, offset: 38364},
+													pos:        position{line: 1237, col: 5, offset: 38365},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1238, col: 5, offset: 38372},
+													pos: position{line: 1238, col: 5, offset: 38373},
 													run: (*parser).callonFootnoteElement59,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1242, col: 5, offset: 38459},
+													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonFootnoteElement61,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21743,30 +21743,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1242, col: 12, offset: 38466},
+													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonFootnoteElement65,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21775,9 +21775,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -21787,35 +21787,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 656, col: 5, offset: 20754},
+										pos: position{line: 656, col: 5, offset: 20755},
 										run: (*parser).callonFootnoteElement72,
 										expr: &seqExpr{
-											pos: position{line: 656, col: 5, offset: 20754},
+											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 656, col: 5, offset: 20754},
+													pos: position{line: 656, col: 5, offset: 20755},
 													run: (*parser).callonFootnoteElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 659, col: 5, offset: 20826},
+													pos:   position{line: 659, col: 5, offset: 20827},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 659, col: 14, offset: 20835},
+														pos: position{line: 659, col: 14, offset: 20836},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 20964},
+																pos: position{line: 665, col: 5, offset: 20965},
 																run: (*parser).callonFootnoteElement77,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 20964},
+																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 20964},
+																			pos:        position{line: 665, col: 5, offset: 20965},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 13, offset: 20972},
+																			pos:   position{line: 665, col: 13, offset: 20973},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21835,8 +21835,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21847,7 +21847,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 32, offset: 20991},
+																			pos:        position{line: 665, col: 32, offset: 20992},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21856,19 +21856,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 672, col: 5, offset: 21232},
+																pos: position{line: 672, col: 5, offset: 21233},
 																run: (*parser).callonFootnoteElement87,
 																expr: &seqExpr{
-																	pos: position{line: 672, col: 5, offset: 21232},
+																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 672, col: 5, offset: 21232},
+																			pos:        position{line: 672, col: 5, offset: 21233},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 9, offset: 21236},
+																			pos:   position{line: 672, col: 9, offset: 21237},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21888,8 +21888,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21900,7 +21900,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 672, col: 28, offset: 21255},
+																			pos:        position{line: 672, col: 28, offset: 21256},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21909,19 +21909,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 678, col: 25, offset: 21436},
+																pos: position{line: 678, col: 25, offset: 21437},
 																run: (*parser).callonFootnoteElement97,
 																expr: &seqExpr{
-																	pos: position{line: 678, col: 25, offset: 21436},
+																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 678, col: 25, offset: 21436},
+																			pos:        position{line: 678, col: 25, offset: 21437},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 37, offset: 21448},
+																			pos:   position{line: 678, col: 37, offset: 21449},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -21941,8 +21941,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21953,33 +21953,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 56, offset: 21467},
+																			pos:   position{line: 678, col: 56, offset: 21468},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 678, col: 62, offset: 21473},
+																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonFootnoteElement108,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21987,12 +21987,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonFootnoteElement115,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -22009,7 +22009,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 678, col: 78, offset: 21489},
+																			pos:        position{line: 678, col: 78, offset: 21490},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22018,19 +22018,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 682, col: 25, offset: 21607},
+																pos: position{line: 682, col: 25, offset: 21608},
 																run: (*parser).callonFootnoteElement119,
 																expr: &seqExpr{
-																	pos: position{line: 682, col: 25, offset: 21607},
+																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 682, col: 25, offset: 21607},
+																			pos:        position{line: 682, col: 25, offset: 21608},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 38, offset: 21620},
+																			pos:   position{line: 682, col: 38, offset: 21621},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -22050,8 +22050,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -22062,33 +22062,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 57, offset: 21639},
+																			pos:   position{line: 682, col: 57, offset: 21640},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 682, col: 63, offset: 21645},
+																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonFootnoteElement130,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -22096,12 +22096,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonFootnoteElement137,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -22118,7 +22118,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 682, col: 79, offset: 21661},
+																			pos:        position{line: 682, col: 79, offset: 21662},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -22133,23 +22133,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79917},
+										pos: position{line: 2483, col: 5, offset: 79918},
 										run: (*parser).callonFootnoteElement141,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79917},
+													pos: position{line: 2483, col: 5, offset: 79918},
 													run: (*parser).callonFootnoteElement143,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79993},
+													pos:   position{line: 2486, col: 5, offset: 79994},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80011},
+														pos: position{line: 2487, col: 9, offset: 80012},
 														run: (*parser).callonFootnoteElement145,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80012},
+															pos:        position{line: 2487, col: 10, offset: 80013},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22161,25 +22161,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91571},
+										pos: position{line: 2895, col: 12, offset: 91572},
 										run: (*parser).callonFootnoteElement147,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91572},
+											pos: position{line: 2895, col: 13, offset: 91573},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91572},
+													pos:        position{line: 2895, col: 13, offset: 91573},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91579},
+													pos:        position{line: 2895, col: 20, offset: 91580},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91588},
+													pos:        position{line: 2895, col: 29, offset: 91589},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22188,10 +22188,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89708},
+										pos: position{line: 2825, col: 12, offset: 89709},
 										run: (*parser).callonFootnoteElement152,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89708},
+											pos:        position{line: 2825, col: 12, offset: 89709},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22207,32 +22207,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1422, col: 1, offset: 45520},
+			pos:  position{line: 1422, col: 1, offset: 45521},
 			expr: &choiceExpr{
-				pos: position{line: 1422, col: 21, offset: 45540},
+				pos: position{line: 1422, col: 21, offset: 45541},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1422, col: 21, offset: 45540},
+						pos: position{line: 1422, col: 21, offset: 45541},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1422, col: 21, offset: 45540},
+							pos: position{line: 1422, col: 21, offset: 45541},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1422, col: 21, offset: 45540},
+									pos:        position{line: 1422, col: 21, offset: 45541},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1422, col: 30, offset: 45549},
+									pos:   position{line: 1422, col: 30, offset: 45550},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1422, col: 38, offset: 45557},
+										pos: position{line: 1422, col: 38, offset: 45558},
 										expr: &actionExpr{
-											pos: position{line: 1428, col: 30, offset: 45883},
+											pos: position{line: 1428, col: 30, offset: 45884},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1428, col: 30, offset: 45883},
+												pos:        position{line: 1428, col: 30, offset: 45884},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22242,7 +22242,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1422, col: 67, offset: 45586},
+									pos:        position{line: 1422, col: 67, offset: 45587},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22251,34 +22251,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 9, offset: 45690},
+						pos: position{line: 1424, col: 9, offset: 45691},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 9, offset: 45690},
+							pos: position{line: 1424, col: 9, offset: 45691},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 9, offset: 45690},
+									pos:        position{line: 1424, col: 9, offset: 45691},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 19, offset: 45700},
+									pos:   position{line: 1424, col: 19, offset: 45701},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1424, col: 27, offset: 45708},
+										pos: position{line: 1424, col: 27, offset: 45709},
 										expr: &choiceExpr{
-											pos: position{line: 1424, col: 28, offset: 45709},
+											pos: position{line: 1424, col: 28, offset: 45710},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1424, col: 28, offset: 45709},
+													pos:  position{line: 1424, col: 28, offset: 45710},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1428, col: 30, offset: 45883},
+													pos: position{line: 1428, col: 30, offset: 45884},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1428, col: 30, offset: 45883},
+														pos:        position{line: 1428, col: 30, offset: 45884},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22290,7 +22290,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 69, offset: 45750},
+									pos:        position{line: 1424, col: 69, offset: 45751},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22303,75 +22303,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1435, col: 1, offset: 46139},
+			pos:  position{line: 1435, col: 1, offset: 46140},
 			expr: &choiceExpr{
-				pos: position{line: 1435, col: 9, offset: 46147},
+				pos: position{line: 1435, col: 9, offset: 46148},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46216},
+						pos: position{line: 1438, col: 5, offset: 46217},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46216},
+							pos: position{line: 1438, col: 5, offset: 46217},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46216},
+									pos:        position{line: 1438, col: 5, offset: 46217},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 5, offset: 46225},
+									pos:   position{line: 1439, col: 5, offset: 46226},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90286},
+										pos: position{line: 2848, col: 23, offset: 90287},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90286},
+											pos: position{line: 2848, col: 23, offset: 90287},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90286},
+													pos: position{line: 2848, col: 23, offset: 90287},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90287},
+														pos:        position{line: 2848, col: 24, offset: 90288},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90291},
+													pos:   position{line: 2848, col: 28, offset: 90292},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90405},
+														pos: position{line: 2852, col: 11, offset: 90406},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90406},
+															pos: position{line: 2852, col: 12, offset: 90407},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90406},
+																	pos:        position{line: 2852, col: 12, offset: 90407},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90418},
+																	pos:        position{line: 2852, col: 24, offset: 90419},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90431},
+																	pos:        position{line: 2852, col: 37, offset: 90432},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90442},
+																	pos:        position{line: 2852, col: 48, offset: 90443},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90453},
+																	pos:        position{line: 2852, col: 59, offset: 90454},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22381,38 +22381,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90307},
+													pos:   position{line: 2848, col: 44, offset: 90308},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22423,27 +22423,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22452,11 +22452,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -22466,35 +22466,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22514,8 +22514,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22526,7 +22526,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22535,19 +22535,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22567,8 +22567,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22579,7 +22579,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22588,19 +22588,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22620,8 +22620,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22632,33 +22632,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22666,12 +22666,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22688,7 +22688,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22697,19 +22697,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -22729,8 +22729,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22741,33 +22741,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22775,12 +22775,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22797,7 +22797,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22812,27 +22812,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22842,7 +22842,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22851,10 +22851,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22871,7 +22871,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46444},
+									pos:        position{line: 1444, col: 5, offset: 46445},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22880,38 +22880,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 19, offset: 46157},
+						pos:  position{line: 1435, col: 19, offset: 46158},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 34, offset: 46172},
+						pos:  position{line: 1435, col: 34, offset: 46173},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1473, col: 17, offset: 47437},
+						pos: position{line: 1473, col: 17, offset: 47438},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1473, col: 17, offset: 47437},
+							pos: position{line: 1473, col: 17, offset: 47438},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1473, col: 17, offset: 47437},
+									pos:   position{line: 1473, col: 17, offset: 47438},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1478, col: 5, offset: 47602},
+										pos: position{line: 1478, col: 5, offset: 47603},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1478, col: 5, offset: 47602},
+											pos: position{line: 1478, col: 5, offset: 47603},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1478, col: 5, offset: 47602},
+													pos:   position{line: 1478, col: 5, offset: 47603},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1478, col: 12, offset: 47609},
+														pos: position{line: 1478, col: 12, offset: 47610},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1478, col: 12, offset: 47609},
+															pos: position{line: 1478, col: 12, offset: 47610},
 															expr: &charClassMatcher{
-																pos:        position{line: 1478, col: 12, offset: 47609},
+																pos:        position{line: 1478, col: 12, offset: 47610},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22923,7 +22923,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1481, col: 5, offset: 47693},
+													pos: position{line: 1481, col: 5, offset: 47694},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22931,33 +22931,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1473, col: 43, offset: 47463},
+									pos:        position{line: 1473, col: 43, offset: 47464},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1473, col: 47, offset: 47467},
+									pos:   position{line: 1473, col: 47, offset: 47468},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1490, col: 23, offset: 47987},
+										pos: position{line: 1490, col: 23, offset: 47988},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1490, col: 23, offset: 47987},
+											pos: position{line: 1490, col: 23, offset: 47988},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1490, col: 23, offset: 47987},
+													pos:   position{line: 1490, col: 23, offset: 47988},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1490, col: 31, offset: 47995},
+														pos: position{line: 1490, col: 31, offset: 47996},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1490, col: 31, offset: 47995},
+															pos: position{line: 1490, col: 31, offset: 47996},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1490, col: 31, offset: 47995},
+																	pos: position{line: 1490, col: 31, offset: 47996},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1490, col: 31, offset: 47995},
+																		pos:        position{line: 1490, col: 31, offset: 47996},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22965,23 +22965,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1490, col: 41, offset: 48005},
+																	pos: position{line: 1490, col: 41, offset: 48006},
 																	expr: &seqExpr{
-																		pos: position{line: 1490, col: 42, offset: 48006},
+																		pos: position{line: 1490, col: 42, offset: 48007},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 42, offset: 48006},
+																				pos: position{line: 1490, col: 42, offset: 48007},
 																				expr: &litMatcher{
-																					pos:        position{line: 1490, col: 42, offset: 48006},
+																					pos:        position{line: 1490, col: 42, offset: 48007},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 47, offset: 48011},
+																				pos: position{line: 1490, col: 47, offset: 48012},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1490, col: 47, offset: 48011},
+																					pos:        position{line: 1490, col: 47, offset: 48012},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -22992,20 +22992,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1490, col: 59, offset: 48023},
+																	pos: position{line: 1490, col: 59, offset: 48024},
 																	expr: &seqExpr{
-																		pos: position{line: 1490, col: 60, offset: 48024},
+																		pos: position{line: 1490, col: 60, offset: 48025},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1490, col: 60, offset: 48024},
+																				pos:        position{line: 1490, col: 60, offset: 48025},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 64, offset: 48028},
+																				pos: position{line: 1490, col: 64, offset: 48029},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1490, col: 64, offset: 48028},
+																					pos:        position{line: 1490, col: 64, offset: 48029},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23021,7 +23021,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1493, col: 5, offset: 48089},
+													pos: position{line: 1493, col: 5, offset: 48090},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23036,68 +23036,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1450, col: 1, offset: 46592},
+			pos:  position{line: 1450, col: 1, offset: 46593},
 			expr: &choiceExpr{
-				pos: position{line: 1452, col: 5, offset: 46628},
+				pos: position{line: 1452, col: 5, offset: 46629},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1452, col: 5, offset: 46628},
+						pos: position{line: 1452, col: 5, offset: 46629},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1452, col: 5, offset: 46628},
+							pos: position{line: 1452, col: 5, offset: 46629},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1452, col: 5, offset: 46628},
+									pos:        position{line: 1452, col: 5, offset: 46629},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 17, offset: 46640},
+									pos:   position{line: 1452, col: 17, offset: 46641},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 13, offset: 90159},
+										pos: position{line: 2844, col: 13, offset: 90160},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2844, col: 13, offset: 90159},
+											pos: position{line: 2844, col: 13, offset: 90160},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2844, col: 13, offset: 90159},
+													pos:   position{line: 2844, col: 13, offset: 90160},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2844, col: 20, offset: 90166},
+														pos: position{line: 2844, col: 20, offset: 90167},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90405},
+															pos: position{line: 2852, col: 11, offset: 90406},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 12, offset: 90406},
+																pos: position{line: 2852, col: 12, offset: 90407},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 12, offset: 90406},
+																		pos:        position{line: 2852, col: 12, offset: 90407},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 24, offset: 90418},
+																		pos:        position{line: 2852, col: 24, offset: 90419},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 37, offset: 90431},
+																		pos:        position{line: 2852, col: 37, offset: 90432},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 48, offset: 90442},
+																		pos:        position{line: 2852, col: 48, offset: 90443},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 59, offset: 90453},
+																		pos:        position{line: 2852, col: 59, offset: 90454},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23108,38 +23108,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2844, col: 30, offset: 90176},
+													pos:   position{line: 2844, col: 30, offset: 90177},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23150,27 +23150,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23179,11 +23179,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -23193,35 +23193,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23241,8 +23241,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23253,7 +23253,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23262,19 +23262,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23294,8 +23294,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23306,7 +23306,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23315,19 +23315,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23347,8 +23347,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23359,33 +23359,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23393,12 +23393,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23415,7 +23415,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23424,19 +23424,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23456,8 +23456,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23468,33 +23468,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23502,12 +23502,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23524,7 +23524,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23539,27 +23539,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23569,7 +23569,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23578,10 +23578,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23598,10 +23598,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 32, offset: 46655},
+									pos:   position{line: 1452, col: 32, offset: 46656},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1452, col: 44, offset: 46667},
+										pos:  position{line: 1452, col: 44, offset: 46668},
 										name: "InlineAttributes",
 									},
 								},
@@ -23609,63 +23609,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1457, col: 5, offset: 46799},
+						pos: position{line: 1457, col: 5, offset: 46800},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1457, col: 5, offset: 46799},
+							pos: position{line: 1457, col: 5, offset: 46800},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1457, col: 5, offset: 46799},
+									pos:        position{line: 1457, col: 5, offset: 46800},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 13, offset: 46807},
+									pos:   position{line: 1457, col: 13, offset: 46808},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 13, offset: 90159},
+										pos: position{line: 2844, col: 13, offset: 90160},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2844, col: 13, offset: 90159},
+											pos: position{line: 2844, col: 13, offset: 90160},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2844, col: 13, offset: 90159},
+													pos:   position{line: 2844, col: 13, offset: 90160},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2844, col: 20, offset: 90166},
+														pos: position{line: 2844, col: 20, offset: 90167},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90405},
+															pos: position{line: 2852, col: 11, offset: 90406},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 12, offset: 90406},
+																pos: position{line: 2852, col: 12, offset: 90407},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 12, offset: 90406},
+																		pos:        position{line: 2852, col: 12, offset: 90407},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 24, offset: 90418},
+																		pos:        position{line: 2852, col: 24, offset: 90419},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 37, offset: 90431},
+																		pos:        position{line: 2852, col: 37, offset: 90432},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 48, offset: 90442},
+																		pos:        position{line: 2852, col: 48, offset: 90443},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 59, offset: 90453},
+																		pos:        position{line: 2852, col: 59, offset: 90454},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23676,38 +23676,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2844, col: 30, offset: 90176},
+													pos:   position{line: 2844, col: 30, offset: 90177},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23718,27 +23718,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23747,11 +23747,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -23761,35 +23761,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23809,8 +23809,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23821,7 +23821,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23830,19 +23830,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23862,8 +23862,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23874,7 +23874,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23883,19 +23883,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -23915,8 +23915,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23927,33 +23927,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23961,12 +23961,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23983,7 +23983,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23992,19 +23992,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24024,8 +24024,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24036,33 +24036,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24070,12 +24070,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24092,7 +24092,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24107,27 +24107,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24137,7 +24137,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24146,10 +24146,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24166,10 +24166,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 28, offset: 46822},
+									pos:   position{line: 1457, col: 28, offset: 46823},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1457, col: 40, offset: 46834},
+										pos:  position{line: 1457, col: 40, offset: 46835},
 										name: "InlineAttributes",
 									},
 								},
@@ -24181,75 +24181,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1461, col: 1, offset: 46950},
+			pos:  position{line: 1461, col: 1, offset: 46951},
 			expr: &choiceExpr{
-				pos: position{line: 1464, col: 5, offset: 47112},
+				pos: position{line: 1464, col: 5, offset: 47113},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1464, col: 5, offset: 47112},
+						pos: position{line: 1464, col: 5, offset: 47113},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1464, col: 5, offset: 47112},
+							pos: position{line: 1464, col: 5, offset: 47113},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1464, col: 5, offset: 47112},
+									pos:        position{line: 1464, col: 5, offset: 47113},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 9, offset: 47116},
+									pos:   position{line: 1464, col: 9, offset: 47117},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90286},
+										pos: position{line: 2848, col: 23, offset: 90287},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90286},
+											pos: position{line: 2848, col: 23, offset: 90287},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90286},
+													pos: position{line: 2848, col: 23, offset: 90287},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90287},
+														pos:        position{line: 2848, col: 24, offset: 90288},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90291},
+													pos:   position{line: 2848, col: 28, offset: 90292},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90405},
+														pos: position{line: 2852, col: 11, offset: 90406},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90406},
+															pos: position{line: 2852, col: 12, offset: 90407},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90406},
+																	pos:        position{line: 2852, col: 12, offset: 90407},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90418},
+																	pos:        position{line: 2852, col: 24, offset: 90419},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90431},
+																	pos:        position{line: 2852, col: 37, offset: 90432},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90442},
+																	pos:        position{line: 2852, col: 48, offset: 90443},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90453},
+																	pos:        position{line: 2852, col: 59, offset: 90454},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24259,38 +24259,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90307},
+													pos:   position{line: 2848, col: 44, offset: 90308},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24301,27 +24301,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24330,11 +24330,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -24344,35 +24344,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24392,8 +24392,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24404,7 +24404,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24413,19 +24413,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24445,8 +24445,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24457,7 +24457,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24466,19 +24466,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24498,8 +24498,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24510,33 +24510,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24544,12 +24544,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24566,7 +24566,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24575,19 +24575,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24607,8 +24607,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24619,33 +24619,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24653,12 +24653,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24675,7 +24675,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24690,27 +24690,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24720,7 +24720,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24729,10 +24729,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24749,12 +24749,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 34, offset: 47141},
+									pos:   position{line: 1464, col: 34, offset: 47142},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1464, col: 45, offset: 47152},
+										pos: position{line: 1464, col: 45, offset: 47153},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1464, col: 46, offset: 47153},
+											pos:  position{line: 1464, col: 46, offset: 47154},
 											name: "InlineAttributes",
 										},
 									},
@@ -24763,64 +24763,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1469, col: 5, offset: 47286},
+						pos: position{line: 1469, col: 5, offset: 47287},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1469, col: 5, offset: 47286},
+							pos: position{line: 1469, col: 5, offset: 47287},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1469, col: 5, offset: 47286},
+									pos:   position{line: 1469, col: 5, offset: 47287},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90286},
+										pos: position{line: 2848, col: 23, offset: 90287},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90286},
+											pos: position{line: 2848, col: 23, offset: 90287},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90286},
+													pos: position{line: 2848, col: 23, offset: 90287},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90287},
+														pos:        position{line: 2848, col: 24, offset: 90288},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90291},
+													pos:   position{line: 2848, col: 28, offset: 90292},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90405},
+														pos: position{line: 2852, col: 11, offset: 90406},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90406},
+															pos: position{line: 2852, col: 12, offset: 90407},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90406},
+																	pos:        position{line: 2852, col: 12, offset: 90407},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90418},
+																	pos:        position{line: 2852, col: 24, offset: 90419},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90431},
+																	pos:        position{line: 2852, col: 37, offset: 90432},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90442},
+																	pos:        position{line: 2852, col: 48, offset: 90443},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90453},
+																	pos:        position{line: 2852, col: 59, offset: 90454},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24830,38 +24830,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90307},
+													pos:   position{line: 2848, col: 44, offset: 90308},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90517},
+														pos: position{line: 2857, col: 5, offset: 90518},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90517},
+															pos:   position{line: 2857, col: 5, offset: 90518},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90526},
+																pos: position{line: 2857, col: 14, offset: 90527},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90536},
+																	pos: position{line: 2858, col: 9, offset: 90537},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90536},
+																			pos: position{line: 2858, col: 9, offset: 90537},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90536},
+																				pos: position{line: 2858, col: 9, offset: 90537},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90536},
+																						pos: position{line: 2858, col: 9, offset: 90537},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90537},
+																							pos:        position{line: 2858, col: 10, offset: 90538},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90565},
+																						pos: position{line: 2859, col: 9, offset: 90566},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90566},
+																							pos:        position{line: 2859, col: 10, offset: 90567},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24872,27 +24872,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90778},
+																			pos: position{line: 2862, col: 11, offset: 90779},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90778},
+																					pos:        position{line: 2862, col: 11, offset: 90779},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90786},
+																					pos: position{line: 2862, col: 19, offset: 90787},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90788},
+																						pos: position{line: 2862, col: 21, offset: 90789},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90788},
+																								pos: position{line: 2862, col: 21, offset: 90789},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24901,11 +24901,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90795},
+																								pos: position{line: 2862, col: 28, offset: 90796},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -24915,35 +24915,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 656, col: 5, offset: 20754},
+																			pos: position{line: 656, col: 5, offset: 20755},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 656, col: 5, offset: 20754},
+																				pos: position{line: 656, col: 5, offset: 20755},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 656, col: 5, offset: 20754},
+																						pos: position{line: 656, col: 5, offset: 20755},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 659, col: 5, offset: 20826},
+																						pos:   position{line: 659, col: 5, offset: 20827},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 659, col: 14, offset: 20835},
+																							pos: position{line: 659, col: 14, offset: 20836},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 665, col: 5, offset: 20964},
+																									pos: position{line: 665, col: 5, offset: 20965},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 5, offset: 20964},
+																										pos: position{line: 665, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 5, offset: 20964},
+																												pos:        position{line: 665, col: 5, offset: 20965},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 13, offset: 20972},
+																												pos:   position{line: 665, col: 13, offset: 20973},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -24963,8 +24963,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24975,7 +24975,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 32, offset: 20991},
+																												pos:        position{line: 665, col: 32, offset: 20992},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24984,19 +24984,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 5, offset: 21232},
+																									pos: position{line: 672, col: 5, offset: 21233},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 5, offset: 21232},
+																										pos: position{line: 672, col: 5, offset: 21233},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 5, offset: 21232},
+																												pos:        position{line: 672, col: 5, offset: 21233},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 9, offset: 21236},
+																												pos:   position{line: 672, col: 9, offset: 21237},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -25016,8 +25016,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -25028,7 +25028,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 28, offset: 21255},
+																												pos:        position{line: 672, col: 28, offset: 21256},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25037,19 +25037,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 25, offset: 21436},
+																									pos: position{line: 678, col: 25, offset: 21437},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 678, col: 25, offset: 21436},
+																										pos: position{line: 678, col: 25, offset: 21437},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 678, col: 25, offset: 21436},
+																												pos:        position{line: 678, col: 25, offset: 21437},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 37, offset: 21448},
+																												pos:   position{line: 678, col: 37, offset: 21449},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -25069,8 +25069,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -25081,33 +25081,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 678, col: 56, offset: 21467},
+																												pos:   position{line: 678, col: 56, offset: 21468},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 678, col: 62, offset: 21473},
+																													pos: position{line: 678, col: 62, offset: 21474},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -25115,12 +25115,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25137,7 +25137,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 678, col: 78, offset: 21489},
+																												pos:        position{line: 678, col: 78, offset: 21490},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25146,19 +25146,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 682, col: 25, offset: 21607},
+																									pos: position{line: 682, col: 25, offset: 21608},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 682, col: 25, offset: 21607},
+																										pos: position{line: 682, col: 25, offset: 21608},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 682, col: 25, offset: 21607},
+																												pos:        position{line: 682, col: 25, offset: 21608},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 38, offset: 21620},
+																												pos:   position{line: 682, col: 38, offset: 21621},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 319, col: 18, offset: 9747},
@@ -25178,8 +25178,8 @@ var g = &grammar{
 																																pos: position{line: 319, col: 28, offset: 9757},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 319, col: 29, offset: 9758},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -25190,33 +25190,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 682, col: 57, offset: 21639},
+																												pos:   position{line: 682, col: 57, offset: 21640},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 682, col: 63, offset: 21645},
+																													pos: position{line: 682, col: 63, offset: 21646},
 																													expr: &actionExpr{
-																														pos: position{line: 686, col: 17, offset: 21768},
+																														pos: position{line: 686, col: 17, offset: 21769},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 686, col: 17, offset: 21768},
+																															pos: position{line: 686, col: 17, offset: 21769},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 686, col: 17, offset: 21768},
+																																	pos:        position{line: 686, col: 17, offset: 21769},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 686, col: 21, offset: 21772},
+																																	pos:   position{line: 686, col: 21, offset: 21773},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 686, col: 28, offset: 21779},
+																																		pos: position{line: 686, col: 28, offset: 21780},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 686, col: 28, offset: 21779},
+																																				pos: position{line: 686, col: 28, offset: 21780},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 686, col: 28, offset: 21779},
+																																					pos:        position{line: 686, col: 28, offset: 21780},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -25224,12 +25224,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 688, col: 9, offset: 21833},
+																																				pos: position{line: 688, col: 9, offset: 21834},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 688, col: 9, offset: 21833},
+																																					pos: position{line: 688, col: 9, offset: 21834},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 688, col: 9, offset: 21833},
+																																						pos:        position{line: 688, col: 9, offset: 21834},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25246,7 +25246,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 682, col: 79, offset: 21661},
+																												pos:        position{line: 682, col: 79, offset: 21662},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25261,27 +25261,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1226, col: 23, offset: 37842},
+																			pos: position{line: 1226, col: 23, offset: 37843},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1226, col: 23, offset: 37842},
+																				pos: position{line: 1226, col: 23, offset: 37843},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1226, col: 51, offset: 37870},
+																						pos:   position{line: 1226, col: 51, offset: 37871},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1226, col: 56, offset: 37875},
+																							pos: position{line: 1226, col: 56, offset: 37876},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1226, col: 56, offset: 37875},
+																								pos: position{line: 1226, col: 56, offset: 37876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1226, col: 56, offset: 37875},
+																									pos:        position{line: 1226, col: 56, offset: 37876},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -25291,7 +25291,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1224, col: 32, offset: 37810},
+																						pos:        position{line: 1224, col: 32, offset: 37811},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -25300,10 +25300,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90915},
+																			pos: position{line: 2865, col: 11, offset: 90916},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90915},
+																				pos:        position{line: 2865, col: 11, offset: 90916},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25320,12 +25320,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1469, col: 30, offset: 47311},
+									pos:   position{line: 1469, col: 30, offset: 47312},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1469, col: 41, offset: 47322},
+										pos: position{line: 1469, col: 41, offset: 47323},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1469, col: 42, offset: 47323},
+											pos:  position{line: 1469, col: 42, offset: 47324},
 											name: "InlineAttributes",
 										},
 									},
@@ -25338,41 +25338,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1503, col: 1, offset: 48482},
+			pos:  position{line: 1503, col: 1, offset: 48483},
 			expr: &actionExpr{
-				pos: position{line: 1504, col: 5, offset: 48503},
+				pos: position{line: 1504, col: 5, offset: 48504},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1504, col: 5, offset: 48503},
+					pos: position{line: 1504, col: 5, offset: 48504},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1504, col: 5, offset: 48503},
+							pos:   position{line: 1504, col: 5, offset: 48504},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1510, col: 5, offset: 48705},
+								pos: position{line: 1510, col: 5, offset: 48706},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1603, col: 5, offset: 51679},
+										pos: position{line: 1603, col: 5, offset: 51680},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1603, col: 5, offset: 51679},
+											pos: position{line: 1603, col: 5, offset: 51680},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1603, col: 5, offset: 51679},
+													pos:   position{line: 1603, col: 5, offset: 51680},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51887},
+														pos: position{line: 1610, col: 5, offset: 51888},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51887},
+															pos: position{line: 1610, col: 5, offset: 51888},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51887},
+																	pos: position{line: 1610, col: 5, offset: 51888},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25381,27 +25381,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51894},
+																	pos:   position{line: 1610, col: 12, offset: 51895},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51957},
+																		pos: position{line: 1612, col: 9, offset: 51958},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51957},
+																				pos: position{line: 1612, col: 9, offset: 51958},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51957},
+																					pos: position{line: 1612, col: 9, offset: 51958},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51957},
+																							pos:   position{line: 1612, col: 9, offset: 51958},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51964},
+																								pos: position{line: 1612, col: 16, offset: 51965},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51964},
+																									pos: position{line: 1612, col: 16, offset: 51965},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51965},
+																										pos:        position{line: 1612, col: 17, offset: 51966},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25410,22 +25410,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52065},
+																							pos: position{line: 1616, col: 9, offset: 52066},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52782},
+																				pos: position{line: 1635, col: 11, offset: 52783},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52782},
+																					pos: position{line: 1635, col: 11, offset: 52783},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52782},
+																							pos: position{line: 1635, col: 11, offset: 52783},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52783},
+																								pos:        position{line: 1635, col: 12, offset: 52784},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25433,7 +25433,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52791},
+																							pos:        position{line: 1635, col: 20, offset: 52792},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25442,20 +25442,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52908},
+																				pos: position{line: 1637, col: 13, offset: 52909},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52908},
+																					pos: position{line: 1637, col: 13, offset: 52909},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52909},
+																							pos:        position{line: 1637, col: 14, offset: 52910},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52916},
+																							pos:        position{line: 1637, col: 21, offset: 52917},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25464,20 +25464,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53036},
+																				pos: position{line: 1639, col: 13, offset: 53037},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53036},
+																					pos: position{line: 1639, col: 13, offset: 53037},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53037},
+																							pos:        position{line: 1639, col: 14, offset: 53038},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53044},
+																							pos:        position{line: 1639, col: 21, offset: 53045},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25486,15 +25486,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53164},
+																				pos: position{line: 1641, col: 13, offset: 53165},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53164},
+																					pos: position{line: 1641, col: 13, offset: 53165},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53164},
+																							pos: position{line: 1641, col: 13, offset: 53165},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53165},
+																								pos:        position{line: 1641, col: 14, offset: 53166},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25502,7 +25502,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53177},
+																							pos:        position{line: 1641, col: 26, offset: 53178},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25511,15 +25511,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53297},
+																				pos: position{line: 1643, col: 13, offset: 53298},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53297},
+																					pos: position{line: 1643, col: 13, offset: 53298},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53297},
+																							pos: position{line: 1643, col: 13, offset: 53298},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53298},
+																								pos:        position{line: 1643, col: 14, offset: 53299},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25527,7 +25527,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53310},
+																							pos:        position{line: 1643, col: 26, offset: 53311},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25539,12 +25539,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25557,26 +25557,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51718},
+													pos:   position{line: 1604, col: 5, offset: 51719},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25587,28 +25587,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25617,9 +25617,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -25632,27 +25632,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1653, col: 5, offset: 53576},
+										pos: position{line: 1653, col: 5, offset: 53577},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1653, col: 5, offset: 53576},
+											pos: position{line: 1653, col: 5, offset: 53577},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53576},
+													pos:   position{line: 1653, col: 5, offset: 53577},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53849},
+														pos: position{line: 1660, col: 5, offset: 53850},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53849},
+															pos: position{line: 1660, col: 5, offset: 53850},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53849},
+																	pos: position{line: 1660, col: 5, offset: 53850},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25661,24 +25661,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53861},
+																	pos:   position{line: 1661, col: 5, offset: 53862},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53877},
+																		pos: position{line: 1662, col: 9, offset: 53878},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53878},
+																			pos: position{line: 1662, col: 10, offset: 53879},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53879},
+																					pos:        position{line: 1662, col: 11, offset: 53880},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53886},
+																					pos: position{line: 1662, col: 18, offset: 53887},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53887},
+																						pos:        position{line: 1662, col: 19, offset: 53888},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25689,16 +25689,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53977},
+																	pos: position{line: 1665, col: 7, offset: 53978},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25711,56 +25711,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53617},
+													pos:   position{line: 1654, col: 5, offset: 53618},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1654, col: 16, offset: 53628},
+														pos: position{line: 1654, col: 16, offset: 53629},
 														expr: &actionExpr{
-															pos: position{line: 1675, col: 5, offset: 54242},
+															pos: position{line: 1675, col: 5, offset: 54243},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 5, offset: 54242},
+																pos: position{line: 1675, col: 5, offset: 54243},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1675, col: 5, offset: 54242},
+																		pos: position{line: 1675, col: 5, offset: 54243},
 																		expr: &litMatcher{
-																			pos:        position{line: 1675, col: 6, offset: 54243},
+																			pos:        position{line: 1675, col: 6, offset: 54244},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1675, col: 10, offset: 54247},
+																		pos:   position{line: 1675, col: 10, offset: 54248},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1676, col: 7, offset: 54261},
+																			pos: position{line: 1676, col: 7, offset: 54262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54261},
+																					pos: position{line: 1676, col: 7, offset: 54262},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54261},
+																						pos:        position{line: 1676, col: 7, offset: 54262},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1677, col: 7, offset: 54306},
+																					pos: position{line: 1677, col: 7, offset: 54307},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1677, col: 7, offset: 54306},
+																						pos:        position{line: 1677, col: 7, offset: 54307},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1678, col: 7, offset: 54349},
+																					pos: position{line: 1678, col: 7, offset: 54350},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 7, offset: 54349},
+																						pos:        position{line: 1678, col: 7, offset: 54350},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25770,12 +25770,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2890, col: 11, offset: 91461},
+																			pos: position{line: 2890, col: 11, offset: 91462},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2890, col: 11, offset: 91461},
+																				pos:        position{line: 2890, col: 11, offset: 91462},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25789,26 +25789,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53667},
+													pos:   position{line: 1655, col: 5, offset: 53668},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25819,28 +25819,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25849,9 +25849,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -25864,36 +25864,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1743, col: 5, offset: 56189},
+										pos: position{line: 1743, col: 5, offset: 56190},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1743, col: 5, offset: 56189},
+											pos: position{line: 1743, col: 5, offset: 56190},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56189},
+													pos:   position{line: 1743, col: 5, offset: 56190},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56386},
+														pos: position{line: 1749, col: 5, offset: 56387},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56386},
+															pos: position{line: 1749, col: 5, offset: 56387},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56386},
+																	pos:        position{line: 1749, col: 5, offset: 56387},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56390},
+																	pos:   position{line: 1749, col: 9, offset: 56391},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56395},
+																		pos: position{line: 1749, col: 14, offset: 56396},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56395},
+																			pos: position{line: 1749, col: 14, offset: 56396},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56395},
+																				pos:        position{line: 1749, col: 14, offset: 56396},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25903,18 +25903,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56443},
+																	pos:        position{line: 1749, col: 62, offset: 56444},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25927,26 +25927,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1744, col: 5, offset: 56225},
+													pos:   position{line: 1744, col: 5, offset: 56226},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25957,28 +25957,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25987,9 +25987,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -26002,40 +26002,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1687, col: 5, offset: 54542},
+										pos: position{line: 1687, col: 5, offset: 54543},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1687, col: 5, offset: 54542},
+											pos: position{line: 1687, col: 5, offset: 54543},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54542},
+													pos:   position{line: 1687, col: 5, offset: 54543},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1695, col: 5, offset: 54868},
+														pos: position{line: 1695, col: 5, offset: 54869},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1695, col: 5, offset: 54868},
+															pos: position{line: 1695, col: 5, offset: 54869},
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 6, offset: 54869},
+																pos: position{line: 1695, col: 6, offset: 54870},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1695, col: 6, offset: 54869},
+																		pos: position{line: 1695, col: 6, offset: 54870},
 																		expr: &actionExpr{
-																			pos: position{line: 1700, col: 5, offset: 55019},
+																			pos: position{line: 1700, col: 5, offset: 55020},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1700, col: 5, offset: 55019},
+																				pos: position{line: 1700, col: 5, offset: 55020},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1700, col: 5, offset: 55019},
+																						pos:   position{line: 1700, col: 5, offset: 55020},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1700, col: 16, offset: 55030},
+																							pos: position{line: 1700, col: 16, offset: 55031},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1700, col: 16, offset: 55030},
+																								pos: position{line: 1700, col: 16, offset: 55031},
 																								expr: &litMatcher{
-																									pos:        position{line: 1700, col: 17, offset: 55031},
+																									pos:        position{line: 1700, col: 17, offset: 55032},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26044,7 +26044,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1703, col: 5, offset: 55088},
+																						pos: position{line: 1703, col: 5, offset: 55089},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26052,30 +26052,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1695, col: 35, offset: 54898},
+																		pos: position{line: 1695, col: 35, offset: 54899},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26084,16 +26084,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1695, col: 40, offset: 54903,
+																		line: 1695, col: 40, offset: 54904,
 																	},
 																},
 															},
@@ -26101,24 +26101,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1688, col: 5, offset: 54577},
+													pos:   position{line: 1688, col: 5, offset: 54578},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 55019},
+														pos: position{line: 1700, col: 5, offset: 55020},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1700, col: 5, offset: 55019},
+															pos: position{line: 1700, col: 5, offset: 55020},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1700, col: 5, offset: 55019},
+																	pos:   position{line: 1700, col: 5, offset: 55020},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1700, col: 16, offset: 55030},
+																		pos: position{line: 1700, col: 16, offset: 55031},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1700, col: 16, offset: 55030},
+																			pos: position{line: 1700, col: 16, offset: 55031},
 																			expr: &litMatcher{
-																				pos:        position{line: 1700, col: 17, offset: 55031},
+																				pos:        position{line: 1700, col: 17, offset: 55032},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26127,7 +26127,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1703, col: 5, offset: 55088},
+																	pos: position{line: 1703, col: 5, offset: 55089},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26135,24 +26135,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1689, col: 5, offset: 54622},
+													pos:   position{line: 1689, col: 5, offset: 54623},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1711, col: 5, offset: 55337},
+														pos: position{line: 1711, col: 5, offset: 55338},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1713, col: 9, offset: 55403},
+																pos: position{line: 1713, col: 9, offset: 55404},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1713, col: 9, offset: 55403},
+																	pos: position{line: 1713, col: 9, offset: 55404},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55403},
+																			pos: position{line: 1713, col: 9, offset: 55404},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26161,28 +26161,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26191,34 +26191,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1714, col: 9, offset: 55422},
+																			pos: position{line: 1714, col: 9, offset: 55423},
 																			expr: &actionExpr{
-																				pos: position{line: 697, col: 14, offset: 22134},
+																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 697, col: 14, offset: 22134},
+																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 697, col: 21, offset: 22141},
+																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26227,28 +26227,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26257,9 +26257,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -26272,18 +26272,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 9, offset: 55551},
+																pos: position{line: 1720, col: 9, offset: 55552},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 9, offset: 55551},
+																	pos: position{line: 1720, col: 9, offset: 55552},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 11, offset: 91461},
+																			pos: position{line: 2890, col: 11, offset: 91462},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2890, col: 11, offset: 91461},
+																				pos: position{line: 2890, col: 11, offset: 91462},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 11, offset: 91461},
+																					pos:        position{line: 2890, col: 11, offset: 91462},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26292,15 +26292,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 9, offset: 55624},
+																			pos:   position{line: 1721, col: 9, offset: 55625},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 18, offset: 55633},
+																				pos: position{line: 1721, col: 18, offset: 55634},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1721, col: 18, offset: 55633},
+																					pos: position{line: 1721, col: 18, offset: 55634},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1721, col: 18, offset: 55633},
+																						pos:        position{line: 1721, col: 18, offset: 55634},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26310,28 +26310,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26340,9 +26340,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -26360,10 +26360,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1505, col: 5, offset: 48534},
+							pos:   position{line: 1505, col: 5, offset: 48535},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1505, col: 20, offset: 48549},
+								pos:  position{line: 1505, col: 20, offset: 48550},
 								name: "ExtraListElements",
 							},
 						},
@@ -26373,17 +26373,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1515, col: 1, offset: 48804},
+			pos:  position{line: 1515, col: 1, offset: 48805},
 			expr: &actionExpr{
-				pos: position{line: 1515, col: 22, offset: 48825},
+				pos: position{line: 1515, col: 22, offset: 48826},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1515, col: 22, offset: 48825},
+					pos:   position{line: 1515, col: 22, offset: 48826},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1515, col: 31, offset: 48834},
+						pos: position{line: 1515, col: 31, offset: 48835},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1515, col: 32, offset: 48835},
+							pos:  position{line: 1515, col: 32, offset: 48836},
 							name: "ExtraListElement",
 						},
 					},
@@ -26392,52 +26392,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1519, col: 1, offset: 48915},
+			pos:  position{line: 1519, col: 1, offset: 48916},
 			expr: &actionExpr{
-				pos: position{line: 1520, col: 5, offset: 49054},
+				pos: position{line: 1520, col: 5, offset: 49055},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1520, col: 5, offset: 49054},
+					pos: position{line: 1520, col: 5, offset: 49055},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1521, col: 5, offset: 49066},
+							pos:   position{line: 1521, col: 5, offset: 49067},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1522, col: 9, offset: 49084},
+								pos: position{line: 1522, col: 9, offset: 49085},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1522, col: 13, offset: 49088},
+										pos: position{line: 1522, col: 13, offset: 49089},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1522, col: 13, offset: 49088},
+											pos: position{line: 1522, col: 13, offset: 49089},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1522, col: 13, offset: 49088},
+													pos: position{line: 1522, col: 13, offset: 49089},
 													expr: &actionExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 697, col: 14, offset: 22134},
+															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2903, col: 11, offset: 91734},
+																	pos: position{line: 2903, col: 11, offset: 91735},
 																	expr: &anyMatcher{
-																		line: 2903, col: 13, offset: 91736,
+																		line: 2903, col: 13, offset: 91737,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 697, col: 21, offset: 22141},
+																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26446,28 +26446,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26476,9 +26476,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -26488,33 +26488,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1523, col: 13, offset: 49112},
+													pos:   position{line: 1523, col: 13, offset: 49113},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1523, col: 22, offset: 49121},
+														pos: position{line: 1523, col: 22, offset: 49122},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1603, col: 5, offset: 51679},
+																pos: position{line: 1603, col: 5, offset: 51680},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1603, col: 5, offset: 51679},
+																	pos: position{line: 1603, col: 5, offset: 51680},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1603, col: 5, offset: 51679},
+																			pos:   position{line: 1603, col: 5, offset: 51680},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1610, col: 5, offset: 51887},
+																				pos: position{line: 1610, col: 5, offset: 51888},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 5, offset: 51887},
+																					pos: position{line: 1610, col: 5, offset: 51888},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1610, col: 5, offset: 51887},
+																							pos: position{line: 1610, col: 5, offset: 51888},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26523,27 +26523,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 12, offset: 51894},
+																							pos:   position{line: 1610, col: 12, offset: 51895},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1612, col: 9, offset: 51957},
+																								pos: position{line: 1612, col: 9, offset: 51958},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1612, col: 9, offset: 51957},
+																										pos: position{line: 1612, col: 9, offset: 51958},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 9, offset: 51957},
+																											pos: position{line: 1612, col: 9, offset: 51958},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1612, col: 9, offset: 51957},
+																													pos:   position{line: 1612, col: 9, offset: 51958},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1612, col: 16, offset: 51964},
+																														pos: position{line: 1612, col: 16, offset: 51965},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1612, col: 16, offset: 51964},
+																															pos: position{line: 1612, col: 16, offset: 51965},
 																															expr: &litMatcher{
-																																pos:        position{line: 1612, col: 17, offset: 51965},
+																																pos:        position{line: 1612, col: 17, offset: 51966},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26552,22 +26552,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1616, col: 9, offset: 52065},
+																													pos: position{line: 1616, col: 9, offset: 52066},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 11, offset: 52782},
+																										pos: position{line: 1635, col: 11, offset: 52783},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 11, offset: 52782},
+																											pos: position{line: 1635, col: 11, offset: 52783},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1635, col: 11, offset: 52782},
+																													pos: position{line: 1635, col: 11, offset: 52783},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1635, col: 12, offset: 52783},
+																														pos:        position{line: 1635, col: 12, offset: 52784},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26575,7 +26575,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 20, offset: 52791},
+																													pos:        position{line: 1635, col: 20, offset: 52792},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26584,20 +26584,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 52908},
+																										pos: position{line: 1637, col: 13, offset: 52909},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 52908},
+																											pos: position{line: 1637, col: 13, offset: 52909},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 52909},
+																													pos:        position{line: 1637, col: 14, offset: 52910},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 52916},
+																													pos:        position{line: 1637, col: 21, offset: 52917},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26606,20 +26606,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53036},
+																										pos: position{line: 1639, col: 13, offset: 53037},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53036},
+																											pos: position{line: 1639, col: 13, offset: 53037},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1639, col: 14, offset: 53037},
+																													pos:        position{line: 1639, col: 14, offset: 53038},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 21, offset: 53044},
+																													pos:        position{line: 1639, col: 21, offset: 53045},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26628,15 +26628,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53164},
+																										pos: position{line: 1641, col: 13, offset: 53165},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53164},
+																											pos: position{line: 1641, col: 13, offset: 53165},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53164},
+																													pos: position{line: 1641, col: 13, offset: 53165},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53165},
+																														pos:        position{line: 1641, col: 14, offset: 53166},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26644,7 +26644,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53177},
+																													pos:        position{line: 1641, col: 26, offset: 53178},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26653,15 +26653,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53297},
+																										pos: position{line: 1643, col: 13, offset: 53298},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53297},
+																											pos: position{line: 1643, col: 13, offset: 53298},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1643, col: 13, offset: 53297},
+																													pos: position{line: 1643, col: 13, offset: 53298},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1643, col: 14, offset: 53298},
+																														pos:        position{line: 1643, col: 14, offset: 53299},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26669,7 +26669,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 26, offset: 53310},
+																													pos:        position{line: 1643, col: 26, offset: 53311},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26681,12 +26681,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26699,26 +26699,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1604, col: 5, offset: 51718},
+																			pos:   position{line: 1604, col: 5, offset: 51719},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26729,28 +26729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26759,9 +26759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -26774,27 +26774,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1653, col: 5, offset: 53576},
+																pos: position{line: 1653, col: 5, offset: 53577},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1653, col: 5, offset: 53576},
+																	pos: position{line: 1653, col: 5, offset: 53577},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53576},
+																			pos:   position{line: 1653, col: 5, offset: 53577},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1660, col: 5, offset: 53849},
+																				pos: position{line: 1660, col: 5, offset: 53850},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1660, col: 5, offset: 53849},
+																					pos: position{line: 1660, col: 5, offset: 53850},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1660, col: 5, offset: 53849},
+																							pos: position{line: 1660, col: 5, offset: 53850},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26803,24 +26803,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1661, col: 5, offset: 53861},
+																							pos:   position{line: 1661, col: 5, offset: 53862},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1662, col: 9, offset: 53877},
+																								pos: position{line: 1662, col: 9, offset: 53878},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 10, offset: 53878},
+																									pos: position{line: 1662, col: 10, offset: 53879},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1662, col: 11, offset: 53879},
+																											pos:        position{line: 1662, col: 11, offset: 53880},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1662, col: 18, offset: 53886},
+																											pos: position{line: 1662, col: 18, offset: 53887},
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 19, offset: 53887},
+																												pos:        position{line: 1662, col: 19, offset: 53888},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26831,16 +26831,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1665, col: 7, offset: 53977},
+																							pos: position{line: 1665, col: 7, offset: 53978},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26853,56 +26853,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53617},
+																			pos:   position{line: 1654, col: 5, offset: 53618},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1654, col: 16, offset: 53628},
+																				pos: position{line: 1654, col: 16, offset: 53629},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54242},
+																					pos: position{line: 1675, col: 5, offset: 54243},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54242},
+																						pos: position{line: 1675, col: 5, offset: 54243},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1675, col: 5, offset: 54242},
+																								pos: position{line: 1675, col: 5, offset: 54243},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 6, offset: 54243},
+																									pos:        position{line: 1675, col: 6, offset: 54244},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 10, offset: 54247},
+																								pos:   position{line: 1675, col: 10, offset: 54248},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1676, col: 7, offset: 54261},
+																									pos: position{line: 1676, col: 7, offset: 54262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54261},
+																											pos: position{line: 1676, col: 7, offset: 54262},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54261},
+																												pos:        position{line: 1676, col: 7, offset: 54262},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1677, col: 7, offset: 54306},
+																											pos: position{line: 1677, col: 7, offset: 54307},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1677, col: 7, offset: 54306},
+																												pos:        position{line: 1677, col: 7, offset: 54307},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1678, col: 7, offset: 54349},
+																											pos: position{line: 1678, col: 7, offset: 54350},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1678, col: 7, offset: 54349},
+																												pos:        position{line: 1678, col: 7, offset: 54350},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26912,12 +26912,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2890, col: 11, offset: 91461},
+																									pos: position{line: 2890, col: 11, offset: 91462},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 11, offset: 91461},
+																										pos:        position{line: 2890, col: 11, offset: 91462},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26931,26 +26931,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53667},
+																			pos:   position{line: 1655, col: 5, offset: 53668},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26961,28 +26961,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26991,9 +26991,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -27006,36 +27006,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1743, col: 5, offset: 56189},
+																pos: position{line: 1743, col: 5, offset: 56190},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1743, col: 5, offset: 56189},
+																	pos: position{line: 1743, col: 5, offset: 56190},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56189},
+																			pos:   position{line: 1743, col: 5, offset: 56190},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1749, col: 5, offset: 56386},
+																				pos: position{line: 1749, col: 5, offset: 56387},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1749, col: 5, offset: 56386},
+																					pos: position{line: 1749, col: 5, offset: 56387},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 5, offset: 56386},
+																							pos:        position{line: 1749, col: 5, offset: 56387},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1749, col: 9, offset: 56390},
+																							pos:   position{line: 1749, col: 9, offset: 56391},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1749, col: 14, offset: 56395},
+																								pos: position{line: 1749, col: 14, offset: 56396},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1749, col: 14, offset: 56395},
+																									pos: position{line: 1749, col: 14, offset: 56396},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1749, col: 14, offset: 56395},
+																										pos:        position{line: 1749, col: 14, offset: 56396},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27045,18 +27045,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 62, offset: 56443},
+																							pos:        position{line: 1749, col: 62, offset: 56444},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27069,26 +27069,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1744, col: 5, offset: 56225},
+																			pos:   position{line: 1744, col: 5, offset: 56226},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27099,28 +27099,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27129,9 +27129,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -27144,40 +27144,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54542},
+																pos: position{line: 1687, col: 5, offset: 54543},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54542},
+																	pos: position{line: 1687, col: 5, offset: 54543},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54542},
+																			pos:   position{line: 1687, col: 5, offset: 54543},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54868},
+																				pos: position{line: 1695, col: 5, offset: 54869},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54868},
+																					pos: position{line: 1695, col: 5, offset: 54869},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54869},
+																						pos: position{line: 1695, col: 6, offset: 54870},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54869},
+																								pos: position{line: 1695, col: 6, offset: 54870},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55019},
+																									pos: position{line: 1700, col: 5, offset: 55020},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55019},
+																										pos: position{line: 1700, col: 5, offset: 55020},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55019},
+																												pos:   position{line: 1700, col: 5, offset: 55020},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55030},
+																													pos: position{line: 1700, col: 16, offset: 55031},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55030},
+																														pos: position{line: 1700, col: 16, offset: 55031},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55031},
+																															pos:        position{line: 1700, col: 17, offset: 55032},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27186,7 +27186,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55088},
+																												pos: position{line: 1703, col: 5, offset: 55089},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27194,30 +27194,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54898},
+																								pos: position{line: 1695, col: 35, offset: 54899},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27226,16 +27226,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54903,
+																								line: 1695, col: 40, offset: 54904,
 																							},
 																						},
 																					},
@@ -27243,24 +27243,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 5, offset: 54577},
+																			pos:   position{line: 1688, col: 5, offset: 54578},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55019},
+																				pos: position{line: 1700, col: 5, offset: 55020},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55019},
+																					pos: position{line: 1700, col: 5, offset: 55020},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55019},
+																							pos:   position{line: 1700, col: 5, offset: 55020},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55030},
+																								pos: position{line: 1700, col: 16, offset: 55031},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55030},
+																									pos: position{line: 1700, col: 16, offset: 55031},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55031},
+																										pos:        position{line: 1700, col: 17, offset: 55032},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27269,7 +27269,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55088},
+																							pos: position{line: 1703, col: 5, offset: 55089},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27277,24 +27277,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 5, offset: 54622},
+																			pos:   position{line: 1689, col: 5, offset: 54623},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1711, col: 5, offset: 55337},
+																				pos: position{line: 1711, col: 5, offset: 55338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1713, col: 9, offset: 55403},
+																						pos: position{line: 1713, col: 9, offset: 55404},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1713, col: 9, offset: 55403},
+																							pos: position{line: 1713, col: 9, offset: 55404},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55403},
+																									pos: position{line: 1713, col: 9, offset: 55404},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27303,28 +27303,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27333,34 +27333,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1714, col: 9, offset: 55422},
+																									pos: position{line: 1714, col: 9, offset: 55423},
 																									expr: &actionExpr{
-																										pos: position{line: 697, col: 14, offset: 22134},
+																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 697, col: 14, offset: 22134},
+																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2903, col: 11, offset: 91734},
+																													pos: position{line: 2903, col: 11, offset: 91735},
 																													expr: &anyMatcher{
-																														line: 2903, col: 13, offset: 91736,
+																														line: 2903, col: 13, offset: 91737,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 697, col: 21, offset: 22141},
+																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27369,28 +27369,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27399,9 +27399,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -27414,18 +27414,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1720, col: 9, offset: 55551},
+																						pos: position{line: 1720, col: 9, offset: 55552},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1720, col: 9, offset: 55551},
+																							pos: position{line: 1720, col: 9, offset: 55552},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91461},
+																									pos: position{line: 2890, col: 11, offset: 91462},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91461},
+																										pos: position{line: 2890, col: 11, offset: 91462},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91461},
+																											pos:        position{line: 2890, col: 11, offset: 91462},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27434,15 +27434,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1721, col: 9, offset: 55624},
+																									pos:   position{line: 1721, col: 9, offset: 55625},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1721, col: 18, offset: 55633},
+																										pos: position{line: 1721, col: 18, offset: 55634},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1721, col: 18, offset: 55633},
+																											pos: position{line: 1721, col: 18, offset: 55634},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1721, col: 18, offset: 55633},
+																												pos:        position{line: 1721, col: 18, offset: 55634},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27452,28 +27452,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27482,9 +27482,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -27505,50 +27505,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1526, col: 13, offset: 49272},
+										pos: position{line: 1526, col: 13, offset: 49273},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1526, col: 13, offset: 49272},
+											pos: position{line: 1526, col: 13, offset: 49273},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1526, col: 13, offset: 49272},
+													pos:   position{line: 1526, col: 13, offset: 49273},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1526, col: 24, offset: 49283},
+														pos: position{line: 1526, col: 24, offset: 49284},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1526, col: 25, offset: 49284},
+															pos:  position{line: 1526, col: 25, offset: 49285},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1527, col: 13, offset: 49315},
+													pos:   position{line: 1527, col: 13, offset: 49316},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1527, col: 22, offset: 49324},
+														pos: position{line: 1527, col: 22, offset: 49325},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1603, col: 5, offset: 51679},
+																pos: position{line: 1603, col: 5, offset: 51680},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1603, col: 5, offset: 51679},
+																	pos: position{line: 1603, col: 5, offset: 51680},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1603, col: 5, offset: 51679},
+																			pos:   position{line: 1603, col: 5, offset: 51680},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1610, col: 5, offset: 51887},
+																				pos: position{line: 1610, col: 5, offset: 51888},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 5, offset: 51887},
+																					pos: position{line: 1610, col: 5, offset: 51888},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1610, col: 5, offset: 51887},
+																							pos: position{line: 1610, col: 5, offset: 51888},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27557,27 +27557,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 12, offset: 51894},
+																							pos:   position{line: 1610, col: 12, offset: 51895},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1612, col: 9, offset: 51957},
+																								pos: position{line: 1612, col: 9, offset: 51958},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1612, col: 9, offset: 51957},
+																										pos: position{line: 1612, col: 9, offset: 51958},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 9, offset: 51957},
+																											pos: position{line: 1612, col: 9, offset: 51958},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1612, col: 9, offset: 51957},
+																													pos:   position{line: 1612, col: 9, offset: 51958},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1612, col: 16, offset: 51964},
+																														pos: position{line: 1612, col: 16, offset: 51965},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1612, col: 16, offset: 51964},
+																															pos: position{line: 1612, col: 16, offset: 51965},
 																															expr: &litMatcher{
-																																pos:        position{line: 1612, col: 17, offset: 51965},
+																																pos:        position{line: 1612, col: 17, offset: 51966},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27586,22 +27586,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1616, col: 9, offset: 52065},
+																													pos: position{line: 1616, col: 9, offset: 52066},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 11, offset: 52782},
+																										pos: position{line: 1635, col: 11, offset: 52783},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 11, offset: 52782},
+																											pos: position{line: 1635, col: 11, offset: 52783},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1635, col: 11, offset: 52782},
+																													pos: position{line: 1635, col: 11, offset: 52783},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1635, col: 12, offset: 52783},
+																														pos:        position{line: 1635, col: 12, offset: 52784},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27609,7 +27609,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 20, offset: 52791},
+																													pos:        position{line: 1635, col: 20, offset: 52792},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27618,20 +27618,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 52908},
+																										pos: position{line: 1637, col: 13, offset: 52909},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 52908},
+																											pos: position{line: 1637, col: 13, offset: 52909},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 52909},
+																													pos:        position{line: 1637, col: 14, offset: 52910},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 52916},
+																													pos:        position{line: 1637, col: 21, offset: 52917},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27640,20 +27640,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53036},
+																										pos: position{line: 1639, col: 13, offset: 53037},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53036},
+																											pos: position{line: 1639, col: 13, offset: 53037},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1639, col: 14, offset: 53037},
+																													pos:        position{line: 1639, col: 14, offset: 53038},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 21, offset: 53044},
+																													pos:        position{line: 1639, col: 21, offset: 53045},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27662,15 +27662,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53164},
+																										pos: position{line: 1641, col: 13, offset: 53165},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53164},
+																											pos: position{line: 1641, col: 13, offset: 53165},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53164},
+																													pos: position{line: 1641, col: 13, offset: 53165},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53165},
+																														pos:        position{line: 1641, col: 14, offset: 53166},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27678,7 +27678,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53177},
+																													pos:        position{line: 1641, col: 26, offset: 53178},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27687,15 +27687,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53297},
+																										pos: position{line: 1643, col: 13, offset: 53298},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53297},
+																											pos: position{line: 1643, col: 13, offset: 53298},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1643, col: 13, offset: 53297},
+																													pos: position{line: 1643, col: 13, offset: 53298},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1643, col: 14, offset: 53298},
+																														pos:        position{line: 1643, col: 14, offset: 53299},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27703,7 +27703,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 26, offset: 53310},
+																													pos:        position{line: 1643, col: 26, offset: 53311},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27715,12 +27715,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27733,26 +27733,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1604, col: 5, offset: 51718},
+																			pos:   position{line: 1604, col: 5, offset: 51719},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27763,28 +27763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27793,9 +27793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -27808,27 +27808,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1653, col: 5, offset: 53576},
+																pos: position{line: 1653, col: 5, offset: 53577},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1653, col: 5, offset: 53576},
+																	pos: position{line: 1653, col: 5, offset: 53577},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53576},
+																			pos:   position{line: 1653, col: 5, offset: 53577},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1660, col: 5, offset: 53849},
+																				pos: position{line: 1660, col: 5, offset: 53850},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1660, col: 5, offset: 53849},
+																					pos: position{line: 1660, col: 5, offset: 53850},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1660, col: 5, offset: 53849},
+																							pos: position{line: 1660, col: 5, offset: 53850},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27837,24 +27837,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1661, col: 5, offset: 53861},
+																							pos:   position{line: 1661, col: 5, offset: 53862},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1662, col: 9, offset: 53877},
+																								pos: position{line: 1662, col: 9, offset: 53878},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 10, offset: 53878},
+																									pos: position{line: 1662, col: 10, offset: 53879},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1662, col: 11, offset: 53879},
+																											pos:        position{line: 1662, col: 11, offset: 53880},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1662, col: 18, offset: 53886},
+																											pos: position{line: 1662, col: 18, offset: 53887},
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 19, offset: 53887},
+																												pos:        position{line: 1662, col: 19, offset: 53888},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27865,16 +27865,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1665, col: 7, offset: 53977},
+																							pos: position{line: 1665, col: 7, offset: 53978},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27887,56 +27887,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53617},
+																			pos:   position{line: 1654, col: 5, offset: 53618},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1654, col: 16, offset: 53628},
+																				pos: position{line: 1654, col: 16, offset: 53629},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54242},
+																					pos: position{line: 1675, col: 5, offset: 54243},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54242},
+																						pos: position{line: 1675, col: 5, offset: 54243},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1675, col: 5, offset: 54242},
+																								pos: position{line: 1675, col: 5, offset: 54243},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 6, offset: 54243},
+																									pos:        position{line: 1675, col: 6, offset: 54244},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 10, offset: 54247},
+																								pos:   position{line: 1675, col: 10, offset: 54248},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1676, col: 7, offset: 54261},
+																									pos: position{line: 1676, col: 7, offset: 54262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54261},
+																											pos: position{line: 1676, col: 7, offset: 54262},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54261},
+																												pos:        position{line: 1676, col: 7, offset: 54262},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1677, col: 7, offset: 54306},
+																											pos: position{line: 1677, col: 7, offset: 54307},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1677, col: 7, offset: 54306},
+																												pos:        position{line: 1677, col: 7, offset: 54307},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1678, col: 7, offset: 54349},
+																											pos: position{line: 1678, col: 7, offset: 54350},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1678, col: 7, offset: 54349},
+																												pos:        position{line: 1678, col: 7, offset: 54350},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27946,12 +27946,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2890, col: 11, offset: 91461},
+																									pos: position{line: 2890, col: 11, offset: 91462},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 11, offset: 91461},
+																										pos:        position{line: 2890, col: 11, offset: 91462},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27965,26 +27965,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53667},
+																			pos:   position{line: 1655, col: 5, offset: 53668},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27995,28 +27995,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28025,9 +28025,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -28040,36 +28040,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1743, col: 5, offset: 56189},
+																pos: position{line: 1743, col: 5, offset: 56190},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1743, col: 5, offset: 56189},
+																	pos: position{line: 1743, col: 5, offset: 56190},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56189},
+																			pos:   position{line: 1743, col: 5, offset: 56190},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1749, col: 5, offset: 56386},
+																				pos: position{line: 1749, col: 5, offset: 56387},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1749, col: 5, offset: 56386},
+																					pos: position{line: 1749, col: 5, offset: 56387},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 5, offset: 56386},
+																							pos:        position{line: 1749, col: 5, offset: 56387},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1749, col: 9, offset: 56390},
+																							pos:   position{line: 1749, col: 9, offset: 56391},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1749, col: 14, offset: 56395},
+																								pos: position{line: 1749, col: 14, offset: 56396},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1749, col: 14, offset: 56395},
+																									pos: position{line: 1749, col: 14, offset: 56396},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1749, col: 14, offset: 56395},
+																										pos:        position{line: 1749, col: 14, offset: 56396},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28079,18 +28079,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 62, offset: 56443},
+																							pos:        position{line: 1749, col: 62, offset: 56444},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28103,26 +28103,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1744, col: 5, offset: 56225},
+																			pos:   position{line: 1744, col: 5, offset: 56226},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50185},
+																				pos: position{line: 1551, col: 5, offset: 50186},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50185},
+																					pos: position{line: 1551, col: 5, offset: 50186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50185},
+																							pos:   position{line: 1551, col: 5, offset: 50186},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50194},
+																								pos: position{line: 1551, col: 14, offset: 50195},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50195},
+																									pos: position{line: 1551, col: 15, offset: 50196},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50195},
+																										pos: position{line: 1551, col: 15, offset: 50196},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50195},
+																											pos:        position{line: 1551, col: 15, offset: 50196},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28133,28 +28133,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28163,9 +28163,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -28178,40 +28178,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54542},
+																pos: position{line: 1687, col: 5, offset: 54543},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54542},
+																	pos: position{line: 1687, col: 5, offset: 54543},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54542},
+																			pos:   position{line: 1687, col: 5, offset: 54543},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54868},
+																				pos: position{line: 1695, col: 5, offset: 54869},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54868},
+																					pos: position{line: 1695, col: 5, offset: 54869},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54869},
+																						pos: position{line: 1695, col: 6, offset: 54870},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54869},
+																								pos: position{line: 1695, col: 6, offset: 54870},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55019},
+																									pos: position{line: 1700, col: 5, offset: 55020},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55019},
+																										pos: position{line: 1700, col: 5, offset: 55020},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55019},
+																												pos:   position{line: 1700, col: 5, offset: 55020},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55030},
+																													pos: position{line: 1700, col: 16, offset: 55031},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55030},
+																														pos: position{line: 1700, col: 16, offset: 55031},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55031},
+																															pos:        position{line: 1700, col: 17, offset: 55032},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28220,7 +28220,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55088},
+																												pos: position{line: 1703, col: 5, offset: 55089},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28228,30 +28228,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54898},
+																								pos: position{line: 1695, col: 35, offset: 54899},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28260,16 +28260,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54903,
+																								line: 1695, col: 40, offset: 54904,
 																							},
 																						},
 																					},
@@ -28277,24 +28277,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 5, offset: 54577},
+																			pos:   position{line: 1688, col: 5, offset: 54578},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55019},
+																				pos: position{line: 1700, col: 5, offset: 55020},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55019},
+																					pos: position{line: 1700, col: 5, offset: 55020},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55019},
+																							pos:   position{line: 1700, col: 5, offset: 55020},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55030},
+																								pos: position{line: 1700, col: 16, offset: 55031},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55030},
+																									pos: position{line: 1700, col: 16, offset: 55031},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55031},
+																										pos:        position{line: 1700, col: 17, offset: 55032},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28303,7 +28303,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55088},
+																							pos: position{line: 1703, col: 5, offset: 55089},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28311,24 +28311,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 5, offset: 54622},
+																			pos:   position{line: 1689, col: 5, offset: 54623},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1711, col: 5, offset: 55337},
+																				pos: position{line: 1711, col: 5, offset: 55338},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1713, col: 9, offset: 55403},
+																						pos: position{line: 1713, col: 9, offset: 55404},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1713, col: 9, offset: 55403},
+																							pos: position{line: 1713, col: 9, offset: 55404},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55403},
+																									pos: position{line: 1713, col: 9, offset: 55404},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28337,28 +28337,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28367,34 +28367,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1714, col: 9, offset: 55422},
+																									pos: position{line: 1714, col: 9, offset: 55423},
 																									expr: &actionExpr{
-																										pos: position{line: 697, col: 14, offset: 22134},
+																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 697, col: 14, offset: 22134},
+																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2903, col: 11, offset: 91734},
+																													pos: position{line: 2903, col: 11, offset: 91735},
 																													expr: &anyMatcher{
-																														line: 2903, col: 13, offset: 91736,
+																														line: 2903, col: 13, offset: 91737,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 697, col: 21, offset: 22141},
+																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28403,28 +28403,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28433,9 +28433,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -28448,18 +28448,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1720, col: 9, offset: 55551},
+																						pos: position{line: 1720, col: 9, offset: 55552},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1720, col: 9, offset: 55551},
+																							pos: position{line: 1720, col: 9, offset: 55552},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91461},
+																									pos: position{line: 2890, col: 11, offset: 91462},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91461},
+																										pos: position{line: 2890, col: 11, offset: 91462},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91461},
+																											pos:        position{line: 2890, col: 11, offset: 91462},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28468,15 +28468,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1721, col: 9, offset: 55624},
+																									pos:   position{line: 1721, col: 9, offset: 55625},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1721, col: 18, offset: 55633},
+																										pos: position{line: 1721, col: 18, offset: 55634},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1721, col: 18, offset: 55633},
+																											pos: position{line: 1721, col: 18, offset: 55634},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1721, col: 18, offset: 55633},
+																												pos:        position{line: 1721, col: 18, offset: 55634},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28486,28 +28486,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28516,9 +28516,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -28539,40 +28539,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1530, col: 11, offset: 49509},
+										pos:  position{line: 1530, col: 11, offset: 49510},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80371},
+										pos: position{line: 2496, col: 22, offset: 80372},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80592},
+													pos:        position{line: 2501, col: 31, offset: 80593},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80597},
+													pos: position{line: 2501, col: 36, offset: 80598},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80598},
+														pos:        position{line: 2501, col: 37, offset: 80599},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80398},
+													pos:   position{line: 2496, col: 49, offset: 80399},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89926},
+														pos: position{line: 2832, col: 13, offset: 89927},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89926},
+																pos:        position{line: 2832, col: 13, offset: 89927},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28582,28 +28582,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28612,9 +28612,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -28623,32 +28623,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1538, col: 5, offset: 49773},
+										pos: position{line: 1538, col: 5, offset: 49774},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1538, col: 5, offset: 49773},
+											pos: position{line: 1538, col: 5, offset: 49774},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1538, col: 5, offset: 49773},
+													pos: position{line: 1538, col: 5, offset: 49774},
 													expr: &actionExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 697, col: 14, offset: 22134},
+															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2903, col: 11, offset: 91734},
+																	pos: position{line: 2903, col: 11, offset: 91735},
 																	expr: &anyMatcher{
-																		line: 2903, col: 13, offset: 91736,
+																		line: 2903, col: 13, offset: 91737,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 697, col: 21, offset: 22141},
+																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28657,28 +28657,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28687,9 +28687,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -28699,23 +28699,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1539, col: 5, offset: 49788},
+													pos: position{line: 1539, col: 5, offset: 49789},
 													expr: &seqExpr{
-														pos: position{line: 1569, col: 27, offset: 50693},
+														pos: position{line: 1569, col: 27, offset: 50694},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1569, col: 27, offset: 50693},
+																pos:        position{line: 1569, col: 27, offset: 50694},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1569, col: 31, offset: 50697},
+																pos: position{line: 1569, col: 31, offset: 50698},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28724,25 +28724,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28754,20 +28754,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1540, col: 5, offset: 49816},
+													pos: position{line: 1540, col: 5, offset: 49817},
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51887},
+														pos: position{line: 1610, col: 5, offset: 51888},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51887},
+															pos: position{line: 1610, col: 5, offset: 51888},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51887},
+																	pos: position{line: 1610, col: 5, offset: 51888},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28776,27 +28776,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51894},
+																	pos:   position{line: 1610, col: 12, offset: 51895},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51957},
+																		pos: position{line: 1612, col: 9, offset: 51958},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51957},
+																				pos: position{line: 1612, col: 9, offset: 51958},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51957},
+																					pos: position{line: 1612, col: 9, offset: 51958},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51957},
+																							pos:   position{line: 1612, col: 9, offset: 51958},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51964},
+																								pos: position{line: 1612, col: 16, offset: 51965},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51964},
+																									pos: position{line: 1612, col: 16, offset: 51965},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51965},
+																										pos:        position{line: 1612, col: 17, offset: 51966},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28805,22 +28805,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52065},
+																							pos: position{line: 1616, col: 9, offset: 52066},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52782},
+																				pos: position{line: 1635, col: 11, offset: 52783},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52782},
+																					pos: position{line: 1635, col: 11, offset: 52783},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52782},
+																							pos: position{line: 1635, col: 11, offset: 52783},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52783},
+																								pos:        position{line: 1635, col: 12, offset: 52784},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28828,7 +28828,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52791},
+																							pos:        position{line: 1635, col: 20, offset: 52792},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28837,20 +28837,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52908},
+																				pos: position{line: 1637, col: 13, offset: 52909},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52908},
+																					pos: position{line: 1637, col: 13, offset: 52909},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52909},
+																							pos:        position{line: 1637, col: 14, offset: 52910},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52916},
+																							pos:        position{line: 1637, col: 21, offset: 52917},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28859,20 +28859,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53036},
+																				pos: position{line: 1639, col: 13, offset: 53037},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53036},
+																					pos: position{line: 1639, col: 13, offset: 53037},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53037},
+																							pos:        position{line: 1639, col: 14, offset: 53038},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53044},
+																							pos:        position{line: 1639, col: 21, offset: 53045},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28881,15 +28881,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53164},
+																				pos: position{line: 1641, col: 13, offset: 53165},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53164},
+																					pos: position{line: 1641, col: 13, offset: 53165},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53164},
+																							pos: position{line: 1641, col: 13, offset: 53165},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53165},
+																								pos:        position{line: 1641, col: 14, offset: 53166},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28897,7 +28897,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53177},
+																							pos:        position{line: 1641, col: 26, offset: 53178},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28906,15 +28906,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53297},
+																				pos: position{line: 1643, col: 13, offset: 53298},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53297},
+																					pos: position{line: 1643, col: 13, offset: 53298},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53297},
+																							pos: position{line: 1643, col: 13, offset: 53298},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53298},
+																								pos:        position{line: 1643, col: 14, offset: 53299},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28922,7 +28922,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53310},
+																							pos:        position{line: 1643, col: 26, offset: 53311},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28934,12 +28934,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28952,20 +28952,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1541, col: 5, offset: 49846},
+													pos: position{line: 1541, col: 5, offset: 49847},
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53849},
+														pos: position{line: 1660, col: 5, offset: 53850},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53849},
+															pos: position{line: 1660, col: 5, offset: 53850},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53849},
+																	pos: position{line: 1660, col: 5, offset: 53850},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28974,24 +28974,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53861},
+																	pos:   position{line: 1661, col: 5, offset: 53862},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53877},
+																		pos: position{line: 1662, col: 9, offset: 53878},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53878},
+																			pos: position{line: 1662, col: 10, offset: 53879},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53879},
+																					pos:        position{line: 1662, col: 11, offset: 53880},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53886},
+																					pos: position{line: 1662, col: 18, offset: 53887},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53887},
+																						pos:        position{line: 1662, col: 19, offset: 53888},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29002,16 +29002,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53977},
+																	pos: position{line: 1665, col: 7, offset: 53978},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29024,29 +29024,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1542, col: 5, offset: 49878},
+													pos: position{line: 1542, col: 5, offset: 49879},
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56386},
+														pos: position{line: 1749, col: 5, offset: 56387},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56386},
+															pos: position{line: 1749, col: 5, offset: 56387},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56386},
+																	pos:        position{line: 1749, col: 5, offset: 56387},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56390},
+																	pos:   position{line: 1749, col: 9, offset: 56391},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56395},
+																		pos: position{line: 1749, col: 14, offset: 56396},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56395},
+																			pos: position{line: 1749, col: 14, offset: 56396},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56395},
+																				pos:        position{line: 1749, col: 14, offset: 56396},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29056,18 +29056,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56443},
+																	pos:        position{line: 1749, col: 62, offset: 56444},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29080,36 +29080,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1543, col: 5, offset: 49908},
+													pos: position{line: 1543, col: 5, offset: 49909},
 													expr: &seqExpr{
-														pos: position{line: 1543, col: 7, offset: 49910},
+														pos: position{line: 1543, col: 7, offset: 49911},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1695, col: 5, offset: 54868},
+																pos: position{line: 1695, col: 5, offset: 54869},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1695, col: 5, offset: 54868},
+																	pos: position{line: 1695, col: 5, offset: 54869},
 																	expr: &seqExpr{
-																		pos: position{line: 1695, col: 6, offset: 54869},
+																		pos: position{line: 1695, col: 6, offset: 54870},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1695, col: 6, offset: 54869},
+																				pos: position{line: 1695, col: 6, offset: 54870},
 																				expr: &actionExpr{
-																					pos: position{line: 1700, col: 5, offset: 55019},
+																					pos: position{line: 1700, col: 5, offset: 55020},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1700, col: 5, offset: 55019},
+																						pos: position{line: 1700, col: 5, offset: 55020},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1700, col: 5, offset: 55019},
+																								pos:   position{line: 1700, col: 5, offset: 55020},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 16, offset: 55030},
+																									pos: position{line: 1700, col: 16, offset: 55031},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1700, col: 16, offset: 55030},
+																										pos: position{line: 1700, col: 16, offset: 55031},
 																										expr: &litMatcher{
-																											pos:        position{line: 1700, col: 17, offset: 55031},
+																											pos:        position{line: 1700, col: 17, offset: 55032},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29118,7 +29118,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1703, col: 5, offset: 55088},
+																								pos: position{line: 1703, col: 5, offset: 55089},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29126,30 +29126,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1695, col: 35, offset: 54898},
+																				pos: position{line: 1695, col: 35, offset: 54899},
 																				expr: &choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29158,37 +29158,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1695, col: 40, offset: 54903,
+																				line: 1695, col: 40, offset: 54904,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 5, offset: 55019},
+																pos: position{line: 1700, col: 5, offset: 55020},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 5, offset: 55019},
+																	pos: position{line: 1700, col: 5, offset: 55020},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 5, offset: 55019},
+																			pos:   position{line: 1700, col: 5, offset: 55020},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 16, offset: 55030},
+																				pos: position{line: 1700, col: 16, offset: 55031},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 16, offset: 55030},
+																					pos: position{line: 1700, col: 16, offset: 55031},
 																					expr: &litMatcher{
-																						pos:        position{line: 1700, col: 17, offset: 55031},
+																						pos:        position{line: 1700, col: 17, offset: 55032},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29197,20 +29197,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1703, col: 5, offset: 55088},
+																			pos: position{line: 1703, col: 5, offset: 55089},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1543, col: 59, offset: 49962},
+																pos: position{line: 1543, col: 59, offset: 49963},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29218,25 +29218,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29245,9 +29245,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -29256,20 +29256,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1544, col: 5, offset: 49980},
+													pos: position{line: 1544, col: 5, offset: 49981},
 													expr: &choiceExpr{
-														pos: position{line: 1544, col: 7, offset: 49982},
+														pos: position{line: 1544, col: 7, offset: 49983},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 744, col: 5, offset: 23706},
+																pos: position{line: 744, col: 5, offset: 23707},
 																run: (*parser).callonExtraListElement632,
 																expr: &seqExpr{
-																	pos: position{line: 744, col: 5, offset: 23706},
+																	pos: position{line: 744, col: 5, offset: 23707},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 744, col: 5, offset: 23706},
+																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2776, col: 13, offset: 88481},
+																				pos:        position{line: 2776, col: 13, offset: 88482},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29277,36 +29277,36 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 745, col: 5, offset: 23736},
+																			pos:   position{line: 745, col: 5, offset: 23737},
 																			label: "delimiter",
 																			expr: &choiceExpr{
-																				pos: position{line: 746, col: 9, offset: 23756},
+																				pos: position{line: 746, col: 9, offset: 23757},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 760, col: 5, offset: 24248},
+																						pos: position{line: 760, col: 5, offset: 24249},
 																						run: (*parser).callonExtraListElement638,
 																						expr: &seqExpr{
-																							pos: position{line: 760, col: 5, offset: 24248},
+																							pos: position{line: 760, col: 5, offset: 24249},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 760, col: 5, offset: 24248},
+																									pos:   position{line: 760, col: 5, offset: 24249},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 760, col: 16, offset: 24259},
+																										pos: position{line: 760, col: 16, offset: 24260},
 																										run: (*parser).callonExtraListElement641,
 																										expr: &seqExpr{
-																											pos: position{line: 760, col: 16, offset: 24259},
+																											pos: position{line: 760, col: 16, offset: 24260},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 760, col: 16, offset: 24259},
+																													pos:        position{line: 760, col: 16, offset: 24260},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 760, col: 23, offset: 24266},
+																													pos: position{line: 760, col: 23, offset: 24267},
 																													expr: &litMatcher{
-																														pos:        position{line: 760, col: 23, offset: 24266},
+																														pos:        position{line: 760, col: 23, offset: 24267},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -29317,12 +29317,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 762, col: 8, offset: 24350},
+																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29331,28 +29331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29361,9 +29361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29372,30 +29372,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 767, col: 5, offset: 24496},
+																						pos: position{line: 767, col: 5, offset: 24497},
 																						run: (*parser).callonExtraListElement657,
 																						expr: &seqExpr{
-																							pos: position{line: 767, col: 5, offset: 24496},
+																							pos: position{line: 767, col: 5, offset: 24497},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 767, col: 5, offset: 24496},
+																									pos:   position{line: 767, col: 5, offset: 24497},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 767, col: 16, offset: 24507},
+																										pos: position{line: 767, col: 16, offset: 24508},
 																										run: (*parser).callonExtraListElement660,
 																										expr: &seqExpr{
-																											pos: position{line: 767, col: 16, offset: 24507},
+																											pos: position{line: 767, col: 16, offset: 24508},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 767, col: 16, offset: 24507},
+																													pos:        position{line: 767, col: 16, offset: 24508},
 																													val:        "====",
 																													ignoreCase: false,
 																													want:       "\"====\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 767, col: 23, offset: 24514},
+																													pos: position{line: 767, col: 23, offset: 24515},
 																													expr: &litMatcher{
-																														pos:        position{line: 767, col: 23, offset: 24514},
+																														pos:        position{line: 767, col: 23, offset: 24515},
 																														val:        "=",
 																														ignoreCase: false,
 																														want:       "\"=\"",
@@ -29406,12 +29406,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 769, col: 8, offset: 24598},
+																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29420,28 +29420,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29450,9 +29450,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29461,27 +29461,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 780, col: 26, offset: 24984},
+																						pos: position{line: 780, col: 26, offset: 24985},
 																						run: (*parser).callonExtraListElement676,
 																						expr: &seqExpr{
-																							pos: position{line: 780, col: 26, offset: 24984},
+																							pos: position{line: 780, col: 26, offset: 24985},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 780, col: 26, offset: 24984},
+																									pos:        position{line: 780, col: 26, offset: 24985},
 																									val:        "```",
 																									ignoreCase: false,
 																									want:       "\"```\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 780, col: 32, offset: 24990},
+																									pos:   position{line: 780, col: 32, offset: 24991},
 																									label: "language",
 																									expr: &actionExpr{
-																										pos: position{line: 784, col: 13, offset: 25120},
+																										pos: position{line: 784, col: 13, offset: 25121},
 																										run: (*parser).callonExtraListElement680,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 784, col: 14, offset: 25121},
+																											pos: position{line: 784, col: 14, offset: 25122},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 784, col: 14, offset: 25121},
+																												pos:        position{line: 784, col: 14, offset: 25122},
 																												val:        "[^\\r\\n` ]",
 																												chars:      []rune{'\r', '\n', '`', ' '},
 																												ignoreCase: false,
@@ -29491,12 +29491,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 780, col: 52, offset: 25010},
+																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29505,28 +29505,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29535,9 +29535,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29546,30 +29546,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 774, col: 5, offset: 24743},
+																						pos: position{line: 774, col: 5, offset: 24744},
 																						run: (*parser).callonExtraListElement694,
 																						expr: &seqExpr{
-																							pos: position{line: 774, col: 5, offset: 24743},
+																							pos: position{line: 774, col: 5, offset: 24744},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 774, col: 5, offset: 24743},
+																									pos:   position{line: 774, col: 5, offset: 24744},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 774, col: 16, offset: 24754},
+																										pos: position{line: 774, col: 16, offset: 24755},
 																										run: (*parser).callonExtraListElement697,
 																										expr: &seqExpr{
-																											pos: position{line: 774, col: 16, offset: 24754},
+																											pos: position{line: 774, col: 16, offset: 24755},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 774, col: 16, offset: 24754},
+																													pos:        position{line: 774, col: 16, offset: 24755},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 774, col: 22, offset: 24760},
+																													pos: position{line: 774, col: 22, offset: 24761},
 																													expr: &litMatcher{
-																														pos:        position{line: 774, col: 22, offset: 24760},
+																														pos:        position{line: 774, col: 22, offset: 24761},
 																														val:        "`",
 																														ignoreCase: false,
 																														want:       "\"`\"",
@@ -29580,12 +29580,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 776, col: 8, offset: 24844},
+																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29594,28 +29594,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29624,9 +29624,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29635,30 +29635,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 789, col: 5, offset: 25280},
+																						pos: position{line: 789, col: 5, offset: 25281},
 																						run: (*parser).callonExtraListElement713,
 																						expr: &seqExpr{
-																							pos: position{line: 789, col: 5, offset: 25280},
+																							pos: position{line: 789, col: 5, offset: 25281},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 789, col: 5, offset: 25280},
+																									pos:   position{line: 789, col: 5, offset: 25281},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 789, col: 16, offset: 25291},
+																										pos: position{line: 789, col: 16, offset: 25292},
 																										run: (*parser).callonExtraListElement716,
 																										expr: &seqExpr{
-																											pos: position{line: 789, col: 16, offset: 25291},
+																											pos: position{line: 789, col: 16, offset: 25292},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 789, col: 16, offset: 25291},
+																													pos:        position{line: 789, col: 16, offset: 25292},
 																													val:        "----",
 																													ignoreCase: false,
 																													want:       "\"----\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 789, col: 23, offset: 25298},
+																													pos: position{line: 789, col: 23, offset: 25299},
 																													expr: &litMatcher{
-																														pos:        position{line: 789, col: 23, offset: 25298},
+																														pos:        position{line: 789, col: 23, offset: 25299},
 																														val:        "-",
 																														ignoreCase: false,
 																														want:       "\"-\"",
@@ -29669,12 +29669,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 791, col: 8, offset: 25382},
+																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29683,28 +29683,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29713,9 +29713,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29724,30 +29724,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 803, col: 5, offset: 25756},
+																						pos: position{line: 803, col: 5, offset: 25757},
 																						run: (*parser).callonExtraListElement732,
 																						expr: &seqExpr{
-																							pos: position{line: 803, col: 5, offset: 25756},
+																							pos: position{line: 803, col: 5, offset: 25757},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 803, col: 5, offset: 25756},
+																									pos:   position{line: 803, col: 5, offset: 25757},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 803, col: 16, offset: 25767},
+																										pos: position{line: 803, col: 16, offset: 25768},
 																										run: (*parser).callonExtraListElement735,
 																										expr: &seqExpr{
-																											pos: position{line: 803, col: 16, offset: 25767},
+																											pos: position{line: 803, col: 16, offset: 25768},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 803, col: 16, offset: 25767},
+																													pos:        position{line: 803, col: 16, offset: 25768},
 																													val:        "....",
 																													ignoreCase: false,
 																													want:       "\"....\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 803, col: 23, offset: 25774},
+																													pos: position{line: 803, col: 23, offset: 25775},
 																													expr: &litMatcher{
-																														pos:        position{line: 803, col: 23, offset: 25774},
+																														pos:        position{line: 803, col: 23, offset: 25775},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -29758,12 +29758,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 805, col: 8, offset: 25858},
+																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29772,28 +29772,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29802,9 +29802,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29813,30 +29813,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 810, col: 5, offset: 26008},
+																						pos: position{line: 810, col: 5, offset: 26009},
 																						run: (*parser).callonExtraListElement751,
 																						expr: &seqExpr{
-																							pos: position{line: 810, col: 5, offset: 26008},
+																							pos: position{line: 810, col: 5, offset: 26009},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 810, col: 5, offset: 26008},
+																									pos:   position{line: 810, col: 5, offset: 26009},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 810, col: 16, offset: 26019},
+																										pos: position{line: 810, col: 16, offset: 26020},
 																										run: (*parser).callonExtraListElement754,
 																										expr: &seqExpr{
-																											pos: position{line: 810, col: 16, offset: 26019},
+																											pos: position{line: 810, col: 16, offset: 26020},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 810, col: 16, offset: 26019},
+																													pos:        position{line: 810, col: 16, offset: 26020},
 																													val:        "++++",
 																													ignoreCase: false,
 																													want:       "\"++++\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 810, col: 23, offset: 26026},
+																													pos: position{line: 810, col: 23, offset: 26027},
 																													expr: &litMatcher{
-																														pos:        position{line: 810, col: 23, offset: 26026},
+																														pos:        position{line: 810, col: 23, offset: 26027},
 																														val:        "+",
 																														ignoreCase: false,
 																														want:       "\"+\"",
@@ -29847,12 +29847,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 812, col: 8, offset: 26110},
+																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29861,28 +29861,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29891,9 +29891,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29902,30 +29902,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 817, col: 5, offset: 26258},
+																						pos: position{line: 817, col: 5, offset: 26259},
 																						run: (*parser).callonExtraListElement770,
 																						expr: &seqExpr{
-																							pos: position{line: 817, col: 5, offset: 26258},
+																							pos: position{line: 817, col: 5, offset: 26259},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 817, col: 5, offset: 26258},
+																									pos:   position{line: 817, col: 5, offset: 26259},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 817, col: 16, offset: 26269},
+																										pos: position{line: 817, col: 16, offset: 26270},
 																										run: (*parser).callonExtraListElement773,
 																										expr: &seqExpr{
-																											pos: position{line: 817, col: 16, offset: 26269},
+																											pos: position{line: 817, col: 16, offset: 26270},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 817, col: 16, offset: 26269},
+																													pos:        position{line: 817, col: 16, offset: 26270},
 																													val:        "____",
 																													ignoreCase: false,
 																													want:       "\"____\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 817, col: 23, offset: 26276},
+																													pos: position{line: 817, col: 23, offset: 26277},
 																													expr: &litMatcher{
-																														pos:        position{line: 817, col: 23, offset: 26276},
+																														pos:        position{line: 817, col: 23, offset: 26277},
 																														val:        "_",
 																														ignoreCase: false,
 																														want:       "\"_\"",
@@ -29936,12 +29936,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 819, col: 8, offset: 26360},
+																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29950,28 +29950,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29980,9 +29980,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -29991,30 +29991,30 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 824, col: 5, offset: 26504},
+																						pos: position{line: 824, col: 5, offset: 26505},
 																						run: (*parser).callonExtraListElement789,
 																						expr: &seqExpr{
-																							pos: position{line: 824, col: 5, offset: 26504},
+																							pos: position{line: 824, col: 5, offset: 26505},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 824, col: 5, offset: 26504},
+																									pos:   position{line: 824, col: 5, offset: 26505},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 824, col: 16, offset: 26515},
+																										pos: position{line: 824, col: 16, offset: 26516},
 																										run: (*parser).callonExtraListElement792,
 																										expr: &seqExpr{
-																											pos: position{line: 824, col: 16, offset: 26515},
+																											pos: position{line: 824, col: 16, offset: 26516},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 824, col: 16, offset: 26515},
+																													pos:        position{line: 824, col: 16, offset: 26516},
 																													val:        "****",
 																													ignoreCase: false,
 																													want:       "\"****\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 824, col: 23, offset: 26522},
+																													pos: position{line: 824, col: 23, offset: 26523},
 																													expr: &litMatcher{
-																														pos:        position{line: 824, col: 23, offset: 26522},
+																														pos:        position{line: 824, col: 23, offset: 26523},
 																														val:        "*",
 																														ignoreCase: false,
 																														want:       "\"*\"",
@@ -30025,12 +30025,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 826, col: 8, offset: 26606},
+																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30039,28 +30039,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30069,9 +30069,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -30086,19 +30086,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 796, col: 5, offset: 25525},
+																pos: position{line: 796, col: 5, offset: 25526},
 																run: (*parser).callonExtraListElement808,
 																expr: &seqExpr{
-																	pos: position{line: 796, col: 5, offset: 25525},
+																	pos: position{line: 796, col: 5, offset: 25526},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 796, col: 5, offset: 25525},
+																			pos:   position{line: 796, col: 5, offset: 25526},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 16, offset: 25536},
+																				pos: position{line: 796, col: 16, offset: 25537},
 																				run: (*parser).callonExtraListElement811,
 																				expr: &litMatcher{
-																					pos:        position{line: 796, col: 16, offset: 25536},
+																					pos:        position{line: 796, col: 16, offset: 25537},
 																					val:        "--",
 																					ignoreCase: false,
 																					want:       "\"--\"",
@@ -30106,12 +30106,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 798, col: 8, offset: 25613},
+																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30120,28 +30120,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30150,9 +30150,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -30161,21 +30161,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2628, col: 19, offset: 84069},
+																pos: position{line: 2628, col: 19, offset: 84070},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2628, col: 19, offset: 84069},
+																		pos:        position{line: 2628, col: 19, offset: 84070},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2628, col: 26, offset: 84076},
+																		pos: position{line: 2628, col: 26, offset: 84077},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30184,28 +30184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30214,9 +30214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -30227,15 +30227,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1545, col: 5, offset: 50040},
+													pos:   position{line: 1545, col: 5, offset: 50041},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 14, offset: 89993},
+														pos: position{line: 2836, col: 14, offset: 89994},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2836, col: 14, offset: 89993},
+															pos: position{line: 2836, col: 14, offset: 89994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2836, col: 14, offset: 89993},
+																pos:        position{line: 2836, col: 14, offset: 89994},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30245,28 +30245,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30275,9 +30275,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -30294,28 +30294,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1561, col: 1, offset: 50431},
+			pos:  position{line: 1561, col: 1, offset: 50432},
 			expr: &actionExpr{
-				pos: position{line: 1562, col: 5, offset: 50456},
+				pos: position{line: 1562, col: 5, offset: 50457},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1562, col: 5, offset: 50456},
+					pos: position{line: 1562, col: 5, offset: 50457},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50456},
+							pos:   position{line: 1562, col: 5, offset: 50457},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1562, col: 12, offset: 50463},
+								pos: position{line: 1562, col: 12, offset: 50464},
 								expr: &seqExpr{
-									pos: position{line: 1562, col: 13, offset: 50464},
+									pos: position{line: 1562, col: 13, offset: 50465},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1562, col: 13, offset: 50464},
+											pos: position{line: 1562, col: 13, offset: 50465},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91400},
+												pos: position{line: 2886, col: 10, offset: 91401},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91400},
+													pos:        position{line: 2886, col: 10, offset: 91401},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30324,25 +30324,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2895, col: 12, offset: 91571},
+											pos: position{line: 2895, col: 12, offset: 91572},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 13, offset: 91572},
+												pos: position{line: 2895, col: 13, offset: 91573},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2895, col: 13, offset: 91572},
+														pos:        position{line: 2895, col: 13, offset: 91573},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2895, col: 20, offset: 91579},
+														pos:        position{line: 2895, col: 20, offset: 91580},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2895, col: 29, offset: 91588},
+														pos:        position{line: 2895, col: 29, offset: 91589},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30355,18 +30355,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1563, col: 5, offset: 50486},
+							pos:        position{line: 1563, col: 5, offset: 50487},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1563, col: 9, offset: 50490},
+							pos: position{line: 1563, col: 9, offset: 50491},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30375,28 +30375,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -30405,45 +30405,45 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1564, col: 5, offset: 50505},
+							pos:   position{line: 1564, col: 5, offset: 50506},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1564, col: 13, offset: 50513},
+								pos: position{line: 1564, col: 13, offset: 50514},
 								expr: &actionExpr{
-									pos: position{line: 1564, col: 14, offset: 50514},
+									pos: position{line: 1564, col: 14, offset: 50515},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1564, col: 14, offset: 50514},
+										pos: position{line: 1564, col: 14, offset: 50515},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1564, col: 14, offset: 50514},
+												pos: position{line: 1564, col: 14, offset: 50515},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonListContinuation31,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30452,28 +30452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30482,9 +30482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -30494,10 +30494,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1564, col: 25, offset: 50525},
+												pos:   position{line: 1564, col: 25, offset: 50526},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1564, col: 27, offset: 50527},
+													pos:  position{line: 1564, col: 27, offset: 50528},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30512,46 +30512,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1571, col: 1, offset: 50713},
+			pos:  position{line: 1571, col: 1, offset: 50714},
 			expr: &actionExpr{
-				pos: position{line: 1572, col: 5, offset: 50759},
+				pos: position{line: 1572, col: 5, offset: 50760},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1572, col: 5, offset: 50759},
+					pos: position{line: 1572, col: 5, offset: 50760},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1573, col: 5, offset: 50787},
+							pos: position{line: 1573, col: 5, offset: 50788},
 							expr: &choiceExpr{
-								pos: position{line: 1510, col: 5, offset: 48705},
+								pos: position{line: 1510, col: 5, offset: 48706},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1603, col: 5, offset: 51679},
+										pos: position{line: 1603, col: 5, offset: 51680},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1603, col: 5, offset: 51679},
+											pos: position{line: 1603, col: 5, offset: 51680},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1603, col: 5, offset: 51679},
+													pos:   position{line: 1603, col: 5, offset: 51680},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51887},
+														pos: position{line: 1610, col: 5, offset: 51888},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51887},
+															pos: position{line: 1610, col: 5, offset: 51888},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51887},
+																	pos: position{line: 1610, col: 5, offset: 51888},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30560,27 +30560,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51894},
+																	pos:   position{line: 1610, col: 12, offset: 51895},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51957},
+																		pos: position{line: 1612, col: 9, offset: 51958},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51957},
+																				pos: position{line: 1612, col: 9, offset: 51958},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51957},
+																					pos: position{line: 1612, col: 9, offset: 51958},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51957},
+																							pos:   position{line: 1612, col: 9, offset: 51958},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51964},
+																								pos: position{line: 1612, col: 16, offset: 51965},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51964},
+																									pos: position{line: 1612, col: 16, offset: 51965},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51965},
+																										pos:        position{line: 1612, col: 17, offset: 51966},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30589,22 +30589,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52065},
+																							pos: position{line: 1616, col: 9, offset: 52066},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52782},
+																				pos: position{line: 1635, col: 11, offset: 52783},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52782},
+																					pos: position{line: 1635, col: 11, offset: 52783},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52782},
+																							pos: position{line: 1635, col: 11, offset: 52783},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52783},
+																								pos:        position{line: 1635, col: 12, offset: 52784},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30612,7 +30612,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52791},
+																							pos:        position{line: 1635, col: 20, offset: 52792},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30621,20 +30621,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52908},
+																				pos: position{line: 1637, col: 13, offset: 52909},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52908},
+																					pos: position{line: 1637, col: 13, offset: 52909},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52909},
+																							pos:        position{line: 1637, col: 14, offset: 52910},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52916},
+																							pos:        position{line: 1637, col: 21, offset: 52917},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30643,20 +30643,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53036},
+																				pos: position{line: 1639, col: 13, offset: 53037},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53036},
+																					pos: position{line: 1639, col: 13, offset: 53037},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53037},
+																							pos:        position{line: 1639, col: 14, offset: 53038},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53044},
+																							pos:        position{line: 1639, col: 21, offset: 53045},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30665,15 +30665,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53164},
+																				pos: position{line: 1641, col: 13, offset: 53165},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53164},
+																					pos: position{line: 1641, col: 13, offset: 53165},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53164},
+																							pos: position{line: 1641, col: 13, offset: 53165},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53165},
+																								pos:        position{line: 1641, col: 14, offset: 53166},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30681,7 +30681,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53177},
+																							pos:        position{line: 1641, col: 26, offset: 53178},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30690,15 +30690,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53297},
+																				pos: position{line: 1643, col: 13, offset: 53298},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53297},
+																					pos: position{line: 1643, col: 13, offset: 53298},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53297},
+																							pos: position{line: 1643, col: 13, offset: 53298},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53298},
+																								pos:        position{line: 1643, col: 14, offset: 53299},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30706,7 +30706,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53310},
+																							pos:        position{line: 1643, col: 26, offset: 53311},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30718,12 +30718,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30736,26 +30736,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51718},
+													pos:   position{line: 1604, col: 5, offset: 51719},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30766,28 +30766,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30796,9 +30796,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -30811,27 +30811,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1653, col: 5, offset: 53576},
+										pos: position{line: 1653, col: 5, offset: 53577},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1653, col: 5, offset: 53576},
+											pos: position{line: 1653, col: 5, offset: 53577},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53576},
+													pos:   position{line: 1653, col: 5, offset: 53577},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53849},
+														pos: position{line: 1660, col: 5, offset: 53850},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53849},
+															pos: position{line: 1660, col: 5, offset: 53850},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53849},
+																	pos: position{line: 1660, col: 5, offset: 53850},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30840,24 +30840,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53861},
+																	pos:   position{line: 1661, col: 5, offset: 53862},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53877},
+																		pos: position{line: 1662, col: 9, offset: 53878},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53878},
+																			pos: position{line: 1662, col: 10, offset: 53879},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53879},
+																					pos:        position{line: 1662, col: 11, offset: 53880},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53886},
+																					pos: position{line: 1662, col: 18, offset: 53887},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53887},
+																						pos:        position{line: 1662, col: 19, offset: 53888},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30868,16 +30868,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53977},
+																	pos: position{line: 1665, col: 7, offset: 53978},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30890,56 +30890,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53617},
+													pos:   position{line: 1654, col: 5, offset: 53618},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1654, col: 16, offset: 53628},
+														pos: position{line: 1654, col: 16, offset: 53629},
 														expr: &actionExpr{
-															pos: position{line: 1675, col: 5, offset: 54242},
+															pos: position{line: 1675, col: 5, offset: 54243},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 5, offset: 54242},
+																pos: position{line: 1675, col: 5, offset: 54243},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1675, col: 5, offset: 54242},
+																		pos: position{line: 1675, col: 5, offset: 54243},
 																		expr: &litMatcher{
-																			pos:        position{line: 1675, col: 6, offset: 54243},
+																			pos:        position{line: 1675, col: 6, offset: 54244},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1675, col: 10, offset: 54247},
+																		pos:   position{line: 1675, col: 10, offset: 54248},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1676, col: 7, offset: 54261},
+																			pos: position{line: 1676, col: 7, offset: 54262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54261},
+																					pos: position{line: 1676, col: 7, offset: 54262},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54261},
+																						pos:        position{line: 1676, col: 7, offset: 54262},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1677, col: 7, offset: 54306},
+																					pos: position{line: 1677, col: 7, offset: 54307},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1677, col: 7, offset: 54306},
+																						pos:        position{line: 1677, col: 7, offset: 54307},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1678, col: 7, offset: 54349},
+																					pos: position{line: 1678, col: 7, offset: 54350},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 7, offset: 54349},
+																						pos:        position{line: 1678, col: 7, offset: 54350},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30949,12 +30949,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2890, col: 11, offset: 91461},
+																			pos: position{line: 2890, col: 11, offset: 91462},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2890, col: 11, offset: 91461},
+																				pos:        position{line: 2890, col: 11, offset: 91462},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30968,26 +30968,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53667},
+													pos:   position{line: 1655, col: 5, offset: 53668},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30998,28 +30998,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31028,9 +31028,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -31043,36 +31043,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1743, col: 5, offset: 56189},
+										pos: position{line: 1743, col: 5, offset: 56190},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1743, col: 5, offset: 56189},
+											pos: position{line: 1743, col: 5, offset: 56190},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56189},
+													pos:   position{line: 1743, col: 5, offset: 56190},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56386},
+														pos: position{line: 1749, col: 5, offset: 56387},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56386},
+															pos: position{line: 1749, col: 5, offset: 56387},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56386},
+																	pos:        position{line: 1749, col: 5, offset: 56387},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56390},
+																	pos:   position{line: 1749, col: 9, offset: 56391},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56395},
+																		pos: position{line: 1749, col: 14, offset: 56396},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56395},
+																			pos: position{line: 1749, col: 14, offset: 56396},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56395},
+																				pos:        position{line: 1749, col: 14, offset: 56396},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31082,18 +31082,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56443},
+																	pos:        position{line: 1749, col: 62, offset: 56444},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31106,26 +31106,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1744, col: 5, offset: 56225},
+													pos:   position{line: 1744, col: 5, offset: 56226},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50185},
+														pos: position{line: 1551, col: 5, offset: 50186},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50185},
+															pos: position{line: 1551, col: 5, offset: 50186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50185},
+																	pos:   position{line: 1551, col: 5, offset: 50186},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50194},
+																		pos: position{line: 1551, col: 14, offset: 50195},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50195},
+																			pos: position{line: 1551, col: 15, offset: 50196},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50195},
+																				pos: position{line: 1551, col: 15, offset: 50196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50195},
+																					pos:        position{line: 1551, col: 15, offset: 50196},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31136,28 +31136,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31166,9 +31166,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -31181,40 +31181,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1687, col: 5, offset: 54542},
+										pos: position{line: 1687, col: 5, offset: 54543},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1687, col: 5, offset: 54542},
+											pos: position{line: 1687, col: 5, offset: 54543},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54542},
+													pos:   position{line: 1687, col: 5, offset: 54543},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1695, col: 5, offset: 54868},
+														pos: position{line: 1695, col: 5, offset: 54869},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1695, col: 5, offset: 54868},
+															pos: position{line: 1695, col: 5, offset: 54869},
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 6, offset: 54869},
+																pos: position{line: 1695, col: 6, offset: 54870},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1695, col: 6, offset: 54869},
+																		pos: position{line: 1695, col: 6, offset: 54870},
 																		expr: &actionExpr{
-																			pos: position{line: 1700, col: 5, offset: 55019},
+																			pos: position{line: 1700, col: 5, offset: 55020},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1700, col: 5, offset: 55019},
+																				pos: position{line: 1700, col: 5, offset: 55020},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1700, col: 5, offset: 55019},
+																						pos:   position{line: 1700, col: 5, offset: 55020},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1700, col: 16, offset: 55030},
+																							pos: position{line: 1700, col: 16, offset: 55031},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1700, col: 16, offset: 55030},
+																								pos: position{line: 1700, col: 16, offset: 55031},
 																								expr: &litMatcher{
-																									pos:        position{line: 1700, col: 17, offset: 55031},
+																									pos:        position{line: 1700, col: 17, offset: 55032},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -31223,7 +31223,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1703, col: 5, offset: 55088},
+																						pos: position{line: 1703, col: 5, offset: 55089},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -31231,30 +31231,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1695, col: 35, offset: 54898},
+																		pos: position{line: 1695, col: 35, offset: 54899},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31263,16 +31263,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1695, col: 40, offset: 54903,
+																		line: 1695, col: 40, offset: 54904,
 																	},
 																},
 															},
@@ -31280,24 +31280,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1688, col: 5, offset: 54577},
+													pos:   position{line: 1688, col: 5, offset: 54578},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 55019},
+														pos: position{line: 1700, col: 5, offset: 55020},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1700, col: 5, offset: 55019},
+															pos: position{line: 1700, col: 5, offset: 55020},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1700, col: 5, offset: 55019},
+																	pos:   position{line: 1700, col: 5, offset: 55020},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1700, col: 16, offset: 55030},
+																		pos: position{line: 1700, col: 16, offset: 55031},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1700, col: 16, offset: 55030},
+																			pos: position{line: 1700, col: 16, offset: 55031},
 																			expr: &litMatcher{
-																				pos:        position{line: 1700, col: 17, offset: 55031},
+																				pos:        position{line: 1700, col: 17, offset: 55032},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31306,7 +31306,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1703, col: 5, offset: 55088},
+																	pos: position{line: 1703, col: 5, offset: 55089},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -31314,24 +31314,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1689, col: 5, offset: 54622},
+													pos:   position{line: 1689, col: 5, offset: 54623},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1711, col: 5, offset: 55337},
+														pos: position{line: 1711, col: 5, offset: 55338},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1713, col: 9, offset: 55403},
+																pos: position{line: 1713, col: 9, offset: 55404},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1713, col: 9, offset: 55403},
+																	pos: position{line: 1713, col: 9, offset: 55404},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55403},
+																			pos: position{line: 1713, col: 9, offset: 55404},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31340,28 +31340,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31370,34 +31370,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1714, col: 9, offset: 55422},
+																			pos: position{line: 1714, col: 9, offset: 55423},
 																			expr: &actionExpr{
-																				pos: position{line: 697, col: 14, offset: 22134},
+																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 697, col: 14, offset: 22134},
+																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91734},
+																							pos: position{line: 2903, col: 11, offset: 91735},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91736,
+																								line: 2903, col: 13, offset: 91737,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 697, col: 21, offset: 22141},
+																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31406,28 +31406,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31436,9 +31436,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -31451,18 +31451,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 9, offset: 55551},
+																pos: position{line: 1720, col: 9, offset: 55552},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 9, offset: 55551},
+																	pos: position{line: 1720, col: 9, offset: 55552},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 11, offset: 91461},
+																			pos: position{line: 2890, col: 11, offset: 91462},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2890, col: 11, offset: 91461},
+																				pos: position{line: 2890, col: 11, offset: 91462},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 11, offset: 91461},
+																					pos:        position{line: 2890, col: 11, offset: 91462},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31471,15 +31471,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 9, offset: 55624},
+																			pos:   position{line: 1721, col: 9, offset: 55625},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 18, offset: 55633},
+																				pos: position{line: 1721, col: 18, offset: 55634},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1721, col: 18, offset: 55633},
+																					pos: position{line: 1721, col: 18, offset: 55634},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1721, col: 18, offset: 55633},
+																						pos:        position{line: 1721, col: 18, offset: 55634},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31489,28 +31489,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31519,9 +31519,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -31539,41 +31539,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1574, col: 5, offset: 50804},
+							pos:   position{line: 1574, col: 5, offset: 50805},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1574, col: 16, offset: 50815},
+								pos: position{line: 1574, col: 16, offset: 50816},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1574, col: 17, offset: 50816},
+									pos:  position{line: 1574, col: 17, offset: 50817},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1575, col: 5, offset: 50838},
+							pos:   position{line: 1575, col: 5, offset: 50839},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1576, col: 9, offset: 50856},
+								pos: position{line: 1576, col: 9, offset: 50857},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 697, col: 14, offset: 22134},
+										pos: position{line: 697, col: 14, offset: 22135},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 697, col: 14, offset: 22134},
+											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2903, col: 11, offset: 91734},
+													pos: position{line: 2903, col: 11, offset: 91735},
 													expr: &anyMatcher{
-														line: 2903, col: 13, offset: 91736,
+														line: 2903, col: 13, offset: 91737,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 697, col: 21, offset: 22141},
+													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31582,28 +31582,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31612,9 +31612,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -31623,23 +31623,23 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1577, col: 11, offset: 50876},
+										pos:  position{line: 1577, col: 11, offset: 50877},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 361, col: 19, offset: 10921},
+										pos: position{line: 361, col: 19, offset: 10922},
 										run: (*parser).callonListContinuationElement248,
 										expr: &seqExpr{
-											pos: position{line: 361, col: 19, offset: 10921},
+											pos: position{line: 361, col: 19, offset: 10922},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 361, col: 19, offset: 10921},
+													pos:        position{line: 361, col: 19, offset: 10922},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 361, col: 24, offset: 10926},
+													pos:   position{line: 361, col: 24, offset: 10927},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 319, col: 18, offset: 9747},
@@ -31659,8 +31659,8 @@ var g = &grammar{
 																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 319, col: 29, offset: 9758},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -31671,18 +31671,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 361, col: 45, offset: 10947},
+													pos:        position{line: 361, col: 45, offset: 10948},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 361, col: 49, offset: 10951},
+													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31691,28 +31691,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31721,9 +31721,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -31732,19 +31732,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 363, col: 9, offset: 11042},
+										pos: position{line: 363, col: 9, offset: 11043},
 										run: (*parser).callonListContinuationElement269,
 										expr: &seqExpr{
-											pos: position{line: 363, col: 9, offset: 11042},
+											pos: position{line: 363, col: 9, offset: 11043},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 363, col: 9, offset: 11042},
+													pos:        position{line: 363, col: 9, offset: 11043},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 363, col: 13, offset: 11046},
+													pos:   position{line: 363, col: 13, offset: 11047},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 319, col: 18, offset: 9747},
@@ -31764,8 +31764,8 @@ var g = &grammar{
 																	pos: position{line: 319, col: 28, offset: 9757},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 319, col: 29, offset: 9758},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -31776,18 +31776,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 363, col: 34, offset: 11067},
+													pos:        position{line: 363, col: 34, offset: 11068},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 363, col: 39, offset: 11072},
+													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31796,28 +31796,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31826,9 +31826,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -31837,39 +31837,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26988},
+										pos: position{line: 840, col: 5, offset: 26989},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26988},
+											pos: position{line: 840, col: 5, offset: 26989},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26988},
+													pos:   position{line: 840, col: 5, offset: 26989},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 5, offset: 24248},
+														pos: position{line: 760, col: 5, offset: 24249},
 														run: (*parser).callonListContinuationElement293,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 5, offset: 24248},
+															pos: position{line: 760, col: 5, offset: 24249},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 760, col: 5, offset: 24248},
+																	pos:   position{line: 760, col: 5, offset: 24249},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 760, col: 16, offset: 24259},
+																		pos: position{line: 760, col: 16, offset: 24260},
 																		run: (*parser).callonListContinuationElement296,
 																		expr: &seqExpr{
-																			pos: position{line: 760, col: 16, offset: 24259},
+																			pos: position{line: 760, col: 16, offset: 24260},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 760, col: 16, offset: 24259},
+																					pos:        position{line: 760, col: 16, offset: 24260},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 760, col: 23, offset: 24266},
+																					pos: position{line: 760, col: 23, offset: 24267},
 																					expr: &litMatcher{
-																						pos:        position{line: 760, col: 23, offset: 24266},
+																						pos:        position{line: 760, col: 23, offset: 24267},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31880,12 +31880,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 762, col: 8, offset: 24350},
+																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31894,28 +31894,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31924,9 +31924,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -31936,56 +31936,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 27027},
+													pos: position{line: 841, col: 5, offset: 27028},
 													run: (*parser).callonListContinuationElement312,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27119},
+													pos:   position{line: 844, col: 5, offset: 27120},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 5, offset: 27511},
+														pos: position{line: 859, col: 5, offset: 27512},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 6, offset: 27512},
+															pos: position{line: 859, col: 6, offset: 27513},
 															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 6, offset: 27512},
+																pos: position{line: 859, col: 6, offset: 27513},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 6, offset: 27512},
+																		pos: position{line: 859, col: 6, offset: 27513},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27353},
+																			pos: position{line: 852, col: 5, offset: 27354},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27353},
+																					pos: position{line: 852, col: 5, offset: 27354},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27353},
+																							pos:   position{line: 852, col: 5, offset: 27354},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 760, col: 5, offset: 24248},
+																								pos: position{line: 760, col: 5, offset: 24249},
 																								run: (*parser).callonListContinuationElement321,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 5, offset: 24248},
+																									pos: position{line: 760, col: 5, offset: 24249},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 5, offset: 24248},
+																											pos:   position{line: 760, col: 5, offset: 24249},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 760, col: 16, offset: 24259},
+																												pos: position{line: 760, col: 16, offset: 24260},
 																												run: (*parser).callonListContinuationElement324,
 																												expr: &seqExpr{
-																													pos: position{line: 760, col: 16, offset: 24259},
+																													pos: position{line: 760, col: 16, offset: 24260},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 760, col: 16, offset: 24259},
+																															pos:        position{line: 760, col: 16, offset: 24260},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 760, col: 23, offset: 24266},
+																															pos: position{line: 760, col: 23, offset: 24267},
 																															expr: &litMatcher{
-																																pos:        position{line: 760, col: 23, offset: 24266},
+																																pos:        position{line: 760, col: 23, offset: 24267},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31996,12 +31996,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 762, col: 8, offset: 24350},
+																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32010,28 +32010,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32040,9 +32040,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -32052,45 +32052,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27384},
+																							pos: position{line: 853, col: 5, offset: 27385},
 																							run: (*parser).callonListContinuationElement340,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27542},
+																		pos:   position{line: 860, col: 5, offset: 27543},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32100,28 +32100,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32130,9 +32130,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -32147,41 +32147,41 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 845, col: 5, offset: 27153},
+													pos: position{line: 845, col: 5, offset: 27154},
 													expr: &choiceExpr{
-														pos: position{line: 852, col: 5, offset: 27353},
+														pos: position{line: 852, col: 5, offset: 27354},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 852, col: 5, offset: 27353},
+																pos: position{line: 852, col: 5, offset: 27354},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 852, col: 5, offset: 27353},
+																		pos:   position{line: 852, col: 5, offset: 27354},
 																		label: "end",
 																		expr: &actionExpr{
-																			pos: position{line: 760, col: 5, offset: 24248},
+																			pos: position{line: 760, col: 5, offset: 24249},
 																			run: (*parser).callonListContinuationElement364,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 5, offset: 24248},
+																				pos: position{line: 760, col: 5, offset: 24249},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 5, offset: 24248},
+																						pos:   position{line: 760, col: 5, offset: 24249},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 760, col: 16, offset: 24259},
+																							pos: position{line: 760, col: 16, offset: 24260},
 																							run: (*parser).callonListContinuationElement367,
 																							expr: &seqExpr{
-																								pos: position{line: 760, col: 16, offset: 24259},
+																								pos: position{line: 760, col: 16, offset: 24260},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 760, col: 16, offset: 24259},
+																										pos:        position{line: 760, col: 16, offset: 24260},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 760, col: 23, offset: 24266},
+																										pos: position{line: 760, col: 23, offset: 24267},
 																										expr: &litMatcher{
-																											pos:        position{line: 760, col: 23, offset: 24266},
+																											pos:        position{line: 760, col: 23, offset: 24267},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -32192,12 +32192,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 762, col: 8, offset: 24350},
+																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32206,28 +32206,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32236,9 +32236,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -32248,15 +32248,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 853, col: 5, offset: 27384},
+																		pos: position{line: 853, col: 5, offset: 27385},
 																		run: (*parser).callonListContinuationElement383,
 																	},
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -32266,39 +32266,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27695},
+										pos: position{line: 868, col: 5, offset: 27696},
 										run: (*parser).callonListContinuationElement386,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27695},
+											pos: position{line: 868, col: 5, offset: 27696},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27695},
+													pos:   position{line: 868, col: 5, offset: 27696},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 767, col: 5, offset: 24496},
+														pos: position{line: 767, col: 5, offset: 24497},
 														run: (*parser).callonListContinuationElement389,
 														expr: &seqExpr{
-															pos: position{line: 767, col: 5, offset: 24496},
+															pos: position{line: 767, col: 5, offset: 24497},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 767, col: 5, offset: 24496},
+																	pos:   position{line: 767, col: 5, offset: 24497},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 767, col: 16, offset: 24507},
+																		pos: position{line: 767, col: 16, offset: 24508},
 																		run: (*parser).callonListContinuationElement392,
 																		expr: &seqExpr{
-																			pos: position{line: 767, col: 16, offset: 24507},
+																			pos: position{line: 767, col: 16, offset: 24508},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 767, col: 16, offset: 24507},
+																					pos:        position{line: 767, col: 16, offset: 24508},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 767, col: 23, offset: 24514},
+																					pos: position{line: 767, col: 23, offset: 24515},
 																					expr: &litMatcher{
-																						pos:        position{line: 767, col: 23, offset: 24514},
+																						pos:        position{line: 767, col: 23, offset: 24515},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -32309,12 +32309,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 769, col: 8, offset: 24598},
+																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32323,28 +32323,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32353,9 +32353,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -32365,56 +32365,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27734},
+													pos: position{line: 869, col: 5, offset: 27735},
 													run: (*parser).callonListContinuationElement408,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27826},
+													pos:   position{line: 872, col: 5, offset: 27827},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 4, offset: 28223},
+														pos: position{line: 887, col: 4, offset: 28224},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 5, offset: 28224},
+															pos: position{line: 887, col: 5, offset: 28225},
 															run: (*parser).callonListContinuationElement411,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 5, offset: 28224},
+																pos: position{line: 887, col: 5, offset: 28225},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 5, offset: 28224},
+																		pos: position{line: 887, col: 5, offset: 28225},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 28066},
+																			pos: position{line: 880, col: 5, offset: 28067},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 28066},
+																					pos: position{line: 880, col: 5, offset: 28067},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 28066},
+																							pos:   position{line: 880, col: 5, offset: 28067},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 5, offset: 24496},
+																								pos: position{line: 767, col: 5, offset: 24497},
 																								run: (*parser).callonListContinuationElement417,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 5, offset: 24496},
+																									pos: position{line: 767, col: 5, offset: 24497},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 767, col: 5, offset: 24496},
+																											pos:   position{line: 767, col: 5, offset: 24497},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 16, offset: 24507},
+																												pos: position{line: 767, col: 16, offset: 24508},
 																												run: (*parser).callonListContinuationElement420,
 																												expr: &seqExpr{
-																													pos: position{line: 767, col: 16, offset: 24507},
+																													pos: position{line: 767, col: 16, offset: 24508},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 767, col: 16, offset: 24507},
+																															pos:        position{line: 767, col: 16, offset: 24508},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 767, col: 23, offset: 24514},
+																															pos: position{line: 767, col: 23, offset: 24515},
 																															expr: &litMatcher{
-																																pos:        position{line: 767, col: 23, offset: 24514},
+																																pos:        position{line: 767, col: 23, offset: 24515},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -32425,12 +32425,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 8, offset: 24598},
+																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32439,28 +32439,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32469,9 +32469,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -32481,45 +32481,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 28097},
+																							pos: position{line: 881, col: 5, offset: 28098},
 																							run: (*parser).callonListContinuationElement436,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28254},
+																		pos:   position{line: 888, col: 5, offset: 28255},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement440,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32529,28 +32529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32559,9 +32559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -32576,44 +32576,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27860},
+													pos:   position{line: 873, col: 5, offset: 27861},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27864},
+														pos: position{line: 873, col: 9, offset: 27865},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 28066},
+															pos: position{line: 880, col: 5, offset: 28067},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 28066},
+																	pos: position{line: 880, col: 5, offset: 28067},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 28066},
+																			pos:   position{line: 880, col: 5, offset: 28067},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 5, offset: 24496},
+																				pos: position{line: 767, col: 5, offset: 24497},
 																				run: (*parser).callonListContinuationElement461,
 																				expr: &seqExpr{
-																					pos: position{line: 767, col: 5, offset: 24496},
+																					pos: position{line: 767, col: 5, offset: 24497},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 767, col: 5, offset: 24496},
+																							pos:   position{line: 767, col: 5, offset: 24497},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 16, offset: 24507},
+																								pos: position{line: 767, col: 16, offset: 24508},
 																								run: (*parser).callonListContinuationElement464,
 																								expr: &seqExpr{
-																									pos: position{line: 767, col: 16, offset: 24507},
+																									pos: position{line: 767, col: 16, offset: 24508},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 767, col: 16, offset: 24507},
+																											pos:        position{line: 767, col: 16, offset: 24508},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 767, col: 23, offset: 24514},
+																											pos: position{line: 767, col: 23, offset: 24515},
 																											expr: &litMatcher{
-																												pos:        position{line: 767, col: 23, offset: 24514},
+																												pos:        position{line: 767, col: 23, offset: 24515},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32624,12 +32624,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 8, offset: 24598},
+																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32638,28 +32638,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32668,9 +32668,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -32680,15 +32680,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 28097},
+																			pos: position{line: 881, col: 5, offset: 28098},
 																			run: (*parser).callonListContinuationElement480,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -32699,36 +32699,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 980, col: 5, offset: 30546},
+										pos: position{line: 980, col: 5, offset: 30547},
 										run: (*parser).callonListContinuationElement483,
 										expr: &seqExpr{
-											pos: position{line: 980, col: 5, offset: 30546},
+											pos: position{line: 980, col: 5, offset: 30547},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 980, col: 5, offset: 30546},
+													pos:   position{line: 980, col: 5, offset: 30547},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 780, col: 26, offset: 24984},
+														pos: position{line: 780, col: 26, offset: 24985},
 														run: (*parser).callonListContinuationElement486,
 														expr: &seqExpr{
-															pos: position{line: 780, col: 26, offset: 24984},
+															pos: position{line: 780, col: 26, offset: 24985},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 780, col: 26, offset: 24984},
+																	pos:        position{line: 780, col: 26, offset: 24985},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 780, col: 32, offset: 24990},
+																	pos:   position{line: 780, col: 32, offset: 24991},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 784, col: 13, offset: 25120},
+																		pos: position{line: 784, col: 13, offset: 25121},
 																		run: (*parser).callonListContinuationElement490,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 784, col: 14, offset: 25121},
+																			pos: position{line: 784, col: 14, offset: 25122},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 784, col: 14, offset: 25121},
+																				pos:        position{line: 784, col: 14, offset: 25122},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32738,12 +32738,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 780, col: 52, offset: 25010},
+																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32752,28 +32752,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32782,9 +32782,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -32794,34 +32794,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 981, col: 5, offset: 30592},
+													pos:   position{line: 981, col: 5, offset: 30593},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 994, col: 5, offset: 31065},
+														pos: position{line: 994, col: 5, offset: 31066},
 														expr: &actionExpr{
-															pos: position{line: 994, col: 6, offset: 31066},
+															pos: position{line: 994, col: 6, offset: 31067},
 															run: (*parser).callonListContinuationElement506,
 															expr: &seqExpr{
-																pos: position{line: 994, col: 6, offset: 31066},
+																pos: position{line: 994, col: 6, offset: 31067},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 994, col: 6, offset: 31066},
+																		pos: position{line: 994, col: 6, offset: 31067},
 																		expr: &seqExpr{
-																			pos: position{line: 991, col: 34, offset: 31013},
+																			pos: position{line: 991, col: 34, offset: 31014},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 991, col: 34, offset: 31013},
+																					pos:        position{line: 991, col: 34, offset: 31014},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 991, col: 40, offset: 31019},
+																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32830,28 +32830,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -32871,30 +32871,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 995, col: 5, offset: 31101},
+																		pos:   position{line: 995, col: 5, offset: 31102},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement523,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32904,28 +32904,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32934,9 +32934,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -32951,23 +32951,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 982, col: 5, offset: 30631},
+													pos: position{line: 982, col: 5, offset: 30632},
 													expr: &seqExpr{
-														pos: position{line: 991, col: 34, offset: 31013},
+														pos: position{line: 991, col: 34, offset: 31014},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 991, col: 34, offset: 31013},
+																pos:        position{line: 991, col: 34, offset: 31014},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 991, col: 40, offset: 31019},
+																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32976,28 +32976,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33006,9 +33006,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -33020,39 +33020,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28407},
+										pos: position{line: 896, col: 5, offset: 28408},
 										run: (*parser).callonListContinuationElement553,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28407},
+											pos: position{line: 896, col: 5, offset: 28408},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28407},
+													pos:   position{line: 896, col: 5, offset: 28408},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 774, col: 5, offset: 24743},
+														pos: position{line: 774, col: 5, offset: 24744},
 														run: (*parser).callonListContinuationElement556,
 														expr: &seqExpr{
-															pos: position{line: 774, col: 5, offset: 24743},
+															pos: position{line: 774, col: 5, offset: 24744},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 774, col: 5, offset: 24743},
+																	pos:   position{line: 774, col: 5, offset: 24744},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 774, col: 16, offset: 24754},
+																		pos: position{line: 774, col: 16, offset: 24755},
 																		run: (*parser).callonListContinuationElement559,
 																		expr: &seqExpr{
-																			pos: position{line: 774, col: 16, offset: 24754},
+																			pos: position{line: 774, col: 16, offset: 24755},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 774, col: 16, offset: 24754},
+																					pos:        position{line: 774, col: 16, offset: 24755},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 774, col: 22, offset: 24760},
+																					pos: position{line: 774, col: 22, offset: 24761},
 																					expr: &litMatcher{
-																						pos:        position{line: 774, col: 22, offset: 24760},
+																						pos:        position{line: 774, col: 22, offset: 24761},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -33063,12 +33063,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 776, col: 8, offset: 24844},
+																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33077,28 +33077,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33107,9 +33107,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -33119,56 +33119,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28445},
+													pos: position{line: 897, col: 5, offset: 28446},
 													run: (*parser).callonListContinuationElement575,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28537},
+													pos:   position{line: 900, col: 5, offset: 28538},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28927},
+														pos: position{line: 915, col: 5, offset: 28928},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28928},
+															pos: position{line: 915, col: 6, offset: 28929},
 															run: (*parser).callonListContinuationElement578,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28928},
+																pos: position{line: 915, col: 6, offset: 28929},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28928},
+																		pos: position{line: 915, col: 6, offset: 28929},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28771},
+																			pos: position{line: 908, col: 5, offset: 28772},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28771},
+																					pos: position{line: 908, col: 5, offset: 28772},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28771},
+																							pos:   position{line: 908, col: 5, offset: 28772},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 774, col: 5, offset: 24743},
+																								pos: position{line: 774, col: 5, offset: 24744},
 																								run: (*parser).callonListContinuationElement584,
 																								expr: &seqExpr{
-																									pos: position{line: 774, col: 5, offset: 24743},
+																									pos: position{line: 774, col: 5, offset: 24744},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 774, col: 5, offset: 24743},
+																											pos:   position{line: 774, col: 5, offset: 24744},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 774, col: 16, offset: 24754},
+																												pos: position{line: 774, col: 16, offset: 24755},
 																												run: (*parser).callonListContinuationElement587,
 																												expr: &seqExpr{
-																													pos: position{line: 774, col: 16, offset: 24754},
+																													pos: position{line: 774, col: 16, offset: 24755},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 774, col: 16, offset: 24754},
+																															pos:        position{line: 774, col: 16, offset: 24755},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 774, col: 22, offset: 24760},
+																															pos: position{line: 774, col: 22, offset: 24761},
 																															expr: &litMatcher{
-																																pos:        position{line: 774, col: 22, offset: 24760},
+																																pos:        position{line: 774, col: 22, offset: 24761},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -33179,12 +33179,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 776, col: 8, offset: 24844},
+																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33193,28 +33193,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33223,9 +33223,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -33235,45 +33235,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28801},
+																							pos: position{line: 909, col: 5, offset: 28802},
 																							run: (*parser).callonListContinuationElement603,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28957},
+																		pos:   position{line: 916, col: 5, offset: 28958},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement607,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33283,28 +33283,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33313,9 +33313,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -33330,44 +33330,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28570},
+													pos:   position{line: 901, col: 5, offset: 28571},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28574},
+														pos: position{line: 901, col: 9, offset: 28575},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28771},
+															pos: position{line: 908, col: 5, offset: 28772},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28771},
+																	pos: position{line: 908, col: 5, offset: 28772},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28771},
+																			pos:   position{line: 908, col: 5, offset: 28772},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 774, col: 5, offset: 24743},
+																				pos: position{line: 774, col: 5, offset: 24744},
 																				run: (*parser).callonListContinuationElement628,
 																				expr: &seqExpr{
-																					pos: position{line: 774, col: 5, offset: 24743},
+																					pos: position{line: 774, col: 5, offset: 24744},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 774, col: 5, offset: 24743},
+																							pos:   position{line: 774, col: 5, offset: 24744},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 774, col: 16, offset: 24754},
+																								pos: position{line: 774, col: 16, offset: 24755},
 																								run: (*parser).callonListContinuationElement631,
 																								expr: &seqExpr{
-																									pos: position{line: 774, col: 16, offset: 24754},
+																									pos: position{line: 774, col: 16, offset: 24755},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 774, col: 16, offset: 24754},
+																											pos:        position{line: 774, col: 16, offset: 24755},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 22, offset: 24760},
+																											pos: position{line: 774, col: 22, offset: 24761},
 																											expr: &litMatcher{
-																												pos:        position{line: 774, col: 22, offset: 24760},
+																												pos:        position{line: 774, col: 22, offset: 24761},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -33378,12 +33378,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 776, col: 8, offset: 24844},
+																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33392,28 +33392,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33422,9 +33422,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -33434,15 +33434,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28801},
+																			pos: position{line: 909, col: 5, offset: 28802},
 																			run: (*parser).callonListContinuationElement647,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -33453,39 +33453,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 29112},
+										pos: position{line: 924, col: 5, offset: 29113},
 										run: (*parser).callonListContinuationElement650,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 29112},
+											pos: position{line: 924, col: 5, offset: 29113},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 29112},
+													pos:   position{line: 924, col: 5, offset: 29113},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 789, col: 5, offset: 25280},
+														pos: position{line: 789, col: 5, offset: 25281},
 														run: (*parser).callonListContinuationElement653,
 														expr: &seqExpr{
-															pos: position{line: 789, col: 5, offset: 25280},
+															pos: position{line: 789, col: 5, offset: 25281},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 789, col: 5, offset: 25280},
+																	pos:   position{line: 789, col: 5, offset: 25281},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 16, offset: 25291},
+																		pos: position{line: 789, col: 16, offset: 25292},
 																		run: (*parser).callonListContinuationElement656,
 																		expr: &seqExpr{
-																			pos: position{line: 789, col: 16, offset: 25291},
+																			pos: position{line: 789, col: 16, offset: 25292},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 789, col: 16, offset: 25291},
+																					pos:        position{line: 789, col: 16, offset: 25292},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 789, col: 23, offset: 25298},
+																					pos: position{line: 789, col: 23, offset: 25299},
 																					expr: &litMatcher{
-																						pos:        position{line: 789, col: 23, offset: 25298},
+																						pos:        position{line: 789, col: 23, offset: 25299},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33496,12 +33496,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 791, col: 8, offset: 25382},
+																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33510,28 +33510,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33540,9 +33540,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -33552,56 +33552,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 29151},
+													pos: position{line: 925, col: 5, offset: 29152},
 													run: (*parser).callonListContinuationElement672,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29243},
+													pos:   position{line: 928, col: 5, offset: 29244},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29641},
+														pos: position{line: 943, col: 5, offset: 29642},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29642},
+															pos: position{line: 943, col: 6, offset: 29643},
 															run: (*parser).callonListContinuationElement675,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29642},
+																pos: position{line: 943, col: 6, offset: 29643},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29642},
+																		pos: position{line: 943, col: 6, offset: 29643},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29483},
+																			pos: position{line: 936, col: 5, offset: 29484},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29483},
+																					pos: position{line: 936, col: 5, offset: 29484},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29483},
+																							pos:   position{line: 936, col: 5, offset: 29484},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 5, offset: 25280},
+																								pos: position{line: 789, col: 5, offset: 25281},
 																								run: (*parser).callonListContinuationElement681,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 5, offset: 25280},
+																									pos: position{line: 789, col: 5, offset: 25281},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 789, col: 5, offset: 25280},
+																											pos:   position{line: 789, col: 5, offset: 25281},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 16, offset: 25291},
+																												pos: position{line: 789, col: 16, offset: 25292},
 																												run: (*parser).callonListContinuationElement684,
 																												expr: &seqExpr{
-																													pos: position{line: 789, col: 16, offset: 25291},
+																													pos: position{line: 789, col: 16, offset: 25292},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 789, col: 16, offset: 25291},
+																															pos:        position{line: 789, col: 16, offset: 25292},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 789, col: 23, offset: 25298},
+																															pos: position{line: 789, col: 23, offset: 25299},
 																															expr: &litMatcher{
-																																pos:        position{line: 789, col: 23, offset: 25298},
+																																pos:        position{line: 789, col: 23, offset: 25299},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33612,12 +33612,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 8, offset: 25382},
+																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33626,28 +33626,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33656,9 +33656,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -33668,45 +33668,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29514},
+																							pos: position{line: 937, col: 5, offset: 29515},
 																							run: (*parser).callonListContinuationElement700,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29672},
+																		pos:   position{line: 944, col: 5, offset: 29673},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement704,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33716,28 +33716,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33746,9 +33746,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -33763,44 +33763,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29277},
+													pos:   position{line: 929, col: 5, offset: 29278},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29281},
+														pos: position{line: 929, col: 9, offset: 29282},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29483},
+															pos: position{line: 936, col: 5, offset: 29484},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29483},
+																	pos: position{line: 936, col: 5, offset: 29484},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29483},
+																			pos:   position{line: 936, col: 5, offset: 29484},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 5, offset: 25280},
+																				pos: position{line: 789, col: 5, offset: 25281},
 																				run: (*parser).callonListContinuationElement725,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 5, offset: 25280},
+																					pos: position{line: 789, col: 5, offset: 25281},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 789, col: 5, offset: 25280},
+																							pos:   position{line: 789, col: 5, offset: 25281},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 16, offset: 25291},
+																								pos: position{line: 789, col: 16, offset: 25292},
 																								run: (*parser).callonListContinuationElement728,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 16, offset: 25291},
+																									pos: position{line: 789, col: 16, offset: 25292},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25291},
+																											pos:        position{line: 789, col: 16, offset: 25292},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 789, col: 23, offset: 25298},
+																											pos: position{line: 789, col: 23, offset: 25299},
 																											expr: &litMatcher{
-																												pos:        position{line: 789, col: 23, offset: 25298},
+																												pos:        position{line: 789, col: 23, offset: 25299},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33811,12 +33811,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 8, offset: 25382},
+																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33825,28 +33825,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33855,9 +33855,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -33867,15 +33867,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29514},
+																			pos: position{line: 937, col: 5, offset: 29515},
 																			run: (*parser).callonListContinuationElement744,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -33886,39 +33886,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29827},
+										pos: position{line: 952, col: 5, offset: 29828},
 										run: (*parser).callonListContinuationElement747,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29827},
+											pos: position{line: 952, col: 5, offset: 29828},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29827},
+													pos:   position{line: 952, col: 5, offset: 29828},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 803, col: 5, offset: 25756},
+														pos: position{line: 803, col: 5, offset: 25757},
 														run: (*parser).callonListContinuationElement750,
 														expr: &seqExpr{
-															pos: position{line: 803, col: 5, offset: 25756},
+															pos: position{line: 803, col: 5, offset: 25757},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 803, col: 5, offset: 25756},
+																	pos:   position{line: 803, col: 5, offset: 25757},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 803, col: 16, offset: 25767},
+																		pos: position{line: 803, col: 16, offset: 25768},
 																		run: (*parser).callonListContinuationElement753,
 																		expr: &seqExpr{
-																			pos: position{line: 803, col: 16, offset: 25767},
+																			pos: position{line: 803, col: 16, offset: 25768},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 803, col: 16, offset: 25767},
+																					pos:        position{line: 803, col: 16, offset: 25768},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 23, offset: 25774},
+																					pos: position{line: 803, col: 23, offset: 25775},
 																					expr: &litMatcher{
-																						pos:        position{line: 803, col: 23, offset: 25774},
+																						pos:        position{line: 803, col: 23, offset: 25775},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33929,12 +33929,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 805, col: 8, offset: 25858},
+																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33943,28 +33943,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33973,9 +33973,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -33985,56 +33985,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 953, col: 5, offset: 29866},
+													pos: position{line: 953, col: 5, offset: 29867},
 													run: (*parser).callonListContinuationElement769,
 												},
 												&labeledExpr{
-													pos:   position{line: 956, col: 5, offset: 29958},
+													pos:   position{line: 956, col: 5, offset: 29959},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 971, col: 5, offset: 30356},
+														pos: position{line: 971, col: 5, offset: 30357},
 														expr: &actionExpr{
-															pos: position{line: 971, col: 6, offset: 30357},
+															pos: position{line: 971, col: 6, offset: 30358},
 															run: (*parser).callonListContinuationElement772,
 															expr: &seqExpr{
-																pos: position{line: 971, col: 6, offset: 30357},
+																pos: position{line: 971, col: 6, offset: 30358},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 971, col: 6, offset: 30357},
+																		pos: position{line: 971, col: 6, offset: 30358},
 																		expr: &choiceExpr{
-																			pos: position{line: 964, col: 5, offset: 30198},
+																			pos: position{line: 964, col: 5, offset: 30199},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 964, col: 5, offset: 30198},
+																					pos: position{line: 964, col: 5, offset: 30199},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 964, col: 5, offset: 30198},
+																							pos:   position{line: 964, col: 5, offset: 30199},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 5, offset: 25756},
+																								pos: position{line: 803, col: 5, offset: 25757},
 																								run: (*parser).callonListContinuationElement778,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 25756},
+																									pos: position{line: 803, col: 5, offset: 25757},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 25756},
+																											pos:   position{line: 803, col: 5, offset: 25757},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 25767},
+																												pos: position{line: 803, col: 16, offset: 25768},
 																												run: (*parser).callonListContinuationElement781,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 25767},
+																													pos: position{line: 803, col: 16, offset: 25768},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 25767},
+																															pos:        position{line: 803, col: 16, offset: 25768},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 25774},
+																															pos: position{line: 803, col: 23, offset: 25775},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 25774},
+																																pos:        position{line: 803, col: 23, offset: 25775},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -34045,12 +34045,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 25858},
+																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34059,28 +34059,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34089,9 +34089,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -34101,45 +34101,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 965, col: 5, offset: 30229},
+																							pos: position{line: 965, col: 5, offset: 30230},
 																							run: (*parser).callonListContinuationElement797,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 972, col: 5, offset: 30387},
+																		pos:   position{line: 972, col: 5, offset: 30388},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement801,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34149,28 +34149,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34179,9 +34179,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -34196,44 +34196,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 957, col: 5, offset: 29992},
+													pos:   position{line: 957, col: 5, offset: 29993},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 957, col: 9, offset: 29996},
+														pos: position{line: 957, col: 9, offset: 29997},
 														expr: &choiceExpr{
-															pos: position{line: 964, col: 5, offset: 30198},
+															pos: position{line: 964, col: 5, offset: 30199},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 964, col: 5, offset: 30198},
+																	pos: position{line: 964, col: 5, offset: 30199},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 964, col: 5, offset: 30198},
+																			pos:   position{line: 964, col: 5, offset: 30199},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 5, offset: 25756},
+																				pos: position{line: 803, col: 5, offset: 25757},
 																				run: (*parser).callonListContinuationElement822,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 25757},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 25756},
+																							pos:   position{line: 803, col: 5, offset: 25757},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 25767},
+																								pos: position{line: 803, col: 16, offset: 25768},
 																								run: (*parser).callonListContinuationElement825,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 25768},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 25767},
+																											pos:        position{line: 803, col: 16, offset: 25768},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 25774},
+																											pos: position{line: 803, col: 23, offset: 25775},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 25774},
+																												pos:        position{line: 803, col: 23, offset: 25775},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -34244,12 +34244,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 25858},
+																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34258,28 +34258,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34288,9 +34288,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -34300,15 +34300,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 965, col: 5, offset: 30229},
+																			pos: position{line: 965, col: 5, offset: 30230},
 																			run: (*parser).callonListContinuationElement841,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -34319,41 +34319,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1003, col: 5, offset: 31270},
+										pos: position{line: 1003, col: 5, offset: 31271},
 										run: (*parser).callonListContinuationElement844,
 										expr: &seqExpr{
-											pos: position{line: 1003, col: 5, offset: 31270},
+											pos: position{line: 1003, col: 5, offset: 31271},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1003, col: 5, offset: 31270},
+													pos:   position{line: 1003, col: 5, offset: 31271},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 1010, col: 5, offset: 31529},
+														pos: position{line: 1010, col: 5, offset: 31530},
 														run: (*parser).callonListContinuationElement847,
 														expr: &seqExpr{
-															pos: position{line: 1010, col: 5, offset: 31529},
+															pos: position{line: 1010, col: 5, offset: 31530},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1010, col: 5, offset: 31529},
+																	pos: position{line: 1010, col: 5, offset: 31530},
 																	expr: &actionExpr{
-																		pos: position{line: 697, col: 14, offset: 22134},
+																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement850,
 																		expr: &seqExpr{
-																			pos: position{line: 697, col: 14, offset: 22134},
+																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91734},
+																					pos: position{line: 2903, col: 11, offset: 91735},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91736,
+																						line: 2903, col: 13, offset: 91737,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 697, col: 21, offset: 22141},
+																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34362,28 +34362,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34392,9 +34392,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -34404,21 +34404,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1011, col: 5, offset: 31544},
+																	pos:        position{line: 1011, col: 5, offset: 31545},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1012, col: 5, offset: 31554},
+																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2836, col: 14, offset: 89993},
+																		pos: position{line: 2836, col: 14, offset: 89994},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2836, col: 14, offset: 89993},
+																			pos: position{line: 2836, col: 14, offset: 89994},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2836, col: 14, offset: 89993},
+																				pos:        position{line: 2836, col: 14, offset: 89994},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34428,28 +34428,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34458,9 +34458,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -34470,40 +34470,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1004, col: 5, offset: 31307},
+													pos:   position{line: 1004, col: 5, offset: 31308},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1004, col: 16, offset: 31318},
+														pos: position{line: 1004, col: 16, offset: 31319},
 														expr: &choiceExpr{
-															pos: position{line: 1004, col: 17, offset: 31319},
+															pos: position{line: 1004, col: 17, offset: 31320},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 1010, col: 5, offset: 31529},
+																	pos: position{line: 1010, col: 5, offset: 31530},
 																	run: (*parser).callonListContinuationElement881,
 																	expr: &seqExpr{
-																		pos: position{line: 1010, col: 5, offset: 31529},
+																		pos: position{line: 1010, col: 5, offset: 31530},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1010, col: 5, offset: 31529},
+																				pos: position{line: 1010, col: 5, offset: 31530},
 																				expr: &actionExpr{
-																					pos: position{line: 697, col: 14, offset: 22134},
+																					pos: position{line: 697, col: 14, offset: 22135},
 																					run: (*parser).callonListContinuationElement884,
 																					expr: &seqExpr{
-																						pos: position{line: 697, col: 14, offset: 22134},
+																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2903, col: 11, offset: 91734},
+																								pos: position{line: 2903, col: 11, offset: 91735},
 																								expr: &anyMatcher{
-																									line: 2903, col: 13, offset: 91736,
+																									line: 2903, col: 13, offset: 91737,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 697, col: 21, offset: 22141},
+																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34512,28 +34512,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34542,9 +34542,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -34554,21 +34554,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1011, col: 5, offset: 31544},
+																				pos:        position{line: 1011, col: 5, offset: 31545},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1012, col: 5, offset: 31554},
+																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2836, col: 14, offset: 89993},
+																					pos: position{line: 2836, col: 14, offset: 89994},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2836, col: 14, offset: 89993},
+																						pos: position{line: 2836, col: 14, offset: 89994},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 14, offset: 89993},
+																							pos:        position{line: 2836, col: 14, offset: 89994},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34578,28 +34578,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91798},
+																				pos: position{line: 2908, col: 8, offset: 91799},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91571},
+																						pos: position{line: 2895, col: 12, offset: 91572},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91572},
+																							pos: position{line: 2895, col: 13, offset: 91573},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91572},
+																									pos:        position{line: 2895, col: 13, offset: 91573},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91579},
+																									pos:        position{line: 2895, col: 20, offset: 91580},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91588},
+																									pos:        position{line: 2895, col: 29, offset: 91589},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34608,9 +34608,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
@@ -34619,21 +34619,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1818, col: 5, offset: 58755},
+																	pos: position{line: 1818, col: 5, offset: 58756},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1818, col: 5, offset: 58755},
+																		pos: position{line: 1818, col: 5, offset: 58756},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1818, col: 5, offset: 58755},
+																				pos:   position{line: 1818, col: 5, offset: 58756},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2836, col: 14, offset: 89993},
+																					pos: position{line: 2836, col: 14, offset: 89994},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2836, col: 14, offset: 89993},
+																						pos: position{line: 2836, col: 14, offset: 89994},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 14, offset: 89993},
+																							pos:        position{line: 2836, col: 14, offset: 89994},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34643,32 +34643,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1819, col: 5, offset: 58779},
+																				pos: position{line: 1819, col: 5, offset: 58780},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91798},
+																				pos: position{line: 2908, col: 8, offset: 91799},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91571},
+																						pos: position{line: 2895, col: 12, offset: 91572},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91572},
+																							pos: position{line: 2895, col: 13, offset: 91573},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91572},
+																									pos:        position{line: 2895, col: 13, offset: 91573},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91579},
+																									pos:        position{line: 2895, col: 20, offset: 91580},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91588},
+																									pos:        position{line: 2895, col: 29, offset: 91589},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34677,9 +34677,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
@@ -34695,28 +34695,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1025, col: 5, offset: 31819},
+										pos: position{line: 1025, col: 5, offset: 31820},
 										run: (*parser).callonListContinuationElement927,
 										expr: &seqExpr{
-											pos: position{line: 1025, col: 5, offset: 31819},
+											pos: position{line: 1025, col: 5, offset: 31820},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31819},
+													pos:   position{line: 1025, col: 5, offset: 31820},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 796, col: 5, offset: 25525},
+														pos: position{line: 796, col: 5, offset: 25526},
 														run: (*parser).callonListContinuationElement930,
 														expr: &seqExpr{
-															pos: position{line: 796, col: 5, offset: 25525},
+															pos: position{line: 796, col: 5, offset: 25526},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 796, col: 5, offset: 25525},
+																	pos:   position{line: 796, col: 5, offset: 25526},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 796, col: 16, offset: 25536},
+																		pos: position{line: 796, col: 16, offset: 25537},
 																		run: (*parser).callonListContinuationElement933,
 																		expr: &litMatcher{
-																			pos:        position{line: 796, col: 16, offset: 25536},
+																			pos:        position{line: 796, col: 16, offset: 25537},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34724,12 +34724,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 798, col: 8, offset: 25613},
+																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34738,28 +34738,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34768,9 +34768,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -34780,35 +34780,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1026, col: 5, offset: 31855},
+													pos:   position{line: 1026, col: 5, offset: 31856},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32123},
+														pos: position{line: 1036, col: 5, offset: 32124},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32124},
+															pos: position{line: 1036, col: 6, offset: 32125},
 															run: (*parser).callonListContinuationElement948,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32124},
+																pos: position{line: 1036, col: 6, offset: 32125},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32124},
+																		pos: position{line: 1036, col: 6, offset: 32125},
 																		expr: &choiceExpr{
-																			pos: position{line: 1033, col: 26, offset: 32072},
+																			pos: position{line: 1033, col: 26, offset: 32073},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 796, col: 5, offset: 25525},
+																					pos: position{line: 796, col: 5, offset: 25526},
 																					run: (*parser).callonListContinuationElement952,
 																					expr: &seqExpr{
-																						pos: position{line: 796, col: 5, offset: 25525},
+																						pos: position{line: 796, col: 5, offset: 25526},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 796, col: 5, offset: 25525},
+																								pos:   position{line: 796, col: 5, offset: 25526},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 16, offset: 25536},
+																									pos: position{line: 796, col: 16, offset: 25537},
 																									run: (*parser).callonListContinuationElement955,
 																									expr: &litMatcher{
-																										pos:        position{line: 796, col: 16, offset: 25536},
+																										pos:        position{line: 796, col: 16, offset: 25537},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34816,12 +34816,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 798, col: 8, offset: 25613},
+																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34830,28 +34830,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34860,9 +34860,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -34871,39 +34871,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32151},
+																		pos:   position{line: 1037, col: 5, offset: 32152},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement971,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34913,28 +34913,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34943,9 +34943,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -34960,27 +34960,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1027, col: 5, offset: 31886},
+													pos:   position{line: 1027, col: 5, offset: 31887},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1027, col: 9, offset: 31890},
+														pos: position{line: 1027, col: 9, offset: 31891},
 														expr: &choiceExpr{
-															pos: position{line: 1033, col: 26, offset: 32072},
+															pos: position{line: 1033, col: 26, offset: 32073},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 796, col: 5, offset: 25525},
+																	pos: position{line: 796, col: 5, offset: 25526},
 																	run: (*parser).callonListContinuationElement990,
 																	expr: &seqExpr{
-																		pos: position{line: 796, col: 5, offset: 25525},
+																		pos: position{line: 796, col: 5, offset: 25526},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 796, col: 5, offset: 25525},
+																				pos:   position{line: 796, col: 5, offset: 25526},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 796, col: 16, offset: 25536},
+																					pos: position{line: 796, col: 16, offset: 25537},
 																					run: (*parser).callonListContinuationElement993,
 																					expr: &litMatcher{
-																						pos:        position{line: 796, col: 16, offset: 25536},
+																						pos:        position{line: 796, col: 16, offset: 25537},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34988,12 +34988,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 798, col: 8, offset: 25613},
+																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91400},
+																					pos: position{line: 2886, col: 10, offset: 91401},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91400},
+																						pos:        position{line: 2886, col: 10, offset: 91401},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35002,28 +35002,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91798},
+																				pos: position{line: 2908, col: 8, offset: 91799},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91571},
+																						pos: position{line: 2895, col: 12, offset: 91572},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91572},
+																							pos: position{line: 2895, col: 13, offset: 91573},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91572},
+																									pos:        position{line: 2895, col: 13, offset: 91573},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91579},
+																									pos:        position{line: 2895, col: 20, offset: 91580},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91588},
+																									pos:        position{line: 2895, col: 29, offset: 91589},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35032,9 +35032,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
@@ -35043,9 +35043,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -35056,39 +35056,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32314},
+										pos: position{line: 1045, col: 5, offset: 32315},
 										run: (*parser).callonListContinuationElement1008,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32314},
+											pos: position{line: 1045, col: 5, offset: 32315},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32314},
+													pos:   position{line: 1045, col: 5, offset: 32315},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 810, col: 5, offset: 26008},
+														pos: position{line: 810, col: 5, offset: 26009},
 														run: (*parser).callonListContinuationElement1011,
 														expr: &seqExpr{
-															pos: position{line: 810, col: 5, offset: 26008},
+															pos: position{line: 810, col: 5, offset: 26009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 810, col: 5, offset: 26008},
+																	pos:   position{line: 810, col: 5, offset: 26009},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 810, col: 16, offset: 26019},
+																		pos: position{line: 810, col: 16, offset: 26020},
 																		run: (*parser).callonListContinuationElement1014,
 																		expr: &seqExpr{
-																			pos: position{line: 810, col: 16, offset: 26019},
+																			pos: position{line: 810, col: 16, offset: 26020},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 810, col: 16, offset: 26019},
+																					pos:        position{line: 810, col: 16, offset: 26020},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 810, col: 23, offset: 26026},
+																					pos: position{line: 810, col: 23, offset: 26027},
 																					expr: &litMatcher{
-																						pos:        position{line: 810, col: 23, offset: 26026},
+																						pos:        position{line: 810, col: 23, offset: 26027},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -35099,12 +35099,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 812, col: 8, offset: 26110},
+																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35113,28 +35113,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35143,9 +35143,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -35155,56 +35155,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32357},
+													pos: position{line: 1046, col: 5, offset: 32358},
 													run: (*parser).callonListContinuationElement1030,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32449},
+													pos:   position{line: 1049, col: 5, offset: 32450},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 5, offset: 32879},
+														pos: position{line: 1064, col: 5, offset: 32880},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 6, offset: 32880},
+															pos: position{line: 1064, col: 6, offset: 32881},
 															run: (*parser).callonListContinuationElement1033,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 6, offset: 32880},
+																pos: position{line: 1064, col: 6, offset: 32881},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 6, offset: 32880},
+																		pos: position{line: 1064, col: 6, offset: 32881},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32713},
+																			pos: position{line: 1057, col: 5, offset: 32714},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32713},
+																					pos: position{line: 1057, col: 5, offset: 32714},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32713},
+																							pos:   position{line: 1057, col: 5, offset: 32714},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26008},
+																								pos: position{line: 810, col: 5, offset: 26009},
 																								run: (*parser).callonListContinuationElement1039,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26008},
+																									pos: position{line: 810, col: 5, offset: 26009},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 810, col: 5, offset: 26008},
+																											pos:   position{line: 810, col: 5, offset: 26009},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 810, col: 16, offset: 26019},
+																												pos: position{line: 810, col: 16, offset: 26020},
 																												run: (*parser).callonListContinuationElement1042,
 																												expr: &seqExpr{
-																													pos: position{line: 810, col: 16, offset: 26019},
+																													pos: position{line: 810, col: 16, offset: 26020},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 810, col: 16, offset: 26019},
+																															pos:        position{line: 810, col: 16, offset: 26020},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 810, col: 23, offset: 26026},
+																															pos: position{line: 810, col: 23, offset: 26027},
 																															expr: &litMatcher{
-																																pos:        position{line: 810, col: 23, offset: 26026},
+																																pos:        position{line: 810, col: 23, offset: 26027},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -35215,12 +35215,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 812, col: 8, offset: 26110},
+																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35229,28 +35229,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35259,9 +35259,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -35271,45 +35271,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32748},
+																							pos: position{line: 1058, col: 5, offset: 32749},
 																							run: (*parser).callonListContinuationElement1058,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32914},
+																		pos:   position{line: 1065, col: 5, offset: 32915},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement1062,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35319,28 +35319,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35349,9 +35349,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -35366,44 +35366,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32487},
+													pos:   position{line: 1050, col: 5, offset: 32488},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32491},
+														pos: position{line: 1050, col: 9, offset: 32492},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32713},
+															pos: position{line: 1057, col: 5, offset: 32714},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32713},
+																	pos: position{line: 1057, col: 5, offset: 32714},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32713},
+																			pos:   position{line: 1057, col: 5, offset: 32714},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26008},
+																				pos: position{line: 810, col: 5, offset: 26009},
 																				run: (*parser).callonListContinuationElement1083,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26008},
+																					pos: position{line: 810, col: 5, offset: 26009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 810, col: 5, offset: 26008},
+																							pos:   position{line: 810, col: 5, offset: 26009},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 16, offset: 26019},
+																								pos: position{line: 810, col: 16, offset: 26020},
 																								run: (*parser).callonListContinuationElement1086,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 16, offset: 26019},
+																									pos: position{line: 810, col: 16, offset: 26020},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 810, col: 16, offset: 26019},
+																											pos:        position{line: 810, col: 16, offset: 26020},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 810, col: 23, offset: 26026},
+																											pos: position{line: 810, col: 23, offset: 26027},
 																											expr: &litMatcher{
-																												pos:        position{line: 810, col: 23, offset: 26026},
+																												pos:        position{line: 810, col: 23, offset: 26027},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35414,12 +35414,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 812, col: 8, offset: 26110},
+																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35428,28 +35428,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35458,9 +35458,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -35470,15 +35470,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32748},
+																			pos: position{line: 1058, col: 5, offset: 32749},
 																			run: (*parser).callonListContinuationElement1102,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -35489,39 +35489,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 33065},
+										pos: position{line: 1073, col: 5, offset: 33066},
 										run: (*parser).callonListContinuationElement1105,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 33065},
+											pos: position{line: 1073, col: 5, offset: 33066},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 33065},
+													pos:   position{line: 1073, col: 5, offset: 33066},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 817, col: 5, offset: 26258},
+														pos: position{line: 817, col: 5, offset: 26259},
 														run: (*parser).callonListContinuationElement1108,
 														expr: &seqExpr{
-															pos: position{line: 817, col: 5, offset: 26258},
+															pos: position{line: 817, col: 5, offset: 26259},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 817, col: 5, offset: 26258},
+																	pos:   position{line: 817, col: 5, offset: 26259},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 817, col: 16, offset: 26269},
+																		pos: position{line: 817, col: 16, offset: 26270},
 																		run: (*parser).callonListContinuationElement1111,
 																		expr: &seqExpr{
-																			pos: position{line: 817, col: 16, offset: 26269},
+																			pos: position{line: 817, col: 16, offset: 26270},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 817, col: 16, offset: 26269},
+																					pos:        position{line: 817, col: 16, offset: 26270},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 817, col: 23, offset: 26276},
+																					pos: position{line: 817, col: 23, offset: 26277},
 																					expr: &litMatcher{
-																						pos:        position{line: 817, col: 23, offset: 26276},
+																						pos:        position{line: 817, col: 23, offset: 26277},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35532,12 +35532,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 819, col: 8, offset: 26360},
+																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35546,28 +35546,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35576,9 +35576,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -35588,56 +35588,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 33102},
+													pos: position{line: 1074, col: 5, offset: 33103},
 													run: (*parser).callonListContinuationElement1127,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33194},
+													pos:   position{line: 1077, col: 5, offset: 33195},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33575},
+														pos: position{line: 1092, col: 4, offset: 33576},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33576},
+															pos: position{line: 1092, col: 5, offset: 33577},
 															run: (*parser).callonListContinuationElement1130,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33576},
+																pos: position{line: 1092, col: 5, offset: 33577},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33576},
+																		pos: position{line: 1092, col: 5, offset: 33577},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33422},
+																			pos: position{line: 1085, col: 5, offset: 33423},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33422},
+																					pos: position{line: 1085, col: 5, offset: 33423},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33422},
+																							pos:   position{line: 1085, col: 5, offset: 33423},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 5, offset: 26258},
+																								pos: position{line: 817, col: 5, offset: 26259},
 																								run: (*parser).callonListContinuationElement1136,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 5, offset: 26258},
+																									pos: position{line: 817, col: 5, offset: 26259},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 817, col: 5, offset: 26258},
+																											pos:   position{line: 817, col: 5, offset: 26259},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 817, col: 16, offset: 26269},
+																												pos: position{line: 817, col: 16, offset: 26270},
 																												run: (*parser).callonListContinuationElement1139,
 																												expr: &seqExpr{
-																													pos: position{line: 817, col: 16, offset: 26269},
+																													pos: position{line: 817, col: 16, offset: 26270},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 817, col: 16, offset: 26269},
+																															pos:        position{line: 817, col: 16, offset: 26270},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 817, col: 23, offset: 26276},
+																															pos: position{line: 817, col: 23, offset: 26277},
 																															expr: &litMatcher{
-																																pos:        position{line: 817, col: 23, offset: 26276},
+																																pos:        position{line: 817, col: 23, offset: 26277},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35648,12 +35648,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 819, col: 8, offset: 26360},
+																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35662,28 +35662,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35692,9 +35692,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -35704,45 +35704,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33451},
+																							pos: position{line: 1086, col: 5, offset: 33452},
 																							run: (*parser).callonListContinuationElement1155,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33604},
+																		pos:   position{line: 1093, col: 5, offset: 33605},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement1159,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35752,28 +35752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35782,9 +35782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -35799,44 +35799,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33226},
+													pos:   position{line: 1078, col: 5, offset: 33227},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33230},
+														pos: position{line: 1078, col: 9, offset: 33231},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33422},
+															pos: position{line: 1085, col: 5, offset: 33423},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33422},
+																	pos: position{line: 1085, col: 5, offset: 33423},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33422},
+																			pos:   position{line: 1085, col: 5, offset: 33423},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 817, col: 5, offset: 26258},
+																				pos: position{line: 817, col: 5, offset: 26259},
 																				run: (*parser).callonListContinuationElement1180,
 																				expr: &seqExpr{
-																					pos: position{line: 817, col: 5, offset: 26258},
+																					pos: position{line: 817, col: 5, offset: 26259},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 817, col: 5, offset: 26258},
+																							pos:   position{line: 817, col: 5, offset: 26259},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 817, col: 16, offset: 26269},
+																								pos: position{line: 817, col: 16, offset: 26270},
 																								run: (*parser).callonListContinuationElement1183,
 																								expr: &seqExpr{
-																									pos: position{line: 817, col: 16, offset: 26269},
+																									pos: position{line: 817, col: 16, offset: 26270},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 817, col: 16, offset: 26269},
+																											pos:        position{line: 817, col: 16, offset: 26270},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 817, col: 23, offset: 26276},
+																											pos: position{line: 817, col: 23, offset: 26277},
 																											expr: &litMatcher{
-																												pos:        position{line: 817, col: 23, offset: 26276},
+																												pos:        position{line: 817, col: 23, offset: 26277},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35847,12 +35847,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 819, col: 8, offset: 26360},
+																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35861,28 +35861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35891,9 +35891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -35903,15 +35903,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33451},
+																			pos: position{line: 1086, col: 5, offset: 33452},
 																			run: (*parser).callonListContinuationElement1199,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -35922,39 +35922,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1101, col: 5, offset: 33759},
+										pos: position{line: 1101, col: 5, offset: 33760},
 										run: (*parser).callonListContinuationElement1202,
 										expr: &seqExpr{
-											pos: position{line: 1101, col: 5, offset: 33759},
+											pos: position{line: 1101, col: 5, offset: 33760},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1101, col: 5, offset: 33759},
+													pos:   position{line: 1101, col: 5, offset: 33760},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 824, col: 5, offset: 26504},
+														pos: position{line: 824, col: 5, offset: 26505},
 														run: (*parser).callonListContinuationElement1205,
 														expr: &seqExpr{
-															pos: position{line: 824, col: 5, offset: 26504},
+															pos: position{line: 824, col: 5, offset: 26505},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 824, col: 5, offset: 26504},
+																	pos:   position{line: 824, col: 5, offset: 26505},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 824, col: 16, offset: 26515},
+																		pos: position{line: 824, col: 16, offset: 26516},
 																		run: (*parser).callonListContinuationElement1208,
 																		expr: &seqExpr{
-																			pos: position{line: 824, col: 16, offset: 26515},
+																			pos: position{line: 824, col: 16, offset: 26516},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 824, col: 16, offset: 26515},
+																					pos:        position{line: 824, col: 16, offset: 26516},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 824, col: 23, offset: 26522},
+																					pos: position{line: 824, col: 23, offset: 26523},
 																					expr: &litMatcher{
-																						pos:        position{line: 824, col: 23, offset: 26522},
+																						pos:        position{line: 824, col: 23, offset: 26523},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35965,12 +35965,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 826, col: 8, offset: 26606},
+																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35979,28 +35979,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36009,9 +36009,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -36021,56 +36021,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1102, col: 5, offset: 33798},
+													pos: position{line: 1102, col: 5, offset: 33799},
 													run: (*parser).callonListContinuationElement1224,
 												},
 												&labeledExpr{
-													pos:   position{line: 1105, col: 5, offset: 33890},
+													pos:   position{line: 1105, col: 5, offset: 33891},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1120, col: 4, offset: 34287},
+														pos: position{line: 1120, col: 4, offset: 34288},
 														expr: &actionExpr{
-															pos: position{line: 1120, col: 5, offset: 34288},
+															pos: position{line: 1120, col: 5, offset: 34289},
 															run: (*parser).callonListContinuationElement1227,
 															expr: &seqExpr{
-																pos: position{line: 1120, col: 5, offset: 34288},
+																pos: position{line: 1120, col: 5, offset: 34289},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1120, col: 5, offset: 34288},
+																		pos: position{line: 1120, col: 5, offset: 34289},
 																		expr: &choiceExpr{
-																			pos: position{line: 1113, col: 5, offset: 34130},
+																			pos: position{line: 1113, col: 5, offset: 34131},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1113, col: 5, offset: 34130},
+																					pos: position{line: 1113, col: 5, offset: 34131},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1113, col: 5, offset: 34130},
+																							pos:   position{line: 1113, col: 5, offset: 34131},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 824, col: 5, offset: 26504},
+																								pos: position{line: 824, col: 5, offset: 26505},
 																								run: (*parser).callonListContinuationElement1233,
 																								expr: &seqExpr{
-																									pos: position{line: 824, col: 5, offset: 26504},
+																									pos: position{line: 824, col: 5, offset: 26505},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 824, col: 5, offset: 26504},
+																											pos:   position{line: 824, col: 5, offset: 26505},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 824, col: 16, offset: 26515},
+																												pos: position{line: 824, col: 16, offset: 26516},
 																												run: (*parser).callonListContinuationElement1236,
 																												expr: &seqExpr{
-																													pos: position{line: 824, col: 16, offset: 26515},
+																													pos: position{line: 824, col: 16, offset: 26516},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 824, col: 16, offset: 26515},
+																															pos:        position{line: 824, col: 16, offset: 26516},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 824, col: 23, offset: 26522},
+																															pos: position{line: 824, col: 23, offset: 26523},
 																															expr: &litMatcher{
-																																pos:        position{line: 824, col: 23, offset: 26522},
+																																pos:        position{line: 824, col: 23, offset: 26523},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -36081,12 +36081,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 826, col: 8, offset: 26606},
+																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91400},
+																												pos: position{line: 2886, col: 10, offset: 91401},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91400},
+																													pos:        position{line: 2886, col: 10, offset: 91401},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36095,28 +36095,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91798},
+																											pos: position{line: 2908, col: 8, offset: 91799},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91571},
+																													pos: position{line: 2895, col: 12, offset: 91572},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91572},
+																														pos: position{line: 2895, col: 13, offset: 91573},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36125,9 +36125,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91748},
+																													pos: position{line: 2905, col: 8, offset: 91749},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91749,
+																														line: 2905, col: 9, offset: 91750,
 																													},
 																												},
 																											},
@@ -36137,45 +36137,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1114, col: 5, offset: 34161},
+																							pos: position{line: 1114, col: 5, offset: 34162},
 																							run: (*parser).callonListContinuationElement1252,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1121, col: 5, offset: 34318},
+																		pos:   position{line: 1121, col: 5, offset: 34319},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 831, col: 5, offset: 26752},
+																			pos: position{line: 831, col: 5, offset: 26753},
 																			run: (*parser).callonListContinuationElement1256,
 																			expr: &seqExpr{
-																				pos: position{line: 831, col: 5, offset: 26752},
+																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91734},
+																						pos: position{line: 2903, col: 11, offset: 91735},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91736,
+																							line: 2903, col: 13, offset: 91737,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 832, col: 5, offset: 26827},
+																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89926},
+																							pos: position{line: 2832, col: 13, offset: 89927},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89926},
+																								pos: position{line: 2832, col: 13, offset: 89927},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89926},
+																									pos:        position{line: 2832, col: 13, offset: 89927},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36185,28 +36185,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36215,9 +36215,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -36232,44 +36232,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1106, col: 5, offset: 33924},
+													pos:   position{line: 1106, col: 5, offset: 33925},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1106, col: 9, offset: 33928},
+														pos: position{line: 1106, col: 9, offset: 33929},
 														expr: &choiceExpr{
-															pos: position{line: 1113, col: 5, offset: 34130},
+															pos: position{line: 1113, col: 5, offset: 34131},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1113, col: 5, offset: 34130},
+																	pos: position{line: 1113, col: 5, offset: 34131},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1113, col: 5, offset: 34130},
+																			pos:   position{line: 1113, col: 5, offset: 34131},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 824, col: 5, offset: 26504},
+																				pos: position{line: 824, col: 5, offset: 26505},
 																				run: (*parser).callonListContinuationElement1277,
 																				expr: &seqExpr{
-																					pos: position{line: 824, col: 5, offset: 26504},
+																					pos: position{line: 824, col: 5, offset: 26505},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 824, col: 5, offset: 26504},
+																							pos:   position{line: 824, col: 5, offset: 26505},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 824, col: 16, offset: 26515},
+																								pos: position{line: 824, col: 16, offset: 26516},
 																								run: (*parser).callonListContinuationElement1280,
 																								expr: &seqExpr{
-																									pos: position{line: 824, col: 16, offset: 26515},
+																									pos: position{line: 824, col: 16, offset: 26516},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 824, col: 16, offset: 26515},
+																											pos:        position{line: 824, col: 16, offset: 26516},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 824, col: 23, offset: 26522},
+																											pos: position{line: 824, col: 23, offset: 26523},
 																											expr: &litMatcher{
-																												pos:        position{line: 824, col: 23, offset: 26522},
+																												pos:        position{line: 824, col: 23, offset: 26523},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -36280,12 +36280,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 826, col: 8, offset: 26606},
+																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36294,28 +36294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36324,9 +36324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -36336,15 +36336,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1114, col: 5, offset: 34161},
+																			pos: position{line: 1114, col: 5, offset: 34162},
 																			run: (*parser).callonListContinuationElement1296,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -36355,27 +36355,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2731, col: 18, offset: 86976},
+										pos: position{line: 2731, col: 18, offset: 86977},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2732, col: 9, offset: 86986},
+											pos: position{line: 2732, col: 9, offset: 86987},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2732, col: 9, offset: 86986},
+													pos: position{line: 2732, col: 9, offset: 86987},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2732, col: 9, offset: 86986},
+															pos:        position{line: 2732, col: 9, offset: 86987},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2732, col: 15, offset: 86992},
+															pos: position{line: 2732, col: 15, offset: 86993},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36384,28 +36384,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91798},
+															pos: position{line: 2908, col: 8, offset: 91799},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91571},
+																	pos: position{line: 2895, col: 12, offset: 91572},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91572},
+																		pos: position{line: 2895, col: 13, offset: 91573},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91572},
+																				pos:        position{line: 2895, col: 13, offset: 91573},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91579},
+																				pos:        position{line: 2895, col: 20, offset: 91580},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91588},
+																				pos:        position{line: 2895, col: 29, offset: 91589},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36414,9 +36414,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -36424,43 +36424,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2733, col: 11, offset: 87025},
+													pos: position{line: 2733, col: 11, offset: 87026},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2733, col: 12, offset: 87026},
+															pos: position{line: 2733, col: 12, offset: 87027},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2733, col: 12, offset: 87026},
+																	pos:        position{line: 2733, col: 12, offset: 87027},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 20, offset: 87034},
+																	pos:        position{line: 2733, col: 20, offset: 87035},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 30, offset: 87044},
+																	pos:        position{line: 2733, col: 30, offset: 87045},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 38, offset: 87052},
+																	pos:        position{line: 2733, col: 38, offset: 87053},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 48, offset: 87062},
+																	pos:        position{line: 2733, col: 48, offset: 87063},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 56, offset: 87070},
+																	pos:        position{line: 2733, col: 56, offset: 87071},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -36468,12 +36468,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2733, col: 65, offset: 87079},
+															pos: position{line: 2733, col: 65, offset: 87080},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36482,28 +36482,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91798},
+															pos: position{line: 2908, col: 8, offset: 91799},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91571},
+																	pos: position{line: 2895, col: 12, offset: 91572},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91572},
+																		pos: position{line: 2895, col: 13, offset: 91573},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91572},
+																				pos:        position{line: 2895, col: 13, offset: 91573},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91579},
+																				pos:        position{line: 2895, col: 20, offset: 91580},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91588},
+																				pos:        position{line: 2895, col: 29, offset: 91589},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36512,38 +36512,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2733, col: 76, offset: 87090},
+															pos: position{line: 2733, col: 76, offset: 87091},
 															expr: &choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36552,9 +36552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -36566,28 +36566,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1581, col: 11, offset: 51018},
+										pos:  position{line: 1581, col: 11, offset: 51019},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2622, col: 5, offset: 83912},
+										pos: position{line: 2622, col: 5, offset: 83913},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2622, col: 5, offset: 83912},
+											pos: position{line: 2622, col: 5, offset: 83913},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2628, col: 19, offset: 84069},
+													pos:        position{line: 2628, col: 19, offset: 84070},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2628, col: 26, offset: 84076},
+													pos: position{line: 2628, col: 26, offset: 84077},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36596,28 +36596,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36626,40 +36626,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2623, col: 5, offset: 83936},
+													pos:   position{line: 2623, col: 5, offset: 83937},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2623, col: 11, offset: 83942},
+														pos: position{line: 2623, col: 11, offset: 83943},
 														expr: &choiceExpr{
-															pos: position{line: 2623, col: 12, offset: 83943},
+															pos: position{line: 2623, col: 12, offset: 83944},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 697, col: 14, offset: 22134},
+																	pos: position{line: 697, col: 14, offset: 22135},
 																	run: (*parser).callonListContinuationElement1360,
 																	expr: &seqExpr{
-																		pos: position{line: 697, col: 14, offset: 22134},
+																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2903, col: 11, offset: 91734},
+																				pos: position{line: 2903, col: 11, offset: 91735},
 																				expr: &anyMatcher{
-																					line: 2903, col: 13, offset: 91736,
+																					line: 2903, col: 13, offset: 91737,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 697, col: 21, offset: 22141},
+																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91400},
+																					pos: position{line: 2886, col: 10, offset: 91401},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91400},
+																						pos:        position{line: 2886, col: 10, offset: 91401},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36668,28 +36668,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91798},
+																				pos: position{line: 2908, col: 8, offset: 91799},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91571},
+																						pos: position{line: 2895, col: 12, offset: 91572},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91572},
+																							pos: position{line: 2895, col: 13, offset: 91573},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91572},
+																									pos:        position{line: 2895, col: 13, offset: 91573},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91579},
+																									pos:        position{line: 2895, col: 20, offset: 91580},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91588},
+																									pos:        position{line: 2895, col: 29, offset: 91589},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36698,9 +36698,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
@@ -36709,32 +36709,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2635, col: 5, offset: 84188},
+																	pos: position{line: 2635, col: 5, offset: 84189},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2635, col: 5, offset: 84188},
+																		pos: position{line: 2635, col: 5, offset: 84189},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2635, col: 5, offset: 84188},
+																				pos: position{line: 2635, col: 5, offset: 84189},
 																				expr: &choiceExpr{
-																					pos: position{line: 2632, col: 22, offset: 84149},
+																					pos: position{line: 2632, col: 22, offset: 84150},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2628, col: 19, offset: 84069},
+																							pos: position{line: 2628, col: 19, offset: 84070},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2628, col: 19, offset: 84069},
+																									pos:        position{line: 2628, col: 19, offset: 84070},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2628, col: 26, offset: 84076},
+																									pos: position{line: 2628, col: 26, offset: 84077},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91400},
+																										pos: position{line: 2886, col: 10, offset: 91401},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91400},
+																											pos:        position{line: 2886, col: 10, offset: 91401},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36743,28 +36743,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36773,9 +36773,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
@@ -36783,59 +36783,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2636, col: 5, offset: 84211},
+																				pos:   position{line: 2636, col: 5, offset: 84212},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2637, col: 9, offset: 84229},
+																					pos: position{line: 2637, col: 9, offset: 84230},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2637, col: 10, offset: 84230},
+																							pos: position{line: 2637, col: 10, offset: 84231},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2637, col: 10, offset: 84230},
+																								pos:   position{line: 2637, col: 10, offset: 84231},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2637, col: 17, offset: 84237},
+																									pos: position{line: 2637, col: 17, offset: 84238},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2645, col: 21, offset: 84433},
+																											pos: position{line: 2645, col: 21, offset: 84434},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2645, col: 21, offset: 84433},
+																												pos: position{line: 2645, col: 21, offset: 84434},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2645, col: 21, offset: 84433},
+																														pos:   position{line: 2645, col: 21, offset: 84434},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2645, col: 27, offset: 84439},
+																															pos: position{line: 2645, col: 27, offset: 84440},
 																															expr: &actionExpr{
-																																pos: position{line: 2650, col: 5, offset: 84514},
+																																pos: position{line: 2650, col: 5, offset: 84515},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2650, col: 5, offset: 84514},
+																																	pos: position{line: 2650, col: 5, offset: 84515},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2650, col: 5, offset: 84514},
+																																			pos:        position{line: 2650, col: 5, offset: 84515},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2650, col: 9, offset: 84518},
+																																			pos: position{line: 2650, col: 9, offset: 84519},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2886, col: 10, offset: 91400},
+																																				pos: position{line: 2886, col: 10, offset: 91401},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2886, col: 10, offset: 91400},
+																																					pos:        position{line: 2886, col: 10, offset: 91401},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36844,21 +36844,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2650, col: 16, offset: 84525},
+																																			pos:   position{line: 2650, col: 16, offset: 84526},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2656, col: 5, offset: 84725},
+																																				pos: position{line: 2656, col: 5, offset: 84726},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2656, col: 5, offset: 84725},
+																																					pos:   position{line: 2656, col: 5, offset: 84726},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2656, col: 14, offset: 84734},
+																																						pos: position{line: 2656, col: 14, offset: 84735},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2656, col: 14, offset: 84734},
+																																							pos: position{line: 2656, col: 14, offset: 84735},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2656, col: 14, offset: 84734},
+																																								pos:        position{line: 2656, col: 14, offset: 84735},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36875,28 +36875,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2908, col: 8, offset: 91798},
+																														pos: position{line: 2908, col: 8, offset: 91799},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2895, col: 12, offset: 91571},
+																																pos: position{line: 2895, col: 12, offset: 91572},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2895, col: 13, offset: 91572},
+																																	pos: position{line: 2895, col: 13, offset: 91573},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 13, offset: 91572},
+																																			pos:        position{line: 2895, col: 13, offset: 91573},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 20, offset: 91579},
+																																			pos:        position{line: 2895, col: 20, offset: 91580},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 29, offset: 91588},
+																																			pos:        position{line: 2895, col: 29, offset: 91589},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36905,9 +36905,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2905, col: 8, offset: 91748},
+																																pos: position{line: 2905, col: 8, offset: 91749},
 																																expr: &anyMatcher{
-																																	line: 2905, col: 9, offset: 91749,
+																																	line: 2905, col: 9, offset: 91750,
 																																},
 																															},
 																														},
@@ -36916,40 +36916,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2662, col: 24, offset: 84870},
+																											pos: position{line: 2662, col: 24, offset: 84871},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2662, col: 24, offset: 84870},
+																												pos:   position{line: 2662, col: 24, offset: 84871},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2662, col: 30, offset: 84876},
+																													pos: position{line: 2662, col: 30, offset: 84877},
 																													expr: &actionExpr{
-																														pos: position{line: 2667, col: 5, offset: 84952},
+																														pos: position{line: 2667, col: 5, offset: 84953},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2667, col: 5, offset: 84952},
+																															pos: position{line: 2667, col: 5, offset: 84953},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2667, col: 5, offset: 84952},
+																																	pos: position{line: 2667, col: 5, offset: 84953},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2632, col: 22, offset: 84149},
+																																		pos: position{line: 2632, col: 22, offset: 84150},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2628, col: 19, offset: 84069},
+																																				pos: position{line: 2628, col: 19, offset: 84070},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2628, col: 19, offset: 84069},
+																																						pos:        position{line: 2628, col: 19, offset: 84070},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2628, col: 26, offset: 84076},
+																																						pos: position{line: 2628, col: 26, offset: 84077},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2886, col: 10, offset: 91400},
+																																							pos: position{line: 2886, col: 10, offset: 91401},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2886, col: 10, offset: 91400},
+																																								pos:        position{line: 2886, col: 10, offset: 91401},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36958,28 +36958,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2908, col: 8, offset: 91798},
+																																						pos: position{line: 2908, col: 8, offset: 91799},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2895, col: 12, offset: 91571},
+																																								pos: position{line: 2895, col: 12, offset: 91572},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2895, col: 13, offset: 91572},
+																																									pos: position{line: 2895, col: 13, offset: 91573},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 13, offset: 91572},
+																																											pos:        position{line: 2895, col: 13, offset: 91573},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 20, offset: 91579},
+																																											pos:        position{line: 2895, col: 20, offset: 91580},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 29, offset: 91588},
+																																											pos:        position{line: 2895, col: 29, offset: 91589},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36988,9 +36988,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2905, col: 8, offset: 91748},
+																																								pos: position{line: 2905, col: 8, offset: 91749},
 																																								expr: &anyMatcher{
-																																									line: 2905, col: 9, offset: 91749,
+																																									line: 2905, col: 9, offset: 91750,
 																																								},
 																																							},
 																																						},
@@ -36998,35 +36998,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2905, col: 8, offset: 91748},
+																																				pos: position{line: 2905, col: 8, offset: 91749},
 																																				expr: &anyMatcher{
-																																					line: 2905, col: 9, offset: 91749,
+																																					line: 2905, col: 9, offset: 91750,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2668, col: 5, offset: 84975},
+																																	pos: position{line: 2668, col: 5, offset: 84976},
 																																	expr: &actionExpr{
-																																		pos: position{line: 697, col: 14, offset: 22134},
+																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1446,
 																																		expr: &seqExpr{
-																																			pos: position{line: 697, col: 14, offset: 22134},
+																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2903, col: 11, offset: 91734},
+																																					pos: position{line: 2903, col: 11, offset: 91735},
 																																					expr: &anyMatcher{
-																																						line: 2903, col: 13, offset: 91736,
+																																						line: 2903, col: 13, offset: 91737,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 697, col: 21, offset: 22141},
+																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2886, col: 10, offset: 91400},
+																																						pos: position{line: 2886, col: 10, offset: 91401},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2886, col: 10, offset: 91400},
+																																							pos:        position{line: 2886, col: 10, offset: 91401},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37035,28 +37035,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2908, col: 8, offset: 91798},
+																																					pos: position{line: 2908, col: 8, offset: 91799},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2895, col: 12, offset: 91571},
+																																							pos: position{line: 2895, col: 12, offset: 91572},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 13, offset: 91572},
+																																								pos: position{line: 2895, col: 13, offset: 91573},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 13, offset: 91572},
+																																										pos:        position{line: 2895, col: 13, offset: 91573},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 20, offset: 91579},
+																																										pos:        position{line: 2895, col: 20, offset: 91580},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 29, offset: 91588},
+																																										pos:        position{line: 2895, col: 29, offset: 91589},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37065,9 +37065,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2905, col: 8, offset: 91748},
+																																							pos: position{line: 2905, col: 8, offset: 91749},
 																																							expr: &anyMatcher{
-																																								line: 2905, col: 9, offset: 91749,
+																																								line: 2905, col: 9, offset: 91750,
 																																							},
 																																						},
 																																					},
@@ -37077,17 +37077,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2669, col: 5, offset: 84990},
+																																	pos:   position{line: 2669, col: 5, offset: 84991},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2669, col: 12, offset: 84997},
+																																		pos: position{line: 2669, col: 12, offset: 84998},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2686, col: 20, offset: 85461},
+																																			pos: position{line: 2686, col: 20, offset: 85462},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2686, col: 20, offset: 85461},
+																																				pos: position{line: 2686, col: 20, offset: 85462},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2686, col: 20, offset: 85461},
+																																					pos:        position{line: 2686, col: 20, offset: 85462},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37098,18 +37098,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2669, col: 31, offset: 85016},
+																																	pos:        position{line: 2669, col: 31, offset: 85017},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2669, col: 35, offset: 85020},
+																																	pos: position{line: 2669, col: 35, offset: 85021},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2886, col: 10, offset: 91400},
+																																		pos: position{line: 2886, col: 10, offset: 91401},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2886, col: 10, offset: 91400},
+																																			pos:        position{line: 2886, col: 10, offset: 91401},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37118,27 +37118,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2669, col: 42, offset: 85027},
+																																	pos: position{line: 2669, col: 42, offset: 85028},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2895, col: 12, offset: 91571},
+																																		pos: position{line: 2895, col: 12, offset: 91572},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2895, col: 13, offset: 91572},
+																																			pos: position{line: 2895, col: 13, offset: 91573},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 13, offset: 91572},
+																																					pos:        position{line: 2895, col: 13, offset: 91573},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 20, offset: 91579},
+																																					pos:        position{line: 2895, col: 20, offset: 91580},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 29, offset: 91588},
+																																					pos:        position{line: 2895, col: 29, offset: 91589},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37148,37 +37148,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2669, col: 51, offset: 85036},
+																																	pos:   position{line: 2669, col: 51, offset: 85037},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2675, col: 5, offset: 85195},
+																																		pos: position{line: 2675, col: 5, offset: 85196},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 9, offset: 85205},
+																																			pos: position{line: 2676, col: 9, offset: 85206},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2676, col: 9, offset: 85205},
+																																				pos: position{line: 2676, col: 9, offset: 85206},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2676, col: 9, offset: 85205},
+																																						pos: position{line: 2676, col: 9, offset: 85206},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2632, col: 22, offset: 84149},
+																																							pos: position{line: 2632, col: 22, offset: 84150},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2628, col: 19, offset: 84069},
+																																									pos: position{line: 2628, col: 19, offset: 84070},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2628, col: 19, offset: 84069},
+																																											pos:        position{line: 2628, col: 19, offset: 84070},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2628, col: 26, offset: 84076},
+																																											pos: position{line: 2628, col: 26, offset: 84077},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2886, col: 10, offset: 91400},
+																																												pos: position{line: 2886, col: 10, offset: 91401},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2886, col: 10, offset: 91400},
+																																													pos:        position{line: 2886, col: 10, offset: 91401},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37187,28 +37187,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2908, col: 8, offset: 91798},
+																																											pos: position{line: 2908, col: 8, offset: 91799},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2895, col: 12, offset: 91571},
+																																													pos: position{line: 2895, col: 12, offset: 91572},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2895, col: 13, offset: 91572},
+																																														pos: position{line: 2895, col: 13, offset: 91573},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 13, offset: 91572},
+																																																pos:        position{line: 2895, col: 13, offset: 91573},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 20, offset: 91579},
+																																																pos:        position{line: 2895, col: 20, offset: 91580},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 29, offset: 91588},
+																																																pos:        position{line: 2895, col: 29, offset: 91589},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37217,9 +37217,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2905, col: 8, offset: 91748},
+																																													pos: position{line: 2905, col: 8, offset: 91749},
 																																													expr: &anyMatcher{
-																																														line: 2905, col: 9, offset: 91749,
+																																														line: 2905, col: 9, offset: 91750,
 																																													},
 																																												},
 																																											},
@@ -37227,35 +37227,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91748},
+																																									pos: position{line: 2905, col: 8, offset: 91749},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91749,
+																																										line: 2905, col: 9, offset: 91750,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2677, col: 9, offset: 85232},
+																																						pos: position{line: 2677, col: 9, offset: 85233},
 																																						expr: &actionExpr{
-																																							pos: position{line: 697, col: 14, offset: 22134},
+																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1498,
 																																							expr: &seqExpr{
-																																								pos: position{line: 697, col: 14, offset: 22134},
+																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2903, col: 11, offset: 91734},
+																																										pos: position{line: 2903, col: 11, offset: 91735},
 																																										expr: &anyMatcher{
-																																											line: 2903, col: 13, offset: 91736,
+																																											line: 2903, col: 13, offset: 91737,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 697, col: 21, offset: 22141},
+																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2886, col: 10, offset: 91400},
+																																											pos: position{line: 2886, col: 10, offset: 91401},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2886, col: 10, offset: 91400},
+																																												pos:        position{line: 2886, col: 10, offset: 91401},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37264,28 +37264,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2908, col: 8, offset: 91798},
+																																										pos: position{line: 2908, col: 8, offset: 91799},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2895, col: 12, offset: 91571},
+																																												pos: position{line: 2895, col: 12, offset: 91572},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2895, col: 13, offset: 91572},
+																																													pos: position{line: 2895, col: 13, offset: 91573},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 13, offset: 91572},
+																																															pos:        position{line: 2895, col: 13, offset: 91573},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 20, offset: 91579},
+																																															pos:        position{line: 2895, col: 20, offset: 91580},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 29, offset: 91588},
+																																															pos:        position{line: 2895, col: 29, offset: 91589},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37294,9 +37294,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2905, col: 8, offset: 91748},
+																																												pos: position{line: 2905, col: 8, offset: 91749},
 																																												expr: &anyMatcher{
-																																													line: 2905, col: 9, offset: 91749,
+																																													line: 2905, col: 9, offset: 91750,
 																																												},
 																																											},
 																																										},
@@ -37306,22 +37306,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2678, col: 9, offset: 85251},
+																																						pos: position{line: 2678, col: 9, offset: 85252},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2678, col: 11, offset: 85253},
+																																							pos: position{line: 2678, col: 11, offset: 85254},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2678, col: 11, offset: 85253},
+																																									pos:   position{line: 2678, col: 11, offset: 85254},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2678, col: 18, offset: 85260},
+																																										pos: position{line: 2678, col: 18, offset: 85261},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2686, col: 20, offset: 85461},
+																																											pos: position{line: 2686, col: 20, offset: 85462},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2686, col: 20, offset: 85461},
+																																												pos: position{line: 2686, col: 20, offset: 85462},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2686, col: 20, offset: 85461},
+																																													pos:        position{line: 2686, col: 20, offset: 85462},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37332,7 +37332,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2678, col: 37, offset: 85279},
+																																									pos:        position{line: 2678, col: 37, offset: 85280},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37341,15 +37341,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2679, col: 9, offset: 85292},
+																																						pos:   position{line: 2679, col: 9, offset: 85293},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2679, col: 18, offset: 85301},
+																																							pos: position{line: 2679, col: 18, offset: 85302},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2679, col: 18, offset: 85301},
+																																								pos: position{line: 2679, col: 18, offset: 85302},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2679, col: 18, offset: 85301},
+																																									pos:        position{line: 2679, col: 18, offset: 85302},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37359,30 +37359,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2681, col: 12, offset: 85363},
+																																						pos: position{line: 2681, col: 12, offset: 85364},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2908, col: 8, offset: 91798},
+																																							pos: position{line: 2908, col: 8, offset: 91799},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2895, col: 12, offset: 91571},
+																																									pos: position{line: 2895, col: 12, offset: 91572},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2895, col: 13, offset: 91572},
+																																										pos: position{line: 2895, col: 13, offset: 91573},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 13, offset: 91572},
+																																												pos:        position{line: 2895, col: 13, offset: 91573},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 20, offset: 91579},
+																																												pos:        position{line: 2895, col: 20, offset: 91580},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 29, offset: 91588},
+																																												pos:        position{line: 2895, col: 29, offset: 91589},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -37391,9 +37391,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91748},
+																																									pos: position{line: 2905, col: 8, offset: 91749},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91749,
+																																										line: 2905, col: 9, offset: 91750,
 																																									},
 																																								},
 																																							},
@@ -37415,24 +37415,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 697, col: 14, offset: 22134},
+																							pos: position{line: 697, col: 14, offset: 22135},
 																							run: (*parser).callonListContinuationElement1534,
 																							expr: &seqExpr{
-																								pos: position{line: 697, col: 14, offset: 22134},
+																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2903, col: 11, offset: 91734},
+																										pos: position{line: 2903, col: 11, offset: 91735},
 																										expr: &anyMatcher{
-																											line: 2903, col: 13, offset: 91736,
+																											line: 2903, col: 13, offset: 91737,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 697, col: 21, offset: 22141},
+																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91400},
+																											pos: position{line: 2886, col: 10, offset: 91401},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91400},
+																												pos:        position{line: 2886, col: 10, offset: 91401},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37441,28 +37441,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91798},
+																										pos: position{line: 2908, col: 8, offset: 91799},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91571},
+																												pos: position{line: 2895, col: 12, offset: 91572},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91572},
+																													pos: position{line: 2895, col: 13, offset: 91573},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91572},
+																															pos:        position{line: 2895, col: 13, offset: 91573},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91579},
+																															pos:        position{line: 2895, col: 20, offset: 91580},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91588},
+																															pos:        position{line: 2895, col: 29, offset: 91589},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37471,9 +37471,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91748},
+																												pos: position{line: 2905, col: 8, offset: 91749},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91749,
+																													line: 2905, col: 9, offset: 91750,
 																												},
 																											},
 																										},
@@ -37492,24 +37492,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2632, col: 22, offset: 84149},
+													pos: position{line: 2632, col: 22, offset: 84150},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84069},
+															pos: position{line: 2628, col: 19, offset: 84070},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84069},
+																	pos:        position{line: 2628, col: 19, offset: 84070},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84076},
+																	pos: position{line: 2628, col: 26, offset: 84077},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37518,28 +37518,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37548,9 +37548,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -37558,9 +37558,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -37569,36 +37569,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80371},
+										pos: position{line: 2496, col: 22, offset: 80372},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80371},
+											pos: position{line: 2496, col: 22, offset: 80372},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80592},
+													pos:        position{line: 2501, col: 31, offset: 80593},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80597},
+													pos: position{line: 2501, col: 36, offset: 80598},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80598},
+														pos:        position{line: 2501, col: 37, offset: 80599},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80398},
+													pos:   position{line: 2496, col: 49, offset: 80399},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89926},
+														pos: position{line: 2832, col: 13, offset: 89927},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89926},
+															pos: position{line: 2832, col: 13, offset: 89927},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89926},
+																pos:        position{line: 2832, col: 13, offset: 89927},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37608,28 +37608,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91798},
+													pos: position{line: 2908, col: 8, offset: 91799},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37638,9 +37638,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91748},
+															pos: position{line: 2905, col: 8, offset: 91749},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91749,
+																line: 2905, col: 9, offset: 91750,
 															},
 														},
 													},
@@ -37649,94 +37649,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1594, col: 5, offset: 51448},
+										pos: position{line: 1594, col: 5, offset: 51449},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1594, col: 5, offset: 51448},
+											pos: position{line: 1594, col: 5, offset: 51449},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1594, col: 5, offset: 51448},
+													pos:   position{line: 1594, col: 5, offset: 51449},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1594, col: 11, offset: 51454},
+														pos: position{line: 1594, col: 11, offset: 51455},
 														expr: &actionExpr{
-															pos: position{line: 1758, col: 5, offset: 56771},
+															pos: position{line: 1758, col: 5, offset: 56772},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1758, col: 5, offset: 56771},
+																pos: position{line: 1758, col: 5, offset: 56772},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1758, col: 5, offset: 56771},
+																		pos: position{line: 1758, col: 5, offset: 56772},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1761, col: 5, offset: 56834},
+																		pos:   position{line: 1761, col: 5, offset: 56835},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1761, col: 12, offset: 56841},
+																			pos: position{line: 1761, col: 12, offset: 56842},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1761, col: 12, offset: 56841},
+																					pos: position{line: 1761, col: 12, offset: 56842},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1761, col: 12, offset: 56841},
+																						pos:        position{line: 1761, col: 12, offset: 56842},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1763, col: 13, offset: 56897},
+																					pos: position{line: 1763, col: 13, offset: 56898},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1763, col: 13, offset: 56897},
+																						pos:        position{line: 1763, col: 13, offset: 56898},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1765, col: 13, offset: 56955},
+																					pos: position{line: 1765, col: 13, offset: 56956},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1765, col: 13, offset: 56955},
+																						pos:        position{line: 1765, col: 13, offset: 56956},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1767, col: 13, offset: 57023},
+																					pos: position{line: 1767, col: 13, offset: 57024},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1767, col: 13, offset: 57023},
+																						pos:        position{line: 1767, col: 13, offset: 57024},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57087},
+																					pos: position{line: 1769, col: 13, offset: 57088},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1769, col: 13, offset: 57087},
+																						pos:        position{line: 1769, col: 13, offset: 57088},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57151},
+																					pos: position{line: 1771, col: 13, offset: 57152},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1771, col: 13, offset: 57151},
+																						pos: position{line: 1771, col: 13, offset: 57152},
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91461},
+																							pos: position{line: 2890, col: 11, offset: 91462},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91461},
+																								pos: position{line: 2890, col: 11, offset: 91462},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91461},
+																									pos:        position{line: 2890, col: 11, offset: 91462},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37750,17 +37750,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1773, col: 12, offset: 57231},
+																		pos: position{line: 1773, col: 12, offset: 57232},
 																		expr: &seqExpr{
-																			pos: position{line: 1773, col: 14, offset: 57233},
+																			pos: position{line: 1773, col: 14, offset: 57234},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1773, col: 14, offset: 57233},
+																					pos: position{line: 1773, col: 14, offset: 57234},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37769,28 +37769,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37799,9 +37799,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -37815,35 +37815,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1595, col: 5, offset: 51477},
+													pos:   position{line: 1595, col: 5, offset: 51478},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49773},
+														pos: position{line: 1538, col: 5, offset: 49774},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49773},
+															pos: position{line: 1538, col: 5, offset: 49774},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1538, col: 5, offset: 49773},
+																	pos: position{line: 1538, col: 5, offset: 49774},
 																	expr: &actionExpr{
-																		pos: position{line: 697, col: 14, offset: 22134},
+																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1623,
 																		expr: &seqExpr{
-																			pos: position{line: 697, col: 14, offset: 22134},
+																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91734},
+																					pos: position{line: 2903, col: 11, offset: 91735},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91736,
+																						line: 2903, col: 13, offset: 91737,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 697, col: 21, offset: 22141},
+																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37852,28 +37852,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91798},
+																					pos: position{line: 2908, col: 8, offset: 91799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37882,9 +37882,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91748},
+																							pos: position{line: 2905, col: 8, offset: 91749},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91749,
+																								line: 2905, col: 9, offset: 91750,
 																							},
 																						},
 																					},
@@ -37894,23 +37894,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1539, col: 5, offset: 49788},
+																	pos: position{line: 1539, col: 5, offset: 49789},
 																	expr: &seqExpr{
-																		pos: position{line: 1569, col: 27, offset: 50693},
+																		pos: position{line: 1569, col: 27, offset: 50694},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1569, col: 27, offset: 50693},
+																				pos:        position{line: 1569, col: 27, offset: 50694},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1569, col: 31, offset: 50697},
+																				pos: position{line: 1569, col: 31, offset: 50698},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91400},
+																					pos: position{line: 2886, col: 10, offset: 91401},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91400},
+																						pos:        position{line: 2886, col: 10, offset: 91401},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37919,25 +37919,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37949,20 +37949,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1540, col: 5, offset: 49816},
+																	pos: position{line: 1540, col: 5, offset: 49817},
 																	expr: &actionExpr{
-																		pos: position{line: 1610, col: 5, offset: 51887},
+																		pos: position{line: 1610, col: 5, offset: 51888},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1610, col: 5, offset: 51887},
+																			pos: position{line: 1610, col: 5, offset: 51888},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1610, col: 5, offset: 51887},
+																					pos: position{line: 1610, col: 5, offset: 51888},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37971,27 +37971,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1610, col: 12, offset: 51894},
+																					pos:   position{line: 1610, col: 12, offset: 51895},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1612, col: 9, offset: 51957},
+																						pos: position{line: 1612, col: 9, offset: 51958},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1612, col: 9, offset: 51957},
+																								pos: position{line: 1612, col: 9, offset: 51958},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 9, offset: 51957},
+																									pos: position{line: 1612, col: 9, offset: 51958},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1612, col: 9, offset: 51957},
+																											pos:   position{line: 1612, col: 9, offset: 51958},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1612, col: 16, offset: 51964},
+																												pos: position{line: 1612, col: 16, offset: 51965},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1612, col: 16, offset: 51964},
+																													pos: position{line: 1612, col: 16, offset: 51965},
 																													expr: &litMatcher{
-																														pos:        position{line: 1612, col: 17, offset: 51965},
+																														pos:        position{line: 1612, col: 17, offset: 51966},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38000,22 +38000,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1616, col: 9, offset: 52065},
+																											pos: position{line: 1616, col: 9, offset: 52066},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1635, col: 11, offset: 52782},
+																								pos: position{line: 1635, col: 11, offset: 52783},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1635, col: 11, offset: 52782},
+																									pos: position{line: 1635, col: 11, offset: 52783},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 11, offset: 52782},
+																											pos: position{line: 1635, col: 11, offset: 52783},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1635, col: 12, offset: 52783},
+																												pos:        position{line: 1635, col: 12, offset: 52784},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38023,7 +38023,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 20, offset: 52791},
+																											pos:        position{line: 1635, col: 20, offset: 52792},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38032,20 +38032,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1637, col: 13, offset: 52908},
+																								pos: position{line: 1637, col: 13, offset: 52909},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1637, col: 13, offset: 52908},
+																									pos: position{line: 1637, col: 13, offset: 52909},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1637, col: 14, offset: 52909},
+																											pos:        position{line: 1637, col: 14, offset: 52910},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 21, offset: 52916},
+																											pos:        position{line: 1637, col: 21, offset: 52917},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38054,20 +38054,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1639, col: 13, offset: 53036},
+																								pos: position{line: 1639, col: 13, offset: 53037},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1639, col: 13, offset: 53036},
+																									pos: position{line: 1639, col: 13, offset: 53037},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1639, col: 14, offset: 53037},
+																											pos:        position{line: 1639, col: 14, offset: 53038},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 21, offset: 53044},
+																											pos:        position{line: 1639, col: 21, offset: 53045},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38076,15 +38076,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 13, offset: 53164},
+																								pos: position{line: 1641, col: 13, offset: 53165},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 13, offset: 53164},
+																									pos: position{line: 1641, col: 13, offset: 53165},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 13, offset: 53164},
+																											pos: position{line: 1641, col: 13, offset: 53165},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 14, offset: 53165},
+																												pos:        position{line: 1641, col: 14, offset: 53166},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38092,7 +38092,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 26, offset: 53177},
+																											pos:        position{line: 1641, col: 26, offset: 53178},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38101,15 +38101,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1643, col: 13, offset: 53297},
+																								pos: position{line: 1643, col: 13, offset: 53298},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1643, col: 13, offset: 53297},
+																									pos: position{line: 1643, col: 13, offset: 53298},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1643, col: 13, offset: 53297},
+																											pos: position{line: 1643, col: 13, offset: 53298},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1643, col: 14, offset: 53298},
+																												pos:        position{line: 1643, col: 14, offset: 53299},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38117,7 +38117,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 26, offset: 53310},
+																											pos:        position{line: 1643, col: 26, offset: 53311},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38129,12 +38129,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91461},
+																					pos: position{line: 2890, col: 11, offset: 91462},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91461},
+																						pos: position{line: 2890, col: 11, offset: 91462},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91461},
+																							pos:        position{line: 2890, col: 11, offset: 91462},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38147,20 +38147,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1541, col: 5, offset: 49846},
+																	pos: position{line: 1541, col: 5, offset: 49847},
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 5, offset: 53849},
+																		pos: position{line: 1660, col: 5, offset: 53850},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1660, col: 5, offset: 53849},
+																			pos: position{line: 1660, col: 5, offset: 53850},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1660, col: 5, offset: 53849},
+																					pos: position{line: 1660, col: 5, offset: 53850},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38169,24 +38169,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1661, col: 5, offset: 53861},
+																					pos:   position{line: 1661, col: 5, offset: 53862},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1662, col: 9, offset: 53877},
+																						pos: position{line: 1662, col: 9, offset: 53878},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1662, col: 10, offset: 53878},
+																							pos: position{line: 1662, col: 10, offset: 53879},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1662, col: 11, offset: 53879},
+																									pos:        position{line: 1662, col: 11, offset: 53880},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1662, col: 18, offset: 53886},
+																									pos: position{line: 1662, col: 18, offset: 53887},
 																									expr: &litMatcher{
-																										pos:        position{line: 1662, col: 19, offset: 53887},
+																										pos:        position{line: 1662, col: 19, offset: 53888},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38197,16 +38197,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1665, col: 7, offset: 53977},
+																					pos: position{line: 1665, col: 7, offset: 53978},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91461},
+																					pos: position{line: 2890, col: 11, offset: 91462},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91461},
+																						pos: position{line: 2890, col: 11, offset: 91462},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91461},
+																							pos:        position{line: 2890, col: 11, offset: 91462},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38219,29 +38219,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1542, col: 5, offset: 49878},
+																	pos: position{line: 1542, col: 5, offset: 49879},
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 5, offset: 56386},
+																		pos: position{line: 1749, col: 5, offset: 56387},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1749, col: 5, offset: 56386},
+																			pos: position{line: 1749, col: 5, offset: 56387},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1749, col: 5, offset: 56386},
+																					pos:        position{line: 1749, col: 5, offset: 56387},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1749, col: 9, offset: 56390},
+																					pos:   position{line: 1749, col: 9, offset: 56391},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1749, col: 14, offset: 56395},
+																						pos: position{line: 1749, col: 14, offset: 56396},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1749, col: 14, offset: 56395},
+																							pos: position{line: 1749, col: 14, offset: 56396},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1749, col: 14, offset: 56395},
+																								pos:        position{line: 1749, col: 14, offset: 56396},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38251,18 +38251,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1749, col: 62, offset: 56443},
+																					pos:        position{line: 1749, col: 62, offset: 56444},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91461},
+																					pos: position{line: 2890, col: 11, offset: 91462},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91461},
+																						pos: position{line: 2890, col: 11, offset: 91462},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91461},
+																							pos:        position{line: 2890, col: 11, offset: 91462},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38275,36 +38275,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1543, col: 5, offset: 49908},
+																	pos: position{line: 1543, col: 5, offset: 49909},
 																	expr: &seqExpr{
-																		pos: position{line: 1543, col: 7, offset: 49910},
+																		pos: position{line: 1543, col: 7, offset: 49911},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54868},
+																				pos: position{line: 1695, col: 5, offset: 54869},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54868},
+																					pos: position{line: 1695, col: 5, offset: 54869},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54869},
+																						pos: position{line: 1695, col: 6, offset: 54870},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54869},
+																								pos: position{line: 1695, col: 6, offset: 54870},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55019},
+																									pos: position{line: 1700, col: 5, offset: 55020},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55019},
+																										pos: position{line: 1700, col: 5, offset: 55020},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55019},
+																												pos:   position{line: 1700, col: 5, offset: 55020},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55030},
+																													pos: position{line: 1700, col: 16, offset: 55031},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55030},
+																														pos: position{line: 1700, col: 16, offset: 55031},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55031},
+																															pos:        position{line: 1700, col: 17, offset: 55032},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -38313,7 +38313,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55088},
+																												pos: position{line: 1703, col: 5, offset: 55089},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -38321,30 +38321,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54898},
+																								pos: position{line: 1695, col: 35, offset: 54899},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91798},
+																									pos: position{line: 2908, col: 8, offset: 91799},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91571},
+																											pos: position{line: 2895, col: 12, offset: 91572},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91572},
+																												pos: position{line: 2895, col: 13, offset: 91573},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91572},
+																														pos:        position{line: 2895, col: 13, offset: 91573},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91579},
+																														pos:        position{line: 2895, col: 20, offset: 91580},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91588},
+																														pos:        position{line: 2895, col: 29, offset: 91589},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38353,37 +38353,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91748},
+																											pos: position{line: 2905, col: 8, offset: 91749},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91749,
+																												line: 2905, col: 9, offset: 91750,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54903,
+																								line: 1695, col: 40, offset: 54904,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55019},
+																				pos: position{line: 1700, col: 5, offset: 55020},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55019},
+																					pos: position{line: 1700, col: 5, offset: 55020},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55019},
+																							pos:   position{line: 1700, col: 5, offset: 55020},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55030},
+																								pos: position{line: 1700, col: 16, offset: 55031},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55030},
+																									pos: position{line: 1700, col: 16, offset: 55031},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55031},
+																										pos:        position{line: 1700, col: 17, offset: 55032},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38392,20 +38392,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55088},
+																							pos: position{line: 1703, col: 5, offset: 55089},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1543, col: 59, offset: 49962},
+																				pos: position{line: 1543, col: 59, offset: 49963},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91400},
+																						pos: position{line: 2886, col: 10, offset: 91401},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91400},
+																							pos:        position{line: 2886, col: 10, offset: 91401},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38413,25 +38413,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91571},
+																						pos: position{line: 2895, col: 12, offset: 91572},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91572},
+																							pos: position{line: 2895, col: 13, offset: 91573},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91572},
+																									pos:        position{line: 2895, col: 13, offset: 91573},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91579},
+																									pos:        position{line: 2895, col: 20, offset: 91580},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91588},
+																									pos:        position{line: 2895, col: 29, offset: 91589},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -38440,9 +38440,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91748},
+																						pos: position{line: 2905, col: 8, offset: 91749},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91749,
+																							line: 2905, col: 9, offset: 91750,
 																						},
 																					},
 																				},
@@ -38451,20 +38451,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1544, col: 5, offset: 49980},
+																	pos: position{line: 1544, col: 5, offset: 49981},
 																	expr: &choiceExpr{
-																		pos: position{line: 1544, col: 7, offset: 49982},
+																		pos: position{line: 1544, col: 7, offset: 49983},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 744, col: 5, offset: 23706},
+																				pos: position{line: 744, col: 5, offset: 23707},
 																				run: (*parser).callonListContinuationElement1760,
 																				expr: &seqExpr{
-																					pos: position{line: 744, col: 5, offset: 23706},
+																					pos: position{line: 744, col: 5, offset: 23707},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 744, col: 5, offset: 23706},
+																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2776, col: 13, offset: 88481},
+																								pos:        position{line: 2776, col: 13, offset: 88482},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -38472,36 +38472,36 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 745, col: 5, offset: 23736},
+																							pos:   position{line: 745, col: 5, offset: 23737},
 																							label: "delimiter",
 																							expr: &choiceExpr{
-																								pos: position{line: 746, col: 9, offset: 23756},
+																								pos: position{line: 746, col: 9, offset: 23757},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 760, col: 5, offset: 24248},
+																										pos: position{line: 760, col: 5, offset: 24249},
 																										run: (*parser).callonListContinuationElement1766,
 																										expr: &seqExpr{
-																											pos: position{line: 760, col: 5, offset: 24248},
+																											pos: position{line: 760, col: 5, offset: 24249},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 760, col: 5, offset: 24248},
+																													pos:   position{line: 760, col: 5, offset: 24249},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 760, col: 16, offset: 24259},
+																														pos: position{line: 760, col: 16, offset: 24260},
 																														run: (*parser).callonListContinuationElement1769,
 																														expr: &seqExpr{
-																															pos: position{line: 760, col: 16, offset: 24259},
+																															pos: position{line: 760, col: 16, offset: 24260},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 760, col: 16, offset: 24259},
+																																	pos:        position{line: 760, col: 16, offset: 24260},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 760, col: 23, offset: 24266},
+																																	pos: position{line: 760, col: 23, offset: 24267},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 760, col: 23, offset: 24266},
+																																		pos:        position{line: 760, col: 23, offset: 24267},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -38512,12 +38512,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 762, col: 8, offset: 24350},
+																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38526,28 +38526,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38556,9 +38556,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -38567,30 +38567,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 767, col: 5, offset: 24496},
+																										pos: position{line: 767, col: 5, offset: 24497},
 																										run: (*parser).callonListContinuationElement1785,
 																										expr: &seqExpr{
-																											pos: position{line: 767, col: 5, offset: 24496},
+																											pos: position{line: 767, col: 5, offset: 24497},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 767, col: 5, offset: 24496},
+																													pos:   position{line: 767, col: 5, offset: 24497},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 767, col: 16, offset: 24507},
+																														pos: position{line: 767, col: 16, offset: 24508},
 																														run: (*parser).callonListContinuationElement1788,
 																														expr: &seqExpr{
-																															pos: position{line: 767, col: 16, offset: 24507},
+																															pos: position{line: 767, col: 16, offset: 24508},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 767, col: 16, offset: 24507},
+																																	pos:        position{line: 767, col: 16, offset: 24508},
 																																	val:        "====",
 																																	ignoreCase: false,
 																																	want:       "\"====\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 767, col: 23, offset: 24514},
+																																	pos: position{line: 767, col: 23, offset: 24515},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 767, col: 23, offset: 24514},
+																																		pos:        position{line: 767, col: 23, offset: 24515},
 																																		val:        "=",
 																																		ignoreCase: false,
 																																		want:       "\"=\"",
@@ -38601,12 +38601,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 769, col: 8, offset: 24598},
+																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38615,28 +38615,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38645,9 +38645,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -38656,27 +38656,27 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 780, col: 26, offset: 24984},
+																										pos: position{line: 780, col: 26, offset: 24985},
 																										run: (*parser).callonListContinuationElement1804,
 																										expr: &seqExpr{
-																											pos: position{line: 780, col: 26, offset: 24984},
+																											pos: position{line: 780, col: 26, offset: 24985},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 780, col: 26, offset: 24984},
+																													pos:        position{line: 780, col: 26, offset: 24985},
 																													val:        "```",
 																													ignoreCase: false,
 																													want:       "\"```\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 780, col: 32, offset: 24990},
+																													pos:   position{line: 780, col: 32, offset: 24991},
 																													label: "language",
 																													expr: &actionExpr{
-																														pos: position{line: 784, col: 13, offset: 25120},
+																														pos: position{line: 784, col: 13, offset: 25121},
 																														run: (*parser).callonListContinuationElement1808,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 784, col: 14, offset: 25121},
+																															pos: position{line: 784, col: 14, offset: 25122},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 784, col: 14, offset: 25121},
+																																pos:        position{line: 784, col: 14, offset: 25122},
 																																val:        "[^\\r\\n` ]",
 																																chars:      []rune{'\r', '\n', '`', ' '},
 																																ignoreCase: false,
@@ -38686,12 +38686,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 780, col: 52, offset: 25010},
+																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38700,28 +38700,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38730,9 +38730,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -38741,30 +38741,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 774, col: 5, offset: 24743},
+																										pos: position{line: 774, col: 5, offset: 24744},
 																										run: (*parser).callonListContinuationElement1822,
 																										expr: &seqExpr{
-																											pos: position{line: 774, col: 5, offset: 24743},
+																											pos: position{line: 774, col: 5, offset: 24744},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 774, col: 5, offset: 24743},
+																													pos:   position{line: 774, col: 5, offset: 24744},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 774, col: 16, offset: 24754},
+																														pos: position{line: 774, col: 16, offset: 24755},
 																														run: (*parser).callonListContinuationElement1825,
 																														expr: &seqExpr{
-																															pos: position{line: 774, col: 16, offset: 24754},
+																															pos: position{line: 774, col: 16, offset: 24755},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 774, col: 16, offset: 24754},
+																																	pos:        position{line: 774, col: 16, offset: 24755},
 																																	val:        "```",
 																																	ignoreCase: false,
 																																	want:       "\"```\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 774, col: 22, offset: 24760},
+																																	pos: position{line: 774, col: 22, offset: 24761},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 774, col: 22, offset: 24760},
+																																		pos:        position{line: 774, col: 22, offset: 24761},
 																																		val:        "`",
 																																		ignoreCase: false,
 																																		want:       "\"`\"",
@@ -38775,12 +38775,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 776, col: 8, offset: 24844},
+																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38789,28 +38789,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38819,9 +38819,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -38830,30 +38830,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 789, col: 5, offset: 25280},
+																										pos: position{line: 789, col: 5, offset: 25281},
 																										run: (*parser).callonListContinuationElement1841,
 																										expr: &seqExpr{
-																											pos: position{line: 789, col: 5, offset: 25280},
+																											pos: position{line: 789, col: 5, offset: 25281},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 789, col: 5, offset: 25280},
+																													pos:   position{line: 789, col: 5, offset: 25281},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 789, col: 16, offset: 25291},
+																														pos: position{line: 789, col: 16, offset: 25292},
 																														run: (*parser).callonListContinuationElement1844,
 																														expr: &seqExpr{
-																															pos: position{line: 789, col: 16, offset: 25291},
+																															pos: position{line: 789, col: 16, offset: 25292},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 789, col: 16, offset: 25291},
+																																	pos:        position{line: 789, col: 16, offset: 25292},
 																																	val:        "----",
 																																	ignoreCase: false,
 																																	want:       "\"----\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 789, col: 23, offset: 25298},
+																																	pos: position{line: 789, col: 23, offset: 25299},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 789, col: 23, offset: 25298},
+																																		pos:        position{line: 789, col: 23, offset: 25299},
 																																		val:        "-",
 																																		ignoreCase: false,
 																																		want:       "\"-\"",
@@ -38864,12 +38864,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 791, col: 8, offset: 25382},
+																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38878,28 +38878,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38908,9 +38908,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -38919,30 +38919,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 803, col: 5, offset: 25756},
+																										pos: position{line: 803, col: 5, offset: 25757},
 																										run: (*parser).callonListContinuationElement1860,
 																										expr: &seqExpr{
-																											pos: position{line: 803, col: 5, offset: 25756},
+																											pos: position{line: 803, col: 5, offset: 25757},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 803, col: 5, offset: 25756},
+																													pos:   position{line: 803, col: 5, offset: 25757},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 803, col: 16, offset: 25767},
+																														pos: position{line: 803, col: 16, offset: 25768},
 																														run: (*parser).callonListContinuationElement1863,
 																														expr: &seqExpr{
-																															pos: position{line: 803, col: 16, offset: 25767},
+																															pos: position{line: 803, col: 16, offset: 25768},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 803, col: 16, offset: 25767},
+																																	pos:        position{line: 803, col: 16, offset: 25768},
 																																	val:        "....",
 																																	ignoreCase: false,
 																																	want:       "\"....\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 803, col: 23, offset: 25774},
+																																	pos: position{line: 803, col: 23, offset: 25775},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 803, col: 23, offset: 25774},
+																																		pos:        position{line: 803, col: 23, offset: 25775},
 																																		val:        ".",
 																																		ignoreCase: false,
 																																		want:       "\".\"",
@@ -38953,12 +38953,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 805, col: 8, offset: 25858},
+																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38967,28 +38967,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38997,9 +38997,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -39008,30 +39008,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 810, col: 5, offset: 26008},
+																										pos: position{line: 810, col: 5, offset: 26009},
 																										run: (*parser).callonListContinuationElement1879,
 																										expr: &seqExpr{
-																											pos: position{line: 810, col: 5, offset: 26008},
+																											pos: position{line: 810, col: 5, offset: 26009},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 810, col: 5, offset: 26008},
+																													pos:   position{line: 810, col: 5, offset: 26009},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 810, col: 16, offset: 26019},
+																														pos: position{line: 810, col: 16, offset: 26020},
 																														run: (*parser).callonListContinuationElement1882,
 																														expr: &seqExpr{
-																															pos: position{line: 810, col: 16, offset: 26019},
+																															pos: position{line: 810, col: 16, offset: 26020},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 810, col: 16, offset: 26019},
+																																	pos:        position{line: 810, col: 16, offset: 26020},
 																																	val:        "++++",
 																																	ignoreCase: false,
 																																	want:       "\"++++\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 810, col: 23, offset: 26026},
+																																	pos: position{line: 810, col: 23, offset: 26027},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 810, col: 23, offset: 26026},
+																																		pos:        position{line: 810, col: 23, offset: 26027},
 																																		val:        "+",
 																																		ignoreCase: false,
 																																		want:       "\"+\"",
@@ -39042,12 +39042,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 812, col: 8, offset: 26110},
+																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39056,28 +39056,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39086,9 +39086,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -39097,30 +39097,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 817, col: 5, offset: 26258},
+																										pos: position{line: 817, col: 5, offset: 26259},
 																										run: (*parser).callonListContinuationElement1898,
 																										expr: &seqExpr{
-																											pos: position{line: 817, col: 5, offset: 26258},
+																											pos: position{line: 817, col: 5, offset: 26259},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 817, col: 5, offset: 26258},
+																													pos:   position{line: 817, col: 5, offset: 26259},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 817, col: 16, offset: 26269},
+																														pos: position{line: 817, col: 16, offset: 26270},
 																														run: (*parser).callonListContinuationElement1901,
 																														expr: &seqExpr{
-																															pos: position{line: 817, col: 16, offset: 26269},
+																															pos: position{line: 817, col: 16, offset: 26270},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 817, col: 16, offset: 26269},
+																																	pos:        position{line: 817, col: 16, offset: 26270},
 																																	val:        "____",
 																																	ignoreCase: false,
 																																	want:       "\"____\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 817, col: 23, offset: 26276},
+																																	pos: position{line: 817, col: 23, offset: 26277},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 817, col: 23, offset: 26276},
+																																		pos:        position{line: 817, col: 23, offset: 26277},
 																																		val:        "_",
 																																		ignoreCase: false,
 																																		want:       "\"_\"",
@@ -39131,12 +39131,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 819, col: 8, offset: 26360},
+																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39145,28 +39145,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39175,9 +39175,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -39186,30 +39186,30 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 824, col: 5, offset: 26504},
+																										pos: position{line: 824, col: 5, offset: 26505},
 																										run: (*parser).callonListContinuationElement1917,
 																										expr: &seqExpr{
-																											pos: position{line: 824, col: 5, offset: 26504},
+																											pos: position{line: 824, col: 5, offset: 26505},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 824, col: 5, offset: 26504},
+																													pos:   position{line: 824, col: 5, offset: 26505},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 824, col: 16, offset: 26515},
+																														pos: position{line: 824, col: 16, offset: 26516},
 																														run: (*parser).callonListContinuationElement1920,
 																														expr: &seqExpr{
-																															pos: position{line: 824, col: 16, offset: 26515},
+																															pos: position{line: 824, col: 16, offset: 26516},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 824, col: 16, offset: 26515},
+																																	pos:        position{line: 824, col: 16, offset: 26516},
 																																	val:        "****",
 																																	ignoreCase: false,
 																																	want:       "\"****\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 824, col: 23, offset: 26522},
+																																	pos: position{line: 824, col: 23, offset: 26523},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 824, col: 23, offset: 26522},
+																																		pos:        position{line: 824, col: 23, offset: 26523},
 																																		val:        "*",
 																																		ignoreCase: false,
 																																		want:       "\"*\"",
@@ -39220,12 +39220,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 826, col: 8, offset: 26606},
+																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91400},
+																														pos: position{line: 2886, col: 10, offset: 91401},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91400},
+																															pos:        position{line: 2886, col: 10, offset: 91401},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39234,28 +39234,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91798},
+																													pos: position{line: 2908, col: 8, offset: 91799},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91571},
+																															pos: position{line: 2895, col: 12, offset: 91572},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91572},
+																																pos: position{line: 2895, col: 13, offset: 91573},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91572},
+																																		pos:        position{line: 2895, col: 13, offset: 91573},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91579},
+																																		pos:        position{line: 2895, col: 20, offset: 91580},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91588},
+																																		pos:        position{line: 2895, col: 29, offset: 91589},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39264,9 +39264,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91748},
+																															pos: position{line: 2905, col: 8, offset: 91749},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91749,
+																																line: 2905, col: 9, offset: 91750,
 																															},
 																														},
 																													},
@@ -39281,19 +39281,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25525},
+																				pos: position{line: 796, col: 5, offset: 25526},
 																				run: (*parser).callonListContinuationElement1936,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25525},
+																					pos: position{line: 796, col: 5, offset: 25526},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25525},
+																							pos:   position{line: 796, col: 5, offset: 25526},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25536},
+																								pos: position{line: 796, col: 16, offset: 25537},
 																								run: (*parser).callonListContinuationElement1939,
 																								expr: &litMatcher{
-																									pos:        position{line: 796, col: 16, offset: 25536},
+																									pos:        position{line: 796, col: 16, offset: 25537},
 																									val:        "--",
 																									ignoreCase: false,
 																									want:       "\"--\"",
@@ -39301,12 +39301,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25613},
+																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91400},
+																								pos: position{line: 2886, col: 10, offset: 91401},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91400},
+																									pos:        position{line: 2886, col: 10, offset: 91401},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39315,28 +39315,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91798},
+																							pos: position{line: 2908, col: 8, offset: 91799},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91571},
+																									pos: position{line: 2895, col: 12, offset: 91572},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91572},
+																										pos: position{line: 2895, col: 13, offset: 91573},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91572},
+																												pos:        position{line: 2895, col: 13, offset: 91573},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91579},
+																												pos:        position{line: 2895, col: 20, offset: 91580},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91588},
+																												pos:        position{line: 2895, col: 29, offset: 91589},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39345,9 +39345,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91748},
+																									pos: position{line: 2905, col: 8, offset: 91749},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91749,
+																										line: 2905, col: 9, offset: 91750,
 																									},
 																								},
 																							},
@@ -39356,21 +39356,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2628, col: 19, offset: 84069},
+																				pos: position{line: 2628, col: 19, offset: 84070},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2628, col: 19, offset: 84069},
+																						pos:        position{line: 2628, col: 19, offset: 84070},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2628, col: 26, offset: 84076},
+																						pos: position{line: 2628, col: 26, offset: 84077},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39379,28 +39379,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91798},
+																						pos: position{line: 2908, col: 8, offset: 91799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91571},
+																								pos: position{line: 2895, col: 12, offset: 91572},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91572},
+																									pos: position{line: 2895, col: 13, offset: 91573},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91572},
+																											pos:        position{line: 2895, col: 13, offset: 91573},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91579},
+																											pos:        position{line: 2895, col: 20, offset: 91580},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91588},
+																											pos:        position{line: 2895, col: 29, offset: 91589},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39409,9 +39409,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91748},
+																								pos: position{line: 2905, col: 8, offset: 91749},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91749,
+																									line: 2905, col: 9, offset: 91750,
 																								},
 																							},
 																						},
@@ -39422,15 +39422,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1545, col: 5, offset: 50040},
+																	pos:   position{line: 1545, col: 5, offset: 50041},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2836, col: 14, offset: 89993},
+																		pos: position{line: 2836, col: 14, offset: 89994},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2836, col: 14, offset: 89993},
+																			pos: position{line: 2836, col: 14, offset: 89994},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2836, col: 14, offset: 89993},
+																				pos:        position{line: 2836, col: 14, offset: 89994},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39440,28 +39440,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39470,9 +39470,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -39493,33 +39493,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1733, col: 1, offset: 55880},
+			pos:  position{line: 1733, col: 1, offset: 55881},
 			expr: &actionExpr{
-				pos: position{line: 1735, col: 5, offset: 55958},
+				pos: position{line: 1735, col: 5, offset: 55959},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1735, col: 5, offset: 55958},
+					pos: position{line: 1735, col: 5, offset: 55959},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1735, col: 5, offset: 55958},
+							pos: position{line: 1735, col: 5, offset: 55959},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1738, col: 5, offset: 56025},
+							pos:        position{line: 1738, col: 5, offset: 56026},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1738, col: 9, offset: 56029},
+							pos:   position{line: 1738, col: 9, offset: 56030},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1738, col: 14, offset: 56034},
+								pos: position{line: 1738, col: 14, offset: 56035},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1738, col: 14, offset: 56034},
+									pos: position{line: 1738, col: 14, offset: 56035},
 									expr: &charClassMatcher{
-										pos:        position{line: 1738, col: 14, offset: 56034},
+										pos:        position{line: 1738, col: 14, offset: 56035},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39529,18 +39529,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1738, col: 62, offset: 56082},
+							pos:        position{line: 1738, col: 62, offset: 56083},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1738, col: 66, offset: 56086},
+							pos: position{line: 1738, col: 66, offset: 56087},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39549,30 +39549,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1738, col: 73, offset: 56093},
+							pos: position{line: 1738, col: 73, offset: 56094},
 							expr: &choiceExpr{
-								pos: position{line: 1738, col: 75, offset: 56095},
+								pos: position{line: 1738, col: 75, offset: 56096},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91571},
+										pos: position{line: 2895, col: 12, offset: 91572},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91572},
+											pos: position{line: 2895, col: 13, offset: 91573},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91572},
+													pos:        position{line: 2895, col: 13, offset: 91573},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91579},
+													pos:        position{line: 2895, col: 20, offset: 91580},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91588},
+													pos:        position{line: 2895, col: 29, offset: 91589},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39581,13 +39581,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2905, col: 8, offset: 91748},
+										pos: position{line: 2905, col: 8, offset: 91749},
 										expr: &anyMatcher{
-											line: 2905, col: 9, offset: 91749,
+											line: 2905, col: 9, offset: 91750,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1738, col: 81, offset: 56101},
+										pos:  position{line: 1738, col: 81, offset: 56102},
 										name: "Callout",
 									},
 								},
@@ -39599,44 +39599,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1777, col: 1, offset: 57288},
+			pos:  position{line: 1777, col: 1, offset: 57289},
 			expr: &actionExpr{
-				pos: position{line: 1779, col: 5, offset: 57362},
+				pos: position{line: 1779, col: 5, offset: 57363},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1779, col: 5, offset: 57362},
+					pos: position{line: 1779, col: 5, offset: 57363},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1779, col: 5, offset: 57362},
+							pos: position{line: 1779, col: 5, offset: 57363},
 							expr: &seqExpr{
-								pos: position{line: 1779, col: 7, offset: 57364},
+								pos: position{line: 1779, col: 7, offset: 57365},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2776, col: 13, offset: 88481},
+										pos:        position{line: 2776, col: 13, offset: 88482},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1779, col: 16, offset: 57373},
+										pos: position{line: 1779, col: 16, offset: 57374},
 										expr: &seqExpr{
-											pos: position{line: 1779, col: 18, offset: 57375},
+											pos: position{line: 1779, col: 18, offset: 57376},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1779, col: 19, offset: 57376},
+													pos:        position{line: 1779, col: 19, offset: 57377},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2890, col: 11, offset: 91461},
+													pos: position{line: 2890, col: 11, offset: 91462},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2890, col: 11, offset: 91461},
+														pos: position{line: 2890, col: 11, offset: 91462},
 														expr: &charClassMatcher{
-															pos:        position{line: 2890, col: 11, offset: 91461},
+															pos:        position{line: 2890, col: 11, offset: 91462},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39651,88 +39651,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57516},
+							pos:   position{line: 1780, col: 5, offset: 57517},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1780, col: 11, offset: 57522},
+								pos: position{line: 1780, col: 11, offset: 57523},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 5, offset: 56771},
+									pos: position{line: 1758, col: 5, offset: 56772},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 5, offset: 56771},
+										pos: position{line: 1758, col: 5, offset: 56772},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1758, col: 5, offset: 56771},
+												pos: position{line: 1758, col: 5, offset: 56772},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1761, col: 5, offset: 56834},
+												pos:   position{line: 1761, col: 5, offset: 56835},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1761, col: 12, offset: 56841},
+													pos: position{line: 1761, col: 12, offset: 56842},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1761, col: 12, offset: 56841},
+															pos: position{line: 1761, col: 12, offset: 56842},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 12, offset: 56841},
+																pos:        position{line: 1761, col: 12, offset: 56842},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56897},
+															pos: position{line: 1763, col: 13, offset: 56898},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56897},
+																pos:        position{line: 1763, col: 13, offset: 56898},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 56955},
+															pos: position{line: 1765, col: 13, offset: 56956},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1765, col: 13, offset: 56955},
+																pos:        position{line: 1765, col: 13, offset: 56956},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1767, col: 13, offset: 57023},
+															pos: position{line: 1767, col: 13, offset: 57024},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 13, offset: 57023},
+																pos:        position{line: 1767, col: 13, offset: 57024},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57087},
+															pos: position{line: 1769, col: 13, offset: 57088},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57087},
+																pos:        position{line: 1769, col: 13, offset: 57088},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57151},
+															pos: position{line: 1771, col: 13, offset: 57152},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1771, col: 13, offset: 57151},
+																pos: position{line: 1771, col: 13, offset: 57152},
 																expr: &actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39746,17 +39746,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 12, offset: 57231},
+												pos: position{line: 1773, col: 12, offset: 57232},
 												expr: &seqExpr{
-													pos: position{line: 1773, col: 14, offset: 57233},
+													pos: position{line: 1773, col: 14, offset: 57234},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1773, col: 14, offset: 57233},
+															pos: position{line: 1773, col: 14, offset: 57234},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39765,28 +39765,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91798},
+															pos: position{line: 2908, col: 8, offset: 91799},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91571},
+																	pos: position{line: 2895, col: 12, offset: 91572},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91572},
+																		pos: position{line: 2895, col: 13, offset: 91573},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91572},
+																				pos:        position{line: 2895, col: 13, offset: 91573},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91579},
+																				pos:        position{line: 2895, col: 20, offset: 91580},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91588},
+																				pos:        position{line: 2895, col: 29, offset: 91589},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39795,9 +39795,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -39811,24 +39811,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57544},
+							pos:   position{line: 1781, col: 5, offset: 57545},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1818, col: 5, offset: 58755},
+								pos: position{line: 1818, col: 5, offset: 58756},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1818, col: 5, offset: 58755},
+									pos: position{line: 1818, col: 5, offset: 58756},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1818, col: 5, offset: 58755},
+											pos:   position{line: 1818, col: 5, offset: 58756},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 14, offset: 89993},
+												pos: position{line: 2836, col: 14, offset: 89994},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2836, col: 14, offset: 89993},
+													pos: position{line: 2836, col: 14, offset: 89994},
 													expr: &charClassMatcher{
-														pos:        position{line: 2836, col: 14, offset: 89993},
+														pos:        position{line: 2836, col: 14, offset: 89994},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39838,32 +39838,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1819, col: 5, offset: 58779},
+											pos: position{line: 1819, col: 5, offset: 58780},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2908, col: 8, offset: 91798},
+											pos: position{line: 2908, col: 8, offset: 91799},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2895, col: 12, offset: 91571},
+													pos: position{line: 2895, col: 12, offset: 91572},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 13, offset: 91572},
+														pos: position{line: 2895, col: 13, offset: 91573},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2895, col: 13, offset: 91572},
+																pos:        position{line: 2895, col: 13, offset: 91573},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 20, offset: 91579},
+																pos:        position{line: 2895, col: 20, offset: 91580},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 29, offset: 91588},
+																pos:        position{line: 2895, col: 29, offset: 91589},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39872,9 +39872,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -39884,47 +39884,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1782, col: 5, offset: 57578},
+							pos: position{line: 1782, col: 5, offset: 57579},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1789, col: 5, offset: 57908},
+							pos:   position{line: 1789, col: 5, offset: 57909},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1789, col: 16, offset: 57919},
+								pos: position{line: 1789, col: 16, offset: 57920},
 								expr: &actionExpr{
-									pos: position{line: 1790, col: 9, offset: 57929},
+									pos: position{line: 1790, col: 9, offset: 57930},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1790, col: 9, offset: 57929},
+										pos: position{line: 1790, col: 9, offset: 57930},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91734},
+												pos: position{line: 2903, col: 11, offset: 91735},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91736,
+													line: 2903, col: 13, offset: 91737,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 57945},
+												pos: position{line: 1791, col: 9, offset: 57946},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39933,28 +39933,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39963,9 +39963,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -39975,27 +39975,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1792, col: 9, offset: 57964},
+												pos: position{line: 1792, col: 9, offset: 57965},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1792, col: 10, offset: 57965},
+													pos:  position{line: 1792, col: 10, offset: 57966},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 9, offset: 57989},
+												pos: position{line: 1793, col: 9, offset: 57990},
 												expr: &choiceExpr{
-													pos: position{line: 1793, col: 11, offset: 57991},
+													pos: position{line: 1793, col: 11, offset: 57992},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 744, col: 5, offset: 23706},
+															pos: position{line: 744, col: 5, offset: 23707},
 															run: (*parser).callonShortcutParagraph90,
 															expr: &seqExpr{
-																pos: position{line: 744, col: 5, offset: 23706},
+																pos: position{line: 744, col: 5, offset: 23707},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 744, col: 5, offset: 23706},
+																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2776, col: 13, offset: 88481},
+																			pos:        position{line: 2776, col: 13, offset: 88482},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40003,36 +40003,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 745, col: 5, offset: 23736},
+																		pos:   position{line: 745, col: 5, offset: 23737},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 746, col: 9, offset: 23756},
+																			pos: position{line: 746, col: 9, offset: 23757},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 760, col: 5, offset: 24248},
+																					pos: position{line: 760, col: 5, offset: 24249},
 																					run: (*parser).callonShortcutParagraph96,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 5, offset: 24248},
+																						pos: position{line: 760, col: 5, offset: 24249},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 5, offset: 24248},
+																								pos:   position{line: 760, col: 5, offset: 24249},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 16, offset: 24259},
+																									pos: position{line: 760, col: 16, offset: 24260},
 																									run: (*parser).callonShortcutParagraph99,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 16, offset: 24259},
+																										pos: position{line: 760, col: 16, offset: 24260},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 760, col: 16, offset: 24259},
+																												pos:        position{line: 760, col: 16, offset: 24260},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 760, col: 23, offset: 24266},
+																												pos: position{line: 760, col: 23, offset: 24267},
 																												expr: &litMatcher{
-																													pos:        position{line: 760, col: 23, offset: 24266},
+																													pos:        position{line: 760, col: 23, offset: 24267},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -40043,12 +40043,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 762, col: 8, offset: 24350},
+																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40057,28 +40057,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40087,9 +40087,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40098,30 +40098,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 767, col: 5, offset: 24496},
+																					pos: position{line: 767, col: 5, offset: 24497},
 																					run: (*parser).callonShortcutParagraph115,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 5, offset: 24496},
+																						pos: position{line: 767, col: 5, offset: 24497},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 5, offset: 24496},
+																								pos:   position{line: 767, col: 5, offset: 24497},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 16, offset: 24507},
+																									pos: position{line: 767, col: 16, offset: 24508},
 																									run: (*parser).callonShortcutParagraph118,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 16, offset: 24507},
+																										pos: position{line: 767, col: 16, offset: 24508},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 767, col: 16, offset: 24507},
+																												pos:        position{line: 767, col: 16, offset: 24508},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 767, col: 23, offset: 24514},
+																												pos: position{line: 767, col: 23, offset: 24515},
 																												expr: &litMatcher{
-																													pos:        position{line: 767, col: 23, offset: 24514},
+																													pos:        position{line: 767, col: 23, offset: 24515},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -40132,12 +40132,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 769, col: 8, offset: 24598},
+																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40146,28 +40146,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40176,9 +40176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40187,27 +40187,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 780, col: 26, offset: 24984},
+																					pos: position{line: 780, col: 26, offset: 24985},
 																					run: (*parser).callonShortcutParagraph134,
 																					expr: &seqExpr{
-																						pos: position{line: 780, col: 26, offset: 24984},
+																						pos: position{line: 780, col: 26, offset: 24985},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 780, col: 26, offset: 24984},
+																								pos:        position{line: 780, col: 26, offset: 24985},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 780, col: 32, offset: 24990},
+																								pos:   position{line: 780, col: 32, offset: 24991},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 13, offset: 25120},
+																									pos: position{line: 784, col: 13, offset: 25121},
 																									run: (*parser).callonShortcutParagraph138,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 784, col: 14, offset: 25121},
+																										pos: position{line: 784, col: 14, offset: 25122},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 784, col: 14, offset: 25121},
+																											pos:        position{line: 784, col: 14, offset: 25122},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -40217,12 +40217,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 780, col: 52, offset: 25010},
+																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40231,28 +40231,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40261,9 +40261,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40272,30 +40272,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 774, col: 5, offset: 24743},
+																					pos: position{line: 774, col: 5, offset: 24744},
 																					run: (*parser).callonShortcutParagraph152,
 																					expr: &seqExpr{
-																						pos: position{line: 774, col: 5, offset: 24743},
+																						pos: position{line: 774, col: 5, offset: 24744},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 774, col: 5, offset: 24743},
+																								pos:   position{line: 774, col: 5, offset: 24744},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 774, col: 16, offset: 24754},
+																									pos: position{line: 774, col: 16, offset: 24755},
 																									run: (*parser).callonShortcutParagraph155,
 																									expr: &seqExpr{
-																										pos: position{line: 774, col: 16, offset: 24754},
+																										pos: position{line: 774, col: 16, offset: 24755},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 774, col: 16, offset: 24754},
+																												pos:        position{line: 774, col: 16, offset: 24755},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 22, offset: 24760},
+																												pos: position{line: 774, col: 22, offset: 24761},
 																												expr: &litMatcher{
-																													pos:        position{line: 774, col: 22, offset: 24760},
+																													pos:        position{line: 774, col: 22, offset: 24761},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -40306,12 +40306,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 776, col: 8, offset: 24844},
+																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40320,28 +40320,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40350,9 +40350,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40361,30 +40361,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25280},
+																					pos: position{line: 789, col: 5, offset: 25281},
 																					run: (*parser).callonShortcutParagraph171,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25280},
+																						pos: position{line: 789, col: 5, offset: 25281},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25280},
+																								pos:   position{line: 789, col: 5, offset: 25281},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25291},
+																									pos: position{line: 789, col: 16, offset: 25292},
 																									run: (*parser).callonShortcutParagraph174,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 16, offset: 25291},
+																										pos: position{line: 789, col: 16, offset: 25292},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 789, col: 16, offset: 25291},
+																												pos:        position{line: 789, col: 16, offset: 25292},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 789, col: 23, offset: 25298},
+																												pos: position{line: 789, col: 23, offset: 25299},
 																												expr: &litMatcher{
-																													pos:        position{line: 789, col: 23, offset: 25298},
+																													pos:        position{line: 789, col: 23, offset: 25299},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -40395,12 +40395,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25382},
+																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40409,28 +40409,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40439,9 +40439,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40450,30 +40450,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 803, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 25757},
 																					run: (*parser).callonShortcutParagraph190,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 25756},
+																						pos: position{line: 803, col: 5, offset: 25757},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 25756},
+																								pos:   position{line: 803, col: 5, offset: 25757},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 25768},
 																									run: (*parser).callonShortcutParagraph193,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 25767},
+																										pos: position{line: 803, col: 16, offset: 25768},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 25767},
+																												pos:        position{line: 803, col: 16, offset: 25768},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 25774},
+																												pos: position{line: 803, col: 23, offset: 25775},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 25774},
+																													pos:        position{line: 803, col: 23, offset: 25775},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -40484,12 +40484,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 25858},
+																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40498,28 +40498,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40528,9 +40528,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40539,30 +40539,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 810, col: 5, offset: 26008},
+																					pos: position{line: 810, col: 5, offset: 26009},
 																					run: (*parser).callonShortcutParagraph209,
 																					expr: &seqExpr{
-																						pos: position{line: 810, col: 5, offset: 26008},
+																						pos: position{line: 810, col: 5, offset: 26009},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 810, col: 5, offset: 26008},
+																								pos:   position{line: 810, col: 5, offset: 26009},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 16, offset: 26019},
+																									pos: position{line: 810, col: 16, offset: 26020},
 																									run: (*parser).callonShortcutParagraph212,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 16, offset: 26019},
+																										pos: position{line: 810, col: 16, offset: 26020},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 810, col: 16, offset: 26019},
+																												pos:        position{line: 810, col: 16, offset: 26020},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 23, offset: 26026},
+																												pos: position{line: 810, col: 23, offset: 26027},
 																												expr: &litMatcher{
-																													pos:        position{line: 810, col: 23, offset: 26026},
+																													pos:        position{line: 810, col: 23, offset: 26027},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -40573,12 +40573,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 812, col: 8, offset: 26110},
+																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40587,28 +40587,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40617,9 +40617,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40628,30 +40628,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 817, col: 5, offset: 26258},
+																					pos: position{line: 817, col: 5, offset: 26259},
 																					run: (*parser).callonShortcutParagraph228,
 																					expr: &seqExpr{
-																						pos: position{line: 817, col: 5, offset: 26258},
+																						pos: position{line: 817, col: 5, offset: 26259},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 817, col: 5, offset: 26258},
+																								pos:   position{line: 817, col: 5, offset: 26259},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 16, offset: 26269},
+																									pos: position{line: 817, col: 16, offset: 26270},
 																									run: (*parser).callonShortcutParagraph231,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 16, offset: 26269},
+																										pos: position{line: 817, col: 16, offset: 26270},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 817, col: 16, offset: 26269},
+																												pos:        position{line: 817, col: 16, offset: 26270},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 23, offset: 26276},
+																												pos: position{line: 817, col: 23, offset: 26277},
 																												expr: &litMatcher{
-																													pos:        position{line: 817, col: 23, offset: 26276},
+																													pos:        position{line: 817, col: 23, offset: 26277},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -40662,12 +40662,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 819, col: 8, offset: 26360},
+																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40676,28 +40676,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40706,9 +40706,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40717,30 +40717,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 824, col: 5, offset: 26504},
+																					pos: position{line: 824, col: 5, offset: 26505},
 																					run: (*parser).callonShortcutParagraph247,
 																					expr: &seqExpr{
-																						pos: position{line: 824, col: 5, offset: 26504},
+																						pos: position{line: 824, col: 5, offset: 26505},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 824, col: 5, offset: 26504},
+																								pos:   position{line: 824, col: 5, offset: 26505},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 824, col: 16, offset: 26515},
+																									pos: position{line: 824, col: 16, offset: 26516},
 																									run: (*parser).callonShortcutParagraph250,
 																									expr: &seqExpr{
-																										pos: position{line: 824, col: 16, offset: 26515},
+																										pos: position{line: 824, col: 16, offset: 26516},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 824, col: 16, offset: 26515},
+																												pos:        position{line: 824, col: 16, offset: 26516},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 824, col: 23, offset: 26522},
+																												pos: position{line: 824, col: 23, offset: 26523},
 																												expr: &litMatcher{
-																													pos:        position{line: 824, col: 23, offset: 26522},
+																													pos:        position{line: 824, col: 23, offset: 26523},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -40751,12 +40751,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 826, col: 8, offset: 26606},
+																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40765,28 +40765,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40795,9 +40795,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -40812,19 +40812,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 796, col: 5, offset: 25525},
+															pos: position{line: 796, col: 5, offset: 25526},
 															run: (*parser).callonShortcutParagraph266,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25525},
+																pos: position{line: 796, col: 5, offset: 25526},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25525},
+																		pos:   position{line: 796, col: 5, offset: 25526},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25536},
+																			pos: position{line: 796, col: 16, offset: 25537},
 																			run: (*parser).callonShortcutParagraph269,
 																			expr: &litMatcher{
-																				pos:        position{line: 796, col: 16, offset: 25536},
+																				pos:        position{line: 796, col: 16, offset: 25537},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -40832,12 +40832,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25613},
+																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40846,28 +40846,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40876,9 +40876,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -40887,21 +40887,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84069},
+															pos: position{line: 2628, col: 19, offset: 84070},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84069},
+																	pos:        position{line: 2628, col: 19, offset: 84070},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84076},
+																	pos: position{line: 2628, col: 26, offset: 84077},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40910,28 +40910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40940,9 +40940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -40953,23 +40953,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58053},
+												pos: position{line: 1794, col: 9, offset: 58054},
 												expr: &seqExpr{
-													pos: position{line: 1569, col: 27, offset: 50693},
+													pos: position{line: 1569, col: 27, offset: 50694},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1569, col: 27, offset: 50693},
+															pos:        position{line: 1569, col: 27, offset: 50694},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1569, col: 31, offset: 50697},
+															pos: position{line: 1569, col: 31, offset: 50698},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40978,25 +40978,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41008,42 +41008,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1795, col: 9, offset: 58085},
+												pos:   position{line: 1795, col: 9, offset: 58086},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1795, col: 15, offset: 58091},
+													pos: position{line: 1795, col: 15, offset: 58092},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80371},
+															pos: position{line: 2496, col: 22, offset: 80372},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80371},
+																pos: position{line: 2496, col: 22, offset: 80372},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80592},
+																		pos:        position{line: 2501, col: 31, offset: 80593},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80597},
+																		pos: position{line: 2501, col: 36, offset: 80598},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80598},
+																			pos:        position{line: 2501, col: 37, offset: 80599},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80398},
+																		pos:   position{line: 2496, col: 49, offset: 80399},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89926},
+																			pos: position{line: 2832, col: 13, offset: 89927},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89926},
+																				pos: position{line: 2832, col: 13, offset: 89927},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89926},
+																					pos:        position{line: 2832, col: 13, offset: 89927},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41053,28 +41053,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41083,9 +41083,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -41094,21 +41094,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1818, col: 5, offset: 58755},
+															pos: position{line: 1818, col: 5, offset: 58756},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1818, col: 5, offset: 58755},
+																pos: position{line: 1818, col: 5, offset: 58756},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1818, col: 5, offset: 58755},
+																		pos:   position{line: 1818, col: 5, offset: 58756},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89993},
+																			pos: position{line: 2836, col: 14, offset: 89994},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89993},
+																				pos: position{line: 2836, col: 14, offset: 89994},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89993},
+																					pos:        position{line: 2836, col: 14, offset: 89994},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41118,32 +41118,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1819, col: 5, offset: 58779},
+																		pos: position{line: 1819, col: 5, offset: 58780},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41152,9 +41152,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -41176,96 +41176,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1802, col: 1, offset: 58295},
+			pos:  position{line: 1802, col: 1, offset: 58296},
 			expr: &actionExpr{
-				pos: position{line: 1803, col: 5, offset: 58313},
+				pos: position{line: 1803, col: 5, offset: 58314},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1803, col: 5, offset: 58313},
+					pos: position{line: 1803, col: 5, offset: 58314},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58313},
+							pos:   position{line: 1803, col: 5, offset: 58314},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1803, col: 11, offset: 58319},
+								pos: position{line: 1803, col: 11, offset: 58320},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 5, offset: 56771},
+									pos: position{line: 1758, col: 5, offset: 56772},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 5, offset: 56771},
+										pos: position{line: 1758, col: 5, offset: 56772},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1758, col: 5, offset: 56771},
+												pos: position{line: 1758, col: 5, offset: 56772},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1761, col: 5, offset: 56834},
+												pos:   position{line: 1761, col: 5, offset: 56835},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1761, col: 12, offset: 56841},
+													pos: position{line: 1761, col: 12, offset: 56842},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1761, col: 12, offset: 56841},
+															pos: position{line: 1761, col: 12, offset: 56842},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 12, offset: 56841},
+																pos:        position{line: 1761, col: 12, offset: 56842},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56897},
+															pos: position{line: 1763, col: 13, offset: 56898},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56897},
+																pos:        position{line: 1763, col: 13, offset: 56898},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 56955},
+															pos: position{line: 1765, col: 13, offset: 56956},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1765, col: 13, offset: 56955},
+																pos:        position{line: 1765, col: 13, offset: 56956},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1767, col: 13, offset: 57023},
+															pos: position{line: 1767, col: 13, offset: 57024},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 13, offset: 57023},
+																pos:        position{line: 1767, col: 13, offset: 57024},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57087},
+															pos: position{line: 1769, col: 13, offset: 57088},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57087},
+																pos:        position{line: 1769, col: 13, offset: 57088},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57151},
+															pos: position{line: 1771, col: 13, offset: 57152},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1771, col: 13, offset: 57151},
+																pos: position{line: 1771, col: 13, offset: 57152},
 																expr: &actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91461},
+																	pos: position{line: 2890, col: 11, offset: 91462},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91461},
+																		pos: position{line: 2890, col: 11, offset: 91462},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91461},
+																			pos:        position{line: 2890, col: 11, offset: 91462},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41279,17 +41279,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 12, offset: 57231},
+												pos: position{line: 1773, col: 12, offset: 57232},
 												expr: &seqExpr{
-													pos: position{line: 1773, col: 14, offset: 57233},
+													pos: position{line: 1773, col: 14, offset: 57234},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1773, col: 14, offset: 57233},
+															pos: position{line: 1773, col: 14, offset: 57234},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41298,28 +41298,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91798},
+															pos: position{line: 2908, col: 8, offset: 91799},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91571},
+																	pos: position{line: 2895, col: 12, offset: 91572},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91572},
+																		pos: position{line: 2895, col: 13, offset: 91573},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91572},
+																				pos:        position{line: 2895, col: 13, offset: 91573},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91579},
+																				pos:        position{line: 2895, col: 20, offset: 91580},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91588},
+																				pos:        position{line: 2895, col: 29, offset: 91589},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41328,9 +41328,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -41344,24 +41344,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58342},
+							pos:   position{line: 1804, col: 5, offset: 58343},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1818, col: 5, offset: 58755},
+								pos: position{line: 1818, col: 5, offset: 58756},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1818, col: 5, offset: 58755},
+									pos: position{line: 1818, col: 5, offset: 58756},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1818, col: 5, offset: 58755},
+											pos:   position{line: 1818, col: 5, offset: 58756},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 14, offset: 89993},
+												pos: position{line: 2836, col: 14, offset: 89994},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2836, col: 14, offset: 89993},
+													pos: position{line: 2836, col: 14, offset: 89994},
 													expr: &charClassMatcher{
-														pos:        position{line: 2836, col: 14, offset: 89993},
+														pos:        position{line: 2836, col: 14, offset: 89994},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41371,32 +41371,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1819, col: 5, offset: 58779},
+											pos: position{line: 1819, col: 5, offset: 58780},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2908, col: 8, offset: 91798},
+											pos: position{line: 2908, col: 8, offset: 91799},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2895, col: 12, offset: 91571},
+													pos: position{line: 2895, col: 12, offset: 91572},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 13, offset: 91572},
+														pos: position{line: 2895, col: 13, offset: 91573},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2895, col: 13, offset: 91572},
+																pos:        position{line: 2895, col: 13, offset: 91573},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 20, offset: 91579},
+																pos:        position{line: 2895, col: 20, offset: 91580},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 29, offset: 91588},
+																pos:        position{line: 2895, col: 29, offset: 91589},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41405,9 +41405,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91748},
+													pos: position{line: 2905, col: 8, offset: 91749},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91749,
+														line: 2905, col: 9, offset: 91750,
 													},
 												},
 											},
@@ -41417,43 +41417,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1805, col: 5, offset: 58376},
+							pos:   position{line: 1805, col: 5, offset: 58377},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1805, col: 16, offset: 58387},
+								pos: position{line: 1805, col: 16, offset: 58388},
 								expr: &actionExpr{
-									pos: position{line: 1806, col: 9, offset: 58397},
+									pos: position{line: 1806, col: 9, offset: 58398},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1806, col: 9, offset: 58397},
+										pos: position{line: 1806, col: 9, offset: 58398},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91734},
+												pos: position{line: 2903, col: 11, offset: 91735},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91736,
+													line: 2903, col: 13, offset: 91737,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1807, col: 9, offset: 58412},
+												pos: position{line: 1807, col: 9, offset: 58413},
 												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22134},
+													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22134},
+														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91734},
+																pos: position{line: 2903, col: 11, offset: 91735},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91736,
+																	line: 2903, col: 13, offset: 91737,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22141},
+																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41462,28 +41462,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91798},
+																pos: position{line: 2908, col: 8, offset: 91799},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91571},
+																		pos: position{line: 2895, col: 12, offset: 91572},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91572},
+																			pos: position{line: 2895, col: 13, offset: 91573},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91572},
+																					pos:        position{line: 2895, col: 13, offset: 91573},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91579},
+																					pos:        position{line: 2895, col: 20, offset: 91580},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91588},
+																					pos:        position{line: 2895, col: 29, offset: 91589},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41492,9 +41492,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91748},
+																		pos: position{line: 2905, col: 8, offset: 91749},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91749,
+																			line: 2905, col: 9, offset: 91750,
 																		},
 																	},
 																},
@@ -41504,27 +41504,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1808, col: 9, offset: 58431},
+												pos: position{line: 1808, col: 9, offset: 58432},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1808, col: 10, offset: 58432},
+													pos:  position{line: 1808, col: 10, offset: 58433},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1809, col: 9, offset: 58456},
+												pos: position{line: 1809, col: 9, offset: 58457},
 												expr: &choiceExpr{
-													pos: position{line: 1809, col: 11, offset: 58458},
+													pos: position{line: 1809, col: 11, offset: 58459},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 744, col: 5, offset: 23706},
+															pos: position{line: 744, col: 5, offset: 23707},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 744, col: 5, offset: 23706},
+																pos: position{line: 744, col: 5, offset: 23707},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 744, col: 5, offset: 23706},
+																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2776, col: 13, offset: 88481},
+																			pos:        position{line: 2776, col: 13, offset: 88482},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41532,36 +41532,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 745, col: 5, offset: 23736},
+																		pos:   position{line: 745, col: 5, offset: 23737},
 																		label: "delimiter",
 																		expr: &choiceExpr{
-																			pos: position{line: 746, col: 9, offset: 23756},
+																			pos: position{line: 746, col: 9, offset: 23757},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 760, col: 5, offset: 24248},
+																					pos: position{line: 760, col: 5, offset: 24249},
 																					run: (*parser).callonParagraph86,
 																					expr: &seqExpr{
-																						pos: position{line: 760, col: 5, offset: 24248},
+																						pos: position{line: 760, col: 5, offset: 24249},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 760, col: 5, offset: 24248},
+																								pos:   position{line: 760, col: 5, offset: 24249},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 760, col: 16, offset: 24259},
+																									pos: position{line: 760, col: 16, offset: 24260},
 																									run: (*parser).callonParagraph89,
 																									expr: &seqExpr{
-																										pos: position{line: 760, col: 16, offset: 24259},
+																										pos: position{line: 760, col: 16, offset: 24260},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 760, col: 16, offset: 24259},
+																												pos:        position{line: 760, col: 16, offset: 24260},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 760, col: 23, offset: 24266},
+																												pos: position{line: 760, col: 23, offset: 24267},
 																												expr: &litMatcher{
-																													pos:        position{line: 760, col: 23, offset: 24266},
+																													pos:        position{line: 760, col: 23, offset: 24267},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -41572,12 +41572,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 762, col: 8, offset: 24350},
+																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41586,28 +41586,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41616,9 +41616,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -41627,30 +41627,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 767, col: 5, offset: 24496},
+																					pos: position{line: 767, col: 5, offset: 24497},
 																					run: (*parser).callonParagraph105,
 																					expr: &seqExpr{
-																						pos: position{line: 767, col: 5, offset: 24496},
+																						pos: position{line: 767, col: 5, offset: 24497},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 767, col: 5, offset: 24496},
+																								pos:   position{line: 767, col: 5, offset: 24497},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 767, col: 16, offset: 24507},
+																									pos: position{line: 767, col: 16, offset: 24508},
 																									run: (*parser).callonParagraph108,
 																									expr: &seqExpr{
-																										pos: position{line: 767, col: 16, offset: 24507},
+																										pos: position{line: 767, col: 16, offset: 24508},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 767, col: 16, offset: 24507},
+																												pos:        position{line: 767, col: 16, offset: 24508},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 767, col: 23, offset: 24514},
+																												pos: position{line: 767, col: 23, offset: 24515},
 																												expr: &litMatcher{
-																													pos:        position{line: 767, col: 23, offset: 24514},
+																													pos:        position{line: 767, col: 23, offset: 24515},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -41661,12 +41661,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 769, col: 8, offset: 24598},
+																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41675,28 +41675,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41705,9 +41705,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -41716,27 +41716,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 780, col: 26, offset: 24984},
+																					pos: position{line: 780, col: 26, offset: 24985},
 																					run: (*parser).callonParagraph124,
 																					expr: &seqExpr{
-																						pos: position{line: 780, col: 26, offset: 24984},
+																						pos: position{line: 780, col: 26, offset: 24985},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 780, col: 26, offset: 24984},
+																								pos:        position{line: 780, col: 26, offset: 24985},
 																								val:        "```",
 																								ignoreCase: false,
 																								want:       "\"```\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 780, col: 32, offset: 24990},
+																								pos:   position{line: 780, col: 32, offset: 24991},
 																								label: "language",
 																								expr: &actionExpr{
-																									pos: position{line: 784, col: 13, offset: 25120},
+																									pos: position{line: 784, col: 13, offset: 25121},
 																									run: (*parser).callonParagraph128,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 784, col: 14, offset: 25121},
+																										pos: position{line: 784, col: 14, offset: 25122},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 784, col: 14, offset: 25121},
+																											pos:        position{line: 784, col: 14, offset: 25122},
 																											val:        "[^\\r\\n` ]",
 																											chars:      []rune{'\r', '\n', '`', ' '},
 																											ignoreCase: false,
@@ -41746,12 +41746,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 780, col: 52, offset: 25010},
+																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41760,28 +41760,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41790,9 +41790,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -41801,30 +41801,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 774, col: 5, offset: 24743},
+																					pos: position{line: 774, col: 5, offset: 24744},
 																					run: (*parser).callonParagraph142,
 																					expr: &seqExpr{
-																						pos: position{line: 774, col: 5, offset: 24743},
+																						pos: position{line: 774, col: 5, offset: 24744},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 774, col: 5, offset: 24743},
+																								pos:   position{line: 774, col: 5, offset: 24744},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 774, col: 16, offset: 24754},
+																									pos: position{line: 774, col: 16, offset: 24755},
 																									run: (*parser).callonParagraph145,
 																									expr: &seqExpr{
-																										pos: position{line: 774, col: 16, offset: 24754},
+																										pos: position{line: 774, col: 16, offset: 24755},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 774, col: 16, offset: 24754},
+																												pos:        position{line: 774, col: 16, offset: 24755},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 22, offset: 24760},
+																												pos: position{line: 774, col: 22, offset: 24761},
 																												expr: &litMatcher{
-																													pos:        position{line: 774, col: 22, offset: 24760},
+																													pos:        position{line: 774, col: 22, offset: 24761},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -41835,12 +41835,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 776, col: 8, offset: 24844},
+																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41849,28 +41849,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41879,9 +41879,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -41890,30 +41890,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25280},
+																					pos: position{line: 789, col: 5, offset: 25281},
 																					run: (*parser).callonParagraph161,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25280},
+																						pos: position{line: 789, col: 5, offset: 25281},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25280},
+																								pos:   position{line: 789, col: 5, offset: 25281},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25291},
+																									pos: position{line: 789, col: 16, offset: 25292},
 																									run: (*parser).callonParagraph164,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 16, offset: 25291},
+																										pos: position{line: 789, col: 16, offset: 25292},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 789, col: 16, offset: 25291},
+																												pos:        position{line: 789, col: 16, offset: 25292},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 789, col: 23, offset: 25298},
+																												pos: position{line: 789, col: 23, offset: 25299},
 																												expr: &litMatcher{
-																													pos:        position{line: 789, col: 23, offset: 25298},
+																													pos:        position{line: 789, col: 23, offset: 25299},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -41924,12 +41924,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25382},
+																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41938,28 +41938,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41968,9 +41968,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -41979,30 +41979,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 803, col: 5, offset: 25756},
+																					pos: position{line: 803, col: 5, offset: 25757},
 																					run: (*parser).callonParagraph180,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 25756},
+																						pos: position{line: 803, col: 5, offset: 25757},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 25756},
+																								pos:   position{line: 803, col: 5, offset: 25757},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 25767},
+																									pos: position{line: 803, col: 16, offset: 25768},
 																									run: (*parser).callonParagraph183,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 25767},
+																										pos: position{line: 803, col: 16, offset: 25768},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 25767},
+																												pos:        position{line: 803, col: 16, offset: 25768},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 25774},
+																												pos: position{line: 803, col: 23, offset: 25775},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 25774},
+																													pos:        position{line: 803, col: 23, offset: 25775},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -42013,12 +42013,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 25858},
+																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42027,28 +42027,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42057,9 +42057,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -42068,30 +42068,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 810, col: 5, offset: 26008},
+																					pos: position{line: 810, col: 5, offset: 26009},
 																					run: (*parser).callonParagraph199,
 																					expr: &seqExpr{
-																						pos: position{line: 810, col: 5, offset: 26008},
+																						pos: position{line: 810, col: 5, offset: 26009},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 810, col: 5, offset: 26008},
+																								pos:   position{line: 810, col: 5, offset: 26009},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 810, col: 16, offset: 26019},
+																									pos: position{line: 810, col: 16, offset: 26020},
 																									run: (*parser).callonParagraph202,
 																									expr: &seqExpr{
-																										pos: position{line: 810, col: 16, offset: 26019},
+																										pos: position{line: 810, col: 16, offset: 26020},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 810, col: 16, offset: 26019},
+																												pos:        position{line: 810, col: 16, offset: 26020},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 810, col: 23, offset: 26026},
+																												pos: position{line: 810, col: 23, offset: 26027},
 																												expr: &litMatcher{
-																													pos:        position{line: 810, col: 23, offset: 26026},
+																													pos:        position{line: 810, col: 23, offset: 26027},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -42102,12 +42102,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 812, col: 8, offset: 26110},
+																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42116,28 +42116,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42146,9 +42146,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -42157,30 +42157,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 817, col: 5, offset: 26258},
+																					pos: position{line: 817, col: 5, offset: 26259},
 																					run: (*parser).callonParagraph218,
 																					expr: &seqExpr{
-																						pos: position{line: 817, col: 5, offset: 26258},
+																						pos: position{line: 817, col: 5, offset: 26259},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 817, col: 5, offset: 26258},
+																								pos:   position{line: 817, col: 5, offset: 26259},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 817, col: 16, offset: 26269},
+																									pos: position{line: 817, col: 16, offset: 26270},
 																									run: (*parser).callonParagraph221,
 																									expr: &seqExpr{
-																										pos: position{line: 817, col: 16, offset: 26269},
+																										pos: position{line: 817, col: 16, offset: 26270},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 817, col: 16, offset: 26269},
+																												pos:        position{line: 817, col: 16, offset: 26270},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 817, col: 23, offset: 26276},
+																												pos: position{line: 817, col: 23, offset: 26277},
 																												expr: &litMatcher{
-																													pos:        position{line: 817, col: 23, offset: 26276},
+																													pos:        position{line: 817, col: 23, offset: 26277},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -42191,12 +42191,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 819, col: 8, offset: 26360},
+																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42205,28 +42205,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42235,9 +42235,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -42246,30 +42246,30 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 824, col: 5, offset: 26504},
+																					pos: position{line: 824, col: 5, offset: 26505},
 																					run: (*parser).callonParagraph237,
 																					expr: &seqExpr{
-																						pos: position{line: 824, col: 5, offset: 26504},
+																						pos: position{line: 824, col: 5, offset: 26505},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 824, col: 5, offset: 26504},
+																								pos:   position{line: 824, col: 5, offset: 26505},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 824, col: 16, offset: 26515},
+																									pos: position{line: 824, col: 16, offset: 26516},
 																									run: (*parser).callonParagraph240,
 																									expr: &seqExpr{
-																										pos: position{line: 824, col: 16, offset: 26515},
+																										pos: position{line: 824, col: 16, offset: 26516},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 824, col: 16, offset: 26515},
+																												pos:        position{line: 824, col: 16, offset: 26516},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 824, col: 23, offset: 26522},
+																												pos: position{line: 824, col: 23, offset: 26523},
 																												expr: &litMatcher{
-																													pos:        position{line: 824, col: 23, offset: 26522},
+																													pos:        position{line: 824, col: 23, offset: 26523},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -42280,12 +42280,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 826, col: 8, offset: 26606},
+																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91400},
+																									pos: position{line: 2886, col: 10, offset: 91401},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91400},
+																										pos:        position{line: 2886, col: 10, offset: 91401},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42294,28 +42294,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91798},
+																								pos: position{line: 2908, col: 8, offset: 91799},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91571},
+																										pos: position{line: 2895, col: 12, offset: 91572},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91572},
+																											pos: position{line: 2895, col: 13, offset: 91573},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91572},
+																													pos:        position{line: 2895, col: 13, offset: 91573},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91579},
+																													pos:        position{line: 2895, col: 20, offset: 91580},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91588},
+																													pos:        position{line: 2895, col: 29, offset: 91589},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42324,9 +42324,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91748},
+																										pos: position{line: 2905, col: 8, offset: 91749},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91749,
+																											line: 2905, col: 9, offset: 91750,
 																										},
 																									},
 																								},
@@ -42341,19 +42341,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 796, col: 5, offset: 25525},
+															pos: position{line: 796, col: 5, offset: 25526},
 															run: (*parser).callonParagraph256,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25525},
+																pos: position{line: 796, col: 5, offset: 25526},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25525},
+																		pos:   position{line: 796, col: 5, offset: 25526},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25536},
+																			pos: position{line: 796, col: 16, offset: 25537},
 																			run: (*parser).callonParagraph259,
 																			expr: &litMatcher{
-																				pos:        position{line: 796, col: 16, offset: 25536},
+																				pos:        position{line: 796, col: 16, offset: 25537},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -42361,12 +42361,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25613},
+																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42375,28 +42375,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42405,9 +42405,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -42416,21 +42416,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84069},
+															pos: position{line: 2628, col: 19, offset: 84070},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84069},
+																	pos:        position{line: 2628, col: 19, offset: 84070},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84076},
+																	pos: position{line: 2628, col: 26, offset: 84077},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42439,28 +42439,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -42469,9 +42469,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -42482,42 +42482,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1810, col: 9, offset: 58520},
+												pos:   position{line: 1810, col: 9, offset: 58521},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1810, col: 15, offset: 58526},
+													pos: position{line: 1810, col: 15, offset: 58527},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80371},
+															pos: position{line: 2496, col: 22, offset: 80372},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80371},
+																pos: position{line: 2496, col: 22, offset: 80372},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80592},
+																		pos:        position{line: 2501, col: 31, offset: 80593},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80597},
+																		pos: position{line: 2501, col: 36, offset: 80598},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80598},
+																			pos:        position{line: 2501, col: 37, offset: 80599},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80398},
+																		pos:   position{line: 2496, col: 49, offset: 80399},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89926},
+																			pos: position{line: 2832, col: 13, offset: 89927},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89926},
+																				pos: position{line: 2832, col: 13, offset: 89927},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89926},
+																					pos:        position{line: 2832, col: 13, offset: 89927},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42527,28 +42527,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42557,9 +42557,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -42568,21 +42568,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1818, col: 5, offset: 58755},
+															pos: position{line: 1818, col: 5, offset: 58756},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1818, col: 5, offset: 58755},
+																pos: position{line: 1818, col: 5, offset: 58756},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1818, col: 5, offset: 58755},
+																		pos:   position{line: 1818, col: 5, offset: 58756},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89993},
+																			pos: position{line: 2836, col: 14, offset: 89994},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89993},
+																				pos: position{line: 2836, col: 14, offset: 89994},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89993},
+																					pos:        position{line: 2836, col: 14, offset: 89994},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42592,32 +42592,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1819, col: 5, offset: 58779},
+																		pos: position{line: 1819, col: 5, offset: 58780},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91798},
+																		pos: position{line: 2908, col: 8, offset: 91799},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42626,9 +42626,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91748},
+																				pos: position{line: 2905, col: 8, offset: 91749},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91749,
+																					line: 2905, col: 9, offset: 91750,
 																				},
 																			},
 																		},
@@ -42650,16 +42650,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59262},
+			pos:  position{line: 1829, col: 1, offset: 59263},
 			expr: &choiceExpr{
-				pos: position{line: 1829, col: 15, offset: 59276},
+				pos: position{line: 1829, col: 15, offset: 59277},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 15, offset: 59276},
+						pos:  position{line: 1829, col: 15, offset: 59277},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 35, offset: 59296},
+						pos:  position{line: 1829, col: 35, offset: 59297},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42667,65 +42667,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59317},
+			pos:  position{line: 1831, col: 1, offset: 59318},
 			expr: &actionExpr{
-				pos: position{line: 1832, col: 5, offset: 59342},
+				pos: position{line: 1832, col: 5, offset: 59343},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1832, col: 5, offset: 59342},
+					pos: position{line: 1832, col: 5, offset: 59343},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1832, col: 5, offset: 59342},
+							pos:   position{line: 1832, col: 5, offset: 59343},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1832, col: 16, offset: 59353},
+								pos: position{line: 1832, col: 16, offset: 59354},
 								expr: &actionExpr{
-									pos: position{line: 1832, col: 17, offset: 59354},
+									pos: position{line: 1832, col: 17, offset: 59355},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1832, col: 17, offset: 59354},
+										pos:  position{line: 1832, col: 17, offset: 59355},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1835, col: 5, offset: 59422},
+							pos: position{line: 1835, col: 5, offset: 59423},
 							expr: &litMatcher{
-								pos:        position{line: 1835, col: 7, offset: 59424},
+								pos:        position{line: 1835, col: 7, offset: 59425},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1836, col: 5, offset: 59433},
+							pos:   position{line: 1836, col: 5, offset: 59434},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1837, col: 9, offset: 59451},
+								pos: position{line: 1837, col: 9, offset: 59452},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1837, col: 9, offset: 59451},
+										pos:  position{line: 1837, col: 9, offset: 59452},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 11, offset: 59478},
+										pos:  position{line: 1838, col: 11, offset: 59479},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1839, col: 11, offset: 59506},
+										pos:  position{line: 1839, col: 11, offset: 59507},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1840, col: 11, offset: 59537},
+										pos:  position{line: 1840, col: 11, offset: 59538},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1841, col: 11, offset: 59565},
+										pos:  position{line: 1841, col: 11, offset: 59566},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 11, offset: 59596},
+										pos:  position{line: 1842, col: 11, offset: 59597},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42737,36 +42737,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1847, col: 1, offset: 59716},
+			pos:  position{line: 1847, col: 1, offset: 59717},
 			expr: &actionExpr{
-				pos: position{line: 1848, col: 5, offset: 59758},
+				pos: position{line: 1848, col: 5, offset: 59759},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1848, col: 5, offset: 59758},
+					pos: position{line: 1848, col: 5, offset: 59759},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1848, col: 5, offset: 59758},
+							pos:   position{line: 1848, col: 5, offset: 59759},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1848, col: 16, offset: 59769},
+								pos: position{line: 1848, col: 16, offset: 59770},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1848, col: 17, offset: 59770},
+									pos:  position{line: 1848, col: 17, offset: 59771},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1849, col: 5, offset: 59795},
+							pos:   position{line: 1849, col: 5, offset: 59796},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1849, col: 14, offset: 59804},
+								pos: position{line: 1849, col: 14, offset: 59805},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 14, offset: 59804},
+										pos:  position{line: 1849, col: 14, offset: 59805},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 33, offset: 59823},
+										pos:  position{line: 1849, col: 33, offset: 59824},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42778,32 +42778,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1857, col: 1, offset: 60054},
+			pos:  position{line: 1857, col: 1, offset: 60055},
 			expr: &choiceExpr{
-				pos: position{line: 1858, col: 5, offset: 60079},
+				pos: position{line: 1858, col: 5, offset: 60080},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 5, offset: 60079},
+						pos:  position{line: 1858, col: 5, offset: 60080},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60106},
+						pos:  position{line: 1859, col: 7, offset: 60107},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60134},
+						pos:  position{line: 1860, col: 7, offset: 60135},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60166},
+						pos:  position{line: 1861, col: 7, offset: 60167},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 60194},
+						pos:  position{line: 1862, col: 7, offset: 60195},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60215},
+						pos:  position{line: 1863, col: 7, offset: 60216},
 						name: "SuperscriptText",
 					},
 				},
@@ -42811,24 +42811,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1865, col: 1, offset: 60233},
+			pos:  position{line: 1865, col: 1, offset: 60234},
 			expr: &choiceExpr{
-				pos: position{line: 1866, col: 5, offset: 60258},
+				pos: position{line: 1866, col: 5, offset: 60259},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 5, offset: 60258},
+						pos:  position{line: 1866, col: 5, offset: 60259},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60284},
+						pos:  position{line: 1867, col: 7, offset: 60285},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60312},
+						pos:  position{line: 1868, col: 7, offset: 60313},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60343},
+						pos:  position{line: 1869, col: 7, offset: 60344},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42836,26 +42836,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1883, col: 1, offset: 60697},
+			pos:  position{line: 1883, col: 1, offset: 60698},
 			expr: &choiceExpr{
-				pos: position{line: 1884, col: 5, offset: 60723},
+				pos: position{line: 1884, col: 5, offset: 60724},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2785, col: 5, offset: 88628},
+						pos: position{line: 2785, col: 5, offset: 88629},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2785, col: 5, offset: 88628},
+							pos: position{line: 2785, col: 5, offset: 88629},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2785, col: 5, offset: 88628},
+									pos:   position{line: 2785, col: 5, offset: 88629},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2785, col: 11, offset: 88634},
+										pos: position{line: 2785, col: 11, offset: 88635},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2785, col: 11, offset: 88634},
+											pos: position{line: 2785, col: 11, offset: 88635},
 											expr: &charClassMatcher{
-												pos:        position{line: 2785, col: 11, offset: 88634},
+												pos:        position{line: 2785, col: 11, offset: 88635},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42865,32 +42865,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2788, col: 5, offset: 88692},
+									pos: position{line: 2788, col: 5, offset: 88693},
 									expr: &seqExpr{
-										pos: position{line: 2789, col: 9, offset: 88703},
+										pos: position{line: 2789, col: 9, offset: 88704},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2789, col: 9, offset: 88703},
+												pos:        position{line: 2789, col: 9, offset: 88704},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2790, col: 9, offset: 88752},
+												pos: position{line: 2790, col: 9, offset: 88753},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2794, col: 5, offset: 88832},
+									pos: position{line: 2794, col: 5, offset: 88833},
 									expr: &seqExpr{
-										pos: position{line: 2795, col: 9, offset: 88843},
+										pos: position{line: 2795, col: 9, offset: 88844},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2795, col: 9, offset: 88843},
+												pos: position{line: 2795, col: 9, offset: 88844},
 												expr: &charClassMatcher{
-													pos:        position{line: 2795, col: 9, offset: 88843},
+													pos:        position{line: 2795, col: 9, offset: 88844},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42899,13 +42899,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2795, col: 23, offset: 88857},
+												pos:        position{line: 2795, col: 23, offset: 88858},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2795, col: 27, offset: 88861},
+												pos:        position{line: 2795, col: 27, offset: 88862},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42918,12 +42918,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2890, col: 11, offset: 91461},
+						pos: position{line: 2890, col: 11, offset: 91462},
 						run: (*parser).callonQuotedTextElement18,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2890, col: 11, offset: 91461},
+							pos: position{line: 2890, col: 11, offset: 91462},
 							expr: &charClassMatcher{
-								pos:        position{line: 2890, col: 11, offset: 91461},
+								pos:        position{line: 2890, col: 11, offset: 91462},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42932,25 +42932,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1886, col: 7, offset: 60786},
+						pos:  position{line: 1886, col: 7, offset: 60787},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2514, col: 5, offset: 81088},
+						pos: position{line: 2514, col: 5, offset: 81089},
 						run: (*parser).callonQuotedTextElement22,
 						expr: &seqExpr{
-							pos: position{line: 2514, col: 5, offset: 81088},
+							pos: position{line: 2514, col: 5, offset: 81089},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81088},
+									pos:        position{line: 2514, col: 5, offset: 81089},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 10, offset: 81093},
+									pos: position{line: 2514, col: 10, offset: 81094},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 11, offset: 81094},
+										pos:        position{line: 2514, col: 11, offset: 81095},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42961,29 +42961,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81286},
+						pos: position{line: 2520, col: 5, offset: 81287},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81286},
+							pos: position{line: 2520, col: 5, offset: 81287},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2520, col: 5, offset: 81286},
+									pos: position{line: 2520, col: 5, offset: 81287},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&andCodeExpr{
-									pos: position{line: 2523, col: 5, offset: 81357},
+									pos: position{line: 2523, col: 5, offset: 81358},
 									run: (*parser).callonQuotedTextElement30,
 								},
 								&litMatcher{
-									pos:        position{line: 2527, col: 5, offset: 81482},
+									pos:        position{line: 2527, col: 5, offset: 81483},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2527, col: 9, offset: 81486},
+									pos: position{line: 2527, col: 9, offset: 81487},
 									expr: &charClassMatcher{
-										pos:        position{line: 2527, col: 10, offset: 81487},
+										pos:        position{line: 2527, col: 10, offset: 81488},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42994,27 +42994,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2803, col: 5, offset: 89054},
+						pos: position{line: 2803, col: 5, offset: 89055},
 						run: (*parser).callonQuotedTextElement34,
 						expr: &choiceExpr{
-							pos: position{line: 2804, col: 9, offset: 89064},
+							pos: position{line: 2804, col: 9, offset: 89065},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2804, col: 10, offset: 89065},
+									pos:        position{line: 2804, col: 10, offset: 89066},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2806, col: 13, offset: 89162},
+									pos: position{line: 2806, col: 13, offset: 89163},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2806, col: 13, offset: 89162},
+											pos: position{line: 2806, col: 13, offset: 89163},
 											run: (*parser).callonQuotedTextElement38,
 										},
 										&litMatcher{
-											pos:        position{line: 2809, col: 13, offset: 89262},
+											pos:        position{line: 2809, col: 13, offset: 89263},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43022,20 +43022,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2809, col: 19, offset: 89268},
+									pos:        position{line: 2809, col: 19, offset: 89269},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2812, col: 13, offset: 89306},
+									pos: position{line: 2812, col: 13, offset: 89307},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2812, col: 13, offset: 89306},
+											pos: position{line: 2812, col: 13, offset: 89307},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2815, col: 14, offset: 89399},
+											pos:        position{line: 2815, col: 14, offset: 89400},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43044,18 +43044,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2817, col: 12, offset: 89443},
+									pos: position{line: 2817, col: 12, offset: 89444},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2817, col: 12, offset: 89443},
+											pos:        position{line: 2817, col: 12, offset: 89444},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2817, col: 16, offset: 89447},
+											pos: position{line: 2817, col: 16, offset: 89448},
 											expr: &litMatcher{
-												pos:        position{line: 2817, col: 17, offset: 89448},
+												pos:        position{line: 2817, col: 17, offset: 89449},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -43067,35 +43067,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 656, col: 5, offset: 20754},
+						pos: position{line: 656, col: 5, offset: 20755},
 						run: (*parser).callonQuotedTextElement48,
 						expr: &seqExpr{
-							pos: position{line: 656, col: 5, offset: 20754},
+							pos: position{line: 656, col: 5, offset: 20755},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 656, col: 5, offset: 20754},
+									pos: position{line: 656, col: 5, offset: 20755},
 									run: (*parser).callonQuotedTextElement50,
 								},
 								&labeledExpr{
-									pos:   position{line: 659, col: 5, offset: 20826},
+									pos:   position{line: 659, col: 5, offset: 20827},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 659, col: 14, offset: 20835},
+										pos: position{line: 659, col: 14, offset: 20836},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 665, col: 5, offset: 20964},
+												pos: position{line: 665, col: 5, offset: 20965},
 												run: (*parser).callonQuotedTextElement53,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 5, offset: 20964},
+													pos: position{line: 665, col: 5, offset: 20965},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 5, offset: 20964},
+															pos:        position{line: 665, col: 5, offset: 20965},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 13, offset: 20972},
+															pos:   position{line: 665, col: 13, offset: 20973},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -43115,8 +43115,8 @@ var g = &grammar{
 																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 319, col: 29, offset: 9758},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -43127,7 +43127,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 32, offset: 20991},
+															pos:        position{line: 665, col: 32, offset: 20992},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -43136,19 +43136,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 672, col: 5, offset: 21232},
+												pos: position{line: 672, col: 5, offset: 21233},
 												run: (*parser).callonQuotedTextElement63,
 												expr: &seqExpr{
-													pos: position{line: 672, col: 5, offset: 21232},
+													pos: position{line: 672, col: 5, offset: 21233},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 672, col: 5, offset: 21232},
+															pos:        position{line: 672, col: 5, offset: 21233},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 672, col: 9, offset: 21236},
+															pos:   position{line: 672, col: 9, offset: 21237},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -43168,8 +43168,8 @@ var g = &grammar{
 																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 319, col: 29, offset: 9758},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -43180,7 +43180,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 672, col: 28, offset: 21255},
+															pos:        position{line: 672, col: 28, offset: 21256},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -43189,19 +43189,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 678, col: 25, offset: 21436},
+												pos: position{line: 678, col: 25, offset: 21437},
 												run: (*parser).callonQuotedTextElement73,
 												expr: &seqExpr{
-													pos: position{line: 678, col: 25, offset: 21436},
+													pos: position{line: 678, col: 25, offset: 21437},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 678, col: 25, offset: 21436},
+															pos:        position{line: 678, col: 25, offset: 21437},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 678, col: 37, offset: 21448},
+															pos:   position{line: 678, col: 37, offset: 21449},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -43221,8 +43221,8 @@ var g = &grammar{
 																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 319, col: 29, offset: 9758},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -43233,33 +43233,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 678, col: 56, offset: 21467},
+															pos:   position{line: 678, col: 56, offset: 21468},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 678, col: 62, offset: 21473},
+																pos: position{line: 678, col: 62, offset: 21474},
 																expr: &actionExpr{
-																	pos: position{line: 686, col: 17, offset: 21768},
+																	pos: position{line: 686, col: 17, offset: 21769},
 																	run: (*parser).callonQuotedTextElement84,
 																	expr: &seqExpr{
-																		pos: position{line: 686, col: 17, offset: 21768},
+																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 686, col: 17, offset: 21768},
+																				pos:        position{line: 686, col: 17, offset: 21769},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 686, col: 21, offset: 21772},
+																				pos:   position{line: 686, col: 21, offset: 21773},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 686, col: 28, offset: 21779},
+																					pos: position{line: 686, col: 28, offset: 21780},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 686, col: 28, offset: 21779},
+																							pos: position{line: 686, col: 28, offset: 21780},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 686, col: 28, offset: 21779},
+																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -43267,12 +43267,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 688, col: 9, offset: 21833},
+																							pos: position{line: 688, col: 9, offset: 21834},
 																							run: (*parser).callonQuotedTextElement91,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 688, col: 9, offset: 21833},
+																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 688, col: 9, offset: 21833},
+																									pos:        position{line: 688, col: 9, offset: 21834},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -43289,7 +43289,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 678, col: 78, offset: 21489},
+															pos:        position{line: 678, col: 78, offset: 21490},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -43298,19 +43298,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 682, col: 25, offset: 21607},
+												pos: position{line: 682, col: 25, offset: 21608},
 												run: (*parser).callonQuotedTextElement95,
 												expr: &seqExpr{
-													pos: position{line: 682, col: 25, offset: 21607},
+													pos: position{line: 682, col: 25, offset: 21608},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 682, col: 25, offset: 21607},
+															pos:        position{line: 682, col: 25, offset: 21608},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 682, col: 38, offset: 21620},
+															pos:   position{line: 682, col: 38, offset: 21621},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
@@ -43330,8 +43330,8 @@ var g = &grammar{
 																			pos: position{line: 319, col: 28, offset: 9757},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 319, col: 29, offset: 9758},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -43342,33 +43342,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 682, col: 57, offset: 21639},
+															pos:   position{line: 682, col: 57, offset: 21640},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 682, col: 63, offset: 21645},
+																pos: position{line: 682, col: 63, offset: 21646},
 																expr: &actionExpr{
-																	pos: position{line: 686, col: 17, offset: 21768},
+																	pos: position{line: 686, col: 17, offset: 21769},
 																	run: (*parser).callonQuotedTextElement106,
 																	expr: &seqExpr{
-																		pos: position{line: 686, col: 17, offset: 21768},
+																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 686, col: 17, offset: 21768},
+																				pos:        position{line: 686, col: 17, offset: 21769},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 686, col: 21, offset: 21772},
+																				pos:   position{line: 686, col: 21, offset: 21773},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 686, col: 28, offset: 21779},
+																					pos: position{line: 686, col: 28, offset: 21780},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 686, col: 28, offset: 21779},
+																							pos: position{line: 686, col: 28, offset: 21780},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 686, col: 28, offset: 21779},
+																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -43376,12 +43376,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 688, col: 9, offset: 21833},
+																							pos: position{line: 688, col: 9, offset: 21834},
 																							run: (*parser).callonQuotedTextElement113,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 688, col: 9, offset: 21833},
+																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 688, col: 9, offset: 21833},
+																									pos:        position{line: 688, col: 9, offset: 21834},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -43398,7 +43398,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 682, col: 79, offset: 21661},
+															pos:        position{line: 682, col: 79, offset: 21662},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -43413,31 +43413,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2899, col: 18, offset: 91671},
+						pos: position{line: 2899, col: 18, offset: 91672},
 						run: (*parser).callonQuotedTextElement117,
 						expr: &seqExpr{
-							pos: position{line: 2899, col: 18, offset: 91671},
+							pos: position{line: 2899, col: 18, offset: 91672},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonQuotedTextElement119,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43446,27 +43446,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 26, offset: 91679},
+									pos: position{line: 2899, col: 26, offset: 91680},
 									expr: &actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91571},
+										pos: position{line: 2895, col: 12, offset: 91572},
 										run: (*parser).callonQuotedTextElement125,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91572},
+											pos: position{line: 2895, col: 13, offset: 91573},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91572},
+													pos:        position{line: 2895, col: 13, offset: 91573},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91579},
+													pos:        position{line: 2895, col: 20, offset: 91580},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91588},
+													pos:        position{line: 2895, col: 29, offset: 91589},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43479,31 +43479,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1891, col: 7, offset: 60953},
+						pos:  position{line: 1891, col: 7, offset: 60954},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 61000},
+						pos:  position{line: 1892, col: 7, offset: 61001},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2483, col: 5, offset: 79917},
+						pos: position{line: 2483, col: 5, offset: 79918},
 						run: (*parser).callonQuotedTextElement132,
 						expr: &seqExpr{
-							pos: position{line: 2483, col: 5, offset: 79917},
+							pos: position{line: 2483, col: 5, offset: 79918},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2483, col: 5, offset: 79917},
+									pos: position{line: 2483, col: 5, offset: 79918},
 									run: (*parser).callonQuotedTextElement134,
 								},
 								&labeledExpr{
-									pos:   position{line: 2486, col: 5, offset: 79993},
+									pos:   position{line: 2486, col: 5, offset: 79994},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2487, col: 9, offset: 80011},
+										pos: position{line: 2487, col: 9, offset: 80012},
 										run: (*parser).callonQuotedTextElement136,
 										expr: &charClassMatcher{
-											pos:        position{line: 2487, col: 10, offset: 80012},
+											pos:        position{line: 2487, col: 10, offset: 80013},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43515,27 +43515,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1226, col: 23, offset: 37842},
+						pos: position{line: 1226, col: 23, offset: 37843},
 						run: (*parser).callonQuotedTextElement138,
 						expr: &seqExpr{
-							pos: position{line: 1226, col: 23, offset: 37842},
+							pos: position{line: 1226, col: 23, offset: 37843},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1224, col: 32, offset: 37810},
+									pos:        position{line: 1224, col: 32, offset: 37811},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1226, col: 51, offset: 37870},
+									pos:   position{line: 1226, col: 51, offset: 37871},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1226, col: 56, offset: 37875},
+										pos: position{line: 1226, col: 56, offset: 37876},
 										run: (*parser).callonQuotedTextElement142,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1226, col: 56, offset: 37875},
+											pos: position{line: 1226, col: 56, offset: 37876},
 											expr: &charClassMatcher{
-												pos:        position{line: 1226, col: 56, offset: 37875},
+												pos:        position{line: 1226, col: 56, offset: 37876},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -43545,7 +43545,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1224, col: 32, offset: 37810},
+									pos:        position{line: 1224, col: 32, offset: 37811},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -43554,10 +43554,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2825, col: 12, offset: 89708},
+						pos: position{line: 2825, col: 12, offset: 89709},
 						run: (*parser).callonQuotedTextElement146,
 						expr: &charClassMatcher{
-							pos:        position{line: 2825, col: 12, offset: 89708},
+							pos:        position{line: 2825, col: 12, offset: 89709},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43569,29 +43569,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1910, col: 1, offset: 61470},
+			pos:  position{line: 1910, col: 1, offset: 61471},
 			expr: &actionExpr{
-				pos: position{line: 1911, col: 5, offset: 61498},
+				pos: position{line: 1911, col: 5, offset: 61499},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1911, col: 5, offset: 61498},
+					pos: position{line: 1911, col: 5, offset: 61499},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1906, col: 38, offset: 61423},
+							pos:        position{line: 1906, col: 38, offset: 61424},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1912, col: 5, offset: 61537},
+							pos:   position{line: 1912, col: 5, offset: 61538},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1912, col: 15, offset: 61547},
+								pos:  position{line: 1912, col: 15, offset: 61548},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1908, col: 36, offset: 61464},
+							pos:        position{line: 1908, col: 36, offset: 61465},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43602,44 +43602,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1917, col: 1, offset: 61707},
+			pos:  position{line: 1917, col: 1, offset: 61708},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1917, col: 32, offset: 61738},
+				pos: position{line: 1917, col: 32, offset: 61739},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1917, col: 32, offset: 61738},
+					pos:  position{line: 1917, col: 32, offset: 61739},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1919, col: 1, offset: 61769},
+			pos:  position{line: 1919, col: 1, offset: 61770},
 			expr: &actionExpr{
-				pos: position{line: 1920, col: 5, offset: 61804},
+				pos: position{line: 1920, col: 5, offset: 61805},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1920, col: 5, offset: 61804},
+					pos: position{line: 1920, col: 5, offset: 61805},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61815},
+							pos: position{line: 1921, col: 5, offset: 61816},
 							expr: &litMatcher{
-								pos:        position{line: 1908, col: 36, offset: 61464},
+								pos:        position{line: 1908, col: 36, offset: 61465},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61852},
+							pos:   position{line: 1922, col: 5, offset: 61853},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1922, col: 14, offset: 61861},
+								pos:  position{line: 1922, col: 14, offset: 61862},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43649,29 +43649,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1947, col: 1, offset: 62541},
+			pos:  position{line: 1947, col: 1, offset: 62542},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62569},
+				pos: position{line: 1948, col: 5, offset: 62570},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62569},
+					pos: position{line: 1948, col: 5, offset: 62570},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1931, col: 5, offset: 62095},
+							pos:        position{line: 1931, col: 5, offset: 62096},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1932, col: 5, offset: 62104},
+							pos: position{line: 1932, col: 5, offset: 62105},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1936, col: 5, offset: 62222},
+							pos: position{line: 1936, col: 5, offset: 62223},
 							expr: &notExpr{
-								pos: position{line: 1936, col: 7, offset: 62224},
+								pos: position{line: 1936, col: 7, offset: 62225},
 								expr: &litMatcher{
-									pos:        position{line: 1936, col: 8, offset: 62225},
+									pos:        position{line: 1936, col: 8, offset: 62226},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43679,38 +43679,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62607},
+							pos:   position{line: 1949, col: 5, offset: 62608},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1949, col: 15, offset: 62617},
+								pos:  position{line: 1949, col: 15, offset: 62618},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1939, col: 5, offset: 62345},
+							pos:        position{line: 1939, col: 5, offset: 62346},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1940, col: 5, offset: 62354},
+							pos: position{line: 1940, col: 5, offset: 62355},
 							expr: &litMatcher{
-								pos:        position{line: 1940, col: 6, offset: 62355},
+								pos:        position{line: 1940, col: 6, offset: 62356},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62418},
+							pos: position{line: 1941, col: 5, offset: 62419},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1945, col: 5, offset: 62527},
+							pos: position{line: 1945, col: 5, offset: 62528},
 							expr: &notExpr{
-								pos: position{line: 1945, col: 7, offset: 62529},
+								pos: position{line: 1945, col: 7, offset: 62530},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88481},
+									pos:        position{line: 2776, col: 13, offset: 88482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43724,20 +43724,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1954, col: 1, offset: 62777},
+			pos:  position{line: 1954, col: 1, offset: 62778},
 			expr: &actionExpr{
-				pos: position{line: 1955, col: 5, offset: 62814},
+				pos: position{line: 1955, col: 5, offset: 62815},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1955, col: 5, offset: 62814},
+					pos: position{line: 1955, col: 5, offset: 62815},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1955, col: 5, offset: 62814},
+							pos: position{line: 1955, col: 5, offset: 62815},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43746,18 +43746,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1956, col: 5, offset: 62853},
+							pos:   position{line: 1956, col: 5, offset: 62854},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1956, col: 14, offset: 62862},
+								pos: position{line: 1956, col: 14, offset: 62863},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1956, col: 15, offset: 62863},
+									pos:  position{line: 1956, col: 15, offset: 62864},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1957, col: 5, offset: 62897},
+							pos: position{line: 1957, col: 5, offset: 62898},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43766,49 +43766,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1963, col: 1, offset: 63038},
+			pos:  position{line: 1963, col: 1, offset: 63039},
 			expr: &actionExpr{
-				pos: position{line: 1964, col: 5, offset: 63073},
+				pos: position{line: 1964, col: 5, offset: 63074},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1964, col: 5, offset: 63073},
+					pos: position{line: 1964, col: 5, offset: 63074},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1965, col: 5, offset: 63101},
+							pos: position{line: 1965, col: 5, offset: 63102},
 							expr: &seqExpr{
-								pos: position{line: 1939, col: 5, offset: 62345},
+								pos: position{line: 1939, col: 5, offset: 62346},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1939, col: 5, offset: 62345},
+										pos:        position{line: 1939, col: 5, offset: 62346},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1940, col: 5, offset: 62354},
+										pos: position{line: 1940, col: 5, offset: 62355},
 										expr: &litMatcher{
-											pos:        position{line: 1940, col: 6, offset: 62355},
+											pos:        position{line: 1940, col: 6, offset: 62356},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1941, col: 5, offset: 62418},
+										pos: position{line: 1941, col: 5, offset: 62419},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1945, col: 5, offset: 62527},
+										pos: position{line: 1945, col: 5, offset: 62528},
 										expr: &notExpr{
-											pos: position{line: 1945, col: 7, offset: 62529},
+											pos: position{line: 1945, col: 7, offset: 62530},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88481},
+												pos:        position{line: 2776, col: 13, offset: 88482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43820,10 +43820,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1966, col: 5, offset: 63138},
+							pos:   position{line: 1966, col: 5, offset: 63139},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1966, col: 14, offset: 63147},
+								pos:  position{line: 1966, col: 14, offset: 63148},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43833,35 +43833,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1971, col: 1, offset: 63235},
+			pos:  position{line: 1971, col: 1, offset: 63236},
 			expr: &choiceExpr{
-				pos: position{line: 1973, col: 5, offset: 63296},
+				pos: position{line: 1973, col: 5, offset: 63297},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1973, col: 5, offset: 63296},
+						pos: position{line: 1973, col: 5, offset: 63297},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1973, col: 5, offset: 63296},
+							pos: position{line: 1973, col: 5, offset: 63297},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1973, col: 5, offset: 63296},
+									pos:   position{line: 1973, col: 5, offset: 63297},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60643},
+										pos: position{line: 1879, col: 25, offset: 60644},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60643},
+											pos: position{line: 1879, col: 25, offset: 60644},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60643},
+													pos:        position{line: 1879, col: 25, offset: 60644},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60648},
+													pos: position{line: 1879, col: 30, offset: 60649},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60648},
+														pos:        position{line: 1879, col: 30, offset: 60649},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43872,21 +43872,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1973, col: 40, offset: 63331},
+									pos:        position{line: 1973, col: 40, offset: 63332},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1973, col: 45, offset: 63336},
+									pos:   position{line: 1973, col: 45, offset: 63337},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1973, col: 55, offset: 63346},
+										pos:  position{line: 1973, col: 55, offset: 63347},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1973, col: 84, offset: 63375},
+									pos:        position{line: 1973, col: 84, offset: 63376},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43895,21 +43895,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1977, col: 7, offset: 63539},
+						pos: position{line: 1977, col: 7, offset: 63540},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1977, col: 7, offset: 63539},
+							pos: position{line: 1977, col: 7, offset: 63540},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1977, col: 7, offset: 63539},
+									pos:   position{line: 1977, col: 7, offset: 63540},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43918,21 +43918,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1977, col: 42, offset: 63574},
+									pos:        position{line: 1977, col: 42, offset: 63575},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1977, col: 47, offset: 63579},
+									pos:   position{line: 1977, col: 47, offset: 63580},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1977, col: 57, offset: 63589},
+										pos:  position{line: 1977, col: 57, offset: 63590},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1977, col: 86, offset: 63618},
+									pos:        position{line: 1977, col: 86, offset: 63619},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43941,21 +43941,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63820},
+						pos: position{line: 1982, col: 7, offset: 63821},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63820},
+							pos: position{line: 1982, col: 7, offset: 63821},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63820},
+									pos:   position{line: 1982, col: 7, offset: 63821},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43964,21 +43964,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63855},
+									pos:        position{line: 1982, col: 42, offset: 63856},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 46, offset: 63859},
+									pos:   position{line: 1982, col: 46, offset: 63860},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 56, offset: 63869},
+										pos:  position{line: 1982, col: 56, offset: 63870},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 85, offset: 63898},
+									pos:        position{line: 1982, col: 85, offset: 63899},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43991,29 +43991,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1999, col: 1, offset: 64378},
+			pos:  position{line: 1999, col: 1, offset: 64379},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64408},
+				pos: position{line: 2000, col: 5, offset: 64409},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64408},
+					pos: position{line: 2000, col: 5, offset: 64409},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1995, col: 40, offset: 64329},
+							pos:        position{line: 1995, col: 40, offset: 64330},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2001, col: 5, offset: 64449},
+							pos:   position{line: 2001, col: 5, offset: 64450},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2001, col: 15, offset: 64459},
+								pos:  position{line: 2001, col: 15, offset: 64460},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1997, col: 38, offset: 64372},
+							pos:        position{line: 1997, col: 38, offset: 64373},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44024,44 +44024,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2006, col: 1, offset: 64624},
+			pos:  position{line: 2006, col: 1, offset: 64625},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2006, col: 34, offset: 64657},
+				pos: position{line: 2006, col: 34, offset: 64658},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2006, col: 34, offset: 64657},
+					pos:  position{line: 2006, col: 34, offset: 64658},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64689},
+			pos:  position{line: 2008, col: 1, offset: 64690},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64726},
+				pos: position{line: 2009, col: 5, offset: 64727},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64726},
+					pos: position{line: 2009, col: 5, offset: 64727},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64737},
+							pos: position{line: 2010, col: 5, offset: 64738},
 							expr: &litMatcher{
-								pos:        position{line: 1997, col: 38, offset: 64372},
+								pos:        position{line: 1997, col: 38, offset: 64373},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64776},
+							pos:   position{line: 2011, col: 5, offset: 64777},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64785},
+								pos:  position{line: 2011, col: 14, offset: 64786},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44071,29 +44071,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65469},
+			pos:  position{line: 2037, col: 1, offset: 65470},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65499},
+				pos: position{line: 2038, col: 5, offset: 65500},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65499},
+					pos: position{line: 2038, col: 5, offset: 65500},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65027},
+							pos:        position{line: 2020, col: 5, offset: 65028},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65036},
+							pos: position{line: 2021, col: 5, offset: 65037},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65156},
+							pos: position{line: 2025, col: 5, offset: 65157},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65158},
+								pos: position{line: 2025, col: 7, offset: 65159},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65159},
+									pos:        position{line: 2025, col: 8, offset: 65160},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44101,38 +44101,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65539},
+							pos:   position{line: 2039, col: 5, offset: 65540},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65549},
+								pos:  position{line: 2039, col: 15, offset: 65550},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65269},
+							pos:        position{line: 2029, col: 5, offset: 65270},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65278},
+							pos: position{line: 2030, col: 5, offset: 65279},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65279},
+								pos:        position{line: 2030, col: 6, offset: 65280},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65344},
+							pos: position{line: 2031, col: 5, offset: 65345},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65455},
+							pos: position{line: 2035, col: 5, offset: 65456},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65457},
+								pos: position{line: 2035, col: 7, offset: 65458},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88481},
+									pos:        position{line: 2776, col: 13, offset: 88482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44146,20 +44146,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65716},
+			pos:  position{line: 2044, col: 1, offset: 65717},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65754},
+				pos: position{line: 2045, col: 5, offset: 65755},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65754},
+					pos: position{line: 2045, col: 5, offset: 65755},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65754},
+							pos: position{line: 2045, col: 5, offset: 65755},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44168,18 +44168,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65793},
+							pos:   position{line: 2046, col: 5, offset: 65794},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65802},
+								pos: position{line: 2046, col: 14, offset: 65803},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65803},
+									pos:  position{line: 2046, col: 15, offset: 65804},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65838},
+							pos: position{line: 2047, col: 5, offset: 65839},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -44188,49 +44188,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 65979},
+			pos:  position{line: 2053, col: 1, offset: 65980},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66016},
+				pos: position{line: 2054, col: 5, offset: 66017},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66016},
+					pos: position{line: 2054, col: 5, offset: 66017},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66027},
+							pos: position{line: 2055, col: 5, offset: 66028},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65269},
+								pos: position{line: 2029, col: 5, offset: 65270},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65269},
+										pos:        position{line: 2029, col: 5, offset: 65270},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65278},
+										pos: position{line: 2030, col: 5, offset: 65279},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65279},
+											pos:        position{line: 2030, col: 6, offset: 65280},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65344},
+										pos: position{line: 2031, col: 5, offset: 65345},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65455},
+										pos: position{line: 2035, col: 5, offset: 65456},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65457},
+											pos: position{line: 2035, col: 7, offset: 65458},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88481},
+												pos:        position{line: 2776, col: 13, offset: 88482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44242,10 +44242,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66066},
+							pos:   position{line: 2056, col: 5, offset: 66067},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66075},
+								pos:  position{line: 2056, col: 14, offset: 66076},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44255,35 +44255,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66163},
+			pos:  position{line: 2061, col: 1, offset: 66164},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66228},
+				pos: position{line: 2063, col: 5, offset: 66229},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66228},
+						pos: position{line: 2063, col: 5, offset: 66229},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66228},
+							pos: position{line: 2063, col: 5, offset: 66229},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66228},
+									pos:   position{line: 2063, col: 5, offset: 66229},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60643},
+										pos: position{line: 1879, col: 25, offset: 60644},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60643},
+											pos: position{line: 1879, col: 25, offset: 60644},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60643},
+													pos:        position{line: 1879, col: 25, offset: 60644},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60648},
+													pos: position{line: 1879, col: 30, offset: 60649},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60648},
+														pos:        position{line: 1879, col: 30, offset: 60649},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44294,21 +44294,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66263},
+									pos:        position{line: 2063, col: 40, offset: 66264},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66268},
+									pos:   position{line: 2063, col: 45, offset: 66269},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66278},
+										pos:  position{line: 2063, col: 55, offset: 66279},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66309},
+									pos:        position{line: 2063, col: 86, offset: 66310},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44317,21 +44317,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66474},
+						pos: position{line: 2067, col: 7, offset: 66475},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66474},
+							pos: position{line: 2067, col: 7, offset: 66475},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66474},
+									pos:   position{line: 2067, col: 7, offset: 66475},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44340,21 +44340,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66509},
+									pos:        position{line: 2067, col: 42, offset: 66510},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66514},
+									pos:   position{line: 2067, col: 47, offset: 66515},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66524},
+										pos:  position{line: 2067, col: 57, offset: 66525},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66555},
+									pos:        position{line: 2067, col: 88, offset: 66556},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44363,21 +44363,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66796},
+						pos: position{line: 2072, col: 7, offset: 66797},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66796},
+							pos: position{line: 2072, col: 7, offset: 66797},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66796},
+									pos:   position{line: 2072, col: 7, offset: 66797},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44386,21 +44386,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66831},
+									pos:        position{line: 2072, col: 42, offset: 66832},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66835},
+									pos:   position{line: 2072, col: 46, offset: 66836},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66845},
+										pos:  position{line: 2072, col: 56, offset: 66846},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66876},
+									pos:        position{line: 2072, col: 87, offset: 66877},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44413,29 +44413,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67440},
+			pos:  position{line: 2089, col: 1, offset: 67441},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67473},
+				pos: position{line: 2090, col: 5, offset: 67474},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67473},
+					pos: position{line: 2090, col: 5, offset: 67474},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67388},
+							pos:        position{line: 2085, col: 43, offset: 67389},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67517},
+							pos:   position{line: 2091, col: 5, offset: 67518},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67527},
+								pos:  position{line: 2091, col: 15, offset: 67528},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67434},
+							pos:        position{line: 2087, col: 41, offset: 67435},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -44446,44 +44446,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67702},
+			pos:  position{line: 2096, col: 1, offset: 67703},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2096, col: 37, offset: 67738},
+				pos: position{line: 2096, col: 37, offset: 67739},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2096, col: 37, offset: 67738},
+					pos:  position{line: 2096, col: 37, offset: 67739},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2098, col: 1, offset: 67805},
+			pos:  position{line: 2098, col: 1, offset: 67806},
 			expr: &actionExpr{
-				pos: position{line: 2099, col: 5, offset: 67845},
+				pos: position{line: 2099, col: 5, offset: 67846},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2099, col: 5, offset: 67845},
+					pos: position{line: 2099, col: 5, offset: 67846},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2100, col: 5, offset: 67856},
+							pos: position{line: 2100, col: 5, offset: 67857},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67434},
+								pos:        position{line: 2087, col: 41, offset: 67435},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 67898},
+							pos:   position{line: 2101, col: 5, offset: 67899},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2101, col: 14, offset: 67907},
+								pos:  position{line: 2101, col: 14, offset: 67908},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44493,33 +44493,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2119, col: 1, offset: 68449},
+			pos:  position{line: 2119, col: 1, offset: 68450},
 			expr: &seqExpr{
-				pos: position{line: 2120, col: 5, offset: 68494},
+				pos: position{line: 2120, col: 5, offset: 68495},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2120, col: 5, offset: 68494},
+						pos: position{line: 2120, col: 5, offset: 68495},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2120, col: 6, offset: 68495},
+							pos:  position{line: 2120, col: 6, offset: 68496},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2121, col: 5, offset: 68514},
+						pos:        position{line: 2121, col: 5, offset: 68515},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2122, col: 5, offset: 68522},
+						pos: position{line: 2122, col: 5, offset: 68523},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2126, col: 5, offset: 68636},
+						pos: position{line: 2126, col: 5, offset: 68637},
 						expr: &notExpr{
-							pos: position{line: 2126, col: 7, offset: 68638},
+							pos: position{line: 2126, col: 7, offset: 68639},
 							expr: &charClassMatcher{
-								pos:        position{line: 2776, col: 13, offset: 88481},
+								pos:        position{line: 2776, col: 13, offset: 88482},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44532,29 +44532,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2129, col: 1, offset: 68655},
+			pos:  position{line: 2129, col: 1, offset: 68656},
 			expr: &actionExpr{
-				pos: position{line: 2130, col: 5, offset: 68688},
+				pos: position{line: 2130, col: 5, offset: 68689},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2130, col: 5, offset: 68688},
+					pos: position{line: 2130, col: 5, offset: 68689},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2112, col: 5, offset: 68251},
+							pos:        position{line: 2112, col: 5, offset: 68252},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2113, col: 5, offset: 68260},
+							pos: position{line: 2113, col: 5, offset: 68261},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2117, col: 5, offset: 68383},
+							pos: position{line: 2117, col: 5, offset: 68384},
 							expr: &notExpr{
-								pos: position{line: 2117, col: 7, offset: 68385},
+								pos: position{line: 2117, col: 7, offset: 68386},
 								expr: &litMatcher{
-									pos:        position{line: 2117, col: 8, offset: 68386},
+									pos:        position{line: 2117, col: 8, offset: 68387},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44562,15 +44562,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2131, col: 5, offset: 68732},
+							pos:   position{line: 2131, col: 5, offset: 68733},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2131, col: 15, offset: 68742},
+								pos:  position{line: 2131, col: 15, offset: 68743},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2132, col: 5, offset: 68781},
+							pos:  position{line: 2132, col: 5, offset: 68782},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44579,20 +44579,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2136, col: 1, offset: 68918},
+			pos:  position{line: 2136, col: 1, offset: 68919},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68959},
+				pos: position{line: 2137, col: 5, offset: 68960},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68959},
+					pos: position{line: 2137, col: 5, offset: 68960},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2137, col: 5, offset: 68959},
+							pos: position{line: 2137, col: 5, offset: 68960},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44601,18 +44601,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 68998},
+							pos:   position{line: 2138, col: 5, offset: 68999},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2138, col: 14, offset: 69007},
+								pos: position{line: 2138, col: 14, offset: 69008},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2138, col: 15, offset: 69008},
+									pos:  position{line: 2138, col: 15, offset: 69009},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2139, col: 5, offset: 69046},
+							pos: position{line: 2139, col: 5, offset: 69047},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44621,31 +44621,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2145, col: 1, offset: 69187},
+			pos:  position{line: 2145, col: 1, offset: 69188},
 			expr: &actionExpr{
-				pos: position{line: 2146, col: 5, offset: 69227},
+				pos: position{line: 2146, col: 5, offset: 69228},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2146, col: 5, offset: 69227},
+					pos: position{line: 2146, col: 5, offset: 69228},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2147, col: 5, offset: 69238},
+							pos: position{line: 2147, col: 5, offset: 69239},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2147, col: 6, offset: 69239},
+								pos:  position{line: 2147, col: 6, offset: 69240},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2148, col: 5, offset: 69280},
+							pos:   position{line: 2148, col: 5, offset: 69281},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2148, col: 14, offset: 69289},
+								pos:  position{line: 2148, col: 14, offset: 69290},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44655,35 +44655,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2153, col: 1, offset: 69377},
+			pos:  position{line: 2153, col: 1, offset: 69378},
 			expr: &choiceExpr{
-				pos: position{line: 2155, col: 5, offset: 69448},
+				pos: position{line: 2155, col: 5, offset: 69449},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2155, col: 5, offset: 69448},
+						pos: position{line: 2155, col: 5, offset: 69449},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2155, col: 5, offset: 69448},
+							pos: position{line: 2155, col: 5, offset: 69449},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2155, col: 5, offset: 69448},
+									pos:   position{line: 2155, col: 5, offset: 69449},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60643},
+										pos: position{line: 1879, col: 25, offset: 60644},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60643},
+											pos: position{line: 1879, col: 25, offset: 60644},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60643},
+													pos:        position{line: 1879, col: 25, offset: 60644},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60648},
+													pos: position{line: 1879, col: 30, offset: 60649},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60648},
+														pos:        position{line: 1879, col: 30, offset: 60649},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44694,21 +44694,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 40, offset: 69483},
+									pos:        position{line: 2155, col: 40, offset: 69484},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2155, col: 45, offset: 69488},
+									pos:   position{line: 2155, col: 45, offset: 69489},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2155, col: 55, offset: 69498},
+										pos:  position{line: 2155, col: 55, offset: 69499},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 89, offset: 69532},
+									pos:        position{line: 2155, col: 89, offset: 69533},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44717,21 +44717,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2159, col: 7, offset: 69701},
+						pos: position{line: 2159, col: 7, offset: 69702},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2159, col: 7, offset: 69701},
+							pos: position{line: 2159, col: 7, offset: 69702},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2159, col: 7, offset: 69701},
+									pos:   position{line: 2159, col: 7, offset: 69702},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44740,21 +44740,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 42, offset: 69736},
+									pos:        position{line: 2159, col: 42, offset: 69737},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2159, col: 47, offset: 69741},
+									pos:   position{line: 2159, col: 47, offset: 69742},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2159, col: 57, offset: 69751},
+										pos:  position{line: 2159, col: 57, offset: 69752},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 91, offset: 69785},
+									pos:        position{line: 2159, col: 91, offset: 69786},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44763,21 +44763,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2164, col: 7, offset: 69991},
+						pos: position{line: 2164, col: 7, offset: 69992},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2164, col: 7, offset: 69991},
+							pos: position{line: 2164, col: 7, offset: 69992},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2164, col: 7, offset: 69991},
+									pos:   position{line: 2164, col: 7, offset: 69992},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44786,21 +44786,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 42, offset: 70026},
+									pos:        position{line: 2164, col: 42, offset: 70027},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2164, col: 46, offset: 70030},
+									pos:   position{line: 2164, col: 46, offset: 70031},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2164, col: 56, offset: 70040},
+										pos:  position{line: 2164, col: 56, offset: 70041},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 90, offset: 70074},
+									pos:        position{line: 2164, col: 90, offset: 70075},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44813,29 +44813,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2181, col: 1, offset: 70559},
+			pos:  position{line: 2181, col: 1, offset: 70560},
 			expr: &actionExpr{
-				pos: position{line: 2182, col: 5, offset: 70589},
+				pos: position{line: 2182, col: 5, offset: 70590},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2182, col: 5, offset: 70589},
+					pos: position{line: 2182, col: 5, offset: 70590},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2177, col: 40, offset: 70510},
+							pos:        position{line: 2177, col: 40, offset: 70511},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2183, col: 5, offset: 70630},
+							pos:   position{line: 2183, col: 5, offset: 70631},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2183, col: 15, offset: 70640},
+								pos:  position{line: 2183, col: 15, offset: 70641},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2179, col: 38, offset: 70553},
+							pos:        position{line: 2179, col: 38, offset: 70554},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44846,44 +44846,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2188, col: 1, offset: 70806},
+			pos:  position{line: 2188, col: 1, offset: 70807},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2188, col: 34, offset: 70839},
+				pos: position{line: 2188, col: 34, offset: 70840},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2188, col: 34, offset: 70839},
+					pos:  position{line: 2188, col: 34, offset: 70840},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2190, col: 1, offset: 70870},
+			pos:  position{line: 2190, col: 1, offset: 70871},
 			expr: &actionExpr{
-				pos: position{line: 2191, col: 5, offset: 70939},
+				pos: position{line: 2191, col: 5, offset: 70940},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2191, col: 5, offset: 70939},
+					pos: position{line: 2191, col: 5, offset: 70940},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70950},
+							pos: position{line: 2192, col: 5, offset: 70951},
 							expr: &litMatcher{
-								pos:        position{line: 2179, col: 38, offset: 70553},
+								pos:        position{line: 2179, col: 38, offset: 70554},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70989},
+							pos:   position{line: 2193, col: 5, offset: 70990},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2193, col: 14, offset: 70998},
+								pos:  position{line: 2193, col: 14, offset: 70999},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44893,29 +44893,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2218, col: 1, offset: 71680},
+			pos:  position{line: 2218, col: 1, offset: 71681},
 			expr: &actionExpr{
-				pos: position{line: 2219, col: 5, offset: 71710},
+				pos: position{line: 2219, col: 5, offset: 71711},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2219, col: 5, offset: 71710},
+					pos: position{line: 2219, col: 5, offset: 71711},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2202, col: 5, offset: 71246},
+							pos:        position{line: 2202, col: 5, offset: 71247},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2203, col: 5, offset: 71255},
+							pos: position{line: 2203, col: 5, offset: 71256},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2207, col: 5, offset: 71375},
+							pos: position{line: 2207, col: 5, offset: 71376},
 							expr: &notExpr{
-								pos: position{line: 2207, col: 7, offset: 71377},
+								pos: position{line: 2207, col: 7, offset: 71378},
 								expr: &litMatcher{
-									pos:        position{line: 2207, col: 8, offset: 71378},
+									pos:        position{line: 2207, col: 8, offset: 71379},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44923,38 +44923,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2220, col: 5, offset: 71750},
+							pos:   position{line: 2220, col: 5, offset: 71751},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2220, col: 15, offset: 71760},
+								pos:  position{line: 2220, col: 15, offset: 71761},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2210, col: 5, offset: 71483},
+							pos:        position{line: 2210, col: 5, offset: 71484},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2211, col: 5, offset: 71491},
+							pos: position{line: 2211, col: 5, offset: 71492},
 							expr: &litMatcher{
-								pos:        position{line: 2211, col: 6, offset: 71492},
+								pos:        position{line: 2211, col: 6, offset: 71493},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2212, col: 5, offset: 71555},
+							pos: position{line: 2212, col: 5, offset: 71556},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2216, col: 5, offset: 71666},
+							pos: position{line: 2216, col: 5, offset: 71667},
 							expr: &notExpr{
-								pos: position{line: 2216, col: 7, offset: 71668},
+								pos: position{line: 2216, col: 7, offset: 71669},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88481},
+									pos:        position{line: 2776, col: 13, offset: 88482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44968,20 +44968,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2225, col: 1, offset: 71927},
+			pos:  position{line: 2225, col: 1, offset: 71928},
 			expr: &actionExpr{
-				pos: position{line: 2226, col: 5, offset: 71965},
+				pos: position{line: 2226, col: 5, offset: 71966},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2226, col: 5, offset: 71965},
+					pos: position{line: 2226, col: 5, offset: 71966},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2226, col: 5, offset: 71965},
+							pos: position{line: 2226, col: 5, offset: 71966},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91400},
+								pos: position{line: 2886, col: 10, offset: 91401},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91400},
+									pos:        position{line: 2886, col: 10, offset: 91401},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44990,18 +44990,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2227, col: 5, offset: 72004},
+							pos:   position{line: 2227, col: 5, offset: 72005},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2227, col: 14, offset: 72013},
+								pos: position{line: 2227, col: 14, offset: 72014},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2227, col: 15, offset: 72014},
+									pos:  position{line: 2227, col: 15, offset: 72015},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2228, col: 5, offset: 72050},
+							pos: position{line: 2228, col: 5, offset: 72051},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -45010,49 +45010,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2234, col: 1, offset: 72191},
+			pos:  position{line: 2234, col: 1, offset: 72192},
 			expr: &actionExpr{
-				pos: position{line: 2235, col: 5, offset: 72228},
+				pos: position{line: 2235, col: 5, offset: 72229},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2235, col: 5, offset: 72228},
+					pos: position{line: 2235, col: 5, offset: 72229},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2236, col: 5, offset: 72239},
+							pos: position{line: 2236, col: 5, offset: 72240},
 							expr: &seqExpr{
-								pos: position{line: 2210, col: 5, offset: 71483},
+								pos: position{line: 2210, col: 5, offset: 71484},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2210, col: 5, offset: 71483},
+										pos:        position{line: 2210, col: 5, offset: 71484},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2211, col: 5, offset: 71491},
+										pos: position{line: 2211, col: 5, offset: 71492},
 										expr: &litMatcher{
-											pos:        position{line: 2211, col: 6, offset: 71492},
+											pos:        position{line: 2211, col: 6, offset: 71493},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2212, col: 5, offset: 71555},
+										pos: position{line: 2212, col: 5, offset: 71556},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2216, col: 5, offset: 71666},
+										pos: position{line: 2216, col: 5, offset: 71667},
 										expr: &notExpr{
-											pos: position{line: 2216, col: 7, offset: 71668},
+											pos: position{line: 2216, col: 7, offset: 71669},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88481},
+												pos:        position{line: 2776, col: 13, offset: 88482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45064,10 +45064,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 72278},
+							pos:   position{line: 2237, col: 5, offset: 72279},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2237, col: 14, offset: 72287},
+								pos:  position{line: 2237, col: 14, offset: 72288},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45077,35 +45077,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2242, col: 1, offset: 72375},
+			pos:  position{line: 2242, col: 1, offset: 72376},
 			expr: &choiceExpr{
-				pos: position{line: 2244, col: 5, offset: 72439},
+				pos: position{line: 2244, col: 5, offset: 72440},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2244, col: 5, offset: 72439},
+						pos: position{line: 2244, col: 5, offset: 72440},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2244, col: 5, offset: 72439},
+							pos: position{line: 2244, col: 5, offset: 72440},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2244, col: 5, offset: 72439},
+									pos:   position{line: 2244, col: 5, offset: 72440},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60643},
+										pos: position{line: 1879, col: 25, offset: 60644},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60643},
+											pos: position{line: 1879, col: 25, offset: 60644},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60643},
+													pos:        position{line: 1879, col: 25, offset: 60644},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60648},
+													pos: position{line: 1879, col: 30, offset: 60649},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60648},
+														pos:        position{line: 1879, col: 30, offset: 60649},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45116,21 +45116,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 40, offset: 72474},
+									pos:        position{line: 2244, col: 40, offset: 72475},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2244, col: 45, offset: 72479},
+									pos:   position{line: 2244, col: 45, offset: 72480},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2244, col: 55, offset: 72489},
+										pos:  position{line: 2244, col: 55, offset: 72490},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 86, offset: 72520},
+									pos:        position{line: 2244, col: 86, offset: 72521},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45139,21 +45139,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 7, offset: 72685},
+						pos: position{line: 2248, col: 7, offset: 72686},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2248, col: 7, offset: 72685},
+							pos: position{line: 2248, col: 7, offset: 72686},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2248, col: 7, offset: 72685},
+									pos:   position{line: 2248, col: 7, offset: 72686},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45162,21 +45162,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 42, offset: 72720},
+									pos:        position{line: 2248, col: 42, offset: 72721},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2248, col: 47, offset: 72725},
+									pos:   position{line: 2248, col: 47, offset: 72726},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2248, col: 57, offset: 72735},
+										pos:  position{line: 2248, col: 57, offset: 72736},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 88, offset: 72766},
+									pos:        position{line: 2248, col: 88, offset: 72767},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45185,21 +45185,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2253, col: 7, offset: 72969},
+						pos: position{line: 2253, col: 7, offset: 72970},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2253, col: 7, offset: 72969},
+							pos: position{line: 2253, col: 7, offset: 72970},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2253, col: 7, offset: 72969},
+									pos:   position{line: 2253, col: 7, offset: 72970},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60570},
+										pos: position{line: 1875, col: 25, offset: 60571},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60570},
+											pos: position{line: 1875, col: 25, offset: 60571},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60570},
+												pos:        position{line: 1875, col: 25, offset: 60571},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45208,21 +45208,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 42, offset: 73004},
+									pos:        position{line: 2253, col: 42, offset: 73005},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2253, col: 46, offset: 73008},
+									pos:   position{line: 2253, col: 46, offset: 73009},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2253, col: 56, offset: 73018},
+										pos:  position{line: 2253, col: 56, offset: 73019},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 87, offset: 73049},
+									pos:        position{line: 2253, col: 87, offset: 73050},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45235,29 +45235,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2260, col: 1, offset: 73316},
+			pos:  position{line: 2260, col: 1, offset: 73317},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73338},
+				pos: position{line: 2261, col: 5, offset: 73339},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73338},
+					pos: position{line: 2261, col: 5, offset: 73339},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73553},
+							pos:        position{line: 2267, col: 27, offset: 73554},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2262, col: 5, offset: 73365},
+							pos:   position{line: 2262, col: 5, offset: 73366},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2262, col: 14, offset: 73374},
+								pos:  position{line: 2262, col: 14, offset: 73375},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73553},
+							pos:        position{line: 2267, col: 27, offset: 73554},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45268,43 +45268,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2269, col: 1, offset: 73558},
+			pos:  position{line: 2269, col: 1, offset: 73559},
 			expr: &choiceExpr{
-				pos: position{line: 2269, col: 25, offset: 73582},
+				pos: position{line: 2269, col: 25, offset: 73583},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2269, col: 25, offset: 73582},
+						pos:  position{line: 2269, col: 25, offset: 73583},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 21, offset: 73634},
+						pos: position{line: 2271, col: 21, offset: 73635},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2271, col: 21, offset: 73634},
+							pos:   position{line: 2271, col: 21, offset: 73635},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2271, col: 29, offset: 73642},
+								pos: position{line: 2271, col: 29, offset: 73643},
 								expr: &choiceExpr{
-									pos: position{line: 2271, col: 30, offset: 73643},
+									pos: position{line: 2271, col: 30, offset: 73644},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 5, offset: 79917},
+												pos: position{line: 2483, col: 5, offset: 79918},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2483, col: 5, offset: 79917},
+														pos: position{line: 2483, col: 5, offset: 79918},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2486, col: 5, offset: 79993},
+														pos:   position{line: 2486, col: 5, offset: 79994},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2487, col: 9, offset: 80011},
+															pos: position{line: 2487, col: 9, offset: 80012},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2487, col: 10, offset: 80012},
+																pos:        position{line: 2487, col: 10, offset: 80013},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45316,7 +45316,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2271, col: 49, offset: 73662},
+											pos:        position{line: 2271, col: 49, offset: 73663},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -45332,23 +45332,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2275, col: 1, offset: 73719},
+			pos:  position{line: 2275, col: 1, offset: 73720},
 			expr: &actionExpr{
-				pos: position{line: 2277, col: 5, offset: 73786},
+				pos: position{line: 2277, col: 5, offset: 73787},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2277, col: 5, offset: 73786},
+					pos: position{line: 2277, col: 5, offset: 73787},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2277, col: 5, offset: 73786},
+							pos:   position{line: 2277, col: 5, offset: 73787},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1875, col: 25, offset: 60570},
+								pos: position{line: 1875, col: 25, offset: 60571},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1875, col: 25, offset: 60570},
+									pos: position{line: 1875, col: 25, offset: 60571},
 									expr: &litMatcher{
-										pos:        position{line: 1875, col: 25, offset: 60570},
+										pos:        position{line: 1875, col: 25, offset: 60571},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45357,21 +45357,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73553},
+							pos:        position{line: 2267, col: 27, offset: 73554},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2279, col: 5, offset: 73854},
+							pos:   position{line: 2279, col: 5, offset: 73855},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2279, col: 14, offset: 73863},
+								pos:  position{line: 2279, col: 14, offset: 73864},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73553},
+							pos:        position{line: 2267, col: 27, offset: 73554},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45382,29 +45382,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2287, col: 1, offset: 74126},
+			pos:  position{line: 2287, col: 1, offset: 74127},
 			expr: &actionExpr{
-				pos: position{line: 2288, col: 5, offset: 74150},
+				pos: position{line: 2288, col: 5, offset: 74151},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2288, col: 5, offset: 74150},
+					pos: position{line: 2288, col: 5, offset: 74151},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74377},
+							pos:        position{line: 2294, col: 29, offset: 74378},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2289, col: 5, offset: 74180},
+							pos:   position{line: 2289, col: 5, offset: 74181},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2289, col: 14, offset: 74189},
+								pos:  position{line: 2289, col: 14, offset: 74190},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74377},
+							pos:        position{line: 2294, col: 29, offset: 74378},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45415,43 +45415,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2296, col: 1, offset: 74382},
+			pos:  position{line: 2296, col: 1, offset: 74383},
 			expr: &choiceExpr{
-				pos: position{line: 2296, col: 27, offset: 74408},
+				pos: position{line: 2296, col: 27, offset: 74409},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2296, col: 27, offset: 74408},
+						pos:  position{line: 2296, col: 27, offset: 74409},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2298, col: 23, offset: 74464},
+						pos: position{line: 2298, col: 23, offset: 74465},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2298, col: 23, offset: 74464},
+							pos:   position{line: 2298, col: 23, offset: 74465},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2298, col: 31, offset: 74472},
+								pos: position{line: 2298, col: 31, offset: 74473},
 								expr: &choiceExpr{
-									pos: position{line: 2298, col: 32, offset: 74473},
+									pos: position{line: 2298, col: 32, offset: 74474},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 5, offset: 79917},
+												pos: position{line: 2483, col: 5, offset: 79918},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2483, col: 5, offset: 79917},
+														pos: position{line: 2483, col: 5, offset: 79918},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2486, col: 5, offset: 79993},
+														pos:   position{line: 2486, col: 5, offset: 79994},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2487, col: 9, offset: 80011},
+															pos: position{line: 2487, col: 9, offset: 80012},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2487, col: 10, offset: 80012},
+																pos:        position{line: 2487, col: 10, offset: 80013},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45463,7 +45463,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2298, col: 51, offset: 74492},
+											pos:        position{line: 2298, col: 51, offset: 74493},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -45479,23 +45479,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2302, col: 1, offset: 74549},
+			pos:  position{line: 2302, col: 1, offset: 74550},
 			expr: &actionExpr{
-				pos: position{line: 2304, col: 5, offset: 74621},
+				pos: position{line: 2304, col: 5, offset: 74622},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2304, col: 5, offset: 74621},
+					pos: position{line: 2304, col: 5, offset: 74622},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74621},
+							pos:   position{line: 2304, col: 5, offset: 74622},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1875, col: 25, offset: 60570},
+								pos: position{line: 1875, col: 25, offset: 60571},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1875, col: 25, offset: 60570},
+									pos: position{line: 1875, col: 25, offset: 60571},
 									expr: &litMatcher{
-										pos:        position{line: 1875, col: 25, offset: 60570},
+										pos:        position{line: 1875, col: 25, offset: 60571},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45504,21 +45504,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74377},
+							pos:        position{line: 2294, col: 29, offset: 74378},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74691},
+							pos:   position{line: 2306, col: 5, offset: 74692},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 14, offset: 74700},
+								pos:  position{line: 2306, col: 14, offset: 74701},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74377},
+							pos:        position{line: 2294, col: 29, offset: 74378},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45529,27 +45529,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2315, col: 1, offset: 75169},
+			pos:  position{line: 2315, col: 1, offset: 75170},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 75185},
+				pos: position{line: 2316, col: 5, offset: 75186},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 75185},
+					pos: position{line: 2316, col: 5, offset: 75186},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2316, col: 5, offset: 75185},
+							pos: position{line: 2316, col: 5, offset: 75186},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 75248},
+							pos:   position{line: 2319, col: 5, offset: 75249},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2319, col: 12, offset: 75255},
+								pos: position{line: 2319, col: 12, offset: 75256},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2319, col: 12, offset: 75255},
+									pos: position{line: 2319, col: 12, offset: 75256},
 									expr: &litMatcher{
-										pos:        position{line: 2319, col: 13, offset: 75256},
+										pos:        position{line: 2319, col: 13, offset: 75257},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45558,16 +45558,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2323, col: 5, offset: 75364},
+							pos: position{line: 2323, col: 5, offset: 75365},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2890, col: 11, offset: 91461},
+							pos: position{line: 2890, col: 11, offset: 91462},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2890, col: 11, offset: 91461},
+								pos: position{line: 2890, col: 11, offset: 91462},
 								expr: &charClassMatcher{
-									pos:        position{line: 2890, col: 11, offset: 91461},
+									pos:        position{line: 2890, col: 11, offset: 91462},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45576,36 +45576,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 12, offset: 75523},
+							pos:   position{line: 2327, col: 12, offset: 75524},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2327, col: 19, offset: 75530},
+								pos:  position{line: 2327, col: 19, offset: 75531},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45614,9 +45614,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -45627,24 +45627,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2331, col: 1, offset: 75626},
+			pos:  position{line: 2331, col: 1, offset: 75627},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75647},
+				pos: position{line: 2332, col: 5, offset: 75648},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75647},
+					pos: position{line: 2332, col: 5, offset: 75648},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2332, col: 5, offset: 75647},
+							pos: position{line: 2332, col: 5, offset: 75648},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2337, col: 5, offset: 75762},
+							pos:   position{line: 2337, col: 5, offset: 75763},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2337, col: 14, offset: 75771},
+								pos: position{line: 2337, col: 14, offset: 75772},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2337, col: 15, offset: 75772},
+									pos:  position{line: 2337, col: 15, offset: 75773},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45655,38 +45655,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2341, col: 1, offset: 75853},
+			pos:  position{line: 2341, col: 1, offset: 75854},
 			expr: &actionExpr{
-				pos: position{line: 2342, col: 5, offset: 75880},
+				pos: position{line: 2342, col: 5, offset: 75881},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2342, col: 5, offset: 75880},
+					pos: position{line: 2342, col: 5, offset: 75881},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2342, col: 5, offset: 75880},
+							pos: position{line: 2342, col: 5, offset: 75881},
 							expr: &choiceExpr{
-								pos: position{line: 2908, col: 8, offset: 91798},
+								pos: position{line: 2908, col: 8, offset: 91799},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91571},
+										pos: position{line: 2895, col: 12, offset: 91572},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91572},
+											pos: position{line: 2895, col: 13, offset: 91573},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91572},
+													pos:        position{line: 2895, col: 13, offset: 91573},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91579},
+													pos:        position{line: 2895, col: 20, offset: 91580},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91588},
+													pos:        position{line: 2895, col: 29, offset: 91589},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45695,36 +45695,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2905, col: 8, offset: 91748},
+										pos: position{line: 2905, col: 8, offset: 91749},
 										expr: &anyMatcher{
-											line: 2905, col: 9, offset: 91749,
+											line: 2905, col: 9, offset: 91750,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75889},
+							pos:   position{line: 2343, col: 5, offset: 75890},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2344, col: 9, offset: 75907},
+								pos: position{line: 2344, col: 9, offset: 75908},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88628},
+										pos: position{line: 2785, col: 5, offset: 88629},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88628},
+											pos: position{line: 2785, col: 5, offset: 88629},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88628},
+													pos:   position{line: 2785, col: 5, offset: 88629},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88634},
+														pos: position{line: 2785, col: 11, offset: 88635},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88634},
+															pos: position{line: 2785, col: 11, offset: 88635},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88634},
+																pos:        position{line: 2785, col: 11, offset: 88635},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45734,32 +45734,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88692},
+													pos: position{line: 2788, col: 5, offset: 88693},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88703},
+														pos: position{line: 2789, col: 9, offset: 88704},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88703},
+																pos:        position{line: 2789, col: 9, offset: 88704},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88752},
+																pos: position{line: 2790, col: 9, offset: 88753},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88832},
+													pos: position{line: 2794, col: 5, offset: 88833},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88843},
+														pos: position{line: 2795, col: 9, offset: 88844},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88843},
+																pos: position{line: 2795, col: 9, offset: 88844},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88843},
+																	pos:        position{line: 2795, col: 9, offset: 88844},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45768,13 +45768,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88857},
+																pos:        position{line: 2795, col: 23, offset: 88858},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88861},
+																pos:        position{line: 2795, col: 27, offset: 88862},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45787,12 +45787,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 11, offset: 91461},
+										pos: position{line: 2890, col: 11, offset: 91462},
 										run: (*parser).callonSectionTitleElement30,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 11, offset: 91461},
+											pos: position{line: 2890, col: 11, offset: 91462},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 11, offset: 91461},
+												pos:        position{line: 2890, col: 11, offset: 91462},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45801,21 +45801,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81088},
+										pos: position{line: 2514, col: 5, offset: 81089},
 										run: (*parser).callonSectionTitleElement33,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81088},
+											pos: position{line: 2514, col: 5, offset: 81089},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81088},
+													pos:        position{line: 2514, col: 5, offset: 81089},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 10, offset: 81093},
+													pos: position{line: 2514, col: 10, offset: 81094},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 11, offset: 81094},
+														pos:        position{line: 2514, col: 11, offset: 81095},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45826,29 +45826,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81286},
+										pos: position{line: 2520, col: 5, offset: 81287},
 										run: (*parser).callonSectionTitleElement38,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81286},
+											pos: position{line: 2520, col: 5, offset: 81287},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2520, col: 5, offset: 81286},
+													pos: position{line: 2520, col: 5, offset: 81287},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&andCodeExpr{
-													pos: position{line: 2523, col: 5, offset: 81357},
+													pos: position{line: 2523, col: 5, offset: 81358},
 													run: (*parser).callonSectionTitleElement41,
 												},
 												&litMatcher{
-													pos:        position{line: 2527, col: 5, offset: 81482},
+													pos:        position{line: 2527, col: 5, offset: 81483},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2527, col: 9, offset: 81486},
+													pos: position{line: 2527, col: 9, offset: 81487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2527, col: 10, offset: 81487},
+														pos:        position{line: 2527, col: 10, offset: 81488},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45859,31 +45859,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2347, col: 11, offset: 75972},
+										pos:  position{line: 2347, col: 11, offset: 75973},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89054},
+										pos: position{line: 2803, col: 5, offset: 89055},
 										run: (*parser).callonSectionTitleElement46,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89064},
+											pos: position{line: 2804, col: 9, offset: 89065},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89065},
+													pos:        position{line: 2804, col: 10, offset: 89066},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89162},
+													pos: position{line: 2806, col: 13, offset: 89163},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89162},
+															pos: position{line: 2806, col: 13, offset: 89163},
 															run: (*parser).callonSectionTitleElement50,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89262},
+															pos:        position{line: 2809, col: 13, offset: 89263},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45891,20 +45891,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89268},
+													pos:        position{line: 2809, col: 19, offset: 89269},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89306},
+													pos: position{line: 2812, col: 13, offset: 89307},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89306},
+															pos: position{line: 2812, col: 13, offset: 89307},
 															run: (*parser).callonSectionTitleElement54,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89399},
+															pos:        position{line: 2815, col: 14, offset: 89400},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45913,18 +45913,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89443},
+													pos: position{line: 2817, col: 12, offset: 89444},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89443},
+															pos:        position{line: 2817, col: 12, offset: 89444},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89447},
+															pos: position{line: 2817, col: 16, offset: 89448},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89448},
+																pos:        position{line: 2817, col: 17, offset: 89449},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45936,35 +45936,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2349, col: 11, offset: 76045},
+										pos:  position{line: 2349, col: 11, offset: 76046},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2350, col: 11, offset: 76061},
+										pos:  position{line: 2350, col: 11, offset: 76062},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2351, col: 11, offset: 76089},
+										pos:  position{line: 2351, col: 11, offset: 76090},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79917},
+										pos: position{line: 2483, col: 5, offset: 79918},
 										run: (*parser).callonSectionTitleElement63,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79917},
+													pos: position{line: 2483, col: 5, offset: 79918},
 													run: (*parser).callonSectionTitleElement65,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79993},
+													pos:   position{line: 2486, col: 5, offset: 79994},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80011},
+														pos: position{line: 2487, col: 9, offset: 80012},
 														run: (*parser).callonSectionTitleElement67,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80012},
+															pos:        position{line: 2487, col: 10, offset: 80013},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45976,39 +45976,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2353, col: 11, offset: 76174},
+										pos:  position{line: 2353, col: 11, offset: 76175},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 656, col: 5, offset: 20754},
+										pos: position{line: 656, col: 5, offset: 20755},
 										run: (*parser).callonSectionTitleElement70,
 										expr: &seqExpr{
-											pos: position{line: 656, col: 5, offset: 20754},
+											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 656, col: 5, offset: 20754},
+													pos: position{line: 656, col: 5, offset: 20755},
 													run: (*parser).callonSectionTitleElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 659, col: 5, offset: 20826},
+													pos:   position{line: 659, col: 5, offset: 20827},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 659, col: 14, offset: 20835},
+														pos: position{line: 659, col: 14, offset: 20836},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 665, col: 5, offset: 20964},
+																pos: position{line: 665, col: 5, offset: 20965},
 																run: (*parser).callonSectionTitleElement75,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 5, offset: 20964},
+																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 5, offset: 20964},
+																			pos:        position{line: 665, col: 5, offset: 20965},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 13, offset: 20972},
+																			pos:   position{line: 665, col: 13, offset: 20973},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -46028,8 +46028,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -46040,7 +46040,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 32, offset: 20991},
+																			pos:        position{line: 665, col: 32, offset: 20992},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -46049,19 +46049,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 672, col: 5, offset: 21232},
+																pos: position{line: 672, col: 5, offset: 21233},
 																run: (*parser).callonSectionTitleElement85,
 																expr: &seqExpr{
-																	pos: position{line: 672, col: 5, offset: 21232},
+																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 672, col: 5, offset: 21232},
+																			pos:        position{line: 672, col: 5, offset: 21233},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 9, offset: 21236},
+																			pos:   position{line: 672, col: 9, offset: 21237},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -46081,8 +46081,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -46093,7 +46093,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 672, col: 28, offset: 21255},
+																			pos:        position{line: 672, col: 28, offset: 21256},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -46102,19 +46102,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 678, col: 25, offset: 21436},
+																pos: position{line: 678, col: 25, offset: 21437},
 																run: (*parser).callonSectionTitleElement95,
 																expr: &seqExpr{
-																	pos: position{line: 678, col: 25, offset: 21436},
+																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 678, col: 25, offset: 21436},
+																			pos:        position{line: 678, col: 25, offset: 21437},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 37, offset: 21448},
+																			pos:   position{line: 678, col: 37, offset: 21449},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -46134,8 +46134,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -46146,33 +46146,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 678, col: 56, offset: 21467},
+																			pos:   position{line: 678, col: 56, offset: 21468},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 678, col: 62, offset: 21473},
+																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonSectionTitleElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -46180,12 +46180,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonSectionTitleElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -46202,7 +46202,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 678, col: 78, offset: 21489},
+																			pos:        position{line: 678, col: 78, offset: 21490},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -46211,19 +46211,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 682, col: 25, offset: 21607},
+																pos: position{line: 682, col: 25, offset: 21608},
 																run: (*parser).callonSectionTitleElement117,
 																expr: &seqExpr{
-																	pos: position{line: 682, col: 25, offset: 21607},
+																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 682, col: 25, offset: 21607},
+																			pos:        position{line: 682, col: 25, offset: 21608},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 38, offset: 21620},
+																			pos:   position{line: 682, col: 38, offset: 21621},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
@@ -46243,8 +46243,8 @@ var g = &grammar{
 																							pos: position{line: 319, col: 28, offset: 9757},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 319, col: 29, offset: 9758},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -46255,33 +46255,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 682, col: 57, offset: 21639},
+																			pos:   position{line: 682, col: 57, offset: 21640},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 682, col: 63, offset: 21645},
+																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
-																					pos: position{line: 686, col: 17, offset: 21768},
+																					pos: position{line: 686, col: 17, offset: 21769},
 																					run: (*parser).callonSectionTitleElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 686, col: 17, offset: 21768},
+																								pos:        position{line: 686, col: 17, offset: 21769},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 686, col: 21, offset: 21772},
+																								pos:   position{line: 686, col: 21, offset: 21773},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 686, col: 28, offset: 21779},
+																									pos: position{line: 686, col: 28, offset: 21780},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 686, col: 28, offset: 21779},
+																											pos: position{line: 686, col: 28, offset: 21780},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 686, col: 28, offset: 21779},
+																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -46289,12 +46289,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 688, col: 9, offset: 21833},
+																											pos: position{line: 688, col: 9, offset: 21834},
 																											run: (*parser).callonSectionTitleElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 688, col: 9, offset: 21833},
+																													pos:        position{line: 688, col: 9, offset: 21834},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -46311,7 +46311,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 682, col: 79, offset: 21661},
+																			pos:        position{line: 682, col: 79, offset: 21662},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -46326,27 +46326,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1226, col: 23, offset: 37842},
+										pos: position{line: 1226, col: 23, offset: 37843},
 										run: (*parser).callonSectionTitleElement139,
 										expr: &seqExpr{
-											pos: position{line: 1226, col: 23, offset: 37842},
+											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1224, col: 32, offset: 37810},
+													pos:        position{line: 1224, col: 32, offset: 37811},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1226, col: 51, offset: 37870},
+													pos:   position{line: 1226, col: 51, offset: 37871},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1226, col: 56, offset: 37875},
+														pos: position{line: 1226, col: 56, offset: 37876},
 														run: (*parser).callonSectionTitleElement143,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1226, col: 56, offset: 37875},
+															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
-																pos:        position{line: 1226, col: 56, offset: 37875},
+																pos:        position{line: 1226, col: 56, offset: 37876},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46356,7 +46356,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1224, col: 32, offset: 37810},
+													pos:        position{line: 1224, col: 32, offset: 37811},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46365,51 +46365,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2366, col: 5, offset: 76627},
+										pos: position{line: 2366, col: 5, offset: 76628},
 										run: (*parser).callonSectionTitleElement147,
 										expr: &seqExpr{
-											pos: position{line: 2366, col: 5, offset: 76627},
+											pos: position{line: 2366, col: 5, offset: 76628},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2366, col: 5, offset: 76627},
+													pos: position{line: 2366, col: 5, offset: 76628},
 													run: (*parser).callonSectionTitleElement149,
 												},
 												&labeledExpr{
-													pos:   position{line: 2369, col: 5, offset: 76682},
+													pos:   position{line: 2369, col: 5, offset: 76683},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 405, col: 5, offset: 12348},
+														pos: position{line: 405, col: 5, offset: 12349},
 														run: (*parser).callonSectionTitleElement151,
 														expr: &seqExpr{
-															pos: position{line: 405, col: 5, offset: 12348},
+															pos: position{line: 405, col: 5, offset: 12349},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 405, col: 5, offset: 12348},
+																	pos:        position{line: 405, col: 5, offset: 12349},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 406, col: 5, offset: 12358},
+																	pos:   position{line: 406, col: 5, offset: 12359},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 407, col: 9, offset: 12371},
+																		pos: position{line: 407, col: 9, offset: 12372},
 																		run: (*parser).callonSectionTitleElement155,
 																		expr: &labeledExpr{
-																			pos:   position{line: 407, col: 9, offset: 12371},
+																			pos:   position{line: 407, col: 9, offset: 12372},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 407, col: 18, offset: 12380},
+																				pos: position{line: 407, col: 18, offset: 12381},
 																				expr: &choiceExpr{
-																					pos: position{line: 408, col: 13, offset: 12394},
+																					pos: position{line: 408, col: 13, offset: 12395},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 408, col: 14, offset: 12395},
+																							pos: position{line: 408, col: 14, offset: 12396},
 																							run: (*parser).callonSectionTitleElement159,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 408, col: 14, offset: 12395},
+																								pos: position{line: 408, col: 14, offset: 12396},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 408, col: 14, offset: 12395},
+																									pos:        position{line: 408, col: 14, offset: 12396},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -46418,27 +46418,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1226, col: 23, offset: 37842},
+																							pos: position{line: 1226, col: 23, offset: 37843},
 																							run: (*parser).callonSectionTitleElement162,
 																							expr: &seqExpr{
-																								pos: position{line: 1226, col: 23, offset: 37842},
+																								pos: position{line: 1226, col: 23, offset: 37843},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1224, col: 32, offset: 37810},
+																										pos:        position{line: 1224, col: 32, offset: 37811},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1226, col: 51, offset: 37870},
+																										pos:   position{line: 1226, col: 51, offset: 37871},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1226, col: 56, offset: 37875},
+																											pos: position{line: 1226, col: 56, offset: 37876},
 																											run: (*parser).callonSectionTitleElement166,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1226, col: 56, offset: 37875},
+																												pos: position{line: 1226, col: 56, offset: 37876},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1226, col: 56, offset: 37875},
+																													pos:        position{line: 1226, col: 56, offset: 37876},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -46448,7 +46448,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1224, col: 32, offset: 37810},
+																										pos:        position{line: 1224, col: 32, offset: 37811},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -46457,35 +46457,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 656, col: 5, offset: 20754},
+																							pos: position{line: 656, col: 5, offset: 20755},
 																							run: (*parser).callonSectionTitleElement170,
 																							expr: &seqExpr{
-																								pos: position{line: 656, col: 5, offset: 20754},
+																								pos: position{line: 656, col: 5, offset: 20755},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 656, col: 5, offset: 20754},
+																										pos: position{line: 656, col: 5, offset: 20755},
 																										run: (*parser).callonSectionTitleElement172,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 659, col: 5, offset: 20826},
+																										pos:   position{line: 659, col: 5, offset: 20827},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 659, col: 14, offset: 20835},
+																											pos: position{line: 659, col: 14, offset: 20836},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 665, col: 5, offset: 20964},
+																													pos: position{line: 665, col: 5, offset: 20965},
 																													run: (*parser).callonSectionTitleElement175,
 																													expr: &seqExpr{
-																														pos: position{line: 665, col: 5, offset: 20964},
+																														pos: position{line: 665, col: 5, offset: 20965},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 665, col: 5, offset: 20964},
+																																pos:        position{line: 665, col: 5, offset: 20965},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 665, col: 13, offset: 20972},
+																																pos:   position{line: 665, col: 13, offset: 20973},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46505,8 +46505,8 @@ var g = &grammar{
 																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 319, col: 29, offset: 9758},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46517,7 +46517,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 665, col: 32, offset: 20991},
+																																pos:        position{line: 665, col: 32, offset: 20992},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46526,19 +46526,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 672, col: 5, offset: 21232},
+																													pos: position{line: 672, col: 5, offset: 21233},
 																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
-																														pos: position{line: 672, col: 5, offset: 21232},
+																														pos: position{line: 672, col: 5, offset: 21233},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 672, col: 5, offset: 21232},
+																																pos:        position{line: 672, col: 5, offset: 21233},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 672, col: 9, offset: 21236},
+																																pos:   position{line: 672, col: 9, offset: 21237},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46558,8 +46558,8 @@ var g = &grammar{
 																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 319, col: 29, offset: 9758},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46570,7 +46570,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 672, col: 28, offset: 21255},
+																																pos:        position{line: 672, col: 28, offset: 21256},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46579,19 +46579,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 678, col: 25, offset: 21436},
+																													pos: position{line: 678, col: 25, offset: 21437},
 																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
-																														pos: position{line: 678, col: 25, offset: 21436},
+																														pos: position{line: 678, col: 25, offset: 21437},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 678, col: 25, offset: 21436},
+																																pos:        position{line: 678, col: 25, offset: 21437},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 678, col: 37, offset: 21448},
+																																pos:   position{line: 678, col: 37, offset: 21449},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46611,8 +46611,8 @@ var g = &grammar{
 																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 319, col: 29, offset: 9758},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46623,33 +46623,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 678, col: 56, offset: 21467},
+																																pos:   position{line: 678, col: 56, offset: 21468},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 678, col: 62, offset: 21473},
+																																	pos: position{line: 678, col: 62, offset: 21474},
 																																	expr: &actionExpr{
-																																		pos: position{line: 686, col: 17, offset: 21768},
+																																		pos: position{line: 686, col: 17, offset: 21769},
 																																		run: (*parser).callonSectionTitleElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 686, col: 17, offset: 21768},
+																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 686, col: 17, offset: 21768},
+																																					pos:        position{line: 686, col: 17, offset: 21769},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 686, col: 21, offset: 21772},
+																																					pos:   position{line: 686, col: 21, offset: 21773},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 686, col: 28, offset: 21779},
+																																						pos: position{line: 686, col: 28, offset: 21780},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 686, col: 28, offset: 21779},
+																																								pos: position{line: 686, col: 28, offset: 21780},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 686, col: 28, offset: 21779},
+																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46657,12 +46657,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 688, col: 9, offset: 21833},
+																																								pos: position{line: 688, col: 9, offset: 21834},
 																																								run: (*parser).callonSectionTitleElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 688, col: 9, offset: 21833},
+																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 688, col: 9, offset: 21833},
+																																										pos:        position{line: 688, col: 9, offset: 21834},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46679,7 +46679,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 678, col: 78, offset: 21489},
+																																pos:        position{line: 678, col: 78, offset: 21490},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46688,19 +46688,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 682, col: 25, offset: 21607},
+																													pos: position{line: 682, col: 25, offset: 21608},
 																													run: (*parser).callonSectionTitleElement217,
 																													expr: &seqExpr{
-																														pos: position{line: 682, col: 25, offset: 21607},
+																														pos: position{line: 682, col: 25, offset: 21608},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 682, col: 25, offset: 21607},
+																																pos:        position{line: 682, col: 25, offset: 21608},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 682, col: 38, offset: 21620},
+																																pos:   position{line: 682, col: 38, offset: 21621},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
@@ -46720,8 +46720,8 @@ var g = &grammar{
 																																				pos: position{line: 319, col: 28, offset: 9757},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 319, col: 29, offset: 9758},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -46732,33 +46732,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 682, col: 57, offset: 21639},
+																																pos:   position{line: 682, col: 57, offset: 21640},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 682, col: 63, offset: 21645},
+																																	pos: position{line: 682, col: 63, offset: 21646},
 																																	expr: &actionExpr{
-																																		pos: position{line: 686, col: 17, offset: 21768},
+																																		pos: position{line: 686, col: 17, offset: 21769},
 																																		run: (*parser).callonSectionTitleElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 686, col: 17, offset: 21768},
+																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 686, col: 17, offset: 21768},
+																																					pos:        position{line: 686, col: 17, offset: 21769},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 686, col: 21, offset: 21772},
+																																					pos:   position{line: 686, col: 21, offset: 21773},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 686, col: 28, offset: 21779},
+																																						pos: position{line: 686, col: 28, offset: 21780},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 686, col: 28, offset: 21779},
+																																								pos: position{line: 686, col: 28, offset: 21780},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 686, col: 28, offset: 21779},
+																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -46766,12 +46766,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 688, col: 9, offset: 21833},
+																																								pos: position{line: 688, col: 9, offset: 21834},
 																																								run: (*parser).callonSectionTitleElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 688, col: 9, offset: 21833},
+																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 688, col: 9, offset: 21833},
+																																										pos:        position{line: 688, col: 9, offset: 21834},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -46788,7 +46788,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 682, col: 79, offset: 21661},
+																																pos:        position{line: 682, col: 79, offset: 21662},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -46803,10 +46803,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 413, col: 16, offset: 12628},
+																							pos: position{line: 413, col: 16, offset: 12629},
 																							run: (*parser).callonSectionTitleElement239,
 																							expr: &litMatcher{
-																								pos:        position{line: 413, col: 16, offset: 12628},
+																								pos:        position{line: 413, col: 16, offset: 12629},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -46819,7 +46819,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 419, col: 5, offset: 12814},
+																	pos:        position{line: 419, col: 5, offset: 12815},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -46829,12 +46829,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2369, col: 26, offset: 76703},
+													pos: position{line: 2369, col: 26, offset: 76704},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91400},
+														pos: position{line: 2886, col: 10, offset: 91401},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91400},
+															pos:        position{line: 2886, col: 10, offset: 91401},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46843,30 +46843,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2369, col: 33, offset: 76710},
+													pos: position{line: 2369, col: 33, offset: 76711},
 													expr: &choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91798},
+														pos: position{line: 2908, col: 8, offset: 91799},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91571},
+																pos: position{line: 2895, col: 12, offset: 91572},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91572},
+																	pos: position{line: 2895, col: 13, offset: 91573},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91572},
+																			pos:        position{line: 2895, col: 13, offset: 91573},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91579},
+																			pos:        position{line: 2895, col: 20, offset: 91580},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91588},
+																			pos:        position{line: 2895, col: 29, offset: 91589},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46875,9 +46875,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91748},
+																pos: position{line: 2905, col: 8, offset: 91749},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91749,
+																	line: 2905, col: 9, offset: 91750,
 																},
 															},
 														},
@@ -46887,27 +46887,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1286, col: 5, offset: 39706},
+										pos: position{line: 1286, col: 5, offset: 39707},
 										run: (*parser).callonSectionTitleElement254,
 										expr: &seqExpr{
-											pos: position{line: 1286, col: 5, offset: 39706},
+											pos: position{line: 1286, col: 5, offset: 39707},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1286, col: 5, offset: 39706},
+													pos:        position{line: 1286, col: 5, offset: 39707},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1286, col: 14, offset: 39715},
+													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91052},
+														pos: position{line: 2871, col: 7, offset: 91053},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91052},
+															pos: position{line: 2871, col: 7, offset: 91053},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91052},
+																pos:        position{line: 2871, col: 7, offset: 91053},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46917,7 +46917,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1286, col: 22, offset: 39723},
+													pos:        position{line: 1286, col: 22, offset: 39724},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46926,27 +46926,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1291, col: 5, offset: 39842},
+										pos: position{line: 1291, col: 5, offset: 39843},
 										run: (*parser).callonSectionTitleElement262,
 										expr: &seqExpr{
-											pos: position{line: 1291, col: 5, offset: 39842},
+											pos: position{line: 1291, col: 5, offset: 39843},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1291, col: 5, offset: 39842},
+													pos:        position{line: 1291, col: 5, offset: 39843},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1291, col: 10, offset: 39847},
+													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91052},
+														pos: position{line: 2871, col: 7, offset: 91053},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91052},
+															pos: position{line: 2871, col: 7, offset: 91053},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91052},
+																pos:        position{line: 2871, col: 7, offset: 91053},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46956,7 +46956,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1291, col: 18, offset: 39855},
+													pos:        position{line: 1291, col: 18, offset: 39856},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46965,14 +46965,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2358, col: 11, offset: 76428},
+										pos:  position{line: 2358, col: 11, offset: 76429},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89708},
+										pos: position{line: 2825, col: 12, offset: 89709},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89708},
+											pos:        position{line: 2825, col: 12, offset: 89709},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46988,52 +46988,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2379, col: 1, offset: 76972},
+			pos:  position{line: 2379, col: 1, offset: 76973},
 			expr: &actionExpr{
-				pos: position{line: 2380, col: 5, offset: 77059},
+				pos: position{line: 2380, col: 5, offset: 77060},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2380, col: 5, offset: 77059},
+					pos: position{line: 2380, col: 5, offset: 77060},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77059},
+							pos:   position{line: 2380, col: 5, offset: 77060},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2380, col: 14, offset: 77068},
+								pos: position{line: 2380, col: 14, offset: 77069},
 								expr: &actionExpr{
-									pos: position{line: 2382, col: 9, offset: 77094},
+									pos: position{line: 2382, col: 9, offset: 77095},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2382, col: 9, offset: 77094},
+										pos: position{line: 2382, col: 9, offset: 77095},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91734},
+												pos: position{line: 2903, col: 11, offset: 91735},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91736,
+													line: 2903, col: 13, offset: 91737,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2383, col: 9, offset: 77109},
+												pos:   position{line: 2383, col: 9, offset: 77110},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2384, col: 13, offset: 77131},
+													pos: position{line: 2384, col: 13, offset: 77132},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2785, col: 5, offset: 88628},
+															pos: position{line: 2785, col: 5, offset: 88629},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2785, col: 5, offset: 88628},
+																pos: position{line: 2785, col: 5, offset: 88629},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2785, col: 5, offset: 88628},
+																		pos:   position{line: 2785, col: 5, offset: 88629},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2785, col: 11, offset: 88634},
+																			pos: position{line: 2785, col: 11, offset: 88635},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2785, col: 11, offset: 88634},
+																				pos: position{line: 2785, col: 11, offset: 88635},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2785, col: 11, offset: 88634},
+																					pos:        position{line: 2785, col: 11, offset: 88635},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47043,32 +47043,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2788, col: 5, offset: 88692},
+																		pos: position{line: 2788, col: 5, offset: 88693},
 																		expr: &seqExpr{
-																			pos: position{line: 2789, col: 9, offset: 88703},
+																			pos: position{line: 2789, col: 9, offset: 88704},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2789, col: 9, offset: 88703},
+																					pos:        position{line: 2789, col: 9, offset: 88704},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2790, col: 9, offset: 88752},
+																					pos: position{line: 2790, col: 9, offset: 88753},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2794, col: 5, offset: 88832},
+																		pos: position{line: 2794, col: 5, offset: 88833},
 																		expr: &seqExpr{
-																			pos: position{line: 2795, col: 9, offset: 88843},
+																			pos: position{line: 2795, col: 9, offset: 88844},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2795, col: 9, offset: 88843},
+																					pos: position{line: 2795, col: 9, offset: 88844},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2795, col: 9, offset: 88843},
+																						pos:        position{line: 2795, col: 9, offset: 88844},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47077,13 +47077,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2795, col: 23, offset: 88857},
+																					pos:        position{line: 2795, col: 23, offset: 88858},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2795, col: 27, offset: 88861},
+																					pos:        position{line: 2795, col: 27, offset: 88862},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47096,12 +47096,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2890, col: 11, offset: 91461},
+															pos: position{line: 2890, col: 11, offset: 91462},
 															run: (*parser).callonNormalGroup27,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2890, col: 11, offset: 91461},
+																pos: position{line: 2890, col: 11, offset: 91462},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 11, offset: 91461},
+																	pos:        position{line: 2890, col: 11, offset: 91462},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47110,25 +47110,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2386, col: 15, offset: 77177},
+															pos:  position{line: 2386, col: 15, offset: 77178},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2514, col: 5, offset: 81088},
+															pos: position{line: 2514, col: 5, offset: 81089},
 															run: (*parser).callonNormalGroup31,
 															expr: &seqExpr{
-																pos: position{line: 2514, col: 5, offset: 81088},
+																pos: position{line: 2514, col: 5, offset: 81089},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81088},
+																		pos:        position{line: 2514, col: 5, offset: 81089},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 10, offset: 81093},
+																		pos: position{line: 2514, col: 10, offset: 81094},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 11, offset: 81094},
+																			pos:        position{line: 2514, col: 11, offset: 81095},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47139,29 +47139,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2520, col: 5, offset: 81286},
+															pos: position{line: 2520, col: 5, offset: 81287},
 															run: (*parser).callonNormalGroup36,
 															expr: &seqExpr{
-																pos: position{line: 2520, col: 5, offset: 81286},
+																pos: position{line: 2520, col: 5, offset: 81287},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2520, col: 5, offset: 81286},
+																		pos: position{line: 2520, col: 5, offset: 81287},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2523, col: 5, offset: 81357},
+																		pos: position{line: 2523, col: 5, offset: 81358},
 																		run: (*parser).callonNormalGroup39,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2527, col: 5, offset: 81482},
+																		pos:        position{line: 2527, col: 5, offset: 81483},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2527, col: 9, offset: 81486},
+																		pos: position{line: 2527, col: 9, offset: 81487},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2527, col: 10, offset: 81487},
+																			pos:        position{line: 2527, col: 10, offset: 81488},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47172,27 +47172,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2803, col: 5, offset: 89054},
+															pos: position{line: 2803, col: 5, offset: 89055},
 															run: (*parser).callonNormalGroup43,
 															expr: &choiceExpr{
-																pos: position{line: 2804, col: 9, offset: 89064},
+																pos: position{line: 2804, col: 9, offset: 89065},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2804, col: 10, offset: 89065},
+																		pos:        position{line: 2804, col: 10, offset: 89066},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2806, col: 13, offset: 89162},
+																		pos: position{line: 2806, col: 13, offset: 89163},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2806, col: 13, offset: 89162},
+																				pos: position{line: 2806, col: 13, offset: 89163},
 																				run: (*parser).callonNormalGroup47,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2809, col: 13, offset: 89262},
+																				pos:        position{line: 2809, col: 13, offset: 89263},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47200,20 +47200,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2809, col: 19, offset: 89268},
+																		pos:        position{line: 2809, col: 19, offset: 89269},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2812, col: 13, offset: 89306},
+																		pos: position{line: 2812, col: 13, offset: 89307},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2812, col: 13, offset: 89306},
+																				pos: position{line: 2812, col: 13, offset: 89307},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2815, col: 14, offset: 89399},
+																				pos:        position{line: 2815, col: 14, offset: 89400},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47222,18 +47222,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2817, col: 12, offset: 89443},
+																		pos: position{line: 2817, col: 12, offset: 89444},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2817, col: 12, offset: 89443},
+																				pos:        position{line: 2817, col: 12, offset: 89444},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2817, col: 16, offset: 89447},
+																				pos: position{line: 2817, col: 16, offset: 89448},
 																				expr: &litMatcher{
-																					pos:        position{line: 2817, col: 17, offset: 89448},
+																					pos:        position{line: 2817, col: 17, offset: 89449},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -47245,25 +47245,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91571},
+															pos: position{line: 2895, col: 12, offset: 91572},
 															run: (*parser).callonNormalGroup57,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91572},
+																pos: position{line: 2895, col: 13, offset: 91573},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91572},
+																		pos:        position{line: 2895, col: 13, offset: 91573},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91579},
+																		pos:        position{line: 2895, col: 20, offset: 91580},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91588},
+																		pos:        position{line: 2895, col: 29, offset: 91589},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -47272,35 +47272,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 656, col: 5, offset: 20754},
+															pos: position{line: 656, col: 5, offset: 20755},
 															run: (*parser).callonNormalGroup62,
 															expr: &seqExpr{
-																pos: position{line: 656, col: 5, offset: 20754},
+																pos: position{line: 656, col: 5, offset: 20755},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 656, col: 5, offset: 20754},
+																		pos: position{line: 656, col: 5, offset: 20755},
 																		run: (*parser).callonNormalGroup64,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 659, col: 5, offset: 20826},
+																		pos:   position{line: 659, col: 5, offset: 20827},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 659, col: 14, offset: 20835},
+																			pos: position{line: 659, col: 14, offset: 20836},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 665, col: 5, offset: 20964},
+																					pos: position{line: 665, col: 5, offset: 20965},
 																					run: (*parser).callonNormalGroup67,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 5, offset: 20964},
+																						pos: position{line: 665, col: 5, offset: 20965},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 5, offset: 20964},
+																								pos:        position{line: 665, col: 5, offset: 20965},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 13, offset: 20972},
+																								pos:   position{line: 665, col: 13, offset: 20973},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47320,8 +47320,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -47332,7 +47332,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 32, offset: 20991},
+																								pos:        position{line: 665, col: 32, offset: 20992},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47341,19 +47341,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 672, col: 5, offset: 21232},
+																					pos: position{line: 672, col: 5, offset: 21233},
 																					run: (*parser).callonNormalGroup77,
 																					expr: &seqExpr{
-																						pos: position{line: 672, col: 5, offset: 21232},
+																						pos: position{line: 672, col: 5, offset: 21233},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 672, col: 5, offset: 21232},
+																								pos:        position{line: 672, col: 5, offset: 21233},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 9, offset: 21236},
+																								pos:   position{line: 672, col: 9, offset: 21237},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47373,8 +47373,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -47385,7 +47385,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 672, col: 28, offset: 21255},
+																								pos:        position{line: 672, col: 28, offset: 21256},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47394,19 +47394,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 678, col: 25, offset: 21436},
+																					pos: position{line: 678, col: 25, offset: 21437},
 																					run: (*parser).callonNormalGroup87,
 																					expr: &seqExpr{
-																						pos: position{line: 678, col: 25, offset: 21436},
+																						pos: position{line: 678, col: 25, offset: 21437},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 678, col: 25, offset: 21436},
+																								pos:        position{line: 678, col: 25, offset: 21437},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 678, col: 37, offset: 21448},
+																								pos:   position{line: 678, col: 37, offset: 21449},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47426,8 +47426,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -47438,33 +47438,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 678, col: 56, offset: 21467},
+																								pos:   position{line: 678, col: 56, offset: 21468},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 678, col: 62, offset: 21473},
+																									pos: position{line: 678, col: 62, offset: 21474},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										run: (*parser).callonNormalGroup98,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 17, offset: 21768},
+																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 686, col: 17, offset: 21768},
+																													pos:        position{line: 686, col: 17, offset: 21769},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 686, col: 21, offset: 21772},
+																													pos:   position{line: 686, col: 21, offset: 21773},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 686, col: 28, offset: 21779},
+																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47472,12 +47472,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																run: (*parser).callonNormalGroup105,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 688, col: 9, offset: 21833},
+																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 688, col: 9, offset: 21833},
+																																		pos:        position{line: 688, col: 9, offset: 21834},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47494,7 +47494,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 678, col: 78, offset: 21489},
+																								pos:        position{line: 678, col: 78, offset: 21490},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47503,19 +47503,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 682, col: 25, offset: 21607},
+																					pos: position{line: 682, col: 25, offset: 21608},
 																					run: (*parser).callonNormalGroup109,
 																					expr: &seqExpr{
-																						pos: position{line: 682, col: 25, offset: 21607},
+																						pos: position{line: 682, col: 25, offset: 21608},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 682, col: 25, offset: 21607},
+																								pos:        position{line: 682, col: 25, offset: 21608},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 682, col: 38, offset: 21620},
+																								pos:   position{line: 682, col: 38, offset: 21621},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
@@ -47535,8 +47535,8 @@ var g = &grammar{
 																												pos: position{line: 319, col: 28, offset: 9757},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 319, col: 29, offset: 9758},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -47547,33 +47547,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 682, col: 57, offset: 21639},
+																								pos:   position{line: 682, col: 57, offset: 21640},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 682, col: 63, offset: 21645},
+																									pos: position{line: 682, col: 63, offset: 21646},
 																									expr: &actionExpr{
-																										pos: position{line: 686, col: 17, offset: 21768},
+																										pos: position{line: 686, col: 17, offset: 21769},
 																										run: (*parser).callonNormalGroup120,
 																										expr: &seqExpr{
-																											pos: position{line: 686, col: 17, offset: 21768},
+																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 686, col: 17, offset: 21768},
+																													pos:        position{line: 686, col: 17, offset: 21769},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 686, col: 21, offset: 21772},
+																													pos:   position{line: 686, col: 21, offset: 21773},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 686, col: 28, offset: 21779},
+																														pos: position{line: 686, col: 28, offset: 21780},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 686, col: 28, offset: 21779},
+																																pos: position{line: 686, col: 28, offset: 21780},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 686, col: 28, offset: 21779},
+																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -47581,12 +47581,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 688, col: 9, offset: 21833},
+																																pos: position{line: 688, col: 9, offset: 21834},
 																																run: (*parser).callonNormalGroup127,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 688, col: 9, offset: 21833},
+																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 688, col: 9, offset: 21833},
+																																		pos:        position{line: 688, col: 9, offset: 21834},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -47603,7 +47603,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 682, col: 79, offset: 21661},
+																								pos:        position{line: 682, col: 79, offset: 21662},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -47618,35 +47618,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2391, col: 15, offset: 77344},
+															pos:  position{line: 2391, col: 15, offset: 77345},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2392, col: 15, offset: 77364},
+															pos:  position{line: 2392, col: 15, offset: 77365},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77453},
+															pos:  position{line: 2393, col: 15, offset: 77454},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2483, col: 5, offset: 79917},
+															pos: position{line: 2483, col: 5, offset: 79918},
 															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 5, offset: 79917},
+																pos: position{line: 2483, col: 5, offset: 79918},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2483, col: 5, offset: 79917},
+																		pos: position{line: 2483, col: 5, offset: 79918},
 																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2486, col: 5, offset: 79993},
+																		pos:   position{line: 2486, col: 5, offset: 79994},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2487, col: 9, offset: 80011},
+																			pos: position{line: 2487, col: 9, offset: 80012},
 																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2487, col: 10, offset: 80012},
+																				pos:        position{line: 2487, col: 10, offset: 80013},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47658,32 +47658,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1234, col: 5, offset: 38288},
+															pos: position{line: 1234, col: 5, offset: 38289},
 															run: (*parser).callonNormalGroup140,
 															expr: &seqExpr{
-																pos: position{line: 1234, col: 5, offset: 38288},
+																pos: position{line: 1234, col: 5, offset: 38289},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1234, col: 5, offset: 38288},
+																		pos: position{line: 1234, col: 5, offset: 38289},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 5, offset: 38364},
+																		pos:        position{line: 1237, col: 5, offset: 38365},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1238, col: 5, offset: 38372},
+																		pos: position{line: 1238, col: 5, offset: 38373},
 																		run: (*parser).callonNormalGroup144,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 5, offset: 38459},
+																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47692,30 +47692,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1242, col: 12, offset: 38466},
+																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91798},
+																			pos: position{line: 2908, col: 8, offset: 91799},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47724,9 +47724,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91748},
+																					pos: position{line: 2905, col: 8, offset: 91749},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91749,
+																						line: 2905, col: 9, offset: 91750,
 																					},
 																				},
 																			},
@@ -47736,31 +47736,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2396, col: 15, offset: 77635},
+															pos:  position{line: 2396, col: 15, offset: 77636},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1226, col: 23, offset: 37842},
+															pos: position{line: 1226, col: 23, offset: 37843},
 															run: (*parser).callonNormalGroup158,
 															expr: &seqExpr{
-																pos: position{line: 1226, col: 23, offset: 37842},
+																pos: position{line: 1226, col: 23, offset: 37843},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 32, offset: 37810},
+																		pos:        position{line: 1224, col: 32, offset: 37811},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1226, col: 51, offset: 37870},
+																		pos:   position{line: 1226, col: 51, offset: 37871},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1226, col: 56, offset: 37875},
+																			pos: position{line: 1226, col: 56, offset: 37876},
 																			run: (*parser).callonNormalGroup162,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1226, col: 56, offset: 37875},
+																				pos: position{line: 1226, col: 56, offset: 37876},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1226, col: 56, offset: 37875},
+																					pos:        position{line: 1226, col: 56, offset: 37876},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -47770,7 +47770,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 32, offset: 37810},
+																		pos:        position{line: 1224, col: 32, offset: 37811},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -47779,10 +47779,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2825, col: 12, offset: 89708},
+															pos: position{line: 2825, col: 12, offset: 89709},
 															run: (*parser).callonNormalGroup166,
 															expr: &charClassMatcher{
-																pos:        position{line: 2825, col: 12, offset: 89708},
+																pos:        position{line: 2825, col: 12, offset: 89709},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47798,9 +47798,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -47809,28 +47809,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2407, col: 1, offset: 78073},
+			pos:  position{line: 2407, col: 1, offset: 78074},
 			expr: &actionExpr{
-				pos: position{line: 2408, col: 5, offset: 78106},
+				pos: position{line: 2408, col: 5, offset: 78107},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2408, col: 5, offset: 78106},
+					pos: position{line: 2408, col: 5, offset: 78107},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2408, col: 5, offset: 78106},
+							pos:   position{line: 2408, col: 5, offset: 78107},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2408, col: 14, offset: 78115},
+								pos: position{line: 2408, col: 14, offset: 78116},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2408, col: 15, offset: 78116},
+									pos:  position{line: 2408, col: 15, offset: 78117},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -47839,41 +47839,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2412, col: 1, offset: 78213},
+			pos:  position{line: 2412, col: 1, offset: 78214},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78253},
+				pos: position{line: 2413, col: 5, offset: 78254},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78253},
+					pos: position{line: 2413, col: 5, offset: 78254},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91734},
+							pos: position{line: 2903, col: 11, offset: 91735},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91736,
+								line: 2903, col: 13, offset: 91737,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2414, col: 5, offset: 78264},
+							pos:   position{line: 2414, col: 5, offset: 78265},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2415, col: 9, offset: 78282},
+								pos: position{line: 2415, col: 9, offset: 78283},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88628},
+										pos: position{line: 2785, col: 5, offset: 88629},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88628},
+											pos: position{line: 2785, col: 5, offset: 88629},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88628},
+													pos:   position{line: 2785, col: 5, offset: 88629},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88634},
+														pos: position{line: 2785, col: 11, offset: 88635},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88634},
+															pos: position{line: 2785, col: 11, offset: 88635},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88634},
+																pos:        position{line: 2785, col: 11, offset: 88635},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47883,32 +47883,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88692},
+													pos: position{line: 2788, col: 5, offset: 88693},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88703},
+														pos: position{line: 2789, col: 9, offset: 88704},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88703},
+																pos:        position{line: 2789, col: 9, offset: 88704},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88752},
+																pos: position{line: 2790, col: 9, offset: 88753},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88832},
+													pos: position{line: 2794, col: 5, offset: 88833},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88843},
+														pos: position{line: 2795, col: 9, offset: 88844},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88843},
+																pos: position{line: 2795, col: 9, offset: 88844},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88843},
+																	pos:        position{line: 2795, col: 9, offset: 88844},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47917,13 +47917,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88857},
+																pos:        position{line: 2795, col: 23, offset: 88858},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88861},
+																pos:        position{line: 2795, col: 27, offset: 88862},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47936,10 +47936,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91400},
+										pos: position{line: 2886, col: 10, offset: 91401},
 										run: (*parser).callonAttributeStructuredValueElement23,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91400},
+											pos:        position{line: 2886, col: 10, offset: 91401},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47947,31 +47947,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78320},
+										pos:  position{line: 2417, col: 11, offset: 78321},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89054},
+										pos: position{line: 2803, col: 5, offset: 89055},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89064},
+											pos: position{line: 2804, col: 9, offset: 89065},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89065},
+													pos:        position{line: 2804, col: 10, offset: 89066},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89162},
+													pos: position{line: 2806, col: 13, offset: 89163},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89162},
+															pos: position{line: 2806, col: 13, offset: 89163},
 															run: (*parser).callonAttributeStructuredValueElement30,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89262},
+															pos:        position{line: 2809, col: 13, offset: 89263},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47979,20 +47979,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89268},
+													pos:        position{line: 2809, col: 19, offset: 89269},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89306},
+													pos: position{line: 2812, col: 13, offset: 89307},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89306},
+															pos: position{line: 2812, col: 13, offset: 89307},
 															run: (*parser).callonAttributeStructuredValueElement34,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89399},
+															pos:        position{line: 2815, col: 14, offset: 89400},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48001,18 +48001,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89443},
+													pos: position{line: 2817, col: 12, offset: 89444},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89443},
+															pos:        position{line: 2817, col: 12, offset: 89444},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89447},
+															pos: position{line: 2817, col: 16, offset: 89448},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89448},
+																pos:        position{line: 2817, col: 17, offset: 89449},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48024,31 +48024,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78393},
+										pos:  position{line: 2419, col: 11, offset: 78394},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78409},
+										pos:  position{line: 2420, col: 11, offset: 78410},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79917},
+										pos: position{line: 2483, col: 5, offset: 79918},
 										run: (*parser).callonAttributeStructuredValueElement42,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79917},
+											pos: position{line: 2483, col: 5, offset: 79918},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79917},
+													pos: position{line: 2483, col: 5, offset: 79918},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79993},
+													pos:   position{line: 2486, col: 5, offset: 79994},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80011},
+														pos: position{line: 2487, col: 9, offset: 80012},
 														run: (*parser).callonAttributeStructuredValueElement46,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80012},
+															pos:        position{line: 2487, col: 10, offset: 80013},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48060,27 +48060,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1226, col: 23, offset: 37842},
+										pos: position{line: 1226, col: 23, offset: 37843},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &seqExpr{
-											pos: position{line: 1226, col: 23, offset: 37842},
+											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1224, col: 32, offset: 37810},
+													pos:        position{line: 1224, col: 32, offset: 37811},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1226, col: 51, offset: 37870},
+													pos:   position{line: 1226, col: 51, offset: 37871},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1226, col: 56, offset: 37875},
+														pos: position{line: 1226, col: 56, offset: 37876},
 														run: (*parser).callonAttributeStructuredValueElement52,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1226, col: 56, offset: 37875},
+															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
-																pos:        position{line: 1226, col: 56, offset: 37875},
+																pos:        position{line: 1226, col: 56, offset: 37876},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -48090,7 +48090,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1224, col: 32, offset: 37810},
+													pos:        position{line: 1224, col: 32, offset: 37811},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -48099,25 +48099,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91571},
+										pos: position{line: 2895, col: 12, offset: 91572},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91572},
+											pos: position{line: 2895, col: 13, offset: 91573},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91572},
+													pos:        position{line: 2895, col: 13, offset: 91573},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91579},
+													pos:        position{line: 2895, col: 20, offset: 91580},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91588},
+													pos:        position{line: 2895, col: 29, offset: 91589},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48126,10 +48126,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89708},
+										pos: position{line: 2825, col: 12, offset: 89709},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89708},
+											pos:        position{line: 2825, col: 12, offset: 89709},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48145,73 +48145,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2431, col: 1, offset: 78679},
+			pos:  position{line: 2431, col: 1, offset: 78680},
 			expr: &actionExpr{
-				pos: position{line: 2433, col: 5, offset: 78761},
+				pos: position{line: 2433, col: 5, offset: 78762},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2433, col: 5, offset: 78761},
+					pos: position{line: 2433, col: 5, offset: 78762},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2433, col: 5, offset: 78761},
+							pos: position{line: 2433, col: 5, offset: 78762},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2436, col: 5, offset: 78826},
+							pos:   position{line: 2436, col: 5, offset: 78827},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2437, col: 9, offset: 78844},
+								pos: position{line: 2437, col: 9, offset: 78845},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 9, offset: 78844},
+										pos:  position{line: 2437, col: 9, offset: 78845},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78865},
+										pos:  position{line: 2438, col: 11, offset: 78866},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78888},
+										pos:  position{line: 2439, col: 11, offset: 78889},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78904},
+										pos:  position{line: 2440, col: 11, offset: 78905},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2441, col: 11, offset: 78933},
+										pos:  position{line: 2441, col: 11, offset: 78934},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 11, offset: 78959},
+										pos:  position{line: 2442, col: 11, offset: 78960},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78985},
+										pos:  position{line: 2443, col: 11, offset: 78986},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1286, col: 5, offset: 39706},
+										pos: position{line: 1286, col: 5, offset: 39707},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1286, col: 5, offset: 39706},
+											pos: position{line: 1286, col: 5, offset: 39707},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1286, col: 5, offset: 39706},
+													pos:        position{line: 1286, col: 5, offset: 39707},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1286, col: 14, offset: 39715},
+													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91052},
+														pos: position{line: 2871, col: 7, offset: 91053},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91052},
+															pos: position{line: 2871, col: 7, offset: 91053},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91052},
+																pos:        position{line: 2871, col: 7, offset: 91053},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48221,7 +48221,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1286, col: 22, offset: 39723},
+													pos:        position{line: 1286, col: 22, offset: 39724},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -48230,27 +48230,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1291, col: 5, offset: 39842},
+										pos: position{line: 1291, col: 5, offset: 39843},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1291, col: 5, offset: 39842},
+											pos: position{line: 1291, col: 5, offset: 39843},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1291, col: 5, offset: 39842},
+													pos:        position{line: 1291, col: 5, offset: 39843},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1291, col: 10, offset: 39847},
+													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91052},
+														pos: position{line: 2871, col: 7, offset: 91053},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91052},
+															pos: position{line: 2871, col: 7, offset: 91053},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91052},
+																pos:        position{line: 2871, col: 7, offset: 91053},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48260,7 +48260,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1291, col: 18, offset: 39855},
+													pos:        position{line: 1291, col: 18, offset: 39856},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -48269,40 +48269,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1330, col: 23, offset: 41331},
+										pos: position{line: 1330, col: 23, offset: 41332},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1330, col: 23, offset: 41331},
+											pos: position{line: 1330, col: 23, offset: 41332},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1330, col: 23, offset: 41331},
+													pos:        position{line: 1330, col: 23, offset: 41332},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1330, col: 29, offset: 41337},
+													pos:   position{line: 1330, col: 29, offset: 41338},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1337, col: 30, offset: 41668},
+														pos: position{line: 1337, col: 30, offset: 41669},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1337, col: 30, offset: 41668},
+															pos: position{line: 1337, col: 30, offset: 41669},
 															expr: &choiceExpr{
-																pos: position{line: 1337, col: 31, offset: 41669},
+																pos: position{line: 1337, col: 31, offset: 41670},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2776, col: 13, offset: 88481},
+																		pos:        position{line: 2776, col: 13, offset: 88482},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91400},
+																		pos: position{line: 2886, col: 10, offset: 91401},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91400},
+																			pos:        position{line: 2886, col: 10, offset: 91401},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -48315,23 +48315,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1331, col: 5, offset: 41376},
+													pos:   position{line: 1331, col: 5, offset: 41377},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1331, col: 11, offset: 41382},
+														pos: position{line: 1331, col: 11, offset: 41383},
 														expr: &actionExpr{
-															pos: position{line: 1331, col: 12, offset: 41383},
+															pos: position{line: 1331, col: 12, offset: 41384},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1331, col: 12, offset: 41383},
+																pos: position{line: 1331, col: 12, offset: 41384},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 12, offset: 41383},
+																		pos: position{line: 1331, col: 12, offset: 41384},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48340,18 +48340,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1331, col: 19, offset: 41390},
+																		pos:        position{line: 1331, col: 19, offset: 41391},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 23, offset: 41394},
+																		pos: position{line: 1331, col: 23, offset: 41395},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48360,28 +48360,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1331, col: 30, offset: 41401},
+																		pos:   position{line: 1331, col: 30, offset: 41402},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41668},
+																			pos: position{line: 1337, col: 30, offset: 41669},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41668},
+																				pos: position{line: 1337, col: 30, offset: 41669},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41669},
+																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2776, col: 13, offset: 88481},
+																							pos:        position{line: 2776, col: 13, offset: 88482},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48399,23 +48399,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1332, col: 5, offset: 41468},
+													pos:   position{line: 1332, col: 5, offset: 41469},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1332, col: 11, offset: 41474},
+														pos: position{line: 1332, col: 11, offset: 41475},
 														expr: &actionExpr{
-															pos: position{line: 1332, col: 12, offset: 41475},
+															pos: position{line: 1332, col: 12, offset: 41476},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1332, col: 12, offset: 41475},
+																pos: position{line: 1332, col: 12, offset: 41476},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 12, offset: 41475},
+																		pos: position{line: 1332, col: 12, offset: 41476},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48424,18 +48424,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1332, col: 19, offset: 41482},
+																		pos:        position{line: 1332, col: 19, offset: 41483},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 23, offset: 41486},
+																		pos: position{line: 1332, col: 23, offset: 41487},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91400},
+																			pos: position{line: 2886, col: 10, offset: 91401},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91400},
+																				pos:        position{line: 2886, col: 10, offset: 91401},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48444,28 +48444,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1332, col: 30, offset: 41493},
+																		pos:   position{line: 1332, col: 30, offset: 41494},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41668},
+																			pos: position{line: 1337, col: 30, offset: 41669},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41668},
+																				pos: position{line: 1337, col: 30, offset: 41669},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41669},
+																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2776, col: 13, offset: 88481},
+																							pos:        position{line: 2776, col: 13, offset: 88482},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91400},
+																							pos: position{line: 2886, col: 10, offset: 91401},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91400},
+																								pos:        position{line: 2886, col: 10, offset: 91401},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48483,7 +48483,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1333, col: 5, offset: 41560},
+													pos:        position{line: 1333, col: 5, offset: 41561},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -48492,15 +48492,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79064},
+										pos:  position{line: 2446, col: 11, offset: 79065},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79084},
+										pos:  position{line: 2447, col: 11, offset: 79085},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79107},
+										pos:  position{line: 2448, col: 11, offset: 79108},
 										name: "InlineMenu",
 									},
 								},
@@ -48512,80 +48512,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2452, col: 1, offset: 79164},
+			pos:  position{line: 2452, col: 1, offset: 79165},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79252},
+				pos: position{line: 2454, col: 5, offset: 79253},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79252},
+					pos: position{line: 2454, col: 5, offset: 79253},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2454, col: 5, offset: 79252},
+							pos: position{line: 2454, col: 5, offset: 79253},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2457, col: 5, offset: 79329},
+							pos:   position{line: 2457, col: 5, offset: 79330},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2458, col: 9, offset: 79347},
+								pos: position{line: 2458, col: 9, offset: 79348},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1412, col: 26, offset: 44938},
+										pos: position{line: 1412, col: 26, offset: 44939},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1412, col: 26, offset: 44938},
+											pos: position{line: 1412, col: 26, offset: 44939},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44906},
+													pos:        position{line: 1410, col: 32, offset: 44907},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1412, col: 54, offset: 44966},
+													pos:   position{line: 1412, col: 54, offset: 44967},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1416, col: 33, offset: 45179},
+														pos: position{line: 1416, col: 33, offset: 45180},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1416, col: 34, offset: 45180},
+																pos: position{line: 1416, col: 34, offset: 45181},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1416, col: 34, offset: 45180},
+																	pos: position{line: 1416, col: 34, offset: 45181},
 																	expr: &seqExpr{
-																		pos: position{line: 1416, col: 35, offset: 45181},
+																		pos: position{line: 1416, col: 35, offset: 45182},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1416, col: 35, offset: 45181},
+																				pos: position{line: 1416, col: 35, offset: 45182},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44906},
+																					pos:        position{line: 1410, col: 32, offset: 44907},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1416, col: 64, offset: 45210,
+																				line: 1416, col: 64, offset: 45211,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1418, col: 11, offset: 45383},
+																pos: position{line: 1418, col: 11, offset: 45384},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1418, col: 11, offset: 45383},
+																	pos: position{line: 1418, col: 11, offset: 45384},
 																	expr: &seqExpr{
-																		pos: position{line: 1418, col: 12, offset: 45384},
+																		pos: position{line: 1418, col: 12, offset: 45385},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1418, col: 12, offset: 45384},
+																				pos: position{line: 1418, col: 12, offset: 45385},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91400},
+																					pos: position{line: 2886, col: 10, offset: 91401},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91400},
+																						pos:        position{line: 2886, col: 10, offset: 91401},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48594,27 +48594,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 19, offset: 45391},
+																				pos: position{line: 1418, col: 19, offset: 45392},
 																				expr: &actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91571},
+																					pos: position{line: 2895, col: 12, offset: 91572},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91572},
+																						pos: position{line: 2895, col: 13, offset: 91573},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91572},
+																								pos:        position{line: 2895, col: 13, offset: 91573},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91579},
+																								pos:        position{line: 2895, col: 20, offset: 91580},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91588},
+																								pos:        position{line: 2895, col: 29, offset: 91589},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48624,16 +48624,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 28, offset: 45400},
+																				pos: position{line: 1418, col: 28, offset: 45401},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44906},
+																					pos:        position{line: 1410, col: 32, offset: 44907},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1418, col: 57, offset: 45429,
+																				line: 1418, col: 57, offset: 45430,
 																			},
 																		},
 																	},
@@ -48643,15 +48643,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44906},
+													pos:        position{line: 1410, col: 32, offset: 44907},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1412, col: 121, offset: 45033},
+													pos: position{line: 1412, col: 121, offset: 45034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88481},
+														pos:        position{line: 2776, col: 13, offset: 88482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48662,45 +48662,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1400, col: 26, offset: 44221},
+										pos: position{line: 1400, col: 26, offset: 44222},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1400, col: 26, offset: 44221},
+											pos: position{line: 1400, col: 26, offset: 44222},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44191},
+													pos:        position{line: 1398, col: 32, offset: 44192},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1400, col: 54, offset: 44249},
+													pos:   position{line: 1400, col: 54, offset: 44250},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1404, col: 33, offset: 44462},
+														pos: position{line: 1404, col: 33, offset: 44463},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1404, col: 34, offset: 44463},
+																pos: position{line: 1404, col: 34, offset: 44464},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1404, col: 34, offset: 44463},
+																	pos: position{line: 1404, col: 34, offset: 44464},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1404, col: 35, offset: 44464},
+																			pos: position{line: 1404, col: 35, offset: 44465},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44191},
+																				pos:        position{line: 1398, col: 32, offset: 44192},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 64, offset: 44493},
+																			pos: position{line: 1404, col: 64, offset: 44494},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48709,27 +48709,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 71, offset: 44500},
+																			pos: position{line: 1404, col: 71, offset: 44501},
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48739,25 +48739,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1404, col: 80, offset: 44509,
+																			line: 1404, col: 80, offset: 44510,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1404, col: 83, offset: 44512},
+																			pos: position{line: 1404, col: 83, offset: 44513},
 																			expr: &seqExpr{
-																				pos: position{line: 1404, col: 84, offset: 44513},
+																				pos: position{line: 1404, col: 84, offset: 44514},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1404, col: 84, offset: 44513},
+																						pos: position{line: 1404, col: 84, offset: 44514},
 																						expr: &seqExpr{
-																							pos: position{line: 1404, col: 86, offset: 44515},
+																							pos: position{line: 1404, col: 86, offset: 44516},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91461},
+																									pos: position{line: 2890, col: 11, offset: 91462},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91461},
+																										pos: position{line: 2890, col: 11, offset: 91462},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91461},
+																											pos:        position{line: 2890, col: 11, offset: 91462},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48766,7 +48766,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1398, col: 32, offset: 44191},
+																									pos:        position{line: 1398, col: 32, offset: 44192},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -48775,36 +48775,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 122, offset: 44551},
+																						pos: position{line: 1404, col: 122, offset: 44552},
 																						expr: &litMatcher{
-																							pos:        position{line: 1398, col: 32, offset: 44191},
+																							pos:        position{line: 1398, col: 32, offset: 44192},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 151, offset: 44580},
+																						pos: position{line: 1404, col: 151, offset: 44581},
 																						expr: &actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91571},
+																							pos: position{line: 2895, col: 12, offset: 91572},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91572},
+																								pos: position{line: 2895, col: 13, offset: 91573},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91572},
+																										pos:        position{line: 2895, col: 13, offset: 91573},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91579},
+																										pos:        position{line: 2895, col: 20, offset: 91580},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91588},
+																										pos:        position{line: 2895, col: 29, offset: 91589},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48814,7 +48814,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1404, col: 160, offset: 44589,
+																						line: 1404, col: 160, offset: 44590,
 																					},
 																				},
 																			},
@@ -48823,18 +48823,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1406, col: 11, offset: 44739},
+																pos: position{line: 1406, col: 11, offset: 44740},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1406, col: 12, offset: 44740},
+																	pos: position{line: 1406, col: 12, offset: 44741},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1406, col: 12, offset: 44740},
+																			pos: position{line: 1406, col: 12, offset: 44741},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91400},
+																				pos: position{line: 2886, col: 10, offset: 91401},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91400},
+																					pos:        position{line: 2886, col: 10, offset: 91401},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48843,27 +48843,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 19, offset: 44747},
+																			pos: position{line: 1406, col: 19, offset: 44748},
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91571},
+																				pos: position{line: 2895, col: 12, offset: 91572},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91572},
+																					pos: position{line: 2895, col: 13, offset: 91573},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91572},
+																							pos:        position{line: 2895, col: 13, offset: 91573},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91579},
+																							pos:        position{line: 2895, col: 20, offset: 91580},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91588},
+																							pos:        position{line: 2895, col: 29, offset: 91589},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48873,16 +48873,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 28, offset: 44756},
+																			pos: position{line: 1406, col: 28, offset: 44757},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44191},
+																				pos:        position{line: 1398, col: 32, offset: 44192},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1406, col: 57, offset: 44785,
+																			line: 1406, col: 57, offset: 44786,
 																		},
 																	},
 																},
@@ -48891,15 +48891,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44191},
+													pos:        position{line: 1398, col: 32, offset: 44192},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1400, col: 121, offset: 44316},
+													pos: position{line: 1400, col: 121, offset: 44317},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88481},
+														pos:        position{line: 2776, col: 13, offset: 88482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48910,7 +48910,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 57, offset: 79395},
+										pos:  position{line: 2458, col: 57, offset: 79396},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48922,16 +48922,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2463, col: 1, offset: 79455},
+			pos:  position{line: 2463, col: 1, offset: 79456},
 			expr: &seqExpr{
-				pos: position{line: 2465, col: 5, offset: 79531},
+				pos: position{line: 2465, col: 5, offset: 79532},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2465, col: 5, offset: 79531},
+						pos: position{line: 2465, col: 5, offset: 79532},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2468, col: 5, offset: 79596},
+						pos:  position{line: 2468, col: 5, offset: 79597},
 						name: "QuotedText",
 					},
 				},
@@ -48939,22 +48939,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2470, col: 1, offset: 79609},
+			pos:  position{line: 2470, col: 1, offset: 79610},
 			expr: &actionExpr{
-				pos: position{line: 2472, col: 5, offset: 79691},
+				pos: position{line: 2472, col: 5, offset: 79692},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2472, col: 5, offset: 79691},
+					pos: position{line: 2472, col: 5, offset: 79692},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2472, col: 5, offset: 79691},
+							pos: position{line: 2472, col: 5, offset: 79692},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2475, col: 5, offset: 79762},
+							pos:   position{line: 2475, col: 5, offset: 79763},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2476, col: 9, offset: 79780},
+								pos:  position{line: 2476, col: 9, offset: 79781},
 								name: "Symbol",
 							},
 						},
@@ -48964,103 +48964,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2531, col: 1, offset: 81539},
+			pos:  position{line: 2531, col: 1, offset: 81540},
 			expr: &choiceExpr{
-				pos: position{line: 2533, col: 5, offset: 81569},
+				pos: position{line: 2533, col: 5, offset: 81570},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2533, col: 5, offset: 81569},
+						pos: position{line: 2533, col: 5, offset: 81570},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 5, offset: 81569},
+							pos: position{line: 2533, col: 5, offset: 81570},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81569},
+									pos:        position{line: 2533, col: 5, offset: 81570},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2533, col: 10, offset: 81574},
+									pos: position{line: 2533, col: 10, offset: 81575},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2533, col: 10, offset: 81574},
+											pos:  position{line: 2533, col: 10, offset: 81575},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 14, offset: 82678},
+											pos: position{line: 2562, col: 14, offset: 82679},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2562, col: 14, offset: 82678},
+												pos:        position{line: 2562, col: 14, offset: 82679},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 14, offset: 82744},
+											pos: position{line: 2566, col: 14, offset: 82745},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2566, col: 14, offset: 82744},
+												pos:        position{line: 2566, col: 14, offset: 82745},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 15, offset: 82813},
+											pos: position{line: 2570, col: 15, offset: 82814},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2570, col: 15, offset: 82813},
+												pos:        position{line: 2570, col: 15, offset: 82814},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2574, col: 13, offset: 82878},
+											pos: position{line: 2574, col: 13, offset: 82879},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2574, col: 13, offset: 82878},
+												pos:        position{line: 2574, col: 13, offset: 82879},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 21, offset: 83448},
+											pos: position{line: 2602, col: 21, offset: 83449},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2602, col: 21, offset: 83448},
+												pos:        position{line: 2602, col: 21, offset: 83449},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 83034},
+											pos: position{line: 2581, col: 5, offset: 83035},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 83034},
+												pos: position{line: 2581, col: 5, offset: 83035},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 83034},
+														pos:        position{line: 2581, col: 5, offset: 83035},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 83044},
+														pos: position{line: 2582, col: 5, offset: 83045},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2586, col: 6, offset: 83131},
+														pos: position{line: 2586, col: 6, offset: 83132},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91400},
+																pos: position{line: 2886, col: 10, offset: 91401},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91400},
+																	pos:        position{line: 2886, col: 10, offset: 91401},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49068,30 +49068,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2586, col: 14, offset: 83139},
+																pos: position{line: 2586, col: 14, offset: 83140},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91798},
+																	pos: position{line: 2908, col: 8, offset: 91799},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91571},
+																			pos: position{line: 2895, col: 12, offset: 91572},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91572},
+																				pos: position{line: 2895, col: 13, offset: 91573},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91572},
+																						pos:        position{line: 2895, col: 13, offset: 91573},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91579},
+																						pos:        position{line: 2895, col: 20, offset: 91580},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91588},
+																						pos:        position{line: 2895, col: 29, offset: 91589},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49100,9 +49100,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91748},
+																			pos: position{line: 2905, col: 8, offset: 91749},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91749,
+																				line: 2905, col: 9, offset: 91750,
 																			},
 																		},
 																	},
@@ -49114,53 +49114,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 5, offset: 83259},
+											pos: position{line: 2591, col: 5, offset: 83260},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2591, col: 5, offset: 83259},
+												pos: position{line: 2591, col: 5, offset: 83260},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2591, col: 5, offset: 83259},
+														pos:        position{line: 2591, col: 5, offset: 83260},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2592, col: 5, offset: 83269},
+														pos: position{line: 2592, col: 5, offset: 83270},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2596, col: 5, offset: 83358},
+														pos: position{line: 2596, col: 5, offset: 83359},
 														expr: &choiceExpr{
-															pos: position{line: 2596, col: 7, offset: 83360},
+															pos: position{line: 2596, col: 7, offset: 83361},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2776, col: 13, offset: 88481},
+																	pos:        position{line: 2776, col: 13, offset: 88482},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91571},
+																	pos: position{line: 2895, col: 12, offset: 91572},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91572},
+																		pos: position{line: 2895, col: 13, offset: 91573},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91572},
+																				pos:        position{line: 2895, col: 13, offset: 91573},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91579},
+																				pos:        position{line: 2895, col: 20, offset: 91580},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91588},
+																				pos:        position{line: 2895, col: 29, offset: 91589},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49169,9 +49169,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -49181,30 +49181,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 20, offset: 83518},
+											pos: position{line: 2606, col: 20, offset: 83519},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2606, col: 20, offset: 83518},
+												pos:        position{line: 2606, col: 20, offset: 83519},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 21, offset: 83589},
+											pos: position{line: 2610, col: 21, offset: 83590},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2610, col: 21, offset: 83589},
+												pos:        position{line: 2610, col: 21, offset: 83590},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 20, offset: 83659},
+											pos: position{line: 2614, col: 20, offset: 83660},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2614, col: 20, offset: 83659},
+												pos:        position{line: 2614, col: 20, offset: 83660},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -49216,73 +49216,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2537, col: 7, offset: 81829},
+						pos:  position{line: 2537, col: 7, offset: 81830},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 14, offset: 82678},
+						pos: position{line: 2562, col: 14, offset: 82679},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2562, col: 14, offset: 82678},
+							pos:        position{line: 2562, col: 14, offset: 82679},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 14, offset: 82744},
+						pos: position{line: 2566, col: 14, offset: 82745},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2566, col: 14, offset: 82744},
+							pos:        position{line: 2566, col: 14, offset: 82745},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 15, offset: 82813},
+						pos: position{line: 2570, col: 15, offset: 82814},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2570, col: 15, offset: 82813},
+							pos:        position{line: 2570, col: 15, offset: 82814},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 13, offset: 82878},
+						pos: position{line: 2574, col: 13, offset: 82879},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2574, col: 13, offset: 82878},
+							pos:        position{line: 2574, col: 13, offset: 82879},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 83034},
+						pos: position{line: 2581, col: 5, offset: 83035},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 83034},
+							pos: position{line: 2581, col: 5, offset: 83035},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 83034},
+									pos:        position{line: 2581, col: 5, offset: 83035},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 83044},
+									pos: position{line: 2582, col: 5, offset: 83045},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2586, col: 6, offset: 83131},
+									pos: position{line: 2586, col: 6, offset: 83132},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91400},
+											pos: position{line: 2886, col: 10, offset: 91401},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91400},
+												pos:        position{line: 2886, col: 10, offset: 91401},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -49290,30 +49290,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2586, col: 14, offset: 83139},
+											pos: position{line: 2586, col: 14, offset: 83140},
 											expr: &choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91798},
+												pos: position{line: 2908, col: 8, offset: 91799},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91571},
+														pos: position{line: 2895, col: 12, offset: 91572},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91572},
+															pos: position{line: 2895, col: 13, offset: 91573},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91572},
+																	pos:        position{line: 2895, col: 13, offset: 91573},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91579},
+																	pos:        position{line: 2895, col: 20, offset: 91580},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91588},
+																	pos:        position{line: 2895, col: 29, offset: 91589},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -49322,9 +49322,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91748},
+														pos: position{line: 2905, col: 8, offset: 91749},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91749,
+															line: 2905, col: 9, offset: 91750,
 														},
 													},
 												},
@@ -49336,53 +49336,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 83259},
+						pos: position{line: 2591, col: 5, offset: 83260},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 83259},
+							pos: position{line: 2591, col: 5, offset: 83260},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 83259},
+									pos:        position{line: 2591, col: 5, offset: 83260},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2592, col: 5, offset: 83269},
+									pos: position{line: 2592, col: 5, offset: 83270},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2596, col: 5, offset: 83358},
+									pos: position{line: 2596, col: 5, offset: 83359},
 									expr: &choiceExpr{
-										pos: position{line: 2596, col: 7, offset: 83360},
+										pos: position{line: 2596, col: 7, offset: 83361},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88481},
+												pos:        position{line: 2776, col: 13, offset: 88482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91571},
+												pos: position{line: 2895, col: 12, offset: 91572},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91572},
+													pos: position{line: 2895, col: 13, offset: 91573},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91572},
+															pos:        position{line: 2895, col: 13, offset: 91573},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91579},
+															pos:        position{line: 2895, col: 20, offset: 91580},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91588},
+															pos:        position{line: 2895, col: 29, offset: 91589},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -49391,9 +49391,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2905, col: 8, offset: 91748},
+												pos: position{line: 2905, col: 8, offset: 91749},
 												expr: &anyMatcher{
-													line: 2905, col: 9, offset: 91749,
+													line: 2905, col: 9, offset: 91750,
 												},
 											},
 										},
@@ -49403,40 +49403,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 21, offset: 83448},
+						pos: position{line: 2602, col: 21, offset: 83449},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 21, offset: 83448},
+							pos:        position{line: 2602, col: 21, offset: 83449},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 20, offset: 83518},
+						pos: position{line: 2606, col: 20, offset: 83519},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 20, offset: 83518},
+							pos:        position{line: 2606, col: 20, offset: 83519},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 21, offset: 83589},
+						pos: position{line: 2610, col: 21, offset: 83590},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2610, col: 21, offset: 83589},
+							pos:        position{line: 2610, col: 21, offset: 83590},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 20, offset: 83659},
+						pos: position{line: 2614, col: 20, offset: 83660},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2614, col: 20, offset: 83659},
+							pos:        position{line: 2614, col: 20, offset: 83660},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -49447,43 +49447,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2548, col: 1, offset: 82019},
+			pos:  position{line: 2548, col: 1, offset: 82020},
 			expr: &choiceExpr{
-				pos: position{line: 2549, col: 5, offset: 82041},
+				pos: position{line: 2549, col: 5, offset: 82042},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82041},
+						pos: position{line: 2549, col: 5, offset: 82042},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82041},
+							pos: position{line: 2549, col: 5, offset: 82042},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 5, offset: 82041},
+									pos:        position{line: 2549, col: 5, offset: 82042},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 11, offset: 82047},
+									pos: position{line: 2549, col: 11, offset: 82048},
 									expr: &seqExpr{
-										pos: position{line: 2112, col: 5, offset: 68251},
+										pos: position{line: 2112, col: 5, offset: 68252},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2112, col: 5, offset: 68251},
+												pos:        position{line: 2112, col: 5, offset: 68252},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2113, col: 5, offset: 68260},
+												pos: position{line: 2113, col: 5, offset: 68261},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2117, col: 5, offset: 68383},
+												pos: position{line: 2117, col: 5, offset: 68384},
 												expr: &notExpr{
-													pos: position{line: 2117, col: 7, offset: 68385},
+													pos: position{line: 2117, col: 7, offset: 68386},
 													expr: &litMatcher{
-														pos:        position{line: 2117, col: 8, offset: 68386},
+														pos:        position{line: 2117, col: 8, offset: 68387},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49497,21 +49497,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 7, offset: 82200},
+						pos: position{line: 2552, col: 7, offset: 82201},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 7, offset: 82200},
+							pos: position{line: 2552, col: 7, offset: 82201},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 7, offset: 82200},
+									pos:        position{line: 2552, col: 7, offset: 82201},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2552, col: 13, offset: 82206},
+									pos: position{line: 2552, col: 13, offset: 82207},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2552, col: 14, offset: 82207},
+										pos:  position{line: 2552, col: 14, offset: 82208},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49519,38 +49519,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 7, offset: 82357},
+						pos: position{line: 2555, col: 7, offset: 82358},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 7, offset: 82357},
+							pos: position{line: 2555, col: 7, offset: 82358},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 7, offset: 82357},
+									pos:        position{line: 2555, col: 7, offset: 82358},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2555, col: 12, offset: 82362},
+									pos: position{line: 2555, col: 12, offset: 82363},
 									expr: &seqExpr{
-										pos: position{line: 2112, col: 5, offset: 68251},
+										pos: position{line: 2112, col: 5, offset: 68252},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2112, col: 5, offset: 68251},
+												pos:        position{line: 2112, col: 5, offset: 68252},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2113, col: 5, offset: 68260},
+												pos: position{line: 2113, col: 5, offset: 68261},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2117, col: 5, offset: 68383},
+												pos: position{line: 2117, col: 5, offset: 68384},
 												expr: &notExpr{
-													pos: position{line: 2117, col: 7, offset: 68385},
+													pos: position{line: 2117, col: 7, offset: 68386},
 													expr: &litMatcher{
-														pos:        position{line: 2117, col: 8, offset: 68386},
+														pos:        position{line: 2117, col: 8, offset: 68387},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49564,21 +49564,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 7, offset: 82515},
+						pos: position{line: 2558, col: 7, offset: 82516},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 7, offset: 82515},
+							pos: position{line: 2558, col: 7, offset: 82516},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 7, offset: 82515},
+									pos:        position{line: 2558, col: 7, offset: 82516},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2558, col: 12, offset: 82520},
+									pos: position{line: 2558, col: 12, offset: 82521},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2558, col: 13, offset: 82521},
+										pos:  position{line: 2558, col: 13, offset: 82522},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49590,63 +49590,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2691, col: 1, offset: 85561},
+			pos:  position{line: 2691, col: 1, offset: 85562},
 			expr: &actionExpr{
-				pos: position{line: 2691, col: 26, offset: 85586},
+				pos: position{line: 2691, col: 26, offset: 85587},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2691, col: 26, offset: 85586},
+					pos: position{line: 2691, col: 26, offset: 85587},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2691, col: 26, offset: 85586},
+							pos:   position{line: 2691, col: 26, offset: 85587},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2691, col: 31, offset: 85591},
+								pos: position{line: 2691, col: 31, offset: 85592},
 								expr: &actionExpr{
-									pos: position{line: 2696, col: 5, offset: 85654},
+									pos: position{line: 2696, col: 5, offset: 85655},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2696, col: 5, offset: 85654},
+										pos: position{line: 2696, col: 5, offset: 85655},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91734},
+												pos: position{line: 2903, col: 11, offset: 91735},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91736,
+													line: 2903, col: 13, offset: 91737,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85780},
+												pos:   position{line: 2699, col: 5, offset: 85781},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 16, offset: 85791},
+													pos: position{line: 2699, col: 16, offset: 85792},
 													expr: &actionExpr{
-														pos: position{line: 2699, col: 17, offset: 85792},
+														pos: position{line: 2699, col: 17, offset: 85793},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2699, col: 17, offset: 85792},
+															pos: position{line: 2699, col: 17, offset: 85793},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2699, col: 17, offset: 85792},
+																	pos:   position{line: 2699, col: 17, offset: 85793},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 12, offset: 91227},
+																		pos: position{line: 2878, col: 12, offset: 91228},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2878, col: 13, offset: 91228},
+																			pos: position{line: 2878, col: 13, offset: 91229},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2878, col: 13, offset: 91228},
+																					pos: position{line: 2878, col: 13, offset: 91229},
 																					expr: &litMatcher{
-																						pos:        position{line: 2878, col: 13, offset: 91228},
+																						pos:        position{line: 2878, col: 13, offset: 91229},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2878, col: 18, offset: 91233},
+																					pos: position{line: 2878, col: 18, offset: 91234},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 18, offset: 91233},
+																						pos:        position{line: 2878, col: 18, offset: 91234},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49658,7 +49658,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 27, offset: 85802},
+																	pos:        position{line: 2699, col: 27, offset: 85803},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49669,38 +49669,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85830},
+												pos:   position{line: 2700, col: 5, offset: 85831},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85837},
+													pos: position{line: 2700, col: 12, offset: 85838},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 9, offset: 85847},
+														pos: position{line: 2701, col: 9, offset: 85848},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2701, col: 9, offset: 85847},
+																pos: position{line: 2701, col: 9, offset: 85848},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 9, offset: 85847},
+																	pos:        position{line: 2701, col: 9, offset: 85848},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2702, col: 11, offset: 85894},
+																pos: position{line: 2702, col: 11, offset: 85895},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2702, col: 11, offset: 85894},
+																	pos:        position{line: 2702, col: 11, offset: 85895},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2703, col: 11, offset: 85942},
+																pos: position{line: 2703, col: 11, offset: 85943},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2703, col: 11, offset: 85942},
+																	pos:        position{line: 2703, col: 11, offset: 85943},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49711,38 +49711,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 85992},
+												pos:   position{line: 2705, col: 5, offset: 85993},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 12, offset: 85999},
+													pos: position{line: 2705, col: 12, offset: 86000},
 													expr: &choiceExpr{
-														pos: position{line: 2706, col: 9, offset: 86009},
+														pos: position{line: 2706, col: 9, offset: 86010},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2706, col: 9, offset: 86009},
+																pos: position{line: 2706, col: 9, offset: 86010},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2706, col: 9, offset: 86009},
+																	pos:        position{line: 2706, col: 9, offset: 86010},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2707, col: 11, offset: 86056},
+																pos: position{line: 2707, col: 11, offset: 86057},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 11, offset: 86056},
+																	pos:        position{line: 2707, col: 11, offset: 86057},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2708, col: 11, offset: 86106},
+																pos: position{line: 2708, col: 11, offset: 86107},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 11, offset: 86106},
+																	pos:        position{line: 2708, col: 11, offset: 86107},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49753,32 +49753,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86157},
+												pos:   position{line: 2710, col: 5, offset: 86158},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 12, offset: 86164},
+													pos: position{line: 2710, col: 12, offset: 86165},
 													expr: &choiceExpr{
-														pos: position{line: 2710, col: 13, offset: 86165},
+														pos: position{line: 2710, col: 13, offset: 86166},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91227},
+																pos: position{line: 2878, col: 12, offset: 91228},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91228},
+																	pos: position{line: 2878, col: 13, offset: 91229},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91228},
+																			pos: position{line: 2878, col: 13, offset: 91229},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91228},
+																				pos:        position{line: 2878, col: 13, offset: 91229},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91233},
+																			pos: position{line: 2878, col: 18, offset: 91234},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91233},
+																				pos:        position{line: 2878, col: 18, offset: 91234},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49789,10 +49789,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2710, col: 24, offset: 86176},
+																pos: position{line: 2710, col: 24, offset: 86177},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2710, col: 24, offset: 86176},
+																	pos:        position{line: 2710, col: 24, offset: 86177},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49803,15 +49803,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2711, col: 5, offset: 86218},
+												pos:   position{line: 2711, col: 5, offset: 86219},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2711, col: 11, offset: 86224},
+													pos: position{line: 2711, col: 11, offset: 86225},
 													expr: &actionExpr{
-														pos: position{line: 2711, col: 12, offset: 86225},
+														pos: position{line: 2711, col: 12, offset: 86226},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2711, col: 12, offset: 86225},
+															pos:        position{line: 2711, col: 12, offset: 86226},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49821,12 +49821,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2713, col: 5, offset: 86355},
+												pos:   position{line: 2713, col: 5, offset: 86356},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2713, col: 11, offset: 86361},
+													pos: position{line: 2713, col: 11, offset: 86362},
 													expr: &litMatcher{
-														pos:        position{line: 2713, col: 12, offset: 86362},
+														pos:        position{line: 2713, col: 12, offset: 86363},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49834,7 +49834,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2714, col: 5, offset: 86372},
+												pos: position{line: 2714, col: 5, offset: 86373},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49843,9 +49843,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91748},
+							pos: position{line: 2905, col: 8, offset: 91749},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91749,
+								line: 2905, col: 9, offset: 91750,
 							},
 						},
 					},
@@ -49854,23 +49854,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2741, col: 1, offset: 87381},
+			pos:  position{line: 2741, col: 1, offset: 87382},
 			expr: &actionExpr{
-				pos: position{line: 2742, col: 5, offset: 87404},
+				pos: position{line: 2742, col: 5, offset: 87405},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2742, col: 5, offset: 87404},
+					pos: position{line: 2742, col: 5, offset: 87405},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87404},
+							pos:   position{line: 2742, col: 5, offset: 87405},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2765, col: 18, offset: 88145},
+								pos: position{line: 2765, col: 18, offset: 88146},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2765, col: 19, offset: 88146},
+									pos: position{line: 2765, col: 19, offset: 88147},
 									expr: &charClassMatcher{
-										pos:        position{line: 2765, col: 19, offset: 88146},
+										pos:        position{line: 2765, col: 19, offset: 88147},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49881,25 +49881,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2743, col: 5, offset: 87430},
+							pos: position{line: 2743, col: 5, offset: 87431},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2747, col: 5, offset: 87558},
+							pos:        position{line: 2747, col: 5, offset: 87559},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87568},
+							pos:   position{line: 2748, col: 5, offset: 87569},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2769, col: 19, offset: 88221},
+								pos: position{line: 2769, col: 19, offset: 88222},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2769, col: 19, offset: 88221},
+									pos: position{line: 2769, col: 19, offset: 88222},
 									expr: &charClassMatcher{
-										pos:        position{line: 2769, col: 19, offset: 88221},
+										pos:        position{line: 2769, col: 19, offset: 88222},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49909,36 +49909,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87596},
+							pos:   position{line: 2749, col: 5, offset: 87597},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2749, col: 17, offset: 87608},
+								pos:  position{line: 2749, col: 17, offset: 87609},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91798},
+							pos: position{line: 2908, col: 8, offset: 91799},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91571},
+									pos: position{line: 2895, col: 12, offset: 91572},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91572},
+										pos: position{line: 2895, col: 13, offset: 91573},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91572},
+												pos:        position{line: 2895, col: 13, offset: 91573},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91579},
+												pos:        position{line: 2895, col: 20, offset: 91580},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91588},
+												pos:        position{line: 2895, col: 29, offset: 91589},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49947,9 +49947,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91748},
+									pos: position{line: 2905, col: 8, offset: 91749},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91749,
+										line: 2905, col: 9, offset: 91750,
 									},
 								},
 							},
@@ -49960,23 +49960,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2753, col: 1, offset: 87756},
+			pos:  position{line: 2753, col: 1, offset: 87757},
 			expr: &actionExpr{
-				pos: position{line: 2754, col: 5, offset: 87780},
+				pos: position{line: 2754, col: 5, offset: 87781},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2754, col: 5, offset: 87780},
+					pos: position{line: 2754, col: 5, offset: 87781},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87780},
+							pos:   position{line: 2754, col: 5, offset: 87781},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2765, col: 18, offset: 88145},
+								pos: position{line: 2765, col: 18, offset: 88146},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2765, col: 19, offset: 88146},
+									pos: position{line: 2765, col: 19, offset: 88147},
 									expr: &charClassMatcher{
-										pos:        position{line: 2765, col: 19, offset: 88146},
+										pos:        position{line: 2765, col: 19, offset: 88147},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49987,25 +49987,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2755, col: 5, offset: 87806},
+							pos: position{line: 2755, col: 5, offset: 87807},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2759, col: 5, offset: 87934},
+							pos:        position{line: 2759, col: 5, offset: 87935},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2760, col: 5, offset: 87943},
+							pos:   position{line: 2760, col: 5, offset: 87944},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2769, col: 19, offset: 88221},
+								pos: position{line: 2769, col: 19, offset: 88222},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2769, col: 19, offset: 88221},
+									pos: position{line: 2769, col: 19, offset: 88222},
 									expr: &charClassMatcher{
-										pos:        position{line: 2769, col: 19, offset: 88221},
+										pos:        position{line: 2769, col: 19, offset: 88222},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -50015,10 +50015,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2761, col: 5, offset: 87971},
+							pos:   position{line: 2761, col: 5, offset: 87972},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2761, col: 17, offset: 87983},
+								pos:  position{line: 2761, col: 17, offset: 87984},
 								name: "InlineAttributes",
 							},
 						},
@@ -50028,43 +50028,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2840, col: 1, offset: 90047},
+			pos:  position{line: 2840, col: 1, offset: 90048},
 			expr: &actionExpr{
-				pos: position{line: 2840, col: 17, offset: 90063},
+				pos: position{line: 2840, col: 17, offset: 90064},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2840, col: 17, offset: 90063},
+					pos:   position{line: 2840, col: 17, offset: 90064},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2857, col: 5, offset: 90517},
+						pos: position{line: 2857, col: 5, offset: 90518},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2857, col: 5, offset: 90517},
+							pos:   position{line: 2857, col: 5, offset: 90518},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2857, col: 14, offset: 90526},
+								pos: position{line: 2857, col: 14, offset: 90527},
 								expr: &choiceExpr{
-									pos: position{line: 2858, col: 9, offset: 90536},
+									pos: position{line: 2858, col: 9, offset: 90537},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2858, col: 9, offset: 90536},
+											pos: position{line: 2858, col: 9, offset: 90537},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2858, col: 9, offset: 90536},
+												pos: position{line: 2858, col: 9, offset: 90537},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2858, col: 9, offset: 90536},
+														pos: position{line: 2858, col: 9, offset: 90537},
 														expr: &litMatcher{
-															pos:        position{line: 2858, col: 10, offset: 90537},
+															pos:        position{line: 2858, col: 10, offset: 90538},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2859, col: 9, offset: 90565},
+														pos: position{line: 2859, col: 9, offset: 90566},
 														expr: &charClassMatcher{
-															pos:        position{line: 2859, col: 10, offset: 90566},
+															pos:        position{line: 2859, col: 10, offset: 90567},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50075,27 +50075,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2862, col: 11, offset: 90778},
+											pos: position{line: 2862, col: 11, offset: 90779},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 11, offset: 90778},
+													pos:        position{line: 2862, col: 11, offset: 90779},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2862, col: 19, offset: 90786},
+													pos: position{line: 2862, col: 19, offset: 90787},
 													expr: &seqExpr{
-														pos: position{line: 2862, col: 21, offset: 90788},
+														pos: position{line: 2862, col: 21, offset: 90789},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2862, col: 21, offset: 90788},
+																pos: position{line: 2862, col: 21, offset: 90789},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91400},
+																	pos: position{line: 2886, col: 10, offset: 91401},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91400},
+																		pos:        position{line: 2886, col: 10, offset: 91401},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50104,11 +50104,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2862, col: 28, offset: 90795},
+																pos: position{line: 2862, col: 28, offset: 90796},
 																expr: &notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91748},
+																	pos: position{line: 2905, col: 8, offset: 91749},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91749,
+																		line: 2905, col: 9, offset: 91750,
 																	},
 																},
 															},
@@ -50118,35 +50118,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 656, col: 5, offset: 20754},
+											pos: position{line: 656, col: 5, offset: 20755},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 656, col: 5, offset: 20754},
+												pos: position{line: 656, col: 5, offset: 20755},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 656, col: 5, offset: 20754},
+														pos: position{line: 656, col: 5, offset: 20755},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 659, col: 5, offset: 20826},
+														pos:   position{line: 659, col: 5, offset: 20827},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 659, col: 14, offset: 20835},
+															pos: position{line: 659, col: 14, offset: 20836},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 665, col: 5, offset: 20964},
+																	pos: position{line: 665, col: 5, offset: 20965},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 5, offset: 20964},
+																		pos: position{line: 665, col: 5, offset: 20965},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 5, offset: 20964},
+																				pos:        position{line: 665, col: 5, offset: 20965},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 13, offset: 20972},
+																				pos:   position{line: 665, col: 13, offset: 20973},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -50166,8 +50166,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -50178,7 +50178,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 32, offset: 20991},
+																				pos:        position{line: 665, col: 32, offset: 20992},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -50187,19 +50187,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 672, col: 5, offset: 21232},
+																	pos: position{line: 672, col: 5, offset: 21233},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 672, col: 5, offset: 21232},
+																		pos: position{line: 672, col: 5, offset: 21233},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 672, col: 5, offset: 21232},
+																				pos:        position{line: 672, col: 5, offset: 21233},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 9, offset: 21236},
+																				pos:   position{line: 672, col: 9, offset: 21237},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -50219,8 +50219,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -50231,7 +50231,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 672, col: 28, offset: 21255},
+																				pos:        position{line: 672, col: 28, offset: 21256},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -50240,19 +50240,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 678, col: 25, offset: 21436},
+																	pos: position{line: 678, col: 25, offset: 21437},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 678, col: 25, offset: 21436},
+																		pos: position{line: 678, col: 25, offset: 21437},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 678, col: 25, offset: 21436},
+																				pos:        position{line: 678, col: 25, offset: 21437},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 678, col: 37, offset: 21448},
+																				pos:   position{line: 678, col: 37, offset: 21449},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -50272,8 +50272,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -50284,33 +50284,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 678, col: 56, offset: 21467},
+																				pos:   position{line: 678, col: 56, offset: 21468},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 678, col: 62, offset: 21473},
+																					pos: position{line: 678, col: 62, offset: 21474},
 																					expr: &actionExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 686, col: 17, offset: 21768},
+																							pos: position{line: 686, col: 17, offset: 21769},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 686, col: 17, offset: 21768},
+																									pos:        position{line: 686, col: 17, offset: 21769},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 686, col: 21, offset: 21772},
+																									pos:   position{line: 686, col: 21, offset: 21773},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 686, col: 28, offset: 21779},
+																													pos:        position{line: 686, col: 28, offset: 21780},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -50318,12 +50318,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 688, col: 9, offset: 21833},
+																													pos: position{line: 688, col: 9, offset: 21834},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 688, col: 9, offset: 21833},
+																														pos:        position{line: 688, col: 9, offset: 21834},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -50340,7 +50340,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 678, col: 78, offset: 21489},
+																				pos:        position{line: 678, col: 78, offset: 21490},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -50349,19 +50349,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 682, col: 25, offset: 21607},
+																	pos: position{line: 682, col: 25, offset: 21608},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 682, col: 25, offset: 21607},
+																		pos: position{line: 682, col: 25, offset: 21608},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 682, col: 25, offset: 21607},
+																				pos:        position{line: 682, col: 25, offset: 21608},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 682, col: 38, offset: 21620},
+																				pos:   position{line: 682, col: 38, offset: 21621},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
@@ -50381,8 +50381,8 @@ var g = &grammar{
 																								pos: position{line: 319, col: 28, offset: 9757},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 319, col: 29, offset: 9758},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -50393,33 +50393,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 682, col: 57, offset: 21639},
+																				pos:   position{line: 682, col: 57, offset: 21640},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 682, col: 63, offset: 21645},
+																					pos: position{line: 682, col: 63, offset: 21646},
 																					expr: &actionExpr{
-																						pos: position{line: 686, col: 17, offset: 21768},
+																						pos: position{line: 686, col: 17, offset: 21769},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 686, col: 17, offset: 21768},
+																							pos: position{line: 686, col: 17, offset: 21769},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 686, col: 17, offset: 21768},
+																									pos:        position{line: 686, col: 17, offset: 21769},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 686, col: 21, offset: 21772},
+																									pos:   position{line: 686, col: 21, offset: 21773},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 686, col: 28, offset: 21779},
+																										pos: position{line: 686, col: 28, offset: 21780},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 686, col: 28, offset: 21779},
+																												pos: position{line: 686, col: 28, offset: 21780},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 686, col: 28, offset: 21779},
+																													pos:        position{line: 686, col: 28, offset: 21780},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -50427,12 +50427,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 688, col: 9, offset: 21833},
+																												pos: position{line: 688, col: 9, offset: 21834},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 688, col: 9, offset: 21833},
+																													pos: position{line: 688, col: 9, offset: 21834},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 688, col: 9, offset: 21833},
+																														pos:        position{line: 688, col: 9, offset: 21834},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -50449,7 +50449,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 682, col: 79, offset: 21661},
+																				pos:        position{line: 682, col: 79, offset: 21662},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -50464,27 +50464,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1226, col: 23, offset: 37842},
+											pos: position{line: 1226, col: 23, offset: 37843},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1226, col: 23, offset: 37842},
+												pos: position{line: 1226, col: 23, offset: 37843},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1224, col: 32, offset: 37810},
+														pos:        position{line: 1224, col: 32, offset: 37811},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1226, col: 51, offset: 37870},
+														pos:   position{line: 1226, col: 51, offset: 37871},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1226, col: 56, offset: 37875},
+															pos: position{line: 1226, col: 56, offset: 37876},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1226, col: 56, offset: 37875},
+																pos: position{line: 1226, col: 56, offset: 37876},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1226, col: 56, offset: 37875},
+																	pos:        position{line: 1226, col: 56, offset: 37876},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -50494,7 +50494,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1224, col: 32, offset: 37810},
+														pos:        position{line: 1224, col: 32, offset: 37811},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -50503,10 +50503,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2865, col: 11, offset: 90915},
+											pos: position{line: 2865, col: 11, offset: 90916},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90915},
+												pos:        position{line: 2865, col: 11, offset: 90916},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c698ca6..6b8bb4f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -316,7 +316,7 @@ AttributeDeclaration <-
 // AttributeName must be at least one character long, 
 // must begin with a word character (A-Z, a-z, 0-9) or an underscore ("_") 
 // and must only contain word characters (A-Z, a-z, 0-9) and hyphens ("-").
-AttributeName <- [\pL\pN_] ([\pL\pN-])* {
+AttributeName <- [\pL\pN_] ([\pL\pN_-])* {
         return string(c.text), nil
     }
 
-- 
2.43.0


From 102ae058ed4511d6ed119c1ea55e09712d81253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:04 +0000
Subject: [PATCH 081/117] fix: accept revision numbers of one character

---
 pkg/parser/parser.go  | 4 ++--
 pkg/parser/parser.peg | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 81e0298..c975a31 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -18691,7 +18691,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1207, col: 38, offset: 37318},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1207, col: 38, offset: 37318},
@@ -18726,7 +18726,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 17, offset: 37378},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1209, col: 17, offset: 37378},
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 6b8bb4f..c7daa74 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1204,9 +1204,9 @@ DocumentRevision <- Space* !":" revision:(
 }
 
 // DocumentRevisionNumber MUST start with a `v` or MAY start with a `v` but MUST end with a `,`
-DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]+ {
+DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]* {
     return string(c.text), nil
-} / "v"i? [0-9] [^:,\r\n]+ Space* &"," {
+} / "v"i? [0-9] [^:,\r\n]* Space* &"," {
     return string(c.text), nil
 }
 
-- 
2.43.0


From 048ba963bc06bee4cfbb5c927e00a73fb5a3aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 082/117] fix: no closing punctuation at the end of URLs

---
 pkg/parser/parser.go  | 13044 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    34 +-
 2 files changed, 6986 insertions(+), 6092 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index c975a31..f7c726f 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91228},
+																pos: position{line: 2910, col: 12, offset: 92196},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91229},
+																	pos: position{line: 2910, col: 13, offset: 92197},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91229},
+																			pos: position{line: 2910, col: 13, offset: 92197},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91229},
+																				pos:        position{line: 2910, col: 13, offset: 92197},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91234},
+																			pos: position{line: 2910, col: 18, offset: 92202},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91234},
+																				pos:        position{line: 2910, col: 18, offset: 92202},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91228},
+																pos: position{line: 2910, col: 12, offset: 92196},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91229},
+																	pos: position{line: 2910, col: 13, offset: 92197},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91229},
+																			pos: position{line: 2910, col: 13, offset: 92197},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91229},
+																				pos:        position{line: 2910, col: 13, offset: 92197},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91234},
+																			pos: position{line: 2910, col: 18, offset: 92202},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91234},
+																				pos:        position{line: 2910, col: 18, offset: 92202},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88482},
+														pos:        position{line: 2781, col: 13, offset: 88611},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2890, col: 11, offset: 91462},
+													pos: position{line: 2922, col: 11, offset: 92430},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2890, col: 11, offset: 91462},
+														pos: position{line: 2922, col: 11, offset: 92430},
 														expr: &charClassMatcher{
-															pos:        position{line: 2890, col: 11, offset: 91462},
+															pos:        position{line: 2922, col: 11, offset: 92430},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2836, col: 14, offset: 89994},
+													pos: position{line: 2841, col: 14, offset: 90123},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2836, col: 14, offset: 89994},
+														pos: position{line: 2841, col: 14, offset: 90123},
 														expr: &charClassMatcher{
-															pos:        position{line: 2836, col: 14, offset: 89994},
+															pos:        position{line: 2841, col: 14, offset: 90123},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2840, col: 17, offset: 90064},
+												pos: position{line: 2845, col: 17, offset: 90193},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2840, col: 17, offset: 90064},
+													pos:   position{line: 2845, col: 17, offset: 90193},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 12, offset: 91228},
+																				pos: position{line: 2910, col: 12, offset: 92196},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2878, col: 13, offset: 91229},
+																					pos: position{line: 2910, col: 13, offset: 92197},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2878, col: 13, offset: 91229},
+																							pos: position{line: 2910, col: 13, offset: 92197},
 																							expr: &litMatcher{
-																								pos:        position{line: 2878, col: 13, offset: 91229},
+																								pos:        position{line: 2910, col: 13, offset: 92197},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2878, col: 18, offset: 91234},
+																							pos: position{line: 2910, col: 18, offset: 92202},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 18, offset: 91234},
+																								pos:        position{line: 2910, col: 18, offset: 92202},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 12, offset: 91228},
+																				pos: position{line: 2910, col: 12, offset: 92196},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2878, col: 13, offset: 91229},
+																					pos: position{line: 2910, col: 13, offset: 92197},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2878, col: 13, offset: 91229},
+																							pos: position{line: 2910, col: 13, offset: 92197},
 																							expr: &litMatcher{
-																								pos:        position{line: 2878, col: 13, offset: 91229},
+																								pos:        position{line: 2910, col: 13, offset: 92197},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2878, col: 18, offset: 91234},
+																							pos: position{line: 2910, col: 18, offset: 92202},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 18, offset: 91234},
+																								pos:        position{line: 2910, col: 18, offset: 92202},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 12, offset: 91228},
+																		pos: position{line: 2910, col: 12, offset: 92196},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2878, col: 13, offset: 91229},
+																			pos: position{line: 2910, col: 13, offset: 92197},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2878, col: 13, offset: 91229},
+																					pos: position{line: 2910, col: 13, offset: 92197},
 																					expr: &litMatcher{
-																						pos:        position{line: 2878, col: 13, offset: 91229},
+																						pos:        position{line: 2910, col: 13, offset: 92197},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2878, col: 18, offset: 91234},
+																					pos: position{line: 2910, col: 18, offset: 92202},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 18, offset: 91234},
+																						pos:        position{line: 2910, col: 18, offset: 92202},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 12, offset: 91228},
+																									pos: position{line: 2910, col: 12, offset: 92196},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2878, col: 13, offset: 91229},
+																										pos: position{line: 2910, col: 13, offset: 92197},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2878, col: 13, offset: 91229},
+																												pos: position{line: 2910, col: 13, offset: 92197},
 																												expr: &litMatcher{
-																													pos:        position{line: 2878, col: 13, offset: 91229},
+																													pos:        position{line: 2910, col: 13, offset: 92197},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2878, col: 18, offset: 91234},
+																												pos: position{line: 2910, col: 18, offset: 92202},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 18, offset: 91234},
+																													pos:        position{line: 2910, col: 18, offset: 92202},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 12, offset: 91228},
+																									pos: position{line: 2910, col: 12, offset: 92196},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2878, col: 13, offset: 91229},
+																										pos: position{line: 2910, col: 13, offset: 92197},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2878, col: 13, offset: 91229},
+																												pos: position{line: 2910, col: 13, offset: 92197},
 																												expr: &litMatcher{
-																													pos:        position{line: 2878, col: 13, offset: 91229},
+																													pos:        position{line: 2910, col: 13, offset: 92197},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2878, col: 18, offset: 91234},
+																												pos: position{line: 2910, col: 18, offset: 92202},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 18, offset: 91234},
+																													pos:        position{line: 2910, col: 18, offset: 92202},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 12, offset: 91228},
+																							pos: position{line: 2910, col: 12, offset: 92196},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2878, col: 13, offset: 91229},
+																								pos: position{line: 2910, col: 13, offset: 92197},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2878, col: 13, offset: 91229},
+																										pos: position{line: 2910, col: 13, offset: 92197},
 																										expr: &litMatcher{
-																											pos:        position{line: 2878, col: 13, offset: 91229},
+																											pos:        position{line: 2910, col: 13, offset: 92197},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2878, col: 18, offset: 91234},
+																										pos: position{line: 2910, col: 18, offset: 92202},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 18, offset: 91234},
+																											pos:        position{line: 2910, col: 18, offset: 92202},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 12, offset: 91228},
+														pos: position{line: 2910, col: 12, offset: 92196},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2878, col: 13, offset: 91229},
+															pos: position{line: 2910, col: 13, offset: 92197},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2878, col: 13, offset: 91229},
+																	pos: position{line: 2910, col: 13, offset: 92197},
 																	expr: &litMatcher{
-																		pos:        position{line: 2878, col: 13, offset: 91229},
+																		pos:        position{line: 2910, col: 13, offset: 92197},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2878, col: 18, offset: 91234},
+																	pos: position{line: 2910, col: 18, offset: 92202},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 18, offset: 91234},
+																		pos:        position{line: 2910, col: 18, offset: 92202},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 12, offset: 91228},
+														pos: position{line: 2910, col: 12, offset: 92196},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2878, col: 13, offset: 91229},
+															pos: position{line: 2910, col: 13, offset: 92197},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2878, col: 13, offset: 91229},
+																	pos: position{line: 2910, col: 13, offset: 92197},
 																	expr: &litMatcher{
-																		pos:        position{line: 2878, col: 13, offset: 91229},
+																		pos:        position{line: 2910, col: 13, offset: 92197},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2878, col: 18, offset: 91234},
+																	pos: position{line: 2910, col: 18, offset: 92202},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 18, offset: 91234},
+																		pos:        position{line: 2910, col: 18, offset: 92202},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 12, offset: 91228},
+												pos: position{line: 2910, col: 12, offset: 92196},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2878, col: 13, offset: 91229},
+													pos: position{line: 2910, col: 13, offset: 92197},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2878, col: 13, offset: 91229},
+															pos: position{line: 2910, col: 13, offset: 92197},
 															expr: &litMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91229},
+																pos:        position{line: 2910, col: 13, offset: 92197},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2878, col: 18, offset: 91234},
+															pos: position{line: 2910, col: 18, offset: 92202},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 18, offset: 91234},
+																pos:        position{line: 2910, col: 18, offset: 92202},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2780, col: 14, offset: 88556},
+																		pos: position{line: 2785, col: 14, offset: 88685},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2780, col: 14, offset: 88556},
+																			pos: position{line: 2785, col: 14, offset: 88685},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2780, col: 14, offset: 88556},
+																				pos:        position{line: 2785, col: 14, offset: 88685},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2780, col: 14, offset: 88556},
+																				pos: position{line: 2785, col: 14, offset: 88685},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2780, col: 14, offset: 88556},
+																					pos: position{line: 2785, col: 14, offset: 88685},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2780, col: 14, offset: 88556},
+																						pos:        position{line: 2785, col: 14, offset: 88685},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2780, col: 14, offset: 88556},
+																							pos: position{line: 2785, col: 14, offset: 88685},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2780, col: 14, offset: 88556},
+																								pos: position{line: 2785, col: 14, offset: 88685},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2780, col: 14, offset: 88556},
+																									pos:        position{line: 2785, col: 14, offset: 88685},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2780, col: 14, offset: 88556},
+																									pos: position{line: 2785, col: 14, offset: 88685},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2780, col: 14, offset: 88556},
+																										pos: position{line: 2785, col: 14, offset: 88685},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2780, col: 14, offset: 88556},
+																											pos:        position{line: 2785, col: 14, offset: 88685},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2780, col: 14, offset: 88556},
+																pos: position{line: 2785, col: 14, offset: 88685},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2780, col: 14, offset: 88556},
+																	pos: position{line: 2785, col: 14, offset: 88685},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2780, col: 14, offset: 88556},
+																		pos:        position{line: 2785, col: 14, offset: 88685},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2780, col: 14, offset: 88556},
+																pos: position{line: 2785, col: 14, offset: 88685},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2780, col: 14, offset: 88556},
+																	pos: position{line: 2785, col: 14, offset: 88685},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2780, col: 14, offset: 88556},
+																		pos:        position{line: 2785, col: 14, offset: 88685},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2903, col: 11, offset: 91735},
+														pos: position{line: 2935, col: 11, offset: 92703},
 														expr: &anyMatcher{
-															line: 2903, col: 13, offset: 91737,
+															line: 2935, col: 13, offset: 92705,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89994},
+																			pos: position{line: 2841, col: 14, offset: 90123},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89994},
+																				pos: position{line: 2841, col: 14, offset: 90123},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89994},
+																					pos:        position{line: 2841, col: 14, offset: 90123},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2903, col: 11, offset: 91735},
+																									pos: position{line: 2935, col: 11, offset: 92703},
 																									expr: &anyMatcher{
-																										line: 2903, col: 13, offset: 91737,
+																										line: 2935, col: 13, offset: 92705,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2836, col: 14, offset: 89994},
+																						pos: position{line: 2841, col: 14, offset: 90123},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2836, col: 14, offset: 89994},
+																							pos: position{line: 2841, col: 14, offset: 90123},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2836, col: 14, offset: 89994},
+																								pos:        position{line: 2841, col: 14, offset: 90123},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1818, col: 5, offset: 58756},
+																		pos: position{line: 1823, col: 5, offset: 58885},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1818, col: 5, offset: 58756},
+																			pos: position{line: 1823, col: 5, offset: 58885},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1818, col: 5, offset: 58756},
+																					pos:   position{line: 1823, col: 5, offset: 58885},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2836, col: 14, offset: 89994},
+																						pos: position{line: 2841, col: 14, offset: 90123},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2836, col: 14, offset: 89994},
+																							pos: position{line: 2841, col: 14, offset: 90123},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2836, col: 14, offset: 89994},
+																								pos:        position{line: 2841, col: 14, offset: 90123},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1819, col: 5, offset: 58780},
+																					pos: position{line: 1824, col: 5, offset: 58909},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2731, col: 18, offset: 86977},
+											pos: position{line: 2736, col: 18, offset: 87106},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2732, col: 9, offset: 86987},
+												pos: position{line: 2737, col: 9, offset: 87116},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2732, col: 9, offset: 86987},
+														pos: position{line: 2737, col: 9, offset: 87116},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2732, col: 9, offset: 86987},
+																pos:        position{line: 2737, col: 9, offset: 87116},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2732, col: 15, offset: 86993},
+																pos: position{line: 2737, col: 15, offset: 87122},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2733, col: 11, offset: 87026},
+														pos: position{line: 2738, col: 11, offset: 87155},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2733, col: 12, offset: 87027},
+																pos: position{line: 2738, col: 12, offset: 87156},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 12, offset: 87027},
+																		pos:        position{line: 2738, col: 12, offset: 87156},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 20, offset: 87035},
+																		pos:        position{line: 2738, col: 20, offset: 87164},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 30, offset: 87045},
+																		pos:        position{line: 2738, col: 30, offset: 87174},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 38, offset: 87053},
+																		pos:        position{line: 2738, col: 38, offset: 87182},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 48, offset: 87063},
+																		pos:        position{line: 2738, col: 48, offset: 87192},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2733, col: 56, offset: 87071},
+																		pos:        position{line: 2738, col: 56, offset: 87200},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2733, col: 65, offset: 87080},
+																pos: position{line: 2738, col: 65, offset: 87209},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2733, col: 76, offset: 87091},
+																pos: position{line: 2738, col: 76, offset: 87220},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 5, offset: 83913},
+											pos: position{line: 2627, col: 5, offset: 84042},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2622, col: 5, offset: 83913},
+												pos: position{line: 2627, col: 5, offset: 84042},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 19, offset: 84070},
+														pos:        position{line: 2633, col: 19, offset: 84199},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2628, col: 26, offset: 84077},
+														pos: position{line: 2633, col: 26, offset: 84206},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2623, col: 5, offset: 83937},
+														pos:   position{line: 2628, col: 5, offset: 84066},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2623, col: 11, offset: 83943},
+															pos: position{line: 2628, col: 11, offset: 84072},
 															expr: &choiceExpr{
-																pos: position{line: 2623, col: 12, offset: 83944},
+																pos: position{line: 2628, col: 12, offset: 84073},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91735},
+																					pos: position{line: 2935, col: 11, offset: 92703},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91737,
+																						line: 2935, col: 13, offset: 92705,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2635, col: 5, offset: 84189},
+																		pos: position{line: 2640, col: 5, offset: 84318},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2635, col: 5, offset: 84189},
+																			pos: position{line: 2640, col: 5, offset: 84318},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2635, col: 5, offset: 84189},
+																					pos: position{line: 2640, col: 5, offset: 84318},
 																					expr: &choiceExpr{
-																						pos: position{line: 2632, col: 22, offset: 84150},
+																						pos: position{line: 2637, col: 22, offset: 84279},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2628, col: 19, offset: 84070},
+																								pos: position{line: 2633, col: 19, offset: 84199},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2628, col: 19, offset: 84070},
+																										pos:        position{line: 2633, col: 19, offset: 84199},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2628, col: 26, offset: 84077},
+																										pos: position{line: 2633, col: 26, offset: 84206},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91799},
+																										pos: position{line: 2940, col: 8, offset: 92767},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91572},
+																												pos: position{line: 2927, col: 12, offset: 92540},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91573},
+																													pos: position{line: 2927, col: 13, offset: 92541},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91573},
+																															pos:        position{line: 2927, col: 13, offset: 92541},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91580},
+																															pos:        position{line: 2927, col: 20, offset: 92548},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91589},
+																															pos:        position{line: 2927, col: 29, offset: 92557},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91749},
+																												pos: position{line: 2937, col: 8, offset: 92717},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91750,
+																													line: 2937, col: 9, offset: 92718,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2636, col: 5, offset: 84212},
+																					pos:   position{line: 2641, col: 5, offset: 84341},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2637, col: 9, offset: 84230},
+																						pos: position{line: 2642, col: 9, offset: 84359},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2637, col: 10, offset: 84231},
+																								pos: position{line: 2642, col: 10, offset: 84360},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2637, col: 10, offset: 84231},
+																									pos:   position{line: 2642, col: 10, offset: 84360},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2637, col: 17, offset: 84238},
+																										pos: position{line: 2642, col: 17, offset: 84367},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2645, col: 21, offset: 84434},
+																												pos: position{line: 2650, col: 21, offset: 84563},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2645, col: 21, offset: 84434},
+																													pos: position{line: 2650, col: 21, offset: 84563},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2645, col: 21, offset: 84434},
+																															pos:   position{line: 2650, col: 21, offset: 84563},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2645, col: 27, offset: 84440},
+																																pos: position{line: 2650, col: 27, offset: 84569},
 																																expr: &actionExpr{
-																																	pos: position{line: 2650, col: 5, offset: 84515},
+																																	pos: position{line: 2655, col: 5, offset: 84644},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2650, col: 5, offset: 84515},
+																																		pos: position{line: 2655, col: 5, offset: 84644},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2650, col: 5, offset: 84515},
+																																				pos:        position{line: 2655, col: 5, offset: 84644},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2650, col: 9, offset: 84519},
+																																				pos: position{line: 2655, col: 9, offset: 84648},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2886, col: 10, offset: 91401},
+																																					pos: position{line: 2918, col: 10, offset: 92369},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2886, col: 10, offset: 91401},
+																																						pos:        position{line: 2918, col: 10, offset: 92369},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2650, col: 16, offset: 84526},
+																																				pos:   position{line: 2655, col: 16, offset: 84655},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2656, col: 5, offset: 84726},
+																																					pos: position{line: 2661, col: 5, offset: 84855},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2656, col: 5, offset: 84726},
+																																						pos:   position{line: 2661, col: 5, offset: 84855},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2656, col: 14, offset: 84735},
+																																							pos: position{line: 2661, col: 14, offset: 84864},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2656, col: 14, offset: 84735},
+																																								pos: position{line: 2661, col: 14, offset: 84864},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2656, col: 14, offset: 84735},
+																																									pos:        position{line: 2661, col: 14, offset: 84864},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2908, col: 8, offset: 91799},
+																															pos: position{line: 2940, col: 8, offset: 92767},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2895, col: 12, offset: 91572},
+																																	pos: position{line: 2927, col: 12, offset: 92540},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2895, col: 13, offset: 91573},
+																																		pos: position{line: 2927, col: 13, offset: 92541},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 13, offset: 91573},
+																																				pos:        position{line: 2927, col: 13, offset: 92541},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 20, offset: 91580},
+																																				pos:        position{line: 2927, col: 20, offset: 92548},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2895, col: 29, offset: 91589},
+																																				pos:        position{line: 2927, col: 29, offset: 92557},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2905, col: 8, offset: 91749},
+																																	pos: position{line: 2937, col: 8, offset: 92717},
 																																	expr: &anyMatcher{
-																																		line: 2905, col: 9, offset: 91750,
+																																		line: 2937, col: 9, offset: 92718,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2662, col: 24, offset: 84871},
+																												pos: position{line: 2667, col: 24, offset: 85000},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2662, col: 24, offset: 84871},
+																													pos:   position{line: 2667, col: 24, offset: 85000},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2662, col: 30, offset: 84877},
+																														pos: position{line: 2667, col: 30, offset: 85006},
 																														expr: &actionExpr{
-																															pos: position{line: 2667, col: 5, offset: 84953},
+																															pos: position{line: 2672, col: 5, offset: 85082},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2667, col: 5, offset: 84953},
+																																pos: position{line: 2672, col: 5, offset: 85082},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2667, col: 5, offset: 84953},
+																																		pos: position{line: 2672, col: 5, offset: 85082},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2632, col: 22, offset: 84150},
+																																			pos: position{line: 2637, col: 22, offset: 84279},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2628, col: 19, offset: 84070},
+																																					pos: position{line: 2633, col: 19, offset: 84199},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2628, col: 19, offset: 84070},
+																																							pos:        position{line: 2633, col: 19, offset: 84199},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2628, col: 26, offset: 84077},
+																																							pos: position{line: 2633, col: 26, offset: 84206},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2886, col: 10, offset: 91401},
+																																								pos: position{line: 2918, col: 10, offset: 92369},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2886, col: 10, offset: 91401},
+																																									pos:        position{line: 2918, col: 10, offset: 92369},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2908, col: 8, offset: 91799},
+																																							pos: position{line: 2940, col: 8, offset: 92767},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2895, col: 12, offset: 91572},
+																																									pos: position{line: 2927, col: 12, offset: 92540},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2895, col: 13, offset: 91573},
+																																										pos: position{line: 2927, col: 13, offset: 92541},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 13, offset: 91573},
+																																												pos:        position{line: 2927, col: 13, offset: 92541},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 20, offset: 91580},
+																																												pos:        position{line: 2927, col: 20, offset: 92548},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 29, offset: 91589},
+																																												pos:        position{line: 2927, col: 29, offset: 92557},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91749},
+																																									pos: position{line: 2937, col: 8, offset: 92717},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91750,
+																																										line: 2937, col: 9, offset: 92718,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2905, col: 8, offset: 91749},
+																																					pos: position{line: 2937, col: 8, offset: 92717},
 																																					expr: &anyMatcher{
-																																						line: 2905, col: 9, offset: 91750,
+																																						line: 2937, col: 9, offset: 92718,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2668, col: 5, offset: 84976},
+																																		pos: position{line: 2673, col: 5, offset: 85105},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2903, col: 11, offset: 91735},
+																																						pos: position{line: 2935, col: 11, offset: 92703},
 																																						expr: &anyMatcher{
-																																							line: 2903, col: 13, offset: 91737,
+																																							line: 2935, col: 13, offset: 92705,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2886, col: 10, offset: 91401},
+																																							pos: position{line: 2918, col: 10, offset: 92369},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2886, col: 10, offset: 91401},
+																																								pos:        position{line: 2918, col: 10, offset: 92369},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2908, col: 8, offset: 91799},
+																																						pos: position{line: 2940, col: 8, offset: 92767},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2895, col: 12, offset: 91572},
+																																								pos: position{line: 2927, col: 12, offset: 92540},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2895, col: 13, offset: 91573},
+																																									pos: position{line: 2927, col: 13, offset: 92541},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 13, offset: 91573},
+																																											pos:        position{line: 2927, col: 13, offset: 92541},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 20, offset: 91580},
+																																											pos:        position{line: 2927, col: 20, offset: 92548},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 29, offset: 91589},
+																																											pos:        position{line: 2927, col: 29, offset: 92557},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2905, col: 8, offset: 91749},
+																																								pos: position{line: 2937, col: 8, offset: 92717},
 																																								expr: &anyMatcher{
-																																									line: 2905, col: 9, offset: 91750,
+																																									line: 2937, col: 9, offset: 92718,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2669, col: 5, offset: 84991},
+																																		pos:   position{line: 2674, col: 5, offset: 85120},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2669, col: 12, offset: 84998},
+																																			pos: position{line: 2674, col: 12, offset: 85127},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2686, col: 20, offset: 85462},
+																																				pos: position{line: 2691, col: 20, offset: 85591},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2686, col: 20, offset: 85462},
+																																					pos: position{line: 2691, col: 20, offset: 85591},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2686, col: 20, offset: 85462},
+																																						pos:        position{line: 2691, col: 20, offset: 85591},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2669, col: 31, offset: 85017},
+																																		pos:        position{line: 2674, col: 31, offset: 85146},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2669, col: 35, offset: 85021},
+																																		pos: position{line: 2674, col: 35, offset: 85150},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2886, col: 10, offset: 91401},
+																																			pos: position{line: 2918, col: 10, offset: 92369},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2886, col: 10, offset: 91401},
+																																				pos:        position{line: 2918, col: 10, offset: 92369},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2669, col: 42, offset: 85028},
+																																		pos: position{line: 2674, col: 42, offset: 85157},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2895, col: 12, offset: 91572},
+																																			pos: position{line: 2927, col: 12, offset: 92540},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2895, col: 13, offset: 91573},
+																																				pos: position{line: 2927, col: 13, offset: 92541},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 13, offset: 91573},
+																																						pos:        position{line: 2927, col: 13, offset: 92541},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 20, offset: 91580},
+																																						pos:        position{line: 2927, col: 20, offset: 92548},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2895, col: 29, offset: 91589},
+																																						pos:        position{line: 2927, col: 29, offset: 92557},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2669, col: 51, offset: 85037},
+																																		pos:   position{line: 2674, col: 51, offset: 85166},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2675, col: 5, offset: 85196},
+																																			pos: position{line: 2680, col: 5, offset: 85325},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 9, offset: 85206},
+																																				pos: position{line: 2681, col: 9, offset: 85335},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2676, col: 9, offset: 85206},
+																																					pos: position{line: 2681, col: 9, offset: 85335},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2676, col: 9, offset: 85206},
+																																							pos: position{line: 2681, col: 9, offset: 85335},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2632, col: 22, offset: 84150},
+																																								pos: position{line: 2637, col: 22, offset: 84279},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2628, col: 19, offset: 84070},
+																																										pos: position{line: 2633, col: 19, offset: 84199},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2628, col: 19, offset: 84070},
+																																												pos:        position{line: 2633, col: 19, offset: 84199},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2628, col: 26, offset: 84077},
+																																												pos: position{line: 2633, col: 26, offset: 84206},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2886, col: 10, offset: 91401},
+																																													pos: position{line: 2918, col: 10, offset: 92369},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2886, col: 10, offset: 91401},
+																																														pos:        position{line: 2918, col: 10, offset: 92369},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2908, col: 8, offset: 91799},
+																																												pos: position{line: 2940, col: 8, offset: 92767},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2895, col: 12, offset: 91572},
+																																														pos: position{line: 2927, col: 12, offset: 92540},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2895, col: 13, offset: 91573},
+																																															pos: position{line: 2927, col: 13, offset: 92541},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2905, col: 8, offset: 91749},
+																																														pos: position{line: 2937, col: 8, offset: 92717},
 																																														expr: &anyMatcher{
-																																															line: 2905, col: 9, offset: 91750,
+																																															line: 2937, col: 9, offset: 92718,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91749},
+																																										pos: position{line: 2937, col: 8, offset: 92717},
 																																										expr: &anyMatcher{
-																																											line: 2905, col: 9, offset: 91750,
+																																											line: 2937, col: 9, offset: 92718,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2677, col: 9, offset: 85233},
+																																							pos: position{line: 2682, col: 9, offset: 85362},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2903, col: 11, offset: 91735},
+																																											pos: position{line: 2935, col: 11, offset: 92703},
 																																											expr: &anyMatcher{
-																																												line: 2903, col: 13, offset: 91737,
+																																												line: 2935, col: 13, offset: 92705,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2886, col: 10, offset: 91401},
+																																												pos: position{line: 2918, col: 10, offset: 92369},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2886, col: 10, offset: 91401},
+																																													pos:        position{line: 2918, col: 10, offset: 92369},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2908, col: 8, offset: 91799},
+																																											pos: position{line: 2940, col: 8, offset: 92767},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2895, col: 12, offset: 91572},
+																																													pos: position{line: 2927, col: 12, offset: 92540},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2895, col: 13, offset: 91573},
+																																														pos: position{line: 2927, col: 13, offset: 92541},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2905, col: 8, offset: 91749},
+																																													pos: position{line: 2937, col: 8, offset: 92717},
 																																													expr: &anyMatcher{
-																																														line: 2905, col: 9, offset: 91750,
+																																														line: 2937, col: 9, offset: 92718,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2678, col: 9, offset: 85252},
+																																							pos: position{line: 2683, col: 9, offset: 85381},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2678, col: 11, offset: 85254},
+																																								pos: position{line: 2683, col: 11, offset: 85383},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2678, col: 11, offset: 85254},
+																																										pos:   position{line: 2683, col: 11, offset: 85383},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2678, col: 18, offset: 85261},
+																																											pos: position{line: 2683, col: 18, offset: 85390},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2686, col: 20, offset: 85462},
+																																												pos: position{line: 2691, col: 20, offset: 85591},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2686, col: 20, offset: 85462},
+																																													pos: position{line: 2691, col: 20, offset: 85591},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2686, col: 20, offset: 85462},
+																																														pos:        position{line: 2691, col: 20, offset: 85591},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2678, col: 37, offset: 85280},
+																																										pos:        position{line: 2683, col: 37, offset: 85409},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2679, col: 9, offset: 85293},
+																																							pos:   position{line: 2684, col: 9, offset: 85422},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2679, col: 18, offset: 85302},
+																																								pos: position{line: 2684, col: 18, offset: 85431},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2679, col: 18, offset: 85302},
+																																									pos: position{line: 2684, col: 18, offset: 85431},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2679, col: 18, offset: 85302},
+																																										pos:        position{line: 2684, col: 18, offset: 85431},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2681, col: 12, offset: 85364},
+																																							pos: position{line: 2686, col: 12, offset: 85493},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2908, col: 8, offset: 91799},
+																																								pos: position{line: 2940, col: 8, offset: 92767},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2895, col: 12, offset: 91572},
+																																										pos: position{line: 2927, col: 12, offset: 92540},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2895, col: 13, offset: 91573},
+																																											pos: position{line: 2927, col: 13, offset: 92541},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 13, offset: 91573},
+																																													pos:        position{line: 2927, col: 13, offset: 92541},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 20, offset: 91580},
+																																													pos:        position{line: 2927, col: 20, offset: 92548},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2895, col: 29, offset: 91589},
+																																													pos:        position{line: 2927, col: 29, offset: 92557},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91749},
+																																										pos: position{line: 2937, col: 8, offset: 92717},
 																																										expr: &anyMatcher{
-																																											line: 2905, col: 9, offset: 91750,
+																																											line: 2937, col: 9, offset: 92718,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2903, col: 11, offset: 91735},
+																											pos: position{line: 2935, col: 11, offset: 92703},
 																											expr: &anyMatcher{
-																												line: 2903, col: 13, offset: 91737,
+																												line: 2935, col: 13, offset: 92705,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2632, col: 22, offset: 84150},
+														pos: position{line: 2637, col: 22, offset: 84279},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2628, col: 19, offset: 84070},
+																pos: position{line: 2633, col: 19, offset: 84199},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2628, col: 19, offset: 84070},
+																		pos:        position{line: 2633, col: 19, offset: 84199},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2628, col: 26, offset: 84077},
+																		pos: position{line: 2633, col: 26, offset: 84206},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2496, col: 22, offset: 80372},
+												pos: position{line: 2501, col: 22, offset: 80501},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2501, col: 31, offset: 80593},
+														pos:        position{line: 2506, col: 31, offset: 80722},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2501, col: 36, offset: 80598},
+														pos: position{line: 2506, col: 36, offset: 80727},
 														expr: &litMatcher{
-															pos:        position{line: 2501, col: 37, offset: 80599},
+															pos:        position{line: 2506, col: 37, offset: 80728},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2496, col: 49, offset: 80399},
+														pos:   position{line: 2501, col: 49, offset: 80528},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2832, col: 13, offset: 89927},
+																pos: position{line: 2837, col: 13, offset: 90056},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2832, col: 13, offset: 89927},
+																	pos:        position{line: 2837, col: 13, offset: 90056},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91799},
+																										pos: position{line: 2940, col: 8, offset: 92767},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91572},
+																												pos: position{line: 2927, col: 12, offset: 92540},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91573},
+																													pos: position{line: 2927, col: 13, offset: 92541},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91573},
+																															pos:        position{line: 2927, col: 13, offset: 92541},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91580},
+																															pos:        position{line: 2927, col: 20, offset: 92548},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91589},
+																															pos:        position{line: 2927, col: 29, offset: 92557},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91749},
+																												pos: position{line: 2937, col: 8, offset: 92717},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91750,
+																													line: 2937, col: 9, offset: 92718,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2890, col: 11, offset: 91462},
+												pos: position{line: 2922, col: 11, offset: 92430},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2890, col: 11, offset: 91462},
+													pos: position{line: 2922, col: 11, offset: 92430},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 11, offset: 91462},
+														pos:        position{line: 2922, col: 11, offset: 92430},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91572},
+												pos: position{line: 2927, col: 12, offset: 92540},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91573},
+													pos: position{line: 2927, col: 13, offset: 92541},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91573},
+															pos:        position{line: 2927, col: 13, offset: 92541},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91580},
+															pos:        position{line: 2927, col: 20, offset: 92548},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91589},
+															pos:        position{line: 2927, col: 29, offset: 92557},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91401},
+													pos: position{line: 2918, col: 10, offset: 92369},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91401},
+														pos:        position{line: 2918, col: 10, offset: 92369},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91401},
+											pos: position{line: 2918, col: 10, offset: 92369},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91401},
+												pos:        position{line: 2918, col: 10, offset: 92369},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2908, col: 8, offset: 91799},
+										pos: position{line: 2940, col: 8, offset: 92767},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91572},
+												pos: position{line: 2927, col: 12, offset: 92540},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91573},
+													pos: position{line: 2927, col: 13, offset: 92541},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91573},
+															pos:        position{line: 2927, col: 13, offset: 92541},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91580},
+															pos:        position{line: 2927, col: 20, offset: 92548},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91589},
+															pos:        position{line: 2927, col: 29, offset: 92557},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2905, col: 8, offset: 91749},
+												pos: position{line: 2937, col: 8, offset: 92717},
 												expr: &anyMatcher{
-													line: 2905, col: 9, offset: 91750,
+													line: 2937, col: 9, offset: 92718,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79918},
+										pos: position{line: 2488, col: 5, offset: 80047},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79918},
+													pos: position{line: 2488, col: 5, offset: 80047},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79994},
+													pos:   position{line: 2491, col: 5, offset: 80123},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80012},
+														pos: position{line: 2492, col: 9, offset: 80141},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80013},
+															pos:        position{line: 2492, col: 10, offset: 80142},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91401},
+										pos: position{line: 2918, col: 10, offset: 92369},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91401},
+											pos:        position{line: 2918, col: 10, offset: 92369},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91401},
+													pos: position{line: 2918, col: 10, offset: 92369},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91401},
+														pos:        position{line: 2918, col: 10, offset: 92369},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91799},
+												pos: position{line: 2940, col: 8, offset: 92767},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91572},
+														pos: position{line: 2927, col: 12, offset: 92540},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91573},
+															pos: position{line: 2927, col: 13, offset: 92541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91573},
+																	pos:        position{line: 2927, col: 13, offset: 92541},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91580},
+																	pos:        position{line: 2927, col: 20, offset: 92548},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91589},
+																	pos:        position{line: 2927, col: 29, offset: 92557},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91749},
+														pos: position{line: 2937, col: 8, offset: 92717},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91750,
+															line: 2937, col: 9, offset: 92718,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2780, col: 14, offset: 88556},
+																				pos: position{line: 2785, col: 14, offset: 88685},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2780, col: 14, offset: 88556},
+																					pos: position{line: 2785, col: 14, offset: 88685},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2780, col: 14, offset: 88556},
+																						pos:        position{line: 2785, col: 14, offset: 88685},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2803, col: 5, offset: 89055},
+																				pos: position{line: 2808, col: 5, offset: 89184},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2804, col: 9, offset: 89065},
+																					pos: position{line: 2809, col: 9, offset: 89194},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2804, col: 10, offset: 89066},
+																							pos:        position{line: 2809, col: 10, offset: 89195},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2806, col: 13, offset: 89163},
+																							pos: position{line: 2811, col: 13, offset: 89292},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2806, col: 13, offset: 89163},
+																									pos: position{line: 2811, col: 13, offset: 89292},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89263},
+																									pos:        position{line: 2814, col: 13, offset: 89392},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2809, col: 19, offset: 89269},
+																							pos:        position{line: 2814, col: 19, offset: 89398},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2812, col: 13, offset: 89307},
+																							pos: position{line: 2817, col: 13, offset: 89436},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2812, col: 13, offset: 89307},
+																									pos: position{line: 2817, col: 13, offset: 89436},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2815, col: 14, offset: 89400},
+																									pos:        position{line: 2820, col: 14, offset: 89529},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2817, col: 12, offset: 89444},
+																							pos: position{line: 2822, col: 12, offset: 89573},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2817, col: 12, offset: 89444},
+																									pos:        position{line: 2822, col: 12, offset: 89573},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2817, col: 16, offset: 89448},
+																									pos: position{line: 2822, col: 16, offset: 89577},
 																									expr: &litMatcher{
-																										pos:        position{line: 2817, col: 17, offset: 89449},
+																										pos:        position{line: 2822, col: 17, offset: 89578},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2825, col: 12, offset: 89709},
+																				pos: position{line: 2830, col: 12, offset: 89838},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 12, offset: 89709},
+																					pos:        position{line: 2830, col: 12, offset: 89838},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91401},
+													pos: position{line: 2918, col: 10, offset: 92369},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91401},
+														pos:        position{line: 2918, col: 10, offset: 92369},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91799},
+												pos: position{line: 2940, col: 8, offset: 92767},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91572},
+														pos: position{line: 2927, col: 12, offset: 92540},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91573},
+															pos: position{line: 2927, col: 13, offset: 92541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91573},
+																	pos:        position{line: 2927, col: 13, offset: 92541},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91580},
+																	pos:        position{line: 2927, col: 20, offset: 92548},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91589},
+																	pos:        position{line: 2927, col: 29, offset: 92557},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91749},
+														pos: position{line: 2937, col: 8, offset: 92717},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91750,
+															line: 2937, col: 9, offset: 92718,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91401},
+													pos: position{line: 2918, col: 10, offset: 92369},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91401},
+														pos:        position{line: 2918, col: 10, offset: 92369},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91799},
+												pos: position{line: 2940, col: 8, offset: 92767},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91572},
+														pos: position{line: 2927, col: 12, offset: 92540},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91573},
+															pos: position{line: 2927, col: 13, offset: 92541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91573},
+																	pos:        position{line: 2927, col: 13, offset: 92541},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91580},
+																	pos:        position{line: 2927, col: 20, offset: 92548},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91589},
+																	pos:        position{line: 2927, col: 29, offset: 92557},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91749},
+														pos: position{line: 2937, col: 8, offset: 92717},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91750,
+															line: 2937, col: 9, offset: 92718,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91401},
+											pos: position{line: 2918, col: 10, offset: 92369},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91401},
+												pos:        position{line: 2918, col: 10, offset: 92369},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2886, col: 10, offset: 91401},
+													pos: position{line: 2918, col: 10, offset: 92369},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 10, offset: 91401},
+														pos:        position{line: 2918, col: 10, offset: 92369},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91401},
+												pos: position{line: 2918, col: 10, offset: 92369},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91401},
+													pos:        position{line: 2918, col: 10, offset: 92369},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91401},
+											pos: position{line: 2918, col: 10, offset: 92369},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91401},
+												pos:        position{line: 2918, col: 10, offset: 92369},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91401},
+												pos: position{line: 2918, col: 10, offset: 92369},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91401},
+													pos:        position{line: 2918, col: 10, offset: 92369},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88556},
+									pos: position{line: 2785, col: 14, offset: 88685},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88556},
+										pos: position{line: 2785, col: 14, offset: 88685},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88556},
+											pos:        position{line: 2785, col: 14, offset: 88685},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91401},
+									pos: position{line: 2918, col: 10, offset: 92369},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91401},
+										pos:        position{line: 2918, col: 10, offset: 92369},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91401},
+												pos: position{line: 2918, col: 10, offset: 92369},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91401},
+													pos:        position{line: 2918, col: 10, offset: 92369},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88556},
+									pos: position{line: 2785, col: 14, offset: 88685},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88556},
+										pos: position{line: 2785, col: 14, offset: 88685},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88556},
+											pos:        position{line: 2785, col: 14, offset: 88685},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91401},
+									pos: position{line: 2918, col: 10, offset: 92369},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91401},
+										pos:        position{line: 2918, col: 10, offset: 92369},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91401},
+											pos: position{line: 2918, col: 10, offset: 92369},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91401},
+												pos:        position{line: 2918, col: 10, offset: 92369},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 7, offset: 91053},
+										pos: position{line: 2903, col: 7, offset: 92021},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 7, offset: 91053},
+											pos: position{line: 2903, col: 7, offset: 92021},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 7, offset: 91053},
+												pos:        position{line: 2903, col: 7, offset: 92021},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91401},
+										pos: position{line: 2918, col: 10, offset: 92369},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91401},
+											pos:        position{line: 2918, col: 10, offset: 92369},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 7, offset: 91053},
+										pos: position{line: 2903, col: 7, offset: 92021},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2871, col: 7, offset: 91053},
+											pos: position{line: 2903, col: 7, offset: 92021},
 											expr: &charClassMatcher{
-												pos:        position{line: 2871, col: 7, offset: 91053},
+												pos:        position{line: 2903, col: 7, offset: 92021},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2840, col: 17, offset: 90064},
+								pos: position{line: 2845, col: 17, offset: 90193},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2840, col: 17, offset: 90064},
+									pos:   position{line: 2845, col: 17, offset: 90193},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2857, col: 5, offset: 90518},
+										pos: position{line: 2866, col: 5, offset: 90778},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2857, col: 5, offset: 90518},
+											pos:   position{line: 2866, col: 5, offset: 90778},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2857, col: 14, offset: 90527},
+												pos: position{line: 2866, col: 14, offset: 90787},
 												expr: &choiceExpr{
-													pos: position{line: 2858, col: 9, offset: 90537},
+													pos: position{line: 2867, col: 9, offset: 90797},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2858, col: 9, offset: 90537},
+															pos: position{line: 2867, col: 9, offset: 90797},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2858, col: 9, offset: 90537},
+																pos: position{line: 2867, col: 9, offset: 90797},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2858, col: 9, offset: 90537},
+																		pos: position{line: 2867, col: 9, offset: 90797},
 																		expr: &litMatcher{
-																			pos:        position{line: 2858, col: 10, offset: 90538},
+																			pos:        position{line: 2867, col: 10, offset: 90798},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2859, col: 9, offset: 90566},
+																		pos: position{line: 2868, col: 9, offset: 90826},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2859, col: 10, offset: 90567},
+																			pos:        position{line: 2868, col: 10, offset: 90827},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2862, col: 11, offset: 90779},
+															pos: position{line: 2871, col: 11, offset: 91039},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2862, col: 11, offset: 90779},
+																	pos:        position{line: 2871, col: 11, offset: 91039},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2862, col: 19, offset: 90787},
+																	pos: position{line: 2871, col: 19, offset: 91047},
 																	expr: &seqExpr{
-																		pos: position{line: 2862, col: 21, offset: 90789},
+																		pos: position{line: 2871, col: 21, offset: 91049},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2862, col: 21, offset: 90789},
+																				pos: position{line: 2871, col: 21, offset: 91049},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91401},
+																					pos: position{line: 2918, col: 10, offset: 92369},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91401},
+																						pos:        position{line: 2918, col: 10, offset: 92369},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2862, col: 28, offset: 90796},
+																				pos: position{line: 2871, col: 28, offset: 91056},
 																				expr: &notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2865, col: 11, offset: 90916},
+															pos: position{line: 2874, col: 11, offset: 91176},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 11, offset: 90916},
+																pos:        position{line: 2874, col: 11, offset: 91176},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2836, col: 14, offset: 89994},
+								pos: position{line: 2841, col: 14, offset: 90123},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2836, col: 14, offset: 89994},
+									pos: position{line: 2841, col: 14, offset: 90123},
 									expr: &charClassMatcher{
-										pos:        position{line: 2836, col: 14, offset: 89994},
+										pos:        position{line: 2841, col: 14, offset: 90123},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80372},
+										pos: position{line: 2501, col: 22, offset: 80501},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80593},
+													pos:        position{line: 2506, col: 31, offset: 80722},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80598},
+													pos: position{line: 2506, col: 36, offset: 80727},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80599},
+														pos:        position{line: 2506, col: 37, offset: 80728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80399},
+													pos:   position{line: 2501, col: 49, offset: 80528},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89927},
+														pos: position{line: 2837, col: 13, offset: 90056},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89927},
+																pos:        position{line: 2837, col: 13, offset: 90056},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80372},
+										pos: position{line: 2501, col: 22, offset: 80501},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80593},
+													pos:        position{line: 2506, col: 31, offset: 80722},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80598},
+													pos: position{line: 2506, col: 36, offset: 80727},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80599},
+														pos:        position{line: 2506, col: 37, offset: 80728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80399},
+													pos:   position{line: 2501, col: 49, offset: 80528},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89927},
+														pos: position{line: 2837, col: 13, offset: 90056},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89927},
+																pos:        position{line: 2837, col: 13, offset: 90056},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2903, col: 11, offset: 91735},
+																										pos: position{line: 2935, col: 11, offset: 92703},
 																										expr: &anyMatcher{
-																											line: 2903, col: 13, offset: 91737,
+																											line: 2935, col: 13, offset: 92705,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80372},
+															pos: position{line: 2501, col: 22, offset: 80501},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80372},
+																pos: position{line: 2501, col: 22, offset: 80501},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80593},
+																		pos:        position{line: 2506, col: 31, offset: 80722},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80598},
+																		pos: position{line: 2506, col: 36, offset: 80727},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80599},
+																			pos:        position{line: 2506, col: 37, offset: 80728},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80399},
+																		pos:   position{line: 2501, col: 49, offset: 80528},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89927},
+																			pos: position{line: 2837, col: 13, offset: 90056},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89927},
+																				pos: position{line: 2837, col: 13, offset: 90056},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89927},
+																					pos:        position{line: 2837, col: 13, offset: 90056},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2886, col: 10, offset: 91401},
+																																	pos: position{line: 2918, col: 10, offset: 92369},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2886, col: 10, offset: 91401},
+																																		pos:        position{line: 2918, col: 10, offset: 92369},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2908, col: 8, offset: 91799},
+																																pos: position{line: 2940, col: 8, offset: 92767},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2895, col: 12, offset: 91572},
+																																		pos: position{line: 2927, col: 12, offset: 92540},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2895, col: 13, offset: 91573},
+																																			pos: position{line: 2927, col: 13, offset: 92541},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 13, offset: 91573},
+																																					pos:        position{line: 2927, col: 13, offset: 92541},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 20, offset: 91580},
+																																					pos:        position{line: 2927, col: 20, offset: 92548},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 29, offset: 91589},
+																																					pos:        position{line: 2927, col: 29, offset: 92557},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2905, col: 8, offset: 91749},
+																																		pos: position{line: 2937, col: 8, offset: 92717},
 																																		expr: &anyMatcher{
-																																			line: 2905, col: 9, offset: 91750,
+																																			line: 2937, col: 9, offset: 92718,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2903, col: 11, offset: 91735},
+																											pos: position{line: 2935, col: 11, offset: 92703},
 																											expr: &anyMatcher{
-																												line: 2903, col: 13, offset: 91737,
+																												line: 2935, col: 13, offset: 92705,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2832, col: 13, offset: 89927},
+																												pos: position{line: 2837, col: 13, offset: 90056},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2832, col: 13, offset: 89927},
+																													pos: position{line: 2837, col: 13, offset: 90056},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2832, col: 13, offset: 89927},
+																														pos:        position{line: 2837, col: 13, offset: 90056},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2886, col: 10, offset: 91401},
+															pos: position{line: 2918, col: 10, offset: 92369},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 10, offset: 91401},
+																pos:        position{line: 2918, col: 10, offset: 92369},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2496, col: 22, offset: 80372},
+												pos: position{line: 2501, col: 22, offset: 80501},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2501, col: 31, offset: 80593},
+														pos:        position{line: 2506, col: 31, offset: 80722},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2501, col: 36, offset: 80598},
+														pos: position{line: 2506, col: 36, offset: 80727},
 														expr: &litMatcher{
-															pos:        position{line: 2501, col: 37, offset: 80599},
+															pos:        position{line: 2506, col: 37, offset: 80728},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2496, col: 49, offset: 80399},
+														pos:   position{line: 2501, col: 49, offset: 80528},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2832, col: 13, offset: 89927},
+																pos: position{line: 2837, col: 13, offset: 90056},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2832, col: 13, offset: 89927},
+																	pos:        position{line: 2837, col: 13, offset: 90056},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2886, col: 10, offset: 91401},
+																													pos: position{line: 2918, col: 10, offset: 92369},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2886, col: 10, offset: 91401},
+																														pos:        position{line: 2918, col: 10, offset: 92369},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2908, col: 8, offset: 91799},
+																												pos: position{line: 2940, col: 8, offset: 92767},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2895, col: 12, offset: 91572},
+																														pos: position{line: 2927, col: 12, offset: 92540},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2895, col: 13, offset: 91573},
+																															pos: position{line: 2927, col: 13, offset: 92541},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 13, offset: 91573},
+																																	pos:        position{line: 2927, col: 13, offset: 92541},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 20, offset: 91580},
+																																	pos:        position{line: 2927, col: 20, offset: 92548},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2895, col: 29, offset: 91589},
+																																	pos:        position{line: 2927, col: 29, offset: 92557},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2905, col: 8, offset: 91749},
+																														pos: position{line: 2937, col: 8, offset: 92717},
 																														expr: &anyMatcher{
-																															line: 2905, col: 9, offset: 91750,
+																															line: 2937, col: 9, offset: 92718,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2832, col: 13, offset: 89927},
+																									pos: position{line: 2837, col: 13, offset: 90056},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2832, col: 13, offset: 89927},
+																										pos:        position{line: 2837, col: 13, offset: 90056},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2890, col: 11, offset: 91462},
+							pos: position{line: 2922, col: 11, offset: 92430},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2890, col: 11, offset: 91462},
+								pos: position{line: 2922, col: 11, offset: 92430},
 								expr: &charClassMatcher{
-									pos:        position{line: 2890, col: 11, offset: 91462},
+									pos:        position{line: 2922, col: 11, offset: 92430},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40664},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2871, col: 7, offset: 91053},
+								pos: position{line: 2903, col: 7, offset: 92021},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2871, col: 7, offset: 91053},
+									pos: position{line: 2903, col: 7, offset: 92021},
 									expr: &charClassMatcher{
-										pos:        position{line: 2871, col: 7, offset: 91053},
+										pos:        position{line: 2903, col: 7, offset: 92021},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41124},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2780, col: 14, offset: 88556},
+									pos: position{line: 2785, col: 14, offset: 88685},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2780, col: 14, offset: 88556},
+										pos: position{line: 2785, col: 14, offset: 88685},
 										expr: &charClassMatcher{
-											pos:        position{line: 2780, col: 14, offset: 88556},
+											pos:        position{line: 2785, col: 14, offset: 88685},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2886, col: 10, offset: 91401},
+									pos: position{line: 2918, col: 10, offset: 92369},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 10, offset: 91401},
+										pos:        position{line: 2918, col: 10, offset: 92369},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2483, col: 5, offset: 79918},
+									pos: position{line: 2488, col: 5, offset: 80047},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2483, col: 5, offset: 79918},
+										pos: position{line: 2488, col: 5, offset: 80047},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2483, col: 5, offset: 79918},
+												pos: position{line: 2488, col: 5, offset: 80047},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2486, col: 5, offset: 79994},
+												pos:   position{line: 2491, col: 5, offset: 80123},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2487, col: 9, offset: 80012},
+													pos: position{line: 2492, col: 9, offset: 80141},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2487, col: 10, offset: 80013},
+														pos:        position{line: 2492, col: 10, offset: 80142},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41942},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2844, col: 13, offset: 90160},
+								pos: position{line: 2849, col: 13, offset: 90289},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2844, col: 13, offset: 90160},
+									pos: position{line: 2849, col: 13, offset: 90289},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2844, col: 13, offset: 90160},
+											pos:   position{line: 2849, col: 13, offset: 90289},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2844, col: 20, offset: 90167},
+												pos: position{line: 2849, col: 20, offset: 90296},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 11, offset: 90406},
+													pos: position{line: 2861, col: 11, offset: 90666},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2852, col: 12, offset: 90407},
+														pos: position{line: 2861, col: 12, offset: 90667},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2852, col: 12, offset: 90407},
+																pos:        position{line: 2861, col: 12, offset: 90667},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 24, offset: 90419},
+																pos:        position{line: 2861, col: 24, offset: 90679},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 37, offset: 90432},
+																pos:        position{line: 2861, col: 37, offset: 90692},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 48, offset: 90443},
+																pos:        position{line: 2861, col: 48, offset: 90703},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 59, offset: 90454},
+																pos:        position{line: 2861, col: 59, offset: 90714},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2844, col: 30, offset: 90177},
+											pos:   position{line: 2849, col: 30, offset: 90306},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 5, offset: 90518},
+												pos: position{line: 2866, col: 5, offset: 90778},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2857, col: 5, offset: 90518},
+													pos:   position{line: 2866, col: 5, offset: 90778},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2857, col: 14, offset: 90527},
+														pos: position{line: 2866, col: 14, offset: 90787},
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 9, offset: 90537},
+															pos: position{line: 2867, col: 9, offset: 90797},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2858, col: 9, offset: 90537},
+																		pos: position{line: 2867, col: 9, offset: 90797},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				expr: &litMatcher{
-																					pos:        position{line: 2858, col: 10, offset: 90538},
+																					pos:        position{line: 2867, col: 10, offset: 90798},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2859, col: 9, offset: 90566},
+																				pos: position{line: 2868, col: 9, offset: 90826},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 10, offset: 90567},
+																					pos:        position{line: 2868, col: 10, offset: 90827},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90779},
+																	pos: position{line: 2871, col: 11, offset: 91039},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2862, col: 11, offset: 90779},
+																			pos:        position{line: 2871, col: 11, offset: 91039},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2862, col: 19, offset: 90787},
+																			pos: position{line: 2871, col: 19, offset: 91047},
 																			expr: &seqExpr{
-																				pos: position{line: 2862, col: 21, offset: 90789},
+																				pos: position{line: 2871, col: 21, offset: 91049},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2862, col: 28, offset: 90796},
+																						pos: position{line: 2871, col: 28, offset: 91056},
 																						expr: &notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90916},
+																	pos: position{line: 2874, col: 11, offset: 91176},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 11, offset: 90916},
+																		pos:        position{line: 2874, col: 11, offset: 91176},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41988},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42234},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2844, col: 13, offset: 90160},
+								pos: position{line: 2849, col: 13, offset: 90289},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2844, col: 13, offset: 90160},
+									pos: position{line: 2849, col: 13, offset: 90289},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2844, col: 13, offset: 90160},
+											pos:   position{line: 2849, col: 13, offset: 90289},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2844, col: 20, offset: 90167},
+												pos: position{line: 2849, col: 20, offset: 90296},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 11, offset: 90406},
+													pos: position{line: 2861, col: 11, offset: 90666},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2852, col: 12, offset: 90407},
+														pos: position{line: 2861, col: 12, offset: 90667},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2852, col: 12, offset: 90407},
+																pos:        position{line: 2861, col: 12, offset: 90667},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 24, offset: 90419},
+																pos:        position{line: 2861, col: 24, offset: 90679},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 37, offset: 90432},
+																pos:        position{line: 2861, col: 37, offset: 90692},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 48, offset: 90443},
+																pos:        position{line: 2861, col: 48, offset: 90703},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2852, col: 59, offset: 90454},
+																pos:        position{line: 2861, col: 59, offset: 90714},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2844, col: 30, offset: 90177},
+											pos:   position{line: 2849, col: 30, offset: 90306},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 5, offset: 90518},
+												pos: position{line: 2866, col: 5, offset: 90778},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2857, col: 5, offset: 90518},
+													pos:   position{line: 2866, col: 5, offset: 90778},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2857, col: 14, offset: 90527},
+														pos: position{line: 2866, col: 14, offset: 90787},
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 9, offset: 90537},
+															pos: position{line: 2867, col: 9, offset: 90797},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2858, col: 9, offset: 90537},
+																		pos: position{line: 2867, col: 9, offset: 90797},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				expr: &litMatcher{
-																					pos:        position{line: 2858, col: 10, offset: 90538},
+																					pos:        position{line: 2867, col: 10, offset: 90798},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2859, col: 9, offset: 90566},
+																				pos: position{line: 2868, col: 9, offset: 90826},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2859, col: 10, offset: 90567},
+																					pos:        position{line: 2868, col: 10, offset: 90827},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90779},
+																	pos: position{line: 2871, col: 11, offset: 91039},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2862, col: 11, offset: 90779},
+																			pos:        position{line: 2871, col: 11, offset: 91039},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2862, col: 19, offset: 90787},
+																			pos: position{line: 2871, col: 19, offset: 91047},
 																			expr: &seqExpr{
-																				pos: position{line: 2862, col: 21, offset: 90789},
+																				pos: position{line: 2871, col: 21, offset: 91049},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2862, col: 28, offset: 90796},
+																						pos: position{line: 2871, col: 28, offset: 91056},
 																						expr: &notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2865, col: 11, offset: 90916},
+																	pos: position{line: 2874, col: 11, offset: 91176},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 11, offset: 90916},
+																		pos:        position{line: 2874, col: 11, offset: 91176},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,21 +21475,21 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43520},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88629},
+										pos: position{line: 2790, col: 5, offset: 88758},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88629},
+											pos: position{line: 2790, col: 5, offset: 88758},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88629},
+													pos:   position{line: 2790, col: 5, offset: 88758},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88635},
+														pos: position{line: 2790, col: 11, offset: 88764},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88635},
+															pos: position{line: 2790, col: 11, offset: 88764},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88635},
+																pos:        position{line: 2790, col: 11, offset: 88764},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21499,32 +21499,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88693},
+													pos: position{line: 2793, col: 5, offset: 88822},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88704},
+														pos: position{line: 2794, col: 9, offset: 88833},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88704},
+																pos:        position{line: 2794, col: 9, offset: 88833},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88753},
+																pos: position{line: 2795, col: 9, offset: 88882},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88833},
+													pos: position{line: 2799, col: 5, offset: 88962},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88844},
+														pos: position{line: 2800, col: 9, offset: 88973},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88844},
+																pos: position{line: 2800, col: 9, offset: 88973},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88844},
+																	pos:        position{line: 2800, col: 9, offset: 88973},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21533,13 +21533,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88858},
+																pos:        position{line: 2800, col: 23, offset: 88987},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88862},
+																pos:        position{line: 2800, col: 27, offset: 88991},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21552,12 +21552,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 11, offset: 91462},
+										pos: position{line: 2922, col: 11, offset: 92430},
 										run: (*parser).callonFootnoteElement23,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 11, offset: 91462},
+											pos: position{line: 2922, col: 11, offset: 92430},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 11, offset: 91462},
+												pos:        position{line: 2922, col: 11, offset: 92430},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21566,21 +21566,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81089},
+										pos: position{line: 2519, col: 5, offset: 81218},
 										run: (*parser).callonFootnoteElement26,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81089},
+											pos: position{line: 2519, col: 5, offset: 81218},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81089},
+													pos:        position{line: 2519, col: 5, offset: 81218},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 10, offset: 81094},
+													pos: position{line: 2519, col: 10, offset: 81223},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 11, offset: 81095},
+														pos:        position{line: 2519, col: 11, offset: 81224},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21591,29 +21591,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81287},
+										pos: position{line: 2525, col: 5, offset: 81416},
 										run: (*parser).callonFootnoteElement31,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81287},
+											pos: position{line: 2525, col: 5, offset: 81416},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2520, col: 5, offset: 81287},
+													pos: position{line: 2525, col: 5, offset: 81416},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2523, col: 5, offset: 81358},
+													pos: position{line: 2528, col: 5, offset: 81487},
 													run: (*parser).callonFootnoteElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2527, col: 5, offset: 81483},
+													pos:        position{line: 2532, col: 5, offset: 81612},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2527, col: 9, offset: 81487},
+													pos: position{line: 2532, col: 9, offset: 81616},
 													expr: &charClassMatcher{
-														pos:        position{line: 2527, col: 10, offset: 81488},
+														pos:        position{line: 2532, col: 10, offset: 81617},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,27 +21632,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89055},
+										pos: position{line: 2808, col: 5, offset: 89184},
 										run: (*parser).callonFootnoteElement40,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89065},
+											pos: position{line: 2809, col: 9, offset: 89194},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89066},
+													pos:        position{line: 2809, col: 10, offset: 89195},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89163},
+													pos: position{line: 2811, col: 13, offset: 89292},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89163},
+															pos: position{line: 2811, col: 13, offset: 89292},
 															run: (*parser).callonFootnoteElement44,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89263},
+															pos:        position{line: 2814, col: 13, offset: 89392},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21660,20 +21660,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89269},
+													pos:        position{line: 2814, col: 19, offset: 89398},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89307},
+													pos: position{line: 2817, col: 13, offset: 89436},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89307},
+															pos: position{line: 2817, col: 13, offset: 89436},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89400},
+															pos:        position{line: 2820, col: 14, offset: 89529},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21682,18 +21682,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89444},
+													pos: position{line: 2822, col: 12, offset: 89573},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89444},
+															pos:        position{line: 2822, col: 12, offset: 89573},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89448},
+															pos: position{line: 2822, col: 16, offset: 89577},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89449},
+																pos:        position{line: 2822, col: 17, offset: 89578},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21731,10 +21731,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonFootnoteElement61,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21745,28 +21745,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonFootnoteElement65,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21775,9 +21775,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -22133,23 +22133,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79918},
+										pos: position{line: 2488, col: 5, offset: 80047},
 										run: (*parser).callonFootnoteElement141,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79918},
+													pos: position{line: 2488, col: 5, offset: 80047},
 													run: (*parser).callonFootnoteElement143,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79994},
+													pos:   position{line: 2491, col: 5, offset: 80123},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80012},
+														pos: position{line: 2492, col: 9, offset: 80141},
 														run: (*parser).callonFootnoteElement145,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80013},
+															pos:        position{line: 2492, col: 10, offset: 80142},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22161,25 +22161,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91572},
+										pos: position{line: 2927, col: 12, offset: 92540},
 										run: (*parser).callonFootnoteElement147,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91573},
+											pos: position{line: 2927, col: 13, offset: 92541},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91573},
+													pos:        position{line: 2927, col: 13, offset: 92541},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91580},
+													pos:        position{line: 2927, col: 20, offset: 92548},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91589},
+													pos:        position{line: 2927, col: 29, offset: 92557},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22188,10 +22188,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89709},
+										pos: position{line: 2830, col: 12, offset: 89838},
 										run: (*parser).callonFootnoteElement152,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89709},
+											pos:        position{line: 2830, col: 12, offset: 89838},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22323,55 +22323,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46226},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90287},
+										pos: position{line: 2853, col: 23, offset: 90416},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90287},
+											pos: position{line: 2853, col: 23, offset: 90416},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90287},
+													pos: position{line: 2853, col: 23, offset: 90416},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90288},
+														pos:        position{line: 2853, col: 24, offset: 90417},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90292},
+													pos:   position{line: 2853, col: 28, offset: 90421},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90406},
+														pos: position{line: 2861, col: 11, offset: 90666},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90407},
+															pos: position{line: 2861, col: 12, offset: 90667},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90407},
+																	pos:        position{line: 2861, col: 12, offset: 90667},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90419},
+																	pos:        position{line: 2861, col: 24, offset: 90679},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90432},
+																	pos:        position{line: 2861, col: 37, offset: 90692},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90443},
+																	pos:        position{line: 2861, col: 48, offset: 90703},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90454},
+																	pos:        position{line: 2861, col: 59, offset: 90714},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22381,38 +22381,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90308},
+													pos:   position{line: 2853, col: 44, offset: 90437},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22423,27 +22423,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22452,11 +22452,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -22851,10 +22851,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22888,30 +22888,30 @@ var g = &grammar{
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1473, col: 17, offset: 47438},
+						pos: position{line: 1478, col: 17, offset: 47567},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1473, col: 17, offset: 47438},
+							pos: position{line: 1478, col: 17, offset: 47567},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1473, col: 17, offset: 47438},
+									pos:   position{line: 1478, col: 17, offset: 47567},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1478, col: 5, offset: 47603},
+										pos: position{line: 1483, col: 5, offset: 47732},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1478, col: 5, offset: 47603},
+											pos: position{line: 1483, col: 5, offset: 47732},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1478, col: 5, offset: 47603},
+													pos:   position{line: 1483, col: 5, offset: 47732},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1478, col: 12, offset: 47610},
+														pos: position{line: 1483, col: 12, offset: 47739},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1478, col: 12, offset: 47610},
+															pos: position{line: 1483, col: 12, offset: 47739},
 															expr: &charClassMatcher{
-																pos:        position{line: 1478, col: 12, offset: 47610},
+																pos:        position{line: 1483, col: 12, offset: 47739},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22923,7 +22923,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1481, col: 5, offset: 47694},
+													pos: position{line: 1486, col: 5, offset: 47823},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22931,33 +22931,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1473, col: 43, offset: 47464},
+									pos:        position{line: 1478, col: 43, offset: 47593},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1473, col: 47, offset: 47468},
+									pos:   position{line: 1478, col: 47, offset: 47597},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1490, col: 23, offset: 47988},
+										pos: position{line: 1495, col: 23, offset: 48117},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1490, col: 23, offset: 47988},
+											pos: position{line: 1495, col: 23, offset: 48117},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1490, col: 23, offset: 47988},
+													pos:   position{line: 1495, col: 23, offset: 48117},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1490, col: 31, offset: 47996},
+														pos: position{line: 1495, col: 31, offset: 48125},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1490, col: 31, offset: 47996},
+															pos: position{line: 1495, col: 31, offset: 48125},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1490, col: 31, offset: 47996},
+																	pos: position{line: 1495, col: 31, offset: 48125},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1490, col: 31, offset: 47996},
+																		pos:        position{line: 1495, col: 31, offset: 48125},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22965,23 +22965,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1490, col: 41, offset: 48006},
+																	pos: position{line: 1495, col: 41, offset: 48135},
 																	expr: &seqExpr{
-																		pos: position{line: 1490, col: 42, offset: 48007},
+																		pos: position{line: 1495, col: 42, offset: 48136},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 42, offset: 48007},
+																				pos: position{line: 1495, col: 42, offset: 48136},
 																				expr: &litMatcher{
-																					pos:        position{line: 1490, col: 42, offset: 48007},
+																					pos:        position{line: 1495, col: 42, offset: 48136},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 47, offset: 48012},
+																				pos: position{line: 1495, col: 47, offset: 48141},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1490, col: 47, offset: 48012},
+																					pos:        position{line: 1495, col: 47, offset: 48141},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -22992,20 +22992,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1490, col: 59, offset: 48024},
+																	pos: position{line: 1495, col: 59, offset: 48153},
 																	expr: &seqExpr{
-																		pos: position{line: 1490, col: 60, offset: 48025},
+																		pos: position{line: 1495, col: 60, offset: 48154},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1490, col: 60, offset: 48025},
+																				pos:        position{line: 1495, col: 60, offset: 48154},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1490, col: 64, offset: 48029},
+																				pos: position{line: 1495, col: 64, offset: 48158},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1490, col: 64, offset: 48029},
+																					pos:        position{line: 1495, col: 64, offset: 48158},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23021,7 +23021,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1493, col: 5, offset: 48090},
+													pos: position{line: 1498, col: 5, offset: 48219},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23056,48 +23056,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46641},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 13, offset: 90160},
+										pos: position{line: 2849, col: 13, offset: 90289},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2844, col: 13, offset: 90160},
+											pos: position{line: 2849, col: 13, offset: 90289},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2844, col: 13, offset: 90160},
+													pos:   position{line: 2849, col: 13, offset: 90289},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2844, col: 20, offset: 90167},
+														pos: position{line: 2849, col: 20, offset: 90296},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90406},
+															pos: position{line: 2861, col: 11, offset: 90666},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 12, offset: 90407},
+																pos: position{line: 2861, col: 12, offset: 90667},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 12, offset: 90407},
+																		pos:        position{line: 2861, col: 12, offset: 90667},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 24, offset: 90419},
+																		pos:        position{line: 2861, col: 24, offset: 90679},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 37, offset: 90432},
+																		pos:        position{line: 2861, col: 37, offset: 90692},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 48, offset: 90443},
+																		pos:        position{line: 2861, col: 48, offset: 90703},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 59, offset: 90454},
+																		pos:        position{line: 2861, col: 59, offset: 90714},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23108,38 +23108,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2844, col: 30, offset: 90177},
+													pos:   position{line: 2849, col: 30, offset: 90306},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23150,27 +23150,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23179,11 +23179,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -23578,10 +23578,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23624,48 +23624,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46808},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 13, offset: 90160},
+										pos: position{line: 2849, col: 13, offset: 90289},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2844, col: 13, offset: 90160},
+											pos: position{line: 2849, col: 13, offset: 90289},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2844, col: 13, offset: 90160},
+													pos:   position{line: 2849, col: 13, offset: 90289},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2844, col: 20, offset: 90167},
+														pos: position{line: 2849, col: 20, offset: 90296},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90406},
+															pos: position{line: 2861, col: 11, offset: 90666},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2852, col: 12, offset: 90407},
+																pos: position{line: 2861, col: 12, offset: 90667},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 12, offset: 90407},
+																		pos:        position{line: 2861, col: 12, offset: 90667},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 24, offset: 90419},
+																		pos:        position{line: 2861, col: 24, offset: 90679},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 37, offset: 90432},
+																		pos:        position{line: 2861, col: 37, offset: 90692},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 48, offset: 90443},
+																		pos:        position{line: 2861, col: 48, offset: 90703},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2852, col: 59, offset: 90454},
+																		pos:        position{line: 2861, col: 59, offset: 90714},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23676,38 +23676,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2844, col: 30, offset: 90177},
+													pos:   position{line: 2849, col: 30, offset: 90306},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23718,27 +23718,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23747,11 +23747,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -24146,10 +24146,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24201,55 +24201,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47117},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90287},
+										pos: position{line: 2853, col: 23, offset: 90416},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90287},
+											pos: position{line: 2853, col: 23, offset: 90416},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90287},
+													pos: position{line: 2853, col: 23, offset: 90416},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90288},
+														pos:        position{line: 2853, col: 24, offset: 90417},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90292},
+													pos:   position{line: 2853, col: 28, offset: 90421},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90406},
+														pos: position{line: 2861, col: 11, offset: 90666},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90407},
+															pos: position{line: 2861, col: 12, offset: 90667},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90407},
+																	pos:        position{line: 2861, col: 12, offset: 90667},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90419},
+																	pos:        position{line: 2861, col: 24, offset: 90679},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90432},
+																	pos:        position{line: 2861, col: 37, offset: 90692},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90443},
+																	pos:        position{line: 2861, col: 48, offset: 90703},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90454},
+																	pos:        position{line: 2861, col: 59, offset: 90714},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24259,38 +24259,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90308},
+													pos:   position{line: 2853, col: 44, offset: 90437},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24301,27 +24301,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24330,11 +24330,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -24729,10 +24729,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24772,55 +24772,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47287},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 23, offset: 90287},
+										pos: position{line: 2853, col: 23, offset: 90416},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2848, col: 23, offset: 90287},
+											pos: position{line: 2853, col: 23, offset: 90416},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2848, col: 23, offset: 90287},
+													pos: position{line: 2853, col: 23, offset: 90416},
 													expr: &litMatcher{
-														pos:        position{line: 2848, col: 24, offset: 90288},
+														pos:        position{line: 2853, col: 24, offset: 90417},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 28, offset: 90292},
+													pos:   position{line: 2853, col: 28, offset: 90421},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 11, offset: 90406},
+														pos: position{line: 2861, col: 11, offset: 90666},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 12, offset: 90407},
+															pos: position{line: 2861, col: 12, offset: 90667},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2852, col: 12, offset: 90407},
+																	pos:        position{line: 2861, col: 12, offset: 90667},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 24, offset: 90419},
+																	pos:        position{line: 2861, col: 24, offset: 90679},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 37, offset: 90432},
+																	pos:        position{line: 2861, col: 37, offset: 90692},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 48, offset: 90443},
+																	pos:        position{line: 2861, col: 48, offset: 90703},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2852, col: 59, offset: 90454},
+																	pos:        position{line: 2861, col: 59, offset: 90714},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24830,38 +24830,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2848, col: 44, offset: 90308},
+													pos:   position{line: 2853, col: 44, offset: 90437},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 5, offset: 90518},
+														pos: position{line: 2866, col: 5, offset: 90778},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2857, col: 5, offset: 90518},
+															pos:   position{line: 2866, col: 5, offset: 90778},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2857, col: 14, offset: 90527},
+																pos: position{line: 2866, col: 14, offset: 90787},
 																expr: &choiceExpr{
-																	pos: position{line: 2858, col: 9, offset: 90537},
+																	pos: position{line: 2867, col: 9, offset: 90797},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2858, col: 9, offset: 90537},
+																			pos: position{line: 2867, col: 9, offset: 90797},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2858, col: 9, offset: 90537},
+																				pos: position{line: 2867, col: 9, offset: 90797},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2858, col: 9, offset: 90537},
+																						pos: position{line: 2867, col: 9, offset: 90797},
 																						expr: &litMatcher{
-																							pos:        position{line: 2858, col: 10, offset: 90538},
+																							pos:        position{line: 2867, col: 10, offset: 90798},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2859, col: 9, offset: 90566},
+																						pos: position{line: 2868, col: 9, offset: 90826},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2859, col: 10, offset: 90567},
+																							pos:        position{line: 2868, col: 10, offset: 90827},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24872,27 +24872,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2862, col: 11, offset: 90779},
+																			pos: position{line: 2871, col: 11, offset: 91039},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2862, col: 11, offset: 90779},
+																					pos:        position{line: 2871, col: 11, offset: 91039},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2862, col: 19, offset: 90787},
+																					pos: position{line: 2871, col: 19, offset: 91047},
 																					expr: &seqExpr{
-																						pos: position{line: 2862, col: 21, offset: 90789},
+																						pos: position{line: 2871, col: 21, offset: 91049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2862, col: 21, offset: 90789},
+																								pos: position{line: 2871, col: 21, offset: 91049},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24901,11 +24901,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2862, col: 28, offset: 90796},
+																								pos: position{line: 2871, col: 28, offset: 91056},
 																								expr: &notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -25300,10 +25300,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2865, col: 11, offset: 90916},
+																			pos: position{line: 2874, col: 11, offset: 91176},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 11, offset: 90916},
+																				pos:        position{line: 2874, col: 11, offset: 91176},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25322,11 +25322,576 @@ var g = &grammar{
 								&labeledExpr{
 									pos:   position{line: 1469, col: 30, offset: 47312},
 									label: "attributes",
-									expr: &zeroOrOneExpr{
-										pos: position{line: 1469, col: 41, offset: 47323},
-										expr: &ruleRefExpr{
-											pos:  position{line: 1469, col: 42, offset: 47324},
-											name: "InlineAttributes",
+									expr: &ruleRefExpr{
+										pos:  position{line: 1469, col: 42, offset: 47324},
+										name: "InlineAttributes",
+									},
+								},
+							},
+						},
+					},
+					&actionExpr{
+						pos: position{line: 1474, col: 5, offset: 47450},
+						run: (*parser).callonExternalLink238,
+						expr: &labeledExpr{
+							pos:   position{line: 1474, col: 5, offset: 47450},
+							label: "url",
+							expr: &actionExpr{
+								pos: position{line: 2857, col: 27, offset: 90551},
+								run: (*parser).callonExternalLink240,
+								expr: &seqExpr{
+									pos: position{line: 2857, col: 27, offset: 90551},
+									exprs: []interface{}{
+										&notExpr{
+											pos: position{line: 2857, col: 27, offset: 90551},
+											expr: &litMatcher{
+												pos:        position{line: 2857, col: 28, offset: 90552},
+												val:        "[",
+												ignoreCase: false,
+												want:       "\"[\"",
+											},
+										},
+										&labeledExpr{
+											pos:   position{line: 2857, col: 32, offset: 90556},
+											label: "scheme",
+											expr: &actionExpr{
+												pos: position{line: 2861, col: 11, offset: 90666},
+												run: (*parser).callonExternalLink245,
+												expr: &choiceExpr{
+													pos: position{line: 2861, col: 12, offset: 90667},
+													alternatives: []interface{}{
+														&litMatcher{
+															pos:        position{line: 2861, col: 12, offset: 90667},
+															val:        "http://",
+															ignoreCase: false,
+															want:       "\"http://\"",
+														},
+														&litMatcher{
+															pos:        position{line: 2861, col: 24, offset: 90679},
+															val:        "https://",
+															ignoreCase: false,
+															want:       "\"https://\"",
+														},
+														&litMatcher{
+															pos:        position{line: 2861, col: 37, offset: 90692},
+															val:        "ftp://",
+															ignoreCase: false,
+															want:       "\"ftp://\"",
+														},
+														&litMatcher{
+															pos:        position{line: 2861, col: 48, offset: 90703},
+															val:        "irc://",
+															ignoreCase: false,
+															want:       "\"irc://\"",
+														},
+														&litMatcher{
+															pos:        position{line: 2861, col: 59, offset: 90714},
+															val:        "mailto:",
+															ignoreCase: false,
+															want:       "\"mailto:\"",
+														},
+													},
+												},
+											},
+										},
+										&labeledExpr{
+											pos:   position{line: 2857, col: 48, offset: 90572},
+											label: "path",
+											expr: &actionExpr{
+												pos: position{line: 2882, col: 5, offset: 91462},
+												run: (*parser).callonExternalLink253,
+												expr: &labeledExpr{
+													pos:   position{line: 2882, col: 5, offset: 91462},
+													label: "elements",
+													expr: &oneOrMoreExpr{
+														pos: position{line: 2882, col: 14, offset: 91471},
+														expr: &choiceExpr{
+															pos: position{line: 2883, col: 9, offset: 91481},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2883, col: 9, offset: 91481},
+																	run: (*parser).callonExternalLink257,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2883, col: 9, offset: 91481},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2883, col: 10, offset: 91482},
+																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
+																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
+																			ignoreCase: false,
+																			inverted:   true,
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 2886, col: 11, offset: 91573},
+																	run: (*parser).callonExternalLink260,
+																	expr: &seqExpr{
+																		pos: position{line: 2886, col: 11, offset: 91573},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2886, col: 11, offset: 91573},
+																				val:        "(",
+																				ignoreCase: false,
+																				want:       "\"(\"",
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 2886, col: 15, offset: 91577},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2886, col: 15, offset: 91577},
+																					val:        "[^\\r\\n[]�{()<> ]",
+																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2886, col: 39, offset: 91601},
+																				val:        ")",
+																				ignoreCase: false,
+																				want:       "\")\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 2889, col: 11, offset: 91666},
+																	run: (*parser).callonExternalLink266,
+																	expr: &litMatcher{
+																		pos:        position{line: 2889, col: 11, offset: 91666},
+																		val:        "(",
+																		ignoreCase: false,
+																		want:       "\"(\"",
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 2892, col: 11, offset: 91731},
+																	run: (*parser).callonExternalLink268,
+																	expr: &seqExpr{
+																		pos: position{line: 2892, col: 11, offset: 91731},
+																		exprs: []interface{}{
+																			&oneOrMoreExpr{
+																				pos: position{line: 2892, col: 11, offset: 91731},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2892, col: 11, offset: 91731},
+																					val:        "[,;?!.)]",
+																					chars:      []rune{',', ';', '?', '!', '.', ')'},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																			&andExpr{
+																				pos: position{line: 2892, col: 21, offset: 91741},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2892, col: 23, offset: 91743},
+																					val:        "[^\\r\\n[],;?!.)<> ]",
+																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 656, col: 5, offset: 20755},
+																	run: (*parser).callonExternalLink274,
+																	expr: &seqExpr{
+																		pos: position{line: 656, col: 5, offset: 20755},
+																		exprs: []interface{}{
+																			&andCodeExpr{
+																				pos: position{line: 656, col: 5, offset: 20755},
+																				run: (*parser).callonExternalLink276,
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 659, col: 5, offset: 20827},
+																				label: "element",
+																				expr: &choiceExpr{
+																					pos: position{line: 659, col: 14, offset: 20836},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 665, col: 5, offset: 20965},
+																							run: (*parser).callonExternalLink279,
+																							expr: &seqExpr{
+																								pos: position{line: 665, col: 5, offset: 20965},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 665, col: 5, offset: 20965},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 665, col: 13, offset: 20973},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonExternalLink283,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 665, col: 32, offset: 20992},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 672, col: 5, offset: 21233},
+																							run: (*parser).callonExternalLink289,
+																							expr: &seqExpr{
+																								pos: position{line: 672, col: 5, offset: 21233},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 672, col: 5, offset: 21233},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 672, col: 9, offset: 21237},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonExternalLink293,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 672, col: 28, offset: 21256},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 678, col: 25, offset: 21437},
+																							run: (*parser).callonExternalLink299,
+																							expr: &seqExpr{
+																								pos: position{line: 678, col: 25, offset: 21437},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 678, col: 25, offset: 21437},
+																										val:        "{counter:",
+																										ignoreCase: false,
+																										want:       "\"{counter:\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 678, col: 37, offset: 21449},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonExternalLink303,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 678, col: 56, offset: 21468},
+																										label: "start",
+																										expr: &zeroOrOneExpr{
+																											pos: position{line: 678, col: 62, offset: 21474},
+																											expr: &actionExpr{
+																												pos: position{line: 686, col: 17, offset: 21769},
+																												run: (*parser).callonExternalLink310,
+																												expr: &seqExpr{
+																													pos: position{line: 686, col: 17, offset: 21769},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 686, col: 17, offset: 21769},
+																															val:        ":",
+																															ignoreCase: false,
+																															want:       "\":\"",
+																														},
+																														&labeledExpr{
+																															pos:   position{line: 686, col: 21, offset: 21773},
+																															label: "start",
+																															expr: &choiceExpr{
+																																pos: position{line: 686, col: 28, offset: 21780},
+																																alternatives: []interface{}{
+																																	&actionExpr{
+																																		pos: position{line: 686, col: 28, offset: 21780},
+																																		run: (*parser).callonExternalLink315,
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 686, col: 28, offset: 21780},
+																																			val:        "[A-Za-z]",
+																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																			ignoreCase: false,
+																																			inverted:   false,
+																																		},
+																																	},
+																																	&actionExpr{
+																																		pos: position{line: 688, col: 9, offset: 21834},
+																																		run: (*parser).callonExternalLink317,
+																																		expr: &oneOrMoreExpr{
+																																			pos: position{line: 688, col: 9, offset: 21834},
+																																			expr: &charClassMatcher{
+																																				pos:        position{line: 688, col: 9, offset: 21834},
+																																				val:        "[0-9]",
+																																				ranges:     []rune{'0', '9'},
+																																				ignoreCase: false,
+																																				inverted:   false,
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 678, col: 78, offset: 21490},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 682, col: 25, offset: 21608},
+																							run: (*parser).callonExternalLink321,
+																							expr: &seqExpr{
+																								pos: position{line: 682, col: 25, offset: 21608},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 682, col: 25, offset: 21608},
+																										val:        "{counter2:",
+																										ignoreCase: false,
+																										want:       "\"{counter2:\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 682, col: 38, offset: 21621},
+																										label: "name",
+																										expr: &actionExpr{
+																											pos: position{line: 319, col: 18, offset: 9747},
+																											run: (*parser).callonExternalLink325,
+																											expr: &seqExpr{
+																												pos: position{line: 319, col: 18, offset: 9747},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 319, col: 18, offset: 9747},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
+																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 319, col: 28, offset: 9757},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 319, col: 29, offset: 9758},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 682, col: 57, offset: 21640},
+																										label: "start",
+																										expr: &zeroOrOneExpr{
+																											pos: position{line: 682, col: 63, offset: 21646},
+																											expr: &actionExpr{
+																												pos: position{line: 686, col: 17, offset: 21769},
+																												run: (*parser).callonExternalLink332,
+																												expr: &seqExpr{
+																													pos: position{line: 686, col: 17, offset: 21769},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 686, col: 17, offset: 21769},
+																															val:        ":",
+																															ignoreCase: false,
+																															want:       "\":\"",
+																														},
+																														&labeledExpr{
+																															pos:   position{line: 686, col: 21, offset: 21773},
+																															label: "start",
+																															expr: &choiceExpr{
+																																pos: position{line: 686, col: 28, offset: 21780},
+																																alternatives: []interface{}{
+																																	&actionExpr{
+																																		pos: position{line: 686, col: 28, offset: 21780},
+																																		run: (*parser).callonExternalLink337,
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 686, col: 28, offset: 21780},
+																																			val:        "[A-Za-z]",
+																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																			ignoreCase: false,
+																																			inverted:   false,
+																																		},
+																																	},
+																																	&actionExpr{
+																																		pos: position{line: 688, col: 9, offset: 21834},
+																																		run: (*parser).callonExternalLink339,
+																																		expr: &oneOrMoreExpr{
+																																			pos: position{line: 688, col: 9, offset: 21834},
+																																			expr: &charClassMatcher{
+																																				pos:        position{line: 688, col: 9, offset: 21834},
+																																				val:        "[0-9]",
+																																				ranges:     []rune{'0', '9'},
+																																				ignoreCase: false,
+																																				inverted:   false,
+																																			},
+																																		},
+																																	},
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																									&litMatcher{
+																										pos:        position{line: 682, col: 79, offset: 21662},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 1226, col: 23, offset: 37843},
+																	run: (*parser).callonExternalLink343,
+																	expr: &seqExpr{
+																		pos: position{line: 1226, col: 23, offset: 37843},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 1224, col: 32, offset: 37811},
+																				val:        "�",
+																				ignoreCase: false,
+																				want:       "\"�\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 1226, col: 51, offset: 37871},
+																				label: "ref",
+																				expr: &actionExpr{
+																					pos: position{line: 1226, col: 56, offset: 37876},
+																					run: (*parser).callonExternalLink347,
+																					expr: &oneOrMoreExpr{
+																						pos: position{line: 1226, col: 56, offset: 37876},
+																						expr: &charClassMatcher{
+																							pos:        position{line: 1226, col: 56, offset: 37876},
+																							val:        "[0-9]",
+																							ranges:     []rune{'0', '9'},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 1224, col: 32, offset: 37811},
+																				val:        "�",
+																				ignoreCase: false,
+																				want:       "\"�\"",
+																			},
+																		},
+																	},
+																},
+																&actionExpr{
+																	pos: position{line: 2897, col: 11, offset: 91884},
+																	run: (*parser).callonExternalLink351,
+																	expr: &litMatcher{
+																		pos:        position{line: 2897, col: 11, offset: 91884},
+																		val:        "{",
+																		ignoreCase: false,
+																		want:       "\"{\"",
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
@@ -25338,41 +25903,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1503, col: 1, offset: 48483},
+			pos:  position{line: 1508, col: 1, offset: 48612},
 			expr: &actionExpr{
-				pos: position{line: 1504, col: 5, offset: 48504},
+				pos: position{line: 1509, col: 5, offset: 48633},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1504, col: 5, offset: 48504},
+					pos: position{line: 1509, col: 5, offset: 48633},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1504, col: 5, offset: 48504},
+							pos:   position{line: 1509, col: 5, offset: 48633},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1510, col: 5, offset: 48706},
+								pos: position{line: 1515, col: 5, offset: 48835},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1603, col: 5, offset: 51680},
+										pos: position{line: 1608, col: 5, offset: 51809},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1603, col: 5, offset: 51680},
+											pos: position{line: 1608, col: 5, offset: 51809},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1603, col: 5, offset: 51680},
+													pos:   position{line: 1608, col: 5, offset: 51809},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51888},
+														pos: position{line: 1615, col: 5, offset: 52017},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51888},
+															pos: position{line: 1615, col: 5, offset: 52017},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51888},
+																	pos: position{line: 1615, col: 5, offset: 52017},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25381,27 +25946,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51895},
+																	pos:   position{line: 1615, col: 12, offset: 52024},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51958},
+																		pos: position{line: 1617, col: 9, offset: 52087},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51958},
+																				pos: position{line: 1617, col: 9, offset: 52087},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51958},
+																					pos: position{line: 1617, col: 9, offset: 52087},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51958},
+																							pos:   position{line: 1617, col: 9, offset: 52087},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51965},
+																								pos: position{line: 1617, col: 16, offset: 52094},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51965},
+																									pos: position{line: 1617, col: 16, offset: 52094},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51966},
+																										pos:        position{line: 1617, col: 17, offset: 52095},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25410,22 +25975,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52066},
+																							pos: position{line: 1621, col: 9, offset: 52195},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52783},
+																				pos: position{line: 1640, col: 11, offset: 52912},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52783},
+																					pos: position{line: 1640, col: 11, offset: 52912},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52783},
+																							pos: position{line: 1640, col: 11, offset: 52912},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52784},
+																								pos:        position{line: 1640, col: 12, offset: 52913},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25433,7 +25998,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52792},
+																							pos:        position{line: 1640, col: 20, offset: 52921},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25442,20 +26007,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52909},
+																				pos: position{line: 1642, col: 13, offset: 53038},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52909},
+																					pos: position{line: 1642, col: 13, offset: 53038},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52910},
+																							pos:        position{line: 1642, col: 14, offset: 53039},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52917},
+																							pos:        position{line: 1642, col: 21, offset: 53046},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25464,20 +26029,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53037},
+																				pos: position{line: 1644, col: 13, offset: 53166},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53037},
+																					pos: position{line: 1644, col: 13, offset: 53166},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53038},
+																							pos:        position{line: 1644, col: 14, offset: 53167},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53045},
+																							pos:        position{line: 1644, col: 21, offset: 53174},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25486,15 +26051,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53165},
+																				pos: position{line: 1646, col: 13, offset: 53294},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53165},
+																					pos: position{line: 1646, col: 13, offset: 53294},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53165},
+																							pos: position{line: 1646, col: 13, offset: 53294},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53166},
+																								pos:        position{line: 1646, col: 14, offset: 53295},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25502,7 +26067,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53178},
+																							pos:        position{line: 1646, col: 26, offset: 53307},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25511,15 +26076,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53298},
+																				pos: position{line: 1648, col: 13, offset: 53427},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53298},
+																					pos: position{line: 1648, col: 13, offset: 53427},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53298},
+																							pos: position{line: 1648, col: 13, offset: 53427},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53299},
+																								pos:        position{line: 1648, col: 14, offset: 53428},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25527,7 +26092,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53311},
+																							pos:        position{line: 1648, col: 26, offset: 53440},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25539,12 +26104,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25557,26 +26122,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51719},
+													pos:   position{line: 1609, col: 5, offset: 51848},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25587,28 +26152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25617,9 +26182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -25632,27 +26197,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1653, col: 5, offset: 53577},
+										pos: position{line: 1658, col: 5, offset: 53706},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1653, col: 5, offset: 53577},
+											pos: position{line: 1658, col: 5, offset: 53706},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53577},
+													pos:   position{line: 1658, col: 5, offset: 53706},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53850},
+														pos: position{line: 1665, col: 5, offset: 53979},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53850},
+															pos: position{line: 1665, col: 5, offset: 53979},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53850},
+																	pos: position{line: 1665, col: 5, offset: 53979},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25661,24 +26226,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53862},
+																	pos:   position{line: 1666, col: 5, offset: 53991},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53878},
+																		pos: position{line: 1667, col: 9, offset: 54007},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53879},
+																			pos: position{line: 1667, col: 10, offset: 54008},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53880},
+																					pos:        position{line: 1667, col: 11, offset: 54009},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53887},
+																					pos: position{line: 1667, col: 18, offset: 54016},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53888},
+																						pos:        position{line: 1667, col: 19, offset: 54017},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25689,16 +26254,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53978},
+																	pos: position{line: 1670, col: 7, offset: 54107},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25711,56 +26276,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53618},
+													pos:   position{line: 1659, col: 5, offset: 53747},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1654, col: 16, offset: 53629},
+														pos: position{line: 1659, col: 16, offset: 53758},
 														expr: &actionExpr{
-															pos: position{line: 1675, col: 5, offset: 54243},
+															pos: position{line: 1680, col: 5, offset: 54372},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 5, offset: 54243},
+																pos: position{line: 1680, col: 5, offset: 54372},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1675, col: 5, offset: 54243},
+																		pos: position{line: 1680, col: 5, offset: 54372},
 																		expr: &litMatcher{
-																			pos:        position{line: 1675, col: 6, offset: 54244},
+																			pos:        position{line: 1680, col: 6, offset: 54373},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1675, col: 10, offset: 54248},
+																		pos:   position{line: 1680, col: 10, offset: 54377},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1676, col: 7, offset: 54262},
+																			pos: position{line: 1681, col: 7, offset: 54391},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54262},
+																					pos: position{line: 1681, col: 7, offset: 54391},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54262},
+																						pos:        position{line: 1681, col: 7, offset: 54391},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1677, col: 7, offset: 54307},
+																					pos: position{line: 1682, col: 7, offset: 54436},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1677, col: 7, offset: 54307},
+																						pos:        position{line: 1682, col: 7, offset: 54436},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1678, col: 7, offset: 54350},
+																					pos: position{line: 1683, col: 7, offset: 54479},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 7, offset: 54350},
+																						pos:        position{line: 1683, col: 7, offset: 54479},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25770,12 +26335,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2890, col: 11, offset: 91462},
+																			pos: position{line: 2922, col: 11, offset: 92430},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2890, col: 11, offset: 91462},
+																				pos:        position{line: 2922, col: 11, offset: 92430},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25789,26 +26354,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53668},
+													pos:   position{line: 1660, col: 5, offset: 53797},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25819,28 +26384,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25849,9 +26414,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -25864,36 +26429,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1743, col: 5, offset: 56190},
+										pos: position{line: 1748, col: 5, offset: 56319},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1743, col: 5, offset: 56190},
+											pos: position{line: 1748, col: 5, offset: 56319},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56190},
+													pos:   position{line: 1748, col: 5, offset: 56319},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56387},
+														pos: position{line: 1754, col: 5, offset: 56516},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56387},
+															pos: position{line: 1754, col: 5, offset: 56516},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56387},
+																	pos:        position{line: 1754, col: 5, offset: 56516},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56391},
+																	pos:   position{line: 1754, col: 9, offset: 56520},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56396},
+																		pos: position{line: 1754, col: 14, offset: 56525},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56396},
+																			pos: position{line: 1754, col: 14, offset: 56525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56396},
+																				pos:        position{line: 1754, col: 14, offset: 56525},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25903,18 +26468,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56444},
+																	pos:        position{line: 1754, col: 62, offset: 56573},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25927,26 +26492,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1744, col: 5, offset: 56226},
+													pos:   position{line: 1749, col: 5, offset: 56355},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25957,28 +26522,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25987,9 +26552,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -26002,40 +26567,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1687, col: 5, offset: 54543},
+										pos: position{line: 1692, col: 5, offset: 54672},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1687, col: 5, offset: 54543},
+											pos: position{line: 1692, col: 5, offset: 54672},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54543},
+													pos:   position{line: 1692, col: 5, offset: 54672},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1695, col: 5, offset: 54869},
+														pos: position{line: 1700, col: 5, offset: 54998},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1695, col: 5, offset: 54869},
+															pos: position{line: 1700, col: 5, offset: 54998},
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 6, offset: 54870},
+																pos: position{line: 1700, col: 6, offset: 54999},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1695, col: 6, offset: 54870},
+																		pos: position{line: 1700, col: 6, offset: 54999},
 																		expr: &actionExpr{
-																			pos: position{line: 1700, col: 5, offset: 55020},
+																			pos: position{line: 1705, col: 5, offset: 55149},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1700, col: 5, offset: 55020},
+																				pos: position{line: 1705, col: 5, offset: 55149},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1700, col: 5, offset: 55020},
+																						pos:   position{line: 1705, col: 5, offset: 55149},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1700, col: 16, offset: 55031},
+																							pos: position{line: 1705, col: 16, offset: 55160},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1700, col: 16, offset: 55031},
+																								pos: position{line: 1705, col: 16, offset: 55160},
 																								expr: &litMatcher{
-																									pos:        position{line: 1700, col: 17, offset: 55032},
+																									pos:        position{line: 1705, col: 17, offset: 55161},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26044,7 +26609,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1703, col: 5, offset: 55089},
+																						pos: position{line: 1708, col: 5, offset: 55218},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26052,30 +26617,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1695, col: 35, offset: 54899},
+																		pos: position{line: 1700, col: 35, offset: 55028},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26084,16 +26649,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1695, col: 40, offset: 54904,
+																		line: 1700, col: 40, offset: 55033,
 																	},
 																},
 															},
@@ -26101,24 +26666,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1688, col: 5, offset: 54578},
+													pos:   position{line: 1693, col: 5, offset: 54707},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 55020},
+														pos: position{line: 1705, col: 5, offset: 55149},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1700, col: 5, offset: 55020},
+															pos: position{line: 1705, col: 5, offset: 55149},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1700, col: 5, offset: 55020},
+																	pos:   position{line: 1705, col: 5, offset: 55149},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1700, col: 16, offset: 55031},
+																		pos: position{line: 1705, col: 16, offset: 55160},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1700, col: 16, offset: 55031},
+																			pos: position{line: 1705, col: 16, offset: 55160},
 																			expr: &litMatcher{
-																				pos:        position{line: 1700, col: 17, offset: 55032},
+																				pos:        position{line: 1705, col: 17, offset: 55161},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26127,7 +26692,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1703, col: 5, offset: 55089},
+																	pos: position{line: 1708, col: 5, offset: 55218},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26135,24 +26700,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1689, col: 5, offset: 54623},
+													pos:   position{line: 1694, col: 5, offset: 54752},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1711, col: 5, offset: 55338},
+														pos: position{line: 1716, col: 5, offset: 55467},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1713, col: 9, offset: 55404},
+																pos: position{line: 1718, col: 9, offset: 55533},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1713, col: 9, offset: 55404},
+																	pos: position{line: 1718, col: 9, offset: 55533},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55404},
+																			pos: position{line: 1718, col: 9, offset: 55533},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26161,28 +26726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26191,15 +26756,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1714, col: 9, offset: 55423},
+																			pos: position{line: 1719, col: 9, offset: 55552},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26207,18 +26772,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26227,28 +26792,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26257,9 +26822,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -26272,18 +26837,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 9, offset: 55552},
+																pos: position{line: 1725, col: 9, offset: 55681},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 9, offset: 55552},
+																	pos: position{line: 1725, col: 9, offset: 55681},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 11, offset: 91462},
+																			pos: position{line: 2922, col: 11, offset: 92430},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2890, col: 11, offset: 91462},
+																				pos: position{line: 2922, col: 11, offset: 92430},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 11, offset: 91462},
+																					pos:        position{line: 2922, col: 11, offset: 92430},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26292,15 +26857,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 9, offset: 55625},
+																			pos:   position{line: 1726, col: 9, offset: 55754},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 18, offset: 55634},
+																				pos: position{line: 1726, col: 18, offset: 55763},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1721, col: 18, offset: 55634},
+																					pos: position{line: 1726, col: 18, offset: 55763},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1721, col: 18, offset: 55634},
+																						pos:        position{line: 1726, col: 18, offset: 55763},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26310,28 +26875,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26340,9 +26905,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -26360,10 +26925,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1505, col: 5, offset: 48535},
+							pos:   position{line: 1510, col: 5, offset: 48664},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1505, col: 20, offset: 48550},
+								pos:  position{line: 1510, col: 20, offset: 48679},
 								name: "ExtraListElements",
 							},
 						},
@@ -26373,17 +26938,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1515, col: 1, offset: 48805},
+			pos:  position{line: 1520, col: 1, offset: 48934},
 			expr: &actionExpr{
-				pos: position{line: 1515, col: 22, offset: 48826},
+				pos: position{line: 1520, col: 22, offset: 48955},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1515, col: 22, offset: 48826},
+					pos:   position{line: 1520, col: 22, offset: 48955},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1515, col: 31, offset: 48835},
+						pos: position{line: 1520, col: 31, offset: 48964},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1515, col: 32, offset: 48836},
+							pos:  position{line: 1520, col: 32, offset: 48965},
 							name: "ExtraListElement",
 						},
 					},
@@ -26392,33 +26957,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1519, col: 1, offset: 48916},
+			pos:  position{line: 1524, col: 1, offset: 49045},
 			expr: &actionExpr{
-				pos: position{line: 1520, col: 5, offset: 49055},
+				pos: position{line: 1525, col: 5, offset: 49184},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1520, col: 5, offset: 49055},
+					pos: position{line: 1525, col: 5, offset: 49184},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1521, col: 5, offset: 49067},
+							pos:   position{line: 1526, col: 5, offset: 49196},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1522, col: 9, offset: 49085},
+								pos: position{line: 1527, col: 9, offset: 49214},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1522, col: 13, offset: 49089},
+										pos: position{line: 1527, col: 13, offset: 49218},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1522, col: 13, offset: 49089},
+											pos: position{line: 1527, col: 13, offset: 49218},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1522, col: 13, offset: 49089},
+													pos: position{line: 1527, col: 13, offset: 49218},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -26426,18 +26991,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2903, col: 11, offset: 91735},
+																	pos: position{line: 2935, col: 11, offset: 92703},
 																	expr: &anyMatcher{
-																		line: 2903, col: 13, offset: 91737,
+																		line: 2935, col: 13, offset: 92705,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26446,28 +27011,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26476,9 +27041,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -26488,33 +27053,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1523, col: 13, offset: 49113},
+													pos:   position{line: 1528, col: 13, offset: 49242},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1523, col: 22, offset: 49122},
+														pos: position{line: 1528, col: 22, offset: 49251},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1603, col: 5, offset: 51680},
+																pos: position{line: 1608, col: 5, offset: 51809},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1603, col: 5, offset: 51680},
+																	pos: position{line: 1608, col: 5, offset: 51809},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1603, col: 5, offset: 51680},
+																			pos:   position{line: 1608, col: 5, offset: 51809},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1610, col: 5, offset: 51888},
+																				pos: position{line: 1615, col: 5, offset: 52017},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 5, offset: 51888},
+																					pos: position{line: 1615, col: 5, offset: 52017},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1610, col: 5, offset: 51888},
+																							pos: position{line: 1615, col: 5, offset: 52017},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26523,27 +27088,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 12, offset: 51895},
+																							pos:   position{line: 1615, col: 12, offset: 52024},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1612, col: 9, offset: 51958},
+																								pos: position{line: 1617, col: 9, offset: 52087},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1612, col: 9, offset: 51958},
+																										pos: position{line: 1617, col: 9, offset: 52087},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 9, offset: 51958},
+																											pos: position{line: 1617, col: 9, offset: 52087},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1612, col: 9, offset: 51958},
+																													pos:   position{line: 1617, col: 9, offset: 52087},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1612, col: 16, offset: 51965},
+																														pos: position{line: 1617, col: 16, offset: 52094},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1612, col: 16, offset: 51965},
+																															pos: position{line: 1617, col: 16, offset: 52094},
 																															expr: &litMatcher{
-																																pos:        position{line: 1612, col: 17, offset: 51966},
+																																pos:        position{line: 1617, col: 17, offset: 52095},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26552,22 +27117,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1616, col: 9, offset: 52066},
+																													pos: position{line: 1621, col: 9, offset: 52195},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 11, offset: 52783},
+																										pos: position{line: 1640, col: 11, offset: 52912},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 11, offset: 52783},
+																											pos: position{line: 1640, col: 11, offset: 52912},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1635, col: 11, offset: 52783},
+																													pos: position{line: 1640, col: 11, offset: 52912},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1635, col: 12, offset: 52784},
+																														pos:        position{line: 1640, col: 12, offset: 52913},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26575,7 +27140,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 20, offset: 52792},
+																													pos:        position{line: 1640, col: 20, offset: 52921},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26584,20 +27149,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 52909},
+																										pos: position{line: 1642, col: 13, offset: 53038},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 52909},
+																											pos: position{line: 1642, col: 13, offset: 53038},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 52910},
+																													pos:        position{line: 1642, col: 14, offset: 53039},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 52917},
+																													pos:        position{line: 1642, col: 21, offset: 53046},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26606,20 +27171,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53037},
+																										pos: position{line: 1644, col: 13, offset: 53166},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53037},
+																											pos: position{line: 1644, col: 13, offset: 53166},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1639, col: 14, offset: 53038},
+																													pos:        position{line: 1644, col: 14, offset: 53167},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 21, offset: 53045},
+																													pos:        position{line: 1644, col: 21, offset: 53174},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26628,15 +27193,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53165},
+																										pos: position{line: 1646, col: 13, offset: 53294},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53165},
+																											pos: position{line: 1646, col: 13, offset: 53294},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53165},
+																													pos: position{line: 1646, col: 13, offset: 53294},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53166},
+																														pos:        position{line: 1646, col: 14, offset: 53295},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26644,7 +27209,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53178},
+																													pos:        position{line: 1646, col: 26, offset: 53307},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26653,15 +27218,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53298},
+																										pos: position{line: 1648, col: 13, offset: 53427},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53298},
+																											pos: position{line: 1648, col: 13, offset: 53427},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1643, col: 13, offset: 53298},
+																													pos: position{line: 1648, col: 13, offset: 53427},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1643, col: 14, offset: 53299},
+																														pos:        position{line: 1648, col: 14, offset: 53428},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26669,7 +27234,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 26, offset: 53311},
+																													pos:        position{line: 1648, col: 26, offset: 53440},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26681,12 +27246,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26699,26 +27264,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1604, col: 5, offset: 51719},
+																			pos:   position{line: 1609, col: 5, offset: 51848},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26729,28 +27294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26759,9 +27324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -26774,27 +27339,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1653, col: 5, offset: 53577},
+																pos: position{line: 1658, col: 5, offset: 53706},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1653, col: 5, offset: 53577},
+																	pos: position{line: 1658, col: 5, offset: 53706},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53577},
+																			pos:   position{line: 1658, col: 5, offset: 53706},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1660, col: 5, offset: 53850},
+																				pos: position{line: 1665, col: 5, offset: 53979},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1660, col: 5, offset: 53850},
+																					pos: position{line: 1665, col: 5, offset: 53979},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1660, col: 5, offset: 53850},
+																							pos: position{line: 1665, col: 5, offset: 53979},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26803,24 +27368,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1661, col: 5, offset: 53862},
+																							pos:   position{line: 1666, col: 5, offset: 53991},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1662, col: 9, offset: 53878},
+																								pos: position{line: 1667, col: 9, offset: 54007},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 10, offset: 53879},
+																									pos: position{line: 1667, col: 10, offset: 54008},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1662, col: 11, offset: 53880},
+																											pos:        position{line: 1667, col: 11, offset: 54009},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1662, col: 18, offset: 53887},
+																											pos: position{line: 1667, col: 18, offset: 54016},
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 19, offset: 53888},
+																												pos:        position{line: 1667, col: 19, offset: 54017},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26831,16 +27396,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1665, col: 7, offset: 53978},
+																							pos: position{line: 1670, col: 7, offset: 54107},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26853,56 +27418,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53618},
+																			pos:   position{line: 1659, col: 5, offset: 53747},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1654, col: 16, offset: 53629},
+																				pos: position{line: 1659, col: 16, offset: 53758},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54243},
+																					pos: position{line: 1680, col: 5, offset: 54372},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54243},
+																						pos: position{line: 1680, col: 5, offset: 54372},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1675, col: 5, offset: 54243},
+																								pos: position{line: 1680, col: 5, offset: 54372},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 6, offset: 54244},
+																									pos:        position{line: 1680, col: 6, offset: 54373},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 10, offset: 54248},
+																								pos:   position{line: 1680, col: 10, offset: 54377},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1676, col: 7, offset: 54262},
+																									pos: position{line: 1681, col: 7, offset: 54391},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54262},
+																											pos: position{line: 1681, col: 7, offset: 54391},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54262},
+																												pos:        position{line: 1681, col: 7, offset: 54391},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1677, col: 7, offset: 54307},
+																											pos: position{line: 1682, col: 7, offset: 54436},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1677, col: 7, offset: 54307},
+																												pos:        position{line: 1682, col: 7, offset: 54436},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1678, col: 7, offset: 54350},
+																											pos: position{line: 1683, col: 7, offset: 54479},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1678, col: 7, offset: 54350},
+																												pos:        position{line: 1683, col: 7, offset: 54479},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26912,12 +27477,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2890, col: 11, offset: 91462},
+																									pos: position{line: 2922, col: 11, offset: 92430},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 11, offset: 91462},
+																										pos:        position{line: 2922, col: 11, offset: 92430},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26931,26 +27496,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53668},
+																			pos:   position{line: 1660, col: 5, offset: 53797},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26961,28 +27526,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26991,9 +27556,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -27006,36 +27571,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1743, col: 5, offset: 56190},
+																pos: position{line: 1748, col: 5, offset: 56319},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1743, col: 5, offset: 56190},
+																	pos: position{line: 1748, col: 5, offset: 56319},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56190},
+																			pos:   position{line: 1748, col: 5, offset: 56319},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1749, col: 5, offset: 56387},
+																				pos: position{line: 1754, col: 5, offset: 56516},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1749, col: 5, offset: 56387},
+																					pos: position{line: 1754, col: 5, offset: 56516},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 5, offset: 56387},
+																							pos:        position{line: 1754, col: 5, offset: 56516},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1749, col: 9, offset: 56391},
+																							pos:   position{line: 1754, col: 9, offset: 56520},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1749, col: 14, offset: 56396},
+																								pos: position{line: 1754, col: 14, offset: 56525},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1749, col: 14, offset: 56396},
+																									pos: position{line: 1754, col: 14, offset: 56525},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1749, col: 14, offset: 56396},
+																										pos:        position{line: 1754, col: 14, offset: 56525},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27045,18 +27610,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 62, offset: 56444},
+																							pos:        position{line: 1754, col: 62, offset: 56573},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27069,26 +27634,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1744, col: 5, offset: 56226},
+																			pos:   position{line: 1749, col: 5, offset: 56355},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27099,28 +27664,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27129,9 +27694,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -27144,40 +27709,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54543},
+																pos: position{line: 1692, col: 5, offset: 54672},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54543},
+																	pos: position{line: 1692, col: 5, offset: 54672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54543},
+																			pos:   position{line: 1692, col: 5, offset: 54672},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54869},
+																				pos: position{line: 1700, col: 5, offset: 54998},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54869},
+																					pos: position{line: 1700, col: 5, offset: 54998},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54870},
+																						pos: position{line: 1700, col: 6, offset: 54999},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54870},
+																								pos: position{line: 1700, col: 6, offset: 54999},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55020},
+																									pos: position{line: 1705, col: 5, offset: 55149},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55020},
+																										pos: position{line: 1705, col: 5, offset: 55149},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55020},
+																												pos:   position{line: 1705, col: 5, offset: 55149},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55031},
+																													pos: position{line: 1705, col: 16, offset: 55160},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55031},
+																														pos: position{line: 1705, col: 16, offset: 55160},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55032},
+																															pos:        position{line: 1705, col: 17, offset: 55161},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27186,7 +27751,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55089},
+																												pos: position{line: 1708, col: 5, offset: 55218},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27194,30 +27759,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54899},
+																								pos: position{line: 1700, col: 35, offset: 55028},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27226,16 +27791,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54904,
+																								line: 1700, col: 40, offset: 55033,
 																							},
 																						},
 																					},
@@ -27243,24 +27808,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 5, offset: 54578},
+																			pos:   position{line: 1693, col: 5, offset: 54707},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55020},
+																				pos: position{line: 1705, col: 5, offset: 55149},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55020},
+																					pos: position{line: 1705, col: 5, offset: 55149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55020},
+																							pos:   position{line: 1705, col: 5, offset: 55149},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55031},
+																								pos: position{line: 1705, col: 16, offset: 55160},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55031},
+																									pos: position{line: 1705, col: 16, offset: 55160},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55032},
+																										pos:        position{line: 1705, col: 17, offset: 55161},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27269,7 +27834,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55089},
+																							pos: position{line: 1708, col: 5, offset: 55218},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27277,24 +27842,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 5, offset: 54623},
+																			pos:   position{line: 1694, col: 5, offset: 54752},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1711, col: 5, offset: 55338},
+																				pos: position{line: 1716, col: 5, offset: 55467},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1713, col: 9, offset: 55404},
+																						pos: position{line: 1718, col: 9, offset: 55533},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1713, col: 9, offset: 55404},
+																							pos: position{line: 1718, col: 9, offset: 55533},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55404},
+																									pos: position{line: 1718, col: 9, offset: 55533},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27303,28 +27868,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27333,15 +27898,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1714, col: 9, offset: 55423},
+																									pos: position{line: 1719, col: 9, offset: 55552},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27349,18 +27914,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2903, col: 11, offset: 91735},
+																													pos: position{line: 2935, col: 11, offset: 92703},
 																													expr: &anyMatcher{
-																														line: 2903, col: 13, offset: 91737,
+																														line: 2935, col: 13, offset: 92705,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27369,28 +27934,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27399,9 +27964,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -27414,18 +27979,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1720, col: 9, offset: 55552},
+																						pos: position{line: 1725, col: 9, offset: 55681},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1720, col: 9, offset: 55552},
+																							pos: position{line: 1725, col: 9, offset: 55681},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91462},
+																									pos: position{line: 2922, col: 11, offset: 92430},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91462},
+																										pos: position{line: 2922, col: 11, offset: 92430},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91462},
+																											pos:        position{line: 2922, col: 11, offset: 92430},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27434,15 +27999,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1721, col: 9, offset: 55625},
+																									pos:   position{line: 1726, col: 9, offset: 55754},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1721, col: 18, offset: 55634},
+																										pos: position{line: 1726, col: 18, offset: 55763},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1721, col: 18, offset: 55634},
+																											pos: position{line: 1726, col: 18, offset: 55763},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1721, col: 18, offset: 55634},
+																												pos:        position{line: 1726, col: 18, offset: 55763},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27452,28 +28017,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27482,9 +28047,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -27505,50 +28070,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1526, col: 13, offset: 49273},
+										pos: position{line: 1531, col: 13, offset: 49402},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1526, col: 13, offset: 49273},
+											pos: position{line: 1531, col: 13, offset: 49402},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1526, col: 13, offset: 49273},
+													pos:   position{line: 1531, col: 13, offset: 49402},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1526, col: 24, offset: 49284},
+														pos: position{line: 1531, col: 24, offset: 49413},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1526, col: 25, offset: 49285},
+															pos:  position{line: 1531, col: 25, offset: 49414},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1527, col: 13, offset: 49316},
+													pos:   position{line: 1532, col: 13, offset: 49445},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1527, col: 22, offset: 49325},
+														pos: position{line: 1532, col: 22, offset: 49454},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1603, col: 5, offset: 51680},
+																pos: position{line: 1608, col: 5, offset: 51809},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1603, col: 5, offset: 51680},
+																	pos: position{line: 1608, col: 5, offset: 51809},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1603, col: 5, offset: 51680},
+																			pos:   position{line: 1608, col: 5, offset: 51809},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1610, col: 5, offset: 51888},
+																				pos: position{line: 1615, col: 5, offset: 52017},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 5, offset: 51888},
+																					pos: position{line: 1615, col: 5, offset: 52017},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1610, col: 5, offset: 51888},
+																							pos: position{line: 1615, col: 5, offset: 52017},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27557,27 +28122,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1610, col: 12, offset: 51895},
+																							pos:   position{line: 1615, col: 12, offset: 52024},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1612, col: 9, offset: 51958},
+																								pos: position{line: 1617, col: 9, offset: 52087},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1612, col: 9, offset: 51958},
+																										pos: position{line: 1617, col: 9, offset: 52087},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 9, offset: 51958},
+																											pos: position{line: 1617, col: 9, offset: 52087},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1612, col: 9, offset: 51958},
+																													pos:   position{line: 1617, col: 9, offset: 52087},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1612, col: 16, offset: 51965},
+																														pos: position{line: 1617, col: 16, offset: 52094},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1612, col: 16, offset: 51965},
+																															pos: position{line: 1617, col: 16, offset: 52094},
 																															expr: &litMatcher{
-																																pos:        position{line: 1612, col: 17, offset: 51966},
+																																pos:        position{line: 1617, col: 17, offset: 52095},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27586,22 +28151,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1616, col: 9, offset: 52066},
+																													pos: position{line: 1621, col: 9, offset: 52195},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1635, col: 11, offset: 52783},
+																										pos: position{line: 1640, col: 11, offset: 52912},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1635, col: 11, offset: 52783},
+																											pos: position{line: 1640, col: 11, offset: 52912},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1635, col: 11, offset: 52783},
+																													pos: position{line: 1640, col: 11, offset: 52912},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1635, col: 12, offset: 52784},
+																														pos:        position{line: 1640, col: 12, offset: 52913},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27609,7 +28174,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1635, col: 20, offset: 52792},
+																													pos:        position{line: 1640, col: 20, offset: 52921},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27618,20 +28183,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1637, col: 13, offset: 52909},
+																										pos: position{line: 1642, col: 13, offset: 53038},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1637, col: 13, offset: 52909},
+																											pos: position{line: 1642, col: 13, offset: 53038},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1637, col: 14, offset: 52910},
+																													pos:        position{line: 1642, col: 14, offset: 53039},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1637, col: 21, offset: 52917},
+																													pos:        position{line: 1642, col: 21, offset: 53046},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27640,20 +28205,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1639, col: 13, offset: 53037},
+																										pos: position{line: 1644, col: 13, offset: 53166},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1639, col: 13, offset: 53037},
+																											pos: position{line: 1644, col: 13, offset: 53166},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1639, col: 14, offset: 53038},
+																													pos:        position{line: 1644, col: 14, offset: 53167},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1639, col: 21, offset: 53045},
+																													pos:        position{line: 1644, col: 21, offset: 53174},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27662,15 +28227,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 13, offset: 53165},
+																										pos: position{line: 1646, col: 13, offset: 53294},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 13, offset: 53165},
+																											pos: position{line: 1646, col: 13, offset: 53294},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 13, offset: 53165},
+																													pos: position{line: 1646, col: 13, offset: 53294},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 14, offset: 53166},
+																														pos:        position{line: 1646, col: 14, offset: 53295},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27678,7 +28243,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 26, offset: 53178},
+																													pos:        position{line: 1646, col: 26, offset: 53307},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27687,15 +28252,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53298},
+																										pos: position{line: 1648, col: 13, offset: 53427},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53298},
+																											pos: position{line: 1648, col: 13, offset: 53427},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1643, col: 13, offset: 53298},
+																													pos: position{line: 1648, col: 13, offset: 53427},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1643, col: 14, offset: 53299},
+																														pos:        position{line: 1648, col: 14, offset: 53428},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27703,7 +28268,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 26, offset: 53311},
+																													pos:        position{line: 1648, col: 26, offset: 53440},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27715,12 +28280,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27733,26 +28298,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1604, col: 5, offset: 51719},
+																			pos:   position{line: 1609, col: 5, offset: 51848},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27763,28 +28328,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27793,9 +28358,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -27808,27 +28373,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1653, col: 5, offset: 53577},
+																pos: position{line: 1658, col: 5, offset: 53706},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1653, col: 5, offset: 53577},
+																	pos: position{line: 1658, col: 5, offset: 53706},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1653, col: 5, offset: 53577},
+																			pos:   position{line: 1658, col: 5, offset: 53706},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1660, col: 5, offset: 53850},
+																				pos: position{line: 1665, col: 5, offset: 53979},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1660, col: 5, offset: 53850},
+																					pos: position{line: 1665, col: 5, offset: 53979},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1660, col: 5, offset: 53850},
+																							pos: position{line: 1665, col: 5, offset: 53979},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27837,24 +28402,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1661, col: 5, offset: 53862},
+																							pos:   position{line: 1666, col: 5, offset: 53991},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1662, col: 9, offset: 53878},
+																								pos: position{line: 1667, col: 9, offset: 54007},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1662, col: 10, offset: 53879},
+																									pos: position{line: 1667, col: 10, offset: 54008},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1662, col: 11, offset: 53880},
+																											pos:        position{line: 1667, col: 11, offset: 54009},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1662, col: 18, offset: 53887},
+																											pos: position{line: 1667, col: 18, offset: 54016},
 																											expr: &litMatcher{
-																												pos:        position{line: 1662, col: 19, offset: 53888},
+																												pos:        position{line: 1667, col: 19, offset: 54017},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27865,16 +28430,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1665, col: 7, offset: 53978},
+																							pos: position{line: 1670, col: 7, offset: 54107},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27887,56 +28452,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53618},
+																			pos:   position{line: 1659, col: 5, offset: 53747},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1654, col: 16, offset: 53629},
+																				pos: position{line: 1659, col: 16, offset: 53758},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54243},
+																					pos: position{line: 1680, col: 5, offset: 54372},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54243},
+																						pos: position{line: 1680, col: 5, offset: 54372},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1675, col: 5, offset: 54243},
+																								pos: position{line: 1680, col: 5, offset: 54372},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 6, offset: 54244},
+																									pos:        position{line: 1680, col: 6, offset: 54373},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 10, offset: 54248},
+																								pos:   position{line: 1680, col: 10, offset: 54377},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1676, col: 7, offset: 54262},
+																									pos: position{line: 1681, col: 7, offset: 54391},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1676, col: 7, offset: 54262},
+																											pos: position{line: 1681, col: 7, offset: 54391},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1676, col: 7, offset: 54262},
+																												pos:        position{line: 1681, col: 7, offset: 54391},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1677, col: 7, offset: 54307},
+																											pos: position{line: 1682, col: 7, offset: 54436},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1677, col: 7, offset: 54307},
+																												pos:        position{line: 1682, col: 7, offset: 54436},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1678, col: 7, offset: 54350},
+																											pos: position{line: 1683, col: 7, offset: 54479},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1678, col: 7, offset: 54350},
+																												pos:        position{line: 1683, col: 7, offset: 54479},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27946,12 +28511,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2890, col: 11, offset: 91462},
+																									pos: position{line: 2922, col: 11, offset: 92430},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2890, col: 11, offset: 91462},
+																										pos:        position{line: 2922, col: 11, offset: 92430},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27965,26 +28530,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53668},
+																			pos:   position{line: 1660, col: 5, offset: 53797},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27995,28 +28560,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28025,9 +28590,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -28040,36 +28605,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1743, col: 5, offset: 56190},
+																pos: position{line: 1748, col: 5, offset: 56319},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1743, col: 5, offset: 56190},
+																	pos: position{line: 1748, col: 5, offset: 56319},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1743, col: 5, offset: 56190},
+																			pos:   position{line: 1748, col: 5, offset: 56319},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1749, col: 5, offset: 56387},
+																				pos: position{line: 1754, col: 5, offset: 56516},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1749, col: 5, offset: 56387},
+																					pos: position{line: 1754, col: 5, offset: 56516},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 5, offset: 56387},
+																							pos:        position{line: 1754, col: 5, offset: 56516},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1749, col: 9, offset: 56391},
+																							pos:   position{line: 1754, col: 9, offset: 56520},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1749, col: 14, offset: 56396},
+																								pos: position{line: 1754, col: 14, offset: 56525},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1749, col: 14, offset: 56396},
+																									pos: position{line: 1754, col: 14, offset: 56525},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1749, col: 14, offset: 56396},
+																										pos:        position{line: 1754, col: 14, offset: 56525},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28079,18 +28644,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1749, col: 62, offset: 56444},
+																							pos:        position{line: 1754, col: 62, offset: 56573},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28103,26 +28668,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1744, col: 5, offset: 56226},
+																			pos:   position{line: 1749, col: 5, offset: 56355},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1551, col: 5, offset: 50186},
+																				pos: position{line: 1556, col: 5, offset: 50315},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1551, col: 5, offset: 50186},
+																					pos: position{line: 1556, col: 5, offset: 50315},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1551, col: 5, offset: 50186},
+																							pos:   position{line: 1556, col: 5, offset: 50315},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1551, col: 14, offset: 50195},
+																								pos: position{line: 1556, col: 14, offset: 50324},
 																								expr: &actionExpr{
-																									pos: position{line: 1551, col: 15, offset: 50196},
+																									pos: position{line: 1556, col: 15, offset: 50325},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1551, col: 15, offset: 50196},
+																										pos: position{line: 1556, col: 15, offset: 50325},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1551, col: 15, offset: 50196},
+																											pos:        position{line: 1556, col: 15, offset: 50325},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28133,28 +28698,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28163,9 +28728,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -28178,40 +28743,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 5, offset: 54543},
+																pos: position{line: 1692, col: 5, offset: 54672},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 5, offset: 54543},
+																	pos: position{line: 1692, col: 5, offset: 54672},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1687, col: 5, offset: 54543},
+																			pos:   position{line: 1692, col: 5, offset: 54672},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54869},
+																				pos: position{line: 1700, col: 5, offset: 54998},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54869},
+																					pos: position{line: 1700, col: 5, offset: 54998},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54870},
+																						pos: position{line: 1700, col: 6, offset: 54999},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54870},
+																								pos: position{line: 1700, col: 6, offset: 54999},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55020},
+																									pos: position{line: 1705, col: 5, offset: 55149},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55020},
+																										pos: position{line: 1705, col: 5, offset: 55149},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55020},
+																												pos:   position{line: 1705, col: 5, offset: 55149},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55031},
+																													pos: position{line: 1705, col: 16, offset: 55160},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55031},
+																														pos: position{line: 1705, col: 16, offset: 55160},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55032},
+																															pos:        position{line: 1705, col: 17, offset: 55161},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28220,7 +28785,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55089},
+																												pos: position{line: 1708, col: 5, offset: 55218},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28228,30 +28793,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54899},
+																								pos: position{line: 1700, col: 35, offset: 55028},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28260,16 +28825,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54904,
+																								line: 1700, col: 40, offset: 55033,
 																							},
 																						},
 																					},
@@ -28277,24 +28842,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 5, offset: 54578},
+																			pos:   position{line: 1693, col: 5, offset: 54707},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55020},
+																				pos: position{line: 1705, col: 5, offset: 55149},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55020},
+																					pos: position{line: 1705, col: 5, offset: 55149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55020},
+																							pos:   position{line: 1705, col: 5, offset: 55149},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55031},
+																								pos: position{line: 1705, col: 16, offset: 55160},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55031},
+																									pos: position{line: 1705, col: 16, offset: 55160},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55032},
+																										pos:        position{line: 1705, col: 17, offset: 55161},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28303,7 +28868,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55089},
+																							pos: position{line: 1708, col: 5, offset: 55218},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28311,24 +28876,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 5, offset: 54623},
+																			pos:   position{line: 1694, col: 5, offset: 54752},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1711, col: 5, offset: 55338},
+																				pos: position{line: 1716, col: 5, offset: 55467},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1713, col: 9, offset: 55404},
+																						pos: position{line: 1718, col: 9, offset: 55533},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1713, col: 9, offset: 55404},
+																							pos: position{line: 1718, col: 9, offset: 55533},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1713, col: 9, offset: 55404},
+																									pos: position{line: 1718, col: 9, offset: 55533},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28337,28 +28902,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28367,15 +28932,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1714, col: 9, offset: 55423},
+																									pos: position{line: 1719, col: 9, offset: 55552},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28383,18 +28948,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2903, col: 11, offset: 91735},
+																													pos: position{line: 2935, col: 11, offset: 92703},
 																													expr: &anyMatcher{
-																														line: 2903, col: 13, offset: 91737,
+																														line: 2935, col: 13, offset: 92705,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28403,28 +28968,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28433,9 +28998,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -28448,18 +29013,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1720, col: 9, offset: 55552},
+																						pos: position{line: 1725, col: 9, offset: 55681},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1720, col: 9, offset: 55552},
+																							pos: position{line: 1725, col: 9, offset: 55681},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91462},
+																									pos: position{line: 2922, col: 11, offset: 92430},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91462},
+																										pos: position{line: 2922, col: 11, offset: 92430},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91462},
+																											pos:        position{line: 2922, col: 11, offset: 92430},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28468,15 +29033,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1721, col: 9, offset: 55625},
+																									pos:   position{line: 1726, col: 9, offset: 55754},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1721, col: 18, offset: 55634},
+																										pos: position{line: 1726, col: 18, offset: 55763},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1721, col: 18, offset: 55634},
+																											pos: position{line: 1726, col: 18, offset: 55763},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1721, col: 18, offset: 55634},
+																												pos:        position{line: 1726, col: 18, offset: 55763},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28486,28 +29051,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28516,9 +29081,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -28539,40 +29104,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1530, col: 11, offset: 49510},
+										pos:  position{line: 1535, col: 11, offset: 49639},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80372},
+										pos: position{line: 2501, col: 22, offset: 80501},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80593},
+													pos:        position{line: 2506, col: 31, offset: 80722},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80598},
+													pos: position{line: 2506, col: 36, offset: 80727},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80599},
+														pos:        position{line: 2506, col: 37, offset: 80728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80399},
+													pos:   position{line: 2501, col: 49, offset: 80528},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89927},
+														pos: position{line: 2837, col: 13, offset: 90056},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89927},
+																pos:        position{line: 2837, col: 13, offset: 90056},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28582,28 +29147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28612,9 +29177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -28623,13 +29188,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1538, col: 5, offset: 49774},
+										pos: position{line: 1543, col: 5, offset: 49903},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1538, col: 5, offset: 49774},
+											pos: position{line: 1543, col: 5, offset: 49903},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1538, col: 5, offset: 49774},
+													pos: position{line: 1543, col: 5, offset: 49903},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -28637,18 +29202,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2903, col: 11, offset: 91735},
+																	pos: position{line: 2935, col: 11, offset: 92703},
 																	expr: &anyMatcher{
-																		line: 2903, col: 13, offset: 91737,
+																		line: 2935, col: 13, offset: 92705,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28657,28 +29222,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28687,9 +29252,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -28699,23 +29264,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1539, col: 5, offset: 49789},
+													pos: position{line: 1544, col: 5, offset: 49918},
 													expr: &seqExpr{
-														pos: position{line: 1569, col: 27, offset: 50694},
+														pos: position{line: 1574, col: 27, offset: 50823},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1569, col: 27, offset: 50694},
+																pos:        position{line: 1574, col: 27, offset: 50823},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1569, col: 31, offset: 50698},
+																pos: position{line: 1574, col: 31, offset: 50827},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28724,25 +29289,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28754,20 +29319,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1540, col: 5, offset: 49817},
+													pos: position{line: 1545, col: 5, offset: 49946},
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51888},
+														pos: position{line: 1615, col: 5, offset: 52017},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51888},
+															pos: position{line: 1615, col: 5, offset: 52017},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51888},
+																	pos: position{line: 1615, col: 5, offset: 52017},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28776,27 +29341,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51895},
+																	pos:   position{line: 1615, col: 12, offset: 52024},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51958},
+																		pos: position{line: 1617, col: 9, offset: 52087},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51958},
+																				pos: position{line: 1617, col: 9, offset: 52087},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51958},
+																					pos: position{line: 1617, col: 9, offset: 52087},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51958},
+																							pos:   position{line: 1617, col: 9, offset: 52087},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51965},
+																								pos: position{line: 1617, col: 16, offset: 52094},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51965},
+																									pos: position{line: 1617, col: 16, offset: 52094},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51966},
+																										pos:        position{line: 1617, col: 17, offset: 52095},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28805,22 +29370,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52066},
+																							pos: position{line: 1621, col: 9, offset: 52195},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52783},
+																				pos: position{line: 1640, col: 11, offset: 52912},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52783},
+																					pos: position{line: 1640, col: 11, offset: 52912},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52783},
+																							pos: position{line: 1640, col: 11, offset: 52912},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52784},
+																								pos:        position{line: 1640, col: 12, offset: 52913},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28828,7 +29393,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52792},
+																							pos:        position{line: 1640, col: 20, offset: 52921},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28837,20 +29402,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52909},
+																				pos: position{line: 1642, col: 13, offset: 53038},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52909},
+																					pos: position{line: 1642, col: 13, offset: 53038},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52910},
+																							pos:        position{line: 1642, col: 14, offset: 53039},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52917},
+																							pos:        position{line: 1642, col: 21, offset: 53046},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28859,20 +29424,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53037},
+																				pos: position{line: 1644, col: 13, offset: 53166},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53037},
+																					pos: position{line: 1644, col: 13, offset: 53166},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53038},
+																							pos:        position{line: 1644, col: 14, offset: 53167},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53045},
+																							pos:        position{line: 1644, col: 21, offset: 53174},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28881,15 +29446,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53165},
+																				pos: position{line: 1646, col: 13, offset: 53294},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53165},
+																					pos: position{line: 1646, col: 13, offset: 53294},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53165},
+																							pos: position{line: 1646, col: 13, offset: 53294},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53166},
+																								pos:        position{line: 1646, col: 14, offset: 53295},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28897,7 +29462,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53178},
+																							pos:        position{line: 1646, col: 26, offset: 53307},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28906,15 +29471,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53298},
+																				pos: position{line: 1648, col: 13, offset: 53427},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53298},
+																					pos: position{line: 1648, col: 13, offset: 53427},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53298},
+																							pos: position{line: 1648, col: 13, offset: 53427},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53299},
+																								pos:        position{line: 1648, col: 14, offset: 53428},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28922,7 +29487,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53311},
+																							pos:        position{line: 1648, col: 26, offset: 53440},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28934,12 +29499,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28952,20 +29517,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1541, col: 5, offset: 49847},
+													pos: position{line: 1546, col: 5, offset: 49976},
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53850},
+														pos: position{line: 1665, col: 5, offset: 53979},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53850},
+															pos: position{line: 1665, col: 5, offset: 53979},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53850},
+																	pos: position{line: 1665, col: 5, offset: 53979},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28974,24 +29539,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53862},
+																	pos:   position{line: 1666, col: 5, offset: 53991},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53878},
+																		pos: position{line: 1667, col: 9, offset: 54007},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53879},
+																			pos: position{line: 1667, col: 10, offset: 54008},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53880},
+																					pos:        position{line: 1667, col: 11, offset: 54009},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53887},
+																					pos: position{line: 1667, col: 18, offset: 54016},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53888},
+																						pos:        position{line: 1667, col: 19, offset: 54017},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29002,16 +29567,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53978},
+																	pos: position{line: 1670, col: 7, offset: 54107},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29024,29 +29589,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1542, col: 5, offset: 49879},
+													pos: position{line: 1547, col: 5, offset: 50008},
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56387},
+														pos: position{line: 1754, col: 5, offset: 56516},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56387},
+															pos: position{line: 1754, col: 5, offset: 56516},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56387},
+																	pos:        position{line: 1754, col: 5, offset: 56516},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56391},
+																	pos:   position{line: 1754, col: 9, offset: 56520},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56396},
+																		pos: position{line: 1754, col: 14, offset: 56525},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56396},
+																			pos: position{line: 1754, col: 14, offset: 56525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56396},
+																				pos:        position{line: 1754, col: 14, offset: 56525},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29056,18 +29621,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56444},
+																	pos:        position{line: 1754, col: 62, offset: 56573},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29080,36 +29645,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1543, col: 5, offset: 49909},
+													pos: position{line: 1548, col: 5, offset: 50038},
 													expr: &seqExpr{
-														pos: position{line: 1543, col: 7, offset: 49911},
+														pos: position{line: 1548, col: 7, offset: 50040},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1695, col: 5, offset: 54869},
+																pos: position{line: 1700, col: 5, offset: 54998},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1695, col: 5, offset: 54869},
+																	pos: position{line: 1700, col: 5, offset: 54998},
 																	expr: &seqExpr{
-																		pos: position{line: 1695, col: 6, offset: 54870},
+																		pos: position{line: 1700, col: 6, offset: 54999},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1695, col: 6, offset: 54870},
+																				pos: position{line: 1700, col: 6, offset: 54999},
 																				expr: &actionExpr{
-																					pos: position{line: 1700, col: 5, offset: 55020},
+																					pos: position{line: 1705, col: 5, offset: 55149},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1700, col: 5, offset: 55020},
+																						pos: position{line: 1705, col: 5, offset: 55149},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1700, col: 5, offset: 55020},
+																								pos:   position{line: 1705, col: 5, offset: 55149},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 16, offset: 55031},
+																									pos: position{line: 1705, col: 16, offset: 55160},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1700, col: 16, offset: 55031},
+																										pos: position{line: 1705, col: 16, offset: 55160},
 																										expr: &litMatcher{
-																											pos:        position{line: 1700, col: 17, offset: 55032},
+																											pos:        position{line: 1705, col: 17, offset: 55161},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29118,7 +29683,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1703, col: 5, offset: 55089},
+																								pos: position{line: 1708, col: 5, offset: 55218},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29126,30 +29691,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1695, col: 35, offset: 54899},
+																				pos: position{line: 1700, col: 35, offset: 55028},
 																				expr: &choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29158,37 +29723,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1695, col: 40, offset: 54904,
+																				line: 1700, col: 40, offset: 55033,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 5, offset: 55020},
+																pos: position{line: 1705, col: 5, offset: 55149},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 5, offset: 55020},
+																	pos: position{line: 1705, col: 5, offset: 55149},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 5, offset: 55020},
+																			pos:   position{line: 1705, col: 5, offset: 55149},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 16, offset: 55031},
+																				pos: position{line: 1705, col: 16, offset: 55160},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 16, offset: 55031},
+																					pos: position{line: 1705, col: 16, offset: 55160},
 																					expr: &litMatcher{
-																						pos:        position{line: 1700, col: 17, offset: 55032},
+																						pos:        position{line: 1705, col: 17, offset: 55161},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29197,20 +29762,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1703, col: 5, offset: 55089},
+																			pos: position{line: 1708, col: 5, offset: 55218},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1543, col: 59, offset: 49963},
+																pos: position{line: 1548, col: 59, offset: 50092},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29218,25 +29783,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29245,9 +29810,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -29256,9 +29821,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1544, col: 5, offset: 49981},
+													pos: position{line: 1549, col: 5, offset: 50110},
 													expr: &choiceExpr{
-														pos: position{line: 1544, col: 7, offset: 49983},
+														pos: position{line: 1549, col: 7, offset: 50112},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29269,7 +29834,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2776, col: 13, offset: 88482},
+																				pos:        position{line: 2781, col: 13, offset: 88611},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29319,10 +29884,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29331,28 +29896,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29361,9 +29926,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29408,10 +29973,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29420,28 +29985,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29450,9 +30015,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29493,10 +30058,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29505,28 +30070,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29535,9 +30100,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29582,10 +30147,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29594,28 +30159,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29624,9 +30189,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29671,10 +30236,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29683,28 +30248,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29713,9 +30278,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29760,10 +30325,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29772,28 +30337,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29802,9 +30367,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29849,10 +30414,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29861,28 +30426,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29891,9 +30456,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -29938,10 +30503,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29950,28 +30515,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29980,9 +30545,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -30027,10 +30592,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30039,28 +30604,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30069,9 +30634,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -30108,10 +30673,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30120,28 +30685,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30150,9 +30715,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -30161,21 +30726,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2628, col: 19, offset: 84070},
+																pos: position{line: 2633, col: 19, offset: 84199},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2628, col: 19, offset: 84070},
+																		pos:        position{line: 2633, col: 19, offset: 84199},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2628, col: 26, offset: 84077},
+																		pos: position{line: 2633, col: 26, offset: 84206},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30184,28 +30749,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30214,9 +30779,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -30227,15 +30792,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1545, col: 5, offset: 50041},
+													pos:   position{line: 1550, col: 5, offset: 50170},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 14, offset: 89994},
+														pos: position{line: 2841, col: 14, offset: 90123},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2836, col: 14, offset: 89994},
+															pos: position{line: 2841, col: 14, offset: 90123},
 															expr: &charClassMatcher{
-																pos:        position{line: 2836, col: 14, offset: 89994},
+																pos:        position{line: 2841, col: 14, offset: 90123},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30245,28 +30810,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30275,9 +30840,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -30294,28 +30859,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1561, col: 1, offset: 50432},
+			pos:  position{line: 1566, col: 1, offset: 50561},
 			expr: &actionExpr{
-				pos: position{line: 1562, col: 5, offset: 50457},
+				pos: position{line: 1567, col: 5, offset: 50586},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1562, col: 5, offset: 50457},
+					pos: position{line: 1567, col: 5, offset: 50586},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1562, col: 5, offset: 50457},
+							pos:   position{line: 1567, col: 5, offset: 50586},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1562, col: 12, offset: 50464},
+								pos: position{line: 1567, col: 12, offset: 50593},
 								expr: &seqExpr{
-									pos: position{line: 1562, col: 13, offset: 50465},
+									pos: position{line: 1567, col: 13, offset: 50594},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1562, col: 13, offset: 50465},
+											pos: position{line: 1567, col: 13, offset: 50594},
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 10, offset: 91401},
+												pos: position{line: 2918, col: 10, offset: 92369},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2886, col: 10, offset: 91401},
+													pos:        position{line: 2918, col: 10, offset: 92369},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30324,25 +30889,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2895, col: 12, offset: 91572},
+											pos: position{line: 2927, col: 12, offset: 92540},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 13, offset: 91573},
+												pos: position{line: 2927, col: 13, offset: 92541},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2895, col: 13, offset: 91573},
+														pos:        position{line: 2927, col: 13, offset: 92541},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2895, col: 20, offset: 91580},
+														pos:        position{line: 2927, col: 20, offset: 92548},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2895, col: 29, offset: 91589},
+														pos:        position{line: 2927, col: 29, offset: 92557},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30355,18 +30920,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1563, col: 5, offset: 50487},
+							pos:        position{line: 1568, col: 5, offset: 50616},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1563, col: 9, offset: 50491},
+							pos: position{line: 1568, col: 9, offset: 50620},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30375,28 +30940,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -30405,26 +30970,26 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1564, col: 5, offset: 50506},
+							pos:   position{line: 1569, col: 5, offset: 50635},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1564, col: 13, offset: 50514},
+								pos: position{line: 1569, col: 13, offset: 50643},
 								expr: &actionExpr{
-									pos: position{line: 1564, col: 14, offset: 50515},
+									pos: position{line: 1569, col: 14, offset: 50644},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1564, col: 14, offset: 50515},
+										pos: position{line: 1569, col: 14, offset: 50644},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1564, col: 14, offset: 50515},
+												pos: position{line: 1569, col: 14, offset: 50644},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonListContinuation31,
@@ -30432,18 +30997,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30452,28 +31017,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30482,9 +31047,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -30494,10 +31059,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1564, col: 25, offset: 50526},
+												pos:   position{line: 1569, col: 25, offset: 50655},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1564, col: 27, offset: 50528},
+													pos:  position{line: 1569, col: 27, offset: 50657},
 													name: "ListContinuationElement",
 												},
 											},
@@ -30512,46 +31077,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1571, col: 1, offset: 50714},
+			pos:  position{line: 1576, col: 1, offset: 50843},
 			expr: &actionExpr{
-				pos: position{line: 1572, col: 5, offset: 50760},
+				pos: position{line: 1577, col: 5, offset: 50889},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1572, col: 5, offset: 50760},
+					pos: position{line: 1577, col: 5, offset: 50889},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1573, col: 5, offset: 50788},
+							pos: position{line: 1578, col: 5, offset: 50917},
 							expr: &choiceExpr{
-								pos: position{line: 1510, col: 5, offset: 48706},
+								pos: position{line: 1515, col: 5, offset: 48835},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1603, col: 5, offset: 51680},
+										pos: position{line: 1608, col: 5, offset: 51809},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1603, col: 5, offset: 51680},
+											pos: position{line: 1608, col: 5, offset: 51809},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1603, col: 5, offset: 51680},
+													pos:   position{line: 1608, col: 5, offset: 51809},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1610, col: 5, offset: 51888},
+														pos: position{line: 1615, col: 5, offset: 52017},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1610, col: 5, offset: 51888},
+															pos: position{line: 1615, col: 5, offset: 52017},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1610, col: 5, offset: 51888},
+																	pos: position{line: 1615, col: 5, offset: 52017},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30560,27 +31125,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1610, col: 12, offset: 51895},
+																	pos:   position{line: 1615, col: 12, offset: 52024},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1612, col: 9, offset: 51958},
+																		pos: position{line: 1617, col: 9, offset: 52087},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1612, col: 9, offset: 51958},
+																				pos: position{line: 1617, col: 9, offset: 52087},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 9, offset: 51958},
+																					pos: position{line: 1617, col: 9, offset: 52087},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1612, col: 9, offset: 51958},
+																							pos:   position{line: 1617, col: 9, offset: 52087},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1612, col: 16, offset: 51965},
+																								pos: position{line: 1617, col: 16, offset: 52094},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1612, col: 16, offset: 51965},
+																									pos: position{line: 1617, col: 16, offset: 52094},
 																									expr: &litMatcher{
-																										pos:        position{line: 1612, col: 17, offset: 51966},
+																										pos:        position{line: 1617, col: 17, offset: 52095},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30589,22 +31154,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1616, col: 9, offset: 52066},
+																							pos: position{line: 1621, col: 9, offset: 52195},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1635, col: 11, offset: 52783},
+																				pos: position{line: 1640, col: 11, offset: 52912},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 11, offset: 52783},
+																					pos: position{line: 1640, col: 11, offset: 52912},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1635, col: 11, offset: 52783},
+																							pos: position{line: 1640, col: 11, offset: 52912},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1635, col: 12, offset: 52784},
+																								pos:        position{line: 1640, col: 12, offset: 52913},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30612,7 +31177,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1635, col: 20, offset: 52792},
+																							pos:        position{line: 1640, col: 20, offset: 52921},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30621,20 +31186,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1637, col: 13, offset: 52909},
+																				pos: position{line: 1642, col: 13, offset: 53038},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 13, offset: 52909},
+																					pos: position{line: 1642, col: 13, offset: 53038},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1637, col: 14, offset: 52910},
+																							pos:        position{line: 1642, col: 14, offset: 53039},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1637, col: 21, offset: 52917},
+																							pos:        position{line: 1642, col: 21, offset: 53046},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30643,20 +31208,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1639, col: 13, offset: 53037},
+																				pos: position{line: 1644, col: 13, offset: 53166},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 13, offset: 53037},
+																					pos: position{line: 1644, col: 13, offset: 53166},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1639, col: 14, offset: 53038},
+																							pos:        position{line: 1644, col: 14, offset: 53167},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1639, col: 21, offset: 53045},
+																							pos:        position{line: 1644, col: 21, offset: 53174},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30665,15 +31230,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 13, offset: 53165},
+																				pos: position{line: 1646, col: 13, offset: 53294},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 13, offset: 53165},
+																					pos: position{line: 1646, col: 13, offset: 53294},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 13, offset: 53165},
+																							pos: position{line: 1646, col: 13, offset: 53294},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 14, offset: 53166},
+																								pos:        position{line: 1646, col: 14, offset: 53295},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30681,7 +31246,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 26, offset: 53178},
+																							pos:        position{line: 1646, col: 26, offset: 53307},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30690,15 +31255,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53298},
+																				pos: position{line: 1648, col: 13, offset: 53427},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53298},
+																					pos: position{line: 1648, col: 13, offset: 53427},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1643, col: 13, offset: 53298},
+																							pos: position{line: 1648, col: 13, offset: 53427},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1643, col: 14, offset: 53299},
+																								pos:        position{line: 1648, col: 14, offset: 53428},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30706,7 +31271,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 26, offset: 53311},
+																							pos:        position{line: 1648, col: 26, offset: 53440},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30718,12 +31283,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30736,26 +31301,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51719},
+													pos:   position{line: 1609, col: 5, offset: 51848},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30766,28 +31331,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30796,9 +31361,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -30811,27 +31376,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1653, col: 5, offset: 53577},
+										pos: position{line: 1658, col: 5, offset: 53706},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1653, col: 5, offset: 53577},
+											pos: position{line: 1658, col: 5, offset: 53706},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1653, col: 5, offset: 53577},
+													pos:   position{line: 1658, col: 5, offset: 53706},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1660, col: 5, offset: 53850},
+														pos: position{line: 1665, col: 5, offset: 53979},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1660, col: 5, offset: 53850},
+															pos: position{line: 1665, col: 5, offset: 53979},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1660, col: 5, offset: 53850},
+																	pos: position{line: 1665, col: 5, offset: 53979},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30840,24 +31405,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1661, col: 5, offset: 53862},
+																	pos:   position{line: 1666, col: 5, offset: 53991},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1662, col: 9, offset: 53878},
+																		pos: position{line: 1667, col: 9, offset: 54007},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1662, col: 10, offset: 53879},
+																			pos: position{line: 1667, col: 10, offset: 54008},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1662, col: 11, offset: 53880},
+																					pos:        position{line: 1667, col: 11, offset: 54009},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1662, col: 18, offset: 53887},
+																					pos: position{line: 1667, col: 18, offset: 54016},
 																					expr: &litMatcher{
-																						pos:        position{line: 1662, col: 19, offset: 53888},
+																						pos:        position{line: 1667, col: 19, offset: 54017},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30868,16 +31433,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1665, col: 7, offset: 53978},
+																	pos: position{line: 1670, col: 7, offset: 54107},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30890,56 +31455,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53618},
+													pos:   position{line: 1659, col: 5, offset: 53747},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1654, col: 16, offset: 53629},
+														pos: position{line: 1659, col: 16, offset: 53758},
 														expr: &actionExpr{
-															pos: position{line: 1675, col: 5, offset: 54243},
+															pos: position{line: 1680, col: 5, offset: 54372},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1675, col: 5, offset: 54243},
+																pos: position{line: 1680, col: 5, offset: 54372},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1675, col: 5, offset: 54243},
+																		pos: position{line: 1680, col: 5, offset: 54372},
 																		expr: &litMatcher{
-																			pos:        position{line: 1675, col: 6, offset: 54244},
+																			pos:        position{line: 1680, col: 6, offset: 54373},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1675, col: 10, offset: 54248},
+																		pos:   position{line: 1680, col: 10, offset: 54377},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1676, col: 7, offset: 54262},
+																			pos: position{line: 1681, col: 7, offset: 54391},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1676, col: 7, offset: 54262},
+																					pos: position{line: 1681, col: 7, offset: 54391},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1676, col: 7, offset: 54262},
+																						pos:        position{line: 1681, col: 7, offset: 54391},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1677, col: 7, offset: 54307},
+																					pos: position{line: 1682, col: 7, offset: 54436},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1677, col: 7, offset: 54307},
+																						pos:        position{line: 1682, col: 7, offset: 54436},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1678, col: 7, offset: 54350},
+																					pos: position{line: 1683, col: 7, offset: 54479},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 7, offset: 54350},
+																						pos:        position{line: 1683, col: 7, offset: 54479},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30949,12 +31514,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2890, col: 11, offset: 91462},
+																			pos: position{line: 2922, col: 11, offset: 92430},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2890, col: 11, offset: 91462},
+																				pos:        position{line: 2922, col: 11, offset: 92430},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30968,26 +31533,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53668},
+													pos:   position{line: 1660, col: 5, offset: 53797},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30998,28 +31563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31028,9 +31593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -31043,36 +31608,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1743, col: 5, offset: 56190},
+										pos: position{line: 1748, col: 5, offset: 56319},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1743, col: 5, offset: 56190},
+											pos: position{line: 1748, col: 5, offset: 56319},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1743, col: 5, offset: 56190},
+													pos:   position{line: 1748, col: 5, offset: 56319},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1749, col: 5, offset: 56387},
+														pos: position{line: 1754, col: 5, offset: 56516},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1749, col: 5, offset: 56387},
+															pos: position{line: 1754, col: 5, offset: 56516},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1749, col: 5, offset: 56387},
+																	pos:        position{line: 1754, col: 5, offset: 56516},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1749, col: 9, offset: 56391},
+																	pos:   position{line: 1754, col: 9, offset: 56520},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 14, offset: 56396},
+																		pos: position{line: 1754, col: 14, offset: 56525},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1749, col: 14, offset: 56396},
+																			pos: position{line: 1754, col: 14, offset: 56525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1749, col: 14, offset: 56396},
+																				pos:        position{line: 1754, col: 14, offset: 56525},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31082,18 +31647,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1749, col: 62, offset: 56444},
+																	pos:        position{line: 1754, col: 62, offset: 56573},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31106,26 +31671,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1744, col: 5, offset: 56226},
+													pos:   position{line: 1749, col: 5, offset: 56355},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1551, col: 5, offset: 50186},
+														pos: position{line: 1556, col: 5, offset: 50315},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1551, col: 5, offset: 50186},
+															pos: position{line: 1556, col: 5, offset: 50315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1551, col: 5, offset: 50186},
+																	pos:   position{line: 1556, col: 5, offset: 50315},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1551, col: 14, offset: 50195},
+																		pos: position{line: 1556, col: 14, offset: 50324},
 																		expr: &actionExpr{
-																			pos: position{line: 1551, col: 15, offset: 50196},
+																			pos: position{line: 1556, col: 15, offset: 50325},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1551, col: 15, offset: 50196},
+																				pos: position{line: 1556, col: 15, offset: 50325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1551, col: 15, offset: 50196},
+																					pos:        position{line: 1556, col: 15, offset: 50325},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31136,28 +31701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31166,9 +31731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -31181,40 +31746,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1687, col: 5, offset: 54543},
+										pos: position{line: 1692, col: 5, offset: 54672},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1687, col: 5, offset: 54543},
+											pos: position{line: 1692, col: 5, offset: 54672},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1687, col: 5, offset: 54543},
+													pos:   position{line: 1692, col: 5, offset: 54672},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1695, col: 5, offset: 54869},
+														pos: position{line: 1700, col: 5, offset: 54998},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1695, col: 5, offset: 54869},
+															pos: position{line: 1700, col: 5, offset: 54998},
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 6, offset: 54870},
+																pos: position{line: 1700, col: 6, offset: 54999},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1695, col: 6, offset: 54870},
+																		pos: position{line: 1700, col: 6, offset: 54999},
 																		expr: &actionExpr{
-																			pos: position{line: 1700, col: 5, offset: 55020},
+																			pos: position{line: 1705, col: 5, offset: 55149},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1700, col: 5, offset: 55020},
+																				pos: position{line: 1705, col: 5, offset: 55149},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1700, col: 5, offset: 55020},
+																						pos:   position{line: 1705, col: 5, offset: 55149},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1700, col: 16, offset: 55031},
+																							pos: position{line: 1705, col: 16, offset: 55160},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1700, col: 16, offset: 55031},
+																								pos: position{line: 1705, col: 16, offset: 55160},
 																								expr: &litMatcher{
-																									pos:        position{line: 1700, col: 17, offset: 55032},
+																									pos:        position{line: 1705, col: 17, offset: 55161},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -31223,7 +31788,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1703, col: 5, offset: 55089},
+																						pos: position{line: 1708, col: 5, offset: 55218},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -31231,30 +31796,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1695, col: 35, offset: 54899},
+																		pos: position{line: 1700, col: 35, offset: 55028},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31263,16 +31828,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1695, col: 40, offset: 54904,
+																		line: 1700, col: 40, offset: 55033,
 																	},
 																},
 															},
@@ -31280,24 +31845,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1688, col: 5, offset: 54578},
+													pos:   position{line: 1693, col: 5, offset: 54707},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 55020},
+														pos: position{line: 1705, col: 5, offset: 55149},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1700, col: 5, offset: 55020},
+															pos: position{line: 1705, col: 5, offset: 55149},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1700, col: 5, offset: 55020},
+																	pos:   position{line: 1705, col: 5, offset: 55149},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1700, col: 16, offset: 55031},
+																		pos: position{line: 1705, col: 16, offset: 55160},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1700, col: 16, offset: 55031},
+																			pos: position{line: 1705, col: 16, offset: 55160},
 																			expr: &litMatcher{
-																				pos:        position{line: 1700, col: 17, offset: 55032},
+																				pos:        position{line: 1705, col: 17, offset: 55161},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31306,7 +31871,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1703, col: 5, offset: 55089},
+																	pos: position{line: 1708, col: 5, offset: 55218},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -31314,24 +31879,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1689, col: 5, offset: 54623},
+													pos:   position{line: 1694, col: 5, offset: 54752},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1711, col: 5, offset: 55338},
+														pos: position{line: 1716, col: 5, offset: 55467},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1713, col: 9, offset: 55404},
+																pos: position{line: 1718, col: 9, offset: 55533},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1713, col: 9, offset: 55404},
+																	pos: position{line: 1718, col: 9, offset: 55533},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1713, col: 9, offset: 55404},
+																			pos: position{line: 1718, col: 9, offset: 55533},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31340,28 +31905,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31370,15 +31935,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1714, col: 9, offset: 55423},
+																			pos: position{line: 1719, col: 9, offset: 55552},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -31386,18 +31951,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2903, col: 11, offset: 91735},
+																							pos: position{line: 2935, col: 11, offset: 92703},
 																							expr: &anyMatcher{
-																								line: 2903, col: 13, offset: 91737,
+																								line: 2935, col: 13, offset: 92705,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31406,28 +31971,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31436,9 +32001,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -31451,18 +32016,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 9, offset: 55552},
+																pos: position{line: 1725, col: 9, offset: 55681},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 9, offset: 55552},
+																	pos: position{line: 1725, col: 9, offset: 55681},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 11, offset: 91462},
+																			pos: position{line: 2922, col: 11, offset: 92430},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2890, col: 11, offset: 91462},
+																				pos: position{line: 2922, col: 11, offset: 92430},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2890, col: 11, offset: 91462},
+																					pos:        position{line: 2922, col: 11, offset: 92430},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31471,15 +32036,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 9, offset: 55625},
+																			pos:   position{line: 1726, col: 9, offset: 55754},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1721, col: 18, offset: 55634},
+																				pos: position{line: 1726, col: 18, offset: 55763},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1721, col: 18, offset: 55634},
+																					pos: position{line: 1726, col: 18, offset: 55763},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1721, col: 18, offset: 55634},
+																						pos:        position{line: 1726, col: 18, offset: 55763},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31489,28 +32054,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31519,9 +32084,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -31539,21 +32104,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1574, col: 5, offset: 50805},
+							pos:   position{line: 1579, col: 5, offset: 50934},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1574, col: 16, offset: 50816},
+								pos: position{line: 1579, col: 16, offset: 50945},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1574, col: 17, offset: 50817},
+									pos:  position{line: 1579, col: 17, offset: 50946},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1575, col: 5, offset: 50839},
+							pos:   position{line: 1580, col: 5, offset: 50968},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1576, col: 9, offset: 50857},
+								pos: position{line: 1581, col: 9, offset: 50986},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -31562,18 +32127,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2903, col: 11, offset: 91735},
+													pos: position{line: 2935, col: 11, offset: 92703},
 													expr: &anyMatcher{
-														line: 2903, col: 13, offset: 91737,
+														line: 2935, col: 13, offset: 92705,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31582,28 +32147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31612,9 +32177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -31623,7 +32188,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1577, col: 11, offset: 50877},
+										pos:  position{line: 1582, col: 11, offset: 51006},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31679,10 +32244,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31691,28 +32256,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31721,9 +32286,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -31784,10 +32349,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31796,28 +32361,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31826,9 +32391,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -31882,10 +32447,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31894,28 +32459,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31924,9 +32489,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -31998,10 +32563,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32010,28 +32575,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32040,9 +32605,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -32058,9 +32623,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -32076,21 +32641,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32100,28 +32665,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32130,9 +32695,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -32194,10 +32759,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32206,28 +32771,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32236,9 +32801,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -32254,9 +32819,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -32311,10 +32876,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32323,28 +32888,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32353,9 +32918,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -32427,10 +32992,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32439,28 +33004,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32469,9 +33034,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -32487,9 +33052,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -32505,21 +33070,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32529,28 +33094,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32559,9 +33124,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -32626,10 +33191,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32638,28 +33203,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32668,9 +33233,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -32686,9 +33251,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -32740,10 +33305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32752,28 +33317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32782,9 +33347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -32818,10 +33383,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32830,28 +33395,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32860,9 +33425,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -32880,21 +33445,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32904,28 +33469,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32934,9 +33499,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -32964,10 +33529,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32976,28 +33541,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33006,9 +33571,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -33065,10 +33630,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33077,28 +33642,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33107,9 +33672,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -33181,10 +33746,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33193,28 +33758,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33223,9 +33788,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -33241,9 +33806,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -33259,21 +33824,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33283,28 +33848,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33313,9 +33878,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -33380,10 +33945,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33392,28 +33957,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33422,9 +33987,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -33440,9 +34005,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -33498,10 +34063,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33510,28 +34075,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33540,9 +34105,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -33614,10 +34179,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33626,28 +34191,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33656,9 +34221,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -33674,9 +34239,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -33692,21 +34257,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33716,28 +34281,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33746,9 +34311,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -33813,10 +34378,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33825,28 +34390,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33855,9 +34420,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -33873,9 +34438,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -33931,10 +34496,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33943,28 +34508,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33973,9 +34538,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -34047,10 +34612,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34059,28 +34624,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34089,9 +34654,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -34107,9 +34672,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -34125,21 +34690,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34149,28 +34714,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34179,9 +34744,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -34246,10 +34811,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34258,28 +34823,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34288,9 +34853,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -34306,9 +34871,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -34342,18 +34907,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91735},
+																					pos: position{line: 2935, col: 11, offset: 92703},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91737,
+																						line: 2935, col: 13, offset: 92705,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34362,28 +34927,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34392,9 +34957,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -34413,12 +34978,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2836, col: 14, offset: 89994},
+																		pos: position{line: 2841, col: 14, offset: 90123},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2836, col: 14, offset: 89994},
+																			pos: position{line: 2841, col: 14, offset: 90123},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2836, col: 14, offset: 89994},
+																				pos:        position{line: 2841, col: 14, offset: 90123},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34428,28 +34993,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34458,9 +35023,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -34492,18 +35057,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2903, col: 11, offset: 91735},
+																								pos: position{line: 2935, col: 11, offset: 92703},
 																								expr: &anyMatcher{
-																									line: 2903, col: 13, offset: 91737,
+																									line: 2935, col: 13, offset: 92705,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34512,28 +35077,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34542,9 +35107,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -34563,12 +35128,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2836, col: 14, offset: 89994},
+																					pos: position{line: 2841, col: 14, offset: 90123},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2836, col: 14, offset: 89994},
+																						pos: position{line: 2841, col: 14, offset: 90123},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 14, offset: 89994},
+																							pos:        position{line: 2841, col: 14, offset: 90123},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34578,28 +35143,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91799},
+																				pos: position{line: 2940, col: 8, offset: 92767},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91572},
+																						pos: position{line: 2927, col: 12, offset: 92540},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91573},
+																							pos: position{line: 2927, col: 13, offset: 92541},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91573},
+																									pos:        position{line: 2927, col: 13, offset: 92541},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91580},
+																									pos:        position{line: 2927, col: 20, offset: 92548},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91589},
+																									pos:        position{line: 2927, col: 29, offset: 92557},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34608,9 +35173,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -34619,21 +35184,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1818, col: 5, offset: 58756},
+																	pos: position{line: 1823, col: 5, offset: 58885},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1818, col: 5, offset: 58756},
+																		pos: position{line: 1823, col: 5, offset: 58885},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1818, col: 5, offset: 58756},
+																				pos:   position{line: 1823, col: 5, offset: 58885},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2836, col: 14, offset: 89994},
+																					pos: position{line: 2841, col: 14, offset: 90123},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2836, col: 14, offset: 89994},
+																						pos: position{line: 2841, col: 14, offset: 90123},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 14, offset: 89994},
+																							pos:        position{line: 2841, col: 14, offset: 90123},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34643,32 +35208,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1819, col: 5, offset: 58780},
+																				pos: position{line: 1824, col: 5, offset: 58909},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91799},
+																				pos: position{line: 2940, col: 8, offset: 92767},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91572},
+																						pos: position{line: 2927, col: 12, offset: 92540},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91573},
+																							pos: position{line: 2927, col: 13, offset: 92541},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91573},
+																									pos:        position{line: 2927, col: 13, offset: 92541},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91580},
+																									pos:        position{line: 2927, col: 20, offset: 92548},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91589},
+																									pos:        position{line: 2927, col: 29, offset: 92557},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34677,9 +35242,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -34726,10 +35291,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34738,28 +35303,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34768,9 +35333,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -34818,10 +35383,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34830,28 +35395,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34860,9 +35425,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -34871,9 +35436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -34889,21 +35454,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34913,28 +35478,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34943,9 +35508,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -34990,10 +35555,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91401},
+																					pos: position{line: 2918, col: 10, offset: 92369},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91401},
+																						pos:        position{line: 2918, col: 10, offset: 92369},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35002,28 +35567,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91799},
+																				pos: position{line: 2940, col: 8, offset: 92767},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91572},
+																						pos: position{line: 2927, col: 12, offset: 92540},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91573},
+																							pos: position{line: 2927, col: 13, offset: 92541},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91573},
+																									pos:        position{line: 2927, col: 13, offset: 92541},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91580},
+																									pos:        position{line: 2927, col: 20, offset: 92548},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91589},
+																									pos:        position{line: 2927, col: 29, offset: 92557},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35032,9 +35597,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -35043,9 +35608,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -35101,10 +35666,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35113,28 +35678,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35143,9 +35708,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -35217,10 +35782,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35229,28 +35794,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35259,9 +35824,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -35277,9 +35842,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -35295,21 +35860,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35319,28 +35884,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35349,9 +35914,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -35416,10 +35981,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35428,28 +35993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35458,9 +36023,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -35476,9 +36041,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -35534,10 +36099,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35546,28 +36111,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35576,9 +36141,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -35650,10 +36215,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35662,28 +36227,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35692,9 +36257,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -35710,9 +36275,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -35728,21 +36293,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35752,28 +36317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35782,9 +36347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -35849,10 +36414,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35861,28 +36426,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35891,9 +36456,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -35909,9 +36474,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -35967,10 +36532,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35979,28 +36544,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36009,9 +36574,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -36083,10 +36648,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2886, col: 10, offset: 91401},
+																												pos: position{line: 2918, col: 10, offset: 92369},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2886, col: 10, offset: 91401},
+																													pos:        position{line: 2918, col: 10, offset: 92369},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36095,28 +36660,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2908, col: 8, offset: 91799},
+																											pos: position{line: 2940, col: 8, offset: 92767},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2895, col: 12, offset: 91572},
+																													pos: position{line: 2927, col: 12, offset: 92540},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2895, col: 13, offset: 91573},
+																														pos: position{line: 2927, col: 13, offset: 92541},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36125,9 +36690,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2905, col: 8, offset: 91749},
+																													pos: position{line: 2937, col: 8, offset: 92717},
 																													expr: &anyMatcher{
-																														line: 2905, col: 9, offset: 91750,
+																														line: 2937, col: 9, offset: 92718,
 																													},
 																												},
 																											},
@@ -36143,9 +36708,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -36161,21 +36726,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2903, col: 11, offset: 91735},
+																						pos: position{line: 2935, col: 11, offset: 92703},
 																						expr: &anyMatcher{
-																							line: 2903, col: 13, offset: 91737,
+																							line: 2935, col: 13, offset: 92705,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2832, col: 13, offset: 89927},
+																							pos: position{line: 2837, col: 13, offset: 90056},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2832, col: 13, offset: 89927},
+																								pos: position{line: 2837, col: 13, offset: 90056},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2832, col: 13, offset: 89927},
+																									pos:        position{line: 2837, col: 13, offset: 90056},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36185,28 +36750,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36215,9 +36780,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -36282,10 +36847,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36294,28 +36859,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36324,9 +36889,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -36342,9 +36907,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -36355,27 +36920,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2731, col: 18, offset: 86977},
+										pos: position{line: 2736, col: 18, offset: 87106},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2732, col: 9, offset: 86987},
+											pos: position{line: 2737, col: 9, offset: 87116},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2732, col: 9, offset: 86987},
+													pos: position{line: 2737, col: 9, offset: 87116},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2732, col: 9, offset: 86987},
+															pos:        position{line: 2737, col: 9, offset: 87116},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2732, col: 15, offset: 86993},
+															pos: position{line: 2737, col: 15, offset: 87122},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36384,28 +36949,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91799},
+															pos: position{line: 2940, col: 8, offset: 92767},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91572},
+																	pos: position{line: 2927, col: 12, offset: 92540},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91573},
+																		pos: position{line: 2927, col: 13, offset: 92541},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91573},
+																				pos:        position{line: 2927, col: 13, offset: 92541},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91580},
+																				pos:        position{line: 2927, col: 20, offset: 92548},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91589},
+																				pos:        position{line: 2927, col: 29, offset: 92557},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36414,9 +36979,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -36424,43 +36989,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2733, col: 11, offset: 87026},
+													pos: position{line: 2738, col: 11, offset: 87155},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2733, col: 12, offset: 87027},
+															pos: position{line: 2738, col: 12, offset: 87156},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2733, col: 12, offset: 87027},
+																	pos:        position{line: 2738, col: 12, offset: 87156},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 20, offset: 87035},
+																	pos:        position{line: 2738, col: 20, offset: 87164},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 30, offset: 87045},
+																	pos:        position{line: 2738, col: 30, offset: 87174},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 38, offset: 87053},
+																	pos:        position{line: 2738, col: 38, offset: 87182},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 48, offset: 87063},
+																	pos:        position{line: 2738, col: 48, offset: 87192},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2733, col: 56, offset: 87071},
+																	pos:        position{line: 2738, col: 56, offset: 87200},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -36468,12 +37033,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2733, col: 65, offset: 87080},
+															pos: position{line: 2738, col: 65, offset: 87209},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36482,28 +37047,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91799},
+															pos: position{line: 2940, col: 8, offset: 92767},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91572},
+																	pos: position{line: 2927, col: 12, offset: 92540},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91573},
+																		pos: position{line: 2927, col: 13, offset: 92541},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91573},
+																				pos:        position{line: 2927, col: 13, offset: 92541},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91580},
+																				pos:        position{line: 2927, col: 20, offset: 92548},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91589},
+																				pos:        position{line: 2927, col: 29, offset: 92557},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36512,38 +37077,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2733, col: 76, offset: 87091},
+															pos: position{line: 2738, col: 76, offset: 87220},
 															expr: &choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -36552,9 +37117,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -36566,28 +37131,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1581, col: 11, offset: 51019},
+										pos:  position{line: 1586, col: 11, offset: 51148},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2622, col: 5, offset: 83913},
+										pos: position{line: 2627, col: 5, offset: 84042},
 										run: (*parser).callonListContinuationElement1343,
 										expr: &seqExpr{
-											pos: position{line: 2622, col: 5, offset: 83913},
+											pos: position{line: 2627, col: 5, offset: 84042},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2628, col: 19, offset: 84070},
+													pos:        position{line: 2633, col: 19, offset: 84199},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2628, col: 26, offset: 84077},
+													pos: position{line: 2633, col: 26, offset: 84206},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonListContinuationElement1347,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36596,28 +37161,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonListContinuationElement1350,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36626,20 +37191,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2623, col: 5, offset: 83937},
+													pos:   position{line: 2628, col: 5, offset: 84066},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2623, col: 11, offset: 83943},
+														pos: position{line: 2628, col: 11, offset: 84072},
 														expr: &choiceExpr{
-															pos: position{line: 2623, col: 12, offset: 83944},
+															pos: position{line: 2628, col: 12, offset: 84073},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -36648,18 +37213,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2903, col: 11, offset: 91735},
+																				pos: position{line: 2935, col: 11, offset: 92703},
 																				expr: &anyMatcher{
-																					line: 2903, col: 13, offset: 91737,
+																					line: 2935, col: 13, offset: 92705,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91401},
+																					pos: position{line: 2918, col: 10, offset: 92369},
 																					run: (*parser).callonListContinuationElement1365,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91401},
+																						pos:        position{line: 2918, col: 10, offset: 92369},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36668,28 +37233,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2908, col: 8, offset: 91799},
+																				pos: position{line: 2940, col: 8, offset: 92767},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91572},
+																						pos: position{line: 2927, col: 12, offset: 92540},
 																						run: (*parser).callonListContinuationElement1368,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91573},
+																							pos: position{line: 2927, col: 13, offset: 92541},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91573},
+																									pos:        position{line: 2927, col: 13, offset: 92541},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91580},
+																									pos:        position{line: 2927, col: 20, offset: 92548},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91589},
+																									pos:        position{line: 2927, col: 29, offset: 92557},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36698,9 +37263,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -36709,32 +37274,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2635, col: 5, offset: 84189},
+																	pos: position{line: 2640, col: 5, offset: 84318},
 																	run: (*parser).callonListContinuationElement1375,
 																	expr: &seqExpr{
-																		pos: position{line: 2635, col: 5, offset: 84189},
+																		pos: position{line: 2640, col: 5, offset: 84318},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2635, col: 5, offset: 84189},
+																				pos: position{line: 2640, col: 5, offset: 84318},
 																				expr: &choiceExpr{
-																					pos: position{line: 2632, col: 22, offset: 84150},
+																					pos: position{line: 2637, col: 22, offset: 84279},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2628, col: 19, offset: 84070},
+																							pos: position{line: 2633, col: 19, offset: 84199},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2628, col: 19, offset: 84070},
+																									pos:        position{line: 2633, col: 19, offset: 84199},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2628, col: 26, offset: 84077},
+																									pos: position{line: 2633, col: 26, offset: 84206},
 																									expr: &actionExpr{
-																										pos: position{line: 2886, col: 10, offset: 91401},
+																										pos: position{line: 2918, col: 10, offset: 92369},
 																										run: (*parser).callonListContinuationElement1382,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2886, col: 10, offset: 91401},
+																											pos:        position{line: 2918, col: 10, offset: 92369},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36743,28 +37308,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonListContinuationElement1385,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36773,9 +37338,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
@@ -36783,59 +37348,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2636, col: 5, offset: 84212},
+																				pos:   position{line: 2641, col: 5, offset: 84341},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2637, col: 9, offset: 84230},
+																					pos: position{line: 2642, col: 9, offset: 84359},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2637, col: 10, offset: 84231},
+																							pos: position{line: 2642, col: 10, offset: 84360},
 																							run: (*parser).callonListContinuationElement1396,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2637, col: 10, offset: 84231},
+																								pos:   position{line: 2642, col: 10, offset: 84360},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2637, col: 17, offset: 84238},
+																									pos: position{line: 2642, col: 17, offset: 84367},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2645, col: 21, offset: 84434},
+																											pos: position{line: 2650, col: 21, offset: 84563},
 																											run: (*parser).callonListContinuationElement1399,
 																											expr: &seqExpr{
-																												pos: position{line: 2645, col: 21, offset: 84434},
+																												pos: position{line: 2650, col: 21, offset: 84563},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2645, col: 21, offset: 84434},
+																														pos:   position{line: 2650, col: 21, offset: 84563},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2645, col: 27, offset: 84440},
+																															pos: position{line: 2650, col: 27, offset: 84569},
 																															expr: &actionExpr{
-																																pos: position{line: 2650, col: 5, offset: 84515},
+																																pos: position{line: 2655, col: 5, offset: 84644},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &seqExpr{
-																																	pos: position{line: 2650, col: 5, offset: 84515},
+																																	pos: position{line: 2655, col: 5, offset: 84644},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2650, col: 5, offset: 84515},
+																																			pos:        position{line: 2655, col: 5, offset: 84644},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2650, col: 9, offset: 84519},
+																																			pos: position{line: 2655, col: 9, offset: 84648},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2886, col: 10, offset: 91401},
+																																				pos: position{line: 2918, col: 10, offset: 92369},
 																																				run: (*parser).callonListContinuationElement1407,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2886, col: 10, offset: 91401},
+																																					pos:        position{line: 2918, col: 10, offset: 92369},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36844,21 +37409,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2650, col: 16, offset: 84526},
+																																			pos:   position{line: 2655, col: 16, offset: 84655},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2656, col: 5, offset: 84726},
+																																				pos: position{line: 2661, col: 5, offset: 84855},
 																																				run: (*parser).callonListContinuationElement1410,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2656, col: 5, offset: 84726},
+																																					pos:   position{line: 2661, col: 5, offset: 84855},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2656, col: 14, offset: 84735},
+																																						pos: position{line: 2661, col: 14, offset: 84864},
 																																						run: (*parser).callonListContinuationElement1412,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2656, col: 14, offset: 84735},
+																																							pos: position{line: 2661, col: 14, offset: 84864},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2656, col: 14, offset: 84735},
+																																								pos:        position{line: 2661, col: 14, offset: 84864},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36875,28 +37440,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2908, col: 8, offset: 91799},
+																														pos: position{line: 2940, col: 8, offset: 92767},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2895, col: 12, offset: 91572},
+																																pos: position{line: 2927, col: 12, offset: 92540},
 																																run: (*parser).callonListContinuationElement1416,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2895, col: 13, offset: 91573},
+																																	pos: position{line: 2927, col: 13, offset: 92541},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 13, offset: 91573},
+																																			pos:        position{line: 2927, col: 13, offset: 92541},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 20, offset: 91580},
+																																			pos:        position{line: 2927, col: 20, offset: 92548},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2895, col: 29, offset: 91589},
+																																			pos:        position{line: 2927, col: 29, offset: 92557},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36905,9 +37470,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2905, col: 8, offset: 91749},
+																																pos: position{line: 2937, col: 8, offset: 92717},
 																																expr: &anyMatcher{
-																																	line: 2905, col: 9, offset: 91750,
+																																	line: 2937, col: 9, offset: 92718,
 																																},
 																															},
 																														},
@@ -36916,40 +37481,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2662, col: 24, offset: 84871},
+																											pos: position{line: 2667, col: 24, offset: 85000},
 																											run: (*parser).callonListContinuationElement1423,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2662, col: 24, offset: 84871},
+																												pos:   position{line: 2667, col: 24, offset: 85000},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2662, col: 30, offset: 84877},
+																													pos: position{line: 2667, col: 30, offset: 85006},
 																													expr: &actionExpr{
-																														pos: position{line: 2667, col: 5, offset: 84953},
+																														pos: position{line: 2672, col: 5, offset: 85082},
 																														run: (*parser).callonListContinuationElement1426,
 																														expr: &seqExpr{
-																															pos: position{line: 2667, col: 5, offset: 84953},
+																															pos: position{line: 2672, col: 5, offset: 85082},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2667, col: 5, offset: 84953},
+																																	pos: position{line: 2672, col: 5, offset: 85082},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2632, col: 22, offset: 84150},
+																																		pos: position{line: 2637, col: 22, offset: 84279},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2628, col: 19, offset: 84070},
+																																				pos: position{line: 2633, col: 19, offset: 84199},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2628, col: 19, offset: 84070},
+																																						pos:        position{line: 2633, col: 19, offset: 84199},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2628, col: 26, offset: 84077},
+																																						pos: position{line: 2633, col: 26, offset: 84206},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2886, col: 10, offset: 91401},
+																																							pos: position{line: 2918, col: 10, offset: 92369},
 																																							run: (*parser).callonListContinuationElement1433,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2886, col: 10, offset: 91401},
+																																								pos:        position{line: 2918, col: 10, offset: 92369},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36958,28 +37523,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2908, col: 8, offset: 91799},
+																																						pos: position{line: 2940, col: 8, offset: 92767},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2895, col: 12, offset: 91572},
+																																								pos: position{line: 2927, col: 12, offset: 92540},
 																																								run: (*parser).callonListContinuationElement1436,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2895, col: 13, offset: 91573},
+																																									pos: position{line: 2927, col: 13, offset: 92541},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 13, offset: 91573},
+																																											pos:        position{line: 2927, col: 13, offset: 92541},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 20, offset: 91580},
+																																											pos:        position{line: 2927, col: 20, offset: 92548},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2895, col: 29, offset: 91589},
+																																											pos:        position{line: 2927, col: 29, offset: 92557},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36988,9 +37553,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2905, col: 8, offset: 91749},
+																																								pos: position{line: 2937, col: 8, offset: 92717},
 																																								expr: &anyMatcher{
-																																									line: 2905, col: 9, offset: 91750,
+																																									line: 2937, col: 9, offset: 92718,
 																																								},
 																																							},
 																																						},
@@ -36998,16 +37563,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2905, col: 8, offset: 91749},
+																																				pos: position{line: 2937, col: 8, offset: 92717},
 																																				expr: &anyMatcher{
-																																					line: 2905, col: 9, offset: 91750,
+																																					line: 2937, col: 9, offset: 92718,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2668, col: 5, offset: 84976},
+																																	pos: position{line: 2673, col: 5, offset: 85105},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1446,
@@ -37015,18 +37580,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2903, col: 11, offset: 91735},
+																																					pos: position{line: 2935, col: 11, offset: 92703},
 																																					expr: &anyMatcher{
-																																						line: 2903, col: 13, offset: 91737,
+																																						line: 2935, col: 13, offset: 92705,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2886, col: 10, offset: 91401},
+																																						pos: position{line: 2918, col: 10, offset: 92369},
 																																						run: (*parser).callonListContinuationElement1451,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2886, col: 10, offset: 91401},
+																																							pos:        position{line: 2918, col: 10, offset: 92369},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37035,28 +37600,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2908, col: 8, offset: 91799},
+																																					pos: position{line: 2940, col: 8, offset: 92767},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2895, col: 12, offset: 91572},
+																																							pos: position{line: 2927, col: 12, offset: 92540},
 																																							run: (*parser).callonListContinuationElement1454,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 13, offset: 91573},
+																																								pos: position{line: 2927, col: 13, offset: 92541},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 13, offset: 91573},
+																																										pos:        position{line: 2927, col: 13, offset: 92541},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 20, offset: 91580},
+																																										pos:        position{line: 2927, col: 20, offset: 92548},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2895, col: 29, offset: 91589},
+																																										pos:        position{line: 2927, col: 29, offset: 92557},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37065,9 +37630,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2905, col: 8, offset: 91749},
+																																							pos: position{line: 2937, col: 8, offset: 92717},
 																																							expr: &anyMatcher{
-																																								line: 2905, col: 9, offset: 91750,
+																																								line: 2937, col: 9, offset: 92718,
 																																							},
 																																						},
 																																					},
@@ -37077,17 +37642,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2669, col: 5, offset: 84991},
+																																	pos:   position{line: 2674, col: 5, offset: 85120},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2669, col: 12, offset: 84998},
+																																		pos: position{line: 2674, col: 12, offset: 85127},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2686, col: 20, offset: 85462},
+																																			pos: position{line: 2691, col: 20, offset: 85591},
 																																			run: (*parser).callonListContinuationElement1463,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2686, col: 20, offset: 85462},
+																																				pos: position{line: 2691, col: 20, offset: 85591},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2686, col: 20, offset: 85462},
+																																					pos:        position{line: 2691, col: 20, offset: 85591},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37098,18 +37663,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2669, col: 31, offset: 85017},
+																																	pos:        position{line: 2674, col: 31, offset: 85146},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2669, col: 35, offset: 85021},
+																																	pos: position{line: 2674, col: 35, offset: 85150},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2886, col: 10, offset: 91401},
+																																		pos: position{line: 2918, col: 10, offset: 92369},
 																																		run: (*parser).callonListContinuationElement1468,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2886, col: 10, offset: 91401},
+																																			pos:        position{line: 2918, col: 10, offset: 92369},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37118,27 +37683,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2669, col: 42, offset: 85028},
+																																	pos: position{line: 2674, col: 42, offset: 85157},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2895, col: 12, offset: 91572},
+																																		pos: position{line: 2927, col: 12, offset: 92540},
 																																		run: (*parser).callonListContinuationElement1471,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2895, col: 13, offset: 91573},
+																																			pos: position{line: 2927, col: 13, offset: 92541},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 13, offset: 91573},
+																																					pos:        position{line: 2927, col: 13, offset: 92541},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 20, offset: 91580},
+																																					pos:        position{line: 2927, col: 20, offset: 92548},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2895, col: 29, offset: 91589},
+																																					pos:        position{line: 2927, col: 29, offset: 92557},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37148,37 +37713,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2669, col: 51, offset: 85037},
+																																	pos:   position{line: 2674, col: 51, offset: 85166},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2675, col: 5, offset: 85196},
+																																		pos: position{line: 2680, col: 5, offset: 85325},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 9, offset: 85206},
+																																			pos: position{line: 2681, col: 9, offset: 85335},
 																																			run: (*parser).callonListContinuationElement1478,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2676, col: 9, offset: 85206},
+																																				pos: position{line: 2681, col: 9, offset: 85335},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2676, col: 9, offset: 85206},
+																																						pos: position{line: 2681, col: 9, offset: 85335},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2632, col: 22, offset: 84150},
+																																							pos: position{line: 2637, col: 22, offset: 84279},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2628, col: 19, offset: 84070},
+																																									pos: position{line: 2633, col: 19, offset: 84199},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2628, col: 19, offset: 84070},
+																																											pos:        position{line: 2633, col: 19, offset: 84199},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2628, col: 26, offset: 84077},
+																																											pos: position{line: 2633, col: 26, offset: 84206},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2886, col: 10, offset: 91401},
+																																												pos: position{line: 2918, col: 10, offset: 92369},
 																																												run: (*parser).callonListContinuationElement1485,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2886, col: 10, offset: 91401},
+																																													pos:        position{line: 2918, col: 10, offset: 92369},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37187,28 +37752,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2908, col: 8, offset: 91799},
+																																											pos: position{line: 2940, col: 8, offset: 92767},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2895, col: 12, offset: 91572},
+																																													pos: position{line: 2927, col: 12, offset: 92540},
 																																													run: (*parser).callonListContinuationElement1488,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2895, col: 13, offset: 91573},
+																																														pos: position{line: 2927, col: 13, offset: 92541},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 13, offset: 91573},
+																																																pos:        position{line: 2927, col: 13, offset: 92541},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 20, offset: 91580},
+																																																pos:        position{line: 2927, col: 20, offset: 92548},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2895, col: 29, offset: 91589},
+																																																pos:        position{line: 2927, col: 29, offset: 92557},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37217,9 +37782,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2905, col: 8, offset: 91749},
+																																													pos: position{line: 2937, col: 8, offset: 92717},
 																																													expr: &anyMatcher{
-																																														line: 2905, col: 9, offset: 91750,
+																																														line: 2937, col: 9, offset: 92718,
 																																													},
 																																												},
 																																											},
@@ -37227,16 +37792,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91749},
+																																									pos: position{line: 2937, col: 8, offset: 92717},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91750,
+																																										line: 2937, col: 9, offset: 92718,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2677, col: 9, offset: 85233},
+																																						pos: position{line: 2682, col: 9, offset: 85362},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1498,
@@ -37244,18 +37809,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2903, col: 11, offset: 91735},
+																																										pos: position{line: 2935, col: 11, offset: 92703},
 																																										expr: &anyMatcher{
-																																											line: 2903, col: 13, offset: 91737,
+																																											line: 2935, col: 13, offset: 92705,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2886, col: 10, offset: 91401},
+																																											pos: position{line: 2918, col: 10, offset: 92369},
 																																											run: (*parser).callonListContinuationElement1503,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2886, col: 10, offset: 91401},
+																																												pos:        position{line: 2918, col: 10, offset: 92369},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37264,28 +37829,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2908, col: 8, offset: 91799},
+																																										pos: position{line: 2940, col: 8, offset: 92767},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2895, col: 12, offset: 91572},
+																																												pos: position{line: 2927, col: 12, offset: 92540},
 																																												run: (*parser).callonListContinuationElement1506,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2895, col: 13, offset: 91573},
+																																													pos: position{line: 2927, col: 13, offset: 92541},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 13, offset: 91573},
+																																															pos:        position{line: 2927, col: 13, offset: 92541},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 20, offset: 91580},
+																																															pos:        position{line: 2927, col: 20, offset: 92548},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2895, col: 29, offset: 91589},
+																																															pos:        position{line: 2927, col: 29, offset: 92557},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37294,9 +37859,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2905, col: 8, offset: 91749},
+																																												pos: position{line: 2937, col: 8, offset: 92717},
 																																												expr: &anyMatcher{
-																																													line: 2905, col: 9, offset: 91750,
+																																													line: 2937, col: 9, offset: 92718,
 																																												},
 																																											},
 																																										},
@@ -37306,22 +37871,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2678, col: 9, offset: 85252},
+																																						pos: position{line: 2683, col: 9, offset: 85381},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2678, col: 11, offset: 85254},
+																																							pos: position{line: 2683, col: 11, offset: 85383},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2678, col: 11, offset: 85254},
+																																									pos:   position{line: 2683, col: 11, offset: 85383},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2678, col: 18, offset: 85261},
+																																										pos: position{line: 2683, col: 18, offset: 85390},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2686, col: 20, offset: 85462},
+																																											pos: position{line: 2691, col: 20, offset: 85591},
 																																											run: (*parser).callonListContinuationElement1517,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2686, col: 20, offset: 85462},
+																																												pos: position{line: 2691, col: 20, offset: 85591},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2686, col: 20, offset: 85462},
+																																													pos:        position{line: 2691, col: 20, offset: 85591},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37332,7 +37897,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2678, col: 37, offset: 85280},
+																																									pos:        position{line: 2683, col: 37, offset: 85409},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37341,15 +37906,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2679, col: 9, offset: 85293},
+																																						pos:   position{line: 2684, col: 9, offset: 85422},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2679, col: 18, offset: 85302},
+																																							pos: position{line: 2684, col: 18, offset: 85431},
 																																							run: (*parser).callonListContinuationElement1522,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2679, col: 18, offset: 85302},
+																																								pos: position{line: 2684, col: 18, offset: 85431},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2679, col: 18, offset: 85302},
+																																									pos:        position{line: 2684, col: 18, offset: 85431},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37359,30 +37924,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2681, col: 12, offset: 85364},
+																																						pos: position{line: 2686, col: 12, offset: 85493},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2908, col: 8, offset: 91799},
+																																							pos: position{line: 2940, col: 8, offset: 92767},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2895, col: 12, offset: 91572},
+																																									pos: position{line: 2927, col: 12, offset: 92540},
 																																									run: (*parser).callonListContinuationElement1527,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2895, col: 13, offset: 91573},
+																																										pos: position{line: 2927, col: 13, offset: 92541},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 13, offset: 91573},
+																																												pos:        position{line: 2927, col: 13, offset: 92541},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 20, offset: 91580},
+																																												pos:        position{line: 2927, col: 20, offset: 92548},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2895, col: 29, offset: 91589},
+																																												pos:        position{line: 2927, col: 29, offset: 92557},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -37391,9 +37956,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91749},
+																																									pos: position{line: 2937, col: 8, offset: 92717},
 																																									expr: &anyMatcher{
-																																										line: 2905, col: 9, offset: 91750,
+																																										line: 2937, col: 9, offset: 92718,
 																																									},
 																																								},
 																																							},
@@ -37421,18 +37986,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2903, col: 11, offset: 91735},
+																										pos: position{line: 2935, col: 11, offset: 92703},
 																										expr: &anyMatcher{
-																											line: 2903, col: 13, offset: 91737,
+																											line: 2935, col: 13, offset: 92705,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2886, col: 10, offset: 91401},
+																											pos: position{line: 2918, col: 10, offset: 92369},
 																											run: (*parser).callonListContinuationElement1539,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2886, col: 10, offset: 91401},
+																												pos:        position{line: 2918, col: 10, offset: 92369},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37441,28 +38006,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2908, col: 8, offset: 91799},
+																										pos: position{line: 2940, col: 8, offset: 92767},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2895, col: 12, offset: 91572},
+																												pos: position{line: 2927, col: 12, offset: 92540},
 																												run: (*parser).callonListContinuationElement1542,
 																												expr: &choiceExpr{
-																													pos: position{line: 2895, col: 13, offset: 91573},
+																													pos: position{line: 2927, col: 13, offset: 92541},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 13, offset: 91573},
+																															pos:        position{line: 2927, col: 13, offset: 92541},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 20, offset: 91580},
+																															pos:        position{line: 2927, col: 20, offset: 92548},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2895, col: 29, offset: 91589},
+																															pos:        position{line: 2927, col: 29, offset: 92557},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37471,9 +38036,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2905, col: 8, offset: 91749},
+																												pos: position{line: 2937, col: 8, offset: 92717},
 																												expr: &anyMatcher{
-																													line: 2905, col: 9, offset: 91750,
+																													line: 2937, col: 9, offset: 92718,
 																												},
 																											},
 																										},
@@ -37492,24 +38057,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2632, col: 22, offset: 84150},
+													pos: position{line: 2637, col: 22, offset: 84279},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84070},
+															pos: position{line: 2633, col: 19, offset: 84199},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84070},
+																	pos:        position{line: 2633, col: 19, offset: 84199},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84077},
+																	pos: position{line: 2633, col: 26, offset: 84206},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonListContinuationElement1553,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37518,28 +38083,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement1556,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37548,9 +38113,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -37558,9 +38123,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -37569,36 +38134,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 22, offset: 80372},
+										pos: position{line: 2501, col: 22, offset: 80501},
 										run: (*parser).callonListContinuationElement1565,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 22, offset: 80372},
+											pos: position{line: 2501, col: 22, offset: 80501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2501, col: 31, offset: 80593},
+													pos:        position{line: 2506, col: 31, offset: 80722},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2501, col: 36, offset: 80598},
+													pos: position{line: 2506, col: 36, offset: 80727},
 													expr: &litMatcher{
-														pos:        position{line: 2501, col: 37, offset: 80599},
+														pos:        position{line: 2506, col: 37, offset: 80728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2496, col: 49, offset: 80399},
+													pos:   position{line: 2501, col: 49, offset: 80528},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 13, offset: 89927},
+														pos: position{line: 2837, col: 13, offset: 90056},
 														run: (*parser).callonListContinuationElement1571,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2832, col: 13, offset: 89927},
+															pos: position{line: 2837, col: 13, offset: 90056},
 															expr: &charClassMatcher{
-																pos:        position{line: 2832, col: 13, offset: 89927},
+																pos:        position{line: 2837, col: 13, offset: 90056},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37608,28 +38173,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2908, col: 8, offset: 91799},
+													pos: position{line: 2940, col: 8, offset: 92767},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonListContinuationElement1575,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37638,9 +38203,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2905, col: 8, offset: 91749},
+															pos: position{line: 2937, col: 8, offset: 92717},
 															expr: &anyMatcher{
-																line: 2905, col: 9, offset: 91750,
+																line: 2937, col: 9, offset: 92718,
 															},
 														},
 													},
@@ -37649,94 +38214,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1594, col: 5, offset: 51449},
+										pos: position{line: 1599, col: 5, offset: 51578},
 										run: (*parser).callonListContinuationElement1582,
 										expr: &seqExpr{
-											pos: position{line: 1594, col: 5, offset: 51449},
+											pos: position{line: 1599, col: 5, offset: 51578},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1594, col: 5, offset: 51449},
+													pos:   position{line: 1599, col: 5, offset: 51578},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1594, col: 11, offset: 51455},
+														pos: position{line: 1599, col: 11, offset: 51584},
 														expr: &actionExpr{
-															pos: position{line: 1758, col: 5, offset: 56772},
+															pos: position{line: 1763, col: 5, offset: 56901},
 															run: (*parser).callonListContinuationElement1586,
 															expr: &seqExpr{
-																pos: position{line: 1758, col: 5, offset: 56772},
+																pos: position{line: 1763, col: 5, offset: 56901},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1758, col: 5, offset: 56772},
+																		pos: position{line: 1763, col: 5, offset: 56901},
 																		run: (*parser).callonListContinuationElement1588,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1761, col: 5, offset: 56835},
+																		pos:   position{line: 1766, col: 5, offset: 56964},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1761, col: 12, offset: 56842},
+																			pos: position{line: 1766, col: 12, offset: 56971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1761, col: 12, offset: 56842},
+																					pos: position{line: 1766, col: 12, offset: 56971},
 																					run: (*parser).callonListContinuationElement1591,
 																					expr: &litMatcher{
-																						pos:        position{line: 1761, col: 12, offset: 56842},
+																						pos:        position{line: 1766, col: 12, offset: 56971},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1763, col: 13, offset: 56898},
+																					pos: position{line: 1768, col: 13, offset: 57027},
 																					run: (*parser).callonListContinuationElement1593,
 																					expr: &litMatcher{
-																						pos:        position{line: 1763, col: 13, offset: 56898},
+																						pos:        position{line: 1768, col: 13, offset: 57027},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1765, col: 13, offset: 56956},
+																					pos: position{line: 1770, col: 13, offset: 57085},
 																					run: (*parser).callonListContinuationElement1595,
 																					expr: &litMatcher{
-																						pos:        position{line: 1765, col: 13, offset: 56956},
+																						pos:        position{line: 1770, col: 13, offset: 57085},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1767, col: 13, offset: 57024},
+																					pos: position{line: 1772, col: 13, offset: 57153},
 																					run: (*parser).callonListContinuationElement1597,
 																					expr: &litMatcher{
-																						pos:        position{line: 1767, col: 13, offset: 57024},
+																						pos:        position{line: 1772, col: 13, offset: 57153},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57088},
+																					pos: position{line: 1774, col: 13, offset: 57217},
 																					run: (*parser).callonListContinuationElement1599,
 																					expr: &litMatcher{
-																						pos:        position{line: 1769, col: 13, offset: 57088},
+																						pos:        position{line: 1774, col: 13, offset: 57217},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57152},
+																					pos: position{line: 1776, col: 13, offset: 57281},
 																					run: (*parser).callonListContinuationElement1601,
 																					expr: &andExpr{
-																						pos: position{line: 1771, col: 13, offset: 57152},
+																						pos: position{line: 1776, col: 13, offset: 57281},
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 11, offset: 91462},
+																							pos: position{line: 2922, col: 11, offset: 92430},
 																							run: (*parser).callonListContinuationElement1603,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2890, col: 11, offset: 91462},
+																								pos: position{line: 2922, col: 11, offset: 92430},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2890, col: 11, offset: 91462},
+																									pos:        position{line: 2922, col: 11, offset: 92430},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37750,17 +38315,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1773, col: 12, offset: 57232},
+																		pos: position{line: 1778, col: 12, offset: 57361},
 																		expr: &seqExpr{
-																			pos: position{line: 1773, col: 14, offset: 57234},
+																			pos: position{line: 1778, col: 14, offset: 57363},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1773, col: 14, offset: 57234},
+																					pos: position{line: 1778, col: 14, offset: 57363},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37769,28 +38334,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37799,9 +38364,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -37815,16 +38380,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1595, col: 5, offset: 51478},
+													pos:   position{line: 1600, col: 5, offset: 51607},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1538, col: 5, offset: 49774},
+														pos: position{line: 1543, col: 5, offset: 49903},
 														run: (*parser).callonListContinuationElement1620,
 														expr: &seqExpr{
-															pos: position{line: 1538, col: 5, offset: 49774},
+															pos: position{line: 1543, col: 5, offset: 49903},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1538, col: 5, offset: 49774},
+																	pos: position{line: 1543, col: 5, offset: 49903},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1623,
@@ -37832,18 +38397,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2903, col: 11, offset: 91735},
+																					pos: position{line: 2935, col: 11, offset: 92703},
 																					expr: &anyMatcher{
-																						line: 2903, col: 13, offset: 91737,
+																						line: 2935, col: 13, offset: 92705,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement1628,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37852,28 +38417,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2908, col: 8, offset: 91799},
+																					pos: position{line: 2940, col: 8, offset: 92767},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonListContinuationElement1631,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37882,9 +38447,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2905, col: 8, offset: 91749},
+																							pos: position{line: 2937, col: 8, offset: 92717},
 																							expr: &anyMatcher{
-																								line: 2905, col: 9, offset: 91750,
+																								line: 2937, col: 9, offset: 92718,
 																							},
 																						},
 																					},
@@ -37894,23 +38459,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1539, col: 5, offset: 49789},
+																	pos: position{line: 1544, col: 5, offset: 49918},
 																	expr: &seqExpr{
-																		pos: position{line: 1569, col: 27, offset: 50694},
+																		pos: position{line: 1574, col: 27, offset: 50823},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1569, col: 27, offset: 50694},
+																				pos:        position{line: 1574, col: 27, offset: 50823},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1569, col: 31, offset: 50698},
+																				pos: position{line: 1574, col: 31, offset: 50827},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91401},
+																					pos: position{line: 2918, col: 10, offset: 92369},
 																					run: (*parser).callonListContinuationElement1642,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91401},
+																						pos:        position{line: 2918, col: 10, offset: 92369},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37919,25 +38484,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonListContinuationElement1644,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37949,20 +38514,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1540, col: 5, offset: 49817},
+																	pos: position{line: 1545, col: 5, offset: 49946},
 																	expr: &actionExpr{
-																		pos: position{line: 1610, col: 5, offset: 51888},
+																		pos: position{line: 1615, col: 5, offset: 52017},
 																		run: (*parser).callonListContinuationElement1650,
 																		expr: &seqExpr{
-																			pos: position{line: 1610, col: 5, offset: 51888},
+																			pos: position{line: 1615, col: 5, offset: 52017},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1610, col: 5, offset: 51888},
+																					pos: position{line: 1615, col: 5, offset: 52017},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement1653,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37971,27 +38536,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1610, col: 12, offset: 51895},
+																					pos:   position{line: 1615, col: 12, offset: 52024},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1612, col: 9, offset: 51958},
+																						pos: position{line: 1617, col: 9, offset: 52087},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1612, col: 9, offset: 51958},
+																								pos: position{line: 1617, col: 9, offset: 52087},
 																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 9, offset: 51958},
+																									pos: position{line: 1617, col: 9, offset: 52087},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1612, col: 9, offset: 51958},
+																											pos:   position{line: 1617, col: 9, offset: 52087},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1612, col: 16, offset: 51965},
+																												pos: position{line: 1617, col: 16, offset: 52094},
 																												run: (*parser).callonListContinuationElement1660,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1612, col: 16, offset: 51965},
+																													pos: position{line: 1617, col: 16, offset: 52094},
 																													expr: &litMatcher{
-																														pos:        position{line: 1612, col: 17, offset: 51966},
+																														pos:        position{line: 1617, col: 17, offset: 52095},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38000,22 +38565,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1616, col: 9, offset: 52066},
+																											pos: position{line: 1621, col: 9, offset: 52195},
 																											run: (*parser).callonListContinuationElement1663,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1635, col: 11, offset: 52783},
+																								pos: position{line: 1640, col: 11, offset: 52912},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1635, col: 11, offset: 52783},
+																									pos: position{line: 1640, col: 11, offset: 52912},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 11, offset: 52783},
+																											pos: position{line: 1640, col: 11, offset: 52912},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1635, col: 12, offset: 52784},
+																												pos:        position{line: 1640, col: 12, offset: 52913},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38023,7 +38588,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 20, offset: 52792},
+																											pos:        position{line: 1640, col: 20, offset: 52921},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38032,20 +38597,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1637, col: 13, offset: 52909},
+																								pos: position{line: 1642, col: 13, offset: 53038},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1637, col: 13, offset: 52909},
+																									pos: position{line: 1642, col: 13, offset: 53038},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1637, col: 14, offset: 52910},
+																											pos:        position{line: 1642, col: 14, offset: 53039},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 21, offset: 52917},
+																											pos:        position{line: 1642, col: 21, offset: 53046},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38054,20 +38619,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1639, col: 13, offset: 53037},
+																								pos: position{line: 1644, col: 13, offset: 53166},
 																								run: (*parser).callonListContinuationElement1673,
 																								expr: &seqExpr{
-																									pos: position{line: 1639, col: 13, offset: 53037},
+																									pos: position{line: 1644, col: 13, offset: 53166},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1639, col: 14, offset: 53038},
+																											pos:        position{line: 1644, col: 14, offset: 53167},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 21, offset: 53045},
+																											pos:        position{line: 1644, col: 21, offset: 53174},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38076,15 +38641,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 13, offset: 53165},
+																								pos: position{line: 1646, col: 13, offset: 53294},
 																								run: (*parser).callonListContinuationElement1677,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 13, offset: 53165},
+																									pos: position{line: 1646, col: 13, offset: 53294},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 13, offset: 53165},
+																											pos: position{line: 1646, col: 13, offset: 53294},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 14, offset: 53166},
+																												pos:        position{line: 1646, col: 14, offset: 53295},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38092,7 +38657,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 26, offset: 53178},
+																											pos:        position{line: 1646, col: 26, offset: 53307},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38101,15 +38666,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1643, col: 13, offset: 53298},
+																								pos: position{line: 1648, col: 13, offset: 53427},
 																								run: (*parser).callonListContinuationElement1682,
 																								expr: &seqExpr{
-																									pos: position{line: 1643, col: 13, offset: 53298},
+																									pos: position{line: 1648, col: 13, offset: 53427},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1643, col: 13, offset: 53298},
+																											pos: position{line: 1648, col: 13, offset: 53427},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1643, col: 14, offset: 53299},
+																												pos:        position{line: 1648, col: 14, offset: 53428},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38117,7 +38682,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 26, offset: 53311},
+																											pos:        position{line: 1648, col: 26, offset: 53440},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38129,12 +38694,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91462},
+																					pos: position{line: 2922, col: 11, offset: 92430},
 																					run: (*parser).callonListContinuationElement1687,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91462},
+																						pos: position{line: 2922, col: 11, offset: 92430},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91462},
+																							pos:        position{line: 2922, col: 11, offset: 92430},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38147,20 +38712,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1541, col: 5, offset: 49847},
+																	pos: position{line: 1546, col: 5, offset: 49976},
 																	expr: &actionExpr{
-																		pos: position{line: 1660, col: 5, offset: 53850},
+																		pos: position{line: 1665, col: 5, offset: 53979},
 																		run: (*parser).callonListContinuationElement1691,
 																		expr: &seqExpr{
-																			pos: position{line: 1660, col: 5, offset: 53850},
+																			pos: position{line: 1665, col: 5, offset: 53979},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1660, col: 5, offset: 53850},
+																					pos: position{line: 1665, col: 5, offset: 53979},
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement1694,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38169,24 +38734,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1661, col: 5, offset: 53862},
+																					pos:   position{line: 1666, col: 5, offset: 53991},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1662, col: 9, offset: 53878},
+																						pos: position{line: 1667, col: 9, offset: 54007},
 																						run: (*parser).callonListContinuationElement1697,
 																						expr: &choiceExpr{
-																							pos: position{line: 1662, col: 10, offset: 53879},
+																							pos: position{line: 1667, col: 10, offset: 54008},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1662, col: 11, offset: 53880},
+																									pos:        position{line: 1667, col: 11, offset: 54009},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1662, col: 18, offset: 53887},
+																									pos: position{line: 1667, col: 18, offset: 54016},
 																									expr: &litMatcher{
-																										pos:        position{line: 1662, col: 19, offset: 53888},
+																										pos:        position{line: 1667, col: 19, offset: 54017},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38197,16 +38762,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1665, col: 7, offset: 53978},
+																					pos: position{line: 1670, col: 7, offset: 54107},
 																					run: (*parser).callonListContinuationElement1702,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91462},
+																					pos: position{line: 2922, col: 11, offset: 92430},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91462},
+																						pos: position{line: 2922, col: 11, offset: 92430},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91462},
+																							pos:        position{line: 2922, col: 11, offset: 92430},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38219,29 +38784,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1542, col: 5, offset: 49879},
+																	pos: position{line: 1547, col: 5, offset: 50008},
 																	expr: &actionExpr{
-																		pos: position{line: 1749, col: 5, offset: 56387},
+																		pos: position{line: 1754, col: 5, offset: 56516},
 																		run: (*parser).callonListContinuationElement1707,
 																		expr: &seqExpr{
-																			pos: position{line: 1749, col: 5, offset: 56387},
+																			pos: position{line: 1754, col: 5, offset: 56516},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1749, col: 5, offset: 56387},
+																					pos:        position{line: 1754, col: 5, offset: 56516},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1749, col: 9, offset: 56391},
+																					pos:   position{line: 1754, col: 9, offset: 56520},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1749, col: 14, offset: 56396},
+																						pos: position{line: 1754, col: 14, offset: 56525},
 																						run: (*parser).callonListContinuationElement1711,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1749, col: 14, offset: 56396},
+																							pos: position{line: 1754, col: 14, offset: 56525},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1749, col: 14, offset: 56396},
+																								pos:        position{line: 1754, col: 14, offset: 56525},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38251,18 +38816,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1749, col: 62, offset: 56444},
+																					pos:        position{line: 1754, col: 62, offset: 56573},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2890, col: 11, offset: 91462},
+																					pos: position{line: 2922, col: 11, offset: 92430},
 																					run: (*parser).callonListContinuationElement1715,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2890, col: 11, offset: 91462},
+																						pos: position{line: 2922, col: 11, offset: 92430},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2890, col: 11, offset: 91462},
+																							pos:        position{line: 2922, col: 11, offset: 92430},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38275,36 +38840,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1543, col: 5, offset: 49909},
+																	pos: position{line: 1548, col: 5, offset: 50038},
 																	expr: &seqExpr{
-																		pos: position{line: 1543, col: 7, offset: 49911},
+																		pos: position{line: 1548, col: 7, offset: 50040},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1695, col: 5, offset: 54869},
+																				pos: position{line: 1700, col: 5, offset: 54998},
 																				run: (*parser).callonListContinuationElement1720,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 5, offset: 54869},
+																					pos: position{line: 1700, col: 5, offset: 54998},
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 6, offset: 54870},
+																						pos: position{line: 1700, col: 6, offset: 54999},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1695, col: 6, offset: 54870},
+																								pos: position{line: 1700, col: 6, offset: 54999},
 																								expr: &actionExpr{
-																									pos: position{line: 1700, col: 5, offset: 55020},
+																									pos: position{line: 1705, col: 5, offset: 55149},
 																									run: (*parser).callonListContinuationElement1724,
 																									expr: &seqExpr{
-																										pos: position{line: 1700, col: 5, offset: 55020},
+																										pos: position{line: 1705, col: 5, offset: 55149},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1700, col: 5, offset: 55020},
+																												pos:   position{line: 1705, col: 5, offset: 55149},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1700, col: 16, offset: 55031},
+																													pos: position{line: 1705, col: 16, offset: 55160},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1700, col: 16, offset: 55031},
+																														pos: position{line: 1705, col: 16, offset: 55160},
 																														expr: &litMatcher{
-																															pos:        position{line: 1700, col: 17, offset: 55032},
+																															pos:        position{line: 1705, col: 17, offset: 55161},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -38313,7 +38878,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1703, col: 5, offset: 55089},
+																												pos: position{line: 1708, col: 5, offset: 55218},
 																												run: (*parser).callonListContinuationElement1730,
 																											},
 																										},
@@ -38321,30 +38886,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1695, col: 35, offset: 54899},
+																								pos: position{line: 1700, col: 35, offset: 55028},
 																								expr: &choiceExpr{
-																									pos: position{line: 2908, col: 8, offset: 91799},
+																									pos: position{line: 2940, col: 8, offset: 92767},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2895, col: 12, offset: 91572},
+																											pos: position{line: 2927, col: 12, offset: 92540},
 																											run: (*parser).callonListContinuationElement1733,
 																											expr: &choiceExpr{
-																												pos: position{line: 2895, col: 13, offset: 91573},
+																												pos: position{line: 2927, col: 13, offset: 92541},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 13, offset: 91573},
+																														pos:        position{line: 2927, col: 13, offset: 92541},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 20, offset: 91580},
+																														pos:        position{line: 2927, col: 20, offset: 92548},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2895, col: 29, offset: 91589},
+																														pos:        position{line: 2927, col: 29, offset: 92557},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38353,37 +38918,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2905, col: 8, offset: 91749},
+																											pos: position{line: 2937, col: 8, offset: 92717},
 																											expr: &anyMatcher{
-																												line: 2905, col: 9, offset: 91750,
+																												line: 2937, col: 9, offset: 92718,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1695, col: 40, offset: 54904,
+																								line: 1700, col: 40, offset: 55033,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 55020},
+																				pos: position{line: 1705, col: 5, offset: 55149},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &seqExpr{
-																					pos: position{line: 1700, col: 5, offset: 55020},
+																					pos: position{line: 1705, col: 5, offset: 55149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1700, col: 5, offset: 55020},
+																							pos:   position{line: 1705, col: 5, offset: 55149},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1700, col: 16, offset: 55031},
+																								pos: position{line: 1705, col: 16, offset: 55160},
 																								run: (*parser).callonListContinuationElement1744,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1700, col: 16, offset: 55031},
+																									pos: position{line: 1705, col: 16, offset: 55160},
 																									expr: &litMatcher{
-																										pos:        position{line: 1700, col: 17, offset: 55032},
+																										pos:        position{line: 1705, col: 17, offset: 55161},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38392,20 +38957,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1703, col: 5, offset: 55089},
+																							pos: position{line: 1708, col: 5, offset: 55218},
 																							run: (*parser).callonListContinuationElement1747,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1543, col: 59, offset: 49963},
+																				pos: position{line: 1548, col: 59, offset: 50092},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 10, offset: 91401},
+																						pos: position{line: 2918, col: 10, offset: 92369},
 																						run: (*parser).callonListContinuationElement1749,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 10, offset: 91401},
+																							pos:        position{line: 2918, col: 10, offset: 92369},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38413,25 +38978,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2895, col: 12, offset: 91572},
+																						pos: position{line: 2927, col: 12, offset: 92540},
 																						run: (*parser).callonListContinuationElement1751,
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 13, offset: 91573},
+																							pos: position{line: 2927, col: 13, offset: 92541},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 13, offset: 91573},
+																									pos:        position{line: 2927, col: 13, offset: 92541},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 20, offset: 91580},
+																									pos:        position{line: 2927, col: 20, offset: 92548},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2895, col: 29, offset: 91589},
+																									pos:        position{line: 2927, col: 29, offset: 92557},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -38440,9 +39005,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2905, col: 8, offset: 91749},
+																						pos: position{line: 2937, col: 8, offset: 92717},
 																						expr: &anyMatcher{
-																							line: 2905, col: 9, offset: 91750,
+																							line: 2937, col: 9, offset: 92718,
 																						},
 																					},
 																				},
@@ -38451,9 +39016,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1544, col: 5, offset: 49981},
+																	pos: position{line: 1549, col: 5, offset: 50110},
 																	expr: &choiceExpr{
-																		pos: position{line: 1544, col: 7, offset: 49983},
+																		pos: position{line: 1549, col: 7, offset: 50112},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -38464,7 +39029,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2776, col: 13, offset: 88482},
+																								pos:        position{line: 2781, col: 13, offset: 88611},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -38514,10 +39079,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1775,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38526,28 +39091,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1778,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38556,9 +39121,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -38603,10 +39168,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1794,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38615,28 +39180,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1797,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38645,9 +39210,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -38688,10 +39253,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1812,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38700,28 +39265,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1815,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38730,9 +39295,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -38777,10 +39342,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1831,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38789,28 +39354,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1834,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38819,9 +39384,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -38866,10 +39431,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1850,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38878,28 +39443,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1853,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38908,9 +39473,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -38955,10 +39520,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1869,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -38967,28 +39532,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1872,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -38997,9 +39562,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -39044,10 +39609,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1888,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39056,28 +39621,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1891,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39086,9 +39651,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -39133,10 +39698,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1907,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39145,28 +39710,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1910,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39175,9 +39740,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -39222,10 +39787,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2886, col: 10, offset: 91401},
+																														pos: position{line: 2918, col: 10, offset: 92369},
 																														run: (*parser).callonListContinuationElement1926,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2886, col: 10, offset: 91401},
+																															pos:        position{line: 2918, col: 10, offset: 92369},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39234,28 +39799,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2908, col: 8, offset: 91799},
+																													pos: position{line: 2940, col: 8, offset: 92767},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2895, col: 12, offset: 91572},
+																															pos: position{line: 2927, col: 12, offset: 92540},
 																															run: (*parser).callonListContinuationElement1929,
 																															expr: &choiceExpr{
-																																pos: position{line: 2895, col: 13, offset: 91573},
+																																pos: position{line: 2927, col: 13, offset: 92541},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 13, offset: 91573},
+																																		pos:        position{line: 2927, col: 13, offset: 92541},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 20, offset: 91580},
+																																		pos:        position{line: 2927, col: 20, offset: 92548},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2895, col: 29, offset: 91589},
+																																		pos:        position{line: 2927, col: 29, offset: 92557},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39264,9 +39829,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2905, col: 8, offset: 91749},
+																															pos: position{line: 2937, col: 8, offset: 92717},
 																															expr: &anyMatcher{
-																																line: 2905, col: 9, offset: 91750,
+																																line: 2937, col: 9, offset: 92718,
 																															},
 																														},
 																													},
@@ -39303,10 +39868,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2886, col: 10, offset: 91401},
+																								pos: position{line: 2918, col: 10, offset: 92369},
 																								run: (*parser).callonListContinuationElement1942,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2886, col: 10, offset: 91401},
+																									pos:        position{line: 2918, col: 10, offset: 92369},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39315,28 +39880,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2908, col: 8, offset: 91799},
+																							pos: position{line: 2940, col: 8, offset: 92767},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 91572},
+																									pos: position{line: 2927, col: 12, offset: 92540},
 																									run: (*parser).callonListContinuationElement1945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2895, col: 13, offset: 91573},
+																										pos: position{line: 2927, col: 13, offset: 92541},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 13, offset: 91573},
+																												pos:        position{line: 2927, col: 13, offset: 92541},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 20, offset: 91580},
+																												pos:        position{line: 2927, col: 20, offset: 92548},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2895, col: 29, offset: 91589},
+																												pos:        position{line: 2927, col: 29, offset: 92557},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39345,9 +39910,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2905, col: 8, offset: 91749},
+																									pos: position{line: 2937, col: 8, offset: 92717},
 																									expr: &anyMatcher{
-																										line: 2905, col: 9, offset: 91750,
+																										line: 2937, col: 9, offset: 92718,
 																									},
 																								},
 																							},
@@ -39356,21 +39921,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2628, col: 19, offset: 84070},
+																				pos: position{line: 2633, col: 19, offset: 84199},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2628, col: 19, offset: 84070},
+																						pos:        position{line: 2633, col: 19, offset: 84199},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2628, col: 26, offset: 84077},
+																						pos: position{line: 2633, col: 26, offset: 84206},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonListContinuationElement1955,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39379,28 +39944,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2908, col: 8, offset: 91799},
+																						pos: position{line: 2940, col: 8, offset: 92767},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2895, col: 12, offset: 91572},
+																								pos: position{line: 2927, col: 12, offset: 92540},
 																								run: (*parser).callonListContinuationElement1958,
 																								expr: &choiceExpr{
-																									pos: position{line: 2895, col: 13, offset: 91573},
+																									pos: position{line: 2927, col: 13, offset: 92541},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 91573},
+																											pos:        position{line: 2927, col: 13, offset: 92541},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 20, offset: 91580},
+																											pos:        position{line: 2927, col: 20, offset: 92548},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2895, col: 29, offset: 91589},
+																											pos:        position{line: 2927, col: 29, offset: 92557},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39409,9 +39974,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2905, col: 8, offset: 91749},
+																								pos: position{line: 2937, col: 8, offset: 92717},
 																								expr: &anyMatcher{
-																									line: 2905, col: 9, offset: 91750,
+																									line: 2937, col: 9, offset: 92718,
 																								},
 																							},
 																						},
@@ -39422,15 +39987,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1545, col: 5, offset: 50041},
+																	pos:   position{line: 1550, col: 5, offset: 50170},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2836, col: 14, offset: 89994},
+																		pos: position{line: 2841, col: 14, offset: 90123},
 																		run: (*parser).callonListContinuationElement1966,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2836, col: 14, offset: 89994},
+																			pos: position{line: 2841, col: 14, offset: 90123},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2836, col: 14, offset: 89994},
+																				pos:        position{line: 2841, col: 14, offset: 90123},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39440,28 +40005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonListContinuationElement1970,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39470,9 +40035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -39493,33 +40058,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1733, col: 1, offset: 55881},
+			pos:  position{line: 1738, col: 1, offset: 56010},
 			expr: &actionExpr{
-				pos: position{line: 1735, col: 5, offset: 55959},
+				pos: position{line: 1740, col: 5, offset: 56088},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1735, col: 5, offset: 55959},
+					pos: position{line: 1740, col: 5, offset: 56088},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1735, col: 5, offset: 55959},
+							pos: position{line: 1740, col: 5, offset: 56088},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1738, col: 5, offset: 56026},
+							pos:        position{line: 1743, col: 5, offset: 56155},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1738, col: 9, offset: 56030},
+							pos:   position{line: 1743, col: 9, offset: 56159},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1738, col: 14, offset: 56035},
+								pos: position{line: 1743, col: 14, offset: 56164},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1738, col: 14, offset: 56035},
+									pos: position{line: 1743, col: 14, offset: 56164},
 									expr: &charClassMatcher{
-										pos:        position{line: 1738, col: 14, offset: 56035},
+										pos:        position{line: 1743, col: 14, offset: 56164},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39529,18 +40094,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1738, col: 62, offset: 56083},
+							pos:        position{line: 1743, col: 62, offset: 56212},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1738, col: 66, offset: 56087},
+							pos: position{line: 1743, col: 66, offset: 56216},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39549,30 +40114,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1738, col: 73, offset: 56094},
+							pos: position{line: 1743, col: 73, offset: 56223},
 							expr: &choiceExpr{
-								pos: position{line: 1738, col: 75, offset: 56096},
+								pos: position{line: 1743, col: 75, offset: 56225},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91572},
+										pos: position{line: 2927, col: 12, offset: 92540},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91573},
+											pos: position{line: 2927, col: 13, offset: 92541},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91573},
+													pos:        position{line: 2927, col: 13, offset: 92541},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91580},
+													pos:        position{line: 2927, col: 20, offset: 92548},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91589},
+													pos:        position{line: 2927, col: 29, offset: 92557},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39581,13 +40146,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2905, col: 8, offset: 91749},
+										pos: position{line: 2937, col: 8, offset: 92717},
 										expr: &anyMatcher{
-											line: 2905, col: 9, offset: 91750,
+											line: 2937, col: 9, offset: 92718,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1738, col: 81, offset: 56102},
+										pos:  position{line: 1743, col: 81, offset: 56231},
 										name: "Callout",
 									},
 								},
@@ -39599,44 +40164,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1777, col: 1, offset: 57289},
+			pos:  position{line: 1782, col: 1, offset: 57418},
 			expr: &actionExpr{
-				pos: position{line: 1779, col: 5, offset: 57363},
+				pos: position{line: 1784, col: 5, offset: 57492},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1779, col: 5, offset: 57363},
+					pos: position{line: 1784, col: 5, offset: 57492},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1779, col: 5, offset: 57363},
+							pos: position{line: 1784, col: 5, offset: 57492},
 							expr: &seqExpr{
-								pos: position{line: 1779, col: 7, offset: 57365},
+								pos: position{line: 1784, col: 7, offset: 57494},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2776, col: 13, offset: 88482},
+										pos:        position{line: 2781, col: 13, offset: 88611},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1779, col: 16, offset: 57374},
+										pos: position{line: 1784, col: 16, offset: 57503},
 										expr: &seqExpr{
-											pos: position{line: 1779, col: 18, offset: 57376},
+											pos: position{line: 1784, col: 18, offset: 57505},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1779, col: 19, offset: 57377},
+													pos:        position{line: 1784, col: 19, offset: 57506},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2890, col: 11, offset: 91462},
+													pos: position{line: 2922, col: 11, offset: 92430},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2890, col: 11, offset: 91462},
+														pos: position{line: 2922, col: 11, offset: 92430},
 														expr: &charClassMatcher{
-															pos:        position{line: 2890, col: 11, offset: 91462},
+															pos:        position{line: 2922, col: 11, offset: 92430},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39651,88 +40216,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57517},
+							pos:   position{line: 1785, col: 5, offset: 57646},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1780, col: 11, offset: 57523},
+								pos: position{line: 1785, col: 11, offset: 57652},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 5, offset: 56772},
+									pos: position{line: 1763, col: 5, offset: 56901},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 5, offset: 56772},
+										pos: position{line: 1763, col: 5, offset: 56901},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1758, col: 5, offset: 56772},
+												pos: position{line: 1763, col: 5, offset: 56901},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1761, col: 5, offset: 56835},
+												pos:   position{line: 1766, col: 5, offset: 56964},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1761, col: 12, offset: 56842},
+													pos: position{line: 1766, col: 12, offset: 56971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1761, col: 12, offset: 56842},
+															pos: position{line: 1766, col: 12, offset: 56971},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 12, offset: 56842},
+																pos:        position{line: 1766, col: 12, offset: 56971},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56898},
+															pos: position{line: 1768, col: 13, offset: 57027},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56898},
+																pos:        position{line: 1768, col: 13, offset: 57027},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 56956},
+															pos: position{line: 1770, col: 13, offset: 57085},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1765, col: 13, offset: 56956},
+																pos:        position{line: 1770, col: 13, offset: 57085},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1767, col: 13, offset: 57024},
+															pos: position{line: 1772, col: 13, offset: 57153},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 13, offset: 57024},
+																pos:        position{line: 1772, col: 13, offset: 57153},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57088},
+															pos: position{line: 1774, col: 13, offset: 57217},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57088},
+																pos:        position{line: 1774, col: 13, offset: 57217},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57152},
+															pos: position{line: 1776, col: 13, offset: 57281},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1771, col: 13, offset: 57152},
+																pos: position{line: 1776, col: 13, offset: 57281},
 																expr: &actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39746,17 +40311,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 12, offset: 57232},
+												pos: position{line: 1778, col: 12, offset: 57361},
 												expr: &seqExpr{
-													pos: position{line: 1773, col: 14, offset: 57234},
+													pos: position{line: 1778, col: 14, offset: 57363},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1773, col: 14, offset: 57234},
+															pos: position{line: 1778, col: 14, offset: 57363},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39765,28 +40330,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91799},
+															pos: position{line: 2940, col: 8, offset: 92767},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91572},
+																	pos: position{line: 2927, col: 12, offset: 92540},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91573},
+																		pos: position{line: 2927, col: 13, offset: 92541},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91573},
+																				pos:        position{line: 2927, col: 13, offset: 92541},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91580},
+																				pos:        position{line: 2927, col: 20, offset: 92548},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91589},
+																				pos:        position{line: 2927, col: 29, offset: 92557},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39795,9 +40360,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -39811,24 +40376,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57545},
+							pos:   position{line: 1786, col: 5, offset: 57674},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1818, col: 5, offset: 58756},
+								pos: position{line: 1823, col: 5, offset: 58885},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1818, col: 5, offset: 58756},
+									pos: position{line: 1823, col: 5, offset: 58885},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1818, col: 5, offset: 58756},
+											pos:   position{line: 1823, col: 5, offset: 58885},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 14, offset: 89994},
+												pos: position{line: 2841, col: 14, offset: 90123},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2836, col: 14, offset: 89994},
+													pos: position{line: 2841, col: 14, offset: 90123},
 													expr: &charClassMatcher{
-														pos:        position{line: 2836, col: 14, offset: 89994},
+														pos:        position{line: 2841, col: 14, offset: 90123},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39838,32 +40403,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1819, col: 5, offset: 58780},
+											pos: position{line: 1824, col: 5, offset: 58909},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2908, col: 8, offset: 91799},
+											pos: position{line: 2940, col: 8, offset: 92767},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2895, col: 12, offset: 91572},
+													pos: position{line: 2927, col: 12, offset: 92540},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 13, offset: 91573},
+														pos: position{line: 2927, col: 13, offset: 92541},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2895, col: 13, offset: 91573},
+																pos:        position{line: 2927, col: 13, offset: 92541},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 20, offset: 91580},
+																pos:        position{line: 2927, col: 20, offset: 92548},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 29, offset: 91589},
+																pos:        position{line: 2927, col: 29, offset: 92557},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39872,9 +40437,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -39884,28 +40449,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1782, col: 5, offset: 57579},
+							pos: position{line: 1787, col: 5, offset: 57708},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1789, col: 5, offset: 57909},
+							pos:   position{line: 1794, col: 5, offset: 58038},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1789, col: 16, offset: 57920},
+								pos: position{line: 1794, col: 16, offset: 58049},
 								expr: &actionExpr{
-									pos: position{line: 1790, col: 9, offset: 57930},
+									pos: position{line: 1795, col: 9, offset: 58059},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1790, col: 9, offset: 57930},
+										pos: position{line: 1795, col: 9, offset: 58059},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91735},
+												pos: position{line: 2935, col: 11, offset: 92703},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91737,
+													line: 2935, col: 13, offset: 92705,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 57946},
+												pos: position{line: 1796, col: 9, offset: 58075},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph71,
@@ -39913,18 +40478,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39933,28 +40498,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39963,9 +40528,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -39975,16 +40540,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1792, col: 9, offset: 57965},
+												pos: position{line: 1797, col: 9, offset: 58094},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1792, col: 10, offset: 57966},
+													pos:  position{line: 1797, col: 10, offset: 58095},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 9, offset: 57990},
+												pos: position{line: 1798, col: 9, offset: 58119},
 												expr: &choiceExpr{
-													pos: position{line: 1793, col: 11, offset: 57992},
+													pos: position{line: 1798, col: 11, offset: 58121},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -39995,7 +40560,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2776, col: 13, offset: 88482},
+																			pos:        position{line: 2781, col: 13, offset: 88611},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40045,10 +40610,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40057,28 +40622,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40087,9 +40652,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40134,10 +40699,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40146,28 +40711,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40176,9 +40741,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40219,10 +40784,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40231,28 +40796,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40261,9 +40826,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40308,10 +40873,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40320,28 +40885,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40350,9 +40915,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40397,10 +40962,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40409,28 +40974,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40439,9 +41004,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40486,10 +41051,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40498,28 +41063,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40528,9 +41093,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40575,10 +41140,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40587,28 +41152,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40617,9 +41182,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40664,10 +41229,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40676,28 +41241,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40706,9 +41271,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40753,10 +41318,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40765,28 +41330,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40795,9 +41360,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -40834,10 +41399,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40846,28 +41411,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40876,9 +41441,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -40887,21 +41452,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84070},
+															pos: position{line: 2633, col: 19, offset: 84199},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84070},
+																	pos:        position{line: 2633, col: 19, offset: 84199},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84077},
+																	pos: position{line: 2633, col: 26, offset: 84206},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40910,28 +41475,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40940,9 +41505,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -40953,23 +41518,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1794, col: 9, offset: 58054},
+												pos: position{line: 1799, col: 9, offset: 58183},
 												expr: &seqExpr{
-													pos: position{line: 1569, col: 27, offset: 50694},
+													pos: position{line: 1574, col: 27, offset: 50823},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1569, col: 27, offset: 50694},
+															pos:        position{line: 1574, col: 27, offset: 50823},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1569, col: 31, offset: 50698},
+															pos: position{line: 1574, col: 31, offset: 50827},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40978,25 +41543,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41008,42 +41573,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1795, col: 9, offset: 58086},
+												pos:   position{line: 1800, col: 9, offset: 58215},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1795, col: 15, offset: 58092},
+													pos: position{line: 1800, col: 15, offset: 58221},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80372},
+															pos: position{line: 2501, col: 22, offset: 80501},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80372},
+																pos: position{line: 2501, col: 22, offset: 80501},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80593},
+																		pos:        position{line: 2506, col: 31, offset: 80722},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80598},
+																		pos: position{line: 2506, col: 36, offset: 80727},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80599},
+																			pos:        position{line: 2506, col: 37, offset: 80728},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80399},
+																		pos:   position{line: 2501, col: 49, offset: 80528},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89927},
+																			pos: position{line: 2837, col: 13, offset: 90056},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89927},
+																				pos: position{line: 2837, col: 13, offset: 90056},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89927},
+																					pos:        position{line: 2837, col: 13, offset: 90056},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41053,28 +41618,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41083,9 +41648,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -41094,21 +41659,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1818, col: 5, offset: 58756},
+															pos: position{line: 1823, col: 5, offset: 58885},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1818, col: 5, offset: 58756},
+																pos: position{line: 1823, col: 5, offset: 58885},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1818, col: 5, offset: 58756},
+																		pos:   position{line: 1823, col: 5, offset: 58885},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89994},
+																			pos: position{line: 2841, col: 14, offset: 90123},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89994},
+																				pos: position{line: 2841, col: 14, offset: 90123},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89994},
+																					pos:        position{line: 2841, col: 14, offset: 90123},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41118,32 +41683,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1819, col: 5, offset: 58780},
+																		pos: position{line: 1824, col: 5, offset: 58909},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41152,9 +41717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -41176,96 +41741,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1802, col: 1, offset: 58296},
+			pos:  position{line: 1807, col: 1, offset: 58425},
 			expr: &actionExpr{
-				pos: position{line: 1803, col: 5, offset: 58314},
+				pos: position{line: 1808, col: 5, offset: 58443},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1803, col: 5, offset: 58314},
+					pos: position{line: 1808, col: 5, offset: 58443},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58314},
+							pos:   position{line: 1808, col: 5, offset: 58443},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1803, col: 11, offset: 58320},
+								pos: position{line: 1808, col: 11, offset: 58449},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 5, offset: 56772},
+									pos: position{line: 1763, col: 5, offset: 56901},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 5, offset: 56772},
+										pos: position{line: 1763, col: 5, offset: 56901},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1758, col: 5, offset: 56772},
+												pos: position{line: 1763, col: 5, offset: 56901},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1761, col: 5, offset: 56835},
+												pos:   position{line: 1766, col: 5, offset: 56964},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1761, col: 12, offset: 56842},
+													pos: position{line: 1766, col: 12, offset: 56971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1761, col: 12, offset: 56842},
+															pos: position{line: 1766, col: 12, offset: 56971},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 12, offset: 56842},
+																pos:        position{line: 1766, col: 12, offset: 56971},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56898},
+															pos: position{line: 1768, col: 13, offset: 57027},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56898},
+																pos:        position{line: 1768, col: 13, offset: 57027},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 56956},
+															pos: position{line: 1770, col: 13, offset: 57085},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1765, col: 13, offset: 56956},
+																pos:        position{line: 1770, col: 13, offset: 57085},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1767, col: 13, offset: 57024},
+															pos: position{line: 1772, col: 13, offset: 57153},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 13, offset: 57024},
+																pos:        position{line: 1772, col: 13, offset: 57153},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57088},
+															pos: position{line: 1774, col: 13, offset: 57217},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57088},
+																pos:        position{line: 1774, col: 13, offset: 57217},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57152},
+															pos: position{line: 1776, col: 13, offset: 57281},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1771, col: 13, offset: 57152},
+																pos: position{line: 1776, col: 13, offset: 57281},
 																expr: &actionExpr{
-																	pos: position{line: 2890, col: 11, offset: 91462},
+																	pos: position{line: 2922, col: 11, offset: 92430},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2890, col: 11, offset: 91462},
+																		pos: position{line: 2922, col: 11, offset: 92430},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2890, col: 11, offset: 91462},
+																			pos:        position{line: 2922, col: 11, offset: 92430},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41279,17 +41844,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 12, offset: 57232},
+												pos: position{line: 1778, col: 12, offset: 57361},
 												expr: &seqExpr{
-													pos: position{line: 1773, col: 14, offset: 57234},
+													pos: position{line: 1778, col: 14, offset: 57363},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1773, col: 14, offset: 57234},
+															pos: position{line: 1778, col: 14, offset: 57363},
 															expr: &actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41298,28 +41863,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2908, col: 8, offset: 91799},
+															pos: position{line: 2940, col: 8, offset: 92767},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91572},
+																	pos: position{line: 2927, col: 12, offset: 92540},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91573},
+																		pos: position{line: 2927, col: 13, offset: 92541},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91573},
+																				pos:        position{line: 2927, col: 13, offset: 92541},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91580},
+																				pos:        position{line: 2927, col: 20, offset: 92548},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91589},
+																				pos:        position{line: 2927, col: 29, offset: 92557},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41328,9 +41893,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -41344,24 +41909,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1804, col: 5, offset: 58343},
+							pos:   position{line: 1809, col: 5, offset: 58472},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1818, col: 5, offset: 58756},
+								pos: position{line: 1823, col: 5, offset: 58885},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1818, col: 5, offset: 58756},
+									pos: position{line: 1823, col: 5, offset: 58885},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1818, col: 5, offset: 58756},
+											pos:   position{line: 1823, col: 5, offset: 58885},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 14, offset: 89994},
+												pos: position{line: 2841, col: 14, offset: 90123},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2836, col: 14, offset: 89994},
+													pos: position{line: 2841, col: 14, offset: 90123},
 													expr: &charClassMatcher{
-														pos:        position{line: 2836, col: 14, offset: 89994},
+														pos:        position{line: 2841, col: 14, offset: 90123},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41371,32 +41936,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1819, col: 5, offset: 58780},
+											pos: position{line: 1824, col: 5, offset: 58909},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2908, col: 8, offset: 91799},
+											pos: position{line: 2940, col: 8, offset: 92767},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2895, col: 12, offset: 91572},
+													pos: position{line: 2927, col: 12, offset: 92540},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 13, offset: 91573},
+														pos: position{line: 2927, col: 13, offset: 92541},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2895, col: 13, offset: 91573},
+																pos:        position{line: 2927, col: 13, offset: 92541},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 20, offset: 91580},
+																pos:        position{line: 2927, col: 20, offset: 92548},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2895, col: 29, offset: 91589},
+																pos:        position{line: 2927, col: 29, offset: 92557},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41405,9 +41970,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2905, col: 8, offset: 91749},
+													pos: position{line: 2937, col: 8, offset: 92717},
 													expr: &anyMatcher{
-														line: 2905, col: 9, offset: 91750,
+														line: 2937, col: 9, offset: 92718,
 													},
 												},
 											},
@@ -41417,24 +41982,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1805, col: 5, offset: 58377},
+							pos:   position{line: 1810, col: 5, offset: 58506},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1805, col: 16, offset: 58388},
+								pos: position{line: 1810, col: 16, offset: 58517},
 								expr: &actionExpr{
-									pos: position{line: 1806, col: 9, offset: 58398},
+									pos: position{line: 1811, col: 9, offset: 58527},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1806, col: 9, offset: 58398},
+										pos: position{line: 1811, col: 9, offset: 58527},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91735},
+												pos: position{line: 2935, col: 11, offset: 92703},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91737,
+													line: 2935, col: 13, offset: 92705,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1807, col: 9, offset: 58413},
+												pos: position{line: 1812, col: 9, offset: 58542},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph61,
@@ -41442,18 +42007,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2903, col: 11, offset: 91735},
+																pos: position{line: 2935, col: 11, offset: 92703},
 																expr: &anyMatcher{
-																	line: 2903, col: 13, offset: 91737,
+																	line: 2935, col: 13, offset: 92705,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41462,28 +42027,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2908, col: 8, offset: 91799},
+																pos: position{line: 2940, col: 8, offset: 92767},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 91572},
+																		pos: position{line: 2927, col: 12, offset: 92540},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 13, offset: 91573},
+																			pos: position{line: 2927, col: 13, offset: 92541},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 13, offset: 91573},
+																					pos:        position{line: 2927, col: 13, offset: 92541},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 20, offset: 91580},
+																					pos:        position{line: 2927, col: 20, offset: 92548},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2895, col: 29, offset: 91589},
+																					pos:        position{line: 2927, col: 29, offset: 92557},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41492,9 +42057,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2905, col: 8, offset: 91749},
+																		pos: position{line: 2937, col: 8, offset: 92717},
 																		expr: &anyMatcher{
-																			line: 2905, col: 9, offset: 91750,
+																			line: 2937, col: 9, offset: 92718,
 																		},
 																	},
 																},
@@ -41504,16 +42069,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1808, col: 9, offset: 58432},
+												pos: position{line: 1813, col: 9, offset: 58561},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1808, col: 10, offset: 58433},
+													pos:  position{line: 1813, col: 10, offset: 58562},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1809, col: 9, offset: 58457},
+												pos: position{line: 1814, col: 9, offset: 58586},
 												expr: &choiceExpr{
-													pos: position{line: 1809, col: 11, offset: 58459},
+													pos: position{line: 1814, col: 11, offset: 58588},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -41524,7 +42089,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2776, col: 13, offset: 88482},
+																			pos:        position{line: 2781, col: 13, offset: 88611},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41574,10 +42139,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41586,28 +42151,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41616,9 +42181,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -41663,10 +42228,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41675,28 +42240,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41705,9 +42270,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -41748,10 +42313,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41760,28 +42325,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41790,9 +42355,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -41837,10 +42402,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41849,28 +42414,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41879,9 +42444,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -41926,10 +42491,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41938,28 +42503,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41968,9 +42533,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -42015,10 +42580,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42027,28 +42592,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42057,9 +42622,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -42104,10 +42669,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42116,28 +42681,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42146,9 +42711,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -42193,10 +42758,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42205,28 +42770,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42235,9 +42800,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -42282,10 +42847,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2886, col: 10, offset: 91401},
+																									pos: position{line: 2918, col: 10, offset: 92369},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2886, col: 10, offset: 91401},
+																										pos:        position{line: 2918, col: 10, offset: 92369},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42294,28 +42859,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2908, col: 8, offset: 91799},
+																								pos: position{line: 2940, col: 8, offset: 92767},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2895, col: 12, offset: 91572},
+																										pos: position{line: 2927, col: 12, offset: 92540},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 13, offset: 91573},
+																											pos: position{line: 2927, col: 13, offset: 92541},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 91573},
+																													pos:        position{line: 2927, col: 13, offset: 92541},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 20, offset: 91580},
+																													pos:        position{line: 2927, col: 20, offset: 92548},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2895, col: 29, offset: 91589},
+																													pos:        position{line: 2927, col: 29, offset: 92557},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42324,9 +42889,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2905, col: 8, offset: 91749},
+																										pos: position{line: 2937, col: 8, offset: 92717},
 																										expr: &anyMatcher{
-																											line: 2905, col: 9, offset: 91750,
+																											line: 2937, col: 9, offset: 92718,
 																										},
 																									},
 																								},
@@ -42363,10 +42928,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42375,28 +42940,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42405,9 +42970,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -42416,21 +42981,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2628, col: 19, offset: 84070},
+															pos: position{line: 2633, col: 19, offset: 84199},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2628, col: 19, offset: 84070},
+																	pos:        position{line: 2633, col: 19, offset: 84199},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2628, col: 26, offset: 84077},
+																	pos: position{line: 2633, col: 26, offset: 84206},
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42439,28 +43004,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -42469,9 +43034,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -42482,42 +43047,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1810, col: 9, offset: 58521},
+												pos:   position{line: 1815, col: 9, offset: 58650},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1810, col: 15, offset: 58527},
+													pos: position{line: 1815, col: 15, offset: 58656},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2496, col: 22, offset: 80372},
+															pos: position{line: 2501, col: 22, offset: 80501},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 22, offset: 80372},
+																pos: position{line: 2501, col: 22, offset: 80501},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 31, offset: 80593},
+																		pos:        position{line: 2506, col: 31, offset: 80722},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2501, col: 36, offset: 80598},
+																		pos: position{line: 2506, col: 36, offset: 80727},
 																		expr: &litMatcher{
-																			pos:        position{line: 2501, col: 37, offset: 80599},
+																			pos:        position{line: 2506, col: 37, offset: 80728},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2496, col: 49, offset: 80399},
+																		pos:   position{line: 2501, col: 49, offset: 80528},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2832, col: 13, offset: 89927},
+																			pos: position{line: 2837, col: 13, offset: 90056},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2832, col: 13, offset: 89927},
+																				pos: position{line: 2837, col: 13, offset: 90056},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2832, col: 13, offset: 89927},
+																					pos:        position{line: 2837, col: 13, offset: 90056},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42527,28 +43092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42557,9 +43122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -42568,21 +43133,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1818, col: 5, offset: 58756},
+															pos: position{line: 1823, col: 5, offset: 58885},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1818, col: 5, offset: 58756},
+																pos: position{line: 1823, col: 5, offset: 58885},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1818, col: 5, offset: 58756},
+																		pos:   position{line: 1823, col: 5, offset: 58885},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2836, col: 14, offset: 89994},
+																			pos: position{line: 2841, col: 14, offset: 90123},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2836, col: 14, offset: 89994},
+																				pos: position{line: 2841, col: 14, offset: 90123},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 14, offset: 89994},
+																					pos:        position{line: 2841, col: 14, offset: 90123},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42592,32 +43157,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1819, col: 5, offset: 58780},
+																		pos: position{line: 1824, col: 5, offset: 58909},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2908, col: 8, offset: 91799},
+																		pos: position{line: 2940, col: 8, offset: 92767},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42626,9 +43191,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2905, col: 8, offset: 91749},
+																				pos: position{line: 2937, col: 8, offset: 92717},
 																				expr: &anyMatcher{
-																					line: 2905, col: 9, offset: 91750,
+																					line: 2937, col: 9, offset: 92718,
 																				},
 																			},
 																		},
@@ -42650,16 +43215,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59263},
+			pos:  position{line: 1834, col: 1, offset: 59392},
 			expr: &choiceExpr{
-				pos: position{line: 1829, col: 15, offset: 59277},
+				pos: position{line: 1834, col: 15, offset: 59406},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 15, offset: 59277},
+						pos:  position{line: 1834, col: 15, offset: 59406},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 35, offset: 59297},
+						pos:  position{line: 1834, col: 35, offset: 59426},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -42667,65 +43232,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59318},
+			pos:  position{line: 1836, col: 1, offset: 59447},
 			expr: &actionExpr{
-				pos: position{line: 1832, col: 5, offset: 59343},
+				pos: position{line: 1837, col: 5, offset: 59472},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1832, col: 5, offset: 59343},
+					pos: position{line: 1837, col: 5, offset: 59472},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1832, col: 5, offset: 59343},
+							pos:   position{line: 1837, col: 5, offset: 59472},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1832, col: 16, offset: 59354},
+								pos: position{line: 1837, col: 16, offset: 59483},
 								expr: &actionExpr{
-									pos: position{line: 1832, col: 17, offset: 59355},
+									pos: position{line: 1837, col: 17, offset: 59484},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1832, col: 17, offset: 59355},
+										pos:  position{line: 1837, col: 17, offset: 59484},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1835, col: 5, offset: 59423},
+							pos: position{line: 1840, col: 5, offset: 59552},
 							expr: &litMatcher{
-								pos:        position{line: 1835, col: 7, offset: 59425},
+								pos:        position{line: 1840, col: 7, offset: 59554},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1836, col: 5, offset: 59434},
+							pos:   position{line: 1841, col: 5, offset: 59563},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1837, col: 9, offset: 59452},
+								pos: position{line: 1842, col: 9, offset: 59581},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1837, col: 9, offset: 59452},
+										pos:  position{line: 1842, col: 9, offset: 59581},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 11, offset: 59479},
+										pos:  position{line: 1843, col: 11, offset: 59608},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1839, col: 11, offset: 59507},
+										pos:  position{line: 1844, col: 11, offset: 59636},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1840, col: 11, offset: 59538},
+										pos:  position{line: 1845, col: 11, offset: 59667},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1841, col: 11, offset: 59566},
+										pos:  position{line: 1846, col: 11, offset: 59695},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 11, offset: 59597},
+										pos:  position{line: 1847, col: 11, offset: 59726},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -42737,36 +43302,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1847, col: 1, offset: 59717},
+			pos:  position{line: 1852, col: 1, offset: 59846},
 			expr: &actionExpr{
-				pos: position{line: 1848, col: 5, offset: 59759},
+				pos: position{line: 1853, col: 5, offset: 59888},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1848, col: 5, offset: 59759},
+					pos: position{line: 1853, col: 5, offset: 59888},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1848, col: 5, offset: 59759},
+							pos:   position{line: 1853, col: 5, offset: 59888},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1848, col: 16, offset: 59770},
+								pos: position{line: 1853, col: 16, offset: 59899},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1848, col: 17, offset: 59771},
+									pos:  position{line: 1853, col: 17, offset: 59900},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1849, col: 5, offset: 59796},
+							pos:   position{line: 1854, col: 5, offset: 59925},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1849, col: 14, offset: 59805},
+								pos: position{line: 1854, col: 14, offset: 59934},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 14, offset: 59805},
+										pos:  position{line: 1854, col: 14, offset: 59934},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 33, offset: 59824},
+										pos:  position{line: 1854, col: 33, offset: 59953},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -42778,32 +43343,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1857, col: 1, offset: 60055},
+			pos:  position{line: 1862, col: 1, offset: 60184},
 			expr: &choiceExpr{
-				pos: position{line: 1858, col: 5, offset: 60080},
+				pos: position{line: 1863, col: 5, offset: 60209},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 5, offset: 60080},
+						pos:  position{line: 1863, col: 5, offset: 60209},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60107},
+						pos:  position{line: 1864, col: 7, offset: 60236},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60135},
+						pos:  position{line: 1865, col: 7, offset: 60264},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60167},
+						pos:  position{line: 1866, col: 7, offset: 60296},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 60195},
+						pos:  position{line: 1867, col: 7, offset: 60324},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60216},
+						pos:  position{line: 1868, col: 7, offset: 60345},
 						name: "SuperscriptText",
 					},
 				},
@@ -42811,24 +43376,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1865, col: 1, offset: 60234},
+			pos:  position{line: 1870, col: 1, offset: 60363},
 			expr: &choiceExpr{
-				pos: position{line: 1866, col: 5, offset: 60259},
+				pos: position{line: 1871, col: 5, offset: 60388},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 5, offset: 60259},
+						pos:  position{line: 1871, col: 5, offset: 60388},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60285},
+						pos:  position{line: 1872, col: 7, offset: 60414},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60313},
+						pos:  position{line: 1873, col: 7, offset: 60442},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60344},
+						pos:  position{line: 1874, col: 7, offset: 60473},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -42836,26 +43401,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1883, col: 1, offset: 60698},
+			pos:  position{line: 1888, col: 1, offset: 60827},
 			expr: &choiceExpr{
-				pos: position{line: 1884, col: 5, offset: 60724},
+				pos: position{line: 1889, col: 5, offset: 60853},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2785, col: 5, offset: 88629},
+						pos: position{line: 2790, col: 5, offset: 88758},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2785, col: 5, offset: 88629},
+							pos: position{line: 2790, col: 5, offset: 88758},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2785, col: 5, offset: 88629},
+									pos:   position{line: 2790, col: 5, offset: 88758},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2785, col: 11, offset: 88635},
+										pos: position{line: 2790, col: 11, offset: 88764},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2785, col: 11, offset: 88635},
+											pos: position{line: 2790, col: 11, offset: 88764},
 											expr: &charClassMatcher{
-												pos:        position{line: 2785, col: 11, offset: 88635},
+												pos:        position{line: 2790, col: 11, offset: 88764},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42865,32 +43430,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2788, col: 5, offset: 88693},
+									pos: position{line: 2793, col: 5, offset: 88822},
 									expr: &seqExpr{
-										pos: position{line: 2789, col: 9, offset: 88704},
+										pos: position{line: 2794, col: 9, offset: 88833},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2789, col: 9, offset: 88704},
+												pos:        position{line: 2794, col: 9, offset: 88833},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2790, col: 9, offset: 88753},
+												pos: position{line: 2795, col: 9, offset: 88882},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2794, col: 5, offset: 88833},
+									pos: position{line: 2799, col: 5, offset: 88962},
 									expr: &seqExpr{
-										pos: position{line: 2795, col: 9, offset: 88844},
+										pos: position{line: 2800, col: 9, offset: 88973},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2795, col: 9, offset: 88844},
+												pos: position{line: 2800, col: 9, offset: 88973},
 												expr: &charClassMatcher{
-													pos:        position{line: 2795, col: 9, offset: 88844},
+													pos:        position{line: 2800, col: 9, offset: 88973},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42899,13 +43464,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2795, col: 23, offset: 88858},
+												pos:        position{line: 2800, col: 23, offset: 88987},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2795, col: 27, offset: 88862},
+												pos:        position{line: 2800, col: 27, offset: 88991},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42918,12 +43483,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2890, col: 11, offset: 91462},
+						pos: position{line: 2922, col: 11, offset: 92430},
 						run: (*parser).callonQuotedTextElement18,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2890, col: 11, offset: 91462},
+							pos: position{line: 2922, col: 11, offset: 92430},
 							expr: &charClassMatcher{
-								pos:        position{line: 2890, col: 11, offset: 91462},
+								pos:        position{line: 2922, col: 11, offset: 92430},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -42932,25 +43497,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1886, col: 7, offset: 60787},
+						pos:  position{line: 1891, col: 7, offset: 60916},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2514, col: 5, offset: 81089},
+						pos: position{line: 2519, col: 5, offset: 81218},
 						run: (*parser).callonQuotedTextElement22,
 						expr: &seqExpr{
-							pos: position{line: 2514, col: 5, offset: 81089},
+							pos: position{line: 2519, col: 5, offset: 81218},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81089},
+									pos:        position{line: 2519, col: 5, offset: 81218},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 10, offset: 81094},
+									pos: position{line: 2519, col: 10, offset: 81223},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 11, offset: 81095},
+										pos:        position{line: 2519, col: 11, offset: 81224},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42961,29 +43526,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81287},
+						pos: position{line: 2525, col: 5, offset: 81416},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81287},
+							pos: position{line: 2525, col: 5, offset: 81416},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2520, col: 5, offset: 81287},
+									pos: position{line: 2525, col: 5, offset: 81416},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&andCodeExpr{
-									pos: position{line: 2523, col: 5, offset: 81358},
+									pos: position{line: 2528, col: 5, offset: 81487},
 									run: (*parser).callonQuotedTextElement30,
 								},
 								&litMatcher{
-									pos:        position{line: 2527, col: 5, offset: 81483},
+									pos:        position{line: 2532, col: 5, offset: 81612},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2527, col: 9, offset: 81487},
+									pos: position{line: 2532, col: 9, offset: 81616},
 									expr: &charClassMatcher{
-										pos:        position{line: 2527, col: 10, offset: 81488},
+										pos:        position{line: 2532, col: 10, offset: 81617},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -42994,27 +43559,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2803, col: 5, offset: 89055},
+						pos: position{line: 2808, col: 5, offset: 89184},
 						run: (*parser).callonQuotedTextElement34,
 						expr: &choiceExpr{
-							pos: position{line: 2804, col: 9, offset: 89065},
+							pos: position{line: 2809, col: 9, offset: 89194},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2804, col: 10, offset: 89066},
+									pos:        position{line: 2809, col: 10, offset: 89195},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2806, col: 13, offset: 89163},
+									pos: position{line: 2811, col: 13, offset: 89292},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2806, col: 13, offset: 89163},
+											pos: position{line: 2811, col: 13, offset: 89292},
 											run: (*parser).callonQuotedTextElement38,
 										},
 										&litMatcher{
-											pos:        position{line: 2809, col: 13, offset: 89263},
+											pos:        position{line: 2814, col: 13, offset: 89392},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43022,20 +43587,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2809, col: 19, offset: 89269},
+									pos:        position{line: 2814, col: 19, offset: 89398},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2812, col: 13, offset: 89307},
+									pos: position{line: 2817, col: 13, offset: 89436},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2812, col: 13, offset: 89307},
+											pos: position{line: 2817, col: 13, offset: 89436},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2815, col: 14, offset: 89400},
+											pos:        position{line: 2820, col: 14, offset: 89529},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43044,18 +43609,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2817, col: 12, offset: 89444},
+									pos: position{line: 2822, col: 12, offset: 89573},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2817, col: 12, offset: 89444},
+											pos:        position{line: 2822, col: 12, offset: 89573},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2817, col: 16, offset: 89448},
+											pos: position{line: 2822, col: 16, offset: 89577},
 											expr: &litMatcher{
-												pos:        position{line: 2817, col: 17, offset: 89449},
+												pos:        position{line: 2822, col: 17, offset: 89578},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -43413,31 +43978,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2899, col: 18, offset: 91672},
+						pos: position{line: 2931, col: 18, offset: 92640},
 						run: (*parser).callonQuotedTextElement117,
 						expr: &seqExpr{
-							pos: position{line: 2899, col: 18, offset: 91672},
+							pos: position{line: 2931, col: 18, offset: 92640},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonQuotedTextElement119,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43446,27 +44011,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 26, offset: 91680},
+									pos: position{line: 2931, col: 26, offset: 92648},
 									expr: &actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91572},
+										pos: position{line: 2927, col: 12, offset: 92540},
 										run: (*parser).callonQuotedTextElement125,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91573},
+											pos: position{line: 2927, col: 13, offset: 92541},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91573},
+													pos:        position{line: 2927, col: 13, offset: 92541},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91580},
+													pos:        position{line: 2927, col: 20, offset: 92548},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91589},
+													pos:        position{line: 2927, col: 29, offset: 92557},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43479,31 +44044,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1891, col: 7, offset: 60954},
+						pos:  position{line: 1896, col: 7, offset: 61083},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 61001},
+						pos:  position{line: 1897, col: 7, offset: 61130},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2483, col: 5, offset: 79918},
+						pos: position{line: 2488, col: 5, offset: 80047},
 						run: (*parser).callonQuotedTextElement132,
 						expr: &seqExpr{
-							pos: position{line: 2483, col: 5, offset: 79918},
+							pos: position{line: 2488, col: 5, offset: 80047},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2483, col: 5, offset: 79918},
+									pos: position{line: 2488, col: 5, offset: 80047},
 									run: (*parser).callonQuotedTextElement134,
 								},
 								&labeledExpr{
-									pos:   position{line: 2486, col: 5, offset: 79994},
+									pos:   position{line: 2491, col: 5, offset: 80123},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2487, col: 9, offset: 80012},
+										pos: position{line: 2492, col: 9, offset: 80141},
 										run: (*parser).callonQuotedTextElement136,
 										expr: &charClassMatcher{
-											pos:        position{line: 2487, col: 10, offset: 80013},
+											pos:        position{line: 2492, col: 10, offset: 80142},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -43554,10 +44119,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2825, col: 12, offset: 89709},
+						pos: position{line: 2830, col: 12, offset: 89838},
 						run: (*parser).callonQuotedTextElement146,
 						expr: &charClassMatcher{
-							pos:        position{line: 2825, col: 12, offset: 89709},
+							pos:        position{line: 2830, col: 12, offset: 89838},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -43569,29 +44134,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1910, col: 1, offset: 61471},
+			pos:  position{line: 1915, col: 1, offset: 61600},
 			expr: &actionExpr{
-				pos: position{line: 1911, col: 5, offset: 61499},
+				pos: position{line: 1916, col: 5, offset: 61628},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1911, col: 5, offset: 61499},
+					pos: position{line: 1916, col: 5, offset: 61628},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1906, col: 38, offset: 61424},
+							pos:        position{line: 1911, col: 38, offset: 61553},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1912, col: 5, offset: 61538},
+							pos:   position{line: 1917, col: 5, offset: 61667},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1912, col: 15, offset: 61548},
+								pos:  position{line: 1917, col: 15, offset: 61677},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1908, col: 36, offset: 61465},
+							pos:        position{line: 1913, col: 36, offset: 61594},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -43602,44 +44167,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1917, col: 1, offset: 61708},
+			pos:  position{line: 1922, col: 1, offset: 61837},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1917, col: 32, offset: 61739},
+				pos: position{line: 1922, col: 32, offset: 61868},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1917, col: 32, offset: 61739},
+					pos:  position{line: 1922, col: 32, offset: 61868},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1919, col: 1, offset: 61770},
+			pos:  position{line: 1924, col: 1, offset: 61899},
 			expr: &actionExpr{
-				pos: position{line: 1920, col: 5, offset: 61805},
+				pos: position{line: 1925, col: 5, offset: 61934},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1920, col: 5, offset: 61805},
+					pos: position{line: 1925, col: 5, offset: 61934},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61816},
+							pos: position{line: 1926, col: 5, offset: 61945},
 							expr: &litMatcher{
-								pos:        position{line: 1908, col: 36, offset: 61465},
+								pos:        position{line: 1913, col: 36, offset: 61594},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61853},
+							pos:   position{line: 1927, col: 5, offset: 61982},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1922, col: 14, offset: 61862},
+								pos:  position{line: 1927, col: 14, offset: 61991},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43649,29 +44214,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1947, col: 1, offset: 62542},
+			pos:  position{line: 1952, col: 1, offset: 62671},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62570},
+				pos: position{line: 1953, col: 5, offset: 62699},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62570},
+					pos: position{line: 1953, col: 5, offset: 62699},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1931, col: 5, offset: 62096},
+							pos:        position{line: 1936, col: 5, offset: 62225},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1932, col: 5, offset: 62105},
+							pos: position{line: 1937, col: 5, offset: 62234},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1936, col: 5, offset: 62223},
+							pos: position{line: 1941, col: 5, offset: 62352},
 							expr: &notExpr{
-								pos: position{line: 1936, col: 7, offset: 62225},
+								pos: position{line: 1941, col: 7, offset: 62354},
 								expr: &litMatcher{
-									pos:        position{line: 1936, col: 8, offset: 62226},
+									pos:        position{line: 1941, col: 8, offset: 62355},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43679,38 +44244,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62608},
+							pos:   position{line: 1954, col: 5, offset: 62737},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1949, col: 15, offset: 62618},
+								pos:  position{line: 1954, col: 15, offset: 62747},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1939, col: 5, offset: 62346},
+							pos:        position{line: 1944, col: 5, offset: 62475},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1940, col: 5, offset: 62355},
+							pos: position{line: 1945, col: 5, offset: 62484},
 							expr: &litMatcher{
-								pos:        position{line: 1940, col: 6, offset: 62356},
+								pos:        position{line: 1945, col: 6, offset: 62485},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62419},
+							pos: position{line: 1946, col: 5, offset: 62548},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1945, col: 5, offset: 62528},
+							pos: position{line: 1950, col: 5, offset: 62657},
 							expr: &notExpr{
-								pos: position{line: 1945, col: 7, offset: 62530},
+								pos: position{line: 1950, col: 7, offset: 62659},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88482},
+									pos:        position{line: 2781, col: 13, offset: 88611},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43724,20 +44289,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1954, col: 1, offset: 62778},
+			pos:  position{line: 1959, col: 1, offset: 62907},
 			expr: &actionExpr{
-				pos: position{line: 1955, col: 5, offset: 62815},
+				pos: position{line: 1960, col: 5, offset: 62944},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1955, col: 5, offset: 62815},
+					pos: position{line: 1960, col: 5, offset: 62944},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1955, col: 5, offset: 62815},
+							pos: position{line: 1960, col: 5, offset: 62944},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43746,18 +44311,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1956, col: 5, offset: 62854},
+							pos:   position{line: 1961, col: 5, offset: 62983},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1956, col: 14, offset: 62863},
+								pos: position{line: 1961, col: 14, offset: 62992},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1956, col: 15, offset: 62864},
+									pos:  position{line: 1961, col: 15, offset: 62993},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1957, col: 5, offset: 62898},
+							pos: position{line: 1962, col: 5, offset: 63027},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -43766,49 +44331,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1963, col: 1, offset: 63039},
+			pos:  position{line: 1968, col: 1, offset: 63168},
 			expr: &actionExpr{
-				pos: position{line: 1964, col: 5, offset: 63074},
+				pos: position{line: 1969, col: 5, offset: 63203},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1964, col: 5, offset: 63074},
+					pos: position{line: 1969, col: 5, offset: 63203},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1965, col: 5, offset: 63102},
+							pos: position{line: 1970, col: 5, offset: 63231},
 							expr: &seqExpr{
-								pos: position{line: 1939, col: 5, offset: 62346},
+								pos: position{line: 1944, col: 5, offset: 62475},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1939, col: 5, offset: 62346},
+										pos:        position{line: 1944, col: 5, offset: 62475},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1940, col: 5, offset: 62355},
+										pos: position{line: 1945, col: 5, offset: 62484},
 										expr: &litMatcher{
-											pos:        position{line: 1940, col: 6, offset: 62356},
+											pos:        position{line: 1945, col: 6, offset: 62485},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1941, col: 5, offset: 62419},
+										pos: position{line: 1946, col: 5, offset: 62548},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1945, col: 5, offset: 62528},
+										pos: position{line: 1950, col: 5, offset: 62657},
 										expr: &notExpr{
-											pos: position{line: 1945, col: 7, offset: 62530},
+											pos: position{line: 1950, col: 7, offset: 62659},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88482},
+												pos:        position{line: 2781, col: 13, offset: 88611},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43820,10 +44385,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1966, col: 5, offset: 63139},
+							pos:   position{line: 1971, col: 5, offset: 63268},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1966, col: 14, offset: 63148},
+								pos:  position{line: 1971, col: 14, offset: 63277},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43833,35 +44398,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1971, col: 1, offset: 63236},
+			pos:  position{line: 1976, col: 1, offset: 63365},
 			expr: &choiceExpr{
-				pos: position{line: 1973, col: 5, offset: 63297},
+				pos: position{line: 1978, col: 5, offset: 63426},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1973, col: 5, offset: 63297},
+						pos: position{line: 1978, col: 5, offset: 63426},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1973, col: 5, offset: 63297},
+							pos: position{line: 1978, col: 5, offset: 63426},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1973, col: 5, offset: 63297},
+									pos:   position{line: 1978, col: 5, offset: 63426},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60644},
+										pos: position{line: 1884, col: 25, offset: 60773},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60644},
+											pos: position{line: 1884, col: 25, offset: 60773},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60644},
+													pos:        position{line: 1884, col: 25, offset: 60773},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60649},
+													pos: position{line: 1884, col: 30, offset: 60778},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60649},
+														pos:        position{line: 1884, col: 30, offset: 60778},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43872,21 +44437,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1973, col: 40, offset: 63332},
+									pos:        position{line: 1978, col: 40, offset: 63461},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1973, col: 45, offset: 63337},
+									pos:   position{line: 1978, col: 45, offset: 63466},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1973, col: 55, offset: 63347},
+										pos:  position{line: 1978, col: 55, offset: 63476},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1973, col: 84, offset: 63376},
+									pos:        position{line: 1978, col: 84, offset: 63505},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -43895,21 +44460,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1977, col: 7, offset: 63540},
+						pos: position{line: 1982, col: 7, offset: 63669},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1977, col: 7, offset: 63540},
+							pos: position{line: 1982, col: 7, offset: 63669},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1977, col: 7, offset: 63540},
+									pos:   position{line: 1982, col: 7, offset: 63669},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43918,21 +44483,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1977, col: 42, offset: 63575},
+									pos:        position{line: 1982, col: 42, offset: 63704},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1977, col: 47, offset: 63580},
+									pos:   position{line: 1982, col: 47, offset: 63709},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1977, col: 57, offset: 63590},
+										pos:  position{line: 1982, col: 57, offset: 63719},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1977, col: 86, offset: 63619},
+									pos:        position{line: 1982, col: 86, offset: 63748},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43941,21 +44506,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63821},
+						pos: position{line: 1987, col: 7, offset: 63950},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63821},
+							pos: position{line: 1987, col: 7, offset: 63950},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63821},
+									pos:   position{line: 1987, col: 7, offset: 63950},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43964,21 +44529,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63856},
+									pos:        position{line: 1987, col: 42, offset: 63985},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 46, offset: 63860},
+									pos:   position{line: 1987, col: 46, offset: 63989},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 56, offset: 63870},
+										pos:  position{line: 1987, col: 56, offset: 63999},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 85, offset: 63899},
+									pos:        position{line: 1987, col: 85, offset: 64028},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -43991,29 +44556,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1999, col: 1, offset: 64379},
+			pos:  position{line: 2004, col: 1, offset: 64508},
 			expr: &actionExpr{
-				pos: position{line: 2000, col: 5, offset: 64409},
+				pos: position{line: 2005, col: 5, offset: 64538},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2000, col: 5, offset: 64409},
+					pos: position{line: 2005, col: 5, offset: 64538},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1995, col: 40, offset: 64330},
+							pos:        position{line: 2000, col: 40, offset: 64459},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2001, col: 5, offset: 64450},
+							pos:   position{line: 2006, col: 5, offset: 64579},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2001, col: 15, offset: 64460},
+								pos:  position{line: 2006, col: 15, offset: 64589},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1997, col: 38, offset: 64373},
+							pos:        position{line: 2002, col: 38, offset: 64502},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44024,44 +44589,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2006, col: 1, offset: 64625},
+			pos:  position{line: 2011, col: 1, offset: 64754},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2006, col: 34, offset: 64658},
+				pos: position{line: 2011, col: 34, offset: 64787},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2006, col: 34, offset: 64658},
+					pos:  position{line: 2011, col: 34, offset: 64787},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2008, col: 1, offset: 64690},
+			pos:  position{line: 2013, col: 1, offset: 64819},
 			expr: &actionExpr{
-				pos: position{line: 2009, col: 5, offset: 64727},
+				pos: position{line: 2014, col: 5, offset: 64856},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2009, col: 5, offset: 64727},
+					pos: position{line: 2014, col: 5, offset: 64856},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64738},
+							pos: position{line: 2015, col: 5, offset: 64867},
 							expr: &litMatcher{
-								pos:        position{line: 1997, col: 38, offset: 64373},
+								pos:        position{line: 2002, col: 38, offset: 64502},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2011, col: 5, offset: 64777},
+							pos:   position{line: 2016, col: 5, offset: 64906},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2011, col: 14, offset: 64786},
+								pos:  position{line: 2016, col: 14, offset: 64915},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44071,29 +44636,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2037, col: 1, offset: 65470},
+			pos:  position{line: 2042, col: 1, offset: 65599},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65500},
+				pos: position{line: 2043, col: 5, offset: 65629},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65500},
+					pos: position{line: 2043, col: 5, offset: 65629},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2020, col: 5, offset: 65028},
+							pos:        position{line: 2025, col: 5, offset: 65157},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65037},
+							pos: position{line: 2026, col: 5, offset: 65166},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2025, col: 5, offset: 65157},
+							pos: position{line: 2030, col: 5, offset: 65286},
 							expr: &notExpr{
-								pos: position{line: 2025, col: 7, offset: 65159},
+								pos: position{line: 2030, col: 7, offset: 65288},
 								expr: &litMatcher{
-									pos:        position{line: 2025, col: 8, offset: 65160},
+									pos:        position{line: 2030, col: 8, offset: 65289},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44101,38 +44666,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65540},
+							pos:   position{line: 2044, col: 5, offset: 65669},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2039, col: 15, offset: 65550},
+								pos:  position{line: 2044, col: 15, offset: 65679},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2029, col: 5, offset: 65270},
+							pos:        position{line: 2034, col: 5, offset: 65399},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2030, col: 5, offset: 65279},
+							pos: position{line: 2035, col: 5, offset: 65408},
 							expr: &litMatcher{
-								pos:        position{line: 2030, col: 6, offset: 65280},
+								pos:        position{line: 2035, col: 6, offset: 65409},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2031, col: 5, offset: 65345},
+							pos: position{line: 2036, col: 5, offset: 65474},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2035, col: 5, offset: 65456},
+							pos: position{line: 2040, col: 5, offset: 65585},
 							expr: &notExpr{
-								pos: position{line: 2035, col: 7, offset: 65458},
+								pos: position{line: 2040, col: 7, offset: 65587},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88482},
+									pos:        position{line: 2781, col: 13, offset: 88611},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44146,20 +44711,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2044, col: 1, offset: 65717},
+			pos:  position{line: 2049, col: 1, offset: 65846},
 			expr: &actionExpr{
-				pos: position{line: 2045, col: 5, offset: 65755},
+				pos: position{line: 2050, col: 5, offset: 65884},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2045, col: 5, offset: 65755},
+					pos: position{line: 2050, col: 5, offset: 65884},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2045, col: 5, offset: 65755},
+							pos: position{line: 2050, col: 5, offset: 65884},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44168,18 +44733,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2046, col: 5, offset: 65794},
+							pos:   position{line: 2051, col: 5, offset: 65923},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2046, col: 14, offset: 65803},
+								pos: position{line: 2051, col: 14, offset: 65932},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2046, col: 15, offset: 65804},
+									pos:  position{line: 2051, col: 15, offset: 65933},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65839},
+							pos: position{line: 2052, col: 5, offset: 65968},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -44188,49 +44753,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2053, col: 1, offset: 65980},
+			pos:  position{line: 2058, col: 1, offset: 66109},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66017},
+				pos: position{line: 2059, col: 5, offset: 66146},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66017},
+					pos: position{line: 2059, col: 5, offset: 66146},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2055, col: 5, offset: 66028},
+							pos: position{line: 2060, col: 5, offset: 66157},
 							expr: &seqExpr{
-								pos: position{line: 2029, col: 5, offset: 65270},
+								pos: position{line: 2034, col: 5, offset: 65399},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2029, col: 5, offset: 65270},
+										pos:        position{line: 2034, col: 5, offset: 65399},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2030, col: 5, offset: 65279},
+										pos: position{line: 2035, col: 5, offset: 65408},
 										expr: &litMatcher{
-											pos:        position{line: 2030, col: 6, offset: 65280},
+											pos:        position{line: 2035, col: 6, offset: 65409},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2031, col: 5, offset: 65345},
+										pos: position{line: 2036, col: 5, offset: 65474},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2035, col: 5, offset: 65456},
+										pos: position{line: 2040, col: 5, offset: 65585},
 										expr: &notExpr{
-											pos: position{line: 2035, col: 7, offset: 65458},
+											pos: position{line: 2040, col: 7, offset: 65587},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88482},
+												pos:        position{line: 2781, col: 13, offset: 88611},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44242,10 +44807,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2056, col: 5, offset: 66067},
+							pos:   position{line: 2061, col: 5, offset: 66196},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2056, col: 14, offset: 66076},
+								pos:  position{line: 2061, col: 14, offset: 66205},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44255,35 +44820,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2061, col: 1, offset: 66164},
+			pos:  position{line: 2066, col: 1, offset: 66293},
 			expr: &choiceExpr{
-				pos: position{line: 2063, col: 5, offset: 66229},
+				pos: position{line: 2068, col: 5, offset: 66358},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2063, col: 5, offset: 66229},
+						pos: position{line: 2068, col: 5, offset: 66358},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2063, col: 5, offset: 66229},
+							pos: position{line: 2068, col: 5, offset: 66358},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2063, col: 5, offset: 66229},
+									pos:   position{line: 2068, col: 5, offset: 66358},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60644},
+										pos: position{line: 1884, col: 25, offset: 60773},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60644},
+											pos: position{line: 1884, col: 25, offset: 60773},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60644},
+													pos:        position{line: 1884, col: 25, offset: 60773},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60649},
+													pos: position{line: 1884, col: 30, offset: 60778},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60649},
+														pos:        position{line: 1884, col: 30, offset: 60778},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44294,21 +44859,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 40, offset: 66264},
+									pos:        position{line: 2068, col: 40, offset: 66393},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2063, col: 45, offset: 66269},
+									pos:   position{line: 2068, col: 45, offset: 66398},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2063, col: 55, offset: 66279},
+										pos:  position{line: 2068, col: 55, offset: 66408},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2063, col: 86, offset: 66310},
+									pos:        position{line: 2068, col: 86, offset: 66439},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44317,21 +44882,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2067, col: 7, offset: 66475},
+						pos: position{line: 2072, col: 7, offset: 66604},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2067, col: 7, offset: 66475},
+							pos: position{line: 2072, col: 7, offset: 66604},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2067, col: 7, offset: 66475},
+									pos:   position{line: 2072, col: 7, offset: 66604},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44340,21 +44905,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 42, offset: 66510},
+									pos:        position{line: 2072, col: 42, offset: 66639},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2067, col: 47, offset: 66515},
+									pos:   position{line: 2072, col: 47, offset: 66644},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2067, col: 57, offset: 66525},
+										pos:  position{line: 2072, col: 57, offset: 66654},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2067, col: 88, offset: 66556},
+									pos:        position{line: 2072, col: 88, offset: 66685},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44363,21 +44928,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66797},
+						pos: position{line: 2077, col: 7, offset: 66926},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66797},
+							pos: position{line: 2077, col: 7, offset: 66926},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66797},
+									pos:   position{line: 2077, col: 7, offset: 66926},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44386,21 +44951,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66832},
+									pos:        position{line: 2077, col: 42, offset: 66961},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 46, offset: 66836},
+									pos:   position{line: 2077, col: 46, offset: 66965},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 56, offset: 66846},
+										pos:  position{line: 2077, col: 56, offset: 66975},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 87, offset: 66877},
+									pos:        position{line: 2077, col: 87, offset: 67006},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44413,29 +44978,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2089, col: 1, offset: 67441},
+			pos:  position{line: 2094, col: 1, offset: 67570},
 			expr: &actionExpr{
-				pos: position{line: 2090, col: 5, offset: 67474},
+				pos: position{line: 2095, col: 5, offset: 67603},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2090, col: 5, offset: 67474},
+					pos: position{line: 2095, col: 5, offset: 67603},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 43, offset: 67389},
+							pos:        position{line: 2090, col: 43, offset: 67518},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2091, col: 5, offset: 67518},
+							pos:   position{line: 2096, col: 5, offset: 67647},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2091, col: 15, offset: 67528},
+								pos:  position{line: 2096, col: 15, offset: 67657},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2087, col: 41, offset: 67435},
+							pos:        position{line: 2092, col: 41, offset: 67564},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -44446,44 +45011,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2096, col: 1, offset: 67703},
+			pos:  position{line: 2101, col: 1, offset: 67832},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2096, col: 37, offset: 67739},
+				pos: position{line: 2101, col: 37, offset: 67868},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2096, col: 37, offset: 67739},
+					pos:  position{line: 2101, col: 37, offset: 67868},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2098, col: 1, offset: 67806},
+			pos:  position{line: 2103, col: 1, offset: 67935},
 			expr: &actionExpr{
-				pos: position{line: 2099, col: 5, offset: 67846},
+				pos: position{line: 2104, col: 5, offset: 67975},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2099, col: 5, offset: 67846},
+					pos: position{line: 2104, col: 5, offset: 67975},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2100, col: 5, offset: 67857},
+							pos: position{line: 2105, col: 5, offset: 67986},
 							expr: &litMatcher{
-								pos:        position{line: 2087, col: 41, offset: 67435},
+								pos:        position{line: 2092, col: 41, offset: 67564},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2101, col: 5, offset: 67899},
+							pos:   position{line: 2106, col: 5, offset: 68028},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2101, col: 14, offset: 67908},
+								pos:  position{line: 2106, col: 14, offset: 68037},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44493,33 +45058,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2119, col: 1, offset: 68450},
+			pos:  position{line: 2124, col: 1, offset: 68579},
 			expr: &seqExpr{
-				pos: position{line: 2120, col: 5, offset: 68495},
+				pos: position{line: 2125, col: 5, offset: 68624},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2120, col: 5, offset: 68495},
+						pos: position{line: 2125, col: 5, offset: 68624},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2120, col: 6, offset: 68496},
+							pos:  position{line: 2125, col: 6, offset: 68625},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2121, col: 5, offset: 68515},
+						pos:        position{line: 2126, col: 5, offset: 68644},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2122, col: 5, offset: 68523},
+						pos: position{line: 2127, col: 5, offset: 68652},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2126, col: 5, offset: 68637},
+						pos: position{line: 2131, col: 5, offset: 68766},
 						expr: &notExpr{
-							pos: position{line: 2126, col: 7, offset: 68639},
+							pos: position{line: 2131, col: 7, offset: 68768},
 							expr: &charClassMatcher{
-								pos:        position{line: 2776, col: 13, offset: 88482},
+								pos:        position{line: 2781, col: 13, offset: 88611},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -44532,29 +45097,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2129, col: 1, offset: 68656},
+			pos:  position{line: 2134, col: 1, offset: 68785},
 			expr: &actionExpr{
-				pos: position{line: 2130, col: 5, offset: 68689},
+				pos: position{line: 2135, col: 5, offset: 68818},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2130, col: 5, offset: 68689},
+					pos: position{line: 2135, col: 5, offset: 68818},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2112, col: 5, offset: 68252},
+							pos:        position{line: 2117, col: 5, offset: 68381},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2113, col: 5, offset: 68261},
+							pos: position{line: 2118, col: 5, offset: 68390},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2117, col: 5, offset: 68384},
+							pos: position{line: 2122, col: 5, offset: 68513},
 							expr: &notExpr{
-								pos: position{line: 2117, col: 7, offset: 68386},
+								pos: position{line: 2122, col: 7, offset: 68515},
 								expr: &litMatcher{
-									pos:        position{line: 2117, col: 8, offset: 68387},
+									pos:        position{line: 2122, col: 8, offset: 68516},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44562,15 +45127,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2131, col: 5, offset: 68733},
+							pos:   position{line: 2136, col: 5, offset: 68862},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2131, col: 15, offset: 68743},
+								pos:  position{line: 2136, col: 15, offset: 68872},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2132, col: 5, offset: 68782},
+							pos:  position{line: 2137, col: 5, offset: 68911},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -44579,20 +45144,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2136, col: 1, offset: 68919},
+			pos:  position{line: 2141, col: 1, offset: 69048},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 68960},
+				pos: position{line: 2142, col: 5, offset: 69089},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 68960},
+					pos: position{line: 2142, col: 5, offset: 69089},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2137, col: 5, offset: 68960},
+							pos: position{line: 2142, col: 5, offset: 69089},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44601,18 +45166,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2138, col: 5, offset: 68999},
+							pos:   position{line: 2143, col: 5, offset: 69128},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2138, col: 14, offset: 69008},
+								pos: position{line: 2143, col: 14, offset: 69137},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2138, col: 15, offset: 69009},
+									pos:  position{line: 2143, col: 15, offset: 69138},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2139, col: 5, offset: 69047},
+							pos: position{line: 2144, col: 5, offset: 69176},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -44621,31 +45186,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2145, col: 1, offset: 69188},
+			pos:  position{line: 2150, col: 1, offset: 69317},
 			expr: &actionExpr{
-				pos: position{line: 2146, col: 5, offset: 69228},
+				pos: position{line: 2151, col: 5, offset: 69357},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2146, col: 5, offset: 69228},
+					pos: position{line: 2151, col: 5, offset: 69357},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2147, col: 5, offset: 69239},
+							pos: position{line: 2152, col: 5, offset: 69368},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2147, col: 6, offset: 69240},
+								pos:  position{line: 2152, col: 6, offset: 69369},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2148, col: 5, offset: 69281},
+							pos:   position{line: 2153, col: 5, offset: 69410},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2148, col: 14, offset: 69290},
+								pos:  position{line: 2153, col: 14, offset: 69419},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44655,35 +45220,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2153, col: 1, offset: 69378},
+			pos:  position{line: 2158, col: 1, offset: 69507},
 			expr: &choiceExpr{
-				pos: position{line: 2155, col: 5, offset: 69449},
+				pos: position{line: 2160, col: 5, offset: 69578},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2155, col: 5, offset: 69449},
+						pos: position{line: 2160, col: 5, offset: 69578},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2155, col: 5, offset: 69449},
+							pos: position{line: 2160, col: 5, offset: 69578},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2155, col: 5, offset: 69449},
+									pos:   position{line: 2160, col: 5, offset: 69578},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60644},
+										pos: position{line: 1884, col: 25, offset: 60773},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60644},
+											pos: position{line: 1884, col: 25, offset: 60773},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60644},
+													pos:        position{line: 1884, col: 25, offset: 60773},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60649},
+													pos: position{line: 1884, col: 30, offset: 60778},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60649},
+														pos:        position{line: 1884, col: 30, offset: 60778},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44694,21 +45259,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 40, offset: 69484},
+									pos:        position{line: 2160, col: 40, offset: 69613},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2155, col: 45, offset: 69489},
+									pos:   position{line: 2160, col: 45, offset: 69618},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2155, col: 55, offset: 69499},
+										pos:  position{line: 2160, col: 55, offset: 69628},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 89, offset: 69533},
+									pos:        position{line: 2160, col: 89, offset: 69662},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -44717,21 +45282,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2159, col: 7, offset: 69702},
+						pos: position{line: 2164, col: 7, offset: 69831},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2159, col: 7, offset: 69702},
+							pos: position{line: 2164, col: 7, offset: 69831},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2159, col: 7, offset: 69702},
+									pos:   position{line: 2164, col: 7, offset: 69831},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44740,21 +45305,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 42, offset: 69737},
+									pos:        position{line: 2164, col: 42, offset: 69866},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2159, col: 47, offset: 69742},
+									pos:   position{line: 2164, col: 47, offset: 69871},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2159, col: 57, offset: 69752},
+										pos:  position{line: 2164, col: 57, offset: 69881},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2159, col: 91, offset: 69786},
+									pos:        position{line: 2164, col: 91, offset: 69915},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44763,21 +45328,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2164, col: 7, offset: 69992},
+						pos: position{line: 2169, col: 7, offset: 70121},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2164, col: 7, offset: 69992},
+							pos: position{line: 2169, col: 7, offset: 70121},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2164, col: 7, offset: 69992},
+									pos:   position{line: 2169, col: 7, offset: 70121},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44786,21 +45351,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 42, offset: 70027},
+									pos:        position{line: 2169, col: 42, offset: 70156},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2164, col: 46, offset: 70031},
+									pos:   position{line: 2169, col: 46, offset: 70160},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2164, col: 56, offset: 70041},
+										pos:  position{line: 2169, col: 56, offset: 70170},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 90, offset: 70075},
+									pos:        position{line: 2169, col: 90, offset: 70204},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -44813,29 +45378,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2181, col: 1, offset: 70560},
+			pos:  position{line: 2186, col: 1, offset: 70689},
 			expr: &actionExpr{
-				pos: position{line: 2182, col: 5, offset: 70590},
+				pos: position{line: 2187, col: 5, offset: 70719},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2182, col: 5, offset: 70590},
+					pos: position{line: 2187, col: 5, offset: 70719},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2177, col: 40, offset: 70511},
+							pos:        position{line: 2182, col: 40, offset: 70640},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2183, col: 5, offset: 70631},
+							pos:   position{line: 2188, col: 5, offset: 70760},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2183, col: 15, offset: 70641},
+								pos:  position{line: 2188, col: 15, offset: 70770},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2179, col: 38, offset: 70554},
+							pos:        position{line: 2184, col: 38, offset: 70683},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -44846,44 +45411,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2188, col: 1, offset: 70807},
+			pos:  position{line: 2193, col: 1, offset: 70936},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2188, col: 34, offset: 70840},
+				pos: position{line: 2193, col: 34, offset: 70969},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2188, col: 34, offset: 70840},
+					pos:  position{line: 2193, col: 34, offset: 70969},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2190, col: 1, offset: 70871},
+			pos:  position{line: 2195, col: 1, offset: 71000},
 			expr: &actionExpr{
-				pos: position{line: 2191, col: 5, offset: 70940},
+				pos: position{line: 2196, col: 5, offset: 71069},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2191, col: 5, offset: 70940},
+					pos: position{line: 2196, col: 5, offset: 71069},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70951},
+							pos: position{line: 2197, col: 5, offset: 71080},
 							expr: &litMatcher{
-								pos:        position{line: 2179, col: 38, offset: 70554},
+								pos:        position{line: 2184, col: 38, offset: 70683},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70990},
+							pos:   position{line: 2198, col: 5, offset: 71119},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2193, col: 14, offset: 70999},
+								pos:  position{line: 2198, col: 14, offset: 71128},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44893,29 +45458,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2218, col: 1, offset: 71681},
+			pos:  position{line: 2223, col: 1, offset: 71810},
 			expr: &actionExpr{
-				pos: position{line: 2219, col: 5, offset: 71711},
+				pos: position{line: 2224, col: 5, offset: 71840},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2219, col: 5, offset: 71711},
+					pos: position{line: 2224, col: 5, offset: 71840},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2202, col: 5, offset: 71247},
+							pos:        position{line: 2207, col: 5, offset: 71376},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2203, col: 5, offset: 71256},
+							pos: position{line: 2208, col: 5, offset: 71385},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2207, col: 5, offset: 71376},
+							pos: position{line: 2212, col: 5, offset: 71505},
 							expr: &notExpr{
-								pos: position{line: 2207, col: 7, offset: 71378},
+								pos: position{line: 2212, col: 7, offset: 71507},
 								expr: &litMatcher{
-									pos:        position{line: 2207, col: 8, offset: 71379},
+									pos:        position{line: 2212, col: 8, offset: 71508},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -44923,38 +45488,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2220, col: 5, offset: 71751},
+							pos:   position{line: 2225, col: 5, offset: 71880},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2220, col: 15, offset: 71761},
+								pos:  position{line: 2225, col: 15, offset: 71890},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2210, col: 5, offset: 71484},
+							pos:        position{line: 2215, col: 5, offset: 71613},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2211, col: 5, offset: 71492},
+							pos: position{line: 2216, col: 5, offset: 71621},
 							expr: &litMatcher{
-								pos:        position{line: 2211, col: 6, offset: 71493},
+								pos:        position{line: 2216, col: 6, offset: 71622},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2212, col: 5, offset: 71556},
+							pos: position{line: 2217, col: 5, offset: 71685},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2216, col: 5, offset: 71667},
+							pos: position{line: 2221, col: 5, offset: 71796},
 							expr: &notExpr{
-								pos: position{line: 2216, col: 7, offset: 71669},
+								pos: position{line: 2221, col: 7, offset: 71798},
 								expr: &charClassMatcher{
-									pos:        position{line: 2776, col: 13, offset: 88482},
+									pos:        position{line: 2781, col: 13, offset: 88611},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44968,20 +45533,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2225, col: 1, offset: 71928},
+			pos:  position{line: 2230, col: 1, offset: 72057},
 			expr: &actionExpr{
-				pos: position{line: 2226, col: 5, offset: 71966},
+				pos: position{line: 2231, col: 5, offset: 72095},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2226, col: 5, offset: 71966},
+					pos: position{line: 2231, col: 5, offset: 72095},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2226, col: 5, offset: 71966},
+							pos: position{line: 2231, col: 5, offset: 72095},
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 10, offset: 91401},
+								pos: position{line: 2918, col: 10, offset: 92369},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2886, col: 10, offset: 91401},
+									pos:        position{line: 2918, col: 10, offset: 92369},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44990,18 +45555,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2227, col: 5, offset: 72005},
+							pos:   position{line: 2232, col: 5, offset: 72134},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2227, col: 14, offset: 72014},
+								pos: position{line: 2232, col: 14, offset: 72143},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2227, col: 15, offset: 72015},
+									pos:  position{line: 2232, col: 15, offset: 72144},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2228, col: 5, offset: 72051},
+							pos: position{line: 2233, col: 5, offset: 72180},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -45010,49 +45575,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2234, col: 1, offset: 72192},
+			pos:  position{line: 2239, col: 1, offset: 72321},
 			expr: &actionExpr{
-				pos: position{line: 2235, col: 5, offset: 72229},
+				pos: position{line: 2240, col: 5, offset: 72358},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2235, col: 5, offset: 72229},
+					pos: position{line: 2240, col: 5, offset: 72358},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2236, col: 5, offset: 72240},
+							pos: position{line: 2241, col: 5, offset: 72369},
 							expr: &seqExpr{
-								pos: position{line: 2210, col: 5, offset: 71484},
+								pos: position{line: 2215, col: 5, offset: 71613},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2210, col: 5, offset: 71484},
+										pos:        position{line: 2215, col: 5, offset: 71613},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2211, col: 5, offset: 71492},
+										pos: position{line: 2216, col: 5, offset: 71621},
 										expr: &litMatcher{
-											pos:        position{line: 2211, col: 6, offset: 71493},
+											pos:        position{line: 2216, col: 6, offset: 71622},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2212, col: 5, offset: 71556},
+										pos: position{line: 2217, col: 5, offset: 71685},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2216, col: 5, offset: 71667},
+										pos: position{line: 2221, col: 5, offset: 71796},
 										expr: &notExpr{
-											pos: position{line: 2216, col: 7, offset: 71669},
+											pos: position{line: 2221, col: 7, offset: 71798},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88482},
+												pos:        position{line: 2781, col: 13, offset: 88611},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45064,10 +45629,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2237, col: 5, offset: 72279},
+							pos:   position{line: 2242, col: 5, offset: 72408},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2237, col: 14, offset: 72288},
+								pos:  position{line: 2242, col: 14, offset: 72417},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45077,35 +45642,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2242, col: 1, offset: 72376},
+			pos:  position{line: 2247, col: 1, offset: 72505},
 			expr: &choiceExpr{
-				pos: position{line: 2244, col: 5, offset: 72440},
+				pos: position{line: 2249, col: 5, offset: 72569},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2244, col: 5, offset: 72440},
+						pos: position{line: 2249, col: 5, offset: 72569},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2244, col: 5, offset: 72440},
+							pos: position{line: 2249, col: 5, offset: 72569},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2244, col: 5, offset: 72440},
+									pos:   position{line: 2249, col: 5, offset: 72569},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1879, col: 25, offset: 60644},
+										pos: position{line: 1884, col: 25, offset: 60773},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1879, col: 25, offset: 60644},
+											pos: position{line: 1884, col: 25, offset: 60773},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1879, col: 25, offset: 60644},
+													pos:        position{line: 1884, col: 25, offset: 60773},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1879, col: 30, offset: 60649},
+													pos: position{line: 1884, col: 30, offset: 60778},
 													expr: &litMatcher{
-														pos:        position{line: 1879, col: 30, offset: 60649},
+														pos:        position{line: 1884, col: 30, offset: 60778},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45116,21 +45681,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 40, offset: 72475},
+									pos:        position{line: 2249, col: 40, offset: 72604},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2244, col: 45, offset: 72480},
+									pos:   position{line: 2249, col: 45, offset: 72609},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2244, col: 55, offset: 72490},
+										pos:  position{line: 2249, col: 55, offset: 72619},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2244, col: 86, offset: 72521},
+									pos:        position{line: 2249, col: 86, offset: 72650},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45139,21 +45704,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 7, offset: 72686},
+						pos: position{line: 2253, col: 7, offset: 72815},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2248, col: 7, offset: 72686},
+							pos: position{line: 2253, col: 7, offset: 72815},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2248, col: 7, offset: 72686},
+									pos:   position{line: 2253, col: 7, offset: 72815},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45162,21 +45727,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 42, offset: 72721},
+									pos:        position{line: 2253, col: 42, offset: 72850},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2248, col: 47, offset: 72726},
+									pos:   position{line: 2253, col: 47, offset: 72855},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2248, col: 57, offset: 72736},
+										pos:  position{line: 2253, col: 57, offset: 72865},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 88, offset: 72767},
+									pos:        position{line: 2253, col: 88, offset: 72896},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45185,21 +45750,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2253, col: 7, offset: 72970},
+						pos: position{line: 2258, col: 7, offset: 73099},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2253, col: 7, offset: 72970},
+							pos: position{line: 2258, col: 7, offset: 73099},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2253, col: 7, offset: 72970},
+									pos:   position{line: 2258, col: 7, offset: 73099},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1875, col: 25, offset: 60571},
+										pos: position{line: 1880, col: 25, offset: 60700},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1875, col: 25, offset: 60571},
+											pos: position{line: 1880, col: 25, offset: 60700},
 											expr: &litMatcher{
-												pos:        position{line: 1875, col: 25, offset: 60571},
+												pos:        position{line: 1880, col: 25, offset: 60700},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45208,21 +45773,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 42, offset: 73005},
+									pos:        position{line: 2258, col: 42, offset: 73134},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2253, col: 46, offset: 73009},
+									pos:   position{line: 2258, col: 46, offset: 73138},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2253, col: 56, offset: 73019},
+										pos:  position{line: 2258, col: 56, offset: 73148},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 87, offset: 73050},
+									pos:        position{line: 2258, col: 87, offset: 73179},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45235,29 +45800,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2260, col: 1, offset: 73317},
+			pos:  position{line: 2265, col: 1, offset: 73446},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73339},
+				pos: position{line: 2266, col: 5, offset: 73468},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73339},
+					pos: position{line: 2266, col: 5, offset: 73468},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73554},
+							pos:        position{line: 2272, col: 27, offset: 73683},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2262, col: 5, offset: 73366},
+							pos:   position{line: 2267, col: 5, offset: 73495},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2262, col: 14, offset: 73375},
+								pos:  position{line: 2267, col: 14, offset: 73504},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73554},
+							pos:        position{line: 2272, col: 27, offset: 73683},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45268,43 +45833,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2269, col: 1, offset: 73559},
+			pos:  position{line: 2274, col: 1, offset: 73688},
 			expr: &choiceExpr{
-				pos: position{line: 2269, col: 25, offset: 73583},
+				pos: position{line: 2274, col: 25, offset: 73712},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2269, col: 25, offset: 73583},
+						pos:  position{line: 2274, col: 25, offset: 73712},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 21, offset: 73635},
+						pos: position{line: 2276, col: 21, offset: 73764},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2271, col: 21, offset: 73635},
+							pos:   position{line: 2276, col: 21, offset: 73764},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2271, col: 29, offset: 73643},
+								pos: position{line: 2276, col: 29, offset: 73772},
 								expr: &choiceExpr{
-									pos: position{line: 2271, col: 30, offset: 73644},
+									pos: position{line: 2276, col: 30, offset: 73773},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 5, offset: 79918},
+												pos: position{line: 2488, col: 5, offset: 80047},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2483, col: 5, offset: 79918},
+														pos: position{line: 2488, col: 5, offset: 80047},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2486, col: 5, offset: 79994},
+														pos:   position{line: 2491, col: 5, offset: 80123},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2487, col: 9, offset: 80012},
+															pos: position{line: 2492, col: 9, offset: 80141},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2487, col: 10, offset: 80013},
+																pos:        position{line: 2492, col: 10, offset: 80142},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45316,7 +45881,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2271, col: 49, offset: 73663},
+											pos:        position{line: 2276, col: 49, offset: 73792},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -45332,23 +45897,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2275, col: 1, offset: 73720},
+			pos:  position{line: 2280, col: 1, offset: 73849},
 			expr: &actionExpr{
-				pos: position{line: 2277, col: 5, offset: 73787},
+				pos: position{line: 2282, col: 5, offset: 73916},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2277, col: 5, offset: 73787},
+					pos: position{line: 2282, col: 5, offset: 73916},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2277, col: 5, offset: 73787},
+							pos:   position{line: 2282, col: 5, offset: 73916},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1875, col: 25, offset: 60571},
+								pos: position{line: 1880, col: 25, offset: 60700},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1875, col: 25, offset: 60571},
+									pos: position{line: 1880, col: 25, offset: 60700},
 									expr: &litMatcher{
-										pos:        position{line: 1875, col: 25, offset: 60571},
+										pos:        position{line: 1880, col: 25, offset: 60700},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45357,21 +45922,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73554},
+							pos:        position{line: 2272, col: 27, offset: 73683},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2279, col: 5, offset: 73855},
+							pos:   position{line: 2284, col: 5, offset: 73984},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2279, col: 14, offset: 73864},
+								pos:  position{line: 2284, col: 14, offset: 73993},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 27, offset: 73554},
+							pos:        position{line: 2272, col: 27, offset: 73683},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45382,29 +45947,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2287, col: 1, offset: 74127},
+			pos:  position{line: 2292, col: 1, offset: 74256},
 			expr: &actionExpr{
-				pos: position{line: 2288, col: 5, offset: 74151},
+				pos: position{line: 2293, col: 5, offset: 74280},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2288, col: 5, offset: 74151},
+					pos: position{line: 2293, col: 5, offset: 74280},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74378},
+							pos:        position{line: 2299, col: 29, offset: 74507},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2289, col: 5, offset: 74181},
+							pos:   position{line: 2294, col: 5, offset: 74310},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2289, col: 14, offset: 74190},
+								pos:  position{line: 2294, col: 14, offset: 74319},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74378},
+							pos:        position{line: 2299, col: 29, offset: 74507},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45415,43 +45980,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2296, col: 1, offset: 74383},
+			pos:  position{line: 2301, col: 1, offset: 74512},
 			expr: &choiceExpr{
-				pos: position{line: 2296, col: 27, offset: 74409},
+				pos: position{line: 2301, col: 27, offset: 74538},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2296, col: 27, offset: 74409},
+						pos:  position{line: 2301, col: 27, offset: 74538},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2298, col: 23, offset: 74465},
+						pos: position{line: 2303, col: 23, offset: 74594},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2298, col: 23, offset: 74465},
+							pos:   position{line: 2303, col: 23, offset: 74594},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2298, col: 31, offset: 74473},
+								pos: position{line: 2303, col: 31, offset: 74602},
 								expr: &choiceExpr{
-									pos: position{line: 2298, col: 32, offset: 74474},
+									pos: position{line: 2303, col: 32, offset: 74603},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 5, offset: 79918},
+												pos: position{line: 2488, col: 5, offset: 80047},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2483, col: 5, offset: 79918},
+														pos: position{line: 2488, col: 5, offset: 80047},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2486, col: 5, offset: 79994},
+														pos:   position{line: 2491, col: 5, offset: 80123},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2487, col: 9, offset: 80012},
+															pos: position{line: 2492, col: 9, offset: 80141},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2487, col: 10, offset: 80013},
+																pos:        position{line: 2492, col: 10, offset: 80142},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45463,7 +46028,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2298, col: 51, offset: 74493},
+											pos:        position{line: 2303, col: 51, offset: 74622},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -45479,23 +46044,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2302, col: 1, offset: 74550},
+			pos:  position{line: 2307, col: 1, offset: 74679},
 			expr: &actionExpr{
-				pos: position{line: 2304, col: 5, offset: 74622},
+				pos: position{line: 2309, col: 5, offset: 74751},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2304, col: 5, offset: 74622},
+					pos: position{line: 2309, col: 5, offset: 74751},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74622},
+							pos:   position{line: 2309, col: 5, offset: 74751},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1875, col: 25, offset: 60571},
+								pos: position{line: 1880, col: 25, offset: 60700},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1875, col: 25, offset: 60571},
+									pos: position{line: 1880, col: 25, offset: 60700},
 									expr: &litMatcher{
-										pos:        position{line: 1875, col: 25, offset: 60571},
+										pos:        position{line: 1880, col: 25, offset: 60700},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45504,21 +46069,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74378},
+							pos:        position{line: 2299, col: 29, offset: 74507},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74692},
+							pos:   position{line: 2311, col: 5, offset: 74821},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 14, offset: 74701},
+								pos:  position{line: 2311, col: 14, offset: 74830},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2294, col: 29, offset: 74378},
+							pos:        position{line: 2299, col: 29, offset: 74507},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45529,27 +46094,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2315, col: 1, offset: 75170},
+			pos:  position{line: 2320, col: 1, offset: 75299},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 75186},
+				pos: position{line: 2321, col: 5, offset: 75315},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 75186},
+					pos: position{line: 2321, col: 5, offset: 75315},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2316, col: 5, offset: 75186},
+							pos: position{line: 2321, col: 5, offset: 75315},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 75249},
+							pos:   position{line: 2324, col: 5, offset: 75378},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2319, col: 12, offset: 75256},
+								pos: position{line: 2324, col: 12, offset: 75385},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2319, col: 12, offset: 75256},
+									pos: position{line: 2324, col: 12, offset: 75385},
 									expr: &litMatcher{
-										pos:        position{line: 2319, col: 13, offset: 75257},
+										pos:        position{line: 2324, col: 13, offset: 75386},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -45558,16 +46123,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2323, col: 5, offset: 75365},
+							pos: position{line: 2328, col: 5, offset: 75494},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2890, col: 11, offset: 91462},
+							pos: position{line: 2922, col: 11, offset: 92430},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2890, col: 11, offset: 91462},
+								pos: position{line: 2922, col: 11, offset: 92430},
 								expr: &charClassMatcher{
-									pos:        position{line: 2890, col: 11, offset: 91462},
+									pos:        position{line: 2922, col: 11, offset: 92430},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45576,36 +46141,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 12, offset: 75524},
+							pos:   position{line: 2332, col: 12, offset: 75653},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2327, col: 19, offset: 75531},
+								pos:  position{line: 2332, col: 19, offset: 75660},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -45614,9 +46179,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -45627,24 +46192,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2331, col: 1, offset: 75627},
+			pos:  position{line: 2336, col: 1, offset: 75756},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75648},
+				pos: position{line: 2337, col: 5, offset: 75777},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75648},
+					pos: position{line: 2337, col: 5, offset: 75777},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2332, col: 5, offset: 75648},
+							pos: position{line: 2337, col: 5, offset: 75777},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2337, col: 5, offset: 75763},
+							pos:   position{line: 2342, col: 5, offset: 75892},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2337, col: 14, offset: 75772},
+								pos: position{line: 2342, col: 14, offset: 75901},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2337, col: 15, offset: 75773},
+									pos:  position{line: 2342, col: 15, offset: 75902},
 									name: "SectionTitleElement",
 								},
 							},
@@ -45655,38 +46220,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2341, col: 1, offset: 75854},
+			pos:  position{line: 2346, col: 1, offset: 75983},
 			expr: &actionExpr{
-				pos: position{line: 2342, col: 5, offset: 75881},
+				pos: position{line: 2347, col: 5, offset: 76010},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2342, col: 5, offset: 75881},
+					pos: position{line: 2347, col: 5, offset: 76010},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2342, col: 5, offset: 75881},
+							pos: position{line: 2347, col: 5, offset: 76010},
 							expr: &choiceExpr{
-								pos: position{line: 2908, col: 8, offset: 91799},
+								pos: position{line: 2940, col: 8, offset: 92767},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91572},
+										pos: position{line: 2927, col: 12, offset: 92540},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91573},
+											pos: position{line: 2927, col: 13, offset: 92541},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91573},
+													pos:        position{line: 2927, col: 13, offset: 92541},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91580},
+													pos:        position{line: 2927, col: 20, offset: 92548},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91589},
+													pos:        position{line: 2927, col: 29, offset: 92557},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45695,36 +46260,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2905, col: 8, offset: 91749},
+										pos: position{line: 2937, col: 8, offset: 92717},
 										expr: &anyMatcher{
-											line: 2905, col: 9, offset: 91750,
+											line: 2937, col: 9, offset: 92718,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75890},
+							pos:   position{line: 2348, col: 5, offset: 76019},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2344, col: 9, offset: 75908},
+								pos: position{line: 2349, col: 9, offset: 76037},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88629},
+										pos: position{line: 2790, col: 5, offset: 88758},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88629},
+											pos: position{line: 2790, col: 5, offset: 88758},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88629},
+													pos:   position{line: 2790, col: 5, offset: 88758},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88635},
+														pos: position{line: 2790, col: 11, offset: 88764},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88635},
+															pos: position{line: 2790, col: 11, offset: 88764},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88635},
+																pos:        position{line: 2790, col: 11, offset: 88764},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45734,32 +46299,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88693},
+													pos: position{line: 2793, col: 5, offset: 88822},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88704},
+														pos: position{line: 2794, col: 9, offset: 88833},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88704},
+																pos:        position{line: 2794, col: 9, offset: 88833},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88753},
+																pos: position{line: 2795, col: 9, offset: 88882},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88833},
+													pos: position{line: 2799, col: 5, offset: 88962},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88844},
+														pos: position{line: 2800, col: 9, offset: 88973},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88844},
+																pos: position{line: 2800, col: 9, offset: 88973},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88844},
+																	pos:        position{line: 2800, col: 9, offset: 88973},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45768,13 +46333,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88858},
+																pos:        position{line: 2800, col: 23, offset: 88987},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88862},
+																pos:        position{line: 2800, col: 27, offset: 88991},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45787,12 +46352,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 11, offset: 91462},
+										pos: position{line: 2922, col: 11, offset: 92430},
 										run: (*parser).callonSectionTitleElement30,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 11, offset: 91462},
+											pos: position{line: 2922, col: 11, offset: 92430},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 11, offset: 91462},
+												pos:        position{line: 2922, col: 11, offset: 92430},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -45801,21 +46366,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81089},
+										pos: position{line: 2519, col: 5, offset: 81218},
 										run: (*parser).callonSectionTitleElement33,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81089},
+											pos: position{line: 2519, col: 5, offset: 81218},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81089},
+													pos:        position{line: 2519, col: 5, offset: 81218},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 10, offset: 81094},
+													pos: position{line: 2519, col: 10, offset: 81223},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 11, offset: 81095},
+														pos:        position{line: 2519, col: 11, offset: 81224},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45826,29 +46391,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81287},
+										pos: position{line: 2525, col: 5, offset: 81416},
 										run: (*parser).callonSectionTitleElement38,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81287},
+											pos: position{line: 2525, col: 5, offset: 81416},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2520, col: 5, offset: 81287},
+													pos: position{line: 2525, col: 5, offset: 81416},
 													run: (*parser).callonSectionTitleElement40,
 												},
 												&andCodeExpr{
-													pos: position{line: 2523, col: 5, offset: 81358},
+													pos: position{line: 2528, col: 5, offset: 81487},
 													run: (*parser).callonSectionTitleElement41,
 												},
 												&litMatcher{
-													pos:        position{line: 2527, col: 5, offset: 81483},
+													pos:        position{line: 2532, col: 5, offset: 81612},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2527, col: 9, offset: 81487},
+													pos: position{line: 2532, col: 9, offset: 81616},
 													expr: &charClassMatcher{
-														pos:        position{line: 2527, col: 10, offset: 81488},
+														pos:        position{line: 2532, col: 10, offset: 81617},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -45859,31 +46424,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2347, col: 11, offset: 75973},
+										pos:  position{line: 2352, col: 11, offset: 76102},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89055},
+										pos: position{line: 2808, col: 5, offset: 89184},
 										run: (*parser).callonSectionTitleElement46,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89065},
+											pos: position{line: 2809, col: 9, offset: 89194},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89066},
+													pos:        position{line: 2809, col: 10, offset: 89195},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89163},
+													pos: position{line: 2811, col: 13, offset: 89292},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89163},
+															pos: position{line: 2811, col: 13, offset: 89292},
 															run: (*parser).callonSectionTitleElement50,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89263},
+															pos:        position{line: 2814, col: 13, offset: 89392},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45891,20 +46456,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89269},
+													pos:        position{line: 2814, col: 19, offset: 89398},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89307},
+													pos: position{line: 2817, col: 13, offset: 89436},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89307},
+															pos: position{line: 2817, col: 13, offset: 89436},
 															run: (*parser).callonSectionTitleElement54,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89400},
+															pos:        position{line: 2820, col: 14, offset: 89529},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45913,18 +46478,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89444},
+													pos: position{line: 2822, col: 12, offset: 89573},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89444},
+															pos:        position{line: 2822, col: 12, offset: 89573},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89448},
+															pos: position{line: 2822, col: 16, offset: 89577},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89449},
+																pos:        position{line: 2822, col: 17, offset: 89578},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45936,35 +46501,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2349, col: 11, offset: 76046},
+										pos:  position{line: 2354, col: 11, offset: 76175},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2350, col: 11, offset: 76062},
+										pos:  position{line: 2355, col: 11, offset: 76191},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2351, col: 11, offset: 76090},
+										pos:  position{line: 2356, col: 11, offset: 76219},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79918},
+										pos: position{line: 2488, col: 5, offset: 80047},
 										run: (*parser).callonSectionTitleElement63,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79918},
+													pos: position{line: 2488, col: 5, offset: 80047},
 													run: (*parser).callonSectionTitleElement65,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79994},
+													pos:   position{line: 2491, col: 5, offset: 80123},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80012},
+														pos: position{line: 2492, col: 9, offset: 80141},
 														run: (*parser).callonSectionTitleElement67,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80013},
+															pos:        position{line: 2492, col: 10, offset: 80142},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45976,7 +46541,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2353, col: 11, offset: 76175},
+										pos:  position{line: 2358, col: 11, offset: 76304},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -46365,17 +46930,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2366, col: 5, offset: 76628},
+										pos: position{line: 2371, col: 5, offset: 76757},
 										run: (*parser).callonSectionTitleElement147,
 										expr: &seqExpr{
-											pos: position{line: 2366, col: 5, offset: 76628},
+											pos: position{line: 2371, col: 5, offset: 76757},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2366, col: 5, offset: 76628},
+													pos: position{line: 2371, col: 5, offset: 76757},
 													run: (*parser).callonSectionTitleElement149,
 												},
 												&labeledExpr{
-													pos:   position{line: 2369, col: 5, offset: 76683},
+													pos:   position{line: 2374, col: 5, offset: 76812},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -46829,12 +47394,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2369, col: 26, offset: 76704},
+													pos: position{line: 2374, col: 26, offset: 76833},
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 10, offset: 91401},
+														pos: position{line: 2918, col: 10, offset: 92369},
 														run: (*parser).callonSectionTitleElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 10, offset: 91401},
+															pos:        position{line: 2918, col: 10, offset: 92369},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -46843,30 +47408,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2369, col: 33, offset: 76711},
+													pos: position{line: 2374, col: 33, offset: 76840},
 													expr: &choiceExpr{
-														pos: position{line: 2908, col: 8, offset: 91799},
+														pos: position{line: 2940, col: 8, offset: 92767},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 91572},
+																pos: position{line: 2927, col: 12, offset: 92540},
 																run: (*parser).callonSectionTitleElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 13, offset: 91573},
+																	pos: position{line: 2927, col: 13, offset: 92541},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 13, offset: 91573},
+																			pos:        position{line: 2927, col: 13, offset: 92541},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 20, offset: 91580},
+																			pos:        position{line: 2927, col: 20, offset: 92548},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2895, col: 29, offset: 91589},
+																			pos:        position{line: 2927, col: 29, offset: 92557},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -46875,9 +47440,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2905, col: 8, offset: 91749},
+																pos: position{line: 2937, col: 8, offset: 92717},
 																expr: &anyMatcher{
-																	line: 2905, col: 9, offset: 91750,
+																	line: 2937, col: 9, offset: 92718,
 																},
 															},
 														},
@@ -46902,12 +47467,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91053},
+														pos: position{line: 2903, col: 7, offset: 92021},
 														run: (*parser).callonSectionTitleElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91053},
+															pos: position{line: 2903, col: 7, offset: 92021},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91053},
+																pos:        position{line: 2903, col: 7, offset: 92021},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46941,12 +47506,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91053},
+														pos: position{line: 2903, col: 7, offset: 92021},
 														run: (*parser).callonSectionTitleElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91053},
+															pos: position{line: 2903, col: 7, offset: 92021},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91053},
+																pos:        position{line: 2903, col: 7, offset: 92021},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46965,14 +47530,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2358, col: 11, offset: 76429},
+										pos:  position{line: 2363, col: 11, offset: 76558},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89709},
+										pos: position{line: 2830, col: 12, offset: 89838},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89709},
+											pos:        position{line: 2830, col: 12, offset: 89838},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46988,52 +47553,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2379, col: 1, offset: 76973},
+			pos:  position{line: 2384, col: 1, offset: 77102},
 			expr: &actionExpr{
-				pos: position{line: 2380, col: 5, offset: 77060},
+				pos: position{line: 2385, col: 5, offset: 77189},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2380, col: 5, offset: 77060},
+					pos: position{line: 2385, col: 5, offset: 77189},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77060},
+							pos:   position{line: 2385, col: 5, offset: 77189},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2380, col: 14, offset: 77069},
+								pos: position{line: 2385, col: 14, offset: 77198},
 								expr: &actionExpr{
-									pos: position{line: 2382, col: 9, offset: 77095},
+									pos: position{line: 2387, col: 9, offset: 77224},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2382, col: 9, offset: 77095},
+										pos: position{line: 2387, col: 9, offset: 77224},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91735},
+												pos: position{line: 2935, col: 11, offset: 92703},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91737,
+													line: 2935, col: 13, offset: 92705,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2383, col: 9, offset: 77110},
+												pos:   position{line: 2388, col: 9, offset: 77239},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2384, col: 13, offset: 77132},
+													pos: position{line: 2389, col: 13, offset: 77261},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2785, col: 5, offset: 88629},
+															pos: position{line: 2790, col: 5, offset: 88758},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2785, col: 5, offset: 88629},
+																pos: position{line: 2790, col: 5, offset: 88758},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2785, col: 5, offset: 88629},
+																		pos:   position{line: 2790, col: 5, offset: 88758},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2785, col: 11, offset: 88635},
+																			pos: position{line: 2790, col: 11, offset: 88764},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2785, col: 11, offset: 88635},
+																				pos: position{line: 2790, col: 11, offset: 88764},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2785, col: 11, offset: 88635},
+																					pos:        position{line: 2790, col: 11, offset: 88764},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47043,32 +47608,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2788, col: 5, offset: 88693},
+																		pos: position{line: 2793, col: 5, offset: 88822},
 																		expr: &seqExpr{
-																			pos: position{line: 2789, col: 9, offset: 88704},
+																			pos: position{line: 2794, col: 9, offset: 88833},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2789, col: 9, offset: 88704},
+																					pos:        position{line: 2794, col: 9, offset: 88833},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2790, col: 9, offset: 88753},
+																					pos: position{line: 2795, col: 9, offset: 88882},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2794, col: 5, offset: 88833},
+																		pos: position{line: 2799, col: 5, offset: 88962},
 																		expr: &seqExpr{
-																			pos: position{line: 2795, col: 9, offset: 88844},
+																			pos: position{line: 2800, col: 9, offset: 88973},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2795, col: 9, offset: 88844},
+																					pos: position{line: 2800, col: 9, offset: 88973},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2795, col: 9, offset: 88844},
+																						pos:        position{line: 2800, col: 9, offset: 88973},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47077,13 +47642,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2795, col: 23, offset: 88858},
+																					pos:        position{line: 2800, col: 23, offset: 88987},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2795, col: 27, offset: 88862},
+																					pos:        position{line: 2800, col: 27, offset: 88991},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47096,12 +47661,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2890, col: 11, offset: 91462},
+															pos: position{line: 2922, col: 11, offset: 92430},
 															run: (*parser).callonNormalGroup27,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2890, col: 11, offset: 91462},
+																pos: position{line: 2922, col: 11, offset: 92430},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2890, col: 11, offset: 91462},
+																	pos:        position{line: 2922, col: 11, offset: 92430},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47110,25 +47675,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2386, col: 15, offset: 77178},
+															pos:  position{line: 2391, col: 15, offset: 77307},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2514, col: 5, offset: 81089},
+															pos: position{line: 2519, col: 5, offset: 81218},
 															run: (*parser).callonNormalGroup31,
 															expr: &seqExpr{
-																pos: position{line: 2514, col: 5, offset: 81089},
+																pos: position{line: 2519, col: 5, offset: 81218},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81089},
+																		pos:        position{line: 2519, col: 5, offset: 81218},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 10, offset: 81094},
+																		pos: position{line: 2519, col: 10, offset: 81223},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 11, offset: 81095},
+																			pos:        position{line: 2519, col: 11, offset: 81224},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47139,29 +47704,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2520, col: 5, offset: 81287},
+															pos: position{line: 2525, col: 5, offset: 81416},
 															run: (*parser).callonNormalGroup36,
 															expr: &seqExpr{
-																pos: position{line: 2520, col: 5, offset: 81287},
+																pos: position{line: 2525, col: 5, offset: 81416},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2520, col: 5, offset: 81287},
+																		pos: position{line: 2525, col: 5, offset: 81416},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2523, col: 5, offset: 81358},
+																		pos: position{line: 2528, col: 5, offset: 81487},
 																		run: (*parser).callonNormalGroup39,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2527, col: 5, offset: 81483},
+																		pos:        position{line: 2532, col: 5, offset: 81612},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2527, col: 9, offset: 81487},
+																		pos: position{line: 2532, col: 9, offset: 81616},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2527, col: 10, offset: 81488},
+																			pos:        position{line: 2532, col: 10, offset: 81617},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47172,27 +47737,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2803, col: 5, offset: 89055},
+															pos: position{line: 2808, col: 5, offset: 89184},
 															run: (*parser).callonNormalGroup43,
 															expr: &choiceExpr{
-																pos: position{line: 2804, col: 9, offset: 89065},
+																pos: position{line: 2809, col: 9, offset: 89194},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2804, col: 10, offset: 89066},
+																		pos:        position{line: 2809, col: 10, offset: 89195},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2806, col: 13, offset: 89163},
+																		pos: position{line: 2811, col: 13, offset: 89292},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2806, col: 13, offset: 89163},
+																				pos: position{line: 2811, col: 13, offset: 89292},
 																				run: (*parser).callonNormalGroup47,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2809, col: 13, offset: 89263},
+																				pos:        position{line: 2814, col: 13, offset: 89392},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47200,20 +47765,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2809, col: 19, offset: 89269},
+																		pos:        position{line: 2814, col: 19, offset: 89398},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2812, col: 13, offset: 89307},
+																		pos: position{line: 2817, col: 13, offset: 89436},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2812, col: 13, offset: 89307},
+																				pos: position{line: 2817, col: 13, offset: 89436},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2815, col: 14, offset: 89400},
+																				pos:        position{line: 2820, col: 14, offset: 89529},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47222,18 +47787,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2817, col: 12, offset: 89444},
+																		pos: position{line: 2822, col: 12, offset: 89573},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2817, col: 12, offset: 89444},
+																				pos:        position{line: 2822, col: 12, offset: 89573},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2817, col: 16, offset: 89448},
+																				pos: position{line: 2822, col: 16, offset: 89577},
 																				expr: &litMatcher{
-																					pos:        position{line: 2817, col: 17, offset: 89449},
+																					pos:        position{line: 2822, col: 17, offset: 89578},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -47245,25 +47810,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2895, col: 12, offset: 91572},
+															pos: position{line: 2927, col: 12, offset: 92540},
 															run: (*parser).callonNormalGroup57,
 															expr: &choiceExpr{
-																pos: position{line: 2895, col: 13, offset: 91573},
+																pos: position{line: 2927, col: 13, offset: 92541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 91573},
+																		pos:        position{line: 2927, col: 13, offset: 92541},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 20, offset: 91580},
+																		pos:        position{line: 2927, col: 20, offset: 92548},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2895, col: 29, offset: 91589},
+																		pos:        position{line: 2927, col: 29, offset: 92557},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -47618,35 +48183,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2391, col: 15, offset: 77345},
+															pos:  position{line: 2396, col: 15, offset: 77474},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2392, col: 15, offset: 77365},
+															pos:  position{line: 2397, col: 15, offset: 77494},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77454},
+															pos:  position{line: 2398, col: 15, offset: 77583},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2483, col: 5, offset: 79918},
+															pos: position{line: 2488, col: 5, offset: 80047},
 															run: (*parser).callonNormalGroup134,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 5, offset: 79918},
+																pos: position{line: 2488, col: 5, offset: 80047},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2483, col: 5, offset: 79918},
+																		pos: position{line: 2488, col: 5, offset: 80047},
 																		run: (*parser).callonNormalGroup136,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2486, col: 5, offset: 79994},
+																		pos:   position{line: 2491, col: 5, offset: 80123},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2487, col: 9, offset: 80012},
+																			pos: position{line: 2492, col: 9, offset: 80141},
 																			run: (*parser).callonNormalGroup138,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2487, col: 10, offset: 80013},
+																				pos:        position{line: 2492, col: 10, offset: 80142},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -47680,10 +48245,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonNormalGroup146,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47694,28 +48259,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2908, col: 8, offset: 91799},
+																			pos: position{line: 2940, col: 8, offset: 92767},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonNormalGroup150,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47724,9 +48289,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2905, col: 8, offset: 91749},
+																					pos: position{line: 2937, col: 8, offset: 92717},
 																					expr: &anyMatcher{
-																						line: 2905, col: 9, offset: 91750,
+																						line: 2937, col: 9, offset: 92718,
 																					},
 																				},
 																			},
@@ -47736,7 +48301,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2396, col: 15, offset: 77636},
+															pos:  position{line: 2401, col: 15, offset: 77765},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -47779,10 +48344,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2825, col: 12, offset: 89709},
+															pos: position{line: 2830, col: 12, offset: 89838},
 															run: (*parser).callonNormalGroup166,
 															expr: &charClassMatcher{
-																pos:        position{line: 2825, col: 12, offset: 89709},
+																pos:        position{line: 2830, col: 12, offset: 89838},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -47798,9 +48363,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -47809,28 +48374,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2407, col: 1, offset: 78074},
+			pos:  position{line: 2412, col: 1, offset: 78203},
 			expr: &actionExpr{
-				pos: position{line: 2408, col: 5, offset: 78107},
+				pos: position{line: 2413, col: 5, offset: 78236},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2408, col: 5, offset: 78107},
+					pos: position{line: 2413, col: 5, offset: 78236},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2408, col: 5, offset: 78107},
+							pos:   position{line: 2413, col: 5, offset: 78236},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2408, col: 14, offset: 78116},
+								pos: position{line: 2413, col: 14, offset: 78245},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2408, col: 15, offset: 78117},
+									pos:  position{line: 2413, col: 15, offset: 78246},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -47839,41 +48404,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2412, col: 1, offset: 78214},
+			pos:  position{line: 2417, col: 1, offset: 78343},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78254},
+				pos: position{line: 2418, col: 5, offset: 78383},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78254},
+					pos: position{line: 2418, col: 5, offset: 78383},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2903, col: 11, offset: 91735},
+							pos: position{line: 2935, col: 11, offset: 92703},
 							expr: &anyMatcher{
-								line: 2903, col: 13, offset: 91737,
+								line: 2935, col: 13, offset: 92705,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2414, col: 5, offset: 78265},
+							pos:   position{line: 2419, col: 5, offset: 78394},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2415, col: 9, offset: 78283},
+								pos: position{line: 2420, col: 9, offset: 78412},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88629},
+										pos: position{line: 2790, col: 5, offset: 88758},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2785, col: 5, offset: 88629},
+											pos: position{line: 2790, col: 5, offset: 88758},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2785, col: 5, offset: 88629},
+													pos:   position{line: 2790, col: 5, offset: 88758},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2785, col: 11, offset: 88635},
+														pos: position{line: 2790, col: 11, offset: 88764},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2785, col: 11, offset: 88635},
+															pos: position{line: 2790, col: 11, offset: 88764},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 11, offset: 88635},
+																pos:        position{line: 2790, col: 11, offset: 88764},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47883,32 +48448,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88693},
+													pos: position{line: 2793, col: 5, offset: 88822},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88704},
+														pos: position{line: 2794, col: 9, offset: 88833},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2789, col: 9, offset: 88704},
+																pos:        position{line: 2794, col: 9, offset: 88833},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2790, col: 9, offset: 88753},
+																pos: position{line: 2795, col: 9, offset: 88882},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88833},
+													pos: position{line: 2799, col: 5, offset: 88962},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88844},
+														pos: position{line: 2800, col: 9, offset: 88973},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2795, col: 9, offset: 88844},
+																pos: position{line: 2800, col: 9, offset: 88973},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 9, offset: 88844},
+																	pos:        position{line: 2800, col: 9, offset: 88973},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47917,13 +48482,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2795, col: 23, offset: 88858},
+																pos:        position{line: 2800, col: 23, offset: 88987},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2795, col: 27, offset: 88862},
+																pos:        position{line: 2800, col: 27, offset: 88991},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47936,10 +48501,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 10, offset: 91401},
+										pos: position{line: 2918, col: 10, offset: 92369},
 										run: (*parser).callonAttributeStructuredValueElement23,
 										expr: &charClassMatcher{
-											pos:        position{line: 2886, col: 10, offset: 91401},
+											pos:        position{line: 2918, col: 10, offset: 92369},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -47947,31 +48512,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78321},
+										pos:  position{line: 2422, col: 11, offset: 78450},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 5, offset: 89055},
+										pos: position{line: 2808, col: 5, offset: 89184},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &choiceExpr{
-											pos: position{line: 2804, col: 9, offset: 89065},
+											pos: position{line: 2809, col: 9, offset: 89194},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2804, col: 10, offset: 89066},
+													pos:        position{line: 2809, col: 10, offset: 89195},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89163},
+													pos: position{line: 2811, col: 13, offset: 89292},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89163},
+															pos: position{line: 2811, col: 13, offset: 89292},
 															run: (*parser).callonAttributeStructuredValueElement30,
 														},
 														&litMatcher{
-															pos:        position{line: 2809, col: 13, offset: 89263},
+															pos:        position{line: 2814, col: 13, offset: 89392},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47979,20 +48544,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2809, col: 19, offset: 89269},
+													pos:        position{line: 2814, col: 19, offset: 89398},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89307},
+													pos: position{line: 2817, col: 13, offset: 89436},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89307},
+															pos: position{line: 2817, col: 13, offset: 89436},
 															run: (*parser).callonAttributeStructuredValueElement34,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89400},
+															pos:        position{line: 2820, col: 14, offset: 89529},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48001,18 +48566,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 12, offset: 89444},
+													pos: position{line: 2822, col: 12, offset: 89573},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2817, col: 12, offset: 89444},
+															pos:        position{line: 2822, col: 12, offset: 89573},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2817, col: 16, offset: 89448},
+															pos: position{line: 2822, col: 16, offset: 89577},
 															expr: &litMatcher{
-																pos:        position{line: 2817, col: 17, offset: 89449},
+																pos:        position{line: 2822, col: 17, offset: 89578},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48024,31 +48589,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78394},
+										pos:  position{line: 2424, col: 11, offset: 78523},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78410},
+										pos:  position{line: 2425, col: 11, offset: 78539},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 5, offset: 79918},
+										pos: position{line: 2488, col: 5, offset: 80047},
 										run: (*parser).callonAttributeStructuredValueElement42,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 5, offset: 79918},
+											pos: position{line: 2488, col: 5, offset: 80047},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2483, col: 5, offset: 79918},
+													pos: position{line: 2488, col: 5, offset: 80047},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&labeledExpr{
-													pos:   position{line: 2486, col: 5, offset: 79994},
+													pos:   position{line: 2491, col: 5, offset: 80123},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2487, col: 9, offset: 80012},
+														pos: position{line: 2492, col: 9, offset: 80141},
 														run: (*parser).callonAttributeStructuredValueElement46,
 														expr: &charClassMatcher{
-															pos:        position{line: 2487, col: 10, offset: 80013},
+															pos:        position{line: 2492, col: 10, offset: 80142},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48099,25 +48664,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2895, col: 12, offset: 91572},
+										pos: position{line: 2927, col: 12, offset: 92540},
 										run: (*parser).callonAttributeStructuredValueElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2895, col: 13, offset: 91573},
+											pos: position{line: 2927, col: 13, offset: 92541},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2895, col: 13, offset: 91573},
+													pos:        position{line: 2927, col: 13, offset: 92541},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 20, offset: 91580},
+													pos:        position{line: 2927, col: 20, offset: 92548},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2895, col: 29, offset: 91589},
+													pos:        position{line: 2927, col: 29, offset: 92557},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48126,10 +48691,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2825, col: 12, offset: 89709},
+										pos: position{line: 2830, col: 12, offset: 89838},
 										run: (*parser).callonAttributeStructuredValueElement61,
 										expr: &charClassMatcher{
-											pos:        position{line: 2825, col: 12, offset: 89709},
+											pos:        position{line: 2830, col: 12, offset: 89838},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48145,49 +48710,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2431, col: 1, offset: 78680},
+			pos:  position{line: 2436, col: 1, offset: 78809},
 			expr: &actionExpr{
-				pos: position{line: 2433, col: 5, offset: 78762},
+				pos: position{line: 2438, col: 5, offset: 78891},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2433, col: 5, offset: 78762},
+					pos: position{line: 2438, col: 5, offset: 78891},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2433, col: 5, offset: 78762},
+							pos: position{line: 2438, col: 5, offset: 78891},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2436, col: 5, offset: 78827},
+							pos:   position{line: 2441, col: 5, offset: 78956},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2437, col: 9, offset: 78845},
+								pos: position{line: 2442, col: 9, offset: 78974},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 9, offset: 78845},
+										pos:  position{line: 2442, col: 9, offset: 78974},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78866},
+										pos:  position{line: 2443, col: 11, offset: 78995},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78889},
+										pos:  position{line: 2444, col: 11, offset: 79018},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78905},
+										pos:  position{line: 2445, col: 11, offset: 79034},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2441, col: 11, offset: 78934},
+										pos:  position{line: 2446, col: 11, offset: 79063},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 11, offset: 78960},
+										pos:  position{line: 2447, col: 11, offset: 79089},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78986},
+										pos:  position{line: 2448, col: 11, offset: 79115},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -48206,12 +48771,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91053},
+														pos: position{line: 2903, col: 7, offset: 92021},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91053},
+															pos: position{line: 2903, col: 7, offset: 92021},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91053},
+																pos:        position{line: 2903, col: 7, offset: 92021},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48245,12 +48810,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 7, offset: 91053},
+														pos: position{line: 2903, col: 7, offset: 92021},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2871, col: 7, offset: 91053},
+															pos: position{line: 2903, col: 7, offset: 92021},
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 7, offset: 91053},
+																pos:        position{line: 2903, col: 7, offset: 92021},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48292,17 +48857,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41670},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2776, col: 13, offset: 88482},
+																		pos:        position{line: 2781, col: 13, offset: 88611},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2886, col: 10, offset: 91401},
+																		pos: position{line: 2918, col: 10, offset: 92369},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2886, col: 10, offset: 91401},
+																			pos:        position{line: 2918, col: 10, offset: 92369},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -48328,10 +48893,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41384},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48348,10 +48913,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41395},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48371,17 +48936,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2776, col: 13, offset: 88482},
+																							pos:        position{line: 2781, col: 13, offset: 88611},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48412,10 +48977,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41476},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48432,10 +48997,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41487},
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 10, offset: 91401},
+																			pos: position{line: 2918, col: 10, offset: 92369},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 10, offset: 91401},
+																				pos:        position{line: 2918, col: 10, offset: 92369},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48455,17 +49020,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2776, col: 13, offset: 88482},
+																							pos:        position{line: 2781, col: 13, offset: 88611},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2886, col: 10, offset: 91401},
+																							pos: position{line: 2918, col: 10, offset: 92369},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 10, offset: 91401},
+																								pos:        position{line: 2918, col: 10, offset: 92369},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48492,15 +49057,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79065},
+										pos:  position{line: 2451, col: 11, offset: 79194},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79085},
+										pos:  position{line: 2452, col: 11, offset: 79214},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79108},
+										pos:  position{line: 2453, col: 11, offset: 79237},
 										name: "InlineMenu",
 									},
 								},
@@ -48512,22 +49077,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2452, col: 1, offset: 79165},
+			pos:  position{line: 2457, col: 1, offset: 79294},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79253},
+				pos: position{line: 2459, col: 5, offset: 79382},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79253},
+					pos: position{line: 2459, col: 5, offset: 79382},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2454, col: 5, offset: 79253},
+							pos: position{line: 2459, col: 5, offset: 79382},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2457, col: 5, offset: 79330},
+							pos:   position{line: 2462, col: 5, offset: 79459},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2458, col: 9, offset: 79348},
+								pos: position{line: 2463, col: 9, offset: 79477},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44939},
@@ -48582,10 +49147,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45385},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 10, offset: 91401},
+																					pos: position{line: 2918, col: 10, offset: 92369},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2886, col: 10, offset: 91401},
+																						pos:        position{line: 2918, col: 10, offset: 92369},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -48596,25 +49161,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45392},
 																				expr: &actionExpr{
-																					pos: position{line: 2895, col: 12, offset: 91572},
+																					pos: position{line: 2927, col: 12, offset: 92540},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2895, col: 13, offset: 91573},
+																						pos: position{line: 2927, col: 13, offset: 92541},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 91573},
+																								pos:        position{line: 2927, col: 13, offset: 92541},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 20, offset: 91580},
+																								pos:        position{line: 2927, col: 20, offset: 92548},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2895, col: 29, offset: 91589},
+																								pos:        position{line: 2927, col: 29, offset: 92557},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48651,7 +49216,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88482},
+														pos:        position{line: 2781, col: 13, offset: 88611},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48697,10 +49262,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44494},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48711,25 +49276,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44501},
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48752,12 +49317,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44516},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 11, offset: 91462},
+																									pos: position{line: 2922, col: 11, offset: 92430},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2890, col: 11, offset: 91462},
+																										pos: position{line: 2922, col: 11, offset: 92430},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2890, col: 11, offset: 91462},
+																											pos:        position{line: 2922, col: 11, offset: 92430},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -48786,25 +49351,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44581},
 																						expr: &actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 91572},
+																							pos: position{line: 2927, col: 12, offset: 92540},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2895, col: 13, offset: 91573},
+																								pos: position{line: 2927, col: 13, offset: 92541},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 13, offset: 91573},
+																										pos:        position{line: 2927, col: 13, offset: 92541},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 20, offset: 91580},
+																										pos:        position{line: 2927, col: 20, offset: 92548},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2895, col: 29, offset: 91589},
+																										pos:        position{line: 2927, col: 29, offset: 92557},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -48831,10 +49396,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44741},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 10, offset: 91401},
+																				pos: position{line: 2918, col: 10, offset: 92369},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 10, offset: 91401},
+																					pos:        position{line: 2918, col: 10, offset: 92369},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -48845,25 +49410,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44748},
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 91572},
+																				pos: position{line: 2927, col: 12, offset: 92540},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 13, offset: 91573},
+																					pos: position{line: 2927, col: 13, offset: 92541},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 13, offset: 91573},
+																							pos:        position{line: 2927, col: 13, offset: 92541},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 20, offset: 91580},
+																							pos:        position{line: 2927, col: 20, offset: 92548},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2895, col: 29, offset: 91589},
+																							pos:        position{line: 2927, col: 29, offset: 92557},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -48899,7 +49464,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44317},
 													expr: &charClassMatcher{
-														pos:        position{line: 2776, col: 13, offset: 88482},
+														pos:        position{line: 2781, col: 13, offset: 88611},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -48910,7 +49475,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2458, col: 57, offset: 79396},
+										pos:  position{line: 2463, col: 57, offset: 79525},
 										name: "PassthroughMacro",
 									},
 								},
@@ -48922,16 +49487,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2463, col: 1, offset: 79456},
+			pos:  position{line: 2468, col: 1, offset: 79585},
 			expr: &seqExpr{
-				pos: position{line: 2465, col: 5, offset: 79532},
+				pos: position{line: 2470, col: 5, offset: 79661},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2465, col: 5, offset: 79532},
+						pos: position{line: 2470, col: 5, offset: 79661},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2468, col: 5, offset: 79597},
+						pos:  position{line: 2473, col: 5, offset: 79726},
 						name: "QuotedText",
 					},
 				},
@@ -48939,22 +49504,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2470, col: 1, offset: 79610},
+			pos:  position{line: 2475, col: 1, offset: 79739},
 			expr: &actionExpr{
-				pos: position{line: 2472, col: 5, offset: 79692},
+				pos: position{line: 2477, col: 5, offset: 79821},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2472, col: 5, offset: 79692},
+					pos: position{line: 2477, col: 5, offset: 79821},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2472, col: 5, offset: 79692},
+							pos: position{line: 2477, col: 5, offset: 79821},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2475, col: 5, offset: 79763},
+							pos:   position{line: 2480, col: 5, offset: 79892},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2476, col: 9, offset: 79781},
+								pos:  position{line: 2481, col: 9, offset: 79910},
 								name: "Symbol",
 							},
 						},
@@ -48964,103 +49529,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2531, col: 1, offset: 81540},
+			pos:  position{line: 2536, col: 1, offset: 81669},
 			expr: &choiceExpr{
-				pos: position{line: 2533, col: 5, offset: 81570},
+				pos: position{line: 2538, col: 5, offset: 81699},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2533, col: 5, offset: 81570},
+						pos: position{line: 2538, col: 5, offset: 81699},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 5, offset: 81570},
+							pos: position{line: 2538, col: 5, offset: 81699},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81570},
+									pos:        position{line: 2538, col: 5, offset: 81699},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2533, col: 10, offset: 81575},
+									pos: position{line: 2538, col: 10, offset: 81704},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2533, col: 10, offset: 81575},
+											pos:  position{line: 2538, col: 10, offset: 81704},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 14, offset: 82679},
+											pos: position{line: 2567, col: 14, offset: 82808},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2562, col: 14, offset: 82679},
+												pos:        position{line: 2567, col: 14, offset: 82808},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 14, offset: 82745},
+											pos: position{line: 2571, col: 14, offset: 82874},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2566, col: 14, offset: 82745},
+												pos:        position{line: 2571, col: 14, offset: 82874},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 15, offset: 82814},
+											pos: position{line: 2575, col: 15, offset: 82943},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2570, col: 15, offset: 82814},
+												pos:        position{line: 2575, col: 15, offset: 82943},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2574, col: 13, offset: 82879},
+											pos: position{line: 2579, col: 13, offset: 83008},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2574, col: 13, offset: 82879},
+												pos:        position{line: 2579, col: 13, offset: 83008},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 21, offset: 83449},
+											pos: position{line: 2607, col: 21, offset: 83578},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2602, col: 21, offset: 83449},
+												pos:        position{line: 2607, col: 21, offset: 83578},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 83035},
+											pos: position{line: 2586, col: 5, offset: 83164},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 83035},
+												pos: position{line: 2586, col: 5, offset: 83164},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 83035},
+														pos:        position{line: 2586, col: 5, offset: 83164},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 83045},
+														pos: position{line: 2587, col: 5, offset: 83174},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2586, col: 6, offset: 83132},
+														pos: position{line: 2591, col: 6, offset: 83261},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 10, offset: 91401},
+																pos: position{line: 2918, col: 10, offset: 92369},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2886, col: 10, offset: 91401},
+																	pos:        position{line: 2918, col: 10, offset: 92369},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49068,30 +49633,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2586, col: 14, offset: 83140},
+																pos: position{line: 2591, col: 14, offset: 83269},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 8, offset: 91799},
+																	pos: position{line: 2940, col: 8, offset: 92767},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2895, col: 12, offset: 91572},
+																			pos: position{line: 2927, col: 12, offset: 92540},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2895, col: 13, offset: 91573},
+																				pos: position{line: 2927, col: 13, offset: 92541},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 91573},
+																						pos:        position{line: 2927, col: 13, offset: 92541},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 20, offset: 91580},
+																						pos:        position{line: 2927, col: 20, offset: 92548},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2895, col: 29, offset: 91589},
+																						pos:        position{line: 2927, col: 29, offset: 92557},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49100,9 +49665,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2905, col: 8, offset: 91749},
+																			pos: position{line: 2937, col: 8, offset: 92717},
 																			expr: &anyMatcher{
-																				line: 2905, col: 9, offset: 91750,
+																				line: 2937, col: 9, offset: 92718,
 																			},
 																		},
 																	},
@@ -49114,53 +49679,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 5, offset: 83260},
+											pos: position{line: 2596, col: 5, offset: 83389},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2591, col: 5, offset: 83260},
+												pos: position{line: 2596, col: 5, offset: 83389},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2591, col: 5, offset: 83260},
+														pos:        position{line: 2596, col: 5, offset: 83389},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2592, col: 5, offset: 83270},
+														pos: position{line: 2597, col: 5, offset: 83399},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2596, col: 5, offset: 83359},
+														pos: position{line: 2601, col: 5, offset: 83488},
 														expr: &choiceExpr{
-															pos: position{line: 2596, col: 7, offset: 83361},
+															pos: position{line: 2601, col: 7, offset: 83490},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2776, col: 13, offset: 88482},
+																	pos:        position{line: 2781, col: 13, offset: 88611},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2895, col: 12, offset: 91572},
+																	pos: position{line: 2927, col: 12, offset: 92540},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2895, col: 13, offset: 91573},
+																		pos: position{line: 2927, col: 13, offset: 92541},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 91573},
+																				pos:        position{line: 2927, col: 13, offset: 92541},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 20, offset: 91580},
+																				pos:        position{line: 2927, col: 20, offset: 92548},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2895, col: 29, offset: 91589},
+																				pos:        position{line: 2927, col: 29, offset: 92557},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49169,9 +49734,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -49181,30 +49746,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 20, offset: 83519},
+											pos: position{line: 2611, col: 20, offset: 83648},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2606, col: 20, offset: 83519},
+												pos:        position{line: 2611, col: 20, offset: 83648},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 21, offset: 83590},
+											pos: position{line: 2615, col: 21, offset: 83719},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2610, col: 21, offset: 83590},
+												pos:        position{line: 2615, col: 21, offset: 83719},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 20, offset: 83660},
+											pos: position{line: 2619, col: 20, offset: 83789},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2614, col: 20, offset: 83660},
+												pos:        position{line: 2619, col: 20, offset: 83789},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -49216,73 +49781,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2537, col: 7, offset: 81830},
+						pos:  position{line: 2542, col: 7, offset: 81959},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 14, offset: 82679},
+						pos: position{line: 2567, col: 14, offset: 82808},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2562, col: 14, offset: 82679},
+							pos:        position{line: 2567, col: 14, offset: 82808},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 14, offset: 82745},
+						pos: position{line: 2571, col: 14, offset: 82874},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2566, col: 14, offset: 82745},
+							pos:        position{line: 2571, col: 14, offset: 82874},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 15, offset: 82814},
+						pos: position{line: 2575, col: 15, offset: 82943},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2570, col: 15, offset: 82814},
+							pos:        position{line: 2575, col: 15, offset: 82943},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 13, offset: 82879},
+						pos: position{line: 2579, col: 13, offset: 83008},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2574, col: 13, offset: 82879},
+							pos:        position{line: 2579, col: 13, offset: 83008},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 83035},
+						pos: position{line: 2586, col: 5, offset: 83164},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 83035},
+							pos: position{line: 2586, col: 5, offset: 83164},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 83035},
+									pos:        position{line: 2586, col: 5, offset: 83164},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 83045},
+									pos: position{line: 2587, col: 5, offset: 83174},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2586, col: 6, offset: 83132},
+									pos: position{line: 2591, col: 6, offset: 83261},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2886, col: 10, offset: 91401},
+											pos: position{line: 2918, col: 10, offset: 92369},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2886, col: 10, offset: 91401},
+												pos:        position{line: 2918, col: 10, offset: 92369},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -49290,30 +49855,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2586, col: 14, offset: 83140},
+											pos: position{line: 2591, col: 14, offset: 83269},
 											expr: &choiceExpr{
-												pos: position{line: 2908, col: 8, offset: 91799},
+												pos: position{line: 2940, col: 8, offset: 92767},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2895, col: 12, offset: 91572},
+														pos: position{line: 2927, col: 12, offset: 92540},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2895, col: 13, offset: 91573},
+															pos: position{line: 2927, col: 13, offset: 92541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2895, col: 13, offset: 91573},
+																	pos:        position{line: 2927, col: 13, offset: 92541},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 20, offset: 91580},
+																	pos:        position{line: 2927, col: 20, offset: 92548},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2895, col: 29, offset: 91589},
+																	pos:        position{line: 2927, col: 29, offset: 92557},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -49322,9 +49887,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2905, col: 8, offset: 91749},
+														pos: position{line: 2937, col: 8, offset: 92717},
 														expr: &anyMatcher{
-															line: 2905, col: 9, offset: 91750,
+															line: 2937, col: 9, offset: 92718,
 														},
 													},
 												},
@@ -49336,53 +49901,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 83260},
+						pos: position{line: 2596, col: 5, offset: 83389},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 83260},
+							pos: position{line: 2596, col: 5, offset: 83389},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 83260},
+									pos:        position{line: 2596, col: 5, offset: 83389},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2592, col: 5, offset: 83270},
+									pos: position{line: 2597, col: 5, offset: 83399},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2596, col: 5, offset: 83359},
+									pos: position{line: 2601, col: 5, offset: 83488},
 									expr: &choiceExpr{
-										pos: position{line: 2596, col: 7, offset: 83361},
+										pos: position{line: 2601, col: 7, offset: 83490},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2776, col: 13, offset: 88482},
+												pos:        position{line: 2781, col: 13, offset: 88611},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2895, col: 12, offset: 91572},
+												pos: position{line: 2927, col: 12, offset: 92540},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2895, col: 13, offset: 91573},
+													pos: position{line: 2927, col: 13, offset: 92541},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2895, col: 13, offset: 91573},
+															pos:        position{line: 2927, col: 13, offset: 92541},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 20, offset: 91580},
+															pos:        position{line: 2927, col: 20, offset: 92548},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2895, col: 29, offset: 91589},
+															pos:        position{line: 2927, col: 29, offset: 92557},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -49391,9 +49956,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2905, col: 8, offset: 91749},
+												pos: position{line: 2937, col: 8, offset: 92717},
 												expr: &anyMatcher{
-													line: 2905, col: 9, offset: 91750,
+													line: 2937, col: 9, offset: 92718,
 												},
 											},
 										},
@@ -49403,40 +49968,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 21, offset: 83449},
+						pos: position{line: 2607, col: 21, offset: 83578},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 21, offset: 83449},
+							pos:        position{line: 2607, col: 21, offset: 83578},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 20, offset: 83519},
+						pos: position{line: 2611, col: 20, offset: 83648},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 20, offset: 83519},
+							pos:        position{line: 2611, col: 20, offset: 83648},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 21, offset: 83590},
+						pos: position{line: 2615, col: 21, offset: 83719},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2610, col: 21, offset: 83590},
+							pos:        position{line: 2615, col: 21, offset: 83719},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 20, offset: 83660},
+						pos: position{line: 2619, col: 20, offset: 83789},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2614, col: 20, offset: 83660},
+							pos:        position{line: 2619, col: 20, offset: 83789},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -49447,43 +50012,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2548, col: 1, offset: 82020},
+			pos:  position{line: 2553, col: 1, offset: 82149},
 			expr: &choiceExpr{
-				pos: position{line: 2549, col: 5, offset: 82042},
+				pos: position{line: 2554, col: 5, offset: 82171},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82042},
+						pos: position{line: 2554, col: 5, offset: 82171},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82042},
+							pos: position{line: 2554, col: 5, offset: 82171},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 5, offset: 82042},
+									pos:        position{line: 2554, col: 5, offset: 82171},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 11, offset: 82048},
+									pos: position{line: 2554, col: 11, offset: 82177},
 									expr: &seqExpr{
-										pos: position{line: 2112, col: 5, offset: 68252},
+										pos: position{line: 2117, col: 5, offset: 68381},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2112, col: 5, offset: 68252},
+												pos:        position{line: 2117, col: 5, offset: 68381},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2113, col: 5, offset: 68261},
+												pos: position{line: 2118, col: 5, offset: 68390},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2117, col: 5, offset: 68384},
+												pos: position{line: 2122, col: 5, offset: 68513},
 												expr: &notExpr{
-													pos: position{line: 2117, col: 7, offset: 68386},
+													pos: position{line: 2122, col: 7, offset: 68515},
 													expr: &litMatcher{
-														pos:        position{line: 2117, col: 8, offset: 68387},
+														pos:        position{line: 2122, col: 8, offset: 68516},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49497,21 +50062,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 7, offset: 82201},
+						pos: position{line: 2557, col: 7, offset: 82330},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 7, offset: 82201},
+							pos: position{line: 2557, col: 7, offset: 82330},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 7, offset: 82201},
+									pos:        position{line: 2557, col: 7, offset: 82330},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2552, col: 13, offset: 82207},
+									pos: position{line: 2557, col: 13, offset: 82336},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2552, col: 14, offset: 82208},
+										pos:  position{line: 2557, col: 14, offset: 82337},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49519,38 +50084,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 7, offset: 82358},
+						pos: position{line: 2560, col: 7, offset: 82487},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 7, offset: 82358},
+							pos: position{line: 2560, col: 7, offset: 82487},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 7, offset: 82358},
+									pos:        position{line: 2560, col: 7, offset: 82487},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2555, col: 12, offset: 82363},
+									pos: position{line: 2560, col: 12, offset: 82492},
 									expr: &seqExpr{
-										pos: position{line: 2112, col: 5, offset: 68252},
+										pos: position{line: 2117, col: 5, offset: 68381},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2112, col: 5, offset: 68252},
+												pos:        position{line: 2117, col: 5, offset: 68381},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2113, col: 5, offset: 68261},
+												pos: position{line: 2118, col: 5, offset: 68390},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2117, col: 5, offset: 68384},
+												pos: position{line: 2122, col: 5, offset: 68513},
 												expr: &notExpr{
-													pos: position{line: 2117, col: 7, offset: 68386},
+													pos: position{line: 2122, col: 7, offset: 68515},
 													expr: &litMatcher{
-														pos:        position{line: 2117, col: 8, offset: 68387},
+														pos:        position{line: 2122, col: 8, offset: 68516},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -49564,21 +50129,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 7, offset: 82516},
+						pos: position{line: 2563, col: 7, offset: 82645},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 7, offset: 82516},
+							pos: position{line: 2563, col: 7, offset: 82645},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 7, offset: 82516},
+									pos:        position{line: 2563, col: 7, offset: 82645},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2558, col: 12, offset: 82521},
+									pos: position{line: 2563, col: 12, offset: 82650},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2558, col: 13, offset: 82522},
+										pos:  position{line: 2563, col: 13, offset: 82651},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -49590,63 +50155,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2691, col: 1, offset: 85562},
+			pos:  position{line: 2696, col: 1, offset: 85691},
 			expr: &actionExpr{
-				pos: position{line: 2691, col: 26, offset: 85587},
+				pos: position{line: 2696, col: 26, offset: 85716},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2691, col: 26, offset: 85587},
+					pos: position{line: 2696, col: 26, offset: 85716},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2691, col: 26, offset: 85587},
+							pos:   position{line: 2696, col: 26, offset: 85716},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2691, col: 31, offset: 85592},
+								pos: position{line: 2696, col: 31, offset: 85721},
 								expr: &actionExpr{
-									pos: position{line: 2696, col: 5, offset: 85655},
+									pos: position{line: 2701, col: 5, offset: 85784},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2696, col: 5, offset: 85655},
+										pos: position{line: 2701, col: 5, offset: 85784},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2903, col: 11, offset: 91735},
+												pos: position{line: 2935, col: 11, offset: 92703},
 												expr: &anyMatcher{
-													line: 2903, col: 13, offset: 91737,
+													line: 2935, col: 13, offset: 92705,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85781},
+												pos:   position{line: 2704, col: 5, offset: 85910},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 16, offset: 85792},
+													pos: position{line: 2704, col: 16, offset: 85921},
 													expr: &actionExpr{
-														pos: position{line: 2699, col: 17, offset: 85793},
+														pos: position{line: 2704, col: 17, offset: 85922},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2699, col: 17, offset: 85793},
+															pos: position{line: 2704, col: 17, offset: 85922},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2699, col: 17, offset: 85793},
+																	pos:   position{line: 2704, col: 17, offset: 85922},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 12, offset: 91228},
+																		pos: position{line: 2910, col: 12, offset: 92196},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2878, col: 13, offset: 91229},
+																			pos: position{line: 2910, col: 13, offset: 92197},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2878, col: 13, offset: 91229},
+																					pos: position{line: 2910, col: 13, offset: 92197},
 																					expr: &litMatcher{
-																						pos:        position{line: 2878, col: 13, offset: 91229},
+																						pos:        position{line: 2910, col: 13, offset: 92197},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2878, col: 18, offset: 91234},
+																					pos: position{line: 2910, col: 18, offset: 92202},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 18, offset: 91234},
+																						pos:        position{line: 2910, col: 18, offset: 92202},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -49658,7 +50223,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2699, col: 27, offset: 85803},
+																	pos:        position{line: 2704, col: 27, offset: 85932},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -49669,38 +50234,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85831},
+												pos:   position{line: 2705, col: 5, offset: 85960},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85838},
+													pos: position{line: 2705, col: 12, offset: 85967},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 9, offset: 85848},
+														pos: position{line: 2706, col: 9, offset: 85977},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2701, col: 9, offset: 85848},
+																pos: position{line: 2706, col: 9, offset: 85977},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 9, offset: 85848},
+																	pos:        position{line: 2706, col: 9, offset: 85977},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2702, col: 11, offset: 85895},
+																pos: position{line: 2707, col: 11, offset: 86024},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2702, col: 11, offset: 85895},
+																	pos:        position{line: 2707, col: 11, offset: 86024},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2703, col: 11, offset: 85943},
+																pos: position{line: 2708, col: 11, offset: 86072},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2703, col: 11, offset: 85943},
+																	pos:        position{line: 2708, col: 11, offset: 86072},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -49711,38 +50276,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 85993},
+												pos:   position{line: 2710, col: 5, offset: 86122},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 12, offset: 86000},
+													pos: position{line: 2710, col: 12, offset: 86129},
 													expr: &choiceExpr{
-														pos: position{line: 2706, col: 9, offset: 86010},
+														pos: position{line: 2711, col: 9, offset: 86139},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2706, col: 9, offset: 86010},
+																pos: position{line: 2711, col: 9, offset: 86139},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2706, col: 9, offset: 86010},
+																	pos:        position{line: 2711, col: 9, offset: 86139},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2707, col: 11, offset: 86057},
+																pos: position{line: 2712, col: 11, offset: 86186},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 11, offset: 86057},
+																	pos:        position{line: 2712, col: 11, offset: 86186},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2708, col: 11, offset: 86107},
+																pos: position{line: 2713, col: 11, offset: 86236},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 11, offset: 86107},
+																	pos:        position{line: 2713, col: 11, offset: 86236},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -49753,32 +50318,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86158},
+												pos:   position{line: 2715, col: 5, offset: 86287},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 12, offset: 86165},
+													pos: position{line: 2715, col: 12, offset: 86294},
 													expr: &choiceExpr{
-														pos: position{line: 2710, col: 13, offset: 86166},
+														pos: position{line: 2715, col: 13, offset: 86295},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2878, col: 12, offset: 91228},
+																pos: position{line: 2910, col: 12, offset: 92196},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2878, col: 13, offset: 91229},
+																	pos: position{line: 2910, col: 13, offset: 92197},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2878, col: 13, offset: 91229},
+																			pos: position{line: 2910, col: 13, offset: 92197},
 																			expr: &litMatcher{
-																				pos:        position{line: 2878, col: 13, offset: 91229},
+																				pos:        position{line: 2910, col: 13, offset: 92197},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2878, col: 18, offset: 91234},
+																			pos: position{line: 2910, col: 18, offset: 92202},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 18, offset: 91234},
+																				pos:        position{line: 2910, col: 18, offset: 92202},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -49789,10 +50354,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2710, col: 24, offset: 86177},
+																pos: position{line: 2715, col: 24, offset: 86306},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2710, col: 24, offset: 86177},
+																	pos:        position{line: 2715, col: 24, offset: 86306},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -49803,15 +50368,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2711, col: 5, offset: 86219},
+												pos:   position{line: 2716, col: 5, offset: 86348},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2711, col: 11, offset: 86225},
+													pos: position{line: 2716, col: 11, offset: 86354},
 													expr: &actionExpr{
-														pos: position{line: 2711, col: 12, offset: 86226},
+														pos: position{line: 2716, col: 12, offset: 86355},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2711, col: 12, offset: 86226},
+															pos:        position{line: 2716, col: 12, offset: 86355},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -49821,12 +50386,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2713, col: 5, offset: 86356},
+												pos:   position{line: 2718, col: 5, offset: 86485},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2713, col: 11, offset: 86362},
+													pos: position{line: 2718, col: 11, offset: 86491},
 													expr: &litMatcher{
-														pos:        position{line: 2713, col: 12, offset: 86363},
+														pos:        position{line: 2718, col: 12, offset: 86492},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -49834,7 +50399,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2714, col: 5, offset: 86373},
+												pos: position{line: 2719, col: 5, offset: 86502},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -49843,9 +50408,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2905, col: 8, offset: 91749},
+							pos: position{line: 2937, col: 8, offset: 92717},
 							expr: &anyMatcher{
-								line: 2905, col: 9, offset: 91750,
+								line: 2937, col: 9, offset: 92718,
 							},
 						},
 					},
@@ -49854,23 +50419,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2741, col: 1, offset: 87382},
+			pos:  position{line: 2746, col: 1, offset: 87511},
 			expr: &actionExpr{
-				pos: position{line: 2742, col: 5, offset: 87405},
+				pos: position{line: 2747, col: 5, offset: 87534},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2742, col: 5, offset: 87405},
+					pos: position{line: 2747, col: 5, offset: 87534},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87405},
+							pos:   position{line: 2747, col: 5, offset: 87534},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2765, col: 18, offset: 88146},
+								pos: position{line: 2770, col: 18, offset: 88275},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2765, col: 19, offset: 88147},
+									pos: position{line: 2770, col: 19, offset: 88276},
 									expr: &charClassMatcher{
-										pos:        position{line: 2765, col: 19, offset: 88147},
+										pos:        position{line: 2770, col: 19, offset: 88276},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49881,25 +50446,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2743, col: 5, offset: 87431},
+							pos: position{line: 2748, col: 5, offset: 87560},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2747, col: 5, offset: 87559},
+							pos:        position{line: 2752, col: 5, offset: 87688},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87569},
+							pos:   position{line: 2753, col: 5, offset: 87698},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2769, col: 19, offset: 88222},
+								pos: position{line: 2774, col: 19, offset: 88351},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2769, col: 19, offset: 88222},
+									pos: position{line: 2774, col: 19, offset: 88351},
 									expr: &charClassMatcher{
-										pos:        position{line: 2769, col: 19, offset: 88222},
+										pos:        position{line: 2774, col: 19, offset: 88351},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49909,36 +50474,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87597},
+							pos:   position{line: 2754, col: 5, offset: 87726},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2749, col: 17, offset: 87609},
+								pos:  position{line: 2754, col: 17, offset: 87738},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2908, col: 8, offset: 91799},
+							pos: position{line: 2940, col: 8, offset: 92767},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2895, col: 12, offset: 91572},
+									pos: position{line: 2927, col: 12, offset: 92540},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2895, col: 13, offset: 91573},
+										pos: position{line: 2927, col: 13, offset: 92541},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2895, col: 13, offset: 91573},
+												pos:        position{line: 2927, col: 13, offset: 92541},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 20, offset: 91580},
+												pos:        position{line: 2927, col: 20, offset: 92548},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2895, col: 29, offset: 91589},
+												pos:        position{line: 2927, col: 29, offset: 92557},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -49947,9 +50512,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 8, offset: 91749},
+									pos: position{line: 2937, col: 8, offset: 92717},
 									expr: &anyMatcher{
-										line: 2905, col: 9, offset: 91750,
+										line: 2937, col: 9, offset: 92718,
 									},
 								},
 							},
@@ -49960,23 +50525,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2753, col: 1, offset: 87757},
+			pos:  position{line: 2758, col: 1, offset: 87886},
 			expr: &actionExpr{
-				pos: position{line: 2754, col: 5, offset: 87781},
+				pos: position{line: 2759, col: 5, offset: 87910},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2754, col: 5, offset: 87781},
+					pos: position{line: 2759, col: 5, offset: 87910},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87781},
+							pos:   position{line: 2759, col: 5, offset: 87910},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2765, col: 18, offset: 88146},
+								pos: position{line: 2770, col: 18, offset: 88275},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2765, col: 19, offset: 88147},
+									pos: position{line: 2770, col: 19, offset: 88276},
 									expr: &charClassMatcher{
-										pos:        position{line: 2765, col: 19, offset: 88147},
+										pos:        position{line: 2770, col: 19, offset: 88276},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49987,25 +50552,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2755, col: 5, offset: 87807},
+							pos: position{line: 2760, col: 5, offset: 87936},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2759, col: 5, offset: 87935},
+							pos:        position{line: 2764, col: 5, offset: 88064},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2760, col: 5, offset: 87944},
+							pos:   position{line: 2765, col: 5, offset: 88073},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2769, col: 19, offset: 88222},
+								pos: position{line: 2774, col: 19, offset: 88351},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2769, col: 19, offset: 88222},
+									pos: position{line: 2774, col: 19, offset: 88351},
 									expr: &charClassMatcher{
-										pos:        position{line: 2769, col: 19, offset: 88222},
+										pos:        position{line: 2774, col: 19, offset: 88351},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -50015,10 +50580,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2761, col: 5, offset: 87972},
+							pos:   position{line: 2766, col: 5, offset: 88101},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2761, col: 17, offset: 87984},
+								pos:  position{line: 2766, col: 17, offset: 88113},
 								name: "InlineAttributes",
 							},
 						},
@@ -50028,43 +50593,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2840, col: 1, offset: 90048},
+			pos:  position{line: 2845, col: 1, offset: 90177},
 			expr: &actionExpr{
-				pos: position{line: 2840, col: 17, offset: 90064},
+				pos: position{line: 2845, col: 17, offset: 90193},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2840, col: 17, offset: 90064},
+					pos:   position{line: 2845, col: 17, offset: 90193},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2857, col: 5, offset: 90518},
+						pos: position{line: 2866, col: 5, offset: 90778},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2857, col: 5, offset: 90518},
+							pos:   position{line: 2866, col: 5, offset: 90778},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2857, col: 14, offset: 90527},
+								pos: position{line: 2866, col: 14, offset: 90787},
 								expr: &choiceExpr{
-									pos: position{line: 2858, col: 9, offset: 90537},
+									pos: position{line: 2867, col: 9, offset: 90797},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2858, col: 9, offset: 90537},
+											pos: position{line: 2867, col: 9, offset: 90797},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2858, col: 9, offset: 90537},
+												pos: position{line: 2867, col: 9, offset: 90797},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2858, col: 9, offset: 90537},
+														pos: position{line: 2867, col: 9, offset: 90797},
 														expr: &litMatcher{
-															pos:        position{line: 2858, col: 10, offset: 90538},
+															pos:        position{line: 2867, col: 10, offset: 90798},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2859, col: 9, offset: 90566},
+														pos: position{line: 2868, col: 9, offset: 90826},
 														expr: &charClassMatcher{
-															pos:        position{line: 2859, col: 10, offset: 90567},
+															pos:        position{line: 2868, col: 10, offset: 90827},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50075,27 +50640,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2862, col: 11, offset: 90779},
+											pos: position{line: 2871, col: 11, offset: 91039},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2862, col: 11, offset: 90779},
+													pos:        position{line: 2871, col: 11, offset: 91039},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2862, col: 19, offset: 90787},
+													pos: position{line: 2871, col: 19, offset: 91047},
 													expr: &seqExpr{
-														pos: position{line: 2862, col: 21, offset: 90789},
+														pos: position{line: 2871, col: 21, offset: 91049},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2862, col: 21, offset: 90789},
+																pos: position{line: 2871, col: 21, offset: 91049},
 																expr: &actionExpr{
-																	pos: position{line: 2886, col: 10, offset: 91401},
+																	pos: position{line: 2918, col: 10, offset: 92369},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2886, col: 10, offset: 91401},
+																		pos:        position{line: 2918, col: 10, offset: 92369},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50104,11 +50669,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2862, col: 28, offset: 90796},
+																pos: position{line: 2871, col: 28, offset: 91056},
 																expr: &notExpr{
-																	pos: position{line: 2905, col: 8, offset: 91749},
+																	pos: position{line: 2937, col: 8, offset: 92717},
 																	expr: &anyMatcher{
-																		line: 2905, col: 9, offset: 91750,
+																		line: 2937, col: 9, offset: 92718,
 																	},
 																},
 															},
@@ -50503,10 +51068,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2865, col: 11, offset: 90916},
+											pos: position{line: 2874, col: 11, offset: 91176},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2865, col: 11, offset: 90916},
+												pos:        position{line: 2874, col: 11, offset: 91176},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -63514,6 +64079,303 @@ func (p *parser) callonExternalLink121() (interface{}, error) {
 	return p.cur.onExternalLink121(stack["url"], stack["attributes"])
 }
 
+func (c *current) onExternalLink245() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonExternalLink245() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink245()
+}
+
+func (c *current) onExternalLink257() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink257() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink257()
+}
+
+func (c *current) onExternalLink260() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink260() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink260()
+}
+
+func (c *current) onExternalLink266() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink266() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink266()
+}
+
+func (c *current) onExternalLink268() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink268() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink268()
+}
+
+func (c *current) onExternalLink276() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
+
+}
+
+func (p *parser) callonExternalLink276() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink276()
+}
+
+func (c *current) onExternalLink283() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink283() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink283()
+}
+
+func (c *current) onExternalLink279(name interface{}) (interface{}, error) {
+
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+
+}
+
+func (p *parser) callonExternalLink279() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink279(stack["name"])
+}
+
+func (c *current) onExternalLink293() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink293() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink293()
+}
+
+func (c *current) onExternalLink289(name interface{}) (interface{}, error) {
+
+	return types.NewAttributeReference(name.(string), string(c.text))
+
+}
+
+func (p *parser) callonExternalLink289() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink289(stack["name"])
+}
+
+func (c *current) onExternalLink303() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink303() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink303()
+}
+
+func (c *current) onExternalLink315() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink315() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink315()
+}
+
+func (c *current) onExternalLink317() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonExternalLink317() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink317()
+}
+
+func (c *current) onExternalLink310(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonExternalLink310() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink310(stack["start"])
+}
+
+func (c *current) onExternalLink299(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
+func (p *parser) callonExternalLink299() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink299(stack["name"], stack["start"])
+}
+
+func (c *current) onExternalLink325() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink325() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink325()
+}
+
+func (c *current) onExternalLink337() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink337() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink337()
+}
+
+func (c *current) onExternalLink339() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonExternalLink339() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink339()
+}
+
+func (c *current) onExternalLink332(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonExternalLink332() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink332(stack["start"])
+}
+
+func (c *current) onExternalLink321(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonExternalLink321() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink321(stack["name"], stack["start"])
+}
+
+func (c *current) onExternalLink274(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonExternalLink274() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink274(stack["element"])
+}
+
+func (c *current) onExternalLink347() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonExternalLink347() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink347()
+}
+
+func (c *current) onExternalLink343(ref interface{}) (interface{}, error) {
+	return c.resolveElementPlaceHolder(ref.(string))
+}
+
+func (p *parser) callonExternalLink343() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink343(stack["ref"])
+}
+
+func (c *current) onExternalLink351() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonExternalLink351() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink351()
+}
+
+func (c *current) onExternalLink253(elements interface{}) (interface{}, error) {
+	return types.NewInlineElements(elements.([]interface{}))
+
+}
+
+func (p *parser) callonExternalLink253() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink253(stack["elements"])
+}
+
+func (c *current) onExternalLink240(scheme, path interface{}) (interface{}, error) {
+	return types.NewLocation(scheme, path.([]interface{}))
+}
+
+func (p *parser) callonExternalLink240() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink240(stack["scheme"], stack["path"])
+}
+
+func (c *current) onExternalLink238(url interface{}) (interface{}, error) {
+	return types.NewInlineLink(url.(*types.Location), nil)
+
+}
+
+func (p *parser) callonExternalLink238() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink238(stack["url"])
+}
+
 func (c *current) onListElements11() (interface{}, error) {
 
 	return string(c.text), nil
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index c7daa74..5da9888 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1466,9 +1466,14 @@ ExternalLink <-
     }
     /
     // unescaped
-    url:(LocationWithScheme) attributes:(InlineAttributes)? {
+    url:(LocationWithScheme) attributes:(InlineAttributes) {
         return types.NewInlineLink(url.(*types.Location), attributes)
     }
+    /
+    // without text
+    url:(BareLocationWithScheme) {
+        return types.NewInlineLink(url.(*types.Location), nil)
+    }
 
 EmailAddress <- local:(EmailAddressLocal) "@" domain:(EmailAddressDomain) {
     return types.NewEmailAddressLink(local.(string) +"@" + domain.(string))
@@ -2849,6 +2854,10 @@ LocationWithScheme <- !"[" scheme:(Scheme) path:(Filename) {
         return types.NewLocation(scheme, path.([]interface{}))
     }
 
+BareLocationWithScheme <- !"[" scheme:(Scheme) path:(BareFilename) {
+    return types.NewLocation(scheme, path.([]interface{}))
+}
+
 Scheme <- ("http://" / "https://" / "ftp://" / "irc://" / "mailto:") {
     return string(c.text), nil
 }
@@ -2868,6 +2877,29 @@ Filename <-
         return types.NewInlineElements(elements.([]interface{}))
     }
 
+// same as Filename, but without the punctuation at the end (even if followed by other characters which are not part of the filename)
+BareFilename <- 
+    elements:(
+        ([^\r\n[\]\uFFFD{,;?!.()<> ])+ {
+            return string(c.text), nil
+        }
+        / "(" [^\r\n[\]\uFFFD{()<> ]* ")" {
+            return string(c.text), nil
+        }
+        / "(" {
+            return string(c.text), nil
+        }
+        / [,;?!.)]+ &([^\r\n[\],;?!.)<> ]) {
+            return string(c.text), nil
+        }
+        / AttributeReference 
+        / ElementPlaceHolder
+        / "{" {
+            return string(c.text), nil
+        })+ {
+        return types.NewInlineElements(elements.([]interface{}))
+    }
+
 Id <- [^[\]<>,]+ { // previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
         return string(c.text), nil
     }
-- 
2.43.0


From c6f62eb25ad3b2aa5060bfa836cf3829ec67c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:12 +0000
Subject: [PATCH 083/117] fix: keep the markup in the texts of links whose URL
 is in an attribute

---
 ...document_processing_apply_substitutions.go | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5446240..4bf5c00 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -903,6 +904,10 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
 			elements[i] = p.elements[e.Ref]
+		case *types.InlineLink:
+			if text, ok := e.Attributes[types.AttrInlineLinkText].(string); ok {
+				e.Attributes[types.AttrInlineLinkText] = p.restoreInText(text)
+			}
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
@@ -916,6 +921,30 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	return elements, nil
 }
 
+var placeholderInText = regexp.MustCompile("\uFFFD([0-9]+)\uFFFD")
+
+// replace the placeholders with their original element in the given text
+func (p *placeholders) restoreInText(text string) interface{} {
+	result := []interface{}{}
+	start := 0
+	for _, m := range placeholderInText.FindAllStringSubmatchIndex(text, -1) {
+		if e, found := p.elements[text[m[2]:m[3]]]; found {
+			if m[0] > start {
+				result = append(result, &types.StringElement{Content: text[start:m[0]]})
+			}
+			result = append(result, e)
+			start = m[1]
+		}
+	}
+	if start == 0 { // no placeholder
+		return text
+	}
+	if start < len(text) {
+		result = append(result, &types.StringElement{Content: text[start:]})
+	}
+	return result
+}
+
 // ----------------------------------------------
 // Support for experimental macros at parse time
 // ----------------------------------------------
-- 
2.43.0


From f1f3e033b2a0891d268e7f0b16e0b3445703c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:39 +0000
Subject: [PATCH 084/117] fix: accept attributes, resets and comments before
 the title of the document

---
 libasciidoc.go                                | 12 +---
 pkg/parser/document_processing_aggregate.go   | 26 +++-----
 ...document_processing_apply_substitutions.go | 12 ++--
 .../document_processing_parse_fragments.go    | 13 ++--
 pkg/renderer/sgml/sgml.go                     | 27 ++++-----
 pkg/types/types.go                            | 60 +++++++++++++------
 6 files changed, 78 insertions(+), 72 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index e4134a8..57f46af 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -106,22 +106,12 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 // declared in the document header (or before the first block if there is no header)
 func doctypeOf(doc *types.Document, config *configuration.Configuration) string {
 	attributes := types.Attributes{}
-	elements := doc.Elements
-	header, _ := doc.Header()
-	if header != nil {
-		elements = header.Elements
-	}
-elements:
-	for _, e := range elements {
+	for _, e := range doc.HeaderAttributes() {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
 			attributes[e.Name] = e.Value
 		case *types.AttributeReset:
 			delete(attributes, e.Name)
-		default:
-			if header == nil {
-				break elements
-			}
 		}
 	}
 	return config.Attributes.GetAsStringWithDefault(types.AttrDocType, attributes.GetAsStringWithDefault(types.AttrDocType, "article"))
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index 798a551..243e673 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -207,35 +207,25 @@ func insertPreamble(doc *types.Document) {
 	}
 	// now, insert the preamble instead of the 'n' blocks that belong to the preamble
 	// and copy the other items
-	elements := make([]interface{}, len(doc.Elements)-len(preamble.Elements)+1)
-	if frontmatter := doc.FrontMatter(); frontmatter != nil {
-		elements[0] = frontmatter
-	}
-	if header, offset := doc.Header(); header != nil {
-		log.Debug("inserting preamble after header")
-		elements[0+offset] = header
-		elements[1+offset] = preamble
-		copy(elements[2+offset:], doc.Elements[1+len(preamble.Elements)+offset:])
-	} else {
-		log.Debug("inserting preamble at beginning of document")
-		elements[0] = preamble
-		copy(elements[1:], doc.Elements[len(preamble.Elements):])
-	}
+	elements := make([]interface{}, 0, len(doc.Elements)-len(preamble.Elements)+1)
+	_, offset := doc.Header()
+	elements = append(elements, doc.Elements[:offset+1]...)
+	elements = append(elements, preamble)
+	elements = append(elements, doc.Elements[offset+1+len(preamble.Elements):]...)
 	doc.Elements = elements
 }
 
 func newPreamble(doc *types.Document) *types.Preamble {
-	if header, _ := doc.Header(); header == nil || header.Title == nil {
+	header, offset := doc.Header()
+	if header == nil || header.Title == nil {
 		log.Debug("skipping preamble: no header in doc")
 		return nil
 	}
 	preamble := &types.Preamble{
 		Elements: make([]interface{}, 0, len(doc.Elements)),
 	}
-	for _, e := range doc.Elements {
+	for _, e := range doc.Elements[offset+1:] {
 		switch e.(type) {
-		case *types.DocumentHeader, *types.FrontMatter:
-			continue
 		case *types.Section:
 			return preamble
 		default:
diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4bf5c00..a4f00de 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -96,9 +96,6 @@ func applySubstitutionsOnDocumentHeader(ctx *ParseContext, b *types.DocumentHead
 	if authors := b.Authors(); authors != nil {
 		ctx.attributes.setAll(authors.Expand())
 	}
-	if revision := b.Revision(); revision != nil {
-		ctx.attributes.setAll(revision.Expand())
-	}
 	return applySubstitutionsOnWithTitle(ctx, b, opts...)
 }
 
@@ -109,7 +106,14 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 		return err
 	}
 	b.Value = v
-	ctx.attributes.set(b.Name, b.Value)
+	switch v := v.(type) {
+	case types.DocumentAuthors: // author line in the header
+		ctx.attributes.setAll(v.Expand())
+	case *types.DocumentRevision: // revision line in the header
+		ctx.attributes.setAll(v.Expand())
+	default:
+		ctx.attributes.set(b.Name, b.Value)
+	}
 	if b.Name == types.AttrExperimental {
 		ctx.opts = append(ctx.opts, enableExperimentalMacros(true)) // TODO: add `ctx.ExperimentalMacrosEnabled()` instead?
 	}
diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index c90cfea..7b7ae94 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -95,14 +95,17 @@ func (c *current) isDocumentHeaderAllowed() bool {
 	return found && allowed && !c.isWithinDelimitedBlock()
 }
 
-// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine or a FrontMatter
+// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine, a FrontMatter, a comment or an attribute declaration (or reset)
 func (c *current) disableDocumentHeaderRule(element interface{}) {
-	switch element.(type) {
-	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration:
+	switch e := element.(type) {
+	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration, *types.AttributeReset, *types.SinglelineComment:
 		return
-	default:
-		c.globalStore[documentHeaderKey] = false
+	case *types.DelimitedBlock:
+		if e.Kind == types.Comment {
+			return
+		}
 	}
+	c.globalStore[documentHeaderKey] = false
 }
 
 const blockAttributesKey = "block_attributes"
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 1f81f99..cc3a970 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -47,27 +47,20 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	if !exists {
 		renderedTitle = DefaultTitle
 	}
-	// process attribute declaration in the header
-	if header, _ := doc.Header(); header != nil {
-		for _, e := range header.Elements {
-			switch e := e.(type) {
-			case *types.AttributeDeclaration:
-				ctx.setAttribute(e.Name, e.Value)
-			case *types.AttributeReset:
-				ctx.unsetAttribute(e.Name)
-			}
-		}
-	}
-	// also, process standalone attriute declaration before the first section
-elements:
-	for _, e := range doc.Elements {
+	// process attribute declarations in the header (or the standalone ones at the beginning of the document, if it has no header)
+	for _, e := range doc.HeaderAttributes() {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.setAttribute(e.Name, e.Value)
+			switch v := e.Value.(type) {
+			case types.DocumentAuthors:
+				ctx.setAttributes(v.Expand())
+			case *types.DocumentRevision:
+				ctx.setAttributes(v.Expand())
+			default:
+				ctx.setAttribute(e.Name, e.Value)
+			}
 		case *types.AttributeReset:
 			ctx.unsetAttribute(e.Name)
-		default:
-			break elements
 		}
 	}
 	if ctx.sectionNumbering, err = doc.SectionNumbersWith(config.Attributes); err != nil {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index eaccd36..b1fe3c0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -114,9 +114,14 @@ elements:
 		switch e := e.(type) {
 		case *DocumentHeader:
 			return e, i
-		case *BlankLine, *FrontMatter:
-			// expect DocumentHeader to be positioned after optional FrontMatter and blanklines in-between
+		case *BlankLine, *FrontMatter, *AttributeDeclaration, *AttributeReset, *SinglelineComment:
+			// expect DocumentHeader to be positioned after optional FrontMatter, attribute declarations (and resets), comments and blanklines in-between
 			continue
+		case *DelimitedBlock:
+			if e.Kind == Comment {
+				continue
+			}
+			break elements
 		default:
 			log.Debugf("no header in document")
 			break elements
@@ -125,20 +130,41 @@ elements:
 	return nil, -1
 }
 
+// HeaderAttributes returns the attribute declarations and resets of the header (including the ones before its title),
+// or the ones at the beginning of the document if there is no header
+func (d *Document) HeaderAttributes() []interface{} {
+	elements := d.Elements
+	if header, offset := d.Header(); header != nil {
+		elements = append(append([]interface{}{}, d.Elements[:offset]...), header.Elements...)
+	}
+	result := []interface{}{}
+	for _, e := range elements {
+		switch e := e.(type) {
+		case *AttributeDeclaration, *AttributeReset:
+			result = append(result, e)
+		case *BlankLine, *FrontMatter, *SinglelineComment:
+			continue
+		case *DelimitedBlock:
+			if e.Kind == Comment {
+				continue
+			}
+			return result
+		default:
+			return result
+		}
+	}
+	return result
+}
+
 // BodyElements returns the elements to render in the body
 func (d *Document) BodyElements() []interface{} {
 	if len(d.Elements) == 0 {
 		return nil
 	}
-	elements := make([]interface{}, 0, len(d.Elements))
-	for i, e := range d.Elements {
-		if _, ok := e.(*DocumentHeader); ok {
-			elements = append(elements, d.Elements[i+1:]...)
-			return elements
-		}
-		elements = append(elements, e)
+	if _, offset := d.Header(); offset >= 0 {
+		return d.Elements[offset+1:] // nothing to render before the header
 	}
-	return elements
+	return d.Elements
 }
 
 var _ WithElementAddition = &Document{}
@@ -159,13 +185,6 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 func (d *Document) SectionNumbersWith(config Attributes) (SectionNumbers, error) {
 	enabled := config.Has(AttrSectionNumbering) || config.Has(AttrNumbered)
 	locked := enabled
-	if header, _ := d.Header(); header != nil {
-		// lookup the `sectnums` or `numbered` attribute in the header
-		var err error
-		if _, enabled, err = traverseElements(header.Elements, enabled, locked, ""); err != nil {
-			return nil, err
-		}
-	}
 	numbers, _, err := traverseElements(d.Elements, enabled, locked, "") // disabled by default
 	return numbers, err
 }
@@ -175,6 +194,13 @@ func traverseElements(elements []interface{}, enabled, locked bool, prefix strin
 	counter := 0
 	for _, e := range elements {
 		switch e := e.(type) {
+		case *DocumentHeader:
+			// lookup the `sectnums` or `numbered` attribute in the header
+			_, en, err := traverseElements(e.Elements, enabled, locked, "")
+			if err != nil {
+				return nil, false, err
+			}
+			enabled = en
 		case *AttributeDeclaration:
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
 				enabled = true
-- 
2.43.0


From 1f066720cab7b0e8cb2c1f5d9872a3cde950ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:49 +0000
Subject: [PATCH 085/117] fix: show all the authors of the document, as they
 are in its attributes

---
 ...document_processing_apply_substitutions.go |  7 +-
 pkg/renderer/sgml/context.go                  | 29 +++++---
 pkg/renderer/sgml/document_details.go         | 72 ++++++++-----------
 pkg/renderer/sgml/html5/document_details.go   |  2 +-
 pkg/renderer/sgml/sgml.go                     | 28 ++++----
 pkg/renderer/sgml/xhtml5/document_details.go  |  2 +-
 pkg/types/types.go                            | 35 ++++-----
 7 files changed, 89 insertions(+), 86 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index a4f00de..4bac6ce 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -93,8 +93,11 @@ func applySubstitutionsOnDocumentHeader(ctx *ParseContext, b *types.DocumentHead
 	if err := applySubstitutionsOnElements(ctx, b.Elements, opts...); err != nil {
 		return err
 	}
-	if authors := b.Authors(); authors != nil {
-		ctx.attributes.setAll(authors.Expand())
+	if authors := b.Authors(); len(authors) > 0 {
+		// the attributes of the other authors are the ones of the author line, unless they were overridden
+		attributes := authors[:1].Expand()
+		attributes[types.AttrAuthors] = []*types.DocumentAuthor(authors)
+		ctx.attributes.setAll(attributes)
 	}
 	return applySubstitutionsOnWithTitle(ctx, b, opts...)
 }
diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 64f5122..dbdc99d 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,7 @@
 package sgml
 
 import (
+	"strconv"
 	"strings"
 
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
@@ -40,18 +41,30 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx.setAttribute(types.AttrExampleCaption, "Example")
 	ctx.setAttribute(types.AttrTableCaption, "Table")
 	ctx.setAttribute(types.AttrVersionLabel, "version")
-	// also, expand authors and revision
-	if header != nil {
-		if authors := header.Authors(); authors != nil {
-			ctx.setAttributes(authors.Expand())
-		}
+	return ctx
+}
 
-		if revision := header.Revision(); revision != nil {
-			ctx.setAttributes(revision.Expand())
+// documentAuthor the name and email of an author of the document
+type documentAuthor struct {
+	name, email string
+}
 
+// authors returns the authors of the document, whose names and emails are in the attributes
+// (the ones of the configuration take precedence over the ones declared in the document)
+func (ctx *context) authors() []documentAuthor {
+	result := []documentAuthor{}
+	for i := 1; ; i++ {
+		suffix := ""
+		if i > 1 {
+			suffix = "_" + strconv.Itoa(i)
+		}
+		name, foundName := ctx.attributes.GetAsString(types.AttrAuthor + suffix)
+		email, foundEmail := ctx.attributes.GetAsString(types.AttrEmail + suffix)
+		if !foundName && !foundEmail {
+			return result
 		}
+		result = append(result, documentAuthor{name: name, email: email})
 	}
-	return ctx
 }
 
 func (ctx *context) addSectionIDs(elements []interface{}) {
diff --git a/pkg/renderer/sgml/document_details.go b/pkg/renderer/sgml/document_details.go
index 75eaadb..eee50d6 100644
--- a/pkg/renderer/sgml/document_details.go
+++ b/pkg/renderer/sgml/document_details.go
@@ -11,11 +11,12 @@ import (
 )
 
 func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
-	if !ctx.attributes.Has(types.AttrAuthors) {
+	authors := ctx.authors()
+	if len(authors) == 0 {
 		log.Debugf("no authors to render")
 		return "", nil
 	}
-	authors, err := r.renderDocumentAuthorsDetails(ctx)
+	renderedAuthors, err := r.renderDocumentAuthorsDetails(authors)
 	if err != nil {
 		return "", errors.Wrap(err, "error while rendering the document details")
 	}
@@ -35,7 +36,7 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 		RevDate   string
 		RevRemark string
 	}{
-		Authors:   authors,
+		Authors:   renderedAuthors,
 		RevLabel:  escapeString(revLabel),
 		RevNumber: escapeString(revNumber),
 		RevDate:   escapeString(revDate),
@@ -46,47 +47,34 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 	return documentDetailsBuff.String(), nil
 }
 
-func (r *sgmlRenderer) renderDocumentAuthorsDetails(ctx *context) (string, error) {
+func (r *sgmlRenderer) renderDocumentAuthorsDetails(authors []documentAuthor) (string, error) {
 	authorsDetailsBuff := &strings.Builder{}
-	i := 1
-	for {
-		var authorKey string
-		var emailKey string
-		var index string
-		if i == 1 {
-			authorKey = "author"
-			emailKey = "email"
-			index = ""
-		} else {
-			index = strconv.Itoa(i)
-			authorKey = "author_" + index
-			emailKey = "email_" + index
+	for i, author := range authors {
+		index := ""
+		if i > 0 {
+			authorsDetailsBuff.WriteString("\n")
+			index = strconv.Itoa(i + 1)
 		}
-		// having at least one author is the minimal requirement for document details
-		if author, ok := ctx.attributes.GetAsString(authorKey); ok {
-			if i > 1 {
-				authorsDetailsBuff.WriteString("\n")
-			}
-			email, _ := ctx.attributes.GetAsString(emailKey)
-			tmpl, err := r.documentAuthorDetails()
-			if err != nil {
-				return "", errors.Wrap(err, "unable to load document authors template")
-			}
-			if err := tmpl.Execute(authorsDetailsBuff, struct {
-				Index string
-				Name  string
-				Email string
-			}{
-				Index: index,
-				Name:  escapeString(author),
-				Email: escapeString(email),
-			}); err != nil {
-				return "", errors.Wrap(err, "error while rendering the document authors")
-			}
-			// if there were authors before, need to insert a `\n`
-			i++
-		} else {
-			break
+		tmpl, err := r.documentAuthorDetails()
+		if err != nil {
+			return "", errors.Wrap(err, "unable to load document authors template")
+		}
+		link := author.email
+		if !strings.Contains(link, "://") { // may be a URL
+			link = "mailto:" + link
+		}
+		if err := tmpl.Execute(authorsDetailsBuff, struct {
+			Index     string
+			Name      string
+			Email     string
+			EmailLink string
+		}{
+			Index:     index,
+			Name:      escapeString(author.name),
+			Email:     escapeString(author.email),
+			EmailLink: escapeString(link),
+		}); err != nil {
+			return "", errors.Wrap(err, "error while rendering the document authors")
 		}
 	}
 	return authorsDetailsBuff.String(), nil
diff --git a/pkg/renderer/sgml/html5/document_details.go b/pkg/renderer/sgml/html5/document_details.go
index e4e17bc..9aeaf97 100644
--- a/pkg/renderer/sgml/html5/document_details.go
+++ b/pkg/renderer/sgml/html5/document_details.go
@@ -10,5 +10,5 @@ const (
 `
 
 	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ .Name }}</span><br>{{ end }}{{ if .Email }}
-<span id="email{{ .Index }}" class="email"><a href="mailto:{{ .Email }}">{{ .Email }}</a></span><br>{{ end }}`
+<span id="email{{ .Index }}" class="email"><a href="{{ .EmailLink }}">{{ .Email }}</a></span><br>{{ end }}`
 )
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index cc3a970..40abd75 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -72,6 +72,10 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 	metadata.TableOfContents = doc.TableOfContents
+	// the attributes declared in the body do not apply to the head of the document
+	doctype := ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")
+	description := ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")
+	authors := r.renderAuthors(ctx)
 	renderedHeader, renderedContent, err := r.splitAndRender(ctx, doc)
 	if err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
@@ -102,11 +106,11 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
+			Doctype:               escapeString(doctype),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
-			Description:           escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
+			Description:           escapeString(description),
 			Title:                 renderedTitle,
-			Authors:               r.renderAuthors(ctx, doc),
+			Authors:               authors,
 			Header:                renderedHeader,
 			Roles:                 roles,
 			ID:                    r.renderDocumentID(doc),
@@ -281,20 +285,14 @@ func (r *sgmlRenderer) renderDocumentID(doc *types.Document) string {
 	return ""
 }
 
-func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { // TODO: pass header instead of doc
-	if header, _ := doc.Header(); header != nil {
-		if a := header.Authors(); a != nil {
-			authorStrs := make([]string, 0, len(a))
-			for _, author := range a {
-				if author.DocumentAuthorFullName != nil { // may be missing (eg: `<me@example.com>`)
-					authorStrs = append(authorStrs, escapeString(author.FullName()))
-				}
-			}
-			return strings.Join(authorStrs, "; ")
-
+func (r *sgmlRenderer) renderAuthors(ctx *context) string {
+	names := []string{}
+	for _, author := range ctx.authors() {
+		if author.name != "" { // may be missing (eg: `<me@example.com>`)
+			names = append(names, escapeString(author.name))
 		}
 	}
-	return ""
+	return strings.Join(names, "; ")
 }
 
 // DefaultTitle the default title to render when the document has none
diff --git a/pkg/renderer/sgml/xhtml5/document_details.go b/pkg/renderer/sgml/xhtml5/document_details.go
index 400f660..eed5305 100644
--- a/pkg/renderer/sgml/xhtml5/document_details.go
+++ b/pkg/renderer/sgml/xhtml5/document_details.go
@@ -10,5 +10,5 @@ const (
 `
 
 	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ .Name }}</span><br/>{{ end }}{{ if .Email }}
-<span id="email{{ .Index }}" class="email"><a href="mailto:{{ .Email }}">{{ .Email }}</a></span><br/>{{ end }}`
+<span id="email{{ .Index }}" class="email"><a href="{{ .EmailLink }}">{{ .Email }}</a></span><br/>{{ end }}`
 )
diff --git a/pkg/types/types.go b/pkg/types/types.go
index b1fe3c0..402617f 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -350,37 +350,38 @@ func NewDocumentHeader(title []interface{}, ar interface{}, extraAttrs []interfa
 	return header, nil
 }
 
+// Authors returns the authors declared in the header: the ones of the author line, or the one whose
+// name and email are set with the `author` and `email` attributes (which take precedence over the first author of the line).
 func (h *DocumentHeader) Authors() DocumentAuthors {
 	var result DocumentAuthors
-elements:
+	first := func() *DocumentAuthor {
+		if len(result) == 0 {
+			result = DocumentAuthors{
+				&DocumentAuthor{},
+			}
+		}
+		return result[0]
+	}
 	for _, e := range h.Elements {
 		if e, ok := e.(*AttributeDeclaration); ok {
 			switch e.Name {
 			case AttrAuthors:
 				if authors, ok := e.Value.(DocumentAuthors); ok {
-					result = authors
-					break elements
+					result = make(DocumentAuthors, len(authors))
+					for i, author := range authors {
+						a := *author // may be changed below
+						result[i] = &a
+					}
 				}
 			case AttrEmail:
 				if email, ok := valueAsString(e.Value); ok {
-					if result == nil {
-						result = DocumentAuthors{
-							&DocumentAuthor{},
-						}
-					}
-					result[0].Email = email
+					first().Email = email
 				}
 			case AttrAuthor:
 				if author, ok := valueAsString(e.Value); ok {
-					if result == nil {
-						result = DocumentAuthors{
-							&DocumentAuthor{},
-						}
-					}
-					if result[0].DocumentAuthorFullName == nil {
-						result[0].DocumentAuthorFullName = &DocumentAuthorFullName{}
+					first().DocumentAuthorFullName = &DocumentAuthorFullName{
+						FirstName: author,
 					}
-					result[0].DocumentAuthorFullName.FirstName = author
 				}
 			}
 		}
-- 
2.43.0


From 6b94f618e33036d2a988d90d0d410c6b90e680a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:14 +0000
Subject: [PATCH 086/117] fix: find and embed images whatever their names, and
 do not embed remote ones

---
 pkg/renderer/sgml/image.go | 17 +++++++++++------
 pkg/types/types.go         |  6 ++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index fdc0ea2..f4a2535 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -117,12 +117,17 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 	src := location.ToString()
 
 	// if Data URI is enables, then include the content of the file in the `src` attribute of the `<img>` tag
-	if !ctx.attributes.Has("data-uri") {
+	if !ctx.attributes.Has("data-uri") || strings.Contains(src, "://") { // remote images are not embedded
 		return src
 	}
-	dir := filepath.Dir(ctx.config.Filename)
-	src = filepath.Join(dir, src)
-	result := "data:image/" + strings.TrimPrefix(filepath.Ext(src), ".") + ";base64,"
+	if !filepath.IsAbs(src) {
+		src = filepath.Join(filepath.Dir(ctx.config.Filename), src)
+	}
+	format := strings.TrimPrefix(filepath.Ext(src), ".")
+	if format == "svg" {
+		format = "svg+xml"
+	}
+	result := "data:image/" + format + ";base64,"
 	data, err := os.ReadFile(src)
 	if err != nil {
 		log.Warnf("image to embed not found or not readable: %s", src)
@@ -146,8 +151,8 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
 	}
-	// (use the path as-is if it is not a valid URL)
-	if u, err := url.Parse(path); err == nil {
+	// (use the path as-is if it is not a valid URL, or has something like a scheme, eg: `a:b.png`)
+	if u, err := url.Parse(path); err == nil && u.Opaque == "" {
 		path = u.Path
 	}
 	// return base path without its extension
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 402617f..c170410 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3706,10 +3706,8 @@ func (l *Location) SetPathPrefix(p interface{}) {
 			p = p + "/"
 		}
 		if l.Scheme == "" && !strings.HasPrefix(l.ToString(), "/") {
-			if u, err := url.Parse(l.ToString()); err == nil {
-				if !u.IsAbs() {
-					l.SetPath(merge(p, l.Path))
-				}
+			if u, err := url.Parse(l.ToString()); err != nil || !u.IsAbs() { // may not be a valid URL (eg: `100%.png`)
+				l.SetPath(merge(p, l.Path))
 			}
 		}
 	}
-- 
2.43.0


From 34f569da9001e92efa20ee61248ae489c8fc73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 087/117] fix: replace the references to attributes in the
 values and attributes of user macros

---
 .../document_processing_apply_substitutions.go    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4bac6ce..81d502f 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -82,6 +82,8 @@ func applySubstitutionsOnElement(ctx *ParseContext, element interface{}, opts ..
 		return applySubstitutionsOnWithElements(ctx, b, opts...)
 	case types.WithLocation:
 		return applySubstitutionsOnWithLocation(ctx, b, opts...)
+	case *types.UserMacro:
+		return replaceAttributeRefsInUserMacro(ctx, b)
 	default:
 		// do nothing
 		return nil
@@ -431,6 +433,15 @@ func replaceAttributeRefsInString(ctx *ParseContext, s string) (string, error) {
 	return sgml.RenderPlainText(elements, sgml.WithoutEscape())
 }
 
+// replaces the references to attributes in the value and in the attributes of a user macro
+func replaceAttributeRefsInUserMacro(ctx *ParseContext, m *types.UserMacro) error {
+	var err error
+	if m.Value, err = replaceAttributeRefsInString(ctx, m.Value); err != nil {
+		return err
+	}
+	return replaceAttributeRefsInAttributeValues(ctx, m.Attributes)
+}
+
 // replaces the references to attributes in the path of the location of an element
 func replaceAttributeRefsInLocation(ctx *ParseContext, l *types.Location) error {
 	if l == nil {
@@ -621,6 +632,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 					return nil, err
 				}
 			}
+		case *types.UserMacro:
+			if err := replaceAttributeRefsInUserMacro(ctx, e); err != nil {
+				return nil, err
+			}
 		case *types.InlineButton:
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
 				return nil, err
-- 
2.43.0


From 3319a238f4e6892944986c675fe7124c38d409c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 088/117] fix: find user macros whatever their names and
 values, and in items of lists

---
 pkg/parser/parser.go     | 14848 +++++++++++++++++++------------------
 pkg/parser/parser.peg    |    18 +-
 pkg/parser/parser_ext.go |     5 +
 3 files changed, 7663 insertions(+), 7208 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f7c726f..0e4a2e0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 92196},
+																pos: position{line: 2924, col: 12, offset: 92651},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 92197},
+																	pos: position{line: 2924, col: 13, offset: 92652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 92197},
+																			pos: position{line: 2924, col: 13, offset: 92652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 92197},
+																				pos:        position{line: 2924, col: 13, offset: 92652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 92202},
+																			pos: position{line: 2924, col: 18, offset: 92657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 92202},
+																				pos:        position{line: 2924, col: 18, offset: 92657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 92196},
+																pos: position{line: 2924, col: 12, offset: 92651},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 92197},
+																	pos: position{line: 2924, col: 13, offset: 92652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 92197},
+																			pos: position{line: 2924, col: 13, offset: 92652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 92197},
+																				pos:        position{line: 2924, col: 13, offset: 92652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 92202},
+																			pos: position{line: 2924, col: 18, offset: 92657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 92202},
+																				pos:        position{line: 2924, col: 18, offset: 92657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2781, col: 13, offset: 88611},
+														pos:        position{line: 2786, col: 13, offset: 88772},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2922, col: 11, offset: 92430},
+													pos: position{line: 2936, col: 11, offset: 92885},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2922, col: 11, offset: 92430},
+														pos: position{line: 2936, col: 11, offset: 92885},
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 11, offset: 92430},
+															pos:        position{line: 2936, col: 11, offset: 92885},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2841, col: 14, offset: 90123},
+													pos: position{line: 2855, col: 14, offset: 90578},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2841, col: 14, offset: 90123},
+														pos: position{line: 2855, col: 14, offset: 90578},
 														expr: &charClassMatcher{
-															pos:        position{line: 2841, col: 14, offset: 90123},
+															pos:        position{line: 2855, col: 14, offset: 90578},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2845, col: 17, offset: 90193},
+												pos: position{line: 2859, col: 17, offset: 90648},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2845, col: 17, offset: 90193},
+													pos:   position{line: 2859, col: 17, offset: 90648},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 92196},
+																				pos: position{line: 2924, col: 12, offset: 92651},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2910, col: 13, offset: 92197},
+																					pos: position{line: 2924, col: 13, offset: 92652},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2910, col: 13, offset: 92197},
+																							pos: position{line: 2924, col: 13, offset: 92652},
 																							expr: &litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 92197},
+																								pos:        position{line: 2924, col: 13, offset: 92652},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2910, col: 18, offset: 92202},
+																							pos: position{line: 2924, col: 18, offset: 92657},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 18, offset: 92202},
+																								pos:        position{line: 2924, col: 18, offset: 92657},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2910, col: 12, offset: 92196},
+																				pos: position{line: 2924, col: 12, offset: 92651},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2910, col: 13, offset: 92197},
+																					pos: position{line: 2924, col: 13, offset: 92652},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2910, col: 13, offset: 92197},
+																							pos: position{line: 2924, col: 13, offset: 92652},
 																							expr: &litMatcher{
-																								pos:        position{line: 2910, col: 13, offset: 92197},
+																								pos:        position{line: 2924, col: 13, offset: 92652},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2910, col: 18, offset: 92202},
+																							pos: position{line: 2924, col: 18, offset: 92657},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2910, col: 18, offset: 92202},
+																								pos:        position{line: 2924, col: 18, offset: 92657},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 92196},
+																		pos: position{line: 2924, col: 12, offset: 92651},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2910, col: 13, offset: 92197},
+																			pos: position{line: 2924, col: 13, offset: 92652},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2910, col: 13, offset: 92197},
+																					pos: position{line: 2924, col: 13, offset: 92652},
 																					expr: &litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 92197},
+																						pos:        position{line: 2924, col: 13, offset: 92652},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2910, col: 18, offset: 92202},
+																					pos: position{line: 2924, col: 18, offset: 92657},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 18, offset: 92202},
+																						pos:        position{line: 2924, col: 18, offset: 92657},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 92196},
+																									pos: position{line: 2924, col: 12, offset: 92651},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2910, col: 13, offset: 92197},
+																										pos: position{line: 2924, col: 13, offset: 92652},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2910, col: 13, offset: 92197},
+																												pos: position{line: 2924, col: 13, offset: 92652},
 																												expr: &litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 92197},
+																													pos:        position{line: 2924, col: 13, offset: 92652},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2910, col: 18, offset: 92202},
+																												pos: position{line: 2924, col: 18, offset: 92657},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 18, offset: 92202},
+																													pos:        position{line: 2924, col: 18, offset: 92657},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2910, col: 12, offset: 92196},
+																									pos: position{line: 2924, col: 12, offset: 92651},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2910, col: 13, offset: 92197},
+																										pos: position{line: 2924, col: 13, offset: 92652},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2910, col: 13, offset: 92197},
+																												pos: position{line: 2924, col: 13, offset: 92652},
 																												expr: &litMatcher{
-																													pos:        position{line: 2910, col: 13, offset: 92197},
+																													pos:        position{line: 2924, col: 13, offset: 92652},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2910, col: 18, offset: 92202},
+																												pos: position{line: 2924, col: 18, offset: 92657},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2910, col: 18, offset: 92202},
+																													pos:        position{line: 2924, col: 18, offset: 92657},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2910, col: 12, offset: 92196},
+																							pos: position{line: 2924, col: 12, offset: 92651},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2910, col: 13, offset: 92197},
+																								pos: position{line: 2924, col: 13, offset: 92652},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2910, col: 13, offset: 92197},
+																										pos: position{line: 2924, col: 13, offset: 92652},
 																										expr: &litMatcher{
-																											pos:        position{line: 2910, col: 13, offset: 92197},
+																											pos:        position{line: 2924, col: 13, offset: 92652},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2910, col: 18, offset: 92202},
+																										pos: position{line: 2924, col: 18, offset: 92657},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2910, col: 18, offset: 92202},
+																											pos:        position{line: 2924, col: 18, offset: 92657},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 12, offset: 92196},
+														pos: position{line: 2924, col: 12, offset: 92651},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2910, col: 13, offset: 92197},
+															pos: position{line: 2924, col: 13, offset: 92652},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2910, col: 13, offset: 92197},
+																	pos: position{line: 2924, col: 13, offset: 92652},
 																	expr: &litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 92197},
+																		pos:        position{line: 2924, col: 13, offset: 92652},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2910, col: 18, offset: 92202},
+																	pos: position{line: 2924, col: 18, offset: 92657},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 18, offset: 92202},
+																		pos:        position{line: 2924, col: 18, offset: 92657},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2910, col: 12, offset: 92196},
+														pos: position{line: 2924, col: 12, offset: 92651},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2910, col: 13, offset: 92197},
+															pos: position{line: 2924, col: 13, offset: 92652},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2910, col: 13, offset: 92197},
+																	pos: position{line: 2924, col: 13, offset: 92652},
 																	expr: &litMatcher{
-																		pos:        position{line: 2910, col: 13, offset: 92197},
+																		pos:        position{line: 2924, col: 13, offset: 92652},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2910, col: 18, offset: 92202},
+																	pos: position{line: 2924, col: 18, offset: 92657},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2910, col: 18, offset: 92202},
+																		pos:        position{line: 2924, col: 18, offset: 92657},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2910, col: 12, offset: 92196},
+												pos: position{line: 2924, col: 12, offset: 92651},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2910, col: 13, offset: 92197},
+													pos: position{line: 2924, col: 13, offset: 92652},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2910, col: 13, offset: 92197},
+															pos: position{line: 2924, col: 13, offset: 92652},
 															expr: &litMatcher{
-																pos:        position{line: 2910, col: 13, offset: 92197},
+																pos:        position{line: 2924, col: 13, offset: 92652},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2910, col: 18, offset: 92202},
+															pos: position{line: 2924, col: 18, offset: 92657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2910, col: 18, offset: 92202},
+																pos:        position{line: 2924, col: 18, offset: 92657},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2785, col: 14, offset: 88685},
+																		pos: position{line: 2790, col: 14, offset: 88846},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2785, col: 14, offset: 88685},
+																			pos: position{line: 2790, col: 14, offset: 88846},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 14, offset: 88685},
+																				pos:        position{line: 2790, col: 14, offset: 88846},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2785, col: 14, offset: 88685},
+																				pos: position{line: 2790, col: 14, offset: 88846},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2785, col: 14, offset: 88685},
+																					pos: position{line: 2790, col: 14, offset: 88846},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2785, col: 14, offset: 88685},
+																						pos:        position{line: 2790, col: 14, offset: 88846},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2785, col: 14, offset: 88685},
+																							pos: position{line: 2790, col: 14, offset: 88846},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2785, col: 14, offset: 88685},
+																								pos: position{line: 2790, col: 14, offset: 88846},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2785, col: 14, offset: 88685},
+																									pos:        position{line: 2790, col: 14, offset: 88846},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2785, col: 14, offset: 88685},
+																									pos: position{line: 2790, col: 14, offset: 88846},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2785, col: 14, offset: 88685},
+																										pos: position{line: 2790, col: 14, offset: 88846},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2785, col: 14, offset: 88685},
+																											pos:        position{line: 2790, col: 14, offset: 88846},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2785, col: 14, offset: 88685},
+																pos: position{line: 2790, col: 14, offset: 88846},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2785, col: 14, offset: 88685},
+																	pos: position{line: 2790, col: 14, offset: 88846},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2785, col: 14, offset: 88685},
+																		pos:        position{line: 2790, col: 14, offset: 88846},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2785, col: 14, offset: 88685},
+																pos: position{line: 2790, col: 14, offset: 88846},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2785, col: 14, offset: 88685},
+																	pos: position{line: 2790, col: 14, offset: 88846},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2785, col: 14, offset: 88685},
+																		pos:        position{line: 2790, col: 14, offset: 88846},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2935, col: 11, offset: 92703},
+														pos: position{line: 2949, col: 11, offset: 93158},
 														expr: &anyMatcher{
-															line: 2935, col: 13, offset: 92705,
+															line: 2949, col: 13, offset: 93160,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2841, col: 14, offset: 90123},
+																			pos: position{line: 2855, col: 14, offset: 90578},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2841, col: 14, offset: 90123},
+																				pos: position{line: 2855, col: 14, offset: 90578},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 14, offset: 90123},
+																					pos:        position{line: 2855, col: 14, offset: 90578},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2935, col: 11, offset: 92703},
+																									pos: position{line: 2949, col: 11, offset: 93158},
 																									expr: &anyMatcher{
-																										line: 2935, col: 13, offset: 92705,
+																										line: 2949, col: 13, offset: 93160,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2841, col: 14, offset: 90123},
+																						pos: position{line: 2855, col: 14, offset: 90578},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2841, col: 14, offset: 90123},
+																							pos: position{line: 2855, col: 14, offset: 90578},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2841, col: 14, offset: 90123},
+																								pos:        position{line: 2855, col: 14, offset: 90578},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1823, col: 5, offset: 58885},
+																		pos: position{line: 1824, col: 5, offset: 58910},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1823, col: 5, offset: 58885},
+																			pos: position{line: 1824, col: 5, offset: 58910},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1823, col: 5, offset: 58885},
+																					pos:   position{line: 1824, col: 5, offset: 58910},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2841, col: 14, offset: 90123},
+																						pos: position{line: 2855, col: 14, offset: 90578},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2841, col: 14, offset: 90123},
+																							pos: position{line: 2855, col: 14, offset: 90578},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2841, col: 14, offset: 90123},
+																								pos:        position{line: 2855, col: 14, offset: 90578},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1824, col: 5, offset: 58909},
+																					pos: position{line: 1825, col: 5, offset: 58934},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2736, col: 18, offset: 87106},
+											pos: position{line: 2737, col: 18, offset: 87131},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2737, col: 9, offset: 87116},
+												pos: position{line: 2738, col: 9, offset: 87141},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2737, col: 9, offset: 87116},
+														pos: position{line: 2738, col: 9, offset: 87141},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2737, col: 9, offset: 87116},
+																pos:        position{line: 2738, col: 9, offset: 87141},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2737, col: 15, offset: 87122},
+																pos: position{line: 2738, col: 15, offset: 87147},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2738, col: 11, offset: 87155},
+														pos: position{line: 2739, col: 11, offset: 87180},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2738, col: 12, offset: 87156},
+																pos: position{line: 2739, col: 12, offset: 87181},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 12, offset: 87156},
+																		pos:        position{line: 2739, col: 12, offset: 87181},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 20, offset: 87164},
+																		pos:        position{line: 2739, col: 20, offset: 87189},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 30, offset: 87174},
+																		pos:        position{line: 2739, col: 30, offset: 87199},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 38, offset: 87182},
+																		pos:        position{line: 2739, col: 38, offset: 87207},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 48, offset: 87192},
+																		pos:        position{line: 2739, col: 48, offset: 87217},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2738, col: 56, offset: 87200},
+																		pos:        position{line: 2739, col: 56, offset: 87225},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2738, col: 65, offset: 87209},
+																pos: position{line: 2739, col: 65, offset: 87234},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2738, col: 76, offset: 87220},
+																pos: position{line: 2739, col: 76, offset: 87245},
 																expr: &choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2627, col: 5, offset: 84042},
+											pos: position{line: 2628, col: 5, offset: 84067},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2627, col: 5, offset: 84042},
+												pos: position{line: 2628, col: 5, offset: 84067},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2633, col: 19, offset: 84199},
+														pos:        position{line: 2634, col: 19, offset: 84224},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2633, col: 26, offset: 84206},
+														pos: position{line: 2634, col: 26, offset: 84231},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2628, col: 5, offset: 84066},
+														pos:   position{line: 2629, col: 5, offset: 84091},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2628, col: 11, offset: 84072},
+															pos: position{line: 2629, col: 11, offset: 84097},
 															expr: &choiceExpr{
-																pos: position{line: 2628, col: 12, offset: 84073},
+																pos: position{line: 2629, col: 12, offset: 84098},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92703},
+																					pos: position{line: 2949, col: 11, offset: 93158},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92705,
+																						line: 2949, col: 13, offset: 93160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2640, col: 5, offset: 84318},
+																		pos: position{line: 2641, col: 5, offset: 84343},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2640, col: 5, offset: 84318},
+																			pos: position{line: 2641, col: 5, offset: 84343},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2640, col: 5, offset: 84318},
+																					pos: position{line: 2641, col: 5, offset: 84343},
 																					expr: &choiceExpr{
-																						pos: position{line: 2637, col: 22, offset: 84279},
+																						pos: position{line: 2638, col: 22, offset: 84304},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2633, col: 19, offset: 84199},
+																								pos: position{line: 2634, col: 19, offset: 84224},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2633, col: 19, offset: 84199},
+																										pos:        position{line: 2634, col: 19, offset: 84224},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2633, col: 26, offset: 84206},
+																										pos: position{line: 2634, col: 26, offset: 84231},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
+																											pos: position{line: 2932, col: 10, offset: 92824},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2940, col: 8, offset: 92767},
+																										pos: position{line: 2954, col: 8, offset: 93222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2927, col: 12, offset: 92540},
+																												pos: position{line: 2941, col: 12, offset: 92995},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2927, col: 13, offset: 92541},
+																													pos: position{line: 2941, col: 13, offset: 92996},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 13, offset: 92541},
+																															pos:        position{line: 2941, col: 13, offset: 92996},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 20, offset: 92548},
+																															pos:        position{line: 2941, col: 20, offset: 93003},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 29, offset: 92557},
+																															pos:        position{line: 2941, col: 29, offset: 93012},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2937, col: 8, offset: 92717},
+																												pos: position{line: 2951, col: 8, offset: 93172},
 																												expr: &anyMatcher{
-																													line: 2937, col: 9, offset: 92718,
+																													line: 2951, col: 9, offset: 93173,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2641, col: 5, offset: 84341},
+																					pos:   position{line: 2642, col: 5, offset: 84366},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2642, col: 9, offset: 84359},
+																						pos: position{line: 2643, col: 9, offset: 84384},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2642, col: 10, offset: 84360},
+																								pos: position{line: 2643, col: 10, offset: 84385},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2642, col: 10, offset: 84360},
+																									pos:   position{line: 2643, col: 10, offset: 84385},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2642, col: 17, offset: 84367},
+																										pos: position{line: 2643, col: 17, offset: 84392},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2650, col: 21, offset: 84563},
+																												pos: position{line: 2651, col: 21, offset: 84588},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2650, col: 21, offset: 84563},
+																													pos: position{line: 2651, col: 21, offset: 84588},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2650, col: 21, offset: 84563},
+																															pos:   position{line: 2651, col: 21, offset: 84588},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2650, col: 27, offset: 84569},
+																																pos: position{line: 2651, col: 27, offset: 84594},
 																																expr: &actionExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84644},
+																																	pos: position{line: 2656, col: 5, offset: 84669},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84644},
+																																		pos: position{line: 2656, col: 5, offset: 84669},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2655, col: 5, offset: 84644},
+																																				pos:        position{line: 2656, col: 5, offset: 84669},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2655, col: 9, offset: 84648},
+																																				pos: position{line: 2656, col: 9, offset: 84673},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2918, col: 10, offset: 92369},
+																																					pos: position{line: 2932, col: 10, offset: 92824},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2918, col: 10, offset: 92369},
+																																						pos:        position{line: 2932, col: 10, offset: 92824},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2655, col: 16, offset: 84655},
+																																				pos:   position{line: 2656, col: 16, offset: 84680},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2661, col: 5, offset: 84855},
+																																					pos: position{line: 2662, col: 5, offset: 84880},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2661, col: 5, offset: 84855},
+																																						pos:   position{line: 2662, col: 5, offset: 84880},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2661, col: 14, offset: 84864},
+																																							pos: position{line: 2662, col: 14, offset: 84889},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2661, col: 14, offset: 84864},
+																																								pos: position{line: 2662, col: 14, offset: 84889},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2661, col: 14, offset: 84864},
+																																									pos:        position{line: 2662, col: 14, offset: 84889},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2940, col: 8, offset: 92767},
+																															pos: position{line: 2954, col: 8, offset: 93222},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2927, col: 12, offset: 92540},
+																																	pos: position{line: 2941, col: 12, offset: 92995},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2927, col: 13, offset: 92541},
+																																		pos: position{line: 2941, col: 13, offset: 92996},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 13, offset: 92541},
+																																				pos:        position{line: 2941, col: 13, offset: 92996},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 20, offset: 92548},
+																																				pos:        position{line: 2941, col: 20, offset: 93003},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2927, col: 29, offset: 92557},
+																																				pos:        position{line: 2941, col: 29, offset: 93012},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2937, col: 8, offset: 92717},
+																																	pos: position{line: 2951, col: 8, offset: 93172},
 																																	expr: &anyMatcher{
-																																		line: 2937, col: 9, offset: 92718,
+																																		line: 2951, col: 9, offset: 93173,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2667, col: 24, offset: 85000},
+																												pos: position{line: 2668, col: 24, offset: 85025},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2667, col: 24, offset: 85000},
+																													pos:   position{line: 2668, col: 24, offset: 85025},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2667, col: 30, offset: 85006},
+																														pos: position{line: 2668, col: 30, offset: 85031},
 																														expr: &actionExpr{
-																															pos: position{line: 2672, col: 5, offset: 85082},
+																															pos: position{line: 2673, col: 5, offset: 85107},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2672, col: 5, offset: 85082},
+																																pos: position{line: 2673, col: 5, offset: 85107},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2672, col: 5, offset: 85082},
+																																		pos: position{line: 2673, col: 5, offset: 85107},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2637, col: 22, offset: 84279},
+																																			pos: position{line: 2638, col: 22, offset: 84304},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2633, col: 19, offset: 84199},
+																																					pos: position{line: 2634, col: 19, offset: 84224},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2633, col: 19, offset: 84199},
+																																							pos:        position{line: 2634, col: 19, offset: 84224},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2633, col: 26, offset: 84206},
+																																							pos: position{line: 2634, col: 26, offset: 84231},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2918, col: 10, offset: 92369},
+																																								pos: position{line: 2932, col: 10, offset: 92824},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2918, col: 10, offset: 92369},
+																																									pos:        position{line: 2932, col: 10, offset: 92824},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2940, col: 8, offset: 92767},
+																																							pos: position{line: 2954, col: 8, offset: 93222},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2927, col: 12, offset: 92540},
+																																									pos: position{line: 2941, col: 12, offset: 92995},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2927, col: 13, offset: 92541},
+																																										pos: position{line: 2941, col: 13, offset: 92996},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 13, offset: 92541},
+																																												pos:        position{line: 2941, col: 13, offset: 92996},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 20, offset: 92548},
+																																												pos:        position{line: 2941, col: 20, offset: 93003},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 29, offset: 92557},
+																																												pos:        position{line: 2941, col: 29, offset: 93012},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2937, col: 8, offset: 92717},
+																																									pos: position{line: 2951, col: 8, offset: 93172},
 																																									expr: &anyMatcher{
-																																										line: 2937, col: 9, offset: 92718,
+																																										line: 2951, col: 9, offset: 93173,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2937, col: 8, offset: 92717},
+																																					pos: position{line: 2951, col: 8, offset: 93172},
 																																					expr: &anyMatcher{
-																																						line: 2937, col: 9, offset: 92718,
+																																						line: 2951, col: 9, offset: 93173,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2673, col: 5, offset: 85105},
+																																		pos: position{line: 2674, col: 5, offset: 85130},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2935, col: 11, offset: 92703},
+																																						pos: position{line: 2949, col: 11, offset: 93158},
 																																						expr: &anyMatcher{
-																																							line: 2935, col: 13, offset: 92705,
+																																							line: 2949, col: 13, offset: 93160,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2918, col: 10, offset: 92369},
+																																							pos: position{line: 2932, col: 10, offset: 92824},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2918, col: 10, offset: 92369},
+																																								pos:        position{line: 2932, col: 10, offset: 92824},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2940, col: 8, offset: 92767},
+																																						pos: position{line: 2954, col: 8, offset: 93222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2927, col: 12, offset: 92540},
+																																								pos: position{line: 2941, col: 12, offset: 92995},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2927, col: 13, offset: 92541},
+																																									pos: position{line: 2941, col: 13, offset: 92996},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 13, offset: 92541},
+																																											pos:        position{line: 2941, col: 13, offset: 92996},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 20, offset: 92548},
+																																											pos:        position{line: 2941, col: 20, offset: 93003},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 29, offset: 92557},
+																																											pos:        position{line: 2941, col: 29, offset: 93012},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2937, col: 8, offset: 92717},
+																																								pos: position{line: 2951, col: 8, offset: 93172},
 																																								expr: &anyMatcher{
-																																									line: 2937, col: 9, offset: 92718,
+																																									line: 2951, col: 9, offset: 93173,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2674, col: 5, offset: 85120},
+																																		pos:   position{line: 2675, col: 5, offset: 85145},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2674, col: 12, offset: 85127},
+																																			pos: position{line: 2675, col: 12, offset: 85152},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2691, col: 20, offset: 85591},
+																																				pos: position{line: 2692, col: 20, offset: 85616},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2691, col: 20, offset: 85591},
+																																					pos: position{line: 2692, col: 20, offset: 85616},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2691, col: 20, offset: 85591},
+																																						pos:        position{line: 2692, col: 20, offset: 85616},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2674, col: 31, offset: 85146},
+																																		pos:        position{line: 2675, col: 31, offset: 85171},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2674, col: 35, offset: 85150},
+																																		pos: position{line: 2675, col: 35, offset: 85175},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2918, col: 10, offset: 92369},
+																																			pos: position{line: 2932, col: 10, offset: 92824},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2918, col: 10, offset: 92369},
+																																				pos:        position{line: 2932, col: 10, offset: 92824},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2674, col: 42, offset: 85157},
+																																		pos: position{line: 2675, col: 42, offset: 85182},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2927, col: 12, offset: 92540},
+																																			pos: position{line: 2941, col: 12, offset: 92995},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2927, col: 13, offset: 92541},
+																																				pos: position{line: 2941, col: 13, offset: 92996},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 13, offset: 92541},
+																																						pos:        position{line: 2941, col: 13, offset: 92996},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 20, offset: 92548},
+																																						pos:        position{line: 2941, col: 20, offset: 93003},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2927, col: 29, offset: 92557},
+																																						pos:        position{line: 2941, col: 29, offset: 93012},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2674, col: 51, offset: 85166},
+																																		pos:   position{line: 2675, col: 51, offset: 85191},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2680, col: 5, offset: 85325},
+																																			pos: position{line: 2681, col: 5, offset: 85350},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2681, col: 9, offset: 85335},
+																																				pos: position{line: 2682, col: 9, offset: 85360},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2681, col: 9, offset: 85335},
+																																					pos: position{line: 2682, col: 9, offset: 85360},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2681, col: 9, offset: 85335},
+																																							pos: position{line: 2682, col: 9, offset: 85360},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2637, col: 22, offset: 84279},
+																																								pos: position{line: 2638, col: 22, offset: 84304},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2633, col: 19, offset: 84199},
+																																										pos: position{line: 2634, col: 19, offset: 84224},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2633, col: 19, offset: 84199},
+																																												pos:        position{line: 2634, col: 19, offset: 84224},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2633, col: 26, offset: 84206},
+																																												pos: position{line: 2634, col: 26, offset: 84231},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2918, col: 10, offset: 92369},
+																																													pos: position{line: 2932, col: 10, offset: 92824},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2918, col: 10, offset: 92369},
+																																														pos:        position{line: 2932, col: 10, offset: 92824},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2940, col: 8, offset: 92767},
+																																												pos: position{line: 2954, col: 8, offset: 93222},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2927, col: 12, offset: 92540},
+																																														pos: position{line: 2941, col: 12, offset: 92995},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2927, col: 13, offset: 92541},
+																																															pos: position{line: 2941, col: 13, offset: 92996},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2937, col: 8, offset: 92717},
+																																														pos: position{line: 2951, col: 8, offset: 93172},
 																																														expr: &anyMatcher{
-																																															line: 2937, col: 9, offset: 92718,
+																																															line: 2951, col: 9, offset: 93173,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2937, col: 8, offset: 92717},
+																																										pos: position{line: 2951, col: 8, offset: 93172},
 																																										expr: &anyMatcher{
-																																											line: 2937, col: 9, offset: 92718,
+																																											line: 2951, col: 9, offset: 93173,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2682, col: 9, offset: 85362},
+																																							pos: position{line: 2683, col: 9, offset: 85387},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2935, col: 11, offset: 92703},
+																																											pos: position{line: 2949, col: 11, offset: 93158},
 																																											expr: &anyMatcher{
-																																												line: 2935, col: 13, offset: 92705,
+																																												line: 2949, col: 13, offset: 93160,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2918, col: 10, offset: 92369},
+																																												pos: position{line: 2932, col: 10, offset: 92824},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2918, col: 10, offset: 92369},
+																																													pos:        position{line: 2932, col: 10, offset: 92824},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2940, col: 8, offset: 92767},
+																																											pos: position{line: 2954, col: 8, offset: 93222},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2927, col: 12, offset: 92540},
+																																													pos: position{line: 2941, col: 12, offset: 92995},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2927, col: 13, offset: 92541},
+																																														pos: position{line: 2941, col: 13, offset: 92996},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2937, col: 8, offset: 92717},
+																																													pos: position{line: 2951, col: 8, offset: 93172},
 																																													expr: &anyMatcher{
-																																														line: 2937, col: 9, offset: 92718,
+																																														line: 2951, col: 9, offset: 93173,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2683, col: 9, offset: 85381},
+																																							pos: position{line: 2684, col: 9, offset: 85406},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2683, col: 11, offset: 85383},
+																																								pos: position{line: 2684, col: 11, offset: 85408},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2683, col: 11, offset: 85383},
+																																										pos:   position{line: 2684, col: 11, offset: 85408},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2683, col: 18, offset: 85390},
+																																											pos: position{line: 2684, col: 18, offset: 85415},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2691, col: 20, offset: 85591},
+																																												pos: position{line: 2692, col: 20, offset: 85616},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2691, col: 20, offset: 85591},
+																																													pos: position{line: 2692, col: 20, offset: 85616},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2691, col: 20, offset: 85591},
+																																														pos:        position{line: 2692, col: 20, offset: 85616},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2683, col: 37, offset: 85409},
+																																										pos:        position{line: 2684, col: 37, offset: 85434},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2684, col: 9, offset: 85422},
+																																							pos:   position{line: 2685, col: 9, offset: 85447},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2684, col: 18, offset: 85431},
+																																								pos: position{line: 2685, col: 18, offset: 85456},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2684, col: 18, offset: 85431},
+																																									pos: position{line: 2685, col: 18, offset: 85456},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2684, col: 18, offset: 85431},
+																																										pos:        position{line: 2685, col: 18, offset: 85456},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2686, col: 12, offset: 85493},
+																																							pos: position{line: 2687, col: 12, offset: 85518},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2940, col: 8, offset: 92767},
+																																								pos: position{line: 2954, col: 8, offset: 93222},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2927, col: 12, offset: 92540},
+																																										pos: position{line: 2941, col: 12, offset: 92995},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2927, col: 13, offset: 92541},
+																																											pos: position{line: 2941, col: 13, offset: 92996},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2927, col: 13, offset: 92541},
+																																													pos:        position{line: 2941, col: 13, offset: 92996},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2927, col: 20, offset: 92548},
+																																													pos:        position{line: 2941, col: 20, offset: 93003},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2927, col: 29, offset: 92557},
+																																													pos:        position{line: 2941, col: 29, offset: 93012},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2937, col: 8, offset: 92717},
+																																										pos: position{line: 2951, col: 8, offset: 93172},
 																																										expr: &anyMatcher{
-																																											line: 2937, col: 9, offset: 92718,
+																																											line: 2951, col: 9, offset: 93173,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2935, col: 11, offset: 92703},
+																											pos: position{line: 2949, col: 11, offset: 93158},
 																											expr: &anyMatcher{
-																												line: 2935, col: 13, offset: 92705,
+																												line: 2949, col: 13, offset: 93160,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2637, col: 22, offset: 84279},
+														pos: position{line: 2638, col: 22, offset: 84304},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2633, col: 19, offset: 84199},
+																pos: position{line: 2634, col: 19, offset: 84224},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2633, col: 19, offset: 84199},
+																		pos:        position{line: 2634, col: 19, offset: 84224},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2633, col: 26, offset: 84206},
+																		pos: position{line: 2634, col: 26, offset: 84231},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2501, col: 22, offset: 80501},
+												pos: position{line: 2502, col: 22, offset: 80526},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2506, col: 31, offset: 80722},
+														pos:        position{line: 2507, col: 31, offset: 80747},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2506, col: 36, offset: 80727},
+														pos: position{line: 2507, col: 36, offset: 80752},
 														expr: &litMatcher{
-															pos:        position{line: 2506, col: 37, offset: 80728},
+															pos:        position{line: 2507, col: 37, offset: 80753},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2501, col: 49, offset: 80528},
+														pos:   position{line: 2502, col: 49, offset: 80553},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2837, col: 13, offset: 90056},
+																pos: position{line: 2851, col: 13, offset: 90511},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 13, offset: 90056},
+																	pos:        position{line: 2851, col: 13, offset: 90511},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
+																											pos: position{line: 2932, col: 10, offset: 92824},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2940, col: 8, offset: 92767},
+																										pos: position{line: 2954, col: 8, offset: 93222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2927, col: 12, offset: 92540},
+																												pos: position{line: 2941, col: 12, offset: 92995},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2927, col: 13, offset: 92541},
+																													pos: position{line: 2941, col: 13, offset: 92996},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 13, offset: 92541},
+																															pos:        position{line: 2941, col: 13, offset: 92996},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 20, offset: 92548},
+																															pos:        position{line: 2941, col: 20, offset: 93003},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 29, offset: 92557},
+																															pos:        position{line: 2941, col: 29, offset: 93012},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2937, col: 8, offset: 92717},
+																												pos: position{line: 2951, col: 8, offset: 93172},
 																												expr: &anyMatcher{
-																													line: 2937, col: 9, offset: 92718,
+																													line: 2951, col: 9, offset: 93173,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2922, col: 11, offset: 92430},
+												pos: position{line: 2936, col: 11, offset: 92885},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2922, col: 11, offset: 92430},
+													pos: position{line: 2936, col: 11, offset: 92885},
 													expr: &charClassMatcher{
-														pos:        position{line: 2922, col: 11, offset: 92430},
+														pos:        position{line: 2936, col: 11, offset: 92885},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92540},
+												pos: position{line: 2941, col: 12, offset: 92995},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92541},
+													pos: position{line: 2941, col: 13, offset: 92996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92541},
+															pos:        position{line: 2941, col: 13, offset: 92996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92548},
+															pos:        position{line: 2941, col: 20, offset: 93003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92557},
+															pos:        position{line: 2941, col: 29, offset: 93012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92369},
+													pos: position{line: 2932, col: 10, offset: 92824},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92369},
+														pos:        position{line: 2932, col: 10, offset: 92824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92369},
+											pos: position{line: 2932, col: 10, offset: 92824},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92369},
+												pos:        position{line: 2932, col: 10, offset: 92824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2940, col: 8, offset: 92767},
+										pos: position{line: 2954, col: 8, offset: 93222},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92540},
+												pos: position{line: 2941, col: 12, offset: 92995},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92541},
+													pos: position{line: 2941, col: 13, offset: 92996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92541},
+															pos:        position{line: 2941, col: 13, offset: 92996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92548},
+															pos:        position{line: 2941, col: 20, offset: 93003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92557},
+															pos:        position{line: 2941, col: 29, offset: 93012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2937, col: 8, offset: 92717},
+												pos: position{line: 2951, col: 8, offset: 93172},
 												expr: &anyMatcher{
-													line: 2937, col: 9, offset: 92718,
+													line: 2951, col: 9, offset: 93173,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80047},
+										pos: position{line: 2489, col: 5, offset: 80072},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2488, col: 5, offset: 80047},
+													pos: position{line: 2489, col: 5, offset: 80072},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2491, col: 5, offset: 80123},
+													pos:   position{line: 2492, col: 5, offset: 80148},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2492, col: 9, offset: 80141},
+														pos: position{line: 2493, col: 9, offset: 80166},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2492, col: 10, offset: 80142},
+															pos:        position{line: 2493, col: 10, offset: 80167},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92369},
+										pos: position{line: 2932, col: 10, offset: 92824},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92369},
+											pos:        position{line: 2932, col: 10, offset: 92824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92369},
+													pos: position{line: 2932, col: 10, offset: 92824},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92369},
+														pos:        position{line: 2932, col: 10, offset: 92824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92767},
+												pos: position{line: 2954, col: 8, offset: 93222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92540},
+														pos: position{line: 2941, col: 12, offset: 92995},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92541},
+															pos: position{line: 2941, col: 13, offset: 92996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92541},
+																	pos:        position{line: 2941, col: 13, offset: 92996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92548},
+																	pos:        position{line: 2941, col: 20, offset: 93003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92557},
+																	pos:        position{line: 2941, col: 29, offset: 93012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92717},
+														pos: position{line: 2951, col: 8, offset: 93172},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92718,
+															line: 2951, col: 9, offset: 93173,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2785, col: 14, offset: 88685},
+																				pos: position{line: 2790, col: 14, offset: 88846},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2785, col: 14, offset: 88685},
+																					pos: position{line: 2790, col: 14, offset: 88846},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2785, col: 14, offset: 88685},
+																						pos:        position{line: 2790, col: 14, offset: 88846},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2808, col: 5, offset: 89184},
+																				pos: position{line: 2822, col: 5, offset: 89639},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2809, col: 9, offset: 89194},
+																					pos: position{line: 2823, col: 9, offset: 89649},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2809, col: 10, offset: 89195},
+																							pos:        position{line: 2823, col: 10, offset: 89650},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2811, col: 13, offset: 89292},
+																							pos: position{line: 2825, col: 13, offset: 89747},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2811, col: 13, offset: 89292},
+																									pos: position{line: 2825, col: 13, offset: 89747},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89392},
+																									pos:        position{line: 2828, col: 13, offset: 89847},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2814, col: 19, offset: 89398},
+																							pos:        position{line: 2828, col: 19, offset: 89853},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2817, col: 13, offset: 89436},
+																							pos: position{line: 2831, col: 13, offset: 89891},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2817, col: 13, offset: 89436},
+																									pos: position{line: 2831, col: 13, offset: 89891},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2820, col: 14, offset: 89529},
+																									pos:        position{line: 2834, col: 14, offset: 89984},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2822, col: 12, offset: 89573},
+																							pos: position{line: 2836, col: 12, offset: 90028},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2822, col: 12, offset: 89573},
+																									pos:        position{line: 2836, col: 12, offset: 90028},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2822, col: 16, offset: 89577},
+																									pos: position{line: 2836, col: 16, offset: 90032},
 																									expr: &litMatcher{
-																										pos:        position{line: 2822, col: 17, offset: 89578},
+																										pos:        position{line: 2836, col: 17, offset: 90033},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2830, col: 12, offset: 89838},
+																				pos: position{line: 2844, col: 12, offset: 90293},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2830, col: 12, offset: 89838},
+																					pos:        position{line: 2844, col: 12, offset: 90293},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92369},
+													pos: position{line: 2932, col: 10, offset: 92824},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92369},
+														pos:        position{line: 2932, col: 10, offset: 92824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92767},
+												pos: position{line: 2954, col: 8, offset: 93222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92540},
+														pos: position{line: 2941, col: 12, offset: 92995},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92541},
+															pos: position{line: 2941, col: 13, offset: 92996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92541},
+																	pos:        position{line: 2941, col: 13, offset: 92996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92548},
+																	pos:        position{line: 2941, col: 20, offset: 93003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92557},
+																	pos:        position{line: 2941, col: 29, offset: 93012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92717},
+														pos: position{line: 2951, col: 8, offset: 93172},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92718,
+															line: 2951, col: 9, offset: 93173,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92369},
+													pos: position{line: 2932, col: 10, offset: 92824},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92369},
+														pos:        position{line: 2932, col: 10, offset: 92824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92767},
+												pos: position{line: 2954, col: 8, offset: 93222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92540},
+														pos: position{line: 2941, col: 12, offset: 92995},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92541},
+															pos: position{line: 2941, col: 13, offset: 92996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92541},
+																	pos:        position{line: 2941, col: 13, offset: 92996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92548},
+																	pos:        position{line: 2941, col: 20, offset: 93003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92557},
+																	pos:        position{line: 2941, col: 29, offset: 93012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92717},
+														pos: position{line: 2951, col: 8, offset: 93172},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92718,
+															line: 2951, col: 9, offset: 93173,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92369},
+											pos: position{line: 2932, col: 10, offset: 92824},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92369},
+												pos:        position{line: 2932, col: 10, offset: 92824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2918, col: 10, offset: 92369},
+													pos: position{line: 2932, col: 10, offset: 92824},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2918, col: 10, offset: 92369},
+														pos:        position{line: 2932, col: 10, offset: 92824},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92369},
+												pos: position{line: 2932, col: 10, offset: 92824},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92369},
+													pos:        position{line: 2932, col: 10, offset: 92824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92369},
+											pos: position{line: 2932, col: 10, offset: 92824},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92369},
+												pos:        position{line: 2932, col: 10, offset: 92824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92369},
+												pos: position{line: 2932, col: 10, offset: 92824},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92369},
+													pos:        position{line: 2932, col: 10, offset: 92824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2785, col: 14, offset: 88685},
+									pos: position{line: 2790, col: 14, offset: 88846},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2785, col: 14, offset: 88685},
+										pos: position{line: 2790, col: 14, offset: 88846},
 										expr: &charClassMatcher{
-											pos:        position{line: 2785, col: 14, offset: 88685},
+											pos:        position{line: 2790, col: 14, offset: 88846},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92369},
+									pos: position{line: 2932, col: 10, offset: 92824},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92369},
+										pos:        position{line: 2932, col: 10, offset: 92824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92369},
+												pos: position{line: 2932, col: 10, offset: 92824},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92369},
+													pos:        position{line: 2932, col: 10, offset: 92824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2785, col: 14, offset: 88685},
+									pos: position{line: 2790, col: 14, offset: 88846},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2785, col: 14, offset: 88685},
+										pos: position{line: 2790, col: 14, offset: 88846},
 										expr: &charClassMatcher{
-											pos:        position{line: 2785, col: 14, offset: 88685},
+											pos:        position{line: 2790, col: 14, offset: 88846},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92369},
+									pos: position{line: 2932, col: 10, offset: 92824},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92369},
+										pos:        position{line: 2932, col: 10, offset: 92824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92369},
+											pos: position{line: 2932, col: 10, offset: 92824},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92369},
+												pos:        position{line: 2932, col: 10, offset: 92824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 7, offset: 92021},
+										pos: position{line: 2917, col: 7, offset: 92476},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2903, col: 7, offset: 92021},
+											pos: position{line: 2917, col: 7, offset: 92476},
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 7, offset: 92021},
+												pos:        position{line: 2917, col: 7, offset: 92476},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92369},
+										pos: position{line: 2932, col: 10, offset: 92824},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92369},
+											pos:        position{line: 2932, col: 10, offset: 92824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 7, offset: 92021},
+										pos: position{line: 2917, col: 7, offset: 92476},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2903, col: 7, offset: 92021},
+											pos: position{line: 2917, col: 7, offset: 92476},
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 7, offset: 92021},
+												pos:        position{line: 2917, col: 7, offset: 92476},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2845, col: 17, offset: 90193},
+								pos: position{line: 2859, col: 17, offset: 90648},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2845, col: 17, offset: 90193},
+									pos:   position{line: 2859, col: 17, offset: 90648},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 5, offset: 90778},
+										pos: position{line: 2880, col: 5, offset: 91233},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2866, col: 5, offset: 90778},
+											pos:   position{line: 2880, col: 5, offset: 91233},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2866, col: 14, offset: 90787},
+												pos: position{line: 2880, col: 14, offset: 91242},
 												expr: &choiceExpr{
-													pos: position{line: 2867, col: 9, offset: 90797},
+													pos: position{line: 2881, col: 9, offset: 91252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2867, col: 9, offset: 90797},
+															pos: position{line: 2881, col: 9, offset: 91252},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2867, col: 9, offset: 90797},
+																pos: position{line: 2881, col: 9, offset: 91252},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2867, col: 9, offset: 90797},
+																		pos: position{line: 2881, col: 9, offset: 91252},
 																		expr: &litMatcher{
-																			pos:        position{line: 2867, col: 10, offset: 90798},
+																			pos:        position{line: 2881, col: 10, offset: 91253},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2868, col: 9, offset: 90826},
+																		pos: position{line: 2882, col: 9, offset: 91281},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90827},
+																			pos:        position{line: 2882, col: 10, offset: 91282},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2871, col: 11, offset: 91039},
+															pos: position{line: 2885, col: 11, offset: 91494},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2871, col: 11, offset: 91039},
+																	pos:        position{line: 2885, col: 11, offset: 91494},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2871, col: 19, offset: 91047},
+																	pos: position{line: 2885, col: 19, offset: 91502},
 																	expr: &seqExpr{
-																		pos: position{line: 2871, col: 21, offset: 91049},
+																		pos: position{line: 2885, col: 21, offset: 91504},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2871, col: 21, offset: 91049},
+																				pos: position{line: 2885, col: 21, offset: 91504},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92369},
+																					pos: position{line: 2932, col: 10, offset: 92824},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92369},
+																						pos:        position{line: 2932, col: 10, offset: 92824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 28, offset: 91056},
+																				pos: position{line: 2885, col: 28, offset: 91511},
 																				expr: &notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2874, col: 11, offset: 91176},
+															pos: position{line: 2888, col: 11, offset: 91631},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2874, col: 11, offset: 91176},
+																pos:        position{line: 2888, col: 11, offset: 91631},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2841, col: 14, offset: 90123},
+								pos: position{line: 2855, col: 14, offset: 90578},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2841, col: 14, offset: 90123},
+									pos: position{line: 2855, col: 14, offset: 90578},
 									expr: &charClassMatcher{
-										pos:        position{line: 2841, col: 14, offset: 90123},
+										pos:        position{line: 2855, col: 14, offset: 90578},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2501, col: 22, offset: 80501},
+										pos: position{line: 2502, col: 22, offset: 80526},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2506, col: 31, offset: 80722},
+													pos:        position{line: 2507, col: 31, offset: 80747},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2506, col: 36, offset: 80727},
+													pos: position{line: 2507, col: 36, offset: 80752},
 													expr: &litMatcher{
-														pos:        position{line: 2506, col: 37, offset: 80728},
+														pos:        position{line: 2507, col: 37, offset: 80753},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 49, offset: 80528},
+													pos:   position{line: 2502, col: 49, offset: 80553},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 13, offset: 90056},
+														pos: position{line: 2851, col: 13, offset: 90511},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 13, offset: 90056},
+																pos:        position{line: 2851, col: 13, offset: 90511},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2501, col: 22, offset: 80501},
+										pos: position{line: 2502, col: 22, offset: 80526},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2506, col: 31, offset: 80722},
+													pos:        position{line: 2507, col: 31, offset: 80747},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2506, col: 36, offset: 80727},
+													pos: position{line: 2507, col: 36, offset: 80752},
 													expr: &litMatcher{
-														pos:        position{line: 2506, col: 37, offset: 80728},
+														pos:        position{line: 2507, col: 37, offset: 80753},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 49, offset: 80528},
+													pos:   position{line: 2502, col: 49, offset: 80553},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 13, offset: 90056},
+														pos: position{line: 2851, col: 13, offset: 90511},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 13, offset: 90056},
+																pos:        position{line: 2851, col: 13, offset: 90511},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
+																											pos: position{line: 2932, col: 10, offset: 92824},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
+																											pos: position{line: 2932, col: 10, offset: 92824},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
+																											pos: position{line: 2932, col: 10, offset: 92824},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2935, col: 11, offset: 92703},
+																										pos: position{line: 2949, col: 11, offset: 93158},
 																										expr: &anyMatcher{
-																											line: 2935, col: 13, offset: 92705,
+																											line: 2949, col: 13, offset: 93160,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2501, col: 22, offset: 80501},
+															pos: position{line: 2502, col: 22, offset: 80526},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 22, offset: 80501},
+																pos: position{line: 2502, col: 22, offset: 80526},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2506, col: 31, offset: 80722},
+																		pos:        position{line: 2507, col: 31, offset: 80747},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2506, col: 36, offset: 80727},
+																		pos: position{line: 2507, col: 36, offset: 80752},
 																		expr: &litMatcher{
-																			pos:        position{line: 2506, col: 37, offset: 80728},
+																			pos:        position{line: 2507, col: 37, offset: 80753},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2501, col: 49, offset: 80528},
+																		pos:   position{line: 2502, col: 49, offset: 80553},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2837, col: 13, offset: 90056},
+																			pos: position{line: 2851, col: 13, offset: 90511},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2837, col: 13, offset: 90056},
+																				pos: position{line: 2851, col: 13, offset: 90511},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 13, offset: 90056},
+																					pos:        position{line: 2851, col: 13, offset: 90511},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2918, col: 10, offset: 92369},
+																																	pos: position{line: 2932, col: 10, offset: 92824},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2918, col: 10, offset: 92369},
+																																		pos:        position{line: 2932, col: 10, offset: 92824},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2940, col: 8, offset: 92767},
+																																pos: position{line: 2954, col: 8, offset: 93222},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2927, col: 12, offset: 92540},
+																																		pos: position{line: 2941, col: 12, offset: 92995},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2927, col: 13, offset: 92541},
+																																			pos: position{line: 2941, col: 13, offset: 92996},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 13, offset: 92541},
+																																					pos:        position{line: 2941, col: 13, offset: 92996},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 20, offset: 92548},
+																																					pos:        position{line: 2941, col: 20, offset: 93003},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 29, offset: 92557},
+																																					pos:        position{line: 2941, col: 29, offset: 93012},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2937, col: 8, offset: 92717},
+																																		pos: position{line: 2951, col: 8, offset: 93172},
 																																		expr: &anyMatcher{
-																																			line: 2937, col: 9, offset: 92718,
+																																			line: 2951, col: 9, offset: 93173,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2935, col: 11, offset: 92703},
+																											pos: position{line: 2949, col: 11, offset: 93158},
 																											expr: &anyMatcher{
-																												line: 2935, col: 13, offset: 92705,
+																												line: 2949, col: 13, offset: 93160,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2837, col: 13, offset: 90056},
+																												pos: position{line: 2851, col: 13, offset: 90511},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2837, col: 13, offset: 90056},
+																													pos: position{line: 2851, col: 13, offset: 90511},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2837, col: 13, offset: 90056},
+																														pos:        position{line: 2851, col: 13, offset: 90511},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
+																														pos: position{line: 2932, col: 10, offset: 92824},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2918, col: 10, offset: 92369},
+															pos: position{line: 2932, col: 10, offset: 92824},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 10, offset: 92369},
+																pos:        position{line: 2932, col: 10, offset: 92824},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2501, col: 22, offset: 80501},
+												pos: position{line: 2502, col: 22, offset: 80526},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2506, col: 31, offset: 80722},
+														pos:        position{line: 2507, col: 31, offset: 80747},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2506, col: 36, offset: 80727},
+														pos: position{line: 2507, col: 36, offset: 80752},
 														expr: &litMatcher{
-															pos:        position{line: 2506, col: 37, offset: 80728},
+															pos:        position{line: 2507, col: 37, offset: 80753},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2501, col: 49, offset: 80528},
+														pos:   position{line: 2502, col: 49, offset: 80553},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2837, col: 13, offset: 90056},
+																pos: position{line: 2851, col: 13, offset: 90511},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 13, offset: 90056},
+																	pos:        position{line: 2851, col: 13, offset: 90511},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2918, col: 10, offset: 92369},
+																													pos: position{line: 2932, col: 10, offset: 92824},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2918, col: 10, offset: 92369},
+																														pos:        position{line: 2932, col: 10, offset: 92824},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2940, col: 8, offset: 92767},
+																												pos: position{line: 2954, col: 8, offset: 93222},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2927, col: 12, offset: 92540},
+																														pos: position{line: 2941, col: 12, offset: 92995},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2927, col: 13, offset: 92541},
+																															pos: position{line: 2941, col: 13, offset: 92996},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 13, offset: 92541},
+																																	pos:        position{line: 2941, col: 13, offset: 92996},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 20, offset: 92548},
+																																	pos:        position{line: 2941, col: 20, offset: 93003},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2927, col: 29, offset: 92557},
+																																	pos:        position{line: 2941, col: 29, offset: 93012},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2937, col: 8, offset: 92717},
+																														pos: position{line: 2951, col: 8, offset: 93172},
 																														expr: &anyMatcher{
-																															line: 2937, col: 9, offset: 92718,
+																															line: 2951, col: 9, offset: 93173,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2837, col: 13, offset: 90056},
+																									pos: position{line: 2851, col: 13, offset: 90511},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2837, col: 13, offset: 90056},
+																										pos:        position{line: 2851, col: 13, offset: 90511},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2922, col: 11, offset: 92430},
+							pos: position{line: 2936, col: 11, offset: 92885},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2922, col: 11, offset: 92430},
+								pos: position{line: 2936, col: 11, offset: 92885},
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 11, offset: 92430},
+									pos:        position{line: 2936, col: 11, offset: 92885},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40664},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 7, offset: 92021},
+								pos: position{line: 2917, col: 7, offset: 92476},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2903, col: 7, offset: 92021},
+									pos: position{line: 2917, col: 7, offset: 92476},
 									expr: &charClassMatcher{
-										pos:        position{line: 2903, col: 7, offset: 92021},
+										pos:        position{line: 2917, col: 7, offset: 92476},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41124},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2785, col: 14, offset: 88685},
+									pos: position{line: 2790, col: 14, offset: 88846},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2785, col: 14, offset: 88685},
+										pos: position{line: 2790, col: 14, offset: 88846},
 										expr: &charClassMatcher{
-											pos:        position{line: 2785, col: 14, offset: 88685},
+											pos:        position{line: 2790, col: 14, offset: 88846},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2918, col: 10, offset: 92369},
+									pos: position{line: 2932, col: 10, offset: 92824},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 10, offset: 92369},
+										pos:        position{line: 2932, col: 10, offset: 92824},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2488, col: 5, offset: 80047},
+									pos: position{line: 2489, col: 5, offset: 80072},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2488, col: 5, offset: 80047},
+										pos: position{line: 2489, col: 5, offset: 80072},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2488, col: 5, offset: 80047},
+												pos: position{line: 2489, col: 5, offset: 80072},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2491, col: 5, offset: 80123},
+												pos:   position{line: 2492, col: 5, offset: 80148},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2492, col: 9, offset: 80141},
+													pos: position{line: 2493, col: 9, offset: 80166},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2492, col: 10, offset: 80142},
+														pos:        position{line: 2493, col: 10, offset: 80167},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41942},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2849, col: 13, offset: 90289},
+								pos: position{line: 2863, col: 13, offset: 90744},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2849, col: 13, offset: 90289},
+									pos: position{line: 2863, col: 13, offset: 90744},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2849, col: 13, offset: 90289},
+											pos:   position{line: 2863, col: 13, offset: 90744},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2849, col: 20, offset: 90296},
+												pos: position{line: 2863, col: 20, offset: 90751},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 11, offset: 90666},
+													pos: position{line: 2875, col: 11, offset: 91121},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 12, offset: 90667},
+														pos: position{line: 2875, col: 12, offset: 91122},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90667},
+																pos:        position{line: 2875, col: 12, offset: 91122},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 24, offset: 90679},
+																pos:        position{line: 2875, col: 24, offset: 91134},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 37, offset: 90692},
+																pos:        position{line: 2875, col: 37, offset: 91147},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 48, offset: 90703},
+																pos:        position{line: 2875, col: 48, offset: 91158},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 59, offset: 90714},
+																pos:        position{line: 2875, col: 59, offset: 91169},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2849, col: 30, offset: 90306},
+											pos:   position{line: 2863, col: 30, offset: 90761},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 5, offset: 90778},
+												pos: position{line: 2880, col: 5, offset: 91233},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2866, col: 5, offset: 90778},
+													pos:   position{line: 2880, col: 5, offset: 91233},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2866, col: 14, offset: 90787},
+														pos: position{line: 2880, col: 14, offset: 91242},
 														expr: &choiceExpr{
-															pos: position{line: 2867, col: 9, offset: 90797},
+															pos: position{line: 2881, col: 9, offset: 91252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2867, col: 9, offset: 90797},
+																		pos: position{line: 2881, col: 9, offset: 91252},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				expr: &litMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90798},
+																					pos:        position{line: 2881, col: 10, offset: 91253},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2868, col: 9, offset: 90826},
+																				pos: position{line: 2882, col: 9, offset: 91281},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90827},
+																					pos:        position{line: 2882, col: 10, offset: 91282},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2871, col: 11, offset: 91039},
+																	pos: position{line: 2885, col: 11, offset: 91494},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 91039},
+																			pos:        position{line: 2885, col: 11, offset: 91494},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2871, col: 19, offset: 91047},
+																			pos: position{line: 2885, col: 19, offset: 91502},
 																			expr: &seqExpr{
-																				pos: position{line: 2871, col: 21, offset: 91049},
+																				pos: position{line: 2885, col: 21, offset: 91504},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 28, offset: 91056},
+																						pos: position{line: 2885, col: 28, offset: 91511},
 																						expr: &notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 91176},
+																	pos: position{line: 2888, col: 11, offset: 91631},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2874, col: 11, offset: 91176},
+																		pos:        position{line: 2888, col: 11, offset: 91631},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41988},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42234},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2849, col: 13, offset: 90289},
+								pos: position{line: 2863, col: 13, offset: 90744},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2849, col: 13, offset: 90289},
+									pos: position{line: 2863, col: 13, offset: 90744},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2849, col: 13, offset: 90289},
+											pos:   position{line: 2863, col: 13, offset: 90744},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2849, col: 20, offset: 90296},
+												pos: position{line: 2863, col: 20, offset: 90751},
 												expr: &actionExpr{
-													pos: position{line: 2861, col: 11, offset: 90666},
+													pos: position{line: 2875, col: 11, offset: 91121},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 12, offset: 90667},
+														pos: position{line: 2875, col: 12, offset: 91122},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 12, offset: 90667},
+																pos:        position{line: 2875, col: 12, offset: 91122},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 24, offset: 90679},
+																pos:        position{line: 2875, col: 24, offset: 91134},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 37, offset: 90692},
+																pos:        position{line: 2875, col: 37, offset: 91147},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 48, offset: 90703},
+																pos:        position{line: 2875, col: 48, offset: 91158},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 59, offset: 90714},
+																pos:        position{line: 2875, col: 59, offset: 91169},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2849, col: 30, offset: 90306},
+											pos:   position{line: 2863, col: 30, offset: 90761},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 5, offset: 90778},
+												pos: position{line: 2880, col: 5, offset: 91233},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2866, col: 5, offset: 90778},
+													pos:   position{line: 2880, col: 5, offset: 91233},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2866, col: 14, offset: 90787},
+														pos: position{line: 2880, col: 14, offset: 91242},
 														expr: &choiceExpr{
-															pos: position{line: 2867, col: 9, offset: 90797},
+															pos: position{line: 2881, col: 9, offset: 91252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2867, col: 9, offset: 90797},
+																		pos: position{line: 2881, col: 9, offset: 91252},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				expr: &litMatcher{
-																					pos:        position{line: 2867, col: 10, offset: 90798},
+																					pos:        position{line: 2881, col: 10, offset: 91253},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2868, col: 9, offset: 90826},
+																				pos: position{line: 2882, col: 9, offset: 91281},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90827},
+																					pos:        position{line: 2882, col: 10, offset: 91282},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2871, col: 11, offset: 91039},
+																	pos: position{line: 2885, col: 11, offset: 91494},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2871, col: 11, offset: 91039},
+																			pos:        position{line: 2885, col: 11, offset: 91494},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2871, col: 19, offset: 91047},
+																			pos: position{line: 2885, col: 19, offset: 91502},
 																			expr: &seqExpr{
-																				pos: position{line: 2871, col: 21, offset: 91049},
+																				pos: position{line: 2885, col: 21, offset: 91504},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 28, offset: 91056},
+																						pos: position{line: 2885, col: 28, offset: 91511},
 																						expr: &notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 11, offset: 91176},
+																	pos: position{line: 2888, col: 11, offset: 91631},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2874, col: 11, offset: 91176},
+																		pos:        position{line: 2888, col: 11, offset: 91631},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,21 +21475,62 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43520},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88758},
+										pos: position{line: 2795, col: 5, offset: 88919},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2790, col: 5, offset: 88758},
+											pos: position{line: 2795, col: 5, offset: 88919},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2795, col: 5, offset: 88919},
+													expr: &seqExpr{
+														pos: position{line: 2796, col: 9, offset: 88930},
+														exprs: []interface{}{
+															&andCodeExpr{
+																pos: position{line: 2796, col: 9, offset: 88930},
+																run: (*parser).callonFootnoteElement11,
+															},
+															&labeledExpr{
+																pos:   position{line: 2799, col: 9, offset: 88993},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2771, col: 18, offset: 88305},
+																	run: (*parser).callonFootnoteElement13,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2771, col: 19, offset: 88306},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2799, col: 30, offset: 89014},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2800, col: 9, offset: 89101},
+																run: (*parser).callonFootnoteElement17,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2790, col: 5, offset: 88758},
+													pos:   position{line: 2804, col: 5, offset: 89213},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2790, col: 11, offset: 88764},
-														run: (*parser).callonFootnoteElement10,
+														pos: position{line: 2804, col: 11, offset: 89219},
+														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2790, col: 11, offset: 88764},
+															pos: position{line: 2804, col: 11, offset: 89219},
 															expr: &charClassMatcher{
-																pos:        position{line: 2790, col: 11, offset: 88764},
+																pos:        position{line: 2804, col: 11, offset: 89219},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21499,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2793, col: 5, offset: 88822},
+													pos: position{line: 2807, col: 5, offset: 89277},
 													expr: &seqExpr{
-														pos: position{line: 2794, col: 9, offset: 88833},
+														pos: position{line: 2808, col: 9, offset: 89288},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2794, col: 9, offset: 88833},
+																pos:        position{line: 2808, col: 9, offset: 89288},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2795, col: 9, offset: 88882},
-																run: (*parser).callonFootnoteElement16,
+																pos: position{line: 2809, col: 9, offset: 89337},
+																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2799, col: 5, offset: 88962},
+													pos: position{line: 2813, col: 5, offset: 89417},
 													expr: &seqExpr{
-														pos: position{line: 2800, col: 9, offset: 88973},
+														pos: position{line: 2814, col: 9, offset: 89428},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2800, col: 9, offset: 88973},
+																pos: position{line: 2814, col: 9, offset: 89428},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2800, col: 9, offset: 88973},
+																	pos:        position{line: 2814, col: 9, offset: 89428},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21533,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 23, offset: 88987},
+																pos:        position{line: 2814, col: 23, offset: 89442},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2800, col: 27, offset: 88991},
+																pos:        position{line: 2814, col: 27, offset: 89446},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21552,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 11, offset: 92430},
-										run: (*parser).callonFootnoteElement23,
+										pos: position{line: 2936, col: 11, offset: 92885},
+										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2922, col: 11, offset: 92430},
+											pos: position{line: 2936, col: 11, offset: 92885},
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 11, offset: 92430},
+												pos:        position{line: 2936, col: 11, offset: 92885},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21566,21 +21607,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2519, col: 5, offset: 81218},
-										run: (*parser).callonFootnoteElement26,
+										pos: position{line: 2520, col: 5, offset: 81243},
+										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2519, col: 5, offset: 81218},
+											pos: position{line: 2520, col: 5, offset: 81243},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2519, col: 5, offset: 81218},
+													pos:        position{line: 2520, col: 5, offset: 81243},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2519, col: 10, offset: 81223},
+													pos: position{line: 2520, col: 10, offset: 81248},
 													expr: &charClassMatcher{
-														pos:        position{line: 2519, col: 11, offset: 81224},
+														pos:        position{line: 2520, col: 11, offset: 81249},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21591,29 +21632,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81416},
-										run: (*parser).callonFootnoteElement31,
+										pos: position{line: 2526, col: 5, offset: 81441},
+										run: (*parser).callonFootnoteElement40,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81416},
+											pos: position{line: 2526, col: 5, offset: 81441},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81416},
-													run: (*parser).callonFootnoteElement33,
+													pos: position{line: 2526, col: 5, offset: 81441},
+													run: (*parser).callonFootnoteElement42,
 												},
 												&andCodeExpr{
-													pos: position{line: 2528, col: 5, offset: 81487},
-													run: (*parser).callonFootnoteElement34,
+													pos: position{line: 2529, col: 5, offset: 81512},
+													run: (*parser).callonFootnoteElement43,
 												},
 												&litMatcher{
-													pos:        position{line: 2532, col: 5, offset: 81612},
+													pos:        position{line: 2533, col: 5, offset: 81637},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2532, col: 9, offset: 81616},
+													pos: position{line: 2533, col: 9, offset: 81641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2532, col: 10, offset: 81617},
+														pos:        position{line: 2533, col: 10, offset: 81642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,27 +21673,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89184},
-										run: (*parser).callonFootnoteElement40,
+										pos: position{line: 2822, col: 5, offset: 89639},
+										run: (*parser).callonFootnoteElement49,
 										expr: &choiceExpr{
-											pos: position{line: 2809, col: 9, offset: 89194},
+											pos: position{line: 2823, col: 9, offset: 89649},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2809, col: 10, offset: 89195},
+													pos:        position{line: 2823, col: 10, offset: 89650},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 13, offset: 89292},
+													pos: position{line: 2825, col: 13, offset: 89747},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2811, col: 13, offset: 89292},
-															run: (*parser).callonFootnoteElement44,
+															pos: position{line: 2825, col: 13, offset: 89747},
+															run: (*parser).callonFootnoteElement53,
 														},
 														&litMatcher{
-															pos:        position{line: 2814, col: 13, offset: 89392},
+															pos:        position{line: 2828, col: 13, offset: 89847},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21660,20 +21701,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2814, col: 19, offset: 89398},
+													pos:        position{line: 2828, col: 19, offset: 89853},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 13, offset: 89436},
+													pos: position{line: 2831, col: 13, offset: 89891},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2817, col: 13, offset: 89436},
-															run: (*parser).callonFootnoteElement48,
+															pos: position{line: 2831, col: 13, offset: 89891},
+															run: (*parser).callonFootnoteElement57,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2820, col: 14, offset: 89529},
+															pos:        position{line: 2834, col: 14, offset: 89984},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21682,18 +21723,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 12, offset: 89573},
+													pos: position{line: 2836, col: 12, offset: 90028},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2822, col: 12, offset: 89573},
+															pos:        position{line: 2836, col: 12, offset: 90028},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2822, col: 16, offset: 89577},
+															pos: position{line: 2836, col: 16, offset: 90032},
 															expr: &litMatcher{
-																pos:        position{line: 2822, col: 17, offset: 89578},
+																pos:        position{line: 2836, col: 17, offset: 90033},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21710,13 +21751,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1234, col: 5, offset: 38289},
-										run: (*parser).callonFootnoteElement55,
+										run: (*parser).callonFootnoteElement64,
 										expr: &seqExpr{
 											pos: position{line: 1234, col: 5, offset: 38289},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1234, col: 5, offset: 38289},
-													run: (*parser).callonFootnoteElement57,
+													run: (*parser).callonFootnoteElement66,
 												},
 												&litMatcher{
 													pos:        position{line: 1237, col: 5, offset: 38365},
@@ -21726,15 +21767,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1238, col: 5, offset: 38373},
-													run: (*parser).callonFootnoteElement59,
+													run: (*parser).callonFootnoteElement68,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
-														run: (*parser).callonFootnoteElement61,
+														pos: position{line: 2932, col: 10, offset: 92824},
+														run: (*parser).callonFootnoteElement70,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21745,28 +21786,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
-																run: (*parser).callonFootnoteElement65,
+																pos: position{line: 2941, col: 12, offset: 92995},
+																run: (*parser).callonFootnoteElement74,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21775,9 +21816,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -21788,13 +21829,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 656, col: 5, offset: 20755},
-										run: (*parser).callonFootnoteElement72,
+										run: (*parser).callonFootnoteElement81,
 										expr: &seqExpr{
 											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 656, col: 5, offset: 20755},
-													run: (*parser).callonFootnoteElement74,
+													run: (*parser).callonFootnoteElement83,
 												},
 												&labeledExpr{
 													pos:   position{line: 659, col: 5, offset: 20827},
@@ -21804,7 +21845,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 665, col: 5, offset: 20965},
-																run: (*parser).callonFootnoteElement77,
+																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
@@ -21819,7 +21860,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement81,
+																				run: (*parser).callonFootnoteElement90,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21857,7 +21898,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 672, col: 5, offset: 21233},
-																run: (*parser).callonFootnoteElement87,
+																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
 																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
@@ -21872,7 +21913,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement91,
+																				run: (*parser).callonFootnoteElement100,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21910,7 +21951,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 678, col: 25, offset: 21437},
-																run: (*parser).callonFootnoteElement97,
+																run: (*parser).callonFootnoteElement106,
 																expr: &seqExpr{
 																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
@@ -21925,7 +21966,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement101,
+																				run: (*parser).callonFootnoteElement110,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21959,7 +22000,7 @@ var g = &grammar{
 																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonFootnoteElement108,
+																					run: (*parser).callonFootnoteElement117,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -21977,7 +22018,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonFootnoteElement113,
+																											run: (*parser).callonFootnoteElement122,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -21988,7 +22029,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonFootnoteElement115,
+																											run: (*parser).callonFootnoteElement124,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -22019,7 +22060,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 682, col: 25, offset: 21608},
-																run: (*parser).callonFootnoteElement119,
+																run: (*parser).callonFootnoteElement128,
 																expr: &seqExpr{
 																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
@@ -22034,7 +22075,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement123,
+																				run: (*parser).callonFootnoteElement132,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -22068,7 +22109,7 @@ var g = &grammar{
 																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonFootnoteElement130,
+																					run: (*parser).callonFootnoteElement139,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -22086,7 +22127,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonFootnoteElement135,
+																											run: (*parser).callonFootnoteElement144,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -22097,7 +22138,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonFootnoteElement137,
+																											run: (*parser).callonFootnoteElement146,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -22133,23 +22174,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80047},
-										run: (*parser).callonFootnoteElement141,
+										pos: position{line: 2489, col: 5, offset: 80072},
+										run: (*parser).callonFootnoteElement150,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2488, col: 5, offset: 80047},
-													run: (*parser).callonFootnoteElement143,
+													pos: position{line: 2489, col: 5, offset: 80072},
+													run: (*parser).callonFootnoteElement152,
 												},
 												&labeledExpr{
-													pos:   position{line: 2491, col: 5, offset: 80123},
+													pos:   position{line: 2492, col: 5, offset: 80148},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2492, col: 9, offset: 80141},
-														run: (*parser).callonFootnoteElement145,
+														pos: position{line: 2493, col: 9, offset: 80166},
+														run: (*parser).callonFootnoteElement154,
 														expr: &charClassMatcher{
-															pos:        position{line: 2492, col: 10, offset: 80142},
+															pos:        position{line: 2493, col: 10, offset: 80167},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22161,25 +22202,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92540},
-										run: (*parser).callonFootnoteElement147,
+										pos: position{line: 2941, col: 12, offset: 92995},
+										run: (*parser).callonFootnoteElement156,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92541},
+											pos: position{line: 2941, col: 13, offset: 92996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92541},
+													pos:        position{line: 2941, col: 13, offset: 92996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92548},
+													pos:        position{line: 2941, col: 20, offset: 93003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92557},
+													pos:        position{line: 2941, col: 29, offset: 93012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22188,10 +22229,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2830, col: 12, offset: 89838},
-										run: (*parser).callonFootnoteElement152,
+										pos: position{line: 2844, col: 12, offset: 90293},
+										run: (*parser).callonFootnoteElement161,
 										expr: &charClassMatcher{
-											pos:        position{line: 2830, col: 12, offset: 89838},
+											pos:        position{line: 2844, col: 12, offset: 90293},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22323,55 +22364,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46226},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2853, col: 23, offset: 90416},
+										pos: position{line: 2867, col: 23, offset: 90871},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2853, col: 23, offset: 90416},
+											pos: position{line: 2867, col: 23, offset: 90871},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2853, col: 23, offset: 90416},
+													pos: position{line: 2867, col: 23, offset: 90871},
 													expr: &litMatcher{
-														pos:        position{line: 2853, col: 24, offset: 90417},
+														pos:        position{line: 2867, col: 24, offset: 90872},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 28, offset: 90421},
+													pos:   position{line: 2867, col: 28, offset: 90876},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 11, offset: 90666},
+														pos: position{line: 2875, col: 11, offset: 91121},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 12, offset: 90667},
+															pos: position{line: 2875, col: 12, offset: 91122},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 12, offset: 90667},
+																	pos:        position{line: 2875, col: 12, offset: 91122},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 24, offset: 90679},
+																	pos:        position{line: 2875, col: 24, offset: 91134},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 37, offset: 90692},
+																	pos:        position{line: 2875, col: 37, offset: 91147},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 48, offset: 90703},
+																	pos:        position{line: 2875, col: 48, offset: 91158},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 59, offset: 90714},
+																	pos:        position{line: 2875, col: 59, offset: 91169},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22381,38 +22422,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 44, offset: 90437},
+													pos:   position{line: 2867, col: 44, offset: 90892},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22423,27 +22464,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22452,11 +22493,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -22851,10 +22892,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23056,48 +23097,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46641},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 13, offset: 90289},
+										pos: position{line: 2863, col: 13, offset: 90744},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2849, col: 13, offset: 90289},
+											pos: position{line: 2863, col: 13, offset: 90744},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2849, col: 13, offset: 90289},
+													pos:   position{line: 2863, col: 13, offset: 90744},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2849, col: 20, offset: 90296},
+														pos: position{line: 2863, col: 20, offset: 90751},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 11, offset: 90666},
+															pos: position{line: 2875, col: 11, offset: 91121},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 12, offset: 90667},
+																pos: position{line: 2875, col: 12, offset: 91122},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 12, offset: 90667},
+																		pos:        position{line: 2875, col: 12, offset: 91122},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 24, offset: 90679},
+																		pos:        position{line: 2875, col: 24, offset: 91134},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 37, offset: 90692},
+																		pos:        position{line: 2875, col: 37, offset: 91147},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 48, offset: 90703},
+																		pos:        position{line: 2875, col: 48, offset: 91158},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 59, offset: 90714},
+																		pos:        position{line: 2875, col: 59, offset: 91169},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23108,38 +23149,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2849, col: 30, offset: 90306},
+													pos:   position{line: 2863, col: 30, offset: 90761},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23150,27 +23191,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23179,11 +23220,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -23578,10 +23619,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23624,48 +23665,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46808},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 13, offset: 90289},
+										pos: position{line: 2863, col: 13, offset: 90744},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2849, col: 13, offset: 90289},
+											pos: position{line: 2863, col: 13, offset: 90744},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2849, col: 13, offset: 90289},
+													pos:   position{line: 2863, col: 13, offset: 90744},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2849, col: 20, offset: 90296},
+														pos: position{line: 2863, col: 20, offset: 90751},
 														expr: &actionExpr{
-															pos: position{line: 2861, col: 11, offset: 90666},
+															pos: position{line: 2875, col: 11, offset: 91121},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 12, offset: 90667},
+																pos: position{line: 2875, col: 12, offset: 91122},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 12, offset: 90667},
+																		pos:        position{line: 2875, col: 12, offset: 91122},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 24, offset: 90679},
+																		pos:        position{line: 2875, col: 24, offset: 91134},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 37, offset: 90692},
+																		pos:        position{line: 2875, col: 37, offset: 91147},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 48, offset: 90703},
+																		pos:        position{line: 2875, col: 48, offset: 91158},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 59, offset: 90714},
+																		pos:        position{line: 2875, col: 59, offset: 91169},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23676,38 +23717,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2849, col: 30, offset: 90306},
+													pos:   position{line: 2863, col: 30, offset: 90761},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23718,27 +23759,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23747,11 +23788,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -24146,10 +24187,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24201,55 +24242,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47117},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2853, col: 23, offset: 90416},
+										pos: position{line: 2867, col: 23, offset: 90871},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2853, col: 23, offset: 90416},
+											pos: position{line: 2867, col: 23, offset: 90871},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2853, col: 23, offset: 90416},
+													pos: position{line: 2867, col: 23, offset: 90871},
 													expr: &litMatcher{
-														pos:        position{line: 2853, col: 24, offset: 90417},
+														pos:        position{line: 2867, col: 24, offset: 90872},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 28, offset: 90421},
+													pos:   position{line: 2867, col: 28, offset: 90876},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 11, offset: 90666},
+														pos: position{line: 2875, col: 11, offset: 91121},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 12, offset: 90667},
+															pos: position{line: 2875, col: 12, offset: 91122},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 12, offset: 90667},
+																	pos:        position{line: 2875, col: 12, offset: 91122},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 24, offset: 90679},
+																	pos:        position{line: 2875, col: 24, offset: 91134},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 37, offset: 90692},
+																	pos:        position{line: 2875, col: 37, offset: 91147},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 48, offset: 90703},
+																	pos:        position{line: 2875, col: 48, offset: 91158},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 59, offset: 90714},
+																	pos:        position{line: 2875, col: 59, offset: 91169},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24259,38 +24300,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 44, offset: 90437},
+													pos:   position{line: 2867, col: 44, offset: 90892},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24301,27 +24342,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24330,11 +24371,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -24729,10 +24770,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24772,55 +24813,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47287},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2853, col: 23, offset: 90416},
+										pos: position{line: 2867, col: 23, offset: 90871},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2853, col: 23, offset: 90416},
+											pos: position{line: 2867, col: 23, offset: 90871},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2853, col: 23, offset: 90416},
+													pos: position{line: 2867, col: 23, offset: 90871},
 													expr: &litMatcher{
-														pos:        position{line: 2853, col: 24, offset: 90417},
+														pos:        position{line: 2867, col: 24, offset: 90872},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 28, offset: 90421},
+													pos:   position{line: 2867, col: 28, offset: 90876},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 11, offset: 90666},
+														pos: position{line: 2875, col: 11, offset: 91121},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 12, offset: 90667},
+															pos: position{line: 2875, col: 12, offset: 91122},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 12, offset: 90667},
+																	pos:        position{line: 2875, col: 12, offset: 91122},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 24, offset: 90679},
+																	pos:        position{line: 2875, col: 24, offset: 91134},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 37, offset: 90692},
+																	pos:        position{line: 2875, col: 37, offset: 91147},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 48, offset: 90703},
+																	pos:        position{line: 2875, col: 48, offset: 91158},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 59, offset: 90714},
+																	pos:        position{line: 2875, col: 59, offset: 91169},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24830,38 +24871,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2853, col: 44, offset: 90437},
+													pos:   position{line: 2867, col: 44, offset: 90892},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 5, offset: 90778},
+														pos: position{line: 2880, col: 5, offset: 91233},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2866, col: 5, offset: 90778},
+															pos:   position{line: 2880, col: 5, offset: 91233},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 14, offset: 90787},
+																pos: position{line: 2880, col: 14, offset: 91242},
 																expr: &choiceExpr{
-																	pos: position{line: 2867, col: 9, offset: 90797},
+																	pos: position{line: 2881, col: 9, offset: 91252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 9, offset: 90797},
+																			pos: position{line: 2881, col: 9, offset: 91252},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2867, col: 9, offset: 90797},
+																				pos: position{line: 2881, col: 9, offset: 91252},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2867, col: 9, offset: 90797},
+																						pos: position{line: 2881, col: 9, offset: 91252},
 																						expr: &litMatcher{
-																							pos:        position{line: 2867, col: 10, offset: 90798},
+																							pos:        position{line: 2881, col: 10, offset: 91253},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2868, col: 9, offset: 90826},
+																						pos: position{line: 2882, col: 9, offset: 91281},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90827},
+																							pos:        position{line: 2882, col: 10, offset: 91282},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24872,27 +24913,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2871, col: 11, offset: 91039},
+																			pos: position{line: 2885, col: 11, offset: 91494},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2871, col: 11, offset: 91039},
+																					pos:        position{line: 2885, col: 11, offset: 91494},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2871, col: 19, offset: 91047},
+																					pos: position{line: 2885, col: 19, offset: 91502},
 																					expr: &seqExpr{
-																						pos: position{line: 2871, col: 21, offset: 91049},
+																						pos: position{line: 2885, col: 21, offset: 91504},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2871, col: 21, offset: 91049},
+																								pos: position{line: 2885, col: 21, offset: 91504},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24901,11 +24942,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 28, offset: 91056},
+																								pos: position{line: 2885, col: 28, offset: 91511},
 																								expr: &notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -25300,10 +25341,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2874, col: 11, offset: 91176},
+																			pos: position{line: 2888, col: 11, offset: 91631},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91176},
+																				pos:        position{line: 2888, col: 11, offset: 91631},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25337,55 +25378,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47450},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2857, col: 27, offset: 90551},
+								pos: position{line: 2871, col: 27, offset: 91006},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2857, col: 27, offset: 90551},
+									pos: position{line: 2871, col: 27, offset: 91006},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2857, col: 27, offset: 90551},
+											pos: position{line: 2871, col: 27, offset: 91006},
 											expr: &litMatcher{
-												pos:        position{line: 2857, col: 28, offset: 90552},
+												pos:        position{line: 2871, col: 28, offset: 91007},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2857, col: 32, offset: 90556},
+											pos:   position{line: 2871, col: 32, offset: 91011},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2861, col: 11, offset: 90666},
+												pos: position{line: 2875, col: 11, offset: 91121},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 12, offset: 90667},
+													pos: position{line: 2875, col: 12, offset: 91122},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 12, offset: 90667},
+															pos:        position{line: 2875, col: 12, offset: 91122},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 24, offset: 90679},
+															pos:        position{line: 2875, col: 24, offset: 91134},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 37, offset: 90692},
+															pos:        position{line: 2875, col: 37, offset: 91147},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 48, offset: 90703},
+															pos:        position{line: 2875, col: 48, offset: 91158},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 59, offset: 90714},
+															pos:        position{line: 2875, col: 59, offset: 91169},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25395,26 +25436,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2857, col: 48, offset: 90572},
+											pos:   position{line: 2871, col: 48, offset: 91027},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 5, offset: 91462},
+												pos: position{line: 2896, col: 5, offset: 91917},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2882, col: 5, offset: 91462},
+													pos:   position{line: 2896, col: 5, offset: 91917},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 14, offset: 91471},
+														pos: position{line: 2896, col: 14, offset: 91926},
 														expr: &choiceExpr{
-															pos: position{line: 2883, col: 9, offset: 91481},
+															pos: position{line: 2897, col: 9, offset: 91936},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2883, col: 9, offset: 91481},
+																	pos: position{line: 2897, col: 9, offset: 91936},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2883, col: 9, offset: 91481},
+																		pos: position{line: 2897, col: 9, offset: 91936},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91482},
+																			pos:        position{line: 2897, col: 10, offset: 91937},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25423,21 +25464,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 11, offset: 91573},
+																	pos: position{line: 2900, col: 11, offset: 92028},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2886, col: 11, offset: 91573},
+																		pos: position{line: 2900, col: 11, offset: 92028},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 11, offset: 91573},
+																				pos:        position{line: 2900, col: 11, offset: 92028},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2886, col: 15, offset: 91577},
+																				pos: position{line: 2900, col: 15, offset: 92032},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 15, offset: 91577},
+																					pos:        position{line: 2900, col: 15, offset: 92032},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25445,7 +25486,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 39, offset: 91601},
+																				pos:        position{line: 2900, col: 39, offset: 92056},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25454,25 +25495,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 11, offset: 91666},
+																	pos: position{line: 2903, col: 11, offset: 92121},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2889, col: 11, offset: 91666},
+																		pos:        position{line: 2903, col: 11, offset: 92121},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91731},
+																	pos: position{line: 2906, col: 11, offset: 92186},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2892, col: 11, offset: 91731},
+																		pos: position{line: 2906, col: 11, offset: 92186},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2892, col: 11, offset: 91731},
+																				pos: position{line: 2906, col: 11, offset: 92186},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 11, offset: 91731},
+																					pos:        position{line: 2906, col: 11, offset: 92186},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25480,9 +25521,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2892, col: 21, offset: 91741},
+																				pos: position{line: 2906, col: 21, offset: 92196},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 23, offset: 91743},
+																					pos:        position{line: 2906, col: 23, offset: 92198},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25878,10 +25919,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2897, col: 11, offset: 91884},
+																	pos: position{line: 2911, col: 11, offset: 92339},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2897, col: 11, offset: 91884},
+																		pos:        position{line: 2911, col: 11, offset: 92339},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25917,27 +25958,27 @@ var g = &grammar{
 								pos: position{line: 1515, col: 5, offset: 48835},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1608, col: 5, offset: 51809},
+										pos: position{line: 1609, col: 5, offset: 51834},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1608, col: 5, offset: 51809},
+											pos: position{line: 1609, col: 5, offset: 51834},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1608, col: 5, offset: 51809},
+													pos:   position{line: 1609, col: 5, offset: 51834},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1615, col: 5, offset: 52017},
+														pos: position{line: 1616, col: 5, offset: 52042},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1615, col: 5, offset: 52017},
+															pos: position{line: 1616, col: 5, offset: 52042},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1615, col: 5, offset: 52017},
+																	pos: position{line: 1616, col: 5, offset: 52042},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25946,27 +25987,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1615, col: 12, offset: 52024},
+																	pos:   position{line: 1616, col: 12, offset: 52049},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1617, col: 9, offset: 52087},
+																		pos: position{line: 1618, col: 9, offset: 52112},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1617, col: 9, offset: 52087},
+																				pos: position{line: 1618, col: 9, offset: 52112},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 9, offset: 52087},
+																					pos: position{line: 1618, col: 9, offset: 52112},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1617, col: 9, offset: 52087},
+																							pos:   position{line: 1618, col: 9, offset: 52112},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1617, col: 16, offset: 52094},
+																								pos: position{line: 1618, col: 16, offset: 52119},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1617, col: 16, offset: 52094},
+																									pos: position{line: 1618, col: 16, offset: 52119},
 																									expr: &litMatcher{
-																										pos:        position{line: 1617, col: 17, offset: 52095},
+																										pos:        position{line: 1618, col: 17, offset: 52120},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25975,22 +26016,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1621, col: 9, offset: 52195},
+																							pos: position{line: 1622, col: 9, offset: 52220},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1640, col: 11, offset: 52912},
+																				pos: position{line: 1641, col: 11, offset: 52937},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1640, col: 11, offset: 52912},
+																					pos: position{line: 1641, col: 11, offset: 52937},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1640, col: 11, offset: 52912},
+																							pos: position{line: 1641, col: 11, offset: 52937},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1640, col: 12, offset: 52913},
+																								pos:        position{line: 1641, col: 12, offset: 52938},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25998,7 +26039,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1640, col: 20, offset: 52921},
+																							pos:        position{line: 1641, col: 20, offset: 52946},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26007,20 +26048,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1642, col: 13, offset: 53038},
+																				pos: position{line: 1643, col: 13, offset: 53063},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 13, offset: 53038},
+																					pos: position{line: 1643, col: 13, offset: 53063},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1642, col: 14, offset: 53039},
+																							pos:        position{line: 1643, col: 14, offset: 53064},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1642, col: 21, offset: 53046},
+																							pos:        position{line: 1643, col: 21, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26029,20 +26070,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1644, col: 13, offset: 53166},
+																				pos: position{line: 1645, col: 13, offset: 53191},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1644, col: 13, offset: 53166},
+																					pos: position{line: 1645, col: 13, offset: 53191},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1644, col: 14, offset: 53167},
+																							pos:        position{line: 1645, col: 14, offset: 53192},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1644, col: 21, offset: 53174},
+																							pos:        position{line: 1645, col: 21, offset: 53199},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26051,15 +26092,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1646, col: 13, offset: 53294},
+																				pos: position{line: 1647, col: 13, offset: 53319},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 13, offset: 53294},
+																					pos: position{line: 1647, col: 13, offset: 53319},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1646, col: 13, offset: 53294},
+																							pos: position{line: 1647, col: 13, offset: 53319},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1646, col: 14, offset: 53295},
+																								pos:        position{line: 1647, col: 14, offset: 53320},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26067,7 +26108,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1646, col: 26, offset: 53307},
+																							pos:        position{line: 1647, col: 26, offset: 53332},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26076,15 +26117,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1648, col: 13, offset: 53427},
+																				pos: position{line: 1649, col: 13, offset: 53452},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1648, col: 13, offset: 53427},
+																					pos: position{line: 1649, col: 13, offset: 53452},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1648, col: 13, offset: 53427},
+																							pos: position{line: 1649, col: 13, offset: 53452},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1648, col: 14, offset: 53428},
+																								pos:        position{line: 1649, col: 14, offset: 53453},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26092,7 +26133,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1648, col: 26, offset: 53440},
+																							pos:        position{line: 1649, col: 26, offset: 53465},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26104,12 +26145,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26122,7 +26163,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51848},
+													pos:   position{line: 1610, col: 5, offset: 51873},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -26152,28 +26193,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26182,9 +26223,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -26197,27 +26238,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1658, col: 5, offset: 53706},
+										pos: position{line: 1659, col: 5, offset: 53731},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1658, col: 5, offset: 53706},
+											pos: position{line: 1659, col: 5, offset: 53731},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1658, col: 5, offset: 53706},
+													pos:   position{line: 1659, col: 5, offset: 53731},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1665, col: 5, offset: 53979},
+														pos: position{line: 1666, col: 5, offset: 54004},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1665, col: 5, offset: 53979},
+															pos: position{line: 1666, col: 5, offset: 54004},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1665, col: 5, offset: 53979},
+																	pos: position{line: 1666, col: 5, offset: 54004},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26226,24 +26267,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1666, col: 5, offset: 53991},
+																	pos:   position{line: 1667, col: 5, offset: 54016},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 9, offset: 54007},
+																		pos: position{line: 1668, col: 9, offset: 54032},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1667, col: 10, offset: 54008},
+																			pos: position{line: 1668, col: 10, offset: 54033},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1667, col: 11, offset: 54009},
+																					pos:        position{line: 1668, col: 11, offset: 54034},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1667, col: 18, offset: 54016},
+																					pos: position{line: 1668, col: 18, offset: 54041},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 19, offset: 54017},
+																						pos:        position{line: 1668, col: 19, offset: 54042},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26254,16 +26295,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 7, offset: 54107},
+																	pos: position{line: 1671, col: 7, offset: 54132},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26276,56 +26317,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53747},
+													pos:   position{line: 1660, col: 5, offset: 53772},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1659, col: 16, offset: 53758},
+														pos: position{line: 1660, col: 16, offset: 53783},
 														expr: &actionExpr{
-															pos: position{line: 1680, col: 5, offset: 54372},
+															pos: position{line: 1681, col: 5, offset: 54397},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1680, col: 5, offset: 54372},
+																pos: position{line: 1681, col: 5, offset: 54397},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1680, col: 5, offset: 54372},
+																		pos: position{line: 1681, col: 5, offset: 54397},
 																		expr: &litMatcher{
-																			pos:        position{line: 1680, col: 6, offset: 54373},
+																			pos:        position{line: 1681, col: 6, offset: 54398},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1680, col: 10, offset: 54377},
+																		pos:   position{line: 1681, col: 10, offset: 54402},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1681, col: 7, offset: 54391},
+																			pos: position{line: 1682, col: 7, offset: 54416},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1681, col: 7, offset: 54391},
+																					pos: position{line: 1682, col: 7, offset: 54416},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1681, col: 7, offset: 54391},
+																						pos:        position{line: 1682, col: 7, offset: 54416},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54436},
+																					pos: position{line: 1683, col: 7, offset: 54461},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54436},
+																						pos:        position{line: 1683, col: 7, offset: 54461},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54479},
+																					pos: position{line: 1684, col: 7, offset: 54504},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54479},
+																						pos:        position{line: 1684, col: 7, offset: 54504},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26335,12 +26376,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2922, col: 11, offset: 92430},
+																			pos: position{line: 2936, col: 11, offset: 92885},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 11, offset: 92430},
+																				pos:        position{line: 2936, col: 11, offset: 92885},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26354,7 +26395,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53797},
+													pos:   position{line: 1661, col: 5, offset: 53822},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -26384,28 +26425,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26414,9 +26455,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -26429,36 +26470,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1748, col: 5, offset: 56319},
+										pos: position{line: 1749, col: 5, offset: 56344},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1748, col: 5, offset: 56319},
+											pos: position{line: 1749, col: 5, offset: 56344},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1748, col: 5, offset: 56319},
+													pos:   position{line: 1749, col: 5, offset: 56344},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1754, col: 5, offset: 56516},
+														pos: position{line: 1755, col: 5, offset: 56541},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1754, col: 5, offset: 56516},
+															pos: position{line: 1755, col: 5, offset: 56541},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1754, col: 5, offset: 56516},
+																	pos:        position{line: 1755, col: 5, offset: 56541},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1754, col: 9, offset: 56520},
+																	pos:   position{line: 1755, col: 9, offset: 56545},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1754, col: 14, offset: 56525},
+																		pos: position{line: 1755, col: 14, offset: 56550},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1754, col: 14, offset: 56525},
+																			pos: position{line: 1755, col: 14, offset: 56550},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1754, col: 14, offset: 56525},
+																				pos:        position{line: 1755, col: 14, offset: 56550},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26468,18 +26509,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1754, col: 62, offset: 56573},
+																	pos:        position{line: 1755, col: 62, offset: 56598},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26492,7 +26533,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56355},
+													pos:   position{line: 1750, col: 5, offset: 56380},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -26522,28 +26563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26552,9 +26593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -26567,40 +26608,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1692, col: 5, offset: 54672},
+										pos: position{line: 1693, col: 5, offset: 54697},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1692, col: 5, offset: 54672},
+											pos: position{line: 1693, col: 5, offset: 54697},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1692, col: 5, offset: 54672},
+													pos:   position{line: 1693, col: 5, offset: 54697},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 54998},
+														pos: position{line: 1701, col: 5, offset: 55023},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1700, col: 5, offset: 54998},
+															pos: position{line: 1701, col: 5, offset: 55023},
 															expr: &seqExpr{
-																pos: position{line: 1700, col: 6, offset: 54999},
+																pos: position{line: 1701, col: 6, offset: 55024},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1700, col: 6, offset: 54999},
+																		pos: position{line: 1701, col: 6, offset: 55024},
 																		expr: &actionExpr{
-																			pos: position{line: 1705, col: 5, offset: 55149},
+																			pos: position{line: 1706, col: 5, offset: 55174},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1705, col: 5, offset: 55149},
+																				pos: position{line: 1706, col: 5, offset: 55174},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1705, col: 5, offset: 55149},
+																						pos:   position{line: 1706, col: 5, offset: 55174},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1705, col: 16, offset: 55160},
+																							pos: position{line: 1706, col: 16, offset: 55185},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1705, col: 16, offset: 55160},
+																								pos: position{line: 1706, col: 16, offset: 55185},
 																								expr: &litMatcher{
-																									pos:        position{line: 1705, col: 17, offset: 55161},
+																									pos:        position{line: 1706, col: 17, offset: 55186},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26609,7 +26650,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1708, col: 5, offset: 55218},
+																						pos: position{line: 1709, col: 5, offset: 55243},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26617,30 +26658,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1700, col: 35, offset: 55028},
+																		pos: position{line: 1701, col: 35, offset: 55053},
 																		expr: &choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26649,16 +26690,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1700, col: 40, offset: 55033,
+																		line: 1701, col: 40, offset: 55058,
 																	},
 																},
 															},
@@ -26666,24 +26707,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54707},
+													pos:   position{line: 1694, col: 5, offset: 54732},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55149},
+														pos: position{line: 1706, col: 5, offset: 55174},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1705, col: 5, offset: 55149},
+															pos: position{line: 1706, col: 5, offset: 55174},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1705, col: 5, offset: 55149},
+																	pos:   position{line: 1706, col: 5, offset: 55174},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1705, col: 16, offset: 55160},
+																		pos: position{line: 1706, col: 16, offset: 55185},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1705, col: 16, offset: 55160},
+																			pos: position{line: 1706, col: 16, offset: 55185},
 																			expr: &litMatcher{
-																				pos:        position{line: 1705, col: 17, offset: 55161},
+																				pos:        position{line: 1706, col: 17, offset: 55186},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26692,7 +26733,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1708, col: 5, offset: 55218},
+																	pos: position{line: 1709, col: 5, offset: 55243},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26700,24 +26741,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54752},
+													pos:   position{line: 1695, col: 5, offset: 54777},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1716, col: 5, offset: 55467},
+														pos: position{line: 1717, col: 5, offset: 55492},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1718, col: 9, offset: 55533},
+																pos: position{line: 1719, col: 9, offset: 55558},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 9, offset: 55533},
+																	pos: position{line: 1719, col: 9, offset: 55558},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1718, col: 9, offset: 55533},
+																			pos: position{line: 1719, col: 9, offset: 55558},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26726,28 +26767,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26756,15 +26797,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55552},
+																			pos: position{line: 1720, col: 9, offset: 55577},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26772,18 +26813,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26792,28 +26833,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26822,9 +26863,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -26837,18 +26878,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1725, col: 9, offset: 55681},
+																pos: position{line: 1726, col: 9, offset: 55706},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1725, col: 9, offset: 55681},
+																	pos: position{line: 1726, col: 9, offset: 55706},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 11, offset: 92430},
+																			pos: position{line: 2936, col: 11, offset: 92885},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2922, col: 11, offset: 92430},
+																				pos: position{line: 2936, col: 11, offset: 92885},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 11, offset: 92430},
+																					pos:        position{line: 2936, col: 11, offset: 92885},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26857,15 +26898,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 9, offset: 55754},
+																			pos:   position{line: 1727, col: 9, offset: 55779},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1726, col: 18, offset: 55763},
+																				pos: position{line: 1727, col: 18, offset: 55788},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1726, col: 18, offset: 55763},
+																					pos: position{line: 1727, col: 18, offset: 55788},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1726, col: 18, offset: 55763},
+																						pos:        position{line: 1727, col: 18, offset: 55788},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26875,28 +26916,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26905,9 +26946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -26965,9 +27006,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49184},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&labeledExpr{
@@ -26991,18 +27032,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2935, col: 11, offset: 92703},
+																	pos: position{line: 2949, col: 11, offset: 93158},
 																	expr: &anyMatcher{
-																		line: 2935, col: 13, offset: 92705,
+																		line: 2949, col: 13, offset: 93160,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27011,28 +27052,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27041,9 +27082,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -27059,27 +27100,27 @@ var g = &grammar{
 														pos: position{line: 1528, col: 22, offset: 49251},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1608, col: 5, offset: 51809},
+																pos: position{line: 1609, col: 5, offset: 51834},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1608, col: 5, offset: 51809},
+																	pos: position{line: 1609, col: 5, offset: 51834},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1608, col: 5, offset: 51809},
+																			pos:   position{line: 1609, col: 5, offset: 51834},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1615, col: 5, offset: 52017},
+																				pos: position{line: 1616, col: 5, offset: 52042},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 5, offset: 52017},
+																					pos: position{line: 1616, col: 5, offset: 52042},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1615, col: 5, offset: 52017},
+																							pos: position{line: 1616, col: 5, offset: 52042},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27088,27 +27129,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1615, col: 12, offset: 52024},
+																							pos:   position{line: 1616, col: 12, offset: 52049},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1617, col: 9, offset: 52087},
+																								pos: position{line: 1618, col: 9, offset: 52112},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1617, col: 9, offset: 52087},
+																										pos: position{line: 1618, col: 9, offset: 52112},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 9, offset: 52087},
+																											pos: position{line: 1618, col: 9, offset: 52112},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1617, col: 9, offset: 52087},
+																													pos:   position{line: 1618, col: 9, offset: 52112},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1617, col: 16, offset: 52094},
+																														pos: position{line: 1618, col: 16, offset: 52119},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1617, col: 16, offset: 52094},
+																															pos: position{line: 1618, col: 16, offset: 52119},
 																															expr: &litMatcher{
-																																pos:        position{line: 1617, col: 17, offset: 52095},
+																																pos:        position{line: 1618, col: 17, offset: 52120},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27117,22 +27158,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1621, col: 9, offset: 52195},
+																													pos: position{line: 1622, col: 9, offset: 52220},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1640, col: 11, offset: 52912},
+																										pos: position{line: 1641, col: 11, offset: 52937},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1640, col: 11, offset: 52912},
+																											pos: position{line: 1641, col: 11, offset: 52937},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1640, col: 11, offset: 52912},
+																													pos: position{line: 1641, col: 11, offset: 52937},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1640, col: 12, offset: 52913},
+																														pos:        position{line: 1641, col: 12, offset: 52938},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27140,7 +27181,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1640, col: 20, offset: 52921},
+																													pos:        position{line: 1641, col: 20, offset: 52946},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27149,20 +27190,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1642, col: 13, offset: 53038},
+																										pos: position{line: 1643, col: 13, offset: 53063},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1642, col: 13, offset: 53038},
+																											pos: position{line: 1643, col: 13, offset: 53063},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1642, col: 14, offset: 53039},
+																													pos:        position{line: 1643, col: 14, offset: 53064},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1642, col: 21, offset: 53046},
+																													pos:        position{line: 1643, col: 21, offset: 53071},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27171,20 +27212,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1644, col: 13, offset: 53166},
+																										pos: position{line: 1645, col: 13, offset: 53191},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1644, col: 13, offset: 53166},
+																											pos: position{line: 1645, col: 13, offset: 53191},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1644, col: 14, offset: 53167},
+																													pos:        position{line: 1645, col: 14, offset: 53192},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1644, col: 21, offset: 53174},
+																													pos:        position{line: 1645, col: 21, offset: 53199},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27193,15 +27234,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1646, col: 13, offset: 53294},
+																										pos: position{line: 1647, col: 13, offset: 53319},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1646, col: 13, offset: 53294},
+																											pos: position{line: 1647, col: 13, offset: 53319},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1646, col: 13, offset: 53294},
+																													pos: position{line: 1647, col: 13, offset: 53319},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1646, col: 14, offset: 53295},
+																														pos:        position{line: 1647, col: 14, offset: 53320},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27209,7 +27250,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1646, col: 26, offset: 53307},
+																													pos:        position{line: 1647, col: 26, offset: 53332},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27218,15 +27259,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1648, col: 13, offset: 53427},
+																										pos: position{line: 1649, col: 13, offset: 53452},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1648, col: 13, offset: 53427},
+																											pos: position{line: 1649, col: 13, offset: 53452},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1648, col: 13, offset: 53427},
+																													pos: position{line: 1649, col: 13, offset: 53452},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1648, col: 14, offset: 53428},
+																														pos:        position{line: 1649, col: 14, offset: 53453},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27234,7 +27275,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1648, col: 26, offset: 53440},
+																													pos:        position{line: 1649, col: 26, offset: 53465},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27246,12 +27287,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27264,7 +27305,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51848},
+																			pos:   position{line: 1610, col: 5, offset: 51873},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -27294,28 +27335,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27324,9 +27365,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -27339,27 +27380,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1658, col: 5, offset: 53706},
+																pos: position{line: 1659, col: 5, offset: 53731},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1658, col: 5, offset: 53706},
+																	pos: position{line: 1659, col: 5, offset: 53731},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1658, col: 5, offset: 53706},
+																			pos:   position{line: 1659, col: 5, offset: 53731},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1665, col: 5, offset: 53979},
+																				pos: position{line: 1666, col: 5, offset: 54004},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1665, col: 5, offset: 53979},
+																					pos: position{line: 1666, col: 5, offset: 54004},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1665, col: 5, offset: 53979},
+																							pos: position{line: 1666, col: 5, offset: 54004},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27368,24 +27409,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1666, col: 5, offset: 53991},
+																							pos:   position{line: 1667, col: 5, offset: 54016},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 9, offset: 54007},
+																								pos: position{line: 1668, col: 9, offset: 54032},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1667, col: 10, offset: 54008},
+																									pos: position{line: 1668, col: 10, offset: 54033},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1667, col: 11, offset: 54009},
+																											pos:        position{line: 1668, col: 11, offset: 54034},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1667, col: 18, offset: 54016},
+																											pos: position{line: 1668, col: 18, offset: 54041},
 																											expr: &litMatcher{
-																												pos:        position{line: 1667, col: 19, offset: 54017},
+																												pos:        position{line: 1668, col: 19, offset: 54042},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27396,16 +27437,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 7, offset: 54107},
+																							pos: position{line: 1671, col: 7, offset: 54132},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27418,56 +27459,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53747},
+																			pos:   position{line: 1660, col: 5, offset: 53772},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1659, col: 16, offset: 53758},
+																				pos: position{line: 1660, col: 16, offset: 53783},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54372},
+																					pos: position{line: 1681, col: 5, offset: 54397},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54372},
+																						pos: position{line: 1681, col: 5, offset: 54397},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1680, col: 5, offset: 54372},
+																								pos: position{line: 1681, col: 5, offset: 54397},
 																								expr: &litMatcher{
-																									pos:        position{line: 1680, col: 6, offset: 54373},
+																									pos:        position{line: 1681, col: 6, offset: 54398},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 10, offset: 54377},
+																								pos:   position{line: 1681, col: 10, offset: 54402},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1681, col: 7, offset: 54391},
+																									pos: position{line: 1682, col: 7, offset: 54416},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1681, col: 7, offset: 54391},
+																											pos: position{line: 1682, col: 7, offset: 54416},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1681, col: 7, offset: 54391},
+																												pos:        position{line: 1682, col: 7, offset: 54416},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54436},
+																											pos: position{line: 1683, col: 7, offset: 54461},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54436},
+																												pos:        position{line: 1683, col: 7, offset: 54461},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54479},
+																											pos: position{line: 1684, col: 7, offset: 54504},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54479},
+																												pos:        position{line: 1684, col: 7, offset: 54504},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27477,12 +27518,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2922, col: 11, offset: 92430},
+																									pos: position{line: 2936, col: 11, offset: 92885},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 11, offset: 92430},
+																										pos:        position{line: 2936, col: 11, offset: 92885},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27496,7 +27537,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53797},
+																			pos:   position{line: 1661, col: 5, offset: 53822},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -27526,28 +27567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27556,9 +27597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -27571,36 +27612,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1748, col: 5, offset: 56319},
+																pos: position{line: 1749, col: 5, offset: 56344},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1748, col: 5, offset: 56319},
+																	pos: position{line: 1749, col: 5, offset: 56344},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1748, col: 5, offset: 56319},
+																			pos:   position{line: 1749, col: 5, offset: 56344},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1754, col: 5, offset: 56516},
+																				pos: position{line: 1755, col: 5, offset: 56541},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1754, col: 5, offset: 56516},
+																					pos: position{line: 1755, col: 5, offset: 56541},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1754, col: 5, offset: 56516},
+																							pos:        position{line: 1755, col: 5, offset: 56541},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1754, col: 9, offset: 56520},
+																							pos:   position{line: 1755, col: 9, offset: 56545},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1754, col: 14, offset: 56525},
+																								pos: position{line: 1755, col: 14, offset: 56550},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1754, col: 14, offset: 56525},
+																									pos: position{line: 1755, col: 14, offset: 56550},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1754, col: 14, offset: 56525},
+																										pos:        position{line: 1755, col: 14, offset: 56550},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27610,18 +27651,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1754, col: 62, offset: 56573},
+																							pos:        position{line: 1755, col: 62, offset: 56598},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27634,7 +27675,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56355},
+																			pos:   position{line: 1750, col: 5, offset: 56380},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -27664,28 +27705,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27694,9 +27735,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -27709,40 +27750,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1692, col: 5, offset: 54672},
+																pos: position{line: 1693, col: 5, offset: 54697},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 5, offset: 54672},
+																	pos: position{line: 1693, col: 5, offset: 54697},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1692, col: 5, offset: 54672},
+																			pos:   position{line: 1693, col: 5, offset: 54697},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 54998},
+																				pos: position{line: 1701, col: 5, offset: 55023},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 5, offset: 54998},
+																					pos: position{line: 1701, col: 5, offset: 55023},
 																					expr: &seqExpr{
-																						pos: position{line: 1700, col: 6, offset: 54999},
+																						pos: position{line: 1701, col: 6, offset: 55024},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1700, col: 6, offset: 54999},
+																								pos: position{line: 1701, col: 6, offset: 55024},
 																								expr: &actionExpr{
-																									pos: position{line: 1705, col: 5, offset: 55149},
+																									pos: position{line: 1706, col: 5, offset: 55174},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1705, col: 5, offset: 55149},
+																										pos: position{line: 1706, col: 5, offset: 55174},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1705, col: 5, offset: 55149},
+																												pos:   position{line: 1706, col: 5, offset: 55174},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1705, col: 16, offset: 55160},
+																													pos: position{line: 1706, col: 16, offset: 55185},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1705, col: 16, offset: 55160},
+																														pos: position{line: 1706, col: 16, offset: 55185},
 																														expr: &litMatcher{
-																															pos:        position{line: 1705, col: 17, offset: 55161},
+																															pos:        position{line: 1706, col: 17, offset: 55186},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27751,7 +27792,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1708, col: 5, offset: 55218},
+																												pos: position{line: 1709, col: 5, offset: 55243},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27759,30 +27800,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1700, col: 35, offset: 55028},
+																								pos: position{line: 1701, col: 35, offset: 55053},
 																								expr: &choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27791,16 +27832,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1700, col: 40, offset: 55033,
+																								line: 1701, col: 40, offset: 55058,
 																							},
 																						},
 																					},
@@ -27808,24 +27849,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54707},
+																			pos:   position{line: 1694, col: 5, offset: 54732},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55149},
+																				pos: position{line: 1706, col: 5, offset: 55174},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1705, col: 5, offset: 55149},
+																					pos: position{line: 1706, col: 5, offset: 55174},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1705, col: 5, offset: 55149},
+																							pos:   position{line: 1706, col: 5, offset: 55174},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1705, col: 16, offset: 55160},
+																								pos: position{line: 1706, col: 16, offset: 55185},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1705, col: 16, offset: 55160},
+																									pos: position{line: 1706, col: 16, offset: 55185},
 																									expr: &litMatcher{
-																										pos:        position{line: 1705, col: 17, offset: 55161},
+																										pos:        position{line: 1706, col: 17, offset: 55186},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27834,7 +27875,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1708, col: 5, offset: 55218},
+																							pos: position{line: 1709, col: 5, offset: 55243},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27842,24 +27883,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54752},
+																			pos:   position{line: 1695, col: 5, offset: 54777},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1716, col: 5, offset: 55467},
+																				pos: position{line: 1717, col: 5, offset: 55492},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1718, col: 9, offset: 55533},
+																						pos: position{line: 1719, col: 9, offset: 55558},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1718, col: 9, offset: 55533},
+																							pos: position{line: 1719, col: 9, offset: 55558},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1718, col: 9, offset: 55533},
+																									pos: position{line: 1719, col: 9, offset: 55558},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27868,28 +27909,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27898,15 +27939,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55552},
+																									pos: position{line: 1720, col: 9, offset: 55577},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27914,18 +27955,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2935, col: 11, offset: 92703},
+																													pos: position{line: 2949, col: 11, offset: 93158},
 																													expr: &anyMatcher{
-																														line: 2935, col: 13, offset: 92705,
+																														line: 2949, col: 13, offset: 93160,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
+																														pos: position{line: 2932, col: 10, offset: 92824},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27934,28 +27975,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
+																															pos: position{line: 2941, col: 12, offset: 92995},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27964,9 +28005,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -27979,18 +28020,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1725, col: 9, offset: 55681},
+																						pos: position{line: 1726, col: 9, offset: 55706},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1725, col: 9, offset: 55681},
+																							pos: position{line: 1726, col: 9, offset: 55706},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92430},
+																									pos: position{line: 2936, col: 11, offset: 92885},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92430},
+																										pos: position{line: 2936, col: 11, offset: 92885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92430},
+																											pos:        position{line: 2936, col: 11, offset: 92885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27999,15 +28040,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1726, col: 9, offset: 55754},
+																									pos:   position{line: 1727, col: 9, offset: 55779},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1726, col: 18, offset: 55763},
+																										pos: position{line: 1727, col: 18, offset: 55788},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1726, col: 18, offset: 55763},
+																											pos: position{line: 1727, col: 18, offset: 55788},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1726, col: 18, offset: 55763},
+																												pos:        position{line: 1727, col: 18, offset: 55788},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28017,28 +28058,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28047,9 +28088,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -28093,27 +28134,27 @@ var g = &grammar{
 														pos: position{line: 1532, col: 22, offset: 49454},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1608, col: 5, offset: 51809},
+																pos: position{line: 1609, col: 5, offset: 51834},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1608, col: 5, offset: 51809},
+																	pos: position{line: 1609, col: 5, offset: 51834},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1608, col: 5, offset: 51809},
+																			pos:   position{line: 1609, col: 5, offset: 51834},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1615, col: 5, offset: 52017},
+																				pos: position{line: 1616, col: 5, offset: 52042},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 5, offset: 52017},
+																					pos: position{line: 1616, col: 5, offset: 52042},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1615, col: 5, offset: 52017},
+																							pos: position{line: 1616, col: 5, offset: 52042},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28122,27 +28163,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1615, col: 12, offset: 52024},
+																							pos:   position{line: 1616, col: 12, offset: 52049},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1617, col: 9, offset: 52087},
+																								pos: position{line: 1618, col: 9, offset: 52112},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1617, col: 9, offset: 52087},
+																										pos: position{line: 1618, col: 9, offset: 52112},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 9, offset: 52087},
+																											pos: position{line: 1618, col: 9, offset: 52112},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1617, col: 9, offset: 52087},
+																													pos:   position{line: 1618, col: 9, offset: 52112},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1617, col: 16, offset: 52094},
+																														pos: position{line: 1618, col: 16, offset: 52119},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1617, col: 16, offset: 52094},
+																															pos: position{line: 1618, col: 16, offset: 52119},
 																															expr: &litMatcher{
-																																pos:        position{line: 1617, col: 17, offset: 52095},
+																																pos:        position{line: 1618, col: 17, offset: 52120},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28151,22 +28192,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1621, col: 9, offset: 52195},
+																													pos: position{line: 1622, col: 9, offset: 52220},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1640, col: 11, offset: 52912},
+																										pos: position{line: 1641, col: 11, offset: 52937},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1640, col: 11, offset: 52912},
+																											pos: position{line: 1641, col: 11, offset: 52937},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1640, col: 11, offset: 52912},
+																													pos: position{line: 1641, col: 11, offset: 52937},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1640, col: 12, offset: 52913},
+																														pos:        position{line: 1641, col: 12, offset: 52938},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28174,7 +28215,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1640, col: 20, offset: 52921},
+																													pos:        position{line: 1641, col: 20, offset: 52946},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28183,20 +28224,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1642, col: 13, offset: 53038},
+																										pos: position{line: 1643, col: 13, offset: 53063},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1642, col: 13, offset: 53038},
+																											pos: position{line: 1643, col: 13, offset: 53063},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1642, col: 14, offset: 53039},
+																													pos:        position{line: 1643, col: 14, offset: 53064},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1642, col: 21, offset: 53046},
+																													pos:        position{line: 1643, col: 21, offset: 53071},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28205,20 +28246,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1644, col: 13, offset: 53166},
+																										pos: position{line: 1645, col: 13, offset: 53191},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1644, col: 13, offset: 53166},
+																											pos: position{line: 1645, col: 13, offset: 53191},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1644, col: 14, offset: 53167},
+																													pos:        position{line: 1645, col: 14, offset: 53192},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1644, col: 21, offset: 53174},
+																													pos:        position{line: 1645, col: 21, offset: 53199},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28227,15 +28268,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1646, col: 13, offset: 53294},
+																										pos: position{line: 1647, col: 13, offset: 53319},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1646, col: 13, offset: 53294},
+																											pos: position{line: 1647, col: 13, offset: 53319},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1646, col: 13, offset: 53294},
+																													pos: position{line: 1647, col: 13, offset: 53319},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1646, col: 14, offset: 53295},
+																														pos:        position{line: 1647, col: 14, offset: 53320},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28243,7 +28284,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1646, col: 26, offset: 53307},
+																													pos:        position{line: 1647, col: 26, offset: 53332},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28252,15 +28293,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1648, col: 13, offset: 53427},
+																										pos: position{line: 1649, col: 13, offset: 53452},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1648, col: 13, offset: 53427},
+																											pos: position{line: 1649, col: 13, offset: 53452},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1648, col: 13, offset: 53427},
+																													pos: position{line: 1649, col: 13, offset: 53452},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1648, col: 14, offset: 53428},
+																														pos:        position{line: 1649, col: 14, offset: 53453},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28268,7 +28309,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1648, col: 26, offset: 53440},
+																													pos:        position{line: 1649, col: 26, offset: 53465},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28280,12 +28321,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28298,7 +28339,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51848},
+																			pos:   position{line: 1610, col: 5, offset: 51873},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -28328,28 +28369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28358,9 +28399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -28373,27 +28414,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1658, col: 5, offset: 53706},
+																pos: position{line: 1659, col: 5, offset: 53731},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1658, col: 5, offset: 53706},
+																	pos: position{line: 1659, col: 5, offset: 53731},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1658, col: 5, offset: 53706},
+																			pos:   position{line: 1659, col: 5, offset: 53731},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1665, col: 5, offset: 53979},
+																				pos: position{line: 1666, col: 5, offset: 54004},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1665, col: 5, offset: 53979},
+																					pos: position{line: 1666, col: 5, offset: 54004},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1665, col: 5, offset: 53979},
+																							pos: position{line: 1666, col: 5, offset: 54004},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28402,24 +28443,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1666, col: 5, offset: 53991},
+																							pos:   position{line: 1667, col: 5, offset: 54016},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 9, offset: 54007},
+																								pos: position{line: 1668, col: 9, offset: 54032},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1667, col: 10, offset: 54008},
+																									pos: position{line: 1668, col: 10, offset: 54033},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1667, col: 11, offset: 54009},
+																											pos:        position{line: 1668, col: 11, offset: 54034},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1667, col: 18, offset: 54016},
+																											pos: position{line: 1668, col: 18, offset: 54041},
 																											expr: &litMatcher{
-																												pos:        position{line: 1667, col: 19, offset: 54017},
+																												pos:        position{line: 1668, col: 19, offset: 54042},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28430,16 +28471,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 7, offset: 54107},
+																							pos: position{line: 1671, col: 7, offset: 54132},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28452,56 +28493,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53747},
+																			pos:   position{line: 1660, col: 5, offset: 53772},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1659, col: 16, offset: 53758},
+																				pos: position{line: 1660, col: 16, offset: 53783},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54372},
+																					pos: position{line: 1681, col: 5, offset: 54397},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54372},
+																						pos: position{line: 1681, col: 5, offset: 54397},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1680, col: 5, offset: 54372},
+																								pos: position{line: 1681, col: 5, offset: 54397},
 																								expr: &litMatcher{
-																									pos:        position{line: 1680, col: 6, offset: 54373},
+																									pos:        position{line: 1681, col: 6, offset: 54398},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 10, offset: 54377},
+																								pos:   position{line: 1681, col: 10, offset: 54402},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1681, col: 7, offset: 54391},
+																									pos: position{line: 1682, col: 7, offset: 54416},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1681, col: 7, offset: 54391},
+																											pos: position{line: 1682, col: 7, offset: 54416},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1681, col: 7, offset: 54391},
+																												pos:        position{line: 1682, col: 7, offset: 54416},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54436},
+																											pos: position{line: 1683, col: 7, offset: 54461},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54436},
+																												pos:        position{line: 1683, col: 7, offset: 54461},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54479},
+																											pos: position{line: 1684, col: 7, offset: 54504},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54479},
+																												pos:        position{line: 1684, col: 7, offset: 54504},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28511,12 +28552,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2922, col: 11, offset: 92430},
+																									pos: position{line: 2936, col: 11, offset: 92885},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2922, col: 11, offset: 92430},
+																										pos:        position{line: 2936, col: 11, offset: 92885},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28530,7 +28571,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53797},
+																			pos:   position{line: 1661, col: 5, offset: 53822},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -28560,28 +28601,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28590,9 +28631,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -28605,36 +28646,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1748, col: 5, offset: 56319},
+																pos: position{line: 1749, col: 5, offset: 56344},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1748, col: 5, offset: 56319},
+																	pos: position{line: 1749, col: 5, offset: 56344},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1748, col: 5, offset: 56319},
+																			pos:   position{line: 1749, col: 5, offset: 56344},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1754, col: 5, offset: 56516},
+																				pos: position{line: 1755, col: 5, offset: 56541},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1754, col: 5, offset: 56516},
+																					pos: position{line: 1755, col: 5, offset: 56541},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1754, col: 5, offset: 56516},
+																							pos:        position{line: 1755, col: 5, offset: 56541},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1754, col: 9, offset: 56520},
+																							pos:   position{line: 1755, col: 9, offset: 56545},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1754, col: 14, offset: 56525},
+																								pos: position{line: 1755, col: 14, offset: 56550},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1754, col: 14, offset: 56525},
+																									pos: position{line: 1755, col: 14, offset: 56550},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1754, col: 14, offset: 56525},
+																										pos:        position{line: 1755, col: 14, offset: 56550},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28644,18 +28685,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1754, col: 62, offset: 56573},
+																							pos:        position{line: 1755, col: 62, offset: 56598},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
+																							pos: position{line: 2936, col: 11, offset: 92885},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28668,7 +28709,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56355},
+																			pos:   position{line: 1750, col: 5, offset: 56380},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50315},
@@ -28698,28 +28739,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28728,9 +28769,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -28743,40 +28784,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1692, col: 5, offset: 54672},
+																pos: position{line: 1693, col: 5, offset: 54697},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 5, offset: 54672},
+																	pos: position{line: 1693, col: 5, offset: 54697},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1692, col: 5, offset: 54672},
+																			pos:   position{line: 1693, col: 5, offset: 54697},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 54998},
+																				pos: position{line: 1701, col: 5, offset: 55023},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 5, offset: 54998},
+																					pos: position{line: 1701, col: 5, offset: 55023},
 																					expr: &seqExpr{
-																						pos: position{line: 1700, col: 6, offset: 54999},
+																						pos: position{line: 1701, col: 6, offset: 55024},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1700, col: 6, offset: 54999},
+																								pos: position{line: 1701, col: 6, offset: 55024},
 																								expr: &actionExpr{
-																									pos: position{line: 1705, col: 5, offset: 55149},
+																									pos: position{line: 1706, col: 5, offset: 55174},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1705, col: 5, offset: 55149},
+																										pos: position{line: 1706, col: 5, offset: 55174},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1705, col: 5, offset: 55149},
+																												pos:   position{line: 1706, col: 5, offset: 55174},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1705, col: 16, offset: 55160},
+																													pos: position{line: 1706, col: 16, offset: 55185},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1705, col: 16, offset: 55160},
+																														pos: position{line: 1706, col: 16, offset: 55185},
 																														expr: &litMatcher{
-																															pos:        position{line: 1705, col: 17, offset: 55161},
+																															pos:        position{line: 1706, col: 17, offset: 55186},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28785,7 +28826,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1708, col: 5, offset: 55218},
+																												pos: position{line: 1709, col: 5, offset: 55243},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28793,30 +28834,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1700, col: 35, offset: 55028},
+																								pos: position{line: 1701, col: 35, offset: 55053},
 																								expr: &choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28825,16 +28866,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1700, col: 40, offset: 55033,
+																								line: 1701, col: 40, offset: 55058,
 																							},
 																						},
 																					},
@@ -28842,24 +28883,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54707},
+																			pos:   position{line: 1694, col: 5, offset: 54732},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55149},
+																				pos: position{line: 1706, col: 5, offset: 55174},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1705, col: 5, offset: 55149},
+																					pos: position{line: 1706, col: 5, offset: 55174},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1705, col: 5, offset: 55149},
+																							pos:   position{line: 1706, col: 5, offset: 55174},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1705, col: 16, offset: 55160},
+																								pos: position{line: 1706, col: 16, offset: 55185},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1705, col: 16, offset: 55160},
+																									pos: position{line: 1706, col: 16, offset: 55185},
 																									expr: &litMatcher{
-																										pos:        position{line: 1705, col: 17, offset: 55161},
+																										pos:        position{line: 1706, col: 17, offset: 55186},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28868,7 +28909,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1708, col: 5, offset: 55218},
+																							pos: position{line: 1709, col: 5, offset: 55243},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28876,24 +28917,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54752},
+																			pos:   position{line: 1695, col: 5, offset: 54777},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1716, col: 5, offset: 55467},
+																				pos: position{line: 1717, col: 5, offset: 55492},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1718, col: 9, offset: 55533},
+																						pos: position{line: 1719, col: 9, offset: 55558},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1718, col: 9, offset: 55533},
+																							pos: position{line: 1719, col: 9, offset: 55558},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1718, col: 9, offset: 55533},
+																									pos: position{line: 1719, col: 9, offset: 55558},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28902,28 +28943,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28932,15 +28973,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55552},
+																									pos: position{line: 1720, col: 9, offset: 55577},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28948,18 +28989,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2935, col: 11, offset: 92703},
+																													pos: position{line: 2949, col: 11, offset: 93158},
 																													expr: &anyMatcher{
-																														line: 2935, col: 13, offset: 92705,
+																														line: 2949, col: 13, offset: 93160,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
+																														pos: position{line: 2932, col: 10, offset: 92824},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28968,28 +29009,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
+																															pos: position{line: 2941, col: 12, offset: 92995},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28998,9 +29039,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -29013,18 +29054,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1725, col: 9, offset: 55681},
+																						pos: position{line: 1726, col: 9, offset: 55706},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1725, col: 9, offset: 55681},
+																							pos: position{line: 1726, col: 9, offset: 55706},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92430},
+																									pos: position{line: 2936, col: 11, offset: 92885},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92430},
+																										pos: position{line: 2936, col: 11, offset: 92885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92430},
+																											pos:        position{line: 2936, col: 11, offset: 92885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29033,15 +29074,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1726, col: 9, offset: 55754},
+																									pos:   position{line: 1727, col: 9, offset: 55779},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1726, col: 18, offset: 55763},
+																										pos: position{line: 1727, col: 18, offset: 55788},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1726, col: 18, offset: 55763},
+																											pos: position{line: 1727, col: 18, offset: 55788},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1726, col: 18, offset: 55763},
+																												pos:        position{line: 1727, col: 18, offset: 55788},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29051,28 +29092,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29081,9 +29122,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -29108,36 +29149,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 22, offset: 80501},
+										pos: position{line: 2502, col: 22, offset: 80526},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2506, col: 31, offset: 80722},
+													pos:        position{line: 2507, col: 31, offset: 80747},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2506, col: 36, offset: 80727},
+													pos: position{line: 2507, col: 36, offset: 80752},
 													expr: &litMatcher{
-														pos:        position{line: 2506, col: 37, offset: 80728},
+														pos:        position{line: 2507, col: 37, offset: 80753},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 49, offset: 80528},
+													pos:   position{line: 2502, col: 49, offset: 80553},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 13, offset: 90056},
+														pos: position{line: 2851, col: 13, offset: 90511},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 13, offset: 90056},
+																pos:        position{line: 2851, col: 13, offset: 90511},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29147,28 +29188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29177,9 +29218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -29202,18 +29243,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2935, col: 11, offset: 92703},
+																	pos: position{line: 2949, col: 11, offset: 93158},
 																	expr: &anyMatcher{
-																		line: 2935, col: 13, offset: 92705,
+																		line: 2949, col: 13, offset: 93160,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29222,28 +29263,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29252,9 +29293,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -29277,10 +29318,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50827},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29289,25 +29330,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
+																pos: position{line: 2941, col: 12, offset: 92995},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29321,18 +29362,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1545, col: 5, offset: 49946},
 													expr: &actionExpr{
-														pos: position{line: 1615, col: 5, offset: 52017},
+														pos: position{line: 1616, col: 5, offset: 52042},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1615, col: 5, offset: 52017},
+															pos: position{line: 1616, col: 5, offset: 52042},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1615, col: 5, offset: 52017},
+																	pos: position{line: 1616, col: 5, offset: 52042},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29341,27 +29382,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1615, col: 12, offset: 52024},
+																	pos:   position{line: 1616, col: 12, offset: 52049},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1617, col: 9, offset: 52087},
+																		pos: position{line: 1618, col: 9, offset: 52112},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1617, col: 9, offset: 52087},
+																				pos: position{line: 1618, col: 9, offset: 52112},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 9, offset: 52087},
+																					pos: position{line: 1618, col: 9, offset: 52112},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1617, col: 9, offset: 52087},
+																							pos:   position{line: 1618, col: 9, offset: 52112},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1617, col: 16, offset: 52094},
+																								pos: position{line: 1618, col: 16, offset: 52119},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1617, col: 16, offset: 52094},
+																									pos: position{line: 1618, col: 16, offset: 52119},
 																									expr: &litMatcher{
-																										pos:        position{line: 1617, col: 17, offset: 52095},
+																										pos:        position{line: 1618, col: 17, offset: 52120},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29370,22 +29411,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1621, col: 9, offset: 52195},
+																							pos: position{line: 1622, col: 9, offset: 52220},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1640, col: 11, offset: 52912},
+																				pos: position{line: 1641, col: 11, offset: 52937},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1640, col: 11, offset: 52912},
+																					pos: position{line: 1641, col: 11, offset: 52937},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1640, col: 11, offset: 52912},
+																							pos: position{line: 1641, col: 11, offset: 52937},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1640, col: 12, offset: 52913},
+																								pos:        position{line: 1641, col: 12, offset: 52938},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29393,7 +29434,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1640, col: 20, offset: 52921},
+																							pos:        position{line: 1641, col: 20, offset: 52946},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29402,20 +29443,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1642, col: 13, offset: 53038},
+																				pos: position{line: 1643, col: 13, offset: 53063},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 13, offset: 53038},
+																					pos: position{line: 1643, col: 13, offset: 53063},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1642, col: 14, offset: 53039},
+																							pos:        position{line: 1643, col: 14, offset: 53064},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1642, col: 21, offset: 53046},
+																							pos:        position{line: 1643, col: 21, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29424,20 +29465,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1644, col: 13, offset: 53166},
+																				pos: position{line: 1645, col: 13, offset: 53191},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1644, col: 13, offset: 53166},
+																					pos: position{line: 1645, col: 13, offset: 53191},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1644, col: 14, offset: 53167},
+																							pos:        position{line: 1645, col: 14, offset: 53192},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1644, col: 21, offset: 53174},
+																							pos:        position{line: 1645, col: 21, offset: 53199},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29446,15 +29487,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1646, col: 13, offset: 53294},
+																				pos: position{line: 1647, col: 13, offset: 53319},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 13, offset: 53294},
+																					pos: position{line: 1647, col: 13, offset: 53319},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1646, col: 13, offset: 53294},
+																							pos: position{line: 1647, col: 13, offset: 53319},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1646, col: 14, offset: 53295},
+																								pos:        position{line: 1647, col: 14, offset: 53320},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29462,7 +29503,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1646, col: 26, offset: 53307},
+																							pos:        position{line: 1647, col: 26, offset: 53332},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29471,15 +29512,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1648, col: 13, offset: 53427},
+																				pos: position{line: 1649, col: 13, offset: 53452},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1648, col: 13, offset: 53427},
+																					pos: position{line: 1649, col: 13, offset: 53452},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1648, col: 13, offset: 53427},
+																							pos: position{line: 1649, col: 13, offset: 53452},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1648, col: 14, offset: 53428},
+																								pos:        position{line: 1649, col: 14, offset: 53453},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29487,7 +29528,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1648, col: 26, offset: 53440},
+																							pos:        position{line: 1649, col: 26, offset: 53465},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29499,12 +29540,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29519,18 +29560,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1546, col: 5, offset: 49976},
 													expr: &actionExpr{
-														pos: position{line: 1665, col: 5, offset: 53979},
+														pos: position{line: 1666, col: 5, offset: 54004},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1665, col: 5, offset: 53979},
+															pos: position{line: 1666, col: 5, offset: 54004},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1665, col: 5, offset: 53979},
+																	pos: position{line: 1666, col: 5, offset: 54004},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29539,24 +29580,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1666, col: 5, offset: 53991},
+																	pos:   position{line: 1667, col: 5, offset: 54016},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 9, offset: 54007},
+																		pos: position{line: 1668, col: 9, offset: 54032},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1667, col: 10, offset: 54008},
+																			pos: position{line: 1668, col: 10, offset: 54033},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1667, col: 11, offset: 54009},
+																					pos:        position{line: 1668, col: 11, offset: 54034},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1667, col: 18, offset: 54016},
+																					pos: position{line: 1668, col: 18, offset: 54041},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 19, offset: 54017},
+																						pos:        position{line: 1668, col: 19, offset: 54042},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29567,16 +29608,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 7, offset: 54107},
+																	pos: position{line: 1671, col: 7, offset: 54132},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29591,27 +29632,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1547, col: 5, offset: 50008},
 													expr: &actionExpr{
-														pos: position{line: 1754, col: 5, offset: 56516},
+														pos: position{line: 1755, col: 5, offset: 56541},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1754, col: 5, offset: 56516},
+															pos: position{line: 1755, col: 5, offset: 56541},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1754, col: 5, offset: 56516},
+																	pos:        position{line: 1755, col: 5, offset: 56541},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1754, col: 9, offset: 56520},
+																	pos:   position{line: 1755, col: 9, offset: 56545},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1754, col: 14, offset: 56525},
+																		pos: position{line: 1755, col: 14, offset: 56550},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1754, col: 14, offset: 56525},
+																			pos: position{line: 1755, col: 14, offset: 56550},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1754, col: 14, offset: 56525},
+																				pos:        position{line: 1755, col: 14, offset: 56550},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29621,18 +29662,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1754, col: 62, offset: 56573},
+																	pos:        position{line: 1755, col: 62, offset: 56598},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29650,31 +29691,31 @@ var g = &grammar{
 														pos: position{line: 1548, col: 7, offset: 50040},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1700, col: 5, offset: 54998},
+																pos: position{line: 1701, col: 5, offset: 55023},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1700, col: 5, offset: 54998},
+																	pos: position{line: 1701, col: 5, offset: 55023},
 																	expr: &seqExpr{
-																		pos: position{line: 1700, col: 6, offset: 54999},
+																		pos: position{line: 1701, col: 6, offset: 55024},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1700, col: 6, offset: 54999},
+																				pos: position{line: 1701, col: 6, offset: 55024},
 																				expr: &actionExpr{
-																					pos: position{line: 1705, col: 5, offset: 55149},
+																					pos: position{line: 1706, col: 5, offset: 55174},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 5, offset: 55149},
+																						pos: position{line: 1706, col: 5, offset: 55174},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1705, col: 5, offset: 55149},
+																								pos:   position{line: 1706, col: 5, offset: 55174},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1705, col: 16, offset: 55160},
+																									pos: position{line: 1706, col: 16, offset: 55185},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1705, col: 16, offset: 55160},
+																										pos: position{line: 1706, col: 16, offset: 55185},
 																										expr: &litMatcher{
-																											pos:        position{line: 1705, col: 17, offset: 55161},
+																											pos:        position{line: 1706, col: 17, offset: 55186},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29683,7 +29724,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1708, col: 5, offset: 55218},
+																								pos: position{line: 1709, col: 5, offset: 55243},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29691,30 +29732,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1700, col: 35, offset: 55028},
+																				pos: position{line: 1701, col: 35, offset: 55053},
 																				expr: &choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29723,37 +29764,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1700, col: 40, offset: 55033,
+																				line: 1701, col: 40, offset: 55058,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1705, col: 5, offset: 55149},
+																pos: position{line: 1706, col: 5, offset: 55174},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1705, col: 5, offset: 55149},
+																	pos: position{line: 1706, col: 5, offset: 55174},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1705, col: 5, offset: 55149},
+																			pos:   position{line: 1706, col: 5, offset: 55174},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 16, offset: 55160},
+																				pos: position{line: 1706, col: 16, offset: 55185},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 16, offset: 55160},
+																					pos: position{line: 1706, col: 16, offset: 55185},
 																					expr: &litMatcher{
-																						pos:        position{line: 1705, col: 17, offset: 55161},
+																						pos:        position{line: 1706, col: 17, offset: 55186},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29762,7 +29803,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1708, col: 5, offset: 55218},
+																			pos: position{line: 1709, col: 5, offset: 55243},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -29772,10 +29813,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50092},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29783,25 +29824,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29810,9 +29851,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -29834,7 +29875,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2781, col: 13, offset: 88611},
+																				pos:        position{line: 2786, col: 13, offset: 88772},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29884,10 +29925,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29896,28 +29937,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29926,9 +29967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -29973,10 +30014,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29985,28 +30026,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30015,9 +30056,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30058,10 +30099,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30070,28 +30111,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30100,9 +30141,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30147,10 +30188,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30159,28 +30200,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30189,9 +30230,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30236,10 +30277,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30248,28 +30289,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30278,9 +30319,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30325,10 +30366,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30337,28 +30378,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30367,9 +30408,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30414,10 +30455,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30426,28 +30467,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30456,9 +30497,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30503,10 +30544,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30515,28 +30556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30545,9 +30586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30592,10 +30633,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
+																										pos: position{line: 2932, col: 10, offset: 92824},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30604,28 +30645,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
+																											pos: position{line: 2941, col: 12, offset: 92995},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30634,9 +30675,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -30673,10 +30714,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30685,28 +30726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30715,9 +30756,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -30726,21 +30767,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2633, col: 19, offset: 84199},
+																pos: position{line: 2634, col: 19, offset: 84224},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2633, col: 19, offset: 84199},
+																		pos:        position{line: 2634, col: 19, offset: 84224},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2633, col: 26, offset: 84206},
+																		pos: position{line: 2634, col: 26, offset: 84231},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30749,28 +30790,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30779,9 +30820,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -30795,12 +30836,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50170},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2841, col: 14, offset: 90123},
+														pos: position{line: 2855, col: 14, offset: 90578},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2841, col: 14, offset: 90123},
+															pos: position{line: 2855, col: 14, offset: 90578},
 															expr: &charClassMatcher{
-																pos:        position{line: 2841, col: 14, offset: 90123},
+																pos:        position{line: 2855, col: 14, offset: 90578},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30810,28 +30851,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30840,9 +30881,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -30877,10 +30918,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50594},
 											expr: &actionExpr{
-												pos: position{line: 2918, col: 10, offset: 92369},
+												pos: position{line: 2932, col: 10, offset: 92824},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2918, col: 10, offset: 92369},
+													pos:        position{line: 2932, col: 10, offset: 92824},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30889,25 +30930,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2927, col: 12, offset: 92540},
+											pos: position{line: 2941, col: 12, offset: 92995},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2927, col: 13, offset: 92541},
+												pos: position{line: 2941, col: 13, offset: 92996},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2927, col: 13, offset: 92541},
+														pos:        position{line: 2941, col: 13, offset: 92996},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2927, col: 20, offset: 92548},
+														pos:        position{line: 2941, col: 20, offset: 93003},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2927, col: 29, offset: 92557},
+														pos:        position{line: 2941, col: 29, offset: 93012},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30928,10 +30969,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50620},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30940,28 +30981,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -30970,9 +31011,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -30997,18 +31038,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31017,28 +31058,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31047,9 +31088,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -31085,9 +31126,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50889},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
@@ -31096,27 +31137,27 @@ var g = &grammar{
 								pos: position{line: 1515, col: 5, offset: 48835},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1608, col: 5, offset: 51809},
+										pos: position{line: 1609, col: 5, offset: 51834},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1608, col: 5, offset: 51809},
+											pos: position{line: 1609, col: 5, offset: 51834},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1608, col: 5, offset: 51809},
+													pos:   position{line: 1609, col: 5, offset: 51834},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1615, col: 5, offset: 52017},
+														pos: position{line: 1616, col: 5, offset: 52042},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1615, col: 5, offset: 52017},
+															pos: position{line: 1616, col: 5, offset: 52042},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1615, col: 5, offset: 52017},
+																	pos: position{line: 1616, col: 5, offset: 52042},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31125,27 +31166,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1615, col: 12, offset: 52024},
+																	pos:   position{line: 1616, col: 12, offset: 52049},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1617, col: 9, offset: 52087},
+																		pos: position{line: 1618, col: 9, offset: 52112},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1617, col: 9, offset: 52087},
+																				pos: position{line: 1618, col: 9, offset: 52112},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 9, offset: 52087},
+																					pos: position{line: 1618, col: 9, offset: 52112},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1617, col: 9, offset: 52087},
+																							pos:   position{line: 1618, col: 9, offset: 52112},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1617, col: 16, offset: 52094},
+																								pos: position{line: 1618, col: 16, offset: 52119},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1617, col: 16, offset: 52094},
+																									pos: position{line: 1618, col: 16, offset: 52119},
 																									expr: &litMatcher{
-																										pos:        position{line: 1617, col: 17, offset: 52095},
+																										pos:        position{line: 1618, col: 17, offset: 52120},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31154,22 +31195,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1621, col: 9, offset: 52195},
+																							pos: position{line: 1622, col: 9, offset: 52220},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1640, col: 11, offset: 52912},
+																				pos: position{line: 1641, col: 11, offset: 52937},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1640, col: 11, offset: 52912},
+																					pos: position{line: 1641, col: 11, offset: 52937},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1640, col: 11, offset: 52912},
+																							pos: position{line: 1641, col: 11, offset: 52937},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1640, col: 12, offset: 52913},
+																								pos:        position{line: 1641, col: 12, offset: 52938},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31177,7 +31218,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1640, col: 20, offset: 52921},
+																							pos:        position{line: 1641, col: 20, offset: 52946},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31186,20 +31227,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1642, col: 13, offset: 53038},
+																				pos: position{line: 1643, col: 13, offset: 53063},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 13, offset: 53038},
+																					pos: position{line: 1643, col: 13, offset: 53063},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1642, col: 14, offset: 53039},
+																							pos:        position{line: 1643, col: 14, offset: 53064},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1642, col: 21, offset: 53046},
+																							pos:        position{line: 1643, col: 21, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31208,20 +31249,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1644, col: 13, offset: 53166},
+																				pos: position{line: 1645, col: 13, offset: 53191},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1644, col: 13, offset: 53166},
+																					pos: position{line: 1645, col: 13, offset: 53191},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1644, col: 14, offset: 53167},
+																							pos:        position{line: 1645, col: 14, offset: 53192},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1644, col: 21, offset: 53174},
+																							pos:        position{line: 1645, col: 21, offset: 53199},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31230,15 +31271,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1646, col: 13, offset: 53294},
+																				pos: position{line: 1647, col: 13, offset: 53319},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1646, col: 13, offset: 53294},
+																					pos: position{line: 1647, col: 13, offset: 53319},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1646, col: 13, offset: 53294},
+																							pos: position{line: 1647, col: 13, offset: 53319},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1646, col: 14, offset: 53295},
+																								pos:        position{line: 1647, col: 14, offset: 53320},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31246,7 +31287,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1646, col: 26, offset: 53307},
+																							pos:        position{line: 1647, col: 26, offset: 53332},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31255,15 +31296,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1648, col: 13, offset: 53427},
+																				pos: position{line: 1649, col: 13, offset: 53452},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1648, col: 13, offset: 53427},
+																					pos: position{line: 1649, col: 13, offset: 53452},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1648, col: 13, offset: 53427},
+																							pos: position{line: 1649, col: 13, offset: 53452},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1648, col: 14, offset: 53428},
+																								pos:        position{line: 1649, col: 14, offset: 53453},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31271,7 +31312,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1648, col: 26, offset: 53440},
+																							pos:        position{line: 1649, col: 26, offset: 53465},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31283,12 +31324,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31301,7 +31342,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51848},
+													pos:   position{line: 1610, col: 5, offset: 51873},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -31331,28 +31372,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31361,9 +31402,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -31376,27 +31417,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1658, col: 5, offset: 53706},
+										pos: position{line: 1659, col: 5, offset: 53731},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1658, col: 5, offset: 53706},
+											pos: position{line: 1659, col: 5, offset: 53731},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1658, col: 5, offset: 53706},
+													pos:   position{line: 1659, col: 5, offset: 53731},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1665, col: 5, offset: 53979},
+														pos: position{line: 1666, col: 5, offset: 54004},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1665, col: 5, offset: 53979},
+															pos: position{line: 1666, col: 5, offset: 54004},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1665, col: 5, offset: 53979},
+																	pos: position{line: 1666, col: 5, offset: 54004},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31405,24 +31446,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1666, col: 5, offset: 53991},
+																	pos:   position{line: 1667, col: 5, offset: 54016},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 9, offset: 54007},
+																		pos: position{line: 1668, col: 9, offset: 54032},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1667, col: 10, offset: 54008},
+																			pos: position{line: 1668, col: 10, offset: 54033},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1667, col: 11, offset: 54009},
+																					pos:        position{line: 1668, col: 11, offset: 54034},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1667, col: 18, offset: 54016},
+																					pos: position{line: 1668, col: 18, offset: 54041},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 19, offset: 54017},
+																						pos:        position{line: 1668, col: 19, offset: 54042},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31433,16 +31474,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 7, offset: 54107},
+																	pos: position{line: 1671, col: 7, offset: 54132},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31455,56 +31496,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53747},
+													pos:   position{line: 1660, col: 5, offset: 53772},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1659, col: 16, offset: 53758},
+														pos: position{line: 1660, col: 16, offset: 53783},
 														expr: &actionExpr{
-															pos: position{line: 1680, col: 5, offset: 54372},
+															pos: position{line: 1681, col: 5, offset: 54397},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1680, col: 5, offset: 54372},
+																pos: position{line: 1681, col: 5, offset: 54397},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1680, col: 5, offset: 54372},
+																		pos: position{line: 1681, col: 5, offset: 54397},
 																		expr: &litMatcher{
-																			pos:        position{line: 1680, col: 6, offset: 54373},
+																			pos:        position{line: 1681, col: 6, offset: 54398},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1680, col: 10, offset: 54377},
+																		pos:   position{line: 1681, col: 10, offset: 54402},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1681, col: 7, offset: 54391},
+																			pos: position{line: 1682, col: 7, offset: 54416},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1681, col: 7, offset: 54391},
+																					pos: position{line: 1682, col: 7, offset: 54416},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1681, col: 7, offset: 54391},
+																						pos:        position{line: 1682, col: 7, offset: 54416},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54436},
+																					pos: position{line: 1683, col: 7, offset: 54461},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54436},
+																						pos:        position{line: 1683, col: 7, offset: 54461},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54479},
+																					pos: position{line: 1684, col: 7, offset: 54504},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54479},
+																						pos:        position{line: 1684, col: 7, offset: 54504},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31514,12 +31555,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2922, col: 11, offset: 92430},
+																			pos: position{line: 2936, col: 11, offset: 92885},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2922, col: 11, offset: 92430},
+																				pos:        position{line: 2936, col: 11, offset: 92885},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31533,7 +31574,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53797},
+													pos:   position{line: 1661, col: 5, offset: 53822},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -31563,28 +31604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31593,9 +31634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -31608,36 +31649,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1748, col: 5, offset: 56319},
+										pos: position{line: 1749, col: 5, offset: 56344},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1748, col: 5, offset: 56319},
+											pos: position{line: 1749, col: 5, offset: 56344},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1748, col: 5, offset: 56319},
+													pos:   position{line: 1749, col: 5, offset: 56344},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1754, col: 5, offset: 56516},
+														pos: position{line: 1755, col: 5, offset: 56541},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1754, col: 5, offset: 56516},
+															pos: position{line: 1755, col: 5, offset: 56541},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1754, col: 5, offset: 56516},
+																	pos:        position{line: 1755, col: 5, offset: 56541},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1754, col: 9, offset: 56520},
+																	pos:   position{line: 1755, col: 9, offset: 56545},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1754, col: 14, offset: 56525},
+																		pos: position{line: 1755, col: 14, offset: 56550},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1754, col: 14, offset: 56525},
+																			pos: position{line: 1755, col: 14, offset: 56550},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1754, col: 14, offset: 56525},
+																				pos:        position{line: 1755, col: 14, offset: 56550},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31647,18 +31688,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1754, col: 62, offset: 56573},
+																	pos:        position{line: 1755, col: 62, offset: 56598},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31671,7 +31712,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56355},
+													pos:   position{line: 1750, col: 5, offset: 56380},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50315},
@@ -31701,28 +31742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31731,9 +31772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -31746,40 +31787,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1692, col: 5, offset: 54672},
+										pos: position{line: 1693, col: 5, offset: 54697},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1692, col: 5, offset: 54672},
+											pos: position{line: 1693, col: 5, offset: 54697},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1692, col: 5, offset: 54672},
+													pos:   position{line: 1693, col: 5, offset: 54697},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1700, col: 5, offset: 54998},
+														pos: position{line: 1701, col: 5, offset: 55023},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1700, col: 5, offset: 54998},
+															pos: position{line: 1701, col: 5, offset: 55023},
 															expr: &seqExpr{
-																pos: position{line: 1700, col: 6, offset: 54999},
+																pos: position{line: 1701, col: 6, offset: 55024},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1700, col: 6, offset: 54999},
+																		pos: position{line: 1701, col: 6, offset: 55024},
 																		expr: &actionExpr{
-																			pos: position{line: 1705, col: 5, offset: 55149},
+																			pos: position{line: 1706, col: 5, offset: 55174},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1705, col: 5, offset: 55149},
+																				pos: position{line: 1706, col: 5, offset: 55174},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1705, col: 5, offset: 55149},
+																						pos:   position{line: 1706, col: 5, offset: 55174},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1705, col: 16, offset: 55160},
+																							pos: position{line: 1706, col: 16, offset: 55185},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1705, col: 16, offset: 55160},
+																								pos: position{line: 1706, col: 16, offset: 55185},
 																								expr: &litMatcher{
-																									pos:        position{line: 1705, col: 17, offset: 55161},
+																									pos:        position{line: 1706, col: 17, offset: 55186},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -31788,7 +31829,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1708, col: 5, offset: 55218},
+																						pos: position{line: 1709, col: 5, offset: 55243},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -31796,30 +31837,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1700, col: 35, offset: 55028},
+																		pos: position{line: 1701, col: 35, offset: 55053},
 																		expr: &choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31828,16 +31869,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1700, col: 40, offset: 55033,
+																		line: 1701, col: 40, offset: 55058,
 																	},
 																},
 															},
@@ -31845,24 +31886,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54707},
+													pos:   position{line: 1694, col: 5, offset: 54732},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55149},
+														pos: position{line: 1706, col: 5, offset: 55174},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1705, col: 5, offset: 55149},
+															pos: position{line: 1706, col: 5, offset: 55174},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1705, col: 5, offset: 55149},
+																	pos:   position{line: 1706, col: 5, offset: 55174},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1705, col: 16, offset: 55160},
+																		pos: position{line: 1706, col: 16, offset: 55185},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1705, col: 16, offset: 55160},
+																			pos: position{line: 1706, col: 16, offset: 55185},
 																			expr: &litMatcher{
-																				pos:        position{line: 1705, col: 17, offset: 55161},
+																				pos:        position{line: 1706, col: 17, offset: 55186},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31871,7 +31912,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1708, col: 5, offset: 55218},
+																	pos: position{line: 1709, col: 5, offset: 55243},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -31879,24 +31920,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54752},
+													pos:   position{line: 1695, col: 5, offset: 54777},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1716, col: 5, offset: 55467},
+														pos: position{line: 1717, col: 5, offset: 55492},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1718, col: 9, offset: 55533},
+																pos: position{line: 1719, col: 9, offset: 55558},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 9, offset: 55533},
+																	pos: position{line: 1719, col: 9, offset: 55558},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1718, col: 9, offset: 55533},
+																			pos: position{line: 1719, col: 9, offset: 55558},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31905,28 +31946,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31935,15 +31976,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55552},
+																			pos: position{line: 1720, col: 9, offset: 55577},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -31951,18 +31992,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2935, col: 11, offset: 92703},
+																							pos: position{line: 2949, col: 11, offset: 93158},
 																							expr: &anyMatcher{
-																								line: 2935, col: 13, offset: 92705,
+																								line: 2949, col: 13, offset: 93160,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31971,28 +32012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32001,9 +32042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -32016,18 +32057,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1725, col: 9, offset: 55681},
+																pos: position{line: 1726, col: 9, offset: 55706},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1725, col: 9, offset: 55681},
+																	pos: position{line: 1726, col: 9, offset: 55706},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 11, offset: 92430},
+																			pos: position{line: 2936, col: 11, offset: 92885},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2922, col: 11, offset: 92430},
+																				pos: position{line: 2936, col: 11, offset: 92885},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2922, col: 11, offset: 92430},
+																					pos:        position{line: 2936, col: 11, offset: 92885},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32036,15 +32077,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 9, offset: 55754},
+																			pos:   position{line: 1727, col: 9, offset: 55779},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1726, col: 18, offset: 55763},
+																				pos: position{line: 1727, col: 18, offset: 55788},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1726, col: 18, offset: 55763},
+																					pos: position{line: 1727, col: 18, offset: 55788},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1726, col: 18, offset: 55763},
+																						pos:        position{line: 1727, col: 18, offset: 55788},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32054,28 +32095,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32084,9 +32125,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -32127,18 +32168,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2935, col: 11, offset: 92703},
+													pos: position{line: 2949, col: 11, offset: 93158},
 													expr: &anyMatcher{
-														line: 2935, col: 13, offset: 92705,
+														line: 2949, col: 13, offset: 93160,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32147,28 +32188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32177,9 +32218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -32244,10 +32285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32256,28 +32297,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32286,9 +32327,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -32349,10 +32390,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
+														pos: position{line: 2932, col: 10, offset: 92824},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32361,28 +32402,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32391,9 +32432,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -32447,10 +32488,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32459,28 +32500,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32489,9 +32530,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -32563,10 +32604,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32575,28 +32616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32605,9 +32646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -32623,9 +32664,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -32641,21 +32682,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32665,28 +32706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32695,9 +32736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -32759,10 +32800,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32771,28 +32812,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32801,9 +32842,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -32819,9 +32860,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -32876,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32888,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32918,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -32992,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33004,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33034,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -33052,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -33070,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33094,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33124,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -33191,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33203,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33233,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -33251,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -33305,10 +33346,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33317,28 +33358,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33347,9 +33388,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -33383,10 +33424,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33395,28 +33436,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33425,9 +33466,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -33445,21 +33486,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33469,28 +33510,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33499,9 +33540,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -33529,10 +33570,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33541,28 +33582,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33571,9 +33612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -33630,10 +33671,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33642,28 +33683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33672,9 +33713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -33746,10 +33787,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33758,28 +33799,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33788,9 +33829,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -33806,9 +33847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -33824,21 +33865,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33848,28 +33889,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33878,9 +33919,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -33945,10 +33986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33957,28 +33998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33987,9 +34028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -34005,9 +34046,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -34063,10 +34104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34075,28 +34116,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34105,9 +34146,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -34179,10 +34220,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34191,28 +34232,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34221,9 +34262,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -34239,9 +34280,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -34257,21 +34298,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34281,28 +34322,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34311,9 +34352,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -34378,10 +34419,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34390,28 +34431,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34420,9 +34461,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -34438,9 +34479,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -34496,10 +34537,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34508,28 +34549,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34538,9 +34579,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -34612,10 +34653,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34624,28 +34665,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34654,9 +34695,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -34672,9 +34713,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -34690,21 +34731,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34714,28 +34755,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34744,9 +34785,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -34811,10 +34852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34823,28 +34864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34853,9 +34894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -34871,9 +34912,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -34907,18 +34948,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92703},
+																					pos: position{line: 2949, col: 11, offset: 93158},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92705,
+																						line: 2949, col: 13, offset: 93160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
+																						pos: position{line: 2932, col: 10, offset: 92824},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34927,28 +34968,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34957,9 +34998,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -34978,12 +35019,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2841, col: 14, offset: 90123},
+																		pos: position{line: 2855, col: 14, offset: 90578},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2841, col: 14, offset: 90123},
+																			pos: position{line: 2855, col: 14, offset: 90578},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2841, col: 14, offset: 90123},
+																				pos:        position{line: 2855, col: 14, offset: 90578},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -34993,28 +35034,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35023,9 +35064,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -35057,18 +35098,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2935, col: 11, offset: 92703},
+																								pos: position{line: 2949, col: 11, offset: 93158},
 																								expr: &anyMatcher{
-																									line: 2935, col: 13, offset: 92705,
+																									line: 2949, col: 13, offset: 93160,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35077,28 +35118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35107,9 +35148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -35128,12 +35169,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2841, col: 14, offset: 90123},
+																					pos: position{line: 2855, col: 14, offset: 90578},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2841, col: 14, offset: 90123},
+																						pos: position{line: 2855, col: 14, offset: 90578},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 14, offset: 90123},
+																							pos:        position{line: 2855, col: 14, offset: 90578},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35143,28 +35184,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92767},
+																				pos: position{line: 2954, col: 8, offset: 93222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92540},
+																						pos: position{line: 2941, col: 12, offset: 92995},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92541},
+																							pos: position{line: 2941, col: 13, offset: 92996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92541},
+																									pos:        position{line: 2941, col: 13, offset: 92996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92548},
+																									pos:        position{line: 2941, col: 20, offset: 93003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92557},
+																									pos:        position{line: 2941, col: 29, offset: 93012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35173,9 +35214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -35184,21 +35225,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1823, col: 5, offset: 58885},
+																	pos: position{line: 1824, col: 5, offset: 58910},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1823, col: 5, offset: 58885},
+																		pos: position{line: 1824, col: 5, offset: 58910},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1823, col: 5, offset: 58885},
+																				pos:   position{line: 1824, col: 5, offset: 58910},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2841, col: 14, offset: 90123},
+																					pos: position{line: 2855, col: 14, offset: 90578},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2841, col: 14, offset: 90123},
+																						pos: position{line: 2855, col: 14, offset: 90578},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 14, offset: 90123},
+																							pos:        position{line: 2855, col: 14, offset: 90578},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35208,32 +35249,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1824, col: 5, offset: 58909},
+																				pos: position{line: 1825, col: 5, offset: 58934},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92767},
+																				pos: position{line: 2954, col: 8, offset: 93222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92540},
+																						pos: position{line: 2941, col: 12, offset: 92995},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92541},
+																							pos: position{line: 2941, col: 13, offset: 92996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92541},
+																									pos:        position{line: 2941, col: 13, offset: 92996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92548},
+																									pos:        position{line: 2941, col: 20, offset: 93003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92557},
+																									pos:        position{line: 2941, col: 29, offset: 93012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35242,9 +35283,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -35291,10 +35332,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35303,28 +35344,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35333,9 +35374,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -35383,10 +35424,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35395,28 +35436,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35425,9 +35466,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -35436,9 +35477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -35454,21 +35495,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35478,28 +35519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35508,9 +35549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -35555,10 +35596,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92369},
+																					pos: position{line: 2932, col: 10, offset: 92824},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92369},
+																						pos:        position{line: 2932, col: 10, offset: 92824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35567,28 +35608,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92767},
+																				pos: position{line: 2954, col: 8, offset: 93222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92540},
+																						pos: position{line: 2941, col: 12, offset: 92995},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92541},
+																							pos: position{line: 2941, col: 13, offset: 92996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92541},
+																									pos:        position{line: 2941, col: 13, offset: 92996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92548},
+																									pos:        position{line: 2941, col: 20, offset: 93003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92557},
+																									pos:        position{line: 2941, col: 29, offset: 93012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35597,9 +35638,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -35608,9 +35649,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -35666,10 +35707,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35678,28 +35719,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35708,9 +35749,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -35782,10 +35823,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35794,28 +35835,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35824,9 +35865,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -35842,9 +35883,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -35860,21 +35901,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35884,28 +35925,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35914,9 +35955,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -35981,10 +36022,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35993,28 +36034,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36023,9 +36064,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -36041,9 +36082,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -36099,10 +36140,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36111,28 +36152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36141,9 +36182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -36215,10 +36256,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36227,28 +36268,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36257,9 +36298,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -36275,9 +36316,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -36293,21 +36334,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36317,28 +36358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36347,9 +36388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -36414,10 +36455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36426,28 +36467,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36456,9 +36497,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -36474,9 +36515,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -36532,10 +36573,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36544,28 +36585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36574,9 +36615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -36648,10 +36689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2918, col: 10, offset: 92369},
+																												pos: position{line: 2932, col: 10, offset: 92824},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2918, col: 10, offset: 92369},
+																													pos:        position{line: 2932, col: 10, offset: 92824},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36660,28 +36701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2940, col: 8, offset: 92767},
+																											pos: position{line: 2954, col: 8, offset: 93222},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2927, col: 12, offset: 92540},
+																													pos: position{line: 2941, col: 12, offset: 92995},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2927, col: 13, offset: 92541},
+																														pos: position{line: 2941, col: 13, offset: 92996},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36690,9 +36731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2937, col: 8, offset: 92717},
+																													pos: position{line: 2951, col: 8, offset: 93172},
 																													expr: &anyMatcher{
-																														line: 2937, col: 9, offset: 92718,
+																														line: 2951, col: 9, offset: 93173,
 																													},
 																												},
 																											},
@@ -36708,9 +36749,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -36726,21 +36767,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2935, col: 11, offset: 92703},
+																						pos: position{line: 2949, col: 11, offset: 93158},
 																						expr: &anyMatcher{
-																							line: 2935, col: 13, offset: 92705,
+																							line: 2949, col: 13, offset: 93160,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2837, col: 13, offset: 90056},
+																							pos: position{line: 2851, col: 13, offset: 90511},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2837, col: 13, offset: 90056},
+																								pos: position{line: 2851, col: 13, offset: 90511},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2837, col: 13, offset: 90056},
+																									pos:        position{line: 2851, col: 13, offset: 90511},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36750,28 +36791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
+																								pos: position{line: 2941, col: 12, offset: 92995},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36780,9 +36821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -36847,10 +36888,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
+																								pos: position{line: 2932, col: 10, offset: 92824},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36859,28 +36900,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
+																									pos: position{line: 2941, col: 12, offset: 92995},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36889,9 +36930,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -36907,9 +36948,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -36920,27 +36961,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2736, col: 18, offset: 87106},
+										pos: position{line: 2737, col: 18, offset: 87131},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2737, col: 9, offset: 87116},
+											pos: position{line: 2738, col: 9, offset: 87141},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2737, col: 9, offset: 87116},
+													pos: position{line: 2738, col: 9, offset: 87141},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2737, col: 9, offset: 87116},
+															pos:        position{line: 2738, col: 9, offset: 87141},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2737, col: 15, offset: 87122},
+															pos: position{line: 2738, col: 15, offset: 87147},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36949,28 +36990,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2940, col: 8, offset: 92767},
+															pos: position{line: 2954, col: 8, offset: 93222},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92540},
+																	pos: position{line: 2941, col: 12, offset: 92995},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92541},
+																		pos: position{line: 2941, col: 13, offset: 92996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92541},
+																				pos:        position{line: 2941, col: 13, offset: 92996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92548},
+																				pos:        position{line: 2941, col: 20, offset: 93003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92557},
+																				pos:        position{line: 2941, col: 29, offset: 93012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -36979,9 +37020,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -36989,43 +37030,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2738, col: 11, offset: 87155},
+													pos: position{line: 2739, col: 11, offset: 87180},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2738, col: 12, offset: 87156},
+															pos: position{line: 2739, col: 12, offset: 87181},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2738, col: 12, offset: 87156},
+																	pos:        position{line: 2739, col: 12, offset: 87181},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2738, col: 20, offset: 87164},
+																	pos:        position{line: 2739, col: 20, offset: 87189},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2738, col: 30, offset: 87174},
+																	pos:        position{line: 2739, col: 30, offset: 87199},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2738, col: 38, offset: 87182},
+																	pos:        position{line: 2739, col: 38, offset: 87207},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2738, col: 48, offset: 87192},
+																	pos:        position{line: 2739, col: 48, offset: 87217},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2738, col: 56, offset: 87200},
+																	pos:        position{line: 2739, col: 56, offset: 87225},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37033,12 +37074,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2738, col: 65, offset: 87209},
+															pos: position{line: 2739, col: 65, offset: 87234},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37047,28 +37088,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2940, col: 8, offset: 92767},
+															pos: position{line: 2954, col: 8, offset: 93222},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92540},
+																	pos: position{line: 2941, col: 12, offset: 92995},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92541},
+																		pos: position{line: 2941, col: 13, offset: 92996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92541},
+																				pos:        position{line: 2941, col: 13, offset: 92996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92548},
+																				pos:        position{line: 2941, col: 20, offset: 93003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92557},
+																				pos:        position{line: 2941, col: 29, offset: 93012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37077,38 +37118,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2738, col: 76, offset: 87220},
+															pos: position{line: 2739, col: 76, offset: 87245},
 															expr: &choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37117,9 +37158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -37134,25 +37175,29 @@ var g = &grammar{
 										pos:  position{line: 1586, col: 11, offset: 51148},
 										name: "ImageBlock",
 									},
+									&ruleRefExpr{
+										pos:  position{line: 1587, col: 11, offset: 51169},
+										name: "UserMacroBlock",
+									},
 									&actionExpr{
-										pos: position{line: 2627, col: 5, offset: 84042},
-										run: (*parser).callonListContinuationElement1343,
+										pos: position{line: 2628, col: 5, offset: 84067},
+										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2627, col: 5, offset: 84042},
+											pos: position{line: 2628, col: 5, offset: 84067},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2633, col: 19, offset: 84199},
+													pos:        position{line: 2634, col: 19, offset: 84224},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2633, col: 26, offset: 84206},
+													pos: position{line: 2634, col: 26, offset: 84231},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
-														run: (*parser).callonListContinuationElement1347,
+														pos: position{line: 2932, col: 10, offset: 92824},
+														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37161,28 +37206,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
-															run: (*parser).callonListContinuationElement1350,
+															pos: position{line: 2941, col: 12, offset: 92995},
+															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37191,40 +37236,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2628, col: 5, offset: 84066},
+													pos:   position{line: 2629, col: 5, offset: 84091},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2628, col: 11, offset: 84072},
+														pos: position{line: 2629, col: 11, offset: 84097},
 														expr: &choiceExpr{
-															pos: position{line: 2628, col: 12, offset: 84073},
+															pos: position{line: 2629, col: 12, offset: 84098},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
-																	run: (*parser).callonListContinuationElement1360,
+																	run: (*parser).callonListContinuationElement1361,
 																	expr: &seqExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2935, col: 11, offset: 92703},
+																				pos: position{line: 2949, col: 11, offset: 93158},
 																				expr: &anyMatcher{
-																					line: 2935, col: 13, offset: 92705,
+																					line: 2949, col: 13, offset: 93160,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92369},
-																					run: (*parser).callonListContinuationElement1365,
+																					pos: position{line: 2932, col: 10, offset: 92824},
+																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92369},
+																						pos:        position{line: 2932, col: 10, offset: 92824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37233,28 +37278,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2940, col: 8, offset: 92767},
+																				pos: position{line: 2954, col: 8, offset: 93222},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92540},
-																						run: (*parser).callonListContinuationElement1368,
+																						pos: position{line: 2941, col: 12, offset: 92995},
+																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92541},
+																							pos: position{line: 2941, col: 13, offset: 92996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92541},
+																									pos:        position{line: 2941, col: 13, offset: 92996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92548},
+																									pos:        position{line: 2941, col: 20, offset: 93003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92557},
+																									pos:        position{line: 2941, col: 29, offset: 93012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37263,9 +37308,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -37274,32 +37319,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2640, col: 5, offset: 84318},
-																	run: (*parser).callonListContinuationElement1375,
+																	pos: position{line: 2641, col: 5, offset: 84343},
+																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2640, col: 5, offset: 84318},
+																		pos: position{line: 2641, col: 5, offset: 84343},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2640, col: 5, offset: 84318},
+																				pos: position{line: 2641, col: 5, offset: 84343},
 																				expr: &choiceExpr{
-																					pos: position{line: 2637, col: 22, offset: 84279},
+																					pos: position{line: 2638, col: 22, offset: 84304},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2633, col: 19, offset: 84199},
+																							pos: position{line: 2634, col: 19, offset: 84224},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2633, col: 19, offset: 84199},
+																									pos:        position{line: 2634, col: 19, offset: 84224},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2633, col: 26, offset: 84206},
+																									pos: position{line: 2634, col: 26, offset: 84231},
 																									expr: &actionExpr{
-																										pos: position{line: 2918, col: 10, offset: 92369},
-																										run: (*parser).callonListContinuationElement1382,
+																										pos: position{line: 2932, col: 10, offset: 92824},
+																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2918, col: 10, offset: 92369},
+																											pos:        position{line: 2932, col: 10, offset: 92824},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37308,28 +37353,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
-																											run: (*parser).callonListContinuationElement1385,
+																											pos: position{line: 2941, col: 12, offset: 92995},
+																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37338,9 +37383,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
@@ -37348,59 +37393,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2641, col: 5, offset: 84341},
+																				pos:   position{line: 2642, col: 5, offset: 84366},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2642, col: 9, offset: 84359},
+																					pos: position{line: 2643, col: 9, offset: 84384},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2642, col: 10, offset: 84360},
-																							run: (*parser).callonListContinuationElement1396,
+																							pos: position{line: 2643, col: 10, offset: 84385},
+																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2642, col: 10, offset: 84360},
+																								pos:   position{line: 2643, col: 10, offset: 84385},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2642, col: 17, offset: 84367},
+																									pos: position{line: 2643, col: 17, offset: 84392},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2650, col: 21, offset: 84563},
-																											run: (*parser).callonListContinuationElement1399,
+																											pos: position{line: 2651, col: 21, offset: 84588},
+																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2650, col: 21, offset: 84563},
+																												pos: position{line: 2651, col: 21, offset: 84588},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2650, col: 21, offset: 84563},
+																														pos:   position{line: 2651, col: 21, offset: 84588},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2650, col: 27, offset: 84569},
+																															pos: position{line: 2651, col: 27, offset: 84594},
 																															expr: &actionExpr{
-																																pos: position{line: 2655, col: 5, offset: 84644},
-																																run: (*parser).callonListContinuationElement1403,
+																																pos: position{line: 2656, col: 5, offset: 84669},
+																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84644},
+																																	pos: position{line: 2656, col: 5, offset: 84669},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2655, col: 5, offset: 84644},
+																																			pos:        position{line: 2656, col: 5, offset: 84669},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2655, col: 9, offset: 84648},
+																																			pos: position{line: 2656, col: 9, offset: 84673},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2918, col: 10, offset: 92369},
-																																				run: (*parser).callonListContinuationElement1407,
+																																				pos: position{line: 2932, col: 10, offset: 92824},
+																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2918, col: 10, offset: 92369},
+																																					pos:        position{line: 2932, col: 10, offset: 92824},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37409,21 +37454,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2655, col: 16, offset: 84655},
+																																			pos:   position{line: 2656, col: 16, offset: 84680},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2661, col: 5, offset: 84855},
-																																				run: (*parser).callonListContinuationElement1410,
+																																				pos: position{line: 2662, col: 5, offset: 84880},
+																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2661, col: 5, offset: 84855},
+																																					pos:   position{line: 2662, col: 5, offset: 84880},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2661, col: 14, offset: 84864},
-																																						run: (*parser).callonListContinuationElement1412,
+																																						pos: position{line: 2662, col: 14, offset: 84889},
+																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2661, col: 14, offset: 84864},
+																																							pos: position{line: 2662, col: 14, offset: 84889},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2661, col: 14, offset: 84864},
+																																								pos:        position{line: 2662, col: 14, offset: 84889},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37440,28 +37485,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2940, col: 8, offset: 92767},
+																														pos: position{line: 2954, col: 8, offset: 93222},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2927, col: 12, offset: 92540},
-																																run: (*parser).callonListContinuationElement1416,
+																																pos: position{line: 2941, col: 12, offset: 92995},
+																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2927, col: 13, offset: 92541},
+																																	pos: position{line: 2941, col: 13, offset: 92996},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 13, offset: 92541},
+																																			pos:        position{line: 2941, col: 13, offset: 92996},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 20, offset: 92548},
+																																			pos:        position{line: 2941, col: 20, offset: 93003},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2927, col: 29, offset: 92557},
+																																			pos:        position{line: 2941, col: 29, offset: 93012},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37470,9 +37515,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2937, col: 8, offset: 92717},
+																																pos: position{line: 2951, col: 8, offset: 93172},
 																																expr: &anyMatcher{
-																																	line: 2937, col: 9, offset: 92718,
+																																	line: 2951, col: 9, offset: 93173,
 																																},
 																															},
 																														},
@@ -37481,40 +37526,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2667, col: 24, offset: 85000},
-																											run: (*parser).callonListContinuationElement1423,
+																											pos: position{line: 2668, col: 24, offset: 85025},
+																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2667, col: 24, offset: 85000},
+																												pos:   position{line: 2668, col: 24, offset: 85025},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2667, col: 30, offset: 85006},
+																													pos: position{line: 2668, col: 30, offset: 85031},
 																													expr: &actionExpr{
-																														pos: position{line: 2672, col: 5, offset: 85082},
-																														run: (*parser).callonListContinuationElement1426,
+																														pos: position{line: 2673, col: 5, offset: 85107},
+																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2672, col: 5, offset: 85082},
+																															pos: position{line: 2673, col: 5, offset: 85107},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2672, col: 5, offset: 85082},
+																																	pos: position{line: 2673, col: 5, offset: 85107},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2637, col: 22, offset: 84279},
+																																		pos: position{line: 2638, col: 22, offset: 84304},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2633, col: 19, offset: 84199},
+																																				pos: position{line: 2634, col: 19, offset: 84224},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2633, col: 19, offset: 84199},
+																																						pos:        position{line: 2634, col: 19, offset: 84224},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2633, col: 26, offset: 84206},
+																																						pos: position{line: 2634, col: 26, offset: 84231},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2918, col: 10, offset: 92369},
-																																							run: (*parser).callonListContinuationElement1433,
+																																							pos: position{line: 2932, col: 10, offset: 92824},
+																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2918, col: 10, offset: 92369},
+																																								pos:        position{line: 2932, col: 10, offset: 92824},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37523,28 +37568,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2940, col: 8, offset: 92767},
+																																						pos: position{line: 2954, col: 8, offset: 93222},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2927, col: 12, offset: 92540},
-																																								run: (*parser).callonListContinuationElement1436,
+																																								pos: position{line: 2941, col: 12, offset: 92995},
+																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2927, col: 13, offset: 92541},
+																																									pos: position{line: 2941, col: 13, offset: 92996},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 13, offset: 92541},
+																																											pos:        position{line: 2941, col: 13, offset: 92996},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 20, offset: 92548},
+																																											pos:        position{line: 2941, col: 20, offset: 93003},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2927, col: 29, offset: 92557},
+																																											pos:        position{line: 2941, col: 29, offset: 93012},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37553,9 +37598,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2937, col: 8, offset: 92717},
+																																								pos: position{line: 2951, col: 8, offset: 93172},
 																																								expr: &anyMatcher{
-																																									line: 2937, col: 9, offset: 92718,
+																																									line: 2951, col: 9, offset: 93173,
 																																								},
 																																							},
 																																						},
@@ -37563,35 +37608,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2937, col: 8, offset: 92717},
+																																				pos: position{line: 2951, col: 8, offset: 93172},
 																																				expr: &anyMatcher{
-																																					line: 2937, col: 9, offset: 92718,
+																																					line: 2951, col: 9, offset: 93173,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2673, col: 5, offset: 85105},
+																																	pos: position{line: 2674, col: 5, offset: 85130},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		run: (*parser).callonListContinuationElement1447,
 																																		expr: &seqExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2935, col: 11, offset: 92703},
+																																					pos: position{line: 2949, col: 11, offset: 93158},
 																																					expr: &anyMatcher{
-																																						line: 2935, col: 13, offset: 92705,
+																																						line: 2949, col: 13, offset: 93160,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2918, col: 10, offset: 92369},
-																																						run: (*parser).callonListContinuationElement1451,
+																																						pos: position{line: 2932, col: 10, offset: 92824},
+																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2918, col: 10, offset: 92369},
+																																							pos:        position{line: 2932, col: 10, offset: 92824},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37600,28 +37645,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2940, col: 8, offset: 92767},
+																																					pos: position{line: 2954, col: 8, offset: 93222},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2927, col: 12, offset: 92540},
-																																							run: (*parser).callonListContinuationElement1454,
+																																							pos: position{line: 2941, col: 12, offset: 92995},
+																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2927, col: 13, offset: 92541},
+																																								pos: position{line: 2941, col: 13, offset: 92996},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 13, offset: 92541},
+																																										pos:        position{line: 2941, col: 13, offset: 92996},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 20, offset: 92548},
+																																										pos:        position{line: 2941, col: 20, offset: 93003},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2927, col: 29, offset: 92557},
+																																										pos:        position{line: 2941, col: 29, offset: 93012},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37630,9 +37675,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2937, col: 8, offset: 92717},
+																																							pos: position{line: 2951, col: 8, offset: 93172},
 																																							expr: &anyMatcher{
-																																								line: 2937, col: 9, offset: 92718,
+																																								line: 2951, col: 9, offset: 93173,
 																																							},
 																																						},
 																																					},
@@ -37642,17 +37687,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2674, col: 5, offset: 85120},
+																																	pos:   position{line: 2675, col: 5, offset: 85145},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2674, col: 12, offset: 85127},
+																																		pos: position{line: 2675, col: 12, offset: 85152},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2691, col: 20, offset: 85591},
-																																			run: (*parser).callonListContinuationElement1463,
+																																			pos: position{line: 2692, col: 20, offset: 85616},
+																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2691, col: 20, offset: 85591},
+																																				pos: position{line: 2692, col: 20, offset: 85616},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2691, col: 20, offset: 85591},
+																																					pos:        position{line: 2692, col: 20, offset: 85616},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37663,18 +37708,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2674, col: 31, offset: 85146},
+																																	pos:        position{line: 2675, col: 31, offset: 85171},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2674, col: 35, offset: 85150},
+																																	pos: position{line: 2675, col: 35, offset: 85175},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2918, col: 10, offset: 92369},
-																																		run: (*parser).callonListContinuationElement1468,
+																																		pos: position{line: 2932, col: 10, offset: 92824},
+																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2918, col: 10, offset: 92369},
+																																			pos:        position{line: 2932, col: 10, offset: 92824},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37683,27 +37728,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2674, col: 42, offset: 85157},
+																																	pos: position{line: 2675, col: 42, offset: 85182},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2927, col: 12, offset: 92540},
-																																		run: (*parser).callonListContinuationElement1471,
+																																		pos: position{line: 2941, col: 12, offset: 92995},
+																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2927, col: 13, offset: 92541},
+																																			pos: position{line: 2941, col: 13, offset: 92996},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 13, offset: 92541},
+																																					pos:        position{line: 2941, col: 13, offset: 92996},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 20, offset: 92548},
+																																					pos:        position{line: 2941, col: 20, offset: 93003},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2927, col: 29, offset: 92557},
+																																					pos:        position{line: 2941, col: 29, offset: 93012},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37713,37 +37758,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2674, col: 51, offset: 85166},
+																																	pos:   position{line: 2675, col: 51, offset: 85191},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2680, col: 5, offset: 85325},
+																																		pos: position{line: 2681, col: 5, offset: 85350},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2681, col: 9, offset: 85335},
-																																			run: (*parser).callonListContinuationElement1478,
+																																			pos: position{line: 2682, col: 9, offset: 85360},
+																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2681, col: 9, offset: 85335},
+																																				pos: position{line: 2682, col: 9, offset: 85360},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2681, col: 9, offset: 85335},
+																																						pos: position{line: 2682, col: 9, offset: 85360},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2637, col: 22, offset: 84279},
+																																							pos: position{line: 2638, col: 22, offset: 84304},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2633, col: 19, offset: 84199},
+																																									pos: position{line: 2634, col: 19, offset: 84224},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2633, col: 19, offset: 84199},
+																																											pos:        position{line: 2634, col: 19, offset: 84224},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2633, col: 26, offset: 84206},
+																																											pos: position{line: 2634, col: 26, offset: 84231},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2918, col: 10, offset: 92369},
-																																												run: (*parser).callonListContinuationElement1485,
+																																												pos: position{line: 2932, col: 10, offset: 92824},
+																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2918, col: 10, offset: 92369},
+																																													pos:        position{line: 2932, col: 10, offset: 92824},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37752,28 +37797,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2940, col: 8, offset: 92767},
+																																											pos: position{line: 2954, col: 8, offset: 93222},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2927, col: 12, offset: 92540},
-																																													run: (*parser).callonListContinuationElement1488,
+																																													pos: position{line: 2941, col: 12, offset: 92995},
+																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2927, col: 13, offset: 92541},
+																																														pos: position{line: 2941, col: 13, offset: 92996},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 13, offset: 92541},
+																																																pos:        position{line: 2941, col: 13, offset: 92996},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 20, offset: 92548},
+																																																pos:        position{line: 2941, col: 20, offset: 93003},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2927, col: 29, offset: 92557},
+																																																pos:        position{line: 2941, col: 29, offset: 93012},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37782,9 +37827,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2937, col: 8, offset: 92717},
+																																													pos: position{line: 2951, col: 8, offset: 93172},
 																																													expr: &anyMatcher{
-																																														line: 2937, col: 9, offset: 92718,
+																																														line: 2951, col: 9, offset: 93173,
 																																													},
 																																												},
 																																											},
@@ -37792,35 +37837,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2937, col: 8, offset: 92717},
+																																									pos: position{line: 2951, col: 8, offset: 93172},
 																																									expr: &anyMatcher{
-																																										line: 2937, col: 9, offset: 92718,
+																																										line: 2951, col: 9, offset: 93173,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2682, col: 9, offset: 85362},
+																																						pos: position{line: 2683, col: 9, offset: 85387},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
-																																							run: (*parser).callonListContinuationElement1498,
+																																							run: (*parser).callonListContinuationElement1499,
 																																							expr: &seqExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2935, col: 11, offset: 92703},
+																																										pos: position{line: 2949, col: 11, offset: 93158},
 																																										expr: &anyMatcher{
-																																											line: 2935, col: 13, offset: 92705,
+																																											line: 2949, col: 13, offset: 93160,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2918, col: 10, offset: 92369},
-																																											run: (*parser).callonListContinuationElement1503,
+																																											pos: position{line: 2932, col: 10, offset: 92824},
+																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2918, col: 10, offset: 92369},
+																																												pos:        position{line: 2932, col: 10, offset: 92824},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37829,28 +37874,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2940, col: 8, offset: 92767},
+																																										pos: position{line: 2954, col: 8, offset: 93222},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2927, col: 12, offset: 92540},
-																																												run: (*parser).callonListContinuationElement1506,
+																																												pos: position{line: 2941, col: 12, offset: 92995},
+																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2927, col: 13, offset: 92541},
+																																													pos: position{line: 2941, col: 13, offset: 92996},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 13, offset: 92541},
+																																															pos:        position{line: 2941, col: 13, offset: 92996},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 20, offset: 92548},
+																																															pos:        position{line: 2941, col: 20, offset: 93003},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2927, col: 29, offset: 92557},
+																																															pos:        position{line: 2941, col: 29, offset: 93012},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37859,9 +37904,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2937, col: 8, offset: 92717},
+																																												pos: position{line: 2951, col: 8, offset: 93172},
 																																												expr: &anyMatcher{
-																																													line: 2937, col: 9, offset: 92718,
+																																													line: 2951, col: 9, offset: 93173,
 																																												},
 																																											},
 																																										},
@@ -37871,22 +37916,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2683, col: 9, offset: 85381},
+																																						pos: position{line: 2684, col: 9, offset: 85406},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2683, col: 11, offset: 85383},
+																																							pos: position{line: 2684, col: 11, offset: 85408},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2683, col: 11, offset: 85383},
+																																									pos:   position{line: 2684, col: 11, offset: 85408},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2683, col: 18, offset: 85390},
+																																										pos: position{line: 2684, col: 18, offset: 85415},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2691, col: 20, offset: 85591},
-																																											run: (*parser).callonListContinuationElement1517,
+																																											pos: position{line: 2692, col: 20, offset: 85616},
+																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2691, col: 20, offset: 85591},
+																																												pos: position{line: 2692, col: 20, offset: 85616},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2691, col: 20, offset: 85591},
+																																													pos:        position{line: 2692, col: 20, offset: 85616},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37897,7 +37942,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2683, col: 37, offset: 85409},
+																																									pos:        position{line: 2684, col: 37, offset: 85434},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37906,15 +37951,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2684, col: 9, offset: 85422},
+																																						pos:   position{line: 2685, col: 9, offset: 85447},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2684, col: 18, offset: 85431},
-																																							run: (*parser).callonListContinuationElement1522,
+																																							pos: position{line: 2685, col: 18, offset: 85456},
+																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2684, col: 18, offset: 85431},
+																																								pos: position{line: 2685, col: 18, offset: 85456},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2684, col: 18, offset: 85431},
+																																									pos:        position{line: 2685, col: 18, offset: 85456},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37924,30 +37969,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2686, col: 12, offset: 85493},
+																																						pos: position{line: 2687, col: 12, offset: 85518},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2940, col: 8, offset: 92767},
+																																							pos: position{line: 2954, col: 8, offset: 93222},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2927, col: 12, offset: 92540},
-																																									run: (*parser).callonListContinuationElement1527,
+																																									pos: position{line: 2941, col: 12, offset: 92995},
+																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2927, col: 13, offset: 92541},
+																																										pos: position{line: 2941, col: 13, offset: 92996},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 13, offset: 92541},
+																																												pos:        position{line: 2941, col: 13, offset: 92996},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 20, offset: 92548},
+																																												pos:        position{line: 2941, col: 20, offset: 93003},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2927, col: 29, offset: 92557},
+																																												pos:        position{line: 2941, col: 29, offset: 93012},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -37956,9 +38001,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2937, col: 8, offset: 92717},
+																																									pos: position{line: 2951, col: 8, offset: 93172},
 																																									expr: &anyMatcher{
-																																										line: 2937, col: 9, offset: 92718,
+																																										line: 2951, col: 9, offset: 93173,
 																																									},
 																																								},
 																																							},
@@ -37981,23 +38026,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 697, col: 14, offset: 22135},
-																							run: (*parser).callonListContinuationElement1534,
+																							run: (*parser).callonListContinuationElement1535,
 																							expr: &seqExpr{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2935, col: 11, offset: 92703},
+																										pos: position{line: 2949, col: 11, offset: 93158},
 																										expr: &anyMatcher{
-																											line: 2935, col: 13, offset: 92705,
+																											line: 2949, col: 13, offset: 93160,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2918, col: 10, offset: 92369},
-																											run: (*parser).callonListContinuationElement1539,
+																											pos: position{line: 2932, col: 10, offset: 92824},
+																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2918, col: 10, offset: 92369},
+																												pos:        position{line: 2932, col: 10, offset: 92824},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38006,28 +38051,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2940, col: 8, offset: 92767},
+																										pos: position{line: 2954, col: 8, offset: 93222},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2927, col: 12, offset: 92540},
-																												run: (*parser).callonListContinuationElement1542,
+																												pos: position{line: 2941, col: 12, offset: 92995},
+																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2927, col: 13, offset: 92541},
+																													pos: position{line: 2941, col: 13, offset: 92996},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 13, offset: 92541},
+																															pos:        position{line: 2941, col: 13, offset: 92996},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 20, offset: 92548},
+																															pos:        position{line: 2941, col: 20, offset: 93003},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2927, col: 29, offset: 92557},
+																															pos:        position{line: 2941, col: 29, offset: 93012},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38036,9 +38081,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2937, col: 8, offset: 92717},
+																												pos: position{line: 2951, col: 8, offset: 93172},
 																												expr: &anyMatcher{
-																													line: 2937, col: 9, offset: 92718,
+																													line: 2951, col: 9, offset: 93173,
 																												},
 																											},
 																										},
@@ -38057,24 +38102,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2637, col: 22, offset: 84279},
+													pos: position{line: 2638, col: 22, offset: 84304},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2633, col: 19, offset: 84199},
+															pos: position{line: 2634, col: 19, offset: 84224},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2633, col: 19, offset: 84199},
+																	pos:        position{line: 2634, col: 19, offset: 84224},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2633, col: 26, offset: 84206},
+																	pos: position{line: 2634, col: 26, offset: 84231},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
-																		run: (*parser).callonListContinuationElement1553,
+																		pos: position{line: 2932, col: 10, offset: 92824},
+																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38083,28 +38128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
-																			run: (*parser).callonListContinuationElement1556,
+																			pos: position{line: 2941, col: 12, offset: 92995},
+																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38113,9 +38158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -38123,9 +38168,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -38134,36 +38179,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 22, offset: 80501},
-										run: (*parser).callonListContinuationElement1565,
+										pos: position{line: 2502, col: 22, offset: 80526},
+										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 22, offset: 80501},
+											pos: position{line: 2502, col: 22, offset: 80526},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2506, col: 31, offset: 80722},
+													pos:        position{line: 2507, col: 31, offset: 80747},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2506, col: 36, offset: 80727},
+													pos: position{line: 2507, col: 36, offset: 80752},
 													expr: &litMatcher{
-														pos:        position{line: 2506, col: 37, offset: 80728},
+														pos:        position{line: 2507, col: 37, offset: 80753},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2501, col: 49, offset: 80528},
+													pos:   position{line: 2502, col: 49, offset: 80553},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 13, offset: 90056},
-														run: (*parser).callonListContinuationElement1571,
+														pos: position{line: 2851, col: 13, offset: 90511},
+														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2837, col: 13, offset: 90056},
+															pos: position{line: 2851, col: 13, offset: 90511},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 13, offset: 90056},
+																pos:        position{line: 2851, col: 13, offset: 90511},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38173,28 +38218,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2940, col: 8, offset: 92767},
+													pos: position{line: 2954, col: 8, offset: 93222},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
-															run: (*parser).callonListContinuationElement1575,
+															pos: position{line: 2941, col: 12, offset: 92995},
+															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38203,9 +38248,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2937, col: 8, offset: 92717},
+															pos: position{line: 2951, col: 8, offset: 93172},
 															expr: &anyMatcher{
-																line: 2937, col: 9, offset: 92718,
+																line: 2951, col: 9, offset: 93173,
 															},
 														},
 													},
@@ -38214,94 +38259,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1599, col: 5, offset: 51578},
-										run: (*parser).callonListContinuationElement1582,
+										pos: position{line: 1600, col: 5, offset: 51603},
+										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1599, col: 5, offset: 51578},
+											pos: position{line: 1600, col: 5, offset: 51603},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1599, col: 5, offset: 51578},
+													pos:   position{line: 1600, col: 5, offset: 51603},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1599, col: 11, offset: 51584},
+														pos: position{line: 1600, col: 11, offset: 51609},
 														expr: &actionExpr{
-															pos: position{line: 1763, col: 5, offset: 56901},
-															run: (*parser).callonListContinuationElement1586,
+															pos: position{line: 1764, col: 5, offset: 56926},
+															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1763, col: 5, offset: 56901},
+																pos: position{line: 1764, col: 5, offset: 56926},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1763, col: 5, offset: 56901},
-																		run: (*parser).callonListContinuationElement1588,
+																		pos: position{line: 1764, col: 5, offset: 56926},
+																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1766, col: 5, offset: 56964},
+																		pos:   position{line: 1767, col: 5, offset: 56989},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1766, col: 12, offset: 56971},
+																			pos: position{line: 1767, col: 12, offset: 56996},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1766, col: 12, offset: 56971},
-																					run: (*parser).callonListContinuationElement1591,
+																					pos: position{line: 1767, col: 12, offset: 56996},
+																					run: (*parser).callonListContinuationElement1592,
 																					expr: &litMatcher{
-																						pos:        position{line: 1766, col: 12, offset: 56971},
+																						pos:        position{line: 1767, col: 12, offset: 56996},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1768, col: 13, offset: 57027},
-																					run: (*parser).callonListContinuationElement1593,
+																					pos: position{line: 1769, col: 13, offset: 57052},
+																					run: (*parser).callonListContinuationElement1594,
 																					expr: &litMatcher{
-																						pos:        position{line: 1768, col: 13, offset: 57027},
+																						pos:        position{line: 1769, col: 13, offset: 57052},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1770, col: 13, offset: 57085},
-																					run: (*parser).callonListContinuationElement1595,
+																					pos: position{line: 1771, col: 13, offset: 57110},
+																					run: (*parser).callonListContinuationElement1596,
 																					expr: &litMatcher{
-																						pos:        position{line: 1770, col: 13, offset: 57085},
+																						pos:        position{line: 1771, col: 13, offset: 57110},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1772, col: 13, offset: 57153},
-																					run: (*parser).callonListContinuationElement1597,
+																					pos: position{line: 1773, col: 13, offset: 57178},
+																					run: (*parser).callonListContinuationElement1598,
 																					expr: &litMatcher{
-																						pos:        position{line: 1772, col: 13, offset: 57153},
+																						pos:        position{line: 1773, col: 13, offset: 57178},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1774, col: 13, offset: 57217},
-																					run: (*parser).callonListContinuationElement1599,
+																					pos: position{line: 1775, col: 13, offset: 57242},
+																					run: (*parser).callonListContinuationElement1600,
 																					expr: &litMatcher{
-																						pos:        position{line: 1774, col: 13, offset: 57217},
+																						pos:        position{line: 1775, col: 13, offset: 57242},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1776, col: 13, offset: 57281},
-																					run: (*parser).callonListContinuationElement1601,
+																					pos: position{line: 1777, col: 13, offset: 57306},
+																					run: (*parser).callonListContinuationElement1602,
 																					expr: &andExpr{
-																						pos: position{line: 1776, col: 13, offset: 57281},
+																						pos: position{line: 1777, col: 13, offset: 57306},
 																						expr: &actionExpr{
-																							pos: position{line: 2922, col: 11, offset: 92430},
-																							run: (*parser).callonListContinuationElement1603,
+																							pos: position{line: 2936, col: 11, offset: 92885},
+																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2922, col: 11, offset: 92430},
+																								pos: position{line: 2936, col: 11, offset: 92885},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2922, col: 11, offset: 92430},
+																									pos:        position{line: 2936, col: 11, offset: 92885},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38315,17 +38360,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1778, col: 12, offset: 57361},
+																		pos: position{line: 1779, col: 12, offset: 57386},
 																		expr: &seqExpr{
-																			pos: position{line: 1778, col: 14, offset: 57363},
+																			pos: position{line: 1779, col: 14, offset: 57388},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1778, col: 14, offset: 57363},
+																					pos: position{line: 1779, col: 14, offset: 57388},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
-																						run: (*parser).callonListContinuationElement1609,
+																						pos: position{line: 2932, col: 10, offset: 92824},
+																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38334,28 +38379,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
-																							run: (*parser).callonListContinuationElement1612,
+																							pos: position{line: 2941, col: 12, offset: 92995},
+																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38364,9 +38409,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -38380,11 +38425,11 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1600, col: 5, offset: 51607},
+													pos:   position{line: 1601, col: 5, offset: 51632},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1543, col: 5, offset: 49903},
-														run: (*parser).callonListContinuationElement1620,
+														run: (*parser).callonListContinuationElement1621,
 														expr: &seqExpr{
 															pos: position{line: 1543, col: 5, offset: 49903},
 															exprs: []interface{}{
@@ -38392,23 +38437,23 @@ var g = &grammar{
 																	pos: position{line: 1543, col: 5, offset: 49903},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
-																		run: (*parser).callonListContinuationElement1623,
+																		run: (*parser).callonListContinuationElement1624,
 																		expr: &seqExpr{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2935, col: 11, offset: 92703},
+																					pos: position{line: 2949, col: 11, offset: 93158},
 																					expr: &anyMatcher{
-																						line: 2935, col: 13, offset: 92705,
+																						line: 2949, col: 13, offset: 93160,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
-																						run: (*parser).callonListContinuationElement1628,
+																						pos: position{line: 2932, col: 10, offset: 92824},
+																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38417,28 +38462,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2940, col: 8, offset: 92767},
+																					pos: position{line: 2954, col: 8, offset: 93222},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
-																							run: (*parser).callonListContinuationElement1631,
+																							pos: position{line: 2941, col: 12, offset: 92995},
+																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38447,9 +38492,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2937, col: 8, offset: 92717},
+																							pos: position{line: 2951, col: 8, offset: 93172},
 																							expr: &anyMatcher{
-																								line: 2937, col: 9, offset: 92718,
+																								line: 2951, col: 9, offset: 93173,
 																							},
 																						},
 																					},
@@ -38472,10 +38517,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50827},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92369},
-																					run: (*parser).callonListContinuationElement1642,
+																					pos: position{line: 2932, col: 10, offset: 92824},
+																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92369},
+																						pos:        position{line: 2932, col: 10, offset: 92824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38484,25 +38529,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
-																				run: (*parser).callonListContinuationElement1644,
+																				pos: position{line: 2941, col: 12, offset: 92995},
+																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38516,18 +38561,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1545, col: 5, offset: 49946},
 																	expr: &actionExpr{
-																		pos: position{line: 1615, col: 5, offset: 52017},
-																		run: (*parser).callonListContinuationElement1650,
+																		pos: position{line: 1616, col: 5, offset: 52042},
+																		run: (*parser).callonListContinuationElement1651,
 																		expr: &seqExpr{
-																			pos: position{line: 1615, col: 5, offset: 52017},
+																			pos: position{line: 1616, col: 5, offset: 52042},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1615, col: 5, offset: 52017},
+																					pos: position{line: 1616, col: 5, offset: 52042},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
-																						run: (*parser).callonListContinuationElement1653,
+																						pos: position{line: 2932, col: 10, offset: 92824},
+																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38536,27 +38581,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1615, col: 12, offset: 52024},
+																					pos:   position{line: 1616, col: 12, offset: 52049},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1617, col: 9, offset: 52087},
+																						pos: position{line: 1618, col: 9, offset: 52112},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1617, col: 9, offset: 52087},
-																								run: (*parser).callonListContinuationElement1657,
+																								pos: position{line: 1618, col: 9, offset: 52112},
+																								run: (*parser).callonListContinuationElement1658,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 9, offset: 52087},
+																									pos: position{line: 1618, col: 9, offset: 52112},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1617, col: 9, offset: 52087},
+																											pos:   position{line: 1618, col: 9, offset: 52112},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1617, col: 16, offset: 52094},
-																												run: (*parser).callonListContinuationElement1660,
+																												pos: position{line: 1618, col: 16, offset: 52119},
+																												run: (*parser).callonListContinuationElement1661,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1617, col: 16, offset: 52094},
+																													pos: position{line: 1618, col: 16, offset: 52119},
 																													expr: &litMatcher{
-																														pos:        position{line: 1617, col: 17, offset: 52095},
+																														pos:        position{line: 1618, col: 17, offset: 52120},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38565,22 +38610,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1621, col: 9, offset: 52195},
-																											run: (*parser).callonListContinuationElement1663,
+																											pos: position{line: 1622, col: 9, offset: 52220},
+																											run: (*parser).callonListContinuationElement1664,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1640, col: 11, offset: 52912},
-																								run: (*parser).callonListContinuationElement1664,
+																								pos: position{line: 1641, col: 11, offset: 52937},
+																								run: (*parser).callonListContinuationElement1665,
 																								expr: &seqExpr{
-																									pos: position{line: 1640, col: 11, offset: 52912},
+																									pos: position{line: 1641, col: 11, offset: 52937},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1640, col: 11, offset: 52912},
+																											pos: position{line: 1641, col: 11, offset: 52937},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1640, col: 12, offset: 52913},
+																												pos:        position{line: 1641, col: 12, offset: 52938},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38588,7 +38633,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1640, col: 20, offset: 52921},
+																											pos:        position{line: 1641, col: 20, offset: 52946},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38597,20 +38642,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1642, col: 13, offset: 53038},
-																								run: (*parser).callonListContinuationElement1669,
+																								pos: position{line: 1643, col: 13, offset: 53063},
+																								run: (*parser).callonListContinuationElement1670,
 																								expr: &seqExpr{
-																									pos: position{line: 1642, col: 13, offset: 53038},
+																									pos: position{line: 1643, col: 13, offset: 53063},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1642, col: 14, offset: 53039},
+																											pos:        position{line: 1643, col: 14, offset: 53064},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1642, col: 21, offset: 53046},
+																											pos:        position{line: 1643, col: 21, offset: 53071},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38619,20 +38664,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1644, col: 13, offset: 53166},
-																								run: (*parser).callonListContinuationElement1673,
+																								pos: position{line: 1645, col: 13, offset: 53191},
+																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1644, col: 13, offset: 53166},
+																									pos: position{line: 1645, col: 13, offset: 53191},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1644, col: 14, offset: 53167},
+																											pos:        position{line: 1645, col: 14, offset: 53192},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1644, col: 21, offset: 53174},
+																											pos:        position{line: 1645, col: 21, offset: 53199},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38641,15 +38686,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1646, col: 13, offset: 53294},
-																								run: (*parser).callonListContinuationElement1677,
+																								pos: position{line: 1647, col: 13, offset: 53319},
+																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1646, col: 13, offset: 53294},
+																									pos: position{line: 1647, col: 13, offset: 53319},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1646, col: 13, offset: 53294},
+																											pos: position{line: 1647, col: 13, offset: 53319},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1646, col: 14, offset: 53295},
+																												pos:        position{line: 1647, col: 14, offset: 53320},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38657,7 +38702,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1646, col: 26, offset: 53307},
+																											pos:        position{line: 1647, col: 26, offset: 53332},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38666,15 +38711,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1648, col: 13, offset: 53427},
-																								run: (*parser).callonListContinuationElement1682,
+																								pos: position{line: 1649, col: 13, offset: 53452},
+																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1648, col: 13, offset: 53427},
+																									pos: position{line: 1649, col: 13, offset: 53452},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1648, col: 13, offset: 53427},
+																											pos: position{line: 1649, col: 13, offset: 53452},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1648, col: 14, offset: 53428},
+																												pos:        position{line: 1649, col: 14, offset: 53453},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38682,7 +38727,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1648, col: 26, offset: 53440},
+																											pos:        position{line: 1649, col: 26, offset: 53465},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38694,12 +38739,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92430},
-																					run: (*parser).callonListContinuationElement1687,
+																					pos: position{line: 2936, col: 11, offset: 92885},
+																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92430},
+																						pos: position{line: 2936, col: 11, offset: 92885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92430},
+																							pos:        position{line: 2936, col: 11, offset: 92885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38714,18 +38759,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1546, col: 5, offset: 49976},
 																	expr: &actionExpr{
-																		pos: position{line: 1665, col: 5, offset: 53979},
-																		run: (*parser).callonListContinuationElement1691,
+																		pos: position{line: 1666, col: 5, offset: 54004},
+																		run: (*parser).callonListContinuationElement1692,
 																		expr: &seqExpr{
-																			pos: position{line: 1665, col: 5, offset: 53979},
+																			pos: position{line: 1666, col: 5, offset: 54004},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1665, col: 5, offset: 53979},
+																					pos: position{line: 1666, col: 5, offset: 54004},
 																					expr: &actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
-																						run: (*parser).callonListContinuationElement1694,
+																						pos: position{line: 2932, col: 10, offset: 92824},
+																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38734,24 +38779,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1666, col: 5, offset: 53991},
+																					pos:   position{line: 1667, col: 5, offset: 54016},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1667, col: 9, offset: 54007},
-																						run: (*parser).callonListContinuationElement1697,
+																						pos: position{line: 1668, col: 9, offset: 54032},
+																						run: (*parser).callonListContinuationElement1698,
 																						expr: &choiceExpr{
-																							pos: position{line: 1667, col: 10, offset: 54008},
+																							pos: position{line: 1668, col: 10, offset: 54033},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1667, col: 11, offset: 54009},
+																									pos:        position{line: 1668, col: 11, offset: 54034},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1667, col: 18, offset: 54016},
+																									pos: position{line: 1668, col: 18, offset: 54041},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 19, offset: 54017},
+																										pos:        position{line: 1668, col: 19, offset: 54042},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38762,16 +38807,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1670, col: 7, offset: 54107},
-																					run: (*parser).callonListContinuationElement1702,
+																					pos: position{line: 1671, col: 7, offset: 54132},
+																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92430},
-																					run: (*parser).callonListContinuationElement1703,
+																					pos: position{line: 2936, col: 11, offset: 92885},
+																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92430},
+																						pos: position{line: 2936, col: 11, offset: 92885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92430},
+																							pos:        position{line: 2936, col: 11, offset: 92885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38786,27 +38831,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1547, col: 5, offset: 50008},
 																	expr: &actionExpr{
-																		pos: position{line: 1754, col: 5, offset: 56516},
-																		run: (*parser).callonListContinuationElement1707,
+																		pos: position{line: 1755, col: 5, offset: 56541},
+																		run: (*parser).callonListContinuationElement1708,
 																		expr: &seqExpr{
-																			pos: position{line: 1754, col: 5, offset: 56516},
+																			pos: position{line: 1755, col: 5, offset: 56541},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1754, col: 5, offset: 56516},
+																					pos:        position{line: 1755, col: 5, offset: 56541},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1754, col: 9, offset: 56520},
+																					pos:   position{line: 1755, col: 9, offset: 56545},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1754, col: 14, offset: 56525},
-																						run: (*parser).callonListContinuationElement1711,
+																						pos: position{line: 1755, col: 14, offset: 56550},
+																						run: (*parser).callonListContinuationElement1712,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1754, col: 14, offset: 56525},
+																							pos: position{line: 1755, col: 14, offset: 56550},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1754, col: 14, offset: 56525},
+																								pos:        position{line: 1755, col: 14, offset: 56550},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38816,18 +38861,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1754, col: 62, offset: 56573},
+																					pos:        position{line: 1755, col: 62, offset: 56598},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2922, col: 11, offset: 92430},
-																					run: (*parser).callonListContinuationElement1715,
+																					pos: position{line: 2936, col: 11, offset: 92885},
+																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2922, col: 11, offset: 92430},
+																						pos: position{line: 2936, col: 11, offset: 92885},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2922, col: 11, offset: 92430},
+																							pos:        position{line: 2936, col: 11, offset: 92885},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38845,31 +38890,31 @@ var g = &grammar{
 																		pos: position{line: 1548, col: 7, offset: 50040},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1700, col: 5, offset: 54998},
-																				run: (*parser).callonListContinuationElement1720,
+																				pos: position{line: 1701, col: 5, offset: 55023},
+																				run: (*parser).callonListContinuationElement1721,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 5, offset: 54998},
+																					pos: position{line: 1701, col: 5, offset: 55023},
 																					expr: &seqExpr{
-																						pos: position{line: 1700, col: 6, offset: 54999},
+																						pos: position{line: 1701, col: 6, offset: 55024},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1700, col: 6, offset: 54999},
+																								pos: position{line: 1701, col: 6, offset: 55024},
 																								expr: &actionExpr{
-																									pos: position{line: 1705, col: 5, offset: 55149},
-																									run: (*parser).callonListContinuationElement1724,
+																									pos: position{line: 1706, col: 5, offset: 55174},
+																									run: (*parser).callonListContinuationElement1725,
 																									expr: &seqExpr{
-																										pos: position{line: 1705, col: 5, offset: 55149},
+																										pos: position{line: 1706, col: 5, offset: 55174},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1705, col: 5, offset: 55149},
+																												pos:   position{line: 1706, col: 5, offset: 55174},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1705, col: 16, offset: 55160},
-																													run: (*parser).callonListContinuationElement1727,
+																													pos: position{line: 1706, col: 16, offset: 55185},
+																													run: (*parser).callonListContinuationElement1728,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1705, col: 16, offset: 55160},
+																														pos: position{line: 1706, col: 16, offset: 55185},
 																														expr: &litMatcher{
-																															pos:        position{line: 1705, col: 17, offset: 55161},
+																															pos:        position{line: 1706, col: 17, offset: 55186},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -38878,38 +38923,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1708, col: 5, offset: 55218},
-																												run: (*parser).callonListContinuationElement1730,
+																												pos: position{line: 1709, col: 5, offset: 55243},
+																												run: (*parser).callonListContinuationElement1731,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1700, col: 35, offset: 55028},
+																								pos: position{line: 1701, col: 35, offset: 55053},
 																								expr: &choiceExpr{
-																									pos: position{line: 2940, col: 8, offset: 92767},
+																									pos: position{line: 2954, col: 8, offset: 93222},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2927, col: 12, offset: 92540},
-																											run: (*parser).callonListContinuationElement1733,
+																											pos: position{line: 2941, col: 12, offset: 92995},
+																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2927, col: 13, offset: 92541},
+																												pos: position{line: 2941, col: 13, offset: 92996},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 13, offset: 92541},
+																														pos:        position{line: 2941, col: 13, offset: 92996},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 20, offset: 92548},
+																														pos:        position{line: 2941, col: 20, offset: 93003},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2927, col: 29, offset: 92557},
+																														pos:        position{line: 2941, col: 29, offset: 93012},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38918,37 +38963,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2937, col: 8, offset: 92717},
+																											pos: position{line: 2951, col: 8, offset: 93172},
 																											expr: &anyMatcher{
-																												line: 2937, col: 9, offset: 92718,
+																												line: 2951, col: 9, offset: 93173,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1700, col: 40, offset: 55033,
+																								line: 1701, col: 40, offset: 55058,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55149},
-																				run: (*parser).callonListContinuationElement1741,
+																				pos: position{line: 1706, col: 5, offset: 55174},
+																				run: (*parser).callonListContinuationElement1742,
 																				expr: &seqExpr{
-																					pos: position{line: 1705, col: 5, offset: 55149},
+																					pos: position{line: 1706, col: 5, offset: 55174},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1705, col: 5, offset: 55149},
+																							pos:   position{line: 1706, col: 5, offset: 55174},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1705, col: 16, offset: 55160},
-																								run: (*parser).callonListContinuationElement1744,
+																								pos: position{line: 1706, col: 16, offset: 55185},
+																								run: (*parser).callonListContinuationElement1745,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1705, col: 16, offset: 55160},
+																									pos: position{line: 1706, col: 16, offset: 55185},
 																									expr: &litMatcher{
-																										pos:        position{line: 1705, col: 17, offset: 55161},
+																										pos:        position{line: 1706, col: 17, offset: 55186},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38957,8 +39002,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1708, col: 5, offset: 55218},
-																							run: (*parser).callonListContinuationElement1747,
+																							pos: position{line: 1709, col: 5, offset: 55243},
+																							run: (*parser).callonListContinuationElement1748,
 																						},
 																					},
 																				},
@@ -38967,10 +39012,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50092},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2918, col: 10, offset: 92369},
-																						run: (*parser).callonListContinuationElement1749,
+																						pos: position{line: 2932, col: 10, offset: 92824},
+																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2918, col: 10, offset: 92369},
+																							pos:        position{line: 2932, col: 10, offset: 92824},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38978,25 +39023,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2927, col: 12, offset: 92540},
-																						run: (*parser).callonListContinuationElement1751,
+																						pos: position{line: 2941, col: 12, offset: 92995},
+																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 13, offset: 92541},
+																							pos: position{line: 2941, col: 13, offset: 92996},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 13, offset: 92541},
+																									pos:        position{line: 2941, col: 13, offset: 92996},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 20, offset: 92548},
+																									pos:        position{line: 2941, col: 20, offset: 93003},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2927, col: 29, offset: 92557},
+																									pos:        position{line: 2941, col: 29, offset: 93012},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39005,9 +39050,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2937, col: 8, offset: 92717},
+																						pos: position{line: 2951, col: 8, offset: 93172},
 																						expr: &anyMatcher{
-																							line: 2937, col: 9, offset: 92718,
+																							line: 2951, col: 9, offset: 93173,
 																						},
 																					},
 																				},
@@ -39022,14 +39067,14 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
-																				run: (*parser).callonListContinuationElement1760,
+																				run: (*parser).callonListContinuationElement1761,
 																				expr: &seqExpr{
 																					pos: position{line: 744, col: 5, offset: 23707},
 																					exprs: []interface{}{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2781, col: 13, offset: 88611},
+																								pos:        position{line: 2786, col: 13, offset: 88772},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39044,7 +39089,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 760, col: 5, offset: 24249},
-																										run: (*parser).callonListContinuationElement1766,
+																										run: (*parser).callonListContinuationElement1767,
 																										expr: &seqExpr{
 																											pos: position{line: 760, col: 5, offset: 24249},
 																											exprs: []interface{}{
@@ -39053,7 +39098,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 760, col: 16, offset: 24260},
-																														run: (*parser).callonListContinuationElement1769,
+																														run: (*parser).callonListContinuationElement1770,
 																														expr: &seqExpr{
 																															pos: position{line: 760, col: 16, offset: 24260},
 																															exprs: []interface{}{
@@ -39079,10 +39124,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1775,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39091,28 +39136,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1778,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39121,9 +39166,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39133,7 +39178,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 767, col: 5, offset: 24497},
-																										run: (*parser).callonListContinuationElement1785,
+																										run: (*parser).callonListContinuationElement1786,
 																										expr: &seqExpr{
 																											pos: position{line: 767, col: 5, offset: 24497},
 																											exprs: []interface{}{
@@ -39142,7 +39187,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 767, col: 16, offset: 24508},
-																														run: (*parser).callonListContinuationElement1788,
+																														run: (*parser).callonListContinuationElement1789,
 																														expr: &seqExpr{
 																															pos: position{line: 767, col: 16, offset: 24508},
 																															exprs: []interface{}{
@@ -39168,10 +39213,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1794,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39180,28 +39225,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1797,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39210,9 +39255,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39222,7 +39267,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 780, col: 26, offset: 24985},
-																										run: (*parser).callonListContinuationElement1804,
+																										run: (*parser).callonListContinuationElement1805,
 																										expr: &seqExpr{
 																											pos: position{line: 780, col: 26, offset: 24985},
 																											exprs: []interface{}{
@@ -39237,7 +39282,7 @@ var g = &grammar{
 																													label: "language",
 																													expr: &actionExpr{
 																														pos: position{line: 784, col: 13, offset: 25121},
-																														run: (*parser).callonListContinuationElement1808,
+																														run: (*parser).callonListContinuationElement1809,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 784, col: 14, offset: 25122},
 																															expr: &charClassMatcher{
@@ -39253,10 +39298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1812,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39265,28 +39310,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1815,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39295,9 +39340,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39307,7 +39352,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 774, col: 5, offset: 24744},
-																										run: (*parser).callonListContinuationElement1822,
+																										run: (*parser).callonListContinuationElement1823,
 																										expr: &seqExpr{
 																											pos: position{line: 774, col: 5, offset: 24744},
 																											exprs: []interface{}{
@@ -39316,7 +39361,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 774, col: 16, offset: 24755},
-																														run: (*parser).callonListContinuationElement1825,
+																														run: (*parser).callonListContinuationElement1826,
 																														expr: &seqExpr{
 																															pos: position{line: 774, col: 16, offset: 24755},
 																															exprs: []interface{}{
@@ -39342,10 +39387,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1831,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39354,28 +39399,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1834,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39384,9 +39429,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39396,7 +39441,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 789, col: 5, offset: 25281},
-																										run: (*parser).callonListContinuationElement1841,
+																										run: (*parser).callonListContinuationElement1842,
 																										expr: &seqExpr{
 																											pos: position{line: 789, col: 5, offset: 25281},
 																											exprs: []interface{}{
@@ -39405,7 +39450,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 789, col: 16, offset: 25292},
-																														run: (*parser).callonListContinuationElement1844,
+																														run: (*parser).callonListContinuationElement1845,
 																														expr: &seqExpr{
 																															pos: position{line: 789, col: 16, offset: 25292},
 																															exprs: []interface{}{
@@ -39431,10 +39476,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1850,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39443,28 +39488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1853,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39473,9 +39518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39485,7 +39530,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 803, col: 5, offset: 25757},
-																										run: (*parser).callonListContinuationElement1860,
+																										run: (*parser).callonListContinuationElement1861,
 																										expr: &seqExpr{
 																											pos: position{line: 803, col: 5, offset: 25757},
 																											exprs: []interface{}{
@@ -39494,7 +39539,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 803, col: 16, offset: 25768},
-																														run: (*parser).callonListContinuationElement1863,
+																														run: (*parser).callonListContinuationElement1864,
 																														expr: &seqExpr{
 																															pos: position{line: 803, col: 16, offset: 25768},
 																															exprs: []interface{}{
@@ -39520,10 +39565,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1869,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39532,28 +39577,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1872,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39562,9 +39607,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39574,7 +39619,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 810, col: 5, offset: 26009},
-																										run: (*parser).callonListContinuationElement1879,
+																										run: (*parser).callonListContinuationElement1880,
 																										expr: &seqExpr{
 																											pos: position{line: 810, col: 5, offset: 26009},
 																											exprs: []interface{}{
@@ -39583,7 +39628,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 810, col: 16, offset: 26020},
-																														run: (*parser).callonListContinuationElement1882,
+																														run: (*parser).callonListContinuationElement1883,
 																														expr: &seqExpr{
 																															pos: position{line: 810, col: 16, offset: 26020},
 																															exprs: []interface{}{
@@ -39609,10 +39654,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1888,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39621,28 +39666,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1891,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39651,9 +39696,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39663,7 +39708,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 817, col: 5, offset: 26259},
-																										run: (*parser).callonListContinuationElement1898,
+																										run: (*parser).callonListContinuationElement1899,
 																										expr: &seqExpr{
 																											pos: position{line: 817, col: 5, offset: 26259},
 																											exprs: []interface{}{
@@ -39672,7 +39717,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 817, col: 16, offset: 26270},
-																														run: (*parser).callonListContinuationElement1901,
+																														run: (*parser).callonListContinuationElement1902,
 																														expr: &seqExpr{
 																															pos: position{line: 817, col: 16, offset: 26270},
 																															exprs: []interface{}{
@@ -39698,10 +39743,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1907,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39710,28 +39755,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1910,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39740,9 +39785,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39752,7 +39797,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 824, col: 5, offset: 26505},
-																										run: (*parser).callonListContinuationElement1917,
+																										run: (*parser).callonListContinuationElement1918,
 																										expr: &seqExpr{
 																											pos: position{line: 824, col: 5, offset: 26505},
 																											exprs: []interface{}{
@@ -39761,7 +39806,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 824, col: 16, offset: 26516},
-																														run: (*parser).callonListContinuationElement1920,
+																														run: (*parser).callonListContinuationElement1921,
 																														expr: &seqExpr{
 																															pos: position{line: 824, col: 16, offset: 26516},
 																															exprs: []interface{}{
@@ -39787,10 +39832,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2918, col: 10, offset: 92369},
-																														run: (*parser).callonListContinuationElement1926,
+																														pos: position{line: 2932, col: 10, offset: 92824},
+																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2918, col: 10, offset: 92369},
+																															pos:        position{line: 2932, col: 10, offset: 92824},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39799,28 +39844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2940, col: 8, offset: 92767},
+																													pos: position{line: 2954, col: 8, offset: 93222},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2927, col: 12, offset: 92540},
-																															run: (*parser).callonListContinuationElement1929,
+																															pos: position{line: 2941, col: 12, offset: 92995},
+																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2927, col: 13, offset: 92541},
+																																pos: position{line: 2941, col: 13, offset: 92996},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 13, offset: 92541},
+																																		pos:        position{line: 2941, col: 13, offset: 92996},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 20, offset: 92548},
+																																		pos:        position{line: 2941, col: 20, offset: 93003},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2927, col: 29, offset: 92557},
+																																		pos:        position{line: 2941, col: 29, offset: 93012},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39829,9 +39874,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2937, col: 8, offset: 92717},
+																															pos: position{line: 2951, col: 8, offset: 93172},
 																															expr: &anyMatcher{
-																																line: 2937, col: 9, offset: 92718,
+																																line: 2951, col: 9, offset: 93173,
 																															},
 																														},
 																													},
@@ -39847,7 +39892,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 796, col: 5, offset: 25526},
-																				run: (*parser).callonListContinuationElement1936,
+																				run: (*parser).callonListContinuationElement1937,
 																				expr: &seqExpr{
 																					pos: position{line: 796, col: 5, offset: 25526},
 																					exprs: []interface{}{
@@ -39856,7 +39901,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 796, col: 16, offset: 25537},
-																								run: (*parser).callonListContinuationElement1939,
+																								run: (*parser).callonListContinuationElement1940,
 																								expr: &litMatcher{
 																									pos:        position{line: 796, col: 16, offset: 25537},
 																									val:        "--",
@@ -39868,10 +39913,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2918, col: 10, offset: 92369},
-																								run: (*parser).callonListContinuationElement1942,
+																								pos: position{line: 2932, col: 10, offset: 92824},
+																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2918, col: 10, offset: 92369},
+																									pos:        position{line: 2932, col: 10, offset: 92824},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39880,28 +39925,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2940, col: 8, offset: 92767},
+																							pos: position{line: 2954, col: 8, offset: 93222},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2927, col: 12, offset: 92540},
-																									run: (*parser).callonListContinuationElement1945,
+																									pos: position{line: 2941, col: 12, offset: 92995},
+																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2927, col: 13, offset: 92541},
+																										pos: position{line: 2941, col: 13, offset: 92996},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 13, offset: 92541},
+																												pos:        position{line: 2941, col: 13, offset: 92996},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 20, offset: 92548},
+																												pos:        position{line: 2941, col: 20, offset: 93003},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2927, col: 29, offset: 92557},
+																												pos:        position{line: 2941, col: 29, offset: 93012},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39910,9 +39955,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2937, col: 8, offset: 92717},
+																									pos: position{line: 2951, col: 8, offset: 93172},
 																									expr: &anyMatcher{
-																										line: 2937, col: 9, offset: 92718,
+																										line: 2951, col: 9, offset: 93173,
 																									},
 																								},
 																							},
@@ -39921,21 +39966,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2633, col: 19, offset: 84199},
+																				pos: position{line: 2634, col: 19, offset: 84224},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2633, col: 19, offset: 84199},
+																						pos:        position{line: 2634, col: 19, offset: 84224},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2633, col: 26, offset: 84206},
+																						pos: position{line: 2634, col: 26, offset: 84231},
 																						expr: &actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
-																							run: (*parser).callonListContinuationElement1955,
+																							pos: position{line: 2932, col: 10, offset: 92824},
+																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39944,28 +39989,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2940, col: 8, offset: 92767},
+																						pos: position{line: 2954, col: 8, offset: 93222},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2927, col: 12, offset: 92540},
-																								run: (*parser).callonListContinuationElement1958,
+																								pos: position{line: 2941, col: 12, offset: 92995},
+																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2927, col: 13, offset: 92541},
+																									pos: position{line: 2941, col: 13, offset: 92996},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 13, offset: 92541},
+																											pos:        position{line: 2941, col: 13, offset: 92996},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 20, offset: 92548},
+																											pos:        position{line: 2941, col: 20, offset: 93003},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2927, col: 29, offset: 92557},
+																											pos:        position{line: 2941, col: 29, offset: 93012},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39974,9 +40019,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2937, col: 8, offset: 92717},
+																								pos: position{line: 2951, col: 8, offset: 93172},
 																								expr: &anyMatcher{
-																									line: 2937, col: 9, offset: 92718,
+																									line: 2951, col: 9, offset: 93173,
 																								},
 																							},
 																						},
@@ -39990,12 +40035,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50170},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2841, col: 14, offset: 90123},
-																		run: (*parser).callonListContinuationElement1966,
+																		pos: position{line: 2855, col: 14, offset: 90578},
+																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2841, col: 14, offset: 90123},
+																			pos: position{line: 2855, col: 14, offset: 90578},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2841, col: 14, offset: 90123},
+																				pos:        position{line: 2855, col: 14, offset: 90578},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40005,28 +40050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
-																			run: (*parser).callonListContinuationElement1970,
+																			pos: position{line: 2941, col: 12, offset: 92995},
+																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40035,9 +40080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -40058,33 +40103,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1738, col: 1, offset: 56010},
+			pos:  position{line: 1739, col: 1, offset: 56035},
 			expr: &actionExpr{
-				pos: position{line: 1740, col: 5, offset: 56088},
+				pos: position{line: 1741, col: 5, offset: 56113},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1740, col: 5, offset: 56088},
+					pos: position{line: 1741, col: 5, offset: 56113},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1740, col: 5, offset: 56088},
+							pos: position{line: 1741, col: 5, offset: 56113},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1743, col: 5, offset: 56155},
+							pos:        position{line: 1744, col: 5, offset: 56180},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1743, col: 9, offset: 56159},
+							pos:   position{line: 1744, col: 9, offset: 56184},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1743, col: 14, offset: 56164},
+								pos: position{line: 1744, col: 14, offset: 56189},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1743, col: 14, offset: 56164},
+									pos: position{line: 1744, col: 14, offset: 56189},
 									expr: &charClassMatcher{
-										pos:        position{line: 1743, col: 14, offset: 56164},
+										pos:        position{line: 1744, col: 14, offset: 56189},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40094,18 +40139,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1743, col: 62, offset: 56212},
+							pos:        position{line: 1744, col: 62, offset: 56237},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1743, col: 66, offset: 56216},
+							pos: position{line: 1744, col: 66, offset: 56241},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40114,30 +40159,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1743, col: 73, offset: 56223},
+							pos: position{line: 1744, col: 73, offset: 56248},
 							expr: &choiceExpr{
-								pos: position{line: 1743, col: 75, offset: 56225},
+								pos: position{line: 1744, col: 75, offset: 56250},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92540},
+										pos: position{line: 2941, col: 12, offset: 92995},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92541},
+											pos: position{line: 2941, col: 13, offset: 92996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92541},
+													pos:        position{line: 2941, col: 13, offset: 92996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92548},
+													pos:        position{line: 2941, col: 20, offset: 93003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92557},
+													pos:        position{line: 2941, col: 29, offset: 93012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40146,13 +40191,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2937, col: 8, offset: 92717},
+										pos: position{line: 2951, col: 8, offset: 93172},
 										expr: &anyMatcher{
-											line: 2937, col: 9, offset: 92718,
+											line: 2951, col: 9, offset: 93173,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1743, col: 81, offset: 56231},
+										pos:  position{line: 1744, col: 81, offset: 56256},
 										name: "Callout",
 									},
 								},
@@ -40164,44 +40209,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1782, col: 1, offset: 57418},
+			pos:  position{line: 1783, col: 1, offset: 57443},
 			expr: &actionExpr{
-				pos: position{line: 1784, col: 5, offset: 57492},
+				pos: position{line: 1785, col: 5, offset: 57517},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1784, col: 5, offset: 57492},
+					pos: position{line: 1785, col: 5, offset: 57517},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1784, col: 5, offset: 57492},
+							pos: position{line: 1785, col: 5, offset: 57517},
 							expr: &seqExpr{
-								pos: position{line: 1784, col: 7, offset: 57494},
+								pos: position{line: 1785, col: 7, offset: 57519},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2781, col: 13, offset: 88611},
+										pos:        position{line: 2786, col: 13, offset: 88772},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1784, col: 16, offset: 57503},
+										pos: position{line: 1785, col: 16, offset: 57528},
 										expr: &seqExpr{
-											pos: position{line: 1784, col: 18, offset: 57505},
+											pos: position{line: 1785, col: 18, offset: 57530},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1784, col: 19, offset: 57506},
+													pos:        position{line: 1785, col: 19, offset: 57531},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2922, col: 11, offset: 92430},
+													pos: position{line: 2936, col: 11, offset: 92885},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2922, col: 11, offset: 92430},
+														pos: position{line: 2936, col: 11, offset: 92885},
 														expr: &charClassMatcher{
-															pos:        position{line: 2922, col: 11, offset: 92430},
+															pos:        position{line: 2936, col: 11, offset: 92885},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40216,88 +40261,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1785, col: 5, offset: 57646},
+							pos:   position{line: 1786, col: 5, offset: 57671},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1785, col: 11, offset: 57652},
+								pos: position{line: 1786, col: 11, offset: 57677},
 								expr: &actionExpr{
-									pos: position{line: 1763, col: 5, offset: 56901},
+									pos: position{line: 1764, col: 5, offset: 56926},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1763, col: 5, offset: 56901},
+										pos: position{line: 1764, col: 5, offset: 56926},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1763, col: 5, offset: 56901},
+												pos: position{line: 1764, col: 5, offset: 56926},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1766, col: 5, offset: 56964},
+												pos:   position{line: 1767, col: 5, offset: 56989},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1766, col: 12, offset: 56971},
+													pos: position{line: 1767, col: 12, offset: 56996},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1766, col: 12, offset: 56971},
+															pos: position{line: 1767, col: 12, offset: 56996},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 12, offset: 56971},
+																pos:        position{line: 1767, col: 12, offset: 56996},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57027},
+															pos: position{line: 1769, col: 13, offset: 57052},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57027},
+																pos:        position{line: 1769, col: 13, offset: 57052},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57085},
+															pos: position{line: 1771, col: 13, offset: 57110},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1770, col: 13, offset: 57085},
+																pos:        position{line: 1771, col: 13, offset: 57110},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1772, col: 13, offset: 57153},
+															pos: position{line: 1773, col: 13, offset: 57178},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1772, col: 13, offset: 57153},
+																pos:        position{line: 1773, col: 13, offset: 57178},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1774, col: 13, offset: 57217},
+															pos: position{line: 1775, col: 13, offset: 57242},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1774, col: 13, offset: 57217},
+																pos:        position{line: 1775, col: 13, offset: 57242},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1776, col: 13, offset: 57281},
+															pos: position{line: 1777, col: 13, offset: 57306},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1776, col: 13, offset: 57281},
+																pos: position{line: 1777, col: 13, offset: 57306},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40311,17 +40356,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 12, offset: 57361},
+												pos: position{line: 1779, col: 12, offset: 57386},
 												expr: &seqExpr{
-													pos: position{line: 1778, col: 14, offset: 57363},
+													pos: position{line: 1779, col: 14, offset: 57388},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1778, col: 14, offset: 57363},
+															pos: position{line: 1779, col: 14, offset: 57388},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40330,28 +40375,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2940, col: 8, offset: 92767},
+															pos: position{line: 2954, col: 8, offset: 93222},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92540},
+																	pos: position{line: 2941, col: 12, offset: 92995},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92541},
+																		pos: position{line: 2941, col: 13, offset: 92996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92541},
+																				pos:        position{line: 2941, col: 13, offset: 92996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92548},
+																				pos:        position{line: 2941, col: 20, offset: 93003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92557},
+																				pos:        position{line: 2941, col: 29, offset: 93012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40360,9 +40405,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -40376,24 +40421,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57674},
+							pos:   position{line: 1787, col: 5, offset: 57699},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1823, col: 5, offset: 58885},
+								pos: position{line: 1824, col: 5, offset: 58910},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1823, col: 5, offset: 58885},
+									pos: position{line: 1824, col: 5, offset: 58910},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1823, col: 5, offset: 58885},
+											pos:   position{line: 1824, col: 5, offset: 58910},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2841, col: 14, offset: 90123},
+												pos: position{line: 2855, col: 14, offset: 90578},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2841, col: 14, offset: 90123},
+													pos: position{line: 2855, col: 14, offset: 90578},
 													expr: &charClassMatcher{
-														pos:        position{line: 2841, col: 14, offset: 90123},
+														pos:        position{line: 2855, col: 14, offset: 90578},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40403,32 +40448,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1824, col: 5, offset: 58909},
+											pos: position{line: 1825, col: 5, offset: 58934},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2940, col: 8, offset: 92767},
+											pos: position{line: 2954, col: 8, offset: 93222},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2927, col: 12, offset: 92540},
+													pos: position{line: 2941, col: 12, offset: 92995},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 13, offset: 92541},
+														pos: position{line: 2941, col: 13, offset: 92996},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92541},
+																pos:        position{line: 2941, col: 13, offset: 92996},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 20, offset: 92548},
+																pos:        position{line: 2941, col: 20, offset: 93003},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 29, offset: 92557},
+																pos:        position{line: 2941, col: 29, offset: 93012},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40437,9 +40482,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -40449,28 +40494,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1787, col: 5, offset: 57708},
+							pos: position{line: 1788, col: 5, offset: 57733},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1794, col: 5, offset: 58038},
+							pos:   position{line: 1795, col: 5, offset: 58063},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1794, col: 16, offset: 58049},
+								pos: position{line: 1795, col: 16, offset: 58074},
 								expr: &actionExpr{
-									pos: position{line: 1795, col: 9, offset: 58059},
+									pos: position{line: 1796, col: 9, offset: 58084},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1795, col: 9, offset: 58059},
+										pos: position{line: 1796, col: 9, offset: 58084},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92703},
+												pos: position{line: 2949, col: 11, offset: 93158},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92705,
+													line: 2949, col: 13, offset: 93160,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1796, col: 9, offset: 58075},
+												pos: position{line: 1797, col: 9, offset: 58100},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph71,
@@ -40478,18 +40523,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40498,28 +40543,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40528,9 +40573,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -40540,16 +40585,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58094},
+												pos: position{line: 1798, col: 9, offset: 58119},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1797, col: 10, offset: 58095},
+													pos:  position{line: 1798, col: 10, offset: 58120},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58119},
+												pos: position{line: 1799, col: 9, offset: 58144},
 												expr: &choiceExpr{
-													pos: position{line: 1798, col: 11, offset: 58121},
+													pos: position{line: 1799, col: 11, offset: 58146},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40560,7 +40605,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2781, col: 13, offset: 88611},
+																			pos:        position{line: 2786, col: 13, offset: 88772},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40610,10 +40655,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40622,28 +40667,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40652,9 +40697,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -40699,10 +40744,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40711,28 +40756,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40741,9 +40786,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -40784,10 +40829,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40796,28 +40841,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40826,9 +40871,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -40873,10 +40918,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40885,28 +40930,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40915,9 +40960,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -40962,10 +41007,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40974,28 +41019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41004,9 +41049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -41051,10 +41096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41063,28 +41108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41093,9 +41138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -41140,10 +41185,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41152,28 +41197,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41182,9 +41227,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -41229,10 +41274,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41241,28 +41286,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41271,9 +41316,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -41318,10 +41363,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41330,28 +41375,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41360,9 +41405,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -41399,10 +41444,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41411,28 +41456,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41441,9 +41486,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -41452,21 +41497,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2633, col: 19, offset: 84199},
+															pos: position{line: 2634, col: 19, offset: 84224},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2633, col: 19, offset: 84199},
+																	pos:        position{line: 2634, col: 19, offset: 84224},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2633, col: 26, offset: 84206},
+																	pos: position{line: 2634, col: 26, offset: 84231},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41475,28 +41520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41505,9 +41550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -41518,7 +41563,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1799, col: 9, offset: 58183},
+												pos: position{line: 1800, col: 9, offset: 58208},
 												expr: &seqExpr{
 													pos: position{line: 1574, col: 27, offset: 50823},
 													exprs: []interface{}{
@@ -41531,10 +41576,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50827},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41543,25 +41588,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
+															pos: position{line: 2941, col: 12, offset: 92995},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41573,42 +41618,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1800, col: 9, offset: 58215},
+												pos:   position{line: 1801, col: 9, offset: 58240},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1800, col: 15, offset: 58221},
+													pos: position{line: 1801, col: 15, offset: 58246},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2501, col: 22, offset: 80501},
+															pos: position{line: 2502, col: 22, offset: 80526},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 22, offset: 80501},
+																pos: position{line: 2502, col: 22, offset: 80526},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2506, col: 31, offset: 80722},
+																		pos:        position{line: 2507, col: 31, offset: 80747},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2506, col: 36, offset: 80727},
+																		pos: position{line: 2507, col: 36, offset: 80752},
 																		expr: &litMatcher{
-																			pos:        position{line: 2506, col: 37, offset: 80728},
+																			pos:        position{line: 2507, col: 37, offset: 80753},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2501, col: 49, offset: 80528},
+																		pos:   position{line: 2502, col: 49, offset: 80553},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2837, col: 13, offset: 90056},
+																			pos: position{line: 2851, col: 13, offset: 90511},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2837, col: 13, offset: 90056},
+																				pos: position{line: 2851, col: 13, offset: 90511},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 13, offset: 90056},
+																					pos:        position{line: 2851, col: 13, offset: 90511},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41618,28 +41663,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41648,9 +41693,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -41659,21 +41704,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1823, col: 5, offset: 58885},
+															pos: position{line: 1824, col: 5, offset: 58910},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1823, col: 5, offset: 58885},
+																pos: position{line: 1824, col: 5, offset: 58910},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1823, col: 5, offset: 58885},
+																		pos:   position{line: 1824, col: 5, offset: 58910},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2841, col: 14, offset: 90123},
+																			pos: position{line: 2855, col: 14, offset: 90578},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2841, col: 14, offset: 90123},
+																				pos: position{line: 2855, col: 14, offset: 90578},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 14, offset: 90123},
+																					pos:        position{line: 2855, col: 14, offset: 90578},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41683,32 +41728,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1824, col: 5, offset: 58909},
+																		pos: position{line: 1825, col: 5, offset: 58934},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41717,9 +41762,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -41741,96 +41786,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1807, col: 1, offset: 58425},
+			pos:  position{line: 1808, col: 1, offset: 58450},
 			expr: &actionExpr{
-				pos: position{line: 1808, col: 5, offset: 58443},
+				pos: position{line: 1809, col: 5, offset: 58468},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1808, col: 5, offset: 58443},
+					pos: position{line: 1809, col: 5, offset: 58468},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1808, col: 5, offset: 58443},
+							pos:   position{line: 1809, col: 5, offset: 58468},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1808, col: 11, offset: 58449},
+								pos: position{line: 1809, col: 11, offset: 58474},
 								expr: &actionExpr{
-									pos: position{line: 1763, col: 5, offset: 56901},
+									pos: position{line: 1764, col: 5, offset: 56926},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1763, col: 5, offset: 56901},
+										pos: position{line: 1764, col: 5, offset: 56926},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1763, col: 5, offset: 56901},
+												pos: position{line: 1764, col: 5, offset: 56926},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1766, col: 5, offset: 56964},
+												pos:   position{line: 1767, col: 5, offset: 56989},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1766, col: 12, offset: 56971},
+													pos: position{line: 1767, col: 12, offset: 56996},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1766, col: 12, offset: 56971},
+															pos: position{line: 1767, col: 12, offset: 56996},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1766, col: 12, offset: 56971},
+																pos:        position{line: 1767, col: 12, offset: 56996},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1768, col: 13, offset: 57027},
+															pos: position{line: 1769, col: 13, offset: 57052},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1768, col: 13, offset: 57027},
+																pos:        position{line: 1769, col: 13, offset: 57052},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1770, col: 13, offset: 57085},
+															pos: position{line: 1771, col: 13, offset: 57110},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1770, col: 13, offset: 57085},
+																pos:        position{line: 1771, col: 13, offset: 57110},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1772, col: 13, offset: 57153},
+															pos: position{line: 1773, col: 13, offset: 57178},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1772, col: 13, offset: 57153},
+																pos:        position{line: 1773, col: 13, offset: 57178},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1774, col: 13, offset: 57217},
+															pos: position{line: 1775, col: 13, offset: 57242},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1774, col: 13, offset: 57217},
+																pos:        position{line: 1775, col: 13, offset: 57242},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1776, col: 13, offset: 57281},
+															pos: position{line: 1777, col: 13, offset: 57306},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1776, col: 13, offset: 57281},
+																pos: position{line: 1777, col: 13, offset: 57306},
 																expr: &actionExpr{
-																	pos: position{line: 2922, col: 11, offset: 92430},
+																	pos: position{line: 2936, col: 11, offset: 92885},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2922, col: 11, offset: 92430},
+																		pos: position{line: 2936, col: 11, offset: 92885},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2922, col: 11, offset: 92430},
+																			pos:        position{line: 2936, col: 11, offset: 92885},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41844,17 +41889,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1778, col: 12, offset: 57361},
+												pos: position{line: 1779, col: 12, offset: 57386},
 												expr: &seqExpr{
-													pos: position{line: 1778, col: 14, offset: 57363},
+													pos: position{line: 1779, col: 14, offset: 57388},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1778, col: 14, offset: 57363},
+															pos: position{line: 1779, col: 14, offset: 57388},
 															expr: &actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41863,28 +41908,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2940, col: 8, offset: 92767},
+															pos: position{line: 2954, col: 8, offset: 93222},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92540},
+																	pos: position{line: 2941, col: 12, offset: 92995},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92541},
+																		pos: position{line: 2941, col: 13, offset: 92996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92541},
+																				pos:        position{line: 2941, col: 13, offset: 92996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92548},
+																				pos:        position{line: 2941, col: 20, offset: 93003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92557},
+																				pos:        position{line: 2941, col: 29, offset: 93012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41893,9 +41938,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -41909,24 +41954,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58472},
+							pos:   position{line: 1810, col: 5, offset: 58497},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1823, col: 5, offset: 58885},
+								pos: position{line: 1824, col: 5, offset: 58910},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1823, col: 5, offset: 58885},
+									pos: position{line: 1824, col: 5, offset: 58910},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1823, col: 5, offset: 58885},
+											pos:   position{line: 1824, col: 5, offset: 58910},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2841, col: 14, offset: 90123},
+												pos: position{line: 2855, col: 14, offset: 90578},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2841, col: 14, offset: 90123},
+													pos: position{line: 2855, col: 14, offset: 90578},
 													expr: &charClassMatcher{
-														pos:        position{line: 2841, col: 14, offset: 90123},
+														pos:        position{line: 2855, col: 14, offset: 90578},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41936,32 +41981,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1824, col: 5, offset: 58909},
+											pos: position{line: 1825, col: 5, offset: 58934},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2940, col: 8, offset: 92767},
+											pos: position{line: 2954, col: 8, offset: 93222},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2927, col: 12, offset: 92540},
+													pos: position{line: 2941, col: 12, offset: 92995},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 13, offset: 92541},
+														pos: position{line: 2941, col: 13, offset: 92996},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2927, col: 13, offset: 92541},
+																pos:        position{line: 2941, col: 13, offset: 92996},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 20, offset: 92548},
+																pos:        position{line: 2941, col: 20, offset: 93003},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2927, col: 29, offset: 92557},
+																pos:        position{line: 2941, col: 29, offset: 93012},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41970,9 +42015,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2937, col: 8, offset: 92717},
+													pos: position{line: 2951, col: 8, offset: 93172},
 													expr: &anyMatcher{
-														line: 2937, col: 9, offset: 92718,
+														line: 2951, col: 9, offset: 93173,
 													},
 												},
 											},
@@ -41982,24 +42027,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58506},
+							pos:   position{line: 1811, col: 5, offset: 58531},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1810, col: 16, offset: 58517},
+								pos: position{line: 1811, col: 16, offset: 58542},
 								expr: &actionExpr{
-									pos: position{line: 1811, col: 9, offset: 58527},
+									pos: position{line: 1812, col: 9, offset: 58552},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1811, col: 9, offset: 58527},
+										pos: position{line: 1812, col: 9, offset: 58552},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92703},
+												pos: position{line: 2949, col: 11, offset: 93158},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92705,
+													line: 2949, col: 13, offset: 93160,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1812, col: 9, offset: 58542},
+												pos: position{line: 1813, col: 9, offset: 58567},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph61,
@@ -42007,18 +42052,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2935, col: 11, offset: 92703},
+																pos: position{line: 2949, col: 11, offset: 93158},
 																expr: &anyMatcher{
-																	line: 2935, col: 13, offset: 92705,
+																	line: 2949, col: 13, offset: 93160,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42027,28 +42072,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2940, col: 8, offset: 92767},
+																pos: position{line: 2954, col: 8, offset: 93222},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2927, col: 12, offset: 92540},
+																		pos: position{line: 2941, col: 12, offset: 92995},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 13, offset: 92541},
+																			pos: position{line: 2941, col: 13, offset: 92996},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 13, offset: 92541},
+																					pos:        position{line: 2941, col: 13, offset: 92996},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 20, offset: 92548},
+																					pos:        position{line: 2941, col: 20, offset: 93003},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2927, col: 29, offset: 92557},
+																					pos:        position{line: 2941, col: 29, offset: 93012},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42057,9 +42102,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2937, col: 8, offset: 92717},
+																		pos: position{line: 2951, col: 8, offset: 93172},
 																		expr: &anyMatcher{
-																			line: 2937, col: 9, offset: 92718,
+																			line: 2951, col: 9, offset: 93173,
 																		},
 																	},
 																},
@@ -42069,16 +42114,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58561},
+												pos: position{line: 1814, col: 9, offset: 58586},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1813, col: 10, offset: 58562},
+													pos:  position{line: 1814, col: 10, offset: 58587},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58586},
+												pos: position{line: 1815, col: 9, offset: 58611},
 												expr: &choiceExpr{
-													pos: position{line: 1814, col: 11, offset: 58588},
+													pos: position{line: 1815, col: 11, offset: 58613},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42089,7 +42134,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2781, col: 13, offset: 88611},
+																			pos:        position{line: 2786, col: 13, offset: 88772},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42139,10 +42184,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42151,28 +42196,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42181,9 +42226,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42228,10 +42273,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42240,28 +42285,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42270,9 +42315,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42313,10 +42358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42325,28 +42370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42355,9 +42400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42402,10 +42447,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42414,28 +42459,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42444,9 +42489,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42491,10 +42536,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42503,28 +42548,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42533,9 +42578,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42580,10 +42625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42592,28 +42637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42622,9 +42667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42669,10 +42714,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42681,28 +42726,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42711,9 +42756,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42758,10 +42803,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42770,28 +42815,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42800,9 +42845,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42847,10 +42892,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2918, col: 10, offset: 92369},
+																									pos: position{line: 2932, col: 10, offset: 92824},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2918, col: 10, offset: 92369},
+																										pos:        position{line: 2932, col: 10, offset: 92824},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42859,28 +42904,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2940, col: 8, offset: 92767},
+																								pos: position{line: 2954, col: 8, offset: 93222},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2927, col: 12, offset: 92540},
+																										pos: position{line: 2941, col: 12, offset: 92995},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 13, offset: 92541},
+																											pos: position{line: 2941, col: 13, offset: 92996},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 13, offset: 92541},
+																													pos:        position{line: 2941, col: 13, offset: 92996},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 20, offset: 92548},
+																													pos:        position{line: 2941, col: 20, offset: 93003},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2927, col: 29, offset: 92557},
+																													pos:        position{line: 2941, col: 29, offset: 93012},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42889,9 +42934,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2937, col: 8, offset: 92717},
+																										pos: position{line: 2951, col: 8, offset: 93172},
 																										expr: &anyMatcher{
-																											line: 2937, col: 9, offset: 92718,
+																											line: 2951, col: 9, offset: 93173,
 																										},
 																									},
 																								},
@@ -42928,10 +42973,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42940,28 +42985,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42970,9 +43015,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -42981,21 +43026,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2633, col: 19, offset: 84199},
+															pos: position{line: 2634, col: 19, offset: 84224},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2633, col: 19, offset: 84199},
+																	pos:        position{line: 2634, col: 19, offset: 84224},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2633, col: 26, offset: 84206},
+																	pos: position{line: 2634, col: 26, offset: 84231},
 																	expr: &actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43004,28 +43049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43034,9 +43079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -43047,42 +43092,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1815, col: 9, offset: 58650},
+												pos:   position{line: 1816, col: 9, offset: 58675},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 15, offset: 58656},
+													pos: position{line: 1816, col: 15, offset: 58681},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2501, col: 22, offset: 80501},
+															pos: position{line: 2502, col: 22, offset: 80526},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 22, offset: 80501},
+																pos: position{line: 2502, col: 22, offset: 80526},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2506, col: 31, offset: 80722},
+																		pos:        position{line: 2507, col: 31, offset: 80747},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2506, col: 36, offset: 80727},
+																		pos: position{line: 2507, col: 36, offset: 80752},
 																		expr: &litMatcher{
-																			pos:        position{line: 2506, col: 37, offset: 80728},
+																			pos:        position{line: 2507, col: 37, offset: 80753},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2501, col: 49, offset: 80528},
+																		pos:   position{line: 2502, col: 49, offset: 80553},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2837, col: 13, offset: 90056},
+																			pos: position{line: 2851, col: 13, offset: 90511},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2837, col: 13, offset: 90056},
+																				pos: position{line: 2851, col: 13, offset: 90511},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 13, offset: 90056},
+																					pos:        position{line: 2851, col: 13, offset: 90511},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43092,28 +43137,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43122,9 +43167,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -43133,21 +43178,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1823, col: 5, offset: 58885},
+															pos: position{line: 1824, col: 5, offset: 58910},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1823, col: 5, offset: 58885},
+																pos: position{line: 1824, col: 5, offset: 58910},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1823, col: 5, offset: 58885},
+																		pos:   position{line: 1824, col: 5, offset: 58910},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2841, col: 14, offset: 90123},
+																			pos: position{line: 2855, col: 14, offset: 90578},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2841, col: 14, offset: 90123},
+																				pos: position{line: 2855, col: 14, offset: 90578},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 14, offset: 90123},
+																					pos:        position{line: 2855, col: 14, offset: 90578},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43157,32 +43202,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1824, col: 5, offset: 58909},
+																		pos: position{line: 1825, col: 5, offset: 58934},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2940, col: 8, offset: 92767},
+																		pos: position{line: 2954, col: 8, offset: 93222},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43191,9 +43236,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2937, col: 8, offset: 92717},
+																				pos: position{line: 2951, col: 8, offset: 93172},
 																				expr: &anyMatcher{
-																					line: 2937, col: 9, offset: 92718,
+																					line: 2951, col: 9, offset: 93173,
 																				},
 																			},
 																		},
@@ -43215,16 +43260,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59392},
+			pos:  position{line: 1835, col: 1, offset: 59417},
 			expr: &choiceExpr{
-				pos: position{line: 1834, col: 15, offset: 59406},
+				pos: position{line: 1835, col: 15, offset: 59431},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 15, offset: 59406},
+						pos:  position{line: 1835, col: 15, offset: 59431},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 35, offset: 59426},
+						pos:  position{line: 1835, col: 35, offset: 59451},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43232,65 +43277,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1836, col: 1, offset: 59447},
+			pos:  position{line: 1837, col: 1, offset: 59472},
 			expr: &actionExpr{
-				pos: position{line: 1837, col: 5, offset: 59472},
+				pos: position{line: 1838, col: 5, offset: 59497},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1837, col: 5, offset: 59472},
+					pos: position{line: 1838, col: 5, offset: 59497},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1837, col: 5, offset: 59472},
+							pos:   position{line: 1838, col: 5, offset: 59497},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1837, col: 16, offset: 59483},
+								pos: position{line: 1838, col: 16, offset: 59508},
 								expr: &actionExpr{
-									pos: position{line: 1837, col: 17, offset: 59484},
+									pos: position{line: 1838, col: 17, offset: 59509},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1837, col: 17, offset: 59484},
+										pos:  position{line: 1838, col: 17, offset: 59509},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1840, col: 5, offset: 59552},
+							pos: position{line: 1841, col: 5, offset: 59577},
 							expr: &litMatcher{
-								pos:        position{line: 1840, col: 7, offset: 59554},
+								pos:        position{line: 1841, col: 7, offset: 59579},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1841, col: 5, offset: 59563},
+							pos:   position{line: 1842, col: 5, offset: 59588},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1842, col: 9, offset: 59581},
+								pos: position{line: 1843, col: 9, offset: 59606},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 9, offset: 59581},
+										pos:  position{line: 1843, col: 9, offset: 59606},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1843, col: 11, offset: 59608},
+										pos:  position{line: 1844, col: 11, offset: 59633},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1844, col: 11, offset: 59636},
+										pos:  position{line: 1845, col: 11, offset: 59661},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1845, col: 11, offset: 59667},
+										pos:  position{line: 1846, col: 11, offset: 59692},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1846, col: 11, offset: 59695},
+										pos:  position{line: 1847, col: 11, offset: 59720},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 11, offset: 59726},
+										pos:  position{line: 1848, col: 11, offset: 59751},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43302,36 +43347,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1852, col: 1, offset: 59846},
+			pos:  position{line: 1853, col: 1, offset: 59871},
 			expr: &actionExpr{
-				pos: position{line: 1853, col: 5, offset: 59888},
+				pos: position{line: 1854, col: 5, offset: 59913},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1853, col: 5, offset: 59888},
+					pos: position{line: 1854, col: 5, offset: 59913},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1853, col: 5, offset: 59888},
+							pos:   position{line: 1854, col: 5, offset: 59913},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1853, col: 16, offset: 59899},
+								pos: position{line: 1854, col: 16, offset: 59924},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1853, col: 17, offset: 59900},
+									pos:  position{line: 1854, col: 17, offset: 59925},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1854, col: 5, offset: 59925},
+							pos:   position{line: 1855, col: 5, offset: 59950},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1854, col: 14, offset: 59934},
+								pos: position{line: 1855, col: 14, offset: 59959},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1854, col: 14, offset: 59934},
+										pos:  position{line: 1855, col: 14, offset: 59959},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1854, col: 33, offset: 59953},
+										pos:  position{line: 1855, col: 33, offset: 59978},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43343,32 +43388,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1862, col: 1, offset: 60184},
+			pos:  position{line: 1863, col: 1, offset: 60209},
 			expr: &choiceExpr{
-				pos: position{line: 1863, col: 5, offset: 60209},
+				pos: position{line: 1864, col: 5, offset: 60234},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 5, offset: 60209},
+						pos:  position{line: 1864, col: 5, offset: 60234},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60236},
+						pos:  position{line: 1865, col: 7, offset: 60261},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60264},
+						pos:  position{line: 1866, col: 7, offset: 60289},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60296},
+						pos:  position{line: 1867, col: 7, offset: 60321},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60324},
+						pos:  position{line: 1868, col: 7, offset: 60349},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60345},
+						pos:  position{line: 1869, col: 7, offset: 60370},
 						name: "SuperscriptText",
 					},
 				},
@@ -43376,24 +43421,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1870, col: 1, offset: 60363},
+			pos:  position{line: 1871, col: 1, offset: 60388},
 			expr: &choiceExpr{
-				pos: position{line: 1871, col: 5, offset: 60388},
+				pos: position{line: 1872, col: 5, offset: 60413},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 5, offset: 60388},
+						pos:  position{line: 1872, col: 5, offset: 60413},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60414},
+						pos:  position{line: 1873, col: 7, offset: 60439},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60442},
+						pos:  position{line: 1874, col: 7, offset: 60467},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60473},
+						pos:  position{line: 1875, col: 7, offset: 60498},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43401,26 +43446,67 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1888, col: 1, offset: 60827},
+			pos:  position{line: 1889, col: 1, offset: 60852},
 			expr: &choiceExpr{
-				pos: position{line: 1889, col: 5, offset: 60853},
+				pos: position{line: 1890, col: 5, offset: 60878},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2790, col: 5, offset: 88758},
+						pos: position{line: 2795, col: 5, offset: 88919},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2790, col: 5, offset: 88758},
+							pos: position{line: 2795, col: 5, offset: 88919},
 							exprs: []interface{}{
+								&notExpr{
+									pos: position{line: 2795, col: 5, offset: 88919},
+									expr: &seqExpr{
+										pos: position{line: 2796, col: 9, offset: 88930},
+										exprs: []interface{}{
+											&andCodeExpr{
+												pos: position{line: 2796, col: 9, offset: 88930},
+												run: (*parser).callonQuotedTextElement6,
+											},
+											&labeledExpr{
+												pos:   position{line: 2799, col: 9, offset: 88993},
+												label: "name",
+												expr: &actionExpr{
+													pos: position{line: 2771, col: 18, offset: 88305},
+													run: (*parser).callonQuotedTextElement8,
+													expr: &oneOrMoreExpr{
+														pos: position{line: 2771, col: 19, offset: 88306},
+														expr: &charClassMatcher{
+															pos:        position{line: 2771, col: 19, offset: 88306},
+															val:        "[_-\\pL\\pN]",
+															chars:      []rune{'_', '-'},
+															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 2799, col: 30, offset: 89014},
+												val:        ":",
+												ignoreCase: false,
+												want:       "\":\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 2800, col: 9, offset: 89101},
+												run: (*parser).callonQuotedTextElement12,
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 2790, col: 5, offset: 88758},
+									pos:   position{line: 2804, col: 5, offset: 89213},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2790, col: 11, offset: 88764},
-										run: (*parser).callonQuotedTextElement5,
+										pos: position{line: 2804, col: 11, offset: 89219},
+										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2790, col: 11, offset: 88764},
+											pos: position{line: 2804, col: 11, offset: 89219},
 											expr: &charClassMatcher{
-												pos:        position{line: 2790, col: 11, offset: 88764},
+												pos:        position{line: 2804, col: 11, offset: 89219},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43430,32 +43516,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2793, col: 5, offset: 88822},
+									pos: position{line: 2807, col: 5, offset: 89277},
 									expr: &seqExpr{
-										pos: position{line: 2794, col: 9, offset: 88833},
+										pos: position{line: 2808, col: 9, offset: 89288},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2794, col: 9, offset: 88833},
+												pos:        position{line: 2808, col: 9, offset: 89288},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2795, col: 9, offset: 88882},
-												run: (*parser).callonQuotedTextElement11,
+												pos: position{line: 2809, col: 9, offset: 89337},
+												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2799, col: 5, offset: 88962},
+									pos: position{line: 2813, col: 5, offset: 89417},
 									expr: &seqExpr{
-										pos: position{line: 2800, col: 9, offset: 88973},
+										pos: position{line: 2814, col: 9, offset: 89428},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2800, col: 9, offset: 88973},
+												pos: position{line: 2814, col: 9, offset: 89428},
 												expr: &charClassMatcher{
-													pos:        position{line: 2800, col: 9, offset: 88973},
+													pos:        position{line: 2814, col: 9, offset: 89428},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43464,13 +43550,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2800, col: 23, offset: 88987},
+												pos:        position{line: 2814, col: 23, offset: 89442},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2800, col: 27, offset: 88991},
+												pos:        position{line: 2814, col: 27, offset: 89446},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43483,12 +43569,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2922, col: 11, offset: 92430},
-						run: (*parser).callonQuotedTextElement18,
+						pos: position{line: 2936, col: 11, offset: 92885},
+						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2922, col: 11, offset: 92430},
+							pos: position{line: 2936, col: 11, offset: 92885},
 							expr: &charClassMatcher{
-								pos:        position{line: 2922, col: 11, offset: 92430},
+								pos:        position{line: 2936, col: 11, offset: 92885},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43497,25 +43583,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1891, col: 7, offset: 60916},
+						pos:  position{line: 1892, col: 7, offset: 60941},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2519, col: 5, offset: 81218},
-						run: (*parser).callonQuotedTextElement22,
+						pos: position{line: 2520, col: 5, offset: 81243},
+						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2519, col: 5, offset: 81218},
+							pos: position{line: 2520, col: 5, offset: 81243},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2519, col: 5, offset: 81218},
+									pos:        position{line: 2520, col: 5, offset: 81243},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2519, col: 10, offset: 81223},
+									pos: position{line: 2520, col: 10, offset: 81248},
 									expr: &charClassMatcher{
-										pos:        position{line: 2519, col: 11, offset: 81224},
+										pos:        position{line: 2520, col: 11, offset: 81249},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43526,29 +43612,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2525, col: 5, offset: 81416},
-						run: (*parser).callonQuotedTextElement27,
+						pos: position{line: 2526, col: 5, offset: 81441},
+						run: (*parser).callonQuotedTextElement36,
 						expr: &seqExpr{
-							pos: position{line: 2525, col: 5, offset: 81416},
+							pos: position{line: 2526, col: 5, offset: 81441},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2525, col: 5, offset: 81416},
-									run: (*parser).callonQuotedTextElement29,
+									pos: position{line: 2526, col: 5, offset: 81441},
+									run: (*parser).callonQuotedTextElement38,
 								},
 								&andCodeExpr{
-									pos: position{line: 2528, col: 5, offset: 81487},
-									run: (*parser).callonQuotedTextElement30,
+									pos: position{line: 2529, col: 5, offset: 81512},
+									run: (*parser).callonQuotedTextElement39,
 								},
 								&litMatcher{
-									pos:        position{line: 2532, col: 5, offset: 81612},
+									pos:        position{line: 2533, col: 5, offset: 81637},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2532, col: 9, offset: 81616},
+									pos: position{line: 2533, col: 9, offset: 81641},
 									expr: &charClassMatcher{
-										pos:        position{line: 2532, col: 10, offset: 81617},
+										pos:        position{line: 2533, col: 10, offset: 81642},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43559,27 +43645,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2808, col: 5, offset: 89184},
-						run: (*parser).callonQuotedTextElement34,
+						pos: position{line: 2822, col: 5, offset: 89639},
+						run: (*parser).callonQuotedTextElement43,
 						expr: &choiceExpr{
-							pos: position{line: 2809, col: 9, offset: 89194},
+							pos: position{line: 2823, col: 9, offset: 89649},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2809, col: 10, offset: 89195},
+									pos:        position{line: 2823, col: 10, offset: 89650},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2811, col: 13, offset: 89292},
+									pos: position{line: 2825, col: 13, offset: 89747},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2811, col: 13, offset: 89292},
-											run: (*parser).callonQuotedTextElement38,
+											pos: position{line: 2825, col: 13, offset: 89747},
+											run: (*parser).callonQuotedTextElement47,
 										},
 										&litMatcher{
-											pos:        position{line: 2814, col: 13, offset: 89392},
+											pos:        position{line: 2828, col: 13, offset: 89847},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43587,20 +43673,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2814, col: 19, offset: 89398},
+									pos:        position{line: 2828, col: 19, offset: 89853},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2817, col: 13, offset: 89436},
+									pos: position{line: 2831, col: 13, offset: 89891},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2817, col: 13, offset: 89436},
-											run: (*parser).callonQuotedTextElement42,
+											pos: position{line: 2831, col: 13, offset: 89891},
+											run: (*parser).callonQuotedTextElement51,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2820, col: 14, offset: 89529},
+											pos:        position{line: 2834, col: 14, offset: 89984},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43609,18 +43695,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2822, col: 12, offset: 89573},
+									pos: position{line: 2836, col: 12, offset: 90028},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2822, col: 12, offset: 89573},
+											pos:        position{line: 2836, col: 12, offset: 90028},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2822, col: 16, offset: 89577},
+											pos: position{line: 2836, col: 16, offset: 90032},
 											expr: &litMatcher{
-												pos:        position{line: 2822, col: 17, offset: 89578},
+												pos:        position{line: 2836, col: 17, offset: 90033},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -43633,13 +43719,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 656, col: 5, offset: 20755},
-						run: (*parser).callonQuotedTextElement48,
+						run: (*parser).callonQuotedTextElement57,
 						expr: &seqExpr{
 							pos: position{line: 656, col: 5, offset: 20755},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 656, col: 5, offset: 20755},
-									run: (*parser).callonQuotedTextElement50,
+									run: (*parser).callonQuotedTextElement59,
 								},
 								&labeledExpr{
 									pos:   position{line: 659, col: 5, offset: 20827},
@@ -43649,7 +43735,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 665, col: 5, offset: 20965},
-												run: (*parser).callonQuotedTextElement53,
+												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
 													pos: position{line: 665, col: 5, offset: 20965},
 													exprs: []interface{}{
@@ -43664,7 +43750,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement57,
+																run: (*parser).callonQuotedTextElement66,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43702,7 +43788,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 672, col: 5, offset: 21233},
-												run: (*parser).callonQuotedTextElement63,
+												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
 													pos: position{line: 672, col: 5, offset: 21233},
 													exprs: []interface{}{
@@ -43717,7 +43803,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement67,
+																run: (*parser).callonQuotedTextElement76,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43755,7 +43841,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 678, col: 25, offset: 21437},
-												run: (*parser).callonQuotedTextElement73,
+												run: (*parser).callonQuotedTextElement82,
 												expr: &seqExpr{
 													pos: position{line: 678, col: 25, offset: 21437},
 													exprs: []interface{}{
@@ -43770,7 +43856,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement77,
+																run: (*parser).callonQuotedTextElement86,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43804,7 +43890,7 @@ var g = &grammar{
 																pos: position{line: 678, col: 62, offset: 21474},
 																expr: &actionExpr{
 																	pos: position{line: 686, col: 17, offset: 21769},
-																	run: (*parser).callonQuotedTextElement84,
+																	run: (*parser).callonQuotedTextElement93,
 																	expr: &seqExpr{
 																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
@@ -43822,7 +43908,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 686, col: 28, offset: 21780},
-																							run: (*parser).callonQuotedTextElement89,
+																							run: (*parser).callonQuotedTextElement98,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
@@ -43833,7 +43919,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 688, col: 9, offset: 21834},
-																							run: (*parser).callonQuotedTextElement91,
+																							run: (*parser).callonQuotedTextElement100,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
@@ -43864,7 +43950,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 682, col: 25, offset: 21608},
-												run: (*parser).callonQuotedTextElement95,
+												run: (*parser).callonQuotedTextElement104,
 												expr: &seqExpr{
 													pos: position{line: 682, col: 25, offset: 21608},
 													exprs: []interface{}{
@@ -43879,7 +43965,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement99,
+																run: (*parser).callonQuotedTextElement108,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43913,7 +43999,7 @@ var g = &grammar{
 																pos: position{line: 682, col: 63, offset: 21646},
 																expr: &actionExpr{
 																	pos: position{line: 686, col: 17, offset: 21769},
-																	run: (*parser).callonQuotedTextElement106,
+																	run: (*parser).callonQuotedTextElement115,
 																	expr: &seqExpr{
 																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
@@ -43931,7 +44017,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 686, col: 28, offset: 21780},
-																							run: (*parser).callonQuotedTextElement111,
+																							run: (*parser).callonQuotedTextElement120,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
@@ -43942,7 +44028,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 688, col: 9, offset: 21834},
-																							run: (*parser).callonQuotedTextElement113,
+																							run: (*parser).callonQuotedTextElement122,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
@@ -43978,31 +44064,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2931, col: 18, offset: 92640},
-						run: (*parser).callonQuotedTextElement117,
+						pos: position{line: 2945, col: 18, offset: 93095},
+						run: (*parser).callonQuotedTextElement126,
 						expr: &seqExpr{
-							pos: position{line: 2931, col: 18, offset: 92640},
+							pos: position{line: 2945, col: 18, offset: 93095},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
-									run: (*parser).callonQuotedTextElement119,
+									pos: position{line: 2941, col: 12, offset: 92995},
+									run: (*parser).callonQuotedTextElement128,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44011,27 +44097,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2931, col: 26, offset: 92648},
+									pos: position{line: 2945, col: 26, offset: 93103},
 									expr: &actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92540},
-										run: (*parser).callonQuotedTextElement125,
+										pos: position{line: 2941, col: 12, offset: 92995},
+										run: (*parser).callonQuotedTextElement134,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92541},
+											pos: position{line: 2941, col: 13, offset: 92996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92541},
+													pos:        position{line: 2941, col: 13, offset: 92996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92548},
+													pos:        position{line: 2941, col: 20, offset: 93003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92557},
+													pos:        position{line: 2941, col: 29, offset: 93012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44044,31 +44130,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1896, col: 7, offset: 61083},
+						pos:  position{line: 1897, col: 7, offset: 61108},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1897, col: 7, offset: 61130},
+						pos:  position{line: 1898, col: 7, offset: 61155},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2488, col: 5, offset: 80047},
-						run: (*parser).callonQuotedTextElement132,
+						pos: position{line: 2489, col: 5, offset: 80072},
+						run: (*parser).callonQuotedTextElement141,
 						expr: &seqExpr{
-							pos: position{line: 2488, col: 5, offset: 80047},
+							pos: position{line: 2489, col: 5, offset: 80072},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2488, col: 5, offset: 80047},
-									run: (*parser).callonQuotedTextElement134,
+									pos: position{line: 2489, col: 5, offset: 80072},
+									run: (*parser).callonQuotedTextElement143,
 								},
 								&labeledExpr{
-									pos:   position{line: 2491, col: 5, offset: 80123},
+									pos:   position{line: 2492, col: 5, offset: 80148},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2492, col: 9, offset: 80141},
-										run: (*parser).callonQuotedTextElement136,
+										pos: position{line: 2493, col: 9, offset: 80166},
+										run: (*parser).callonQuotedTextElement145,
 										expr: &charClassMatcher{
-											pos:        position{line: 2492, col: 10, offset: 80142},
+											pos:        position{line: 2493, col: 10, offset: 80167},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44081,7 +44167,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1226, col: 23, offset: 37843},
-						run: (*parser).callonQuotedTextElement138,
+						run: (*parser).callonQuotedTextElement147,
 						expr: &seqExpr{
 							pos: position{line: 1226, col: 23, offset: 37843},
 							exprs: []interface{}{
@@ -44096,7 +44182,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1226, col: 56, offset: 37876},
-										run: (*parser).callonQuotedTextElement142,
+										run: (*parser).callonQuotedTextElement151,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1226, col: 56, offset: 37876},
 											expr: &charClassMatcher{
@@ -44119,10 +44205,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2830, col: 12, offset: 89838},
-						run: (*parser).callonQuotedTextElement146,
+						pos: position{line: 2844, col: 12, offset: 90293},
+						run: (*parser).callonQuotedTextElement155,
 						expr: &charClassMatcher{
-							pos:        position{line: 2830, col: 12, offset: 89838},
+							pos:        position{line: 2844, col: 12, offset: 90293},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44134,29 +44220,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1915, col: 1, offset: 61600},
+			pos:  position{line: 1916, col: 1, offset: 61625},
 			expr: &actionExpr{
-				pos: position{line: 1916, col: 5, offset: 61628},
+				pos: position{line: 1917, col: 5, offset: 61653},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1916, col: 5, offset: 61628},
+					pos: position{line: 1917, col: 5, offset: 61653},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1911, col: 38, offset: 61553},
+							pos:        position{line: 1912, col: 38, offset: 61578},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1917, col: 5, offset: 61667},
+							pos:   position{line: 1918, col: 5, offset: 61692},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1917, col: 15, offset: 61677},
+								pos:  position{line: 1918, col: 15, offset: 61702},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1913, col: 36, offset: 61594},
+							pos:        position{line: 1914, col: 36, offset: 61619},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44167,44 +44253,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1922, col: 1, offset: 61837},
+			pos:  position{line: 1923, col: 1, offset: 61862},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1922, col: 32, offset: 61868},
+				pos: position{line: 1923, col: 32, offset: 61893},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1922, col: 32, offset: 61868},
+					pos:  position{line: 1923, col: 32, offset: 61893},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1924, col: 1, offset: 61899},
+			pos:  position{line: 1925, col: 1, offset: 61924},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 61934},
+				pos: position{line: 1926, col: 5, offset: 61959},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 61934},
+					pos: position{line: 1926, col: 5, offset: 61959},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1926, col: 5, offset: 61945},
+							pos: position{line: 1927, col: 5, offset: 61970},
 							expr: &litMatcher{
-								pos:        position{line: 1913, col: 36, offset: 61594},
+								pos:        position{line: 1914, col: 36, offset: 61619},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 61982},
+							pos:   position{line: 1928, col: 5, offset: 62007},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 14, offset: 61991},
+								pos:  position{line: 1928, col: 14, offset: 62016},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44214,29 +44300,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1952, col: 1, offset: 62671},
+			pos:  position{line: 1953, col: 1, offset: 62696},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62699},
+				pos: position{line: 1954, col: 5, offset: 62724},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62699},
+					pos: position{line: 1954, col: 5, offset: 62724},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1936, col: 5, offset: 62225},
+							pos:        position{line: 1937, col: 5, offset: 62250},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62234},
+							pos: position{line: 1938, col: 5, offset: 62259},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1941, col: 5, offset: 62352},
+							pos: position{line: 1942, col: 5, offset: 62377},
 							expr: &notExpr{
-								pos: position{line: 1941, col: 7, offset: 62354},
+								pos: position{line: 1942, col: 7, offset: 62379},
 								expr: &litMatcher{
-									pos:        position{line: 1941, col: 8, offset: 62355},
+									pos:        position{line: 1942, col: 8, offset: 62380},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44244,38 +44330,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1954, col: 5, offset: 62737},
+							pos:   position{line: 1955, col: 5, offset: 62762},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1954, col: 15, offset: 62747},
+								pos:  position{line: 1955, col: 15, offset: 62772},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62475},
+							pos:        position{line: 1945, col: 5, offset: 62500},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62484},
+							pos: position{line: 1946, col: 5, offset: 62509},
 							expr: &litMatcher{
-								pos:        position{line: 1945, col: 6, offset: 62485},
+								pos:        position{line: 1946, col: 6, offset: 62510},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62548},
+							pos: position{line: 1947, col: 5, offset: 62573},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1950, col: 5, offset: 62657},
+							pos: position{line: 1951, col: 5, offset: 62682},
 							expr: &notExpr{
-								pos: position{line: 1950, col: 7, offset: 62659},
+								pos: position{line: 1951, col: 7, offset: 62684},
 								expr: &charClassMatcher{
-									pos:        position{line: 2781, col: 13, offset: 88611},
+									pos:        position{line: 2786, col: 13, offset: 88772},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44289,20 +44375,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1959, col: 1, offset: 62907},
+			pos:  position{line: 1960, col: 1, offset: 62932},
 			expr: &actionExpr{
-				pos: position{line: 1960, col: 5, offset: 62944},
+				pos: position{line: 1961, col: 5, offset: 62969},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1960, col: 5, offset: 62944},
+					pos: position{line: 1961, col: 5, offset: 62969},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1960, col: 5, offset: 62944},
+							pos: position{line: 1961, col: 5, offset: 62969},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44311,18 +44397,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1961, col: 5, offset: 62983},
+							pos:   position{line: 1962, col: 5, offset: 63008},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1961, col: 14, offset: 62992},
+								pos: position{line: 1962, col: 14, offset: 63017},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1961, col: 15, offset: 62993},
+									pos:  position{line: 1962, col: 15, offset: 63018},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1962, col: 5, offset: 63027},
+							pos: position{line: 1963, col: 5, offset: 63052},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -44331,49 +44417,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1968, col: 1, offset: 63168},
+			pos:  position{line: 1969, col: 1, offset: 63193},
 			expr: &actionExpr{
-				pos: position{line: 1969, col: 5, offset: 63203},
+				pos: position{line: 1970, col: 5, offset: 63228},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1969, col: 5, offset: 63203},
+					pos: position{line: 1970, col: 5, offset: 63228},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1970, col: 5, offset: 63231},
+							pos: position{line: 1971, col: 5, offset: 63256},
 							expr: &seqExpr{
-								pos: position{line: 1944, col: 5, offset: 62475},
+								pos: position{line: 1945, col: 5, offset: 62500},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1944, col: 5, offset: 62475},
+										pos:        position{line: 1945, col: 5, offset: 62500},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1945, col: 5, offset: 62484},
+										pos: position{line: 1946, col: 5, offset: 62509},
 										expr: &litMatcher{
-											pos:        position{line: 1945, col: 6, offset: 62485},
+											pos:        position{line: 1946, col: 6, offset: 62510},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1946, col: 5, offset: 62548},
+										pos: position{line: 1947, col: 5, offset: 62573},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1950, col: 5, offset: 62657},
+										pos: position{line: 1951, col: 5, offset: 62682},
 										expr: &notExpr{
-											pos: position{line: 1950, col: 7, offset: 62659},
+											pos: position{line: 1951, col: 7, offset: 62684},
 											expr: &charClassMatcher{
-												pos:        position{line: 2781, col: 13, offset: 88611},
+												pos:        position{line: 2786, col: 13, offset: 88772},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44385,10 +44471,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1971, col: 5, offset: 63268},
+							pos:   position{line: 1972, col: 5, offset: 63293},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1971, col: 14, offset: 63277},
+								pos:  position{line: 1972, col: 14, offset: 63302},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44398,35 +44484,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1976, col: 1, offset: 63365},
+			pos:  position{line: 1977, col: 1, offset: 63390},
 			expr: &choiceExpr{
-				pos: position{line: 1978, col: 5, offset: 63426},
+				pos: position{line: 1979, col: 5, offset: 63451},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1978, col: 5, offset: 63426},
+						pos: position{line: 1979, col: 5, offset: 63451},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1978, col: 5, offset: 63426},
+							pos: position{line: 1979, col: 5, offset: 63451},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1978, col: 5, offset: 63426},
+									pos:   position{line: 1979, col: 5, offset: 63451},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1884, col: 25, offset: 60773},
+										pos: position{line: 1885, col: 25, offset: 60798},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1884, col: 25, offset: 60773},
+											pos: position{line: 1885, col: 25, offset: 60798},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1884, col: 25, offset: 60773},
+													pos:        position{line: 1885, col: 25, offset: 60798},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1884, col: 30, offset: 60778},
+													pos: position{line: 1885, col: 30, offset: 60803},
 													expr: &litMatcher{
-														pos:        position{line: 1884, col: 30, offset: 60778},
+														pos:        position{line: 1885, col: 30, offset: 60803},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44437,21 +44523,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 40, offset: 63461},
+									pos:        position{line: 1979, col: 40, offset: 63486},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1978, col: 45, offset: 63466},
+									pos:   position{line: 1979, col: 45, offset: 63491},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1978, col: 55, offset: 63476},
+										pos:  position{line: 1979, col: 55, offset: 63501},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1978, col: 84, offset: 63505},
+									pos:        position{line: 1979, col: 84, offset: 63530},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44460,21 +44546,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1982, col: 7, offset: 63669},
+						pos: position{line: 1983, col: 7, offset: 63694},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 7, offset: 63669},
+							pos: position{line: 1983, col: 7, offset: 63694},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 7, offset: 63669},
+									pos:   position{line: 1983, col: 7, offset: 63694},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44483,21 +44569,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 42, offset: 63704},
+									pos:        position{line: 1983, col: 42, offset: 63729},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 47, offset: 63709},
+									pos:   position{line: 1983, col: 47, offset: 63734},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 57, offset: 63719},
+										pos:  position{line: 1983, col: 57, offset: 63744},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 86, offset: 63748},
+									pos:        position{line: 1983, col: 86, offset: 63773},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44506,21 +44592,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1987, col: 7, offset: 63950},
+						pos: position{line: 1988, col: 7, offset: 63975},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1987, col: 7, offset: 63950},
+							pos: position{line: 1988, col: 7, offset: 63975},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1987, col: 7, offset: 63950},
+									pos:   position{line: 1988, col: 7, offset: 63975},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44529,21 +44615,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 42, offset: 63985},
+									pos:        position{line: 1988, col: 42, offset: 64010},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1987, col: 46, offset: 63989},
+									pos:   position{line: 1988, col: 46, offset: 64014},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1987, col: 56, offset: 63999},
+										pos:  position{line: 1988, col: 56, offset: 64024},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1987, col: 85, offset: 64028},
+									pos:        position{line: 1988, col: 85, offset: 64053},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44556,29 +44642,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64508},
+			pos:  position{line: 2005, col: 1, offset: 64533},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64538},
+				pos: position{line: 2006, col: 5, offset: 64563},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64538},
+					pos: position{line: 2006, col: 5, offset: 64563},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 40, offset: 64459},
+							pos:        position{line: 2001, col: 40, offset: 64484},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64579},
+							pos:   position{line: 2007, col: 5, offset: 64604},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64589},
+								pos:  position{line: 2007, col: 15, offset: 64614},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2002, col: 38, offset: 64502},
+							pos:        position{line: 2003, col: 38, offset: 64527},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44589,44 +44675,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 64754},
+			pos:  position{line: 2012, col: 1, offset: 64779},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2011, col: 34, offset: 64787},
+				pos: position{line: 2012, col: 34, offset: 64812},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2011, col: 34, offset: 64787},
+					pos:  position{line: 2012, col: 34, offset: 64812},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2013, col: 1, offset: 64819},
+			pos:  position{line: 2014, col: 1, offset: 64844},
 			expr: &actionExpr{
-				pos: position{line: 2014, col: 5, offset: 64856},
+				pos: position{line: 2015, col: 5, offset: 64881},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2014, col: 5, offset: 64856},
+					pos: position{line: 2015, col: 5, offset: 64881},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2015, col: 5, offset: 64867},
+							pos: position{line: 2016, col: 5, offset: 64892},
 							expr: &litMatcher{
-								pos:        position{line: 2002, col: 38, offset: 64502},
+								pos:        position{line: 2003, col: 38, offset: 64527},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 64906},
+							pos:   position{line: 2017, col: 5, offset: 64931},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2016, col: 14, offset: 64915},
+								pos:  position{line: 2017, col: 14, offset: 64940},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44636,29 +44722,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2042, col: 1, offset: 65599},
+			pos:  position{line: 2043, col: 1, offset: 65624},
 			expr: &actionExpr{
-				pos: position{line: 2043, col: 5, offset: 65629},
+				pos: position{line: 2044, col: 5, offset: 65654},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2043, col: 5, offset: 65629},
+					pos: position{line: 2044, col: 5, offset: 65654},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2025, col: 5, offset: 65157},
+							pos:        position{line: 2026, col: 5, offset: 65182},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2026, col: 5, offset: 65166},
+							pos: position{line: 2027, col: 5, offset: 65191},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2030, col: 5, offset: 65286},
+							pos: position{line: 2031, col: 5, offset: 65311},
 							expr: &notExpr{
-								pos: position{line: 2030, col: 7, offset: 65288},
+								pos: position{line: 2031, col: 7, offset: 65313},
 								expr: &litMatcher{
-									pos:        position{line: 2030, col: 8, offset: 65289},
+									pos:        position{line: 2031, col: 8, offset: 65314},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44666,38 +44752,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2044, col: 5, offset: 65669},
+							pos:   position{line: 2045, col: 5, offset: 65694},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2044, col: 15, offset: 65679},
+								pos:  position{line: 2045, col: 15, offset: 65704},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2034, col: 5, offset: 65399},
+							pos:        position{line: 2035, col: 5, offset: 65424},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2035, col: 5, offset: 65408},
+							pos: position{line: 2036, col: 5, offset: 65433},
 							expr: &litMatcher{
-								pos:        position{line: 2035, col: 6, offset: 65409},
+								pos:        position{line: 2036, col: 6, offset: 65434},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2036, col: 5, offset: 65474},
+							pos: position{line: 2037, col: 5, offset: 65499},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2040, col: 5, offset: 65585},
+							pos: position{line: 2041, col: 5, offset: 65610},
 							expr: &notExpr{
-								pos: position{line: 2040, col: 7, offset: 65587},
+								pos: position{line: 2041, col: 7, offset: 65612},
 								expr: &charClassMatcher{
-									pos:        position{line: 2781, col: 13, offset: 88611},
+									pos:        position{line: 2786, col: 13, offset: 88772},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44711,20 +44797,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2049, col: 1, offset: 65846},
+			pos:  position{line: 2050, col: 1, offset: 65871},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65884},
+				pos: position{line: 2051, col: 5, offset: 65909},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65884},
+					pos: position{line: 2051, col: 5, offset: 65909},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2050, col: 5, offset: 65884},
+							pos: position{line: 2051, col: 5, offset: 65909},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44733,18 +44819,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 65923},
+							pos:   position{line: 2052, col: 5, offset: 65948},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2051, col: 14, offset: 65932},
+								pos: position{line: 2052, col: 14, offset: 65957},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2051, col: 15, offset: 65933},
+									pos:  position{line: 2052, col: 15, offset: 65958},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2052, col: 5, offset: 65968},
+							pos: position{line: 2053, col: 5, offset: 65993},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -44753,49 +44839,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2058, col: 1, offset: 66109},
+			pos:  position{line: 2059, col: 1, offset: 66134},
 			expr: &actionExpr{
-				pos: position{line: 2059, col: 5, offset: 66146},
+				pos: position{line: 2060, col: 5, offset: 66171},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2059, col: 5, offset: 66146},
+					pos: position{line: 2060, col: 5, offset: 66171},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2060, col: 5, offset: 66157},
+							pos: position{line: 2061, col: 5, offset: 66182},
 							expr: &seqExpr{
-								pos: position{line: 2034, col: 5, offset: 65399},
+								pos: position{line: 2035, col: 5, offset: 65424},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2034, col: 5, offset: 65399},
+										pos:        position{line: 2035, col: 5, offset: 65424},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2035, col: 5, offset: 65408},
+										pos: position{line: 2036, col: 5, offset: 65433},
 										expr: &litMatcher{
-											pos:        position{line: 2035, col: 6, offset: 65409},
+											pos:        position{line: 2036, col: 6, offset: 65434},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2036, col: 5, offset: 65474},
+										pos: position{line: 2037, col: 5, offset: 65499},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2040, col: 5, offset: 65585},
+										pos: position{line: 2041, col: 5, offset: 65610},
 										expr: &notExpr{
-											pos: position{line: 2040, col: 7, offset: 65587},
+											pos: position{line: 2041, col: 7, offset: 65612},
 											expr: &charClassMatcher{
-												pos:        position{line: 2781, col: 13, offset: 88611},
+												pos:        position{line: 2786, col: 13, offset: 88772},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44807,10 +44893,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2061, col: 5, offset: 66196},
+							pos:   position{line: 2062, col: 5, offset: 66221},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2061, col: 14, offset: 66205},
+								pos:  position{line: 2062, col: 14, offset: 66230},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44820,35 +44906,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2066, col: 1, offset: 66293},
+			pos:  position{line: 2067, col: 1, offset: 66318},
 			expr: &choiceExpr{
-				pos: position{line: 2068, col: 5, offset: 66358},
+				pos: position{line: 2069, col: 5, offset: 66383},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2068, col: 5, offset: 66358},
+						pos: position{line: 2069, col: 5, offset: 66383},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2068, col: 5, offset: 66358},
+							pos: position{line: 2069, col: 5, offset: 66383},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2068, col: 5, offset: 66358},
+									pos:   position{line: 2069, col: 5, offset: 66383},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1884, col: 25, offset: 60773},
+										pos: position{line: 1885, col: 25, offset: 60798},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1884, col: 25, offset: 60773},
+											pos: position{line: 1885, col: 25, offset: 60798},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1884, col: 25, offset: 60773},
+													pos:        position{line: 1885, col: 25, offset: 60798},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1884, col: 30, offset: 60778},
+													pos: position{line: 1885, col: 30, offset: 60803},
 													expr: &litMatcher{
-														pos:        position{line: 1884, col: 30, offset: 60778},
+														pos:        position{line: 1885, col: 30, offset: 60803},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44859,21 +44945,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2068, col: 40, offset: 66393},
+									pos:        position{line: 2069, col: 40, offset: 66418},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2068, col: 45, offset: 66398},
+									pos:   position{line: 2069, col: 45, offset: 66423},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2068, col: 55, offset: 66408},
+										pos:  position{line: 2069, col: 55, offset: 66433},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2068, col: 86, offset: 66439},
+									pos:        position{line: 2069, col: 86, offset: 66464},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44882,21 +44968,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2072, col: 7, offset: 66604},
+						pos: position{line: 2073, col: 7, offset: 66629},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2072, col: 7, offset: 66604},
+							pos: position{line: 2073, col: 7, offset: 66629},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2072, col: 7, offset: 66604},
+									pos:   position{line: 2073, col: 7, offset: 66629},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44905,21 +44991,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 42, offset: 66639},
+									pos:        position{line: 2073, col: 42, offset: 66664},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2072, col: 47, offset: 66644},
+									pos:   position{line: 2073, col: 47, offset: 66669},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2072, col: 57, offset: 66654},
+										pos:  position{line: 2073, col: 57, offset: 66679},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2072, col: 88, offset: 66685},
+									pos:        position{line: 2073, col: 88, offset: 66710},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44928,21 +45014,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2077, col: 7, offset: 66926},
+						pos: position{line: 2078, col: 7, offset: 66951},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2077, col: 7, offset: 66926},
+							pos: position{line: 2078, col: 7, offset: 66951},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2077, col: 7, offset: 66926},
+									pos:   position{line: 2078, col: 7, offset: 66951},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44951,21 +45037,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2077, col: 42, offset: 66961},
+									pos:        position{line: 2078, col: 42, offset: 66986},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2077, col: 46, offset: 66965},
+									pos:   position{line: 2078, col: 46, offset: 66990},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2077, col: 56, offset: 66975},
+										pos:  position{line: 2078, col: 56, offset: 67000},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2077, col: 87, offset: 67006},
+									pos:        position{line: 2078, col: 87, offset: 67031},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44978,29 +45064,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2094, col: 1, offset: 67570},
+			pos:  position{line: 2095, col: 1, offset: 67595},
 			expr: &actionExpr{
-				pos: position{line: 2095, col: 5, offset: 67603},
+				pos: position{line: 2096, col: 5, offset: 67628},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2095, col: 5, offset: 67603},
+					pos: position{line: 2096, col: 5, offset: 67628},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2090, col: 43, offset: 67518},
+							pos:        position{line: 2091, col: 43, offset: 67543},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2096, col: 5, offset: 67647},
+							pos:   position{line: 2097, col: 5, offset: 67672},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2096, col: 15, offset: 67657},
+								pos:  position{line: 2097, col: 15, offset: 67682},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2092, col: 41, offset: 67564},
+							pos:        position{line: 2093, col: 41, offset: 67589},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45011,44 +45097,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2101, col: 1, offset: 67832},
+			pos:  position{line: 2102, col: 1, offset: 67857},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2101, col: 37, offset: 67868},
+				pos: position{line: 2102, col: 37, offset: 67893},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2101, col: 37, offset: 67868},
+					pos:  position{line: 2102, col: 37, offset: 67893},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2103, col: 1, offset: 67935},
+			pos:  position{line: 2104, col: 1, offset: 67960},
 			expr: &actionExpr{
-				pos: position{line: 2104, col: 5, offset: 67975},
+				pos: position{line: 2105, col: 5, offset: 68000},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2104, col: 5, offset: 67975},
+					pos: position{line: 2105, col: 5, offset: 68000},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2105, col: 5, offset: 67986},
+							pos: position{line: 2106, col: 5, offset: 68011},
 							expr: &litMatcher{
-								pos:        position{line: 2092, col: 41, offset: 67564},
+								pos:        position{line: 2093, col: 41, offset: 67589},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 68028},
+							pos:   position{line: 2107, col: 5, offset: 68053},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 14, offset: 68037},
+								pos:  position{line: 2107, col: 14, offset: 68062},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45058,33 +45144,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2124, col: 1, offset: 68579},
+			pos:  position{line: 2125, col: 1, offset: 68604},
 			expr: &seqExpr{
-				pos: position{line: 2125, col: 5, offset: 68624},
+				pos: position{line: 2126, col: 5, offset: 68649},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2125, col: 5, offset: 68624},
+						pos: position{line: 2126, col: 5, offset: 68649},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2125, col: 6, offset: 68625},
+							pos:  position{line: 2126, col: 6, offset: 68650},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2126, col: 5, offset: 68644},
+						pos:        position{line: 2127, col: 5, offset: 68669},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2127, col: 5, offset: 68652},
+						pos: position{line: 2128, col: 5, offset: 68677},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2131, col: 5, offset: 68766},
+						pos: position{line: 2132, col: 5, offset: 68791},
 						expr: &notExpr{
-							pos: position{line: 2131, col: 7, offset: 68768},
+							pos: position{line: 2132, col: 7, offset: 68793},
 							expr: &charClassMatcher{
-								pos:        position{line: 2781, col: 13, offset: 88611},
+								pos:        position{line: 2786, col: 13, offset: 88772},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45097,29 +45183,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2134, col: 1, offset: 68785},
+			pos:  position{line: 2135, col: 1, offset: 68810},
 			expr: &actionExpr{
-				pos: position{line: 2135, col: 5, offset: 68818},
+				pos: position{line: 2136, col: 5, offset: 68843},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2135, col: 5, offset: 68818},
+					pos: position{line: 2136, col: 5, offset: 68843},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2117, col: 5, offset: 68381},
+							pos:        position{line: 2118, col: 5, offset: 68406},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2118, col: 5, offset: 68390},
+							pos: position{line: 2119, col: 5, offset: 68415},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2122, col: 5, offset: 68513},
+							pos: position{line: 2123, col: 5, offset: 68538},
 							expr: &notExpr{
-								pos: position{line: 2122, col: 7, offset: 68515},
+								pos: position{line: 2123, col: 7, offset: 68540},
 								expr: &litMatcher{
-									pos:        position{line: 2122, col: 8, offset: 68516},
+									pos:        position{line: 2123, col: 8, offset: 68541},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45127,15 +45213,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2136, col: 5, offset: 68862},
+							pos:   position{line: 2137, col: 5, offset: 68887},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2136, col: 15, offset: 68872},
+								pos:  position{line: 2137, col: 15, offset: 68897},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2137, col: 5, offset: 68911},
+							pos:  position{line: 2138, col: 5, offset: 68936},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45144,20 +45230,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2141, col: 1, offset: 69048},
+			pos:  position{line: 2142, col: 1, offset: 69073},
 			expr: &actionExpr{
-				pos: position{line: 2142, col: 5, offset: 69089},
+				pos: position{line: 2143, col: 5, offset: 69114},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2142, col: 5, offset: 69089},
+					pos: position{line: 2143, col: 5, offset: 69114},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2142, col: 5, offset: 69089},
+							pos: position{line: 2143, col: 5, offset: 69114},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45166,18 +45252,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2143, col: 5, offset: 69128},
+							pos:   position{line: 2144, col: 5, offset: 69153},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2143, col: 14, offset: 69137},
+								pos: position{line: 2144, col: 14, offset: 69162},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2143, col: 15, offset: 69138},
+									pos:  position{line: 2144, col: 15, offset: 69163},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2144, col: 5, offset: 69176},
+							pos: position{line: 2145, col: 5, offset: 69201},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -45186,31 +45272,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2150, col: 1, offset: 69317},
+			pos:  position{line: 2151, col: 1, offset: 69342},
 			expr: &actionExpr{
-				pos: position{line: 2151, col: 5, offset: 69357},
+				pos: position{line: 2152, col: 5, offset: 69382},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2151, col: 5, offset: 69357},
+					pos: position{line: 2152, col: 5, offset: 69382},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2152, col: 5, offset: 69368},
+							pos: position{line: 2153, col: 5, offset: 69393},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2152, col: 6, offset: 69369},
+								pos:  position{line: 2153, col: 6, offset: 69394},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2153, col: 5, offset: 69410},
+							pos:   position{line: 2154, col: 5, offset: 69435},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2153, col: 14, offset: 69419},
+								pos:  position{line: 2154, col: 14, offset: 69444},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45220,35 +45306,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2158, col: 1, offset: 69507},
+			pos:  position{line: 2159, col: 1, offset: 69532},
 			expr: &choiceExpr{
-				pos: position{line: 2160, col: 5, offset: 69578},
+				pos: position{line: 2161, col: 5, offset: 69603},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2160, col: 5, offset: 69578},
+						pos: position{line: 2161, col: 5, offset: 69603},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2160, col: 5, offset: 69578},
+							pos: position{line: 2161, col: 5, offset: 69603},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2160, col: 5, offset: 69578},
+									pos:   position{line: 2161, col: 5, offset: 69603},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1884, col: 25, offset: 60773},
+										pos: position{line: 1885, col: 25, offset: 60798},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1884, col: 25, offset: 60773},
+											pos: position{line: 1885, col: 25, offset: 60798},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1884, col: 25, offset: 60773},
+													pos:        position{line: 1885, col: 25, offset: 60798},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1884, col: 30, offset: 60778},
+													pos: position{line: 1885, col: 30, offset: 60803},
 													expr: &litMatcher{
-														pos:        position{line: 1884, col: 30, offset: 60778},
+														pos:        position{line: 1885, col: 30, offset: 60803},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45259,21 +45345,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2160, col: 40, offset: 69613},
+									pos:        position{line: 2161, col: 40, offset: 69638},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2160, col: 45, offset: 69618},
+									pos:   position{line: 2161, col: 45, offset: 69643},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2160, col: 55, offset: 69628},
+										pos:  position{line: 2161, col: 55, offset: 69653},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2160, col: 89, offset: 69662},
+									pos:        position{line: 2161, col: 89, offset: 69687},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45282,21 +45368,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2164, col: 7, offset: 69831},
+						pos: position{line: 2165, col: 7, offset: 69856},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2164, col: 7, offset: 69831},
+							pos: position{line: 2165, col: 7, offset: 69856},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2164, col: 7, offset: 69831},
+									pos:   position{line: 2165, col: 7, offset: 69856},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45305,21 +45391,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 42, offset: 69866},
+									pos:        position{line: 2165, col: 42, offset: 69891},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2164, col: 47, offset: 69871},
+									pos:   position{line: 2165, col: 47, offset: 69896},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2164, col: 57, offset: 69881},
+										pos:  position{line: 2165, col: 57, offset: 69906},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2164, col: 91, offset: 69915},
+									pos:        position{line: 2165, col: 91, offset: 69940},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45328,21 +45414,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2169, col: 7, offset: 70121},
+						pos: position{line: 2170, col: 7, offset: 70146},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2169, col: 7, offset: 70121},
+							pos: position{line: 2170, col: 7, offset: 70146},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2169, col: 7, offset: 70121},
+									pos:   position{line: 2170, col: 7, offset: 70146},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45351,21 +45437,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2169, col: 42, offset: 70156},
+									pos:        position{line: 2170, col: 42, offset: 70181},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2169, col: 46, offset: 70160},
+									pos:   position{line: 2170, col: 46, offset: 70185},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2169, col: 56, offset: 70170},
+										pos:  position{line: 2170, col: 56, offset: 70195},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2169, col: 90, offset: 70204},
+									pos:        position{line: 2170, col: 90, offset: 70229},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45378,29 +45464,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2186, col: 1, offset: 70689},
+			pos:  position{line: 2187, col: 1, offset: 70714},
 			expr: &actionExpr{
-				pos: position{line: 2187, col: 5, offset: 70719},
+				pos: position{line: 2188, col: 5, offset: 70744},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2187, col: 5, offset: 70719},
+					pos: position{line: 2188, col: 5, offset: 70744},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2182, col: 40, offset: 70640},
+							pos:        position{line: 2183, col: 40, offset: 70665},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2188, col: 5, offset: 70760},
+							pos:   position{line: 2189, col: 5, offset: 70785},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2188, col: 15, offset: 70770},
+								pos:  position{line: 2189, col: 15, offset: 70795},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2184, col: 38, offset: 70683},
+							pos:        position{line: 2185, col: 38, offset: 70708},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45411,44 +45497,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2193, col: 1, offset: 70936},
+			pos:  position{line: 2194, col: 1, offset: 70961},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2193, col: 34, offset: 70969},
+				pos: position{line: 2194, col: 34, offset: 70994},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2193, col: 34, offset: 70969},
+					pos:  position{line: 2194, col: 34, offset: 70994},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2195, col: 1, offset: 71000},
+			pos:  position{line: 2196, col: 1, offset: 71025},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71069},
+				pos: position{line: 2197, col: 5, offset: 71094},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71069},
+					pos: position{line: 2197, col: 5, offset: 71094},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2197, col: 5, offset: 71080},
+							pos: position{line: 2198, col: 5, offset: 71105},
 							expr: &litMatcher{
-								pos:        position{line: 2184, col: 38, offset: 70683},
+								pos:        position{line: 2185, col: 38, offset: 70708},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2198, col: 5, offset: 71119},
+							pos:   position{line: 2199, col: 5, offset: 71144},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2198, col: 14, offset: 71128},
+								pos:  position{line: 2199, col: 14, offset: 71153},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45458,29 +45544,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2223, col: 1, offset: 71810},
+			pos:  position{line: 2224, col: 1, offset: 71835},
 			expr: &actionExpr{
-				pos: position{line: 2224, col: 5, offset: 71840},
+				pos: position{line: 2225, col: 5, offset: 71865},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2224, col: 5, offset: 71840},
+					pos: position{line: 2225, col: 5, offset: 71865},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2207, col: 5, offset: 71376},
+							pos:        position{line: 2208, col: 5, offset: 71401},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71385},
+							pos: position{line: 2209, col: 5, offset: 71410},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2212, col: 5, offset: 71505},
+							pos: position{line: 2213, col: 5, offset: 71530},
 							expr: &notExpr{
-								pos: position{line: 2212, col: 7, offset: 71507},
+								pos: position{line: 2213, col: 7, offset: 71532},
 								expr: &litMatcher{
-									pos:        position{line: 2212, col: 8, offset: 71508},
+									pos:        position{line: 2213, col: 8, offset: 71533},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45488,38 +45574,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2225, col: 5, offset: 71880},
+							pos:   position{line: 2226, col: 5, offset: 71905},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2225, col: 15, offset: 71890},
+								pos:  position{line: 2226, col: 15, offset: 71915},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2215, col: 5, offset: 71613},
+							pos:        position{line: 2216, col: 5, offset: 71638},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2216, col: 5, offset: 71621},
+							pos: position{line: 2217, col: 5, offset: 71646},
 							expr: &litMatcher{
-								pos:        position{line: 2216, col: 6, offset: 71622},
+								pos:        position{line: 2217, col: 6, offset: 71647},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71685},
+							pos: position{line: 2218, col: 5, offset: 71710},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2221, col: 5, offset: 71796},
+							pos: position{line: 2222, col: 5, offset: 71821},
 							expr: &notExpr{
-								pos: position{line: 2221, col: 7, offset: 71798},
+								pos: position{line: 2222, col: 7, offset: 71823},
 								expr: &charClassMatcher{
-									pos:        position{line: 2781, col: 13, offset: 88611},
+									pos:        position{line: 2786, col: 13, offset: 88772},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45533,20 +45619,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2230, col: 1, offset: 72057},
+			pos:  position{line: 2231, col: 1, offset: 72082},
 			expr: &actionExpr{
-				pos: position{line: 2231, col: 5, offset: 72095},
+				pos: position{line: 2232, col: 5, offset: 72120},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2231, col: 5, offset: 72095},
+					pos: position{line: 2232, col: 5, offset: 72120},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2231, col: 5, offset: 72095},
+							pos: position{line: 2232, col: 5, offset: 72120},
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 10, offset: 92369},
+								pos: position{line: 2932, col: 10, offset: 92824},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2918, col: 10, offset: 92369},
+									pos:        position{line: 2932, col: 10, offset: 92824},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45555,18 +45641,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2232, col: 5, offset: 72134},
+							pos:   position{line: 2233, col: 5, offset: 72159},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2232, col: 14, offset: 72143},
+								pos: position{line: 2233, col: 14, offset: 72168},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2232, col: 15, offset: 72144},
+									pos:  position{line: 2233, col: 15, offset: 72169},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2233, col: 5, offset: 72180},
+							pos: position{line: 2234, col: 5, offset: 72205},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -45575,49 +45661,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2239, col: 1, offset: 72321},
+			pos:  position{line: 2240, col: 1, offset: 72346},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72358},
+				pos: position{line: 2241, col: 5, offset: 72383},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72358},
+					pos: position{line: 2241, col: 5, offset: 72383},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2241, col: 5, offset: 72369},
+							pos: position{line: 2242, col: 5, offset: 72394},
 							expr: &seqExpr{
-								pos: position{line: 2215, col: 5, offset: 71613},
+								pos: position{line: 2216, col: 5, offset: 71638},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2215, col: 5, offset: 71613},
+										pos:        position{line: 2216, col: 5, offset: 71638},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2216, col: 5, offset: 71621},
+										pos: position{line: 2217, col: 5, offset: 71646},
 										expr: &litMatcher{
-											pos:        position{line: 2216, col: 6, offset: 71622},
+											pos:        position{line: 2217, col: 6, offset: 71647},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2217, col: 5, offset: 71685},
+										pos: position{line: 2218, col: 5, offset: 71710},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2221, col: 5, offset: 71796},
+										pos: position{line: 2222, col: 5, offset: 71821},
 										expr: &notExpr{
-											pos: position{line: 2221, col: 7, offset: 71798},
+											pos: position{line: 2222, col: 7, offset: 71823},
 											expr: &charClassMatcher{
-												pos:        position{line: 2781, col: 13, offset: 88611},
+												pos:        position{line: 2786, col: 13, offset: 88772},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45629,10 +45715,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2242, col: 5, offset: 72408},
+							pos:   position{line: 2243, col: 5, offset: 72433},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2242, col: 14, offset: 72417},
+								pos:  position{line: 2243, col: 14, offset: 72442},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45642,35 +45728,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2247, col: 1, offset: 72505},
+			pos:  position{line: 2248, col: 1, offset: 72530},
 			expr: &choiceExpr{
-				pos: position{line: 2249, col: 5, offset: 72569},
+				pos: position{line: 2250, col: 5, offset: 72594},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2249, col: 5, offset: 72569},
+						pos: position{line: 2250, col: 5, offset: 72594},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2249, col: 5, offset: 72569},
+							pos: position{line: 2250, col: 5, offset: 72594},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2249, col: 5, offset: 72569},
+									pos:   position{line: 2250, col: 5, offset: 72594},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1884, col: 25, offset: 60773},
+										pos: position{line: 1885, col: 25, offset: 60798},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1884, col: 25, offset: 60773},
+											pos: position{line: 1885, col: 25, offset: 60798},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1884, col: 25, offset: 60773},
+													pos:        position{line: 1885, col: 25, offset: 60798},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1884, col: 30, offset: 60778},
+													pos: position{line: 1885, col: 30, offset: 60803},
 													expr: &litMatcher{
-														pos:        position{line: 1884, col: 30, offset: 60778},
+														pos:        position{line: 1885, col: 30, offset: 60803},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45681,21 +45767,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2249, col: 40, offset: 72604},
+									pos:        position{line: 2250, col: 40, offset: 72629},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2249, col: 45, offset: 72609},
+									pos:   position{line: 2250, col: 45, offset: 72634},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2249, col: 55, offset: 72619},
+										pos:  position{line: 2250, col: 55, offset: 72644},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2249, col: 86, offset: 72650},
+									pos:        position{line: 2250, col: 86, offset: 72675},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45704,21 +45790,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2253, col: 7, offset: 72815},
+						pos: position{line: 2254, col: 7, offset: 72840},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2253, col: 7, offset: 72815},
+							pos: position{line: 2254, col: 7, offset: 72840},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2253, col: 7, offset: 72815},
+									pos:   position{line: 2254, col: 7, offset: 72840},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45727,21 +45813,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 42, offset: 72850},
+									pos:        position{line: 2254, col: 42, offset: 72875},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2253, col: 47, offset: 72855},
+									pos:   position{line: 2254, col: 47, offset: 72880},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2253, col: 57, offset: 72865},
+										pos:  position{line: 2254, col: 57, offset: 72890},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2253, col: 88, offset: 72896},
+									pos:        position{line: 2254, col: 88, offset: 72921},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45750,21 +45836,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2258, col: 7, offset: 73099},
+						pos: position{line: 2259, col: 7, offset: 73124},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2258, col: 7, offset: 73099},
+							pos: position{line: 2259, col: 7, offset: 73124},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2258, col: 7, offset: 73099},
+									pos:   position{line: 2259, col: 7, offset: 73124},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1880, col: 25, offset: 60700},
+										pos: position{line: 1881, col: 25, offset: 60725},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1880, col: 25, offset: 60700},
+											pos: position{line: 1881, col: 25, offset: 60725},
 											expr: &litMatcher{
-												pos:        position{line: 1880, col: 25, offset: 60700},
+												pos:        position{line: 1881, col: 25, offset: 60725},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45773,21 +45859,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 42, offset: 73134},
+									pos:        position{line: 2259, col: 42, offset: 73159},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2258, col: 46, offset: 73138},
+									pos:   position{line: 2259, col: 46, offset: 73163},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2258, col: 56, offset: 73148},
+										pos:  position{line: 2259, col: 56, offset: 73173},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2258, col: 87, offset: 73179},
+									pos:        position{line: 2259, col: 87, offset: 73204},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45800,29 +45886,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2265, col: 1, offset: 73446},
+			pos:  position{line: 2266, col: 1, offset: 73471},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73468},
+				pos: position{line: 2267, col: 5, offset: 73493},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73468},
+					pos: position{line: 2267, col: 5, offset: 73493},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2272, col: 27, offset: 73683},
+							pos:        position{line: 2273, col: 27, offset: 73708},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2267, col: 5, offset: 73495},
+							pos:   position{line: 2268, col: 5, offset: 73520},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2267, col: 14, offset: 73504},
+								pos:  position{line: 2268, col: 14, offset: 73529},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 27, offset: 73683},
+							pos:        position{line: 2273, col: 27, offset: 73708},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45833,43 +45919,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2274, col: 1, offset: 73688},
+			pos:  position{line: 2275, col: 1, offset: 73713},
 			expr: &choiceExpr{
-				pos: position{line: 2274, col: 25, offset: 73712},
+				pos: position{line: 2275, col: 25, offset: 73737},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2274, col: 25, offset: 73712},
+						pos:  position{line: 2275, col: 25, offset: 73737},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2276, col: 21, offset: 73764},
+						pos: position{line: 2277, col: 21, offset: 73789},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2276, col: 21, offset: 73764},
+							pos:   position{line: 2277, col: 21, offset: 73789},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2276, col: 29, offset: 73772},
+								pos: position{line: 2277, col: 29, offset: 73797},
 								expr: &choiceExpr{
-									pos: position{line: 2276, col: 30, offset: 73773},
+									pos: position{line: 2277, col: 30, offset: 73798},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2488, col: 5, offset: 80047},
+												pos: position{line: 2489, col: 5, offset: 80072},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2488, col: 5, offset: 80047},
+														pos: position{line: 2489, col: 5, offset: 80072},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2491, col: 5, offset: 80123},
+														pos:   position{line: 2492, col: 5, offset: 80148},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2492, col: 9, offset: 80141},
+															pos: position{line: 2493, col: 9, offset: 80166},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2492, col: 10, offset: 80142},
+																pos:        position{line: 2493, col: 10, offset: 80167},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45881,7 +45967,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2276, col: 49, offset: 73792},
+											pos:        position{line: 2277, col: 49, offset: 73817},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -45897,23 +45983,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2280, col: 1, offset: 73849},
+			pos:  position{line: 2281, col: 1, offset: 73874},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 73916},
+				pos: position{line: 2283, col: 5, offset: 73941},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 73916},
+					pos: position{line: 2283, col: 5, offset: 73941},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 73916},
+							pos:   position{line: 2283, col: 5, offset: 73941},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1880, col: 25, offset: 60700},
+								pos: position{line: 1881, col: 25, offset: 60725},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1880, col: 25, offset: 60700},
+									pos: position{line: 1881, col: 25, offset: 60725},
 									expr: &litMatcher{
-										pos:        position{line: 1880, col: 25, offset: 60700},
+										pos:        position{line: 1881, col: 25, offset: 60725},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -45922,21 +46008,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 27, offset: 73683},
+							pos:        position{line: 2273, col: 27, offset: 73708},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 73984},
+							pos:   position{line: 2285, col: 5, offset: 74009},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 73993},
+								pos:  position{line: 2285, col: 14, offset: 74018},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 27, offset: 73683},
+							pos:        position{line: 2273, col: 27, offset: 73708},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45947,29 +46033,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2292, col: 1, offset: 74256},
+			pos:  position{line: 2293, col: 1, offset: 74281},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74280},
+				pos: position{line: 2294, col: 5, offset: 74305},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74280},
+					pos: position{line: 2294, col: 5, offset: 74305},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2299, col: 29, offset: 74507},
+							pos:        position{line: 2300, col: 29, offset: 74532},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2294, col: 5, offset: 74310},
+							pos:   position{line: 2295, col: 5, offset: 74335},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2294, col: 14, offset: 74319},
+								pos:  position{line: 2295, col: 14, offset: 74344},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2299, col: 29, offset: 74507},
+							pos:        position{line: 2300, col: 29, offset: 74532},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -45980,43 +46066,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2301, col: 1, offset: 74512},
+			pos:  position{line: 2302, col: 1, offset: 74537},
 			expr: &choiceExpr{
-				pos: position{line: 2301, col: 27, offset: 74538},
+				pos: position{line: 2302, col: 27, offset: 74563},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2301, col: 27, offset: 74538},
+						pos:  position{line: 2302, col: 27, offset: 74563},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2303, col: 23, offset: 74594},
+						pos: position{line: 2304, col: 23, offset: 74619},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2303, col: 23, offset: 74594},
+							pos:   position{line: 2304, col: 23, offset: 74619},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 31, offset: 74602},
+								pos: position{line: 2304, col: 31, offset: 74627},
 								expr: &choiceExpr{
-									pos: position{line: 2303, col: 32, offset: 74603},
+									pos: position{line: 2304, col: 32, offset: 74628},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2488, col: 5, offset: 80047},
+												pos: position{line: 2489, col: 5, offset: 80072},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2488, col: 5, offset: 80047},
+														pos: position{line: 2489, col: 5, offset: 80072},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2491, col: 5, offset: 80123},
+														pos:   position{line: 2492, col: 5, offset: 80148},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2492, col: 9, offset: 80141},
+															pos: position{line: 2493, col: 9, offset: 80166},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2492, col: 10, offset: 80142},
+																pos:        position{line: 2493, col: 10, offset: 80167},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46028,7 +46114,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2303, col: 51, offset: 74622},
+											pos:        position{line: 2304, col: 51, offset: 74647},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -46044,23 +46130,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2307, col: 1, offset: 74679},
+			pos:  position{line: 2308, col: 1, offset: 74704},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74751},
+				pos: position{line: 2310, col: 5, offset: 74776},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74751},
+					pos: position{line: 2310, col: 5, offset: 74776},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74751},
+							pos:   position{line: 2310, col: 5, offset: 74776},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1880, col: 25, offset: 60700},
+								pos: position{line: 1881, col: 25, offset: 60725},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1880, col: 25, offset: 60700},
+									pos: position{line: 1881, col: 25, offset: 60725},
 									expr: &litMatcher{
-										pos:        position{line: 1880, col: 25, offset: 60700},
+										pos:        position{line: 1881, col: 25, offset: 60725},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46069,21 +46155,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2299, col: 29, offset: 74507},
+							pos:        position{line: 2300, col: 29, offset: 74532},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2311, col: 5, offset: 74821},
+							pos:   position{line: 2312, col: 5, offset: 74846},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2311, col: 14, offset: 74830},
+								pos:  position{line: 2312, col: 14, offset: 74855},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2299, col: 29, offset: 74507},
+							pos:        position{line: 2300, col: 29, offset: 74532},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46094,27 +46180,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2320, col: 1, offset: 75299},
+			pos:  position{line: 2321, col: 1, offset: 75324},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75315},
+				pos: position{line: 2322, col: 5, offset: 75340},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75315},
+					pos: position{line: 2322, col: 5, offset: 75340},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2321, col: 5, offset: 75315},
+							pos: position{line: 2322, col: 5, offset: 75340},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75378},
+							pos:   position{line: 2325, col: 5, offset: 75403},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2324, col: 12, offset: 75385},
+								pos: position{line: 2325, col: 12, offset: 75410},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2324, col: 12, offset: 75385},
+									pos: position{line: 2325, col: 12, offset: 75410},
 									expr: &litMatcher{
-										pos:        position{line: 2324, col: 13, offset: 75386},
+										pos:        position{line: 2325, col: 13, offset: 75411},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46123,16 +46209,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2328, col: 5, offset: 75494},
+							pos: position{line: 2329, col: 5, offset: 75519},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2922, col: 11, offset: 92430},
+							pos: position{line: 2936, col: 11, offset: 92885},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2922, col: 11, offset: 92430},
+								pos: position{line: 2936, col: 11, offset: 92885},
 								expr: &charClassMatcher{
-									pos:        position{line: 2922, col: 11, offset: 92430},
+									pos:        position{line: 2936, col: 11, offset: 92885},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46141,36 +46227,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2332, col: 12, offset: 75653},
+							pos:   position{line: 2333, col: 12, offset: 75678},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2332, col: 19, offset: 75660},
+								pos:  position{line: 2333, col: 19, offset: 75685},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
+									pos: position{line: 2941, col: 12, offset: 92995},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46179,9 +46265,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -46192,24 +46278,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2336, col: 1, offset: 75756},
+			pos:  position{line: 2337, col: 1, offset: 75781},
 			expr: &actionExpr{
-				pos: position{line: 2337, col: 5, offset: 75777},
+				pos: position{line: 2338, col: 5, offset: 75802},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2337, col: 5, offset: 75777},
+					pos: position{line: 2338, col: 5, offset: 75802},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2337, col: 5, offset: 75777},
+							pos: position{line: 2338, col: 5, offset: 75802},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2342, col: 5, offset: 75892},
+							pos:   position{line: 2343, col: 5, offset: 75917},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2342, col: 14, offset: 75901},
+								pos: position{line: 2343, col: 14, offset: 75926},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2342, col: 15, offset: 75902},
+									pos:  position{line: 2343, col: 15, offset: 75927},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46220,38 +46306,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2346, col: 1, offset: 75983},
+			pos:  position{line: 2347, col: 1, offset: 76008},
 			expr: &actionExpr{
-				pos: position{line: 2347, col: 5, offset: 76010},
+				pos: position{line: 2348, col: 5, offset: 76035},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2347, col: 5, offset: 76010},
+					pos: position{line: 2348, col: 5, offset: 76035},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2347, col: 5, offset: 76010},
+							pos: position{line: 2348, col: 5, offset: 76035},
 							expr: &choiceExpr{
-								pos: position{line: 2940, col: 8, offset: 92767},
+								pos: position{line: 2954, col: 8, offset: 93222},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92540},
+										pos: position{line: 2941, col: 12, offset: 92995},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92541},
+											pos: position{line: 2941, col: 13, offset: 92996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92541},
+													pos:        position{line: 2941, col: 13, offset: 92996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92548},
+													pos:        position{line: 2941, col: 20, offset: 93003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92557},
+													pos:        position{line: 2941, col: 29, offset: 93012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46260,36 +46346,77 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2937, col: 8, offset: 92717},
+										pos: position{line: 2951, col: 8, offset: 93172},
 										expr: &anyMatcher{
-											line: 2937, col: 9, offset: 92718,
+											line: 2951, col: 9, offset: 93173,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2348, col: 5, offset: 76019},
+							pos:   position{line: 2349, col: 5, offset: 76044},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2349, col: 9, offset: 76037},
+								pos: position{line: 2350, col: 9, offset: 76062},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88758},
+										pos: position{line: 2795, col: 5, offset: 88919},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2790, col: 5, offset: 88758},
+											pos: position{line: 2795, col: 5, offset: 88919},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2795, col: 5, offset: 88919},
+													expr: &seqExpr{
+														pos: position{line: 2796, col: 9, offset: 88930},
+														exprs: []interface{}{
+															&andCodeExpr{
+																pos: position{line: 2796, col: 9, offset: 88930},
+																run: (*parser).callonSectionTitleElement18,
+															},
+															&labeledExpr{
+																pos:   position{line: 2799, col: 9, offset: 88993},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2771, col: 18, offset: 88305},
+																	run: (*parser).callonSectionTitleElement20,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2771, col: 19, offset: 88306},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2799, col: 30, offset: 89014},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2800, col: 9, offset: 89101},
+																run: (*parser).callonSectionTitleElement24,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2790, col: 5, offset: 88758},
+													pos:   position{line: 2804, col: 5, offset: 89213},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2790, col: 11, offset: 88764},
-														run: (*parser).callonSectionTitleElement17,
+														pos: position{line: 2804, col: 11, offset: 89219},
+														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2790, col: 11, offset: 88764},
+															pos: position{line: 2804, col: 11, offset: 89219},
 															expr: &charClassMatcher{
-																pos:        position{line: 2790, col: 11, offset: 88764},
+																pos:        position{line: 2804, col: 11, offset: 89219},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46299,32 +46426,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2793, col: 5, offset: 88822},
+													pos: position{line: 2807, col: 5, offset: 89277},
 													expr: &seqExpr{
-														pos: position{line: 2794, col: 9, offset: 88833},
+														pos: position{line: 2808, col: 9, offset: 89288},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2794, col: 9, offset: 88833},
+																pos:        position{line: 2808, col: 9, offset: 89288},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2795, col: 9, offset: 88882},
-																run: (*parser).callonSectionTitleElement23,
+																pos: position{line: 2809, col: 9, offset: 89337},
+																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2799, col: 5, offset: 88962},
+													pos: position{line: 2813, col: 5, offset: 89417},
 													expr: &seqExpr{
-														pos: position{line: 2800, col: 9, offset: 88973},
+														pos: position{line: 2814, col: 9, offset: 89428},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2800, col: 9, offset: 88973},
+																pos: position{line: 2814, col: 9, offset: 89428},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2800, col: 9, offset: 88973},
+																	pos:        position{line: 2814, col: 9, offset: 89428},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46333,13 +46460,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 23, offset: 88987},
+																pos:        position{line: 2814, col: 23, offset: 89442},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2800, col: 27, offset: 88991},
+																pos:        position{line: 2814, col: 27, offset: 89446},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46352,12 +46479,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2922, col: 11, offset: 92430},
-										run: (*parser).callonSectionTitleElement30,
+										pos: position{line: 2936, col: 11, offset: 92885},
+										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2922, col: 11, offset: 92430},
+											pos: position{line: 2936, col: 11, offset: 92885},
 											expr: &charClassMatcher{
-												pos:        position{line: 2922, col: 11, offset: 92430},
+												pos:        position{line: 2936, col: 11, offset: 92885},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46366,21 +46493,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2519, col: 5, offset: 81218},
-										run: (*parser).callonSectionTitleElement33,
+										pos: position{line: 2520, col: 5, offset: 81243},
+										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2519, col: 5, offset: 81218},
+											pos: position{line: 2520, col: 5, offset: 81243},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2519, col: 5, offset: 81218},
+													pos:        position{line: 2520, col: 5, offset: 81243},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2519, col: 10, offset: 81223},
+													pos: position{line: 2520, col: 10, offset: 81248},
 													expr: &charClassMatcher{
-														pos:        position{line: 2519, col: 11, offset: 81224},
+														pos:        position{line: 2520, col: 11, offset: 81249},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46391,29 +46518,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 5, offset: 81416},
-										run: (*parser).callonSectionTitleElement38,
+										pos: position{line: 2526, col: 5, offset: 81441},
+										run: (*parser).callonSectionTitleElement47,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 5, offset: 81416},
+											pos: position{line: 2526, col: 5, offset: 81441},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2525, col: 5, offset: 81416},
-													run: (*parser).callonSectionTitleElement40,
+													pos: position{line: 2526, col: 5, offset: 81441},
+													run: (*parser).callonSectionTitleElement49,
 												},
 												&andCodeExpr{
-													pos: position{line: 2528, col: 5, offset: 81487},
-													run: (*parser).callonSectionTitleElement41,
+													pos: position{line: 2529, col: 5, offset: 81512},
+													run: (*parser).callonSectionTitleElement50,
 												},
 												&litMatcher{
-													pos:        position{line: 2532, col: 5, offset: 81612},
+													pos:        position{line: 2533, col: 5, offset: 81637},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2532, col: 9, offset: 81616},
+													pos: position{line: 2533, col: 9, offset: 81641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2532, col: 10, offset: 81617},
+														pos:        position{line: 2533, col: 10, offset: 81642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46424,31 +46551,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2352, col: 11, offset: 76102},
+										pos:  position{line: 2353, col: 11, offset: 76127},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89184},
-										run: (*parser).callonSectionTitleElement46,
+										pos: position{line: 2822, col: 5, offset: 89639},
+										run: (*parser).callonSectionTitleElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2809, col: 9, offset: 89194},
+											pos: position{line: 2823, col: 9, offset: 89649},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2809, col: 10, offset: 89195},
+													pos:        position{line: 2823, col: 10, offset: 89650},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 13, offset: 89292},
+													pos: position{line: 2825, col: 13, offset: 89747},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2811, col: 13, offset: 89292},
-															run: (*parser).callonSectionTitleElement50,
+															pos: position{line: 2825, col: 13, offset: 89747},
+															run: (*parser).callonSectionTitleElement59,
 														},
 														&litMatcher{
-															pos:        position{line: 2814, col: 13, offset: 89392},
+															pos:        position{line: 2828, col: 13, offset: 89847},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46456,20 +46583,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2814, col: 19, offset: 89398},
+													pos:        position{line: 2828, col: 19, offset: 89853},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 13, offset: 89436},
+													pos: position{line: 2831, col: 13, offset: 89891},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2817, col: 13, offset: 89436},
-															run: (*parser).callonSectionTitleElement54,
+															pos: position{line: 2831, col: 13, offset: 89891},
+															run: (*parser).callonSectionTitleElement63,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2820, col: 14, offset: 89529},
+															pos:        position{line: 2834, col: 14, offset: 89984},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46478,18 +46605,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 12, offset: 89573},
+													pos: position{line: 2836, col: 12, offset: 90028},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2822, col: 12, offset: 89573},
+															pos:        position{line: 2836, col: 12, offset: 90028},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2822, col: 16, offset: 89577},
+															pos: position{line: 2836, col: 16, offset: 90032},
 															expr: &litMatcher{
-																pos:        position{line: 2822, col: 17, offset: 89578},
+																pos:        position{line: 2836, col: 17, offset: 90033},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46501,35 +46628,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2354, col: 11, offset: 76175},
+										pos:  position{line: 2355, col: 11, offset: 76200},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2355, col: 11, offset: 76191},
+										pos:  position{line: 2356, col: 11, offset: 76216},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2356, col: 11, offset: 76219},
+										pos:  position{line: 2357, col: 11, offset: 76244},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80047},
-										run: (*parser).callonSectionTitleElement63,
+										pos: position{line: 2489, col: 5, offset: 80072},
+										run: (*parser).callonSectionTitleElement72,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2488, col: 5, offset: 80047},
-													run: (*parser).callonSectionTitleElement65,
+													pos: position{line: 2489, col: 5, offset: 80072},
+													run: (*parser).callonSectionTitleElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 2491, col: 5, offset: 80123},
+													pos:   position{line: 2492, col: 5, offset: 80148},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2492, col: 9, offset: 80141},
-														run: (*parser).callonSectionTitleElement67,
+														pos: position{line: 2493, col: 9, offset: 80166},
+														run: (*parser).callonSectionTitleElement76,
 														expr: &charClassMatcher{
-															pos:        position{line: 2492, col: 10, offset: 80142},
+															pos:        position{line: 2493, col: 10, offset: 80167},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46541,18 +46668,18 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2358, col: 11, offset: 76304},
+										pos:  position{line: 2359, col: 11, offset: 76329},
 										name: "InlineIcon",
 									},
 									&actionExpr{
 										pos: position{line: 656, col: 5, offset: 20755},
-										run: (*parser).callonSectionTitleElement70,
+										run: (*parser).callonSectionTitleElement79,
 										expr: &seqExpr{
 											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 656, col: 5, offset: 20755},
-													run: (*parser).callonSectionTitleElement72,
+													run: (*parser).callonSectionTitleElement81,
 												},
 												&labeledExpr{
 													pos:   position{line: 659, col: 5, offset: 20827},
@@ -46562,7 +46689,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 665, col: 5, offset: 20965},
-																run: (*parser).callonSectionTitleElement75,
+																run: (*parser).callonSectionTitleElement84,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
@@ -46577,7 +46704,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement79,
+																				run: (*parser).callonSectionTitleElement88,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46615,7 +46742,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 672, col: 5, offset: 21233},
-																run: (*parser).callonSectionTitleElement85,
+																run: (*parser).callonSectionTitleElement94,
 																expr: &seqExpr{
 																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
@@ -46630,7 +46757,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement89,
+																				run: (*parser).callonSectionTitleElement98,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46668,7 +46795,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 678, col: 25, offset: 21437},
-																run: (*parser).callonSectionTitleElement95,
+																run: (*parser).callonSectionTitleElement104,
 																expr: &seqExpr{
 																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
@@ -46683,7 +46810,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement99,
+																				run: (*parser).callonSectionTitleElement108,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46717,7 +46844,7 @@ var g = &grammar{
 																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonSectionTitleElement106,
+																					run: (*parser).callonSectionTitleElement115,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -46735,7 +46862,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonSectionTitleElement111,
+																											run: (*parser).callonSectionTitleElement120,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -46746,7 +46873,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonSectionTitleElement113,
+																											run: (*parser).callonSectionTitleElement122,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -46777,7 +46904,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 682, col: 25, offset: 21608},
-																run: (*parser).callonSectionTitleElement117,
+																run: (*parser).callonSectionTitleElement126,
 																expr: &seqExpr{
 																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
@@ -46792,7 +46919,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement121,
+																				run: (*parser).callonSectionTitleElement130,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46826,7 +46953,7 @@ var g = &grammar{
 																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonSectionTitleElement128,
+																					run: (*parser).callonSectionTitleElement137,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -46844,7 +46971,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonSectionTitleElement133,
+																											run: (*parser).callonSectionTitleElement142,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -46855,7 +46982,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonSectionTitleElement135,
+																											run: (*parser).callonSectionTitleElement144,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -46892,7 +47019,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1226, col: 23, offset: 37843},
-										run: (*parser).callonSectionTitleElement139,
+										run: (*parser).callonSectionTitleElement148,
 										expr: &seqExpr{
 											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
@@ -46907,7 +47034,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1226, col: 56, offset: 37876},
-														run: (*parser).callonSectionTitleElement143,
+														run: (*parser).callonSectionTitleElement152,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
@@ -46930,21 +47057,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2371, col: 5, offset: 76757},
-										run: (*parser).callonSectionTitleElement147,
+										pos: position{line: 2372, col: 5, offset: 76782},
+										run: (*parser).callonSectionTitleElement156,
 										expr: &seqExpr{
-											pos: position{line: 2371, col: 5, offset: 76757},
+											pos: position{line: 2372, col: 5, offset: 76782},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2371, col: 5, offset: 76757},
-													run: (*parser).callonSectionTitleElement149,
+													pos: position{line: 2372, col: 5, offset: 76782},
+													run: (*parser).callonSectionTitleElement158,
 												},
 												&labeledExpr{
-													pos:   position{line: 2374, col: 5, offset: 76812},
+													pos:   position{line: 2375, col: 5, offset: 76837},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
-														run: (*parser).callonSectionTitleElement151,
+														run: (*parser).callonSectionTitleElement160,
 														expr: &seqExpr{
 															pos: position{line: 405, col: 5, offset: 12349},
 															exprs: []interface{}{
@@ -46959,7 +47086,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 407, col: 9, offset: 12372},
-																		run: (*parser).callonSectionTitleElement155,
+																		run: (*parser).callonSectionTitleElement164,
 																		expr: &labeledExpr{
 																			pos:   position{line: 407, col: 9, offset: 12372},
 																			label: "elements",
@@ -46970,7 +47097,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 408, col: 14, offset: 12396},
-																							run: (*parser).callonSectionTitleElement159,
+																							run: (*parser).callonSectionTitleElement168,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 408, col: 14, offset: 12396},
 																								expr: &charClassMatcher{
@@ -46984,7 +47111,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1226, col: 23, offset: 37843},
-																							run: (*parser).callonSectionTitleElement162,
+																							run: (*parser).callonSectionTitleElement171,
 																							expr: &seqExpr{
 																								pos: position{line: 1226, col: 23, offset: 37843},
 																								exprs: []interface{}{
@@ -46999,7 +47126,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1226, col: 56, offset: 37876},
-																											run: (*parser).callonSectionTitleElement166,
+																											run: (*parser).callonSectionTitleElement175,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1226, col: 56, offset: 37876},
 																												expr: &charClassMatcher{
@@ -47023,13 +47150,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 656, col: 5, offset: 20755},
-																							run: (*parser).callonSectionTitleElement170,
+																							run: (*parser).callonSectionTitleElement179,
 																							expr: &seqExpr{
 																								pos: position{line: 656, col: 5, offset: 20755},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 656, col: 5, offset: 20755},
-																										run: (*parser).callonSectionTitleElement172,
+																										run: (*parser).callonSectionTitleElement181,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 659, col: 5, offset: 20827},
@@ -47039,7 +47166,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 665, col: 5, offset: 20965},
-																													run: (*parser).callonSectionTitleElement175,
+																													run: (*parser).callonSectionTitleElement184,
 																													expr: &seqExpr{
 																														pos: position{line: 665, col: 5, offset: 20965},
 																														exprs: []interface{}{
@@ -47054,7 +47181,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement179,
+																																	run: (*parser).callonSectionTitleElement188,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47092,7 +47219,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 672, col: 5, offset: 21233},
-																													run: (*parser).callonSectionTitleElement185,
+																													run: (*parser).callonSectionTitleElement194,
 																													expr: &seqExpr{
 																														pos: position{line: 672, col: 5, offset: 21233},
 																														exprs: []interface{}{
@@ -47107,7 +47234,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement189,
+																																	run: (*parser).callonSectionTitleElement198,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47145,7 +47272,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 678, col: 25, offset: 21437},
-																													run: (*parser).callonSectionTitleElement195,
+																													run: (*parser).callonSectionTitleElement204,
 																													expr: &seqExpr{
 																														pos: position{line: 678, col: 25, offset: 21437},
 																														exprs: []interface{}{
@@ -47160,7 +47287,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement199,
+																																	run: (*parser).callonSectionTitleElement208,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47194,7 +47321,7 @@ var g = &grammar{
 																																	pos: position{line: 678, col: 62, offset: 21474},
 																																	expr: &actionExpr{
 																																		pos: position{line: 686, col: 17, offset: 21769},
-																																		run: (*parser).callonSectionTitleElement206,
+																																		run: (*parser).callonSectionTitleElement215,
 																																		expr: &seqExpr{
 																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
@@ -47212,7 +47339,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 686, col: 28, offset: 21780},
-																																								run: (*parser).callonSectionTitleElement211,
+																																								run: (*parser).callonSectionTitleElement220,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
@@ -47223,7 +47350,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 688, col: 9, offset: 21834},
-																																								run: (*parser).callonSectionTitleElement213,
+																																								run: (*parser).callonSectionTitleElement222,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
@@ -47254,7 +47381,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 682, col: 25, offset: 21608},
-																													run: (*parser).callonSectionTitleElement217,
+																													run: (*parser).callonSectionTitleElement226,
 																													expr: &seqExpr{
 																														pos: position{line: 682, col: 25, offset: 21608},
 																														exprs: []interface{}{
@@ -47269,7 +47396,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement221,
+																																	run: (*parser).callonSectionTitleElement230,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47303,7 +47430,7 @@ var g = &grammar{
 																																	pos: position{line: 682, col: 63, offset: 21646},
 																																	expr: &actionExpr{
 																																		pos: position{line: 686, col: 17, offset: 21769},
-																																		run: (*parser).callonSectionTitleElement228,
+																																		run: (*parser).callonSectionTitleElement237,
 																																		expr: &seqExpr{
 																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
@@ -47321,7 +47448,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 686, col: 28, offset: 21780},
-																																								run: (*parser).callonSectionTitleElement233,
+																																								run: (*parser).callonSectionTitleElement242,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
@@ -47332,7 +47459,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 688, col: 9, offset: 21834},
-																																								run: (*parser).callonSectionTitleElement235,
+																																								run: (*parser).callonSectionTitleElement244,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
@@ -47369,7 +47496,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 413, col: 16, offset: 12629},
-																							run: (*parser).callonSectionTitleElement239,
+																							run: (*parser).callonSectionTitleElement248,
 																							expr: &litMatcher{
 																								pos:        position{line: 413, col: 16, offset: 12629},
 																								val:        "{",
@@ -47394,12 +47521,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2374, col: 26, offset: 76833},
+													pos: position{line: 2375, col: 26, offset: 76858},
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 10, offset: 92369},
-														run: (*parser).callonSectionTitleElement243,
+														pos: position{line: 2932, col: 10, offset: 92824},
+														run: (*parser).callonSectionTitleElement252,
 														expr: &charClassMatcher{
-															pos:        position{line: 2918, col: 10, offset: 92369},
+															pos:        position{line: 2932, col: 10, offset: 92824},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47408,30 +47535,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2374, col: 33, offset: 76840},
+													pos: position{line: 2375, col: 33, offset: 76865},
 													expr: &choiceExpr{
-														pos: position{line: 2940, col: 8, offset: 92767},
+														pos: position{line: 2954, col: 8, offset: 93222},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2927, col: 12, offset: 92540},
-																run: (*parser).callonSectionTitleElement247,
+																pos: position{line: 2941, col: 12, offset: 92995},
+																run: (*parser).callonSectionTitleElement256,
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 13, offset: 92541},
+																	pos: position{line: 2941, col: 13, offset: 92996},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 13, offset: 92541},
+																			pos:        position{line: 2941, col: 13, offset: 92996},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 20, offset: 92548},
+																			pos:        position{line: 2941, col: 20, offset: 93003},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2927, col: 29, offset: 92557},
+																			pos:        position{line: 2941, col: 29, offset: 93012},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47440,9 +47567,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2937, col: 8, offset: 92717},
+																pos: position{line: 2951, col: 8, offset: 93172},
 																expr: &anyMatcher{
-																	line: 2937, col: 9, offset: 92718,
+																	line: 2951, col: 9, offset: 93173,
 																},
 															},
 														},
@@ -47453,7 +47580,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1286, col: 5, offset: 39707},
-										run: (*parser).callonSectionTitleElement254,
+										run: (*parser).callonSectionTitleElement263,
 										expr: &seqExpr{
 											pos: position{line: 1286, col: 5, offset: 39707},
 											exprs: []interface{}{
@@ -47467,12 +47594,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 92021},
-														run: (*parser).callonSectionTitleElement258,
+														pos: position{line: 2917, col: 7, offset: 92476},
+														run: (*parser).callonSectionTitleElement267,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 92021},
+															pos: position{line: 2917, col: 7, offset: 92476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 92021},
+																pos:        position{line: 2917, col: 7, offset: 92476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47492,7 +47619,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1291, col: 5, offset: 39843},
-										run: (*parser).callonSectionTitleElement262,
+										run: (*parser).callonSectionTitleElement271,
 										expr: &seqExpr{
 											pos: position{line: 1291, col: 5, offset: 39843},
 											exprs: []interface{}{
@@ -47506,12 +47633,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 92021},
-														run: (*parser).callonSectionTitleElement266,
+														pos: position{line: 2917, col: 7, offset: 92476},
+														run: (*parser).callonSectionTitleElement275,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 92021},
+															pos: position{line: 2917, col: 7, offset: 92476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 92021},
+																pos:        position{line: 2917, col: 7, offset: 92476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47530,14 +47657,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2363, col: 11, offset: 76558},
+										pos:  position{line: 2364, col: 11, offset: 76583},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2830, col: 12, offset: 89838},
-										run: (*parser).callonSectionTitleElement271,
+										pos: position{line: 2844, col: 12, offset: 90293},
+										run: (*parser).callonSectionTitleElement280,
 										expr: &charClassMatcher{
-											pos:        position{line: 2830, col: 12, offset: 89838},
+											pos:        position{line: 2844, col: 12, offset: 90293},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47553,52 +47680,93 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2384, col: 1, offset: 77102},
+			pos:  position{line: 2385, col: 1, offset: 77127},
 			expr: &actionExpr{
-				pos: position{line: 2385, col: 5, offset: 77189},
+				pos: position{line: 2386, col: 5, offset: 77214},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2385, col: 5, offset: 77189},
+					pos: position{line: 2386, col: 5, offset: 77214},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2385, col: 5, offset: 77189},
+							pos:   position{line: 2386, col: 5, offset: 77214},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2385, col: 14, offset: 77198},
+								pos: position{line: 2386, col: 14, offset: 77223},
 								expr: &actionExpr{
-									pos: position{line: 2387, col: 9, offset: 77224},
+									pos: position{line: 2388, col: 9, offset: 77249},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2387, col: 9, offset: 77224},
+										pos: position{line: 2388, col: 9, offset: 77249},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92703},
+												pos: position{line: 2949, col: 11, offset: 93158},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92705,
+													line: 2949, col: 13, offset: 93160,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2388, col: 9, offset: 77239},
+												pos:   position{line: 2389, col: 9, offset: 77264},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2389, col: 13, offset: 77261},
+													pos: position{line: 2390, col: 13, offset: 77286},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2790, col: 5, offset: 88758},
+															pos: position{line: 2795, col: 5, offset: 88919},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2790, col: 5, offset: 88758},
+																pos: position{line: 2795, col: 5, offset: 88919},
 																exprs: []interface{}{
+																	&notExpr{
+																		pos: position{line: 2795, col: 5, offset: 88919},
+																		expr: &seqExpr{
+																			pos: position{line: 2796, col: 9, offset: 88930},
+																			exprs: []interface{}{
+																				&andCodeExpr{
+																					pos: position{line: 2796, col: 9, offset: 88930},
+																					run: (*parser).callonNormalGroup15,
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 2799, col: 9, offset: 88993},
+																					label: "name",
+																					expr: &actionExpr{
+																						pos: position{line: 2771, col: 18, offset: 88305},
+																						run: (*parser).callonNormalGroup17,
+																						expr: &oneOrMoreExpr{
+																							pos: position{line: 2771, col: 19, offset: 88306},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2771, col: 19, offset: 88306},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2799, col: 30, offset: 89014},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&andCodeExpr{
+																					pos: position{line: 2800, col: 9, offset: 89101},
+																					run: (*parser).callonNormalGroup21,
+																				},
+																			},
+																		},
+																	},
 																	&labeledExpr{
-																		pos:   position{line: 2790, col: 5, offset: 88758},
+																		pos:   position{line: 2804, col: 5, offset: 89213},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2790, col: 11, offset: 88764},
-																			run: (*parser).callonNormalGroup14,
+																			pos: position{line: 2804, col: 11, offset: 89219},
+																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2790, col: 11, offset: 88764},
+																				pos: position{line: 2804, col: 11, offset: 89219},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2790, col: 11, offset: 88764},
+																					pos:        position{line: 2804, col: 11, offset: 89219},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47608,32 +47776,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2793, col: 5, offset: 88822},
+																		pos: position{line: 2807, col: 5, offset: 89277},
 																		expr: &seqExpr{
-																			pos: position{line: 2794, col: 9, offset: 88833},
+																			pos: position{line: 2808, col: 9, offset: 89288},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2794, col: 9, offset: 88833},
+																					pos:        position{line: 2808, col: 9, offset: 89288},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2795, col: 9, offset: 88882},
-																					run: (*parser).callonNormalGroup20,
+																					pos: position{line: 2809, col: 9, offset: 89337},
+																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2799, col: 5, offset: 88962},
+																		pos: position{line: 2813, col: 5, offset: 89417},
 																		expr: &seqExpr{
-																			pos: position{line: 2800, col: 9, offset: 88973},
+																			pos: position{line: 2814, col: 9, offset: 89428},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2800, col: 9, offset: 88973},
+																					pos: position{line: 2814, col: 9, offset: 89428},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2800, col: 9, offset: 88973},
+																						pos:        position{line: 2814, col: 9, offset: 89428},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47642,13 +47810,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2800, col: 23, offset: 88987},
+																					pos:        position{line: 2814, col: 23, offset: 89442},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2800, col: 27, offset: 88991},
+																					pos:        position{line: 2814, col: 27, offset: 89446},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47661,12 +47829,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2922, col: 11, offset: 92430},
-															run: (*parser).callonNormalGroup27,
+															pos: position{line: 2936, col: 11, offset: 92885},
+															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2922, col: 11, offset: 92430},
+																pos: position{line: 2936, col: 11, offset: 92885},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2922, col: 11, offset: 92430},
+																	pos:        position{line: 2936, col: 11, offset: 92885},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47675,25 +47843,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2391, col: 15, offset: 77307},
+															pos:  position{line: 2392, col: 15, offset: 77332},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2519, col: 5, offset: 81218},
-															run: (*parser).callonNormalGroup31,
+															pos: position{line: 2520, col: 5, offset: 81243},
+															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2519, col: 5, offset: 81218},
+																pos: position{line: 2520, col: 5, offset: 81243},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2519, col: 5, offset: 81218},
+																		pos:        position{line: 2520, col: 5, offset: 81243},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2519, col: 10, offset: 81223},
+																		pos: position{line: 2520, col: 10, offset: 81248},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2519, col: 11, offset: 81224},
+																			pos:        position{line: 2520, col: 11, offset: 81249},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47704,29 +47872,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2525, col: 5, offset: 81416},
-															run: (*parser).callonNormalGroup36,
+															pos: position{line: 2526, col: 5, offset: 81441},
+															run: (*parser).callonNormalGroup45,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 5, offset: 81416},
+																pos: position{line: 2526, col: 5, offset: 81441},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2525, col: 5, offset: 81416},
-																		run: (*parser).callonNormalGroup38,
+																		pos: position{line: 2526, col: 5, offset: 81441},
+																		run: (*parser).callonNormalGroup47,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2528, col: 5, offset: 81487},
-																		run: (*parser).callonNormalGroup39,
+																		pos: position{line: 2529, col: 5, offset: 81512},
+																		run: (*parser).callonNormalGroup48,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2532, col: 5, offset: 81612},
+																		pos:        position{line: 2533, col: 5, offset: 81637},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2532, col: 9, offset: 81616},
+																		pos: position{line: 2533, col: 9, offset: 81641},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2532, col: 10, offset: 81617},
+																			pos:        position{line: 2533, col: 10, offset: 81642},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47737,27 +47905,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2808, col: 5, offset: 89184},
-															run: (*parser).callonNormalGroup43,
+															pos: position{line: 2822, col: 5, offset: 89639},
+															run: (*parser).callonNormalGroup52,
 															expr: &choiceExpr{
-																pos: position{line: 2809, col: 9, offset: 89194},
+																pos: position{line: 2823, col: 9, offset: 89649},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2809, col: 10, offset: 89195},
+																		pos:        position{line: 2823, col: 10, offset: 89650},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2811, col: 13, offset: 89292},
+																		pos: position{line: 2825, col: 13, offset: 89747},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2811, col: 13, offset: 89292},
-																				run: (*parser).callonNormalGroup47,
+																				pos: position{line: 2825, col: 13, offset: 89747},
+																				run: (*parser).callonNormalGroup56,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2814, col: 13, offset: 89392},
+																				pos:        position{line: 2828, col: 13, offset: 89847},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47765,20 +47933,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2814, col: 19, offset: 89398},
+																		pos:        position{line: 2828, col: 19, offset: 89853},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2817, col: 13, offset: 89436},
+																		pos: position{line: 2831, col: 13, offset: 89891},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2817, col: 13, offset: 89436},
-																				run: (*parser).callonNormalGroup51,
+																				pos: position{line: 2831, col: 13, offset: 89891},
+																				run: (*parser).callonNormalGroup60,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2820, col: 14, offset: 89529},
+																				pos:        position{line: 2834, col: 14, offset: 89984},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47787,18 +47955,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2822, col: 12, offset: 89573},
+																		pos: position{line: 2836, col: 12, offset: 90028},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2822, col: 12, offset: 89573},
+																				pos:        position{line: 2836, col: 12, offset: 90028},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2822, col: 16, offset: 89577},
+																				pos: position{line: 2836, col: 16, offset: 90032},
 																				expr: &litMatcher{
-																					pos:        position{line: 2822, col: 17, offset: 89578},
+																					pos:        position{line: 2836, col: 17, offset: 90033},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -47810,25 +47978,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2927, col: 12, offset: 92540},
-															run: (*parser).callonNormalGroup57,
+															pos: position{line: 2941, col: 12, offset: 92995},
+															run: (*parser).callonNormalGroup66,
 															expr: &choiceExpr{
-																pos: position{line: 2927, col: 13, offset: 92541},
+																pos: position{line: 2941, col: 13, offset: 92996},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 13, offset: 92541},
+																		pos:        position{line: 2941, col: 13, offset: 92996},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 20, offset: 92548},
+																		pos:        position{line: 2941, col: 20, offset: 93003},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2927, col: 29, offset: 92557},
+																		pos:        position{line: 2941, col: 29, offset: 93012},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -47838,13 +48006,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 656, col: 5, offset: 20755},
-															run: (*parser).callonNormalGroup62,
+															run: (*parser).callonNormalGroup71,
 															expr: &seqExpr{
 																pos: position{line: 656, col: 5, offset: 20755},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 656, col: 5, offset: 20755},
-																		run: (*parser).callonNormalGroup64,
+																		run: (*parser).callonNormalGroup73,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 659, col: 5, offset: 20827},
@@ -47854,7 +48022,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 665, col: 5, offset: 20965},
-																					run: (*parser).callonNormalGroup67,
+																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
 																						pos: position{line: 665, col: 5, offset: 20965},
 																						exprs: []interface{}{
@@ -47869,7 +48037,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup71,
+																									run: (*parser).callonNormalGroup80,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -47907,7 +48075,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 672, col: 5, offset: 21233},
-																					run: (*parser).callonNormalGroup77,
+																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
 																						pos: position{line: 672, col: 5, offset: 21233},
 																						exprs: []interface{}{
@@ -47922,7 +48090,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup81,
+																									run: (*parser).callonNormalGroup90,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -47960,7 +48128,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 678, col: 25, offset: 21437},
-																					run: (*parser).callonNormalGroup87,
+																					run: (*parser).callonNormalGroup96,
 																					expr: &seqExpr{
 																						pos: position{line: 678, col: 25, offset: 21437},
 																						exprs: []interface{}{
@@ -47975,7 +48143,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup91,
+																									run: (*parser).callonNormalGroup100,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48009,7 +48177,7 @@ var g = &grammar{
 																									pos: position{line: 678, col: 62, offset: 21474},
 																									expr: &actionExpr{
 																										pos: position{line: 686, col: 17, offset: 21769},
-																										run: (*parser).callonNormalGroup98,
+																										run: (*parser).callonNormalGroup107,
 																										expr: &seqExpr{
 																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
@@ -48027,7 +48195,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 686, col: 28, offset: 21780},
-																																run: (*parser).callonNormalGroup103,
+																																run: (*parser).callonNormalGroup112,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
@@ -48038,7 +48206,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 688, col: 9, offset: 21834},
-																																run: (*parser).callonNormalGroup105,
+																																run: (*parser).callonNormalGroup114,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
@@ -48069,7 +48237,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 682, col: 25, offset: 21608},
-																					run: (*parser).callonNormalGroup109,
+																					run: (*parser).callonNormalGroup118,
 																					expr: &seqExpr{
 																						pos: position{line: 682, col: 25, offset: 21608},
 																						exprs: []interface{}{
@@ -48084,7 +48252,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup113,
+																									run: (*parser).callonNormalGroup122,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48118,7 +48286,7 @@ var g = &grammar{
 																									pos: position{line: 682, col: 63, offset: 21646},
 																									expr: &actionExpr{
 																										pos: position{line: 686, col: 17, offset: 21769},
-																										run: (*parser).callonNormalGroup120,
+																										run: (*parser).callonNormalGroup129,
 																										expr: &seqExpr{
 																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
@@ -48136,7 +48304,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 686, col: 28, offset: 21780},
-																																run: (*parser).callonNormalGroup125,
+																																run: (*parser).callonNormalGroup134,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
@@ -48147,7 +48315,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 688, col: 9, offset: 21834},
-																																run: (*parser).callonNormalGroup127,
+																																run: (*parser).callonNormalGroup136,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
@@ -48183,35 +48351,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2396, col: 15, offset: 77474},
+															pos:  position{line: 2397, col: 15, offset: 77499},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2397, col: 15, offset: 77494},
+															pos:  position{line: 2398, col: 15, offset: 77519},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2398, col: 15, offset: 77583},
+															pos:  position{line: 2399, col: 15, offset: 77608},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2488, col: 5, offset: 80047},
-															run: (*parser).callonNormalGroup134,
+															pos: position{line: 2489, col: 5, offset: 80072},
+															run: (*parser).callonNormalGroup143,
 															expr: &seqExpr{
-																pos: position{line: 2488, col: 5, offset: 80047},
+																pos: position{line: 2489, col: 5, offset: 80072},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2488, col: 5, offset: 80047},
-																		run: (*parser).callonNormalGroup136,
+																		pos: position{line: 2489, col: 5, offset: 80072},
+																		run: (*parser).callonNormalGroup145,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2491, col: 5, offset: 80123},
+																		pos:   position{line: 2492, col: 5, offset: 80148},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2492, col: 9, offset: 80141},
-																			run: (*parser).callonNormalGroup138,
+																			pos: position{line: 2493, col: 9, offset: 80166},
+																			run: (*parser).callonNormalGroup147,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2492, col: 10, offset: 80142},
+																				pos:        position{line: 2493, col: 10, offset: 80167},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48224,13 +48392,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1234, col: 5, offset: 38289},
-															run: (*parser).callonNormalGroup140,
+															run: (*parser).callonNormalGroup149,
 															expr: &seqExpr{
 																pos: position{line: 1234, col: 5, offset: 38289},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1234, col: 5, offset: 38289},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup151,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1237, col: 5, offset: 38365},
@@ -48240,15 +48408,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1238, col: 5, offset: 38373},
-																		run: (*parser).callonNormalGroup144,
+																		run: (*parser).callonNormalGroup153,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
-																			run: (*parser).callonNormalGroup146,
+																			pos: position{line: 2932, col: 10, offset: 92824},
+																			run: (*parser).callonNormalGroup155,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48259,28 +48427,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2940, col: 8, offset: 92767},
+																			pos: position{line: 2954, col: 8, offset: 93222},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
-																					run: (*parser).callonNormalGroup150,
+																					pos: position{line: 2941, col: 12, offset: 92995},
+																					run: (*parser).callonNormalGroup159,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48289,9 +48457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2937, col: 8, offset: 92717},
+																					pos: position{line: 2951, col: 8, offset: 93172},
 																					expr: &anyMatcher{
-																						line: 2937, col: 9, offset: 92718,
+																						line: 2951, col: 9, offset: 93173,
 																					},
 																				},
 																			},
@@ -48301,12 +48469,12 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2401, col: 15, offset: 77765},
+															pos:  position{line: 2402, col: 15, offset: 77790},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
 															pos: position{line: 1226, col: 23, offset: 37843},
-															run: (*parser).callonNormalGroup158,
+															run: (*parser).callonNormalGroup167,
 															expr: &seqExpr{
 																pos: position{line: 1226, col: 23, offset: 37843},
 																exprs: []interface{}{
@@ -48321,7 +48489,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1226, col: 56, offset: 37876},
-																			run: (*parser).callonNormalGroup162,
+																			run: (*parser).callonNormalGroup171,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1226, col: 56, offset: 37876},
 																				expr: &charClassMatcher{
@@ -48344,10 +48512,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2830, col: 12, offset: 89838},
-															run: (*parser).callonNormalGroup166,
+															pos: position{line: 2844, col: 12, offset: 90293},
+															run: (*parser).callonNormalGroup175,
 															expr: &charClassMatcher{
-																pos:        position{line: 2830, col: 12, offset: 89838},
+																pos:        position{line: 2844, col: 12, offset: 90293},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48363,9 +48531,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -48374,28 +48542,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2412, col: 1, offset: 78203},
+			pos:  position{line: 2413, col: 1, offset: 78228},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78236},
+				pos: position{line: 2414, col: 5, offset: 78261},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78236},
+					pos: position{line: 2414, col: 5, offset: 78261},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2413, col: 5, offset: 78236},
+							pos:   position{line: 2414, col: 5, offset: 78261},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2413, col: 14, offset: 78245},
+								pos: position{line: 2414, col: 14, offset: 78270},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2413, col: 15, offset: 78246},
+									pos:  position{line: 2414, col: 15, offset: 78271},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -48404,41 +48572,82 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2417, col: 1, offset: 78343},
+			pos:  position{line: 2418, col: 1, offset: 78368},
 			expr: &actionExpr{
-				pos: position{line: 2418, col: 5, offset: 78383},
+				pos: position{line: 2419, col: 5, offset: 78408},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2418, col: 5, offset: 78383},
+					pos: position{line: 2419, col: 5, offset: 78408},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2935, col: 11, offset: 92703},
+							pos: position{line: 2949, col: 11, offset: 93158},
 							expr: &anyMatcher{
-								line: 2935, col: 13, offset: 92705,
+								line: 2949, col: 13, offset: 93160,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2419, col: 5, offset: 78394},
+							pos:   position{line: 2420, col: 5, offset: 78419},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2420, col: 9, offset: 78412},
+								pos: position{line: 2421, col: 9, offset: 78437},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88758},
+										pos: position{line: 2795, col: 5, offset: 88919},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2790, col: 5, offset: 88758},
+											pos: position{line: 2795, col: 5, offset: 88919},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2795, col: 5, offset: 88919},
+													expr: &seqExpr{
+														pos: position{line: 2796, col: 9, offset: 88930},
+														exprs: []interface{}{
+															&andCodeExpr{
+																pos: position{line: 2796, col: 9, offset: 88930},
+																run: (*parser).callonAttributeStructuredValueElement11,
+															},
+															&labeledExpr{
+																pos:   position{line: 2799, col: 9, offset: 88993},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2771, col: 18, offset: 88305},
+																	run: (*parser).callonAttributeStructuredValueElement13,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2771, col: 19, offset: 88306},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2799, col: 30, offset: 89014},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2800, col: 9, offset: 89101},
+																run: (*parser).callonAttributeStructuredValueElement17,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2790, col: 5, offset: 88758},
+													pos:   position{line: 2804, col: 5, offset: 89213},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2790, col: 11, offset: 88764},
-														run: (*parser).callonAttributeStructuredValueElement10,
+														pos: position{line: 2804, col: 11, offset: 89219},
+														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2790, col: 11, offset: 88764},
+															pos: position{line: 2804, col: 11, offset: 89219},
 															expr: &charClassMatcher{
-																pos:        position{line: 2790, col: 11, offset: 88764},
+																pos:        position{line: 2804, col: 11, offset: 89219},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48448,32 +48657,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2793, col: 5, offset: 88822},
+													pos: position{line: 2807, col: 5, offset: 89277},
 													expr: &seqExpr{
-														pos: position{line: 2794, col: 9, offset: 88833},
+														pos: position{line: 2808, col: 9, offset: 89288},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2794, col: 9, offset: 88833},
+																pos:        position{line: 2808, col: 9, offset: 89288},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2795, col: 9, offset: 88882},
-																run: (*parser).callonAttributeStructuredValueElement16,
+																pos: position{line: 2809, col: 9, offset: 89337},
+																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2799, col: 5, offset: 88962},
+													pos: position{line: 2813, col: 5, offset: 89417},
 													expr: &seqExpr{
-														pos: position{line: 2800, col: 9, offset: 88973},
+														pos: position{line: 2814, col: 9, offset: 89428},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2800, col: 9, offset: 88973},
+																pos: position{line: 2814, col: 9, offset: 89428},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2800, col: 9, offset: 88973},
+																	pos:        position{line: 2814, col: 9, offset: 89428},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48482,13 +48691,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 23, offset: 88987},
+																pos:        position{line: 2814, col: 23, offset: 89442},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2800, col: 27, offset: 88991},
+																pos:        position{line: 2814, col: 27, offset: 89446},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48501,10 +48710,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2918, col: 10, offset: 92369},
-										run: (*parser).callonAttributeStructuredValueElement23,
+										pos: position{line: 2932, col: 10, offset: 92824},
+										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2918, col: 10, offset: 92369},
+											pos:        position{line: 2932, col: 10, offset: 92824},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48512,31 +48721,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78450},
+										pos:  position{line: 2423, col: 11, offset: 78475},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2808, col: 5, offset: 89184},
-										run: (*parser).callonAttributeStructuredValueElement26,
+										pos: position{line: 2822, col: 5, offset: 89639},
+										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &choiceExpr{
-											pos: position{line: 2809, col: 9, offset: 89194},
+											pos: position{line: 2823, col: 9, offset: 89649},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2809, col: 10, offset: 89195},
+													pos:        position{line: 2823, col: 10, offset: 89650},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 13, offset: 89292},
+													pos: position{line: 2825, col: 13, offset: 89747},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2811, col: 13, offset: 89292},
-															run: (*parser).callonAttributeStructuredValueElement30,
+															pos: position{line: 2825, col: 13, offset: 89747},
+															run: (*parser).callonAttributeStructuredValueElement39,
 														},
 														&litMatcher{
-															pos:        position{line: 2814, col: 13, offset: 89392},
+															pos:        position{line: 2828, col: 13, offset: 89847},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48544,20 +48753,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2814, col: 19, offset: 89398},
+													pos:        position{line: 2828, col: 19, offset: 89853},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2817, col: 13, offset: 89436},
+													pos: position{line: 2831, col: 13, offset: 89891},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2817, col: 13, offset: 89436},
-															run: (*parser).callonAttributeStructuredValueElement34,
+															pos: position{line: 2831, col: 13, offset: 89891},
+															run: (*parser).callonAttributeStructuredValueElement43,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2820, col: 14, offset: 89529},
+															pos:        position{line: 2834, col: 14, offset: 89984},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48566,18 +48775,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 12, offset: 89573},
+													pos: position{line: 2836, col: 12, offset: 90028},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2822, col: 12, offset: 89573},
+															pos:        position{line: 2836, col: 12, offset: 90028},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2822, col: 16, offset: 89577},
+															pos: position{line: 2836, col: 16, offset: 90032},
 															expr: &litMatcher{
-																pos:        position{line: 2822, col: 17, offset: 89578},
+																pos:        position{line: 2836, col: 17, offset: 90033},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48589,31 +48798,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78523},
+										pos:  position{line: 2425, col: 11, offset: 78548},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78539},
+										pos:  position{line: 2426, col: 11, offset: 78564},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80047},
-										run: (*parser).callonAttributeStructuredValueElement42,
+										pos: position{line: 2489, col: 5, offset: 80072},
+										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80047},
+											pos: position{line: 2489, col: 5, offset: 80072},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2488, col: 5, offset: 80047},
-													run: (*parser).callonAttributeStructuredValueElement44,
+													pos: position{line: 2489, col: 5, offset: 80072},
+													run: (*parser).callonAttributeStructuredValueElement53,
 												},
 												&labeledExpr{
-													pos:   position{line: 2491, col: 5, offset: 80123},
+													pos:   position{line: 2492, col: 5, offset: 80148},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2492, col: 9, offset: 80141},
-														run: (*parser).callonAttributeStructuredValueElement46,
+														pos: position{line: 2493, col: 9, offset: 80166},
+														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &charClassMatcher{
-															pos:        position{line: 2492, col: 10, offset: 80142},
+															pos:        position{line: 2493, col: 10, offset: 80167},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48626,7 +48835,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1226, col: 23, offset: 37843},
-										run: (*parser).callonAttributeStructuredValueElement48,
+										run: (*parser).callonAttributeStructuredValueElement57,
 										expr: &seqExpr{
 											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
@@ -48641,7 +48850,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1226, col: 56, offset: 37876},
-														run: (*parser).callonAttributeStructuredValueElement52,
+														run: (*parser).callonAttributeStructuredValueElement61,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
@@ -48664,25 +48873,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2927, col: 12, offset: 92540},
-										run: (*parser).callonAttributeStructuredValueElement56,
+										pos: position{line: 2941, col: 12, offset: 92995},
+										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &choiceExpr{
-											pos: position{line: 2927, col: 13, offset: 92541},
+											pos: position{line: 2941, col: 13, offset: 92996},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2927, col: 13, offset: 92541},
+													pos:        position{line: 2941, col: 13, offset: 92996},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 20, offset: 92548},
+													pos:        position{line: 2941, col: 20, offset: 93003},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2927, col: 29, offset: 92557},
+													pos:        position{line: 2941, col: 29, offset: 93012},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48691,10 +48900,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2830, col: 12, offset: 89838},
-										run: (*parser).callonAttributeStructuredValueElement61,
+										pos: position{line: 2844, col: 12, offset: 90293},
+										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &charClassMatcher{
-											pos:        position{line: 2830, col: 12, offset: 89838},
+											pos:        position{line: 2844, col: 12, offset: 90293},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48710,49 +48919,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2436, col: 1, offset: 78809},
+			pos:  position{line: 2437, col: 1, offset: 78834},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78891},
+				pos: position{line: 2439, col: 5, offset: 78916},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78891},
+					pos: position{line: 2439, col: 5, offset: 78916},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78891},
+							pos: position{line: 2439, col: 5, offset: 78916},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78956},
+							pos:   position{line: 2442, col: 5, offset: 78981},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2442, col: 9, offset: 78974},
+								pos: position{line: 2443, col: 9, offset: 78999},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 9, offset: 78974},
+										pos:  position{line: 2443, col: 9, offset: 78999},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78995},
+										pos:  position{line: 2444, col: 11, offset: 79020},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 79018},
+										pos:  position{line: 2445, col: 11, offset: 79043},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 79034},
+										pos:  position{line: 2446, col: 11, offset: 79059},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79063},
+										pos:  position{line: 2447, col: 11, offset: 79088},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79089},
+										pos:  position{line: 2448, col: 11, offset: 79114},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79115},
+										pos:  position{line: 2449, col: 11, offset: 79140},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -48771,12 +48980,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 92021},
+														pos: position{line: 2917, col: 7, offset: 92476},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 92021},
+															pos: position{line: 2917, col: 7, offset: 92476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 92021},
+																pos:        position{line: 2917, col: 7, offset: 92476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48810,12 +49019,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39848},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 7, offset: 92021},
+														pos: position{line: 2917, col: 7, offset: 92476},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2903, col: 7, offset: 92021},
+															pos: position{line: 2917, col: 7, offset: 92476},
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 7, offset: 92021},
+																pos:        position{line: 2917, col: 7, offset: 92476},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48857,17 +49066,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41670},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2781, col: 13, offset: 88611},
+																		pos:        position{line: 2786, col: 13, offset: 88772},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2918, col: 10, offset: 92369},
+																		pos: position{line: 2932, col: 10, offset: 92824},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2918, col: 10, offset: 92369},
+																			pos:        position{line: 2932, col: 10, offset: 92824},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -48893,10 +49102,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41384},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48913,10 +49122,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41395},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48936,17 +49145,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2781, col: 13, offset: 88611},
+																							pos:        position{line: 2786, col: 13, offset: 88772},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -48977,10 +49186,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41476},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48997,10 +49206,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41487},
 																		expr: &actionExpr{
-																			pos: position{line: 2918, col: 10, offset: 92369},
+																			pos: position{line: 2932, col: 10, offset: 92824},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2918, col: 10, offset: 92369},
+																				pos:        position{line: 2932, col: 10, offset: 92824},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49020,17 +49229,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41670},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2781, col: 13, offset: 88611},
+																							pos:        position{line: 2786, col: 13, offset: 88772},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2918, col: 10, offset: 92369},
+																							pos: position{line: 2932, col: 10, offset: 92824},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2918, col: 10, offset: 92369},
+																								pos:        position{line: 2932, col: 10, offset: 92824},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49057,15 +49266,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2451, col: 11, offset: 79194},
+										pos:  position{line: 2452, col: 11, offset: 79219},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2452, col: 11, offset: 79214},
+										pos:  position{line: 2453, col: 11, offset: 79239},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79237},
+										pos:  position{line: 2454, col: 11, offset: 79262},
 										name: "InlineMenu",
 									},
 								},
@@ -49077,22 +49286,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2457, col: 1, offset: 79294},
+			pos:  position{line: 2458, col: 1, offset: 79319},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79382},
+				pos: position{line: 2460, col: 5, offset: 79407},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79382},
+					pos: position{line: 2460, col: 5, offset: 79407},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79382},
+							pos: position{line: 2460, col: 5, offset: 79407},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79459},
+							pos:   position{line: 2463, col: 5, offset: 79484},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2463, col: 9, offset: 79477},
+								pos: position{line: 2464, col: 9, offset: 79502},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44939},
@@ -49147,10 +49356,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45385},
 																				expr: &actionExpr{
-																					pos: position{line: 2918, col: 10, offset: 92369},
+																					pos: position{line: 2932, col: 10, offset: 92824},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2918, col: 10, offset: 92369},
+																						pos:        position{line: 2932, col: 10, offset: 92824},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49161,25 +49370,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45392},
 																				expr: &actionExpr{
-																					pos: position{line: 2927, col: 12, offset: 92540},
+																					pos: position{line: 2941, col: 12, offset: 92995},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2927, col: 13, offset: 92541},
+																						pos: position{line: 2941, col: 13, offset: 92996},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 13, offset: 92541},
+																								pos:        position{line: 2941, col: 13, offset: 92996},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 20, offset: 92548},
+																								pos:        position{line: 2941, col: 20, offset: 93003},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2927, col: 29, offset: 92557},
+																								pos:        position{line: 2941, col: 29, offset: 93012},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49216,7 +49425,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2781, col: 13, offset: 88611},
+														pos:        position{line: 2786, col: 13, offset: 88772},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49262,10 +49471,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44494},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49276,25 +49485,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44501},
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49317,12 +49526,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44516},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2922, col: 11, offset: 92430},
+																									pos: position{line: 2936, col: 11, offset: 92885},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2922, col: 11, offset: 92430},
+																										pos: position{line: 2936, col: 11, offset: 92885},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2922, col: 11, offset: 92430},
+																											pos:        position{line: 2936, col: 11, offset: 92885},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49351,25 +49560,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44581},
 																						expr: &actionExpr{
-																							pos: position{line: 2927, col: 12, offset: 92540},
+																							pos: position{line: 2941, col: 12, offset: 92995},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2927, col: 13, offset: 92541},
+																								pos: position{line: 2941, col: 13, offset: 92996},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 13, offset: 92541},
+																										pos:        position{line: 2941, col: 13, offset: 92996},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 20, offset: 92548},
+																										pos:        position{line: 2941, col: 20, offset: 93003},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2927, col: 29, offset: 92557},
+																										pos:        position{line: 2941, col: 29, offset: 93012},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49396,10 +49605,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44741},
 																			expr: &actionExpr{
-																				pos: position{line: 2918, col: 10, offset: 92369},
+																				pos: position{line: 2932, col: 10, offset: 92824},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2918, col: 10, offset: 92369},
+																					pos:        position{line: 2932, col: 10, offset: 92824},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49410,25 +49619,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44748},
 																			expr: &actionExpr{
-																				pos: position{line: 2927, col: 12, offset: 92540},
+																				pos: position{line: 2941, col: 12, offset: 92995},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 13, offset: 92541},
+																					pos: position{line: 2941, col: 13, offset: 92996},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 13, offset: 92541},
+																							pos:        position{line: 2941, col: 13, offset: 92996},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 20, offset: 92548},
+																							pos:        position{line: 2941, col: 20, offset: 93003},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2927, col: 29, offset: 92557},
+																							pos:        position{line: 2941, col: 29, offset: 93012},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49464,7 +49673,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44317},
 													expr: &charClassMatcher{
-														pos:        position{line: 2781, col: 13, offset: 88611},
+														pos:        position{line: 2786, col: 13, offset: 88772},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49475,7 +49684,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 57, offset: 79525},
+										pos:  position{line: 2464, col: 57, offset: 79550},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49487,16 +49696,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2468, col: 1, offset: 79585},
+			pos:  position{line: 2469, col: 1, offset: 79610},
 			expr: &seqExpr{
-				pos: position{line: 2470, col: 5, offset: 79661},
+				pos: position{line: 2471, col: 5, offset: 79686},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2470, col: 5, offset: 79661},
+						pos: position{line: 2471, col: 5, offset: 79686},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2473, col: 5, offset: 79726},
+						pos:  position{line: 2474, col: 5, offset: 79751},
 						name: "QuotedText",
 					},
 				},
@@ -49504,22 +49713,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2475, col: 1, offset: 79739},
+			pos:  position{line: 2476, col: 1, offset: 79764},
 			expr: &actionExpr{
-				pos: position{line: 2477, col: 5, offset: 79821},
+				pos: position{line: 2478, col: 5, offset: 79846},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2477, col: 5, offset: 79821},
+					pos: position{line: 2478, col: 5, offset: 79846},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2477, col: 5, offset: 79821},
+							pos: position{line: 2478, col: 5, offset: 79846},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2480, col: 5, offset: 79892},
+							pos:   position{line: 2481, col: 5, offset: 79917},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2481, col: 9, offset: 79910},
+								pos:  position{line: 2482, col: 9, offset: 79935},
 								name: "Symbol",
 							},
 						},
@@ -49529,103 +49738,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2536, col: 1, offset: 81669},
+			pos:  position{line: 2537, col: 1, offset: 81694},
 			expr: &choiceExpr{
-				pos: position{line: 2538, col: 5, offset: 81699},
+				pos: position{line: 2539, col: 5, offset: 81724},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2538, col: 5, offset: 81699},
+						pos: position{line: 2539, col: 5, offset: 81724},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2538, col: 5, offset: 81699},
+							pos: position{line: 2539, col: 5, offset: 81724},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2538, col: 5, offset: 81699},
+									pos:        position{line: 2539, col: 5, offset: 81724},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2538, col: 10, offset: 81704},
+									pos: position{line: 2539, col: 10, offset: 81729},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2538, col: 10, offset: 81704},
+											pos:  position{line: 2539, col: 10, offset: 81729},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2567, col: 14, offset: 82808},
+											pos: position{line: 2568, col: 14, offset: 82833},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2567, col: 14, offset: 82808},
+												pos:        position{line: 2568, col: 14, offset: 82833},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 14, offset: 82874},
+											pos: position{line: 2572, col: 14, offset: 82899},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2571, col: 14, offset: 82874},
+												pos:        position{line: 2572, col: 14, offset: 82899},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2575, col: 15, offset: 82943},
+											pos: position{line: 2576, col: 15, offset: 82968},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2575, col: 15, offset: 82943},
+												pos:        position{line: 2576, col: 15, offset: 82968},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2579, col: 13, offset: 83008},
+											pos: position{line: 2580, col: 13, offset: 83033},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2579, col: 13, offset: 83008},
+												pos:        position{line: 2580, col: 13, offset: 83033},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 21, offset: 83578},
+											pos: position{line: 2608, col: 21, offset: 83603},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 21, offset: 83578},
+												pos:        position{line: 2608, col: 21, offset: 83603},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2586, col: 5, offset: 83164},
+											pos: position{line: 2587, col: 5, offset: 83189},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2586, col: 5, offset: 83164},
+												pos: position{line: 2587, col: 5, offset: 83189},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2586, col: 5, offset: 83164},
+														pos:        position{line: 2587, col: 5, offset: 83189},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2587, col: 5, offset: 83174},
+														pos: position{line: 2588, col: 5, offset: 83199},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2591, col: 6, offset: 83261},
+														pos: position{line: 2592, col: 6, offset: 83286},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2918, col: 10, offset: 92369},
+																pos: position{line: 2932, col: 10, offset: 92824},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2918, col: 10, offset: 92369},
+																	pos:        position{line: 2932, col: 10, offset: 92824},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49633,30 +49842,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2591, col: 14, offset: 83269},
+																pos: position{line: 2592, col: 14, offset: 83294},
 																expr: &choiceExpr{
-																	pos: position{line: 2940, col: 8, offset: 92767},
+																	pos: position{line: 2954, col: 8, offset: 93222},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2927, col: 12, offset: 92540},
+																			pos: position{line: 2941, col: 12, offset: 92995},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2927, col: 13, offset: 92541},
+																				pos: position{line: 2941, col: 13, offset: 92996},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 13, offset: 92541},
+																						pos:        position{line: 2941, col: 13, offset: 92996},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 20, offset: 92548},
+																						pos:        position{line: 2941, col: 20, offset: 93003},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2927, col: 29, offset: 92557},
+																						pos:        position{line: 2941, col: 29, offset: 93012},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49665,9 +49874,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2937, col: 8, offset: 92717},
+																			pos: position{line: 2951, col: 8, offset: 93172},
 																			expr: &anyMatcher{
-																				line: 2937, col: 9, offset: 92718,
+																				line: 2951, col: 9, offset: 93173,
 																			},
 																		},
 																	},
@@ -49679,53 +49888,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2596, col: 5, offset: 83389},
+											pos: position{line: 2597, col: 5, offset: 83414},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2596, col: 5, offset: 83389},
+												pos: position{line: 2597, col: 5, offset: 83414},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2596, col: 5, offset: 83389},
+														pos:        position{line: 2597, col: 5, offset: 83414},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2597, col: 5, offset: 83399},
+														pos: position{line: 2598, col: 5, offset: 83424},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2601, col: 5, offset: 83488},
+														pos: position{line: 2602, col: 5, offset: 83513},
 														expr: &choiceExpr{
-															pos: position{line: 2601, col: 7, offset: 83490},
+															pos: position{line: 2602, col: 7, offset: 83515},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2781, col: 13, offset: 88611},
+																	pos:        position{line: 2786, col: 13, offset: 88772},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2927, col: 12, offset: 92540},
+																	pos: position{line: 2941, col: 12, offset: 92995},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2927, col: 13, offset: 92541},
+																		pos: position{line: 2941, col: 13, offset: 92996},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 13, offset: 92541},
+																				pos:        position{line: 2941, col: 13, offset: 92996},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 20, offset: 92548},
+																				pos:        position{line: 2941, col: 20, offset: 93003},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 29, offset: 92557},
+																				pos:        position{line: 2941, col: 29, offset: 93012},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49734,9 +49943,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -49746,30 +49955,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 20, offset: 83648},
+											pos: position{line: 2612, col: 20, offset: 83673},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 20, offset: 83648},
+												pos:        position{line: 2612, col: 20, offset: 83673},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2615, col: 21, offset: 83719},
+											pos: position{line: 2616, col: 21, offset: 83744},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2615, col: 21, offset: 83719},
+												pos:        position{line: 2616, col: 21, offset: 83744},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2619, col: 20, offset: 83789},
+											pos: position{line: 2620, col: 20, offset: 83814},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2619, col: 20, offset: 83789},
+												pos:        position{line: 2620, col: 20, offset: 83814},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -49781,73 +49990,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2542, col: 7, offset: 81959},
+						pos:  position{line: 2543, col: 7, offset: 81984},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 14, offset: 82808},
+						pos: position{line: 2568, col: 14, offset: 82833},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2567, col: 14, offset: 82808},
+							pos:        position{line: 2568, col: 14, offset: 82833},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 14, offset: 82874},
+						pos: position{line: 2572, col: 14, offset: 82899},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2571, col: 14, offset: 82874},
+							pos:        position{line: 2572, col: 14, offset: 82899},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2575, col: 15, offset: 82943},
+						pos: position{line: 2576, col: 15, offset: 82968},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2575, col: 15, offset: 82943},
+							pos:        position{line: 2576, col: 15, offset: 82968},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2579, col: 13, offset: 83008},
+						pos: position{line: 2580, col: 13, offset: 83033},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2579, col: 13, offset: 83008},
+							pos:        position{line: 2580, col: 13, offset: 83033},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 5, offset: 83164},
+						pos: position{line: 2587, col: 5, offset: 83189},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2586, col: 5, offset: 83164},
+							pos: position{line: 2587, col: 5, offset: 83189},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2586, col: 5, offset: 83164},
+									pos:        position{line: 2587, col: 5, offset: 83189},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2587, col: 5, offset: 83174},
+									pos: position{line: 2588, col: 5, offset: 83199},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2591, col: 6, offset: 83261},
+									pos: position{line: 2592, col: 6, offset: 83286},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2918, col: 10, offset: 92369},
+											pos: position{line: 2932, col: 10, offset: 92824},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 10, offset: 92369},
+												pos:        position{line: 2932, col: 10, offset: 92824},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -49855,30 +50064,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2591, col: 14, offset: 83269},
+											pos: position{line: 2592, col: 14, offset: 83294},
 											expr: &choiceExpr{
-												pos: position{line: 2940, col: 8, offset: 92767},
+												pos: position{line: 2954, col: 8, offset: 93222},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2927, col: 12, offset: 92540},
+														pos: position{line: 2941, col: 12, offset: 92995},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2927, col: 13, offset: 92541},
+															pos: position{line: 2941, col: 13, offset: 92996},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2927, col: 13, offset: 92541},
+																	pos:        position{line: 2941, col: 13, offset: 92996},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 20, offset: 92548},
+																	pos:        position{line: 2941, col: 20, offset: 93003},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2927, col: 29, offset: 92557},
+																	pos:        position{line: 2941, col: 29, offset: 93012},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -49887,9 +50096,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2937, col: 8, offset: 92717},
+														pos: position{line: 2951, col: 8, offset: 93172},
 														expr: &anyMatcher{
-															line: 2937, col: 9, offset: 92718,
+															line: 2951, col: 9, offset: 93173,
 														},
 													},
 												},
@@ -49901,53 +50110,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 5, offset: 83389},
+						pos: position{line: 2597, col: 5, offset: 83414},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 5, offset: 83389},
+							pos: position{line: 2597, col: 5, offset: 83414},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 5, offset: 83389},
+									pos:        position{line: 2597, col: 5, offset: 83414},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2597, col: 5, offset: 83399},
+									pos: position{line: 2598, col: 5, offset: 83424},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2601, col: 5, offset: 83488},
+									pos: position{line: 2602, col: 5, offset: 83513},
 									expr: &choiceExpr{
-										pos: position{line: 2601, col: 7, offset: 83490},
+										pos: position{line: 2602, col: 7, offset: 83515},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2781, col: 13, offset: 88611},
+												pos:        position{line: 2786, col: 13, offset: 88772},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2927, col: 12, offset: 92540},
+												pos: position{line: 2941, col: 12, offset: 92995},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2927, col: 13, offset: 92541},
+													pos: position{line: 2941, col: 13, offset: 92996},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2927, col: 13, offset: 92541},
+															pos:        position{line: 2941, col: 13, offset: 92996},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 20, offset: 92548},
+															pos:        position{line: 2941, col: 20, offset: 93003},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2927, col: 29, offset: 92557},
+															pos:        position{line: 2941, col: 29, offset: 93012},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -49956,9 +50165,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2937, col: 8, offset: 92717},
+												pos: position{line: 2951, col: 8, offset: 93172},
 												expr: &anyMatcher{
-													line: 2937, col: 9, offset: 92718,
+													line: 2951, col: 9, offset: 93173,
 												},
 											},
 										},
@@ -49968,40 +50177,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 21, offset: 83578},
+						pos: position{line: 2608, col: 21, offset: 83603},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 21, offset: 83578},
+							pos:        position{line: 2608, col: 21, offset: 83603},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 20, offset: 83648},
+						pos: position{line: 2612, col: 20, offset: 83673},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 20, offset: 83648},
+							pos:        position{line: 2612, col: 20, offset: 83673},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2615, col: 21, offset: 83719},
+						pos: position{line: 2616, col: 21, offset: 83744},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2615, col: 21, offset: 83719},
+							pos:        position{line: 2616, col: 21, offset: 83744},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2619, col: 20, offset: 83789},
+						pos: position{line: 2620, col: 20, offset: 83814},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2619, col: 20, offset: 83789},
+							pos:        position{line: 2620, col: 20, offset: 83814},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50012,43 +50221,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2553, col: 1, offset: 82149},
+			pos:  position{line: 2554, col: 1, offset: 82174},
 			expr: &choiceExpr{
-				pos: position{line: 2554, col: 5, offset: 82171},
+				pos: position{line: 2555, col: 5, offset: 82196},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2554, col: 5, offset: 82171},
+						pos: position{line: 2555, col: 5, offset: 82196},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2554, col: 5, offset: 82171},
+							pos: position{line: 2555, col: 5, offset: 82196},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2554, col: 5, offset: 82171},
+									pos:        position{line: 2555, col: 5, offset: 82196},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2554, col: 11, offset: 82177},
+									pos: position{line: 2555, col: 11, offset: 82202},
 									expr: &seqExpr{
-										pos: position{line: 2117, col: 5, offset: 68381},
+										pos: position{line: 2118, col: 5, offset: 68406},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2117, col: 5, offset: 68381},
+												pos:        position{line: 2118, col: 5, offset: 68406},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2118, col: 5, offset: 68390},
+												pos: position{line: 2119, col: 5, offset: 68415},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2122, col: 5, offset: 68513},
+												pos: position{line: 2123, col: 5, offset: 68538},
 												expr: &notExpr{
-													pos: position{line: 2122, col: 7, offset: 68515},
+													pos: position{line: 2123, col: 7, offset: 68540},
 													expr: &litMatcher{
-														pos:        position{line: 2122, col: 8, offset: 68516},
+														pos:        position{line: 2123, col: 8, offset: 68541},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50062,21 +50271,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 7, offset: 82330},
+						pos: position{line: 2558, col: 7, offset: 82355},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 7, offset: 82330},
+							pos: position{line: 2558, col: 7, offset: 82355},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 7, offset: 82330},
+									pos:        position{line: 2558, col: 7, offset: 82355},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2557, col: 13, offset: 82336},
+									pos: position{line: 2558, col: 13, offset: 82361},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2557, col: 14, offset: 82337},
+										pos:  position{line: 2558, col: 14, offset: 82362},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50084,38 +50293,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 7, offset: 82487},
+						pos: position{line: 2561, col: 7, offset: 82512},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2560, col: 7, offset: 82487},
+							pos: position{line: 2561, col: 7, offset: 82512},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2560, col: 7, offset: 82487},
+									pos:        position{line: 2561, col: 7, offset: 82512},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2560, col: 12, offset: 82492},
+									pos: position{line: 2561, col: 12, offset: 82517},
 									expr: &seqExpr{
-										pos: position{line: 2117, col: 5, offset: 68381},
+										pos: position{line: 2118, col: 5, offset: 68406},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2117, col: 5, offset: 68381},
+												pos:        position{line: 2118, col: 5, offset: 68406},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2118, col: 5, offset: 68390},
+												pos: position{line: 2119, col: 5, offset: 68415},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2122, col: 5, offset: 68513},
+												pos: position{line: 2123, col: 5, offset: 68538},
 												expr: &notExpr{
-													pos: position{line: 2122, col: 7, offset: 68515},
+													pos: position{line: 2123, col: 7, offset: 68540},
 													expr: &litMatcher{
-														pos:        position{line: 2122, col: 8, offset: 68516},
+														pos:        position{line: 2123, col: 8, offset: 68541},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50129,21 +50338,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2563, col: 7, offset: 82645},
+						pos: position{line: 2564, col: 7, offset: 82670},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2563, col: 7, offset: 82645},
+							pos: position{line: 2564, col: 7, offset: 82670},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2563, col: 7, offset: 82645},
+									pos:        position{line: 2564, col: 7, offset: 82670},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2563, col: 12, offset: 82650},
+									pos: position{line: 2564, col: 12, offset: 82675},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2563, col: 13, offset: 82651},
+										pos:  position{line: 2564, col: 13, offset: 82676},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50155,63 +50364,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2696, col: 1, offset: 85691},
+			pos:  position{line: 2697, col: 1, offset: 85716},
 			expr: &actionExpr{
-				pos: position{line: 2696, col: 26, offset: 85716},
+				pos: position{line: 2697, col: 26, offset: 85741},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2696, col: 26, offset: 85716},
+					pos: position{line: 2697, col: 26, offset: 85741},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2696, col: 26, offset: 85716},
+							pos:   position{line: 2697, col: 26, offset: 85741},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2696, col: 31, offset: 85721},
+								pos: position{line: 2697, col: 31, offset: 85746},
 								expr: &actionExpr{
-									pos: position{line: 2701, col: 5, offset: 85784},
+									pos: position{line: 2702, col: 5, offset: 85809},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2701, col: 5, offset: 85784},
+										pos: position{line: 2702, col: 5, offset: 85809},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2935, col: 11, offset: 92703},
+												pos: position{line: 2949, col: 11, offset: 93158},
 												expr: &anyMatcher{
-													line: 2935, col: 13, offset: 92705,
+													line: 2949, col: 13, offset: 93160,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2704, col: 5, offset: 85910},
+												pos:   position{line: 2705, col: 5, offset: 85935},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2704, col: 16, offset: 85921},
+													pos: position{line: 2705, col: 16, offset: 85946},
 													expr: &actionExpr{
-														pos: position{line: 2704, col: 17, offset: 85922},
+														pos: position{line: 2705, col: 17, offset: 85947},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2704, col: 17, offset: 85922},
+															pos: position{line: 2705, col: 17, offset: 85947},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2704, col: 17, offset: 85922},
+																	pos:   position{line: 2705, col: 17, offset: 85947},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2910, col: 12, offset: 92196},
+																		pos: position{line: 2924, col: 12, offset: 92651},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2910, col: 13, offset: 92197},
+																			pos: position{line: 2924, col: 13, offset: 92652},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2910, col: 13, offset: 92197},
+																					pos: position{line: 2924, col: 13, offset: 92652},
 																					expr: &litMatcher{
-																						pos:        position{line: 2910, col: 13, offset: 92197},
+																						pos:        position{line: 2924, col: 13, offset: 92652},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2910, col: 18, offset: 92202},
+																					pos: position{line: 2924, col: 18, offset: 92657},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2910, col: 18, offset: 92202},
+																						pos:        position{line: 2924, col: 18, offset: 92657},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50223,7 +50432,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2704, col: 27, offset: 85932},
+																	pos:        position{line: 2705, col: 27, offset: 85957},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50234,38 +50443,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 85960},
+												pos:   position{line: 2706, col: 5, offset: 85985},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 12, offset: 85967},
+													pos: position{line: 2706, col: 12, offset: 85992},
 													expr: &choiceExpr{
-														pos: position{line: 2706, col: 9, offset: 85977},
+														pos: position{line: 2707, col: 9, offset: 86002},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2706, col: 9, offset: 85977},
+																pos: position{line: 2707, col: 9, offset: 86002},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2706, col: 9, offset: 85977},
+																	pos:        position{line: 2707, col: 9, offset: 86002},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2707, col: 11, offset: 86024},
+																pos: position{line: 2708, col: 11, offset: 86049},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 11, offset: 86024},
+																	pos:        position{line: 2708, col: 11, offset: 86049},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2708, col: 11, offset: 86072},
+																pos: position{line: 2709, col: 11, offset: 86097},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 11, offset: 86072},
+																	pos:        position{line: 2709, col: 11, offset: 86097},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50276,38 +50485,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86122},
+												pos:   position{line: 2711, col: 5, offset: 86147},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 12, offset: 86129},
+													pos: position{line: 2711, col: 12, offset: 86154},
 													expr: &choiceExpr{
-														pos: position{line: 2711, col: 9, offset: 86139},
+														pos: position{line: 2712, col: 9, offset: 86164},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2711, col: 9, offset: 86139},
+																pos: position{line: 2712, col: 9, offset: 86164},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2711, col: 9, offset: 86139},
+																	pos:        position{line: 2712, col: 9, offset: 86164},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2712, col: 11, offset: 86186},
+																pos: position{line: 2713, col: 11, offset: 86211},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2712, col: 11, offset: 86186},
+																	pos:        position{line: 2713, col: 11, offset: 86211},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 11, offset: 86236},
+																pos: position{line: 2714, col: 11, offset: 86261},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 11, offset: 86236},
+																	pos:        position{line: 2714, col: 11, offset: 86261},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50318,32 +50527,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2715, col: 5, offset: 86287},
+												pos:   position{line: 2716, col: 5, offset: 86312},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2715, col: 12, offset: 86294},
+													pos: position{line: 2716, col: 12, offset: 86319},
 													expr: &choiceExpr{
-														pos: position{line: 2715, col: 13, offset: 86295},
+														pos: position{line: 2716, col: 13, offset: 86320},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2910, col: 12, offset: 92196},
+																pos: position{line: 2924, col: 12, offset: 92651},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2910, col: 13, offset: 92197},
+																	pos: position{line: 2924, col: 13, offset: 92652},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2910, col: 13, offset: 92197},
+																			pos: position{line: 2924, col: 13, offset: 92652},
 																			expr: &litMatcher{
-																				pos:        position{line: 2910, col: 13, offset: 92197},
+																				pos:        position{line: 2924, col: 13, offset: 92652},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2910, col: 18, offset: 92202},
+																			pos: position{line: 2924, col: 18, offset: 92657},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2910, col: 18, offset: 92202},
+																				pos:        position{line: 2924, col: 18, offset: 92657},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50354,10 +50563,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2715, col: 24, offset: 86306},
+																pos: position{line: 2716, col: 24, offset: 86331},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2715, col: 24, offset: 86306},
+																	pos:        position{line: 2716, col: 24, offset: 86331},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50368,15 +50577,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2716, col: 5, offset: 86348},
+												pos:   position{line: 2717, col: 5, offset: 86373},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2716, col: 11, offset: 86354},
+													pos: position{line: 2717, col: 11, offset: 86379},
 													expr: &actionExpr{
-														pos: position{line: 2716, col: 12, offset: 86355},
+														pos: position{line: 2717, col: 12, offset: 86380},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2716, col: 12, offset: 86355},
+															pos:        position{line: 2717, col: 12, offset: 86380},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50386,12 +50595,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2718, col: 5, offset: 86485},
+												pos:   position{line: 2719, col: 5, offset: 86510},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2718, col: 11, offset: 86491},
+													pos: position{line: 2719, col: 11, offset: 86516},
 													expr: &litMatcher{
-														pos:        position{line: 2718, col: 12, offset: 86492},
+														pos:        position{line: 2719, col: 12, offset: 86517},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50399,7 +50608,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2719, col: 5, offset: 86502},
+												pos: position{line: 2720, col: 5, offset: 86527},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50408,9 +50617,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2937, col: 8, offset: 92717},
+							pos: position{line: 2951, col: 8, offset: 93172},
 							expr: &anyMatcher{
-								line: 2937, col: 9, offset: 92718,
+								line: 2951, col: 9, offset: 93173,
 							},
 						},
 					},
@@ -50419,23 +50628,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2746, col: 1, offset: 87511},
+			pos:  position{line: 2747, col: 1, offset: 87536},
 			expr: &actionExpr{
-				pos: position{line: 2747, col: 5, offset: 87534},
+				pos: position{line: 2748, col: 5, offset: 87559},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2747, col: 5, offset: 87534},
+					pos: position{line: 2748, col: 5, offset: 87559},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87534},
+							pos:   position{line: 2748, col: 5, offset: 87559},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2770, col: 18, offset: 88275},
+								pos: position{line: 2771, col: 18, offset: 88305},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2770, col: 19, offset: 88276},
+									pos: position{line: 2771, col: 19, offset: 88306},
 									expr: &charClassMatcher{
-										pos:        position{line: 2770, col: 19, offset: 88276},
+										pos:        position{line: 2771, col: 19, offset: 88306},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50446,64 +50655,108 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2748, col: 5, offset: 87560},
+							pos: position{line: 2749, col: 5, offset: 87585},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2752, col: 5, offset: 87688},
+							pos:        position{line: 2753, col: 5, offset: 87713},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2753, col: 5, offset: 87698},
+							pos:   position{line: 2754, col: 5, offset: 87723},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2774, col: 19, offset: 88351},
+								pos: position{line: 2779, col: 24, offset: 88467},
 								run: (*parser).callonUserMacroBlock10,
-								expr: &zeroOrMoreExpr{
-									pos: position{line: 2774, col: 19, offset: 88351},
-									expr: &charClassMatcher{
-										pos:        position{line: 2774, col: 19, offset: 88351},
-										val:        "[^:[ \\r\\n]",
-										chars:      []rune{':', '[', ' ', '\r', '\n'},
-										ignoreCase: false,
-										inverted:   true,
+								expr: &zeroOrOneExpr{
+									pos: position{line: 2779, col: 24, offset: 88467},
+									expr: &seqExpr{
+										pos: position{line: 2779, col: 25, offset: 88468},
+										exprs: []interface{}{
+											&notExpr{
+												pos: position{line: 2779, col: 25, offset: 88468},
+												expr: &litMatcher{
+													pos:        position{line: 2779, col: 26, offset: 88469},
+													val:        ":",
+													ignoreCase: false,
+													want:       "\":\"",
+												},
+											},
+											&oneOrMoreExpr{
+												pos: position{line: 2779, col: 30, offset: 88473},
+												expr: &charClassMatcher{
+													pos:        position{line: 2779, col: 30, offset: 88473},
+													val:        "[^[ \\r\\n]",
+													chars:      []rune{'[', ' ', '\r', '\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 2779, col: 41, offset: 88484},
+												expr: &seqExpr{
+													pos: position{line: 2779, col: 42, offset: 88485},
+													exprs: []interface{}{
+														&oneOrMoreExpr{
+															pos: position{line: 2779, col: 42, offset: 88485},
+															expr: &litMatcher{
+																pos:        position{line: 2779, col: 42, offset: 88485},
+																val:        " ",
+																ignoreCase: false,
+																want:       "\" \"",
+															},
+														},
+														&oneOrMoreExpr{
+															pos: position{line: 2779, col: 47, offset: 88490},
+															expr: &charClassMatcher{
+																pos:        position{line: 2779, col: 47, offset: 88490},
+																val:        "[^[ \\r\\n]",
+																chars:      []rune{'[', ' ', '\r', '\n'},
+																ignoreCase: false,
+																inverted:   true,
+															},
+														},
+													},
+												},
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87726},
+							pos:   position{line: 2755, col: 5, offset: 87756},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2754, col: 17, offset: 87738},
+								pos:  position{line: 2755, col: 17, offset: 87768},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2940, col: 8, offset: 92767},
+							pos: position{line: 2954, col: 8, offset: 93222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2927, col: 12, offset: 92540},
-									run: (*parser).callonUserMacroBlock16,
+									pos: position{line: 2941, col: 12, offset: 92995},
+									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2927, col: 13, offset: 92541},
+										pos: position{line: 2941, col: 13, offset: 92996},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2927, col: 13, offset: 92541},
+												pos:        position{line: 2941, col: 13, offset: 92996},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 20, offset: 92548},
+												pos:        position{line: 2941, col: 20, offset: 93003},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2927, col: 29, offset: 92557},
+												pos:        position{line: 2941, col: 29, offset: 93012},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50512,9 +50765,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2937, col: 8, offset: 92717},
+									pos: position{line: 2951, col: 8, offset: 93172},
 									expr: &anyMatcher{
-										line: 2937, col: 9, offset: 92718,
+										line: 2951, col: 9, offset: 93173,
 									},
 								},
 							},
@@ -50525,23 +50778,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2758, col: 1, offset: 87886},
+			pos:  position{line: 2759, col: 1, offset: 87916},
 			expr: &actionExpr{
-				pos: position{line: 2759, col: 5, offset: 87910},
+				pos: position{line: 2760, col: 5, offset: 87940},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2759, col: 5, offset: 87910},
+					pos: position{line: 2760, col: 5, offset: 87940},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2759, col: 5, offset: 87910},
+							pos:   position{line: 2760, col: 5, offset: 87940},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2770, col: 18, offset: 88275},
+								pos: position{line: 2771, col: 18, offset: 88305},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2770, col: 19, offset: 88276},
+									pos: position{line: 2771, col: 19, offset: 88306},
 									expr: &charClassMatcher{
-										pos:        position{line: 2770, col: 19, offset: 88276},
+										pos:        position{line: 2771, col: 19, offset: 88306},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50552,38 +50805,55 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2760, col: 5, offset: 87936},
+							pos: position{line: 2761, col: 5, offset: 87966},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2764, col: 5, offset: 88064},
+							pos:        position{line: 2765, col: 5, offset: 88094},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2765, col: 5, offset: 88073},
+							pos:   position{line: 2766, col: 5, offset: 88103},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2774, col: 19, offset: 88351},
+								pos: position{line: 2775, col: 19, offset: 88381},
 								run: (*parser).callonInlineUserMacro10,
-								expr: &zeroOrMoreExpr{
-									pos: position{line: 2774, col: 19, offset: 88351},
-									expr: &charClassMatcher{
-										pos:        position{line: 2774, col: 19, offset: 88351},
-										val:        "[^:[ \\r\\n]",
-										chars:      []rune{':', '[', ' ', '\r', '\n'},
-										ignoreCase: false,
-										inverted:   true,
+								expr: &zeroOrOneExpr{
+									pos: position{line: 2775, col: 19, offset: 88381},
+									expr: &seqExpr{
+										pos: position{line: 2775, col: 20, offset: 88382},
+										exprs: []interface{}{
+											&notExpr{
+												pos: position{line: 2775, col: 20, offset: 88382},
+												expr: &litMatcher{
+													pos:        position{line: 2775, col: 21, offset: 88383},
+													val:        ":",
+													ignoreCase: false,
+													want:       "\":\"",
+												},
+											},
+											&oneOrMoreExpr{
+												pos: position{line: 2775, col: 25, offset: 88387},
+												expr: &charClassMatcher{
+													pos:        position{line: 2775, col: 25, offset: 88387},
+													val:        "[^[ \\r\\n]",
+													chars:      []rune{'[', ' ', '\r', '\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2766, col: 5, offset: 88101},
+							pos:   position{line: 2767, col: 5, offset: 88131},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2766, col: 17, offset: 88113},
+								pos:  position{line: 2767, col: 17, offset: 88143},
 								name: "InlineAttributes",
 							},
 						},
@@ -50593,43 +50863,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2845, col: 1, offset: 90177},
+			pos:  position{line: 2859, col: 1, offset: 90632},
 			expr: &actionExpr{
-				pos: position{line: 2845, col: 17, offset: 90193},
+				pos: position{line: 2859, col: 17, offset: 90648},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2845, col: 17, offset: 90193},
+					pos:   position{line: 2859, col: 17, offset: 90648},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2866, col: 5, offset: 90778},
+						pos: position{line: 2880, col: 5, offset: 91233},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2866, col: 5, offset: 90778},
+							pos:   position{line: 2880, col: 5, offset: 91233},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2866, col: 14, offset: 90787},
+								pos: position{line: 2880, col: 14, offset: 91242},
 								expr: &choiceExpr{
-									pos: position{line: 2867, col: 9, offset: 90797},
+									pos: position{line: 2881, col: 9, offset: 91252},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2867, col: 9, offset: 90797},
+											pos: position{line: 2881, col: 9, offset: 91252},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2867, col: 9, offset: 90797},
+												pos: position{line: 2881, col: 9, offset: 91252},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2867, col: 9, offset: 90797},
+														pos: position{line: 2881, col: 9, offset: 91252},
 														expr: &litMatcher{
-															pos:        position{line: 2867, col: 10, offset: 90798},
+															pos:        position{line: 2881, col: 10, offset: 91253},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2868, col: 9, offset: 90826},
+														pos: position{line: 2882, col: 9, offset: 91281},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90827},
+															pos:        position{line: 2882, col: 10, offset: 91282},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50640,27 +50910,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2871, col: 11, offset: 91039},
+											pos: position{line: 2885, col: 11, offset: 91494},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2871, col: 11, offset: 91039},
+													pos:        position{line: 2885, col: 11, offset: 91494},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2871, col: 19, offset: 91047},
+													pos: position{line: 2885, col: 19, offset: 91502},
 													expr: &seqExpr{
-														pos: position{line: 2871, col: 21, offset: 91049},
+														pos: position{line: 2885, col: 21, offset: 91504},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2871, col: 21, offset: 91049},
+																pos: position{line: 2885, col: 21, offset: 91504},
 																expr: &actionExpr{
-																	pos: position{line: 2918, col: 10, offset: 92369},
+																	pos: position{line: 2932, col: 10, offset: 92824},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2918, col: 10, offset: 92369},
+																		pos:        position{line: 2932, col: 10, offset: 92824},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50669,11 +50939,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 28, offset: 91056},
+																pos: position{line: 2885, col: 28, offset: 91511},
 																expr: &notExpr{
-																	pos: position{line: 2937, col: 8, offset: 92717},
+																	pos: position{line: 2951, col: 8, offset: 93172},
 																	expr: &anyMatcher{
-																		line: 2937, col: 9, offset: 92718,
+																		line: 2951, col: 9, offset: 93173,
 																	},
 																},
 															},
@@ -51068,10 +51338,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2874, col: 11, offset: 91176},
+											pos: position{line: 2888, col: 11, offset: 91631},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2874, col: 11, offset: 91176},
+												pos:        position{line: 2888, col: 11, offset: 91631},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -62124,26 +62394,59 @@ func (p *parser) callonFootnoteElements1() (interface{}, error) {
 	return p.cur.onFootnoteElements1(stack["elements"])
 }
 
-func (c *current) onFootnoteElement10() (interface{}, error) {
+func (c *current) onFootnoteElement11() (bool, error) {
+	return c.hasUserMacros(), nil
+
+}
+
+func (p *parser) callonFootnoteElement11() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement11()
+}
+
+func (c *current) onFootnoteElement13() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement10() (interface{}, error) {
+func (p *parser) callonFootnoteElement13() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement10()
+	return p.cur.onFootnoteElement13()
 }
 
-func (c *current) onFootnoteElement16() (bool, error) {
+func (c *current) onFootnoteElement17(name interface{}) (bool, error) {
+	return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+
+}
+
+func (p *parser) callonFootnoteElement17() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement17(stack["name"])
+}
+
+func (c *current) onFootnoteElement19() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonFootnoteElement19() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement19()
+}
+
+func (c *current) onFootnoteElement25() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonFootnoteElement16() (bool, error) {
+func (p *parser) callonFootnoteElement25() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement16()
+	return p.cur.onFootnoteElement25()
 }
 
 func (c *current) onFootnoteElement7(text interface{}) (interface{}, error) {
@@ -62158,183 +62461,183 @@ func (p *parser) callonFootnoteElement7() (interface{}, error) {
 	return p.cur.onFootnoteElement7(stack["text"])
 }
 
-func (c *current) onFootnoteElement23() (interface{}, error) {
+func (c *current) onFootnoteElement32() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement23() (interface{}, error) {
+func (p *parser) callonFootnoteElement32() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement23()
+	return p.cur.onFootnoteElement32()
 }
 
-func (c *current) onFootnoteElement26() (interface{}, error) {
+func (c *current) onFootnoteElement35() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonFootnoteElement26() (interface{}, error) {
+func (p *parser) callonFootnoteElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement26()
+	return p.cur.onFootnoteElement35()
 }
 
-func (c *current) onFootnoteElement33() (bool, error) {
+func (c *current) onFootnoteElement42() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement33() (bool, error) {
+func (p *parser) callonFootnoteElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement33()
+	return p.cur.onFootnoteElement42()
 }
 
-func (c *current) onFootnoteElement34() (bool, error) {
+func (c *current) onFootnoteElement43() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement34() (bool, error) {
+func (p *parser) callonFootnoteElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement34()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement31() (interface{}, error) {
+func (c *current) onFootnoteElement40() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement31() (interface{}, error) {
+func (p *parser) callonFootnoteElement40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement40()
 }
 
-func (c *current) onFootnoteElement44() (bool, error) {
+func (c *current) onFootnoteElement53() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement44() (bool, error) {
+func (p *parser) callonFootnoteElement53() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement44()
+	return p.cur.onFootnoteElement53()
 }
 
-func (c *current) onFootnoteElement48() (bool, error) {
+func (c *current) onFootnoteElement57() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement48() (bool, error) {
+func (p *parser) callonFootnoteElement57() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement48()
+	return p.cur.onFootnoteElement57()
 }
 
-func (c *current) onFootnoteElement40() (interface{}, error) {
+func (c *current) onFootnoteElement49() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement40() (interface{}, error) {
+func (p *parser) callonFootnoteElement49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement40()
+	return p.cur.onFootnoteElement49()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement66() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement66() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement66()
 }
 
-func (c *current) onFootnoteElement59() (bool, error) {
+func (c *current) onFootnoteElement68() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement59() (bool, error) {
+func (p *parser) callonFootnoteElement68() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement68()
 }
 
-func (c *current) onFootnoteElement61() (interface{}, error) {
+func (c *current) onFootnoteElement70() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement61() (interface{}, error) {
+func (p *parser) callonFootnoteElement70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement61()
+	return p.cur.onFootnoteElement70()
 }
 
-func (c *current) onFootnoteElement65() (interface{}, error) {
+func (c *current) onFootnoteElement74() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement65() (interface{}, error) {
+func (p *parser) callonFootnoteElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement65()
+	return p.cur.onFootnoteElement74()
 }
 
-func (c *current) onFootnoteElement55() (interface{}, error) {
+func (c *current) onFootnoteElement64() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement55() (interface{}, error) {
+func (p *parser) callonFootnoteElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement55()
+	return p.cur.onFootnoteElement64()
 }
 
-func (c *current) onFootnoteElement74() (bool, error) {
+func (c *current) onFootnoteElement83() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement74() (bool, error) {
+func (p *parser) callonFootnoteElement83() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement74()
+	return p.cur.onFootnoteElement83()
 }
 
-func (c *current) onFootnoteElement81() (interface{}, error) {
+func (c *current) onFootnoteElement90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement81() (interface{}, error) {
+func (p *parser) callonFootnoteElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement81()
+	return p.cur.onFootnoteElement90()
 }
 
-func (c *current) onFootnoteElement77(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -62342,201 +62645,201 @@ func (c *current) onFootnoteElement77(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement77() (interface{}, error) {
+func (p *parser) callonFootnoteElement86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement77(stack["name"])
+	return p.cur.onFootnoteElement86(stack["name"])
 }
 
-func (c *current) onFootnoteElement91() (interface{}, error) {
+func (c *current) onFootnoteElement100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement91() (interface{}, error) {
+func (p *parser) callonFootnoteElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement91()
+	return p.cur.onFootnoteElement100()
 }
 
-func (c *current) onFootnoteElement87(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement96(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement87() (interface{}, error) {
+func (p *parser) callonFootnoteElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement87(stack["name"])
+	return p.cur.onFootnoteElement96(stack["name"])
 }
 
-func (c *current) onFootnoteElement101() (interface{}, error) {
+func (c *current) onFootnoteElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement101() (interface{}, error) {
+func (p *parser) callonFootnoteElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement101()
+	return p.cur.onFootnoteElement110()
 }
 
-func (c *current) onFootnoteElement113() (interface{}, error) {
+func (c *current) onFootnoteElement122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement113() (interface{}, error) {
+func (p *parser) callonFootnoteElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement113()
+	return p.cur.onFootnoteElement122()
 }
 
-func (c *current) onFootnoteElement115() (interface{}, error) {
+func (c *current) onFootnoteElement124() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement115() (interface{}, error) {
+func (p *parser) callonFootnoteElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement115()
+	return p.cur.onFootnoteElement124()
 }
 
-func (c *current) onFootnoteElement108(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement117(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement108() (interface{}, error) {
+func (p *parser) callonFootnoteElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement108(stack["start"])
+	return p.cur.onFootnoteElement117(stack["start"])
 }
 
-func (c *current) onFootnoteElement97(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement106(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement97() (interface{}, error) {
+func (p *parser) callonFootnoteElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement97(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement106(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement123() (interface{}, error) {
+func (c *current) onFootnoteElement132() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement123() (interface{}, error) {
+func (p *parser) callonFootnoteElement132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement123()
+	return p.cur.onFootnoteElement132()
 }
 
-func (c *current) onFootnoteElement135() (interface{}, error) {
+func (c *current) onFootnoteElement144() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement135() (interface{}, error) {
+func (p *parser) callonFootnoteElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement135()
+	return p.cur.onFootnoteElement144()
 }
 
-func (c *current) onFootnoteElement137() (interface{}, error) {
+func (c *current) onFootnoteElement146() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement137() (interface{}, error) {
+func (p *parser) callonFootnoteElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement137()
+	return p.cur.onFootnoteElement146()
 }
 
-func (c *current) onFootnoteElement130(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement139(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement130() (interface{}, error) {
+func (p *parser) callonFootnoteElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement130(stack["start"])
+	return p.cur.onFootnoteElement139(stack["start"])
 }
 
-func (c *current) onFootnoteElement119(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement128(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement119() (interface{}, error) {
+func (p *parser) callonFootnoteElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement119(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement128(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement72(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement81(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement72() (interface{}, error) {
+func (p *parser) callonFootnoteElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement72(stack["element"])
+	return p.cur.onFootnoteElement81(stack["element"])
 }
 
-func (c *current) onFootnoteElement143() (bool, error) {
+func (c *current) onFootnoteElement152() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement143() (bool, error) {
+func (p *parser) callonFootnoteElement152() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement143()
+	return p.cur.onFootnoteElement152()
 }
 
-func (c *current) onFootnoteElement145() (interface{}, error) {
+func (c *current) onFootnoteElement154() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145()
+	return p.cur.onFootnoteElement154()
 }
 
-func (c *current) onFootnoteElement141(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement150(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement141() (interface{}, error) {
+func (p *parser) callonFootnoteElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141(stack["element"])
+	return p.cur.onFootnoteElement150(stack["element"])
 }
 
-func (c *current) onFootnoteElement147() (interface{}, error) {
+func (c *current) onFootnoteElement156() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement147() (interface{}, error) {
+func (p *parser) callonFootnoteElement156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement147()
+	return p.cur.onFootnoteElement156()
 }
 
-func (c *current) onFootnoteElement152() (interface{}, error) {
+func (c *current) onFootnoteElement161() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -62545,10 +62848,10 @@ func (c *current) onFootnoteElement152() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement152() (interface{}, error) {
+func (p *parser) callonFootnoteElement161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement152()
+	return p.cur.onFootnoteElement161()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -70678,708 +70981,708 @@ func (p *parser) callonListContinuationElement1299() (interface{}, error) {
 	return p.cur.onListContinuationElement1299()
 }
 
-func (c *current) onListContinuationElement1347() (interface{}, error) {
+func (c *current) onListContinuationElement1348() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1347() (interface{}, error) {
+func (p *parser) callonListContinuationElement1348() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1347()
+	return p.cur.onListContinuationElement1348()
 }
 
-func (c *current) onListContinuationElement1350() (interface{}, error) {
+func (c *current) onListContinuationElement1351() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1350() (interface{}, error) {
+func (p *parser) callonListContinuationElement1351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1350()
+	return p.cur.onListContinuationElement1351()
 }
 
-func (c *current) onListContinuationElement1365() (interface{}, error) {
+func (c *current) onListContinuationElement1366() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1365() (interface{}, error) {
+func (p *parser) callonListContinuationElement1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1365()
+	return p.cur.onListContinuationElement1366()
 }
 
-func (c *current) onListContinuationElement1368() (interface{}, error) {
+func (c *current) onListContinuationElement1369() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1368() (interface{}, error) {
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1368()
+	return p.cur.onListContinuationElement1369()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1361() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1361() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1361()
 }
 
-func (c *current) onListContinuationElement1382() (interface{}, error) {
+func (c *current) onListContinuationElement1383() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1382() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1382()
+	return p.cur.onListContinuationElement1383()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1386() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1386()
 }
 
-func (c *current) onListContinuationElement1407() (interface{}, error) {
+func (c *current) onListContinuationElement1408() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407()
+	return p.cur.onListContinuationElement1408()
 }
 
-func (c *current) onListContinuationElement1412() (interface{}, error) {
+func (c *current) onListContinuationElement1413() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1412() (interface{}, error) {
+func (p *parser) callonListContinuationElement1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1412()
+	return p.cur.onListContinuationElement1413()
 }
 
-func (c *current) onListContinuationElement1410(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1411(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410(stack["content"])
+	return p.cur.onListContinuationElement1411(stack["content"])
 }
 
-func (c *current) onListContinuationElement1403(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1404(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1403() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1403(stack["content"])
+	return p.cur.onListContinuationElement1404(stack["content"])
 }
 
-func (c *current) onListContinuationElement1416() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1416() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1416()
+	return p.cur.onListContinuationElement1417()
 }
 
-func (c *current) onListContinuationElement1399(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1400(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1399() (interface{}, error) {
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1399(stack["cells"])
+	return p.cur.onListContinuationElement1400(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1433() (interface{}, error) {
+func (c *current) onListContinuationElement1434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1433() (interface{}, error) {
+func (p *parser) callonListContinuationElement1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1433()
+	return p.cur.onListContinuationElement1434()
 }
 
-func (c *current) onListContinuationElement1436() (interface{}, error) {
+func (c *current) onListContinuationElement1437() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1436() (interface{}, error) {
+func (p *parser) callonListContinuationElement1437() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1436()
+	return p.cur.onListContinuationElement1437()
 }
 
-func (c *current) onListContinuationElement1451() (interface{}, error) {
+func (c *current) onListContinuationElement1452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1451() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1451()
+	return p.cur.onListContinuationElement1452()
 }
 
-func (c *current) onListContinuationElement1454() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1454() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1454()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1447() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1447()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1464() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1464()
 }
 
-func (c *current) onListContinuationElement1468() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1468() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1468()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1471() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1471() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1471()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1485() (interface{}, error) {
+func (c *current) onListContinuationElement1486() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1485() (interface{}, error) {
+func (p *parser) callonListContinuationElement1486() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1485()
+	return p.cur.onListContinuationElement1486()
 }
 
-func (c *current) onListContinuationElement1488() (interface{}, error) {
+func (c *current) onListContinuationElement1489() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1488() (interface{}, error) {
+func (p *parser) callonListContinuationElement1489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1488()
+	return p.cur.onListContinuationElement1489()
 }
 
-func (c *current) onListContinuationElement1503() (interface{}, error) {
+func (c *current) onListContinuationElement1504() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1503() (interface{}, error) {
+func (p *parser) callonListContinuationElement1504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1503()
+	return p.cur.onListContinuationElement1504()
 }
 
-func (c *current) onListContinuationElement1506() (interface{}, error) {
+func (c *current) onListContinuationElement1507() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1506() (interface{}, error) {
+func (p *parser) callonListContinuationElement1507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1506()
+	return p.cur.onListContinuationElement1507()
 }
 
-func (c *current) onListContinuationElement1498() (interface{}, error) {
+func (c *current) onListContinuationElement1499() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1498() (interface{}, error) {
+func (p *parser) callonListContinuationElement1499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1498()
+	return p.cur.onListContinuationElement1499()
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1518() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1518()
 }
 
-func (c *current) onListContinuationElement1522() (interface{}, error) {
+func (c *current) onListContinuationElement1523() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1522() (interface{}, error) {
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1522()
+	return p.cur.onListContinuationElement1523()
 }
 
-func (c *current) onListContinuationElement1527() (interface{}, error) {
+func (c *current) onListContinuationElement1528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1527() (interface{}, error) {
+func (p *parser) callonListContinuationElement1528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1527()
+	return p.cur.onListContinuationElement1528()
 }
 
-func (c *current) onListContinuationElement1478(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1479(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1478() (interface{}, error) {
+func (p *parser) callonListContinuationElement1479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1478(stack["content"])
+	return p.cur.onListContinuationElement1479(stack["content"])
 }
 
-func (c *current) onListContinuationElement1426(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1427(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1426() (interface{}, error) {
+func (p *parser) callonListContinuationElement1427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1426(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1427(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1423(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1424(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1423() (interface{}, error) {
+func (p *parser) callonListContinuationElement1424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1423(stack["cells"])
+	return p.cur.onListContinuationElement1424(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1396(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1397(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1396() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1396(stack["cells"])
+	return p.cur.onListContinuationElement1397(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1539() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1539() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1539()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1542() (interface{}, error) {
+func (c *current) onListContinuationElement1543() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1542() (interface{}, error) {
+func (p *parser) callonListContinuationElement1543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1542()
+	return p.cur.onListContinuationElement1543()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1535() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1535()
 }
 
-func (c *current) onListContinuationElement1375(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1376(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1375() (interface{}, error) {
+func (p *parser) callonListContinuationElement1376() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1375(stack["content"])
+	return p.cur.onListContinuationElement1376(stack["content"])
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1554() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1554()
 }
 
-func (c *current) onListContinuationElement1556() (interface{}, error) {
+func (c *current) onListContinuationElement1557() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1556() (interface{}, error) {
+func (p *parser) callonListContinuationElement1557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1556()
+	return p.cur.onListContinuationElement1557()
 }
 
-func (c *current) onListContinuationElement1343(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1344(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343(stack["lines"])
+	return p.cur.onListContinuationElement1344(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1572() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1572()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1576() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1576()
 }
 
-func (c *current) onListContinuationElement1565(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1566(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1565() (interface{}, error) {
+func (p *parser) callonListContinuationElement1566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1565(stack["content"])
+	return p.cur.onListContinuationElement1566(stack["content"])
 }
 
-func (c *current) onListContinuationElement1588() (bool, error) {
+func (c *current) onListContinuationElement1589() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (bool, error) {
+func (p *parser) callonListContinuationElement1589() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1589()
 }
 
-func (c *current) onListContinuationElement1591() (interface{}, error) {
+func (c *current) onListContinuationElement1592() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1591() (interface{}, error) {
+func (p *parser) callonListContinuationElement1592() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1591()
+	return p.cur.onListContinuationElement1592()
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1594() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1594()
 }
 
-func (c *current) onListContinuationElement1595() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1595() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1595()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1597() (interface{}, error) {
+func (c *current) onListContinuationElement1598() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1597() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1597()
+	return p.cur.onListContinuationElement1598()
 }
 
-func (c *current) onListContinuationElement1599() (interface{}, error) {
+func (c *current) onListContinuationElement1600() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonListContinuationElement1600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599()
+	return p.cur.onListContinuationElement1600()
 }
 
-func (c *current) onListContinuationElement1603() (interface{}, error) {
+func (c *current) onListContinuationElement1604() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1603() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1603()
+	return p.cur.onListContinuationElement1604()
 }
 
-func (c *current) onListContinuationElement1601() (interface{}, error) {
+func (c *current) onListContinuationElement1602() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1601() (interface{}, error) {
+func (p *parser) callonListContinuationElement1602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1601()
+	return p.cur.onListContinuationElement1602()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1613() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1613()
 }
 
-func (c *current) onListContinuationElement1586(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1587(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1586(stack["style"])
+	return p.cur.onListContinuationElement1587(stack["style"])
 }
 
-func (c *current) onListContinuationElement1628() (interface{}, error) {
+func (c *current) onListContinuationElement1629() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628()
+	return p.cur.onListContinuationElement1629()
 }
 
-func (c *current) onListContinuationElement1631() (interface{}, error) {
+func (c *current) onListContinuationElement1632() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631()
+	return p.cur.onListContinuationElement1632()
 }
 
-func (c *current) onListContinuationElement1623() (interface{}, error) {
+func (c *current) onListContinuationElement1624() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1623() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1623()
+	return p.cur.onListContinuationElement1624()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1643() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1643()
 }
 
-func (c *current) onListContinuationElement1644() (interface{}, error) {
+func (c *current) onListContinuationElement1645() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644()
+	return p.cur.onListContinuationElement1645()
 }
 
-func (c *current) onListContinuationElement1653() (interface{}, error) {
+func (c *current) onListContinuationElement1654() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1653() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1653()
+	return p.cur.onListContinuationElement1654()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1661() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1663(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1664(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1663() (bool, error) {
+func (p *parser) callonListContinuationElement1664() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1663(stack["depth"])
+	return p.cur.onListContinuationElement1664(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1657(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1658(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -71395,849 +71698,849 @@ func (c *current) onListContinuationElement1657(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1657() (interface{}, error) {
+func (p *parser) callonListContinuationElement1658() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1657(stack["depth"])
+	return p.cur.onListContinuationElement1658(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1665() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1665()
 }
 
-func (c *current) onListContinuationElement1669() (interface{}, error) {
+func (c *current) onListContinuationElement1670() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+func (p *parser) callonListContinuationElement1670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1669()
+	return p.cur.onListContinuationElement1670()
 }
 
-func (c *current) onListContinuationElement1673() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1673() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1677() (interface{}, error) {
+func (c *current) onListContinuationElement1678() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1677() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1677()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1682() (interface{}, error) {
+func (c *current) onListContinuationElement1683() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1682() (interface{}, error) {
+func (p *parser) callonListContinuationElement1683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1682()
+	return p.cur.onListContinuationElement1683()
 }
 
-func (c *current) onListContinuationElement1687(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1688(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1687() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1687(stack["prefix"])
+	return p.cur.onListContinuationElement1688(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1650(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1651(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1650() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650(stack["prefix"])
+	return p.cur.onListContinuationElement1651(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1694() (interface{}, error) {
+func (c *current) onListContinuationElement1695() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694()
+	return p.cur.onListContinuationElement1695()
 }
 
-func (c *current) onListContinuationElement1697() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1697() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1697()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1702(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1703(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1702() (bool, error) {
+func (p *parser) callonListContinuationElement1703() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1702(stack["style"])
+	return p.cur.onListContinuationElement1703(stack["style"])
 }
 
-func (c *current) onListContinuationElement1703(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1704(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1703() (interface{}, error) {
+func (p *parser) callonListContinuationElement1704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1703(stack["style"])
+	return p.cur.onListContinuationElement1704(stack["style"])
 }
 
-func (c *current) onListContinuationElement1691(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1692(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1691() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1691(stack["style"])
+	return p.cur.onListContinuationElement1692(stack["style"])
 }
 
-func (c *current) onListContinuationElement1711() (interface{}, error) {
+func (c *current) onListContinuationElement1712() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1711() (interface{}, error) {
+func (p *parser) callonListContinuationElement1712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711()
+	return p.cur.onListContinuationElement1712()
 }
 
-func (c *current) onListContinuationElement1715(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1716(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1715() (interface{}, error) {
+func (p *parser) callonListContinuationElement1716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715(stack["ref"])
+	return p.cur.onListContinuationElement1716(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1707(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1708(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1708() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707(stack["ref"])
+	return p.cur.onListContinuationElement1708(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1727() (interface{}, error) {
+func (c *current) onListContinuationElement1728() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1727() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1727()
+	return p.cur.onListContinuationElement1728()
 }
 
-func (c *current) onListContinuationElement1730(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1731(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1730() (bool, error) {
+func (p *parser) callonListContinuationElement1731() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1730(stack["separator"])
+	return p.cur.onListContinuationElement1731(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1724(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1725(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1724() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1724(stack["separator"])
+	return p.cur.onListContinuationElement1725(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1733() (interface{}, error) {
+func (c *current) onListContinuationElement1734() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1733() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1733()
+	return p.cur.onListContinuationElement1734()
 }
 
-func (c *current) onListContinuationElement1720() (interface{}, error) {
+func (c *current) onListContinuationElement1721() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720()
+	return p.cur.onListContinuationElement1721()
 }
 
-func (c *current) onListContinuationElement1744() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1744() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1744()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1747(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1748(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1747() (bool, error) {
+func (p *parser) callonListContinuationElement1748() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1747(stack["separator"])
+	return p.cur.onListContinuationElement1748(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1741(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1742(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1741() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741(stack["separator"])
+	return p.cur.onListContinuationElement1742(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1749() (interface{}, error) {
+func (c *current) onListContinuationElement1750() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1750() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749()
+	return p.cur.onListContinuationElement1750()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1752() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1752() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1752()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1770() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1770()
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
+func (c *current) onListContinuationElement1776() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1778() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1778() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1778()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1766(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1767(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766(stack["delimiter"])
+	return p.cur.onListContinuationElement1767(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1789() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1789()
 }
 
-func (c *current) onListContinuationElement1794() (interface{}, error) {
+func (c *current) onListContinuationElement1795() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1794() (interface{}, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1794()
+	return p.cur.onListContinuationElement1795()
 }
 
-func (c *current) onListContinuationElement1797() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1797() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1797()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1785(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1786(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785(stack["delimiter"])
+	return p.cur.onListContinuationElement1786(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1808() (interface{}, error) {
+func (c *current) onListContinuationElement1809() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808()
+	return p.cur.onListContinuationElement1809()
 }
 
-func (c *current) onListContinuationElement1812() (interface{}, error) {
+func (c *current) onListContinuationElement1813() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1812() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1812()
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1815() (interface{}, error) {
+func (c *current) onListContinuationElement1816() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1815() (interface{}, error) {
+func (p *parser) callonListContinuationElement1816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1815()
+	return p.cur.onListContinuationElement1816()
 }
 
-func (c *current) onListContinuationElement1804(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1805(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804(stack["language"])
+	return p.cur.onListContinuationElement1805(stack["language"])
 }
 
-func (c *current) onListContinuationElement1825() (interface{}, error) {
+func (c *current) onListContinuationElement1826() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1825() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1825()
+	return p.cur.onListContinuationElement1826()
 }
 
-func (c *current) onListContinuationElement1831() (interface{}, error) {
+func (c *current) onListContinuationElement1832() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1831() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831()
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1834() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1834() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1834()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1822(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1822() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1822(stack["delimiter"])
+	return p.cur.onListContinuationElement1823(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1844() (interface{}, error) {
+func (c *current) onListContinuationElement1845() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1844() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1844()
+	return p.cur.onListContinuationElement1845()
 }
 
-func (c *current) onListContinuationElement1850() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1850() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1850()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1853() (interface{}, error) {
+func (c *current) onListContinuationElement1854() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1853() (interface{}, error) {
+func (p *parser) callonListContinuationElement1854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1853()
+	return p.cur.onListContinuationElement1854()
 }
 
-func (c *current) onListContinuationElement1841(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1841() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1841(stack["delimiter"])
+	return p.cur.onListContinuationElement1842(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1863() (interface{}, error) {
+func (c *current) onListContinuationElement1864() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1863() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1863()
+	return p.cur.onListContinuationElement1864()
 }
 
-func (c *current) onListContinuationElement1869() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1869() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1869()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1872() (interface{}, error) {
+func (c *current) onListContinuationElement1873() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1872() (interface{}, error) {
+func (p *parser) callonListContinuationElement1873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1872()
+	return p.cur.onListContinuationElement1873()
 }
 
-func (c *current) onListContinuationElement1860(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1860() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1860(stack["delimiter"])
+	return p.cur.onListContinuationElement1861(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1882() (interface{}, error) {
+func (c *current) onListContinuationElement1883() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1882() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1882()
+	return p.cur.onListContinuationElement1883()
 }
 
-func (c *current) onListContinuationElement1888() (interface{}, error) {
+func (c *current) onListContinuationElement1889() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonListContinuationElement1889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888()
+	return p.cur.onListContinuationElement1889()
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1892() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1892() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1892()
 }
 
-func (c *current) onListContinuationElement1879(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1879() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1879(stack["delimiter"])
+	return p.cur.onListContinuationElement1880(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1901() (interface{}, error) {
+func (c *current) onListContinuationElement1902() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1901() (interface{}, error) {
+func (p *parser) callonListContinuationElement1902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1901()
+	return p.cur.onListContinuationElement1902()
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1910() (interface{}, error) {
+func (c *current) onListContinuationElement1911() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1910() (interface{}, error) {
+func (p *parser) callonListContinuationElement1911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1910()
+	return p.cur.onListContinuationElement1911()
 }
 
-func (c *current) onListContinuationElement1898(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1899(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1898() (interface{}, error) {
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1898(stack["delimiter"])
+	return p.cur.onListContinuationElement1899(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1920() (interface{}, error) {
+func (c *current) onListContinuationElement1921() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1920() (interface{}, error) {
+func (p *parser) callonListContinuationElement1921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1920()
+	return p.cur.onListContinuationElement1921()
 }
 
-func (c *current) onListContinuationElement1926() (interface{}, error) {
+func (c *current) onListContinuationElement1927() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1926() (interface{}, error) {
+func (p *parser) callonListContinuationElement1927() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1926()
+	return p.cur.onListContinuationElement1927()
 }
 
-func (c *current) onListContinuationElement1929() (interface{}, error) {
+func (c *current) onListContinuationElement1930() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1929() (interface{}, error) {
+func (p *parser) callonListContinuationElement1930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1929()
+	return p.cur.onListContinuationElement1930()
 }
 
-func (c *current) onListContinuationElement1917(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1918(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1917() (interface{}, error) {
+func (p *parser) callonListContinuationElement1918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1917(stack["delimiter"])
+	return p.cur.onListContinuationElement1918(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1760(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1761(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1760() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1760(stack["delimiter"])
+	return p.cur.onListContinuationElement1761(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1939() (interface{}, error) {
+func (c *current) onListContinuationElement1940() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1939() (interface{}, error) {
+func (p *parser) callonListContinuationElement1940() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1939()
+	return p.cur.onListContinuationElement1940()
 }
 
-func (c *current) onListContinuationElement1942() (interface{}, error) {
+func (c *current) onListContinuationElement1943() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1943() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942()
+	return p.cur.onListContinuationElement1943()
 }
 
-func (c *current) onListContinuationElement1945() (interface{}, error) {
+func (c *current) onListContinuationElement1946() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1945() (interface{}, error) {
+func (p *parser) callonListContinuationElement1946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1945()
+	return p.cur.onListContinuationElement1946()
 }
 
-func (c *current) onListContinuationElement1936(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1937(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1936() (interface{}, error) {
+func (p *parser) callonListContinuationElement1937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1936(stack["delimiter"])
+	return p.cur.onListContinuationElement1937(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1955() (interface{}, error) {
+func (c *current) onListContinuationElement1956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1955() (interface{}, error) {
+func (p *parser) callonListContinuationElement1956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1955()
+	return p.cur.onListContinuationElement1956()
 }
 
-func (c *current) onListContinuationElement1958() (interface{}, error) {
+func (c *current) onListContinuationElement1959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1958() (interface{}, error) {
+func (p *parser) callonListContinuationElement1959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1958()
+	return p.cur.onListContinuationElement1959()
 }
 
-func (c *current) onListContinuationElement1966() (interface{}, error) {
+func (c *current) onListContinuationElement1967() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1966() (interface{}, error) {
+func (p *parser) callonListContinuationElement1967() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1966()
+	return p.cur.onListContinuationElement1967()
 }
 
-func (c *current) onListContinuationElement1970() (interface{}, error) {
+func (c *current) onListContinuationElement1971() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1970() (interface{}, error) {
+func (p *parser) callonListContinuationElement1971() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1970()
+	return p.cur.onListContinuationElement1971()
 }
 
-func (c *current) onListContinuationElement1620(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1621(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1620() (interface{}, error) {
+func (p *parser) callonListContinuationElement1621() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1620(stack["content"])
+	return p.cur.onListContinuationElement1621(stack["content"])
 }
 
-func (c *current) onListContinuationElement1582(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1583(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1582() (interface{}, error) {
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1582(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1583(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
@@ -74002,26 +74305,59 @@ func (p *parser) callonUnescapedQuotedText1() (interface{}, error) {
 	return p.cur.onUnescapedQuotedText1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onQuotedTextElement5() (interface{}, error) {
+func (c *current) onQuotedTextElement6() (bool, error) {
+	return c.hasUserMacros(), nil
+
+}
+
+func (p *parser) callonQuotedTextElement6() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement6()
+}
+
+func (c *current) onQuotedTextElement8() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement5() (interface{}, error) {
+func (p *parser) callonQuotedTextElement8() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement5()
+	return p.cur.onQuotedTextElement8()
 }
 
-func (c *current) onQuotedTextElement11() (bool, error) {
+func (c *current) onQuotedTextElement12(name interface{}) (bool, error) {
+	return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+
+}
+
+func (p *parser) callonQuotedTextElement12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement12(stack["name"])
+}
+
+func (c *current) onQuotedTextElement14() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonQuotedTextElement14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement14()
+}
+
+func (c *current) onQuotedTextElement20() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonQuotedTextElement11() (bool, error) {
+func (p *parser) callonQuotedTextElement20() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement11()
+	return p.cur.onQuotedTextElement20()
 }
 
 func (c *current) onQuotedTextElement2(text interface{}) (interface{}, error) {
@@ -74036,124 +74372,124 @@ func (p *parser) callonQuotedTextElement2() (interface{}, error) {
 	return p.cur.onQuotedTextElement2(stack["text"])
 }
 
-func (c *current) onQuotedTextElement18() (interface{}, error) {
+func (c *current) onQuotedTextElement27() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement18() (interface{}, error) {
+func (p *parser) callonQuotedTextElement27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement18()
+	return p.cur.onQuotedTextElement27()
 }
 
-func (c *current) onQuotedTextElement22() (interface{}, error) {
+func (c *current) onQuotedTextElement31() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonQuotedTextElement22() (interface{}, error) {
+func (p *parser) callonQuotedTextElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement22()
+	return p.cur.onQuotedTextElement31()
 }
 
-func (c *current) onQuotedTextElement29() (bool, error) {
+func (c *current) onQuotedTextElement38() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement29() (bool, error) {
+func (p *parser) callonQuotedTextElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement29()
+	return p.cur.onQuotedTextElement38()
 }
 
-func (c *current) onQuotedTextElement30() (bool, error) {
+func (c *current) onQuotedTextElement39() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement30() (bool, error) {
+func (p *parser) callonQuotedTextElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement30()
+	return p.cur.onQuotedTextElement39()
 }
 
-func (c *current) onQuotedTextElement27() (interface{}, error) {
+func (c *current) onQuotedTextElement36() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement27() (interface{}, error) {
+func (p *parser) callonQuotedTextElement36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement36()
 }
 
-func (c *current) onQuotedTextElement38() (bool, error) {
+func (c *current) onQuotedTextElement47() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement38() (bool, error) {
+func (p *parser) callonQuotedTextElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement38()
+	return p.cur.onQuotedTextElement47()
 }
 
-func (c *current) onQuotedTextElement42() (bool, error) {
+func (c *current) onQuotedTextElement51() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement42() (bool, error) {
+func (p *parser) callonQuotedTextElement51() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement42()
+	return p.cur.onQuotedTextElement51()
 }
 
-func (c *current) onQuotedTextElement34() (interface{}, error) {
+func (c *current) onQuotedTextElement43() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement34() (interface{}, error) {
+func (p *parser) callonQuotedTextElement43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement34()
+	return p.cur.onQuotedTextElement43()
 }
 
-func (c *current) onQuotedTextElement50() (bool, error) {
+func (c *current) onQuotedTextElement59() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement50() (bool, error) {
+func (p *parser) callonQuotedTextElement59() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement50()
+	return p.cur.onQuotedTextElement59()
 }
 
-func (c *current) onQuotedTextElement57() (interface{}, error) {
+func (c *current) onQuotedTextElement66() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement57() (interface{}, error) {
+func (p *parser) callonQuotedTextElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement57()
+	return p.cur.onQuotedTextElement66()
 }
 
-func (c *current) onQuotedTextElement53(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -74161,242 +74497,242 @@ func (c *current) onQuotedTextElement53(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement53() (interface{}, error) {
+func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement53(stack["name"])
+	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onQuotedTextElement67() (interface{}, error) {
+func (c *current) onQuotedTextElement76() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement67() (interface{}, error) {
+func (p *parser) callonQuotedTextElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement67()
+	return p.cur.onQuotedTextElement76()
 }
 
-func (c *current) onQuotedTextElement63(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement72(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement63() (interface{}, error) {
+func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement63(stack["name"])
+	return p.cur.onQuotedTextElement72(stack["name"])
 }
 
-func (c *current) onQuotedTextElement77() (interface{}, error) {
+func (c *current) onQuotedTextElement86() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement77() (interface{}, error) {
+func (p *parser) callonQuotedTextElement86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement77()
+	return p.cur.onQuotedTextElement86()
 }
 
-func (c *current) onQuotedTextElement89() (interface{}, error) {
+func (c *current) onQuotedTextElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement89() (interface{}, error) {
+func (p *parser) callonQuotedTextElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement89()
+	return p.cur.onQuotedTextElement98()
 }
 
-func (c *current) onQuotedTextElement91() (interface{}, error) {
+func (c *current) onQuotedTextElement100() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement91() (interface{}, error) {
+func (p *parser) callonQuotedTextElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement91()
+	return p.cur.onQuotedTextElement100()
 }
 
-func (c *current) onQuotedTextElement84(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement93(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement84() (interface{}, error) {
+func (p *parser) callonQuotedTextElement93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement84(stack["start"])
+	return p.cur.onQuotedTextElement93(stack["start"])
 }
 
-func (c *current) onQuotedTextElement73(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement82(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement73() (interface{}, error) {
+func (p *parser) callonQuotedTextElement82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement73(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement82(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement99() (interface{}, error) {
+func (c *current) onQuotedTextElement108() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement99() (interface{}, error) {
+func (p *parser) callonQuotedTextElement108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement99()
+	return p.cur.onQuotedTextElement108()
 }
 
-func (c *current) onQuotedTextElement111() (interface{}, error) {
+func (c *current) onQuotedTextElement120() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement111() (interface{}, error) {
+func (p *parser) callonQuotedTextElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement111()
+	return p.cur.onQuotedTextElement120()
 }
 
-func (c *current) onQuotedTextElement113() (interface{}, error) {
+func (c *current) onQuotedTextElement122() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement113() (interface{}, error) {
+func (p *parser) callonQuotedTextElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement113()
+	return p.cur.onQuotedTextElement122()
 }
 
-func (c *current) onQuotedTextElement106(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement115(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement106() (interface{}, error) {
+func (p *parser) callonQuotedTextElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement106(stack["start"])
+	return p.cur.onQuotedTextElement115(stack["start"])
 }
 
-func (c *current) onQuotedTextElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement104(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement95() (interface{}, error) {
+func (p *parser) callonQuotedTextElement104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement95(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement104(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement48(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement57(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement48() (interface{}, error) {
+func (p *parser) callonQuotedTextElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement48(stack["element"])
+	return p.cur.onQuotedTextElement57(stack["element"])
 }
 
-func (c *current) onQuotedTextElement119() (interface{}, error) {
+func (c *current) onQuotedTextElement128() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement119() (interface{}, error) {
+func (p *parser) callonQuotedTextElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement119()
+	return p.cur.onQuotedTextElement128()
 }
 
-func (c *current) onQuotedTextElement125() (interface{}, error) {
+func (c *current) onQuotedTextElement134() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement125() (interface{}, error) {
+func (p *parser) callonQuotedTextElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement125()
+	return p.cur.onQuotedTextElement134()
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement126() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement126()
 }
 
-func (c *current) onQuotedTextElement134() (bool, error) {
+func (c *current) onQuotedTextElement143() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement134() (bool, error) {
+func (p *parser) callonQuotedTextElement143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement143()
 }
 
-func (c *current) onQuotedTextElement136() (interface{}, error) {
+func (c *current) onQuotedTextElement145() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136()
+	return p.cur.onQuotedTextElement145()
 }
 
-func (c *current) onQuotedTextElement132(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement141(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement132() (interface{}, error) {
+func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement132(stack["element"])
+	return p.cur.onQuotedTextElement141(stack["element"])
 }
 
-func (c *current) onQuotedTextElement142() (interface{}, error) {
+func (c *current) onQuotedTextElement151() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement142() (interface{}, error) {
+func (p *parser) callonQuotedTextElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement142()
+	return p.cur.onQuotedTextElement151()
 }
 
-func (c *current) onQuotedTextElement138(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement147(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement138() (interface{}, error) {
+func (p *parser) callonQuotedTextElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement138(stack["ref"])
+	return p.cur.onQuotedTextElement147(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement146() (interface{}, error) {
+func (c *current) onQuotedTextElement155() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74405,10 +74741,10 @@ func (c *current) onQuotedTextElement146() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement146() (interface{}, error) {
+func (p *parser) callonQuotedTextElement155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement146()
+	return p.cur.onQuotedTextElement155()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -75409,26 +75745,59 @@ func (p *parser) callonSectionTitleElement5() (interface{}, error) {
 	return p.cur.onSectionTitleElement5()
 }
 
-func (c *current) onSectionTitleElement17() (interface{}, error) {
+func (c *current) onSectionTitleElement18() (bool, error) {
+	return c.hasUserMacros(), nil
+
+}
+
+func (p *parser) callonSectionTitleElement18() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement18()
+}
+
+func (c *current) onSectionTitleElement20() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement17() (interface{}, error) {
+func (p *parser) callonSectionTitleElement20() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement17()
+	return p.cur.onSectionTitleElement20()
+}
+
+func (c *current) onSectionTitleElement24(name interface{}) (bool, error) {
+	return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+
 }
 
-func (c *current) onSectionTitleElement23() (bool, error) {
+func (p *parser) callonSectionTitleElement24() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement24(stack["name"])
+}
+
+func (c *current) onSectionTitleElement26() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonSectionTitleElement26() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement26()
+}
+
+func (c *current) onSectionTitleElement32() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonSectionTitleElement23() (bool, error) {
+func (p *parser) callonSectionTitleElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement23()
+	return p.cur.onSectionTitleElement32()
 }
 
 func (c *current) onSectionTitleElement14(text interface{}) (interface{}, error) {
@@ -75443,157 +75812,157 @@ func (p *parser) callonSectionTitleElement14() (interface{}, error) {
 	return p.cur.onSectionTitleElement14(stack["text"])
 }
 
-func (c *current) onSectionTitleElement30() (interface{}, error) {
+func (c *current) onSectionTitleElement39() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement30() (interface{}, error) {
+func (p *parser) callonSectionTitleElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement30()
+	return p.cur.onSectionTitleElement39()
 }
 
-func (c *current) onSectionTitleElement33() (interface{}, error) {
+func (c *current) onSectionTitleElement42() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleElement33() (interface{}, error) {
+func (p *parser) callonSectionTitleElement42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement33()
+	return p.cur.onSectionTitleElement42()
 }
 
-func (c *current) onSectionTitleElement40() (bool, error) {
+func (c *current) onSectionTitleElement49() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement40() (bool, error) {
+func (p *parser) callonSectionTitleElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement40()
+	return p.cur.onSectionTitleElement49()
 }
 
-func (c *current) onSectionTitleElement41() (bool, error) {
+func (c *current) onSectionTitleElement50() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement41() (bool, error) {
+func (p *parser) callonSectionTitleElement50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement41()
+	return p.cur.onSectionTitleElement50()
 }
 
-func (c *current) onSectionTitleElement38() (interface{}, error) {
+func (c *current) onSectionTitleElement47() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement38() (interface{}, error) {
+func (p *parser) callonSectionTitleElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement38()
+	return p.cur.onSectionTitleElement47()
 }
 
-func (c *current) onSectionTitleElement50() (bool, error) {
+func (c *current) onSectionTitleElement59() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement50() (bool, error) {
+func (p *parser) callonSectionTitleElement59() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement50()
+	return p.cur.onSectionTitleElement59()
 }
 
-func (c *current) onSectionTitleElement54() (bool, error) {
+func (c *current) onSectionTitleElement63() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement54() (bool, error) {
+func (p *parser) callonSectionTitleElement63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement54()
+	return p.cur.onSectionTitleElement63()
 }
 
-func (c *current) onSectionTitleElement46() (interface{}, error) {
+func (c *current) onSectionTitleElement55() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement46() (interface{}, error) {
+func (p *parser) callonSectionTitleElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement46()
+	return p.cur.onSectionTitleElement55()
 }
 
-func (c *current) onSectionTitleElement65() (bool, error) {
+func (c *current) onSectionTitleElement74() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement65() (bool, error) {
+func (p *parser) callonSectionTitleElement74() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement65()
+	return p.cur.onSectionTitleElement74()
 }
 
-func (c *current) onSectionTitleElement67() (interface{}, error) {
+func (c *current) onSectionTitleElement76() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement67() (interface{}, error) {
+func (p *parser) callonSectionTitleElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement67()
+	return p.cur.onSectionTitleElement76()
 }
 
-func (c *current) onSectionTitleElement63(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement72(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (interface{}, error) {
+func (p *parser) callonSectionTitleElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63(stack["element"])
+	return p.cur.onSectionTitleElement72(stack["element"])
 }
 
-func (c *current) onSectionTitleElement72() (bool, error) {
+func (c *current) onSectionTitleElement81() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement72() (bool, error) {
+func (p *parser) callonSectionTitleElement81() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement72()
+	return p.cur.onSectionTitleElement81()
 }
 
-func (c *current) onSectionTitleElement79() (interface{}, error) {
+func (c *current) onSectionTitleElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement79() (interface{}, error) {
+func (p *parser) callonSectionTitleElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement79()
+	return p.cur.onSectionTitleElement88()
 }
 
-func (c *current) onSectionTitleElement75(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement84(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -75601,242 +75970,242 @@ func (c *current) onSectionTitleElement75(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement75() (interface{}, error) {
+func (p *parser) callonSectionTitleElement84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement75(stack["name"])
+	return p.cur.onSectionTitleElement84(stack["name"])
 }
 
-func (c *current) onSectionTitleElement89() (interface{}, error) {
+func (c *current) onSectionTitleElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement89() (interface{}, error) {
+func (p *parser) callonSectionTitleElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement89()
+	return p.cur.onSectionTitleElement98()
 }
 
-func (c *current) onSectionTitleElement85(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement94(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement85() (interface{}, error) {
+func (p *parser) callonSectionTitleElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement85(stack["name"])
+	return p.cur.onSectionTitleElement94(stack["name"])
 }
 
-func (c *current) onSectionTitleElement99() (interface{}, error) {
+func (c *current) onSectionTitleElement108() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement99() (interface{}, error) {
+func (p *parser) callonSectionTitleElement108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement99()
+	return p.cur.onSectionTitleElement108()
 }
 
-func (c *current) onSectionTitleElement111() (interface{}, error) {
+func (c *current) onSectionTitleElement120() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement111()
+	return p.cur.onSectionTitleElement120()
 }
 
-func (c *current) onSectionTitleElement113() (interface{}, error) {
+func (c *current) onSectionTitleElement122() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement113() (interface{}, error) {
+func (p *parser) callonSectionTitleElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement113()
+	return p.cur.onSectionTitleElement122()
 }
 
-func (c *current) onSectionTitleElement106(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement115(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement106() (interface{}, error) {
+func (p *parser) callonSectionTitleElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement106(stack["start"])
+	return p.cur.onSectionTitleElement115(stack["start"])
 }
 
-func (c *current) onSectionTitleElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement104(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement95() (interface{}, error) {
+func (p *parser) callonSectionTitleElement104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement95(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement104(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement121() (interface{}, error) {
+func (c *current) onSectionTitleElement130() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement121() (interface{}, error) {
+func (p *parser) callonSectionTitleElement130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement121()
+	return p.cur.onSectionTitleElement130()
 }
 
-func (c *current) onSectionTitleElement133() (interface{}, error) {
+func (c *current) onSectionTitleElement142() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement133()
+	return p.cur.onSectionTitleElement142()
 }
 
-func (c *current) onSectionTitleElement135() (interface{}, error) {
+func (c *current) onSectionTitleElement144() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement135() (interface{}, error) {
+func (p *parser) callonSectionTitleElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement135()
+	return p.cur.onSectionTitleElement144()
 }
 
-func (c *current) onSectionTitleElement128(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement137(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement128() (interface{}, error) {
+func (p *parser) callonSectionTitleElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement128(stack["start"])
+	return p.cur.onSectionTitleElement137(stack["start"])
 }
 
-func (c *current) onSectionTitleElement117(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement126(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement117() (interface{}, error) {
+func (p *parser) callonSectionTitleElement126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement117(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement126(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement70(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement79(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement70() (interface{}, error) {
+func (p *parser) callonSectionTitleElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement70(stack["element"])
+	return p.cur.onSectionTitleElement79(stack["element"])
 }
 
-func (c *current) onSectionTitleElement143() (interface{}, error) {
+func (c *current) onSectionTitleElement152() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement143() (interface{}, error) {
+func (p *parser) callonSectionTitleElement152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement143()
+	return p.cur.onSectionTitleElement152()
 }
 
-func (c *current) onSectionTitleElement139(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement148(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement139() (interface{}, error) {
+func (p *parser) callonSectionTitleElement148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement139(stack["ref"])
+	return p.cur.onSectionTitleElement148(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement149() (bool, error) {
+func (c *current) onSectionTitleElement158() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement149() (bool, error) {
+func (p *parser) callonSectionTitleElement158() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149()
+	return p.cur.onSectionTitleElement158()
 }
 
-func (c *current) onSectionTitleElement159() (interface{}, error) {
+func (c *current) onSectionTitleElement168() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement159() (interface{}, error) {
+func (p *parser) callonSectionTitleElement168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement159()
+	return p.cur.onSectionTitleElement168()
 }
 
-func (c *current) onSectionTitleElement166() (interface{}, error) {
+func (c *current) onSectionTitleElement175() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement166() (interface{}, error) {
+func (p *parser) callonSectionTitleElement175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement166()
+	return p.cur.onSectionTitleElement175()
 }
 
-func (c *current) onSectionTitleElement162(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement171(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement162() (interface{}, error) {
+func (p *parser) callonSectionTitleElement171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement162(stack["ref"])
+	return p.cur.onSectionTitleElement171(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement172() (bool, error) {
+func (c *current) onSectionTitleElement181() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement172() (bool, error) {
+func (p *parser) callonSectionTitleElement181() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement172()
+	return p.cur.onSectionTitleElement181()
 }
 
-func (c *current) onSectionTitleElement179() (interface{}, error) {
+func (c *current) onSectionTitleElement188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement179() (interface{}, error) {
+func (p *parser) callonSectionTitleElement188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement179()
+	return p.cur.onSectionTitleElement188()
 }
 
-func (c *current) onSectionTitleElement175(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement184(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -75844,273 +76213,273 @@ func (c *current) onSectionTitleElement175(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement175() (interface{}, error) {
+func (p *parser) callonSectionTitleElement184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement175(stack["name"])
+	return p.cur.onSectionTitleElement184(stack["name"])
 }
 
-func (c *current) onSectionTitleElement189() (interface{}, error) {
+func (c *current) onSectionTitleElement198() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement189() (interface{}, error) {
+func (p *parser) callonSectionTitleElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement189()
+	return p.cur.onSectionTitleElement198()
 }
 
-func (c *current) onSectionTitleElement185(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement194(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement185() (interface{}, error) {
+func (p *parser) callonSectionTitleElement194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement185(stack["name"])
+	return p.cur.onSectionTitleElement194(stack["name"])
 }
 
-func (c *current) onSectionTitleElement199() (interface{}, error) {
+func (c *current) onSectionTitleElement208() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement199() (interface{}, error) {
+func (p *parser) callonSectionTitleElement208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement199()
+	return p.cur.onSectionTitleElement208()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleElement220() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleElement220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleElement220()
 }
 
-func (c *current) onSectionTitleElement213() (interface{}, error) {
+func (c *current) onSectionTitleElement222() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement213() (interface{}, error) {
+func (p *parser) callonSectionTitleElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement213()
+	return p.cur.onSectionTitleElement222()
 }
 
-func (c *current) onSectionTitleElement206(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement215(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement206() (interface{}, error) {
+func (p *parser) callonSectionTitleElement215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement206(stack["start"])
+	return p.cur.onSectionTitleElement215(stack["start"])
 }
 
-func (c *current) onSectionTitleElement195(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement204(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement195() (interface{}, error) {
+func (p *parser) callonSectionTitleElement204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement195(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement204(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement221() (interface{}, error) {
+func (c *current) onSectionTitleElement230() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement221() (interface{}, error) {
+func (p *parser) callonSectionTitleElement230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement221()
+	return p.cur.onSectionTitleElement230()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleElement242() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleElement242()
 }
 
-func (c *current) onSectionTitleElement235() (interface{}, error) {
+func (c *current) onSectionTitleElement244() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement235() (interface{}, error) {
+func (p *parser) callonSectionTitleElement244() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement235()
+	return p.cur.onSectionTitleElement244()
 }
 
-func (c *current) onSectionTitleElement228(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement237(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement228() (interface{}, error) {
+func (p *parser) callonSectionTitleElement237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement228(stack["start"])
+	return p.cur.onSectionTitleElement237(stack["start"])
 }
 
-func (c *current) onSectionTitleElement217(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement226(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement217() (interface{}, error) {
+func (p *parser) callonSectionTitleElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement217(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement226(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement170(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement179(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (interface{}, error) {
+func (p *parser) callonSectionTitleElement179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170(stack["element"])
+	return p.cur.onSectionTitleElement179(stack["element"])
 }
 
-func (c *current) onSectionTitleElement239() (interface{}, error) {
+func (c *current) onSectionTitleElement248() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement239() (interface{}, error) {
+func (p *parser) callonSectionTitleElement248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement239()
+	return p.cur.onSectionTitleElement248()
 }
 
-func (c *current) onSectionTitleElement155(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement164(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement155() (interface{}, error) {
+func (p *parser) callonSectionTitleElement164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement155(stack["elements"])
+	return p.cur.onSectionTitleElement164(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement151(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement160(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement151() (interface{}, error) {
+func (p *parser) callonSectionTitleElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement151(stack["id"])
+	return p.cur.onSectionTitleElement160(stack["id"])
 }
 
-func (c *current) onSectionTitleElement243() (interface{}, error) {
+func (c *current) onSectionTitleElement252() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement243() (interface{}, error) {
+func (p *parser) callonSectionTitleElement252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement243()
+	return p.cur.onSectionTitleElement252()
 }
 
-func (c *current) onSectionTitleElement247() (interface{}, error) {
+func (c *current) onSectionTitleElement256() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement247() (interface{}, error) {
+func (p *parser) callonSectionTitleElement256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement247()
+	return p.cur.onSectionTitleElement256()
 }
 
-func (c *current) onSectionTitleElement147(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement156(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (interface{}, error) {
+func (p *parser) callonSectionTitleElement156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147(stack["id"])
+	return p.cur.onSectionTitleElement156(stack["id"])
 }
 
-func (c *current) onSectionTitleElement258() (interface{}, error) {
+func (c *current) onSectionTitleElement267() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement258() (interface{}, error) {
+func (p *parser) callonSectionTitleElement267() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement258()
+	return p.cur.onSectionTitleElement267()
 }
 
-func (c *current) onSectionTitleElement254(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement263(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement254() (interface{}, error) {
+func (p *parser) callonSectionTitleElement263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement254(stack["id"])
+	return p.cur.onSectionTitleElement263(stack["id"])
 }
 
-func (c *current) onSectionTitleElement266() (interface{}, error) {
+func (c *current) onSectionTitleElement275() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement266() (interface{}, error) {
+func (p *parser) callonSectionTitleElement275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement266()
+	return p.cur.onSectionTitleElement275()
 }
 
-func (c *current) onSectionTitleElement262(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement271(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement262() (interface{}, error) {
+func (p *parser) callonSectionTitleElement271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement262(stack["id"])
+	return p.cur.onSectionTitleElement271(stack["id"])
 }
 
-func (c *current) onSectionTitleElement271() (interface{}, error) {
+func (c *current) onSectionTitleElement280() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -76119,10 +76488,10 @@ func (c *current) onSectionTitleElement271() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement271() (interface{}, error) {
+func (p *parser) callonSectionTitleElement280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement271()
+	return p.cur.onSectionTitleElement280()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -76137,26 +76506,59 @@ func (p *parser) callonSectionTitleElement1() (interface{}, error) {
 	return p.cur.onSectionTitleElement1(stack["element"])
 }
 
-func (c *current) onNormalGroup14() (interface{}, error) {
+func (c *current) onNormalGroup15() (bool, error) {
+	return c.hasUserMacros(), nil
+
+}
+
+func (p *parser) callonNormalGroup15() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup15()
+}
+
+func (c *current) onNormalGroup17() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNormalGroup17() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup17()
+}
+
+func (c *current) onNormalGroup21(name interface{}) (bool, error) {
+	return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+
+}
+
+func (p *parser) callonNormalGroup21() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup21(stack["name"])
+}
+
+func (c *current) onNormalGroup23() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup14() (interface{}, error) {
+func (p *parser) callonNormalGroup23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup14()
+	return p.cur.onNormalGroup23()
 }
 
-func (c *current) onNormalGroup20() (bool, error) {
+func (c *current) onNormalGroup29() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonNormalGroup20() (bool, error) {
+func (p *parser) callonNormalGroup29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup20()
+	return p.cur.onNormalGroup29()
 }
 
 func (c *current) onNormalGroup11(text interface{}) (interface{}, error) {
@@ -76171,135 +76573,135 @@ func (p *parser) callonNormalGroup11() (interface{}, error) {
 	return p.cur.onNormalGroup11(stack["text"])
 }
 
-func (c *current) onNormalGroup27() (interface{}, error) {
+func (c *current) onNormalGroup36() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup27() (interface{}, error) {
+func (p *parser) callonNormalGroup36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup27()
+	return p.cur.onNormalGroup36()
 }
 
-func (c *current) onNormalGroup31() (interface{}, error) {
+func (c *current) onNormalGroup40() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonNormalGroup31() (interface{}, error) {
+func (p *parser) callonNormalGroup40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup31()
+	return p.cur.onNormalGroup40()
 }
 
-func (c *current) onNormalGroup38() (bool, error) {
+func (c *current) onNormalGroup47() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup38() (bool, error) {
+func (p *parser) callonNormalGroup47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup38()
+	return p.cur.onNormalGroup47()
 }
 
-func (c *current) onNormalGroup39() (bool, error) {
+func (c *current) onNormalGroup48() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup39() (bool, error) {
+func (p *parser) callonNormalGroup48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup39()
+	return p.cur.onNormalGroup48()
 }
 
-func (c *current) onNormalGroup36() (interface{}, error) {
+func (c *current) onNormalGroup45() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup36() (interface{}, error) {
+func (p *parser) callonNormalGroup45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup45()
 }
 
-func (c *current) onNormalGroup47() (bool, error) {
+func (c *current) onNormalGroup56() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup47() (bool, error) {
+func (p *parser) callonNormalGroup56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup47()
+	return p.cur.onNormalGroup56()
 }
 
-func (c *current) onNormalGroup51() (bool, error) {
+func (c *current) onNormalGroup60() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup51() (bool, error) {
+func (p *parser) callonNormalGroup60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup51()
+	return p.cur.onNormalGroup60()
 }
 
-func (c *current) onNormalGroup43() (interface{}, error) {
+func (c *current) onNormalGroup52() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup43() (interface{}, error) {
+func (p *parser) callonNormalGroup52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup43()
+	return p.cur.onNormalGroup52()
 }
 
-func (c *current) onNormalGroup57() (interface{}, error) {
+func (c *current) onNormalGroup66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup57() (interface{}, error) {
+func (p *parser) callonNormalGroup66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup57()
+	return p.cur.onNormalGroup66()
 }
 
-func (c *current) onNormalGroup64() (bool, error) {
+func (c *current) onNormalGroup73() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup64() (bool, error) {
+func (p *parser) callonNormalGroup73() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup64()
+	return p.cur.onNormalGroup73()
 }
 
-func (c *current) onNormalGroup71() (interface{}, error) {
+func (c *current) onNormalGroup80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup71() (interface{}, error) {
+func (p *parser) callonNormalGroup80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup71()
+	return p.cur.onNormalGroup80()
 }
 
-func (c *current) onNormalGroup67(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -76307,269 +76709,269 @@ func (c *current) onNormalGroup67(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup67() (interface{}, error) {
+func (p *parser) callonNormalGroup76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup67(stack["name"])
+	return p.cur.onNormalGroup76(stack["name"])
 }
 
-func (c *current) onNormalGroup81() (interface{}, error) {
+func (c *current) onNormalGroup90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup81() (interface{}, error) {
+func (p *parser) callonNormalGroup90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup81()
+	return p.cur.onNormalGroup90()
 }
 
-func (c *current) onNormalGroup77(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup86(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup77() (interface{}, error) {
+func (p *parser) callonNormalGroup86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup77(stack["name"])
+	return p.cur.onNormalGroup86(stack["name"])
 }
 
-func (c *current) onNormalGroup91() (interface{}, error) {
+func (c *current) onNormalGroup100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup91() (interface{}, error) {
+func (p *parser) callonNormalGroup100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup91()
+	return p.cur.onNormalGroup100()
 }
 
-func (c *current) onNormalGroup103() (interface{}, error) {
+func (c *current) onNormalGroup112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup103() (interface{}, error) {
+func (p *parser) callonNormalGroup112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup103()
+	return p.cur.onNormalGroup112()
 }
 
-func (c *current) onNormalGroup105() (interface{}, error) {
+func (c *current) onNormalGroup114() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup105() (interface{}, error) {
+func (p *parser) callonNormalGroup114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup105()
+	return p.cur.onNormalGroup114()
 }
 
-func (c *current) onNormalGroup98(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup107(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup98() (interface{}, error) {
+func (p *parser) callonNormalGroup107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup98(stack["start"])
+	return p.cur.onNormalGroup107(stack["start"])
 }
 
-func (c *current) onNormalGroup87(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup96(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup87() (interface{}, error) {
+func (p *parser) callonNormalGroup96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup87(stack["name"], stack["start"])
+	return p.cur.onNormalGroup96(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup113() (interface{}, error) {
+func (c *current) onNormalGroup122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup113() (interface{}, error) {
+func (p *parser) callonNormalGroup122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup113()
+	return p.cur.onNormalGroup122()
 }
 
-func (c *current) onNormalGroup125() (interface{}, error) {
+func (c *current) onNormalGroup134() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup125() (interface{}, error) {
+func (p *parser) callonNormalGroup134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup125()
+	return p.cur.onNormalGroup134()
 }
 
-func (c *current) onNormalGroup127() (interface{}, error) {
+func (c *current) onNormalGroup136() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup127() (interface{}, error) {
+func (p *parser) callonNormalGroup136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup127()
+	return p.cur.onNormalGroup136()
 }
 
-func (c *current) onNormalGroup120(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup129(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup120() (interface{}, error) {
+func (p *parser) callonNormalGroup129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup120(stack["start"])
+	return p.cur.onNormalGroup129(stack["start"])
 }
 
-func (c *current) onNormalGroup109(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup118(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup109() (interface{}, error) {
+func (p *parser) callonNormalGroup118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup109(stack["name"], stack["start"])
+	return p.cur.onNormalGroup118(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup62(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup71(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup62() (interface{}, error) {
+func (p *parser) callonNormalGroup71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup62(stack["element"])
+	return p.cur.onNormalGroup71(stack["element"])
 }
 
-func (c *current) onNormalGroup136() (bool, error) {
+func (c *current) onNormalGroup145() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup136() (bool, error) {
+func (p *parser) callonNormalGroup145() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup145()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup147() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup147()
 }
 
-func (c *current) onNormalGroup134(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup143(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup134() (interface{}, error) {
+func (p *parser) callonNormalGroup143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134(stack["element"])
+	return p.cur.onNormalGroup143(stack["element"])
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup151() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup151() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup151()
 }
 
-func (c *current) onNormalGroup144() (bool, error) {
+func (c *current) onNormalGroup153() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (bool, error) {
+func (p *parser) callonNormalGroup153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup153()
 }
 
-func (c *current) onNormalGroup146() (interface{}, error) {
+func (c *current) onNormalGroup155() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup146() (interface{}, error) {
+func (p *parser) callonNormalGroup155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup146()
+	return p.cur.onNormalGroup155()
 }
 
-func (c *current) onNormalGroup150() (interface{}, error) {
+func (c *current) onNormalGroup159() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup150() (interface{}, error) {
+func (p *parser) callonNormalGroup159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup150()
+	return p.cur.onNormalGroup159()
 }
 
-func (c *current) onNormalGroup140() (interface{}, error) {
+func (c *current) onNormalGroup149() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup140() (interface{}, error) {
+func (p *parser) callonNormalGroup149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup149()
 }
 
-func (c *current) onNormalGroup162() (interface{}, error) {
+func (c *current) onNormalGroup171() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup162() (interface{}, error) {
+func (p *parser) callonNormalGroup171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup162()
+	return p.cur.onNormalGroup171()
 }
 
-func (c *current) onNormalGroup158(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup167(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup158() (interface{}, error) {
+func (p *parser) callonNormalGroup167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup158(stack["ref"])
+	return p.cur.onNormalGroup167(stack["ref"])
 }
 
-func (c *current) onNormalGroup166() (interface{}, error) {
+func (c *current) onNormalGroup175() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -76578,10 +76980,10 @@ func (c *current) onNormalGroup166() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup166() (interface{}, error) {
+func (p *parser) callonNormalGroup175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup166()
+	return p.cur.onNormalGroup175()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -76619,26 +77021,59 @@ func (p *parser) callonAttributeStructuredValue1() (interface{}, error) {
 	return p.cur.onAttributeStructuredValue1(stack["elements"])
 }
 
-func (c *current) onAttributeStructuredValueElement10() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement11() (bool, error) {
+	return c.hasUserMacros(), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement11() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement11()
+}
+
+func (c *current) onAttributeStructuredValueElement13() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement13() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement13()
+}
+
+func (c *current) onAttributeStructuredValueElement17(name interface{}) (bool, error) {
+	return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement17() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement17(stack["name"])
+}
+
+func (c *current) onAttributeStructuredValueElement19() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement10() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement10()
+	return p.cur.onAttributeStructuredValueElement19()
 }
 
-func (c *current) onAttributeStructuredValueElement16() (bool, error) {
+func (c *current) onAttributeStructuredValueElement25() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement16() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement25() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement16()
+	return p.cur.onAttributeStructuredValueElement25()
 }
 
 func (c *current) onAttributeStructuredValueElement7(text interface{}) (interface{}, error) {
@@ -76653,120 +77088,120 @@ func (p *parser) callonAttributeStructuredValueElement7() (interface{}, error) {
 	return p.cur.onAttributeStructuredValueElement7(stack["text"])
 }
 
-func (c *current) onAttributeStructuredValueElement23() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement32() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement23() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement32() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement23()
+	return p.cur.onAttributeStructuredValueElement32()
 }
 
-func (c *current) onAttributeStructuredValueElement30() (bool, error) {
+func (c *current) onAttributeStructuredValueElement39() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement30() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement30()
+	return p.cur.onAttributeStructuredValueElement39()
 }
 
-func (c *current) onAttributeStructuredValueElement34() (bool, error) {
+func (c *current) onAttributeStructuredValueElement43() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement34() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement34()
+	return p.cur.onAttributeStructuredValueElement43()
 }
 
-func (c *current) onAttributeStructuredValueElement26() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement35() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement26() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement26()
+	return p.cur.onAttributeStructuredValueElement35()
 }
 
-func (c *current) onAttributeStructuredValueElement44() (bool, error) {
+func (c *current) onAttributeStructuredValueElement53() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement44() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement53() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement44()
+	return p.cur.onAttributeStructuredValueElement53()
 }
 
-func (c *current) onAttributeStructuredValueElement46() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement46()
+	return p.cur.onAttributeStructuredValueElement55()
 }
 
-func (c *current) onAttributeStructuredValueElement42(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement51(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement42() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement42(stack["element"])
+	return p.cur.onAttributeStructuredValueElement51(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement52() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement52() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement52()
+	return p.cur.onAttributeStructuredValueElement61()
 }
 
-func (c *current) onAttributeStructuredValueElement48(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement57(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement48() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement48(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement57(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement56() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement65() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement56() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement56()
+	return p.cur.onAttributeStructuredValueElement65()
 }
 
-func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement70() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -76775,10 +77210,10 @@ func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement61() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement61()
+	return p.cur.onAttributeStructuredValueElement70()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
@@ -77819,6 +78254,7 @@ func (p *parser) callonUserMacroBlock7() (bool, error) {
 }
 
 func (c *current) onUserMacroBlock10() (interface{}, error) {
+	// may have spaces
 	return string(c.text), nil
 
 }
@@ -77829,15 +78265,15 @@ func (p *parser) callonUserMacroBlock10() (interface{}, error) {
 	return p.cur.onUserMacroBlock10()
 }
 
-func (c *current) onUserMacroBlock16() (interface{}, error) {
+func (c *current) onUserMacroBlock26() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonUserMacroBlock16() (interface{}, error) {
+func (p *parser) callonUserMacroBlock26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onUserMacroBlock16()
+	return p.cur.onUserMacroBlock26()
 }
 
 func (c *current) onUserMacroBlock1(name, value, attributes interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 5da9888..f9611c6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1584,6 +1584,7 @@ ListContinuationElement <- // TODO: same
         / DelimitedBlock
         / ThematicBreak // must appear before ListElement :/
         / ImageBlock
+        / UserMacroBlock
         / Table
         / SinglelineComment
         / ListContinuationParagraph // must be the last one... 
@@ -2750,7 +2751,7 @@ UserMacroBlock <-
       return c.hasUserMacro(name.(string)), nil  
     }
     "::" 
-    value:(UserMacroValue) 
+    value:(UserMacroBlockValue) 
     attributes:(InlineAttributes) EOL {
         return types.NewUserMacroBlock(name.(string), value.(string), attributes.(types.Attributes), string(c.text))
     }
@@ -2771,7 +2772,11 @@ UserMacroName <- ([\pL\pN_-]+) {
         return string(c.text), nil
     }
 
-UserMacroValue <- [^:[ \r\n]* {
+UserMacroValue <- (!":" [^[ \r\n]+)? {
+        return string(c.text), nil
+    }
+
+UserMacroBlockValue <- (!":" [^[ \r\n]+ (" "+ [^[ \r\n]+)*)? { // may have spaces
         return string(c.text), nil
     }
 
@@ -2787,6 +2792,15 @@ Alphanums <- [\pL\pN]+ {
     }
 
 InlineText <- 
+    !(
+        &{
+            return c.hasUserMacros(), nil
+        }
+        name:(UserMacroName) ":" // avoid conflict with user macros (whose names may have other characters)
+        &{
+            return c.isSubstitutionEnabled(Macros) && c.hasUserMacro(name.(string)), nil
+        }
+    )
     text:([\pL\pN]+ {
         return string(c.text), nil
     })
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 4b398f3..a36351c 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -252,6 +252,11 @@ func (c *current) matchBlockDelimiterLength(length int) (bool, error) {
 
 const usermacrosKey = "user_macros"
 
+func (c *current) hasUserMacros() bool {
+	macros, ok := c.globalStore[usermacrosKey].(map[string]configuration.MacroTemplate)
+	return ok && len(macros) > 0
+}
+
 func (c *current) hasUserMacro(name string) bool {
 	if macros, ok := c.globalStore[usermacrosKey].(map[string]configuration.MacroTemplate); ok {
 		_, found := macros[name]
-- 
2.43.0


From c430cd9547c37041d51c9bd0375f176e4666fc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:30 +0000
Subject: [PATCH 089/117] fix: give the Name section of manpages its id

---
 pkg/renderer/sgml/html5/manpage.go | 2 +-
 pkg/renderer/sgml/sgml.go          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/manpage.go b/pkg/renderer/sgml/html5/manpage.go
index 83cf518..ab79f4e 100644
--- a/pkg/renderer/sgml/html5/manpage.go
+++ b/pkg/renderer/sgml/html5/manpage.go
@@ -3,7 +3,7 @@ package html5
 const (
 	manpageHeaderTmpl = `{{ if.IncludeH1 }}<div id="header">
 <h1>{{ .Header }} Manual Page</h1>
-{{ end }}<h2 id="_name">{{ .Name }}</h2>
+{{ end }}<h2 id="{{ toLower .ID }}">{{ .Name }}</h2>
 <div class="sectionbody">
 {{ .Content }}</div>
 {{ if .IncludeH1 }}</div>
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 40abd75..ad15eb1 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -364,11 +364,13 @@ func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentH
 	}
 	if err = tmpl.Execute(output, struct {
 		Header    string
+		ID        string
 		Name      string
 		Content   string
 		IncludeH1 bool
 	}{
 		Header:    renderedHeader,
+		ID:        r.renderElementID(nameSection.Attributes),
 		Name:      renderedName,
 		Content:   string(renderedContent),
 		IncludeH1: len(renderedHeader) > 0,
-- 
2.43.0


From c582bac6c8222829664a3e4ad4fa3d82f50c8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:30 +0000
Subject: [PATCH 090/117] fix: accept attribute entries around the Name section
 of manpages

---
 pkg/renderer/sgml/sgml.go  | 26 +++++++++++++++++++++-----
 pkg/types/types.go         | 14 ++++++++++++++
 pkg/validator/validator.go |  4 ++--
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index ad15eb1..b07f620 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -239,15 +239,14 @@ func (r *sgmlRenderer) splitAndRenderForArticle(ctx *context, doc *types.Documen
 // and the other elements (table of contents, with preamble, content) on the other side
 func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Document) (string, string, error) {
 	log.Debugf("rendering manpage (within HTML/Body: %t)", ctx.config.WrapInHTMLBodyElement)
-	elements := doc.BodyElements()
-	nameSection := elements[0].(*types.Section) // TODO: enforce
+	nameSection, elements := splitNameSection(doc.BodyElements())
 	if ctx.config.WrapInHTMLBodyElement {
 		header, _ := doc.Header()
 		renderedHeader, err := r.renderManpageHeader(ctx, header, nameSection)
 		if err != nil {
 			return "", "", err
 		}
-		renderedContent, err := r.renderDocumentBody(ctx, elements[1:], doc.TableOfContents, doc.Footnotes)
+		renderedContent, err := r.renderDocumentBody(ctx, elements, doc.TableOfContents, doc.Footnotes)
 		if err != nil {
 			return "", "", err
 		}
@@ -258,7 +257,7 @@ func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Documen
 	if err != nil {
 		return "", "", err
 	}
-	renderedContent, err := r.renderDocumentBody(ctx, elements[1:], doc.TableOfContents, doc.Footnotes)
+	renderedContent, err := r.renderDocumentBody(ctx, elements, doc.TableOfContents, doc.Footnotes)
 	if err != nil {
 		return "", "", err
 	}
@@ -268,6 +267,23 @@ func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Documen
 	return "", result.String(), nil
 }
 
+// splits the elements with the `Name` section on one side and all other elements on the other side
+// (including the attribute declarations which come before or in the `Name` section)
+func splitNameSection(elements []interface{}) (*types.Section, []interface{}) {
+	for i, e := range elements {
+		if s, ok := e.(*types.Section); ok { // TODO: enforce
+			others := append([]interface{}{}, elements[:i]...)
+			for _, e := range s.Elements {
+				if _, ok := e.(*types.Paragraph); !ok {
+					others = append(others, e)
+				}
+			}
+			return s, append(others, elements[i+1:]...)
+		}
+	}
+	return nil, elements
+}
+
 func (r *sgmlRenderer) renderDocumentRoles(ctx *context, doc *types.Document) (string, error) {
 	if header, _ := doc.Header(); header != nil {
 		return r.renderElementRoles(ctx, header.Attributes)
@@ -348,7 +364,7 @@ func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentH
 	if err != nil {
 		return "", err
 	}
-	description := nameSection.Elements[0].(*types.Paragraph) // TODO: type check
+	description := types.WithoutAttributeDeclarations(nameSection.Elements)[0].(*types.Paragraph) // TODO: type check
 	if description.Attributes == nil {
 		description.Attributes = types.Attributes{}
 	}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index c170410..78dd3a9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -167,6 +167,20 @@ func (d *Document) BodyElements() []interface{} {
 	return d.Elements
 }
 
+// WithoutAttributeDeclarations returns the given elements without the attribute declarations and resets
+func WithoutAttributeDeclarations(elements []interface{}) []interface{} {
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
+		switch e.(type) {
+		case *AttributeDeclaration, *AttributeReset:
+			continue
+		default:
+			result = append(result, e)
+		}
+	}
+	return result
+}
+
 var _ WithElementAddition = &Document{}
 
 func (d *Document) AddElement(element interface{}) error {
diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index 46f49cb..a1c4182 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -48,13 +48,13 @@ func validateManpage(doc *types.Document) []Problem {
 			Message:  "manpage document is missing a header",
 		})
 	}
-	elements := doc.BodyElements()
+	elements := types.WithoutAttributeDeclarations(doc.BodyElements())
 	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1) && assertThatElement(elementAt(nameSection.Elements, 0)).isParagraph(); !ok {
+	} else if content := types.WithoutAttributeDeclarations(nameSection.Elements); !assertThatElements(content).haveCount(1) || !assertThatElement(elementAt(content, 0)).isParagraph() {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
-- 
2.43.0


From 840750ff687832c3119601bcc6edbda261f3dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:42 +0000
Subject: [PATCH 091/117] fix: look at the whole character before a mark

---
 pkg/parser/parser_ext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index a36351c..52d9b76 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -6,6 +6,7 @@ import (
 	"sort"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -126,7 +127,7 @@ func (c *current) trackElement(element interface{}) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("---tracking element of type '%T' at pos=%s text='%s'", element, c.pos.String(), string(c.text))
 	}
-	c.globalStore[suffixTrackingKey] = rune(c.text[len(c.text)-1])
+	c.globalStore[suffixTrackingKey], _ = utf8.DecodeLastRune(c.text)
 }
 
 func (c *current) isPrecededBySpace() bool {
-- 
2.43.0


From 6d44298a7f8723968e1f396ee084a752abc389e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:47 +0000
Subject: [PATCH 092/117] fix: format the text right after a comma or an
 exclamation mark

---
 pkg/parser/parser_ext.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 52d9b76..11e722a 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -164,15 +164,13 @@ func (c *current) isInlineMacro(text string) bool {
 }
 
 // verifies that previous last character of previous match is neither a
-// letter, number, exclamation point, colon, semicolon, or closing curly bracket
+// letter, number, semicolon, or closing curly bracket
 func (c *current) isSingleQuotedTextAllowed() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if single quoted text is allowed (tracked='%s')", string(r))
 		// r := rune(d[c.pos.offset])
 		result := !unicode.IsLetter(r) &&
 			!unicode.IsNumber(r) &&
-			r != '!' &&
-			r != ',' &&
 			r != ';' &&
 			r != '}'
 		return result
-- 
2.43.0


From ab0f73f198c2ec9cebb9342bc1642b3dc30073a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 093/117] fix: format the labels of internal cross references

---
 .../document_processing_apply_substitutions.go     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 81d502f..2fb2dea 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -341,6 +341,20 @@ func reparseAttributesOfInlineElements(ctx *ParseContext, elements []interface{}
 			if err := reparseAttributesOfInlineElements(ctx, e.Elements, subs, opts...); err != nil {
 				return err
 			}
+		case *types.InternalCrossReference:
+			if e.Label == nil {
+				continue
+			}
+			// same as the label of an `xref` macro, but without inline macros
+			subs := &substitutions{sequence: subs.sequence} // (but allow for them in the other elements)
+			if err := subs.remove(Macros); err != nil {
+				return err
+			}
+			label, err := parseWithSubstitutions(e.Label, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+			if err != nil {
+				return err
+			}
+			e.Label = types.Reduce(label)
 		case types.WithAttributes:
 			if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
 				return err
-- 
2.43.0


From d46d71c38015ddd2ad847fe571abc8c4bf75f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:00 +0000
Subject: [PATCH 094/117] fix: keep the escaped text as it is when the content
 is parsed again

---
 ...document_processing_apply_substitutions.go |    57 +-
 pkg/parser/parser.go                          | 12887 ++++++++--------
 pkg/parser/parser.peg                         |    39 +-
 pkg/parser/parser_ext.go                      |    43 +
 4 files changed, 6562 insertions(+), 6464 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 2fb2dea..49849ea 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -150,6 +150,11 @@ func applySubstitutionsOnWithTitle(ctx *ParseContext, b types.WithTitle, _ ...Op
 		}
 		b.SetTitle(title)
 	}
+	title, err := resolveEscapedTexts(b.GetTitle())
+	if err != nil {
+		return err
+	}
+	b.SetTitle(title)
 	return reparseAttributesOfInlineElements(ctx, b.GetTitle(), headerSubstitutions())
 }
 
@@ -543,7 +548,7 @@ func applySubstitutionsOnSlice(ctx *ParseContext, elements []interface{}, subs *
 	// }
 	// parse
 	var err error
-	elements, err = parseWithSubstitutions(elements, phase1, append(ctx.opts, opts...)...)
+	elements, err = parseWithSubstitutions(elements, phase1, append(append(ctx.opts, opts...), trackEscapedTexts(phase2 != nil))...)
 	if err != nil {
 		return nil, err
 	}
@@ -553,7 +558,55 @@ func applySubstitutionsOnSlice(ctx *ParseContext, elements []interface{}, subs *
 			return nil, err
 		}
 	}
-	return elements, nil
+	return resolveEscapedTexts(elements)
+}
+
+// replaces the escaped texts with regular ones, once there is no further parsing of the given elements
+func resolveEscapedTexts(elements []interface{}) ([]interface{}, error) {
+	resolved := false
+	for i, e := range elements {
+		var err error
+		switch e := e.(type) {
+		case *escapedText:
+			elements[i] = &types.StringElement{Content: e.content}
+			resolved = true
+		case []interface{}:
+			if elements[i], err = resolveEscapedTexts(e); err != nil {
+				return nil, err
+			}
+		case *types.Footnote:
+			if e.Elements, err = resolveEscapedTexts(e.Elements); err != nil {
+				return nil, err
+			}
+		case *types.IndexTerm:
+			if e.Term, err = resolveEscapedTexts(e.Term); err != nil {
+				return nil, err
+			}
+		case types.WithElements:
+			elmts, err := resolveEscapedTexts(e.GetElements())
+			if err != nil {
+				return nil, err
+			}
+			if err := e.SetElements(elmts); err != nil {
+				return nil, err
+			}
+		}
+	}
+	if !resolved {
+		return elements, nil
+	}
+	// merge the texts that were separated
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
+		if s, ok := e.(*types.StringElement); ok && len(result) > 0 {
+			if previous, ok := result[len(result)-1].(*types.StringElement); ok {
+				result[len(result)-1] = &types.StringElement{Content: previous.Content + s.Content}
+				continue
+			}
+		}
+		result = append(result, e)
+	}
+	return result, nil
 }
 
 func extractMarkdownQuoteAttribution(elements []interface{}) ([]interface{}, string) {
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0e4a2e0..838eaa5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2924, col: 12, offset: 92651},
+																pos: position{line: 2925, col: 12, offset: 92594},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2924, col: 13, offset: 92652},
+																	pos: position{line: 2925, col: 13, offset: 92595},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2924, col: 13, offset: 92652},
+																			pos: position{line: 2925, col: 13, offset: 92595},
 																			expr: &litMatcher{
-																				pos:        position{line: 2924, col: 13, offset: 92652},
+																				pos:        position{line: 2925, col: 13, offset: 92595},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2924, col: 18, offset: 92657},
+																			pos: position{line: 2925, col: 18, offset: 92600},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2924, col: 18, offset: 92657},
+																				pos:        position{line: 2925, col: 18, offset: 92600},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2924, col: 12, offset: 92651},
+																pos: position{line: 2925, col: 12, offset: 92594},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2924, col: 13, offset: 92652},
+																	pos: position{line: 2925, col: 13, offset: 92595},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2924, col: 13, offset: 92652},
+																			pos: position{line: 2925, col: 13, offset: 92595},
 																			expr: &litMatcher{
-																				pos:        position{line: 2924, col: 13, offset: 92652},
+																				pos:        position{line: 2925, col: 13, offset: 92595},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2924, col: 18, offset: 92657},
+																			pos: position{line: 2925, col: 18, offset: 92600},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2924, col: 18, offset: 92657},
+																				pos:        position{line: 2925, col: 18, offset: 92600},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88772},
+														pos:        position{line: 2787, col: 13, offset: 88715},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2936, col: 11, offset: 92885},
+													pos: position{line: 2937, col: 11, offset: 92828},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2936, col: 11, offset: 92885},
+														pos: position{line: 2937, col: 11, offset: 92828},
 														expr: &charClassMatcher{
-															pos:        position{line: 2936, col: 11, offset: 92885},
+															pos:        position{line: 2937, col: 11, offset: 92828},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2855, col: 14, offset: 90578},
+													pos: position{line: 2856, col: 14, offset: 90521},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2855, col: 14, offset: 90578},
+														pos: position{line: 2856, col: 14, offset: 90521},
 														expr: &charClassMatcher{
-															pos:        position{line: 2855, col: 14, offset: 90578},
+															pos:        position{line: 2856, col: 14, offset: 90521},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 17, offset: 90648},
+												pos: position{line: 2860, col: 17, offset: 90591},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2859, col: 17, offset: 90648},
+													pos:   position{line: 2860, col: 17, offset: 90591},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2924, col: 12, offset: 92651},
+																				pos: position{line: 2925, col: 12, offset: 92594},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2924, col: 13, offset: 92652},
+																					pos: position{line: 2925, col: 13, offset: 92595},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2924, col: 13, offset: 92652},
+																							pos: position{line: 2925, col: 13, offset: 92595},
 																							expr: &litMatcher{
-																								pos:        position{line: 2924, col: 13, offset: 92652},
+																								pos:        position{line: 2925, col: 13, offset: 92595},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2924, col: 18, offset: 92657},
+																							pos: position{line: 2925, col: 18, offset: 92600},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2924, col: 18, offset: 92657},
+																								pos:        position{line: 2925, col: 18, offset: 92600},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2924, col: 12, offset: 92651},
+																				pos: position{line: 2925, col: 12, offset: 92594},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2924, col: 13, offset: 92652},
+																					pos: position{line: 2925, col: 13, offset: 92595},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2924, col: 13, offset: 92652},
+																							pos: position{line: 2925, col: 13, offset: 92595},
 																							expr: &litMatcher{
-																								pos:        position{line: 2924, col: 13, offset: 92652},
+																								pos:        position{line: 2925, col: 13, offset: 92595},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2924, col: 18, offset: 92657},
+																							pos: position{line: 2925, col: 18, offset: 92600},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2924, col: 18, offset: 92657},
+																								pos:        position{line: 2925, col: 18, offset: 92600},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2924, col: 12, offset: 92651},
+																		pos: position{line: 2925, col: 12, offset: 92594},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2924, col: 13, offset: 92652},
+																			pos: position{line: 2925, col: 13, offset: 92595},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2924, col: 13, offset: 92652},
+																					pos: position{line: 2925, col: 13, offset: 92595},
 																					expr: &litMatcher{
-																						pos:        position{line: 2924, col: 13, offset: 92652},
+																						pos:        position{line: 2925, col: 13, offset: 92595},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2924, col: 18, offset: 92657},
+																					pos: position{line: 2925, col: 18, offset: 92600},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2924, col: 18, offset: 92657},
+																						pos:        position{line: 2925, col: 18, offset: 92600},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2924, col: 12, offset: 92651},
+																									pos: position{line: 2925, col: 12, offset: 92594},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2924, col: 13, offset: 92652},
+																										pos: position{line: 2925, col: 13, offset: 92595},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2924, col: 13, offset: 92652},
+																												pos: position{line: 2925, col: 13, offset: 92595},
 																												expr: &litMatcher{
-																													pos:        position{line: 2924, col: 13, offset: 92652},
+																													pos:        position{line: 2925, col: 13, offset: 92595},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2924, col: 18, offset: 92657},
+																												pos: position{line: 2925, col: 18, offset: 92600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2924, col: 18, offset: 92657},
+																													pos:        position{line: 2925, col: 18, offset: 92600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2924, col: 12, offset: 92651},
+																									pos: position{line: 2925, col: 12, offset: 92594},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2924, col: 13, offset: 92652},
+																										pos: position{line: 2925, col: 13, offset: 92595},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2924, col: 13, offset: 92652},
+																												pos: position{line: 2925, col: 13, offset: 92595},
 																												expr: &litMatcher{
-																													pos:        position{line: 2924, col: 13, offset: 92652},
+																													pos:        position{line: 2925, col: 13, offset: 92595},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2924, col: 18, offset: 92657},
+																												pos: position{line: 2925, col: 18, offset: 92600},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2924, col: 18, offset: 92657},
+																													pos:        position{line: 2925, col: 18, offset: 92600},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2924, col: 12, offset: 92651},
+																							pos: position{line: 2925, col: 12, offset: 92594},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2924, col: 13, offset: 92652},
+																								pos: position{line: 2925, col: 13, offset: 92595},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2924, col: 13, offset: 92652},
+																										pos: position{line: 2925, col: 13, offset: 92595},
 																										expr: &litMatcher{
-																											pos:        position{line: 2924, col: 13, offset: 92652},
+																											pos:        position{line: 2925, col: 13, offset: 92595},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2924, col: 18, offset: 92657},
+																										pos: position{line: 2925, col: 18, offset: 92600},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2924, col: 18, offset: 92657},
+																											pos:        position{line: 2925, col: 18, offset: 92600},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2924, col: 12, offset: 92651},
+														pos: position{line: 2925, col: 12, offset: 92594},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2924, col: 13, offset: 92652},
+															pos: position{line: 2925, col: 13, offset: 92595},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2924, col: 13, offset: 92652},
+																	pos: position{line: 2925, col: 13, offset: 92595},
 																	expr: &litMatcher{
-																		pos:        position{line: 2924, col: 13, offset: 92652},
+																		pos:        position{line: 2925, col: 13, offset: 92595},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2924, col: 18, offset: 92657},
+																	pos: position{line: 2925, col: 18, offset: 92600},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2924, col: 18, offset: 92657},
+																		pos:        position{line: 2925, col: 18, offset: 92600},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2924, col: 12, offset: 92651},
+														pos: position{line: 2925, col: 12, offset: 92594},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2924, col: 13, offset: 92652},
+															pos: position{line: 2925, col: 13, offset: 92595},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2924, col: 13, offset: 92652},
+																	pos: position{line: 2925, col: 13, offset: 92595},
 																	expr: &litMatcher{
-																		pos:        position{line: 2924, col: 13, offset: 92652},
+																		pos:        position{line: 2925, col: 13, offset: 92595},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2924, col: 18, offset: 92657},
+																	pos: position{line: 2925, col: 18, offset: 92600},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2924, col: 18, offset: 92657},
+																		pos:        position{line: 2925, col: 18, offset: 92600},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2924, col: 12, offset: 92651},
+												pos: position{line: 2925, col: 12, offset: 92594},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2924, col: 13, offset: 92652},
+													pos: position{line: 2925, col: 13, offset: 92595},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2924, col: 13, offset: 92652},
+															pos: position{line: 2925, col: 13, offset: 92595},
 															expr: &litMatcher{
-																pos:        position{line: 2924, col: 13, offset: 92652},
+																pos:        position{line: 2925, col: 13, offset: 92595},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2924, col: 18, offset: 92657},
+															pos: position{line: 2925, col: 18, offset: 92600},
 															expr: &charClassMatcher{
-																pos:        position{line: 2924, col: 18, offset: 92657},
+																pos:        position{line: 2925, col: 18, offset: 92600},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2790, col: 14, offset: 88846},
+																		pos: position{line: 2791, col: 14, offset: 88789},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2790, col: 14, offset: 88846},
+																			pos: position{line: 2791, col: 14, offset: 88789},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2790, col: 14, offset: 88846},
+																				pos:        position{line: 2791, col: 14, offset: 88789},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2790, col: 14, offset: 88846},
+																				pos: position{line: 2791, col: 14, offset: 88789},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2790, col: 14, offset: 88846},
+																					pos: position{line: 2791, col: 14, offset: 88789},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 14, offset: 88846},
+																						pos:        position{line: 2791, col: 14, offset: 88789},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2790, col: 14, offset: 88846},
+																							pos: position{line: 2791, col: 14, offset: 88789},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2790, col: 14, offset: 88846},
+																								pos: position{line: 2791, col: 14, offset: 88789},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2790, col: 14, offset: 88846},
+																									pos:        position{line: 2791, col: 14, offset: 88789},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2790, col: 14, offset: 88846},
+																									pos: position{line: 2791, col: 14, offset: 88789},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2790, col: 14, offset: 88846},
+																										pos: position{line: 2791, col: 14, offset: 88789},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2790, col: 14, offset: 88846},
+																											pos:        position{line: 2791, col: 14, offset: 88789},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2790, col: 14, offset: 88846},
+																pos: position{line: 2791, col: 14, offset: 88789},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2790, col: 14, offset: 88846},
+																	pos: position{line: 2791, col: 14, offset: 88789},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2790, col: 14, offset: 88846},
+																		pos:        position{line: 2791, col: 14, offset: 88789},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2790, col: 14, offset: 88846},
+																pos: position{line: 2791, col: 14, offset: 88789},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2790, col: 14, offset: 88846},
+																	pos: position{line: 2791, col: 14, offset: 88789},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2790, col: 14, offset: 88846},
+																		pos:        position{line: 2791, col: 14, offset: 88789},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2949, col: 11, offset: 93158},
+														pos: position{line: 2950, col: 11, offset: 93101},
 														expr: &anyMatcher{
-															line: 2949, col: 13, offset: 93160,
+															line: 2950, col: 13, offset: 93103,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 14, offset: 90578},
+																			pos: position{line: 2856, col: 14, offset: 90521},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2855, col: 14, offset: 90578},
+																				pos: position{line: 2856, col: 14, offset: 90521},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 14, offset: 90578},
+																					pos:        position{line: 2856, col: 14, offset: 90521},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2949, col: 11, offset: 93158},
+																									pos: position{line: 2950, col: 11, offset: 93101},
 																									expr: &anyMatcher{
-																										line: 2949, col: 13, offset: 93160,
+																										line: 2950, col: 13, offset: 93103,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2855, col: 14, offset: 90578},
+																						pos: position{line: 2856, col: 14, offset: 90521},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2855, col: 14, offset: 90578},
+																							pos: position{line: 2856, col: 14, offset: 90521},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 14, offset: 90578},
+																								pos:        position{line: 2856, col: 14, offset: 90521},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1824, col: 5, offset: 58910},
+																		pos: position{line: 1824, col: 5, offset: 58892},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1824, col: 5, offset: 58910},
+																			pos: position{line: 1824, col: 5, offset: 58892},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1824, col: 5, offset: 58910},
+																					pos:   position{line: 1824, col: 5, offset: 58892},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2855, col: 14, offset: 90578},
+																						pos: position{line: 2856, col: 14, offset: 90521},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2855, col: 14, offset: 90578},
+																							pos: position{line: 2856, col: 14, offset: 90521},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 14, offset: 90578},
+																								pos:        position{line: 2856, col: 14, offset: 90521},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1825, col: 5, offset: 58934},
+																					pos: position{line: 1825, col: 5, offset: 58916},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2737, col: 18, offset: 87131},
+											pos: position{line: 2738, col: 18, offset: 87074},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2738, col: 9, offset: 87141},
+												pos: position{line: 2739, col: 9, offset: 87084},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2738, col: 9, offset: 87141},
+														pos: position{line: 2739, col: 9, offset: 87084},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2738, col: 9, offset: 87141},
+																pos:        position{line: 2739, col: 9, offset: 87084},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2738, col: 15, offset: 87147},
+																pos: position{line: 2739, col: 15, offset: 87090},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2739, col: 11, offset: 87180},
+														pos: position{line: 2740, col: 11, offset: 87123},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2739, col: 12, offset: 87181},
+																pos: position{line: 2740, col: 12, offset: 87124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 12, offset: 87181},
+																		pos:        position{line: 2740, col: 12, offset: 87124},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 20, offset: 87189},
+																		pos:        position{line: 2740, col: 20, offset: 87132},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 30, offset: 87199},
+																		pos:        position{line: 2740, col: 30, offset: 87142},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 38, offset: 87207},
+																		pos:        position{line: 2740, col: 38, offset: 87150},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 48, offset: 87217},
+																		pos:        position{line: 2740, col: 48, offset: 87160},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2739, col: 56, offset: 87225},
+																		pos:        position{line: 2740, col: 56, offset: 87168},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2739, col: 65, offset: 87234},
+																pos: position{line: 2740, col: 65, offset: 87177},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2739, col: 76, offset: 87245},
+																pos: position{line: 2740, col: 76, offset: 87188},
 																expr: &choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 5, offset: 84067},
+											pos: position{line: 2629, col: 5, offset: 84010},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2628, col: 5, offset: 84067},
+												pos: position{line: 2629, col: 5, offset: 84010},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2634, col: 19, offset: 84224},
+														pos:        position{line: 2635, col: 19, offset: 84167},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2634, col: 26, offset: 84231},
+														pos: position{line: 2635, col: 26, offset: 84174},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2629, col: 5, offset: 84091},
+														pos:   position{line: 2630, col: 5, offset: 84034},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2629, col: 11, offset: 84097},
+															pos: position{line: 2630, col: 11, offset: 84040},
 															expr: &choiceExpr{
-																pos: position{line: 2629, col: 12, offset: 84098},
+																pos: position{line: 2630, col: 12, offset: 84041},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2949, col: 11, offset: 93158},
+																					pos: position{line: 2950, col: 11, offset: 93101},
 																					expr: &anyMatcher{
-																						line: 2949, col: 13, offset: 93160,
+																						line: 2950, col: 13, offset: 93103,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2641, col: 5, offset: 84343},
+																		pos: position{line: 2642, col: 5, offset: 84286},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2641, col: 5, offset: 84343},
+																			pos: position{line: 2642, col: 5, offset: 84286},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2641, col: 5, offset: 84343},
+																					pos: position{line: 2642, col: 5, offset: 84286},
 																					expr: &choiceExpr{
-																						pos: position{line: 2638, col: 22, offset: 84304},
+																						pos: position{line: 2639, col: 22, offset: 84247},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2634, col: 19, offset: 84224},
+																								pos: position{line: 2635, col: 19, offset: 84167},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2634, col: 19, offset: 84224},
+																										pos:        position{line: 2635, col: 19, offset: 84167},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2634, col: 26, offset: 84231},
+																										pos: position{line: 2635, col: 26, offset: 84174},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2954, col: 8, offset: 93222},
+																										pos: position{line: 2955, col: 8, offset: 93165},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2941, col: 12, offset: 92995},
+																												pos: position{line: 2942, col: 12, offset: 92938},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2941, col: 13, offset: 92996},
+																													pos: position{line: 2942, col: 13, offset: 92939},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 13, offset: 92996},
+																															pos:        position{line: 2942, col: 13, offset: 92939},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 20, offset: 93003},
+																															pos:        position{line: 2942, col: 20, offset: 92946},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 29, offset: 93012},
+																															pos:        position{line: 2942, col: 29, offset: 92955},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2951, col: 8, offset: 93172},
+																												pos: position{line: 2952, col: 8, offset: 93115},
 																												expr: &anyMatcher{
-																													line: 2951, col: 9, offset: 93173,
+																													line: 2952, col: 9, offset: 93116,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2642, col: 5, offset: 84366},
+																					pos:   position{line: 2643, col: 5, offset: 84309},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2643, col: 9, offset: 84384},
+																						pos: position{line: 2644, col: 9, offset: 84327},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2643, col: 10, offset: 84385},
+																								pos: position{line: 2644, col: 10, offset: 84328},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2643, col: 10, offset: 84385},
+																									pos:   position{line: 2644, col: 10, offset: 84328},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2643, col: 17, offset: 84392},
+																										pos: position{line: 2644, col: 17, offset: 84335},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2651, col: 21, offset: 84588},
+																												pos: position{line: 2652, col: 21, offset: 84531},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2651, col: 21, offset: 84588},
+																													pos: position{line: 2652, col: 21, offset: 84531},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2651, col: 21, offset: 84588},
+																															pos:   position{line: 2652, col: 21, offset: 84531},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2651, col: 27, offset: 84594},
+																																pos: position{line: 2652, col: 27, offset: 84537},
 																																expr: &actionExpr{
-																																	pos: position{line: 2656, col: 5, offset: 84669},
+																																	pos: position{line: 2657, col: 5, offset: 84612},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2656, col: 5, offset: 84669},
+																																		pos: position{line: 2657, col: 5, offset: 84612},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2656, col: 5, offset: 84669},
+																																				pos:        position{line: 2657, col: 5, offset: 84612},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2656, col: 9, offset: 84673},
+																																				pos: position{line: 2657, col: 9, offset: 84616},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2932, col: 10, offset: 92824},
+																																					pos: position{line: 2933, col: 10, offset: 92767},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2932, col: 10, offset: 92824},
+																																						pos:        position{line: 2933, col: 10, offset: 92767},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2656, col: 16, offset: 84680},
+																																				pos:   position{line: 2657, col: 16, offset: 84623},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2662, col: 5, offset: 84880},
+																																					pos: position{line: 2663, col: 5, offset: 84823},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2662, col: 5, offset: 84880},
+																																						pos:   position{line: 2663, col: 5, offset: 84823},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2662, col: 14, offset: 84889},
+																																							pos: position{line: 2663, col: 14, offset: 84832},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2662, col: 14, offset: 84889},
+																																								pos: position{line: 2663, col: 14, offset: 84832},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2662, col: 14, offset: 84889},
+																																									pos:        position{line: 2663, col: 14, offset: 84832},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2954, col: 8, offset: 93222},
+																															pos: position{line: 2955, col: 8, offset: 93165},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2941, col: 12, offset: 92995},
+																																	pos: position{line: 2942, col: 12, offset: 92938},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2941, col: 13, offset: 92996},
+																																		pos: position{line: 2942, col: 13, offset: 92939},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2941, col: 13, offset: 92996},
+																																				pos:        position{line: 2942, col: 13, offset: 92939},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2941, col: 20, offset: 93003},
+																																				pos:        position{line: 2942, col: 20, offset: 92946},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2941, col: 29, offset: 93012},
+																																				pos:        position{line: 2942, col: 29, offset: 92955},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2951, col: 8, offset: 93172},
+																																	pos: position{line: 2952, col: 8, offset: 93115},
 																																	expr: &anyMatcher{
-																																		line: 2951, col: 9, offset: 93173,
+																																		line: 2952, col: 9, offset: 93116,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2668, col: 24, offset: 85025},
+																												pos: position{line: 2669, col: 24, offset: 84968},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2668, col: 24, offset: 85025},
+																													pos:   position{line: 2669, col: 24, offset: 84968},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2668, col: 30, offset: 85031},
+																														pos: position{line: 2669, col: 30, offset: 84974},
 																														expr: &actionExpr{
-																															pos: position{line: 2673, col: 5, offset: 85107},
+																															pos: position{line: 2674, col: 5, offset: 85050},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2673, col: 5, offset: 85107},
+																																pos: position{line: 2674, col: 5, offset: 85050},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2673, col: 5, offset: 85107},
+																																		pos: position{line: 2674, col: 5, offset: 85050},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2638, col: 22, offset: 84304},
+																																			pos: position{line: 2639, col: 22, offset: 84247},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2634, col: 19, offset: 84224},
+																																					pos: position{line: 2635, col: 19, offset: 84167},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2634, col: 19, offset: 84224},
+																																							pos:        position{line: 2635, col: 19, offset: 84167},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2634, col: 26, offset: 84231},
+																																							pos: position{line: 2635, col: 26, offset: 84174},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2932, col: 10, offset: 92824},
+																																								pos: position{line: 2933, col: 10, offset: 92767},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2932, col: 10, offset: 92824},
+																																									pos:        position{line: 2933, col: 10, offset: 92767},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2954, col: 8, offset: 93222},
+																																							pos: position{line: 2955, col: 8, offset: 93165},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2941, col: 12, offset: 92995},
+																																									pos: position{line: 2942, col: 12, offset: 92938},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2941, col: 13, offset: 92996},
+																																										pos: position{line: 2942, col: 13, offset: 92939},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 13, offset: 92996},
+																																												pos:        position{line: 2942, col: 13, offset: 92939},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 20, offset: 93003},
+																																												pos:        position{line: 2942, col: 20, offset: 92946},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 29, offset: 93012},
+																																												pos:        position{line: 2942, col: 29, offset: 92955},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2951, col: 8, offset: 93172},
+																																									pos: position{line: 2952, col: 8, offset: 93115},
 																																									expr: &anyMatcher{
-																																										line: 2951, col: 9, offset: 93173,
+																																										line: 2952, col: 9, offset: 93116,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2951, col: 8, offset: 93172},
+																																					pos: position{line: 2952, col: 8, offset: 93115},
 																																					expr: &anyMatcher{
-																																						line: 2951, col: 9, offset: 93173,
+																																						line: 2952, col: 9, offset: 93116,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2674, col: 5, offset: 85130},
+																																		pos: position{line: 2675, col: 5, offset: 85073},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2949, col: 11, offset: 93158},
+																																						pos: position{line: 2950, col: 11, offset: 93101},
 																																						expr: &anyMatcher{
-																																							line: 2949, col: 13, offset: 93160,
+																																							line: 2950, col: 13, offset: 93103,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2932, col: 10, offset: 92824},
+																																							pos: position{line: 2933, col: 10, offset: 92767},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2932, col: 10, offset: 92824},
+																																								pos:        position{line: 2933, col: 10, offset: 92767},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2954, col: 8, offset: 93222},
+																																						pos: position{line: 2955, col: 8, offset: 93165},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2941, col: 12, offset: 92995},
+																																								pos: position{line: 2942, col: 12, offset: 92938},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2941, col: 13, offset: 92996},
+																																									pos: position{line: 2942, col: 13, offset: 92939},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 13, offset: 92996},
+																																											pos:        position{line: 2942, col: 13, offset: 92939},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 20, offset: 93003},
+																																											pos:        position{line: 2942, col: 20, offset: 92946},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 29, offset: 93012},
+																																											pos:        position{line: 2942, col: 29, offset: 92955},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2951, col: 8, offset: 93172},
+																																								pos: position{line: 2952, col: 8, offset: 93115},
 																																								expr: &anyMatcher{
-																																									line: 2951, col: 9, offset: 93173,
+																																									line: 2952, col: 9, offset: 93116,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2675, col: 5, offset: 85145},
+																																		pos:   position{line: 2676, col: 5, offset: 85088},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2675, col: 12, offset: 85152},
+																																			pos: position{line: 2676, col: 12, offset: 85095},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2692, col: 20, offset: 85616},
+																																				pos: position{line: 2693, col: 20, offset: 85559},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2692, col: 20, offset: 85616},
+																																					pos: position{line: 2693, col: 20, offset: 85559},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2692, col: 20, offset: 85616},
+																																						pos:        position{line: 2693, col: 20, offset: 85559},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2675, col: 31, offset: 85171},
+																																		pos:        position{line: 2676, col: 31, offset: 85114},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2675, col: 35, offset: 85175},
+																																		pos: position{line: 2676, col: 35, offset: 85118},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2932, col: 10, offset: 92824},
+																																			pos: position{line: 2933, col: 10, offset: 92767},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2932, col: 10, offset: 92824},
+																																				pos:        position{line: 2933, col: 10, offset: 92767},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2675, col: 42, offset: 85182},
+																																		pos: position{line: 2676, col: 42, offset: 85125},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2941, col: 12, offset: 92995},
+																																			pos: position{line: 2942, col: 12, offset: 92938},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2941, col: 13, offset: 92996},
+																																				pos: position{line: 2942, col: 13, offset: 92939},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2941, col: 13, offset: 92996},
+																																						pos:        position{line: 2942, col: 13, offset: 92939},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2941, col: 20, offset: 93003},
+																																						pos:        position{line: 2942, col: 20, offset: 92946},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2941, col: 29, offset: 93012},
+																																						pos:        position{line: 2942, col: 29, offset: 92955},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2675, col: 51, offset: 85191},
+																																		pos:   position{line: 2676, col: 51, offset: 85134},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2681, col: 5, offset: 85350},
+																																			pos: position{line: 2682, col: 5, offset: 85293},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2682, col: 9, offset: 85360},
+																																				pos: position{line: 2683, col: 9, offset: 85303},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2682, col: 9, offset: 85360},
+																																					pos: position{line: 2683, col: 9, offset: 85303},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2682, col: 9, offset: 85360},
+																																							pos: position{line: 2683, col: 9, offset: 85303},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2638, col: 22, offset: 84304},
+																																								pos: position{line: 2639, col: 22, offset: 84247},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2634, col: 19, offset: 84224},
+																																										pos: position{line: 2635, col: 19, offset: 84167},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2634, col: 19, offset: 84224},
+																																												pos:        position{line: 2635, col: 19, offset: 84167},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2634, col: 26, offset: 84231},
+																																												pos: position{line: 2635, col: 26, offset: 84174},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2932, col: 10, offset: 92824},
+																																													pos: position{line: 2933, col: 10, offset: 92767},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2932, col: 10, offset: 92824},
+																																														pos:        position{line: 2933, col: 10, offset: 92767},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2954, col: 8, offset: 93222},
+																																												pos: position{line: 2955, col: 8, offset: 93165},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2941, col: 12, offset: 92995},
+																																														pos: position{line: 2942, col: 12, offset: 92938},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2941, col: 13, offset: 92996},
+																																															pos: position{line: 2942, col: 13, offset: 92939},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2951, col: 8, offset: 93172},
+																																														pos: position{line: 2952, col: 8, offset: 93115},
 																																														expr: &anyMatcher{
-																																															line: 2951, col: 9, offset: 93173,
+																																															line: 2952, col: 9, offset: 93116,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2951, col: 8, offset: 93172},
+																																										pos: position{line: 2952, col: 8, offset: 93115},
 																																										expr: &anyMatcher{
-																																											line: 2951, col: 9, offset: 93173,
+																																											line: 2952, col: 9, offset: 93116,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2683, col: 9, offset: 85387},
+																																							pos: position{line: 2684, col: 9, offset: 85330},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2949, col: 11, offset: 93158},
+																																											pos: position{line: 2950, col: 11, offset: 93101},
 																																											expr: &anyMatcher{
-																																												line: 2949, col: 13, offset: 93160,
+																																												line: 2950, col: 13, offset: 93103,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2932, col: 10, offset: 92824},
+																																												pos: position{line: 2933, col: 10, offset: 92767},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2932, col: 10, offset: 92824},
+																																													pos:        position{line: 2933, col: 10, offset: 92767},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2954, col: 8, offset: 93222},
+																																											pos: position{line: 2955, col: 8, offset: 93165},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2941, col: 12, offset: 92995},
+																																													pos: position{line: 2942, col: 12, offset: 92938},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2941, col: 13, offset: 92996},
+																																														pos: position{line: 2942, col: 13, offset: 92939},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2951, col: 8, offset: 93172},
+																																													pos: position{line: 2952, col: 8, offset: 93115},
 																																													expr: &anyMatcher{
-																																														line: 2951, col: 9, offset: 93173,
+																																														line: 2952, col: 9, offset: 93116,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2684, col: 9, offset: 85406},
+																																							pos: position{line: 2685, col: 9, offset: 85349},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2684, col: 11, offset: 85408},
+																																								pos: position{line: 2685, col: 11, offset: 85351},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2684, col: 11, offset: 85408},
+																																										pos:   position{line: 2685, col: 11, offset: 85351},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2684, col: 18, offset: 85415},
+																																											pos: position{line: 2685, col: 18, offset: 85358},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2692, col: 20, offset: 85616},
+																																												pos: position{line: 2693, col: 20, offset: 85559},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2692, col: 20, offset: 85616},
+																																													pos: position{line: 2693, col: 20, offset: 85559},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2692, col: 20, offset: 85616},
+																																														pos:        position{line: 2693, col: 20, offset: 85559},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2684, col: 37, offset: 85434},
+																																										pos:        position{line: 2685, col: 37, offset: 85377},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2685, col: 9, offset: 85447},
+																																							pos:   position{line: 2686, col: 9, offset: 85390},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2685, col: 18, offset: 85456},
+																																								pos: position{line: 2686, col: 18, offset: 85399},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2685, col: 18, offset: 85456},
+																																									pos: position{line: 2686, col: 18, offset: 85399},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2685, col: 18, offset: 85456},
+																																										pos:        position{line: 2686, col: 18, offset: 85399},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2687, col: 12, offset: 85518},
+																																							pos: position{line: 2688, col: 12, offset: 85461},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2954, col: 8, offset: 93222},
+																																								pos: position{line: 2955, col: 8, offset: 93165},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2941, col: 12, offset: 92995},
+																																										pos: position{line: 2942, col: 12, offset: 92938},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2941, col: 13, offset: 92996},
+																																											pos: position{line: 2942, col: 13, offset: 92939},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2941, col: 13, offset: 92996},
+																																													pos:        position{line: 2942, col: 13, offset: 92939},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2941, col: 20, offset: 93003},
+																																													pos:        position{line: 2942, col: 20, offset: 92946},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2941, col: 29, offset: 93012},
+																																													pos:        position{line: 2942, col: 29, offset: 92955},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2951, col: 8, offset: 93172},
+																																										pos: position{line: 2952, col: 8, offset: 93115},
 																																										expr: &anyMatcher{
-																																											line: 2951, col: 9, offset: 93173,
+																																											line: 2952, col: 9, offset: 93116,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2949, col: 11, offset: 93158},
+																											pos: position{line: 2950, col: 11, offset: 93101},
 																											expr: &anyMatcher{
-																												line: 2949, col: 13, offset: 93160,
+																												line: 2950, col: 13, offset: 93103,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2638, col: 22, offset: 84304},
+														pos: position{line: 2639, col: 22, offset: 84247},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2634, col: 19, offset: 84224},
+																pos: position{line: 2635, col: 19, offset: 84167},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2634, col: 19, offset: 84224},
+																		pos:        position{line: 2635, col: 19, offset: 84167},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2634, col: 26, offset: 84231},
+																		pos: position{line: 2635, col: 26, offset: 84174},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2502, col: 22, offset: 80526},
+												pos: position{line: 2503, col: 22, offset: 80481},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2507, col: 31, offset: 80747},
+														pos:        position{line: 2508, col: 31, offset: 80702},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2507, col: 36, offset: 80752},
+														pos: position{line: 2508, col: 36, offset: 80707},
 														expr: &litMatcher{
-															pos:        position{line: 2507, col: 37, offset: 80753},
+															pos:        position{line: 2508, col: 37, offset: 80708},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2502, col: 49, offset: 80553},
+														pos:   position{line: 2503, col: 49, offset: 80508},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2851, col: 13, offset: 90511},
+																pos: position{line: 2852, col: 13, offset: 90454},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2851, col: 13, offset: 90511},
+																	pos:        position{line: 2852, col: 13, offset: 90454},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2954, col: 8, offset: 93222},
+																										pos: position{line: 2955, col: 8, offset: 93165},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2941, col: 12, offset: 92995},
+																												pos: position{line: 2942, col: 12, offset: 92938},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2941, col: 13, offset: 92996},
+																													pos: position{line: 2942, col: 13, offset: 92939},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 13, offset: 92996},
+																															pos:        position{line: 2942, col: 13, offset: 92939},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 20, offset: 93003},
+																															pos:        position{line: 2942, col: 20, offset: 92946},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 29, offset: 93012},
+																															pos:        position{line: 2942, col: 29, offset: 92955},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2951, col: 8, offset: 93172},
+																												pos: position{line: 2952, col: 8, offset: 93115},
 																												expr: &anyMatcher{
-																													line: 2951, col: 9, offset: 93173,
+																													line: 2952, col: 9, offset: 93116,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2936, col: 11, offset: 92885},
+												pos: position{line: 2937, col: 11, offset: 92828},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2936, col: 11, offset: 92885},
+													pos: position{line: 2937, col: 11, offset: 92828},
 													expr: &charClassMatcher{
-														pos:        position{line: 2936, col: 11, offset: 92885},
+														pos:        position{line: 2937, col: 11, offset: 92828},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2941, col: 12, offset: 92995},
+												pos: position{line: 2942, col: 12, offset: 92938},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2941, col: 13, offset: 92996},
+													pos: position{line: 2942, col: 13, offset: 92939},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2941, col: 13, offset: 92996},
+															pos:        position{line: 2942, col: 13, offset: 92939},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 20, offset: 93003},
+															pos:        position{line: 2942, col: 20, offset: 92946},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 29, offset: 93012},
+															pos:        position{line: 2942, col: 29, offset: 92955},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2932, col: 10, offset: 92824},
+													pos: position{line: 2933, col: 10, offset: 92767},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2932, col: 10, offset: 92824},
+														pos:        position{line: 2933, col: 10, offset: 92767},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2932, col: 10, offset: 92824},
+											pos: position{line: 2933, col: 10, offset: 92767},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2932, col: 10, offset: 92824},
+												pos:        position{line: 2933, col: 10, offset: 92767},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2954, col: 8, offset: 93222},
+										pos: position{line: 2955, col: 8, offset: 93165},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2941, col: 12, offset: 92995},
+												pos: position{line: 2942, col: 12, offset: 92938},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2941, col: 13, offset: 92996},
+													pos: position{line: 2942, col: 13, offset: 92939},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2941, col: 13, offset: 92996},
+															pos:        position{line: 2942, col: 13, offset: 92939},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 20, offset: 93003},
+															pos:        position{line: 2942, col: 20, offset: 92946},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 29, offset: 93012},
+															pos:        position{line: 2942, col: 29, offset: 92955},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2951, col: 8, offset: 93172},
+												pos: position{line: 2952, col: 8, offset: 93115},
 												expr: &anyMatcher{
-													line: 2951, col: 9, offset: 93173,
+													line: 2952, col: 9, offset: 93116,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80072},
+										pos: position{line: 2490, col: 5, offset: 80027},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80072},
+													pos: position{line: 2490, col: 5, offset: 80027},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2492, col: 5, offset: 80148},
+													pos:   position{line: 2493, col: 5, offset: 80103},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2493, col: 9, offset: 80166},
+														pos: position{line: 2494, col: 9, offset: 80121},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2493, col: 10, offset: 80167},
+															pos:        position{line: 2494, col: 10, offset: 80122},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2932, col: 10, offset: 92824},
+										pos: position{line: 2933, col: 10, offset: 92767},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2932, col: 10, offset: 92824},
+											pos:        position{line: 2933, col: 10, offset: 92767},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2932, col: 10, offset: 92824},
+													pos: position{line: 2933, col: 10, offset: 92767},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2932, col: 10, offset: 92824},
+														pos:        position{line: 2933, col: 10, offset: 92767},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2954, col: 8, offset: 93222},
+												pos: position{line: 2955, col: 8, offset: 93165},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2941, col: 12, offset: 92995},
+														pos: position{line: 2942, col: 12, offset: 92938},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2941, col: 13, offset: 92996},
+															pos: position{line: 2942, col: 13, offset: 92939},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2941, col: 13, offset: 92996},
+																	pos:        position{line: 2942, col: 13, offset: 92939},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 20, offset: 93003},
+																	pos:        position{line: 2942, col: 20, offset: 92946},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 29, offset: 93012},
+																	pos:        position{line: 2942, col: 29, offset: 92955},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2951, col: 8, offset: 93172},
+														pos: position{line: 2952, col: 8, offset: 93115},
 														expr: &anyMatcher{
-															line: 2951, col: 9, offset: 93173,
+															line: 2952, col: 9, offset: 93116,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2790, col: 14, offset: 88846},
+																				pos: position{line: 2791, col: 14, offset: 88789},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2790, col: 14, offset: 88846},
+																					pos: position{line: 2791, col: 14, offset: 88789},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 14, offset: 88846},
+																						pos:        position{line: 2791, col: 14, offset: 88789},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2822, col: 5, offset: 89639},
+																				pos: position{line: 2823, col: 5, offset: 89582},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2823, col: 9, offset: 89649},
+																					pos: position{line: 2824, col: 9, offset: 89592},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2823, col: 10, offset: 89650},
+																							pos:        position{line: 2824, col: 10, offset: 89593},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2825, col: 13, offset: 89747},
+																							pos: position{line: 2826, col: 13, offset: 89690},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2825, col: 13, offset: 89747},
+																									pos: position{line: 2826, col: 13, offset: 89690},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2828, col: 13, offset: 89847},
+																									pos:        position{line: 2829, col: 13, offset: 89790},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2828, col: 19, offset: 89853},
+																							pos:        position{line: 2829, col: 19, offset: 89796},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2831, col: 13, offset: 89891},
+																							pos: position{line: 2832, col: 13, offset: 89834},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2831, col: 13, offset: 89891},
+																									pos: position{line: 2832, col: 13, offset: 89834},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2834, col: 14, offset: 89984},
+																									pos:        position{line: 2835, col: 14, offset: 89927},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2836, col: 12, offset: 90028},
+																							pos: position{line: 2837, col: 12, offset: 89971},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2836, col: 12, offset: 90028},
+																									pos:        position{line: 2837, col: 12, offset: 89971},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2836, col: 16, offset: 90032},
+																									pos: position{line: 2837, col: 16, offset: 89975},
 																									expr: &litMatcher{
-																										pos:        position{line: 2836, col: 17, offset: 90033},
+																										pos:        position{line: 2837, col: 17, offset: 89976},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90293},
+																				pos: position{line: 2845, col: 12, offset: 90236},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2844, col: 12, offset: 90293},
+																					pos:        position{line: 2845, col: 12, offset: 90236},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2932, col: 10, offset: 92824},
+													pos: position{line: 2933, col: 10, offset: 92767},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2932, col: 10, offset: 92824},
+														pos:        position{line: 2933, col: 10, offset: 92767},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2954, col: 8, offset: 93222},
+												pos: position{line: 2955, col: 8, offset: 93165},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2941, col: 12, offset: 92995},
+														pos: position{line: 2942, col: 12, offset: 92938},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2941, col: 13, offset: 92996},
+															pos: position{line: 2942, col: 13, offset: 92939},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2941, col: 13, offset: 92996},
+																	pos:        position{line: 2942, col: 13, offset: 92939},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 20, offset: 93003},
+																	pos:        position{line: 2942, col: 20, offset: 92946},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 29, offset: 93012},
+																	pos:        position{line: 2942, col: 29, offset: 92955},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2951, col: 8, offset: 93172},
+														pos: position{line: 2952, col: 8, offset: 93115},
 														expr: &anyMatcher{
-															line: 2951, col: 9, offset: 93173,
+															line: 2952, col: 9, offset: 93116,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2932, col: 10, offset: 92824},
+													pos: position{line: 2933, col: 10, offset: 92767},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2932, col: 10, offset: 92824},
+														pos:        position{line: 2933, col: 10, offset: 92767},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2954, col: 8, offset: 93222},
+												pos: position{line: 2955, col: 8, offset: 93165},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2941, col: 12, offset: 92995},
+														pos: position{line: 2942, col: 12, offset: 92938},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2941, col: 13, offset: 92996},
+															pos: position{line: 2942, col: 13, offset: 92939},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2941, col: 13, offset: 92996},
+																	pos:        position{line: 2942, col: 13, offset: 92939},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 20, offset: 93003},
+																	pos:        position{line: 2942, col: 20, offset: 92946},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 29, offset: 93012},
+																	pos:        position{line: 2942, col: 29, offset: 92955},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2951, col: 8, offset: 93172},
+														pos: position{line: 2952, col: 8, offset: 93115},
 														expr: &anyMatcher{
-															line: 2951, col: 9, offset: 93173,
+															line: 2952, col: 9, offset: 93116,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2932, col: 10, offset: 92824},
+											pos: position{line: 2933, col: 10, offset: 92767},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2932, col: 10, offset: 92824},
+												pos:        position{line: 2933, col: 10, offset: 92767},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2932, col: 10, offset: 92824},
+													pos: position{line: 2933, col: 10, offset: 92767},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2932, col: 10, offset: 92824},
+														pos:        position{line: 2933, col: 10, offset: 92767},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2932, col: 10, offset: 92824},
+												pos: position{line: 2933, col: 10, offset: 92767},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2932, col: 10, offset: 92824},
+													pos:        position{line: 2933, col: 10, offset: 92767},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2932, col: 10, offset: 92824},
+											pos: position{line: 2933, col: 10, offset: 92767},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2932, col: 10, offset: 92824},
+												pos:        position{line: 2933, col: 10, offset: 92767},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2932, col: 10, offset: 92824},
+												pos: position{line: 2933, col: 10, offset: 92767},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2932, col: 10, offset: 92824},
+													pos:        position{line: 2933, col: 10, offset: 92767},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88846},
+									pos: position{line: 2791, col: 14, offset: 88789},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88846},
+										pos: position{line: 2791, col: 14, offset: 88789},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88846},
+											pos:        position{line: 2791, col: 14, offset: 88789},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2932, col: 10, offset: 92824},
+									pos: position{line: 2933, col: 10, offset: 92767},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2932, col: 10, offset: 92824},
+										pos:        position{line: 2933, col: 10, offset: 92767},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2932, col: 10, offset: 92824},
+												pos: position{line: 2933, col: 10, offset: 92767},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2932, col: 10, offset: 92824},
+													pos:        position{line: 2933, col: 10, offset: 92767},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88846},
+									pos: position{line: 2791, col: 14, offset: 88789},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88846},
+										pos: position{line: 2791, col: 14, offset: 88789},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88846},
+											pos:        position{line: 2791, col: 14, offset: 88789},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2932, col: 10, offset: 92824},
+									pos: position{line: 2933, col: 10, offset: 92767},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2932, col: 10, offset: 92824},
+										pos:        position{line: 2933, col: 10, offset: 92767},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2932, col: 10, offset: 92824},
+											pos: position{line: 2933, col: 10, offset: 92767},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2932, col: 10, offset: 92824},
+												pos:        position{line: 2933, col: 10, offset: 92767},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2917, col: 7, offset: 92476},
+										pos: position{line: 2918, col: 7, offset: 92419},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2917, col: 7, offset: 92476},
+											pos: position{line: 2918, col: 7, offset: 92419},
 											expr: &charClassMatcher{
-												pos:        position{line: 2917, col: 7, offset: 92476},
+												pos:        position{line: 2918, col: 7, offset: 92419},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2932, col: 10, offset: 92824},
+										pos: position{line: 2933, col: 10, offset: 92767},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2932, col: 10, offset: 92824},
+											pos:        position{line: 2933, col: 10, offset: 92767},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2917, col: 7, offset: 92476},
+										pos: position{line: 2918, col: 7, offset: 92419},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2917, col: 7, offset: 92476},
+											pos: position{line: 2918, col: 7, offset: 92419},
 											expr: &charClassMatcher{
-												pos:        position{line: 2917, col: 7, offset: 92476},
+												pos:        position{line: 2918, col: 7, offset: 92419},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 17, offset: 90648},
+								pos: position{line: 2860, col: 17, offset: 90591},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2859, col: 17, offset: 90648},
+									pos:   position{line: 2860, col: 17, offset: 90591},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 5, offset: 91233},
+										pos: position{line: 2881, col: 5, offset: 91176},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2880, col: 5, offset: 91233},
+											pos:   position{line: 2881, col: 5, offset: 91176},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2880, col: 14, offset: 91242},
+												pos: position{line: 2881, col: 14, offset: 91185},
 												expr: &choiceExpr{
-													pos: position{line: 2881, col: 9, offset: 91252},
+													pos: position{line: 2882, col: 9, offset: 91195},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 9, offset: 91252},
+															pos: position{line: 2882, col: 9, offset: 91195},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2881, col: 9, offset: 91252},
+																pos: position{line: 2882, col: 9, offset: 91195},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2881, col: 9, offset: 91252},
+																		pos: position{line: 2882, col: 9, offset: 91195},
 																		expr: &litMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91253},
+																			pos:        position{line: 2882, col: 10, offset: 91196},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2882, col: 9, offset: 91281},
+																		pos: position{line: 2883, col: 9, offset: 91224},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 10, offset: 91282},
+																			pos:        position{line: 2883, col: 10, offset: 91225},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2885, col: 11, offset: 91494},
+															pos: position{line: 2886, col: 11, offset: 91437},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2885, col: 11, offset: 91494},
+																	pos:        position{line: 2886, col: 11, offset: 91437},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2885, col: 19, offset: 91502},
+																	pos: position{line: 2886, col: 19, offset: 91445},
 																	expr: &seqExpr{
-																		pos: position{line: 2885, col: 21, offset: 91504},
+																		pos: position{line: 2886, col: 21, offset: 91447},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2885, col: 21, offset: 91504},
+																				pos: position{line: 2886, col: 21, offset: 91447},
 																				expr: &actionExpr{
-																					pos: position{line: 2932, col: 10, offset: 92824},
+																					pos: position{line: 2933, col: 10, offset: 92767},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2932, col: 10, offset: 92824},
+																						pos:        position{line: 2933, col: 10, offset: 92767},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 28, offset: 91511},
+																				pos: position{line: 2886, col: 28, offset: 91454},
 																				expr: &notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2888, col: 11, offset: 91631},
+															pos: position{line: 2889, col: 11, offset: 91574},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2888, col: 11, offset: 91631},
+																pos:        position{line: 2889, col: 11, offset: 91574},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2855, col: 14, offset: 90578},
+								pos: position{line: 2856, col: 14, offset: 90521},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2855, col: 14, offset: 90578},
+									pos: position{line: 2856, col: 14, offset: 90521},
 									expr: &charClassMatcher{
-										pos:        position{line: 2855, col: 14, offset: 90578},
+										pos:        position{line: 2856, col: 14, offset: 90521},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2502, col: 22, offset: 80526},
+										pos: position{line: 2503, col: 22, offset: 80481},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2507, col: 31, offset: 80747},
+													pos:        position{line: 2508, col: 31, offset: 80702},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2507, col: 36, offset: 80752},
+													pos: position{line: 2508, col: 36, offset: 80707},
 													expr: &litMatcher{
-														pos:        position{line: 2507, col: 37, offset: 80753},
+														pos:        position{line: 2508, col: 37, offset: 80708},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 49, offset: 80553},
+													pos:   position{line: 2503, col: 49, offset: 80508},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90511},
+														pos: position{line: 2852, col: 13, offset: 90454},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90511},
+																pos:        position{line: 2852, col: 13, offset: 90454},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2502, col: 22, offset: 80526},
+										pos: position{line: 2503, col: 22, offset: 80481},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2507, col: 31, offset: 80747},
+													pos:        position{line: 2508, col: 31, offset: 80702},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2507, col: 36, offset: 80752},
+													pos: position{line: 2508, col: 36, offset: 80707},
 													expr: &litMatcher{
-														pos:        position{line: 2507, col: 37, offset: 80753},
+														pos:        position{line: 2508, col: 37, offset: 80708},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 49, offset: 80553},
+													pos:   position{line: 2503, col: 49, offset: 80508},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90511},
+														pos: position{line: 2852, col: 13, offset: 90454},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90511},
+																pos:        position{line: 2852, col: 13, offset: 90454},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2949, col: 11, offset: 93158},
+																										pos: position{line: 2950, col: 11, offset: 93101},
 																										expr: &anyMatcher{
-																											line: 2949, col: 13, offset: 93160,
+																											line: 2950, col: 13, offset: 93103,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2502, col: 22, offset: 80526},
+															pos: position{line: 2503, col: 22, offset: 80481},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 22, offset: 80526},
+																pos: position{line: 2503, col: 22, offset: 80481},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2507, col: 31, offset: 80747},
+																		pos:        position{line: 2508, col: 31, offset: 80702},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2507, col: 36, offset: 80752},
+																		pos: position{line: 2508, col: 36, offset: 80707},
 																		expr: &litMatcher{
-																			pos:        position{line: 2507, col: 37, offset: 80753},
+																			pos:        position{line: 2508, col: 37, offset: 80708},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2502, col: 49, offset: 80553},
+																		pos:   position{line: 2503, col: 49, offset: 80508},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90511},
+																			pos: position{line: 2852, col: 13, offset: 90454},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90511},
+																				pos: position{line: 2852, col: 13, offset: 90454},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90511},
+																					pos:        position{line: 2852, col: 13, offset: 90454},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2932, col: 10, offset: 92824},
+																																	pos: position{line: 2933, col: 10, offset: 92767},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2932, col: 10, offset: 92824},
+																																		pos:        position{line: 2933, col: 10, offset: 92767},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2954, col: 8, offset: 93222},
+																																pos: position{line: 2955, col: 8, offset: 93165},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2941, col: 12, offset: 92995},
+																																		pos: position{line: 2942, col: 12, offset: 92938},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2941, col: 13, offset: 92996},
+																																			pos: position{line: 2942, col: 13, offset: 92939},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 13, offset: 92996},
+																																					pos:        position{line: 2942, col: 13, offset: 92939},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 20, offset: 93003},
+																																					pos:        position{line: 2942, col: 20, offset: 92946},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 29, offset: 93012},
+																																					pos:        position{line: 2942, col: 29, offset: 92955},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2951, col: 8, offset: 93172},
+																																		pos: position{line: 2952, col: 8, offset: 93115},
 																																		expr: &anyMatcher{
-																																			line: 2951, col: 9, offset: 93173,
+																																			line: 2952, col: 9, offset: 93116,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2949, col: 11, offset: 93158},
+																											pos: position{line: 2950, col: 11, offset: 93101},
 																											expr: &anyMatcher{
-																												line: 2949, col: 13, offset: 93160,
+																												line: 2950, col: 13, offset: 93103,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2851, col: 13, offset: 90511},
+																												pos: position{line: 2852, col: 13, offset: 90454},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2851, col: 13, offset: 90511},
+																													pos: position{line: 2852, col: 13, offset: 90454},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2851, col: 13, offset: 90511},
+																														pos:        position{line: 2852, col: 13, offset: 90454},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2932, col: 10, offset: 92824},
+															pos: position{line: 2933, col: 10, offset: 92767},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2932, col: 10, offset: 92824},
+																pos:        position{line: 2933, col: 10, offset: 92767},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2502, col: 22, offset: 80526},
+												pos: position{line: 2503, col: 22, offset: 80481},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2507, col: 31, offset: 80747},
+														pos:        position{line: 2508, col: 31, offset: 80702},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2507, col: 36, offset: 80752},
+														pos: position{line: 2508, col: 36, offset: 80707},
 														expr: &litMatcher{
-															pos:        position{line: 2507, col: 37, offset: 80753},
+															pos:        position{line: 2508, col: 37, offset: 80708},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2502, col: 49, offset: 80553},
+														pos:   position{line: 2503, col: 49, offset: 80508},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2851, col: 13, offset: 90511},
+																pos: position{line: 2852, col: 13, offset: 90454},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2851, col: 13, offset: 90511},
+																	pos:        position{line: 2852, col: 13, offset: 90454},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2932, col: 10, offset: 92824},
+																													pos: position{line: 2933, col: 10, offset: 92767},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2932, col: 10, offset: 92824},
+																														pos:        position{line: 2933, col: 10, offset: 92767},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2954, col: 8, offset: 93222},
+																												pos: position{line: 2955, col: 8, offset: 93165},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2941, col: 12, offset: 92995},
+																														pos: position{line: 2942, col: 12, offset: 92938},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2941, col: 13, offset: 92996},
+																															pos: position{line: 2942, col: 13, offset: 92939},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 13, offset: 92996},
+																																	pos:        position{line: 2942, col: 13, offset: 92939},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 20, offset: 93003},
+																																	pos:        position{line: 2942, col: 20, offset: 92946},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2941, col: 29, offset: 93012},
+																																	pos:        position{line: 2942, col: 29, offset: 92955},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2951, col: 8, offset: 93172},
+																														pos: position{line: 2952, col: 8, offset: 93115},
 																														expr: &anyMatcher{
-																															line: 2951, col: 9, offset: 93173,
+																															line: 2952, col: 9, offset: 93116,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90511},
+																									pos: position{line: 2852, col: 13, offset: 90454},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90511},
+																										pos:        position{line: 2852, col: 13, offset: 90454},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2936, col: 11, offset: 92885},
+							pos: position{line: 2937, col: 11, offset: 92828},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2936, col: 11, offset: 92885},
+								pos: position{line: 2937, col: 11, offset: 92828},
 								expr: &charClassMatcher{
-									pos:        position{line: 2936, col: 11, offset: 92885},
+									pos:        position{line: 2937, col: 11, offset: 92828},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19871,28 +19871,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1298, col: 1, offset: 40191},
+			pos:  position{line: 1298, col: 1, offset: 40185},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 5, offset: 40212},
+				pos: position{line: 1299, col: 5, offset: 40206},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1299, col: 5, offset: 40212},
+					pos: position{line: 1299, col: 5, offset: 40206},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1299, col: 5, offset: 40212},
+							pos: position{line: 1299, col: 5, offset: 40206},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1302, col: 5, offset: 40271},
+							pos:        position{line: 1302, col: 5, offset: 40265},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1302, col: 12, offset: 40278},
+							pos:   position{line: 1302, col: 12, offset: 40272},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1302, col: 24, offset: 40290},
+								pos:  position{line: 1302, col: 24, offset: 40284},
 								name: "InlineAttributes",
 							},
 						},
@@ -19902,33 +19902,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1309, col: 1, offset: 40578},
+			pos:  position{line: 1309, col: 1, offset: 40572},
 			expr: &actionExpr{
-				pos: position{line: 1310, col: 5, offset: 40597},
+				pos: position{line: 1310, col: 5, offset: 40591},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1310, col: 5, offset: 40597},
+					pos: position{line: 1310, col: 5, offset: 40591},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1310, col: 5, offset: 40597},
+							pos: position{line: 1310, col: 5, offset: 40591},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1313, col: 5, offset: 40656},
+							pos:        position{line: 1313, col: 5, offset: 40650},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 13, offset: 40664},
+							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2917, col: 7, offset: 92476},
+								pos: position{line: 2918, col: 7, offset: 92419},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2917, col: 7, offset: 92476},
+									pos: position{line: 2918, col: 7, offset: 92419},
 									expr: &charClassMatcher{
-										pos:        position{line: 2917, col: 7, offset: 92476},
+										pos:        position{line: 2918, col: 7, offset: 92419},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19938,10 +19938,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 21, offset: 40672},
+							pos:   position{line: 1313, col: 21, offset: 40666},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1313, col: 33, offset: 40684},
+								pos:  position{line: 1313, col: 33, offset: 40678},
 								name: "InlineAttributes",
 							},
 						},
@@ -19951,29 +19951,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1320, col: 1, offset: 40983},
+			pos:  position{line: 1320, col: 1, offset: 40977},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 14, offset: 40996},
+				pos: position{line: 1320, col: 14, offset: 40990},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 14, offset: 40996},
+					pos: position{line: 1320, col: 14, offset: 40990},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 14, offset: 40996},
+							pos:        position{line: 1320, col: 14, offset: 40990},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 19, offset: 41001},
+							pos:   position{line: 1320, col: 19, offset: 40995},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 25, offset: 41007},
+								pos:  position{line: 1320, col: 25, offset: 41001},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1320, col: 43, offset: 41025},
+							pos:        position{line: 1320, col: 43, offset: 41019},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19984,25 +19984,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1324, col: 1, offset: 41094},
+			pos:  position{line: 1324, col: 1, offset: 41088},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 21, offset: 41114},
+				pos: position{line: 1324, col: 21, offset: 41108},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1324, col: 21, offset: 41114},
+					pos:   position{line: 1324, col: 21, offset: 41108},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1324, col: 30, offset: 41123},
+						pos: position{line: 1324, col: 30, offset: 41117},
 						expr: &choiceExpr{
-							pos: position{line: 1324, col: 31, offset: 41124},
+							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88846},
+									pos: position{line: 2791, col: 14, offset: 88789},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88846},
+										pos: position{line: 2791, col: 14, offset: 88789},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88846},
+											pos:        position{line: 2791, col: 14, offset: 88789},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20011,14 +20011,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1324, col: 43, offset: 41136},
+									pos:  position{line: 1324, col: 43, offset: 41130},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2932, col: 10, offset: 92824},
+									pos: position{line: 2933, col: 10, offset: 92767},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2932, col: 10, offset: 92824},
+										pos:        position{line: 2933, col: 10, offset: 92767},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2489, col: 5, offset: 80072},
+									pos: position{line: 2490, col: 5, offset: 80027},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2489, col: 5, offset: 80072},
+										pos: position{line: 2490, col: 5, offset: 80027},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2489, col: 5, offset: 80072},
+												pos: position{line: 2490, col: 5, offset: 80027},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2492, col: 5, offset: 80148},
+												pos:   position{line: 2493, col: 5, offset: 80103},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2493, col: 9, offset: 80166},
+													pos: position{line: 2494, col: 9, offset: 80121},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80167},
+														pos:        position{line: 2494, col: 10, offset: 80122},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20093,22 +20093,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1324, col: 104, offset: 41197},
+									pos: position{line: 1324, col: 104, offset: 41191},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1324, col: 105, offset: 41198},
+										pos: position{line: 1324, col: 105, offset: 41192},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1324, col: 105, offset: 41198},
+												pos: position{line: 1324, col: 105, offset: 41192},
 												expr: &litMatcher{
-													pos:        position{line: 1324, col: 106, offset: 41199},
+													pos:        position{line: 1324, col: 106, offset: 41193},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1324, col: 111, offset: 41204,
+												line: 1324, col: 111, offset: 41198,
 											},
 										},
 									},
@@ -20121,65 +20121,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1344, col: 1, offset: 41913},
+			pos:  position{line: 1344, col: 1, offset: 41907},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 5, offset: 41932},
+				pos: position{line: 1345, col: 5, offset: 41926},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 5, offset: 41932},
+					pos: position{line: 1345, col: 5, offset: 41926},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1345, col: 5, offset: 41932},
+							pos:        position{line: 1345, col: 5, offset: 41926},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 15, offset: 41942},
+							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 13, offset: 90744},
+								pos: position{line: 2864, col: 13, offset: 90687},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2863, col: 13, offset: 90744},
+									pos: position{line: 2864, col: 13, offset: 90687},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2863, col: 13, offset: 90744},
+											pos:   position{line: 2864, col: 13, offset: 90687},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2863, col: 20, offset: 90751},
+												pos: position{line: 2864, col: 20, offset: 90694},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 11, offset: 91121},
+													pos: position{line: 2876, col: 11, offset: 91064},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 12, offset: 91122},
+														pos: position{line: 2876, col: 12, offset: 91065},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91122},
+																pos:        position{line: 2876, col: 12, offset: 91065},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 24, offset: 91134},
+																pos:        position{line: 2876, col: 24, offset: 91077},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 37, offset: 91147},
+																pos:        position{line: 2876, col: 37, offset: 91090},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 48, offset: 91158},
+																pos:        position{line: 2876, col: 48, offset: 91101},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 59, offset: 91169},
+																pos:        position{line: 2876, col: 59, offset: 91112},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2863, col: 30, offset: 90761},
+											pos:   position{line: 2864, col: 30, offset: 90704},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 5, offset: 91233},
+												pos: position{line: 2881, col: 5, offset: 91176},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2880, col: 5, offset: 91233},
+													pos:   position{line: 2881, col: 5, offset: 91176},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 14, offset: 91242},
+														pos: position{line: 2881, col: 14, offset: 91185},
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 9, offset: 91252},
+															pos: position{line: 2882, col: 9, offset: 91195},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2881, col: 9, offset: 91252},
+																		pos: position{line: 2882, col: 9, offset: 91195},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				expr: &litMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91253},
+																					pos:        position{line: 2882, col: 10, offset: 91196},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2882, col: 9, offset: 91281},
+																				pos: position{line: 2883, col: 9, offset: 91224},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 91282},
+																					pos:        position{line: 2883, col: 10, offset: 91225},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2885, col: 11, offset: 91494},
+																	pos: position{line: 2886, col: 11, offset: 91437},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91494},
+																			pos:        position{line: 2886, col: 11, offset: 91437},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2885, col: 19, offset: 91502},
+																			pos: position{line: 2886, col: 19, offset: 91445},
 																			expr: &seqExpr{
-																				pos: position{line: 2885, col: 21, offset: 91504},
+																				pos: position{line: 2886, col: 21, offset: 91447},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 28, offset: 91511},
+																						pos: position{line: 2886, col: 28, offset: 91454},
 																						expr: &notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2888, col: 11, offset: 91631},
+																	pos: position{line: 2889, col: 11, offset: 91574},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 11, offset: 91631},
+																		pos:        position{line: 2889, col: 11, offset: 91574},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20680,20 +20680,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 31, offset: 41958},
+							pos:   position{line: 1345, col: 31, offset: 41952},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1345, col: 43, offset: 41970},
+								pos:  position{line: 1345, col: 43, offset: 41964},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1345, col: 61, offset: 41988},
+							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -20745,74 +20745,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1350, col: 1, offset: 42205},
+			pos:  position{line: 1350, col: 1, offset: 42199},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 16, offset: 42220},
+				pos: position{line: 1350, col: 16, offset: 42214},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 16, offset: 42220},
+					pos: position{line: 1350, col: 16, offset: 42214},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1350, col: 16, offset: 42220},
+							pos:        position{line: 1350, col: 16, offset: 42214},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1350, col: 25, offset: 42229},
+							pos: position{line: 1350, col: 25, offset: 42223},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 26, offset: 42230},
+								pos:        position{line: 1350, col: 26, offset: 42224},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 30, offset: 42234},
+							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 13, offset: 90744},
+								pos: position{line: 2864, col: 13, offset: 90687},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2863, col: 13, offset: 90744},
+									pos: position{line: 2864, col: 13, offset: 90687},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2863, col: 13, offset: 90744},
+											pos:   position{line: 2864, col: 13, offset: 90687},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2863, col: 20, offset: 90751},
+												pos: position{line: 2864, col: 20, offset: 90694},
 												expr: &actionExpr{
-													pos: position{line: 2875, col: 11, offset: 91121},
+													pos: position{line: 2876, col: 11, offset: 91064},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 12, offset: 91122},
+														pos: position{line: 2876, col: 12, offset: 91065},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91122},
+																pos:        position{line: 2876, col: 12, offset: 91065},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 24, offset: 91134},
+																pos:        position{line: 2876, col: 24, offset: 91077},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 37, offset: 91147},
+																pos:        position{line: 2876, col: 37, offset: 91090},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 48, offset: 91158},
+																pos:        position{line: 2876, col: 48, offset: 91101},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 59, offset: 91169},
+																pos:        position{line: 2876, col: 59, offset: 91112},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2863, col: 30, offset: 90761},
+											pos:   position{line: 2864, col: 30, offset: 90704},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 5, offset: 91233},
+												pos: position{line: 2881, col: 5, offset: 91176},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2880, col: 5, offset: 91233},
+													pos:   position{line: 2881, col: 5, offset: 91176},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 14, offset: 91242},
+														pos: position{line: 2881, col: 14, offset: 91185},
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 9, offset: 91252},
+															pos: position{line: 2882, col: 9, offset: 91195},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2881, col: 9, offset: 91252},
+																		pos: position{line: 2882, col: 9, offset: 91195},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				expr: &litMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91253},
+																					pos:        position{line: 2882, col: 10, offset: 91196},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2882, col: 9, offset: 91281},
+																				pos: position{line: 2883, col: 9, offset: 91224},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 91282},
+																					pos:        position{line: 2883, col: 10, offset: 91225},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2885, col: 11, offset: 91494},
+																	pos: position{line: 2886, col: 11, offset: 91437},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91494},
+																			pos:        position{line: 2886, col: 11, offset: 91437},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2885, col: 19, offset: 91502},
+																			pos: position{line: 2886, col: 19, offset: 91445},
 																			expr: &seqExpr{
-																				pos: position{line: 2885, col: 21, offset: 91504},
+																				pos: position{line: 2886, col: 21, offset: 91447},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 28, offset: 91511},
+																						pos: position{line: 2886, col: 28, offset: 91454},
 																						expr: &notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2888, col: 11, offset: 91631},
+																	pos: position{line: 2889, col: 11, offset: 91574},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 11, offset: 91631},
+																		pos:        position{line: 2889, col: 11, offset: 91574},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21313,10 +21313,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 46, offset: 42250},
+							pos:   position{line: 1350, col: 46, offset: 42244},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1350, col: 58, offset: 42262},
+								pos:  position{line: 1350, col: 58, offset: 42256},
 								name: "InlineAttributes",
 							},
 						},
@@ -21326,29 +21326,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1357, col: 1, offset: 42658},
+			pos:  position{line: 1357, col: 1, offset: 42652},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 15, offset: 42672},
+				pos: position{line: 1357, col: 15, offset: 42666},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 15, offset: 42672},
+					pos: position{line: 1357, col: 15, offset: 42666},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1357, col: 15, offset: 42672},
+							pos:        position{line: 1357, col: 15, offset: 42666},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 23, offset: 42680},
+							pos:   position{line: 1357, col: 23, offset: 42674},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1357, col: 29, offset: 42686},
+								pos: position{line: 1357, col: 29, offset: 42680},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1357, col: 29, offset: 42686},
+									pos: position{line: 1357, col: 29, offset: 42680},
 									expr: &charClassMatcher{
-										pos:        position{line: 1357, col: 29, offset: 42686},
+										pos:        position{line: 1357, col: 29, offset: 42680},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21359,10 +21359,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 73, offset: 42730},
+							pos:   position{line: 1357, col: 73, offset: 42724},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1357, col: 85, offset: 42742},
+								pos:  position{line: 1357, col: 85, offset: 42736},
 								name: "InlineAttributes",
 							},
 						},
@@ -21372,31 +21372,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1364, col: 1, offset: 43108},
+			pos:  position{line: 1364, col: 1, offset: 43102},
 			expr: &actionExpr{
-				pos: position{line: 1364, col: 19, offset: 43126},
+				pos: position{line: 1364, col: 19, offset: 43120},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1364, col: 19, offset: 43126},
+					pos: position{line: 1364, col: 19, offset: 43120},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1364, col: 19, offset: 43126},
+							pos:        position{line: 1364, col: 19, offset: 43120},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 31, offset: 43138},
+							pos:   position{line: 1364, col: 31, offset: 43132},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1364, col: 35, offset: 43142},
+								pos: position{line: 1364, col: 35, offset: 43136},
 								expr: &actionExpr{
-									pos: position{line: 1368, col: 16, offset: 43302},
+									pos: position{line: 1368, col: 16, offset: 43296},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1368, col: 16, offset: 43302},
+										pos: position{line: 1368, col: 16, offset: 43296},
 										expr: &charClassMatcher{
-											pos:        position{line: 1368, col: 16, offset: 43302},
+											pos:        position{line: 1368, col: 16, offset: 43296},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21408,21 +21408,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 50, offset: 43157},
+							pos:        position{line: 1364, col: 50, offset: 43151},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 54, offset: 43161},
+							pos:   position{line: 1364, col: 54, offset: 43155},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1364, col: 64, offset: 43171},
+								pos:  position{line: 1364, col: 64, offset: 43165},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 82, offset: 43189},
+							pos:        position{line: 1364, col: 82, offset: 43183},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21433,17 +21433,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1370, col: 1, offset: 43346},
+			pos:  position{line: 1370, col: 1, offset: 43340},
 			expr: &actionExpr{
-				pos: position{line: 1370, col: 21, offset: 43366},
+				pos: position{line: 1370, col: 21, offset: 43360},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1370, col: 21, offset: 43366},
+					pos:   position{line: 1370, col: 21, offset: 43360},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1370, col: 30, offset: 43375},
+						pos: position{line: 1370, col: 30, offset: 43369},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1370, col: 31, offset: 43376},
+							pos:  position{line: 1370, col: 31, offset: 43370},
 							name: "FootnoteElement",
 						},
 					},
@@ -21452,53 +21452,53 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1374, col: 1, offset: 43468},
+			pos:  position{line: 1374, col: 1, offset: 43462},
 			expr: &actionExpr{
-				pos: position{line: 1375, col: 5, offset: 43492},
+				pos: position{line: 1375, col: 5, offset: 43486},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1375, col: 5, offset: 43492},
+					pos: position{line: 1375, col: 5, offset: 43486},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1375, col: 5, offset: 43492},
+							pos: position{line: 1375, col: 5, offset: 43486},
 							expr: &litMatcher{
-								pos:        position{line: 1375, col: 6, offset: 43493},
+								pos:        position{line: 1375, col: 6, offset: 43487},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1376, col: 5, offset: 43502},
+							pos:   position{line: 1376, col: 5, offset: 43496},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1377, col: 9, offset: 43520},
+								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88919},
+										pos: position{line: 2796, col: 5, offset: 88862},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 88919},
+											pos: position{line: 2796, col: 5, offset: 88862},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 88919},
+													pos: position{line: 2796, col: 5, offset: 88862},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 88930},
+														pos: position{line: 2797, col: 9, offset: 88873},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2796, col: 9, offset: 88930},
+																pos: position{line: 2797, col: 9, offset: 88873},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2799, col: 9, offset: 88993},
+																pos:   position{line: 2800, col: 9, offset: 88936},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2771, col: 18, offset: 88305},
+																	pos: position{line: 2772, col: 18, offset: 88248},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2771, col: 19, offset: 88306},
+																		pos: position{line: 2772, col: 19, offset: 88249},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			pos:        position{line: 2772, col: 19, offset: 88249},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2799, col: 30, offset: 89014},
+																pos:        position{line: 2800, col: 30, offset: 88957},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2800, col: 9, offset: 89101},
+																pos: position{line: 2801, col: 9, offset: 89044},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2804, col: 5, offset: 89213},
+													pos:   position{line: 2805, col: 5, offset: 89156},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2804, col: 11, offset: 89219},
+														pos: position{line: 2805, col: 11, offset: 89162},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2804, col: 11, offset: 89219},
+															pos: position{line: 2805, col: 11, offset: 89162},
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 11, offset: 89219},
+																pos:        position{line: 2805, col: 11, offset: 89162},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2807, col: 5, offset: 89277},
+													pos: position{line: 2808, col: 5, offset: 89220},
 													expr: &seqExpr{
-														pos: position{line: 2808, col: 9, offset: 89288},
+														pos: position{line: 2809, col: 9, offset: 89231},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2808, col: 9, offset: 89288},
+																pos:        position{line: 2809, col: 9, offset: 89231},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2809, col: 9, offset: 89337},
+																pos: position{line: 2810, col: 9, offset: 89280},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2813, col: 5, offset: 89417},
+													pos: position{line: 2814, col: 5, offset: 89360},
 													expr: &seqExpr{
-														pos: position{line: 2814, col: 9, offset: 89428},
+														pos: position{line: 2815, col: 9, offset: 89371},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2814, col: 9, offset: 89428},
+																pos: position{line: 2815, col: 9, offset: 89371},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2814, col: 9, offset: 89428},
+																	pos:        position{line: 2815, col: 9, offset: 89371},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2814, col: 23, offset: 89442},
+																pos:        position{line: 2815, col: 23, offset: 89385},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2814, col: 27, offset: 89446},
+																pos:        position{line: 2815, col: 27, offset: 89389},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2936, col: 11, offset: 92885},
+										pos: position{line: 2937, col: 11, offset: 92828},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2936, col: 11, offset: 92885},
+											pos: position{line: 2937, col: 11, offset: 92828},
 											expr: &charClassMatcher{
-												pos:        position{line: 2936, col: 11, offset: 92885},
+												pos:        position{line: 2937, col: 11, offset: 92828},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,21 +21607,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81243},
+										pos: position{line: 2521, col: 5, offset: 81198},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81243},
+											pos: position{line: 2521, col: 5, offset: 81198},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 5, offset: 81243},
+													pos:        position{line: 2521, col: 5, offset: 81198},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2520, col: 10, offset: 81248},
+													pos: position{line: 2521, col: 10, offset: 81203},
 													expr: &charClassMatcher{
-														pos:        position{line: 2520, col: 11, offset: 81249},
+														pos:        position{line: 2521, col: 11, offset: 81204},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,29 +21632,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 5, offset: 81441},
+										pos: position{line: 2527, col: 5, offset: 81390},
 										run: (*parser).callonFootnoteElement40,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 5, offset: 81441},
+											pos: position{line: 2527, col: 5, offset: 81390},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2526, col: 5, offset: 81441},
+													pos: position{line: 2527, col: 5, offset: 81390},
 													run: (*parser).callonFootnoteElement42,
 												},
 												&andCodeExpr{
-													pos: position{line: 2529, col: 5, offset: 81512},
+													pos: position{line: 2530, col: 5, offset: 81461},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&litMatcher{
-													pos:        position{line: 2533, col: 5, offset: 81637},
+													pos:        position{line: 2534, col: 5, offset: 81586},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2533, col: 9, offset: 81641},
+													pos: position{line: 2534, col: 9, offset: 81590},
 													expr: &charClassMatcher{
-														pos:        position{line: 2533, col: 10, offset: 81642},
+														pos:        position{line: 2534, col: 10, offset: 81591},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21665,35 +21665,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1380, col: 11, offset: 43587},
+										pos:  position{line: 1380, col: 11, offset: 43581},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1381, col: 11, offset: 43603},
+										pos:  position{line: 1381, col: 11, offset: 43597},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89639},
+										pos: position{line: 2823, col: 5, offset: 89582},
 										run: (*parser).callonFootnoteElement49,
 										expr: &choiceExpr{
-											pos: position{line: 2823, col: 9, offset: 89649},
+											pos: position{line: 2824, col: 9, offset: 89592},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2823, col: 10, offset: 89650},
+													pos:        position{line: 2824, col: 10, offset: 89593},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2825, col: 13, offset: 89747},
+													pos: position{line: 2826, col: 13, offset: 89690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2825, col: 13, offset: 89747},
+															pos: position{line: 2826, col: 13, offset: 89690},
 															run: (*parser).callonFootnoteElement53,
 														},
 														&litMatcher{
-															pos:        position{line: 2828, col: 13, offset: 89847},
+															pos:        position{line: 2829, col: 13, offset: 89790},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21701,20 +21701,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 19, offset: 89853},
+													pos:        position{line: 2829, col: 19, offset: 89796},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 13, offset: 89891},
+													pos: position{line: 2832, col: 13, offset: 89834},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2831, col: 13, offset: 89891},
+															pos: position{line: 2832, col: 13, offset: 89834},
 															run: (*parser).callonFootnoteElement57,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2834, col: 14, offset: 89984},
+															pos:        position{line: 2835, col: 14, offset: 89927},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21723,18 +21723,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 12, offset: 90028},
+													pos: position{line: 2837, col: 12, offset: 89971},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2836, col: 12, offset: 90028},
+															pos:        position{line: 2837, col: 12, offset: 89971},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2836, col: 16, offset: 90032},
+															pos: position{line: 2837, col: 16, offset: 89975},
 															expr: &litMatcher{
-																pos:        position{line: 2836, col: 17, offset: 90033},
+																pos:        position{line: 2837, col: 17, offset: 89976},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21746,7 +21746,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1383, col: 11, offset: 43676},
+										pos:  position{line: 1383, col: 11, offset: 43670},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -21772,10 +21772,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonFootnoteElement70,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21786,28 +21786,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonFootnoteElement74,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21816,9 +21816,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -22174,23 +22174,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80072},
+										pos: position{line: 2490, col: 5, offset: 80027},
 										run: (*parser).callonFootnoteElement150,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80072},
+													pos: position{line: 2490, col: 5, offset: 80027},
 													run: (*parser).callonFootnoteElement152,
 												},
 												&labeledExpr{
-													pos:   position{line: 2492, col: 5, offset: 80148},
+													pos:   position{line: 2493, col: 5, offset: 80103},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2493, col: 9, offset: 80166},
+														pos: position{line: 2494, col: 9, offset: 80121},
 														run: (*parser).callonFootnoteElement154,
 														expr: &charClassMatcher{
-															pos:        position{line: 2493, col: 10, offset: 80167},
+															pos:        position{line: 2494, col: 10, offset: 80122},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22202,25 +22202,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2941, col: 12, offset: 92995},
+										pos: position{line: 2942, col: 12, offset: 92938},
 										run: (*parser).callonFootnoteElement156,
 										expr: &choiceExpr{
-											pos: position{line: 2941, col: 13, offset: 92996},
+											pos: position{line: 2942, col: 13, offset: 92939},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2941, col: 13, offset: 92996},
+													pos:        position{line: 2942, col: 13, offset: 92939},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 20, offset: 93003},
+													pos:        position{line: 2942, col: 20, offset: 92946},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 29, offset: 93012},
+													pos:        position{line: 2942, col: 29, offset: 92955},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22229,10 +22229,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90293},
+										pos: position{line: 2845, col: 12, offset: 90236},
 										run: (*parser).callonFootnoteElement161,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90293},
+											pos:        position{line: 2845, col: 12, offset: 90236},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22248,32 +22248,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1422, col: 1, offset: 45521},
+			pos:  position{line: 1422, col: 1, offset: 45515},
 			expr: &choiceExpr{
-				pos: position{line: 1422, col: 21, offset: 45541},
+				pos: position{line: 1422, col: 21, offset: 45535},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1422, col: 21, offset: 45541},
+						pos: position{line: 1422, col: 21, offset: 45535},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1422, col: 21, offset: 45541},
+							pos: position{line: 1422, col: 21, offset: 45535},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1422, col: 21, offset: 45541},
+									pos:        position{line: 1422, col: 21, offset: 45535},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1422, col: 30, offset: 45550},
+									pos:   position{line: 1422, col: 30, offset: 45544},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1422, col: 38, offset: 45558},
+										pos: position{line: 1422, col: 38, offset: 45552},
 										expr: &actionExpr{
-											pos: position{line: 1428, col: 30, offset: 45884},
+											pos: position{line: 1428, col: 30, offset: 45878},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1428, col: 30, offset: 45884},
+												pos:        position{line: 1428, col: 30, offset: 45878},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22283,7 +22283,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1422, col: 67, offset: 45587},
+									pos:        position{line: 1422, col: 67, offset: 45581},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22292,34 +22292,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 9, offset: 45691},
+						pos: position{line: 1424, col: 9, offset: 45685},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 9, offset: 45691},
+							pos: position{line: 1424, col: 9, offset: 45685},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 9, offset: 45691},
+									pos:        position{line: 1424, col: 9, offset: 45685},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 19, offset: 45701},
+									pos:   position{line: 1424, col: 19, offset: 45695},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1424, col: 27, offset: 45709},
+										pos: position{line: 1424, col: 27, offset: 45703},
 										expr: &choiceExpr{
-											pos: position{line: 1424, col: 28, offset: 45710},
+											pos: position{line: 1424, col: 28, offset: 45704},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1424, col: 28, offset: 45710},
+													pos:  position{line: 1424, col: 28, offset: 45704},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1428, col: 30, offset: 45884},
+													pos: position{line: 1428, col: 30, offset: 45878},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1428, col: 30, offset: 45884},
+														pos:        position{line: 1428, col: 30, offset: 45878},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22331,7 +22331,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 69, offset: 45751},
+									pos:        position{line: 1424, col: 69, offset: 45745},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22344,75 +22344,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1435, col: 1, offset: 46140},
+			pos:  position{line: 1435, col: 1, offset: 46134},
 			expr: &choiceExpr{
-				pos: position{line: 1435, col: 9, offset: 46148},
+				pos: position{line: 1435, col: 9, offset: 46142},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46217},
+						pos: position{line: 1438, col: 5, offset: 46211},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46217},
+							pos: position{line: 1438, col: 5, offset: 46211},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46217},
+									pos:        position{line: 1438, col: 5, offset: 46211},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 5, offset: 46226},
+									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90871},
+										pos: position{line: 2868, col: 23, offset: 90814},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90871},
+											pos: position{line: 2868, col: 23, offset: 90814},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90871},
+													pos: position{line: 2868, col: 23, offset: 90814},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90872},
+														pos:        position{line: 2868, col: 24, offset: 90815},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90876},
+													pos:   position{line: 2868, col: 28, offset: 90819},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 91121},
+														pos: position{line: 2876, col: 11, offset: 91064},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 91122},
+															pos: position{line: 2876, col: 12, offset: 91065},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 91122},
+																	pos:        position{line: 2876, col: 12, offset: 91065},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 91134},
+																	pos:        position{line: 2876, col: 24, offset: 91077},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 91147},
+																	pos:        position{line: 2876, col: 37, offset: 91090},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 91158},
+																	pos:        position{line: 2876, col: 48, offset: 91101},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 91169},
+																	pos:        position{line: 2876, col: 59, offset: 91112},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22422,38 +22422,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90892},
+													pos:   position{line: 2868, col: 44, offset: 90835},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22464,27 +22464,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22493,11 +22493,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -22892,10 +22892,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22912,7 +22912,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46445},
+									pos:        position{line: 1444, col: 5, offset: 46439},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22921,38 +22921,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 19, offset: 46158},
+						pos:  position{line: 1435, col: 19, offset: 46152},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 34, offset: 46173},
+						pos:  position{line: 1435, col: 34, offset: 46167},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1478, col: 17, offset: 47567},
+						pos: position{line: 1478, col: 17, offset: 47549},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1478, col: 17, offset: 47567},
+							pos: position{line: 1478, col: 17, offset: 47549},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1478, col: 17, offset: 47567},
+									pos:   position{line: 1478, col: 17, offset: 47549},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1483, col: 5, offset: 47732},
+										pos: position{line: 1483, col: 5, offset: 47714},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1483, col: 5, offset: 47732},
+											pos: position{line: 1483, col: 5, offset: 47714},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1483, col: 5, offset: 47732},
+													pos:   position{line: 1483, col: 5, offset: 47714},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1483, col: 12, offset: 47739},
+														pos: position{line: 1483, col: 12, offset: 47721},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1483, col: 12, offset: 47739},
+															pos: position{line: 1483, col: 12, offset: 47721},
 															expr: &charClassMatcher{
-																pos:        position{line: 1483, col: 12, offset: 47739},
+																pos:        position{line: 1483, col: 12, offset: 47721},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22964,7 +22964,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1486, col: 5, offset: 47823},
+													pos: position{line: 1486, col: 5, offset: 47805},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22972,33 +22972,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1478, col: 43, offset: 47593},
+									pos:        position{line: 1478, col: 43, offset: 47575},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1478, col: 47, offset: 47597},
+									pos:   position{line: 1478, col: 47, offset: 47579},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1495, col: 23, offset: 48117},
+										pos: position{line: 1495, col: 23, offset: 48099},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1495, col: 23, offset: 48117},
+											pos: position{line: 1495, col: 23, offset: 48099},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1495, col: 23, offset: 48117},
+													pos:   position{line: 1495, col: 23, offset: 48099},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1495, col: 31, offset: 48125},
+														pos: position{line: 1495, col: 31, offset: 48107},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1495, col: 31, offset: 48125},
+															pos: position{line: 1495, col: 31, offset: 48107},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1495, col: 31, offset: 48125},
+																	pos: position{line: 1495, col: 31, offset: 48107},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1495, col: 31, offset: 48125},
+																		pos:        position{line: 1495, col: 31, offset: 48107},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23006,23 +23006,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1495, col: 41, offset: 48135},
+																	pos: position{line: 1495, col: 41, offset: 48117},
 																	expr: &seqExpr{
-																		pos: position{line: 1495, col: 42, offset: 48136},
+																		pos: position{line: 1495, col: 42, offset: 48118},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 42, offset: 48136},
+																				pos: position{line: 1495, col: 42, offset: 48118},
 																				expr: &litMatcher{
-																					pos:        position{line: 1495, col: 42, offset: 48136},
+																					pos:        position{line: 1495, col: 42, offset: 48118},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 47, offset: 48141},
+																				pos: position{line: 1495, col: 47, offset: 48123},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1495, col: 47, offset: 48141},
+																					pos:        position{line: 1495, col: 47, offset: 48123},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -23033,20 +23033,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1495, col: 59, offset: 48153},
+																	pos: position{line: 1495, col: 59, offset: 48135},
 																	expr: &seqExpr{
-																		pos: position{line: 1495, col: 60, offset: 48154},
+																		pos: position{line: 1495, col: 60, offset: 48136},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1495, col: 60, offset: 48154},
+																				pos:        position{line: 1495, col: 60, offset: 48136},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 64, offset: 48158},
+																				pos: position{line: 1495, col: 64, offset: 48140},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1495, col: 64, offset: 48158},
+																					pos:        position{line: 1495, col: 64, offset: 48140},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23062,7 +23062,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1498, col: 5, offset: 48219},
+													pos: position{line: 1498, col: 5, offset: 48201},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23077,68 +23077,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1450, col: 1, offset: 46593},
+			pos:  position{line: 1450, col: 1, offset: 46587},
 			expr: &choiceExpr{
-				pos: position{line: 1452, col: 5, offset: 46629},
+				pos: position{line: 1452, col: 5, offset: 46623},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1452, col: 5, offset: 46629},
+						pos: position{line: 1452, col: 5, offset: 46623},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1452, col: 5, offset: 46629},
+							pos: position{line: 1452, col: 5, offset: 46623},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1452, col: 5, offset: 46629},
+									pos:        position{line: 1452, col: 5, offset: 46623},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 17, offset: 46641},
+									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 13, offset: 90744},
+										pos: position{line: 2864, col: 13, offset: 90687},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 13, offset: 90744},
+											pos: position{line: 2864, col: 13, offset: 90687},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2863, col: 13, offset: 90744},
+													pos:   position{line: 2864, col: 13, offset: 90687},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2863, col: 20, offset: 90751},
+														pos: position{line: 2864, col: 20, offset: 90694},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 11, offset: 91121},
+															pos: position{line: 2876, col: 11, offset: 91064},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 12, offset: 91122},
+																pos: position{line: 2876, col: 12, offset: 91065},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 12, offset: 91122},
+																		pos:        position{line: 2876, col: 12, offset: 91065},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 24, offset: 91134},
+																		pos:        position{line: 2876, col: 24, offset: 91077},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 37, offset: 91147},
+																		pos:        position{line: 2876, col: 37, offset: 91090},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 48, offset: 91158},
+																		pos:        position{line: 2876, col: 48, offset: 91101},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 59, offset: 91169},
+																		pos:        position{line: 2876, col: 59, offset: 91112},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23149,38 +23149,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 30, offset: 90761},
+													pos:   position{line: 2864, col: 30, offset: 90704},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23191,27 +23191,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23220,11 +23220,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -23619,10 +23619,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23639,10 +23639,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 32, offset: 46656},
+									pos:   position{line: 1452, col: 32, offset: 46650},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1452, col: 44, offset: 46668},
+										pos:  position{line: 1452, col: 44, offset: 46662},
 										name: "InlineAttributes",
 									},
 								},
@@ -23650,63 +23650,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1457, col: 5, offset: 46800},
+						pos: position{line: 1457, col: 5, offset: 46788},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1457, col: 5, offset: 46800},
+							pos: position{line: 1457, col: 5, offset: 46788},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1457, col: 5, offset: 46800},
+									pos:        position{line: 1457, col: 5, offset: 46788},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 13, offset: 46808},
+									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 13, offset: 90744},
+										pos: position{line: 2864, col: 13, offset: 90687},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 13, offset: 90744},
+											pos: position{line: 2864, col: 13, offset: 90687},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2863, col: 13, offset: 90744},
+													pos:   position{line: 2864, col: 13, offset: 90687},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2863, col: 20, offset: 90751},
+														pos: position{line: 2864, col: 20, offset: 90694},
 														expr: &actionExpr{
-															pos: position{line: 2875, col: 11, offset: 91121},
+															pos: position{line: 2876, col: 11, offset: 91064},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 12, offset: 91122},
+																pos: position{line: 2876, col: 12, offset: 91065},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 12, offset: 91122},
+																		pos:        position{line: 2876, col: 12, offset: 91065},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 24, offset: 91134},
+																		pos:        position{line: 2876, col: 24, offset: 91077},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 37, offset: 91147},
+																		pos:        position{line: 2876, col: 37, offset: 91090},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 48, offset: 91158},
+																		pos:        position{line: 2876, col: 48, offset: 91101},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 59, offset: 91169},
+																		pos:        position{line: 2876, col: 59, offset: 91112},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23717,38 +23717,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 30, offset: 90761},
+													pos:   position{line: 2864, col: 30, offset: 90704},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23759,27 +23759,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23788,11 +23788,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -24187,10 +24187,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24207,10 +24207,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 28, offset: 46823},
+									pos:   position{line: 1457, col: 28, offset: 46811},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1457, col: 40, offset: 46835},
+										pos:  position{line: 1457, col: 40, offset: 46823},
 										name: "InlineAttributes",
 									},
 								},
@@ -24222,75 +24222,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1461, col: 1, offset: 46951},
+			pos:  position{line: 1461, col: 1, offset: 46939},
 			expr: &choiceExpr{
-				pos: position{line: 1464, col: 5, offset: 47113},
+				pos: position{line: 1464, col: 5, offset: 47101},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1464, col: 5, offset: 47113},
+						pos: position{line: 1464, col: 5, offset: 47101},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1464, col: 5, offset: 47113},
+							pos: position{line: 1464, col: 5, offset: 47101},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1464, col: 5, offset: 47113},
+									pos:        position{line: 1464, col: 5, offset: 47101},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 9, offset: 47117},
+									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90871},
+										pos: position{line: 2868, col: 23, offset: 90814},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90871},
+											pos: position{line: 2868, col: 23, offset: 90814},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90871},
+													pos: position{line: 2868, col: 23, offset: 90814},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90872},
+														pos:        position{line: 2868, col: 24, offset: 90815},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90876},
+													pos:   position{line: 2868, col: 28, offset: 90819},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 91121},
+														pos: position{line: 2876, col: 11, offset: 91064},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 91122},
+															pos: position{line: 2876, col: 12, offset: 91065},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 91122},
+																	pos:        position{line: 2876, col: 12, offset: 91065},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 91134},
+																	pos:        position{line: 2876, col: 24, offset: 91077},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 91147},
+																	pos:        position{line: 2876, col: 37, offset: 91090},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 91158},
+																	pos:        position{line: 2876, col: 48, offset: 91101},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 91169},
+																	pos:        position{line: 2876, col: 59, offset: 91112},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24300,38 +24300,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90892},
+													pos:   position{line: 2868, col: 44, offset: 90835},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24342,27 +24342,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24371,11 +24371,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -24770,10 +24770,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24790,12 +24790,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 34, offset: 47142},
+									pos:   position{line: 1464, col: 34, offset: 47130},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1464, col: 45, offset: 47153},
+										pos: position{line: 1464, col: 45, offset: 47141},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1464, col: 46, offset: 47154},
+											pos:  position{line: 1464, col: 46, offset: 47142},
 											name: "InlineAttributes",
 										},
 									},
@@ -24804,64 +24804,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1469, col: 5, offset: 47287},
+						pos: position{line: 1469, col: 5, offset: 47269},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1469, col: 5, offset: 47287},
+							pos: position{line: 1469, col: 5, offset: 47269},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1469, col: 5, offset: 47287},
+									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90871},
+										pos: position{line: 2868, col: 23, offset: 90814},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90871},
+											pos: position{line: 2868, col: 23, offset: 90814},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90871},
+													pos: position{line: 2868, col: 23, offset: 90814},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90872},
+														pos:        position{line: 2868, col: 24, offset: 90815},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90876},
+													pos:   position{line: 2868, col: 28, offset: 90819},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 11, offset: 91121},
+														pos: position{line: 2876, col: 11, offset: 91064},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 12, offset: 91122},
+															pos: position{line: 2876, col: 12, offset: 91065},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 12, offset: 91122},
+																	pos:        position{line: 2876, col: 12, offset: 91065},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 24, offset: 91134},
+																	pos:        position{line: 2876, col: 24, offset: 91077},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 37, offset: 91147},
+																	pos:        position{line: 2876, col: 37, offset: 91090},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 48, offset: 91158},
+																	pos:        position{line: 2876, col: 48, offset: 91101},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 59, offset: 91169},
+																	pos:        position{line: 2876, col: 59, offset: 91112},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24871,38 +24871,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90892},
+													pos:   position{line: 2868, col: 44, offset: 90835},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 5, offset: 91233},
+														pos: position{line: 2881, col: 5, offset: 91176},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2880, col: 5, offset: 91233},
+															pos:   position{line: 2881, col: 5, offset: 91176},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 14, offset: 91242},
+																pos: position{line: 2881, col: 14, offset: 91185},
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 9, offset: 91252},
+																	pos: position{line: 2882, col: 9, offset: 91195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 9, offset: 91252},
+																			pos: position{line: 2882, col: 9, offset: 91195},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 9, offset: 91252},
+																				pos: position{line: 2882, col: 9, offset: 91195},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 9, offset: 91252},
+																						pos: position{line: 2882, col: 9, offset: 91195},
 																						expr: &litMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91253},
+																							pos:        position{line: 2882, col: 10, offset: 91196},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2882, col: 9, offset: 91281},
+																						pos: position{line: 2883, col: 9, offset: 91224},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91282},
+																							pos:        position{line: 2883, col: 10, offset: 91225},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24913,27 +24913,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2885, col: 11, offset: 91494},
+																			pos: position{line: 2886, col: 11, offset: 91437},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91494},
+																					pos:        position{line: 2886, col: 11, offset: 91437},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2885, col: 19, offset: 91502},
+																					pos: position{line: 2886, col: 19, offset: 91445},
 																					expr: &seqExpr{
-																						pos: position{line: 2885, col: 21, offset: 91504},
+																						pos: position{line: 2886, col: 21, offset: 91447},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2885, col: 21, offset: 91504},
+																								pos: position{line: 2886, col: 21, offset: 91447},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24942,11 +24942,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 28, offset: 91511},
+																								pos: position{line: 2886, col: 28, offset: 91454},
 																								expr: &notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -25341,10 +25341,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2888, col: 11, offset: 91631},
+																			pos: position{line: 2889, col: 11, offset: 91574},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 11, offset: 91631},
+																				pos:        position{line: 2889, col: 11, offset: 91574},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25361,10 +25361,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1469, col: 30, offset: 47312},
+									pos:   position{line: 1469, col: 30, offset: 47294},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1469, col: 42, offset: 47324},
+										pos:  position{line: 1469, col: 42, offset: 47306},
 										name: "InlineAttributes",
 									},
 								},
@@ -25372,61 +25372,61 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1474, col: 5, offset: 47450},
+						pos: position{line: 1474, col: 5, offset: 47432},
 						run: (*parser).callonExternalLink238,
 						expr: &labeledExpr{
-							pos:   position{line: 1474, col: 5, offset: 47450},
+							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2871, col: 27, offset: 91006},
+								pos: position{line: 2872, col: 27, offset: 90949},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2871, col: 27, offset: 91006},
+									pos: position{line: 2872, col: 27, offset: 90949},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2871, col: 27, offset: 91006},
+											pos: position{line: 2872, col: 27, offset: 90949},
 											expr: &litMatcher{
-												pos:        position{line: 2871, col: 28, offset: 91007},
+												pos:        position{line: 2872, col: 28, offset: 90950},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2871, col: 32, offset: 91011},
+											pos:   position{line: 2872, col: 32, offset: 90954},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 11, offset: 91121},
+												pos: position{line: 2876, col: 11, offset: 91064},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 12, offset: 91122},
+													pos: position{line: 2876, col: 12, offset: 91065},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 12, offset: 91122},
+															pos:        position{line: 2876, col: 12, offset: 91065},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 24, offset: 91134},
+															pos:        position{line: 2876, col: 24, offset: 91077},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 37, offset: 91147},
+															pos:        position{line: 2876, col: 37, offset: 91090},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 48, offset: 91158},
+															pos:        position{line: 2876, col: 48, offset: 91101},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 59, offset: 91169},
+															pos:        position{line: 2876, col: 59, offset: 91112},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25436,26 +25436,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2871, col: 48, offset: 91027},
+											pos:   position{line: 2872, col: 48, offset: 90970},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 5, offset: 91917},
+												pos: position{line: 2897, col: 5, offset: 91860},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2896, col: 5, offset: 91917},
+													pos:   position{line: 2897, col: 5, offset: 91860},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2896, col: 14, offset: 91926},
+														pos: position{line: 2897, col: 14, offset: 91869},
 														expr: &choiceExpr{
-															pos: position{line: 2897, col: 9, offset: 91936},
+															pos: position{line: 2898, col: 9, offset: 91879},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2897, col: 9, offset: 91936},
+																	pos: position{line: 2898, col: 9, offset: 91879},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2897, col: 9, offset: 91936},
+																		pos: position{line: 2898, col: 9, offset: 91879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2897, col: 10, offset: 91937},
+																			pos:        position{line: 2898, col: 10, offset: 91880},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25464,21 +25464,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 92028},
+																	pos: position{line: 2901, col: 11, offset: 91971},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2900, col: 11, offset: 92028},
+																		pos: position{line: 2901, col: 11, offset: 91971},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2900, col: 11, offset: 92028},
+																				pos:        position{line: 2901, col: 11, offset: 91971},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2900, col: 15, offset: 92032},
+																				pos: position{line: 2901, col: 15, offset: 91975},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 15, offset: 92032},
+																					pos:        position{line: 2901, col: 15, offset: 91975},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25486,7 +25486,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2900, col: 39, offset: 92056},
+																				pos:        position{line: 2901, col: 39, offset: 91999},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25495,25 +25495,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2903, col: 11, offset: 92121},
+																	pos: position{line: 2904, col: 11, offset: 92064},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2903, col: 11, offset: 92121},
+																		pos:        position{line: 2904, col: 11, offset: 92064},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2906, col: 11, offset: 92186},
+																	pos: position{line: 2907, col: 11, offset: 92129},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2906, col: 11, offset: 92186},
+																		pos: position{line: 2907, col: 11, offset: 92129},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2906, col: 11, offset: 92186},
+																				pos: position{line: 2907, col: 11, offset: 92129},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2906, col: 11, offset: 92186},
+																					pos:        position{line: 2907, col: 11, offset: 92129},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25521,9 +25521,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2906, col: 21, offset: 92196},
+																				pos: position{line: 2907, col: 21, offset: 92139},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2906, col: 23, offset: 92198},
+																					pos:        position{line: 2907, col: 23, offset: 92141},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25919,10 +25919,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 11, offset: 92339},
+																	pos: position{line: 2912, col: 11, offset: 92282},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2911, col: 11, offset: 92339},
+																		pos:        position{line: 2912, col: 11, offset: 92282},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25944,41 +25944,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1508, col: 1, offset: 48612},
+			pos:  position{line: 1508, col: 1, offset: 48594},
 			expr: &actionExpr{
-				pos: position{line: 1509, col: 5, offset: 48633},
+				pos: position{line: 1509, col: 5, offset: 48615},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1509, col: 5, offset: 48633},
+					pos: position{line: 1509, col: 5, offset: 48615},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1509, col: 5, offset: 48633},
+							pos:   position{line: 1509, col: 5, offset: 48615},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 5, offset: 48835},
+								pos: position{line: 1515, col: 5, offset: 48817},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51834},
+										pos: position{line: 1609, col: 5, offset: 51816},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51834},
+											pos: position{line: 1609, col: 5, offset: 51816},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51834},
+													pos:   position{line: 1609, col: 5, offset: 51816},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52042},
+														pos: position{line: 1616, col: 5, offset: 52024},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52042},
+															pos: position{line: 1616, col: 5, offset: 52024},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52042},
+																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25987,27 +25987,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52049},
+																	pos:   position{line: 1616, col: 12, offset: 52031},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52112},
+																		pos: position{line: 1618, col: 9, offset: 52094},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52112},
+																				pos: position{line: 1618, col: 9, offset: 52094},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52112},
+																					pos: position{line: 1618, col: 9, offset: 52094},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52112},
+																							pos:   position{line: 1618, col: 9, offset: 52094},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52119},
+																								pos: position{line: 1618, col: 16, offset: 52101},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52119},
+																									pos: position{line: 1618, col: 16, offset: 52101},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52120},
+																										pos:        position{line: 1618, col: 17, offset: 52102},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26016,22 +26016,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52220},
+																							pos: position{line: 1622, col: 9, offset: 52202},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52937},
+																				pos: position{line: 1641, col: 11, offset: 52919},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52937},
+																					pos: position{line: 1641, col: 11, offset: 52919},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52937},
+																							pos: position{line: 1641, col: 11, offset: 52919},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52938},
+																								pos:        position{line: 1641, col: 12, offset: 52920},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26039,7 +26039,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52946},
+																							pos:        position{line: 1641, col: 20, offset: 52928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26048,20 +26048,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53063},
+																				pos: position{line: 1643, col: 13, offset: 53045},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53063},
+																					pos: position{line: 1643, col: 13, offset: 53045},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53064},
+																							pos:        position{line: 1643, col: 14, offset: 53046},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53071},
+																							pos:        position{line: 1643, col: 21, offset: 53053},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26070,20 +26070,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53191},
+																				pos: position{line: 1645, col: 13, offset: 53173},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53191},
+																					pos: position{line: 1645, col: 13, offset: 53173},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53192},
+																							pos:        position{line: 1645, col: 14, offset: 53174},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53199},
+																							pos:        position{line: 1645, col: 21, offset: 53181},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26092,15 +26092,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53319},
+																				pos: position{line: 1647, col: 13, offset: 53301},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53319},
+																					pos: position{line: 1647, col: 13, offset: 53301},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53319},
+																							pos: position{line: 1647, col: 13, offset: 53301},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53320},
+																								pos:        position{line: 1647, col: 14, offset: 53302},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26108,7 +26108,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53332},
+																							pos:        position{line: 1647, col: 26, offset: 53314},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26117,15 +26117,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53452},
+																				pos: position{line: 1649, col: 13, offset: 53434},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53452},
+																					pos: position{line: 1649, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53452},
+																							pos: position{line: 1649, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53453},
+																								pos:        position{line: 1649, col: 14, offset: 53435},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26133,7 +26133,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53465},
+																							pos:        position{line: 1649, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26145,12 +26145,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26163,26 +26163,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51873},
+													pos:   position{line: 1610, col: 5, offset: 51855},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26193,28 +26193,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26223,9 +26223,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -26238,27 +26238,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53731},
+										pos: position{line: 1659, col: 5, offset: 53713},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53731},
+											pos: position{line: 1659, col: 5, offset: 53713},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53731},
+													pos:   position{line: 1659, col: 5, offset: 53713},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54004},
+														pos: position{line: 1666, col: 5, offset: 53986},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54004},
+															pos: position{line: 1666, col: 5, offset: 53986},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54004},
+																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26267,24 +26267,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54016},
+																	pos:   position{line: 1667, col: 5, offset: 53998},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54032},
+																		pos: position{line: 1668, col: 9, offset: 54014},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54033},
+																			pos: position{line: 1668, col: 10, offset: 54015},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54034},
+																					pos:        position{line: 1668, col: 11, offset: 54016},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54041},
+																					pos: position{line: 1668, col: 18, offset: 54023},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54042},
+																						pos:        position{line: 1668, col: 19, offset: 54024},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26295,16 +26295,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54132},
+																	pos: position{line: 1671, col: 7, offset: 54114},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26317,56 +26317,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53772},
+													pos:   position{line: 1660, col: 5, offset: 53754},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53783},
+														pos: position{line: 1660, col: 16, offset: 53765},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54397},
+															pos: position{line: 1681, col: 5, offset: 54379},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54397},
+																pos: position{line: 1681, col: 5, offset: 54379},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54397},
+																		pos: position{line: 1681, col: 5, offset: 54379},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54398},
+																			pos:        position{line: 1681, col: 6, offset: 54380},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54402},
+																		pos:   position{line: 1681, col: 10, offset: 54384},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54416},
+																			pos: position{line: 1682, col: 7, offset: 54398},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54416},
+																					pos: position{line: 1682, col: 7, offset: 54398},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54416},
+																						pos:        position{line: 1682, col: 7, offset: 54398},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54461},
+																					pos: position{line: 1683, col: 7, offset: 54443},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54461},
+																						pos:        position{line: 1683, col: 7, offset: 54443},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54504},
+																					pos: position{line: 1684, col: 7, offset: 54486},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54504},
+																						pos:        position{line: 1684, col: 7, offset: 54486},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26376,12 +26376,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2936, col: 11, offset: 92885},
+																			pos: position{line: 2937, col: 11, offset: 92828},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 11, offset: 92885},
+																				pos:        position{line: 2937, col: 11, offset: 92828},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26395,26 +26395,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53822},
+													pos:   position{line: 1661, col: 5, offset: 53804},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26425,28 +26425,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26455,9 +26455,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -26470,36 +26470,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56344},
+										pos: position{line: 1749, col: 5, offset: 56326},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56344},
+											pos: position{line: 1749, col: 5, offset: 56326},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56344},
+													pos:   position{line: 1749, col: 5, offset: 56326},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56541},
+														pos: position{line: 1755, col: 5, offset: 56523},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56541},
+															pos: position{line: 1755, col: 5, offset: 56523},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56541},
+																	pos:        position{line: 1755, col: 5, offset: 56523},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56545},
+																	pos:   position{line: 1755, col: 9, offset: 56527},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56550},
+																		pos: position{line: 1755, col: 14, offset: 56532},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56550},
+																			pos: position{line: 1755, col: 14, offset: 56532},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56550},
+																				pos:        position{line: 1755, col: 14, offset: 56532},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26509,18 +26509,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56598},
+																	pos:        position{line: 1755, col: 62, offset: 56580},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26533,26 +26533,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56380},
+													pos:   position{line: 1750, col: 5, offset: 56362},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26563,28 +26563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26593,9 +26593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -26608,40 +26608,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54697},
+										pos: position{line: 1693, col: 5, offset: 54679},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54697},
+											pos: position{line: 1693, col: 5, offset: 54679},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54697},
+													pos:   position{line: 1693, col: 5, offset: 54679},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55023},
+														pos: position{line: 1701, col: 5, offset: 55005},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55023},
+															pos: position{line: 1701, col: 5, offset: 55005},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55024},
+																pos: position{line: 1701, col: 6, offset: 55006},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55024},
+																		pos: position{line: 1701, col: 6, offset: 55006},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55174},
+																			pos: position{line: 1706, col: 5, offset: 55156},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55174},
+																				pos: position{line: 1706, col: 5, offset: 55156},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55174},
+																						pos:   position{line: 1706, col: 5, offset: 55156},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55185},
+																							pos: position{line: 1706, col: 16, offset: 55167},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55185},
+																								pos: position{line: 1706, col: 16, offset: 55167},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55186},
+																									pos:        position{line: 1706, col: 17, offset: 55168},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26650,7 +26650,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55243},
+																						pos: position{line: 1709, col: 5, offset: 55225},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26658,30 +26658,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55053},
+																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26690,16 +26690,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55058,
+																		line: 1701, col: 40, offset: 55040,
 																	},
 																},
 															},
@@ -26707,24 +26707,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54732},
+													pos:   position{line: 1694, col: 5, offset: 54714},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55174},
+														pos: position{line: 1706, col: 5, offset: 55156},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55174},
+															pos: position{line: 1706, col: 5, offset: 55156},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55174},
+																	pos:   position{line: 1706, col: 5, offset: 55156},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55185},
+																		pos: position{line: 1706, col: 16, offset: 55167},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55185},
+																			pos: position{line: 1706, col: 16, offset: 55167},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55186},
+																				pos:        position{line: 1706, col: 17, offset: 55168},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26733,7 +26733,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55243},
+																	pos: position{line: 1709, col: 5, offset: 55225},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26741,24 +26741,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54777},
+													pos:   position{line: 1695, col: 5, offset: 54759},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55492},
+														pos: position{line: 1717, col: 5, offset: 55474},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55558},
+																pos: position{line: 1719, col: 9, offset: 55540},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55558},
+																	pos: position{line: 1719, col: 9, offset: 55540},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55558},
+																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26767,28 +26767,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26797,15 +26797,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55577},
+																			pos: position{line: 1720, col: 9, offset: 55559},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26813,18 +26813,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26833,28 +26833,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26863,9 +26863,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -26878,18 +26878,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55706},
+																pos: position{line: 1726, col: 9, offset: 55688},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55706},
+																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2936, col: 11, offset: 92885},
+																			pos: position{line: 2937, col: 11, offset: 92828},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2936, col: 11, offset: 92885},
+																				pos: position{line: 2937, col: 11, offset: 92828},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2936, col: 11, offset: 92885},
+																					pos:        position{line: 2937, col: 11, offset: 92828},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26898,15 +26898,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55779},
+																			pos:   position{line: 1727, col: 9, offset: 55761},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55788},
+																				pos: position{line: 1727, col: 18, offset: 55770},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55788},
+																					pos: position{line: 1727, col: 18, offset: 55770},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55788},
+																						pos:        position{line: 1727, col: 18, offset: 55770},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26916,28 +26916,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26946,9 +26946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -26966,10 +26966,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1510, col: 5, offset: 48664},
+							pos:   position{line: 1510, col: 5, offset: 48646},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1510, col: 20, offset: 48679},
+								pos:  position{line: 1510, col: 20, offset: 48661},
 								name: "ExtraListElements",
 							},
 						},
@@ -26979,17 +26979,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1520, col: 1, offset: 48934},
+			pos:  position{line: 1520, col: 1, offset: 48916},
 			expr: &actionExpr{
-				pos: position{line: 1520, col: 22, offset: 48955},
+				pos: position{line: 1520, col: 22, offset: 48937},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1520, col: 22, offset: 48955},
+					pos:   position{line: 1520, col: 22, offset: 48937},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1520, col: 31, offset: 48964},
+						pos: position{line: 1520, col: 31, offset: 48946},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1520, col: 32, offset: 48965},
+							pos:  position{line: 1520, col: 32, offset: 48947},
 							name: "ExtraListElement",
 						},
 					},
@@ -26998,33 +26998,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1524, col: 1, offset: 49045},
+			pos:  position{line: 1524, col: 1, offset: 49027},
 			expr: &actionExpr{
-				pos: position{line: 1525, col: 5, offset: 49184},
+				pos: position{line: 1525, col: 5, offset: 49166},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1525, col: 5, offset: 49184},
+					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1526, col: 5, offset: 49196},
+							pos:   position{line: 1526, col: 5, offset: 49178},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1527, col: 9, offset: 49214},
+								pos: position{line: 1527, col: 9, offset: 49196},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1527, col: 13, offset: 49218},
+										pos: position{line: 1527, col: 13, offset: 49200},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1527, col: 13, offset: 49218},
+											pos: position{line: 1527, col: 13, offset: 49200},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1527, col: 13, offset: 49218},
+													pos: position{line: 1527, col: 13, offset: 49200},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -27032,18 +27032,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2949, col: 11, offset: 93158},
+																	pos: position{line: 2950, col: 11, offset: 93101},
 																	expr: &anyMatcher{
-																		line: 2949, col: 13, offset: 93160,
+																		line: 2950, col: 13, offset: 93103,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27052,28 +27052,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27082,9 +27082,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -27094,33 +27094,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1528, col: 13, offset: 49242},
+													pos:   position{line: 1528, col: 13, offset: 49224},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1528, col: 22, offset: 49251},
+														pos: position{line: 1528, col: 22, offset: 49233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51834},
+																pos: position{line: 1609, col: 5, offset: 51816},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51834},
+																	pos: position{line: 1609, col: 5, offset: 51816},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51834},
+																			pos:   position{line: 1609, col: 5, offset: 51816},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52042},
+																				pos: position{line: 1616, col: 5, offset: 52024},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52042},
+																					pos: position{line: 1616, col: 5, offset: 52024},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52042},
+																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27129,27 +27129,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52049},
+																							pos:   position{line: 1616, col: 12, offset: 52031},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52112},
+																								pos: position{line: 1618, col: 9, offset: 52094},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52112},
+																										pos: position{line: 1618, col: 9, offset: 52094},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52112},
+																											pos: position{line: 1618, col: 9, offset: 52094},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52112},
+																													pos:   position{line: 1618, col: 9, offset: 52094},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52119},
+																														pos: position{line: 1618, col: 16, offset: 52101},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52119},
+																															pos: position{line: 1618, col: 16, offset: 52101},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52120},
+																																pos:        position{line: 1618, col: 17, offset: 52102},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27158,22 +27158,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52220},
+																													pos: position{line: 1622, col: 9, offset: 52202},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52937},
+																										pos: position{line: 1641, col: 11, offset: 52919},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52937},
+																											pos: position{line: 1641, col: 11, offset: 52919},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52937},
+																													pos: position{line: 1641, col: 11, offset: 52919},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52938},
+																														pos:        position{line: 1641, col: 12, offset: 52920},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27181,7 +27181,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 52946},
+																													pos:        position{line: 1641, col: 20, offset: 52928},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27190,20 +27190,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53063},
+																										pos: position{line: 1643, col: 13, offset: 53045},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53063},
+																											pos: position{line: 1643, col: 13, offset: 53045},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53064},
+																													pos:        position{line: 1643, col: 14, offset: 53046},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53071},
+																													pos:        position{line: 1643, col: 21, offset: 53053},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27212,20 +27212,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53191},
+																										pos: position{line: 1645, col: 13, offset: 53173},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53191},
+																											pos: position{line: 1645, col: 13, offset: 53173},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53192},
+																													pos:        position{line: 1645, col: 14, offset: 53174},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53199},
+																													pos:        position{line: 1645, col: 21, offset: 53181},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27234,15 +27234,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53319},
+																										pos: position{line: 1647, col: 13, offset: 53301},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53319},
+																											pos: position{line: 1647, col: 13, offset: 53301},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53319},
+																													pos: position{line: 1647, col: 13, offset: 53301},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53320},
+																														pos:        position{line: 1647, col: 14, offset: 53302},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27250,7 +27250,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53332},
+																													pos:        position{line: 1647, col: 26, offset: 53314},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27259,15 +27259,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53452},
+																										pos: position{line: 1649, col: 13, offset: 53434},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53452},
+																											pos: position{line: 1649, col: 13, offset: 53434},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53452},
+																													pos: position{line: 1649, col: 13, offset: 53434},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53453},
+																														pos:        position{line: 1649, col: 14, offset: 53435},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27275,7 +27275,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53465},
+																													pos:        position{line: 1649, col: 26, offset: 53447},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27287,12 +27287,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27305,26 +27305,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51873},
+																			pos:   position{line: 1610, col: 5, offset: 51855},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27335,28 +27335,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27365,9 +27365,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -27380,27 +27380,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53731},
+																pos: position{line: 1659, col: 5, offset: 53713},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53731},
+																	pos: position{line: 1659, col: 5, offset: 53713},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53731},
+																			pos:   position{line: 1659, col: 5, offset: 53713},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 54004},
+																				pos: position{line: 1666, col: 5, offset: 53986},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 54004},
+																					pos: position{line: 1666, col: 5, offset: 53986},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 54004},
+																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27409,24 +27409,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54016},
+																							pos:   position{line: 1667, col: 5, offset: 53998},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54032},
+																								pos: position{line: 1668, col: 9, offset: 54014},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54033},
+																									pos: position{line: 1668, col: 10, offset: 54015},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54034},
+																											pos:        position{line: 1668, col: 11, offset: 54016},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54041},
+																											pos: position{line: 1668, col: 18, offset: 54023},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54042},
+																												pos:        position{line: 1668, col: 19, offset: 54024},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27437,16 +27437,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54132},
+																							pos: position{line: 1671, col: 7, offset: 54114},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27459,56 +27459,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53772},
+																			pos:   position{line: 1660, col: 5, offset: 53754},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53783},
+																				pos: position{line: 1660, col: 16, offset: 53765},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54397},
+																					pos: position{line: 1681, col: 5, offset: 54379},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54397},
+																						pos: position{line: 1681, col: 5, offset: 54379},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54397},
+																								pos: position{line: 1681, col: 5, offset: 54379},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54398},
+																									pos:        position{line: 1681, col: 6, offset: 54380},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54402},
+																								pos:   position{line: 1681, col: 10, offset: 54384},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54416},
+																									pos: position{line: 1682, col: 7, offset: 54398},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54416},
+																											pos: position{line: 1682, col: 7, offset: 54398},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54416},
+																												pos:        position{line: 1682, col: 7, offset: 54398},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54461},
+																											pos: position{line: 1683, col: 7, offset: 54443},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54461},
+																												pos:        position{line: 1683, col: 7, offset: 54443},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54504},
+																											pos: position{line: 1684, col: 7, offset: 54486},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54504},
+																												pos:        position{line: 1684, col: 7, offset: 54486},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27518,12 +27518,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2936, col: 11, offset: 92885},
+																									pos: position{line: 2937, col: 11, offset: 92828},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2936, col: 11, offset: 92885},
+																										pos:        position{line: 2937, col: 11, offset: 92828},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27537,26 +27537,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53822},
+																			pos:   position{line: 1661, col: 5, offset: 53804},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27567,28 +27567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27597,9 +27597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -27612,36 +27612,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56344},
+																pos: position{line: 1749, col: 5, offset: 56326},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56344},
+																	pos: position{line: 1749, col: 5, offset: 56326},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56344},
+																			pos:   position{line: 1749, col: 5, offset: 56326},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56541},
+																				pos: position{line: 1755, col: 5, offset: 56523},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56541},
+																					pos: position{line: 1755, col: 5, offset: 56523},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56541},
+																							pos:        position{line: 1755, col: 5, offset: 56523},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56545},
+																							pos:   position{line: 1755, col: 9, offset: 56527},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56550},
+																								pos: position{line: 1755, col: 14, offset: 56532},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56550},
+																									pos: position{line: 1755, col: 14, offset: 56532},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56550},
+																										pos:        position{line: 1755, col: 14, offset: 56532},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27651,18 +27651,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56598},
+																							pos:        position{line: 1755, col: 62, offset: 56580},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27675,26 +27675,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56380},
+																			pos:   position{line: 1750, col: 5, offset: 56362},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27705,28 +27705,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27735,9 +27735,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -27750,40 +27750,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54697},
+																pos: position{line: 1693, col: 5, offset: 54679},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54697},
+																	pos: position{line: 1693, col: 5, offset: 54679},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54697},
+																			pos:   position{line: 1693, col: 5, offset: 54679},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55023},
+																				pos: position{line: 1701, col: 5, offset: 55005},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55023},
+																					pos: position{line: 1701, col: 5, offset: 55005},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55024},
+																						pos: position{line: 1701, col: 6, offset: 55006},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55024},
+																								pos: position{line: 1701, col: 6, offset: 55006},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55174},
+																									pos: position{line: 1706, col: 5, offset: 55156},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55174},
+																										pos: position{line: 1706, col: 5, offset: 55156},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55174},
+																												pos:   position{line: 1706, col: 5, offset: 55156},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55185},
+																													pos: position{line: 1706, col: 16, offset: 55167},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55185},
+																														pos: position{line: 1706, col: 16, offset: 55167},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55186},
+																															pos:        position{line: 1706, col: 17, offset: 55168},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27792,7 +27792,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55243},
+																												pos: position{line: 1709, col: 5, offset: 55225},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27800,30 +27800,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55053},
+																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27832,16 +27832,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55058,
+																								line: 1701, col: 40, offset: 55040,
 																							},
 																						},
 																					},
@@ -27849,24 +27849,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54732},
+																			pos:   position{line: 1694, col: 5, offset: 54714},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55174},
+																				pos: position{line: 1706, col: 5, offset: 55156},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55174},
+																					pos: position{line: 1706, col: 5, offset: 55156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55174},
+																							pos:   position{line: 1706, col: 5, offset: 55156},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55185},
+																								pos: position{line: 1706, col: 16, offset: 55167},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55185},
+																									pos: position{line: 1706, col: 16, offset: 55167},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55186},
+																										pos:        position{line: 1706, col: 17, offset: 55168},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27875,7 +27875,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55243},
+																							pos: position{line: 1709, col: 5, offset: 55225},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27883,24 +27883,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54777},
+																			pos:   position{line: 1695, col: 5, offset: 54759},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55492},
+																				pos: position{line: 1717, col: 5, offset: 55474},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55558},
+																						pos: position{line: 1719, col: 9, offset: 55540},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55558},
+																							pos: position{line: 1719, col: 9, offset: 55540},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55558},
+																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27909,28 +27909,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27939,15 +27939,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55577},
+																									pos: position{line: 1720, col: 9, offset: 55559},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27955,18 +27955,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2949, col: 11, offset: 93158},
+																													pos: position{line: 2950, col: 11, offset: 93101},
 																													expr: &anyMatcher{
-																														line: 2949, col: 13, offset: 93160,
+																														line: 2950, col: 13, offset: 93103,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27975,28 +27975,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28005,9 +28005,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -28020,18 +28020,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55706},
+																						pos: position{line: 1726, col: 9, offset: 55688},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55706},
+																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2936, col: 11, offset: 92885},
+																									pos: position{line: 2937, col: 11, offset: 92828},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2936, col: 11, offset: 92885},
+																										pos: position{line: 2937, col: 11, offset: 92828},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2936, col: 11, offset: 92885},
+																											pos:        position{line: 2937, col: 11, offset: 92828},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28040,15 +28040,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55779},
+																									pos:   position{line: 1727, col: 9, offset: 55761},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55788},
+																										pos: position{line: 1727, col: 18, offset: 55770},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55788},
+																											pos: position{line: 1727, col: 18, offset: 55770},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55788},
+																												pos:        position{line: 1727, col: 18, offset: 55770},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28058,28 +28058,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28088,9 +28088,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -28111,50 +28111,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1531, col: 13, offset: 49402},
+										pos: position{line: 1531, col: 13, offset: 49384},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 13, offset: 49402},
+											pos: position{line: 1531, col: 13, offset: 49384},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1531, col: 13, offset: 49402},
+													pos:   position{line: 1531, col: 13, offset: 49384},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1531, col: 24, offset: 49413},
+														pos: position{line: 1531, col: 24, offset: 49395},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1531, col: 25, offset: 49414},
+															pos:  position{line: 1531, col: 25, offset: 49396},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 13, offset: 49445},
+													pos:   position{line: 1532, col: 13, offset: 49427},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1532, col: 22, offset: 49454},
+														pos: position{line: 1532, col: 22, offset: 49436},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51834},
+																pos: position{line: 1609, col: 5, offset: 51816},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51834},
+																	pos: position{line: 1609, col: 5, offset: 51816},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51834},
+																			pos:   position{line: 1609, col: 5, offset: 51816},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52042},
+																				pos: position{line: 1616, col: 5, offset: 52024},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52042},
+																					pos: position{line: 1616, col: 5, offset: 52024},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52042},
+																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28163,27 +28163,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52049},
+																							pos:   position{line: 1616, col: 12, offset: 52031},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52112},
+																								pos: position{line: 1618, col: 9, offset: 52094},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52112},
+																										pos: position{line: 1618, col: 9, offset: 52094},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52112},
+																											pos: position{line: 1618, col: 9, offset: 52094},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52112},
+																													pos:   position{line: 1618, col: 9, offset: 52094},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52119},
+																														pos: position{line: 1618, col: 16, offset: 52101},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52119},
+																															pos: position{line: 1618, col: 16, offset: 52101},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52120},
+																																pos:        position{line: 1618, col: 17, offset: 52102},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28192,22 +28192,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52220},
+																													pos: position{line: 1622, col: 9, offset: 52202},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52937},
+																										pos: position{line: 1641, col: 11, offset: 52919},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52937},
+																											pos: position{line: 1641, col: 11, offset: 52919},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52937},
+																													pos: position{line: 1641, col: 11, offset: 52919},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52938},
+																														pos:        position{line: 1641, col: 12, offset: 52920},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28215,7 +28215,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 52946},
+																													pos:        position{line: 1641, col: 20, offset: 52928},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28224,20 +28224,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53063},
+																										pos: position{line: 1643, col: 13, offset: 53045},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53063},
+																											pos: position{line: 1643, col: 13, offset: 53045},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53064},
+																													pos:        position{line: 1643, col: 14, offset: 53046},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53071},
+																													pos:        position{line: 1643, col: 21, offset: 53053},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28246,20 +28246,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53191},
+																										pos: position{line: 1645, col: 13, offset: 53173},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53191},
+																											pos: position{line: 1645, col: 13, offset: 53173},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53192},
+																													pos:        position{line: 1645, col: 14, offset: 53174},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53199},
+																													pos:        position{line: 1645, col: 21, offset: 53181},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28268,15 +28268,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53319},
+																										pos: position{line: 1647, col: 13, offset: 53301},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53319},
+																											pos: position{line: 1647, col: 13, offset: 53301},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53319},
+																													pos: position{line: 1647, col: 13, offset: 53301},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53320},
+																														pos:        position{line: 1647, col: 14, offset: 53302},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28284,7 +28284,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53332},
+																													pos:        position{line: 1647, col: 26, offset: 53314},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28293,15 +28293,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53452},
+																										pos: position{line: 1649, col: 13, offset: 53434},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53452},
+																											pos: position{line: 1649, col: 13, offset: 53434},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53452},
+																													pos: position{line: 1649, col: 13, offset: 53434},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53453},
+																														pos:        position{line: 1649, col: 14, offset: 53435},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28309,7 +28309,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53465},
+																													pos:        position{line: 1649, col: 26, offset: 53447},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28321,12 +28321,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28339,26 +28339,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51873},
+																			pos:   position{line: 1610, col: 5, offset: 51855},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28369,28 +28369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28399,9 +28399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -28414,27 +28414,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53731},
+																pos: position{line: 1659, col: 5, offset: 53713},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53731},
+																	pos: position{line: 1659, col: 5, offset: 53713},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53731},
+																			pos:   position{line: 1659, col: 5, offset: 53713},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 54004},
+																				pos: position{line: 1666, col: 5, offset: 53986},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 54004},
+																					pos: position{line: 1666, col: 5, offset: 53986},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 54004},
+																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28443,24 +28443,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54016},
+																							pos:   position{line: 1667, col: 5, offset: 53998},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54032},
+																								pos: position{line: 1668, col: 9, offset: 54014},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54033},
+																									pos: position{line: 1668, col: 10, offset: 54015},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54034},
+																											pos:        position{line: 1668, col: 11, offset: 54016},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54041},
+																											pos: position{line: 1668, col: 18, offset: 54023},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54042},
+																												pos:        position{line: 1668, col: 19, offset: 54024},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28471,16 +28471,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54132},
+																							pos: position{line: 1671, col: 7, offset: 54114},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28493,56 +28493,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53772},
+																			pos:   position{line: 1660, col: 5, offset: 53754},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53783},
+																				pos: position{line: 1660, col: 16, offset: 53765},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54397},
+																					pos: position{line: 1681, col: 5, offset: 54379},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54397},
+																						pos: position{line: 1681, col: 5, offset: 54379},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54397},
+																								pos: position{line: 1681, col: 5, offset: 54379},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54398},
+																									pos:        position{line: 1681, col: 6, offset: 54380},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54402},
+																								pos:   position{line: 1681, col: 10, offset: 54384},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54416},
+																									pos: position{line: 1682, col: 7, offset: 54398},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54416},
+																											pos: position{line: 1682, col: 7, offset: 54398},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54416},
+																												pos:        position{line: 1682, col: 7, offset: 54398},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54461},
+																											pos: position{line: 1683, col: 7, offset: 54443},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54461},
+																												pos:        position{line: 1683, col: 7, offset: 54443},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54504},
+																											pos: position{line: 1684, col: 7, offset: 54486},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54504},
+																												pos:        position{line: 1684, col: 7, offset: 54486},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28552,12 +28552,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2936, col: 11, offset: 92885},
+																									pos: position{line: 2937, col: 11, offset: 92828},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2936, col: 11, offset: 92885},
+																										pos:        position{line: 2937, col: 11, offset: 92828},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28571,26 +28571,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53822},
+																			pos:   position{line: 1661, col: 5, offset: 53804},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28601,28 +28601,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28631,9 +28631,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -28646,36 +28646,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56344},
+																pos: position{line: 1749, col: 5, offset: 56326},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56344},
+																	pos: position{line: 1749, col: 5, offset: 56326},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56344},
+																			pos:   position{line: 1749, col: 5, offset: 56326},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56541},
+																				pos: position{line: 1755, col: 5, offset: 56523},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56541},
+																					pos: position{line: 1755, col: 5, offset: 56523},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56541},
+																							pos:        position{line: 1755, col: 5, offset: 56523},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56545},
+																							pos:   position{line: 1755, col: 9, offset: 56527},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56550},
+																								pos: position{line: 1755, col: 14, offset: 56532},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56550},
+																									pos: position{line: 1755, col: 14, offset: 56532},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56550},
+																										pos:        position{line: 1755, col: 14, offset: 56532},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28685,18 +28685,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56598},
+																							pos:        position{line: 1755, col: 62, offset: 56580},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28709,26 +28709,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56380},
+																			pos:   position{line: 1750, col: 5, offset: 56362},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50315},
+																				pos: position{line: 1556, col: 5, offset: 50297},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50315},
+																					pos: position{line: 1556, col: 5, offset: 50297},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50315},
+																							pos:   position{line: 1556, col: 5, offset: 50297},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50324},
+																								pos: position{line: 1556, col: 14, offset: 50306},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50325},
+																									pos: position{line: 1556, col: 15, offset: 50307},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50325},
+																										pos: position{line: 1556, col: 15, offset: 50307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50325},
+																											pos:        position{line: 1556, col: 15, offset: 50307},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28739,28 +28739,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28769,9 +28769,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -28784,40 +28784,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54697},
+																pos: position{line: 1693, col: 5, offset: 54679},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54697},
+																	pos: position{line: 1693, col: 5, offset: 54679},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54697},
+																			pos:   position{line: 1693, col: 5, offset: 54679},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55023},
+																				pos: position{line: 1701, col: 5, offset: 55005},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55023},
+																					pos: position{line: 1701, col: 5, offset: 55005},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55024},
+																						pos: position{line: 1701, col: 6, offset: 55006},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55024},
+																								pos: position{line: 1701, col: 6, offset: 55006},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55174},
+																									pos: position{line: 1706, col: 5, offset: 55156},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55174},
+																										pos: position{line: 1706, col: 5, offset: 55156},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55174},
+																												pos:   position{line: 1706, col: 5, offset: 55156},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55185},
+																													pos: position{line: 1706, col: 16, offset: 55167},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55185},
+																														pos: position{line: 1706, col: 16, offset: 55167},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55186},
+																															pos:        position{line: 1706, col: 17, offset: 55168},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28826,7 +28826,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55243},
+																												pos: position{line: 1709, col: 5, offset: 55225},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28834,30 +28834,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55053},
+																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28866,16 +28866,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55058,
+																								line: 1701, col: 40, offset: 55040,
 																							},
 																						},
 																					},
@@ -28883,24 +28883,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54732},
+																			pos:   position{line: 1694, col: 5, offset: 54714},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55174},
+																				pos: position{line: 1706, col: 5, offset: 55156},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55174},
+																					pos: position{line: 1706, col: 5, offset: 55156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55174},
+																							pos:   position{line: 1706, col: 5, offset: 55156},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55185},
+																								pos: position{line: 1706, col: 16, offset: 55167},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55185},
+																									pos: position{line: 1706, col: 16, offset: 55167},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55186},
+																										pos:        position{line: 1706, col: 17, offset: 55168},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28909,7 +28909,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55243},
+																							pos: position{line: 1709, col: 5, offset: 55225},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28917,24 +28917,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54777},
+																			pos:   position{line: 1695, col: 5, offset: 54759},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55492},
+																				pos: position{line: 1717, col: 5, offset: 55474},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55558},
+																						pos: position{line: 1719, col: 9, offset: 55540},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55558},
+																							pos: position{line: 1719, col: 9, offset: 55540},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55558},
+																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28943,28 +28943,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28973,15 +28973,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55577},
+																									pos: position{line: 1720, col: 9, offset: 55559},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28989,18 +28989,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2949, col: 11, offset: 93158},
+																													pos: position{line: 2950, col: 11, offset: 93101},
 																													expr: &anyMatcher{
-																														line: 2949, col: 13, offset: 93160,
+																														line: 2950, col: 13, offset: 93103,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29009,28 +29009,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29039,9 +29039,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -29054,18 +29054,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55706},
+																						pos: position{line: 1726, col: 9, offset: 55688},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55706},
+																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2936, col: 11, offset: 92885},
+																									pos: position{line: 2937, col: 11, offset: 92828},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2936, col: 11, offset: 92885},
+																										pos: position{line: 2937, col: 11, offset: 92828},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2936, col: 11, offset: 92885},
+																											pos:        position{line: 2937, col: 11, offset: 92828},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29074,15 +29074,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55779},
+																									pos:   position{line: 1727, col: 9, offset: 55761},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55788},
+																										pos: position{line: 1727, col: 18, offset: 55770},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55788},
+																											pos: position{line: 1727, col: 18, offset: 55770},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55788},
+																												pos:        position{line: 1727, col: 18, offset: 55770},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29092,28 +29092,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29122,9 +29122,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -29145,40 +29145,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1535, col: 11, offset: 49639},
+										pos:  position{line: 1535, col: 11, offset: 49621},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 22, offset: 80526},
+										pos: position{line: 2503, col: 22, offset: 80481},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2507, col: 31, offset: 80747},
+													pos:        position{line: 2508, col: 31, offset: 80702},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2507, col: 36, offset: 80752},
+													pos: position{line: 2508, col: 36, offset: 80707},
 													expr: &litMatcher{
-														pos:        position{line: 2507, col: 37, offset: 80753},
+														pos:        position{line: 2508, col: 37, offset: 80708},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 49, offset: 80553},
+													pos:   position{line: 2503, col: 49, offset: 80508},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90511},
+														pos: position{line: 2852, col: 13, offset: 90454},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90511},
+																pos:        position{line: 2852, col: 13, offset: 90454},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29188,28 +29188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29218,9 +29218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -29229,13 +29229,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1543, col: 5, offset: 49903},
+										pos: position{line: 1543, col: 5, offset: 49885},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1543, col: 5, offset: 49903},
+											pos: position{line: 1543, col: 5, offset: 49885},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1543, col: 5, offset: 49903},
+													pos: position{line: 1543, col: 5, offset: 49885},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -29243,18 +29243,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2949, col: 11, offset: 93158},
+																	pos: position{line: 2950, col: 11, offset: 93101},
 																	expr: &anyMatcher{
-																		line: 2949, col: 13, offset: 93160,
+																		line: 2950, col: 13, offset: 93103,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29263,28 +29263,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29293,9 +29293,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -29305,23 +29305,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1544, col: 5, offset: 49918},
+													pos: position{line: 1544, col: 5, offset: 49900},
 													expr: &seqExpr{
-														pos: position{line: 1574, col: 27, offset: 50823},
+														pos: position{line: 1574, col: 27, offset: 50805},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1574, col: 27, offset: 50823},
+																pos:        position{line: 1574, col: 27, offset: 50805},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1574, col: 31, offset: 50827},
+																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29330,25 +29330,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29360,20 +29360,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1545, col: 5, offset: 49946},
+													pos: position{line: 1545, col: 5, offset: 49928},
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52042},
+														pos: position{line: 1616, col: 5, offset: 52024},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52042},
+															pos: position{line: 1616, col: 5, offset: 52024},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52042},
+																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29382,27 +29382,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52049},
+																	pos:   position{line: 1616, col: 12, offset: 52031},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52112},
+																		pos: position{line: 1618, col: 9, offset: 52094},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52112},
+																				pos: position{line: 1618, col: 9, offset: 52094},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52112},
+																					pos: position{line: 1618, col: 9, offset: 52094},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52112},
+																							pos:   position{line: 1618, col: 9, offset: 52094},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52119},
+																								pos: position{line: 1618, col: 16, offset: 52101},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52119},
+																									pos: position{line: 1618, col: 16, offset: 52101},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52120},
+																										pos:        position{line: 1618, col: 17, offset: 52102},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29411,22 +29411,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52220},
+																							pos: position{line: 1622, col: 9, offset: 52202},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52937},
+																				pos: position{line: 1641, col: 11, offset: 52919},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52937},
+																					pos: position{line: 1641, col: 11, offset: 52919},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52937},
+																							pos: position{line: 1641, col: 11, offset: 52919},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52938},
+																								pos:        position{line: 1641, col: 12, offset: 52920},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29434,7 +29434,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52946},
+																							pos:        position{line: 1641, col: 20, offset: 52928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29443,20 +29443,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53063},
+																				pos: position{line: 1643, col: 13, offset: 53045},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53063},
+																					pos: position{line: 1643, col: 13, offset: 53045},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53064},
+																							pos:        position{line: 1643, col: 14, offset: 53046},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53071},
+																							pos:        position{line: 1643, col: 21, offset: 53053},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29465,20 +29465,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53191},
+																				pos: position{line: 1645, col: 13, offset: 53173},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53191},
+																					pos: position{line: 1645, col: 13, offset: 53173},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53192},
+																							pos:        position{line: 1645, col: 14, offset: 53174},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53199},
+																							pos:        position{line: 1645, col: 21, offset: 53181},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29487,15 +29487,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53319},
+																				pos: position{line: 1647, col: 13, offset: 53301},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53319},
+																					pos: position{line: 1647, col: 13, offset: 53301},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53319},
+																							pos: position{line: 1647, col: 13, offset: 53301},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53320},
+																								pos:        position{line: 1647, col: 14, offset: 53302},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29503,7 +29503,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53332},
+																							pos:        position{line: 1647, col: 26, offset: 53314},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29512,15 +29512,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53452},
+																				pos: position{line: 1649, col: 13, offset: 53434},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53452},
+																					pos: position{line: 1649, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53452},
+																							pos: position{line: 1649, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53453},
+																								pos:        position{line: 1649, col: 14, offset: 53435},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29528,7 +29528,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53465},
+																							pos:        position{line: 1649, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29540,12 +29540,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29558,20 +29558,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1546, col: 5, offset: 49976},
+													pos: position{line: 1546, col: 5, offset: 49958},
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54004},
+														pos: position{line: 1666, col: 5, offset: 53986},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54004},
+															pos: position{line: 1666, col: 5, offset: 53986},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54004},
+																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29580,24 +29580,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54016},
+																	pos:   position{line: 1667, col: 5, offset: 53998},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54032},
+																		pos: position{line: 1668, col: 9, offset: 54014},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54033},
+																			pos: position{line: 1668, col: 10, offset: 54015},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54034},
+																					pos:        position{line: 1668, col: 11, offset: 54016},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54041},
+																					pos: position{line: 1668, col: 18, offset: 54023},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54042},
+																						pos:        position{line: 1668, col: 19, offset: 54024},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29608,16 +29608,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54132},
+																	pos: position{line: 1671, col: 7, offset: 54114},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29630,29 +29630,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1547, col: 5, offset: 50008},
+													pos: position{line: 1547, col: 5, offset: 49990},
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56541},
+														pos: position{line: 1755, col: 5, offset: 56523},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56541},
+															pos: position{line: 1755, col: 5, offset: 56523},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56541},
+																	pos:        position{line: 1755, col: 5, offset: 56523},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56545},
+																	pos:   position{line: 1755, col: 9, offset: 56527},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56550},
+																		pos: position{line: 1755, col: 14, offset: 56532},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56550},
+																			pos: position{line: 1755, col: 14, offset: 56532},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56550},
+																				pos:        position{line: 1755, col: 14, offset: 56532},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29662,18 +29662,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56598},
+																	pos:        position{line: 1755, col: 62, offset: 56580},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29686,36 +29686,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1548, col: 5, offset: 50038},
+													pos: position{line: 1548, col: 5, offset: 50020},
 													expr: &seqExpr{
-														pos: position{line: 1548, col: 7, offset: 50040},
+														pos: position{line: 1548, col: 7, offset: 50022},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1701, col: 5, offset: 55023},
+																pos: position{line: 1701, col: 5, offset: 55005},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1701, col: 5, offset: 55023},
+																	pos: position{line: 1701, col: 5, offset: 55005},
 																	expr: &seqExpr{
-																		pos: position{line: 1701, col: 6, offset: 55024},
+																		pos: position{line: 1701, col: 6, offset: 55006},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1701, col: 6, offset: 55024},
+																				pos: position{line: 1701, col: 6, offset: 55006},
 																				expr: &actionExpr{
-																					pos: position{line: 1706, col: 5, offset: 55174},
+																					pos: position{line: 1706, col: 5, offset: 55156},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1706, col: 5, offset: 55174},
+																						pos: position{line: 1706, col: 5, offset: 55156},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1706, col: 5, offset: 55174},
+																								pos:   position{line: 1706, col: 5, offset: 55156},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 16, offset: 55185},
+																									pos: position{line: 1706, col: 16, offset: 55167},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1706, col: 16, offset: 55185},
+																										pos: position{line: 1706, col: 16, offset: 55167},
 																										expr: &litMatcher{
-																											pos:        position{line: 1706, col: 17, offset: 55186},
+																											pos:        position{line: 1706, col: 17, offset: 55168},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29724,7 +29724,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1709, col: 5, offset: 55243},
+																								pos: position{line: 1709, col: 5, offset: 55225},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29732,30 +29732,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1701, col: 35, offset: 55053},
+																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29764,37 +29764,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1701, col: 40, offset: 55058,
+																				line: 1701, col: 40, offset: 55040,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1706, col: 5, offset: 55174},
+																pos: position{line: 1706, col: 5, offset: 55156},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1706, col: 5, offset: 55174},
+																	pos: position{line: 1706, col: 5, offset: 55156},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1706, col: 5, offset: 55174},
+																			pos:   position{line: 1706, col: 5, offset: 55156},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 16, offset: 55185},
+																				pos: position{line: 1706, col: 16, offset: 55167},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1706, col: 16, offset: 55185},
+																					pos: position{line: 1706, col: 16, offset: 55167},
 																					expr: &litMatcher{
-																						pos:        position{line: 1706, col: 17, offset: 55186},
+																						pos:        position{line: 1706, col: 17, offset: 55168},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29803,20 +29803,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1709, col: 5, offset: 55243},
+																			pos: position{line: 1709, col: 5, offset: 55225},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1548, col: 59, offset: 50092},
+																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29824,25 +29824,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29851,9 +29851,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -29862,9 +29862,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1549, col: 5, offset: 50110},
+													pos: position{line: 1549, col: 5, offset: 50092},
 													expr: &choiceExpr{
-														pos: position{line: 1549, col: 7, offset: 50112},
+														pos: position{line: 1549, col: 7, offset: 50094},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29875,7 +29875,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 13, offset: 88772},
+																				pos:        position{line: 2787, col: 13, offset: 88715},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29925,10 +29925,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29937,28 +29937,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29967,9 +29967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30014,10 +30014,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30026,28 +30026,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30056,9 +30056,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30099,10 +30099,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30111,28 +30111,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30141,9 +30141,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30188,10 +30188,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30200,28 +30200,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30230,9 +30230,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30277,10 +30277,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30289,28 +30289,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30319,9 +30319,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30366,10 +30366,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30378,28 +30378,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30408,9 +30408,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30455,10 +30455,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30467,28 +30467,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30497,9 +30497,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30544,10 +30544,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30556,28 +30556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30586,9 +30586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30633,10 +30633,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30645,28 +30645,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30675,9 +30675,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -30714,10 +30714,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30726,28 +30726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30756,9 +30756,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -30767,21 +30767,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2634, col: 19, offset: 84224},
+																pos: position{line: 2635, col: 19, offset: 84167},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2634, col: 19, offset: 84224},
+																		pos:        position{line: 2635, col: 19, offset: 84167},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2634, col: 26, offset: 84231},
+																		pos: position{line: 2635, col: 26, offset: 84174},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30790,28 +30790,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30820,9 +30820,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -30833,15 +30833,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1550, col: 5, offset: 50170},
+													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 14, offset: 90578},
+														pos: position{line: 2856, col: 14, offset: 90521},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 14, offset: 90578},
+															pos: position{line: 2856, col: 14, offset: 90521},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 14, offset: 90578},
+																pos:        position{line: 2856, col: 14, offset: 90521},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30851,28 +30851,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30881,9 +30881,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -30900,28 +30900,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1566, col: 1, offset: 50561},
+			pos:  position{line: 1566, col: 1, offset: 50543},
 			expr: &actionExpr{
-				pos: position{line: 1567, col: 5, offset: 50586},
+				pos: position{line: 1567, col: 5, offset: 50568},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1567, col: 5, offset: 50586},
+					pos: position{line: 1567, col: 5, offset: 50568},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1567, col: 5, offset: 50586},
+							pos:   position{line: 1567, col: 5, offset: 50568},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1567, col: 12, offset: 50593},
+								pos: position{line: 1567, col: 12, offset: 50575},
 								expr: &seqExpr{
-									pos: position{line: 1567, col: 13, offset: 50594},
+									pos: position{line: 1567, col: 13, offset: 50576},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1567, col: 13, offset: 50594},
+											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2932, col: 10, offset: 92824},
+												pos: position{line: 2933, col: 10, offset: 92767},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2932, col: 10, offset: 92824},
+													pos:        position{line: 2933, col: 10, offset: 92767},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30930,25 +30930,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2941, col: 12, offset: 92995},
+											pos: position{line: 2942, col: 12, offset: 92938},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2941, col: 13, offset: 92996},
+												pos: position{line: 2942, col: 13, offset: 92939},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2941, col: 13, offset: 92996},
+														pos:        position{line: 2942, col: 13, offset: 92939},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2941, col: 20, offset: 93003},
+														pos:        position{line: 2942, col: 20, offset: 92946},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2941, col: 29, offset: 93012},
+														pos:        position{line: 2942, col: 29, offset: 92955},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30961,18 +30961,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1568, col: 5, offset: 50616},
+							pos:        position{line: 1568, col: 5, offset: 50598},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1568, col: 9, offset: 50620},
+							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30981,28 +30981,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31011,26 +31011,26 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1569, col: 5, offset: 50635},
+							pos:   position{line: 1569, col: 5, offset: 50617},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1569, col: 13, offset: 50643},
+								pos: position{line: 1569, col: 13, offset: 50625},
 								expr: &actionExpr{
-									pos: position{line: 1569, col: 14, offset: 50644},
+									pos: position{line: 1569, col: 14, offset: 50626},
 									run: (*parser).callonListContinuation28,
 									expr: &seqExpr{
-										pos: position{line: 1569, col: 14, offset: 50644},
+										pos: position{line: 1569, col: 14, offset: 50626},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 1569, col: 14, offset: 50644},
+												pos: position{line: 1569, col: 14, offset: 50626},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonListContinuation31,
@@ -31038,18 +31038,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31058,28 +31058,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31088,9 +31088,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -31100,10 +31100,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1569, col: 25, offset: 50655},
+												pos:   position{line: 1569, col: 25, offset: 50637},
 												label: "e",
 												expr: &ruleRefExpr{
-													pos:  position{line: 1569, col: 27, offset: 50657},
+													pos:  position{line: 1569, col: 27, offset: 50639},
 													name: "ListContinuationElement",
 												},
 											},
@@ -31118,46 +31118,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1576, col: 1, offset: 50843},
+			pos:  position{line: 1576, col: 1, offset: 50825},
 			expr: &actionExpr{
-				pos: position{line: 1577, col: 5, offset: 50889},
+				pos: position{line: 1577, col: 5, offset: 50871},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1577, col: 5, offset: 50889},
+					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1578, col: 5, offset: 50917},
+							pos: position{line: 1578, col: 5, offset: 50899},
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 5, offset: 48835},
+								pos: position{line: 1515, col: 5, offset: 48817},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51834},
+										pos: position{line: 1609, col: 5, offset: 51816},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51834},
+											pos: position{line: 1609, col: 5, offset: 51816},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51834},
+													pos:   position{line: 1609, col: 5, offset: 51816},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52042},
+														pos: position{line: 1616, col: 5, offset: 52024},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52042},
+															pos: position{line: 1616, col: 5, offset: 52024},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52042},
+																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31166,27 +31166,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52049},
+																	pos:   position{line: 1616, col: 12, offset: 52031},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52112},
+																		pos: position{line: 1618, col: 9, offset: 52094},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52112},
+																				pos: position{line: 1618, col: 9, offset: 52094},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52112},
+																					pos: position{line: 1618, col: 9, offset: 52094},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52112},
+																							pos:   position{line: 1618, col: 9, offset: 52094},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52119},
+																								pos: position{line: 1618, col: 16, offset: 52101},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52119},
+																									pos: position{line: 1618, col: 16, offset: 52101},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52120},
+																										pos:        position{line: 1618, col: 17, offset: 52102},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31195,22 +31195,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52220},
+																							pos: position{line: 1622, col: 9, offset: 52202},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52937},
+																				pos: position{line: 1641, col: 11, offset: 52919},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52937},
+																					pos: position{line: 1641, col: 11, offset: 52919},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52937},
+																							pos: position{line: 1641, col: 11, offset: 52919},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52938},
+																								pos:        position{line: 1641, col: 12, offset: 52920},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31218,7 +31218,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52946},
+																							pos:        position{line: 1641, col: 20, offset: 52928},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31227,20 +31227,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53063},
+																				pos: position{line: 1643, col: 13, offset: 53045},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53063},
+																					pos: position{line: 1643, col: 13, offset: 53045},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53064},
+																							pos:        position{line: 1643, col: 14, offset: 53046},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53071},
+																							pos:        position{line: 1643, col: 21, offset: 53053},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31249,20 +31249,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53191},
+																				pos: position{line: 1645, col: 13, offset: 53173},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53191},
+																					pos: position{line: 1645, col: 13, offset: 53173},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53192},
+																							pos:        position{line: 1645, col: 14, offset: 53174},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53199},
+																							pos:        position{line: 1645, col: 21, offset: 53181},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31271,15 +31271,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53319},
+																				pos: position{line: 1647, col: 13, offset: 53301},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53319},
+																					pos: position{line: 1647, col: 13, offset: 53301},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53319},
+																							pos: position{line: 1647, col: 13, offset: 53301},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53320},
+																								pos:        position{line: 1647, col: 14, offset: 53302},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31287,7 +31287,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53332},
+																							pos:        position{line: 1647, col: 26, offset: 53314},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31296,15 +31296,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53452},
+																				pos: position{line: 1649, col: 13, offset: 53434},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53452},
+																					pos: position{line: 1649, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53452},
+																							pos: position{line: 1649, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53453},
+																								pos:        position{line: 1649, col: 14, offset: 53435},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31312,7 +31312,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53465},
+																							pos:        position{line: 1649, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31324,12 +31324,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31342,26 +31342,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51873},
+													pos:   position{line: 1610, col: 5, offset: 51855},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31372,28 +31372,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31402,9 +31402,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -31417,27 +31417,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53731},
+										pos: position{line: 1659, col: 5, offset: 53713},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53731},
+											pos: position{line: 1659, col: 5, offset: 53713},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53731},
+													pos:   position{line: 1659, col: 5, offset: 53713},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54004},
+														pos: position{line: 1666, col: 5, offset: 53986},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54004},
+															pos: position{line: 1666, col: 5, offset: 53986},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54004},
+																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31446,24 +31446,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54016},
+																	pos:   position{line: 1667, col: 5, offset: 53998},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54032},
+																		pos: position{line: 1668, col: 9, offset: 54014},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54033},
+																			pos: position{line: 1668, col: 10, offset: 54015},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54034},
+																					pos:        position{line: 1668, col: 11, offset: 54016},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54041},
+																					pos: position{line: 1668, col: 18, offset: 54023},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54042},
+																						pos:        position{line: 1668, col: 19, offset: 54024},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31474,16 +31474,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54132},
+																	pos: position{line: 1671, col: 7, offset: 54114},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31496,56 +31496,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53772},
+													pos:   position{line: 1660, col: 5, offset: 53754},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53783},
+														pos: position{line: 1660, col: 16, offset: 53765},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54397},
+															pos: position{line: 1681, col: 5, offset: 54379},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54397},
+																pos: position{line: 1681, col: 5, offset: 54379},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54397},
+																		pos: position{line: 1681, col: 5, offset: 54379},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54398},
+																			pos:        position{line: 1681, col: 6, offset: 54380},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54402},
+																		pos:   position{line: 1681, col: 10, offset: 54384},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54416},
+																			pos: position{line: 1682, col: 7, offset: 54398},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54416},
+																					pos: position{line: 1682, col: 7, offset: 54398},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54416},
+																						pos:        position{line: 1682, col: 7, offset: 54398},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54461},
+																					pos: position{line: 1683, col: 7, offset: 54443},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54461},
+																						pos:        position{line: 1683, col: 7, offset: 54443},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54504},
+																					pos: position{line: 1684, col: 7, offset: 54486},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54504},
+																						pos:        position{line: 1684, col: 7, offset: 54486},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31555,12 +31555,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2936, col: 11, offset: 92885},
+																			pos: position{line: 2937, col: 11, offset: 92828},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2936, col: 11, offset: 92885},
+																				pos:        position{line: 2937, col: 11, offset: 92828},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31574,26 +31574,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53822},
+													pos:   position{line: 1661, col: 5, offset: 53804},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31604,28 +31604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31634,9 +31634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -31649,36 +31649,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56344},
+										pos: position{line: 1749, col: 5, offset: 56326},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56344},
+											pos: position{line: 1749, col: 5, offset: 56326},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56344},
+													pos:   position{line: 1749, col: 5, offset: 56326},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56541},
+														pos: position{line: 1755, col: 5, offset: 56523},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56541},
+															pos: position{line: 1755, col: 5, offset: 56523},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56541},
+																	pos:        position{line: 1755, col: 5, offset: 56523},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56545},
+																	pos:   position{line: 1755, col: 9, offset: 56527},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56550},
+																		pos: position{line: 1755, col: 14, offset: 56532},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56550},
+																			pos: position{line: 1755, col: 14, offset: 56532},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56550},
+																				pos:        position{line: 1755, col: 14, offset: 56532},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31688,18 +31688,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56598},
+																	pos:        position{line: 1755, col: 62, offset: 56580},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31712,26 +31712,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56380},
+													pos:   position{line: 1750, col: 5, offset: 56362},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50315},
+														pos: position{line: 1556, col: 5, offset: 50297},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50315},
+															pos: position{line: 1556, col: 5, offset: 50297},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50315},
+																	pos:   position{line: 1556, col: 5, offset: 50297},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50324},
+																		pos: position{line: 1556, col: 14, offset: 50306},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50325},
+																			pos: position{line: 1556, col: 15, offset: 50307},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50325},
+																				pos: position{line: 1556, col: 15, offset: 50307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50325},
+																					pos:        position{line: 1556, col: 15, offset: 50307},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31742,28 +31742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31772,9 +31772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -31787,40 +31787,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54697},
+										pos: position{line: 1693, col: 5, offset: 54679},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54697},
+											pos: position{line: 1693, col: 5, offset: 54679},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54697},
+													pos:   position{line: 1693, col: 5, offset: 54679},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55023},
+														pos: position{line: 1701, col: 5, offset: 55005},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55023},
+															pos: position{line: 1701, col: 5, offset: 55005},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55024},
+																pos: position{line: 1701, col: 6, offset: 55006},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55024},
+																		pos: position{line: 1701, col: 6, offset: 55006},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55174},
+																			pos: position{line: 1706, col: 5, offset: 55156},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55174},
+																				pos: position{line: 1706, col: 5, offset: 55156},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55174},
+																						pos:   position{line: 1706, col: 5, offset: 55156},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55185},
+																							pos: position{line: 1706, col: 16, offset: 55167},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55185},
+																								pos: position{line: 1706, col: 16, offset: 55167},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55186},
+																									pos:        position{line: 1706, col: 17, offset: 55168},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -31829,7 +31829,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55243},
+																						pos: position{line: 1709, col: 5, offset: 55225},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -31837,30 +31837,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55053},
+																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31869,16 +31869,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55058,
+																		line: 1701, col: 40, offset: 55040,
 																	},
 																},
 															},
@@ -31886,24 +31886,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54732},
+													pos:   position{line: 1694, col: 5, offset: 54714},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55174},
+														pos: position{line: 1706, col: 5, offset: 55156},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55174},
+															pos: position{line: 1706, col: 5, offset: 55156},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55174},
+																	pos:   position{line: 1706, col: 5, offset: 55156},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55185},
+																		pos: position{line: 1706, col: 16, offset: 55167},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55185},
+																			pos: position{line: 1706, col: 16, offset: 55167},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55186},
+																				pos:        position{line: 1706, col: 17, offset: 55168},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31912,7 +31912,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55243},
+																	pos: position{line: 1709, col: 5, offset: 55225},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -31920,24 +31920,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54777},
+													pos:   position{line: 1695, col: 5, offset: 54759},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55492},
+														pos: position{line: 1717, col: 5, offset: 55474},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55558},
+																pos: position{line: 1719, col: 9, offset: 55540},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55558},
+																	pos: position{line: 1719, col: 9, offset: 55540},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55558},
+																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31946,28 +31946,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31976,15 +31976,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55577},
+																			pos: position{line: 1720, col: 9, offset: 55559},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -31992,18 +31992,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2949, col: 11, offset: 93158},
+																							pos: position{line: 2950, col: 11, offset: 93101},
 																							expr: &anyMatcher{
-																								line: 2949, col: 13, offset: 93160,
+																								line: 2950, col: 13, offset: 93103,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32012,28 +32012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32042,9 +32042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -32057,18 +32057,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55706},
+																pos: position{line: 1726, col: 9, offset: 55688},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55706},
+																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2936, col: 11, offset: 92885},
+																			pos: position{line: 2937, col: 11, offset: 92828},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2936, col: 11, offset: 92885},
+																				pos: position{line: 2937, col: 11, offset: 92828},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2936, col: 11, offset: 92885},
+																					pos:        position{line: 2937, col: 11, offset: 92828},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32077,15 +32077,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55779},
+																			pos:   position{line: 1727, col: 9, offset: 55761},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55788},
+																				pos: position{line: 1727, col: 18, offset: 55770},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55788},
+																					pos: position{line: 1727, col: 18, offset: 55770},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55788},
+																						pos:        position{line: 1727, col: 18, offset: 55770},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32095,28 +32095,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32125,9 +32125,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -32145,21 +32145,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1579, col: 5, offset: 50934},
+							pos:   position{line: 1579, col: 5, offset: 50916},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1579, col: 16, offset: 50945},
+								pos: position{line: 1579, col: 16, offset: 50927},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1579, col: 17, offset: 50946},
+									pos:  position{line: 1579, col: 17, offset: 50928},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1580, col: 5, offset: 50968},
+							pos:   position{line: 1580, col: 5, offset: 50950},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1581, col: 9, offset: 50986},
+								pos: position{line: 1581, col: 9, offset: 50968},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32168,18 +32168,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2949, col: 11, offset: 93158},
+													pos: position{line: 2950, col: 11, offset: 93101},
 													expr: &anyMatcher{
-														line: 2949, col: 13, offset: 93160,
+														line: 2950, col: 13, offset: 93103,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32188,28 +32188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32218,9 +32218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -32229,7 +32229,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1582, col: 11, offset: 51006},
+										pos:  position{line: 1582, col: 11, offset: 50988},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32285,10 +32285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32297,28 +32297,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32327,9 +32327,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -32390,10 +32390,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32402,28 +32402,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32432,9 +32432,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -32488,10 +32488,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32500,28 +32500,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32530,9 +32530,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -32604,10 +32604,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32616,28 +32616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32646,9 +32646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -32664,9 +32664,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -32682,21 +32682,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32706,28 +32706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32736,9 +32736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -32800,10 +32800,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32812,28 +32812,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32842,9 +32842,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -32917,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -33033,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -33093,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -33111,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -33232,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -33292,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -33346,10 +33346,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33358,28 +33358,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33388,9 +33388,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -33424,10 +33424,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33436,28 +33436,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33466,9 +33466,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -33486,21 +33486,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33510,28 +33510,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33540,9 +33540,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -33570,10 +33570,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33582,28 +33582,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33612,9 +33612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -33671,10 +33671,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33683,28 +33683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33713,9 +33713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -33787,10 +33787,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33799,28 +33799,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33829,9 +33829,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -33847,9 +33847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -33865,21 +33865,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33889,28 +33889,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33919,9 +33919,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -33986,10 +33986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33998,28 +33998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34028,9 +34028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -34046,9 +34046,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -34104,10 +34104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34116,28 +34116,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34146,9 +34146,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -34220,10 +34220,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34232,28 +34232,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34262,9 +34262,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -34280,9 +34280,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -34298,21 +34298,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34322,28 +34322,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34352,9 +34352,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -34419,10 +34419,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34431,28 +34431,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34461,9 +34461,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -34479,9 +34479,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -34537,10 +34537,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34549,28 +34549,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34579,9 +34579,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -34653,10 +34653,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34665,28 +34665,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34695,9 +34695,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -34713,9 +34713,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -34731,21 +34731,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34755,28 +34755,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34785,9 +34785,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -34852,10 +34852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34864,28 +34864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34894,9 +34894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -34912,9 +34912,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -34948,18 +34948,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2949, col: 11, offset: 93158},
+																					pos: position{line: 2950, col: 11, offset: 93101},
 																					expr: &anyMatcher{
-																						line: 2949, col: 13, offset: 93160,
+																						line: 2950, col: 13, offset: 93103,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34968,28 +34968,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34998,9 +34998,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -35019,12 +35019,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2855, col: 14, offset: 90578},
+																		pos: position{line: 2856, col: 14, offset: 90521},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2855, col: 14, offset: 90578},
+																			pos: position{line: 2856, col: 14, offset: 90521},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 14, offset: 90578},
+																				pos:        position{line: 2856, col: 14, offset: 90521},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35034,28 +35034,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35064,9 +35064,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -35098,18 +35098,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2949, col: 11, offset: 93158},
+																								pos: position{line: 2950, col: 11, offset: 93101},
 																								expr: &anyMatcher{
-																									line: 2949, col: 13, offset: 93160,
+																									line: 2950, col: 13, offset: 93103,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35118,28 +35118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35148,9 +35148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -35169,12 +35169,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 14, offset: 90578},
+																					pos: position{line: 2856, col: 14, offset: 90521},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2855, col: 14, offset: 90578},
+																						pos: position{line: 2856, col: 14, offset: 90521},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 14, offset: 90578},
+																							pos:        position{line: 2856, col: 14, offset: 90521},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35184,28 +35184,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2954, col: 8, offset: 93222},
+																				pos: position{line: 2955, col: 8, offset: 93165},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2941, col: 12, offset: 92995},
+																						pos: position{line: 2942, col: 12, offset: 92938},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2941, col: 13, offset: 92996},
+																							pos: position{line: 2942, col: 13, offset: 92939},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 13, offset: 92996},
+																									pos:        position{line: 2942, col: 13, offset: 92939},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 20, offset: 93003},
+																									pos:        position{line: 2942, col: 20, offset: 92946},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 29, offset: 93012},
+																									pos:        position{line: 2942, col: 29, offset: 92955},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35214,9 +35214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -35225,21 +35225,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1824, col: 5, offset: 58910},
+																	pos: position{line: 1824, col: 5, offset: 58892},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1824, col: 5, offset: 58910},
+																		pos: position{line: 1824, col: 5, offset: 58892},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1824, col: 5, offset: 58910},
+																				pos:   position{line: 1824, col: 5, offset: 58892},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 14, offset: 90578},
+																					pos: position{line: 2856, col: 14, offset: 90521},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2855, col: 14, offset: 90578},
+																						pos: position{line: 2856, col: 14, offset: 90521},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 14, offset: 90578},
+																							pos:        position{line: 2856, col: 14, offset: 90521},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35249,32 +35249,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1825, col: 5, offset: 58934},
+																				pos: position{line: 1825, col: 5, offset: 58916},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2954, col: 8, offset: 93222},
+																				pos: position{line: 2955, col: 8, offset: 93165},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2941, col: 12, offset: 92995},
+																						pos: position{line: 2942, col: 12, offset: 92938},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2941, col: 13, offset: 92996},
+																							pos: position{line: 2942, col: 13, offset: 92939},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 13, offset: 92996},
+																									pos:        position{line: 2942, col: 13, offset: 92939},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 20, offset: 93003},
+																									pos:        position{line: 2942, col: 20, offset: 92946},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 29, offset: 93012},
+																									pos:        position{line: 2942, col: 29, offset: 92955},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35283,9 +35283,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -35332,10 +35332,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35344,28 +35344,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35374,9 +35374,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -35424,10 +35424,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35436,28 +35436,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35466,9 +35466,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -35477,9 +35477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -35495,21 +35495,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35519,28 +35519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35549,9 +35549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -35596,10 +35596,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2932, col: 10, offset: 92824},
+																					pos: position{line: 2933, col: 10, offset: 92767},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2932, col: 10, offset: 92824},
+																						pos:        position{line: 2933, col: 10, offset: 92767},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35608,28 +35608,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2954, col: 8, offset: 93222},
+																				pos: position{line: 2955, col: 8, offset: 93165},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2941, col: 12, offset: 92995},
+																						pos: position{line: 2942, col: 12, offset: 92938},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2941, col: 13, offset: 92996},
+																							pos: position{line: 2942, col: 13, offset: 92939},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 13, offset: 92996},
+																									pos:        position{line: 2942, col: 13, offset: 92939},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 20, offset: 93003},
+																									pos:        position{line: 2942, col: 20, offset: 92946},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 29, offset: 93012},
+																									pos:        position{line: 2942, col: 29, offset: 92955},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35638,9 +35638,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -35649,9 +35649,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -35707,10 +35707,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35719,28 +35719,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35749,9 +35749,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -35823,10 +35823,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35835,28 +35835,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35865,9 +35865,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -35883,9 +35883,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -35901,21 +35901,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35925,28 +35925,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35955,9 +35955,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -36022,10 +36022,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36034,28 +36034,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36064,9 +36064,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -36082,9 +36082,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -36140,10 +36140,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36152,28 +36152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36182,9 +36182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -36256,10 +36256,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36268,28 +36268,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36298,9 +36298,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -36316,9 +36316,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -36334,21 +36334,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36358,28 +36358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36388,9 +36388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -36455,10 +36455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36467,28 +36467,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36497,9 +36497,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -36515,9 +36515,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -36573,10 +36573,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36585,28 +36585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36615,9 +36615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -36689,10 +36689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2932, col: 10, offset: 92824},
+																												pos: position{line: 2933, col: 10, offset: 92767},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2932, col: 10, offset: 92824},
+																													pos:        position{line: 2933, col: 10, offset: 92767},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36701,28 +36701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2954, col: 8, offset: 93222},
+																											pos: position{line: 2955, col: 8, offset: 93165},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2941, col: 12, offset: 92995},
+																													pos: position{line: 2942, col: 12, offset: 92938},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2941, col: 13, offset: 92996},
+																														pos: position{line: 2942, col: 13, offset: 92939},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36731,9 +36731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2951, col: 8, offset: 93172},
+																													pos: position{line: 2952, col: 8, offset: 93115},
 																													expr: &anyMatcher{
-																														line: 2951, col: 9, offset: 93173,
+																														line: 2952, col: 9, offset: 93116,
 																													},
 																												},
 																											},
@@ -36749,9 +36749,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -36767,21 +36767,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2949, col: 11, offset: 93158},
+																						pos: position{line: 2950, col: 11, offset: 93101},
 																						expr: &anyMatcher{
-																							line: 2949, col: 13, offset: 93160,
+																							line: 2950, col: 13, offset: 93103,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90511},
+																							pos: position{line: 2852, col: 13, offset: 90454},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90511},
+																								pos: position{line: 2852, col: 13, offset: 90454},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90511},
+																									pos:        position{line: 2852, col: 13, offset: 90454},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36791,28 +36791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36821,9 +36821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -36888,10 +36888,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36900,28 +36900,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36930,9 +36930,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -36948,9 +36948,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -36961,27 +36961,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2737, col: 18, offset: 87131},
+										pos: position{line: 2738, col: 18, offset: 87074},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2738, col: 9, offset: 87141},
+											pos: position{line: 2739, col: 9, offset: 87084},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2738, col: 9, offset: 87141},
+													pos: position{line: 2739, col: 9, offset: 87084},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2738, col: 9, offset: 87141},
+															pos:        position{line: 2739, col: 9, offset: 87084},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2738, col: 15, offset: 87147},
+															pos: position{line: 2739, col: 15, offset: 87090},
 															expr: &actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36990,28 +36990,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2954, col: 8, offset: 93222},
+															pos: position{line: 2955, col: 8, offset: 93165},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2941, col: 12, offset: 92995},
+																	pos: position{line: 2942, col: 12, offset: 92938},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2941, col: 13, offset: 92996},
+																		pos: position{line: 2942, col: 13, offset: 92939},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 13, offset: 92996},
+																				pos:        position{line: 2942, col: 13, offset: 92939},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 20, offset: 93003},
+																				pos:        position{line: 2942, col: 20, offset: 92946},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 29, offset: 93012},
+																				pos:        position{line: 2942, col: 29, offset: 92955},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37020,9 +37020,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -37030,43 +37030,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2739, col: 11, offset: 87180},
+													pos: position{line: 2740, col: 11, offset: 87123},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2739, col: 12, offset: 87181},
+															pos: position{line: 2740, col: 12, offset: 87124},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2739, col: 12, offset: 87181},
+																	pos:        position{line: 2740, col: 12, offset: 87124},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2739, col: 20, offset: 87189},
+																	pos:        position{line: 2740, col: 20, offset: 87132},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2739, col: 30, offset: 87199},
+																	pos:        position{line: 2740, col: 30, offset: 87142},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2739, col: 38, offset: 87207},
+																	pos:        position{line: 2740, col: 38, offset: 87150},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2739, col: 48, offset: 87217},
+																	pos:        position{line: 2740, col: 48, offset: 87160},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2739, col: 56, offset: 87225},
+																	pos:        position{line: 2740, col: 56, offset: 87168},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37074,12 +37074,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2739, col: 65, offset: 87234},
+															pos: position{line: 2740, col: 65, offset: 87177},
 															expr: &actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37088,28 +37088,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2954, col: 8, offset: 93222},
+															pos: position{line: 2955, col: 8, offset: 93165},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2941, col: 12, offset: 92995},
+																	pos: position{line: 2942, col: 12, offset: 92938},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2941, col: 13, offset: 92996},
+																		pos: position{line: 2942, col: 13, offset: 92939},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 13, offset: 92996},
+																				pos:        position{line: 2942, col: 13, offset: 92939},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 20, offset: 93003},
+																				pos:        position{line: 2942, col: 20, offset: 92946},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 29, offset: 93012},
+																				pos:        position{line: 2942, col: 29, offset: 92955},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37118,38 +37118,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2739, col: 76, offset: 87245},
+															pos: position{line: 2740, col: 76, offset: 87188},
 															expr: &choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37158,9 +37158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -37172,32 +37172,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1586, col: 11, offset: 51148},
+										pos:  position{line: 1586, col: 11, offset: 51130},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1587, col: 11, offset: 51169},
+										pos:  position{line: 1587, col: 11, offset: 51151},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2628, col: 5, offset: 84067},
+										pos: position{line: 2629, col: 5, offset: 84010},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2628, col: 5, offset: 84067},
+											pos: position{line: 2629, col: 5, offset: 84010},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2634, col: 19, offset: 84224},
+													pos:        position{line: 2635, col: 19, offset: 84167},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2634, col: 26, offset: 84231},
+													pos: position{line: 2635, col: 26, offset: 84174},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37206,28 +37206,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37236,20 +37236,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2629, col: 5, offset: 84091},
+													pos:   position{line: 2630, col: 5, offset: 84034},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2629, col: 11, offset: 84097},
+														pos: position{line: 2630, col: 11, offset: 84040},
 														expr: &choiceExpr{
-															pos: position{line: 2629, col: 12, offset: 84098},
+															pos: position{line: 2630, col: 12, offset: 84041},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37258,18 +37258,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2949, col: 11, offset: 93158},
+																				pos: position{line: 2950, col: 11, offset: 93101},
 																				expr: &anyMatcher{
-																					line: 2949, col: 13, offset: 93160,
+																					line: 2950, col: 13, offset: 93103,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2932, col: 10, offset: 92824},
+																					pos: position{line: 2933, col: 10, offset: 92767},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2932, col: 10, offset: 92824},
+																						pos:        position{line: 2933, col: 10, offset: 92767},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37278,28 +37278,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2954, col: 8, offset: 93222},
+																				pos: position{line: 2955, col: 8, offset: 93165},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2941, col: 12, offset: 92995},
+																						pos: position{line: 2942, col: 12, offset: 92938},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2941, col: 13, offset: 92996},
+																							pos: position{line: 2942, col: 13, offset: 92939},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 13, offset: 92996},
+																									pos:        position{line: 2942, col: 13, offset: 92939},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 20, offset: 93003},
+																									pos:        position{line: 2942, col: 20, offset: 92946},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 29, offset: 93012},
+																									pos:        position{line: 2942, col: 29, offset: 92955},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37308,9 +37308,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -37319,32 +37319,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2641, col: 5, offset: 84343},
+																	pos: position{line: 2642, col: 5, offset: 84286},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2641, col: 5, offset: 84343},
+																		pos: position{line: 2642, col: 5, offset: 84286},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2641, col: 5, offset: 84343},
+																				pos: position{line: 2642, col: 5, offset: 84286},
 																				expr: &choiceExpr{
-																					pos: position{line: 2638, col: 22, offset: 84304},
+																					pos: position{line: 2639, col: 22, offset: 84247},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2634, col: 19, offset: 84224},
+																							pos: position{line: 2635, col: 19, offset: 84167},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2634, col: 19, offset: 84224},
+																									pos:        position{line: 2635, col: 19, offset: 84167},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2634, col: 26, offset: 84231},
+																									pos: position{line: 2635, col: 26, offset: 84174},
 																									expr: &actionExpr{
-																										pos: position{line: 2932, col: 10, offset: 92824},
+																										pos: position{line: 2933, col: 10, offset: 92767},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2932, col: 10, offset: 92824},
+																											pos:        position{line: 2933, col: 10, offset: 92767},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37353,28 +37353,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37383,9 +37383,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
@@ -37393,59 +37393,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2642, col: 5, offset: 84366},
+																				pos:   position{line: 2643, col: 5, offset: 84309},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2643, col: 9, offset: 84384},
+																					pos: position{line: 2644, col: 9, offset: 84327},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2643, col: 10, offset: 84385},
+																							pos: position{line: 2644, col: 10, offset: 84328},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2643, col: 10, offset: 84385},
+																								pos:   position{line: 2644, col: 10, offset: 84328},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2643, col: 17, offset: 84392},
+																									pos: position{line: 2644, col: 17, offset: 84335},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2651, col: 21, offset: 84588},
+																											pos: position{line: 2652, col: 21, offset: 84531},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2651, col: 21, offset: 84588},
+																												pos: position{line: 2652, col: 21, offset: 84531},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2651, col: 21, offset: 84588},
+																														pos:   position{line: 2652, col: 21, offset: 84531},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2651, col: 27, offset: 84594},
+																															pos: position{line: 2652, col: 27, offset: 84537},
 																															expr: &actionExpr{
-																																pos: position{line: 2656, col: 5, offset: 84669},
+																																pos: position{line: 2657, col: 5, offset: 84612},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2656, col: 5, offset: 84669},
+																																	pos: position{line: 2657, col: 5, offset: 84612},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2656, col: 5, offset: 84669},
+																																			pos:        position{line: 2657, col: 5, offset: 84612},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2656, col: 9, offset: 84673},
+																																			pos: position{line: 2657, col: 9, offset: 84616},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2932, col: 10, offset: 92824},
+																																				pos: position{line: 2933, col: 10, offset: 92767},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2932, col: 10, offset: 92824},
+																																					pos:        position{line: 2933, col: 10, offset: 92767},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37454,21 +37454,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2656, col: 16, offset: 84680},
+																																			pos:   position{line: 2657, col: 16, offset: 84623},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2662, col: 5, offset: 84880},
+																																				pos: position{line: 2663, col: 5, offset: 84823},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2662, col: 5, offset: 84880},
+																																					pos:   position{line: 2663, col: 5, offset: 84823},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2662, col: 14, offset: 84889},
+																																						pos: position{line: 2663, col: 14, offset: 84832},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2662, col: 14, offset: 84889},
+																																							pos: position{line: 2663, col: 14, offset: 84832},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2662, col: 14, offset: 84889},
+																																								pos:        position{line: 2663, col: 14, offset: 84832},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37485,28 +37485,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2954, col: 8, offset: 93222},
+																														pos: position{line: 2955, col: 8, offset: 93165},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2941, col: 12, offset: 92995},
+																																pos: position{line: 2942, col: 12, offset: 92938},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2941, col: 13, offset: 92996},
+																																	pos: position{line: 2942, col: 13, offset: 92939},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2941, col: 13, offset: 92996},
+																																			pos:        position{line: 2942, col: 13, offset: 92939},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2941, col: 20, offset: 93003},
+																																			pos:        position{line: 2942, col: 20, offset: 92946},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2941, col: 29, offset: 93012},
+																																			pos:        position{line: 2942, col: 29, offset: 92955},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37515,9 +37515,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2951, col: 8, offset: 93172},
+																																pos: position{line: 2952, col: 8, offset: 93115},
 																																expr: &anyMatcher{
-																																	line: 2951, col: 9, offset: 93173,
+																																	line: 2952, col: 9, offset: 93116,
 																																},
 																															},
 																														},
@@ -37526,40 +37526,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2668, col: 24, offset: 85025},
+																											pos: position{line: 2669, col: 24, offset: 84968},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2668, col: 24, offset: 85025},
+																												pos:   position{line: 2669, col: 24, offset: 84968},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2668, col: 30, offset: 85031},
+																													pos: position{line: 2669, col: 30, offset: 84974},
 																													expr: &actionExpr{
-																														pos: position{line: 2673, col: 5, offset: 85107},
+																														pos: position{line: 2674, col: 5, offset: 85050},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2673, col: 5, offset: 85107},
+																															pos: position{line: 2674, col: 5, offset: 85050},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2673, col: 5, offset: 85107},
+																																	pos: position{line: 2674, col: 5, offset: 85050},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2638, col: 22, offset: 84304},
+																																		pos: position{line: 2639, col: 22, offset: 84247},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2634, col: 19, offset: 84224},
+																																				pos: position{line: 2635, col: 19, offset: 84167},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2634, col: 19, offset: 84224},
+																																						pos:        position{line: 2635, col: 19, offset: 84167},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2634, col: 26, offset: 84231},
+																																						pos: position{line: 2635, col: 26, offset: 84174},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2932, col: 10, offset: 92824},
+																																							pos: position{line: 2933, col: 10, offset: 92767},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2932, col: 10, offset: 92824},
+																																								pos:        position{line: 2933, col: 10, offset: 92767},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37568,28 +37568,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2954, col: 8, offset: 93222},
+																																						pos: position{line: 2955, col: 8, offset: 93165},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2941, col: 12, offset: 92995},
+																																								pos: position{line: 2942, col: 12, offset: 92938},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2941, col: 13, offset: 92996},
+																																									pos: position{line: 2942, col: 13, offset: 92939},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 13, offset: 92996},
+																																											pos:        position{line: 2942, col: 13, offset: 92939},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 20, offset: 93003},
+																																											pos:        position{line: 2942, col: 20, offset: 92946},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2941, col: 29, offset: 93012},
+																																											pos:        position{line: 2942, col: 29, offset: 92955},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37598,9 +37598,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2951, col: 8, offset: 93172},
+																																								pos: position{line: 2952, col: 8, offset: 93115},
 																																								expr: &anyMatcher{
-																																									line: 2951, col: 9, offset: 93173,
+																																									line: 2952, col: 9, offset: 93116,
 																																								},
 																																							},
 																																						},
@@ -37608,16 +37608,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2951, col: 8, offset: 93172},
+																																				pos: position{line: 2952, col: 8, offset: 93115},
 																																				expr: &anyMatcher{
-																																					line: 2951, col: 9, offset: 93173,
+																																					line: 2952, col: 9, offset: 93116,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2674, col: 5, offset: 85130},
+																																	pos: position{line: 2675, col: 5, offset: 85073},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37625,18 +37625,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2949, col: 11, offset: 93158},
+																																					pos: position{line: 2950, col: 11, offset: 93101},
 																																					expr: &anyMatcher{
-																																						line: 2949, col: 13, offset: 93160,
+																																						line: 2950, col: 13, offset: 93103,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2932, col: 10, offset: 92824},
+																																						pos: position{line: 2933, col: 10, offset: 92767},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2932, col: 10, offset: 92824},
+																																							pos:        position{line: 2933, col: 10, offset: 92767},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37645,28 +37645,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2954, col: 8, offset: 93222},
+																																					pos: position{line: 2955, col: 8, offset: 93165},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2941, col: 12, offset: 92995},
+																																							pos: position{line: 2942, col: 12, offset: 92938},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2941, col: 13, offset: 92996},
+																																								pos: position{line: 2942, col: 13, offset: 92939},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2941, col: 13, offset: 92996},
+																																										pos:        position{line: 2942, col: 13, offset: 92939},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2941, col: 20, offset: 93003},
+																																										pos:        position{line: 2942, col: 20, offset: 92946},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2941, col: 29, offset: 93012},
+																																										pos:        position{line: 2942, col: 29, offset: 92955},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37675,9 +37675,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2951, col: 8, offset: 93172},
+																																							pos: position{line: 2952, col: 8, offset: 93115},
 																																							expr: &anyMatcher{
-																																								line: 2951, col: 9, offset: 93173,
+																																								line: 2952, col: 9, offset: 93116,
 																																							},
 																																						},
 																																					},
@@ -37687,17 +37687,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2675, col: 5, offset: 85145},
+																																	pos:   position{line: 2676, col: 5, offset: 85088},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2675, col: 12, offset: 85152},
+																																		pos: position{line: 2676, col: 12, offset: 85095},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2692, col: 20, offset: 85616},
+																																			pos: position{line: 2693, col: 20, offset: 85559},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2692, col: 20, offset: 85616},
+																																				pos: position{line: 2693, col: 20, offset: 85559},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2692, col: 20, offset: 85616},
+																																					pos:        position{line: 2693, col: 20, offset: 85559},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37708,18 +37708,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2675, col: 31, offset: 85171},
+																																	pos:        position{line: 2676, col: 31, offset: 85114},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2675, col: 35, offset: 85175},
+																																	pos: position{line: 2676, col: 35, offset: 85118},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2932, col: 10, offset: 92824},
+																																		pos: position{line: 2933, col: 10, offset: 92767},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2932, col: 10, offset: 92824},
+																																			pos:        position{line: 2933, col: 10, offset: 92767},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37728,27 +37728,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2675, col: 42, offset: 85182},
+																																	pos: position{line: 2676, col: 42, offset: 85125},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2941, col: 12, offset: 92995},
+																																		pos: position{line: 2942, col: 12, offset: 92938},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2941, col: 13, offset: 92996},
+																																			pos: position{line: 2942, col: 13, offset: 92939},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 13, offset: 92996},
+																																					pos:        position{line: 2942, col: 13, offset: 92939},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 20, offset: 93003},
+																																					pos:        position{line: 2942, col: 20, offset: 92946},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2941, col: 29, offset: 93012},
+																																					pos:        position{line: 2942, col: 29, offset: 92955},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37758,37 +37758,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2675, col: 51, offset: 85191},
+																																	pos:   position{line: 2676, col: 51, offset: 85134},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2681, col: 5, offset: 85350},
+																																		pos: position{line: 2682, col: 5, offset: 85293},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2682, col: 9, offset: 85360},
+																																			pos: position{line: 2683, col: 9, offset: 85303},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2682, col: 9, offset: 85360},
+																																				pos: position{line: 2683, col: 9, offset: 85303},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2682, col: 9, offset: 85360},
+																																						pos: position{line: 2683, col: 9, offset: 85303},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2638, col: 22, offset: 84304},
+																																							pos: position{line: 2639, col: 22, offset: 84247},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2634, col: 19, offset: 84224},
+																																									pos: position{line: 2635, col: 19, offset: 84167},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2634, col: 19, offset: 84224},
+																																											pos:        position{line: 2635, col: 19, offset: 84167},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2634, col: 26, offset: 84231},
+																																											pos: position{line: 2635, col: 26, offset: 84174},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2932, col: 10, offset: 92824},
+																																												pos: position{line: 2933, col: 10, offset: 92767},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2932, col: 10, offset: 92824},
+																																													pos:        position{line: 2933, col: 10, offset: 92767},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37797,28 +37797,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2954, col: 8, offset: 93222},
+																																											pos: position{line: 2955, col: 8, offset: 93165},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2941, col: 12, offset: 92995},
+																																													pos: position{line: 2942, col: 12, offset: 92938},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2941, col: 13, offset: 92996},
+																																														pos: position{line: 2942, col: 13, offset: 92939},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 13, offset: 92996},
+																																																pos:        position{line: 2942, col: 13, offset: 92939},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 20, offset: 93003},
+																																																pos:        position{line: 2942, col: 20, offset: 92946},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2941, col: 29, offset: 93012},
+																																																pos:        position{line: 2942, col: 29, offset: 92955},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37827,9 +37827,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2951, col: 8, offset: 93172},
+																																													pos: position{line: 2952, col: 8, offset: 93115},
 																																													expr: &anyMatcher{
-																																														line: 2951, col: 9, offset: 93173,
+																																														line: 2952, col: 9, offset: 93116,
 																																													},
 																																												},
 																																											},
@@ -37837,16 +37837,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2951, col: 8, offset: 93172},
+																																									pos: position{line: 2952, col: 8, offset: 93115},
 																																									expr: &anyMatcher{
-																																										line: 2951, col: 9, offset: 93173,
+																																										line: 2952, col: 9, offset: 93116,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2683, col: 9, offset: 85387},
+																																						pos: position{line: 2684, col: 9, offset: 85330},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37854,18 +37854,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2949, col: 11, offset: 93158},
+																																										pos: position{line: 2950, col: 11, offset: 93101},
 																																										expr: &anyMatcher{
-																																											line: 2949, col: 13, offset: 93160,
+																																											line: 2950, col: 13, offset: 93103,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2932, col: 10, offset: 92824},
+																																											pos: position{line: 2933, col: 10, offset: 92767},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2932, col: 10, offset: 92824},
+																																												pos:        position{line: 2933, col: 10, offset: 92767},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37874,28 +37874,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2954, col: 8, offset: 93222},
+																																										pos: position{line: 2955, col: 8, offset: 93165},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2941, col: 12, offset: 92995},
+																																												pos: position{line: 2942, col: 12, offset: 92938},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2941, col: 13, offset: 92996},
+																																													pos: position{line: 2942, col: 13, offset: 92939},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2941, col: 13, offset: 92996},
+																																															pos:        position{line: 2942, col: 13, offset: 92939},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2941, col: 20, offset: 93003},
+																																															pos:        position{line: 2942, col: 20, offset: 92946},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2941, col: 29, offset: 93012},
+																																															pos:        position{line: 2942, col: 29, offset: 92955},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37904,9 +37904,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2951, col: 8, offset: 93172},
+																																												pos: position{line: 2952, col: 8, offset: 93115},
 																																												expr: &anyMatcher{
-																																													line: 2951, col: 9, offset: 93173,
+																																													line: 2952, col: 9, offset: 93116,
 																																												},
 																																											},
 																																										},
@@ -37916,22 +37916,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2684, col: 9, offset: 85406},
+																																						pos: position{line: 2685, col: 9, offset: 85349},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2684, col: 11, offset: 85408},
+																																							pos: position{line: 2685, col: 11, offset: 85351},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2684, col: 11, offset: 85408},
+																																									pos:   position{line: 2685, col: 11, offset: 85351},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2684, col: 18, offset: 85415},
+																																										pos: position{line: 2685, col: 18, offset: 85358},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2692, col: 20, offset: 85616},
+																																											pos: position{line: 2693, col: 20, offset: 85559},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2692, col: 20, offset: 85616},
+																																												pos: position{line: 2693, col: 20, offset: 85559},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2692, col: 20, offset: 85616},
+																																													pos:        position{line: 2693, col: 20, offset: 85559},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37942,7 +37942,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2684, col: 37, offset: 85434},
+																																									pos:        position{line: 2685, col: 37, offset: 85377},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37951,15 +37951,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2685, col: 9, offset: 85447},
+																																						pos:   position{line: 2686, col: 9, offset: 85390},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 18, offset: 85456},
+																																							pos: position{line: 2686, col: 18, offset: 85399},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 18, offset: 85456},
+																																								pos: position{line: 2686, col: 18, offset: 85399},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 18, offset: 85456},
+																																									pos:        position{line: 2686, col: 18, offset: 85399},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37969,30 +37969,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2687, col: 12, offset: 85518},
+																																						pos: position{line: 2688, col: 12, offset: 85461},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2954, col: 8, offset: 93222},
+																																							pos: position{line: 2955, col: 8, offset: 93165},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2941, col: 12, offset: 92995},
+																																									pos: position{line: 2942, col: 12, offset: 92938},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2941, col: 13, offset: 92996},
+																																										pos: position{line: 2942, col: 13, offset: 92939},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 13, offset: 92996},
+																																												pos:        position{line: 2942, col: 13, offset: 92939},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 20, offset: 93003},
+																																												pos:        position{line: 2942, col: 20, offset: 92946},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2941, col: 29, offset: 93012},
+																																												pos:        position{line: 2942, col: 29, offset: 92955},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38001,9 +38001,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2951, col: 8, offset: 93172},
+																																									pos: position{line: 2952, col: 8, offset: 93115},
 																																									expr: &anyMatcher{
-																																										line: 2951, col: 9, offset: 93173,
+																																										line: 2952, col: 9, offset: 93116,
 																																									},
 																																								},
 																																							},
@@ -38031,18 +38031,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2949, col: 11, offset: 93158},
+																										pos: position{line: 2950, col: 11, offset: 93101},
 																										expr: &anyMatcher{
-																											line: 2949, col: 13, offset: 93160,
+																											line: 2950, col: 13, offset: 93103,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2932, col: 10, offset: 92824},
+																											pos: position{line: 2933, col: 10, offset: 92767},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2932, col: 10, offset: 92824},
+																												pos:        position{line: 2933, col: 10, offset: 92767},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38051,28 +38051,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2954, col: 8, offset: 93222},
+																										pos: position{line: 2955, col: 8, offset: 93165},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2941, col: 12, offset: 92995},
+																												pos: position{line: 2942, col: 12, offset: 92938},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2941, col: 13, offset: 92996},
+																													pos: position{line: 2942, col: 13, offset: 92939},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 13, offset: 92996},
+																															pos:        position{line: 2942, col: 13, offset: 92939},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 20, offset: 93003},
+																															pos:        position{line: 2942, col: 20, offset: 92946},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2941, col: 29, offset: 93012},
+																															pos:        position{line: 2942, col: 29, offset: 92955},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38081,9 +38081,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2951, col: 8, offset: 93172},
+																												pos: position{line: 2952, col: 8, offset: 93115},
 																												expr: &anyMatcher{
-																													line: 2951, col: 9, offset: 93173,
+																													line: 2952, col: 9, offset: 93116,
 																												},
 																											},
 																										},
@@ -38102,24 +38102,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2638, col: 22, offset: 84304},
+													pos: position{line: 2639, col: 22, offset: 84247},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2634, col: 19, offset: 84224},
+															pos: position{line: 2635, col: 19, offset: 84167},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2634, col: 19, offset: 84224},
+																	pos:        position{line: 2635, col: 19, offset: 84167},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2634, col: 26, offset: 84231},
+																	pos: position{line: 2635, col: 26, offset: 84174},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38128,28 +38128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38158,9 +38158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -38168,9 +38168,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -38179,36 +38179,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 22, offset: 80526},
+										pos: position{line: 2503, col: 22, offset: 80481},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 22, offset: 80526},
+											pos: position{line: 2503, col: 22, offset: 80481},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2507, col: 31, offset: 80747},
+													pos:        position{line: 2508, col: 31, offset: 80702},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2507, col: 36, offset: 80752},
+													pos: position{line: 2508, col: 36, offset: 80707},
 													expr: &litMatcher{
-														pos:        position{line: 2507, col: 37, offset: 80753},
+														pos:        position{line: 2508, col: 37, offset: 80708},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2502, col: 49, offset: 80553},
+													pos:   position{line: 2503, col: 49, offset: 80508},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90511},
+														pos: position{line: 2852, col: 13, offset: 90454},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90511},
+															pos: position{line: 2852, col: 13, offset: 90454},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90511},
+																pos:        position{line: 2852, col: 13, offset: 90454},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38218,28 +38218,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2954, col: 8, offset: 93222},
+													pos: position{line: 2955, col: 8, offset: 93165},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38248,9 +38248,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2951, col: 8, offset: 93172},
+															pos: position{line: 2952, col: 8, offset: 93115},
 															expr: &anyMatcher{
-																line: 2951, col: 9, offset: 93173,
+																line: 2952, col: 9, offset: 93116,
 															},
 														},
 													},
@@ -38259,94 +38259,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1600, col: 5, offset: 51603},
+										pos: position{line: 1600, col: 5, offset: 51585},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1600, col: 5, offset: 51603},
+											pos: position{line: 1600, col: 5, offset: 51585},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1600, col: 5, offset: 51603},
+													pos:   position{line: 1600, col: 5, offset: 51585},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1600, col: 11, offset: 51609},
+														pos: position{line: 1600, col: 11, offset: 51591},
 														expr: &actionExpr{
-															pos: position{line: 1764, col: 5, offset: 56926},
+															pos: position{line: 1764, col: 5, offset: 56908},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1764, col: 5, offset: 56926},
+																pos: position{line: 1764, col: 5, offset: 56908},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1764, col: 5, offset: 56926},
+																		pos: position{line: 1764, col: 5, offset: 56908},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1767, col: 5, offset: 56989},
+																		pos:   position{line: 1767, col: 5, offset: 56971},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1767, col: 12, offset: 56996},
+																			pos: position{line: 1767, col: 12, offset: 56978},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1767, col: 12, offset: 56996},
+																					pos: position{line: 1767, col: 12, offset: 56978},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &litMatcher{
-																						pos:        position{line: 1767, col: 12, offset: 56996},
+																						pos:        position{line: 1767, col: 12, offset: 56978},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57052},
+																					pos: position{line: 1769, col: 13, offset: 57034},
 																					run: (*parser).callonListContinuationElement1594,
 																					expr: &litMatcher{
-																						pos:        position{line: 1769, col: 13, offset: 57052},
+																						pos:        position{line: 1769, col: 13, offset: 57034},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57110},
+																					pos: position{line: 1771, col: 13, offset: 57092},
 																					run: (*parser).callonListContinuationElement1596,
 																					expr: &litMatcher{
-																						pos:        position{line: 1771, col: 13, offset: 57110},
+																						pos:        position{line: 1771, col: 13, offset: 57092},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57178},
+																					pos: position{line: 1773, col: 13, offset: 57160},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &litMatcher{
-																						pos:        position{line: 1773, col: 13, offset: 57178},
+																						pos:        position{line: 1773, col: 13, offset: 57160},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57242},
+																					pos: position{line: 1775, col: 13, offset: 57224},
 																					run: (*parser).callonListContinuationElement1600,
 																					expr: &litMatcher{
-																						pos:        position{line: 1775, col: 13, offset: 57242},
+																						pos:        position{line: 1775, col: 13, offset: 57224},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57306},
+																					pos: position{line: 1777, col: 13, offset: 57288},
 																					run: (*parser).callonListContinuationElement1602,
 																					expr: &andExpr{
-																						pos: position{line: 1777, col: 13, offset: 57306},
+																						pos: position{line: 1777, col: 13, offset: 57288},
 																						expr: &actionExpr{
-																							pos: position{line: 2936, col: 11, offset: 92885},
+																							pos: position{line: 2937, col: 11, offset: 92828},
 																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2936, col: 11, offset: 92885},
+																								pos: position{line: 2937, col: 11, offset: 92828},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2936, col: 11, offset: 92885},
+																									pos:        position{line: 2937, col: 11, offset: 92828},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38360,17 +38360,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1779, col: 12, offset: 57386},
+																		pos: position{line: 1779, col: 12, offset: 57368},
 																		expr: &seqExpr{
-																			pos: position{line: 1779, col: 14, offset: 57388},
+																			pos: position{line: 1779, col: 14, offset: 57370},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1779, col: 14, offset: 57388},
+																					pos: position{line: 1779, col: 14, offset: 57370},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38379,28 +38379,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38409,9 +38409,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -38425,16 +38425,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51632},
+													pos:   position{line: 1601, col: 5, offset: 51614},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1543, col: 5, offset: 49903},
+														pos: position{line: 1543, col: 5, offset: 49885},
 														run: (*parser).callonListContinuationElement1621,
 														expr: &seqExpr{
-															pos: position{line: 1543, col: 5, offset: 49903},
+															pos: position{line: 1543, col: 5, offset: 49885},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1543, col: 5, offset: 49903},
+																	pos: position{line: 1543, col: 5, offset: 49885},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1624,
@@ -38442,18 +38442,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2949, col: 11, offset: 93158},
+																					pos: position{line: 2950, col: 11, offset: 93101},
 																					expr: &anyMatcher{
-																						line: 2949, col: 13, offset: 93160,
+																						line: 2950, col: 13, offset: 93103,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38462,28 +38462,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2954, col: 8, offset: 93222},
+																					pos: position{line: 2955, col: 8, offset: 93165},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38492,9 +38492,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2951, col: 8, offset: 93172},
+																							pos: position{line: 2952, col: 8, offset: 93115},
 																							expr: &anyMatcher{
-																								line: 2951, col: 9, offset: 93173,
+																								line: 2952, col: 9, offset: 93116,
 																							},
 																						},
 																					},
@@ -38504,23 +38504,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1544, col: 5, offset: 49918},
+																	pos: position{line: 1544, col: 5, offset: 49900},
 																	expr: &seqExpr{
-																		pos: position{line: 1574, col: 27, offset: 50823},
+																		pos: position{line: 1574, col: 27, offset: 50805},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1574, col: 27, offset: 50823},
+																				pos:        position{line: 1574, col: 27, offset: 50805},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1574, col: 31, offset: 50827},
+																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2932, col: 10, offset: 92824},
+																					pos: position{line: 2933, col: 10, offset: 92767},
 																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2932, col: 10, offset: 92824},
+																						pos:        position{line: 2933, col: 10, offset: 92767},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38529,25 +38529,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38559,20 +38559,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1545, col: 5, offset: 49946},
+																	pos: position{line: 1545, col: 5, offset: 49928},
 																	expr: &actionExpr{
-																		pos: position{line: 1616, col: 5, offset: 52042},
+																		pos: position{line: 1616, col: 5, offset: 52024},
 																		run: (*parser).callonListContinuationElement1651,
 																		expr: &seqExpr{
-																			pos: position{line: 1616, col: 5, offset: 52042},
+																			pos: position{line: 1616, col: 5, offset: 52024},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1616, col: 5, offset: 52042},
+																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38581,27 +38581,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1616, col: 12, offset: 52049},
+																					pos:   position{line: 1616, col: 12, offset: 52031},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1618, col: 9, offset: 52112},
+																						pos: position{line: 1618, col: 9, offset: 52094},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1618, col: 9, offset: 52112},
+																								pos: position{line: 1618, col: 9, offset: 52094},
 																								run: (*parser).callonListContinuationElement1658,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 9, offset: 52112},
+																									pos: position{line: 1618, col: 9, offset: 52094},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1618, col: 9, offset: 52112},
+																											pos:   position{line: 1618, col: 9, offset: 52094},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1618, col: 16, offset: 52119},
+																												pos: position{line: 1618, col: 16, offset: 52101},
 																												run: (*parser).callonListContinuationElement1661,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1618, col: 16, offset: 52119},
+																													pos: position{line: 1618, col: 16, offset: 52101},
 																													expr: &litMatcher{
-																														pos:        position{line: 1618, col: 17, offset: 52120},
+																														pos:        position{line: 1618, col: 17, offset: 52102},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38610,22 +38610,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1622, col: 9, offset: 52220},
+																											pos: position{line: 1622, col: 9, offset: 52202},
 																											run: (*parser).callonListContinuationElement1664,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 11, offset: 52937},
+																								pos: position{line: 1641, col: 11, offset: 52919},
 																								run: (*parser).callonListContinuationElement1665,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 11, offset: 52937},
+																									pos: position{line: 1641, col: 11, offset: 52919},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 11, offset: 52937},
+																											pos: position{line: 1641, col: 11, offset: 52919},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 12, offset: 52938},
+																												pos:        position{line: 1641, col: 12, offset: 52920},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38633,7 +38633,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 20, offset: 52946},
+																											pos:        position{line: 1641, col: 20, offset: 52928},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38642,20 +38642,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1643, col: 13, offset: 53063},
+																								pos: position{line: 1643, col: 13, offset: 53045},
 																								run: (*parser).callonListContinuationElement1670,
 																								expr: &seqExpr{
-																									pos: position{line: 1643, col: 13, offset: 53063},
+																									pos: position{line: 1643, col: 13, offset: 53045},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1643, col: 14, offset: 53064},
+																											pos:        position{line: 1643, col: 14, offset: 53046},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 21, offset: 53071},
+																											pos:        position{line: 1643, col: 21, offset: 53053},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38664,20 +38664,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1645, col: 13, offset: 53191},
+																								pos: position{line: 1645, col: 13, offset: 53173},
 																								run: (*parser).callonListContinuationElement1674,
 																								expr: &seqExpr{
-																									pos: position{line: 1645, col: 13, offset: 53191},
+																									pos: position{line: 1645, col: 13, offset: 53173},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1645, col: 14, offset: 53192},
+																											pos:        position{line: 1645, col: 14, offset: 53174},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1645, col: 21, offset: 53199},
+																											pos:        position{line: 1645, col: 21, offset: 53181},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38686,15 +38686,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1647, col: 13, offset: 53319},
+																								pos: position{line: 1647, col: 13, offset: 53301},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1647, col: 13, offset: 53319},
+																									pos: position{line: 1647, col: 13, offset: 53301},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1647, col: 13, offset: 53319},
+																											pos: position{line: 1647, col: 13, offset: 53301},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1647, col: 14, offset: 53320},
+																												pos:        position{line: 1647, col: 14, offset: 53302},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38702,7 +38702,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1647, col: 26, offset: 53332},
+																											pos:        position{line: 1647, col: 26, offset: 53314},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38711,15 +38711,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1649, col: 13, offset: 53452},
+																								pos: position{line: 1649, col: 13, offset: 53434},
 																								run: (*parser).callonListContinuationElement1683,
 																								expr: &seqExpr{
-																									pos: position{line: 1649, col: 13, offset: 53452},
+																									pos: position{line: 1649, col: 13, offset: 53434},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 13, offset: 53452},
+																											pos: position{line: 1649, col: 13, offset: 53434},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1649, col: 14, offset: 53453},
+																												pos:        position{line: 1649, col: 14, offset: 53435},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38727,7 +38727,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 26, offset: 53465},
+																											pos:        position{line: 1649, col: 26, offset: 53447},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38739,12 +38739,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2936, col: 11, offset: 92885},
+																					pos: position{line: 2937, col: 11, offset: 92828},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2936, col: 11, offset: 92885},
+																						pos: position{line: 2937, col: 11, offset: 92828},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2936, col: 11, offset: 92885},
+																							pos:        position{line: 2937, col: 11, offset: 92828},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38757,20 +38757,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1546, col: 5, offset: 49976},
+																	pos: position{line: 1546, col: 5, offset: 49958},
 																	expr: &actionExpr{
-																		pos: position{line: 1666, col: 5, offset: 54004},
+																		pos: position{line: 1666, col: 5, offset: 53986},
 																		run: (*parser).callonListContinuationElement1692,
 																		expr: &seqExpr{
-																			pos: position{line: 1666, col: 5, offset: 54004},
+																			pos: position{line: 1666, col: 5, offset: 53986},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1666, col: 5, offset: 54004},
+																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38779,24 +38779,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1667, col: 5, offset: 54016},
+																					pos:   position{line: 1667, col: 5, offset: 53998},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1668, col: 9, offset: 54032},
+																						pos: position{line: 1668, col: 9, offset: 54014},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &choiceExpr{
-																							pos: position{line: 1668, col: 10, offset: 54033},
+																							pos: position{line: 1668, col: 10, offset: 54015},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1668, col: 11, offset: 54034},
+																									pos:        position{line: 1668, col: 11, offset: 54016},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1668, col: 18, offset: 54041},
+																									pos: position{line: 1668, col: 18, offset: 54023},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 19, offset: 54042},
+																										pos:        position{line: 1668, col: 19, offset: 54024},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38807,16 +38807,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1671, col: 7, offset: 54132},
+																					pos: position{line: 1671, col: 7, offset: 54114},
 																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2936, col: 11, offset: 92885},
+																					pos: position{line: 2937, col: 11, offset: 92828},
 																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2936, col: 11, offset: 92885},
+																						pos: position{line: 2937, col: 11, offset: 92828},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2936, col: 11, offset: 92885},
+																							pos:        position{line: 2937, col: 11, offset: 92828},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38829,29 +38829,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1547, col: 5, offset: 50008},
+																	pos: position{line: 1547, col: 5, offset: 49990},
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 5, offset: 56541},
+																		pos: position{line: 1755, col: 5, offset: 56523},
 																		run: (*parser).callonListContinuationElement1708,
 																		expr: &seqExpr{
-																			pos: position{line: 1755, col: 5, offset: 56541},
+																			pos: position{line: 1755, col: 5, offset: 56523},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 5, offset: 56541},
+																					pos:        position{line: 1755, col: 5, offset: 56523},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1755, col: 9, offset: 56545},
+																					pos:   position{line: 1755, col: 9, offset: 56527},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1755, col: 14, offset: 56550},
+																						pos: position{line: 1755, col: 14, offset: 56532},
 																						run: (*parser).callonListContinuationElement1712,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1755, col: 14, offset: 56550},
+																							pos: position{line: 1755, col: 14, offset: 56532},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1755, col: 14, offset: 56550},
+																								pos:        position{line: 1755, col: 14, offset: 56532},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38861,18 +38861,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 62, offset: 56598},
+																					pos:        position{line: 1755, col: 62, offset: 56580},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2936, col: 11, offset: 92885},
+																					pos: position{line: 2937, col: 11, offset: 92828},
 																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2936, col: 11, offset: 92885},
+																						pos: position{line: 2937, col: 11, offset: 92828},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2936, col: 11, offset: 92885},
+																							pos:        position{line: 2937, col: 11, offset: 92828},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38885,36 +38885,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1548, col: 5, offset: 50038},
+																	pos: position{line: 1548, col: 5, offset: 50020},
 																	expr: &seqExpr{
-																		pos: position{line: 1548, col: 7, offset: 50040},
+																		pos: position{line: 1548, col: 7, offset: 50022},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55023},
+																				pos: position{line: 1701, col: 5, offset: 55005},
 																				run: (*parser).callonListContinuationElement1721,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55023},
+																					pos: position{line: 1701, col: 5, offset: 55005},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55024},
+																						pos: position{line: 1701, col: 6, offset: 55006},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55024},
+																								pos: position{line: 1701, col: 6, offset: 55006},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55174},
+																									pos: position{line: 1706, col: 5, offset: 55156},
 																									run: (*parser).callonListContinuationElement1725,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55174},
+																										pos: position{line: 1706, col: 5, offset: 55156},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55174},
+																												pos:   position{line: 1706, col: 5, offset: 55156},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55185},
+																													pos: position{line: 1706, col: 16, offset: 55167},
 																													run: (*parser).callonListContinuationElement1728,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55185},
+																														pos: position{line: 1706, col: 16, offset: 55167},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55186},
+																															pos:        position{line: 1706, col: 17, offset: 55168},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -38923,7 +38923,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55243},
+																												pos: position{line: 1709, col: 5, offset: 55225},
 																												run: (*parser).callonListContinuationElement1731,
 																											},
 																										},
@@ -38931,30 +38931,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55053},
+																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2954, col: 8, offset: 93222},
+																									pos: position{line: 2955, col: 8, offset: 93165},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2941, col: 12, offset: 92995},
+																											pos: position{line: 2942, col: 12, offset: 92938},
 																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2941, col: 13, offset: 92996},
+																												pos: position{line: 2942, col: 13, offset: 92939},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 13, offset: 92996},
+																														pos:        position{line: 2942, col: 13, offset: 92939},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 20, offset: 93003},
+																														pos:        position{line: 2942, col: 20, offset: 92946},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2941, col: 29, offset: 93012},
+																														pos:        position{line: 2942, col: 29, offset: 92955},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38963,37 +38963,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2951, col: 8, offset: 93172},
+																											pos: position{line: 2952, col: 8, offset: 93115},
 																											expr: &anyMatcher{
-																												line: 2951, col: 9, offset: 93173,
+																												line: 2952, col: 9, offset: 93116,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55058,
+																								line: 1701, col: 40, offset: 55040,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55174},
+																				pos: position{line: 1706, col: 5, offset: 55156},
 																				run: (*parser).callonListContinuationElement1742,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55174},
+																					pos: position{line: 1706, col: 5, offset: 55156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55174},
+																							pos:   position{line: 1706, col: 5, offset: 55156},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55185},
+																								pos: position{line: 1706, col: 16, offset: 55167},
 																								run: (*parser).callonListContinuationElement1745,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55185},
+																									pos: position{line: 1706, col: 16, offset: 55167},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55186},
+																										pos:        position{line: 1706, col: 17, offset: 55168},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39002,20 +39002,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55243},
+																							pos: position{line: 1709, col: 5, offset: 55225},
 																							run: (*parser).callonListContinuationElement1748,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1548, col: 59, offset: 50092},
+																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2932, col: 10, offset: 92824},
+																						pos: position{line: 2933, col: 10, offset: 92767},
 																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2932, col: 10, offset: 92824},
+																							pos:        position{line: 2933, col: 10, offset: 92767},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39023,25 +39023,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2941, col: 12, offset: 92995},
+																						pos: position{line: 2942, col: 12, offset: 92938},
 																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2941, col: 13, offset: 92996},
+																							pos: position{line: 2942, col: 13, offset: 92939},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 13, offset: 92996},
+																									pos:        position{line: 2942, col: 13, offset: 92939},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 20, offset: 93003},
+																									pos:        position{line: 2942, col: 20, offset: 92946},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2941, col: 29, offset: 93012},
+																									pos:        position{line: 2942, col: 29, offset: 92955},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39050,9 +39050,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2951, col: 8, offset: 93172},
+																						pos: position{line: 2952, col: 8, offset: 93115},
 																						expr: &anyMatcher{
-																							line: 2951, col: 9, offset: 93173,
+																							line: 2952, col: 9, offset: 93116,
 																						},
 																					},
 																				},
@@ -39061,9 +39061,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1549, col: 5, offset: 50110},
+																	pos: position{line: 1549, col: 5, offset: 50092},
 																	expr: &choiceExpr{
-																		pos: position{line: 1549, col: 7, offset: 50112},
+																		pos: position{line: 1549, col: 7, offset: 50094},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -39074,7 +39074,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2786, col: 13, offset: 88772},
+																								pos:        position{line: 2787, col: 13, offset: 88715},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39124,10 +39124,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39136,28 +39136,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39166,9 +39166,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39213,10 +39213,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39225,28 +39225,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39255,9 +39255,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39298,10 +39298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39310,28 +39310,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39340,9 +39340,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39387,10 +39387,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39399,28 +39399,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39429,9 +39429,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39476,10 +39476,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39488,28 +39488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39518,9 +39518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39565,10 +39565,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39577,28 +39577,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39607,9 +39607,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39654,10 +39654,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39666,28 +39666,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39696,9 +39696,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39743,10 +39743,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39755,28 +39755,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39785,9 +39785,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39832,10 +39832,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2932, col: 10, offset: 92824},
+																														pos: position{line: 2933, col: 10, offset: 92767},
 																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2932, col: 10, offset: 92824},
+																															pos:        position{line: 2933, col: 10, offset: 92767},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39844,28 +39844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2954, col: 8, offset: 93222},
+																													pos: position{line: 2955, col: 8, offset: 93165},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2941, col: 12, offset: 92995},
+																															pos: position{line: 2942, col: 12, offset: 92938},
 																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2941, col: 13, offset: 92996},
+																																pos: position{line: 2942, col: 13, offset: 92939},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 13, offset: 92996},
+																																		pos:        position{line: 2942, col: 13, offset: 92939},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 20, offset: 93003},
+																																		pos:        position{line: 2942, col: 20, offset: 92946},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2941, col: 29, offset: 93012},
+																																		pos:        position{line: 2942, col: 29, offset: 92955},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39874,9 +39874,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2951, col: 8, offset: 93172},
+																															pos: position{line: 2952, col: 8, offset: 93115},
 																															expr: &anyMatcher{
-																																line: 2951, col: 9, offset: 93173,
+																																line: 2952, col: 9, offset: 93116,
 																															},
 																														},
 																													},
@@ -39913,10 +39913,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2932, col: 10, offset: 92824},
+																								pos: position{line: 2933, col: 10, offset: 92767},
 																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2932, col: 10, offset: 92824},
+																									pos:        position{line: 2933, col: 10, offset: 92767},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39925,28 +39925,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2954, col: 8, offset: 93222},
+																							pos: position{line: 2955, col: 8, offset: 93165},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2941, col: 12, offset: 92995},
+																									pos: position{line: 2942, col: 12, offset: 92938},
 																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2941, col: 13, offset: 92996},
+																										pos: position{line: 2942, col: 13, offset: 92939},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 13, offset: 92996},
+																												pos:        position{line: 2942, col: 13, offset: 92939},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 20, offset: 93003},
+																												pos:        position{line: 2942, col: 20, offset: 92946},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2941, col: 29, offset: 93012},
+																												pos:        position{line: 2942, col: 29, offset: 92955},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39955,9 +39955,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2951, col: 8, offset: 93172},
+																									pos: position{line: 2952, col: 8, offset: 93115},
 																									expr: &anyMatcher{
-																										line: 2951, col: 9, offset: 93173,
+																										line: 2952, col: 9, offset: 93116,
 																									},
 																								},
 																							},
@@ -39966,21 +39966,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2634, col: 19, offset: 84224},
+																				pos: position{line: 2635, col: 19, offset: 84167},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2634, col: 19, offset: 84224},
+																						pos:        position{line: 2635, col: 19, offset: 84167},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2634, col: 26, offset: 84231},
+																						pos: position{line: 2635, col: 26, offset: 84174},
 																						expr: &actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39989,28 +39989,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2954, col: 8, offset: 93222},
+																						pos: position{line: 2955, col: 8, offset: 93165},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2941, col: 12, offset: 92995},
+																								pos: position{line: 2942, col: 12, offset: 92938},
 																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2941, col: 13, offset: 92996},
+																									pos: position{line: 2942, col: 13, offset: 92939},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 13, offset: 92996},
+																											pos:        position{line: 2942, col: 13, offset: 92939},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 20, offset: 93003},
+																											pos:        position{line: 2942, col: 20, offset: 92946},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2941, col: 29, offset: 93012},
+																											pos:        position{line: 2942, col: 29, offset: 92955},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40019,9 +40019,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2951, col: 8, offset: 93172},
+																								pos: position{line: 2952, col: 8, offset: 93115},
 																								expr: &anyMatcher{
-																									line: 2951, col: 9, offset: 93173,
+																									line: 2952, col: 9, offset: 93116,
 																								},
 																							},
 																						},
@@ -40032,15 +40032,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1550, col: 5, offset: 50170},
+																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2855, col: 14, offset: 90578},
+																		pos: position{line: 2856, col: 14, offset: 90521},
 																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2855, col: 14, offset: 90578},
+																			pos: position{line: 2856, col: 14, offset: 90521},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 14, offset: 90578},
+																				pos:        position{line: 2856, col: 14, offset: 90521},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40050,28 +40050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40080,9 +40080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -40103,33 +40103,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1739, col: 1, offset: 56035},
+			pos:  position{line: 1739, col: 1, offset: 56017},
 			expr: &actionExpr{
-				pos: position{line: 1741, col: 5, offset: 56113},
+				pos: position{line: 1741, col: 5, offset: 56095},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1741, col: 5, offset: 56113},
+					pos: position{line: 1741, col: 5, offset: 56095},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1741, col: 5, offset: 56113},
+							pos: position{line: 1741, col: 5, offset: 56095},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 5, offset: 56180},
+							pos:        position{line: 1744, col: 5, offset: 56162},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1744, col: 9, offset: 56184},
+							pos:   position{line: 1744, col: 9, offset: 56166},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1744, col: 14, offset: 56189},
+								pos: position{line: 1744, col: 14, offset: 56171},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1744, col: 14, offset: 56189},
+									pos: position{line: 1744, col: 14, offset: 56171},
 									expr: &charClassMatcher{
-										pos:        position{line: 1744, col: 14, offset: 56189},
+										pos:        position{line: 1744, col: 14, offset: 56171},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40139,18 +40139,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 62, offset: 56237},
+							pos:        position{line: 1744, col: 62, offset: 56219},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1744, col: 66, offset: 56241},
+							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40159,30 +40159,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1744, col: 73, offset: 56248},
+							pos: position{line: 1744, col: 73, offset: 56230},
 							expr: &choiceExpr{
-								pos: position{line: 1744, col: 75, offset: 56250},
+								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2941, col: 12, offset: 92995},
+										pos: position{line: 2942, col: 12, offset: 92938},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2941, col: 13, offset: 92996},
+											pos: position{line: 2942, col: 13, offset: 92939},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2941, col: 13, offset: 92996},
+													pos:        position{line: 2942, col: 13, offset: 92939},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 20, offset: 93003},
+													pos:        position{line: 2942, col: 20, offset: 92946},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 29, offset: 93012},
+													pos:        position{line: 2942, col: 29, offset: 92955},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40191,13 +40191,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2951, col: 8, offset: 93172},
+										pos: position{line: 2952, col: 8, offset: 93115},
 										expr: &anyMatcher{
-											line: 2951, col: 9, offset: 93173,
+											line: 2952, col: 9, offset: 93116,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1744, col: 81, offset: 56256},
+										pos:  position{line: 1744, col: 81, offset: 56238},
 										name: "Callout",
 									},
 								},
@@ -40209,44 +40209,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1783, col: 1, offset: 57443},
+			pos:  position{line: 1783, col: 1, offset: 57425},
 			expr: &actionExpr{
-				pos: position{line: 1785, col: 5, offset: 57517},
+				pos: position{line: 1785, col: 5, offset: 57499},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1785, col: 5, offset: 57517},
+					pos: position{line: 1785, col: 5, offset: 57499},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1785, col: 5, offset: 57517},
+							pos: position{line: 1785, col: 5, offset: 57499},
 							expr: &seqExpr{
-								pos: position{line: 1785, col: 7, offset: 57519},
+								pos: position{line: 1785, col: 7, offset: 57501},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2786, col: 13, offset: 88772},
+										pos:        position{line: 2787, col: 13, offset: 88715},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1785, col: 16, offset: 57528},
+										pos: position{line: 1785, col: 16, offset: 57510},
 										expr: &seqExpr{
-											pos: position{line: 1785, col: 18, offset: 57530},
+											pos: position{line: 1785, col: 18, offset: 57512},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1785, col: 19, offset: 57531},
+													pos:        position{line: 1785, col: 19, offset: 57513},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2936, col: 11, offset: 92885},
+													pos: position{line: 2937, col: 11, offset: 92828},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2936, col: 11, offset: 92885},
+														pos: position{line: 2937, col: 11, offset: 92828},
 														expr: &charClassMatcher{
-															pos:        position{line: 2936, col: 11, offset: 92885},
+															pos:        position{line: 2937, col: 11, offset: 92828},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40261,88 +40261,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57671},
+							pos:   position{line: 1786, col: 5, offset: 57653},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57677},
+								pos: position{line: 1786, col: 11, offset: 57659},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56926},
+									pos: position{line: 1764, col: 5, offset: 56908},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56926},
+										pos: position{line: 1764, col: 5, offset: 56908},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56926},
+												pos: position{line: 1764, col: 5, offset: 56908},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 56989},
+												pos:   position{line: 1767, col: 5, offset: 56971},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 56996},
+													pos: position{line: 1767, col: 12, offset: 56978},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 56996},
+															pos: position{line: 1767, col: 12, offset: 56978},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 12, offset: 56996},
+																pos:        position{line: 1767, col: 12, offset: 56978},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57052},
+															pos: position{line: 1769, col: 13, offset: 57034},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57052},
+																pos:        position{line: 1769, col: 13, offset: 57034},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57110},
+															pos: position{line: 1771, col: 13, offset: 57092},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1771, col: 13, offset: 57110},
+																pos:        position{line: 1771, col: 13, offset: 57092},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57178},
+															pos: position{line: 1773, col: 13, offset: 57160},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1773, col: 13, offset: 57178},
+																pos:        position{line: 1773, col: 13, offset: 57160},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57242},
+															pos: position{line: 1775, col: 13, offset: 57224},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1775, col: 13, offset: 57242},
+																pos:        position{line: 1775, col: 13, offset: 57224},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57306},
+															pos: position{line: 1777, col: 13, offset: 57288},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57306},
+																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40356,17 +40356,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57386},
+												pos: position{line: 1779, col: 12, offset: 57368},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57388},
+													pos: position{line: 1779, col: 14, offset: 57370},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57388},
+															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40375,28 +40375,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2954, col: 8, offset: 93222},
+															pos: position{line: 2955, col: 8, offset: 93165},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2941, col: 12, offset: 92995},
+																	pos: position{line: 2942, col: 12, offset: 92938},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2941, col: 13, offset: 92996},
+																		pos: position{line: 2942, col: 13, offset: 92939},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 13, offset: 92996},
+																				pos:        position{line: 2942, col: 13, offset: 92939},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 20, offset: 93003},
+																				pos:        position{line: 2942, col: 20, offset: 92946},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 29, offset: 93012},
+																				pos:        position{line: 2942, col: 29, offset: 92955},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40405,9 +40405,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -40421,24 +40421,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57699},
+							pos:   position{line: 1787, col: 5, offset: 57681},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58910},
+								pos: position{line: 1824, col: 5, offset: 58892},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58910},
+									pos: position{line: 1824, col: 5, offset: 58892},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58910},
+											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 14, offset: 90578},
+												pos: position{line: 2856, col: 14, offset: 90521},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2855, col: 14, offset: 90578},
+													pos: position{line: 2856, col: 14, offset: 90521},
 													expr: &charClassMatcher{
-														pos:        position{line: 2855, col: 14, offset: 90578},
+														pos:        position{line: 2856, col: 14, offset: 90521},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40448,32 +40448,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58934},
+											pos: position{line: 1825, col: 5, offset: 58916},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2954, col: 8, offset: 93222},
+											pos: position{line: 2955, col: 8, offset: 93165},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2941, col: 12, offset: 92995},
+													pos: position{line: 2942, col: 12, offset: 92938},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2941, col: 13, offset: 92996},
+														pos: position{line: 2942, col: 13, offset: 92939},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2941, col: 13, offset: 92996},
+																pos:        position{line: 2942, col: 13, offset: 92939},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2941, col: 20, offset: 93003},
+																pos:        position{line: 2942, col: 20, offset: 92946},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2941, col: 29, offset: 93012},
+																pos:        position{line: 2942, col: 29, offset: 92955},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40482,9 +40482,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -40494,28 +40494,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1788, col: 5, offset: 57733},
+							pos: position{line: 1788, col: 5, offset: 57715},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1795, col: 5, offset: 58063},
+							pos:   position{line: 1795, col: 5, offset: 58045},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1795, col: 16, offset: 58074},
+								pos: position{line: 1795, col: 16, offset: 58056},
 								expr: &actionExpr{
-									pos: position{line: 1796, col: 9, offset: 58084},
+									pos: position{line: 1796, col: 9, offset: 58066},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1796, col: 9, offset: 58084},
+										pos: position{line: 1796, col: 9, offset: 58066},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2949, col: 11, offset: 93158},
+												pos: position{line: 2950, col: 11, offset: 93101},
 												expr: &anyMatcher{
-													line: 2949, col: 13, offset: 93160,
+													line: 2950, col: 13, offset: 93103,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58100},
+												pos: position{line: 1797, col: 9, offset: 58082},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph71,
@@ -40523,18 +40523,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40543,28 +40543,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40573,9 +40573,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -40585,16 +40585,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58119},
+												pos: position{line: 1798, col: 9, offset: 58101},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1798, col: 10, offset: 58120},
+													pos:  position{line: 1798, col: 10, offset: 58102},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1799, col: 9, offset: 58144},
+												pos: position{line: 1799, col: 9, offset: 58126},
 												expr: &choiceExpr{
-													pos: position{line: 1799, col: 11, offset: 58146},
+													pos: position{line: 1799, col: 11, offset: 58128},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40605,7 +40605,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2786, col: 13, offset: 88772},
+																			pos:        position{line: 2787, col: 13, offset: 88715},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40655,10 +40655,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40667,28 +40667,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40697,9 +40697,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -40744,10 +40744,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40756,28 +40756,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40786,9 +40786,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -40829,10 +40829,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40841,28 +40841,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40871,9 +40871,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -40918,10 +40918,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40930,28 +40930,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40960,9 +40960,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41007,10 +41007,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41019,28 +41019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41049,9 +41049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41096,10 +41096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41108,28 +41108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41138,9 +41138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41185,10 +41185,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41197,28 +41197,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41227,9 +41227,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41274,10 +41274,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41286,28 +41286,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41316,9 +41316,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41363,10 +41363,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41375,28 +41375,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41405,9 +41405,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -41444,10 +41444,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41456,28 +41456,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41486,9 +41486,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -41497,21 +41497,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2634, col: 19, offset: 84224},
+															pos: position{line: 2635, col: 19, offset: 84167},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2634, col: 19, offset: 84224},
+																	pos:        position{line: 2635, col: 19, offset: 84167},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2634, col: 26, offset: 84231},
+																	pos: position{line: 2635, col: 26, offset: 84174},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41520,28 +41520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41550,9 +41550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -41563,23 +41563,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1800, col: 9, offset: 58208},
+												pos: position{line: 1800, col: 9, offset: 58190},
 												expr: &seqExpr{
-													pos: position{line: 1574, col: 27, offset: 50823},
+													pos: position{line: 1574, col: 27, offset: 50805},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1574, col: 27, offset: 50823},
+															pos:        position{line: 1574, col: 27, offset: 50805},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1574, col: 31, offset: 50827},
+															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41588,25 +41588,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41618,42 +41618,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1801, col: 9, offset: 58240},
+												pos:   position{line: 1801, col: 9, offset: 58222},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1801, col: 15, offset: 58246},
+													pos: position{line: 1801, col: 15, offset: 58228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2502, col: 22, offset: 80526},
+															pos: position{line: 2503, col: 22, offset: 80481},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 22, offset: 80526},
+																pos: position{line: 2503, col: 22, offset: 80481},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2507, col: 31, offset: 80747},
+																		pos:        position{line: 2508, col: 31, offset: 80702},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2507, col: 36, offset: 80752},
+																		pos: position{line: 2508, col: 36, offset: 80707},
 																		expr: &litMatcher{
-																			pos:        position{line: 2507, col: 37, offset: 80753},
+																			pos:        position{line: 2508, col: 37, offset: 80708},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2502, col: 49, offset: 80553},
+																		pos:   position{line: 2503, col: 49, offset: 80508},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90511},
+																			pos: position{line: 2852, col: 13, offset: 90454},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90511},
+																				pos: position{line: 2852, col: 13, offset: 90454},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90511},
+																					pos:        position{line: 2852, col: 13, offset: 90454},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41663,28 +41663,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41693,9 +41693,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -41704,21 +41704,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58910},
+															pos: position{line: 1824, col: 5, offset: 58892},
 															run: (*parser).callonShortcutParagraph325,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58910},
+																pos: position{line: 1824, col: 5, offset: 58892},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58910},
+																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 14, offset: 90578},
+																			pos: position{line: 2856, col: 14, offset: 90521},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2855, col: 14, offset: 90578},
+																				pos: position{line: 2856, col: 14, offset: 90521},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 14, offset: 90578},
+																					pos:        position{line: 2856, col: 14, offset: 90521},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41728,32 +41728,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58934},
+																		pos: position{line: 1825, col: 5, offset: 58916},
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41762,9 +41762,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -41786,96 +41786,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1808, col: 1, offset: 58450},
+			pos:  position{line: 1808, col: 1, offset: 58432},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58468},
+				pos: position{line: 1809, col: 5, offset: 58450},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58468},
+					pos: position{line: 1809, col: 5, offset: 58450},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58468},
+							pos:   position{line: 1809, col: 5, offset: 58450},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 11, offset: 58474},
+								pos: position{line: 1809, col: 11, offset: 58456},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56926},
+									pos: position{line: 1764, col: 5, offset: 56908},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56926},
+										pos: position{line: 1764, col: 5, offset: 56908},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56926},
+												pos: position{line: 1764, col: 5, offset: 56908},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 56989},
+												pos:   position{line: 1767, col: 5, offset: 56971},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 56996},
+													pos: position{line: 1767, col: 12, offset: 56978},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 56996},
+															pos: position{line: 1767, col: 12, offset: 56978},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1767, col: 12, offset: 56996},
+																pos:        position{line: 1767, col: 12, offset: 56978},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57052},
+															pos: position{line: 1769, col: 13, offset: 57034},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57052},
+																pos:        position{line: 1769, col: 13, offset: 57034},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57110},
+															pos: position{line: 1771, col: 13, offset: 57092},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1771, col: 13, offset: 57110},
+																pos:        position{line: 1771, col: 13, offset: 57092},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57178},
+															pos: position{line: 1773, col: 13, offset: 57160},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1773, col: 13, offset: 57178},
+																pos:        position{line: 1773, col: 13, offset: 57160},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57242},
+															pos: position{line: 1775, col: 13, offset: 57224},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1775, col: 13, offset: 57242},
+																pos:        position{line: 1775, col: 13, offset: 57224},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57306},
+															pos: position{line: 1777, col: 13, offset: 57288},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57306},
+																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2936, col: 11, offset: 92885},
+																	pos: position{line: 2937, col: 11, offset: 92828},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2936, col: 11, offset: 92885},
+																		pos: position{line: 2937, col: 11, offset: 92828},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2936, col: 11, offset: 92885},
+																			pos:        position{line: 2937, col: 11, offset: 92828},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41889,17 +41889,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57386},
+												pos: position{line: 1779, col: 12, offset: 57368},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57388},
+													pos: position{line: 1779, col: 14, offset: 57370},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57388},
+															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41908,28 +41908,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2954, col: 8, offset: 93222},
+															pos: position{line: 2955, col: 8, offset: 93165},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2941, col: 12, offset: 92995},
+																	pos: position{line: 2942, col: 12, offset: 92938},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2941, col: 13, offset: 92996},
+																		pos: position{line: 2942, col: 13, offset: 92939},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 13, offset: 92996},
+																				pos:        position{line: 2942, col: 13, offset: 92939},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 20, offset: 93003},
+																				pos:        position{line: 2942, col: 20, offset: 92946},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 29, offset: 93012},
+																				pos:        position{line: 2942, col: 29, offset: 92955},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41938,9 +41938,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -41954,24 +41954,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58497},
+							pos:   position{line: 1810, col: 5, offset: 58479},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58910},
+								pos: position{line: 1824, col: 5, offset: 58892},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58910},
+									pos: position{line: 1824, col: 5, offset: 58892},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58910},
+											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 14, offset: 90578},
+												pos: position{line: 2856, col: 14, offset: 90521},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2855, col: 14, offset: 90578},
+													pos: position{line: 2856, col: 14, offset: 90521},
 													expr: &charClassMatcher{
-														pos:        position{line: 2855, col: 14, offset: 90578},
+														pos:        position{line: 2856, col: 14, offset: 90521},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41981,32 +41981,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58934},
+											pos: position{line: 1825, col: 5, offset: 58916},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2954, col: 8, offset: 93222},
+											pos: position{line: 2955, col: 8, offset: 93165},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2941, col: 12, offset: 92995},
+													pos: position{line: 2942, col: 12, offset: 92938},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2941, col: 13, offset: 92996},
+														pos: position{line: 2942, col: 13, offset: 92939},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2941, col: 13, offset: 92996},
+																pos:        position{line: 2942, col: 13, offset: 92939},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2941, col: 20, offset: 93003},
+																pos:        position{line: 2942, col: 20, offset: 92946},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2941, col: 29, offset: 93012},
+																pos:        position{line: 2942, col: 29, offset: 92955},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42015,9 +42015,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2951, col: 8, offset: 93172},
+													pos: position{line: 2952, col: 8, offset: 93115},
 													expr: &anyMatcher{
-														line: 2951, col: 9, offset: 93173,
+														line: 2952, col: 9, offset: 93116,
 													},
 												},
 											},
@@ -42027,24 +42027,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58531},
+							pos:   position{line: 1811, col: 5, offset: 58513},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1811, col: 16, offset: 58542},
+								pos: position{line: 1811, col: 16, offset: 58524},
 								expr: &actionExpr{
-									pos: position{line: 1812, col: 9, offset: 58552},
+									pos: position{line: 1812, col: 9, offset: 58534},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1812, col: 9, offset: 58552},
+										pos: position{line: 1812, col: 9, offset: 58534},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2949, col: 11, offset: 93158},
+												pos: position{line: 2950, col: 11, offset: 93101},
 												expr: &anyMatcher{
-													line: 2949, col: 13, offset: 93160,
+													line: 2950, col: 13, offset: 93103,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58567},
+												pos: position{line: 1813, col: 9, offset: 58549},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph61,
@@ -42052,18 +42052,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2949, col: 11, offset: 93158},
+																pos: position{line: 2950, col: 11, offset: 93101},
 																expr: &anyMatcher{
-																	line: 2949, col: 13, offset: 93160,
+																	line: 2950, col: 13, offset: 93103,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42072,28 +42072,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2954, col: 8, offset: 93222},
+																pos: position{line: 2955, col: 8, offset: 93165},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2941, col: 12, offset: 92995},
+																		pos: position{line: 2942, col: 12, offset: 92938},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2941, col: 13, offset: 92996},
+																			pos: position{line: 2942, col: 13, offset: 92939},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 13, offset: 92996},
+																					pos:        position{line: 2942, col: 13, offset: 92939},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 20, offset: 93003},
+																					pos:        position{line: 2942, col: 20, offset: 92946},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2941, col: 29, offset: 93012},
+																					pos:        position{line: 2942, col: 29, offset: 92955},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42102,9 +42102,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2951, col: 8, offset: 93172},
+																		pos: position{line: 2952, col: 8, offset: 93115},
 																		expr: &anyMatcher{
-																			line: 2951, col: 9, offset: 93173,
+																			line: 2952, col: 9, offset: 93116,
 																		},
 																	},
 																},
@@ -42114,16 +42114,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58586},
+												pos: position{line: 1814, col: 9, offset: 58568},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1814, col: 10, offset: 58587},
+													pos:  position{line: 1814, col: 10, offset: 58569},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1815, col: 9, offset: 58611},
+												pos: position{line: 1815, col: 9, offset: 58593},
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 11, offset: 58613},
+													pos: position{line: 1815, col: 11, offset: 58595},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42134,7 +42134,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2786, col: 13, offset: 88772},
+																			pos:        position{line: 2787, col: 13, offset: 88715},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42184,10 +42184,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42196,28 +42196,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42226,9 +42226,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42273,10 +42273,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42285,28 +42285,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42315,9 +42315,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42358,10 +42358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42370,28 +42370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42400,9 +42400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42447,10 +42447,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42459,28 +42459,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42489,9 +42489,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42536,10 +42536,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42548,28 +42548,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42578,9 +42578,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42625,10 +42625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42637,28 +42637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42667,9 +42667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42714,10 +42714,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42726,28 +42726,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42756,9 +42756,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42803,10 +42803,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42815,28 +42815,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42845,9 +42845,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42892,10 +42892,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2932, col: 10, offset: 92824},
+																									pos: position{line: 2933, col: 10, offset: 92767},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2932, col: 10, offset: 92824},
+																										pos:        position{line: 2933, col: 10, offset: 92767},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42904,28 +42904,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2954, col: 8, offset: 93222},
+																								pos: position{line: 2955, col: 8, offset: 93165},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2941, col: 12, offset: 92995},
+																										pos: position{line: 2942, col: 12, offset: 92938},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2941, col: 13, offset: 92996},
+																											pos: position{line: 2942, col: 13, offset: 92939},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 13, offset: 92996},
+																													pos:        position{line: 2942, col: 13, offset: 92939},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 20, offset: 93003},
+																													pos:        position{line: 2942, col: 20, offset: 92946},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2941, col: 29, offset: 93012},
+																													pos:        position{line: 2942, col: 29, offset: 92955},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42934,9 +42934,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2951, col: 8, offset: 93172},
+																										pos: position{line: 2952, col: 8, offset: 93115},
 																										expr: &anyMatcher{
-																											line: 2951, col: 9, offset: 93173,
+																											line: 2952, col: 9, offset: 93116,
 																										},
 																									},
 																								},
@@ -42973,10 +42973,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42985,28 +42985,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43015,9 +43015,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -43026,21 +43026,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2634, col: 19, offset: 84224},
+															pos: position{line: 2635, col: 19, offset: 84167},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2634, col: 19, offset: 84224},
+																	pos:        position{line: 2635, col: 19, offset: 84167},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2634, col: 26, offset: 84231},
+																	pos: position{line: 2635, col: 26, offset: 84174},
 																	expr: &actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43049,28 +43049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43079,9 +43079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -43092,42 +43092,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1816, col: 9, offset: 58675},
+												pos:   position{line: 1816, col: 9, offset: 58657},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1816, col: 15, offset: 58681},
+													pos: position{line: 1816, col: 15, offset: 58663},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2502, col: 22, offset: 80526},
+															pos: position{line: 2503, col: 22, offset: 80481},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 22, offset: 80526},
+																pos: position{line: 2503, col: 22, offset: 80481},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2507, col: 31, offset: 80747},
+																		pos:        position{line: 2508, col: 31, offset: 80702},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2507, col: 36, offset: 80752},
+																		pos: position{line: 2508, col: 36, offset: 80707},
 																		expr: &litMatcher{
-																			pos:        position{line: 2507, col: 37, offset: 80753},
+																			pos:        position{line: 2508, col: 37, offset: 80708},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2502, col: 49, offset: 80553},
+																		pos:   position{line: 2503, col: 49, offset: 80508},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90511},
+																			pos: position{line: 2852, col: 13, offset: 90454},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90511},
+																				pos: position{line: 2852, col: 13, offset: 90454},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90511},
+																					pos:        position{line: 2852, col: 13, offset: 90454},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43137,28 +43137,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43167,9 +43167,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -43178,21 +43178,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58910},
+															pos: position{line: 1824, col: 5, offset: 58892},
 															run: (*parser).callonParagraph304,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58910},
+																pos: position{line: 1824, col: 5, offset: 58892},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58910},
+																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 14, offset: 90578},
+																			pos: position{line: 2856, col: 14, offset: 90521},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2855, col: 14, offset: 90578},
+																				pos: position{line: 2856, col: 14, offset: 90521},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 14, offset: 90578},
+																					pos:        position{line: 2856, col: 14, offset: 90521},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43202,32 +43202,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58934},
+																		pos: position{line: 1825, col: 5, offset: 58916},
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2954, col: 8, offset: 93222},
+																		pos: position{line: 2955, col: 8, offset: 93165},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43236,9 +43236,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2951, col: 8, offset: 93172},
+																				pos: position{line: 2952, col: 8, offset: 93115},
 																				expr: &anyMatcher{
-																					line: 2951, col: 9, offset: 93173,
+																					line: 2952, col: 9, offset: 93116,
 																				},
 																			},
 																		},
@@ -43260,16 +43260,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59417},
+			pos:  position{line: 1835, col: 1, offset: 59399},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 15, offset: 59431},
+				pos: position{line: 1835, col: 15, offset: 59413},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 15, offset: 59431},
+						pos:  position{line: 1835, col: 15, offset: 59413},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 35, offset: 59451},
+						pos:  position{line: 1835, col: 35, offset: 59433},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43277,65 +43277,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59472},
+			pos:  position{line: 1837, col: 1, offset: 59454},
 			expr: &actionExpr{
-				pos: position{line: 1838, col: 5, offset: 59497},
+				pos: position{line: 1838, col: 5, offset: 59479},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1838, col: 5, offset: 59497},
+					pos: position{line: 1838, col: 5, offset: 59479},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1838, col: 5, offset: 59497},
+							pos:   position{line: 1838, col: 5, offset: 59479},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1838, col: 16, offset: 59508},
+								pos: position{line: 1838, col: 16, offset: 59490},
 								expr: &actionExpr{
-									pos: position{line: 1838, col: 17, offset: 59509},
+									pos: position{line: 1838, col: 17, offset: 59491},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1838, col: 17, offset: 59509},
+										pos:  position{line: 1838, col: 17, offset: 59491},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1841, col: 5, offset: 59577},
+							pos: position{line: 1841, col: 5, offset: 59559},
 							expr: &litMatcher{
-								pos:        position{line: 1841, col: 7, offset: 59579},
+								pos:        position{line: 1841, col: 7, offset: 59561},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59588},
+							pos:   position{line: 1842, col: 5, offset: 59570},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1843, col: 9, offset: 59606},
+								pos: position{line: 1843, col: 9, offset: 59588},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1843, col: 9, offset: 59606},
+										pos:  position{line: 1843, col: 9, offset: 59588},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1844, col: 11, offset: 59633},
+										pos:  position{line: 1844, col: 11, offset: 59615},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1845, col: 11, offset: 59661},
+										pos:  position{line: 1845, col: 11, offset: 59643},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1846, col: 11, offset: 59692},
+										pos:  position{line: 1846, col: 11, offset: 59674},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 11, offset: 59720},
+										pos:  position{line: 1847, col: 11, offset: 59702},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59751},
+										pos:  position{line: 1848, col: 11, offset: 59733},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43347,36 +43347,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1853, col: 1, offset: 59871},
+			pos:  position{line: 1853, col: 1, offset: 59853},
 			expr: &actionExpr{
-				pos: position{line: 1854, col: 5, offset: 59913},
+				pos: position{line: 1854, col: 5, offset: 59895},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1854, col: 5, offset: 59913},
+					pos: position{line: 1854, col: 5, offset: 59895},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1854, col: 5, offset: 59913},
+							pos:   position{line: 1854, col: 5, offset: 59895},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1854, col: 16, offset: 59924},
+								pos: position{line: 1854, col: 16, offset: 59906},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1854, col: 17, offset: 59925},
+									pos:  position{line: 1854, col: 17, offset: 59907},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1855, col: 5, offset: 59950},
+							pos:   position{line: 1855, col: 5, offset: 59932},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1855, col: 14, offset: 59959},
+								pos: position{line: 1855, col: 14, offset: 59941},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 14, offset: 59959},
+										pos:  position{line: 1855, col: 14, offset: 59941},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 33, offset: 59978},
+										pos:  position{line: 1855, col: 33, offset: 59960},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43388,32 +43388,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60209},
+			pos:  position{line: 1863, col: 1, offset: 60191},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60234},
+				pos: position{line: 1864, col: 5, offset: 60216},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60234},
+						pos:  position{line: 1864, col: 5, offset: 60216},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60261},
+						pos:  position{line: 1865, col: 7, offset: 60243},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60289},
+						pos:  position{line: 1866, col: 7, offset: 60271},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60321},
+						pos:  position{line: 1867, col: 7, offset: 60303},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60349},
+						pos:  position{line: 1868, col: 7, offset: 60331},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60370},
+						pos:  position{line: 1869, col: 7, offset: 60352},
 						name: "SuperscriptText",
 					},
 				},
@@ -43421,24 +43421,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1871, col: 1, offset: 60388},
+			pos:  position{line: 1871, col: 1, offset: 60370},
 			expr: &choiceExpr{
-				pos: position{line: 1872, col: 5, offset: 60413},
+				pos: position{line: 1872, col: 5, offset: 60395},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 5, offset: 60413},
+						pos:  position{line: 1872, col: 5, offset: 60395},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60439},
+						pos:  position{line: 1873, col: 7, offset: 60421},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60467},
+						pos:  position{line: 1874, col: 7, offset: 60449},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1875, col: 7, offset: 60498},
+						pos:  position{line: 1875, col: 7, offset: 60480},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43446,35 +43446,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1889, col: 1, offset: 60852},
+			pos:  position{line: 1889, col: 1, offset: 60834},
 			expr: &choiceExpr{
-				pos: position{line: 1890, col: 5, offset: 60878},
+				pos: position{line: 1890, col: 5, offset: 60860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2795, col: 5, offset: 88919},
+						pos: position{line: 2796, col: 5, offset: 88862},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2795, col: 5, offset: 88919},
+							pos: position{line: 2796, col: 5, offset: 88862},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2795, col: 5, offset: 88919},
+									pos: position{line: 2796, col: 5, offset: 88862},
 									expr: &seqExpr{
-										pos: position{line: 2796, col: 9, offset: 88930},
+										pos: position{line: 2797, col: 9, offset: 88873},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2796, col: 9, offset: 88930},
+												pos: position{line: 2797, col: 9, offset: 88873},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2799, col: 9, offset: 88993},
+												pos:   position{line: 2800, col: 9, offset: 88936},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2771, col: 18, offset: 88305},
+													pos: position{line: 2772, col: 18, offset: 88248},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2771, col: 19, offset: 88306},
+														pos: position{line: 2772, col: 19, offset: 88249},
 														expr: &charClassMatcher{
-															pos:        position{line: 2771, col: 19, offset: 88306},
+															pos:        position{line: 2772, col: 19, offset: 88249},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43485,28 +43485,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2799, col: 30, offset: 89014},
+												pos:        position{line: 2800, col: 30, offset: 88957},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2800, col: 9, offset: 89101},
+												pos: position{line: 2801, col: 9, offset: 89044},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2804, col: 5, offset: 89213},
+									pos:   position{line: 2805, col: 5, offset: 89156},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2804, col: 11, offset: 89219},
+										pos: position{line: 2805, col: 11, offset: 89162},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2804, col: 11, offset: 89219},
+											pos: position{line: 2805, col: 11, offset: 89162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2804, col: 11, offset: 89219},
+												pos:        position{line: 2805, col: 11, offset: 89162},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43516,32 +43516,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2807, col: 5, offset: 89277},
+									pos: position{line: 2808, col: 5, offset: 89220},
 									expr: &seqExpr{
-										pos: position{line: 2808, col: 9, offset: 89288},
+										pos: position{line: 2809, col: 9, offset: 89231},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2808, col: 9, offset: 89288},
+												pos:        position{line: 2809, col: 9, offset: 89231},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2809, col: 9, offset: 89337},
+												pos: position{line: 2810, col: 9, offset: 89280},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2813, col: 5, offset: 89417},
+									pos: position{line: 2814, col: 5, offset: 89360},
 									expr: &seqExpr{
-										pos: position{line: 2814, col: 9, offset: 89428},
+										pos: position{line: 2815, col: 9, offset: 89371},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2814, col: 9, offset: 89428},
+												pos: position{line: 2815, col: 9, offset: 89371},
 												expr: &charClassMatcher{
-													pos:        position{line: 2814, col: 9, offset: 89428},
+													pos:        position{line: 2815, col: 9, offset: 89371},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43550,13 +43550,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2814, col: 23, offset: 89442},
+												pos:        position{line: 2815, col: 23, offset: 89385},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2814, col: 27, offset: 89446},
+												pos:        position{line: 2815, col: 27, offset: 89389},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43569,12 +43569,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2936, col: 11, offset: 92885},
+						pos: position{line: 2937, col: 11, offset: 92828},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2936, col: 11, offset: 92885},
+							pos: position{line: 2937, col: 11, offset: 92828},
 							expr: &charClassMatcher{
-								pos:        position{line: 2936, col: 11, offset: 92885},
+								pos:        position{line: 2937, col: 11, offset: 92828},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43583,25 +43583,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 60941},
+						pos:  position{line: 1892, col: 7, offset: 60923},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81243},
+						pos: position{line: 2521, col: 5, offset: 81198},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81243},
+							pos: position{line: 2521, col: 5, offset: 81198},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2520, col: 5, offset: 81243},
+									pos:        position{line: 2521, col: 5, offset: 81198},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2520, col: 10, offset: 81248},
+									pos: position{line: 2521, col: 10, offset: 81203},
 									expr: &charClassMatcher{
-										pos:        position{line: 2520, col: 11, offset: 81249},
+										pos:        position{line: 2521, col: 11, offset: 81204},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43612,29 +43612,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 5, offset: 81441},
+						pos: position{line: 2527, col: 5, offset: 81390},
 						run: (*parser).callonQuotedTextElement36,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 5, offset: 81441},
+							pos: position{line: 2527, col: 5, offset: 81390},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2526, col: 5, offset: 81441},
+									pos: position{line: 2527, col: 5, offset: 81390},
 									run: (*parser).callonQuotedTextElement38,
 								},
 								&andCodeExpr{
-									pos: position{line: 2529, col: 5, offset: 81512},
+									pos: position{line: 2530, col: 5, offset: 81461},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81637},
+									pos:        position{line: 2534, col: 5, offset: 81586},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2533, col: 9, offset: 81641},
+									pos: position{line: 2534, col: 9, offset: 81590},
 									expr: &charClassMatcher{
-										pos:        position{line: 2533, col: 10, offset: 81642},
+										pos:        position{line: 2534, col: 10, offset: 81591},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43645,27 +43645,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2822, col: 5, offset: 89639},
+						pos: position{line: 2823, col: 5, offset: 89582},
 						run: (*parser).callonQuotedTextElement43,
 						expr: &choiceExpr{
-							pos: position{line: 2823, col: 9, offset: 89649},
+							pos: position{line: 2824, col: 9, offset: 89592},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2823, col: 10, offset: 89650},
+									pos:        position{line: 2824, col: 10, offset: 89593},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2825, col: 13, offset: 89747},
+									pos: position{line: 2826, col: 13, offset: 89690},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2825, col: 13, offset: 89747},
+											pos: position{line: 2826, col: 13, offset: 89690},
 											run: (*parser).callonQuotedTextElement47,
 										},
 										&litMatcher{
-											pos:        position{line: 2828, col: 13, offset: 89847},
+											pos:        position{line: 2829, col: 13, offset: 89790},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43673,20 +43673,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2828, col: 19, offset: 89853},
+									pos:        position{line: 2829, col: 19, offset: 89796},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89891},
+									pos: position{line: 2832, col: 13, offset: 89834},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2831, col: 13, offset: 89891},
+											pos: position{line: 2832, col: 13, offset: 89834},
 											run: (*parser).callonQuotedTextElement51,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2834, col: 14, offset: 89984},
+											pos:        position{line: 2835, col: 14, offset: 89927},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43695,18 +43695,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2836, col: 12, offset: 90028},
+									pos: position{line: 2837, col: 12, offset: 89971},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2836, col: 12, offset: 90028},
+											pos:        position{line: 2837, col: 12, offset: 89971},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2836, col: 16, offset: 90032},
+											pos: position{line: 2837, col: 16, offset: 89975},
 											expr: &litMatcher{
-												pos:        position{line: 2836, col: 17, offset: 90033},
+												pos:        position{line: 2837, col: 17, offset: 89976},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44064,31 +44064,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2945, col: 18, offset: 93095},
+						pos: position{line: 2946, col: 18, offset: 93038},
 						run: (*parser).callonQuotedTextElement126,
 						expr: &seqExpr{
-							pos: position{line: 2945, col: 18, offset: 93095},
+							pos: position{line: 2946, col: 18, offset: 93038},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonQuotedTextElement128,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44097,27 +44097,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2945, col: 26, offset: 93103},
+									pos: position{line: 2946, col: 26, offset: 93046},
 									expr: &actionExpr{
-										pos: position{line: 2941, col: 12, offset: 92995},
+										pos: position{line: 2942, col: 12, offset: 92938},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &choiceExpr{
-											pos: position{line: 2941, col: 13, offset: 92996},
+											pos: position{line: 2942, col: 13, offset: 92939},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2941, col: 13, offset: 92996},
+													pos:        position{line: 2942, col: 13, offset: 92939},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 20, offset: 93003},
+													pos:        position{line: 2942, col: 20, offset: 92946},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 29, offset: 93012},
+													pos:        position{line: 2942, col: 29, offset: 92955},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44130,31 +44130,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1897, col: 7, offset: 61108},
+						pos:  position{line: 1897, col: 7, offset: 61090},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1898, col: 7, offset: 61155},
+						pos:  position{line: 1898, col: 7, offset: 61137},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2489, col: 5, offset: 80072},
+						pos: position{line: 2490, col: 5, offset: 80027},
 						run: (*parser).callonQuotedTextElement141,
 						expr: &seqExpr{
-							pos: position{line: 2489, col: 5, offset: 80072},
+							pos: position{line: 2490, col: 5, offset: 80027},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80072},
+									pos: position{line: 2490, col: 5, offset: 80027},
 									run: (*parser).callonQuotedTextElement143,
 								},
 								&labeledExpr{
-									pos:   position{line: 2492, col: 5, offset: 80148},
+									pos:   position{line: 2493, col: 5, offset: 80103},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2493, col: 9, offset: 80166},
+										pos: position{line: 2494, col: 9, offset: 80121},
 										run: (*parser).callonQuotedTextElement145,
 										expr: &charClassMatcher{
-											pos:        position{line: 2493, col: 10, offset: 80167},
+											pos:        position{line: 2494, col: 10, offset: 80122},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44205,10 +44205,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2844, col: 12, offset: 90293},
+						pos: position{line: 2845, col: 12, offset: 90236},
 						run: (*parser).callonQuotedTextElement155,
 						expr: &charClassMatcher{
-							pos:        position{line: 2844, col: 12, offset: 90293},
+							pos:        position{line: 2845, col: 12, offset: 90236},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44220,29 +44220,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1916, col: 1, offset: 61625},
+			pos:  position{line: 1916, col: 1, offset: 61607},
 			expr: &actionExpr{
-				pos: position{line: 1917, col: 5, offset: 61653},
+				pos: position{line: 1917, col: 5, offset: 61635},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1917, col: 5, offset: 61653},
+					pos: position{line: 1917, col: 5, offset: 61635},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1912, col: 38, offset: 61578},
+							pos:        position{line: 1912, col: 38, offset: 61560},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1918, col: 5, offset: 61692},
+							pos:   position{line: 1918, col: 5, offset: 61674},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1918, col: 15, offset: 61702},
+								pos:  position{line: 1918, col: 15, offset: 61684},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1914, col: 36, offset: 61619},
+							pos:        position{line: 1914, col: 36, offset: 61601},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44253,44 +44253,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1923, col: 1, offset: 61862},
+			pos:  position{line: 1923, col: 1, offset: 61844},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1923, col: 32, offset: 61893},
+				pos: position{line: 1923, col: 32, offset: 61875},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1923, col: 32, offset: 61893},
+					pos:  position{line: 1923, col: 32, offset: 61875},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1925, col: 1, offset: 61924},
+			pos:  position{line: 1925, col: 1, offset: 61906},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 61959},
+				pos: position{line: 1926, col: 5, offset: 61941},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 61959},
+					pos: position{line: 1926, col: 5, offset: 61941},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1927, col: 5, offset: 61970},
+							pos: position{line: 1927, col: 5, offset: 61952},
 							expr: &litMatcher{
-								pos:        position{line: 1914, col: 36, offset: 61619},
+								pos:        position{line: 1914, col: 36, offset: 61601},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1928, col: 5, offset: 62007},
+							pos:   position{line: 1928, col: 5, offset: 61989},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1928, col: 14, offset: 62016},
+								pos:  position{line: 1928, col: 14, offset: 61998},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44300,29 +44300,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1953, col: 1, offset: 62696},
+			pos:  position{line: 1953, col: 1, offset: 62678},
 			expr: &actionExpr{
-				pos: position{line: 1954, col: 5, offset: 62724},
+				pos: position{line: 1954, col: 5, offset: 62706},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1954, col: 5, offset: 62724},
+					pos: position{line: 1954, col: 5, offset: 62706},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1937, col: 5, offset: 62250},
+							pos:        position{line: 1937, col: 5, offset: 62232},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1938, col: 5, offset: 62259},
+							pos: position{line: 1938, col: 5, offset: 62241},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1942, col: 5, offset: 62377},
+							pos: position{line: 1942, col: 5, offset: 62359},
 							expr: &notExpr{
-								pos: position{line: 1942, col: 7, offset: 62379},
+								pos: position{line: 1942, col: 7, offset: 62361},
 								expr: &litMatcher{
-									pos:        position{line: 1942, col: 8, offset: 62380},
+									pos:        position{line: 1942, col: 8, offset: 62362},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44330,38 +44330,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1955, col: 5, offset: 62762},
+							pos:   position{line: 1955, col: 5, offset: 62744},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1955, col: 15, offset: 62772},
+								pos:  position{line: 1955, col: 15, offset: 62754},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1945, col: 5, offset: 62500},
+							pos:        position{line: 1945, col: 5, offset: 62482},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1946, col: 5, offset: 62509},
+							pos: position{line: 1946, col: 5, offset: 62491},
 							expr: &litMatcher{
-								pos:        position{line: 1946, col: 6, offset: 62510},
+								pos:        position{line: 1946, col: 6, offset: 62492},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1947, col: 5, offset: 62573},
+							pos: position{line: 1947, col: 5, offset: 62555},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1951, col: 5, offset: 62682},
+							pos: position{line: 1951, col: 5, offset: 62664},
 							expr: &notExpr{
-								pos: position{line: 1951, col: 7, offset: 62684},
+								pos: position{line: 1951, col: 7, offset: 62666},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88772},
+									pos:        position{line: 2787, col: 13, offset: 88715},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44375,20 +44375,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1960, col: 1, offset: 62932},
+			pos:  position{line: 1960, col: 1, offset: 62914},
 			expr: &actionExpr{
-				pos: position{line: 1961, col: 5, offset: 62969},
+				pos: position{line: 1961, col: 5, offset: 62951},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1961, col: 5, offset: 62969},
+					pos: position{line: 1961, col: 5, offset: 62951},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1961, col: 5, offset: 62969},
+							pos: position{line: 1961, col: 5, offset: 62951},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44397,18 +44397,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1962, col: 5, offset: 63008},
+							pos:   position{line: 1962, col: 5, offset: 62990},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1962, col: 14, offset: 63017},
+								pos: position{line: 1962, col: 14, offset: 62999},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1962, col: 15, offset: 63018},
+									pos:  position{line: 1962, col: 15, offset: 63000},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1963, col: 5, offset: 63052},
+							pos: position{line: 1963, col: 5, offset: 63034},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -44417,49 +44417,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1969, col: 1, offset: 63193},
+			pos:  position{line: 1969, col: 1, offset: 63175},
 			expr: &actionExpr{
-				pos: position{line: 1970, col: 5, offset: 63228},
+				pos: position{line: 1970, col: 5, offset: 63210},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1970, col: 5, offset: 63228},
+					pos: position{line: 1970, col: 5, offset: 63210},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1971, col: 5, offset: 63256},
+							pos: position{line: 1971, col: 5, offset: 63238},
 							expr: &seqExpr{
-								pos: position{line: 1945, col: 5, offset: 62500},
+								pos: position{line: 1945, col: 5, offset: 62482},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1945, col: 5, offset: 62500},
+										pos:        position{line: 1945, col: 5, offset: 62482},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1946, col: 5, offset: 62509},
+										pos: position{line: 1946, col: 5, offset: 62491},
 										expr: &litMatcher{
-											pos:        position{line: 1946, col: 6, offset: 62510},
+											pos:        position{line: 1946, col: 6, offset: 62492},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1947, col: 5, offset: 62573},
+										pos: position{line: 1947, col: 5, offset: 62555},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1951, col: 5, offset: 62682},
+										pos: position{line: 1951, col: 5, offset: 62664},
 										expr: &notExpr{
-											pos: position{line: 1951, col: 7, offset: 62684},
+											pos: position{line: 1951, col: 7, offset: 62666},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88772},
+												pos:        position{line: 2787, col: 13, offset: 88715},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44471,10 +44471,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1972, col: 5, offset: 63293},
+							pos:   position{line: 1972, col: 5, offset: 63275},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1972, col: 14, offset: 63302},
+								pos:  position{line: 1972, col: 14, offset: 63284},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44484,35 +44484,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1977, col: 1, offset: 63390},
+			pos:  position{line: 1977, col: 1, offset: 63372},
 			expr: &choiceExpr{
-				pos: position{line: 1979, col: 5, offset: 63451},
+				pos: position{line: 1979, col: 5, offset: 63433},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1979, col: 5, offset: 63451},
+						pos: position{line: 1979, col: 5, offset: 63433},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1979, col: 5, offset: 63451},
+							pos: position{line: 1979, col: 5, offset: 63433},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1979, col: 5, offset: 63451},
+									pos:   position{line: 1979, col: 5, offset: 63433},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60798},
+										pos: position{line: 1885, col: 25, offset: 60780},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60798},
+											pos: position{line: 1885, col: 25, offset: 60780},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60798},
+													pos:        position{line: 1885, col: 25, offset: 60780},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60803},
+													pos: position{line: 1885, col: 30, offset: 60785},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60803},
+														pos:        position{line: 1885, col: 30, offset: 60785},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44523,21 +44523,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1979, col: 40, offset: 63486},
+									pos:        position{line: 1979, col: 40, offset: 63468},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1979, col: 45, offset: 63491},
+									pos:   position{line: 1979, col: 45, offset: 63473},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1979, col: 55, offset: 63501},
+										pos:  position{line: 1979, col: 55, offset: 63483},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1979, col: 84, offset: 63530},
+									pos:        position{line: 1979, col: 84, offset: 63512},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44546,21 +44546,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1983, col: 7, offset: 63694},
+						pos: position{line: 1983, col: 7, offset: 63672},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1983, col: 7, offset: 63694},
+							pos: position{line: 1983, col: 7, offset: 63672},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1983, col: 7, offset: 63694},
+									pos:   position{line: 1983, col: 7, offset: 63672},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44569,21 +44569,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1983, col: 42, offset: 63729},
+									pos:        position{line: 1983, col: 42, offset: 63707},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1983, col: 47, offset: 63734},
+									pos:   position{line: 1983, col: 47, offset: 63712},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1983, col: 57, offset: 63744},
+										pos:  position{line: 1983, col: 57, offset: 63722},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1983, col: 86, offset: 63773},
+									pos:        position{line: 1983, col: 86, offset: 63751},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44592,21 +44592,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1988, col: 7, offset: 63975},
+						pos: position{line: 1988, col: 7, offset: 63949},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1988, col: 7, offset: 63975},
+							pos: position{line: 1988, col: 7, offset: 63949},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1988, col: 7, offset: 63975},
+									pos:   position{line: 1988, col: 7, offset: 63949},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44615,21 +44615,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1988, col: 42, offset: 64010},
+									pos:        position{line: 1988, col: 42, offset: 63984},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1988, col: 46, offset: 64014},
+									pos:   position{line: 1988, col: 46, offset: 63988},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1988, col: 56, offset: 64024},
+										pos:  position{line: 1988, col: 56, offset: 63998},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1988, col: 85, offset: 64053},
+									pos:        position{line: 1988, col: 85, offset: 64027},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44642,29 +44642,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2005, col: 1, offset: 64533},
+			pos:  position{line: 2005, col: 1, offset: 64503},
 			expr: &actionExpr{
-				pos: position{line: 2006, col: 5, offset: 64563},
+				pos: position{line: 2006, col: 5, offset: 64533},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2006, col: 5, offset: 64563},
+					pos: position{line: 2006, col: 5, offset: 64533},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2001, col: 40, offset: 64484},
+							pos:        position{line: 2001, col: 40, offset: 64454},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2007, col: 5, offset: 64604},
+							pos:   position{line: 2007, col: 5, offset: 64574},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2007, col: 15, offset: 64614},
+								pos:  position{line: 2007, col: 15, offset: 64584},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2003, col: 38, offset: 64527},
+							pos:        position{line: 2003, col: 38, offset: 64497},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44675,44 +44675,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2012, col: 1, offset: 64779},
+			pos:  position{line: 2012, col: 1, offset: 64749},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2012, col: 34, offset: 64812},
+				pos: position{line: 2012, col: 34, offset: 64782},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2012, col: 34, offset: 64812},
+					pos:  position{line: 2012, col: 34, offset: 64782},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2014, col: 1, offset: 64844},
+			pos:  position{line: 2014, col: 1, offset: 64814},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64881},
+				pos: position{line: 2015, col: 5, offset: 64851},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64881},
+					pos: position{line: 2015, col: 5, offset: 64851},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2016, col: 5, offset: 64892},
+							pos: position{line: 2016, col: 5, offset: 64862},
 							expr: &litMatcher{
-								pos:        position{line: 2003, col: 38, offset: 64527},
+								pos:        position{line: 2003, col: 38, offset: 64497},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64931},
+							pos:   position{line: 2017, col: 5, offset: 64901},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 14, offset: 64940},
+								pos:  position{line: 2017, col: 14, offset: 64910},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44722,29 +44722,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2043, col: 1, offset: 65624},
+			pos:  position{line: 2043, col: 1, offset: 65594},
 			expr: &actionExpr{
-				pos: position{line: 2044, col: 5, offset: 65654},
+				pos: position{line: 2044, col: 5, offset: 65624},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2044, col: 5, offset: 65654},
+					pos: position{line: 2044, col: 5, offset: 65624},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2026, col: 5, offset: 65182},
+							pos:        position{line: 2026, col: 5, offset: 65152},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2027, col: 5, offset: 65191},
+							pos: position{line: 2027, col: 5, offset: 65161},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2031, col: 5, offset: 65311},
+							pos: position{line: 2031, col: 5, offset: 65281},
 							expr: &notExpr{
-								pos: position{line: 2031, col: 7, offset: 65313},
+								pos: position{line: 2031, col: 7, offset: 65283},
 								expr: &litMatcher{
-									pos:        position{line: 2031, col: 8, offset: 65314},
+									pos:        position{line: 2031, col: 8, offset: 65284},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44752,38 +44752,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2045, col: 5, offset: 65694},
+							pos:   position{line: 2045, col: 5, offset: 65664},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2045, col: 15, offset: 65704},
+								pos:  position{line: 2045, col: 15, offset: 65674},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2035, col: 5, offset: 65424},
+							pos:        position{line: 2035, col: 5, offset: 65394},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2036, col: 5, offset: 65433},
+							pos: position{line: 2036, col: 5, offset: 65403},
 							expr: &litMatcher{
-								pos:        position{line: 2036, col: 6, offset: 65434},
+								pos:        position{line: 2036, col: 6, offset: 65404},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2037, col: 5, offset: 65499},
+							pos: position{line: 2037, col: 5, offset: 65469},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2041, col: 5, offset: 65610},
+							pos: position{line: 2041, col: 5, offset: 65580},
 							expr: &notExpr{
-								pos: position{line: 2041, col: 7, offset: 65612},
+								pos: position{line: 2041, col: 7, offset: 65582},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88772},
+									pos:        position{line: 2787, col: 13, offset: 88715},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44797,20 +44797,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2050, col: 1, offset: 65871},
+			pos:  position{line: 2050, col: 1, offset: 65841},
 			expr: &actionExpr{
-				pos: position{line: 2051, col: 5, offset: 65909},
+				pos: position{line: 2051, col: 5, offset: 65879},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2051, col: 5, offset: 65909},
+					pos: position{line: 2051, col: 5, offset: 65879},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2051, col: 5, offset: 65909},
+							pos: position{line: 2051, col: 5, offset: 65879},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44819,18 +44819,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2052, col: 5, offset: 65948},
+							pos:   position{line: 2052, col: 5, offset: 65918},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2052, col: 14, offset: 65957},
+								pos: position{line: 2052, col: 14, offset: 65927},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2052, col: 15, offset: 65958},
+									pos:  position{line: 2052, col: 15, offset: 65928},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2053, col: 5, offset: 65993},
+							pos: position{line: 2053, col: 5, offset: 65963},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -44839,49 +44839,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2059, col: 1, offset: 66134},
+			pos:  position{line: 2059, col: 1, offset: 66104},
 			expr: &actionExpr{
-				pos: position{line: 2060, col: 5, offset: 66171},
+				pos: position{line: 2060, col: 5, offset: 66141},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2060, col: 5, offset: 66171},
+					pos: position{line: 2060, col: 5, offset: 66141},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2061, col: 5, offset: 66182},
+							pos: position{line: 2061, col: 5, offset: 66152},
 							expr: &seqExpr{
-								pos: position{line: 2035, col: 5, offset: 65424},
+								pos: position{line: 2035, col: 5, offset: 65394},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2035, col: 5, offset: 65424},
+										pos:        position{line: 2035, col: 5, offset: 65394},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2036, col: 5, offset: 65433},
+										pos: position{line: 2036, col: 5, offset: 65403},
 										expr: &litMatcher{
-											pos:        position{line: 2036, col: 6, offset: 65434},
+											pos:        position{line: 2036, col: 6, offset: 65404},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2037, col: 5, offset: 65499},
+										pos: position{line: 2037, col: 5, offset: 65469},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2041, col: 5, offset: 65610},
+										pos: position{line: 2041, col: 5, offset: 65580},
 										expr: &notExpr{
-											pos: position{line: 2041, col: 7, offset: 65612},
+											pos: position{line: 2041, col: 7, offset: 65582},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88772},
+												pos:        position{line: 2787, col: 13, offset: 88715},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44893,10 +44893,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2062, col: 5, offset: 66221},
+							pos:   position{line: 2062, col: 5, offset: 66191},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2062, col: 14, offset: 66230},
+								pos:  position{line: 2062, col: 14, offset: 66200},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44906,35 +44906,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2067, col: 1, offset: 66318},
+			pos:  position{line: 2067, col: 1, offset: 66288},
 			expr: &choiceExpr{
-				pos: position{line: 2069, col: 5, offset: 66383},
+				pos: position{line: 2069, col: 5, offset: 66353},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2069, col: 5, offset: 66383},
+						pos: position{line: 2069, col: 5, offset: 66353},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2069, col: 5, offset: 66383},
+							pos: position{line: 2069, col: 5, offset: 66353},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2069, col: 5, offset: 66383},
+									pos:   position{line: 2069, col: 5, offset: 66353},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60798},
+										pos: position{line: 1885, col: 25, offset: 60780},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60798},
+											pos: position{line: 1885, col: 25, offset: 60780},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60798},
+													pos:        position{line: 1885, col: 25, offset: 60780},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60803},
+													pos: position{line: 1885, col: 30, offset: 60785},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60803},
+														pos:        position{line: 1885, col: 30, offset: 60785},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44945,21 +44945,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2069, col: 40, offset: 66418},
+									pos:        position{line: 2069, col: 40, offset: 66388},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2069, col: 45, offset: 66423},
+									pos:   position{line: 2069, col: 45, offset: 66393},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2069, col: 55, offset: 66433},
+										pos:  position{line: 2069, col: 55, offset: 66403},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2069, col: 86, offset: 66464},
+									pos:        position{line: 2069, col: 86, offset: 66434},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44968,21 +44968,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2073, col: 7, offset: 66629},
+						pos: position{line: 2073, col: 7, offset: 66595},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2073, col: 7, offset: 66629},
+							pos: position{line: 2073, col: 7, offset: 66595},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2073, col: 7, offset: 66629},
+									pos:   position{line: 2073, col: 7, offset: 66595},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44991,21 +44991,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2073, col: 42, offset: 66664},
+									pos:        position{line: 2073, col: 42, offset: 66630},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2073, col: 47, offset: 66669},
+									pos:   position{line: 2073, col: 47, offset: 66635},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2073, col: 57, offset: 66679},
+										pos:  position{line: 2073, col: 57, offset: 66645},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2073, col: 88, offset: 66710},
+									pos:        position{line: 2073, col: 88, offset: 66676},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45014,21 +45014,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2078, col: 7, offset: 66951},
+						pos: position{line: 2078, col: 7, offset: 66913},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2078, col: 7, offset: 66951},
+							pos: position{line: 2078, col: 7, offset: 66913},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2078, col: 7, offset: 66951},
+									pos:   position{line: 2078, col: 7, offset: 66913},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45037,21 +45037,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2078, col: 42, offset: 66986},
+									pos:        position{line: 2078, col: 42, offset: 66948},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2078, col: 46, offset: 66990},
+									pos:   position{line: 2078, col: 46, offset: 66952},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2078, col: 56, offset: 67000},
+										pos:  position{line: 2078, col: 56, offset: 66962},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2078, col: 87, offset: 67031},
+									pos:        position{line: 2078, col: 87, offset: 66993},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45064,29 +45064,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67595},
+			pos:  position{line: 2095, col: 1, offset: 67553},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67628},
+				pos: position{line: 2096, col: 5, offset: 67586},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67628},
+					pos: position{line: 2096, col: 5, offset: 67586},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2091, col: 43, offset: 67543},
+							pos:        position{line: 2091, col: 43, offset: 67501},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67672},
+							pos:   position{line: 2097, col: 5, offset: 67630},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67682},
+								pos:  position{line: 2097, col: 15, offset: 67640},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2093, col: 41, offset: 67589},
+							pos:        position{line: 2093, col: 41, offset: 67547},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45097,44 +45097,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67857},
+			pos:  position{line: 2102, col: 1, offset: 67815},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2102, col: 37, offset: 67893},
+				pos: position{line: 2102, col: 37, offset: 67851},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2102, col: 37, offset: 67893},
+					pos:  position{line: 2102, col: 37, offset: 67851},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2104, col: 1, offset: 67960},
+			pos:  position{line: 2104, col: 1, offset: 67918},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 68000},
+				pos: position{line: 2105, col: 5, offset: 67958},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 68000},
+					pos: position{line: 2105, col: 5, offset: 67958},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2106, col: 5, offset: 68011},
+							pos: position{line: 2106, col: 5, offset: 67969},
 							expr: &litMatcher{
-								pos:        position{line: 2093, col: 41, offset: 67589},
+								pos:        position{line: 2093, col: 41, offset: 67547},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2107, col: 5, offset: 68053},
+							pos:   position{line: 2107, col: 5, offset: 68011},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2107, col: 14, offset: 68062},
+								pos:  position{line: 2107, col: 14, offset: 68020},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45144,33 +45144,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2125, col: 1, offset: 68604},
+			pos:  position{line: 2125, col: 1, offset: 68562},
 			expr: &seqExpr{
-				pos: position{line: 2126, col: 5, offset: 68649},
+				pos: position{line: 2126, col: 5, offset: 68607},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2126, col: 5, offset: 68649},
+						pos: position{line: 2126, col: 5, offset: 68607},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2126, col: 6, offset: 68650},
+							pos:  position{line: 2126, col: 6, offset: 68608},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2127, col: 5, offset: 68669},
+						pos:        position{line: 2127, col: 5, offset: 68627},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2128, col: 5, offset: 68677},
+						pos: position{line: 2128, col: 5, offset: 68635},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2132, col: 5, offset: 68791},
+						pos: position{line: 2132, col: 5, offset: 68749},
 						expr: &notExpr{
-							pos: position{line: 2132, col: 7, offset: 68793},
+							pos: position{line: 2132, col: 7, offset: 68751},
 							expr: &charClassMatcher{
-								pos:        position{line: 2786, col: 13, offset: 88772},
+								pos:        position{line: 2787, col: 13, offset: 88715},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45183,29 +45183,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2135, col: 1, offset: 68810},
+			pos:  position{line: 2135, col: 1, offset: 68768},
 			expr: &actionExpr{
-				pos: position{line: 2136, col: 5, offset: 68843},
+				pos: position{line: 2136, col: 5, offset: 68801},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2136, col: 5, offset: 68843},
+					pos: position{line: 2136, col: 5, offset: 68801},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2118, col: 5, offset: 68406},
+							pos:        position{line: 2118, col: 5, offset: 68364},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2119, col: 5, offset: 68415},
+							pos: position{line: 2119, col: 5, offset: 68373},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2123, col: 5, offset: 68538},
+							pos: position{line: 2123, col: 5, offset: 68496},
 							expr: &notExpr{
-								pos: position{line: 2123, col: 7, offset: 68540},
+								pos: position{line: 2123, col: 7, offset: 68498},
 								expr: &litMatcher{
-									pos:        position{line: 2123, col: 8, offset: 68541},
+									pos:        position{line: 2123, col: 8, offset: 68499},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45213,15 +45213,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2137, col: 5, offset: 68887},
+							pos:   position{line: 2137, col: 5, offset: 68845},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2137, col: 15, offset: 68897},
+								pos:  position{line: 2137, col: 15, offset: 68855},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2138, col: 5, offset: 68936},
+							pos:  position{line: 2138, col: 5, offset: 68894},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45230,20 +45230,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2142, col: 1, offset: 69073},
+			pos:  position{line: 2142, col: 1, offset: 69031},
 			expr: &actionExpr{
-				pos: position{line: 2143, col: 5, offset: 69114},
+				pos: position{line: 2143, col: 5, offset: 69072},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2143, col: 5, offset: 69114},
+					pos: position{line: 2143, col: 5, offset: 69072},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2143, col: 5, offset: 69114},
+							pos: position{line: 2143, col: 5, offset: 69072},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45252,18 +45252,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2144, col: 5, offset: 69153},
+							pos:   position{line: 2144, col: 5, offset: 69111},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2144, col: 14, offset: 69162},
+								pos: position{line: 2144, col: 14, offset: 69120},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2144, col: 15, offset: 69163},
+									pos:  position{line: 2144, col: 15, offset: 69121},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2145, col: 5, offset: 69201},
+							pos: position{line: 2145, col: 5, offset: 69159},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -45272,31 +45272,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2151, col: 1, offset: 69342},
+			pos:  position{line: 2151, col: 1, offset: 69300},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69382},
+				pos: position{line: 2152, col: 5, offset: 69340},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69382},
+					pos: position{line: 2152, col: 5, offset: 69340},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2153, col: 5, offset: 69393},
+							pos: position{line: 2153, col: 5, offset: 69351},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2153, col: 6, offset: 69394},
+								pos:  position{line: 2153, col: 6, offset: 69352},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2154, col: 5, offset: 69435},
+							pos:   position{line: 2154, col: 5, offset: 69393},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 14, offset: 69444},
+								pos:  position{line: 2154, col: 14, offset: 69402},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45306,35 +45306,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2159, col: 1, offset: 69532},
+			pos:  position{line: 2159, col: 1, offset: 69490},
 			expr: &choiceExpr{
-				pos: position{line: 2161, col: 5, offset: 69603},
+				pos: position{line: 2161, col: 5, offset: 69561},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2161, col: 5, offset: 69603},
+						pos: position{line: 2161, col: 5, offset: 69561},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2161, col: 5, offset: 69603},
+							pos: position{line: 2161, col: 5, offset: 69561},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2161, col: 5, offset: 69603},
+									pos:   position{line: 2161, col: 5, offset: 69561},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60798},
+										pos: position{line: 1885, col: 25, offset: 60780},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60798},
+											pos: position{line: 1885, col: 25, offset: 60780},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60798},
+													pos:        position{line: 1885, col: 25, offset: 60780},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60803},
+													pos: position{line: 1885, col: 30, offset: 60785},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60803},
+														pos:        position{line: 1885, col: 30, offset: 60785},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45345,21 +45345,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2161, col: 40, offset: 69638},
+									pos:        position{line: 2161, col: 40, offset: 69596},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2161, col: 45, offset: 69643},
+									pos:   position{line: 2161, col: 45, offset: 69601},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2161, col: 55, offset: 69653},
+										pos:  position{line: 2161, col: 55, offset: 69611},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2161, col: 89, offset: 69687},
+									pos:        position{line: 2161, col: 89, offset: 69645},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45368,21 +45368,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2165, col: 7, offset: 69856},
+						pos: position{line: 2165, col: 7, offset: 69810},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2165, col: 7, offset: 69856},
+							pos: position{line: 2165, col: 7, offset: 69810},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2165, col: 7, offset: 69856},
+									pos:   position{line: 2165, col: 7, offset: 69810},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45391,21 +45391,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2165, col: 42, offset: 69891},
+									pos:        position{line: 2165, col: 42, offset: 69845},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2165, col: 47, offset: 69896},
+									pos:   position{line: 2165, col: 47, offset: 69850},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2165, col: 57, offset: 69906},
+										pos:  position{line: 2165, col: 57, offset: 69860},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2165, col: 91, offset: 69940},
+									pos:        position{line: 2165, col: 91, offset: 69894},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45414,21 +45414,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2170, col: 7, offset: 70146},
+						pos: position{line: 2170, col: 7, offset: 70096},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 7, offset: 70146},
+							pos: position{line: 2170, col: 7, offset: 70096},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 7, offset: 70146},
+									pos:   position{line: 2170, col: 7, offset: 70096},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45437,21 +45437,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 42, offset: 70181},
+									pos:        position{line: 2170, col: 42, offset: 70131},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 46, offset: 70185},
+									pos:   position{line: 2170, col: 46, offset: 70135},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 56, offset: 70195},
+										pos:  position{line: 2170, col: 56, offset: 70145},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 90, offset: 70229},
+									pos:        position{line: 2170, col: 90, offset: 70179},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45464,29 +45464,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2187, col: 1, offset: 70714},
+			pos:  position{line: 2187, col: 1, offset: 70660},
 			expr: &actionExpr{
-				pos: position{line: 2188, col: 5, offset: 70744},
+				pos: position{line: 2188, col: 5, offset: 70690},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2188, col: 5, offset: 70744},
+					pos: position{line: 2188, col: 5, offset: 70690},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2183, col: 40, offset: 70665},
+							pos:        position{line: 2183, col: 40, offset: 70611},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2189, col: 5, offset: 70785},
+							pos:   position{line: 2189, col: 5, offset: 70731},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2189, col: 15, offset: 70795},
+								pos:  position{line: 2189, col: 15, offset: 70741},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2185, col: 38, offset: 70708},
+							pos:        position{line: 2185, col: 38, offset: 70654},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45497,44 +45497,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2194, col: 1, offset: 70961},
+			pos:  position{line: 2194, col: 1, offset: 70907},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2194, col: 34, offset: 70994},
+				pos: position{line: 2194, col: 34, offset: 70940},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2194, col: 34, offset: 70994},
+					pos:  position{line: 2194, col: 34, offset: 70940},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2196, col: 1, offset: 71025},
+			pos:  position{line: 2196, col: 1, offset: 70971},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 71094},
+				pos: position{line: 2197, col: 5, offset: 71040},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 71094},
+					pos: position{line: 2197, col: 5, offset: 71040},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2198, col: 5, offset: 71105},
+							pos: position{line: 2198, col: 5, offset: 71051},
 							expr: &litMatcher{
-								pos:        position{line: 2185, col: 38, offset: 70708},
+								pos:        position{line: 2185, col: 38, offset: 70654},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2199, col: 5, offset: 71144},
+							pos:   position{line: 2199, col: 5, offset: 71090},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2199, col: 14, offset: 71153},
+								pos:  position{line: 2199, col: 14, offset: 71099},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45544,29 +45544,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2224, col: 1, offset: 71835},
+			pos:  position{line: 2224, col: 1, offset: 71781},
 			expr: &actionExpr{
-				pos: position{line: 2225, col: 5, offset: 71865},
+				pos: position{line: 2225, col: 5, offset: 71811},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2225, col: 5, offset: 71865},
+					pos: position{line: 2225, col: 5, offset: 71811},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2208, col: 5, offset: 71401},
+							pos:        position{line: 2208, col: 5, offset: 71347},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2209, col: 5, offset: 71410},
+							pos: position{line: 2209, col: 5, offset: 71356},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2213, col: 5, offset: 71530},
+							pos: position{line: 2213, col: 5, offset: 71476},
 							expr: &notExpr{
-								pos: position{line: 2213, col: 7, offset: 71532},
+								pos: position{line: 2213, col: 7, offset: 71478},
 								expr: &litMatcher{
-									pos:        position{line: 2213, col: 8, offset: 71533},
+									pos:        position{line: 2213, col: 8, offset: 71479},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45574,38 +45574,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2226, col: 5, offset: 71905},
+							pos:   position{line: 2226, col: 5, offset: 71851},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2226, col: 15, offset: 71915},
+								pos:  position{line: 2226, col: 15, offset: 71861},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71638},
+							pos:        position{line: 2216, col: 5, offset: 71584},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2217, col: 5, offset: 71646},
+							pos: position{line: 2217, col: 5, offset: 71592},
 							expr: &litMatcher{
-								pos:        position{line: 2217, col: 6, offset: 71647},
+								pos:        position{line: 2217, col: 6, offset: 71593},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2218, col: 5, offset: 71710},
+							pos: position{line: 2218, col: 5, offset: 71656},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2222, col: 5, offset: 71821},
+							pos: position{line: 2222, col: 5, offset: 71767},
 							expr: &notExpr{
-								pos: position{line: 2222, col: 7, offset: 71823},
+								pos: position{line: 2222, col: 7, offset: 71769},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88772},
+									pos:        position{line: 2787, col: 13, offset: 88715},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45619,20 +45619,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2231, col: 1, offset: 72082},
+			pos:  position{line: 2231, col: 1, offset: 72028},
 			expr: &actionExpr{
-				pos: position{line: 2232, col: 5, offset: 72120},
+				pos: position{line: 2232, col: 5, offset: 72066},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2232, col: 5, offset: 72120},
+					pos: position{line: 2232, col: 5, offset: 72066},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2232, col: 5, offset: 72120},
+							pos: position{line: 2232, col: 5, offset: 72066},
 							expr: &actionExpr{
-								pos: position{line: 2932, col: 10, offset: 92824},
+								pos: position{line: 2933, col: 10, offset: 92767},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2932, col: 10, offset: 92824},
+									pos:        position{line: 2933, col: 10, offset: 92767},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45641,18 +45641,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2233, col: 5, offset: 72159},
+							pos:   position{line: 2233, col: 5, offset: 72105},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2233, col: 14, offset: 72168},
+								pos: position{line: 2233, col: 14, offset: 72114},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2233, col: 15, offset: 72169},
+									pos:  position{line: 2233, col: 15, offset: 72115},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2234, col: 5, offset: 72205},
+							pos: position{line: 2234, col: 5, offset: 72151},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -45661,49 +45661,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2240, col: 1, offset: 72346},
+			pos:  position{line: 2240, col: 1, offset: 72292},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72383},
+				pos: position{line: 2241, col: 5, offset: 72329},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72383},
+					pos: position{line: 2241, col: 5, offset: 72329},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2242, col: 5, offset: 72394},
+							pos: position{line: 2242, col: 5, offset: 72340},
 							expr: &seqExpr{
-								pos: position{line: 2216, col: 5, offset: 71638},
+								pos: position{line: 2216, col: 5, offset: 71584},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2216, col: 5, offset: 71638},
+										pos:        position{line: 2216, col: 5, offset: 71584},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2217, col: 5, offset: 71646},
+										pos: position{line: 2217, col: 5, offset: 71592},
 										expr: &litMatcher{
-											pos:        position{line: 2217, col: 6, offset: 71647},
+											pos:        position{line: 2217, col: 6, offset: 71593},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2218, col: 5, offset: 71710},
+										pos: position{line: 2218, col: 5, offset: 71656},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2222, col: 5, offset: 71821},
+										pos: position{line: 2222, col: 5, offset: 71767},
 										expr: &notExpr{
-											pos: position{line: 2222, col: 7, offset: 71823},
+											pos: position{line: 2222, col: 7, offset: 71769},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88772},
+												pos:        position{line: 2787, col: 13, offset: 88715},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45715,10 +45715,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72433},
+							pos:   position{line: 2243, col: 5, offset: 72379},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2243, col: 14, offset: 72442},
+								pos:  position{line: 2243, col: 14, offset: 72388},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45728,35 +45728,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2248, col: 1, offset: 72530},
+			pos:  position{line: 2248, col: 1, offset: 72476},
 			expr: &choiceExpr{
-				pos: position{line: 2250, col: 5, offset: 72594},
+				pos: position{line: 2250, col: 5, offset: 72540},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2250, col: 5, offset: 72594},
+						pos: position{line: 2250, col: 5, offset: 72540},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2250, col: 5, offset: 72594},
+							pos: position{line: 2250, col: 5, offset: 72540},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2250, col: 5, offset: 72594},
+									pos:   position{line: 2250, col: 5, offset: 72540},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60798},
+										pos: position{line: 1885, col: 25, offset: 60780},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60798},
+											pos: position{line: 1885, col: 25, offset: 60780},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60798},
+													pos:        position{line: 1885, col: 25, offset: 60780},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60803},
+													pos: position{line: 1885, col: 30, offset: 60785},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60803},
+														pos:        position{line: 1885, col: 30, offset: 60785},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45767,21 +45767,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2250, col: 40, offset: 72629},
+									pos:        position{line: 2250, col: 40, offset: 72575},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2250, col: 45, offset: 72634},
+									pos:   position{line: 2250, col: 45, offset: 72580},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2250, col: 55, offset: 72644},
+										pos:  position{line: 2250, col: 55, offset: 72590},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2250, col: 86, offset: 72675},
+									pos:        position{line: 2250, col: 86, offset: 72621},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45790,21 +45790,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2254, col: 7, offset: 72840},
+						pos: position{line: 2254, col: 7, offset: 72782},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2254, col: 7, offset: 72840},
+							pos: position{line: 2254, col: 7, offset: 72782},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2254, col: 7, offset: 72840},
+									pos:   position{line: 2254, col: 7, offset: 72782},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45813,21 +45813,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 42, offset: 72875},
+									pos:        position{line: 2254, col: 42, offset: 72817},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2254, col: 47, offset: 72880},
+									pos:   position{line: 2254, col: 47, offset: 72822},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2254, col: 57, offset: 72890},
+										pos:  position{line: 2254, col: 57, offset: 72832},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 88, offset: 72921},
+									pos:        position{line: 2254, col: 88, offset: 72863},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45836,21 +45836,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2259, col: 7, offset: 73124},
+						pos: position{line: 2259, col: 7, offset: 73062},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2259, col: 7, offset: 73124},
+							pos: position{line: 2259, col: 7, offset: 73062},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2259, col: 7, offset: 73124},
+									pos:   position{line: 2259, col: 7, offset: 73062},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60725},
+										pos: position{line: 1881, col: 25, offset: 60707},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60725},
+											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60725},
+												pos:        position{line: 1881, col: 25, offset: 60707},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45859,21 +45859,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2259, col: 42, offset: 73159},
+									pos:        position{line: 2259, col: 42, offset: 73097},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2259, col: 46, offset: 73163},
+									pos:   position{line: 2259, col: 46, offset: 73101},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2259, col: 56, offset: 73173},
+										pos:  position{line: 2259, col: 56, offset: 73111},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2259, col: 87, offset: 73204},
+									pos:        position{line: 2259, col: 87, offset: 73142},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45886,29 +45886,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2266, col: 1, offset: 73471},
+			pos:  position{line: 2266, col: 1, offset: 73405},
 			expr: &actionExpr{
-				pos: position{line: 2267, col: 5, offset: 73493},
+				pos: position{line: 2267, col: 5, offset: 73427},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2267, col: 5, offset: 73493},
+					pos: position{line: 2267, col: 5, offset: 73427},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73708},
+							pos:        position{line: 2273, col: 27, offset: 73642},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2268, col: 5, offset: 73520},
+							pos:   position{line: 2268, col: 5, offset: 73454},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2268, col: 14, offset: 73529},
+								pos:  position{line: 2268, col: 14, offset: 73463},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73708},
+							pos:        position{line: 2273, col: 27, offset: 73642},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45919,43 +45919,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2275, col: 1, offset: 73713},
+			pos:  position{line: 2275, col: 1, offset: 73647},
 			expr: &choiceExpr{
-				pos: position{line: 2275, col: 25, offset: 73737},
+				pos: position{line: 2275, col: 25, offset: 73671},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2275, col: 25, offset: 73737},
+						pos:  position{line: 2275, col: 25, offset: 73671},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2277, col: 21, offset: 73789},
+						pos: position{line: 2277, col: 21, offset: 73723},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2277, col: 21, offset: 73789},
+							pos:   position{line: 2277, col: 21, offset: 73723},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2277, col: 29, offset: 73797},
+								pos: position{line: 2277, col: 29, offset: 73731},
 								expr: &choiceExpr{
-									pos: position{line: 2277, col: 30, offset: 73798},
+									pos: position{line: 2277, col: 30, offset: 73732},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2489, col: 5, offset: 80072},
+												pos: position{line: 2490, col: 5, offset: 80027},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2489, col: 5, offset: 80072},
+														pos: position{line: 2490, col: 5, offset: 80027},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2492, col: 5, offset: 80148},
+														pos:   position{line: 2493, col: 5, offset: 80103},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2493, col: 9, offset: 80166},
+															pos: position{line: 2494, col: 9, offset: 80121},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2493, col: 10, offset: 80167},
+																pos:        position{line: 2494, col: 10, offset: 80122},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45967,7 +45967,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2277, col: 49, offset: 73817},
+											pos:        position{line: 2277, col: 49, offset: 73751},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -45983,23 +45983,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2281, col: 1, offset: 73874},
+			pos:  position{line: 2281, col: 1, offset: 73808},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 73941},
+				pos: position{line: 2283, col: 5, offset: 73875},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 73941},
+					pos: position{line: 2283, col: 5, offset: 73875},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73941},
+							pos:   position{line: 2283, col: 5, offset: 73875},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60725},
+								pos: position{line: 1881, col: 25, offset: 60707},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60725},
+									pos: position{line: 1881, col: 25, offset: 60707},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60725},
+										pos:        position{line: 1881, col: 25, offset: 60707},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46008,21 +46008,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73708},
+							pos:        position{line: 2273, col: 27, offset: 73642},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74009},
+							pos:   position{line: 2285, col: 5, offset: 73943},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2285, col: 14, offset: 74018},
+								pos:  position{line: 2285, col: 14, offset: 73952},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73708},
+							pos:        position{line: 2273, col: 27, offset: 73642},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46033,29 +46033,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2293, col: 1, offset: 74281},
+			pos:  position{line: 2293, col: 1, offset: 74211},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74305},
+				pos: position{line: 2294, col: 5, offset: 74235},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74305},
+					pos: position{line: 2294, col: 5, offset: 74235},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74532},
+							pos:        position{line: 2300, col: 29, offset: 74462},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2295, col: 5, offset: 74335},
+							pos:   position{line: 2295, col: 5, offset: 74265},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2295, col: 14, offset: 74344},
+								pos:  position{line: 2295, col: 14, offset: 74274},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74532},
+							pos:        position{line: 2300, col: 29, offset: 74462},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46066,43 +46066,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2302, col: 1, offset: 74537},
+			pos:  position{line: 2302, col: 1, offset: 74467},
 			expr: &choiceExpr{
-				pos: position{line: 2302, col: 27, offset: 74563},
+				pos: position{line: 2302, col: 27, offset: 74493},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2302, col: 27, offset: 74563},
+						pos:  position{line: 2302, col: 27, offset: 74493},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2304, col: 23, offset: 74619},
+						pos: position{line: 2304, col: 23, offset: 74549},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2304, col: 23, offset: 74619},
+							pos:   position{line: 2304, col: 23, offset: 74549},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2304, col: 31, offset: 74627},
+								pos: position{line: 2304, col: 31, offset: 74557},
 								expr: &choiceExpr{
-									pos: position{line: 2304, col: 32, offset: 74628},
+									pos: position{line: 2304, col: 32, offset: 74558},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2489, col: 5, offset: 80072},
+												pos: position{line: 2490, col: 5, offset: 80027},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2489, col: 5, offset: 80072},
+														pos: position{line: 2490, col: 5, offset: 80027},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2492, col: 5, offset: 80148},
+														pos:   position{line: 2493, col: 5, offset: 80103},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2493, col: 9, offset: 80166},
+															pos: position{line: 2494, col: 9, offset: 80121},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2493, col: 10, offset: 80167},
+																pos:        position{line: 2494, col: 10, offset: 80122},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46114,7 +46114,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2304, col: 51, offset: 74647},
+											pos:        position{line: 2304, col: 51, offset: 74577},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -46130,23 +46130,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74704},
+			pos:  position{line: 2308, col: 1, offset: 74634},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74776},
+				pos: position{line: 2310, col: 5, offset: 74706},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74776},
+					pos: position{line: 2310, col: 5, offset: 74706},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74776},
+							pos:   position{line: 2310, col: 5, offset: 74706},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60725},
+								pos: position{line: 1881, col: 25, offset: 60707},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60725},
+									pos: position{line: 1881, col: 25, offset: 60707},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60725},
+										pos:        position{line: 1881, col: 25, offset: 60707},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46155,21 +46155,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74532},
+							pos:        position{line: 2300, col: 29, offset: 74462},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74846},
+							pos:   position{line: 2312, col: 5, offset: 74776},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74855},
+								pos:  position{line: 2312, col: 14, offset: 74785},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74532},
+							pos:        position{line: 2300, col: 29, offset: 74462},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46180,27 +46180,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2321, col: 1, offset: 75324},
+			pos:  position{line: 2321, col: 1, offset: 75250},
 			expr: &actionExpr{
-				pos: position{line: 2322, col: 5, offset: 75340},
+				pos: position{line: 2322, col: 5, offset: 75266},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2322, col: 5, offset: 75340},
+					pos: position{line: 2322, col: 5, offset: 75266},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2322, col: 5, offset: 75340},
+							pos: position{line: 2322, col: 5, offset: 75266},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2325, col: 5, offset: 75403},
+							pos:   position{line: 2325, col: 5, offset: 75329},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2325, col: 12, offset: 75410},
+								pos: position{line: 2325, col: 12, offset: 75336},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2325, col: 12, offset: 75410},
+									pos: position{line: 2325, col: 12, offset: 75336},
 									expr: &litMatcher{
-										pos:        position{line: 2325, col: 13, offset: 75411},
+										pos:        position{line: 2325, col: 13, offset: 75337},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46209,16 +46209,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2329, col: 5, offset: 75519},
+							pos: position{line: 2329, col: 5, offset: 75445},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2936, col: 11, offset: 92885},
+							pos: position{line: 2937, col: 11, offset: 92828},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2936, col: 11, offset: 92885},
+								pos: position{line: 2937, col: 11, offset: 92828},
 								expr: &charClassMatcher{
-									pos:        position{line: 2936, col: 11, offset: 92885},
+									pos:        position{line: 2937, col: 11, offset: 92828},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46227,36 +46227,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2333, col: 12, offset: 75678},
+							pos:   position{line: 2333, col: 12, offset: 75604},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2333, col: 19, offset: 75685},
+								pos:  position{line: 2333, col: 19, offset: 75611},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46265,9 +46265,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -46278,24 +46278,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2337, col: 1, offset: 75781},
+			pos:  position{line: 2337, col: 1, offset: 75707},
 			expr: &actionExpr{
-				pos: position{line: 2338, col: 5, offset: 75802},
+				pos: position{line: 2338, col: 5, offset: 75728},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2338, col: 5, offset: 75802},
+					pos: position{line: 2338, col: 5, offset: 75728},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2338, col: 5, offset: 75802},
+							pos: position{line: 2338, col: 5, offset: 75728},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75917},
+							pos:   position{line: 2344, col: 5, offset: 75872},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2343, col: 14, offset: 75926},
+								pos: position{line: 2344, col: 14, offset: 75881},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2343, col: 15, offset: 75927},
+									pos:  position{line: 2344, col: 15, offset: 75882},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46306,38 +46306,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2347, col: 1, offset: 76008},
+			pos:  position{line: 2348, col: 1, offset: 75963},
 			expr: &actionExpr{
-				pos: position{line: 2348, col: 5, offset: 76035},
+				pos: position{line: 2349, col: 5, offset: 75990},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2348, col: 5, offset: 76035},
+					pos: position{line: 2349, col: 5, offset: 75990},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2348, col: 5, offset: 76035},
+							pos: position{line: 2349, col: 5, offset: 75990},
 							expr: &choiceExpr{
-								pos: position{line: 2954, col: 8, offset: 93222},
+								pos: position{line: 2955, col: 8, offset: 93165},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2941, col: 12, offset: 92995},
+										pos: position{line: 2942, col: 12, offset: 92938},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2941, col: 13, offset: 92996},
+											pos: position{line: 2942, col: 13, offset: 92939},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2941, col: 13, offset: 92996},
+													pos:        position{line: 2942, col: 13, offset: 92939},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 20, offset: 93003},
+													pos:        position{line: 2942, col: 20, offset: 92946},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 29, offset: 93012},
+													pos:        position{line: 2942, col: 29, offset: 92955},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46346,45 +46346,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2951, col: 8, offset: 93172},
+										pos: position{line: 2952, col: 8, offset: 93115},
 										expr: &anyMatcher{
-											line: 2951, col: 9, offset: 93173,
+											line: 2952, col: 9, offset: 93116,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2349, col: 5, offset: 76044},
+							pos:   position{line: 2350, col: 5, offset: 75999},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2350, col: 9, offset: 76062},
+								pos: position{line: 2351, col: 9, offset: 76017},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88919},
+										pos: position{line: 2796, col: 5, offset: 88862},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 88919},
+											pos: position{line: 2796, col: 5, offset: 88862},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 88919},
+													pos: position{line: 2796, col: 5, offset: 88862},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 88930},
+														pos: position{line: 2797, col: 9, offset: 88873},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2796, col: 9, offset: 88930},
+																pos: position{line: 2797, col: 9, offset: 88873},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2799, col: 9, offset: 88993},
+																pos:   position{line: 2800, col: 9, offset: 88936},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2771, col: 18, offset: 88305},
+																	pos: position{line: 2772, col: 18, offset: 88248},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2771, col: 19, offset: 88306},
+																		pos: position{line: 2772, col: 19, offset: 88249},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			pos:        position{line: 2772, col: 19, offset: 88249},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46395,28 +46395,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2799, col: 30, offset: 89014},
+																pos:        position{line: 2800, col: 30, offset: 88957},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2800, col: 9, offset: 89101},
+																pos: position{line: 2801, col: 9, offset: 89044},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2804, col: 5, offset: 89213},
+													pos:   position{line: 2805, col: 5, offset: 89156},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2804, col: 11, offset: 89219},
+														pos: position{line: 2805, col: 11, offset: 89162},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2804, col: 11, offset: 89219},
+															pos: position{line: 2805, col: 11, offset: 89162},
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 11, offset: 89219},
+																pos:        position{line: 2805, col: 11, offset: 89162},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46426,32 +46426,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2807, col: 5, offset: 89277},
+													pos: position{line: 2808, col: 5, offset: 89220},
 													expr: &seqExpr{
-														pos: position{line: 2808, col: 9, offset: 89288},
+														pos: position{line: 2809, col: 9, offset: 89231},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2808, col: 9, offset: 89288},
+																pos:        position{line: 2809, col: 9, offset: 89231},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2809, col: 9, offset: 89337},
+																pos: position{line: 2810, col: 9, offset: 89280},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2813, col: 5, offset: 89417},
+													pos: position{line: 2814, col: 5, offset: 89360},
 													expr: &seqExpr{
-														pos: position{line: 2814, col: 9, offset: 89428},
+														pos: position{line: 2815, col: 9, offset: 89371},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2814, col: 9, offset: 89428},
+																pos: position{line: 2815, col: 9, offset: 89371},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2814, col: 9, offset: 89428},
+																	pos:        position{line: 2815, col: 9, offset: 89371},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46460,13 +46460,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2814, col: 23, offset: 89442},
+																pos:        position{line: 2815, col: 23, offset: 89385},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2814, col: 27, offset: 89446},
+																pos:        position{line: 2815, col: 27, offset: 89389},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46479,12 +46479,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2936, col: 11, offset: 92885},
+										pos: position{line: 2937, col: 11, offset: 92828},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2936, col: 11, offset: 92885},
+											pos: position{line: 2937, col: 11, offset: 92828},
 											expr: &charClassMatcher{
-												pos:        position{line: 2936, col: 11, offset: 92885},
+												pos:        position{line: 2937, col: 11, offset: 92828},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46493,21 +46493,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81243},
+										pos: position{line: 2521, col: 5, offset: 81198},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81243},
+											pos: position{line: 2521, col: 5, offset: 81198},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2520, col: 5, offset: 81243},
+													pos:        position{line: 2521, col: 5, offset: 81198},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2520, col: 10, offset: 81248},
+													pos: position{line: 2521, col: 10, offset: 81203},
 													expr: &charClassMatcher{
-														pos:        position{line: 2520, col: 11, offset: 81249},
+														pos:        position{line: 2521, col: 11, offset: 81204},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46518,29 +46518,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 5, offset: 81441},
+										pos: position{line: 2527, col: 5, offset: 81390},
 										run: (*parser).callonSectionTitleElement47,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 5, offset: 81441},
+											pos: position{line: 2527, col: 5, offset: 81390},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2526, col: 5, offset: 81441},
+													pos: position{line: 2527, col: 5, offset: 81390},
 													run: (*parser).callonSectionTitleElement49,
 												},
 												&andCodeExpr{
-													pos: position{line: 2529, col: 5, offset: 81512},
+													pos: position{line: 2530, col: 5, offset: 81461},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&litMatcher{
-													pos:        position{line: 2533, col: 5, offset: 81637},
+													pos:        position{line: 2534, col: 5, offset: 81586},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2533, col: 9, offset: 81641},
+													pos: position{line: 2534, col: 9, offset: 81590},
 													expr: &charClassMatcher{
-														pos:        position{line: 2533, col: 10, offset: 81642},
+														pos:        position{line: 2534, col: 10, offset: 81591},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46551,31 +46551,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2353, col: 11, offset: 76127},
+										pos:  position{line: 2354, col: 11, offset: 76082},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89639},
+										pos: position{line: 2823, col: 5, offset: 89582},
 										run: (*parser).callonSectionTitleElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2823, col: 9, offset: 89649},
+											pos: position{line: 2824, col: 9, offset: 89592},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2823, col: 10, offset: 89650},
+													pos:        position{line: 2824, col: 10, offset: 89593},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2825, col: 13, offset: 89747},
+													pos: position{line: 2826, col: 13, offset: 89690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2825, col: 13, offset: 89747},
+															pos: position{line: 2826, col: 13, offset: 89690},
 															run: (*parser).callonSectionTitleElement59,
 														},
 														&litMatcher{
-															pos:        position{line: 2828, col: 13, offset: 89847},
+															pos:        position{line: 2829, col: 13, offset: 89790},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46583,20 +46583,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 19, offset: 89853},
+													pos:        position{line: 2829, col: 19, offset: 89796},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 13, offset: 89891},
+													pos: position{line: 2832, col: 13, offset: 89834},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2831, col: 13, offset: 89891},
+															pos: position{line: 2832, col: 13, offset: 89834},
 															run: (*parser).callonSectionTitleElement63,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2834, col: 14, offset: 89984},
+															pos:        position{line: 2835, col: 14, offset: 89927},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46605,18 +46605,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 12, offset: 90028},
+													pos: position{line: 2837, col: 12, offset: 89971},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2836, col: 12, offset: 90028},
+															pos:        position{line: 2837, col: 12, offset: 89971},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2836, col: 16, offset: 90032},
+															pos: position{line: 2837, col: 16, offset: 89975},
 															expr: &litMatcher{
-																pos:        position{line: 2836, col: 17, offset: 90033},
+																pos:        position{line: 2837, col: 17, offset: 89976},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46628,35 +46628,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2355, col: 11, offset: 76200},
+										pos:  position{line: 2356, col: 11, offset: 76155},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2356, col: 11, offset: 76216},
+										pos:  position{line: 2357, col: 11, offset: 76171},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2357, col: 11, offset: 76244},
+										pos:  position{line: 2358, col: 11, offset: 76199},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80072},
+										pos: position{line: 2490, col: 5, offset: 80027},
 										run: (*parser).callonSectionTitleElement72,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80072},
+													pos: position{line: 2490, col: 5, offset: 80027},
 													run: (*parser).callonSectionTitleElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 2492, col: 5, offset: 80148},
+													pos:   position{line: 2493, col: 5, offset: 80103},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2493, col: 9, offset: 80166},
+														pos: position{line: 2494, col: 9, offset: 80121},
 														run: (*parser).callonSectionTitleElement76,
 														expr: &charClassMatcher{
-															pos:        position{line: 2493, col: 10, offset: 80167},
+															pos:        position{line: 2494, col: 10, offset: 80122},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46668,7 +46668,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2359, col: 11, offset: 76329},
+										pos:  position{line: 2360, col: 11, offset: 76284},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47057,17 +47057,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2372, col: 5, offset: 76782},
+										pos: position{line: 2373, col: 5, offset: 76737},
 										run: (*parser).callonSectionTitleElement156,
 										expr: &seqExpr{
-											pos: position{line: 2372, col: 5, offset: 76782},
+											pos: position{line: 2373, col: 5, offset: 76737},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2372, col: 5, offset: 76782},
+													pos: position{line: 2373, col: 5, offset: 76737},
 													run: (*parser).callonSectionTitleElement158,
 												},
 												&labeledExpr{
-													pos:   position{line: 2375, col: 5, offset: 76837},
+													pos:   position{line: 2376, col: 5, offset: 76792},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -47521,12 +47521,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2375, col: 26, offset: 76858},
+													pos: position{line: 2376, col: 26, offset: 76813},
 													expr: &actionExpr{
-														pos: position{line: 2932, col: 10, offset: 92824},
+														pos: position{line: 2933, col: 10, offset: 92767},
 														run: (*parser).callonSectionTitleElement252,
 														expr: &charClassMatcher{
-															pos:        position{line: 2932, col: 10, offset: 92824},
+															pos:        position{line: 2933, col: 10, offset: 92767},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47535,30 +47535,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2375, col: 33, offset: 76865},
+													pos: position{line: 2376, col: 33, offset: 76820},
 													expr: &choiceExpr{
-														pos: position{line: 2954, col: 8, offset: 93222},
+														pos: position{line: 2955, col: 8, offset: 93165},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2941, col: 12, offset: 92995},
+																pos: position{line: 2942, col: 12, offset: 92938},
 																run: (*parser).callonSectionTitleElement256,
 																expr: &choiceExpr{
-																	pos: position{line: 2941, col: 13, offset: 92996},
+																	pos: position{line: 2942, col: 13, offset: 92939},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 13, offset: 92996},
+																			pos:        position{line: 2942, col: 13, offset: 92939},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 20, offset: 93003},
+																			pos:        position{line: 2942, col: 20, offset: 92946},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2941, col: 29, offset: 93012},
+																			pos:        position{line: 2942, col: 29, offset: 92955},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47567,9 +47567,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2951, col: 8, offset: 93172},
+																pos: position{line: 2952, col: 8, offset: 93115},
 																expr: &anyMatcher{
-																	line: 2951, col: 9, offset: 93173,
+																	line: 2952, col: 9, offset: 93116,
 																},
 															},
 														},
@@ -47594,12 +47594,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2917, col: 7, offset: 92476},
+														pos: position{line: 2918, col: 7, offset: 92419},
 														run: (*parser).callonSectionTitleElement267,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2917, col: 7, offset: 92476},
+															pos: position{line: 2918, col: 7, offset: 92419},
 															expr: &charClassMatcher{
-																pos:        position{line: 2917, col: 7, offset: 92476},
+																pos:        position{line: 2918, col: 7, offset: 92419},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47618,27 +47618,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1291, col: 5, offset: 39843},
+										pos: position{line: 1291, col: 5, offset: 39837},
 										run: (*parser).callonSectionTitleElement271,
 										expr: &seqExpr{
-											pos: position{line: 1291, col: 5, offset: 39843},
+											pos: position{line: 1291, col: 5, offset: 39837},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1291, col: 5, offset: 39843},
+													pos:        position{line: 1291, col: 5, offset: 39837},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1291, col: 10, offset: 39848},
+													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2917, col: 7, offset: 92476},
+														pos: position{line: 2918, col: 7, offset: 92419},
 														run: (*parser).callonSectionTitleElement275,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2917, col: 7, offset: 92476},
+															pos: position{line: 2918, col: 7, offset: 92419},
 															expr: &charClassMatcher{
-																pos:        position{line: 2917, col: 7, offset: 92476},
+																pos:        position{line: 2918, col: 7, offset: 92419},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47648,7 +47648,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1291, col: 18, offset: 39856},
+													pos:        position{line: 1291, col: 18, offset: 39850},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -47657,14 +47657,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2364, col: 11, offset: 76583},
+										pos:  position{line: 2365, col: 11, offset: 76538},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90293},
+										pos: position{line: 2845, col: 12, offset: 90236},
 										run: (*parser).callonSectionTitleElement280,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90293},
+											pos:        position{line: 2845, col: 12, offset: 90236},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47680,61 +47680,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2385, col: 1, offset: 77127},
+			pos:  position{line: 2386, col: 1, offset: 77082},
 			expr: &actionExpr{
-				pos: position{line: 2386, col: 5, offset: 77214},
+				pos: position{line: 2387, col: 5, offset: 77169},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2386, col: 5, offset: 77214},
+					pos: position{line: 2387, col: 5, offset: 77169},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2386, col: 5, offset: 77214},
+							pos:   position{line: 2387, col: 5, offset: 77169},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2386, col: 14, offset: 77223},
+								pos: position{line: 2387, col: 14, offset: 77178},
 								expr: &actionExpr{
-									pos: position{line: 2388, col: 9, offset: 77249},
+									pos: position{line: 2389, col: 9, offset: 77204},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2388, col: 9, offset: 77249},
+										pos: position{line: 2389, col: 9, offset: 77204},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2949, col: 11, offset: 93158},
+												pos: position{line: 2950, col: 11, offset: 93101},
 												expr: &anyMatcher{
-													line: 2949, col: 13, offset: 93160,
+													line: 2950, col: 13, offset: 93103,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2389, col: 9, offset: 77264},
+												pos:   position{line: 2390, col: 9, offset: 77219},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2390, col: 13, offset: 77286},
+													pos: position{line: 2391, col: 13, offset: 77241},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2795, col: 5, offset: 88919},
+															pos: position{line: 2796, col: 5, offset: 88862},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2795, col: 5, offset: 88919},
+																pos: position{line: 2796, col: 5, offset: 88862},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2795, col: 5, offset: 88919},
+																		pos: position{line: 2796, col: 5, offset: 88862},
 																		expr: &seqExpr{
-																			pos: position{line: 2796, col: 9, offset: 88930},
+																			pos: position{line: 2797, col: 9, offset: 88873},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2796, col: 9, offset: 88930},
+																					pos: position{line: 2797, col: 9, offset: 88873},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2799, col: 9, offset: 88993},
+																					pos:   position{line: 2800, col: 9, offset: 88936},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2771, col: 18, offset: 88305},
+																						pos: position{line: 2772, col: 18, offset: 88248},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2771, col: 19, offset: 88306},
+																							pos: position{line: 2772, col: 19, offset: 88249},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2771, col: 19, offset: 88306},
+																								pos:        position{line: 2772, col: 19, offset: 88249},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47745,28 +47745,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2799, col: 30, offset: 89014},
+																					pos:        position{line: 2800, col: 30, offset: 88957},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2800, col: 9, offset: 89101},
+																					pos: position{line: 2801, col: 9, offset: 89044},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2804, col: 5, offset: 89213},
+																		pos:   position{line: 2805, col: 5, offset: 89156},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2804, col: 11, offset: 89219},
+																			pos: position{line: 2805, col: 11, offset: 89162},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2804, col: 11, offset: 89219},
+																				pos: position{line: 2805, col: 11, offset: 89162},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2804, col: 11, offset: 89219},
+																					pos:        position{line: 2805, col: 11, offset: 89162},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47776,32 +47776,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2807, col: 5, offset: 89277},
+																		pos: position{line: 2808, col: 5, offset: 89220},
 																		expr: &seqExpr{
-																			pos: position{line: 2808, col: 9, offset: 89288},
+																			pos: position{line: 2809, col: 9, offset: 89231},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2808, col: 9, offset: 89288},
+																					pos:        position{line: 2809, col: 9, offset: 89231},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2809, col: 9, offset: 89337},
+																					pos: position{line: 2810, col: 9, offset: 89280},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2813, col: 5, offset: 89417},
+																		pos: position{line: 2814, col: 5, offset: 89360},
 																		expr: &seqExpr{
-																			pos: position{line: 2814, col: 9, offset: 89428},
+																			pos: position{line: 2815, col: 9, offset: 89371},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2814, col: 9, offset: 89428},
+																					pos: position{line: 2815, col: 9, offset: 89371},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2814, col: 9, offset: 89428},
+																						pos:        position{line: 2815, col: 9, offset: 89371},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47810,13 +47810,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2814, col: 23, offset: 89442},
+																					pos:        position{line: 2815, col: 23, offset: 89385},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2814, col: 27, offset: 89446},
+																					pos:        position{line: 2815, col: 27, offset: 89389},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47829,12 +47829,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2936, col: 11, offset: 92885},
+															pos: position{line: 2937, col: 11, offset: 92828},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2936, col: 11, offset: 92885},
+																pos: position{line: 2937, col: 11, offset: 92828},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2936, col: 11, offset: 92885},
+																	pos:        position{line: 2937, col: 11, offset: 92828},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47843,25 +47843,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2392, col: 15, offset: 77332},
+															pos:  position{line: 2393, col: 15, offset: 77287},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2520, col: 5, offset: 81243},
+															pos: position{line: 2521, col: 5, offset: 81198},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2520, col: 5, offset: 81243},
+																pos: position{line: 2521, col: 5, offset: 81198},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2520, col: 5, offset: 81243},
+																		pos:        position{line: 2521, col: 5, offset: 81198},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2520, col: 10, offset: 81248},
+																		pos: position{line: 2521, col: 10, offset: 81203},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2520, col: 11, offset: 81249},
+																			pos:        position{line: 2521, col: 11, offset: 81204},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47872,29 +47872,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2526, col: 5, offset: 81441},
+															pos: position{line: 2527, col: 5, offset: 81390},
 															run: (*parser).callonNormalGroup45,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 5, offset: 81441},
+																pos: position{line: 2527, col: 5, offset: 81390},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2526, col: 5, offset: 81441},
+																		pos: position{line: 2527, col: 5, offset: 81390},
 																		run: (*parser).callonNormalGroup47,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2529, col: 5, offset: 81512},
+																		pos: position{line: 2530, col: 5, offset: 81461},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2533, col: 5, offset: 81637},
+																		pos:        position{line: 2534, col: 5, offset: 81586},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2533, col: 9, offset: 81641},
+																		pos: position{line: 2534, col: 9, offset: 81590},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2533, col: 10, offset: 81642},
+																			pos:        position{line: 2534, col: 10, offset: 81591},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47905,27 +47905,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2822, col: 5, offset: 89639},
+															pos: position{line: 2823, col: 5, offset: 89582},
 															run: (*parser).callonNormalGroup52,
 															expr: &choiceExpr{
-																pos: position{line: 2823, col: 9, offset: 89649},
+																pos: position{line: 2824, col: 9, offset: 89592},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2823, col: 10, offset: 89650},
+																		pos:        position{line: 2824, col: 10, offset: 89593},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2825, col: 13, offset: 89747},
+																		pos: position{line: 2826, col: 13, offset: 89690},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2825, col: 13, offset: 89747},
+																				pos: position{line: 2826, col: 13, offset: 89690},
 																				run: (*parser).callonNormalGroup56,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2828, col: 13, offset: 89847},
+																				pos:        position{line: 2829, col: 13, offset: 89790},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47933,20 +47933,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 19, offset: 89853},
+																		pos:        position{line: 2829, col: 19, offset: 89796},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2831, col: 13, offset: 89891},
+																		pos: position{line: 2832, col: 13, offset: 89834},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2831, col: 13, offset: 89891},
+																				pos: position{line: 2832, col: 13, offset: 89834},
 																				run: (*parser).callonNormalGroup60,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2834, col: 14, offset: 89984},
+																				pos:        position{line: 2835, col: 14, offset: 89927},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47955,18 +47955,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2836, col: 12, offset: 90028},
+																		pos: position{line: 2837, col: 12, offset: 89971},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2836, col: 12, offset: 90028},
+																				pos:        position{line: 2837, col: 12, offset: 89971},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2836, col: 16, offset: 90032},
+																				pos: position{line: 2837, col: 16, offset: 89975},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 17, offset: 90033},
+																					pos:        position{line: 2837, col: 17, offset: 89976},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -47978,25 +47978,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2941, col: 12, offset: 92995},
+															pos: position{line: 2942, col: 12, offset: 92938},
 															run: (*parser).callonNormalGroup66,
 															expr: &choiceExpr{
-																pos: position{line: 2941, col: 13, offset: 92996},
+																pos: position{line: 2942, col: 13, offset: 92939},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 13, offset: 92996},
+																		pos:        position{line: 2942, col: 13, offset: 92939},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 20, offset: 93003},
+																		pos:        position{line: 2942, col: 20, offset: 92946},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2941, col: 29, offset: 93012},
+																		pos:        position{line: 2942, col: 29, offset: 92955},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48351,35 +48351,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2397, col: 15, offset: 77499},
+															pos:  position{line: 2398, col: 15, offset: 77454},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2398, col: 15, offset: 77519},
+															pos:  position{line: 2399, col: 15, offset: 77474},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2399, col: 15, offset: 77608},
+															pos:  position{line: 2400, col: 15, offset: 77563},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2489, col: 5, offset: 80072},
+															pos: position{line: 2490, col: 5, offset: 80027},
 															run: (*parser).callonNormalGroup143,
 															expr: &seqExpr{
-																pos: position{line: 2489, col: 5, offset: 80072},
+																pos: position{line: 2490, col: 5, offset: 80027},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80072},
+																		pos: position{line: 2490, col: 5, offset: 80027},
 																		run: (*parser).callonNormalGroup145,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2492, col: 5, offset: 80148},
+																		pos:   position{line: 2493, col: 5, offset: 80103},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2493, col: 9, offset: 80166},
+																			pos: position{line: 2494, col: 9, offset: 80121},
 																			run: (*parser).callonNormalGroup147,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2493, col: 10, offset: 80167},
+																				pos:        position{line: 2494, col: 10, offset: 80122},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48413,10 +48413,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonNormalGroup155,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48427,28 +48427,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2954, col: 8, offset: 93222},
+																			pos: position{line: 2955, col: 8, offset: 93165},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonNormalGroup159,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48457,9 +48457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2951, col: 8, offset: 93172},
+																					pos: position{line: 2952, col: 8, offset: 93115},
 																					expr: &anyMatcher{
-																						line: 2951, col: 9, offset: 93173,
+																						line: 2952, col: 9, offset: 93116,
 																					},
 																				},
 																			},
@@ -48469,7 +48469,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2402, col: 15, offset: 77790},
+															pos:  position{line: 2403, col: 15, offset: 77745},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -48512,10 +48512,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2844, col: 12, offset: 90293},
+															pos: position{line: 2845, col: 12, offset: 90236},
 															run: (*parser).callonNormalGroup175,
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 12, offset: 90293},
+																pos:        position{line: 2845, col: 12, offset: 90236},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48531,9 +48531,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -48542,28 +48542,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2413, col: 1, offset: 78228},
+			pos:  position{line: 2414, col: 1, offset: 78183},
 			expr: &actionExpr{
-				pos: position{line: 2414, col: 5, offset: 78261},
+				pos: position{line: 2415, col: 5, offset: 78216},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2414, col: 5, offset: 78261},
+					pos: position{line: 2415, col: 5, offset: 78216},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2414, col: 5, offset: 78261},
+							pos:   position{line: 2415, col: 5, offset: 78216},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2414, col: 14, offset: 78270},
+								pos: position{line: 2415, col: 14, offset: 78225},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2414, col: 15, offset: 78271},
+									pos:  position{line: 2415, col: 15, offset: 78226},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -48572,50 +48572,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2418, col: 1, offset: 78368},
+			pos:  position{line: 2419, col: 1, offset: 78323},
 			expr: &actionExpr{
-				pos: position{line: 2419, col: 5, offset: 78408},
+				pos: position{line: 2420, col: 5, offset: 78363},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2419, col: 5, offset: 78408},
+					pos: position{line: 2420, col: 5, offset: 78363},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2949, col: 11, offset: 93158},
+							pos: position{line: 2950, col: 11, offset: 93101},
 							expr: &anyMatcher{
-								line: 2949, col: 13, offset: 93160,
+								line: 2950, col: 13, offset: 93103,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2420, col: 5, offset: 78419},
+							pos:   position{line: 2421, col: 5, offset: 78374},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2421, col: 9, offset: 78437},
+								pos: position{line: 2422, col: 9, offset: 78392},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88919},
+										pos: position{line: 2796, col: 5, offset: 88862},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 88919},
+											pos: position{line: 2796, col: 5, offset: 88862},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 88919},
+													pos: position{line: 2796, col: 5, offset: 88862},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 88930},
+														pos: position{line: 2797, col: 9, offset: 88873},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2796, col: 9, offset: 88930},
+																pos: position{line: 2797, col: 9, offset: 88873},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2799, col: 9, offset: 88993},
+																pos:   position{line: 2800, col: 9, offset: 88936},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2771, col: 18, offset: 88305},
+																	pos: position{line: 2772, col: 18, offset: 88248},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2771, col: 19, offset: 88306},
+																		pos: position{line: 2772, col: 19, offset: 88249},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2771, col: 19, offset: 88306},
+																			pos:        position{line: 2772, col: 19, offset: 88249},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48626,28 +48626,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2799, col: 30, offset: 89014},
+																pos:        position{line: 2800, col: 30, offset: 88957},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2800, col: 9, offset: 89101},
+																pos: position{line: 2801, col: 9, offset: 89044},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2804, col: 5, offset: 89213},
+													pos:   position{line: 2805, col: 5, offset: 89156},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2804, col: 11, offset: 89219},
+														pos: position{line: 2805, col: 11, offset: 89162},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2804, col: 11, offset: 89219},
+															pos: position{line: 2805, col: 11, offset: 89162},
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 11, offset: 89219},
+																pos:        position{line: 2805, col: 11, offset: 89162},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48657,32 +48657,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2807, col: 5, offset: 89277},
+													pos: position{line: 2808, col: 5, offset: 89220},
 													expr: &seqExpr{
-														pos: position{line: 2808, col: 9, offset: 89288},
+														pos: position{line: 2809, col: 9, offset: 89231},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2808, col: 9, offset: 89288},
+																pos:        position{line: 2809, col: 9, offset: 89231},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2809, col: 9, offset: 89337},
+																pos: position{line: 2810, col: 9, offset: 89280},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2813, col: 5, offset: 89417},
+													pos: position{line: 2814, col: 5, offset: 89360},
 													expr: &seqExpr{
-														pos: position{line: 2814, col: 9, offset: 89428},
+														pos: position{line: 2815, col: 9, offset: 89371},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2814, col: 9, offset: 89428},
+																pos: position{line: 2815, col: 9, offset: 89371},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2814, col: 9, offset: 89428},
+																	pos:        position{line: 2815, col: 9, offset: 89371},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48691,13 +48691,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2814, col: 23, offset: 89442},
+																pos:        position{line: 2815, col: 23, offset: 89385},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2814, col: 27, offset: 89446},
+																pos:        position{line: 2815, col: 27, offset: 89389},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48710,10 +48710,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2932, col: 10, offset: 92824},
+										pos: position{line: 2933, col: 10, offset: 92767},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2932, col: 10, offset: 92824},
+											pos:        position{line: 2933, col: 10, offset: 92767},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48721,31 +48721,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78475},
+										pos:  position{line: 2424, col: 11, offset: 78430},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89639},
+										pos: position{line: 2823, col: 5, offset: 89582},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &choiceExpr{
-											pos: position{line: 2823, col: 9, offset: 89649},
+											pos: position{line: 2824, col: 9, offset: 89592},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2823, col: 10, offset: 89650},
+													pos:        position{line: 2824, col: 10, offset: 89593},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2825, col: 13, offset: 89747},
+													pos: position{line: 2826, col: 13, offset: 89690},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2825, col: 13, offset: 89747},
+															pos: position{line: 2826, col: 13, offset: 89690},
 															run: (*parser).callonAttributeStructuredValueElement39,
 														},
 														&litMatcher{
-															pos:        position{line: 2828, col: 13, offset: 89847},
+															pos:        position{line: 2829, col: 13, offset: 89790},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48753,20 +48753,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 19, offset: 89853},
+													pos:        position{line: 2829, col: 19, offset: 89796},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 13, offset: 89891},
+													pos: position{line: 2832, col: 13, offset: 89834},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2831, col: 13, offset: 89891},
+															pos: position{line: 2832, col: 13, offset: 89834},
 															run: (*parser).callonAttributeStructuredValueElement43,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2834, col: 14, offset: 89984},
+															pos:        position{line: 2835, col: 14, offset: 89927},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48775,18 +48775,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 12, offset: 90028},
+													pos: position{line: 2837, col: 12, offset: 89971},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2836, col: 12, offset: 90028},
+															pos:        position{line: 2837, col: 12, offset: 89971},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2836, col: 16, offset: 90032},
+															pos: position{line: 2837, col: 16, offset: 89975},
 															expr: &litMatcher{
-																pos:        position{line: 2836, col: 17, offset: 90033},
+																pos:        position{line: 2837, col: 17, offset: 89976},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48798,31 +48798,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78548},
+										pos:  position{line: 2426, col: 11, offset: 78503},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78564},
+										pos:  position{line: 2427, col: 11, offset: 78519},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2489, col: 5, offset: 80072},
+										pos: position{line: 2490, col: 5, offset: 80027},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 2489, col: 5, offset: 80072},
+											pos: position{line: 2490, col: 5, offset: 80027},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80072},
+													pos: position{line: 2490, col: 5, offset: 80027},
 													run: (*parser).callonAttributeStructuredValueElement53,
 												},
 												&labeledExpr{
-													pos:   position{line: 2492, col: 5, offset: 80148},
+													pos:   position{line: 2493, col: 5, offset: 80103},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2493, col: 9, offset: 80166},
+														pos: position{line: 2494, col: 9, offset: 80121},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &charClassMatcher{
-															pos:        position{line: 2493, col: 10, offset: 80167},
+															pos:        position{line: 2494, col: 10, offset: 80122},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48873,25 +48873,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2941, col: 12, offset: 92995},
+										pos: position{line: 2942, col: 12, offset: 92938},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &choiceExpr{
-											pos: position{line: 2941, col: 13, offset: 92996},
+											pos: position{line: 2942, col: 13, offset: 92939},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2941, col: 13, offset: 92996},
+													pos:        position{line: 2942, col: 13, offset: 92939},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 20, offset: 93003},
+													pos:        position{line: 2942, col: 20, offset: 92946},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2941, col: 29, offset: 93012},
+													pos:        position{line: 2942, col: 29, offset: 92955},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48900,10 +48900,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90293},
+										pos: position{line: 2845, col: 12, offset: 90236},
 										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90293},
+											pos:        position{line: 2845, col: 12, offset: 90236},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48919,49 +48919,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2437, col: 1, offset: 78834},
+			pos:  position{line: 2438, col: 1, offset: 78789},
 			expr: &actionExpr{
-				pos: position{line: 2439, col: 5, offset: 78916},
+				pos: position{line: 2440, col: 5, offset: 78871},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2439, col: 5, offset: 78916},
+					pos: position{line: 2440, col: 5, offset: 78871},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2439, col: 5, offset: 78916},
+							pos: position{line: 2440, col: 5, offset: 78871},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2442, col: 5, offset: 78981},
+							pos:   position{line: 2443, col: 5, offset: 78936},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2443, col: 9, offset: 78999},
+								pos: position{line: 2444, col: 9, offset: 78954},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 9, offset: 78999},
+										pos:  position{line: 2444, col: 9, offset: 78954},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 79020},
+										pos:  position{line: 2445, col: 11, offset: 78975},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 79043},
+										pos:  position{line: 2446, col: 11, offset: 78998},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79059},
+										pos:  position{line: 2447, col: 11, offset: 79014},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79088},
+										pos:  position{line: 2448, col: 11, offset: 79043},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79114},
+										pos:  position{line: 2449, col: 11, offset: 79069},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79140},
+										pos:  position{line: 2450, col: 11, offset: 79095},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -48980,12 +48980,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2917, col: 7, offset: 92476},
+														pos: position{line: 2918, col: 7, offset: 92419},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2917, col: 7, offset: 92476},
+															pos: position{line: 2918, col: 7, offset: 92419},
 															expr: &charClassMatcher{
-																pos:        position{line: 2917, col: 7, offset: 92476},
+																pos:        position{line: 2918, col: 7, offset: 92419},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49004,27 +49004,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1291, col: 5, offset: 39843},
+										pos: position{line: 1291, col: 5, offset: 39837},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1291, col: 5, offset: 39843},
+											pos: position{line: 1291, col: 5, offset: 39837},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1291, col: 5, offset: 39843},
+													pos:        position{line: 1291, col: 5, offset: 39837},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1291, col: 10, offset: 39848},
+													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2917, col: 7, offset: 92476},
+														pos: position{line: 2918, col: 7, offset: 92419},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2917, col: 7, offset: 92476},
+															pos: position{line: 2918, col: 7, offset: 92419},
 															expr: &charClassMatcher{
-																pos:        position{line: 2917, col: 7, offset: 92476},
+																pos:        position{line: 2918, col: 7, offset: 92419},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49034,7 +49034,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1291, col: 18, offset: 39856},
+													pos:        position{line: 1291, col: 18, offset: 39850},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -49043,40 +49043,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1330, col: 23, offset: 41332},
+										pos: position{line: 1330, col: 23, offset: 41326},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1330, col: 23, offset: 41332},
+											pos: position{line: 1330, col: 23, offset: 41326},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1330, col: 23, offset: 41332},
+													pos:        position{line: 1330, col: 23, offset: 41326},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1330, col: 29, offset: 41338},
+													pos:   position{line: 1330, col: 29, offset: 41332},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1337, col: 30, offset: 41669},
+														pos: position{line: 1337, col: 30, offset: 41663},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1337, col: 30, offset: 41669},
+															pos: position{line: 1337, col: 30, offset: 41663},
 															expr: &choiceExpr{
-																pos: position{line: 1337, col: 31, offset: 41670},
+																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 88772},
+																		pos:        position{line: 2787, col: 13, offset: 88715},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2932, col: 10, offset: 92824},
+																		pos: position{line: 2933, col: 10, offset: 92767},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2932, col: 10, offset: 92824},
+																			pos:        position{line: 2933, col: 10, offset: 92767},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49089,23 +49089,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1331, col: 5, offset: 41377},
+													pos:   position{line: 1331, col: 5, offset: 41371},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1331, col: 11, offset: 41383},
+														pos: position{line: 1331, col: 11, offset: 41377},
 														expr: &actionExpr{
-															pos: position{line: 1331, col: 12, offset: 41384},
+															pos: position{line: 1331, col: 12, offset: 41378},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1331, col: 12, offset: 41384},
+																pos: position{line: 1331, col: 12, offset: 41378},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 12, offset: 41384},
+																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49114,18 +49114,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1331, col: 19, offset: 41391},
+																		pos:        position{line: 1331, col: 19, offset: 41385},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 23, offset: 41395},
+																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49134,28 +49134,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1331, col: 30, offset: 41402},
+																		pos:   position{line: 1331, col: 30, offset: 41396},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41669},
+																			pos: position{line: 1337, col: 30, offset: 41663},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41669},
+																				pos: position{line: 1337, col: 30, offset: 41663},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41670},
+																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 88772},
+																							pos:        position{line: 2787, col: 13, offset: 88715},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49173,23 +49173,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1332, col: 5, offset: 41469},
+													pos:   position{line: 1332, col: 5, offset: 41463},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1332, col: 11, offset: 41475},
+														pos: position{line: 1332, col: 11, offset: 41469},
 														expr: &actionExpr{
-															pos: position{line: 1332, col: 12, offset: 41476},
+															pos: position{line: 1332, col: 12, offset: 41470},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1332, col: 12, offset: 41476},
+																pos: position{line: 1332, col: 12, offset: 41470},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 12, offset: 41476},
+																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49198,18 +49198,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1332, col: 19, offset: 41483},
+																		pos:        position{line: 1332, col: 19, offset: 41477},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 23, offset: 41487},
+																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2932, col: 10, offset: 92824},
+																			pos: position{line: 2933, col: 10, offset: 92767},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2932, col: 10, offset: 92824},
+																				pos:        position{line: 2933, col: 10, offset: 92767},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49218,28 +49218,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1332, col: 30, offset: 41494},
+																		pos:   position{line: 1332, col: 30, offset: 41488},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41669},
+																			pos: position{line: 1337, col: 30, offset: 41663},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41669},
+																				pos: position{line: 1337, col: 30, offset: 41663},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41670},
+																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 88772},
+																							pos:        position{line: 2787, col: 13, offset: 88715},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2932, col: 10, offset: 92824},
+																							pos: position{line: 2933, col: 10, offset: 92767},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2932, col: 10, offset: 92824},
+																								pos:        position{line: 2933, col: 10, offset: 92767},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49257,7 +49257,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1333, col: 5, offset: 41561},
+													pos:        position{line: 1333, col: 5, offset: 41555},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -49266,15 +49266,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2452, col: 11, offset: 79219},
+										pos:  position{line: 2453, col: 11, offset: 79174},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79239},
+										pos:  position{line: 2454, col: 11, offset: 79194},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 79262},
+										pos:  position{line: 2455, col: 11, offset: 79217},
 										name: "InlineMenu",
 									},
 								},
@@ -49286,80 +49286,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2458, col: 1, offset: 79319},
+			pos:  position{line: 2459, col: 1, offset: 79274},
 			expr: &actionExpr{
-				pos: position{line: 2460, col: 5, offset: 79407},
+				pos: position{line: 2461, col: 5, offset: 79362},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2460, col: 5, offset: 79407},
+					pos: position{line: 2461, col: 5, offset: 79362},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2460, col: 5, offset: 79407},
+							pos: position{line: 2461, col: 5, offset: 79362},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2463, col: 5, offset: 79484},
+							pos:   position{line: 2464, col: 5, offset: 79439},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2464, col: 9, offset: 79502},
+								pos: position{line: 2465, col: 9, offset: 79457},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1412, col: 26, offset: 44939},
+										pos: position{line: 1412, col: 26, offset: 44933},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1412, col: 26, offset: 44939},
+											pos: position{line: 1412, col: 26, offset: 44933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44907},
+													pos:        position{line: 1410, col: 32, offset: 44901},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1412, col: 54, offset: 44967},
+													pos:   position{line: 1412, col: 54, offset: 44961},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1416, col: 33, offset: 45180},
+														pos: position{line: 1416, col: 33, offset: 45174},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1416, col: 34, offset: 45181},
+																pos: position{line: 1416, col: 34, offset: 45175},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1416, col: 34, offset: 45181},
+																	pos: position{line: 1416, col: 34, offset: 45175},
 																	expr: &seqExpr{
-																		pos: position{line: 1416, col: 35, offset: 45182},
+																		pos: position{line: 1416, col: 35, offset: 45176},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1416, col: 35, offset: 45182},
+																				pos: position{line: 1416, col: 35, offset: 45176},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44907},
+																					pos:        position{line: 1410, col: 32, offset: 44901},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1416, col: 64, offset: 45211,
+																				line: 1416, col: 64, offset: 45205,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1418, col: 11, offset: 45384},
+																pos: position{line: 1418, col: 11, offset: 45378},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1418, col: 11, offset: 45384},
+																	pos: position{line: 1418, col: 11, offset: 45378},
 																	expr: &seqExpr{
-																		pos: position{line: 1418, col: 12, offset: 45385},
+																		pos: position{line: 1418, col: 12, offset: 45379},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1418, col: 12, offset: 45385},
+																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2932, col: 10, offset: 92824},
+																					pos: position{line: 2933, col: 10, offset: 92767},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2932, col: 10, offset: 92824},
+																						pos:        position{line: 2933, col: 10, offset: 92767},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49368,27 +49368,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 19, offset: 45392},
+																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2941, col: 12, offset: 92995},
+																					pos: position{line: 2942, col: 12, offset: 92938},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2941, col: 13, offset: 92996},
+																						pos: position{line: 2942, col: 13, offset: 92939},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 13, offset: 92996},
+																								pos:        position{line: 2942, col: 13, offset: 92939},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 20, offset: 93003},
+																								pos:        position{line: 2942, col: 20, offset: 92946},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2941, col: 29, offset: 93012},
+																								pos:        position{line: 2942, col: 29, offset: 92955},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49398,16 +49398,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 28, offset: 45401},
+																				pos: position{line: 1418, col: 28, offset: 45395},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44907},
+																					pos:        position{line: 1410, col: 32, offset: 44901},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1418, col: 57, offset: 45430,
+																				line: 1418, col: 57, offset: 45424,
 																			},
 																		},
 																	},
@@ -49417,15 +49417,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44907},
+													pos:        position{line: 1410, col: 32, offset: 44901},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1412, col: 121, offset: 45034},
+													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88772},
+														pos:        position{line: 2787, col: 13, offset: 88715},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49436,45 +49436,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1400, col: 26, offset: 44222},
+										pos: position{line: 1400, col: 26, offset: 44216},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1400, col: 26, offset: 44222},
+											pos: position{line: 1400, col: 26, offset: 44216},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44192},
+													pos:        position{line: 1398, col: 32, offset: 44186},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1400, col: 54, offset: 44250},
+													pos:   position{line: 1400, col: 54, offset: 44244},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1404, col: 33, offset: 44463},
+														pos: position{line: 1404, col: 33, offset: 44457},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1404, col: 34, offset: 44464},
+																pos: position{line: 1404, col: 34, offset: 44458},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1404, col: 34, offset: 44464},
+																	pos: position{line: 1404, col: 34, offset: 44458},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1404, col: 35, offset: 44465},
+																			pos: position{line: 1404, col: 35, offset: 44459},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44192},
+																				pos:        position{line: 1398, col: 32, offset: 44186},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 64, offset: 44494},
+																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49483,27 +49483,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 71, offset: 44501},
+																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49513,25 +49513,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1404, col: 80, offset: 44510,
+																			line: 1404, col: 80, offset: 44504,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1404, col: 83, offset: 44513},
+																			pos: position{line: 1404, col: 83, offset: 44507},
 																			expr: &seqExpr{
-																				pos: position{line: 1404, col: 84, offset: 44514},
+																				pos: position{line: 1404, col: 84, offset: 44508},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1404, col: 84, offset: 44514},
+																						pos: position{line: 1404, col: 84, offset: 44508},
 																						expr: &seqExpr{
-																							pos: position{line: 1404, col: 86, offset: 44516},
+																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2936, col: 11, offset: 92885},
+																									pos: position{line: 2937, col: 11, offset: 92828},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2936, col: 11, offset: 92885},
+																										pos: position{line: 2937, col: 11, offset: 92828},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2936, col: 11, offset: 92885},
+																											pos:        position{line: 2937, col: 11, offset: 92828},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49540,7 +49540,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1398, col: 32, offset: 44192},
+																									pos:        position{line: 1398, col: 32, offset: 44186},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -49549,36 +49549,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 122, offset: 44552},
+																						pos: position{line: 1404, col: 122, offset: 44546},
 																						expr: &litMatcher{
-																							pos:        position{line: 1398, col: 32, offset: 44192},
+																							pos:        position{line: 1398, col: 32, offset: 44186},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 151, offset: 44581},
+																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2941, col: 12, offset: 92995},
+																							pos: position{line: 2942, col: 12, offset: 92938},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2941, col: 13, offset: 92996},
+																								pos: position{line: 2942, col: 13, offset: 92939},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 13, offset: 92996},
+																										pos:        position{line: 2942, col: 13, offset: 92939},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 20, offset: 93003},
+																										pos:        position{line: 2942, col: 20, offset: 92946},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2941, col: 29, offset: 93012},
+																										pos:        position{line: 2942, col: 29, offset: 92955},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49588,7 +49588,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1404, col: 160, offset: 44590,
+																						line: 1404, col: 160, offset: 44584,
 																					},
 																				},
 																			},
@@ -49597,18 +49597,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1406, col: 11, offset: 44740},
+																pos: position{line: 1406, col: 11, offset: 44734},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1406, col: 12, offset: 44741},
+																	pos: position{line: 1406, col: 12, offset: 44735},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1406, col: 12, offset: 44741},
+																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2932, col: 10, offset: 92824},
+																				pos: position{line: 2933, col: 10, offset: 92767},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 10, offset: 92824},
+																					pos:        position{line: 2933, col: 10, offset: 92767},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49617,27 +49617,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 19, offset: 44748},
+																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2941, col: 12, offset: 92995},
+																				pos: position{line: 2942, col: 12, offset: 92938},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2941, col: 13, offset: 92996},
+																					pos: position{line: 2942, col: 13, offset: 92939},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 13, offset: 92996},
+																							pos:        position{line: 2942, col: 13, offset: 92939},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 20, offset: 93003},
+																							pos:        position{line: 2942, col: 20, offset: 92946},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2941, col: 29, offset: 93012},
+																							pos:        position{line: 2942, col: 29, offset: 92955},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49647,16 +49647,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 28, offset: 44757},
+																			pos: position{line: 1406, col: 28, offset: 44751},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44192},
+																				pos:        position{line: 1398, col: 32, offset: 44186},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1406, col: 57, offset: 44786,
+																			line: 1406, col: 57, offset: 44780,
 																		},
 																	},
 																},
@@ -49665,15 +49665,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44192},
+													pos:        position{line: 1398, col: 32, offset: 44186},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1400, col: 121, offset: 44317},
+													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88772},
+														pos:        position{line: 2787, col: 13, offset: 88715},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49684,7 +49684,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2464, col: 57, offset: 79550},
+										pos:  position{line: 2465, col: 57, offset: 79505},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49696,16 +49696,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2469, col: 1, offset: 79610},
+			pos:  position{line: 2470, col: 1, offset: 79565},
 			expr: &seqExpr{
-				pos: position{line: 2471, col: 5, offset: 79686},
+				pos: position{line: 2472, col: 5, offset: 79641},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2471, col: 5, offset: 79686},
+						pos: position{line: 2472, col: 5, offset: 79641},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2474, col: 5, offset: 79751},
+						pos:  position{line: 2475, col: 5, offset: 79706},
 						name: "QuotedText",
 					},
 				},
@@ -49713,22 +49713,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2476, col: 1, offset: 79764},
+			pos:  position{line: 2477, col: 1, offset: 79719},
 			expr: &actionExpr{
-				pos: position{line: 2478, col: 5, offset: 79846},
+				pos: position{line: 2479, col: 5, offset: 79801},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2478, col: 5, offset: 79846},
+					pos: position{line: 2479, col: 5, offset: 79801},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2478, col: 5, offset: 79846},
+							pos: position{line: 2479, col: 5, offset: 79801},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2481, col: 5, offset: 79917},
+							pos:   position{line: 2482, col: 5, offset: 79872},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2482, col: 9, offset: 79935},
+								pos:  position{line: 2483, col: 9, offset: 79890},
 								name: "Symbol",
 							},
 						},
@@ -49738,103 +49738,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2537, col: 1, offset: 81694},
+			pos:  position{line: 2538, col: 1, offset: 81643},
 			expr: &choiceExpr{
-				pos: position{line: 2539, col: 5, offset: 81724},
+				pos: position{line: 2540, col: 5, offset: 81673},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81724},
+						pos: position{line: 2540, col: 5, offset: 81673},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81724},
+							pos: position{line: 2540, col: 5, offset: 81673},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81724},
+									pos:        position{line: 2540, col: 5, offset: 81673},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2539, col: 10, offset: 81729},
+									pos: position{line: 2540, col: 10, offset: 81678},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2539, col: 10, offset: 81729},
+											pos:  position{line: 2540, col: 10, offset: 81678},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 14, offset: 82833},
+											pos: position{line: 2569, col: 14, offset: 82776},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 14, offset: 82833},
+												pos:        position{line: 2569, col: 14, offset: 82776},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 14, offset: 82899},
+											pos: position{line: 2573, col: 14, offset: 82842},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 14, offset: 82899},
+												pos:        position{line: 2573, col: 14, offset: 82842},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 15, offset: 82968},
+											pos: position{line: 2577, col: 15, offset: 82911},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 15, offset: 82968},
+												pos:        position{line: 2577, col: 15, offset: 82911},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 13, offset: 83033},
+											pos: position{line: 2581, col: 13, offset: 82976},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 13, offset: 83033},
+												pos:        position{line: 2581, col: 13, offset: 82976},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2608, col: 21, offset: 83603},
+											pos: position{line: 2609, col: 21, offset: 83546},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2608, col: 21, offset: 83603},
+												pos:        position{line: 2609, col: 21, offset: 83546},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2587, col: 5, offset: 83189},
+											pos: position{line: 2588, col: 5, offset: 83132},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2587, col: 5, offset: 83189},
+												pos: position{line: 2588, col: 5, offset: 83132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2587, col: 5, offset: 83189},
+														pos:        position{line: 2588, col: 5, offset: 83132},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2588, col: 5, offset: 83199},
+														pos: position{line: 2589, col: 5, offset: 83142},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2592, col: 6, offset: 83286},
+														pos: position{line: 2593, col: 6, offset: 83229},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2932, col: 10, offset: 92824},
+																pos: position{line: 2933, col: 10, offset: 92767},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2932, col: 10, offset: 92824},
+																	pos:        position{line: 2933, col: 10, offset: 92767},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49842,30 +49842,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2592, col: 14, offset: 83294},
+																pos: position{line: 2593, col: 14, offset: 83237},
 																expr: &choiceExpr{
-																	pos: position{line: 2954, col: 8, offset: 93222},
+																	pos: position{line: 2955, col: 8, offset: 93165},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2941, col: 12, offset: 92995},
+																			pos: position{line: 2942, col: 12, offset: 92938},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2941, col: 13, offset: 92996},
+																				pos: position{line: 2942, col: 13, offset: 92939},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 13, offset: 92996},
+																						pos:        position{line: 2942, col: 13, offset: 92939},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 20, offset: 93003},
+																						pos:        position{line: 2942, col: 20, offset: 92946},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2941, col: 29, offset: 93012},
+																						pos:        position{line: 2942, col: 29, offset: 92955},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49874,9 +49874,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2951, col: 8, offset: 93172},
+																			pos: position{line: 2952, col: 8, offset: 93115},
 																			expr: &anyMatcher{
-																				line: 2951, col: 9, offset: 93173,
+																				line: 2952, col: 9, offset: 93116,
 																			},
 																		},
 																	},
@@ -49888,53 +49888,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2597, col: 5, offset: 83414},
+											pos: position{line: 2598, col: 5, offset: 83357},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2597, col: 5, offset: 83414},
+												pos: position{line: 2598, col: 5, offset: 83357},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2597, col: 5, offset: 83414},
+														pos:        position{line: 2598, col: 5, offset: 83357},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2598, col: 5, offset: 83424},
+														pos: position{line: 2599, col: 5, offset: 83367},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2602, col: 5, offset: 83513},
+														pos: position{line: 2603, col: 5, offset: 83456},
 														expr: &choiceExpr{
-															pos: position{line: 2602, col: 7, offset: 83515},
+															pos: position{line: 2603, col: 7, offset: 83458},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2786, col: 13, offset: 88772},
+																	pos:        position{line: 2787, col: 13, offset: 88715},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2941, col: 12, offset: 92995},
+																	pos: position{line: 2942, col: 12, offset: 92938},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2941, col: 13, offset: 92996},
+																		pos: position{line: 2942, col: 13, offset: 92939},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 13, offset: 92996},
+																				pos:        position{line: 2942, col: 13, offset: 92939},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 20, offset: 93003},
+																				pos:        position{line: 2942, col: 20, offset: 92946},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 29, offset: 93012},
+																				pos:        position{line: 2942, col: 29, offset: 92955},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49943,9 +49943,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -49955,30 +49955,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 20, offset: 83673},
+											pos: position{line: 2613, col: 20, offset: 83616},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2612, col: 20, offset: 83673},
+												pos:        position{line: 2613, col: 20, offset: 83616},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 21, offset: 83744},
+											pos: position{line: 2617, col: 21, offset: 83687},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2616, col: 21, offset: 83744},
+												pos:        position{line: 2617, col: 21, offset: 83687},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 20, offset: 83814},
+											pos: position{line: 2621, col: 20, offset: 83757},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2620, col: 20, offset: 83814},
+												pos:        position{line: 2621, col: 20, offset: 83757},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -49990,73 +49990,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2543, col: 7, offset: 81984},
+						pos:  position{line: 2544, col: 7, offset: 81927},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 14, offset: 82833},
+						pos: position{line: 2569, col: 14, offset: 82776},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 14, offset: 82833},
+							pos:        position{line: 2569, col: 14, offset: 82776},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 14, offset: 82899},
+						pos: position{line: 2573, col: 14, offset: 82842},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 14, offset: 82899},
+							pos:        position{line: 2573, col: 14, offset: 82842},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 15, offset: 82968},
+						pos: position{line: 2577, col: 15, offset: 82911},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 15, offset: 82968},
+							pos:        position{line: 2577, col: 15, offset: 82911},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 13, offset: 83033},
+						pos: position{line: 2581, col: 13, offset: 82976},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 13, offset: 83033},
+							pos:        position{line: 2581, col: 13, offset: 82976},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 5, offset: 83189},
+						pos: position{line: 2588, col: 5, offset: 83132},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 5, offset: 83189},
+							pos: position{line: 2588, col: 5, offset: 83132},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 5, offset: 83189},
+									pos:        position{line: 2588, col: 5, offset: 83132},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2588, col: 5, offset: 83199},
+									pos: position{line: 2589, col: 5, offset: 83142},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2592, col: 6, offset: 83286},
+									pos: position{line: 2593, col: 6, offset: 83229},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2932, col: 10, offset: 92824},
+											pos: position{line: 2933, col: 10, offset: 92767},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2932, col: 10, offset: 92824},
+												pos:        position{line: 2933, col: 10, offset: 92767},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50064,30 +50064,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2592, col: 14, offset: 83294},
+											pos: position{line: 2593, col: 14, offset: 83237},
 											expr: &choiceExpr{
-												pos: position{line: 2954, col: 8, offset: 93222},
+												pos: position{line: 2955, col: 8, offset: 93165},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2941, col: 12, offset: 92995},
+														pos: position{line: 2942, col: 12, offset: 92938},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2941, col: 13, offset: 92996},
+															pos: position{line: 2942, col: 13, offset: 92939},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2941, col: 13, offset: 92996},
+																	pos:        position{line: 2942, col: 13, offset: 92939},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 20, offset: 93003},
+																	pos:        position{line: 2942, col: 20, offset: 92946},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2941, col: 29, offset: 93012},
+																	pos:        position{line: 2942, col: 29, offset: 92955},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50096,9 +50096,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2951, col: 8, offset: 93172},
+														pos: position{line: 2952, col: 8, offset: 93115},
 														expr: &anyMatcher{
-															line: 2951, col: 9, offset: 93173,
+															line: 2952, col: 9, offset: 93116,
 														},
 													},
 												},
@@ -50110,53 +50110,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 5, offset: 83414},
+						pos: position{line: 2598, col: 5, offset: 83357},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2597, col: 5, offset: 83414},
+							pos: position{line: 2598, col: 5, offset: 83357},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2597, col: 5, offset: 83414},
+									pos:        position{line: 2598, col: 5, offset: 83357},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2598, col: 5, offset: 83424},
+									pos: position{line: 2599, col: 5, offset: 83367},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2602, col: 5, offset: 83513},
+									pos: position{line: 2603, col: 5, offset: 83456},
 									expr: &choiceExpr{
-										pos: position{line: 2602, col: 7, offset: 83515},
+										pos: position{line: 2603, col: 7, offset: 83458},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88772},
+												pos:        position{line: 2787, col: 13, offset: 88715},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2941, col: 12, offset: 92995},
+												pos: position{line: 2942, col: 12, offset: 92938},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2941, col: 13, offset: 92996},
+													pos: position{line: 2942, col: 13, offset: 92939},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2941, col: 13, offset: 92996},
+															pos:        position{line: 2942, col: 13, offset: 92939},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 20, offset: 93003},
+															pos:        position{line: 2942, col: 20, offset: 92946},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2941, col: 29, offset: 93012},
+															pos:        position{line: 2942, col: 29, offset: 92955},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50165,9 +50165,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2951, col: 8, offset: 93172},
+												pos: position{line: 2952, col: 8, offset: 93115},
 												expr: &anyMatcher{
-													line: 2951, col: 9, offset: 93173,
+													line: 2952, col: 9, offset: 93116,
 												},
 											},
 										},
@@ -50177,40 +50177,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2608, col: 21, offset: 83603},
+						pos: position{line: 2609, col: 21, offset: 83546},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2608, col: 21, offset: 83603},
+							pos:        position{line: 2609, col: 21, offset: 83546},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2612, col: 20, offset: 83673},
+						pos: position{line: 2613, col: 20, offset: 83616},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2612, col: 20, offset: 83673},
+							pos:        position{line: 2613, col: 20, offset: 83616},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 21, offset: 83744},
+						pos: position{line: 2617, col: 21, offset: 83687},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2616, col: 21, offset: 83744},
+							pos:        position{line: 2617, col: 21, offset: 83687},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 20, offset: 83814},
+						pos: position{line: 2621, col: 20, offset: 83757},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2620, col: 20, offset: 83814},
+							pos:        position{line: 2621, col: 20, offset: 83757},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50221,43 +50221,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2554, col: 1, offset: 82174},
+			pos:  position{line: 2555, col: 1, offset: 82117},
 			expr: &choiceExpr{
-				pos: position{line: 2555, col: 5, offset: 82196},
+				pos: position{line: 2556, col: 5, offset: 82139},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2555, col: 5, offset: 82196},
+						pos: position{line: 2556, col: 5, offset: 82139},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 5, offset: 82196},
+							pos: position{line: 2556, col: 5, offset: 82139},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 5, offset: 82196},
+									pos:        position{line: 2556, col: 5, offset: 82139},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2555, col: 11, offset: 82202},
+									pos: position{line: 2556, col: 11, offset: 82145},
 									expr: &seqExpr{
-										pos: position{line: 2118, col: 5, offset: 68406},
+										pos: position{line: 2118, col: 5, offset: 68364},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2118, col: 5, offset: 68406},
+												pos:        position{line: 2118, col: 5, offset: 68364},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2119, col: 5, offset: 68415},
+												pos: position{line: 2119, col: 5, offset: 68373},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2123, col: 5, offset: 68538},
+												pos: position{line: 2123, col: 5, offset: 68496},
 												expr: &notExpr{
-													pos: position{line: 2123, col: 7, offset: 68540},
+													pos: position{line: 2123, col: 7, offset: 68498},
 													expr: &litMatcher{
-														pos:        position{line: 2123, col: 8, offset: 68541},
+														pos:        position{line: 2123, col: 8, offset: 68499},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50271,21 +50271,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 7, offset: 82355},
+						pos: position{line: 2559, col: 7, offset: 82298},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 7, offset: 82355},
+							pos: position{line: 2559, col: 7, offset: 82298},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 7, offset: 82355},
+									pos:        position{line: 2559, col: 7, offset: 82298},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2558, col: 13, offset: 82361},
+									pos: position{line: 2559, col: 13, offset: 82304},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2558, col: 14, offset: 82362},
+										pos:  position{line: 2559, col: 14, offset: 82305},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50293,38 +50293,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 7, offset: 82512},
+						pos: position{line: 2562, col: 7, offset: 82455},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2561, col: 7, offset: 82512},
+							pos: position{line: 2562, col: 7, offset: 82455},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2561, col: 7, offset: 82512},
+									pos:        position{line: 2562, col: 7, offset: 82455},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2561, col: 12, offset: 82517},
+									pos: position{line: 2562, col: 12, offset: 82460},
 									expr: &seqExpr{
-										pos: position{line: 2118, col: 5, offset: 68406},
+										pos: position{line: 2118, col: 5, offset: 68364},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2118, col: 5, offset: 68406},
+												pos:        position{line: 2118, col: 5, offset: 68364},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2119, col: 5, offset: 68415},
+												pos: position{line: 2119, col: 5, offset: 68373},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2123, col: 5, offset: 68538},
+												pos: position{line: 2123, col: 5, offset: 68496},
 												expr: &notExpr{
-													pos: position{line: 2123, col: 7, offset: 68540},
+													pos: position{line: 2123, col: 7, offset: 68498},
 													expr: &litMatcher{
-														pos:        position{line: 2123, col: 8, offset: 68541},
+														pos:        position{line: 2123, col: 8, offset: 68499},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50338,21 +50338,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 7, offset: 82670},
+						pos: position{line: 2565, col: 7, offset: 82613},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2564, col: 7, offset: 82670},
+							pos: position{line: 2565, col: 7, offset: 82613},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2564, col: 7, offset: 82670},
+									pos:        position{line: 2565, col: 7, offset: 82613},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2564, col: 12, offset: 82675},
+									pos: position{line: 2565, col: 12, offset: 82618},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2564, col: 13, offset: 82676},
+										pos:  position{line: 2565, col: 13, offset: 82619},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50364,63 +50364,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2697, col: 1, offset: 85716},
+			pos:  position{line: 2698, col: 1, offset: 85659},
 			expr: &actionExpr{
-				pos: position{line: 2697, col: 26, offset: 85741},
+				pos: position{line: 2698, col: 26, offset: 85684},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2697, col: 26, offset: 85741},
+					pos: position{line: 2698, col: 26, offset: 85684},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2697, col: 26, offset: 85741},
+							pos:   position{line: 2698, col: 26, offset: 85684},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2697, col: 31, offset: 85746},
+								pos: position{line: 2698, col: 31, offset: 85689},
 								expr: &actionExpr{
-									pos: position{line: 2702, col: 5, offset: 85809},
+									pos: position{line: 2703, col: 5, offset: 85752},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2702, col: 5, offset: 85809},
+										pos: position{line: 2703, col: 5, offset: 85752},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2949, col: 11, offset: 93158},
+												pos: position{line: 2950, col: 11, offset: 93101},
 												expr: &anyMatcher{
-													line: 2949, col: 13, offset: 93160,
+													line: 2950, col: 13, offset: 93103,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 85935},
+												pos:   position{line: 2706, col: 5, offset: 85878},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 16, offset: 85946},
+													pos: position{line: 2706, col: 16, offset: 85889},
 													expr: &actionExpr{
-														pos: position{line: 2705, col: 17, offset: 85947},
+														pos: position{line: 2706, col: 17, offset: 85890},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2705, col: 17, offset: 85947},
+															pos: position{line: 2706, col: 17, offset: 85890},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2705, col: 17, offset: 85947},
+																	pos:   position{line: 2706, col: 17, offset: 85890},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2924, col: 12, offset: 92651},
+																		pos: position{line: 2925, col: 12, offset: 92594},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2924, col: 13, offset: 92652},
+																			pos: position{line: 2925, col: 13, offset: 92595},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2924, col: 13, offset: 92652},
+																					pos: position{line: 2925, col: 13, offset: 92595},
 																					expr: &litMatcher{
-																						pos:        position{line: 2924, col: 13, offset: 92652},
+																						pos:        position{line: 2925, col: 13, offset: 92595},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2924, col: 18, offset: 92657},
+																					pos: position{line: 2925, col: 18, offset: 92600},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2924, col: 18, offset: 92657},
+																						pos:        position{line: 2925, col: 18, offset: 92600},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50432,7 +50432,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2705, col: 27, offset: 85957},
+																	pos:        position{line: 2706, col: 27, offset: 85900},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50443,38 +50443,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2706, col: 5, offset: 85985},
+												pos:   position{line: 2707, col: 5, offset: 85928},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2706, col: 12, offset: 85992},
+													pos: position{line: 2707, col: 12, offset: 85935},
 													expr: &choiceExpr{
-														pos: position{line: 2707, col: 9, offset: 86002},
+														pos: position{line: 2708, col: 9, offset: 85945},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2707, col: 9, offset: 86002},
+																pos: position{line: 2708, col: 9, offset: 85945},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 9, offset: 86002},
+																	pos:        position{line: 2708, col: 9, offset: 85945},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2708, col: 11, offset: 86049},
+																pos: position{line: 2709, col: 11, offset: 85992},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 11, offset: 86049},
+																	pos:        position{line: 2709, col: 11, offset: 85992},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2709, col: 11, offset: 86097},
+																pos: position{line: 2710, col: 11, offset: 86040},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2709, col: 11, offset: 86097},
+																	pos:        position{line: 2710, col: 11, offset: 86040},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50485,38 +50485,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2711, col: 5, offset: 86147},
+												pos:   position{line: 2712, col: 5, offset: 86090},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2711, col: 12, offset: 86154},
+													pos: position{line: 2712, col: 12, offset: 86097},
 													expr: &choiceExpr{
-														pos: position{line: 2712, col: 9, offset: 86164},
+														pos: position{line: 2713, col: 9, offset: 86107},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2712, col: 9, offset: 86164},
+																pos: position{line: 2713, col: 9, offset: 86107},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2712, col: 9, offset: 86164},
+																	pos:        position{line: 2713, col: 9, offset: 86107},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 11, offset: 86211},
+																pos: position{line: 2714, col: 11, offset: 86154},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 11, offset: 86211},
+																	pos:        position{line: 2714, col: 11, offset: 86154},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2714, col: 11, offset: 86261},
+																pos: position{line: 2715, col: 11, offset: 86204},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2714, col: 11, offset: 86261},
+																	pos:        position{line: 2715, col: 11, offset: 86204},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50527,32 +50527,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2716, col: 5, offset: 86312},
+												pos:   position{line: 2717, col: 5, offset: 86255},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2716, col: 12, offset: 86319},
+													pos: position{line: 2717, col: 12, offset: 86262},
 													expr: &choiceExpr{
-														pos: position{line: 2716, col: 13, offset: 86320},
+														pos: position{line: 2717, col: 13, offset: 86263},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2924, col: 12, offset: 92651},
+																pos: position{line: 2925, col: 12, offset: 92594},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2924, col: 13, offset: 92652},
+																	pos: position{line: 2925, col: 13, offset: 92595},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2924, col: 13, offset: 92652},
+																			pos: position{line: 2925, col: 13, offset: 92595},
 																			expr: &litMatcher{
-																				pos:        position{line: 2924, col: 13, offset: 92652},
+																				pos:        position{line: 2925, col: 13, offset: 92595},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2924, col: 18, offset: 92657},
+																			pos: position{line: 2925, col: 18, offset: 92600},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2924, col: 18, offset: 92657},
+																				pos:        position{line: 2925, col: 18, offset: 92600},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50563,10 +50563,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2716, col: 24, offset: 86331},
+																pos: position{line: 2717, col: 24, offset: 86274},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 24, offset: 86331},
+																	pos:        position{line: 2717, col: 24, offset: 86274},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50577,15 +50577,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2717, col: 5, offset: 86373},
+												pos:   position{line: 2718, col: 5, offset: 86316},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2717, col: 11, offset: 86379},
+													pos: position{line: 2718, col: 11, offset: 86322},
 													expr: &actionExpr{
-														pos: position{line: 2717, col: 12, offset: 86380},
+														pos: position{line: 2718, col: 12, offset: 86323},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2717, col: 12, offset: 86380},
+															pos:        position{line: 2718, col: 12, offset: 86323},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50595,12 +50595,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2719, col: 5, offset: 86510},
+												pos:   position{line: 2720, col: 5, offset: 86453},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2719, col: 11, offset: 86516},
+													pos: position{line: 2720, col: 11, offset: 86459},
 													expr: &litMatcher{
-														pos:        position{line: 2719, col: 12, offset: 86517},
+														pos:        position{line: 2720, col: 12, offset: 86460},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50608,7 +50608,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2720, col: 5, offset: 86527},
+												pos: position{line: 2721, col: 5, offset: 86470},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50617,9 +50617,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2951, col: 8, offset: 93172},
+							pos: position{line: 2952, col: 8, offset: 93115},
 							expr: &anyMatcher{
-								line: 2951, col: 9, offset: 93173,
+								line: 2952, col: 9, offset: 93116,
 							},
 						},
 					},
@@ -50628,23 +50628,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2747, col: 1, offset: 87536},
+			pos:  position{line: 2748, col: 1, offset: 87479},
 			expr: &actionExpr{
-				pos: position{line: 2748, col: 5, offset: 87559},
+				pos: position{line: 2749, col: 5, offset: 87502},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2748, col: 5, offset: 87559},
+					pos: position{line: 2749, col: 5, offset: 87502},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87559},
+							pos:   position{line: 2749, col: 5, offset: 87502},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2771, col: 18, offset: 88305},
+								pos: position{line: 2772, col: 18, offset: 88248},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2771, col: 19, offset: 88306},
+									pos: position{line: 2772, col: 19, offset: 88249},
 									expr: &charClassMatcher{
-										pos:        position{line: 2771, col: 19, offset: 88306},
+										pos:        position{line: 2772, col: 19, offset: 88249},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50655,39 +50655,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2749, col: 5, offset: 87585},
+							pos: position{line: 2750, col: 5, offset: 87528},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2753, col: 5, offset: 87713},
+							pos:        position{line: 2754, col: 5, offset: 87656},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87723},
+							pos:   position{line: 2755, col: 5, offset: 87666},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 24, offset: 88467},
+								pos: position{line: 2780, col: 24, offset: 88410},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2779, col: 24, offset: 88467},
+									pos: position{line: 2780, col: 24, offset: 88410},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 25, offset: 88468},
+										pos: position{line: 2780, col: 25, offset: 88411},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2779, col: 25, offset: 88468},
+												pos: position{line: 2780, col: 25, offset: 88411},
 												expr: &litMatcher{
-													pos:        position{line: 2779, col: 26, offset: 88469},
+													pos:        position{line: 2780, col: 26, offset: 88412},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2779, col: 30, offset: 88473},
+												pos: position{line: 2780, col: 30, offset: 88416},
 												expr: &charClassMatcher{
-													pos:        position{line: 2779, col: 30, offset: 88473},
+													pos:        position{line: 2780, col: 30, offset: 88416},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50695,23 +50695,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2779, col: 41, offset: 88484},
+												pos: position{line: 2780, col: 41, offset: 88427},
 												expr: &seqExpr{
-													pos: position{line: 2779, col: 42, offset: 88485},
+													pos: position{line: 2780, col: 42, offset: 88428},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2779, col: 42, offset: 88485},
+															pos: position{line: 2780, col: 42, offset: 88428},
 															expr: &litMatcher{
-																pos:        position{line: 2779, col: 42, offset: 88485},
+																pos:        position{line: 2780, col: 42, offset: 88428},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2779, col: 47, offset: 88490},
+															pos: position{line: 2780, col: 47, offset: 88433},
 															expr: &charClassMatcher{
-																pos:        position{line: 2779, col: 47, offset: 88490},
+																pos:        position{line: 2780, col: 47, offset: 88433},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50727,36 +50727,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2755, col: 5, offset: 87756},
+							pos:   position{line: 2756, col: 5, offset: 87699},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2755, col: 17, offset: 87768},
+								pos:  position{line: 2756, col: 17, offset: 87711},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2954, col: 8, offset: 93222},
+							pos: position{line: 2955, col: 8, offset: 93165},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2941, col: 12, offset: 92995},
+									pos: position{line: 2942, col: 12, offset: 92938},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2941, col: 13, offset: 92996},
+										pos: position{line: 2942, col: 13, offset: 92939},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2941, col: 13, offset: 92996},
+												pos:        position{line: 2942, col: 13, offset: 92939},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 20, offset: 93003},
+												pos:        position{line: 2942, col: 20, offset: 92946},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2941, col: 29, offset: 93012},
+												pos:        position{line: 2942, col: 29, offset: 92955},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50765,9 +50765,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2951, col: 8, offset: 93172},
+									pos: position{line: 2952, col: 8, offset: 93115},
 									expr: &anyMatcher{
-										line: 2951, col: 9, offset: 93173,
+										line: 2952, col: 9, offset: 93116,
 									},
 								},
 							},
@@ -50778,23 +50778,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2759, col: 1, offset: 87916},
+			pos:  position{line: 2760, col: 1, offset: 87859},
 			expr: &actionExpr{
-				pos: position{line: 2760, col: 5, offset: 87940},
+				pos: position{line: 2761, col: 5, offset: 87883},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2760, col: 5, offset: 87940},
+					pos: position{line: 2761, col: 5, offset: 87883},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2760, col: 5, offset: 87940},
+							pos:   position{line: 2761, col: 5, offset: 87883},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2771, col: 18, offset: 88305},
+								pos: position{line: 2772, col: 18, offset: 88248},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2771, col: 19, offset: 88306},
+									pos: position{line: 2772, col: 19, offset: 88249},
 									expr: &charClassMatcher{
-										pos:        position{line: 2771, col: 19, offset: 88306},
+										pos:        position{line: 2772, col: 19, offset: 88249},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50805,39 +50805,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2761, col: 5, offset: 87966},
+							pos: position{line: 2762, col: 5, offset: 87909},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2765, col: 5, offset: 88094},
+							pos:        position{line: 2766, col: 5, offset: 88037},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2766, col: 5, offset: 88103},
+							pos:   position{line: 2767, col: 5, offset: 88046},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 19, offset: 88381},
+								pos: position{line: 2776, col: 19, offset: 88324},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2775, col: 19, offset: 88381},
+									pos: position{line: 2776, col: 19, offset: 88324},
 									expr: &seqExpr{
-										pos: position{line: 2775, col: 20, offset: 88382},
+										pos: position{line: 2776, col: 20, offset: 88325},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2775, col: 20, offset: 88382},
+												pos: position{line: 2776, col: 20, offset: 88325},
 												expr: &litMatcher{
-													pos:        position{line: 2775, col: 21, offset: 88383},
+													pos:        position{line: 2776, col: 21, offset: 88326},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2775, col: 25, offset: 88387},
+												pos: position{line: 2776, col: 25, offset: 88330},
 												expr: &charClassMatcher{
-													pos:        position{line: 2775, col: 25, offset: 88387},
+													pos:        position{line: 2776, col: 25, offset: 88330},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50850,10 +50850,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2767, col: 5, offset: 88131},
+							pos:   position{line: 2768, col: 5, offset: 88074},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2767, col: 17, offset: 88143},
+								pos:  position{line: 2768, col: 17, offset: 88086},
 								name: "InlineAttributes",
 							},
 						},
@@ -50863,43 +50863,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2859, col: 1, offset: 90632},
+			pos:  position{line: 2860, col: 1, offset: 90575},
 			expr: &actionExpr{
-				pos: position{line: 2859, col: 17, offset: 90648},
+				pos: position{line: 2860, col: 17, offset: 90591},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2859, col: 17, offset: 90648},
+					pos:   position{line: 2860, col: 17, offset: 90591},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2880, col: 5, offset: 91233},
+						pos: position{line: 2881, col: 5, offset: 91176},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2880, col: 5, offset: 91233},
+							pos:   position{line: 2881, col: 5, offset: 91176},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 14, offset: 91242},
+								pos: position{line: 2881, col: 14, offset: 91185},
 								expr: &choiceExpr{
-									pos: position{line: 2881, col: 9, offset: 91252},
+									pos: position{line: 2882, col: 9, offset: 91195},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2881, col: 9, offset: 91252},
+											pos: position{line: 2882, col: 9, offset: 91195},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2881, col: 9, offset: 91252},
+												pos: position{line: 2882, col: 9, offset: 91195},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2881, col: 9, offset: 91252},
+														pos: position{line: 2882, col: 9, offset: 91195},
 														expr: &litMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91253},
+															pos:        position{line: 2882, col: 10, offset: 91196},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2882, col: 9, offset: 91281},
+														pos: position{line: 2883, col: 9, offset: 91224},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 10, offset: 91282},
+															pos:        position{line: 2883, col: 10, offset: 91225},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50910,27 +50910,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2885, col: 11, offset: 91494},
+											pos: position{line: 2886, col: 11, offset: 91437},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2885, col: 11, offset: 91494},
+													pos:        position{line: 2886, col: 11, offset: 91437},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2885, col: 19, offset: 91502},
+													pos: position{line: 2886, col: 19, offset: 91445},
 													expr: &seqExpr{
-														pos: position{line: 2885, col: 21, offset: 91504},
+														pos: position{line: 2886, col: 21, offset: 91447},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2885, col: 21, offset: 91504},
+																pos: position{line: 2886, col: 21, offset: 91447},
 																expr: &actionExpr{
-																	pos: position{line: 2932, col: 10, offset: 92824},
+																	pos: position{line: 2933, col: 10, offset: 92767},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2932, col: 10, offset: 92824},
+																		pos:        position{line: 2933, col: 10, offset: 92767},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50939,11 +50939,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 28, offset: 91511},
+																pos: position{line: 2886, col: 28, offset: 91454},
 																expr: &notExpr{
-																	pos: position{line: 2951, col: 8, offset: 93172},
+																	pos: position{line: 2952, col: 8, offset: 93115},
 																	expr: &anyMatcher{
-																		line: 2951, col: 9, offset: 93173,
+																		line: 2952, col: 9, offset: 93116,
 																	},
 																},
 															},
@@ -51338,10 +51338,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2888, col: 11, offset: 91631},
+											pos: position{line: 2889, col: 11, offset: 91574},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2888, col: 11, offset: 91631},
+												pos:        position{line: 2889, col: 11, offset: 91574},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -62475,7 +62475,7 @@ func (p *parser) callonFootnoteElement32() (interface{}, error) {
 
 func (c *current) onFootnoteElement35() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
-	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
@@ -63538,7 +63538,7 @@ func (p *parser) callonRelativeLink6() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink2(url, attributes interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
@@ -64094,7 +64094,7 @@ func (p *parser) callonExternalLink6() (interface{}, error) {
 }
 
 func (c *current) onExternalLink2(url, attributes interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
@@ -74386,7 +74386,7 @@ func (p *parser) callonQuotedTextElement27() (interface{}, error) {
 
 func (c *current) onQuotedTextElement31() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
-	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
@@ -74876,7 +74876,7 @@ func (p *parser) callonEscapedBoldText5() (interface{}, error) {
 
 func (c *current) onEscapedBoldText2(backslashes, elements interface{}) (interface{}, error) {
 
-	return types.NewEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
 
 }
 
@@ -74900,7 +74900,7 @@ func (p *parser) callonEscapedBoldText17() (interface{}, error) {
 func (c *current) onEscapedBoldText14(backslashes, elements interface{}) (interface{}, error) {
 
 	result := append([]interface{}{"*"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "*", result)
+	return c.newEscapedQuotedText(backslashes.(string), "*", result)
 
 }
 
@@ -74923,7 +74923,7 @@ func (p *parser) callonEscapedBoldText27() (interface{}, error) {
 
 func (c *current) onEscapedBoldText24(backslashes, elements interface{}) (interface{}, error) {
 
-	return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
 
 }
 
@@ -75062,7 +75062,7 @@ func (p *parser) callonEscapedItalicText5() (interface{}, error) {
 }
 
 func (c *current) onEscapedItalicText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
 
 }
 
@@ -75086,7 +75086,7 @@ func (p *parser) callonEscapedItalicText17() (interface{}, error) {
 func (c *current) onEscapedItalicText14(backslashes, elements interface{}) (interface{}, error) {
 	// unbalanced `__` vs `_` punctuation
 	result := append([]interface{}{"_"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "_", result)
+	return c.newEscapedQuotedText(backslashes.(string), "_", result)
 
 }
 
@@ -75109,7 +75109,7 @@ func (p *parser) callonEscapedItalicText27() (interface{}, error) {
 
 func (c *current) onEscapedItalicText24(backslashes, elements interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
-	return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
 
 }
 
@@ -75237,7 +75237,7 @@ func (p *parser) callonEscapedMonospaceText5() (interface{}, error) {
 }
 
 func (c *current) onEscapedMonospaceText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
 
 }
 
@@ -75260,7 +75260,7 @@ func (p *parser) callonEscapedMonospaceText17() (interface{}, error) {
 
 func (c *current) onEscapedMonospaceText14(backslashes, elements interface{}) (interface{}, error) {
 	result := append([]interface{}{"`"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "`", result)
+	return c.newEscapedQuotedText(backslashes.(string), "`", result)
 
 }
 
@@ -75282,7 +75282,7 @@ func (p *parser) callonEscapedMonospaceText27() (interface{}, error) {
 }
 
 func (c *current) onEscapedMonospaceText24(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
 
 }
 
@@ -75422,7 +75422,7 @@ func (p *parser) callonEscapedMarkedText5() (interface{}, error) {
 }
 
 func (c *current) onEscapedMarkedText2(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
 
 }
 
@@ -75445,7 +75445,7 @@ func (p *parser) callonEscapedMarkedText17() (interface{}, error) {
 
 func (c *current) onEscapedMarkedText14(backslashes, elements interface{}) (interface{}, error) {
 	result := append([]interface{}{"#"}, elements.([]interface{}))
-	return types.NewEscapedQuotedText(backslashes.(string), "#", result)
+	return c.newEscapedQuotedText(backslashes.(string), "#", result)
 
 }
 
@@ -75467,7 +75467,7 @@ func (p *parser) callonEscapedMarkedText27() (interface{}, error) {
 }
 
 func (c *current) onEscapedMarkedText24(backslashes, elements interface{}) (interface{}, error) {
-	return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
+	return c.newEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
 
 }
 
@@ -75547,7 +75547,7 @@ func (p *parser) callonEscapedSubscriptText4() (interface{}, error) {
 
 func (c *current) onEscapedSubscriptText1(backslashes, element interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
-	return types.NewEscapedQuotedText(backslashes.(string), "~", element)
+	return c.newEscapedQuotedText(backslashes.(string), "~", element)
 
 }
 
@@ -75627,7 +75627,7 @@ func (p *parser) callonEscapedSuperscriptText4() (interface{}, error) {
 
 func (c *current) onEscapedSuperscriptText1(backslashes, element interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
-	return types.NewEscapedQuotedText(backslashes.(string), "^", element)
+	return c.newEscapedQuotedText(backslashes.(string), "^", element)
 
 }
 
@@ -75712,6 +75712,7 @@ func (p *parser) callonSection1() (interface{}, error) {
 func (c *current) onSectionTitle3() error {
 	// enable substitutions
 	c.withSubstitutions(headerSubstitutions())
+	c.withEscapedTexts()
 	return nil
 
 }
@@ -75826,7 +75827,7 @@ func (p *parser) callonSectionTitleElement39() (interface{}, error) {
 
 func (c *current) onSectionTitleElement42() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
-	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
@@ -76445,7 +76446,7 @@ func (p *parser) callonSectionTitleElement267() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement263(id interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
@@ -76587,7 +76588,7 @@ func (p *parser) callonNormalGroup36() (interface{}, error) {
 
 func (c *current) onNormalGroup40() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
-	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
@@ -77252,7 +77253,7 @@ func (p *parser) callonInlineMacro17() (interface{}, error) {
 }
 
 func (c *current) onInlineMacro13(id interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
@@ -77828,7 +77829,7 @@ func (p *parser) callonSymbol51() (interface{}, error) {
 }
 
 func (c *current) onSymbol2() (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f9611c6..995f388 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1284,7 +1284,7 @@ FrontMatterLine <- (.)* {
 InlineAnchor <- 
     // escaped
     `\` "[[" id:(Id) "]]" {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
     }
     // unescaped
     /
@@ -1450,7 +1450,7 @@ BareURL <-
 RelativeLink <- 
     // escaped
     `\` "link:" url:(Location) attributes:(InlineAttributes) {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
     }
     /
     // unescaped
@@ -1462,7 +1462,7 @@ ExternalLink <-
     // escaped
     // TODO: do not attempt to parse url and attributes here, and support escaped element once for all at a higher level     
     `\` url:(LocationWithScheme) attributes:(InlineAttributes)? {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
     }
     /
     // unescaped
@@ -1977,16 +1977,16 @@ SingleQuoteBoldTextElement <-
 EscapedBoldText <- 
     // double escape: \\**not bold**
     backslashes:(TwoOrMoreBackslashes) "**" elements:(DoubleQuoteBoldTextElements) "**" { 
-        return types.NewEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
     } 
     // unbalanced double escape: \\**not bold*
     / backslashes:(OneOrMoreBackslashes) "**" elements:(SingleQuoteBoldTextElements) "*" { 
         result := append([]interface{}{"*"}, elements.([]interface{}))
-        return types.NewEscapedQuotedText(backslashes.(string), "*", result)
+        return c.newEscapedQuotedText(backslashes.(string), "*", result)
     } 
     // single escape: \*not bold*
     / backslashes:(OneOrMoreBackslashes) "*" elements:(SingleQuoteBoldTextElements) "*" { 
-        return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
     }
 
 // ---------------------------------------------------------
@@ -2067,16 +2067,16 @@ SingleQuoteItalicTextElement <-
 EscapedItalicText <- 
     // double escape: \\__not italic__
     backslashes:(TwoOrMoreBackslashes) "__" elements:(DoubleQuoteItalicTextElements) "__" {
-        return types.NewEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
     } 
     // unbalanced double escape: \\__not italic_
     / backslashes:(OneOrMoreBackslashes) "__" elements:(SingleQuoteItalicTextElements) "_" { // unbalanced `__` vs `_` punctuation
         result := append([]interface{}{"_"}, elements.([]interface{}))
-        return types.NewEscapedQuotedText(backslashes.(string), "_", result)
+        return c.newEscapedQuotedText(backslashes.(string), "_", result)
     } 
     // single escape: \_not italic_
     / backslashes:(OneOrMoreBackslashes) "_" elements:(SingleQuoteItalicTextElements) "_" { // simple punctuation must be evaluated last
-        return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
     } 
 
 // ------------------------------------------------------------------
@@ -2159,16 +2159,16 @@ SingleQuoteMonospaceTextElement <-
 EscapedMonospaceText <- 
     // double escape: \\``not monospace``
     backslashes:(TwoOrMoreBackslashes) "``" elements:(DoubleQuoteMonospaceTextElements) "``" {
-        return types.NewEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
     } 
     // unbalanced double escape: \\``not monospace``
     / backslashes:(OneOrMoreBackslashes) "``" elements:(SingleQuoteMonospaceTextElements) "`" {
         result := append([]interface{}{"`"}, elements.([]interface{}))
-        return types.NewEscapedQuotedText(backslashes.(string), "`", result)
+        return c.newEscapedQuotedText(backslashes.(string), "`", result)
     } 
     // single escape: \`not monospace`
     / backslashes:(OneOrMoreBackslashes) "`" elements:(SingleQuoteMonospaceTextElements) "`" {
-        return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
     }
 
 // ---------------------------------------------------------
@@ -2248,16 +2248,16 @@ SingleQuoteMarkedTextElement <-
 EscapedMarkedText <-
     // double escape: \\##not marked##
     backslashes:(TwoOrMoreBackslashes) "##" elements:(DoubleQuoteMarkedTextElements) "##" {
-        return types.NewEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
     } 
     // unbalanced double escape: \\##not marked#
     / backslashes:(OneOrMoreBackslashes) "##" elements:(SingleQuoteMarkedTextElements) "#" {
         result := append([]interface{}{"#"}, elements.([]interface{}))
-        return types.NewEscapedQuotedText(backslashes.(string), "#", result)
+        return c.newEscapedQuotedText(backslashes.(string), "#", result)
     } 
     // single escape: \#not marked#
     / backslashes:(OneOrMoreBackslashes) "#" elements:(SingleQuoteMarkedTextElements) "#" {
-        return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
+        return c.newEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
     }
 
 // ---------------------------------------------------------------
@@ -2284,7 +2284,7 @@ EscapedSubscriptText <-
     SubscriptTextDelimiter 
     element:(SubscriptTextElement)
     SubscriptTextDelimiter { // simple punctuation must be evaluated last
-        return types.NewEscapedQuotedText(backslashes.(string), "~", element)
+        return c.newEscapedQuotedText(backslashes.(string), "~", element)
     } 
 
 // -----------------------
@@ -2311,7 +2311,7 @@ EscapedSuperscriptText <-
     SuperscriptTextDelimiter 
     element:(SuperscriptTextElement) 
     SuperscriptTextDelimiter { // simple punctuation must be evaluated last
-        return types.NewEscapedQuotedText(backslashes.(string), "^", element)
+        return c.newEscapedQuotedText(backslashes.(string), "^", element)
     } 
 
 // -------------------------------------------------------------------------------------
@@ -2338,6 +2338,7 @@ SectionTitle <-
     #{
         // enable substitutions
         c.withSubstitutions(headerSubstitutions())
+        c.withEscapedTexts()
         return nil
     }
     elements:(SectionTitleElement)+ { 
@@ -2519,7 +2520,7 @@ TypographicQuote <-
     // escaped
     `\'` &[\pL] {
         //log.Debug("matched escaped apostrophe")
-        return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
+        return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
     }
     /
     // unescaped
@@ -2537,7 +2538,7 @@ TypographicQuote <-
 Symbol <- 
     // escaped
     `\` (QuotationMark / Copyright / Trademark / Registered / Ellipsis / SingleRightArrow / Mdash / SingleLeftArrow / DoubleRightArrow / DoubleLeftArrow) {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
     }
     // unescaped
     / QuotationMark 
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 11e722a..114cf2d 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -121,6 +121,49 @@ func (p *parser) next() (val interface{}, err error) {
 	return val, p.errs.err()
 }
 
+const trackEscapedTextsKey = "track_escaped_texts"
+
+// trackEscapedTexts parser option to keep track of the texts which were escaped (and whose backslashes are discarded),
+// since they must remain as-is if the content is parsed again
+func trackEscapedTexts(enabled bool) Option {
+	return GlobalStore(trackEscapedTextsKey, enabled)
+}
+
+// withEscapedTexts same as above, but within the current rule
+func (c *current) withEscapedTexts() {
+	c.state[trackEscapedTextsKey] = true
+}
+
+// escapedText a text which was escaped and which must not be parsed again
+type escapedText struct {
+	content string
+}
+
+func (c *current) newEscapedText(content string) (interface{}, error) {
+	for _, store := range []storeDict{c.state, c.globalStore} {
+		if enabled, ok := store[trackEscapedTextsKey].(bool); ok && enabled {
+			return &escapedText{content: content}, nil
+		}
+	}
+	return types.NewStringElement(content)
+}
+
+func (c *current) newEscapedQuotedText(backslashes string, marker string, content interface{}) ([]interface{}, error) {
+	elements, err := types.NewEscapedQuotedText(backslashes, marker, content)
+	if err != nil {
+		return nil, err
+	}
+	// the markers are escaped, but not the content
+	for i, e := range elements {
+		if s, ok := e.(*types.StringElement); ok && (i == 0 || i == len(elements)-1) {
+			if elements[i], err = c.newEscapedText(s.Content); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return elements, nil
+}
+
 const suffixTrackingKey = "element_suffix_tracking"
 
 func (c *current) trackElement(element interface{}) {
-- 
2.43.0


From 4ff00edb86f790b94a1f034636a4f929228e8409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:04 +0000
Subject: [PATCH 095/117] fix: format the text at the beginning of
 unconstrained text after a letter

---
 pkg/parser/parser.go  | 10662 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    46 +-
 2 files changed, 5461 insertions(+), 5247 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 838eaa5..5d4acd8 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2925, col: 12, offset: 92594},
+																pos: position{line: 2947, col: 12, offset: 93400},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2925, col: 13, offset: 92595},
+																	pos: position{line: 2947, col: 13, offset: 93401},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2925, col: 13, offset: 92595},
+																			pos: position{line: 2947, col: 13, offset: 93401},
 																			expr: &litMatcher{
-																				pos:        position{line: 2925, col: 13, offset: 92595},
+																				pos:        position{line: 2947, col: 13, offset: 93401},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2925, col: 18, offset: 92600},
+																			pos: position{line: 2947, col: 18, offset: 93406},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2925, col: 18, offset: 92600},
+																				pos:        position{line: 2947, col: 18, offset: 93406},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2925, col: 12, offset: 92594},
+																pos: position{line: 2947, col: 12, offset: 93400},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2925, col: 13, offset: 92595},
+																	pos: position{line: 2947, col: 13, offset: 93401},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2925, col: 13, offset: 92595},
+																			pos: position{line: 2947, col: 13, offset: 93401},
 																			expr: &litMatcher{
-																				pos:        position{line: 2925, col: 13, offset: 92595},
+																				pos:        position{line: 2947, col: 13, offset: 93401},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2925, col: 18, offset: 92600},
+																			pos: position{line: 2947, col: 18, offset: 93406},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2925, col: 18, offset: 92600},
+																				pos:        position{line: 2947, col: 18, offset: 93406},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2787, col: 13, offset: 88715},
+														pos:        position{line: 2809, col: 13, offset: 89521},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2937, col: 11, offset: 92828},
+													pos: position{line: 2959, col: 11, offset: 93634},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2937, col: 11, offset: 92828},
+														pos: position{line: 2959, col: 11, offset: 93634},
 														expr: &charClassMatcher{
-															pos:        position{line: 2937, col: 11, offset: 92828},
+															pos:        position{line: 2959, col: 11, offset: 93634},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 14, offset: 90521},
+													pos: position{line: 2878, col: 14, offset: 91327},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 14, offset: 90521},
+														pos: position{line: 2878, col: 14, offset: 91327},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 14, offset: 90521},
+															pos:        position{line: 2878, col: 14, offset: 91327},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 17, offset: 90591},
+												pos: position{line: 2882, col: 17, offset: 91397},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2860, col: 17, offset: 90591},
+													pos:   position{line: 2882, col: 17, offset: 91397},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2925, col: 12, offset: 92594},
+																				pos: position{line: 2947, col: 12, offset: 93400},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2925, col: 13, offset: 92595},
+																					pos: position{line: 2947, col: 13, offset: 93401},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2925, col: 13, offset: 92595},
+																							pos: position{line: 2947, col: 13, offset: 93401},
 																							expr: &litMatcher{
-																								pos:        position{line: 2925, col: 13, offset: 92595},
+																								pos:        position{line: 2947, col: 13, offset: 93401},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2925, col: 18, offset: 92600},
+																							pos: position{line: 2947, col: 18, offset: 93406},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2925, col: 18, offset: 92600},
+																								pos:        position{line: 2947, col: 18, offset: 93406},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2925, col: 12, offset: 92594},
+																				pos: position{line: 2947, col: 12, offset: 93400},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2925, col: 13, offset: 92595},
+																					pos: position{line: 2947, col: 13, offset: 93401},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2925, col: 13, offset: 92595},
+																							pos: position{line: 2947, col: 13, offset: 93401},
 																							expr: &litMatcher{
-																								pos:        position{line: 2925, col: 13, offset: 92595},
+																								pos:        position{line: 2947, col: 13, offset: 93401},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2925, col: 18, offset: 92600},
+																							pos: position{line: 2947, col: 18, offset: 93406},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2925, col: 18, offset: 92600},
+																								pos:        position{line: 2947, col: 18, offset: 93406},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2925, col: 12, offset: 92594},
+																		pos: position{line: 2947, col: 12, offset: 93400},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2925, col: 13, offset: 92595},
+																			pos: position{line: 2947, col: 13, offset: 93401},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2925, col: 13, offset: 92595},
+																					pos: position{line: 2947, col: 13, offset: 93401},
 																					expr: &litMatcher{
-																						pos:        position{line: 2925, col: 13, offset: 92595},
+																						pos:        position{line: 2947, col: 13, offset: 93401},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2925, col: 18, offset: 92600},
+																					pos: position{line: 2947, col: 18, offset: 93406},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2925, col: 18, offset: 92600},
+																						pos:        position{line: 2947, col: 18, offset: 93406},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2925, col: 12, offset: 92594},
+																									pos: position{line: 2947, col: 12, offset: 93400},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2925, col: 13, offset: 92595},
+																										pos: position{line: 2947, col: 13, offset: 93401},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2925, col: 13, offset: 92595},
+																												pos: position{line: 2947, col: 13, offset: 93401},
 																												expr: &litMatcher{
-																													pos:        position{line: 2925, col: 13, offset: 92595},
+																													pos:        position{line: 2947, col: 13, offset: 93401},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2925, col: 18, offset: 92600},
+																												pos: position{line: 2947, col: 18, offset: 93406},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2925, col: 18, offset: 92600},
+																													pos:        position{line: 2947, col: 18, offset: 93406},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2925, col: 12, offset: 92594},
+																									pos: position{line: 2947, col: 12, offset: 93400},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2925, col: 13, offset: 92595},
+																										pos: position{line: 2947, col: 13, offset: 93401},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2925, col: 13, offset: 92595},
+																												pos: position{line: 2947, col: 13, offset: 93401},
 																												expr: &litMatcher{
-																													pos:        position{line: 2925, col: 13, offset: 92595},
+																													pos:        position{line: 2947, col: 13, offset: 93401},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2925, col: 18, offset: 92600},
+																												pos: position{line: 2947, col: 18, offset: 93406},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2925, col: 18, offset: 92600},
+																													pos:        position{line: 2947, col: 18, offset: 93406},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2925, col: 12, offset: 92594},
+																							pos: position{line: 2947, col: 12, offset: 93400},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2925, col: 13, offset: 92595},
+																								pos: position{line: 2947, col: 13, offset: 93401},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2925, col: 13, offset: 92595},
+																										pos: position{line: 2947, col: 13, offset: 93401},
 																										expr: &litMatcher{
-																											pos:        position{line: 2925, col: 13, offset: 92595},
+																											pos:        position{line: 2947, col: 13, offset: 93401},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2925, col: 18, offset: 92600},
+																										pos: position{line: 2947, col: 18, offset: 93406},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2925, col: 18, offset: 92600},
+																											pos:        position{line: 2947, col: 18, offset: 93406},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2925, col: 12, offset: 92594},
+														pos: position{line: 2947, col: 12, offset: 93400},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2925, col: 13, offset: 92595},
+															pos: position{line: 2947, col: 13, offset: 93401},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2925, col: 13, offset: 92595},
+																	pos: position{line: 2947, col: 13, offset: 93401},
 																	expr: &litMatcher{
-																		pos:        position{line: 2925, col: 13, offset: 92595},
+																		pos:        position{line: 2947, col: 13, offset: 93401},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2925, col: 18, offset: 92600},
+																	pos: position{line: 2947, col: 18, offset: 93406},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2925, col: 18, offset: 92600},
+																		pos:        position{line: 2947, col: 18, offset: 93406},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2925, col: 12, offset: 92594},
+														pos: position{line: 2947, col: 12, offset: 93400},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2925, col: 13, offset: 92595},
+															pos: position{line: 2947, col: 13, offset: 93401},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2925, col: 13, offset: 92595},
+																	pos: position{line: 2947, col: 13, offset: 93401},
 																	expr: &litMatcher{
-																		pos:        position{line: 2925, col: 13, offset: 92595},
+																		pos:        position{line: 2947, col: 13, offset: 93401},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2925, col: 18, offset: 92600},
+																	pos: position{line: 2947, col: 18, offset: 93406},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2925, col: 18, offset: 92600},
+																		pos:        position{line: 2947, col: 18, offset: 93406},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2925, col: 12, offset: 92594},
+												pos: position{line: 2947, col: 12, offset: 93400},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2925, col: 13, offset: 92595},
+													pos: position{line: 2947, col: 13, offset: 93401},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2925, col: 13, offset: 92595},
+															pos: position{line: 2947, col: 13, offset: 93401},
 															expr: &litMatcher{
-																pos:        position{line: 2925, col: 13, offset: 92595},
+																pos:        position{line: 2947, col: 13, offset: 93401},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2925, col: 18, offset: 92600},
+															pos: position{line: 2947, col: 18, offset: 93406},
 															expr: &charClassMatcher{
-																pos:        position{line: 2925, col: 18, offset: 92600},
+																pos:        position{line: 2947, col: 18, offset: 93406},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2791, col: 14, offset: 88789},
+																		pos: position{line: 2813, col: 14, offset: 89595},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2791, col: 14, offset: 88789},
+																			pos: position{line: 2813, col: 14, offset: 89595},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2791, col: 14, offset: 88789},
+																				pos:        position{line: 2813, col: 14, offset: 89595},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2791, col: 14, offset: 88789},
+																				pos: position{line: 2813, col: 14, offset: 89595},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2791, col: 14, offset: 88789},
+																					pos: position{line: 2813, col: 14, offset: 89595},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2791, col: 14, offset: 88789},
+																						pos:        position{line: 2813, col: 14, offset: 89595},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2791, col: 14, offset: 88789},
+																							pos: position{line: 2813, col: 14, offset: 89595},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2791, col: 14, offset: 88789},
+																								pos: position{line: 2813, col: 14, offset: 89595},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2791, col: 14, offset: 88789},
+																									pos:        position{line: 2813, col: 14, offset: 89595},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2791, col: 14, offset: 88789},
+																									pos: position{line: 2813, col: 14, offset: 89595},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2791, col: 14, offset: 88789},
+																										pos: position{line: 2813, col: 14, offset: 89595},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2791, col: 14, offset: 88789},
+																											pos:        position{line: 2813, col: 14, offset: 89595},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2791, col: 14, offset: 88789},
+																pos: position{line: 2813, col: 14, offset: 89595},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2791, col: 14, offset: 88789},
+																	pos: position{line: 2813, col: 14, offset: 89595},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2791, col: 14, offset: 88789},
+																		pos:        position{line: 2813, col: 14, offset: 89595},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2791, col: 14, offset: 88789},
+																pos: position{line: 2813, col: 14, offset: 89595},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2791, col: 14, offset: 88789},
+																	pos: position{line: 2813, col: 14, offset: 89595},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2791, col: 14, offset: 88789},
+																		pos:        position{line: 2813, col: 14, offset: 89595},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2950, col: 11, offset: 93101},
+														pos: position{line: 2972, col: 11, offset: 93907},
 														expr: &anyMatcher{
-															line: 2950, col: 13, offset: 93103,
+															line: 2972, col: 13, offset: 93909,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 14, offset: 90521},
+																			pos: position{line: 2878, col: 14, offset: 91327},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 14, offset: 90521},
+																				pos: position{line: 2878, col: 14, offset: 91327},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 14, offset: 90521},
+																					pos:        position{line: 2878, col: 14, offset: 91327},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2950, col: 11, offset: 93101},
+																									pos: position{line: 2972, col: 11, offset: 93907},
 																									expr: &anyMatcher{
-																										line: 2950, col: 13, offset: 93103,
+																										line: 2972, col: 13, offset: 93909,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2856, col: 14, offset: 90521},
+																						pos: position{line: 2878, col: 14, offset: 91327},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2856, col: 14, offset: 90521},
+																							pos: position{line: 2878, col: 14, offset: 91327},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 14, offset: 90521},
+																								pos:        position{line: 2878, col: 14, offset: 91327},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -7202,12 +7202,12 @@ var g = &grammar{
 																					pos:   position{line: 1824, col: 5, offset: 58892},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2856, col: 14, offset: 90521},
+																						pos: position{line: 2878, col: 14, offset: 91327},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2856, col: 14, offset: 90521},
+																							pos: position{line: 2878, col: 14, offset: 91327},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 14, offset: 90521},
+																								pos:        position{line: 2878, col: 14, offset: 91327},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,28 +7221,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2738, col: 18, offset: 87074},
+											pos: position{line: 2760, col: 18, offset: 87880},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2739, col: 9, offset: 87084},
+												pos: position{line: 2761, col: 9, offset: 87890},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2739, col: 9, offset: 87084},
+														pos: position{line: 2761, col: 9, offset: 87890},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2739, col: 9, offset: 87084},
+																pos:        position{line: 2761, col: 9, offset: 87890},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2739, col: 15, offset: 87090},
+																pos: position{line: 2761, col: 15, offset: 87896},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2740, col: 11, offset: 87123},
+														pos: position{line: 2762, col: 11, offset: 87929},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2740, col: 12, offset: 87124},
+																pos: position{line: 2762, col: 12, offset: 87930},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 12, offset: 87124},
+																		pos:        position{line: 2762, col: 12, offset: 87930},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 20, offset: 87132},
+																		pos:        position{line: 2762, col: 20, offset: 87938},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 30, offset: 87142},
+																		pos:        position{line: 2762, col: 30, offset: 87948},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 38, offset: 87150},
+																		pos:        position{line: 2762, col: 38, offset: 87956},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 48, offset: 87160},
+																		pos:        position{line: 2762, col: 48, offset: 87966},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2740, col: 56, offset: 87168},
+																		pos:        position{line: 2762, col: 56, offset: 87974},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2740, col: 65, offset: 87177},
+																pos: position{line: 2762, col: 65, offset: 87983},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2740, col: 76, offset: 87188},
+																pos: position{line: 2762, col: 76, offset: 87994},
 																expr: &choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2629, col: 5, offset: 84010},
+											pos: position{line: 2651, col: 5, offset: 84816},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2629, col: 5, offset: 84010},
+												pos: position{line: 2651, col: 5, offset: 84816},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2635, col: 19, offset: 84167},
+														pos:        position{line: 2657, col: 19, offset: 84973},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2635, col: 26, offset: 84174},
+														pos: position{line: 2657, col: 26, offset: 84980},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2630, col: 5, offset: 84034},
+														pos:   position{line: 2652, col: 5, offset: 84840},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2630, col: 11, offset: 84040},
+															pos: position{line: 2652, col: 11, offset: 84846},
 															expr: &choiceExpr{
-																pos: position{line: 2630, col: 12, offset: 84041},
+																pos: position{line: 2652, col: 12, offset: 84847},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2950, col: 11, offset: 93101},
+																					pos: position{line: 2972, col: 11, offset: 93907},
 																					expr: &anyMatcher{
-																						line: 2950, col: 13, offset: 93103,
+																						line: 2972, col: 13, offset: 93909,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2642, col: 5, offset: 84286},
+																		pos: position{line: 2664, col: 5, offset: 85092},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2642, col: 5, offset: 84286},
+																			pos: position{line: 2664, col: 5, offset: 85092},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2642, col: 5, offset: 84286},
+																					pos: position{line: 2664, col: 5, offset: 85092},
 																					expr: &choiceExpr{
-																						pos: position{line: 2639, col: 22, offset: 84247},
+																						pos: position{line: 2661, col: 22, offset: 85053},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2635, col: 19, offset: 84167},
+																								pos: position{line: 2657, col: 19, offset: 84973},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2635, col: 19, offset: 84167},
+																										pos:        position{line: 2657, col: 19, offset: 84973},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2635, col: 26, offset: 84174},
+																										pos: position{line: 2657, col: 26, offset: 84980},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2955, col: 8, offset: 93165},
+																										pos: position{line: 2977, col: 8, offset: 93971},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2942, col: 12, offset: 92938},
+																												pos: position{line: 2964, col: 12, offset: 93744},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2942, col: 13, offset: 92939},
+																													pos: position{line: 2964, col: 13, offset: 93745},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 13, offset: 92939},
+																															pos:        position{line: 2964, col: 13, offset: 93745},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 20, offset: 92946},
+																															pos:        position{line: 2964, col: 20, offset: 93752},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 29, offset: 92955},
+																															pos:        position{line: 2964, col: 29, offset: 93761},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2952, col: 8, offset: 93115},
+																												pos: position{line: 2974, col: 8, offset: 93921},
 																												expr: &anyMatcher{
-																													line: 2952, col: 9, offset: 93116,
+																													line: 2974, col: 9, offset: 93922,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2643, col: 5, offset: 84309},
+																					pos:   position{line: 2665, col: 5, offset: 85115},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2644, col: 9, offset: 84327},
+																						pos: position{line: 2666, col: 9, offset: 85133},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2644, col: 10, offset: 84328},
+																								pos: position{line: 2666, col: 10, offset: 85134},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2644, col: 10, offset: 84328},
+																									pos:   position{line: 2666, col: 10, offset: 85134},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2644, col: 17, offset: 84335},
+																										pos: position{line: 2666, col: 17, offset: 85141},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2652, col: 21, offset: 84531},
+																												pos: position{line: 2674, col: 21, offset: 85337},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2652, col: 21, offset: 84531},
+																													pos: position{line: 2674, col: 21, offset: 85337},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2652, col: 21, offset: 84531},
+																															pos:   position{line: 2674, col: 21, offset: 85337},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2652, col: 27, offset: 84537},
+																																pos: position{line: 2674, col: 27, offset: 85343},
 																																expr: &actionExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84612},
+																																	pos: position{line: 2679, col: 5, offset: 85418},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84612},
+																																		pos: position{line: 2679, col: 5, offset: 85418},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2657, col: 5, offset: 84612},
+																																				pos:        position{line: 2679, col: 5, offset: 85418},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2657, col: 9, offset: 84616},
+																																				pos: position{line: 2679, col: 9, offset: 85422},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2933, col: 10, offset: 92767},
+																																					pos: position{line: 2955, col: 10, offset: 93573},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2933, col: 10, offset: 92767},
+																																						pos:        position{line: 2955, col: 10, offset: 93573},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2657, col: 16, offset: 84623},
+																																				pos:   position{line: 2679, col: 16, offset: 85429},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2663, col: 5, offset: 84823},
+																																					pos: position{line: 2685, col: 5, offset: 85629},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2663, col: 5, offset: 84823},
+																																						pos:   position{line: 2685, col: 5, offset: 85629},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2663, col: 14, offset: 84832},
+																																							pos: position{line: 2685, col: 14, offset: 85638},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2663, col: 14, offset: 84832},
+																																								pos: position{line: 2685, col: 14, offset: 85638},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2663, col: 14, offset: 84832},
+																																									pos:        position{line: 2685, col: 14, offset: 85638},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2955, col: 8, offset: 93165},
+																															pos: position{line: 2977, col: 8, offset: 93971},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2942, col: 12, offset: 92938},
+																																	pos: position{line: 2964, col: 12, offset: 93744},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2942, col: 13, offset: 92939},
+																																		pos: position{line: 2964, col: 13, offset: 93745},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2942, col: 13, offset: 92939},
+																																				pos:        position{line: 2964, col: 13, offset: 93745},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2942, col: 20, offset: 92946},
+																																				pos:        position{line: 2964, col: 20, offset: 93752},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2942, col: 29, offset: 92955},
+																																				pos:        position{line: 2964, col: 29, offset: 93761},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2952, col: 8, offset: 93115},
+																																	pos: position{line: 2974, col: 8, offset: 93921},
 																																	expr: &anyMatcher{
-																																		line: 2952, col: 9, offset: 93116,
+																																		line: 2974, col: 9, offset: 93922,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2669, col: 24, offset: 84968},
+																												pos: position{line: 2691, col: 24, offset: 85774},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2669, col: 24, offset: 84968},
+																													pos:   position{line: 2691, col: 24, offset: 85774},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2669, col: 30, offset: 84974},
+																														pos: position{line: 2691, col: 30, offset: 85780},
 																														expr: &actionExpr{
-																															pos: position{line: 2674, col: 5, offset: 85050},
+																															pos: position{line: 2696, col: 5, offset: 85856},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2674, col: 5, offset: 85050},
+																																pos: position{line: 2696, col: 5, offset: 85856},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2674, col: 5, offset: 85050},
+																																		pos: position{line: 2696, col: 5, offset: 85856},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2639, col: 22, offset: 84247},
+																																			pos: position{line: 2661, col: 22, offset: 85053},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2635, col: 19, offset: 84167},
+																																					pos: position{line: 2657, col: 19, offset: 84973},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2635, col: 19, offset: 84167},
+																																							pos:        position{line: 2657, col: 19, offset: 84973},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2635, col: 26, offset: 84174},
+																																							pos: position{line: 2657, col: 26, offset: 84980},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2933, col: 10, offset: 92767},
+																																								pos: position{line: 2955, col: 10, offset: 93573},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2933, col: 10, offset: 92767},
+																																									pos:        position{line: 2955, col: 10, offset: 93573},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2955, col: 8, offset: 93165},
+																																							pos: position{line: 2977, col: 8, offset: 93971},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2942, col: 12, offset: 92938},
+																																									pos: position{line: 2964, col: 12, offset: 93744},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2942, col: 13, offset: 92939},
+																																										pos: position{line: 2964, col: 13, offset: 93745},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 13, offset: 92939},
+																																												pos:        position{line: 2964, col: 13, offset: 93745},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 20, offset: 92946},
+																																												pos:        position{line: 2964, col: 20, offset: 93752},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 29, offset: 92955},
+																																												pos:        position{line: 2964, col: 29, offset: 93761},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2952, col: 8, offset: 93115},
+																																									pos: position{line: 2974, col: 8, offset: 93921},
 																																									expr: &anyMatcher{
-																																										line: 2952, col: 9, offset: 93116,
+																																										line: 2974, col: 9, offset: 93922,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2952, col: 8, offset: 93115},
+																																					pos: position{line: 2974, col: 8, offset: 93921},
 																																					expr: &anyMatcher{
-																																						line: 2952, col: 9, offset: 93116,
+																																						line: 2974, col: 9, offset: 93922,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2675, col: 5, offset: 85073},
+																																		pos: position{line: 2697, col: 5, offset: 85879},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2950, col: 11, offset: 93101},
+																																						pos: position{line: 2972, col: 11, offset: 93907},
 																																						expr: &anyMatcher{
-																																							line: 2950, col: 13, offset: 93103,
+																																							line: 2972, col: 13, offset: 93909,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2933, col: 10, offset: 92767},
+																																							pos: position{line: 2955, col: 10, offset: 93573},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2933, col: 10, offset: 92767},
+																																								pos:        position{line: 2955, col: 10, offset: 93573},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2955, col: 8, offset: 93165},
+																																						pos: position{line: 2977, col: 8, offset: 93971},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2942, col: 12, offset: 92938},
+																																								pos: position{line: 2964, col: 12, offset: 93744},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2942, col: 13, offset: 92939},
+																																									pos: position{line: 2964, col: 13, offset: 93745},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 13, offset: 92939},
+																																											pos:        position{line: 2964, col: 13, offset: 93745},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 20, offset: 92946},
+																																											pos:        position{line: 2964, col: 20, offset: 93752},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 29, offset: 92955},
+																																											pos:        position{line: 2964, col: 29, offset: 93761},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2952, col: 8, offset: 93115},
+																																								pos: position{line: 2974, col: 8, offset: 93921},
 																																								expr: &anyMatcher{
-																																									line: 2952, col: 9, offset: 93116,
+																																									line: 2974, col: 9, offset: 93922,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2676, col: 5, offset: 85088},
+																																		pos:   position{line: 2698, col: 5, offset: 85894},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2676, col: 12, offset: 85095},
+																																			pos: position{line: 2698, col: 12, offset: 85901},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2693, col: 20, offset: 85559},
+																																				pos: position{line: 2715, col: 20, offset: 86365},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2693, col: 20, offset: 85559},
+																																					pos: position{line: 2715, col: 20, offset: 86365},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2693, col: 20, offset: 85559},
+																																						pos:        position{line: 2715, col: 20, offset: 86365},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2676, col: 31, offset: 85114},
+																																		pos:        position{line: 2698, col: 31, offset: 85920},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2676, col: 35, offset: 85118},
+																																		pos: position{line: 2698, col: 35, offset: 85924},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2933, col: 10, offset: 92767},
+																																			pos: position{line: 2955, col: 10, offset: 93573},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2933, col: 10, offset: 92767},
+																																				pos:        position{line: 2955, col: 10, offset: 93573},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2676, col: 42, offset: 85125},
+																																		pos: position{line: 2698, col: 42, offset: 85931},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2942, col: 12, offset: 92938},
+																																			pos: position{line: 2964, col: 12, offset: 93744},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2942, col: 13, offset: 92939},
+																																				pos: position{line: 2964, col: 13, offset: 93745},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2942, col: 13, offset: 92939},
+																																						pos:        position{line: 2964, col: 13, offset: 93745},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2942, col: 20, offset: 92946},
+																																						pos:        position{line: 2964, col: 20, offset: 93752},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2942, col: 29, offset: 92955},
+																																						pos:        position{line: 2964, col: 29, offset: 93761},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2676, col: 51, offset: 85134},
+																																		pos:   position{line: 2698, col: 51, offset: 85940},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2682, col: 5, offset: 85293},
+																																			pos: position{line: 2704, col: 5, offset: 86099},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2683, col: 9, offset: 85303},
+																																				pos: position{line: 2705, col: 9, offset: 86109},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2683, col: 9, offset: 85303},
+																																					pos: position{line: 2705, col: 9, offset: 86109},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2683, col: 9, offset: 85303},
+																																							pos: position{line: 2705, col: 9, offset: 86109},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2639, col: 22, offset: 84247},
+																																								pos: position{line: 2661, col: 22, offset: 85053},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2635, col: 19, offset: 84167},
+																																										pos: position{line: 2657, col: 19, offset: 84973},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2635, col: 19, offset: 84167},
+																																												pos:        position{line: 2657, col: 19, offset: 84973},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2635, col: 26, offset: 84174},
+																																												pos: position{line: 2657, col: 26, offset: 84980},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2933, col: 10, offset: 92767},
+																																													pos: position{line: 2955, col: 10, offset: 93573},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2933, col: 10, offset: 92767},
+																																														pos:        position{line: 2955, col: 10, offset: 93573},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2955, col: 8, offset: 93165},
+																																												pos: position{line: 2977, col: 8, offset: 93971},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2942, col: 12, offset: 92938},
+																																														pos: position{line: 2964, col: 12, offset: 93744},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2942, col: 13, offset: 92939},
+																																															pos: position{line: 2964, col: 13, offset: 93745},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2952, col: 8, offset: 93115},
+																																														pos: position{line: 2974, col: 8, offset: 93921},
 																																														expr: &anyMatcher{
-																																															line: 2952, col: 9, offset: 93116,
+																																															line: 2974, col: 9, offset: 93922,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2952, col: 8, offset: 93115},
+																																										pos: position{line: 2974, col: 8, offset: 93921},
 																																										expr: &anyMatcher{
-																																											line: 2952, col: 9, offset: 93116,
+																																											line: 2974, col: 9, offset: 93922,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2684, col: 9, offset: 85330},
+																																							pos: position{line: 2706, col: 9, offset: 86136},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2950, col: 11, offset: 93101},
+																																											pos: position{line: 2972, col: 11, offset: 93907},
 																																											expr: &anyMatcher{
-																																												line: 2950, col: 13, offset: 93103,
+																																												line: 2972, col: 13, offset: 93909,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2933, col: 10, offset: 92767},
+																																												pos: position{line: 2955, col: 10, offset: 93573},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2933, col: 10, offset: 92767},
+																																													pos:        position{line: 2955, col: 10, offset: 93573},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2955, col: 8, offset: 93165},
+																																											pos: position{line: 2977, col: 8, offset: 93971},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2942, col: 12, offset: 92938},
+																																													pos: position{line: 2964, col: 12, offset: 93744},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2942, col: 13, offset: 92939},
+																																														pos: position{line: 2964, col: 13, offset: 93745},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2952, col: 8, offset: 93115},
+																																													pos: position{line: 2974, col: 8, offset: 93921},
 																																													expr: &anyMatcher{
-																																														line: 2952, col: 9, offset: 93116,
+																																														line: 2974, col: 9, offset: 93922,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2685, col: 9, offset: 85349},
+																																							pos: position{line: 2707, col: 9, offset: 86155},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2685, col: 11, offset: 85351},
+																																								pos: position{line: 2707, col: 11, offset: 86157},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2685, col: 11, offset: 85351},
+																																										pos:   position{line: 2707, col: 11, offset: 86157},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2685, col: 18, offset: 85358},
+																																											pos: position{line: 2707, col: 18, offset: 86164},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2693, col: 20, offset: 85559},
+																																												pos: position{line: 2715, col: 20, offset: 86365},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2693, col: 20, offset: 85559},
+																																													pos: position{line: 2715, col: 20, offset: 86365},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2693, col: 20, offset: 85559},
+																																														pos:        position{line: 2715, col: 20, offset: 86365},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2685, col: 37, offset: 85377},
+																																										pos:        position{line: 2707, col: 37, offset: 86183},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2686, col: 9, offset: 85390},
+																																							pos:   position{line: 2708, col: 9, offset: 86196},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2686, col: 18, offset: 85399},
+																																								pos: position{line: 2708, col: 18, offset: 86205},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2686, col: 18, offset: 85399},
+																																									pos: position{line: 2708, col: 18, offset: 86205},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2686, col: 18, offset: 85399},
+																																										pos:        position{line: 2708, col: 18, offset: 86205},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2688, col: 12, offset: 85461},
+																																							pos: position{line: 2710, col: 12, offset: 86267},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2955, col: 8, offset: 93165},
+																																								pos: position{line: 2977, col: 8, offset: 93971},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2942, col: 12, offset: 92938},
+																																										pos: position{line: 2964, col: 12, offset: 93744},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2942, col: 13, offset: 92939},
+																																											pos: position{line: 2964, col: 13, offset: 93745},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2942, col: 13, offset: 92939},
+																																													pos:        position{line: 2964, col: 13, offset: 93745},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2942, col: 20, offset: 92946},
+																																													pos:        position{line: 2964, col: 20, offset: 93752},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2942, col: 29, offset: 92955},
+																																													pos:        position{line: 2964, col: 29, offset: 93761},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2952, col: 8, offset: 93115},
+																																										pos: position{line: 2974, col: 8, offset: 93921},
 																																										expr: &anyMatcher{
-																																											line: 2952, col: 9, offset: 93116,
+																																											line: 2974, col: 9, offset: 93922,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2950, col: 11, offset: 93101},
+																											pos: position{line: 2972, col: 11, offset: 93907},
 																											expr: &anyMatcher{
-																												line: 2950, col: 13, offset: 93103,
+																												line: 2972, col: 13, offset: 93909,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2639, col: 22, offset: 84247},
+														pos: position{line: 2661, col: 22, offset: 85053},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2635, col: 19, offset: 84167},
+																pos: position{line: 2657, col: 19, offset: 84973},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2635, col: 19, offset: 84167},
+																		pos:        position{line: 2657, col: 19, offset: 84973},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2635, col: 26, offset: 84174},
+																		pos: position{line: 2657, col: 26, offset: 84980},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2503, col: 22, offset: 80481},
+												pos: position{line: 2525, col: 22, offset: 81287},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2508, col: 31, offset: 80702},
+														pos:        position{line: 2530, col: 31, offset: 81508},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2508, col: 36, offset: 80707},
+														pos: position{line: 2530, col: 36, offset: 81513},
 														expr: &litMatcher{
-															pos:        position{line: 2508, col: 37, offset: 80708},
+															pos:        position{line: 2530, col: 37, offset: 81514},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2503, col: 49, offset: 80508},
+														pos:   position{line: 2525, col: 49, offset: 81314},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2852, col: 13, offset: 90454},
+																pos: position{line: 2874, col: 13, offset: 91260},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 13, offset: 90454},
+																	pos:        position{line: 2874, col: 13, offset: 91260},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2955, col: 8, offset: 93165},
+																										pos: position{line: 2977, col: 8, offset: 93971},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2942, col: 12, offset: 92938},
+																												pos: position{line: 2964, col: 12, offset: 93744},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2942, col: 13, offset: 92939},
+																													pos: position{line: 2964, col: 13, offset: 93745},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 13, offset: 92939},
+																															pos:        position{line: 2964, col: 13, offset: 93745},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 20, offset: 92946},
+																															pos:        position{line: 2964, col: 20, offset: 93752},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 29, offset: 92955},
+																															pos:        position{line: 2964, col: 29, offset: 93761},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2952, col: 8, offset: 93115},
+																												pos: position{line: 2974, col: 8, offset: 93921},
 																												expr: &anyMatcher{
-																													line: 2952, col: 9, offset: 93116,
+																													line: 2974, col: 9, offset: 93922,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2937, col: 11, offset: 92828},
+												pos: position{line: 2959, col: 11, offset: 93634},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2937, col: 11, offset: 92828},
+													pos: position{line: 2959, col: 11, offset: 93634},
 													expr: &charClassMatcher{
-														pos:        position{line: 2937, col: 11, offset: 92828},
+														pos:        position{line: 2959, col: 11, offset: 93634},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2942, col: 12, offset: 92938},
+												pos: position{line: 2964, col: 12, offset: 93744},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2942, col: 13, offset: 92939},
+													pos: position{line: 2964, col: 13, offset: 93745},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2942, col: 13, offset: 92939},
+															pos:        position{line: 2964, col: 13, offset: 93745},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 20, offset: 92946},
+															pos:        position{line: 2964, col: 20, offset: 93752},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 29, offset: 92955},
+															pos:        position{line: 2964, col: 29, offset: 93761},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2933, col: 10, offset: 92767},
+													pos: position{line: 2955, col: 10, offset: 93573},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2933, col: 10, offset: 92767},
+														pos:        position{line: 2955, col: 10, offset: 93573},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2933, col: 10, offset: 92767},
+											pos: position{line: 2955, col: 10, offset: 93573},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2933, col: 10, offset: 92767},
+												pos:        position{line: 2955, col: 10, offset: 93573},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2955, col: 8, offset: 93165},
+										pos: position{line: 2977, col: 8, offset: 93971},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2942, col: 12, offset: 92938},
+												pos: position{line: 2964, col: 12, offset: 93744},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2942, col: 13, offset: 92939},
+													pos: position{line: 2964, col: 13, offset: 93745},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2942, col: 13, offset: 92939},
+															pos:        position{line: 2964, col: 13, offset: 93745},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 20, offset: 92946},
+															pos:        position{line: 2964, col: 20, offset: 93752},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 29, offset: 92955},
+															pos:        position{line: 2964, col: 29, offset: 93761},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2952, col: 8, offset: 93115},
+												pos: position{line: 2974, col: 8, offset: 93921},
 												expr: &anyMatcher{
-													line: 2952, col: 9, offset: 93116,
+													line: 2974, col: 9, offset: 93922,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80027},
+										pos: position{line: 2512, col: 5, offset: 80833},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80027},
+													pos: position{line: 2512, col: 5, offset: 80833},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80103},
+													pos:   position{line: 2515, col: 5, offset: 80909},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80121},
+														pos: position{line: 2516, col: 9, offset: 80927},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80122},
+															pos:        position{line: 2516, col: 10, offset: 80928},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2933, col: 10, offset: 92767},
+										pos: position{line: 2955, col: 10, offset: 93573},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2933, col: 10, offset: 92767},
+											pos:        position{line: 2955, col: 10, offset: 93573},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2933, col: 10, offset: 92767},
+													pos: position{line: 2955, col: 10, offset: 93573},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2933, col: 10, offset: 92767},
+														pos:        position{line: 2955, col: 10, offset: 93573},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2955, col: 8, offset: 93165},
+												pos: position{line: 2977, col: 8, offset: 93971},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2942, col: 12, offset: 92938},
+														pos: position{line: 2964, col: 12, offset: 93744},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2942, col: 13, offset: 92939},
+															pos: position{line: 2964, col: 13, offset: 93745},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2942, col: 13, offset: 92939},
+																	pos:        position{line: 2964, col: 13, offset: 93745},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 20, offset: 92946},
+																	pos:        position{line: 2964, col: 20, offset: 93752},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 29, offset: 92955},
+																	pos:        position{line: 2964, col: 29, offset: 93761},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2952, col: 8, offset: 93115},
+														pos: position{line: 2974, col: 8, offset: 93921},
 														expr: &anyMatcher{
-															line: 2952, col: 9, offset: 93116,
+															line: 2974, col: 9, offset: 93922,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2791, col: 14, offset: 88789},
+																				pos: position{line: 2813, col: 14, offset: 89595},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2791, col: 14, offset: 88789},
+																					pos: position{line: 2813, col: 14, offset: 89595},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2791, col: 14, offset: 88789},
+																						pos:        position{line: 2813, col: 14, offset: 89595},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2823, col: 5, offset: 89582},
+																				pos: position{line: 2845, col: 5, offset: 90388},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2824, col: 9, offset: 89592},
+																					pos: position{line: 2846, col: 9, offset: 90398},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89593},
+																							pos:        position{line: 2846, col: 10, offset: 90399},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2826, col: 13, offset: 89690},
+																							pos: position{line: 2848, col: 13, offset: 90496},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2826, col: 13, offset: 89690},
+																									pos: position{line: 2848, col: 13, offset: 90496},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89790},
+																									pos:        position{line: 2851, col: 13, offset: 90596},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2829, col: 19, offset: 89796},
+																							pos:        position{line: 2851, col: 19, offset: 90602},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2832, col: 13, offset: 89834},
+																							pos: position{line: 2854, col: 13, offset: 90640},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2832, col: 13, offset: 89834},
+																									pos: position{line: 2854, col: 13, offset: 90640},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2835, col: 14, offset: 89927},
+																									pos:        position{line: 2857, col: 14, offset: 90733},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2837, col: 12, offset: 89971},
+																							pos: position{line: 2859, col: 12, offset: 90777},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2837, col: 12, offset: 89971},
+																									pos:        position{line: 2859, col: 12, offset: 90777},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2837, col: 16, offset: 89975},
+																									pos: position{line: 2859, col: 16, offset: 90781},
 																									expr: &litMatcher{
-																										pos:        position{line: 2837, col: 17, offset: 89976},
+																										pos:        position{line: 2859, col: 17, offset: 90782},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2845, col: 12, offset: 90236},
+																				pos: position{line: 2867, col: 12, offset: 91042},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2845, col: 12, offset: 90236},
+																					pos:        position{line: 2867, col: 12, offset: 91042},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2933, col: 10, offset: 92767},
+													pos: position{line: 2955, col: 10, offset: 93573},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2933, col: 10, offset: 92767},
+														pos:        position{line: 2955, col: 10, offset: 93573},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2955, col: 8, offset: 93165},
+												pos: position{line: 2977, col: 8, offset: 93971},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2942, col: 12, offset: 92938},
+														pos: position{line: 2964, col: 12, offset: 93744},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2942, col: 13, offset: 92939},
+															pos: position{line: 2964, col: 13, offset: 93745},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2942, col: 13, offset: 92939},
+																	pos:        position{line: 2964, col: 13, offset: 93745},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 20, offset: 92946},
+																	pos:        position{line: 2964, col: 20, offset: 93752},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 29, offset: 92955},
+																	pos:        position{line: 2964, col: 29, offset: 93761},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2952, col: 8, offset: 93115},
+														pos: position{line: 2974, col: 8, offset: 93921},
 														expr: &anyMatcher{
-															line: 2952, col: 9, offset: 93116,
+															line: 2974, col: 9, offset: 93922,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2933, col: 10, offset: 92767},
+													pos: position{line: 2955, col: 10, offset: 93573},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2933, col: 10, offset: 92767},
+														pos:        position{line: 2955, col: 10, offset: 93573},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2955, col: 8, offset: 93165},
+												pos: position{line: 2977, col: 8, offset: 93971},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2942, col: 12, offset: 92938},
+														pos: position{line: 2964, col: 12, offset: 93744},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2942, col: 13, offset: 92939},
+															pos: position{line: 2964, col: 13, offset: 93745},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2942, col: 13, offset: 92939},
+																	pos:        position{line: 2964, col: 13, offset: 93745},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 20, offset: 92946},
+																	pos:        position{line: 2964, col: 20, offset: 93752},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 29, offset: 92955},
+																	pos:        position{line: 2964, col: 29, offset: 93761},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2952, col: 8, offset: 93115},
+														pos: position{line: 2974, col: 8, offset: 93921},
 														expr: &anyMatcher{
-															line: 2952, col: 9, offset: 93116,
+															line: 2974, col: 9, offset: 93922,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2933, col: 10, offset: 92767},
+											pos: position{line: 2955, col: 10, offset: 93573},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2933, col: 10, offset: 92767},
+												pos:        position{line: 2955, col: 10, offset: 93573},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2933, col: 10, offset: 92767},
+													pos: position{line: 2955, col: 10, offset: 93573},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2933, col: 10, offset: 92767},
+														pos:        position{line: 2955, col: 10, offset: 93573},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2933, col: 10, offset: 92767},
+												pos: position{line: 2955, col: 10, offset: 93573},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2933, col: 10, offset: 92767},
+													pos:        position{line: 2955, col: 10, offset: 93573},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2933, col: 10, offset: 92767},
+											pos: position{line: 2955, col: 10, offset: 93573},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2933, col: 10, offset: 92767},
+												pos:        position{line: 2955, col: 10, offset: 93573},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2933, col: 10, offset: 92767},
+												pos: position{line: 2955, col: 10, offset: 93573},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2933, col: 10, offset: 92767},
+													pos:        position{line: 2955, col: 10, offset: 93573},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2791, col: 14, offset: 88789},
+									pos: position{line: 2813, col: 14, offset: 89595},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2791, col: 14, offset: 88789},
+										pos: position{line: 2813, col: 14, offset: 89595},
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 14, offset: 88789},
+											pos:        position{line: 2813, col: 14, offset: 89595},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2933, col: 10, offset: 92767},
+									pos: position{line: 2955, col: 10, offset: 93573},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2933, col: 10, offset: 92767},
+										pos:        position{line: 2955, col: 10, offset: 93573},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2933, col: 10, offset: 92767},
+												pos: position{line: 2955, col: 10, offset: 93573},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2933, col: 10, offset: 92767},
+													pos:        position{line: 2955, col: 10, offset: 93573},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2791, col: 14, offset: 88789},
+									pos: position{line: 2813, col: 14, offset: 89595},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2791, col: 14, offset: 88789},
+										pos: position{line: 2813, col: 14, offset: 89595},
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 14, offset: 88789},
+											pos:        position{line: 2813, col: 14, offset: 89595},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2933, col: 10, offset: 92767},
+									pos: position{line: 2955, col: 10, offset: 93573},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2933, col: 10, offset: 92767},
+										pos:        position{line: 2955, col: 10, offset: 93573},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2933, col: 10, offset: 92767},
+											pos: position{line: 2955, col: 10, offset: 93573},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2933, col: 10, offset: 92767},
+												pos:        position{line: 2955, col: 10, offset: 93573},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2918, col: 7, offset: 92419},
+										pos: position{line: 2940, col: 7, offset: 93225},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2918, col: 7, offset: 92419},
+											pos: position{line: 2940, col: 7, offset: 93225},
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 7, offset: 92419},
+												pos:        position{line: 2940, col: 7, offset: 93225},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2933, col: 10, offset: 92767},
+										pos: position{line: 2955, col: 10, offset: 93573},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2933, col: 10, offset: 92767},
+											pos:        position{line: 2955, col: 10, offset: 93573},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2918, col: 7, offset: 92419},
+										pos: position{line: 2940, col: 7, offset: 93225},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2918, col: 7, offset: 92419},
+											pos: position{line: 2940, col: 7, offset: 93225},
 											expr: &charClassMatcher{
-												pos:        position{line: 2918, col: 7, offset: 92419},
+												pos:        position{line: 2940, col: 7, offset: 93225},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 17, offset: 90591},
+								pos: position{line: 2882, col: 17, offset: 91397},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2860, col: 17, offset: 90591},
+									pos:   position{line: 2882, col: 17, offset: 91397},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 5, offset: 91176},
+										pos: position{line: 2903, col: 5, offset: 91982},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2881, col: 5, offset: 91176},
+											pos:   position{line: 2903, col: 5, offset: 91982},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2881, col: 14, offset: 91185},
+												pos: position{line: 2903, col: 14, offset: 91991},
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 9, offset: 91195},
+													pos: position{line: 2904, col: 9, offset: 92001},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 9, offset: 91195},
+															pos: position{line: 2904, col: 9, offset: 92001},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2882, col: 9, offset: 91195},
+																pos: position{line: 2904, col: 9, offset: 92001},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2882, col: 9, offset: 91195},
+																		pos: position{line: 2904, col: 9, offset: 92001},
 																		expr: &litMatcher{
-																			pos:        position{line: 2882, col: 10, offset: 91196},
+																			pos:        position{line: 2904, col: 10, offset: 92002},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2883, col: 9, offset: 91224},
+																		pos: position{line: 2905, col: 9, offset: 92030},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91225},
+																			pos:        position{line: 2905, col: 10, offset: 92031},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2886, col: 11, offset: 91437},
+															pos: position{line: 2908, col: 11, offset: 92243},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2886, col: 11, offset: 91437},
+																	pos:        position{line: 2908, col: 11, offset: 92243},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2886, col: 19, offset: 91445},
+																	pos: position{line: 2908, col: 19, offset: 92251},
 																	expr: &seqExpr{
-																		pos: position{line: 2886, col: 21, offset: 91447},
+																		pos: position{line: 2908, col: 21, offset: 92253},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2886, col: 21, offset: 91447},
+																				pos: position{line: 2908, col: 21, offset: 92253},
 																				expr: &actionExpr{
-																					pos: position{line: 2933, col: 10, offset: 92767},
+																					pos: position{line: 2955, col: 10, offset: 93573},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2933, col: 10, offset: 92767},
+																						pos:        position{line: 2955, col: 10, offset: 93573},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2886, col: 28, offset: 91454},
+																				pos: position{line: 2908, col: 28, offset: 92260},
 																				expr: &notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2889, col: 11, offset: 91574},
+															pos: position{line: 2911, col: 11, offset: 92380},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2889, col: 11, offset: 91574},
+																pos:        position{line: 2911, col: 11, offset: 92380},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2856, col: 14, offset: 90521},
+								pos: position{line: 2878, col: 14, offset: 91327},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2856, col: 14, offset: 90521},
+									pos: position{line: 2878, col: 14, offset: 91327},
 									expr: &charClassMatcher{
-										pos:        position{line: 2856, col: 14, offset: 90521},
+										pos:        position{line: 2878, col: 14, offset: 91327},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 80481},
+										pos: position{line: 2525, col: 22, offset: 81287},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 80702},
+													pos:        position{line: 2530, col: 31, offset: 81508},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 80707},
+													pos: position{line: 2530, col: 36, offset: 81513},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 80708},
+														pos:        position{line: 2530, col: 37, offset: 81514},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 80508},
+													pos:   position{line: 2525, col: 49, offset: 81314},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 13, offset: 90454},
+														pos: position{line: 2874, col: 13, offset: 91260},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 13, offset: 90454},
+																pos:        position{line: 2874, col: 13, offset: 91260},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 80481},
+										pos: position{line: 2525, col: 22, offset: 81287},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 80702},
+													pos:        position{line: 2530, col: 31, offset: 81508},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 80707},
+													pos: position{line: 2530, col: 36, offset: 81513},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 80708},
+														pos:        position{line: 2530, col: 37, offset: 81514},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 80508},
+													pos:   position{line: 2525, col: 49, offset: 81314},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 13, offset: 90454},
+														pos: position{line: 2874, col: 13, offset: 91260},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 13, offset: 90454},
+																pos:        position{line: 2874, col: 13, offset: 91260},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2950, col: 11, offset: 93101},
+																										pos: position{line: 2972, col: 11, offset: 93907},
 																										expr: &anyMatcher{
-																											line: 2950, col: 13, offset: 93103,
+																											line: 2972, col: 13, offset: 93909,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 80481},
+															pos: position{line: 2525, col: 22, offset: 81287},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 80481},
+																pos: position{line: 2525, col: 22, offset: 81287},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 80702},
+																		pos:        position{line: 2530, col: 31, offset: 81508},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 80707},
+																		pos: position{line: 2530, col: 36, offset: 81513},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 80708},
+																			pos:        position{line: 2530, col: 37, offset: 81514},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 80508},
+																		pos:   position{line: 2525, col: 49, offset: 81314},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 13, offset: 90454},
+																			pos: position{line: 2874, col: 13, offset: 91260},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2852, col: 13, offset: 90454},
+																				pos: position{line: 2874, col: 13, offset: 91260},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 13, offset: 90454},
+																					pos:        position{line: 2874, col: 13, offset: 91260},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2933, col: 10, offset: 92767},
+																																	pos: position{line: 2955, col: 10, offset: 93573},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2933, col: 10, offset: 92767},
+																																		pos:        position{line: 2955, col: 10, offset: 93573},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2955, col: 8, offset: 93165},
+																																pos: position{line: 2977, col: 8, offset: 93971},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2942, col: 12, offset: 92938},
+																																		pos: position{line: 2964, col: 12, offset: 93744},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2942, col: 13, offset: 92939},
+																																			pos: position{line: 2964, col: 13, offset: 93745},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 13, offset: 92939},
+																																					pos:        position{line: 2964, col: 13, offset: 93745},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 20, offset: 92946},
+																																					pos:        position{line: 2964, col: 20, offset: 93752},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 29, offset: 92955},
+																																					pos:        position{line: 2964, col: 29, offset: 93761},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2952, col: 8, offset: 93115},
+																																		pos: position{line: 2974, col: 8, offset: 93921},
 																																		expr: &anyMatcher{
-																																			line: 2952, col: 9, offset: 93116,
+																																			line: 2974, col: 9, offset: 93922,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2950, col: 11, offset: 93101},
+																											pos: position{line: 2972, col: 11, offset: 93907},
 																											expr: &anyMatcher{
-																												line: 2950, col: 13, offset: 93103,
+																												line: 2972, col: 13, offset: 93909,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 13, offset: 90454},
+																												pos: position{line: 2874, col: 13, offset: 91260},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2852, col: 13, offset: 90454},
+																													pos: position{line: 2874, col: 13, offset: 91260},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 13, offset: 90454},
+																														pos:        position{line: 2874, col: 13, offset: 91260},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2933, col: 10, offset: 92767},
+															pos: position{line: 2955, col: 10, offset: 93573},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2933, col: 10, offset: 92767},
+																pos:        position{line: 2955, col: 10, offset: 93573},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2503, col: 22, offset: 80481},
+												pos: position{line: 2525, col: 22, offset: 81287},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2508, col: 31, offset: 80702},
+														pos:        position{line: 2530, col: 31, offset: 81508},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2508, col: 36, offset: 80707},
+														pos: position{line: 2530, col: 36, offset: 81513},
 														expr: &litMatcher{
-															pos:        position{line: 2508, col: 37, offset: 80708},
+															pos:        position{line: 2530, col: 37, offset: 81514},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2503, col: 49, offset: 80508},
+														pos:   position{line: 2525, col: 49, offset: 81314},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2852, col: 13, offset: 90454},
+																pos: position{line: 2874, col: 13, offset: 91260},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 13, offset: 90454},
+																	pos:        position{line: 2874, col: 13, offset: 91260},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2933, col: 10, offset: 92767},
+																													pos: position{line: 2955, col: 10, offset: 93573},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2933, col: 10, offset: 92767},
+																														pos:        position{line: 2955, col: 10, offset: 93573},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2955, col: 8, offset: 93165},
+																												pos: position{line: 2977, col: 8, offset: 93971},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2942, col: 12, offset: 92938},
+																														pos: position{line: 2964, col: 12, offset: 93744},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2942, col: 13, offset: 92939},
+																															pos: position{line: 2964, col: 13, offset: 93745},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 13, offset: 92939},
+																																	pos:        position{line: 2964, col: 13, offset: 93745},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 20, offset: 92946},
+																																	pos:        position{line: 2964, col: 20, offset: 93752},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2942, col: 29, offset: 92955},
+																																	pos:        position{line: 2964, col: 29, offset: 93761},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2952, col: 8, offset: 93115},
+																														pos: position{line: 2974, col: 8, offset: 93921},
 																														expr: &anyMatcher{
-																															line: 2952, col: 9, offset: 93116,
+																															line: 2974, col: 9, offset: 93922,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2852, col: 13, offset: 90454},
+																									pos: position{line: 2874, col: 13, offset: 91260},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 13, offset: 90454},
+																										pos:        position{line: 2874, col: 13, offset: 91260},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2937, col: 11, offset: 92828},
+							pos: position{line: 2959, col: 11, offset: 93634},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2937, col: 11, offset: 92828},
+								pos: position{line: 2959, col: 11, offset: 93634},
 								expr: &charClassMatcher{
-									pos:        position{line: 2937, col: 11, offset: 92828},
+									pos:        position{line: 2959, col: 11, offset: 93634},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2918, col: 7, offset: 92419},
+								pos: position{line: 2940, col: 7, offset: 93225},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2918, col: 7, offset: 92419},
+									pos: position{line: 2940, col: 7, offset: 93225},
 									expr: &charClassMatcher{
-										pos:        position{line: 2918, col: 7, offset: 92419},
+										pos:        position{line: 2940, col: 7, offset: 93225},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2791, col: 14, offset: 88789},
+									pos: position{line: 2813, col: 14, offset: 89595},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2791, col: 14, offset: 88789},
+										pos: position{line: 2813, col: 14, offset: 89595},
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 14, offset: 88789},
+											pos:        position{line: 2813, col: 14, offset: 89595},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2933, col: 10, offset: 92767},
+									pos: position{line: 2955, col: 10, offset: 93573},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2933, col: 10, offset: 92767},
+										pos:        position{line: 2955, col: 10, offset: 93573},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2490, col: 5, offset: 80027},
+									pos: position{line: 2512, col: 5, offset: 80833},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2490, col: 5, offset: 80027},
+										pos: position{line: 2512, col: 5, offset: 80833},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2490, col: 5, offset: 80027},
+												pos: position{line: 2512, col: 5, offset: 80833},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2493, col: 5, offset: 80103},
+												pos:   position{line: 2515, col: 5, offset: 80909},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2494, col: 9, offset: 80121},
+													pos: position{line: 2516, col: 9, offset: 80927},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 10, offset: 80122},
+														pos:        position{line: 2516, col: 10, offset: 80928},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 13, offset: 90687},
+								pos: position{line: 2886, col: 13, offset: 91493},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2864, col: 13, offset: 90687},
+									pos: position{line: 2886, col: 13, offset: 91493},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2864, col: 13, offset: 90687},
+											pos:   position{line: 2886, col: 13, offset: 91493},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2864, col: 20, offset: 90694},
+												pos: position{line: 2886, col: 20, offset: 91500},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 11, offset: 91064},
+													pos: position{line: 2898, col: 11, offset: 91870},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 12, offset: 91065},
+														pos: position{line: 2898, col: 12, offset: 91871},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 12, offset: 91065},
+																pos:        position{line: 2898, col: 12, offset: 91871},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 24, offset: 91077},
+																pos:        position{line: 2898, col: 24, offset: 91883},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 37, offset: 91090},
+																pos:        position{line: 2898, col: 37, offset: 91896},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 48, offset: 91101},
+																pos:        position{line: 2898, col: 48, offset: 91907},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 59, offset: 91112},
+																pos:        position{line: 2898, col: 59, offset: 91918},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2864, col: 30, offset: 90704},
+											pos:   position{line: 2886, col: 30, offset: 91510},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 5, offset: 91176},
+												pos: position{line: 2903, col: 5, offset: 91982},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2881, col: 5, offset: 91176},
+													pos:   position{line: 2903, col: 5, offset: 91982},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 14, offset: 91185},
+														pos: position{line: 2903, col: 14, offset: 91991},
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 9, offset: 91195},
+															pos: position{line: 2904, col: 9, offset: 92001},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2882, col: 9, offset: 91195},
+																		pos: position{line: 2904, col: 9, offset: 92001},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				expr: &litMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 91196},
+																					pos:        position{line: 2904, col: 10, offset: 92002},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2883, col: 9, offset: 91224},
+																				pos: position{line: 2905, col: 9, offset: 92030},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91225},
+																					pos:        position{line: 2905, col: 10, offset: 92031},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2886, col: 11, offset: 91437},
+																	pos: position{line: 2908, col: 11, offset: 92243},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2886, col: 11, offset: 91437},
+																			pos:        position{line: 2908, col: 11, offset: 92243},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2886, col: 19, offset: 91445},
+																			pos: position{line: 2908, col: 19, offset: 92251},
 																			expr: &seqExpr{
-																				pos: position{line: 2886, col: 21, offset: 91447},
+																				pos: position{line: 2908, col: 21, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 28, offset: 91454},
+																						pos: position{line: 2908, col: 28, offset: 92260},
 																						expr: &notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 11, offset: 91574},
+																	pos: position{line: 2911, col: 11, offset: 92380},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2889, col: 11, offset: 91574},
+																		pos:        position{line: 2911, col: 11, offset: 92380},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 13, offset: 90687},
+								pos: position{line: 2886, col: 13, offset: 91493},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2864, col: 13, offset: 90687},
+									pos: position{line: 2886, col: 13, offset: 91493},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2864, col: 13, offset: 90687},
+											pos:   position{line: 2886, col: 13, offset: 91493},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2864, col: 20, offset: 90694},
+												pos: position{line: 2886, col: 20, offset: 91500},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 11, offset: 91064},
+													pos: position{line: 2898, col: 11, offset: 91870},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2876, col: 12, offset: 91065},
+														pos: position{line: 2898, col: 12, offset: 91871},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2876, col: 12, offset: 91065},
+																pos:        position{line: 2898, col: 12, offset: 91871},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 24, offset: 91077},
+																pos:        position{line: 2898, col: 24, offset: 91883},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 37, offset: 91090},
+																pos:        position{line: 2898, col: 37, offset: 91896},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 48, offset: 91101},
+																pos:        position{line: 2898, col: 48, offset: 91907},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2876, col: 59, offset: 91112},
+																pos:        position{line: 2898, col: 59, offset: 91918},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2864, col: 30, offset: 90704},
+											pos:   position{line: 2886, col: 30, offset: 91510},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 5, offset: 91176},
+												pos: position{line: 2903, col: 5, offset: 91982},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2881, col: 5, offset: 91176},
+													pos:   position{line: 2903, col: 5, offset: 91982},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 14, offset: 91185},
+														pos: position{line: 2903, col: 14, offset: 91991},
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 9, offset: 91195},
+															pos: position{line: 2904, col: 9, offset: 92001},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2882, col: 9, offset: 91195},
+																		pos: position{line: 2904, col: 9, offset: 92001},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				expr: &litMatcher{
-																					pos:        position{line: 2882, col: 10, offset: 91196},
+																					pos:        position{line: 2904, col: 10, offset: 92002},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2883, col: 9, offset: 91224},
+																				pos: position{line: 2905, col: 9, offset: 92030},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91225},
+																					pos:        position{line: 2905, col: 10, offset: 92031},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2886, col: 11, offset: 91437},
+																	pos: position{line: 2908, col: 11, offset: 92243},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2886, col: 11, offset: 91437},
+																			pos:        position{line: 2908, col: 11, offset: 92243},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2886, col: 19, offset: 91445},
+																			pos: position{line: 2908, col: 19, offset: 92251},
 																			expr: &seqExpr{
-																				pos: position{line: 2886, col: 21, offset: 91447},
+																				pos: position{line: 2908, col: 21, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2886, col: 28, offset: 91454},
+																						pos: position{line: 2908, col: 28, offset: 92260},
 																						expr: &notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 11, offset: 91574},
+																	pos: position{line: 2911, col: 11, offset: 92380},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2889, col: 11, offset: 91574},
+																		pos:        position{line: 2911, col: 11, offset: 92380},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2796, col: 5, offset: 88862},
+										pos: position{line: 2818, col: 5, offset: 89668},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2796, col: 5, offset: 88862},
+											pos: position{line: 2818, col: 5, offset: 89668},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88862},
+													pos: position{line: 2818, col: 5, offset: 89668},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88873},
+														pos: position{line: 2819, col: 9, offset: 89679},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2797, col: 9, offset: 88873},
+																pos: position{line: 2819, col: 9, offset: 89679},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2800, col: 9, offset: 88936},
+																pos:   position{line: 2822, col: 9, offset: 89742},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2772, col: 18, offset: 88248},
+																	pos: position{line: 2794, col: 18, offset: 89054},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2772, col: 19, offset: 88249},
+																		pos: position{line: 2794, col: 19, offset: 89055},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2772, col: 19, offset: 88249},
+																			pos:        position{line: 2794, col: 19, offset: 89055},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 30, offset: 88957},
+																pos:        position{line: 2822, col: 30, offset: 89763},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2801, col: 9, offset: 89044},
+																pos: position{line: 2823, col: 9, offset: 89850},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2805, col: 5, offset: 89156},
+													pos:   position{line: 2827, col: 5, offset: 89962},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2805, col: 11, offset: 89162},
+														pos: position{line: 2827, col: 11, offset: 89968},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2805, col: 11, offset: 89162},
+															pos: position{line: 2827, col: 11, offset: 89968},
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 11, offset: 89162},
+																pos:        position{line: 2827, col: 11, offset: 89968},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 89220},
+													pos: position{line: 2830, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 89231},
+														pos: position{line: 2831, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 89231},
+																pos:        position{line: 2831, col: 9, offset: 90037},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2810, col: 9, offset: 89280},
+																pos: position{line: 2832, col: 9, offset: 90086},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89360},
+													pos: position{line: 2836, col: 5, offset: 90166},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89371},
+														pos: position{line: 2837, col: 9, offset: 90177},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2815, col: 9, offset: 89371},
+																pos: position{line: 2837, col: 9, offset: 90177},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2815, col: 9, offset: 89371},
+																	pos:        position{line: 2837, col: 9, offset: 90177},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2815, col: 23, offset: 89385},
+																pos:        position{line: 2837, col: 23, offset: 90191},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2815, col: 27, offset: 89389},
+																pos:        position{line: 2837, col: 27, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2937, col: 11, offset: 92828},
+										pos: position{line: 2959, col: 11, offset: 93634},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2937, col: 11, offset: 92828},
+											pos: position{line: 2959, col: 11, offset: 93634},
 											expr: &charClassMatcher{
-												pos:        position{line: 2937, col: 11, offset: 92828},
+												pos:        position{line: 2959, col: 11, offset: 93634},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,21 +21607,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 5, offset: 81198},
+										pos: position{line: 2543, col: 5, offset: 82004},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 5, offset: 81198},
+											pos: position{line: 2543, col: 5, offset: 82004},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2521, col: 5, offset: 81198},
+													pos:        position{line: 2543, col: 5, offset: 82004},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2521, col: 10, offset: 81203},
+													pos: position{line: 2543, col: 10, offset: 82009},
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 11, offset: 81204},
+														pos:        position{line: 2543, col: 11, offset: 82010},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,29 +21632,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81390},
+										pos: position{line: 2549, col: 5, offset: 82196},
 										run: (*parser).callonFootnoteElement40,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81390},
+											pos: position{line: 2549, col: 5, offset: 82196},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81390},
+													pos: position{line: 2549, col: 5, offset: 82196},
 													run: (*parser).callonFootnoteElement42,
 												},
 												&andCodeExpr{
-													pos: position{line: 2530, col: 5, offset: 81461},
+													pos: position{line: 2552, col: 5, offset: 82267},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&litMatcher{
-													pos:        position{line: 2534, col: 5, offset: 81586},
+													pos:        position{line: 2556, col: 5, offset: 82392},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2534, col: 9, offset: 81590},
+													pos: position{line: 2556, col: 9, offset: 82396},
 													expr: &charClassMatcher{
-														pos:        position{line: 2534, col: 10, offset: 81591},
+														pos:        position{line: 2556, col: 10, offset: 82397},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21673,27 +21673,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89582},
+										pos: position{line: 2845, col: 5, offset: 90388},
 										run: (*parser).callonFootnoteElement49,
 										expr: &choiceExpr{
-											pos: position{line: 2824, col: 9, offset: 89592},
+											pos: position{line: 2846, col: 9, offset: 90398},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2824, col: 10, offset: 89593},
+													pos:        position{line: 2846, col: 10, offset: 90399},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89690},
+													pos: position{line: 2848, col: 13, offset: 90496},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89690},
+															pos: position{line: 2848, col: 13, offset: 90496},
 															run: (*parser).callonFootnoteElement53,
 														},
 														&litMatcher{
-															pos:        position{line: 2829, col: 13, offset: 89790},
+															pos:        position{line: 2851, col: 13, offset: 90596},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21701,20 +21701,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2829, col: 19, offset: 89796},
+													pos:        position{line: 2851, col: 19, offset: 90602},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89834},
+													pos: position{line: 2854, col: 13, offset: 90640},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89834},
+															pos: position{line: 2854, col: 13, offset: 90640},
 															run: (*parser).callonFootnoteElement57,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2835, col: 14, offset: 89927},
+															pos:        position{line: 2857, col: 14, offset: 90733},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21723,18 +21723,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2837, col: 12, offset: 89971},
+													pos: position{line: 2859, col: 12, offset: 90777},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2837, col: 12, offset: 89971},
+															pos:        position{line: 2859, col: 12, offset: 90777},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2837, col: 16, offset: 89975},
+															pos: position{line: 2859, col: 16, offset: 90781},
 															expr: &litMatcher{
-																pos:        position{line: 2837, col: 17, offset: 89976},
+																pos:        position{line: 2859, col: 17, offset: 90782},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21772,10 +21772,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonFootnoteElement70,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21786,28 +21786,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonFootnoteElement74,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21816,9 +21816,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -22174,23 +22174,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80027},
+										pos: position{line: 2512, col: 5, offset: 80833},
 										run: (*parser).callonFootnoteElement150,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80027},
+													pos: position{line: 2512, col: 5, offset: 80833},
 													run: (*parser).callonFootnoteElement152,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80103},
+													pos:   position{line: 2515, col: 5, offset: 80909},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80121},
+														pos: position{line: 2516, col: 9, offset: 80927},
 														run: (*parser).callonFootnoteElement154,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80122},
+															pos:        position{line: 2516, col: 10, offset: 80928},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22202,25 +22202,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2942, col: 12, offset: 92938},
+										pos: position{line: 2964, col: 12, offset: 93744},
 										run: (*parser).callonFootnoteElement156,
 										expr: &choiceExpr{
-											pos: position{line: 2942, col: 13, offset: 92939},
+											pos: position{line: 2964, col: 13, offset: 93745},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2942, col: 13, offset: 92939},
+													pos:        position{line: 2964, col: 13, offset: 93745},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 20, offset: 92946},
+													pos:        position{line: 2964, col: 20, offset: 93752},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 29, offset: 92955},
+													pos:        position{line: 2964, col: 29, offset: 93761},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22229,10 +22229,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 12, offset: 90236},
+										pos: position{line: 2867, col: 12, offset: 91042},
 										run: (*parser).callonFootnoteElement161,
 										expr: &charClassMatcher{
-											pos:        position{line: 2845, col: 12, offset: 90236},
+											pos:        position{line: 2867, col: 12, offset: 91042},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22364,55 +22364,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 23, offset: 90814},
+										pos: position{line: 2890, col: 23, offset: 91620},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2868, col: 23, offset: 90814},
+											pos: position{line: 2890, col: 23, offset: 91620},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2868, col: 23, offset: 90814},
+													pos: position{line: 2890, col: 23, offset: 91620},
 													expr: &litMatcher{
-														pos:        position{line: 2868, col: 24, offset: 90815},
+														pos:        position{line: 2890, col: 24, offset: 91621},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 28, offset: 90819},
+													pos:   position{line: 2890, col: 28, offset: 91625},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 91064},
+														pos: position{line: 2898, col: 11, offset: 91870},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 91065},
+															pos: position{line: 2898, col: 12, offset: 91871},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 91065},
+																	pos:        position{line: 2898, col: 12, offset: 91871},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 91077},
+																	pos:        position{line: 2898, col: 24, offset: 91883},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 91090},
+																	pos:        position{line: 2898, col: 37, offset: 91896},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 91101},
+																	pos:        position{line: 2898, col: 48, offset: 91907},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 91112},
+																	pos:        position{line: 2898, col: 59, offset: 91918},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22422,38 +22422,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 44, offset: 90835},
+													pos:   position{line: 2890, col: 44, offset: 91641},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22464,27 +22464,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22493,11 +22493,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -22892,10 +22892,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23097,48 +23097,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 13, offset: 90687},
+										pos: position{line: 2886, col: 13, offset: 91493},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2864, col: 13, offset: 90687},
+											pos: position{line: 2886, col: 13, offset: 91493},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2864, col: 13, offset: 90687},
+													pos:   position{line: 2886, col: 13, offset: 91493},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2864, col: 20, offset: 90694},
+														pos: position{line: 2886, col: 20, offset: 91500},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 11, offset: 91064},
+															pos: position{line: 2898, col: 11, offset: 91870},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 12, offset: 91065},
+																pos: position{line: 2898, col: 12, offset: 91871},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 12, offset: 91065},
+																		pos:        position{line: 2898, col: 12, offset: 91871},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 24, offset: 91077},
+																		pos:        position{line: 2898, col: 24, offset: 91883},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 37, offset: 91090},
+																		pos:        position{line: 2898, col: 37, offset: 91896},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 48, offset: 91101},
+																		pos:        position{line: 2898, col: 48, offset: 91907},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 59, offset: 91112},
+																		pos:        position{line: 2898, col: 59, offset: 91918},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23149,38 +23149,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 30, offset: 90704},
+													pos:   position{line: 2886, col: 30, offset: 91510},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23191,27 +23191,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23220,11 +23220,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -23619,10 +23619,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23665,48 +23665,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 13, offset: 90687},
+										pos: position{line: 2886, col: 13, offset: 91493},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2864, col: 13, offset: 90687},
+											pos: position{line: 2886, col: 13, offset: 91493},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2864, col: 13, offset: 90687},
+													pos:   position{line: 2886, col: 13, offset: 91493},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2864, col: 20, offset: 90694},
+														pos: position{line: 2886, col: 20, offset: 91500},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 11, offset: 91064},
+															pos: position{line: 2898, col: 11, offset: 91870},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2876, col: 12, offset: 91065},
+																pos: position{line: 2898, col: 12, offset: 91871},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 12, offset: 91065},
+																		pos:        position{line: 2898, col: 12, offset: 91871},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 24, offset: 91077},
+																		pos:        position{line: 2898, col: 24, offset: 91883},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 37, offset: 91090},
+																		pos:        position{line: 2898, col: 37, offset: 91896},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 48, offset: 91101},
+																		pos:        position{line: 2898, col: 48, offset: 91907},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2876, col: 59, offset: 91112},
+																		pos:        position{line: 2898, col: 59, offset: 91918},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23717,38 +23717,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2864, col: 30, offset: 90704},
+													pos:   position{line: 2886, col: 30, offset: 91510},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23759,27 +23759,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23788,11 +23788,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -24187,10 +24187,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24242,55 +24242,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 23, offset: 90814},
+										pos: position{line: 2890, col: 23, offset: 91620},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2868, col: 23, offset: 90814},
+											pos: position{line: 2890, col: 23, offset: 91620},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2868, col: 23, offset: 90814},
+													pos: position{line: 2890, col: 23, offset: 91620},
 													expr: &litMatcher{
-														pos:        position{line: 2868, col: 24, offset: 90815},
+														pos:        position{line: 2890, col: 24, offset: 91621},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 28, offset: 90819},
+													pos:   position{line: 2890, col: 28, offset: 91625},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 91064},
+														pos: position{line: 2898, col: 11, offset: 91870},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 91065},
+															pos: position{line: 2898, col: 12, offset: 91871},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 91065},
+																	pos:        position{line: 2898, col: 12, offset: 91871},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 91077},
+																	pos:        position{line: 2898, col: 24, offset: 91883},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 91090},
+																	pos:        position{line: 2898, col: 37, offset: 91896},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 91101},
+																	pos:        position{line: 2898, col: 48, offset: 91907},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 91112},
+																	pos:        position{line: 2898, col: 59, offset: 91918},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24300,38 +24300,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 44, offset: 90835},
+													pos:   position{line: 2890, col: 44, offset: 91641},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24342,27 +24342,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24371,11 +24371,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -24770,10 +24770,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24813,55 +24813,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 23, offset: 90814},
+										pos: position{line: 2890, col: 23, offset: 91620},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2868, col: 23, offset: 90814},
+											pos: position{line: 2890, col: 23, offset: 91620},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2868, col: 23, offset: 90814},
+													pos: position{line: 2890, col: 23, offset: 91620},
 													expr: &litMatcher{
-														pos:        position{line: 2868, col: 24, offset: 90815},
+														pos:        position{line: 2890, col: 24, offset: 91621},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 28, offset: 90819},
+													pos:   position{line: 2890, col: 28, offset: 91625},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 11, offset: 91064},
+														pos: position{line: 2898, col: 11, offset: 91870},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2876, col: 12, offset: 91065},
+															pos: position{line: 2898, col: 12, offset: 91871},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2876, col: 12, offset: 91065},
+																	pos:        position{line: 2898, col: 12, offset: 91871},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 24, offset: 91077},
+																	pos:        position{line: 2898, col: 24, offset: 91883},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 37, offset: 91090},
+																	pos:        position{line: 2898, col: 37, offset: 91896},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 48, offset: 91101},
+																	pos:        position{line: 2898, col: 48, offset: 91907},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2876, col: 59, offset: 91112},
+																	pos:        position{line: 2898, col: 59, offset: 91918},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24871,38 +24871,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2868, col: 44, offset: 90835},
+													pos:   position{line: 2890, col: 44, offset: 91641},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 5, offset: 91176},
+														pos: position{line: 2903, col: 5, offset: 91982},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2881, col: 5, offset: 91176},
+															pos:   position{line: 2903, col: 5, offset: 91982},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 14, offset: 91185},
+																pos: position{line: 2903, col: 14, offset: 91991},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 9, offset: 91195},
+																	pos: position{line: 2904, col: 9, offset: 92001},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 9, offset: 91195},
+																			pos: position{line: 2904, col: 9, offset: 92001},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2882, col: 9, offset: 91195},
+																				pos: position{line: 2904, col: 9, offset: 92001},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2882, col: 9, offset: 91195},
+																						pos: position{line: 2904, col: 9, offset: 92001},
 																						expr: &litMatcher{
-																							pos:        position{line: 2882, col: 10, offset: 91196},
+																							pos:        position{line: 2904, col: 10, offset: 92002},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2883, col: 9, offset: 91224},
+																						pos: position{line: 2905, col: 9, offset: 92030},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91225},
+																							pos:        position{line: 2905, col: 10, offset: 92031},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24913,27 +24913,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2886, col: 11, offset: 91437},
+																			pos: position{line: 2908, col: 11, offset: 92243},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2886, col: 11, offset: 91437},
+																					pos:        position{line: 2908, col: 11, offset: 92243},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2886, col: 19, offset: 91445},
+																					pos: position{line: 2908, col: 19, offset: 92251},
 																					expr: &seqExpr{
-																						pos: position{line: 2886, col: 21, offset: 91447},
+																						pos: position{line: 2908, col: 21, offset: 92253},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2886, col: 21, offset: 91447},
+																								pos: position{line: 2908, col: 21, offset: 92253},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24942,11 +24942,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2886, col: 28, offset: 91454},
+																								pos: position{line: 2908, col: 28, offset: 92260},
 																								expr: &notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -25341,10 +25341,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2889, col: 11, offset: 91574},
+																			pos: position{line: 2911, col: 11, offset: 92380},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2889, col: 11, offset: 91574},
+																				pos:        position{line: 2911, col: 11, offset: 92380},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25378,55 +25378,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 27, offset: 90949},
+								pos: position{line: 2894, col: 27, offset: 91755},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2872, col: 27, offset: 90949},
+									pos: position{line: 2894, col: 27, offset: 91755},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2872, col: 27, offset: 90949},
+											pos: position{line: 2894, col: 27, offset: 91755},
 											expr: &litMatcher{
-												pos:        position{line: 2872, col: 28, offset: 90950},
+												pos:        position{line: 2894, col: 28, offset: 91756},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2872, col: 32, offset: 90954},
+											pos:   position{line: 2894, col: 32, offset: 91760},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 11, offset: 91064},
+												pos: position{line: 2898, col: 11, offset: 91870},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2876, col: 12, offset: 91065},
+													pos: position{line: 2898, col: 12, offset: 91871},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2876, col: 12, offset: 91065},
+															pos:        position{line: 2898, col: 12, offset: 91871},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 24, offset: 91077},
+															pos:        position{line: 2898, col: 24, offset: 91883},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 37, offset: 91090},
+															pos:        position{line: 2898, col: 37, offset: 91896},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 48, offset: 91101},
+															pos:        position{line: 2898, col: 48, offset: 91907},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2876, col: 59, offset: 91112},
+															pos:        position{line: 2898, col: 59, offset: 91918},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25436,26 +25436,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2872, col: 48, offset: 90970},
+											pos:   position{line: 2894, col: 48, offset: 91776},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2897, col: 5, offset: 91860},
+												pos: position{line: 2919, col: 5, offset: 92666},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2897, col: 5, offset: 91860},
+													pos:   position{line: 2919, col: 5, offset: 92666},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2897, col: 14, offset: 91869},
+														pos: position{line: 2919, col: 14, offset: 92675},
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 9, offset: 91879},
+															pos: position{line: 2920, col: 9, offset: 92685},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2898, col: 9, offset: 91879},
+																	pos: position{line: 2920, col: 9, offset: 92685},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2898, col: 9, offset: 91879},
+																		pos: position{line: 2920, col: 9, offset: 92685},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2898, col: 10, offset: 91880},
+																			pos:        position{line: 2920, col: 10, offset: 92686},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25464,21 +25464,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 11, offset: 91971},
+																	pos: position{line: 2923, col: 11, offset: 92777},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2901, col: 11, offset: 91971},
+																		pos: position{line: 2923, col: 11, offset: 92777},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2901, col: 11, offset: 91971},
+																				pos:        position{line: 2923, col: 11, offset: 92777},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2901, col: 15, offset: 91975},
+																				pos: position{line: 2923, col: 15, offset: 92781},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2901, col: 15, offset: 91975},
+																					pos:        position{line: 2923, col: 15, offset: 92781},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25486,7 +25486,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2901, col: 39, offset: 91999},
+																				pos:        position{line: 2923, col: 39, offset: 92805},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25495,25 +25495,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2904, col: 11, offset: 92064},
+																	pos: position{line: 2926, col: 11, offset: 92870},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2904, col: 11, offset: 92064},
+																		pos:        position{line: 2926, col: 11, offset: 92870},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92129},
+																	pos: position{line: 2929, col: 11, offset: 92935},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2907, col: 11, offset: 92129},
+																		pos: position{line: 2929, col: 11, offset: 92935},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2907, col: 11, offset: 92129},
+																				pos: position{line: 2929, col: 11, offset: 92935},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 11, offset: 92129},
+																					pos:        position{line: 2929, col: 11, offset: 92935},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25521,9 +25521,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2907, col: 21, offset: 92139},
+																				pos: position{line: 2929, col: 21, offset: 92945},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 23, offset: 92141},
+																					pos:        position{line: 2929, col: 23, offset: 92947},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25919,10 +25919,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2912, col: 11, offset: 92282},
+																	pos: position{line: 2934, col: 11, offset: 93088},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2912, col: 11, offset: 92282},
+																		pos:        position{line: 2934, col: 11, offset: 93088},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25975,10 +25975,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26145,12 +26145,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26193,28 +26193,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26223,9 +26223,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -26255,10 +26255,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26299,12 +26299,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26376,12 +26376,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2937, col: 11, offset: 92828},
+																			pos: position{line: 2959, col: 11, offset: 93634},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2937, col: 11, offset: 92828},
+																				pos:        position{line: 2959, col: 11, offset: 93634},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26425,28 +26425,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26455,9 +26455,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -26515,12 +26515,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26563,28 +26563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26593,9 +26593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -26660,28 +26660,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26690,9 +26690,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -26755,10 +26755,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26767,28 +26767,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26797,9 +26797,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -26813,18 +26813,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26833,28 +26833,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26863,9 +26863,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -26884,12 +26884,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2937, col: 11, offset: 92828},
+																			pos: position{line: 2959, col: 11, offset: 93634},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2937, col: 11, offset: 92828},
+																				pos: position{line: 2959, col: 11, offset: 93634},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 11, offset: 92828},
+																					pos:        position{line: 2959, col: 11, offset: 93634},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26916,28 +26916,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26946,9 +26946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -27006,9 +27006,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&labeledExpr{
@@ -27032,18 +27032,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2950, col: 11, offset: 93101},
+																	pos: position{line: 2972, col: 11, offset: 93907},
 																	expr: &anyMatcher{
-																		line: 2950, col: 13, offset: 93103,
+																		line: 2972, col: 13, offset: 93909,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27052,28 +27052,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27082,9 +27082,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -27117,10 +27117,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27287,12 +27287,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27335,28 +27335,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27365,9 +27365,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -27397,10 +27397,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27441,12 +27441,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27518,12 +27518,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2937, col: 11, offset: 92828},
+																									pos: position{line: 2959, col: 11, offset: 93634},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2937, col: 11, offset: 92828},
+																										pos:        position{line: 2959, col: 11, offset: 93634},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27567,28 +27567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27597,9 +27597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -27657,12 +27657,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27705,28 +27705,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27735,9 +27735,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -27802,28 +27802,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27832,9 +27832,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -27897,10 +27897,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27909,28 +27909,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27939,9 +27939,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -27955,18 +27955,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2950, col: 11, offset: 93101},
+																													pos: position{line: 2972, col: 11, offset: 93907},
 																													expr: &anyMatcher{
-																														line: 2950, col: 13, offset: 93103,
+																														line: 2972, col: 13, offset: 93909,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27975,28 +27975,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28005,9 +28005,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -28026,12 +28026,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2937, col: 11, offset: 92828},
+																									pos: position{line: 2959, col: 11, offset: 93634},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2937, col: 11, offset: 92828},
+																										pos: position{line: 2959, col: 11, offset: 93634},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2937, col: 11, offset: 92828},
+																											pos:        position{line: 2959, col: 11, offset: 93634},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28058,28 +28058,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28088,9 +28088,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -28151,10 +28151,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28321,12 +28321,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28369,28 +28369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28399,9 +28399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -28431,10 +28431,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28475,12 +28475,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28552,12 +28552,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2937, col: 11, offset: 92828},
+																									pos: position{line: 2959, col: 11, offset: 93634},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2937, col: 11, offset: 92828},
+																										pos:        position{line: 2959, col: 11, offset: 93634},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28601,28 +28601,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28631,9 +28631,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -28691,12 +28691,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28739,28 +28739,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28769,9 +28769,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -28836,28 +28836,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28866,9 +28866,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -28931,10 +28931,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28943,28 +28943,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28973,9 +28973,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -28989,18 +28989,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2950, col: 11, offset: 93101},
+																													pos: position{line: 2972, col: 11, offset: 93907},
 																													expr: &anyMatcher{
-																														line: 2950, col: 13, offset: 93103,
+																														line: 2972, col: 13, offset: 93909,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29009,28 +29009,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29039,9 +29039,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -29060,12 +29060,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2937, col: 11, offset: 92828},
+																									pos: position{line: 2959, col: 11, offset: 93634},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2937, col: 11, offset: 92828},
+																										pos: position{line: 2959, col: 11, offset: 93634},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2937, col: 11, offset: 92828},
+																											pos:        position{line: 2959, col: 11, offset: 93634},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29092,28 +29092,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29122,9 +29122,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -29149,36 +29149,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 80481},
+										pos: position{line: 2525, col: 22, offset: 81287},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 80702},
+													pos:        position{line: 2530, col: 31, offset: 81508},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 80707},
+													pos: position{line: 2530, col: 36, offset: 81513},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 80708},
+														pos:        position{line: 2530, col: 37, offset: 81514},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 80508},
+													pos:   position{line: 2525, col: 49, offset: 81314},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 13, offset: 90454},
+														pos: position{line: 2874, col: 13, offset: 91260},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 13, offset: 90454},
+																pos:        position{line: 2874, col: 13, offset: 91260},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29188,28 +29188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29218,9 +29218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -29243,18 +29243,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2950, col: 11, offset: 93101},
+																	pos: position{line: 2972, col: 11, offset: 93907},
 																	expr: &anyMatcher{
-																		line: 2950, col: 13, offset: 93103,
+																		line: 2972, col: 13, offset: 93909,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29263,28 +29263,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29293,9 +29293,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -29318,10 +29318,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29330,25 +29330,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29370,10 +29370,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29540,12 +29540,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29568,10 +29568,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29612,12 +29612,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29668,12 +29668,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29734,28 +29734,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29764,9 +29764,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -29813,10 +29813,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29824,25 +29824,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29851,9 +29851,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -29875,7 +29875,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2787, col: 13, offset: 88715},
+																				pos:        position{line: 2809, col: 13, offset: 89521},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29925,10 +29925,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29937,28 +29937,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29967,9 +29967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30014,10 +30014,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30026,28 +30026,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30056,9 +30056,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30099,10 +30099,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30111,28 +30111,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30141,9 +30141,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30188,10 +30188,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30200,28 +30200,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30230,9 +30230,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30277,10 +30277,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30289,28 +30289,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30319,9 +30319,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30366,10 +30366,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30378,28 +30378,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30408,9 +30408,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30455,10 +30455,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30467,28 +30467,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30497,9 +30497,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30544,10 +30544,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30556,28 +30556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30586,9 +30586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30633,10 +30633,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30645,28 +30645,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30675,9 +30675,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -30714,10 +30714,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30726,28 +30726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30756,9 +30756,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -30767,21 +30767,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2635, col: 19, offset: 84167},
+																pos: position{line: 2657, col: 19, offset: 84973},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2635, col: 19, offset: 84167},
+																		pos:        position{line: 2657, col: 19, offset: 84973},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2635, col: 26, offset: 84174},
+																		pos: position{line: 2657, col: 26, offset: 84980},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30790,28 +30790,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30820,9 +30820,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -30836,12 +30836,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 14, offset: 90521},
+														pos: position{line: 2878, col: 14, offset: 91327},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2856, col: 14, offset: 90521},
+															pos: position{line: 2878, col: 14, offset: 91327},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 14, offset: 90521},
+																pos:        position{line: 2878, col: 14, offset: 91327},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30851,28 +30851,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30881,9 +30881,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -30918,10 +30918,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2933, col: 10, offset: 92767},
+												pos: position{line: 2955, col: 10, offset: 93573},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2933, col: 10, offset: 92767},
+													pos:        position{line: 2955, col: 10, offset: 93573},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30930,25 +30930,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2942, col: 12, offset: 92938},
+											pos: position{line: 2964, col: 12, offset: 93744},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2942, col: 13, offset: 92939},
+												pos: position{line: 2964, col: 13, offset: 93745},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2942, col: 13, offset: 92939},
+														pos:        position{line: 2964, col: 13, offset: 93745},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2942, col: 20, offset: 92946},
+														pos:        position{line: 2964, col: 20, offset: 93752},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2942, col: 29, offset: 92955},
+														pos:        position{line: 2964, col: 29, offset: 93761},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30969,10 +30969,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30981,28 +30981,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31011,9 +31011,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -31038,18 +31038,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31058,28 +31058,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31088,9 +31088,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -31126,9 +31126,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
@@ -31154,10 +31154,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31324,12 +31324,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31372,28 +31372,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31402,9 +31402,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -31434,10 +31434,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31478,12 +31478,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31555,12 +31555,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2937, col: 11, offset: 92828},
+																			pos: position{line: 2959, col: 11, offset: 93634},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2937, col: 11, offset: 92828},
+																				pos:        position{line: 2959, col: 11, offset: 93634},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31604,28 +31604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31634,9 +31634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -31694,12 +31694,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31742,28 +31742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31772,9 +31772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -31839,28 +31839,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31869,9 +31869,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -31934,10 +31934,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31946,28 +31946,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31976,9 +31976,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -31992,18 +31992,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2950, col: 11, offset: 93101},
+																							pos: position{line: 2972, col: 11, offset: 93907},
 																							expr: &anyMatcher{
-																								line: 2950, col: 13, offset: 93103,
+																								line: 2972, col: 13, offset: 93909,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32012,28 +32012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32042,9 +32042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -32063,12 +32063,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2937, col: 11, offset: 92828},
+																			pos: position{line: 2959, col: 11, offset: 93634},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2937, col: 11, offset: 92828},
+																				pos: position{line: 2959, col: 11, offset: 93634},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 11, offset: 92828},
+																					pos:        position{line: 2959, col: 11, offset: 93634},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32095,28 +32095,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32125,9 +32125,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -32168,18 +32168,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2950, col: 11, offset: 93101},
+													pos: position{line: 2972, col: 11, offset: 93907},
 													expr: &anyMatcher{
-														line: 2950, col: 13, offset: 93103,
+														line: 2972, col: 13, offset: 93909,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32188,28 +32188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32218,9 +32218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -32285,10 +32285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32297,28 +32297,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32327,9 +32327,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -32390,10 +32390,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32402,28 +32402,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32432,9 +32432,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -32488,10 +32488,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32500,28 +32500,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32530,9 +32530,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -32604,10 +32604,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32616,28 +32616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32646,9 +32646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -32664,9 +32664,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -32682,21 +32682,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32706,28 +32706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32736,9 +32736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -32800,10 +32800,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32812,28 +32812,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32842,9 +32842,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -32917,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -33033,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -33093,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -33111,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -33232,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -33292,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -33346,10 +33346,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33358,28 +33358,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33388,9 +33388,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -33424,10 +33424,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33436,28 +33436,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33466,9 +33466,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -33486,21 +33486,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33510,28 +33510,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33540,9 +33540,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -33570,10 +33570,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33582,28 +33582,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33612,9 +33612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -33671,10 +33671,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33683,28 +33683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33713,9 +33713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -33787,10 +33787,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33799,28 +33799,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33829,9 +33829,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -33847,9 +33847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -33865,21 +33865,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33889,28 +33889,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33919,9 +33919,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -33986,10 +33986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33998,28 +33998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34028,9 +34028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -34046,9 +34046,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -34104,10 +34104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34116,28 +34116,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34146,9 +34146,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -34220,10 +34220,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34232,28 +34232,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34262,9 +34262,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -34280,9 +34280,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -34298,21 +34298,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34322,28 +34322,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34352,9 +34352,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -34419,10 +34419,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34431,28 +34431,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34461,9 +34461,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -34479,9 +34479,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -34537,10 +34537,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34549,28 +34549,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34579,9 +34579,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -34653,10 +34653,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34665,28 +34665,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34695,9 +34695,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -34713,9 +34713,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -34731,21 +34731,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34755,28 +34755,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34785,9 +34785,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -34852,10 +34852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34864,28 +34864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34894,9 +34894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -34912,9 +34912,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -34948,18 +34948,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2950, col: 11, offset: 93101},
+																					pos: position{line: 2972, col: 11, offset: 93907},
 																					expr: &anyMatcher{
-																						line: 2950, col: 13, offset: 93103,
+																						line: 2972, col: 13, offset: 93909,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34968,28 +34968,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34998,9 +34998,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -35019,12 +35019,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 14, offset: 90521},
+																		pos: position{line: 2878, col: 14, offset: 91327},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 14, offset: 90521},
+																			pos: position{line: 2878, col: 14, offset: 91327},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 14, offset: 90521},
+																				pos:        position{line: 2878, col: 14, offset: 91327},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35034,28 +35034,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35064,9 +35064,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -35098,18 +35098,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2950, col: 11, offset: 93101},
+																								pos: position{line: 2972, col: 11, offset: 93907},
 																								expr: &anyMatcher{
-																									line: 2950, col: 13, offset: 93103,
+																									line: 2972, col: 13, offset: 93909,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35118,28 +35118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35148,9 +35148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -35169,12 +35169,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2856, col: 14, offset: 90521},
+																					pos: position{line: 2878, col: 14, offset: 91327},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 14, offset: 90521},
+																						pos: position{line: 2878, col: 14, offset: 91327},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 14, offset: 90521},
+																							pos:        position{line: 2878, col: 14, offset: 91327},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35184,28 +35184,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2955, col: 8, offset: 93165},
+																				pos: position{line: 2977, col: 8, offset: 93971},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2942, col: 12, offset: 92938},
+																						pos: position{line: 2964, col: 12, offset: 93744},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2942, col: 13, offset: 92939},
+																							pos: position{line: 2964, col: 13, offset: 93745},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 13, offset: 92939},
+																									pos:        position{line: 2964, col: 13, offset: 93745},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 20, offset: 92946},
+																									pos:        position{line: 2964, col: 20, offset: 93752},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 29, offset: 92955},
+																									pos:        position{line: 2964, col: 29, offset: 93761},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35214,9 +35214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -35234,12 +35234,12 @@ var g = &grammar{
 																				pos:   position{line: 1824, col: 5, offset: 58892},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2856, col: 14, offset: 90521},
+																					pos: position{line: 2878, col: 14, offset: 91327},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 14, offset: 90521},
+																						pos: position{line: 2878, col: 14, offset: 91327},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 14, offset: 90521},
+																							pos:        position{line: 2878, col: 14, offset: 91327},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35253,28 +35253,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2955, col: 8, offset: 93165},
+																				pos: position{line: 2977, col: 8, offset: 93971},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2942, col: 12, offset: 92938},
+																						pos: position{line: 2964, col: 12, offset: 93744},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2942, col: 13, offset: 92939},
+																							pos: position{line: 2964, col: 13, offset: 93745},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 13, offset: 92939},
+																									pos:        position{line: 2964, col: 13, offset: 93745},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 20, offset: 92946},
+																									pos:        position{line: 2964, col: 20, offset: 93752},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 29, offset: 92955},
+																									pos:        position{line: 2964, col: 29, offset: 93761},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35283,9 +35283,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -35332,10 +35332,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35344,28 +35344,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35374,9 +35374,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -35424,10 +35424,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35436,28 +35436,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35466,9 +35466,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -35477,9 +35477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -35495,21 +35495,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35519,28 +35519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35549,9 +35549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -35596,10 +35596,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2933, col: 10, offset: 92767},
+																					pos: position{line: 2955, col: 10, offset: 93573},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2933, col: 10, offset: 92767},
+																						pos:        position{line: 2955, col: 10, offset: 93573},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35608,28 +35608,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2955, col: 8, offset: 93165},
+																				pos: position{line: 2977, col: 8, offset: 93971},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2942, col: 12, offset: 92938},
+																						pos: position{line: 2964, col: 12, offset: 93744},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2942, col: 13, offset: 92939},
+																							pos: position{line: 2964, col: 13, offset: 93745},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 13, offset: 92939},
+																									pos:        position{line: 2964, col: 13, offset: 93745},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 20, offset: 92946},
+																									pos:        position{line: 2964, col: 20, offset: 93752},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 29, offset: 92955},
+																									pos:        position{line: 2964, col: 29, offset: 93761},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35638,9 +35638,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -35649,9 +35649,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -35707,10 +35707,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35719,28 +35719,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35749,9 +35749,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -35823,10 +35823,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35835,28 +35835,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35865,9 +35865,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -35883,9 +35883,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -35901,21 +35901,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35925,28 +35925,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35955,9 +35955,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -36022,10 +36022,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36034,28 +36034,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36064,9 +36064,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -36082,9 +36082,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -36140,10 +36140,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36152,28 +36152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36182,9 +36182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -36256,10 +36256,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36268,28 +36268,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36298,9 +36298,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -36316,9 +36316,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -36334,21 +36334,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36358,28 +36358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36388,9 +36388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -36455,10 +36455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36467,28 +36467,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36497,9 +36497,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -36515,9 +36515,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -36573,10 +36573,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36585,28 +36585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36615,9 +36615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -36689,10 +36689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2933, col: 10, offset: 92767},
+																												pos: position{line: 2955, col: 10, offset: 93573},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2933, col: 10, offset: 92767},
+																													pos:        position{line: 2955, col: 10, offset: 93573},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36701,28 +36701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2955, col: 8, offset: 93165},
+																											pos: position{line: 2977, col: 8, offset: 93971},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2942, col: 12, offset: 92938},
+																													pos: position{line: 2964, col: 12, offset: 93744},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2942, col: 13, offset: 92939},
+																														pos: position{line: 2964, col: 13, offset: 93745},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36731,9 +36731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2952, col: 8, offset: 93115},
+																													pos: position{line: 2974, col: 8, offset: 93921},
 																													expr: &anyMatcher{
-																														line: 2952, col: 9, offset: 93116,
+																														line: 2974, col: 9, offset: 93922,
 																													},
 																												},
 																											},
@@ -36749,9 +36749,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -36767,21 +36767,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2950, col: 11, offset: 93101},
+																						pos: position{line: 2972, col: 11, offset: 93907},
 																						expr: &anyMatcher{
-																							line: 2950, col: 13, offset: 93103,
+																							line: 2972, col: 13, offset: 93909,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 13, offset: 90454},
+																							pos: position{line: 2874, col: 13, offset: 91260},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2852, col: 13, offset: 90454},
+																								pos: position{line: 2874, col: 13, offset: 91260},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 13, offset: 90454},
+																									pos:        position{line: 2874, col: 13, offset: 91260},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36791,28 +36791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36821,9 +36821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -36888,10 +36888,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36900,28 +36900,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36930,9 +36930,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -36948,9 +36948,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -36961,27 +36961,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2738, col: 18, offset: 87074},
+										pos: position{line: 2760, col: 18, offset: 87880},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2739, col: 9, offset: 87084},
+											pos: position{line: 2761, col: 9, offset: 87890},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2739, col: 9, offset: 87084},
+													pos: position{line: 2761, col: 9, offset: 87890},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2739, col: 9, offset: 87084},
+															pos:        position{line: 2761, col: 9, offset: 87890},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2739, col: 15, offset: 87090},
+															pos: position{line: 2761, col: 15, offset: 87896},
 															expr: &actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36990,28 +36990,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2955, col: 8, offset: 93165},
+															pos: position{line: 2977, col: 8, offset: 93971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2942, col: 12, offset: 92938},
+																	pos: position{line: 2964, col: 12, offset: 93744},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2942, col: 13, offset: 92939},
+																		pos: position{line: 2964, col: 13, offset: 93745},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 13, offset: 92939},
+																				pos:        position{line: 2964, col: 13, offset: 93745},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 20, offset: 92946},
+																				pos:        position{line: 2964, col: 20, offset: 93752},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 29, offset: 92955},
+																				pos:        position{line: 2964, col: 29, offset: 93761},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37020,9 +37020,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -37030,43 +37030,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2740, col: 11, offset: 87123},
+													pos: position{line: 2762, col: 11, offset: 87929},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2740, col: 12, offset: 87124},
+															pos: position{line: 2762, col: 12, offset: 87930},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2740, col: 12, offset: 87124},
+																	pos:        position{line: 2762, col: 12, offset: 87930},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2740, col: 20, offset: 87132},
+																	pos:        position{line: 2762, col: 20, offset: 87938},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2740, col: 30, offset: 87142},
+																	pos:        position{line: 2762, col: 30, offset: 87948},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2740, col: 38, offset: 87150},
+																	pos:        position{line: 2762, col: 38, offset: 87956},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2740, col: 48, offset: 87160},
+																	pos:        position{line: 2762, col: 48, offset: 87966},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2740, col: 56, offset: 87168},
+																	pos:        position{line: 2762, col: 56, offset: 87974},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37074,12 +37074,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2740, col: 65, offset: 87177},
+															pos: position{line: 2762, col: 65, offset: 87983},
 															expr: &actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37088,28 +37088,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2955, col: 8, offset: 93165},
+															pos: position{line: 2977, col: 8, offset: 93971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2942, col: 12, offset: 92938},
+																	pos: position{line: 2964, col: 12, offset: 93744},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2942, col: 13, offset: 92939},
+																		pos: position{line: 2964, col: 13, offset: 93745},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 13, offset: 92939},
+																				pos:        position{line: 2964, col: 13, offset: 93745},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 20, offset: 92946},
+																				pos:        position{line: 2964, col: 20, offset: 93752},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 29, offset: 92955},
+																				pos:        position{line: 2964, col: 29, offset: 93761},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37118,38 +37118,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2740, col: 76, offset: 87188},
+															pos: position{line: 2762, col: 76, offset: 87994},
 															expr: &choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37158,9 +37158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -37180,24 +37180,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2629, col: 5, offset: 84010},
+										pos: position{line: 2651, col: 5, offset: 84816},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2629, col: 5, offset: 84010},
+											pos: position{line: 2651, col: 5, offset: 84816},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2635, col: 19, offset: 84167},
+													pos:        position{line: 2657, col: 19, offset: 84973},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2635, col: 26, offset: 84174},
+													pos: position{line: 2657, col: 26, offset: 84980},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37206,28 +37206,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37236,20 +37236,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2630, col: 5, offset: 84034},
+													pos:   position{line: 2652, col: 5, offset: 84840},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2630, col: 11, offset: 84040},
+														pos: position{line: 2652, col: 11, offset: 84846},
 														expr: &choiceExpr{
-															pos: position{line: 2630, col: 12, offset: 84041},
+															pos: position{line: 2652, col: 12, offset: 84847},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37258,18 +37258,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2950, col: 11, offset: 93101},
+																				pos: position{line: 2972, col: 11, offset: 93907},
 																				expr: &anyMatcher{
-																					line: 2950, col: 13, offset: 93103,
+																					line: 2972, col: 13, offset: 93909,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2933, col: 10, offset: 92767},
+																					pos: position{line: 2955, col: 10, offset: 93573},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2933, col: 10, offset: 92767},
+																						pos:        position{line: 2955, col: 10, offset: 93573},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37278,28 +37278,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2955, col: 8, offset: 93165},
+																				pos: position{line: 2977, col: 8, offset: 93971},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2942, col: 12, offset: 92938},
+																						pos: position{line: 2964, col: 12, offset: 93744},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2942, col: 13, offset: 92939},
+																							pos: position{line: 2964, col: 13, offset: 93745},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 13, offset: 92939},
+																									pos:        position{line: 2964, col: 13, offset: 93745},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 20, offset: 92946},
+																									pos:        position{line: 2964, col: 20, offset: 93752},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 29, offset: 92955},
+																									pos:        position{line: 2964, col: 29, offset: 93761},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37308,9 +37308,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -37319,32 +37319,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2642, col: 5, offset: 84286},
+																	pos: position{line: 2664, col: 5, offset: 85092},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2642, col: 5, offset: 84286},
+																		pos: position{line: 2664, col: 5, offset: 85092},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2642, col: 5, offset: 84286},
+																				pos: position{line: 2664, col: 5, offset: 85092},
 																				expr: &choiceExpr{
-																					pos: position{line: 2639, col: 22, offset: 84247},
+																					pos: position{line: 2661, col: 22, offset: 85053},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2635, col: 19, offset: 84167},
+																							pos: position{line: 2657, col: 19, offset: 84973},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2635, col: 19, offset: 84167},
+																									pos:        position{line: 2657, col: 19, offset: 84973},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2635, col: 26, offset: 84174},
+																									pos: position{line: 2657, col: 26, offset: 84980},
 																									expr: &actionExpr{
-																										pos: position{line: 2933, col: 10, offset: 92767},
+																										pos: position{line: 2955, col: 10, offset: 93573},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2933, col: 10, offset: 92767},
+																											pos:        position{line: 2955, col: 10, offset: 93573},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37353,28 +37353,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37383,9 +37383,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -37393,59 +37393,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2643, col: 5, offset: 84309},
+																				pos:   position{line: 2665, col: 5, offset: 85115},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2644, col: 9, offset: 84327},
+																					pos: position{line: 2666, col: 9, offset: 85133},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2644, col: 10, offset: 84328},
+																							pos: position{line: 2666, col: 10, offset: 85134},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2644, col: 10, offset: 84328},
+																								pos:   position{line: 2666, col: 10, offset: 85134},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2644, col: 17, offset: 84335},
+																									pos: position{line: 2666, col: 17, offset: 85141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2652, col: 21, offset: 84531},
+																											pos: position{line: 2674, col: 21, offset: 85337},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2652, col: 21, offset: 84531},
+																												pos: position{line: 2674, col: 21, offset: 85337},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2652, col: 21, offset: 84531},
+																														pos:   position{line: 2674, col: 21, offset: 85337},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2652, col: 27, offset: 84537},
+																															pos: position{line: 2674, col: 27, offset: 85343},
 																															expr: &actionExpr{
-																																pos: position{line: 2657, col: 5, offset: 84612},
+																																pos: position{line: 2679, col: 5, offset: 85418},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84612},
+																																	pos: position{line: 2679, col: 5, offset: 85418},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2657, col: 5, offset: 84612},
+																																			pos:        position{line: 2679, col: 5, offset: 85418},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2657, col: 9, offset: 84616},
+																																			pos: position{line: 2679, col: 9, offset: 85422},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2933, col: 10, offset: 92767},
+																																				pos: position{line: 2955, col: 10, offset: 93573},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2933, col: 10, offset: 92767},
+																																					pos:        position{line: 2955, col: 10, offset: 93573},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37454,21 +37454,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2657, col: 16, offset: 84623},
+																																			pos:   position{line: 2679, col: 16, offset: 85429},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 5, offset: 84823},
+																																				pos: position{line: 2685, col: 5, offset: 85629},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2663, col: 5, offset: 84823},
+																																					pos:   position{line: 2685, col: 5, offset: 85629},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2663, col: 14, offset: 84832},
+																																						pos: position{line: 2685, col: 14, offset: 85638},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2663, col: 14, offset: 84832},
+																																							pos: position{line: 2685, col: 14, offset: 85638},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2663, col: 14, offset: 84832},
+																																								pos:        position{line: 2685, col: 14, offset: 85638},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37485,28 +37485,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2955, col: 8, offset: 93165},
+																														pos: position{line: 2977, col: 8, offset: 93971},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2942, col: 12, offset: 92938},
+																																pos: position{line: 2964, col: 12, offset: 93744},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2942, col: 13, offset: 92939},
+																																	pos: position{line: 2964, col: 13, offset: 93745},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2942, col: 13, offset: 92939},
+																																			pos:        position{line: 2964, col: 13, offset: 93745},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2942, col: 20, offset: 92946},
+																																			pos:        position{line: 2964, col: 20, offset: 93752},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2942, col: 29, offset: 92955},
+																																			pos:        position{line: 2964, col: 29, offset: 93761},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37515,9 +37515,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2952, col: 8, offset: 93115},
+																																pos: position{line: 2974, col: 8, offset: 93921},
 																																expr: &anyMatcher{
-																																	line: 2952, col: 9, offset: 93116,
+																																	line: 2974, col: 9, offset: 93922,
 																																},
 																															},
 																														},
@@ -37526,40 +37526,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2669, col: 24, offset: 84968},
+																											pos: position{line: 2691, col: 24, offset: 85774},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2669, col: 24, offset: 84968},
+																												pos:   position{line: 2691, col: 24, offset: 85774},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2669, col: 30, offset: 84974},
+																													pos: position{line: 2691, col: 30, offset: 85780},
 																													expr: &actionExpr{
-																														pos: position{line: 2674, col: 5, offset: 85050},
+																														pos: position{line: 2696, col: 5, offset: 85856},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2674, col: 5, offset: 85050},
+																															pos: position{line: 2696, col: 5, offset: 85856},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2674, col: 5, offset: 85050},
+																																	pos: position{line: 2696, col: 5, offset: 85856},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2639, col: 22, offset: 84247},
+																																		pos: position{line: 2661, col: 22, offset: 85053},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2635, col: 19, offset: 84167},
+																																				pos: position{line: 2657, col: 19, offset: 84973},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2635, col: 19, offset: 84167},
+																																						pos:        position{line: 2657, col: 19, offset: 84973},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2635, col: 26, offset: 84174},
+																																						pos: position{line: 2657, col: 26, offset: 84980},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2933, col: 10, offset: 92767},
+																																							pos: position{line: 2955, col: 10, offset: 93573},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2933, col: 10, offset: 92767},
+																																								pos:        position{line: 2955, col: 10, offset: 93573},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37568,28 +37568,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2955, col: 8, offset: 93165},
+																																						pos: position{line: 2977, col: 8, offset: 93971},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2942, col: 12, offset: 92938},
+																																								pos: position{line: 2964, col: 12, offset: 93744},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2942, col: 13, offset: 92939},
+																																									pos: position{line: 2964, col: 13, offset: 93745},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 13, offset: 92939},
+																																											pos:        position{line: 2964, col: 13, offset: 93745},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 20, offset: 92946},
+																																											pos:        position{line: 2964, col: 20, offset: 93752},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2942, col: 29, offset: 92955},
+																																											pos:        position{line: 2964, col: 29, offset: 93761},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37598,9 +37598,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2952, col: 8, offset: 93115},
+																																								pos: position{line: 2974, col: 8, offset: 93921},
 																																								expr: &anyMatcher{
-																																									line: 2952, col: 9, offset: 93116,
+																																									line: 2974, col: 9, offset: 93922,
 																																								},
 																																							},
 																																						},
@@ -37608,16 +37608,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2952, col: 8, offset: 93115},
+																																				pos: position{line: 2974, col: 8, offset: 93921},
 																																				expr: &anyMatcher{
-																																					line: 2952, col: 9, offset: 93116,
+																																					line: 2974, col: 9, offset: 93922,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2675, col: 5, offset: 85073},
+																																	pos: position{line: 2697, col: 5, offset: 85879},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37625,18 +37625,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2950, col: 11, offset: 93101},
+																																					pos: position{line: 2972, col: 11, offset: 93907},
 																																					expr: &anyMatcher{
-																																						line: 2950, col: 13, offset: 93103,
+																																						line: 2972, col: 13, offset: 93909,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2933, col: 10, offset: 92767},
+																																						pos: position{line: 2955, col: 10, offset: 93573},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2933, col: 10, offset: 92767},
+																																							pos:        position{line: 2955, col: 10, offset: 93573},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37645,28 +37645,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2955, col: 8, offset: 93165},
+																																					pos: position{line: 2977, col: 8, offset: 93971},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2942, col: 12, offset: 92938},
+																																							pos: position{line: 2964, col: 12, offset: 93744},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2942, col: 13, offset: 92939},
+																																								pos: position{line: 2964, col: 13, offset: 93745},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2942, col: 13, offset: 92939},
+																																										pos:        position{line: 2964, col: 13, offset: 93745},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2942, col: 20, offset: 92946},
+																																										pos:        position{line: 2964, col: 20, offset: 93752},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2942, col: 29, offset: 92955},
+																																										pos:        position{line: 2964, col: 29, offset: 93761},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37675,9 +37675,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2952, col: 8, offset: 93115},
+																																							pos: position{line: 2974, col: 8, offset: 93921},
 																																							expr: &anyMatcher{
-																																								line: 2952, col: 9, offset: 93116,
+																																								line: 2974, col: 9, offset: 93922,
 																																							},
 																																						},
 																																					},
@@ -37687,17 +37687,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2676, col: 5, offset: 85088},
+																																	pos:   position{line: 2698, col: 5, offset: 85894},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2676, col: 12, offset: 85095},
+																																		pos: position{line: 2698, col: 12, offset: 85901},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2693, col: 20, offset: 85559},
+																																			pos: position{line: 2715, col: 20, offset: 86365},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2693, col: 20, offset: 85559},
+																																				pos: position{line: 2715, col: 20, offset: 86365},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2693, col: 20, offset: 85559},
+																																					pos:        position{line: 2715, col: 20, offset: 86365},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37708,18 +37708,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2676, col: 31, offset: 85114},
+																																	pos:        position{line: 2698, col: 31, offset: 85920},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2676, col: 35, offset: 85118},
+																																	pos: position{line: 2698, col: 35, offset: 85924},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2933, col: 10, offset: 92767},
+																																		pos: position{line: 2955, col: 10, offset: 93573},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2933, col: 10, offset: 92767},
+																																			pos:        position{line: 2955, col: 10, offset: 93573},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37728,27 +37728,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2676, col: 42, offset: 85125},
+																																	pos: position{line: 2698, col: 42, offset: 85931},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2942, col: 12, offset: 92938},
+																																		pos: position{line: 2964, col: 12, offset: 93744},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2942, col: 13, offset: 92939},
+																																			pos: position{line: 2964, col: 13, offset: 93745},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 13, offset: 92939},
+																																					pos:        position{line: 2964, col: 13, offset: 93745},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 20, offset: 92946},
+																																					pos:        position{line: 2964, col: 20, offset: 93752},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2942, col: 29, offset: 92955},
+																																					pos:        position{line: 2964, col: 29, offset: 93761},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37758,37 +37758,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2676, col: 51, offset: 85134},
+																																	pos:   position{line: 2698, col: 51, offset: 85940},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2682, col: 5, offset: 85293},
+																																		pos: position{line: 2704, col: 5, offset: 86099},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2683, col: 9, offset: 85303},
+																																			pos: position{line: 2705, col: 9, offset: 86109},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2683, col: 9, offset: 85303},
+																																				pos: position{line: 2705, col: 9, offset: 86109},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2683, col: 9, offset: 85303},
+																																						pos: position{line: 2705, col: 9, offset: 86109},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2639, col: 22, offset: 84247},
+																																							pos: position{line: 2661, col: 22, offset: 85053},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2635, col: 19, offset: 84167},
+																																									pos: position{line: 2657, col: 19, offset: 84973},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2635, col: 19, offset: 84167},
+																																											pos:        position{line: 2657, col: 19, offset: 84973},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2635, col: 26, offset: 84174},
+																																											pos: position{line: 2657, col: 26, offset: 84980},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2933, col: 10, offset: 92767},
+																																												pos: position{line: 2955, col: 10, offset: 93573},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2933, col: 10, offset: 92767},
+																																													pos:        position{line: 2955, col: 10, offset: 93573},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37797,28 +37797,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2955, col: 8, offset: 93165},
+																																											pos: position{line: 2977, col: 8, offset: 93971},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2942, col: 12, offset: 92938},
+																																													pos: position{line: 2964, col: 12, offset: 93744},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2942, col: 13, offset: 92939},
+																																														pos: position{line: 2964, col: 13, offset: 93745},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 13, offset: 92939},
+																																																pos:        position{line: 2964, col: 13, offset: 93745},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 20, offset: 92946},
+																																																pos:        position{line: 2964, col: 20, offset: 93752},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2942, col: 29, offset: 92955},
+																																																pos:        position{line: 2964, col: 29, offset: 93761},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37827,9 +37827,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2952, col: 8, offset: 93115},
+																																													pos: position{line: 2974, col: 8, offset: 93921},
 																																													expr: &anyMatcher{
-																																														line: 2952, col: 9, offset: 93116,
+																																														line: 2974, col: 9, offset: 93922,
 																																													},
 																																												},
 																																											},
@@ -37837,16 +37837,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2952, col: 8, offset: 93115},
+																																									pos: position{line: 2974, col: 8, offset: 93921},
 																																									expr: &anyMatcher{
-																																										line: 2952, col: 9, offset: 93116,
+																																										line: 2974, col: 9, offset: 93922,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2684, col: 9, offset: 85330},
+																																						pos: position{line: 2706, col: 9, offset: 86136},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37854,18 +37854,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2950, col: 11, offset: 93101},
+																																										pos: position{line: 2972, col: 11, offset: 93907},
 																																										expr: &anyMatcher{
-																																											line: 2950, col: 13, offset: 93103,
+																																											line: 2972, col: 13, offset: 93909,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2933, col: 10, offset: 92767},
+																																											pos: position{line: 2955, col: 10, offset: 93573},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2933, col: 10, offset: 92767},
+																																												pos:        position{line: 2955, col: 10, offset: 93573},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37874,28 +37874,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2955, col: 8, offset: 93165},
+																																										pos: position{line: 2977, col: 8, offset: 93971},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2942, col: 12, offset: 92938},
+																																												pos: position{line: 2964, col: 12, offset: 93744},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2942, col: 13, offset: 92939},
+																																													pos: position{line: 2964, col: 13, offset: 93745},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2942, col: 13, offset: 92939},
+																																															pos:        position{line: 2964, col: 13, offset: 93745},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2942, col: 20, offset: 92946},
+																																															pos:        position{line: 2964, col: 20, offset: 93752},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2942, col: 29, offset: 92955},
+																																															pos:        position{line: 2964, col: 29, offset: 93761},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37904,9 +37904,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2952, col: 8, offset: 93115},
+																																												pos: position{line: 2974, col: 8, offset: 93921},
 																																												expr: &anyMatcher{
-																																													line: 2952, col: 9, offset: 93116,
+																																													line: 2974, col: 9, offset: 93922,
 																																												},
 																																											},
 																																										},
@@ -37916,22 +37916,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2685, col: 9, offset: 85349},
+																																						pos: position{line: 2707, col: 9, offset: 86155},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2685, col: 11, offset: 85351},
+																																							pos: position{line: 2707, col: 11, offset: 86157},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2685, col: 11, offset: 85351},
+																																									pos:   position{line: 2707, col: 11, offset: 86157},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2685, col: 18, offset: 85358},
+																																										pos: position{line: 2707, col: 18, offset: 86164},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2693, col: 20, offset: 85559},
+																																											pos: position{line: 2715, col: 20, offset: 86365},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2693, col: 20, offset: 85559},
+																																												pos: position{line: 2715, col: 20, offset: 86365},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2693, col: 20, offset: 85559},
+																																													pos:        position{line: 2715, col: 20, offset: 86365},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37942,7 +37942,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2685, col: 37, offset: 85377},
+																																									pos:        position{line: 2707, col: 37, offset: 86183},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37951,15 +37951,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2686, col: 9, offset: 85390},
+																																						pos:   position{line: 2708, col: 9, offset: 86196},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2686, col: 18, offset: 85399},
+																																							pos: position{line: 2708, col: 18, offset: 86205},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2686, col: 18, offset: 85399},
+																																								pos: position{line: 2708, col: 18, offset: 86205},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2686, col: 18, offset: 85399},
+																																									pos:        position{line: 2708, col: 18, offset: 86205},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37969,30 +37969,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2688, col: 12, offset: 85461},
+																																						pos: position{line: 2710, col: 12, offset: 86267},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2955, col: 8, offset: 93165},
+																																							pos: position{line: 2977, col: 8, offset: 93971},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2942, col: 12, offset: 92938},
+																																									pos: position{line: 2964, col: 12, offset: 93744},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2942, col: 13, offset: 92939},
+																																										pos: position{line: 2964, col: 13, offset: 93745},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 13, offset: 92939},
+																																												pos:        position{line: 2964, col: 13, offset: 93745},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 20, offset: 92946},
+																																												pos:        position{line: 2964, col: 20, offset: 93752},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2942, col: 29, offset: 92955},
+																																												pos:        position{line: 2964, col: 29, offset: 93761},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38001,9 +38001,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2952, col: 8, offset: 93115},
+																																									pos: position{line: 2974, col: 8, offset: 93921},
 																																									expr: &anyMatcher{
-																																										line: 2952, col: 9, offset: 93116,
+																																										line: 2974, col: 9, offset: 93922,
 																																									},
 																																								},
 																																							},
@@ -38031,18 +38031,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2950, col: 11, offset: 93101},
+																										pos: position{line: 2972, col: 11, offset: 93907},
 																										expr: &anyMatcher{
-																											line: 2950, col: 13, offset: 93103,
+																											line: 2972, col: 13, offset: 93909,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2933, col: 10, offset: 92767},
+																											pos: position{line: 2955, col: 10, offset: 93573},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2933, col: 10, offset: 92767},
+																												pos:        position{line: 2955, col: 10, offset: 93573},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38051,28 +38051,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2955, col: 8, offset: 93165},
+																										pos: position{line: 2977, col: 8, offset: 93971},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2942, col: 12, offset: 92938},
+																												pos: position{line: 2964, col: 12, offset: 93744},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2942, col: 13, offset: 92939},
+																													pos: position{line: 2964, col: 13, offset: 93745},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 13, offset: 92939},
+																															pos:        position{line: 2964, col: 13, offset: 93745},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 20, offset: 92946},
+																															pos:        position{line: 2964, col: 20, offset: 93752},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2942, col: 29, offset: 92955},
+																															pos:        position{line: 2964, col: 29, offset: 93761},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38081,9 +38081,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2952, col: 8, offset: 93115},
+																												pos: position{line: 2974, col: 8, offset: 93921},
 																												expr: &anyMatcher{
-																													line: 2952, col: 9, offset: 93116,
+																													line: 2974, col: 9, offset: 93922,
 																												},
 																											},
 																										},
@@ -38102,24 +38102,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2639, col: 22, offset: 84247},
+													pos: position{line: 2661, col: 22, offset: 85053},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2635, col: 19, offset: 84167},
+															pos: position{line: 2657, col: 19, offset: 84973},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2635, col: 19, offset: 84167},
+																	pos:        position{line: 2657, col: 19, offset: 84973},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2635, col: 26, offset: 84174},
+																	pos: position{line: 2657, col: 26, offset: 84980},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38128,28 +38128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38158,9 +38158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -38168,9 +38168,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -38179,36 +38179,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 80481},
+										pos: position{line: 2525, col: 22, offset: 81287},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 80481},
+											pos: position{line: 2525, col: 22, offset: 81287},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 80702},
+													pos:        position{line: 2530, col: 31, offset: 81508},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 80707},
+													pos: position{line: 2530, col: 36, offset: 81513},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 80708},
+														pos:        position{line: 2530, col: 37, offset: 81514},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 80508},
+													pos:   position{line: 2525, col: 49, offset: 81314},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 13, offset: 90454},
+														pos: position{line: 2874, col: 13, offset: 91260},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2852, col: 13, offset: 90454},
+															pos: position{line: 2874, col: 13, offset: 91260},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 13, offset: 90454},
+																pos:        position{line: 2874, col: 13, offset: 91260},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38218,28 +38218,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2955, col: 8, offset: 93165},
+													pos: position{line: 2977, col: 8, offset: 93971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38248,9 +38248,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2952, col: 8, offset: 93115},
+															pos: position{line: 2974, col: 8, offset: 93921},
 															expr: &anyMatcher{
-																line: 2952, col: 9, offset: 93116,
+																line: 2974, col: 9, offset: 93922,
 															},
 														},
 													},
@@ -38341,12 +38341,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1777, col: 13, offset: 57288},
 																						expr: &actionExpr{
-																							pos: position{line: 2937, col: 11, offset: 92828},
+																							pos: position{line: 2959, col: 11, offset: 93634},
 																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2937, col: 11, offset: 92828},
+																								pos: position{line: 2959, col: 11, offset: 93634},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2937, col: 11, offset: 92828},
+																									pos:        position{line: 2959, col: 11, offset: 93634},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38367,10 +38367,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1779, col: 14, offset: 57370},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38379,28 +38379,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38409,9 +38409,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -38442,18 +38442,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2950, col: 11, offset: 93101},
+																					pos: position{line: 2972, col: 11, offset: 93907},
 																					expr: &anyMatcher{
-																						line: 2950, col: 13, offset: 93103,
+																						line: 2972, col: 13, offset: 93909,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38462,28 +38462,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2955, col: 8, offset: 93165},
+																					pos: position{line: 2977, col: 8, offset: 93971},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38492,9 +38492,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2952, col: 8, offset: 93115},
+																							pos: position{line: 2974, col: 8, offset: 93921},
 																							expr: &anyMatcher{
-																								line: 2952, col: 9, offset: 93116,
+																								line: 2974, col: 9, offset: 93922,
 																							},
 																						},
 																					},
@@ -38517,10 +38517,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2933, col: 10, offset: 92767},
+																					pos: position{line: 2955, col: 10, offset: 93573},
 																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2933, col: 10, offset: 92767},
+																						pos:        position{line: 2955, col: 10, offset: 93573},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38529,25 +38529,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38569,10 +38569,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38739,12 +38739,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2937, col: 11, offset: 92828},
+																					pos: position{line: 2959, col: 11, offset: 93634},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2937, col: 11, offset: 92828},
+																						pos: position{line: 2959, col: 11, offset: 93634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2937, col: 11, offset: 92828},
+																							pos:        position{line: 2959, col: 11, offset: 93634},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38767,10 +38767,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38811,12 +38811,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2937, col: 11, offset: 92828},
+																					pos: position{line: 2959, col: 11, offset: 93634},
 																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2937, col: 11, offset: 92828},
+																						pos: position{line: 2959, col: 11, offset: 93634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2937, col: 11, offset: 92828},
+																							pos:        position{line: 2959, col: 11, offset: 93634},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38867,12 +38867,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2937, col: 11, offset: 92828},
+																					pos: position{line: 2959, col: 11, offset: 93634},
 																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2937, col: 11, offset: 92828},
+																						pos: position{line: 2959, col: 11, offset: 93634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2937, col: 11, offset: 92828},
+																							pos:        position{line: 2959, col: 11, offset: 93634},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38933,28 +38933,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2955, col: 8, offset: 93165},
+																									pos: position{line: 2977, col: 8, offset: 93971},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2942, col: 12, offset: 92938},
+																											pos: position{line: 2964, col: 12, offset: 93744},
 																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2942, col: 13, offset: 92939},
+																												pos: position{line: 2964, col: 13, offset: 93745},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 13, offset: 92939},
+																														pos:        position{line: 2964, col: 13, offset: 93745},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 20, offset: 92946},
+																														pos:        position{line: 2964, col: 20, offset: 93752},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2942, col: 29, offset: 92955},
+																														pos:        position{line: 2964, col: 29, offset: 93761},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38963,9 +38963,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2952, col: 8, offset: 93115},
+																											pos: position{line: 2974, col: 8, offset: 93921},
 																											expr: &anyMatcher{
-																												line: 2952, col: 9, offset: 93116,
+																												line: 2974, col: 9, offset: 93922,
 																											},
 																										},
 																									},
@@ -39012,10 +39012,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2933, col: 10, offset: 92767},
+																						pos: position{line: 2955, col: 10, offset: 93573},
 																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2933, col: 10, offset: 92767},
+																							pos:        position{line: 2955, col: 10, offset: 93573},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39023,25 +39023,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2942, col: 12, offset: 92938},
+																						pos: position{line: 2964, col: 12, offset: 93744},
 																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2942, col: 13, offset: 92939},
+																							pos: position{line: 2964, col: 13, offset: 93745},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 13, offset: 92939},
+																									pos:        position{line: 2964, col: 13, offset: 93745},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 20, offset: 92946},
+																									pos:        position{line: 2964, col: 20, offset: 93752},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2942, col: 29, offset: 92955},
+																									pos:        position{line: 2964, col: 29, offset: 93761},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39050,9 +39050,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2952, col: 8, offset: 93115},
+																						pos: position{line: 2974, col: 8, offset: 93921},
 																						expr: &anyMatcher{
-																							line: 2952, col: 9, offset: 93116,
+																							line: 2974, col: 9, offset: 93922,
 																						},
 																					},
 																				},
@@ -39074,7 +39074,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2787, col: 13, offset: 88715},
+																								pos:        position{line: 2809, col: 13, offset: 89521},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39124,10 +39124,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39136,28 +39136,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39166,9 +39166,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39213,10 +39213,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39225,28 +39225,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39255,9 +39255,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39298,10 +39298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39310,28 +39310,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39340,9 +39340,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39387,10 +39387,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39399,28 +39399,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39429,9 +39429,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39476,10 +39476,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39488,28 +39488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39518,9 +39518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39565,10 +39565,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39577,28 +39577,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39607,9 +39607,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39654,10 +39654,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39666,28 +39666,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39696,9 +39696,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39743,10 +39743,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39755,28 +39755,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39785,9 +39785,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39832,10 +39832,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2933, col: 10, offset: 92767},
+																														pos: position{line: 2955, col: 10, offset: 93573},
 																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2933, col: 10, offset: 92767},
+																															pos:        position{line: 2955, col: 10, offset: 93573},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39844,28 +39844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2955, col: 8, offset: 93165},
+																													pos: position{line: 2977, col: 8, offset: 93971},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2942, col: 12, offset: 92938},
+																															pos: position{line: 2964, col: 12, offset: 93744},
 																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2942, col: 13, offset: 92939},
+																																pos: position{line: 2964, col: 13, offset: 93745},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 13, offset: 92939},
+																																		pos:        position{line: 2964, col: 13, offset: 93745},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 20, offset: 92946},
+																																		pos:        position{line: 2964, col: 20, offset: 93752},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2942, col: 29, offset: 92955},
+																																		pos:        position{line: 2964, col: 29, offset: 93761},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39874,9 +39874,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2952, col: 8, offset: 93115},
+																															pos: position{line: 2974, col: 8, offset: 93921},
 																															expr: &anyMatcher{
-																																line: 2952, col: 9, offset: 93116,
+																																line: 2974, col: 9, offset: 93922,
 																															},
 																														},
 																													},
@@ -39913,10 +39913,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2933, col: 10, offset: 92767},
+																								pos: position{line: 2955, col: 10, offset: 93573},
 																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2933, col: 10, offset: 92767},
+																									pos:        position{line: 2955, col: 10, offset: 93573},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39925,28 +39925,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2955, col: 8, offset: 93165},
+																							pos: position{line: 2977, col: 8, offset: 93971},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2942, col: 12, offset: 92938},
+																									pos: position{line: 2964, col: 12, offset: 93744},
 																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2942, col: 13, offset: 92939},
+																										pos: position{line: 2964, col: 13, offset: 93745},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 13, offset: 92939},
+																												pos:        position{line: 2964, col: 13, offset: 93745},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 20, offset: 92946},
+																												pos:        position{line: 2964, col: 20, offset: 93752},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2942, col: 29, offset: 92955},
+																												pos:        position{line: 2964, col: 29, offset: 93761},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39955,9 +39955,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2952, col: 8, offset: 93115},
+																									pos: position{line: 2974, col: 8, offset: 93921},
 																									expr: &anyMatcher{
-																										line: 2952, col: 9, offset: 93116,
+																										line: 2974, col: 9, offset: 93922,
 																									},
 																								},
 																							},
@@ -39966,21 +39966,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2635, col: 19, offset: 84167},
+																				pos: position{line: 2657, col: 19, offset: 84973},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2635, col: 19, offset: 84167},
+																						pos:        position{line: 2657, col: 19, offset: 84973},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2635, col: 26, offset: 84174},
+																						pos: position{line: 2657, col: 26, offset: 84980},
 																						expr: &actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39989,28 +39989,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2955, col: 8, offset: 93165},
+																						pos: position{line: 2977, col: 8, offset: 93971},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2942, col: 12, offset: 92938},
+																								pos: position{line: 2964, col: 12, offset: 93744},
 																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2942, col: 13, offset: 92939},
+																									pos: position{line: 2964, col: 13, offset: 93745},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 13, offset: 92939},
+																											pos:        position{line: 2964, col: 13, offset: 93745},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 20, offset: 92946},
+																											pos:        position{line: 2964, col: 20, offset: 93752},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2942, col: 29, offset: 92955},
+																											pos:        position{line: 2964, col: 29, offset: 93761},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40019,9 +40019,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2952, col: 8, offset: 93115},
+																								pos: position{line: 2974, col: 8, offset: 93921},
 																								expr: &anyMatcher{
-																									line: 2952, col: 9, offset: 93116,
+																									line: 2974, col: 9, offset: 93922,
 																								},
 																							},
 																						},
@@ -40035,12 +40035,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 14, offset: 90521},
+																		pos: position{line: 2878, col: 14, offset: 91327},
 																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 14, offset: 90521},
+																			pos: position{line: 2878, col: 14, offset: 91327},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 14, offset: 90521},
+																				pos:        position{line: 2878, col: 14, offset: 91327},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40050,28 +40050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40080,9 +40080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -40147,10 +40147,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40164,25 +40164,25 @@ var g = &grammar{
 								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2942, col: 12, offset: 92938},
+										pos: position{line: 2964, col: 12, offset: 93744},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2942, col: 13, offset: 92939},
+											pos: position{line: 2964, col: 13, offset: 93745},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2942, col: 13, offset: 92939},
+													pos:        position{line: 2964, col: 13, offset: 93745},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 20, offset: 92946},
+													pos:        position{line: 2964, col: 20, offset: 93752},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 29, offset: 92955},
+													pos:        position{line: 2964, col: 29, offset: 93761},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40191,9 +40191,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2952, col: 8, offset: 93115},
+										pos: position{line: 2974, col: 8, offset: 93921},
 										expr: &anyMatcher{
-											line: 2952, col: 9, offset: 93116,
+											line: 2974, col: 9, offset: 93922,
 										},
 									},
 									&ruleRefExpr{
@@ -40222,7 +40222,7 @@ var g = &grammar{
 								pos: position{line: 1785, col: 7, offset: 57501},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2787, col: 13, offset: 88715},
+										pos:        position{line: 2809, col: 13, offset: 89521},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -40241,12 +40241,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2937, col: 11, offset: 92828},
+													pos: position{line: 2959, col: 11, offset: 93634},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2937, col: 11, offset: 92828},
+														pos: position{line: 2959, col: 11, offset: 93634},
 														expr: &charClassMatcher{
-															pos:        position{line: 2937, col: 11, offset: 92828},
+															pos:        position{line: 2959, col: 11, offset: 93634},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40337,12 +40337,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40363,10 +40363,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40375,28 +40375,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2955, col: 8, offset: 93165},
+															pos: position{line: 2977, col: 8, offset: 93971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2942, col: 12, offset: 92938},
+																	pos: position{line: 2964, col: 12, offset: 93744},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2942, col: 13, offset: 92939},
+																		pos: position{line: 2964, col: 13, offset: 93745},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 13, offset: 92939},
+																				pos:        position{line: 2964, col: 13, offset: 93745},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 20, offset: 92946},
+																				pos:        position{line: 2964, col: 20, offset: 93752},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 29, offset: 92955},
+																				pos:        position{line: 2964, col: 29, offset: 93761},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40405,9 +40405,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -40433,12 +40433,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 14, offset: 90521},
+												pos: position{line: 2878, col: 14, offset: 91327},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 14, offset: 90521},
+													pos: position{line: 2878, col: 14, offset: 91327},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 14, offset: 90521},
+														pos:        position{line: 2878, col: 14, offset: 91327},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40452,28 +40452,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2955, col: 8, offset: 93165},
+											pos: position{line: 2977, col: 8, offset: 93971},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2942, col: 12, offset: 92938},
+													pos: position{line: 2964, col: 12, offset: 93744},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2942, col: 13, offset: 92939},
+														pos: position{line: 2964, col: 13, offset: 93745},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2942, col: 13, offset: 92939},
+																pos:        position{line: 2964, col: 13, offset: 93745},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2942, col: 20, offset: 92946},
+																pos:        position{line: 2964, col: 20, offset: 93752},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2942, col: 29, offset: 92955},
+																pos:        position{line: 2964, col: 29, offset: 93761},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40482,9 +40482,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -40509,9 +40509,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58066},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2950, col: 11, offset: 93101},
+												pos: position{line: 2972, col: 11, offset: 93907},
 												expr: &anyMatcher{
-													line: 2950, col: 13, offset: 93103,
+													line: 2972, col: 13, offset: 93909,
 												},
 											},
 											&notExpr{
@@ -40523,18 +40523,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40543,28 +40543,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40573,9 +40573,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -40605,7 +40605,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2787, col: 13, offset: 88715},
+																			pos:        position{line: 2809, col: 13, offset: 89521},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40655,10 +40655,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40667,28 +40667,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40697,9 +40697,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -40744,10 +40744,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40756,28 +40756,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40786,9 +40786,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -40829,10 +40829,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40841,28 +40841,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40871,9 +40871,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -40918,10 +40918,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40930,28 +40930,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40960,9 +40960,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41007,10 +41007,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41019,28 +41019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41049,9 +41049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41096,10 +41096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41108,28 +41108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41138,9 +41138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41185,10 +41185,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41197,28 +41197,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41227,9 +41227,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41274,10 +41274,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41286,28 +41286,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41316,9 +41316,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41363,10 +41363,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41375,28 +41375,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41405,9 +41405,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -41444,10 +41444,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41456,28 +41456,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41486,9 +41486,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -41497,21 +41497,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2635, col: 19, offset: 84167},
+															pos: position{line: 2657, col: 19, offset: 84973},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2635, col: 19, offset: 84167},
+																	pos:        position{line: 2657, col: 19, offset: 84973},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2635, col: 26, offset: 84174},
+																	pos: position{line: 2657, col: 26, offset: 84980},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41520,28 +41520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41550,9 +41550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -41576,10 +41576,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41588,25 +41588,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41624,36 +41624,36 @@ var g = &grammar{
 													pos: position{line: 1801, col: 15, offset: 58228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 80481},
+															pos: position{line: 2525, col: 22, offset: 81287},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 80481},
+																pos: position{line: 2525, col: 22, offset: 81287},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 80702},
+																		pos:        position{line: 2530, col: 31, offset: 81508},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 80707},
+																		pos: position{line: 2530, col: 36, offset: 81513},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 80708},
+																			pos:        position{line: 2530, col: 37, offset: 81514},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 80508},
+																		pos:   position{line: 2525, col: 49, offset: 81314},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 13, offset: 90454},
+																			pos: position{line: 2874, col: 13, offset: 91260},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2852, col: 13, offset: 90454},
+																				pos: position{line: 2874, col: 13, offset: 91260},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 13, offset: 90454},
+																					pos:        position{line: 2874, col: 13, offset: 91260},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41663,28 +41663,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41693,9 +41693,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -41713,12 +41713,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 14, offset: 90521},
+																			pos: position{line: 2878, col: 14, offset: 91327},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 14, offset: 90521},
+																				pos: position{line: 2878, col: 14, offset: 91327},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 14, offset: 90521},
+																					pos:        position{line: 2878, col: 14, offset: 91327},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41732,28 +41732,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41762,9 +41762,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -41870,12 +41870,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 92828},
+																	pos: position{line: 2959, col: 11, offset: 93634},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2937, col: 11, offset: 92828},
+																		pos: position{line: 2959, col: 11, offset: 93634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2937, col: 11, offset: 92828},
+																			pos:        position{line: 2959, col: 11, offset: 93634},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41896,10 +41896,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41908,28 +41908,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2955, col: 8, offset: 93165},
+															pos: position{line: 2977, col: 8, offset: 93971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2942, col: 12, offset: 92938},
+																	pos: position{line: 2964, col: 12, offset: 93744},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2942, col: 13, offset: 92939},
+																		pos: position{line: 2964, col: 13, offset: 93745},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 13, offset: 92939},
+																				pos:        position{line: 2964, col: 13, offset: 93745},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 20, offset: 92946},
+																				pos:        position{line: 2964, col: 20, offset: 93752},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 29, offset: 92955},
+																				pos:        position{line: 2964, col: 29, offset: 93761},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41938,9 +41938,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -41966,12 +41966,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 14, offset: 90521},
+												pos: position{line: 2878, col: 14, offset: 91327},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 14, offset: 90521},
+													pos: position{line: 2878, col: 14, offset: 91327},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 14, offset: 90521},
+														pos:        position{line: 2878, col: 14, offset: 91327},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41985,28 +41985,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2955, col: 8, offset: 93165},
+											pos: position{line: 2977, col: 8, offset: 93971},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2942, col: 12, offset: 92938},
+													pos: position{line: 2964, col: 12, offset: 93744},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2942, col: 13, offset: 92939},
+														pos: position{line: 2964, col: 13, offset: 93745},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2942, col: 13, offset: 92939},
+																pos:        position{line: 2964, col: 13, offset: 93745},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2942, col: 20, offset: 92946},
+																pos:        position{line: 2964, col: 20, offset: 93752},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2942, col: 29, offset: 92955},
+																pos:        position{line: 2964, col: 29, offset: 93761},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42015,9 +42015,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2952, col: 8, offset: 93115},
+													pos: position{line: 2974, col: 8, offset: 93921},
 													expr: &anyMatcher{
-														line: 2952, col: 9, offset: 93116,
+														line: 2974, col: 9, offset: 93922,
 													},
 												},
 											},
@@ -42038,9 +42038,9 @@ var g = &grammar{
 										pos: position{line: 1812, col: 9, offset: 58534},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2950, col: 11, offset: 93101},
+												pos: position{line: 2972, col: 11, offset: 93907},
 												expr: &anyMatcher{
-													line: 2950, col: 13, offset: 93103,
+													line: 2972, col: 13, offset: 93909,
 												},
 											},
 											&notExpr{
@@ -42052,18 +42052,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2950, col: 11, offset: 93101},
+																pos: position{line: 2972, col: 11, offset: 93907},
 																expr: &anyMatcher{
-																	line: 2950, col: 13, offset: 93103,
+																	line: 2972, col: 13, offset: 93909,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42072,28 +42072,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2955, col: 8, offset: 93165},
+																pos: position{line: 2977, col: 8, offset: 93971},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2942, col: 12, offset: 92938},
+																		pos: position{line: 2964, col: 12, offset: 93744},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2942, col: 13, offset: 92939},
+																			pos: position{line: 2964, col: 13, offset: 93745},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 13, offset: 92939},
+																					pos:        position{line: 2964, col: 13, offset: 93745},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 20, offset: 92946},
+																					pos:        position{line: 2964, col: 20, offset: 93752},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2942, col: 29, offset: 92955},
+																					pos:        position{line: 2964, col: 29, offset: 93761},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42102,9 +42102,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2952, col: 8, offset: 93115},
+																		pos: position{line: 2974, col: 8, offset: 93921},
 																		expr: &anyMatcher{
-																			line: 2952, col: 9, offset: 93116,
+																			line: 2974, col: 9, offset: 93922,
 																		},
 																	},
 																},
@@ -42134,7 +42134,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2787, col: 13, offset: 88715},
+																			pos:        position{line: 2809, col: 13, offset: 89521},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42184,10 +42184,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42196,28 +42196,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42226,9 +42226,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42273,10 +42273,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42285,28 +42285,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42315,9 +42315,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42358,10 +42358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42370,28 +42370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42400,9 +42400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42447,10 +42447,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42459,28 +42459,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42489,9 +42489,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42536,10 +42536,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42548,28 +42548,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42578,9 +42578,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42625,10 +42625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42637,28 +42637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42667,9 +42667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42714,10 +42714,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42726,28 +42726,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42756,9 +42756,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42803,10 +42803,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42815,28 +42815,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42845,9 +42845,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42892,10 +42892,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2933, col: 10, offset: 92767},
+																									pos: position{line: 2955, col: 10, offset: 93573},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2933, col: 10, offset: 92767},
+																										pos:        position{line: 2955, col: 10, offset: 93573},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42904,28 +42904,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2955, col: 8, offset: 93165},
+																								pos: position{line: 2977, col: 8, offset: 93971},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2942, col: 12, offset: 92938},
+																										pos: position{line: 2964, col: 12, offset: 93744},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2942, col: 13, offset: 92939},
+																											pos: position{line: 2964, col: 13, offset: 93745},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 13, offset: 92939},
+																													pos:        position{line: 2964, col: 13, offset: 93745},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 20, offset: 92946},
+																													pos:        position{line: 2964, col: 20, offset: 93752},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2942, col: 29, offset: 92955},
+																													pos:        position{line: 2964, col: 29, offset: 93761},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42934,9 +42934,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2952, col: 8, offset: 93115},
+																										pos: position{line: 2974, col: 8, offset: 93921},
 																										expr: &anyMatcher{
-																											line: 2952, col: 9, offset: 93116,
+																											line: 2974, col: 9, offset: 93922,
 																										},
 																									},
 																								},
@@ -42973,10 +42973,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42985,28 +42985,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43015,9 +43015,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -43026,21 +43026,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2635, col: 19, offset: 84167},
+															pos: position{line: 2657, col: 19, offset: 84973},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2635, col: 19, offset: 84167},
+																	pos:        position{line: 2657, col: 19, offset: 84973},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2635, col: 26, offset: 84174},
+																	pos: position{line: 2657, col: 26, offset: 84980},
 																	expr: &actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43049,28 +43049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43079,9 +43079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -43098,36 +43098,36 @@ var g = &grammar{
 													pos: position{line: 1816, col: 15, offset: 58663},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 80481},
+															pos: position{line: 2525, col: 22, offset: 81287},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 80481},
+																pos: position{line: 2525, col: 22, offset: 81287},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 80702},
+																		pos:        position{line: 2530, col: 31, offset: 81508},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 80707},
+																		pos: position{line: 2530, col: 36, offset: 81513},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 80708},
+																			pos:        position{line: 2530, col: 37, offset: 81514},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 80508},
+																		pos:   position{line: 2525, col: 49, offset: 81314},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 13, offset: 90454},
+																			pos: position{line: 2874, col: 13, offset: 91260},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2852, col: 13, offset: 90454},
+																				pos: position{line: 2874, col: 13, offset: 91260},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 13, offset: 90454},
+																					pos:        position{line: 2874, col: 13, offset: 91260},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43137,28 +43137,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43167,9 +43167,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -43187,12 +43187,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2856, col: 14, offset: 90521},
+																			pos: position{line: 2878, col: 14, offset: 91327},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 14, offset: 90521},
+																				pos: position{line: 2878, col: 14, offset: 91327},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 14, offset: 90521},
+																					pos:        position{line: 2878, col: 14, offset: 91327},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43206,28 +43206,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2955, col: 8, offset: 93165},
+																		pos: position{line: 2977, col: 8, offset: 93971},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43236,9 +43236,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2952, col: 8, offset: 93115},
+																				pos: position{line: 2974, col: 8, offset: 93921},
 																				expr: &anyMatcher{
-																					line: 2952, col: 9, offset: 93116,
+																					line: 2974, col: 9, offset: 93922,
 																				},
 																			},
 																		},
@@ -43451,30 +43451,30 @@ var g = &grammar{
 				pos: position{line: 1890, col: 5, offset: 60860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2796, col: 5, offset: 88862},
+						pos: position{line: 2818, col: 5, offset: 89668},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2796, col: 5, offset: 88862},
+							pos: position{line: 2818, col: 5, offset: 89668},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2796, col: 5, offset: 88862},
+									pos: position{line: 2818, col: 5, offset: 89668},
 									expr: &seqExpr{
-										pos: position{line: 2797, col: 9, offset: 88873},
+										pos: position{line: 2819, col: 9, offset: 89679},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2797, col: 9, offset: 88873},
+												pos: position{line: 2819, col: 9, offset: 89679},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2800, col: 9, offset: 88936},
+												pos:   position{line: 2822, col: 9, offset: 89742},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2772, col: 18, offset: 88248},
+													pos: position{line: 2794, col: 18, offset: 89054},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2772, col: 19, offset: 88249},
+														pos: position{line: 2794, col: 19, offset: 89055},
 														expr: &charClassMatcher{
-															pos:        position{line: 2772, col: 19, offset: 88249},
+															pos:        position{line: 2794, col: 19, offset: 89055},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43485,28 +43485,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2800, col: 30, offset: 88957},
+												pos:        position{line: 2822, col: 30, offset: 89763},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2801, col: 9, offset: 89044},
+												pos: position{line: 2823, col: 9, offset: 89850},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2805, col: 5, offset: 89156},
+									pos:   position{line: 2827, col: 5, offset: 89962},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2805, col: 11, offset: 89162},
+										pos: position{line: 2827, col: 11, offset: 89968},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2805, col: 11, offset: 89162},
+											pos: position{line: 2827, col: 11, offset: 89968},
 											expr: &charClassMatcher{
-												pos:        position{line: 2805, col: 11, offset: 89162},
+												pos:        position{line: 2827, col: 11, offset: 89968},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43516,32 +43516,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2808, col: 5, offset: 89220},
+									pos: position{line: 2830, col: 5, offset: 90026},
 									expr: &seqExpr{
-										pos: position{line: 2809, col: 9, offset: 89231},
+										pos: position{line: 2831, col: 9, offset: 90037},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2809, col: 9, offset: 89231},
+												pos:        position{line: 2831, col: 9, offset: 90037},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2810, col: 9, offset: 89280},
+												pos: position{line: 2832, col: 9, offset: 90086},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2814, col: 5, offset: 89360},
+									pos: position{line: 2836, col: 5, offset: 90166},
 									expr: &seqExpr{
-										pos: position{line: 2815, col: 9, offset: 89371},
+										pos: position{line: 2837, col: 9, offset: 90177},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2815, col: 9, offset: 89371},
+												pos: position{line: 2837, col: 9, offset: 90177},
 												expr: &charClassMatcher{
-													pos:        position{line: 2815, col: 9, offset: 89371},
+													pos:        position{line: 2837, col: 9, offset: 90177},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43550,13 +43550,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2815, col: 23, offset: 89385},
+												pos:        position{line: 2837, col: 23, offset: 90191},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2815, col: 27, offset: 89389},
+												pos:        position{line: 2837, col: 27, offset: 90195},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43569,12 +43569,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2937, col: 11, offset: 92828},
+						pos: position{line: 2959, col: 11, offset: 93634},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2937, col: 11, offset: 92828},
+							pos: position{line: 2959, col: 11, offset: 93634},
 							expr: &charClassMatcher{
-								pos:        position{line: 2937, col: 11, offset: 92828},
+								pos:        position{line: 2959, col: 11, offset: 93634},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43587,21 +43587,21 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 5, offset: 81198},
+						pos: position{line: 2543, col: 5, offset: 82004},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 5, offset: 81198},
+							pos: position{line: 2543, col: 5, offset: 82004},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 5, offset: 81198},
+									pos:        position{line: 2543, col: 5, offset: 82004},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2521, col: 10, offset: 81203},
+									pos: position{line: 2543, col: 10, offset: 82009},
 									expr: &charClassMatcher{
-										pos:        position{line: 2521, col: 11, offset: 81204},
+										pos:        position{line: 2543, col: 11, offset: 82010},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43612,29 +43612,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 5, offset: 81390},
+						pos: position{line: 2549, col: 5, offset: 82196},
 						run: (*parser).callonQuotedTextElement36,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 5, offset: 81390},
+							pos: position{line: 2549, col: 5, offset: 82196},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2527, col: 5, offset: 81390},
+									pos: position{line: 2549, col: 5, offset: 82196},
 									run: (*parser).callonQuotedTextElement38,
 								},
 								&andCodeExpr{
-									pos: position{line: 2530, col: 5, offset: 81461},
+									pos: position{line: 2552, col: 5, offset: 82267},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&litMatcher{
-									pos:        position{line: 2534, col: 5, offset: 81586},
+									pos:        position{line: 2556, col: 5, offset: 82392},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2534, col: 9, offset: 81590},
+									pos: position{line: 2556, col: 9, offset: 82396},
 									expr: &charClassMatcher{
-										pos:        position{line: 2534, col: 10, offset: 81591},
+										pos:        position{line: 2556, col: 10, offset: 82397},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43645,27 +43645,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89582},
+						pos: position{line: 2845, col: 5, offset: 90388},
 						run: (*parser).callonQuotedTextElement43,
 						expr: &choiceExpr{
-							pos: position{line: 2824, col: 9, offset: 89592},
+							pos: position{line: 2846, col: 9, offset: 90398},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2824, col: 10, offset: 89593},
+									pos:        position{line: 2846, col: 10, offset: 90399},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2826, col: 13, offset: 89690},
+									pos: position{line: 2848, col: 13, offset: 90496},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2826, col: 13, offset: 89690},
+											pos: position{line: 2848, col: 13, offset: 90496},
 											run: (*parser).callonQuotedTextElement47,
 										},
 										&litMatcher{
-											pos:        position{line: 2829, col: 13, offset: 89790},
+											pos:        position{line: 2851, col: 13, offset: 90596},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43673,20 +43673,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2829, col: 19, offset: 89796},
+									pos:        position{line: 2851, col: 19, offset: 90602},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2832, col: 13, offset: 89834},
+									pos: position{line: 2854, col: 13, offset: 90640},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2832, col: 13, offset: 89834},
+											pos: position{line: 2854, col: 13, offset: 90640},
 											run: (*parser).callonQuotedTextElement51,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2835, col: 14, offset: 89927},
+											pos:        position{line: 2857, col: 14, offset: 90733},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43695,18 +43695,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2837, col: 12, offset: 89971},
+									pos: position{line: 2859, col: 12, offset: 90777},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2837, col: 12, offset: 89971},
+											pos:        position{line: 2859, col: 12, offset: 90777},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2837, col: 16, offset: 89975},
+											pos: position{line: 2859, col: 16, offset: 90781},
 											expr: &litMatcher{
-												pos:        position{line: 2837, col: 17, offset: 89976},
+												pos:        position{line: 2859, col: 17, offset: 90782},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44064,31 +44064,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2946, col: 18, offset: 93038},
+						pos: position{line: 2968, col: 18, offset: 93844},
 						run: (*parser).callonQuotedTextElement126,
 						expr: &seqExpr{
-							pos: position{line: 2946, col: 18, offset: 93038},
+							pos: position{line: 2968, col: 18, offset: 93844},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonQuotedTextElement128,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44097,27 +44097,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2946, col: 26, offset: 93046},
+									pos: position{line: 2968, col: 26, offset: 93852},
 									expr: &actionExpr{
-										pos: position{line: 2942, col: 12, offset: 92938},
+										pos: position{line: 2964, col: 12, offset: 93744},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &choiceExpr{
-											pos: position{line: 2942, col: 13, offset: 92939},
+											pos: position{line: 2964, col: 13, offset: 93745},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2942, col: 13, offset: 92939},
+													pos:        position{line: 2964, col: 13, offset: 93745},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 20, offset: 92946},
+													pos:        position{line: 2964, col: 20, offset: 93752},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 29, offset: 92955},
+													pos:        position{line: 2964, col: 29, offset: 93761},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44138,23 +44138,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2490, col: 5, offset: 80027},
+						pos: position{line: 2512, col: 5, offset: 80833},
 						run: (*parser).callonQuotedTextElement141,
 						expr: &seqExpr{
-							pos: position{line: 2490, col: 5, offset: 80027},
+							pos: position{line: 2512, col: 5, offset: 80833},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2490, col: 5, offset: 80027},
+									pos: position{line: 2512, col: 5, offset: 80833},
 									run: (*parser).callonQuotedTextElement143,
 								},
 								&labeledExpr{
-									pos:   position{line: 2493, col: 5, offset: 80103},
+									pos:   position{line: 2515, col: 5, offset: 80909},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2494, col: 9, offset: 80121},
+										pos: position{line: 2516, col: 9, offset: 80927},
 										run: (*parser).callonQuotedTextElement145,
 										expr: &charClassMatcher{
-											pos:        position{line: 2494, col: 10, offset: 80122},
+											pos:        position{line: 2516, col: 10, offset: 80928},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44205,10 +44205,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2845, col: 12, offset: 90236},
+						pos: position{line: 2867, col: 12, offset: 91042},
 						run: (*parser).callonQuotedTextElement155,
 						expr: &charClassMatcher{
-							pos:        position{line: 2845, col: 12, offset: 90236},
+							pos:        position{line: 2867, col: 12, offset: 91042},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44220,29 +44220,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1916, col: 1, offset: 61607},
+			pos:  position{line: 1919, col: 1, offset: 61705},
 			expr: &actionExpr{
-				pos: position{line: 1917, col: 5, offset: 61635},
+				pos: position{line: 1920, col: 5, offset: 61733},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1917, col: 5, offset: 61635},
+					pos: position{line: 1920, col: 5, offset: 61733},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 1912, col: 38, offset: 61560},
-							val:        "**",
-							ignoreCase: false,
-							want:       "\"**\"",
+						&actionExpr{
+							pos: position{line: 1912, col: 38, offset: 61560},
+							run: (*parser).callonDoubleQuoteBoldText3,
+							expr: &litMatcher{
+								pos:        position{line: 1912, col: 38, offset: 61560},
+								val:        "**",
+								ignoreCase: false,
+								want:       "\"**\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1918, col: 5, offset: 61674},
+							pos:   position{line: 1921, col: 5, offset: 61772},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1918, col: 15, offset: 61684},
+								pos:  position{line: 1921, col: 15, offset: 61782},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1914, col: 36, offset: 61601},
+							pos:        position{line: 1917, col: 36, offset: 61699},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44253,44 +44257,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1923, col: 1, offset: 61844},
+			pos:  position{line: 1926, col: 1, offset: 61942},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1923, col: 32, offset: 61875},
+				pos: position{line: 1926, col: 32, offset: 61973},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1923, col: 32, offset: 61875},
+					pos:  position{line: 1926, col: 32, offset: 61973},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1925, col: 1, offset: 61906},
+			pos:  position{line: 1928, col: 1, offset: 62004},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 61941},
+				pos: position{line: 1929, col: 5, offset: 62039},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 61941},
+					pos: position{line: 1929, col: 5, offset: 62039},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1927, col: 5, offset: 61952},
+							pos: position{line: 1930, col: 5, offset: 62050},
 							expr: &litMatcher{
-								pos:        position{line: 1914, col: 36, offset: 61601},
+								pos:        position{line: 1917, col: 36, offset: 61699},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1928, col: 5, offset: 61989},
+							pos:   position{line: 1931, col: 5, offset: 62087},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1928, col: 14, offset: 61998},
+								pos:  position{line: 1931, col: 14, offset: 62096},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44300,29 +44304,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1953, col: 1, offset: 62678},
+			pos:  position{line: 1956, col: 1, offset: 62776},
 			expr: &actionExpr{
-				pos: position{line: 1954, col: 5, offset: 62706},
+				pos: position{line: 1957, col: 5, offset: 62804},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1954, col: 5, offset: 62706},
+					pos: position{line: 1957, col: 5, offset: 62804},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1937, col: 5, offset: 62232},
+							pos:        position{line: 1940, col: 5, offset: 62330},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1938, col: 5, offset: 62241},
+							pos: position{line: 1941, col: 5, offset: 62339},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1942, col: 5, offset: 62359},
+							pos: position{line: 1945, col: 5, offset: 62457},
 							expr: &notExpr{
-								pos: position{line: 1942, col: 7, offset: 62361},
+								pos: position{line: 1945, col: 7, offset: 62459},
 								expr: &litMatcher{
-									pos:        position{line: 1942, col: 8, offset: 62362},
+									pos:        position{line: 1945, col: 8, offset: 62460},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44330,38 +44334,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1955, col: 5, offset: 62744},
+							pos:   position{line: 1958, col: 5, offset: 62842},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1955, col: 15, offset: 62754},
+								pos:  position{line: 1958, col: 15, offset: 62852},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1945, col: 5, offset: 62482},
+							pos:        position{line: 1948, col: 5, offset: 62580},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1946, col: 5, offset: 62491},
+							pos: position{line: 1949, col: 5, offset: 62589},
 							expr: &litMatcher{
-								pos:        position{line: 1946, col: 6, offset: 62492},
+								pos:        position{line: 1949, col: 6, offset: 62590},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1947, col: 5, offset: 62555},
+							pos: position{line: 1950, col: 5, offset: 62653},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1951, col: 5, offset: 62664},
+							pos: position{line: 1954, col: 5, offset: 62762},
 							expr: &notExpr{
-								pos: position{line: 1951, col: 7, offset: 62666},
+								pos: position{line: 1954, col: 7, offset: 62764},
 								expr: &charClassMatcher{
-									pos:        position{line: 2787, col: 13, offset: 88715},
+									pos:        position{line: 2809, col: 13, offset: 89521},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44375,20 +44379,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1960, col: 1, offset: 62914},
+			pos:  position{line: 1963, col: 1, offset: 63012},
 			expr: &actionExpr{
-				pos: position{line: 1961, col: 5, offset: 62951},
+				pos: position{line: 1964, col: 5, offset: 63049},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1961, col: 5, offset: 62951},
+					pos: position{line: 1964, col: 5, offset: 63049},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1961, col: 5, offset: 62951},
+							pos: position{line: 1964, col: 5, offset: 63049},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44397,18 +44401,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1962, col: 5, offset: 62990},
+							pos:   position{line: 1965, col: 5, offset: 63088},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1962, col: 14, offset: 62999},
+								pos: position{line: 1965, col: 14, offset: 63097},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1962, col: 15, offset: 63000},
+									pos:  position{line: 1965, col: 15, offset: 63098},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1963, col: 5, offset: 63034},
+							pos: position{line: 1966, col: 5, offset: 63132},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -44417,49 +44421,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1969, col: 1, offset: 63175},
+			pos:  position{line: 1972, col: 1, offset: 63273},
 			expr: &actionExpr{
-				pos: position{line: 1970, col: 5, offset: 63210},
+				pos: position{line: 1973, col: 5, offset: 63308},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1970, col: 5, offset: 63210},
+					pos: position{line: 1973, col: 5, offset: 63308},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1971, col: 5, offset: 63238},
+							pos: position{line: 1974, col: 5, offset: 63336},
 							expr: &seqExpr{
-								pos: position{line: 1945, col: 5, offset: 62482},
+								pos: position{line: 1948, col: 5, offset: 62580},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1945, col: 5, offset: 62482},
+										pos:        position{line: 1948, col: 5, offset: 62580},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1946, col: 5, offset: 62491},
+										pos: position{line: 1949, col: 5, offset: 62589},
 										expr: &litMatcher{
-											pos:        position{line: 1946, col: 6, offset: 62492},
+											pos:        position{line: 1949, col: 6, offset: 62590},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1947, col: 5, offset: 62555},
+										pos: position{line: 1950, col: 5, offset: 62653},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1951, col: 5, offset: 62664},
+										pos: position{line: 1954, col: 5, offset: 62762},
 										expr: &notExpr{
-											pos: position{line: 1951, col: 7, offset: 62666},
+											pos: position{line: 1954, col: 7, offset: 62764},
 											expr: &charClassMatcher{
-												pos:        position{line: 2787, col: 13, offset: 88715},
+												pos:        position{line: 2809, col: 13, offset: 89521},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44471,10 +44475,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1972, col: 5, offset: 63275},
+							pos:   position{line: 1975, col: 5, offset: 63373},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1972, col: 14, offset: 63284},
+								pos:  position{line: 1975, col: 14, offset: 63382},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44484,18 +44488,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1977, col: 1, offset: 63372},
+			pos:  position{line: 1980, col: 1, offset: 63470},
 			expr: &choiceExpr{
-				pos: position{line: 1979, col: 5, offset: 63433},
+				pos: position{line: 1982, col: 5, offset: 63531},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1979, col: 5, offset: 63433},
+						pos: position{line: 1982, col: 5, offset: 63531},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1979, col: 5, offset: 63433},
+							pos: position{line: 1982, col: 5, offset: 63531},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1979, col: 5, offset: 63433},
+									pos:   position{line: 1982, col: 5, offset: 63531},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -44522,22 +44526,26 @@ var g = &grammar{
 										},
 									},
 								},
-								&litMatcher{
-									pos:        position{line: 1979, col: 40, offset: 63468},
-									val:        "**",
-									ignoreCase: false,
-									want:       "\"**\"",
+								&actionExpr{
+									pos: position{line: 1912, col: 38, offset: 61560},
+									run: (*parser).callonEscapedBoldText10,
+									expr: &litMatcher{
+										pos:        position{line: 1912, col: 38, offset: 61560},
+										val:        "**",
+										ignoreCase: false,
+										want:       "\"**\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1979, col: 45, offset: 63473},
+									pos:   position{line: 1982, col: 74, offset: 63600},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1979, col: 55, offset: 63483},
+										pos:  position{line: 1982, col: 84, offset: 63610},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1979, col: 84, offset: 63512},
+									pos:        position{line: 1982, col: 113, offset: 63639},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44546,17 +44554,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1983, col: 7, offset: 63672},
-						run: (*parser).callonEscapedBoldText14,
+						pos: position{line: 1986, col: 7, offset: 63799},
+						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1983, col: 7, offset: 63672},
+							pos: position{line: 1986, col: 7, offset: 63799},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1983, col: 7, offset: 63672},
+									pos:   position{line: 1986, col: 7, offset: 63799},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedBoldText17,
+										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -44569,21 +44577,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1983, col: 42, offset: 63707},
+									pos:        position{line: 1986, col: 42, offset: 63834},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1983, col: 47, offset: 63712},
+									pos:   position{line: 1986, col: 47, offset: 63839},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1983, col: 57, offset: 63722},
+										pos:  position{line: 1986, col: 57, offset: 63849},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1983, col: 86, offset: 63751},
+									pos:        position{line: 1986, col: 86, offset: 63878},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44592,17 +44600,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1988, col: 7, offset: 63949},
-						run: (*parser).callonEscapedBoldText24,
+						pos: position{line: 1991, col: 7, offset: 64076},
+						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1988, col: 7, offset: 63949},
+							pos: position{line: 1991, col: 7, offset: 64076},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1988, col: 7, offset: 63949},
+									pos:   position{line: 1991, col: 7, offset: 64076},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedBoldText27,
+										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -44615,21 +44623,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1988, col: 42, offset: 63984},
+									pos:        position{line: 1991, col: 42, offset: 64111},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1988, col: 46, offset: 63988},
+									pos:   position{line: 1991, col: 46, offset: 64115},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1988, col: 56, offset: 63998},
+										pos:  position{line: 1991, col: 56, offset: 64125},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1988, col: 85, offset: 64027},
+									pos:        position{line: 1991, col: 85, offset: 64154},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44642,29 +44650,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2005, col: 1, offset: 64503},
+			pos:  position{line: 2011, col: 1, offset: 64728},
 			expr: &actionExpr{
-				pos: position{line: 2006, col: 5, offset: 64533},
+				pos: position{line: 2012, col: 5, offset: 64758},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2006, col: 5, offset: 64533},
+					pos: position{line: 2012, col: 5, offset: 64758},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2001, col: 40, offset: 64454},
-							val:        "__",
-							ignoreCase: false,
-							want:       "\"__\"",
+						&actionExpr{
+							pos: position{line: 2004, col: 40, offset: 64581},
+							run: (*parser).callonDoubleQuoteItalicText3,
+							expr: &litMatcher{
+								pos:        position{line: 2004, col: 40, offset: 64581},
+								val:        "__",
+								ignoreCase: false,
+								want:       "\"__\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2007, col: 5, offset: 64574},
+							pos:   position{line: 2013, col: 5, offset: 64799},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2007, col: 15, offset: 64584},
+								pos:  position{line: 2013, col: 15, offset: 64809},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2003, col: 38, offset: 64497},
+							pos:        position{line: 2009, col: 38, offset: 64722},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44675,44 +44687,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2012, col: 1, offset: 64749},
+			pos:  position{line: 2018, col: 1, offset: 64974},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2012, col: 34, offset: 64782},
+				pos: position{line: 2018, col: 34, offset: 65007},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2012, col: 34, offset: 64782},
+					pos:  position{line: 2018, col: 34, offset: 65007},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2014, col: 1, offset: 64814},
+			pos:  position{line: 2020, col: 1, offset: 65039},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64851},
+				pos: position{line: 2021, col: 5, offset: 65076},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64851},
+					pos: position{line: 2021, col: 5, offset: 65076},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2016, col: 5, offset: 64862},
+							pos: position{line: 2022, col: 5, offset: 65087},
 							expr: &litMatcher{
-								pos:        position{line: 2003, col: 38, offset: 64497},
+								pos:        position{line: 2009, col: 38, offset: 64722},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64901},
+							pos:   position{line: 2023, col: 5, offset: 65126},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 14, offset: 64910},
+								pos:  position{line: 2023, col: 14, offset: 65135},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44722,29 +44734,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2043, col: 1, offset: 65594},
+			pos:  position{line: 2049, col: 1, offset: 65819},
 			expr: &actionExpr{
-				pos: position{line: 2044, col: 5, offset: 65624},
+				pos: position{line: 2050, col: 5, offset: 65849},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2044, col: 5, offset: 65624},
+					pos: position{line: 2050, col: 5, offset: 65849},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2026, col: 5, offset: 65152},
+							pos:        position{line: 2032, col: 5, offset: 65377},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2027, col: 5, offset: 65161},
+							pos: position{line: 2033, col: 5, offset: 65386},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2031, col: 5, offset: 65281},
+							pos: position{line: 2037, col: 5, offset: 65506},
 							expr: &notExpr{
-								pos: position{line: 2031, col: 7, offset: 65283},
+								pos: position{line: 2037, col: 7, offset: 65508},
 								expr: &litMatcher{
-									pos:        position{line: 2031, col: 8, offset: 65284},
+									pos:        position{line: 2037, col: 8, offset: 65509},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44752,38 +44764,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2045, col: 5, offset: 65664},
+							pos:   position{line: 2051, col: 5, offset: 65889},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2045, col: 15, offset: 65674},
+								pos:  position{line: 2051, col: 15, offset: 65899},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2035, col: 5, offset: 65394},
+							pos:        position{line: 2041, col: 5, offset: 65619},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2036, col: 5, offset: 65403},
+							pos: position{line: 2042, col: 5, offset: 65628},
 							expr: &litMatcher{
-								pos:        position{line: 2036, col: 6, offset: 65404},
+								pos:        position{line: 2042, col: 6, offset: 65629},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2037, col: 5, offset: 65469},
+							pos: position{line: 2043, col: 5, offset: 65694},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2041, col: 5, offset: 65580},
+							pos: position{line: 2047, col: 5, offset: 65805},
 							expr: &notExpr{
-								pos: position{line: 2041, col: 7, offset: 65582},
+								pos: position{line: 2047, col: 7, offset: 65807},
 								expr: &charClassMatcher{
-									pos:        position{line: 2787, col: 13, offset: 88715},
+									pos:        position{line: 2809, col: 13, offset: 89521},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44797,20 +44809,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2050, col: 1, offset: 65841},
+			pos:  position{line: 2056, col: 1, offset: 66066},
 			expr: &actionExpr{
-				pos: position{line: 2051, col: 5, offset: 65879},
+				pos: position{line: 2057, col: 5, offset: 66104},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2051, col: 5, offset: 65879},
+					pos: position{line: 2057, col: 5, offset: 66104},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2051, col: 5, offset: 65879},
+							pos: position{line: 2057, col: 5, offset: 66104},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44819,18 +44831,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2052, col: 5, offset: 65918},
+							pos:   position{line: 2058, col: 5, offset: 66143},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2052, col: 14, offset: 65927},
+								pos: position{line: 2058, col: 14, offset: 66152},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2052, col: 15, offset: 65928},
+									pos:  position{line: 2058, col: 15, offset: 66153},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2053, col: 5, offset: 65963},
+							pos: position{line: 2059, col: 5, offset: 66188},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -44839,49 +44851,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2059, col: 1, offset: 66104},
+			pos:  position{line: 2065, col: 1, offset: 66329},
 			expr: &actionExpr{
-				pos: position{line: 2060, col: 5, offset: 66141},
+				pos: position{line: 2066, col: 5, offset: 66366},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2060, col: 5, offset: 66141},
+					pos: position{line: 2066, col: 5, offset: 66366},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2061, col: 5, offset: 66152},
+							pos: position{line: 2067, col: 5, offset: 66377},
 							expr: &seqExpr{
-								pos: position{line: 2035, col: 5, offset: 65394},
+								pos: position{line: 2041, col: 5, offset: 65619},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2035, col: 5, offset: 65394},
+										pos:        position{line: 2041, col: 5, offset: 65619},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2036, col: 5, offset: 65403},
+										pos: position{line: 2042, col: 5, offset: 65628},
 										expr: &litMatcher{
-											pos:        position{line: 2036, col: 6, offset: 65404},
+											pos:        position{line: 2042, col: 6, offset: 65629},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2037, col: 5, offset: 65469},
+										pos: position{line: 2043, col: 5, offset: 65694},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2041, col: 5, offset: 65580},
+										pos: position{line: 2047, col: 5, offset: 65805},
 										expr: &notExpr{
-											pos: position{line: 2041, col: 7, offset: 65582},
+											pos: position{line: 2047, col: 7, offset: 65807},
 											expr: &charClassMatcher{
-												pos:        position{line: 2787, col: 13, offset: 88715},
+												pos:        position{line: 2809, col: 13, offset: 89521},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44893,10 +44905,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2062, col: 5, offset: 66191},
+							pos:   position{line: 2068, col: 5, offset: 66416},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2062, col: 14, offset: 66200},
+								pos:  position{line: 2068, col: 14, offset: 66425},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44906,18 +44918,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2067, col: 1, offset: 66288},
+			pos:  position{line: 2073, col: 1, offset: 66513},
 			expr: &choiceExpr{
-				pos: position{line: 2069, col: 5, offset: 66353},
+				pos: position{line: 2075, col: 5, offset: 66578},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2069, col: 5, offset: 66353},
+						pos: position{line: 2075, col: 5, offset: 66578},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2069, col: 5, offset: 66353},
+							pos: position{line: 2075, col: 5, offset: 66578},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2069, col: 5, offset: 66353},
+									pos:   position{line: 2075, col: 5, offset: 66578},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -44944,22 +44956,26 @@ var g = &grammar{
 										},
 									},
 								},
-								&litMatcher{
-									pos:        position{line: 2069, col: 40, offset: 66388},
-									val:        "__",
-									ignoreCase: false,
-									want:       "\"__\"",
+								&actionExpr{
+									pos: position{line: 2004, col: 40, offset: 64581},
+									run: (*parser).callonEscapedItalicText10,
+									expr: &litMatcher{
+										pos:        position{line: 2004, col: 40, offset: 64581},
+										val:        "__",
+										ignoreCase: false,
+										want:       "\"__\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2069, col: 45, offset: 66393},
+									pos:   position{line: 2075, col: 76, offset: 66649},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2069, col: 55, offset: 66403},
+										pos:  position{line: 2075, col: 86, offset: 66659},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2069, col: 86, offset: 66434},
+									pos:        position{line: 2075, col: 117, offset: 66690},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44968,17 +44984,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2073, col: 7, offset: 66595},
-						run: (*parser).callonEscapedItalicText14,
+						pos: position{line: 2079, col: 7, offset: 66851},
+						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2073, col: 7, offset: 66595},
+							pos: position{line: 2079, col: 7, offset: 66851},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2073, col: 7, offset: 66595},
+									pos:   position{line: 2079, col: 7, offset: 66851},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedItalicText17,
+										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -44991,21 +45007,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2073, col: 42, offset: 66630},
+									pos:        position{line: 2079, col: 42, offset: 66886},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2073, col: 47, offset: 66635},
+									pos:   position{line: 2079, col: 47, offset: 66891},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2073, col: 57, offset: 66645},
+										pos:  position{line: 2079, col: 57, offset: 66901},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2073, col: 88, offset: 66676},
+									pos:        position{line: 2079, col: 88, offset: 66932},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45014,17 +45030,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2078, col: 7, offset: 66913},
-						run: (*parser).callonEscapedItalicText24,
+						pos: position{line: 2084, col: 7, offset: 67169},
+						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2078, col: 7, offset: 66913},
+							pos: position{line: 2084, col: 7, offset: 67169},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2078, col: 7, offset: 66913},
+									pos:   position{line: 2084, col: 7, offset: 67169},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedItalicText27,
+										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -45037,21 +45053,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2078, col: 42, offset: 66948},
+									pos:        position{line: 2084, col: 42, offset: 67204},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2078, col: 46, offset: 66952},
+									pos:   position{line: 2084, col: 46, offset: 67208},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2078, col: 56, offset: 66962},
+										pos:  position{line: 2084, col: 56, offset: 67218},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2078, col: 87, offset: 66993},
+									pos:        position{line: 2084, col: 87, offset: 67249},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45064,29 +45080,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67553},
+			pos:  position{line: 2104, col: 1, offset: 67907},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67586},
+				pos: position{line: 2105, col: 5, offset: 67940},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67586},
+					pos: position{line: 2105, col: 5, offset: 67940},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2091, col: 43, offset: 67501},
-							val:        "``",
-							ignoreCase: false,
-							want:       "\"``\"",
+						&actionExpr{
+							pos: position{line: 2097, col: 43, offset: 67757},
+							run: (*parser).callonDoubleQuoteMonospaceText3,
+							expr: &litMatcher{
+								pos:        position{line: 2097, col: 43, offset: 67757},
+								val:        "``",
+								ignoreCase: false,
+								want:       "\"``\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67630},
+							pos:   position{line: 2106, col: 5, offset: 67984},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67640},
+								pos:  position{line: 2106, col: 15, offset: 67994},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2093, col: 41, offset: 67547},
+							pos:        position{line: 2102, col: 41, offset: 67901},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45097,44 +45117,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67815},
+			pos:  position{line: 2111, col: 1, offset: 68169},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2102, col: 37, offset: 67851},
+				pos: position{line: 2111, col: 37, offset: 68205},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2102, col: 37, offset: 67851},
+					pos:  position{line: 2111, col: 37, offset: 68205},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2104, col: 1, offset: 67918},
+			pos:  position{line: 2113, col: 1, offset: 68272},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67958},
+				pos: position{line: 2114, col: 5, offset: 68312},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67958},
+					pos: position{line: 2114, col: 5, offset: 68312},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2106, col: 5, offset: 67969},
+							pos: position{line: 2115, col: 5, offset: 68323},
 							expr: &litMatcher{
-								pos:        position{line: 2093, col: 41, offset: 67547},
+								pos:        position{line: 2102, col: 41, offset: 67901},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2107, col: 5, offset: 68011},
+							pos:   position{line: 2116, col: 5, offset: 68365},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2107, col: 14, offset: 68020},
+								pos:  position{line: 2116, col: 14, offset: 68374},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45144,33 +45164,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2125, col: 1, offset: 68562},
+			pos:  position{line: 2134, col: 1, offset: 68916},
 			expr: &seqExpr{
-				pos: position{line: 2126, col: 5, offset: 68607},
+				pos: position{line: 2135, col: 5, offset: 68961},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2126, col: 5, offset: 68607},
+						pos: position{line: 2135, col: 5, offset: 68961},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2126, col: 6, offset: 68608},
+							pos:  position{line: 2135, col: 6, offset: 68962},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2127, col: 5, offset: 68627},
+						pos:        position{line: 2136, col: 5, offset: 68981},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2128, col: 5, offset: 68635},
+						pos: position{line: 2137, col: 5, offset: 68989},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2132, col: 5, offset: 68749},
+						pos: position{line: 2141, col: 5, offset: 69103},
 						expr: &notExpr{
-							pos: position{line: 2132, col: 7, offset: 68751},
+							pos: position{line: 2141, col: 7, offset: 69105},
 							expr: &charClassMatcher{
-								pos:        position{line: 2787, col: 13, offset: 88715},
+								pos:        position{line: 2809, col: 13, offset: 89521},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45183,29 +45203,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2135, col: 1, offset: 68768},
+			pos:  position{line: 2144, col: 1, offset: 69122},
 			expr: &actionExpr{
-				pos: position{line: 2136, col: 5, offset: 68801},
+				pos: position{line: 2145, col: 5, offset: 69155},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2136, col: 5, offset: 68801},
+					pos: position{line: 2145, col: 5, offset: 69155},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2118, col: 5, offset: 68364},
+							pos:        position{line: 2127, col: 5, offset: 68718},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2119, col: 5, offset: 68373},
+							pos: position{line: 2128, col: 5, offset: 68727},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2123, col: 5, offset: 68496},
+							pos: position{line: 2132, col: 5, offset: 68850},
 							expr: &notExpr{
-								pos: position{line: 2123, col: 7, offset: 68498},
+								pos: position{line: 2132, col: 7, offset: 68852},
 								expr: &litMatcher{
-									pos:        position{line: 2123, col: 8, offset: 68499},
+									pos:        position{line: 2132, col: 8, offset: 68853},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45213,15 +45233,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2137, col: 5, offset: 68845},
+							pos:   position{line: 2146, col: 5, offset: 69199},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2137, col: 15, offset: 68855},
+								pos:  position{line: 2146, col: 15, offset: 69209},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2138, col: 5, offset: 68894},
+							pos:  position{line: 2147, col: 5, offset: 69248},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45230,20 +45250,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2142, col: 1, offset: 69031},
+			pos:  position{line: 2151, col: 1, offset: 69385},
 			expr: &actionExpr{
-				pos: position{line: 2143, col: 5, offset: 69072},
+				pos: position{line: 2152, col: 5, offset: 69426},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2143, col: 5, offset: 69072},
+					pos: position{line: 2152, col: 5, offset: 69426},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2143, col: 5, offset: 69072},
+							pos: position{line: 2152, col: 5, offset: 69426},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45252,18 +45272,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2144, col: 5, offset: 69111},
+							pos:   position{line: 2153, col: 5, offset: 69465},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2144, col: 14, offset: 69120},
+								pos: position{line: 2153, col: 14, offset: 69474},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2144, col: 15, offset: 69121},
+									pos:  position{line: 2153, col: 15, offset: 69475},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2145, col: 5, offset: 69159},
+							pos: position{line: 2154, col: 5, offset: 69513},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -45272,31 +45292,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2151, col: 1, offset: 69300},
+			pos:  position{line: 2160, col: 1, offset: 69654},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69340},
+				pos: position{line: 2161, col: 5, offset: 69694},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69340},
+					pos: position{line: 2161, col: 5, offset: 69694},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2153, col: 5, offset: 69351},
+							pos: position{line: 2162, col: 5, offset: 69705},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2153, col: 6, offset: 69352},
+								pos:  position{line: 2162, col: 6, offset: 69706},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2154, col: 5, offset: 69393},
+							pos:   position{line: 2163, col: 5, offset: 69747},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2154, col: 14, offset: 69402},
+								pos:  position{line: 2163, col: 14, offset: 69756},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45306,18 +45326,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2159, col: 1, offset: 69490},
+			pos:  position{line: 2168, col: 1, offset: 69844},
 			expr: &choiceExpr{
-				pos: position{line: 2161, col: 5, offset: 69561},
+				pos: position{line: 2170, col: 5, offset: 69915},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2161, col: 5, offset: 69561},
+						pos: position{line: 2170, col: 5, offset: 69915},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2161, col: 5, offset: 69561},
+							pos: position{line: 2170, col: 5, offset: 69915},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2161, col: 5, offset: 69561},
+									pos:   position{line: 2170, col: 5, offset: 69915},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -45344,22 +45364,26 @@ var g = &grammar{
 										},
 									},
 								},
-								&litMatcher{
-									pos:        position{line: 2161, col: 40, offset: 69596},
-									val:        "``",
-									ignoreCase: false,
-									want:       "\"``\"",
+								&actionExpr{
+									pos: position{line: 2097, col: 43, offset: 67757},
+									run: (*parser).callonEscapedMonospaceText10,
+									expr: &litMatcher{
+										pos:        position{line: 2097, col: 43, offset: 67757},
+										val:        "``",
+										ignoreCase: false,
+										want:       "\"``\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2161, col: 45, offset: 69601},
+									pos:   position{line: 2170, col: 79, offset: 69989},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2161, col: 55, offset: 69611},
+										pos:  position{line: 2170, col: 89, offset: 69999},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2161, col: 89, offset: 69645},
+									pos:        position{line: 2170, col: 123, offset: 70033},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45368,17 +45392,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2165, col: 7, offset: 69810},
-						run: (*parser).callonEscapedMonospaceText14,
+						pos: position{line: 2174, col: 7, offset: 70198},
+						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2165, col: 7, offset: 69810},
+							pos: position{line: 2174, col: 7, offset: 70198},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2165, col: 7, offset: 69810},
+									pos:   position{line: 2174, col: 7, offset: 70198},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedMonospaceText17,
+										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -45391,21 +45415,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2165, col: 42, offset: 69845},
+									pos:        position{line: 2174, col: 42, offset: 70233},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2165, col: 47, offset: 69850},
+									pos:   position{line: 2174, col: 47, offset: 70238},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2165, col: 57, offset: 69860},
+										pos:  position{line: 2174, col: 57, offset: 70248},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2165, col: 91, offset: 69894},
+									pos:        position{line: 2174, col: 91, offset: 70282},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45414,17 +45438,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2170, col: 7, offset: 70096},
-						run: (*parser).callonEscapedMonospaceText24,
+						pos: position{line: 2179, col: 7, offset: 70484},
+						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 7, offset: 70096},
+							pos: position{line: 2179, col: 7, offset: 70484},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 7, offset: 70096},
+									pos:   position{line: 2179, col: 7, offset: 70484},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedMonospaceText27,
+										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -45437,21 +45461,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 42, offset: 70131},
+									pos:        position{line: 2179, col: 42, offset: 70519},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 46, offset: 70135},
+									pos:   position{line: 2179, col: 46, offset: 70523},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 56, offset: 70145},
+										pos:  position{line: 2179, col: 56, offset: 70533},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 90, offset: 70179},
+									pos:        position{line: 2179, col: 90, offset: 70567},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45464,29 +45488,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2187, col: 1, offset: 70660},
+			pos:  position{line: 2199, col: 1, offset: 71146},
 			expr: &actionExpr{
-				pos: position{line: 2188, col: 5, offset: 70690},
+				pos: position{line: 2200, col: 5, offset: 71176},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2188, col: 5, offset: 70690},
+					pos: position{line: 2200, col: 5, offset: 71176},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2183, col: 40, offset: 70611},
-							val:        "##",
-							ignoreCase: false,
-							want:       "\"##\"",
+						&actionExpr{
+							pos: position{line: 2192, col: 40, offset: 70999},
+							run: (*parser).callonDoubleQuoteMarkedText3,
+							expr: &litMatcher{
+								pos:        position{line: 2192, col: 40, offset: 70999},
+								val:        "##",
+								ignoreCase: false,
+								want:       "\"##\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2189, col: 5, offset: 70731},
+							pos:   position{line: 2201, col: 5, offset: 71217},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2189, col: 15, offset: 70741},
+								pos:  position{line: 2201, col: 15, offset: 71227},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2185, col: 38, offset: 70654},
+							pos:        position{line: 2197, col: 38, offset: 71140},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45497,44 +45525,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2194, col: 1, offset: 70907},
+			pos:  position{line: 2206, col: 1, offset: 71393},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2194, col: 34, offset: 70940},
+				pos: position{line: 2206, col: 34, offset: 71426},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2194, col: 34, offset: 70940},
+					pos:  position{line: 2206, col: 34, offset: 71426},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2196, col: 1, offset: 70971},
+			pos:  position{line: 2208, col: 1, offset: 71457},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 71040},
+				pos: position{line: 2209, col: 5, offset: 71526},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 71040},
+					pos: position{line: 2209, col: 5, offset: 71526},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2198, col: 5, offset: 71051},
+							pos: position{line: 2210, col: 5, offset: 71537},
 							expr: &litMatcher{
-								pos:        position{line: 2185, col: 38, offset: 70654},
+								pos:        position{line: 2197, col: 38, offset: 71140},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2199, col: 5, offset: 71090},
+							pos:   position{line: 2211, col: 5, offset: 71576},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2199, col: 14, offset: 71099},
+								pos:  position{line: 2211, col: 14, offset: 71585},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45544,29 +45572,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2224, col: 1, offset: 71781},
+			pos:  position{line: 2236, col: 1, offset: 72267},
 			expr: &actionExpr{
-				pos: position{line: 2225, col: 5, offset: 71811},
+				pos: position{line: 2237, col: 5, offset: 72297},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2225, col: 5, offset: 71811},
+					pos: position{line: 2237, col: 5, offset: 72297},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2208, col: 5, offset: 71347},
+							pos:        position{line: 2220, col: 5, offset: 71833},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2209, col: 5, offset: 71356},
+							pos: position{line: 2221, col: 5, offset: 71842},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2213, col: 5, offset: 71476},
+							pos: position{line: 2225, col: 5, offset: 71962},
 							expr: &notExpr{
-								pos: position{line: 2213, col: 7, offset: 71478},
+								pos: position{line: 2225, col: 7, offset: 71964},
 								expr: &litMatcher{
-									pos:        position{line: 2213, col: 8, offset: 71479},
+									pos:        position{line: 2225, col: 8, offset: 71965},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45574,38 +45602,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2226, col: 5, offset: 71851},
+							pos:   position{line: 2238, col: 5, offset: 72337},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2226, col: 15, offset: 71861},
+								pos:  position{line: 2238, col: 15, offset: 72347},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2216, col: 5, offset: 71584},
+							pos:        position{line: 2228, col: 5, offset: 72070},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2217, col: 5, offset: 71592},
+							pos: position{line: 2229, col: 5, offset: 72078},
 							expr: &litMatcher{
-								pos:        position{line: 2217, col: 6, offset: 71593},
+								pos:        position{line: 2229, col: 6, offset: 72079},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2218, col: 5, offset: 71656},
+							pos: position{line: 2230, col: 5, offset: 72142},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2222, col: 5, offset: 71767},
+							pos: position{line: 2234, col: 5, offset: 72253},
 							expr: &notExpr{
-								pos: position{line: 2222, col: 7, offset: 71769},
+								pos: position{line: 2234, col: 7, offset: 72255},
 								expr: &charClassMatcher{
-									pos:        position{line: 2787, col: 13, offset: 88715},
+									pos:        position{line: 2809, col: 13, offset: 89521},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45619,20 +45647,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2231, col: 1, offset: 72028},
+			pos:  position{line: 2243, col: 1, offset: 72514},
 			expr: &actionExpr{
-				pos: position{line: 2232, col: 5, offset: 72066},
+				pos: position{line: 2244, col: 5, offset: 72552},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2232, col: 5, offset: 72066},
+					pos: position{line: 2244, col: 5, offset: 72552},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2232, col: 5, offset: 72066},
+							pos: position{line: 2244, col: 5, offset: 72552},
 							expr: &actionExpr{
-								pos: position{line: 2933, col: 10, offset: 92767},
+								pos: position{line: 2955, col: 10, offset: 93573},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2933, col: 10, offset: 92767},
+									pos:        position{line: 2955, col: 10, offset: 93573},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -45641,18 +45669,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2233, col: 5, offset: 72105},
+							pos:   position{line: 2245, col: 5, offset: 72591},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2233, col: 14, offset: 72114},
+								pos: position{line: 2245, col: 14, offset: 72600},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2233, col: 15, offset: 72115},
+									pos:  position{line: 2245, col: 15, offset: 72601},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2234, col: 5, offset: 72151},
+							pos: position{line: 2246, col: 5, offset: 72637},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -45661,49 +45689,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2240, col: 1, offset: 72292},
+			pos:  position{line: 2252, col: 1, offset: 72778},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72329},
+				pos: position{line: 2253, col: 5, offset: 72815},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72329},
+					pos: position{line: 2253, col: 5, offset: 72815},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2242, col: 5, offset: 72340},
+							pos: position{line: 2254, col: 5, offset: 72826},
 							expr: &seqExpr{
-								pos: position{line: 2216, col: 5, offset: 71584},
+								pos: position{line: 2228, col: 5, offset: 72070},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2216, col: 5, offset: 71584},
+										pos:        position{line: 2228, col: 5, offset: 72070},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2217, col: 5, offset: 71592},
+										pos: position{line: 2229, col: 5, offset: 72078},
 										expr: &litMatcher{
-											pos:        position{line: 2217, col: 6, offset: 71593},
+											pos:        position{line: 2229, col: 6, offset: 72079},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2218, col: 5, offset: 71656},
+										pos: position{line: 2230, col: 5, offset: 72142},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2222, col: 5, offset: 71767},
+										pos: position{line: 2234, col: 5, offset: 72253},
 										expr: &notExpr{
-											pos: position{line: 2222, col: 7, offset: 71769},
+											pos: position{line: 2234, col: 7, offset: 72255},
 											expr: &charClassMatcher{
-												pos:        position{line: 2787, col: 13, offset: 88715},
+												pos:        position{line: 2809, col: 13, offset: 89521},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45715,10 +45743,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72379},
+							pos:   position{line: 2255, col: 5, offset: 72865},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2243, col: 14, offset: 72388},
+								pos:  position{line: 2255, col: 14, offset: 72874},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45728,18 +45756,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2248, col: 1, offset: 72476},
+			pos:  position{line: 2260, col: 1, offset: 72962},
 			expr: &choiceExpr{
-				pos: position{line: 2250, col: 5, offset: 72540},
+				pos: position{line: 2262, col: 5, offset: 73026},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2250, col: 5, offset: 72540},
+						pos: position{line: 2262, col: 5, offset: 73026},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2250, col: 5, offset: 72540},
+							pos: position{line: 2262, col: 5, offset: 73026},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2250, col: 5, offset: 72540},
+									pos:   position{line: 2262, col: 5, offset: 73026},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -45766,22 +45794,26 @@ var g = &grammar{
 										},
 									},
 								},
-								&litMatcher{
-									pos:        position{line: 2250, col: 40, offset: 72575},
-									val:        "##",
-									ignoreCase: false,
-									want:       "\"##\"",
+								&actionExpr{
+									pos: position{line: 2192, col: 40, offset: 70999},
+									run: (*parser).callonEscapedMarkedText10,
+									expr: &litMatcher{
+										pos:        position{line: 2192, col: 40, offset: 70999},
+										val:        "##",
+										ignoreCase: false,
+										want:       "\"##\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2250, col: 45, offset: 72580},
+									pos:   position{line: 2262, col: 76, offset: 73097},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2250, col: 55, offset: 72590},
+										pos:  position{line: 2262, col: 86, offset: 73107},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2250, col: 86, offset: 72621},
+									pos:        position{line: 2262, col: 117, offset: 73138},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45790,17 +45822,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2254, col: 7, offset: 72782},
-						run: (*parser).callonEscapedMarkedText14,
+						pos: position{line: 2266, col: 7, offset: 73299},
+						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2254, col: 7, offset: 72782},
+							pos: position{line: 2266, col: 7, offset: 73299},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2254, col: 7, offset: 72782},
+									pos:   position{line: 2266, col: 7, offset: 73299},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedMarkedText17,
+										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -45813,21 +45845,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 42, offset: 72817},
+									pos:        position{line: 2266, col: 42, offset: 73334},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2254, col: 47, offset: 72822},
+									pos:   position{line: 2266, col: 47, offset: 73339},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2254, col: 57, offset: 72832},
+										pos:  position{line: 2266, col: 57, offset: 73349},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2254, col: 88, offset: 72863},
+									pos:        position{line: 2266, col: 88, offset: 73380},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45836,17 +45868,17 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2259, col: 7, offset: 73062},
-						run: (*parser).callonEscapedMarkedText24,
+						pos: position{line: 2271, col: 7, offset: 73579},
+						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2259, col: 7, offset: 73062},
+							pos: position{line: 2271, col: 7, offset: 73579},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2259, col: 7, offset: 73062},
+									pos:   position{line: 2271, col: 7, offset: 73579},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
-										run: (*parser).callonEscapedMarkedText27,
+										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1881, col: 25, offset: 60707},
 											expr: &litMatcher{
@@ -45859,21 +45891,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2259, col: 42, offset: 73097},
+									pos:        position{line: 2271, col: 42, offset: 73614},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2259, col: 46, offset: 73101},
+									pos:   position{line: 2271, col: 46, offset: 73618},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2259, col: 56, offset: 73111},
+										pos:  position{line: 2271, col: 56, offset: 73628},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2259, col: 87, offset: 73142},
+									pos:        position{line: 2271, col: 87, offset: 73659},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45886,29 +45918,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2266, col: 1, offset: 73405},
+			pos:  position{line: 2278, col: 1, offset: 73922},
 			expr: &actionExpr{
-				pos: position{line: 2267, col: 5, offset: 73427},
+				pos: position{line: 2279, col: 5, offset: 73944},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2267, col: 5, offset: 73427},
+					pos: position{line: 2279, col: 5, offset: 73944},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73642},
-							val:        "~",
-							ignoreCase: false,
-							want:       "\"~\"",
+						&actionExpr{
+							pos: position{line: 2287, col: 32, offset: 74200},
+							run: (*parser).callonSubscriptText3,
+							expr: &litMatcher{
+								pos:        position{line: 2287, col: 32, offset: 74200},
+								val:        "~",
+								ignoreCase: false,
+								want:       "\"~\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2268, col: 5, offset: 73454},
+							pos:   position{line: 2280, col: 5, offset: 73976},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2268, col: 14, offset: 73463},
+								pos:  position{line: 2280, col: 14, offset: 73985},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73642},
+							pos:        position{line: 2285, col: 27, offset: 74164},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45919,43 +45955,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2275, col: 1, offset: 73647},
+			pos:  position{line: 2292, col: 1, offset: 74303},
 			expr: &choiceExpr{
-				pos: position{line: 2275, col: 25, offset: 73671},
+				pos: position{line: 2292, col: 25, offset: 74327},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2275, col: 25, offset: 73671},
+						pos:  position{line: 2292, col: 25, offset: 74327},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2277, col: 21, offset: 73723},
+						pos: position{line: 2294, col: 21, offset: 74379},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2277, col: 21, offset: 73723},
+							pos:   position{line: 2294, col: 21, offset: 74379},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2277, col: 29, offset: 73731},
+								pos: position{line: 2294, col: 29, offset: 74387},
 								expr: &choiceExpr{
-									pos: position{line: 2277, col: 30, offset: 73732},
+									pos: position{line: 2294, col: 30, offset: 74388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2490, col: 5, offset: 80027},
+												pos: position{line: 2512, col: 5, offset: 80833},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2490, col: 5, offset: 80027},
+														pos: position{line: 2512, col: 5, offset: 80833},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 5, offset: 80103},
+														pos:   position{line: 2515, col: 5, offset: 80909},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2494, col: 9, offset: 80121},
+															pos: position{line: 2516, col: 9, offset: 80927},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2494, col: 10, offset: 80122},
+																pos:        position{line: 2516, col: 10, offset: 80928},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45967,7 +46003,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2277, col: 49, offset: 73751},
+											pos:        position{line: 2294, col: 49, offset: 74407},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -45983,15 +46019,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2281, col: 1, offset: 73808},
+			pos:  position{line: 2298, col: 1, offset: 74464},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 73875},
+				pos: position{line: 2300, col: 5, offset: 74531},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 73875},
+					pos: position{line: 2300, col: 5, offset: 74531},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73875},
+							pos:   position{line: 2300, col: 5, offset: 74531},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1881, col: 25, offset: 60707},
@@ -46007,22 +46043,26 @@ var g = &grammar{
 								},
 							},
 						},
-						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73642},
-							val:        "~",
-							ignoreCase: false,
-							want:       "\"~\"",
+						&actionExpr{
+							pos: position{line: 2287, col: 32, offset: 74200},
+							run: (*parser).callonEscapedSubscriptText7,
+							expr: &litMatcher{
+								pos:        position{line: 2287, col: 32, offset: 74200},
+								val:        "~",
+								ignoreCase: false,
+								want:       "\"~\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 73943},
+							pos:   position{line: 2302, col: 5, offset: 74604},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2285, col: 14, offset: 73952},
+								pos:  position{line: 2302, col: 14, offset: 74613},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 27, offset: 73642},
+							pos:        position{line: 2285, col: 27, offset: 74164},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46033,29 +46073,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2293, col: 1, offset: 74211},
+			pos:  position{line: 2310, col: 1, offset: 74872},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74235},
+				pos: position{line: 2311, col: 5, offset: 74896},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74235},
+					pos: position{line: 2311, col: 5, offset: 74896},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74462},
-							val:        "^",
-							ignoreCase: false,
-							want:       "\"^\"",
+						&actionExpr{
+							pos: position{line: 2319, col: 34, offset: 75165},
+							run: (*parser).callonSuperscriptText3,
+							expr: &litMatcher{
+								pos:        position{line: 2319, col: 34, offset: 75165},
+								val:        "^",
+								ignoreCase: false,
+								want:       "\"^\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2295, col: 5, offset: 74265},
+							pos:   position{line: 2312, col: 5, offset: 74930},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2295, col: 14, offset: 74274},
+								pos:  position{line: 2312, col: 14, offset: 74939},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74462},
+							pos:        position{line: 2317, col: 29, offset: 75127},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46066,43 +46110,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2302, col: 1, offset: 74467},
+			pos:  position{line: 2324, col: 1, offset: 75268},
 			expr: &choiceExpr{
-				pos: position{line: 2302, col: 27, offset: 74493},
+				pos: position{line: 2324, col: 27, offset: 75294},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2302, col: 27, offset: 74493},
+						pos:  position{line: 2324, col: 27, offset: 75294},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2304, col: 23, offset: 74549},
+						pos: position{line: 2326, col: 23, offset: 75350},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2304, col: 23, offset: 74549},
+							pos:   position{line: 2326, col: 23, offset: 75350},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2304, col: 31, offset: 74557},
+								pos: position{line: 2326, col: 31, offset: 75358},
 								expr: &choiceExpr{
-									pos: position{line: 2304, col: 32, offset: 74558},
+									pos: position{line: 2326, col: 32, offset: 75359},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2490, col: 5, offset: 80027},
+												pos: position{line: 2512, col: 5, offset: 80833},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2490, col: 5, offset: 80027},
+														pos: position{line: 2512, col: 5, offset: 80833},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 5, offset: 80103},
+														pos:   position{line: 2515, col: 5, offset: 80909},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2494, col: 9, offset: 80121},
+															pos: position{line: 2516, col: 9, offset: 80927},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2494, col: 10, offset: 80122},
+																pos:        position{line: 2516, col: 10, offset: 80928},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46114,7 +46158,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2304, col: 51, offset: 74577},
+											pos:        position{line: 2326, col: 51, offset: 75378},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -46130,15 +46174,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2308, col: 1, offset: 74634},
+			pos:  position{line: 2330, col: 1, offset: 75435},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74706},
+				pos: position{line: 2332, col: 5, offset: 75507},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74706},
+					pos: position{line: 2332, col: 5, offset: 75507},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74706},
+							pos:   position{line: 2332, col: 5, offset: 75507},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1881, col: 25, offset: 60707},
@@ -46154,22 +46198,26 @@ var g = &grammar{
 								},
 							},
 						},
-						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74462},
-							val:        "^",
-							ignoreCase: false,
-							want:       "\"^\"",
+						&actionExpr{
+							pos: position{line: 2319, col: 34, offset: 75165},
+							run: (*parser).callonEscapedSuperscriptText7,
+							expr: &litMatcher{
+								pos:        position{line: 2319, col: 34, offset: 75165},
+								val:        "^",
+								ignoreCase: false,
+								want:       "\"^\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74776},
+							pos:   position{line: 2334, col: 5, offset: 75582},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74785},
+								pos:  position{line: 2334, col: 14, offset: 75591},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2300, col: 29, offset: 74462},
+							pos:        position{line: 2317, col: 29, offset: 75127},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46180,27 +46228,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2321, col: 1, offset: 75250},
+			pos:  position{line: 2343, col: 1, offset: 76056},
 			expr: &actionExpr{
-				pos: position{line: 2322, col: 5, offset: 75266},
+				pos: position{line: 2344, col: 5, offset: 76072},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2322, col: 5, offset: 75266},
+					pos: position{line: 2344, col: 5, offset: 76072},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2322, col: 5, offset: 75266},
+							pos: position{line: 2344, col: 5, offset: 76072},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2325, col: 5, offset: 75329},
+							pos:   position{line: 2347, col: 5, offset: 76135},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2325, col: 12, offset: 75336},
+								pos: position{line: 2347, col: 12, offset: 76142},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2325, col: 12, offset: 75336},
+									pos: position{line: 2347, col: 12, offset: 76142},
 									expr: &litMatcher{
-										pos:        position{line: 2325, col: 13, offset: 75337},
+										pos:        position{line: 2347, col: 13, offset: 76143},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46209,16 +46257,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2329, col: 5, offset: 75445},
+							pos: position{line: 2351, col: 5, offset: 76251},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2937, col: 11, offset: 92828},
+							pos: position{line: 2959, col: 11, offset: 93634},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2937, col: 11, offset: 92828},
+								pos: position{line: 2959, col: 11, offset: 93634},
 								expr: &charClassMatcher{
-									pos:        position{line: 2937, col: 11, offset: 92828},
+									pos:        position{line: 2959, col: 11, offset: 93634},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46227,36 +46275,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2333, col: 12, offset: 75604},
+							pos:   position{line: 2355, col: 12, offset: 76410},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2333, col: 19, offset: 75611},
+								pos:  position{line: 2355, col: 19, offset: 76417},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46265,9 +46313,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -46278,24 +46326,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2337, col: 1, offset: 75707},
+			pos:  position{line: 2359, col: 1, offset: 76513},
 			expr: &actionExpr{
-				pos: position{line: 2338, col: 5, offset: 75728},
+				pos: position{line: 2360, col: 5, offset: 76534},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2338, col: 5, offset: 75728},
+					pos: position{line: 2360, col: 5, offset: 76534},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2338, col: 5, offset: 75728},
+							pos: position{line: 2360, col: 5, offset: 76534},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 75872},
+							pos:   position{line: 2366, col: 5, offset: 76678},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2344, col: 14, offset: 75881},
+								pos: position{line: 2366, col: 14, offset: 76687},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2344, col: 15, offset: 75882},
+									pos:  position{line: 2366, col: 15, offset: 76688},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46306,38 +46354,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2348, col: 1, offset: 75963},
+			pos:  position{line: 2370, col: 1, offset: 76769},
 			expr: &actionExpr{
-				pos: position{line: 2349, col: 5, offset: 75990},
+				pos: position{line: 2371, col: 5, offset: 76796},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2349, col: 5, offset: 75990},
+					pos: position{line: 2371, col: 5, offset: 76796},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2349, col: 5, offset: 75990},
+							pos: position{line: 2371, col: 5, offset: 76796},
 							expr: &choiceExpr{
-								pos: position{line: 2955, col: 8, offset: 93165},
+								pos: position{line: 2977, col: 8, offset: 93971},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2942, col: 12, offset: 92938},
+										pos: position{line: 2964, col: 12, offset: 93744},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2942, col: 13, offset: 92939},
+											pos: position{line: 2964, col: 13, offset: 93745},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2942, col: 13, offset: 92939},
+													pos:        position{line: 2964, col: 13, offset: 93745},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 20, offset: 92946},
+													pos:        position{line: 2964, col: 20, offset: 93752},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 29, offset: 92955},
+													pos:        position{line: 2964, col: 29, offset: 93761},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46346,45 +46394,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2952, col: 8, offset: 93115},
+										pos: position{line: 2974, col: 8, offset: 93921},
 										expr: &anyMatcher{
-											line: 2952, col: 9, offset: 93116,
+											line: 2974, col: 9, offset: 93922,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2350, col: 5, offset: 75999},
+							pos:   position{line: 2372, col: 5, offset: 76805},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2351, col: 9, offset: 76017},
+								pos: position{line: 2373, col: 9, offset: 76823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2796, col: 5, offset: 88862},
+										pos: position{line: 2818, col: 5, offset: 89668},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2796, col: 5, offset: 88862},
+											pos: position{line: 2818, col: 5, offset: 89668},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88862},
+													pos: position{line: 2818, col: 5, offset: 89668},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88873},
+														pos: position{line: 2819, col: 9, offset: 89679},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2797, col: 9, offset: 88873},
+																pos: position{line: 2819, col: 9, offset: 89679},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2800, col: 9, offset: 88936},
+																pos:   position{line: 2822, col: 9, offset: 89742},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2772, col: 18, offset: 88248},
+																	pos: position{line: 2794, col: 18, offset: 89054},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2772, col: 19, offset: 88249},
+																		pos: position{line: 2794, col: 19, offset: 89055},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2772, col: 19, offset: 88249},
+																			pos:        position{line: 2794, col: 19, offset: 89055},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46395,28 +46443,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 30, offset: 88957},
+																pos:        position{line: 2822, col: 30, offset: 89763},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2801, col: 9, offset: 89044},
+																pos: position{line: 2823, col: 9, offset: 89850},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2805, col: 5, offset: 89156},
+													pos:   position{line: 2827, col: 5, offset: 89962},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2805, col: 11, offset: 89162},
+														pos: position{line: 2827, col: 11, offset: 89968},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2805, col: 11, offset: 89162},
+															pos: position{line: 2827, col: 11, offset: 89968},
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 11, offset: 89162},
+																pos:        position{line: 2827, col: 11, offset: 89968},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46426,32 +46474,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 89220},
+													pos: position{line: 2830, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 89231},
+														pos: position{line: 2831, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 89231},
+																pos:        position{line: 2831, col: 9, offset: 90037},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2810, col: 9, offset: 89280},
+																pos: position{line: 2832, col: 9, offset: 90086},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89360},
+													pos: position{line: 2836, col: 5, offset: 90166},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89371},
+														pos: position{line: 2837, col: 9, offset: 90177},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2815, col: 9, offset: 89371},
+																pos: position{line: 2837, col: 9, offset: 90177},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2815, col: 9, offset: 89371},
+																	pos:        position{line: 2837, col: 9, offset: 90177},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46460,13 +46508,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2815, col: 23, offset: 89385},
+																pos:        position{line: 2837, col: 23, offset: 90191},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2815, col: 27, offset: 89389},
+																pos:        position{line: 2837, col: 27, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46479,12 +46527,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2937, col: 11, offset: 92828},
+										pos: position{line: 2959, col: 11, offset: 93634},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2937, col: 11, offset: 92828},
+											pos: position{line: 2959, col: 11, offset: 93634},
 											expr: &charClassMatcher{
-												pos:        position{line: 2937, col: 11, offset: 92828},
+												pos:        position{line: 2959, col: 11, offset: 93634},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46493,21 +46541,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 5, offset: 81198},
+										pos: position{line: 2543, col: 5, offset: 82004},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 5, offset: 81198},
+											pos: position{line: 2543, col: 5, offset: 82004},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2521, col: 5, offset: 81198},
+													pos:        position{line: 2543, col: 5, offset: 82004},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2521, col: 10, offset: 81203},
+													pos: position{line: 2543, col: 10, offset: 82009},
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 11, offset: 81204},
+														pos:        position{line: 2543, col: 11, offset: 82010},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46518,29 +46566,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81390},
+										pos: position{line: 2549, col: 5, offset: 82196},
 										run: (*parser).callonSectionTitleElement47,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81390},
+											pos: position{line: 2549, col: 5, offset: 82196},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81390},
+													pos: position{line: 2549, col: 5, offset: 82196},
 													run: (*parser).callonSectionTitleElement49,
 												},
 												&andCodeExpr{
-													pos: position{line: 2530, col: 5, offset: 81461},
+													pos: position{line: 2552, col: 5, offset: 82267},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&litMatcher{
-													pos:        position{line: 2534, col: 5, offset: 81586},
+													pos:        position{line: 2556, col: 5, offset: 82392},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2534, col: 9, offset: 81590},
+													pos: position{line: 2556, col: 9, offset: 82396},
 													expr: &charClassMatcher{
-														pos:        position{line: 2534, col: 10, offset: 81591},
+														pos:        position{line: 2556, col: 10, offset: 82397},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46551,31 +46599,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2354, col: 11, offset: 76082},
+										pos:  position{line: 2376, col: 11, offset: 76888},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89582},
+										pos: position{line: 2845, col: 5, offset: 90388},
 										run: (*parser).callonSectionTitleElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2824, col: 9, offset: 89592},
+											pos: position{line: 2846, col: 9, offset: 90398},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2824, col: 10, offset: 89593},
+													pos:        position{line: 2846, col: 10, offset: 90399},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89690},
+													pos: position{line: 2848, col: 13, offset: 90496},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89690},
+															pos: position{line: 2848, col: 13, offset: 90496},
 															run: (*parser).callonSectionTitleElement59,
 														},
 														&litMatcher{
-															pos:        position{line: 2829, col: 13, offset: 89790},
+															pos:        position{line: 2851, col: 13, offset: 90596},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46583,20 +46631,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2829, col: 19, offset: 89796},
+													pos:        position{line: 2851, col: 19, offset: 90602},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89834},
+													pos: position{line: 2854, col: 13, offset: 90640},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89834},
+															pos: position{line: 2854, col: 13, offset: 90640},
 															run: (*parser).callonSectionTitleElement63,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2835, col: 14, offset: 89927},
+															pos:        position{line: 2857, col: 14, offset: 90733},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46605,18 +46653,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2837, col: 12, offset: 89971},
+													pos: position{line: 2859, col: 12, offset: 90777},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2837, col: 12, offset: 89971},
+															pos:        position{line: 2859, col: 12, offset: 90777},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2837, col: 16, offset: 89975},
+															pos: position{line: 2859, col: 16, offset: 90781},
 															expr: &litMatcher{
-																pos:        position{line: 2837, col: 17, offset: 89976},
+																pos:        position{line: 2859, col: 17, offset: 90782},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46628,35 +46676,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2356, col: 11, offset: 76155},
+										pos:  position{line: 2378, col: 11, offset: 76961},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2357, col: 11, offset: 76171},
+										pos:  position{line: 2379, col: 11, offset: 76977},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2358, col: 11, offset: 76199},
+										pos:  position{line: 2380, col: 11, offset: 77005},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80027},
+										pos: position{line: 2512, col: 5, offset: 80833},
 										run: (*parser).callonSectionTitleElement72,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80027},
+													pos: position{line: 2512, col: 5, offset: 80833},
 													run: (*parser).callonSectionTitleElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80103},
+													pos:   position{line: 2515, col: 5, offset: 80909},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80121},
+														pos: position{line: 2516, col: 9, offset: 80927},
 														run: (*parser).callonSectionTitleElement76,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80122},
+															pos:        position{line: 2516, col: 10, offset: 80928},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46668,7 +46716,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2360, col: 11, offset: 76284},
+										pos:  position{line: 2382, col: 11, offset: 77090},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47057,17 +47105,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2373, col: 5, offset: 76737},
+										pos: position{line: 2395, col: 5, offset: 77543},
 										run: (*parser).callonSectionTitleElement156,
 										expr: &seqExpr{
-											pos: position{line: 2373, col: 5, offset: 76737},
+											pos: position{line: 2395, col: 5, offset: 77543},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2373, col: 5, offset: 76737},
+													pos: position{line: 2395, col: 5, offset: 77543},
 													run: (*parser).callonSectionTitleElement158,
 												},
 												&labeledExpr{
-													pos:   position{line: 2376, col: 5, offset: 76792},
+													pos:   position{line: 2398, col: 5, offset: 77598},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -47521,12 +47569,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2376, col: 26, offset: 76813},
+													pos: position{line: 2398, col: 26, offset: 77619},
 													expr: &actionExpr{
-														pos: position{line: 2933, col: 10, offset: 92767},
+														pos: position{line: 2955, col: 10, offset: 93573},
 														run: (*parser).callonSectionTitleElement252,
 														expr: &charClassMatcher{
-															pos:        position{line: 2933, col: 10, offset: 92767},
+															pos:        position{line: 2955, col: 10, offset: 93573},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47535,30 +47583,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2376, col: 33, offset: 76820},
+													pos: position{line: 2398, col: 33, offset: 77626},
 													expr: &choiceExpr{
-														pos: position{line: 2955, col: 8, offset: 93165},
+														pos: position{line: 2977, col: 8, offset: 93971},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2942, col: 12, offset: 92938},
+																pos: position{line: 2964, col: 12, offset: 93744},
 																run: (*parser).callonSectionTitleElement256,
 																expr: &choiceExpr{
-																	pos: position{line: 2942, col: 13, offset: 92939},
+																	pos: position{line: 2964, col: 13, offset: 93745},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 13, offset: 92939},
+																			pos:        position{line: 2964, col: 13, offset: 93745},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 20, offset: 92946},
+																			pos:        position{line: 2964, col: 20, offset: 93752},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2942, col: 29, offset: 92955},
+																			pos:        position{line: 2964, col: 29, offset: 93761},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47567,9 +47615,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2952, col: 8, offset: 93115},
+																pos: position{line: 2974, col: 8, offset: 93921},
 																expr: &anyMatcher{
-																	line: 2952, col: 9, offset: 93116,
+																	line: 2974, col: 9, offset: 93922,
 																},
 															},
 														},
@@ -47594,12 +47642,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 7, offset: 92419},
+														pos: position{line: 2940, col: 7, offset: 93225},
 														run: (*parser).callonSectionTitleElement267,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2918, col: 7, offset: 92419},
+															pos: position{line: 2940, col: 7, offset: 93225},
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 7, offset: 92419},
+																pos:        position{line: 2940, col: 7, offset: 93225},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47633,12 +47681,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 7, offset: 92419},
+														pos: position{line: 2940, col: 7, offset: 93225},
 														run: (*parser).callonSectionTitleElement275,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2918, col: 7, offset: 92419},
+															pos: position{line: 2940, col: 7, offset: 93225},
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 7, offset: 92419},
+																pos:        position{line: 2940, col: 7, offset: 93225},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47657,14 +47705,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2365, col: 11, offset: 76538},
+										pos:  position{line: 2387, col: 11, offset: 77344},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 12, offset: 90236},
+										pos: position{line: 2867, col: 12, offset: 91042},
 										run: (*parser).callonSectionTitleElement280,
 										expr: &charClassMatcher{
-											pos:        position{line: 2845, col: 12, offset: 90236},
+											pos:        position{line: 2867, col: 12, offset: 91042},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47680,61 +47728,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2386, col: 1, offset: 77082},
+			pos:  position{line: 2408, col: 1, offset: 77888},
 			expr: &actionExpr{
-				pos: position{line: 2387, col: 5, offset: 77169},
+				pos: position{line: 2409, col: 5, offset: 77975},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2387, col: 5, offset: 77169},
+					pos: position{line: 2409, col: 5, offset: 77975},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2387, col: 5, offset: 77169},
+							pos:   position{line: 2409, col: 5, offset: 77975},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2387, col: 14, offset: 77178},
+								pos: position{line: 2409, col: 14, offset: 77984},
 								expr: &actionExpr{
-									pos: position{line: 2389, col: 9, offset: 77204},
+									pos: position{line: 2411, col: 9, offset: 78010},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2389, col: 9, offset: 77204},
+										pos: position{line: 2411, col: 9, offset: 78010},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2950, col: 11, offset: 93101},
+												pos: position{line: 2972, col: 11, offset: 93907},
 												expr: &anyMatcher{
-													line: 2950, col: 13, offset: 93103,
+													line: 2972, col: 13, offset: 93909,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2390, col: 9, offset: 77219},
+												pos:   position{line: 2412, col: 9, offset: 78025},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2391, col: 13, offset: 77241},
+													pos: position{line: 2413, col: 13, offset: 78047},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2796, col: 5, offset: 88862},
+															pos: position{line: 2818, col: 5, offset: 89668},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2796, col: 5, offset: 88862},
+																pos: position{line: 2818, col: 5, offset: 89668},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2796, col: 5, offset: 88862},
+																		pos: position{line: 2818, col: 5, offset: 89668},
 																		expr: &seqExpr{
-																			pos: position{line: 2797, col: 9, offset: 88873},
+																			pos: position{line: 2819, col: 9, offset: 89679},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2797, col: 9, offset: 88873},
+																					pos: position{line: 2819, col: 9, offset: 89679},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2800, col: 9, offset: 88936},
+																					pos:   position{line: 2822, col: 9, offset: 89742},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2772, col: 18, offset: 88248},
+																						pos: position{line: 2794, col: 18, offset: 89054},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2772, col: 19, offset: 88249},
+																							pos: position{line: 2794, col: 19, offset: 89055},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2772, col: 19, offset: 88249},
+																								pos:        position{line: 2794, col: 19, offset: 89055},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47745,28 +47793,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2800, col: 30, offset: 88957},
+																					pos:        position{line: 2822, col: 30, offset: 89763},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2801, col: 9, offset: 89044},
+																					pos: position{line: 2823, col: 9, offset: 89850},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2805, col: 5, offset: 89156},
+																		pos:   position{line: 2827, col: 5, offset: 89962},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2805, col: 11, offset: 89162},
+																			pos: position{line: 2827, col: 11, offset: 89968},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2805, col: 11, offset: 89162},
+																				pos: position{line: 2827, col: 11, offset: 89968},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2805, col: 11, offset: 89162},
+																					pos:        position{line: 2827, col: 11, offset: 89968},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47776,32 +47824,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2808, col: 5, offset: 89220},
+																		pos: position{line: 2830, col: 5, offset: 90026},
 																		expr: &seqExpr{
-																			pos: position{line: 2809, col: 9, offset: 89231},
+																			pos: position{line: 2831, col: 9, offset: 90037},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2809, col: 9, offset: 89231},
+																					pos:        position{line: 2831, col: 9, offset: 90037},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2810, col: 9, offset: 89280},
+																					pos: position{line: 2832, col: 9, offset: 90086},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2814, col: 5, offset: 89360},
+																		pos: position{line: 2836, col: 5, offset: 90166},
 																		expr: &seqExpr{
-																			pos: position{line: 2815, col: 9, offset: 89371},
+																			pos: position{line: 2837, col: 9, offset: 90177},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2815, col: 9, offset: 89371},
+																					pos: position{line: 2837, col: 9, offset: 90177},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2815, col: 9, offset: 89371},
+																						pos:        position{line: 2837, col: 9, offset: 90177},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47810,13 +47858,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2815, col: 23, offset: 89385},
+																					pos:        position{line: 2837, col: 23, offset: 90191},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2815, col: 27, offset: 89389},
+																					pos:        position{line: 2837, col: 27, offset: 90195},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47829,12 +47877,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2937, col: 11, offset: 92828},
+															pos: position{line: 2959, col: 11, offset: 93634},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2937, col: 11, offset: 92828},
+																pos: position{line: 2959, col: 11, offset: 93634},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2937, col: 11, offset: 92828},
+																	pos:        position{line: 2959, col: 11, offset: 93634},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47843,25 +47891,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77287},
+															pos:  position{line: 2415, col: 15, offset: 78093},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2521, col: 5, offset: 81198},
+															pos: position{line: 2543, col: 5, offset: 82004},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 5, offset: 81198},
+																pos: position{line: 2543, col: 5, offset: 82004},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2521, col: 5, offset: 81198},
+																		pos:        position{line: 2543, col: 5, offset: 82004},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2521, col: 10, offset: 81203},
+																		pos: position{line: 2543, col: 10, offset: 82009},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2521, col: 11, offset: 81204},
+																			pos:        position{line: 2543, col: 11, offset: 82010},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47872,29 +47920,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2527, col: 5, offset: 81390},
+															pos: position{line: 2549, col: 5, offset: 82196},
 															run: (*parser).callonNormalGroup45,
 															expr: &seqExpr{
-																pos: position{line: 2527, col: 5, offset: 81390},
+																pos: position{line: 2549, col: 5, offset: 82196},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2527, col: 5, offset: 81390},
+																		pos: position{line: 2549, col: 5, offset: 82196},
 																		run: (*parser).callonNormalGroup47,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2530, col: 5, offset: 81461},
+																		pos: position{line: 2552, col: 5, offset: 82267},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2534, col: 5, offset: 81586},
+																		pos:        position{line: 2556, col: 5, offset: 82392},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2534, col: 9, offset: 81590},
+																		pos: position{line: 2556, col: 9, offset: 82396},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2534, col: 10, offset: 81591},
+																			pos:        position{line: 2556, col: 10, offset: 82397},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47905,27 +47953,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2823, col: 5, offset: 89582},
+															pos: position{line: 2845, col: 5, offset: 90388},
 															run: (*parser).callonNormalGroup52,
 															expr: &choiceExpr{
-																pos: position{line: 2824, col: 9, offset: 89592},
+																pos: position{line: 2846, col: 9, offset: 90398},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2824, col: 10, offset: 89593},
+																		pos:        position{line: 2846, col: 10, offset: 90399},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2826, col: 13, offset: 89690},
+																		pos: position{line: 2848, col: 13, offset: 90496},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2826, col: 13, offset: 89690},
+																				pos: position{line: 2848, col: 13, offset: 90496},
 																				run: (*parser).callonNormalGroup56,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2829, col: 13, offset: 89790},
+																				pos:        position{line: 2851, col: 13, offset: 90596},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47933,20 +47981,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 19, offset: 89796},
+																		pos:        position{line: 2851, col: 19, offset: 90602},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2832, col: 13, offset: 89834},
+																		pos: position{line: 2854, col: 13, offset: 90640},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2832, col: 13, offset: 89834},
+																				pos: position{line: 2854, col: 13, offset: 90640},
 																				run: (*parser).callonNormalGroup60,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2835, col: 14, offset: 89927},
+																				pos:        position{line: 2857, col: 14, offset: 90733},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47955,18 +48003,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2837, col: 12, offset: 89971},
+																		pos: position{line: 2859, col: 12, offset: 90777},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2837, col: 12, offset: 89971},
+																				pos:        position{line: 2859, col: 12, offset: 90777},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2837, col: 16, offset: 89975},
+																				pos: position{line: 2859, col: 16, offset: 90781},
 																				expr: &litMatcher{
-																					pos:        position{line: 2837, col: 17, offset: 89976},
+																					pos:        position{line: 2859, col: 17, offset: 90782},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -47978,25 +48026,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2942, col: 12, offset: 92938},
+															pos: position{line: 2964, col: 12, offset: 93744},
 															run: (*parser).callonNormalGroup66,
 															expr: &choiceExpr{
-																pos: position{line: 2942, col: 13, offset: 92939},
+																pos: position{line: 2964, col: 13, offset: 93745},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 13, offset: 92939},
+																		pos:        position{line: 2964, col: 13, offset: 93745},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 20, offset: 92946},
+																		pos:        position{line: 2964, col: 20, offset: 93752},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2942, col: 29, offset: 92955},
+																		pos:        position{line: 2964, col: 29, offset: 93761},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48351,35 +48399,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2398, col: 15, offset: 77454},
+															pos:  position{line: 2420, col: 15, offset: 78260},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2399, col: 15, offset: 77474},
+															pos:  position{line: 2421, col: 15, offset: 78280},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2400, col: 15, offset: 77563},
+															pos:  position{line: 2422, col: 15, offset: 78369},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2490, col: 5, offset: 80027},
+															pos: position{line: 2512, col: 5, offset: 80833},
 															run: (*parser).callonNormalGroup143,
 															expr: &seqExpr{
-																pos: position{line: 2490, col: 5, offset: 80027},
+																pos: position{line: 2512, col: 5, offset: 80833},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2490, col: 5, offset: 80027},
+																		pos: position{line: 2512, col: 5, offset: 80833},
 																		run: (*parser).callonNormalGroup145,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 5, offset: 80103},
+																		pos:   position{line: 2515, col: 5, offset: 80909},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2494, col: 9, offset: 80121},
+																			pos: position{line: 2516, col: 9, offset: 80927},
 																			run: (*parser).callonNormalGroup147,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2494, col: 10, offset: 80122},
+																				pos:        position{line: 2516, col: 10, offset: 80928},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48413,10 +48461,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonNormalGroup155,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48427,28 +48475,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2955, col: 8, offset: 93165},
+																			pos: position{line: 2977, col: 8, offset: 93971},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonNormalGroup159,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48457,9 +48505,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2952, col: 8, offset: 93115},
+																					pos: position{line: 2974, col: 8, offset: 93921},
 																					expr: &anyMatcher{
-																						line: 2952, col: 9, offset: 93116,
+																						line: 2974, col: 9, offset: 93922,
 																					},
 																				},
 																			},
@@ -48469,7 +48517,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2403, col: 15, offset: 77745},
+															pos:  position{line: 2425, col: 15, offset: 78551},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -48512,10 +48560,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2845, col: 12, offset: 90236},
+															pos: position{line: 2867, col: 12, offset: 91042},
 															run: (*parser).callonNormalGroup175,
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 12, offset: 90236},
+																pos:        position{line: 2867, col: 12, offset: 91042},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48531,9 +48579,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -48542,28 +48590,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2414, col: 1, offset: 78183},
+			pos:  position{line: 2436, col: 1, offset: 78989},
 			expr: &actionExpr{
-				pos: position{line: 2415, col: 5, offset: 78216},
+				pos: position{line: 2437, col: 5, offset: 79022},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2415, col: 5, offset: 78216},
+					pos: position{line: 2437, col: 5, offset: 79022},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2415, col: 5, offset: 78216},
+							pos:   position{line: 2437, col: 5, offset: 79022},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2415, col: 14, offset: 78225},
+								pos: position{line: 2437, col: 14, offset: 79031},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2415, col: 15, offset: 78226},
+									pos:  position{line: 2437, col: 15, offset: 79032},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -48572,50 +48620,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2419, col: 1, offset: 78323},
+			pos:  position{line: 2441, col: 1, offset: 79129},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78363},
+				pos: position{line: 2442, col: 5, offset: 79169},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78363},
+					pos: position{line: 2442, col: 5, offset: 79169},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2950, col: 11, offset: 93101},
+							pos: position{line: 2972, col: 11, offset: 93907},
 							expr: &anyMatcher{
-								line: 2950, col: 13, offset: 93103,
+								line: 2972, col: 13, offset: 93909,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 78374},
+							pos:   position{line: 2443, col: 5, offset: 79180},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2422, col: 9, offset: 78392},
+								pos: position{line: 2444, col: 9, offset: 79198},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2796, col: 5, offset: 88862},
+										pos: position{line: 2818, col: 5, offset: 89668},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2796, col: 5, offset: 88862},
+											pos: position{line: 2818, col: 5, offset: 89668},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88862},
+													pos: position{line: 2818, col: 5, offset: 89668},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88873},
+														pos: position{line: 2819, col: 9, offset: 89679},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2797, col: 9, offset: 88873},
+																pos: position{line: 2819, col: 9, offset: 89679},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2800, col: 9, offset: 88936},
+																pos:   position{line: 2822, col: 9, offset: 89742},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2772, col: 18, offset: 88248},
+																	pos: position{line: 2794, col: 18, offset: 89054},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2772, col: 19, offset: 88249},
+																		pos: position{line: 2794, col: 19, offset: 89055},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2772, col: 19, offset: 88249},
+																			pos:        position{line: 2794, col: 19, offset: 89055},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48626,28 +48674,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2800, col: 30, offset: 88957},
+																pos:        position{line: 2822, col: 30, offset: 89763},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2801, col: 9, offset: 89044},
+																pos: position{line: 2823, col: 9, offset: 89850},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2805, col: 5, offset: 89156},
+													pos:   position{line: 2827, col: 5, offset: 89962},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2805, col: 11, offset: 89162},
+														pos: position{line: 2827, col: 11, offset: 89968},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2805, col: 11, offset: 89162},
+															pos: position{line: 2827, col: 11, offset: 89968},
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 11, offset: 89162},
+																pos:        position{line: 2827, col: 11, offset: 89968},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48657,32 +48705,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2808, col: 5, offset: 89220},
+													pos: position{line: 2830, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2809, col: 9, offset: 89231},
+														pos: position{line: 2831, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2809, col: 9, offset: 89231},
+																pos:        position{line: 2831, col: 9, offset: 90037},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2810, col: 9, offset: 89280},
+																pos: position{line: 2832, col: 9, offset: 90086},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 5, offset: 89360},
+													pos: position{line: 2836, col: 5, offset: 90166},
 													expr: &seqExpr{
-														pos: position{line: 2815, col: 9, offset: 89371},
+														pos: position{line: 2837, col: 9, offset: 90177},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2815, col: 9, offset: 89371},
+																pos: position{line: 2837, col: 9, offset: 90177},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2815, col: 9, offset: 89371},
+																	pos:        position{line: 2837, col: 9, offset: 90177},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48691,13 +48739,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2815, col: 23, offset: 89385},
+																pos:        position{line: 2837, col: 23, offset: 90191},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2815, col: 27, offset: 89389},
+																pos:        position{line: 2837, col: 27, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48710,10 +48758,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2933, col: 10, offset: 92767},
+										pos: position{line: 2955, col: 10, offset: 93573},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2933, col: 10, offset: 92767},
+											pos:        position{line: 2955, col: 10, offset: 93573},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48721,31 +48769,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78430},
+										pos:  position{line: 2446, col: 11, offset: 79236},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89582},
+										pos: position{line: 2845, col: 5, offset: 90388},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &choiceExpr{
-											pos: position{line: 2824, col: 9, offset: 89592},
+											pos: position{line: 2846, col: 9, offset: 90398},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2824, col: 10, offset: 89593},
+													pos:        position{line: 2846, col: 10, offset: 90399},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2826, col: 13, offset: 89690},
+													pos: position{line: 2848, col: 13, offset: 90496},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2826, col: 13, offset: 89690},
+															pos: position{line: 2848, col: 13, offset: 90496},
 															run: (*parser).callonAttributeStructuredValueElement39,
 														},
 														&litMatcher{
-															pos:        position{line: 2829, col: 13, offset: 89790},
+															pos:        position{line: 2851, col: 13, offset: 90596},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48753,20 +48801,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2829, col: 19, offset: 89796},
+													pos:        position{line: 2851, col: 19, offset: 90602},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2832, col: 13, offset: 89834},
+													pos: position{line: 2854, col: 13, offset: 90640},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2832, col: 13, offset: 89834},
+															pos: position{line: 2854, col: 13, offset: 90640},
 															run: (*parser).callonAttributeStructuredValueElement43,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2835, col: 14, offset: 89927},
+															pos:        position{line: 2857, col: 14, offset: 90733},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48775,18 +48823,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2837, col: 12, offset: 89971},
+													pos: position{line: 2859, col: 12, offset: 90777},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2837, col: 12, offset: 89971},
+															pos:        position{line: 2859, col: 12, offset: 90777},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2837, col: 16, offset: 89975},
+															pos: position{line: 2859, col: 16, offset: 90781},
 															expr: &litMatcher{
-																pos:        position{line: 2837, col: 17, offset: 89976},
+																pos:        position{line: 2859, col: 17, offset: 90782},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48798,31 +48846,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78503},
+										pos:  position{line: 2448, col: 11, offset: 79309},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78519},
+										pos:  position{line: 2449, col: 11, offset: 79325},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80027},
+										pos: position{line: 2512, col: 5, offset: 80833},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80027},
+											pos: position{line: 2512, col: 5, offset: 80833},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80027},
+													pos: position{line: 2512, col: 5, offset: 80833},
 													run: (*parser).callonAttributeStructuredValueElement53,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80103},
+													pos:   position{line: 2515, col: 5, offset: 80909},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80121},
+														pos: position{line: 2516, col: 9, offset: 80927},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80122},
+															pos:        position{line: 2516, col: 10, offset: 80928},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48873,25 +48921,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2942, col: 12, offset: 92938},
+										pos: position{line: 2964, col: 12, offset: 93744},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &choiceExpr{
-											pos: position{line: 2942, col: 13, offset: 92939},
+											pos: position{line: 2964, col: 13, offset: 93745},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2942, col: 13, offset: 92939},
+													pos:        position{line: 2964, col: 13, offset: 93745},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 20, offset: 92946},
+													pos:        position{line: 2964, col: 20, offset: 93752},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2942, col: 29, offset: 92955},
+													pos:        position{line: 2964, col: 29, offset: 93761},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48900,10 +48948,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 12, offset: 90236},
+										pos: position{line: 2867, col: 12, offset: 91042},
 										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &charClassMatcher{
-											pos:        position{line: 2845, col: 12, offset: 90236},
+											pos:        position{line: 2867, col: 12, offset: 91042},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48919,49 +48967,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2438, col: 1, offset: 78789},
+			pos:  position{line: 2460, col: 1, offset: 79595},
 			expr: &actionExpr{
-				pos: position{line: 2440, col: 5, offset: 78871},
+				pos: position{line: 2462, col: 5, offset: 79677},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2440, col: 5, offset: 78871},
+					pos: position{line: 2462, col: 5, offset: 79677},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2440, col: 5, offset: 78871},
+							pos: position{line: 2462, col: 5, offset: 79677},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 78936},
+							pos:   position{line: 2465, col: 5, offset: 79742},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 78954},
+								pos: position{line: 2466, col: 9, offset: 79760},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 9, offset: 78954},
+										pos:  position{line: 2466, col: 9, offset: 79760},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 78975},
+										pos:  position{line: 2467, col: 11, offset: 79781},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 78998},
+										pos:  position{line: 2468, col: 11, offset: 79804},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79014},
+										pos:  position{line: 2469, col: 11, offset: 79820},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79043},
+										pos:  position{line: 2470, col: 11, offset: 79849},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79069},
+										pos:  position{line: 2471, col: 11, offset: 79875},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79095},
+										pos:  position{line: 2472, col: 11, offset: 79901},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -48980,12 +49028,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 7, offset: 92419},
+														pos: position{line: 2940, col: 7, offset: 93225},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2918, col: 7, offset: 92419},
+															pos: position{line: 2940, col: 7, offset: 93225},
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 7, offset: 92419},
+																pos:        position{line: 2940, col: 7, offset: 93225},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49019,12 +49067,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2918, col: 7, offset: 92419},
+														pos: position{line: 2940, col: 7, offset: 93225},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2918, col: 7, offset: 92419},
+															pos: position{line: 2940, col: 7, offset: 93225},
 															expr: &charClassMatcher{
-																pos:        position{line: 2918, col: 7, offset: 92419},
+																pos:        position{line: 2940, col: 7, offset: 93225},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49066,17 +49114,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2787, col: 13, offset: 88715},
+																		pos:        position{line: 2809, col: 13, offset: 89521},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2933, col: 10, offset: 92767},
+																		pos: position{line: 2955, col: 10, offset: 93573},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2933, col: 10, offset: 92767},
+																			pos:        position{line: 2955, col: 10, offset: 93573},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49102,10 +49150,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49122,10 +49170,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49145,17 +49193,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2787, col: 13, offset: 88715},
+																							pos:        position{line: 2809, col: 13, offset: 89521},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49186,10 +49234,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49206,10 +49254,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2933, col: 10, offset: 92767},
+																			pos: position{line: 2955, col: 10, offset: 93573},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2933, col: 10, offset: 92767},
+																				pos:        position{line: 2955, col: 10, offset: 93573},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49229,17 +49277,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2787, col: 13, offset: 88715},
+																							pos:        position{line: 2809, col: 13, offset: 89521},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2933, col: 10, offset: 92767},
+																							pos: position{line: 2955, col: 10, offset: 93573},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2933, col: 10, offset: 92767},
+																								pos:        position{line: 2955, col: 10, offset: 93573},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49266,15 +49314,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79174},
+										pos:  position{line: 2475, col: 11, offset: 79980},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 79194},
+										pos:  position{line: 2476, col: 11, offset: 80000},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 79217},
+										pos:  position{line: 2477, col: 11, offset: 80023},
 										name: "InlineMenu",
 									},
 								},
@@ -49286,22 +49334,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2459, col: 1, offset: 79274},
+			pos:  position{line: 2481, col: 1, offset: 80080},
 			expr: &actionExpr{
-				pos: position{line: 2461, col: 5, offset: 79362},
+				pos: position{line: 2483, col: 5, offset: 80168},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2461, col: 5, offset: 79362},
+					pos: position{line: 2483, col: 5, offset: 80168},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2461, col: 5, offset: 79362},
+							pos: position{line: 2483, col: 5, offset: 80168},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2464, col: 5, offset: 79439},
+							pos:   position{line: 2486, col: 5, offset: 80245},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2465, col: 9, offset: 79457},
+								pos: position{line: 2487, col: 9, offset: 80263},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44933},
@@ -49356,10 +49404,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2933, col: 10, offset: 92767},
+																					pos: position{line: 2955, col: 10, offset: 93573},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2933, col: 10, offset: 92767},
+																						pos:        position{line: 2955, col: 10, offset: 93573},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49370,25 +49418,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2942, col: 12, offset: 92938},
+																					pos: position{line: 2964, col: 12, offset: 93744},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2942, col: 13, offset: 92939},
+																						pos: position{line: 2964, col: 13, offset: 93745},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 13, offset: 92939},
+																								pos:        position{line: 2964, col: 13, offset: 93745},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 20, offset: 92946},
+																								pos:        position{line: 2964, col: 20, offset: 93752},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2942, col: 29, offset: 92955},
+																								pos:        position{line: 2964, col: 29, offset: 93761},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49425,7 +49473,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2787, col: 13, offset: 88715},
+														pos:        position{line: 2809, col: 13, offset: 89521},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49471,10 +49519,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49485,25 +49533,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49526,12 +49574,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2937, col: 11, offset: 92828},
+																									pos: position{line: 2959, col: 11, offset: 93634},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2937, col: 11, offset: 92828},
+																										pos: position{line: 2959, col: 11, offset: 93634},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2937, col: 11, offset: 92828},
+																											pos:        position{line: 2959, col: 11, offset: 93634},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49560,25 +49608,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2942, col: 12, offset: 92938},
+																							pos: position{line: 2964, col: 12, offset: 93744},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2942, col: 13, offset: 92939},
+																								pos: position{line: 2964, col: 13, offset: 93745},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 13, offset: 92939},
+																										pos:        position{line: 2964, col: 13, offset: 93745},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 20, offset: 92946},
+																										pos:        position{line: 2964, col: 20, offset: 93752},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2942, col: 29, offset: 92955},
+																										pos:        position{line: 2964, col: 29, offset: 93761},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49605,10 +49653,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2933, col: 10, offset: 92767},
+																				pos: position{line: 2955, col: 10, offset: 93573},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 10, offset: 92767},
+																					pos:        position{line: 2955, col: 10, offset: 93573},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49619,25 +49667,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2942, col: 12, offset: 92938},
+																				pos: position{line: 2964, col: 12, offset: 93744},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2942, col: 13, offset: 92939},
+																					pos: position{line: 2964, col: 13, offset: 93745},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 13, offset: 92939},
+																							pos:        position{line: 2964, col: 13, offset: 93745},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 20, offset: 92946},
+																							pos:        position{line: 2964, col: 20, offset: 93752},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2942, col: 29, offset: 92955},
+																							pos:        position{line: 2964, col: 29, offset: 93761},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49673,7 +49721,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2787, col: 13, offset: 88715},
+														pos:        position{line: 2809, col: 13, offset: 89521},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49684,7 +49732,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2465, col: 57, offset: 79505},
+										pos:  position{line: 2487, col: 57, offset: 80311},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49696,16 +49744,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2470, col: 1, offset: 79565},
+			pos:  position{line: 2492, col: 1, offset: 80371},
 			expr: &seqExpr{
-				pos: position{line: 2472, col: 5, offset: 79641},
+				pos: position{line: 2494, col: 5, offset: 80447},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2472, col: 5, offset: 79641},
+						pos: position{line: 2494, col: 5, offset: 80447},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2475, col: 5, offset: 79706},
+						pos:  position{line: 2497, col: 5, offset: 80512},
 						name: "QuotedText",
 					},
 				},
@@ -49713,22 +49761,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2477, col: 1, offset: 79719},
+			pos:  position{line: 2499, col: 1, offset: 80525},
 			expr: &actionExpr{
-				pos: position{line: 2479, col: 5, offset: 79801},
+				pos: position{line: 2501, col: 5, offset: 80607},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2479, col: 5, offset: 79801},
+					pos: position{line: 2501, col: 5, offset: 80607},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2479, col: 5, offset: 79801},
+							pos: position{line: 2501, col: 5, offset: 80607},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2482, col: 5, offset: 79872},
+							pos:   position{line: 2504, col: 5, offset: 80678},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2483, col: 9, offset: 79890},
+								pos:  position{line: 2505, col: 9, offset: 80696},
 								name: "Symbol",
 							},
 						},
@@ -49738,103 +49786,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2538, col: 1, offset: 81643},
+			pos:  position{line: 2560, col: 1, offset: 82449},
 			expr: &choiceExpr{
-				pos: position{line: 2540, col: 5, offset: 81673},
+				pos: position{line: 2562, col: 5, offset: 82479},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2540, col: 5, offset: 81673},
+						pos: position{line: 2562, col: 5, offset: 82479},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 5, offset: 81673},
+							pos: position{line: 2562, col: 5, offset: 82479},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 5, offset: 81673},
+									pos:        position{line: 2562, col: 5, offset: 82479},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2540, col: 10, offset: 81678},
+									pos: position{line: 2562, col: 10, offset: 82484},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2540, col: 10, offset: 81678},
+											pos:  position{line: 2562, col: 10, offset: 82484},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2569, col: 14, offset: 82776},
+											pos: position{line: 2591, col: 14, offset: 83582},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2569, col: 14, offset: 82776},
+												pos:        position{line: 2591, col: 14, offset: 83582},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2573, col: 14, offset: 82842},
+											pos: position{line: 2595, col: 14, offset: 83648},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2573, col: 14, offset: 82842},
+												pos:        position{line: 2595, col: 14, offset: 83648},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2577, col: 15, offset: 82911},
+											pos: position{line: 2599, col: 15, offset: 83717},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2577, col: 15, offset: 82911},
+												pos:        position{line: 2599, col: 15, offset: 83717},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 13, offset: 82976},
+											pos: position{line: 2603, col: 13, offset: 83782},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 13, offset: 82976},
+												pos:        position{line: 2603, col: 13, offset: 83782},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 21, offset: 83546},
+											pos: position{line: 2631, col: 21, offset: 84352},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2609, col: 21, offset: 83546},
+												pos:        position{line: 2631, col: 21, offset: 84352},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 83132},
+											pos: position{line: 2610, col: 5, offset: 83938},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 83132},
+												pos: position{line: 2610, col: 5, offset: 83938},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2588, col: 5, offset: 83132},
+														pos:        position{line: 2610, col: 5, offset: 83938},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2589, col: 5, offset: 83142},
+														pos: position{line: 2611, col: 5, offset: 83948},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2593, col: 6, offset: 83229},
+														pos: position{line: 2615, col: 6, offset: 84035},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2933, col: 10, offset: 92767},
+																pos: position{line: 2955, col: 10, offset: 93573},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2933, col: 10, offset: 92767},
+																	pos:        position{line: 2955, col: 10, offset: 93573},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49842,30 +49890,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2593, col: 14, offset: 83237},
+																pos: position{line: 2615, col: 14, offset: 84043},
 																expr: &choiceExpr{
-																	pos: position{line: 2955, col: 8, offset: 93165},
+																	pos: position{line: 2977, col: 8, offset: 93971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2942, col: 12, offset: 92938},
+																			pos: position{line: 2964, col: 12, offset: 93744},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2942, col: 13, offset: 92939},
+																				pos: position{line: 2964, col: 13, offset: 93745},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 13, offset: 92939},
+																						pos:        position{line: 2964, col: 13, offset: 93745},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 20, offset: 92946},
+																						pos:        position{line: 2964, col: 20, offset: 93752},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2942, col: 29, offset: 92955},
+																						pos:        position{line: 2964, col: 29, offset: 93761},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49874,9 +49922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2952, col: 8, offset: 93115},
+																			pos: position{line: 2974, col: 8, offset: 93921},
 																			expr: &anyMatcher{
-																				line: 2952, col: 9, offset: 93116,
+																				line: 2974, col: 9, offset: 93922,
 																			},
 																		},
 																	},
@@ -49888,53 +49936,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 5, offset: 83357},
+											pos: position{line: 2620, col: 5, offset: 84163},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2598, col: 5, offset: 83357},
+												pos: position{line: 2620, col: 5, offset: 84163},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2598, col: 5, offset: 83357},
+														pos:        position{line: 2620, col: 5, offset: 84163},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2599, col: 5, offset: 83367},
+														pos: position{line: 2621, col: 5, offset: 84173},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2603, col: 5, offset: 83456},
+														pos: position{line: 2625, col: 5, offset: 84262},
 														expr: &choiceExpr{
-															pos: position{line: 2603, col: 7, offset: 83458},
+															pos: position{line: 2625, col: 7, offset: 84264},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2787, col: 13, offset: 88715},
+																	pos:        position{line: 2809, col: 13, offset: 89521},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2942, col: 12, offset: 92938},
+																	pos: position{line: 2964, col: 12, offset: 93744},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2942, col: 13, offset: 92939},
+																		pos: position{line: 2964, col: 13, offset: 93745},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 13, offset: 92939},
+																				pos:        position{line: 2964, col: 13, offset: 93745},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 20, offset: 92946},
+																				pos:        position{line: 2964, col: 20, offset: 93752},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2942, col: 29, offset: 92955},
+																				pos:        position{line: 2964, col: 29, offset: 93761},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49943,9 +49991,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -49955,30 +50003,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 20, offset: 83616},
+											pos: position{line: 2635, col: 20, offset: 84422},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2613, col: 20, offset: 83616},
+												pos:        position{line: 2635, col: 20, offset: 84422},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2617, col: 21, offset: 83687},
+											pos: position{line: 2639, col: 21, offset: 84493},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2617, col: 21, offset: 83687},
+												pos:        position{line: 2639, col: 21, offset: 84493},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2621, col: 20, offset: 83757},
+											pos: position{line: 2643, col: 20, offset: 84563},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2621, col: 20, offset: 83757},
+												pos:        position{line: 2643, col: 20, offset: 84563},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -49990,73 +50038,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2544, col: 7, offset: 81927},
+						pos:  position{line: 2566, col: 7, offset: 82733},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 14, offset: 82776},
+						pos: position{line: 2591, col: 14, offset: 83582},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2569, col: 14, offset: 82776},
+							pos:        position{line: 2591, col: 14, offset: 83582},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2573, col: 14, offset: 82842},
+						pos: position{line: 2595, col: 14, offset: 83648},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2573, col: 14, offset: 82842},
+							pos:        position{line: 2595, col: 14, offset: 83648},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 15, offset: 82911},
+						pos: position{line: 2599, col: 15, offset: 83717},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2577, col: 15, offset: 82911},
+							pos:        position{line: 2599, col: 15, offset: 83717},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 13, offset: 82976},
+						pos: position{line: 2603, col: 13, offset: 83782},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 13, offset: 82976},
+							pos:        position{line: 2603, col: 13, offset: 83782},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 5, offset: 83132},
+						pos: position{line: 2610, col: 5, offset: 83938},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2588, col: 5, offset: 83132},
+							pos: position{line: 2610, col: 5, offset: 83938},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2588, col: 5, offset: 83132},
+									pos:        position{line: 2610, col: 5, offset: 83938},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2589, col: 5, offset: 83142},
+									pos: position{line: 2611, col: 5, offset: 83948},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2593, col: 6, offset: 83229},
+									pos: position{line: 2615, col: 6, offset: 84035},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2933, col: 10, offset: 92767},
+											pos: position{line: 2955, col: 10, offset: 93573},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2933, col: 10, offset: 92767},
+												pos:        position{line: 2955, col: 10, offset: 93573},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50064,30 +50112,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2593, col: 14, offset: 83237},
+											pos: position{line: 2615, col: 14, offset: 84043},
 											expr: &choiceExpr{
-												pos: position{line: 2955, col: 8, offset: 93165},
+												pos: position{line: 2977, col: 8, offset: 93971},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2942, col: 12, offset: 92938},
+														pos: position{line: 2964, col: 12, offset: 93744},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2942, col: 13, offset: 92939},
+															pos: position{line: 2964, col: 13, offset: 93745},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2942, col: 13, offset: 92939},
+																	pos:        position{line: 2964, col: 13, offset: 93745},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 20, offset: 92946},
+																	pos:        position{line: 2964, col: 20, offset: 93752},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2942, col: 29, offset: 92955},
+																	pos:        position{line: 2964, col: 29, offset: 93761},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50096,9 +50144,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2952, col: 8, offset: 93115},
+														pos: position{line: 2974, col: 8, offset: 93921},
 														expr: &anyMatcher{
-															line: 2952, col: 9, offset: 93116,
+															line: 2974, col: 9, offset: 93922,
 														},
 													},
 												},
@@ -50110,53 +50158,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 5, offset: 83357},
+						pos: position{line: 2620, col: 5, offset: 84163},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2598, col: 5, offset: 83357},
+							pos: position{line: 2620, col: 5, offset: 84163},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2598, col: 5, offset: 83357},
+									pos:        position{line: 2620, col: 5, offset: 84163},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2599, col: 5, offset: 83367},
+									pos: position{line: 2621, col: 5, offset: 84173},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2603, col: 5, offset: 83456},
+									pos: position{line: 2625, col: 5, offset: 84262},
 									expr: &choiceExpr{
-										pos: position{line: 2603, col: 7, offset: 83458},
+										pos: position{line: 2625, col: 7, offset: 84264},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2787, col: 13, offset: 88715},
+												pos:        position{line: 2809, col: 13, offset: 89521},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2942, col: 12, offset: 92938},
+												pos: position{line: 2964, col: 12, offset: 93744},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2942, col: 13, offset: 92939},
+													pos: position{line: 2964, col: 13, offset: 93745},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2942, col: 13, offset: 92939},
+															pos:        position{line: 2964, col: 13, offset: 93745},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 20, offset: 92946},
+															pos:        position{line: 2964, col: 20, offset: 93752},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2942, col: 29, offset: 92955},
+															pos:        position{line: 2964, col: 29, offset: 93761},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50165,9 +50213,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2952, col: 8, offset: 93115},
+												pos: position{line: 2974, col: 8, offset: 93921},
 												expr: &anyMatcher{
-													line: 2952, col: 9, offset: 93116,
+													line: 2974, col: 9, offset: 93922,
 												},
 											},
 										},
@@ -50177,40 +50225,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2609, col: 21, offset: 83546},
+						pos: position{line: 2631, col: 21, offset: 84352},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2609, col: 21, offset: 83546},
+							pos:        position{line: 2631, col: 21, offset: 84352},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2613, col: 20, offset: 83616},
+						pos: position{line: 2635, col: 20, offset: 84422},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2613, col: 20, offset: 83616},
+							pos:        position{line: 2635, col: 20, offset: 84422},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2617, col: 21, offset: 83687},
+						pos: position{line: 2639, col: 21, offset: 84493},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2617, col: 21, offset: 83687},
+							pos:        position{line: 2639, col: 21, offset: 84493},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2621, col: 20, offset: 83757},
+						pos: position{line: 2643, col: 20, offset: 84563},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2621, col: 20, offset: 83757},
+							pos:        position{line: 2643, col: 20, offset: 84563},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50221,43 +50269,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2555, col: 1, offset: 82117},
+			pos:  position{line: 2577, col: 1, offset: 82923},
 			expr: &choiceExpr{
-				pos: position{line: 2556, col: 5, offset: 82139},
+				pos: position{line: 2578, col: 5, offset: 82945},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2556, col: 5, offset: 82139},
+						pos: position{line: 2578, col: 5, offset: 82945},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 5, offset: 82139},
+							pos: position{line: 2578, col: 5, offset: 82945},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82139},
+									pos:        position{line: 2578, col: 5, offset: 82945},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2556, col: 11, offset: 82145},
+									pos: position{line: 2578, col: 11, offset: 82951},
 									expr: &seqExpr{
-										pos: position{line: 2118, col: 5, offset: 68364},
+										pos: position{line: 2127, col: 5, offset: 68718},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2118, col: 5, offset: 68364},
+												pos:        position{line: 2127, col: 5, offset: 68718},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2119, col: 5, offset: 68373},
+												pos: position{line: 2128, col: 5, offset: 68727},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2123, col: 5, offset: 68496},
+												pos: position{line: 2132, col: 5, offset: 68850},
 												expr: &notExpr{
-													pos: position{line: 2123, col: 7, offset: 68498},
+													pos: position{line: 2132, col: 7, offset: 68852},
 													expr: &litMatcher{
-														pos:        position{line: 2123, col: 8, offset: 68499},
+														pos:        position{line: 2132, col: 8, offset: 68853},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50271,21 +50319,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2559, col: 7, offset: 82298},
+						pos: position{line: 2581, col: 7, offset: 83104},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2559, col: 7, offset: 82298},
+							pos: position{line: 2581, col: 7, offset: 83104},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2559, col: 7, offset: 82298},
+									pos:        position{line: 2581, col: 7, offset: 83104},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2559, col: 13, offset: 82304},
+									pos: position{line: 2581, col: 13, offset: 83110},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2559, col: 14, offset: 82305},
+										pos:  position{line: 2581, col: 14, offset: 83111},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50293,38 +50341,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 7, offset: 82455},
+						pos: position{line: 2584, col: 7, offset: 83261},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 7, offset: 82455},
+							pos: position{line: 2584, col: 7, offset: 83261},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 7, offset: 82455},
+									pos:        position{line: 2584, col: 7, offset: 83261},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2562, col: 12, offset: 82460},
+									pos: position{line: 2584, col: 12, offset: 83266},
 									expr: &seqExpr{
-										pos: position{line: 2118, col: 5, offset: 68364},
+										pos: position{line: 2127, col: 5, offset: 68718},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2118, col: 5, offset: 68364},
+												pos:        position{line: 2127, col: 5, offset: 68718},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2119, col: 5, offset: 68373},
+												pos: position{line: 2128, col: 5, offset: 68727},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2123, col: 5, offset: 68496},
+												pos: position{line: 2132, col: 5, offset: 68850},
 												expr: &notExpr{
-													pos: position{line: 2123, col: 7, offset: 68498},
+													pos: position{line: 2132, col: 7, offset: 68852},
 													expr: &litMatcher{
-														pos:        position{line: 2123, col: 8, offset: 68499},
+														pos:        position{line: 2132, col: 8, offset: 68853},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50338,21 +50386,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 7, offset: 82613},
+						pos: position{line: 2587, col: 7, offset: 83419},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 7, offset: 82613},
+							pos: position{line: 2587, col: 7, offset: 83419},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 7, offset: 82613},
+									pos:        position{line: 2587, col: 7, offset: 83419},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2565, col: 12, offset: 82618},
+									pos: position{line: 2587, col: 12, offset: 83424},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2565, col: 13, offset: 82619},
+										pos:  position{line: 2587, col: 13, offset: 83425},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50364,63 +50412,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2698, col: 1, offset: 85659},
+			pos:  position{line: 2720, col: 1, offset: 86465},
 			expr: &actionExpr{
-				pos: position{line: 2698, col: 26, offset: 85684},
+				pos: position{line: 2720, col: 26, offset: 86490},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2698, col: 26, offset: 85684},
+					pos: position{line: 2720, col: 26, offset: 86490},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2698, col: 26, offset: 85684},
+							pos:   position{line: 2720, col: 26, offset: 86490},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2698, col: 31, offset: 85689},
+								pos: position{line: 2720, col: 31, offset: 86495},
 								expr: &actionExpr{
-									pos: position{line: 2703, col: 5, offset: 85752},
+									pos: position{line: 2725, col: 5, offset: 86558},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2703, col: 5, offset: 85752},
+										pos: position{line: 2725, col: 5, offset: 86558},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2950, col: 11, offset: 93101},
+												pos: position{line: 2972, col: 11, offset: 93907},
 												expr: &anyMatcher{
-													line: 2950, col: 13, offset: 93103,
+													line: 2972, col: 13, offset: 93909,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2706, col: 5, offset: 85878},
+												pos:   position{line: 2728, col: 5, offset: 86684},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2706, col: 16, offset: 85889},
+													pos: position{line: 2728, col: 16, offset: 86695},
 													expr: &actionExpr{
-														pos: position{line: 2706, col: 17, offset: 85890},
+														pos: position{line: 2728, col: 17, offset: 86696},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2706, col: 17, offset: 85890},
+															pos: position{line: 2728, col: 17, offset: 86696},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2706, col: 17, offset: 85890},
+																	pos:   position{line: 2728, col: 17, offset: 86696},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2925, col: 12, offset: 92594},
+																		pos: position{line: 2947, col: 12, offset: 93400},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2925, col: 13, offset: 92595},
+																			pos: position{line: 2947, col: 13, offset: 93401},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2925, col: 13, offset: 92595},
+																					pos: position{line: 2947, col: 13, offset: 93401},
 																					expr: &litMatcher{
-																						pos:        position{line: 2925, col: 13, offset: 92595},
+																						pos:        position{line: 2947, col: 13, offset: 93401},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2925, col: 18, offset: 92600},
+																					pos: position{line: 2947, col: 18, offset: 93406},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2925, col: 18, offset: 92600},
+																						pos:        position{line: 2947, col: 18, offset: 93406},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50432,7 +50480,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2706, col: 27, offset: 85900},
+																	pos:        position{line: 2728, col: 27, offset: 86706},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50443,38 +50491,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2707, col: 5, offset: 85928},
+												pos:   position{line: 2729, col: 5, offset: 86734},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2707, col: 12, offset: 85935},
+													pos: position{line: 2729, col: 12, offset: 86741},
 													expr: &choiceExpr{
-														pos: position{line: 2708, col: 9, offset: 85945},
+														pos: position{line: 2730, col: 9, offset: 86751},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2708, col: 9, offset: 85945},
+																pos: position{line: 2730, col: 9, offset: 86751},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 9, offset: 85945},
+																	pos:        position{line: 2730, col: 9, offset: 86751},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2709, col: 11, offset: 85992},
+																pos: position{line: 2731, col: 11, offset: 86798},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2709, col: 11, offset: 85992},
+																	pos:        position{line: 2731, col: 11, offset: 86798},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2710, col: 11, offset: 86040},
+																pos: position{line: 2732, col: 11, offset: 86846},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2710, col: 11, offset: 86040},
+																	pos:        position{line: 2732, col: 11, offset: 86846},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50485,38 +50533,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2712, col: 5, offset: 86090},
+												pos:   position{line: 2734, col: 5, offset: 86896},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2712, col: 12, offset: 86097},
+													pos: position{line: 2734, col: 12, offset: 86903},
 													expr: &choiceExpr{
-														pos: position{line: 2713, col: 9, offset: 86107},
+														pos: position{line: 2735, col: 9, offset: 86913},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2713, col: 9, offset: 86107},
+																pos: position{line: 2735, col: 9, offset: 86913},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 9, offset: 86107},
+																	pos:        position{line: 2735, col: 9, offset: 86913},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2714, col: 11, offset: 86154},
+																pos: position{line: 2736, col: 11, offset: 86960},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2714, col: 11, offset: 86154},
+																	pos:        position{line: 2736, col: 11, offset: 86960},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2715, col: 11, offset: 86204},
+																pos: position{line: 2737, col: 11, offset: 87010},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2715, col: 11, offset: 86204},
+																	pos:        position{line: 2737, col: 11, offset: 87010},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50527,32 +50575,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2717, col: 5, offset: 86255},
+												pos:   position{line: 2739, col: 5, offset: 87061},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2717, col: 12, offset: 86262},
+													pos: position{line: 2739, col: 12, offset: 87068},
 													expr: &choiceExpr{
-														pos: position{line: 2717, col: 13, offset: 86263},
+														pos: position{line: 2739, col: 13, offset: 87069},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2925, col: 12, offset: 92594},
+																pos: position{line: 2947, col: 12, offset: 93400},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2925, col: 13, offset: 92595},
+																	pos: position{line: 2947, col: 13, offset: 93401},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2925, col: 13, offset: 92595},
+																			pos: position{line: 2947, col: 13, offset: 93401},
 																			expr: &litMatcher{
-																				pos:        position{line: 2925, col: 13, offset: 92595},
+																				pos:        position{line: 2947, col: 13, offset: 93401},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2925, col: 18, offset: 92600},
+																			pos: position{line: 2947, col: 18, offset: 93406},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2925, col: 18, offset: 92600},
+																				pos:        position{line: 2947, col: 18, offset: 93406},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50563,10 +50611,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2717, col: 24, offset: 86274},
+																pos: position{line: 2739, col: 24, offset: 87080},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 24, offset: 86274},
+																	pos:        position{line: 2739, col: 24, offset: 87080},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50577,15 +50625,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2718, col: 5, offset: 86316},
+												pos:   position{line: 2740, col: 5, offset: 87122},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2718, col: 11, offset: 86322},
+													pos: position{line: 2740, col: 11, offset: 87128},
 													expr: &actionExpr{
-														pos: position{line: 2718, col: 12, offset: 86323},
+														pos: position{line: 2740, col: 12, offset: 87129},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2718, col: 12, offset: 86323},
+															pos:        position{line: 2740, col: 12, offset: 87129},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50595,12 +50643,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2720, col: 5, offset: 86453},
+												pos:   position{line: 2742, col: 5, offset: 87259},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2720, col: 11, offset: 86459},
+													pos: position{line: 2742, col: 11, offset: 87265},
 													expr: &litMatcher{
-														pos:        position{line: 2720, col: 12, offset: 86460},
+														pos:        position{line: 2742, col: 12, offset: 87266},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50608,7 +50656,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2721, col: 5, offset: 86470},
+												pos: position{line: 2743, col: 5, offset: 87276},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50617,9 +50665,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2952, col: 8, offset: 93115},
+							pos: position{line: 2974, col: 8, offset: 93921},
 							expr: &anyMatcher{
-								line: 2952, col: 9, offset: 93116,
+								line: 2974, col: 9, offset: 93922,
 							},
 						},
 					},
@@ -50628,23 +50676,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2748, col: 1, offset: 87479},
+			pos:  position{line: 2770, col: 1, offset: 88285},
 			expr: &actionExpr{
-				pos: position{line: 2749, col: 5, offset: 87502},
+				pos: position{line: 2771, col: 5, offset: 88308},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2749, col: 5, offset: 87502},
+					pos: position{line: 2771, col: 5, offset: 88308},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87502},
+							pos:   position{line: 2771, col: 5, offset: 88308},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2772, col: 18, offset: 88248},
+								pos: position{line: 2794, col: 18, offset: 89054},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2772, col: 19, offset: 88249},
+									pos: position{line: 2794, col: 19, offset: 89055},
 									expr: &charClassMatcher{
-										pos:        position{line: 2772, col: 19, offset: 88249},
+										pos:        position{line: 2794, col: 19, offset: 89055},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50655,39 +50703,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2750, col: 5, offset: 87528},
+							pos: position{line: 2772, col: 5, offset: 88334},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2754, col: 5, offset: 87656},
+							pos:        position{line: 2776, col: 5, offset: 88462},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2755, col: 5, offset: 87666},
+							pos:   position{line: 2777, col: 5, offset: 88472},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2780, col: 24, offset: 88410},
+								pos: position{line: 2802, col: 24, offset: 89216},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2780, col: 24, offset: 88410},
+									pos: position{line: 2802, col: 24, offset: 89216},
 									expr: &seqExpr{
-										pos: position{line: 2780, col: 25, offset: 88411},
+										pos: position{line: 2802, col: 25, offset: 89217},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2780, col: 25, offset: 88411},
+												pos: position{line: 2802, col: 25, offset: 89217},
 												expr: &litMatcher{
-													pos:        position{line: 2780, col: 26, offset: 88412},
+													pos:        position{line: 2802, col: 26, offset: 89218},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2780, col: 30, offset: 88416},
+												pos: position{line: 2802, col: 30, offset: 89222},
 												expr: &charClassMatcher{
-													pos:        position{line: 2780, col: 30, offset: 88416},
+													pos:        position{line: 2802, col: 30, offset: 89222},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50695,23 +50743,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2780, col: 41, offset: 88427},
+												pos: position{line: 2802, col: 41, offset: 89233},
 												expr: &seqExpr{
-													pos: position{line: 2780, col: 42, offset: 88428},
+													pos: position{line: 2802, col: 42, offset: 89234},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2780, col: 42, offset: 88428},
+															pos: position{line: 2802, col: 42, offset: 89234},
 															expr: &litMatcher{
-																pos:        position{line: 2780, col: 42, offset: 88428},
+																pos:        position{line: 2802, col: 42, offset: 89234},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2780, col: 47, offset: 88433},
+															pos: position{line: 2802, col: 47, offset: 89239},
 															expr: &charClassMatcher{
-																pos:        position{line: 2780, col: 47, offset: 88433},
+																pos:        position{line: 2802, col: 47, offset: 89239},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50727,36 +50775,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2756, col: 5, offset: 87699},
+							pos:   position{line: 2778, col: 5, offset: 88505},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2756, col: 17, offset: 87711},
+								pos:  position{line: 2778, col: 17, offset: 88517},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2955, col: 8, offset: 93165},
+							pos: position{line: 2977, col: 8, offset: 93971},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2942, col: 12, offset: 92938},
+									pos: position{line: 2964, col: 12, offset: 93744},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2942, col: 13, offset: 92939},
+										pos: position{line: 2964, col: 13, offset: 93745},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2942, col: 13, offset: 92939},
+												pos:        position{line: 2964, col: 13, offset: 93745},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 20, offset: 92946},
+												pos:        position{line: 2964, col: 20, offset: 93752},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2942, col: 29, offset: 92955},
+												pos:        position{line: 2964, col: 29, offset: 93761},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50765,9 +50813,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2952, col: 8, offset: 93115},
+									pos: position{line: 2974, col: 8, offset: 93921},
 									expr: &anyMatcher{
-										line: 2952, col: 9, offset: 93116,
+										line: 2974, col: 9, offset: 93922,
 									},
 								},
 							},
@@ -50778,23 +50826,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2760, col: 1, offset: 87859},
+			pos:  position{line: 2782, col: 1, offset: 88665},
 			expr: &actionExpr{
-				pos: position{line: 2761, col: 5, offset: 87883},
+				pos: position{line: 2783, col: 5, offset: 88689},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2761, col: 5, offset: 87883},
+					pos: position{line: 2783, col: 5, offset: 88689},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2761, col: 5, offset: 87883},
+							pos:   position{line: 2783, col: 5, offset: 88689},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2772, col: 18, offset: 88248},
+								pos: position{line: 2794, col: 18, offset: 89054},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2772, col: 19, offset: 88249},
+									pos: position{line: 2794, col: 19, offset: 89055},
 									expr: &charClassMatcher{
-										pos:        position{line: 2772, col: 19, offset: 88249},
+										pos:        position{line: 2794, col: 19, offset: 89055},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50805,39 +50853,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2762, col: 5, offset: 87909},
+							pos: position{line: 2784, col: 5, offset: 88715},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2766, col: 5, offset: 88037},
+							pos:        position{line: 2788, col: 5, offset: 88843},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2767, col: 5, offset: 88046},
+							pos:   position{line: 2789, col: 5, offset: 88852},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2776, col: 19, offset: 88324},
+								pos: position{line: 2798, col: 19, offset: 89130},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2776, col: 19, offset: 88324},
+									pos: position{line: 2798, col: 19, offset: 89130},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 20, offset: 88325},
+										pos: position{line: 2798, col: 20, offset: 89131},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2776, col: 20, offset: 88325},
+												pos: position{line: 2798, col: 20, offset: 89131},
 												expr: &litMatcher{
-													pos:        position{line: 2776, col: 21, offset: 88326},
+													pos:        position{line: 2798, col: 21, offset: 89132},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2776, col: 25, offset: 88330},
+												pos: position{line: 2798, col: 25, offset: 89136},
 												expr: &charClassMatcher{
-													pos:        position{line: 2776, col: 25, offset: 88330},
+													pos:        position{line: 2798, col: 25, offset: 89136},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50850,10 +50898,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2768, col: 5, offset: 88074},
+							pos:   position{line: 2790, col: 5, offset: 88880},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2768, col: 17, offset: 88086},
+								pos:  position{line: 2790, col: 17, offset: 88892},
 								name: "InlineAttributes",
 							},
 						},
@@ -50863,43 +50911,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2860, col: 1, offset: 90575},
+			pos:  position{line: 2882, col: 1, offset: 91381},
 			expr: &actionExpr{
-				pos: position{line: 2860, col: 17, offset: 90591},
+				pos: position{line: 2882, col: 17, offset: 91397},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2860, col: 17, offset: 90591},
+					pos:   position{line: 2882, col: 17, offset: 91397},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2881, col: 5, offset: 91176},
+						pos: position{line: 2903, col: 5, offset: 91982},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2881, col: 5, offset: 91176},
+							pos:   position{line: 2903, col: 5, offset: 91982},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 14, offset: 91185},
+								pos: position{line: 2903, col: 14, offset: 91991},
 								expr: &choiceExpr{
-									pos: position{line: 2882, col: 9, offset: 91195},
+									pos: position{line: 2904, col: 9, offset: 92001},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2882, col: 9, offset: 91195},
+											pos: position{line: 2904, col: 9, offset: 92001},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2882, col: 9, offset: 91195},
+												pos: position{line: 2904, col: 9, offset: 92001},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2882, col: 9, offset: 91195},
+														pos: position{line: 2904, col: 9, offset: 92001},
 														expr: &litMatcher{
-															pos:        position{line: 2882, col: 10, offset: 91196},
+															pos:        position{line: 2904, col: 10, offset: 92002},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2883, col: 9, offset: 91224},
+														pos: position{line: 2905, col: 9, offset: 92030},
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91225},
+															pos:        position{line: 2905, col: 10, offset: 92031},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50910,27 +50958,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2886, col: 11, offset: 91437},
+											pos: position{line: 2908, col: 11, offset: 92243},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2886, col: 11, offset: 91437},
+													pos:        position{line: 2908, col: 11, offset: 92243},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2886, col: 19, offset: 91445},
+													pos: position{line: 2908, col: 19, offset: 92251},
 													expr: &seqExpr{
-														pos: position{line: 2886, col: 21, offset: 91447},
+														pos: position{line: 2908, col: 21, offset: 92253},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2886, col: 21, offset: 91447},
+																pos: position{line: 2908, col: 21, offset: 92253},
 																expr: &actionExpr{
-																	pos: position{line: 2933, col: 10, offset: 92767},
+																	pos: position{line: 2955, col: 10, offset: 93573},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2933, col: 10, offset: 92767},
+																		pos:        position{line: 2955, col: 10, offset: 93573},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50939,11 +50987,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2886, col: 28, offset: 91454},
+																pos: position{line: 2908, col: 28, offset: 92260},
 																expr: &notExpr{
-																	pos: position{line: 2952, col: 8, offset: 93115},
+																	pos: position{line: 2974, col: 8, offset: 93921},
 																	expr: &anyMatcher{
-																		line: 2952, col: 9, offset: 93116,
+																		line: 2974, col: 9, offset: 93922,
 																	},
 																},
 															},
@@ -51338,10 +51386,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2889, col: 11, offset: 91574},
+											pos: position{line: 2911, col: 11, offset: 92380},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2889, col: 11, offset: 91574},
+												pos:        position{line: 2911, col: 11, offset: 92380},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -74747,6 +74795,18 @@ func (p *parser) callonQuotedTextElement155() (interface{}, error) {
 	return p.cur.onQuotedTextElement155()
 }
 
+func (c *current) onDoubleQuoteBoldText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonDoubleQuoteBoldText3() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteBoldText3()
+}
+
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
 	return types.NewQuotedText(types.DoubleQuoteBold, elements.([]interface{}))
 
@@ -74874,6 +74934,18 @@ func (p *parser) callonEscapedBoldText5() (interface{}, error) {
 	return p.cur.onEscapedBoldText5()
 }
 
+func (c *current) onEscapedBoldText10(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedBoldText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedBoldText10(stack["backslashes"])
+}
+
 func (c *current) onEscapedBoldText2(backslashes, elements interface{}) (interface{}, error) {
 
 	return c.newEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
@@ -74886,51 +74958,63 @@ func (p *parser) callonEscapedBoldText2() (interface{}, error) {
 	return p.cur.onEscapedBoldText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedBoldText17() (interface{}, error) {
+func (c *current) onEscapedBoldText18() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedBoldText17() (interface{}, error) {
+func (p *parser) callonEscapedBoldText18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText17()
+	return p.cur.onEscapedBoldText18()
 }
 
-func (c *current) onEscapedBoldText14(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedBoldText15(backslashes, elements interface{}) (interface{}, error) {
 
 	result := append([]interface{}{"*"}, elements.([]interface{}))
 	return c.newEscapedQuotedText(backslashes.(string), "*", result)
 
 }
 
-func (p *parser) callonEscapedBoldText14() (interface{}, error) {
+func (p *parser) callonEscapedBoldText15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedBoldText15(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedBoldText27() (interface{}, error) {
+func (c *current) onEscapedBoldText28() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedBoldText27() (interface{}, error) {
+func (p *parser) callonEscapedBoldText28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText27()
+	return p.cur.onEscapedBoldText28()
 }
 
-func (c *current) onEscapedBoldText24(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedBoldText25(backslashes, elements interface{}) (interface{}, error) {
 
 	return c.newEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedBoldText24() (interface{}, error) {
+func (p *parser) callonEscapedBoldText25() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedBoldText25(stack["backslashes"], stack["elements"])
+}
+
+func (c *current) onDoubleQuoteItalicText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonDoubleQuoteItalicText3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedBoldText24(stack["backslashes"], stack["elements"])
+	return p.cur.onDoubleQuoteItalicText3()
 }
 
 func (c *current) onDoubleQuoteItalicText1(elements interface{}) (interface{}, error) {
@@ -75061,6 +75145,18 @@ func (p *parser) callonEscapedItalicText5() (interface{}, error) {
 	return p.cur.onEscapedItalicText5()
 }
 
+func (c *current) onEscapedItalicText10(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedItalicText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedItalicText10(stack["backslashes"])
+}
+
 func (c *current) onEscapedItalicText2(backslashes, elements interface{}) (interface{}, error) {
 	return c.newEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
 
@@ -75072,51 +75168,63 @@ func (p *parser) callonEscapedItalicText2() (interface{}, error) {
 	return p.cur.onEscapedItalicText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedItalicText17() (interface{}, error) {
+func (c *current) onEscapedItalicText18() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedItalicText17() (interface{}, error) {
+func (p *parser) callonEscapedItalicText18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText17()
+	return p.cur.onEscapedItalicText18()
 }
 
-func (c *current) onEscapedItalicText14(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedItalicText15(backslashes, elements interface{}) (interface{}, error) {
 	// unbalanced `__` vs `_` punctuation
 	result := append([]interface{}{"_"}, elements.([]interface{}))
 	return c.newEscapedQuotedText(backslashes.(string), "_", result)
 
 }
 
-func (p *parser) callonEscapedItalicText14() (interface{}, error) {
+func (p *parser) callonEscapedItalicText15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedItalicText15(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedItalicText27() (interface{}, error) {
+func (c *current) onEscapedItalicText28() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedItalicText27() (interface{}, error) {
+func (p *parser) callonEscapedItalicText28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText27()
+	return p.cur.onEscapedItalicText28()
 }
 
-func (c *current) onEscapedItalicText24(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedItalicText25(backslashes, elements interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
 	return c.newEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedItalicText24() (interface{}, error) {
+func (p *parser) callonEscapedItalicText25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedItalicText24(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedItalicText25(stack["backslashes"], stack["elements"])
+}
+
+func (c *current) onDoubleQuoteMonospaceText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonDoubleQuoteMonospaceText3() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMonospaceText3()
 }
 
 func (c *current) onDoubleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
@@ -75236,6 +75344,18 @@ func (p *parser) callonEscapedMonospaceText5() (interface{}, error) {
 	return p.cur.onEscapedMonospaceText5()
 }
 
+func (c *current) onEscapedMonospaceText10(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedMonospaceText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMonospaceText10(stack["backslashes"])
+}
+
 func (c *current) onEscapedMonospaceText2(backslashes, elements interface{}) (interface{}, error) {
 	return c.newEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
 
@@ -75247,49 +75367,61 @@ func (p *parser) callonEscapedMonospaceText2() (interface{}, error) {
 	return p.cur.onEscapedMonospaceText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedMonospaceText17() (interface{}, error) {
+func (c *current) onEscapedMonospaceText18() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText17() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText17()
+	return p.cur.onEscapedMonospaceText18()
 }
 
-func (c *current) onEscapedMonospaceText14(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedMonospaceText15(backslashes, elements interface{}) (interface{}, error) {
 	result := append([]interface{}{"`"}, elements.([]interface{}))
 	return c.newEscapedQuotedText(backslashes.(string), "`", result)
 
 }
 
-func (p *parser) callonEscapedMonospaceText14() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMonospaceText15(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedMonospaceText27() (interface{}, error) {
+func (c *current) onEscapedMonospaceText28() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMonospaceText27() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText27()
+	return p.cur.onEscapedMonospaceText28()
 }
 
-func (c *current) onEscapedMonospaceText24(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedMonospaceText25(backslashes, elements interface{}) (interface{}, error) {
 	return c.newEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedMonospaceText24() (interface{}, error) {
+func (p *parser) callonEscapedMonospaceText25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMonospaceText24(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMonospaceText25(stack["backslashes"], stack["elements"])
+}
+
+func (c *current) onDoubleQuoteMarkedText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonDoubleQuoteMarkedText3() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDoubleQuoteMarkedText3()
 }
 
 func (c *current) onDoubleQuoteMarkedText1(elements interface{}) (interface{}, error) {
@@ -75421,6 +75553,18 @@ func (p *parser) callonEscapedMarkedText5() (interface{}, error) {
 	return p.cur.onEscapedMarkedText5()
 }
 
+func (c *current) onEscapedMarkedText10(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedMarkedText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMarkedText10(stack["backslashes"])
+}
+
 func (c *current) onEscapedMarkedText2(backslashes, elements interface{}) (interface{}, error) {
 	return c.newEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
 
@@ -75432,49 +75576,61 @@ func (p *parser) callonEscapedMarkedText2() (interface{}, error) {
 	return p.cur.onEscapedMarkedText2(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedMarkedText17() (interface{}, error) {
+func (c *current) onEscapedMarkedText18() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMarkedText17() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText17()
+	return p.cur.onEscapedMarkedText18()
 }
 
-func (c *current) onEscapedMarkedText14(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedMarkedText15(backslashes, elements interface{}) (interface{}, error) {
 	result := append([]interface{}{"#"}, elements.([]interface{}))
 	return c.newEscapedQuotedText(backslashes.(string), "#", result)
 
 }
 
-func (p *parser) callonEscapedMarkedText14() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText14(stack["backslashes"], stack["elements"])
+	return p.cur.onEscapedMarkedText15(stack["backslashes"], stack["elements"])
 }
 
-func (c *current) onEscapedMarkedText27() (interface{}, error) {
+func (c *current) onEscapedMarkedText28() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonEscapedMarkedText27() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText27()
+	return p.cur.onEscapedMarkedText28()
 }
 
-func (c *current) onEscapedMarkedText24(backslashes, elements interface{}) (interface{}, error) {
+func (c *current) onEscapedMarkedText25(backslashes, elements interface{}) (interface{}, error) {
 	return c.newEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
 
 }
 
-func (p *parser) callonEscapedMarkedText24() (interface{}, error) {
+func (p *parser) callonEscapedMarkedText25() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMarkedText25(stack["backslashes"], stack["elements"])
+}
+
+func (c *current) onSubscriptText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonSubscriptText3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onEscapedMarkedText24(stack["backslashes"], stack["elements"])
+	return p.cur.onSubscriptText3()
 }
 
 func (c *current) onSubscriptText1(element interface{}) (interface{}, error) {
@@ -75545,6 +75701,18 @@ func (p *parser) callonEscapedSubscriptText4() (interface{}, error) {
 	return p.cur.onEscapedSubscriptText4()
 }
 
+func (c *current) onEscapedSubscriptText7(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedSubscriptText7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedSubscriptText7(stack["backslashes"])
+}
+
 func (c *current) onEscapedSubscriptText1(backslashes, element interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
 	return c.newEscapedQuotedText(backslashes.(string), "~", element)
@@ -75557,6 +75725,18 @@ func (p *parser) callonEscapedSubscriptText1() (interface{}, error) {
 	return p.cur.onEscapedSubscriptText1(stack["backslashes"], stack["element"])
 }
 
+func (c *current) onSuperscriptText3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonSuperscriptText3() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptText3()
+}
+
 func (c *current) onSuperscriptText1(element interface{}) (interface{}, error) {
 	// wraps a single word
 	return types.NewQuotedText(types.SingleQuoteSuperscript, element)
@@ -75625,6 +75805,18 @@ func (p *parser) callonEscapedSuperscriptText4() (interface{}, error) {
 	return p.cur.onEscapedSuperscriptText4()
 }
 
+func (c *current) onEscapedSuperscriptText7(backslashes interface{}) (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonEscapedSuperscriptText7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedSuperscriptText7(stack["backslashes"])
+}
+
 func (c *current) onEscapedSuperscriptText1(backslashes, element interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
 	return c.newEscapedQuotedText(backslashes.(string), "^", element)
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 995f388..06c86b8 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1909,7 +1909,10 @@ BoldTextDelimiter <- "*"
 // -------------------------------
 // Bold text within double quotes
 // -------------------------------
-DoubleQuoteBoldTextStartDelimiter <- "**"
+DoubleQuoteBoldTextStartDelimiter <- "**" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
 
 DoubleQuoteBoldTextEndDelimiter <- "**"
 
@@ -1976,7 +1979,7 @@ SingleQuoteBoldTextElement <-
 
 EscapedBoldText <- 
     // double escape: \\**not bold**
-    backslashes:(TwoOrMoreBackslashes) "**" elements:(DoubleQuoteBoldTextElements) "**" { 
+    backslashes:(TwoOrMoreBackslashes) DoubleQuoteBoldTextStartDelimiter elements:(DoubleQuoteBoldTextElements) "**" { 
         return c.newEscapedQuotedText(backslashes.(string), "**", elements.([]interface{}))
     } 
     // unbalanced double escape: \\**not bold*
@@ -1998,7 +2001,10 @@ ItalicTextDelimiter <- "_"
 // ---------------------------------
 // Italic text within double quotes
 // ---------------------------------
-DoubleQuoteItalicTextStartDelimiter <- "__"
+DoubleQuoteItalicTextStartDelimiter <- "__" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
 
 DoubleQuoteItalicTextEndDelimiter <- "__"
 
@@ -2066,7 +2072,7 @@ SingleQuoteItalicTextElement <-
 
 EscapedItalicText <- 
     // double escape: \\__not italic__
-    backslashes:(TwoOrMoreBackslashes) "__" elements:(DoubleQuoteItalicTextElements) "__" {
+    backslashes:(TwoOrMoreBackslashes) DoubleQuoteItalicTextStartDelimiter elements:(DoubleQuoteItalicTextElements) "__" {
         return c.newEscapedQuotedText(backslashes.(string), "__", elements.([]interface{}))
     } 
     // unbalanced double escape: \\__not italic_
@@ -2088,7 +2094,10 @@ MonospaceTextDelimiter <- "`"
 // ------------------------------------
 // Monospace text within double quotes
 // ------------------------------------
-DoubleQuoteMonospaceTextStartDelimiter <- "``"
+DoubleQuoteMonospaceTextStartDelimiter <- "``" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
 
 DoubleQuoteMonospaceTextEndDelimiter <- "``"
 
@@ -2158,7 +2167,7 @@ SingleQuoteMonospaceTextElement <-
 
 EscapedMonospaceText <- 
     // double escape: \\``not monospace``
-    backslashes:(TwoOrMoreBackslashes) "``" elements:(DoubleQuoteMonospaceTextElements) "``" {
+    backslashes:(TwoOrMoreBackslashes) DoubleQuoteMonospaceTextStartDelimiter elements:(DoubleQuoteMonospaceTextElements) "``" {
         return c.newEscapedQuotedText(backslashes.(string), "``", elements.([]interface{}))
     } 
     // unbalanced double escape: \\``not monospace``
@@ -2180,7 +2189,10 @@ MarkedTextDelimiter <- "#"
 // ------------------------------------
 // Marked text within double quotes
 // ------------------------------------
-DoubleQuoteMarkedTextStartDelimiter <- "##"
+DoubleQuoteMarkedTextStartDelimiter <- "##" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
 
 DoubleQuoteMarkedTextEndDelimiter <- "##"
 
@@ -2247,7 +2259,7 @@ SingleQuoteMarkedTextElement <-
 
 EscapedMarkedText <-
     // double escape: \\##not marked##
-    backslashes:(TwoOrMoreBackslashes) "##" elements:(DoubleQuoteMarkedTextElements) "##" {
+    backslashes:(TwoOrMoreBackslashes) DoubleQuoteMarkedTextStartDelimiter elements:(DoubleQuoteMarkedTextElements) "##" {
         return c.newEscapedQuotedText(backslashes.(string), "##", elements.([]interface{}))
     } 
     // unbalanced double escape: \\##not marked#
@@ -2264,7 +2276,7 @@ EscapedMarkedText <-
 // Quoted Subscript Text
 // ---------------------------------------------------------------
 SubscriptText <- 
-    SubscriptTextDelimiter
+    SubscriptTextStartDelimiter
     element:(SubscriptTextElement)
     SubscriptTextDelimiter { // wraps a single word
         return types.NewQuotedText(types.SingleQuoteSubscript, element)
@@ -2272,6 +2284,11 @@ SubscriptText <-
 
 SubscriptTextDelimiter <- "~"
 
+SubscriptTextStartDelimiter <- "~" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
+
 SubscriptTextElement <- QuotedText / NonSubscriptText 
 
 NonSubscriptText <- content:(SpecialCharacter / [^\r\n ~])+ { // text
@@ -2281,7 +2298,7 @@ NonSubscriptText <- content:(SpecialCharacter / [^\r\n ~])+ { // text
 EscapedSubscriptText <-
     // single escape: \~not subscript~
     backslashes:(OneOrMoreBackslashes) 
-    SubscriptTextDelimiter 
+    SubscriptTextStartDelimiter 
     element:(SubscriptTextElement)
     SubscriptTextDelimiter { // simple punctuation must be evaluated last
         return c.newEscapedQuotedText(backslashes.(string), "~", element)
@@ -2291,7 +2308,7 @@ EscapedSubscriptText <-
 // Quoted Superscript Text
 // -----------------------
 SuperscriptText <- 
-    SuperscriptTextDelimiter 
+    SuperscriptTextStartDelimiter
     element:(SuperscriptTextElement) 
     SuperscriptTextDelimiter { // wraps a single word
         return types.NewQuotedText(types.SingleQuoteSuperscript, element)
@@ -2299,6 +2316,11 @@ SuperscriptText <-
 
 SuperscriptTextDelimiter <- "^"
 
+SuperscriptTextStartDelimiter <- "^" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
+
 SuperscriptTextElement <- QuotedText / NonSuperscriptText 
 
 NonSuperscriptText <- content:(SpecialCharacter / [^\r\n ^])+ { // text
@@ -2308,7 +2330,7 @@ NonSuperscriptText <- content:(SpecialCharacter / [^\r\n ^])+ { // text
 EscapedSuperscriptText <- 
     // single escape: \^not superscript^
     backslashes:(OneOrMoreBackslashes) 
-    SuperscriptTextDelimiter 
+    SuperscriptTextStartDelimiter 
     element:(SuperscriptTextElement) 
     SuperscriptTextDelimiter { // simple punctuation must be evaluated last
         return c.newEscapedQuotedText(backslashes.(string), "^", element)
-- 
2.43.0


From e0ede7badd576cb7633055ad8ec9edf9831347ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:06 +0000
Subject: [PATCH 096/117] fix: do not format text which follows a new line or a
 tab after its mark

The text between single marks cannot start with a space, so it cannot
start with a new line either, and subscript and superscript text has no
tabs.
---
 pkg/parser/parser.go  | 10312 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    12 +-
 2 files changed, 5130 insertions(+), 5194 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5d4acd8..5b7a2e0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93400},
+																pos: position{line: 2947, col: 12, offset: 93420},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93401},
+																	pos: position{line: 2947, col: 13, offset: 93421},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93401},
+																			pos: position{line: 2947, col: 13, offset: 93421},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93401},
+																				pos:        position{line: 2947, col: 13, offset: 93421},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93406},
+																			pos: position{line: 2947, col: 18, offset: 93426},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93406},
+																				pos:        position{line: 2947, col: 18, offset: 93426},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93400},
+																pos: position{line: 2947, col: 12, offset: 93420},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93401},
+																	pos: position{line: 2947, col: 13, offset: 93421},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93401},
+																			pos: position{line: 2947, col: 13, offset: 93421},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93401},
+																				pos:        position{line: 2947, col: 13, offset: 93421},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93406},
+																			pos: position{line: 2947, col: 18, offset: 93426},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93406},
+																				pos:        position{line: 2947, col: 18, offset: 93426},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89521},
+														pos:        position{line: 2809, col: 13, offset: 89541},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2959, col: 11, offset: 93634},
+													pos: position{line: 2959, col: 11, offset: 93654},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2959, col: 11, offset: 93634},
+														pos: position{line: 2959, col: 11, offset: 93654},
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 11, offset: 93634},
+															pos:        position{line: 2959, col: 11, offset: 93654},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2878, col: 14, offset: 91327},
+													pos: position{line: 2878, col: 14, offset: 91347},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2878, col: 14, offset: 91327},
+														pos: position{line: 2878, col: 14, offset: 91347},
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 14, offset: 91327},
+															pos:        position{line: 2878, col: 14, offset: 91347},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 17, offset: 91397},
+												pos: position{line: 2882, col: 17, offset: 91417},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2882, col: 17, offset: 91397},
+													pos:   position{line: 2882, col: 17, offset: 91417},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2947, col: 12, offset: 93400},
+																				pos: position{line: 2947, col: 12, offset: 93420},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2947, col: 13, offset: 93401},
+																					pos: position{line: 2947, col: 13, offset: 93421},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2947, col: 13, offset: 93401},
+																							pos: position{line: 2947, col: 13, offset: 93421},
 																							expr: &litMatcher{
-																								pos:        position{line: 2947, col: 13, offset: 93401},
+																								pos:        position{line: 2947, col: 13, offset: 93421},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2947, col: 18, offset: 93406},
+																							pos: position{line: 2947, col: 18, offset: 93426},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2947, col: 18, offset: 93406},
+																								pos:        position{line: 2947, col: 18, offset: 93426},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2947, col: 12, offset: 93400},
+																				pos: position{line: 2947, col: 12, offset: 93420},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2947, col: 13, offset: 93401},
+																					pos: position{line: 2947, col: 13, offset: 93421},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2947, col: 13, offset: 93401},
+																							pos: position{line: 2947, col: 13, offset: 93421},
 																							expr: &litMatcher{
-																								pos:        position{line: 2947, col: 13, offset: 93401},
+																								pos:        position{line: 2947, col: 13, offset: 93421},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2947, col: 18, offset: 93406},
+																							pos: position{line: 2947, col: 18, offset: 93426},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2947, col: 18, offset: 93406},
+																								pos:        position{line: 2947, col: 18, offset: 93426},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2947, col: 12, offset: 93400},
+																		pos: position{line: 2947, col: 12, offset: 93420},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2947, col: 13, offset: 93401},
+																			pos: position{line: 2947, col: 13, offset: 93421},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2947, col: 13, offset: 93401},
+																					pos: position{line: 2947, col: 13, offset: 93421},
 																					expr: &litMatcher{
-																						pos:        position{line: 2947, col: 13, offset: 93401},
+																						pos:        position{line: 2947, col: 13, offset: 93421},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2947, col: 18, offset: 93406},
+																					pos: position{line: 2947, col: 18, offset: 93426},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2947, col: 18, offset: 93406},
+																						pos:        position{line: 2947, col: 18, offset: 93426},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2947, col: 12, offset: 93400},
+																									pos: position{line: 2947, col: 12, offset: 93420},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2947, col: 13, offset: 93401},
+																										pos: position{line: 2947, col: 13, offset: 93421},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2947, col: 13, offset: 93401},
+																												pos: position{line: 2947, col: 13, offset: 93421},
 																												expr: &litMatcher{
-																													pos:        position{line: 2947, col: 13, offset: 93401},
+																													pos:        position{line: 2947, col: 13, offset: 93421},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2947, col: 18, offset: 93406},
+																												pos: position{line: 2947, col: 18, offset: 93426},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2947, col: 18, offset: 93406},
+																													pos:        position{line: 2947, col: 18, offset: 93426},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2947, col: 12, offset: 93400},
+																									pos: position{line: 2947, col: 12, offset: 93420},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2947, col: 13, offset: 93401},
+																										pos: position{line: 2947, col: 13, offset: 93421},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2947, col: 13, offset: 93401},
+																												pos: position{line: 2947, col: 13, offset: 93421},
 																												expr: &litMatcher{
-																													pos:        position{line: 2947, col: 13, offset: 93401},
+																													pos:        position{line: 2947, col: 13, offset: 93421},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2947, col: 18, offset: 93406},
+																												pos: position{line: 2947, col: 18, offset: 93426},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2947, col: 18, offset: 93406},
+																													pos:        position{line: 2947, col: 18, offset: 93426},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2947, col: 12, offset: 93400},
+																							pos: position{line: 2947, col: 12, offset: 93420},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2947, col: 13, offset: 93401},
+																								pos: position{line: 2947, col: 13, offset: 93421},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2947, col: 13, offset: 93401},
+																										pos: position{line: 2947, col: 13, offset: 93421},
 																										expr: &litMatcher{
-																											pos:        position{line: 2947, col: 13, offset: 93401},
+																											pos:        position{line: 2947, col: 13, offset: 93421},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2947, col: 18, offset: 93406},
+																										pos: position{line: 2947, col: 18, offset: 93426},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2947, col: 18, offset: 93406},
+																											pos:        position{line: 2947, col: 18, offset: 93426},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2947, col: 12, offset: 93400},
+														pos: position{line: 2947, col: 12, offset: 93420},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2947, col: 13, offset: 93401},
+															pos: position{line: 2947, col: 13, offset: 93421},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2947, col: 13, offset: 93401},
+																	pos: position{line: 2947, col: 13, offset: 93421},
 																	expr: &litMatcher{
-																		pos:        position{line: 2947, col: 13, offset: 93401},
+																		pos:        position{line: 2947, col: 13, offset: 93421},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2947, col: 18, offset: 93406},
+																	pos: position{line: 2947, col: 18, offset: 93426},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2947, col: 18, offset: 93406},
+																		pos:        position{line: 2947, col: 18, offset: 93426},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2947, col: 12, offset: 93400},
+														pos: position{line: 2947, col: 12, offset: 93420},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2947, col: 13, offset: 93401},
+															pos: position{line: 2947, col: 13, offset: 93421},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2947, col: 13, offset: 93401},
+																	pos: position{line: 2947, col: 13, offset: 93421},
 																	expr: &litMatcher{
-																		pos:        position{line: 2947, col: 13, offset: 93401},
+																		pos:        position{line: 2947, col: 13, offset: 93421},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2947, col: 18, offset: 93406},
+																	pos: position{line: 2947, col: 18, offset: 93426},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2947, col: 18, offset: 93406},
+																		pos:        position{line: 2947, col: 18, offset: 93426},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2947, col: 12, offset: 93400},
+												pos: position{line: 2947, col: 12, offset: 93420},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2947, col: 13, offset: 93401},
+													pos: position{line: 2947, col: 13, offset: 93421},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2947, col: 13, offset: 93401},
+															pos: position{line: 2947, col: 13, offset: 93421},
 															expr: &litMatcher{
-																pos:        position{line: 2947, col: 13, offset: 93401},
+																pos:        position{line: 2947, col: 13, offset: 93421},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2947, col: 18, offset: 93406},
+															pos: position{line: 2947, col: 18, offset: 93426},
 															expr: &charClassMatcher{
-																pos:        position{line: 2947, col: 18, offset: 93406},
+																pos:        position{line: 2947, col: 18, offset: 93426},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2813, col: 14, offset: 89595},
+																		pos: position{line: 2813, col: 14, offset: 89615},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2813, col: 14, offset: 89595},
+																			pos: position{line: 2813, col: 14, offset: 89615},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 14, offset: 89595},
+																				pos:        position{line: 2813, col: 14, offset: 89615},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2813, col: 14, offset: 89595},
+																				pos: position{line: 2813, col: 14, offset: 89615},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2813, col: 14, offset: 89595},
+																					pos: position{line: 2813, col: 14, offset: 89615},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2813, col: 14, offset: 89595},
+																						pos:        position{line: 2813, col: 14, offset: 89615},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2813, col: 14, offset: 89595},
+																							pos: position{line: 2813, col: 14, offset: 89615},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2813, col: 14, offset: 89595},
+																								pos: position{line: 2813, col: 14, offset: 89615},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 14, offset: 89595},
+																									pos:        position{line: 2813, col: 14, offset: 89615},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2813, col: 14, offset: 89595},
+																									pos: position{line: 2813, col: 14, offset: 89615},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2813, col: 14, offset: 89595},
+																										pos: position{line: 2813, col: 14, offset: 89615},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2813, col: 14, offset: 89595},
+																											pos:        position{line: 2813, col: 14, offset: 89615},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2813, col: 14, offset: 89595},
+																pos: position{line: 2813, col: 14, offset: 89615},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2813, col: 14, offset: 89595},
+																	pos: position{line: 2813, col: 14, offset: 89615},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2813, col: 14, offset: 89595},
+																		pos:        position{line: 2813, col: 14, offset: 89615},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2813, col: 14, offset: 89595},
+																pos: position{line: 2813, col: 14, offset: 89615},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2813, col: 14, offset: 89595},
+																	pos: position{line: 2813, col: 14, offset: 89615},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2813, col: 14, offset: 89595},
+																		pos:        position{line: 2813, col: 14, offset: 89615},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2972, col: 11, offset: 93907},
+														pos: position{line: 2972, col: 11, offset: 93927},
 														expr: &anyMatcher{
-															line: 2972, col: 13, offset: 93909,
+															line: 2972, col: 13, offset: 93929,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91327},
+																			pos: position{line: 2878, col: 14, offset: 91347},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91327},
+																				pos: position{line: 2878, col: 14, offset: 91347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91327},
+																					pos:        position{line: 2878, col: 14, offset: 91347},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2972, col: 11, offset: 93907},
+																									pos: position{line: 2972, col: 11, offset: 93927},
 																									expr: &anyMatcher{
-																										line: 2972, col: 13, offset: 93909,
+																										line: 2972, col: 13, offset: 93929,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 14, offset: 91327},
+																						pos: position{line: 2878, col: 14, offset: 91347},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2878, col: 14, offset: 91327},
+																							pos: position{line: 2878, col: 14, offset: 91347},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 14, offset: 91327},
+																								pos:        position{line: 2878, col: 14, offset: 91347},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -7202,12 +7202,12 @@ var g = &grammar{
 																					pos:   position{line: 1824, col: 5, offset: 58892},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 14, offset: 91327},
+																						pos: position{line: 2878, col: 14, offset: 91347},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2878, col: 14, offset: 91327},
+																							pos: position{line: 2878, col: 14, offset: 91347},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 14, offset: 91327},
+																								pos:        position{line: 2878, col: 14, offset: 91347},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,28 +7221,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2760, col: 18, offset: 87880},
+											pos: position{line: 2760, col: 18, offset: 87900},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2761, col: 9, offset: 87890},
+												pos: position{line: 2761, col: 9, offset: 87910},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87890},
+														pos: position{line: 2761, col: 9, offset: 87910},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87890},
+																pos:        position{line: 2761, col: 9, offset: 87910},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2761, col: 15, offset: 87896},
+																pos: position{line: 2761, col: 15, offset: 87916},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2762, col: 11, offset: 87929},
+														pos: position{line: 2762, col: 11, offset: 87949},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2762, col: 12, offset: 87930},
+																pos: position{line: 2762, col: 12, offset: 87950},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 12, offset: 87930},
+																		pos:        position{line: 2762, col: 12, offset: 87950},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 20, offset: 87938},
+																		pos:        position{line: 2762, col: 20, offset: 87958},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 30, offset: 87948},
+																		pos:        position{line: 2762, col: 30, offset: 87968},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 38, offset: 87956},
+																		pos:        position{line: 2762, col: 38, offset: 87976},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 48, offset: 87966},
+																		pos:        position{line: 2762, col: 48, offset: 87986},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 56, offset: 87974},
+																		pos:        position{line: 2762, col: 56, offset: 87994},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2762, col: 65, offset: 87983},
+																pos: position{line: 2762, col: 65, offset: 88003},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2762, col: 76, offset: 87994},
+																pos: position{line: 2762, col: 76, offset: 88014},
 																expr: &choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84816},
+											pos: position{line: 2651, col: 5, offset: 84836},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84816},
+												pos: position{line: 2651, col: 5, offset: 84836},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84973},
+														pos:        position{line: 2657, col: 19, offset: 84993},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 84980},
+														pos: position{line: 2657, col: 26, offset: 85000},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84840},
+														pos:   position{line: 2652, col: 5, offset: 84860},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84846},
+															pos: position{line: 2652, col: 11, offset: 84866},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84847},
+																pos: position{line: 2652, col: 12, offset: 84867},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93907},
+																					pos: position{line: 2972, col: 11, offset: 93927},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93909,
+																						line: 2972, col: 13, offset: 93929,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85092},
+																		pos: position{line: 2664, col: 5, offset: 85112},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85092},
+																			pos: position{line: 2664, col: 5, offset: 85112},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85092},
+																					pos: position{line: 2664, col: 5, offset: 85112},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85053},
+																						pos: position{line: 2661, col: 22, offset: 85073},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84973},
+																								pos: position{line: 2657, col: 19, offset: 84993},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84973},
+																										pos:        position{line: 2657, col: 19, offset: 84993},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 84980},
+																										pos: position{line: 2657, col: 26, offset: 85000},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93971},
+																										pos: position{line: 2977, col: 8, offset: 93991},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93744},
+																												pos: position{line: 2964, col: 12, offset: 93764},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93745},
+																													pos: position{line: 2964, col: 13, offset: 93765},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93745},
+																															pos:        position{line: 2964, col: 13, offset: 93765},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93752},
+																															pos:        position{line: 2964, col: 20, offset: 93772},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93761},
+																															pos:        position{line: 2964, col: 29, offset: 93781},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93921},
+																												pos: position{line: 2974, col: 8, offset: 93941},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93922,
+																													line: 2974, col: 9, offset: 93942,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85115},
+																					pos:   position{line: 2665, col: 5, offset: 85135},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85133},
+																						pos: position{line: 2666, col: 9, offset: 85153},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85134},
+																								pos: position{line: 2666, col: 10, offset: 85154},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85134},
+																									pos:   position{line: 2666, col: 10, offset: 85154},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85141},
+																										pos: position{line: 2666, col: 17, offset: 85161},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85337},
+																												pos: position{line: 2674, col: 21, offset: 85357},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85337},
+																													pos: position{line: 2674, col: 21, offset: 85357},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85337},
+																															pos:   position{line: 2674, col: 21, offset: 85357},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85343},
+																																pos: position{line: 2674, col: 27, offset: 85363},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85418},
+																																	pos: position{line: 2679, col: 5, offset: 85438},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85418},
+																																		pos: position{line: 2679, col: 5, offset: 85438},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85418},
+																																				pos:        position{line: 2679, col: 5, offset: 85438},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85422},
+																																				pos: position{line: 2679, col: 9, offset: 85442},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2955, col: 10, offset: 93573},
+																																					pos: position{line: 2955, col: 10, offset: 93593},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2955, col: 10, offset: 93573},
+																																						pos:        position{line: 2955, col: 10, offset: 93593},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85429},
+																																				pos:   position{line: 2679, col: 16, offset: 85449},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85629},
+																																					pos: position{line: 2685, col: 5, offset: 85649},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85629},
+																																						pos:   position{line: 2685, col: 5, offset: 85649},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85638},
+																																							pos: position{line: 2685, col: 14, offset: 85658},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85638},
+																																								pos: position{line: 2685, col: 14, offset: 85658},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85638},
+																																									pos:        position{line: 2685, col: 14, offset: 85658},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2977, col: 8, offset: 93971},
+																															pos: position{line: 2977, col: 8, offset: 93991},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2964, col: 12, offset: 93744},
+																																	pos: position{line: 2964, col: 12, offset: 93764},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2964, col: 13, offset: 93745},
+																																		pos: position{line: 2964, col: 13, offset: 93765},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 13, offset: 93745},
+																																				pos:        position{line: 2964, col: 13, offset: 93765},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 20, offset: 93752},
+																																				pos:        position{line: 2964, col: 20, offset: 93772},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 29, offset: 93761},
+																																				pos:        position{line: 2964, col: 29, offset: 93781},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2974, col: 8, offset: 93921},
+																																	pos: position{line: 2974, col: 8, offset: 93941},
 																																	expr: &anyMatcher{
-																																		line: 2974, col: 9, offset: 93922,
+																																		line: 2974, col: 9, offset: 93942,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85774},
+																												pos: position{line: 2691, col: 24, offset: 85794},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85774},
+																													pos:   position{line: 2691, col: 24, offset: 85794},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85780},
+																														pos: position{line: 2691, col: 30, offset: 85800},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85856},
+																															pos: position{line: 2696, col: 5, offset: 85876},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85856},
+																																pos: position{line: 2696, col: 5, offset: 85876},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85856},
+																																		pos: position{line: 2696, col: 5, offset: 85876},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85053},
+																																			pos: position{line: 2661, col: 22, offset: 85073},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84973},
+																																					pos: position{line: 2657, col: 19, offset: 84993},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84973},
+																																							pos:        position{line: 2657, col: 19, offset: 84993},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 84980},
+																																							pos: position{line: 2657, col: 26, offset: 85000},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2955, col: 10, offset: 93573},
+																																								pos: position{line: 2955, col: 10, offset: 93593},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2955, col: 10, offset: 93573},
+																																									pos:        position{line: 2955, col: 10, offset: 93593},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2977, col: 8, offset: 93971},
+																																							pos: position{line: 2977, col: 8, offset: 93991},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2964, col: 12, offset: 93744},
+																																									pos: position{line: 2964, col: 12, offset: 93764},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2964, col: 13, offset: 93745},
+																																										pos: position{line: 2964, col: 13, offset: 93765},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 13, offset: 93745},
+																																												pos:        position{line: 2964, col: 13, offset: 93765},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 20, offset: 93752},
+																																												pos:        position{line: 2964, col: 20, offset: 93772},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 29, offset: 93761},
+																																												pos:        position{line: 2964, col: 29, offset: 93781},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93921},
+																																									pos: position{line: 2974, col: 8, offset: 93941},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93922,
+																																										line: 2974, col: 9, offset: 93942,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2974, col: 8, offset: 93921},
+																																					pos: position{line: 2974, col: 8, offset: 93941},
 																																					expr: &anyMatcher{
-																																						line: 2974, col: 9, offset: 93922,
+																																						line: 2974, col: 9, offset: 93942,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85879},
+																																		pos: position{line: 2697, col: 5, offset: 85899},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2972, col: 11, offset: 93907},
+																																						pos: position{line: 2972, col: 11, offset: 93927},
 																																						expr: &anyMatcher{
-																																							line: 2972, col: 13, offset: 93909,
+																																							line: 2972, col: 13, offset: 93929,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2955, col: 10, offset: 93573},
+																																							pos: position{line: 2955, col: 10, offset: 93593},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2955, col: 10, offset: 93573},
+																																								pos:        position{line: 2955, col: 10, offset: 93593},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2977, col: 8, offset: 93971},
+																																						pos: position{line: 2977, col: 8, offset: 93991},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2964, col: 12, offset: 93744},
+																																								pos: position{line: 2964, col: 12, offset: 93764},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2964, col: 13, offset: 93745},
+																																									pos: position{line: 2964, col: 13, offset: 93765},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 13, offset: 93745},
+																																											pos:        position{line: 2964, col: 13, offset: 93765},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 20, offset: 93752},
+																																											pos:        position{line: 2964, col: 20, offset: 93772},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 29, offset: 93761},
+																																											pos:        position{line: 2964, col: 29, offset: 93781},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2974, col: 8, offset: 93921},
+																																								pos: position{line: 2974, col: 8, offset: 93941},
 																																								expr: &anyMatcher{
-																																									line: 2974, col: 9, offset: 93922,
+																																									line: 2974, col: 9, offset: 93942,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85894},
+																																		pos:   position{line: 2698, col: 5, offset: 85914},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85901},
+																																			pos: position{line: 2698, col: 12, offset: 85921},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2715, col: 20, offset: 86365},
+																																				pos: position{line: 2715, col: 20, offset: 86385},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2715, col: 20, offset: 86365},
+																																					pos: position{line: 2715, col: 20, offset: 86385},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2715, col: 20, offset: 86365},
+																																						pos:        position{line: 2715, col: 20, offset: 86385},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85920},
+																																		pos:        position{line: 2698, col: 31, offset: 85940},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85924},
+																																		pos: position{line: 2698, col: 35, offset: 85944},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2955, col: 10, offset: 93573},
+																																			pos: position{line: 2955, col: 10, offset: 93593},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2955, col: 10, offset: 93573},
+																																				pos:        position{line: 2955, col: 10, offset: 93593},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85931},
+																																		pos: position{line: 2698, col: 42, offset: 85951},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2964, col: 12, offset: 93744},
+																																			pos: position{line: 2964, col: 12, offset: 93764},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2964, col: 13, offset: 93745},
+																																				pos: position{line: 2964, col: 13, offset: 93765},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 13, offset: 93745},
+																																						pos:        position{line: 2964, col: 13, offset: 93765},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 20, offset: 93752},
+																																						pos:        position{line: 2964, col: 20, offset: 93772},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 29, offset: 93761},
+																																						pos:        position{line: 2964, col: 29, offset: 93781},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85940},
+																																		pos:   position{line: 2698, col: 51, offset: 85960},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86099},
+																																			pos: position{line: 2704, col: 5, offset: 86119},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86109},
+																																				pos: position{line: 2705, col: 9, offset: 86129},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86109},
+																																					pos: position{line: 2705, col: 9, offset: 86129},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86109},
+																																							pos: position{line: 2705, col: 9, offset: 86129},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2661, col: 22, offset: 85053},
+																																								pos: position{line: 2661, col: 22, offset: 85073},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2657, col: 19, offset: 84973},
+																																										pos: position{line: 2657, col: 19, offset: 84993},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2657, col: 19, offset: 84973},
+																																												pos:        position{line: 2657, col: 19, offset: 84993},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2657, col: 26, offset: 84980},
+																																												pos: position{line: 2657, col: 26, offset: 85000},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2955, col: 10, offset: 93573},
+																																													pos: position{line: 2955, col: 10, offset: 93593},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2955, col: 10, offset: 93573},
+																																														pos:        position{line: 2955, col: 10, offset: 93593},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2977, col: 8, offset: 93971},
+																																												pos: position{line: 2977, col: 8, offset: 93991},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2964, col: 12, offset: 93744},
+																																														pos: position{line: 2964, col: 12, offset: 93764},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2964, col: 13, offset: 93745},
+																																															pos: position{line: 2964, col: 13, offset: 93765},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2974, col: 8, offset: 93921},
+																																														pos: position{line: 2974, col: 8, offset: 93941},
 																																														expr: &anyMatcher{
-																																															line: 2974, col: 9, offset: 93922,
+																																															line: 2974, col: 9, offset: 93942,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2974, col: 8, offset: 93921},
+																																										pos: position{line: 2974, col: 8, offset: 93941},
 																																										expr: &anyMatcher{
-																																											line: 2974, col: 9, offset: 93922,
+																																											line: 2974, col: 9, offset: 93942,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2706, col: 9, offset: 86136},
+																																							pos: position{line: 2706, col: 9, offset: 86156},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2972, col: 11, offset: 93907},
+																																											pos: position{line: 2972, col: 11, offset: 93927},
 																																											expr: &anyMatcher{
-																																												line: 2972, col: 13, offset: 93909,
+																																												line: 2972, col: 13, offset: 93929,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2955, col: 10, offset: 93573},
+																																												pos: position{line: 2955, col: 10, offset: 93593},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2955, col: 10, offset: 93573},
+																																													pos:        position{line: 2955, col: 10, offset: 93593},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2977, col: 8, offset: 93971},
+																																											pos: position{line: 2977, col: 8, offset: 93991},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2964, col: 12, offset: 93744},
+																																													pos: position{line: 2964, col: 12, offset: 93764},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2964, col: 13, offset: 93745},
+																																														pos: position{line: 2964, col: 13, offset: 93765},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2974, col: 8, offset: 93921},
+																																													pos: position{line: 2974, col: 8, offset: 93941},
 																																													expr: &anyMatcher{
-																																														line: 2974, col: 9, offset: 93922,
+																																														line: 2974, col: 9, offset: 93942,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2707, col: 9, offset: 86155},
+																																							pos: position{line: 2707, col: 9, offset: 86175},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2707, col: 11, offset: 86157},
+																																								pos: position{line: 2707, col: 11, offset: 86177},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2707, col: 11, offset: 86157},
+																																										pos:   position{line: 2707, col: 11, offset: 86177},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2707, col: 18, offset: 86164},
+																																											pos: position{line: 2707, col: 18, offset: 86184},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2715, col: 20, offset: 86365},
+																																												pos: position{line: 2715, col: 20, offset: 86385},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2715, col: 20, offset: 86365},
+																																													pos: position{line: 2715, col: 20, offset: 86385},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2715, col: 20, offset: 86365},
+																																														pos:        position{line: 2715, col: 20, offset: 86385},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2707, col: 37, offset: 86183},
+																																										pos:        position{line: 2707, col: 37, offset: 86203},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2708, col: 9, offset: 86196},
+																																							pos:   position{line: 2708, col: 9, offset: 86216},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2708, col: 18, offset: 86205},
+																																								pos: position{line: 2708, col: 18, offset: 86225},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2708, col: 18, offset: 86205},
+																																									pos: position{line: 2708, col: 18, offset: 86225},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2708, col: 18, offset: 86205},
+																																										pos:        position{line: 2708, col: 18, offset: 86225},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2710, col: 12, offset: 86267},
+																																							pos: position{line: 2710, col: 12, offset: 86287},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2977, col: 8, offset: 93971},
+																																								pos: position{line: 2977, col: 8, offset: 93991},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2964, col: 12, offset: 93744},
+																																										pos: position{line: 2964, col: 12, offset: 93764},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2964, col: 13, offset: 93745},
+																																											pos: position{line: 2964, col: 13, offset: 93765},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 13, offset: 93745},
+																																													pos:        position{line: 2964, col: 13, offset: 93765},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 20, offset: 93752},
+																																													pos:        position{line: 2964, col: 20, offset: 93772},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 29, offset: 93761},
+																																													pos:        position{line: 2964, col: 29, offset: 93781},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2974, col: 8, offset: 93921},
+																																										pos: position{line: 2974, col: 8, offset: 93941},
 																																										expr: &anyMatcher{
-																																											line: 2974, col: 9, offset: 93922,
+																																											line: 2974, col: 9, offset: 93942,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2972, col: 11, offset: 93907},
+																											pos: position{line: 2972, col: 11, offset: 93927},
 																											expr: &anyMatcher{
-																												line: 2972, col: 13, offset: 93909,
+																												line: 2972, col: 13, offset: 93929,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85053},
+														pos: position{line: 2661, col: 22, offset: 85073},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84973},
+																pos: position{line: 2657, col: 19, offset: 84993},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84973},
+																		pos:        position{line: 2657, col: 19, offset: 84993},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84980},
+																		pos: position{line: 2657, col: 26, offset: 85000},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81287},
+												pos: position{line: 2525, col: 22, offset: 81307},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81508},
+														pos:        position{line: 2530, col: 31, offset: 81528},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81513},
+														pos: position{line: 2530, col: 36, offset: 81533},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81514},
+															pos:        position{line: 2530, col: 37, offset: 81534},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81314},
+														pos:   position{line: 2525, col: 49, offset: 81334},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2874, col: 13, offset: 91260},
+																pos: position{line: 2874, col: 13, offset: 91280},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 91260},
+																	pos:        position{line: 2874, col: 13, offset: 91280},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93971},
+																										pos: position{line: 2977, col: 8, offset: 93991},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93744},
+																												pos: position{line: 2964, col: 12, offset: 93764},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93745},
+																													pos: position{line: 2964, col: 13, offset: 93765},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93745},
+																															pos:        position{line: 2964, col: 13, offset: 93765},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93752},
+																															pos:        position{line: 2964, col: 20, offset: 93772},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93761},
+																															pos:        position{line: 2964, col: 29, offset: 93781},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93921},
+																												pos: position{line: 2974, col: 8, offset: 93941},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93922,
+																													line: 2974, col: 9, offset: 93942,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2959, col: 11, offset: 93634},
+												pos: position{line: 2959, col: 11, offset: 93654},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2959, col: 11, offset: 93634},
+													pos: position{line: 2959, col: 11, offset: 93654},
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 11, offset: 93634},
+														pos:        position{line: 2959, col: 11, offset: 93654},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93744},
+												pos: position{line: 2964, col: 12, offset: 93764},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93745},
+													pos: position{line: 2964, col: 13, offset: 93765},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93745},
+															pos:        position{line: 2964, col: 13, offset: 93765},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93752},
+															pos:        position{line: 2964, col: 20, offset: 93772},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93761},
+															pos:        position{line: 2964, col: 29, offset: 93781},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93573},
+													pos: position{line: 2955, col: 10, offset: 93593},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93573},
+														pos:        position{line: 2955, col: 10, offset: 93593},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93573},
+											pos: position{line: 2955, col: 10, offset: 93593},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93573},
+												pos:        position{line: 2955, col: 10, offset: 93593},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2977, col: 8, offset: 93971},
+										pos: position{line: 2977, col: 8, offset: 93991},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93744},
+												pos: position{line: 2964, col: 12, offset: 93764},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93745},
+													pos: position{line: 2964, col: 13, offset: 93765},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93745},
+															pos:        position{line: 2964, col: 13, offset: 93765},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93752},
+															pos:        position{line: 2964, col: 20, offset: 93772},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93761},
+															pos:        position{line: 2964, col: 29, offset: 93781},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2974, col: 8, offset: 93921},
+												pos: position{line: 2974, col: 8, offset: 93941},
 												expr: &anyMatcher{
-													line: 2974, col: 9, offset: 93922,
+													line: 2974, col: 9, offset: 93942,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80833},
+										pos: position{line: 2512, col: 5, offset: 80853},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80833},
+													pos: position{line: 2512, col: 5, offset: 80853},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80909},
+													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80927},
+														pos: position{line: 2516, col: 9, offset: 80947},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80928},
+															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93573},
+										pos: position{line: 2955, col: 10, offset: 93593},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93573},
+											pos:        position{line: 2955, col: 10, offset: 93593},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93573},
+													pos: position{line: 2955, col: 10, offset: 93593},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93573},
+														pos:        position{line: 2955, col: 10, offset: 93593},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93971},
+												pos: position{line: 2977, col: 8, offset: 93991},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93744},
+														pos: position{line: 2964, col: 12, offset: 93764},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93745},
+															pos: position{line: 2964, col: 13, offset: 93765},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93745},
+																	pos:        position{line: 2964, col: 13, offset: 93765},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93752},
+																	pos:        position{line: 2964, col: 20, offset: 93772},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93761},
+																	pos:        position{line: 2964, col: 29, offset: 93781},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93921},
+														pos: position{line: 2974, col: 8, offset: 93941},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93922,
+															line: 2974, col: 9, offset: 93942,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2813, col: 14, offset: 89595},
+																				pos: position{line: 2813, col: 14, offset: 89615},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2813, col: 14, offset: 89595},
+																					pos: position{line: 2813, col: 14, offset: 89615},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2813, col: 14, offset: 89595},
+																						pos:        position{line: 2813, col: 14, offset: 89615},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2845, col: 5, offset: 90388},
+																				pos: position{line: 2845, col: 5, offset: 90408},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2846, col: 9, offset: 90398},
+																					pos: position{line: 2846, col: 9, offset: 90418},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90399},
+																							pos:        position{line: 2846, col: 10, offset: 90419},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90496},
+																							pos: position{line: 2848, col: 13, offset: 90516},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90496},
+																									pos: position{line: 2848, col: 13, offset: 90516},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90596},
+																									pos:        position{line: 2851, col: 13, offset: 90616},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2851, col: 19, offset: 90602},
+																							pos:        position{line: 2851, col: 19, offset: 90622},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2854, col: 13, offset: 90640},
+																							pos: position{line: 2854, col: 13, offset: 90660},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2854, col: 13, offset: 90640},
+																									pos: position{line: 2854, col: 13, offset: 90660},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2857, col: 14, offset: 90733},
+																									pos:        position{line: 2857, col: 14, offset: 90753},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2859, col: 12, offset: 90777},
+																							pos: position{line: 2859, col: 12, offset: 90797},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2859, col: 12, offset: 90777},
+																									pos:        position{line: 2859, col: 12, offset: 90797},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2859, col: 16, offset: 90781},
+																									pos: position{line: 2859, col: 16, offset: 90801},
 																									expr: &litMatcher{
-																										pos:        position{line: 2859, col: 17, offset: 90782},
+																										pos:        position{line: 2859, col: 17, offset: 90802},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2867, col: 12, offset: 91042},
+																				pos: position{line: 2867, col: 12, offset: 91062},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 12, offset: 91042},
+																					pos:        position{line: 2867, col: 12, offset: 91062},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93573},
+													pos: position{line: 2955, col: 10, offset: 93593},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93573},
+														pos:        position{line: 2955, col: 10, offset: 93593},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93971},
+												pos: position{line: 2977, col: 8, offset: 93991},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93744},
+														pos: position{line: 2964, col: 12, offset: 93764},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93745},
+															pos: position{line: 2964, col: 13, offset: 93765},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93745},
+																	pos:        position{line: 2964, col: 13, offset: 93765},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93752},
+																	pos:        position{line: 2964, col: 20, offset: 93772},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93761},
+																	pos:        position{line: 2964, col: 29, offset: 93781},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93921},
+														pos: position{line: 2974, col: 8, offset: 93941},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93922,
+															line: 2974, col: 9, offset: 93942,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93573},
+													pos: position{line: 2955, col: 10, offset: 93593},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93573},
+														pos:        position{line: 2955, col: 10, offset: 93593},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93971},
+												pos: position{line: 2977, col: 8, offset: 93991},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93744},
+														pos: position{line: 2964, col: 12, offset: 93764},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93745},
+															pos: position{line: 2964, col: 13, offset: 93765},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93745},
+																	pos:        position{line: 2964, col: 13, offset: 93765},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93752},
+																	pos:        position{line: 2964, col: 20, offset: 93772},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93761},
+																	pos:        position{line: 2964, col: 29, offset: 93781},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93921},
+														pos: position{line: 2974, col: 8, offset: 93941},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93922,
+															line: 2974, col: 9, offset: 93942,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93573},
+											pos: position{line: 2955, col: 10, offset: 93593},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93573},
+												pos:        position{line: 2955, col: 10, offset: 93593},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93573},
+													pos: position{line: 2955, col: 10, offset: 93593},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93573},
+														pos:        position{line: 2955, col: 10, offset: 93593},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93573},
+												pos: position{line: 2955, col: 10, offset: 93593},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93573},
+													pos:        position{line: 2955, col: 10, offset: 93593},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93573},
+											pos: position{line: 2955, col: 10, offset: 93593},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93573},
+												pos:        position{line: 2955, col: 10, offset: 93593},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93573},
+												pos: position{line: 2955, col: 10, offset: 93593},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93573},
+													pos:        position{line: 2955, col: 10, offset: 93593},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89595},
+									pos: position{line: 2813, col: 14, offset: 89615},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89595},
+										pos: position{line: 2813, col: 14, offset: 89615},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89595},
+											pos:        position{line: 2813, col: 14, offset: 89615},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93573},
+									pos: position{line: 2955, col: 10, offset: 93593},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93573},
+										pos:        position{line: 2955, col: 10, offset: 93593},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93573},
+												pos: position{line: 2955, col: 10, offset: 93593},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93573},
+													pos:        position{line: 2955, col: 10, offset: 93593},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89595},
+									pos: position{line: 2813, col: 14, offset: 89615},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89595},
+										pos: position{line: 2813, col: 14, offset: 89615},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89595},
+											pos:        position{line: 2813, col: 14, offset: 89615},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93573},
+									pos: position{line: 2955, col: 10, offset: 93593},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93573},
+										pos:        position{line: 2955, col: 10, offset: 93593},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93573},
+											pos: position{line: 2955, col: 10, offset: 93593},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93573},
+												pos:        position{line: 2955, col: 10, offset: 93593},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2940, col: 7, offset: 93225},
+										pos: position{line: 2940, col: 7, offset: 93245},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2940, col: 7, offset: 93225},
+											pos: position{line: 2940, col: 7, offset: 93245},
 											expr: &charClassMatcher{
-												pos:        position{line: 2940, col: 7, offset: 93225},
+												pos:        position{line: 2940, col: 7, offset: 93245},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93573},
+										pos: position{line: 2955, col: 10, offset: 93593},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93573},
+											pos:        position{line: 2955, col: 10, offset: 93593},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2940, col: 7, offset: 93225},
+										pos: position{line: 2940, col: 7, offset: 93245},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2940, col: 7, offset: 93225},
+											pos: position{line: 2940, col: 7, offset: 93245},
 											expr: &charClassMatcher{
-												pos:        position{line: 2940, col: 7, offset: 93225},
+												pos:        position{line: 2940, col: 7, offset: 93245},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2882, col: 17, offset: 91397},
+								pos: position{line: 2882, col: 17, offset: 91417},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2882, col: 17, offset: 91397},
+									pos:   position{line: 2882, col: 17, offset: 91417},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 5, offset: 91982},
+										pos: position{line: 2903, col: 5, offset: 92002},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2903, col: 5, offset: 91982},
+											pos:   position{line: 2903, col: 5, offset: 92002},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2903, col: 14, offset: 91991},
+												pos: position{line: 2903, col: 14, offset: 92011},
 												expr: &choiceExpr{
-													pos: position{line: 2904, col: 9, offset: 92001},
+													pos: position{line: 2904, col: 9, offset: 92021},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2904, col: 9, offset: 92001},
+															pos: position{line: 2904, col: 9, offset: 92021},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2904, col: 9, offset: 92001},
+																pos: position{line: 2904, col: 9, offset: 92021},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2904, col: 9, offset: 92001},
+																		pos: position{line: 2904, col: 9, offset: 92021},
 																		expr: &litMatcher{
-																			pos:        position{line: 2904, col: 10, offset: 92002},
+																			pos:        position{line: 2904, col: 10, offset: 92022},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2905, col: 9, offset: 92030},
+																		pos: position{line: 2905, col: 9, offset: 92050},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 92031},
+																			pos:        position{line: 2905, col: 10, offset: 92051},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2908, col: 11, offset: 92243},
+															pos: position{line: 2908, col: 11, offset: 92263},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2908, col: 11, offset: 92243},
+																	pos:        position{line: 2908, col: 11, offset: 92263},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2908, col: 19, offset: 92251},
+																	pos: position{line: 2908, col: 19, offset: 92271},
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 21, offset: 92253},
+																		pos: position{line: 2908, col: 21, offset: 92273},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 21, offset: 92253},
+																				pos: position{line: 2908, col: 21, offset: 92273},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93573},
+																					pos: position{line: 2955, col: 10, offset: 93593},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93573},
+																						pos:        position{line: 2955, col: 10, offset: 93593},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 28, offset: 92260},
+																				pos: position{line: 2908, col: 28, offset: 92280},
 																				expr: &notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2911, col: 11, offset: 92380},
+															pos: position{line: 2911, col: 11, offset: 92400},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2911, col: 11, offset: 92380},
+																pos:        position{line: 2911, col: 11, offset: 92400},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 14, offset: 91327},
+								pos: position{line: 2878, col: 14, offset: 91347},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2878, col: 14, offset: 91327},
+									pos: position{line: 2878, col: 14, offset: 91347},
 									expr: &charClassMatcher{
-										pos:        position{line: 2878, col: 14, offset: 91327},
+										pos:        position{line: 2878, col: 14, offset: 91347},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81287},
+										pos: position{line: 2525, col: 22, offset: 81307},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81508},
+													pos:        position{line: 2530, col: 31, offset: 81528},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81513},
+													pos: position{line: 2530, col: 36, offset: 81533},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81514},
+														pos:        position{line: 2530, col: 37, offset: 81534},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81314},
+													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91260},
+														pos: position{line: 2874, col: 13, offset: 91280},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91260},
+																pos:        position{line: 2874, col: 13, offset: 91280},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81287},
+										pos: position{line: 2525, col: 22, offset: 81307},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81508},
+													pos:        position{line: 2530, col: 31, offset: 81528},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81513},
+													pos: position{line: 2530, col: 36, offset: 81533},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81514},
+														pos:        position{line: 2530, col: 37, offset: 81534},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81314},
+													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91260},
+														pos: position{line: 2874, col: 13, offset: 91280},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91260},
+																pos:        position{line: 2874, col: 13, offset: 91280},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2972, col: 11, offset: 93907},
+																										pos: position{line: 2972, col: 11, offset: 93927},
 																										expr: &anyMatcher{
-																											line: 2972, col: 13, offset: 93909,
+																											line: 2972, col: 13, offset: 93929,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81287},
+															pos: position{line: 2525, col: 22, offset: 81307},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81287},
+																pos: position{line: 2525, col: 22, offset: 81307},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81508},
+																		pos:        position{line: 2530, col: 31, offset: 81528},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81513},
+																		pos: position{line: 2530, col: 36, offset: 81533},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81514},
+																			pos:        position{line: 2530, col: 37, offset: 81534},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81314},
+																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91260},
+																			pos: position{line: 2874, col: 13, offset: 91280},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91260},
+																				pos: position{line: 2874, col: 13, offset: 91280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91260},
+																					pos:        position{line: 2874, col: 13, offset: 91280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2955, col: 10, offset: 93573},
+																																	pos: position{line: 2955, col: 10, offset: 93593},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2955, col: 10, offset: 93573},
+																																		pos:        position{line: 2955, col: 10, offset: 93593},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2977, col: 8, offset: 93971},
+																																pos: position{line: 2977, col: 8, offset: 93991},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2964, col: 12, offset: 93744},
+																																		pos: position{line: 2964, col: 12, offset: 93764},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2964, col: 13, offset: 93745},
+																																			pos: position{line: 2964, col: 13, offset: 93765},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 13, offset: 93745},
+																																					pos:        position{line: 2964, col: 13, offset: 93765},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 20, offset: 93752},
+																																					pos:        position{line: 2964, col: 20, offset: 93772},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 29, offset: 93761},
+																																					pos:        position{line: 2964, col: 29, offset: 93781},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2974, col: 8, offset: 93921},
+																																		pos: position{line: 2974, col: 8, offset: 93941},
 																																		expr: &anyMatcher{
-																																			line: 2974, col: 9, offset: 93922,
+																																			line: 2974, col: 9, offset: 93942,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2972, col: 11, offset: 93907},
+																											pos: position{line: 2972, col: 11, offset: 93927},
 																											expr: &anyMatcher{
-																												line: 2972, col: 13, offset: 93909,
+																												line: 2972, col: 13, offset: 93929,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 13, offset: 91260},
+																												pos: position{line: 2874, col: 13, offset: 91280},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2874, col: 13, offset: 91260},
+																													pos: position{line: 2874, col: 13, offset: 91280},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 91260},
+																														pos:        position{line: 2874, col: 13, offset: 91280},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93573},
+															pos: position{line: 2955, col: 10, offset: 93593},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93573},
+																pos:        position{line: 2955, col: 10, offset: 93593},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81287},
+												pos: position{line: 2525, col: 22, offset: 81307},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81508},
+														pos:        position{line: 2530, col: 31, offset: 81528},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81513},
+														pos: position{line: 2530, col: 36, offset: 81533},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81514},
+															pos:        position{line: 2530, col: 37, offset: 81534},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81314},
+														pos:   position{line: 2525, col: 49, offset: 81334},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2874, col: 13, offset: 91260},
+																pos: position{line: 2874, col: 13, offset: 91280},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 91260},
+																	pos:        position{line: 2874, col: 13, offset: 91280},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93573},
+																													pos: position{line: 2955, col: 10, offset: 93593},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93573},
+																														pos:        position{line: 2955, col: 10, offset: 93593},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93971},
+																												pos: position{line: 2977, col: 8, offset: 93991},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93744},
+																														pos: position{line: 2964, col: 12, offset: 93764},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93745},
+																															pos: position{line: 2964, col: 13, offset: 93765},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93745},
+																																	pos:        position{line: 2964, col: 13, offset: 93765},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93752},
+																																	pos:        position{line: 2964, col: 20, offset: 93772},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93761},
+																																	pos:        position{line: 2964, col: 29, offset: 93781},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93921},
+																														pos: position{line: 2974, col: 8, offset: 93941},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93922,
+																															line: 2974, col: 9, offset: 93942,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91260},
+																									pos: position{line: 2874, col: 13, offset: 91280},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91260},
+																										pos:        position{line: 2874, col: 13, offset: 91280},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2959, col: 11, offset: 93634},
+							pos: position{line: 2959, col: 11, offset: 93654},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2959, col: 11, offset: 93634},
+								pos: position{line: 2959, col: 11, offset: 93654},
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 11, offset: 93634},
+									pos:        position{line: 2959, col: 11, offset: 93654},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2940, col: 7, offset: 93225},
+								pos: position{line: 2940, col: 7, offset: 93245},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2940, col: 7, offset: 93225},
+									pos: position{line: 2940, col: 7, offset: 93245},
 									expr: &charClassMatcher{
-										pos:        position{line: 2940, col: 7, offset: 93225},
+										pos:        position{line: 2940, col: 7, offset: 93245},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89595},
+									pos: position{line: 2813, col: 14, offset: 89615},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89595},
+										pos: position{line: 2813, col: 14, offset: 89615},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89595},
+											pos:        position{line: 2813, col: 14, offset: 89615},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93573},
+									pos: position{line: 2955, col: 10, offset: 93593},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93573},
+										pos:        position{line: 2955, col: 10, offset: 93593},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80833},
+									pos: position{line: 2512, col: 5, offset: 80853},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80833},
+										pos: position{line: 2512, col: 5, offset: 80853},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80833},
+												pos: position{line: 2512, col: 5, offset: 80853},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80909},
+												pos:   position{line: 2515, col: 5, offset: 80929},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80927},
+													pos: position{line: 2516, col: 9, offset: 80947},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80928},
+														pos:        position{line: 2516, col: 10, offset: 80948},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 13, offset: 91493},
+								pos: position{line: 2886, col: 13, offset: 91513},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2886, col: 13, offset: 91493},
+									pos: position{line: 2886, col: 13, offset: 91513},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2886, col: 13, offset: 91493},
+											pos:   position{line: 2886, col: 13, offset: 91513},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2886, col: 20, offset: 91500},
+												pos: position{line: 2886, col: 20, offset: 91520},
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 11, offset: 91870},
+													pos: position{line: 2898, col: 11, offset: 91890},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 12, offset: 91871},
+														pos: position{line: 2898, col: 12, offset: 91891},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 12, offset: 91871},
+																pos:        position{line: 2898, col: 12, offset: 91891},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 24, offset: 91883},
+																pos:        position{line: 2898, col: 24, offset: 91903},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 37, offset: 91896},
+																pos:        position{line: 2898, col: 37, offset: 91916},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 48, offset: 91907},
+																pos:        position{line: 2898, col: 48, offset: 91927},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 59, offset: 91918},
+																pos:        position{line: 2898, col: 59, offset: 91938},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2886, col: 30, offset: 91510},
+											pos:   position{line: 2886, col: 30, offset: 91530},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 5, offset: 91982},
+												pos: position{line: 2903, col: 5, offset: 92002},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2903, col: 5, offset: 91982},
+													pos:   position{line: 2903, col: 5, offset: 92002},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2903, col: 14, offset: 91991},
+														pos: position{line: 2903, col: 14, offset: 92011},
 														expr: &choiceExpr{
-															pos: position{line: 2904, col: 9, offset: 92001},
+															pos: position{line: 2904, col: 9, offset: 92021},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2904, col: 9, offset: 92001},
+																		pos: position{line: 2904, col: 9, offset: 92021},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				expr: &litMatcher{
-																					pos:        position{line: 2904, col: 10, offset: 92002},
+																					pos:        position{line: 2904, col: 10, offset: 92022},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2905, col: 9, offset: 92030},
+																				pos: position{line: 2905, col: 9, offset: 92050},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 92031},
+																					pos:        position{line: 2905, col: 10, offset: 92051},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2908, col: 11, offset: 92243},
+																	pos: position{line: 2908, col: 11, offset: 92263},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2908, col: 11, offset: 92243},
+																			pos:        position{line: 2908, col: 11, offset: 92263},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2908, col: 19, offset: 92251},
+																			pos: position{line: 2908, col: 19, offset: 92271},
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 21, offset: 92253},
+																				pos: position{line: 2908, col: 21, offset: 92273},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 28, offset: 92260},
+																						pos: position{line: 2908, col: 28, offset: 92280},
 																						expr: &notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 11, offset: 92380},
+																	pos: position{line: 2911, col: 11, offset: 92400},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2911, col: 11, offset: 92380},
+																		pos:        position{line: 2911, col: 11, offset: 92400},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 13, offset: 91493},
+								pos: position{line: 2886, col: 13, offset: 91513},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2886, col: 13, offset: 91493},
+									pos: position{line: 2886, col: 13, offset: 91513},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2886, col: 13, offset: 91493},
+											pos:   position{line: 2886, col: 13, offset: 91513},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2886, col: 20, offset: 91500},
+												pos: position{line: 2886, col: 20, offset: 91520},
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 11, offset: 91870},
+													pos: position{line: 2898, col: 11, offset: 91890},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 12, offset: 91871},
+														pos: position{line: 2898, col: 12, offset: 91891},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 12, offset: 91871},
+																pos:        position{line: 2898, col: 12, offset: 91891},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 24, offset: 91883},
+																pos:        position{line: 2898, col: 24, offset: 91903},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 37, offset: 91896},
+																pos:        position{line: 2898, col: 37, offset: 91916},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 48, offset: 91907},
+																pos:        position{line: 2898, col: 48, offset: 91927},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 59, offset: 91918},
+																pos:        position{line: 2898, col: 59, offset: 91938},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2886, col: 30, offset: 91510},
+											pos:   position{line: 2886, col: 30, offset: 91530},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 5, offset: 91982},
+												pos: position{line: 2903, col: 5, offset: 92002},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2903, col: 5, offset: 91982},
+													pos:   position{line: 2903, col: 5, offset: 92002},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2903, col: 14, offset: 91991},
+														pos: position{line: 2903, col: 14, offset: 92011},
 														expr: &choiceExpr{
-															pos: position{line: 2904, col: 9, offset: 92001},
+															pos: position{line: 2904, col: 9, offset: 92021},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2904, col: 9, offset: 92001},
+																		pos: position{line: 2904, col: 9, offset: 92021},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				expr: &litMatcher{
-																					pos:        position{line: 2904, col: 10, offset: 92002},
+																					pos:        position{line: 2904, col: 10, offset: 92022},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2905, col: 9, offset: 92030},
+																				pos: position{line: 2905, col: 9, offset: 92050},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 92031},
+																					pos:        position{line: 2905, col: 10, offset: 92051},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2908, col: 11, offset: 92243},
+																	pos: position{line: 2908, col: 11, offset: 92263},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2908, col: 11, offset: 92243},
+																			pos:        position{line: 2908, col: 11, offset: 92263},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2908, col: 19, offset: 92251},
+																			pos: position{line: 2908, col: 19, offset: 92271},
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 21, offset: 92253},
+																				pos: position{line: 2908, col: 21, offset: 92273},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 28, offset: 92260},
+																						pos: position{line: 2908, col: 28, offset: 92280},
 																						expr: &notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 11, offset: 92380},
+																	pos: position{line: 2911, col: 11, offset: 92400},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2911, col: 11, offset: 92380},
+																		pos:        position{line: 2911, col: 11, offset: 92400},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89668},
+										pos: position{line: 2818, col: 5, offset: 89688},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89668},
+											pos: position{line: 2818, col: 5, offset: 89688},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89668},
+													pos: position{line: 2818, col: 5, offset: 89688},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89679},
+														pos: position{line: 2819, col: 9, offset: 89699},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89679},
+																pos: position{line: 2819, col: 9, offset: 89699},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89742},
+																pos:   position{line: 2822, col: 9, offset: 89762},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89054},
+																	pos: position{line: 2794, col: 18, offset: 89074},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89055},
+																		pos: position{line: 2794, col: 19, offset: 89075},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89055},
+																			pos:        position{line: 2794, col: 19, offset: 89075},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89763},
+																pos:        position{line: 2822, col: 30, offset: 89783},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89850},
+																pos: position{line: 2823, col: 9, offset: 89870},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89962},
+													pos:   position{line: 2827, col: 5, offset: 89982},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89968},
+														pos: position{line: 2827, col: 11, offset: 89988},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89968},
+															pos: position{line: 2827, col: 11, offset: 89988},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89968},
+																pos:        position{line: 2827, col: 11, offset: 89988},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90026},
+													pos: position{line: 2830, col: 5, offset: 90046},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90037},
+														pos: position{line: 2831, col: 9, offset: 90057},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90037},
+																pos:        position{line: 2831, col: 9, offset: 90057},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90086},
+																pos: position{line: 2832, col: 9, offset: 90106},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90166},
+													pos: position{line: 2836, col: 5, offset: 90186},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90177},
+														pos: position{line: 2837, col: 9, offset: 90197},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90177},
+																pos: position{line: 2837, col: 9, offset: 90197},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90177},
+																	pos:        position{line: 2837, col: 9, offset: 90197},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90191},
+																pos:        position{line: 2837, col: 23, offset: 90211},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90195},
+																pos:        position{line: 2837, col: 27, offset: 90215},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 11, offset: 93634},
+										pos: position{line: 2959, col: 11, offset: 93654},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2959, col: 11, offset: 93634},
+											pos: position{line: 2959, col: 11, offset: 93654},
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 11, offset: 93634},
+												pos:        position{line: 2959, col: 11, offset: 93654},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,21 +21607,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 82004},
+										pos: position{line: 2543, col: 5, offset: 82024},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 82004},
+											pos: position{line: 2543, col: 5, offset: 82024},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 82004},
+													pos:        position{line: 2543, col: 5, offset: 82024},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 82009},
+													pos: position{line: 2543, col: 10, offset: 82029},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 82010},
+														pos:        position{line: 2543, col: 11, offset: 82030},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,29 +21632,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82196},
+										pos: position{line: 2549, col: 5, offset: 82216},
 										run: (*parser).callonFootnoteElement40,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82196},
+											pos: position{line: 2549, col: 5, offset: 82216},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82196},
+													pos: position{line: 2549, col: 5, offset: 82216},
 													run: (*parser).callonFootnoteElement42,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82267},
+													pos: position{line: 2552, col: 5, offset: 82287},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82392},
+													pos:        position{line: 2556, col: 5, offset: 82412},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82396},
+													pos: position{line: 2556, col: 9, offset: 82416},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82397},
+														pos:        position{line: 2556, col: 10, offset: 82417},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21673,27 +21673,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90388},
+										pos: position{line: 2845, col: 5, offset: 90408},
 										run: (*parser).callonFootnoteElement49,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90398},
+											pos: position{line: 2846, col: 9, offset: 90418},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90399},
+													pos:        position{line: 2846, col: 10, offset: 90419},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90496},
+													pos: position{line: 2848, col: 13, offset: 90516},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90496},
+															pos: position{line: 2848, col: 13, offset: 90516},
 															run: (*parser).callonFootnoteElement53,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90596},
+															pos:        position{line: 2851, col: 13, offset: 90616},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21701,20 +21701,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90602},
+													pos:        position{line: 2851, col: 19, offset: 90622},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90640},
+													pos: position{line: 2854, col: 13, offset: 90660},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90640},
+															pos: position{line: 2854, col: 13, offset: 90660},
 															run: (*parser).callonFootnoteElement57,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90733},
+															pos:        position{line: 2857, col: 14, offset: 90753},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21723,18 +21723,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90777},
+													pos: position{line: 2859, col: 12, offset: 90797},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90777},
+															pos:        position{line: 2859, col: 12, offset: 90797},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90781},
+															pos: position{line: 2859, col: 16, offset: 90801},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90782},
+																pos:        position{line: 2859, col: 17, offset: 90802},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21772,10 +21772,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonFootnoteElement70,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21786,28 +21786,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonFootnoteElement74,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21816,9 +21816,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -22174,23 +22174,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80833},
+										pos: position{line: 2512, col: 5, offset: 80853},
 										run: (*parser).callonFootnoteElement150,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80833},
+													pos: position{line: 2512, col: 5, offset: 80853},
 													run: (*parser).callonFootnoteElement152,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80909},
+													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80927},
+														pos: position{line: 2516, col: 9, offset: 80947},
 														run: (*parser).callonFootnoteElement154,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80928},
+															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22202,25 +22202,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93744},
+										pos: position{line: 2964, col: 12, offset: 93764},
 										run: (*parser).callonFootnoteElement156,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93745},
+											pos: position{line: 2964, col: 13, offset: 93765},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93745},
+													pos:        position{line: 2964, col: 13, offset: 93765},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93752},
+													pos:        position{line: 2964, col: 20, offset: 93772},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93761},
+													pos:        position{line: 2964, col: 29, offset: 93781},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22229,10 +22229,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91042},
+										pos: position{line: 2867, col: 12, offset: 91062},
 										run: (*parser).callonFootnoteElement161,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91042},
+											pos:        position{line: 2867, col: 12, offset: 91062},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22364,55 +22364,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91620},
+										pos: position{line: 2890, col: 23, offset: 91640},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91620},
+											pos: position{line: 2890, col: 23, offset: 91640},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91620},
+													pos: position{line: 2890, col: 23, offset: 91640},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91621},
+														pos:        position{line: 2890, col: 24, offset: 91641},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91625},
+													pos:   position{line: 2890, col: 28, offset: 91645},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91870},
+														pos: position{line: 2898, col: 11, offset: 91890},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91871},
+															pos: position{line: 2898, col: 12, offset: 91891},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91871},
+																	pos:        position{line: 2898, col: 12, offset: 91891},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91883},
+																	pos:        position{line: 2898, col: 24, offset: 91903},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91896},
+																	pos:        position{line: 2898, col: 37, offset: 91916},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91907},
+																	pos:        position{line: 2898, col: 48, offset: 91927},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91918},
+																	pos:        position{line: 2898, col: 59, offset: 91938},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22422,38 +22422,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91641},
+													pos:   position{line: 2890, col: 44, offset: 91661},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22464,27 +22464,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22493,11 +22493,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -22892,10 +22892,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23097,48 +23097,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 13, offset: 91493},
+										pos: position{line: 2886, col: 13, offset: 91513},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2886, col: 13, offset: 91493},
+											pos: position{line: 2886, col: 13, offset: 91513},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2886, col: 13, offset: 91493},
+													pos:   position{line: 2886, col: 13, offset: 91513},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2886, col: 20, offset: 91500},
+														pos: position{line: 2886, col: 20, offset: 91520},
 														expr: &actionExpr{
-															pos: position{line: 2898, col: 11, offset: 91870},
+															pos: position{line: 2898, col: 11, offset: 91890},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 12, offset: 91871},
+																pos: position{line: 2898, col: 12, offset: 91891},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 12, offset: 91871},
+																		pos:        position{line: 2898, col: 12, offset: 91891},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 24, offset: 91883},
+																		pos:        position{line: 2898, col: 24, offset: 91903},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 37, offset: 91896},
+																		pos:        position{line: 2898, col: 37, offset: 91916},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 48, offset: 91907},
+																		pos:        position{line: 2898, col: 48, offset: 91927},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 59, offset: 91918},
+																		pos:        position{line: 2898, col: 59, offset: 91938},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23149,38 +23149,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2886, col: 30, offset: 91510},
+													pos:   position{line: 2886, col: 30, offset: 91530},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23191,27 +23191,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23220,11 +23220,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -23619,10 +23619,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23665,48 +23665,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 13, offset: 91493},
+										pos: position{line: 2886, col: 13, offset: 91513},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2886, col: 13, offset: 91493},
+											pos: position{line: 2886, col: 13, offset: 91513},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2886, col: 13, offset: 91493},
+													pos:   position{line: 2886, col: 13, offset: 91513},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2886, col: 20, offset: 91500},
+														pos: position{line: 2886, col: 20, offset: 91520},
 														expr: &actionExpr{
-															pos: position{line: 2898, col: 11, offset: 91870},
+															pos: position{line: 2898, col: 11, offset: 91890},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 12, offset: 91871},
+																pos: position{line: 2898, col: 12, offset: 91891},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 12, offset: 91871},
+																		pos:        position{line: 2898, col: 12, offset: 91891},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 24, offset: 91883},
+																		pos:        position{line: 2898, col: 24, offset: 91903},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 37, offset: 91896},
+																		pos:        position{line: 2898, col: 37, offset: 91916},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 48, offset: 91907},
+																		pos:        position{line: 2898, col: 48, offset: 91927},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 59, offset: 91918},
+																		pos:        position{line: 2898, col: 59, offset: 91938},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23717,38 +23717,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2886, col: 30, offset: 91510},
+													pos:   position{line: 2886, col: 30, offset: 91530},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23759,27 +23759,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23788,11 +23788,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -24187,10 +24187,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24242,55 +24242,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91620},
+										pos: position{line: 2890, col: 23, offset: 91640},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91620},
+											pos: position{line: 2890, col: 23, offset: 91640},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91620},
+													pos: position{line: 2890, col: 23, offset: 91640},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91621},
+														pos:        position{line: 2890, col: 24, offset: 91641},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91625},
+													pos:   position{line: 2890, col: 28, offset: 91645},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91870},
+														pos: position{line: 2898, col: 11, offset: 91890},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91871},
+															pos: position{line: 2898, col: 12, offset: 91891},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91871},
+																	pos:        position{line: 2898, col: 12, offset: 91891},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91883},
+																	pos:        position{line: 2898, col: 24, offset: 91903},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91896},
+																	pos:        position{line: 2898, col: 37, offset: 91916},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91907},
+																	pos:        position{line: 2898, col: 48, offset: 91927},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91918},
+																	pos:        position{line: 2898, col: 59, offset: 91938},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24300,38 +24300,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91641},
+													pos:   position{line: 2890, col: 44, offset: 91661},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24342,27 +24342,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24371,11 +24371,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -24770,10 +24770,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24813,55 +24813,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91620},
+										pos: position{line: 2890, col: 23, offset: 91640},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91620},
+											pos: position{line: 2890, col: 23, offset: 91640},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91620},
+													pos: position{line: 2890, col: 23, offset: 91640},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91621},
+														pos:        position{line: 2890, col: 24, offset: 91641},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91625},
+													pos:   position{line: 2890, col: 28, offset: 91645},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91870},
+														pos: position{line: 2898, col: 11, offset: 91890},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91871},
+															pos: position{line: 2898, col: 12, offset: 91891},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91871},
+																	pos:        position{line: 2898, col: 12, offset: 91891},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91883},
+																	pos:        position{line: 2898, col: 24, offset: 91903},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91896},
+																	pos:        position{line: 2898, col: 37, offset: 91916},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91907},
+																	pos:        position{line: 2898, col: 48, offset: 91927},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91918},
+																	pos:        position{line: 2898, col: 59, offset: 91938},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24871,38 +24871,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91641},
+													pos:   position{line: 2890, col: 44, offset: 91661},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 91982},
+														pos: position{line: 2903, col: 5, offset: 92002},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 91982},
+															pos:   position{line: 2903, col: 5, offset: 92002},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 91991},
+																pos: position{line: 2903, col: 14, offset: 92011},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92001},
+																	pos: position{line: 2904, col: 9, offset: 92021},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92001},
+																			pos: position{line: 2904, col: 9, offset: 92021},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92001},
+																				pos: position{line: 2904, col: 9, offset: 92021},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92001},
+																						pos: position{line: 2904, col: 9, offset: 92021},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92002},
+																							pos:        position{line: 2904, col: 10, offset: 92022},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92030},
+																						pos: position{line: 2905, col: 9, offset: 92050},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92031},
+																							pos:        position{line: 2905, col: 10, offset: 92051},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24913,27 +24913,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92243},
+																			pos: position{line: 2908, col: 11, offset: 92263},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92243},
+																					pos:        position{line: 2908, col: 11, offset: 92263},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92251},
+																					pos: position{line: 2908, col: 19, offset: 92271},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92253},
+																						pos: position{line: 2908, col: 21, offset: 92273},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92253},
+																								pos: position{line: 2908, col: 21, offset: 92273},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24942,11 +24942,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92260},
+																								pos: position{line: 2908, col: 28, offset: 92280},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -25341,10 +25341,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92380},
+																			pos: position{line: 2911, col: 11, offset: 92400},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92380},
+																				pos:        position{line: 2911, col: 11, offset: 92400},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25378,55 +25378,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 27, offset: 91755},
+								pos: position{line: 2894, col: 27, offset: 91775},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 27, offset: 91755},
+									pos: position{line: 2894, col: 27, offset: 91775},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2894, col: 27, offset: 91755},
+											pos: position{line: 2894, col: 27, offset: 91775},
 											expr: &litMatcher{
-												pos:        position{line: 2894, col: 28, offset: 91756},
+												pos:        position{line: 2894, col: 28, offset: 91776},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 32, offset: 91760},
+											pos:   position{line: 2894, col: 32, offset: 91780},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2898, col: 11, offset: 91870},
+												pos: position{line: 2898, col: 11, offset: 91890},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2898, col: 12, offset: 91871},
+													pos: position{line: 2898, col: 12, offset: 91891},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2898, col: 12, offset: 91871},
+															pos:        position{line: 2898, col: 12, offset: 91891},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 24, offset: 91883},
+															pos:        position{line: 2898, col: 24, offset: 91903},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 37, offset: 91896},
+															pos:        position{line: 2898, col: 37, offset: 91916},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 48, offset: 91907},
+															pos:        position{line: 2898, col: 48, offset: 91927},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 59, offset: 91918},
+															pos:        position{line: 2898, col: 59, offset: 91938},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25436,26 +25436,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 48, offset: 91776},
+											pos:   position{line: 2894, col: 48, offset: 91796},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2919, col: 5, offset: 92666},
+												pos: position{line: 2919, col: 5, offset: 92686},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2919, col: 5, offset: 92666},
+													pos:   position{line: 2919, col: 5, offset: 92686},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2919, col: 14, offset: 92675},
+														pos: position{line: 2919, col: 14, offset: 92695},
 														expr: &choiceExpr{
-															pos: position{line: 2920, col: 9, offset: 92685},
+															pos: position{line: 2920, col: 9, offset: 92705},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2920, col: 9, offset: 92685},
+																	pos: position{line: 2920, col: 9, offset: 92705},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2920, col: 9, offset: 92685},
+																		pos: position{line: 2920, col: 9, offset: 92705},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2920, col: 10, offset: 92686},
+																			pos:        position{line: 2920, col: 10, offset: 92706},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25464,21 +25464,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92777},
+																	pos: position{line: 2923, col: 11, offset: 92797},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2923, col: 11, offset: 92777},
+																		pos: position{line: 2923, col: 11, offset: 92797},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92777},
+																				pos:        position{line: 2923, col: 11, offset: 92797},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2923, col: 15, offset: 92781},
+																				pos: position{line: 2923, col: 15, offset: 92801},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 15, offset: 92781},
+																					pos:        position{line: 2923, col: 15, offset: 92801},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25486,7 +25486,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2923, col: 39, offset: 92805},
+																				pos:        position{line: 2923, col: 39, offset: 92825},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25495,25 +25495,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92870},
+																	pos: position{line: 2926, col: 11, offset: 92890},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 11, offset: 92870},
+																		pos:        position{line: 2926, col: 11, offset: 92890},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 92935},
+																	pos: position{line: 2929, col: 11, offset: 92955},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2929, col: 11, offset: 92935},
+																		pos: position{line: 2929, col: 11, offset: 92955},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2929, col: 11, offset: 92935},
+																				pos: position{line: 2929, col: 11, offset: 92955},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2929, col: 11, offset: 92935},
+																					pos:        position{line: 2929, col: 11, offset: 92955},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25521,9 +25521,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2929, col: 21, offset: 92945},
+																				pos: position{line: 2929, col: 21, offset: 92965},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2929, col: 23, offset: 92947},
+																					pos:        position{line: 2929, col: 23, offset: 92967},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25919,10 +25919,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2934, col: 11, offset: 93088},
+																	pos: position{line: 2934, col: 11, offset: 93108},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2934, col: 11, offset: 93088},
+																		pos:        position{line: 2934, col: 11, offset: 93108},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25975,10 +25975,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26145,12 +26145,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26193,28 +26193,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26223,9 +26223,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -26255,10 +26255,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26299,12 +26299,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26376,12 +26376,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2959, col: 11, offset: 93634},
+																			pos: position{line: 2959, col: 11, offset: 93654},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 11, offset: 93634},
+																				pos:        position{line: 2959, col: 11, offset: 93654},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26425,28 +26425,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26455,9 +26455,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -26515,12 +26515,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26563,28 +26563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26593,9 +26593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -26660,28 +26660,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26690,9 +26690,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -26755,10 +26755,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26767,28 +26767,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26797,9 +26797,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -26813,18 +26813,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26833,28 +26833,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26863,9 +26863,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -26884,12 +26884,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2959, col: 11, offset: 93634},
+																			pos: position{line: 2959, col: 11, offset: 93654},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2959, col: 11, offset: 93634},
+																				pos: position{line: 2959, col: 11, offset: 93654},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 11, offset: 93634},
+																					pos:        position{line: 2959, col: 11, offset: 93654},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26916,28 +26916,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26946,9 +26946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -27006,9 +27006,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&labeledExpr{
@@ -27032,18 +27032,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2972, col: 11, offset: 93907},
+																	pos: position{line: 2972, col: 11, offset: 93927},
 																	expr: &anyMatcher{
-																		line: 2972, col: 13, offset: 93909,
+																		line: 2972, col: 13, offset: 93929,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27052,28 +27052,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27082,9 +27082,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -27117,10 +27117,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27287,12 +27287,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27335,28 +27335,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27365,9 +27365,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -27397,10 +27397,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27441,12 +27441,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27518,12 +27518,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2959, col: 11, offset: 93634},
+																									pos: position{line: 2959, col: 11, offset: 93654},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 11, offset: 93634},
+																										pos:        position{line: 2959, col: 11, offset: 93654},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27567,28 +27567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27597,9 +27597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -27657,12 +27657,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27705,28 +27705,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27735,9 +27735,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -27802,28 +27802,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27832,9 +27832,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -27897,10 +27897,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27909,28 +27909,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27939,9 +27939,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -27955,18 +27955,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2972, col: 11, offset: 93907},
+																													pos: position{line: 2972, col: 11, offset: 93927},
 																													expr: &anyMatcher{
-																														line: 2972, col: 13, offset: 93909,
+																														line: 2972, col: 13, offset: 93929,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27975,28 +27975,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28005,9 +28005,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -28026,12 +28026,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93634},
+																									pos: position{line: 2959, col: 11, offset: 93654},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93634},
+																										pos: position{line: 2959, col: 11, offset: 93654},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93634},
+																											pos:        position{line: 2959, col: 11, offset: 93654},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28058,28 +28058,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28088,9 +28088,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -28151,10 +28151,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28321,12 +28321,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28369,28 +28369,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28399,9 +28399,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -28431,10 +28431,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28475,12 +28475,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28552,12 +28552,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2959, col: 11, offset: 93634},
+																									pos: position{line: 2959, col: 11, offset: 93654},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 11, offset: 93634},
+																										pos:        position{line: 2959, col: 11, offset: 93654},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28601,28 +28601,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28631,9 +28631,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -28691,12 +28691,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28739,28 +28739,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28769,9 +28769,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -28836,28 +28836,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28866,9 +28866,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -28931,10 +28931,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28943,28 +28943,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28973,9 +28973,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -28989,18 +28989,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2972, col: 11, offset: 93907},
+																													pos: position{line: 2972, col: 11, offset: 93927},
 																													expr: &anyMatcher{
-																														line: 2972, col: 13, offset: 93909,
+																														line: 2972, col: 13, offset: 93929,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29009,28 +29009,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29039,9 +29039,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -29060,12 +29060,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93634},
+																									pos: position{line: 2959, col: 11, offset: 93654},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93634},
+																										pos: position{line: 2959, col: 11, offset: 93654},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93634},
+																											pos:        position{line: 2959, col: 11, offset: 93654},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29092,28 +29092,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29122,9 +29122,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -29149,36 +29149,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81287},
+										pos: position{line: 2525, col: 22, offset: 81307},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81508},
+													pos:        position{line: 2530, col: 31, offset: 81528},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81513},
+													pos: position{line: 2530, col: 36, offset: 81533},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81514},
+														pos:        position{line: 2530, col: 37, offset: 81534},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81314},
+													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91260},
+														pos: position{line: 2874, col: 13, offset: 91280},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91260},
+																pos:        position{line: 2874, col: 13, offset: 91280},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29188,28 +29188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29218,9 +29218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -29243,18 +29243,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2972, col: 11, offset: 93907},
+																	pos: position{line: 2972, col: 11, offset: 93927},
 																	expr: &anyMatcher{
-																		line: 2972, col: 13, offset: 93909,
+																		line: 2972, col: 13, offset: 93929,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29263,28 +29263,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29293,9 +29293,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -29318,10 +29318,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29330,25 +29330,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29370,10 +29370,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29540,12 +29540,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29568,10 +29568,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29612,12 +29612,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29668,12 +29668,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29734,28 +29734,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29764,9 +29764,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -29813,10 +29813,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29824,25 +29824,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29851,9 +29851,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -29875,7 +29875,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2809, col: 13, offset: 89521},
+																				pos:        position{line: 2809, col: 13, offset: 89541},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29925,10 +29925,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29937,28 +29937,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29967,9 +29967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30014,10 +30014,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30026,28 +30026,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30056,9 +30056,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30099,10 +30099,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30111,28 +30111,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30141,9 +30141,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30188,10 +30188,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30200,28 +30200,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30230,9 +30230,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30277,10 +30277,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30289,28 +30289,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30319,9 +30319,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30366,10 +30366,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30378,28 +30378,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30408,9 +30408,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30455,10 +30455,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30467,28 +30467,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30497,9 +30497,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30544,10 +30544,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30556,28 +30556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30586,9 +30586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30633,10 +30633,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30645,28 +30645,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30675,9 +30675,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -30714,10 +30714,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30726,28 +30726,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30756,9 +30756,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -30767,21 +30767,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84973},
+																pos: position{line: 2657, col: 19, offset: 84993},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84973},
+																		pos:        position{line: 2657, col: 19, offset: 84993},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 84980},
+																		pos: position{line: 2657, col: 26, offset: 85000},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30790,28 +30790,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30820,9 +30820,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -30836,12 +30836,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 14, offset: 91327},
+														pos: position{line: 2878, col: 14, offset: 91347},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2878, col: 14, offset: 91327},
+															pos: position{line: 2878, col: 14, offset: 91347},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 14, offset: 91327},
+																pos:        position{line: 2878, col: 14, offset: 91347},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30851,28 +30851,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30881,9 +30881,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -30918,10 +30918,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93573},
+												pos: position{line: 2955, col: 10, offset: 93593},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93573},
+													pos:        position{line: 2955, col: 10, offset: 93593},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30930,25 +30930,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2964, col: 12, offset: 93744},
+											pos: position{line: 2964, col: 12, offset: 93764},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2964, col: 13, offset: 93745},
+												pos: position{line: 2964, col: 13, offset: 93765},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2964, col: 13, offset: 93745},
+														pos:        position{line: 2964, col: 13, offset: 93765},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2964, col: 20, offset: 93752},
+														pos:        position{line: 2964, col: 20, offset: 93772},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2964, col: 29, offset: 93761},
+														pos:        position{line: 2964, col: 29, offset: 93781},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30969,10 +30969,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30981,28 +30981,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31011,9 +31011,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -31038,18 +31038,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31058,28 +31058,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31088,9 +31088,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -31126,9 +31126,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
@@ -31154,10 +31154,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31324,12 +31324,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31372,28 +31372,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31402,9 +31402,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -31434,10 +31434,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31478,12 +31478,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31555,12 +31555,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2959, col: 11, offset: 93634},
+																			pos: position{line: 2959, col: 11, offset: 93654},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 11, offset: 93634},
+																				pos:        position{line: 2959, col: 11, offset: 93654},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31604,28 +31604,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31634,9 +31634,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -31694,12 +31694,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31742,28 +31742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31772,9 +31772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -31839,28 +31839,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31869,9 +31869,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -31934,10 +31934,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31946,28 +31946,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31976,9 +31976,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -31992,18 +31992,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93907},
+																							pos: position{line: 2972, col: 11, offset: 93927},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93909,
+																								line: 2972, col: 13, offset: 93929,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32012,28 +32012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32042,9 +32042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -32063,12 +32063,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2959, col: 11, offset: 93634},
+																			pos: position{line: 2959, col: 11, offset: 93654},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2959, col: 11, offset: 93634},
+																				pos: position{line: 2959, col: 11, offset: 93654},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 11, offset: 93634},
+																					pos:        position{line: 2959, col: 11, offset: 93654},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32095,28 +32095,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32125,9 +32125,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -32168,18 +32168,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2972, col: 11, offset: 93907},
+													pos: position{line: 2972, col: 11, offset: 93927},
 													expr: &anyMatcher{
-														line: 2972, col: 13, offset: 93909,
+														line: 2972, col: 13, offset: 93929,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32188,28 +32188,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32218,9 +32218,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -32285,10 +32285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32297,28 +32297,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32327,9 +32327,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -32390,10 +32390,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32402,28 +32402,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32432,9 +32432,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -32488,10 +32488,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32500,28 +32500,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32530,9 +32530,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -32604,10 +32604,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32616,28 +32616,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32646,9 +32646,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -32664,9 +32664,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -32682,21 +32682,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32706,28 +32706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32736,9 +32736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -32800,10 +32800,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32812,28 +32812,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32842,9 +32842,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -32917,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -33033,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -33093,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -33111,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -33232,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -33292,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -33346,10 +33346,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33358,28 +33358,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33388,9 +33388,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -33424,10 +33424,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33436,28 +33436,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33466,9 +33466,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -33486,21 +33486,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33510,28 +33510,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33540,9 +33540,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -33570,10 +33570,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33582,28 +33582,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33612,9 +33612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -33671,10 +33671,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33683,28 +33683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33713,9 +33713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -33787,10 +33787,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33799,28 +33799,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33829,9 +33829,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -33847,9 +33847,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -33865,21 +33865,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33889,28 +33889,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33919,9 +33919,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -33986,10 +33986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33998,28 +33998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34028,9 +34028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -34046,9 +34046,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -34104,10 +34104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34116,28 +34116,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34146,9 +34146,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -34220,10 +34220,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34232,28 +34232,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34262,9 +34262,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -34280,9 +34280,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -34298,21 +34298,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34322,28 +34322,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34352,9 +34352,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -34419,10 +34419,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34431,28 +34431,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34461,9 +34461,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -34479,9 +34479,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -34537,10 +34537,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34549,28 +34549,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34579,9 +34579,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -34653,10 +34653,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34665,28 +34665,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34695,9 +34695,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -34713,9 +34713,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -34731,21 +34731,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34755,28 +34755,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34785,9 +34785,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -34852,10 +34852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34864,28 +34864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34894,9 +34894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -34912,9 +34912,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -34948,18 +34948,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93907},
+																					pos: position{line: 2972, col: 11, offset: 93927},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93909,
+																						line: 2972, col: 13, offset: 93929,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34968,28 +34968,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34998,9 +34998,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -35019,12 +35019,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 14, offset: 91327},
+																		pos: position{line: 2878, col: 14, offset: 91347},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 14, offset: 91327},
+																			pos: position{line: 2878, col: 14, offset: 91347},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 14, offset: 91327},
+																				pos:        position{line: 2878, col: 14, offset: 91347},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35034,28 +35034,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35064,9 +35064,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -35098,18 +35098,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2972, col: 11, offset: 93907},
+																								pos: position{line: 2972, col: 11, offset: 93927},
 																								expr: &anyMatcher{
-																									line: 2972, col: 13, offset: 93909,
+																									line: 2972, col: 13, offset: 93929,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35118,28 +35118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35148,9 +35148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -35169,12 +35169,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 14, offset: 91327},
+																					pos: position{line: 2878, col: 14, offset: 91347},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 14, offset: 91327},
+																						pos: position{line: 2878, col: 14, offset: 91347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 14, offset: 91327},
+																							pos:        position{line: 2878, col: 14, offset: 91347},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35184,28 +35184,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93971},
+																				pos: position{line: 2977, col: 8, offset: 93991},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93744},
+																						pos: position{line: 2964, col: 12, offset: 93764},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93745},
+																							pos: position{line: 2964, col: 13, offset: 93765},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93745},
+																									pos:        position{line: 2964, col: 13, offset: 93765},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93752},
+																									pos:        position{line: 2964, col: 20, offset: 93772},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93761},
+																									pos:        position{line: 2964, col: 29, offset: 93781},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35214,9 +35214,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -35234,12 +35234,12 @@ var g = &grammar{
 																				pos:   position{line: 1824, col: 5, offset: 58892},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 14, offset: 91327},
+																					pos: position{line: 2878, col: 14, offset: 91347},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 14, offset: 91327},
+																						pos: position{line: 2878, col: 14, offset: 91347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 14, offset: 91327},
+																							pos:        position{line: 2878, col: 14, offset: 91347},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35253,28 +35253,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93971},
+																				pos: position{line: 2977, col: 8, offset: 93991},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93744},
+																						pos: position{line: 2964, col: 12, offset: 93764},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93745},
+																							pos: position{line: 2964, col: 13, offset: 93765},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93745},
+																									pos:        position{line: 2964, col: 13, offset: 93765},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93752},
+																									pos:        position{line: 2964, col: 20, offset: 93772},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93761},
+																									pos:        position{line: 2964, col: 29, offset: 93781},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35283,9 +35283,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -35332,10 +35332,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35344,28 +35344,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35374,9 +35374,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -35424,10 +35424,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35436,28 +35436,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35466,9 +35466,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -35477,9 +35477,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -35495,21 +35495,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35519,28 +35519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35549,9 +35549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -35596,10 +35596,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93573},
+																					pos: position{line: 2955, col: 10, offset: 93593},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93573},
+																						pos:        position{line: 2955, col: 10, offset: 93593},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35608,28 +35608,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93971},
+																				pos: position{line: 2977, col: 8, offset: 93991},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93744},
+																						pos: position{line: 2964, col: 12, offset: 93764},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93745},
+																							pos: position{line: 2964, col: 13, offset: 93765},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93745},
+																									pos:        position{line: 2964, col: 13, offset: 93765},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93752},
+																									pos:        position{line: 2964, col: 20, offset: 93772},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93761},
+																									pos:        position{line: 2964, col: 29, offset: 93781},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35638,9 +35638,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -35649,9 +35649,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -35707,10 +35707,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35719,28 +35719,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35749,9 +35749,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -35823,10 +35823,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35835,28 +35835,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35865,9 +35865,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -35883,9 +35883,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -35901,21 +35901,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35925,28 +35925,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35955,9 +35955,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -36022,10 +36022,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36034,28 +36034,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36064,9 +36064,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -36082,9 +36082,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -36140,10 +36140,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36152,28 +36152,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36182,9 +36182,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -36256,10 +36256,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36268,28 +36268,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36298,9 +36298,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -36316,9 +36316,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -36334,21 +36334,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36358,28 +36358,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36388,9 +36388,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -36455,10 +36455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36467,28 +36467,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36497,9 +36497,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -36515,9 +36515,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -36573,10 +36573,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36585,28 +36585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36615,9 +36615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -36689,10 +36689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93573},
+																												pos: position{line: 2955, col: 10, offset: 93593},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93573},
+																													pos:        position{line: 2955, col: 10, offset: 93593},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36701,28 +36701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93971},
+																											pos: position{line: 2977, col: 8, offset: 93991},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93744},
+																													pos: position{line: 2964, col: 12, offset: 93764},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93745},
+																														pos: position{line: 2964, col: 13, offset: 93765},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36731,9 +36731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93921},
+																													pos: position{line: 2974, col: 8, offset: 93941},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93922,
+																														line: 2974, col: 9, offset: 93942,
 																													},
 																												},
 																											},
@@ -36749,9 +36749,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -36767,21 +36767,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93907},
+																						pos: position{line: 2972, col: 11, offset: 93927},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93909,
+																							line: 2972, col: 13, offset: 93929,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91260},
+																							pos: position{line: 2874, col: 13, offset: 91280},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91260},
+																								pos: position{line: 2874, col: 13, offset: 91280},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91260},
+																									pos:        position{line: 2874, col: 13, offset: 91280},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36791,28 +36791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36821,9 +36821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -36888,10 +36888,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36900,28 +36900,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36930,9 +36930,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -36948,9 +36948,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -36961,27 +36961,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2760, col: 18, offset: 87880},
+										pos: position{line: 2760, col: 18, offset: 87900},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2761, col: 9, offset: 87890},
+											pos: position{line: 2761, col: 9, offset: 87910},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2761, col: 9, offset: 87890},
+													pos: position{line: 2761, col: 9, offset: 87910},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2761, col: 9, offset: 87890},
+															pos:        position{line: 2761, col: 9, offset: 87910},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2761, col: 15, offset: 87896},
+															pos: position{line: 2761, col: 15, offset: 87916},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36990,28 +36990,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93971},
+															pos: position{line: 2977, col: 8, offset: 93991},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93744},
+																	pos: position{line: 2964, col: 12, offset: 93764},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93745},
+																		pos: position{line: 2964, col: 13, offset: 93765},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93745},
+																				pos:        position{line: 2964, col: 13, offset: 93765},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93752},
+																				pos:        position{line: 2964, col: 20, offset: 93772},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93761},
+																				pos:        position{line: 2964, col: 29, offset: 93781},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37020,9 +37020,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -37030,43 +37030,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2762, col: 11, offset: 87929},
+													pos: position{line: 2762, col: 11, offset: 87949},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2762, col: 12, offset: 87930},
+															pos: position{line: 2762, col: 12, offset: 87950},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2762, col: 12, offset: 87930},
+																	pos:        position{line: 2762, col: 12, offset: 87950},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 20, offset: 87938},
+																	pos:        position{line: 2762, col: 20, offset: 87958},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 30, offset: 87948},
+																	pos:        position{line: 2762, col: 30, offset: 87968},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 38, offset: 87956},
+																	pos:        position{line: 2762, col: 38, offset: 87976},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 48, offset: 87966},
+																	pos:        position{line: 2762, col: 48, offset: 87986},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 56, offset: 87974},
+																	pos:        position{line: 2762, col: 56, offset: 87994},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37074,12 +37074,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2762, col: 65, offset: 87983},
+															pos: position{line: 2762, col: 65, offset: 88003},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37088,28 +37088,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93971},
+															pos: position{line: 2977, col: 8, offset: 93991},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93744},
+																	pos: position{line: 2964, col: 12, offset: 93764},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93745},
+																		pos: position{line: 2964, col: 13, offset: 93765},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93745},
+																				pos:        position{line: 2964, col: 13, offset: 93765},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93752},
+																				pos:        position{line: 2964, col: 20, offset: 93772},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93761},
+																				pos:        position{line: 2964, col: 29, offset: 93781},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37118,38 +37118,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2762, col: 76, offset: 87994},
+															pos: position{line: 2762, col: 76, offset: 88014},
 															expr: &choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37158,9 +37158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -37180,24 +37180,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84816},
+										pos: position{line: 2651, col: 5, offset: 84836},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84816},
+											pos: position{line: 2651, col: 5, offset: 84836},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84973},
+													pos:        position{line: 2657, col: 19, offset: 84993},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 84980},
+													pos: position{line: 2657, col: 26, offset: 85000},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37206,28 +37206,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37236,20 +37236,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84840},
+													pos:   position{line: 2652, col: 5, offset: 84860},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84846},
+														pos: position{line: 2652, col: 11, offset: 84866},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84847},
+															pos: position{line: 2652, col: 12, offset: 84867},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37258,18 +37258,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2972, col: 11, offset: 93907},
+																				pos: position{line: 2972, col: 11, offset: 93927},
 																				expr: &anyMatcher{
-																					line: 2972, col: 13, offset: 93909,
+																					line: 2972, col: 13, offset: 93929,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93573},
+																					pos: position{line: 2955, col: 10, offset: 93593},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93573},
+																						pos:        position{line: 2955, col: 10, offset: 93593},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37278,28 +37278,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93971},
+																				pos: position{line: 2977, col: 8, offset: 93991},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93744},
+																						pos: position{line: 2964, col: 12, offset: 93764},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93745},
+																							pos: position{line: 2964, col: 13, offset: 93765},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93745},
+																									pos:        position{line: 2964, col: 13, offset: 93765},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93752},
+																									pos:        position{line: 2964, col: 20, offset: 93772},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93761},
+																									pos:        position{line: 2964, col: 29, offset: 93781},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37308,9 +37308,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -37319,32 +37319,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85092},
+																	pos: position{line: 2664, col: 5, offset: 85112},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85092},
+																		pos: position{line: 2664, col: 5, offset: 85112},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85092},
+																				pos: position{line: 2664, col: 5, offset: 85112},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85053},
+																					pos: position{line: 2661, col: 22, offset: 85073},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84973},
+																							pos: position{line: 2657, col: 19, offset: 84993},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84973},
+																									pos:        position{line: 2657, col: 19, offset: 84993},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 84980},
+																									pos: position{line: 2657, col: 26, offset: 85000},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93573},
+																										pos: position{line: 2955, col: 10, offset: 93593},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93573},
+																											pos:        position{line: 2955, col: 10, offset: 93593},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37353,28 +37353,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37383,9 +37383,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -37393,59 +37393,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85115},
+																				pos:   position{line: 2665, col: 5, offset: 85135},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85133},
+																					pos: position{line: 2666, col: 9, offset: 85153},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85134},
+																							pos: position{line: 2666, col: 10, offset: 85154},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85134},
+																								pos:   position{line: 2666, col: 10, offset: 85154},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85141},
+																									pos: position{line: 2666, col: 17, offset: 85161},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85337},
+																											pos: position{line: 2674, col: 21, offset: 85357},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85337},
+																												pos: position{line: 2674, col: 21, offset: 85357},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85337},
+																														pos:   position{line: 2674, col: 21, offset: 85357},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85343},
+																															pos: position{line: 2674, col: 27, offset: 85363},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85418},
+																																pos: position{line: 2679, col: 5, offset: 85438},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85418},
+																																	pos: position{line: 2679, col: 5, offset: 85438},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85418},
+																																			pos:        position{line: 2679, col: 5, offset: 85438},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85422},
+																																			pos: position{line: 2679, col: 9, offset: 85442},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2955, col: 10, offset: 93573},
+																																				pos: position{line: 2955, col: 10, offset: 93593},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2955, col: 10, offset: 93573},
+																																					pos:        position{line: 2955, col: 10, offset: 93593},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37454,21 +37454,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85429},
+																																			pos:   position{line: 2679, col: 16, offset: 85449},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85629},
+																																				pos: position{line: 2685, col: 5, offset: 85649},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85629},
+																																					pos:   position{line: 2685, col: 5, offset: 85649},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85638},
+																																						pos: position{line: 2685, col: 14, offset: 85658},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85638},
+																																							pos: position{line: 2685, col: 14, offset: 85658},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85638},
+																																								pos:        position{line: 2685, col: 14, offset: 85658},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37485,28 +37485,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2977, col: 8, offset: 93971},
+																														pos: position{line: 2977, col: 8, offset: 93991},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2964, col: 12, offset: 93744},
+																																pos: position{line: 2964, col: 12, offset: 93764},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2964, col: 13, offset: 93745},
+																																	pos: position{line: 2964, col: 13, offset: 93765},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 13, offset: 93745},
+																																			pos:        position{line: 2964, col: 13, offset: 93765},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 20, offset: 93752},
+																																			pos:        position{line: 2964, col: 20, offset: 93772},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 29, offset: 93761},
+																																			pos:        position{line: 2964, col: 29, offset: 93781},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37515,9 +37515,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2974, col: 8, offset: 93921},
+																																pos: position{line: 2974, col: 8, offset: 93941},
 																																expr: &anyMatcher{
-																																	line: 2974, col: 9, offset: 93922,
+																																	line: 2974, col: 9, offset: 93942,
 																																},
 																															},
 																														},
@@ -37526,40 +37526,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85774},
+																											pos: position{line: 2691, col: 24, offset: 85794},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85774},
+																												pos:   position{line: 2691, col: 24, offset: 85794},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85780},
+																													pos: position{line: 2691, col: 30, offset: 85800},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85856},
+																														pos: position{line: 2696, col: 5, offset: 85876},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85856},
+																															pos: position{line: 2696, col: 5, offset: 85876},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85856},
+																																	pos: position{line: 2696, col: 5, offset: 85876},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85053},
+																																		pos: position{line: 2661, col: 22, offset: 85073},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84973},
+																																				pos: position{line: 2657, col: 19, offset: 84993},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84973},
+																																						pos:        position{line: 2657, col: 19, offset: 84993},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 84980},
+																																						pos: position{line: 2657, col: 26, offset: 85000},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2955, col: 10, offset: 93573},
+																																							pos: position{line: 2955, col: 10, offset: 93593},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2955, col: 10, offset: 93573},
+																																								pos:        position{line: 2955, col: 10, offset: 93593},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37568,28 +37568,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2977, col: 8, offset: 93971},
+																																						pos: position{line: 2977, col: 8, offset: 93991},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2964, col: 12, offset: 93744},
+																																								pos: position{line: 2964, col: 12, offset: 93764},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2964, col: 13, offset: 93745},
+																																									pos: position{line: 2964, col: 13, offset: 93765},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 13, offset: 93745},
+																																											pos:        position{line: 2964, col: 13, offset: 93765},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 20, offset: 93752},
+																																											pos:        position{line: 2964, col: 20, offset: 93772},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 29, offset: 93761},
+																																											pos:        position{line: 2964, col: 29, offset: 93781},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37598,9 +37598,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2974, col: 8, offset: 93921},
+																																								pos: position{line: 2974, col: 8, offset: 93941},
 																																								expr: &anyMatcher{
-																																									line: 2974, col: 9, offset: 93922,
+																																									line: 2974, col: 9, offset: 93942,
 																																								},
 																																							},
 																																						},
@@ -37608,16 +37608,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2974, col: 8, offset: 93921},
+																																				pos: position{line: 2974, col: 8, offset: 93941},
 																																				expr: &anyMatcher{
-																																					line: 2974, col: 9, offset: 93922,
+																																					line: 2974, col: 9, offset: 93942,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85879},
+																																	pos: position{line: 2697, col: 5, offset: 85899},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37625,18 +37625,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2972, col: 11, offset: 93907},
+																																					pos: position{line: 2972, col: 11, offset: 93927},
 																																					expr: &anyMatcher{
-																																						line: 2972, col: 13, offset: 93909,
+																																						line: 2972, col: 13, offset: 93929,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2955, col: 10, offset: 93573},
+																																						pos: position{line: 2955, col: 10, offset: 93593},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2955, col: 10, offset: 93573},
+																																							pos:        position{line: 2955, col: 10, offset: 93593},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37645,28 +37645,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2977, col: 8, offset: 93971},
+																																					pos: position{line: 2977, col: 8, offset: 93991},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2964, col: 12, offset: 93744},
+																																							pos: position{line: 2964, col: 12, offset: 93764},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2964, col: 13, offset: 93745},
+																																								pos: position{line: 2964, col: 13, offset: 93765},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 13, offset: 93745},
+																																										pos:        position{line: 2964, col: 13, offset: 93765},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 20, offset: 93752},
+																																										pos:        position{line: 2964, col: 20, offset: 93772},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 29, offset: 93761},
+																																										pos:        position{line: 2964, col: 29, offset: 93781},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37675,9 +37675,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2974, col: 8, offset: 93921},
+																																							pos: position{line: 2974, col: 8, offset: 93941},
 																																							expr: &anyMatcher{
-																																								line: 2974, col: 9, offset: 93922,
+																																								line: 2974, col: 9, offset: 93942,
 																																							},
 																																						},
 																																					},
@@ -37687,17 +37687,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85894},
+																																	pos:   position{line: 2698, col: 5, offset: 85914},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85901},
+																																		pos: position{line: 2698, col: 12, offset: 85921},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2715, col: 20, offset: 86365},
+																																			pos: position{line: 2715, col: 20, offset: 86385},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2715, col: 20, offset: 86365},
+																																				pos: position{line: 2715, col: 20, offset: 86385},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2715, col: 20, offset: 86365},
+																																					pos:        position{line: 2715, col: 20, offset: 86385},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37708,18 +37708,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85920},
+																																	pos:        position{line: 2698, col: 31, offset: 85940},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85924},
+																																	pos: position{line: 2698, col: 35, offset: 85944},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2955, col: 10, offset: 93573},
+																																		pos: position{line: 2955, col: 10, offset: 93593},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2955, col: 10, offset: 93573},
+																																			pos:        position{line: 2955, col: 10, offset: 93593},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37728,27 +37728,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85931},
+																																	pos: position{line: 2698, col: 42, offset: 85951},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2964, col: 12, offset: 93744},
+																																		pos: position{line: 2964, col: 12, offset: 93764},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2964, col: 13, offset: 93745},
+																																			pos: position{line: 2964, col: 13, offset: 93765},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 13, offset: 93745},
+																																					pos:        position{line: 2964, col: 13, offset: 93765},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 20, offset: 93752},
+																																					pos:        position{line: 2964, col: 20, offset: 93772},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 29, offset: 93761},
+																																					pos:        position{line: 2964, col: 29, offset: 93781},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37758,37 +37758,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85940},
+																																	pos:   position{line: 2698, col: 51, offset: 85960},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86099},
+																																		pos: position{line: 2704, col: 5, offset: 86119},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86109},
+																																			pos: position{line: 2705, col: 9, offset: 86129},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86109},
+																																				pos: position{line: 2705, col: 9, offset: 86129},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86109},
+																																						pos: position{line: 2705, col: 9, offset: 86129},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2661, col: 22, offset: 85053},
+																																							pos: position{line: 2661, col: 22, offset: 85073},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2657, col: 19, offset: 84973},
+																																									pos: position{line: 2657, col: 19, offset: 84993},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2657, col: 19, offset: 84973},
+																																											pos:        position{line: 2657, col: 19, offset: 84993},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2657, col: 26, offset: 84980},
+																																											pos: position{line: 2657, col: 26, offset: 85000},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2955, col: 10, offset: 93573},
+																																												pos: position{line: 2955, col: 10, offset: 93593},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2955, col: 10, offset: 93573},
+																																													pos:        position{line: 2955, col: 10, offset: 93593},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37797,28 +37797,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2977, col: 8, offset: 93971},
+																																											pos: position{line: 2977, col: 8, offset: 93991},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2964, col: 12, offset: 93744},
+																																													pos: position{line: 2964, col: 12, offset: 93764},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2964, col: 13, offset: 93745},
+																																														pos: position{line: 2964, col: 13, offset: 93765},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 13, offset: 93745},
+																																																pos:        position{line: 2964, col: 13, offset: 93765},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 20, offset: 93752},
+																																																pos:        position{line: 2964, col: 20, offset: 93772},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 29, offset: 93761},
+																																																pos:        position{line: 2964, col: 29, offset: 93781},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37827,9 +37827,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2974, col: 8, offset: 93921},
+																																													pos: position{line: 2974, col: 8, offset: 93941},
 																																													expr: &anyMatcher{
-																																														line: 2974, col: 9, offset: 93922,
+																																														line: 2974, col: 9, offset: 93942,
 																																													},
 																																												},
 																																											},
@@ -37837,16 +37837,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93921},
+																																									pos: position{line: 2974, col: 8, offset: 93941},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93922,
+																																										line: 2974, col: 9, offset: 93942,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2706, col: 9, offset: 86136},
+																																						pos: position{line: 2706, col: 9, offset: 86156},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37854,18 +37854,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2972, col: 11, offset: 93907},
+																																										pos: position{line: 2972, col: 11, offset: 93927},
 																																										expr: &anyMatcher{
-																																											line: 2972, col: 13, offset: 93909,
+																																											line: 2972, col: 13, offset: 93929,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2955, col: 10, offset: 93573},
+																																											pos: position{line: 2955, col: 10, offset: 93593},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2955, col: 10, offset: 93573},
+																																												pos:        position{line: 2955, col: 10, offset: 93593},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37874,28 +37874,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2977, col: 8, offset: 93971},
+																																										pos: position{line: 2977, col: 8, offset: 93991},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2964, col: 12, offset: 93744},
+																																												pos: position{line: 2964, col: 12, offset: 93764},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2964, col: 13, offset: 93745},
+																																													pos: position{line: 2964, col: 13, offset: 93765},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 13, offset: 93745},
+																																															pos:        position{line: 2964, col: 13, offset: 93765},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 20, offset: 93752},
+																																															pos:        position{line: 2964, col: 20, offset: 93772},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 29, offset: 93761},
+																																															pos:        position{line: 2964, col: 29, offset: 93781},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37904,9 +37904,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2974, col: 8, offset: 93921},
+																																												pos: position{line: 2974, col: 8, offset: 93941},
 																																												expr: &anyMatcher{
-																																													line: 2974, col: 9, offset: 93922,
+																																													line: 2974, col: 9, offset: 93942,
 																																												},
 																																											},
 																																										},
@@ -37916,22 +37916,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2707, col: 9, offset: 86155},
+																																						pos: position{line: 2707, col: 9, offset: 86175},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2707, col: 11, offset: 86157},
+																																							pos: position{line: 2707, col: 11, offset: 86177},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2707, col: 11, offset: 86157},
+																																									pos:   position{line: 2707, col: 11, offset: 86177},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2707, col: 18, offset: 86164},
+																																										pos: position{line: 2707, col: 18, offset: 86184},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2715, col: 20, offset: 86365},
+																																											pos: position{line: 2715, col: 20, offset: 86385},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2715, col: 20, offset: 86365},
+																																												pos: position{line: 2715, col: 20, offset: 86385},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2715, col: 20, offset: 86365},
+																																													pos:        position{line: 2715, col: 20, offset: 86385},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37942,7 +37942,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2707, col: 37, offset: 86183},
+																																									pos:        position{line: 2707, col: 37, offset: 86203},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37951,15 +37951,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2708, col: 9, offset: 86196},
+																																						pos:   position{line: 2708, col: 9, offset: 86216},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2708, col: 18, offset: 86205},
+																																							pos: position{line: 2708, col: 18, offset: 86225},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2708, col: 18, offset: 86205},
+																																								pos: position{line: 2708, col: 18, offset: 86225},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2708, col: 18, offset: 86205},
+																																									pos:        position{line: 2708, col: 18, offset: 86225},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37969,30 +37969,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2710, col: 12, offset: 86267},
+																																						pos: position{line: 2710, col: 12, offset: 86287},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2977, col: 8, offset: 93971},
+																																							pos: position{line: 2977, col: 8, offset: 93991},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2964, col: 12, offset: 93744},
+																																									pos: position{line: 2964, col: 12, offset: 93764},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2964, col: 13, offset: 93745},
+																																										pos: position{line: 2964, col: 13, offset: 93765},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 13, offset: 93745},
+																																												pos:        position{line: 2964, col: 13, offset: 93765},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 20, offset: 93752},
+																																												pos:        position{line: 2964, col: 20, offset: 93772},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 29, offset: 93761},
+																																												pos:        position{line: 2964, col: 29, offset: 93781},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38001,9 +38001,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93921},
+																																									pos: position{line: 2974, col: 8, offset: 93941},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93922,
+																																										line: 2974, col: 9, offset: 93942,
 																																									},
 																																								},
 																																							},
@@ -38031,18 +38031,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2972, col: 11, offset: 93907},
+																										pos: position{line: 2972, col: 11, offset: 93927},
 																										expr: &anyMatcher{
-																											line: 2972, col: 13, offset: 93909,
+																											line: 2972, col: 13, offset: 93929,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93573},
+																											pos: position{line: 2955, col: 10, offset: 93593},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93573},
+																												pos:        position{line: 2955, col: 10, offset: 93593},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38051,28 +38051,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93971},
+																										pos: position{line: 2977, col: 8, offset: 93991},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93744},
+																												pos: position{line: 2964, col: 12, offset: 93764},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93745},
+																													pos: position{line: 2964, col: 13, offset: 93765},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93745},
+																															pos:        position{line: 2964, col: 13, offset: 93765},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93752},
+																															pos:        position{line: 2964, col: 20, offset: 93772},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93761},
+																															pos:        position{line: 2964, col: 29, offset: 93781},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38081,9 +38081,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93921},
+																												pos: position{line: 2974, col: 8, offset: 93941},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93922,
+																													line: 2974, col: 9, offset: 93942,
 																												},
 																											},
 																										},
@@ -38102,24 +38102,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85053},
+													pos: position{line: 2661, col: 22, offset: 85073},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84973},
+															pos: position{line: 2657, col: 19, offset: 84993},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84973},
+																	pos:        position{line: 2657, col: 19, offset: 84993},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84980},
+																	pos: position{line: 2657, col: 26, offset: 85000},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38128,28 +38128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38158,9 +38158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -38168,9 +38168,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -38179,36 +38179,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81287},
+										pos: position{line: 2525, col: 22, offset: 81307},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81287},
+											pos: position{line: 2525, col: 22, offset: 81307},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81508},
+													pos:        position{line: 2530, col: 31, offset: 81528},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81513},
+													pos: position{line: 2530, col: 36, offset: 81533},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81514},
+														pos:        position{line: 2530, col: 37, offset: 81534},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81314},
+													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91260},
+														pos: position{line: 2874, col: 13, offset: 91280},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91260},
+															pos: position{line: 2874, col: 13, offset: 91280},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91260},
+																pos:        position{line: 2874, col: 13, offset: 91280},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38218,28 +38218,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93971},
+													pos: position{line: 2977, col: 8, offset: 93991},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38248,9 +38248,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93921},
+															pos: position{line: 2974, col: 8, offset: 93941},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93922,
+																line: 2974, col: 9, offset: 93942,
 															},
 														},
 													},
@@ -38341,12 +38341,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1777, col: 13, offset: 57288},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93634},
+																							pos: position{line: 2959, col: 11, offset: 93654},
 																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93634},
+																								pos: position{line: 2959, col: 11, offset: 93654},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93634},
+																									pos:        position{line: 2959, col: 11, offset: 93654},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38367,10 +38367,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1779, col: 14, offset: 57370},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38379,28 +38379,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38409,9 +38409,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -38442,18 +38442,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93907},
+																					pos: position{line: 2972, col: 11, offset: 93927},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93909,
+																						line: 2972, col: 13, offset: 93929,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38462,28 +38462,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93971},
+																					pos: position{line: 2977, col: 8, offset: 93991},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38492,9 +38492,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93921},
+																							pos: position{line: 2974, col: 8, offset: 93941},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93922,
+																								line: 2974, col: 9, offset: 93942,
 																							},
 																						},
 																					},
@@ -38517,10 +38517,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93573},
+																					pos: position{line: 2955, col: 10, offset: 93593},
 																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93573},
+																						pos:        position{line: 2955, col: 10, offset: 93593},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38529,25 +38529,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38569,10 +38569,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38739,12 +38739,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93634},
+																					pos: position{line: 2959, col: 11, offset: 93654},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93634},
+																						pos: position{line: 2959, col: 11, offset: 93654},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93634},
+																							pos:        position{line: 2959, col: 11, offset: 93654},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38767,10 +38767,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38811,12 +38811,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93634},
+																					pos: position{line: 2959, col: 11, offset: 93654},
 																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93634},
+																						pos: position{line: 2959, col: 11, offset: 93654},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93634},
+																							pos:        position{line: 2959, col: 11, offset: 93654},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38867,12 +38867,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93634},
+																					pos: position{line: 2959, col: 11, offset: 93654},
 																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93634},
+																						pos: position{line: 2959, col: 11, offset: 93654},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93634},
+																							pos:        position{line: 2959, col: 11, offset: 93654},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38933,28 +38933,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93971},
+																									pos: position{line: 2977, col: 8, offset: 93991},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93744},
+																											pos: position{line: 2964, col: 12, offset: 93764},
 																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93745},
+																												pos: position{line: 2964, col: 13, offset: 93765},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93745},
+																														pos:        position{line: 2964, col: 13, offset: 93765},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93752},
+																														pos:        position{line: 2964, col: 20, offset: 93772},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93761},
+																														pos:        position{line: 2964, col: 29, offset: 93781},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38963,9 +38963,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93921},
+																											pos: position{line: 2974, col: 8, offset: 93941},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93922,
+																												line: 2974, col: 9, offset: 93942,
 																											},
 																										},
 																									},
@@ -39012,10 +39012,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93573},
+																						pos: position{line: 2955, col: 10, offset: 93593},
 																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93573},
+																							pos:        position{line: 2955, col: 10, offset: 93593},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39023,25 +39023,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93744},
+																						pos: position{line: 2964, col: 12, offset: 93764},
 																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93745},
+																							pos: position{line: 2964, col: 13, offset: 93765},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93745},
+																									pos:        position{line: 2964, col: 13, offset: 93765},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93752},
+																									pos:        position{line: 2964, col: 20, offset: 93772},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93761},
+																									pos:        position{line: 2964, col: 29, offset: 93781},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39050,9 +39050,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93921},
+																						pos: position{line: 2974, col: 8, offset: 93941},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93922,
+																							line: 2974, col: 9, offset: 93942,
 																						},
 																					},
 																				},
@@ -39074,7 +39074,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2809, col: 13, offset: 89521},
+																								pos:        position{line: 2809, col: 13, offset: 89541},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39124,10 +39124,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39136,28 +39136,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39166,9 +39166,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39213,10 +39213,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39225,28 +39225,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39255,9 +39255,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39298,10 +39298,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39310,28 +39310,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39340,9 +39340,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39387,10 +39387,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39399,28 +39399,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39429,9 +39429,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39476,10 +39476,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39488,28 +39488,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39518,9 +39518,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39565,10 +39565,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39577,28 +39577,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39607,9 +39607,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39654,10 +39654,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39666,28 +39666,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39696,9 +39696,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39743,10 +39743,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39755,28 +39755,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39785,9 +39785,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39832,10 +39832,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93573},
+																														pos: position{line: 2955, col: 10, offset: 93593},
 																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93573},
+																															pos:        position{line: 2955, col: 10, offset: 93593},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39844,28 +39844,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93971},
+																													pos: position{line: 2977, col: 8, offset: 93991},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93744},
+																															pos: position{line: 2964, col: 12, offset: 93764},
 																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93745},
+																																pos: position{line: 2964, col: 13, offset: 93765},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93745},
+																																		pos:        position{line: 2964, col: 13, offset: 93765},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93752},
+																																		pos:        position{line: 2964, col: 20, offset: 93772},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93761},
+																																		pos:        position{line: 2964, col: 29, offset: 93781},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39874,9 +39874,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93921},
+																															pos: position{line: 2974, col: 8, offset: 93941},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93922,
+																																line: 2974, col: 9, offset: 93942,
 																															},
 																														},
 																													},
@@ -39913,10 +39913,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93573},
+																								pos: position{line: 2955, col: 10, offset: 93593},
 																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93573},
+																									pos:        position{line: 2955, col: 10, offset: 93593},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39925,28 +39925,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93971},
+																							pos: position{line: 2977, col: 8, offset: 93991},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93744},
+																									pos: position{line: 2964, col: 12, offset: 93764},
 																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93745},
+																										pos: position{line: 2964, col: 13, offset: 93765},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93745},
+																												pos:        position{line: 2964, col: 13, offset: 93765},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93752},
+																												pos:        position{line: 2964, col: 20, offset: 93772},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93761},
+																												pos:        position{line: 2964, col: 29, offset: 93781},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39955,9 +39955,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93921},
+																									pos: position{line: 2974, col: 8, offset: 93941},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93922,
+																										line: 2974, col: 9, offset: 93942,
 																									},
 																								},
 																							},
@@ -39966,21 +39966,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2657, col: 19, offset: 84973},
+																				pos: position{line: 2657, col: 19, offset: 84993},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2657, col: 19, offset: 84973},
+																						pos:        position{line: 2657, col: 19, offset: 84993},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2657, col: 26, offset: 84980},
+																						pos: position{line: 2657, col: 26, offset: 85000},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39989,28 +39989,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93971},
+																						pos: position{line: 2977, col: 8, offset: 93991},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93744},
+																								pos: position{line: 2964, col: 12, offset: 93764},
 																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93745},
+																									pos: position{line: 2964, col: 13, offset: 93765},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93745},
+																											pos:        position{line: 2964, col: 13, offset: 93765},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93752},
+																											pos:        position{line: 2964, col: 20, offset: 93772},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93761},
+																											pos:        position{line: 2964, col: 29, offset: 93781},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40019,9 +40019,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93921},
+																								pos: position{line: 2974, col: 8, offset: 93941},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93922,
+																									line: 2974, col: 9, offset: 93942,
 																								},
 																							},
 																						},
@@ -40035,12 +40035,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 14, offset: 91327},
+																		pos: position{line: 2878, col: 14, offset: 91347},
 																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 14, offset: 91327},
+																			pos: position{line: 2878, col: 14, offset: 91347},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 14, offset: 91327},
+																				pos:        position{line: 2878, col: 14, offset: 91347},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40050,28 +40050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40080,9 +40080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -40147,10 +40147,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
+								pos: position{line: 2955, col: 10, offset: 93593},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
+									pos:        position{line: 2955, col: 10, offset: 93593},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40164,25 +40164,25 @@ var g = &grammar{
 								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93744},
+										pos: position{line: 2964, col: 12, offset: 93764},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93745},
+											pos: position{line: 2964, col: 13, offset: 93765},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93745},
+													pos:        position{line: 2964, col: 13, offset: 93765},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93752},
+													pos:        position{line: 2964, col: 20, offset: 93772},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93761},
+													pos:        position{line: 2964, col: 29, offset: 93781},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40191,9 +40191,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2974, col: 8, offset: 93921},
+										pos: position{line: 2974, col: 8, offset: 93941},
 										expr: &anyMatcher{
-											line: 2974, col: 9, offset: 93922,
+											line: 2974, col: 9, offset: 93942,
 										},
 									},
 									&ruleRefExpr{
@@ -40222,7 +40222,7 @@ var g = &grammar{
 								pos: position{line: 1785, col: 7, offset: 57501},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2809, col: 13, offset: 89521},
+										pos:        position{line: 2809, col: 13, offset: 89541},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -40241,12 +40241,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2959, col: 11, offset: 93634},
+													pos: position{line: 2959, col: 11, offset: 93654},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2959, col: 11, offset: 93634},
+														pos: position{line: 2959, col: 11, offset: 93654},
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 11, offset: 93634},
+															pos:        position{line: 2959, col: 11, offset: 93654},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40337,12 +40337,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40363,10 +40363,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40375,28 +40375,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93971},
+															pos: position{line: 2977, col: 8, offset: 93991},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93744},
+																	pos: position{line: 2964, col: 12, offset: 93764},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93745},
+																		pos: position{line: 2964, col: 13, offset: 93765},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93745},
+																				pos:        position{line: 2964, col: 13, offset: 93765},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93752},
+																				pos:        position{line: 2964, col: 20, offset: 93772},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93761},
+																				pos:        position{line: 2964, col: 29, offset: 93781},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40405,9 +40405,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -40433,12 +40433,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 14, offset: 91327},
+												pos: position{line: 2878, col: 14, offset: 91347},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2878, col: 14, offset: 91327},
+													pos: position{line: 2878, col: 14, offset: 91347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 14, offset: 91327},
+														pos:        position{line: 2878, col: 14, offset: 91347},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40452,28 +40452,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2977, col: 8, offset: 93971},
+											pos: position{line: 2977, col: 8, offset: 93991},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2964, col: 12, offset: 93744},
+													pos: position{line: 2964, col: 12, offset: 93764},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2964, col: 13, offset: 93745},
+														pos: position{line: 2964, col: 13, offset: 93765},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2964, col: 13, offset: 93745},
+																pos:        position{line: 2964, col: 13, offset: 93765},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 20, offset: 93752},
+																pos:        position{line: 2964, col: 20, offset: 93772},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 29, offset: 93761},
+																pos:        position{line: 2964, col: 29, offset: 93781},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40482,9 +40482,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -40509,9 +40509,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58066},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93907},
+												pos: position{line: 2972, col: 11, offset: 93927},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93909,
+													line: 2972, col: 13, offset: 93929,
 												},
 											},
 											&notExpr{
@@ -40523,18 +40523,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40543,28 +40543,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40573,9 +40573,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -40605,7 +40605,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2809, col: 13, offset: 89521},
+																			pos:        position{line: 2809, col: 13, offset: 89541},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40655,10 +40655,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40667,28 +40667,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40697,9 +40697,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -40744,10 +40744,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40756,28 +40756,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40786,9 +40786,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -40829,10 +40829,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40841,28 +40841,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40871,9 +40871,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -40918,10 +40918,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40930,28 +40930,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40960,9 +40960,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41007,10 +41007,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41019,28 +41019,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41049,9 +41049,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41096,10 +41096,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41108,28 +41108,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41138,9 +41138,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41185,10 +41185,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41197,28 +41197,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41227,9 +41227,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41274,10 +41274,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41286,28 +41286,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41316,9 +41316,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41363,10 +41363,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41375,28 +41375,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41405,9 +41405,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -41444,10 +41444,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41456,28 +41456,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41486,9 +41486,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -41497,21 +41497,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84973},
+															pos: position{line: 2657, col: 19, offset: 84993},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84973},
+																	pos:        position{line: 2657, col: 19, offset: 84993},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84980},
+																	pos: position{line: 2657, col: 26, offset: 85000},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41520,28 +41520,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41550,9 +41550,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -41576,10 +41576,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41588,25 +41588,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41624,36 +41624,36 @@ var g = &grammar{
 													pos: position{line: 1801, col: 15, offset: 58228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81287},
+															pos: position{line: 2525, col: 22, offset: 81307},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81287},
+																pos: position{line: 2525, col: 22, offset: 81307},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81508},
+																		pos:        position{line: 2530, col: 31, offset: 81528},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81513},
+																		pos: position{line: 2530, col: 36, offset: 81533},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81514},
+																			pos:        position{line: 2530, col: 37, offset: 81534},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81314},
+																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91260},
+																			pos: position{line: 2874, col: 13, offset: 91280},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91260},
+																				pos: position{line: 2874, col: 13, offset: 91280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91260},
+																					pos:        position{line: 2874, col: 13, offset: 91280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41663,28 +41663,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41693,9 +41693,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -41713,12 +41713,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91327},
+																			pos: position{line: 2878, col: 14, offset: 91347},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91327},
+																				pos: position{line: 2878, col: 14, offset: 91347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91327},
+																					pos:        position{line: 2878, col: 14, offset: 91347},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41732,28 +41732,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41762,9 +41762,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -41870,12 +41870,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93634},
+																	pos: position{line: 2959, col: 11, offset: 93654},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93634},
+																		pos: position{line: 2959, col: 11, offset: 93654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93634},
+																			pos:        position{line: 2959, col: 11, offset: 93654},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41896,10 +41896,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41908,28 +41908,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93971},
+															pos: position{line: 2977, col: 8, offset: 93991},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93744},
+																	pos: position{line: 2964, col: 12, offset: 93764},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93745},
+																		pos: position{line: 2964, col: 13, offset: 93765},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93745},
+																				pos:        position{line: 2964, col: 13, offset: 93765},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93752},
+																				pos:        position{line: 2964, col: 20, offset: 93772},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93761},
+																				pos:        position{line: 2964, col: 29, offset: 93781},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41938,9 +41938,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -41966,12 +41966,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 14, offset: 91327},
+												pos: position{line: 2878, col: 14, offset: 91347},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2878, col: 14, offset: 91327},
+													pos: position{line: 2878, col: 14, offset: 91347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 14, offset: 91327},
+														pos:        position{line: 2878, col: 14, offset: 91347},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41985,28 +41985,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2977, col: 8, offset: 93971},
+											pos: position{line: 2977, col: 8, offset: 93991},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2964, col: 12, offset: 93744},
+													pos: position{line: 2964, col: 12, offset: 93764},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2964, col: 13, offset: 93745},
+														pos: position{line: 2964, col: 13, offset: 93765},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2964, col: 13, offset: 93745},
+																pos:        position{line: 2964, col: 13, offset: 93765},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 20, offset: 93752},
+																pos:        position{line: 2964, col: 20, offset: 93772},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 29, offset: 93761},
+																pos:        position{line: 2964, col: 29, offset: 93781},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42015,9 +42015,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93921},
+													pos: position{line: 2974, col: 8, offset: 93941},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93922,
+														line: 2974, col: 9, offset: 93942,
 													},
 												},
 											},
@@ -42038,9 +42038,9 @@ var g = &grammar{
 										pos: position{line: 1812, col: 9, offset: 58534},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93907},
+												pos: position{line: 2972, col: 11, offset: 93927},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93909,
+													line: 2972, col: 13, offset: 93929,
 												},
 											},
 											&notExpr{
@@ -42052,18 +42052,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93907},
+																pos: position{line: 2972, col: 11, offset: 93927},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93909,
+																	line: 2972, col: 13, offset: 93929,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42072,28 +42072,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93971},
+																pos: position{line: 2977, col: 8, offset: 93991},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93744},
+																		pos: position{line: 2964, col: 12, offset: 93764},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93745},
+																			pos: position{line: 2964, col: 13, offset: 93765},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93745},
+																					pos:        position{line: 2964, col: 13, offset: 93765},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93752},
+																					pos:        position{line: 2964, col: 20, offset: 93772},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93761},
+																					pos:        position{line: 2964, col: 29, offset: 93781},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42102,9 +42102,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93921},
+																		pos: position{line: 2974, col: 8, offset: 93941},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93922,
+																			line: 2974, col: 9, offset: 93942,
 																		},
 																	},
 																},
@@ -42134,7 +42134,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2809, col: 13, offset: 89521},
+																			pos:        position{line: 2809, col: 13, offset: 89541},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42184,10 +42184,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42196,28 +42196,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42226,9 +42226,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42273,10 +42273,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42285,28 +42285,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42315,9 +42315,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42358,10 +42358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42370,28 +42370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42400,9 +42400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42447,10 +42447,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42459,28 +42459,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42489,9 +42489,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42536,10 +42536,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42548,28 +42548,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42578,9 +42578,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42625,10 +42625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42637,28 +42637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42667,9 +42667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42714,10 +42714,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42726,28 +42726,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42756,9 +42756,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42803,10 +42803,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42815,28 +42815,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42845,9 +42845,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42892,10 +42892,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93573},
+																									pos: position{line: 2955, col: 10, offset: 93593},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93573},
+																										pos:        position{line: 2955, col: 10, offset: 93593},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42904,28 +42904,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93971},
+																								pos: position{line: 2977, col: 8, offset: 93991},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93744},
+																										pos: position{line: 2964, col: 12, offset: 93764},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93745},
+																											pos: position{line: 2964, col: 13, offset: 93765},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93745},
+																													pos:        position{line: 2964, col: 13, offset: 93765},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93752},
+																													pos:        position{line: 2964, col: 20, offset: 93772},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93761},
+																													pos:        position{line: 2964, col: 29, offset: 93781},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42934,9 +42934,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93921},
+																										pos: position{line: 2974, col: 8, offset: 93941},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93922,
+																											line: 2974, col: 9, offset: 93942,
 																										},
 																									},
 																								},
@@ -42973,10 +42973,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42985,28 +42985,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43015,9 +43015,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -43026,21 +43026,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84973},
+															pos: position{line: 2657, col: 19, offset: 84993},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84973},
+																	pos:        position{line: 2657, col: 19, offset: 84993},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 84980},
+																	pos: position{line: 2657, col: 26, offset: 85000},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43049,28 +43049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43079,9 +43079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -43098,36 +43098,36 @@ var g = &grammar{
 													pos: position{line: 1816, col: 15, offset: 58663},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81287},
+															pos: position{line: 2525, col: 22, offset: 81307},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81287},
+																pos: position{line: 2525, col: 22, offset: 81307},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81508},
+																		pos:        position{line: 2530, col: 31, offset: 81528},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81513},
+																		pos: position{line: 2530, col: 36, offset: 81533},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81514},
+																			pos:        position{line: 2530, col: 37, offset: 81534},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81314},
+																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91260},
+																			pos: position{line: 2874, col: 13, offset: 91280},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91260},
+																				pos: position{line: 2874, col: 13, offset: 91280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91260},
+																					pos:        position{line: 2874, col: 13, offset: 91280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43137,28 +43137,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43167,9 +43167,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -43187,12 +43187,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91327},
+																			pos: position{line: 2878, col: 14, offset: 91347},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91327},
+																				pos: position{line: 2878, col: 14, offset: 91347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91327},
+																					pos:        position{line: 2878, col: 14, offset: 91347},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43206,28 +43206,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93971},
+																		pos: position{line: 2977, col: 8, offset: 93991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43236,9 +43236,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93921},
+																				pos: position{line: 2974, col: 8, offset: 93941},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93922,
+																					line: 2974, col: 9, offset: 93942,
 																				},
 																			},
 																		},
@@ -43451,30 +43451,30 @@ var g = &grammar{
 				pos: position{line: 1890, col: 5, offset: 60860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2818, col: 5, offset: 89668},
+						pos: position{line: 2818, col: 5, offset: 89688},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2818, col: 5, offset: 89668},
+							pos: position{line: 2818, col: 5, offset: 89688},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2818, col: 5, offset: 89668},
+									pos: position{line: 2818, col: 5, offset: 89688},
 									expr: &seqExpr{
-										pos: position{line: 2819, col: 9, offset: 89679},
+										pos: position{line: 2819, col: 9, offset: 89699},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2819, col: 9, offset: 89679},
+												pos: position{line: 2819, col: 9, offset: 89699},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2822, col: 9, offset: 89742},
+												pos:   position{line: 2822, col: 9, offset: 89762},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2794, col: 18, offset: 89054},
+													pos: position{line: 2794, col: 18, offset: 89074},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2794, col: 19, offset: 89055},
+														pos: position{line: 2794, col: 19, offset: 89075},
 														expr: &charClassMatcher{
-															pos:        position{line: 2794, col: 19, offset: 89055},
+															pos:        position{line: 2794, col: 19, offset: 89075},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43485,28 +43485,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2822, col: 30, offset: 89763},
+												pos:        position{line: 2822, col: 30, offset: 89783},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2823, col: 9, offset: 89850},
+												pos: position{line: 2823, col: 9, offset: 89870},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2827, col: 5, offset: 89962},
+									pos:   position{line: 2827, col: 5, offset: 89982},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2827, col: 11, offset: 89968},
+										pos: position{line: 2827, col: 11, offset: 89988},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2827, col: 11, offset: 89968},
+											pos: position{line: 2827, col: 11, offset: 89988},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 11, offset: 89968},
+												pos:        position{line: 2827, col: 11, offset: 89988},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43516,32 +43516,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 90026},
+									pos: position{line: 2830, col: 5, offset: 90046},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 90037},
+										pos: position{line: 2831, col: 9, offset: 90057},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 90037},
+												pos:        position{line: 2831, col: 9, offset: 90057},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2832, col: 9, offset: 90086},
+												pos: position{line: 2832, col: 9, offset: 90106},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90166},
+									pos: position{line: 2836, col: 5, offset: 90186},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90177},
+										pos: position{line: 2837, col: 9, offset: 90197},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2837, col: 9, offset: 90177},
+												pos: position{line: 2837, col: 9, offset: 90197},
 												expr: &charClassMatcher{
-													pos:        position{line: 2837, col: 9, offset: 90177},
+													pos:        position{line: 2837, col: 9, offset: 90197},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43550,13 +43550,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2837, col: 23, offset: 90191},
+												pos:        position{line: 2837, col: 23, offset: 90211},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2837, col: 27, offset: 90195},
+												pos:        position{line: 2837, col: 27, offset: 90215},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43569,12 +43569,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2959, col: 11, offset: 93634},
+						pos: position{line: 2959, col: 11, offset: 93654},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2959, col: 11, offset: 93634},
+							pos: position{line: 2959, col: 11, offset: 93654},
 							expr: &charClassMatcher{
-								pos:        position{line: 2959, col: 11, offset: 93634},
+								pos:        position{line: 2959, col: 11, offset: 93654},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43587,21 +43587,21 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 82004},
+						pos: position{line: 2543, col: 5, offset: 82024},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 82004},
+							pos: position{line: 2543, col: 5, offset: 82024},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 82004},
+									pos:        position{line: 2543, col: 5, offset: 82024},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 82009},
+									pos: position{line: 2543, col: 10, offset: 82029},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 82010},
+										pos:        position{line: 2543, col: 11, offset: 82030},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43612,29 +43612,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82196},
+						pos: position{line: 2549, col: 5, offset: 82216},
 						run: (*parser).callonQuotedTextElement36,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82196},
+							pos: position{line: 2549, col: 5, offset: 82216},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82196},
+									pos: position{line: 2549, col: 5, offset: 82216},
 									run: (*parser).callonQuotedTextElement38,
 								},
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82267},
+									pos: position{line: 2552, col: 5, offset: 82287},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82392},
+									pos:        position{line: 2556, col: 5, offset: 82412},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82396},
+									pos: position{line: 2556, col: 9, offset: 82416},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82397},
+										pos:        position{line: 2556, col: 10, offset: 82417},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43645,27 +43645,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2845, col: 5, offset: 90388},
+						pos: position{line: 2845, col: 5, offset: 90408},
 						run: (*parser).callonQuotedTextElement43,
 						expr: &choiceExpr{
-							pos: position{line: 2846, col: 9, offset: 90398},
+							pos: position{line: 2846, col: 9, offset: 90418},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2846, col: 10, offset: 90399},
+									pos:        position{line: 2846, col: 10, offset: 90419},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90496},
+									pos: position{line: 2848, col: 13, offset: 90516},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90496},
+											pos: position{line: 2848, col: 13, offset: 90516},
 											run: (*parser).callonQuotedTextElement47,
 										},
 										&litMatcher{
-											pos:        position{line: 2851, col: 13, offset: 90596},
+											pos:        position{line: 2851, col: 13, offset: 90616},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43673,20 +43673,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2851, col: 19, offset: 90602},
+									pos:        position{line: 2851, col: 19, offset: 90622},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90640},
+									pos: position{line: 2854, col: 13, offset: 90660},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2854, col: 13, offset: 90640},
+											pos: position{line: 2854, col: 13, offset: 90660},
 											run: (*parser).callonQuotedTextElement51,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2857, col: 14, offset: 90733},
+											pos:        position{line: 2857, col: 14, offset: 90753},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43695,18 +43695,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2859, col: 12, offset: 90777},
+									pos: position{line: 2859, col: 12, offset: 90797},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2859, col: 12, offset: 90777},
+											pos:        position{line: 2859, col: 12, offset: 90797},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2859, col: 16, offset: 90781},
+											pos: position{line: 2859, col: 16, offset: 90801},
 											expr: &litMatcher{
-												pos:        position{line: 2859, col: 17, offset: 90782},
+												pos:        position{line: 2859, col: 17, offset: 90802},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44064,31 +44064,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2968, col: 18, offset: 93844},
+						pos: position{line: 2968, col: 18, offset: 93864},
 						run: (*parser).callonQuotedTextElement126,
 						expr: &seqExpr{
-							pos: position{line: 2968, col: 18, offset: 93844},
+							pos: position{line: 2968, col: 18, offset: 93864},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonQuotedTextElement128,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44097,27 +44097,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2968, col: 26, offset: 93852},
+									pos: position{line: 2968, col: 26, offset: 93872},
 									expr: &actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93744},
+										pos: position{line: 2964, col: 12, offset: 93764},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93745},
+											pos: position{line: 2964, col: 13, offset: 93765},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93745},
+													pos:        position{line: 2964, col: 13, offset: 93765},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93752},
+													pos:        position{line: 2964, col: 20, offset: 93772},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93761},
+													pos:        position{line: 2964, col: 29, offset: 93781},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44138,23 +44138,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80833},
+						pos: position{line: 2512, col: 5, offset: 80853},
 						run: (*parser).callonQuotedTextElement141,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80833},
+							pos: position{line: 2512, col: 5, offset: 80853},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80833},
+									pos: position{line: 2512, col: 5, offset: 80853},
 									run: (*parser).callonQuotedTextElement143,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80909},
+									pos:   position{line: 2515, col: 5, offset: 80929},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80927},
+										pos: position{line: 2516, col: 9, offset: 80947},
 										run: (*parser).callonQuotedTextElement145,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80928},
+											pos:        position{line: 2516, col: 10, offset: 80948},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44205,10 +44205,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2867, col: 12, offset: 91042},
+						pos: position{line: 2867, col: 12, offset: 91062},
 						run: (*parser).callonQuotedTextElement155,
 						expr: &charClassMatcher{
-							pos:        position{line: 2867, col: 12, offset: 91042},
+							pos:        position{line: 2867, col: 12, offset: 91062},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44276,9 +44276,9 @@ var g = &grammar{
 					pos: position{line: 1929, col: 5, offset: 62039},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
@@ -44365,7 +44365,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1954, col: 7, offset: 62764},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89521},
+									pos:        position{line: 2809, col: 13, offset: 89541},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44388,32 +44388,28 @@ var g = &grammar{
 					exprs: []interface{}{
 						&notExpr{
 							pos: position{line: 1964, col: 5, offset: 63049},
-							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
-								run: (*parser).callonSingleQuoteBoldTextElements4,
-								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
-									val:        "[\\t ]",
-									chars:      []rune{'\t', ' '},
-									ignoreCase: false,
-									inverted:   false,
-								},
+							expr: &charClassMatcher{
+								pos:        position{line: 1964, col: 6, offset: 63050},
+								val:        "[ \\t\\r\\n]",
+								chars:      []rune{' ', '\t', '\r', '\n'},
+								ignoreCase: false,
+								inverted:   false,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1965, col: 5, offset: 63088},
+							pos:   position{line: 1965, col: 5, offset: 63092},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1965, col: 14, offset: 63097},
+								pos: position{line: 1965, col: 14, offset: 63101},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1965, col: 15, offset: 63098},
+									pos:  position{line: 1965, col: 15, offset: 63102},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1966, col: 5, offset: 63132},
-							run: (*parser).callonSingleQuoteBoldTextElements9,
+							pos: position{line: 1966, col: 5, offset: 63136},
+							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
 				},
@@ -44421,21 +44417,21 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1972, col: 1, offset: 63273},
+			pos:  position{line: 1972, col: 1, offset: 63277},
 			expr: &actionExpr{
-				pos: position{line: 1973, col: 5, offset: 63308},
+				pos: position{line: 1973, col: 5, offset: 63312},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1973, col: 5, offset: 63308},
+					pos: position{line: 1973, col: 5, offset: 63312},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1974, col: 5, offset: 63336},
+							pos: position{line: 1974, col: 5, offset: 63340},
 							expr: &seqExpr{
 								pos: position{line: 1948, col: 5, offset: 62580},
 								exprs: []interface{}{
@@ -44463,7 +44459,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1954, col: 7, offset: 62764},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89521},
+												pos:        position{line: 2809, col: 13, offset: 89541},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44475,10 +44471,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63373},
+							pos:   position{line: 1975, col: 5, offset: 63377},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 14, offset: 63382},
+								pos:  position{line: 1975, col: 14, offset: 63386},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44488,18 +44484,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1980, col: 1, offset: 63470},
+			pos:  position{line: 1980, col: 1, offset: 63474},
 			expr: &choiceExpr{
-				pos: position{line: 1982, col: 5, offset: 63531},
+				pos: position{line: 1982, col: 5, offset: 63535},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1982, col: 5, offset: 63531},
+						pos: position{line: 1982, col: 5, offset: 63535},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 5, offset: 63531},
+							pos: position{line: 1982, col: 5, offset: 63535},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 5, offset: 63531},
+									pos:   position{line: 1982, col: 5, offset: 63535},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -44537,15 +44533,15 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 74, offset: 63600},
+									pos:   position{line: 1982, col: 74, offset: 63604},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 84, offset: 63610},
+										pos:  position{line: 1982, col: 84, offset: 63614},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 113, offset: 63639},
+									pos:        position{line: 1982, col: 113, offset: 63643},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44554,13 +44550,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1986, col: 7, offset: 63799},
+						pos: position{line: 1986, col: 7, offset: 63803},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 7, offset: 63799},
+							pos: position{line: 1986, col: 7, offset: 63803},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 7, offset: 63799},
+									pos:   position{line: 1986, col: 7, offset: 63803},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -44577,21 +44573,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 42, offset: 63834},
+									pos:        position{line: 1986, col: 42, offset: 63838},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 47, offset: 63839},
+									pos:   position{line: 1986, col: 47, offset: 63843},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 57, offset: 63849},
+										pos:  position{line: 1986, col: 57, offset: 63853},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 86, offset: 63878},
+									pos:        position{line: 1986, col: 86, offset: 63882},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44600,13 +44596,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1991, col: 7, offset: 64076},
+						pos: position{line: 1991, col: 7, offset: 64080},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1991, col: 7, offset: 64076},
+							pos: position{line: 1991, col: 7, offset: 64080},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1991, col: 7, offset: 64076},
+									pos:   position{line: 1991, col: 7, offset: 64080},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -44623,21 +44619,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 42, offset: 64111},
+									pos:        position{line: 1991, col: 42, offset: 64115},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1991, col: 46, offset: 64115},
+									pos:   position{line: 1991, col: 46, offset: 64119},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1991, col: 56, offset: 64125},
+										pos:  position{line: 1991, col: 56, offset: 64129},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 85, offset: 64154},
+									pos:        position{line: 1991, col: 85, offset: 64158},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44650,33 +44646,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64728},
+			pos:  position{line: 2011, col: 1, offset: 64732},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64758},
+				pos: position{line: 2012, col: 5, offset: 64762},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64758},
+					pos: position{line: 2012, col: 5, offset: 64762},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2004, col: 40, offset: 64581},
+							pos: position{line: 2004, col: 40, offset: 64585},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 40, offset: 64581},
+								pos:        position{line: 2004, col: 40, offset: 64585},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64799},
+							pos:   position{line: 2013, col: 5, offset: 64803},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64809},
+								pos:  position{line: 2013, col: 15, offset: 64813},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 38, offset: 64722},
+							pos:        position{line: 2009, col: 38, offset: 64726},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44687,44 +44683,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 64974},
+			pos:  position{line: 2018, col: 1, offset: 64978},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2018, col: 34, offset: 65007},
+				pos: position{line: 2018, col: 34, offset: 65011},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2018, col: 34, offset: 65007},
+					pos:  position{line: 2018, col: 34, offset: 65011},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65039},
+			pos:  position{line: 2020, col: 1, offset: 65043},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65076},
+				pos: position{line: 2021, col: 5, offset: 65080},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65076},
+					pos: position{line: 2021, col: 5, offset: 65080},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65087},
+							pos: position{line: 2022, col: 5, offset: 65091},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 38, offset: 64722},
+								pos:        position{line: 2009, col: 38, offset: 64726},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65126},
+							pos:   position{line: 2023, col: 5, offset: 65130},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65135},
+								pos:  position{line: 2023, col: 14, offset: 65139},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44734,29 +44730,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65819},
+			pos:  position{line: 2049, col: 1, offset: 65823},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65849},
+				pos: position{line: 2050, col: 5, offset: 65853},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65849},
+					pos: position{line: 2050, col: 5, offset: 65853},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65377},
+							pos:        position{line: 2032, col: 5, offset: 65381},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65386},
+							pos: position{line: 2033, col: 5, offset: 65390},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65506},
+							pos: position{line: 2037, col: 5, offset: 65510},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65508},
+								pos: position{line: 2037, col: 7, offset: 65512},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65509},
+									pos:        position{line: 2037, col: 8, offset: 65513},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44764,38 +44760,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 65889},
+							pos:   position{line: 2051, col: 5, offset: 65893},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 65899},
+								pos:  position{line: 2051, col: 15, offset: 65903},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65619},
+							pos:        position{line: 2041, col: 5, offset: 65623},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65628},
+							pos: position{line: 2042, col: 5, offset: 65632},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65629},
+								pos:        position{line: 2042, col: 6, offset: 65633},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65694},
+							pos: position{line: 2043, col: 5, offset: 65698},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 65805},
+							pos: position{line: 2047, col: 5, offset: 65809},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 65807},
+								pos: position{line: 2047, col: 7, offset: 65811},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89521},
+									pos:        position{line: 2809, col: 13, offset: 89541},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44809,41 +44805,37 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66066},
+			pos:  position{line: 2056, col: 1, offset: 66070},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66104},
+				pos: position{line: 2057, col: 5, offset: 66108},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66104},
+					pos: position{line: 2057, col: 5, offset: 66108},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66104},
-							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
-								run: (*parser).callonSingleQuoteItalicTextElements4,
-								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
-									val:        "[\\t ]",
-									chars:      []rune{'\t', ' '},
-									ignoreCase: false,
-									inverted:   false,
-								},
+							pos: position{line: 2057, col: 5, offset: 66108},
+							expr: &charClassMatcher{
+								pos:        position{line: 2057, col: 6, offset: 66109},
+								val:        "[ \\t\\r\\n]",
+								chars:      []rune{' ', '\t', '\r', '\n'},
+								ignoreCase: false,
+								inverted:   false,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66143},
+							pos:   position{line: 2058, col: 5, offset: 66151},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66152},
+								pos: position{line: 2058, col: 14, offset: 66160},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66153},
+									pos:  position{line: 2058, col: 15, offset: 66161},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66188},
-							run: (*parser).callonSingleQuoteItalicTextElements9,
+							pos: position{line: 2059, col: 5, offset: 66196},
+							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
 				},
@@ -44851,49 +44843,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66329},
+			pos:  position{line: 2065, col: 1, offset: 66337},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66366},
+				pos: position{line: 2066, col: 5, offset: 66374},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66366},
+					pos: position{line: 2066, col: 5, offset: 66374},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66377},
+							pos: position{line: 2067, col: 5, offset: 66385},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65619},
+								pos: position{line: 2041, col: 5, offset: 65623},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65619},
+										pos:        position{line: 2041, col: 5, offset: 65623},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65628},
+										pos: position{line: 2042, col: 5, offset: 65632},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65629},
+											pos:        position{line: 2042, col: 6, offset: 65633},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65694},
+										pos: position{line: 2043, col: 5, offset: 65698},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 65805},
+										pos: position{line: 2047, col: 5, offset: 65809},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 65807},
+											pos: position{line: 2047, col: 7, offset: 65811},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89521},
+												pos:        position{line: 2809, col: 13, offset: 89541},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44905,10 +44897,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66416},
+							pos:   position{line: 2068, col: 5, offset: 66424},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66425},
+								pos:  position{line: 2068, col: 14, offset: 66433},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44918,18 +44910,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66513},
+			pos:  position{line: 2073, col: 1, offset: 66521},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66578},
+				pos: position{line: 2075, col: 5, offset: 66586},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66578},
+						pos: position{line: 2075, col: 5, offset: 66586},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66578},
+							pos: position{line: 2075, col: 5, offset: 66586},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66578},
+									pos:   position{line: 2075, col: 5, offset: 66586},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -44957,25 +44949,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2004, col: 40, offset: 64581},
+									pos: position{line: 2004, col: 40, offset: 64585},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2004, col: 40, offset: 64581},
+										pos:        position{line: 2004, col: 40, offset: 64585},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 76, offset: 66649},
+									pos:   position{line: 2075, col: 76, offset: 66657},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 86, offset: 66659},
+										pos:  position{line: 2075, col: 86, offset: 66667},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 117, offset: 66690},
+									pos:        position{line: 2075, col: 117, offset: 66698},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44984,13 +44976,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 66851},
+						pos: position{line: 2079, col: 7, offset: 66859},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 66851},
+							pos: position{line: 2079, col: 7, offset: 66859},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 66851},
+									pos:   position{line: 2079, col: 7, offset: 66859},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45007,21 +44999,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 66886},
+									pos:        position{line: 2079, col: 42, offset: 66894},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 66891},
+									pos:   position{line: 2079, col: 47, offset: 66899},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 66901},
+										pos:  position{line: 2079, col: 57, offset: 66909},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 66932},
+									pos:        position{line: 2079, col: 88, offset: 66940},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45030,13 +45022,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67169},
+						pos: position{line: 2084, col: 7, offset: 67177},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67169},
+							pos: position{line: 2084, col: 7, offset: 67177},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67169},
+									pos:   position{line: 2084, col: 7, offset: 67177},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45053,21 +45045,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67204},
+									pos:        position{line: 2084, col: 42, offset: 67212},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67208},
+									pos:   position{line: 2084, col: 46, offset: 67216},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67218},
+										pos:  position{line: 2084, col: 56, offset: 67226},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67249},
+									pos:        position{line: 2084, col: 87, offset: 67257},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45080,33 +45072,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 67907},
+			pos:  position{line: 2104, col: 1, offset: 67915},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67940},
+				pos: position{line: 2105, col: 5, offset: 67948},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67940},
+					pos: position{line: 2105, col: 5, offset: 67948},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2097, col: 43, offset: 67757},
+							pos: position{line: 2097, col: 43, offset: 67765},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2097, col: 43, offset: 67757},
+								pos:        position{line: 2097, col: 43, offset: 67765},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 67984},
+							pos:   position{line: 2106, col: 5, offset: 67992},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 67994},
+								pos:  position{line: 2106, col: 15, offset: 68002},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2102, col: 41, offset: 67901},
+							pos:        position{line: 2102, col: 41, offset: 67909},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45117,44 +45109,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68169},
+			pos:  position{line: 2111, col: 1, offset: 68177},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2111, col: 37, offset: 68205},
+				pos: position{line: 2111, col: 37, offset: 68213},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2111, col: 37, offset: 68205},
+					pos:  position{line: 2111, col: 37, offset: 68213},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2113, col: 1, offset: 68272},
+			pos:  position{line: 2113, col: 1, offset: 68280},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68312},
+				pos: position{line: 2114, col: 5, offset: 68320},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68312},
+					pos: position{line: 2114, col: 5, offset: 68320},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68323},
+							pos: position{line: 2115, col: 5, offset: 68331},
 							expr: &litMatcher{
-								pos:        position{line: 2102, col: 41, offset: 67901},
+								pos:        position{line: 2102, col: 41, offset: 67909},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68365},
+							pos:   position{line: 2116, col: 5, offset: 68373},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2116, col: 14, offset: 68374},
+								pos:  position{line: 2116, col: 14, offset: 68382},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45164,33 +45156,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2134, col: 1, offset: 68916},
+			pos:  position{line: 2134, col: 1, offset: 68924},
 			expr: &seqExpr{
-				pos: position{line: 2135, col: 5, offset: 68961},
+				pos: position{line: 2135, col: 5, offset: 68969},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2135, col: 5, offset: 68961},
+						pos: position{line: 2135, col: 5, offset: 68969},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2135, col: 6, offset: 68962},
+							pos:  position{line: 2135, col: 6, offset: 68970},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2136, col: 5, offset: 68981},
+						pos:        position{line: 2136, col: 5, offset: 68989},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2137, col: 5, offset: 68989},
+						pos: position{line: 2137, col: 5, offset: 68997},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2141, col: 5, offset: 69103},
+						pos: position{line: 2141, col: 5, offset: 69111},
 						expr: &notExpr{
-							pos: position{line: 2141, col: 7, offset: 69105},
+							pos: position{line: 2141, col: 7, offset: 69113},
 							expr: &charClassMatcher{
-								pos:        position{line: 2809, col: 13, offset: 89521},
+								pos:        position{line: 2809, col: 13, offset: 89541},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45203,29 +45195,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2144, col: 1, offset: 69122},
+			pos:  position{line: 2144, col: 1, offset: 69130},
 			expr: &actionExpr{
-				pos: position{line: 2145, col: 5, offset: 69155},
+				pos: position{line: 2145, col: 5, offset: 69163},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2145, col: 5, offset: 69155},
+					pos: position{line: 2145, col: 5, offset: 69163},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2127, col: 5, offset: 68718},
+							pos:        position{line: 2127, col: 5, offset: 68726},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2128, col: 5, offset: 68727},
+							pos: position{line: 2128, col: 5, offset: 68735},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2132, col: 5, offset: 68850},
+							pos: position{line: 2132, col: 5, offset: 68858},
 							expr: &notExpr{
-								pos: position{line: 2132, col: 7, offset: 68852},
+								pos: position{line: 2132, col: 7, offset: 68860},
 								expr: &litMatcher{
-									pos:        position{line: 2132, col: 8, offset: 68853},
+									pos:        position{line: 2132, col: 8, offset: 68861},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45233,15 +45225,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2146, col: 5, offset: 69199},
+							pos:   position{line: 2146, col: 5, offset: 69207},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2146, col: 15, offset: 69209},
+								pos:  position{line: 2146, col: 15, offset: 69217},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2147, col: 5, offset: 69248},
+							pos:  position{line: 2147, col: 5, offset: 69256},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45250,41 +45242,37 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2151, col: 1, offset: 69385},
+			pos:  position{line: 2151, col: 1, offset: 69393},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69426},
+				pos: position{line: 2152, col: 5, offset: 69434},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69426},
+					pos: position{line: 2152, col: 5, offset: 69434},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2152, col: 5, offset: 69426},
-							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
-								run: (*parser).callonSingleQuoteMonospaceTextElements4,
-								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
-									val:        "[\\t ]",
-									chars:      []rune{'\t', ' '},
-									ignoreCase: false,
-									inverted:   false,
-								},
+							pos: position{line: 2152, col: 5, offset: 69434},
+							expr: &charClassMatcher{
+								pos:        position{line: 2152, col: 6, offset: 69435},
+								val:        "[ \\t\\r\\n]",
+								chars:      []rune{' ', '\t', '\r', '\n'},
+								ignoreCase: false,
+								inverted:   false,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2153, col: 5, offset: 69465},
+							pos:   position{line: 2153, col: 5, offset: 69477},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2153, col: 14, offset: 69474},
+								pos: position{line: 2153, col: 14, offset: 69486},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2153, col: 15, offset: 69475},
+									pos:  position{line: 2153, col: 15, offset: 69487},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2154, col: 5, offset: 69513},
-							run: (*parser).callonSingleQuoteMonospaceTextElements9,
+							pos: position{line: 2154, col: 5, offset: 69525},
+							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
 				},
@@ -45292,31 +45280,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2160, col: 1, offset: 69654},
+			pos:  position{line: 2160, col: 1, offset: 69666},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 69694},
+				pos: position{line: 2161, col: 5, offset: 69706},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 69694},
+					pos: position{line: 2161, col: 5, offset: 69706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2162, col: 5, offset: 69705},
+							pos: position{line: 2162, col: 5, offset: 69717},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 6, offset: 69706},
+								pos:  position{line: 2162, col: 6, offset: 69718},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 69747},
+							pos:   position{line: 2163, col: 5, offset: 69759},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 14, offset: 69756},
+								pos:  position{line: 2163, col: 14, offset: 69768},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45326,18 +45314,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2168, col: 1, offset: 69844},
+			pos:  position{line: 2168, col: 1, offset: 69856},
 			expr: &choiceExpr{
-				pos: position{line: 2170, col: 5, offset: 69915},
+				pos: position{line: 2170, col: 5, offset: 69927},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2170, col: 5, offset: 69915},
+						pos: position{line: 2170, col: 5, offset: 69927},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 5, offset: 69915},
+							pos: position{line: 2170, col: 5, offset: 69927},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 5, offset: 69915},
+									pos:   position{line: 2170, col: 5, offset: 69927},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -45365,25 +45353,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2097, col: 43, offset: 67757},
+									pos: position{line: 2097, col: 43, offset: 67765},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2097, col: 43, offset: 67757},
+										pos:        position{line: 2097, col: 43, offset: 67765},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 79, offset: 69989},
+									pos:   position{line: 2170, col: 79, offset: 70001},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 89, offset: 69999},
+										pos:  position{line: 2170, col: 89, offset: 70011},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 123, offset: 70033},
+									pos:        position{line: 2170, col: 123, offset: 70045},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45392,13 +45380,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2174, col: 7, offset: 70198},
+						pos: position{line: 2174, col: 7, offset: 70210},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 7, offset: 70198},
+							pos: position{line: 2174, col: 7, offset: 70210},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 7, offset: 70198},
+									pos:   position{line: 2174, col: 7, offset: 70210},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45415,21 +45403,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 42, offset: 70233},
+									pos:        position{line: 2174, col: 42, offset: 70245},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 47, offset: 70238},
+									pos:   position{line: 2174, col: 47, offset: 70250},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 57, offset: 70248},
+										pos:  position{line: 2174, col: 57, offset: 70260},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 91, offset: 70282},
+									pos:        position{line: 2174, col: 91, offset: 70294},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45438,13 +45426,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2179, col: 7, offset: 70484},
+						pos: position{line: 2179, col: 7, offset: 70496},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2179, col: 7, offset: 70484},
+							pos: position{line: 2179, col: 7, offset: 70496},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2179, col: 7, offset: 70484},
+									pos:   position{line: 2179, col: 7, offset: 70496},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45461,21 +45449,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 42, offset: 70519},
+									pos:        position{line: 2179, col: 42, offset: 70531},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2179, col: 46, offset: 70523},
+									pos:   position{line: 2179, col: 46, offset: 70535},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2179, col: 56, offset: 70533},
+										pos:  position{line: 2179, col: 56, offset: 70545},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 90, offset: 70567},
+									pos:        position{line: 2179, col: 90, offset: 70579},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45488,33 +45476,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2199, col: 1, offset: 71146},
+			pos:  position{line: 2199, col: 1, offset: 71158},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71176},
+				pos: position{line: 2200, col: 5, offset: 71188},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71176},
+					pos: position{line: 2200, col: 5, offset: 71188},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2192, col: 40, offset: 70999},
+							pos: position{line: 2192, col: 40, offset: 71011},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2192, col: 40, offset: 70999},
+								pos:        position{line: 2192, col: 40, offset: 71011},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71217},
+							pos:   position{line: 2201, col: 5, offset: 71229},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2201, col: 15, offset: 71227},
+								pos:  position{line: 2201, col: 15, offset: 71239},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 38, offset: 71140},
+							pos:        position{line: 2197, col: 38, offset: 71152},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45525,44 +45513,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2206, col: 1, offset: 71393},
+			pos:  position{line: 2206, col: 1, offset: 71405},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2206, col: 34, offset: 71426},
+				pos: position{line: 2206, col: 34, offset: 71438},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2206, col: 34, offset: 71426},
+					pos:  position{line: 2206, col: 34, offset: 71438},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71457},
+			pos:  position{line: 2208, col: 1, offset: 71469},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71526},
+				pos: position{line: 2209, col: 5, offset: 71538},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71526},
+					pos: position{line: 2209, col: 5, offset: 71538},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71537},
+							pos: position{line: 2210, col: 5, offset: 71549},
 							expr: &litMatcher{
-								pos:        position{line: 2197, col: 38, offset: 71140},
+								pos:        position{line: 2197, col: 38, offset: 71152},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71576},
+							pos:   position{line: 2211, col: 5, offset: 71588},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71585},
+								pos:  position{line: 2211, col: 14, offset: 71597},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45572,29 +45560,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2236, col: 1, offset: 72267},
+			pos:  position{line: 2236, col: 1, offset: 72279},
 			expr: &actionExpr{
-				pos: position{line: 2237, col: 5, offset: 72297},
+				pos: position{line: 2237, col: 5, offset: 72309},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2237, col: 5, offset: 72297},
+					pos: position{line: 2237, col: 5, offset: 72309},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2220, col: 5, offset: 71833},
+							pos:        position{line: 2220, col: 5, offset: 71845},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71842},
+							pos: position{line: 2221, col: 5, offset: 71854},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2225, col: 5, offset: 71962},
+							pos: position{line: 2225, col: 5, offset: 71974},
 							expr: &notExpr{
-								pos: position{line: 2225, col: 7, offset: 71964},
+								pos: position{line: 2225, col: 7, offset: 71976},
 								expr: &litMatcher{
-									pos:        position{line: 2225, col: 8, offset: 71965},
+									pos:        position{line: 2225, col: 8, offset: 71977},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45602,38 +45590,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2238, col: 5, offset: 72337},
+							pos:   position{line: 2238, col: 5, offset: 72349},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2238, col: 15, offset: 72347},
+								pos:  position{line: 2238, col: 15, offset: 72359},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72070},
+							pos:        position{line: 2228, col: 5, offset: 72082},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 72078},
+							pos: position{line: 2229, col: 5, offset: 72090},
 							expr: &litMatcher{
-								pos:        position{line: 2229, col: 6, offset: 72079},
+								pos:        position{line: 2229, col: 6, offset: 72091},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2230, col: 5, offset: 72142},
+							pos: position{line: 2230, col: 5, offset: 72154},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2234, col: 5, offset: 72253},
+							pos: position{line: 2234, col: 5, offset: 72265},
 							expr: &notExpr{
-								pos: position{line: 2234, col: 7, offset: 72255},
+								pos: position{line: 2234, col: 7, offset: 72267},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89521},
+									pos:        position{line: 2809, col: 13, offset: 89541},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45647,41 +45635,37 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2243, col: 1, offset: 72514},
+			pos:  position{line: 2243, col: 1, offset: 72526},
 			expr: &actionExpr{
-				pos: position{line: 2244, col: 5, offset: 72552},
+				pos: position{line: 2244, col: 5, offset: 72564},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2244, col: 5, offset: 72552},
+					pos: position{line: 2244, col: 5, offset: 72564},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2244, col: 5, offset: 72552},
-							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93573},
-								run: (*parser).callonSingleQuoteMarkedTextElements4,
-								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93573},
-									val:        "[\\t ]",
-									chars:      []rune{'\t', ' '},
-									ignoreCase: false,
-									inverted:   false,
-								},
+							pos: position{line: 2244, col: 5, offset: 72564},
+							expr: &charClassMatcher{
+								pos:        position{line: 2244, col: 6, offset: 72565},
+								val:        "[ \\t\\r\\n]",
+								chars:      []rune{' ', '\t', '\r', '\n'},
+								ignoreCase: false,
+								inverted:   false,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72591},
+							pos:   position{line: 2245, col: 5, offset: 72607},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2245, col: 14, offset: 72600},
+								pos: position{line: 2245, col: 14, offset: 72616},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2245, col: 15, offset: 72601},
+									pos:  position{line: 2245, col: 15, offset: 72617},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2246, col: 5, offset: 72637},
-							run: (*parser).callonSingleQuoteMarkedTextElements9,
+							pos: position{line: 2246, col: 5, offset: 72653},
+							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
 				},
@@ -45689,49 +45673,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2252, col: 1, offset: 72778},
+			pos:  position{line: 2252, col: 1, offset: 72794},
 			expr: &actionExpr{
-				pos: position{line: 2253, col: 5, offset: 72815},
+				pos: position{line: 2253, col: 5, offset: 72831},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2253, col: 5, offset: 72815},
+					pos: position{line: 2253, col: 5, offset: 72831},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2254, col: 5, offset: 72826},
+							pos: position{line: 2254, col: 5, offset: 72842},
 							expr: &seqExpr{
-								pos: position{line: 2228, col: 5, offset: 72070},
+								pos: position{line: 2228, col: 5, offset: 72082},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2228, col: 5, offset: 72070},
+										pos:        position{line: 2228, col: 5, offset: 72082},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2229, col: 5, offset: 72078},
+										pos: position{line: 2229, col: 5, offset: 72090},
 										expr: &litMatcher{
-											pos:        position{line: 2229, col: 6, offset: 72079},
+											pos:        position{line: 2229, col: 6, offset: 72091},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2230, col: 5, offset: 72142},
+										pos: position{line: 2230, col: 5, offset: 72154},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2234, col: 5, offset: 72253},
+										pos: position{line: 2234, col: 5, offset: 72265},
 										expr: &notExpr{
-											pos: position{line: 2234, col: 7, offset: 72255},
+											pos: position{line: 2234, col: 7, offset: 72267},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89521},
+												pos:        position{line: 2809, col: 13, offset: 89541},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45743,10 +45727,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 72865},
+							pos:   position{line: 2255, col: 5, offset: 72881},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 72874},
+								pos:  position{line: 2255, col: 14, offset: 72890},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45756,18 +45740,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2260, col: 1, offset: 72962},
+			pos:  position{line: 2260, col: 1, offset: 72978},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 5, offset: 73026},
+				pos: position{line: 2262, col: 5, offset: 73042},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2262, col: 5, offset: 73026},
+						pos: position{line: 2262, col: 5, offset: 73042},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 5, offset: 73026},
+							pos: position{line: 2262, col: 5, offset: 73042},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 5, offset: 73026},
+									pos:   position{line: 2262, col: 5, offset: 73042},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1885, col: 25, offset: 60780},
@@ -45795,25 +45779,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2192, col: 40, offset: 70999},
+									pos: position{line: 2192, col: 40, offset: 71011},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2192, col: 40, offset: 70999},
+										pos:        position{line: 2192, col: 40, offset: 71011},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 76, offset: 73097},
+									pos:   position{line: 2262, col: 76, offset: 73113},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 86, offset: 73107},
+										pos:  position{line: 2262, col: 86, offset: 73123},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 117, offset: 73138},
+									pos:        position{line: 2262, col: 117, offset: 73154},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45822,13 +45806,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2266, col: 7, offset: 73299},
+						pos: position{line: 2266, col: 7, offset: 73315},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 7, offset: 73299},
+							pos: position{line: 2266, col: 7, offset: 73315},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 7, offset: 73299},
+									pos:   position{line: 2266, col: 7, offset: 73315},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45845,21 +45829,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 42, offset: 73334},
+									pos:        position{line: 2266, col: 42, offset: 73350},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 47, offset: 73339},
+									pos:   position{line: 2266, col: 47, offset: 73355},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 57, offset: 73349},
+										pos:  position{line: 2266, col: 57, offset: 73365},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 88, offset: 73380},
+									pos:        position{line: 2266, col: 88, offset: 73396},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45868,13 +45852,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 7, offset: 73579},
+						pos: position{line: 2271, col: 7, offset: 73595},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2271, col: 7, offset: 73579},
+							pos: position{line: 2271, col: 7, offset: 73595},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2271, col: 7, offset: 73579},
+									pos:   position{line: 2271, col: 7, offset: 73595},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1881, col: 25, offset: 60707},
@@ -45891,21 +45875,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 42, offset: 73614},
+									pos:        position{line: 2271, col: 42, offset: 73630},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2271, col: 46, offset: 73618},
+									pos:   position{line: 2271, col: 46, offset: 73634},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2271, col: 56, offset: 73628},
+										pos:  position{line: 2271, col: 56, offset: 73644},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 87, offset: 73659},
+									pos:        position{line: 2271, col: 87, offset: 73675},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45918,33 +45902,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2278, col: 1, offset: 73922},
+			pos:  position{line: 2278, col: 1, offset: 73938},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 73944},
+				pos: position{line: 2279, col: 5, offset: 73960},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 73944},
+					pos: position{line: 2279, col: 5, offset: 73960},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74200},
+							pos: position{line: 2287, col: 32, offset: 74216},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74200},
+								pos:        position{line: 2287, col: 32, offset: 74216},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 73976},
+							pos:   position{line: 2280, col: 5, offset: 73992},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 73985},
+								pos:  position{line: 2280, col: 14, offset: 74001},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74164},
+							pos:        position{line: 2285, col: 27, offset: 74180},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45955,43 +45939,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2292, col: 1, offset: 74303},
+			pos:  position{line: 2292, col: 1, offset: 74319},
 			expr: &choiceExpr{
-				pos: position{line: 2292, col: 25, offset: 74327},
+				pos: position{line: 2292, col: 25, offset: 74343},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2292, col: 25, offset: 74327},
+						pos:  position{line: 2292, col: 25, offset: 74343},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2294, col: 21, offset: 74379},
+						pos: position{line: 2294, col: 21, offset: 74395},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2294, col: 21, offset: 74379},
+							pos:   position{line: 2294, col: 21, offset: 74395},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2294, col: 29, offset: 74387},
+								pos: position{line: 2294, col: 29, offset: 74403},
 								expr: &choiceExpr{
-									pos: position{line: 2294, col: 30, offset: 74388},
+									pos: position{line: 2294, col: 30, offset: 74404},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 5, offset: 80833},
+												pos: position{line: 2512, col: 5, offset: 80853},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2512, col: 5, offset: 80833},
+														pos: position{line: 2512, col: 5, offset: 80853},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 5, offset: 80909},
+														pos:   position{line: 2515, col: 5, offset: 80929},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2516, col: 9, offset: 80927},
+															pos: position{line: 2516, col: 9, offset: 80947},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2516, col: 10, offset: 80928},
+																pos:        position{line: 2516, col: 10, offset: 80948},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46003,9 +45987,9 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2294, col: 49, offset: 74407},
-											val:        "[^\\r\\n ~]",
-											chars:      []rune{'\r', '\n', ' ', '~'},
+											pos:        position{line: 2294, col: 49, offset: 74423},
+											val:        "[^\\r\\n\\t ~]",
+											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
 											inverted:   true,
 										},
@@ -46019,15 +46003,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2298, col: 1, offset: 74464},
+			pos:  position{line: 2298, col: 1, offset: 74482},
 			expr: &actionExpr{
-				pos: position{line: 2300, col: 5, offset: 74531},
+				pos: position{line: 2300, col: 5, offset: 74549},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2300, col: 5, offset: 74531},
+					pos: position{line: 2300, col: 5, offset: 74549},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74531},
+							pos:   position{line: 2300, col: 5, offset: 74549},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1881, col: 25, offset: 60707},
@@ -46044,25 +46028,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74200},
+							pos: position{line: 2287, col: 32, offset: 74216},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74200},
+								pos:        position{line: 2287, col: 32, offset: 74216},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 5, offset: 74604},
+							pos:   position{line: 2302, col: 5, offset: 74622},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 14, offset: 74613},
+								pos:  position{line: 2302, col: 14, offset: 74631},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74164},
+							pos:        position{line: 2285, col: 27, offset: 74180},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46073,33 +46057,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2310, col: 1, offset: 74872},
+			pos:  position{line: 2310, col: 1, offset: 74890},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 74896},
+				pos: position{line: 2311, col: 5, offset: 74914},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 74896},
+					pos: position{line: 2311, col: 5, offset: 74914},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75165},
+							pos: position{line: 2319, col: 34, offset: 75183},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75165},
+								pos:        position{line: 2319, col: 34, offset: 75183},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74930},
+							pos:   position{line: 2312, col: 5, offset: 74948},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74939},
+								pos:  position{line: 2312, col: 14, offset: 74957},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75127},
+							pos:        position{line: 2317, col: 29, offset: 75145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46110,43 +46094,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2324, col: 1, offset: 75268},
+			pos:  position{line: 2324, col: 1, offset: 75286},
 			expr: &choiceExpr{
-				pos: position{line: 2324, col: 27, offset: 75294},
+				pos: position{line: 2324, col: 27, offset: 75312},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2324, col: 27, offset: 75294},
+						pos:  position{line: 2324, col: 27, offset: 75312},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2326, col: 23, offset: 75350},
+						pos: position{line: 2326, col: 23, offset: 75368},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2326, col: 23, offset: 75350},
+							pos:   position{line: 2326, col: 23, offset: 75368},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2326, col: 31, offset: 75358},
+								pos: position{line: 2326, col: 31, offset: 75376},
 								expr: &choiceExpr{
-									pos: position{line: 2326, col: 32, offset: 75359},
+									pos: position{line: 2326, col: 32, offset: 75377},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 5, offset: 80833},
+												pos: position{line: 2512, col: 5, offset: 80853},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2512, col: 5, offset: 80833},
+														pos: position{line: 2512, col: 5, offset: 80853},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 5, offset: 80909},
+														pos:   position{line: 2515, col: 5, offset: 80929},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2516, col: 9, offset: 80927},
+															pos: position{line: 2516, col: 9, offset: 80947},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2516, col: 10, offset: 80928},
+																pos:        position{line: 2516, col: 10, offset: 80948},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46158,9 +46142,9 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2326, col: 51, offset: 75378},
-											val:        "[^\\r\\n ^]",
-											chars:      []rune{'\r', '\n', ' ', '^'},
+											pos:        position{line: 2326, col: 51, offset: 75396},
+											val:        "[^\\r\\n\\t ^]",
+											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
 											inverted:   true,
 										},
@@ -46174,15 +46158,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75435},
+			pos:  position{line: 2330, col: 1, offset: 75455},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75507},
+				pos: position{line: 2332, col: 5, offset: 75527},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75507},
+					pos: position{line: 2332, col: 5, offset: 75527},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75507},
+							pos:   position{line: 2332, col: 5, offset: 75527},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1881, col: 25, offset: 60707},
@@ -46199,25 +46183,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75165},
+							pos: position{line: 2319, col: 34, offset: 75183},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75165},
+								pos:        position{line: 2319, col: 34, offset: 75183},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75582},
+							pos:   position{line: 2334, col: 5, offset: 75602},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75591},
+								pos:  position{line: 2334, col: 14, offset: 75611},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75127},
+							pos:        position{line: 2317, col: 29, offset: 75145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46228,27 +46212,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 76056},
+			pos:  position{line: 2343, col: 1, offset: 76076},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 76072},
+				pos: position{line: 2344, col: 5, offset: 76092},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 76072},
+					pos: position{line: 2344, col: 5, offset: 76092},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 76072},
+							pos: position{line: 2344, col: 5, offset: 76092},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76135},
+							pos:   position{line: 2347, col: 5, offset: 76155},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76142},
+								pos: position{line: 2347, col: 12, offset: 76162},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76142},
+									pos: position{line: 2347, col: 12, offset: 76162},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76143},
+										pos:        position{line: 2347, col: 13, offset: 76163},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46257,16 +46241,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76251},
+							pos: position{line: 2351, col: 5, offset: 76271},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2959, col: 11, offset: 93634},
+							pos: position{line: 2959, col: 11, offset: 93654},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2959, col: 11, offset: 93634},
+								pos: position{line: 2959, col: 11, offset: 93654},
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 11, offset: 93634},
+									pos:        position{line: 2959, col: 11, offset: 93654},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46275,36 +46259,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76410},
+							pos:   position{line: 2355, col: 12, offset: 76430},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76417},
+								pos:  position{line: 2355, col: 19, offset: 76437},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46313,9 +46297,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -46326,24 +46310,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76513},
+			pos:  position{line: 2359, col: 1, offset: 76533},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76534},
+				pos: position{line: 2360, col: 5, offset: 76554},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76534},
+					pos: position{line: 2360, col: 5, offset: 76554},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76534},
+							pos: position{line: 2360, col: 5, offset: 76554},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76678},
+							pos:   position{line: 2366, col: 5, offset: 76698},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76687},
+								pos: position{line: 2366, col: 14, offset: 76707},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76688},
+									pos:  position{line: 2366, col: 15, offset: 76708},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46354,38 +46338,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76769},
+			pos:  position{line: 2370, col: 1, offset: 76789},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76796},
+				pos: position{line: 2371, col: 5, offset: 76816},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76796},
+					pos: position{line: 2371, col: 5, offset: 76816},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76796},
+							pos: position{line: 2371, col: 5, offset: 76816},
 							expr: &choiceExpr{
-								pos: position{line: 2977, col: 8, offset: 93971},
+								pos: position{line: 2977, col: 8, offset: 93991},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93744},
+										pos: position{line: 2964, col: 12, offset: 93764},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93745},
+											pos: position{line: 2964, col: 13, offset: 93765},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93745},
+													pos:        position{line: 2964, col: 13, offset: 93765},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93752},
+													pos:        position{line: 2964, col: 20, offset: 93772},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93761},
+													pos:        position{line: 2964, col: 29, offset: 93781},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46394,45 +46378,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2974, col: 8, offset: 93921},
+										pos: position{line: 2974, col: 8, offset: 93941},
 										expr: &anyMatcher{
-											line: 2974, col: 9, offset: 93922,
+											line: 2974, col: 9, offset: 93942,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76805},
+							pos:   position{line: 2372, col: 5, offset: 76825},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76823},
+								pos: position{line: 2373, col: 9, offset: 76843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89668},
+										pos: position{line: 2818, col: 5, offset: 89688},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89668},
+											pos: position{line: 2818, col: 5, offset: 89688},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89668},
+													pos: position{line: 2818, col: 5, offset: 89688},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89679},
+														pos: position{line: 2819, col: 9, offset: 89699},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89679},
+																pos: position{line: 2819, col: 9, offset: 89699},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89742},
+																pos:   position{line: 2822, col: 9, offset: 89762},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89054},
+																	pos: position{line: 2794, col: 18, offset: 89074},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89055},
+																		pos: position{line: 2794, col: 19, offset: 89075},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89055},
+																			pos:        position{line: 2794, col: 19, offset: 89075},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46443,28 +46427,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89763},
+																pos:        position{line: 2822, col: 30, offset: 89783},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89850},
+																pos: position{line: 2823, col: 9, offset: 89870},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89962},
+													pos:   position{line: 2827, col: 5, offset: 89982},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89968},
+														pos: position{line: 2827, col: 11, offset: 89988},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89968},
+															pos: position{line: 2827, col: 11, offset: 89988},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89968},
+																pos:        position{line: 2827, col: 11, offset: 89988},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46474,32 +46458,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90026},
+													pos: position{line: 2830, col: 5, offset: 90046},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90037},
+														pos: position{line: 2831, col: 9, offset: 90057},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90037},
+																pos:        position{line: 2831, col: 9, offset: 90057},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90086},
+																pos: position{line: 2832, col: 9, offset: 90106},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90166},
+													pos: position{line: 2836, col: 5, offset: 90186},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90177},
+														pos: position{line: 2837, col: 9, offset: 90197},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90177},
+																pos: position{line: 2837, col: 9, offset: 90197},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90177},
+																	pos:        position{line: 2837, col: 9, offset: 90197},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46508,13 +46492,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90191},
+																pos:        position{line: 2837, col: 23, offset: 90211},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90195},
+																pos:        position{line: 2837, col: 27, offset: 90215},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46527,12 +46511,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 11, offset: 93634},
+										pos: position{line: 2959, col: 11, offset: 93654},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2959, col: 11, offset: 93634},
+											pos: position{line: 2959, col: 11, offset: 93654},
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 11, offset: 93634},
+												pos:        position{line: 2959, col: 11, offset: 93654},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46541,21 +46525,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 82004},
+										pos: position{line: 2543, col: 5, offset: 82024},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 82004},
+											pos: position{line: 2543, col: 5, offset: 82024},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 82004},
+													pos:        position{line: 2543, col: 5, offset: 82024},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 82009},
+													pos: position{line: 2543, col: 10, offset: 82029},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 82010},
+														pos:        position{line: 2543, col: 11, offset: 82030},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46566,29 +46550,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82196},
+										pos: position{line: 2549, col: 5, offset: 82216},
 										run: (*parser).callonSectionTitleElement47,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82196},
+											pos: position{line: 2549, col: 5, offset: 82216},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82196},
+													pos: position{line: 2549, col: 5, offset: 82216},
 													run: (*parser).callonSectionTitleElement49,
 												},
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82267},
+													pos: position{line: 2552, col: 5, offset: 82287},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82392},
+													pos:        position{line: 2556, col: 5, offset: 82412},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82396},
+													pos: position{line: 2556, col: 9, offset: 82416},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82397},
+														pos:        position{line: 2556, col: 10, offset: 82417},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46599,31 +46583,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76888},
+										pos:  position{line: 2376, col: 11, offset: 76908},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90388},
+										pos: position{line: 2845, col: 5, offset: 90408},
 										run: (*parser).callonSectionTitleElement55,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90398},
+											pos: position{line: 2846, col: 9, offset: 90418},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90399},
+													pos:        position{line: 2846, col: 10, offset: 90419},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90496},
+													pos: position{line: 2848, col: 13, offset: 90516},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90496},
+															pos: position{line: 2848, col: 13, offset: 90516},
 															run: (*parser).callonSectionTitleElement59,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90596},
+															pos:        position{line: 2851, col: 13, offset: 90616},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46631,20 +46615,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90602},
+													pos:        position{line: 2851, col: 19, offset: 90622},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90640},
+													pos: position{line: 2854, col: 13, offset: 90660},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90640},
+															pos: position{line: 2854, col: 13, offset: 90660},
 															run: (*parser).callonSectionTitleElement63,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90733},
+															pos:        position{line: 2857, col: 14, offset: 90753},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46653,18 +46637,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90777},
+													pos: position{line: 2859, col: 12, offset: 90797},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90777},
+															pos:        position{line: 2859, col: 12, offset: 90797},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90781},
+															pos: position{line: 2859, col: 16, offset: 90801},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90782},
+																pos:        position{line: 2859, col: 17, offset: 90802},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46676,35 +46660,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76961},
+										pos:  position{line: 2378, col: 11, offset: 76981},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76977},
+										pos:  position{line: 2379, col: 11, offset: 76997},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77005},
+										pos:  position{line: 2380, col: 11, offset: 77025},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80833},
+										pos: position{line: 2512, col: 5, offset: 80853},
 										run: (*parser).callonSectionTitleElement72,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80833},
+													pos: position{line: 2512, col: 5, offset: 80853},
 													run: (*parser).callonSectionTitleElement74,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80909},
+													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80927},
+														pos: position{line: 2516, col: 9, offset: 80947},
 														run: (*parser).callonSectionTitleElement76,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80928},
+															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46716,7 +46700,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77090},
+										pos:  position{line: 2382, col: 11, offset: 77110},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47105,17 +47089,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77543},
+										pos: position{line: 2395, col: 5, offset: 77563},
 										run: (*parser).callonSectionTitleElement156,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77543},
+											pos: position{line: 2395, col: 5, offset: 77563},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77543},
+													pos: position{line: 2395, col: 5, offset: 77563},
 													run: (*parser).callonSectionTitleElement158,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77598},
+													pos:   position{line: 2398, col: 5, offset: 77618},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -47569,12 +47553,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77619},
+													pos: position{line: 2398, col: 26, offset: 77639},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93573},
+														pos: position{line: 2955, col: 10, offset: 93593},
 														run: (*parser).callonSectionTitleElement252,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93573},
+															pos:        position{line: 2955, col: 10, offset: 93593},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47583,30 +47567,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77626},
+													pos: position{line: 2398, col: 33, offset: 77646},
 													expr: &choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93971},
+														pos: position{line: 2977, col: 8, offset: 93991},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93744},
+																pos: position{line: 2964, col: 12, offset: 93764},
 																run: (*parser).callonSectionTitleElement256,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93745},
+																	pos: position{line: 2964, col: 13, offset: 93765},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93745},
+																			pos:        position{line: 2964, col: 13, offset: 93765},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93752},
+																			pos:        position{line: 2964, col: 20, offset: 93772},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93761},
+																			pos:        position{line: 2964, col: 29, offset: 93781},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47615,9 +47599,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93921},
+																pos: position{line: 2974, col: 8, offset: 93941},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93922,
+																	line: 2974, col: 9, offset: 93942,
 																},
 															},
 														},
@@ -47642,12 +47626,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93225},
+														pos: position{line: 2940, col: 7, offset: 93245},
 														run: (*parser).callonSectionTitleElement267,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93225},
+															pos: position{line: 2940, col: 7, offset: 93245},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93225},
+																pos:        position{line: 2940, col: 7, offset: 93245},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47681,12 +47665,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93225},
+														pos: position{line: 2940, col: 7, offset: 93245},
 														run: (*parser).callonSectionTitleElement275,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93225},
+															pos: position{line: 2940, col: 7, offset: 93245},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93225},
+																pos:        position{line: 2940, col: 7, offset: 93245},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47705,14 +47689,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77344},
+										pos:  position{line: 2387, col: 11, offset: 77364},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91042},
+										pos: position{line: 2867, col: 12, offset: 91062},
 										run: (*parser).callonSectionTitleElement280,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91042},
+											pos:        position{line: 2867, col: 12, offset: 91062},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47728,61 +47712,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77888},
+			pos:  position{line: 2408, col: 1, offset: 77908},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77975},
+				pos: position{line: 2409, col: 5, offset: 77995},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77975},
+					pos: position{line: 2409, col: 5, offset: 77995},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77975},
+							pos:   position{line: 2409, col: 5, offset: 77995},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 77984},
+								pos: position{line: 2409, col: 14, offset: 78004},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 78010},
+									pos: position{line: 2411, col: 9, offset: 78030},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 78010},
+										pos: position{line: 2411, col: 9, offset: 78030},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93907},
+												pos: position{line: 2972, col: 11, offset: 93927},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93909,
+													line: 2972, col: 13, offset: 93929,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 78025},
+												pos:   position{line: 2412, col: 9, offset: 78045},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 78047},
+													pos: position{line: 2413, col: 13, offset: 78067},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2818, col: 5, offset: 89668},
+															pos: position{line: 2818, col: 5, offset: 89688},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2818, col: 5, offset: 89668},
+																pos: position{line: 2818, col: 5, offset: 89688},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2818, col: 5, offset: 89668},
+																		pos: position{line: 2818, col: 5, offset: 89688},
 																		expr: &seqExpr{
-																			pos: position{line: 2819, col: 9, offset: 89679},
+																			pos: position{line: 2819, col: 9, offset: 89699},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2819, col: 9, offset: 89679},
+																					pos: position{line: 2819, col: 9, offset: 89699},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2822, col: 9, offset: 89742},
+																					pos:   position{line: 2822, col: 9, offset: 89762},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2794, col: 18, offset: 89054},
+																						pos: position{line: 2794, col: 18, offset: 89074},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2794, col: 19, offset: 89055},
+																							pos: position{line: 2794, col: 19, offset: 89075},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2794, col: 19, offset: 89055},
+																								pos:        position{line: 2794, col: 19, offset: 89075},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47793,28 +47777,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2822, col: 30, offset: 89763},
+																					pos:        position{line: 2822, col: 30, offset: 89783},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2823, col: 9, offset: 89850},
+																					pos: position{line: 2823, col: 9, offset: 89870},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2827, col: 5, offset: 89962},
+																		pos:   position{line: 2827, col: 5, offset: 89982},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 11, offset: 89968},
+																			pos: position{line: 2827, col: 11, offset: 89988},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 11, offset: 89968},
+																				pos: position{line: 2827, col: 11, offset: 89988},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 11, offset: 89968},
+																					pos:        position{line: 2827, col: 11, offset: 89988},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47824,32 +47808,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 90026},
+																		pos: position{line: 2830, col: 5, offset: 90046},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 90037},
+																			pos: position{line: 2831, col: 9, offset: 90057},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 90037},
+																					pos:        position{line: 2831, col: 9, offset: 90057},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2832, col: 9, offset: 90086},
+																					pos: position{line: 2832, col: 9, offset: 90106},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90166},
+																		pos: position{line: 2836, col: 5, offset: 90186},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90177},
+																			pos: position{line: 2837, col: 9, offset: 90197},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2837, col: 9, offset: 90177},
+																					pos: position{line: 2837, col: 9, offset: 90197},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2837, col: 9, offset: 90177},
+																						pos:        position{line: 2837, col: 9, offset: 90197},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47858,13 +47842,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2837, col: 23, offset: 90191},
+																					pos:        position{line: 2837, col: 23, offset: 90211},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 27, offset: 90195},
+																					pos:        position{line: 2837, col: 27, offset: 90215},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47877,12 +47861,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2959, col: 11, offset: 93634},
+															pos: position{line: 2959, col: 11, offset: 93654},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2959, col: 11, offset: 93634},
+																pos: position{line: 2959, col: 11, offset: 93654},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 11, offset: 93634},
+																	pos:        position{line: 2959, col: 11, offset: 93654},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47891,25 +47875,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78093},
+															pos:  position{line: 2415, col: 15, offset: 78113},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 82004},
+															pos: position{line: 2543, col: 5, offset: 82024},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 82004},
+																pos: position{line: 2543, col: 5, offset: 82024},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 82004},
+																		pos:        position{line: 2543, col: 5, offset: 82024},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 82009},
+																		pos: position{line: 2543, col: 10, offset: 82029},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 82010},
+																			pos:        position{line: 2543, col: 11, offset: 82030},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47920,29 +47904,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82196},
+															pos: position{line: 2549, col: 5, offset: 82216},
 															run: (*parser).callonNormalGroup45,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82196},
+																pos: position{line: 2549, col: 5, offset: 82216},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82196},
+																		pos: position{line: 2549, col: 5, offset: 82216},
 																		run: (*parser).callonNormalGroup47,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82267},
+																		pos: position{line: 2552, col: 5, offset: 82287},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82392},
+																		pos:        position{line: 2556, col: 5, offset: 82412},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82396},
+																		pos: position{line: 2556, col: 9, offset: 82416},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82397},
+																			pos:        position{line: 2556, col: 10, offset: 82417},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47953,27 +47937,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2845, col: 5, offset: 90388},
+															pos: position{line: 2845, col: 5, offset: 90408},
 															run: (*parser).callonNormalGroup52,
 															expr: &choiceExpr{
-																pos: position{line: 2846, col: 9, offset: 90398},
+																pos: position{line: 2846, col: 9, offset: 90418},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2846, col: 10, offset: 90399},
+																		pos:        position{line: 2846, col: 10, offset: 90419},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90496},
+																		pos: position{line: 2848, col: 13, offset: 90516},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90496},
+																				pos: position{line: 2848, col: 13, offset: 90516},
 																				run: (*parser).callonNormalGroup56,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2851, col: 13, offset: 90596},
+																				pos:        position{line: 2851, col: 13, offset: 90616},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47981,20 +47965,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2851, col: 19, offset: 90602},
+																		pos:        position{line: 2851, col: 19, offset: 90622},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2854, col: 13, offset: 90640},
+																		pos: position{line: 2854, col: 13, offset: 90660},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2854, col: 13, offset: 90640},
+																				pos: position{line: 2854, col: 13, offset: 90660},
 																				run: (*parser).callonNormalGroup60,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2857, col: 14, offset: 90733},
+																				pos:        position{line: 2857, col: 14, offset: 90753},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48003,18 +47987,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2859, col: 12, offset: 90777},
+																		pos: position{line: 2859, col: 12, offset: 90797},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2859, col: 12, offset: 90777},
+																				pos:        position{line: 2859, col: 12, offset: 90797},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2859, col: 16, offset: 90781},
+																				pos: position{line: 2859, col: 16, offset: 90801},
 																				expr: &litMatcher{
-																					pos:        position{line: 2859, col: 17, offset: 90782},
+																					pos:        position{line: 2859, col: 17, offset: 90802},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48026,25 +48010,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93744},
+															pos: position{line: 2964, col: 12, offset: 93764},
 															run: (*parser).callonNormalGroup66,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93745},
+																pos: position{line: 2964, col: 13, offset: 93765},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93745},
+																		pos:        position{line: 2964, col: 13, offset: 93765},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93752},
+																		pos:        position{line: 2964, col: 20, offset: 93772},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93761},
+																		pos:        position{line: 2964, col: 29, offset: 93781},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48399,35 +48383,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78260},
+															pos:  position{line: 2420, col: 15, offset: 78280},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78280},
+															pos:  position{line: 2421, col: 15, offset: 78300},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78369},
+															pos:  position{line: 2422, col: 15, offset: 78389},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80833},
+															pos: position{line: 2512, col: 5, offset: 80853},
 															run: (*parser).callonNormalGroup143,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80833},
+																pos: position{line: 2512, col: 5, offset: 80853},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80833},
+																		pos: position{line: 2512, col: 5, offset: 80853},
 																		run: (*parser).callonNormalGroup145,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80909},
+																		pos:   position{line: 2515, col: 5, offset: 80929},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80927},
+																			pos: position{line: 2516, col: 9, offset: 80947},
 																			run: (*parser).callonNormalGroup147,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80928},
+																				pos:        position{line: 2516, col: 10, offset: 80948},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48461,10 +48445,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonNormalGroup155,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48475,28 +48459,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93971},
+																			pos: position{line: 2977, col: 8, offset: 93991},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonNormalGroup159,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48505,9 +48489,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93921},
+																					pos: position{line: 2974, col: 8, offset: 93941},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93922,
+																						line: 2974, col: 9, offset: 93942,
 																					},
 																				},
 																			},
@@ -48517,7 +48501,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78551},
+															pos:  position{line: 2425, col: 15, offset: 78571},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -48560,10 +48544,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2867, col: 12, offset: 91042},
+															pos: position{line: 2867, col: 12, offset: 91062},
 															run: (*parser).callonNormalGroup175,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 12, offset: 91042},
+																pos:        position{line: 2867, col: 12, offset: 91062},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48579,9 +48563,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -48590,28 +48574,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 78989},
+			pos:  position{line: 2436, col: 1, offset: 79009},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 79022},
+				pos: position{line: 2437, col: 5, offset: 79042},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 79022},
+					pos: position{line: 2437, col: 5, offset: 79042},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 79022},
+							pos:   position{line: 2437, col: 5, offset: 79042},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 79031},
+								pos: position{line: 2437, col: 14, offset: 79051},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 79032},
+									pos:  position{line: 2437, col: 15, offset: 79052},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -48620,50 +48604,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79129},
+			pos:  position{line: 2441, col: 1, offset: 79149},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79169},
+				pos: position{line: 2442, col: 5, offset: 79189},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79169},
+					pos: position{line: 2442, col: 5, offset: 79189},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93907},
+							pos: position{line: 2972, col: 11, offset: 93927},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93909,
+								line: 2972, col: 13, offset: 93929,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79180},
+							pos:   position{line: 2443, col: 5, offset: 79200},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79198},
+								pos: position{line: 2444, col: 9, offset: 79218},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89668},
+										pos: position{line: 2818, col: 5, offset: 89688},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89668},
+											pos: position{line: 2818, col: 5, offset: 89688},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89668},
+													pos: position{line: 2818, col: 5, offset: 89688},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89679},
+														pos: position{line: 2819, col: 9, offset: 89699},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89679},
+																pos: position{line: 2819, col: 9, offset: 89699},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89742},
+																pos:   position{line: 2822, col: 9, offset: 89762},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89054},
+																	pos: position{line: 2794, col: 18, offset: 89074},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89055},
+																		pos: position{line: 2794, col: 19, offset: 89075},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89055},
+																			pos:        position{line: 2794, col: 19, offset: 89075},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48674,28 +48658,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89763},
+																pos:        position{line: 2822, col: 30, offset: 89783},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89850},
+																pos: position{line: 2823, col: 9, offset: 89870},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89962},
+													pos:   position{line: 2827, col: 5, offset: 89982},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89968},
+														pos: position{line: 2827, col: 11, offset: 89988},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89968},
+															pos: position{line: 2827, col: 11, offset: 89988},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89968},
+																pos:        position{line: 2827, col: 11, offset: 89988},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48705,32 +48689,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90026},
+													pos: position{line: 2830, col: 5, offset: 90046},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90037},
+														pos: position{line: 2831, col: 9, offset: 90057},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90037},
+																pos:        position{line: 2831, col: 9, offset: 90057},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90086},
+																pos: position{line: 2832, col: 9, offset: 90106},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90166},
+													pos: position{line: 2836, col: 5, offset: 90186},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90177},
+														pos: position{line: 2837, col: 9, offset: 90197},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90177},
+																pos: position{line: 2837, col: 9, offset: 90197},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90177},
+																	pos:        position{line: 2837, col: 9, offset: 90197},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48739,13 +48723,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90191},
+																pos:        position{line: 2837, col: 23, offset: 90211},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90195},
+																pos:        position{line: 2837, col: 27, offset: 90215},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48758,10 +48742,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93573},
+										pos: position{line: 2955, col: 10, offset: 93593},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93573},
+											pos:        position{line: 2955, col: 10, offset: 93593},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48769,31 +48753,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79236},
+										pos:  position{line: 2446, col: 11, offset: 79256},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90388},
+										pos: position{line: 2845, col: 5, offset: 90408},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90398},
+											pos: position{line: 2846, col: 9, offset: 90418},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90399},
+													pos:        position{line: 2846, col: 10, offset: 90419},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90496},
+													pos: position{line: 2848, col: 13, offset: 90516},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90496},
+															pos: position{line: 2848, col: 13, offset: 90516},
 															run: (*parser).callonAttributeStructuredValueElement39,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90596},
+															pos:        position{line: 2851, col: 13, offset: 90616},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48801,20 +48785,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90602},
+													pos:        position{line: 2851, col: 19, offset: 90622},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90640},
+													pos: position{line: 2854, col: 13, offset: 90660},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90640},
+															pos: position{line: 2854, col: 13, offset: 90660},
 															run: (*parser).callonAttributeStructuredValueElement43,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90733},
+															pos:        position{line: 2857, col: 14, offset: 90753},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48823,18 +48807,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90777},
+													pos: position{line: 2859, col: 12, offset: 90797},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90777},
+															pos:        position{line: 2859, col: 12, offset: 90797},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90781},
+															pos: position{line: 2859, col: 16, offset: 90801},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90782},
+																pos:        position{line: 2859, col: 17, offset: 90802},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48846,31 +48830,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79309},
+										pos:  position{line: 2448, col: 11, offset: 79329},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79325},
+										pos:  position{line: 2449, col: 11, offset: 79345},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80833},
+										pos: position{line: 2512, col: 5, offset: 80853},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80833},
+											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80833},
+													pos: position{line: 2512, col: 5, offset: 80853},
 													run: (*parser).callonAttributeStructuredValueElement53,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80909},
+													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80927},
+														pos: position{line: 2516, col: 9, offset: 80947},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80928},
+															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48921,25 +48905,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93744},
+										pos: position{line: 2964, col: 12, offset: 93764},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93745},
+											pos: position{line: 2964, col: 13, offset: 93765},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93745},
+													pos:        position{line: 2964, col: 13, offset: 93765},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93752},
+													pos:        position{line: 2964, col: 20, offset: 93772},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93761},
+													pos:        position{line: 2964, col: 29, offset: 93781},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48948,10 +48932,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91042},
+										pos: position{line: 2867, col: 12, offset: 91062},
 										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91042},
+											pos:        position{line: 2867, col: 12, offset: 91062},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48967,49 +48951,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79595},
+			pos:  position{line: 2460, col: 1, offset: 79615},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79677},
+				pos: position{line: 2462, col: 5, offset: 79697},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79677},
+					pos: position{line: 2462, col: 5, offset: 79697},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79677},
+							pos: position{line: 2462, col: 5, offset: 79697},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79742},
+							pos:   position{line: 2465, col: 5, offset: 79762},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79760},
+								pos: position{line: 2466, col: 9, offset: 79780},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79760},
+										pos:  position{line: 2466, col: 9, offset: 79780},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79781},
+										pos:  position{line: 2467, col: 11, offset: 79801},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79804},
+										pos:  position{line: 2468, col: 11, offset: 79824},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79820},
+										pos:  position{line: 2469, col: 11, offset: 79840},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79849},
+										pos:  position{line: 2470, col: 11, offset: 79869},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79875},
+										pos:  position{line: 2471, col: 11, offset: 79895},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79901},
+										pos:  position{line: 2472, col: 11, offset: 79921},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49028,12 +49012,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93225},
+														pos: position{line: 2940, col: 7, offset: 93245},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93225},
+															pos: position{line: 2940, col: 7, offset: 93245},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93225},
+																pos:        position{line: 2940, col: 7, offset: 93245},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49067,12 +49051,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93225},
+														pos: position{line: 2940, col: 7, offset: 93245},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93225},
+															pos: position{line: 2940, col: 7, offset: 93245},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93225},
+																pos:        position{line: 2940, col: 7, offset: 93245},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49114,17 +49098,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2809, col: 13, offset: 89521},
+																		pos:        position{line: 2809, col: 13, offset: 89541},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93573},
+																		pos: position{line: 2955, col: 10, offset: 93593},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93573},
+																			pos:        position{line: 2955, col: 10, offset: 93593},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49150,10 +49134,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49170,10 +49154,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49193,17 +49177,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2809, col: 13, offset: 89521},
+																							pos:        position{line: 2809, col: 13, offset: 89541},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49234,10 +49218,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49254,10 +49238,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93573},
+																			pos: position{line: 2955, col: 10, offset: 93593},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93573},
+																				pos:        position{line: 2955, col: 10, offset: 93593},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49277,17 +49261,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2809, col: 13, offset: 89521},
+																							pos:        position{line: 2809, col: 13, offset: 89541},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93573},
+																							pos: position{line: 2955, col: 10, offset: 93593},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93573},
+																								pos:        position{line: 2955, col: 10, offset: 93593},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49314,15 +49298,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 79980},
+										pos:  position{line: 2475, col: 11, offset: 80000},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80000},
+										pos:  position{line: 2476, col: 11, offset: 80020},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80023},
+										pos:  position{line: 2477, col: 11, offset: 80043},
 										name: "InlineMenu",
 									},
 								},
@@ -49334,22 +49318,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 80080},
+			pos:  position{line: 2481, col: 1, offset: 80100},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80168},
+				pos: position{line: 2483, col: 5, offset: 80188},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80168},
+					pos: position{line: 2483, col: 5, offset: 80188},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80168},
+							pos: position{line: 2483, col: 5, offset: 80188},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80245},
+							pos:   position{line: 2486, col: 5, offset: 80265},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80263},
+								pos: position{line: 2487, col: 9, offset: 80283},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44933},
@@ -49404,10 +49388,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93573},
+																					pos: position{line: 2955, col: 10, offset: 93593},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93573},
+																						pos:        position{line: 2955, col: 10, offset: 93593},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49418,25 +49402,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93744},
+																					pos: position{line: 2964, col: 12, offset: 93764},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93745},
+																						pos: position{line: 2964, col: 13, offset: 93765},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93745},
+																								pos:        position{line: 2964, col: 13, offset: 93765},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93752},
+																								pos:        position{line: 2964, col: 20, offset: 93772},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93761},
+																								pos:        position{line: 2964, col: 29, offset: 93781},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49473,7 +49457,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89521},
+														pos:        position{line: 2809, col: 13, offset: 89541},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49519,10 +49503,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49533,25 +49517,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49574,12 +49558,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93634},
+																									pos: position{line: 2959, col: 11, offset: 93654},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93634},
+																										pos: position{line: 2959, col: 11, offset: 93654},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93634},
+																											pos:        position{line: 2959, col: 11, offset: 93654},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49608,25 +49592,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93744},
+																							pos: position{line: 2964, col: 12, offset: 93764},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93745},
+																								pos: position{line: 2964, col: 13, offset: 93765},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93745},
+																										pos:        position{line: 2964, col: 13, offset: 93765},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93752},
+																										pos:        position{line: 2964, col: 20, offset: 93772},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93761},
+																										pos:        position{line: 2964, col: 29, offset: 93781},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49653,10 +49637,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93573},
+																				pos: position{line: 2955, col: 10, offset: 93593},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93573},
+																					pos:        position{line: 2955, col: 10, offset: 93593},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49667,25 +49651,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93744},
+																				pos: position{line: 2964, col: 12, offset: 93764},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93745},
+																					pos: position{line: 2964, col: 13, offset: 93765},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93745},
+																							pos:        position{line: 2964, col: 13, offset: 93765},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93752},
+																							pos:        position{line: 2964, col: 20, offset: 93772},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93761},
+																							pos:        position{line: 2964, col: 29, offset: 93781},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49721,7 +49705,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89521},
+														pos:        position{line: 2809, col: 13, offset: 89541},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49732,7 +49716,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80311},
+										pos:  position{line: 2487, col: 57, offset: 80331},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49744,16 +49728,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80371},
+			pos:  position{line: 2492, col: 1, offset: 80391},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80447},
+				pos: position{line: 2494, col: 5, offset: 80467},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80447},
+						pos: position{line: 2494, col: 5, offset: 80467},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80512},
+						pos:  position{line: 2497, col: 5, offset: 80532},
 						name: "QuotedText",
 					},
 				},
@@ -49761,22 +49745,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80525},
+			pos:  position{line: 2499, col: 1, offset: 80545},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80607},
+				pos: position{line: 2501, col: 5, offset: 80627},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80607},
+					pos: position{line: 2501, col: 5, offset: 80627},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80607},
+							pos: position{line: 2501, col: 5, offset: 80627},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80678},
+							pos:   position{line: 2504, col: 5, offset: 80698},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80696},
+								pos:  position{line: 2505, col: 9, offset: 80716},
 								name: "Symbol",
 							},
 						},
@@ -49786,103 +49770,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82449},
+			pos:  position{line: 2560, col: 1, offset: 82469},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82479},
+				pos: position{line: 2562, col: 5, offset: 82499},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82479},
+						pos: position{line: 2562, col: 5, offset: 82499},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82479},
+							pos: position{line: 2562, col: 5, offset: 82499},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82479},
+									pos:        position{line: 2562, col: 5, offset: 82499},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82484},
+									pos: position{line: 2562, col: 10, offset: 82504},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82484},
+											pos:  position{line: 2562, col: 10, offset: 82504},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83582},
+											pos: position{line: 2591, col: 14, offset: 83602},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83582},
+												pos:        position{line: 2591, col: 14, offset: 83602},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83648},
+											pos: position{line: 2595, col: 14, offset: 83668},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83648},
+												pos:        position{line: 2595, col: 14, offset: 83668},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83717},
+											pos: position{line: 2599, col: 15, offset: 83737},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83717},
+												pos:        position{line: 2599, col: 15, offset: 83737},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83782},
+											pos: position{line: 2603, col: 13, offset: 83802},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83782},
+												pos:        position{line: 2603, col: 13, offset: 83802},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84352},
+											pos: position{line: 2631, col: 21, offset: 84372},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84352},
+												pos:        position{line: 2631, col: 21, offset: 84372},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83938},
+											pos: position{line: 2610, col: 5, offset: 83958},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83938},
+												pos: position{line: 2610, col: 5, offset: 83958},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83938},
+														pos:        position{line: 2610, col: 5, offset: 83958},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83948},
+														pos: position{line: 2611, col: 5, offset: 83968},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 84035},
+														pos: position{line: 2615, col: 6, offset: 84055},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93573},
+																pos: position{line: 2955, col: 10, offset: 93593},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93573},
+																	pos:        position{line: 2955, col: 10, offset: 93593},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49890,30 +49874,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 84043},
+																pos: position{line: 2615, col: 14, offset: 84063},
 																expr: &choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93971},
+																	pos: position{line: 2977, col: 8, offset: 93991},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93744},
+																			pos: position{line: 2964, col: 12, offset: 93764},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93745},
+																				pos: position{line: 2964, col: 13, offset: 93765},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93745},
+																						pos:        position{line: 2964, col: 13, offset: 93765},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93752},
+																						pos:        position{line: 2964, col: 20, offset: 93772},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93761},
+																						pos:        position{line: 2964, col: 29, offset: 93781},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49922,9 +49906,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93921},
+																			pos: position{line: 2974, col: 8, offset: 93941},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93922,
+																				line: 2974, col: 9, offset: 93942,
 																			},
 																		},
 																	},
@@ -49936,53 +49920,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84163},
+											pos: position{line: 2620, col: 5, offset: 84183},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84163},
+												pos: position{line: 2620, col: 5, offset: 84183},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84163},
+														pos:        position{line: 2620, col: 5, offset: 84183},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84173},
+														pos: position{line: 2621, col: 5, offset: 84193},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84262},
+														pos: position{line: 2625, col: 5, offset: 84282},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84264},
+															pos: position{line: 2625, col: 7, offset: 84284},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2809, col: 13, offset: 89521},
+																	pos:        position{line: 2809, col: 13, offset: 89541},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93744},
+																	pos: position{line: 2964, col: 12, offset: 93764},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93745},
+																		pos: position{line: 2964, col: 13, offset: 93765},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93745},
+																				pos:        position{line: 2964, col: 13, offset: 93765},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93752},
+																				pos:        position{line: 2964, col: 20, offset: 93772},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93761},
+																				pos:        position{line: 2964, col: 29, offset: 93781},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49991,9 +49975,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -50003,30 +49987,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84422},
+											pos: position{line: 2635, col: 20, offset: 84442},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84422},
+												pos:        position{line: 2635, col: 20, offset: 84442},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84493},
+											pos: position{line: 2639, col: 21, offset: 84513},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84493},
+												pos:        position{line: 2639, col: 21, offset: 84513},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84563},
+											pos: position{line: 2643, col: 20, offset: 84583},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84563},
+												pos:        position{line: 2643, col: 20, offset: 84583},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50038,73 +50022,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82733},
+						pos:  position{line: 2566, col: 7, offset: 82753},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83582},
+						pos: position{line: 2591, col: 14, offset: 83602},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83582},
+							pos:        position{line: 2591, col: 14, offset: 83602},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83648},
+						pos: position{line: 2595, col: 14, offset: 83668},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83648},
+							pos:        position{line: 2595, col: 14, offset: 83668},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83717},
+						pos: position{line: 2599, col: 15, offset: 83737},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83717},
+							pos:        position{line: 2599, col: 15, offset: 83737},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83782},
+						pos: position{line: 2603, col: 13, offset: 83802},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83782},
+							pos:        position{line: 2603, col: 13, offset: 83802},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83938},
+						pos: position{line: 2610, col: 5, offset: 83958},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83938},
+							pos: position{line: 2610, col: 5, offset: 83958},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83938},
+									pos:        position{line: 2610, col: 5, offset: 83958},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83948},
+									pos: position{line: 2611, col: 5, offset: 83968},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 84035},
+									pos: position{line: 2615, col: 6, offset: 84055},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93573},
+											pos: position{line: 2955, col: 10, offset: 93593},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93573},
+												pos:        position{line: 2955, col: 10, offset: 93593},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50112,30 +50096,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 84043},
+											pos: position{line: 2615, col: 14, offset: 84063},
 											expr: &choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93971},
+												pos: position{line: 2977, col: 8, offset: 93991},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93744},
+														pos: position{line: 2964, col: 12, offset: 93764},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93745},
+															pos: position{line: 2964, col: 13, offset: 93765},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93745},
+																	pos:        position{line: 2964, col: 13, offset: 93765},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93752},
+																	pos:        position{line: 2964, col: 20, offset: 93772},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93761},
+																	pos:        position{line: 2964, col: 29, offset: 93781},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50144,9 +50128,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93921},
+														pos: position{line: 2974, col: 8, offset: 93941},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93922,
+															line: 2974, col: 9, offset: 93942,
 														},
 													},
 												},
@@ -50158,53 +50142,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84163},
+						pos: position{line: 2620, col: 5, offset: 84183},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84163},
+							pos: position{line: 2620, col: 5, offset: 84183},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84163},
+									pos:        position{line: 2620, col: 5, offset: 84183},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84173},
+									pos: position{line: 2621, col: 5, offset: 84193},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84262},
+									pos: position{line: 2625, col: 5, offset: 84282},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84264},
+										pos: position{line: 2625, col: 7, offset: 84284},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89521},
+												pos:        position{line: 2809, col: 13, offset: 89541},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93744},
+												pos: position{line: 2964, col: 12, offset: 93764},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93745},
+													pos: position{line: 2964, col: 13, offset: 93765},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93745},
+															pos:        position{line: 2964, col: 13, offset: 93765},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93752},
+															pos:        position{line: 2964, col: 20, offset: 93772},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93761},
+															pos:        position{line: 2964, col: 29, offset: 93781},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50213,9 +50197,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2974, col: 8, offset: 93921},
+												pos: position{line: 2974, col: 8, offset: 93941},
 												expr: &anyMatcher{
-													line: 2974, col: 9, offset: 93922,
+													line: 2974, col: 9, offset: 93942,
 												},
 											},
 										},
@@ -50225,40 +50209,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84352},
+						pos: position{line: 2631, col: 21, offset: 84372},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84352},
+							pos:        position{line: 2631, col: 21, offset: 84372},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84422},
+						pos: position{line: 2635, col: 20, offset: 84442},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84422},
+							pos:        position{line: 2635, col: 20, offset: 84442},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84493},
+						pos: position{line: 2639, col: 21, offset: 84513},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84493},
+							pos:        position{line: 2639, col: 21, offset: 84513},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84563},
+						pos: position{line: 2643, col: 20, offset: 84583},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84563},
+							pos:        position{line: 2643, col: 20, offset: 84583},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50269,43 +50253,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82923},
+			pos:  position{line: 2577, col: 1, offset: 82943},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82945},
+				pos: position{line: 2578, col: 5, offset: 82965},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82945},
+						pos: position{line: 2578, col: 5, offset: 82965},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82945},
+							pos: position{line: 2578, col: 5, offset: 82965},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82945},
+									pos:        position{line: 2578, col: 5, offset: 82965},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82951},
+									pos: position{line: 2578, col: 11, offset: 82971},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68718},
+										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68718},
+												pos:        position{line: 2127, col: 5, offset: 68726},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68727},
+												pos: position{line: 2128, col: 5, offset: 68735},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68850},
+												pos: position{line: 2132, col: 5, offset: 68858},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68852},
+													pos: position{line: 2132, col: 7, offset: 68860},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68853},
+														pos:        position{line: 2132, col: 8, offset: 68861},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50319,21 +50303,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83104},
+						pos: position{line: 2581, col: 7, offset: 83124},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83104},
+							pos: position{line: 2581, col: 7, offset: 83124},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83104},
+									pos:        position{line: 2581, col: 7, offset: 83124},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83110},
+									pos: position{line: 2581, col: 13, offset: 83130},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83111},
+										pos:  position{line: 2581, col: 14, offset: 83131},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50341,38 +50325,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83261},
+						pos: position{line: 2584, col: 7, offset: 83281},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83261},
+							pos: position{line: 2584, col: 7, offset: 83281},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83261},
+									pos:        position{line: 2584, col: 7, offset: 83281},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83266},
+									pos: position{line: 2584, col: 12, offset: 83286},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68718},
+										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68718},
+												pos:        position{line: 2127, col: 5, offset: 68726},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68727},
+												pos: position{line: 2128, col: 5, offset: 68735},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68850},
+												pos: position{line: 2132, col: 5, offset: 68858},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68852},
+													pos: position{line: 2132, col: 7, offset: 68860},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68853},
+														pos:        position{line: 2132, col: 8, offset: 68861},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50386,21 +50370,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83419},
+						pos: position{line: 2587, col: 7, offset: 83439},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83419},
+							pos: position{line: 2587, col: 7, offset: 83439},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83419},
+									pos:        position{line: 2587, col: 7, offset: 83439},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83424},
+									pos: position{line: 2587, col: 12, offset: 83444},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83425},
+										pos:  position{line: 2587, col: 13, offset: 83445},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50412,63 +50396,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2720, col: 1, offset: 86465},
+			pos:  position{line: 2720, col: 1, offset: 86485},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 26, offset: 86490},
+				pos: position{line: 2720, col: 26, offset: 86510},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 26, offset: 86490},
+					pos: position{line: 2720, col: 26, offset: 86510},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 26, offset: 86490},
+							pos:   position{line: 2720, col: 26, offset: 86510},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2720, col: 31, offset: 86495},
+								pos: position{line: 2720, col: 31, offset: 86515},
 								expr: &actionExpr{
-									pos: position{line: 2725, col: 5, offset: 86558},
+									pos: position{line: 2725, col: 5, offset: 86578},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2725, col: 5, offset: 86558},
+										pos: position{line: 2725, col: 5, offset: 86578},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93907},
+												pos: position{line: 2972, col: 11, offset: 93927},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93909,
+													line: 2972, col: 13, offset: 93929,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2728, col: 5, offset: 86684},
+												pos:   position{line: 2728, col: 5, offset: 86704},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2728, col: 16, offset: 86695},
+													pos: position{line: 2728, col: 16, offset: 86715},
 													expr: &actionExpr{
-														pos: position{line: 2728, col: 17, offset: 86696},
+														pos: position{line: 2728, col: 17, offset: 86716},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2728, col: 17, offset: 86696},
+															pos: position{line: 2728, col: 17, offset: 86716},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2728, col: 17, offset: 86696},
+																	pos:   position{line: 2728, col: 17, offset: 86716},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2947, col: 12, offset: 93400},
+																		pos: position{line: 2947, col: 12, offset: 93420},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2947, col: 13, offset: 93401},
+																			pos: position{line: 2947, col: 13, offset: 93421},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2947, col: 13, offset: 93401},
+																					pos: position{line: 2947, col: 13, offset: 93421},
 																					expr: &litMatcher{
-																						pos:        position{line: 2947, col: 13, offset: 93401},
+																						pos:        position{line: 2947, col: 13, offset: 93421},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2947, col: 18, offset: 93406},
+																					pos: position{line: 2947, col: 18, offset: 93426},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2947, col: 18, offset: 93406},
+																						pos:        position{line: 2947, col: 18, offset: 93426},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50480,7 +50464,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2728, col: 27, offset: 86706},
+																	pos:        position{line: 2728, col: 27, offset: 86726},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50491,38 +50475,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2729, col: 5, offset: 86734},
+												pos:   position{line: 2729, col: 5, offset: 86754},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2729, col: 12, offset: 86741},
+													pos: position{line: 2729, col: 12, offset: 86761},
 													expr: &choiceExpr{
-														pos: position{line: 2730, col: 9, offset: 86751},
+														pos: position{line: 2730, col: 9, offset: 86771},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2730, col: 9, offset: 86751},
+																pos: position{line: 2730, col: 9, offset: 86771},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2730, col: 9, offset: 86751},
+																	pos:        position{line: 2730, col: 9, offset: 86771},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2731, col: 11, offset: 86798},
+																pos: position{line: 2731, col: 11, offset: 86818},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2731, col: 11, offset: 86798},
+																	pos:        position{line: 2731, col: 11, offset: 86818},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2732, col: 11, offset: 86846},
+																pos: position{line: 2732, col: 11, offset: 86866},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2732, col: 11, offset: 86846},
+																	pos:        position{line: 2732, col: 11, offset: 86866},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50533,38 +50517,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2734, col: 5, offset: 86896},
+												pos:   position{line: 2734, col: 5, offset: 86916},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2734, col: 12, offset: 86903},
+													pos: position{line: 2734, col: 12, offset: 86923},
 													expr: &choiceExpr{
-														pos: position{line: 2735, col: 9, offset: 86913},
+														pos: position{line: 2735, col: 9, offset: 86933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2735, col: 9, offset: 86913},
+																pos: position{line: 2735, col: 9, offset: 86933},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 9, offset: 86913},
+																	pos:        position{line: 2735, col: 9, offset: 86933},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 11, offset: 86960},
+																pos: position{line: 2736, col: 11, offset: 86980},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 11, offset: 86960},
+																	pos:        position{line: 2736, col: 11, offset: 86980},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2737, col: 11, offset: 87010},
+																pos: position{line: 2737, col: 11, offset: 87030},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 11, offset: 87010},
+																	pos:        position{line: 2737, col: 11, offset: 87030},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50575,32 +50559,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2739, col: 5, offset: 87061},
+												pos:   position{line: 2739, col: 5, offset: 87081},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2739, col: 12, offset: 87068},
+													pos: position{line: 2739, col: 12, offset: 87088},
 													expr: &choiceExpr{
-														pos: position{line: 2739, col: 13, offset: 87069},
+														pos: position{line: 2739, col: 13, offset: 87089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93400},
+																pos: position{line: 2947, col: 12, offset: 93420},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93401},
+																	pos: position{line: 2947, col: 13, offset: 93421},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93401},
+																			pos: position{line: 2947, col: 13, offset: 93421},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93401},
+																				pos:        position{line: 2947, col: 13, offset: 93421},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93406},
+																			pos: position{line: 2947, col: 18, offset: 93426},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93406},
+																				pos:        position{line: 2947, col: 18, offset: 93426},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50611,10 +50595,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 24, offset: 87080},
+																pos: position{line: 2739, col: 24, offset: 87100},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 24, offset: 87080},
+																	pos:        position{line: 2739, col: 24, offset: 87100},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50625,15 +50609,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2740, col: 5, offset: 87122},
+												pos:   position{line: 2740, col: 5, offset: 87142},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2740, col: 11, offset: 87128},
+													pos: position{line: 2740, col: 11, offset: 87148},
 													expr: &actionExpr{
-														pos: position{line: 2740, col: 12, offset: 87129},
+														pos: position{line: 2740, col: 12, offset: 87149},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2740, col: 12, offset: 87129},
+															pos:        position{line: 2740, col: 12, offset: 87149},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50643,12 +50627,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 87259},
+												pos:   position{line: 2742, col: 5, offset: 87279},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 11, offset: 87265},
+													pos: position{line: 2742, col: 11, offset: 87285},
 													expr: &litMatcher{
-														pos:        position{line: 2742, col: 12, offset: 87266},
+														pos:        position{line: 2742, col: 12, offset: 87286},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50656,7 +50640,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2743, col: 5, offset: 87276},
+												pos: position{line: 2743, col: 5, offset: 87296},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50665,9 +50649,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93921},
+							pos: position{line: 2974, col: 8, offset: 93941},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93922,
+								line: 2974, col: 9, offset: 93942,
 							},
 						},
 					},
@@ -50676,23 +50660,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2770, col: 1, offset: 88285},
+			pos:  position{line: 2770, col: 1, offset: 88305},
 			expr: &actionExpr{
-				pos: position{line: 2771, col: 5, offset: 88308},
+				pos: position{line: 2771, col: 5, offset: 88328},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2771, col: 5, offset: 88308},
+					pos: position{line: 2771, col: 5, offset: 88328},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2771, col: 5, offset: 88308},
+							pos:   position{line: 2771, col: 5, offset: 88328},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2794, col: 18, offset: 89054},
+								pos: position{line: 2794, col: 18, offset: 89074},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2794, col: 19, offset: 89055},
+									pos: position{line: 2794, col: 19, offset: 89075},
 									expr: &charClassMatcher{
-										pos:        position{line: 2794, col: 19, offset: 89055},
+										pos:        position{line: 2794, col: 19, offset: 89075},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50703,39 +50687,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2772, col: 5, offset: 88334},
+							pos: position{line: 2772, col: 5, offset: 88354},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2776, col: 5, offset: 88462},
+							pos:        position{line: 2776, col: 5, offset: 88482},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2777, col: 5, offset: 88472},
+							pos:   position{line: 2777, col: 5, offset: 88492},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 24, offset: 89216},
+								pos: position{line: 2802, col: 24, offset: 89236},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2802, col: 24, offset: 89216},
+									pos: position{line: 2802, col: 24, offset: 89236},
 									expr: &seqExpr{
-										pos: position{line: 2802, col: 25, offset: 89217},
+										pos: position{line: 2802, col: 25, offset: 89237},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2802, col: 25, offset: 89217},
+												pos: position{line: 2802, col: 25, offset: 89237},
 												expr: &litMatcher{
-													pos:        position{line: 2802, col: 26, offset: 89218},
+													pos:        position{line: 2802, col: 26, offset: 89238},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2802, col: 30, offset: 89222},
+												pos: position{line: 2802, col: 30, offset: 89242},
 												expr: &charClassMatcher{
-													pos:        position{line: 2802, col: 30, offset: 89222},
+													pos:        position{line: 2802, col: 30, offset: 89242},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50743,23 +50727,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2802, col: 41, offset: 89233},
+												pos: position{line: 2802, col: 41, offset: 89253},
 												expr: &seqExpr{
-													pos: position{line: 2802, col: 42, offset: 89234},
+													pos: position{line: 2802, col: 42, offset: 89254},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2802, col: 42, offset: 89234},
+															pos: position{line: 2802, col: 42, offset: 89254},
 															expr: &litMatcher{
-																pos:        position{line: 2802, col: 42, offset: 89234},
+																pos:        position{line: 2802, col: 42, offset: 89254},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2802, col: 47, offset: 89239},
+															pos: position{line: 2802, col: 47, offset: 89259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 47, offset: 89239},
+																pos:        position{line: 2802, col: 47, offset: 89259},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50775,36 +50759,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88505},
+							pos:   position{line: 2778, col: 5, offset: 88525},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2778, col: 17, offset: 88517},
+								pos:  position{line: 2778, col: 17, offset: 88537},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93971},
+							pos: position{line: 2977, col: 8, offset: 93991},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93744},
+									pos: position{line: 2964, col: 12, offset: 93764},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93745},
+										pos: position{line: 2964, col: 13, offset: 93765},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93745},
+												pos:        position{line: 2964, col: 13, offset: 93765},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93752},
+												pos:        position{line: 2964, col: 20, offset: 93772},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93761},
+												pos:        position{line: 2964, col: 29, offset: 93781},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50813,9 +50797,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93921},
+									pos: position{line: 2974, col: 8, offset: 93941},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93922,
+										line: 2974, col: 9, offset: 93942,
 									},
 								},
 							},
@@ -50826,23 +50810,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2782, col: 1, offset: 88665},
+			pos:  position{line: 2782, col: 1, offset: 88685},
 			expr: &actionExpr{
-				pos: position{line: 2783, col: 5, offset: 88689},
+				pos: position{line: 2783, col: 5, offset: 88709},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2783, col: 5, offset: 88689},
+					pos: position{line: 2783, col: 5, offset: 88709},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2783, col: 5, offset: 88689},
+							pos:   position{line: 2783, col: 5, offset: 88709},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2794, col: 18, offset: 89054},
+								pos: position{line: 2794, col: 18, offset: 89074},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2794, col: 19, offset: 89055},
+									pos: position{line: 2794, col: 19, offset: 89075},
 									expr: &charClassMatcher{
-										pos:        position{line: 2794, col: 19, offset: 89055},
+										pos:        position{line: 2794, col: 19, offset: 89075},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50853,39 +50837,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2784, col: 5, offset: 88715},
+							pos: position{line: 2784, col: 5, offset: 88735},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2788, col: 5, offset: 88843},
+							pos:        position{line: 2788, col: 5, offset: 88863},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2789, col: 5, offset: 88852},
+							pos:   position{line: 2789, col: 5, offset: 88872},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 19, offset: 89130},
+								pos: position{line: 2798, col: 19, offset: 89150},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2798, col: 19, offset: 89130},
+									pos: position{line: 2798, col: 19, offset: 89150},
 									expr: &seqExpr{
-										pos: position{line: 2798, col: 20, offset: 89131},
+										pos: position{line: 2798, col: 20, offset: 89151},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2798, col: 20, offset: 89131},
+												pos: position{line: 2798, col: 20, offset: 89151},
 												expr: &litMatcher{
-													pos:        position{line: 2798, col: 21, offset: 89132},
+													pos:        position{line: 2798, col: 21, offset: 89152},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2798, col: 25, offset: 89136},
+												pos: position{line: 2798, col: 25, offset: 89156},
 												expr: &charClassMatcher{
-													pos:        position{line: 2798, col: 25, offset: 89136},
+													pos:        position{line: 2798, col: 25, offset: 89156},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50898,10 +50882,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88880},
+							pos:   position{line: 2790, col: 5, offset: 88900},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2790, col: 17, offset: 88892},
+								pos:  position{line: 2790, col: 17, offset: 88912},
 								name: "InlineAttributes",
 							},
 						},
@@ -50911,43 +50895,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2882, col: 1, offset: 91381},
+			pos:  position{line: 2882, col: 1, offset: 91401},
 			expr: &actionExpr{
-				pos: position{line: 2882, col: 17, offset: 91397},
+				pos: position{line: 2882, col: 17, offset: 91417},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2882, col: 17, offset: 91397},
+					pos:   position{line: 2882, col: 17, offset: 91417},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2903, col: 5, offset: 91982},
+						pos: position{line: 2903, col: 5, offset: 92002},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2903, col: 5, offset: 91982},
+							pos:   position{line: 2903, col: 5, offset: 92002},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2903, col: 14, offset: 91991},
+								pos: position{line: 2903, col: 14, offset: 92011},
 								expr: &choiceExpr{
-									pos: position{line: 2904, col: 9, offset: 92001},
+									pos: position{line: 2904, col: 9, offset: 92021},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2904, col: 9, offset: 92001},
+											pos: position{line: 2904, col: 9, offset: 92021},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2904, col: 9, offset: 92001},
+												pos: position{line: 2904, col: 9, offset: 92021},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2904, col: 9, offset: 92001},
+														pos: position{line: 2904, col: 9, offset: 92021},
 														expr: &litMatcher{
-															pos:        position{line: 2904, col: 10, offset: 92002},
+															pos:        position{line: 2904, col: 10, offset: 92022},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2905, col: 9, offset: 92030},
+														pos: position{line: 2905, col: 9, offset: 92050},
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 92031},
+															pos:        position{line: 2905, col: 10, offset: 92051},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50958,27 +50942,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2908, col: 11, offset: 92243},
+											pos: position{line: 2908, col: 11, offset: 92263},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2908, col: 11, offset: 92243},
+													pos:        position{line: 2908, col: 11, offset: 92263},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2908, col: 19, offset: 92251},
+													pos: position{line: 2908, col: 19, offset: 92271},
 													expr: &seqExpr{
-														pos: position{line: 2908, col: 21, offset: 92253},
+														pos: position{line: 2908, col: 21, offset: 92273},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2908, col: 21, offset: 92253},
+																pos: position{line: 2908, col: 21, offset: 92273},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93573},
+																	pos: position{line: 2955, col: 10, offset: 93593},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93573},
+																		pos:        position{line: 2955, col: 10, offset: 93593},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50987,11 +50971,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 28, offset: 92260},
+																pos: position{line: 2908, col: 28, offset: 92280},
 																expr: &notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93921},
+																	pos: position{line: 2974, col: 8, offset: 93941},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93922,
+																		line: 2974, col: 9, offset: 93942,
 																	},
 																},
 															},
@@ -51386,10 +51370,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2911, col: 11, offset: 92380},
+											pos: position{line: 2911, col: 11, offset: 92400},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2911, col: 11, offset: 92380},
+												pos:        position{line: 2911, col: 11, offset: 92400},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -74865,27 +74849,15 @@ func (p *parser) callonSingleQuoteBoldText1() (interface{}, error) {
 	return p.cur.onSingleQuoteBoldText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteBoldTextElements4() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuoteBoldTextElements4() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuoteBoldTextElements4()
-}
-
-func (c *current) onSingleQuoteBoldTextElements9(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteBoldTextElements8(elements interface{}) (bool, error) {
 	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteBoldTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteBoldTextElements8() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteBoldTextElements8(stack["elements"])
 }
 
 func (c *current) onSingleQuoteBoldTextElements1(elements interface{}) (interface{}, error) {
@@ -75076,27 +75048,15 @@ func (p *parser) callonSingleQuoteItalicText1() (interface{}, error) {
 	return p.cur.onSingleQuoteItalicText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteItalicTextElements4() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuoteItalicTextElements4() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuoteItalicTextElements4()
-}
-
-func (c *current) onSingleQuoteItalicTextElements9(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteItalicTextElements8(elements interface{}) (bool, error) {
 	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteItalicTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteItalicTextElements8() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteItalicTextElements8(stack["elements"])
 }
 
 func (c *current) onSingleQuoteItalicTextElements1(elements interface{}) (interface{}, error) {
@@ -75287,27 +75247,15 @@ func (p *parser) callonSingleQuoteMonospaceText1() (interface{}, error) {
 	return p.cur.onSingleQuoteMonospaceText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteMonospaceTextElements4() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuoteMonospaceTextElements4() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElements4()
-}
-
-func (c *current) onSingleQuoteMonospaceTextElements9(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteMonospaceTextElements8(elements interface{}) (bool, error) {
 	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteMonospaceTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteMonospaceTextElements8() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMonospaceTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteMonospaceTextElements8(stack["elements"])
 }
 
 func (c *current) onSingleQuoteMonospaceTextElements1(elements interface{}) (interface{}, error) {
@@ -75484,27 +75432,15 @@ func (p *parser) callonSingleQuoteMarkedText1() (interface{}, error) {
 	return p.cur.onSingleQuoteMarkedText1(stack["elements"])
 }
 
-func (c *current) onSingleQuoteMarkedTextElements4() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSingleQuoteMarkedTextElements4() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElements4()
-}
-
-func (c *current) onSingleQuoteMarkedTextElements9(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteMarkedTextElements8(elements interface{}) (bool, error) {
 	return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
 
 }
 
-func (p *parser) callonSingleQuoteMarkedTextElements9() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedTextElements8() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedTextElements9(stack["elements"])
+	return p.cur.onSingleQuoteMarkedTextElements8(stack["elements"])
 }
 
 func (c *current) onSingleQuoteMarkedTextElements1(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 06c86b8..5d84212 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1961,7 +1961,7 @@ SingleQuoteBoldText <-
     } 
 
 SingleQuoteBoldTextElements <-  
-    !Space // cannot start with spaces
+    ![ \t\r\n] // cannot start with spaces
     elements:(SingleQuoteBoldTextElement)+ 
     &{
         return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
@@ -2054,7 +2054,7 @@ SingleQuoteItalicText <-
     } 
 
 SingleQuoteItalicTextElements <- 
-    !Space // cannot start with spaces
+    ![ \t\r\n] // cannot start with spaces
     elements:(SingleQuoteItalicTextElement)+
     &{
         return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
@@ -2149,7 +2149,7 @@ SingleQuoteMonospaceText <-
     } 
 
 SingleQuoteMonospaceTextElements <- 
-    !Space // cannot start with spaces
+    ![ \t\r\n] // cannot start with spaces
     elements:(SingleQuoteMonospaceTextElement)+
     &{
         return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
@@ -2241,7 +2241,7 @@ SingleQuoteMarkedText <-
     } 
 
 SingleQuoteMarkedTextElements <- 
-    !Space // cannot start with spaces
+    ![ \t\r\n] // cannot start with spaces
     elements:(SingleQuoteMarkedTextElement)+ 
     &{
         return validateSingleQuoteElements(elements.([]interface{})) // cannot end with spaces
@@ -2291,7 +2291,7 @@ SubscriptTextStartDelimiter <- "~" {
 
 SubscriptTextElement <- QuotedText / NonSubscriptText 
 
-NonSubscriptText <- content:(SpecialCharacter / [^\r\n ~])+ { // text
+NonSubscriptText <- content:(SpecialCharacter / [^\r\n\t ~])+ { // text
         return content, nil
     }
 
@@ -2323,7 +2323,7 @@ SuperscriptTextStartDelimiter <- "^" {
 
 SuperscriptTextElement <- QuotedText / NonSuperscriptText 
 
-NonSuperscriptText <- content:(SpecialCharacter / [^\r\n ^])+ { // text
+NonSuperscriptText <- content:(SpecialCharacter / [^\r\n\t ^])+ { // text
         return content, nil
     }
 
-- 
2.43.0


From d6367bc0cd35b3c6333920bace67a73c22e52ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:01 +0000
Subject: [PATCH 097/117] fix: escape the special characters of escaped arrows
 and links

---
 pkg/parser/parser_ext.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 114cf2d..4929194 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -139,7 +139,37 @@ type escapedText struct {
 	content string
 }
 
+// newEscapedText returns the given text as-is, but with its special characters if they are substituted
 func (c *current) newEscapedText(content string) (interface{}, error) {
+	if !strings.ContainsAny(content, "<>&") || c.isSubstitutionDisabled(SpecialCharacters) {
+		return c.newEscapedString(content)
+	}
+	elements := []interface{}{}
+	for len(content) > 0 {
+		i := strings.IndexAny(content, "<>&")
+		if i == 0 {
+			s, err := types.NewSpecialCharacter(content[:1])
+			if err != nil {
+				return nil, err
+			}
+			elements = append(elements, s)
+			content = content[1:]
+			continue
+		}
+		if i == -1 {
+			i = len(content)
+		}
+		s, err := c.newEscapedString(content[:i])
+		if err != nil {
+			return nil, err
+		}
+		elements = append(elements, s)
+		content = content[i:]
+	}
+	return elements, nil
+}
+
+func (c *current) newEscapedString(content string) (interface{}, error) {
 	for _, store := range []storeDict{c.state, c.globalStore} {
 		if enabled, ok := store[trackEscapedTextsKey].(bool); ok && enabled {
 			return &escapedText{content: content}, nil
-- 
2.43.0


From 7962d85b10ed34a305176f1cc2d898be865acee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:01 +0000
Subject: [PATCH 098/117] fix: render the escaped marks in passthroughs

---
 pkg/parser/document_processing_apply_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 49849ea..c3723ad 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -582,6 +582,10 @@ func resolveEscapedTexts(elements []interface{}) ([]interface{}, error) {
 			if e.Term, err = resolveEscapedTexts(e.Term); err != nil {
 				return nil, err
 			}
+		case *types.InlinePassthrough:
+			if e.Elements, err = resolveEscapedTexts(e.Elements); err != nil {
+				return nil, err
+			}
 		case types.WithElements:
 			elmts, err := resolveEscapedTexts(e.GetElements())
 			if err != nil {
-- 
2.43.0


From 735bda43d6ec9be744f46eec8c43c61f9fd286a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:05 +0000
Subject: [PATCH 099/117] fix: keep the backslashes before apostrophes where
 these are not replaced

---
 pkg/parser/parser.go  | 10378 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     3 +
 2 files changed, 5222 insertions(+), 5159 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 5b7a2e0..16996a3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93420},
+																pos: position{line: 2950, col: 12, offset: 93491},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93421},
+																	pos: position{line: 2950, col: 13, offset: 93492},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93421},
+																			pos: position{line: 2950, col: 13, offset: 93492},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93421},
+																				pos:        position{line: 2950, col: 13, offset: 93492},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93426},
+																			pos: position{line: 2950, col: 18, offset: 93497},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93426},
+																				pos:        position{line: 2950, col: 18, offset: 93497},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93420},
+																pos: position{line: 2950, col: 12, offset: 93491},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93421},
+																	pos: position{line: 2950, col: 13, offset: 93492},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93421},
+																			pos: position{line: 2950, col: 13, offset: 93492},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93421},
+																				pos:        position{line: 2950, col: 13, offset: 93492},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93426},
+																			pos: position{line: 2950, col: 18, offset: 93497},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93426},
+																				pos:        position{line: 2950, col: 18, offset: 93497},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89541},
+														pos:        position{line: 2812, col: 13, offset: 89612},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2959, col: 11, offset: 93654},
+													pos: position{line: 2962, col: 11, offset: 93725},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2959, col: 11, offset: 93654},
+														pos: position{line: 2962, col: 11, offset: 93725},
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 11, offset: 93654},
+															pos:        position{line: 2962, col: 11, offset: 93725},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2878, col: 14, offset: 91347},
+													pos: position{line: 2881, col: 14, offset: 91418},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2878, col: 14, offset: 91347},
+														pos: position{line: 2881, col: 14, offset: 91418},
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 14, offset: 91347},
+															pos:        position{line: 2881, col: 14, offset: 91418},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 17, offset: 91417},
+												pos: position{line: 2885, col: 17, offset: 91488},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2882, col: 17, offset: 91417},
+													pos:   position{line: 2885, col: 17, offset: 91488},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2947, col: 12, offset: 93420},
+																				pos: position{line: 2950, col: 12, offset: 93491},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2947, col: 13, offset: 93421},
+																					pos: position{line: 2950, col: 13, offset: 93492},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2947, col: 13, offset: 93421},
+																							pos: position{line: 2950, col: 13, offset: 93492},
 																							expr: &litMatcher{
-																								pos:        position{line: 2947, col: 13, offset: 93421},
+																								pos:        position{line: 2950, col: 13, offset: 93492},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2947, col: 18, offset: 93426},
+																							pos: position{line: 2950, col: 18, offset: 93497},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2947, col: 18, offset: 93426},
+																								pos:        position{line: 2950, col: 18, offset: 93497},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2947, col: 12, offset: 93420},
+																				pos: position{line: 2950, col: 12, offset: 93491},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2947, col: 13, offset: 93421},
+																					pos: position{line: 2950, col: 13, offset: 93492},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2947, col: 13, offset: 93421},
+																							pos: position{line: 2950, col: 13, offset: 93492},
 																							expr: &litMatcher{
-																								pos:        position{line: 2947, col: 13, offset: 93421},
+																								pos:        position{line: 2950, col: 13, offset: 93492},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2947, col: 18, offset: 93426},
+																							pos: position{line: 2950, col: 18, offset: 93497},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2947, col: 18, offset: 93426},
+																								pos:        position{line: 2950, col: 18, offset: 93497},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2947, col: 12, offset: 93420},
+																		pos: position{line: 2950, col: 12, offset: 93491},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2947, col: 13, offset: 93421},
+																			pos: position{line: 2950, col: 13, offset: 93492},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2947, col: 13, offset: 93421},
+																					pos: position{line: 2950, col: 13, offset: 93492},
 																					expr: &litMatcher{
-																						pos:        position{line: 2947, col: 13, offset: 93421},
+																						pos:        position{line: 2950, col: 13, offset: 93492},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2947, col: 18, offset: 93426},
+																					pos: position{line: 2950, col: 18, offset: 93497},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2947, col: 18, offset: 93426},
+																						pos:        position{line: 2950, col: 18, offset: 93497},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2947, col: 12, offset: 93420},
+																									pos: position{line: 2950, col: 12, offset: 93491},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2947, col: 13, offset: 93421},
+																										pos: position{line: 2950, col: 13, offset: 93492},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2947, col: 13, offset: 93421},
+																												pos: position{line: 2950, col: 13, offset: 93492},
 																												expr: &litMatcher{
-																													pos:        position{line: 2947, col: 13, offset: 93421},
+																													pos:        position{line: 2950, col: 13, offset: 93492},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2947, col: 18, offset: 93426},
+																												pos: position{line: 2950, col: 18, offset: 93497},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2947, col: 18, offset: 93426},
+																													pos:        position{line: 2950, col: 18, offset: 93497},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2947, col: 12, offset: 93420},
+																									pos: position{line: 2950, col: 12, offset: 93491},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2947, col: 13, offset: 93421},
+																										pos: position{line: 2950, col: 13, offset: 93492},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2947, col: 13, offset: 93421},
+																												pos: position{line: 2950, col: 13, offset: 93492},
 																												expr: &litMatcher{
-																													pos:        position{line: 2947, col: 13, offset: 93421},
+																													pos:        position{line: 2950, col: 13, offset: 93492},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2947, col: 18, offset: 93426},
+																												pos: position{line: 2950, col: 18, offset: 93497},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2947, col: 18, offset: 93426},
+																													pos:        position{line: 2950, col: 18, offset: 93497},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2947, col: 12, offset: 93420},
+																							pos: position{line: 2950, col: 12, offset: 93491},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2947, col: 13, offset: 93421},
+																								pos: position{line: 2950, col: 13, offset: 93492},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2947, col: 13, offset: 93421},
+																										pos: position{line: 2950, col: 13, offset: 93492},
 																										expr: &litMatcher{
-																											pos:        position{line: 2947, col: 13, offset: 93421},
+																											pos:        position{line: 2950, col: 13, offset: 93492},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2947, col: 18, offset: 93426},
+																										pos: position{line: 2950, col: 18, offset: 93497},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2947, col: 18, offset: 93426},
+																											pos:        position{line: 2950, col: 18, offset: 93497},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2947, col: 12, offset: 93420},
+														pos: position{line: 2950, col: 12, offset: 93491},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2947, col: 13, offset: 93421},
+															pos: position{line: 2950, col: 13, offset: 93492},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2947, col: 13, offset: 93421},
+																	pos: position{line: 2950, col: 13, offset: 93492},
 																	expr: &litMatcher{
-																		pos:        position{line: 2947, col: 13, offset: 93421},
+																		pos:        position{line: 2950, col: 13, offset: 93492},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2947, col: 18, offset: 93426},
+																	pos: position{line: 2950, col: 18, offset: 93497},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2947, col: 18, offset: 93426},
+																		pos:        position{line: 2950, col: 18, offset: 93497},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2947, col: 12, offset: 93420},
+														pos: position{line: 2950, col: 12, offset: 93491},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2947, col: 13, offset: 93421},
+															pos: position{line: 2950, col: 13, offset: 93492},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2947, col: 13, offset: 93421},
+																	pos: position{line: 2950, col: 13, offset: 93492},
 																	expr: &litMatcher{
-																		pos:        position{line: 2947, col: 13, offset: 93421},
+																		pos:        position{line: 2950, col: 13, offset: 93492},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2947, col: 18, offset: 93426},
+																	pos: position{line: 2950, col: 18, offset: 93497},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2947, col: 18, offset: 93426},
+																		pos:        position{line: 2950, col: 18, offset: 93497},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2947, col: 12, offset: 93420},
+												pos: position{line: 2950, col: 12, offset: 93491},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2947, col: 13, offset: 93421},
+													pos: position{line: 2950, col: 13, offset: 93492},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2947, col: 13, offset: 93421},
+															pos: position{line: 2950, col: 13, offset: 93492},
 															expr: &litMatcher{
-																pos:        position{line: 2947, col: 13, offset: 93421},
+																pos:        position{line: 2950, col: 13, offset: 93492},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2947, col: 18, offset: 93426},
+															pos: position{line: 2950, col: 18, offset: 93497},
 															expr: &charClassMatcher{
-																pos:        position{line: 2947, col: 18, offset: 93426},
+																pos:        position{line: 2950, col: 18, offset: 93497},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2813, col: 14, offset: 89615},
+																		pos: position{line: 2816, col: 14, offset: 89686},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2813, col: 14, offset: 89615},
+																			pos: position{line: 2816, col: 14, offset: 89686},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 14, offset: 89615},
+																				pos:        position{line: 2816, col: 14, offset: 89686},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2813, col: 14, offset: 89615},
+																				pos: position{line: 2816, col: 14, offset: 89686},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2813, col: 14, offset: 89615},
+																					pos: position{line: 2816, col: 14, offset: 89686},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2813, col: 14, offset: 89615},
+																						pos:        position{line: 2816, col: 14, offset: 89686},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2813, col: 14, offset: 89615},
+																							pos: position{line: 2816, col: 14, offset: 89686},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2813, col: 14, offset: 89615},
+																								pos: position{line: 2816, col: 14, offset: 89686},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2813, col: 14, offset: 89615},
+																									pos:        position{line: 2816, col: 14, offset: 89686},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2813, col: 14, offset: 89615},
+																									pos: position{line: 2816, col: 14, offset: 89686},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2813, col: 14, offset: 89615},
+																										pos: position{line: 2816, col: 14, offset: 89686},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2813, col: 14, offset: 89615},
+																											pos:        position{line: 2816, col: 14, offset: 89686},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2813, col: 14, offset: 89615},
+																pos: position{line: 2816, col: 14, offset: 89686},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2813, col: 14, offset: 89615},
+																	pos: position{line: 2816, col: 14, offset: 89686},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2813, col: 14, offset: 89615},
+																		pos:        position{line: 2816, col: 14, offset: 89686},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2813, col: 14, offset: 89615},
+																pos: position{line: 2816, col: 14, offset: 89686},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2813, col: 14, offset: 89615},
+																	pos: position{line: 2816, col: 14, offset: 89686},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2813, col: 14, offset: 89615},
+																		pos:        position{line: 2816, col: 14, offset: 89686},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2972, col: 11, offset: 93927},
+														pos: position{line: 2975, col: 11, offset: 93998},
 														expr: &anyMatcher{
-															line: 2972, col: 13, offset: 93929,
+															line: 2975, col: 13, offset: 94000,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91347},
+																			pos: position{line: 2881, col: 14, offset: 91418},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91347},
+																				pos: position{line: 2881, col: 14, offset: 91418},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91347},
+																					pos:        position{line: 2881, col: 14, offset: 91418},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2972, col: 11, offset: 93927},
+																									pos: position{line: 2975, col: 11, offset: 93998},
 																									expr: &anyMatcher{
-																										line: 2972, col: 13, offset: 93929,
+																										line: 2975, col: 13, offset: 94000,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 14, offset: 91347},
+																						pos: position{line: 2881, col: 14, offset: 91418},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2878, col: 14, offset: 91347},
+																							pos: position{line: 2881, col: 14, offset: 91418},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 14, offset: 91347},
+																								pos:        position{line: 2881, col: 14, offset: 91418},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -7202,12 +7202,12 @@ var g = &grammar{
 																					pos:   position{line: 1824, col: 5, offset: 58892},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 14, offset: 91347},
+																						pos: position{line: 2881, col: 14, offset: 91418},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2878, col: 14, offset: 91347},
+																							pos: position{line: 2881, col: 14, offset: 91418},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 14, offset: 91347},
+																								pos:        position{line: 2881, col: 14, offset: 91418},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,28 +7221,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2760, col: 18, offset: 87900},
+											pos: position{line: 2763, col: 18, offset: 87971},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2761, col: 9, offset: 87910},
+												pos: position{line: 2764, col: 9, offset: 87981},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87910},
+														pos: position{line: 2764, col: 9, offset: 87981},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87910},
+																pos:        position{line: 2764, col: 9, offset: 87981},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2761, col: 15, offset: 87916},
+																pos: position{line: 2764, col: 15, offset: 87987},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2762, col: 11, offset: 87949},
+														pos: position{line: 2765, col: 11, offset: 88020},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2762, col: 12, offset: 87950},
+																pos: position{line: 2765, col: 12, offset: 88021},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 12, offset: 87950},
+																		pos:        position{line: 2765, col: 12, offset: 88021},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 20, offset: 87958},
+																		pos:        position{line: 2765, col: 20, offset: 88029},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 30, offset: 87968},
+																		pos:        position{line: 2765, col: 30, offset: 88039},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 38, offset: 87976},
+																		pos:        position{line: 2765, col: 38, offset: 88047},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 48, offset: 87986},
+																		pos:        position{line: 2765, col: 48, offset: 88057},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2762, col: 56, offset: 87994},
+																		pos:        position{line: 2765, col: 56, offset: 88065},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2762, col: 65, offset: 88003},
+																pos: position{line: 2765, col: 65, offset: 88074},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2762, col: 76, offset: 88014},
+																pos: position{line: 2765, col: 76, offset: 88085},
 																expr: &choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 5, offset: 84836},
+											pos: position{line: 2654, col: 5, offset: 84907},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2651, col: 5, offset: 84836},
+												pos: position{line: 2654, col: 5, offset: 84907},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2657, col: 19, offset: 84993},
+														pos:        position{line: 2660, col: 19, offset: 85064},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2657, col: 26, offset: 85000},
+														pos: position{line: 2660, col: 26, offset: 85071},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2652, col: 5, offset: 84860},
+														pos:   position{line: 2655, col: 5, offset: 84931},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2652, col: 11, offset: 84866},
+															pos: position{line: 2655, col: 11, offset: 84937},
 															expr: &choiceExpr{
-																pos: position{line: 2652, col: 12, offset: 84867},
+																pos: position{line: 2655, col: 12, offset: 84938},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93927},
+																					pos: position{line: 2975, col: 11, offset: 93998},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93929,
+																						line: 2975, col: 13, offset: 94000,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2664, col: 5, offset: 85112},
+																		pos: position{line: 2667, col: 5, offset: 85183},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2664, col: 5, offset: 85112},
+																			pos: position{line: 2667, col: 5, offset: 85183},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2664, col: 5, offset: 85112},
+																					pos: position{line: 2667, col: 5, offset: 85183},
 																					expr: &choiceExpr{
-																						pos: position{line: 2661, col: 22, offset: 85073},
+																						pos: position{line: 2664, col: 22, offset: 85144},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2657, col: 19, offset: 84993},
+																								pos: position{line: 2660, col: 19, offset: 85064},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2657, col: 19, offset: 84993},
+																										pos:        position{line: 2660, col: 19, offset: 85064},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2657, col: 26, offset: 85000},
+																										pos: position{line: 2660, col: 26, offset: 85071},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93991},
+																										pos: position{line: 2980, col: 8, offset: 94062},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93764},
+																												pos: position{line: 2967, col: 12, offset: 93835},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93765},
+																													pos: position{line: 2967, col: 13, offset: 93836},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93765},
+																															pos:        position{line: 2967, col: 13, offset: 93836},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93772},
+																															pos:        position{line: 2967, col: 20, offset: 93843},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93781},
+																															pos:        position{line: 2967, col: 29, offset: 93852},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93941},
+																												pos: position{line: 2977, col: 8, offset: 94012},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93942,
+																													line: 2977, col: 9, offset: 94013,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2665, col: 5, offset: 85135},
+																					pos:   position{line: 2668, col: 5, offset: 85206},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2666, col: 9, offset: 85153},
+																						pos: position{line: 2669, col: 9, offset: 85224},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2666, col: 10, offset: 85154},
+																								pos: position{line: 2669, col: 10, offset: 85225},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2666, col: 10, offset: 85154},
+																									pos:   position{line: 2669, col: 10, offset: 85225},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2666, col: 17, offset: 85161},
+																										pos: position{line: 2669, col: 17, offset: 85232},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2674, col: 21, offset: 85357},
+																												pos: position{line: 2677, col: 21, offset: 85428},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2674, col: 21, offset: 85357},
+																													pos: position{line: 2677, col: 21, offset: 85428},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2674, col: 21, offset: 85357},
+																															pos:   position{line: 2677, col: 21, offset: 85428},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2674, col: 27, offset: 85363},
+																																pos: position{line: 2677, col: 27, offset: 85434},
 																																expr: &actionExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85438},
+																																	pos: position{line: 2682, col: 5, offset: 85509},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2679, col: 5, offset: 85438},
+																																		pos: position{line: 2682, col: 5, offset: 85509},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2679, col: 5, offset: 85438},
+																																				pos:        position{line: 2682, col: 5, offset: 85509},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2679, col: 9, offset: 85442},
+																																				pos: position{line: 2682, col: 9, offset: 85513},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2955, col: 10, offset: 93593},
+																																					pos: position{line: 2958, col: 10, offset: 93664},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2955, col: 10, offset: 93593},
+																																						pos:        position{line: 2958, col: 10, offset: 93664},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2679, col: 16, offset: 85449},
+																																				pos:   position{line: 2682, col: 16, offset: 85520},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2685, col: 5, offset: 85649},
+																																					pos: position{line: 2688, col: 5, offset: 85720},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2685, col: 5, offset: 85649},
+																																						pos:   position{line: 2688, col: 5, offset: 85720},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85658},
+																																							pos: position{line: 2688, col: 14, offset: 85729},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2685, col: 14, offset: 85658},
+																																								pos: position{line: 2688, col: 14, offset: 85729},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2685, col: 14, offset: 85658},
+																																									pos:        position{line: 2688, col: 14, offset: 85729},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2977, col: 8, offset: 93991},
+																															pos: position{line: 2980, col: 8, offset: 94062},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2964, col: 12, offset: 93764},
+																																	pos: position{line: 2967, col: 12, offset: 93835},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2964, col: 13, offset: 93765},
+																																		pos: position{line: 2967, col: 13, offset: 93836},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 13, offset: 93765},
+																																				pos:        position{line: 2967, col: 13, offset: 93836},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 20, offset: 93772},
+																																				pos:        position{line: 2967, col: 20, offset: 93843},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2964, col: 29, offset: 93781},
+																																				pos:        position{line: 2967, col: 29, offset: 93852},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2974, col: 8, offset: 93941},
+																																	pos: position{line: 2977, col: 8, offset: 94012},
 																																	expr: &anyMatcher{
-																																		line: 2974, col: 9, offset: 93942,
+																																		line: 2977, col: 9, offset: 94013,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2691, col: 24, offset: 85794},
+																												pos: position{line: 2694, col: 24, offset: 85865},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2691, col: 24, offset: 85794},
+																													pos:   position{line: 2694, col: 24, offset: 85865},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2691, col: 30, offset: 85800},
+																														pos: position{line: 2694, col: 30, offset: 85871},
 																														expr: &actionExpr{
-																															pos: position{line: 2696, col: 5, offset: 85876},
+																															pos: position{line: 2699, col: 5, offset: 85947},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2696, col: 5, offset: 85876},
+																																pos: position{line: 2699, col: 5, offset: 85947},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2696, col: 5, offset: 85876},
+																																		pos: position{line: 2699, col: 5, offset: 85947},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2661, col: 22, offset: 85073},
+																																			pos: position{line: 2664, col: 22, offset: 85144},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2657, col: 19, offset: 84993},
+																																					pos: position{line: 2660, col: 19, offset: 85064},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2657, col: 19, offset: 84993},
+																																							pos:        position{line: 2660, col: 19, offset: 85064},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2657, col: 26, offset: 85000},
+																																							pos: position{line: 2660, col: 26, offset: 85071},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2955, col: 10, offset: 93593},
+																																								pos: position{line: 2958, col: 10, offset: 93664},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2955, col: 10, offset: 93593},
+																																									pos:        position{line: 2958, col: 10, offset: 93664},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2977, col: 8, offset: 93991},
+																																							pos: position{line: 2980, col: 8, offset: 94062},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2964, col: 12, offset: 93764},
+																																									pos: position{line: 2967, col: 12, offset: 93835},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2964, col: 13, offset: 93765},
+																																										pos: position{line: 2967, col: 13, offset: 93836},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 13, offset: 93765},
+																																												pos:        position{line: 2967, col: 13, offset: 93836},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 20, offset: 93772},
+																																												pos:        position{line: 2967, col: 20, offset: 93843},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 29, offset: 93781},
+																																												pos:        position{line: 2967, col: 29, offset: 93852},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93941},
+																																									pos: position{line: 2977, col: 8, offset: 94012},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93942,
+																																										line: 2977, col: 9, offset: 94013,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2974, col: 8, offset: 93941},
+																																					pos: position{line: 2977, col: 8, offset: 94012},
 																																					expr: &anyMatcher{
-																																						line: 2974, col: 9, offset: 93942,
+																																						line: 2977, col: 9, offset: 94013,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2697, col: 5, offset: 85899},
+																																		pos: position{line: 2700, col: 5, offset: 85970},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2972, col: 11, offset: 93927},
+																																						pos: position{line: 2975, col: 11, offset: 93998},
 																																						expr: &anyMatcher{
-																																							line: 2972, col: 13, offset: 93929,
+																																							line: 2975, col: 13, offset: 94000,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2955, col: 10, offset: 93593},
+																																							pos: position{line: 2958, col: 10, offset: 93664},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2955, col: 10, offset: 93593},
+																																								pos:        position{line: 2958, col: 10, offset: 93664},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2977, col: 8, offset: 93991},
+																																						pos: position{line: 2980, col: 8, offset: 94062},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2964, col: 12, offset: 93764},
+																																								pos: position{line: 2967, col: 12, offset: 93835},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2964, col: 13, offset: 93765},
+																																									pos: position{line: 2967, col: 13, offset: 93836},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 13, offset: 93765},
+																																											pos:        position{line: 2967, col: 13, offset: 93836},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 20, offset: 93772},
+																																											pos:        position{line: 2967, col: 20, offset: 93843},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 29, offset: 93781},
+																																											pos:        position{line: 2967, col: 29, offset: 93852},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2974, col: 8, offset: 93941},
+																																								pos: position{line: 2977, col: 8, offset: 94012},
 																																								expr: &anyMatcher{
-																																									line: 2974, col: 9, offset: 93942,
+																																									line: 2977, col: 9, offset: 94013,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 5, offset: 85914},
+																																		pos:   position{line: 2701, col: 5, offset: 85985},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2698, col: 12, offset: 85921},
+																																			pos: position{line: 2701, col: 12, offset: 85992},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2715, col: 20, offset: 86385},
+																																				pos: position{line: 2718, col: 20, offset: 86456},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2715, col: 20, offset: 86385},
+																																					pos: position{line: 2718, col: 20, offset: 86456},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2715, col: 20, offset: 86385},
+																																						pos:        position{line: 2718, col: 20, offset: 86456},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2698, col: 31, offset: 85940},
+																																		pos:        position{line: 2701, col: 31, offset: 86011},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2698, col: 35, offset: 85944},
+																																		pos: position{line: 2701, col: 35, offset: 86015},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2955, col: 10, offset: 93593},
+																																			pos: position{line: 2958, col: 10, offset: 93664},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2955, col: 10, offset: 93593},
+																																				pos:        position{line: 2958, col: 10, offset: 93664},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 42, offset: 85951},
+																																		pos: position{line: 2701, col: 42, offset: 86022},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2964, col: 12, offset: 93764},
+																																			pos: position{line: 2967, col: 12, offset: 93835},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2964, col: 13, offset: 93765},
+																																				pos: position{line: 2967, col: 13, offset: 93836},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 13, offset: 93765},
+																																						pos:        position{line: 2967, col: 13, offset: 93836},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 20, offset: 93772},
+																																						pos:        position{line: 2967, col: 20, offset: 93843},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2964, col: 29, offset: 93781},
+																																						pos:        position{line: 2967, col: 29, offset: 93852},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2698, col: 51, offset: 85960},
+																																		pos:   position{line: 2701, col: 51, offset: 86031},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2704, col: 5, offset: 86119},
+																																			pos: position{line: 2707, col: 5, offset: 86190},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86129},
+																																				pos: position{line: 2708, col: 9, offset: 86200},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2705, col: 9, offset: 86129},
+																																					pos: position{line: 2708, col: 9, offset: 86200},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2705, col: 9, offset: 86129},
+																																							pos: position{line: 2708, col: 9, offset: 86200},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2661, col: 22, offset: 85073},
+																																								pos: position{line: 2664, col: 22, offset: 85144},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2657, col: 19, offset: 84993},
+																																										pos: position{line: 2660, col: 19, offset: 85064},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2657, col: 19, offset: 84993},
+																																												pos:        position{line: 2660, col: 19, offset: 85064},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2657, col: 26, offset: 85000},
+																																												pos: position{line: 2660, col: 26, offset: 85071},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2955, col: 10, offset: 93593},
+																																													pos: position{line: 2958, col: 10, offset: 93664},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2955, col: 10, offset: 93593},
+																																														pos:        position{line: 2958, col: 10, offset: 93664},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2977, col: 8, offset: 93991},
+																																												pos: position{line: 2980, col: 8, offset: 94062},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2964, col: 12, offset: 93764},
+																																														pos: position{line: 2967, col: 12, offset: 93835},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2964, col: 13, offset: 93765},
+																																															pos: position{line: 2967, col: 13, offset: 93836},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2974, col: 8, offset: 93941},
+																																														pos: position{line: 2977, col: 8, offset: 94012},
 																																														expr: &anyMatcher{
-																																															line: 2974, col: 9, offset: 93942,
+																																															line: 2977, col: 9, offset: 94013,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2974, col: 8, offset: 93941},
+																																										pos: position{line: 2977, col: 8, offset: 94012},
 																																										expr: &anyMatcher{
-																																											line: 2974, col: 9, offset: 93942,
+																																											line: 2977, col: 9, offset: 94013,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2706, col: 9, offset: 86156},
+																																							pos: position{line: 2709, col: 9, offset: 86227},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2972, col: 11, offset: 93927},
+																																											pos: position{line: 2975, col: 11, offset: 93998},
 																																											expr: &anyMatcher{
-																																												line: 2972, col: 13, offset: 93929,
+																																												line: 2975, col: 13, offset: 94000,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2955, col: 10, offset: 93593},
+																																												pos: position{line: 2958, col: 10, offset: 93664},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2955, col: 10, offset: 93593},
+																																													pos:        position{line: 2958, col: 10, offset: 93664},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2977, col: 8, offset: 93991},
+																																											pos: position{line: 2980, col: 8, offset: 94062},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2964, col: 12, offset: 93764},
+																																													pos: position{line: 2967, col: 12, offset: 93835},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2964, col: 13, offset: 93765},
+																																														pos: position{line: 2967, col: 13, offset: 93836},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2974, col: 8, offset: 93941},
+																																													pos: position{line: 2977, col: 8, offset: 94012},
 																																													expr: &anyMatcher{
-																																														line: 2974, col: 9, offset: 93942,
+																																														line: 2977, col: 9, offset: 94013,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2707, col: 9, offset: 86175},
+																																							pos: position{line: 2710, col: 9, offset: 86246},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2707, col: 11, offset: 86177},
+																																								pos: position{line: 2710, col: 11, offset: 86248},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2707, col: 11, offset: 86177},
+																																										pos:   position{line: 2710, col: 11, offset: 86248},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2707, col: 18, offset: 86184},
+																																											pos: position{line: 2710, col: 18, offset: 86255},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2715, col: 20, offset: 86385},
+																																												pos: position{line: 2718, col: 20, offset: 86456},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2715, col: 20, offset: 86385},
+																																													pos: position{line: 2718, col: 20, offset: 86456},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2715, col: 20, offset: 86385},
+																																														pos:        position{line: 2718, col: 20, offset: 86456},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2707, col: 37, offset: 86203},
+																																										pos:        position{line: 2710, col: 37, offset: 86274},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2708, col: 9, offset: 86216},
+																																							pos:   position{line: 2711, col: 9, offset: 86287},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2708, col: 18, offset: 86225},
+																																								pos: position{line: 2711, col: 18, offset: 86296},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2708, col: 18, offset: 86225},
+																																									pos: position{line: 2711, col: 18, offset: 86296},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2708, col: 18, offset: 86225},
+																																										pos:        position{line: 2711, col: 18, offset: 86296},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2710, col: 12, offset: 86287},
+																																							pos: position{line: 2713, col: 12, offset: 86358},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2977, col: 8, offset: 93991},
+																																								pos: position{line: 2980, col: 8, offset: 94062},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2964, col: 12, offset: 93764},
+																																										pos: position{line: 2967, col: 12, offset: 93835},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2964, col: 13, offset: 93765},
+																																											pos: position{line: 2967, col: 13, offset: 93836},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 13, offset: 93765},
+																																													pos:        position{line: 2967, col: 13, offset: 93836},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 20, offset: 93772},
+																																													pos:        position{line: 2967, col: 20, offset: 93843},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2964, col: 29, offset: 93781},
+																																													pos:        position{line: 2967, col: 29, offset: 93852},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2974, col: 8, offset: 93941},
+																																										pos: position{line: 2977, col: 8, offset: 94012},
 																																										expr: &anyMatcher{
-																																											line: 2974, col: 9, offset: 93942,
+																																											line: 2977, col: 9, offset: 94013,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2972, col: 11, offset: 93927},
+																											pos: position{line: 2975, col: 11, offset: 93998},
 																											expr: &anyMatcher{
-																												line: 2972, col: 13, offset: 93929,
+																												line: 2975, col: 13, offset: 94000,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2661, col: 22, offset: 85073},
+														pos: position{line: 2664, col: 22, offset: 85144},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84993},
+																pos: position{line: 2660, col: 19, offset: 85064},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84993},
+																		pos:        position{line: 2660, col: 19, offset: 85064},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 85000},
+																		pos: position{line: 2660, col: 26, offset: 85071},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -10167,12 +10167,12 @@ var g = &grammar{
 														pos:   position{line: 2525, col: 49, offset: 81334},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2874, col: 13, offset: 91280},
+																pos: position{line: 2877, col: 13, offset: 91351},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 91280},
+																	pos:        position{line: 2877, col: 13, offset: 91351},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93991},
+																										pos: position{line: 2980, col: 8, offset: 94062},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93764},
+																												pos: position{line: 2967, col: 12, offset: 93835},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93765},
+																													pos: position{line: 2967, col: 13, offset: 93836},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93765},
+																															pos:        position{line: 2967, col: 13, offset: 93836},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93772},
+																															pos:        position{line: 2967, col: 20, offset: 93843},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93781},
+																															pos:        position{line: 2967, col: 29, offset: 93852},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93941},
+																												pos: position{line: 2977, col: 8, offset: 94012},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93942,
+																													line: 2977, col: 9, offset: 94013,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2959, col: 11, offset: 93654},
+												pos: position{line: 2962, col: 11, offset: 93725},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2959, col: 11, offset: 93654},
+													pos: position{line: 2962, col: 11, offset: 93725},
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 11, offset: 93654},
+														pos:        position{line: 2962, col: 11, offset: 93725},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93764},
+												pos: position{line: 2967, col: 12, offset: 93835},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93765},
+													pos: position{line: 2967, col: 13, offset: 93836},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93765},
+															pos:        position{line: 2967, col: 13, offset: 93836},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93772},
+															pos:        position{line: 2967, col: 20, offset: 93843},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93781},
+															pos:        position{line: 2967, col: 29, offset: 93852},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93593},
+													pos: position{line: 2958, col: 10, offset: 93664},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93593},
+														pos:        position{line: 2958, col: 10, offset: 93664},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93593},
+											pos: position{line: 2958, col: 10, offset: 93664},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93593},
+												pos:        position{line: 2958, col: 10, offset: 93664},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2977, col: 8, offset: 93991},
+										pos: position{line: 2980, col: 8, offset: 94062},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93764},
+												pos: position{line: 2967, col: 12, offset: 93835},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93765},
+													pos: position{line: 2967, col: 13, offset: 93836},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93765},
+															pos:        position{line: 2967, col: 13, offset: 93836},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93772},
+															pos:        position{line: 2967, col: 20, offset: 93843},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93781},
+															pos:        position{line: 2967, col: 29, offset: 93852},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2974, col: 8, offset: 93941},
+												pos: position{line: 2977, col: 8, offset: 94012},
 												expr: &anyMatcher{
-													line: 2974, col: 9, offset: 93942,
+													line: 2977, col: 9, offset: 94013,
 												},
 											},
 										},
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93593},
+										pos: position{line: 2958, col: 10, offset: 93664},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93593},
+											pos:        position{line: 2958, col: 10, offset: 93664},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93593},
+													pos: position{line: 2958, col: 10, offset: 93664},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93593},
+														pos:        position{line: 2958, col: 10, offset: 93664},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93991},
+												pos: position{line: 2980, col: 8, offset: 94062},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93764},
+														pos: position{line: 2967, col: 12, offset: 93835},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93765},
+															pos: position{line: 2967, col: 13, offset: 93836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93765},
+																	pos:        position{line: 2967, col: 13, offset: 93836},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93772},
+																	pos:        position{line: 2967, col: 20, offset: 93843},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93781},
+																	pos:        position{line: 2967, col: 29, offset: 93852},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93941},
+														pos: position{line: 2977, col: 8, offset: 94012},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93942,
+															line: 2977, col: 9, offset: 94013,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2813, col: 14, offset: 89615},
+																				pos: position{line: 2816, col: 14, offset: 89686},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2813, col: 14, offset: 89615},
+																					pos: position{line: 2816, col: 14, offset: 89686},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2813, col: 14, offset: 89615},
+																						pos:        position{line: 2816, col: 14, offset: 89686},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2845, col: 5, offset: 90408},
+																				pos: position{line: 2848, col: 5, offset: 90479},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2846, col: 9, offset: 90418},
+																					pos: position{line: 2849, col: 9, offset: 90489},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90419},
+																							pos:        position{line: 2849, col: 10, offset: 90490},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2848, col: 13, offset: 90516},
+																							pos: position{line: 2851, col: 13, offset: 90587},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2848, col: 13, offset: 90516},
+																									pos: position{line: 2851, col: 13, offset: 90587},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90616},
+																									pos:        position{line: 2854, col: 13, offset: 90687},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2851, col: 19, offset: 90622},
+																							pos:        position{line: 2854, col: 19, offset: 90693},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2854, col: 13, offset: 90660},
+																							pos: position{line: 2857, col: 13, offset: 90731},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2854, col: 13, offset: 90660},
+																									pos: position{line: 2857, col: 13, offset: 90731},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2857, col: 14, offset: 90753},
+																									pos:        position{line: 2860, col: 14, offset: 90824},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2859, col: 12, offset: 90797},
+																							pos: position{line: 2862, col: 12, offset: 90868},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2859, col: 12, offset: 90797},
+																									pos:        position{line: 2862, col: 12, offset: 90868},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2859, col: 16, offset: 90801},
+																									pos: position{line: 2862, col: 16, offset: 90872},
 																									expr: &litMatcher{
-																										pos:        position{line: 2859, col: 17, offset: 90802},
+																										pos:        position{line: 2862, col: 17, offset: 90873},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2867, col: 12, offset: 91062},
+																				pos: position{line: 2870, col: 12, offset: 91133},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 12, offset: 91062},
+																					pos:        position{line: 2870, col: 12, offset: 91133},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93593},
+													pos: position{line: 2958, col: 10, offset: 93664},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93593},
+														pos:        position{line: 2958, col: 10, offset: 93664},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93991},
+												pos: position{line: 2980, col: 8, offset: 94062},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93764},
+														pos: position{line: 2967, col: 12, offset: 93835},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93765},
+															pos: position{line: 2967, col: 13, offset: 93836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93765},
+																	pos:        position{line: 2967, col: 13, offset: 93836},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93772},
+																	pos:        position{line: 2967, col: 20, offset: 93843},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93781},
+																	pos:        position{line: 2967, col: 29, offset: 93852},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93941},
+														pos: position{line: 2977, col: 8, offset: 94012},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93942,
+															line: 2977, col: 9, offset: 94013,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93593},
+													pos: position{line: 2958, col: 10, offset: 93664},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93593},
+														pos:        position{line: 2958, col: 10, offset: 93664},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93991},
+												pos: position{line: 2980, col: 8, offset: 94062},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93764},
+														pos: position{line: 2967, col: 12, offset: 93835},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93765},
+															pos: position{line: 2967, col: 13, offset: 93836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93765},
+																	pos:        position{line: 2967, col: 13, offset: 93836},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93772},
+																	pos:        position{line: 2967, col: 20, offset: 93843},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93781},
+																	pos:        position{line: 2967, col: 29, offset: 93852},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93941},
+														pos: position{line: 2977, col: 8, offset: 94012},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93942,
+															line: 2977, col: 9, offset: 94013,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93593},
+											pos: position{line: 2958, col: 10, offset: 93664},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93593},
+												pos:        position{line: 2958, col: 10, offset: 93664},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2955, col: 10, offset: 93593},
+													pos: position{line: 2958, col: 10, offset: 93664},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2955, col: 10, offset: 93593},
+														pos:        position{line: 2958, col: 10, offset: 93664},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93593},
+												pos: position{line: 2958, col: 10, offset: 93664},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93593},
+													pos:        position{line: 2958, col: 10, offset: 93664},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93593},
+											pos: position{line: 2958, col: 10, offset: 93664},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93593},
+												pos:        position{line: 2958, col: 10, offset: 93664},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93593},
+												pos: position{line: 2958, col: 10, offset: 93664},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93593},
+													pos:        position{line: 2958, col: 10, offset: 93664},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89615},
+									pos: position{line: 2816, col: 14, offset: 89686},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89615},
+										pos: position{line: 2816, col: 14, offset: 89686},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89615},
+											pos:        position{line: 2816, col: 14, offset: 89686},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93593},
+									pos: position{line: 2958, col: 10, offset: 93664},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93593},
+										pos:        position{line: 2958, col: 10, offset: 93664},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93593},
+												pos: position{line: 2958, col: 10, offset: 93664},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93593},
+													pos:        position{line: 2958, col: 10, offset: 93664},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89615},
+									pos: position{line: 2816, col: 14, offset: 89686},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89615},
+										pos: position{line: 2816, col: 14, offset: 89686},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89615},
+											pos:        position{line: 2816, col: 14, offset: 89686},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93593},
+									pos: position{line: 2958, col: 10, offset: 93664},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93593},
+										pos:        position{line: 2958, col: 10, offset: 93664},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93593},
+											pos: position{line: 2958, col: 10, offset: 93664},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93593},
+												pos:        position{line: 2958, col: 10, offset: 93664},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2940, col: 7, offset: 93245},
+										pos: position{line: 2943, col: 7, offset: 93316},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2940, col: 7, offset: 93245},
+											pos: position{line: 2943, col: 7, offset: 93316},
 											expr: &charClassMatcher{
-												pos:        position{line: 2940, col: 7, offset: 93245},
+												pos:        position{line: 2943, col: 7, offset: 93316},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93593},
+										pos: position{line: 2958, col: 10, offset: 93664},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93593},
+											pos:        position{line: 2958, col: 10, offset: 93664},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2940, col: 7, offset: 93245},
+										pos: position{line: 2943, col: 7, offset: 93316},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2940, col: 7, offset: 93245},
+											pos: position{line: 2943, col: 7, offset: 93316},
 											expr: &charClassMatcher{
-												pos:        position{line: 2940, col: 7, offset: 93245},
+												pos:        position{line: 2943, col: 7, offset: 93316},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2882, col: 17, offset: 91417},
+								pos: position{line: 2885, col: 17, offset: 91488},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2882, col: 17, offset: 91417},
+									pos:   position{line: 2885, col: 17, offset: 91488},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 5, offset: 92002},
+										pos: position{line: 2906, col: 5, offset: 92073},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2903, col: 5, offset: 92002},
+											pos:   position{line: 2906, col: 5, offset: 92073},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2903, col: 14, offset: 92011},
+												pos: position{line: 2906, col: 14, offset: 92082},
 												expr: &choiceExpr{
-													pos: position{line: 2904, col: 9, offset: 92021},
+													pos: position{line: 2907, col: 9, offset: 92092},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2904, col: 9, offset: 92021},
+															pos: position{line: 2907, col: 9, offset: 92092},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2904, col: 9, offset: 92021},
+																pos: position{line: 2907, col: 9, offset: 92092},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2904, col: 9, offset: 92021},
+																		pos: position{line: 2907, col: 9, offset: 92092},
 																		expr: &litMatcher{
-																			pos:        position{line: 2904, col: 10, offset: 92022},
+																			pos:        position{line: 2907, col: 10, offset: 92093},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2905, col: 9, offset: 92050},
+																		pos: position{line: 2908, col: 9, offset: 92121},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 92051},
+																			pos:        position{line: 2908, col: 10, offset: 92122},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2908, col: 11, offset: 92263},
+															pos: position{line: 2911, col: 11, offset: 92334},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2908, col: 11, offset: 92263},
+																	pos:        position{line: 2911, col: 11, offset: 92334},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2908, col: 19, offset: 92271},
+																	pos: position{line: 2911, col: 19, offset: 92342},
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 21, offset: 92273},
+																		pos: position{line: 2911, col: 21, offset: 92344},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 21, offset: 92273},
+																				pos: position{line: 2911, col: 21, offset: 92344},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93593},
+																					pos: position{line: 2958, col: 10, offset: 93664},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93593},
+																						pos:        position{line: 2958, col: 10, offset: 93664},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 28, offset: 92280},
+																				pos: position{line: 2911, col: 28, offset: 92351},
 																				expr: &notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2911, col: 11, offset: 92400},
+															pos: position{line: 2914, col: 11, offset: 92471},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2911, col: 11, offset: 92400},
+																pos:        position{line: 2914, col: 11, offset: 92471},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 14, offset: 91347},
+								pos: position{line: 2881, col: 14, offset: 91418},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2878, col: 14, offset: 91347},
+									pos: position{line: 2881, col: 14, offset: 91418},
 									expr: &charClassMatcher{
-										pos:        position{line: 2878, col: 14, offset: 91347},
+										pos:        position{line: 2881, col: 14, offset: 91418},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -16779,12 +16779,12 @@ var g = &grammar{
 													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91280},
+														pos: position{line: 2877, col: 13, offset: 91351},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91280},
+																pos:        position{line: 2877, col: 13, offset: 91351},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -17304,12 +17304,12 @@ var g = &grammar{
 													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91280},
+														pos: position{line: 2877, col: 13, offset: 91351},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91280},
+																pos:        position{line: 2877, col: 13, offset: 91351},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2972, col: 11, offset: 93927},
+																										pos: position{line: 2975, col: 11, offset: 93998},
 																										expr: &anyMatcher{
-																											line: 2972, col: 13, offset: 93929,
+																											line: 2975, col: 13, offset: 94000,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -18133,12 +18133,12 @@ var g = &grammar{
 																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91280},
+																			pos: position{line: 2877, col: 13, offset: 91351},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91280},
+																				pos: position{line: 2877, col: 13, offset: 91351},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91280},
+																					pos:        position{line: 2877, col: 13, offset: 91351},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2955, col: 10, offset: 93593},
+																																	pos: position{line: 2958, col: 10, offset: 93664},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2955, col: 10, offset: 93593},
+																																		pos:        position{line: 2958, col: 10, offset: 93664},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2977, col: 8, offset: 93991},
+																																pos: position{line: 2980, col: 8, offset: 94062},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2964, col: 12, offset: 93764},
+																																		pos: position{line: 2967, col: 12, offset: 93835},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2964, col: 13, offset: 93765},
+																																			pos: position{line: 2967, col: 13, offset: 93836},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 13, offset: 93765},
+																																					pos:        position{line: 2967, col: 13, offset: 93836},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 20, offset: 93772},
+																																					pos:        position{line: 2967, col: 20, offset: 93843},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 29, offset: 93781},
+																																					pos:        position{line: 2967, col: 29, offset: 93852},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2974, col: 8, offset: 93941},
+																																		pos: position{line: 2977, col: 8, offset: 94012},
 																																		expr: &anyMatcher{
-																																			line: 2974, col: 9, offset: 93942,
+																																			line: 2977, col: 9, offset: 94013,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2972, col: 11, offset: 93927},
+																											pos: position{line: 2975, col: 11, offset: 93998},
 																											expr: &anyMatcher{
-																												line: 2972, col: 13, offset: 93929,
+																												line: 2975, col: 13, offset: 94000,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2874, col: 13, offset: 91280},
+																												pos: position{line: 2877, col: 13, offset: 91351},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2874, col: 13, offset: 91280},
+																													pos: position{line: 2877, col: 13, offset: 91351},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 91280},
+																														pos:        position{line: 2877, col: 13, offset: 91351},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2955, col: 10, offset: 93593},
+															pos: position{line: 2958, col: 10, offset: 93664},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 10, offset: 93593},
+																pos:        position{line: 2958, col: 10, offset: 93664},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -19183,12 +19183,12 @@ var g = &grammar{
 														pos:   position{line: 2525, col: 49, offset: 81334},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2874, col: 13, offset: 91280},
+																pos: position{line: 2877, col: 13, offset: 91351},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 91280},
+																	pos:        position{line: 2877, col: 13, offset: 91351},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2955, col: 10, offset: 93593},
+																													pos: position{line: 2958, col: 10, offset: 93664},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2955, col: 10, offset: 93593},
+																														pos:        position{line: 2958, col: 10, offset: 93664},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2977, col: 8, offset: 93991},
+																												pos: position{line: 2980, col: 8, offset: 94062},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2964, col: 12, offset: 93764},
+																														pos: position{line: 2967, col: 12, offset: 93835},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2964, col: 13, offset: 93765},
+																															pos: position{line: 2967, col: 13, offset: 93836},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 13, offset: 93765},
+																																	pos:        position{line: 2967, col: 13, offset: 93836},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 20, offset: 93772},
+																																	pos:        position{line: 2967, col: 20, offset: 93843},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2964, col: 29, offset: 93781},
+																																	pos:        position{line: 2967, col: 29, offset: 93852},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2974, col: 8, offset: 93941},
+																														pos: position{line: 2977, col: 8, offset: 94012},
 																														expr: &anyMatcher{
-																															line: 2974, col: 9, offset: 93942,
+																															line: 2977, col: 9, offset: 94013,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2874, col: 13, offset: 91280},
+																									pos: position{line: 2877, col: 13, offset: 91351},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 91280},
+																										pos:        position{line: 2877, col: 13, offset: 91351},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2959, col: 11, offset: 93654},
+							pos: position{line: 2962, col: 11, offset: 93725},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2959, col: 11, offset: 93654},
+								pos: position{line: 2962, col: 11, offset: 93725},
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 11, offset: 93654},
+									pos:        position{line: 2962, col: 11, offset: 93725},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2940, col: 7, offset: 93245},
+								pos: position{line: 2943, col: 7, offset: 93316},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2940, col: 7, offset: 93245},
+									pos: position{line: 2943, col: 7, offset: 93316},
 									expr: &charClassMatcher{
-										pos:        position{line: 2940, col: 7, offset: 93245},
+										pos:        position{line: 2943, col: 7, offset: 93316},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2813, col: 14, offset: 89615},
+									pos: position{line: 2816, col: 14, offset: 89686},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2813, col: 14, offset: 89615},
+										pos: position{line: 2816, col: 14, offset: 89686},
 										expr: &charClassMatcher{
-											pos:        position{line: 2813, col: 14, offset: 89615},
+											pos:        position{line: 2816, col: 14, offset: 89686},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2955, col: 10, offset: 93593},
+									pos: position{line: 2958, col: 10, offset: 93664},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2955, col: 10, offset: 93593},
+										pos:        position{line: 2958, col: 10, offset: 93664},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 13, offset: 91513},
+								pos: position{line: 2889, col: 13, offset: 91584},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2886, col: 13, offset: 91513},
+									pos: position{line: 2889, col: 13, offset: 91584},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2886, col: 13, offset: 91513},
+											pos:   position{line: 2889, col: 13, offset: 91584},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2886, col: 20, offset: 91520},
+												pos: position{line: 2889, col: 20, offset: 91591},
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 11, offset: 91890},
+													pos: position{line: 2901, col: 11, offset: 91961},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 12, offset: 91891},
+														pos: position{line: 2901, col: 12, offset: 91962},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 12, offset: 91891},
+																pos:        position{line: 2901, col: 12, offset: 91962},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 24, offset: 91903},
+																pos:        position{line: 2901, col: 24, offset: 91974},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 37, offset: 91916},
+																pos:        position{line: 2901, col: 37, offset: 91987},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 48, offset: 91927},
+																pos:        position{line: 2901, col: 48, offset: 91998},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 59, offset: 91938},
+																pos:        position{line: 2901, col: 59, offset: 92009},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2886, col: 30, offset: 91530},
+											pos:   position{line: 2889, col: 30, offset: 91601},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 5, offset: 92002},
+												pos: position{line: 2906, col: 5, offset: 92073},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2903, col: 5, offset: 92002},
+													pos:   position{line: 2906, col: 5, offset: 92073},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2903, col: 14, offset: 92011},
+														pos: position{line: 2906, col: 14, offset: 92082},
 														expr: &choiceExpr{
-															pos: position{line: 2904, col: 9, offset: 92021},
+															pos: position{line: 2907, col: 9, offset: 92092},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2904, col: 9, offset: 92021},
+																		pos: position{line: 2907, col: 9, offset: 92092},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				expr: &litMatcher{
-																					pos:        position{line: 2904, col: 10, offset: 92022},
+																					pos:        position{line: 2907, col: 10, offset: 92093},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2905, col: 9, offset: 92050},
+																				pos: position{line: 2908, col: 9, offset: 92121},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 92051},
+																					pos:        position{line: 2908, col: 10, offset: 92122},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2908, col: 11, offset: 92263},
+																	pos: position{line: 2911, col: 11, offset: 92334},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2908, col: 11, offset: 92263},
+																			pos:        position{line: 2911, col: 11, offset: 92334},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2908, col: 19, offset: 92271},
+																			pos: position{line: 2911, col: 19, offset: 92342},
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 21, offset: 92273},
+																				pos: position{line: 2911, col: 21, offset: 92344},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 28, offset: 92280},
+																						pos: position{line: 2911, col: 28, offset: 92351},
 																						expr: &notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 11, offset: 92400},
+																	pos: position{line: 2914, col: 11, offset: 92471},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2911, col: 11, offset: 92400},
+																		pos:        position{line: 2914, col: 11, offset: 92471},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 13, offset: 91513},
+								pos: position{line: 2889, col: 13, offset: 91584},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2886, col: 13, offset: 91513},
+									pos: position{line: 2889, col: 13, offset: 91584},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2886, col: 13, offset: 91513},
+											pos:   position{line: 2889, col: 13, offset: 91584},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2886, col: 20, offset: 91520},
+												pos: position{line: 2889, col: 20, offset: 91591},
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 11, offset: 91890},
+													pos: position{line: 2901, col: 11, offset: 91961},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 12, offset: 91891},
+														pos: position{line: 2901, col: 12, offset: 91962},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 12, offset: 91891},
+																pos:        position{line: 2901, col: 12, offset: 91962},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 24, offset: 91903},
+																pos:        position{line: 2901, col: 24, offset: 91974},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 37, offset: 91916},
+																pos:        position{line: 2901, col: 37, offset: 91987},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 48, offset: 91927},
+																pos:        position{line: 2901, col: 48, offset: 91998},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 59, offset: 91938},
+																pos:        position{line: 2901, col: 59, offset: 92009},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2886, col: 30, offset: 91530},
+											pos:   position{line: 2889, col: 30, offset: 91601},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 5, offset: 92002},
+												pos: position{line: 2906, col: 5, offset: 92073},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2903, col: 5, offset: 92002},
+													pos:   position{line: 2906, col: 5, offset: 92073},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2903, col: 14, offset: 92011},
+														pos: position{line: 2906, col: 14, offset: 92082},
 														expr: &choiceExpr{
-															pos: position{line: 2904, col: 9, offset: 92021},
+															pos: position{line: 2907, col: 9, offset: 92092},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2904, col: 9, offset: 92021},
+																		pos: position{line: 2907, col: 9, offset: 92092},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				expr: &litMatcher{
-																					pos:        position{line: 2904, col: 10, offset: 92022},
+																					pos:        position{line: 2907, col: 10, offset: 92093},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2905, col: 9, offset: 92050},
+																				pos: position{line: 2908, col: 9, offset: 92121},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 92051},
+																					pos:        position{line: 2908, col: 10, offset: 92122},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2908, col: 11, offset: 92263},
+																	pos: position{line: 2911, col: 11, offset: 92334},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2908, col: 11, offset: 92263},
+																			pos:        position{line: 2911, col: 11, offset: 92334},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2908, col: 19, offset: 92271},
+																			pos: position{line: 2911, col: 19, offset: 92342},
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 21, offset: 92273},
+																				pos: position{line: 2911, col: 21, offset: 92344},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 28, offset: 92280},
+																						pos: position{line: 2911, col: 28, offset: 92351},
 																						expr: &notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2911, col: 11, offset: 92400},
+																	pos: position{line: 2914, col: 11, offset: 92471},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2911, col: 11, offset: 92400},
+																		pos:        position{line: 2914, col: 11, offset: 92471},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89688},
+										pos: position{line: 2821, col: 5, offset: 89759},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89688},
+											pos: position{line: 2821, col: 5, offset: 89759},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89688},
+													pos: position{line: 2821, col: 5, offset: 89759},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89699},
+														pos: position{line: 2822, col: 9, offset: 89770},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89699},
+																pos: position{line: 2822, col: 9, offset: 89770},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89762},
+																pos:   position{line: 2825, col: 9, offset: 89833},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89074},
+																	pos: position{line: 2797, col: 18, offset: 89145},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89075},
+																		pos: position{line: 2797, col: 19, offset: 89146},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89075},
+																			pos:        position{line: 2797, col: 19, offset: 89146},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89783},
+																pos:        position{line: 2825, col: 30, offset: 89854},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89870},
+																pos: position{line: 2826, col: 9, offset: 89941},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89982},
+													pos:   position{line: 2830, col: 5, offset: 90053},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89988},
+														pos: position{line: 2830, col: 11, offset: 90059},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89988},
+															pos: position{line: 2830, col: 11, offset: 90059},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89988},
+																pos:        position{line: 2830, col: 11, offset: 90059},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90046},
+													pos: position{line: 2833, col: 5, offset: 90117},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90057},
+														pos: position{line: 2834, col: 9, offset: 90128},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90057},
+																pos:        position{line: 2834, col: 9, offset: 90128},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90106},
+																pos: position{line: 2835, col: 9, offset: 90177},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90186},
+													pos: position{line: 2839, col: 5, offset: 90257},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90197},
+														pos: position{line: 2840, col: 9, offset: 90268},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90197},
+																pos: position{line: 2840, col: 9, offset: 90268},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90197},
+																	pos:        position{line: 2840, col: 9, offset: 90268},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90211},
+																pos:        position{line: 2840, col: 23, offset: 90282},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90215},
+																pos:        position{line: 2840, col: 27, offset: 90286},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 11, offset: 93654},
+										pos: position{line: 2962, col: 11, offset: 93725},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2959, col: 11, offset: 93654},
+											pos: position{line: 2962, col: 11, offset: 93725},
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 11, offset: 93654},
+												pos:        position{line: 2962, col: 11, offset: 93725},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21612,16 +21612,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2543, col: 5, offset: 82024},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2543, col: 5, offset: 82024},
+													run: (*parser).callonFootnoteElement37,
+												},
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 82024},
+													pos:        position{line: 2546, col: 5, offset: 82095},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 82029},
+													pos: position{line: 2546, col: 10, offset: 82100},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 82030},
+														pos:        position{line: 2546, col: 11, offset: 82101},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21632,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82216},
-										run: (*parser).callonFootnoteElement40,
+										pos: position{line: 2552, col: 5, offset: 82287},
+										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82216},
+											pos: position{line: 2552, col: 5, offset: 82287},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82216},
-													run: (*parser).callonFootnoteElement42,
-												},
 												&andCodeExpr{
 													pos: position{line: 2552, col: 5, offset: 82287},
 													run: (*parser).callonFootnoteElement43,
 												},
+												&andCodeExpr{
+													pos: position{line: 2555, col: 5, offset: 82358},
+													run: (*parser).callonFootnoteElement44,
+												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82412},
+													pos:        position{line: 2559, col: 5, offset: 82483},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82416},
+													pos: position{line: 2559, col: 9, offset: 82487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82417},
+														pos:        position{line: 2559, col: 10, offset: 82488},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21673,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90408},
-										run: (*parser).callonFootnoteElement49,
+										pos: position{line: 2848, col: 5, offset: 90479},
+										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90418},
+											pos: position{line: 2849, col: 9, offset: 90489},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90419},
+													pos:        position{line: 2849, col: 10, offset: 90490},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90516},
+													pos: position{line: 2851, col: 13, offset: 90587},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90516},
-															run: (*parser).callonFootnoteElement53,
+															pos: position{line: 2851, col: 13, offset: 90587},
+															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90616},
+															pos:        position{line: 2854, col: 13, offset: 90687},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21701,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90622},
+													pos:        position{line: 2854, col: 19, offset: 90693},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90660},
+													pos: position{line: 2857, col: 13, offset: 90731},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90660},
-															run: (*parser).callonFootnoteElement57,
+															pos: position{line: 2857, col: 13, offset: 90731},
+															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90753},
+															pos:        position{line: 2860, col: 14, offset: 90824},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21723,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90797},
+													pos: position{line: 2862, col: 12, offset: 90868},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90797},
+															pos:        position{line: 2862, col: 12, offset: 90868},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90801},
+															pos: position{line: 2862, col: 16, offset: 90872},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90802},
+																pos:        position{line: 2862, col: 17, offset: 90873},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21751,13 +21755,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1234, col: 5, offset: 38289},
-										run: (*parser).callonFootnoteElement64,
+										run: (*parser).callonFootnoteElement65,
 										expr: &seqExpr{
 											pos: position{line: 1234, col: 5, offset: 38289},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1234, col: 5, offset: 38289},
-													run: (*parser).callonFootnoteElement66,
+													run: (*parser).callonFootnoteElement67,
 												},
 												&litMatcher{
 													pos:        position{line: 1237, col: 5, offset: 38365},
@@ -21767,15 +21771,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1238, col: 5, offset: 38373},
-													run: (*parser).callonFootnoteElement68,
+													run: (*parser).callonFootnoteElement69,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
-														run: (*parser).callonFootnoteElement70,
+														pos: position{line: 2958, col: 10, offset: 93664},
+														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21786,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
-																run: (*parser).callonFootnoteElement74,
+																pos: position{line: 2967, col: 12, offset: 93835},
+																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21816,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -21829,13 +21833,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 656, col: 5, offset: 20755},
-										run: (*parser).callonFootnoteElement81,
+										run: (*parser).callonFootnoteElement82,
 										expr: &seqExpr{
 											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 656, col: 5, offset: 20755},
-													run: (*parser).callonFootnoteElement83,
+													run: (*parser).callonFootnoteElement84,
 												},
 												&labeledExpr{
 													pos:   position{line: 659, col: 5, offset: 20827},
@@ -21845,7 +21849,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 665, col: 5, offset: 20965},
-																run: (*parser).callonFootnoteElement86,
+																run: (*parser).callonFootnoteElement87,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
@@ -21860,7 +21864,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement90,
+																				run: (*parser).callonFootnoteElement91,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21898,7 +21902,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 672, col: 5, offset: 21233},
-																run: (*parser).callonFootnoteElement96,
+																run: (*parser).callonFootnoteElement97,
 																expr: &seqExpr{
 																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
@@ -21913,7 +21917,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement100,
+																				run: (*parser).callonFootnoteElement101,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -21951,7 +21955,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 678, col: 25, offset: 21437},
-																run: (*parser).callonFootnoteElement106,
+																run: (*parser).callonFootnoteElement107,
 																expr: &seqExpr{
 																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
@@ -21966,7 +21970,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement110,
+																				run: (*parser).callonFootnoteElement111,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -22000,7 +22004,7 @@ var g = &grammar{
 																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonFootnoteElement117,
+																					run: (*parser).callonFootnoteElement118,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -22018,7 +22022,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonFootnoteElement122,
+																											run: (*parser).callonFootnoteElement123,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -22029,7 +22033,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonFootnoteElement124,
+																											run: (*parser).callonFootnoteElement125,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -22060,7 +22064,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 682, col: 25, offset: 21608},
-																run: (*parser).callonFootnoteElement128,
+																run: (*parser).callonFootnoteElement129,
 																expr: &seqExpr{
 																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
@@ -22075,7 +22079,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonFootnoteElement132,
+																				run: (*parser).callonFootnoteElement133,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -22109,7 +22113,7 @@ var g = &grammar{
 																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonFootnoteElement139,
+																					run: (*parser).callonFootnoteElement140,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -22127,7 +22131,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonFootnoteElement144,
+																											run: (*parser).callonFootnoteElement145,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -22138,7 +22142,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonFootnoteElement146,
+																											run: (*parser).callonFootnoteElement147,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -22175,20 +22179,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2512, col: 5, offset: 80853},
-										run: (*parser).callonFootnoteElement150,
+										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
 											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2512, col: 5, offset: 80853},
-													run: (*parser).callonFootnoteElement152,
+													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
 													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2516, col: 9, offset: 80947},
-														run: (*parser).callonFootnoteElement154,
+														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
 															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
@@ -22202,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93764},
-										run: (*parser).callonFootnoteElement156,
+										pos: position{line: 2967, col: 12, offset: 93835},
+										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93765},
+											pos: position{line: 2967, col: 13, offset: 93836},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93765},
+													pos:        position{line: 2967, col: 13, offset: 93836},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93772},
+													pos:        position{line: 2967, col: 20, offset: 93843},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93781},
+													pos:        position{line: 2967, col: 29, offset: 93852},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22229,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91062},
-										run: (*parser).callonFootnoteElement161,
+										pos: position{line: 2870, col: 12, offset: 91133},
+										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91062},
+											pos:        position{line: 2870, col: 12, offset: 91133},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22364,55 +22368,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91640},
+										pos: position{line: 2893, col: 23, offset: 91711},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91640},
+											pos: position{line: 2893, col: 23, offset: 91711},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91640},
+													pos: position{line: 2893, col: 23, offset: 91711},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91641},
+														pos:        position{line: 2893, col: 24, offset: 91712},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91645},
+													pos:   position{line: 2893, col: 28, offset: 91716},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91890},
+														pos: position{line: 2901, col: 11, offset: 91961},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91891},
+															pos: position{line: 2901, col: 12, offset: 91962},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91891},
+																	pos:        position{line: 2901, col: 12, offset: 91962},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91903},
+																	pos:        position{line: 2901, col: 24, offset: 91974},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91916},
+																	pos:        position{line: 2901, col: 37, offset: 91987},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91927},
+																	pos:        position{line: 2901, col: 48, offset: 91998},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91938},
+																	pos:        position{line: 2901, col: 59, offset: 92009},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22422,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91661},
+													pos:   position{line: 2893, col: 44, offset: 91732},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22464,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22493,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -22892,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23097,48 +23101,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 13, offset: 91513},
+										pos: position{line: 2889, col: 13, offset: 91584},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2886, col: 13, offset: 91513},
+											pos: position{line: 2889, col: 13, offset: 91584},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2886, col: 13, offset: 91513},
+													pos:   position{line: 2889, col: 13, offset: 91584},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2886, col: 20, offset: 91520},
+														pos: position{line: 2889, col: 20, offset: 91591},
 														expr: &actionExpr{
-															pos: position{line: 2898, col: 11, offset: 91890},
+															pos: position{line: 2901, col: 11, offset: 91961},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 12, offset: 91891},
+																pos: position{line: 2901, col: 12, offset: 91962},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 12, offset: 91891},
+																		pos:        position{line: 2901, col: 12, offset: 91962},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 24, offset: 91903},
+																		pos:        position{line: 2901, col: 24, offset: 91974},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 37, offset: 91916},
+																		pos:        position{line: 2901, col: 37, offset: 91987},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 48, offset: 91927},
+																		pos:        position{line: 2901, col: 48, offset: 91998},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 59, offset: 91938},
+																		pos:        position{line: 2901, col: 59, offset: 92009},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23149,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2886, col: 30, offset: 91530},
+													pos:   position{line: 2889, col: 30, offset: 91601},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23191,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23220,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -23619,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23665,48 +23669,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 13, offset: 91513},
+										pos: position{line: 2889, col: 13, offset: 91584},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2886, col: 13, offset: 91513},
+											pos: position{line: 2889, col: 13, offset: 91584},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2886, col: 13, offset: 91513},
+													pos:   position{line: 2889, col: 13, offset: 91584},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2886, col: 20, offset: 91520},
+														pos: position{line: 2889, col: 20, offset: 91591},
 														expr: &actionExpr{
-															pos: position{line: 2898, col: 11, offset: 91890},
+															pos: position{line: 2901, col: 11, offset: 91961},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 12, offset: 91891},
+																pos: position{line: 2901, col: 12, offset: 91962},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 12, offset: 91891},
+																		pos:        position{line: 2901, col: 12, offset: 91962},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 24, offset: 91903},
+																		pos:        position{line: 2901, col: 24, offset: 91974},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 37, offset: 91916},
+																		pos:        position{line: 2901, col: 37, offset: 91987},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 48, offset: 91927},
+																		pos:        position{line: 2901, col: 48, offset: 91998},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 59, offset: 91938},
+																		pos:        position{line: 2901, col: 59, offset: 92009},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23717,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2886, col: 30, offset: 91530},
+													pos:   position{line: 2889, col: 30, offset: 91601},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23759,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23788,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -24187,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24242,55 +24246,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91640},
+										pos: position{line: 2893, col: 23, offset: 91711},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91640},
+											pos: position{line: 2893, col: 23, offset: 91711},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91640},
+													pos: position{line: 2893, col: 23, offset: 91711},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91641},
+														pos:        position{line: 2893, col: 24, offset: 91712},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91645},
+													pos:   position{line: 2893, col: 28, offset: 91716},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91890},
+														pos: position{line: 2901, col: 11, offset: 91961},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91891},
+															pos: position{line: 2901, col: 12, offset: 91962},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91891},
+																	pos:        position{line: 2901, col: 12, offset: 91962},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91903},
+																	pos:        position{line: 2901, col: 24, offset: 91974},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91916},
+																	pos:        position{line: 2901, col: 37, offset: 91987},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91927},
+																	pos:        position{line: 2901, col: 48, offset: 91998},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91938},
+																	pos:        position{line: 2901, col: 59, offset: 92009},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24300,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91661},
+													pos:   position{line: 2893, col: 44, offset: 91732},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24342,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24371,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -24770,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24813,55 +24817,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 23, offset: 91640},
+										pos: position{line: 2893, col: 23, offset: 91711},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 23, offset: 91640},
+											pos: position{line: 2893, col: 23, offset: 91711},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2890, col: 23, offset: 91640},
+													pos: position{line: 2893, col: 23, offset: 91711},
 													expr: &litMatcher{
-														pos:        position{line: 2890, col: 24, offset: 91641},
+														pos:        position{line: 2893, col: 24, offset: 91712},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 28, offset: 91645},
+													pos:   position{line: 2893, col: 28, offset: 91716},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2898, col: 11, offset: 91890},
+														pos: position{line: 2901, col: 11, offset: 91961},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 12, offset: 91891},
+															pos: position{line: 2901, col: 12, offset: 91962},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 12, offset: 91891},
+																	pos:        position{line: 2901, col: 12, offset: 91962},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 24, offset: 91903},
+																	pos:        position{line: 2901, col: 24, offset: 91974},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 37, offset: 91916},
+																	pos:        position{line: 2901, col: 37, offset: 91987},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 48, offset: 91927},
+																	pos:        position{line: 2901, col: 48, offset: 91998},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 59, offset: 91938},
+																	pos:        position{line: 2901, col: 59, offset: 92009},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24871,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 44, offset: 91661},
+													pos:   position{line: 2893, col: 44, offset: 91732},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 5, offset: 92002},
+														pos: position{line: 2906, col: 5, offset: 92073},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2903, col: 5, offset: 92002},
+															pos:   position{line: 2906, col: 5, offset: 92073},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2903, col: 14, offset: 92011},
+																pos: position{line: 2906, col: 14, offset: 92082},
 																expr: &choiceExpr{
-																	pos: position{line: 2904, col: 9, offset: 92021},
+																	pos: position{line: 2907, col: 9, offset: 92092},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2904, col: 9, offset: 92021},
+																			pos: position{line: 2907, col: 9, offset: 92092},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2904, col: 9, offset: 92021},
+																				pos: position{line: 2907, col: 9, offset: 92092},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2904, col: 9, offset: 92021},
+																						pos: position{line: 2907, col: 9, offset: 92092},
 																						expr: &litMatcher{
-																							pos:        position{line: 2904, col: 10, offset: 92022},
+																							pos:        position{line: 2907, col: 10, offset: 92093},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2905, col: 9, offset: 92050},
+																						pos: position{line: 2908, col: 9, offset: 92121},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 92051},
+																							pos:        position{line: 2908, col: 10, offset: 92122},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24913,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2908, col: 11, offset: 92263},
+																			pos: position{line: 2911, col: 11, offset: 92334},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2908, col: 11, offset: 92263},
+																					pos:        position{line: 2911, col: 11, offset: 92334},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2908, col: 19, offset: 92271},
+																					pos: position{line: 2911, col: 19, offset: 92342},
 																					expr: &seqExpr{
-																						pos: position{line: 2908, col: 21, offset: 92273},
+																						pos: position{line: 2911, col: 21, offset: 92344},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2908, col: 21, offset: 92273},
+																								pos: position{line: 2911, col: 21, offset: 92344},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24942,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 28, offset: 92280},
+																								pos: position{line: 2911, col: 28, offset: 92351},
 																								expr: &notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -25341,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2911, col: 11, offset: 92400},
+																			pos: position{line: 2914, col: 11, offset: 92471},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2911, col: 11, offset: 92400},
+																				pos:        position{line: 2914, col: 11, offset: 92471},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25378,55 +25382,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 27, offset: 91775},
+								pos: position{line: 2897, col: 27, offset: 91846},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 27, offset: 91775},
+									pos: position{line: 2897, col: 27, offset: 91846},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2894, col: 27, offset: 91775},
+											pos: position{line: 2897, col: 27, offset: 91846},
 											expr: &litMatcher{
-												pos:        position{line: 2894, col: 28, offset: 91776},
+												pos:        position{line: 2897, col: 28, offset: 91847},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 32, offset: 91780},
+											pos:   position{line: 2897, col: 32, offset: 91851},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2898, col: 11, offset: 91890},
+												pos: position{line: 2901, col: 11, offset: 91961},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2898, col: 12, offset: 91891},
+													pos: position{line: 2901, col: 12, offset: 91962},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2898, col: 12, offset: 91891},
+															pos:        position{line: 2901, col: 12, offset: 91962},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 24, offset: 91903},
+															pos:        position{line: 2901, col: 24, offset: 91974},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 37, offset: 91916},
+															pos:        position{line: 2901, col: 37, offset: 91987},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 48, offset: 91927},
+															pos:        position{line: 2901, col: 48, offset: 91998},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 59, offset: 91938},
+															pos:        position{line: 2901, col: 59, offset: 92009},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25436,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 48, offset: 91796},
+											pos:   position{line: 2897, col: 48, offset: 91867},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2919, col: 5, offset: 92686},
+												pos: position{line: 2922, col: 5, offset: 92757},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2919, col: 5, offset: 92686},
+													pos:   position{line: 2922, col: 5, offset: 92757},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2919, col: 14, offset: 92695},
+														pos: position{line: 2922, col: 14, offset: 92766},
 														expr: &choiceExpr{
-															pos: position{line: 2920, col: 9, offset: 92705},
+															pos: position{line: 2923, col: 9, offset: 92776},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2920, col: 9, offset: 92705},
+																	pos: position{line: 2923, col: 9, offset: 92776},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2920, col: 9, offset: 92705},
+																		pos: position{line: 2923, col: 9, offset: 92776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2920, col: 10, offset: 92706},
+																			pos:        position{line: 2923, col: 10, offset: 92777},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25464,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2923, col: 11, offset: 92797},
+																	pos: position{line: 2926, col: 11, offset: 92868},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2923, col: 11, offset: 92797},
+																		pos: position{line: 2926, col: 11, offset: 92868},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2923, col: 11, offset: 92797},
+																				pos:        position{line: 2926, col: 11, offset: 92868},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2923, col: 15, offset: 92801},
+																				pos: position{line: 2926, col: 15, offset: 92872},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 15, offset: 92801},
+																					pos:        position{line: 2926, col: 15, offset: 92872},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25486,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2923, col: 39, offset: 92825},
+																				pos:        position{line: 2926, col: 39, offset: 92896},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25495,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92890},
+																	pos: position{line: 2929, col: 11, offset: 92961},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2926, col: 11, offset: 92890},
+																		pos:        position{line: 2929, col: 11, offset: 92961},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 92955},
+																	pos: position{line: 2932, col: 11, offset: 93026},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2929, col: 11, offset: 92955},
+																		pos: position{line: 2932, col: 11, offset: 93026},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2929, col: 11, offset: 92955},
+																				pos: position{line: 2932, col: 11, offset: 93026},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2929, col: 11, offset: 92955},
+																					pos:        position{line: 2932, col: 11, offset: 93026},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25521,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2929, col: 21, offset: 92965},
+																				pos: position{line: 2932, col: 21, offset: 93036},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2929, col: 23, offset: 92967},
+																					pos:        position{line: 2932, col: 23, offset: 93038},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25919,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2934, col: 11, offset: 93108},
+																	pos: position{line: 2937, col: 11, offset: 93179},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2934, col: 11, offset: 93108},
+																		pos:        position{line: 2937, col: 11, offset: 93179},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25975,10 +25979,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26145,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26193,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26223,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -26255,10 +26259,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26299,12 +26303,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26376,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2959, col: 11, offset: 93654},
+																			pos: position{line: 2962, col: 11, offset: 93725},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 11, offset: 93654},
+																				pos:        position{line: 2962, col: 11, offset: 93725},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26425,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26455,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -26515,12 +26519,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26563,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26593,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -26660,28 +26664,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26690,9 +26694,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -26755,10 +26759,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26767,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26797,9 +26801,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -26813,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26833,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26863,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -26884,12 +26888,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2959, col: 11, offset: 93654},
+																			pos: position{line: 2962, col: 11, offset: 93725},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2959, col: 11, offset: 93654},
+																				pos: position{line: 2962, col: 11, offset: 93725},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 11, offset: 93654},
+																					pos:        position{line: 2962, col: 11, offset: 93725},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26916,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26946,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -27006,9 +27010,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&labeledExpr{
@@ -27032,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2972, col: 11, offset: 93927},
+																	pos: position{line: 2975, col: 11, offset: 93998},
 																	expr: &anyMatcher{
-																		line: 2972, col: 13, offset: 93929,
+																		line: 2975, col: 13, offset: 94000,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27052,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27082,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -27117,10 +27121,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27287,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27335,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27365,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -27397,10 +27401,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27441,12 +27445,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27518,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2959, col: 11, offset: 93654},
+																									pos: position{line: 2962, col: 11, offset: 93725},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 11, offset: 93654},
+																										pos:        position{line: 2962, col: 11, offset: 93725},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27567,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27597,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -27657,12 +27661,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27705,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27735,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -27802,28 +27806,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27832,9 +27836,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -27897,10 +27901,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27909,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27939,9 +27943,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -27955,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2972, col: 11, offset: 93927},
+																													pos: position{line: 2975, col: 11, offset: 93998},
 																													expr: &anyMatcher{
-																														line: 2972, col: 13, offset: 93929,
+																														line: 2975, col: 13, offset: 94000,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27975,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28005,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -28026,12 +28030,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93654},
+																									pos: position{line: 2962, col: 11, offset: 93725},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93654},
+																										pos: position{line: 2962, col: 11, offset: 93725},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93654},
+																											pos:        position{line: 2962, col: 11, offset: 93725},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28058,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28088,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -28151,10 +28155,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28321,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28369,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28399,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -28431,10 +28435,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28475,12 +28479,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28552,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2959, col: 11, offset: 93654},
+																									pos: position{line: 2962, col: 11, offset: 93725},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 11, offset: 93654},
+																										pos:        position{line: 2962, col: 11, offset: 93725},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28601,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28631,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -28691,12 +28695,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28739,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28769,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -28836,28 +28840,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28866,9 +28870,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -28931,10 +28935,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28943,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28973,9 +28977,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -28989,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2972, col: 11, offset: 93927},
+																													pos: position{line: 2975, col: 11, offset: 93998},
 																													expr: &anyMatcher{
-																														line: 2972, col: 13, offset: 93929,
+																														line: 2975, col: 13, offset: 94000,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29009,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29039,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -29060,12 +29064,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93654},
+																									pos: position{line: 2962, col: 11, offset: 93725},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93654},
+																										pos: position{line: 2962, col: 11, offset: 93725},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93654},
+																											pos:        position{line: 2962, col: 11, offset: 93725},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29092,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29122,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -29173,12 +29177,12 @@ var g = &grammar{
 													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91280},
+														pos: position{line: 2877, col: 13, offset: 91351},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91280},
+																pos:        position{line: 2877, col: 13, offset: 91351},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29188,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29218,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -29243,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2972, col: 11, offset: 93927},
+																	pos: position{line: 2975, col: 11, offset: 93998},
 																	expr: &anyMatcher{
-																		line: 2972, col: 13, offset: 93929,
+																		line: 2975, col: 13, offset: 94000,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29263,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29293,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -29318,10 +29322,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29330,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
+																pos: position{line: 2967, col: 12, offset: 93835},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29370,10 +29374,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29540,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29568,10 +29572,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29612,12 +29616,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29668,12 +29672,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29734,28 +29738,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29764,9 +29768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -29813,10 +29817,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29824,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29851,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -29875,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2809, col: 13, offset: 89541},
+																				pos:        position{line: 2812, col: 13, offset: 89612},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29925,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29937,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29967,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30014,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30026,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30056,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30099,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30111,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30141,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30188,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30200,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30230,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30277,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30289,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30319,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30366,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30378,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30408,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30455,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30467,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30497,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30544,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30556,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30586,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30633,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30645,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30675,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -30714,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30726,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30756,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -30767,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2657, col: 19, offset: 84993},
+																pos: position{line: 2660, col: 19, offset: 85064},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2657, col: 19, offset: 84993},
+																		pos:        position{line: 2660, col: 19, offset: 85064},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2657, col: 26, offset: 85000},
+																		pos: position{line: 2660, col: 26, offset: 85071},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30790,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30820,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -30836,12 +30840,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 14, offset: 91347},
+														pos: position{line: 2881, col: 14, offset: 91418},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2878, col: 14, offset: 91347},
+															pos: position{line: 2881, col: 14, offset: 91418},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 14, offset: 91347},
+																pos:        position{line: 2881, col: 14, offset: 91418},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30851,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30881,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -30918,10 +30922,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 10, offset: 93593},
+												pos: position{line: 2958, col: 10, offset: 93664},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2955, col: 10, offset: 93593},
+													pos:        position{line: 2958, col: 10, offset: 93664},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30930,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2964, col: 12, offset: 93764},
+											pos: position{line: 2967, col: 12, offset: 93835},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2964, col: 13, offset: 93765},
+												pos: position{line: 2967, col: 13, offset: 93836},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2964, col: 13, offset: 93765},
+														pos:        position{line: 2967, col: 13, offset: 93836},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2964, col: 20, offset: 93772},
+														pos:        position{line: 2967, col: 20, offset: 93843},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2964, col: 29, offset: 93781},
+														pos:        position{line: 2967, col: 29, offset: 93852},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30969,10 +30973,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30981,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31011,9 +31015,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -31038,18 +31042,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31058,28 +31062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31088,9 +31092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -31126,9 +31130,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -31154,10 +31158,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31324,12 +31328,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31372,28 +31376,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31402,9 +31406,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -31434,10 +31438,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31478,12 +31482,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31555,12 +31559,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2959, col: 11, offset: 93654},
+																			pos: position{line: 2962, col: 11, offset: 93725},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 11, offset: 93654},
+																				pos:        position{line: 2962, col: 11, offset: 93725},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31604,28 +31608,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31634,9 +31638,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -31694,12 +31698,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31742,28 +31746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31772,9 +31776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -31839,28 +31843,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31869,9 +31873,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -31934,10 +31938,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31946,28 +31950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31976,9 +31980,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -31992,18 +31996,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2972, col: 11, offset: 93927},
+																							pos: position{line: 2975, col: 11, offset: 93998},
 																							expr: &anyMatcher{
-																								line: 2972, col: 13, offset: 93929,
+																								line: 2975, col: 13, offset: 94000,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32012,28 +32016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32042,9 +32046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -32063,12 +32067,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2959, col: 11, offset: 93654},
+																			pos: position{line: 2962, col: 11, offset: 93725},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2959, col: 11, offset: 93654},
+																				pos: position{line: 2962, col: 11, offset: 93725},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 11, offset: 93654},
+																					pos:        position{line: 2962, col: 11, offset: 93725},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32095,28 +32099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32125,9 +32129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -32168,18 +32172,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2972, col: 11, offset: 93927},
+													pos: position{line: 2975, col: 11, offset: 93998},
 													expr: &anyMatcher{
-														line: 2972, col: 13, offset: 93929,
+														line: 2975, col: 13, offset: 94000,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32188,28 +32192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32218,9 +32222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -32285,10 +32289,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32297,28 +32301,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32327,9 +32331,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -32390,10 +32394,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32402,28 +32406,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32432,9 +32436,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -32488,10 +32492,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32500,28 +32504,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32530,9 +32534,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -32604,10 +32608,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32616,28 +32620,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32646,9 +32650,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -32664,9 +32668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -32682,21 +32686,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32706,28 +32710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32736,9 +32740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -32800,10 +32804,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32812,28 +32816,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32842,9 +32846,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -32860,9 +32864,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -32917,10 +32921,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32933,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32963,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -33033,10 +33037,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33049,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33079,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -33093,9 +33097,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -33111,21 +33115,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33139,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33169,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -33232,10 +33236,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33248,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33278,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -33292,9 +33296,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -33346,10 +33350,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33358,28 +33362,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33388,9 +33392,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -33424,10 +33428,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33436,28 +33440,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33466,9 +33470,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -33486,21 +33490,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33510,28 +33514,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33540,9 +33544,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -33570,10 +33574,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33582,28 +33586,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33612,9 +33616,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -33671,10 +33675,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33683,28 +33687,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33713,9 +33717,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -33787,10 +33791,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33799,28 +33803,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33829,9 +33833,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -33847,9 +33851,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -33865,21 +33869,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33889,28 +33893,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33919,9 +33923,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -33986,10 +33990,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33998,28 +34002,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34028,9 +34032,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -34046,9 +34050,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -34104,10 +34108,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34116,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34146,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -34220,10 +34224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34232,28 +34236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34262,9 +34266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -34280,9 +34284,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -34298,21 +34302,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34322,28 +34326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34352,9 +34356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -34419,10 +34423,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34431,28 +34435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34461,9 +34465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -34479,9 +34483,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -34537,10 +34541,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34549,28 +34553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34579,9 +34583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -34653,10 +34657,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34665,28 +34669,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34695,9 +34699,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -34713,9 +34717,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -34731,21 +34735,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34755,28 +34759,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34785,9 +34789,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -34852,10 +34856,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34864,28 +34868,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34894,9 +34898,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -34912,9 +34916,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -34948,18 +34952,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93927},
+																					pos: position{line: 2975, col: 11, offset: 93998},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93929,
+																						line: 2975, col: 13, offset: 94000,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34968,28 +34972,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -34998,9 +35002,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -35019,12 +35023,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 14, offset: 91347},
+																		pos: position{line: 2881, col: 14, offset: 91418},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 14, offset: 91347},
+																			pos: position{line: 2881, col: 14, offset: 91418},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 14, offset: 91347},
+																				pos:        position{line: 2881, col: 14, offset: 91418},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35034,28 +35038,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35064,9 +35068,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -35098,18 +35102,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2972, col: 11, offset: 93927},
+																								pos: position{line: 2975, col: 11, offset: 93998},
 																								expr: &anyMatcher{
-																									line: 2972, col: 13, offset: 93929,
+																									line: 2975, col: 13, offset: 94000,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35118,28 +35122,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35148,9 +35152,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -35169,12 +35173,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 14, offset: 91347},
+																					pos: position{line: 2881, col: 14, offset: 91418},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 14, offset: 91347},
+																						pos: position{line: 2881, col: 14, offset: 91418},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 14, offset: 91347},
+																							pos:        position{line: 2881, col: 14, offset: 91418},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35184,28 +35188,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93991},
+																				pos: position{line: 2980, col: 8, offset: 94062},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93764},
+																						pos: position{line: 2967, col: 12, offset: 93835},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93765},
+																							pos: position{line: 2967, col: 13, offset: 93836},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93765},
+																									pos:        position{line: 2967, col: 13, offset: 93836},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93772},
+																									pos:        position{line: 2967, col: 20, offset: 93843},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93781},
+																									pos:        position{line: 2967, col: 29, offset: 93852},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35214,9 +35218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -35234,12 +35238,12 @@ var g = &grammar{
 																				pos:   position{line: 1824, col: 5, offset: 58892},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 14, offset: 91347},
+																					pos: position{line: 2881, col: 14, offset: 91418},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2878, col: 14, offset: 91347},
+																						pos: position{line: 2881, col: 14, offset: 91418},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 14, offset: 91347},
+																							pos:        position{line: 2881, col: 14, offset: 91418},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35253,28 +35257,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93991},
+																				pos: position{line: 2980, col: 8, offset: 94062},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93764},
+																						pos: position{line: 2967, col: 12, offset: 93835},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93765},
+																							pos: position{line: 2967, col: 13, offset: 93836},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93765},
+																									pos:        position{line: 2967, col: 13, offset: 93836},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93772},
+																									pos:        position{line: 2967, col: 20, offset: 93843},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93781},
+																									pos:        position{line: 2967, col: 29, offset: 93852},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35283,9 +35287,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -35332,10 +35336,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35344,28 +35348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35374,9 +35378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -35424,10 +35428,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35436,28 +35440,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35466,9 +35470,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -35477,9 +35481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -35495,21 +35499,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35519,28 +35523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35549,9 +35553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -35596,10 +35600,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93593},
+																					pos: position{line: 2958, col: 10, offset: 93664},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93593},
+																						pos:        position{line: 2958, col: 10, offset: 93664},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35608,28 +35612,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93991},
+																				pos: position{line: 2980, col: 8, offset: 94062},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93764},
+																						pos: position{line: 2967, col: 12, offset: 93835},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93765},
+																							pos: position{line: 2967, col: 13, offset: 93836},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93765},
+																									pos:        position{line: 2967, col: 13, offset: 93836},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93772},
+																									pos:        position{line: 2967, col: 20, offset: 93843},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93781},
+																									pos:        position{line: 2967, col: 29, offset: 93852},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35638,9 +35642,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -35649,9 +35653,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -35707,10 +35711,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35719,28 +35723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35749,9 +35753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -35823,10 +35827,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35835,28 +35839,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35865,9 +35869,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -35883,9 +35887,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -35901,21 +35905,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35925,28 +35929,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35955,9 +35959,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -36022,10 +36026,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36034,28 +36038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36064,9 +36068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -36082,9 +36086,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -36140,10 +36144,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36152,28 +36156,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36182,9 +36186,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -36256,10 +36260,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36268,28 +36272,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36298,9 +36302,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -36316,9 +36320,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -36334,21 +36338,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36358,28 +36362,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36388,9 +36392,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -36455,10 +36459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36467,28 +36471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36497,9 +36501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -36515,9 +36519,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -36573,10 +36577,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36585,28 +36589,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36615,9 +36619,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -36689,10 +36693,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2955, col: 10, offset: 93593},
+																												pos: position{line: 2958, col: 10, offset: 93664},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 10, offset: 93593},
+																													pos:        position{line: 2958, col: 10, offset: 93664},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36701,28 +36705,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2977, col: 8, offset: 93991},
+																											pos: position{line: 2980, col: 8, offset: 94062},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2964, col: 12, offset: 93764},
+																													pos: position{line: 2967, col: 12, offset: 93835},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2964, col: 13, offset: 93765},
+																														pos: position{line: 2967, col: 13, offset: 93836},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36731,9 +36735,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2974, col: 8, offset: 93941},
+																													pos: position{line: 2977, col: 8, offset: 94012},
 																													expr: &anyMatcher{
-																														line: 2974, col: 9, offset: 93942,
+																														line: 2977, col: 9, offset: 94013,
 																													},
 																												},
 																											},
@@ -36749,9 +36753,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -36767,21 +36771,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2972, col: 11, offset: 93927},
+																						pos: position{line: 2975, col: 11, offset: 93998},
 																						expr: &anyMatcher{
-																							line: 2972, col: 13, offset: 93929,
+																							line: 2975, col: 13, offset: 94000,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 13, offset: 91280},
+																							pos: position{line: 2877, col: 13, offset: 91351},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2874, col: 13, offset: 91280},
+																								pos: position{line: 2877, col: 13, offset: 91351},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 91280},
+																									pos:        position{line: 2877, col: 13, offset: 91351},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36791,28 +36795,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36821,9 +36825,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -36888,10 +36892,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36900,28 +36904,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36930,9 +36934,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -36948,9 +36952,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -36961,27 +36965,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2760, col: 18, offset: 87900},
+										pos: position{line: 2763, col: 18, offset: 87971},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2761, col: 9, offset: 87910},
+											pos: position{line: 2764, col: 9, offset: 87981},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2761, col: 9, offset: 87910},
+													pos: position{line: 2764, col: 9, offset: 87981},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2761, col: 9, offset: 87910},
+															pos:        position{line: 2764, col: 9, offset: 87981},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2761, col: 15, offset: 87916},
+															pos: position{line: 2764, col: 15, offset: 87987},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36990,28 +36994,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93991},
+															pos: position{line: 2980, col: 8, offset: 94062},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93764},
+																	pos: position{line: 2967, col: 12, offset: 93835},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93765},
+																		pos: position{line: 2967, col: 13, offset: 93836},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93765},
+																				pos:        position{line: 2967, col: 13, offset: 93836},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93772},
+																				pos:        position{line: 2967, col: 20, offset: 93843},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93781},
+																				pos:        position{line: 2967, col: 29, offset: 93852},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37020,9 +37024,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -37030,43 +37034,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2762, col: 11, offset: 87949},
+													pos: position{line: 2765, col: 11, offset: 88020},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2762, col: 12, offset: 87950},
+															pos: position{line: 2765, col: 12, offset: 88021},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2762, col: 12, offset: 87950},
+																	pos:        position{line: 2765, col: 12, offset: 88021},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 20, offset: 87958},
+																	pos:        position{line: 2765, col: 20, offset: 88029},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 30, offset: 87968},
+																	pos:        position{line: 2765, col: 30, offset: 88039},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 38, offset: 87976},
+																	pos:        position{line: 2765, col: 38, offset: 88047},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 48, offset: 87986},
+																	pos:        position{line: 2765, col: 48, offset: 88057},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2762, col: 56, offset: 87994},
+																	pos:        position{line: 2765, col: 56, offset: 88065},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37074,12 +37078,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2762, col: 65, offset: 88003},
+															pos: position{line: 2765, col: 65, offset: 88074},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37088,28 +37092,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93991},
+															pos: position{line: 2980, col: 8, offset: 94062},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93764},
+																	pos: position{line: 2967, col: 12, offset: 93835},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93765},
+																		pos: position{line: 2967, col: 13, offset: 93836},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93765},
+																				pos:        position{line: 2967, col: 13, offset: 93836},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93772},
+																				pos:        position{line: 2967, col: 20, offset: 93843},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93781},
+																				pos:        position{line: 2967, col: 29, offset: 93852},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37118,38 +37122,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2762, col: 76, offset: 88014},
+															pos: position{line: 2765, col: 76, offset: 88085},
 															expr: &choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37158,9 +37162,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -37180,24 +37184,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2651, col: 5, offset: 84836},
+										pos: position{line: 2654, col: 5, offset: 84907},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2651, col: 5, offset: 84836},
+											pos: position{line: 2654, col: 5, offset: 84907},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2657, col: 19, offset: 84993},
+													pos:        position{line: 2660, col: 19, offset: 85064},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2657, col: 26, offset: 85000},
+													pos: position{line: 2660, col: 26, offset: 85071},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
+														pos: position{line: 2958, col: 10, offset: 93664},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37206,28 +37210,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37236,20 +37240,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2652, col: 5, offset: 84860},
+													pos:   position{line: 2655, col: 5, offset: 84931},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2652, col: 11, offset: 84866},
+														pos: position{line: 2655, col: 11, offset: 84937},
 														expr: &choiceExpr{
-															pos: position{line: 2652, col: 12, offset: 84867},
+															pos: position{line: 2655, col: 12, offset: 84938},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37258,18 +37262,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2972, col: 11, offset: 93927},
+																				pos: position{line: 2975, col: 11, offset: 93998},
 																				expr: &anyMatcher{
-																					line: 2972, col: 13, offset: 93929,
+																					line: 2975, col: 13, offset: 94000,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93593},
+																					pos: position{line: 2958, col: 10, offset: 93664},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93593},
+																						pos:        position{line: 2958, col: 10, offset: 93664},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37278,28 +37282,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2977, col: 8, offset: 93991},
+																				pos: position{line: 2980, col: 8, offset: 94062},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93764},
+																						pos: position{line: 2967, col: 12, offset: 93835},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93765},
+																							pos: position{line: 2967, col: 13, offset: 93836},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93765},
+																									pos:        position{line: 2967, col: 13, offset: 93836},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93772},
+																									pos:        position{line: 2967, col: 20, offset: 93843},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93781},
+																									pos:        position{line: 2967, col: 29, offset: 93852},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37308,9 +37312,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -37319,32 +37323,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2664, col: 5, offset: 85112},
+																	pos: position{line: 2667, col: 5, offset: 85183},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2664, col: 5, offset: 85112},
+																		pos: position{line: 2667, col: 5, offset: 85183},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2664, col: 5, offset: 85112},
+																				pos: position{line: 2667, col: 5, offset: 85183},
 																				expr: &choiceExpr{
-																					pos: position{line: 2661, col: 22, offset: 85073},
+																					pos: position{line: 2664, col: 22, offset: 85144},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2657, col: 19, offset: 84993},
+																							pos: position{line: 2660, col: 19, offset: 85064},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2657, col: 19, offset: 84993},
+																									pos:        position{line: 2660, col: 19, offset: 85064},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2657, col: 26, offset: 85000},
+																									pos: position{line: 2660, col: 26, offset: 85071},
 																									expr: &actionExpr{
-																										pos: position{line: 2955, col: 10, offset: 93593},
+																										pos: position{line: 2958, col: 10, offset: 93664},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 10, offset: 93593},
+																											pos:        position{line: 2958, col: 10, offset: 93664},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37353,28 +37357,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37383,9 +37387,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -37393,59 +37397,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2665, col: 5, offset: 85135},
+																				pos:   position{line: 2668, col: 5, offset: 85206},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2666, col: 9, offset: 85153},
+																					pos: position{line: 2669, col: 9, offset: 85224},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2666, col: 10, offset: 85154},
+																							pos: position{line: 2669, col: 10, offset: 85225},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2666, col: 10, offset: 85154},
+																								pos:   position{line: 2669, col: 10, offset: 85225},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2666, col: 17, offset: 85161},
+																									pos: position{line: 2669, col: 17, offset: 85232},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2674, col: 21, offset: 85357},
+																											pos: position{line: 2677, col: 21, offset: 85428},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2674, col: 21, offset: 85357},
+																												pos: position{line: 2677, col: 21, offset: 85428},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2674, col: 21, offset: 85357},
+																														pos:   position{line: 2677, col: 21, offset: 85428},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2674, col: 27, offset: 85363},
+																															pos: position{line: 2677, col: 27, offset: 85434},
 																															expr: &actionExpr{
-																																pos: position{line: 2679, col: 5, offset: 85438},
+																																pos: position{line: 2682, col: 5, offset: 85509},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2679, col: 5, offset: 85438},
+																																	pos: position{line: 2682, col: 5, offset: 85509},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2679, col: 5, offset: 85438},
+																																			pos:        position{line: 2682, col: 5, offset: 85509},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2679, col: 9, offset: 85442},
+																																			pos: position{line: 2682, col: 9, offset: 85513},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2955, col: 10, offset: 93593},
+																																				pos: position{line: 2958, col: 10, offset: 93664},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2955, col: 10, offset: 93593},
+																																					pos:        position{line: 2958, col: 10, offset: 93664},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37454,21 +37458,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2679, col: 16, offset: 85449},
+																																			pos:   position{line: 2682, col: 16, offset: 85520},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2685, col: 5, offset: 85649},
+																																				pos: position{line: 2688, col: 5, offset: 85720},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2685, col: 5, offset: 85649},
+																																					pos:   position{line: 2688, col: 5, offset: 85720},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2685, col: 14, offset: 85658},
+																																						pos: position{line: 2688, col: 14, offset: 85729},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 14, offset: 85658},
+																																							pos: position{line: 2688, col: 14, offset: 85729},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2685, col: 14, offset: 85658},
+																																								pos:        position{line: 2688, col: 14, offset: 85729},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37485,28 +37489,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2977, col: 8, offset: 93991},
+																														pos: position{line: 2980, col: 8, offset: 94062},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2964, col: 12, offset: 93764},
+																																pos: position{line: 2967, col: 12, offset: 93835},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2964, col: 13, offset: 93765},
+																																	pos: position{line: 2967, col: 13, offset: 93836},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 13, offset: 93765},
+																																			pos:        position{line: 2967, col: 13, offset: 93836},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 20, offset: 93772},
+																																			pos:        position{line: 2967, col: 20, offset: 93843},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2964, col: 29, offset: 93781},
+																																			pos:        position{line: 2967, col: 29, offset: 93852},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37515,9 +37519,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2974, col: 8, offset: 93941},
+																																pos: position{line: 2977, col: 8, offset: 94012},
 																																expr: &anyMatcher{
-																																	line: 2974, col: 9, offset: 93942,
+																																	line: 2977, col: 9, offset: 94013,
 																																},
 																															},
 																														},
@@ -37526,40 +37530,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2691, col: 24, offset: 85794},
+																											pos: position{line: 2694, col: 24, offset: 85865},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2691, col: 24, offset: 85794},
+																												pos:   position{line: 2694, col: 24, offset: 85865},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2691, col: 30, offset: 85800},
+																													pos: position{line: 2694, col: 30, offset: 85871},
 																													expr: &actionExpr{
-																														pos: position{line: 2696, col: 5, offset: 85876},
+																														pos: position{line: 2699, col: 5, offset: 85947},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2696, col: 5, offset: 85876},
+																															pos: position{line: 2699, col: 5, offset: 85947},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2696, col: 5, offset: 85876},
+																																	pos: position{line: 2699, col: 5, offset: 85947},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2661, col: 22, offset: 85073},
+																																		pos: position{line: 2664, col: 22, offset: 85144},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2657, col: 19, offset: 84993},
+																																				pos: position{line: 2660, col: 19, offset: 85064},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2657, col: 19, offset: 84993},
+																																						pos:        position{line: 2660, col: 19, offset: 85064},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2657, col: 26, offset: 85000},
+																																						pos: position{line: 2660, col: 26, offset: 85071},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2955, col: 10, offset: 93593},
+																																							pos: position{line: 2958, col: 10, offset: 93664},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2955, col: 10, offset: 93593},
+																																								pos:        position{line: 2958, col: 10, offset: 93664},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37568,28 +37572,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2977, col: 8, offset: 93991},
+																																						pos: position{line: 2980, col: 8, offset: 94062},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2964, col: 12, offset: 93764},
+																																								pos: position{line: 2967, col: 12, offset: 93835},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2964, col: 13, offset: 93765},
+																																									pos: position{line: 2967, col: 13, offset: 93836},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 13, offset: 93765},
+																																											pos:        position{line: 2967, col: 13, offset: 93836},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 20, offset: 93772},
+																																											pos:        position{line: 2967, col: 20, offset: 93843},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2964, col: 29, offset: 93781},
+																																											pos:        position{line: 2967, col: 29, offset: 93852},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37598,9 +37602,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2974, col: 8, offset: 93941},
+																																								pos: position{line: 2977, col: 8, offset: 94012},
 																																								expr: &anyMatcher{
-																																									line: 2974, col: 9, offset: 93942,
+																																									line: 2977, col: 9, offset: 94013,
 																																								},
 																																							},
 																																						},
@@ -37608,16 +37612,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2974, col: 8, offset: 93941},
+																																				pos: position{line: 2977, col: 8, offset: 94012},
 																																				expr: &anyMatcher{
-																																					line: 2974, col: 9, offset: 93942,
+																																					line: 2977, col: 9, offset: 94013,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2697, col: 5, offset: 85899},
+																																	pos: position{line: 2700, col: 5, offset: 85970},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37625,18 +37629,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2972, col: 11, offset: 93927},
+																																					pos: position{line: 2975, col: 11, offset: 93998},
 																																					expr: &anyMatcher{
-																																						line: 2972, col: 13, offset: 93929,
+																																						line: 2975, col: 13, offset: 94000,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2955, col: 10, offset: 93593},
+																																						pos: position{line: 2958, col: 10, offset: 93664},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2955, col: 10, offset: 93593},
+																																							pos:        position{line: 2958, col: 10, offset: 93664},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37645,28 +37649,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2977, col: 8, offset: 93991},
+																																					pos: position{line: 2980, col: 8, offset: 94062},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2964, col: 12, offset: 93764},
+																																							pos: position{line: 2967, col: 12, offset: 93835},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2964, col: 13, offset: 93765},
+																																								pos: position{line: 2967, col: 13, offset: 93836},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 13, offset: 93765},
+																																										pos:        position{line: 2967, col: 13, offset: 93836},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 20, offset: 93772},
+																																										pos:        position{line: 2967, col: 20, offset: 93843},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2964, col: 29, offset: 93781},
+																																										pos:        position{line: 2967, col: 29, offset: 93852},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37675,9 +37679,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2974, col: 8, offset: 93941},
+																																							pos: position{line: 2977, col: 8, offset: 94012},
 																																							expr: &anyMatcher{
-																																								line: 2974, col: 9, offset: 93942,
+																																								line: 2977, col: 9, offset: 94013,
 																																							},
 																																						},
 																																					},
@@ -37687,17 +37691,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 5, offset: 85914},
+																																	pos:   position{line: 2701, col: 5, offset: 85985},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2698, col: 12, offset: 85921},
+																																		pos: position{line: 2701, col: 12, offset: 85992},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2715, col: 20, offset: 86385},
+																																			pos: position{line: 2718, col: 20, offset: 86456},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2715, col: 20, offset: 86385},
+																																				pos: position{line: 2718, col: 20, offset: 86456},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2715, col: 20, offset: 86385},
+																																					pos:        position{line: 2718, col: 20, offset: 86456},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37708,18 +37712,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2698, col: 31, offset: 85940},
+																																	pos:        position{line: 2701, col: 31, offset: 86011},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2698, col: 35, offset: 85944},
+																																	pos: position{line: 2701, col: 35, offset: 86015},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2955, col: 10, offset: 93593},
+																																		pos: position{line: 2958, col: 10, offset: 93664},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2955, col: 10, offset: 93593},
+																																			pos:        position{line: 2958, col: 10, offset: 93664},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37728,27 +37732,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2698, col: 42, offset: 85951},
+																																	pos: position{line: 2701, col: 42, offset: 86022},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2964, col: 12, offset: 93764},
+																																		pos: position{line: 2967, col: 12, offset: 93835},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2964, col: 13, offset: 93765},
+																																			pos: position{line: 2967, col: 13, offset: 93836},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 13, offset: 93765},
+																																					pos:        position{line: 2967, col: 13, offset: 93836},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 20, offset: 93772},
+																																					pos:        position{line: 2967, col: 20, offset: 93843},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2964, col: 29, offset: 93781},
+																																					pos:        position{line: 2967, col: 29, offset: 93852},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37758,37 +37762,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2698, col: 51, offset: 85960},
+																																	pos:   position{line: 2701, col: 51, offset: 86031},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86119},
+																																		pos: position{line: 2707, col: 5, offset: 86190},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2705, col: 9, offset: 86129},
+																																			pos: position{line: 2708, col: 9, offset: 86200},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2705, col: 9, offset: 86129},
+																																				pos: position{line: 2708, col: 9, offset: 86200},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2705, col: 9, offset: 86129},
+																																						pos: position{line: 2708, col: 9, offset: 86200},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2661, col: 22, offset: 85073},
+																																							pos: position{line: 2664, col: 22, offset: 85144},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2657, col: 19, offset: 84993},
+																																									pos: position{line: 2660, col: 19, offset: 85064},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2657, col: 19, offset: 84993},
+																																											pos:        position{line: 2660, col: 19, offset: 85064},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2657, col: 26, offset: 85000},
+																																											pos: position{line: 2660, col: 26, offset: 85071},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2955, col: 10, offset: 93593},
+																																												pos: position{line: 2958, col: 10, offset: 93664},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2955, col: 10, offset: 93593},
+																																													pos:        position{line: 2958, col: 10, offset: 93664},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37797,28 +37801,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2977, col: 8, offset: 93991},
+																																											pos: position{line: 2980, col: 8, offset: 94062},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2964, col: 12, offset: 93764},
+																																													pos: position{line: 2967, col: 12, offset: 93835},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2964, col: 13, offset: 93765},
+																																														pos: position{line: 2967, col: 13, offset: 93836},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 13, offset: 93765},
+																																																pos:        position{line: 2967, col: 13, offset: 93836},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 20, offset: 93772},
+																																																pos:        position{line: 2967, col: 20, offset: 93843},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2964, col: 29, offset: 93781},
+																																																pos:        position{line: 2967, col: 29, offset: 93852},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37827,9 +37831,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2974, col: 8, offset: 93941},
+																																													pos: position{line: 2977, col: 8, offset: 94012},
 																																													expr: &anyMatcher{
-																																														line: 2974, col: 9, offset: 93942,
+																																														line: 2977, col: 9, offset: 94013,
 																																													},
 																																												},
 																																											},
@@ -37837,16 +37841,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93941},
+																																									pos: position{line: 2977, col: 8, offset: 94012},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93942,
+																																										line: 2977, col: 9, offset: 94013,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2706, col: 9, offset: 86156},
+																																						pos: position{line: 2709, col: 9, offset: 86227},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37854,18 +37858,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2972, col: 11, offset: 93927},
+																																										pos: position{line: 2975, col: 11, offset: 93998},
 																																										expr: &anyMatcher{
-																																											line: 2972, col: 13, offset: 93929,
+																																											line: 2975, col: 13, offset: 94000,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2955, col: 10, offset: 93593},
+																																											pos: position{line: 2958, col: 10, offset: 93664},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2955, col: 10, offset: 93593},
+																																												pos:        position{line: 2958, col: 10, offset: 93664},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37874,28 +37878,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2977, col: 8, offset: 93991},
+																																										pos: position{line: 2980, col: 8, offset: 94062},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2964, col: 12, offset: 93764},
+																																												pos: position{line: 2967, col: 12, offset: 93835},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2964, col: 13, offset: 93765},
+																																													pos: position{line: 2967, col: 13, offset: 93836},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 13, offset: 93765},
+																																															pos:        position{line: 2967, col: 13, offset: 93836},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 20, offset: 93772},
+																																															pos:        position{line: 2967, col: 20, offset: 93843},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2964, col: 29, offset: 93781},
+																																															pos:        position{line: 2967, col: 29, offset: 93852},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37904,9 +37908,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2974, col: 8, offset: 93941},
+																																												pos: position{line: 2977, col: 8, offset: 94012},
 																																												expr: &anyMatcher{
-																																													line: 2974, col: 9, offset: 93942,
+																																													line: 2977, col: 9, offset: 94013,
 																																												},
 																																											},
 																																										},
@@ -37916,22 +37920,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2707, col: 9, offset: 86175},
+																																						pos: position{line: 2710, col: 9, offset: 86246},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2707, col: 11, offset: 86177},
+																																							pos: position{line: 2710, col: 11, offset: 86248},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2707, col: 11, offset: 86177},
+																																									pos:   position{line: 2710, col: 11, offset: 86248},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2707, col: 18, offset: 86184},
+																																										pos: position{line: 2710, col: 18, offset: 86255},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2715, col: 20, offset: 86385},
+																																											pos: position{line: 2718, col: 20, offset: 86456},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2715, col: 20, offset: 86385},
+																																												pos: position{line: 2718, col: 20, offset: 86456},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2715, col: 20, offset: 86385},
+																																													pos:        position{line: 2718, col: 20, offset: 86456},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37942,7 +37946,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2707, col: 37, offset: 86203},
+																																									pos:        position{line: 2710, col: 37, offset: 86274},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37951,15 +37955,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2708, col: 9, offset: 86216},
+																																						pos:   position{line: 2711, col: 9, offset: 86287},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2708, col: 18, offset: 86225},
+																																							pos: position{line: 2711, col: 18, offset: 86296},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2708, col: 18, offset: 86225},
+																																								pos: position{line: 2711, col: 18, offset: 86296},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2708, col: 18, offset: 86225},
+																																									pos:        position{line: 2711, col: 18, offset: 86296},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37969,30 +37973,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2710, col: 12, offset: 86287},
+																																						pos: position{line: 2713, col: 12, offset: 86358},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2977, col: 8, offset: 93991},
+																																							pos: position{line: 2980, col: 8, offset: 94062},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2964, col: 12, offset: 93764},
+																																									pos: position{line: 2967, col: 12, offset: 93835},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2964, col: 13, offset: 93765},
+																																										pos: position{line: 2967, col: 13, offset: 93836},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 13, offset: 93765},
+																																												pos:        position{line: 2967, col: 13, offset: 93836},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 20, offset: 93772},
+																																												pos:        position{line: 2967, col: 20, offset: 93843},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2964, col: 29, offset: 93781},
+																																												pos:        position{line: 2967, col: 29, offset: 93852},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38001,9 +38005,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2974, col: 8, offset: 93941},
+																																									pos: position{line: 2977, col: 8, offset: 94012},
 																																									expr: &anyMatcher{
-																																										line: 2974, col: 9, offset: 93942,
+																																										line: 2977, col: 9, offset: 94013,
 																																									},
 																																								},
 																																							},
@@ -38031,18 +38035,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2972, col: 11, offset: 93927},
+																										pos: position{line: 2975, col: 11, offset: 93998},
 																										expr: &anyMatcher{
-																											line: 2972, col: 13, offset: 93929,
+																											line: 2975, col: 13, offset: 94000,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2955, col: 10, offset: 93593},
+																											pos: position{line: 2958, col: 10, offset: 93664},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2955, col: 10, offset: 93593},
+																												pos:        position{line: 2958, col: 10, offset: 93664},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38051,28 +38055,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2977, col: 8, offset: 93991},
+																										pos: position{line: 2980, col: 8, offset: 94062},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2964, col: 12, offset: 93764},
+																												pos: position{line: 2967, col: 12, offset: 93835},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2964, col: 13, offset: 93765},
+																													pos: position{line: 2967, col: 13, offset: 93836},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 13, offset: 93765},
+																															pos:        position{line: 2967, col: 13, offset: 93836},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 20, offset: 93772},
+																															pos:        position{line: 2967, col: 20, offset: 93843},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2964, col: 29, offset: 93781},
+																															pos:        position{line: 2967, col: 29, offset: 93852},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38081,9 +38085,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2974, col: 8, offset: 93941},
+																												pos: position{line: 2977, col: 8, offset: 94012},
 																												expr: &anyMatcher{
-																													line: 2974, col: 9, offset: 93942,
+																													line: 2977, col: 9, offset: 94013,
 																												},
 																											},
 																										},
@@ -38102,24 +38106,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2661, col: 22, offset: 85073},
+													pos: position{line: 2664, col: 22, offset: 85144},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84993},
+															pos: position{line: 2660, col: 19, offset: 85064},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84993},
+																	pos:        position{line: 2660, col: 19, offset: 85064},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 85000},
+																	pos: position{line: 2660, col: 26, offset: 85071},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38128,28 +38132,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38158,9 +38162,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -38168,9 +38172,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -38203,12 +38207,12 @@ var g = &grammar{
 													pos:   position{line: 2525, col: 49, offset: 81334},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 13, offset: 91280},
+														pos: position{line: 2877, col: 13, offset: 91351},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2874, col: 13, offset: 91280},
+															pos: position{line: 2877, col: 13, offset: 91351},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 13, offset: 91280},
+																pos:        position{line: 2877, col: 13, offset: 91351},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38218,28 +38222,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2977, col: 8, offset: 93991},
+													pos: position{line: 2980, col: 8, offset: 94062},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38248,9 +38252,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2974, col: 8, offset: 93941},
+															pos: position{line: 2977, col: 8, offset: 94012},
 															expr: &anyMatcher{
-																line: 2974, col: 9, offset: 93942,
+																line: 2977, col: 9, offset: 94013,
 															},
 														},
 													},
@@ -38341,12 +38345,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1777, col: 13, offset: 57288},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 11, offset: 93654},
+																							pos: position{line: 2962, col: 11, offset: 93725},
 																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2959, col: 11, offset: 93654},
+																								pos: position{line: 2962, col: 11, offset: 93725},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 11, offset: 93654},
+																									pos:        position{line: 2962, col: 11, offset: 93725},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38367,10 +38371,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1779, col: 14, offset: 57370},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38379,28 +38383,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38409,9 +38413,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -38442,18 +38446,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2972, col: 11, offset: 93927},
+																					pos: position{line: 2975, col: 11, offset: 93998},
 																					expr: &anyMatcher{
-																						line: 2972, col: 13, offset: 93929,
+																						line: 2975, col: 13, offset: 94000,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38462,28 +38466,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2977, col: 8, offset: 93991},
+																					pos: position{line: 2980, col: 8, offset: 94062},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38492,9 +38496,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2974, col: 8, offset: 93941},
+																							pos: position{line: 2977, col: 8, offset: 94012},
 																							expr: &anyMatcher{
-																								line: 2974, col: 9, offset: 93942,
+																								line: 2977, col: 9, offset: 94013,
 																							},
 																						},
 																					},
@@ -38517,10 +38521,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93593},
+																					pos: position{line: 2958, col: 10, offset: 93664},
 																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93593},
+																						pos:        position{line: 2958, col: 10, offset: 93664},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38529,25 +38533,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38569,10 +38573,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38739,12 +38743,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93654},
+																					pos: position{line: 2962, col: 11, offset: 93725},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93654},
+																						pos: position{line: 2962, col: 11, offset: 93725},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93654},
+																							pos:        position{line: 2962, col: 11, offset: 93725},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38767,10 +38771,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38811,12 +38815,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93654},
+																					pos: position{line: 2962, col: 11, offset: 93725},
 																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93654},
+																						pos: position{line: 2962, col: 11, offset: 93725},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93654},
+																							pos:        position{line: 2962, col: 11, offset: 93725},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38867,12 +38871,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2959, col: 11, offset: 93654},
+																					pos: position{line: 2962, col: 11, offset: 93725},
 																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2959, col: 11, offset: 93654},
+																						pos: position{line: 2962, col: 11, offset: 93725},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 11, offset: 93654},
+																							pos:        position{line: 2962, col: 11, offset: 93725},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38933,28 +38937,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2977, col: 8, offset: 93991},
+																									pos: position{line: 2980, col: 8, offset: 94062},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2964, col: 12, offset: 93764},
+																											pos: position{line: 2967, col: 12, offset: 93835},
 																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2964, col: 13, offset: 93765},
+																												pos: position{line: 2967, col: 13, offset: 93836},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 13, offset: 93765},
+																														pos:        position{line: 2967, col: 13, offset: 93836},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 20, offset: 93772},
+																														pos:        position{line: 2967, col: 20, offset: 93843},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2964, col: 29, offset: 93781},
+																														pos:        position{line: 2967, col: 29, offset: 93852},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38963,9 +38967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2974, col: 8, offset: 93941},
+																											pos: position{line: 2977, col: 8, offset: 94012},
 																											expr: &anyMatcher{
-																												line: 2974, col: 9, offset: 93942,
+																												line: 2977, col: 9, offset: 94013,
 																											},
 																										},
 																									},
@@ -39012,10 +39016,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2955, col: 10, offset: 93593},
+																						pos: position{line: 2958, col: 10, offset: 93664},
 																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2955, col: 10, offset: 93593},
+																							pos:        position{line: 2958, col: 10, offset: 93664},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39023,25 +39027,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2964, col: 12, offset: 93764},
+																						pos: position{line: 2967, col: 12, offset: 93835},
 																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2964, col: 13, offset: 93765},
+																							pos: position{line: 2967, col: 13, offset: 93836},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 13, offset: 93765},
+																									pos:        position{line: 2967, col: 13, offset: 93836},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 20, offset: 93772},
+																									pos:        position{line: 2967, col: 20, offset: 93843},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2964, col: 29, offset: 93781},
+																									pos:        position{line: 2967, col: 29, offset: 93852},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39050,9 +39054,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2974, col: 8, offset: 93941},
+																						pos: position{line: 2977, col: 8, offset: 94012},
 																						expr: &anyMatcher{
-																							line: 2974, col: 9, offset: 93942,
+																							line: 2977, col: 9, offset: 94013,
 																						},
 																					},
 																				},
@@ -39074,7 +39078,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2809, col: 13, offset: 89541},
+																								pos:        position{line: 2812, col: 13, offset: 89612},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39124,10 +39128,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39136,28 +39140,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39166,9 +39170,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39213,10 +39217,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39225,28 +39229,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39255,9 +39259,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39298,10 +39302,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39310,28 +39314,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39340,9 +39344,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39387,10 +39391,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39399,28 +39403,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39429,9 +39433,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39476,10 +39480,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39488,28 +39492,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39518,9 +39522,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39565,10 +39569,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39577,28 +39581,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39607,9 +39611,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39654,10 +39658,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39666,28 +39670,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39696,9 +39700,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39743,10 +39747,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39755,28 +39759,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39785,9 +39789,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39832,10 +39836,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2955, col: 10, offset: 93593},
+																														pos: position{line: 2958, col: 10, offset: 93664},
 																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2955, col: 10, offset: 93593},
+																															pos:        position{line: 2958, col: 10, offset: 93664},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39844,28 +39848,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2977, col: 8, offset: 93991},
+																													pos: position{line: 2980, col: 8, offset: 94062},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2964, col: 12, offset: 93764},
+																															pos: position{line: 2967, col: 12, offset: 93835},
 																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2964, col: 13, offset: 93765},
+																																pos: position{line: 2967, col: 13, offset: 93836},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 13, offset: 93765},
+																																		pos:        position{line: 2967, col: 13, offset: 93836},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 20, offset: 93772},
+																																		pos:        position{line: 2967, col: 20, offset: 93843},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2964, col: 29, offset: 93781},
+																																		pos:        position{line: 2967, col: 29, offset: 93852},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39874,9 +39878,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2974, col: 8, offset: 93941},
+																															pos: position{line: 2977, col: 8, offset: 94012},
 																															expr: &anyMatcher{
-																																line: 2974, col: 9, offset: 93942,
+																																line: 2977, col: 9, offset: 94013,
 																															},
 																														},
 																													},
@@ -39913,10 +39917,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2955, col: 10, offset: 93593},
+																								pos: position{line: 2958, col: 10, offset: 93664},
 																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2955, col: 10, offset: 93593},
+																									pos:        position{line: 2958, col: 10, offset: 93664},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39925,28 +39929,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2977, col: 8, offset: 93991},
+																							pos: position{line: 2980, col: 8, offset: 94062},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2964, col: 12, offset: 93764},
+																									pos: position{line: 2967, col: 12, offset: 93835},
 																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2964, col: 13, offset: 93765},
+																										pos: position{line: 2967, col: 13, offset: 93836},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 13, offset: 93765},
+																												pos:        position{line: 2967, col: 13, offset: 93836},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 20, offset: 93772},
+																												pos:        position{line: 2967, col: 20, offset: 93843},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2964, col: 29, offset: 93781},
+																												pos:        position{line: 2967, col: 29, offset: 93852},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39955,9 +39959,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2974, col: 8, offset: 93941},
+																									pos: position{line: 2977, col: 8, offset: 94012},
 																									expr: &anyMatcher{
-																										line: 2974, col: 9, offset: 93942,
+																										line: 2977, col: 9, offset: 94013,
 																									},
 																								},
 																							},
@@ -39966,21 +39970,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2657, col: 19, offset: 84993},
+																				pos: position{line: 2660, col: 19, offset: 85064},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2657, col: 19, offset: 84993},
+																						pos:        position{line: 2660, col: 19, offset: 85064},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2657, col: 26, offset: 85000},
+																						pos: position{line: 2660, col: 26, offset: 85071},
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39989,28 +39993,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2977, col: 8, offset: 93991},
+																						pos: position{line: 2980, col: 8, offset: 94062},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2964, col: 12, offset: 93764},
+																								pos: position{line: 2967, col: 12, offset: 93835},
 																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2964, col: 13, offset: 93765},
+																									pos: position{line: 2967, col: 13, offset: 93836},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 13, offset: 93765},
+																											pos:        position{line: 2967, col: 13, offset: 93836},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 20, offset: 93772},
+																											pos:        position{line: 2967, col: 20, offset: 93843},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2964, col: 29, offset: 93781},
+																											pos:        position{line: 2967, col: 29, offset: 93852},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40019,9 +40023,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2974, col: 8, offset: 93941},
+																								pos: position{line: 2977, col: 8, offset: 94012},
 																								expr: &anyMatcher{
-																									line: 2974, col: 9, offset: 93942,
+																									line: 2977, col: 9, offset: 94013,
 																								},
 																							},
 																						},
@@ -40035,12 +40039,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 14, offset: 91347},
+																		pos: position{line: 2881, col: 14, offset: 91418},
 																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2878, col: 14, offset: 91347},
+																			pos: position{line: 2881, col: 14, offset: 91418},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 14, offset: 91347},
+																				pos:        position{line: 2881, col: 14, offset: 91418},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40050,28 +40054,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40080,9 +40084,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -40147,10 +40151,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2955, col: 10, offset: 93593},
+								pos: position{line: 2958, col: 10, offset: 93664},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2955, col: 10, offset: 93593},
+									pos:        position{line: 2958, col: 10, offset: 93664},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40164,25 +40168,25 @@ var g = &grammar{
 								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93764},
+										pos: position{line: 2967, col: 12, offset: 93835},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93765},
+											pos: position{line: 2967, col: 13, offset: 93836},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93765},
+													pos:        position{line: 2967, col: 13, offset: 93836},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93772},
+													pos:        position{line: 2967, col: 20, offset: 93843},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93781},
+													pos:        position{line: 2967, col: 29, offset: 93852},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40191,9 +40195,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2974, col: 8, offset: 93941},
+										pos: position{line: 2977, col: 8, offset: 94012},
 										expr: &anyMatcher{
-											line: 2974, col: 9, offset: 93942,
+											line: 2977, col: 9, offset: 94013,
 										},
 									},
 									&ruleRefExpr{
@@ -40222,7 +40226,7 @@ var g = &grammar{
 								pos: position{line: 1785, col: 7, offset: 57501},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2809, col: 13, offset: 89541},
+										pos:        position{line: 2812, col: 13, offset: 89612},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -40241,12 +40245,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2959, col: 11, offset: 93654},
+													pos: position{line: 2962, col: 11, offset: 93725},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2959, col: 11, offset: 93654},
+														pos: position{line: 2962, col: 11, offset: 93725},
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 11, offset: 93654},
+															pos:        position{line: 2962, col: 11, offset: 93725},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40337,12 +40341,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40363,10 +40367,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40375,28 +40379,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93991},
+															pos: position{line: 2980, col: 8, offset: 94062},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93764},
+																	pos: position{line: 2967, col: 12, offset: 93835},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93765},
+																		pos: position{line: 2967, col: 13, offset: 93836},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93765},
+																				pos:        position{line: 2967, col: 13, offset: 93836},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93772},
+																				pos:        position{line: 2967, col: 20, offset: 93843},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93781},
+																				pos:        position{line: 2967, col: 29, offset: 93852},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40405,9 +40409,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -40433,12 +40437,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 14, offset: 91347},
+												pos: position{line: 2881, col: 14, offset: 91418},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2878, col: 14, offset: 91347},
+													pos: position{line: 2881, col: 14, offset: 91418},
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 14, offset: 91347},
+														pos:        position{line: 2881, col: 14, offset: 91418},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40452,28 +40456,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2977, col: 8, offset: 93991},
+											pos: position{line: 2980, col: 8, offset: 94062},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2964, col: 12, offset: 93764},
+													pos: position{line: 2967, col: 12, offset: 93835},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2964, col: 13, offset: 93765},
+														pos: position{line: 2967, col: 13, offset: 93836},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2964, col: 13, offset: 93765},
+																pos:        position{line: 2967, col: 13, offset: 93836},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 20, offset: 93772},
+																pos:        position{line: 2967, col: 20, offset: 93843},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 29, offset: 93781},
+																pos:        position{line: 2967, col: 29, offset: 93852},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40482,9 +40486,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -40509,9 +40513,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58066},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93927},
+												pos: position{line: 2975, col: 11, offset: 93998},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93929,
+													line: 2975, col: 13, offset: 94000,
 												},
 											},
 											&notExpr{
@@ -40523,18 +40527,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40543,28 +40547,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40573,9 +40577,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -40605,7 +40609,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2809, col: 13, offset: 89541},
+																			pos:        position{line: 2812, col: 13, offset: 89612},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40655,10 +40659,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40667,28 +40671,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40697,9 +40701,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -40744,10 +40748,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40756,28 +40760,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40786,9 +40790,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -40829,10 +40833,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40841,28 +40845,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40871,9 +40875,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -40918,10 +40922,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40930,28 +40934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40960,9 +40964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41007,10 +41011,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41019,28 +41023,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41049,9 +41053,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41096,10 +41100,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41108,28 +41112,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41138,9 +41142,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41185,10 +41189,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41197,28 +41201,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41227,9 +41231,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41274,10 +41278,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41286,28 +41290,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41316,9 +41320,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41363,10 +41367,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41375,28 +41379,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41405,9 +41409,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -41444,10 +41448,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41456,28 +41460,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41486,9 +41490,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -41497,21 +41501,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84993},
+															pos: position{line: 2660, col: 19, offset: 85064},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84993},
+																	pos:        position{line: 2660, col: 19, offset: 85064},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 85000},
+																	pos: position{line: 2660, col: 26, offset: 85071},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41520,28 +41524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41550,9 +41554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -41576,10 +41580,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41588,25 +41592,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
+															pos: position{line: 2967, col: 12, offset: 93835},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41648,12 +41652,12 @@ var g = &grammar{
 																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91280},
+																			pos: position{line: 2877, col: 13, offset: 91351},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91280},
+																				pos: position{line: 2877, col: 13, offset: 91351},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91280},
+																					pos:        position{line: 2877, col: 13, offset: 91351},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41663,28 +41667,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41693,9 +41697,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -41713,12 +41717,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91347},
+																			pos: position{line: 2881, col: 14, offset: 91418},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91347},
+																				pos: position{line: 2881, col: 14, offset: 91418},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91347},
+																					pos:        position{line: 2881, col: 14, offset: 91418},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41732,28 +41736,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41762,9 +41766,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -41870,12 +41874,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 11, offset: 93654},
+																	pos: position{line: 2962, col: 11, offset: 93725},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2959, col: 11, offset: 93654},
+																		pos: position{line: 2962, col: 11, offset: 93725},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 11, offset: 93654},
+																			pos:        position{line: 2962, col: 11, offset: 93725},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41896,10 +41900,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41908,28 +41912,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2977, col: 8, offset: 93991},
+															pos: position{line: 2980, col: 8, offset: 94062},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93764},
+																	pos: position{line: 2967, col: 12, offset: 93835},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93765},
+																		pos: position{line: 2967, col: 13, offset: 93836},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93765},
+																				pos:        position{line: 2967, col: 13, offset: 93836},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93772},
+																				pos:        position{line: 2967, col: 20, offset: 93843},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93781},
+																				pos:        position{line: 2967, col: 29, offset: 93852},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41938,9 +41942,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -41966,12 +41970,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 14, offset: 91347},
+												pos: position{line: 2881, col: 14, offset: 91418},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2878, col: 14, offset: 91347},
+													pos: position{line: 2881, col: 14, offset: 91418},
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 14, offset: 91347},
+														pos:        position{line: 2881, col: 14, offset: 91418},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41985,28 +41989,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2977, col: 8, offset: 93991},
+											pos: position{line: 2980, col: 8, offset: 94062},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2964, col: 12, offset: 93764},
+													pos: position{line: 2967, col: 12, offset: 93835},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2964, col: 13, offset: 93765},
+														pos: position{line: 2967, col: 13, offset: 93836},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2964, col: 13, offset: 93765},
+																pos:        position{line: 2967, col: 13, offset: 93836},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 20, offset: 93772},
+																pos:        position{line: 2967, col: 20, offset: 93843},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2964, col: 29, offset: 93781},
+																pos:        position{line: 2967, col: 29, offset: 93852},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42015,9 +42019,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2974, col: 8, offset: 93941},
+													pos: position{line: 2977, col: 8, offset: 94012},
 													expr: &anyMatcher{
-														line: 2974, col: 9, offset: 93942,
+														line: 2977, col: 9, offset: 94013,
 													},
 												},
 											},
@@ -42038,9 +42042,9 @@ var g = &grammar{
 										pos: position{line: 1812, col: 9, offset: 58534},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93927},
+												pos: position{line: 2975, col: 11, offset: 93998},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93929,
+													line: 2975, col: 13, offset: 94000,
 												},
 											},
 											&notExpr{
@@ -42052,18 +42056,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2972, col: 11, offset: 93927},
+																pos: position{line: 2975, col: 11, offset: 93998},
 																expr: &anyMatcher{
-																	line: 2972, col: 13, offset: 93929,
+																	line: 2975, col: 13, offset: 94000,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42072,28 +42076,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2977, col: 8, offset: 93991},
+																pos: position{line: 2980, col: 8, offset: 94062},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2964, col: 12, offset: 93764},
+																		pos: position{line: 2967, col: 12, offset: 93835},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2964, col: 13, offset: 93765},
+																			pos: position{line: 2967, col: 13, offset: 93836},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 13, offset: 93765},
+																					pos:        position{line: 2967, col: 13, offset: 93836},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 20, offset: 93772},
+																					pos:        position{line: 2967, col: 20, offset: 93843},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2964, col: 29, offset: 93781},
+																					pos:        position{line: 2967, col: 29, offset: 93852},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42102,9 +42106,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2974, col: 8, offset: 93941},
+																		pos: position{line: 2977, col: 8, offset: 94012},
 																		expr: &anyMatcher{
-																			line: 2974, col: 9, offset: 93942,
+																			line: 2977, col: 9, offset: 94013,
 																		},
 																	},
 																},
@@ -42134,7 +42138,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2809, col: 13, offset: 89541},
+																			pos:        position{line: 2812, col: 13, offset: 89612},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42184,10 +42188,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42196,28 +42200,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42226,9 +42230,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42273,10 +42277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42285,28 +42289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42315,9 +42319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42358,10 +42362,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42370,28 +42374,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42400,9 +42404,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42447,10 +42451,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42459,28 +42463,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42489,9 +42493,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42536,10 +42540,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42548,28 +42552,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42578,9 +42582,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42625,10 +42629,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42637,28 +42641,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42667,9 +42671,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42714,10 +42718,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42726,28 +42730,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42756,9 +42760,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42803,10 +42807,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42815,28 +42819,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42845,9 +42849,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42892,10 +42896,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 10, offset: 93593},
+																									pos: position{line: 2958, col: 10, offset: 93664},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2955, col: 10, offset: 93593},
+																										pos:        position{line: 2958, col: 10, offset: 93664},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42904,28 +42908,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2977, col: 8, offset: 93991},
+																								pos: position{line: 2980, col: 8, offset: 94062},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2964, col: 12, offset: 93764},
+																										pos: position{line: 2967, col: 12, offset: 93835},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2964, col: 13, offset: 93765},
+																											pos: position{line: 2967, col: 13, offset: 93836},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 13, offset: 93765},
+																													pos:        position{line: 2967, col: 13, offset: 93836},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 20, offset: 93772},
+																													pos:        position{line: 2967, col: 20, offset: 93843},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2964, col: 29, offset: 93781},
+																													pos:        position{line: 2967, col: 29, offset: 93852},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42934,9 +42938,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2974, col: 8, offset: 93941},
+																										pos: position{line: 2977, col: 8, offset: 94012},
 																										expr: &anyMatcher{
-																											line: 2974, col: 9, offset: 93942,
+																											line: 2977, col: 9, offset: 94013,
 																										},
 																									},
 																								},
@@ -42973,10 +42977,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42985,28 +42989,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43015,9 +43019,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -43026,21 +43030,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2657, col: 19, offset: 84993},
+															pos: position{line: 2660, col: 19, offset: 85064},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2657, col: 19, offset: 84993},
+																	pos:        position{line: 2660, col: 19, offset: 85064},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2657, col: 26, offset: 85000},
+																	pos: position{line: 2660, col: 26, offset: 85071},
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43049,28 +43053,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43079,9 +43083,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -43122,12 +43126,12 @@ var g = &grammar{
 																		pos:   position{line: 2525, col: 49, offset: 81334},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2874, col: 13, offset: 91280},
+																			pos: position{line: 2877, col: 13, offset: 91351},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2874, col: 13, offset: 91280},
+																				pos: position{line: 2877, col: 13, offset: 91351},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 91280},
+																					pos:        position{line: 2877, col: 13, offset: 91351},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43137,28 +43141,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43167,9 +43171,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -43187,12 +43191,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 14, offset: 91347},
+																			pos: position{line: 2881, col: 14, offset: 91418},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2878, col: 14, offset: 91347},
+																				pos: position{line: 2881, col: 14, offset: 91418},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 14, offset: 91347},
+																					pos:        position{line: 2881, col: 14, offset: 91418},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43206,28 +43210,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2977, col: 8, offset: 93991},
+																		pos: position{line: 2980, col: 8, offset: 94062},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43236,9 +43240,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2974, col: 8, offset: 93941},
+																				pos: position{line: 2977, col: 8, offset: 94012},
 																				expr: &anyMatcher{
-																					line: 2974, col: 9, offset: 93942,
+																					line: 2977, col: 9, offset: 94013,
 																				},
 																			},
 																		},
@@ -43451,30 +43455,30 @@ var g = &grammar{
 				pos: position{line: 1890, col: 5, offset: 60860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2818, col: 5, offset: 89688},
+						pos: position{line: 2821, col: 5, offset: 89759},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2818, col: 5, offset: 89688},
+							pos: position{line: 2821, col: 5, offset: 89759},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2818, col: 5, offset: 89688},
+									pos: position{line: 2821, col: 5, offset: 89759},
 									expr: &seqExpr{
-										pos: position{line: 2819, col: 9, offset: 89699},
+										pos: position{line: 2822, col: 9, offset: 89770},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2819, col: 9, offset: 89699},
+												pos: position{line: 2822, col: 9, offset: 89770},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2822, col: 9, offset: 89762},
+												pos:   position{line: 2825, col: 9, offset: 89833},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2794, col: 18, offset: 89074},
+													pos: position{line: 2797, col: 18, offset: 89145},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2794, col: 19, offset: 89075},
+														pos: position{line: 2797, col: 19, offset: 89146},
 														expr: &charClassMatcher{
-															pos:        position{line: 2794, col: 19, offset: 89075},
+															pos:        position{line: 2797, col: 19, offset: 89146},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43485,28 +43489,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2822, col: 30, offset: 89783},
+												pos:        position{line: 2825, col: 30, offset: 89854},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2823, col: 9, offset: 89870},
+												pos: position{line: 2826, col: 9, offset: 89941},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2827, col: 5, offset: 89982},
+									pos:   position{line: 2830, col: 5, offset: 90053},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2827, col: 11, offset: 89988},
+										pos: position{line: 2830, col: 11, offset: 90059},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2827, col: 11, offset: 89988},
+											pos: position{line: 2830, col: 11, offset: 90059},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 11, offset: 89988},
+												pos:        position{line: 2830, col: 11, offset: 90059},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43516,32 +43520,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2830, col: 5, offset: 90046},
+									pos: position{line: 2833, col: 5, offset: 90117},
 									expr: &seqExpr{
-										pos: position{line: 2831, col: 9, offset: 90057},
+										pos: position{line: 2834, col: 9, offset: 90128},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2831, col: 9, offset: 90057},
+												pos:        position{line: 2834, col: 9, offset: 90128},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2832, col: 9, offset: 90106},
+												pos: position{line: 2835, col: 9, offset: 90177},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90186},
+									pos: position{line: 2839, col: 5, offset: 90257},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90197},
+										pos: position{line: 2840, col: 9, offset: 90268},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2837, col: 9, offset: 90197},
+												pos: position{line: 2840, col: 9, offset: 90268},
 												expr: &charClassMatcher{
-													pos:        position{line: 2837, col: 9, offset: 90197},
+													pos:        position{line: 2840, col: 9, offset: 90268},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43550,13 +43554,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2837, col: 23, offset: 90211},
+												pos:        position{line: 2840, col: 23, offset: 90282},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2837, col: 27, offset: 90215},
+												pos:        position{line: 2840, col: 27, offset: 90286},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43569,12 +43573,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2959, col: 11, offset: 93654},
+						pos: position{line: 2962, col: 11, offset: 93725},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2959, col: 11, offset: 93654},
+							pos: position{line: 2962, col: 11, offset: 93725},
 							expr: &charClassMatcher{
-								pos:        position{line: 2959, col: 11, offset: 93654},
+								pos:        position{line: 2962, col: 11, offset: 93725},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43592,16 +43596,20 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 2543, col: 5, offset: 82024},
 							exprs: []interface{}{
+								&andCodeExpr{
+									pos: position{line: 2543, col: 5, offset: 82024},
+									run: (*parser).callonQuotedTextElement33,
+								},
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 82024},
+									pos:        position{line: 2546, col: 5, offset: 82095},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2543, col: 10, offset: 82029},
+									pos: position{line: 2546, col: 10, offset: 82100},
 									expr: &charClassMatcher{
-										pos:        position{line: 2543, col: 11, offset: 82030},
+										pos:        position{line: 2546, col: 11, offset: 82101},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43612,29 +43620,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 82216},
-						run: (*parser).callonQuotedTextElement36,
+						pos: position{line: 2552, col: 5, offset: 82287},
+						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 82216},
+							pos: position{line: 2552, col: 5, offset: 82287},
 							exprs: []interface{}{
-								&andCodeExpr{
-									pos: position{line: 2549, col: 5, offset: 82216},
-									run: (*parser).callonQuotedTextElement38,
-								},
 								&andCodeExpr{
 									pos: position{line: 2552, col: 5, offset: 82287},
 									run: (*parser).callonQuotedTextElement39,
 								},
+								&andCodeExpr{
+									pos: position{line: 2555, col: 5, offset: 82358},
+									run: (*parser).callonQuotedTextElement40,
+								},
 								&litMatcher{
-									pos:        position{line: 2556, col: 5, offset: 82412},
+									pos:        position{line: 2559, col: 5, offset: 82483},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2556, col: 9, offset: 82416},
+									pos: position{line: 2559, col: 9, offset: 82487},
 									expr: &charClassMatcher{
-										pos:        position{line: 2556, col: 10, offset: 82417},
+										pos:        position{line: 2559, col: 10, offset: 82488},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43645,27 +43653,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2845, col: 5, offset: 90408},
-						run: (*parser).callonQuotedTextElement43,
+						pos: position{line: 2848, col: 5, offset: 90479},
+						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2846, col: 9, offset: 90418},
+							pos: position{line: 2849, col: 9, offset: 90489},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2846, col: 10, offset: 90419},
+									pos:        position{line: 2849, col: 10, offset: 90490},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2848, col: 13, offset: 90516},
+									pos: position{line: 2851, col: 13, offset: 90587},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2848, col: 13, offset: 90516},
-											run: (*parser).callonQuotedTextElement47,
+											pos: position{line: 2851, col: 13, offset: 90587},
+											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2851, col: 13, offset: 90616},
+											pos:        position{line: 2854, col: 13, offset: 90687},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43673,20 +43681,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2851, col: 19, offset: 90622},
+									pos:        position{line: 2854, col: 19, offset: 90693},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90660},
+									pos: position{line: 2857, col: 13, offset: 90731},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2854, col: 13, offset: 90660},
-											run: (*parser).callonQuotedTextElement51,
+											pos: position{line: 2857, col: 13, offset: 90731},
+											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2857, col: 14, offset: 90753},
+											pos:        position{line: 2860, col: 14, offset: 90824},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43695,18 +43703,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2859, col: 12, offset: 90797},
+									pos: position{line: 2862, col: 12, offset: 90868},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2859, col: 12, offset: 90797},
+											pos:        position{line: 2862, col: 12, offset: 90868},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2859, col: 16, offset: 90801},
+											pos: position{line: 2862, col: 16, offset: 90872},
 											expr: &litMatcher{
-												pos:        position{line: 2859, col: 17, offset: 90802},
+												pos:        position{line: 2862, col: 17, offset: 90873},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -43719,13 +43727,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 656, col: 5, offset: 20755},
-						run: (*parser).callonQuotedTextElement57,
+						run: (*parser).callonQuotedTextElement58,
 						expr: &seqExpr{
 							pos: position{line: 656, col: 5, offset: 20755},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 656, col: 5, offset: 20755},
-									run: (*parser).callonQuotedTextElement59,
+									run: (*parser).callonQuotedTextElement60,
 								},
 								&labeledExpr{
 									pos:   position{line: 659, col: 5, offset: 20827},
@@ -43735,7 +43743,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 665, col: 5, offset: 20965},
-												run: (*parser).callonQuotedTextElement62,
+												run: (*parser).callonQuotedTextElement63,
 												expr: &seqExpr{
 													pos: position{line: 665, col: 5, offset: 20965},
 													exprs: []interface{}{
@@ -43750,7 +43758,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement66,
+																run: (*parser).callonQuotedTextElement67,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43788,7 +43796,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 672, col: 5, offset: 21233},
-												run: (*parser).callonQuotedTextElement72,
+												run: (*parser).callonQuotedTextElement73,
 												expr: &seqExpr{
 													pos: position{line: 672, col: 5, offset: 21233},
 													exprs: []interface{}{
@@ -43803,7 +43811,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement76,
+																run: (*parser).callonQuotedTextElement77,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43841,7 +43849,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 678, col: 25, offset: 21437},
-												run: (*parser).callonQuotedTextElement82,
+												run: (*parser).callonQuotedTextElement83,
 												expr: &seqExpr{
 													pos: position{line: 678, col: 25, offset: 21437},
 													exprs: []interface{}{
@@ -43856,7 +43864,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement86,
+																run: (*parser).callonQuotedTextElement87,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43890,7 +43898,7 @@ var g = &grammar{
 																pos: position{line: 678, col: 62, offset: 21474},
 																expr: &actionExpr{
 																	pos: position{line: 686, col: 17, offset: 21769},
-																	run: (*parser).callonQuotedTextElement93,
+																	run: (*parser).callonQuotedTextElement94,
 																	expr: &seqExpr{
 																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
@@ -43908,7 +43916,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 686, col: 28, offset: 21780},
-																							run: (*parser).callonQuotedTextElement98,
+																							run: (*parser).callonQuotedTextElement99,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
@@ -43919,7 +43927,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 688, col: 9, offset: 21834},
-																							run: (*parser).callonQuotedTextElement100,
+																							run: (*parser).callonQuotedTextElement101,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
@@ -43950,7 +43958,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 682, col: 25, offset: 21608},
-												run: (*parser).callonQuotedTextElement104,
+												run: (*parser).callonQuotedTextElement105,
 												expr: &seqExpr{
 													pos: position{line: 682, col: 25, offset: 21608},
 													exprs: []interface{}{
@@ -43965,7 +43973,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 319, col: 18, offset: 9747},
-																run: (*parser).callonQuotedTextElement108,
+																run: (*parser).callonQuotedTextElement109,
 																expr: &seqExpr{
 																	pos: position{line: 319, col: 18, offset: 9747},
 																	exprs: []interface{}{
@@ -43999,7 +44007,7 @@ var g = &grammar{
 																pos: position{line: 682, col: 63, offset: 21646},
 																expr: &actionExpr{
 																	pos: position{line: 686, col: 17, offset: 21769},
-																	run: (*parser).callonQuotedTextElement115,
+																	run: (*parser).callonQuotedTextElement116,
 																	expr: &seqExpr{
 																		pos: position{line: 686, col: 17, offset: 21769},
 																		exprs: []interface{}{
@@ -44017,7 +44025,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 686, col: 28, offset: 21780},
-																							run: (*parser).callonQuotedTextElement120,
+																							run: (*parser).callonQuotedTextElement121,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 686, col: 28, offset: 21780},
 																								val:        "[A-Za-z]",
@@ -44028,7 +44036,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 688, col: 9, offset: 21834},
-																							run: (*parser).callonQuotedTextElement122,
+																							run: (*parser).callonQuotedTextElement123,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 688, col: 9, offset: 21834},
 																								expr: &charClassMatcher{
@@ -44064,31 +44072,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2968, col: 18, offset: 93864},
-						run: (*parser).callonQuotedTextElement126,
+						pos: position{line: 2971, col: 18, offset: 93935},
+						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2968, col: 18, offset: 93864},
+							pos: position{line: 2971, col: 18, offset: 93935},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
-									run: (*parser).callonQuotedTextElement128,
+									pos: position{line: 2967, col: 12, offset: 93835},
+									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44097,27 +44105,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2968, col: 26, offset: 93872},
+									pos: position{line: 2971, col: 26, offset: 93943},
 									expr: &actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93764},
-										run: (*parser).callonQuotedTextElement134,
+										pos: position{line: 2967, col: 12, offset: 93835},
+										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93765},
+											pos: position{line: 2967, col: 13, offset: 93836},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93765},
+													pos:        position{line: 2967, col: 13, offset: 93836},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93772},
+													pos:        position{line: 2967, col: 20, offset: 93843},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93781},
+													pos:        position{line: 2967, col: 29, offset: 93852},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44139,20 +44147,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2512, col: 5, offset: 80853},
-						run: (*parser).callonQuotedTextElement141,
+						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
 							pos: position{line: 2512, col: 5, offset: 80853},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2512, col: 5, offset: 80853},
-									run: (*parser).callonQuotedTextElement143,
+									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
 									pos:   position{line: 2515, col: 5, offset: 80929},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2516, col: 9, offset: 80947},
-										run: (*parser).callonQuotedTextElement145,
+										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
 											pos:        position{line: 2516, col: 10, offset: 80948},
 											val:        "[<>&]",
@@ -44167,7 +44175,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1226, col: 23, offset: 37843},
-						run: (*parser).callonQuotedTextElement147,
+						run: (*parser).callonQuotedTextElement148,
 						expr: &seqExpr{
 							pos: position{line: 1226, col: 23, offset: 37843},
 							exprs: []interface{}{
@@ -44182,7 +44190,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1226, col: 56, offset: 37876},
-										run: (*parser).callonQuotedTextElement151,
+										run: (*parser).callonQuotedTextElement152,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1226, col: 56, offset: 37876},
 											expr: &charClassMatcher{
@@ -44205,10 +44213,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2867, col: 12, offset: 91062},
-						run: (*parser).callonQuotedTextElement155,
+						pos: position{line: 2870, col: 12, offset: 91133},
+						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2867, col: 12, offset: 91062},
+							pos:        position{line: 2870, col: 12, offset: 91133},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44276,9 +44284,9 @@ var g = &grammar{
 					pos: position{line: 1929, col: 5, offset: 62039},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -44365,7 +44373,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1954, col: 7, offset: 62764},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89541},
+									pos:        position{line: 2812, col: 13, offset: 89612},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44425,9 +44433,9 @@ var g = &grammar{
 					pos: position{line: 1973, col: 5, offset: 63312},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -44459,7 +44467,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1954, col: 7, offset: 62764},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89541},
+												pos:        position{line: 2812, col: 13, offset: 89612},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44702,9 +44710,9 @@ var g = &grammar{
 					pos: position{line: 2021, col: 5, offset: 65080},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -44791,7 +44799,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2047, col: 7, offset: 65811},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89541},
+									pos:        position{line: 2812, col: 13, offset: 89612},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44851,9 +44859,9 @@ var g = &grammar{
 					pos: position{line: 2066, col: 5, offset: 66374},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -44885,7 +44893,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2047, col: 7, offset: 65811},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89541},
+												pos:        position{line: 2812, col: 13, offset: 89612},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45128,9 +45136,9 @@ var g = &grammar{
 					pos: position{line: 2114, col: 5, offset: 68320},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -45182,7 +45190,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2141, col: 7, offset: 69113},
 							expr: &charClassMatcher{
-								pos:        position{line: 2809, col: 13, offset: 89541},
+								pos:        position{line: 2812, col: 13, offset: 89612},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45288,9 +45296,9 @@ var g = &grammar{
 					pos: position{line: 2161, col: 5, offset: 69706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -45532,9 +45540,9 @@ var g = &grammar{
 					pos: position{line: 2209, col: 5, offset: 71538},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -45621,7 +45629,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2234, col: 7, offset: 72267},
 								expr: &charClassMatcher{
-									pos:        position{line: 2809, col: 13, offset: 89541},
+									pos:        position{line: 2812, col: 13, offset: 89612},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45681,9 +45689,9 @@ var g = &grammar{
 					pos: position{line: 2253, col: 5, offset: 72831},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&notExpr{
@@ -45715,7 +45723,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2234, col: 7, offset: 72267},
 											expr: &charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89541},
+												pos:        position{line: 2812, col: 13, offset: 89612},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46245,12 +46253,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2959, col: 11, offset: 93654},
+							pos: position{line: 2962, col: 11, offset: 93725},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2959, col: 11, offset: 93654},
+								pos: position{line: 2962, col: 11, offset: 93725},
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 11, offset: 93654},
+									pos:        position{line: 2962, col: 11, offset: 93725},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46267,28 +46275,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46297,9 +46305,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -46348,28 +46356,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2371, col: 5, offset: 76816},
 							expr: &choiceExpr{
-								pos: position{line: 2977, col: 8, offset: 93991},
+								pos: position{line: 2980, col: 8, offset: 94062},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93764},
+										pos: position{line: 2967, col: 12, offset: 93835},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93765},
+											pos: position{line: 2967, col: 13, offset: 93836},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93765},
+													pos:        position{line: 2967, col: 13, offset: 93836},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93772},
+													pos:        position{line: 2967, col: 20, offset: 93843},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93781},
+													pos:        position{line: 2967, col: 29, offset: 93852},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46378,9 +46386,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2974, col: 8, offset: 93941},
+										pos: position{line: 2977, col: 8, offset: 94012},
 										expr: &anyMatcher{
-											line: 2974, col: 9, offset: 93942,
+											line: 2977, col: 9, offset: 94013,
 										},
 									},
 								},
@@ -46393,30 +46401,30 @@ var g = &grammar{
 								pos: position{line: 2373, col: 9, offset: 76843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89688},
+										pos: position{line: 2821, col: 5, offset: 89759},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89688},
+											pos: position{line: 2821, col: 5, offset: 89759},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89688},
+													pos: position{line: 2821, col: 5, offset: 89759},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89699},
+														pos: position{line: 2822, col: 9, offset: 89770},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89699},
+																pos: position{line: 2822, col: 9, offset: 89770},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89762},
+																pos:   position{line: 2825, col: 9, offset: 89833},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89074},
+																	pos: position{line: 2797, col: 18, offset: 89145},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89075},
+																		pos: position{line: 2797, col: 19, offset: 89146},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89075},
+																			pos:        position{line: 2797, col: 19, offset: 89146},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46427,28 +46435,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89783},
+																pos:        position{line: 2825, col: 30, offset: 89854},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89870},
+																pos: position{line: 2826, col: 9, offset: 89941},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89982},
+													pos:   position{line: 2830, col: 5, offset: 90053},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89988},
+														pos: position{line: 2830, col: 11, offset: 90059},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89988},
+															pos: position{line: 2830, col: 11, offset: 90059},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89988},
+																pos:        position{line: 2830, col: 11, offset: 90059},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46458,32 +46466,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90046},
+													pos: position{line: 2833, col: 5, offset: 90117},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90057},
+														pos: position{line: 2834, col: 9, offset: 90128},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90057},
+																pos:        position{line: 2834, col: 9, offset: 90128},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90106},
+																pos: position{line: 2835, col: 9, offset: 90177},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90186},
+													pos: position{line: 2839, col: 5, offset: 90257},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90197},
+														pos: position{line: 2840, col: 9, offset: 90268},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90197},
+																pos: position{line: 2840, col: 9, offset: 90268},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90197},
+																	pos:        position{line: 2840, col: 9, offset: 90268},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46492,13 +46500,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90211},
+																pos:        position{line: 2840, col: 23, offset: 90282},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90215},
+																pos:        position{line: 2840, col: 27, offset: 90286},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46511,12 +46519,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 11, offset: 93654},
+										pos: position{line: 2962, col: 11, offset: 93725},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2959, col: 11, offset: 93654},
+											pos: position{line: 2962, col: 11, offset: 93725},
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 11, offset: 93654},
+												pos:        position{line: 2962, col: 11, offset: 93725},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46530,16 +46538,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2543, col: 5, offset: 82024},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2543, col: 5, offset: 82024},
+													run: (*parser).callonSectionTitleElement44,
+												},
 												&litMatcher{
-													pos:        position{line: 2543, col: 5, offset: 82024},
+													pos:        position{line: 2546, col: 5, offset: 82095},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2543, col: 10, offset: 82029},
+													pos: position{line: 2546, col: 10, offset: 82100},
 													expr: &charClassMatcher{
-														pos:        position{line: 2543, col: 11, offset: 82030},
+														pos:        position{line: 2546, col: 11, offset: 82101},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46550,29 +46562,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2549, col: 5, offset: 82216},
-										run: (*parser).callonSectionTitleElement47,
+										pos: position{line: 2552, col: 5, offset: 82287},
+										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2549, col: 5, offset: 82216},
+											pos: position{line: 2552, col: 5, offset: 82287},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2549, col: 5, offset: 82216},
-													run: (*parser).callonSectionTitleElement49,
-												},
 												&andCodeExpr{
 													pos: position{line: 2552, col: 5, offset: 82287},
 													run: (*parser).callonSectionTitleElement50,
 												},
+												&andCodeExpr{
+													pos: position{line: 2555, col: 5, offset: 82358},
+													run: (*parser).callonSectionTitleElement51,
+												},
 												&litMatcher{
-													pos:        position{line: 2556, col: 5, offset: 82412},
+													pos:        position{line: 2559, col: 5, offset: 82483},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2556, col: 9, offset: 82416},
+													pos: position{line: 2559, col: 9, offset: 82487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2556, col: 10, offset: 82417},
+														pos:        position{line: 2559, col: 10, offset: 82488},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46587,27 +46599,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90408},
-										run: (*parser).callonSectionTitleElement55,
+										pos: position{line: 2848, col: 5, offset: 90479},
+										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90418},
+											pos: position{line: 2849, col: 9, offset: 90489},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90419},
+													pos:        position{line: 2849, col: 10, offset: 90490},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90516},
+													pos: position{line: 2851, col: 13, offset: 90587},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90516},
-															run: (*parser).callonSectionTitleElement59,
+															pos: position{line: 2851, col: 13, offset: 90587},
+															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90616},
+															pos:        position{line: 2854, col: 13, offset: 90687},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46615,20 +46627,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90622},
+													pos:        position{line: 2854, col: 19, offset: 90693},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90660},
+													pos: position{line: 2857, col: 13, offset: 90731},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90660},
-															run: (*parser).callonSectionTitleElement63,
+															pos: position{line: 2857, col: 13, offset: 90731},
+															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90753},
+															pos:        position{line: 2860, col: 14, offset: 90824},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46637,18 +46649,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90797},
+													pos: position{line: 2862, col: 12, offset: 90868},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90797},
+															pos:        position{line: 2862, col: 12, offset: 90868},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90801},
+															pos: position{line: 2862, col: 16, offset: 90872},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90802},
+																pos:        position{line: 2862, col: 17, offset: 90873},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46673,20 +46685,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2512, col: 5, offset: 80853},
-										run: (*parser).callonSectionTitleElement72,
+										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
 											pos: position{line: 2512, col: 5, offset: 80853},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2512, col: 5, offset: 80853},
-													run: (*parser).callonSectionTitleElement74,
+													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
 													pos:   position{line: 2515, col: 5, offset: 80929},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2516, col: 9, offset: 80947},
-														run: (*parser).callonSectionTitleElement76,
+														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
 															pos:        position{line: 2516, col: 10, offset: 80948},
 															val:        "[<>&]",
@@ -46705,13 +46717,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 656, col: 5, offset: 20755},
-										run: (*parser).callonSectionTitleElement79,
+										run: (*parser).callonSectionTitleElement80,
 										expr: &seqExpr{
 											pos: position{line: 656, col: 5, offset: 20755},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 656, col: 5, offset: 20755},
-													run: (*parser).callonSectionTitleElement81,
+													run: (*parser).callonSectionTitleElement82,
 												},
 												&labeledExpr{
 													pos:   position{line: 659, col: 5, offset: 20827},
@@ -46721,7 +46733,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 665, col: 5, offset: 20965},
-																run: (*parser).callonSectionTitleElement84,
+																run: (*parser).callonSectionTitleElement85,
 																expr: &seqExpr{
 																	pos: position{line: 665, col: 5, offset: 20965},
 																	exprs: []interface{}{
@@ -46736,7 +46748,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement88,
+																				run: (*parser).callonSectionTitleElement89,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46774,7 +46786,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 672, col: 5, offset: 21233},
-																run: (*parser).callonSectionTitleElement94,
+																run: (*parser).callonSectionTitleElement95,
 																expr: &seqExpr{
 																	pos: position{line: 672, col: 5, offset: 21233},
 																	exprs: []interface{}{
@@ -46789,7 +46801,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement98,
+																				run: (*parser).callonSectionTitleElement99,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46827,7 +46839,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 678, col: 25, offset: 21437},
-																run: (*parser).callonSectionTitleElement104,
+																run: (*parser).callonSectionTitleElement105,
 																expr: &seqExpr{
 																	pos: position{line: 678, col: 25, offset: 21437},
 																	exprs: []interface{}{
@@ -46842,7 +46854,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement108,
+																				run: (*parser).callonSectionTitleElement109,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46876,7 +46888,7 @@ var g = &grammar{
 																				pos: position{line: 678, col: 62, offset: 21474},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonSectionTitleElement115,
+																					run: (*parser).callonSectionTitleElement116,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -46894,7 +46906,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonSectionTitleElement120,
+																											run: (*parser).callonSectionTitleElement121,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -46905,7 +46917,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonSectionTitleElement122,
+																											run: (*parser).callonSectionTitleElement123,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -46936,7 +46948,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 682, col: 25, offset: 21608},
-																run: (*parser).callonSectionTitleElement126,
+																run: (*parser).callonSectionTitleElement127,
 																expr: &seqExpr{
 																	pos: position{line: 682, col: 25, offset: 21608},
 																	exprs: []interface{}{
@@ -46951,7 +46963,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 319, col: 18, offset: 9747},
-																				run: (*parser).callonSectionTitleElement130,
+																				run: (*parser).callonSectionTitleElement131,
 																				expr: &seqExpr{
 																					pos: position{line: 319, col: 18, offset: 9747},
 																					exprs: []interface{}{
@@ -46985,7 +46997,7 @@ var g = &grammar{
 																				pos: position{line: 682, col: 63, offset: 21646},
 																				expr: &actionExpr{
 																					pos: position{line: 686, col: 17, offset: 21769},
-																					run: (*parser).callonSectionTitleElement137,
+																					run: (*parser).callonSectionTitleElement138,
 																					expr: &seqExpr{
 																						pos: position{line: 686, col: 17, offset: 21769},
 																						exprs: []interface{}{
@@ -47003,7 +47015,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 686, col: 28, offset: 21780},
-																											run: (*parser).callonSectionTitleElement142,
+																											run: (*parser).callonSectionTitleElement143,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 686, col: 28, offset: 21780},
 																												val:        "[A-Za-z]",
@@ -47014,7 +47026,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 688, col: 9, offset: 21834},
-																											run: (*parser).callonSectionTitleElement144,
+																											run: (*parser).callonSectionTitleElement145,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 688, col: 9, offset: 21834},
 																												expr: &charClassMatcher{
@@ -47051,7 +47063,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1226, col: 23, offset: 37843},
-										run: (*parser).callonSectionTitleElement148,
+										run: (*parser).callonSectionTitleElement149,
 										expr: &seqExpr{
 											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
@@ -47066,7 +47078,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1226, col: 56, offset: 37876},
-														run: (*parser).callonSectionTitleElement152,
+														run: (*parser).callonSectionTitleElement153,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
@@ -47090,20 +47102,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2395, col: 5, offset: 77563},
-										run: (*parser).callonSectionTitleElement156,
+										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
 											pos: position{line: 2395, col: 5, offset: 77563},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2395, col: 5, offset: 77563},
-													run: (*parser).callonSectionTitleElement158,
+													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
 													pos:   position{line: 2398, col: 5, offset: 77618},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
-														run: (*parser).callonSectionTitleElement160,
+														run: (*parser).callonSectionTitleElement161,
 														expr: &seqExpr{
 															pos: position{line: 405, col: 5, offset: 12349},
 															exprs: []interface{}{
@@ -47118,7 +47130,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 407, col: 9, offset: 12372},
-																		run: (*parser).callonSectionTitleElement164,
+																		run: (*parser).callonSectionTitleElement165,
 																		expr: &labeledExpr{
 																			pos:   position{line: 407, col: 9, offset: 12372},
 																			label: "elements",
@@ -47129,7 +47141,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 408, col: 14, offset: 12396},
-																							run: (*parser).callonSectionTitleElement168,
+																							run: (*parser).callonSectionTitleElement169,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 408, col: 14, offset: 12396},
 																								expr: &charClassMatcher{
@@ -47143,7 +47155,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1226, col: 23, offset: 37843},
-																							run: (*parser).callonSectionTitleElement171,
+																							run: (*parser).callonSectionTitleElement172,
 																							expr: &seqExpr{
 																								pos: position{line: 1226, col: 23, offset: 37843},
 																								exprs: []interface{}{
@@ -47158,7 +47170,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1226, col: 56, offset: 37876},
-																											run: (*parser).callonSectionTitleElement175,
+																											run: (*parser).callonSectionTitleElement176,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1226, col: 56, offset: 37876},
 																												expr: &charClassMatcher{
@@ -47182,13 +47194,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 656, col: 5, offset: 20755},
-																							run: (*parser).callonSectionTitleElement179,
+																							run: (*parser).callonSectionTitleElement180,
 																							expr: &seqExpr{
 																								pos: position{line: 656, col: 5, offset: 20755},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 656, col: 5, offset: 20755},
-																										run: (*parser).callonSectionTitleElement181,
+																										run: (*parser).callonSectionTitleElement182,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 659, col: 5, offset: 20827},
@@ -47198,7 +47210,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 665, col: 5, offset: 20965},
-																													run: (*parser).callonSectionTitleElement184,
+																													run: (*parser).callonSectionTitleElement185,
 																													expr: &seqExpr{
 																														pos: position{line: 665, col: 5, offset: 20965},
 																														exprs: []interface{}{
@@ -47213,7 +47225,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement188,
+																																	run: (*parser).callonSectionTitleElement189,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47251,7 +47263,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 672, col: 5, offset: 21233},
-																													run: (*parser).callonSectionTitleElement194,
+																													run: (*parser).callonSectionTitleElement195,
 																													expr: &seqExpr{
 																														pos: position{line: 672, col: 5, offset: 21233},
 																														exprs: []interface{}{
@@ -47266,7 +47278,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement198,
+																																	run: (*parser).callonSectionTitleElement199,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47304,7 +47316,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 678, col: 25, offset: 21437},
-																													run: (*parser).callonSectionTitleElement204,
+																													run: (*parser).callonSectionTitleElement205,
 																													expr: &seqExpr{
 																														pos: position{line: 678, col: 25, offset: 21437},
 																														exprs: []interface{}{
@@ -47319,7 +47331,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement208,
+																																	run: (*parser).callonSectionTitleElement209,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47353,7 +47365,7 @@ var g = &grammar{
 																																	pos: position{line: 678, col: 62, offset: 21474},
 																																	expr: &actionExpr{
 																																		pos: position{line: 686, col: 17, offset: 21769},
-																																		run: (*parser).callonSectionTitleElement215,
+																																		run: (*parser).callonSectionTitleElement216,
 																																		expr: &seqExpr{
 																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
@@ -47371,7 +47383,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 686, col: 28, offset: 21780},
-																																								run: (*parser).callonSectionTitleElement220,
+																																								run: (*parser).callonSectionTitleElement221,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
@@ -47382,7 +47394,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 688, col: 9, offset: 21834},
-																																								run: (*parser).callonSectionTitleElement222,
+																																								run: (*parser).callonSectionTitleElement223,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
@@ -47413,7 +47425,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 682, col: 25, offset: 21608},
-																													run: (*parser).callonSectionTitleElement226,
+																													run: (*parser).callonSectionTitleElement227,
 																													expr: &seqExpr{
 																														pos: position{line: 682, col: 25, offset: 21608},
 																														exprs: []interface{}{
@@ -47428,7 +47440,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 319, col: 18, offset: 9747},
-																																	run: (*parser).callonSectionTitleElement230,
+																																	run: (*parser).callonSectionTitleElement231,
 																																	expr: &seqExpr{
 																																		pos: position{line: 319, col: 18, offset: 9747},
 																																		exprs: []interface{}{
@@ -47462,7 +47474,7 @@ var g = &grammar{
 																																	pos: position{line: 682, col: 63, offset: 21646},
 																																	expr: &actionExpr{
 																																		pos: position{line: 686, col: 17, offset: 21769},
-																																		run: (*parser).callonSectionTitleElement237,
+																																		run: (*parser).callonSectionTitleElement238,
 																																		expr: &seqExpr{
 																																			pos: position{line: 686, col: 17, offset: 21769},
 																																			exprs: []interface{}{
@@ -47480,7 +47492,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 686, col: 28, offset: 21780},
-																																								run: (*parser).callonSectionTitleElement242,
+																																								run: (*parser).callonSectionTitleElement243,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 686, col: 28, offset: 21780},
 																																									val:        "[A-Za-z]",
@@ -47491,7 +47503,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 688, col: 9, offset: 21834},
-																																								run: (*parser).callonSectionTitleElement244,
+																																								run: (*parser).callonSectionTitleElement245,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 688, col: 9, offset: 21834},
 																																									expr: &charClassMatcher{
@@ -47528,7 +47540,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 413, col: 16, offset: 12629},
-																							run: (*parser).callonSectionTitleElement248,
+																							run: (*parser).callonSectionTitleElement249,
 																							expr: &litMatcher{
 																								pos:        position{line: 413, col: 16, offset: 12629},
 																								val:        "{",
@@ -47555,10 +47567,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2398, col: 26, offset: 77639},
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 10, offset: 93593},
-														run: (*parser).callonSectionTitleElement252,
+														pos: position{line: 2958, col: 10, offset: 93664},
+														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2955, col: 10, offset: 93593},
+															pos:        position{line: 2958, col: 10, offset: 93664},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47569,28 +47581,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2398, col: 33, offset: 77646},
 													expr: &choiceExpr{
-														pos: position{line: 2977, col: 8, offset: 93991},
+														pos: position{line: 2980, col: 8, offset: 94062},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2964, col: 12, offset: 93764},
-																run: (*parser).callonSectionTitleElement256,
+																pos: position{line: 2967, col: 12, offset: 93835},
+																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2964, col: 13, offset: 93765},
+																	pos: position{line: 2967, col: 13, offset: 93836},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 13, offset: 93765},
+																			pos:        position{line: 2967, col: 13, offset: 93836},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 20, offset: 93772},
+																			pos:        position{line: 2967, col: 20, offset: 93843},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2964, col: 29, offset: 93781},
+																			pos:        position{line: 2967, col: 29, offset: 93852},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47599,9 +47611,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2974, col: 8, offset: 93941},
+																pos: position{line: 2977, col: 8, offset: 94012},
 																expr: &anyMatcher{
-																	line: 2974, col: 9, offset: 93942,
+																	line: 2977, col: 9, offset: 94013,
 																},
 															},
 														},
@@ -47612,7 +47624,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1286, col: 5, offset: 39707},
-										run: (*parser).callonSectionTitleElement263,
+										run: (*parser).callonSectionTitleElement264,
 										expr: &seqExpr{
 											pos: position{line: 1286, col: 5, offset: 39707},
 											exprs: []interface{}{
@@ -47626,12 +47638,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93245},
-														run: (*parser).callonSectionTitleElement267,
+														pos: position{line: 2943, col: 7, offset: 93316},
+														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93245},
+															pos: position{line: 2943, col: 7, offset: 93316},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93245},
+																pos:        position{line: 2943, col: 7, offset: 93316},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47651,7 +47663,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1291, col: 5, offset: 39837},
-										run: (*parser).callonSectionTitleElement271,
+										run: (*parser).callonSectionTitleElement272,
 										expr: &seqExpr{
 											pos: position{line: 1291, col: 5, offset: 39837},
 											exprs: []interface{}{
@@ -47665,12 +47677,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93245},
-														run: (*parser).callonSectionTitleElement275,
+														pos: position{line: 2943, col: 7, offset: 93316},
+														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93245},
+															pos: position{line: 2943, col: 7, offset: 93316},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93245},
+																pos:        position{line: 2943, col: 7, offset: 93316},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47693,10 +47705,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91062},
-										run: (*parser).callonSectionTitleElement280,
+										pos: position{line: 2870, col: 12, offset: 91133},
+										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91062},
+											pos:        position{line: 2870, col: 12, offset: 91133},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47731,9 +47743,9 @@ var g = &grammar{
 										pos: position{line: 2411, col: 9, offset: 78030},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93927},
+												pos: position{line: 2975, col: 11, offset: 93998},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93929,
+													line: 2975, col: 13, offset: 94000,
 												},
 											},
 											&labeledExpr{
@@ -47743,30 +47755,30 @@ var g = &grammar{
 													pos: position{line: 2413, col: 13, offset: 78067},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2818, col: 5, offset: 89688},
+															pos: position{line: 2821, col: 5, offset: 89759},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2818, col: 5, offset: 89688},
+																pos: position{line: 2821, col: 5, offset: 89759},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2818, col: 5, offset: 89688},
+																		pos: position{line: 2821, col: 5, offset: 89759},
 																		expr: &seqExpr{
-																			pos: position{line: 2819, col: 9, offset: 89699},
+																			pos: position{line: 2822, col: 9, offset: 89770},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2819, col: 9, offset: 89699},
+																					pos: position{line: 2822, col: 9, offset: 89770},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2822, col: 9, offset: 89762},
+																					pos:   position{line: 2825, col: 9, offset: 89833},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2794, col: 18, offset: 89074},
+																						pos: position{line: 2797, col: 18, offset: 89145},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2794, col: 19, offset: 89075},
+																							pos: position{line: 2797, col: 19, offset: 89146},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2794, col: 19, offset: 89075},
+																								pos:        position{line: 2797, col: 19, offset: 89146},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47777,28 +47789,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2822, col: 30, offset: 89783},
+																					pos:        position{line: 2825, col: 30, offset: 89854},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2823, col: 9, offset: 89870},
+																					pos: position{line: 2826, col: 9, offset: 89941},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2827, col: 5, offset: 89982},
+																		pos:   position{line: 2830, col: 5, offset: 90053},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 11, offset: 89988},
+																			pos: position{line: 2830, col: 11, offset: 90059},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 11, offset: 89988},
+																				pos: position{line: 2830, col: 11, offset: 90059},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 11, offset: 89988},
+																					pos:        position{line: 2830, col: 11, offset: 90059},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47808,32 +47820,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2830, col: 5, offset: 90046},
+																		pos: position{line: 2833, col: 5, offset: 90117},
 																		expr: &seqExpr{
-																			pos: position{line: 2831, col: 9, offset: 90057},
+																			pos: position{line: 2834, col: 9, offset: 90128},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2831, col: 9, offset: 90057},
+																					pos:        position{line: 2834, col: 9, offset: 90128},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2832, col: 9, offset: 90106},
+																					pos: position{line: 2835, col: 9, offset: 90177},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90186},
+																		pos: position{line: 2839, col: 5, offset: 90257},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90197},
+																			pos: position{line: 2840, col: 9, offset: 90268},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2837, col: 9, offset: 90197},
+																					pos: position{line: 2840, col: 9, offset: 90268},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2837, col: 9, offset: 90197},
+																						pos:        position{line: 2840, col: 9, offset: 90268},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47842,13 +47854,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2837, col: 23, offset: 90211},
+																					pos:        position{line: 2840, col: 23, offset: 90282},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2837, col: 27, offset: 90215},
+																					pos:        position{line: 2840, col: 27, offset: 90286},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47861,12 +47873,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2959, col: 11, offset: 93654},
+															pos: position{line: 2962, col: 11, offset: 93725},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2959, col: 11, offset: 93654},
+																pos: position{line: 2962, col: 11, offset: 93725},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 11, offset: 93654},
+																	pos:        position{line: 2962, col: 11, offset: 93725},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47884,16 +47896,20 @@ var g = &grammar{
 															expr: &seqExpr{
 																pos: position{line: 2543, col: 5, offset: 82024},
 																exprs: []interface{}{
+																	&andCodeExpr{
+																		pos: position{line: 2543, col: 5, offset: 82024},
+																		run: (*parser).callonNormalGroup42,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2543, col: 5, offset: 82024},
+																		pos:        position{line: 2546, col: 5, offset: 82095},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2543, col: 10, offset: 82029},
+																		pos: position{line: 2546, col: 10, offset: 82100},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2543, col: 11, offset: 82030},
+																			pos:        position{line: 2546, col: 11, offset: 82101},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47904,29 +47920,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2549, col: 5, offset: 82216},
-															run: (*parser).callonNormalGroup45,
+															pos: position{line: 2552, col: 5, offset: 82287},
+															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2549, col: 5, offset: 82216},
+																pos: position{line: 2552, col: 5, offset: 82287},
 																exprs: []interface{}{
-																	&andCodeExpr{
-																		pos: position{line: 2549, col: 5, offset: 82216},
-																		run: (*parser).callonNormalGroup47,
-																	},
 																	&andCodeExpr{
 																		pos: position{line: 2552, col: 5, offset: 82287},
 																		run: (*parser).callonNormalGroup48,
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 2555, col: 5, offset: 82358},
+																		run: (*parser).callonNormalGroup49,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2556, col: 5, offset: 82412},
+																		pos:        position{line: 2559, col: 5, offset: 82483},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2556, col: 9, offset: 82416},
+																		pos: position{line: 2559, col: 9, offset: 82487},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2556, col: 10, offset: 82417},
+																			pos:        position{line: 2559, col: 10, offset: 82488},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47937,27 +47953,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2845, col: 5, offset: 90408},
-															run: (*parser).callonNormalGroup52,
+															pos: position{line: 2848, col: 5, offset: 90479},
+															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2846, col: 9, offset: 90418},
+																pos: position{line: 2849, col: 9, offset: 90489},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2846, col: 10, offset: 90419},
+																		pos:        position{line: 2849, col: 10, offset: 90490},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2848, col: 13, offset: 90516},
+																		pos: position{line: 2851, col: 13, offset: 90587},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2848, col: 13, offset: 90516},
-																				run: (*parser).callonNormalGroup56,
+																				pos: position{line: 2851, col: 13, offset: 90587},
+																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2851, col: 13, offset: 90616},
+																				pos:        position{line: 2854, col: 13, offset: 90687},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47965,20 +47981,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2851, col: 19, offset: 90622},
+																		pos:        position{line: 2854, col: 19, offset: 90693},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2854, col: 13, offset: 90660},
+																		pos: position{line: 2857, col: 13, offset: 90731},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2854, col: 13, offset: 90660},
-																				run: (*parser).callonNormalGroup60,
+																				pos: position{line: 2857, col: 13, offset: 90731},
+																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2857, col: 14, offset: 90753},
+																				pos:        position{line: 2860, col: 14, offset: 90824},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -47987,18 +48003,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2859, col: 12, offset: 90797},
+																		pos: position{line: 2862, col: 12, offset: 90868},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2859, col: 12, offset: 90797},
+																				pos:        position{line: 2862, col: 12, offset: 90868},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2859, col: 16, offset: 90801},
+																				pos: position{line: 2862, col: 16, offset: 90872},
 																				expr: &litMatcher{
-																					pos:        position{line: 2859, col: 17, offset: 90802},
+																					pos:        position{line: 2862, col: 17, offset: 90873},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48010,25 +48026,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2964, col: 12, offset: 93764},
-															run: (*parser).callonNormalGroup66,
+															pos: position{line: 2967, col: 12, offset: 93835},
+															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2964, col: 13, offset: 93765},
+																pos: position{line: 2967, col: 13, offset: 93836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 13, offset: 93765},
+																		pos:        position{line: 2967, col: 13, offset: 93836},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 20, offset: 93772},
+																		pos:        position{line: 2967, col: 20, offset: 93843},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2964, col: 29, offset: 93781},
+																		pos:        position{line: 2967, col: 29, offset: 93852},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48038,13 +48054,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 656, col: 5, offset: 20755},
-															run: (*parser).callonNormalGroup71,
+															run: (*parser).callonNormalGroup72,
 															expr: &seqExpr{
 																pos: position{line: 656, col: 5, offset: 20755},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 656, col: 5, offset: 20755},
-																		run: (*parser).callonNormalGroup73,
+																		run: (*parser).callonNormalGroup74,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 659, col: 5, offset: 20827},
@@ -48054,7 +48070,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 665, col: 5, offset: 20965},
-																					run: (*parser).callonNormalGroup76,
+																					run: (*parser).callonNormalGroup77,
 																					expr: &seqExpr{
 																						pos: position{line: 665, col: 5, offset: 20965},
 																						exprs: []interface{}{
@@ -48069,7 +48085,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup80,
+																									run: (*parser).callonNormalGroup81,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48107,7 +48123,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 672, col: 5, offset: 21233},
-																					run: (*parser).callonNormalGroup86,
+																					run: (*parser).callonNormalGroup87,
 																					expr: &seqExpr{
 																						pos: position{line: 672, col: 5, offset: 21233},
 																						exprs: []interface{}{
@@ -48122,7 +48138,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup90,
+																									run: (*parser).callonNormalGroup91,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48160,7 +48176,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 678, col: 25, offset: 21437},
-																					run: (*parser).callonNormalGroup96,
+																					run: (*parser).callonNormalGroup97,
 																					expr: &seqExpr{
 																						pos: position{line: 678, col: 25, offset: 21437},
 																						exprs: []interface{}{
@@ -48175,7 +48191,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup100,
+																									run: (*parser).callonNormalGroup101,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48209,7 +48225,7 @@ var g = &grammar{
 																									pos: position{line: 678, col: 62, offset: 21474},
 																									expr: &actionExpr{
 																										pos: position{line: 686, col: 17, offset: 21769},
-																										run: (*parser).callonNormalGroup107,
+																										run: (*parser).callonNormalGroup108,
 																										expr: &seqExpr{
 																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
@@ -48227,7 +48243,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 686, col: 28, offset: 21780},
-																																run: (*parser).callonNormalGroup112,
+																																run: (*parser).callonNormalGroup113,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
@@ -48238,7 +48254,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 688, col: 9, offset: 21834},
-																																run: (*parser).callonNormalGroup114,
+																																run: (*parser).callonNormalGroup115,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
@@ -48269,7 +48285,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 682, col: 25, offset: 21608},
-																					run: (*parser).callonNormalGroup118,
+																					run: (*parser).callonNormalGroup119,
 																					expr: &seqExpr{
 																						pos: position{line: 682, col: 25, offset: 21608},
 																						exprs: []interface{}{
@@ -48284,7 +48300,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 319, col: 18, offset: 9747},
-																									run: (*parser).callonNormalGroup122,
+																									run: (*parser).callonNormalGroup123,
 																									expr: &seqExpr{
 																										pos: position{line: 319, col: 18, offset: 9747},
 																										exprs: []interface{}{
@@ -48318,7 +48334,7 @@ var g = &grammar{
 																									pos: position{line: 682, col: 63, offset: 21646},
 																									expr: &actionExpr{
 																										pos: position{line: 686, col: 17, offset: 21769},
-																										run: (*parser).callonNormalGroup129,
+																										run: (*parser).callonNormalGroup130,
 																										expr: &seqExpr{
 																											pos: position{line: 686, col: 17, offset: 21769},
 																											exprs: []interface{}{
@@ -48336,7 +48352,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 686, col: 28, offset: 21780},
-																																run: (*parser).callonNormalGroup134,
+																																run: (*parser).callonNormalGroup135,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 686, col: 28, offset: 21780},
 																																	val:        "[A-Za-z]",
@@ -48347,7 +48363,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 688, col: 9, offset: 21834},
-																																run: (*parser).callonNormalGroup136,
+																																run: (*parser).callonNormalGroup137,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 688, col: 9, offset: 21834},
 																																	expr: &charClassMatcher{
@@ -48396,20 +48412,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2512, col: 5, offset: 80853},
-															run: (*parser).callonNormalGroup143,
+															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
 																pos: position{line: 2512, col: 5, offset: 80853},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2512, col: 5, offset: 80853},
-																		run: (*parser).callonNormalGroup145,
+																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2515, col: 5, offset: 80929},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2516, col: 9, offset: 80947},
-																			run: (*parser).callonNormalGroup147,
+																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2516, col: 10, offset: 80948},
 																				val:        "[<>&]",
@@ -48424,13 +48440,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1234, col: 5, offset: 38289},
-															run: (*parser).callonNormalGroup149,
+															run: (*parser).callonNormalGroup150,
 															expr: &seqExpr{
 																pos: position{line: 1234, col: 5, offset: 38289},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1234, col: 5, offset: 38289},
-																		run: (*parser).callonNormalGroup151,
+																		run: (*parser).callonNormalGroup152,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1237, col: 5, offset: 38365},
@@ -48440,15 +48456,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1238, col: 5, offset: 38373},
-																		run: (*parser).callonNormalGroup153,
+																		run: (*parser).callonNormalGroup154,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
-																			run: (*parser).callonNormalGroup155,
+																			pos: position{line: 2958, col: 10, offset: 93664},
+																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48459,28 +48475,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2977, col: 8, offset: 93991},
+																			pos: position{line: 2980, col: 8, offset: 94062},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
-																					run: (*parser).callonNormalGroup159,
+																					pos: position{line: 2967, col: 12, offset: 93835},
+																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48489,9 +48505,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2974, col: 8, offset: 93941},
+																					pos: position{line: 2977, col: 8, offset: 94012},
 																					expr: &anyMatcher{
-																						line: 2974, col: 9, offset: 93942,
+																						line: 2977, col: 9, offset: 94013,
 																					},
 																				},
 																			},
@@ -48506,7 +48522,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1226, col: 23, offset: 37843},
-															run: (*parser).callonNormalGroup167,
+															run: (*parser).callonNormalGroup168,
 															expr: &seqExpr{
 																pos: position{line: 1226, col: 23, offset: 37843},
 																exprs: []interface{}{
@@ -48521,7 +48537,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1226, col: 56, offset: 37876},
-																			run: (*parser).callonNormalGroup171,
+																			run: (*parser).callonNormalGroup172,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1226, col: 56, offset: 37876},
 																				expr: &charClassMatcher{
@@ -48544,10 +48560,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2867, col: 12, offset: 91062},
-															run: (*parser).callonNormalGroup175,
+															pos: position{line: 2870, col: 12, offset: 91133},
+															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2867, col: 12, offset: 91062},
+																pos:        position{line: 2870, col: 12, offset: 91133},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48563,9 +48579,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -48593,9 +48609,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -48612,9 +48628,9 @@ var g = &grammar{
 					pos: position{line: 2442, col: 5, offset: 79189},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2972, col: 11, offset: 93927},
+							pos: position{line: 2975, col: 11, offset: 93998},
 							expr: &anyMatcher{
-								line: 2972, col: 13, offset: 93929,
+								line: 2975, col: 13, offset: 94000,
 							},
 						},
 						&labeledExpr{
@@ -48624,30 +48640,30 @@ var g = &grammar{
 								pos: position{line: 2444, col: 9, offset: 79218},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2818, col: 5, offset: 89688},
+										pos: position{line: 2821, col: 5, offset: 89759},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 5, offset: 89688},
+											pos: position{line: 2821, col: 5, offset: 89759},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2818, col: 5, offset: 89688},
+													pos: position{line: 2821, col: 5, offset: 89759},
 													expr: &seqExpr{
-														pos: position{line: 2819, col: 9, offset: 89699},
+														pos: position{line: 2822, col: 9, offset: 89770},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2819, col: 9, offset: 89699},
+																pos: position{line: 2822, col: 9, offset: 89770},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2822, col: 9, offset: 89762},
+																pos:   position{line: 2825, col: 9, offset: 89833},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2794, col: 18, offset: 89074},
+																	pos: position{line: 2797, col: 18, offset: 89145},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2794, col: 19, offset: 89075},
+																		pos: position{line: 2797, col: 19, offset: 89146},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2794, col: 19, offset: 89075},
+																			pos:        position{line: 2797, col: 19, offset: 89146},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48658,28 +48674,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2822, col: 30, offset: 89783},
+																pos:        position{line: 2825, col: 30, offset: 89854},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89870},
+																pos: position{line: 2826, col: 9, offset: 89941},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 5, offset: 89982},
+													pos:   position{line: 2830, col: 5, offset: 90053},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 11, offset: 89988},
+														pos: position{line: 2830, col: 11, offset: 90059},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 11, offset: 89988},
+															pos: position{line: 2830, col: 11, offset: 90059},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 11, offset: 89988},
+																pos:        position{line: 2830, col: 11, offset: 90059},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48689,32 +48705,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2830, col: 5, offset: 90046},
+													pos: position{line: 2833, col: 5, offset: 90117},
 													expr: &seqExpr{
-														pos: position{line: 2831, col: 9, offset: 90057},
+														pos: position{line: 2834, col: 9, offset: 90128},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 9, offset: 90057},
+																pos:        position{line: 2834, col: 9, offset: 90128},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2832, col: 9, offset: 90106},
+																pos: position{line: 2835, col: 9, offset: 90177},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90186},
+													pos: position{line: 2839, col: 5, offset: 90257},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90197},
+														pos: position{line: 2840, col: 9, offset: 90268},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2837, col: 9, offset: 90197},
+																pos: position{line: 2840, col: 9, offset: 90268},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2837, col: 9, offset: 90197},
+																	pos:        position{line: 2840, col: 9, offset: 90268},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48723,13 +48739,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2837, col: 23, offset: 90211},
+																pos:        position{line: 2840, col: 23, offset: 90282},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2837, col: 27, offset: 90215},
+																pos:        position{line: 2840, col: 27, offset: 90286},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48742,10 +48758,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2955, col: 10, offset: 93593},
+										pos: position{line: 2958, col: 10, offset: 93664},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2955, col: 10, offset: 93593},
+											pos:        position{line: 2958, col: 10, offset: 93664},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48757,27 +48773,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2845, col: 5, offset: 90408},
+										pos: position{line: 2848, col: 5, offset: 90479},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &choiceExpr{
-											pos: position{line: 2846, col: 9, offset: 90418},
+											pos: position{line: 2849, col: 9, offset: 90489},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2846, col: 10, offset: 90419},
+													pos:        position{line: 2849, col: 10, offset: 90490},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2848, col: 13, offset: 90516},
+													pos: position{line: 2851, col: 13, offset: 90587},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2848, col: 13, offset: 90516},
+															pos: position{line: 2851, col: 13, offset: 90587},
 															run: (*parser).callonAttributeStructuredValueElement39,
 														},
 														&litMatcher{
-															pos:        position{line: 2851, col: 13, offset: 90616},
+															pos:        position{line: 2854, col: 13, offset: 90687},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48785,20 +48801,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2851, col: 19, offset: 90622},
+													pos:        position{line: 2854, col: 19, offset: 90693},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90660},
+													pos: position{line: 2857, col: 13, offset: 90731},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2854, col: 13, offset: 90660},
+															pos: position{line: 2857, col: 13, offset: 90731},
 															run: (*parser).callonAttributeStructuredValueElement43,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2857, col: 14, offset: 90753},
+															pos:        position{line: 2860, col: 14, offset: 90824},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48807,18 +48823,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2859, col: 12, offset: 90797},
+													pos: position{line: 2862, col: 12, offset: 90868},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2859, col: 12, offset: 90797},
+															pos:        position{line: 2862, col: 12, offset: 90868},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2859, col: 16, offset: 90801},
+															pos: position{line: 2862, col: 16, offset: 90872},
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 17, offset: 90802},
+																pos:        position{line: 2862, col: 17, offset: 90873},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48905,25 +48921,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2964, col: 12, offset: 93764},
+										pos: position{line: 2967, col: 12, offset: 93835},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &choiceExpr{
-											pos: position{line: 2964, col: 13, offset: 93765},
+											pos: position{line: 2967, col: 13, offset: 93836},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2964, col: 13, offset: 93765},
+													pos:        position{line: 2967, col: 13, offset: 93836},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 20, offset: 93772},
+													pos:        position{line: 2967, col: 20, offset: 93843},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2964, col: 29, offset: 93781},
+													pos:        position{line: 2967, col: 29, offset: 93852},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48932,10 +48948,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 12, offset: 91062},
+										pos: position{line: 2870, col: 12, offset: 91133},
 										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &charClassMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91062},
+											pos:        position{line: 2870, col: 12, offset: 91133},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49012,12 +49028,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93245},
+														pos: position{line: 2943, col: 7, offset: 93316},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93245},
+															pos: position{line: 2943, col: 7, offset: 93316},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93245},
+																pos:        position{line: 2943, col: 7, offset: 93316},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49051,12 +49067,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2940, col: 7, offset: 93245},
+														pos: position{line: 2943, col: 7, offset: 93316},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2940, col: 7, offset: 93245},
+															pos: position{line: 2943, col: 7, offset: 93316},
 															expr: &charClassMatcher{
-																pos:        position{line: 2940, col: 7, offset: 93245},
+																pos:        position{line: 2943, col: 7, offset: 93316},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49098,17 +49114,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2809, col: 13, offset: 89541},
+																		pos:        position{line: 2812, col: 13, offset: 89612},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2955, col: 10, offset: 93593},
+																		pos: position{line: 2958, col: 10, offset: 93664},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2955, col: 10, offset: 93593},
+																			pos:        position{line: 2958, col: 10, offset: 93664},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49134,10 +49150,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49154,10 +49170,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49177,17 +49193,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2809, col: 13, offset: 89541},
+																							pos:        position{line: 2812, col: 13, offset: 89612},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49218,10 +49234,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49238,10 +49254,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2955, col: 10, offset: 93593},
+																			pos: position{line: 2958, col: 10, offset: 93664},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 10, offset: 93593},
+																				pos:        position{line: 2958, col: 10, offset: 93664},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49261,17 +49277,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2809, col: 13, offset: 89541},
+																							pos:        position{line: 2812, col: 13, offset: 89612},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2955, col: 10, offset: 93593},
+																							pos: position{line: 2958, col: 10, offset: 93664},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 10, offset: 93593},
+																								pos:        position{line: 2958, col: 10, offset: 93664},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49388,10 +49404,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2955, col: 10, offset: 93593},
+																					pos: position{line: 2958, col: 10, offset: 93664},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 10, offset: 93593},
+																						pos:        position{line: 2958, col: 10, offset: 93664},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49402,25 +49418,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2964, col: 12, offset: 93764},
+																					pos: position{line: 2967, col: 12, offset: 93835},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2964, col: 13, offset: 93765},
+																						pos: position{line: 2967, col: 13, offset: 93836},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 13, offset: 93765},
+																								pos:        position{line: 2967, col: 13, offset: 93836},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 20, offset: 93772},
+																								pos:        position{line: 2967, col: 20, offset: 93843},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2964, col: 29, offset: 93781},
+																								pos:        position{line: 2967, col: 29, offset: 93852},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49457,7 +49473,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89541},
+														pos:        position{line: 2812, col: 13, offset: 89612},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49503,10 +49519,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49517,25 +49533,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49558,12 +49574,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2959, col: 11, offset: 93654},
+																									pos: position{line: 2962, col: 11, offset: 93725},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2959, col: 11, offset: 93654},
+																										pos: position{line: 2962, col: 11, offset: 93725},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 11, offset: 93654},
+																											pos:        position{line: 2962, col: 11, offset: 93725},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49592,25 +49608,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2964, col: 12, offset: 93764},
+																							pos: position{line: 2967, col: 12, offset: 93835},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2964, col: 13, offset: 93765},
+																								pos: position{line: 2967, col: 13, offset: 93836},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 13, offset: 93765},
+																										pos:        position{line: 2967, col: 13, offset: 93836},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 20, offset: 93772},
+																										pos:        position{line: 2967, col: 20, offset: 93843},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2964, col: 29, offset: 93781},
+																										pos:        position{line: 2967, col: 29, offset: 93852},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49637,10 +49653,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 10, offset: 93593},
+																				pos: position{line: 2958, col: 10, offset: 93664},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2955, col: 10, offset: 93593},
+																					pos:        position{line: 2958, col: 10, offset: 93664},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49651,25 +49667,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2964, col: 12, offset: 93764},
+																				pos: position{line: 2967, col: 12, offset: 93835},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2964, col: 13, offset: 93765},
+																					pos: position{line: 2967, col: 13, offset: 93836},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 13, offset: 93765},
+																							pos:        position{line: 2967, col: 13, offset: 93836},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 20, offset: 93772},
+																							pos:        position{line: 2967, col: 20, offset: 93843},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2964, col: 29, offset: 93781},
+																							pos:        position{line: 2967, col: 29, offset: 93852},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49705,7 +49721,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2809, col: 13, offset: 89541},
+														pos:        position{line: 2812, col: 13, offset: 89612},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49770,103 +49786,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2560, col: 1, offset: 82469},
+			pos:  position{line: 2563, col: 1, offset: 82540},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82499},
+				pos: position{line: 2565, col: 5, offset: 82570},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82499},
+						pos: position{line: 2565, col: 5, offset: 82570},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82499},
+							pos: position{line: 2565, col: 5, offset: 82570},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82499},
+									pos:        position{line: 2565, col: 5, offset: 82570},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 10, offset: 82504},
+									pos: position{line: 2565, col: 10, offset: 82575},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2562, col: 10, offset: 82504},
+											pos:  position{line: 2565, col: 10, offset: 82575},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 14, offset: 83602},
+											pos: position{line: 2594, col: 14, offset: 83673},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2591, col: 14, offset: 83602},
+												pos:        position{line: 2594, col: 14, offset: 83673},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83668},
+											pos: position{line: 2598, col: 14, offset: 83739},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83668},
+												pos:        position{line: 2598, col: 14, offset: 83739},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 15, offset: 83737},
+											pos: position{line: 2602, col: 15, offset: 83808},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 15, offset: 83737},
+												pos:        position{line: 2602, col: 15, offset: 83808},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 13, offset: 83802},
+											pos: position{line: 2606, col: 13, offset: 83873},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 13, offset: 83802},
+												pos:        position{line: 2606, col: 13, offset: 83873},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2631, col: 21, offset: 84372},
+											pos: position{line: 2634, col: 21, offset: 84443},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2631, col: 21, offset: 84372},
+												pos:        position{line: 2634, col: 21, offset: 84443},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 5, offset: 83958},
+											pos: position{line: 2613, col: 5, offset: 84029},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2610, col: 5, offset: 83958},
+												pos: position{line: 2613, col: 5, offset: 84029},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 5, offset: 83958},
+														pos:        position{line: 2613, col: 5, offset: 84029},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2611, col: 5, offset: 83968},
+														pos: position{line: 2614, col: 5, offset: 84039},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2615, col: 6, offset: 84055},
+														pos: position{line: 2618, col: 6, offset: 84126},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2955, col: 10, offset: 93593},
+																pos: position{line: 2958, col: 10, offset: 93664},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2955, col: 10, offset: 93593},
+																	pos:        position{line: 2958, col: 10, offset: 93664},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49874,30 +49890,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2615, col: 14, offset: 84063},
+																pos: position{line: 2618, col: 14, offset: 84134},
 																expr: &choiceExpr{
-																	pos: position{line: 2977, col: 8, offset: 93991},
+																	pos: position{line: 2980, col: 8, offset: 94062},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2964, col: 12, offset: 93764},
+																			pos: position{line: 2967, col: 12, offset: 93835},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2964, col: 13, offset: 93765},
+																				pos: position{line: 2967, col: 13, offset: 93836},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 13, offset: 93765},
+																						pos:        position{line: 2967, col: 13, offset: 93836},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 20, offset: 93772},
+																						pos:        position{line: 2967, col: 20, offset: 93843},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2964, col: 29, offset: 93781},
+																						pos:        position{line: 2967, col: 29, offset: 93852},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49906,9 +49922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2974, col: 8, offset: 93941},
+																			pos: position{line: 2977, col: 8, offset: 94012},
 																			expr: &anyMatcher{
-																				line: 2974, col: 9, offset: 93942,
+																				line: 2977, col: 9, offset: 94013,
 																			},
 																		},
 																	},
@@ -49920,53 +49936,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2620, col: 5, offset: 84183},
+											pos: position{line: 2623, col: 5, offset: 84254},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2620, col: 5, offset: 84183},
+												pos: position{line: 2623, col: 5, offset: 84254},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 5, offset: 84183},
+														pos:        position{line: 2623, col: 5, offset: 84254},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2621, col: 5, offset: 84193},
+														pos: position{line: 2624, col: 5, offset: 84264},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2625, col: 5, offset: 84282},
+														pos: position{line: 2628, col: 5, offset: 84353},
 														expr: &choiceExpr{
-															pos: position{line: 2625, col: 7, offset: 84284},
+															pos: position{line: 2628, col: 7, offset: 84355},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2809, col: 13, offset: 89541},
+																	pos:        position{line: 2812, col: 13, offset: 89612},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2964, col: 12, offset: 93764},
+																	pos: position{line: 2967, col: 12, offset: 93835},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2964, col: 13, offset: 93765},
+																		pos: position{line: 2967, col: 13, offset: 93836},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 13, offset: 93765},
+																				pos:        position{line: 2967, col: 13, offset: 93836},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 20, offset: 93772},
+																				pos:        position{line: 2967, col: 20, offset: 93843},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2964, col: 29, offset: 93781},
+																				pos:        position{line: 2967, col: 29, offset: 93852},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49975,9 +49991,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -49987,30 +50003,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 20, offset: 84442},
+											pos: position{line: 2638, col: 20, offset: 84513},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 20, offset: 84442},
+												pos:        position{line: 2638, col: 20, offset: 84513},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84513},
+											pos: position{line: 2642, col: 21, offset: 84584},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84513},
+												pos:        position{line: 2642, col: 21, offset: 84584},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84583},
+											pos: position{line: 2646, col: 20, offset: 84654},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84583},
+												pos:        position{line: 2646, col: 20, offset: 84654},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50022,73 +50038,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2566, col: 7, offset: 82753},
+						pos:  position{line: 2569, col: 7, offset: 82824},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 14, offset: 83602},
+						pos: position{line: 2594, col: 14, offset: 83673},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 14, offset: 83602},
+							pos:        position{line: 2594, col: 14, offset: 83673},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83668},
+						pos: position{line: 2598, col: 14, offset: 83739},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83668},
+							pos:        position{line: 2598, col: 14, offset: 83739},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 15, offset: 83737},
+						pos: position{line: 2602, col: 15, offset: 83808},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 15, offset: 83737},
+							pos:        position{line: 2602, col: 15, offset: 83808},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 13, offset: 83802},
+						pos: position{line: 2606, col: 13, offset: 83873},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 13, offset: 83802},
+							pos:        position{line: 2606, col: 13, offset: 83873},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 5, offset: 83958},
+						pos: position{line: 2613, col: 5, offset: 84029},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2610, col: 5, offset: 83958},
+							pos: position{line: 2613, col: 5, offset: 84029},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2610, col: 5, offset: 83958},
+									pos:        position{line: 2613, col: 5, offset: 84029},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2611, col: 5, offset: 83968},
+									pos: position{line: 2614, col: 5, offset: 84039},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2615, col: 6, offset: 84055},
+									pos: position{line: 2618, col: 6, offset: 84126},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2955, col: 10, offset: 93593},
+											pos: position{line: 2958, col: 10, offset: 93664},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2955, col: 10, offset: 93593},
+												pos:        position{line: 2958, col: 10, offset: 93664},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50096,30 +50112,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2615, col: 14, offset: 84063},
+											pos: position{line: 2618, col: 14, offset: 84134},
 											expr: &choiceExpr{
-												pos: position{line: 2977, col: 8, offset: 93991},
+												pos: position{line: 2980, col: 8, offset: 94062},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2964, col: 12, offset: 93764},
+														pos: position{line: 2967, col: 12, offset: 93835},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2964, col: 13, offset: 93765},
+															pos: position{line: 2967, col: 13, offset: 93836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2964, col: 13, offset: 93765},
+																	pos:        position{line: 2967, col: 13, offset: 93836},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 20, offset: 93772},
+																	pos:        position{line: 2967, col: 20, offset: 93843},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2964, col: 29, offset: 93781},
+																	pos:        position{line: 2967, col: 29, offset: 93852},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50128,9 +50144,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2974, col: 8, offset: 93941},
+														pos: position{line: 2977, col: 8, offset: 94012},
 														expr: &anyMatcher{
-															line: 2974, col: 9, offset: 93942,
+															line: 2977, col: 9, offset: 94013,
 														},
 													},
 												},
@@ -50142,53 +50158,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 5, offset: 84183},
+						pos: position{line: 2623, col: 5, offset: 84254},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2620, col: 5, offset: 84183},
+							pos: position{line: 2623, col: 5, offset: 84254},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2620, col: 5, offset: 84183},
+									pos:        position{line: 2623, col: 5, offset: 84254},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2621, col: 5, offset: 84193},
+									pos: position{line: 2624, col: 5, offset: 84264},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2625, col: 5, offset: 84282},
+									pos: position{line: 2628, col: 5, offset: 84353},
 									expr: &choiceExpr{
-										pos: position{line: 2625, col: 7, offset: 84284},
+										pos: position{line: 2628, col: 7, offset: 84355},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2809, col: 13, offset: 89541},
+												pos:        position{line: 2812, col: 13, offset: 89612},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2964, col: 12, offset: 93764},
+												pos: position{line: 2967, col: 12, offset: 93835},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2964, col: 13, offset: 93765},
+													pos: position{line: 2967, col: 13, offset: 93836},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2964, col: 13, offset: 93765},
+															pos:        position{line: 2967, col: 13, offset: 93836},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 20, offset: 93772},
+															pos:        position{line: 2967, col: 20, offset: 93843},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2964, col: 29, offset: 93781},
+															pos:        position{line: 2967, col: 29, offset: 93852},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50197,9 +50213,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2974, col: 8, offset: 93941},
+												pos: position{line: 2977, col: 8, offset: 94012},
 												expr: &anyMatcher{
-													line: 2974, col: 9, offset: 93942,
+													line: 2977, col: 9, offset: 94013,
 												},
 											},
 										},
@@ -50209,40 +50225,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2631, col: 21, offset: 84372},
+						pos: position{line: 2634, col: 21, offset: 84443},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2631, col: 21, offset: 84372},
+							pos:        position{line: 2634, col: 21, offset: 84443},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 20, offset: 84442},
+						pos: position{line: 2638, col: 20, offset: 84513},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 20, offset: 84442},
+							pos:        position{line: 2638, col: 20, offset: 84513},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84513},
+						pos: position{line: 2642, col: 21, offset: 84584},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84513},
+							pos:        position{line: 2642, col: 21, offset: 84584},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84583},
+						pos: position{line: 2646, col: 20, offset: 84654},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84583},
+							pos:        position{line: 2646, col: 20, offset: 84654},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50253,24 +50269,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2577, col: 1, offset: 82943},
+			pos:  position{line: 2580, col: 1, offset: 83014},
 			expr: &choiceExpr{
-				pos: position{line: 2578, col: 5, offset: 82965},
+				pos: position{line: 2581, col: 5, offset: 83036},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82965},
+						pos: position{line: 2581, col: 5, offset: 83036},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82965},
+							pos: position{line: 2581, col: 5, offset: 83036},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82965},
+									pos:        position{line: 2581, col: 5, offset: 83036},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2578, col: 11, offset: 82971},
+									pos: position{line: 2581, col: 11, offset: 83042},
 									expr: &seqExpr{
 										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
@@ -50303,21 +50319,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 7, offset: 83124},
+						pos: position{line: 2584, col: 7, offset: 83195},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 7, offset: 83124},
+							pos: position{line: 2584, col: 7, offset: 83195},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 7, offset: 83124},
+									pos:        position{line: 2584, col: 7, offset: 83195},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 13, offset: 83130},
+									pos: position{line: 2584, col: 13, offset: 83201},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2581, col: 14, offset: 83131},
+										pos:  position{line: 2584, col: 14, offset: 83202},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50325,19 +50341,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83281},
+						pos: position{line: 2587, col: 7, offset: 83352},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83281},
+							pos: position{line: 2587, col: 7, offset: 83352},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83281},
+									pos:        position{line: 2587, col: 7, offset: 83352},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 12, offset: 83286},
+									pos: position{line: 2587, col: 12, offset: 83357},
 									expr: &seqExpr{
 										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
@@ -50370,21 +50386,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83439},
+						pos: position{line: 2590, col: 7, offset: 83510},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83439},
+							pos: position{line: 2590, col: 7, offset: 83510},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83439},
+									pos:        position{line: 2590, col: 7, offset: 83510},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83444},
+									pos: position{line: 2590, col: 12, offset: 83515},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2587, col: 13, offset: 83445},
+										pos:  position{line: 2590, col: 13, offset: 83516},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50396,63 +50412,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2720, col: 1, offset: 86485},
+			pos:  position{line: 2723, col: 1, offset: 86556},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 26, offset: 86510},
+				pos: position{line: 2723, col: 26, offset: 86581},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 26, offset: 86510},
+					pos: position{line: 2723, col: 26, offset: 86581},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 26, offset: 86510},
+							pos:   position{line: 2723, col: 26, offset: 86581},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2720, col: 31, offset: 86515},
+								pos: position{line: 2723, col: 31, offset: 86586},
 								expr: &actionExpr{
-									pos: position{line: 2725, col: 5, offset: 86578},
+									pos: position{line: 2728, col: 5, offset: 86649},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2725, col: 5, offset: 86578},
+										pos: position{line: 2728, col: 5, offset: 86649},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2972, col: 11, offset: 93927},
+												pos: position{line: 2975, col: 11, offset: 93998},
 												expr: &anyMatcher{
-													line: 2972, col: 13, offset: 93929,
+													line: 2975, col: 13, offset: 94000,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2728, col: 5, offset: 86704},
+												pos:   position{line: 2731, col: 5, offset: 86775},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2728, col: 16, offset: 86715},
+													pos: position{line: 2731, col: 16, offset: 86786},
 													expr: &actionExpr{
-														pos: position{line: 2728, col: 17, offset: 86716},
+														pos: position{line: 2731, col: 17, offset: 86787},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2728, col: 17, offset: 86716},
+															pos: position{line: 2731, col: 17, offset: 86787},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2728, col: 17, offset: 86716},
+																	pos:   position{line: 2731, col: 17, offset: 86787},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2947, col: 12, offset: 93420},
+																		pos: position{line: 2950, col: 12, offset: 93491},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2947, col: 13, offset: 93421},
+																			pos: position{line: 2950, col: 13, offset: 93492},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2947, col: 13, offset: 93421},
+																					pos: position{line: 2950, col: 13, offset: 93492},
 																					expr: &litMatcher{
-																						pos:        position{line: 2947, col: 13, offset: 93421},
+																						pos:        position{line: 2950, col: 13, offset: 93492},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2947, col: 18, offset: 93426},
+																					pos: position{line: 2950, col: 18, offset: 93497},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2947, col: 18, offset: 93426},
+																						pos:        position{line: 2950, col: 18, offset: 93497},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50464,7 +50480,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2728, col: 27, offset: 86726},
+																	pos:        position{line: 2731, col: 27, offset: 86797},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50475,38 +50491,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2729, col: 5, offset: 86754},
+												pos:   position{line: 2732, col: 5, offset: 86825},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2729, col: 12, offset: 86761},
+													pos: position{line: 2732, col: 12, offset: 86832},
 													expr: &choiceExpr{
-														pos: position{line: 2730, col: 9, offset: 86771},
+														pos: position{line: 2733, col: 9, offset: 86842},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2730, col: 9, offset: 86771},
+																pos: position{line: 2733, col: 9, offset: 86842},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2730, col: 9, offset: 86771},
+																	pos:        position{line: 2733, col: 9, offset: 86842},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2731, col: 11, offset: 86818},
+																pos: position{line: 2734, col: 11, offset: 86889},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2731, col: 11, offset: 86818},
+																	pos:        position{line: 2734, col: 11, offset: 86889},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2732, col: 11, offset: 86866},
+																pos: position{line: 2735, col: 11, offset: 86937},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2732, col: 11, offset: 86866},
+																	pos:        position{line: 2735, col: 11, offset: 86937},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50517,38 +50533,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2734, col: 5, offset: 86916},
+												pos:   position{line: 2737, col: 5, offset: 86987},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2734, col: 12, offset: 86923},
+													pos: position{line: 2737, col: 12, offset: 86994},
 													expr: &choiceExpr{
-														pos: position{line: 2735, col: 9, offset: 86933},
+														pos: position{line: 2738, col: 9, offset: 87004},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2735, col: 9, offset: 86933},
+																pos: position{line: 2738, col: 9, offset: 87004},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 9, offset: 86933},
+																	pos:        position{line: 2738, col: 9, offset: 87004},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 11, offset: 86980},
+																pos: position{line: 2739, col: 11, offset: 87051},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 11, offset: 86980},
+																	pos:        position{line: 2739, col: 11, offset: 87051},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2737, col: 11, offset: 87030},
+																pos: position{line: 2740, col: 11, offset: 87101},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2737, col: 11, offset: 87030},
+																	pos:        position{line: 2740, col: 11, offset: 87101},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50559,32 +50575,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2739, col: 5, offset: 87081},
+												pos:   position{line: 2742, col: 5, offset: 87152},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2739, col: 12, offset: 87088},
+													pos: position{line: 2742, col: 12, offset: 87159},
 													expr: &choiceExpr{
-														pos: position{line: 2739, col: 13, offset: 87089},
+														pos: position{line: 2742, col: 13, offset: 87160},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2947, col: 12, offset: 93420},
+																pos: position{line: 2950, col: 12, offset: 93491},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2947, col: 13, offset: 93421},
+																	pos: position{line: 2950, col: 13, offset: 93492},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2947, col: 13, offset: 93421},
+																			pos: position{line: 2950, col: 13, offset: 93492},
 																			expr: &litMatcher{
-																				pos:        position{line: 2947, col: 13, offset: 93421},
+																				pos:        position{line: 2950, col: 13, offset: 93492},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2947, col: 18, offset: 93426},
+																			pos: position{line: 2950, col: 18, offset: 93497},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2947, col: 18, offset: 93426},
+																				pos:        position{line: 2950, col: 18, offset: 93497},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50595,10 +50611,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 24, offset: 87100},
+																pos: position{line: 2742, col: 24, offset: 87171},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 24, offset: 87100},
+																	pos:        position{line: 2742, col: 24, offset: 87171},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50609,15 +50625,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2740, col: 5, offset: 87142},
+												pos:   position{line: 2743, col: 5, offset: 87213},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2740, col: 11, offset: 87148},
+													pos: position{line: 2743, col: 11, offset: 87219},
 													expr: &actionExpr{
-														pos: position{line: 2740, col: 12, offset: 87149},
+														pos: position{line: 2743, col: 12, offset: 87220},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2740, col: 12, offset: 87149},
+															pos:        position{line: 2743, col: 12, offset: 87220},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50627,12 +50643,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 87279},
+												pos:   position{line: 2745, col: 5, offset: 87350},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 11, offset: 87285},
+													pos: position{line: 2745, col: 11, offset: 87356},
 													expr: &litMatcher{
-														pos:        position{line: 2742, col: 12, offset: 87286},
+														pos:        position{line: 2745, col: 12, offset: 87357},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50640,7 +50656,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2743, col: 5, offset: 87296},
+												pos: position{line: 2746, col: 5, offset: 87367},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50649,9 +50665,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2974, col: 8, offset: 93941},
+							pos: position{line: 2977, col: 8, offset: 94012},
 							expr: &anyMatcher{
-								line: 2974, col: 9, offset: 93942,
+								line: 2977, col: 9, offset: 94013,
 							},
 						},
 					},
@@ -50660,23 +50676,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2770, col: 1, offset: 88305},
+			pos:  position{line: 2773, col: 1, offset: 88376},
 			expr: &actionExpr{
-				pos: position{line: 2771, col: 5, offset: 88328},
+				pos: position{line: 2774, col: 5, offset: 88399},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2771, col: 5, offset: 88328},
+					pos: position{line: 2774, col: 5, offset: 88399},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2771, col: 5, offset: 88328},
+							pos:   position{line: 2774, col: 5, offset: 88399},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2794, col: 18, offset: 89074},
+								pos: position{line: 2797, col: 18, offset: 89145},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2794, col: 19, offset: 89075},
+									pos: position{line: 2797, col: 19, offset: 89146},
 									expr: &charClassMatcher{
-										pos:        position{line: 2794, col: 19, offset: 89075},
+										pos:        position{line: 2797, col: 19, offset: 89146},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50687,39 +50703,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2772, col: 5, offset: 88354},
+							pos: position{line: 2775, col: 5, offset: 88425},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2776, col: 5, offset: 88482},
+							pos:        position{line: 2779, col: 5, offset: 88553},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2777, col: 5, offset: 88492},
+							pos:   position{line: 2780, col: 5, offset: 88563},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 24, offset: 89236},
+								pos: position{line: 2805, col: 24, offset: 89307},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2802, col: 24, offset: 89236},
+									pos: position{line: 2805, col: 24, offset: 89307},
 									expr: &seqExpr{
-										pos: position{line: 2802, col: 25, offset: 89237},
+										pos: position{line: 2805, col: 25, offset: 89308},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2802, col: 25, offset: 89237},
+												pos: position{line: 2805, col: 25, offset: 89308},
 												expr: &litMatcher{
-													pos:        position{line: 2802, col: 26, offset: 89238},
+													pos:        position{line: 2805, col: 26, offset: 89309},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2802, col: 30, offset: 89242},
+												pos: position{line: 2805, col: 30, offset: 89313},
 												expr: &charClassMatcher{
-													pos:        position{line: 2802, col: 30, offset: 89242},
+													pos:        position{line: 2805, col: 30, offset: 89313},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50727,23 +50743,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2802, col: 41, offset: 89253},
+												pos: position{line: 2805, col: 41, offset: 89324},
 												expr: &seqExpr{
-													pos: position{line: 2802, col: 42, offset: 89254},
+													pos: position{line: 2805, col: 42, offset: 89325},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2802, col: 42, offset: 89254},
+															pos: position{line: 2805, col: 42, offset: 89325},
 															expr: &litMatcher{
-																pos:        position{line: 2802, col: 42, offset: 89254},
+																pos:        position{line: 2805, col: 42, offset: 89325},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2802, col: 47, offset: 89259},
+															pos: position{line: 2805, col: 47, offset: 89330},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 47, offset: 89259},
+																pos:        position{line: 2805, col: 47, offset: 89330},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50759,36 +50775,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2778, col: 5, offset: 88525},
+							pos:   position{line: 2781, col: 5, offset: 88596},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2778, col: 17, offset: 88537},
+								pos:  position{line: 2781, col: 17, offset: 88608},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2977, col: 8, offset: 93991},
+							pos: position{line: 2980, col: 8, offset: 94062},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2964, col: 12, offset: 93764},
+									pos: position{line: 2967, col: 12, offset: 93835},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2964, col: 13, offset: 93765},
+										pos: position{line: 2967, col: 13, offset: 93836},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2964, col: 13, offset: 93765},
+												pos:        position{line: 2967, col: 13, offset: 93836},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 20, offset: 93772},
+												pos:        position{line: 2967, col: 20, offset: 93843},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2964, col: 29, offset: 93781},
+												pos:        position{line: 2967, col: 29, offset: 93852},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50797,9 +50813,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2974, col: 8, offset: 93941},
+									pos: position{line: 2977, col: 8, offset: 94012},
 									expr: &anyMatcher{
-										line: 2974, col: 9, offset: 93942,
+										line: 2977, col: 9, offset: 94013,
 									},
 								},
 							},
@@ -50810,23 +50826,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2782, col: 1, offset: 88685},
+			pos:  position{line: 2785, col: 1, offset: 88756},
 			expr: &actionExpr{
-				pos: position{line: 2783, col: 5, offset: 88709},
+				pos: position{line: 2786, col: 5, offset: 88780},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2783, col: 5, offset: 88709},
+					pos: position{line: 2786, col: 5, offset: 88780},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2783, col: 5, offset: 88709},
+							pos:   position{line: 2786, col: 5, offset: 88780},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2794, col: 18, offset: 89074},
+								pos: position{line: 2797, col: 18, offset: 89145},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2794, col: 19, offset: 89075},
+									pos: position{line: 2797, col: 19, offset: 89146},
 									expr: &charClassMatcher{
-										pos:        position{line: 2794, col: 19, offset: 89075},
+										pos:        position{line: 2797, col: 19, offset: 89146},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50837,39 +50853,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2784, col: 5, offset: 88735},
+							pos: position{line: 2787, col: 5, offset: 88806},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2788, col: 5, offset: 88863},
+							pos:        position{line: 2791, col: 5, offset: 88934},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2789, col: 5, offset: 88872},
+							pos:   position{line: 2792, col: 5, offset: 88943},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 19, offset: 89150},
+								pos: position{line: 2801, col: 19, offset: 89221},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2798, col: 19, offset: 89150},
+									pos: position{line: 2801, col: 19, offset: 89221},
 									expr: &seqExpr{
-										pos: position{line: 2798, col: 20, offset: 89151},
+										pos: position{line: 2801, col: 20, offset: 89222},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2798, col: 20, offset: 89151},
+												pos: position{line: 2801, col: 20, offset: 89222},
 												expr: &litMatcher{
-													pos:        position{line: 2798, col: 21, offset: 89152},
+													pos:        position{line: 2801, col: 21, offset: 89223},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2798, col: 25, offset: 89156},
+												pos: position{line: 2801, col: 25, offset: 89227},
 												expr: &charClassMatcher{
-													pos:        position{line: 2798, col: 25, offset: 89156},
+													pos:        position{line: 2801, col: 25, offset: 89227},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50882,10 +50898,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2790, col: 5, offset: 88900},
+							pos:   position{line: 2793, col: 5, offset: 88971},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2790, col: 17, offset: 88912},
+								pos:  position{line: 2793, col: 17, offset: 88983},
 								name: "InlineAttributes",
 							},
 						},
@@ -50895,43 +50911,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2882, col: 1, offset: 91401},
+			pos:  position{line: 2885, col: 1, offset: 91472},
 			expr: &actionExpr{
-				pos: position{line: 2882, col: 17, offset: 91417},
+				pos: position{line: 2885, col: 17, offset: 91488},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2882, col: 17, offset: 91417},
+					pos:   position{line: 2885, col: 17, offset: 91488},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2903, col: 5, offset: 92002},
+						pos: position{line: 2906, col: 5, offset: 92073},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2903, col: 5, offset: 92002},
+							pos:   position{line: 2906, col: 5, offset: 92073},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2903, col: 14, offset: 92011},
+								pos: position{line: 2906, col: 14, offset: 92082},
 								expr: &choiceExpr{
-									pos: position{line: 2904, col: 9, offset: 92021},
+									pos: position{line: 2907, col: 9, offset: 92092},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2904, col: 9, offset: 92021},
+											pos: position{line: 2907, col: 9, offset: 92092},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2904, col: 9, offset: 92021},
+												pos: position{line: 2907, col: 9, offset: 92092},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2904, col: 9, offset: 92021},
+														pos: position{line: 2907, col: 9, offset: 92092},
 														expr: &litMatcher{
-															pos:        position{line: 2904, col: 10, offset: 92022},
+															pos:        position{line: 2907, col: 10, offset: 92093},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2905, col: 9, offset: 92050},
+														pos: position{line: 2908, col: 9, offset: 92121},
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 92051},
+															pos:        position{line: 2908, col: 10, offset: 92122},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50942,27 +50958,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2908, col: 11, offset: 92263},
+											pos: position{line: 2911, col: 11, offset: 92334},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2908, col: 11, offset: 92263},
+													pos:        position{line: 2911, col: 11, offset: 92334},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2908, col: 19, offset: 92271},
+													pos: position{line: 2911, col: 19, offset: 92342},
 													expr: &seqExpr{
-														pos: position{line: 2908, col: 21, offset: 92273},
+														pos: position{line: 2911, col: 21, offset: 92344},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2908, col: 21, offset: 92273},
+																pos: position{line: 2911, col: 21, offset: 92344},
 																expr: &actionExpr{
-																	pos: position{line: 2955, col: 10, offset: 93593},
+																	pos: position{line: 2958, col: 10, offset: 93664},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 10, offset: 93593},
+																		pos:        position{line: 2958, col: 10, offset: 93664},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50971,11 +50987,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 28, offset: 92280},
+																pos: position{line: 2911, col: 28, offset: 92351},
 																expr: &notExpr{
-																	pos: position{line: 2974, col: 8, offset: 93941},
+																	pos: position{line: 2977, col: 8, offset: 94012},
 																	expr: &anyMatcher{
-																		line: 2974, col: 9, offset: 93942,
+																		line: 2977, col: 9, offset: 94013,
 																	},
 																},
 															},
@@ -51370,10 +51386,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2911, col: 11, offset: 92400},
+											pos: position{line: 2914, col: 11, offset: 92471},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2911, col: 11, offset: 92400},
+												pos:        position{line: 2914, col: 11, offset: 92471},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -62505,6 +62521,17 @@ func (p *parser) callonFootnoteElement32() (interface{}, error) {
 	return p.cur.onFootnoteElement32()
 }
 
+func (c *current) onFootnoteElement37() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonFootnoteElement37() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement37()
+}
+
 func (c *current) onFootnoteElement35() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -62517,159 +62544,159 @@ func (p *parser) callonFootnoteElement35() (interface{}, error) {
 	return p.cur.onFootnoteElement35()
 }
 
-func (c *current) onFootnoteElement42() (bool, error) {
+func (c *current) onFootnoteElement43() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement42() (bool, error) {
+func (p *parser) callonFootnoteElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement42()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement43() (bool, error) {
+func (c *current) onFootnoteElement44() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement43() (bool, error) {
+func (p *parser) callonFootnoteElement44() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement43()
+	return p.cur.onFootnoteElement44()
 }
 
-func (c *current) onFootnoteElement40() (interface{}, error) {
+func (c *current) onFootnoteElement41() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement40() (interface{}, error) {
+func (p *parser) callonFootnoteElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement40()
+	return p.cur.onFootnoteElement41()
 }
 
-func (c *current) onFootnoteElement53() (bool, error) {
+func (c *current) onFootnoteElement54() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement53() (bool, error) {
+func (p *parser) callonFootnoteElement54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement53()
+	return p.cur.onFootnoteElement54()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement58() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement58() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement58()
 }
 
-func (c *current) onFootnoteElement49() (interface{}, error) {
+func (c *current) onFootnoteElement50() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement49() (interface{}, error) {
+func (p *parser) callonFootnoteElement50() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement49()
+	return p.cur.onFootnoteElement50()
 }
 
-func (c *current) onFootnoteElement66() (bool, error) {
+func (c *current) onFootnoteElement67() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement66() (bool, error) {
+func (p *parser) callonFootnoteElement67() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement66()
+	return p.cur.onFootnoteElement67()
 }
 
-func (c *current) onFootnoteElement68() (bool, error) {
+func (c *current) onFootnoteElement69() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement68() (bool, error) {
+func (p *parser) callonFootnoteElement69() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement68()
+	return p.cur.onFootnoteElement69()
 }
 
-func (c *current) onFootnoteElement70() (interface{}, error) {
+func (c *current) onFootnoteElement71() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement70() (interface{}, error) {
+func (p *parser) callonFootnoteElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement70()
+	return p.cur.onFootnoteElement71()
 }
 
-func (c *current) onFootnoteElement74() (interface{}, error) {
+func (c *current) onFootnoteElement75() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement74() (interface{}, error) {
+func (p *parser) callonFootnoteElement75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement74()
+	return p.cur.onFootnoteElement75()
 }
 
-func (c *current) onFootnoteElement64() (interface{}, error) {
+func (c *current) onFootnoteElement65() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement64() (interface{}, error) {
+func (p *parser) callonFootnoteElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement64()
+	return p.cur.onFootnoteElement65()
 }
 
-func (c *current) onFootnoteElement83() (bool, error) {
+func (c *current) onFootnoteElement84() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement83() (bool, error) {
+func (p *parser) callonFootnoteElement84() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement83()
+	return p.cur.onFootnoteElement84()
 }
 
-func (c *current) onFootnoteElement90() (interface{}, error) {
+func (c *current) onFootnoteElement91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement90() (interface{}, error) {
+func (p *parser) callonFootnoteElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement90()
+	return p.cur.onFootnoteElement91()
 }
 
-func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement87(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -62677,201 +62704,201 @@ func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement86() (interface{}, error) {
+func (p *parser) callonFootnoteElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement86(stack["name"])
+	return p.cur.onFootnoteElement87(stack["name"])
 }
 
-func (c *current) onFootnoteElement100() (interface{}, error) {
+func (c *current) onFootnoteElement101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement100() (interface{}, error) {
+func (p *parser) callonFootnoteElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement100()
+	return p.cur.onFootnoteElement101()
 }
 
-func (c *current) onFootnoteElement96(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement97(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement96() (interface{}, error) {
+func (p *parser) callonFootnoteElement97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement96(stack["name"])
+	return p.cur.onFootnoteElement97(stack["name"])
 }
 
-func (c *current) onFootnoteElement110() (interface{}, error) {
+func (c *current) onFootnoteElement111() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement110() (interface{}, error) {
+func (p *parser) callonFootnoteElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement110()
+	return p.cur.onFootnoteElement111()
 }
 
-func (c *current) onFootnoteElement122() (interface{}, error) {
+func (c *current) onFootnoteElement123() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement122() (interface{}, error) {
+func (p *parser) callonFootnoteElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement122()
+	return p.cur.onFootnoteElement123()
 }
 
-func (c *current) onFootnoteElement124() (interface{}, error) {
+func (c *current) onFootnoteElement125() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement124() (interface{}, error) {
+func (p *parser) callonFootnoteElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement124()
+	return p.cur.onFootnoteElement125()
 }
 
-func (c *current) onFootnoteElement117(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement118(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117(stack["start"])
+	return p.cur.onFootnoteElement118(stack["start"])
 }
 
-func (c *current) onFootnoteElement106(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement107(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement106() (interface{}, error) {
+func (p *parser) callonFootnoteElement107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement106(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement107(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement132() (interface{}, error) {
+func (c *current) onFootnoteElement133() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement132() (interface{}, error) {
+func (p *parser) callonFootnoteElement133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement132()
+	return p.cur.onFootnoteElement133()
 }
 
-func (c *current) onFootnoteElement144() (interface{}, error) {
+func (c *current) onFootnoteElement145() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement144() (interface{}, error) {
+func (p *parser) callonFootnoteElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement144()
+	return p.cur.onFootnoteElement145()
 }
 
-func (c *current) onFootnoteElement146() (interface{}, error) {
+func (c *current) onFootnoteElement147() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement146() (interface{}, error) {
+func (p *parser) callonFootnoteElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement146()
+	return p.cur.onFootnoteElement147()
 }
 
-func (c *current) onFootnoteElement139(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement140(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139(stack["start"])
+	return p.cur.onFootnoteElement140(stack["start"])
 }
 
-func (c *current) onFootnoteElement128(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement129(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement128() (interface{}, error) {
+func (p *parser) callonFootnoteElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement128(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement129(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement81(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement82(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement81() (interface{}, error) {
+func (p *parser) callonFootnoteElement82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement81(stack["element"])
+	return p.cur.onFootnoteElement82(stack["element"])
 }
 
-func (c *current) onFootnoteElement152() (bool, error) {
+func (c *current) onFootnoteElement153() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement152() (bool, error) {
+func (p *parser) callonFootnoteElement153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement152()
+	return p.cur.onFootnoteElement153()
 }
 
-func (c *current) onFootnoteElement154() (interface{}, error) {
+func (c *current) onFootnoteElement155() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement154() (interface{}, error) {
+func (p *parser) callonFootnoteElement155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement154()
+	return p.cur.onFootnoteElement155()
 }
 
-func (c *current) onFootnoteElement150(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement151(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement150() (interface{}, error) {
+func (p *parser) callonFootnoteElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement150(stack["element"])
+	return p.cur.onFootnoteElement151(stack["element"])
 }
 
-func (c *current) onFootnoteElement156() (interface{}, error) {
+func (c *current) onFootnoteElement157() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement156() (interface{}, error) {
+func (p *parser) callonFootnoteElement157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement156()
+	return p.cur.onFootnoteElement157()
 }
 
-func (c *current) onFootnoteElement161() (interface{}, error) {
+func (c *current) onFootnoteElement162() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -62880,10 +62907,10 @@ func (c *current) onFootnoteElement161() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement161() (interface{}, error) {
+func (p *parser) callonFootnoteElement162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement161()
+	return p.cur.onFootnoteElement162()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -74416,6 +74443,17 @@ func (p *parser) callonQuotedTextElement27() (interface{}, error) {
 	return p.cur.onQuotedTextElement27()
 }
 
+func (c *current) onQuotedTextElement33() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonQuotedTextElement33() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement33()
+}
+
 func (c *current) onQuotedTextElement31() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -74428,100 +74466,100 @@ func (p *parser) callonQuotedTextElement31() (interface{}, error) {
 	return p.cur.onQuotedTextElement31()
 }
 
-func (c *current) onQuotedTextElement38() (bool, error) {
+func (c *current) onQuotedTextElement39() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement38() (bool, error) {
+func (p *parser) callonQuotedTextElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement38()
+	return p.cur.onQuotedTextElement39()
 }
 
-func (c *current) onQuotedTextElement39() (bool, error) {
+func (c *current) onQuotedTextElement40() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement39() (bool, error) {
+func (p *parser) callonQuotedTextElement40() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement39()
+	return p.cur.onQuotedTextElement40()
 }
 
-func (c *current) onQuotedTextElement36() (interface{}, error) {
+func (c *current) onQuotedTextElement37() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement36() (interface{}, error) {
+func (p *parser) callonQuotedTextElement37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement36()
+	return p.cur.onQuotedTextElement37()
 }
 
-func (c *current) onQuotedTextElement47() (bool, error) {
+func (c *current) onQuotedTextElement48() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement47() (bool, error) {
+func (p *parser) callonQuotedTextElement48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement47()
+	return p.cur.onQuotedTextElement48()
 }
 
-func (c *current) onQuotedTextElement51() (bool, error) {
+func (c *current) onQuotedTextElement52() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement51() (bool, error) {
+func (p *parser) callonQuotedTextElement52() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement51()
+	return p.cur.onQuotedTextElement52()
 }
 
-func (c *current) onQuotedTextElement43() (interface{}, error) {
+func (c *current) onQuotedTextElement44() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement43() (interface{}, error) {
+func (p *parser) callonQuotedTextElement44() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement43()
+	return p.cur.onQuotedTextElement44()
 }
 
-func (c *current) onQuotedTextElement59() (bool, error) {
+func (c *current) onQuotedTextElement60() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement59() (bool, error) {
+func (p *parser) callonQuotedTextElement60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement59()
+	return p.cur.onQuotedTextElement60()
 }
 
-func (c *current) onQuotedTextElement66() (interface{}, error) {
+func (c *current) onQuotedTextElement67() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement66() (interface{}, error) {
+func (p *parser) callonQuotedTextElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement66()
+	return p.cur.onQuotedTextElement67()
 }
 
-func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement63(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -74529,242 +74567,242 @@ func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement62() (interface{}, error) {
+func (p *parser) callonQuotedTextElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement62(stack["name"])
+	return p.cur.onQuotedTextElement63(stack["name"])
 }
 
-func (c *current) onQuotedTextElement76() (interface{}, error) {
+func (c *current) onQuotedTextElement77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement76() (interface{}, error) {
+func (p *parser) callonQuotedTextElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement76()
+	return p.cur.onQuotedTextElement77()
 }
 
-func (c *current) onQuotedTextElement72(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement73(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement72() (interface{}, error) {
+func (p *parser) callonQuotedTextElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement72(stack["name"])
+	return p.cur.onQuotedTextElement73(stack["name"])
 }
 
-func (c *current) onQuotedTextElement86() (interface{}, error) {
+func (c *current) onQuotedTextElement87() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement86() (interface{}, error) {
+func (p *parser) callonQuotedTextElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement86()
+	return p.cur.onQuotedTextElement87()
 }
 
-func (c *current) onQuotedTextElement98() (interface{}, error) {
+func (c *current) onQuotedTextElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement98() (interface{}, error) {
+func (p *parser) callonQuotedTextElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement98()
+	return p.cur.onQuotedTextElement99()
 }
 
-func (c *current) onQuotedTextElement100() (interface{}, error) {
+func (c *current) onQuotedTextElement101() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement100() (interface{}, error) {
+func (p *parser) callonQuotedTextElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement100()
+	return p.cur.onQuotedTextElement101()
 }
 
-func (c *current) onQuotedTextElement93(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement94(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93(stack["start"])
+	return p.cur.onQuotedTextElement94(stack["start"])
 }
 
-func (c *current) onQuotedTextElement82(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement83(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement82() (interface{}, error) {
+func (p *parser) callonQuotedTextElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement82(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement83(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement108() (interface{}, error) {
+func (c *current) onQuotedTextElement109() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement108() (interface{}, error) {
+func (p *parser) callonQuotedTextElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement108()
+	return p.cur.onQuotedTextElement109()
 }
 
-func (c *current) onQuotedTextElement120() (interface{}, error) {
+func (c *current) onQuotedTextElement121() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement120() (interface{}, error) {
+func (p *parser) callonQuotedTextElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement120()
+	return p.cur.onQuotedTextElement121()
 }
 
-func (c *current) onQuotedTextElement122() (interface{}, error) {
+func (c *current) onQuotedTextElement123() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement122() (interface{}, error) {
+func (p *parser) callonQuotedTextElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement122()
+	return p.cur.onQuotedTextElement123()
 }
 
-func (c *current) onQuotedTextElement115(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement116(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115(stack["start"])
+	return p.cur.onQuotedTextElement116(stack["start"])
 }
 
-func (c *current) onQuotedTextElement104(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement105(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement104() (interface{}, error) {
+func (p *parser) callonQuotedTextElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement104(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement105(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement57(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement58(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement57() (interface{}, error) {
+func (p *parser) callonQuotedTextElement58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement57(stack["element"])
+	return p.cur.onQuotedTextElement58(stack["element"])
 }
 
-func (c *current) onQuotedTextElement128() (interface{}, error) {
+func (c *current) onQuotedTextElement129() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement128() (interface{}, error) {
+func (p *parser) callonQuotedTextElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement128()
+	return p.cur.onQuotedTextElement129()
 }
 
-func (c *current) onQuotedTextElement134() (interface{}, error) {
+func (c *current) onQuotedTextElement135() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement134() (interface{}, error) {
+func (p *parser) callonQuotedTextElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement135()
 }
 
-func (c *current) onQuotedTextElement126() (interface{}, error) {
+func (c *current) onQuotedTextElement127() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement126() (interface{}, error) {
+func (p *parser) callonQuotedTextElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement126()
+	return p.cur.onQuotedTextElement127()
 }
 
-func (c *current) onQuotedTextElement143() (bool, error) {
+func (c *current) onQuotedTextElement144() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement143() (bool, error) {
+func (p *parser) callonQuotedTextElement144() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement143()
+	return p.cur.onQuotedTextElement144()
 }
 
-func (c *current) onQuotedTextElement145() (interface{}, error) {
+func (c *current) onQuotedTextElement146() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement145() (interface{}, error) {
+func (p *parser) callonQuotedTextElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement145()
+	return p.cur.onQuotedTextElement146()
 }
 
-func (c *current) onQuotedTextElement141(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement142(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement141() (interface{}, error) {
+func (p *parser) callonQuotedTextElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement141(stack["element"])
+	return p.cur.onQuotedTextElement142(stack["element"])
 }
 
-func (c *current) onQuotedTextElement151() (interface{}, error) {
+func (c *current) onQuotedTextElement152() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement151() (interface{}, error) {
+func (p *parser) callonQuotedTextElement152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement151()
+	return p.cur.onQuotedTextElement152()
 }
 
-func (c *current) onQuotedTextElement147(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement148(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement147() (interface{}, error) {
+func (p *parser) callonQuotedTextElement148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement147(stack["ref"])
+	return p.cur.onQuotedTextElement148(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement155() (interface{}, error) {
+func (c *current) onQuotedTextElement156() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -74773,10 +74811,10 @@ func (c *current) onQuotedTextElement155() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement155() (interface{}, error) {
+func (p *parser) callonQuotedTextElement156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement155()
+	return p.cur.onQuotedTextElement156()
 }
 
 func (c *current) onDoubleQuoteBoldText3() (interface{}, error) {
@@ -75953,6 +75991,17 @@ func (p *parser) callonSectionTitleElement39() (interface{}, error) {
 	return p.cur.onSectionTitleElement39()
 }
 
+func (c *current) onSectionTitleElement44() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonSectionTitleElement44() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement44()
+}
+
 func (c *current) onSectionTitleElement42() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -75965,133 +76014,133 @@ func (p *parser) callonSectionTitleElement42() (interface{}, error) {
 	return p.cur.onSectionTitleElement42()
 }
 
-func (c *current) onSectionTitleElement49() (bool, error) {
+func (c *current) onSectionTitleElement50() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement49() (bool, error) {
+func (p *parser) callonSectionTitleElement50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement49()
+	return p.cur.onSectionTitleElement50()
 }
 
-func (c *current) onSectionTitleElement50() (bool, error) {
+func (c *current) onSectionTitleElement51() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement50() (bool, error) {
+func (p *parser) callonSectionTitleElement51() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement50()
+	return p.cur.onSectionTitleElement51()
 }
 
-func (c *current) onSectionTitleElement47() (interface{}, error) {
+func (c *current) onSectionTitleElement48() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement47() (interface{}, error) {
+func (p *parser) callonSectionTitleElement48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement47()
+	return p.cur.onSectionTitleElement48()
 }
 
-func (c *current) onSectionTitleElement59() (bool, error) {
+func (c *current) onSectionTitleElement60() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement59() (bool, error) {
+func (p *parser) callonSectionTitleElement60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement59()
+	return p.cur.onSectionTitleElement60()
 }
 
-func (c *current) onSectionTitleElement63() (bool, error) {
+func (c *current) onSectionTitleElement64() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (bool, error) {
+func (p *parser) callonSectionTitleElement64() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63()
+	return p.cur.onSectionTitleElement64()
 }
 
-func (c *current) onSectionTitleElement55() (interface{}, error) {
+func (c *current) onSectionTitleElement56() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement55() (interface{}, error) {
+func (p *parser) callonSectionTitleElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement55()
+	return p.cur.onSectionTitleElement56()
 }
 
-func (c *current) onSectionTitleElement74() (bool, error) {
+func (c *current) onSectionTitleElement75() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement74() (bool, error) {
+func (p *parser) callonSectionTitleElement75() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement74()
+	return p.cur.onSectionTitleElement75()
 }
 
-func (c *current) onSectionTitleElement76() (interface{}, error) {
+func (c *current) onSectionTitleElement77() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement76() (interface{}, error) {
+func (p *parser) callonSectionTitleElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement76()
+	return p.cur.onSectionTitleElement77()
 }
 
-func (c *current) onSectionTitleElement72(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement73(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement72() (interface{}, error) {
+func (p *parser) callonSectionTitleElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement72(stack["element"])
+	return p.cur.onSectionTitleElement73(stack["element"])
 }
 
-func (c *current) onSectionTitleElement81() (bool, error) {
+func (c *current) onSectionTitleElement82() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement81() (bool, error) {
+func (p *parser) callonSectionTitleElement82() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement81()
+	return p.cur.onSectionTitleElement82()
 }
 
-func (c *current) onSectionTitleElement88() (interface{}, error) {
+func (c *current) onSectionTitleElement89() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement88() (interface{}, error) {
+func (p *parser) callonSectionTitleElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement88()
+	return p.cur.onSectionTitleElement89()
 }
 
-func (c *current) onSectionTitleElement84(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement85(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -76099,242 +76148,242 @@ func (c *current) onSectionTitleElement84(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement84() (interface{}, error) {
+func (p *parser) callonSectionTitleElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement84(stack["name"])
+	return p.cur.onSectionTitleElement85(stack["name"])
 }
 
-func (c *current) onSectionTitleElement98() (interface{}, error) {
+func (c *current) onSectionTitleElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement98() (interface{}, error) {
+func (p *parser) callonSectionTitleElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement98()
+	return p.cur.onSectionTitleElement99()
 }
 
-func (c *current) onSectionTitleElement94(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement95(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement94() (interface{}, error) {
+func (p *parser) callonSectionTitleElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement94(stack["name"])
+	return p.cur.onSectionTitleElement95(stack["name"])
 }
 
-func (c *current) onSectionTitleElement108() (interface{}, error) {
+func (c *current) onSectionTitleElement109() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement108() (interface{}, error) {
+func (p *parser) callonSectionTitleElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement108()
+	return p.cur.onSectionTitleElement109()
 }
 
-func (c *current) onSectionTitleElement120() (interface{}, error) {
+func (c *current) onSectionTitleElement121() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement120() (interface{}, error) {
+func (p *parser) callonSectionTitleElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement120()
+	return p.cur.onSectionTitleElement121()
 }
 
-func (c *current) onSectionTitleElement122() (interface{}, error) {
+func (c *current) onSectionTitleElement123() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement122() (interface{}, error) {
+func (p *parser) callonSectionTitleElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement122()
+	return p.cur.onSectionTitleElement123()
 }
 
-func (c *current) onSectionTitleElement115(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement116(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement115(stack["start"])
+	return p.cur.onSectionTitleElement116(stack["start"])
 }
 
-func (c *current) onSectionTitleElement104(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement105(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement104(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement105(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement130() (interface{}, error) {
+func (c *current) onSectionTitleElement131() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement130() (interface{}, error) {
+func (p *parser) callonSectionTitleElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement130()
+	return p.cur.onSectionTitleElement131()
 }
 
-func (c *current) onSectionTitleElement142() (interface{}, error) {
+func (c *current) onSectionTitleElement143() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement142() (interface{}, error) {
+func (p *parser) callonSectionTitleElement143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement142()
+	return p.cur.onSectionTitleElement143()
 }
 
-func (c *current) onSectionTitleElement144() (interface{}, error) {
+func (c *current) onSectionTitleElement145() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement144() (interface{}, error) {
+func (p *parser) callonSectionTitleElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement144()
+	return p.cur.onSectionTitleElement145()
 }
 
-func (c *current) onSectionTitleElement137(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement138(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleElement138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement137(stack["start"])
+	return p.cur.onSectionTitleElement138(stack["start"])
 }
 
-func (c *current) onSectionTitleElement126(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement127(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement126(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement127(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement79(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement80(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement79() (interface{}, error) {
+func (p *parser) callonSectionTitleElement80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement79(stack["element"])
+	return p.cur.onSectionTitleElement80(stack["element"])
 }
 
-func (c *current) onSectionTitleElement152() (interface{}, error) {
+func (c *current) onSectionTitleElement153() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement152() (interface{}, error) {
+func (p *parser) callonSectionTitleElement153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement152()
+	return p.cur.onSectionTitleElement153()
 }
 
-func (c *current) onSectionTitleElement148(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement149(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement148() (interface{}, error) {
+func (p *parser) callonSectionTitleElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement148(stack["ref"])
+	return p.cur.onSectionTitleElement149(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement158() (bool, error) {
+func (c *current) onSectionTitleElement159() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement158() (bool, error) {
+func (p *parser) callonSectionTitleElement159() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement158()
+	return p.cur.onSectionTitleElement159()
 }
 
-func (c *current) onSectionTitleElement168() (interface{}, error) {
+func (c *current) onSectionTitleElement169() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168()
+	return p.cur.onSectionTitleElement169()
 }
 
-func (c *current) onSectionTitleElement175() (interface{}, error) {
+func (c *current) onSectionTitleElement176() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement175() (interface{}, error) {
+func (p *parser) callonSectionTitleElement176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement175()
+	return p.cur.onSectionTitleElement176()
 }
 
-func (c *current) onSectionTitleElement171(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement172(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement171() (interface{}, error) {
+func (p *parser) callonSectionTitleElement172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement171(stack["ref"])
+	return p.cur.onSectionTitleElement172(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement181() (bool, error) {
+func (c *current) onSectionTitleElement182() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement181() (bool, error) {
+func (p *parser) callonSectionTitleElement182() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement181()
+	return p.cur.onSectionTitleElement182()
 }
 
-func (c *current) onSectionTitleElement188() (interface{}, error) {
+func (c *current) onSectionTitleElement189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement188() (interface{}, error) {
+func (p *parser) callonSectionTitleElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement188()
+	return p.cur.onSectionTitleElement189()
 }
 
-func (c *current) onSectionTitleElement184(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement185(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -76342,273 +76391,273 @@ func (c *current) onSectionTitleElement184(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement184() (interface{}, error) {
+func (p *parser) callonSectionTitleElement185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement184(stack["name"])
+	return p.cur.onSectionTitleElement185(stack["name"])
 }
 
-func (c *current) onSectionTitleElement198() (interface{}, error) {
+func (c *current) onSectionTitleElement199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement198() (interface{}, error) {
+func (p *parser) callonSectionTitleElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement198()
+	return p.cur.onSectionTitleElement199()
 }
 
-func (c *current) onSectionTitleElement194(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement195(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement194() (interface{}, error) {
+func (p *parser) callonSectionTitleElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement194(stack["name"])
+	return p.cur.onSectionTitleElement195(stack["name"])
 }
 
-func (c *current) onSectionTitleElement208() (interface{}, error) {
+func (c *current) onSectionTitleElement209() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement208() (interface{}, error) {
+func (p *parser) callonSectionTitleElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement208()
+	return p.cur.onSectionTitleElement209()
 }
 
-func (c *current) onSectionTitleElement220() (interface{}, error) {
+func (c *current) onSectionTitleElement221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement220() (interface{}, error) {
+func (p *parser) callonSectionTitleElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement220()
+	return p.cur.onSectionTitleElement221()
 }
 
-func (c *current) onSectionTitleElement222() (interface{}, error) {
+func (c *current) onSectionTitleElement223() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement222() (interface{}, error) {
+func (p *parser) callonSectionTitleElement223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement222()
+	return p.cur.onSectionTitleElement223()
 }
 
-func (c *current) onSectionTitleElement215(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement216(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["start"])
+	return p.cur.onSectionTitleElement216(stack["start"])
 }
 
-func (c *current) onSectionTitleElement204(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement205(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleElement205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement205(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement230() (interface{}, error) {
+func (c *current) onSectionTitleElement231() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement230() (interface{}, error) {
+func (p *parser) callonSectionTitleElement231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement230()
+	return p.cur.onSectionTitleElement231()
 }
 
-func (c *current) onSectionTitleElement242() (interface{}, error) {
+func (c *current) onSectionTitleElement243() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement242() (interface{}, error) {
+func (p *parser) callonSectionTitleElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement242()
+	return p.cur.onSectionTitleElement243()
 }
 
-func (c *current) onSectionTitleElement244() (interface{}, error) {
+func (c *current) onSectionTitleElement245() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement244() (interface{}, error) {
+func (p *parser) callonSectionTitleElement245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement244()
+	return p.cur.onSectionTitleElement245()
 }
 
-func (c *current) onSectionTitleElement237(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement238(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237(stack["start"])
+	return p.cur.onSectionTitleElement238(stack["start"])
 }
 
-func (c *current) onSectionTitleElement226(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement227(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleElement227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["name"], stack["start"])
+	return p.cur.onSectionTitleElement227(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement179(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement180(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement179() (interface{}, error) {
+func (p *parser) callonSectionTitleElement180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement179(stack["element"])
+	return p.cur.onSectionTitleElement180(stack["element"])
 }
 
-func (c *current) onSectionTitleElement248() (interface{}, error) {
+func (c *current) onSectionTitleElement249() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement248() (interface{}, error) {
+func (p *parser) callonSectionTitleElement249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement248()
+	return p.cur.onSectionTitleElement249()
 }
 
-func (c *current) onSectionTitleElement164(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement165(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleElement165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164(stack["elements"])
+	return p.cur.onSectionTitleElement165(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement160(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement161(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleElement161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["id"])
+	return p.cur.onSectionTitleElement161(stack["id"])
 }
 
-func (c *current) onSectionTitleElement252() (interface{}, error) {
+func (c *current) onSectionTitleElement253() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252()
+	return p.cur.onSectionTitleElement253()
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleElement257() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleElement257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleElement257()
 }
 
-func (c *current) onSectionTitleElement156(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement157(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement156() (interface{}, error) {
+func (p *parser) callonSectionTitleElement157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement156(stack["id"])
+	return p.cur.onSectionTitleElement157(stack["id"])
 }
 
-func (c *current) onSectionTitleElement267() (interface{}, error) {
+func (c *current) onSectionTitleElement268() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement267() (interface{}, error) {
+func (p *parser) callonSectionTitleElement268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement267()
+	return p.cur.onSectionTitleElement268()
 }
 
-func (c *current) onSectionTitleElement263(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement264(id interface{}) (interface{}, error) {
 	return c.newEscapedText(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement263() (interface{}, error) {
+func (p *parser) callonSectionTitleElement264() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement263(stack["id"])
+	return p.cur.onSectionTitleElement264(stack["id"])
 }
 
-func (c *current) onSectionTitleElement275() (interface{}, error) {
+func (c *current) onSectionTitleElement276() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement275() (interface{}, error) {
+func (p *parser) callonSectionTitleElement276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement275()
+	return p.cur.onSectionTitleElement276()
 }
 
-func (c *current) onSectionTitleElement271(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleElement272(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement271() (interface{}, error) {
+func (p *parser) callonSectionTitleElement272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement271(stack["id"])
+	return p.cur.onSectionTitleElement272(stack["id"])
 }
 
-func (c *current) onSectionTitleElement280() (interface{}, error) {
+func (c *current) onSectionTitleElement281() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -76617,10 +76666,10 @@ func (c *current) onSectionTitleElement280() (interface{}, error) {
 
 }
 
-func (p *parser) callonSectionTitleElement280() (interface{}, error) {
+func (p *parser) callonSectionTitleElement281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement280()
+	return p.cur.onSectionTitleElement281()
 }
 
 func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
@@ -76714,6 +76763,17 @@ func (p *parser) callonNormalGroup36() (interface{}, error) {
 	return p.cur.onNormalGroup36()
 }
 
+func (c *current) onNormalGroup42() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonNormalGroup42() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup42()
+}
+
 func (c *current) onNormalGroup40() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -76726,111 +76786,111 @@ func (p *parser) callonNormalGroup40() (interface{}, error) {
 	return p.cur.onNormalGroup40()
 }
 
-func (c *current) onNormalGroup47() (bool, error) {
+func (c *current) onNormalGroup48() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup47() (bool, error) {
+func (p *parser) callonNormalGroup48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup47()
+	return p.cur.onNormalGroup48()
 }
 
-func (c *current) onNormalGroup48() (bool, error) {
+func (c *current) onNormalGroup49() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup48() (bool, error) {
+func (p *parser) callonNormalGroup49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup48()
+	return p.cur.onNormalGroup49()
 }
 
-func (c *current) onNormalGroup45() (interface{}, error) {
+func (c *current) onNormalGroup46() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup45() (interface{}, error) {
+func (p *parser) callonNormalGroup46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup45()
+	return p.cur.onNormalGroup46()
 }
 
-func (c *current) onNormalGroup56() (bool, error) {
+func (c *current) onNormalGroup57() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup56() (bool, error) {
+func (p *parser) callonNormalGroup57() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup56()
+	return p.cur.onNormalGroup57()
 }
 
-func (c *current) onNormalGroup60() (bool, error) {
+func (c *current) onNormalGroup61() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup60() (bool, error) {
+func (p *parser) callonNormalGroup61() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup60()
+	return p.cur.onNormalGroup61()
 }
 
-func (c *current) onNormalGroup52() (interface{}, error) {
+func (c *current) onNormalGroup53() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup52() (interface{}, error) {
+func (p *parser) callonNormalGroup53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup52()
+	return p.cur.onNormalGroup53()
 }
 
-func (c *current) onNormalGroup66() (interface{}, error) {
+func (c *current) onNormalGroup67() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup66() (interface{}, error) {
+func (p *parser) callonNormalGroup67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup66()
+	return p.cur.onNormalGroup67()
 }
 
-func (c *current) onNormalGroup73() (bool, error) {
+func (c *current) onNormalGroup74() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup73() (bool, error) {
+func (p *parser) callonNormalGroup74() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup73()
+	return p.cur.onNormalGroup74()
 }
 
-func (c *current) onNormalGroup80() (interface{}, error) {
+func (c *current) onNormalGroup81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup80() (interface{}, error) {
+func (p *parser) callonNormalGroup81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup80()
+	return p.cur.onNormalGroup81()
 }
 
-func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup77(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -76838,269 +76898,269 @@ func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup76() (interface{}, error) {
+func (p *parser) callonNormalGroup77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup76(stack["name"])
+	return p.cur.onNormalGroup77(stack["name"])
 }
 
-func (c *current) onNormalGroup90() (interface{}, error) {
+func (c *current) onNormalGroup91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup90() (interface{}, error) {
+func (p *parser) callonNormalGroup91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup90()
+	return p.cur.onNormalGroup91()
 }
 
-func (c *current) onNormalGroup86(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup87(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup86() (interface{}, error) {
+func (p *parser) callonNormalGroup87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup86(stack["name"])
+	return p.cur.onNormalGroup87(stack["name"])
 }
 
-func (c *current) onNormalGroup100() (interface{}, error) {
+func (c *current) onNormalGroup101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup100() (interface{}, error) {
+func (p *parser) callonNormalGroup101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup100()
+	return p.cur.onNormalGroup101()
 }
 
-func (c *current) onNormalGroup112() (interface{}, error) {
+func (c *current) onNormalGroup113() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup112() (interface{}, error) {
+func (p *parser) callonNormalGroup113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup112()
+	return p.cur.onNormalGroup113()
 }
 
-func (c *current) onNormalGroup114() (interface{}, error) {
+func (c *current) onNormalGroup115() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup114() (interface{}, error) {
+func (p *parser) callonNormalGroup115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup114()
+	return p.cur.onNormalGroup115()
 }
 
-func (c *current) onNormalGroup107(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup108(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107(stack["start"])
+	return p.cur.onNormalGroup108(stack["start"])
 }
 
-func (c *current) onNormalGroup96(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup97(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup96() (interface{}, error) {
+func (p *parser) callonNormalGroup97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup96(stack["name"], stack["start"])
+	return p.cur.onNormalGroup97(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup122() (interface{}, error) {
+func (c *current) onNormalGroup123() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup122() (interface{}, error) {
+func (p *parser) callonNormalGroup123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup122()
+	return p.cur.onNormalGroup123()
 }
 
-func (c *current) onNormalGroup134() (interface{}, error) {
+func (c *current) onNormalGroup135() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup134() (interface{}, error) {
+func (p *parser) callonNormalGroup135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134()
+	return p.cur.onNormalGroup135()
 }
 
-func (c *current) onNormalGroup136() (interface{}, error) {
+func (c *current) onNormalGroup137() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup136() (interface{}, error) {
+func (p *parser) callonNormalGroup137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup137()
 }
 
-func (c *current) onNormalGroup129(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup130(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup129() (interface{}, error) {
+func (p *parser) callonNormalGroup130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup129(stack["start"])
+	return p.cur.onNormalGroup130(stack["start"])
 }
 
-func (c *current) onNormalGroup118(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup119(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup118() (interface{}, error) {
+func (p *parser) callonNormalGroup119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup118(stack["name"], stack["start"])
+	return p.cur.onNormalGroup119(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup71(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup72(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup71() (interface{}, error) {
+func (p *parser) callonNormalGroup72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup71(stack["element"])
+	return p.cur.onNormalGroup72(stack["element"])
 }
 
-func (c *current) onNormalGroup145() (bool, error) {
+func (c *current) onNormalGroup146() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup145() (bool, error) {
+func (p *parser) callonNormalGroup146() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup145()
+	return p.cur.onNormalGroup146()
 }
 
-func (c *current) onNormalGroup147() (interface{}, error) {
+func (c *current) onNormalGroup148() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup147() (interface{}, error) {
+func (p *parser) callonNormalGroup148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup147()
+	return p.cur.onNormalGroup148()
 }
 
-func (c *current) onNormalGroup143(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup144(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup143() (interface{}, error) {
+func (p *parser) callonNormalGroup144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup143(stack["element"])
+	return p.cur.onNormalGroup144(stack["element"])
 }
 
-func (c *current) onNormalGroup151() (bool, error) {
+func (c *current) onNormalGroup152() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup151() (bool, error) {
+func (p *parser) callonNormalGroup152() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup151()
+	return p.cur.onNormalGroup152()
 }
 
-func (c *current) onNormalGroup153() (bool, error) {
+func (c *current) onNormalGroup154() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup153() (bool, error) {
+func (p *parser) callonNormalGroup154() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup153()
+	return p.cur.onNormalGroup154()
 }
 
-func (c *current) onNormalGroup155() (interface{}, error) {
+func (c *current) onNormalGroup156() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup155() (interface{}, error) {
+func (p *parser) callonNormalGroup156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup155()
+	return p.cur.onNormalGroup156()
 }
 
-func (c *current) onNormalGroup159() (interface{}, error) {
+func (c *current) onNormalGroup160() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup159() (interface{}, error) {
+func (p *parser) callonNormalGroup160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup159()
+	return p.cur.onNormalGroup160()
 }
 
-func (c *current) onNormalGroup149() (interface{}, error) {
+func (c *current) onNormalGroup150() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup149() (interface{}, error) {
+func (p *parser) callonNormalGroup150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup149()
+	return p.cur.onNormalGroup150()
 }
 
-func (c *current) onNormalGroup171() (interface{}, error) {
+func (c *current) onNormalGroup172() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup171() (interface{}, error) {
+func (p *parser) callonNormalGroup172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup171()
+	return p.cur.onNormalGroup172()
 }
 
-func (c *current) onNormalGroup167(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup168(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup167() (interface{}, error) {
+func (p *parser) callonNormalGroup168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup167(stack["ref"])
+	return p.cur.onNormalGroup168(stack["ref"])
 }
 
-func (c *current) onNormalGroup175() (interface{}, error) {
+func (c *current) onNormalGroup176() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -77109,10 +77169,10 @@ func (c *current) onNormalGroup175() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup175() (interface{}, error) {
+func (p *parser) callonNormalGroup176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup175()
+	return p.cur.onNormalGroup176()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 5d84212..fb07071 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2540,6 +2540,9 @@ SinglelineCommentContent <- AnyChars
 // a letter (not a digit) but it can have a digit just before it.
 TypographicQuote <- 
     // escaped
+    &{
+        return c.isSubstitutionEnabled(Replacements), nil
+    }
     `\'` &[\pL] {
         //log.Debug("matched escaped apostrophe")
         return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
-- 
2.43.0


From 367dc2a5586ed9e6bba271b1c5eb3ac95f13a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:08 +0000
Subject: [PATCH 100/117] fix: replace the apostrophes in titles of blocks and
 texts of links

---
 pkg/parser/parser.go  | 9585 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    1 +
 2 files changed, 4853 insertions(+), 4733 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 16996a3..fc39760 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2950, col: 12, offset: 93491},
+																pos: position{line: 2951, col: 12, offset: 93518},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2950, col: 13, offset: 93492},
+																	pos: position{line: 2951, col: 13, offset: 93519},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2950, col: 13, offset: 93492},
+																			pos: position{line: 2951, col: 13, offset: 93519},
 																			expr: &litMatcher{
-																				pos:        position{line: 2950, col: 13, offset: 93492},
+																				pos:        position{line: 2951, col: 13, offset: 93519},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2950, col: 18, offset: 93497},
+																			pos: position{line: 2951, col: 18, offset: 93524},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2950, col: 18, offset: 93497},
+																				pos:        position{line: 2951, col: 18, offset: 93524},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2950, col: 12, offset: 93491},
+																pos: position{line: 2951, col: 12, offset: 93518},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2950, col: 13, offset: 93492},
+																	pos: position{line: 2951, col: 13, offset: 93519},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2950, col: 13, offset: 93492},
+																			pos: position{line: 2951, col: 13, offset: 93519},
 																			expr: &litMatcher{
-																				pos:        position{line: 2950, col: 13, offset: 93492},
+																				pos:        position{line: 2951, col: 13, offset: 93519},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2950, col: 18, offset: 93497},
+																			pos: position{line: 2951, col: 18, offset: 93524},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2950, col: 18, offset: 93497},
+																				pos:        position{line: 2951, col: 18, offset: 93524},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89612},
+														pos:        position{line: 2813, col: 13, offset: 89639},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2962, col: 11, offset: 93725},
+													pos: position{line: 2963, col: 11, offset: 93752},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2962, col: 11, offset: 93725},
+														pos: position{line: 2963, col: 11, offset: 93752},
 														expr: &charClassMatcher{
-															pos:        position{line: 2962, col: 11, offset: 93725},
+															pos:        position{line: 2963, col: 11, offset: 93752},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 14, offset: 91418},
+													pos: position{line: 2882, col: 14, offset: 91445},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 14, offset: 91418},
+														pos: position{line: 2882, col: 14, offset: 91445},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 14, offset: 91418},
+															pos:        position{line: 2882, col: 14, offset: 91445},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2885, col: 17, offset: 91488},
+												pos: position{line: 2886, col: 17, offset: 91515},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2885, col: 17, offset: 91488},
+													pos:   position{line: 2886, col: 17, offset: 91515},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2950, col: 12, offset: 93491},
+																				pos: position{line: 2951, col: 12, offset: 93518},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2950, col: 13, offset: 93492},
+																					pos: position{line: 2951, col: 13, offset: 93519},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2950, col: 13, offset: 93492},
+																							pos: position{line: 2951, col: 13, offset: 93519},
 																							expr: &litMatcher{
-																								pos:        position{line: 2950, col: 13, offset: 93492},
+																								pos:        position{line: 2951, col: 13, offset: 93519},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2950, col: 18, offset: 93497},
+																							pos: position{line: 2951, col: 18, offset: 93524},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2950, col: 18, offset: 93497},
+																								pos:        position{line: 2951, col: 18, offset: 93524},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2950, col: 12, offset: 93491},
+																				pos: position{line: 2951, col: 12, offset: 93518},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2950, col: 13, offset: 93492},
+																					pos: position{line: 2951, col: 13, offset: 93519},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2950, col: 13, offset: 93492},
+																							pos: position{line: 2951, col: 13, offset: 93519},
 																							expr: &litMatcher{
-																								pos:        position{line: 2950, col: 13, offset: 93492},
+																								pos:        position{line: 2951, col: 13, offset: 93519},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2950, col: 18, offset: 93497},
+																							pos: position{line: 2951, col: 18, offset: 93524},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2950, col: 18, offset: 93497},
+																								pos:        position{line: 2951, col: 18, offset: 93524},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2950, col: 12, offset: 93491},
+																		pos: position{line: 2951, col: 12, offset: 93518},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2950, col: 13, offset: 93492},
+																			pos: position{line: 2951, col: 13, offset: 93519},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2950, col: 13, offset: 93492},
+																					pos: position{line: 2951, col: 13, offset: 93519},
 																					expr: &litMatcher{
-																						pos:        position{line: 2950, col: 13, offset: 93492},
+																						pos:        position{line: 2951, col: 13, offset: 93519},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2950, col: 18, offset: 93497},
+																					pos: position{line: 2951, col: 18, offset: 93524},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2950, col: 18, offset: 93497},
+																						pos:        position{line: 2951, col: 18, offset: 93524},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2950, col: 12, offset: 93491},
+																									pos: position{line: 2951, col: 12, offset: 93518},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2950, col: 13, offset: 93492},
+																										pos: position{line: 2951, col: 13, offset: 93519},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2950, col: 13, offset: 93492},
+																												pos: position{line: 2951, col: 13, offset: 93519},
 																												expr: &litMatcher{
-																													pos:        position{line: 2950, col: 13, offset: 93492},
+																													pos:        position{line: 2951, col: 13, offset: 93519},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2950, col: 18, offset: 93497},
+																												pos: position{line: 2951, col: 18, offset: 93524},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2950, col: 18, offset: 93497},
+																													pos:        position{line: 2951, col: 18, offset: 93524},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2950, col: 12, offset: 93491},
+																									pos: position{line: 2951, col: 12, offset: 93518},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2950, col: 13, offset: 93492},
+																										pos: position{line: 2951, col: 13, offset: 93519},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2950, col: 13, offset: 93492},
+																												pos: position{line: 2951, col: 13, offset: 93519},
 																												expr: &litMatcher{
-																													pos:        position{line: 2950, col: 13, offset: 93492},
+																													pos:        position{line: 2951, col: 13, offset: 93519},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2950, col: 18, offset: 93497},
+																												pos: position{line: 2951, col: 18, offset: 93524},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2950, col: 18, offset: 93497},
+																													pos:        position{line: 2951, col: 18, offset: 93524},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2950, col: 12, offset: 93491},
+																							pos: position{line: 2951, col: 12, offset: 93518},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2950, col: 13, offset: 93492},
+																								pos: position{line: 2951, col: 13, offset: 93519},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2950, col: 13, offset: 93492},
+																										pos: position{line: 2951, col: 13, offset: 93519},
 																										expr: &litMatcher{
-																											pos:        position{line: 2950, col: 13, offset: 93492},
+																											pos:        position{line: 2951, col: 13, offset: 93519},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2950, col: 18, offset: 93497},
+																										pos: position{line: 2951, col: 18, offset: 93524},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2950, col: 18, offset: 93497},
+																											pos:        position{line: 2951, col: 18, offset: 93524},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2950, col: 12, offset: 93491},
+														pos: position{line: 2951, col: 12, offset: 93518},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2950, col: 13, offset: 93492},
+															pos: position{line: 2951, col: 13, offset: 93519},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2950, col: 13, offset: 93492},
+																	pos: position{line: 2951, col: 13, offset: 93519},
 																	expr: &litMatcher{
-																		pos:        position{line: 2950, col: 13, offset: 93492},
+																		pos:        position{line: 2951, col: 13, offset: 93519},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2950, col: 18, offset: 93497},
+																	pos: position{line: 2951, col: 18, offset: 93524},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2950, col: 18, offset: 93497},
+																		pos:        position{line: 2951, col: 18, offset: 93524},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2950, col: 12, offset: 93491},
+														pos: position{line: 2951, col: 12, offset: 93518},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2950, col: 13, offset: 93492},
+															pos: position{line: 2951, col: 13, offset: 93519},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2950, col: 13, offset: 93492},
+																	pos: position{line: 2951, col: 13, offset: 93519},
 																	expr: &litMatcher{
-																		pos:        position{line: 2950, col: 13, offset: 93492},
+																		pos:        position{line: 2951, col: 13, offset: 93519},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2950, col: 18, offset: 93497},
+																	pos: position{line: 2951, col: 18, offset: 93524},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2950, col: 18, offset: 93497},
+																		pos:        position{line: 2951, col: 18, offset: 93524},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2950, col: 12, offset: 93491},
+												pos: position{line: 2951, col: 12, offset: 93518},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2950, col: 13, offset: 93492},
+													pos: position{line: 2951, col: 13, offset: 93519},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2950, col: 13, offset: 93492},
+															pos: position{line: 2951, col: 13, offset: 93519},
 															expr: &litMatcher{
-																pos:        position{line: 2950, col: 13, offset: 93492},
+																pos:        position{line: 2951, col: 13, offset: 93519},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2950, col: 18, offset: 93497},
+															pos: position{line: 2951, col: 18, offset: 93524},
 															expr: &charClassMatcher{
-																pos:        position{line: 2950, col: 18, offset: 93497},
+																pos:        position{line: 2951, col: 18, offset: 93524},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89686},
+																		pos: position{line: 2817, col: 14, offset: 89713},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89686},
+																			pos: position{line: 2817, col: 14, offset: 89713},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89686},
+																				pos:        position{line: 2817, col: 14, offset: 89713},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89686},
+																				pos: position{line: 2817, col: 14, offset: 89713},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89686},
+																					pos: position{line: 2817, col: 14, offset: 89713},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89686},
+																						pos:        position{line: 2817, col: 14, offset: 89713},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2816, col: 14, offset: 89686},
+																							pos: position{line: 2817, col: 14, offset: 89713},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2816, col: 14, offset: 89686},
+																								pos: position{line: 2817, col: 14, offset: 89713},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2816, col: 14, offset: 89686},
+																									pos:        position{line: 2817, col: 14, offset: 89713},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2816, col: 14, offset: 89686},
+																									pos: position{line: 2817, col: 14, offset: 89713},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2816, col: 14, offset: 89686},
+																										pos: position{line: 2817, col: 14, offset: 89713},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2816, col: 14, offset: 89686},
+																											pos:        position{line: 2817, col: 14, offset: 89713},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89686},
+																pos: position{line: 2817, col: 14, offset: 89713},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89686},
+																	pos: position{line: 2817, col: 14, offset: 89713},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89686},
+																		pos:        position{line: 2817, col: 14, offset: 89713},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2816, col: 14, offset: 89686},
+																pos: position{line: 2817, col: 14, offset: 89713},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2816, col: 14, offset: 89686},
+																	pos: position{line: 2817, col: 14, offset: 89713},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2816, col: 14, offset: 89686},
+																		pos:        position{line: 2817, col: 14, offset: 89713},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2975, col: 11, offset: 93998},
+														pos: position{line: 2976, col: 11, offset: 94025},
 														expr: &anyMatcher{
-															line: 2975, col: 13, offset: 94000,
+															line: 2976, col: 13, offset: 94027,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 14, offset: 91418},
+																			pos: position{line: 2882, col: 14, offset: 91445},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 14, offset: 91418},
+																				pos: position{line: 2882, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 14, offset: 91418},
+																					pos:        position{line: 2882, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2975, col: 11, offset: 93998},
+																									pos: position{line: 2976, col: 11, offset: 94025},
 																									expr: &anyMatcher{
-																										line: 2975, col: 13, offset: 94000,
+																										line: 2976, col: 13, offset: 94027,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 14, offset: 91418},
+																						pos: position{line: 2882, col: 14, offset: 91445},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2881, col: 14, offset: 91418},
+																							pos: position{line: 2882, col: 14, offset: 91445},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 14, offset: 91418},
+																								pos:        position{line: 2882, col: 14, offset: 91445},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -7202,12 +7202,12 @@ var g = &grammar{
 																					pos:   position{line: 1824, col: 5, offset: 58892},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 14, offset: 91418},
+																						pos: position{line: 2882, col: 14, offset: 91445},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2881, col: 14, offset: 91418},
+																							pos: position{line: 2882, col: 14, offset: 91445},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 14, offset: 91418},
+																								pos:        position{line: 2882, col: 14, offset: 91445},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,28 +7221,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2763, col: 18, offset: 87971},
+											pos: position{line: 2764, col: 18, offset: 87998},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2764, col: 9, offset: 87981},
+												pos: position{line: 2765, col: 9, offset: 88008},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2764, col: 9, offset: 87981},
+														pos: position{line: 2765, col: 9, offset: 88008},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2764, col: 9, offset: 87981},
+																pos:        position{line: 2765, col: 9, offset: 88008},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2764, col: 15, offset: 87987},
+																pos: position{line: 2765, col: 15, offset: 88014},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2765, col: 11, offset: 88020},
+														pos: position{line: 2766, col: 11, offset: 88047},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2765, col: 12, offset: 88021},
+																pos: position{line: 2766, col: 12, offset: 88048},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 12, offset: 88021},
+																		pos:        position{line: 2766, col: 12, offset: 88048},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 20, offset: 88029},
+																		pos:        position{line: 2766, col: 20, offset: 88056},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 30, offset: 88039},
+																		pos:        position{line: 2766, col: 30, offset: 88066},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 38, offset: 88047},
+																		pos:        position{line: 2766, col: 38, offset: 88074},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 48, offset: 88057},
+																		pos:        position{line: 2766, col: 48, offset: 88084},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2765, col: 56, offset: 88065},
+																		pos:        position{line: 2766, col: 56, offset: 88092},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2765, col: 65, offset: 88074},
+																pos: position{line: 2766, col: 65, offset: 88101},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2765, col: 76, offset: 88085},
+																pos: position{line: 2766, col: 76, offset: 88112},
 																expr: &choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2654, col: 5, offset: 84907},
+											pos: position{line: 2655, col: 5, offset: 84934},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2654, col: 5, offset: 84907},
+												pos: position{line: 2655, col: 5, offset: 84934},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2660, col: 19, offset: 85064},
+														pos:        position{line: 2661, col: 19, offset: 85091},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2660, col: 26, offset: 85071},
+														pos: position{line: 2661, col: 26, offset: 85098},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2655, col: 5, offset: 84931},
+														pos:   position{line: 2656, col: 5, offset: 84958},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2655, col: 11, offset: 84937},
+															pos: position{line: 2656, col: 11, offset: 84964},
 															expr: &choiceExpr{
-																pos: position{line: 2655, col: 12, offset: 84938},
+																pos: position{line: 2656, col: 12, offset: 84965},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2975, col: 11, offset: 93998},
+																					pos: position{line: 2976, col: 11, offset: 94025},
 																					expr: &anyMatcher{
-																						line: 2975, col: 13, offset: 94000,
+																						line: 2976, col: 13, offset: 94027,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2667, col: 5, offset: 85183},
+																		pos: position{line: 2668, col: 5, offset: 85210},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2667, col: 5, offset: 85183},
+																			pos: position{line: 2668, col: 5, offset: 85210},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2667, col: 5, offset: 85183},
+																					pos: position{line: 2668, col: 5, offset: 85210},
 																					expr: &choiceExpr{
-																						pos: position{line: 2664, col: 22, offset: 85144},
+																						pos: position{line: 2665, col: 22, offset: 85171},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2660, col: 19, offset: 85064},
+																								pos: position{line: 2661, col: 19, offset: 85091},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2660, col: 19, offset: 85064},
+																										pos:        position{line: 2661, col: 19, offset: 85091},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2660, col: 26, offset: 85071},
+																										pos: position{line: 2661, col: 26, offset: 85098},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2980, col: 8, offset: 94062},
+																										pos: position{line: 2981, col: 8, offset: 94089},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2967, col: 12, offset: 93835},
+																												pos: position{line: 2968, col: 12, offset: 93862},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2967, col: 13, offset: 93836},
+																													pos: position{line: 2968, col: 13, offset: 93863},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 13, offset: 93836},
+																															pos:        position{line: 2968, col: 13, offset: 93863},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 20, offset: 93843},
+																															pos:        position{line: 2968, col: 20, offset: 93870},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 29, offset: 93852},
+																															pos:        position{line: 2968, col: 29, offset: 93879},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2977, col: 8, offset: 94012},
+																												pos: position{line: 2978, col: 8, offset: 94039},
 																												expr: &anyMatcher{
-																													line: 2977, col: 9, offset: 94013,
+																													line: 2978, col: 9, offset: 94040,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2668, col: 5, offset: 85206},
+																					pos:   position{line: 2669, col: 5, offset: 85233},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2669, col: 9, offset: 85224},
+																						pos: position{line: 2670, col: 9, offset: 85251},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2669, col: 10, offset: 85225},
+																								pos: position{line: 2670, col: 10, offset: 85252},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2669, col: 10, offset: 85225},
+																									pos:   position{line: 2670, col: 10, offset: 85252},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2669, col: 17, offset: 85232},
+																										pos: position{line: 2670, col: 17, offset: 85259},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2677, col: 21, offset: 85428},
+																												pos: position{line: 2678, col: 21, offset: 85455},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2677, col: 21, offset: 85428},
+																													pos: position{line: 2678, col: 21, offset: 85455},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2677, col: 21, offset: 85428},
+																															pos:   position{line: 2678, col: 21, offset: 85455},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2677, col: 27, offset: 85434},
+																																pos: position{line: 2678, col: 27, offset: 85461},
 																																expr: &actionExpr{
-																																	pos: position{line: 2682, col: 5, offset: 85509},
+																																	pos: position{line: 2683, col: 5, offset: 85536},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2682, col: 5, offset: 85509},
+																																		pos: position{line: 2683, col: 5, offset: 85536},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2682, col: 5, offset: 85509},
+																																				pos:        position{line: 2683, col: 5, offset: 85536},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2682, col: 9, offset: 85513},
+																																				pos: position{line: 2683, col: 9, offset: 85540},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2958, col: 10, offset: 93664},
+																																					pos: position{line: 2959, col: 10, offset: 93691},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2958, col: 10, offset: 93664},
+																																						pos:        position{line: 2959, col: 10, offset: 93691},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2682, col: 16, offset: 85520},
+																																				pos:   position{line: 2683, col: 16, offset: 85547},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2688, col: 5, offset: 85720},
+																																					pos: position{line: 2689, col: 5, offset: 85747},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2688, col: 5, offset: 85720},
+																																						pos:   position{line: 2689, col: 5, offset: 85747},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2688, col: 14, offset: 85729},
+																																							pos: position{line: 2689, col: 14, offset: 85756},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2688, col: 14, offset: 85729},
+																																								pos: position{line: 2689, col: 14, offset: 85756},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2688, col: 14, offset: 85729},
+																																									pos:        position{line: 2689, col: 14, offset: 85756},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2980, col: 8, offset: 94062},
+																															pos: position{line: 2981, col: 8, offset: 94089},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2967, col: 12, offset: 93835},
+																																	pos: position{line: 2968, col: 12, offset: 93862},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2967, col: 13, offset: 93836},
+																																		pos: position{line: 2968, col: 13, offset: 93863},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2967, col: 13, offset: 93836},
+																																				pos:        position{line: 2968, col: 13, offset: 93863},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2967, col: 20, offset: 93843},
+																																				pos:        position{line: 2968, col: 20, offset: 93870},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2967, col: 29, offset: 93852},
+																																				pos:        position{line: 2968, col: 29, offset: 93879},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2977, col: 8, offset: 94012},
+																																	pos: position{line: 2978, col: 8, offset: 94039},
 																																	expr: &anyMatcher{
-																																		line: 2977, col: 9, offset: 94013,
+																																		line: 2978, col: 9, offset: 94040,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2694, col: 24, offset: 85865},
+																												pos: position{line: 2695, col: 24, offset: 85892},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2694, col: 24, offset: 85865},
+																													pos:   position{line: 2695, col: 24, offset: 85892},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2694, col: 30, offset: 85871},
+																														pos: position{line: 2695, col: 30, offset: 85898},
 																														expr: &actionExpr{
-																															pos: position{line: 2699, col: 5, offset: 85947},
+																															pos: position{line: 2700, col: 5, offset: 85974},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2699, col: 5, offset: 85947},
+																																pos: position{line: 2700, col: 5, offset: 85974},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2699, col: 5, offset: 85947},
+																																		pos: position{line: 2700, col: 5, offset: 85974},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2664, col: 22, offset: 85144},
+																																			pos: position{line: 2665, col: 22, offset: 85171},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2660, col: 19, offset: 85064},
+																																					pos: position{line: 2661, col: 19, offset: 85091},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2660, col: 19, offset: 85064},
+																																							pos:        position{line: 2661, col: 19, offset: 85091},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2660, col: 26, offset: 85071},
+																																							pos: position{line: 2661, col: 26, offset: 85098},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2958, col: 10, offset: 93664},
+																																								pos: position{line: 2959, col: 10, offset: 93691},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2958, col: 10, offset: 93664},
+																																									pos:        position{line: 2959, col: 10, offset: 93691},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2980, col: 8, offset: 94062},
+																																							pos: position{line: 2981, col: 8, offset: 94089},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2967, col: 12, offset: 93835},
+																																									pos: position{line: 2968, col: 12, offset: 93862},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2967, col: 13, offset: 93836},
+																																										pos: position{line: 2968, col: 13, offset: 93863},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 13, offset: 93836},
+																																												pos:        position{line: 2968, col: 13, offset: 93863},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 20, offset: 93843},
+																																												pos:        position{line: 2968, col: 20, offset: 93870},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 29, offset: 93852},
+																																												pos:        position{line: 2968, col: 29, offset: 93879},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2977, col: 8, offset: 94012},
+																																									pos: position{line: 2978, col: 8, offset: 94039},
 																																									expr: &anyMatcher{
-																																										line: 2977, col: 9, offset: 94013,
+																																										line: 2978, col: 9, offset: 94040,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2977, col: 8, offset: 94012},
+																																					pos: position{line: 2978, col: 8, offset: 94039},
 																																					expr: &anyMatcher{
-																																						line: 2977, col: 9, offset: 94013,
+																																						line: 2978, col: 9, offset: 94040,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2700, col: 5, offset: 85970},
+																																		pos: position{line: 2701, col: 5, offset: 85997},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2975, col: 11, offset: 93998},
+																																						pos: position{line: 2976, col: 11, offset: 94025},
 																																						expr: &anyMatcher{
-																																							line: 2975, col: 13, offset: 94000,
+																																							line: 2976, col: 13, offset: 94027,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2958, col: 10, offset: 93664},
+																																							pos: position{line: 2959, col: 10, offset: 93691},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2958, col: 10, offset: 93664},
+																																								pos:        position{line: 2959, col: 10, offset: 93691},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2980, col: 8, offset: 94062},
+																																						pos: position{line: 2981, col: 8, offset: 94089},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2967, col: 12, offset: 93835},
+																																								pos: position{line: 2968, col: 12, offset: 93862},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2967, col: 13, offset: 93836},
+																																									pos: position{line: 2968, col: 13, offset: 93863},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 13, offset: 93836},
+																																											pos:        position{line: 2968, col: 13, offset: 93863},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 20, offset: 93843},
+																																											pos:        position{line: 2968, col: 20, offset: 93870},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 29, offset: 93852},
+																																											pos:        position{line: 2968, col: 29, offset: 93879},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2977, col: 8, offset: 94012},
+																																								pos: position{line: 2978, col: 8, offset: 94039},
 																																								expr: &anyMatcher{
-																																									line: 2977, col: 9, offset: 94013,
+																																									line: 2978, col: 9, offset: 94040,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2701, col: 5, offset: 85985},
+																																		pos:   position{line: 2702, col: 5, offset: 86012},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2701, col: 12, offset: 85992},
+																																			pos: position{line: 2702, col: 12, offset: 86019},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2718, col: 20, offset: 86456},
+																																				pos: position{line: 2719, col: 20, offset: 86483},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2718, col: 20, offset: 86456},
+																																					pos: position{line: 2719, col: 20, offset: 86483},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2718, col: 20, offset: 86456},
+																																						pos:        position{line: 2719, col: 20, offset: 86483},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2701, col: 31, offset: 86011},
+																																		pos:        position{line: 2702, col: 31, offset: 86038},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2701, col: 35, offset: 86015},
+																																		pos: position{line: 2702, col: 35, offset: 86042},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2958, col: 10, offset: 93664},
+																																			pos: position{line: 2959, col: 10, offset: 93691},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2958, col: 10, offset: 93664},
+																																				pos:        position{line: 2959, col: 10, offset: 93691},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2701, col: 42, offset: 86022},
+																																		pos: position{line: 2702, col: 42, offset: 86049},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2967, col: 12, offset: 93835},
+																																			pos: position{line: 2968, col: 12, offset: 93862},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2967, col: 13, offset: 93836},
+																																				pos: position{line: 2968, col: 13, offset: 93863},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2967, col: 13, offset: 93836},
+																																						pos:        position{line: 2968, col: 13, offset: 93863},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2967, col: 20, offset: 93843},
+																																						pos:        position{line: 2968, col: 20, offset: 93870},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2967, col: 29, offset: 93852},
+																																						pos:        position{line: 2968, col: 29, offset: 93879},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2701, col: 51, offset: 86031},
+																																		pos:   position{line: 2702, col: 51, offset: 86058},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2707, col: 5, offset: 86190},
+																																			pos: position{line: 2708, col: 5, offset: 86217},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2708, col: 9, offset: 86200},
+																																				pos: position{line: 2709, col: 9, offset: 86227},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2708, col: 9, offset: 86200},
+																																					pos: position{line: 2709, col: 9, offset: 86227},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2708, col: 9, offset: 86200},
+																																							pos: position{line: 2709, col: 9, offset: 86227},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2664, col: 22, offset: 85144},
+																																								pos: position{line: 2665, col: 22, offset: 85171},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2660, col: 19, offset: 85064},
+																																										pos: position{line: 2661, col: 19, offset: 85091},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2660, col: 19, offset: 85064},
+																																												pos:        position{line: 2661, col: 19, offset: 85091},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2660, col: 26, offset: 85071},
+																																												pos: position{line: 2661, col: 26, offset: 85098},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2958, col: 10, offset: 93664},
+																																													pos: position{line: 2959, col: 10, offset: 93691},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2958, col: 10, offset: 93664},
+																																														pos:        position{line: 2959, col: 10, offset: 93691},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2980, col: 8, offset: 94062},
+																																												pos: position{line: 2981, col: 8, offset: 94089},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2967, col: 12, offset: 93835},
+																																														pos: position{line: 2968, col: 12, offset: 93862},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2967, col: 13, offset: 93836},
+																																															pos: position{line: 2968, col: 13, offset: 93863},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2977, col: 8, offset: 94012},
+																																														pos: position{line: 2978, col: 8, offset: 94039},
 																																														expr: &anyMatcher{
-																																															line: 2977, col: 9, offset: 94013,
+																																															line: 2978, col: 9, offset: 94040,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2977, col: 8, offset: 94012},
+																																										pos: position{line: 2978, col: 8, offset: 94039},
 																																										expr: &anyMatcher{
-																																											line: 2977, col: 9, offset: 94013,
+																																											line: 2978, col: 9, offset: 94040,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2709, col: 9, offset: 86227},
+																																							pos: position{line: 2710, col: 9, offset: 86254},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2975, col: 11, offset: 93998},
+																																											pos: position{line: 2976, col: 11, offset: 94025},
 																																											expr: &anyMatcher{
-																																												line: 2975, col: 13, offset: 94000,
+																																												line: 2976, col: 13, offset: 94027,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2958, col: 10, offset: 93664},
+																																												pos: position{line: 2959, col: 10, offset: 93691},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2958, col: 10, offset: 93664},
+																																													pos:        position{line: 2959, col: 10, offset: 93691},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2980, col: 8, offset: 94062},
+																																											pos: position{line: 2981, col: 8, offset: 94089},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2967, col: 12, offset: 93835},
+																																													pos: position{line: 2968, col: 12, offset: 93862},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2967, col: 13, offset: 93836},
+																																														pos: position{line: 2968, col: 13, offset: 93863},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2977, col: 8, offset: 94012},
+																																													pos: position{line: 2978, col: 8, offset: 94039},
 																																													expr: &anyMatcher{
-																																														line: 2977, col: 9, offset: 94013,
+																																														line: 2978, col: 9, offset: 94040,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2710, col: 9, offset: 86246},
+																																							pos: position{line: 2711, col: 9, offset: 86273},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2710, col: 11, offset: 86248},
+																																								pos: position{line: 2711, col: 11, offset: 86275},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2710, col: 11, offset: 86248},
+																																										pos:   position{line: 2711, col: 11, offset: 86275},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2710, col: 18, offset: 86255},
+																																											pos: position{line: 2711, col: 18, offset: 86282},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2718, col: 20, offset: 86456},
+																																												pos: position{line: 2719, col: 20, offset: 86483},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2718, col: 20, offset: 86456},
+																																													pos: position{line: 2719, col: 20, offset: 86483},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2718, col: 20, offset: 86456},
+																																														pos:        position{line: 2719, col: 20, offset: 86483},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2710, col: 37, offset: 86274},
+																																										pos:        position{line: 2711, col: 37, offset: 86301},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2711, col: 9, offset: 86287},
+																																							pos:   position{line: 2712, col: 9, offset: 86314},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2711, col: 18, offset: 86296},
+																																								pos: position{line: 2712, col: 18, offset: 86323},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2711, col: 18, offset: 86296},
+																																									pos: position{line: 2712, col: 18, offset: 86323},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2711, col: 18, offset: 86296},
+																																										pos:        position{line: 2712, col: 18, offset: 86323},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2713, col: 12, offset: 86358},
+																																							pos: position{line: 2714, col: 12, offset: 86385},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2980, col: 8, offset: 94062},
+																																								pos: position{line: 2981, col: 8, offset: 94089},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2967, col: 12, offset: 93835},
+																																										pos: position{line: 2968, col: 12, offset: 93862},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2967, col: 13, offset: 93836},
+																																											pos: position{line: 2968, col: 13, offset: 93863},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2967, col: 13, offset: 93836},
+																																													pos:        position{line: 2968, col: 13, offset: 93863},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2967, col: 20, offset: 93843},
+																																													pos:        position{line: 2968, col: 20, offset: 93870},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2967, col: 29, offset: 93852},
+																																													pos:        position{line: 2968, col: 29, offset: 93879},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2977, col: 8, offset: 94012},
+																																										pos: position{line: 2978, col: 8, offset: 94039},
 																																										expr: &anyMatcher{
-																																											line: 2977, col: 9, offset: 94013,
+																																											line: 2978, col: 9, offset: 94040,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2975, col: 11, offset: 93998},
+																											pos: position{line: 2976, col: 11, offset: 94025},
 																											expr: &anyMatcher{
-																												line: 2975, col: 13, offset: 94000,
+																												line: 2976, col: 13, offset: 94027,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2664, col: 22, offset: 85144},
+														pos: position{line: 2665, col: 22, offset: 85171},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2660, col: 19, offset: 85064},
+																pos: position{line: 2661, col: 19, offset: 85091},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2660, col: 19, offset: 85064},
+																		pos:        position{line: 2661, col: 19, offset: 85091},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2660, col: 26, offset: 85071},
+																		pos: position{line: 2661, col: 26, offset: 85098},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81307},
+												pos: position{line: 2526, col: 22, offset: 81334},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81528},
+														pos:        position{line: 2531, col: 31, offset: 81555},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81533},
+														pos: position{line: 2531, col: 36, offset: 81560},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81534},
+															pos:        position{line: 2531, col: 37, offset: 81561},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81334},
+														pos:   position{line: 2526, col: 49, offset: 81361},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2877, col: 13, offset: 91351},
+																pos: position{line: 2878, col: 13, offset: 91378},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 91351},
+																	pos:        position{line: 2878, col: 13, offset: 91378},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2980, col: 8, offset: 94062},
+																										pos: position{line: 2981, col: 8, offset: 94089},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2967, col: 12, offset: 93835},
+																												pos: position{line: 2968, col: 12, offset: 93862},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2967, col: 13, offset: 93836},
+																													pos: position{line: 2968, col: 13, offset: 93863},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 13, offset: 93836},
+																															pos:        position{line: 2968, col: 13, offset: 93863},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 20, offset: 93843},
+																															pos:        position{line: 2968, col: 20, offset: 93870},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 29, offset: 93852},
+																															pos:        position{line: 2968, col: 29, offset: 93879},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2977, col: 8, offset: 94012},
+																												pos: position{line: 2978, col: 8, offset: 94039},
 																												expr: &anyMatcher{
-																													line: 2977, col: 9, offset: 94013,
+																													line: 2978, col: 9, offset: 94040,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2962, col: 11, offset: 93725},
+												pos: position{line: 2963, col: 11, offset: 93752},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2962, col: 11, offset: 93725},
+													pos: position{line: 2963, col: 11, offset: 93752},
 													expr: &charClassMatcher{
-														pos:        position{line: 2962, col: 11, offset: 93725},
+														pos:        position{line: 2963, col: 11, offset: 93752},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2967, col: 12, offset: 93835},
+												pos: position{line: 2968, col: 12, offset: 93862},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2967, col: 13, offset: 93836},
+													pos: position{line: 2968, col: 13, offset: 93863},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2967, col: 13, offset: 93836},
+															pos:        position{line: 2968, col: 13, offset: 93863},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 20, offset: 93843},
+															pos:        position{line: 2968, col: 20, offset: 93870},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 29, offset: 93852},
+															pos:        position{line: 2968, col: 29, offset: 93879},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2958, col: 10, offset: 93664},
+													pos: position{line: 2959, col: 10, offset: 93691},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2958, col: 10, offset: 93664},
+														pos:        position{line: 2959, col: 10, offset: 93691},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2958, col: 10, offset: 93664},
+											pos: position{line: 2959, col: 10, offset: 93691},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 10, offset: 93664},
+												pos:        position{line: 2959, col: 10, offset: 93691},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2980, col: 8, offset: 94062},
+										pos: position{line: 2981, col: 8, offset: 94089},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2967, col: 12, offset: 93835},
+												pos: position{line: 2968, col: 12, offset: 93862},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2967, col: 13, offset: 93836},
+													pos: position{line: 2968, col: 13, offset: 93863},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2967, col: 13, offset: 93836},
+															pos:        position{line: 2968, col: 13, offset: 93863},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 20, offset: 93843},
+															pos:        position{line: 2968, col: 20, offset: 93870},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 29, offset: 93852},
+															pos:        position{line: 2968, col: 29, offset: 93879},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2977, col: 8, offset: 94012},
+												pos: position{line: 2978, col: 8, offset: 94039},
 												expr: &anyMatcher{
-													line: 2977, col: 9, offset: 94013,
+													line: 2978, col: 9, offset: 94040,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80853},
+										pos: position{line: 2513, col: 5, offset: 80880},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80853},
+													pos: position{line: 2513, col: 5, offset: 80880},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80929},
+													pos:   position{line: 2516, col: 5, offset: 80956},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80947},
+														pos: position{line: 2517, col: 9, offset: 80974},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80948},
+															pos:        position{line: 2517, col: 10, offset: 80975},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2958, col: 10, offset: 93664},
+										pos: position{line: 2959, col: 10, offset: 93691},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2958, col: 10, offset: 93664},
+											pos:        position{line: 2959, col: 10, offset: 93691},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2958, col: 10, offset: 93664},
+													pos: position{line: 2959, col: 10, offset: 93691},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2958, col: 10, offset: 93664},
+														pos:        position{line: 2959, col: 10, offset: 93691},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2980, col: 8, offset: 94062},
+												pos: position{line: 2981, col: 8, offset: 94089},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2967, col: 12, offset: 93835},
+														pos: position{line: 2968, col: 12, offset: 93862},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2967, col: 13, offset: 93836},
+															pos: position{line: 2968, col: 13, offset: 93863},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2967, col: 13, offset: 93836},
+																	pos:        position{line: 2968, col: 13, offset: 93863},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 20, offset: 93843},
+																	pos:        position{line: 2968, col: 20, offset: 93870},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 29, offset: 93852},
+																	pos:        position{line: 2968, col: 29, offset: 93879},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2977, col: 8, offset: 94012},
+														pos: position{line: 2978, col: 8, offset: 94039},
 														expr: &anyMatcher{
-															line: 2977, col: 9, offset: 94013,
+															line: 2978, col: 9, offset: 94040,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2816, col: 14, offset: 89686},
+																				pos: position{line: 2817, col: 14, offset: 89713},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2816, col: 14, offset: 89686},
+																					pos: position{line: 2817, col: 14, offset: 89713},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2816, col: 14, offset: 89686},
+																						pos:        position{line: 2817, col: 14, offset: 89713},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2848, col: 5, offset: 90479},
+																				pos: position{line: 2849, col: 5, offset: 90506},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2849, col: 9, offset: 90489},
+																					pos: position{line: 2850, col: 9, offset: 90516},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90490},
+																							pos:        position{line: 2850, col: 10, offset: 90517},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2851, col: 13, offset: 90587},
+																							pos: position{line: 2852, col: 13, offset: 90614},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2851, col: 13, offset: 90587},
+																									pos: position{line: 2852, col: 13, offset: 90614},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2854, col: 13, offset: 90687},
+																									pos:        position{line: 2855, col: 13, offset: 90714},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2854, col: 19, offset: 90693},
+																							pos:        position{line: 2855, col: 19, offset: 90720},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2857, col: 13, offset: 90731},
+																							pos: position{line: 2858, col: 13, offset: 90758},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2857, col: 13, offset: 90731},
+																									pos: position{line: 2858, col: 13, offset: 90758},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2860, col: 14, offset: 90824},
+																									pos:        position{line: 2861, col: 14, offset: 90851},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2862, col: 12, offset: 90868},
+																							pos: position{line: 2863, col: 12, offset: 90895},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2862, col: 12, offset: 90868},
+																									pos:        position{line: 2863, col: 12, offset: 90895},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2862, col: 16, offset: 90872},
+																									pos: position{line: 2863, col: 16, offset: 90899},
 																									expr: &litMatcher{
-																										pos:        position{line: 2862, col: 17, offset: 90873},
+																										pos:        position{line: 2863, col: 17, offset: 90900},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 91133},
+																				pos: position{line: 2871, col: 12, offset: 91160},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 12, offset: 91133},
+																					pos:        position{line: 2871, col: 12, offset: 91160},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2958, col: 10, offset: 93664},
+													pos: position{line: 2959, col: 10, offset: 93691},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2958, col: 10, offset: 93664},
+														pos:        position{line: 2959, col: 10, offset: 93691},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2980, col: 8, offset: 94062},
+												pos: position{line: 2981, col: 8, offset: 94089},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2967, col: 12, offset: 93835},
+														pos: position{line: 2968, col: 12, offset: 93862},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2967, col: 13, offset: 93836},
+															pos: position{line: 2968, col: 13, offset: 93863},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2967, col: 13, offset: 93836},
+																	pos:        position{line: 2968, col: 13, offset: 93863},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 20, offset: 93843},
+																	pos:        position{line: 2968, col: 20, offset: 93870},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 29, offset: 93852},
+																	pos:        position{line: 2968, col: 29, offset: 93879},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2977, col: 8, offset: 94012},
+														pos: position{line: 2978, col: 8, offset: 94039},
 														expr: &anyMatcher{
-															line: 2977, col: 9, offset: 94013,
+															line: 2978, col: 9, offset: 94040,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2958, col: 10, offset: 93664},
+													pos: position{line: 2959, col: 10, offset: 93691},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2958, col: 10, offset: 93664},
+														pos:        position{line: 2959, col: 10, offset: 93691},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2980, col: 8, offset: 94062},
+												pos: position{line: 2981, col: 8, offset: 94089},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2967, col: 12, offset: 93835},
+														pos: position{line: 2968, col: 12, offset: 93862},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2967, col: 13, offset: 93836},
+															pos: position{line: 2968, col: 13, offset: 93863},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2967, col: 13, offset: 93836},
+																	pos:        position{line: 2968, col: 13, offset: 93863},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 20, offset: 93843},
+																	pos:        position{line: 2968, col: 20, offset: 93870},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 29, offset: 93852},
+																	pos:        position{line: 2968, col: 29, offset: 93879},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2977, col: 8, offset: 94012},
+														pos: position{line: 2978, col: 8, offset: 94039},
 														expr: &anyMatcher{
-															line: 2977, col: 9, offset: 94013,
+															line: 2978, col: 9, offset: 94040,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2958, col: 10, offset: 93664},
+											pos: position{line: 2959, col: 10, offset: 93691},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 10, offset: 93664},
+												pos:        position{line: 2959, col: 10, offset: 93691},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2958, col: 10, offset: 93664},
+													pos: position{line: 2959, col: 10, offset: 93691},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2958, col: 10, offset: 93664},
+														pos:        position{line: 2959, col: 10, offset: 93691},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2958, col: 10, offset: 93664},
+												pos: position{line: 2959, col: 10, offset: 93691},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2958, col: 10, offset: 93664},
+													pos:        position{line: 2959, col: 10, offset: 93691},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2958, col: 10, offset: 93664},
+											pos: position{line: 2959, col: 10, offset: 93691},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 10, offset: 93664},
+												pos:        position{line: 2959, col: 10, offset: 93691},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2958, col: 10, offset: 93664},
+												pos: position{line: 2959, col: 10, offset: 93691},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2958, col: 10, offset: 93664},
+													pos:        position{line: 2959, col: 10, offset: 93691},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89686},
+									pos: position{line: 2817, col: 14, offset: 89713},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89686},
+										pos: position{line: 2817, col: 14, offset: 89713},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89686},
+											pos:        position{line: 2817, col: 14, offset: 89713},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2958, col: 10, offset: 93664},
+									pos: position{line: 2959, col: 10, offset: 93691},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2958, col: 10, offset: 93664},
+										pos:        position{line: 2959, col: 10, offset: 93691},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2958, col: 10, offset: 93664},
+												pos: position{line: 2959, col: 10, offset: 93691},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2958, col: 10, offset: 93664},
+													pos:        position{line: 2959, col: 10, offset: 93691},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89686},
+									pos: position{line: 2817, col: 14, offset: 89713},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89686},
+										pos: position{line: 2817, col: 14, offset: 89713},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89686},
+											pos:        position{line: 2817, col: 14, offset: 89713},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2958, col: 10, offset: 93664},
+									pos: position{line: 2959, col: 10, offset: 93691},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2958, col: 10, offset: 93664},
+										pos:        position{line: 2959, col: 10, offset: 93691},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2958, col: 10, offset: 93664},
+											pos: position{line: 2959, col: 10, offset: 93691},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 10, offset: 93664},
+												pos:        position{line: 2959, col: 10, offset: 93691},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2943, col: 7, offset: 93316},
+										pos: position{line: 2944, col: 7, offset: 93343},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2943, col: 7, offset: 93316},
+											pos: position{line: 2944, col: 7, offset: 93343},
 											expr: &charClassMatcher{
-												pos:        position{line: 2943, col: 7, offset: 93316},
+												pos:        position{line: 2944, col: 7, offset: 93343},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2958, col: 10, offset: 93664},
+										pos: position{line: 2959, col: 10, offset: 93691},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2958, col: 10, offset: 93664},
+											pos:        position{line: 2959, col: 10, offset: 93691},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2943, col: 7, offset: 93316},
+										pos: position{line: 2944, col: 7, offset: 93343},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2943, col: 7, offset: 93316},
+											pos: position{line: 2944, col: 7, offset: 93343},
 											expr: &charClassMatcher{
-												pos:        position{line: 2943, col: 7, offset: 93316},
+												pos:        position{line: 2944, col: 7, offset: 93343},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2885, col: 17, offset: 91488},
+								pos: position{line: 2886, col: 17, offset: 91515},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2885, col: 17, offset: 91488},
+									pos:   position{line: 2886, col: 17, offset: 91515},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2906, col: 5, offset: 92073},
+										pos: position{line: 2907, col: 5, offset: 92100},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2906, col: 5, offset: 92073},
+											pos:   position{line: 2907, col: 5, offset: 92100},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2906, col: 14, offset: 92082},
+												pos: position{line: 2907, col: 14, offset: 92109},
 												expr: &choiceExpr{
-													pos: position{line: 2907, col: 9, offset: 92092},
+													pos: position{line: 2908, col: 9, offset: 92119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2907, col: 9, offset: 92092},
+															pos: position{line: 2908, col: 9, offset: 92119},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2907, col: 9, offset: 92092},
+																pos: position{line: 2908, col: 9, offset: 92119},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2907, col: 9, offset: 92092},
+																		pos: position{line: 2908, col: 9, offset: 92119},
 																		expr: &litMatcher{
-																			pos:        position{line: 2907, col: 10, offset: 92093},
+																			pos:        position{line: 2908, col: 10, offset: 92120},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2908, col: 9, offset: 92121},
+																		pos: position{line: 2909, col: 9, offset: 92148},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2908, col: 10, offset: 92122},
+																			pos:        position{line: 2909, col: 10, offset: 92149},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2911, col: 11, offset: 92334},
+															pos: position{line: 2912, col: 11, offset: 92361},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2911, col: 11, offset: 92334},
+																	pos:        position{line: 2912, col: 11, offset: 92361},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2911, col: 19, offset: 92342},
+																	pos: position{line: 2912, col: 19, offset: 92369},
 																	expr: &seqExpr{
-																		pos: position{line: 2911, col: 21, offset: 92344},
+																		pos: position{line: 2912, col: 21, offset: 92371},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2911, col: 21, offset: 92344},
+																				pos: position{line: 2912, col: 21, offset: 92371},
 																				expr: &actionExpr{
-																					pos: position{line: 2958, col: 10, offset: 93664},
+																					pos: position{line: 2959, col: 10, offset: 93691},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2958, col: 10, offset: 93664},
+																						pos:        position{line: 2959, col: 10, offset: 93691},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 28, offset: 92351},
+																				pos: position{line: 2912, col: 28, offset: 92378},
 																				expr: &notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2914, col: 11, offset: 92471},
+															pos: position{line: 2915, col: 11, offset: 92498},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2914, col: 11, offset: 92471},
+																pos:        position{line: 2915, col: 11, offset: 92498},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 14, offset: 91418},
+								pos: position{line: 2882, col: 14, offset: 91445},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2881, col: 14, offset: 91418},
+									pos: position{line: 2882, col: 14, offset: 91445},
 									expr: &charClassMatcher{
-										pos:        position{line: 2881, col: 14, offset: 91418},
+										pos:        position{line: 2882, col: 14, offset: 91445},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81307},
+										pos: position{line: 2526, col: 22, offset: 81334},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81528},
+													pos:        position{line: 2531, col: 31, offset: 81555},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81533},
+													pos: position{line: 2531, col: 36, offset: 81560},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81534},
+														pos:        position{line: 2531, col: 37, offset: 81561},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81334},
+													pos:   position{line: 2526, col: 49, offset: 81361},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 13, offset: 91351},
+														pos: position{line: 2878, col: 13, offset: 91378},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 13, offset: 91351},
+																pos:        position{line: 2878, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81307},
+										pos: position{line: 2526, col: 22, offset: 81334},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81528},
+													pos:        position{line: 2531, col: 31, offset: 81555},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81533},
+													pos: position{line: 2531, col: 36, offset: 81560},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81534},
+														pos:        position{line: 2531, col: 37, offset: 81561},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81334},
+													pos:   position{line: 2526, col: 49, offset: 81361},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 13, offset: 91351},
+														pos: position{line: 2878, col: 13, offset: 91378},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 13, offset: 91351},
+																pos:        position{line: 2878, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2975, col: 11, offset: 93998},
+																										pos: position{line: 2976, col: 11, offset: 94025},
 																										expr: &anyMatcher{
-																											line: 2975, col: 13, offset: 94000,
+																											line: 2976, col: 13, offset: 94027,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81307},
+															pos: position{line: 2526, col: 22, offset: 81334},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81307},
+																pos: position{line: 2526, col: 22, offset: 81334},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81528},
+																		pos:        position{line: 2531, col: 31, offset: 81555},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81533},
+																		pos: position{line: 2531, col: 36, offset: 81560},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81534},
+																			pos:        position{line: 2531, col: 37, offset: 81561},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81334},
+																		pos:   position{line: 2526, col: 49, offset: 81361},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 13, offset: 91351},
+																			pos: position{line: 2878, col: 13, offset: 91378},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2877, col: 13, offset: 91351},
+																				pos: position{line: 2878, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 91351},
+																					pos:        position{line: 2878, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2958, col: 10, offset: 93664},
+																																	pos: position{line: 2959, col: 10, offset: 93691},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2958, col: 10, offset: 93664},
+																																		pos:        position{line: 2959, col: 10, offset: 93691},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2980, col: 8, offset: 94062},
+																																pos: position{line: 2981, col: 8, offset: 94089},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2967, col: 12, offset: 93835},
+																																		pos: position{line: 2968, col: 12, offset: 93862},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2967, col: 13, offset: 93836},
+																																			pos: position{line: 2968, col: 13, offset: 93863},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 13, offset: 93836},
+																																					pos:        position{line: 2968, col: 13, offset: 93863},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 20, offset: 93843},
+																																					pos:        position{line: 2968, col: 20, offset: 93870},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 29, offset: 93852},
+																																					pos:        position{line: 2968, col: 29, offset: 93879},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2977, col: 8, offset: 94012},
+																																		pos: position{line: 2978, col: 8, offset: 94039},
 																																		expr: &anyMatcher{
-																																			line: 2977, col: 9, offset: 94013,
+																																			line: 2978, col: 9, offset: 94040,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2975, col: 11, offset: 93998},
+																											pos: position{line: 2976, col: 11, offset: 94025},
 																											expr: &anyMatcher{
-																												line: 2975, col: 13, offset: 94000,
+																												line: 2976, col: 13, offset: 94027,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 13, offset: 91351},
+																												pos: position{line: 2878, col: 13, offset: 91378},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2877, col: 13, offset: 91351},
+																													pos: position{line: 2878, col: 13, offset: 91378},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 91351},
+																														pos:        position{line: 2878, col: 13, offset: 91378},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2958, col: 10, offset: 93664},
+															pos: position{line: 2959, col: 10, offset: 93691},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 10, offset: 93664},
+																pos:        position{line: 2959, col: 10, offset: 93691},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2525, col: 22, offset: 81307},
+												pos: position{line: 2526, col: 22, offset: 81334},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2530, col: 31, offset: 81528},
+														pos:        position{line: 2531, col: 31, offset: 81555},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2530, col: 36, offset: 81533},
+														pos: position{line: 2531, col: 36, offset: 81560},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 37, offset: 81534},
+															pos:        position{line: 2531, col: 37, offset: 81561},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2525, col: 49, offset: 81334},
+														pos:   position{line: 2526, col: 49, offset: 81361},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2877, col: 13, offset: 91351},
+																pos: position{line: 2878, col: 13, offset: 91378},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 91351},
+																	pos:        position{line: 2878, col: 13, offset: 91378},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2958, col: 10, offset: 93664},
+																													pos: position{line: 2959, col: 10, offset: 93691},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2958, col: 10, offset: 93664},
+																														pos:        position{line: 2959, col: 10, offset: 93691},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2980, col: 8, offset: 94062},
+																												pos: position{line: 2981, col: 8, offset: 94089},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2967, col: 12, offset: 93835},
+																														pos: position{line: 2968, col: 12, offset: 93862},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2967, col: 13, offset: 93836},
+																															pos: position{line: 2968, col: 13, offset: 93863},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 13, offset: 93836},
+																																	pos:        position{line: 2968, col: 13, offset: 93863},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 20, offset: 93843},
+																																	pos:        position{line: 2968, col: 20, offset: 93870},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2967, col: 29, offset: 93852},
+																																	pos:        position{line: 2968, col: 29, offset: 93879},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2977, col: 8, offset: 94012},
+																														pos: position{line: 2978, col: 8, offset: 94039},
 																														expr: &anyMatcher{
-																															line: 2977, col: 9, offset: 94013,
+																															line: 2978, col: 9, offset: 94040,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2877, col: 13, offset: 91351},
+																									pos: position{line: 2878, col: 13, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 91351},
+																										pos:        position{line: 2878, col: 13, offset: 91378},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2962, col: 11, offset: 93725},
+							pos: position{line: 2963, col: 11, offset: 93752},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2962, col: 11, offset: 93725},
+								pos: position{line: 2963, col: 11, offset: 93752},
 								expr: &charClassMatcher{
-									pos:        position{line: 2962, col: 11, offset: 93725},
+									pos:        position{line: 2963, col: 11, offset: 93752},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2943, col: 7, offset: 93316},
+								pos: position{line: 2944, col: 7, offset: 93343},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2943, col: 7, offset: 93316},
+									pos: position{line: 2944, col: 7, offset: 93343},
 									expr: &charClassMatcher{
-										pos:        position{line: 2943, col: 7, offset: 93316},
+										pos:        position{line: 2944, col: 7, offset: 93343},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2816, col: 14, offset: 89686},
+									pos: position{line: 2817, col: 14, offset: 89713},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2816, col: 14, offset: 89686},
+										pos: position{line: 2817, col: 14, offset: 89713},
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 14, offset: 89686},
+											pos:        position{line: 2817, col: 14, offset: 89713},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2958, col: 10, offset: 93664},
+									pos: position{line: 2959, col: 10, offset: 93691},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2958, col: 10, offset: 93664},
+										pos:        position{line: 2959, col: 10, offset: 93691},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2512, col: 5, offset: 80853},
+									pos: position{line: 2513, col: 5, offset: 80880},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2512, col: 5, offset: 80853},
+										pos: position{line: 2513, col: 5, offset: 80880},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2512, col: 5, offset: 80853},
+												pos: position{line: 2513, col: 5, offset: 80880},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2515, col: 5, offset: 80929},
+												pos:   position{line: 2516, col: 5, offset: 80956},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2516, col: 9, offset: 80947},
+													pos: position{line: 2517, col: 9, offset: 80974},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2516, col: 10, offset: 80948},
+														pos:        position{line: 2517, col: 10, offset: 80975},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 13, offset: 91584},
+								pos: position{line: 2890, col: 13, offset: 91611},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2889, col: 13, offset: 91584},
+									pos: position{line: 2890, col: 13, offset: 91611},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2889, col: 13, offset: 91584},
+											pos:   position{line: 2890, col: 13, offset: 91611},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2889, col: 20, offset: 91591},
+												pos: position{line: 2890, col: 20, offset: 91618},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 11, offset: 91961},
+													pos: position{line: 2902, col: 11, offset: 91988},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 12, offset: 91962},
+														pos: position{line: 2902, col: 12, offset: 91989},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 12, offset: 91962},
+																pos:        position{line: 2902, col: 12, offset: 91989},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 24, offset: 91974},
+																pos:        position{line: 2902, col: 24, offset: 92001},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 37, offset: 91987},
+																pos:        position{line: 2902, col: 37, offset: 92014},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 48, offset: 91998},
+																pos:        position{line: 2902, col: 48, offset: 92025},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 59, offset: 92009},
+																pos:        position{line: 2902, col: 59, offset: 92036},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2889, col: 30, offset: 91601},
+											pos:   position{line: 2890, col: 30, offset: 91628},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 5, offset: 92073},
+												pos: position{line: 2907, col: 5, offset: 92100},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2906, col: 5, offset: 92073},
+													pos:   position{line: 2907, col: 5, offset: 92100},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 14, offset: 92082},
+														pos: position{line: 2907, col: 14, offset: 92109},
 														expr: &choiceExpr{
-															pos: position{line: 2907, col: 9, offset: 92092},
+															pos: position{line: 2908, col: 9, offset: 92119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2907, col: 9, offset: 92092},
+																		pos: position{line: 2908, col: 9, offset: 92119},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				expr: &litMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92093},
+																					pos:        position{line: 2908, col: 10, offset: 92120},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2908, col: 9, offset: 92121},
+																				pos: position{line: 2909, col: 9, offset: 92148},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92122},
+																					pos:        position{line: 2909, col: 10, offset: 92149},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2911, col: 11, offset: 92334},
+																	pos: position{line: 2912, col: 11, offset: 92361},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2911, col: 11, offset: 92334},
+																			pos:        position{line: 2912, col: 11, offset: 92361},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2911, col: 19, offset: 92342},
+																			pos: position{line: 2912, col: 19, offset: 92369},
 																			expr: &seqExpr{
-																				pos: position{line: 2911, col: 21, offset: 92344},
+																				pos: position{line: 2912, col: 21, offset: 92371},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 28, offset: 92351},
+																						pos: position{line: 2912, col: 28, offset: 92378},
 																						expr: &notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 92471},
+																	pos: position{line: 2915, col: 11, offset: 92498},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 11, offset: 92471},
+																		pos:        position{line: 2915, col: 11, offset: 92498},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 13, offset: 91584},
+								pos: position{line: 2890, col: 13, offset: 91611},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2889, col: 13, offset: 91584},
+									pos: position{line: 2890, col: 13, offset: 91611},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2889, col: 13, offset: 91584},
+											pos:   position{line: 2890, col: 13, offset: 91611},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2889, col: 20, offset: 91591},
+												pos: position{line: 2890, col: 20, offset: 91618},
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 11, offset: 91961},
+													pos: position{line: 2902, col: 11, offset: 91988},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 12, offset: 91962},
+														pos: position{line: 2902, col: 12, offset: 91989},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 12, offset: 91962},
+																pos:        position{line: 2902, col: 12, offset: 91989},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 24, offset: 91974},
+																pos:        position{line: 2902, col: 24, offset: 92001},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 37, offset: 91987},
+																pos:        position{line: 2902, col: 37, offset: 92014},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 48, offset: 91998},
+																pos:        position{line: 2902, col: 48, offset: 92025},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 59, offset: 92009},
+																pos:        position{line: 2902, col: 59, offset: 92036},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2889, col: 30, offset: 91601},
+											pos:   position{line: 2890, col: 30, offset: 91628},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 5, offset: 92073},
+												pos: position{line: 2907, col: 5, offset: 92100},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2906, col: 5, offset: 92073},
+													pos:   position{line: 2907, col: 5, offset: 92100},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2906, col: 14, offset: 92082},
+														pos: position{line: 2907, col: 14, offset: 92109},
 														expr: &choiceExpr{
-															pos: position{line: 2907, col: 9, offset: 92092},
+															pos: position{line: 2908, col: 9, offset: 92119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2907, col: 9, offset: 92092},
+																		pos: position{line: 2908, col: 9, offset: 92119},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				expr: &litMatcher{
-																					pos:        position{line: 2907, col: 10, offset: 92093},
+																					pos:        position{line: 2908, col: 10, offset: 92120},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2908, col: 9, offset: 92121},
+																				pos: position{line: 2909, col: 9, offset: 92148},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92122},
+																					pos:        position{line: 2909, col: 10, offset: 92149},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2911, col: 11, offset: 92334},
+																	pos: position{line: 2912, col: 11, offset: 92361},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2911, col: 11, offset: 92334},
+																			pos:        position{line: 2912, col: 11, offset: 92361},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2911, col: 19, offset: 92342},
+																			pos: position{line: 2912, col: 19, offset: 92369},
 																			expr: &seqExpr{
-																				pos: position{line: 2911, col: 21, offset: 92344},
+																				pos: position{line: 2912, col: 21, offset: 92371},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 28, offset: 92351},
+																						pos: position{line: 2912, col: 28, offset: 92378},
 																						expr: &notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 11, offset: 92471},
+																	pos: position{line: 2915, col: 11, offset: 92498},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2914, col: 11, offset: 92471},
+																		pos:        position{line: 2915, col: 11, offset: 92498},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89759},
+										pos: position{line: 2822, col: 5, offset: 89786},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89759},
+											pos: position{line: 2822, col: 5, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2821, col: 5, offset: 89759},
+													pos: position{line: 2822, col: 5, offset: 89786},
 													expr: &seqExpr{
-														pos: position{line: 2822, col: 9, offset: 89770},
+														pos: position{line: 2823, col: 9, offset: 89797},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89770},
+																pos: position{line: 2823, col: 9, offset: 89797},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2825, col: 9, offset: 89833},
+																pos:   position{line: 2826, col: 9, offset: 89860},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2797, col: 18, offset: 89145},
+																	pos: position{line: 2798, col: 18, offset: 89172},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2797, col: 19, offset: 89146},
+																		pos: position{line: 2798, col: 19, offset: 89173},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2797, col: 19, offset: 89146},
+																			pos:        position{line: 2798, col: 19, offset: 89173},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2825, col: 30, offset: 89854},
+																pos:        position{line: 2826, col: 30, offset: 89881},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89941},
+																pos: position{line: 2827, col: 9, offset: 89968},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 5, offset: 90053},
+													pos:   position{line: 2831, col: 5, offset: 90080},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 90059},
+														pos: position{line: 2831, col: 11, offset: 90086},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2830, col: 11, offset: 90059},
+															pos: position{line: 2831, col: 11, offset: 90086},
 															expr: &charClassMatcher{
-																pos:        position{line: 2830, col: 11, offset: 90059},
+																pos:        position{line: 2831, col: 11, offset: 90086},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2833, col: 5, offset: 90117},
+													pos: position{line: 2834, col: 5, offset: 90144},
 													expr: &seqExpr{
-														pos: position{line: 2834, col: 9, offset: 90128},
+														pos: position{line: 2835, col: 9, offset: 90155},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2834, col: 9, offset: 90128},
+																pos:        position{line: 2835, col: 9, offset: 90155},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2835, col: 9, offset: 90177},
+																pos: position{line: 2836, col: 9, offset: 90204},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2839, col: 5, offset: 90257},
+													pos: position{line: 2840, col: 5, offset: 90284},
 													expr: &seqExpr{
-														pos: position{line: 2840, col: 9, offset: 90268},
+														pos: position{line: 2841, col: 9, offset: 90295},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2840, col: 9, offset: 90268},
+																pos: position{line: 2841, col: 9, offset: 90295},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2840, col: 9, offset: 90268},
+																	pos:        position{line: 2841, col: 9, offset: 90295},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 23, offset: 90282},
+																pos:        position{line: 2841, col: 23, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2840, col: 27, offset: 90286},
+																pos:        position{line: 2841, col: 27, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2962, col: 11, offset: 93725},
+										pos: position{line: 2963, col: 11, offset: 93752},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2962, col: 11, offset: 93725},
+											pos: position{line: 2963, col: 11, offset: 93752},
 											expr: &charClassMatcher{
-												pos:        position{line: 2962, col: 11, offset: 93725},
+												pos:        position{line: 2963, col: 11, offset: 93752},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 82024},
+										pos: position{line: 2544, col: 5, offset: 82051},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 82024},
+											pos: position{line: 2544, col: 5, offset: 82051},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2543, col: 5, offset: 82024},
+													pos: position{line: 2544, col: 5, offset: 82051},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2546, col: 5, offset: 82095},
+													pos:        position{line: 2547, col: 5, offset: 82122},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2546, col: 10, offset: 82100},
+													pos: position{line: 2547, col: 10, offset: 82127},
 													expr: &charClassMatcher{
-														pos:        position{line: 2546, col: 11, offset: 82101},
+														pos:        position{line: 2547, col: 11, offset: 82128},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2552, col: 5, offset: 82287},
+										pos: position{line: 2553, col: 5, offset: 82314},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2552, col: 5, offset: 82287},
+											pos: position{line: 2553, col: 5, offset: 82314},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82287},
+													pos: position{line: 2553, col: 5, offset: 82314},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2555, col: 5, offset: 82358},
+													pos: position{line: 2556, col: 5, offset: 82385},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2559, col: 5, offset: 82483},
+													pos:        position{line: 2560, col: 5, offset: 82510},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2559, col: 9, offset: 82487},
+													pos: position{line: 2560, col: 9, offset: 82514},
 													expr: &charClassMatcher{
-														pos:        position{line: 2559, col: 10, offset: 82488},
+														pos:        position{line: 2560, col: 10, offset: 82515},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90479},
+										pos: position{line: 2849, col: 5, offset: 90506},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2849, col: 9, offset: 90489},
+											pos: position{line: 2850, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 10, offset: 90490},
+													pos:        position{line: 2850, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2851, col: 13, offset: 90587},
+													pos: position{line: 2852, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2851, col: 13, offset: 90587},
+															pos: position{line: 2852, col: 13, offset: 90614},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2854, col: 13, offset: 90687},
+															pos:        position{line: 2855, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2854, col: 19, offset: 90693},
+													pos:        position{line: 2855, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2857, col: 13, offset: 90731},
+													pos: position{line: 2858, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2857, col: 13, offset: 90731},
+															pos: position{line: 2858, col: 13, offset: 90758},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2860, col: 14, offset: 90824},
+															pos:        position{line: 2861, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 12, offset: 90868},
+													pos: position{line: 2863, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2862, col: 12, offset: 90868},
+															pos:        position{line: 2863, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2862, col: 16, offset: 90872},
+															pos: position{line: 2863, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2862, col: 17, offset: 90873},
+																pos:        position{line: 2863, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80853},
+										pos: position{line: 2513, col: 5, offset: 80880},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80853},
+													pos: position{line: 2513, col: 5, offset: 80880},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80929},
+													pos:   position{line: 2516, col: 5, offset: 80956},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80947},
+														pos: position{line: 2517, col: 9, offset: 80974},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80948},
+															pos:        position{line: 2517, col: 10, offset: 80975},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 12, offset: 93835},
+										pos: position{line: 2968, col: 12, offset: 93862},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2967, col: 13, offset: 93836},
+											pos: position{line: 2968, col: 13, offset: 93863},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2967, col: 13, offset: 93836},
+													pos:        position{line: 2968, col: 13, offset: 93863},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 20, offset: 93843},
+													pos:        position{line: 2968, col: 20, offset: 93870},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 29, offset: 93852},
+													pos:        position{line: 2968, col: 29, offset: 93879},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 91133},
+										pos: position{line: 2871, col: 12, offset: 91160},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 12, offset: 91133},
+											pos:        position{line: 2871, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22368,55 +22368,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 23, offset: 91711},
+										pos: position{line: 2894, col: 23, offset: 91738},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2893, col: 23, offset: 91711},
+											pos: position{line: 2894, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2893, col: 23, offset: 91711},
+													pos: position{line: 2894, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2893, col: 24, offset: 91712},
+														pos:        position{line: 2894, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 28, offset: 91716},
+													pos:   position{line: 2894, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91961},
+														pos: position{line: 2902, col: 11, offset: 91988},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91962},
+															pos: position{line: 2902, col: 12, offset: 91989},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91962},
+																	pos:        position{line: 2902, col: 12, offset: 91989},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91974},
+																	pos:        position{line: 2902, col: 24, offset: 92001},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91987},
+																	pos:        position{line: 2902, col: 37, offset: 92014},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 91998},
+																	pos:        position{line: 2902, col: 48, offset: 92025},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92009},
+																	pos:        position{line: 2902, col: 59, offset: 92036},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 44, offset: 91732},
+													pos:   position{line: 2894, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -22896,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23101,48 +23101,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2889, col: 13, offset: 91584},
+										pos: position{line: 2890, col: 13, offset: 91611},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2889, col: 13, offset: 91584},
+											pos: position{line: 2890, col: 13, offset: 91611},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2889, col: 13, offset: 91584},
+													pos:   position{line: 2890, col: 13, offset: 91611},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2889, col: 20, offset: 91591},
+														pos: position{line: 2890, col: 20, offset: 91618},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91961},
+															pos: position{line: 2902, col: 11, offset: 91988},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 12, offset: 91962},
+																pos: position{line: 2902, col: 12, offset: 91989},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 12, offset: 91962},
+																		pos:        position{line: 2902, col: 12, offset: 91989},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 24, offset: 91974},
+																		pos:        position{line: 2902, col: 24, offset: 92001},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 37, offset: 91987},
+																		pos:        position{line: 2902, col: 37, offset: 92014},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 48, offset: 91998},
+																		pos:        position{line: 2902, col: 48, offset: 92025},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 59, offset: 92009},
+																		pos:        position{line: 2902, col: 59, offset: 92036},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2889, col: 30, offset: 91601},
+													pos:   position{line: 2890, col: 30, offset: 91628},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -23623,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23669,48 +23669,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2889, col: 13, offset: 91584},
+										pos: position{line: 2890, col: 13, offset: 91611},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2889, col: 13, offset: 91584},
+											pos: position{line: 2890, col: 13, offset: 91611},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2889, col: 13, offset: 91584},
+													pos:   position{line: 2890, col: 13, offset: 91611},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2889, col: 20, offset: 91591},
+														pos: position{line: 2890, col: 20, offset: 91618},
 														expr: &actionExpr{
-															pos: position{line: 2901, col: 11, offset: 91961},
+															pos: position{line: 2902, col: 11, offset: 91988},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 12, offset: 91962},
+																pos: position{line: 2902, col: 12, offset: 91989},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 12, offset: 91962},
+																		pos:        position{line: 2902, col: 12, offset: 91989},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 24, offset: 91974},
+																		pos:        position{line: 2902, col: 24, offset: 92001},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 37, offset: 91987},
+																		pos:        position{line: 2902, col: 37, offset: 92014},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 48, offset: 91998},
+																		pos:        position{line: 2902, col: 48, offset: 92025},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 59, offset: 92009},
+																		pos:        position{line: 2902, col: 59, offset: 92036},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2889, col: 30, offset: 91601},
+													pos:   position{line: 2890, col: 30, offset: 91628},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -24191,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24246,55 +24246,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 23, offset: 91711},
+										pos: position{line: 2894, col: 23, offset: 91738},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2893, col: 23, offset: 91711},
+											pos: position{line: 2894, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2893, col: 23, offset: 91711},
+													pos: position{line: 2894, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2893, col: 24, offset: 91712},
+														pos:        position{line: 2894, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 28, offset: 91716},
+													pos:   position{line: 2894, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91961},
+														pos: position{line: 2902, col: 11, offset: 91988},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91962},
+															pos: position{line: 2902, col: 12, offset: 91989},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91962},
+																	pos:        position{line: 2902, col: 12, offset: 91989},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91974},
+																	pos:        position{line: 2902, col: 24, offset: 92001},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91987},
+																	pos:        position{line: 2902, col: 37, offset: 92014},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 91998},
+																	pos:        position{line: 2902, col: 48, offset: 92025},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92009},
+																	pos:        position{line: 2902, col: 59, offset: 92036},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 44, offset: 91732},
+													pos:   position{line: 2894, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -24774,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24817,55 +24817,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2893, col: 23, offset: 91711},
+										pos: position{line: 2894, col: 23, offset: 91738},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2893, col: 23, offset: 91711},
+											pos: position{line: 2894, col: 23, offset: 91738},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2893, col: 23, offset: 91711},
+													pos: position{line: 2894, col: 23, offset: 91738},
 													expr: &litMatcher{
-														pos:        position{line: 2893, col: 24, offset: 91712},
+														pos:        position{line: 2894, col: 24, offset: 91739},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 28, offset: 91716},
+													pos:   position{line: 2894, col: 28, offset: 91743},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2901, col: 11, offset: 91961},
+														pos: position{line: 2902, col: 11, offset: 91988},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 12, offset: 91962},
+															pos: position{line: 2902, col: 12, offset: 91989},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 12, offset: 91962},
+																	pos:        position{line: 2902, col: 12, offset: 91989},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 24, offset: 91974},
+																	pos:        position{line: 2902, col: 24, offset: 92001},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 37, offset: 91987},
+																	pos:        position{line: 2902, col: 37, offset: 92014},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 48, offset: 91998},
+																	pos:        position{line: 2902, col: 48, offset: 92025},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 59, offset: 92009},
+																	pos:        position{line: 2902, col: 59, offset: 92036},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2893, col: 44, offset: 91732},
+													pos:   position{line: 2894, col: 44, offset: 91759},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 5, offset: 92073},
+														pos: position{line: 2907, col: 5, offset: 92100},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2906, col: 5, offset: 92073},
+															pos:   position{line: 2907, col: 5, offset: 92100},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2906, col: 14, offset: 92082},
+																pos: position{line: 2907, col: 14, offset: 92109},
 																expr: &choiceExpr{
-																	pos: position{line: 2907, col: 9, offset: 92092},
+																	pos: position{line: 2908, col: 9, offset: 92119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 9, offset: 92092},
+																			pos: position{line: 2908, col: 9, offset: 92119},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2907, col: 9, offset: 92092},
+																				pos: position{line: 2908, col: 9, offset: 92119},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2907, col: 9, offset: 92092},
+																						pos: position{line: 2908, col: 9, offset: 92119},
 																						expr: &litMatcher{
-																							pos:        position{line: 2907, col: 10, offset: 92093},
+																							pos:        position{line: 2908, col: 10, offset: 92120},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2908, col: 9, offset: 92121},
+																						pos: position{line: 2909, col: 9, offset: 92148},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92122},
+																							pos:        position{line: 2909, col: 10, offset: 92149},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2911, col: 11, offset: 92334},
+																			pos: position{line: 2912, col: 11, offset: 92361},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2911, col: 11, offset: 92334},
+																					pos:        position{line: 2912, col: 11, offset: 92361},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2911, col: 19, offset: 92342},
+																					pos: position{line: 2912, col: 19, offset: 92369},
 																					expr: &seqExpr{
-																						pos: position{line: 2911, col: 21, offset: 92344},
+																						pos: position{line: 2912, col: 21, offset: 92371},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2911, col: 21, offset: 92344},
+																								pos: position{line: 2912, col: 21, offset: 92371},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 28, offset: 92351},
+																								pos: position{line: 2912, col: 28, offset: 92378},
 																								expr: &notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -25345,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2914, col: 11, offset: 92471},
+																			pos: position{line: 2915, col: 11, offset: 92498},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2914, col: 11, offset: 92471},
+																				pos:        position{line: 2915, col: 11, offset: 92498},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25382,55 +25382,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 27, offset: 91846},
+								pos: position{line: 2898, col: 27, offset: 91873},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2897, col: 27, offset: 91846},
+									pos: position{line: 2898, col: 27, offset: 91873},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2897, col: 27, offset: 91846},
+											pos: position{line: 2898, col: 27, offset: 91873},
 											expr: &litMatcher{
-												pos:        position{line: 2897, col: 28, offset: 91847},
+												pos:        position{line: 2898, col: 28, offset: 91874},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2897, col: 32, offset: 91851},
+											pos:   position{line: 2898, col: 32, offset: 91878},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2901, col: 11, offset: 91961},
+												pos: position{line: 2902, col: 11, offset: 91988},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2901, col: 12, offset: 91962},
+													pos: position{line: 2902, col: 12, offset: 91989},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2901, col: 12, offset: 91962},
+															pos:        position{line: 2902, col: 12, offset: 91989},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 24, offset: 91974},
+															pos:        position{line: 2902, col: 24, offset: 92001},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 37, offset: 91987},
+															pos:        position{line: 2902, col: 37, offset: 92014},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 48, offset: 91998},
+															pos:        position{line: 2902, col: 48, offset: 92025},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 59, offset: 92009},
+															pos:        position{line: 2902, col: 59, offset: 92036},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2897, col: 48, offset: 91867},
+											pos:   position{line: 2898, col: 48, offset: 91894},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2922, col: 5, offset: 92757},
+												pos: position{line: 2923, col: 5, offset: 92784},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2922, col: 5, offset: 92757},
+													pos:   position{line: 2923, col: 5, offset: 92784},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2922, col: 14, offset: 92766},
+														pos: position{line: 2923, col: 14, offset: 92793},
 														expr: &choiceExpr{
-															pos: position{line: 2923, col: 9, offset: 92776},
+															pos: position{line: 2924, col: 9, offset: 92803},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2923, col: 9, offset: 92776},
+																	pos: position{line: 2924, col: 9, offset: 92803},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2923, col: 9, offset: 92776},
+																		pos: position{line: 2924, col: 9, offset: 92803},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2923, col: 10, offset: 92777},
+																			pos:        position{line: 2924, col: 10, offset: 92804},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2926, col: 11, offset: 92868},
+																	pos: position{line: 2927, col: 11, offset: 92895},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2926, col: 11, offset: 92868},
+																		pos: position{line: 2927, col: 11, offset: 92895},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2926, col: 11, offset: 92868},
+																				pos:        position{line: 2927, col: 11, offset: 92895},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2926, col: 15, offset: 92872},
+																				pos: position{line: 2927, col: 15, offset: 92899},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2926, col: 15, offset: 92872},
+																					pos:        position{line: 2927, col: 15, offset: 92899},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2926, col: 39, offset: 92896},
+																				pos:        position{line: 2927, col: 39, offset: 92923},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 92961},
+																	pos: position{line: 2930, col: 11, offset: 92988},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2929, col: 11, offset: 92961},
+																		pos:        position{line: 2930, col: 11, offset: 92988},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2932, col: 11, offset: 93026},
+																	pos: position{line: 2933, col: 11, offset: 93053},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2932, col: 11, offset: 93026},
+																		pos: position{line: 2933, col: 11, offset: 93053},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2932, col: 11, offset: 93026},
+																				pos: position{line: 2933, col: 11, offset: 93053},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 11, offset: 93026},
+																					pos:        position{line: 2933, col: 11, offset: 93053},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2932, col: 21, offset: 93036},
+																				pos: position{line: 2933, col: 21, offset: 93063},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2932, col: 23, offset: 93038},
+																					pos:        position{line: 2933, col: 23, offset: 93065},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 93179},
+																	pos: position{line: 2938, col: 11, offset: 93206},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2937, col: 11, offset: 93179},
+																		pos:        position{line: 2938, col: 11, offset: 93206},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25979,10 +25979,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26149,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26197,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -26259,10 +26259,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26303,12 +26303,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26380,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2962, col: 11, offset: 93725},
+																			pos: position{line: 2963, col: 11, offset: 93752},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2962, col: 11, offset: 93725},
+																				pos:        position{line: 2963, col: 11, offset: 93752},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26429,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -26519,12 +26519,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26567,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -26664,28 +26664,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,9 +26694,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -26759,10 +26759,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,9 +26801,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -26817,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -26888,12 +26888,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2962, col: 11, offset: 93725},
+																			pos: position{line: 2963, col: 11, offset: 93752},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2962, col: 11, offset: 93725},
+																				pos: position{line: 2963, col: 11, offset: 93752},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2962, col: 11, offset: 93725},
+																					pos:        position{line: 2963, col: 11, offset: 93752},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26920,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -27010,9 +27010,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&labeledExpr{
@@ -27036,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2975, col: 11, offset: 93998},
+																	pos: position{line: 2976, col: 11, offset: 94025},
 																	expr: &anyMatcher{
-																		line: 2975, col: 13, offset: 94000,
+																		line: 2976, col: 13, offset: 94027,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -27121,10 +27121,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27291,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27339,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -27401,10 +27401,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27445,12 +27445,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27522,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2962, col: 11, offset: 93725},
+																									pos: position{line: 2963, col: 11, offset: 93752},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2962, col: 11, offset: 93725},
+																										pos:        position{line: 2963, col: 11, offset: 93752},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27571,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -27661,12 +27661,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27709,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -27806,28 +27806,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,9 +27836,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -27901,10 +27901,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,9 +27943,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2975, col: 11, offset: 93998},
+																													pos: position{line: 2976, col: 11, offset: 94025},
 																													expr: &anyMatcher{
-																														line: 2975, col: 13, offset: 94000,
+																														line: 2976, col: 13, offset: 94027,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -28030,12 +28030,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2962, col: 11, offset: 93725},
+																									pos: position{line: 2963, col: 11, offset: 93752},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2962, col: 11, offset: 93725},
+																										pos: position{line: 2963, col: 11, offset: 93752},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2962, col: 11, offset: 93725},
+																											pos:        position{line: 2963, col: 11, offset: 93752},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28062,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -28155,10 +28155,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28325,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28373,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -28435,10 +28435,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28479,12 +28479,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28556,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2962, col: 11, offset: 93725},
+																									pos: position{line: 2963, col: 11, offset: 93752},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2962, col: 11, offset: 93725},
+																										pos:        position{line: 2963, col: 11, offset: 93752},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -28695,12 +28695,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28743,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -28840,28 +28840,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,9 +28870,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -28935,10 +28935,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,9 +28977,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -28993,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2975, col: 11, offset: 93998},
+																													pos: position{line: 2976, col: 11, offset: 94025},
 																													expr: &anyMatcher{
-																														line: 2975, col: 13, offset: 94000,
+																														line: 2976, col: 13, offset: 94027,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -29064,12 +29064,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2962, col: 11, offset: 93725},
+																									pos: position{line: 2963, col: 11, offset: 93752},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2962, col: 11, offset: 93725},
+																										pos: position{line: 2963, col: 11, offset: 93752},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2962, col: 11, offset: 93725},
+																											pos:        position{line: 2963, col: 11, offset: 93752},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29096,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -29153,36 +29153,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81307},
+										pos: position{line: 2526, col: 22, offset: 81334},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81528},
+													pos:        position{line: 2531, col: 31, offset: 81555},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81533},
+													pos: position{line: 2531, col: 36, offset: 81560},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81534},
+														pos:        position{line: 2531, col: 37, offset: 81561},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81334},
+													pos:   position{line: 2526, col: 49, offset: 81361},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 13, offset: 91351},
+														pos: position{line: 2878, col: 13, offset: 91378},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 13, offset: 91351},
+																pos:        position{line: 2878, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -29247,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2975, col: 11, offset: 93998},
+																	pos: position{line: 2976, col: 11, offset: 94025},
 																	expr: &anyMatcher{
-																		line: 2975, col: 13, offset: 94000,
+																		line: 2976, col: 13, offset: 94027,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -29322,10 +29322,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29374,10 +29374,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29544,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29572,10 +29572,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29616,12 +29616,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29672,12 +29672,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29738,28 +29738,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,9 +29768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -29817,10 +29817,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -29879,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 13, offset: 89612},
+																				pos:        position{line: 2813, col: 13, offset: 89639},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30018,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30103,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30192,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30281,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30370,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30459,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30548,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30637,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -30718,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -30771,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2660, col: 19, offset: 85064},
+																pos: position{line: 2661, col: 19, offset: 85091},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2660, col: 19, offset: 85064},
+																		pos:        position{line: 2661, col: 19, offset: 85091},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2660, col: 26, offset: 85071},
+																		pos: position{line: 2661, col: 26, offset: 85098},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -30840,12 +30840,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 14, offset: 91418},
+														pos: position{line: 2882, col: 14, offset: 91445},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2881, col: 14, offset: 91418},
+															pos: position{line: 2882, col: 14, offset: 91445},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 14, offset: 91418},
+																pos:        position{line: 2882, col: 14, offset: 91445},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -30922,10 +30922,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2958, col: 10, offset: 93664},
+												pos: position{line: 2959, col: 10, offset: 93691},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2958, col: 10, offset: 93664},
+													pos:        position{line: 2959, col: 10, offset: 93691},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2967, col: 12, offset: 93835},
+											pos: position{line: 2968, col: 12, offset: 93862},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2967, col: 13, offset: 93836},
+												pos: position{line: 2968, col: 13, offset: 93863},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2967, col: 13, offset: 93836},
+														pos:        position{line: 2968, col: 13, offset: 93863},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2967, col: 20, offset: 93843},
+														pos:        position{line: 2968, col: 20, offset: 93870},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2967, col: 29, offset: 93852},
+														pos:        position{line: 2968, col: 29, offset: 93879},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30973,10 +30973,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,9 +31015,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -31042,18 +31042,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31062,28 +31062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31092,9 +31092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -31130,9 +31130,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -31158,10 +31158,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31328,12 +31328,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31376,28 +31376,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31406,9 +31406,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -31438,10 +31438,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31482,12 +31482,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31559,12 +31559,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2962, col: 11, offset: 93725},
+																			pos: position{line: 2963, col: 11, offset: 93752},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2962, col: 11, offset: 93725},
+																				pos:        position{line: 2963, col: 11, offset: 93752},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31608,28 +31608,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31638,9 +31638,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -31698,12 +31698,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31746,28 +31746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31776,9 +31776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -31843,28 +31843,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31873,9 +31873,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -31938,10 +31938,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31950,28 +31950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31980,9 +31980,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -31996,18 +31996,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2975, col: 11, offset: 93998},
+																							pos: position{line: 2976, col: 11, offset: 94025},
 																							expr: &anyMatcher{
-																								line: 2975, col: 13, offset: 94000,
+																								line: 2976, col: 13, offset: 94027,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32016,28 +32016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32046,9 +32046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -32067,12 +32067,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2962, col: 11, offset: 93725},
+																			pos: position{line: 2963, col: 11, offset: 93752},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2962, col: 11, offset: 93725},
+																				pos: position{line: 2963, col: 11, offset: 93752},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2962, col: 11, offset: 93725},
+																					pos:        position{line: 2963, col: 11, offset: 93752},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32099,28 +32099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32129,9 +32129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -32172,18 +32172,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2975, col: 11, offset: 93998},
+													pos: position{line: 2976, col: 11, offset: 94025},
 													expr: &anyMatcher{
-														line: 2975, col: 13, offset: 94000,
+														line: 2976, col: 13, offset: 94027,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32192,28 +32192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32222,9 +32222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -32289,10 +32289,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32301,28 +32301,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32331,9 +32331,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -32394,10 +32394,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32406,28 +32406,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32436,9 +32436,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -32492,10 +32492,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32504,28 +32504,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32534,9 +32534,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -32608,10 +32608,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32620,28 +32620,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32650,9 +32650,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -32668,9 +32668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -32686,21 +32686,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32710,28 +32710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32740,9 +32740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -32804,10 +32804,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32816,28 +32816,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32846,9 +32846,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -32864,9 +32864,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -32921,10 +32921,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32933,28 +32933,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32963,9 +32963,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -33037,10 +33037,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33049,28 +33049,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33079,9 +33079,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -33097,9 +33097,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -33115,21 +33115,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33139,28 +33139,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33169,9 +33169,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -33236,10 +33236,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33248,28 +33248,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33278,9 +33278,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -33296,9 +33296,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -33350,10 +33350,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33362,28 +33362,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33392,9 +33392,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -33428,10 +33428,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33440,28 +33440,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33470,9 +33470,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -33490,21 +33490,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33514,28 +33514,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33544,9 +33544,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -33574,10 +33574,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33586,28 +33586,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33616,9 +33616,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -33675,10 +33675,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33687,28 +33687,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33717,9 +33717,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -33791,10 +33791,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33803,28 +33803,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33833,9 +33833,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -33851,9 +33851,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -33869,21 +33869,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33893,28 +33893,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33923,9 +33923,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -33990,10 +33990,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34002,28 +34002,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34032,9 +34032,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -34050,9 +34050,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -34108,10 +34108,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -34224,10 +34224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34236,28 +34236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34266,9 +34266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -34284,9 +34284,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -34302,21 +34302,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34326,28 +34326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34356,9 +34356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -34423,10 +34423,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34435,28 +34435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34465,9 +34465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -34483,9 +34483,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -34541,10 +34541,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34553,28 +34553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34583,9 +34583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -34657,10 +34657,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34669,28 +34669,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34699,9 +34699,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -34717,9 +34717,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -34735,21 +34735,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34759,28 +34759,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34789,9 +34789,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -34856,10 +34856,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34868,28 +34868,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34898,9 +34898,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -34916,9 +34916,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -34952,18 +34952,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2975, col: 11, offset: 93998},
+																					pos: position{line: 2976, col: 11, offset: 94025},
 																					expr: &anyMatcher{
-																						line: 2975, col: 13, offset: 94000,
+																						line: 2976, col: 13, offset: 94027,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34972,28 +34972,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35002,9 +35002,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -35023,12 +35023,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 14, offset: 91418},
+																		pos: position{line: 2882, col: 14, offset: 91445},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 14, offset: 91418},
+																			pos: position{line: 2882, col: 14, offset: 91445},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 14, offset: 91418},
+																				pos:        position{line: 2882, col: 14, offset: 91445},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35038,28 +35038,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35068,9 +35068,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -35102,18 +35102,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2975, col: 11, offset: 93998},
+																								pos: position{line: 2976, col: 11, offset: 94025},
 																								expr: &anyMatcher{
-																									line: 2975, col: 13, offset: 94000,
+																									line: 2976, col: 13, offset: 94027,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35122,28 +35122,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35152,9 +35152,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -35173,12 +35173,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 14, offset: 91418},
+																					pos: position{line: 2882, col: 14, offset: 91445},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 14, offset: 91418},
+																						pos: position{line: 2882, col: 14, offset: 91445},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 14, offset: 91418},
+																							pos:        position{line: 2882, col: 14, offset: 91445},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35188,28 +35188,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2980, col: 8, offset: 94062},
+																				pos: position{line: 2981, col: 8, offset: 94089},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2967, col: 12, offset: 93835},
+																						pos: position{line: 2968, col: 12, offset: 93862},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2967, col: 13, offset: 93836},
+																							pos: position{line: 2968, col: 13, offset: 93863},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 13, offset: 93836},
+																									pos:        position{line: 2968, col: 13, offset: 93863},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 20, offset: 93843},
+																									pos:        position{line: 2968, col: 20, offset: 93870},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 29, offset: 93852},
+																									pos:        position{line: 2968, col: 29, offset: 93879},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35218,9 +35218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -35238,12 +35238,12 @@ var g = &grammar{
 																				pos:   position{line: 1824, col: 5, offset: 58892},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 14, offset: 91418},
+																					pos: position{line: 2882, col: 14, offset: 91445},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 14, offset: 91418},
+																						pos: position{line: 2882, col: 14, offset: 91445},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 14, offset: 91418},
+																							pos:        position{line: 2882, col: 14, offset: 91445},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35257,28 +35257,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2980, col: 8, offset: 94062},
+																				pos: position{line: 2981, col: 8, offset: 94089},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2967, col: 12, offset: 93835},
+																						pos: position{line: 2968, col: 12, offset: 93862},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2967, col: 13, offset: 93836},
+																							pos: position{line: 2968, col: 13, offset: 93863},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 13, offset: 93836},
+																									pos:        position{line: 2968, col: 13, offset: 93863},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 20, offset: 93843},
+																									pos:        position{line: 2968, col: 20, offset: 93870},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 29, offset: 93852},
+																									pos:        position{line: 2968, col: 29, offset: 93879},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35287,9 +35287,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -35336,10 +35336,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35348,28 +35348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35378,9 +35378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -35428,10 +35428,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35440,28 +35440,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35470,9 +35470,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -35481,9 +35481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -35499,21 +35499,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35523,28 +35523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35553,9 +35553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -35600,10 +35600,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2958, col: 10, offset: 93664},
+																					pos: position{line: 2959, col: 10, offset: 93691},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2958, col: 10, offset: 93664},
+																						pos:        position{line: 2959, col: 10, offset: 93691},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35612,28 +35612,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2980, col: 8, offset: 94062},
+																				pos: position{line: 2981, col: 8, offset: 94089},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2967, col: 12, offset: 93835},
+																						pos: position{line: 2968, col: 12, offset: 93862},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2967, col: 13, offset: 93836},
+																							pos: position{line: 2968, col: 13, offset: 93863},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 13, offset: 93836},
+																									pos:        position{line: 2968, col: 13, offset: 93863},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 20, offset: 93843},
+																									pos:        position{line: 2968, col: 20, offset: 93870},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 29, offset: 93852},
+																									pos:        position{line: 2968, col: 29, offset: 93879},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35642,9 +35642,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -35653,9 +35653,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -35711,10 +35711,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35723,28 +35723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35753,9 +35753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -35827,10 +35827,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35839,28 +35839,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35869,9 +35869,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -35887,9 +35887,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -35905,21 +35905,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35929,28 +35929,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35959,9 +35959,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -36026,10 +36026,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36038,28 +36038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36068,9 +36068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -36086,9 +36086,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -36144,10 +36144,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36156,28 +36156,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36186,9 +36186,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -36260,10 +36260,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -36320,9 +36320,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -36338,21 +36338,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36362,28 +36362,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36392,9 +36392,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -36459,10 +36459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36471,28 +36471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36501,9 +36501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -36519,9 +36519,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -36577,10 +36577,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36589,28 +36589,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36619,9 +36619,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -36693,10 +36693,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2958, col: 10, offset: 93664},
+																												pos: position{line: 2959, col: 10, offset: 93691},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2958, col: 10, offset: 93664},
+																													pos:        position{line: 2959, col: 10, offset: 93691},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36705,28 +36705,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2980, col: 8, offset: 94062},
+																											pos: position{line: 2981, col: 8, offset: 94089},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2967, col: 12, offset: 93835},
+																													pos: position{line: 2968, col: 12, offset: 93862},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2967, col: 13, offset: 93836},
+																														pos: position{line: 2968, col: 13, offset: 93863},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36735,9 +36735,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2977, col: 8, offset: 94012},
+																													pos: position{line: 2978, col: 8, offset: 94039},
 																													expr: &anyMatcher{
-																														line: 2977, col: 9, offset: 94013,
+																														line: 2978, col: 9, offset: 94040,
 																													},
 																												},
 																											},
@@ -36753,9 +36753,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -36771,21 +36771,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2975, col: 11, offset: 93998},
+																						pos: position{line: 2976, col: 11, offset: 94025},
 																						expr: &anyMatcher{
-																							line: 2975, col: 13, offset: 94000,
+																							line: 2976, col: 13, offset: 94027,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 13, offset: 91351},
+																							pos: position{line: 2878, col: 13, offset: 91378},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2877, col: 13, offset: 91351},
+																								pos: position{line: 2878, col: 13, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 91351},
+																									pos:        position{line: 2878, col: 13, offset: 91378},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36795,28 +36795,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36825,9 +36825,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -36892,10 +36892,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36904,28 +36904,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36934,9 +36934,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -36952,9 +36952,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -36965,27 +36965,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2763, col: 18, offset: 87971},
+										pos: position{line: 2764, col: 18, offset: 87998},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2764, col: 9, offset: 87981},
+											pos: position{line: 2765, col: 9, offset: 88008},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2764, col: 9, offset: 87981},
+													pos: position{line: 2765, col: 9, offset: 88008},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2764, col: 9, offset: 87981},
+															pos:        position{line: 2765, col: 9, offset: 88008},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2764, col: 15, offset: 87987},
+															pos: position{line: 2765, col: 15, offset: 88014},
 															expr: &actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36994,28 +36994,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2980, col: 8, offset: 94062},
+															pos: position{line: 2981, col: 8, offset: 94089},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2967, col: 12, offset: 93835},
+																	pos: position{line: 2968, col: 12, offset: 93862},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2967, col: 13, offset: 93836},
+																		pos: position{line: 2968, col: 13, offset: 93863},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 13, offset: 93836},
+																				pos:        position{line: 2968, col: 13, offset: 93863},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 20, offset: 93843},
+																				pos:        position{line: 2968, col: 20, offset: 93870},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 29, offset: 93852},
+																				pos:        position{line: 2968, col: 29, offset: 93879},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37024,9 +37024,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -37034,43 +37034,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2765, col: 11, offset: 88020},
+													pos: position{line: 2766, col: 11, offset: 88047},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2765, col: 12, offset: 88021},
+															pos: position{line: 2766, col: 12, offset: 88048},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2765, col: 12, offset: 88021},
+																	pos:        position{line: 2766, col: 12, offset: 88048},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2765, col: 20, offset: 88029},
+																	pos:        position{line: 2766, col: 20, offset: 88056},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2765, col: 30, offset: 88039},
+																	pos:        position{line: 2766, col: 30, offset: 88066},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2765, col: 38, offset: 88047},
+																	pos:        position{line: 2766, col: 38, offset: 88074},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2765, col: 48, offset: 88057},
+																	pos:        position{line: 2766, col: 48, offset: 88084},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2765, col: 56, offset: 88065},
+																	pos:        position{line: 2766, col: 56, offset: 88092},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37078,12 +37078,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2765, col: 65, offset: 88074},
+															pos: position{line: 2766, col: 65, offset: 88101},
 															expr: &actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37092,28 +37092,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2980, col: 8, offset: 94062},
+															pos: position{line: 2981, col: 8, offset: 94089},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2967, col: 12, offset: 93835},
+																	pos: position{line: 2968, col: 12, offset: 93862},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2967, col: 13, offset: 93836},
+																		pos: position{line: 2968, col: 13, offset: 93863},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 13, offset: 93836},
+																				pos:        position{line: 2968, col: 13, offset: 93863},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 20, offset: 93843},
+																				pos:        position{line: 2968, col: 20, offset: 93870},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 29, offset: 93852},
+																				pos:        position{line: 2968, col: 29, offset: 93879},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37122,38 +37122,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2765, col: 76, offset: 88085},
+															pos: position{line: 2766, col: 76, offset: 88112},
 															expr: &choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37162,9 +37162,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -37184,24 +37184,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2654, col: 5, offset: 84907},
+										pos: position{line: 2655, col: 5, offset: 84934},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2654, col: 5, offset: 84907},
+											pos: position{line: 2655, col: 5, offset: 84934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2660, col: 19, offset: 85064},
+													pos:        position{line: 2661, col: 19, offset: 85091},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2660, col: 26, offset: 85071},
+													pos: position{line: 2661, col: 26, offset: 85098},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37210,28 +37210,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37240,20 +37240,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2655, col: 5, offset: 84931},
+													pos:   position{line: 2656, col: 5, offset: 84958},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2655, col: 11, offset: 84937},
+														pos: position{line: 2656, col: 11, offset: 84964},
 														expr: &choiceExpr{
-															pos: position{line: 2655, col: 12, offset: 84938},
+															pos: position{line: 2656, col: 12, offset: 84965},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37262,18 +37262,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2975, col: 11, offset: 93998},
+																				pos: position{line: 2976, col: 11, offset: 94025},
 																				expr: &anyMatcher{
-																					line: 2975, col: 13, offset: 94000,
+																					line: 2976, col: 13, offset: 94027,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2958, col: 10, offset: 93664},
+																					pos: position{line: 2959, col: 10, offset: 93691},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2958, col: 10, offset: 93664},
+																						pos:        position{line: 2959, col: 10, offset: 93691},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37282,28 +37282,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2980, col: 8, offset: 94062},
+																				pos: position{line: 2981, col: 8, offset: 94089},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2967, col: 12, offset: 93835},
+																						pos: position{line: 2968, col: 12, offset: 93862},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2967, col: 13, offset: 93836},
+																							pos: position{line: 2968, col: 13, offset: 93863},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 13, offset: 93836},
+																									pos:        position{line: 2968, col: 13, offset: 93863},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 20, offset: 93843},
+																									pos:        position{line: 2968, col: 20, offset: 93870},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 29, offset: 93852},
+																									pos:        position{line: 2968, col: 29, offset: 93879},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37312,9 +37312,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -37323,32 +37323,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2667, col: 5, offset: 85183},
+																	pos: position{line: 2668, col: 5, offset: 85210},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2667, col: 5, offset: 85183},
+																		pos: position{line: 2668, col: 5, offset: 85210},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2667, col: 5, offset: 85183},
+																				pos: position{line: 2668, col: 5, offset: 85210},
 																				expr: &choiceExpr{
-																					pos: position{line: 2664, col: 22, offset: 85144},
+																					pos: position{line: 2665, col: 22, offset: 85171},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2660, col: 19, offset: 85064},
+																							pos: position{line: 2661, col: 19, offset: 85091},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2660, col: 19, offset: 85064},
+																									pos:        position{line: 2661, col: 19, offset: 85091},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2660, col: 26, offset: 85071},
+																									pos: position{line: 2661, col: 26, offset: 85098},
 																									expr: &actionExpr{
-																										pos: position{line: 2958, col: 10, offset: 93664},
+																										pos: position{line: 2959, col: 10, offset: 93691},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2958, col: 10, offset: 93664},
+																											pos:        position{line: 2959, col: 10, offset: 93691},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37357,28 +37357,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37387,9 +37387,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -37397,59 +37397,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2668, col: 5, offset: 85206},
+																				pos:   position{line: 2669, col: 5, offset: 85233},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2669, col: 9, offset: 85224},
+																					pos: position{line: 2670, col: 9, offset: 85251},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2669, col: 10, offset: 85225},
+																							pos: position{line: 2670, col: 10, offset: 85252},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2669, col: 10, offset: 85225},
+																								pos:   position{line: 2670, col: 10, offset: 85252},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2669, col: 17, offset: 85232},
+																									pos: position{line: 2670, col: 17, offset: 85259},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2677, col: 21, offset: 85428},
+																											pos: position{line: 2678, col: 21, offset: 85455},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2677, col: 21, offset: 85428},
+																												pos: position{line: 2678, col: 21, offset: 85455},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2677, col: 21, offset: 85428},
+																														pos:   position{line: 2678, col: 21, offset: 85455},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2677, col: 27, offset: 85434},
+																															pos: position{line: 2678, col: 27, offset: 85461},
 																															expr: &actionExpr{
-																																pos: position{line: 2682, col: 5, offset: 85509},
+																																pos: position{line: 2683, col: 5, offset: 85536},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2682, col: 5, offset: 85509},
+																																	pos: position{line: 2683, col: 5, offset: 85536},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2682, col: 5, offset: 85509},
+																																			pos:        position{line: 2683, col: 5, offset: 85536},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2682, col: 9, offset: 85513},
+																																			pos: position{line: 2683, col: 9, offset: 85540},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2958, col: 10, offset: 93664},
+																																				pos: position{line: 2959, col: 10, offset: 93691},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2958, col: 10, offset: 93664},
+																																					pos:        position{line: 2959, col: 10, offset: 93691},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37458,21 +37458,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2682, col: 16, offset: 85520},
+																																			pos:   position{line: 2683, col: 16, offset: 85547},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2688, col: 5, offset: 85720},
+																																				pos: position{line: 2689, col: 5, offset: 85747},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2688, col: 5, offset: 85720},
+																																					pos:   position{line: 2689, col: 5, offset: 85747},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2688, col: 14, offset: 85729},
+																																						pos: position{line: 2689, col: 14, offset: 85756},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2688, col: 14, offset: 85729},
+																																							pos: position{line: 2689, col: 14, offset: 85756},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2688, col: 14, offset: 85729},
+																																								pos:        position{line: 2689, col: 14, offset: 85756},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37489,28 +37489,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2980, col: 8, offset: 94062},
+																														pos: position{line: 2981, col: 8, offset: 94089},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2967, col: 12, offset: 93835},
+																																pos: position{line: 2968, col: 12, offset: 93862},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2967, col: 13, offset: 93836},
+																																	pos: position{line: 2968, col: 13, offset: 93863},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2967, col: 13, offset: 93836},
+																																			pos:        position{line: 2968, col: 13, offset: 93863},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2967, col: 20, offset: 93843},
+																																			pos:        position{line: 2968, col: 20, offset: 93870},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2967, col: 29, offset: 93852},
+																																			pos:        position{line: 2968, col: 29, offset: 93879},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37519,9 +37519,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2977, col: 8, offset: 94012},
+																																pos: position{line: 2978, col: 8, offset: 94039},
 																																expr: &anyMatcher{
-																																	line: 2977, col: 9, offset: 94013,
+																																	line: 2978, col: 9, offset: 94040,
 																																},
 																															},
 																														},
@@ -37530,40 +37530,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2694, col: 24, offset: 85865},
+																											pos: position{line: 2695, col: 24, offset: 85892},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2694, col: 24, offset: 85865},
+																												pos:   position{line: 2695, col: 24, offset: 85892},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2694, col: 30, offset: 85871},
+																													pos: position{line: 2695, col: 30, offset: 85898},
 																													expr: &actionExpr{
-																														pos: position{line: 2699, col: 5, offset: 85947},
+																														pos: position{line: 2700, col: 5, offset: 85974},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2699, col: 5, offset: 85947},
+																															pos: position{line: 2700, col: 5, offset: 85974},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2699, col: 5, offset: 85947},
+																																	pos: position{line: 2700, col: 5, offset: 85974},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2664, col: 22, offset: 85144},
+																																		pos: position{line: 2665, col: 22, offset: 85171},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2660, col: 19, offset: 85064},
+																																				pos: position{line: 2661, col: 19, offset: 85091},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2660, col: 19, offset: 85064},
+																																						pos:        position{line: 2661, col: 19, offset: 85091},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2660, col: 26, offset: 85071},
+																																						pos: position{line: 2661, col: 26, offset: 85098},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2958, col: 10, offset: 93664},
+																																							pos: position{line: 2959, col: 10, offset: 93691},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2958, col: 10, offset: 93664},
+																																								pos:        position{line: 2959, col: 10, offset: 93691},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37572,28 +37572,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2980, col: 8, offset: 94062},
+																																						pos: position{line: 2981, col: 8, offset: 94089},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2967, col: 12, offset: 93835},
+																																								pos: position{line: 2968, col: 12, offset: 93862},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2967, col: 13, offset: 93836},
+																																									pos: position{line: 2968, col: 13, offset: 93863},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 13, offset: 93836},
+																																											pos:        position{line: 2968, col: 13, offset: 93863},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 20, offset: 93843},
+																																											pos:        position{line: 2968, col: 20, offset: 93870},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2967, col: 29, offset: 93852},
+																																											pos:        position{line: 2968, col: 29, offset: 93879},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37602,9 +37602,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2977, col: 8, offset: 94012},
+																																								pos: position{line: 2978, col: 8, offset: 94039},
 																																								expr: &anyMatcher{
-																																									line: 2977, col: 9, offset: 94013,
+																																									line: 2978, col: 9, offset: 94040,
 																																								},
 																																							},
 																																						},
@@ -37612,16 +37612,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2977, col: 8, offset: 94012},
+																																				pos: position{line: 2978, col: 8, offset: 94039},
 																																				expr: &anyMatcher{
-																																					line: 2977, col: 9, offset: 94013,
+																																					line: 2978, col: 9, offset: 94040,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2700, col: 5, offset: 85970},
+																																	pos: position{line: 2701, col: 5, offset: 85997},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37629,18 +37629,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2975, col: 11, offset: 93998},
+																																					pos: position{line: 2976, col: 11, offset: 94025},
 																																					expr: &anyMatcher{
-																																						line: 2975, col: 13, offset: 94000,
+																																						line: 2976, col: 13, offset: 94027,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2958, col: 10, offset: 93664},
+																																						pos: position{line: 2959, col: 10, offset: 93691},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2958, col: 10, offset: 93664},
+																																							pos:        position{line: 2959, col: 10, offset: 93691},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37649,28 +37649,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2980, col: 8, offset: 94062},
+																																					pos: position{line: 2981, col: 8, offset: 94089},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2967, col: 12, offset: 93835},
+																																							pos: position{line: 2968, col: 12, offset: 93862},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2967, col: 13, offset: 93836},
+																																								pos: position{line: 2968, col: 13, offset: 93863},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2967, col: 13, offset: 93836},
+																																										pos:        position{line: 2968, col: 13, offset: 93863},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2967, col: 20, offset: 93843},
+																																										pos:        position{line: 2968, col: 20, offset: 93870},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2967, col: 29, offset: 93852},
+																																										pos:        position{line: 2968, col: 29, offset: 93879},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37679,9 +37679,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2977, col: 8, offset: 94012},
+																																							pos: position{line: 2978, col: 8, offset: 94039},
 																																							expr: &anyMatcher{
-																																								line: 2977, col: 9, offset: 94013,
+																																								line: 2978, col: 9, offset: 94040,
 																																							},
 																																						},
 																																					},
@@ -37691,17 +37691,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2701, col: 5, offset: 85985},
+																																	pos:   position{line: 2702, col: 5, offset: 86012},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2701, col: 12, offset: 85992},
+																																		pos: position{line: 2702, col: 12, offset: 86019},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2718, col: 20, offset: 86456},
+																																			pos: position{line: 2719, col: 20, offset: 86483},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2718, col: 20, offset: 86456},
+																																				pos: position{line: 2719, col: 20, offset: 86483},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2718, col: 20, offset: 86456},
+																																					pos:        position{line: 2719, col: 20, offset: 86483},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37712,18 +37712,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2701, col: 31, offset: 86011},
+																																	pos:        position{line: 2702, col: 31, offset: 86038},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2701, col: 35, offset: 86015},
+																																	pos: position{line: 2702, col: 35, offset: 86042},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2958, col: 10, offset: 93664},
+																																		pos: position{line: 2959, col: 10, offset: 93691},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2958, col: 10, offset: 93664},
+																																			pos:        position{line: 2959, col: 10, offset: 93691},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37732,27 +37732,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2701, col: 42, offset: 86022},
+																																	pos: position{line: 2702, col: 42, offset: 86049},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2967, col: 12, offset: 93835},
+																																		pos: position{line: 2968, col: 12, offset: 93862},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2967, col: 13, offset: 93836},
+																																			pos: position{line: 2968, col: 13, offset: 93863},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 13, offset: 93836},
+																																					pos:        position{line: 2968, col: 13, offset: 93863},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 20, offset: 93843},
+																																					pos:        position{line: 2968, col: 20, offset: 93870},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2967, col: 29, offset: 93852},
+																																					pos:        position{line: 2968, col: 29, offset: 93879},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37762,37 +37762,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2701, col: 51, offset: 86031},
+																																	pos:   position{line: 2702, col: 51, offset: 86058},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2707, col: 5, offset: 86190},
+																																		pos: position{line: 2708, col: 5, offset: 86217},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2708, col: 9, offset: 86200},
+																																			pos: position{line: 2709, col: 9, offset: 86227},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2708, col: 9, offset: 86200},
+																																				pos: position{line: 2709, col: 9, offset: 86227},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2708, col: 9, offset: 86200},
+																																						pos: position{line: 2709, col: 9, offset: 86227},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2664, col: 22, offset: 85144},
+																																							pos: position{line: 2665, col: 22, offset: 85171},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2660, col: 19, offset: 85064},
+																																									pos: position{line: 2661, col: 19, offset: 85091},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2660, col: 19, offset: 85064},
+																																											pos:        position{line: 2661, col: 19, offset: 85091},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2660, col: 26, offset: 85071},
+																																											pos: position{line: 2661, col: 26, offset: 85098},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2958, col: 10, offset: 93664},
+																																												pos: position{line: 2959, col: 10, offset: 93691},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2958, col: 10, offset: 93664},
+																																													pos:        position{line: 2959, col: 10, offset: 93691},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37801,28 +37801,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2980, col: 8, offset: 94062},
+																																											pos: position{line: 2981, col: 8, offset: 94089},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2967, col: 12, offset: 93835},
+																																													pos: position{line: 2968, col: 12, offset: 93862},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2967, col: 13, offset: 93836},
+																																														pos: position{line: 2968, col: 13, offset: 93863},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 13, offset: 93836},
+																																																pos:        position{line: 2968, col: 13, offset: 93863},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 20, offset: 93843},
+																																																pos:        position{line: 2968, col: 20, offset: 93870},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2967, col: 29, offset: 93852},
+																																																pos:        position{line: 2968, col: 29, offset: 93879},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37831,9 +37831,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2977, col: 8, offset: 94012},
+																																													pos: position{line: 2978, col: 8, offset: 94039},
 																																													expr: &anyMatcher{
-																																														line: 2977, col: 9, offset: 94013,
+																																														line: 2978, col: 9, offset: 94040,
 																																													},
 																																												},
 																																											},
@@ -37841,16 +37841,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2977, col: 8, offset: 94012},
+																																									pos: position{line: 2978, col: 8, offset: 94039},
 																																									expr: &anyMatcher{
-																																										line: 2977, col: 9, offset: 94013,
+																																										line: 2978, col: 9, offset: 94040,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2709, col: 9, offset: 86227},
+																																						pos: position{line: 2710, col: 9, offset: 86254},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37858,18 +37858,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2975, col: 11, offset: 93998},
+																																										pos: position{line: 2976, col: 11, offset: 94025},
 																																										expr: &anyMatcher{
-																																											line: 2975, col: 13, offset: 94000,
+																																											line: 2976, col: 13, offset: 94027,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2958, col: 10, offset: 93664},
+																																											pos: position{line: 2959, col: 10, offset: 93691},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2958, col: 10, offset: 93664},
+																																												pos:        position{line: 2959, col: 10, offset: 93691},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37878,28 +37878,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2980, col: 8, offset: 94062},
+																																										pos: position{line: 2981, col: 8, offset: 94089},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2967, col: 12, offset: 93835},
+																																												pos: position{line: 2968, col: 12, offset: 93862},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2967, col: 13, offset: 93836},
+																																													pos: position{line: 2968, col: 13, offset: 93863},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2967, col: 13, offset: 93836},
+																																															pos:        position{line: 2968, col: 13, offset: 93863},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2967, col: 20, offset: 93843},
+																																															pos:        position{line: 2968, col: 20, offset: 93870},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2967, col: 29, offset: 93852},
+																																															pos:        position{line: 2968, col: 29, offset: 93879},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37908,9 +37908,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2977, col: 8, offset: 94012},
+																																												pos: position{line: 2978, col: 8, offset: 94039},
 																																												expr: &anyMatcher{
-																																													line: 2977, col: 9, offset: 94013,
+																																													line: 2978, col: 9, offset: 94040,
 																																												},
 																																											},
 																																										},
@@ -37920,22 +37920,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2710, col: 9, offset: 86246},
+																																						pos: position{line: 2711, col: 9, offset: 86273},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2710, col: 11, offset: 86248},
+																																							pos: position{line: 2711, col: 11, offset: 86275},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2710, col: 11, offset: 86248},
+																																									pos:   position{line: 2711, col: 11, offset: 86275},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2710, col: 18, offset: 86255},
+																																										pos: position{line: 2711, col: 18, offset: 86282},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2718, col: 20, offset: 86456},
+																																											pos: position{line: 2719, col: 20, offset: 86483},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2718, col: 20, offset: 86456},
+																																												pos: position{line: 2719, col: 20, offset: 86483},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2718, col: 20, offset: 86456},
+																																													pos:        position{line: 2719, col: 20, offset: 86483},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37946,7 +37946,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2710, col: 37, offset: 86274},
+																																									pos:        position{line: 2711, col: 37, offset: 86301},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37955,15 +37955,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2711, col: 9, offset: 86287},
+																																						pos:   position{line: 2712, col: 9, offset: 86314},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2711, col: 18, offset: 86296},
+																																							pos: position{line: 2712, col: 18, offset: 86323},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2711, col: 18, offset: 86296},
+																																								pos: position{line: 2712, col: 18, offset: 86323},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2711, col: 18, offset: 86296},
+																																									pos:        position{line: 2712, col: 18, offset: 86323},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37973,30 +37973,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2713, col: 12, offset: 86358},
+																																						pos: position{line: 2714, col: 12, offset: 86385},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2980, col: 8, offset: 94062},
+																																							pos: position{line: 2981, col: 8, offset: 94089},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2967, col: 12, offset: 93835},
+																																									pos: position{line: 2968, col: 12, offset: 93862},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2967, col: 13, offset: 93836},
+																																										pos: position{line: 2968, col: 13, offset: 93863},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 13, offset: 93836},
+																																												pos:        position{line: 2968, col: 13, offset: 93863},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 20, offset: 93843},
+																																												pos:        position{line: 2968, col: 20, offset: 93870},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2967, col: 29, offset: 93852},
+																																												pos:        position{line: 2968, col: 29, offset: 93879},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38005,9 +38005,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2977, col: 8, offset: 94012},
+																																									pos: position{line: 2978, col: 8, offset: 94039},
 																																									expr: &anyMatcher{
-																																										line: 2977, col: 9, offset: 94013,
+																																										line: 2978, col: 9, offset: 94040,
 																																									},
 																																								},
 																																							},
@@ -38035,18 +38035,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2975, col: 11, offset: 93998},
+																										pos: position{line: 2976, col: 11, offset: 94025},
 																										expr: &anyMatcher{
-																											line: 2975, col: 13, offset: 94000,
+																											line: 2976, col: 13, offset: 94027,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2958, col: 10, offset: 93664},
+																											pos: position{line: 2959, col: 10, offset: 93691},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2958, col: 10, offset: 93664},
+																												pos:        position{line: 2959, col: 10, offset: 93691},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38055,28 +38055,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2980, col: 8, offset: 94062},
+																										pos: position{line: 2981, col: 8, offset: 94089},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2967, col: 12, offset: 93835},
+																												pos: position{line: 2968, col: 12, offset: 93862},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2967, col: 13, offset: 93836},
+																													pos: position{line: 2968, col: 13, offset: 93863},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 13, offset: 93836},
+																															pos:        position{line: 2968, col: 13, offset: 93863},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 20, offset: 93843},
+																															pos:        position{line: 2968, col: 20, offset: 93870},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2967, col: 29, offset: 93852},
+																															pos:        position{line: 2968, col: 29, offset: 93879},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38085,9 +38085,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2977, col: 8, offset: 94012},
+																												pos: position{line: 2978, col: 8, offset: 94039},
 																												expr: &anyMatcher{
-																													line: 2977, col: 9, offset: 94013,
+																													line: 2978, col: 9, offset: 94040,
 																												},
 																											},
 																										},
@@ -38106,24 +38106,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2664, col: 22, offset: 85144},
+													pos: position{line: 2665, col: 22, offset: 85171},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2660, col: 19, offset: 85064},
+															pos: position{line: 2661, col: 19, offset: 85091},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2660, col: 19, offset: 85064},
+																	pos:        position{line: 2661, col: 19, offset: 85091},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2660, col: 26, offset: 85071},
+																	pos: position{line: 2661, col: 26, offset: 85098},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38132,28 +38132,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38162,9 +38162,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -38172,9 +38172,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -38183,36 +38183,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2525, col: 22, offset: 81307},
+										pos: position{line: 2526, col: 22, offset: 81334},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2525, col: 22, offset: 81307},
+											pos: position{line: 2526, col: 22, offset: 81334},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2530, col: 31, offset: 81528},
+													pos:        position{line: 2531, col: 31, offset: 81555},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2530, col: 36, offset: 81533},
+													pos: position{line: 2531, col: 36, offset: 81560},
 													expr: &litMatcher{
-														pos:        position{line: 2530, col: 37, offset: 81534},
+														pos:        position{line: 2531, col: 37, offset: 81561},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2525, col: 49, offset: 81334},
+													pos:   position{line: 2526, col: 49, offset: 81361},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 13, offset: 91351},
+														pos: position{line: 2878, col: 13, offset: 91378},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2877, col: 13, offset: 91351},
+															pos: position{line: 2878, col: 13, offset: 91378},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 13, offset: 91351},
+																pos:        position{line: 2878, col: 13, offset: 91378},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38222,28 +38222,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2980, col: 8, offset: 94062},
+													pos: position{line: 2981, col: 8, offset: 94089},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38252,9 +38252,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2977, col: 8, offset: 94012},
+															pos: position{line: 2978, col: 8, offset: 94039},
 															expr: &anyMatcher{
-																line: 2977, col: 9, offset: 94013,
+																line: 2978, col: 9, offset: 94040,
 															},
 														},
 													},
@@ -38345,12 +38345,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1777, col: 13, offset: 57288},
 																						expr: &actionExpr{
-																							pos: position{line: 2962, col: 11, offset: 93725},
+																							pos: position{line: 2963, col: 11, offset: 93752},
 																							run: (*parser).callonListContinuationElement1604,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2962, col: 11, offset: 93725},
+																								pos: position{line: 2963, col: 11, offset: 93752},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2962, col: 11, offset: 93725},
+																									pos:        position{line: 2963, col: 11, offset: 93752},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38371,10 +38371,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1779, col: 14, offset: 57370},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement1610,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38383,28 +38383,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonListContinuationElement1613,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38413,9 +38413,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -38446,18 +38446,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2975, col: 11, offset: 93998},
+																					pos: position{line: 2976, col: 11, offset: 94025},
 																					expr: &anyMatcher{
-																						line: 2975, col: 13, offset: 94000,
+																						line: 2976, col: 13, offset: 94027,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement1629,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38466,28 +38466,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2980, col: 8, offset: 94062},
+																					pos: position{line: 2981, col: 8, offset: 94089},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonListContinuationElement1632,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38496,9 +38496,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2977, col: 8, offset: 94012},
+																							pos: position{line: 2978, col: 8, offset: 94039},
 																							expr: &anyMatcher{
-																								line: 2977, col: 9, offset: 94013,
+																								line: 2978, col: 9, offset: 94040,
 																							},
 																						},
 																					},
@@ -38521,10 +38521,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2958, col: 10, offset: 93664},
+																					pos: position{line: 2959, col: 10, offset: 93691},
 																					run: (*parser).callonListContinuationElement1643,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2958, col: 10, offset: 93664},
+																						pos:        position{line: 2959, col: 10, offset: 93691},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38533,25 +38533,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonListContinuationElement1645,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38573,10 +38573,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement1654,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38743,12 +38743,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2962, col: 11, offset: 93725},
+																					pos: position{line: 2963, col: 11, offset: 93752},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2962, col: 11, offset: 93725},
+																						pos: position{line: 2963, col: 11, offset: 93752},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2962, col: 11, offset: 93725},
+																							pos:        position{line: 2963, col: 11, offset: 93752},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38771,10 +38771,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement1695,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38815,12 +38815,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1703,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2962, col: 11, offset: 93725},
+																					pos: position{line: 2963, col: 11, offset: 93752},
 																					run: (*parser).callonListContinuationElement1704,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2962, col: 11, offset: 93725},
+																						pos: position{line: 2963, col: 11, offset: 93752},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2962, col: 11, offset: 93725},
+																							pos:        position{line: 2963, col: 11, offset: 93752},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38871,12 +38871,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2962, col: 11, offset: 93725},
+																					pos: position{line: 2963, col: 11, offset: 93752},
 																					run: (*parser).callonListContinuationElement1716,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2962, col: 11, offset: 93725},
+																						pos: position{line: 2963, col: 11, offset: 93752},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2962, col: 11, offset: 93725},
+																							pos:        position{line: 2963, col: 11, offset: 93752},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38937,28 +38937,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2980, col: 8, offset: 94062},
+																									pos: position{line: 2981, col: 8, offset: 94089},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2967, col: 12, offset: 93835},
+																											pos: position{line: 2968, col: 12, offset: 93862},
 																											run: (*parser).callonListContinuationElement1734,
 																											expr: &choiceExpr{
-																												pos: position{line: 2967, col: 13, offset: 93836},
+																												pos: position{line: 2968, col: 13, offset: 93863},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 13, offset: 93836},
+																														pos:        position{line: 2968, col: 13, offset: 93863},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 20, offset: 93843},
+																														pos:        position{line: 2968, col: 20, offset: 93870},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2967, col: 29, offset: 93852},
+																														pos:        position{line: 2968, col: 29, offset: 93879},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38967,9 +38967,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2977, col: 8, offset: 94012},
+																											pos: position{line: 2978, col: 8, offset: 94039},
 																											expr: &anyMatcher{
-																												line: 2977, col: 9, offset: 94013,
+																												line: 2978, col: 9, offset: 94040,
 																											},
 																										},
 																									},
@@ -39016,10 +39016,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2958, col: 10, offset: 93664},
+																						pos: position{line: 2959, col: 10, offset: 93691},
 																						run: (*parser).callonListContinuationElement1750,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2958, col: 10, offset: 93664},
+																							pos:        position{line: 2959, col: 10, offset: 93691},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39027,25 +39027,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2967, col: 12, offset: 93835},
+																						pos: position{line: 2968, col: 12, offset: 93862},
 																						run: (*parser).callonListContinuationElement1752,
 																						expr: &choiceExpr{
-																							pos: position{line: 2967, col: 13, offset: 93836},
+																							pos: position{line: 2968, col: 13, offset: 93863},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 13, offset: 93836},
+																									pos:        position{line: 2968, col: 13, offset: 93863},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 20, offset: 93843},
+																									pos:        position{line: 2968, col: 20, offset: 93870},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2967, col: 29, offset: 93852},
+																									pos:        position{line: 2968, col: 29, offset: 93879},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39054,9 +39054,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2977, col: 8, offset: 94012},
+																						pos: position{line: 2978, col: 8, offset: 94039},
 																						expr: &anyMatcher{
-																							line: 2977, col: 9, offset: 94013,
+																							line: 2978, col: 9, offset: 94040,
 																						},
 																					},
 																				},
@@ -39078,7 +39078,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2812, col: 13, offset: 89612},
+																								pos:        position{line: 2813, col: 13, offset: 89639},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39128,10 +39128,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1776,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39140,28 +39140,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1779,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39170,9 +39170,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39217,10 +39217,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1795,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39229,28 +39229,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1798,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39259,9 +39259,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39302,10 +39302,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1813,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39314,28 +39314,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1816,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39344,9 +39344,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39391,10 +39391,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1832,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39403,28 +39403,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1835,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39433,9 +39433,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39480,10 +39480,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1851,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39492,28 +39492,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1854,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39522,9 +39522,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39569,10 +39569,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1870,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39581,28 +39581,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1873,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39611,9 +39611,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39658,10 +39658,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1889,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39670,28 +39670,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1892,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39700,9 +39700,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39747,10 +39747,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1908,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39759,28 +39759,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1911,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39789,9 +39789,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39836,10 +39836,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2958, col: 10, offset: 93664},
+																														pos: position{line: 2959, col: 10, offset: 93691},
 																														run: (*parser).callonListContinuationElement1927,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2958, col: 10, offset: 93664},
+																															pos:        position{line: 2959, col: 10, offset: 93691},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39848,28 +39848,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2980, col: 8, offset: 94062},
+																													pos: position{line: 2981, col: 8, offset: 94089},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2967, col: 12, offset: 93835},
+																															pos: position{line: 2968, col: 12, offset: 93862},
 																															run: (*parser).callonListContinuationElement1930,
 																															expr: &choiceExpr{
-																																pos: position{line: 2967, col: 13, offset: 93836},
+																																pos: position{line: 2968, col: 13, offset: 93863},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 13, offset: 93836},
+																																		pos:        position{line: 2968, col: 13, offset: 93863},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 20, offset: 93843},
+																																		pos:        position{line: 2968, col: 20, offset: 93870},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2967, col: 29, offset: 93852},
+																																		pos:        position{line: 2968, col: 29, offset: 93879},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39878,9 +39878,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2977, col: 8, offset: 94012},
+																															pos: position{line: 2978, col: 8, offset: 94039},
 																															expr: &anyMatcher{
-																																line: 2977, col: 9, offset: 94013,
+																																line: 2978, col: 9, offset: 94040,
 																															},
 																														},
 																													},
@@ -39917,10 +39917,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2958, col: 10, offset: 93664},
+																								pos: position{line: 2959, col: 10, offset: 93691},
 																								run: (*parser).callonListContinuationElement1943,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2958, col: 10, offset: 93664},
+																									pos:        position{line: 2959, col: 10, offset: 93691},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39929,28 +39929,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2980, col: 8, offset: 94062},
+																							pos: position{line: 2981, col: 8, offset: 94089},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 12, offset: 93835},
+																									pos: position{line: 2968, col: 12, offset: 93862},
 																									run: (*parser).callonListContinuationElement1946,
 																									expr: &choiceExpr{
-																										pos: position{line: 2967, col: 13, offset: 93836},
+																										pos: position{line: 2968, col: 13, offset: 93863},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 13, offset: 93836},
+																												pos:        position{line: 2968, col: 13, offset: 93863},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 20, offset: 93843},
+																												pos:        position{line: 2968, col: 20, offset: 93870},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2967, col: 29, offset: 93852},
+																												pos:        position{line: 2968, col: 29, offset: 93879},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39959,9 +39959,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2977, col: 8, offset: 94012},
+																									pos: position{line: 2978, col: 8, offset: 94039},
 																									expr: &anyMatcher{
-																										line: 2977, col: 9, offset: 94013,
+																										line: 2978, col: 9, offset: 94040,
 																									},
 																								},
 																							},
@@ -39970,21 +39970,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2660, col: 19, offset: 85064},
+																				pos: position{line: 2661, col: 19, offset: 85091},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2660, col: 19, offset: 85064},
+																						pos:        position{line: 2661, col: 19, offset: 85091},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2660, col: 26, offset: 85071},
+																						pos: position{line: 2661, col: 26, offset: 85098},
 																						expr: &actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonListContinuationElement1956,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39993,28 +39993,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2980, col: 8, offset: 94062},
+																						pos: position{line: 2981, col: 8, offset: 94089},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2967, col: 12, offset: 93835},
+																								pos: position{line: 2968, col: 12, offset: 93862},
 																								run: (*parser).callonListContinuationElement1959,
 																								expr: &choiceExpr{
-																									pos: position{line: 2967, col: 13, offset: 93836},
+																									pos: position{line: 2968, col: 13, offset: 93863},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 13, offset: 93836},
+																											pos:        position{line: 2968, col: 13, offset: 93863},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 20, offset: 93843},
+																											pos:        position{line: 2968, col: 20, offset: 93870},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2967, col: 29, offset: 93852},
+																											pos:        position{line: 2968, col: 29, offset: 93879},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40023,9 +40023,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2977, col: 8, offset: 94012},
+																								pos: position{line: 2978, col: 8, offset: 94039},
 																								expr: &anyMatcher{
-																									line: 2977, col: 9, offset: 94013,
+																									line: 2978, col: 9, offset: 94040,
 																								},
 																							},
 																						},
@@ -40039,12 +40039,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 14, offset: 91418},
+																		pos: position{line: 2882, col: 14, offset: 91445},
 																		run: (*parser).callonListContinuationElement1967,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 14, offset: 91418},
+																			pos: position{line: 2882, col: 14, offset: 91445},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 14, offset: 91418},
+																				pos:        position{line: 2882, col: 14, offset: 91445},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40054,28 +40054,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonListContinuationElement1971,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40084,9 +40084,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -40151,10 +40151,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 10, offset: 93664},
+								pos: position{line: 2959, col: 10, offset: 93691},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2958, col: 10, offset: 93664},
+									pos:        position{line: 2959, col: 10, offset: 93691},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40168,25 +40168,25 @@ var g = &grammar{
 								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2967, col: 12, offset: 93835},
+										pos: position{line: 2968, col: 12, offset: 93862},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2967, col: 13, offset: 93836},
+											pos: position{line: 2968, col: 13, offset: 93863},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2967, col: 13, offset: 93836},
+													pos:        position{line: 2968, col: 13, offset: 93863},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 20, offset: 93843},
+													pos:        position{line: 2968, col: 20, offset: 93870},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 29, offset: 93852},
+													pos:        position{line: 2968, col: 29, offset: 93879},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40195,9 +40195,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2977, col: 8, offset: 94012},
+										pos: position{line: 2978, col: 8, offset: 94039},
 										expr: &anyMatcher{
-											line: 2977, col: 9, offset: 94013,
+											line: 2978, col: 9, offset: 94040,
 										},
 									},
 									&ruleRefExpr{
@@ -40226,7 +40226,7 @@ var g = &grammar{
 								pos: position{line: 1785, col: 7, offset: 57501},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2812, col: 13, offset: 89612},
+										pos:        position{line: 2813, col: 13, offset: 89639},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -40245,12 +40245,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2962, col: 11, offset: 93725},
+													pos: position{line: 2963, col: 11, offset: 93752},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2962, col: 11, offset: 93725},
+														pos: position{line: 2963, col: 11, offset: 93752},
 														expr: &charClassMatcher{
-															pos:        position{line: 2962, col: 11, offset: 93725},
+															pos:        position{line: 2963, col: 11, offset: 93752},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40341,12 +40341,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40367,10 +40367,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40379,28 +40379,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2980, col: 8, offset: 94062},
+															pos: position{line: 2981, col: 8, offset: 94089},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2967, col: 12, offset: 93835},
+																	pos: position{line: 2968, col: 12, offset: 93862},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2967, col: 13, offset: 93836},
+																		pos: position{line: 2968, col: 13, offset: 93863},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 13, offset: 93836},
+																				pos:        position{line: 2968, col: 13, offset: 93863},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 20, offset: 93843},
+																				pos:        position{line: 2968, col: 20, offset: 93870},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 29, offset: 93852},
+																				pos:        position{line: 2968, col: 29, offset: 93879},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40409,9 +40409,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -40437,12 +40437,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 14, offset: 91418},
+												pos: position{line: 2882, col: 14, offset: 91445},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 14, offset: 91418},
+													pos: position{line: 2882, col: 14, offset: 91445},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 14, offset: 91418},
+														pos:        position{line: 2882, col: 14, offset: 91445},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40456,28 +40456,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2980, col: 8, offset: 94062},
+											pos: position{line: 2981, col: 8, offset: 94089},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2967, col: 12, offset: 93835},
+													pos: position{line: 2968, col: 12, offset: 93862},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2967, col: 13, offset: 93836},
+														pos: position{line: 2968, col: 13, offset: 93863},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2967, col: 13, offset: 93836},
+																pos:        position{line: 2968, col: 13, offset: 93863},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2967, col: 20, offset: 93843},
+																pos:        position{line: 2968, col: 20, offset: 93870},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2967, col: 29, offset: 93852},
+																pos:        position{line: 2968, col: 29, offset: 93879},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40486,9 +40486,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -40513,9 +40513,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58066},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2975, col: 11, offset: 93998},
+												pos: position{line: 2976, col: 11, offset: 94025},
 												expr: &anyMatcher{
-													line: 2975, col: 13, offset: 94000,
+													line: 2976, col: 13, offset: 94027,
 												},
 											},
 											&notExpr{
@@ -40527,18 +40527,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40547,28 +40547,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40577,9 +40577,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -40609,7 +40609,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 13, offset: 89612},
+																			pos:        position{line: 2813, col: 13, offset: 89639},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40659,10 +40659,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph105,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40671,28 +40671,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph108,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40701,9 +40701,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -40748,10 +40748,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph124,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40760,28 +40760,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph127,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40790,9 +40790,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -40833,10 +40833,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph142,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40845,28 +40845,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph145,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40875,9 +40875,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -40922,10 +40922,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph161,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40934,28 +40934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph164,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40964,9 +40964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41011,10 +41011,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph180,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41023,28 +41023,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph183,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41053,9 +41053,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41100,10 +41100,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph199,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41112,28 +41112,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph202,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41142,9 +41142,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41189,10 +41189,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph218,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41201,28 +41201,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph221,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41231,9 +41231,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41278,10 +41278,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph237,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41290,28 +41290,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph240,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41320,9 +41320,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41367,10 +41367,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonShortcutParagraph256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41379,28 +41379,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonShortcutParagraph259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41409,9 +41409,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -41448,10 +41448,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonShortcutParagraph272,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41460,28 +41460,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41490,9 +41490,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -41501,21 +41501,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2660, col: 19, offset: 85064},
+															pos: position{line: 2661, col: 19, offset: 85091},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2660, col: 19, offset: 85064},
+																	pos:        position{line: 2661, col: 19, offset: 85091},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2660, col: 26, offset: 85071},
+																	pos: position{line: 2661, col: 26, offset: 85098},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonShortcutParagraph285,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41524,28 +41524,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonShortcutParagraph288,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41554,9 +41554,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -41580,10 +41580,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonShortcutParagraph299,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41592,25 +41592,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonShortcutParagraph301,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41628,36 +41628,36 @@ var g = &grammar{
 													pos: position{line: 1801, col: 15, offset: 58228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81307},
+															pos: position{line: 2526, col: 22, offset: 81334},
 															run: (*parser).callonShortcutParagraph308,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81307},
+																pos: position{line: 2526, col: 22, offset: 81334},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81528},
+																		pos:        position{line: 2531, col: 31, offset: 81555},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81533},
+																		pos: position{line: 2531, col: 36, offset: 81560},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81534},
+																			pos:        position{line: 2531, col: 37, offset: 81561},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81334},
+																		pos:   position{line: 2526, col: 49, offset: 81361},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 13, offset: 91351},
+																			pos: position{line: 2878, col: 13, offset: 91378},
 																			run: (*parser).callonShortcutParagraph314,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2877, col: 13, offset: 91351},
+																				pos: position{line: 2878, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 91351},
+																					pos:        position{line: 2878, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41667,28 +41667,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonShortcutParagraph318,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41697,9 +41697,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -41717,12 +41717,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 14, offset: 91418},
+																			pos: position{line: 2882, col: 14, offset: 91445},
 																			run: (*parser).callonShortcutParagraph328,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 14, offset: 91418},
+																				pos: position{line: 2882, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 14, offset: 91418},
+																					pos:        position{line: 2882, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41736,28 +41736,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph331,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonShortcutParagraph333,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41766,9 +41766,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -41874,12 +41874,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1777, col: 13, offset: 57288},
 																expr: &actionExpr{
-																	pos: position{line: 2962, col: 11, offset: 93725},
+																	pos: position{line: 2963, col: 11, offset: 93752},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2962, col: 11, offset: 93725},
+																		pos: position{line: 2963, col: 11, offset: 93752},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2962, col: 11, offset: 93725},
+																			pos:        position{line: 2963, col: 11, offset: 93752},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41900,10 +41900,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1779, col: 14, offset: 57370},
 															expr: &actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41912,28 +41912,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2980, col: 8, offset: 94062},
+															pos: position{line: 2981, col: 8, offset: 94089},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2967, col: 12, offset: 93835},
+																	pos: position{line: 2968, col: 12, offset: 93862},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2967, col: 13, offset: 93836},
+																		pos: position{line: 2968, col: 13, offset: 93863},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 13, offset: 93836},
+																				pos:        position{line: 2968, col: 13, offset: 93863},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 20, offset: 93843},
+																				pos:        position{line: 2968, col: 20, offset: 93870},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 29, offset: 93852},
+																				pos:        position{line: 2968, col: 29, offset: 93879},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41942,9 +41942,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -41970,12 +41970,12 @@ var g = &grammar{
 											pos:   position{line: 1824, col: 5, offset: 58892},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 14, offset: 91418},
+												pos: position{line: 2882, col: 14, offset: 91445},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 14, offset: 91418},
+													pos: position{line: 2882, col: 14, offset: 91445},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 14, offset: 91418},
+														pos:        position{line: 2882, col: 14, offset: 91445},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41989,28 +41989,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2980, col: 8, offset: 94062},
+											pos: position{line: 2981, col: 8, offset: 94089},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2967, col: 12, offset: 93835},
+													pos: position{line: 2968, col: 12, offset: 93862},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2967, col: 13, offset: 93836},
+														pos: position{line: 2968, col: 13, offset: 93863},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2967, col: 13, offset: 93836},
+																pos:        position{line: 2968, col: 13, offset: 93863},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2967, col: 20, offset: 93843},
+																pos:        position{line: 2968, col: 20, offset: 93870},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2967, col: 29, offset: 93852},
+																pos:        position{line: 2968, col: 29, offset: 93879},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42019,9 +42019,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2977, col: 8, offset: 94012},
+													pos: position{line: 2978, col: 8, offset: 94039},
 													expr: &anyMatcher{
-														line: 2977, col: 9, offset: 94013,
+														line: 2978, col: 9, offset: 94040,
 													},
 												},
 											},
@@ -42042,9 +42042,9 @@ var g = &grammar{
 										pos: position{line: 1812, col: 9, offset: 58534},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2975, col: 11, offset: 93998},
+												pos: position{line: 2976, col: 11, offset: 94025},
 												expr: &anyMatcher{
-													line: 2975, col: 13, offset: 94000,
+													line: 2976, col: 13, offset: 94027,
 												},
 											},
 											&notExpr{
@@ -42056,18 +42056,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2975, col: 11, offset: 93998},
+																pos: position{line: 2976, col: 11, offset: 94025},
 																expr: &anyMatcher{
-																	line: 2975, col: 13, offset: 94000,
+																	line: 2976, col: 13, offset: 94027,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42076,28 +42076,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2980, col: 8, offset: 94062},
+																pos: position{line: 2981, col: 8, offset: 94089},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2967, col: 12, offset: 93835},
+																		pos: position{line: 2968, col: 12, offset: 93862},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2967, col: 13, offset: 93836},
+																			pos: position{line: 2968, col: 13, offset: 93863},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 13, offset: 93836},
+																					pos:        position{line: 2968, col: 13, offset: 93863},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 20, offset: 93843},
+																					pos:        position{line: 2968, col: 20, offset: 93870},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2967, col: 29, offset: 93852},
+																					pos:        position{line: 2968, col: 29, offset: 93879},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42106,9 +42106,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2977, col: 8, offset: 94012},
+																		pos: position{line: 2978, col: 8, offset: 94039},
 																		expr: &anyMatcher{
-																			line: 2977, col: 9, offset: 94013,
+																			line: 2978, col: 9, offset: 94040,
 																		},
 																	},
 																},
@@ -42138,7 +42138,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 13, offset: 89612},
+																			pos:        position{line: 2813, col: 13, offset: 89639},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42188,10 +42188,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph95,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42200,28 +42200,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph98,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42230,9 +42230,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42277,10 +42277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph114,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42289,28 +42289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph117,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42319,9 +42319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42362,10 +42362,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42374,28 +42374,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42404,9 +42404,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42451,10 +42451,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42463,28 +42463,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph154,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42493,9 +42493,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42540,10 +42540,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph170,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42552,28 +42552,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph173,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42582,9 +42582,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42629,10 +42629,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph189,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42641,28 +42641,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph192,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42671,9 +42671,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42718,10 +42718,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph208,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42730,28 +42730,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph211,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42760,9 +42760,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42807,10 +42807,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph227,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42819,28 +42819,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph230,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42849,9 +42849,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42896,10 +42896,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2958, col: 10, offset: 93664},
+																									pos: position{line: 2959, col: 10, offset: 93691},
 																									run: (*parser).callonParagraph246,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2958, col: 10, offset: 93664},
+																										pos:        position{line: 2959, col: 10, offset: 93691},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42908,28 +42908,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2980, col: 8, offset: 94062},
+																								pos: position{line: 2981, col: 8, offset: 94089},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2967, col: 12, offset: 93835},
+																										pos: position{line: 2968, col: 12, offset: 93862},
 																										run: (*parser).callonParagraph249,
 																										expr: &choiceExpr{
-																											pos: position{line: 2967, col: 13, offset: 93836},
+																											pos: position{line: 2968, col: 13, offset: 93863},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 13, offset: 93836},
+																													pos:        position{line: 2968, col: 13, offset: 93863},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 20, offset: 93843},
+																													pos:        position{line: 2968, col: 20, offset: 93870},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2967, col: 29, offset: 93852},
+																													pos:        position{line: 2968, col: 29, offset: 93879},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42938,9 +42938,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2977, col: 8, offset: 94012},
+																										pos: position{line: 2978, col: 8, offset: 94039},
 																										expr: &anyMatcher{
-																											line: 2977, col: 9, offset: 94013,
+																											line: 2978, col: 9, offset: 94040,
 																										},
 																									},
 																								},
@@ -42977,10 +42977,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonParagraph262,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42989,28 +42989,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonParagraph265,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43019,9 +43019,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -43030,21 +43030,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2660, col: 19, offset: 85064},
+															pos: position{line: 2661, col: 19, offset: 85091},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2660, col: 19, offset: 85064},
+																	pos:        position{line: 2661, col: 19, offset: 85091},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2660, col: 26, offset: 85071},
+																	pos: position{line: 2661, col: 26, offset: 85098},
 																	expr: &actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonParagraph275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43053,28 +43053,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonParagraph278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43083,9 +43083,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -43102,36 +43102,36 @@ var g = &grammar{
 													pos: position{line: 1816, col: 15, offset: 58663},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2525, col: 22, offset: 81307},
+															pos: position{line: 2526, col: 22, offset: 81334},
 															run: (*parser).callonParagraph287,
 															expr: &seqExpr{
-																pos: position{line: 2525, col: 22, offset: 81307},
+																pos: position{line: 2526, col: 22, offset: 81334},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2530, col: 31, offset: 81528},
+																		pos:        position{line: 2531, col: 31, offset: 81555},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2530, col: 36, offset: 81533},
+																		pos: position{line: 2531, col: 36, offset: 81560},
 																		expr: &litMatcher{
-																			pos:        position{line: 2530, col: 37, offset: 81534},
+																			pos:        position{line: 2531, col: 37, offset: 81561},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2525, col: 49, offset: 81334},
+																		pos:   position{line: 2526, col: 49, offset: 81361},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 13, offset: 91351},
+																			pos: position{line: 2878, col: 13, offset: 91378},
 																			run: (*parser).callonParagraph293,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2877, col: 13, offset: 91351},
+																				pos: position{line: 2878, col: 13, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 91351},
+																					pos:        position{line: 2878, col: 13, offset: 91378},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43141,28 +43141,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonParagraph297,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43171,9 +43171,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -43191,12 +43191,12 @@ var g = &grammar{
 																		pos:   position{line: 1824, col: 5, offset: 58892},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 14, offset: 91418},
+																			pos: position{line: 2882, col: 14, offset: 91445},
 																			run: (*parser).callonParagraph307,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 14, offset: 91418},
+																				pos: position{line: 2882, col: 14, offset: 91445},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 14, offset: 91418},
+																					pos:        position{line: 2882, col: 14, offset: 91445},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43210,28 +43210,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph310,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2980, col: 8, offset: 94062},
+																		pos: position{line: 2981, col: 8, offset: 94089},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonParagraph312,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43240,9 +43240,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2977, col: 8, offset: 94012},
+																				pos: position{line: 2978, col: 8, offset: 94039},
 																				expr: &anyMatcher{
-																					line: 2977, col: 9, offset: 94013,
+																					line: 2978, col: 9, offset: 94040,
 																				},
 																			},
 																		},
@@ -43455,30 +43455,30 @@ var g = &grammar{
 				pos: position{line: 1890, col: 5, offset: 60860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2821, col: 5, offset: 89759},
+						pos: position{line: 2822, col: 5, offset: 89786},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2821, col: 5, offset: 89759},
+							pos: position{line: 2822, col: 5, offset: 89786},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2821, col: 5, offset: 89759},
+									pos: position{line: 2822, col: 5, offset: 89786},
 									expr: &seqExpr{
-										pos: position{line: 2822, col: 9, offset: 89770},
+										pos: position{line: 2823, col: 9, offset: 89797},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2822, col: 9, offset: 89770},
+												pos: position{line: 2823, col: 9, offset: 89797},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2825, col: 9, offset: 89833},
+												pos:   position{line: 2826, col: 9, offset: 89860},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2797, col: 18, offset: 89145},
+													pos: position{line: 2798, col: 18, offset: 89172},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2797, col: 19, offset: 89146},
+														pos: position{line: 2798, col: 19, offset: 89173},
 														expr: &charClassMatcher{
-															pos:        position{line: 2797, col: 19, offset: 89146},
+															pos:        position{line: 2798, col: 19, offset: 89173},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43489,28 +43489,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2825, col: 30, offset: 89854},
+												pos:        position{line: 2826, col: 30, offset: 89881},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2826, col: 9, offset: 89941},
+												pos: position{line: 2827, col: 9, offset: 89968},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2830, col: 5, offset: 90053},
+									pos:   position{line: 2831, col: 5, offset: 90080},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 11, offset: 90059},
+										pos: position{line: 2831, col: 11, offset: 90086},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2830, col: 11, offset: 90059},
+											pos: position{line: 2831, col: 11, offset: 90086},
 											expr: &charClassMatcher{
-												pos:        position{line: 2830, col: 11, offset: 90059},
+												pos:        position{line: 2831, col: 11, offset: 90086},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43520,32 +43520,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2833, col: 5, offset: 90117},
+									pos: position{line: 2834, col: 5, offset: 90144},
 									expr: &seqExpr{
-										pos: position{line: 2834, col: 9, offset: 90128},
+										pos: position{line: 2835, col: 9, offset: 90155},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2834, col: 9, offset: 90128},
+												pos:        position{line: 2835, col: 9, offset: 90155},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2835, col: 9, offset: 90177},
+												pos: position{line: 2836, col: 9, offset: 90204},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2839, col: 5, offset: 90257},
+									pos: position{line: 2840, col: 5, offset: 90284},
 									expr: &seqExpr{
-										pos: position{line: 2840, col: 9, offset: 90268},
+										pos: position{line: 2841, col: 9, offset: 90295},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2840, col: 9, offset: 90268},
+												pos: position{line: 2841, col: 9, offset: 90295},
 												expr: &charClassMatcher{
-													pos:        position{line: 2840, col: 9, offset: 90268},
+													pos:        position{line: 2841, col: 9, offset: 90295},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43554,13 +43554,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2840, col: 23, offset: 90282},
+												pos:        position{line: 2841, col: 23, offset: 90309},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2840, col: 27, offset: 90286},
+												pos:        position{line: 2841, col: 27, offset: 90313},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43573,12 +43573,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2962, col: 11, offset: 93725},
+						pos: position{line: 2963, col: 11, offset: 93752},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2962, col: 11, offset: 93725},
+							pos: position{line: 2963, col: 11, offset: 93752},
 							expr: &charClassMatcher{
-								pos:        position{line: 2962, col: 11, offset: 93725},
+								pos:        position{line: 2963, col: 11, offset: 93752},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43591,25 +43591,25 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 82024},
+						pos: position{line: 2544, col: 5, offset: 82051},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 82024},
+							pos: position{line: 2544, col: 5, offset: 82051},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2543, col: 5, offset: 82024},
+									pos: position{line: 2544, col: 5, offset: 82051},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2546, col: 5, offset: 82095},
+									pos:        position{line: 2547, col: 5, offset: 82122},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2546, col: 10, offset: 82100},
+									pos: position{line: 2547, col: 10, offset: 82127},
 									expr: &charClassMatcher{
-										pos:        position{line: 2546, col: 11, offset: 82101},
+										pos:        position{line: 2547, col: 11, offset: 82128},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43620,29 +43620,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 5, offset: 82287},
+						pos: position{line: 2553, col: 5, offset: 82314},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 5, offset: 82287},
+							pos: position{line: 2553, col: 5, offset: 82314},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2552, col: 5, offset: 82287},
+									pos: position{line: 2553, col: 5, offset: 82314},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2555, col: 5, offset: 82358},
+									pos: position{line: 2556, col: 5, offset: 82385},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2559, col: 5, offset: 82483},
+									pos:        position{line: 2560, col: 5, offset: 82510},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2559, col: 9, offset: 82487},
+									pos: position{line: 2560, col: 9, offset: 82514},
 									expr: &charClassMatcher{
-										pos:        position{line: 2559, col: 10, offset: 82488},
+										pos:        position{line: 2560, col: 10, offset: 82515},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43653,27 +43653,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2848, col: 5, offset: 90479},
+						pos: position{line: 2849, col: 5, offset: 90506},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2849, col: 9, offset: 90489},
+							pos: position{line: 2850, col: 9, offset: 90516},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2849, col: 10, offset: 90490},
+									pos:        position{line: 2850, col: 10, offset: 90517},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2851, col: 13, offset: 90587},
+									pos: position{line: 2852, col: 13, offset: 90614},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2851, col: 13, offset: 90587},
+											pos: position{line: 2852, col: 13, offset: 90614},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2854, col: 13, offset: 90687},
+											pos:        position{line: 2855, col: 13, offset: 90714},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43681,20 +43681,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2854, col: 19, offset: 90693},
+									pos:        position{line: 2855, col: 19, offset: 90720},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2857, col: 13, offset: 90731},
+									pos: position{line: 2858, col: 13, offset: 90758},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2857, col: 13, offset: 90731},
+											pos: position{line: 2858, col: 13, offset: 90758},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2860, col: 14, offset: 90824},
+											pos:        position{line: 2861, col: 14, offset: 90851},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43703,18 +43703,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2862, col: 12, offset: 90868},
+									pos: position{line: 2863, col: 12, offset: 90895},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2862, col: 12, offset: 90868},
+											pos:        position{line: 2863, col: 12, offset: 90895},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2862, col: 16, offset: 90872},
+											pos: position{line: 2863, col: 16, offset: 90899},
 											expr: &litMatcher{
-												pos:        position{line: 2862, col: 17, offset: 90873},
+												pos:        position{line: 2863, col: 17, offset: 90900},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44072,31 +44072,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2971, col: 18, offset: 93935},
+						pos: position{line: 2972, col: 18, offset: 93962},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2971, col: 18, offset: 93935},
+							pos: position{line: 2972, col: 18, offset: 93962},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44105,27 +44105,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2971, col: 26, offset: 93943},
+									pos: position{line: 2972, col: 26, offset: 93970},
 									expr: &actionExpr{
-										pos: position{line: 2967, col: 12, offset: 93835},
+										pos: position{line: 2968, col: 12, offset: 93862},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2967, col: 13, offset: 93836},
+											pos: position{line: 2968, col: 13, offset: 93863},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2967, col: 13, offset: 93836},
+													pos:        position{line: 2968, col: 13, offset: 93863},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 20, offset: 93843},
+													pos:        position{line: 2968, col: 20, offset: 93870},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 29, offset: 93852},
+													pos:        position{line: 2968, col: 29, offset: 93879},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44146,23 +44146,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80853},
+						pos: position{line: 2513, col: 5, offset: 80880},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80853},
+							pos: position{line: 2513, col: 5, offset: 80880},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 80853},
+									pos: position{line: 2513, col: 5, offset: 80880},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2515, col: 5, offset: 80929},
+									pos:   position{line: 2516, col: 5, offset: 80956},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2516, col: 9, offset: 80947},
+										pos: position{line: 2517, col: 9, offset: 80974},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2516, col: 10, offset: 80948},
+											pos:        position{line: 2517, col: 10, offset: 80975},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44213,10 +44213,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2870, col: 12, offset: 91133},
+						pos: position{line: 2871, col: 12, offset: 91160},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2870, col: 12, offset: 91133},
+							pos:        position{line: 2871, col: 12, offset: 91160},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44284,9 +44284,9 @@ var g = &grammar{
 					pos: position{line: 1929, col: 5, offset: 62039},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -44373,7 +44373,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1954, col: 7, offset: 62764},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89612},
+									pos:        position{line: 2813, col: 13, offset: 89639},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44433,9 +44433,9 @@ var g = &grammar{
 					pos: position{line: 1973, col: 5, offset: 63312},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -44467,7 +44467,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1954, col: 7, offset: 62764},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89612},
+												pos:        position{line: 2813, col: 13, offset: 89639},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44710,9 +44710,9 @@ var g = &grammar{
 					pos: position{line: 2021, col: 5, offset: 65080},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -44799,7 +44799,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2047, col: 7, offset: 65811},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89612},
+									pos:        position{line: 2813, col: 13, offset: 89639},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44859,9 +44859,9 @@ var g = &grammar{
 					pos: position{line: 2066, col: 5, offset: 66374},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -44893,7 +44893,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2047, col: 7, offset: 65811},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89612},
+												pos:        position{line: 2813, col: 13, offset: 89639},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45136,9 +45136,9 @@ var g = &grammar{
 					pos: position{line: 2114, col: 5, offset: 68320},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -45190,7 +45190,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2141, col: 7, offset: 69113},
 							expr: &charClassMatcher{
-								pos:        position{line: 2812, col: 13, offset: 89612},
+								pos:        position{line: 2813, col: 13, offset: 89639},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45296,9 +45296,9 @@ var g = &grammar{
 					pos: position{line: 2161, col: 5, offset: 69706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -45540,9 +45540,9 @@ var g = &grammar{
 					pos: position{line: 2209, col: 5, offset: 71538},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -45629,7 +45629,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2234, col: 7, offset: 72267},
 								expr: &charClassMatcher{
-									pos:        position{line: 2812, col: 13, offset: 89612},
+									pos:        position{line: 2813, col: 13, offset: 89639},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45689,9 +45689,9 @@ var g = &grammar{
 					pos: position{line: 2253, col: 5, offset: 72831},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&notExpr{
@@ -45723,7 +45723,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2234, col: 7, offset: 72267},
 											expr: &charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89612},
+												pos:        position{line: 2813, col: 13, offset: 89639},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45967,23 +45967,23 @@ var g = &grammar{
 									pos: position{line: 2294, col: 30, offset: 74404},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 5, offset: 80853},
+												pos: position{line: 2513, col: 5, offset: 80880},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2512, col: 5, offset: 80853},
+														pos: position{line: 2513, col: 5, offset: 80880},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 5, offset: 80929},
+														pos:   position{line: 2516, col: 5, offset: 80956},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2516, col: 9, offset: 80947},
+															pos: position{line: 2517, col: 9, offset: 80974},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2516, col: 10, offset: 80948},
+																pos:        position{line: 2517, col: 10, offset: 80975},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46122,23 +46122,23 @@ var g = &grammar{
 									pos: position{line: 2326, col: 32, offset: 75377},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2512, col: 5, offset: 80853},
+												pos: position{line: 2513, col: 5, offset: 80880},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2512, col: 5, offset: 80853},
+														pos: position{line: 2513, col: 5, offset: 80880},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2515, col: 5, offset: 80929},
+														pos:   position{line: 2516, col: 5, offset: 80956},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2516, col: 9, offset: 80947},
+															pos: position{line: 2517, col: 9, offset: 80974},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2516, col: 10, offset: 80948},
+																pos:        position{line: 2517, col: 10, offset: 80975},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46253,12 +46253,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2962, col: 11, offset: 93725},
+							pos: position{line: 2963, col: 11, offset: 93752},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2962, col: 11, offset: 93725},
+								pos: position{line: 2963, col: 11, offset: 93752},
 								expr: &charClassMatcher{
-									pos:        position{line: 2962, col: 11, offset: 93725},
+									pos:        position{line: 2963, col: 11, offset: 93752},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46275,28 +46275,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46305,9 +46305,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -46356,28 +46356,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2371, col: 5, offset: 76816},
 							expr: &choiceExpr{
-								pos: position{line: 2980, col: 8, offset: 94062},
+								pos: position{line: 2981, col: 8, offset: 94089},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2967, col: 12, offset: 93835},
+										pos: position{line: 2968, col: 12, offset: 93862},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2967, col: 13, offset: 93836},
+											pos: position{line: 2968, col: 13, offset: 93863},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2967, col: 13, offset: 93836},
+													pos:        position{line: 2968, col: 13, offset: 93863},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 20, offset: 93843},
+													pos:        position{line: 2968, col: 20, offset: 93870},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 29, offset: 93852},
+													pos:        position{line: 2968, col: 29, offset: 93879},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46386,9 +46386,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2977, col: 8, offset: 94012},
+										pos: position{line: 2978, col: 8, offset: 94039},
 										expr: &anyMatcher{
-											line: 2977, col: 9, offset: 94013,
+											line: 2978, col: 9, offset: 94040,
 										},
 									},
 								},
@@ -46401,30 +46401,30 @@ var g = &grammar{
 								pos: position{line: 2373, col: 9, offset: 76843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89759},
+										pos: position{line: 2822, col: 5, offset: 89786},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89759},
+											pos: position{line: 2822, col: 5, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2821, col: 5, offset: 89759},
+													pos: position{line: 2822, col: 5, offset: 89786},
 													expr: &seqExpr{
-														pos: position{line: 2822, col: 9, offset: 89770},
+														pos: position{line: 2823, col: 9, offset: 89797},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89770},
+																pos: position{line: 2823, col: 9, offset: 89797},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2825, col: 9, offset: 89833},
+																pos:   position{line: 2826, col: 9, offset: 89860},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2797, col: 18, offset: 89145},
+																	pos: position{line: 2798, col: 18, offset: 89172},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2797, col: 19, offset: 89146},
+																		pos: position{line: 2798, col: 19, offset: 89173},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2797, col: 19, offset: 89146},
+																			pos:        position{line: 2798, col: 19, offset: 89173},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46435,28 +46435,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2825, col: 30, offset: 89854},
+																pos:        position{line: 2826, col: 30, offset: 89881},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89941},
+																pos: position{line: 2827, col: 9, offset: 89968},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 5, offset: 90053},
+													pos:   position{line: 2831, col: 5, offset: 90080},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 90059},
+														pos: position{line: 2831, col: 11, offset: 90086},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2830, col: 11, offset: 90059},
+															pos: position{line: 2831, col: 11, offset: 90086},
 															expr: &charClassMatcher{
-																pos:        position{line: 2830, col: 11, offset: 90059},
+																pos:        position{line: 2831, col: 11, offset: 90086},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46466,32 +46466,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2833, col: 5, offset: 90117},
+													pos: position{line: 2834, col: 5, offset: 90144},
 													expr: &seqExpr{
-														pos: position{line: 2834, col: 9, offset: 90128},
+														pos: position{line: 2835, col: 9, offset: 90155},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2834, col: 9, offset: 90128},
+																pos:        position{line: 2835, col: 9, offset: 90155},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2835, col: 9, offset: 90177},
+																pos: position{line: 2836, col: 9, offset: 90204},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2839, col: 5, offset: 90257},
+													pos: position{line: 2840, col: 5, offset: 90284},
 													expr: &seqExpr{
-														pos: position{line: 2840, col: 9, offset: 90268},
+														pos: position{line: 2841, col: 9, offset: 90295},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2840, col: 9, offset: 90268},
+																pos: position{line: 2841, col: 9, offset: 90295},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2840, col: 9, offset: 90268},
+																	pos:        position{line: 2841, col: 9, offset: 90295},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46500,13 +46500,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 23, offset: 90282},
+																pos:        position{line: 2841, col: 23, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2840, col: 27, offset: 90286},
+																pos:        position{line: 2841, col: 27, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46519,12 +46519,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2962, col: 11, offset: 93725},
+										pos: position{line: 2963, col: 11, offset: 93752},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2962, col: 11, offset: 93725},
+											pos: position{line: 2963, col: 11, offset: 93752},
 											expr: &charClassMatcher{
-												pos:        position{line: 2962, col: 11, offset: 93725},
+												pos:        position{line: 2963, col: 11, offset: 93752},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46533,25 +46533,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2543, col: 5, offset: 82024},
+										pos: position{line: 2544, col: 5, offset: 82051},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2543, col: 5, offset: 82024},
+											pos: position{line: 2544, col: 5, offset: 82051},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2543, col: 5, offset: 82024},
+													pos: position{line: 2544, col: 5, offset: 82051},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2546, col: 5, offset: 82095},
+													pos:        position{line: 2547, col: 5, offset: 82122},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2546, col: 10, offset: 82100},
+													pos: position{line: 2547, col: 10, offset: 82127},
 													expr: &charClassMatcher{
-														pos:        position{line: 2546, col: 11, offset: 82101},
+														pos:        position{line: 2547, col: 11, offset: 82128},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46562,29 +46562,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2552, col: 5, offset: 82287},
+										pos: position{line: 2553, col: 5, offset: 82314},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2552, col: 5, offset: 82287},
+											pos: position{line: 2553, col: 5, offset: 82314},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2552, col: 5, offset: 82287},
+													pos: position{line: 2553, col: 5, offset: 82314},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2555, col: 5, offset: 82358},
+													pos: position{line: 2556, col: 5, offset: 82385},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2559, col: 5, offset: 82483},
+													pos:        position{line: 2560, col: 5, offset: 82510},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2559, col: 9, offset: 82487},
+													pos: position{line: 2560, col: 9, offset: 82514},
 													expr: &charClassMatcher{
-														pos:        position{line: 2559, col: 10, offset: 82488},
+														pos:        position{line: 2560, col: 10, offset: 82515},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46599,27 +46599,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90479},
+										pos: position{line: 2849, col: 5, offset: 90506},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2849, col: 9, offset: 90489},
+											pos: position{line: 2850, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 10, offset: 90490},
+													pos:        position{line: 2850, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2851, col: 13, offset: 90587},
+													pos: position{line: 2852, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2851, col: 13, offset: 90587},
+															pos: position{line: 2852, col: 13, offset: 90614},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2854, col: 13, offset: 90687},
+															pos:        position{line: 2855, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46627,20 +46627,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2854, col: 19, offset: 90693},
+													pos:        position{line: 2855, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2857, col: 13, offset: 90731},
+													pos: position{line: 2858, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2857, col: 13, offset: 90731},
+															pos: position{line: 2858, col: 13, offset: 90758},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2860, col: 14, offset: 90824},
+															pos:        position{line: 2861, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46649,18 +46649,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 12, offset: 90868},
+													pos: position{line: 2863, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2862, col: 12, offset: 90868},
+															pos:        position{line: 2863, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2862, col: 16, offset: 90872},
+															pos: position{line: 2863, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2862, col: 17, offset: 90873},
+																pos:        position{line: 2863, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46684,23 +46684,23 @@ var g = &grammar{
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80853},
+										pos: position{line: 2513, col: 5, offset: 80880},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80853},
+													pos: position{line: 2513, col: 5, offset: 80880},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80929},
+													pos:   position{line: 2516, col: 5, offset: 80956},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80947},
+														pos: position{line: 2517, col: 9, offset: 80974},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80948},
+															pos:        position{line: 2517, col: 10, offset: 80975},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47567,10 +47567,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2398, col: 26, offset: 77639},
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 10, offset: 93664},
+														pos: position{line: 2959, col: 10, offset: 93691},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2958, col: 10, offset: 93664},
+															pos:        position{line: 2959, col: 10, offset: 93691},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47581,28 +47581,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2398, col: 33, offset: 77646},
 													expr: &choiceExpr{
-														pos: position{line: 2980, col: 8, offset: 94062},
+														pos: position{line: 2981, col: 8, offset: 94089},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2967, col: 12, offset: 93835},
+																pos: position{line: 2968, col: 12, offset: 93862},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2967, col: 13, offset: 93836},
+																	pos: position{line: 2968, col: 13, offset: 93863},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 13, offset: 93836},
+																			pos:        position{line: 2968, col: 13, offset: 93863},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 20, offset: 93843},
+																			pos:        position{line: 2968, col: 20, offset: 93870},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2967, col: 29, offset: 93852},
+																			pos:        position{line: 2968, col: 29, offset: 93879},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47611,9 +47611,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2977, col: 8, offset: 94012},
+																pos: position{line: 2978, col: 8, offset: 94039},
 																expr: &anyMatcher{
-																	line: 2977, col: 9, offset: 94013,
+																	line: 2978, col: 9, offset: 94040,
 																},
 															},
 														},
@@ -47638,12 +47638,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2943, col: 7, offset: 93316},
+														pos: position{line: 2944, col: 7, offset: 93343},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2943, col: 7, offset: 93316},
+															pos: position{line: 2944, col: 7, offset: 93343},
 															expr: &charClassMatcher{
-																pos:        position{line: 2943, col: 7, offset: 93316},
+																pos:        position{line: 2944, col: 7, offset: 93343},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47677,12 +47677,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2943, col: 7, offset: 93316},
+														pos: position{line: 2944, col: 7, offset: 93343},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2943, col: 7, offset: 93316},
+															pos: position{line: 2944, col: 7, offset: 93343},
 															expr: &charClassMatcher{
-																pos:        position{line: 2943, col: 7, offset: 93316},
+																pos:        position{line: 2944, col: 7, offset: 93343},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47705,10 +47705,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 91133},
+										pos: position{line: 2871, col: 12, offset: 91160},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 12, offset: 91133},
+											pos:        position{line: 2871, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47743,9 +47743,9 @@ var g = &grammar{
 										pos: position{line: 2411, col: 9, offset: 78030},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2975, col: 11, offset: 93998},
+												pos: position{line: 2976, col: 11, offset: 94025},
 												expr: &anyMatcher{
-													line: 2975, col: 13, offset: 94000,
+													line: 2976, col: 13, offset: 94027,
 												},
 											},
 											&labeledExpr{
@@ -47755,30 +47755,30 @@ var g = &grammar{
 													pos: position{line: 2413, col: 13, offset: 78067},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2821, col: 5, offset: 89759},
+															pos: position{line: 2822, col: 5, offset: 89786},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2821, col: 5, offset: 89759},
+																pos: position{line: 2822, col: 5, offset: 89786},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2821, col: 5, offset: 89759},
+																		pos: position{line: 2822, col: 5, offset: 89786},
 																		expr: &seqExpr{
-																			pos: position{line: 2822, col: 9, offset: 89770},
+																			pos: position{line: 2823, col: 9, offset: 89797},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2822, col: 9, offset: 89770},
+																					pos: position{line: 2823, col: 9, offset: 89797},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2825, col: 9, offset: 89833},
+																					pos:   position{line: 2826, col: 9, offset: 89860},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2797, col: 18, offset: 89145},
+																						pos: position{line: 2798, col: 18, offset: 89172},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2797, col: 19, offset: 89146},
+																							pos: position{line: 2798, col: 19, offset: 89173},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2797, col: 19, offset: 89146},
+																								pos:        position{line: 2798, col: 19, offset: 89173},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47789,28 +47789,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2825, col: 30, offset: 89854},
+																					pos:        position{line: 2826, col: 30, offset: 89881},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2826, col: 9, offset: 89941},
+																					pos: position{line: 2827, col: 9, offset: 89968},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2830, col: 5, offset: 90053},
+																		pos:   position{line: 2831, col: 5, offset: 90080},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2830, col: 11, offset: 90059},
+																			pos: position{line: 2831, col: 11, offset: 90086},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2830, col: 11, offset: 90059},
+																				pos: position{line: 2831, col: 11, offset: 90086},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2830, col: 11, offset: 90059},
+																					pos:        position{line: 2831, col: 11, offset: 90086},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47820,32 +47820,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2833, col: 5, offset: 90117},
+																		pos: position{line: 2834, col: 5, offset: 90144},
 																		expr: &seqExpr{
-																			pos: position{line: 2834, col: 9, offset: 90128},
+																			pos: position{line: 2835, col: 9, offset: 90155},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2834, col: 9, offset: 90128},
+																					pos:        position{line: 2835, col: 9, offset: 90155},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2835, col: 9, offset: 90177},
+																					pos: position{line: 2836, col: 9, offset: 90204},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2839, col: 5, offset: 90257},
+																		pos: position{line: 2840, col: 5, offset: 90284},
 																		expr: &seqExpr{
-																			pos: position{line: 2840, col: 9, offset: 90268},
+																			pos: position{line: 2841, col: 9, offset: 90295},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2840, col: 9, offset: 90268},
+																					pos: position{line: 2841, col: 9, offset: 90295},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2840, col: 9, offset: 90268},
+																						pos:        position{line: 2841, col: 9, offset: 90295},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47854,13 +47854,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2840, col: 23, offset: 90282},
+																					pos:        position{line: 2841, col: 23, offset: 90309},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 27, offset: 90286},
+																					pos:        position{line: 2841, col: 27, offset: 90313},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47873,12 +47873,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2962, col: 11, offset: 93725},
+															pos: position{line: 2963, col: 11, offset: 93752},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2962, col: 11, offset: 93725},
+																pos: position{line: 2963, col: 11, offset: 93752},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2962, col: 11, offset: 93725},
+																	pos:        position{line: 2963, col: 11, offset: 93752},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47891,25 +47891,25 @@ var g = &grammar{
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2543, col: 5, offset: 82024},
+															pos: position{line: 2544, col: 5, offset: 82051},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2543, col: 5, offset: 82024},
+																pos: position{line: 2544, col: 5, offset: 82051},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2543, col: 5, offset: 82024},
+																		pos: position{line: 2544, col: 5, offset: 82051},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2546, col: 5, offset: 82095},
+																		pos:        position{line: 2547, col: 5, offset: 82122},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2546, col: 10, offset: 82100},
+																		pos: position{line: 2547, col: 10, offset: 82127},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2546, col: 11, offset: 82101},
+																			pos:        position{line: 2547, col: 11, offset: 82128},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47920,29 +47920,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2552, col: 5, offset: 82287},
+															pos: position{line: 2553, col: 5, offset: 82314},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2552, col: 5, offset: 82287},
+																pos: position{line: 2553, col: 5, offset: 82314},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2552, col: 5, offset: 82287},
+																		pos: position{line: 2553, col: 5, offset: 82314},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2555, col: 5, offset: 82358},
+																		pos: position{line: 2556, col: 5, offset: 82385},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2559, col: 5, offset: 82483},
+																		pos:        position{line: 2560, col: 5, offset: 82510},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2559, col: 9, offset: 82487},
+																		pos: position{line: 2560, col: 9, offset: 82514},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2559, col: 10, offset: 82488},
+																			pos:        position{line: 2560, col: 10, offset: 82515},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47953,27 +47953,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2848, col: 5, offset: 90479},
+															pos: position{line: 2849, col: 5, offset: 90506},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2849, col: 9, offset: 90489},
+																pos: position{line: 2850, col: 9, offset: 90516},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2849, col: 10, offset: 90490},
+																		pos:        position{line: 2850, col: 10, offset: 90517},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2851, col: 13, offset: 90587},
+																		pos: position{line: 2852, col: 13, offset: 90614},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2851, col: 13, offset: 90587},
+																				pos: position{line: 2852, col: 13, offset: 90614},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2854, col: 13, offset: 90687},
+																				pos:        position{line: 2855, col: 13, offset: 90714},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47981,20 +47981,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 19, offset: 90693},
+																		pos:        position{line: 2855, col: 19, offset: 90720},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2857, col: 13, offset: 90731},
+																		pos: position{line: 2858, col: 13, offset: 90758},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2857, col: 13, offset: 90731},
+																				pos: position{line: 2858, col: 13, offset: 90758},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2860, col: 14, offset: 90824},
+																				pos:        position{line: 2861, col: 14, offset: 90851},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48003,18 +48003,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2862, col: 12, offset: 90868},
+																		pos: position{line: 2863, col: 12, offset: 90895},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2862, col: 12, offset: 90868},
+																				pos:        position{line: 2863, col: 12, offset: 90895},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2862, col: 16, offset: 90872},
+																				pos: position{line: 2863, col: 16, offset: 90899},
 																				expr: &litMatcher{
-																					pos:        position{line: 2862, col: 17, offset: 90873},
+																					pos:        position{line: 2863, col: 17, offset: 90900},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48026,25 +48026,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2967, col: 12, offset: 93835},
+															pos: position{line: 2968, col: 12, offset: 93862},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2967, col: 13, offset: 93836},
+																pos: position{line: 2968, col: 13, offset: 93863},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 13, offset: 93836},
+																		pos:        position{line: 2968, col: 13, offset: 93863},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 20, offset: 93843},
+																		pos:        position{line: 2968, col: 20, offset: 93870},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2967, col: 29, offset: 93852},
+																		pos:        position{line: 2968, col: 29, offset: 93879},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48411,23 +48411,23 @@ var g = &grammar{
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 80853},
+															pos: position{line: 2513, col: 5, offset: 80880},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 80853},
+																pos: position{line: 2513, col: 5, offset: 80880},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 80853},
+																		pos: position{line: 2513, col: 5, offset: 80880},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2515, col: 5, offset: 80929},
+																		pos:   position{line: 2516, col: 5, offset: 80956},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2516, col: 9, offset: 80947},
+																			pos: position{line: 2517, col: 9, offset: 80974},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2516, col: 10, offset: 80948},
+																				pos:        position{line: 2517, col: 10, offset: 80975},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48461,10 +48461,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48475,28 +48475,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2980, col: 8, offset: 94062},
+																			pos: position{line: 2981, col: 8, offset: 94089},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48505,9 +48505,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2977, col: 8, offset: 94012},
+																					pos: position{line: 2978, col: 8, offset: 94039},
 																					expr: &anyMatcher{
-																						line: 2977, col: 9, offset: 94013,
+																						line: 2978, col: 9, offset: 94040,
 																					},
 																				},
 																			},
@@ -48560,10 +48560,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 12, offset: 91133},
+															pos: position{line: 2871, col: 12, offset: 91160},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 12, offset: 91133},
+																pos:        position{line: 2871, col: 12, offset: 91160},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48579,9 +48579,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -48609,9 +48609,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -48628,9 +48628,9 @@ var g = &grammar{
 					pos: position{line: 2442, col: 5, offset: 79189},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2975, col: 11, offset: 93998},
+							pos: position{line: 2976, col: 11, offset: 94025},
 							expr: &anyMatcher{
-								line: 2975, col: 13, offset: 94000,
+								line: 2976, col: 13, offset: 94027,
 							},
 						},
 						&labeledExpr{
@@ -48640,30 +48640,30 @@ var g = &grammar{
 								pos: position{line: 2444, col: 9, offset: 79218},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2821, col: 5, offset: 89759},
+										pos: position{line: 2822, col: 5, offset: 89786},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 5, offset: 89759},
+											pos: position{line: 2822, col: 5, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2821, col: 5, offset: 89759},
+													pos: position{line: 2822, col: 5, offset: 89786},
 													expr: &seqExpr{
-														pos: position{line: 2822, col: 9, offset: 89770},
+														pos: position{line: 2823, col: 9, offset: 89797},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2822, col: 9, offset: 89770},
+																pos: position{line: 2823, col: 9, offset: 89797},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2825, col: 9, offset: 89833},
+																pos:   position{line: 2826, col: 9, offset: 89860},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2797, col: 18, offset: 89145},
+																	pos: position{line: 2798, col: 18, offset: 89172},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2797, col: 19, offset: 89146},
+																		pos: position{line: 2798, col: 19, offset: 89173},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2797, col: 19, offset: 89146},
+																			pos:        position{line: 2798, col: 19, offset: 89173},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48674,28 +48674,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2825, col: 30, offset: 89854},
+																pos:        position{line: 2826, col: 30, offset: 89881},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2826, col: 9, offset: 89941},
+																pos: position{line: 2827, col: 9, offset: 89968},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 5, offset: 90053},
+													pos:   position{line: 2831, col: 5, offset: 90080},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 90059},
+														pos: position{line: 2831, col: 11, offset: 90086},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2830, col: 11, offset: 90059},
+															pos: position{line: 2831, col: 11, offset: 90086},
 															expr: &charClassMatcher{
-																pos:        position{line: 2830, col: 11, offset: 90059},
+																pos:        position{line: 2831, col: 11, offset: 90086},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48705,32 +48705,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2833, col: 5, offset: 90117},
+													pos: position{line: 2834, col: 5, offset: 90144},
 													expr: &seqExpr{
-														pos: position{line: 2834, col: 9, offset: 90128},
+														pos: position{line: 2835, col: 9, offset: 90155},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2834, col: 9, offset: 90128},
+																pos:        position{line: 2835, col: 9, offset: 90155},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2835, col: 9, offset: 90177},
+																pos: position{line: 2836, col: 9, offset: 90204},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2839, col: 5, offset: 90257},
+													pos: position{line: 2840, col: 5, offset: 90284},
 													expr: &seqExpr{
-														pos: position{line: 2840, col: 9, offset: 90268},
+														pos: position{line: 2841, col: 9, offset: 90295},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2840, col: 9, offset: 90268},
+																pos: position{line: 2841, col: 9, offset: 90295},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2840, col: 9, offset: 90268},
+																	pos:        position{line: 2841, col: 9, offset: 90295},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48739,13 +48739,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 23, offset: 90282},
+																pos:        position{line: 2841, col: 23, offset: 90309},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2840, col: 27, offset: 90286},
+																pos:        position{line: 2841, col: 27, offset: 90313},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48758,10 +48758,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2958, col: 10, offset: 93664},
+										pos: position{line: 2959, col: 10, offset: 93691},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2958, col: 10, offset: 93664},
+											pos:        position{line: 2959, col: 10, offset: 93691},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48773,27 +48773,89 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90479},
+										pos: position{line: 2544, col: 5, offset: 82051},
 										run: (*parser).callonAttributeStructuredValueElement35,
+										expr: &seqExpr{
+											pos: position{line: 2544, col: 5, offset: 82051},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2544, col: 5, offset: 82051},
+													run: (*parser).callonAttributeStructuredValueElement37,
+												},
+												&litMatcher{
+													pos:        position{line: 2547, col: 5, offset: 82122},
+													val:        "\\'",
+													ignoreCase: false,
+													want:       "\"\\\\'\"",
+												},
+												&andExpr{
+													pos: position{line: 2547, col: 10, offset: 82127},
+													expr: &charClassMatcher{
+														pos:        position{line: 2547, col: 11, offset: 82128},
+														val:        "[\\pL]",
+														classes:    []*unicode.RangeTable{rangeTable("L")},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
+											},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 2553, col: 5, offset: 82314},
+										run: (*parser).callonAttributeStructuredValueElement41,
+										expr: &seqExpr{
+											pos: position{line: 2553, col: 5, offset: 82314},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2553, col: 5, offset: 82314},
+													run: (*parser).callonAttributeStructuredValueElement43,
+												},
+												&andCodeExpr{
+													pos: position{line: 2556, col: 5, offset: 82385},
+													run: (*parser).callonAttributeStructuredValueElement44,
+												},
+												&litMatcher{
+													pos:        position{line: 2560, col: 5, offset: 82510},
+													val:        "'",
+													ignoreCase: false,
+													want:       "\"'\"",
+												},
+												&andExpr{
+													pos: position{line: 2560, col: 9, offset: 82514},
+													expr: &charClassMatcher{
+														pos:        position{line: 2560, col: 10, offset: 82515},
+														val:        "[\\pL]",
+														classes:    []*unicode.RangeTable{rangeTable("L")},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
+											},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 2849, col: 5, offset: 90506},
+										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2849, col: 9, offset: 90489},
+											pos: position{line: 2850, col: 9, offset: 90516},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 10, offset: 90490},
+													pos:        position{line: 2850, col: 10, offset: 90517},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2851, col: 13, offset: 90587},
+													pos: position{line: 2852, col: 13, offset: 90614},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2851, col: 13, offset: 90587},
-															run: (*parser).callonAttributeStructuredValueElement39,
+															pos: position{line: 2852, col: 13, offset: 90614},
+															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2854, col: 13, offset: 90687},
+															pos:        position{line: 2855, col: 13, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48801,20 +48863,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2854, col: 19, offset: 90693},
+													pos:        position{line: 2855, col: 19, offset: 90720},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2857, col: 13, offset: 90731},
+													pos: position{line: 2858, col: 13, offset: 90758},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2857, col: 13, offset: 90731},
-															run: (*parser).callonAttributeStructuredValueElement43,
+															pos: position{line: 2858, col: 13, offset: 90758},
+															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2860, col: 14, offset: 90824},
+															pos:        position{line: 2861, col: 14, offset: 90851},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48823,18 +48885,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 12, offset: 90868},
+													pos: position{line: 2863, col: 12, offset: 90895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2862, col: 12, offset: 90868},
+															pos:        position{line: 2863, col: 12, offset: 90895},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2862, col: 16, offset: 90872},
+															pos: position{line: 2863, col: 16, offset: 90899},
 															expr: &litMatcher{
-																pos:        position{line: 2862, col: 17, offset: 90873},
+																pos:        position{line: 2863, col: 17, offset: 90900},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48846,31 +48908,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79329},
+										pos:  position{line: 2449, col: 11, offset: 79356},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79345},
+										pos:  position{line: 2450, col: 11, offset: 79372},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 80853},
-										run: (*parser).callonAttributeStructuredValueElement51,
+										pos: position{line: 2513, col: 5, offset: 80880},
+										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 80853},
+											pos: position{line: 2513, col: 5, offset: 80880},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 80853},
-													run: (*parser).callonAttributeStructuredValueElement53,
+													pos: position{line: 2513, col: 5, offset: 80880},
+													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2515, col: 5, offset: 80929},
+													pos:   position{line: 2516, col: 5, offset: 80956},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2516, col: 9, offset: 80947},
-														run: (*parser).callonAttributeStructuredValueElement55,
+														pos: position{line: 2517, col: 9, offset: 80974},
+														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2516, col: 10, offset: 80948},
+															pos:        position{line: 2517, col: 10, offset: 80975},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48883,7 +48945,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1226, col: 23, offset: 37843},
-										run: (*parser).callonAttributeStructuredValueElement57,
+										run: (*parser).callonAttributeStructuredValueElement70,
 										expr: &seqExpr{
 											pos: position{line: 1226, col: 23, offset: 37843},
 											exprs: []interface{}{
@@ -48898,7 +48960,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1226, col: 56, offset: 37876},
-														run: (*parser).callonAttributeStructuredValueElement61,
+														run: (*parser).callonAttributeStructuredValueElement74,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1226, col: 56, offset: 37876},
 															expr: &charClassMatcher{
@@ -48921,25 +48983,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 12, offset: 93835},
-										run: (*parser).callonAttributeStructuredValueElement65,
+										pos: position{line: 2968, col: 12, offset: 93862},
+										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2967, col: 13, offset: 93836},
+											pos: position{line: 2968, col: 13, offset: 93863},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2967, col: 13, offset: 93836},
+													pos:        position{line: 2968, col: 13, offset: 93863},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 20, offset: 93843},
+													pos:        position{line: 2968, col: 20, offset: 93870},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2967, col: 29, offset: 93852},
+													pos:        position{line: 2968, col: 29, offset: 93879},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -48948,10 +49010,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 12, offset: 91133},
-										run: (*parser).callonAttributeStructuredValueElement70,
+										pos: position{line: 2871, col: 12, offset: 91160},
+										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2870, col: 12, offset: 91133},
+											pos:        position{line: 2871, col: 12, offset: 91160},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48967,49 +49029,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2460, col: 1, offset: 79615},
+			pos:  position{line: 2461, col: 1, offset: 79642},
 			expr: &actionExpr{
-				pos: position{line: 2462, col: 5, offset: 79697},
+				pos: position{line: 2463, col: 5, offset: 79724},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2462, col: 5, offset: 79697},
+					pos: position{line: 2463, col: 5, offset: 79724},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2462, col: 5, offset: 79697},
+							pos: position{line: 2463, col: 5, offset: 79724},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2465, col: 5, offset: 79762},
+							pos:   position{line: 2466, col: 5, offset: 79789},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2466, col: 9, offset: 79780},
+								pos: position{line: 2467, col: 9, offset: 79807},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2466, col: 9, offset: 79780},
+										pos:  position{line: 2467, col: 9, offset: 79807},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 11, offset: 79801},
+										pos:  position{line: 2468, col: 11, offset: 79828},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79824},
+										pos:  position{line: 2469, col: 11, offset: 79851},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79840},
+										pos:  position{line: 2470, col: 11, offset: 79867},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79869},
+										pos:  position{line: 2471, col: 11, offset: 79896},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79895},
+										pos:  position{line: 2472, col: 11, offset: 79922},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79921},
+										pos:  position{line: 2473, col: 11, offset: 79948},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49028,12 +49090,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2943, col: 7, offset: 93316},
+														pos: position{line: 2944, col: 7, offset: 93343},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2943, col: 7, offset: 93316},
+															pos: position{line: 2944, col: 7, offset: 93343},
 															expr: &charClassMatcher{
-																pos:        position{line: 2943, col: 7, offset: 93316},
+																pos:        position{line: 2944, col: 7, offset: 93343},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49067,12 +49129,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2943, col: 7, offset: 93316},
+														pos: position{line: 2944, col: 7, offset: 93343},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2943, col: 7, offset: 93316},
+															pos: position{line: 2944, col: 7, offset: 93343},
 															expr: &charClassMatcher{
-																pos:        position{line: 2943, col: 7, offset: 93316},
+																pos:        position{line: 2944, col: 7, offset: 93343},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49114,17 +49176,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2812, col: 13, offset: 89612},
+																		pos:        position{line: 2813, col: 13, offset: 89639},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2958, col: 10, offset: 93664},
+																		pos: position{line: 2959, col: 10, offset: 93691},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2958, col: 10, offset: 93664},
+																			pos:        position{line: 2959, col: 10, offset: 93691},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49150,10 +49212,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49170,10 +49232,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49193,17 +49255,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89612},
+																							pos:        position{line: 2813, col: 13, offset: 89639},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49234,10 +49296,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49254,10 +49316,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2958, col: 10, offset: 93664},
+																			pos: position{line: 2959, col: 10, offset: 93691},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2958, col: 10, offset: 93664},
+																				pos:        position{line: 2959, col: 10, offset: 93691},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49277,17 +49339,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2812, col: 13, offset: 89612},
+																							pos:        position{line: 2813, col: 13, offset: 89639},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2958, col: 10, offset: 93664},
+																							pos: position{line: 2959, col: 10, offset: 93691},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2958, col: 10, offset: 93664},
+																								pos:        position{line: 2959, col: 10, offset: 93691},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49314,15 +49376,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 80000},
+										pos:  position{line: 2476, col: 11, offset: 80027},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80020},
+										pos:  position{line: 2477, col: 11, offset: 80047},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80043},
+										pos:  position{line: 2478, col: 11, offset: 80070},
 										name: "InlineMenu",
 									},
 								},
@@ -49334,22 +49396,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2481, col: 1, offset: 80100},
+			pos:  position{line: 2482, col: 1, offset: 80127},
 			expr: &actionExpr{
-				pos: position{line: 2483, col: 5, offset: 80188},
+				pos: position{line: 2484, col: 5, offset: 80215},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2483, col: 5, offset: 80188},
+					pos: position{line: 2484, col: 5, offset: 80215},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2483, col: 5, offset: 80188},
+							pos: position{line: 2484, col: 5, offset: 80215},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2486, col: 5, offset: 80265},
+							pos:   position{line: 2487, col: 5, offset: 80292},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2487, col: 9, offset: 80283},
+								pos: position{line: 2488, col: 9, offset: 80310},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44933},
@@ -49404,10 +49466,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2958, col: 10, offset: 93664},
+																					pos: position{line: 2959, col: 10, offset: 93691},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2958, col: 10, offset: 93664},
+																						pos:        position{line: 2959, col: 10, offset: 93691},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49418,25 +49480,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2967, col: 12, offset: 93835},
+																					pos: position{line: 2968, col: 12, offset: 93862},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2967, col: 13, offset: 93836},
+																						pos: position{line: 2968, col: 13, offset: 93863},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 13, offset: 93836},
+																								pos:        position{line: 2968, col: 13, offset: 93863},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 20, offset: 93843},
+																								pos:        position{line: 2968, col: 20, offset: 93870},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2967, col: 29, offset: 93852},
+																								pos:        position{line: 2968, col: 29, offset: 93879},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49473,7 +49535,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89612},
+														pos:        position{line: 2813, col: 13, offset: 89639},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49519,10 +49581,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49533,25 +49595,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49574,12 +49636,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2962, col: 11, offset: 93725},
+																									pos: position{line: 2963, col: 11, offset: 93752},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2962, col: 11, offset: 93725},
+																										pos: position{line: 2963, col: 11, offset: 93752},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2962, col: 11, offset: 93725},
+																											pos:        position{line: 2963, col: 11, offset: 93752},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49608,25 +49670,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2967, col: 12, offset: 93835},
+																							pos: position{line: 2968, col: 12, offset: 93862},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2967, col: 13, offset: 93836},
+																								pos: position{line: 2968, col: 13, offset: 93863},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 13, offset: 93836},
+																										pos:        position{line: 2968, col: 13, offset: 93863},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 20, offset: 93843},
+																										pos:        position{line: 2968, col: 20, offset: 93870},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2967, col: 29, offset: 93852},
+																										pos:        position{line: 2968, col: 29, offset: 93879},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49653,10 +49715,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2958, col: 10, offset: 93664},
+																				pos: position{line: 2959, col: 10, offset: 93691},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2958, col: 10, offset: 93664},
+																					pos:        position{line: 2959, col: 10, offset: 93691},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49667,25 +49729,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2967, col: 12, offset: 93835},
+																				pos: position{line: 2968, col: 12, offset: 93862},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2967, col: 13, offset: 93836},
+																					pos: position{line: 2968, col: 13, offset: 93863},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 13, offset: 93836},
+																							pos:        position{line: 2968, col: 13, offset: 93863},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 20, offset: 93843},
+																							pos:        position{line: 2968, col: 20, offset: 93870},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2967, col: 29, offset: 93852},
+																							pos:        position{line: 2968, col: 29, offset: 93879},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49721,7 +49783,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 13, offset: 89612},
+														pos:        position{line: 2813, col: 13, offset: 89639},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49732,7 +49794,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 57, offset: 80331},
+										pos:  position{line: 2488, col: 57, offset: 80358},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49744,16 +49806,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2492, col: 1, offset: 80391},
+			pos:  position{line: 2493, col: 1, offset: 80418},
 			expr: &seqExpr{
-				pos: position{line: 2494, col: 5, offset: 80467},
+				pos: position{line: 2495, col: 5, offset: 80494},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2494, col: 5, offset: 80467},
+						pos: position{line: 2495, col: 5, offset: 80494},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2497, col: 5, offset: 80532},
+						pos:  position{line: 2498, col: 5, offset: 80559},
 						name: "QuotedText",
 					},
 				},
@@ -49761,22 +49823,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2499, col: 1, offset: 80545},
+			pos:  position{line: 2500, col: 1, offset: 80572},
 			expr: &actionExpr{
-				pos: position{line: 2501, col: 5, offset: 80627},
+				pos: position{line: 2502, col: 5, offset: 80654},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2501, col: 5, offset: 80627},
+					pos: position{line: 2502, col: 5, offset: 80654},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2501, col: 5, offset: 80627},
+							pos: position{line: 2502, col: 5, offset: 80654},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2504, col: 5, offset: 80698},
+							pos:   position{line: 2505, col: 5, offset: 80725},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2505, col: 9, offset: 80716},
+								pos:  position{line: 2506, col: 9, offset: 80743},
 								name: "Symbol",
 							},
 						},
@@ -49786,103 +49848,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2563, col: 1, offset: 82540},
+			pos:  position{line: 2564, col: 1, offset: 82567},
 			expr: &choiceExpr{
-				pos: position{line: 2565, col: 5, offset: 82570},
+				pos: position{line: 2566, col: 5, offset: 82597},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2565, col: 5, offset: 82570},
+						pos: position{line: 2566, col: 5, offset: 82597},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 5, offset: 82570},
+							pos: position{line: 2566, col: 5, offset: 82597},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 5, offset: 82570},
+									pos:        position{line: 2566, col: 5, offset: 82597},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2565, col: 10, offset: 82575},
+									pos: position{line: 2566, col: 10, offset: 82602},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2565, col: 10, offset: 82575},
+											pos:  position{line: 2566, col: 10, offset: 82602},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2594, col: 14, offset: 83673},
+											pos: position{line: 2595, col: 14, offset: 83700},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2594, col: 14, offset: 83673},
+												pos:        position{line: 2595, col: 14, offset: 83700},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 14, offset: 83739},
+											pos: position{line: 2599, col: 14, offset: 83766},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2598, col: 14, offset: 83739},
+												pos:        position{line: 2599, col: 14, offset: 83766},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 15, offset: 83808},
+											pos: position{line: 2603, col: 15, offset: 83835},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2602, col: 15, offset: 83808},
+												pos:        position{line: 2603, col: 15, offset: 83835},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 13, offset: 83873},
+											pos: position{line: 2607, col: 13, offset: 83900},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2606, col: 13, offset: 83873},
+												pos:        position{line: 2607, col: 13, offset: 83900},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2634, col: 21, offset: 84443},
+											pos: position{line: 2635, col: 21, offset: 84470},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2634, col: 21, offset: 84443},
+												pos:        position{line: 2635, col: 21, offset: 84470},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 5, offset: 84029},
+											pos: position{line: 2614, col: 5, offset: 84056},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2613, col: 5, offset: 84029},
+												pos: position{line: 2614, col: 5, offset: 84056},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2613, col: 5, offset: 84029},
+														pos:        position{line: 2614, col: 5, offset: 84056},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2614, col: 5, offset: 84039},
+														pos: position{line: 2615, col: 5, offset: 84066},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2618, col: 6, offset: 84126},
+														pos: position{line: 2619, col: 6, offset: 84153},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2958, col: 10, offset: 93664},
+																pos: position{line: 2959, col: 10, offset: 93691},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2958, col: 10, offset: 93664},
+																	pos:        position{line: 2959, col: 10, offset: 93691},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49890,30 +49952,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2618, col: 14, offset: 84134},
+																pos: position{line: 2619, col: 14, offset: 84161},
 																expr: &choiceExpr{
-																	pos: position{line: 2980, col: 8, offset: 94062},
+																	pos: position{line: 2981, col: 8, offset: 94089},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 12, offset: 93835},
+																			pos: position{line: 2968, col: 12, offset: 93862},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2967, col: 13, offset: 93836},
+																				pos: position{line: 2968, col: 13, offset: 93863},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 13, offset: 93836},
+																						pos:        position{line: 2968, col: 13, offset: 93863},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 20, offset: 93843},
+																						pos:        position{line: 2968, col: 20, offset: 93870},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2967, col: 29, offset: 93852},
+																						pos:        position{line: 2968, col: 29, offset: 93879},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49922,9 +49984,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2977, col: 8, offset: 94012},
+																			pos: position{line: 2978, col: 8, offset: 94039},
 																			expr: &anyMatcher{
-																				line: 2977, col: 9, offset: 94013,
+																				line: 2978, col: 9, offset: 94040,
 																			},
 																		},
 																	},
@@ -49936,53 +49998,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2623, col: 5, offset: 84254},
+											pos: position{line: 2624, col: 5, offset: 84281},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2623, col: 5, offset: 84254},
+												pos: position{line: 2624, col: 5, offset: 84281},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2623, col: 5, offset: 84254},
+														pos:        position{line: 2624, col: 5, offset: 84281},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2624, col: 5, offset: 84264},
+														pos: position{line: 2625, col: 5, offset: 84291},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2628, col: 5, offset: 84353},
+														pos: position{line: 2629, col: 5, offset: 84380},
 														expr: &choiceExpr{
-															pos: position{line: 2628, col: 7, offset: 84355},
+															pos: position{line: 2629, col: 7, offset: 84382},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89612},
+																	pos:        position{line: 2813, col: 13, offset: 89639},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 12, offset: 93835},
+																	pos: position{line: 2968, col: 12, offset: 93862},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2967, col: 13, offset: 93836},
+																		pos: position{line: 2968, col: 13, offset: 93863},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 13, offset: 93836},
+																				pos:        position{line: 2968, col: 13, offset: 93863},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 20, offset: 93843},
+																				pos:        position{line: 2968, col: 20, offset: 93870},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2967, col: 29, offset: 93852},
+																				pos:        position{line: 2968, col: 29, offset: 93879},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -49991,9 +50053,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -50003,30 +50065,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2638, col: 20, offset: 84513},
+											pos: position{line: 2639, col: 20, offset: 84540},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2638, col: 20, offset: 84513},
+												pos:        position{line: 2639, col: 20, offset: 84540},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2642, col: 21, offset: 84584},
+											pos: position{line: 2643, col: 21, offset: 84611},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2642, col: 21, offset: 84584},
+												pos:        position{line: 2643, col: 21, offset: 84611},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2646, col: 20, offset: 84654},
+											pos: position{line: 2647, col: 20, offset: 84681},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2646, col: 20, offset: 84654},
+												pos:        position{line: 2647, col: 20, offset: 84681},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50038,73 +50100,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2569, col: 7, offset: 82824},
+						pos:  position{line: 2570, col: 7, offset: 82851},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 14, offset: 83673},
+						pos: position{line: 2595, col: 14, offset: 83700},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 14, offset: 83673},
+							pos:        position{line: 2595, col: 14, offset: 83700},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 14, offset: 83739},
+						pos: position{line: 2599, col: 14, offset: 83766},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2598, col: 14, offset: 83739},
+							pos:        position{line: 2599, col: 14, offset: 83766},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 15, offset: 83808},
+						pos: position{line: 2603, col: 15, offset: 83835},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 15, offset: 83808},
+							pos:        position{line: 2603, col: 15, offset: 83835},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 13, offset: 83873},
+						pos: position{line: 2607, col: 13, offset: 83900},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 13, offset: 83873},
+							pos:        position{line: 2607, col: 13, offset: 83900},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2613, col: 5, offset: 84029},
+						pos: position{line: 2614, col: 5, offset: 84056},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2613, col: 5, offset: 84029},
+							pos: position{line: 2614, col: 5, offset: 84056},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2613, col: 5, offset: 84029},
+									pos:        position{line: 2614, col: 5, offset: 84056},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2614, col: 5, offset: 84039},
+									pos: position{line: 2615, col: 5, offset: 84066},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2618, col: 6, offset: 84126},
+									pos: position{line: 2619, col: 6, offset: 84153},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2958, col: 10, offset: 93664},
+											pos: position{line: 2959, col: 10, offset: 93691},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 10, offset: 93664},
+												pos:        position{line: 2959, col: 10, offset: 93691},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50112,30 +50174,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2618, col: 14, offset: 84134},
+											pos: position{line: 2619, col: 14, offset: 84161},
 											expr: &choiceExpr{
-												pos: position{line: 2980, col: 8, offset: 94062},
+												pos: position{line: 2981, col: 8, offset: 94089},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2967, col: 12, offset: 93835},
+														pos: position{line: 2968, col: 12, offset: 93862},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2967, col: 13, offset: 93836},
+															pos: position{line: 2968, col: 13, offset: 93863},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2967, col: 13, offset: 93836},
+																	pos:        position{line: 2968, col: 13, offset: 93863},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 20, offset: 93843},
+																	pos:        position{line: 2968, col: 20, offset: 93870},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2967, col: 29, offset: 93852},
+																	pos:        position{line: 2968, col: 29, offset: 93879},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50144,9 +50206,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2977, col: 8, offset: 94012},
+														pos: position{line: 2978, col: 8, offset: 94039},
 														expr: &anyMatcher{
-															line: 2977, col: 9, offset: 94013,
+															line: 2978, col: 9, offset: 94040,
 														},
 													},
 												},
@@ -50158,53 +50220,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2623, col: 5, offset: 84254},
+						pos: position{line: 2624, col: 5, offset: 84281},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2623, col: 5, offset: 84254},
+							pos: position{line: 2624, col: 5, offset: 84281},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2623, col: 5, offset: 84254},
+									pos:        position{line: 2624, col: 5, offset: 84281},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2624, col: 5, offset: 84264},
+									pos: position{line: 2625, col: 5, offset: 84291},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2628, col: 5, offset: 84353},
+									pos: position{line: 2629, col: 5, offset: 84380},
 									expr: &choiceExpr{
-										pos: position{line: 2628, col: 7, offset: 84355},
+										pos: position{line: 2629, col: 7, offset: 84382},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 13, offset: 89612},
+												pos:        position{line: 2813, col: 13, offset: 89639},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2967, col: 12, offset: 93835},
+												pos: position{line: 2968, col: 12, offset: 93862},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2967, col: 13, offset: 93836},
+													pos: position{line: 2968, col: 13, offset: 93863},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2967, col: 13, offset: 93836},
+															pos:        position{line: 2968, col: 13, offset: 93863},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 20, offset: 93843},
+															pos:        position{line: 2968, col: 20, offset: 93870},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2967, col: 29, offset: 93852},
+															pos:        position{line: 2968, col: 29, offset: 93879},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50213,9 +50275,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2977, col: 8, offset: 94012},
+												pos: position{line: 2978, col: 8, offset: 94039},
 												expr: &anyMatcher{
-													line: 2977, col: 9, offset: 94013,
+													line: 2978, col: 9, offset: 94040,
 												},
 											},
 										},
@@ -50225,40 +50287,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2634, col: 21, offset: 84443},
+						pos: position{line: 2635, col: 21, offset: 84470},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2634, col: 21, offset: 84443},
+							pos:        position{line: 2635, col: 21, offset: 84470},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2638, col: 20, offset: 84513},
+						pos: position{line: 2639, col: 20, offset: 84540},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2638, col: 20, offset: 84513},
+							pos:        position{line: 2639, col: 20, offset: 84540},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2642, col: 21, offset: 84584},
+						pos: position{line: 2643, col: 21, offset: 84611},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2642, col: 21, offset: 84584},
+							pos:        position{line: 2643, col: 21, offset: 84611},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2646, col: 20, offset: 84654},
+						pos: position{line: 2647, col: 20, offset: 84681},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2646, col: 20, offset: 84654},
+							pos:        position{line: 2647, col: 20, offset: 84681},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50269,24 +50331,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2580, col: 1, offset: 83014},
+			pos:  position{line: 2581, col: 1, offset: 83041},
 			expr: &choiceExpr{
-				pos: position{line: 2581, col: 5, offset: 83036},
+				pos: position{line: 2582, col: 5, offset: 83063},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 83036},
+						pos: position{line: 2582, col: 5, offset: 83063},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 83036},
+							pos: position{line: 2582, col: 5, offset: 83063},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 83036},
+									pos:        position{line: 2582, col: 5, offset: 83063},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2581, col: 11, offset: 83042},
+									pos: position{line: 2582, col: 11, offset: 83069},
 									expr: &seqExpr{
 										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
@@ -50319,21 +50381,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 7, offset: 83195},
+						pos: position{line: 2585, col: 7, offset: 83222},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2584, col: 7, offset: 83195},
+							pos: position{line: 2585, col: 7, offset: 83222},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2584, col: 7, offset: 83195},
+									pos:        position{line: 2585, col: 7, offset: 83222},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2584, col: 13, offset: 83201},
+									pos: position{line: 2585, col: 13, offset: 83228},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2584, col: 14, offset: 83202},
+										pos:  position{line: 2585, col: 14, offset: 83229},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50341,19 +50403,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 7, offset: 83352},
+						pos: position{line: 2588, col: 7, offset: 83379},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2587, col: 7, offset: 83352},
+							pos: position{line: 2588, col: 7, offset: 83379},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2587, col: 7, offset: 83352},
+									pos:        position{line: 2588, col: 7, offset: 83379},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2587, col: 12, offset: 83357},
+									pos: position{line: 2588, col: 12, offset: 83384},
 									expr: &seqExpr{
 										pos: position{line: 2127, col: 5, offset: 68726},
 										exprs: []interface{}{
@@ -50386,21 +50448,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 7, offset: 83510},
+						pos: position{line: 2591, col: 7, offset: 83537},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2590, col: 7, offset: 83510},
+							pos: position{line: 2591, col: 7, offset: 83537},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2590, col: 7, offset: 83510},
+									pos:        position{line: 2591, col: 7, offset: 83537},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2590, col: 12, offset: 83515},
+									pos: position{line: 2591, col: 12, offset: 83542},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2590, col: 13, offset: 83516},
+										pos:  position{line: 2591, col: 13, offset: 83543},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50412,63 +50474,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2723, col: 1, offset: 86556},
+			pos:  position{line: 2724, col: 1, offset: 86583},
 			expr: &actionExpr{
-				pos: position{line: 2723, col: 26, offset: 86581},
+				pos: position{line: 2724, col: 26, offset: 86608},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2723, col: 26, offset: 86581},
+					pos: position{line: 2724, col: 26, offset: 86608},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2723, col: 26, offset: 86581},
+							pos:   position{line: 2724, col: 26, offset: 86608},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2723, col: 31, offset: 86586},
+								pos: position{line: 2724, col: 31, offset: 86613},
 								expr: &actionExpr{
-									pos: position{line: 2728, col: 5, offset: 86649},
+									pos: position{line: 2729, col: 5, offset: 86676},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2728, col: 5, offset: 86649},
+										pos: position{line: 2729, col: 5, offset: 86676},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2975, col: 11, offset: 93998},
+												pos: position{line: 2976, col: 11, offset: 94025},
 												expr: &anyMatcher{
-													line: 2975, col: 13, offset: 94000,
+													line: 2976, col: 13, offset: 94027,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2731, col: 5, offset: 86775},
+												pos:   position{line: 2732, col: 5, offset: 86802},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2731, col: 16, offset: 86786},
+													pos: position{line: 2732, col: 16, offset: 86813},
 													expr: &actionExpr{
-														pos: position{line: 2731, col: 17, offset: 86787},
+														pos: position{line: 2732, col: 17, offset: 86814},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2731, col: 17, offset: 86787},
+															pos: position{line: 2732, col: 17, offset: 86814},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2731, col: 17, offset: 86787},
+																	pos:   position{line: 2732, col: 17, offset: 86814},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2950, col: 12, offset: 93491},
+																		pos: position{line: 2951, col: 12, offset: 93518},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2950, col: 13, offset: 93492},
+																			pos: position{line: 2951, col: 13, offset: 93519},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2950, col: 13, offset: 93492},
+																					pos: position{line: 2951, col: 13, offset: 93519},
 																					expr: &litMatcher{
-																						pos:        position{line: 2950, col: 13, offset: 93492},
+																						pos:        position{line: 2951, col: 13, offset: 93519},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2950, col: 18, offset: 93497},
+																					pos: position{line: 2951, col: 18, offset: 93524},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2950, col: 18, offset: 93497},
+																						pos:        position{line: 2951, col: 18, offset: 93524},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50480,7 +50542,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2731, col: 27, offset: 86797},
+																	pos:        position{line: 2732, col: 27, offset: 86824},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50491,38 +50553,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86825},
+												pos:   position{line: 2733, col: 5, offset: 86852},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 12, offset: 86832},
+													pos: position{line: 2733, col: 12, offset: 86859},
 													expr: &choiceExpr{
-														pos: position{line: 2733, col: 9, offset: 86842},
+														pos: position{line: 2734, col: 9, offset: 86869},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2733, col: 9, offset: 86842},
+																pos: position{line: 2734, col: 9, offset: 86869},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2733, col: 9, offset: 86842},
+																	pos:        position{line: 2734, col: 9, offset: 86869},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2734, col: 11, offset: 86889},
+																pos: position{line: 2735, col: 11, offset: 86916},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 11, offset: 86889},
+																	pos:        position{line: 2735, col: 11, offset: 86916},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2735, col: 11, offset: 86937},
+																pos: position{line: 2736, col: 11, offset: 86964},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 11, offset: 86937},
+																	pos:        position{line: 2736, col: 11, offset: 86964},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50533,38 +50595,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 86987},
+												pos:   position{line: 2738, col: 5, offset: 87014},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 12, offset: 86994},
+													pos: position{line: 2738, col: 12, offset: 87021},
 													expr: &choiceExpr{
-														pos: position{line: 2738, col: 9, offset: 87004},
+														pos: position{line: 2739, col: 9, offset: 87031},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2738, col: 9, offset: 87004},
+																pos: position{line: 2739, col: 9, offset: 87031},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 9, offset: 87004},
+																	pos:        position{line: 2739, col: 9, offset: 87031},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 87051},
+																pos: position{line: 2740, col: 11, offset: 87078},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 87051},
+																	pos:        position{line: 2740, col: 11, offset: 87078},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87101},
+																pos: position{line: 2741, col: 11, offset: 87128},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87101},
+																	pos:        position{line: 2741, col: 11, offset: 87128},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50575,32 +50637,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 87152},
+												pos:   position{line: 2743, col: 5, offset: 87179},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 12, offset: 87159},
+													pos: position{line: 2743, col: 12, offset: 87186},
 													expr: &choiceExpr{
-														pos: position{line: 2742, col: 13, offset: 87160},
+														pos: position{line: 2743, col: 13, offset: 87187},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2950, col: 12, offset: 93491},
+																pos: position{line: 2951, col: 12, offset: 93518},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2950, col: 13, offset: 93492},
+																	pos: position{line: 2951, col: 13, offset: 93519},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2950, col: 13, offset: 93492},
+																			pos: position{line: 2951, col: 13, offset: 93519},
 																			expr: &litMatcher{
-																				pos:        position{line: 2950, col: 13, offset: 93492},
+																				pos:        position{line: 2951, col: 13, offset: 93519},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2950, col: 18, offset: 93497},
+																			pos: position{line: 2951, col: 18, offset: 93524},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2950, col: 18, offset: 93497},
+																				pos:        position{line: 2951, col: 18, offset: 93524},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50611,10 +50673,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2742, col: 24, offset: 87171},
+																pos: position{line: 2743, col: 24, offset: 87198},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2742, col: 24, offset: 87171},
+																	pos:        position{line: 2743, col: 24, offset: 87198},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50625,15 +50687,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2743, col: 5, offset: 87213},
+												pos:   position{line: 2744, col: 5, offset: 87240},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2743, col: 11, offset: 87219},
+													pos: position{line: 2744, col: 11, offset: 87246},
 													expr: &actionExpr{
-														pos: position{line: 2743, col: 12, offset: 87220},
+														pos: position{line: 2744, col: 12, offset: 87247},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2743, col: 12, offset: 87220},
+															pos:        position{line: 2744, col: 12, offset: 87247},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50643,12 +50705,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2745, col: 5, offset: 87350},
+												pos:   position{line: 2746, col: 5, offset: 87377},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2745, col: 11, offset: 87356},
+													pos: position{line: 2746, col: 11, offset: 87383},
 													expr: &litMatcher{
-														pos:        position{line: 2745, col: 12, offset: 87357},
+														pos:        position{line: 2746, col: 12, offset: 87384},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50656,7 +50718,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2746, col: 5, offset: 87367},
+												pos: position{line: 2747, col: 5, offset: 87394},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50665,9 +50727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2977, col: 8, offset: 94012},
+							pos: position{line: 2978, col: 8, offset: 94039},
 							expr: &anyMatcher{
-								line: 2977, col: 9, offset: 94013,
+								line: 2978, col: 9, offset: 94040,
 							},
 						},
 					},
@@ -50676,23 +50738,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2773, col: 1, offset: 88376},
+			pos:  position{line: 2774, col: 1, offset: 88403},
 			expr: &actionExpr{
-				pos: position{line: 2774, col: 5, offset: 88399},
+				pos: position{line: 2775, col: 5, offset: 88426},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2774, col: 5, offset: 88399},
+					pos: position{line: 2775, col: 5, offset: 88426},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2774, col: 5, offset: 88399},
+							pos:   position{line: 2775, col: 5, offset: 88426},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2797, col: 18, offset: 89145},
+								pos: position{line: 2798, col: 18, offset: 89172},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2797, col: 19, offset: 89146},
+									pos: position{line: 2798, col: 19, offset: 89173},
 									expr: &charClassMatcher{
-										pos:        position{line: 2797, col: 19, offset: 89146},
+										pos:        position{line: 2798, col: 19, offset: 89173},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50703,39 +50765,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2775, col: 5, offset: 88425},
+							pos: position{line: 2776, col: 5, offset: 88452},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2779, col: 5, offset: 88553},
+							pos:        position{line: 2780, col: 5, offset: 88580},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2780, col: 5, offset: 88563},
+							pos:   position{line: 2781, col: 5, offset: 88590},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2805, col: 24, offset: 89307},
+								pos: position{line: 2806, col: 24, offset: 89334},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2805, col: 24, offset: 89307},
+									pos: position{line: 2806, col: 24, offset: 89334},
 									expr: &seqExpr{
-										pos: position{line: 2805, col: 25, offset: 89308},
+										pos: position{line: 2806, col: 25, offset: 89335},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2805, col: 25, offset: 89308},
+												pos: position{line: 2806, col: 25, offset: 89335},
 												expr: &litMatcher{
-													pos:        position{line: 2805, col: 26, offset: 89309},
+													pos:        position{line: 2806, col: 26, offset: 89336},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2805, col: 30, offset: 89313},
+												pos: position{line: 2806, col: 30, offset: 89340},
 												expr: &charClassMatcher{
-													pos:        position{line: 2805, col: 30, offset: 89313},
+													pos:        position{line: 2806, col: 30, offset: 89340},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50743,23 +50805,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2805, col: 41, offset: 89324},
+												pos: position{line: 2806, col: 41, offset: 89351},
 												expr: &seqExpr{
-													pos: position{line: 2805, col: 42, offset: 89325},
+													pos: position{line: 2806, col: 42, offset: 89352},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2805, col: 42, offset: 89325},
+															pos: position{line: 2806, col: 42, offset: 89352},
 															expr: &litMatcher{
-																pos:        position{line: 2805, col: 42, offset: 89325},
+																pos:        position{line: 2806, col: 42, offset: 89352},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2805, col: 47, offset: 89330},
+															pos: position{line: 2806, col: 47, offset: 89357},
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 47, offset: 89330},
+																pos:        position{line: 2806, col: 47, offset: 89357},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50775,36 +50837,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2781, col: 5, offset: 88596},
+							pos:   position{line: 2782, col: 5, offset: 88623},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2781, col: 17, offset: 88608},
+								pos:  position{line: 2782, col: 17, offset: 88635},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2980, col: 8, offset: 94062},
+							pos: position{line: 2981, col: 8, offset: 94089},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2967, col: 12, offset: 93835},
+									pos: position{line: 2968, col: 12, offset: 93862},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2967, col: 13, offset: 93836},
+										pos: position{line: 2968, col: 13, offset: 93863},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2967, col: 13, offset: 93836},
+												pos:        position{line: 2968, col: 13, offset: 93863},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 20, offset: 93843},
+												pos:        position{line: 2968, col: 20, offset: 93870},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2967, col: 29, offset: 93852},
+												pos:        position{line: 2968, col: 29, offset: 93879},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50813,9 +50875,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2977, col: 8, offset: 94012},
+									pos: position{line: 2978, col: 8, offset: 94039},
 									expr: &anyMatcher{
-										line: 2977, col: 9, offset: 94013,
+										line: 2978, col: 9, offset: 94040,
 									},
 								},
 							},
@@ -50826,23 +50888,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2785, col: 1, offset: 88756},
+			pos:  position{line: 2786, col: 1, offset: 88783},
 			expr: &actionExpr{
-				pos: position{line: 2786, col: 5, offset: 88780},
+				pos: position{line: 2787, col: 5, offset: 88807},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2786, col: 5, offset: 88780},
+					pos: position{line: 2787, col: 5, offset: 88807},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2786, col: 5, offset: 88780},
+							pos:   position{line: 2787, col: 5, offset: 88807},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2797, col: 18, offset: 89145},
+								pos: position{line: 2798, col: 18, offset: 89172},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2797, col: 19, offset: 89146},
+									pos: position{line: 2798, col: 19, offset: 89173},
 									expr: &charClassMatcher{
-										pos:        position{line: 2797, col: 19, offset: 89146},
+										pos:        position{line: 2798, col: 19, offset: 89173},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50853,39 +50915,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2787, col: 5, offset: 88806},
+							pos: position{line: 2788, col: 5, offset: 88833},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2791, col: 5, offset: 88934},
+							pos:        position{line: 2792, col: 5, offset: 88961},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2792, col: 5, offset: 88943},
+							pos:   position{line: 2793, col: 5, offset: 88970},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2801, col: 19, offset: 89221},
+								pos: position{line: 2802, col: 19, offset: 89248},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2801, col: 19, offset: 89221},
+									pos: position{line: 2802, col: 19, offset: 89248},
 									expr: &seqExpr{
-										pos: position{line: 2801, col: 20, offset: 89222},
+										pos: position{line: 2802, col: 20, offset: 89249},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2801, col: 20, offset: 89222},
+												pos: position{line: 2802, col: 20, offset: 89249},
 												expr: &litMatcher{
-													pos:        position{line: 2801, col: 21, offset: 89223},
+													pos:        position{line: 2802, col: 21, offset: 89250},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2801, col: 25, offset: 89227},
+												pos: position{line: 2802, col: 25, offset: 89254},
 												expr: &charClassMatcher{
-													pos:        position{line: 2801, col: 25, offset: 89227},
+													pos:        position{line: 2802, col: 25, offset: 89254},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50898,10 +50960,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2793, col: 5, offset: 88971},
+							pos:   position{line: 2794, col: 5, offset: 88998},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2793, col: 17, offset: 88983},
+								pos:  position{line: 2794, col: 17, offset: 89010},
 								name: "InlineAttributes",
 							},
 						},
@@ -50911,43 +50973,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2885, col: 1, offset: 91472},
+			pos:  position{line: 2886, col: 1, offset: 91499},
 			expr: &actionExpr{
-				pos: position{line: 2885, col: 17, offset: 91488},
+				pos: position{line: 2886, col: 17, offset: 91515},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2885, col: 17, offset: 91488},
+					pos:   position{line: 2886, col: 17, offset: 91515},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2906, col: 5, offset: 92073},
+						pos: position{line: 2907, col: 5, offset: 92100},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2906, col: 5, offset: 92073},
+							pos:   position{line: 2907, col: 5, offset: 92100},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2906, col: 14, offset: 92082},
+								pos: position{line: 2907, col: 14, offset: 92109},
 								expr: &choiceExpr{
-									pos: position{line: 2907, col: 9, offset: 92092},
+									pos: position{line: 2908, col: 9, offset: 92119},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2907, col: 9, offset: 92092},
+											pos: position{line: 2908, col: 9, offset: 92119},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2907, col: 9, offset: 92092},
+												pos: position{line: 2908, col: 9, offset: 92119},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2907, col: 9, offset: 92092},
+														pos: position{line: 2908, col: 9, offset: 92119},
 														expr: &litMatcher{
-															pos:        position{line: 2907, col: 10, offset: 92093},
+															pos:        position{line: 2908, col: 10, offset: 92120},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2908, col: 9, offset: 92121},
+														pos: position{line: 2909, col: 9, offset: 92148},
 														expr: &charClassMatcher{
-															pos:        position{line: 2908, col: 10, offset: 92122},
+															pos:        position{line: 2909, col: 10, offset: 92149},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -50958,27 +51020,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2911, col: 11, offset: 92334},
+											pos: position{line: 2912, col: 11, offset: 92361},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2911, col: 11, offset: 92334},
+													pos:        position{line: 2912, col: 11, offset: 92361},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2911, col: 19, offset: 92342},
+													pos: position{line: 2912, col: 19, offset: 92369},
 													expr: &seqExpr{
-														pos: position{line: 2911, col: 21, offset: 92344},
+														pos: position{line: 2912, col: 21, offset: 92371},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2911, col: 21, offset: 92344},
+																pos: position{line: 2912, col: 21, offset: 92371},
 																expr: &actionExpr{
-																	pos: position{line: 2958, col: 10, offset: 93664},
+																	pos: position{line: 2959, col: 10, offset: 93691},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2958, col: 10, offset: 93664},
+																		pos:        position{line: 2959, col: 10, offset: 93691},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -50987,11 +51049,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 28, offset: 92351},
+																pos: position{line: 2912, col: 28, offset: 92378},
 																expr: &notExpr{
-																	pos: position{line: 2977, col: 8, offset: 94012},
+																	pos: position{line: 2978, col: 8, offset: 94039},
 																	expr: &anyMatcher{
-																		line: 2977, col: 9, offset: 94013,
+																		line: 2978, col: 9, offset: 94040,
 																	},
 																},
 															},
@@ -51386,10 +51448,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2914, col: 11, offset: 92471},
+											pos: position{line: 2915, col: 11, offset: 92498},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2914, col: 11, offset: 92471},
+												pos:        position{line: 2915, col: 11, offset: 92498},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -77289,21 +77351,31 @@ func (p *parser) callonAttributeStructuredValueElement32() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement32()
 }
 
-func (c *current) onAttributeStructuredValueElement39() (bool, error) {
+func (c *current) onAttributeStructuredValueElement37() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
 
-	return c.allSubstitutionsDisabled(Macros, Quotes), nil
+}
+
+func (p *parser) callonAttributeStructuredValueElement37() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement37()
+}
+
+func (c *current) onAttributeStructuredValueElement35() (interface{}, error) {
+	//log.Debug("matched escaped apostrophe")
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement39() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement39()
+	return p.cur.onAttributeStructuredValueElement35()
 }
 
 func (c *current) onAttributeStructuredValueElement43() (bool, error) {
-
-	return c.isSubstitutionDisabled(Quotes), nil
+	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
@@ -77313,84 +77385,131 @@ func (p *parser) callonAttributeStructuredValueElement43() (bool, error) {
 	return p.cur.onAttributeStructuredValueElement43()
 }
 
-func (c *current) onAttributeStructuredValueElement35() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement44() (bool, error) {
+	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
+	return c.isPrecededByAlphanum(), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement44() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement44()
+}
+
+func (c *current) onAttributeStructuredValueElement41() (interface{}, error) {
+	return types.NewSymbol("'")
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement41() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement41()
+}
+
+func (c *current) onAttributeStructuredValueElement52() (bool, error) {
+
+	return c.allSubstitutionsDisabled(Macros, Quotes), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement52() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement52()
+}
+
+func (c *current) onAttributeStructuredValueElement56() (bool, error) {
+
+	return c.isSubstitutionDisabled(Quotes), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement56() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement56()
+}
+
+func (c *current) onAttributeStructuredValueElement48() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement35() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement35()
+	return p.cur.onAttributeStructuredValueElement48()
 }
 
-func (c *current) onAttributeStructuredValueElement53() (bool, error) {
+func (c *current) onAttributeStructuredValueElement66() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement53() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement66() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement53()
+	return p.cur.onAttributeStructuredValueElement66()
 }
 
-func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement68() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement55()
+	return p.cur.onAttributeStructuredValueElement68()
 }
 
-func (c *current) onAttributeStructuredValueElement51(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement64(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement51(stack["element"])
+	return p.cur.onAttributeStructuredValueElement64(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement61() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement74() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement61() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement61()
+	return p.cur.onAttributeStructuredValueElement74()
 }
 
-func (c *current) onAttributeStructuredValueElement57(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement70(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement57() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement57(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement70(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement65() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement78() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement65() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement65()
+	return p.cur.onAttributeStructuredValueElement78()
 }
 
-func (c *current) onAttributeStructuredValueElement70() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement83() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -77399,10 +77518,10 @@ func (c *current) onAttributeStructuredValueElement70() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement70() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement70()
+	return p.cur.onAttributeStructuredValueElement83()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index fb07071..604fcc7 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2444,6 +2444,7 @@ AttributeStructuredValueElement <-
         InlineText
         / Space 
         / Replacement
+        / TypographicQuote
         / Punctuation // must be after Replacement
         / Quote
         / InlineMacro
-- 
2.43.0


From 5321ba3184d740f9bdafbfe19302447f17f165ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:12 +0000
Subject: [PATCH 101/117] fix: accept several spaces or a tab after the label
 of an admonition

---
 pkg/parser/parser.go  | 13477 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    10 +-
 2 files changed, 6976 insertions(+), 6511 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index fc39760..81861e3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93518},
+																pos: position{line: 2951, col: 12, offset: 93548},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93519},
+																	pos: position{line: 2951, col: 13, offset: 93549},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93519},
+																			pos: position{line: 2951, col: 13, offset: 93549},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93519},
+																				pos:        position{line: 2951, col: 13, offset: 93549},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93524},
+																			pos: position{line: 2951, col: 18, offset: 93554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93524},
+																				pos:        position{line: 2951, col: 18, offset: 93554},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93518},
+																pos: position{line: 2951, col: 12, offset: 93548},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93519},
+																	pos: position{line: 2951, col: 13, offset: 93549},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93519},
+																			pos: position{line: 2951, col: 13, offset: 93549},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93519},
+																				pos:        position{line: 2951, col: 13, offset: 93549},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93524},
+																			pos: position{line: 2951, col: 18, offset: 93554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93524},
+																				pos:        position{line: 2951, col: 18, offset: 93554},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89639},
+														pos:        position{line: 2813, col: 13, offset: 89669},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93752},
+													pos: position{line: 2963, col: 11, offset: 93782},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93752},
+														pos: position{line: 2963, col: 11, offset: 93782},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93752},
+															pos:        position{line: 2963, col: 11, offset: 93782},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2882, col: 14, offset: 91445},
+													pos: position{line: 2882, col: 14, offset: 91475},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 14, offset: 91445},
+														pos: position{line: 2882, col: 14, offset: 91475},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 14, offset: 91445},
+															pos:        position{line: 2882, col: 14, offset: 91475},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 17, offset: 91515},
+												pos: position{line: 2886, col: 17, offset: 91545},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2886, col: 17, offset: 91515},
+													pos:   position{line: 2886, col: 17, offset: 91545},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93518},
+																				pos: position{line: 2951, col: 12, offset: 93548},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93519},
+																					pos: position{line: 2951, col: 13, offset: 93549},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93519},
+																							pos: position{line: 2951, col: 13, offset: 93549},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93519},
+																								pos:        position{line: 2951, col: 13, offset: 93549},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93524},
+																							pos: position{line: 2951, col: 18, offset: 93554},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93524},
+																								pos:        position{line: 2951, col: 18, offset: 93554},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93518},
+																				pos: position{line: 2951, col: 12, offset: 93548},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93519},
+																					pos: position{line: 2951, col: 13, offset: 93549},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93519},
+																							pos: position{line: 2951, col: 13, offset: 93549},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93519},
+																								pos:        position{line: 2951, col: 13, offset: 93549},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93524},
+																							pos: position{line: 2951, col: 18, offset: 93554},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93524},
+																								pos:        position{line: 2951, col: 18, offset: 93554},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93518},
+																		pos: position{line: 2951, col: 12, offset: 93548},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93519},
+																			pos: position{line: 2951, col: 13, offset: 93549},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93519},
+																					pos: position{line: 2951, col: 13, offset: 93549},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93519},
+																						pos:        position{line: 2951, col: 13, offset: 93549},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93524},
+																					pos: position{line: 2951, col: 18, offset: 93554},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93524},
+																						pos:        position{line: 2951, col: 18, offset: 93554},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93518},
+																									pos: position{line: 2951, col: 12, offset: 93548},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93519},
+																										pos: position{line: 2951, col: 13, offset: 93549},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93519},
+																												pos: position{line: 2951, col: 13, offset: 93549},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93519},
+																													pos:        position{line: 2951, col: 13, offset: 93549},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93524},
+																												pos: position{line: 2951, col: 18, offset: 93554},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93524},
+																													pos:        position{line: 2951, col: 18, offset: 93554},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93518},
+																									pos: position{line: 2951, col: 12, offset: 93548},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93519},
+																										pos: position{line: 2951, col: 13, offset: 93549},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93519},
+																												pos: position{line: 2951, col: 13, offset: 93549},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93519},
+																													pos:        position{line: 2951, col: 13, offset: 93549},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93524},
+																												pos: position{line: 2951, col: 18, offset: 93554},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93524},
+																													pos:        position{line: 2951, col: 18, offset: 93554},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2951, col: 12, offset: 93518},
+																							pos: position{line: 2951, col: 12, offset: 93548},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2951, col: 13, offset: 93519},
+																								pos: position{line: 2951, col: 13, offset: 93549},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2951, col: 13, offset: 93519},
+																										pos: position{line: 2951, col: 13, offset: 93549},
 																										expr: &litMatcher{
-																											pos:        position{line: 2951, col: 13, offset: 93519},
+																											pos:        position{line: 2951, col: 13, offset: 93549},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2951, col: 18, offset: 93524},
+																										pos: position{line: 2951, col: 18, offset: 93554},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2951, col: 18, offset: 93524},
+																											pos:        position{line: 2951, col: 18, offset: 93554},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93518},
+														pos: position{line: 2951, col: 12, offset: 93548},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93519},
+															pos: position{line: 2951, col: 13, offset: 93549},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93519},
+																	pos: position{line: 2951, col: 13, offset: 93549},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93519},
+																		pos:        position{line: 2951, col: 13, offset: 93549},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93524},
+																	pos: position{line: 2951, col: 18, offset: 93554},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93524},
+																		pos:        position{line: 2951, col: 18, offset: 93554},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93518},
+														pos: position{line: 2951, col: 12, offset: 93548},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93519},
+															pos: position{line: 2951, col: 13, offset: 93549},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93519},
+																	pos: position{line: 2951, col: 13, offset: 93549},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93519},
+																		pos:        position{line: 2951, col: 13, offset: 93549},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93524},
+																	pos: position{line: 2951, col: 18, offset: 93554},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93524},
+																		pos:        position{line: 2951, col: 18, offset: 93554},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2951, col: 12, offset: 93518},
+												pos: position{line: 2951, col: 12, offset: 93548},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2951, col: 13, offset: 93519},
+													pos: position{line: 2951, col: 13, offset: 93549},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2951, col: 13, offset: 93519},
+															pos: position{line: 2951, col: 13, offset: 93549},
 															expr: &litMatcher{
-																pos:        position{line: 2951, col: 13, offset: 93519},
+																pos:        position{line: 2951, col: 13, offset: 93549},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2951, col: 18, offset: 93524},
+															pos: position{line: 2951, col: 18, offset: 93554},
 															expr: &charClassMatcher{
-																pos:        position{line: 2951, col: 18, offset: 93524},
+																pos:        position{line: 2951, col: 18, offset: 93554},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2817, col: 14, offset: 89713},
+																		pos: position{line: 2817, col: 14, offset: 89743},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2817, col: 14, offset: 89713},
+																			pos: position{line: 2817, col: 14, offset: 89743},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89713},
+																				pos:        position{line: 2817, col: 14, offset: 89743},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89713},
+																				pos: position{line: 2817, col: 14, offset: 89743},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89713},
+																					pos: position{line: 2817, col: 14, offset: 89743},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89713},
+																						pos:        position{line: 2817, col: 14, offset: 89743},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2817, col: 14, offset: 89713},
+																							pos: position{line: 2817, col: 14, offset: 89743},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2817, col: 14, offset: 89713},
+																								pos: position{line: 2817, col: 14, offset: 89743},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2817, col: 14, offset: 89713},
+																									pos:        position{line: 2817, col: 14, offset: 89743},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2817, col: 14, offset: 89713},
+																									pos: position{line: 2817, col: 14, offset: 89743},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2817, col: 14, offset: 89713},
+																										pos: position{line: 2817, col: 14, offset: 89743},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2817, col: 14, offset: 89713},
+																											pos:        position{line: 2817, col: 14, offset: 89743},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89713},
+																pos: position{line: 2817, col: 14, offset: 89743},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89713},
+																	pos: position{line: 2817, col: 14, offset: 89743},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89713},
+																		pos:        position{line: 2817, col: 14, offset: 89743},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89713},
+																pos: position{line: 2817, col: 14, offset: 89743},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89713},
+																	pos: position{line: 2817, col: 14, offset: 89743},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89713},
+																		pos:        position{line: 2817, col: 14, offset: 89743},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2976, col: 11, offset: 94025},
+														pos: position{line: 2976, col: 11, offset: 94055},
 														expr: &anyMatcher{
-															line: 2976, col: 13, offset: 94027,
+															line: 2976, col: 13, offset: 94057,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91445},
+																			pos: position{line: 2882, col: 14, offset: 91475},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91445},
+																				pos: position{line: 2882, col: 14, offset: 91475},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91445},
+																					pos:        position{line: 2882, col: 14, offset: 91475},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2976, col: 11, offset: 94025},
+																									pos: position{line: 2976, col: 11, offset: 94055},
 																									expr: &anyMatcher{
-																										line: 2976, col: 13, offset: 94027,
+																										line: 2976, col: 13, offset: 94057,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91445},
+																						pos: position{line: 2882, col: 14, offset: 91475},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91445},
+																							pos: position{line: 2882, col: 14, offset: 91475},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91445},
+																								pos:        position{line: 2882, col: 14, offset: 91475},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1824, col: 5, offset: 58892},
+																		pos: position{line: 1824, col: 5, offset: 58922},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1824, col: 5, offset: 58892},
+																			pos: position{line: 1824, col: 5, offset: 58922},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1824, col: 5, offset: 58892},
+																					pos:   position{line: 1824, col: 5, offset: 58922},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91445},
+																						pos: position{line: 2882, col: 14, offset: 91475},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91445},
+																							pos: position{line: 2882, col: 14, offset: 91475},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91445},
+																								pos:        position{line: 2882, col: 14, offset: 91475},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1825, col: 5, offset: 58916},
+																					pos: position{line: 1825, col: 5, offset: 58946},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2764, col: 18, offset: 87998},
+											pos: position{line: 2764, col: 18, offset: 88028},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2765, col: 9, offset: 88008},
+												pos: position{line: 2765, col: 9, offset: 88038},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2765, col: 9, offset: 88008},
+														pos: position{line: 2765, col: 9, offset: 88038},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 88008},
+																pos:        position{line: 2765, col: 9, offset: 88038},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2765, col: 15, offset: 88014},
+																pos: position{line: 2765, col: 15, offset: 88044},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2766, col: 11, offset: 88047},
+														pos: position{line: 2766, col: 11, offset: 88077},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2766, col: 12, offset: 88048},
+																pos: position{line: 2766, col: 12, offset: 88078},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 12, offset: 88048},
+																		pos:        position{line: 2766, col: 12, offset: 88078},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 20, offset: 88056},
+																		pos:        position{line: 2766, col: 20, offset: 88086},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 30, offset: 88066},
+																		pos:        position{line: 2766, col: 30, offset: 88096},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 38, offset: 88074},
+																		pos:        position{line: 2766, col: 38, offset: 88104},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 48, offset: 88084},
+																		pos:        position{line: 2766, col: 48, offset: 88114},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 56, offset: 88092},
+																		pos:        position{line: 2766, col: 56, offset: 88122},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2766, col: 65, offset: 88101},
+																pos: position{line: 2766, col: 65, offset: 88131},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2766, col: 76, offset: 88112},
+																pos: position{line: 2766, col: 76, offset: 88142},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2655, col: 5, offset: 84934},
+											pos: position{line: 2655, col: 5, offset: 84964},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2655, col: 5, offset: 84934},
+												pos: position{line: 2655, col: 5, offset: 84964},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2661, col: 19, offset: 85091},
+														pos:        position{line: 2661, col: 19, offset: 85121},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2661, col: 26, offset: 85098},
+														pos: position{line: 2661, col: 26, offset: 85128},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2656, col: 5, offset: 84958},
+														pos:   position{line: 2656, col: 5, offset: 84988},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2656, col: 11, offset: 84964},
+															pos: position{line: 2656, col: 11, offset: 84994},
 															expr: &choiceExpr{
-																pos: position{line: 2656, col: 12, offset: 84965},
+																pos: position{line: 2656, col: 12, offset: 84995},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94025},
+																					pos: position{line: 2976, col: 11, offset: 94055},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94027,
+																						line: 2976, col: 13, offset: 94057,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2668, col: 5, offset: 85210},
+																		pos: position{line: 2668, col: 5, offset: 85240},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2668, col: 5, offset: 85210},
+																			pos: position{line: 2668, col: 5, offset: 85240},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2668, col: 5, offset: 85210},
+																					pos: position{line: 2668, col: 5, offset: 85240},
 																					expr: &choiceExpr{
-																						pos: position{line: 2665, col: 22, offset: 85171},
+																						pos: position{line: 2665, col: 22, offset: 85201},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2661, col: 19, offset: 85091},
+																								pos: position{line: 2661, col: 19, offset: 85121},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2661, col: 19, offset: 85091},
+																										pos:        position{line: 2661, col: 19, offset: 85121},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2661, col: 26, offset: 85098},
+																										pos: position{line: 2661, col: 26, offset: 85128},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94089},
+																										pos: position{line: 2981, col: 8, offset: 94119},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93862},
+																												pos: position{line: 2968, col: 12, offset: 93892},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93863},
+																													pos: position{line: 2968, col: 13, offset: 93893},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93863},
+																															pos:        position{line: 2968, col: 13, offset: 93893},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93870},
+																															pos:        position{line: 2968, col: 20, offset: 93900},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93879},
+																															pos:        position{line: 2968, col: 29, offset: 93909},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94039},
+																												pos: position{line: 2978, col: 8, offset: 94069},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94040,
+																													line: 2978, col: 9, offset: 94070,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2669, col: 5, offset: 85233},
+																					pos:   position{line: 2669, col: 5, offset: 85263},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2670, col: 9, offset: 85251},
+																						pos: position{line: 2670, col: 9, offset: 85281},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2670, col: 10, offset: 85252},
+																								pos: position{line: 2670, col: 10, offset: 85282},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2670, col: 10, offset: 85252},
+																									pos:   position{line: 2670, col: 10, offset: 85282},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2670, col: 17, offset: 85259},
+																										pos: position{line: 2670, col: 17, offset: 85289},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2678, col: 21, offset: 85455},
+																												pos: position{line: 2678, col: 21, offset: 85485},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2678, col: 21, offset: 85455},
+																													pos: position{line: 2678, col: 21, offset: 85485},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2678, col: 21, offset: 85455},
+																															pos:   position{line: 2678, col: 21, offset: 85485},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2678, col: 27, offset: 85461},
+																																pos: position{line: 2678, col: 27, offset: 85491},
 																																expr: &actionExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85536},
+																																	pos: position{line: 2683, col: 5, offset: 85566},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2683, col: 5, offset: 85536},
+																																		pos: position{line: 2683, col: 5, offset: 85566},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2683, col: 5, offset: 85536},
+																																				pos:        position{line: 2683, col: 5, offset: 85566},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2683, col: 9, offset: 85540},
+																																				pos: position{line: 2683, col: 9, offset: 85570},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2959, col: 10, offset: 93691},
+																																					pos: position{line: 2959, col: 10, offset: 93721},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2959, col: 10, offset: 93691},
+																																						pos:        position{line: 2959, col: 10, offset: 93721},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2683, col: 16, offset: 85547},
+																																				pos:   position{line: 2683, col: 16, offset: 85577},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2689, col: 5, offset: 85747},
+																																					pos: position{line: 2689, col: 5, offset: 85777},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2689, col: 5, offset: 85747},
+																																						pos:   position{line: 2689, col: 5, offset: 85777},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85756},
+																																							pos: position{line: 2689, col: 14, offset: 85786},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2689, col: 14, offset: 85756},
+																																								pos: position{line: 2689, col: 14, offset: 85786},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2689, col: 14, offset: 85756},
+																																									pos:        position{line: 2689, col: 14, offset: 85786},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2981, col: 8, offset: 94089},
+																															pos: position{line: 2981, col: 8, offset: 94119},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2968, col: 12, offset: 93862},
+																																	pos: position{line: 2968, col: 12, offset: 93892},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2968, col: 13, offset: 93863},
+																																		pos: position{line: 2968, col: 13, offset: 93893},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 13, offset: 93863},
+																																				pos:        position{line: 2968, col: 13, offset: 93893},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 20, offset: 93870},
+																																				pos:        position{line: 2968, col: 20, offset: 93900},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 29, offset: 93879},
+																																				pos:        position{line: 2968, col: 29, offset: 93909},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2978, col: 8, offset: 94039},
+																																	pos: position{line: 2978, col: 8, offset: 94069},
 																																	expr: &anyMatcher{
-																																		line: 2978, col: 9, offset: 94040,
+																																		line: 2978, col: 9, offset: 94070,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2695, col: 24, offset: 85892},
+																												pos: position{line: 2695, col: 24, offset: 85922},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2695, col: 24, offset: 85892},
+																													pos:   position{line: 2695, col: 24, offset: 85922},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2695, col: 30, offset: 85898},
+																														pos: position{line: 2695, col: 30, offset: 85928},
 																														expr: &actionExpr{
-																															pos: position{line: 2700, col: 5, offset: 85974},
+																															pos: position{line: 2700, col: 5, offset: 86004},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2700, col: 5, offset: 85974},
+																																pos: position{line: 2700, col: 5, offset: 86004},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2700, col: 5, offset: 85974},
+																																		pos: position{line: 2700, col: 5, offset: 86004},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2665, col: 22, offset: 85171},
+																																			pos: position{line: 2665, col: 22, offset: 85201},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2661, col: 19, offset: 85091},
+																																					pos: position{line: 2661, col: 19, offset: 85121},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2661, col: 19, offset: 85091},
+																																							pos:        position{line: 2661, col: 19, offset: 85121},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2661, col: 26, offset: 85098},
+																																							pos: position{line: 2661, col: 26, offset: 85128},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2959, col: 10, offset: 93691},
+																																								pos: position{line: 2959, col: 10, offset: 93721},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2959, col: 10, offset: 93691},
+																																									pos:        position{line: 2959, col: 10, offset: 93721},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94089},
+																																							pos: position{line: 2981, col: 8, offset: 94119},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93862},
+																																									pos: position{line: 2968, col: 12, offset: 93892},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93863},
+																																										pos: position{line: 2968, col: 13, offset: 93893},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93863},
+																																												pos:        position{line: 2968, col: 13, offset: 93893},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93870},
+																																												pos:        position{line: 2968, col: 20, offset: 93900},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93879},
+																																												pos:        position{line: 2968, col: 29, offset: 93909},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94039},
+																																									pos: position{line: 2978, col: 8, offset: 94069},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94040,
+																																										line: 2978, col: 9, offset: 94070,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2978, col: 8, offset: 94039},
+																																					pos: position{line: 2978, col: 8, offset: 94069},
 																																					expr: &anyMatcher{
-																																						line: 2978, col: 9, offset: 94040,
+																																						line: 2978, col: 9, offset: 94070,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2701, col: 5, offset: 85997},
+																																		pos: position{line: 2701, col: 5, offset: 86027},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2976, col: 11, offset: 94025},
+																																						pos: position{line: 2976, col: 11, offset: 94055},
 																																						expr: &anyMatcher{
-																																							line: 2976, col: 13, offset: 94027,
+																																							line: 2976, col: 13, offset: 94057,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93691},
+																																							pos: position{line: 2959, col: 10, offset: 93721},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93691},
+																																								pos:        position{line: 2959, col: 10, offset: 93721},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94089},
+																																						pos: position{line: 2981, col: 8, offset: 94119},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93862},
+																																								pos: position{line: 2968, col: 12, offset: 93892},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93863},
+																																									pos: position{line: 2968, col: 13, offset: 93893},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93863},
+																																											pos:        position{line: 2968, col: 13, offset: 93893},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93870},
+																																											pos:        position{line: 2968, col: 20, offset: 93900},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93879},
+																																											pos:        position{line: 2968, col: 29, offset: 93909},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94039},
+																																								pos: position{line: 2978, col: 8, offset: 94069},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94040,
+																																									line: 2978, col: 9, offset: 94070,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 5, offset: 86012},
+																																		pos:   position{line: 2702, col: 5, offset: 86042},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2702, col: 12, offset: 86019},
+																																			pos: position{line: 2702, col: 12, offset: 86049},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86483},
+																																				pos: position{line: 2719, col: 20, offset: 86513},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2719, col: 20, offset: 86483},
+																																					pos: position{line: 2719, col: 20, offset: 86513},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2719, col: 20, offset: 86483},
+																																						pos:        position{line: 2719, col: 20, offset: 86513},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2702, col: 31, offset: 86038},
+																																		pos:        position{line: 2702, col: 31, offset: 86068},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2702, col: 35, offset: 86042},
+																																		pos: position{line: 2702, col: 35, offset: 86072},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2959, col: 10, offset: 93691},
+																																			pos: position{line: 2959, col: 10, offset: 93721},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2959, col: 10, offset: 93691},
+																																				pos:        position{line: 2959, col: 10, offset: 93721},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 42, offset: 86049},
+																																		pos: position{line: 2702, col: 42, offset: 86079},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2968, col: 12, offset: 93862},
+																																			pos: position{line: 2968, col: 12, offset: 93892},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2968, col: 13, offset: 93863},
+																																				pos: position{line: 2968, col: 13, offset: 93893},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 13, offset: 93863},
+																																						pos:        position{line: 2968, col: 13, offset: 93893},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 20, offset: 93870},
+																																						pos:        position{line: 2968, col: 20, offset: 93900},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 29, offset: 93879},
+																																						pos:        position{line: 2968, col: 29, offset: 93909},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 51, offset: 86058},
+																																		pos:   position{line: 2702, col: 51, offset: 86088},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2708, col: 5, offset: 86217},
+																																			pos: position{line: 2708, col: 5, offset: 86247},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86227},
+																																				pos: position{line: 2709, col: 9, offset: 86257},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2709, col: 9, offset: 86227},
+																																					pos: position{line: 2709, col: 9, offset: 86257},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2709, col: 9, offset: 86227},
+																																							pos: position{line: 2709, col: 9, offset: 86257},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2665, col: 22, offset: 85171},
+																																								pos: position{line: 2665, col: 22, offset: 85201},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2661, col: 19, offset: 85091},
+																																										pos: position{line: 2661, col: 19, offset: 85121},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2661, col: 19, offset: 85091},
+																																												pos:        position{line: 2661, col: 19, offset: 85121},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2661, col: 26, offset: 85098},
+																																												pos: position{line: 2661, col: 26, offset: 85128},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2959, col: 10, offset: 93691},
+																																													pos: position{line: 2959, col: 10, offset: 93721},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2959, col: 10, offset: 93691},
+																																														pos:        position{line: 2959, col: 10, offset: 93721},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2981, col: 8, offset: 94089},
+																																												pos: position{line: 2981, col: 8, offset: 94119},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2968, col: 12, offset: 93862},
+																																														pos: position{line: 2968, col: 12, offset: 93892},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2968, col: 13, offset: 93863},
+																																															pos: position{line: 2968, col: 13, offset: 93893},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2978, col: 8, offset: 94039},
+																																														pos: position{line: 2978, col: 8, offset: 94069},
 																																														expr: &anyMatcher{
-																																															line: 2978, col: 9, offset: 94040,
+																																															line: 2978, col: 9, offset: 94070,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94039},
+																																										pos: position{line: 2978, col: 8, offset: 94069},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94040,
+																																											line: 2978, col: 9, offset: 94070,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2710, col: 9, offset: 86254},
+																																							pos: position{line: 2710, col: 9, offset: 86284},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2976, col: 11, offset: 94025},
+																																											pos: position{line: 2976, col: 11, offset: 94055},
 																																											expr: &anyMatcher{
-																																												line: 2976, col: 13, offset: 94027,
+																																												line: 2976, col: 13, offset: 94057,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93691},
+																																												pos: position{line: 2959, col: 10, offset: 93721},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93691},
+																																													pos:        position{line: 2959, col: 10, offset: 93721},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94089},
+																																											pos: position{line: 2981, col: 8, offset: 94119},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93862},
+																																													pos: position{line: 2968, col: 12, offset: 93892},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93863},
+																																														pos: position{line: 2968, col: 13, offset: 93893},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94039},
+																																													pos: position{line: 2978, col: 8, offset: 94069},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94040,
+																																														line: 2978, col: 9, offset: 94070,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2711, col: 9, offset: 86273},
+																																							pos: position{line: 2711, col: 9, offset: 86303},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2711, col: 11, offset: 86275},
+																																								pos: position{line: 2711, col: 11, offset: 86305},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2711, col: 11, offset: 86275},
+																																										pos:   position{line: 2711, col: 11, offset: 86305},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2711, col: 18, offset: 86282},
+																																											pos: position{line: 2711, col: 18, offset: 86312},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86483},
+																																												pos: position{line: 2719, col: 20, offset: 86513},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2719, col: 20, offset: 86483},
+																																													pos: position{line: 2719, col: 20, offset: 86513},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2719, col: 20, offset: 86483},
+																																														pos:        position{line: 2719, col: 20, offset: 86513},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2711, col: 37, offset: 86301},
+																																										pos:        position{line: 2711, col: 37, offset: 86331},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2712, col: 9, offset: 86314},
+																																							pos:   position{line: 2712, col: 9, offset: 86344},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86323},
+																																								pos: position{line: 2712, col: 18, offset: 86353},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2712, col: 18, offset: 86323},
+																																									pos: position{line: 2712, col: 18, offset: 86353},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2712, col: 18, offset: 86323},
+																																										pos:        position{line: 2712, col: 18, offset: 86353},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2714, col: 12, offset: 86385},
+																																							pos: position{line: 2714, col: 12, offset: 86415},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2981, col: 8, offset: 94089},
+																																								pos: position{line: 2981, col: 8, offset: 94119},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2968, col: 12, offset: 93862},
+																																										pos: position{line: 2968, col: 12, offset: 93892},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2968, col: 13, offset: 93863},
+																																											pos: position{line: 2968, col: 13, offset: 93893},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 13, offset: 93863},
+																																													pos:        position{line: 2968, col: 13, offset: 93893},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 20, offset: 93870},
+																																													pos:        position{line: 2968, col: 20, offset: 93900},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 29, offset: 93879},
+																																													pos:        position{line: 2968, col: 29, offset: 93909},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94039},
+																																										pos: position{line: 2978, col: 8, offset: 94069},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94040,
+																																											line: 2978, col: 9, offset: 94070,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94025},
+																											pos: position{line: 2976, col: 11, offset: 94055},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94027,
+																												line: 2976, col: 13, offset: 94057,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2665, col: 22, offset: 85171},
+														pos: position{line: 2665, col: 22, offset: 85201},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85091},
+																pos: position{line: 2661, col: 19, offset: 85121},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85091},
+																		pos:        position{line: 2661, col: 19, offset: 85121},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85098},
+																		pos: position{line: 2661, col: 26, offset: 85128},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81334},
+												pos: position{line: 2526, col: 22, offset: 81364},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81555},
+														pos:        position{line: 2531, col: 31, offset: 81585},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81560},
+														pos: position{line: 2531, col: 36, offset: 81590},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81561},
+															pos:        position{line: 2531, col: 37, offset: 81591},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81361},
+														pos:   position{line: 2526, col: 49, offset: 81391},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91378},
+																pos: position{line: 2878, col: 13, offset: 91408},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91378},
+																	pos:        position{line: 2878, col: 13, offset: 91408},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94089},
+																										pos: position{line: 2981, col: 8, offset: 94119},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93862},
+																												pos: position{line: 2968, col: 12, offset: 93892},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93863},
+																													pos: position{line: 2968, col: 13, offset: 93893},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93863},
+																															pos:        position{line: 2968, col: 13, offset: 93893},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93870},
+																															pos:        position{line: 2968, col: 20, offset: 93900},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93879},
+																															pos:        position{line: 2968, col: 29, offset: 93909},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94039},
+																												pos: position{line: 2978, col: 8, offset: 94069},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94040,
+																													line: 2978, col: 9, offset: 94070,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2963, col: 11, offset: 93752},
+												pos: position{line: 2963, col: 11, offset: 93782},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2963, col: 11, offset: 93752},
+													pos: position{line: 2963, col: 11, offset: 93782},
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 11, offset: 93752},
+														pos:        position{line: 2963, col: 11, offset: 93782},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93862},
+												pos: position{line: 2968, col: 12, offset: 93892},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93863},
+													pos: position{line: 2968, col: 13, offset: 93893},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93863},
+															pos:        position{line: 2968, col: 13, offset: 93893},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93870},
+															pos:        position{line: 2968, col: 20, offset: 93900},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93879},
+															pos:        position{line: 2968, col: 29, offset: 93909},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93691},
+													pos: position{line: 2959, col: 10, offset: 93721},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93691},
+														pos:        position{line: 2959, col: 10, offset: 93721},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93691},
+											pos: position{line: 2959, col: 10, offset: 93721},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93691},
+												pos:        position{line: 2959, col: 10, offset: 93721},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2981, col: 8, offset: 94089},
+										pos: position{line: 2981, col: 8, offset: 94119},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93862},
+												pos: position{line: 2968, col: 12, offset: 93892},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93863},
+													pos: position{line: 2968, col: 13, offset: 93893},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93863},
+															pos:        position{line: 2968, col: 13, offset: 93893},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93870},
+															pos:        position{line: 2968, col: 20, offset: 93900},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93879},
+															pos:        position{line: 2968, col: 29, offset: 93909},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94039},
+												pos: position{line: 2978, col: 8, offset: 94069},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94040,
+													line: 2978, col: 9, offset: 94070,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80880},
+										pos: position{line: 2513, col: 5, offset: 80910},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80880},
+													pos: position{line: 2513, col: 5, offset: 80910},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80956},
+													pos:   position{line: 2516, col: 5, offset: 80986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 80974},
+														pos: position{line: 2517, col: 9, offset: 81004},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 80975},
+															pos:        position{line: 2517, col: 10, offset: 81005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93691},
+										pos: position{line: 2959, col: 10, offset: 93721},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93691},
+											pos:        position{line: 2959, col: 10, offset: 93721},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93691},
+													pos: position{line: 2959, col: 10, offset: 93721},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93691},
+														pos:        position{line: 2959, col: 10, offset: 93721},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94089},
+												pos: position{line: 2981, col: 8, offset: 94119},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93862},
+														pos: position{line: 2968, col: 12, offset: 93892},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93863},
+															pos: position{line: 2968, col: 13, offset: 93893},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93863},
+																	pos:        position{line: 2968, col: 13, offset: 93893},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93870},
+																	pos:        position{line: 2968, col: 20, offset: 93900},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93879},
+																	pos:        position{line: 2968, col: 29, offset: 93909},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94039},
+														pos: position{line: 2978, col: 8, offset: 94069},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94040,
+															line: 2978, col: 9, offset: 94070,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89713},
+																				pos: position{line: 2817, col: 14, offset: 89743},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89713},
+																					pos: position{line: 2817, col: 14, offset: 89743},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89713},
+																						pos:        position{line: 2817, col: 14, offset: 89743},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2849, col: 5, offset: 90506},
+																				pos: position{line: 2849, col: 5, offset: 90536},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2850, col: 9, offset: 90516},
+																					pos: position{line: 2850, col: 9, offset: 90546},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90517},
+																							pos:        position{line: 2850, col: 10, offset: 90547},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2852, col: 13, offset: 90614},
+																							pos: position{line: 2852, col: 13, offset: 90644},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2852, col: 13, offset: 90614},
+																									pos: position{line: 2852, col: 13, offset: 90644},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90714},
+																									pos:        position{line: 2855, col: 13, offset: 90744},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2855, col: 19, offset: 90720},
+																							pos:        position{line: 2855, col: 19, offset: 90750},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2858, col: 13, offset: 90758},
+																							pos: position{line: 2858, col: 13, offset: 90788},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2858, col: 13, offset: 90758},
+																									pos: position{line: 2858, col: 13, offset: 90788},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2861, col: 14, offset: 90851},
+																									pos:        position{line: 2861, col: 14, offset: 90881},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2863, col: 12, offset: 90895},
+																							pos: position{line: 2863, col: 12, offset: 90925},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2863, col: 12, offset: 90895},
+																									pos:        position{line: 2863, col: 12, offset: 90925},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2863, col: 16, offset: 90899},
+																									pos: position{line: 2863, col: 16, offset: 90929},
 																									expr: &litMatcher{
-																										pos:        position{line: 2863, col: 17, offset: 90900},
+																										pos:        position{line: 2863, col: 17, offset: 90930},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 91160},
+																				pos: position{line: 2871, col: 12, offset: 91190},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2871, col: 12, offset: 91160},
+																					pos:        position{line: 2871, col: 12, offset: 91190},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93691},
+													pos: position{line: 2959, col: 10, offset: 93721},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93691},
+														pos:        position{line: 2959, col: 10, offset: 93721},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94089},
+												pos: position{line: 2981, col: 8, offset: 94119},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93862},
+														pos: position{line: 2968, col: 12, offset: 93892},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93863},
+															pos: position{line: 2968, col: 13, offset: 93893},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93863},
+																	pos:        position{line: 2968, col: 13, offset: 93893},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93870},
+																	pos:        position{line: 2968, col: 20, offset: 93900},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93879},
+																	pos:        position{line: 2968, col: 29, offset: 93909},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94039},
+														pos: position{line: 2978, col: 8, offset: 94069},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94040,
+															line: 2978, col: 9, offset: 94070,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93691},
+													pos: position{line: 2959, col: 10, offset: 93721},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93691},
+														pos:        position{line: 2959, col: 10, offset: 93721},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94089},
+												pos: position{line: 2981, col: 8, offset: 94119},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93862},
+														pos: position{line: 2968, col: 12, offset: 93892},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93863},
+															pos: position{line: 2968, col: 13, offset: 93893},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93863},
+																	pos:        position{line: 2968, col: 13, offset: 93893},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93870},
+																	pos:        position{line: 2968, col: 20, offset: 93900},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93879},
+																	pos:        position{line: 2968, col: 29, offset: 93909},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94039},
+														pos: position{line: 2978, col: 8, offset: 94069},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94040,
+															line: 2978, col: 9, offset: 94070,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93691},
+											pos: position{line: 2959, col: 10, offset: 93721},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93691},
+												pos:        position{line: 2959, col: 10, offset: 93721},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93691},
+													pos: position{line: 2959, col: 10, offset: 93721},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93691},
+														pos:        position{line: 2959, col: 10, offset: 93721},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93691},
+												pos: position{line: 2959, col: 10, offset: 93721},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93691},
+													pos:        position{line: 2959, col: 10, offset: 93721},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93691},
+											pos: position{line: 2959, col: 10, offset: 93721},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93691},
+												pos:        position{line: 2959, col: 10, offset: 93721},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93691},
+												pos: position{line: 2959, col: 10, offset: 93721},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93691},
+													pos:        position{line: 2959, col: 10, offset: 93721},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89713},
+									pos: position{line: 2817, col: 14, offset: 89743},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89713},
+										pos: position{line: 2817, col: 14, offset: 89743},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89713},
+											pos:        position{line: 2817, col: 14, offset: 89743},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93691},
+									pos: position{line: 2959, col: 10, offset: 93721},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93691},
+										pos:        position{line: 2959, col: 10, offset: 93721},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93691},
+												pos: position{line: 2959, col: 10, offset: 93721},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93691},
+													pos:        position{line: 2959, col: 10, offset: 93721},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89713},
+									pos: position{line: 2817, col: 14, offset: 89743},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89713},
+										pos: position{line: 2817, col: 14, offset: 89743},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89713},
+											pos:        position{line: 2817, col: 14, offset: 89743},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93691},
+									pos: position{line: 2959, col: 10, offset: 93721},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93691},
+										pos:        position{line: 2959, col: 10, offset: 93721},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93691},
+											pos: position{line: 2959, col: 10, offset: 93721},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93691},
+												pos:        position{line: 2959, col: 10, offset: 93721},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93343},
+										pos: position{line: 2944, col: 7, offset: 93373},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93343},
+											pos: position{line: 2944, col: 7, offset: 93373},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93343},
+												pos:        position{line: 2944, col: 7, offset: 93373},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93691},
+										pos: position{line: 2959, col: 10, offset: 93721},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93691},
+											pos:        position{line: 2959, col: 10, offset: 93721},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93343},
+										pos: position{line: 2944, col: 7, offset: 93373},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93343},
+											pos: position{line: 2944, col: 7, offset: 93373},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93343},
+												pos:        position{line: 2944, col: 7, offset: 93373},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 17, offset: 91515},
+								pos: position{line: 2886, col: 17, offset: 91545},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2886, col: 17, offset: 91515},
+									pos:   position{line: 2886, col: 17, offset: 91545},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 5, offset: 92100},
+										pos: position{line: 2907, col: 5, offset: 92130},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2907, col: 5, offset: 92100},
+											pos:   position{line: 2907, col: 5, offset: 92130},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2907, col: 14, offset: 92109},
+												pos: position{line: 2907, col: 14, offset: 92139},
 												expr: &choiceExpr{
-													pos: position{line: 2908, col: 9, offset: 92119},
+													pos: position{line: 2908, col: 9, offset: 92149},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2908, col: 9, offset: 92119},
+															pos: position{line: 2908, col: 9, offset: 92149},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2908, col: 9, offset: 92119},
+																pos: position{line: 2908, col: 9, offset: 92149},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2908, col: 9, offset: 92119},
+																		pos: position{line: 2908, col: 9, offset: 92149},
 																		expr: &litMatcher{
-																			pos:        position{line: 2908, col: 10, offset: 92120},
+																			pos:        position{line: 2908, col: 10, offset: 92150},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2909, col: 9, offset: 92148},
+																		pos: position{line: 2909, col: 9, offset: 92178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 92149},
+																			pos:        position{line: 2909, col: 10, offset: 92179},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2912, col: 11, offset: 92361},
+															pos: position{line: 2912, col: 11, offset: 92391},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2912, col: 11, offset: 92361},
+																	pos:        position{line: 2912, col: 11, offset: 92391},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2912, col: 19, offset: 92369},
+																	pos: position{line: 2912, col: 19, offset: 92399},
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 21, offset: 92371},
+																		pos: position{line: 2912, col: 21, offset: 92401},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 21, offset: 92371},
+																				pos: position{line: 2912, col: 21, offset: 92401},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93691},
+																					pos: position{line: 2959, col: 10, offset: 93721},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93691},
+																						pos:        position{line: 2959, col: 10, offset: 93721},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2912, col: 28, offset: 92378},
+																				pos: position{line: 2912, col: 28, offset: 92408},
 																				expr: &notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2915, col: 11, offset: 92498},
+															pos: position{line: 2915, col: 11, offset: 92528},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2915, col: 11, offset: 92498},
+																pos:        position{line: 2915, col: 11, offset: 92528},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2882, col: 14, offset: 91445},
+								pos: position{line: 2882, col: 14, offset: 91475},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2882, col: 14, offset: 91445},
+									pos: position{line: 2882, col: 14, offset: 91475},
 									expr: &charClassMatcher{
-										pos:        position{line: 2882, col: 14, offset: 91445},
+										pos:        position{line: 2882, col: 14, offset: 91475},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81334},
+										pos: position{line: 2526, col: 22, offset: 81364},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81555},
+													pos:        position{line: 2531, col: 31, offset: 81585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81560},
+													pos: position{line: 2531, col: 36, offset: 81590},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81561},
+														pos:        position{line: 2531, col: 37, offset: 81591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81361},
+													pos:   position{line: 2526, col: 49, offset: 81391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91378},
+														pos: position{line: 2878, col: 13, offset: 91408},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91378},
+																pos:        position{line: 2878, col: 13, offset: 91408},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81334},
+										pos: position{line: 2526, col: 22, offset: 81364},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81555},
+													pos:        position{line: 2531, col: 31, offset: 81585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81560},
+													pos: position{line: 2531, col: 36, offset: 81590},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81561},
+														pos:        position{line: 2531, col: 37, offset: 81591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81361},
+													pos:   position{line: 2526, col: 49, offset: 81391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91378},
+														pos: position{line: 2878, col: 13, offset: 91408},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91378},
+																pos:        position{line: 2878, col: 13, offset: 91408},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94025},
+																										pos: position{line: 2976, col: 11, offset: 94055},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94027,
+																											line: 2976, col: 13, offset: 94057,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81334},
+															pos: position{line: 2526, col: 22, offset: 81364},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81334},
+																pos: position{line: 2526, col: 22, offset: 81364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81555},
+																		pos:        position{line: 2531, col: 31, offset: 81585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81560},
+																		pos: position{line: 2531, col: 36, offset: 81590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81561},
+																			pos:        position{line: 2531, col: 37, offset: 81591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81361},
+																		pos:   position{line: 2526, col: 49, offset: 81391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91378},
+																			pos: position{line: 2878, col: 13, offset: 91408},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91378},
+																				pos: position{line: 2878, col: 13, offset: 91408},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91378},
+																					pos:        position{line: 2878, col: 13, offset: 91408},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2959, col: 10, offset: 93691},
+																																	pos: position{line: 2959, col: 10, offset: 93721},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2959, col: 10, offset: 93691},
+																																		pos:        position{line: 2959, col: 10, offset: 93721},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2981, col: 8, offset: 94089},
+																																pos: position{line: 2981, col: 8, offset: 94119},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93862},
+																																		pos: position{line: 2968, col: 12, offset: 93892},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93863},
+																																			pos: position{line: 2968, col: 13, offset: 93893},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93863},
+																																					pos:        position{line: 2968, col: 13, offset: 93893},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93870},
+																																					pos:        position{line: 2968, col: 20, offset: 93900},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93879},
+																																					pos:        position{line: 2968, col: 29, offset: 93909},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2978, col: 8, offset: 94039},
+																																		pos: position{line: 2978, col: 8, offset: 94069},
 																																		expr: &anyMatcher{
-																																			line: 2978, col: 9, offset: 94040,
+																																			line: 2978, col: 9, offset: 94070,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94025},
+																											pos: position{line: 2976, col: 11, offset: 94055},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94027,
+																												line: 2976, col: 13, offset: 94057,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 13, offset: 91378},
+																												pos: position{line: 2878, col: 13, offset: 91408},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2878, col: 13, offset: 91378},
+																													pos: position{line: 2878, col: 13, offset: 91408},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 13, offset: 91378},
+																														pos:        position{line: 2878, col: 13, offset: 91408},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
+																														pos: position{line: 2959, col: 10, offset: 93721},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93691},
+															pos: position{line: 2959, col: 10, offset: 93721},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93691},
+																pos:        position{line: 2959, col: 10, offset: 93721},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81334},
+												pos: position{line: 2526, col: 22, offset: 81364},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81555},
+														pos:        position{line: 2531, col: 31, offset: 81585},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81560},
+														pos: position{line: 2531, col: 36, offset: 81590},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81561},
+															pos:        position{line: 2531, col: 37, offset: 81591},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81361},
+														pos:   position{line: 2526, col: 49, offset: 81391},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91378},
+																pos: position{line: 2878, col: 13, offset: 91408},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91378},
+																	pos:        position{line: 2878, col: 13, offset: 91408},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93691},
+																													pos: position{line: 2959, col: 10, offset: 93721},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93691},
+																														pos:        position{line: 2959, col: 10, offset: 93721},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94089},
+																												pos: position{line: 2981, col: 8, offset: 94119},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93862},
+																														pos: position{line: 2968, col: 12, offset: 93892},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93863},
+																															pos: position{line: 2968, col: 13, offset: 93893},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93863},
+																																	pos:        position{line: 2968, col: 13, offset: 93893},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93870},
+																																	pos:        position{line: 2968, col: 20, offset: 93900},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93879},
+																																	pos:        position{line: 2968, col: 29, offset: 93909},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94039},
+																														pos: position{line: 2978, col: 8, offset: 94069},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94040,
+																															line: 2978, col: 9, offset: 94070,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91378},
+																									pos: position{line: 2878, col: 13, offset: 91408},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91378},
+																										pos:        position{line: 2878, col: 13, offset: 91408},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93752},
+							pos: position{line: 2963, col: 11, offset: 93782},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93752},
+								pos: position{line: 2963, col: 11, offset: 93782},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93752},
+									pos:        position{line: 2963, col: 11, offset: 93782},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 7, offset: 93343},
+								pos: position{line: 2944, col: 7, offset: 93373},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2944, col: 7, offset: 93343},
+									pos: position{line: 2944, col: 7, offset: 93373},
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 7, offset: 93343},
+										pos:        position{line: 2944, col: 7, offset: 93373},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89713},
+									pos: position{line: 2817, col: 14, offset: 89743},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89713},
+										pos: position{line: 2817, col: 14, offset: 89743},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89713},
+											pos:        position{line: 2817, col: 14, offset: 89743},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93691},
+									pos: position{line: 2959, col: 10, offset: 93721},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93691},
+										pos:        position{line: 2959, col: 10, offset: 93721},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2513, col: 5, offset: 80880},
+									pos: position{line: 2513, col: 5, offset: 80910},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2513, col: 5, offset: 80880},
+										pos: position{line: 2513, col: 5, offset: 80910},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2513, col: 5, offset: 80880},
+												pos: position{line: 2513, col: 5, offset: 80910},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2516, col: 5, offset: 80956},
+												pos:   position{line: 2516, col: 5, offset: 80986},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2517, col: 9, offset: 80974},
+													pos: position{line: 2517, col: 9, offset: 81004},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 80975},
+														pos:        position{line: 2517, col: 10, offset: 81005},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91611},
+								pos: position{line: 2890, col: 13, offset: 91641},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91611},
+									pos: position{line: 2890, col: 13, offset: 91641},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91611},
+											pos:   position{line: 2890, col: 13, offset: 91641},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91618},
+												pos: position{line: 2890, col: 20, offset: 91648},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 91988},
+													pos: position{line: 2902, col: 11, offset: 92018},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 91989},
+														pos: position{line: 2902, col: 12, offset: 92019},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 91989},
+																pos:        position{line: 2902, col: 12, offset: 92019},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92001},
+																pos:        position{line: 2902, col: 24, offset: 92031},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92014},
+																pos:        position{line: 2902, col: 37, offset: 92044},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92025},
+																pos:        position{line: 2902, col: 48, offset: 92055},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92036},
+																pos:        position{line: 2902, col: 59, offset: 92066},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91628},
+											pos:   position{line: 2890, col: 30, offset: 91658},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92100},
+												pos: position{line: 2907, col: 5, offset: 92130},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92100},
+													pos:   position{line: 2907, col: 5, offset: 92130},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92109},
+														pos: position{line: 2907, col: 14, offset: 92139},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92119},
+															pos: position{line: 2908, col: 9, offset: 92149},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92119},
+																		pos: position{line: 2908, col: 9, offset: 92149},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92120},
+																					pos:        position{line: 2908, col: 10, offset: 92150},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92148},
+																				pos: position{line: 2909, col: 9, offset: 92178},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92149},
+																					pos:        position{line: 2909, col: 10, offset: 92179},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92361},
+																	pos: position{line: 2912, col: 11, offset: 92391},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92361},
+																			pos:        position{line: 2912, col: 11, offset: 92391},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92369},
+																			pos: position{line: 2912, col: 19, offset: 92399},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92371},
+																				pos: position{line: 2912, col: 21, offset: 92401},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92378},
+																						pos: position{line: 2912, col: 28, offset: 92408},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92498},
+																	pos: position{line: 2915, col: 11, offset: 92528},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92498},
+																		pos:        position{line: 2915, col: 11, offset: 92528},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91611},
+								pos: position{line: 2890, col: 13, offset: 91641},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91611},
+									pos: position{line: 2890, col: 13, offset: 91641},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91611},
+											pos:   position{line: 2890, col: 13, offset: 91641},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91618},
+												pos: position{line: 2890, col: 20, offset: 91648},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 91988},
+													pos: position{line: 2902, col: 11, offset: 92018},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 91989},
+														pos: position{line: 2902, col: 12, offset: 92019},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 91989},
+																pos:        position{line: 2902, col: 12, offset: 92019},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92001},
+																pos:        position{line: 2902, col: 24, offset: 92031},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92014},
+																pos:        position{line: 2902, col: 37, offset: 92044},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92025},
+																pos:        position{line: 2902, col: 48, offset: 92055},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92036},
+																pos:        position{line: 2902, col: 59, offset: 92066},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91628},
+											pos:   position{line: 2890, col: 30, offset: 91658},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92100},
+												pos: position{line: 2907, col: 5, offset: 92130},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92100},
+													pos:   position{line: 2907, col: 5, offset: 92130},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92109},
+														pos: position{line: 2907, col: 14, offset: 92139},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92119},
+															pos: position{line: 2908, col: 9, offset: 92149},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92119},
+																		pos: position{line: 2908, col: 9, offset: 92149},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92120},
+																					pos:        position{line: 2908, col: 10, offset: 92150},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92148},
+																				pos: position{line: 2909, col: 9, offset: 92178},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92149},
+																					pos:        position{line: 2909, col: 10, offset: 92179},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92361},
+																	pos: position{line: 2912, col: 11, offset: 92391},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92361},
+																			pos:        position{line: 2912, col: 11, offset: 92391},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92369},
+																			pos: position{line: 2912, col: 19, offset: 92399},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92371},
+																				pos: position{line: 2912, col: 21, offset: 92401},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92378},
+																						pos: position{line: 2912, col: 28, offset: 92408},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92498},
+																	pos: position{line: 2915, col: 11, offset: 92528},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92498},
+																		pos:        position{line: 2915, col: 11, offset: 92528},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89786},
+										pos: position{line: 2822, col: 5, offset: 89816},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89786},
+											pos: position{line: 2822, col: 5, offset: 89816},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89786},
+													pos: position{line: 2822, col: 5, offset: 89816},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89797},
+														pos: position{line: 2823, col: 9, offset: 89827},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89797},
+																pos: position{line: 2823, col: 9, offset: 89827},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89860},
+																pos:   position{line: 2826, col: 9, offset: 89890},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89172},
+																	pos: position{line: 2798, col: 18, offset: 89202},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89173},
+																		pos: position{line: 2798, col: 19, offset: 89203},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89173},
+																			pos:        position{line: 2798, col: 19, offset: 89203},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89881},
+																pos:        position{line: 2826, col: 30, offset: 89911},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89968},
+																pos: position{line: 2827, col: 9, offset: 89998},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90080},
+													pos:   position{line: 2831, col: 5, offset: 90110},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90086},
+														pos: position{line: 2831, col: 11, offset: 90116},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90086},
+															pos: position{line: 2831, col: 11, offset: 90116},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90086},
+																pos:        position{line: 2831, col: 11, offset: 90116},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90144},
+													pos: position{line: 2834, col: 5, offset: 90174},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90155},
+														pos: position{line: 2835, col: 9, offset: 90185},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90155},
+																pos:        position{line: 2835, col: 9, offset: 90185},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90204},
+																pos: position{line: 2836, col: 9, offset: 90234},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90284},
+													pos: position{line: 2840, col: 5, offset: 90314},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90295},
+														pos: position{line: 2841, col: 9, offset: 90325},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90295},
+																pos: position{line: 2841, col: 9, offset: 90325},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90295},
+																	pos:        position{line: 2841, col: 9, offset: 90325},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90309},
+																pos:        position{line: 2841, col: 23, offset: 90339},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90313},
+																pos:        position{line: 2841, col: 27, offset: 90343},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93752},
+										pos: position{line: 2963, col: 11, offset: 93782},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93752},
+											pos: position{line: 2963, col: 11, offset: 93782},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93752},
+												pos:        position{line: 2963, col: 11, offset: 93782},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82051},
+										pos: position{line: 2544, col: 5, offset: 82081},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82051},
+											pos: position{line: 2544, col: 5, offset: 82081},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82051},
+													pos: position{line: 2544, col: 5, offset: 82081},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82122},
+													pos:        position{line: 2547, col: 5, offset: 82152},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82127},
+													pos: position{line: 2547, col: 10, offset: 82157},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82128},
+														pos:        position{line: 2547, col: 11, offset: 82158},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82314},
+										pos: position{line: 2553, col: 5, offset: 82344},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82314},
+											pos: position{line: 2553, col: 5, offset: 82344},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82314},
+													pos: position{line: 2553, col: 5, offset: 82344},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82385},
+													pos: position{line: 2556, col: 5, offset: 82415},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82510},
+													pos:        position{line: 2560, col: 5, offset: 82540},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82514},
+													pos: position{line: 2560, col: 9, offset: 82544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82515},
+														pos:        position{line: 2560, col: 10, offset: 82545},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90506},
+										pos: position{line: 2849, col: 5, offset: 90536},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90516},
+											pos: position{line: 2850, col: 9, offset: 90546},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90517},
+													pos:        position{line: 2850, col: 10, offset: 90547},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90614},
+													pos: position{line: 2852, col: 13, offset: 90644},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90614},
+															pos: position{line: 2852, col: 13, offset: 90644},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90714},
+															pos:        position{line: 2855, col: 13, offset: 90744},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90720},
+													pos:        position{line: 2855, col: 19, offset: 90750},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90758},
+													pos: position{line: 2858, col: 13, offset: 90788},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90758},
+															pos: position{line: 2858, col: 13, offset: 90788},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90851},
+															pos:        position{line: 2861, col: 14, offset: 90881},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90895},
+													pos: position{line: 2863, col: 12, offset: 90925},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90895},
+															pos:        position{line: 2863, col: 12, offset: 90925},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90899},
+															pos: position{line: 2863, col: 16, offset: 90929},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90900},
+																pos:        position{line: 2863, col: 17, offset: 90930},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80880},
+										pos: position{line: 2513, col: 5, offset: 80910},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80880},
+													pos: position{line: 2513, col: 5, offset: 80910},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80956},
+													pos:   position{line: 2516, col: 5, offset: 80986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 80974},
+														pos: position{line: 2517, col: 9, offset: 81004},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 80975},
+															pos:        position{line: 2517, col: 10, offset: 81005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93862},
+										pos: position{line: 2968, col: 12, offset: 93892},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93863},
+											pos: position{line: 2968, col: 13, offset: 93893},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93863},
+													pos:        position{line: 2968, col: 13, offset: 93893},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93870},
+													pos:        position{line: 2968, col: 20, offset: 93900},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93879},
+													pos:        position{line: 2968, col: 29, offset: 93909},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91160},
+										pos: position{line: 2871, col: 12, offset: 91190},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91160},
+											pos:        position{line: 2871, col: 12, offset: 91190},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22368,55 +22368,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91738},
+										pos: position{line: 2894, col: 23, offset: 91768},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91738},
+											pos: position{line: 2894, col: 23, offset: 91768},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91738},
+													pos: position{line: 2894, col: 23, offset: 91768},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91739},
+														pos:        position{line: 2894, col: 24, offset: 91769},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91743},
+													pos:   position{line: 2894, col: 28, offset: 91773},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 91988},
+														pos: position{line: 2902, col: 11, offset: 92018},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 91989},
+															pos: position{line: 2902, col: 12, offset: 92019},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 91989},
+																	pos:        position{line: 2902, col: 12, offset: 92019},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92001},
+																	pos:        position{line: 2902, col: 24, offset: 92031},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92014},
+																	pos:        position{line: 2902, col: 37, offset: 92044},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92025},
+																	pos:        position{line: 2902, col: 48, offset: 92055},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92036},
+																	pos:        position{line: 2902, col: 59, offset: 92066},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91759},
+													pos:   position{line: 2894, col: 44, offset: 91789},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -22896,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23101,48 +23101,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91611},
+										pos: position{line: 2890, col: 13, offset: 91641},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91611},
+											pos: position{line: 2890, col: 13, offset: 91641},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91611},
+													pos:   position{line: 2890, col: 13, offset: 91641},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91618},
+														pos: position{line: 2890, col: 20, offset: 91648},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 91988},
+															pos: position{line: 2902, col: 11, offset: 92018},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 91989},
+																pos: position{line: 2902, col: 12, offset: 92019},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 91989},
+																		pos:        position{line: 2902, col: 12, offset: 92019},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92001},
+																		pos:        position{line: 2902, col: 24, offset: 92031},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92014},
+																		pos:        position{line: 2902, col: 37, offset: 92044},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92025},
+																		pos:        position{line: 2902, col: 48, offset: 92055},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92036},
+																		pos:        position{line: 2902, col: 59, offset: 92066},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91628},
+													pos:   position{line: 2890, col: 30, offset: 91658},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -23623,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23669,48 +23669,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91611},
+										pos: position{line: 2890, col: 13, offset: 91641},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91611},
+											pos: position{line: 2890, col: 13, offset: 91641},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91611},
+													pos:   position{line: 2890, col: 13, offset: 91641},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91618},
+														pos: position{line: 2890, col: 20, offset: 91648},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 91988},
+															pos: position{line: 2902, col: 11, offset: 92018},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 91989},
+																pos: position{line: 2902, col: 12, offset: 92019},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 91989},
+																		pos:        position{line: 2902, col: 12, offset: 92019},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92001},
+																		pos:        position{line: 2902, col: 24, offset: 92031},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92014},
+																		pos:        position{line: 2902, col: 37, offset: 92044},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92025},
+																		pos:        position{line: 2902, col: 48, offset: 92055},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92036},
+																		pos:        position{line: 2902, col: 59, offset: 92066},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91628},
+													pos:   position{line: 2890, col: 30, offset: 91658},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -24191,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24246,55 +24246,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91738},
+										pos: position{line: 2894, col: 23, offset: 91768},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91738},
+											pos: position{line: 2894, col: 23, offset: 91768},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91738},
+													pos: position{line: 2894, col: 23, offset: 91768},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91739},
+														pos:        position{line: 2894, col: 24, offset: 91769},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91743},
+													pos:   position{line: 2894, col: 28, offset: 91773},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 91988},
+														pos: position{line: 2902, col: 11, offset: 92018},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 91989},
+															pos: position{line: 2902, col: 12, offset: 92019},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 91989},
+																	pos:        position{line: 2902, col: 12, offset: 92019},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92001},
+																	pos:        position{line: 2902, col: 24, offset: 92031},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92014},
+																	pos:        position{line: 2902, col: 37, offset: 92044},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92025},
+																	pos:        position{line: 2902, col: 48, offset: 92055},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92036},
+																	pos:        position{line: 2902, col: 59, offset: 92066},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91759},
+													pos:   position{line: 2894, col: 44, offset: 91789},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -24774,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24817,55 +24817,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91738},
+										pos: position{line: 2894, col: 23, offset: 91768},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91738},
+											pos: position{line: 2894, col: 23, offset: 91768},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91738},
+													pos: position{line: 2894, col: 23, offset: 91768},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91739},
+														pos:        position{line: 2894, col: 24, offset: 91769},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91743},
+													pos:   position{line: 2894, col: 28, offset: 91773},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 91988},
+														pos: position{line: 2902, col: 11, offset: 92018},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 91989},
+															pos: position{line: 2902, col: 12, offset: 92019},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 91989},
+																	pos:        position{line: 2902, col: 12, offset: 92019},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92001},
+																	pos:        position{line: 2902, col: 24, offset: 92031},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92014},
+																	pos:        position{line: 2902, col: 37, offset: 92044},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92025},
+																	pos:        position{line: 2902, col: 48, offset: 92055},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92036},
+																	pos:        position{line: 2902, col: 59, offset: 92066},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91759},
+													pos:   position{line: 2894, col: 44, offset: 91789},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92100},
+														pos: position{line: 2907, col: 5, offset: 92130},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92100},
+															pos:   position{line: 2907, col: 5, offset: 92130},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92109},
+																pos: position{line: 2907, col: 14, offset: 92139},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92119},
+																	pos: position{line: 2908, col: 9, offset: 92149},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92119},
+																			pos: position{line: 2908, col: 9, offset: 92149},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92119},
+																				pos: position{line: 2908, col: 9, offset: 92149},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92119},
+																						pos: position{line: 2908, col: 9, offset: 92149},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92120},
+																							pos:        position{line: 2908, col: 10, offset: 92150},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92148},
+																						pos: position{line: 2909, col: 9, offset: 92178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92149},
+																							pos:        position{line: 2909, col: 10, offset: 92179},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92361},
+																			pos: position{line: 2912, col: 11, offset: 92391},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92361},
+																					pos:        position{line: 2912, col: 11, offset: 92391},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92369},
+																					pos: position{line: 2912, col: 19, offset: 92399},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92371},
+																						pos: position{line: 2912, col: 21, offset: 92401},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92371},
+																								pos: position{line: 2912, col: 21, offset: 92401},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92378},
+																								pos: position{line: 2912, col: 28, offset: 92408},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -25345,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92498},
+																			pos: position{line: 2915, col: 11, offset: 92528},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92498},
+																				pos:        position{line: 2915, col: 11, offset: 92528},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25382,55 +25382,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 27, offset: 91873},
+								pos: position{line: 2898, col: 27, offset: 91903},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2898, col: 27, offset: 91873},
+									pos: position{line: 2898, col: 27, offset: 91903},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2898, col: 27, offset: 91873},
+											pos: position{line: 2898, col: 27, offset: 91903},
 											expr: &litMatcher{
-												pos:        position{line: 2898, col: 28, offset: 91874},
+												pos:        position{line: 2898, col: 28, offset: 91904},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 32, offset: 91878},
+											pos:   position{line: 2898, col: 32, offset: 91908},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 11, offset: 91988},
+												pos: position{line: 2902, col: 11, offset: 92018},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2902, col: 12, offset: 91989},
+													pos: position{line: 2902, col: 12, offset: 92019},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2902, col: 12, offset: 91989},
+															pos:        position{line: 2902, col: 12, offset: 92019},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 24, offset: 92001},
+															pos:        position{line: 2902, col: 24, offset: 92031},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 37, offset: 92014},
+															pos:        position{line: 2902, col: 37, offset: 92044},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 48, offset: 92025},
+															pos:        position{line: 2902, col: 48, offset: 92055},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 59, offset: 92036},
+															pos:        position{line: 2902, col: 59, offset: 92066},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 48, offset: 91894},
+											pos:   position{line: 2898, col: 48, offset: 91924},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2923, col: 5, offset: 92784},
+												pos: position{line: 2923, col: 5, offset: 92814},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2923, col: 5, offset: 92784},
+													pos:   position{line: 2923, col: 5, offset: 92814},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2923, col: 14, offset: 92793},
+														pos: position{line: 2923, col: 14, offset: 92823},
 														expr: &choiceExpr{
-															pos: position{line: 2924, col: 9, offset: 92803},
+															pos: position{line: 2924, col: 9, offset: 92833},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2924, col: 9, offset: 92803},
+																	pos: position{line: 2924, col: 9, offset: 92833},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2924, col: 9, offset: 92803},
+																		pos: position{line: 2924, col: 9, offset: 92833},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2924, col: 10, offset: 92804},
+																			pos:        position{line: 2924, col: 10, offset: 92834},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2927, col: 11, offset: 92895},
+																	pos: position{line: 2927, col: 11, offset: 92925},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2927, col: 11, offset: 92895},
+																		pos: position{line: 2927, col: 11, offset: 92925},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 11, offset: 92895},
+																				pos:        position{line: 2927, col: 11, offset: 92925},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2927, col: 15, offset: 92899},
+																				pos: position{line: 2927, col: 15, offset: 92929},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2927, col: 15, offset: 92899},
+																					pos:        position{line: 2927, col: 15, offset: 92929},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 39, offset: 92923},
+																				pos:        position{line: 2927, col: 39, offset: 92953},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2930, col: 11, offset: 92988},
+																	pos: position{line: 2930, col: 11, offset: 93018},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2930, col: 11, offset: 92988},
+																		pos:        position{line: 2930, col: 11, offset: 93018},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2933, col: 11, offset: 93053},
+																	pos: position{line: 2933, col: 11, offset: 93083},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2933, col: 11, offset: 93053},
+																		pos: position{line: 2933, col: 11, offset: 93083},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2933, col: 11, offset: 93053},
+																				pos: position{line: 2933, col: 11, offset: 93083},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 11, offset: 93053},
+																					pos:        position{line: 2933, col: 11, offset: 93083},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2933, col: 21, offset: 93063},
+																				pos: position{line: 2933, col: 21, offset: 93093},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 23, offset: 93065},
+																					pos:        position{line: 2933, col: 23, offset: 93095},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 93206},
+																	pos: position{line: 2938, col: 11, offset: 93236},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2938, col: 11, offset: 93206},
+																		pos:        position{line: 2938, col: 11, offset: 93236},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25979,10 +25979,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26149,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26197,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -26259,10 +26259,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26303,12 +26303,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26380,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93752},
+																			pos: position{line: 2963, col: 11, offset: 93782},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93752},
+																				pos:        position{line: 2963, col: 11, offset: 93782},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26429,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -26519,12 +26519,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26567,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -26664,28 +26664,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,9 +26694,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -26759,10 +26759,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,9 +26801,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -26817,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -26888,12 +26888,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93752},
+																			pos: position{line: 2963, col: 11, offset: 93782},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93752},
+																				pos: position{line: 2963, col: 11, offset: 93782},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93752},
+																					pos:        position{line: 2963, col: 11, offset: 93782},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26920,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -27010,9 +27010,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&labeledExpr{
@@ -27036,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94025},
+																	pos: position{line: 2976, col: 11, offset: 94055},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94027,
+																		line: 2976, col: 13, offset: 94057,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -27121,10 +27121,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27291,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27339,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -27401,10 +27401,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27445,12 +27445,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27522,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93752},
+																									pos: position{line: 2963, col: 11, offset: 93782},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93752},
+																										pos:        position{line: 2963, col: 11, offset: 93782},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27571,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -27661,12 +27661,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27709,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -27806,28 +27806,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,9 +27836,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -27901,10 +27901,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,9 +27943,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94025},
+																													pos: position{line: 2976, col: 11, offset: 94055},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94027,
+																														line: 2976, col: 13, offset: 94057,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
+																														pos: position{line: 2959, col: 10, offset: 93721},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
+																															pos: position{line: 2968, col: 12, offset: 93892},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -28030,12 +28030,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93752},
+																									pos: position{line: 2963, col: 11, offset: 93782},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93752},
+																										pos: position{line: 2963, col: 11, offset: 93782},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93752},
+																											pos:        position{line: 2963, col: 11, offset: 93782},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28062,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -28155,10 +28155,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1616, col: 5, offset: 52024},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28325,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28373,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -28435,10 +28435,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1666, col: 5, offset: 53986},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28479,12 +28479,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28556,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93752},
+																									pos: position{line: 2963, col: 11, offset: 93782},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93752},
+																										pos:        position{line: 2963, col: 11, offset: 93782},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -28695,12 +28695,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
+																							pos: position{line: 2963, col: 11, offset: 93782},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28743,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -28840,28 +28840,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,9 +28870,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -28935,10 +28935,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1719, col: 9, offset: 55540},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,9 +28977,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -28993,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94025},
+																													pos: position{line: 2976, col: 11, offset: 94055},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94027,
+																														line: 2976, col: 13, offset: 94057,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
+																														pos: position{line: 2959, col: 10, offset: 93721},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
+																															pos: position{line: 2968, col: 12, offset: 93892},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -29064,12 +29064,12 @@ var g = &grammar{
 																							pos: position{line: 1726, col: 9, offset: 55688},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93752},
+																									pos: position{line: 2963, col: 11, offset: 93782},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93752},
+																										pos: position{line: 2963, col: 11, offset: 93782},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93752},
+																											pos:        position{line: 2963, col: 11, offset: 93782},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29096,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -29153,36 +29153,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81334},
+										pos: position{line: 2526, col: 22, offset: 81364},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81555},
+													pos:        position{line: 2531, col: 31, offset: 81585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81560},
+													pos: position{line: 2531, col: 36, offset: 81590},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81561},
+														pos:        position{line: 2531, col: 37, offset: 81591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81361},
+													pos:   position{line: 2526, col: 49, offset: 81391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91378},
+														pos: position{line: 2878, col: 13, offset: 91408},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91378},
+																pos:        position{line: 2878, col: 13, offset: 91408},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -29247,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94025},
+																	pos: position{line: 2976, col: 11, offset: 94055},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94027,
+																		line: 2976, col: 13, offset: 94057,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -29322,10 +29322,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1574, col: 31, offset: 50809},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29374,10 +29374,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29544,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29572,10 +29572,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29616,12 +29616,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29672,12 +29672,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29738,28 +29738,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1701, col: 35, offset: 55035},
 																				expr: &choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,9 +29768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -29817,10 +29817,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -29879,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 13, offset: 89639},
+																				pos:        position{line: 2813, col: 13, offset: 89669},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30018,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30103,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30192,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30281,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30370,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30459,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30548,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30637,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -30718,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -30771,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85091},
+																pos: position{line: 2661, col: 19, offset: 85121},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85091},
+																		pos:        position{line: 2661, col: 19, offset: 85121},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85098},
+																		pos: position{line: 2661, col: 26, offset: 85128},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -30840,12 +30840,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 14, offset: 91445},
+														pos: position{line: 2882, col: 14, offset: 91475},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2882, col: 14, offset: 91445},
+															pos: position{line: 2882, col: 14, offset: 91475},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 14, offset: 91445},
+																pos:        position{line: 2882, col: 14, offset: 91475},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -30922,10 +30922,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93691},
+												pos: position{line: 2959, col: 10, offset: 93721},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93691},
+													pos:        position{line: 2959, col: 10, offset: 93721},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2968, col: 12, offset: 93862},
+											pos: position{line: 2968, col: 12, offset: 93892},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2968, col: 13, offset: 93863},
+												pos: position{line: 2968, col: 13, offset: 93893},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2968, col: 13, offset: 93863},
+														pos:        position{line: 2968, col: 13, offset: 93893},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 20, offset: 93870},
+														pos:        position{line: 2968, col: 20, offset: 93900},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 29, offset: 93879},
+														pos:        position{line: 2968, col: 29, offset: 93909},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30973,10 +30973,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,9 +31015,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -31042,18 +31042,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonListContinuation36,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31062,28 +31062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonListContinuation39,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31092,9 +31092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -31130,9 +31130,9 @@ var g = &grammar{
 					pos: position{line: 1577, col: 5, offset: 50871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
@@ -31158,10 +31158,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1616, col: 5, offset: 52024},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31328,12 +31328,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31376,28 +31376,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31406,9 +31406,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -31438,10 +31438,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1666, col: 5, offset: 53986},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31482,12 +31482,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31559,12 +31559,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93752},
+																			pos: position{line: 2963, col: 11, offset: 93782},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93752},
+																				pos:        position{line: 2963, col: 11, offset: 93782},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31608,28 +31608,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31638,9 +31638,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -31698,12 +31698,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
+																	pos: position{line: 2963, col: 11, offset: 93782},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31746,28 +31746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31776,9 +31776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -31843,28 +31843,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1701, col: 35, offset: 55035},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31873,9 +31873,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -31938,10 +31938,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1719, col: 9, offset: 55540},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31950,28 +31950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31980,9 +31980,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -31996,18 +31996,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94025},
+																							pos: position{line: 2976, col: 11, offset: 94055},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94027,
+																								line: 2976, col: 13, offset: 94057,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32016,28 +32016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32046,9 +32046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -32067,12 +32067,12 @@ var g = &grammar{
 																	pos: position{line: 1726, col: 9, offset: 55688},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93752},
+																			pos: position{line: 2963, col: 11, offset: 93782},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93752},
+																				pos: position{line: 2963, col: 11, offset: 93782},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93752},
+																					pos:        position{line: 2963, col: 11, offset: 93782},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32099,28 +32099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32129,9 +32129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -32172,18 +32172,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2976, col: 11, offset: 94025},
+													pos: position{line: 2976, col: 11, offset: 94055},
 													expr: &anyMatcher{
-														line: 2976, col: 13, offset: 94027,
+														line: 2976, col: 13, offset: 94057,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32192,28 +32192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32222,9 +32222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -32289,10 +32289,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32301,28 +32301,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32331,9 +32331,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -32394,10 +32394,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32406,28 +32406,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32436,9 +32436,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -32492,10 +32492,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32504,28 +32504,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32534,9 +32534,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -32608,10 +32608,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32620,28 +32620,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32650,9 +32650,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -32668,9 +32668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -32686,21 +32686,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32710,28 +32710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32740,9 +32740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -32804,10 +32804,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32816,28 +32816,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32846,9 +32846,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -32864,9 +32864,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -32921,10 +32921,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32933,28 +32933,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32963,9 +32963,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -33037,10 +33037,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33049,28 +33049,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33079,9 +33079,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -33097,9 +33097,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -33115,21 +33115,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33139,28 +33139,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33169,9 +33169,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -33236,10 +33236,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33248,28 +33248,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33278,9 +33278,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -33296,9 +33296,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -33350,10 +33350,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33362,28 +33362,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33392,9 +33392,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -33428,10 +33428,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33440,28 +33440,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33470,9 +33470,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -33490,21 +33490,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33514,28 +33514,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33544,9 +33544,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -33574,10 +33574,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33586,28 +33586,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33616,9 +33616,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -33675,10 +33675,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33687,28 +33687,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33717,9 +33717,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -33791,10 +33791,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33803,28 +33803,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33833,9 +33833,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -33851,9 +33851,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -33869,21 +33869,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33893,28 +33893,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33923,9 +33923,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -33990,10 +33990,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34002,28 +34002,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34032,9 +34032,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -34050,9 +34050,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -34108,10 +34108,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34120,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34150,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -34224,10 +34224,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34236,28 +34236,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34266,9 +34266,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -34284,9 +34284,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -34302,21 +34302,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34326,28 +34326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34356,9 +34356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -34423,10 +34423,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34435,28 +34435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34465,9 +34465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -34483,9 +34483,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -34541,10 +34541,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34553,28 +34553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34583,9 +34583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -34657,10 +34657,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34669,28 +34669,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34699,9 +34699,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -34717,9 +34717,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -34735,21 +34735,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34759,28 +34759,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34789,9 +34789,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -34856,10 +34856,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34868,28 +34868,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34898,9 +34898,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -34916,9 +34916,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -34952,18 +34952,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94025},
+																					pos: position{line: 2976, col: 11, offset: 94055},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94027,
+																						line: 2976, col: 13, offset: 94057,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
+																						pos: position{line: 2959, col: 10, offset: 93721},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34972,28 +34972,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35002,9 +35002,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -35023,12 +35023,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91445},
+																		pos: position{line: 2882, col: 14, offset: 91475},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91445},
+																			pos: position{line: 2882, col: 14, offset: 91475},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91445},
+																				pos:        position{line: 2882, col: 14, offset: 91475},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35038,28 +35038,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35068,9 +35068,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -35102,18 +35102,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2976, col: 11, offset: 94025},
+																								pos: position{line: 2976, col: 11, offset: 94055},
 																								expr: &anyMatcher{
-																									line: 2976, col: 13, offset: 94027,
+																									line: 2976, col: 13, offset: 94057,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35122,28 +35122,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35152,9 +35152,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -35173,12 +35173,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91445},
+																					pos: position{line: 2882, col: 14, offset: 91475},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91445},
+																						pos: position{line: 2882, col: 14, offset: 91475},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91445},
+																							pos:        position{line: 2882, col: 14, offset: 91475},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35188,28 +35188,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94089},
+																				pos: position{line: 2981, col: 8, offset: 94119},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93862},
+																						pos: position{line: 2968, col: 12, offset: 93892},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93863},
+																							pos: position{line: 2968, col: 13, offset: 93893},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93863},
+																									pos:        position{line: 2968, col: 13, offset: 93893},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93870},
+																									pos:        position{line: 2968, col: 20, offset: 93900},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93879},
+																									pos:        position{line: 2968, col: 29, offset: 93909},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35218,9 +35218,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -35229,21 +35229,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1824, col: 5, offset: 58892},
+																	pos: position{line: 1824, col: 5, offset: 58922},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1824, col: 5, offset: 58892},
+																		pos: position{line: 1824, col: 5, offset: 58922},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1824, col: 5, offset: 58892},
+																				pos:   position{line: 1824, col: 5, offset: 58922},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91445},
+																					pos: position{line: 2882, col: 14, offset: 91475},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91445},
+																						pos: position{line: 2882, col: 14, offset: 91475},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91445},
+																							pos:        position{line: 2882, col: 14, offset: 91475},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35253,32 +35253,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1825, col: 5, offset: 58916},
+																				pos: position{line: 1825, col: 5, offset: 58946},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94089},
+																				pos: position{line: 2981, col: 8, offset: 94119},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93862},
+																						pos: position{line: 2968, col: 12, offset: 93892},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93863},
+																							pos: position{line: 2968, col: 13, offset: 93893},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93863},
+																									pos:        position{line: 2968, col: 13, offset: 93893},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93870},
+																									pos:        position{line: 2968, col: 20, offset: 93900},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93879},
+																									pos:        position{line: 2968, col: 29, offset: 93909},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35287,9 +35287,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -35336,10 +35336,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35348,28 +35348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35378,9 +35378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -35428,10 +35428,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
+																									pos: position{line: 2959, col: 10, offset: 93721},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35440,28 +35440,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
+																										pos: position{line: 2968, col: 12, offset: 93892},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35470,9 +35470,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -35481,9 +35481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -35499,21 +35499,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35523,28 +35523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35553,9 +35553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -35600,10 +35600,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93691},
+																					pos: position{line: 2959, col: 10, offset: 93721},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93691},
+																						pos:        position{line: 2959, col: 10, offset: 93721},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35612,28 +35612,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94089},
+																				pos: position{line: 2981, col: 8, offset: 94119},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93862},
+																						pos: position{line: 2968, col: 12, offset: 93892},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93863},
+																							pos: position{line: 2968, col: 13, offset: 93893},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93863},
+																									pos:        position{line: 2968, col: 13, offset: 93893},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93870},
+																									pos:        position{line: 2968, col: 20, offset: 93900},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93879},
+																									pos:        position{line: 2968, col: 29, offset: 93909},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35642,9 +35642,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -35653,9 +35653,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -35711,10 +35711,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35723,28 +35723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35753,9 +35753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -35827,10 +35827,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35839,28 +35839,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35869,9 +35869,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -35887,9 +35887,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -35905,21 +35905,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35929,28 +35929,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35959,9 +35959,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -36026,10 +36026,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36038,28 +36038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36068,9 +36068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -36086,9 +36086,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -36144,10 +36144,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36156,28 +36156,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36186,9 +36186,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -36260,10 +36260,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36272,28 +36272,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36302,9 +36302,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -36320,9 +36320,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -36338,21 +36338,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36362,28 +36362,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36392,9 +36392,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -36459,10 +36459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36471,28 +36471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36501,9 +36501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -36519,9 +36519,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -36577,10 +36577,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36589,28 +36589,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36619,9 +36619,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -36693,10 +36693,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93691},
+																												pos: position{line: 2959, col: 10, offset: 93721},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93691},
+																													pos:        position{line: 2959, col: 10, offset: 93721},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36705,28 +36705,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94089},
+																											pos: position{line: 2981, col: 8, offset: 94119},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93862},
+																													pos: position{line: 2968, col: 12, offset: 93892},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93863},
+																														pos: position{line: 2968, col: 13, offset: 93893},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36735,9 +36735,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94039},
+																													pos: position{line: 2978, col: 8, offset: 94069},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94040,
+																														line: 2978, col: 9, offset: 94070,
 																													},
 																												},
 																											},
@@ -36753,9 +36753,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -36771,21 +36771,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94025},
+																						pos: position{line: 2976, col: 11, offset: 94055},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94027,
+																							line: 2976, col: 13, offset: 94057,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91378},
+																							pos: position{line: 2878, col: 13, offset: 91408},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91378},
+																								pos: position{line: 2878, col: 13, offset: 91408},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91378},
+																									pos:        position{line: 2878, col: 13, offset: 91408},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36795,28 +36795,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
+																								pos: position{line: 2968, col: 12, offset: 93892},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36825,9 +36825,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -36892,10 +36892,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
+																								pos: position{line: 2959, col: 10, offset: 93721},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36904,28 +36904,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
+																									pos: position{line: 2968, col: 12, offset: 93892},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36934,9 +36934,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -36952,9 +36952,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -36965,27 +36965,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2764, col: 18, offset: 87998},
+										pos: position{line: 2764, col: 18, offset: 88028},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2765, col: 9, offset: 88008},
+											pos: position{line: 2765, col: 9, offset: 88038},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2765, col: 9, offset: 88008},
+													pos: position{line: 2765, col: 9, offset: 88038},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2765, col: 9, offset: 88008},
+															pos:        position{line: 2765, col: 9, offset: 88038},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2765, col: 15, offset: 88014},
+															pos: position{line: 2765, col: 15, offset: 88044},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
+																pos: position{line: 2959, col: 10, offset: 93721},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36994,28 +36994,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94089},
+															pos: position{line: 2981, col: 8, offset: 94119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93862},
+																	pos: position{line: 2968, col: 12, offset: 93892},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93863},
+																		pos: position{line: 2968, col: 13, offset: 93893},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93863},
+																				pos:        position{line: 2968, col: 13, offset: 93893},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93870},
+																				pos:        position{line: 2968, col: 20, offset: 93900},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93879},
+																				pos:        position{line: 2968, col: 29, offset: 93909},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37024,9 +37024,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -37034,43 +37034,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2766, col: 11, offset: 88047},
+													pos: position{line: 2766, col: 11, offset: 88077},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2766, col: 12, offset: 88048},
+															pos: position{line: 2766, col: 12, offset: 88078},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2766, col: 12, offset: 88048},
+																	pos:        position{line: 2766, col: 12, offset: 88078},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 20, offset: 88056},
+																	pos:        position{line: 2766, col: 20, offset: 88086},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 30, offset: 88066},
+																	pos:        position{line: 2766, col: 30, offset: 88096},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 38, offset: 88074},
+																	pos:        position{line: 2766, col: 38, offset: 88104},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 48, offset: 88084},
+																	pos:        position{line: 2766, col: 48, offset: 88114},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 56, offset: 88092},
+																	pos:        position{line: 2766, col: 56, offset: 88122},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37078,12 +37078,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2766, col: 65, offset: 88101},
+															pos: position{line: 2766, col: 65, offset: 88131},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
+																pos: position{line: 2959, col: 10, offset: 93721},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37092,28 +37092,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94089},
+															pos: position{line: 2981, col: 8, offset: 94119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93862},
+																	pos: position{line: 2968, col: 12, offset: 93892},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93863},
+																		pos: position{line: 2968, col: 13, offset: 93893},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93863},
+																				pos:        position{line: 2968, col: 13, offset: 93893},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93870},
+																				pos:        position{line: 2968, col: 20, offset: 93900},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93879},
+																				pos:        position{line: 2968, col: 29, offset: 93909},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37122,38 +37122,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2766, col: 76, offset: 88112},
+															pos: position{line: 2766, col: 76, offset: 88142},
 															expr: &choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
+																		pos: position{line: 2968, col: 12, offset: 93892},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37162,9 +37162,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -37184,24 +37184,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2655, col: 5, offset: 84934},
+										pos: position{line: 2655, col: 5, offset: 84964},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2655, col: 5, offset: 84934},
+											pos: position{line: 2655, col: 5, offset: 84964},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2661, col: 19, offset: 85091},
+													pos:        position{line: 2661, col: 19, offset: 85121},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2661, col: 26, offset: 85098},
+													pos: position{line: 2661, col: 26, offset: 85128},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37210,28 +37210,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37240,20 +37240,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2656, col: 5, offset: 84958},
+													pos:   position{line: 2656, col: 5, offset: 84988},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2656, col: 11, offset: 84964},
+														pos: position{line: 2656, col: 11, offset: 84994},
 														expr: &choiceExpr{
-															pos: position{line: 2656, col: 12, offset: 84965},
+															pos: position{line: 2656, col: 12, offset: 84995},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37262,18 +37262,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2976, col: 11, offset: 94025},
+																				pos: position{line: 2976, col: 11, offset: 94055},
 																				expr: &anyMatcher{
-																					line: 2976, col: 13, offset: 94027,
+																					line: 2976, col: 13, offset: 94057,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93691},
+																					pos: position{line: 2959, col: 10, offset: 93721},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93691},
+																						pos:        position{line: 2959, col: 10, offset: 93721},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37282,28 +37282,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94089},
+																				pos: position{line: 2981, col: 8, offset: 94119},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93862},
+																						pos: position{line: 2968, col: 12, offset: 93892},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93863},
+																							pos: position{line: 2968, col: 13, offset: 93893},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93863},
+																									pos:        position{line: 2968, col: 13, offset: 93893},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93870},
+																									pos:        position{line: 2968, col: 20, offset: 93900},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93879},
+																									pos:        position{line: 2968, col: 29, offset: 93909},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37312,9 +37312,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -37323,32 +37323,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2668, col: 5, offset: 85210},
+																	pos: position{line: 2668, col: 5, offset: 85240},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2668, col: 5, offset: 85210},
+																		pos: position{line: 2668, col: 5, offset: 85240},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2668, col: 5, offset: 85210},
+																				pos: position{line: 2668, col: 5, offset: 85240},
 																				expr: &choiceExpr{
-																					pos: position{line: 2665, col: 22, offset: 85171},
+																					pos: position{line: 2665, col: 22, offset: 85201},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2661, col: 19, offset: 85091},
+																							pos: position{line: 2661, col: 19, offset: 85121},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2661, col: 19, offset: 85091},
+																									pos:        position{line: 2661, col: 19, offset: 85121},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2661, col: 26, offset: 85098},
+																									pos: position{line: 2661, col: 26, offset: 85128},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93691},
+																										pos: position{line: 2959, col: 10, offset: 93721},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93691},
+																											pos:        position{line: 2959, col: 10, offset: 93721},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37357,28 +37357,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
+																											pos: position{line: 2968, col: 12, offset: 93892},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37387,9 +37387,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -37397,59 +37397,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2669, col: 5, offset: 85233},
+																				pos:   position{line: 2669, col: 5, offset: 85263},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2670, col: 9, offset: 85251},
+																					pos: position{line: 2670, col: 9, offset: 85281},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2670, col: 10, offset: 85252},
+																							pos: position{line: 2670, col: 10, offset: 85282},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2670, col: 10, offset: 85252},
+																								pos:   position{line: 2670, col: 10, offset: 85282},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2670, col: 17, offset: 85259},
+																									pos: position{line: 2670, col: 17, offset: 85289},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2678, col: 21, offset: 85455},
+																											pos: position{line: 2678, col: 21, offset: 85485},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2678, col: 21, offset: 85455},
+																												pos: position{line: 2678, col: 21, offset: 85485},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2678, col: 21, offset: 85455},
+																														pos:   position{line: 2678, col: 21, offset: 85485},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2678, col: 27, offset: 85461},
+																															pos: position{line: 2678, col: 27, offset: 85491},
 																															expr: &actionExpr{
-																																pos: position{line: 2683, col: 5, offset: 85536},
+																																pos: position{line: 2683, col: 5, offset: 85566},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85536},
+																																	pos: position{line: 2683, col: 5, offset: 85566},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2683, col: 5, offset: 85536},
+																																			pos:        position{line: 2683, col: 5, offset: 85566},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2683, col: 9, offset: 85540},
+																																			pos: position{line: 2683, col: 9, offset: 85570},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2959, col: 10, offset: 93691},
+																																				pos: position{line: 2959, col: 10, offset: 93721},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2959, col: 10, offset: 93691},
+																																					pos:        position{line: 2959, col: 10, offset: 93721},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37458,21 +37458,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2683, col: 16, offset: 85547},
+																																			pos:   position{line: 2683, col: 16, offset: 85577},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2689, col: 5, offset: 85747},
+																																				pos: position{line: 2689, col: 5, offset: 85777},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2689, col: 5, offset: 85747},
+																																					pos:   position{line: 2689, col: 5, offset: 85777},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2689, col: 14, offset: 85756},
+																																						pos: position{line: 2689, col: 14, offset: 85786},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85756},
+																																							pos: position{line: 2689, col: 14, offset: 85786},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2689, col: 14, offset: 85756},
+																																								pos:        position{line: 2689, col: 14, offset: 85786},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37489,28 +37489,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2981, col: 8, offset: 94089},
+																														pos: position{line: 2981, col: 8, offset: 94119},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2968, col: 12, offset: 93862},
+																																pos: position{line: 2968, col: 12, offset: 93892},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2968, col: 13, offset: 93863},
+																																	pos: position{line: 2968, col: 13, offset: 93893},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 13, offset: 93863},
+																																			pos:        position{line: 2968, col: 13, offset: 93893},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 20, offset: 93870},
+																																			pos:        position{line: 2968, col: 20, offset: 93900},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 29, offset: 93879},
+																																			pos:        position{line: 2968, col: 29, offset: 93909},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37519,9 +37519,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2978, col: 8, offset: 94039},
+																																pos: position{line: 2978, col: 8, offset: 94069},
 																																expr: &anyMatcher{
-																																	line: 2978, col: 9, offset: 94040,
+																																	line: 2978, col: 9, offset: 94070,
 																																},
 																															},
 																														},
@@ -37530,40 +37530,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2695, col: 24, offset: 85892},
+																											pos: position{line: 2695, col: 24, offset: 85922},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2695, col: 24, offset: 85892},
+																												pos:   position{line: 2695, col: 24, offset: 85922},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2695, col: 30, offset: 85898},
+																													pos: position{line: 2695, col: 30, offset: 85928},
 																													expr: &actionExpr{
-																														pos: position{line: 2700, col: 5, offset: 85974},
+																														pos: position{line: 2700, col: 5, offset: 86004},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2700, col: 5, offset: 85974},
+																															pos: position{line: 2700, col: 5, offset: 86004},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2700, col: 5, offset: 85974},
+																																	pos: position{line: 2700, col: 5, offset: 86004},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2665, col: 22, offset: 85171},
+																																		pos: position{line: 2665, col: 22, offset: 85201},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2661, col: 19, offset: 85091},
+																																				pos: position{line: 2661, col: 19, offset: 85121},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2661, col: 19, offset: 85091},
+																																						pos:        position{line: 2661, col: 19, offset: 85121},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2661, col: 26, offset: 85098},
+																																						pos: position{line: 2661, col: 26, offset: 85128},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93691},
+																																							pos: position{line: 2959, col: 10, offset: 93721},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93691},
+																																								pos:        position{line: 2959, col: 10, offset: 93721},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37572,28 +37572,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94089},
+																																						pos: position{line: 2981, col: 8, offset: 94119},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93862},
+																																								pos: position{line: 2968, col: 12, offset: 93892},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93863},
+																																									pos: position{line: 2968, col: 13, offset: 93893},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93863},
+																																											pos:        position{line: 2968, col: 13, offset: 93893},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93870},
+																																											pos:        position{line: 2968, col: 20, offset: 93900},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93879},
+																																											pos:        position{line: 2968, col: 29, offset: 93909},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37602,9 +37602,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94039},
+																																								pos: position{line: 2978, col: 8, offset: 94069},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94040,
+																																									line: 2978, col: 9, offset: 94070,
 																																								},
 																																							},
 																																						},
@@ -37612,16 +37612,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2978, col: 8, offset: 94039},
+																																				pos: position{line: 2978, col: 8, offset: 94069},
 																																				expr: &anyMatcher{
-																																					line: 2978, col: 9, offset: 94040,
+																																					line: 2978, col: 9, offset: 94070,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2701, col: 5, offset: 85997},
+																																	pos: position{line: 2701, col: 5, offset: 86027},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37629,18 +37629,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2976, col: 11, offset: 94025},
+																																					pos: position{line: 2976, col: 11, offset: 94055},
 																																					expr: &anyMatcher{
-																																						line: 2976, col: 13, offset: 94027,
+																																						line: 2976, col: 13, offset: 94057,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2959, col: 10, offset: 93691},
+																																						pos: position{line: 2959, col: 10, offset: 93721},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2959, col: 10, offset: 93691},
+																																							pos:        position{line: 2959, col: 10, offset: 93721},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37649,28 +37649,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2981, col: 8, offset: 94089},
+																																					pos: position{line: 2981, col: 8, offset: 94119},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2968, col: 12, offset: 93862},
+																																							pos: position{line: 2968, col: 12, offset: 93892},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2968, col: 13, offset: 93863},
+																																								pos: position{line: 2968, col: 13, offset: 93893},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 13, offset: 93863},
+																																										pos:        position{line: 2968, col: 13, offset: 93893},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 20, offset: 93870},
+																																										pos:        position{line: 2968, col: 20, offset: 93900},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 29, offset: 93879},
+																																										pos:        position{line: 2968, col: 29, offset: 93909},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37679,9 +37679,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2978, col: 8, offset: 94039},
+																																							pos: position{line: 2978, col: 8, offset: 94069},
 																																							expr: &anyMatcher{
-																																								line: 2978, col: 9, offset: 94040,
+																																								line: 2978, col: 9, offset: 94070,
 																																							},
 																																						},
 																																					},
@@ -37691,17 +37691,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 5, offset: 86012},
+																																	pos:   position{line: 2702, col: 5, offset: 86042},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 12, offset: 86019},
+																																		pos: position{line: 2702, col: 12, offset: 86049},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2719, col: 20, offset: 86483},
+																																			pos: position{line: 2719, col: 20, offset: 86513},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86483},
+																																				pos: position{line: 2719, col: 20, offset: 86513},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2719, col: 20, offset: 86483},
+																																					pos:        position{line: 2719, col: 20, offset: 86513},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37712,18 +37712,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2702, col: 31, offset: 86038},
+																																	pos:        position{line: 2702, col: 31, offset: 86068},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2702, col: 35, offset: 86042},
+																																	pos: position{line: 2702, col: 35, offset: 86072},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2959, col: 10, offset: 93691},
+																																		pos: position{line: 2959, col: 10, offset: 93721},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2959, col: 10, offset: 93691},
+																																			pos:        position{line: 2959, col: 10, offset: 93721},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37732,27 +37732,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2702, col: 42, offset: 86049},
+																																	pos: position{line: 2702, col: 42, offset: 86079},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93862},
+																																		pos: position{line: 2968, col: 12, offset: 93892},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93863},
+																																			pos: position{line: 2968, col: 13, offset: 93893},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93863},
+																																					pos:        position{line: 2968, col: 13, offset: 93893},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93870},
+																																					pos:        position{line: 2968, col: 20, offset: 93900},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93879},
+																																					pos:        position{line: 2968, col: 29, offset: 93909},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37762,37 +37762,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 51, offset: 86058},
+																																	pos:   position{line: 2702, col: 51, offset: 86088},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2708, col: 5, offset: 86217},
+																																		pos: position{line: 2708, col: 5, offset: 86247},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2709, col: 9, offset: 86227},
+																																			pos: position{line: 2709, col: 9, offset: 86257},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86227},
+																																				pos: position{line: 2709, col: 9, offset: 86257},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2709, col: 9, offset: 86227},
+																																						pos: position{line: 2709, col: 9, offset: 86257},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2665, col: 22, offset: 85171},
+																																							pos: position{line: 2665, col: 22, offset: 85201},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2661, col: 19, offset: 85091},
+																																									pos: position{line: 2661, col: 19, offset: 85121},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2661, col: 19, offset: 85091},
+																																											pos:        position{line: 2661, col: 19, offset: 85121},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2661, col: 26, offset: 85098},
+																																											pos: position{line: 2661, col: 26, offset: 85128},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93691},
+																																												pos: position{line: 2959, col: 10, offset: 93721},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93691},
+																																													pos:        position{line: 2959, col: 10, offset: 93721},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37801,28 +37801,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94089},
+																																											pos: position{line: 2981, col: 8, offset: 94119},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93862},
+																																													pos: position{line: 2968, col: 12, offset: 93892},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93863},
+																																														pos: position{line: 2968, col: 13, offset: 93893},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93863},
+																																																pos:        position{line: 2968, col: 13, offset: 93893},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93870},
+																																																pos:        position{line: 2968, col: 20, offset: 93900},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93879},
+																																																pos:        position{line: 2968, col: 29, offset: 93909},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37831,9 +37831,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94039},
+																																													pos: position{line: 2978, col: 8, offset: 94069},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94040,
+																																														line: 2978, col: 9, offset: 94070,
 																																													},
 																																												},
 																																											},
@@ -37841,16 +37841,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94039},
+																																									pos: position{line: 2978, col: 8, offset: 94069},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94040,
+																																										line: 2978, col: 9, offset: 94070,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2710, col: 9, offset: 86254},
+																																						pos: position{line: 2710, col: 9, offset: 86284},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37858,18 +37858,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2976, col: 11, offset: 94025},
+																																										pos: position{line: 2976, col: 11, offset: 94055},
 																																										expr: &anyMatcher{
-																																											line: 2976, col: 13, offset: 94027,
+																																											line: 2976, col: 13, offset: 94057,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2959, col: 10, offset: 93691},
+																																											pos: position{line: 2959, col: 10, offset: 93721},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2959, col: 10, offset: 93691},
+																																												pos:        position{line: 2959, col: 10, offset: 93721},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37878,28 +37878,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2981, col: 8, offset: 94089},
+																																										pos: position{line: 2981, col: 8, offset: 94119},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2968, col: 12, offset: 93862},
+																																												pos: position{line: 2968, col: 12, offset: 93892},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2968, col: 13, offset: 93863},
+																																													pos: position{line: 2968, col: 13, offset: 93893},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 13, offset: 93863},
+																																															pos:        position{line: 2968, col: 13, offset: 93893},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 20, offset: 93870},
+																																															pos:        position{line: 2968, col: 20, offset: 93900},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 29, offset: 93879},
+																																															pos:        position{line: 2968, col: 29, offset: 93909},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37908,9 +37908,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2978, col: 8, offset: 94039},
+																																												pos: position{line: 2978, col: 8, offset: 94069},
 																																												expr: &anyMatcher{
-																																													line: 2978, col: 9, offset: 94040,
+																																													line: 2978, col: 9, offset: 94070,
 																																												},
 																																											},
 																																										},
@@ -37920,22 +37920,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2711, col: 9, offset: 86273},
+																																						pos: position{line: 2711, col: 9, offset: 86303},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2711, col: 11, offset: 86275},
+																																							pos: position{line: 2711, col: 11, offset: 86305},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2711, col: 11, offset: 86275},
+																																									pos:   position{line: 2711, col: 11, offset: 86305},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2711, col: 18, offset: 86282},
+																																										pos: position{line: 2711, col: 18, offset: 86312},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2719, col: 20, offset: 86483},
+																																											pos: position{line: 2719, col: 20, offset: 86513},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86483},
+																																												pos: position{line: 2719, col: 20, offset: 86513},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2719, col: 20, offset: 86483},
+																																													pos:        position{line: 2719, col: 20, offset: 86513},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37946,7 +37946,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2711, col: 37, offset: 86301},
+																																									pos:        position{line: 2711, col: 37, offset: 86331},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37955,15 +37955,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2712, col: 9, offset: 86314},
+																																						pos:   position{line: 2712, col: 9, offset: 86344},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2712, col: 18, offset: 86323},
+																																							pos: position{line: 2712, col: 18, offset: 86353},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86323},
+																																								pos: position{line: 2712, col: 18, offset: 86353},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2712, col: 18, offset: 86323},
+																																									pos:        position{line: 2712, col: 18, offset: 86353},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37973,30 +37973,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2714, col: 12, offset: 86385},
+																																						pos: position{line: 2714, col: 12, offset: 86415},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94089},
+																																							pos: position{line: 2981, col: 8, offset: 94119},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93862},
+																																									pos: position{line: 2968, col: 12, offset: 93892},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93863},
+																																										pos: position{line: 2968, col: 13, offset: 93893},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93863},
+																																												pos:        position{line: 2968, col: 13, offset: 93893},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93870},
+																																												pos:        position{line: 2968, col: 20, offset: 93900},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93879},
+																																												pos:        position{line: 2968, col: 29, offset: 93909},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38005,9 +38005,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94039},
+																																									pos: position{line: 2978, col: 8, offset: 94069},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94040,
+																																										line: 2978, col: 9, offset: 94070,
 																																									},
 																																								},
 																																							},
@@ -38035,18 +38035,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94025},
+																										pos: position{line: 2976, col: 11, offset: 94055},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94027,
+																											line: 2976, col: 13, offset: 94057,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93691},
+																											pos: position{line: 2959, col: 10, offset: 93721},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93691},
+																												pos:        position{line: 2959, col: 10, offset: 93721},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38055,28 +38055,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94089},
+																										pos: position{line: 2981, col: 8, offset: 94119},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93862},
+																												pos: position{line: 2968, col: 12, offset: 93892},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93863},
+																													pos: position{line: 2968, col: 13, offset: 93893},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93863},
+																															pos:        position{line: 2968, col: 13, offset: 93893},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93870},
+																															pos:        position{line: 2968, col: 20, offset: 93900},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93879},
+																															pos:        position{line: 2968, col: 29, offset: 93909},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38085,9 +38085,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94039},
+																												pos: position{line: 2978, col: 8, offset: 94069},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94040,
+																													line: 2978, col: 9, offset: 94070,
 																												},
 																											},
 																										},
@@ -38106,24 +38106,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2665, col: 22, offset: 85171},
+													pos: position{line: 2665, col: 22, offset: 85201},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85091},
+															pos: position{line: 2661, col: 19, offset: 85121},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85091},
+																	pos:        position{line: 2661, col: 19, offset: 85121},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85098},
+																	pos: position{line: 2661, col: 26, offset: 85128},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38132,28 +38132,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38162,9 +38162,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -38172,9 +38172,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -38183,36 +38183,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81334},
+										pos: position{line: 2526, col: 22, offset: 81364},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81334},
+											pos: position{line: 2526, col: 22, offset: 81364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81555},
+													pos:        position{line: 2531, col: 31, offset: 81585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81560},
+													pos: position{line: 2531, col: 36, offset: 81590},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81561},
+														pos:        position{line: 2531, col: 37, offset: 81591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81361},
+													pos:   position{line: 2526, col: 49, offset: 81391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91378},
+														pos: position{line: 2878, col: 13, offset: 91408},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91378},
+															pos: position{line: 2878, col: 13, offset: 91408},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91378},
+																pos:        position{line: 2878, col: 13, offset: 91408},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38222,28 +38222,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94089},
+													pos: position{line: 2981, col: 8, offset: 94119},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38252,9 +38252,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94039},
+															pos: position{line: 2978, col: 8, offset: 94069},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94040,
+																line: 2978, col: 9, offset: 94070,
 															},
 														},
 													},
@@ -38292,65 +38292,160 @@ var g = &grammar{
 																				&actionExpr{
 																					pos: position{line: 1767, col: 12, offset: 56978},
 																					run: (*parser).callonListContinuationElement1592,
-																					expr: &litMatcher{
-																						pos:        position{line: 1767, col: 12, offset: 56978},
-																						val:        "TIP: ",
-																						ignoreCase: false,
-																						want:       "\"TIP: \"",
+																					expr: &seqExpr{
+																						pos: position{line: 1767, col: 12, offset: 56978},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1767, col: 12, offset: 56978},
+																								val:        "TIP:",
+																								ignoreCase: false,
+																								want:       "\"TIP:\"",
+																							},
+																							&actionExpr{
+																								pos: position{line: 2963, col: 11, offset: 93782},
+																								run: (*parser).callonListContinuationElement1595,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 2963, col: 11, offset: 93782},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57034},
-																					run: (*parser).callonListContinuationElement1594,
-																					expr: &litMatcher{
-																						pos:        position{line: 1769, col: 13, offset: 57034},
-																						val:        "NOTE: ",
-																						ignoreCase: false,
-																						want:       "\"NOTE: \"",
+																					pos: position{line: 1769, col: 13, offset: 57040},
+																					run: (*parser).callonListContinuationElement1598,
+																					expr: &seqExpr{
+																						pos: position{line: 1769, col: 13, offset: 57040},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1769, col: 13, offset: 57040},
+																								val:        "NOTE:",
+																								ignoreCase: false,
+																								want:       "\"NOTE:\"",
+																							},
+																							&actionExpr{
+																								pos: position{line: 2963, col: 11, offset: 93782},
+																								run: (*parser).callonListContinuationElement1601,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 2963, col: 11, offset: 93782},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57092},
-																					run: (*parser).callonListContinuationElement1596,
-																					expr: &litMatcher{
-																						pos:        position{line: 1771, col: 13, offset: 57092},
-																						val:        "IMPORTANT: ",
-																						ignoreCase: false,
-																						want:       "\"IMPORTANT: \"",
+																					pos: position{line: 1771, col: 13, offset: 57104},
+																					run: (*parser).callonListContinuationElement1604,
+																					expr: &seqExpr{
+																						pos: position{line: 1771, col: 13, offset: 57104},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1771, col: 13, offset: 57104},
+																								val:        "IMPORTANT:",
+																								ignoreCase: false,
+																								want:       "\"IMPORTANT:\"",
+																							},
+																							&actionExpr{
+																								pos: position{line: 2963, col: 11, offset: 93782},
+																								run: (*parser).callonListContinuationElement1607,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 2963, col: 11, offset: 93782},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57160},
-																					run: (*parser).callonListContinuationElement1598,
-																					expr: &litMatcher{
-																						pos:        position{line: 1773, col: 13, offset: 57160},
-																						val:        "WARNING: ",
-																						ignoreCase: false,
-																						want:       "\"WARNING: \"",
+																					pos: position{line: 1773, col: 13, offset: 57178},
+																					run: (*parser).callonListContinuationElement1610,
+																					expr: &seqExpr{
+																						pos: position{line: 1773, col: 13, offset: 57178},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1773, col: 13, offset: 57178},
+																								val:        "WARNING:",
+																								ignoreCase: false,
+																								want:       "\"WARNING:\"",
+																							},
+																							&actionExpr{
+																								pos: position{line: 2963, col: 11, offset: 93782},
+																								run: (*parser).callonListContinuationElement1613,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 2963, col: 11, offset: 93782},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57224},
-																					run: (*parser).callonListContinuationElement1600,
-																					expr: &litMatcher{
-																						pos:        position{line: 1775, col: 13, offset: 57224},
-																						val:        "CAUTION: ",
-																						ignoreCase: false,
-																						want:       "\"CAUTION: \"",
+																					pos: position{line: 1775, col: 13, offset: 57248},
+																					run: (*parser).callonListContinuationElement1616,
+																					expr: &seqExpr{
+																						pos: position{line: 1775, col: 13, offset: 57248},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1775, col: 13, offset: 57248},
+																								val:        "CAUTION:",
+																								ignoreCase: false,
+																								want:       "\"CAUTION:\"",
+																							},
+																							&actionExpr{
+																								pos: position{line: 2963, col: 11, offset: 93782},
+																								run: (*parser).callonListContinuationElement1619,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 2963, col: 11, offset: 93782},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57288},
-																					run: (*parser).callonListContinuationElement1602,
+																					pos: position{line: 1777, col: 13, offset: 57318},
+																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1777, col: 13, offset: 57288},
+																						pos: position{line: 1777, col: 13, offset: 57318},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93752},
-																							run: (*parser).callonListContinuationElement1604,
+																							pos: position{line: 2963, col: 11, offset: 93782},
+																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93752},
+																								pos: position{line: 2963, col: 11, offset: 93782},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93752},
+																									pos:        position{line: 2963, col: 11, offset: 93782},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38364,17 +38459,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1779, col: 12, offset: 57368},
+																		pos: position{line: 1779, col: 12, offset: 57398},
 																		expr: &seqExpr{
-																			pos: position{line: 1779, col: 14, offset: 57370},
+																			pos: position{line: 1779, col: 14, offset: 57400},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1779, col: 14, offset: 57370},
+																					pos: position{line: 1779, col: 14, offset: 57400},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
-																						run: (*parser).callonListContinuationElement1610,
+																						pos: position{line: 2959, col: 10, offset: 93721},
+																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38383,28 +38478,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
-																							run: (*parser).callonListContinuationElement1613,
+																							pos: position{line: 2968, col: 12, offset: 93892},
+																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38413,9 +38508,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -38433,7 +38528,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1543, col: 5, offset: 49885},
-														run: (*parser).callonListContinuationElement1621,
+														run: (*parser).callonListContinuationElement1641,
 														expr: &seqExpr{
 															pos: position{line: 1543, col: 5, offset: 49885},
 															exprs: []interface{}{
@@ -38441,23 +38536,23 @@ var g = &grammar{
 																	pos: position{line: 1543, col: 5, offset: 49885},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
-																		run: (*parser).callonListContinuationElement1624,
+																		run: (*parser).callonListContinuationElement1644,
 																		expr: &seqExpr{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94025},
+																					pos: position{line: 2976, col: 11, offset: 94055},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94027,
+																						line: 2976, col: 13, offset: 94057,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
-																						run: (*parser).callonListContinuationElement1629,
+																						pos: position{line: 2959, col: 10, offset: 93721},
+																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38466,28 +38561,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94089},
+																					pos: position{line: 2981, col: 8, offset: 94119},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
-																							run: (*parser).callonListContinuationElement1632,
+																							pos: position{line: 2968, col: 12, offset: 93892},
+																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38496,9 +38591,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94039},
+																							pos: position{line: 2978, col: 8, offset: 94069},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94040,
+																								line: 2978, col: 9, offset: 94070,
 																							},
 																						},
 																					},
@@ -38521,10 +38616,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1574, col: 31, offset: 50809},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93691},
-																					run: (*parser).callonListContinuationElement1643,
+																					pos: position{line: 2959, col: 10, offset: 93721},
+																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93691},
+																						pos:        position{line: 2959, col: 10, offset: 93721},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38533,25 +38628,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonListContinuationElement1645,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38566,17 +38661,17 @@ var g = &grammar{
 																	pos: position{line: 1545, col: 5, offset: 49928},
 																	expr: &actionExpr{
 																		pos: position{line: 1616, col: 5, offset: 52024},
-																		run: (*parser).callonListContinuationElement1651,
+																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
 																			pos: position{line: 1616, col: 5, offset: 52024},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1616, col: 5, offset: 52024},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
-																						run: (*parser).callonListContinuationElement1654,
+																						pos: position{line: 2959, col: 10, offset: 93721},
+																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38592,7 +38687,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1618, col: 9, offset: 52094},
-																								run: (*parser).callonListContinuationElement1658,
+																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
 																									pos: position{line: 1618, col: 9, offset: 52094},
 																									exprs: []interface{}{
@@ -38601,7 +38696,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1618, col: 16, offset: 52101},
-																												run: (*parser).callonListContinuationElement1661,
+																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1618, col: 16, offset: 52101},
 																													expr: &litMatcher{
@@ -38615,14 +38710,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1622, col: 9, offset: 52202},
-																											run: (*parser).callonListContinuationElement1664,
+																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1641, col: 11, offset: 52919},
-																								run: (*parser).callonListContinuationElement1665,
+																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
 																									pos: position{line: 1641, col: 11, offset: 52919},
 																									exprs: []interface{}{
@@ -38647,7 +38742,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1643, col: 13, offset: 53045},
-																								run: (*parser).callonListContinuationElement1670,
+																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
 																									pos: position{line: 1643, col: 13, offset: 53045},
 																									exprs: []interface{}{
@@ -38669,7 +38764,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1645, col: 13, offset: 53173},
-																								run: (*parser).callonListContinuationElement1674,
+																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
 																									pos: position{line: 1645, col: 13, offset: 53173},
 																									exprs: []interface{}{
@@ -38691,7 +38786,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1647, col: 13, offset: 53301},
-																								run: (*parser).callonListContinuationElement1678,
+																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
 																									pos: position{line: 1647, col: 13, offset: 53301},
 																									exprs: []interface{}{
@@ -38716,7 +38811,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1649, col: 13, offset: 53434},
-																								run: (*parser).callonListContinuationElement1683,
+																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
 																									pos: position{line: 1649, col: 13, offset: 53434},
 																									exprs: []interface{}{
@@ -38743,12 +38838,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93752},
-																					run: (*parser).callonListContinuationElement1688,
+																					pos: position{line: 2963, col: 11, offset: 93782},
+																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93752},
+																						pos: position{line: 2963, col: 11, offset: 93782},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93752},
+																							pos:        position{line: 2963, col: 11, offset: 93782},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38764,17 +38859,17 @@ var g = &grammar{
 																	pos: position{line: 1546, col: 5, offset: 49958},
 																	expr: &actionExpr{
 																		pos: position{line: 1666, col: 5, offset: 53986},
-																		run: (*parser).callonListContinuationElement1692,
+																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
 																			pos: position{line: 1666, col: 5, offset: 53986},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1666, col: 5, offset: 53986},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
-																						run: (*parser).callonListContinuationElement1695,
+																						pos: position{line: 2959, col: 10, offset: 93721},
+																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38787,7 +38882,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1668, col: 9, offset: 54014},
-																						run: (*parser).callonListContinuationElement1698,
+																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
 																							pos: position{line: 1668, col: 10, offset: 54015},
 																							alternatives: []interface{}{
@@ -38812,15 +38907,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1671, col: 7, offset: 54114},
-																					run: (*parser).callonListContinuationElement1703,
+																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93752},
-																					run: (*parser).callonListContinuationElement1704,
+																					pos: position{line: 2963, col: 11, offset: 93782},
+																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93752},
+																						pos: position{line: 2963, col: 11, offset: 93782},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93752},
+																							pos:        position{line: 2963, col: 11, offset: 93782},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38836,7 +38931,7 @@ var g = &grammar{
 																	pos: position{line: 1547, col: 5, offset: 49990},
 																	expr: &actionExpr{
 																		pos: position{line: 1755, col: 5, offset: 56523},
-																		run: (*parser).callonListContinuationElement1708,
+																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
 																			pos: position{line: 1755, col: 5, offset: 56523},
 																			exprs: []interface{}{
@@ -38851,7 +38946,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1755, col: 14, offset: 56532},
-																						run: (*parser).callonListContinuationElement1712,
+																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1755, col: 14, offset: 56532},
 																							expr: &charClassMatcher{
@@ -38871,12 +38966,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93752},
-																					run: (*parser).callonListContinuationElement1716,
+																					pos: position{line: 2963, col: 11, offset: 93782},
+																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93752},
+																						pos: position{line: 2963, col: 11, offset: 93782},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93752},
+																							pos:        position{line: 2963, col: 11, offset: 93782},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38895,7 +38990,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1701, col: 5, offset: 55005},
-																				run: (*parser).callonListContinuationElement1721,
+																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1701, col: 5, offset: 55005},
 																					expr: &seqExpr{
@@ -38905,7 +39000,7 @@ var g = &grammar{
 																								pos: position{line: 1701, col: 6, offset: 55006},
 																								expr: &actionExpr{
 																									pos: position{line: 1706, col: 5, offset: 55156},
-																									run: (*parser).callonListContinuationElement1725,
+																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
 																										pos: position{line: 1706, col: 5, offset: 55156},
 																										exprs: []interface{}{
@@ -38914,7 +39009,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1706, col: 16, offset: 55167},
-																													run: (*parser).callonListContinuationElement1728,
+																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1706, col: 16, offset: 55167},
 																														expr: &litMatcher{
@@ -38928,7 +39023,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1709, col: 5, offset: 55225},
-																												run: (*parser).callonListContinuationElement1731,
+																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
 																									},
@@ -38937,28 +39032,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1701, col: 35, offset: 55035},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94089},
+																									pos: position{line: 2981, col: 8, offset: 94119},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93862},
-																											run: (*parser).callonListContinuationElement1734,
+																											pos: position{line: 2968, col: 12, offset: 93892},
+																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93863},
+																												pos: position{line: 2968, col: 13, offset: 93893},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93863},
+																														pos:        position{line: 2968, col: 13, offset: 93893},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93870},
+																														pos:        position{line: 2968, col: 20, offset: 93900},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93879},
+																														pos:        position{line: 2968, col: 29, offset: 93909},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -38967,9 +39062,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94039},
+																											pos: position{line: 2978, col: 8, offset: 94069},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94040,
+																												line: 2978, col: 9, offset: 94070,
 																											},
 																										},
 																									},
@@ -38984,7 +39079,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1706, col: 5, offset: 55156},
-																				run: (*parser).callonListContinuationElement1742,
+																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
 																					pos: position{line: 1706, col: 5, offset: 55156},
 																					exprs: []interface{}{
@@ -38993,7 +39088,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1706, col: 16, offset: 55167},
-																								run: (*parser).callonListContinuationElement1745,
+																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1706, col: 16, offset: 55167},
 																									expr: &litMatcher{
@@ -39007,7 +39102,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1709, col: 5, offset: 55225},
-																							run: (*parser).callonListContinuationElement1748,
+																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
 																				},
@@ -39016,10 +39111,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93691},
-																						run: (*parser).callonListContinuationElement1750,
+																						pos: position{line: 2959, col: 10, offset: 93721},
+																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93691},
+																							pos:        position{line: 2959, col: 10, offset: 93721},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39027,25 +39122,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93862},
-																						run: (*parser).callonListContinuationElement1752,
+																						pos: position{line: 2968, col: 12, offset: 93892},
+																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93863},
+																							pos: position{line: 2968, col: 13, offset: 93893},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93863},
+																									pos:        position{line: 2968, col: 13, offset: 93893},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93870},
+																									pos:        position{line: 2968, col: 20, offset: 93900},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93879},
+																									pos:        position{line: 2968, col: 29, offset: 93909},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39054,9 +39149,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94039},
+																						pos: position{line: 2978, col: 8, offset: 94069},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94040,
+																							line: 2978, col: 9, offset: 94070,
 																						},
 																					},
 																				},
@@ -39071,14 +39166,14 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
-																				run: (*parser).callonListContinuationElement1761,
+																				run: (*parser).callonListContinuationElement1781,
 																				expr: &seqExpr{
 																					pos: position{line: 744, col: 5, offset: 23707},
 																					exprs: []interface{}{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2813, col: 13, offset: 89639},
+																								pos:        position{line: 2813, col: 13, offset: 89669},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39093,7 +39188,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 760, col: 5, offset: 24249},
-																										run: (*parser).callonListContinuationElement1767,
+																										run: (*parser).callonListContinuationElement1787,
 																										expr: &seqExpr{
 																											pos: position{line: 760, col: 5, offset: 24249},
 																											exprs: []interface{}{
@@ -39102,7 +39197,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 760, col: 16, offset: 24260},
-																														run: (*parser).callonListContinuationElement1770,
+																														run: (*parser).callonListContinuationElement1790,
 																														expr: &seqExpr{
 																															pos: position{line: 760, col: 16, offset: 24260},
 																															exprs: []interface{}{
@@ -39128,10 +39223,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1776,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39140,28 +39235,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1779,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39170,9 +39265,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39182,7 +39277,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 767, col: 5, offset: 24497},
-																										run: (*parser).callonListContinuationElement1786,
+																										run: (*parser).callonListContinuationElement1806,
 																										expr: &seqExpr{
 																											pos: position{line: 767, col: 5, offset: 24497},
 																											exprs: []interface{}{
@@ -39191,7 +39286,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 767, col: 16, offset: 24508},
-																														run: (*parser).callonListContinuationElement1789,
+																														run: (*parser).callonListContinuationElement1809,
 																														expr: &seqExpr{
 																															pos: position{line: 767, col: 16, offset: 24508},
 																															exprs: []interface{}{
@@ -39217,10 +39312,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1795,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39229,28 +39324,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1798,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39259,9 +39354,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39271,7 +39366,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 780, col: 26, offset: 24985},
-																										run: (*parser).callonListContinuationElement1805,
+																										run: (*parser).callonListContinuationElement1825,
 																										expr: &seqExpr{
 																											pos: position{line: 780, col: 26, offset: 24985},
 																											exprs: []interface{}{
@@ -39286,7 +39381,7 @@ var g = &grammar{
 																													label: "language",
 																													expr: &actionExpr{
 																														pos: position{line: 784, col: 13, offset: 25121},
-																														run: (*parser).callonListContinuationElement1809,
+																														run: (*parser).callonListContinuationElement1829,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 784, col: 14, offset: 25122},
 																															expr: &charClassMatcher{
@@ -39302,10 +39397,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1813,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39314,28 +39409,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1816,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39344,9 +39439,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39356,7 +39451,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 774, col: 5, offset: 24744},
-																										run: (*parser).callonListContinuationElement1823,
+																										run: (*parser).callonListContinuationElement1843,
 																										expr: &seqExpr{
 																											pos: position{line: 774, col: 5, offset: 24744},
 																											exprs: []interface{}{
@@ -39365,7 +39460,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 774, col: 16, offset: 24755},
-																														run: (*parser).callonListContinuationElement1826,
+																														run: (*parser).callonListContinuationElement1846,
 																														expr: &seqExpr{
 																															pos: position{line: 774, col: 16, offset: 24755},
 																															exprs: []interface{}{
@@ -39391,10 +39486,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1832,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39403,28 +39498,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1835,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39433,9 +39528,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39445,7 +39540,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 789, col: 5, offset: 25281},
-																										run: (*parser).callonListContinuationElement1842,
+																										run: (*parser).callonListContinuationElement1862,
 																										expr: &seqExpr{
 																											pos: position{line: 789, col: 5, offset: 25281},
 																											exprs: []interface{}{
@@ -39454,7 +39549,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 789, col: 16, offset: 25292},
-																														run: (*parser).callonListContinuationElement1845,
+																														run: (*parser).callonListContinuationElement1865,
 																														expr: &seqExpr{
 																															pos: position{line: 789, col: 16, offset: 25292},
 																															exprs: []interface{}{
@@ -39480,10 +39575,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1851,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39492,28 +39587,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1854,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39522,9 +39617,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39534,7 +39629,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 803, col: 5, offset: 25757},
-																										run: (*parser).callonListContinuationElement1861,
+																										run: (*parser).callonListContinuationElement1881,
 																										expr: &seqExpr{
 																											pos: position{line: 803, col: 5, offset: 25757},
 																											exprs: []interface{}{
@@ -39543,7 +39638,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 803, col: 16, offset: 25768},
-																														run: (*parser).callonListContinuationElement1864,
+																														run: (*parser).callonListContinuationElement1884,
 																														expr: &seqExpr{
 																															pos: position{line: 803, col: 16, offset: 25768},
 																															exprs: []interface{}{
@@ -39569,10 +39664,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1870,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39581,28 +39676,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1873,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39611,9 +39706,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39623,7 +39718,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 810, col: 5, offset: 26009},
-																										run: (*parser).callonListContinuationElement1880,
+																										run: (*parser).callonListContinuationElement1900,
 																										expr: &seqExpr{
 																											pos: position{line: 810, col: 5, offset: 26009},
 																											exprs: []interface{}{
@@ -39632,7 +39727,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 810, col: 16, offset: 26020},
-																														run: (*parser).callonListContinuationElement1883,
+																														run: (*parser).callonListContinuationElement1903,
 																														expr: &seqExpr{
 																															pos: position{line: 810, col: 16, offset: 26020},
 																															exprs: []interface{}{
@@ -39658,10 +39753,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1889,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39670,28 +39765,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1892,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39700,9 +39795,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39712,7 +39807,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 817, col: 5, offset: 26259},
-																										run: (*parser).callonListContinuationElement1899,
+																										run: (*parser).callonListContinuationElement1919,
 																										expr: &seqExpr{
 																											pos: position{line: 817, col: 5, offset: 26259},
 																											exprs: []interface{}{
@@ -39721,7 +39816,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 817, col: 16, offset: 26270},
-																														run: (*parser).callonListContinuationElement1902,
+																														run: (*parser).callonListContinuationElement1922,
 																														expr: &seqExpr{
 																															pos: position{line: 817, col: 16, offset: 26270},
 																															exprs: []interface{}{
@@ -39747,10 +39842,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1908,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39759,28 +39854,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1911,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39789,9 +39884,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39801,7 +39896,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 824, col: 5, offset: 26505},
-																										run: (*parser).callonListContinuationElement1918,
+																										run: (*parser).callonListContinuationElement1938,
 																										expr: &seqExpr{
 																											pos: position{line: 824, col: 5, offset: 26505},
 																											exprs: []interface{}{
@@ -39810,7 +39905,7 @@ var g = &grammar{
 																													label: "delimiter",
 																													expr: &actionExpr{
 																														pos: position{line: 824, col: 16, offset: 26516},
-																														run: (*parser).callonListContinuationElement1921,
+																														run: (*parser).callonListContinuationElement1941,
 																														expr: &seqExpr{
 																															pos: position{line: 824, col: 16, offset: 26516},
 																															exprs: []interface{}{
@@ -39836,10 +39931,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93691},
-																														run: (*parser).callonListContinuationElement1927,
+																														pos: position{line: 2959, col: 10, offset: 93721},
+																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93691},
+																															pos:        position{line: 2959, col: 10, offset: 93721},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39848,28 +39943,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94089},
+																													pos: position{line: 2981, col: 8, offset: 94119},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93862},
-																															run: (*parser).callonListContinuationElement1930,
+																															pos: position{line: 2968, col: 12, offset: 93892},
+																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93863},
+																																pos: position{line: 2968, col: 13, offset: 93893},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93863},
+																																		pos:        position{line: 2968, col: 13, offset: 93893},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93870},
+																																		pos:        position{line: 2968, col: 20, offset: 93900},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93879},
+																																		pos:        position{line: 2968, col: 29, offset: 93909},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39878,9 +39973,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94039},
+																															pos: position{line: 2978, col: 8, offset: 94069},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94040,
+																																line: 2978, col: 9, offset: 94070,
 																															},
 																														},
 																													},
@@ -39896,7 +39991,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 796, col: 5, offset: 25526},
-																				run: (*parser).callonListContinuationElement1937,
+																				run: (*parser).callonListContinuationElement1957,
 																				expr: &seqExpr{
 																					pos: position{line: 796, col: 5, offset: 25526},
 																					exprs: []interface{}{
@@ -39905,7 +40000,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 796, col: 16, offset: 25537},
-																								run: (*parser).callonListContinuationElement1940,
+																								run: (*parser).callonListContinuationElement1960,
 																								expr: &litMatcher{
 																									pos:        position{line: 796, col: 16, offset: 25537},
 																									val:        "--",
@@ -39917,10 +40012,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93691},
-																								run: (*parser).callonListContinuationElement1943,
+																								pos: position{line: 2959, col: 10, offset: 93721},
+																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93691},
+																									pos:        position{line: 2959, col: 10, offset: 93721},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -39929,28 +40024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94089},
+																							pos: position{line: 2981, col: 8, offset: 94119},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93862},
-																									run: (*parser).callonListContinuationElement1946,
+																									pos: position{line: 2968, col: 12, offset: 93892},
+																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93863},
+																										pos: position{line: 2968, col: 13, offset: 93893},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93863},
+																												pos:        position{line: 2968, col: 13, offset: 93893},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93870},
+																												pos:        position{line: 2968, col: 20, offset: 93900},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93879},
+																												pos:        position{line: 2968, col: 29, offset: 93909},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -39959,9 +40054,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94039},
+																									pos: position{line: 2978, col: 8, offset: 94069},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94040,
+																										line: 2978, col: 9, offset: 94070,
 																									},
 																								},
 																							},
@@ -39970,21 +40065,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2661, col: 19, offset: 85091},
+																				pos: position{line: 2661, col: 19, offset: 85121},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2661, col: 19, offset: 85091},
+																						pos:        position{line: 2661, col: 19, offset: 85121},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2661, col: 26, offset: 85098},
+																						pos: position{line: 2661, col: 26, offset: 85128},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
-																							run: (*parser).callonListContinuationElement1956,
+																							pos: position{line: 2959, col: 10, offset: 93721},
+																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39993,28 +40088,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94089},
+																						pos: position{line: 2981, col: 8, offset: 94119},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93862},
-																								run: (*parser).callonListContinuationElement1959,
+																								pos: position{line: 2968, col: 12, offset: 93892},
+																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93863},
+																									pos: position{line: 2968, col: 13, offset: 93893},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93863},
+																											pos:        position{line: 2968, col: 13, offset: 93893},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93870},
+																											pos:        position{line: 2968, col: 20, offset: 93900},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93879},
+																											pos:        position{line: 2968, col: 29, offset: 93909},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40023,9 +40118,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94039},
+																								pos: position{line: 2978, col: 8, offset: 94069},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94040,
+																									line: 2978, col: 9, offset: 94070,
 																								},
 																							},
 																						},
@@ -40039,12 +40134,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91445},
-																		run: (*parser).callonListContinuationElement1967,
+																		pos: position{line: 2882, col: 14, offset: 91475},
+																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91445},
+																			pos: position{line: 2882, col: 14, offset: 91475},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91445},
+																				pos:        position{line: 2882, col: 14, offset: 91475},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40054,28 +40149,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
-																			run: (*parser).callonListContinuationElement1971,
+																			pos: position{line: 2968, col: 12, offset: 93892},
+																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40084,9 +40179,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -40151,10 +40246,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1744, col: 66, offset: 56223},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93691},
+								pos: position{line: 2959, col: 10, offset: 93721},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93691},
+									pos:        position{line: 2959, col: 10, offset: 93721},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40168,25 +40263,25 @@ var g = &grammar{
 								pos: position{line: 1744, col: 75, offset: 56232},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93862},
+										pos: position{line: 2968, col: 12, offset: 93892},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93863},
+											pos: position{line: 2968, col: 13, offset: 93893},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93863},
+													pos:        position{line: 2968, col: 13, offset: 93893},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93870},
+													pos:        position{line: 2968, col: 20, offset: 93900},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93879},
+													pos:        position{line: 2968, col: 29, offset: 93909},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40195,9 +40290,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94039},
+										pos: position{line: 2978, col: 8, offset: 94069},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94040,
+											line: 2978, col: 9, offset: 94070,
 										},
 									},
 									&ruleRefExpr{
@@ -40213,44 +40308,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1783, col: 1, offset: 57425},
+			pos:  position{line: 1783, col: 1, offset: 57455},
 			expr: &actionExpr{
-				pos: position{line: 1785, col: 5, offset: 57499},
+				pos: position{line: 1785, col: 5, offset: 57529},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1785, col: 5, offset: 57499},
+					pos: position{line: 1785, col: 5, offset: 57529},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1785, col: 5, offset: 57499},
+							pos: position{line: 1785, col: 5, offset: 57529},
 							expr: &seqExpr{
-								pos: position{line: 1785, col: 7, offset: 57501},
+								pos: position{line: 1785, col: 7, offset: 57531},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2813, col: 13, offset: 89639},
+										pos:        position{line: 2813, col: 13, offset: 89669},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1785, col: 16, offset: 57510},
+										pos: position{line: 1785, col: 16, offset: 57540},
 										expr: &seqExpr{
-											pos: position{line: 1785, col: 18, offset: 57512},
+											pos: position{line: 1785, col: 18, offset: 57542},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1785, col: 19, offset: 57513},
+													pos:        position{line: 1785, col: 19, offset: 57543},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93752},
+													pos: position{line: 2963, col: 11, offset: 93782},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93752},
+														pos: position{line: 2963, col: 11, offset: 93782},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93752},
+															pos:        position{line: 2963, col: 11, offset: 93782},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40265,10 +40360,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57653},
+							pos:   position{line: 1786, col: 5, offset: 57683},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57659},
+								pos: position{line: 1786, col: 11, offset: 57689},
 								expr: &actionExpr{
 									pos: position{line: 1764, col: 5, offset: 56908},
 									run: (*parser).callonShortcutParagraph14,
@@ -40288,65 +40383,160 @@ var g = &grammar{
 														&actionExpr{
 															pos: position{line: 1767, col: 12, offset: 56978},
 															run: (*parser).callonShortcutParagraph19,
-															expr: &litMatcher{
-																pos:        position{line: 1767, col: 12, offset: 56978},
-																val:        "TIP: ",
-																ignoreCase: false,
-																want:       "\"TIP: \"",
+															expr: &seqExpr{
+																pos: position{line: 1767, col: 12, offset: 56978},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1767, col: 12, offset: 56978},
+																		val:        "TIP:",
+																		ignoreCase: false,
+																		want:       "\"TIP:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonShortcutParagraph22,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57034},
-															run: (*parser).callonShortcutParagraph21,
-															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57034},
-																val:        "NOTE: ",
-																ignoreCase: false,
-																want:       "\"NOTE: \"",
+															pos: position{line: 1769, col: 13, offset: 57040},
+															run: (*parser).callonShortcutParagraph25,
+															expr: &seqExpr{
+																pos: position{line: 1769, col: 13, offset: 57040},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1769, col: 13, offset: 57040},
+																		val:        "NOTE:",
+																		ignoreCase: false,
+																		want:       "\"NOTE:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonShortcutParagraph28,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57092},
-															run: (*parser).callonShortcutParagraph23,
-															expr: &litMatcher{
-																pos:        position{line: 1771, col: 13, offset: 57092},
-																val:        "IMPORTANT: ",
-																ignoreCase: false,
-																want:       "\"IMPORTANT: \"",
+															pos: position{line: 1771, col: 13, offset: 57104},
+															run: (*parser).callonShortcutParagraph31,
+															expr: &seqExpr{
+																pos: position{line: 1771, col: 13, offset: 57104},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1771, col: 13, offset: 57104},
+																		val:        "IMPORTANT:",
+																		ignoreCase: false,
+																		want:       "\"IMPORTANT:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonShortcutParagraph34,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57160},
-															run: (*parser).callonShortcutParagraph25,
-															expr: &litMatcher{
-																pos:        position{line: 1773, col: 13, offset: 57160},
-																val:        "WARNING: ",
-																ignoreCase: false,
-																want:       "\"WARNING: \"",
+															pos: position{line: 1773, col: 13, offset: 57178},
+															run: (*parser).callonShortcutParagraph37,
+															expr: &seqExpr{
+																pos: position{line: 1773, col: 13, offset: 57178},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1773, col: 13, offset: 57178},
+																		val:        "WARNING:",
+																		ignoreCase: false,
+																		want:       "\"WARNING:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonShortcutParagraph40,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57224},
-															run: (*parser).callonShortcutParagraph27,
-															expr: &litMatcher{
-																pos:        position{line: 1775, col: 13, offset: 57224},
-																val:        "CAUTION: ",
-																ignoreCase: false,
-																want:       "\"CAUTION: \"",
+															pos: position{line: 1775, col: 13, offset: 57248},
+															run: (*parser).callonShortcutParagraph43,
+															expr: &seqExpr{
+																pos: position{line: 1775, col: 13, offset: 57248},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1775, col: 13, offset: 57248},
+																		val:        "CAUTION:",
+																		ignoreCase: false,
+																		want:       "\"CAUTION:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonShortcutParagraph46,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57288},
-															run: (*parser).callonShortcutParagraph29,
+															pos: position{line: 1777, col: 13, offset: 57318},
+															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57288},
+																pos: position{line: 1777, col: 13, offset: 57318},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
-																	run: (*parser).callonShortcutParagraph31,
+																	pos: position{line: 2963, col: 11, offset: 93782},
+																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40360,17 +40550,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57368},
+												pos: position{line: 1779, col: 12, offset: 57398},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57370},
+													pos: position{line: 1779, col: 14, offset: 57400},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57370},
+															pos: position{line: 1779, col: 14, offset: 57400},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
-																run: (*parser).callonShortcutParagraph37,
+																pos: position{line: 2959, col: 10, offset: 93721},
+																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40379,28 +40569,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94089},
+															pos: position{line: 2981, col: 8, offset: 94119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93862},
-																	run: (*parser).callonShortcutParagraph40,
+																	pos: position{line: 2968, col: 12, offset: 93892},
+																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93863},
+																		pos: position{line: 2968, col: 13, offset: 93893},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93863},
+																				pos:        position{line: 2968, col: 13, offset: 93893},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93870},
+																				pos:        position{line: 2968, col: 20, offset: 93900},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93879},
+																				pos:        position{line: 2968, col: 29, offset: 93909},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40409,9 +40599,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -40425,24 +40615,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57681},
+							pos:   position{line: 1787, col: 5, offset: 57711},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58892},
-								run: (*parser).callonShortcutParagraph48,
+								pos: position{line: 1824, col: 5, offset: 58922},
+								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58892},
+									pos: position{line: 1824, col: 5, offset: 58922},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58892},
+											pos:   position{line: 1824, col: 5, offset: 58922},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91445},
-												run: (*parser).callonShortcutParagraph51,
+												pos: position{line: 2882, col: 14, offset: 91475},
+												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91445},
+													pos: position{line: 2882, col: 14, offset: 91475},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91445},
+														pos:        position{line: 2882, col: 14, offset: 91475},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40452,32 +40642,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58916},
-											run: (*parser).callonShortcutParagraph54,
+											pos: position{line: 1825, col: 5, offset: 58946},
+											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94089},
+											pos: position{line: 2981, col: 8, offset: 94119},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93862},
-													run: (*parser).callonShortcutParagraph56,
+													pos: position{line: 2968, col: 12, offset: 93892},
+													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93863},
+														pos: position{line: 2968, col: 13, offset: 93893},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93863},
+																pos:        position{line: 2968, col: 13, offset: 93893},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93870},
+																pos:        position{line: 2968, col: 20, offset: 93900},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93879},
+																pos:        position{line: 2968, col: 29, offset: 93909},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40486,9 +40676,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -40498,47 +40688,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1788, col: 5, offset: 57715},
-							run: (*parser).callonShortcutParagraph63,
+							pos: position{line: 1788, col: 5, offset: 57745},
+							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1795, col: 5, offset: 58045},
+							pos:   position{line: 1795, col: 5, offset: 58075},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1795, col: 16, offset: 58056},
+								pos: position{line: 1795, col: 16, offset: 58086},
 								expr: &actionExpr{
-									pos: position{line: 1796, col: 9, offset: 58066},
-									run: (*parser).callonShortcutParagraph66,
+									pos: position{line: 1796, col: 9, offset: 58096},
+									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1796, col: 9, offset: 58066},
+										pos: position{line: 1796, col: 9, offset: 58096},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94025},
+												pos: position{line: 2976, col: 11, offset: 94055},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94027,
+													line: 2976, col: 13, offset: 94057,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58082},
+												pos: position{line: 1797, col: 9, offset: 58112},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
-													run: (*parser).callonShortcutParagraph71,
+													run: (*parser).callonShortcutParagraph91,
 													expr: &seqExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
-																	run: (*parser).callonShortcutParagraph76,
+																	pos: position{line: 2959, col: 10, offset: 93721},
+																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40547,28 +40737,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
-																		run: (*parser).callonShortcutParagraph79,
+																		pos: position{line: 2968, col: 12, offset: 93892},
+																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40577,9 +40767,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -40589,27 +40779,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58101},
+												pos: position{line: 1798, col: 9, offset: 58131},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1798, col: 10, offset: 58102},
+													pos:  position{line: 1798, col: 10, offset: 58132},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1799, col: 9, offset: 58126},
+												pos: position{line: 1799, col: 9, offset: 58156},
 												expr: &choiceExpr{
-													pos: position{line: 1799, col: 11, offset: 58128},
+													pos: position{line: 1799, col: 11, offset: 58158},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
-															run: (*parser).callonShortcutParagraph90,
+															run: (*parser).callonShortcutParagraph110,
 															expr: &seqExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89639},
+																			pos:        position{line: 2813, col: 13, offset: 89669},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40624,7 +40814,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 760, col: 5, offset: 24249},
-																					run: (*parser).callonShortcutParagraph96,
+																					run: (*parser).callonShortcutParagraph116,
 																					expr: &seqExpr{
 																						pos: position{line: 760, col: 5, offset: 24249},
 																						exprs: []interface{}{
@@ -40633,7 +40823,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 760, col: 16, offset: 24260},
-																									run: (*parser).callonShortcutParagraph99,
+																									run: (*parser).callonShortcutParagraph119,
 																									expr: &seqExpr{
 																										pos: position{line: 760, col: 16, offset: 24260},
 																										exprs: []interface{}{
@@ -40659,10 +40849,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph105,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40671,28 +40861,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph108,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40701,9 +40891,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -40713,7 +40903,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 767, col: 5, offset: 24497},
-																					run: (*parser).callonShortcutParagraph115,
+																					run: (*parser).callonShortcutParagraph135,
 																					expr: &seqExpr{
 																						pos: position{line: 767, col: 5, offset: 24497},
 																						exprs: []interface{}{
@@ -40722,7 +40912,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 767, col: 16, offset: 24508},
-																									run: (*parser).callonShortcutParagraph118,
+																									run: (*parser).callonShortcutParagraph138,
 																									expr: &seqExpr{
 																										pos: position{line: 767, col: 16, offset: 24508},
 																										exprs: []interface{}{
@@ -40748,10 +40938,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph124,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40760,28 +40950,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph127,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40790,9 +40980,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -40802,7 +40992,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 780, col: 26, offset: 24985},
-																					run: (*parser).callonShortcutParagraph134,
+																					run: (*parser).callonShortcutParagraph154,
 																					expr: &seqExpr{
 																						pos: position{line: 780, col: 26, offset: 24985},
 																						exprs: []interface{}{
@@ -40817,7 +41007,7 @@ var g = &grammar{
 																								label: "language",
 																								expr: &actionExpr{
 																									pos: position{line: 784, col: 13, offset: 25121},
-																									run: (*parser).callonShortcutParagraph138,
+																									run: (*parser).callonShortcutParagraph158,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 784, col: 14, offset: 25122},
 																										expr: &charClassMatcher{
@@ -40833,10 +41023,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph142,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40845,28 +41035,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph145,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40875,9 +41065,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -40887,7 +41077,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 774, col: 5, offset: 24744},
-																					run: (*parser).callonShortcutParagraph152,
+																					run: (*parser).callonShortcutParagraph172,
 																					expr: &seqExpr{
 																						pos: position{line: 774, col: 5, offset: 24744},
 																						exprs: []interface{}{
@@ -40896,7 +41086,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 774, col: 16, offset: 24755},
-																									run: (*parser).callonShortcutParagraph155,
+																									run: (*parser).callonShortcutParagraph175,
 																									expr: &seqExpr{
 																										pos: position{line: 774, col: 16, offset: 24755},
 																										exprs: []interface{}{
@@ -40922,10 +41112,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph161,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40934,28 +41124,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph164,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40964,9 +41154,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -40976,7 +41166,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 789, col: 5, offset: 25281},
-																					run: (*parser).callonShortcutParagraph171,
+																					run: (*parser).callonShortcutParagraph191,
 																					expr: &seqExpr{
 																						pos: position{line: 789, col: 5, offset: 25281},
 																						exprs: []interface{}{
@@ -40985,7 +41175,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 789, col: 16, offset: 25292},
-																									run: (*parser).callonShortcutParagraph174,
+																									run: (*parser).callonShortcutParagraph194,
 																									expr: &seqExpr{
 																										pos: position{line: 789, col: 16, offset: 25292},
 																										exprs: []interface{}{
@@ -41011,10 +41201,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph180,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41023,28 +41213,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph183,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41053,9 +41243,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -41065,7 +41255,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 803, col: 5, offset: 25757},
-																					run: (*parser).callonShortcutParagraph190,
+																					run: (*parser).callonShortcutParagraph210,
 																					expr: &seqExpr{
 																						pos: position{line: 803, col: 5, offset: 25757},
 																						exprs: []interface{}{
@@ -41074,7 +41264,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 803, col: 16, offset: 25768},
-																									run: (*parser).callonShortcutParagraph193,
+																									run: (*parser).callonShortcutParagraph213,
 																									expr: &seqExpr{
 																										pos: position{line: 803, col: 16, offset: 25768},
 																										exprs: []interface{}{
@@ -41100,10 +41290,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph199,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41112,28 +41302,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph202,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41142,9 +41332,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -41154,7 +41344,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 810, col: 5, offset: 26009},
-																					run: (*parser).callonShortcutParagraph209,
+																					run: (*parser).callonShortcutParagraph229,
 																					expr: &seqExpr{
 																						pos: position{line: 810, col: 5, offset: 26009},
 																						exprs: []interface{}{
@@ -41163,7 +41353,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 810, col: 16, offset: 26020},
-																									run: (*parser).callonShortcutParagraph212,
+																									run: (*parser).callonShortcutParagraph232,
 																									expr: &seqExpr{
 																										pos: position{line: 810, col: 16, offset: 26020},
 																										exprs: []interface{}{
@@ -41189,10 +41379,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph218,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41201,28 +41391,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph221,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41231,9 +41421,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -41243,7 +41433,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 817, col: 5, offset: 26259},
-																					run: (*parser).callonShortcutParagraph228,
+																					run: (*parser).callonShortcutParagraph248,
 																					expr: &seqExpr{
 																						pos: position{line: 817, col: 5, offset: 26259},
 																						exprs: []interface{}{
@@ -41252,7 +41442,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 817, col: 16, offset: 26270},
-																									run: (*parser).callonShortcutParagraph231,
+																									run: (*parser).callonShortcutParagraph251,
 																									expr: &seqExpr{
 																										pos: position{line: 817, col: 16, offset: 26270},
 																										exprs: []interface{}{
@@ -41278,10 +41468,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph237,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41290,28 +41480,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph240,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41320,9 +41510,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -41332,7 +41522,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 824, col: 5, offset: 26505},
-																					run: (*parser).callonShortcutParagraph247,
+																					run: (*parser).callonShortcutParagraph267,
 																					expr: &seqExpr{
 																						pos: position{line: 824, col: 5, offset: 26505},
 																						exprs: []interface{}{
@@ -41341,7 +41531,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 824, col: 16, offset: 26516},
-																									run: (*parser).callonShortcutParagraph250,
+																									run: (*parser).callonShortcutParagraph270,
 																									expr: &seqExpr{
 																										pos: position{line: 824, col: 16, offset: 26516},
 																										exprs: []interface{}{
@@ -41367,10 +41557,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonShortcutParagraph256,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41379,28 +41569,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonShortcutParagraph259,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41409,9 +41599,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -41427,7 +41617,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 796, col: 5, offset: 25526},
-															run: (*parser).callonShortcutParagraph266,
+															run: (*parser).callonShortcutParagraph286,
 															expr: &seqExpr{
 																pos: position{line: 796, col: 5, offset: 25526},
 																exprs: []interface{}{
@@ -41436,7 +41626,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 796, col: 16, offset: 25537},
-																			run: (*parser).callonShortcutParagraph269,
+																			run: (*parser).callonShortcutParagraph289,
 																			expr: &litMatcher{
 																				pos:        position{line: 796, col: 16, offset: 25537},
 																				val:        "--",
@@ -41448,10 +41638,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
-																			run: (*parser).callonShortcutParagraph272,
+																			pos: position{line: 2959, col: 10, offset: 93721},
+																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41460,28 +41650,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonShortcutParagraph275,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41490,9 +41680,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -41501,21 +41691,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85091},
+															pos: position{line: 2661, col: 19, offset: 85121},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85091},
+																	pos:        position{line: 2661, col: 19, offset: 85121},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85098},
+																	pos: position{line: 2661, col: 26, offset: 85128},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
-																		run: (*parser).callonShortcutParagraph285,
+																		pos: position{line: 2959, col: 10, offset: 93721},
+																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41524,28 +41714,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
-																			run: (*parser).callonShortcutParagraph288,
+																			pos: position{line: 2968, col: 12, offset: 93892},
+																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41554,9 +41744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -41567,7 +41757,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1800, col: 9, offset: 58190},
+												pos: position{line: 1800, col: 9, offset: 58220},
 												expr: &seqExpr{
 													pos: position{line: 1574, col: 27, offset: 50805},
 													exprs: []interface{}{
@@ -41580,10 +41770,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1574, col: 31, offset: 50809},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
-																run: (*parser).callonShortcutParagraph299,
+																pos: position{line: 2959, col: 10, offset: 93721},
+																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41592,25 +41782,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
-															run: (*parser).callonShortcutParagraph301,
+															pos: position{line: 2968, col: 12, offset: 93892},
+															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41622,42 +41812,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1801, col: 9, offset: 58222},
+												pos:   position{line: 1801, col: 9, offset: 58252},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1801, col: 15, offset: 58228},
+													pos: position{line: 1801, col: 15, offset: 58258},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81334},
-															run: (*parser).callonShortcutParagraph308,
+															pos: position{line: 2526, col: 22, offset: 81364},
+															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81334},
+																pos: position{line: 2526, col: 22, offset: 81364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81555},
+																		pos:        position{line: 2531, col: 31, offset: 81585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81560},
+																		pos: position{line: 2531, col: 36, offset: 81590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81561},
+																			pos:        position{line: 2531, col: 37, offset: 81591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81361},
+																		pos:   position{line: 2526, col: 49, offset: 81391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91378},
-																			run: (*parser).callonShortcutParagraph314,
+																			pos: position{line: 2878, col: 13, offset: 91408},
+																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91378},
+																				pos: position{line: 2878, col: 13, offset: 91408},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91378},
+																					pos:        position{line: 2878, col: 13, offset: 91408},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41667,28 +41857,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonShortcutParagraph318,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41697,9 +41887,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -41708,21 +41898,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58892},
-															run: (*parser).callonShortcutParagraph325,
+															pos: position{line: 1824, col: 5, offset: 58922},
+															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58892},
+																pos: position{line: 1824, col: 5, offset: 58922},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58892},
+																		pos:   position{line: 1824, col: 5, offset: 58922},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91445},
-																			run: (*parser).callonShortcutParagraph328,
+																			pos: position{line: 2882, col: 14, offset: 91475},
+																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91445},
+																				pos: position{line: 2882, col: 14, offset: 91475},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91445},
+																					pos:        position{line: 2882, col: 14, offset: 91475},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41732,32 +41922,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58916},
-																		run: (*parser).callonShortcutParagraph331,
+																		pos: position{line: 1825, col: 5, offset: 58946},
+																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonShortcutParagraph333,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41766,9 +41956,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -41790,18 +41980,18 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1808, col: 1, offset: 58432},
+			pos:  position{line: 1808, col: 1, offset: 58462},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58450},
+				pos: position{line: 1809, col: 5, offset: 58480},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58450},
+					pos: position{line: 1809, col: 5, offset: 58480},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58450},
+							pos:   position{line: 1809, col: 5, offset: 58480},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 11, offset: 58456},
+								pos: position{line: 1809, col: 11, offset: 58486},
 								expr: &actionExpr{
 									pos: position{line: 1764, col: 5, offset: 56908},
 									run: (*parser).callonParagraph5,
@@ -41821,65 +42011,160 @@ var g = &grammar{
 														&actionExpr{
 															pos: position{line: 1767, col: 12, offset: 56978},
 															run: (*parser).callonParagraph10,
-															expr: &litMatcher{
-																pos:        position{line: 1767, col: 12, offset: 56978},
-																val:        "TIP: ",
-																ignoreCase: false,
-																want:       "\"TIP: \"",
+															expr: &seqExpr{
+																pos: position{line: 1767, col: 12, offset: 56978},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1767, col: 12, offset: 56978},
+																		val:        "TIP:",
+																		ignoreCase: false,
+																		want:       "\"TIP:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonParagraph13,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57034},
-															run: (*parser).callonParagraph12,
-															expr: &litMatcher{
-																pos:        position{line: 1769, col: 13, offset: 57034},
-																val:        "NOTE: ",
-																ignoreCase: false,
-																want:       "\"NOTE: \"",
+															pos: position{line: 1769, col: 13, offset: 57040},
+															run: (*parser).callonParagraph16,
+															expr: &seqExpr{
+																pos: position{line: 1769, col: 13, offset: 57040},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1769, col: 13, offset: 57040},
+																		val:        "NOTE:",
+																		ignoreCase: false,
+																		want:       "\"NOTE:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonParagraph19,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57092},
-															run: (*parser).callonParagraph14,
-															expr: &litMatcher{
-																pos:        position{line: 1771, col: 13, offset: 57092},
-																val:        "IMPORTANT: ",
-																ignoreCase: false,
-																want:       "\"IMPORTANT: \"",
+															pos: position{line: 1771, col: 13, offset: 57104},
+															run: (*parser).callonParagraph22,
+															expr: &seqExpr{
+																pos: position{line: 1771, col: 13, offset: 57104},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1771, col: 13, offset: 57104},
+																		val:        "IMPORTANT:",
+																		ignoreCase: false,
+																		want:       "\"IMPORTANT:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonParagraph25,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57160},
-															run: (*parser).callonParagraph16,
-															expr: &litMatcher{
-																pos:        position{line: 1773, col: 13, offset: 57160},
-																val:        "WARNING: ",
-																ignoreCase: false,
-																want:       "\"WARNING: \"",
+															pos: position{line: 1773, col: 13, offset: 57178},
+															run: (*parser).callonParagraph28,
+															expr: &seqExpr{
+																pos: position{line: 1773, col: 13, offset: 57178},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1773, col: 13, offset: 57178},
+																		val:        "WARNING:",
+																		ignoreCase: false,
+																		want:       "\"WARNING:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonParagraph31,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57224},
-															run: (*parser).callonParagraph18,
-															expr: &litMatcher{
-																pos:        position{line: 1775, col: 13, offset: 57224},
-																val:        "CAUTION: ",
-																ignoreCase: false,
-																want:       "\"CAUTION: \"",
+															pos: position{line: 1775, col: 13, offset: 57248},
+															run: (*parser).callonParagraph34,
+															expr: &seqExpr{
+																pos: position{line: 1775, col: 13, offset: 57248},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 1775, col: 13, offset: 57248},
+																		val:        "CAUTION:",
+																		ignoreCase: false,
+																		want:       "\"CAUTION:\"",
+																	},
+																	&actionExpr{
+																		pos: position{line: 2963, col: 11, offset: 93782},
+																		run: (*parser).callonParagraph37,
+																		expr: &oneOrMoreExpr{
+																			pos: position{line: 2963, col: 11, offset: 93782},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57288},
-															run: (*parser).callonParagraph20,
+															pos: position{line: 1777, col: 13, offset: 57318},
+															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57288},
+																pos: position{line: 1777, col: 13, offset: 57318},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93752},
-																	run: (*parser).callonParagraph22,
+																	pos: position{line: 2963, col: 11, offset: 93782},
+																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93752},
+																		pos: position{line: 2963, col: 11, offset: 93782},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93752},
+																			pos:        position{line: 2963, col: 11, offset: 93782},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41893,17 +42178,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57368},
+												pos: position{line: 1779, col: 12, offset: 57398},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57370},
+													pos: position{line: 1779, col: 14, offset: 57400},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57370},
+															pos: position{line: 1779, col: 14, offset: 57400},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
-																run: (*parser).callonParagraph28,
+																pos: position{line: 2959, col: 10, offset: 93721},
+																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41912,28 +42197,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94089},
+															pos: position{line: 2981, col: 8, offset: 94119},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93862},
-																	run: (*parser).callonParagraph31,
+																	pos: position{line: 2968, col: 12, offset: 93892},
+																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93863},
+																		pos: position{line: 2968, col: 13, offset: 93893},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93863},
+																				pos:        position{line: 2968, col: 13, offset: 93893},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93870},
+																				pos:        position{line: 2968, col: 20, offset: 93900},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93879},
+																				pos:        position{line: 2968, col: 29, offset: 93909},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -41942,9 +42227,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -41958,24 +42243,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58479},
+							pos:   position{line: 1810, col: 5, offset: 58509},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58892},
-								run: (*parser).callonParagraph39,
+								pos: position{line: 1824, col: 5, offset: 58922},
+								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58892},
+									pos: position{line: 1824, col: 5, offset: 58922},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58892},
+											pos:   position{line: 1824, col: 5, offset: 58922},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91445},
-												run: (*parser).callonParagraph42,
+												pos: position{line: 2882, col: 14, offset: 91475},
+												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91445},
+													pos: position{line: 2882, col: 14, offset: 91475},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91445},
+														pos:        position{line: 2882, col: 14, offset: 91475},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41985,32 +42270,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58916},
-											run: (*parser).callonParagraph45,
+											pos: position{line: 1825, col: 5, offset: 58946},
+											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94089},
+											pos: position{line: 2981, col: 8, offset: 94119},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93862},
-													run: (*parser).callonParagraph47,
+													pos: position{line: 2968, col: 12, offset: 93892},
+													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93863},
+														pos: position{line: 2968, col: 13, offset: 93893},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93863},
+																pos:        position{line: 2968, col: 13, offset: 93893},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93870},
+																pos:        position{line: 2968, col: 20, offset: 93900},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93879},
+																pos:        position{line: 2968, col: 29, offset: 93909},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42019,9 +42304,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94039},
+													pos: position{line: 2978, col: 8, offset: 94069},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94040,
+														line: 2978, col: 9, offset: 94070,
 													},
 												},
 											},
@@ -42031,43 +42316,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58513},
+							pos:   position{line: 1811, col: 5, offset: 58543},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1811, col: 16, offset: 58524},
+								pos: position{line: 1811, col: 16, offset: 58554},
 								expr: &actionExpr{
-									pos: position{line: 1812, col: 9, offset: 58534},
-									run: (*parser).callonParagraph56,
+									pos: position{line: 1812, col: 9, offset: 58564},
+									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1812, col: 9, offset: 58534},
+										pos: position{line: 1812, col: 9, offset: 58564},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94025},
+												pos: position{line: 2976, col: 11, offset: 94055},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94027,
+													line: 2976, col: 13, offset: 94057,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58549},
+												pos: position{line: 1813, col: 9, offset: 58579},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
-													run: (*parser).callonParagraph61,
+													run: (*parser).callonParagraph81,
 													expr: &seqExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94025},
+																pos: position{line: 2976, col: 11, offset: 94055},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94027,
+																	line: 2976, col: 13, offset: 94057,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
-																	run: (*parser).callonParagraph66,
+																	pos: position{line: 2959, col: 10, offset: 93721},
+																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42076,28 +42361,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94089},
+																pos: position{line: 2981, col: 8, offset: 94119},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93862},
-																		run: (*parser).callonParagraph69,
+																		pos: position{line: 2968, col: 12, offset: 93892},
+																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93863},
+																			pos: position{line: 2968, col: 13, offset: 93893},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93863},
+																					pos:        position{line: 2968, col: 13, offset: 93893},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93870},
+																					pos:        position{line: 2968, col: 20, offset: 93900},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93879},
+																					pos:        position{line: 2968, col: 29, offset: 93909},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42106,9 +42391,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94039},
+																		pos: position{line: 2978, col: 8, offset: 94069},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94040,
+																			line: 2978, col: 9, offset: 94070,
 																		},
 																	},
 																},
@@ -42118,27 +42403,27 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58568},
+												pos: position{line: 1814, col: 9, offset: 58598},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1814, col: 10, offset: 58569},
+													pos:  position{line: 1814, col: 10, offset: 58599},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1815, col: 9, offset: 58593},
+												pos: position{line: 1815, col: 9, offset: 58623},
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 11, offset: 58595},
+													pos: position{line: 1815, col: 11, offset: 58625},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
-															run: (*parser).callonParagraph80,
+															run: (*parser).callonParagraph100,
 															expr: &seqExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
 																exprs: []interface{}{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89639},
+																			pos:        position{line: 2813, col: 13, offset: 89669},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42153,7 +42438,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 760, col: 5, offset: 24249},
-																					run: (*parser).callonParagraph86,
+																					run: (*parser).callonParagraph106,
 																					expr: &seqExpr{
 																						pos: position{line: 760, col: 5, offset: 24249},
 																						exprs: []interface{}{
@@ -42162,7 +42447,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 760, col: 16, offset: 24260},
-																									run: (*parser).callonParagraph89,
+																									run: (*parser).callonParagraph109,
 																									expr: &seqExpr{
 																										pos: position{line: 760, col: 16, offset: 24260},
 																										exprs: []interface{}{
@@ -42188,10 +42473,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph95,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42200,28 +42485,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph98,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42230,9 +42515,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42242,7 +42527,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 767, col: 5, offset: 24497},
-																					run: (*parser).callonParagraph105,
+																					run: (*parser).callonParagraph125,
 																					expr: &seqExpr{
 																						pos: position{line: 767, col: 5, offset: 24497},
 																						exprs: []interface{}{
@@ -42251,7 +42536,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 767, col: 16, offset: 24508},
-																									run: (*parser).callonParagraph108,
+																									run: (*parser).callonParagraph128,
 																									expr: &seqExpr{
 																										pos: position{line: 767, col: 16, offset: 24508},
 																										exprs: []interface{}{
@@ -42277,10 +42562,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph114,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42289,28 +42574,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph117,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42319,9 +42604,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42331,7 +42616,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 780, col: 26, offset: 24985},
-																					run: (*parser).callonParagraph124,
+																					run: (*parser).callonParagraph144,
 																					expr: &seqExpr{
 																						pos: position{line: 780, col: 26, offset: 24985},
 																						exprs: []interface{}{
@@ -42346,7 +42631,7 @@ var g = &grammar{
 																								label: "language",
 																								expr: &actionExpr{
 																									pos: position{line: 784, col: 13, offset: 25121},
-																									run: (*parser).callonParagraph128,
+																									run: (*parser).callonParagraph148,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 784, col: 14, offset: 25122},
 																										expr: &charClassMatcher{
@@ -42362,10 +42647,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph132,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42374,28 +42659,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph135,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42404,9 +42689,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42416,7 +42701,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 774, col: 5, offset: 24744},
-																					run: (*parser).callonParagraph142,
+																					run: (*parser).callonParagraph162,
 																					expr: &seqExpr{
 																						pos: position{line: 774, col: 5, offset: 24744},
 																						exprs: []interface{}{
@@ -42425,7 +42710,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 774, col: 16, offset: 24755},
-																									run: (*parser).callonParagraph145,
+																									run: (*parser).callonParagraph165,
 																									expr: &seqExpr{
 																										pos: position{line: 774, col: 16, offset: 24755},
 																										exprs: []interface{}{
@@ -42451,10 +42736,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph151,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42463,28 +42748,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph154,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42493,9 +42778,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42505,7 +42790,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 789, col: 5, offset: 25281},
-																					run: (*parser).callonParagraph161,
+																					run: (*parser).callonParagraph181,
 																					expr: &seqExpr{
 																						pos: position{line: 789, col: 5, offset: 25281},
 																						exprs: []interface{}{
@@ -42514,7 +42799,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 789, col: 16, offset: 25292},
-																									run: (*parser).callonParagraph164,
+																									run: (*parser).callonParagraph184,
 																									expr: &seqExpr{
 																										pos: position{line: 789, col: 16, offset: 25292},
 																										exprs: []interface{}{
@@ -42540,10 +42825,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph170,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42552,28 +42837,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph173,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42582,9 +42867,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42594,7 +42879,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 803, col: 5, offset: 25757},
-																					run: (*parser).callonParagraph180,
+																					run: (*parser).callonParagraph200,
 																					expr: &seqExpr{
 																						pos: position{line: 803, col: 5, offset: 25757},
 																						exprs: []interface{}{
@@ -42603,7 +42888,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 803, col: 16, offset: 25768},
-																									run: (*parser).callonParagraph183,
+																									run: (*parser).callonParagraph203,
 																									expr: &seqExpr{
 																										pos: position{line: 803, col: 16, offset: 25768},
 																										exprs: []interface{}{
@@ -42629,10 +42914,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph189,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42641,28 +42926,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph192,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42671,9 +42956,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42683,7 +42968,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 810, col: 5, offset: 26009},
-																					run: (*parser).callonParagraph199,
+																					run: (*parser).callonParagraph219,
 																					expr: &seqExpr{
 																						pos: position{line: 810, col: 5, offset: 26009},
 																						exprs: []interface{}{
@@ -42692,7 +42977,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 810, col: 16, offset: 26020},
-																									run: (*parser).callonParagraph202,
+																									run: (*parser).callonParagraph222,
 																									expr: &seqExpr{
 																										pos: position{line: 810, col: 16, offset: 26020},
 																										exprs: []interface{}{
@@ -42718,10 +43003,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph208,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42730,28 +43015,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph211,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42760,9 +43045,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42772,7 +43057,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 817, col: 5, offset: 26259},
-																					run: (*parser).callonParagraph218,
+																					run: (*parser).callonParagraph238,
 																					expr: &seqExpr{
 																						pos: position{line: 817, col: 5, offset: 26259},
 																						exprs: []interface{}{
@@ -42781,7 +43066,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 817, col: 16, offset: 26270},
-																									run: (*parser).callonParagraph221,
+																									run: (*parser).callonParagraph241,
 																									expr: &seqExpr{
 																										pos: position{line: 817, col: 16, offset: 26270},
 																										exprs: []interface{}{
@@ -42807,10 +43092,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph227,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42819,28 +43104,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph230,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42849,9 +43134,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42861,7 +43146,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 824, col: 5, offset: 26505},
-																					run: (*parser).callonParagraph237,
+																					run: (*parser).callonParagraph257,
 																					expr: &seqExpr{
 																						pos: position{line: 824, col: 5, offset: 26505},
 																						exprs: []interface{}{
@@ -42870,7 +43155,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 824, col: 16, offset: 26516},
-																									run: (*parser).callonParagraph240,
+																									run: (*parser).callonParagraph260,
 																									expr: &seqExpr{
 																										pos: position{line: 824, col: 16, offset: 26516},
 																										exprs: []interface{}{
@@ -42896,10 +43181,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93691},
-																									run: (*parser).callonParagraph246,
+																									pos: position{line: 2959, col: 10, offset: 93721},
+																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93691},
+																										pos:        position{line: 2959, col: 10, offset: 93721},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42908,28 +43193,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94089},
+																								pos: position{line: 2981, col: 8, offset: 94119},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93862},
-																										run: (*parser).callonParagraph249,
+																										pos: position{line: 2968, col: 12, offset: 93892},
+																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93863},
+																											pos: position{line: 2968, col: 13, offset: 93893},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93863},
+																													pos:        position{line: 2968, col: 13, offset: 93893},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93870},
+																													pos:        position{line: 2968, col: 20, offset: 93900},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93879},
+																													pos:        position{line: 2968, col: 29, offset: 93909},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42938,9 +43223,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94039},
+																										pos: position{line: 2978, col: 8, offset: 94069},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94040,
+																											line: 2978, col: 9, offset: 94070,
 																										},
 																									},
 																								},
@@ -42956,7 +43241,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 796, col: 5, offset: 25526},
-															run: (*parser).callonParagraph256,
+															run: (*parser).callonParagraph276,
 															expr: &seqExpr{
 																pos: position{line: 796, col: 5, offset: 25526},
 																exprs: []interface{}{
@@ -42965,7 +43250,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 796, col: 16, offset: 25537},
-																			run: (*parser).callonParagraph259,
+																			run: (*parser).callonParagraph279,
 																			expr: &litMatcher{
 																				pos:        position{line: 796, col: 16, offset: 25537},
 																				val:        "--",
@@ -42977,10 +43262,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
-																			run: (*parser).callonParagraph262,
+																			pos: position{line: 2959, col: 10, offset: 93721},
+																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42989,28 +43274,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonParagraph265,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43019,9 +43304,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -43030,21 +43315,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85091},
+															pos: position{line: 2661, col: 19, offset: 85121},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85091},
+																	pos:        position{line: 2661, col: 19, offset: 85121},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85098},
+																	pos: position{line: 2661, col: 26, offset: 85128},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
-																		run: (*parser).callonParagraph275,
+																		pos: position{line: 2959, col: 10, offset: 93721},
+																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43053,28 +43338,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
-																			run: (*parser).callonParagraph278,
+																			pos: position{line: 2968, col: 12, offset: 93892},
+																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43083,9 +43368,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -43096,42 +43381,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1816, col: 9, offset: 58657},
+												pos:   position{line: 1816, col: 9, offset: 58687},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1816, col: 15, offset: 58663},
+													pos: position{line: 1816, col: 15, offset: 58693},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81334},
-															run: (*parser).callonParagraph287,
+															pos: position{line: 2526, col: 22, offset: 81364},
+															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81334},
+																pos: position{line: 2526, col: 22, offset: 81364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81555},
+																		pos:        position{line: 2531, col: 31, offset: 81585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81560},
+																		pos: position{line: 2531, col: 36, offset: 81590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81561},
+																			pos:        position{line: 2531, col: 37, offset: 81591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81361},
+																		pos:   position{line: 2526, col: 49, offset: 81391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91378},
-																			run: (*parser).callonParagraph293,
+																			pos: position{line: 2878, col: 13, offset: 91408},
+																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91378},
+																				pos: position{line: 2878, col: 13, offset: 91408},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91378},
+																					pos:        position{line: 2878, col: 13, offset: 91408},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43141,28 +43426,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonParagraph297,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43171,9 +43456,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -43182,21 +43467,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58892},
-															run: (*parser).callonParagraph304,
+															pos: position{line: 1824, col: 5, offset: 58922},
+															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58892},
+																pos: position{line: 1824, col: 5, offset: 58922},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58892},
+																		pos:   position{line: 1824, col: 5, offset: 58922},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91445},
-																			run: (*parser).callonParagraph307,
+																			pos: position{line: 2882, col: 14, offset: 91475},
+																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91445},
+																				pos: position{line: 2882, col: 14, offset: 91475},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91445},
+																					pos:        position{line: 2882, col: 14, offset: 91475},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43206,32 +43491,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58916},
-																		run: (*parser).callonParagraph310,
+																		pos: position{line: 1825, col: 5, offset: 58946},
+																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94089},
+																		pos: position{line: 2981, col: 8, offset: 94119},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
-																				run: (*parser).callonParagraph312,
+																				pos: position{line: 2968, col: 12, offset: 93892},
+																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43240,9 +43525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94039},
+																				pos: position{line: 2978, col: 8, offset: 94069},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94040,
+																					line: 2978, col: 9, offset: 94070,
 																				},
 																			},
 																		},
@@ -43264,16 +43549,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59399},
+			pos:  position{line: 1835, col: 1, offset: 59429},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 15, offset: 59413},
+				pos: position{line: 1835, col: 15, offset: 59443},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 15, offset: 59413},
+						pos:  position{line: 1835, col: 15, offset: 59443},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 35, offset: 59433},
+						pos:  position{line: 1835, col: 35, offset: 59463},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43281,65 +43566,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59454},
+			pos:  position{line: 1837, col: 1, offset: 59484},
 			expr: &actionExpr{
-				pos: position{line: 1838, col: 5, offset: 59479},
+				pos: position{line: 1838, col: 5, offset: 59509},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1838, col: 5, offset: 59479},
+					pos: position{line: 1838, col: 5, offset: 59509},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1838, col: 5, offset: 59479},
+							pos:   position{line: 1838, col: 5, offset: 59509},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1838, col: 16, offset: 59490},
+								pos: position{line: 1838, col: 16, offset: 59520},
 								expr: &actionExpr{
-									pos: position{line: 1838, col: 17, offset: 59491},
+									pos: position{line: 1838, col: 17, offset: 59521},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1838, col: 17, offset: 59491},
+										pos:  position{line: 1838, col: 17, offset: 59521},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1841, col: 5, offset: 59559},
+							pos: position{line: 1841, col: 5, offset: 59589},
 							expr: &litMatcher{
-								pos:        position{line: 1841, col: 7, offset: 59561},
+								pos:        position{line: 1841, col: 7, offset: 59591},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59570},
+							pos:   position{line: 1842, col: 5, offset: 59600},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1843, col: 9, offset: 59588},
+								pos: position{line: 1843, col: 9, offset: 59618},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1843, col: 9, offset: 59588},
+										pos:  position{line: 1843, col: 9, offset: 59618},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1844, col: 11, offset: 59615},
+										pos:  position{line: 1844, col: 11, offset: 59645},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1845, col: 11, offset: 59643},
+										pos:  position{line: 1845, col: 11, offset: 59673},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1846, col: 11, offset: 59674},
+										pos:  position{line: 1846, col: 11, offset: 59704},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 11, offset: 59702},
+										pos:  position{line: 1847, col: 11, offset: 59732},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59733},
+										pos:  position{line: 1848, col: 11, offset: 59763},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43351,36 +43636,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1853, col: 1, offset: 59853},
+			pos:  position{line: 1853, col: 1, offset: 59883},
 			expr: &actionExpr{
-				pos: position{line: 1854, col: 5, offset: 59895},
+				pos: position{line: 1854, col: 5, offset: 59925},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1854, col: 5, offset: 59895},
+					pos: position{line: 1854, col: 5, offset: 59925},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1854, col: 5, offset: 59895},
+							pos:   position{line: 1854, col: 5, offset: 59925},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1854, col: 16, offset: 59906},
+								pos: position{line: 1854, col: 16, offset: 59936},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1854, col: 17, offset: 59907},
+									pos:  position{line: 1854, col: 17, offset: 59937},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1855, col: 5, offset: 59932},
+							pos:   position{line: 1855, col: 5, offset: 59962},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1855, col: 14, offset: 59941},
+								pos: position{line: 1855, col: 14, offset: 59971},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 14, offset: 59941},
+										pos:  position{line: 1855, col: 14, offset: 59971},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 33, offset: 59960},
+										pos:  position{line: 1855, col: 33, offset: 59990},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43392,32 +43677,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60191},
+			pos:  position{line: 1863, col: 1, offset: 60221},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60216},
+				pos: position{line: 1864, col: 5, offset: 60246},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60216},
+						pos:  position{line: 1864, col: 5, offset: 60246},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60243},
+						pos:  position{line: 1865, col: 7, offset: 60273},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60271},
+						pos:  position{line: 1866, col: 7, offset: 60301},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60303},
+						pos:  position{line: 1867, col: 7, offset: 60333},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60331},
+						pos:  position{line: 1868, col: 7, offset: 60361},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60352},
+						pos:  position{line: 1869, col: 7, offset: 60382},
 						name: "SuperscriptText",
 					},
 				},
@@ -43425,24 +43710,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1871, col: 1, offset: 60370},
+			pos:  position{line: 1871, col: 1, offset: 60400},
 			expr: &choiceExpr{
-				pos: position{line: 1872, col: 5, offset: 60395},
+				pos: position{line: 1872, col: 5, offset: 60425},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 5, offset: 60395},
+						pos:  position{line: 1872, col: 5, offset: 60425},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60421},
+						pos:  position{line: 1873, col: 7, offset: 60451},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60449},
+						pos:  position{line: 1874, col: 7, offset: 60479},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1875, col: 7, offset: 60480},
+						pos:  position{line: 1875, col: 7, offset: 60510},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43450,35 +43735,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1889, col: 1, offset: 60834},
+			pos:  position{line: 1889, col: 1, offset: 60864},
 			expr: &choiceExpr{
-				pos: position{line: 1890, col: 5, offset: 60860},
+				pos: position{line: 1890, col: 5, offset: 60890},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2822, col: 5, offset: 89786},
+						pos: position{line: 2822, col: 5, offset: 89816},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2822, col: 5, offset: 89786},
+							pos: position{line: 2822, col: 5, offset: 89816},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2822, col: 5, offset: 89786},
+									pos: position{line: 2822, col: 5, offset: 89816},
 									expr: &seqExpr{
-										pos: position{line: 2823, col: 9, offset: 89797},
+										pos: position{line: 2823, col: 9, offset: 89827},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2823, col: 9, offset: 89797},
+												pos: position{line: 2823, col: 9, offset: 89827},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2826, col: 9, offset: 89860},
+												pos:   position{line: 2826, col: 9, offset: 89890},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2798, col: 18, offset: 89172},
+													pos: position{line: 2798, col: 18, offset: 89202},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2798, col: 19, offset: 89173},
+														pos: position{line: 2798, col: 19, offset: 89203},
 														expr: &charClassMatcher{
-															pos:        position{line: 2798, col: 19, offset: 89173},
+															pos:        position{line: 2798, col: 19, offset: 89203},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43489,28 +43774,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2826, col: 30, offset: 89881},
+												pos:        position{line: 2826, col: 30, offset: 89911},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2827, col: 9, offset: 89968},
+												pos: position{line: 2827, col: 9, offset: 89998},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2831, col: 5, offset: 90080},
+									pos:   position{line: 2831, col: 5, offset: 90110},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 11, offset: 90086},
+										pos: position{line: 2831, col: 11, offset: 90116},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2831, col: 11, offset: 90086},
+											pos: position{line: 2831, col: 11, offset: 90116},
 											expr: &charClassMatcher{
-												pos:        position{line: 2831, col: 11, offset: 90086},
+												pos:        position{line: 2831, col: 11, offset: 90116},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43520,32 +43805,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2834, col: 5, offset: 90144},
+									pos: position{line: 2834, col: 5, offset: 90174},
 									expr: &seqExpr{
-										pos: position{line: 2835, col: 9, offset: 90155},
+										pos: position{line: 2835, col: 9, offset: 90185},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2835, col: 9, offset: 90155},
+												pos:        position{line: 2835, col: 9, offset: 90185},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2836, col: 9, offset: 90204},
+												pos: position{line: 2836, col: 9, offset: 90234},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2840, col: 5, offset: 90284},
+									pos: position{line: 2840, col: 5, offset: 90314},
 									expr: &seqExpr{
-										pos: position{line: 2841, col: 9, offset: 90295},
+										pos: position{line: 2841, col: 9, offset: 90325},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2841, col: 9, offset: 90295},
+												pos: position{line: 2841, col: 9, offset: 90325},
 												expr: &charClassMatcher{
-													pos:        position{line: 2841, col: 9, offset: 90295},
+													pos:        position{line: 2841, col: 9, offset: 90325},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43554,13 +43839,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2841, col: 23, offset: 90309},
+												pos:        position{line: 2841, col: 23, offset: 90339},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2841, col: 27, offset: 90313},
+												pos:        position{line: 2841, col: 27, offset: 90343},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43573,12 +43858,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2963, col: 11, offset: 93752},
+						pos: position{line: 2963, col: 11, offset: 93782},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2963, col: 11, offset: 93752},
+							pos: position{line: 2963, col: 11, offset: 93782},
 							expr: &charClassMatcher{
-								pos:        position{line: 2963, col: 11, offset: 93752},
+								pos:        position{line: 2963, col: 11, offset: 93782},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43587,29 +43872,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 60923},
+						pos:  position{line: 1892, col: 7, offset: 60953},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 5, offset: 82051},
+						pos: position{line: 2544, col: 5, offset: 82081},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 5, offset: 82051},
+							pos: position{line: 2544, col: 5, offset: 82081},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2544, col: 5, offset: 82051},
+									pos: position{line: 2544, col: 5, offset: 82081},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 82122},
+									pos:        position{line: 2547, col: 5, offset: 82152},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2547, col: 10, offset: 82127},
+									pos: position{line: 2547, col: 10, offset: 82157},
 									expr: &charClassMatcher{
-										pos:        position{line: 2547, col: 11, offset: 82128},
+										pos:        position{line: 2547, col: 11, offset: 82158},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43620,29 +43905,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 5, offset: 82314},
+						pos: position{line: 2553, col: 5, offset: 82344},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2553, col: 5, offset: 82314},
+							pos: position{line: 2553, col: 5, offset: 82344},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2553, col: 5, offset: 82314},
+									pos: position{line: 2553, col: 5, offset: 82344},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2556, col: 5, offset: 82385},
+									pos: position{line: 2556, col: 5, offset: 82415},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2560, col: 5, offset: 82510},
+									pos:        position{line: 2560, col: 5, offset: 82540},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2560, col: 9, offset: 82514},
+									pos: position{line: 2560, col: 9, offset: 82544},
 									expr: &charClassMatcher{
-										pos:        position{line: 2560, col: 10, offset: 82515},
+										pos:        position{line: 2560, col: 10, offset: 82545},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43653,27 +43938,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2849, col: 5, offset: 90506},
+						pos: position{line: 2849, col: 5, offset: 90536},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2850, col: 9, offset: 90516},
+							pos: position{line: 2850, col: 9, offset: 90546},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2850, col: 10, offset: 90517},
+									pos:        position{line: 2850, col: 10, offset: 90547},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2852, col: 13, offset: 90614},
+									pos: position{line: 2852, col: 13, offset: 90644},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2852, col: 13, offset: 90614},
+											pos: position{line: 2852, col: 13, offset: 90644},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2855, col: 13, offset: 90714},
+											pos:        position{line: 2855, col: 13, offset: 90744},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43681,20 +43966,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2855, col: 19, offset: 90720},
+									pos:        position{line: 2855, col: 19, offset: 90750},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2858, col: 13, offset: 90758},
+									pos: position{line: 2858, col: 13, offset: 90788},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2858, col: 13, offset: 90758},
+											pos: position{line: 2858, col: 13, offset: 90788},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2861, col: 14, offset: 90851},
+											pos:        position{line: 2861, col: 14, offset: 90881},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43703,18 +43988,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2863, col: 12, offset: 90895},
+									pos: position{line: 2863, col: 12, offset: 90925},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2863, col: 12, offset: 90895},
+											pos:        position{line: 2863, col: 12, offset: 90925},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2863, col: 16, offset: 90899},
+											pos: position{line: 2863, col: 16, offset: 90929},
 											expr: &litMatcher{
-												pos:        position{line: 2863, col: 17, offset: 90900},
+												pos:        position{line: 2863, col: 17, offset: 90930},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44072,31 +44357,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2972, col: 18, offset: 93962},
+						pos: position{line: 2972, col: 18, offset: 93992},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2972, col: 18, offset: 93962},
+							pos: position{line: 2972, col: 18, offset: 93992},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44105,27 +44390,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2972, col: 26, offset: 93970},
+									pos: position{line: 2972, col: 26, offset: 94000},
 									expr: &actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93862},
+										pos: position{line: 2968, col: 12, offset: 93892},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93863},
+											pos: position{line: 2968, col: 13, offset: 93893},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93863},
+													pos:        position{line: 2968, col: 13, offset: 93893},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93870},
+													pos:        position{line: 2968, col: 20, offset: 93900},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93879},
+													pos:        position{line: 2968, col: 29, offset: 93909},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44138,31 +44423,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1897, col: 7, offset: 61090},
+						pos:  position{line: 1897, col: 7, offset: 61120},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1898, col: 7, offset: 61137},
+						pos:  position{line: 1898, col: 7, offset: 61167},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2513, col: 5, offset: 80880},
+						pos: position{line: 2513, col: 5, offset: 80910},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 5, offset: 80880},
+							pos: position{line: 2513, col: 5, offset: 80910},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80880},
+									pos: position{line: 2513, col: 5, offset: 80910},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2516, col: 5, offset: 80956},
+									pos:   position{line: 2516, col: 5, offset: 80986},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2517, col: 9, offset: 80974},
+										pos: position{line: 2517, col: 9, offset: 81004},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2517, col: 10, offset: 80975},
+											pos:        position{line: 2517, col: 10, offset: 81005},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44213,10 +44498,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2871, col: 12, offset: 91160},
+						pos: position{line: 2871, col: 12, offset: 91190},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2871, col: 12, offset: 91160},
+							pos:        position{line: 2871, col: 12, offset: 91190},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44228,33 +44513,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1919, col: 1, offset: 61705},
+			pos:  position{line: 1919, col: 1, offset: 61735},
 			expr: &actionExpr{
-				pos: position{line: 1920, col: 5, offset: 61733},
+				pos: position{line: 1920, col: 5, offset: 61763},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1920, col: 5, offset: 61733},
+					pos: position{line: 1920, col: 5, offset: 61763},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1912, col: 38, offset: 61560},
+							pos: position{line: 1912, col: 38, offset: 61590},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1912, col: 38, offset: 61560},
+								pos:        position{line: 1912, col: 38, offset: 61590},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1921, col: 5, offset: 61772},
+							pos:   position{line: 1921, col: 5, offset: 61802},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1921, col: 15, offset: 61782},
+								pos:  position{line: 1921, col: 15, offset: 61812},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 36, offset: 61699},
+							pos:        position{line: 1917, col: 36, offset: 61729},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44265,44 +44550,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1926, col: 1, offset: 61942},
+			pos:  position{line: 1926, col: 1, offset: 61972},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1926, col: 32, offset: 61973},
+				pos: position{line: 1926, col: 32, offset: 62003},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1926, col: 32, offset: 61973},
+					pos:  position{line: 1926, col: 32, offset: 62003},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1928, col: 1, offset: 62004},
+			pos:  position{line: 1928, col: 1, offset: 62034},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 62039},
+				pos: position{line: 1929, col: 5, offset: 62069},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 62039},
+					pos: position{line: 1929, col: 5, offset: 62069},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1930, col: 5, offset: 62050},
+							pos: position{line: 1930, col: 5, offset: 62080},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 36, offset: 61699},
+								pos:        position{line: 1917, col: 36, offset: 61729},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 62087},
+							pos:   position{line: 1931, col: 5, offset: 62117},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1931, col: 14, offset: 62096},
+								pos:  position{line: 1931, col: 14, offset: 62126},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44312,29 +44597,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1956, col: 1, offset: 62776},
+			pos:  position{line: 1956, col: 1, offset: 62806},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62804},
+				pos: position{line: 1957, col: 5, offset: 62834},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62804},
+					pos: position{line: 1957, col: 5, offset: 62834},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1940, col: 5, offset: 62330},
+							pos:        position{line: 1940, col: 5, offset: 62360},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62339},
+							pos: position{line: 1941, col: 5, offset: 62369},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1945, col: 5, offset: 62457},
+							pos: position{line: 1945, col: 5, offset: 62487},
 							expr: &notExpr{
-								pos: position{line: 1945, col: 7, offset: 62459},
+								pos: position{line: 1945, col: 7, offset: 62489},
 								expr: &litMatcher{
-									pos:        position{line: 1945, col: 8, offset: 62460},
+									pos:        position{line: 1945, col: 8, offset: 62490},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44342,38 +44627,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1958, col: 5, offset: 62842},
+							pos:   position{line: 1958, col: 5, offset: 62872},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1958, col: 15, offset: 62852},
+								pos:  position{line: 1958, col: 15, offset: 62882},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1948, col: 5, offset: 62580},
+							pos:        position{line: 1948, col: 5, offset: 62610},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1949, col: 5, offset: 62589},
+							pos: position{line: 1949, col: 5, offset: 62619},
 							expr: &litMatcher{
-								pos:        position{line: 1949, col: 6, offset: 62590},
+								pos:        position{line: 1949, col: 6, offset: 62620},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62653},
+							pos: position{line: 1950, col: 5, offset: 62683},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1954, col: 5, offset: 62762},
+							pos: position{line: 1954, col: 5, offset: 62792},
 							expr: &notExpr{
-								pos: position{line: 1954, col: 7, offset: 62764},
+								pos: position{line: 1954, col: 7, offset: 62794},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89639},
+									pos:        position{line: 2813, col: 13, offset: 89669},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44387,17 +44672,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1963, col: 1, offset: 63012},
+			pos:  position{line: 1963, col: 1, offset: 63042},
 			expr: &actionExpr{
-				pos: position{line: 1964, col: 5, offset: 63049},
+				pos: position{line: 1964, col: 5, offset: 63079},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1964, col: 5, offset: 63049},
+					pos: position{line: 1964, col: 5, offset: 63079},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1964, col: 5, offset: 63049},
+							pos: position{line: 1964, col: 5, offset: 63079},
 							expr: &charClassMatcher{
-								pos:        position{line: 1964, col: 6, offset: 63050},
+								pos:        position{line: 1964, col: 6, offset: 63080},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44405,18 +44690,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1965, col: 5, offset: 63092},
+							pos:   position{line: 1965, col: 5, offset: 63122},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1965, col: 14, offset: 63101},
+								pos: position{line: 1965, col: 14, offset: 63131},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1965, col: 15, offset: 63102},
+									pos:  position{line: 1965, col: 15, offset: 63132},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1966, col: 5, offset: 63136},
+							pos: position{line: 1966, col: 5, offset: 63166},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44425,49 +44710,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1972, col: 1, offset: 63277},
+			pos:  position{line: 1972, col: 1, offset: 63307},
 			expr: &actionExpr{
-				pos: position{line: 1973, col: 5, offset: 63312},
+				pos: position{line: 1973, col: 5, offset: 63342},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1973, col: 5, offset: 63312},
+					pos: position{line: 1973, col: 5, offset: 63342},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1974, col: 5, offset: 63340},
+							pos: position{line: 1974, col: 5, offset: 63370},
 							expr: &seqExpr{
-								pos: position{line: 1948, col: 5, offset: 62580},
+								pos: position{line: 1948, col: 5, offset: 62610},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1948, col: 5, offset: 62580},
+										pos:        position{line: 1948, col: 5, offset: 62610},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1949, col: 5, offset: 62589},
+										pos: position{line: 1949, col: 5, offset: 62619},
 										expr: &litMatcher{
-											pos:        position{line: 1949, col: 6, offset: 62590},
+											pos:        position{line: 1949, col: 6, offset: 62620},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1950, col: 5, offset: 62653},
+										pos: position{line: 1950, col: 5, offset: 62683},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1954, col: 5, offset: 62762},
+										pos: position{line: 1954, col: 5, offset: 62792},
 										expr: &notExpr{
-											pos: position{line: 1954, col: 7, offset: 62764},
+											pos: position{line: 1954, col: 7, offset: 62794},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89639},
+												pos:        position{line: 2813, col: 13, offset: 89669},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44479,10 +44764,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63377},
+							pos:   position{line: 1975, col: 5, offset: 63407},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 14, offset: 63386},
+								pos:  position{line: 1975, col: 14, offset: 63416},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44492,35 +44777,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1980, col: 1, offset: 63474},
+			pos:  position{line: 1980, col: 1, offset: 63504},
 			expr: &choiceExpr{
-				pos: position{line: 1982, col: 5, offset: 63535},
+				pos: position{line: 1982, col: 5, offset: 63565},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1982, col: 5, offset: 63535},
+						pos: position{line: 1982, col: 5, offset: 63565},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 5, offset: 63535},
+							pos: position{line: 1982, col: 5, offset: 63565},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 5, offset: 63535},
+									pos:   position{line: 1982, col: 5, offset: 63565},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60780},
+										pos: position{line: 1885, col: 25, offset: 60810},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60780},
+											pos: position{line: 1885, col: 25, offset: 60810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60780},
+													pos:        position{line: 1885, col: 25, offset: 60810},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60785},
+													pos: position{line: 1885, col: 30, offset: 60815},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60785},
+														pos:        position{line: 1885, col: 30, offset: 60815},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44531,25 +44816,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1912, col: 38, offset: 61560},
+									pos: position{line: 1912, col: 38, offset: 61590},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1912, col: 38, offset: 61560},
+										pos:        position{line: 1912, col: 38, offset: 61590},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 74, offset: 63604},
+									pos:   position{line: 1982, col: 74, offset: 63634},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 84, offset: 63614},
+										pos:  position{line: 1982, col: 84, offset: 63644},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 113, offset: 63643},
+									pos:        position{line: 1982, col: 113, offset: 63673},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44558,21 +44843,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1986, col: 7, offset: 63803},
+						pos: position{line: 1986, col: 7, offset: 63833},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 7, offset: 63803},
+							pos: position{line: 1986, col: 7, offset: 63833},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 7, offset: 63803},
+									pos:   position{line: 1986, col: 7, offset: 63833},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44581,21 +44866,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 42, offset: 63838},
+									pos:        position{line: 1986, col: 42, offset: 63868},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 47, offset: 63843},
+									pos:   position{line: 1986, col: 47, offset: 63873},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 57, offset: 63853},
+										pos:  position{line: 1986, col: 57, offset: 63883},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 86, offset: 63882},
+									pos:        position{line: 1986, col: 86, offset: 63912},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44604,21 +44889,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1991, col: 7, offset: 64080},
+						pos: position{line: 1991, col: 7, offset: 64110},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1991, col: 7, offset: 64080},
+							pos: position{line: 1991, col: 7, offset: 64110},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1991, col: 7, offset: 64080},
+									pos:   position{line: 1991, col: 7, offset: 64110},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44627,21 +44912,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 42, offset: 64115},
+									pos:        position{line: 1991, col: 42, offset: 64145},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1991, col: 46, offset: 64119},
+									pos:   position{line: 1991, col: 46, offset: 64149},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1991, col: 56, offset: 64129},
+										pos:  position{line: 1991, col: 56, offset: 64159},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 85, offset: 64158},
+									pos:        position{line: 1991, col: 85, offset: 64188},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44654,33 +44939,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64732},
+			pos:  position{line: 2011, col: 1, offset: 64762},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64762},
+				pos: position{line: 2012, col: 5, offset: 64792},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64762},
+					pos: position{line: 2012, col: 5, offset: 64792},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2004, col: 40, offset: 64585},
+							pos: position{line: 2004, col: 40, offset: 64615},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 40, offset: 64585},
+								pos:        position{line: 2004, col: 40, offset: 64615},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64803},
+							pos:   position{line: 2013, col: 5, offset: 64833},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64813},
+								pos:  position{line: 2013, col: 15, offset: 64843},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 38, offset: 64726},
+							pos:        position{line: 2009, col: 38, offset: 64756},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44691,44 +44976,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 64978},
+			pos:  position{line: 2018, col: 1, offset: 65008},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2018, col: 34, offset: 65011},
+				pos: position{line: 2018, col: 34, offset: 65041},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2018, col: 34, offset: 65011},
+					pos:  position{line: 2018, col: 34, offset: 65041},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65043},
+			pos:  position{line: 2020, col: 1, offset: 65073},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65080},
+				pos: position{line: 2021, col: 5, offset: 65110},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65080},
+					pos: position{line: 2021, col: 5, offset: 65110},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65091},
+							pos: position{line: 2022, col: 5, offset: 65121},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 38, offset: 64726},
+								pos:        position{line: 2009, col: 38, offset: 64756},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65130},
+							pos:   position{line: 2023, col: 5, offset: 65160},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65139},
+								pos:  position{line: 2023, col: 14, offset: 65169},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44738,29 +45023,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65823},
+			pos:  position{line: 2049, col: 1, offset: 65853},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65853},
+				pos: position{line: 2050, col: 5, offset: 65883},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65853},
+					pos: position{line: 2050, col: 5, offset: 65883},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65381},
+							pos:        position{line: 2032, col: 5, offset: 65411},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65390},
+							pos: position{line: 2033, col: 5, offset: 65420},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65510},
+							pos: position{line: 2037, col: 5, offset: 65540},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65512},
+								pos: position{line: 2037, col: 7, offset: 65542},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65513},
+									pos:        position{line: 2037, col: 8, offset: 65543},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -44768,38 +45053,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 65893},
+							pos:   position{line: 2051, col: 5, offset: 65923},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 65903},
+								pos:  position{line: 2051, col: 15, offset: 65933},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65623},
+							pos:        position{line: 2041, col: 5, offset: 65653},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65632},
+							pos: position{line: 2042, col: 5, offset: 65662},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65633},
+								pos:        position{line: 2042, col: 6, offset: 65663},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65698},
+							pos: position{line: 2043, col: 5, offset: 65728},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 65809},
+							pos: position{line: 2047, col: 5, offset: 65839},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 65811},
+								pos: position{line: 2047, col: 7, offset: 65841},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89639},
+									pos:        position{line: 2813, col: 13, offset: 89669},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44813,17 +45098,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66070},
+			pos:  position{line: 2056, col: 1, offset: 66100},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66108},
+				pos: position{line: 2057, col: 5, offset: 66138},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66108},
+					pos: position{line: 2057, col: 5, offset: 66138},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66108},
+							pos: position{line: 2057, col: 5, offset: 66138},
 							expr: &charClassMatcher{
-								pos:        position{line: 2057, col: 6, offset: 66109},
+								pos:        position{line: 2057, col: 6, offset: 66139},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44831,18 +45116,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66151},
+							pos:   position{line: 2058, col: 5, offset: 66181},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66160},
+								pos: position{line: 2058, col: 14, offset: 66190},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66161},
+									pos:  position{line: 2058, col: 15, offset: 66191},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66196},
+							pos: position{line: 2059, col: 5, offset: 66226},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -44851,49 +45136,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66337},
+			pos:  position{line: 2065, col: 1, offset: 66367},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66374},
+				pos: position{line: 2066, col: 5, offset: 66404},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66374},
+					pos: position{line: 2066, col: 5, offset: 66404},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66385},
+							pos: position{line: 2067, col: 5, offset: 66415},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65623},
+								pos: position{line: 2041, col: 5, offset: 65653},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65623},
+										pos:        position{line: 2041, col: 5, offset: 65653},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65632},
+										pos: position{line: 2042, col: 5, offset: 65662},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65633},
+											pos:        position{line: 2042, col: 6, offset: 65663},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65698},
+										pos: position{line: 2043, col: 5, offset: 65728},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 65809},
+										pos: position{line: 2047, col: 5, offset: 65839},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 65811},
+											pos: position{line: 2047, col: 7, offset: 65841},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89639},
+												pos:        position{line: 2813, col: 13, offset: 89669},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44905,10 +45190,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66424},
+							pos:   position{line: 2068, col: 5, offset: 66454},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66433},
+								pos:  position{line: 2068, col: 14, offset: 66463},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44918,35 +45203,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66521},
+			pos:  position{line: 2073, col: 1, offset: 66551},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66586},
+				pos: position{line: 2075, col: 5, offset: 66616},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66586},
+						pos: position{line: 2075, col: 5, offset: 66616},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66586},
+							pos: position{line: 2075, col: 5, offset: 66616},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66586},
+									pos:   position{line: 2075, col: 5, offset: 66616},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60780},
+										pos: position{line: 1885, col: 25, offset: 60810},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60780},
+											pos: position{line: 1885, col: 25, offset: 60810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60780},
+													pos:        position{line: 1885, col: 25, offset: 60810},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60785},
+													pos: position{line: 1885, col: 30, offset: 60815},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60785},
+														pos:        position{line: 1885, col: 30, offset: 60815},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44957,25 +45242,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2004, col: 40, offset: 64585},
+									pos: position{line: 2004, col: 40, offset: 64615},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2004, col: 40, offset: 64585},
+										pos:        position{line: 2004, col: 40, offset: 64615},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 76, offset: 66657},
+									pos:   position{line: 2075, col: 76, offset: 66687},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 86, offset: 66667},
+										pos:  position{line: 2075, col: 86, offset: 66697},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 117, offset: 66698},
+									pos:        position{line: 2075, col: 117, offset: 66728},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -44984,21 +45269,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 66859},
+						pos: position{line: 2079, col: 7, offset: 66889},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 66859},
+							pos: position{line: 2079, col: 7, offset: 66889},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 66859},
+									pos:   position{line: 2079, col: 7, offset: 66889},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45007,21 +45292,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 66894},
+									pos:        position{line: 2079, col: 42, offset: 66924},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 66899},
+									pos:   position{line: 2079, col: 47, offset: 66929},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 66909},
+										pos:  position{line: 2079, col: 57, offset: 66939},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 66940},
+									pos:        position{line: 2079, col: 88, offset: 66970},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45030,21 +45315,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67177},
+						pos: position{line: 2084, col: 7, offset: 67207},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67177},
+							pos: position{line: 2084, col: 7, offset: 67207},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67177},
+									pos:   position{line: 2084, col: 7, offset: 67207},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45053,21 +45338,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67212},
+									pos:        position{line: 2084, col: 42, offset: 67242},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67216},
+									pos:   position{line: 2084, col: 46, offset: 67246},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67226},
+										pos:  position{line: 2084, col: 56, offset: 67256},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67257},
+									pos:        position{line: 2084, col: 87, offset: 67287},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45080,33 +45365,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 67915},
+			pos:  position{line: 2104, col: 1, offset: 67945},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67948},
+				pos: position{line: 2105, col: 5, offset: 67978},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67948},
+					pos: position{line: 2105, col: 5, offset: 67978},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2097, col: 43, offset: 67765},
+							pos: position{line: 2097, col: 43, offset: 67795},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2097, col: 43, offset: 67765},
+								pos:        position{line: 2097, col: 43, offset: 67795},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 67992},
+							pos:   position{line: 2106, col: 5, offset: 68022},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 68002},
+								pos:  position{line: 2106, col: 15, offset: 68032},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2102, col: 41, offset: 67909},
+							pos:        position{line: 2102, col: 41, offset: 67939},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45117,44 +45402,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68177},
+			pos:  position{line: 2111, col: 1, offset: 68207},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2111, col: 37, offset: 68213},
+				pos: position{line: 2111, col: 37, offset: 68243},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2111, col: 37, offset: 68213},
+					pos:  position{line: 2111, col: 37, offset: 68243},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2113, col: 1, offset: 68280},
+			pos:  position{line: 2113, col: 1, offset: 68310},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68320},
+				pos: position{line: 2114, col: 5, offset: 68350},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68320},
+					pos: position{line: 2114, col: 5, offset: 68350},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68331},
+							pos: position{line: 2115, col: 5, offset: 68361},
 							expr: &litMatcher{
-								pos:        position{line: 2102, col: 41, offset: 67909},
+								pos:        position{line: 2102, col: 41, offset: 67939},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68373},
+							pos:   position{line: 2116, col: 5, offset: 68403},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2116, col: 14, offset: 68382},
+								pos:  position{line: 2116, col: 14, offset: 68412},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45164,33 +45449,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2134, col: 1, offset: 68924},
+			pos:  position{line: 2134, col: 1, offset: 68954},
 			expr: &seqExpr{
-				pos: position{line: 2135, col: 5, offset: 68969},
+				pos: position{line: 2135, col: 5, offset: 68999},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2135, col: 5, offset: 68969},
+						pos: position{line: 2135, col: 5, offset: 68999},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2135, col: 6, offset: 68970},
+							pos:  position{line: 2135, col: 6, offset: 69000},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2136, col: 5, offset: 68989},
+						pos:        position{line: 2136, col: 5, offset: 69019},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2137, col: 5, offset: 68997},
+						pos: position{line: 2137, col: 5, offset: 69027},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2141, col: 5, offset: 69111},
+						pos: position{line: 2141, col: 5, offset: 69141},
 						expr: &notExpr{
-							pos: position{line: 2141, col: 7, offset: 69113},
+							pos: position{line: 2141, col: 7, offset: 69143},
 							expr: &charClassMatcher{
-								pos:        position{line: 2813, col: 13, offset: 89639},
+								pos:        position{line: 2813, col: 13, offset: 89669},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45203,29 +45488,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2144, col: 1, offset: 69130},
+			pos:  position{line: 2144, col: 1, offset: 69160},
 			expr: &actionExpr{
-				pos: position{line: 2145, col: 5, offset: 69163},
+				pos: position{line: 2145, col: 5, offset: 69193},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2145, col: 5, offset: 69163},
+					pos: position{line: 2145, col: 5, offset: 69193},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2127, col: 5, offset: 68726},
+							pos:        position{line: 2127, col: 5, offset: 68756},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2128, col: 5, offset: 68735},
+							pos: position{line: 2128, col: 5, offset: 68765},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2132, col: 5, offset: 68858},
+							pos: position{line: 2132, col: 5, offset: 68888},
 							expr: &notExpr{
-								pos: position{line: 2132, col: 7, offset: 68860},
+								pos: position{line: 2132, col: 7, offset: 68890},
 								expr: &litMatcher{
-									pos:        position{line: 2132, col: 8, offset: 68861},
+									pos:        position{line: 2132, col: 8, offset: 68891},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45233,15 +45518,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2146, col: 5, offset: 69207},
+							pos:   position{line: 2146, col: 5, offset: 69237},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2146, col: 15, offset: 69217},
+								pos:  position{line: 2146, col: 15, offset: 69247},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2147, col: 5, offset: 69256},
+							pos:  position{line: 2147, col: 5, offset: 69286},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45250,17 +45535,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2151, col: 1, offset: 69393},
+			pos:  position{line: 2151, col: 1, offset: 69423},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69434},
+				pos: position{line: 2152, col: 5, offset: 69464},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69434},
+					pos: position{line: 2152, col: 5, offset: 69464},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2152, col: 5, offset: 69434},
+							pos: position{line: 2152, col: 5, offset: 69464},
 							expr: &charClassMatcher{
-								pos:        position{line: 2152, col: 6, offset: 69435},
+								pos:        position{line: 2152, col: 6, offset: 69465},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45268,18 +45553,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2153, col: 5, offset: 69477},
+							pos:   position{line: 2153, col: 5, offset: 69507},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2153, col: 14, offset: 69486},
+								pos: position{line: 2153, col: 14, offset: 69516},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2153, col: 15, offset: 69487},
+									pos:  position{line: 2153, col: 15, offset: 69517},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2154, col: 5, offset: 69525},
+							pos: position{line: 2154, col: 5, offset: 69555},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45288,31 +45573,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2160, col: 1, offset: 69666},
+			pos:  position{line: 2160, col: 1, offset: 69696},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 69706},
+				pos: position{line: 2161, col: 5, offset: 69736},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 69706},
+					pos: position{line: 2161, col: 5, offset: 69736},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2162, col: 5, offset: 69717},
+							pos: position{line: 2162, col: 5, offset: 69747},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 6, offset: 69718},
+								pos:  position{line: 2162, col: 6, offset: 69748},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 69759},
+							pos:   position{line: 2163, col: 5, offset: 69789},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 14, offset: 69768},
+								pos:  position{line: 2163, col: 14, offset: 69798},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45322,35 +45607,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2168, col: 1, offset: 69856},
+			pos:  position{line: 2168, col: 1, offset: 69886},
 			expr: &choiceExpr{
-				pos: position{line: 2170, col: 5, offset: 69927},
+				pos: position{line: 2170, col: 5, offset: 69957},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2170, col: 5, offset: 69927},
+						pos: position{line: 2170, col: 5, offset: 69957},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 5, offset: 69927},
+							pos: position{line: 2170, col: 5, offset: 69957},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 5, offset: 69927},
+									pos:   position{line: 2170, col: 5, offset: 69957},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60780},
+										pos: position{line: 1885, col: 25, offset: 60810},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60780},
+											pos: position{line: 1885, col: 25, offset: 60810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60780},
+													pos:        position{line: 1885, col: 25, offset: 60810},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60785},
+													pos: position{line: 1885, col: 30, offset: 60815},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60785},
+														pos:        position{line: 1885, col: 30, offset: 60815},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45361,25 +45646,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2097, col: 43, offset: 67765},
+									pos: position{line: 2097, col: 43, offset: 67795},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2097, col: 43, offset: 67765},
+										pos:        position{line: 2097, col: 43, offset: 67795},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 79, offset: 70001},
+									pos:   position{line: 2170, col: 79, offset: 70031},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 89, offset: 70011},
+										pos:  position{line: 2170, col: 89, offset: 70041},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 123, offset: 70045},
+									pos:        position{line: 2170, col: 123, offset: 70075},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45388,21 +45673,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2174, col: 7, offset: 70210},
+						pos: position{line: 2174, col: 7, offset: 70240},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 7, offset: 70210},
+							pos: position{line: 2174, col: 7, offset: 70240},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 7, offset: 70210},
+									pos:   position{line: 2174, col: 7, offset: 70240},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45411,21 +45696,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 42, offset: 70245},
+									pos:        position{line: 2174, col: 42, offset: 70275},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 47, offset: 70250},
+									pos:   position{line: 2174, col: 47, offset: 70280},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 57, offset: 70260},
+										pos:  position{line: 2174, col: 57, offset: 70290},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 91, offset: 70294},
+									pos:        position{line: 2174, col: 91, offset: 70324},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45434,21 +45719,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2179, col: 7, offset: 70496},
+						pos: position{line: 2179, col: 7, offset: 70526},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2179, col: 7, offset: 70496},
+							pos: position{line: 2179, col: 7, offset: 70526},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2179, col: 7, offset: 70496},
+									pos:   position{line: 2179, col: 7, offset: 70526},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45457,21 +45742,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 42, offset: 70531},
+									pos:        position{line: 2179, col: 42, offset: 70561},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2179, col: 46, offset: 70535},
+									pos:   position{line: 2179, col: 46, offset: 70565},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2179, col: 56, offset: 70545},
+										pos:  position{line: 2179, col: 56, offset: 70575},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 90, offset: 70579},
+									pos:        position{line: 2179, col: 90, offset: 70609},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45484,33 +45769,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2199, col: 1, offset: 71158},
+			pos:  position{line: 2199, col: 1, offset: 71188},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71188},
+				pos: position{line: 2200, col: 5, offset: 71218},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71188},
+					pos: position{line: 2200, col: 5, offset: 71218},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2192, col: 40, offset: 71011},
+							pos: position{line: 2192, col: 40, offset: 71041},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2192, col: 40, offset: 71011},
+								pos:        position{line: 2192, col: 40, offset: 71041},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71229},
+							pos:   position{line: 2201, col: 5, offset: 71259},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2201, col: 15, offset: 71239},
+								pos:  position{line: 2201, col: 15, offset: 71269},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 38, offset: 71152},
+							pos:        position{line: 2197, col: 38, offset: 71182},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45521,44 +45806,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2206, col: 1, offset: 71405},
+			pos:  position{line: 2206, col: 1, offset: 71435},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2206, col: 34, offset: 71438},
+				pos: position{line: 2206, col: 34, offset: 71468},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2206, col: 34, offset: 71438},
+					pos:  position{line: 2206, col: 34, offset: 71468},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71469},
+			pos:  position{line: 2208, col: 1, offset: 71499},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71538},
+				pos: position{line: 2209, col: 5, offset: 71568},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71538},
+					pos: position{line: 2209, col: 5, offset: 71568},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71549},
+							pos: position{line: 2210, col: 5, offset: 71579},
 							expr: &litMatcher{
-								pos:        position{line: 2197, col: 38, offset: 71152},
+								pos:        position{line: 2197, col: 38, offset: 71182},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71588},
+							pos:   position{line: 2211, col: 5, offset: 71618},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71597},
+								pos:  position{line: 2211, col: 14, offset: 71627},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45568,29 +45853,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2236, col: 1, offset: 72279},
+			pos:  position{line: 2236, col: 1, offset: 72309},
 			expr: &actionExpr{
-				pos: position{line: 2237, col: 5, offset: 72309},
+				pos: position{line: 2237, col: 5, offset: 72339},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2237, col: 5, offset: 72309},
+					pos: position{line: 2237, col: 5, offset: 72339},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2220, col: 5, offset: 71845},
+							pos:        position{line: 2220, col: 5, offset: 71875},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71854},
+							pos: position{line: 2221, col: 5, offset: 71884},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2225, col: 5, offset: 71974},
+							pos: position{line: 2225, col: 5, offset: 72004},
 							expr: &notExpr{
-								pos: position{line: 2225, col: 7, offset: 71976},
+								pos: position{line: 2225, col: 7, offset: 72006},
 								expr: &litMatcher{
-									pos:        position{line: 2225, col: 8, offset: 71977},
+									pos:        position{line: 2225, col: 8, offset: 72007},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45598,38 +45883,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2238, col: 5, offset: 72349},
+							pos:   position{line: 2238, col: 5, offset: 72379},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2238, col: 15, offset: 72359},
+								pos:  position{line: 2238, col: 15, offset: 72389},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72082},
+							pos:        position{line: 2228, col: 5, offset: 72112},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 72090},
+							pos: position{line: 2229, col: 5, offset: 72120},
 							expr: &litMatcher{
-								pos:        position{line: 2229, col: 6, offset: 72091},
+								pos:        position{line: 2229, col: 6, offset: 72121},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2230, col: 5, offset: 72154},
+							pos: position{line: 2230, col: 5, offset: 72184},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2234, col: 5, offset: 72265},
+							pos: position{line: 2234, col: 5, offset: 72295},
 							expr: &notExpr{
-								pos: position{line: 2234, col: 7, offset: 72267},
+								pos: position{line: 2234, col: 7, offset: 72297},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89639},
+									pos:        position{line: 2813, col: 13, offset: 89669},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45643,17 +45928,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2243, col: 1, offset: 72526},
+			pos:  position{line: 2243, col: 1, offset: 72556},
 			expr: &actionExpr{
-				pos: position{line: 2244, col: 5, offset: 72564},
+				pos: position{line: 2244, col: 5, offset: 72594},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2244, col: 5, offset: 72564},
+					pos: position{line: 2244, col: 5, offset: 72594},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2244, col: 5, offset: 72564},
+							pos: position{line: 2244, col: 5, offset: 72594},
 							expr: &charClassMatcher{
-								pos:        position{line: 2244, col: 6, offset: 72565},
+								pos:        position{line: 2244, col: 6, offset: 72595},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45661,18 +45946,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72607},
+							pos:   position{line: 2245, col: 5, offset: 72637},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2245, col: 14, offset: 72616},
+								pos: position{line: 2245, col: 14, offset: 72646},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2245, col: 15, offset: 72617},
+									pos:  position{line: 2245, col: 15, offset: 72647},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2246, col: 5, offset: 72653},
+							pos: position{line: 2246, col: 5, offset: 72683},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -45681,49 +45966,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2252, col: 1, offset: 72794},
+			pos:  position{line: 2252, col: 1, offset: 72824},
 			expr: &actionExpr{
-				pos: position{line: 2253, col: 5, offset: 72831},
+				pos: position{line: 2253, col: 5, offset: 72861},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2253, col: 5, offset: 72831},
+					pos: position{line: 2253, col: 5, offset: 72861},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2254, col: 5, offset: 72842},
+							pos: position{line: 2254, col: 5, offset: 72872},
 							expr: &seqExpr{
-								pos: position{line: 2228, col: 5, offset: 72082},
+								pos: position{line: 2228, col: 5, offset: 72112},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2228, col: 5, offset: 72082},
+										pos:        position{line: 2228, col: 5, offset: 72112},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2229, col: 5, offset: 72090},
+										pos: position{line: 2229, col: 5, offset: 72120},
 										expr: &litMatcher{
-											pos:        position{line: 2229, col: 6, offset: 72091},
+											pos:        position{line: 2229, col: 6, offset: 72121},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2230, col: 5, offset: 72154},
+										pos: position{line: 2230, col: 5, offset: 72184},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2234, col: 5, offset: 72265},
+										pos: position{line: 2234, col: 5, offset: 72295},
 										expr: &notExpr{
-											pos: position{line: 2234, col: 7, offset: 72267},
+											pos: position{line: 2234, col: 7, offset: 72297},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89639},
+												pos:        position{line: 2813, col: 13, offset: 89669},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45735,10 +46020,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 72881},
+							pos:   position{line: 2255, col: 5, offset: 72911},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 72890},
+								pos:  position{line: 2255, col: 14, offset: 72920},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45748,35 +46033,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2260, col: 1, offset: 72978},
+			pos:  position{line: 2260, col: 1, offset: 73008},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 5, offset: 73042},
+				pos: position{line: 2262, col: 5, offset: 73072},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2262, col: 5, offset: 73042},
+						pos: position{line: 2262, col: 5, offset: 73072},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 5, offset: 73042},
+							pos: position{line: 2262, col: 5, offset: 73072},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 5, offset: 73042},
+									pos:   position{line: 2262, col: 5, offset: 73072},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60780},
+										pos: position{line: 1885, col: 25, offset: 60810},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60780},
+											pos: position{line: 1885, col: 25, offset: 60810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60780},
+													pos:        position{line: 1885, col: 25, offset: 60810},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60785},
+													pos: position{line: 1885, col: 30, offset: 60815},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60785},
+														pos:        position{line: 1885, col: 30, offset: 60815},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45787,25 +46072,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2192, col: 40, offset: 71011},
+									pos: position{line: 2192, col: 40, offset: 71041},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2192, col: 40, offset: 71011},
+										pos:        position{line: 2192, col: 40, offset: 71041},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 76, offset: 73113},
+									pos:   position{line: 2262, col: 76, offset: 73143},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 86, offset: 73123},
+										pos:  position{line: 2262, col: 86, offset: 73153},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 117, offset: 73154},
+									pos:        position{line: 2262, col: 117, offset: 73184},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -45814,21 +46099,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2266, col: 7, offset: 73315},
+						pos: position{line: 2266, col: 7, offset: 73345},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 7, offset: 73315},
+							pos: position{line: 2266, col: 7, offset: 73345},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 7, offset: 73315},
+									pos:   position{line: 2266, col: 7, offset: 73345},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45837,21 +46122,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 42, offset: 73350},
+									pos:        position{line: 2266, col: 42, offset: 73380},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 47, offset: 73355},
+									pos:   position{line: 2266, col: 47, offset: 73385},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 57, offset: 73365},
+										pos:  position{line: 2266, col: 57, offset: 73395},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 88, offset: 73396},
+									pos:        position{line: 2266, col: 88, offset: 73426},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45860,21 +46145,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 7, offset: 73595},
+						pos: position{line: 2271, col: 7, offset: 73625},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2271, col: 7, offset: 73595},
+							pos: position{line: 2271, col: 7, offset: 73625},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2271, col: 7, offset: 73595},
+									pos:   position{line: 2271, col: 7, offset: 73625},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60707},
+										pos: position{line: 1881, col: 25, offset: 60737},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60707},
+											pos: position{line: 1881, col: 25, offset: 60737},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60707},
+												pos:        position{line: 1881, col: 25, offset: 60737},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45883,21 +46168,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 42, offset: 73630},
+									pos:        position{line: 2271, col: 42, offset: 73660},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2271, col: 46, offset: 73634},
+									pos:   position{line: 2271, col: 46, offset: 73664},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2271, col: 56, offset: 73644},
+										pos:  position{line: 2271, col: 56, offset: 73674},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 87, offset: 73675},
+									pos:        position{line: 2271, col: 87, offset: 73705},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45910,33 +46195,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2278, col: 1, offset: 73938},
+			pos:  position{line: 2278, col: 1, offset: 73968},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 73960},
+				pos: position{line: 2279, col: 5, offset: 73990},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 73960},
+					pos: position{line: 2279, col: 5, offset: 73990},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74216},
+							pos: position{line: 2287, col: 32, offset: 74246},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74216},
+								pos:        position{line: 2287, col: 32, offset: 74246},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 73992},
+							pos:   position{line: 2280, col: 5, offset: 74022},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 74001},
+								pos:  position{line: 2280, col: 14, offset: 74031},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74180},
+							pos:        position{line: 2285, col: 27, offset: 74210},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -45947,43 +46232,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2292, col: 1, offset: 74319},
+			pos:  position{line: 2292, col: 1, offset: 74349},
 			expr: &choiceExpr{
-				pos: position{line: 2292, col: 25, offset: 74343},
+				pos: position{line: 2292, col: 25, offset: 74373},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2292, col: 25, offset: 74343},
+						pos:  position{line: 2292, col: 25, offset: 74373},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2294, col: 21, offset: 74395},
+						pos: position{line: 2294, col: 21, offset: 74425},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2294, col: 21, offset: 74395},
+							pos:   position{line: 2294, col: 21, offset: 74425},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2294, col: 29, offset: 74403},
+								pos: position{line: 2294, col: 29, offset: 74433},
 								expr: &choiceExpr{
-									pos: position{line: 2294, col: 30, offset: 74404},
+									pos: position{line: 2294, col: 30, offset: 74434},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80880},
+												pos: position{line: 2513, col: 5, offset: 80910},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80880},
+														pos: position{line: 2513, col: 5, offset: 80910},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 80956},
+														pos:   position{line: 2516, col: 5, offset: 80986},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 80974},
+															pos: position{line: 2517, col: 9, offset: 81004},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 80975},
+																pos:        position{line: 2517, col: 10, offset: 81005},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -45995,7 +46280,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2294, col: 49, offset: 74423},
+											pos:        position{line: 2294, col: 49, offset: 74453},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46011,23 +46296,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2298, col: 1, offset: 74482},
+			pos:  position{line: 2298, col: 1, offset: 74512},
 			expr: &actionExpr{
-				pos: position{line: 2300, col: 5, offset: 74549},
+				pos: position{line: 2300, col: 5, offset: 74579},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2300, col: 5, offset: 74549},
+					pos: position{line: 2300, col: 5, offset: 74579},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74549},
+							pos:   position{line: 2300, col: 5, offset: 74579},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60707},
+								pos: position{line: 1881, col: 25, offset: 60737},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60707},
+									pos: position{line: 1881, col: 25, offset: 60737},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60707},
+										pos:        position{line: 1881, col: 25, offset: 60737},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46036,25 +46321,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74216},
+							pos: position{line: 2287, col: 32, offset: 74246},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74216},
+								pos:        position{line: 2287, col: 32, offset: 74246},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 5, offset: 74622},
+							pos:   position{line: 2302, col: 5, offset: 74652},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 14, offset: 74631},
+								pos:  position{line: 2302, col: 14, offset: 74661},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74180},
+							pos:        position{line: 2285, col: 27, offset: 74210},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46065,33 +46350,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2310, col: 1, offset: 74890},
+			pos:  position{line: 2310, col: 1, offset: 74920},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 74914},
+				pos: position{line: 2311, col: 5, offset: 74944},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 74914},
+					pos: position{line: 2311, col: 5, offset: 74944},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75183},
+							pos: position{line: 2319, col: 34, offset: 75213},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75183},
+								pos:        position{line: 2319, col: 34, offset: 75213},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74948},
+							pos:   position{line: 2312, col: 5, offset: 74978},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74957},
+								pos:  position{line: 2312, col: 14, offset: 74987},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75145},
+							pos:        position{line: 2317, col: 29, offset: 75175},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46102,43 +46387,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2324, col: 1, offset: 75286},
+			pos:  position{line: 2324, col: 1, offset: 75316},
 			expr: &choiceExpr{
-				pos: position{line: 2324, col: 27, offset: 75312},
+				pos: position{line: 2324, col: 27, offset: 75342},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2324, col: 27, offset: 75312},
+						pos:  position{line: 2324, col: 27, offset: 75342},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2326, col: 23, offset: 75368},
+						pos: position{line: 2326, col: 23, offset: 75398},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2326, col: 23, offset: 75368},
+							pos:   position{line: 2326, col: 23, offset: 75398},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2326, col: 31, offset: 75376},
+								pos: position{line: 2326, col: 31, offset: 75406},
 								expr: &choiceExpr{
-									pos: position{line: 2326, col: 32, offset: 75377},
+									pos: position{line: 2326, col: 32, offset: 75407},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80880},
+												pos: position{line: 2513, col: 5, offset: 80910},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80880},
+														pos: position{line: 2513, col: 5, offset: 80910},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 80956},
+														pos:   position{line: 2516, col: 5, offset: 80986},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 80974},
+															pos: position{line: 2517, col: 9, offset: 81004},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 80975},
+																pos:        position{line: 2517, col: 10, offset: 81005},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46150,7 +46435,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2326, col: 51, offset: 75396},
+											pos:        position{line: 2326, col: 51, offset: 75426},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46166,23 +46451,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75455},
+			pos:  position{line: 2330, col: 1, offset: 75485},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75527},
+				pos: position{line: 2332, col: 5, offset: 75557},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75527},
+					pos: position{line: 2332, col: 5, offset: 75557},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75527},
+							pos:   position{line: 2332, col: 5, offset: 75557},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60707},
+								pos: position{line: 1881, col: 25, offset: 60737},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60707},
+									pos: position{line: 1881, col: 25, offset: 60737},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60707},
+										pos:        position{line: 1881, col: 25, offset: 60737},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46191,25 +46476,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75183},
+							pos: position{line: 2319, col: 34, offset: 75213},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75183},
+								pos:        position{line: 2319, col: 34, offset: 75213},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75602},
+							pos:   position{line: 2334, col: 5, offset: 75632},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75611},
+								pos:  position{line: 2334, col: 14, offset: 75641},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75145},
+							pos:        position{line: 2317, col: 29, offset: 75175},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46220,27 +46505,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 76076},
+			pos:  position{line: 2343, col: 1, offset: 76106},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 76092},
+				pos: position{line: 2344, col: 5, offset: 76122},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 76092},
+					pos: position{line: 2344, col: 5, offset: 76122},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 76092},
+							pos: position{line: 2344, col: 5, offset: 76122},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76155},
+							pos:   position{line: 2347, col: 5, offset: 76185},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76162},
+								pos: position{line: 2347, col: 12, offset: 76192},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76162},
+									pos: position{line: 2347, col: 12, offset: 76192},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76163},
+										pos:        position{line: 2347, col: 13, offset: 76193},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46249,16 +46534,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76271},
+							pos: position{line: 2351, col: 5, offset: 76301},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93752},
+							pos: position{line: 2963, col: 11, offset: 93782},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93752},
+								pos: position{line: 2963, col: 11, offset: 93782},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93752},
+									pos:        position{line: 2963, col: 11, offset: 93782},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46267,36 +46552,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76430},
+							pos:   position{line: 2355, col: 12, offset: 76460},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76437},
+								pos:  position{line: 2355, col: 19, offset: 76467},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46305,9 +46590,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -46318,24 +46603,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76533},
+			pos:  position{line: 2359, col: 1, offset: 76563},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76554},
+				pos: position{line: 2360, col: 5, offset: 76584},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76554},
+					pos: position{line: 2360, col: 5, offset: 76584},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76554},
+							pos: position{line: 2360, col: 5, offset: 76584},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76698},
+							pos:   position{line: 2366, col: 5, offset: 76728},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76707},
+								pos: position{line: 2366, col: 14, offset: 76737},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76708},
+									pos:  position{line: 2366, col: 15, offset: 76738},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46346,38 +46631,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76789},
+			pos:  position{line: 2370, col: 1, offset: 76819},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76816},
+				pos: position{line: 2371, col: 5, offset: 76846},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76816},
+					pos: position{line: 2371, col: 5, offset: 76846},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76816},
+							pos: position{line: 2371, col: 5, offset: 76846},
 							expr: &choiceExpr{
-								pos: position{line: 2981, col: 8, offset: 94089},
+								pos: position{line: 2981, col: 8, offset: 94119},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93862},
+										pos: position{line: 2968, col: 12, offset: 93892},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93863},
+											pos: position{line: 2968, col: 13, offset: 93893},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93863},
+													pos:        position{line: 2968, col: 13, offset: 93893},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93870},
+													pos:        position{line: 2968, col: 20, offset: 93900},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93879},
+													pos:        position{line: 2968, col: 29, offset: 93909},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46386,45 +46671,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94039},
+										pos: position{line: 2978, col: 8, offset: 94069},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94040,
+											line: 2978, col: 9, offset: 94070,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76825},
+							pos:   position{line: 2372, col: 5, offset: 76855},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76843},
+								pos: position{line: 2373, col: 9, offset: 76873},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89786},
+										pos: position{line: 2822, col: 5, offset: 89816},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89786},
+											pos: position{line: 2822, col: 5, offset: 89816},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89786},
+													pos: position{line: 2822, col: 5, offset: 89816},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89797},
+														pos: position{line: 2823, col: 9, offset: 89827},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89797},
+																pos: position{line: 2823, col: 9, offset: 89827},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89860},
+																pos:   position{line: 2826, col: 9, offset: 89890},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89172},
+																	pos: position{line: 2798, col: 18, offset: 89202},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89173},
+																		pos: position{line: 2798, col: 19, offset: 89203},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89173},
+																			pos:        position{line: 2798, col: 19, offset: 89203},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46435,28 +46720,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89881},
+																pos:        position{line: 2826, col: 30, offset: 89911},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89968},
+																pos: position{line: 2827, col: 9, offset: 89998},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90080},
+													pos:   position{line: 2831, col: 5, offset: 90110},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90086},
+														pos: position{line: 2831, col: 11, offset: 90116},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90086},
+															pos: position{line: 2831, col: 11, offset: 90116},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90086},
+																pos:        position{line: 2831, col: 11, offset: 90116},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46466,32 +46751,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90144},
+													pos: position{line: 2834, col: 5, offset: 90174},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90155},
+														pos: position{line: 2835, col: 9, offset: 90185},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90155},
+																pos:        position{line: 2835, col: 9, offset: 90185},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90204},
+																pos: position{line: 2836, col: 9, offset: 90234},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90284},
+													pos: position{line: 2840, col: 5, offset: 90314},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90295},
+														pos: position{line: 2841, col: 9, offset: 90325},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90295},
+																pos: position{line: 2841, col: 9, offset: 90325},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90295},
+																	pos:        position{line: 2841, col: 9, offset: 90325},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46500,13 +46785,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90309},
+																pos:        position{line: 2841, col: 23, offset: 90339},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90313},
+																pos:        position{line: 2841, col: 27, offset: 90343},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46519,12 +46804,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93752},
+										pos: position{line: 2963, col: 11, offset: 93782},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93752},
+											pos: position{line: 2963, col: 11, offset: 93782},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93752},
+												pos:        position{line: 2963, col: 11, offset: 93782},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46533,25 +46818,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82051},
+										pos: position{line: 2544, col: 5, offset: 82081},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82051},
+											pos: position{line: 2544, col: 5, offset: 82081},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82051},
+													pos: position{line: 2544, col: 5, offset: 82081},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82122},
+													pos:        position{line: 2547, col: 5, offset: 82152},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82127},
+													pos: position{line: 2547, col: 10, offset: 82157},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82128},
+														pos:        position{line: 2547, col: 11, offset: 82158},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46562,29 +46847,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82314},
+										pos: position{line: 2553, col: 5, offset: 82344},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82314},
+											pos: position{line: 2553, col: 5, offset: 82344},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82314},
+													pos: position{line: 2553, col: 5, offset: 82344},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82385},
+													pos: position{line: 2556, col: 5, offset: 82415},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82510},
+													pos:        position{line: 2560, col: 5, offset: 82540},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82514},
+													pos: position{line: 2560, col: 9, offset: 82544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82515},
+														pos:        position{line: 2560, col: 10, offset: 82545},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46595,31 +46880,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76908},
+										pos:  position{line: 2376, col: 11, offset: 76938},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90506},
+										pos: position{line: 2849, col: 5, offset: 90536},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90516},
+											pos: position{line: 2850, col: 9, offset: 90546},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90517},
+													pos:        position{line: 2850, col: 10, offset: 90547},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90614},
+													pos: position{line: 2852, col: 13, offset: 90644},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90614},
+															pos: position{line: 2852, col: 13, offset: 90644},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90714},
+															pos:        position{line: 2855, col: 13, offset: 90744},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46627,20 +46912,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90720},
+													pos:        position{line: 2855, col: 19, offset: 90750},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90758},
+													pos: position{line: 2858, col: 13, offset: 90788},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90758},
+															pos: position{line: 2858, col: 13, offset: 90788},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90851},
+															pos:        position{line: 2861, col: 14, offset: 90881},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46649,18 +46934,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90895},
+													pos: position{line: 2863, col: 12, offset: 90925},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90895},
+															pos:        position{line: 2863, col: 12, offset: 90925},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90899},
+															pos: position{line: 2863, col: 16, offset: 90929},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90900},
+																pos:        position{line: 2863, col: 17, offset: 90930},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46672,35 +46957,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 76981},
+										pos:  position{line: 2378, col: 11, offset: 77011},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 76997},
+										pos:  position{line: 2379, col: 11, offset: 77027},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77025},
+										pos:  position{line: 2380, col: 11, offset: 77055},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80880},
+										pos: position{line: 2513, col: 5, offset: 80910},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80880},
+													pos: position{line: 2513, col: 5, offset: 80910},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80956},
+													pos:   position{line: 2516, col: 5, offset: 80986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 80974},
+														pos: position{line: 2517, col: 9, offset: 81004},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 80975},
+															pos:        position{line: 2517, col: 10, offset: 81005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46712,7 +46997,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77110},
+										pos:  position{line: 2382, col: 11, offset: 77140},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47101,17 +47386,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77563},
+										pos: position{line: 2395, col: 5, offset: 77593},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77563},
+											pos: position{line: 2395, col: 5, offset: 77593},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77563},
+													pos: position{line: 2395, col: 5, offset: 77593},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77618},
+													pos:   position{line: 2398, col: 5, offset: 77648},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -47565,12 +47850,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77639},
+													pos: position{line: 2398, col: 26, offset: 77669},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93691},
+														pos: position{line: 2959, col: 10, offset: 93721},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93691},
+															pos:        position{line: 2959, col: 10, offset: 93721},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47579,30 +47864,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77646},
+													pos: position{line: 2398, col: 33, offset: 77676},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94089},
+														pos: position{line: 2981, col: 8, offset: 94119},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93862},
+																pos: position{line: 2968, col: 12, offset: 93892},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93863},
+																	pos: position{line: 2968, col: 13, offset: 93893},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93863},
+																			pos:        position{line: 2968, col: 13, offset: 93893},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93870},
+																			pos:        position{line: 2968, col: 20, offset: 93900},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93879},
+																			pos:        position{line: 2968, col: 29, offset: 93909},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47611,9 +47896,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94039},
+																pos: position{line: 2978, col: 8, offset: 94069},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94040,
+																	line: 2978, col: 9, offset: 94070,
 																},
 															},
 														},
@@ -47638,12 +47923,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93343},
+														pos: position{line: 2944, col: 7, offset: 93373},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93343},
+															pos: position{line: 2944, col: 7, offset: 93373},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93343},
+																pos:        position{line: 2944, col: 7, offset: 93373},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47677,12 +47962,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93343},
+														pos: position{line: 2944, col: 7, offset: 93373},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93343},
+															pos: position{line: 2944, col: 7, offset: 93373},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93343},
+																pos:        position{line: 2944, col: 7, offset: 93373},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47701,14 +47986,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77364},
+										pos:  position{line: 2387, col: 11, offset: 77394},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91160},
+										pos: position{line: 2871, col: 12, offset: 91190},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91160},
+											pos:        position{line: 2871, col: 12, offset: 91190},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -47724,61 +48009,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77908},
+			pos:  position{line: 2408, col: 1, offset: 77938},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77995},
+				pos: position{line: 2409, col: 5, offset: 78025},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77995},
+					pos: position{line: 2409, col: 5, offset: 78025},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 77995},
+							pos:   position{line: 2409, col: 5, offset: 78025},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 78004},
+								pos: position{line: 2409, col: 14, offset: 78034},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 78030},
+									pos: position{line: 2411, col: 9, offset: 78060},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 78030},
+										pos: position{line: 2411, col: 9, offset: 78060},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94025},
+												pos: position{line: 2976, col: 11, offset: 94055},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94027,
+													line: 2976, col: 13, offset: 94057,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 78045},
+												pos:   position{line: 2412, col: 9, offset: 78075},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 78067},
+													pos: position{line: 2413, col: 13, offset: 78097},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2822, col: 5, offset: 89786},
+															pos: position{line: 2822, col: 5, offset: 89816},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2822, col: 5, offset: 89786},
+																pos: position{line: 2822, col: 5, offset: 89816},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2822, col: 5, offset: 89786},
+																		pos: position{line: 2822, col: 5, offset: 89816},
 																		expr: &seqExpr{
-																			pos: position{line: 2823, col: 9, offset: 89797},
+																			pos: position{line: 2823, col: 9, offset: 89827},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2823, col: 9, offset: 89797},
+																					pos: position{line: 2823, col: 9, offset: 89827},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2826, col: 9, offset: 89860},
+																					pos:   position{line: 2826, col: 9, offset: 89890},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2798, col: 18, offset: 89172},
+																						pos: position{line: 2798, col: 18, offset: 89202},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2798, col: 19, offset: 89173},
+																							pos: position{line: 2798, col: 19, offset: 89203},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2798, col: 19, offset: 89173},
+																								pos:        position{line: 2798, col: 19, offset: 89203},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47789,28 +48074,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2826, col: 30, offset: 89881},
+																					pos:        position{line: 2826, col: 30, offset: 89911},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2827, col: 9, offset: 89968},
+																					pos: position{line: 2827, col: 9, offset: 89998},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2831, col: 5, offset: 90080},
+																		pos:   position{line: 2831, col: 5, offset: 90110},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 90086},
+																			pos: position{line: 2831, col: 11, offset: 90116},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 11, offset: 90086},
+																				pos: position{line: 2831, col: 11, offset: 90116},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 11, offset: 90086},
+																					pos:        position{line: 2831, col: 11, offset: 90116},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47820,32 +48105,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2834, col: 5, offset: 90144},
+																		pos: position{line: 2834, col: 5, offset: 90174},
 																		expr: &seqExpr{
-																			pos: position{line: 2835, col: 9, offset: 90155},
+																			pos: position{line: 2835, col: 9, offset: 90185},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2835, col: 9, offset: 90155},
+																					pos:        position{line: 2835, col: 9, offset: 90185},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2836, col: 9, offset: 90204},
+																					pos: position{line: 2836, col: 9, offset: 90234},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2840, col: 5, offset: 90284},
+																		pos: position{line: 2840, col: 5, offset: 90314},
 																		expr: &seqExpr{
-																			pos: position{line: 2841, col: 9, offset: 90295},
+																			pos: position{line: 2841, col: 9, offset: 90325},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2841, col: 9, offset: 90295},
+																					pos: position{line: 2841, col: 9, offset: 90325},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2841, col: 9, offset: 90295},
+																						pos:        position{line: 2841, col: 9, offset: 90325},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47854,13 +48139,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2841, col: 23, offset: 90309},
+																					pos:        position{line: 2841, col: 23, offset: 90339},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 27, offset: 90313},
+																					pos:        position{line: 2841, col: 27, offset: 90343},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -47873,12 +48158,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2963, col: 11, offset: 93752},
+															pos: position{line: 2963, col: 11, offset: 93782},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2963, col: 11, offset: 93752},
+																pos: position{line: 2963, col: 11, offset: 93782},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 11, offset: 93752},
+																	pos:        position{line: 2963, col: 11, offset: 93782},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47887,29 +48172,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78113},
+															pos:  position{line: 2415, col: 15, offset: 78143},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2544, col: 5, offset: 82051},
+															pos: position{line: 2544, col: 5, offset: 82081},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2544, col: 5, offset: 82051},
+																pos: position{line: 2544, col: 5, offset: 82081},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2544, col: 5, offset: 82051},
+																		pos: position{line: 2544, col: 5, offset: 82081},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2547, col: 5, offset: 82122},
+																		pos:        position{line: 2547, col: 5, offset: 82152},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2547, col: 10, offset: 82127},
+																		pos: position{line: 2547, col: 10, offset: 82157},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2547, col: 11, offset: 82128},
+																			pos:        position{line: 2547, col: 11, offset: 82158},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47920,29 +48205,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2553, col: 5, offset: 82314},
+															pos: position{line: 2553, col: 5, offset: 82344},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2553, col: 5, offset: 82314},
+																pos: position{line: 2553, col: 5, offset: 82344},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2553, col: 5, offset: 82314},
+																		pos: position{line: 2553, col: 5, offset: 82344},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2556, col: 5, offset: 82385},
+																		pos: position{line: 2556, col: 5, offset: 82415},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2560, col: 5, offset: 82510},
+																		pos:        position{line: 2560, col: 5, offset: 82540},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2560, col: 9, offset: 82514},
+																		pos: position{line: 2560, col: 9, offset: 82544},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2560, col: 10, offset: 82515},
+																			pos:        position{line: 2560, col: 10, offset: 82545},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -47953,27 +48238,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2849, col: 5, offset: 90506},
+															pos: position{line: 2849, col: 5, offset: 90536},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2850, col: 9, offset: 90516},
+																pos: position{line: 2850, col: 9, offset: 90546},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2850, col: 10, offset: 90517},
+																		pos:        position{line: 2850, col: 10, offset: 90547},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2852, col: 13, offset: 90614},
+																		pos: position{line: 2852, col: 13, offset: 90644},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2852, col: 13, offset: 90614},
+																				pos: position{line: 2852, col: 13, offset: 90644},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90714},
+																				pos:        position{line: 2855, col: 13, offset: 90744},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -47981,20 +48266,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 19, offset: 90720},
+																		pos:        position{line: 2855, col: 19, offset: 90750},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2858, col: 13, offset: 90758},
+																		pos: position{line: 2858, col: 13, offset: 90788},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2858, col: 13, offset: 90758},
+																				pos: position{line: 2858, col: 13, offset: 90788},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2861, col: 14, offset: 90851},
+																				pos:        position{line: 2861, col: 14, offset: 90881},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48003,18 +48288,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2863, col: 12, offset: 90895},
+																		pos: position{line: 2863, col: 12, offset: 90925},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2863, col: 12, offset: 90895},
+																				pos:        position{line: 2863, col: 12, offset: 90925},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2863, col: 16, offset: 90899},
+																				pos: position{line: 2863, col: 16, offset: 90929},
 																				expr: &litMatcher{
-																					pos:        position{line: 2863, col: 17, offset: 90900},
+																					pos:        position{line: 2863, col: 17, offset: 90930},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48026,25 +48311,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93862},
+															pos: position{line: 2968, col: 12, offset: 93892},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93863},
+																pos: position{line: 2968, col: 13, offset: 93893},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93863},
+																		pos:        position{line: 2968, col: 13, offset: 93893},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93870},
+																		pos:        position{line: 2968, col: 20, offset: 93900},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93879},
+																		pos:        position{line: 2968, col: 29, offset: 93909},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48399,35 +48684,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78280},
+															pos:  position{line: 2420, col: 15, offset: 78310},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78300},
+															pos:  position{line: 2421, col: 15, offset: 78330},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78389},
+															pos:  position{line: 2422, col: 15, offset: 78419},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 5, offset: 80880},
+															pos: position{line: 2513, col: 5, offset: 80910},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 5, offset: 80880},
+																pos: position{line: 2513, col: 5, offset: 80910},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80880},
+																		pos: position{line: 2513, col: 5, offset: 80910},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2516, col: 5, offset: 80956},
+																		pos:   position{line: 2516, col: 5, offset: 80986},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2517, col: 9, offset: 80974},
+																			pos: position{line: 2517, col: 9, offset: 81004},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2517, col: 10, offset: 80975},
+																				pos:        position{line: 2517, col: 10, offset: 81005},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48461,10 +48746,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48475,28 +48760,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94089},
+																			pos: position{line: 2981, col: 8, offset: 94119},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48505,9 +48790,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94039},
+																					pos: position{line: 2978, col: 8, offset: 94069},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94040,
+																						line: 2978, col: 9, offset: 94070,
 																					},
 																				},
 																			},
@@ -48517,7 +48802,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78571},
+															pos:  position{line: 2425, col: 15, offset: 78601},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -48560,10 +48845,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 91160},
+															pos: position{line: 2871, col: 12, offset: 91190},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 12, offset: 91160},
+																pos:        position{line: 2871, col: 12, offset: 91190},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48579,9 +48864,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -48590,28 +48875,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 79009},
+			pos:  position{line: 2436, col: 1, offset: 79039},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 79042},
+				pos: position{line: 2437, col: 5, offset: 79072},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 79042},
+					pos: position{line: 2437, col: 5, offset: 79072},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 79042},
+							pos:   position{line: 2437, col: 5, offset: 79072},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 79051},
+								pos: position{line: 2437, col: 14, offset: 79081},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 79052},
+									pos:  position{line: 2437, col: 15, offset: 79082},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -48620,50 +48905,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79149},
+			pos:  position{line: 2441, col: 1, offset: 79179},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79189},
+				pos: position{line: 2442, col: 5, offset: 79219},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79189},
+					pos: position{line: 2442, col: 5, offset: 79219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94025},
+							pos: position{line: 2976, col: 11, offset: 94055},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94027,
+								line: 2976, col: 13, offset: 94057,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79200},
+							pos:   position{line: 2443, col: 5, offset: 79230},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79218},
+								pos: position{line: 2444, col: 9, offset: 79248},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89786},
+										pos: position{line: 2822, col: 5, offset: 89816},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89786},
+											pos: position{line: 2822, col: 5, offset: 89816},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89786},
+													pos: position{line: 2822, col: 5, offset: 89816},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89797},
+														pos: position{line: 2823, col: 9, offset: 89827},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89797},
+																pos: position{line: 2823, col: 9, offset: 89827},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89860},
+																pos:   position{line: 2826, col: 9, offset: 89890},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89172},
+																	pos: position{line: 2798, col: 18, offset: 89202},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89173},
+																		pos: position{line: 2798, col: 19, offset: 89203},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89173},
+																			pos:        position{line: 2798, col: 19, offset: 89203},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48674,28 +48959,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89881},
+																pos:        position{line: 2826, col: 30, offset: 89911},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89968},
+																pos: position{line: 2827, col: 9, offset: 89998},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90080},
+													pos:   position{line: 2831, col: 5, offset: 90110},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90086},
+														pos: position{line: 2831, col: 11, offset: 90116},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90086},
+															pos: position{line: 2831, col: 11, offset: 90116},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90086},
+																pos:        position{line: 2831, col: 11, offset: 90116},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48705,32 +48990,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90144},
+													pos: position{line: 2834, col: 5, offset: 90174},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90155},
+														pos: position{line: 2835, col: 9, offset: 90185},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90155},
+																pos:        position{line: 2835, col: 9, offset: 90185},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90204},
+																pos: position{line: 2836, col: 9, offset: 90234},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90284},
+													pos: position{line: 2840, col: 5, offset: 90314},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90295},
+														pos: position{line: 2841, col: 9, offset: 90325},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90295},
+																pos: position{line: 2841, col: 9, offset: 90325},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90295},
+																	pos:        position{line: 2841, col: 9, offset: 90325},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48739,13 +49024,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90309},
+																pos:        position{line: 2841, col: 23, offset: 90339},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90313},
+																pos:        position{line: 2841, col: 27, offset: 90343},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48758,10 +49043,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93691},
+										pos: position{line: 2959, col: 10, offset: 93721},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93691},
+											pos:        position{line: 2959, col: 10, offset: 93721},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -48769,29 +49054,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79256},
+										pos:  position{line: 2446, col: 11, offset: 79286},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82051},
+										pos: position{line: 2544, col: 5, offset: 82081},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82051},
+											pos: position{line: 2544, col: 5, offset: 82081},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82051},
+													pos: position{line: 2544, col: 5, offset: 82081},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82122},
+													pos:        position{line: 2547, col: 5, offset: 82152},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82127},
+													pos: position{line: 2547, col: 10, offset: 82157},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82128},
+														pos:        position{line: 2547, col: 11, offset: 82158},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -48802,29 +49087,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82314},
+										pos: position{line: 2553, col: 5, offset: 82344},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82314},
+											pos: position{line: 2553, col: 5, offset: 82344},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82314},
+													pos: position{line: 2553, col: 5, offset: 82344},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82385},
+													pos: position{line: 2556, col: 5, offset: 82415},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82510},
+													pos:        position{line: 2560, col: 5, offset: 82540},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82514},
+													pos: position{line: 2560, col: 9, offset: 82544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82515},
+														pos:        position{line: 2560, col: 10, offset: 82545},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -48835,27 +49120,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90506},
+										pos: position{line: 2849, col: 5, offset: 90536},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90516},
+											pos: position{line: 2850, col: 9, offset: 90546},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90517},
+													pos:        position{line: 2850, col: 10, offset: 90547},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90614},
+													pos: position{line: 2852, col: 13, offset: 90644},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90614},
+															pos: position{line: 2852, col: 13, offset: 90644},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90714},
+															pos:        position{line: 2855, col: 13, offset: 90744},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -48863,20 +49148,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90720},
+													pos:        position{line: 2855, col: 19, offset: 90750},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90758},
+													pos: position{line: 2858, col: 13, offset: 90788},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90758},
+															pos: position{line: 2858, col: 13, offset: 90788},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90851},
+															pos:        position{line: 2861, col: 14, offset: 90881},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -48885,18 +49170,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90895},
+													pos: position{line: 2863, col: 12, offset: 90925},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90895},
+															pos:        position{line: 2863, col: 12, offset: 90925},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90899},
+															pos: position{line: 2863, col: 16, offset: 90929},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90900},
+																pos:        position{line: 2863, col: 17, offset: 90930},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -48908,31 +49193,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79356},
+										pos:  position{line: 2449, col: 11, offset: 79386},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79372},
+										pos:  position{line: 2450, col: 11, offset: 79402},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80880},
+										pos: position{line: 2513, col: 5, offset: 80910},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80880},
+											pos: position{line: 2513, col: 5, offset: 80910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80880},
+													pos: position{line: 2513, col: 5, offset: 80910},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80956},
+													pos:   position{line: 2516, col: 5, offset: 80986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 80974},
+														pos: position{line: 2517, col: 9, offset: 81004},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 80975},
+															pos:        position{line: 2517, col: 10, offset: 81005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48983,25 +49268,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93862},
+										pos: position{line: 2968, col: 12, offset: 93892},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93863},
+											pos: position{line: 2968, col: 13, offset: 93893},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93863},
+													pos:        position{line: 2968, col: 13, offset: 93893},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93870},
+													pos:        position{line: 2968, col: 20, offset: 93900},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93879},
+													pos:        position{line: 2968, col: 29, offset: 93909},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49010,10 +49295,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91160},
+										pos: position{line: 2871, col: 12, offset: 91190},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91160},
+											pos:        position{line: 2871, col: 12, offset: 91190},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49029,49 +49314,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2461, col: 1, offset: 79642},
+			pos:  position{line: 2461, col: 1, offset: 79672},
 			expr: &actionExpr{
-				pos: position{line: 2463, col: 5, offset: 79724},
+				pos: position{line: 2463, col: 5, offset: 79754},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2463, col: 5, offset: 79724},
+					pos: position{line: 2463, col: 5, offset: 79754},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2463, col: 5, offset: 79724},
+							pos: position{line: 2463, col: 5, offset: 79754},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2466, col: 5, offset: 79789},
+							pos:   position{line: 2466, col: 5, offset: 79819},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2467, col: 9, offset: 79807},
+								pos: position{line: 2467, col: 9, offset: 79837},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 9, offset: 79807},
+										pos:  position{line: 2467, col: 9, offset: 79837},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79828},
+										pos:  position{line: 2468, col: 11, offset: 79858},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79851},
+										pos:  position{line: 2469, col: 11, offset: 79881},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79867},
+										pos:  position{line: 2470, col: 11, offset: 79897},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79896},
+										pos:  position{line: 2471, col: 11, offset: 79926},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79922},
+										pos:  position{line: 2472, col: 11, offset: 79952},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 79948},
+										pos:  position{line: 2473, col: 11, offset: 79978},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49090,12 +49375,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93343},
+														pos: position{line: 2944, col: 7, offset: 93373},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93343},
+															pos: position{line: 2944, col: 7, offset: 93373},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93343},
+																pos:        position{line: 2944, col: 7, offset: 93373},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49129,12 +49414,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93343},
+														pos: position{line: 2944, col: 7, offset: 93373},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93343},
+															pos: position{line: 2944, col: 7, offset: 93373},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93343},
+																pos:        position{line: 2944, col: 7, offset: 93373},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49176,17 +49461,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2813, col: 13, offset: 89639},
+																		pos:        position{line: 2813, col: 13, offset: 89669},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93691},
+																		pos: position{line: 2959, col: 10, offset: 93721},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93691},
+																			pos:        position{line: 2959, col: 10, offset: 93721},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49212,10 +49497,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49232,10 +49517,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49255,17 +49540,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89639},
+																							pos:        position{line: 2813, col: 13, offset: 89669},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49296,10 +49581,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49316,10 +49601,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93691},
+																			pos: position{line: 2959, col: 10, offset: 93721},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93691},
+																				pos:        position{line: 2959, col: 10, offset: 93721},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49339,17 +49624,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89639},
+																							pos:        position{line: 2813, col: 13, offset: 89669},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93691},
+																							pos: position{line: 2959, col: 10, offset: 93721},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93691},
+																								pos:        position{line: 2959, col: 10, offset: 93721},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49376,15 +49661,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80027},
+										pos:  position{line: 2476, col: 11, offset: 80057},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80047},
+										pos:  position{line: 2477, col: 11, offset: 80077},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2478, col: 11, offset: 80070},
+										pos:  position{line: 2478, col: 11, offset: 80100},
 										name: "InlineMenu",
 									},
 								},
@@ -49396,22 +49681,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2482, col: 1, offset: 80127},
+			pos:  position{line: 2482, col: 1, offset: 80157},
 			expr: &actionExpr{
-				pos: position{line: 2484, col: 5, offset: 80215},
+				pos: position{line: 2484, col: 5, offset: 80245},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2484, col: 5, offset: 80215},
+					pos: position{line: 2484, col: 5, offset: 80245},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2484, col: 5, offset: 80215},
+							pos: position{line: 2484, col: 5, offset: 80245},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2487, col: 5, offset: 80292},
+							pos:   position{line: 2487, col: 5, offset: 80322},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2488, col: 9, offset: 80310},
+								pos: position{line: 2488, col: 9, offset: 80340},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44933},
@@ -49466,10 +49751,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93691},
+																					pos: position{line: 2959, col: 10, offset: 93721},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93691},
+																						pos:        position{line: 2959, col: 10, offset: 93721},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49480,25 +49765,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93862},
+																					pos: position{line: 2968, col: 12, offset: 93892},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93863},
+																						pos: position{line: 2968, col: 13, offset: 93893},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93863},
+																								pos:        position{line: 2968, col: 13, offset: 93893},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93870},
+																								pos:        position{line: 2968, col: 20, offset: 93900},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93879},
+																								pos:        position{line: 2968, col: 29, offset: 93909},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49535,7 +49820,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89639},
+														pos:        position{line: 2813, col: 13, offset: 89669},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49581,10 +49866,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49595,25 +49880,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49636,12 +49921,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93752},
+																									pos: position{line: 2963, col: 11, offset: 93782},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93752},
+																										pos: position{line: 2963, col: 11, offset: 93782},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93752},
+																											pos:        position{line: 2963, col: 11, offset: 93782},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49670,25 +49955,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93862},
+																							pos: position{line: 2968, col: 12, offset: 93892},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93863},
+																								pos: position{line: 2968, col: 13, offset: 93893},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93863},
+																										pos:        position{line: 2968, col: 13, offset: 93893},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93870},
+																										pos:        position{line: 2968, col: 20, offset: 93900},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93879},
+																										pos:        position{line: 2968, col: 29, offset: 93909},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -49715,10 +50000,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93691},
+																				pos: position{line: 2959, col: 10, offset: 93721},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93691},
+																					pos:        position{line: 2959, col: 10, offset: 93721},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49729,25 +50014,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93862},
+																				pos: position{line: 2968, col: 12, offset: 93892},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93863},
+																					pos: position{line: 2968, col: 13, offset: 93893},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93863},
+																							pos:        position{line: 2968, col: 13, offset: 93893},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93870},
+																							pos:        position{line: 2968, col: 20, offset: 93900},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93879},
+																							pos:        position{line: 2968, col: 29, offset: 93909},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49783,7 +50068,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89639},
+														pos:        position{line: 2813, col: 13, offset: 89669},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49794,7 +50079,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 57, offset: 80358},
+										pos:  position{line: 2488, col: 57, offset: 80388},
 										name: "PassthroughMacro",
 									},
 								},
@@ -49806,16 +50091,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2493, col: 1, offset: 80418},
+			pos:  position{line: 2493, col: 1, offset: 80448},
 			expr: &seqExpr{
-				pos: position{line: 2495, col: 5, offset: 80494},
+				pos: position{line: 2495, col: 5, offset: 80524},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2495, col: 5, offset: 80494},
+						pos: position{line: 2495, col: 5, offset: 80524},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2498, col: 5, offset: 80559},
+						pos:  position{line: 2498, col: 5, offset: 80589},
 						name: "QuotedText",
 					},
 				},
@@ -49823,22 +50108,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2500, col: 1, offset: 80572},
+			pos:  position{line: 2500, col: 1, offset: 80602},
 			expr: &actionExpr{
-				pos: position{line: 2502, col: 5, offset: 80654},
+				pos: position{line: 2502, col: 5, offset: 80684},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2502, col: 5, offset: 80654},
+					pos: position{line: 2502, col: 5, offset: 80684},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2502, col: 5, offset: 80654},
+							pos: position{line: 2502, col: 5, offset: 80684},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2505, col: 5, offset: 80725},
+							pos:   position{line: 2505, col: 5, offset: 80755},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2506, col: 9, offset: 80743},
+								pos:  position{line: 2506, col: 9, offset: 80773},
 								name: "Symbol",
 							},
 						},
@@ -49848,103 +50133,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2564, col: 1, offset: 82567},
+			pos:  position{line: 2564, col: 1, offset: 82597},
 			expr: &choiceExpr{
-				pos: position{line: 2566, col: 5, offset: 82597},
+				pos: position{line: 2566, col: 5, offset: 82627},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82597},
+						pos: position{line: 2566, col: 5, offset: 82627},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82597},
+							pos: position{line: 2566, col: 5, offset: 82627},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82597},
+									pos:        position{line: 2566, col: 5, offset: 82627},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2566, col: 10, offset: 82602},
+									pos: position{line: 2566, col: 10, offset: 82632},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2566, col: 10, offset: 82602},
+											pos:  position{line: 2566, col: 10, offset: 82632},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83700},
+											pos: position{line: 2595, col: 14, offset: 83730},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83700},
+												pos:        position{line: 2595, col: 14, offset: 83730},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 14, offset: 83766},
+											pos: position{line: 2599, col: 14, offset: 83796},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 14, offset: 83766},
+												pos:        position{line: 2599, col: 14, offset: 83796},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 15, offset: 83835},
+											pos: position{line: 2603, col: 15, offset: 83865},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 15, offset: 83835},
+												pos:        position{line: 2603, col: 15, offset: 83865},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 13, offset: 83900},
+											pos: position{line: 2607, col: 13, offset: 83930},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 13, offset: 83900},
+												pos:        position{line: 2607, col: 13, offset: 83930},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 21, offset: 84470},
+											pos: position{line: 2635, col: 21, offset: 84500},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 21, offset: 84470},
+												pos:        position{line: 2635, col: 21, offset: 84500},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 5, offset: 84056},
+											pos: position{line: 2614, col: 5, offset: 84086},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2614, col: 5, offset: 84056},
+												pos: position{line: 2614, col: 5, offset: 84086},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2614, col: 5, offset: 84056},
+														pos:        position{line: 2614, col: 5, offset: 84086},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2615, col: 5, offset: 84066},
+														pos: position{line: 2615, col: 5, offset: 84096},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 6, offset: 84153},
+														pos: position{line: 2619, col: 6, offset: 84183},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93691},
+																pos: position{line: 2959, col: 10, offset: 93721},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93691},
+																	pos:        position{line: 2959, col: 10, offset: 93721},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -49952,30 +50237,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2619, col: 14, offset: 84161},
+																pos: position{line: 2619, col: 14, offset: 84191},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94089},
+																	pos: position{line: 2981, col: 8, offset: 94119},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93862},
+																			pos: position{line: 2968, col: 12, offset: 93892},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93863},
+																				pos: position{line: 2968, col: 13, offset: 93893},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93863},
+																						pos:        position{line: 2968, col: 13, offset: 93893},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93870},
+																						pos:        position{line: 2968, col: 20, offset: 93900},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93879},
+																						pos:        position{line: 2968, col: 29, offset: 93909},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -49984,9 +50269,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94039},
+																			pos: position{line: 2978, col: 8, offset: 94069},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94040,
+																				line: 2978, col: 9, offset: 94070,
 																			},
 																		},
 																	},
@@ -49998,53 +50283,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2624, col: 5, offset: 84281},
+											pos: position{line: 2624, col: 5, offset: 84311},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2624, col: 5, offset: 84281},
+												pos: position{line: 2624, col: 5, offset: 84311},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2624, col: 5, offset: 84281},
+														pos:        position{line: 2624, col: 5, offset: 84311},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2625, col: 5, offset: 84291},
+														pos: position{line: 2625, col: 5, offset: 84321},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2629, col: 5, offset: 84380},
+														pos: position{line: 2629, col: 5, offset: 84410},
 														expr: &choiceExpr{
-															pos: position{line: 2629, col: 7, offset: 84382},
+															pos: position{line: 2629, col: 7, offset: 84412},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2813, col: 13, offset: 89639},
+																	pos:        position{line: 2813, col: 13, offset: 89669},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93862},
+																	pos: position{line: 2968, col: 12, offset: 93892},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93863},
+																		pos: position{line: 2968, col: 13, offset: 93893},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93863},
+																				pos:        position{line: 2968, col: 13, offset: 93893},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93870},
+																				pos:        position{line: 2968, col: 20, offset: 93900},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93879},
+																				pos:        position{line: 2968, col: 29, offset: 93909},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50053,9 +50338,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -50065,30 +50350,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 20, offset: 84540},
+											pos: position{line: 2639, col: 20, offset: 84570},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 20, offset: 84540},
+												pos:        position{line: 2639, col: 20, offset: 84570},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 21, offset: 84611},
+											pos: position{line: 2643, col: 21, offset: 84641},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 21, offset: 84611},
+												pos:        position{line: 2643, col: 21, offset: 84641},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 20, offset: 84681},
+											pos: position{line: 2647, col: 20, offset: 84711},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 20, offset: 84681},
+												pos:        position{line: 2647, col: 20, offset: 84711},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50100,73 +50385,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2570, col: 7, offset: 82851},
+						pos:  position{line: 2570, col: 7, offset: 82881},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83700},
+						pos: position{line: 2595, col: 14, offset: 83730},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83700},
+							pos:        position{line: 2595, col: 14, offset: 83730},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 14, offset: 83766},
+						pos: position{line: 2599, col: 14, offset: 83796},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 14, offset: 83766},
+							pos:        position{line: 2599, col: 14, offset: 83796},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 15, offset: 83835},
+						pos: position{line: 2603, col: 15, offset: 83865},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 15, offset: 83835},
+							pos:        position{line: 2603, col: 15, offset: 83865},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 13, offset: 83900},
+						pos: position{line: 2607, col: 13, offset: 83930},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 13, offset: 83900},
+							pos:        position{line: 2607, col: 13, offset: 83930},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 5, offset: 84056},
+						pos: position{line: 2614, col: 5, offset: 84086},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2614, col: 5, offset: 84056},
+							pos: position{line: 2614, col: 5, offset: 84086},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2614, col: 5, offset: 84056},
+									pos:        position{line: 2614, col: 5, offset: 84086},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2615, col: 5, offset: 84066},
+									pos: position{line: 2615, col: 5, offset: 84096},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2619, col: 6, offset: 84153},
+									pos: position{line: 2619, col: 6, offset: 84183},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93691},
+											pos: position{line: 2959, col: 10, offset: 93721},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93691},
+												pos:        position{line: 2959, col: 10, offset: 93721},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50174,30 +50459,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2619, col: 14, offset: 84161},
+											pos: position{line: 2619, col: 14, offset: 84191},
 											expr: &choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94089},
+												pos: position{line: 2981, col: 8, offset: 94119},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93862},
+														pos: position{line: 2968, col: 12, offset: 93892},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93863},
+															pos: position{line: 2968, col: 13, offset: 93893},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93863},
+																	pos:        position{line: 2968, col: 13, offset: 93893},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93870},
+																	pos:        position{line: 2968, col: 20, offset: 93900},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93879},
+																	pos:        position{line: 2968, col: 29, offset: 93909},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50206,9 +50491,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94039},
+														pos: position{line: 2978, col: 8, offset: 94069},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94040,
+															line: 2978, col: 9, offset: 94070,
 														},
 													},
 												},
@@ -50220,53 +50505,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2624, col: 5, offset: 84281},
+						pos: position{line: 2624, col: 5, offset: 84311},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2624, col: 5, offset: 84281},
+							pos: position{line: 2624, col: 5, offset: 84311},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2624, col: 5, offset: 84281},
+									pos:        position{line: 2624, col: 5, offset: 84311},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2625, col: 5, offset: 84291},
+									pos: position{line: 2625, col: 5, offset: 84321},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2629, col: 5, offset: 84380},
+									pos: position{line: 2629, col: 5, offset: 84410},
 									expr: &choiceExpr{
-										pos: position{line: 2629, col: 7, offset: 84382},
+										pos: position{line: 2629, col: 7, offset: 84412},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89639},
+												pos:        position{line: 2813, col: 13, offset: 89669},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93862},
+												pos: position{line: 2968, col: 12, offset: 93892},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93863},
+													pos: position{line: 2968, col: 13, offset: 93893},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93863},
+															pos:        position{line: 2968, col: 13, offset: 93893},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93870},
+															pos:        position{line: 2968, col: 20, offset: 93900},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93879},
+															pos:        position{line: 2968, col: 29, offset: 93909},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50275,9 +50560,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94039},
+												pos: position{line: 2978, col: 8, offset: 94069},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94040,
+													line: 2978, col: 9, offset: 94070,
 												},
 											},
 										},
@@ -50287,40 +50572,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 21, offset: 84470},
+						pos: position{line: 2635, col: 21, offset: 84500},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 21, offset: 84470},
+							pos:        position{line: 2635, col: 21, offset: 84500},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 20, offset: 84540},
+						pos: position{line: 2639, col: 20, offset: 84570},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 20, offset: 84540},
+							pos:        position{line: 2639, col: 20, offset: 84570},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 21, offset: 84611},
+						pos: position{line: 2643, col: 21, offset: 84641},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 21, offset: 84611},
+							pos:        position{line: 2643, col: 21, offset: 84641},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 20, offset: 84681},
+						pos: position{line: 2647, col: 20, offset: 84711},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 20, offset: 84681},
+							pos:        position{line: 2647, col: 20, offset: 84711},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50331,43 +50616,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2581, col: 1, offset: 83041},
+			pos:  position{line: 2581, col: 1, offset: 83071},
 			expr: &choiceExpr{
-				pos: position{line: 2582, col: 5, offset: 83063},
+				pos: position{line: 2582, col: 5, offset: 83093},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 83063},
+						pos: position{line: 2582, col: 5, offset: 83093},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 83063},
+							pos: position{line: 2582, col: 5, offset: 83093},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 83063},
+									pos:        position{line: 2582, col: 5, offset: 83093},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2582, col: 11, offset: 83069},
+									pos: position{line: 2582, col: 11, offset: 83099},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68726},
+										pos: position{line: 2127, col: 5, offset: 68756},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68726},
+												pos:        position{line: 2127, col: 5, offset: 68756},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68735},
+												pos: position{line: 2128, col: 5, offset: 68765},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68858},
+												pos: position{line: 2132, col: 5, offset: 68888},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68860},
+													pos: position{line: 2132, col: 7, offset: 68890},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68861},
+														pos:        position{line: 2132, col: 8, offset: 68891},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50381,21 +50666,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 7, offset: 83222},
+						pos: position{line: 2585, col: 7, offset: 83252},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2585, col: 7, offset: 83222},
+							pos: position{line: 2585, col: 7, offset: 83252},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2585, col: 7, offset: 83222},
+									pos:        position{line: 2585, col: 7, offset: 83252},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2585, col: 13, offset: 83228},
+									pos: position{line: 2585, col: 13, offset: 83258},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2585, col: 14, offset: 83229},
+										pos:  position{line: 2585, col: 14, offset: 83259},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50403,38 +50688,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 7, offset: 83379},
+						pos: position{line: 2588, col: 7, offset: 83409},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2588, col: 7, offset: 83379},
+							pos: position{line: 2588, col: 7, offset: 83409},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2588, col: 7, offset: 83379},
+									pos:        position{line: 2588, col: 7, offset: 83409},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2588, col: 12, offset: 83384},
+									pos: position{line: 2588, col: 12, offset: 83414},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68726},
+										pos: position{line: 2127, col: 5, offset: 68756},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68726},
+												pos:        position{line: 2127, col: 5, offset: 68756},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68735},
+												pos: position{line: 2128, col: 5, offset: 68765},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68858},
+												pos: position{line: 2132, col: 5, offset: 68888},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68860},
+													pos: position{line: 2132, col: 7, offset: 68890},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68861},
+														pos:        position{line: 2132, col: 8, offset: 68891},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50448,21 +50733,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 7, offset: 83537},
+						pos: position{line: 2591, col: 7, offset: 83567},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 7, offset: 83537},
+							pos: position{line: 2591, col: 7, offset: 83567},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 7, offset: 83537},
+									pos:        position{line: 2591, col: 7, offset: 83567},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2591, col: 12, offset: 83542},
+									pos: position{line: 2591, col: 12, offset: 83572},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2591, col: 13, offset: 83543},
+										pos:  position{line: 2591, col: 13, offset: 83573},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50474,63 +50759,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2724, col: 1, offset: 86583},
+			pos:  position{line: 2724, col: 1, offset: 86613},
 			expr: &actionExpr{
-				pos: position{line: 2724, col: 26, offset: 86608},
+				pos: position{line: 2724, col: 26, offset: 86638},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2724, col: 26, offset: 86608},
+					pos: position{line: 2724, col: 26, offset: 86638},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2724, col: 26, offset: 86608},
+							pos:   position{line: 2724, col: 26, offset: 86638},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2724, col: 31, offset: 86613},
+								pos: position{line: 2724, col: 31, offset: 86643},
 								expr: &actionExpr{
-									pos: position{line: 2729, col: 5, offset: 86676},
+									pos: position{line: 2729, col: 5, offset: 86706},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2729, col: 5, offset: 86676},
+										pos: position{line: 2729, col: 5, offset: 86706},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94025},
+												pos: position{line: 2976, col: 11, offset: 94055},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94027,
+													line: 2976, col: 13, offset: 94057,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86802},
+												pos:   position{line: 2732, col: 5, offset: 86832},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 16, offset: 86813},
+													pos: position{line: 2732, col: 16, offset: 86843},
 													expr: &actionExpr{
-														pos: position{line: 2732, col: 17, offset: 86814},
+														pos: position{line: 2732, col: 17, offset: 86844},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2732, col: 17, offset: 86814},
+															pos: position{line: 2732, col: 17, offset: 86844},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2732, col: 17, offset: 86814},
+																	pos:   position{line: 2732, col: 17, offset: 86844},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93518},
+																		pos: position{line: 2951, col: 12, offset: 93548},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93519},
+																			pos: position{line: 2951, col: 13, offset: 93549},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93519},
+																					pos: position{line: 2951, col: 13, offset: 93549},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93519},
+																						pos:        position{line: 2951, col: 13, offset: 93549},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93524},
+																					pos: position{line: 2951, col: 18, offset: 93554},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93524},
+																						pos:        position{line: 2951, col: 18, offset: 93554},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50542,7 +50827,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2732, col: 27, offset: 86824},
+																	pos:        position{line: 2732, col: 27, offset: 86854},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50553,38 +50838,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2733, col: 5, offset: 86852},
+												pos:   position{line: 2733, col: 5, offset: 86882},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2733, col: 12, offset: 86859},
+													pos: position{line: 2733, col: 12, offset: 86889},
 													expr: &choiceExpr{
-														pos: position{line: 2734, col: 9, offset: 86869},
+														pos: position{line: 2734, col: 9, offset: 86899},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2734, col: 9, offset: 86869},
+																pos: position{line: 2734, col: 9, offset: 86899},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 9, offset: 86869},
+																	pos:        position{line: 2734, col: 9, offset: 86899},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2735, col: 11, offset: 86916},
+																pos: position{line: 2735, col: 11, offset: 86946},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 11, offset: 86916},
+																	pos:        position{line: 2735, col: 11, offset: 86946},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 11, offset: 86964},
+																pos: position{line: 2736, col: 11, offset: 86994},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 11, offset: 86964},
+																	pos:        position{line: 2736, col: 11, offset: 86994},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50595,38 +50880,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2738, col: 5, offset: 87014},
+												pos:   position{line: 2738, col: 5, offset: 87044},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2738, col: 12, offset: 87021},
+													pos: position{line: 2738, col: 12, offset: 87051},
 													expr: &choiceExpr{
-														pos: position{line: 2739, col: 9, offset: 87031},
+														pos: position{line: 2739, col: 9, offset: 87061},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2739, col: 9, offset: 87031},
+																pos: position{line: 2739, col: 9, offset: 87061},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 9, offset: 87031},
+																	pos:        position{line: 2739, col: 9, offset: 87061},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87078},
+																pos: position{line: 2740, col: 11, offset: 87108},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87078},
+																	pos:        position{line: 2740, col: 11, offset: 87108},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2741, col: 11, offset: 87128},
+																pos: position{line: 2741, col: 11, offset: 87158},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2741, col: 11, offset: 87128},
+																	pos:        position{line: 2741, col: 11, offset: 87158},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50637,32 +50922,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2743, col: 5, offset: 87179},
+												pos:   position{line: 2743, col: 5, offset: 87209},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2743, col: 12, offset: 87186},
+													pos: position{line: 2743, col: 12, offset: 87216},
 													expr: &choiceExpr{
-														pos: position{line: 2743, col: 13, offset: 87187},
+														pos: position{line: 2743, col: 13, offset: 87217},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93518},
+																pos: position{line: 2951, col: 12, offset: 93548},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93519},
+																	pos: position{line: 2951, col: 13, offset: 93549},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93519},
+																			pos: position{line: 2951, col: 13, offset: 93549},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93519},
+																				pos:        position{line: 2951, col: 13, offset: 93549},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93524},
+																			pos: position{line: 2951, col: 18, offset: 93554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93524},
+																				pos:        position{line: 2951, col: 18, offset: 93554},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50673,10 +50958,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 24, offset: 87198},
+																pos: position{line: 2743, col: 24, offset: 87228},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 24, offset: 87198},
+																	pos:        position{line: 2743, col: 24, offset: 87228},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50687,15 +50972,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2744, col: 5, offset: 87240},
+												pos:   position{line: 2744, col: 5, offset: 87270},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2744, col: 11, offset: 87246},
+													pos: position{line: 2744, col: 11, offset: 87276},
 													expr: &actionExpr{
-														pos: position{line: 2744, col: 12, offset: 87247},
+														pos: position{line: 2744, col: 12, offset: 87277},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2744, col: 12, offset: 87247},
+															pos:        position{line: 2744, col: 12, offset: 87277},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50705,12 +50990,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87377},
+												pos:   position{line: 2746, col: 5, offset: 87407},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 11, offset: 87383},
+													pos: position{line: 2746, col: 11, offset: 87413},
 													expr: &litMatcher{
-														pos:        position{line: 2746, col: 12, offset: 87384},
+														pos:        position{line: 2746, col: 12, offset: 87414},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -50718,7 +51003,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2747, col: 5, offset: 87394},
+												pos: position{line: 2747, col: 5, offset: 87424},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -50727,9 +51012,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94039},
+							pos: position{line: 2978, col: 8, offset: 94069},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94040,
+								line: 2978, col: 9, offset: 94070,
 							},
 						},
 					},
@@ -50738,23 +51023,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2774, col: 1, offset: 88403},
+			pos:  position{line: 2774, col: 1, offset: 88433},
 			expr: &actionExpr{
-				pos: position{line: 2775, col: 5, offset: 88426},
+				pos: position{line: 2775, col: 5, offset: 88456},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2775, col: 5, offset: 88426},
+					pos: position{line: 2775, col: 5, offset: 88456},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88426},
+							pos:   position{line: 2775, col: 5, offset: 88456},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89172},
+								pos: position{line: 2798, col: 18, offset: 89202},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89173},
+									pos: position{line: 2798, col: 19, offset: 89203},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89173},
+										pos:        position{line: 2798, col: 19, offset: 89203},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50765,39 +51050,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2776, col: 5, offset: 88452},
+							pos: position{line: 2776, col: 5, offset: 88482},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2780, col: 5, offset: 88580},
+							pos:        position{line: 2780, col: 5, offset: 88610},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2781, col: 5, offset: 88590},
+							pos:   position{line: 2781, col: 5, offset: 88620},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 24, offset: 89334},
+								pos: position{line: 2806, col: 24, offset: 89364},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2806, col: 24, offset: 89334},
+									pos: position{line: 2806, col: 24, offset: 89364},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 25, offset: 89335},
+										pos: position{line: 2806, col: 25, offset: 89365},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2806, col: 25, offset: 89335},
+												pos: position{line: 2806, col: 25, offset: 89365},
 												expr: &litMatcher{
-													pos:        position{line: 2806, col: 26, offset: 89336},
+													pos:        position{line: 2806, col: 26, offset: 89366},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2806, col: 30, offset: 89340},
+												pos: position{line: 2806, col: 30, offset: 89370},
 												expr: &charClassMatcher{
-													pos:        position{line: 2806, col: 30, offset: 89340},
+													pos:        position{line: 2806, col: 30, offset: 89370},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50805,23 +51090,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2806, col: 41, offset: 89351},
+												pos: position{line: 2806, col: 41, offset: 89381},
 												expr: &seqExpr{
-													pos: position{line: 2806, col: 42, offset: 89352},
+													pos: position{line: 2806, col: 42, offset: 89382},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 42, offset: 89352},
+															pos: position{line: 2806, col: 42, offset: 89382},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 42, offset: 89352},
+																pos:        position{line: 2806, col: 42, offset: 89382},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 47, offset: 89357},
+															pos: position{line: 2806, col: 47, offset: 89387},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 47, offset: 89357},
+																pos:        position{line: 2806, col: 47, offset: 89387},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -50837,36 +51122,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2782, col: 5, offset: 88623},
+							pos:   position{line: 2782, col: 5, offset: 88653},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2782, col: 17, offset: 88635},
+								pos:  position{line: 2782, col: 17, offset: 88665},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94089},
+							pos: position{line: 2981, col: 8, offset: 94119},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93862},
+									pos: position{line: 2968, col: 12, offset: 93892},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93863},
+										pos: position{line: 2968, col: 13, offset: 93893},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93863},
+												pos:        position{line: 2968, col: 13, offset: 93893},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93870},
+												pos:        position{line: 2968, col: 20, offset: 93900},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93879},
+												pos:        position{line: 2968, col: 29, offset: 93909},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -50875,9 +51160,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94039},
+									pos: position{line: 2978, col: 8, offset: 94069},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94040,
+										line: 2978, col: 9, offset: 94070,
 									},
 								},
 							},
@@ -50888,23 +51173,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2786, col: 1, offset: 88783},
+			pos:  position{line: 2786, col: 1, offset: 88813},
 			expr: &actionExpr{
-				pos: position{line: 2787, col: 5, offset: 88807},
+				pos: position{line: 2787, col: 5, offset: 88837},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2787, col: 5, offset: 88807},
+					pos: position{line: 2787, col: 5, offset: 88837},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2787, col: 5, offset: 88807},
+							pos:   position{line: 2787, col: 5, offset: 88837},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89172},
+								pos: position{line: 2798, col: 18, offset: 89202},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89173},
+									pos: position{line: 2798, col: 19, offset: 89203},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89173},
+										pos:        position{line: 2798, col: 19, offset: 89203},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -50915,39 +51200,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2788, col: 5, offset: 88833},
+							pos: position{line: 2788, col: 5, offset: 88863},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2792, col: 5, offset: 88961},
+							pos:        position{line: 2792, col: 5, offset: 88991},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2793, col: 5, offset: 88970},
+							pos:   position{line: 2793, col: 5, offset: 89000},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 19, offset: 89248},
+								pos: position{line: 2802, col: 19, offset: 89278},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2802, col: 19, offset: 89248},
+									pos: position{line: 2802, col: 19, offset: 89278},
 									expr: &seqExpr{
-										pos: position{line: 2802, col: 20, offset: 89249},
+										pos: position{line: 2802, col: 20, offset: 89279},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2802, col: 20, offset: 89249},
+												pos: position{line: 2802, col: 20, offset: 89279},
 												expr: &litMatcher{
-													pos:        position{line: 2802, col: 21, offset: 89250},
+													pos:        position{line: 2802, col: 21, offset: 89280},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2802, col: 25, offset: 89254},
+												pos: position{line: 2802, col: 25, offset: 89284},
 												expr: &charClassMatcher{
-													pos:        position{line: 2802, col: 25, offset: 89254},
+													pos:        position{line: 2802, col: 25, offset: 89284},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -50960,10 +51245,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2794, col: 5, offset: 88998},
+							pos:   position{line: 2794, col: 5, offset: 89028},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2794, col: 17, offset: 89010},
+								pos:  position{line: 2794, col: 17, offset: 89040},
 								name: "InlineAttributes",
 							},
 						},
@@ -50973,43 +51258,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2886, col: 1, offset: 91499},
+			pos:  position{line: 2886, col: 1, offset: 91529},
 			expr: &actionExpr{
-				pos: position{line: 2886, col: 17, offset: 91515},
+				pos: position{line: 2886, col: 17, offset: 91545},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2886, col: 17, offset: 91515},
+					pos:   position{line: 2886, col: 17, offset: 91545},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2907, col: 5, offset: 92100},
+						pos: position{line: 2907, col: 5, offset: 92130},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2907, col: 5, offset: 92100},
+							pos:   position{line: 2907, col: 5, offset: 92130},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2907, col: 14, offset: 92109},
+								pos: position{line: 2907, col: 14, offset: 92139},
 								expr: &choiceExpr{
-									pos: position{line: 2908, col: 9, offset: 92119},
+									pos: position{line: 2908, col: 9, offset: 92149},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2908, col: 9, offset: 92119},
+											pos: position{line: 2908, col: 9, offset: 92149},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2908, col: 9, offset: 92119},
+												pos: position{line: 2908, col: 9, offset: 92149},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2908, col: 9, offset: 92119},
+														pos: position{line: 2908, col: 9, offset: 92149},
 														expr: &litMatcher{
-															pos:        position{line: 2908, col: 10, offset: 92120},
+															pos:        position{line: 2908, col: 10, offset: 92150},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2909, col: 9, offset: 92148},
+														pos: position{line: 2909, col: 9, offset: 92178},
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 92149},
+															pos:        position{line: 2909, col: 10, offset: 92179},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51020,27 +51305,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2912, col: 11, offset: 92361},
+											pos: position{line: 2912, col: 11, offset: 92391},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2912, col: 11, offset: 92361},
+													pos:        position{line: 2912, col: 11, offset: 92391},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2912, col: 19, offset: 92369},
+													pos: position{line: 2912, col: 19, offset: 92399},
 													expr: &seqExpr{
-														pos: position{line: 2912, col: 21, offset: 92371},
+														pos: position{line: 2912, col: 21, offset: 92401},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2912, col: 21, offset: 92371},
+																pos: position{line: 2912, col: 21, offset: 92401},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93691},
+																	pos: position{line: 2959, col: 10, offset: 93721},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93691},
+																		pos:        position{line: 2959, col: 10, offset: 93721},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51049,11 +51334,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2912, col: 28, offset: 92378},
+																pos: position{line: 2912, col: 28, offset: 92408},
 																expr: &notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94039},
+																	pos: position{line: 2978, col: 8, offset: 94069},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94040,
+																		line: 2978, col: 9, offset: 94070,
 																	},
 																},
 															},
@@ -51448,10 +51733,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2915, col: 11, offset: 92498},
+											pos: position{line: 2915, col: 11, offset: 92528},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2915, col: 11, offset: 92498},
+												pos:        position{line: 2915, col: 11, offset: 92528},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -71595,6 +71880,18 @@ func (p *parser) callonListContinuationElement1589() (bool, error) {
 	return p.cur.onListContinuationElement1589()
 }
 
+func (c *current) onListContinuationElement1595() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1595() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1595()
+}
+
 func (c *current) onListContinuationElement1592() (interface{}, error) {
 	return types.Tip, nil
 
@@ -71606,95 +71903,143 @@ func (p *parser) callonListContinuationElement1592() (interface{}, error) {
 	return p.cur.onListContinuationElement1592()
 }
 
-func (c *current) onListContinuationElement1594() (interface{}, error) {
+func (c *current) onListContinuationElement1601() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1601() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1601()
+}
+
+func (c *current) onListContinuationElement1598() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1598() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594()
+	return p.cur.onListContinuationElement1598()
+}
+
+func (c *current) onListContinuationElement1607() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1607()
+}
+
+func (c *current) onListContinuationElement1604() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1604()
 }
 
-func (c *current) onListContinuationElement1598() (interface{}, error) {
+func (c *current) onListContinuationElement1613() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1613() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1613()
+}
+
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1598() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1598()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1600() (interface{}, error) {
+func (c *current) onListContinuationElement1619() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1619() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1619()
+}
+
+func (c *current) onListContinuationElement1616() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1600() (interface{}, error) {
+func (p *parser) callonListContinuationElement1616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1600()
+	return p.cur.onListContinuationElement1616()
 }
 
-func (c *current) onListContinuationElement1604() (interface{}, error) {
+func (c *current) onListContinuationElement1624() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1604() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1604()
+	return p.cur.onListContinuationElement1624()
 }
 
-func (c *current) onListContinuationElement1602() (interface{}, error) {
+func (c *current) onListContinuationElement1622() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+func (p *parser) callonListContinuationElement1622() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1602()
+	return p.cur.onListContinuationElement1622()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1630() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1630()
 }
 
-func (c *current) onListContinuationElement1613() (interface{}, error) {
+func (c *current) onListContinuationElement1633() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1613() (interface{}, error) {
+func (p *parser) callonListContinuationElement1633() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1613()
+	return p.cur.onListContinuationElement1633()
 }
 
 func (c *current) onListContinuationElement1587(style interface{}) (interface{}, error) {
@@ -71708,102 +72053,102 @@ func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	return p.cur.onListContinuationElement1587(stack["style"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1649() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1649() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1649()
 }
 
-func (c *current) onListContinuationElement1632() (interface{}, error) {
+func (c *current) onListContinuationElement1652() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1632() (interface{}, error) {
+func (p *parser) callonListContinuationElement1652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1632()
+	return p.cur.onListContinuationElement1652()
 }
 
-func (c *current) onListContinuationElement1624() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1643() (interface{}, error) {
+func (c *current) onListContinuationElement1663() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1643() (interface{}, error) {
+func (p *parser) callonListContinuationElement1663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1643()
+	return p.cur.onListContinuationElement1663()
 }
 
-func (c *current) onListContinuationElement1645() (interface{}, error) {
+func (c *current) onListContinuationElement1665() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1645() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1645()
+	return p.cur.onListContinuationElement1665()
 }
 
-func (c *current) onListContinuationElement1654() (interface{}, error) {
+func (c *current) onListContinuationElement1674() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1654() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1654()
+	return p.cur.onListContinuationElement1674()
 }
 
-func (c *current) onListContinuationElement1661() (interface{}, error) {
+func (c *current) onListContinuationElement1681() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1664(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1684(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1664() (bool, error) {
+func (p *parser) callonListContinuationElement1684() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664(stack["depth"])
+	return p.cur.onListContinuationElement1684(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1658(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1678(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -71819,838 +72164,838 @@ func (c *current) onListContinuationElement1658(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1658() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1658(stack["depth"])
+	return p.cur.onListContinuationElement1678(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1665() (interface{}, error) {
+func (c *current) onListContinuationElement1685() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1665() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1665()
+	return p.cur.onListContinuationElement1685()
 }
 
-func (c *current) onListContinuationElement1670() (interface{}, error) {
+func (c *current) onListContinuationElement1690() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1670() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1670()
+	return p.cur.onListContinuationElement1690()
 }
 
-func (c *current) onListContinuationElement1674() (interface{}, error) {
+func (c *current) onListContinuationElement1694() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1674() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1674()
+	return p.cur.onListContinuationElement1694()
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1683() (interface{}, error) {
+func (c *current) onListContinuationElement1703() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1683() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1683()
+	return p.cur.onListContinuationElement1703()
 }
 
-func (c *current) onListContinuationElement1688(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1708(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1708() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688(stack["prefix"])
+	return p.cur.onListContinuationElement1708(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1651(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1671(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651(stack["prefix"])
+	return p.cur.onListContinuationElement1671(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1695() (interface{}, error) {
+func (c *current) onListContinuationElement1715() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695()
+	return p.cur.onListContinuationElement1715()
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1718() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1718()
 }
 
-func (c *current) onListContinuationElement1703(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1723(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1703() (bool, error) {
+func (p *parser) callonListContinuationElement1723() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1703(stack["style"])
+	return p.cur.onListContinuationElement1723(stack["style"])
 }
 
-func (c *current) onListContinuationElement1704(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1724(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1704() (interface{}, error) {
+func (p *parser) callonListContinuationElement1724() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1704(stack["style"])
+	return p.cur.onListContinuationElement1724(stack["style"])
 }
 
-func (c *current) onListContinuationElement1692(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1712(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692(stack["style"])
+	return p.cur.onListContinuationElement1712(stack["style"])
 }
 
-func (c *current) onListContinuationElement1712() (interface{}, error) {
+func (c *current) onListContinuationElement1732() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1712() (interface{}, error) {
+func (p *parser) callonListContinuationElement1732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712()
+	return p.cur.onListContinuationElement1732()
 }
 
-func (c *current) onListContinuationElement1716(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1736(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1716() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1716(stack["ref"])
+	return p.cur.onListContinuationElement1736(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1708(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1728(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1708() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1708(stack["ref"])
+	return p.cur.onListContinuationElement1728(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1728() (interface{}, error) {
+func (c *current) onListContinuationElement1748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728()
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1731(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1751(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (bool, error) {
+func (p *parser) callonListContinuationElement1751() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731(stack["separator"])
+	return p.cur.onListContinuationElement1751(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1725(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1745(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725(stack["separator"])
+	return p.cur.onListContinuationElement1745(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1734() (interface{}, error) {
+func (c *current) onListContinuationElement1754() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1734() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1721() (interface{}, error) {
+func (c *current) onListContinuationElement1741() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1721() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1721()
+	return p.cur.onListContinuationElement1741()
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1765() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1765()
 }
 
-func (c *current) onListContinuationElement1748(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1768(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (bool, error) {
+func (p *parser) callonListContinuationElement1768() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748(stack["separator"])
+	return p.cur.onListContinuationElement1768(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1742(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1762(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742(stack["separator"])
+	return p.cur.onListContinuationElement1762(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1750() (interface{}, error) {
+func (c *current) onListContinuationElement1770() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1750() (interface{}, error) {
+func (p *parser) callonListContinuationElement1770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1750()
+	return p.cur.onListContinuationElement1770()
 }
 
-func (c *current) onListContinuationElement1752() (interface{}, error) {
+func (c *current) onListContinuationElement1772() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1752() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1752()
+	return p.cur.onListContinuationElement1772()
 }
 
-func (c *current) onListContinuationElement1770() (interface{}, error) {
+func (c *current) onListContinuationElement1790() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1770() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1770()
+	return p.cur.onListContinuationElement1790()
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1796() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1796()
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1799() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1799()
 }
 
-func (c *current) onListContinuationElement1767(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1787(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767(stack["delimiter"])
+	return p.cur.onListContinuationElement1787(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1789() (interface{}, error) {
+func (c *current) onListContinuationElement1809() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1789() (interface{}, error) {
+func (p *parser) callonListContinuationElement1809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1789()
+	return p.cur.onListContinuationElement1809()
 }
 
-func (c *current) onListContinuationElement1795() (interface{}, error) {
+func (c *current) onListContinuationElement1815() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1815() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795()
+	return p.cur.onListContinuationElement1815()
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1818() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1818() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1818()
 }
 
-func (c *current) onListContinuationElement1786(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1806(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1786() (interface{}, error) {
+func (p *parser) callonListContinuationElement1806() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1786(stack["delimiter"])
+	return p.cur.onListContinuationElement1806(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1809() (interface{}, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1809() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1809()
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1833() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813()
+	return p.cur.onListContinuationElement1833()
 }
 
-func (c *current) onListContinuationElement1816() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1816() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1816()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1805(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1825(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1805() (interface{}, error) {
+func (p *parser) callonListContinuationElement1825() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1805(stack["language"])
+	return p.cur.onListContinuationElement1825(stack["language"])
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1846() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1846()
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
+func (c *current) onListContinuationElement1852() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1852()
 }
 
-func (c *current) onListContinuationElement1835() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1835() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1835()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1843(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1843() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823(stack["delimiter"])
+	return p.cur.onListContinuationElement1843(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1865() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1865()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1871() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1871()
 }
 
-func (c *current) onListContinuationElement1854() (interface{}, error) {
+func (c *current) onListContinuationElement1874() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1854() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1854()
+	return p.cur.onListContinuationElement1874()
 }
 
-func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1862(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1862() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842(stack["delimiter"])
+	return p.cur.onListContinuationElement1862(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1884() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1884()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
+func (c *current) onListContinuationElement1890() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonListContinuationElement1890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onListContinuationElement1890()
 }
 
-func (c *current) onListContinuationElement1873() (interface{}, error) {
+func (c *current) onListContinuationElement1893() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1873()
+	return p.cur.onListContinuationElement1893()
 }
 
-func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1881(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861(stack["delimiter"])
+	return p.cur.onListContinuationElement1881(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1903() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1903()
 }
 
-func (c *current) onListContinuationElement1889() (interface{}, error) {
+func (c *current) onListContinuationElement1909() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1889() (interface{}, error) {
+func (p *parser) callonListContinuationElement1909() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1889()
+	return p.cur.onListContinuationElement1909()
 }
 
-func (c *current) onListContinuationElement1892() (interface{}, error) {
+func (c *current) onListContinuationElement1912() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1892() (interface{}, error) {
+func (p *parser) callonListContinuationElement1912() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1892()
+	return p.cur.onListContinuationElement1912()
 }
 
-func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1900(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880(stack["delimiter"])
+	return p.cur.onListContinuationElement1900(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1902() (interface{}, error) {
+func (c *current) onListContinuationElement1922() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1902() (interface{}, error) {
+func (p *parser) callonListContinuationElement1922() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1902()
+	return p.cur.onListContinuationElement1922()
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onListContinuationElement1928() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonListContinuationElement1928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onListContinuationElement1928()
 }
 
-func (c *current) onListContinuationElement1911() (interface{}, error) {
+func (c *current) onListContinuationElement1931() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1911() (interface{}, error) {
+func (p *parser) callonListContinuationElement1931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1911()
+	return p.cur.onListContinuationElement1931()
 }
 
-func (c *current) onListContinuationElement1899(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1919(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+func (p *parser) callonListContinuationElement1919() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1899(stack["delimiter"])
+	return p.cur.onListContinuationElement1919(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1921() (interface{}, error) {
+func (c *current) onListContinuationElement1941() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1921() (interface{}, error) {
+func (p *parser) callonListContinuationElement1941() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1921()
+	return p.cur.onListContinuationElement1941()
 }
 
-func (c *current) onListContinuationElement1927() (interface{}, error) {
+func (c *current) onListContinuationElement1947() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1927() (interface{}, error) {
+func (p *parser) callonListContinuationElement1947() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1927()
+	return p.cur.onListContinuationElement1947()
 }
 
-func (c *current) onListContinuationElement1930() (interface{}, error) {
+func (c *current) onListContinuationElement1950() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1930() (interface{}, error) {
+func (p *parser) callonListContinuationElement1950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1930()
+	return p.cur.onListContinuationElement1950()
 }
 
-func (c *current) onListContinuationElement1918(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1938(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1918() (interface{}, error) {
+func (p *parser) callonListContinuationElement1938() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1918(stack["delimiter"])
+	return p.cur.onListContinuationElement1938(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1761(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1781(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1761() (interface{}, error) {
+func (p *parser) callonListContinuationElement1781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1761(stack["delimiter"])
+	return p.cur.onListContinuationElement1781(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1940() (interface{}, error) {
+func (c *current) onListContinuationElement1960() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1940() (interface{}, error) {
+func (p *parser) callonListContinuationElement1960() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1940()
+	return p.cur.onListContinuationElement1960()
 }
 
-func (c *current) onListContinuationElement1943() (interface{}, error) {
+func (c *current) onListContinuationElement1963() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1943() (interface{}, error) {
+func (p *parser) callonListContinuationElement1963() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1943()
+	return p.cur.onListContinuationElement1963()
 }
 
-func (c *current) onListContinuationElement1946() (interface{}, error) {
+func (c *current) onListContinuationElement1966() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1946() (interface{}, error) {
+func (p *parser) callonListContinuationElement1966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1946()
+	return p.cur.onListContinuationElement1966()
 }
 
-func (c *current) onListContinuationElement1937(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1957(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1937() (interface{}, error) {
+func (p *parser) callonListContinuationElement1957() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1937(stack["delimiter"])
+	return p.cur.onListContinuationElement1957(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1956() (interface{}, error) {
+func (c *current) onListContinuationElement1976() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1956() (interface{}, error) {
+func (p *parser) callonListContinuationElement1976() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1956()
+	return p.cur.onListContinuationElement1976()
 }
 
-func (c *current) onListContinuationElement1959() (interface{}, error) {
+func (c *current) onListContinuationElement1979() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1959() (interface{}, error) {
+func (p *parser) callonListContinuationElement1979() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1959()
+	return p.cur.onListContinuationElement1979()
 }
 
-func (c *current) onListContinuationElement1967() (interface{}, error) {
+func (c *current) onListContinuationElement1987() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1967() (interface{}, error) {
+func (p *parser) callonListContinuationElement1987() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1967()
+	return p.cur.onListContinuationElement1987()
 }
 
-func (c *current) onListContinuationElement1971() (interface{}, error) {
+func (c *current) onListContinuationElement1991() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1971() (interface{}, error) {
+func (p *parser) callonListContinuationElement1991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1971()
+	return p.cur.onListContinuationElement1991()
 }
 
-func (c *current) onListContinuationElement1621(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1641(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1621() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1621(stack["content"])
+	return p.cur.onListContinuationElement1641(stack["content"])
 }
 
 func (c *current) onListContinuationElement1583(style, content interface{}) (interface{}, error) {
@@ -72756,6 +73101,18 @@ func (p *parser) callonShortcutParagraph16() (bool, error) {
 	return p.cur.onShortcutParagraph16()
 }
 
+func (c *current) onShortcutParagraph22() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph22() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph22()
+}
+
 func (c *current) onShortcutParagraph19() (interface{}, error) {
 	return types.Tip, nil
 
@@ -72767,95 +73124,143 @@ func (p *parser) callonShortcutParagraph19() (interface{}, error) {
 	return p.cur.onShortcutParagraph19()
 }
 
-func (c *current) onShortcutParagraph21() (interface{}, error) {
+func (c *current) onShortcutParagraph28() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph28() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph28()
+}
+
+func (c *current) onShortcutParagraph25() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonShortcutParagraph21() (interface{}, error) {
+func (p *parser) callonShortcutParagraph25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph21()
+	return p.cur.onShortcutParagraph25()
+}
+
+func (c *current) onShortcutParagraph34() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph34() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph34()
 }
 
-func (c *current) onShortcutParagraph23() (interface{}, error) {
+func (c *current) onShortcutParagraph31() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonShortcutParagraph23() (interface{}, error) {
+func (p *parser) callonShortcutParagraph31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph23()
+	return p.cur.onShortcutParagraph31()
 }
 
-func (c *current) onShortcutParagraph25() (interface{}, error) {
+func (c *current) onShortcutParagraph40() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph40()
+}
+
+func (c *current) onShortcutParagraph37() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonShortcutParagraph25() (interface{}, error) {
+func (p *parser) callonShortcutParagraph37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph25()
+	return p.cur.onShortcutParagraph37()
+}
+
+func (c *current) onShortcutParagraph46() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
+
 }
 
-func (c *current) onShortcutParagraph27() (interface{}, error) {
+func (p *parser) callonShortcutParagraph46() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph46()
+}
+
+func (c *current) onShortcutParagraph43() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonShortcutParagraph27() (interface{}, error) {
+func (p *parser) callonShortcutParagraph43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph27()
+	return p.cur.onShortcutParagraph43()
 }
 
-func (c *current) onShortcutParagraph31() (interface{}, error) {
+func (c *current) onShortcutParagraph51() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph31() (interface{}, error) {
+func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph31()
+	return p.cur.onShortcutParagraph51()
 }
 
-func (c *current) onShortcutParagraph29() (interface{}, error) {
+func (c *current) onShortcutParagraph49() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonShortcutParagraph29() (interface{}, error) {
+func (p *parser) callonShortcutParagraph49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph29()
+	return p.cur.onShortcutParagraph49()
 }
 
-func (c *current) onShortcutParagraph37() (interface{}, error) {
+func (c *current) onShortcutParagraph57() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph37() (interface{}, error) {
+func (p *parser) callonShortcutParagraph57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph37()
+	return p.cur.onShortcutParagraph57()
 }
 
-func (c *current) onShortcutParagraph40() (interface{}, error) {
+func (c *current) onShortcutParagraph60() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+func (p *parser) callonShortcutParagraph60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph40()
+	return p.cur.onShortcutParagraph60()
 }
 
 func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
@@ -72869,52 +73274,52 @@ func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onShortcutParagraph51() (interface{}, error) {
+func (c *current) onShortcutParagraph71() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph51() (interface{}, error) {
+func (p *parser) callonShortcutParagraph71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph51()
+	return p.cur.onShortcutParagraph71()
 }
 
-func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
+func (c *current) onShortcutParagraph74(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonShortcutParagraph54() (bool, error) {
+func (p *parser) callonShortcutParagraph74() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph54(stack["content"])
+	return p.cur.onShortcutParagraph74(stack["content"])
 }
 
-func (c *current) onShortcutParagraph56() (interface{}, error) {
+func (c *current) onShortcutParagraph76() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph56() (interface{}, error) {
+func (p *parser) callonShortcutParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph56()
+	return p.cur.onShortcutParagraph76()
 }
 
-func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph68(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph48() (interface{}, error) {
+func (p *parser) callonShortcutParagraph68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph48(stack["content"])
+	return p.cur.onShortcutParagraph68(stack["content"])
 }
 
-func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
+func (c *current) onShortcutParagraph83(style, firstLine interface{}) (bool, error) {
 	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
 	//   in the middle of the line (with space afterwards)
 	//   or at the end of the line
@@ -72923,782 +73328,842 @@ func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, err
 
 }
 
-func (p *parser) callonShortcutParagraph63() (bool, error) {
+func (p *parser) callonShortcutParagraph83() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph83(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onShortcutParagraph76() (interface{}, error) {
+func (c *current) onShortcutParagraph96() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonShortcutParagraph96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76()
+	return p.cur.onShortcutParagraph96()
 }
 
-func (c *current) onShortcutParagraph79() (interface{}, error) {
+func (c *current) onShortcutParagraph99() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph79() (interface{}, error) {
+func (p *parser) callonShortcutParagraph99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph79()
+	return p.cur.onShortcutParagraph99()
 }
 
-func (c *current) onShortcutParagraph71() (interface{}, error) {
+func (c *current) onShortcutParagraph91() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph71() (interface{}, error) {
+func (p *parser) callonShortcutParagraph91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph71()
+	return p.cur.onShortcutParagraph91()
 }
 
-func (c *current) onShortcutParagraph99() (interface{}, error) {
+func (c *current) onShortcutParagraph119() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph99() (interface{}, error) {
+func (p *parser) callonShortcutParagraph119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph99()
+	return p.cur.onShortcutParagraph119()
 }
 
-func (c *current) onShortcutParagraph105() (interface{}, error) {
+func (c *current) onShortcutParagraph125() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph105() (interface{}, error) {
+func (p *parser) callonShortcutParagraph125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph105()
+	return p.cur.onShortcutParagraph125()
 }
 
-func (c *current) onShortcutParagraph108() (interface{}, error) {
+func (c *current) onShortcutParagraph128() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph108() (interface{}, error) {
+func (p *parser) callonShortcutParagraph128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph108()
+	return p.cur.onShortcutParagraph128()
 }
 
-func (c *current) onShortcutParagraph96(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph116(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph96() (interface{}, error) {
+func (p *parser) callonShortcutParagraph116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph96(stack["delimiter"])
+	return p.cur.onShortcutParagraph116(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph118() (interface{}, error) {
+func (c *current) onShortcutParagraph138() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph118() (interface{}, error) {
+func (p *parser) callonShortcutParagraph138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph118()
+	return p.cur.onShortcutParagraph138()
 }
 
-func (c *current) onShortcutParagraph124() (interface{}, error) {
+func (c *current) onShortcutParagraph144() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph124() (interface{}, error) {
+func (p *parser) callonShortcutParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph124()
+	return p.cur.onShortcutParagraph144()
 }
 
-func (c *current) onShortcutParagraph127() (interface{}, error) {
+func (c *current) onShortcutParagraph147() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph127() (interface{}, error) {
+func (p *parser) callonShortcutParagraph147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph127()
+	return p.cur.onShortcutParagraph147()
 }
 
-func (c *current) onShortcutParagraph115(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph135(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph115() (interface{}, error) {
+func (p *parser) callonShortcutParagraph135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph115(stack["delimiter"])
+	return p.cur.onShortcutParagraph135(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph138() (interface{}, error) {
+func (c *current) onShortcutParagraph158() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph138() (interface{}, error) {
+func (p *parser) callonShortcutParagraph158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph138()
+	return p.cur.onShortcutParagraph158()
 }
 
-func (c *current) onShortcutParagraph142() (interface{}, error) {
+func (c *current) onShortcutParagraph162() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph142() (interface{}, error) {
+func (p *parser) callonShortcutParagraph162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph142()
+	return p.cur.onShortcutParagraph162()
 }
 
-func (c *current) onShortcutParagraph145() (interface{}, error) {
+func (c *current) onShortcutParagraph165() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph145() (interface{}, error) {
+func (p *parser) callonShortcutParagraph165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph145()
+	return p.cur.onShortcutParagraph165()
 }
 
-func (c *current) onShortcutParagraph134(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph154(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph134() (interface{}, error) {
+func (p *parser) callonShortcutParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph134(stack["language"])
+	return p.cur.onShortcutParagraph154(stack["language"])
 }
 
-func (c *current) onShortcutParagraph155() (interface{}, error) {
+func (c *current) onShortcutParagraph175() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph155() (interface{}, error) {
+func (p *parser) callonShortcutParagraph175() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph175()
+}
+
+func (c *current) onShortcutParagraph181() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph181() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph181()
+}
+
+func (c *current) onShortcutParagraph184() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph184() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph184()
+}
+
+func (c *current) onShortcutParagraph172(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph172() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph172(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph194() (interface{}, error) {
+	// sequence of 4 "-" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph194() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph194()
+}
+
+func (c *current) onShortcutParagraph200() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph200() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph200()
+}
+
+func (c *current) onShortcutParagraph203() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph203() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph203()
+}
+
+func (c *current) onShortcutParagraph191(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph191() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph191(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph213() (interface{}, error) {
+	// sequence of 4 "." chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph213() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph213()
+}
+
+func (c *current) onShortcutParagraph219() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph219() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph219()
+}
+
+func (c *current) onShortcutParagraph222() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph222() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph222()
+}
+
+func (c *current) onShortcutParagraph210(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph210() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph210(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph232() (interface{}, error) {
+	// sequence of 4 "+" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph232() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph232()
+}
+
+func (c *current) onShortcutParagraph238() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph238() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph238()
+}
+
+func (c *current) onShortcutParagraph241() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph241() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph241()
+}
+
+func (c *current) onShortcutParagraph229(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph229() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph229(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph251() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph251() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph251()
+}
+
+func (c *current) onShortcutParagraph257() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph257() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph257()
+}
+
+func (c *current) onShortcutParagraph260() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph260() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph260()
+}
+
+func (c *current) onShortcutParagraph248(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph248() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph248(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph270() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph270() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph270()
+}
+
+func (c *current) onShortcutParagraph276() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph276() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph276()
+}
+
+func (c *current) onShortcutParagraph279() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph279() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph279()
+}
+
+func (c *current) onShortcutParagraph267(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonShortcutParagraph267() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph267(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph110(delimiter interface{}) (interface{}, error) {
+	return delimiter, nil
+
+}
+
+func (p *parser) callonShortcutParagraph110() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph110(stack["delimiter"])
+}
+
+func (c *current) onShortcutParagraph289() (interface{}, error) {
+	// sequence of exactly "--"
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph155()
+	return p.cur.onShortcutParagraph289()
 }
 
-func (c *current) onShortcutParagraph161() (interface{}, error) {
+func (c *current) onShortcutParagraph292() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph161() (interface{}, error) {
+func (p *parser) callonShortcutParagraph292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph161()
+	return p.cur.onShortcutParagraph292()
 }
 
-func (c *current) onShortcutParagraph164() (interface{}, error) {
+func (c *current) onShortcutParagraph295() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph164() (interface{}, error) {
+func (p *parser) callonShortcutParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph164()
+	return p.cur.onShortcutParagraph295()
 }
 
-func (c *current) onShortcutParagraph152(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph286(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonShortcutParagraph152() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph152(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph174() (interface{}, error) {
-	// sequence of 4 "-" chars or more
-	return string(c.text), nil
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph174() (interface{}, error) {
+func (p *parser) callonShortcutParagraph286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph174()
+	return p.cur.onShortcutParagraph286(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph180() (interface{}, error) {
+func (c *current) onShortcutParagraph305() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph180() (interface{}, error) {
+func (p *parser) callonShortcutParagraph305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph180()
+	return p.cur.onShortcutParagraph305()
 }
 
-func (c *current) onShortcutParagraph183() (interface{}, error) {
+func (c *current) onShortcutParagraph308() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph183() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph183()
-}
-
-func (c *current) onShortcutParagraph171(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonShortcutParagraph171() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph171(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph193() (interface{}, error) {
-	// sequence of 4 "." chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortcutParagraph193() (interface{}, error) {
+func (p *parser) callonShortcutParagraph308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph193()
+	return p.cur.onShortcutParagraph308()
 }
 
-func (c *current) onShortcutParagraph199() (interface{}, error) {
+func (c *current) onShortcutParagraph319() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph199() (interface{}, error) {
+func (p *parser) callonShortcutParagraph319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph199()
+	return p.cur.onShortcutParagraph319()
 }
 
-func (c *current) onShortcutParagraph202() (interface{}, error) {
+func (c *current) onShortcutParagraph321() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph202() (interface{}, error) {
+func (p *parser) callonShortcutParagraph321() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph202()
+	return p.cur.onShortcutParagraph321()
 }
 
-func (c *current) onShortcutParagraph190(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
-
-}
+func (c *current) onShortcutParagraph334() (interface{}, error) {
 
-func (p *parser) callonShortcutParagraph190() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph190(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph212() (interface{}, error) {
-	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph212() (interface{}, error) {
+func (p *parser) callonShortcutParagraph334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph212()
-}
-
-func (c *current) onShortcutParagraph218() (interface{}, error) {
-
-	return string(c.text), nil
-
+	return p.cur.onShortcutParagraph334()
 }
 
-func (p *parser) callonShortcutParagraph218() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph218()
-}
-
-func (c *current) onShortcutParagraph221() (interface{}, error) {
+func (c *current) onShortcutParagraph338() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph221() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph221()
-}
-
-func (c *current) onShortcutParagraph209(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonShortcutParagraph209() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph209(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph231() (interface{}, error) {
-	// sequence of 4 "_" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortcutParagraph231() (interface{}, error) {
+func (p *parser) callonShortcutParagraph338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph231()
-}
-
-func (c *current) onShortcutParagraph237() (interface{}, error) {
-
-	return string(c.text), nil
-
+	return p.cur.onShortcutParagraph338()
 }
 
-func (p *parser) callonShortcutParagraph237() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph237()
-}
+func (c *current) onShortcutParagraph328(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
-func (c *current) onShortcutParagraph240() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph240() (interface{}, error) {
+func (p *parser) callonShortcutParagraph328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph240()
+	return p.cur.onShortcutParagraph328(stack["content"])
 }
 
-func (c *current) onShortcutParagraph228(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph348() (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonShortcutParagraph228() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph228(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph250() (interface{}, error) {
-	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph250() (interface{}, error) {
+func (p *parser) callonShortcutParagraph348() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph250()
+	return p.cur.onShortcutParagraph348()
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onShortcutParagraph351(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonShortcutParagraph351() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onShortcutParagraph351(stack["content"])
 }
 
-func (c *current) onShortcutParagraph259() (interface{}, error) {
+func (c *current) onShortcutParagraph353() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph259() (interface{}, error) {
+func (p *parser) callonShortcutParagraph353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph259()
+	return p.cur.onShortcutParagraph353()
 }
 
-func (c *current) onShortcutParagraph247(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonShortcutParagraph247() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph247(stack["delimiter"])
-}
-
-func (c *current) onShortcutParagraph90(delimiter interface{}) (interface{}, error) {
-	return delimiter, nil
+func (c *current) onShortcutParagraph345(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph90() (interface{}, error) {
+func (p *parser) callonShortcutParagraph345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph90(stack["delimiter"])
+	return p.cur.onShortcutParagraph345(stack["content"])
 }
 
-func (c *current) onShortcutParagraph269() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
+func (c *current) onShortcutParagraph86(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph269() (interface{}, error) {
+func (p *parser) callonShortcutParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph269()
+	return p.cur.onShortcutParagraph86(stack["line"])
 }
 
-func (c *current) onShortcutParagraph272() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortcutParagraph272() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph272()
-}
+func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonShortcutParagraph1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onShortcutParagraph266(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
+func (c *current) onParagraph7() (bool, error) {
+	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonShortcutParagraph266() (interface{}, error) {
+func (p *parser) callonParagraph7() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph266(stack["delimiter"])
+	return p.cur.onParagraph7()
 }
 
-func (c *current) onShortcutParagraph285() (interface{}, error) {
-
+func (c *current) onParagraph13() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph285() (interface{}, error) {
+func (p *parser) callonParagraph13() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph285()
-}
-
-func (c *current) onShortcutParagraph288() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+	return p.cur.onParagraph13()
 }
 
-func (p *parser) callonShortcutParagraph288() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph288()
-}
-
-func (c *current) onShortcutParagraph299() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonShortcutParagraph299() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph299()
-}
+func (c *current) onParagraph10() (interface{}, error) {
+	return types.Tip, nil
 
-func (c *current) onShortcutParagraph301() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph301() (interface{}, error) {
+func (p *parser) callonParagraph10() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph301()
+	return p.cur.onParagraph10()
 }
 
-func (c *current) onShortcutParagraph314() (interface{}, error) {
-
+func (c *current) onParagraph19() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph314() (interface{}, error) {
+func (p *parser) callonParagraph19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph314()
+	return p.cur.onParagraph19()
 }
 
-func (c *current) onShortcutParagraph318() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonShortcutParagraph318() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph318()
-}
-
-func (c *current) onShortcutParagraph308(content interface{}) (interface{}, error) {
-	return types.NewSinglelineComment(content.(string))
+func (c *current) onParagraph16() (interface{}, error) {
+	return types.Note, nil
 
 }
 
-func (p *parser) callonShortcutParagraph308() (interface{}, error) {
+func (p *parser) callonParagraph16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph308(stack["content"])
+	return p.cur.onParagraph16()
 }
 
-func (c *current) onShortcutParagraph328() (interface{}, error) {
-
+func (c *current) onParagraph25() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph328() (interface{}, error) {
+func (p *parser) callonParagraph25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph328()
+	return p.cur.onParagraph25()
 }
 
-func (c *current) onShortcutParagraph331(content interface{}) (bool, error) {
-	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
+func (c *current) onParagraph22() (interface{}, error) {
+	return types.Important, nil
 
 }
 
-func (p *parser) callonShortcutParagraph331() (bool, error) {
+func (p *parser) callonParagraph22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph331(stack["content"])
+	return p.cur.onParagraph22()
 }
 
-func (c *current) onShortcutParagraph333() (interface{}, error) {
-	// TODO: just use "\n"
+func (c *current) onParagraph31() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
-}
-
-func (p *parser) callonShortcutParagraph333() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph333()
-}
-
-func (c *current) onShortcutParagraph325(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonShortcutParagraph325() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph325(stack["content"])
-}
-
-func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
-	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph66(stack["line"])
-}
-
-func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewParagraph(style, append([]interface{}{firstLine}, otherLines.([]interface{})...)...)
-
-}
-
-func (p *parser) callonShortcutParagraph1() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onShortcutParagraph1(stack["style"], stack["firstLine"], stack["otherLines"])
-}
-
-func (c *current) onParagraph7() (bool, error) {
-	return !c.isWithinLiteralParagraph(), nil
-
-}
-
-func (p *parser) callonParagraph7() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onParagraph7()
-}
-
-func (c *current) onParagraph10() (interface{}, error) {
-	return types.Tip, nil
-
-}
-
-func (p *parser) callonParagraph10() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onParagraph10()
-}
-
-func (c *current) onParagraph12() (interface{}, error) {
-	return types.Note, nil
-
-}
-
-func (p *parser) callonParagraph12() (interface{}, error) {
+func (p *parser) callonParagraph31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph12()
+	return p.cur.onParagraph31()
 }
 
-func (c *current) onParagraph14() (interface{}, error) {
-	return types.Important, nil
+func (c *current) onParagraph28() (interface{}, error) {
+	return types.Warning, nil
 
 }
 
-func (p *parser) callonParagraph14() (interface{}, error) {
+func (p *parser) callonParagraph28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph14()
+	return p.cur.onParagraph28()
 }
 
-func (c *current) onParagraph16() (interface{}, error) {
-	return types.Warning, nil
+func (c *current) onParagraph37() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph16() (interface{}, error) {
+func (p *parser) callonParagraph37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph16()
+	return p.cur.onParagraph37()
 }
 
-func (c *current) onParagraph18() (interface{}, error) {
+func (c *current) onParagraph34() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonParagraph18() (interface{}, error) {
+func (p *parser) callonParagraph34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph18()
+	return p.cur.onParagraph34()
 }
 
-func (c *current) onParagraph22() (interface{}, error) {
+func (c *current) onParagraph42() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph22() (interface{}, error) {
+func (p *parser) callonParagraph42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph22()
+	return p.cur.onParagraph42()
 }
 
-func (c *current) onParagraph20() (interface{}, error) {
+func (c *current) onParagraph40() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonParagraph20() (interface{}, error) {
+func (p *parser) callonParagraph40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph20()
+	return p.cur.onParagraph40()
 }
 
-func (c *current) onParagraph28() (interface{}, error) {
+func (c *current) onParagraph48() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph28() (interface{}, error) {
+func (p *parser) callonParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph28()
+	return p.cur.onParagraph48()
 }
 
-func (c *current) onParagraph31() (interface{}, error) {
+func (c *current) onParagraph51() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph31() (interface{}, error) {
+func (p *parser) callonParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph31()
+	return p.cur.onParagraph51()
 }
 
 func (c *current) onParagraph5(style interface{}) (interface{}, error) {
@@ -73712,674 +74177,674 @@ func (p *parser) callonParagraph5() (interface{}, error) {
 	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onParagraph42() (interface{}, error) {
+func (c *current) onParagraph62() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph42() (interface{}, error) {
+func (p *parser) callonParagraph62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph42()
+	return p.cur.onParagraph62()
 }
 
-func (c *current) onParagraph45(content interface{}) (bool, error) {
+func (c *current) onParagraph65(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonParagraph45() (bool, error) {
+func (p *parser) callonParagraph65() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph45(stack["content"])
+	return p.cur.onParagraph65(stack["content"])
 }
 
-func (c *current) onParagraph47() (interface{}, error) {
+func (c *current) onParagraph67() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph47() (interface{}, error) {
+func (p *parser) callonParagraph67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph47()
+	return p.cur.onParagraph67()
 }
 
-func (c *current) onParagraph39(content interface{}) (interface{}, error) {
+func (c *current) onParagraph59(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph39() (interface{}, error) {
+func (p *parser) callonParagraph59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph39(stack["content"])
+	return p.cur.onParagraph59(stack["content"])
 }
 
-func (c *current) onParagraph66() (interface{}, error) {
+func (c *current) onParagraph86() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph66() (interface{}, error) {
+func (p *parser) callonParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph66()
+	return p.cur.onParagraph86()
 }
 
-func (c *current) onParagraph69() (interface{}, error) {
+func (c *current) onParagraph89() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph69() (interface{}, error) {
+func (p *parser) callonParagraph89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph69()
+	return p.cur.onParagraph89()
 }
 
-func (c *current) onParagraph61() (interface{}, error) {
+func (c *current) onParagraph81() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonParagraph61() (interface{}, error) {
+func (p *parser) callonParagraph81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph61()
+	return p.cur.onParagraph81()
 }
 
-func (c *current) onParagraph89() (interface{}, error) {
+func (c *current) onParagraph109() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph89() (interface{}, error) {
+func (p *parser) callonParagraph109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph89()
+	return p.cur.onParagraph109()
 }
 
-func (c *current) onParagraph95() (interface{}, error) {
+func (c *current) onParagraph115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph95() (interface{}, error) {
+func (p *parser) callonParagraph115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph95()
+	return p.cur.onParagraph115()
 }
 
-func (c *current) onParagraph98() (interface{}, error) {
+func (c *current) onParagraph118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph98() (interface{}, error) {
+func (p *parser) callonParagraph118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph98()
+	return p.cur.onParagraph118()
 }
 
-func (c *current) onParagraph86(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph86() (interface{}, error) {
+func (p *parser) callonParagraph106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph86(stack["delimiter"])
+	return p.cur.onParagraph106(stack["delimiter"])
 }
 
-func (c *current) onParagraph108() (interface{}, error) {
+func (c *current) onParagraph128() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph108() (interface{}, error) {
+func (p *parser) callonParagraph128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph108()
+	return p.cur.onParagraph128()
 }
 
-func (c *current) onParagraph114() (interface{}, error) {
+func (c *current) onParagraph134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph114() (interface{}, error) {
+func (p *parser) callonParagraph134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph114()
+	return p.cur.onParagraph134()
 }
 
-func (c *current) onParagraph117() (interface{}, error) {
+func (c *current) onParagraph137() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph117() (interface{}, error) {
+func (p *parser) callonParagraph137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph117()
+	return p.cur.onParagraph137()
 }
 
-func (c *current) onParagraph105(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph125(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph105() (interface{}, error) {
+func (p *parser) callonParagraph125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph105(stack["delimiter"])
+	return p.cur.onParagraph125(stack["delimiter"])
 }
 
-func (c *current) onParagraph128() (interface{}, error) {
+func (c *current) onParagraph148() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph128() (interface{}, error) {
+func (p *parser) callonParagraph148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph128()
+	return p.cur.onParagraph148()
 }
 
-func (c *current) onParagraph132() (interface{}, error) {
+func (c *current) onParagraph152() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph132() (interface{}, error) {
+func (p *parser) callonParagraph152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph132()
+	return p.cur.onParagraph152()
 }
 
-func (c *current) onParagraph135() (interface{}, error) {
+func (c *current) onParagraph155() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph135() (interface{}, error) {
+func (p *parser) callonParagraph155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph135()
+	return p.cur.onParagraph155()
 }
 
-func (c *current) onParagraph124(language interface{}) (interface{}, error) {
+func (c *current) onParagraph144(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonParagraph124() (interface{}, error) {
+func (p *parser) callonParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph124(stack["language"])
+	return p.cur.onParagraph144(stack["language"])
 }
 
-func (c *current) onParagraph145() (interface{}, error) {
+func (c *current) onParagraph165() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph145() (interface{}, error) {
+func (p *parser) callonParagraph165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph145()
+	return p.cur.onParagraph165()
 }
 
-func (c *current) onParagraph151() (interface{}, error) {
+func (c *current) onParagraph171() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph151() (interface{}, error) {
+func (p *parser) callonParagraph171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph151()
+	return p.cur.onParagraph171()
 }
 
-func (c *current) onParagraph154() (interface{}, error) {
+func (c *current) onParagraph174() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph154() (interface{}, error) {
+func (p *parser) callonParagraph174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph154()
+	return p.cur.onParagraph174()
 }
 
-func (c *current) onParagraph142(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph162(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph142() (interface{}, error) {
+func (p *parser) callonParagraph162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph142(stack["delimiter"])
+	return p.cur.onParagraph162(stack["delimiter"])
 }
 
-func (c *current) onParagraph164() (interface{}, error) {
+func (c *current) onParagraph184() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph164() (interface{}, error) {
+func (p *parser) callonParagraph184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph164()
+	return p.cur.onParagraph184()
 }
 
-func (c *current) onParagraph170() (interface{}, error) {
+func (c *current) onParagraph190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph170() (interface{}, error) {
+func (p *parser) callonParagraph190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph170()
+	return p.cur.onParagraph190()
 }
 
-func (c *current) onParagraph173() (interface{}, error) {
+func (c *current) onParagraph193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph173() (interface{}, error) {
+func (p *parser) callonParagraph193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph173()
+	return p.cur.onParagraph193()
 }
 
-func (c *current) onParagraph161(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph181(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph161() (interface{}, error) {
+func (p *parser) callonParagraph181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph161(stack["delimiter"])
+	return p.cur.onParagraph181(stack["delimiter"])
 }
 
-func (c *current) onParagraph183() (interface{}, error) {
+func (c *current) onParagraph203() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph183() (interface{}, error) {
+func (p *parser) callonParagraph203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph183()
+	return p.cur.onParagraph203()
 }
 
-func (c *current) onParagraph189() (interface{}, error) {
+func (c *current) onParagraph209() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph189() (interface{}, error) {
+func (p *parser) callonParagraph209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph189()
+	return p.cur.onParagraph209()
 }
 
-func (c *current) onParagraph192() (interface{}, error) {
+func (c *current) onParagraph212() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph192() (interface{}, error) {
+func (p *parser) callonParagraph212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph192()
+	return p.cur.onParagraph212()
 }
 
-func (c *current) onParagraph180(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph200(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph180() (interface{}, error) {
+func (p *parser) callonParagraph200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph180(stack["delimiter"])
+	return p.cur.onParagraph200(stack["delimiter"])
 }
 
-func (c *current) onParagraph202() (interface{}, error) {
+func (c *current) onParagraph222() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph202() (interface{}, error) {
+func (p *parser) callonParagraph222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph202()
+	return p.cur.onParagraph222()
 }
 
-func (c *current) onParagraph208() (interface{}, error) {
+func (c *current) onParagraph228() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph208() (interface{}, error) {
+func (p *parser) callonParagraph228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph208()
+	return p.cur.onParagraph228()
 }
 
-func (c *current) onParagraph211() (interface{}, error) {
+func (c *current) onParagraph231() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph211() (interface{}, error) {
+func (p *parser) callonParagraph231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph211()
+	return p.cur.onParagraph231()
 }
 
-func (c *current) onParagraph199(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph219(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph199() (interface{}, error) {
+func (p *parser) callonParagraph219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph199(stack["delimiter"])
+	return p.cur.onParagraph219(stack["delimiter"])
 }
 
-func (c *current) onParagraph221() (interface{}, error) {
+func (c *current) onParagraph241() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph221() (interface{}, error) {
+func (p *parser) callonParagraph241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph221()
+	return p.cur.onParagraph241()
 }
 
-func (c *current) onParagraph227() (interface{}, error) {
+func (c *current) onParagraph247() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph227() (interface{}, error) {
+func (p *parser) callonParagraph247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph227()
+	return p.cur.onParagraph247()
 }
 
-func (c *current) onParagraph230() (interface{}, error) {
+func (c *current) onParagraph250() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph230() (interface{}, error) {
+func (p *parser) callonParagraph250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph230()
+	return p.cur.onParagraph250()
 }
 
-func (c *current) onParagraph218(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph238(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph218() (interface{}, error) {
+func (p *parser) callonParagraph238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph218(stack["delimiter"])
+	return p.cur.onParagraph238(stack["delimiter"])
 }
 
-func (c *current) onParagraph240() (interface{}, error) {
+func (c *current) onParagraph260() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph240() (interface{}, error) {
+func (p *parser) callonParagraph260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph240()
+	return p.cur.onParagraph260()
 }
 
-func (c *current) onParagraph246() (interface{}, error) {
+func (c *current) onParagraph266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph246() (interface{}, error) {
+func (p *parser) callonParagraph266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph246()
+	return p.cur.onParagraph266()
 }
 
-func (c *current) onParagraph249() (interface{}, error) {
+func (c *current) onParagraph269() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph249() (interface{}, error) {
+func (p *parser) callonParagraph269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph249()
+	return p.cur.onParagraph269()
 }
 
-func (c *current) onParagraph237(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph257(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph237() (interface{}, error) {
+func (p *parser) callonParagraph257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph237(stack["delimiter"])
+	return p.cur.onParagraph257(stack["delimiter"])
 }
 
-func (c *current) onParagraph80(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph100(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonParagraph80() (interface{}, error) {
+func (p *parser) callonParagraph100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph80(stack["delimiter"])
+	return p.cur.onParagraph100(stack["delimiter"])
 }
 
-func (c *current) onParagraph259() (interface{}, error) {
+func (c *current) onParagraph279() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph259() (interface{}, error) {
+func (p *parser) callonParagraph279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph259()
+	return p.cur.onParagraph279()
 }
 
-func (c *current) onParagraph262() (interface{}, error) {
+func (c *current) onParagraph282() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph262() (interface{}, error) {
+func (p *parser) callonParagraph282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph262()
+	return p.cur.onParagraph282()
 }
 
-func (c *current) onParagraph265() (interface{}, error) {
+func (c *current) onParagraph285() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph265() (interface{}, error) {
+func (p *parser) callonParagraph285() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph265()
+	return p.cur.onParagraph285()
 }
 
-func (c *current) onParagraph256(delimiter interface{}) (interface{}, error) {
+func (c *current) onParagraph276(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonParagraph256() (interface{}, error) {
+func (p *parser) callonParagraph276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph256(stack["delimiter"])
+	return p.cur.onParagraph276(stack["delimiter"])
 }
 
-func (c *current) onParagraph275() (interface{}, error) {
+func (c *current) onParagraph295() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph275() (interface{}, error) {
+func (p *parser) callonParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph275()
+	return p.cur.onParagraph295()
 }
 
-func (c *current) onParagraph278() (interface{}, error) {
+func (c *current) onParagraph298() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph278() (interface{}, error) {
+func (p *parser) callonParagraph298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph278()
+	return p.cur.onParagraph298()
 }
 
-func (c *current) onParagraph293() (interface{}, error) {
+func (c *current) onParagraph313() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph293() (interface{}, error) {
+func (p *parser) callonParagraph313() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph293()
+	return p.cur.onParagraph313()
 }
 
-func (c *current) onParagraph297() (interface{}, error) {
+func (c *current) onParagraph317() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph297() (interface{}, error) {
+func (p *parser) callonParagraph317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph297()
+	return p.cur.onParagraph317()
 }
 
-func (c *current) onParagraph287(content interface{}) (interface{}, error) {
+func (c *current) onParagraph307(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonParagraph287() (interface{}, error) {
+func (p *parser) callonParagraph307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph287(stack["content"])
+	return p.cur.onParagraph307(stack["content"])
 }
 
-func (c *current) onParagraph307() (interface{}, error) {
+func (c *current) onParagraph327() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph307() (interface{}, error) {
+func (p *parser) callonParagraph327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph307()
+	return p.cur.onParagraph327()
 }
 
-func (c *current) onParagraph310(content interface{}) (bool, error) {
+func (c *current) onParagraph330(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // stop if blank
 
 }
 
-func (p *parser) callonParagraph310() (bool, error) {
+func (p *parser) callonParagraph330() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph310(stack["content"])
+	return p.cur.onParagraph330(stack["content"])
 }
 
-func (c *current) onParagraph312() (interface{}, error) {
+func (c *current) onParagraph332() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph312() (interface{}, error) {
+func (p *parser) callonParagraph332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph312()
+	return p.cur.onParagraph332()
 }
 
-func (c *current) onParagraph304(content interface{}) (interface{}, error) {
+func (c *current) onParagraph324(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph304() (interface{}, error) {
+func (p *parser) callonParagraph324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph304(stack["content"])
+	return p.cur.onParagraph324(stack["content"])
 }
 
-func (c *current) onParagraph56(line interface{}) (interface{}, error) {
+func (c *current) onParagraph76(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
+func (p *parser) callonParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph56(stack["line"])
+	return p.cur.onParagraph76(stack["line"])
 }
 
 func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 604fcc7..b8dd57f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1764,15 +1764,15 @@ ParagraphStyle <-
     &{
         return !c.isWithinLiteralParagraph(), nil
     }
-    style:("TIP: " {
+    style:("TIP:" Spaces {
             return types.Tip, nil
-        } / "NOTE: " {
+        } / "NOTE:" Spaces {
             return types.Note, nil
-        } / "IMPORTANT: " {
+        } / "IMPORTANT:" Spaces {
             return types.Important, nil
-        } / "WARNING: " {
+        } / "WARNING:" Spaces {
             return types.Warning, nil
-        } / "CAUTION: " {
+        } / "CAUTION:" Spaces {
             return types.Caution, nil
         } / &(Spaces) { // check 
             return types.LiteralParagraph, nil
-- 
2.43.0


From 80916c7f66305785676adfc297a72a5df233758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 102/117] fix: attach the block after a comment that follows a
 list continuation

---
 pkg/parser/parser.go  | 12541 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 6399 insertions(+), 6144 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 81861e3..1469ba0 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93548},
+																pos: position{line: 2951, col: 12, offset: 93627},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93549},
+																	pos: position{line: 2951, col: 13, offset: 93628},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93549},
+																			pos: position{line: 2951, col: 13, offset: 93628},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93549},
+																				pos:        position{line: 2951, col: 13, offset: 93628},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93554},
+																			pos: position{line: 2951, col: 18, offset: 93633},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93554},
+																				pos:        position{line: 2951, col: 18, offset: 93633},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93548},
+																pos: position{line: 2951, col: 12, offset: 93627},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93549},
+																	pos: position{line: 2951, col: 13, offset: 93628},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93549},
+																			pos: position{line: 2951, col: 13, offset: 93628},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93549},
+																				pos:        position{line: 2951, col: 13, offset: 93628},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93554},
+																			pos: position{line: 2951, col: 18, offset: 93633},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93554},
+																				pos:        position{line: 2951, col: 18, offset: 93633},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89669},
+														pos:        position{line: 2813, col: 13, offset: 89748},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93782},
+													pos: position{line: 2963, col: 11, offset: 93861},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93782},
+														pos: position{line: 2963, col: 11, offset: 93861},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93782},
+															pos:        position{line: 2963, col: 11, offset: 93861},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2882, col: 14, offset: 91475},
+													pos: position{line: 2882, col: 14, offset: 91554},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 14, offset: 91475},
+														pos: position{line: 2882, col: 14, offset: 91554},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 14, offset: 91475},
+															pos:        position{line: 2882, col: 14, offset: 91554},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 17, offset: 91545},
+												pos: position{line: 2886, col: 17, offset: 91624},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2886, col: 17, offset: 91545},
+													pos:   position{line: 2886, col: 17, offset: 91624},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93548},
+																				pos: position{line: 2951, col: 12, offset: 93627},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93549},
+																					pos: position{line: 2951, col: 13, offset: 93628},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93549},
+																							pos: position{line: 2951, col: 13, offset: 93628},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93549},
+																								pos:        position{line: 2951, col: 13, offset: 93628},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93554},
+																							pos: position{line: 2951, col: 18, offset: 93633},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93554},
+																								pos:        position{line: 2951, col: 18, offset: 93633},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93548},
+																				pos: position{line: 2951, col: 12, offset: 93627},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93549},
+																					pos: position{line: 2951, col: 13, offset: 93628},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93549},
+																							pos: position{line: 2951, col: 13, offset: 93628},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93549},
+																								pos:        position{line: 2951, col: 13, offset: 93628},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93554},
+																							pos: position{line: 2951, col: 18, offset: 93633},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93554},
+																								pos:        position{line: 2951, col: 18, offset: 93633},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93548},
+																		pos: position{line: 2951, col: 12, offset: 93627},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93549},
+																			pos: position{line: 2951, col: 13, offset: 93628},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93549},
+																					pos: position{line: 2951, col: 13, offset: 93628},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93549},
+																						pos:        position{line: 2951, col: 13, offset: 93628},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93554},
+																					pos: position{line: 2951, col: 18, offset: 93633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93554},
+																						pos:        position{line: 2951, col: 18, offset: 93633},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93548},
+																									pos: position{line: 2951, col: 12, offset: 93627},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93549},
+																										pos: position{line: 2951, col: 13, offset: 93628},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93549},
+																												pos: position{line: 2951, col: 13, offset: 93628},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93549},
+																													pos:        position{line: 2951, col: 13, offset: 93628},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93554},
+																												pos: position{line: 2951, col: 18, offset: 93633},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93554},
+																													pos:        position{line: 2951, col: 18, offset: 93633},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93548},
+																									pos: position{line: 2951, col: 12, offset: 93627},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93549},
+																										pos: position{line: 2951, col: 13, offset: 93628},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93549},
+																												pos: position{line: 2951, col: 13, offset: 93628},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93549},
+																													pos:        position{line: 2951, col: 13, offset: 93628},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93554},
+																												pos: position{line: 2951, col: 18, offset: 93633},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93554},
+																													pos:        position{line: 2951, col: 18, offset: 93633},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2951, col: 12, offset: 93548},
+																							pos: position{line: 2951, col: 12, offset: 93627},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2951, col: 13, offset: 93549},
+																								pos: position{line: 2951, col: 13, offset: 93628},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2951, col: 13, offset: 93549},
+																										pos: position{line: 2951, col: 13, offset: 93628},
 																										expr: &litMatcher{
-																											pos:        position{line: 2951, col: 13, offset: 93549},
+																											pos:        position{line: 2951, col: 13, offset: 93628},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2951, col: 18, offset: 93554},
+																										pos: position{line: 2951, col: 18, offset: 93633},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2951, col: 18, offset: 93554},
+																											pos:        position{line: 2951, col: 18, offset: 93633},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93548},
+														pos: position{line: 2951, col: 12, offset: 93627},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93549},
+															pos: position{line: 2951, col: 13, offset: 93628},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93549},
+																	pos: position{line: 2951, col: 13, offset: 93628},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93549},
+																		pos:        position{line: 2951, col: 13, offset: 93628},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93554},
+																	pos: position{line: 2951, col: 18, offset: 93633},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93554},
+																		pos:        position{line: 2951, col: 18, offset: 93633},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93548},
+														pos: position{line: 2951, col: 12, offset: 93627},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93549},
+															pos: position{line: 2951, col: 13, offset: 93628},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93549},
+																	pos: position{line: 2951, col: 13, offset: 93628},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93549},
+																		pos:        position{line: 2951, col: 13, offset: 93628},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93554},
+																	pos: position{line: 2951, col: 18, offset: 93633},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93554},
+																		pos:        position{line: 2951, col: 18, offset: 93633},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2951, col: 12, offset: 93548},
+												pos: position{line: 2951, col: 12, offset: 93627},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2951, col: 13, offset: 93549},
+													pos: position{line: 2951, col: 13, offset: 93628},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2951, col: 13, offset: 93549},
+															pos: position{line: 2951, col: 13, offset: 93628},
 															expr: &litMatcher{
-																pos:        position{line: 2951, col: 13, offset: 93549},
+																pos:        position{line: 2951, col: 13, offset: 93628},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2951, col: 18, offset: 93554},
+															pos: position{line: 2951, col: 18, offset: 93633},
 															expr: &charClassMatcher{
-																pos:        position{line: 2951, col: 18, offset: 93554},
+																pos:        position{line: 2951, col: 18, offset: 93633},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2817, col: 14, offset: 89743},
+																		pos: position{line: 2817, col: 14, offset: 89822},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2817, col: 14, offset: 89743},
+																			pos: position{line: 2817, col: 14, offset: 89822},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89743},
+																				pos:        position{line: 2817, col: 14, offset: 89822},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89743},
+																				pos: position{line: 2817, col: 14, offset: 89822},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89743},
+																					pos: position{line: 2817, col: 14, offset: 89822},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89743},
+																						pos:        position{line: 2817, col: 14, offset: 89822},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2817, col: 14, offset: 89743},
+																							pos: position{line: 2817, col: 14, offset: 89822},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2817, col: 14, offset: 89743},
+																								pos: position{line: 2817, col: 14, offset: 89822},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2817, col: 14, offset: 89743},
+																									pos:        position{line: 2817, col: 14, offset: 89822},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2817, col: 14, offset: 89743},
+																									pos: position{line: 2817, col: 14, offset: 89822},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2817, col: 14, offset: 89743},
+																										pos: position{line: 2817, col: 14, offset: 89822},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2817, col: 14, offset: 89743},
+																											pos:        position{line: 2817, col: 14, offset: 89822},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89743},
+																pos: position{line: 2817, col: 14, offset: 89822},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89743},
+																	pos: position{line: 2817, col: 14, offset: 89822},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89743},
+																		pos:        position{line: 2817, col: 14, offset: 89822},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89743},
+																pos: position{line: 2817, col: 14, offset: 89822},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89743},
+																	pos: position{line: 2817, col: 14, offset: 89822},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89743},
+																		pos:        position{line: 2817, col: 14, offset: 89822},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2976, col: 11, offset: 94055},
+														pos: position{line: 2976, col: 11, offset: 94134},
 														expr: &anyMatcher{
-															line: 2976, col: 13, offset: 94057,
+															line: 2976, col: 13, offset: 94136,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91475},
+																			pos: position{line: 2882, col: 14, offset: 91554},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91475},
+																				pos: position{line: 2882, col: 14, offset: 91554},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91475},
+																					pos:        position{line: 2882, col: 14, offset: 91554},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2976, col: 11, offset: 94055},
+																									pos: position{line: 2976, col: 11, offset: 94134},
 																									expr: &anyMatcher{
-																										line: 2976, col: 13, offset: 94057,
+																										line: 2976, col: 13, offset: 94136,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91475},
+																						pos: position{line: 2882, col: 14, offset: 91554},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91475},
+																							pos: position{line: 2882, col: 14, offset: 91554},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91475},
+																								pos:        position{line: 2882, col: 14, offset: 91554},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1824, col: 5, offset: 58922},
+																		pos: position{line: 1824, col: 5, offset: 59001},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1824, col: 5, offset: 58922},
+																			pos: position{line: 1824, col: 5, offset: 59001},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1824, col: 5, offset: 58922},
+																					pos:   position{line: 1824, col: 5, offset: 59001},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91475},
+																						pos: position{line: 2882, col: 14, offset: 91554},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91475},
+																							pos: position{line: 2882, col: 14, offset: 91554},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91475},
+																								pos:        position{line: 2882, col: 14, offset: 91554},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1825, col: 5, offset: 58946},
+																					pos: position{line: 1825, col: 5, offset: 59025},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2764, col: 18, offset: 88028},
+											pos: position{line: 2764, col: 18, offset: 88107},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2765, col: 9, offset: 88038},
+												pos: position{line: 2765, col: 9, offset: 88117},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2765, col: 9, offset: 88038},
+														pos: position{line: 2765, col: 9, offset: 88117},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 88038},
+																pos:        position{line: 2765, col: 9, offset: 88117},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2765, col: 15, offset: 88044},
+																pos: position{line: 2765, col: 15, offset: 88123},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2766, col: 11, offset: 88077},
+														pos: position{line: 2766, col: 11, offset: 88156},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2766, col: 12, offset: 88078},
+																pos: position{line: 2766, col: 12, offset: 88157},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 12, offset: 88078},
+																		pos:        position{line: 2766, col: 12, offset: 88157},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 20, offset: 88086},
+																		pos:        position{line: 2766, col: 20, offset: 88165},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 30, offset: 88096},
+																		pos:        position{line: 2766, col: 30, offset: 88175},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 38, offset: 88104},
+																		pos:        position{line: 2766, col: 38, offset: 88183},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 48, offset: 88114},
+																		pos:        position{line: 2766, col: 48, offset: 88193},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 56, offset: 88122},
+																		pos:        position{line: 2766, col: 56, offset: 88201},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2766, col: 65, offset: 88131},
+																pos: position{line: 2766, col: 65, offset: 88210},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2766, col: 76, offset: 88142},
+																pos: position{line: 2766, col: 76, offset: 88221},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2655, col: 5, offset: 84964},
+											pos: position{line: 2655, col: 5, offset: 85043},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2655, col: 5, offset: 84964},
+												pos: position{line: 2655, col: 5, offset: 85043},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2661, col: 19, offset: 85121},
+														pos:        position{line: 2661, col: 19, offset: 85200},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2661, col: 26, offset: 85128},
+														pos: position{line: 2661, col: 26, offset: 85207},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2656, col: 5, offset: 84988},
+														pos:   position{line: 2656, col: 5, offset: 85067},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2656, col: 11, offset: 84994},
+															pos: position{line: 2656, col: 11, offset: 85073},
 															expr: &choiceExpr{
-																pos: position{line: 2656, col: 12, offset: 84995},
+																pos: position{line: 2656, col: 12, offset: 85074},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94055},
+																					pos: position{line: 2976, col: 11, offset: 94134},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94057,
+																						line: 2976, col: 13, offset: 94136,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2668, col: 5, offset: 85240},
+																		pos: position{line: 2668, col: 5, offset: 85319},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2668, col: 5, offset: 85240},
+																			pos: position{line: 2668, col: 5, offset: 85319},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2668, col: 5, offset: 85240},
+																					pos: position{line: 2668, col: 5, offset: 85319},
 																					expr: &choiceExpr{
-																						pos: position{line: 2665, col: 22, offset: 85201},
+																						pos: position{line: 2665, col: 22, offset: 85280},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2661, col: 19, offset: 85121},
+																								pos: position{line: 2661, col: 19, offset: 85200},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2661, col: 19, offset: 85121},
+																										pos:        position{line: 2661, col: 19, offset: 85200},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2661, col: 26, offset: 85128},
+																										pos: position{line: 2661, col: 26, offset: 85207},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94119},
+																										pos: position{line: 2981, col: 8, offset: 94198},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93892},
+																												pos: position{line: 2968, col: 12, offset: 93971},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93893},
+																													pos: position{line: 2968, col: 13, offset: 93972},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93893},
+																															pos:        position{line: 2968, col: 13, offset: 93972},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93900},
+																															pos:        position{line: 2968, col: 20, offset: 93979},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93909},
+																															pos:        position{line: 2968, col: 29, offset: 93988},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94069},
+																												pos: position{line: 2978, col: 8, offset: 94148},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94070,
+																													line: 2978, col: 9, offset: 94149,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2669, col: 5, offset: 85263},
+																					pos:   position{line: 2669, col: 5, offset: 85342},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2670, col: 9, offset: 85281},
+																						pos: position{line: 2670, col: 9, offset: 85360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2670, col: 10, offset: 85282},
+																								pos: position{line: 2670, col: 10, offset: 85361},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2670, col: 10, offset: 85282},
+																									pos:   position{line: 2670, col: 10, offset: 85361},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2670, col: 17, offset: 85289},
+																										pos: position{line: 2670, col: 17, offset: 85368},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2678, col: 21, offset: 85485},
+																												pos: position{line: 2678, col: 21, offset: 85564},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2678, col: 21, offset: 85485},
+																													pos: position{line: 2678, col: 21, offset: 85564},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2678, col: 21, offset: 85485},
+																															pos:   position{line: 2678, col: 21, offset: 85564},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2678, col: 27, offset: 85491},
+																																pos: position{line: 2678, col: 27, offset: 85570},
 																																expr: &actionExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85566},
+																																	pos: position{line: 2683, col: 5, offset: 85645},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2683, col: 5, offset: 85566},
+																																		pos: position{line: 2683, col: 5, offset: 85645},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2683, col: 5, offset: 85566},
+																																				pos:        position{line: 2683, col: 5, offset: 85645},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2683, col: 9, offset: 85570},
+																																				pos: position{line: 2683, col: 9, offset: 85649},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2959, col: 10, offset: 93721},
+																																					pos: position{line: 2959, col: 10, offset: 93800},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2959, col: 10, offset: 93721},
+																																						pos:        position{line: 2959, col: 10, offset: 93800},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2683, col: 16, offset: 85577},
+																																				pos:   position{line: 2683, col: 16, offset: 85656},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2689, col: 5, offset: 85777},
+																																					pos: position{line: 2689, col: 5, offset: 85856},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2689, col: 5, offset: 85777},
+																																						pos:   position{line: 2689, col: 5, offset: 85856},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85786},
+																																							pos: position{line: 2689, col: 14, offset: 85865},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2689, col: 14, offset: 85786},
+																																								pos: position{line: 2689, col: 14, offset: 85865},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2689, col: 14, offset: 85786},
+																																									pos:        position{line: 2689, col: 14, offset: 85865},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2981, col: 8, offset: 94119},
+																															pos: position{line: 2981, col: 8, offset: 94198},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2968, col: 12, offset: 93892},
+																																	pos: position{line: 2968, col: 12, offset: 93971},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2968, col: 13, offset: 93893},
+																																		pos: position{line: 2968, col: 13, offset: 93972},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 13, offset: 93893},
+																																				pos:        position{line: 2968, col: 13, offset: 93972},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 20, offset: 93900},
+																																				pos:        position{line: 2968, col: 20, offset: 93979},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 29, offset: 93909},
+																																				pos:        position{line: 2968, col: 29, offset: 93988},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2978, col: 8, offset: 94069},
+																																	pos: position{line: 2978, col: 8, offset: 94148},
 																																	expr: &anyMatcher{
-																																		line: 2978, col: 9, offset: 94070,
+																																		line: 2978, col: 9, offset: 94149,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2695, col: 24, offset: 85922},
+																												pos: position{line: 2695, col: 24, offset: 86001},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2695, col: 24, offset: 85922},
+																													pos:   position{line: 2695, col: 24, offset: 86001},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2695, col: 30, offset: 85928},
+																														pos: position{line: 2695, col: 30, offset: 86007},
 																														expr: &actionExpr{
-																															pos: position{line: 2700, col: 5, offset: 86004},
+																															pos: position{line: 2700, col: 5, offset: 86083},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2700, col: 5, offset: 86004},
+																																pos: position{line: 2700, col: 5, offset: 86083},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2700, col: 5, offset: 86004},
+																																		pos: position{line: 2700, col: 5, offset: 86083},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2665, col: 22, offset: 85201},
+																																			pos: position{line: 2665, col: 22, offset: 85280},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2661, col: 19, offset: 85121},
+																																					pos: position{line: 2661, col: 19, offset: 85200},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2661, col: 19, offset: 85121},
+																																							pos:        position{line: 2661, col: 19, offset: 85200},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2661, col: 26, offset: 85128},
+																																							pos: position{line: 2661, col: 26, offset: 85207},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2959, col: 10, offset: 93721},
+																																								pos: position{line: 2959, col: 10, offset: 93800},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2959, col: 10, offset: 93721},
+																																									pos:        position{line: 2959, col: 10, offset: 93800},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94119},
+																																							pos: position{line: 2981, col: 8, offset: 94198},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93892},
+																																									pos: position{line: 2968, col: 12, offset: 93971},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93893},
+																																										pos: position{line: 2968, col: 13, offset: 93972},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93893},
+																																												pos:        position{line: 2968, col: 13, offset: 93972},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93900},
+																																												pos:        position{line: 2968, col: 20, offset: 93979},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93909},
+																																												pos:        position{line: 2968, col: 29, offset: 93988},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94069},
+																																									pos: position{line: 2978, col: 8, offset: 94148},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94070,
+																																										line: 2978, col: 9, offset: 94149,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2978, col: 8, offset: 94069},
+																																					pos: position{line: 2978, col: 8, offset: 94148},
 																																					expr: &anyMatcher{
-																																						line: 2978, col: 9, offset: 94070,
+																																						line: 2978, col: 9, offset: 94149,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2701, col: 5, offset: 86027},
+																																		pos: position{line: 2701, col: 5, offset: 86106},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2976, col: 11, offset: 94055},
+																																						pos: position{line: 2976, col: 11, offset: 94134},
 																																						expr: &anyMatcher{
-																																							line: 2976, col: 13, offset: 94057,
+																																							line: 2976, col: 13, offset: 94136,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93721},
+																																							pos: position{line: 2959, col: 10, offset: 93800},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93721},
+																																								pos:        position{line: 2959, col: 10, offset: 93800},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94119},
+																																						pos: position{line: 2981, col: 8, offset: 94198},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93892},
+																																								pos: position{line: 2968, col: 12, offset: 93971},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93893},
+																																									pos: position{line: 2968, col: 13, offset: 93972},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93893},
+																																											pos:        position{line: 2968, col: 13, offset: 93972},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93900},
+																																											pos:        position{line: 2968, col: 20, offset: 93979},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93909},
+																																											pos:        position{line: 2968, col: 29, offset: 93988},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94069},
+																																								pos: position{line: 2978, col: 8, offset: 94148},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94070,
+																																									line: 2978, col: 9, offset: 94149,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 5, offset: 86042},
+																																		pos:   position{line: 2702, col: 5, offset: 86121},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2702, col: 12, offset: 86049},
+																																			pos: position{line: 2702, col: 12, offset: 86128},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86513},
+																																				pos: position{line: 2719, col: 20, offset: 86592},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2719, col: 20, offset: 86513},
+																																					pos: position{line: 2719, col: 20, offset: 86592},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2719, col: 20, offset: 86513},
+																																						pos:        position{line: 2719, col: 20, offset: 86592},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2702, col: 31, offset: 86068},
+																																		pos:        position{line: 2702, col: 31, offset: 86147},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2702, col: 35, offset: 86072},
+																																		pos: position{line: 2702, col: 35, offset: 86151},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2959, col: 10, offset: 93721},
+																																			pos: position{line: 2959, col: 10, offset: 93800},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2959, col: 10, offset: 93721},
+																																				pos:        position{line: 2959, col: 10, offset: 93800},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 42, offset: 86079},
+																																		pos: position{line: 2702, col: 42, offset: 86158},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2968, col: 12, offset: 93892},
+																																			pos: position{line: 2968, col: 12, offset: 93971},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2968, col: 13, offset: 93893},
+																																				pos: position{line: 2968, col: 13, offset: 93972},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 13, offset: 93893},
+																																						pos:        position{line: 2968, col: 13, offset: 93972},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 20, offset: 93900},
+																																						pos:        position{line: 2968, col: 20, offset: 93979},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 29, offset: 93909},
+																																						pos:        position{line: 2968, col: 29, offset: 93988},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 51, offset: 86088},
+																																		pos:   position{line: 2702, col: 51, offset: 86167},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2708, col: 5, offset: 86247},
+																																			pos: position{line: 2708, col: 5, offset: 86326},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86257},
+																																				pos: position{line: 2709, col: 9, offset: 86336},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2709, col: 9, offset: 86257},
+																																					pos: position{line: 2709, col: 9, offset: 86336},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2709, col: 9, offset: 86257},
+																																							pos: position{line: 2709, col: 9, offset: 86336},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2665, col: 22, offset: 85201},
+																																								pos: position{line: 2665, col: 22, offset: 85280},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2661, col: 19, offset: 85121},
+																																										pos: position{line: 2661, col: 19, offset: 85200},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2661, col: 19, offset: 85121},
+																																												pos:        position{line: 2661, col: 19, offset: 85200},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2661, col: 26, offset: 85128},
+																																												pos: position{line: 2661, col: 26, offset: 85207},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2959, col: 10, offset: 93721},
+																																													pos: position{line: 2959, col: 10, offset: 93800},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2959, col: 10, offset: 93721},
+																																														pos:        position{line: 2959, col: 10, offset: 93800},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2981, col: 8, offset: 94119},
+																																												pos: position{line: 2981, col: 8, offset: 94198},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2968, col: 12, offset: 93892},
+																																														pos: position{line: 2968, col: 12, offset: 93971},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2968, col: 13, offset: 93893},
+																																															pos: position{line: 2968, col: 13, offset: 93972},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2978, col: 8, offset: 94069},
+																																														pos: position{line: 2978, col: 8, offset: 94148},
 																																														expr: &anyMatcher{
-																																															line: 2978, col: 9, offset: 94070,
+																																															line: 2978, col: 9, offset: 94149,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94069},
+																																										pos: position{line: 2978, col: 8, offset: 94148},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94070,
+																																											line: 2978, col: 9, offset: 94149,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2710, col: 9, offset: 86284},
+																																							pos: position{line: 2710, col: 9, offset: 86363},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2976, col: 11, offset: 94055},
+																																											pos: position{line: 2976, col: 11, offset: 94134},
 																																											expr: &anyMatcher{
-																																												line: 2976, col: 13, offset: 94057,
+																																												line: 2976, col: 13, offset: 94136,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93721},
+																																												pos: position{line: 2959, col: 10, offset: 93800},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93721},
+																																													pos:        position{line: 2959, col: 10, offset: 93800},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94119},
+																																											pos: position{line: 2981, col: 8, offset: 94198},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93892},
+																																													pos: position{line: 2968, col: 12, offset: 93971},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93893},
+																																														pos: position{line: 2968, col: 13, offset: 93972},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94069},
+																																													pos: position{line: 2978, col: 8, offset: 94148},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94070,
+																																														line: 2978, col: 9, offset: 94149,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2711, col: 9, offset: 86303},
+																																							pos: position{line: 2711, col: 9, offset: 86382},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2711, col: 11, offset: 86305},
+																																								pos: position{line: 2711, col: 11, offset: 86384},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2711, col: 11, offset: 86305},
+																																										pos:   position{line: 2711, col: 11, offset: 86384},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2711, col: 18, offset: 86312},
+																																											pos: position{line: 2711, col: 18, offset: 86391},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86513},
+																																												pos: position{line: 2719, col: 20, offset: 86592},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2719, col: 20, offset: 86513},
+																																													pos: position{line: 2719, col: 20, offset: 86592},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2719, col: 20, offset: 86513},
+																																														pos:        position{line: 2719, col: 20, offset: 86592},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2711, col: 37, offset: 86331},
+																																										pos:        position{line: 2711, col: 37, offset: 86410},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2712, col: 9, offset: 86344},
+																																							pos:   position{line: 2712, col: 9, offset: 86423},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86353},
+																																								pos: position{line: 2712, col: 18, offset: 86432},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2712, col: 18, offset: 86353},
+																																									pos: position{line: 2712, col: 18, offset: 86432},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2712, col: 18, offset: 86353},
+																																										pos:        position{line: 2712, col: 18, offset: 86432},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2714, col: 12, offset: 86415},
+																																							pos: position{line: 2714, col: 12, offset: 86494},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2981, col: 8, offset: 94119},
+																																								pos: position{line: 2981, col: 8, offset: 94198},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2968, col: 12, offset: 93892},
+																																										pos: position{line: 2968, col: 12, offset: 93971},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2968, col: 13, offset: 93893},
+																																											pos: position{line: 2968, col: 13, offset: 93972},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 13, offset: 93893},
+																																													pos:        position{line: 2968, col: 13, offset: 93972},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 20, offset: 93900},
+																																													pos:        position{line: 2968, col: 20, offset: 93979},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 29, offset: 93909},
+																																													pos:        position{line: 2968, col: 29, offset: 93988},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94069},
+																																										pos: position{line: 2978, col: 8, offset: 94148},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94070,
+																																											line: 2978, col: 9, offset: 94149,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94055},
+																											pos: position{line: 2976, col: 11, offset: 94134},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94057,
+																												line: 2976, col: 13, offset: 94136,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2665, col: 22, offset: 85201},
+														pos: position{line: 2665, col: 22, offset: 85280},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85121},
+																pos: position{line: 2661, col: 19, offset: 85200},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85121},
+																		pos:        position{line: 2661, col: 19, offset: 85200},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85128},
+																		pos: position{line: 2661, col: 26, offset: 85207},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81364},
+												pos: position{line: 2526, col: 22, offset: 81443},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81585},
+														pos:        position{line: 2531, col: 31, offset: 81664},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81590},
+														pos: position{line: 2531, col: 36, offset: 81669},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81591},
+															pos:        position{line: 2531, col: 37, offset: 81670},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81391},
+														pos:   position{line: 2526, col: 49, offset: 81470},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91408},
+																pos: position{line: 2878, col: 13, offset: 91487},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91408},
+																	pos:        position{line: 2878, col: 13, offset: 91487},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94119},
+																										pos: position{line: 2981, col: 8, offset: 94198},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93892},
+																												pos: position{line: 2968, col: 12, offset: 93971},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93893},
+																													pos: position{line: 2968, col: 13, offset: 93972},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93893},
+																															pos:        position{line: 2968, col: 13, offset: 93972},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93900},
+																															pos:        position{line: 2968, col: 20, offset: 93979},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93909},
+																															pos:        position{line: 2968, col: 29, offset: 93988},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94069},
+																												pos: position{line: 2978, col: 8, offset: 94148},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94070,
+																													line: 2978, col: 9, offset: 94149,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2963, col: 11, offset: 93782},
+												pos: position{line: 2963, col: 11, offset: 93861},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2963, col: 11, offset: 93782},
+													pos: position{line: 2963, col: 11, offset: 93861},
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 11, offset: 93782},
+														pos:        position{line: 2963, col: 11, offset: 93861},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93892},
+												pos: position{line: 2968, col: 12, offset: 93971},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93893},
+													pos: position{line: 2968, col: 13, offset: 93972},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93893},
+															pos:        position{line: 2968, col: 13, offset: 93972},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93900},
+															pos:        position{line: 2968, col: 20, offset: 93979},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93909},
+															pos:        position{line: 2968, col: 29, offset: 93988},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93721},
+													pos: position{line: 2959, col: 10, offset: 93800},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93721},
+														pos:        position{line: 2959, col: 10, offset: 93800},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93721},
+											pos: position{line: 2959, col: 10, offset: 93800},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93721},
+												pos:        position{line: 2959, col: 10, offset: 93800},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2981, col: 8, offset: 94119},
+										pos: position{line: 2981, col: 8, offset: 94198},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93892},
+												pos: position{line: 2968, col: 12, offset: 93971},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93893},
+													pos: position{line: 2968, col: 13, offset: 93972},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93893},
+															pos:        position{line: 2968, col: 13, offset: 93972},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93900},
+															pos:        position{line: 2968, col: 20, offset: 93979},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93909},
+															pos:        position{line: 2968, col: 29, offset: 93988},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94069},
+												pos: position{line: 2978, col: 8, offset: 94148},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94070,
+													line: 2978, col: 9, offset: 94149,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80910},
+										pos: position{line: 2513, col: 5, offset: 80989},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80910},
+													pos: position{line: 2513, col: 5, offset: 80989},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80986},
+													pos:   position{line: 2516, col: 5, offset: 81065},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81004},
+														pos: position{line: 2517, col: 9, offset: 81083},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81005},
+															pos:        position{line: 2517, col: 10, offset: 81084},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93721},
+										pos: position{line: 2959, col: 10, offset: 93800},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93721},
+											pos:        position{line: 2959, col: 10, offset: 93800},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93721},
+													pos: position{line: 2959, col: 10, offset: 93800},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93721},
+														pos:        position{line: 2959, col: 10, offset: 93800},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94119},
+												pos: position{line: 2981, col: 8, offset: 94198},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93892},
+														pos: position{line: 2968, col: 12, offset: 93971},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93893},
+															pos: position{line: 2968, col: 13, offset: 93972},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93893},
+																	pos:        position{line: 2968, col: 13, offset: 93972},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93900},
+																	pos:        position{line: 2968, col: 20, offset: 93979},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93909},
+																	pos:        position{line: 2968, col: 29, offset: 93988},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94069},
+														pos: position{line: 2978, col: 8, offset: 94148},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94070,
+															line: 2978, col: 9, offset: 94149,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
+																pos: position{line: 2976, col: 11, offset: 94134},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
+																	line: 2976, col: 13, offset: 94136,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89743},
+																				pos: position{line: 2817, col: 14, offset: 89822},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89743},
+																					pos: position{line: 2817, col: 14, offset: 89822},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89743},
+																						pos:        position{line: 2817, col: 14, offset: 89822},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2849, col: 5, offset: 90536},
+																				pos: position{line: 2849, col: 5, offset: 90615},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2850, col: 9, offset: 90546},
+																					pos: position{line: 2850, col: 9, offset: 90625},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90547},
+																							pos:        position{line: 2850, col: 10, offset: 90626},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2852, col: 13, offset: 90644},
+																							pos: position{line: 2852, col: 13, offset: 90723},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2852, col: 13, offset: 90644},
+																									pos: position{line: 2852, col: 13, offset: 90723},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90744},
+																									pos:        position{line: 2855, col: 13, offset: 90823},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2855, col: 19, offset: 90750},
+																							pos:        position{line: 2855, col: 19, offset: 90829},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2858, col: 13, offset: 90788},
+																							pos: position{line: 2858, col: 13, offset: 90867},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2858, col: 13, offset: 90788},
+																									pos: position{line: 2858, col: 13, offset: 90867},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2861, col: 14, offset: 90881},
+																									pos:        position{line: 2861, col: 14, offset: 90960},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2863, col: 12, offset: 90925},
+																							pos: position{line: 2863, col: 12, offset: 91004},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2863, col: 12, offset: 90925},
+																									pos:        position{line: 2863, col: 12, offset: 91004},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2863, col: 16, offset: 90929},
+																									pos: position{line: 2863, col: 16, offset: 91008},
 																									expr: &litMatcher{
-																										pos:        position{line: 2863, col: 17, offset: 90930},
+																										pos:        position{line: 2863, col: 17, offset: 91009},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 91190},
+																				pos: position{line: 2871, col: 12, offset: 91269},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2871, col: 12, offset: 91190},
+																					pos:        position{line: 2871, col: 12, offset: 91269},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93721},
+													pos: position{line: 2959, col: 10, offset: 93800},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93721},
+														pos:        position{line: 2959, col: 10, offset: 93800},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94119},
+												pos: position{line: 2981, col: 8, offset: 94198},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93892},
+														pos: position{line: 2968, col: 12, offset: 93971},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93893},
+															pos: position{line: 2968, col: 13, offset: 93972},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93893},
+																	pos:        position{line: 2968, col: 13, offset: 93972},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93900},
+																	pos:        position{line: 2968, col: 20, offset: 93979},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93909},
+																	pos:        position{line: 2968, col: 29, offset: 93988},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94069},
+														pos: position{line: 2978, col: 8, offset: 94148},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94070,
+															line: 2978, col: 9, offset: 94149,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
+																pos: position{line: 2976, col: 11, offset: 94134},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
+																	line: 2976, col: 13, offset: 94136,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93721},
+													pos: position{line: 2959, col: 10, offset: 93800},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93721},
+														pos:        position{line: 2959, col: 10, offset: 93800},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94119},
+												pos: position{line: 2981, col: 8, offset: 94198},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93892},
+														pos: position{line: 2968, col: 12, offset: 93971},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93893},
+															pos: position{line: 2968, col: 13, offset: 93972},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93893},
+																	pos:        position{line: 2968, col: 13, offset: 93972},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93900},
+																	pos:        position{line: 2968, col: 20, offset: 93979},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93909},
+																	pos:        position{line: 2968, col: 29, offset: 93988},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94069},
+														pos: position{line: 2978, col: 8, offset: 94148},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94070,
+															line: 2978, col: 9, offset: 94149,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
+																pos: position{line: 2976, col: 11, offset: 94134},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
+																	line: 2976, col: 13, offset: 94136,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93721},
+											pos: position{line: 2959, col: 10, offset: 93800},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93721},
+												pos:        position{line: 2959, col: 10, offset: 93800},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93721},
+													pos: position{line: 2959, col: 10, offset: 93800},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93721},
+														pos:        position{line: 2959, col: 10, offset: 93800},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93721},
+												pos: position{line: 2959, col: 10, offset: 93800},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93721},
+													pos:        position{line: 2959, col: 10, offset: 93800},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93721},
+											pos: position{line: 2959, col: 10, offset: 93800},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93721},
+												pos:        position{line: 2959, col: 10, offset: 93800},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93721},
+												pos: position{line: 2959, col: 10, offset: 93800},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93721},
+													pos:        position{line: 2959, col: 10, offset: 93800},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89743},
+									pos: position{line: 2817, col: 14, offset: 89822},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89743},
+										pos: position{line: 2817, col: 14, offset: 89822},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89743},
+											pos:        position{line: 2817, col: 14, offset: 89822},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93721},
+									pos: position{line: 2959, col: 10, offset: 93800},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93721},
+										pos:        position{line: 2959, col: 10, offset: 93800},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93721},
+												pos: position{line: 2959, col: 10, offset: 93800},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93721},
+													pos:        position{line: 2959, col: 10, offset: 93800},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89743},
+									pos: position{line: 2817, col: 14, offset: 89822},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89743},
+										pos: position{line: 2817, col: 14, offset: 89822},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89743},
+											pos:        position{line: 2817, col: 14, offset: 89822},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93721},
+									pos: position{line: 2959, col: 10, offset: 93800},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93721},
+										pos:        position{line: 2959, col: 10, offset: 93800},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93721},
+											pos: position{line: 2959, col: 10, offset: 93800},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93721},
+												pos:        position{line: 2959, col: 10, offset: 93800},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93373},
+										pos: position{line: 2944, col: 7, offset: 93452},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93373},
+											pos: position{line: 2944, col: 7, offset: 93452},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93373},
+												pos:        position{line: 2944, col: 7, offset: 93452},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93721},
+										pos: position{line: 2959, col: 10, offset: 93800},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93721},
+											pos:        position{line: 2959, col: 10, offset: 93800},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93373},
+										pos: position{line: 2944, col: 7, offset: 93452},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93373},
+											pos: position{line: 2944, col: 7, offset: 93452},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93373},
+												pos:        position{line: 2944, col: 7, offset: 93452},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 17, offset: 91545},
+								pos: position{line: 2886, col: 17, offset: 91624},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2886, col: 17, offset: 91545},
+									pos:   position{line: 2886, col: 17, offset: 91624},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 5, offset: 92130},
+										pos: position{line: 2907, col: 5, offset: 92209},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2907, col: 5, offset: 92130},
+											pos:   position{line: 2907, col: 5, offset: 92209},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2907, col: 14, offset: 92139},
+												pos: position{line: 2907, col: 14, offset: 92218},
 												expr: &choiceExpr{
-													pos: position{line: 2908, col: 9, offset: 92149},
+													pos: position{line: 2908, col: 9, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2908, col: 9, offset: 92149},
+															pos: position{line: 2908, col: 9, offset: 92228},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2908, col: 9, offset: 92149},
+																pos: position{line: 2908, col: 9, offset: 92228},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2908, col: 9, offset: 92149},
+																		pos: position{line: 2908, col: 9, offset: 92228},
 																		expr: &litMatcher{
-																			pos:        position{line: 2908, col: 10, offset: 92150},
+																			pos:        position{line: 2908, col: 10, offset: 92229},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2909, col: 9, offset: 92178},
+																		pos: position{line: 2909, col: 9, offset: 92257},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 92179},
+																			pos:        position{line: 2909, col: 10, offset: 92258},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2912, col: 11, offset: 92391},
+															pos: position{line: 2912, col: 11, offset: 92470},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2912, col: 11, offset: 92391},
+																	pos:        position{line: 2912, col: 11, offset: 92470},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2912, col: 19, offset: 92399},
+																	pos: position{line: 2912, col: 19, offset: 92478},
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 21, offset: 92401},
+																		pos: position{line: 2912, col: 21, offset: 92480},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 21, offset: 92401},
+																				pos: position{line: 2912, col: 21, offset: 92480},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93721},
+																					pos: position{line: 2959, col: 10, offset: 93800},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93721},
+																						pos:        position{line: 2959, col: 10, offset: 93800},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2912, col: 28, offset: 92408},
+																				pos: position{line: 2912, col: 28, offset: 92487},
 																				expr: &notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2915, col: 11, offset: 92528},
+															pos: position{line: 2915, col: 11, offset: 92607},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2915, col: 11, offset: 92528},
+																pos:        position{line: 2915, col: 11, offset: 92607},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2882, col: 14, offset: 91475},
+								pos: position{line: 2882, col: 14, offset: 91554},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2882, col: 14, offset: 91475},
+									pos: position{line: 2882, col: 14, offset: 91554},
 									expr: &charClassMatcher{
-										pos:        position{line: 2882, col: 14, offset: 91475},
+										pos:        position{line: 2882, col: 14, offset: 91554},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81364},
+										pos: position{line: 2526, col: 22, offset: 81443},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81585},
+													pos:        position{line: 2531, col: 31, offset: 81664},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81590},
+													pos: position{line: 2531, col: 36, offset: 81669},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81591},
+														pos:        position{line: 2531, col: 37, offset: 81670},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81391},
+													pos:   position{line: 2526, col: 49, offset: 81470},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91408},
+														pos: position{line: 2878, col: 13, offset: 91487},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91408},
+																pos:        position{line: 2878, col: 13, offset: 91487},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81364},
+										pos: position{line: 2526, col: 22, offset: 81443},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81585},
+													pos:        position{line: 2531, col: 31, offset: 81664},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81590},
+													pos: position{line: 2531, col: 36, offset: 81669},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81591},
+														pos:        position{line: 2531, col: 37, offset: 81670},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81391},
+													pos:   position{line: 2526, col: 49, offset: 81470},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91408},
+														pos: position{line: 2878, col: 13, offset: 91487},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91408},
+																pos:        position{line: 2878, col: 13, offset: 91487},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94055},
+																										pos: position{line: 2976, col: 11, offset: 94134},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94057,
+																											line: 2976, col: 13, offset: 94136,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81364},
+															pos: position{line: 2526, col: 22, offset: 81443},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81364},
+																pos: position{line: 2526, col: 22, offset: 81443},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81585},
+																		pos:        position{line: 2531, col: 31, offset: 81664},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81590},
+																		pos: position{line: 2531, col: 36, offset: 81669},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81591},
+																			pos:        position{line: 2531, col: 37, offset: 81670},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81391},
+																		pos:   position{line: 2526, col: 49, offset: 81470},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91408},
+																			pos: position{line: 2878, col: 13, offset: 91487},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91408},
+																				pos: position{line: 2878, col: 13, offset: 91487},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91408},
+																					pos:        position{line: 2878, col: 13, offset: 91487},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2959, col: 10, offset: 93721},
+																																	pos: position{line: 2959, col: 10, offset: 93800},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2959, col: 10, offset: 93721},
+																																		pos:        position{line: 2959, col: 10, offset: 93800},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2981, col: 8, offset: 94119},
+																																pos: position{line: 2981, col: 8, offset: 94198},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93892},
+																																		pos: position{line: 2968, col: 12, offset: 93971},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93893},
+																																			pos: position{line: 2968, col: 13, offset: 93972},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93893},
+																																					pos:        position{line: 2968, col: 13, offset: 93972},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93900},
+																																					pos:        position{line: 2968, col: 20, offset: 93979},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93909},
+																																					pos:        position{line: 2968, col: 29, offset: 93988},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2978, col: 8, offset: 94069},
+																																		pos: position{line: 2978, col: 8, offset: 94148},
 																																		expr: &anyMatcher{
-																																			line: 2978, col: 9, offset: 94070,
+																																			line: 2978, col: 9, offset: 94149,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94055},
+																											pos: position{line: 2976, col: 11, offset: 94134},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94057,
+																												line: 2976, col: 13, offset: 94136,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 13, offset: 91408},
+																												pos: position{line: 2878, col: 13, offset: 91487},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2878, col: 13, offset: 91408},
+																													pos: position{line: 2878, col: 13, offset: 91487},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 13, offset: 91408},
+																														pos:        position{line: 2878, col: 13, offset: 91487},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93721},
+															pos: position{line: 2959, col: 10, offset: 93800},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93721},
+																pos:        position{line: 2959, col: 10, offset: 93800},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81364},
+												pos: position{line: 2526, col: 22, offset: 81443},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81585},
+														pos:        position{line: 2531, col: 31, offset: 81664},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81590},
+														pos: position{line: 2531, col: 36, offset: 81669},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81591},
+															pos:        position{line: 2531, col: 37, offset: 81670},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81391},
+														pos:   position{line: 2526, col: 49, offset: 81470},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91408},
+																pos: position{line: 2878, col: 13, offset: 91487},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91408},
+																	pos:        position{line: 2878, col: 13, offset: 91487},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93721},
+																													pos: position{line: 2959, col: 10, offset: 93800},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93721},
+																														pos:        position{line: 2959, col: 10, offset: 93800},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94119},
+																												pos: position{line: 2981, col: 8, offset: 94198},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93892},
+																														pos: position{line: 2968, col: 12, offset: 93971},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93893},
+																															pos: position{line: 2968, col: 13, offset: 93972},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93893},
+																																	pos:        position{line: 2968, col: 13, offset: 93972},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93900},
+																																	pos:        position{line: 2968, col: 20, offset: 93979},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93909},
+																																	pos:        position{line: 2968, col: 29, offset: 93988},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94069},
+																														pos: position{line: 2978, col: 8, offset: 94148},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94070,
+																															line: 2978, col: 9, offset: 94149,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91408},
+																									pos: position{line: 2878, col: 13, offset: 91487},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91408},
+																										pos:        position{line: 2878, col: 13, offset: 91487},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93782},
+							pos: position{line: 2963, col: 11, offset: 93861},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93782},
+								pos: position{line: 2963, col: 11, offset: 93861},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93782},
+									pos:        position{line: 2963, col: 11, offset: 93861},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 7, offset: 93373},
+								pos: position{line: 2944, col: 7, offset: 93452},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2944, col: 7, offset: 93373},
+									pos: position{line: 2944, col: 7, offset: 93452},
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 7, offset: 93373},
+										pos:        position{line: 2944, col: 7, offset: 93452},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89743},
+									pos: position{line: 2817, col: 14, offset: 89822},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89743},
+										pos: position{line: 2817, col: 14, offset: 89822},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89743},
+											pos:        position{line: 2817, col: 14, offset: 89822},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93721},
+									pos: position{line: 2959, col: 10, offset: 93800},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93721},
+										pos:        position{line: 2959, col: 10, offset: 93800},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2513, col: 5, offset: 80910},
+									pos: position{line: 2513, col: 5, offset: 80989},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2513, col: 5, offset: 80910},
+										pos: position{line: 2513, col: 5, offset: 80989},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2513, col: 5, offset: 80910},
+												pos: position{line: 2513, col: 5, offset: 80989},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2516, col: 5, offset: 80986},
+												pos:   position{line: 2516, col: 5, offset: 81065},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2517, col: 9, offset: 81004},
+													pos: position{line: 2517, col: 9, offset: 81083},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81005},
+														pos:        position{line: 2517, col: 10, offset: 81084},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91641},
+								pos: position{line: 2890, col: 13, offset: 91720},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91641},
+									pos: position{line: 2890, col: 13, offset: 91720},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91641},
+											pos:   position{line: 2890, col: 13, offset: 91720},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91648},
+												pos: position{line: 2890, col: 20, offset: 91727},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 92018},
+													pos: position{line: 2902, col: 11, offset: 92097},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 92019},
+														pos: position{line: 2902, col: 12, offset: 92098},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 92019},
+																pos:        position{line: 2902, col: 12, offset: 92098},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92031},
+																pos:        position{line: 2902, col: 24, offset: 92110},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92044},
+																pos:        position{line: 2902, col: 37, offset: 92123},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92055},
+																pos:        position{line: 2902, col: 48, offset: 92134},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92066},
+																pos:        position{line: 2902, col: 59, offset: 92145},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91658},
+											pos:   position{line: 2890, col: 30, offset: 91737},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92130},
+												pos: position{line: 2907, col: 5, offset: 92209},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92130},
+													pos:   position{line: 2907, col: 5, offset: 92209},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92139},
+														pos: position{line: 2907, col: 14, offset: 92218},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92149},
+															pos: position{line: 2908, col: 9, offset: 92228},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92149},
+																		pos: position{line: 2908, col: 9, offset: 92228},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92150},
+																					pos:        position{line: 2908, col: 10, offset: 92229},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92178},
+																				pos: position{line: 2909, col: 9, offset: 92257},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92179},
+																					pos:        position{line: 2909, col: 10, offset: 92258},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92391},
+																	pos: position{line: 2912, col: 11, offset: 92470},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92391},
+																			pos:        position{line: 2912, col: 11, offset: 92470},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92399},
+																			pos: position{line: 2912, col: 19, offset: 92478},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92401},
+																				pos: position{line: 2912, col: 21, offset: 92480},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92408},
+																						pos: position{line: 2912, col: 28, offset: 92487},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92528},
+																	pos: position{line: 2915, col: 11, offset: 92607},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92528},
+																		pos:        position{line: 2915, col: 11, offset: 92607},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91641},
+								pos: position{line: 2890, col: 13, offset: 91720},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91641},
+									pos: position{line: 2890, col: 13, offset: 91720},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91641},
+											pos:   position{line: 2890, col: 13, offset: 91720},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91648},
+												pos: position{line: 2890, col: 20, offset: 91727},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 92018},
+													pos: position{line: 2902, col: 11, offset: 92097},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 92019},
+														pos: position{line: 2902, col: 12, offset: 92098},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 92019},
+																pos:        position{line: 2902, col: 12, offset: 92098},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92031},
+																pos:        position{line: 2902, col: 24, offset: 92110},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92044},
+																pos:        position{line: 2902, col: 37, offset: 92123},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92055},
+																pos:        position{line: 2902, col: 48, offset: 92134},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92066},
+																pos:        position{line: 2902, col: 59, offset: 92145},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91658},
+											pos:   position{line: 2890, col: 30, offset: 91737},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92130},
+												pos: position{line: 2907, col: 5, offset: 92209},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92130},
+													pos:   position{line: 2907, col: 5, offset: 92209},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92139},
+														pos: position{line: 2907, col: 14, offset: 92218},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92149},
+															pos: position{line: 2908, col: 9, offset: 92228},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92149},
+																		pos: position{line: 2908, col: 9, offset: 92228},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92150},
+																					pos:        position{line: 2908, col: 10, offset: 92229},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92178},
+																				pos: position{line: 2909, col: 9, offset: 92257},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92179},
+																					pos:        position{line: 2909, col: 10, offset: 92258},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92391},
+																	pos: position{line: 2912, col: 11, offset: 92470},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92391},
+																			pos:        position{line: 2912, col: 11, offset: 92470},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92399},
+																			pos: position{line: 2912, col: 19, offset: 92478},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92401},
+																				pos: position{line: 2912, col: 21, offset: 92480},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92408},
+																						pos: position{line: 2912, col: 28, offset: 92487},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92528},
+																	pos: position{line: 2915, col: 11, offset: 92607},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92528},
+																		pos:        position{line: 2915, col: 11, offset: 92607},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89816},
+										pos: position{line: 2822, col: 5, offset: 89895},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89816},
+											pos: position{line: 2822, col: 5, offset: 89895},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89816},
+													pos: position{line: 2822, col: 5, offset: 89895},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89827},
+														pos: position{line: 2823, col: 9, offset: 89906},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89827},
+																pos: position{line: 2823, col: 9, offset: 89906},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89890},
+																pos:   position{line: 2826, col: 9, offset: 89969},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89202},
+																	pos: position{line: 2798, col: 18, offset: 89281},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89203},
+																		pos: position{line: 2798, col: 19, offset: 89282},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89203},
+																			pos:        position{line: 2798, col: 19, offset: 89282},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89911},
+																pos:        position{line: 2826, col: 30, offset: 89990},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89998},
+																pos: position{line: 2827, col: 9, offset: 90077},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90110},
+													pos:   position{line: 2831, col: 5, offset: 90189},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90116},
+														pos: position{line: 2831, col: 11, offset: 90195},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90116},
+															pos: position{line: 2831, col: 11, offset: 90195},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90116},
+																pos:        position{line: 2831, col: 11, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90174},
+													pos: position{line: 2834, col: 5, offset: 90253},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90185},
+														pos: position{line: 2835, col: 9, offset: 90264},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90185},
+																pos:        position{line: 2835, col: 9, offset: 90264},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90234},
+																pos: position{line: 2836, col: 9, offset: 90313},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90314},
+													pos: position{line: 2840, col: 5, offset: 90393},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90325},
+														pos: position{line: 2841, col: 9, offset: 90404},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90325},
+																pos: position{line: 2841, col: 9, offset: 90404},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90325},
+																	pos:        position{line: 2841, col: 9, offset: 90404},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90339},
+																pos:        position{line: 2841, col: 23, offset: 90418},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90343},
+																pos:        position{line: 2841, col: 27, offset: 90422},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93782},
+										pos: position{line: 2963, col: 11, offset: 93861},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93782},
+											pos: position{line: 2963, col: 11, offset: 93861},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93782},
+												pos:        position{line: 2963, col: 11, offset: 93861},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82081},
+										pos: position{line: 2544, col: 5, offset: 82160},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82081},
+											pos: position{line: 2544, col: 5, offset: 82160},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82081},
+													pos: position{line: 2544, col: 5, offset: 82160},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82152},
+													pos:        position{line: 2547, col: 5, offset: 82231},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82157},
+													pos: position{line: 2547, col: 10, offset: 82236},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82158},
+														pos:        position{line: 2547, col: 11, offset: 82237},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82344},
+										pos: position{line: 2553, col: 5, offset: 82423},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82344},
+											pos: position{line: 2553, col: 5, offset: 82423},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82344},
+													pos: position{line: 2553, col: 5, offset: 82423},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82415},
+													pos: position{line: 2556, col: 5, offset: 82494},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82540},
+													pos:        position{line: 2560, col: 5, offset: 82619},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82544},
+													pos: position{line: 2560, col: 9, offset: 82623},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82545},
+														pos:        position{line: 2560, col: 10, offset: 82624},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90536},
+										pos: position{line: 2849, col: 5, offset: 90615},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90546},
+											pos: position{line: 2850, col: 9, offset: 90625},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90547},
+													pos:        position{line: 2850, col: 10, offset: 90626},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90644},
+													pos: position{line: 2852, col: 13, offset: 90723},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90644},
+															pos: position{line: 2852, col: 13, offset: 90723},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90744},
+															pos:        position{line: 2855, col: 13, offset: 90823},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90750},
+													pos:        position{line: 2855, col: 19, offset: 90829},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90788},
+													pos: position{line: 2858, col: 13, offset: 90867},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90788},
+															pos: position{line: 2858, col: 13, offset: 90867},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90881},
+															pos:        position{line: 2861, col: 14, offset: 90960},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90925},
+													pos: position{line: 2863, col: 12, offset: 91004},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90925},
+															pos:        position{line: 2863, col: 12, offset: 91004},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90929},
+															pos: position{line: 2863, col: 16, offset: 91008},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90930},
+																pos:        position{line: 2863, col: 17, offset: 91009},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80910},
+										pos: position{line: 2513, col: 5, offset: 80989},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80910},
+													pos: position{line: 2513, col: 5, offset: 80989},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80986},
+													pos:   position{line: 2516, col: 5, offset: 81065},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81004},
+														pos: position{line: 2517, col: 9, offset: 81083},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81005},
+															pos:        position{line: 2517, col: 10, offset: 81084},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93892},
+										pos: position{line: 2968, col: 12, offset: 93971},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93893},
+											pos: position{line: 2968, col: 13, offset: 93972},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93893},
+													pos:        position{line: 2968, col: 13, offset: 93972},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93900},
+													pos:        position{line: 2968, col: 20, offset: 93979},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93909},
+													pos:        position{line: 2968, col: 29, offset: 93988},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91190},
+										pos: position{line: 2871, col: 12, offset: 91269},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91190},
+											pos:        position{line: 2871, col: 12, offset: 91269},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22368,55 +22368,55 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 5, offset: 46220},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91768},
+										pos: position{line: 2894, col: 23, offset: 91847},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91768},
+											pos: position{line: 2894, col: 23, offset: 91847},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91768},
+													pos: position{line: 2894, col: 23, offset: 91847},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91769},
+														pos:        position{line: 2894, col: 24, offset: 91848},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91773},
+													pos:   position{line: 2894, col: 28, offset: 91852},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92018},
+														pos: position{line: 2902, col: 11, offset: 92097},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92019},
+															pos: position{line: 2902, col: 12, offset: 92098},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92019},
+																	pos:        position{line: 2902, col: 12, offset: 92098},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92031},
+																	pos:        position{line: 2902, col: 24, offset: 92110},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92044},
+																	pos:        position{line: 2902, col: 37, offset: 92123},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92055},
+																	pos:        position{line: 2902, col: 48, offset: 92134},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92066},
+																	pos:        position{line: 2902, col: 59, offset: 92145},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91789},
+													pos:   position{line: 2894, col: 44, offset: 91868},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -22896,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23101,48 +23101,48 @@ var g = &grammar{
 									pos:   position{line: 1452, col: 17, offset: 46635},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91641},
+										pos: position{line: 2890, col: 13, offset: 91720},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91641},
+											pos: position{line: 2890, col: 13, offset: 91720},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91641},
+													pos:   position{line: 2890, col: 13, offset: 91720},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91648},
+														pos: position{line: 2890, col: 20, offset: 91727},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 92018},
+															pos: position{line: 2902, col: 11, offset: 92097},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 92019},
+																pos: position{line: 2902, col: 12, offset: 92098},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 92019},
+																		pos:        position{line: 2902, col: 12, offset: 92098},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92031},
+																		pos:        position{line: 2902, col: 24, offset: 92110},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92044},
+																		pos:        position{line: 2902, col: 37, offset: 92123},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92055},
+																		pos:        position{line: 2902, col: 48, offset: 92134},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92066},
+																		pos:        position{line: 2902, col: 59, offset: 92145},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91658},
+													pos:   position{line: 2890, col: 30, offset: 91737},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -23623,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23669,48 +23669,48 @@ var g = &grammar{
 									pos:   position{line: 1457, col: 13, offset: 46796},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91641},
+										pos: position{line: 2890, col: 13, offset: 91720},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91641},
+											pos: position{line: 2890, col: 13, offset: 91720},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91641},
+													pos:   position{line: 2890, col: 13, offset: 91720},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91648},
+														pos: position{line: 2890, col: 20, offset: 91727},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 92018},
+															pos: position{line: 2902, col: 11, offset: 92097},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 92019},
+																pos: position{line: 2902, col: 12, offset: 92098},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 92019},
+																		pos:        position{line: 2902, col: 12, offset: 92098},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92031},
+																		pos:        position{line: 2902, col: 24, offset: 92110},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92044},
+																		pos:        position{line: 2902, col: 37, offset: 92123},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92055},
+																		pos:        position{line: 2902, col: 48, offset: 92134},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92066},
+																		pos:        position{line: 2902, col: 59, offset: 92145},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91658},
+													pos:   position{line: 2890, col: 30, offset: 91737},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -24191,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24246,55 +24246,55 @@ var g = &grammar{
 									pos:   position{line: 1464, col: 9, offset: 47105},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91768},
+										pos: position{line: 2894, col: 23, offset: 91847},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91768},
+											pos: position{line: 2894, col: 23, offset: 91847},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91768},
+													pos: position{line: 2894, col: 23, offset: 91847},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91769},
+														pos:        position{line: 2894, col: 24, offset: 91848},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91773},
+													pos:   position{line: 2894, col: 28, offset: 91852},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92018},
+														pos: position{line: 2902, col: 11, offset: 92097},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92019},
+															pos: position{line: 2902, col: 12, offset: 92098},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92019},
+																	pos:        position{line: 2902, col: 12, offset: 92098},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92031},
+																	pos:        position{line: 2902, col: 24, offset: 92110},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92044},
+																	pos:        position{line: 2902, col: 37, offset: 92123},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92055},
+																	pos:        position{line: 2902, col: 48, offset: 92134},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92066},
+																	pos:        position{line: 2902, col: 59, offset: 92145},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91789},
+													pos:   position{line: 2894, col: 44, offset: 91868},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -24774,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24817,55 +24817,55 @@ var g = &grammar{
 									pos:   position{line: 1469, col: 5, offset: 47269},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91768},
+										pos: position{line: 2894, col: 23, offset: 91847},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91768},
+											pos: position{line: 2894, col: 23, offset: 91847},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91768},
+													pos: position{line: 2894, col: 23, offset: 91847},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91769},
+														pos:        position{line: 2894, col: 24, offset: 91848},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91773},
+													pos:   position{line: 2894, col: 28, offset: 91852},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92018},
+														pos: position{line: 2902, col: 11, offset: 92097},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92019},
+															pos: position{line: 2902, col: 12, offset: 92098},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92019},
+																	pos:        position{line: 2902, col: 12, offset: 92098},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92031},
+																	pos:        position{line: 2902, col: 24, offset: 92110},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92044},
+																	pos:        position{line: 2902, col: 37, offset: 92123},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92055},
+																	pos:        position{line: 2902, col: 48, offset: 92134},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92066},
+																	pos:        position{line: 2902, col: 59, offset: 92145},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91789},
+													pos:   position{line: 2894, col: 44, offset: 91868},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92130},
+														pos: position{line: 2907, col: 5, offset: 92209},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92130},
+															pos:   position{line: 2907, col: 5, offset: 92209},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92139},
+																pos: position{line: 2907, col: 14, offset: 92218},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92149},
+																	pos: position{line: 2908, col: 9, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92149},
+																			pos: position{line: 2908, col: 9, offset: 92228},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92149},
+																				pos: position{line: 2908, col: 9, offset: 92228},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92149},
+																						pos: position{line: 2908, col: 9, offset: 92228},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92150},
+																							pos:        position{line: 2908, col: 10, offset: 92229},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92178},
+																						pos: position{line: 2909, col: 9, offset: 92257},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92179},
+																							pos:        position{line: 2909, col: 10, offset: 92258},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92391},
+																			pos: position{line: 2912, col: 11, offset: 92470},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92391},
+																					pos:        position{line: 2912, col: 11, offset: 92470},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92399},
+																					pos: position{line: 2912, col: 19, offset: 92478},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92401},
+																						pos: position{line: 2912, col: 21, offset: 92480},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92401},
+																								pos: position{line: 2912, col: 21, offset: 92480},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92408},
+																								pos: position{line: 2912, col: 28, offset: 92487},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -25345,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92528},
+																			pos: position{line: 2915, col: 11, offset: 92607},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92528},
+																				pos:        position{line: 2915, col: 11, offset: 92607},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25382,55 +25382,55 @@ var g = &grammar{
 							pos:   position{line: 1474, col: 5, offset: 47432},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 27, offset: 91903},
+								pos: position{line: 2898, col: 27, offset: 91982},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2898, col: 27, offset: 91903},
+									pos: position{line: 2898, col: 27, offset: 91982},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2898, col: 27, offset: 91903},
+											pos: position{line: 2898, col: 27, offset: 91982},
 											expr: &litMatcher{
-												pos:        position{line: 2898, col: 28, offset: 91904},
+												pos:        position{line: 2898, col: 28, offset: 91983},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 32, offset: 91908},
+											pos:   position{line: 2898, col: 32, offset: 91987},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 11, offset: 92018},
+												pos: position{line: 2902, col: 11, offset: 92097},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2902, col: 12, offset: 92019},
+													pos: position{line: 2902, col: 12, offset: 92098},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2902, col: 12, offset: 92019},
+															pos:        position{line: 2902, col: 12, offset: 92098},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 24, offset: 92031},
+															pos:        position{line: 2902, col: 24, offset: 92110},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 37, offset: 92044},
+															pos:        position{line: 2902, col: 37, offset: 92123},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 48, offset: 92055},
+															pos:        position{line: 2902, col: 48, offset: 92134},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 59, offset: 92066},
+															pos:        position{line: 2902, col: 59, offset: 92145},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 48, offset: 91924},
+											pos:   position{line: 2898, col: 48, offset: 92003},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2923, col: 5, offset: 92814},
+												pos: position{line: 2923, col: 5, offset: 92893},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2923, col: 5, offset: 92814},
+													pos:   position{line: 2923, col: 5, offset: 92893},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2923, col: 14, offset: 92823},
+														pos: position{line: 2923, col: 14, offset: 92902},
 														expr: &choiceExpr{
-															pos: position{line: 2924, col: 9, offset: 92833},
+															pos: position{line: 2924, col: 9, offset: 92912},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2924, col: 9, offset: 92833},
+																	pos: position{line: 2924, col: 9, offset: 92912},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2924, col: 9, offset: 92833},
+																		pos: position{line: 2924, col: 9, offset: 92912},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2924, col: 10, offset: 92834},
+																			pos:        position{line: 2924, col: 10, offset: 92913},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2927, col: 11, offset: 92925},
+																	pos: position{line: 2927, col: 11, offset: 93004},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2927, col: 11, offset: 92925},
+																		pos: position{line: 2927, col: 11, offset: 93004},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 11, offset: 92925},
+																				pos:        position{line: 2927, col: 11, offset: 93004},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2927, col: 15, offset: 92929},
+																				pos: position{line: 2927, col: 15, offset: 93008},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2927, col: 15, offset: 92929},
+																					pos:        position{line: 2927, col: 15, offset: 93008},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 39, offset: 92953},
+																				pos:        position{line: 2927, col: 39, offset: 93032},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2930, col: 11, offset: 93018},
+																	pos: position{line: 2930, col: 11, offset: 93097},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2930, col: 11, offset: 93018},
+																		pos:        position{line: 2930, col: 11, offset: 93097},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2933, col: 11, offset: 93083},
+																	pos: position{line: 2933, col: 11, offset: 93162},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2933, col: 11, offset: 93083},
+																		pos: position{line: 2933, col: 11, offset: 93162},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2933, col: 11, offset: 93083},
+																				pos: position{line: 2933, col: 11, offset: 93162},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 11, offset: 93083},
+																					pos:        position{line: 2933, col: 11, offset: 93162},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2933, col: 21, offset: 93093},
+																				pos: position{line: 2933, col: 21, offset: 93172},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 23, offset: 93095},
+																					pos:        position{line: 2933, col: 23, offset: 93174},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 93236},
+																	pos: position{line: 2938, col: 11, offset: 93315},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2938, col: 11, offset: 93236},
+																		pos:        position{line: 2938, col: 11, offset: 93315},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25962,27 +25962,27 @@ var g = &grammar{
 								pos: position{line: 1515, col: 5, offset: 48817},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51816},
+										pos: position{line: 1609, col: 5, offset: 51895},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51816},
+											pos: position{line: 1609, col: 5, offset: 51895},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51816},
+													pos:   position{line: 1609, col: 5, offset: 51895},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52024},
+														pos: position{line: 1616, col: 5, offset: 52103},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52024},
+															pos: position{line: 1616, col: 5, offset: 52103},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52024},
+																	pos: position{line: 1616, col: 5, offset: 52103},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25991,27 +25991,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52031},
+																	pos:   position{line: 1616, col: 12, offset: 52110},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52094},
+																		pos: position{line: 1618, col: 9, offset: 52173},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52094},
+																				pos: position{line: 1618, col: 9, offset: 52173},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52094},
+																					pos: position{line: 1618, col: 9, offset: 52173},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52094},
+																							pos:   position{line: 1618, col: 9, offset: 52173},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52101},
+																								pos: position{line: 1618, col: 16, offset: 52180},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52101},
+																									pos: position{line: 1618, col: 16, offset: 52180},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52102},
+																										pos:        position{line: 1618, col: 17, offset: 52181},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26020,22 +26020,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52202},
+																							pos: position{line: 1622, col: 9, offset: 52281},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52919},
+																				pos: position{line: 1641, col: 11, offset: 52998},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52919},
+																					pos: position{line: 1641, col: 11, offset: 52998},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52919},
+																							pos: position{line: 1641, col: 11, offset: 52998},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52920},
+																								pos:        position{line: 1641, col: 12, offset: 52999},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26043,7 +26043,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52928},
+																							pos:        position{line: 1641, col: 20, offset: 53007},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26052,20 +26052,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53045},
+																				pos: position{line: 1643, col: 13, offset: 53124},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53045},
+																					pos: position{line: 1643, col: 13, offset: 53124},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53046},
+																							pos:        position{line: 1643, col: 14, offset: 53125},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53053},
+																							pos:        position{line: 1643, col: 21, offset: 53132},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26074,20 +26074,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53173},
+																				pos: position{line: 1645, col: 13, offset: 53252},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53173},
+																					pos: position{line: 1645, col: 13, offset: 53252},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53174},
+																							pos:        position{line: 1645, col: 14, offset: 53253},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53181},
+																							pos:        position{line: 1645, col: 21, offset: 53260},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26096,15 +26096,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53301},
+																				pos: position{line: 1647, col: 13, offset: 53380},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53301},
+																					pos: position{line: 1647, col: 13, offset: 53380},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53301},
+																							pos: position{line: 1647, col: 13, offset: 53380},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53302},
+																								pos:        position{line: 1647, col: 14, offset: 53381},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26112,7 +26112,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53314},
+																							pos:        position{line: 1647, col: 26, offset: 53393},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26121,15 +26121,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53434},
+																				pos: position{line: 1649, col: 13, offset: 53513},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53434},
+																					pos: position{line: 1649, col: 13, offset: 53513},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53434},
+																							pos: position{line: 1649, col: 13, offset: 53513},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53435},
+																								pos:        position{line: 1649, col: 14, offset: 53514},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26137,7 +26137,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53447},
+																							pos:        position{line: 1649, col: 26, offset: 53526},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26149,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26167,7 +26167,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51855},
+													pos:   position{line: 1610, col: 5, offset: 51934},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -26197,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -26242,27 +26242,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53713},
+										pos: position{line: 1659, col: 5, offset: 53792},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53713},
+											pos: position{line: 1659, col: 5, offset: 53792},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53713},
+													pos:   position{line: 1659, col: 5, offset: 53792},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 53986},
+														pos: position{line: 1666, col: 5, offset: 54065},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 53986},
+															pos: position{line: 1666, col: 5, offset: 54065},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 53986},
+																	pos: position{line: 1666, col: 5, offset: 54065},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26271,24 +26271,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53998},
+																	pos:   position{line: 1667, col: 5, offset: 54077},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54014},
+																		pos: position{line: 1668, col: 9, offset: 54093},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54015},
+																			pos: position{line: 1668, col: 10, offset: 54094},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54016},
+																					pos:        position{line: 1668, col: 11, offset: 54095},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54023},
+																					pos: position{line: 1668, col: 18, offset: 54102},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54024},
+																						pos:        position{line: 1668, col: 19, offset: 54103},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26299,16 +26299,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54114},
+																	pos: position{line: 1671, col: 7, offset: 54193},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26321,56 +26321,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53754},
+													pos:   position{line: 1660, col: 5, offset: 53833},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53765},
+														pos: position{line: 1660, col: 16, offset: 53844},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54379},
+															pos: position{line: 1681, col: 5, offset: 54458},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54379},
+																pos: position{line: 1681, col: 5, offset: 54458},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54379},
+																		pos: position{line: 1681, col: 5, offset: 54458},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54380},
+																			pos:        position{line: 1681, col: 6, offset: 54459},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54384},
+																		pos:   position{line: 1681, col: 10, offset: 54463},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54398},
+																			pos: position{line: 1682, col: 7, offset: 54477},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54398},
+																					pos: position{line: 1682, col: 7, offset: 54477},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54398},
+																						pos:        position{line: 1682, col: 7, offset: 54477},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54443},
+																					pos: position{line: 1683, col: 7, offset: 54522},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54443},
+																						pos:        position{line: 1683, col: 7, offset: 54522},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54486},
+																					pos: position{line: 1684, col: 7, offset: 54565},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54486},
+																						pos:        position{line: 1684, col: 7, offset: 54565},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26380,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26399,7 +26399,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53804},
+													pos:   position{line: 1661, col: 5, offset: 53883},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -26429,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -26474,36 +26474,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56326},
+										pos: position{line: 1749, col: 5, offset: 56405},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56326},
+											pos: position{line: 1749, col: 5, offset: 56405},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56326},
+													pos:   position{line: 1749, col: 5, offset: 56405},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56523},
+														pos: position{line: 1755, col: 5, offset: 56602},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56523},
+															pos: position{line: 1755, col: 5, offset: 56602},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56523},
+																	pos:        position{line: 1755, col: 5, offset: 56602},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56527},
+																	pos:   position{line: 1755, col: 9, offset: 56606},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56532},
+																		pos: position{line: 1755, col: 14, offset: 56611},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56532},
+																			pos: position{line: 1755, col: 14, offset: 56611},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56532},
+																				pos:        position{line: 1755, col: 14, offset: 56611},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26513,18 +26513,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56580},
+																	pos:        position{line: 1755, col: 62, offset: 56659},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26537,7 +26537,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56362},
+													pos:   position{line: 1750, col: 5, offset: 56441},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -26567,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -26612,40 +26612,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54679},
+										pos: position{line: 1693, col: 5, offset: 54758},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54679},
+											pos: position{line: 1693, col: 5, offset: 54758},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54679},
+													pos:   position{line: 1693, col: 5, offset: 54758},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55005},
+														pos: position{line: 1701, col: 5, offset: 55084},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55005},
+															pos: position{line: 1701, col: 5, offset: 55084},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55006},
+																pos: position{line: 1701, col: 6, offset: 55085},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55006},
+																		pos: position{line: 1701, col: 6, offset: 55085},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55156},
+																			pos: position{line: 1706, col: 5, offset: 55235},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55156},
+																				pos: position{line: 1706, col: 5, offset: 55235},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55156},
+																						pos:   position{line: 1706, col: 5, offset: 55235},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55167},
+																							pos: position{line: 1706, col: 16, offset: 55246},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55167},
+																								pos: position{line: 1706, col: 16, offset: 55246},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55168},
+																									pos:        position{line: 1706, col: 17, offset: 55247},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26654,7 +26654,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55225},
+																						pos: position{line: 1709, col: 5, offset: 55304},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26662,30 +26662,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55035},
+																		pos: position{line: 1701, col: 35, offset: 55114},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,16 +26694,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55040,
+																		line: 1701, col: 40, offset: 55119,
 																	},
 																},
 															},
@@ -26711,24 +26711,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54714},
+													pos:   position{line: 1694, col: 5, offset: 54793},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55156},
+														pos: position{line: 1706, col: 5, offset: 55235},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55156},
+															pos: position{line: 1706, col: 5, offset: 55235},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55156},
+																	pos:   position{line: 1706, col: 5, offset: 55235},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55167},
+																		pos: position{line: 1706, col: 16, offset: 55246},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55167},
+																			pos: position{line: 1706, col: 16, offset: 55246},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55168},
+																				pos:        position{line: 1706, col: 17, offset: 55247},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26737,7 +26737,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55225},
+																	pos: position{line: 1709, col: 5, offset: 55304},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26745,24 +26745,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54759},
+													pos:   position{line: 1695, col: 5, offset: 54838},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55474},
+														pos: position{line: 1717, col: 5, offset: 55553},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55540},
+																pos: position{line: 1719, col: 9, offset: 55619},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55540},
+																	pos: position{line: 1719, col: 9, offset: 55619},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55540},
+																			pos: position{line: 1719, col: 9, offset: 55619},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,15 +26801,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55559},
+																			pos: position{line: 1720, col: 9, offset: 55638},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26817,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -26882,18 +26882,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55688},
+																pos: position{line: 1726, col: 9, offset: 55767},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55688},
+																	pos: position{line: 1726, col: 9, offset: 55767},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93782},
+																				pos: position{line: 2963, col: 11, offset: 93861},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93782},
+																					pos:        position{line: 2963, col: 11, offset: 93861},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26902,15 +26902,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55761},
+																			pos:   position{line: 1727, col: 9, offset: 55840},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55770},
+																				pos: position{line: 1727, col: 18, offset: 55849},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55770},
+																					pos: position{line: 1727, col: 18, offset: 55849},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55770},
+																						pos:        position{line: 1727, col: 18, offset: 55849},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26920,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -27010,9 +27010,9 @@ var g = &grammar{
 					pos: position{line: 1525, col: 5, offset: 49166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&labeledExpr{
@@ -27036,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94055},
+																	pos: position{line: 2976, col: 11, offset: 94134},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94057,
+																		line: 2976, col: 13, offset: 94136,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -27104,27 +27104,27 @@ var g = &grammar{
 														pos: position{line: 1528, col: 22, offset: 49233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51816},
+																pos: position{line: 1609, col: 5, offset: 51895},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51816},
+																	pos: position{line: 1609, col: 5, offset: 51895},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51816},
+																			pos:   position{line: 1609, col: 5, offset: 51895},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52024},
+																				pos: position{line: 1616, col: 5, offset: 52103},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52024},
+																					pos: position{line: 1616, col: 5, offset: 52103},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52024},
+																							pos: position{line: 1616, col: 5, offset: 52103},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27133,27 +27133,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52031},
+																							pos:   position{line: 1616, col: 12, offset: 52110},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52094},
+																								pos: position{line: 1618, col: 9, offset: 52173},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52094},
+																										pos: position{line: 1618, col: 9, offset: 52173},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52094},
+																											pos: position{line: 1618, col: 9, offset: 52173},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52094},
+																													pos:   position{line: 1618, col: 9, offset: 52173},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52101},
+																														pos: position{line: 1618, col: 16, offset: 52180},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52101},
+																															pos: position{line: 1618, col: 16, offset: 52180},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52102},
+																																pos:        position{line: 1618, col: 17, offset: 52181},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27162,22 +27162,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52202},
+																													pos: position{line: 1622, col: 9, offset: 52281},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52919},
+																										pos: position{line: 1641, col: 11, offset: 52998},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52919},
+																											pos: position{line: 1641, col: 11, offset: 52998},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52919},
+																													pos: position{line: 1641, col: 11, offset: 52998},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52920},
+																														pos:        position{line: 1641, col: 12, offset: 52999},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27185,7 +27185,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 52928},
+																													pos:        position{line: 1641, col: 20, offset: 53007},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27194,20 +27194,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53045},
+																										pos: position{line: 1643, col: 13, offset: 53124},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53045},
+																											pos: position{line: 1643, col: 13, offset: 53124},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53046},
+																													pos:        position{line: 1643, col: 14, offset: 53125},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53053},
+																													pos:        position{line: 1643, col: 21, offset: 53132},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27216,20 +27216,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53173},
+																										pos: position{line: 1645, col: 13, offset: 53252},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53173},
+																											pos: position{line: 1645, col: 13, offset: 53252},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53174},
+																													pos:        position{line: 1645, col: 14, offset: 53253},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53181},
+																													pos:        position{line: 1645, col: 21, offset: 53260},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27238,15 +27238,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53301},
+																										pos: position{line: 1647, col: 13, offset: 53380},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53301},
+																											pos: position{line: 1647, col: 13, offset: 53380},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53301},
+																													pos: position{line: 1647, col: 13, offset: 53380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53302},
+																														pos:        position{line: 1647, col: 14, offset: 53381},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27254,7 +27254,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53314},
+																													pos:        position{line: 1647, col: 26, offset: 53393},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27263,15 +27263,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53434},
+																										pos: position{line: 1649, col: 13, offset: 53513},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53434},
+																											pos: position{line: 1649, col: 13, offset: 53513},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53434},
+																													pos: position{line: 1649, col: 13, offset: 53513},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53435},
+																														pos:        position{line: 1649, col: 14, offset: 53514},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27279,7 +27279,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53447},
+																													pos:        position{line: 1649, col: 26, offset: 53526},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27291,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27309,7 +27309,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51855},
+																			pos:   position{line: 1610, col: 5, offset: 51934},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -27339,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -27384,27 +27384,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53713},
+																pos: position{line: 1659, col: 5, offset: 53792},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53713},
+																	pos: position{line: 1659, col: 5, offset: 53792},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53713},
+																			pos:   position{line: 1659, col: 5, offset: 53792},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 53986},
+																				pos: position{line: 1666, col: 5, offset: 54065},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 53986},
+																					pos: position{line: 1666, col: 5, offset: 54065},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 53986},
+																							pos: position{line: 1666, col: 5, offset: 54065},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27413,24 +27413,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53998},
+																							pos:   position{line: 1667, col: 5, offset: 54077},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54014},
+																								pos: position{line: 1668, col: 9, offset: 54093},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54015},
+																									pos: position{line: 1668, col: 10, offset: 54094},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54016},
+																											pos:        position{line: 1668, col: 11, offset: 54095},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54023},
+																											pos: position{line: 1668, col: 18, offset: 54102},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54024},
+																												pos:        position{line: 1668, col: 19, offset: 54103},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27441,16 +27441,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54114},
+																							pos: position{line: 1671, col: 7, offset: 54193},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27463,56 +27463,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53754},
+																			pos:   position{line: 1660, col: 5, offset: 53833},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53765},
+																				pos: position{line: 1660, col: 16, offset: 53844},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54379},
+																					pos: position{line: 1681, col: 5, offset: 54458},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54379},
+																						pos: position{line: 1681, col: 5, offset: 54458},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54379},
+																								pos: position{line: 1681, col: 5, offset: 54458},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54380},
+																									pos:        position{line: 1681, col: 6, offset: 54459},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54384},
+																								pos:   position{line: 1681, col: 10, offset: 54463},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54398},
+																									pos: position{line: 1682, col: 7, offset: 54477},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54398},
+																											pos: position{line: 1682, col: 7, offset: 54477},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54398},
+																												pos:        position{line: 1682, col: 7, offset: 54477},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54443},
+																											pos: position{line: 1683, col: 7, offset: 54522},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54443},
+																												pos:        position{line: 1683, col: 7, offset: 54522},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54486},
+																											pos: position{line: 1684, col: 7, offset: 54565},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54486},
+																												pos:        position{line: 1684, col: 7, offset: 54565},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27522,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27541,7 +27541,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53804},
+																			pos:   position{line: 1661, col: 5, offset: 53883},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -27571,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -27616,36 +27616,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56326},
+																pos: position{line: 1749, col: 5, offset: 56405},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56326},
+																	pos: position{line: 1749, col: 5, offset: 56405},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56326},
+																			pos:   position{line: 1749, col: 5, offset: 56405},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56523},
+																				pos: position{line: 1755, col: 5, offset: 56602},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56523},
+																					pos: position{line: 1755, col: 5, offset: 56602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56523},
+																							pos:        position{line: 1755, col: 5, offset: 56602},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56527},
+																							pos:   position{line: 1755, col: 9, offset: 56606},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56532},
+																								pos: position{line: 1755, col: 14, offset: 56611},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56532},
+																									pos: position{line: 1755, col: 14, offset: 56611},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56532},
+																										pos:        position{line: 1755, col: 14, offset: 56611},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27655,18 +27655,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56580},
+																							pos:        position{line: 1755, col: 62, offset: 56659},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27679,7 +27679,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56362},
+																			pos:   position{line: 1750, col: 5, offset: 56441},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -27709,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -27754,40 +27754,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54679},
+																pos: position{line: 1693, col: 5, offset: 54758},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54679},
+																	pos: position{line: 1693, col: 5, offset: 54758},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54679},
+																			pos:   position{line: 1693, col: 5, offset: 54758},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55005},
+																				pos: position{line: 1701, col: 5, offset: 55084},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55005},
+																					pos: position{line: 1701, col: 5, offset: 55084},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55006},
+																						pos: position{line: 1701, col: 6, offset: 55085},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55006},
+																								pos: position{line: 1701, col: 6, offset: 55085},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55156},
+																									pos: position{line: 1706, col: 5, offset: 55235},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55156},
+																										pos: position{line: 1706, col: 5, offset: 55235},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55156},
+																												pos:   position{line: 1706, col: 5, offset: 55235},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55167},
+																													pos: position{line: 1706, col: 16, offset: 55246},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55167},
+																														pos: position{line: 1706, col: 16, offset: 55246},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55168},
+																															pos:        position{line: 1706, col: 17, offset: 55247},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27796,7 +27796,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55225},
+																												pos: position{line: 1709, col: 5, offset: 55304},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27804,30 +27804,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55035},
+																								pos: position{line: 1701, col: 35, offset: 55114},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,16 +27836,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55040,
+																								line: 1701, col: 40, offset: 55119,
 																							},
 																						},
 																					},
@@ -27853,24 +27853,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54714},
+																			pos:   position{line: 1694, col: 5, offset: 54793},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55156},
+																				pos: position{line: 1706, col: 5, offset: 55235},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55156},
+																					pos: position{line: 1706, col: 5, offset: 55235},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55156},
+																							pos:   position{line: 1706, col: 5, offset: 55235},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55167},
+																								pos: position{line: 1706, col: 16, offset: 55246},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55167},
+																									pos: position{line: 1706, col: 16, offset: 55246},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55168},
+																										pos:        position{line: 1706, col: 17, offset: 55247},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27879,7 +27879,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55225},
+																							pos: position{line: 1709, col: 5, offset: 55304},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27887,24 +27887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54759},
+																			pos:   position{line: 1695, col: 5, offset: 54838},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55474},
+																				pos: position{line: 1717, col: 5, offset: 55553},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55540},
+																						pos: position{line: 1719, col: 9, offset: 55619},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55540},
+																							pos: position{line: 1719, col: 9, offset: 55619},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55540},
+																									pos: position{line: 1719, col: 9, offset: 55619},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,15 +27943,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55559},
+																									pos: position{line: 1720, col: 9, offset: 55638},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94055},
+																													pos: position{line: 2976, col: 11, offset: 94134},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94057,
+																														line: 2976, col: 13, offset: 94136,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -28024,18 +28024,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55688},
+																						pos: position{line: 1726, col: 9, offset: 55767},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55688},
+																							pos: position{line: 1726, col: 9, offset: 55767},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93782},
+																										pos: position{line: 2963, col: 11, offset: 93861},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93782},
+																											pos:        position{line: 2963, col: 11, offset: 93861},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28044,15 +28044,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55761},
+																									pos:   position{line: 1727, col: 9, offset: 55840},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55770},
+																										pos: position{line: 1727, col: 18, offset: 55849},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55770},
+																											pos: position{line: 1727, col: 18, offset: 55849},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55770},
+																												pos:        position{line: 1727, col: 18, offset: 55849},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28062,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -28138,27 +28138,27 @@ var g = &grammar{
 														pos: position{line: 1532, col: 22, offset: 49436},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51816},
+																pos: position{line: 1609, col: 5, offset: 51895},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51816},
+																	pos: position{line: 1609, col: 5, offset: 51895},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51816},
+																			pos:   position{line: 1609, col: 5, offset: 51895},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52024},
+																				pos: position{line: 1616, col: 5, offset: 52103},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52024},
+																					pos: position{line: 1616, col: 5, offset: 52103},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52024},
+																							pos: position{line: 1616, col: 5, offset: 52103},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28167,27 +28167,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52031},
+																							pos:   position{line: 1616, col: 12, offset: 52110},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52094},
+																								pos: position{line: 1618, col: 9, offset: 52173},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52094},
+																										pos: position{line: 1618, col: 9, offset: 52173},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52094},
+																											pos: position{line: 1618, col: 9, offset: 52173},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52094},
+																													pos:   position{line: 1618, col: 9, offset: 52173},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52101},
+																														pos: position{line: 1618, col: 16, offset: 52180},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52101},
+																															pos: position{line: 1618, col: 16, offset: 52180},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52102},
+																																pos:        position{line: 1618, col: 17, offset: 52181},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28196,22 +28196,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52202},
+																													pos: position{line: 1622, col: 9, offset: 52281},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52919},
+																										pos: position{line: 1641, col: 11, offset: 52998},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52919},
+																											pos: position{line: 1641, col: 11, offset: 52998},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52919},
+																													pos: position{line: 1641, col: 11, offset: 52998},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52920},
+																														pos:        position{line: 1641, col: 12, offset: 52999},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28219,7 +28219,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 52928},
+																													pos:        position{line: 1641, col: 20, offset: 53007},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28228,20 +28228,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53045},
+																										pos: position{line: 1643, col: 13, offset: 53124},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53045},
+																											pos: position{line: 1643, col: 13, offset: 53124},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53046},
+																													pos:        position{line: 1643, col: 14, offset: 53125},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53053},
+																													pos:        position{line: 1643, col: 21, offset: 53132},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28250,20 +28250,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53173},
+																										pos: position{line: 1645, col: 13, offset: 53252},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53173},
+																											pos: position{line: 1645, col: 13, offset: 53252},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53174},
+																													pos:        position{line: 1645, col: 14, offset: 53253},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53181},
+																													pos:        position{line: 1645, col: 21, offset: 53260},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28272,15 +28272,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53301},
+																										pos: position{line: 1647, col: 13, offset: 53380},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53301},
+																											pos: position{line: 1647, col: 13, offset: 53380},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53301},
+																													pos: position{line: 1647, col: 13, offset: 53380},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53302},
+																														pos:        position{line: 1647, col: 14, offset: 53381},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28288,7 +28288,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53314},
+																													pos:        position{line: 1647, col: 26, offset: 53393},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28297,15 +28297,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53434},
+																										pos: position{line: 1649, col: 13, offset: 53513},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53434},
+																											pos: position{line: 1649, col: 13, offset: 53513},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53434},
+																													pos: position{line: 1649, col: 13, offset: 53513},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53435},
+																														pos:        position{line: 1649, col: 14, offset: 53514},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28313,7 +28313,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53447},
+																													pos:        position{line: 1649, col: 26, offset: 53526},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28325,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28343,7 +28343,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51855},
+																			pos:   position{line: 1610, col: 5, offset: 51934},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -28373,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -28418,27 +28418,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53713},
+																pos: position{line: 1659, col: 5, offset: 53792},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53713},
+																	pos: position{line: 1659, col: 5, offset: 53792},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53713},
+																			pos:   position{line: 1659, col: 5, offset: 53792},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 53986},
+																				pos: position{line: 1666, col: 5, offset: 54065},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 53986},
+																					pos: position{line: 1666, col: 5, offset: 54065},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 53986},
+																							pos: position{line: 1666, col: 5, offset: 54065},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28447,24 +28447,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53998},
+																							pos:   position{line: 1667, col: 5, offset: 54077},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54014},
+																								pos: position{line: 1668, col: 9, offset: 54093},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54015},
+																									pos: position{line: 1668, col: 10, offset: 54094},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54016},
+																											pos:        position{line: 1668, col: 11, offset: 54095},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54023},
+																											pos: position{line: 1668, col: 18, offset: 54102},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54024},
+																												pos:        position{line: 1668, col: 19, offset: 54103},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28475,16 +28475,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54114},
+																							pos: position{line: 1671, col: 7, offset: 54193},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28497,56 +28497,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53754},
+																			pos:   position{line: 1660, col: 5, offset: 53833},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53765},
+																				pos: position{line: 1660, col: 16, offset: 53844},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54379},
+																					pos: position{line: 1681, col: 5, offset: 54458},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54379},
+																						pos: position{line: 1681, col: 5, offset: 54458},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54379},
+																								pos: position{line: 1681, col: 5, offset: 54458},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54380},
+																									pos:        position{line: 1681, col: 6, offset: 54459},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54384},
+																								pos:   position{line: 1681, col: 10, offset: 54463},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54398},
+																									pos: position{line: 1682, col: 7, offset: 54477},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54398},
+																											pos: position{line: 1682, col: 7, offset: 54477},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54398},
+																												pos:        position{line: 1682, col: 7, offset: 54477},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54443},
+																											pos: position{line: 1683, col: 7, offset: 54522},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54443},
+																												pos:        position{line: 1683, col: 7, offset: 54522},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54486},
+																											pos: position{line: 1684, col: 7, offset: 54565},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54486},
+																												pos:        position{line: 1684, col: 7, offset: 54565},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28556,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28575,7 +28575,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53804},
+																			pos:   position{line: 1661, col: 5, offset: 53883},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -28650,36 +28650,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56326},
+																pos: position{line: 1749, col: 5, offset: 56405},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56326},
+																	pos: position{line: 1749, col: 5, offset: 56405},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56326},
+																			pos:   position{line: 1749, col: 5, offset: 56405},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56523},
+																				pos: position{line: 1755, col: 5, offset: 56602},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56523},
+																					pos: position{line: 1755, col: 5, offset: 56602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56523},
+																							pos:        position{line: 1755, col: 5, offset: 56602},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56527},
+																							pos:   position{line: 1755, col: 9, offset: 56606},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56532},
+																								pos: position{line: 1755, col: 14, offset: 56611},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56532},
+																									pos: position{line: 1755, col: 14, offset: 56611},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56532},
+																										pos:        position{line: 1755, col: 14, offset: 56611},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28689,18 +28689,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56580},
+																							pos:        position{line: 1755, col: 62, offset: 56659},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,7 +28713,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56362},
+																			pos:   position{line: 1750, col: 5, offset: 56441},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1556, col: 5, offset: 50297},
@@ -28743,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -28788,40 +28788,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54679},
+																pos: position{line: 1693, col: 5, offset: 54758},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54679},
+																	pos: position{line: 1693, col: 5, offset: 54758},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54679},
+																			pos:   position{line: 1693, col: 5, offset: 54758},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55005},
+																				pos: position{line: 1701, col: 5, offset: 55084},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55005},
+																					pos: position{line: 1701, col: 5, offset: 55084},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55006},
+																						pos: position{line: 1701, col: 6, offset: 55085},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55006},
+																								pos: position{line: 1701, col: 6, offset: 55085},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55156},
+																									pos: position{line: 1706, col: 5, offset: 55235},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55156},
+																										pos: position{line: 1706, col: 5, offset: 55235},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55156},
+																												pos:   position{line: 1706, col: 5, offset: 55235},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55167},
+																													pos: position{line: 1706, col: 16, offset: 55246},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55167},
+																														pos: position{line: 1706, col: 16, offset: 55246},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55168},
+																															pos:        position{line: 1706, col: 17, offset: 55247},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28830,7 +28830,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55225},
+																												pos: position{line: 1709, col: 5, offset: 55304},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28838,30 +28838,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55035},
+																								pos: position{line: 1701, col: 35, offset: 55114},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,16 +28870,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55040,
+																								line: 1701, col: 40, offset: 55119,
 																							},
 																						},
 																					},
@@ -28887,24 +28887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54714},
+																			pos:   position{line: 1694, col: 5, offset: 54793},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55156},
+																				pos: position{line: 1706, col: 5, offset: 55235},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55156},
+																					pos: position{line: 1706, col: 5, offset: 55235},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55156},
+																							pos:   position{line: 1706, col: 5, offset: 55235},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55167},
+																								pos: position{line: 1706, col: 16, offset: 55246},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55167},
+																									pos: position{line: 1706, col: 16, offset: 55246},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55168},
+																										pos:        position{line: 1706, col: 17, offset: 55247},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28913,7 +28913,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55225},
+																							pos: position{line: 1709, col: 5, offset: 55304},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28921,24 +28921,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54759},
+																			pos:   position{line: 1695, col: 5, offset: 54838},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55474},
+																				pos: position{line: 1717, col: 5, offset: 55553},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55540},
+																						pos: position{line: 1719, col: 9, offset: 55619},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55540},
+																							pos: position{line: 1719, col: 9, offset: 55619},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55540},
+																									pos: position{line: 1719, col: 9, offset: 55619},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,15 +28977,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55559},
+																									pos: position{line: 1720, col: 9, offset: 55638},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28993,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94055},
+																													pos: position{line: 2976, col: 11, offset: 94134},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94057,
+																														line: 2976, col: 13, offset: 94136,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -29058,18 +29058,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55688},
+																						pos: position{line: 1726, col: 9, offset: 55767},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55688},
+																							pos: position{line: 1726, col: 9, offset: 55767},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93782},
+																										pos: position{line: 2963, col: 11, offset: 93861},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93782},
+																											pos:        position{line: 2963, col: 11, offset: 93861},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29078,15 +29078,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55761},
+																									pos:   position{line: 1727, col: 9, offset: 55840},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55770},
+																										pos: position{line: 1727, col: 18, offset: 55849},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55770},
+																											pos: position{line: 1727, col: 18, offset: 55849},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55770},
+																												pos:        position{line: 1727, col: 18, offset: 55849},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29096,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -29153,36 +29153,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81364},
+										pos: position{line: 2526, col: 22, offset: 81443},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81585},
+													pos:        position{line: 2531, col: 31, offset: 81664},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81590},
+													pos: position{line: 2531, col: 36, offset: 81669},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81591},
+														pos:        position{line: 2531, col: 37, offset: 81670},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81391},
+													pos:   position{line: 2526, col: 49, offset: 81470},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91408},
+														pos: position{line: 2878, col: 13, offset: 91487},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91408},
+																pos:        position{line: 2878, col: 13, offset: 91487},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -29247,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94055},
+																	pos: position{line: 2976, col: 11, offset: 94134},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94057,
+																		line: 2976, col: 13, offset: 94136,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -29311,21 +29311,21 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1544, col: 5, offset: 49900},
 													expr: &seqExpr{
-														pos: position{line: 1574, col: 27, offset: 50805},
+														pos: position{line: 1574, col: 27, offset: 50884},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1574, col: 27, offset: 50805},
+																pos:        position{line: 1574, col: 27, offset: 50884},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1574, col: 31, offset: 50809},
+																pos: position{line: 1574, col: 31, offset: 50888},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29366,18 +29366,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1545, col: 5, offset: 49928},
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52024},
+														pos: position{line: 1616, col: 5, offset: 52103},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52024},
+															pos: position{line: 1616, col: 5, offset: 52103},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52024},
+																	pos: position{line: 1616, col: 5, offset: 52103},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29386,27 +29386,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52031},
+																	pos:   position{line: 1616, col: 12, offset: 52110},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52094},
+																		pos: position{line: 1618, col: 9, offset: 52173},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52094},
+																				pos: position{line: 1618, col: 9, offset: 52173},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52094},
+																					pos: position{line: 1618, col: 9, offset: 52173},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52094},
+																							pos:   position{line: 1618, col: 9, offset: 52173},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52101},
+																								pos: position{line: 1618, col: 16, offset: 52180},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52101},
+																									pos: position{line: 1618, col: 16, offset: 52180},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52102},
+																										pos:        position{line: 1618, col: 17, offset: 52181},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29415,22 +29415,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52202},
+																							pos: position{line: 1622, col: 9, offset: 52281},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52919},
+																				pos: position{line: 1641, col: 11, offset: 52998},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52919},
+																					pos: position{line: 1641, col: 11, offset: 52998},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52919},
+																							pos: position{line: 1641, col: 11, offset: 52998},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52920},
+																								pos:        position{line: 1641, col: 12, offset: 52999},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29438,7 +29438,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52928},
+																							pos:        position{line: 1641, col: 20, offset: 53007},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29447,20 +29447,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53045},
+																				pos: position{line: 1643, col: 13, offset: 53124},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53045},
+																					pos: position{line: 1643, col: 13, offset: 53124},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53046},
+																							pos:        position{line: 1643, col: 14, offset: 53125},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53053},
+																							pos:        position{line: 1643, col: 21, offset: 53132},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29469,20 +29469,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53173},
+																				pos: position{line: 1645, col: 13, offset: 53252},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53173},
+																					pos: position{line: 1645, col: 13, offset: 53252},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53174},
+																							pos:        position{line: 1645, col: 14, offset: 53253},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53181},
+																							pos:        position{line: 1645, col: 21, offset: 53260},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29491,15 +29491,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53301},
+																				pos: position{line: 1647, col: 13, offset: 53380},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53301},
+																					pos: position{line: 1647, col: 13, offset: 53380},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53301},
+																							pos: position{line: 1647, col: 13, offset: 53380},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53302},
+																								pos:        position{line: 1647, col: 14, offset: 53381},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29507,7 +29507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53314},
+																							pos:        position{line: 1647, col: 26, offset: 53393},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29516,15 +29516,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53434},
+																				pos: position{line: 1649, col: 13, offset: 53513},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53434},
+																					pos: position{line: 1649, col: 13, offset: 53513},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53434},
+																							pos: position{line: 1649, col: 13, offset: 53513},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53435},
+																								pos:        position{line: 1649, col: 14, offset: 53514},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29532,7 +29532,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53447},
+																							pos:        position{line: 1649, col: 26, offset: 53526},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29544,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29564,18 +29564,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1546, col: 5, offset: 49958},
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 53986},
+														pos: position{line: 1666, col: 5, offset: 54065},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 53986},
+															pos: position{line: 1666, col: 5, offset: 54065},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 53986},
+																	pos: position{line: 1666, col: 5, offset: 54065},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29584,24 +29584,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53998},
+																	pos:   position{line: 1667, col: 5, offset: 54077},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54014},
+																		pos: position{line: 1668, col: 9, offset: 54093},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54015},
+																			pos: position{line: 1668, col: 10, offset: 54094},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54016},
+																					pos:        position{line: 1668, col: 11, offset: 54095},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54023},
+																					pos: position{line: 1668, col: 18, offset: 54102},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54024},
+																						pos:        position{line: 1668, col: 19, offset: 54103},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29612,16 +29612,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54114},
+																	pos: position{line: 1671, col: 7, offset: 54193},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29636,27 +29636,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1547, col: 5, offset: 49990},
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56523},
+														pos: position{line: 1755, col: 5, offset: 56602},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56523},
+															pos: position{line: 1755, col: 5, offset: 56602},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56523},
+																	pos:        position{line: 1755, col: 5, offset: 56602},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56527},
+																	pos:   position{line: 1755, col: 9, offset: 56606},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56532},
+																		pos: position{line: 1755, col: 14, offset: 56611},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56532},
+																			pos: position{line: 1755, col: 14, offset: 56611},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56532},
+																				pos:        position{line: 1755, col: 14, offset: 56611},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29666,18 +29666,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56580},
+																	pos:        position{line: 1755, col: 62, offset: 56659},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29695,31 +29695,31 @@ var g = &grammar{
 														pos: position{line: 1548, col: 7, offset: 50022},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1701, col: 5, offset: 55005},
+																pos: position{line: 1701, col: 5, offset: 55084},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1701, col: 5, offset: 55005},
+																	pos: position{line: 1701, col: 5, offset: 55084},
 																	expr: &seqExpr{
-																		pos: position{line: 1701, col: 6, offset: 55006},
+																		pos: position{line: 1701, col: 6, offset: 55085},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1701, col: 6, offset: 55006},
+																				pos: position{line: 1701, col: 6, offset: 55085},
 																				expr: &actionExpr{
-																					pos: position{line: 1706, col: 5, offset: 55156},
+																					pos: position{line: 1706, col: 5, offset: 55235},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1706, col: 5, offset: 55156},
+																						pos: position{line: 1706, col: 5, offset: 55235},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1706, col: 5, offset: 55156},
+																								pos:   position{line: 1706, col: 5, offset: 55235},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 16, offset: 55167},
+																									pos: position{line: 1706, col: 16, offset: 55246},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1706, col: 16, offset: 55167},
+																										pos: position{line: 1706, col: 16, offset: 55246},
 																										expr: &litMatcher{
-																											pos:        position{line: 1706, col: 17, offset: 55168},
+																											pos:        position{line: 1706, col: 17, offset: 55247},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29728,7 +29728,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1709, col: 5, offset: 55225},
+																								pos: position{line: 1709, col: 5, offset: 55304},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29736,30 +29736,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1701, col: 35, offset: 55035},
+																				pos: position{line: 1701, col: 35, offset: 55114},
 																				expr: &choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,37 +29768,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1701, col: 40, offset: 55040,
+																				line: 1701, col: 40, offset: 55119,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1706, col: 5, offset: 55156},
+																pos: position{line: 1706, col: 5, offset: 55235},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1706, col: 5, offset: 55156},
+																	pos: position{line: 1706, col: 5, offset: 55235},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1706, col: 5, offset: 55156},
+																			pos:   position{line: 1706, col: 5, offset: 55235},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 16, offset: 55167},
+																				pos: position{line: 1706, col: 16, offset: 55246},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1706, col: 16, offset: 55167},
+																					pos: position{line: 1706, col: 16, offset: 55246},
 																					expr: &litMatcher{
-																						pos:        position{line: 1706, col: 17, offset: 55168},
+																						pos:        position{line: 1706, col: 17, offset: 55247},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29807,7 +29807,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1709, col: 5, offset: 55225},
+																			pos: position{line: 1709, col: 5, offset: 55304},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -29817,10 +29817,10 @@ var g = &grammar{
 																pos: position{line: 1548, col: 59, offset: 50074},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -29879,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 13, offset: 89669},
+																				pos:        position{line: 2813, col: 13, offset: 89748},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30018,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30103,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30192,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30281,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30370,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30459,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30548,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30637,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -30718,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -30771,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85121},
+																pos: position{line: 2661, col: 19, offset: 85200},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85121},
+																		pos:        position{line: 2661, col: 19, offset: 85200},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85128},
+																		pos: position{line: 2661, col: 26, offset: 85207},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -30840,12 +30840,12 @@ var g = &grammar{
 													pos:   position{line: 1550, col: 5, offset: 50152},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 14, offset: 91475},
+														pos: position{line: 2882, col: 14, offset: 91554},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2882, col: 14, offset: 91475},
+															pos: position{line: 2882, col: 14, offset: 91554},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 14, offset: 91475},
+																pos:        position{line: 2882, col: 14, offset: 91554},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -30922,10 +30922,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1567, col: 13, offset: 50576},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93721},
+												pos: position{line: 2959, col: 10, offset: 93800},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93721},
+													pos:        position{line: 2959, col: 10, offset: 93800},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2968, col: 12, offset: 93892},
+											pos: position{line: 2968, col: 12, offset: 93971},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2968, col: 13, offset: 93893},
+												pos: position{line: 2968, col: 13, offset: 93972},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2968, col: 13, offset: 93893},
+														pos:        position{line: 2968, col: 13, offset: 93972},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 20, offset: 93900},
+														pos:        position{line: 2968, col: 20, offset: 93979},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 29, offset: 93909},
+														pos:        position{line: 2968, col: 29, offset: 93988},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30973,10 +30973,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1568, col: 9, offset: 50602},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,9 +31015,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -31027,88 +31027,265 @@ var g = &grammar{
 							label: "element",
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1569, col: 13, offset: 50625},
-								expr: &actionExpr{
+								expr: &choiceExpr{
 									pos: position{line: 1569, col: 14, offset: 50626},
-									run: (*parser).callonListContinuation28,
-									expr: &seqExpr{
-										pos: position{line: 1569, col: 14, offset: 50626},
-										exprs: []interface{}{
-											&zeroOrMoreExpr{
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 1569, col: 14, offset: 50626},
+											run: (*parser).callonListContinuation29,
+											expr: &seqExpr{
 												pos: position{line: 1569, col: 14, offset: 50626},
-												expr: &actionExpr{
-													pos: position{line: 697, col: 14, offset: 22135},
-													run: (*parser).callonListContinuation31,
-													expr: &seqExpr{
-														pos: position{line: 697, col: 14, offset: 22135},
-														exprs: []interface{}{
-															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
-																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
-																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 697, col: 21, offset: 22142},
-																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
-																	run: (*parser).callonListContinuation36,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+												exprs: []interface{}{
+													&zeroOrMoreExpr{
+														pos: position{line: 1569, col: 14, offset: 50626},
+														expr: &choiceExpr{
+															pos: position{line: 1569, col: 15, offset: 50627},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 697, col: 14, offset: 22135},
+																	run: (*parser).callonListContinuation33,
+																	expr: &seqExpr{
+																		pos: position{line: 697, col: 14, offset: 22135},
+																		exprs: []interface{}{
+																			&andExpr{
+																				pos: position{line: 2976, col: 11, offset: 94134},
+																				expr: &anyMatcher{
+																					line: 2976, col: 13, offset: 94136,
+																				},
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 697, col: 21, offset: 22142},
+																				expr: &actionExpr{
+																					pos: position{line: 2959, col: 10, offset: 93800},
+																					run: (*parser).callonListContinuation38,
+																					expr: &charClassMatcher{
+																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						val:        "[\\t ]",
+																						chars:      []rune{'\t', ' '},
+																						ignoreCase: false,
+																						inverted:   false,
+																					},
+																				},
+																			},
+																			&choiceExpr{
+																				pos: position{line: 2981, col: 8, offset: 94198},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2968, col: 12, offset: 93971},
+																						run: (*parser).callonListContinuation41,
+																						expr: &choiceExpr{
+																							pos: position{line: 2968, col: 13, offset: 93972},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2978, col: 8, offset: 94148},
+																						expr: &anyMatcher{
+																							line: 2978, col: 9, offset: 94149,
+																						},
+																					},
+																				},
+																			},
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
-																		run: (*parser).callonListContinuation39,
-																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
-																					val:        "\n",
+																&actionExpr{
+																	pos: position{line: 2526, col: 22, offset: 81443},
+																	run: (*parser).callonListContinuation48,
+																	expr: &seqExpr{
+																		pos: position{line: 2526, col: 22, offset: 81443},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2531, col: 31, offset: 81664},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2531, col: 36, offset: 81669},
+																				expr: &litMatcher{
+																					pos:        position{line: 2531, col: 37, offset: 81670},
+																					val:        "//",
 																					ignoreCase: false,
-																					want:       "\"\\n\"",
+																					want:       "\"//\"",
 																				},
-																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 2526, col: 49, offset: 81470},
+																				label: "content",
+																				expr: &actionExpr{
+																					pos: position{line: 2878, col: 13, offset: 91487},
+																					run: (*parser).callonListContinuation54,
+																					expr: &zeroOrMoreExpr{
+																						pos: position{line: 2878, col: 13, offset: 91487},
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2878, col: 13, offset: 91487},
+																							val:        "[^\\r\\n]",
+																							chars:      []rune{'\r', '\n'},
+																							ignoreCase: false,
+																							inverted:   true,
+																						},
+																					},
 																				},
-																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																			},
+																			&choiceExpr{
+																				pos: position{line: 2981, col: 8, offset: 94198},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2968, col: 12, offset: 93971},
+																						run: (*parser).callonListContinuation58,
+																						expr: &choiceExpr{
+																							pos: position{line: 2968, col: 13, offset: 93972},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2978, col: 8, offset: 94148},
+																						expr: &anyMatcher{
+																							line: 2978, col: 9, offset: 94149,
+																						},
+																					},
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																},
+															},
+														},
+													},
+													&labeledExpr{
+														pos:   position{line: 1569, col: 47, offset: 50659},
+														label: "e",
+														expr: &ruleRefExpr{
+															pos:  position{line: 1569, col: 49, offset: 50661},
+															name: "ListContinuationElement",
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 1569, col: 93, offset: 50705},
+											run: (*parser).callonListContinuation67,
+											expr: &seqExpr{
+												pos: position{line: 1569, col: 93, offset: 50705},
+												exprs: []interface{}{
+													&zeroOrMoreExpr{
+														pos: position{line: 1569, col: 93, offset: 50705},
+														expr: &actionExpr{
+															pos: position{line: 697, col: 14, offset: 22135},
+															run: (*parser).callonListContinuation70,
+															expr: &seqExpr{
+																pos: position{line: 697, col: 14, offset: 22135},
+																exprs: []interface{}{
+																	&andExpr{
+																		pos: position{line: 2976, col: 11, offset: 94134},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2976, col: 13, offset: 94136,
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 697, col: 21, offset: 22142},
+																		expr: &actionExpr{
+																			pos: position{line: 2959, col: 10, offset: 93800},
+																			run: (*parser).callonListContinuation75,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2981, col: 8, offset: 94198},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2968, col: 12, offset: 93971},
+																				run: (*parser).callonListContinuation78,
+																				expr: &choiceExpr{
+																					pos: position{line: 2968, col: 13, offset: 93972},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2978, col: 8, offset: 94148},
+																				expr: &anyMatcher{
+																					line: 2978, col: 9, offset: 94149,
+																				},
+																			},
 																		},
 																	},
 																},
 															},
 														},
 													},
-												},
-											},
-											&labeledExpr{
-												pos:   position{line: 1569, col: 25, offset: 50637},
-												label: "e",
-												expr: &ruleRefExpr{
-													pos:  position{line: 1569, col: 27, offset: 50639},
-													name: "ListContinuationElement",
+													&labeledExpr{
+														pos:   position{line: 1569, col: 104, offset: 50716},
+														label: "e",
+														expr: &ruleRefExpr{
+															pos:  position{line: 1569, col: 106, offset: 50718},
+															name: "ListContinuationElement",
+														},
+													},
 												},
 											},
 										},
@@ -31122,46 +31299,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1576, col: 1, offset: 50825},
+			pos:  position{line: 1576, col: 1, offset: 50904},
 			expr: &actionExpr{
-				pos: position{line: 1577, col: 5, offset: 50871},
+				pos: position{line: 1577, col: 5, offset: 50950},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1577, col: 5, offset: 50871},
+					pos: position{line: 1577, col: 5, offset: 50950},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1578, col: 5, offset: 50899},
+							pos: position{line: 1578, col: 5, offset: 50978},
 							expr: &choiceExpr{
 								pos: position{line: 1515, col: 5, offset: 48817},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51816},
+										pos: position{line: 1609, col: 5, offset: 51895},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51816},
+											pos: position{line: 1609, col: 5, offset: 51895},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51816},
+													pos:   position{line: 1609, col: 5, offset: 51895},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52024},
+														pos: position{line: 1616, col: 5, offset: 52103},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52024},
+															pos: position{line: 1616, col: 5, offset: 52103},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52024},
+																	pos: position{line: 1616, col: 5, offset: 52103},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31170,27 +31347,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52031},
+																	pos:   position{line: 1616, col: 12, offset: 52110},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52094},
+																		pos: position{line: 1618, col: 9, offset: 52173},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52094},
+																				pos: position{line: 1618, col: 9, offset: 52173},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52094},
+																					pos: position{line: 1618, col: 9, offset: 52173},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52094},
+																							pos:   position{line: 1618, col: 9, offset: 52173},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52101},
+																								pos: position{line: 1618, col: 16, offset: 52180},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52101},
+																									pos: position{line: 1618, col: 16, offset: 52180},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52102},
+																										pos:        position{line: 1618, col: 17, offset: 52181},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31199,22 +31376,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52202},
+																							pos: position{line: 1622, col: 9, offset: 52281},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52919},
+																				pos: position{line: 1641, col: 11, offset: 52998},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52919},
+																					pos: position{line: 1641, col: 11, offset: 52998},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52919},
+																							pos: position{line: 1641, col: 11, offset: 52998},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52920},
+																								pos:        position{line: 1641, col: 12, offset: 52999},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31222,7 +31399,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 52928},
+																							pos:        position{line: 1641, col: 20, offset: 53007},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31231,20 +31408,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53045},
+																				pos: position{line: 1643, col: 13, offset: 53124},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53045},
+																					pos: position{line: 1643, col: 13, offset: 53124},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53046},
+																							pos:        position{line: 1643, col: 14, offset: 53125},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53053},
+																							pos:        position{line: 1643, col: 21, offset: 53132},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31253,20 +31430,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53173},
+																				pos: position{line: 1645, col: 13, offset: 53252},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53173},
+																					pos: position{line: 1645, col: 13, offset: 53252},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53174},
+																							pos:        position{line: 1645, col: 14, offset: 53253},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53181},
+																							pos:        position{line: 1645, col: 21, offset: 53260},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31275,15 +31452,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53301},
+																				pos: position{line: 1647, col: 13, offset: 53380},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53301},
+																					pos: position{line: 1647, col: 13, offset: 53380},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53301},
+																							pos: position{line: 1647, col: 13, offset: 53380},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53302},
+																								pos:        position{line: 1647, col: 14, offset: 53381},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31291,7 +31468,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53314},
+																							pos:        position{line: 1647, col: 26, offset: 53393},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31300,15 +31477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53434},
+																				pos: position{line: 1649, col: 13, offset: 53513},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53434},
+																					pos: position{line: 1649, col: 13, offset: 53513},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53434},
+																							pos: position{line: 1649, col: 13, offset: 53513},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53435},
+																								pos:        position{line: 1649, col: 14, offset: 53514},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31316,7 +31493,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53447},
+																							pos:        position{line: 1649, col: 26, offset: 53526},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31328,12 +31505,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31346,7 +31523,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51855},
+													pos:   position{line: 1610, col: 5, offset: 51934},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -31376,28 +31553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31406,9 +31583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -31421,27 +31598,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53713},
+										pos: position{line: 1659, col: 5, offset: 53792},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53713},
+											pos: position{line: 1659, col: 5, offset: 53792},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53713},
+													pos:   position{line: 1659, col: 5, offset: 53792},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 53986},
+														pos: position{line: 1666, col: 5, offset: 54065},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 53986},
+															pos: position{line: 1666, col: 5, offset: 54065},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 53986},
+																	pos: position{line: 1666, col: 5, offset: 54065},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31450,24 +31627,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53998},
+																	pos:   position{line: 1667, col: 5, offset: 54077},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54014},
+																		pos: position{line: 1668, col: 9, offset: 54093},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54015},
+																			pos: position{line: 1668, col: 10, offset: 54094},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54016},
+																					pos:        position{line: 1668, col: 11, offset: 54095},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54023},
+																					pos: position{line: 1668, col: 18, offset: 54102},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54024},
+																						pos:        position{line: 1668, col: 19, offset: 54103},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31478,16 +31655,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54114},
+																	pos: position{line: 1671, col: 7, offset: 54193},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31500,56 +31677,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53754},
+													pos:   position{line: 1660, col: 5, offset: 53833},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53765},
+														pos: position{line: 1660, col: 16, offset: 53844},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54379},
+															pos: position{line: 1681, col: 5, offset: 54458},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54379},
+																pos: position{line: 1681, col: 5, offset: 54458},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54379},
+																		pos: position{line: 1681, col: 5, offset: 54458},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54380},
+																			pos:        position{line: 1681, col: 6, offset: 54459},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54384},
+																		pos:   position{line: 1681, col: 10, offset: 54463},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54398},
+																			pos: position{line: 1682, col: 7, offset: 54477},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54398},
+																					pos: position{line: 1682, col: 7, offset: 54477},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54398},
+																						pos:        position{line: 1682, col: 7, offset: 54477},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54443},
+																					pos: position{line: 1683, col: 7, offset: 54522},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54443},
+																						pos:        position{line: 1683, col: 7, offset: 54522},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54486},
+																					pos: position{line: 1684, col: 7, offset: 54565},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54486},
+																						pos:        position{line: 1684, col: 7, offset: 54565},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31559,12 +31736,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31578,7 +31755,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53804},
+													pos:   position{line: 1661, col: 5, offset: 53883},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -31608,28 +31785,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31638,9 +31815,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -31653,36 +31830,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56326},
+										pos: position{line: 1749, col: 5, offset: 56405},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56326},
+											pos: position{line: 1749, col: 5, offset: 56405},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56326},
+													pos:   position{line: 1749, col: 5, offset: 56405},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56523},
+														pos: position{line: 1755, col: 5, offset: 56602},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56523},
+															pos: position{line: 1755, col: 5, offset: 56602},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56523},
+																	pos:        position{line: 1755, col: 5, offset: 56602},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56527},
+																	pos:   position{line: 1755, col: 9, offset: 56606},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56532},
+																		pos: position{line: 1755, col: 14, offset: 56611},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56532},
+																			pos: position{line: 1755, col: 14, offset: 56611},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56532},
+																				pos:        position{line: 1755, col: 14, offset: 56611},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31692,18 +31869,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56580},
+																	pos:        position{line: 1755, col: 62, offset: 56659},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31716,7 +31893,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56362},
+													pos:   position{line: 1750, col: 5, offset: 56441},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1556, col: 5, offset: 50297},
@@ -31746,28 +31923,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31776,9 +31953,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -31791,40 +31968,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54679},
+										pos: position{line: 1693, col: 5, offset: 54758},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54679},
+											pos: position{line: 1693, col: 5, offset: 54758},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54679},
+													pos:   position{line: 1693, col: 5, offset: 54758},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55005},
+														pos: position{line: 1701, col: 5, offset: 55084},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55005},
+															pos: position{line: 1701, col: 5, offset: 55084},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55006},
+																pos: position{line: 1701, col: 6, offset: 55085},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55006},
+																		pos: position{line: 1701, col: 6, offset: 55085},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55156},
+																			pos: position{line: 1706, col: 5, offset: 55235},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55156},
+																				pos: position{line: 1706, col: 5, offset: 55235},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55156},
+																						pos:   position{line: 1706, col: 5, offset: 55235},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55167},
+																							pos: position{line: 1706, col: 16, offset: 55246},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55167},
+																								pos: position{line: 1706, col: 16, offset: 55246},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55168},
+																									pos:        position{line: 1706, col: 17, offset: 55247},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -31833,7 +32010,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55225},
+																						pos: position{line: 1709, col: 5, offset: 55304},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -31841,30 +32018,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55035},
+																		pos: position{line: 1701, col: 35, offset: 55114},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31873,16 +32050,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55040,
+																		line: 1701, col: 40, offset: 55119,
 																	},
 																},
 															},
@@ -31890,24 +32067,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54714},
+													pos:   position{line: 1694, col: 5, offset: 54793},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55156},
+														pos: position{line: 1706, col: 5, offset: 55235},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55156},
+															pos: position{line: 1706, col: 5, offset: 55235},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55156},
+																	pos:   position{line: 1706, col: 5, offset: 55235},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55167},
+																		pos: position{line: 1706, col: 16, offset: 55246},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55167},
+																			pos: position{line: 1706, col: 16, offset: 55246},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55168},
+																				pos:        position{line: 1706, col: 17, offset: 55247},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -31916,7 +32093,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55225},
+																	pos: position{line: 1709, col: 5, offset: 55304},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -31924,24 +32101,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54759},
+													pos:   position{line: 1695, col: 5, offset: 54838},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55474},
+														pos: position{line: 1717, col: 5, offset: 55553},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55540},
+																pos: position{line: 1719, col: 9, offset: 55619},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55540},
+																	pos: position{line: 1719, col: 9, offset: 55619},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55540},
+																			pos: position{line: 1719, col: 9, offset: 55619},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31950,28 +32127,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31980,15 +32157,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55559},
+																			pos: position{line: 1720, col: 9, offset: 55638},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -31996,18 +32173,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94055},
+																							pos: position{line: 2976, col: 11, offset: 94134},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94057,
+																								line: 2976, col: 13, offset: 94136,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32016,28 +32193,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32046,9 +32223,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -32061,18 +32238,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55688},
+																pos: position{line: 1726, col: 9, offset: 55767},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55688},
+																	pos: position{line: 1726, col: 9, offset: 55767},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93782},
+																				pos: position{line: 2963, col: 11, offset: 93861},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93782},
+																					pos:        position{line: 2963, col: 11, offset: 93861},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32081,15 +32258,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55761},
+																			pos:   position{line: 1727, col: 9, offset: 55840},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55770},
+																				pos: position{line: 1727, col: 18, offset: 55849},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55770},
+																					pos: position{line: 1727, col: 18, offset: 55849},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55770},
+																						pos:        position{line: 1727, col: 18, offset: 55849},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32099,28 +32276,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32129,9 +32306,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -32149,21 +32326,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1579, col: 5, offset: 50916},
+							pos:   position{line: 1579, col: 5, offset: 50995},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1579, col: 16, offset: 50927},
+								pos: position{line: 1579, col: 16, offset: 51006},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1579, col: 17, offset: 50928},
+									pos:  position{line: 1579, col: 17, offset: 51007},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1580, col: 5, offset: 50950},
+							pos:   position{line: 1580, col: 5, offset: 51029},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1581, col: 9, offset: 50968},
+								pos: position{line: 1581, col: 9, offset: 51047},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32172,18 +32349,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2976, col: 11, offset: 94055},
+													pos: position{line: 2976, col: 11, offset: 94134},
 													expr: &anyMatcher{
-														line: 2976, col: 13, offset: 94057,
+														line: 2976, col: 13, offset: 94136,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32192,28 +32369,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32222,9 +32399,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -32233,7 +32410,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1582, col: 11, offset: 50988},
+										pos:  position{line: 1582, col: 11, offset: 51067},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32289,10 +32466,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32301,28 +32478,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32331,9 +32508,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -32394,10 +32571,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32406,28 +32583,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32436,9 +32613,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -32492,10 +32669,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32504,28 +32681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32534,9 +32711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -32608,10 +32785,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32620,28 +32797,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32650,9 +32827,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -32668,9 +32845,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -32686,21 +32863,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32710,28 +32887,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32740,9 +32917,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -32804,10 +32981,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32816,28 +32993,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32846,9 +33023,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -32864,9 +33041,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -32921,10 +33098,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32933,28 +33110,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32963,9 +33140,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -33037,10 +33214,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33049,28 +33226,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33079,9 +33256,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -33097,9 +33274,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -33115,21 +33292,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33139,28 +33316,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33169,9 +33346,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -33236,10 +33413,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33248,28 +33425,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33278,9 +33455,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -33296,9 +33473,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -33350,10 +33527,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33362,28 +33539,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33392,9 +33569,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -33428,10 +33605,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33440,28 +33617,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33470,9 +33647,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -33490,21 +33667,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33514,28 +33691,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33544,9 +33721,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -33574,10 +33751,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33586,28 +33763,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33616,9 +33793,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -33675,10 +33852,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33687,28 +33864,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33717,9 +33894,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -33791,10 +33968,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33803,28 +33980,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33833,9 +34010,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -33851,9 +34028,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -33869,21 +34046,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33893,28 +34070,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33923,9 +34100,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -33990,10 +34167,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34002,28 +34179,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34032,9 +34209,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -34050,9 +34227,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -34108,10 +34285,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34120,28 +34297,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34150,9 +34327,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -34224,10 +34401,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34236,28 +34413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34266,9 +34443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -34284,9 +34461,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -34302,21 +34479,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34326,28 +34503,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34356,9 +34533,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -34423,10 +34600,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34435,28 +34612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34465,9 +34642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -34483,9 +34660,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -34541,10 +34718,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34553,28 +34730,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34583,9 +34760,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -34657,10 +34834,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34669,28 +34846,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34699,9 +34876,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -34717,9 +34894,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -34735,21 +34912,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34759,28 +34936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34789,9 +34966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -34856,10 +35033,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34868,28 +35045,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34898,9 +35075,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -34916,9 +35093,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -34952,18 +35129,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94055},
+																					pos: position{line: 2976, col: 11, offset: 94134},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94057,
+																						line: 2976, col: 13, offset: 94136,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -34972,28 +35149,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35002,9 +35179,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -35023,12 +35200,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91475},
+																		pos: position{line: 2882, col: 14, offset: 91554},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91475},
+																			pos: position{line: 2882, col: 14, offset: 91554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91475},
+																				pos:        position{line: 2882, col: 14, offset: 91554},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35038,28 +35215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35068,9 +35245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -35102,18 +35279,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2976, col: 11, offset: 94055},
+																								pos: position{line: 2976, col: 11, offset: 94134},
 																								expr: &anyMatcher{
-																									line: 2976, col: 13, offset: 94057,
+																									line: 2976, col: 13, offset: 94136,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35122,28 +35299,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35152,9 +35329,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -35173,12 +35350,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91475},
+																					pos: position{line: 2882, col: 14, offset: 91554},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91475},
+																						pos: position{line: 2882, col: 14, offset: 91554},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91475},
+																							pos:        position{line: 2882, col: 14, offset: 91554},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35188,28 +35365,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94119},
+																				pos: position{line: 2981, col: 8, offset: 94198},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93892},
+																						pos: position{line: 2968, col: 12, offset: 93971},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93893},
+																							pos: position{line: 2968, col: 13, offset: 93972},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93893},
+																									pos:        position{line: 2968, col: 13, offset: 93972},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93900},
+																									pos:        position{line: 2968, col: 20, offset: 93979},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93909},
+																									pos:        position{line: 2968, col: 29, offset: 93988},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35218,9 +35395,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -35229,21 +35406,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1824, col: 5, offset: 58922},
+																	pos: position{line: 1824, col: 5, offset: 59001},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1824, col: 5, offset: 58922},
+																		pos: position{line: 1824, col: 5, offset: 59001},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1824, col: 5, offset: 58922},
+																				pos:   position{line: 1824, col: 5, offset: 59001},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91475},
+																					pos: position{line: 2882, col: 14, offset: 91554},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91475},
+																						pos: position{line: 2882, col: 14, offset: 91554},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91475},
+																							pos:        position{line: 2882, col: 14, offset: 91554},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35253,32 +35430,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1825, col: 5, offset: 58946},
+																				pos: position{line: 1825, col: 5, offset: 59025},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94119},
+																				pos: position{line: 2981, col: 8, offset: 94198},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93892},
+																						pos: position{line: 2968, col: 12, offset: 93971},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93893},
+																							pos: position{line: 2968, col: 13, offset: 93972},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93893},
+																									pos:        position{line: 2968, col: 13, offset: 93972},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93900},
+																									pos:        position{line: 2968, col: 20, offset: 93979},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93909},
+																									pos:        position{line: 2968, col: 29, offset: 93988},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35287,9 +35464,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -35336,10 +35513,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35348,28 +35525,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35378,9 +35555,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -35428,10 +35605,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35440,28 +35617,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35470,9 +35647,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -35481,9 +35658,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -35499,21 +35676,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35523,28 +35700,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35553,9 +35730,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -35600,10 +35777,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93721},
+																					pos: position{line: 2959, col: 10, offset: 93800},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93721},
+																						pos:        position{line: 2959, col: 10, offset: 93800},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35612,28 +35789,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94119},
+																				pos: position{line: 2981, col: 8, offset: 94198},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93892},
+																						pos: position{line: 2968, col: 12, offset: 93971},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93893},
+																							pos: position{line: 2968, col: 13, offset: 93972},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93893},
+																									pos:        position{line: 2968, col: 13, offset: 93972},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93900},
+																									pos:        position{line: 2968, col: 20, offset: 93979},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93909},
+																									pos:        position{line: 2968, col: 29, offset: 93988},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35642,9 +35819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -35653,9 +35830,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -35711,10 +35888,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35723,28 +35900,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35753,9 +35930,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -35827,10 +36004,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35839,28 +36016,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35869,9 +36046,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -35887,9 +36064,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -35905,21 +36082,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35929,28 +36106,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35959,9 +36136,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -36026,10 +36203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36038,28 +36215,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36068,9 +36245,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -36086,9 +36263,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -36144,10 +36321,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36156,28 +36333,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36186,9 +36363,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -36260,10 +36437,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36272,28 +36449,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36302,9 +36479,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -36320,9 +36497,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -36338,21 +36515,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36362,28 +36539,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36392,9 +36569,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -36459,10 +36636,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36471,28 +36648,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36501,9 +36678,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -36519,9 +36696,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -36577,10 +36754,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36589,28 +36766,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36619,9 +36796,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -36693,10 +36870,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93721},
+																												pos: position{line: 2959, col: 10, offset: 93800},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93721},
+																													pos:        position{line: 2959, col: 10, offset: 93800},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36705,28 +36882,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94119},
+																											pos: position{line: 2981, col: 8, offset: 94198},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93892},
+																													pos: position{line: 2968, col: 12, offset: 93971},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93893},
+																														pos: position{line: 2968, col: 13, offset: 93972},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36735,9 +36912,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94069},
+																													pos: position{line: 2978, col: 8, offset: 94148},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94070,
+																														line: 2978, col: 9, offset: 94149,
 																													},
 																												},
 																											},
@@ -36753,9 +36930,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -36771,21 +36948,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94055},
+																						pos: position{line: 2976, col: 11, offset: 94134},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94057,
+																							line: 2976, col: 13, offset: 94136,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91408},
+																							pos: position{line: 2878, col: 13, offset: 91487},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91408},
+																								pos: position{line: 2878, col: 13, offset: 91487},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91408},
+																									pos:        position{line: 2878, col: 13, offset: 91487},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36795,28 +36972,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36825,9 +37002,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -36892,10 +37069,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36904,28 +37081,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36934,9 +37111,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -36952,9 +37129,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -36965,27 +37142,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2764, col: 18, offset: 88028},
+										pos: position{line: 2764, col: 18, offset: 88107},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2765, col: 9, offset: 88038},
+											pos: position{line: 2765, col: 9, offset: 88117},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2765, col: 9, offset: 88038},
+													pos: position{line: 2765, col: 9, offset: 88117},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2765, col: 9, offset: 88038},
+															pos:        position{line: 2765, col: 9, offset: 88117},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2765, col: 15, offset: 88044},
+															pos: position{line: 2765, col: 15, offset: 88123},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -36994,28 +37171,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94119},
+															pos: position{line: 2981, col: 8, offset: 94198},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93892},
+																	pos: position{line: 2968, col: 12, offset: 93971},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93893},
+																		pos: position{line: 2968, col: 13, offset: 93972},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93893},
+																				pos:        position{line: 2968, col: 13, offset: 93972},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93900},
+																				pos:        position{line: 2968, col: 20, offset: 93979},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93909},
+																				pos:        position{line: 2968, col: 29, offset: 93988},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37024,9 +37201,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -37034,43 +37211,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2766, col: 11, offset: 88077},
+													pos: position{line: 2766, col: 11, offset: 88156},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2766, col: 12, offset: 88078},
+															pos: position{line: 2766, col: 12, offset: 88157},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2766, col: 12, offset: 88078},
+																	pos:        position{line: 2766, col: 12, offset: 88157},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 20, offset: 88086},
+																	pos:        position{line: 2766, col: 20, offset: 88165},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 30, offset: 88096},
+																	pos:        position{line: 2766, col: 30, offset: 88175},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 38, offset: 88104},
+																	pos:        position{line: 2766, col: 38, offset: 88183},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 48, offset: 88114},
+																	pos:        position{line: 2766, col: 48, offset: 88193},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 56, offset: 88122},
+																	pos:        position{line: 2766, col: 56, offset: 88201},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37078,12 +37255,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2766, col: 65, offset: 88131},
+															pos: position{line: 2766, col: 65, offset: 88210},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37092,28 +37269,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94119},
+															pos: position{line: 2981, col: 8, offset: 94198},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93892},
+																	pos: position{line: 2968, col: 12, offset: 93971},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93893},
+																		pos: position{line: 2968, col: 13, offset: 93972},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93893},
+																				pos:        position{line: 2968, col: 13, offset: 93972},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93900},
+																				pos:        position{line: 2968, col: 20, offset: 93979},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93909},
+																				pos:        position{line: 2968, col: 29, offset: 93988},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37122,38 +37299,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2766, col: 76, offset: 88142},
+															pos: position{line: 2766, col: 76, offset: 88221},
 															expr: &choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37162,9 +37339,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -37176,32 +37353,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1586, col: 11, offset: 51130},
+										pos:  position{line: 1586, col: 11, offset: 51209},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1587, col: 11, offset: 51151},
+										pos:  position{line: 1587, col: 11, offset: 51230},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2655, col: 5, offset: 84964},
+										pos: position{line: 2655, col: 5, offset: 85043},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2655, col: 5, offset: 84964},
+											pos: position{line: 2655, col: 5, offset: 85043},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2661, col: 19, offset: 85121},
+													pos:        position{line: 2661, col: 19, offset: 85200},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2661, col: 26, offset: 85128},
+													pos: position{line: 2661, col: 26, offset: 85207},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37210,28 +37387,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37240,20 +37417,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2656, col: 5, offset: 84988},
+													pos:   position{line: 2656, col: 5, offset: 85067},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2656, col: 11, offset: 84994},
+														pos: position{line: 2656, col: 11, offset: 85073},
 														expr: &choiceExpr{
-															pos: position{line: 2656, col: 12, offset: 84995},
+															pos: position{line: 2656, col: 12, offset: 85074},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37262,18 +37439,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2976, col: 11, offset: 94055},
+																				pos: position{line: 2976, col: 11, offset: 94134},
 																				expr: &anyMatcher{
-																					line: 2976, col: 13, offset: 94057,
+																					line: 2976, col: 13, offset: 94136,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93721},
+																					pos: position{line: 2959, col: 10, offset: 93800},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93721},
+																						pos:        position{line: 2959, col: 10, offset: 93800},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37282,28 +37459,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94119},
+																				pos: position{line: 2981, col: 8, offset: 94198},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93892},
+																						pos: position{line: 2968, col: 12, offset: 93971},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93893},
+																							pos: position{line: 2968, col: 13, offset: 93972},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93893},
+																									pos:        position{line: 2968, col: 13, offset: 93972},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93900},
+																									pos:        position{line: 2968, col: 20, offset: 93979},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93909},
+																									pos:        position{line: 2968, col: 29, offset: 93988},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37312,9 +37489,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -37323,32 +37500,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2668, col: 5, offset: 85240},
+																	pos: position{line: 2668, col: 5, offset: 85319},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2668, col: 5, offset: 85240},
+																		pos: position{line: 2668, col: 5, offset: 85319},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2668, col: 5, offset: 85240},
+																				pos: position{line: 2668, col: 5, offset: 85319},
 																				expr: &choiceExpr{
-																					pos: position{line: 2665, col: 22, offset: 85201},
+																					pos: position{line: 2665, col: 22, offset: 85280},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2661, col: 19, offset: 85121},
+																							pos: position{line: 2661, col: 19, offset: 85200},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2661, col: 19, offset: 85121},
+																									pos:        position{line: 2661, col: 19, offset: 85200},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2661, col: 26, offset: 85128},
+																									pos: position{line: 2661, col: 26, offset: 85207},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93721},
+																										pos: position{line: 2959, col: 10, offset: 93800},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93721},
+																											pos:        position{line: 2959, col: 10, offset: 93800},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37357,28 +37534,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37387,9 +37564,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
@@ -37397,59 +37574,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2669, col: 5, offset: 85263},
+																				pos:   position{line: 2669, col: 5, offset: 85342},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2670, col: 9, offset: 85281},
+																					pos: position{line: 2670, col: 9, offset: 85360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2670, col: 10, offset: 85282},
+																							pos: position{line: 2670, col: 10, offset: 85361},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2670, col: 10, offset: 85282},
+																								pos:   position{line: 2670, col: 10, offset: 85361},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2670, col: 17, offset: 85289},
+																									pos: position{line: 2670, col: 17, offset: 85368},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2678, col: 21, offset: 85485},
+																											pos: position{line: 2678, col: 21, offset: 85564},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2678, col: 21, offset: 85485},
+																												pos: position{line: 2678, col: 21, offset: 85564},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2678, col: 21, offset: 85485},
+																														pos:   position{line: 2678, col: 21, offset: 85564},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2678, col: 27, offset: 85491},
+																															pos: position{line: 2678, col: 27, offset: 85570},
 																															expr: &actionExpr{
-																																pos: position{line: 2683, col: 5, offset: 85566},
+																																pos: position{line: 2683, col: 5, offset: 85645},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85566},
+																																	pos: position{line: 2683, col: 5, offset: 85645},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2683, col: 5, offset: 85566},
+																																			pos:        position{line: 2683, col: 5, offset: 85645},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2683, col: 9, offset: 85570},
+																																			pos: position{line: 2683, col: 9, offset: 85649},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2959, col: 10, offset: 93721},
+																																				pos: position{line: 2959, col: 10, offset: 93800},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2959, col: 10, offset: 93721},
+																																					pos:        position{line: 2959, col: 10, offset: 93800},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37458,21 +37635,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2683, col: 16, offset: 85577},
+																																			pos:   position{line: 2683, col: 16, offset: 85656},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2689, col: 5, offset: 85777},
+																																				pos: position{line: 2689, col: 5, offset: 85856},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2689, col: 5, offset: 85777},
+																																					pos:   position{line: 2689, col: 5, offset: 85856},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2689, col: 14, offset: 85786},
+																																						pos: position{line: 2689, col: 14, offset: 85865},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85786},
+																																							pos: position{line: 2689, col: 14, offset: 85865},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2689, col: 14, offset: 85786},
+																																								pos:        position{line: 2689, col: 14, offset: 85865},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37489,28 +37666,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2981, col: 8, offset: 94119},
+																														pos: position{line: 2981, col: 8, offset: 94198},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2968, col: 12, offset: 93892},
+																																pos: position{line: 2968, col: 12, offset: 93971},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2968, col: 13, offset: 93893},
+																																	pos: position{line: 2968, col: 13, offset: 93972},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 13, offset: 93893},
+																																			pos:        position{line: 2968, col: 13, offset: 93972},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 20, offset: 93900},
+																																			pos:        position{line: 2968, col: 20, offset: 93979},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 29, offset: 93909},
+																																			pos:        position{line: 2968, col: 29, offset: 93988},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37519,9 +37696,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2978, col: 8, offset: 94069},
+																																pos: position{line: 2978, col: 8, offset: 94148},
 																																expr: &anyMatcher{
-																																	line: 2978, col: 9, offset: 94070,
+																																	line: 2978, col: 9, offset: 94149,
 																																},
 																															},
 																														},
@@ -37530,40 +37707,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2695, col: 24, offset: 85922},
+																											pos: position{line: 2695, col: 24, offset: 86001},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2695, col: 24, offset: 85922},
+																												pos:   position{line: 2695, col: 24, offset: 86001},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2695, col: 30, offset: 85928},
+																													pos: position{line: 2695, col: 30, offset: 86007},
 																													expr: &actionExpr{
-																														pos: position{line: 2700, col: 5, offset: 86004},
+																														pos: position{line: 2700, col: 5, offset: 86083},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2700, col: 5, offset: 86004},
+																															pos: position{line: 2700, col: 5, offset: 86083},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2700, col: 5, offset: 86004},
+																																	pos: position{line: 2700, col: 5, offset: 86083},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2665, col: 22, offset: 85201},
+																																		pos: position{line: 2665, col: 22, offset: 85280},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2661, col: 19, offset: 85121},
+																																				pos: position{line: 2661, col: 19, offset: 85200},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2661, col: 19, offset: 85121},
+																																						pos:        position{line: 2661, col: 19, offset: 85200},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2661, col: 26, offset: 85128},
+																																						pos: position{line: 2661, col: 26, offset: 85207},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93721},
+																																							pos: position{line: 2959, col: 10, offset: 93800},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93721},
+																																								pos:        position{line: 2959, col: 10, offset: 93800},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37572,28 +37749,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94119},
+																																						pos: position{line: 2981, col: 8, offset: 94198},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93892},
+																																								pos: position{line: 2968, col: 12, offset: 93971},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93893},
+																																									pos: position{line: 2968, col: 13, offset: 93972},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93893},
+																																											pos:        position{line: 2968, col: 13, offset: 93972},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93900},
+																																											pos:        position{line: 2968, col: 20, offset: 93979},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93909},
+																																											pos:        position{line: 2968, col: 29, offset: 93988},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37602,9 +37779,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94069},
+																																								pos: position{line: 2978, col: 8, offset: 94148},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94070,
+																																									line: 2978, col: 9, offset: 94149,
 																																								},
 																																							},
 																																						},
@@ -37612,16 +37789,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2978, col: 8, offset: 94069},
+																																				pos: position{line: 2978, col: 8, offset: 94148},
 																																				expr: &anyMatcher{
-																																					line: 2978, col: 9, offset: 94070,
+																																					line: 2978, col: 9, offset: 94149,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2701, col: 5, offset: 86027},
+																																	pos: position{line: 2701, col: 5, offset: 86106},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37629,18 +37806,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2976, col: 11, offset: 94055},
+																																					pos: position{line: 2976, col: 11, offset: 94134},
 																																					expr: &anyMatcher{
-																																						line: 2976, col: 13, offset: 94057,
+																																						line: 2976, col: 13, offset: 94136,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2959, col: 10, offset: 93721},
+																																						pos: position{line: 2959, col: 10, offset: 93800},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2959, col: 10, offset: 93721},
+																																							pos:        position{line: 2959, col: 10, offset: 93800},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37649,28 +37826,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2981, col: 8, offset: 94119},
+																																					pos: position{line: 2981, col: 8, offset: 94198},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2968, col: 12, offset: 93892},
+																																							pos: position{line: 2968, col: 12, offset: 93971},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2968, col: 13, offset: 93893},
+																																								pos: position{line: 2968, col: 13, offset: 93972},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 13, offset: 93893},
+																																										pos:        position{line: 2968, col: 13, offset: 93972},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 20, offset: 93900},
+																																										pos:        position{line: 2968, col: 20, offset: 93979},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 29, offset: 93909},
+																																										pos:        position{line: 2968, col: 29, offset: 93988},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37679,9 +37856,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2978, col: 8, offset: 94069},
+																																							pos: position{line: 2978, col: 8, offset: 94148},
 																																							expr: &anyMatcher{
-																																								line: 2978, col: 9, offset: 94070,
+																																								line: 2978, col: 9, offset: 94149,
 																																							},
 																																						},
 																																					},
@@ -37691,17 +37868,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 5, offset: 86042},
+																																	pos:   position{line: 2702, col: 5, offset: 86121},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 12, offset: 86049},
+																																		pos: position{line: 2702, col: 12, offset: 86128},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2719, col: 20, offset: 86513},
+																																			pos: position{line: 2719, col: 20, offset: 86592},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86513},
+																																				pos: position{line: 2719, col: 20, offset: 86592},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2719, col: 20, offset: 86513},
+																																					pos:        position{line: 2719, col: 20, offset: 86592},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37712,18 +37889,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2702, col: 31, offset: 86068},
+																																	pos:        position{line: 2702, col: 31, offset: 86147},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2702, col: 35, offset: 86072},
+																																	pos: position{line: 2702, col: 35, offset: 86151},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2959, col: 10, offset: 93721},
+																																		pos: position{line: 2959, col: 10, offset: 93800},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2959, col: 10, offset: 93721},
+																																			pos:        position{line: 2959, col: 10, offset: 93800},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37732,27 +37909,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2702, col: 42, offset: 86079},
+																																	pos: position{line: 2702, col: 42, offset: 86158},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93892},
+																																		pos: position{line: 2968, col: 12, offset: 93971},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93893},
+																																			pos: position{line: 2968, col: 13, offset: 93972},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93893},
+																																					pos:        position{line: 2968, col: 13, offset: 93972},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93900},
+																																					pos:        position{line: 2968, col: 20, offset: 93979},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93909},
+																																					pos:        position{line: 2968, col: 29, offset: 93988},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37762,37 +37939,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 51, offset: 86088},
+																																	pos:   position{line: 2702, col: 51, offset: 86167},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2708, col: 5, offset: 86247},
+																																		pos: position{line: 2708, col: 5, offset: 86326},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2709, col: 9, offset: 86257},
+																																			pos: position{line: 2709, col: 9, offset: 86336},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86257},
+																																				pos: position{line: 2709, col: 9, offset: 86336},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2709, col: 9, offset: 86257},
+																																						pos: position{line: 2709, col: 9, offset: 86336},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2665, col: 22, offset: 85201},
+																																							pos: position{line: 2665, col: 22, offset: 85280},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2661, col: 19, offset: 85121},
+																																									pos: position{line: 2661, col: 19, offset: 85200},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2661, col: 19, offset: 85121},
+																																											pos:        position{line: 2661, col: 19, offset: 85200},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2661, col: 26, offset: 85128},
+																																											pos: position{line: 2661, col: 26, offset: 85207},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93721},
+																																												pos: position{line: 2959, col: 10, offset: 93800},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93721},
+																																													pos:        position{line: 2959, col: 10, offset: 93800},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37801,28 +37978,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94119},
+																																											pos: position{line: 2981, col: 8, offset: 94198},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93892},
+																																													pos: position{line: 2968, col: 12, offset: 93971},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93893},
+																																														pos: position{line: 2968, col: 13, offset: 93972},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93893},
+																																																pos:        position{line: 2968, col: 13, offset: 93972},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93900},
+																																																pos:        position{line: 2968, col: 20, offset: 93979},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93909},
+																																																pos:        position{line: 2968, col: 29, offset: 93988},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -37831,9 +38008,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94069},
+																																													pos: position{line: 2978, col: 8, offset: 94148},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94070,
+																																														line: 2978, col: 9, offset: 94149,
 																																													},
 																																												},
 																																											},
@@ -37841,16 +38018,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94069},
+																																									pos: position{line: 2978, col: 8, offset: 94148},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94070,
+																																										line: 2978, col: 9, offset: 94149,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2710, col: 9, offset: 86284},
+																																						pos: position{line: 2710, col: 9, offset: 86363},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -37858,18 +38035,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2976, col: 11, offset: 94055},
+																																										pos: position{line: 2976, col: 11, offset: 94134},
 																																										expr: &anyMatcher{
-																																											line: 2976, col: 13, offset: 94057,
+																																											line: 2976, col: 13, offset: 94136,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2959, col: 10, offset: 93721},
+																																											pos: position{line: 2959, col: 10, offset: 93800},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2959, col: 10, offset: 93721},
+																																												pos:        position{line: 2959, col: 10, offset: 93800},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -37878,28 +38055,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2981, col: 8, offset: 94119},
+																																										pos: position{line: 2981, col: 8, offset: 94198},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2968, col: 12, offset: 93892},
+																																												pos: position{line: 2968, col: 12, offset: 93971},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2968, col: 13, offset: 93893},
+																																													pos: position{line: 2968, col: 13, offset: 93972},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 13, offset: 93893},
+																																															pos:        position{line: 2968, col: 13, offset: 93972},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 20, offset: 93900},
+																																															pos:        position{line: 2968, col: 20, offset: 93979},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 29, offset: 93909},
+																																															pos:        position{line: 2968, col: 29, offset: 93988},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37908,9 +38085,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2978, col: 8, offset: 94069},
+																																												pos: position{line: 2978, col: 8, offset: 94148},
 																																												expr: &anyMatcher{
-																																													line: 2978, col: 9, offset: 94070,
+																																													line: 2978, col: 9, offset: 94149,
 																																												},
 																																											},
 																																										},
@@ -37920,22 +38097,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2711, col: 9, offset: 86303},
+																																						pos: position{line: 2711, col: 9, offset: 86382},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2711, col: 11, offset: 86305},
+																																							pos: position{line: 2711, col: 11, offset: 86384},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2711, col: 11, offset: 86305},
+																																									pos:   position{line: 2711, col: 11, offset: 86384},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2711, col: 18, offset: 86312},
+																																										pos: position{line: 2711, col: 18, offset: 86391},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2719, col: 20, offset: 86513},
+																																											pos: position{line: 2719, col: 20, offset: 86592},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86513},
+																																												pos: position{line: 2719, col: 20, offset: 86592},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2719, col: 20, offset: 86513},
+																																													pos:        position{line: 2719, col: 20, offset: 86592},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37946,7 +38123,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2711, col: 37, offset: 86331},
+																																									pos:        position{line: 2711, col: 37, offset: 86410},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37955,15 +38132,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2712, col: 9, offset: 86344},
+																																						pos:   position{line: 2712, col: 9, offset: 86423},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2712, col: 18, offset: 86353},
+																																							pos: position{line: 2712, col: 18, offset: 86432},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86353},
+																																								pos: position{line: 2712, col: 18, offset: 86432},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2712, col: 18, offset: 86353},
+																																									pos:        position{line: 2712, col: 18, offset: 86432},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37973,30 +38150,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2714, col: 12, offset: 86415},
+																																						pos: position{line: 2714, col: 12, offset: 86494},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94119},
+																																							pos: position{line: 2981, col: 8, offset: 94198},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93892},
+																																									pos: position{line: 2968, col: 12, offset: 93971},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93893},
+																																										pos: position{line: 2968, col: 13, offset: 93972},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93893},
+																																												pos:        position{line: 2968, col: 13, offset: 93972},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93900},
+																																												pos:        position{line: 2968, col: 20, offset: 93979},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93909},
+																																												pos:        position{line: 2968, col: 29, offset: 93988},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38005,9 +38182,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94069},
+																																									pos: position{line: 2978, col: 8, offset: 94148},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94070,
+																																										line: 2978, col: 9, offset: 94149,
 																																									},
 																																								},
 																																							},
@@ -38035,18 +38212,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94055},
+																										pos: position{line: 2976, col: 11, offset: 94134},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94057,
+																											line: 2976, col: 13, offset: 94136,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93721},
+																											pos: position{line: 2959, col: 10, offset: 93800},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93721},
+																												pos:        position{line: 2959, col: 10, offset: 93800},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38055,28 +38232,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94119},
+																										pos: position{line: 2981, col: 8, offset: 94198},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93892},
+																												pos: position{line: 2968, col: 12, offset: 93971},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93893},
+																													pos: position{line: 2968, col: 13, offset: 93972},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93893},
+																															pos:        position{line: 2968, col: 13, offset: 93972},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93900},
+																															pos:        position{line: 2968, col: 20, offset: 93979},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93909},
+																															pos:        position{line: 2968, col: 29, offset: 93988},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38085,9 +38262,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94069},
+																												pos: position{line: 2978, col: 8, offset: 94148},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94070,
+																													line: 2978, col: 9, offset: 94149,
 																												},
 																											},
 																										},
@@ -38106,24 +38283,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2665, col: 22, offset: 85201},
+													pos: position{line: 2665, col: 22, offset: 85280},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85121},
+															pos: position{line: 2661, col: 19, offset: 85200},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85121},
+																	pos:        position{line: 2661, col: 19, offset: 85200},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85128},
+																	pos: position{line: 2661, col: 26, offset: 85207},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38132,28 +38309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38162,9 +38339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -38172,9 +38349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -38183,36 +38360,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81364},
+										pos: position{line: 2526, col: 22, offset: 81443},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81364},
+											pos: position{line: 2526, col: 22, offset: 81443},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81585},
+													pos:        position{line: 2531, col: 31, offset: 81664},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81590},
+													pos: position{line: 2531, col: 36, offset: 81669},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81591},
+														pos:        position{line: 2531, col: 37, offset: 81670},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81391},
+													pos:   position{line: 2526, col: 49, offset: 81470},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91408},
+														pos: position{line: 2878, col: 13, offset: 91487},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91408},
+															pos: position{line: 2878, col: 13, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91408},
+																pos:        position{line: 2878, col: 13, offset: 91487},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38222,28 +38399,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94119},
+													pos: position{line: 2981, col: 8, offset: 94198},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38252,9 +38429,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94069},
+															pos: position{line: 2978, col: 8, offset: 94148},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94070,
+																line: 2978, col: 9, offset: 94149,
 															},
 														},
 													},
@@ -38263,51 +38440,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1600, col: 5, offset: 51585},
+										pos: position{line: 1600, col: 5, offset: 51664},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1600, col: 5, offset: 51585},
+											pos: position{line: 1600, col: 5, offset: 51664},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1600, col: 5, offset: 51585},
+													pos:   position{line: 1600, col: 5, offset: 51664},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1600, col: 11, offset: 51591},
+														pos: position{line: 1600, col: 11, offset: 51670},
 														expr: &actionExpr{
-															pos: position{line: 1764, col: 5, offset: 56908},
+															pos: position{line: 1764, col: 5, offset: 56987},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1764, col: 5, offset: 56908},
+																pos: position{line: 1764, col: 5, offset: 56987},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1764, col: 5, offset: 56908},
+																		pos: position{line: 1764, col: 5, offset: 56987},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1767, col: 5, offset: 56971},
+																		pos:   position{line: 1767, col: 5, offset: 57050},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1767, col: 12, offset: 56978},
+																			pos: position{line: 1767, col: 12, offset: 57057},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1767, col: 12, offset: 56978},
+																					pos: position{line: 1767, col: 12, offset: 57057},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &seqExpr{
-																						pos: position{line: 1767, col: 12, offset: 56978},
+																						pos: position{line: 1767, col: 12, offset: 57057},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1767, col: 12, offset: 56978},
+																								pos:        position{line: 1767, col: 12, offset: 57057},
 																								val:        "TIP:",
 																								ignoreCase: false,
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38319,24 +38496,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57040},
+																					pos: position{line: 1769, col: 13, offset: 57119},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &seqExpr{
-																						pos: position{line: 1769, col: 13, offset: 57040},
+																						pos: position{line: 1769, col: 13, offset: 57119},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1769, col: 13, offset: 57040},
+																								pos:        position{line: 1769, col: 13, offset: 57119},
 																								val:        "NOTE:",
 																								ignoreCase: false,
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38348,24 +38525,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57104},
+																					pos: position{line: 1771, col: 13, offset: 57183},
 																					run: (*parser).callonListContinuationElement1604,
 																					expr: &seqExpr{
-																						pos: position{line: 1771, col: 13, offset: 57104},
+																						pos: position{line: 1771, col: 13, offset: 57183},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1771, col: 13, offset: 57104},
+																								pos:        position{line: 1771, col: 13, offset: 57183},
 																								val:        "IMPORTANT:",
 																								ignoreCase: false,
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38377,24 +38554,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57178},
+																					pos: position{line: 1773, col: 13, offset: 57257},
 																					run: (*parser).callonListContinuationElement1610,
 																					expr: &seqExpr{
-																						pos: position{line: 1773, col: 13, offset: 57178},
+																						pos: position{line: 1773, col: 13, offset: 57257},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1773, col: 13, offset: 57178},
+																								pos:        position{line: 1773, col: 13, offset: 57257},
 																								val:        "WARNING:",
 																								ignoreCase: false,
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38406,24 +38583,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57248},
+																					pos: position{line: 1775, col: 13, offset: 57327},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &seqExpr{
-																						pos: position{line: 1775, col: 13, offset: 57248},
+																						pos: position{line: 1775, col: 13, offset: 57327},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1775, col: 13, offset: 57248},
+																								pos:        position{line: 1775, col: 13, offset: 57327},
 																								val:        "CAUTION:",
 																								ignoreCase: false,
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93782},
+																										pos:        position{line: 2963, col: 11, offset: 93861},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38435,17 +38612,17 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57318},
+																					pos: position{line: 1777, col: 13, offset: 57397},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1777, col: 13, offset: 57318},
+																						pos: position{line: 1777, col: 13, offset: 57397},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93782},
+																							pos: position{line: 2963, col: 11, offset: 93861},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93782},
+																								pos: position{line: 2963, col: 11, offset: 93861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93782},
+																									pos:        position{line: 2963, col: 11, offset: 93861},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38459,17 +38636,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1779, col: 12, offset: 57398},
+																		pos: position{line: 1779, col: 12, offset: 57477},
 																		expr: &seqExpr{
-																			pos: position{line: 1779, col: 14, offset: 57400},
+																			pos: position{line: 1779, col: 14, offset: 57479},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1779, col: 14, offset: 57400},
+																					pos: position{line: 1779, col: 14, offset: 57479},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38478,28 +38655,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38508,9 +38685,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -38524,7 +38701,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51614},
+													pos:   position{line: 1601, col: 5, offset: 51693},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1543, col: 5, offset: 49885},
@@ -38541,18 +38718,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94055},
+																					pos: position{line: 2976, col: 11, offset: 94134},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94057,
+																						line: 2976, col: 13, offset: 94136,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38561,28 +38738,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94119},
+																					pos: position{line: 2981, col: 8, offset: 94198},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38591,9 +38768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94069},
+																							pos: position{line: 2978, col: 8, offset: 94148},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94070,
+																								line: 2978, col: 9, offset: 94149,
 																							},
 																						},
 																					},
@@ -38605,21 +38782,21 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1544, col: 5, offset: 49900},
 																	expr: &seqExpr{
-																		pos: position{line: 1574, col: 27, offset: 50805},
+																		pos: position{line: 1574, col: 27, offset: 50884},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1574, col: 27, offset: 50805},
+																				pos:        position{line: 1574, col: 27, offset: 50884},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1574, col: 31, offset: 50809},
+																				pos: position{line: 1574, col: 31, offset: 50888},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93721},
+																					pos: position{line: 2959, col: 10, offset: 93800},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93721},
+																						pos:        position{line: 2959, col: 10, offset: 93800},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38628,25 +38805,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38660,18 +38837,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1545, col: 5, offset: 49928},
 																	expr: &actionExpr{
-																		pos: position{line: 1616, col: 5, offset: 52024},
+																		pos: position{line: 1616, col: 5, offset: 52103},
 																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
-																			pos: position{line: 1616, col: 5, offset: 52024},
+																			pos: position{line: 1616, col: 5, offset: 52103},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1616, col: 5, offset: 52024},
+																					pos: position{line: 1616, col: 5, offset: 52103},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38680,27 +38857,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1616, col: 12, offset: 52031},
+																					pos:   position{line: 1616, col: 12, offset: 52110},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1618, col: 9, offset: 52094},
+																						pos: position{line: 1618, col: 9, offset: 52173},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1618, col: 9, offset: 52094},
+																								pos: position{line: 1618, col: 9, offset: 52173},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 9, offset: 52094},
+																									pos: position{line: 1618, col: 9, offset: 52173},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1618, col: 9, offset: 52094},
+																											pos:   position{line: 1618, col: 9, offset: 52173},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1618, col: 16, offset: 52101},
+																												pos: position{line: 1618, col: 16, offset: 52180},
 																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1618, col: 16, offset: 52101},
+																													pos: position{line: 1618, col: 16, offset: 52180},
 																													expr: &litMatcher{
-																														pos:        position{line: 1618, col: 17, offset: 52102},
+																														pos:        position{line: 1618, col: 17, offset: 52181},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38709,22 +38886,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1622, col: 9, offset: 52202},
+																											pos: position{line: 1622, col: 9, offset: 52281},
 																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 11, offset: 52919},
+																								pos: position{line: 1641, col: 11, offset: 52998},
 																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 11, offset: 52919},
+																									pos: position{line: 1641, col: 11, offset: 52998},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 11, offset: 52919},
+																											pos: position{line: 1641, col: 11, offset: 52998},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 12, offset: 52920},
+																												pos:        position{line: 1641, col: 12, offset: 52999},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38732,7 +38909,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 20, offset: 52928},
+																											pos:        position{line: 1641, col: 20, offset: 53007},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38741,20 +38918,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1643, col: 13, offset: 53045},
+																								pos: position{line: 1643, col: 13, offset: 53124},
 																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
-																									pos: position{line: 1643, col: 13, offset: 53045},
+																									pos: position{line: 1643, col: 13, offset: 53124},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1643, col: 14, offset: 53046},
+																											pos:        position{line: 1643, col: 14, offset: 53125},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 21, offset: 53053},
+																											pos:        position{line: 1643, col: 21, offset: 53132},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38763,20 +38940,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1645, col: 13, offset: 53173},
+																								pos: position{line: 1645, col: 13, offset: 53252},
 																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
-																									pos: position{line: 1645, col: 13, offset: 53173},
+																									pos: position{line: 1645, col: 13, offset: 53252},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1645, col: 14, offset: 53174},
+																											pos:        position{line: 1645, col: 14, offset: 53253},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1645, col: 21, offset: 53181},
+																											pos:        position{line: 1645, col: 21, offset: 53260},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38785,15 +38962,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1647, col: 13, offset: 53301},
+																								pos: position{line: 1647, col: 13, offset: 53380},
 																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1647, col: 13, offset: 53301},
+																									pos: position{line: 1647, col: 13, offset: 53380},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1647, col: 13, offset: 53301},
+																											pos: position{line: 1647, col: 13, offset: 53380},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1647, col: 14, offset: 53302},
+																												pos:        position{line: 1647, col: 14, offset: 53381},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38801,7 +38978,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1647, col: 26, offset: 53314},
+																											pos:        position{line: 1647, col: 26, offset: 53393},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38810,15 +38987,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1649, col: 13, offset: 53434},
+																								pos: position{line: 1649, col: 13, offset: 53513},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1649, col: 13, offset: 53434},
+																									pos: position{line: 1649, col: 13, offset: 53513},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 13, offset: 53434},
+																											pos: position{line: 1649, col: 13, offset: 53513},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1649, col: 14, offset: 53435},
+																												pos:        position{line: 1649, col: 14, offset: 53514},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38826,7 +39003,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 26, offset: 53447},
+																											pos:        position{line: 1649, col: 26, offset: 53526},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38838,12 +39015,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93782},
+																					pos: position{line: 2963, col: 11, offset: 93861},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93782},
+																						pos: position{line: 2963, col: 11, offset: 93861},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93782},
+																							pos:        position{line: 2963, col: 11, offset: 93861},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38858,18 +39035,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1546, col: 5, offset: 49958},
 																	expr: &actionExpr{
-																		pos: position{line: 1666, col: 5, offset: 53986},
+																		pos: position{line: 1666, col: 5, offset: 54065},
 																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
-																			pos: position{line: 1666, col: 5, offset: 53986},
+																			pos: position{line: 1666, col: 5, offset: 54065},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1666, col: 5, offset: 53986},
+																					pos: position{line: 1666, col: 5, offset: 54065},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38878,24 +39055,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1667, col: 5, offset: 53998},
+																					pos:   position{line: 1667, col: 5, offset: 54077},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1668, col: 9, offset: 54014},
+																						pos: position{line: 1668, col: 9, offset: 54093},
 																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
-																							pos: position{line: 1668, col: 10, offset: 54015},
+																							pos: position{line: 1668, col: 10, offset: 54094},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1668, col: 11, offset: 54016},
+																									pos:        position{line: 1668, col: 11, offset: 54095},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1668, col: 18, offset: 54023},
+																									pos: position{line: 1668, col: 18, offset: 54102},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 19, offset: 54024},
+																										pos:        position{line: 1668, col: 19, offset: 54103},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38906,16 +39083,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1671, col: 7, offset: 54114},
+																					pos: position{line: 1671, col: 7, offset: 54193},
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93782},
+																					pos: position{line: 2963, col: 11, offset: 93861},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93782},
+																						pos: position{line: 2963, col: 11, offset: 93861},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93782},
+																							pos:        position{line: 2963, col: 11, offset: 93861},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38930,27 +39107,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1547, col: 5, offset: 49990},
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 5, offset: 56523},
+																		pos: position{line: 1755, col: 5, offset: 56602},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1755, col: 5, offset: 56523},
+																			pos: position{line: 1755, col: 5, offset: 56602},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 5, offset: 56523},
+																					pos:        position{line: 1755, col: 5, offset: 56602},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1755, col: 9, offset: 56527},
+																					pos:   position{line: 1755, col: 9, offset: 56606},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1755, col: 14, offset: 56532},
+																						pos: position{line: 1755, col: 14, offset: 56611},
 																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1755, col: 14, offset: 56532},
+																							pos: position{line: 1755, col: 14, offset: 56611},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1755, col: 14, offset: 56532},
+																								pos:        position{line: 1755, col: 14, offset: 56611},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38960,18 +39137,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 62, offset: 56580},
+																					pos:        position{line: 1755, col: 62, offset: 56659},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93782},
+																					pos: position{line: 2963, col: 11, offset: 93861},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93782},
+																						pos: position{line: 2963, col: 11, offset: 93861},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93782},
+																							pos:        position{line: 2963, col: 11, offset: 93861},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38989,31 +39166,31 @@ var g = &grammar{
 																		pos: position{line: 1548, col: 7, offset: 50022},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55005},
+																				pos: position{line: 1701, col: 5, offset: 55084},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55005},
+																					pos: position{line: 1701, col: 5, offset: 55084},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55006},
+																						pos: position{line: 1701, col: 6, offset: 55085},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55006},
+																								pos: position{line: 1701, col: 6, offset: 55085},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55156},
+																									pos: position{line: 1706, col: 5, offset: 55235},
 																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55156},
+																										pos: position{line: 1706, col: 5, offset: 55235},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55156},
+																												pos:   position{line: 1706, col: 5, offset: 55235},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55167},
+																													pos: position{line: 1706, col: 16, offset: 55246},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55167},
+																														pos: position{line: 1706, col: 16, offset: 55246},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55168},
+																															pos:        position{line: 1706, col: 17, offset: 55247},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -39022,7 +39199,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55225},
+																												pos: position{line: 1709, col: 5, offset: 55304},
 																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
@@ -39030,30 +39207,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55035},
+																								pos: position{line: 1701, col: 35, offset: 55114},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94119},
+																									pos: position{line: 2981, col: 8, offset: 94198},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93892},
+																											pos: position{line: 2968, col: 12, offset: 93971},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93893},
+																												pos: position{line: 2968, col: 13, offset: 93972},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93893},
+																														pos:        position{line: 2968, col: 13, offset: 93972},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93900},
+																														pos:        position{line: 2968, col: 20, offset: 93979},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93909},
+																														pos:        position{line: 2968, col: 29, offset: 93988},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39062,37 +39239,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94069},
+																											pos: position{line: 2978, col: 8, offset: 94148},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94070,
+																												line: 2978, col: 9, offset: 94149,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55040,
+																								line: 1701, col: 40, offset: 55119,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55156},
+																				pos: position{line: 1706, col: 5, offset: 55235},
 																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55156},
+																					pos: position{line: 1706, col: 5, offset: 55235},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55156},
+																							pos:   position{line: 1706, col: 5, offset: 55235},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55167},
+																								pos: position{line: 1706, col: 16, offset: 55246},
 																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55167},
+																									pos: position{line: 1706, col: 16, offset: 55246},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55168},
+																										pos:        position{line: 1706, col: 17, offset: 55247},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39101,7 +39278,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55225},
+																							pos: position{line: 1709, col: 5, offset: 55304},
 																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
@@ -39111,10 +39288,10 @@ var g = &grammar{
 																				pos: position{line: 1548, col: 59, offset: 50074},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93721},
+																						pos: position{line: 2959, col: 10, offset: 93800},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93721},
+																							pos:        position{line: 2959, col: 10, offset: 93800},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39122,25 +39299,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93892},
+																						pos: position{line: 2968, col: 12, offset: 93971},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93893},
+																							pos: position{line: 2968, col: 13, offset: 93972},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93893},
+																									pos:        position{line: 2968, col: 13, offset: 93972},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93900},
+																									pos:        position{line: 2968, col: 20, offset: 93979},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93909},
+																									pos:        position{line: 2968, col: 29, offset: 93988},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39149,9 +39326,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94069},
+																						pos: position{line: 2978, col: 8, offset: 94148},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94070,
+																							line: 2978, col: 9, offset: 94149,
 																						},
 																					},
 																				},
@@ -39173,7 +39350,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2813, col: 13, offset: 89669},
+																								pos:        position{line: 2813, col: 13, offset: 89748},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39223,10 +39400,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39235,28 +39412,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39265,9 +39442,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39312,10 +39489,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39324,28 +39501,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39354,9 +39531,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39397,10 +39574,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39409,28 +39586,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39439,9 +39616,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39486,10 +39663,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39498,28 +39675,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39528,9 +39705,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39575,10 +39752,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39587,28 +39764,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39617,9 +39794,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39664,10 +39841,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39676,28 +39853,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39706,9 +39883,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39753,10 +39930,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39765,28 +39942,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39795,9 +39972,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39842,10 +40019,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39854,28 +40031,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39884,9 +40061,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -39931,10 +40108,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93721},
+																														pos: position{line: 2959, col: 10, offset: 93800},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93721},
+																															pos:        position{line: 2959, col: 10, offset: 93800},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39943,28 +40120,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94119},
+																													pos: position{line: 2981, col: 8, offset: 94198},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93892},
+																															pos: position{line: 2968, col: 12, offset: 93971},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93893},
+																																pos: position{line: 2968, col: 13, offset: 93972},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93893},
+																																		pos:        position{line: 2968, col: 13, offset: 93972},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93900},
+																																		pos:        position{line: 2968, col: 20, offset: 93979},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93909},
+																																		pos:        position{line: 2968, col: 29, offset: 93988},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39973,9 +40150,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94069},
+																															pos: position{line: 2978, col: 8, offset: 94148},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94070,
+																																line: 2978, col: 9, offset: 94149,
 																															},
 																														},
 																													},
@@ -40012,10 +40189,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93721},
+																								pos: position{line: 2959, col: 10, offset: 93800},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93721},
+																									pos:        position{line: 2959, col: 10, offset: 93800},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40024,28 +40201,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94119},
+																							pos: position{line: 2981, col: 8, offset: 94198},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93892},
+																									pos: position{line: 2968, col: 12, offset: 93971},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93893},
+																										pos: position{line: 2968, col: 13, offset: 93972},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93893},
+																												pos:        position{line: 2968, col: 13, offset: 93972},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93900},
+																												pos:        position{line: 2968, col: 20, offset: 93979},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93909},
+																												pos:        position{line: 2968, col: 29, offset: 93988},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40054,9 +40231,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94069},
+																									pos: position{line: 2978, col: 8, offset: 94148},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94070,
+																										line: 2978, col: 9, offset: 94149,
 																									},
 																								},
 																							},
@@ -40065,21 +40242,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2661, col: 19, offset: 85121},
+																				pos: position{line: 2661, col: 19, offset: 85200},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2661, col: 19, offset: 85121},
+																						pos:        position{line: 2661, col: 19, offset: 85200},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2661, col: 26, offset: 85128},
+																						pos: position{line: 2661, col: 26, offset: 85207},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40088,28 +40265,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94119},
+																						pos: position{line: 2981, col: 8, offset: 94198},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93892},
+																								pos: position{line: 2968, col: 12, offset: 93971},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93893},
+																									pos: position{line: 2968, col: 13, offset: 93972},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93893},
+																											pos:        position{line: 2968, col: 13, offset: 93972},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93900},
+																											pos:        position{line: 2968, col: 20, offset: 93979},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93909},
+																											pos:        position{line: 2968, col: 29, offset: 93988},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40118,9 +40295,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94069},
+																								pos: position{line: 2978, col: 8, offset: 94148},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94070,
+																									line: 2978, col: 9, offset: 94149,
 																								},
 																							},
 																						},
@@ -40134,12 +40311,12 @@ var g = &grammar{
 																	pos:   position{line: 1550, col: 5, offset: 50152},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91475},
+																		pos: position{line: 2882, col: 14, offset: 91554},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91475},
+																			pos: position{line: 2882, col: 14, offset: 91554},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91475},
+																				pos:        position{line: 2882, col: 14, offset: 91554},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40149,28 +40326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40179,9 +40356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -40202,33 +40379,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1739, col: 1, offset: 56017},
+			pos:  position{line: 1739, col: 1, offset: 56096},
 			expr: &actionExpr{
-				pos: position{line: 1741, col: 5, offset: 56095},
+				pos: position{line: 1741, col: 5, offset: 56174},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1741, col: 5, offset: 56095},
+					pos: position{line: 1741, col: 5, offset: 56174},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1741, col: 5, offset: 56095},
+							pos: position{line: 1741, col: 5, offset: 56174},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 5, offset: 56162},
+							pos:        position{line: 1744, col: 5, offset: 56241},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1744, col: 9, offset: 56166},
+							pos:   position{line: 1744, col: 9, offset: 56245},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1744, col: 14, offset: 56171},
+								pos: position{line: 1744, col: 14, offset: 56250},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1744, col: 14, offset: 56171},
+									pos: position{line: 1744, col: 14, offset: 56250},
 									expr: &charClassMatcher{
-										pos:        position{line: 1744, col: 14, offset: 56171},
+										pos:        position{line: 1744, col: 14, offset: 56250},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40238,18 +40415,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 62, offset: 56219},
+							pos:        position{line: 1744, col: 62, offset: 56298},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1744, col: 66, offset: 56223},
+							pos: position{line: 1744, col: 66, offset: 56302},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93721},
+								pos: position{line: 2959, col: 10, offset: 93800},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93721},
+									pos:        position{line: 2959, col: 10, offset: 93800},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40258,30 +40435,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1744, col: 73, offset: 56230},
+							pos: position{line: 1744, col: 73, offset: 56309},
 							expr: &choiceExpr{
-								pos: position{line: 1744, col: 75, offset: 56232},
+								pos: position{line: 1744, col: 75, offset: 56311},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93892},
+										pos: position{line: 2968, col: 12, offset: 93971},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93893},
+											pos: position{line: 2968, col: 13, offset: 93972},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93893},
+													pos:        position{line: 2968, col: 13, offset: 93972},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93900},
+													pos:        position{line: 2968, col: 20, offset: 93979},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93909},
+													pos:        position{line: 2968, col: 29, offset: 93988},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40290,13 +40467,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94069},
+										pos: position{line: 2978, col: 8, offset: 94148},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94070,
+											line: 2978, col: 9, offset: 94149,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1744, col: 81, offset: 56238},
+										pos:  position{line: 1744, col: 81, offset: 56317},
 										name: "Callout",
 									},
 								},
@@ -40308,44 +40485,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1783, col: 1, offset: 57455},
+			pos:  position{line: 1783, col: 1, offset: 57534},
 			expr: &actionExpr{
-				pos: position{line: 1785, col: 5, offset: 57529},
+				pos: position{line: 1785, col: 5, offset: 57608},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1785, col: 5, offset: 57529},
+					pos: position{line: 1785, col: 5, offset: 57608},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1785, col: 5, offset: 57529},
+							pos: position{line: 1785, col: 5, offset: 57608},
 							expr: &seqExpr{
-								pos: position{line: 1785, col: 7, offset: 57531},
+								pos: position{line: 1785, col: 7, offset: 57610},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2813, col: 13, offset: 89669},
+										pos:        position{line: 2813, col: 13, offset: 89748},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1785, col: 16, offset: 57540},
+										pos: position{line: 1785, col: 16, offset: 57619},
 										expr: &seqExpr{
-											pos: position{line: 1785, col: 18, offset: 57542},
+											pos: position{line: 1785, col: 18, offset: 57621},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1785, col: 19, offset: 57543},
+													pos:        position{line: 1785, col: 19, offset: 57622},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93782},
+													pos: position{line: 2963, col: 11, offset: 93861},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93782},
+														pos: position{line: 2963, col: 11, offset: 93861},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93782},
+															pos:        position{line: 2963, col: 11, offset: 93861},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40360,45 +40537,45 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57683},
+							pos:   position{line: 1786, col: 5, offset: 57762},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57689},
+								pos: position{line: 1786, col: 11, offset: 57768},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56908},
+									pos: position{line: 1764, col: 5, offset: 56987},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56908},
+										pos: position{line: 1764, col: 5, offset: 56987},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56908},
+												pos: position{line: 1764, col: 5, offset: 56987},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 56971},
+												pos:   position{line: 1767, col: 5, offset: 57050},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 56978},
+													pos: position{line: 1767, col: 12, offset: 57057},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 56978},
+															pos: position{line: 1767, col: 12, offset: 57057},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &seqExpr{
-																pos: position{line: 1767, col: 12, offset: 56978},
+																pos: position{line: 1767, col: 12, offset: 57057},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1767, col: 12, offset: 56978},
+																		pos:        position{line: 1767, col: 12, offset: 57057},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40410,24 +40587,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57040},
+															pos: position{line: 1769, col: 13, offset: 57119},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &seqExpr{
-																pos: position{line: 1769, col: 13, offset: 57040},
+																pos: position{line: 1769, col: 13, offset: 57119},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1769, col: 13, offset: 57040},
+																		pos:        position{line: 1769, col: 13, offset: 57119},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40439,24 +40616,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57104},
+															pos: position{line: 1771, col: 13, offset: 57183},
 															run: (*parser).callonShortcutParagraph31,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 13, offset: 57104},
+																pos: position{line: 1771, col: 13, offset: 57183},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 13, offset: 57104},
+																		pos:        position{line: 1771, col: 13, offset: 57183},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40468,24 +40645,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57178},
+															pos: position{line: 1773, col: 13, offset: 57257},
 															run: (*parser).callonShortcutParagraph37,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57178},
+																pos: position{line: 1773, col: 13, offset: 57257},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57178},
+																		pos:        position{line: 1773, col: 13, offset: 57257},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40497,24 +40674,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57248},
+															pos: position{line: 1775, col: 13, offset: 57327},
 															run: (*parser).callonShortcutParagraph43,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57248},
+																pos: position{line: 1775, col: 13, offset: 57327},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57248},
+																		pos:        position{line: 1775, col: 13, offset: 57327},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40526,17 +40703,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57318},
+															pos: position{line: 1777, col: 13, offset: 57397},
 															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57318},
+																pos: position{line: 1777, col: 13, offset: 57397},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40550,17 +40727,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57398},
+												pos: position{line: 1779, col: 12, offset: 57477},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57400},
+													pos: position{line: 1779, col: 14, offset: 57479},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57400},
+															pos: position{line: 1779, col: 14, offset: 57479},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40569,28 +40746,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94119},
+															pos: position{line: 2981, col: 8, offset: 94198},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93892},
+																	pos: position{line: 2968, col: 12, offset: 93971},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93893},
+																		pos: position{line: 2968, col: 13, offset: 93972},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93893},
+																				pos:        position{line: 2968, col: 13, offset: 93972},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93900},
+																				pos:        position{line: 2968, col: 20, offset: 93979},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93909},
+																				pos:        position{line: 2968, col: 29, offset: 93988},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40599,9 +40776,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -40615,24 +40792,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57711},
+							pos:   position{line: 1787, col: 5, offset: 57790},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58922},
+								pos: position{line: 1824, col: 5, offset: 59001},
 								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58922},
+									pos: position{line: 1824, col: 5, offset: 59001},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58922},
+											pos:   position{line: 1824, col: 5, offset: 59001},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91475},
+												pos: position{line: 2882, col: 14, offset: 91554},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91475},
+													pos: position{line: 2882, col: 14, offset: 91554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91475},
+														pos:        position{line: 2882, col: 14, offset: 91554},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40642,32 +40819,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58946},
+											pos: position{line: 1825, col: 5, offset: 59025},
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94119},
+											pos: position{line: 2981, col: 8, offset: 94198},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93892},
+													pos: position{line: 2968, col: 12, offset: 93971},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93893},
+														pos: position{line: 2968, col: 13, offset: 93972},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93893},
+																pos:        position{line: 2968, col: 13, offset: 93972},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93900},
+																pos:        position{line: 2968, col: 20, offset: 93979},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93909},
+																pos:        position{line: 2968, col: 29, offset: 93988},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40676,9 +40853,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -40688,28 +40865,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1788, col: 5, offset: 57745},
+							pos: position{line: 1788, col: 5, offset: 57824},
 							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1795, col: 5, offset: 58075},
+							pos:   position{line: 1795, col: 5, offset: 58154},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1795, col: 16, offset: 58086},
+								pos: position{line: 1795, col: 16, offset: 58165},
 								expr: &actionExpr{
-									pos: position{line: 1796, col: 9, offset: 58096},
+									pos: position{line: 1796, col: 9, offset: 58175},
 									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1796, col: 9, offset: 58096},
+										pos: position{line: 1796, col: 9, offset: 58175},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94055},
+												pos: position{line: 2976, col: 11, offset: 94134},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94057,
+													line: 2976, col: 13, offset: 94136,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58112},
+												pos: position{line: 1797, col: 9, offset: 58191},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph91,
@@ -40717,18 +40894,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
+																pos: position{line: 2976, col: 11, offset: 94134},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
+																	line: 2976, col: 13, offset: 94136,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40737,28 +40914,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40767,9 +40944,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -40779,16 +40956,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58131},
+												pos: position{line: 1798, col: 9, offset: 58210},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1798, col: 10, offset: 58132},
+													pos:  position{line: 1798, col: 10, offset: 58211},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1799, col: 9, offset: 58156},
+												pos: position{line: 1799, col: 9, offset: 58235},
 												expr: &choiceExpr{
-													pos: position{line: 1799, col: 11, offset: 58158},
+													pos: position{line: 1799, col: 11, offset: 58237},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40799,7 +40976,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89669},
+																			pos:        position{line: 2813, col: 13, offset: 89748},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -40849,10 +41026,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40861,28 +41038,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40891,9 +41068,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -40938,10 +41115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -40950,28 +41127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -40980,9 +41157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41023,10 +41200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41035,28 +41212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41065,9 +41242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41112,10 +41289,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41124,28 +41301,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41154,9 +41331,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41201,10 +41378,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41213,28 +41390,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41243,9 +41420,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41290,10 +41467,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41302,28 +41479,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41332,9 +41509,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41379,10 +41556,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41391,28 +41568,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41421,9 +41598,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41468,10 +41645,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41480,28 +41657,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41510,9 +41687,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41557,10 +41734,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41569,28 +41746,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41599,9 +41776,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -41638,10 +41815,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41650,28 +41827,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41680,9 +41857,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -41691,21 +41868,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85121},
+															pos: position{line: 2661, col: 19, offset: 85200},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85121},
+																	pos:        position{line: 2661, col: 19, offset: 85200},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85128},
+																	pos: position{line: 2661, col: 26, offset: 85207},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41714,28 +41891,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41744,9 +41921,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -41757,23 +41934,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1800, col: 9, offset: 58220},
+												pos: position{line: 1800, col: 9, offset: 58299},
 												expr: &seqExpr{
-													pos: position{line: 1574, col: 27, offset: 50805},
+													pos: position{line: 1574, col: 27, offset: 50884},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1574, col: 27, offset: 50805},
+															pos:        position{line: 1574, col: 27, offset: 50884},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1574, col: 31, offset: 50809},
+															pos: position{line: 1574, col: 31, offset: 50888},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41782,25 +41959,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41812,42 +41989,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1801, col: 9, offset: 58252},
+												pos:   position{line: 1801, col: 9, offset: 58331},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1801, col: 15, offset: 58258},
+													pos: position{line: 1801, col: 15, offset: 58337},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81364},
+															pos: position{line: 2526, col: 22, offset: 81443},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81364},
+																pos: position{line: 2526, col: 22, offset: 81443},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81585},
+																		pos:        position{line: 2531, col: 31, offset: 81664},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81590},
+																		pos: position{line: 2531, col: 36, offset: 81669},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81591},
+																			pos:        position{line: 2531, col: 37, offset: 81670},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81391},
+																		pos:   position{line: 2526, col: 49, offset: 81470},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91408},
+																			pos: position{line: 2878, col: 13, offset: 91487},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91408},
+																				pos: position{line: 2878, col: 13, offset: 91487},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91408},
+																					pos:        position{line: 2878, col: 13, offset: 91487},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41857,28 +42034,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41887,9 +42064,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -41898,21 +42075,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58922},
+															pos: position{line: 1824, col: 5, offset: 59001},
 															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58922},
+																pos: position{line: 1824, col: 5, offset: 59001},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58922},
+																		pos:   position{line: 1824, col: 5, offset: 59001},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91475},
+																			pos: position{line: 2882, col: 14, offset: 91554},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91475},
+																				pos: position{line: 2882, col: 14, offset: 91554},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91475},
+																					pos:        position{line: 2882, col: 14, offset: 91554},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41922,32 +42099,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58946},
+																		pos: position{line: 1825, col: 5, offset: 59025},
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41956,9 +42133,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -41980,53 +42157,53 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1808, col: 1, offset: 58462},
+			pos:  position{line: 1808, col: 1, offset: 58541},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58480},
+				pos: position{line: 1809, col: 5, offset: 58559},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58480},
+					pos: position{line: 1809, col: 5, offset: 58559},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58480},
+							pos:   position{line: 1809, col: 5, offset: 58559},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 11, offset: 58486},
+								pos: position{line: 1809, col: 11, offset: 58565},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56908},
+									pos: position{line: 1764, col: 5, offset: 56987},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56908},
+										pos: position{line: 1764, col: 5, offset: 56987},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56908},
+												pos: position{line: 1764, col: 5, offset: 56987},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 56971},
+												pos:   position{line: 1767, col: 5, offset: 57050},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 56978},
+													pos: position{line: 1767, col: 12, offset: 57057},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 56978},
+															pos: position{line: 1767, col: 12, offset: 57057},
 															run: (*parser).callonParagraph10,
 															expr: &seqExpr{
-																pos: position{line: 1767, col: 12, offset: 56978},
+																pos: position{line: 1767, col: 12, offset: 57057},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1767, col: 12, offset: 56978},
+																		pos:        position{line: 1767, col: 12, offset: 57057},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42038,24 +42215,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57040},
+															pos: position{line: 1769, col: 13, offset: 57119},
 															run: (*parser).callonParagraph16,
 															expr: &seqExpr{
-																pos: position{line: 1769, col: 13, offset: 57040},
+																pos: position{line: 1769, col: 13, offset: 57119},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1769, col: 13, offset: 57040},
+																		pos:        position{line: 1769, col: 13, offset: 57119},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42067,24 +42244,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57104},
+															pos: position{line: 1771, col: 13, offset: 57183},
 															run: (*parser).callonParagraph22,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 13, offset: 57104},
+																pos: position{line: 1771, col: 13, offset: 57183},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 13, offset: 57104},
+																		pos:        position{line: 1771, col: 13, offset: 57183},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42096,24 +42273,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57178},
+															pos: position{line: 1773, col: 13, offset: 57257},
 															run: (*parser).callonParagraph28,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57178},
+																pos: position{line: 1773, col: 13, offset: 57257},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57178},
+																		pos:        position{line: 1773, col: 13, offset: 57257},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42125,24 +42302,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57248},
+															pos: position{line: 1775, col: 13, offset: 57327},
 															run: (*parser).callonParagraph34,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57248},
+																pos: position{line: 1775, col: 13, offset: 57327},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57248},
+																		pos:        position{line: 1775, col: 13, offset: 57327},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93782},
+																			pos: position{line: 2963, col: 11, offset: 93861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93782},
+																				pos:        position{line: 2963, col: 11, offset: 93861},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42154,17 +42331,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57318},
+															pos: position{line: 1777, col: 13, offset: 57397},
 															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57318},
+																pos: position{line: 1777, col: 13, offset: 57397},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93782},
+																	pos: position{line: 2963, col: 11, offset: 93861},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93782},
+																		pos: position{line: 2963, col: 11, offset: 93861},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93782},
+																			pos:        position{line: 2963, col: 11, offset: 93861},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42178,17 +42355,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57398},
+												pos: position{line: 1779, col: 12, offset: 57477},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57400},
+													pos: position{line: 1779, col: 14, offset: 57479},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57400},
+															pos: position{line: 1779, col: 14, offset: 57479},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42197,28 +42374,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94119},
+															pos: position{line: 2981, col: 8, offset: 94198},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93892},
+																	pos: position{line: 2968, col: 12, offset: 93971},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93893},
+																		pos: position{line: 2968, col: 13, offset: 93972},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93893},
+																				pos:        position{line: 2968, col: 13, offset: 93972},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93900},
+																				pos:        position{line: 2968, col: 20, offset: 93979},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93909},
+																				pos:        position{line: 2968, col: 29, offset: 93988},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42227,9 +42404,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -42243,24 +42420,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58509},
+							pos:   position{line: 1810, col: 5, offset: 58588},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 58922},
+								pos: position{line: 1824, col: 5, offset: 59001},
 								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 58922},
+									pos: position{line: 1824, col: 5, offset: 59001},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 58922},
+											pos:   position{line: 1824, col: 5, offset: 59001},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91475},
+												pos: position{line: 2882, col: 14, offset: 91554},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91475},
+													pos: position{line: 2882, col: 14, offset: 91554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91475},
+														pos:        position{line: 2882, col: 14, offset: 91554},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42270,32 +42447,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 58946},
+											pos: position{line: 1825, col: 5, offset: 59025},
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94119},
+											pos: position{line: 2981, col: 8, offset: 94198},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93892},
+													pos: position{line: 2968, col: 12, offset: 93971},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93893},
+														pos: position{line: 2968, col: 13, offset: 93972},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93893},
+																pos:        position{line: 2968, col: 13, offset: 93972},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93900},
+																pos:        position{line: 2968, col: 20, offset: 93979},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93909},
+																pos:        position{line: 2968, col: 29, offset: 93988},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42304,9 +42481,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94069},
+													pos: position{line: 2978, col: 8, offset: 94148},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94070,
+														line: 2978, col: 9, offset: 94149,
 													},
 												},
 											},
@@ -42316,24 +42493,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58543},
+							pos:   position{line: 1811, col: 5, offset: 58622},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1811, col: 16, offset: 58554},
+								pos: position{line: 1811, col: 16, offset: 58633},
 								expr: &actionExpr{
-									pos: position{line: 1812, col: 9, offset: 58564},
+									pos: position{line: 1812, col: 9, offset: 58643},
 									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1812, col: 9, offset: 58564},
+										pos: position{line: 1812, col: 9, offset: 58643},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94055},
+												pos: position{line: 2976, col: 11, offset: 94134},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94057,
+													line: 2976, col: 13, offset: 94136,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58579},
+												pos: position{line: 1813, col: 9, offset: 58658},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph81,
@@ -42341,18 +42518,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94055},
+																pos: position{line: 2976, col: 11, offset: 94134},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94057,
+																	line: 2976, col: 13, offset: 94136,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42361,28 +42538,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94119},
+																pos: position{line: 2981, col: 8, offset: 94198},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93892},
+																		pos: position{line: 2968, col: 12, offset: 93971},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93893},
+																			pos: position{line: 2968, col: 13, offset: 93972},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93893},
+																					pos:        position{line: 2968, col: 13, offset: 93972},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93900},
+																					pos:        position{line: 2968, col: 20, offset: 93979},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93909},
+																					pos:        position{line: 2968, col: 29, offset: 93988},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42391,9 +42568,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94069},
+																		pos: position{line: 2978, col: 8, offset: 94148},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94070,
+																			line: 2978, col: 9, offset: 94149,
 																		},
 																	},
 																},
@@ -42403,16 +42580,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58598},
+												pos: position{line: 1814, col: 9, offset: 58677},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1814, col: 10, offset: 58599},
+													pos:  position{line: 1814, col: 10, offset: 58678},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1815, col: 9, offset: 58623},
+												pos: position{line: 1815, col: 9, offset: 58702},
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 11, offset: 58625},
+													pos: position{line: 1815, col: 11, offset: 58704},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42423,7 +42600,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89669},
+																			pos:        position{line: 2813, col: 13, offset: 89748},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42473,10 +42650,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42485,28 +42662,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42515,9 +42692,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -42562,10 +42739,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42574,28 +42751,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42604,9 +42781,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -42647,10 +42824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42659,28 +42836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42689,9 +42866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -42736,10 +42913,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42748,28 +42925,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42778,9 +42955,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -42825,10 +43002,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42837,28 +43014,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42867,9 +43044,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -42914,10 +43091,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42926,28 +43103,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42956,9 +43133,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -43003,10 +43180,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43015,28 +43192,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43045,9 +43222,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -43092,10 +43269,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43104,28 +43281,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43134,9 +43311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -43181,10 +43358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93721},
+																									pos: position{line: 2959, col: 10, offset: 93800},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93721},
+																										pos:        position{line: 2959, col: 10, offset: 93800},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43193,28 +43370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94119},
+																								pos: position{line: 2981, col: 8, offset: 94198},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93892},
+																										pos: position{line: 2968, col: 12, offset: 93971},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93893},
+																											pos: position{line: 2968, col: 13, offset: 93972},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93893},
+																													pos:        position{line: 2968, col: 13, offset: 93972},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93900},
+																													pos:        position{line: 2968, col: 20, offset: 93979},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93909},
+																													pos:        position{line: 2968, col: 29, offset: 93988},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43223,9 +43400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94069},
+																										pos: position{line: 2978, col: 8, offset: 94148},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94070,
+																											line: 2978, col: 9, offset: 94149,
 																										},
 																									},
 																								},
@@ -43262,10 +43439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43274,28 +43451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43304,9 +43481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -43315,21 +43492,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85121},
+															pos: position{line: 2661, col: 19, offset: 85200},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85121},
+																	pos:        position{line: 2661, col: 19, offset: 85200},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85128},
+																	pos: position{line: 2661, col: 26, offset: 85207},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43338,28 +43515,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43368,9 +43545,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -43381,42 +43558,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1816, col: 9, offset: 58687},
+												pos:   position{line: 1816, col: 9, offset: 58766},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1816, col: 15, offset: 58693},
+													pos: position{line: 1816, col: 15, offset: 58772},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81364},
+															pos: position{line: 2526, col: 22, offset: 81443},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81364},
+																pos: position{line: 2526, col: 22, offset: 81443},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81585},
+																		pos:        position{line: 2531, col: 31, offset: 81664},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81590},
+																		pos: position{line: 2531, col: 36, offset: 81669},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81591},
+																			pos:        position{line: 2531, col: 37, offset: 81670},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81391},
+																		pos:   position{line: 2526, col: 49, offset: 81470},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91408},
+																			pos: position{line: 2878, col: 13, offset: 91487},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91408},
+																				pos: position{line: 2878, col: 13, offset: 91487},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91408},
+																					pos:        position{line: 2878, col: 13, offset: 91487},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43426,28 +43603,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43456,9 +43633,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -43467,21 +43644,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 58922},
+															pos: position{line: 1824, col: 5, offset: 59001},
 															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 58922},
+																pos: position{line: 1824, col: 5, offset: 59001},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 58922},
+																		pos:   position{line: 1824, col: 5, offset: 59001},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91475},
+																			pos: position{line: 2882, col: 14, offset: 91554},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91475},
+																				pos: position{line: 2882, col: 14, offset: 91554},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91475},
+																					pos:        position{line: 2882, col: 14, offset: 91554},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43491,32 +43668,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 58946},
+																		pos: position{line: 1825, col: 5, offset: 59025},
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94119},
+																		pos: position{line: 2981, col: 8, offset: 94198},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43525,9 +43702,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94069},
+																				pos: position{line: 2978, col: 8, offset: 94148},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94070,
+																					line: 2978, col: 9, offset: 94149,
 																				},
 																			},
 																		},
@@ -43549,16 +43726,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59429},
+			pos:  position{line: 1835, col: 1, offset: 59508},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 15, offset: 59443},
+				pos: position{line: 1835, col: 15, offset: 59522},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 15, offset: 59443},
+						pos:  position{line: 1835, col: 15, offset: 59522},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 35, offset: 59463},
+						pos:  position{line: 1835, col: 35, offset: 59542},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43566,65 +43743,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59484},
+			pos:  position{line: 1837, col: 1, offset: 59563},
 			expr: &actionExpr{
-				pos: position{line: 1838, col: 5, offset: 59509},
+				pos: position{line: 1838, col: 5, offset: 59588},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1838, col: 5, offset: 59509},
+					pos: position{line: 1838, col: 5, offset: 59588},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1838, col: 5, offset: 59509},
+							pos:   position{line: 1838, col: 5, offset: 59588},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1838, col: 16, offset: 59520},
+								pos: position{line: 1838, col: 16, offset: 59599},
 								expr: &actionExpr{
-									pos: position{line: 1838, col: 17, offset: 59521},
+									pos: position{line: 1838, col: 17, offset: 59600},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1838, col: 17, offset: 59521},
+										pos:  position{line: 1838, col: 17, offset: 59600},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1841, col: 5, offset: 59589},
+							pos: position{line: 1841, col: 5, offset: 59668},
 							expr: &litMatcher{
-								pos:        position{line: 1841, col: 7, offset: 59591},
+								pos:        position{line: 1841, col: 7, offset: 59670},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59600},
+							pos:   position{line: 1842, col: 5, offset: 59679},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1843, col: 9, offset: 59618},
+								pos: position{line: 1843, col: 9, offset: 59697},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1843, col: 9, offset: 59618},
+										pos:  position{line: 1843, col: 9, offset: 59697},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1844, col: 11, offset: 59645},
+										pos:  position{line: 1844, col: 11, offset: 59724},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1845, col: 11, offset: 59673},
+										pos:  position{line: 1845, col: 11, offset: 59752},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1846, col: 11, offset: 59704},
+										pos:  position{line: 1846, col: 11, offset: 59783},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 11, offset: 59732},
+										pos:  position{line: 1847, col: 11, offset: 59811},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59763},
+										pos:  position{line: 1848, col: 11, offset: 59842},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43636,36 +43813,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1853, col: 1, offset: 59883},
+			pos:  position{line: 1853, col: 1, offset: 59962},
 			expr: &actionExpr{
-				pos: position{line: 1854, col: 5, offset: 59925},
+				pos: position{line: 1854, col: 5, offset: 60004},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1854, col: 5, offset: 59925},
+					pos: position{line: 1854, col: 5, offset: 60004},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1854, col: 5, offset: 59925},
+							pos:   position{line: 1854, col: 5, offset: 60004},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1854, col: 16, offset: 59936},
+								pos: position{line: 1854, col: 16, offset: 60015},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1854, col: 17, offset: 59937},
+									pos:  position{line: 1854, col: 17, offset: 60016},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1855, col: 5, offset: 59962},
+							pos:   position{line: 1855, col: 5, offset: 60041},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1855, col: 14, offset: 59971},
+								pos: position{line: 1855, col: 14, offset: 60050},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 14, offset: 59971},
+										pos:  position{line: 1855, col: 14, offset: 60050},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 33, offset: 59990},
+										pos:  position{line: 1855, col: 33, offset: 60069},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43677,32 +43854,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60221},
+			pos:  position{line: 1863, col: 1, offset: 60300},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60246},
+				pos: position{line: 1864, col: 5, offset: 60325},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60246},
+						pos:  position{line: 1864, col: 5, offset: 60325},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60273},
+						pos:  position{line: 1865, col: 7, offset: 60352},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60301},
+						pos:  position{line: 1866, col: 7, offset: 60380},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60333},
+						pos:  position{line: 1867, col: 7, offset: 60412},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60361},
+						pos:  position{line: 1868, col: 7, offset: 60440},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60382},
+						pos:  position{line: 1869, col: 7, offset: 60461},
 						name: "SuperscriptText",
 					},
 				},
@@ -43710,24 +43887,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1871, col: 1, offset: 60400},
+			pos:  position{line: 1871, col: 1, offset: 60479},
 			expr: &choiceExpr{
-				pos: position{line: 1872, col: 5, offset: 60425},
+				pos: position{line: 1872, col: 5, offset: 60504},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 5, offset: 60425},
+						pos:  position{line: 1872, col: 5, offset: 60504},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60451},
+						pos:  position{line: 1873, col: 7, offset: 60530},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60479},
+						pos:  position{line: 1874, col: 7, offset: 60558},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1875, col: 7, offset: 60510},
+						pos:  position{line: 1875, col: 7, offset: 60589},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43735,35 +43912,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1889, col: 1, offset: 60864},
+			pos:  position{line: 1889, col: 1, offset: 60943},
 			expr: &choiceExpr{
-				pos: position{line: 1890, col: 5, offset: 60890},
+				pos: position{line: 1890, col: 5, offset: 60969},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2822, col: 5, offset: 89816},
+						pos: position{line: 2822, col: 5, offset: 89895},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2822, col: 5, offset: 89816},
+							pos: position{line: 2822, col: 5, offset: 89895},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2822, col: 5, offset: 89816},
+									pos: position{line: 2822, col: 5, offset: 89895},
 									expr: &seqExpr{
-										pos: position{line: 2823, col: 9, offset: 89827},
+										pos: position{line: 2823, col: 9, offset: 89906},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2823, col: 9, offset: 89827},
+												pos: position{line: 2823, col: 9, offset: 89906},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2826, col: 9, offset: 89890},
+												pos:   position{line: 2826, col: 9, offset: 89969},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2798, col: 18, offset: 89202},
+													pos: position{line: 2798, col: 18, offset: 89281},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2798, col: 19, offset: 89203},
+														pos: position{line: 2798, col: 19, offset: 89282},
 														expr: &charClassMatcher{
-															pos:        position{line: 2798, col: 19, offset: 89203},
+															pos:        position{line: 2798, col: 19, offset: 89282},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43774,28 +43951,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2826, col: 30, offset: 89911},
+												pos:        position{line: 2826, col: 30, offset: 89990},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2827, col: 9, offset: 89998},
+												pos: position{line: 2827, col: 9, offset: 90077},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2831, col: 5, offset: 90110},
+									pos:   position{line: 2831, col: 5, offset: 90189},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 11, offset: 90116},
+										pos: position{line: 2831, col: 11, offset: 90195},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2831, col: 11, offset: 90116},
+											pos: position{line: 2831, col: 11, offset: 90195},
 											expr: &charClassMatcher{
-												pos:        position{line: 2831, col: 11, offset: 90116},
+												pos:        position{line: 2831, col: 11, offset: 90195},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43805,32 +43982,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2834, col: 5, offset: 90174},
+									pos: position{line: 2834, col: 5, offset: 90253},
 									expr: &seqExpr{
-										pos: position{line: 2835, col: 9, offset: 90185},
+										pos: position{line: 2835, col: 9, offset: 90264},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2835, col: 9, offset: 90185},
+												pos:        position{line: 2835, col: 9, offset: 90264},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2836, col: 9, offset: 90234},
+												pos: position{line: 2836, col: 9, offset: 90313},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2840, col: 5, offset: 90314},
+									pos: position{line: 2840, col: 5, offset: 90393},
 									expr: &seqExpr{
-										pos: position{line: 2841, col: 9, offset: 90325},
+										pos: position{line: 2841, col: 9, offset: 90404},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2841, col: 9, offset: 90325},
+												pos: position{line: 2841, col: 9, offset: 90404},
 												expr: &charClassMatcher{
-													pos:        position{line: 2841, col: 9, offset: 90325},
+													pos:        position{line: 2841, col: 9, offset: 90404},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43839,13 +44016,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2841, col: 23, offset: 90339},
+												pos:        position{line: 2841, col: 23, offset: 90418},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2841, col: 27, offset: 90343},
+												pos:        position{line: 2841, col: 27, offset: 90422},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43858,12 +44035,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2963, col: 11, offset: 93782},
+						pos: position{line: 2963, col: 11, offset: 93861},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2963, col: 11, offset: 93782},
+							pos: position{line: 2963, col: 11, offset: 93861},
 							expr: &charClassMatcher{
-								pos:        position{line: 2963, col: 11, offset: 93782},
+								pos:        position{line: 2963, col: 11, offset: 93861},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -43872,29 +44049,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 60953},
+						pos:  position{line: 1892, col: 7, offset: 61032},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 5, offset: 82081},
+						pos: position{line: 2544, col: 5, offset: 82160},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 5, offset: 82081},
+							pos: position{line: 2544, col: 5, offset: 82160},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2544, col: 5, offset: 82081},
+									pos: position{line: 2544, col: 5, offset: 82160},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 82152},
+									pos:        position{line: 2547, col: 5, offset: 82231},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2547, col: 10, offset: 82157},
+									pos: position{line: 2547, col: 10, offset: 82236},
 									expr: &charClassMatcher{
-										pos:        position{line: 2547, col: 11, offset: 82158},
+										pos:        position{line: 2547, col: 11, offset: 82237},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43905,29 +44082,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 5, offset: 82344},
+						pos: position{line: 2553, col: 5, offset: 82423},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2553, col: 5, offset: 82344},
+							pos: position{line: 2553, col: 5, offset: 82423},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2553, col: 5, offset: 82344},
+									pos: position{line: 2553, col: 5, offset: 82423},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2556, col: 5, offset: 82415},
+									pos: position{line: 2556, col: 5, offset: 82494},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2560, col: 5, offset: 82540},
+									pos:        position{line: 2560, col: 5, offset: 82619},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2560, col: 9, offset: 82544},
+									pos: position{line: 2560, col: 9, offset: 82623},
 									expr: &charClassMatcher{
-										pos:        position{line: 2560, col: 10, offset: 82545},
+										pos:        position{line: 2560, col: 10, offset: 82624},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -43938,27 +44115,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2849, col: 5, offset: 90536},
+						pos: position{line: 2849, col: 5, offset: 90615},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2850, col: 9, offset: 90546},
+							pos: position{line: 2850, col: 9, offset: 90625},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2850, col: 10, offset: 90547},
+									pos:        position{line: 2850, col: 10, offset: 90626},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2852, col: 13, offset: 90644},
+									pos: position{line: 2852, col: 13, offset: 90723},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2852, col: 13, offset: 90644},
+											pos: position{line: 2852, col: 13, offset: 90723},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2855, col: 13, offset: 90744},
+											pos:        position{line: 2855, col: 13, offset: 90823},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -43966,20 +44143,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2855, col: 19, offset: 90750},
+									pos:        position{line: 2855, col: 19, offset: 90829},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2858, col: 13, offset: 90788},
+									pos: position{line: 2858, col: 13, offset: 90867},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2858, col: 13, offset: 90788},
+											pos: position{line: 2858, col: 13, offset: 90867},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2861, col: 14, offset: 90881},
+											pos:        position{line: 2861, col: 14, offset: 90960},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -43988,18 +44165,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2863, col: 12, offset: 90925},
+									pos: position{line: 2863, col: 12, offset: 91004},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2863, col: 12, offset: 90925},
+											pos:        position{line: 2863, col: 12, offset: 91004},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2863, col: 16, offset: 90929},
+											pos: position{line: 2863, col: 16, offset: 91008},
 											expr: &litMatcher{
-												pos:        position{line: 2863, col: 17, offset: 90930},
+												pos:        position{line: 2863, col: 17, offset: 91009},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44357,31 +44534,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2972, col: 18, offset: 93992},
+						pos: position{line: 2972, col: 18, offset: 94071},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2972, col: 18, offset: 93992},
+							pos: position{line: 2972, col: 18, offset: 94071},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44390,27 +44567,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2972, col: 26, offset: 94000},
+									pos: position{line: 2972, col: 26, offset: 94079},
 									expr: &actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93892},
+										pos: position{line: 2968, col: 12, offset: 93971},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93893},
+											pos: position{line: 2968, col: 13, offset: 93972},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93893},
+													pos:        position{line: 2968, col: 13, offset: 93972},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93900},
+													pos:        position{line: 2968, col: 20, offset: 93979},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93909},
+													pos:        position{line: 2968, col: 29, offset: 93988},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44423,31 +44600,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1897, col: 7, offset: 61120},
+						pos:  position{line: 1897, col: 7, offset: 61199},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1898, col: 7, offset: 61167},
+						pos:  position{line: 1898, col: 7, offset: 61246},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2513, col: 5, offset: 80910},
+						pos: position{line: 2513, col: 5, offset: 80989},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 5, offset: 80910},
+							pos: position{line: 2513, col: 5, offset: 80989},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80910},
+									pos: position{line: 2513, col: 5, offset: 80989},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2516, col: 5, offset: 80986},
+									pos:   position{line: 2516, col: 5, offset: 81065},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2517, col: 9, offset: 81004},
+										pos: position{line: 2517, col: 9, offset: 81083},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2517, col: 10, offset: 81005},
+											pos:        position{line: 2517, col: 10, offset: 81084},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44498,10 +44675,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2871, col: 12, offset: 91190},
+						pos: position{line: 2871, col: 12, offset: 91269},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2871, col: 12, offset: 91190},
+							pos:        position{line: 2871, col: 12, offset: 91269},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44513,33 +44690,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1919, col: 1, offset: 61735},
+			pos:  position{line: 1919, col: 1, offset: 61814},
 			expr: &actionExpr{
-				pos: position{line: 1920, col: 5, offset: 61763},
+				pos: position{line: 1920, col: 5, offset: 61842},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1920, col: 5, offset: 61763},
+					pos: position{line: 1920, col: 5, offset: 61842},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1912, col: 38, offset: 61590},
+							pos: position{line: 1912, col: 38, offset: 61669},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1912, col: 38, offset: 61590},
+								pos:        position{line: 1912, col: 38, offset: 61669},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1921, col: 5, offset: 61802},
+							pos:   position{line: 1921, col: 5, offset: 61881},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1921, col: 15, offset: 61812},
+								pos:  position{line: 1921, col: 15, offset: 61891},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 36, offset: 61729},
+							pos:        position{line: 1917, col: 36, offset: 61808},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44550,44 +44727,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1926, col: 1, offset: 61972},
+			pos:  position{line: 1926, col: 1, offset: 62051},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1926, col: 32, offset: 62003},
+				pos: position{line: 1926, col: 32, offset: 62082},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1926, col: 32, offset: 62003},
+					pos:  position{line: 1926, col: 32, offset: 62082},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1928, col: 1, offset: 62034},
+			pos:  position{line: 1928, col: 1, offset: 62113},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 62069},
+				pos: position{line: 1929, col: 5, offset: 62148},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 62069},
+					pos: position{line: 1929, col: 5, offset: 62148},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1930, col: 5, offset: 62080},
+							pos: position{line: 1930, col: 5, offset: 62159},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 36, offset: 61729},
+								pos:        position{line: 1917, col: 36, offset: 61808},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 62117},
+							pos:   position{line: 1931, col: 5, offset: 62196},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1931, col: 14, offset: 62126},
+								pos:  position{line: 1931, col: 14, offset: 62205},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44597,29 +44774,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1956, col: 1, offset: 62806},
+			pos:  position{line: 1956, col: 1, offset: 62885},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62834},
+				pos: position{line: 1957, col: 5, offset: 62913},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62834},
+					pos: position{line: 1957, col: 5, offset: 62913},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1940, col: 5, offset: 62360},
+							pos:        position{line: 1940, col: 5, offset: 62439},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62369},
+							pos: position{line: 1941, col: 5, offset: 62448},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1945, col: 5, offset: 62487},
+							pos: position{line: 1945, col: 5, offset: 62566},
 							expr: &notExpr{
-								pos: position{line: 1945, col: 7, offset: 62489},
+								pos: position{line: 1945, col: 7, offset: 62568},
 								expr: &litMatcher{
-									pos:        position{line: 1945, col: 8, offset: 62490},
+									pos:        position{line: 1945, col: 8, offset: 62569},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44627,38 +44804,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1958, col: 5, offset: 62872},
+							pos:   position{line: 1958, col: 5, offset: 62951},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1958, col: 15, offset: 62882},
+								pos:  position{line: 1958, col: 15, offset: 62961},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1948, col: 5, offset: 62610},
+							pos:        position{line: 1948, col: 5, offset: 62689},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1949, col: 5, offset: 62619},
+							pos: position{line: 1949, col: 5, offset: 62698},
 							expr: &litMatcher{
-								pos:        position{line: 1949, col: 6, offset: 62620},
+								pos:        position{line: 1949, col: 6, offset: 62699},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62683},
+							pos: position{line: 1950, col: 5, offset: 62762},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1954, col: 5, offset: 62792},
+							pos: position{line: 1954, col: 5, offset: 62871},
 							expr: &notExpr{
-								pos: position{line: 1954, col: 7, offset: 62794},
+								pos: position{line: 1954, col: 7, offset: 62873},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89669},
+									pos:        position{line: 2813, col: 13, offset: 89748},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44672,17 +44849,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1963, col: 1, offset: 63042},
+			pos:  position{line: 1963, col: 1, offset: 63121},
 			expr: &actionExpr{
-				pos: position{line: 1964, col: 5, offset: 63079},
+				pos: position{line: 1964, col: 5, offset: 63158},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1964, col: 5, offset: 63079},
+					pos: position{line: 1964, col: 5, offset: 63158},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1964, col: 5, offset: 63079},
+							pos: position{line: 1964, col: 5, offset: 63158},
 							expr: &charClassMatcher{
-								pos:        position{line: 1964, col: 6, offset: 63080},
+								pos:        position{line: 1964, col: 6, offset: 63159},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44690,18 +44867,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1965, col: 5, offset: 63122},
+							pos:   position{line: 1965, col: 5, offset: 63201},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1965, col: 14, offset: 63131},
+								pos: position{line: 1965, col: 14, offset: 63210},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1965, col: 15, offset: 63132},
+									pos:  position{line: 1965, col: 15, offset: 63211},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1966, col: 5, offset: 63166},
+							pos: position{line: 1966, col: 5, offset: 63245},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44710,49 +44887,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1972, col: 1, offset: 63307},
+			pos:  position{line: 1972, col: 1, offset: 63386},
 			expr: &actionExpr{
-				pos: position{line: 1973, col: 5, offset: 63342},
+				pos: position{line: 1973, col: 5, offset: 63421},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1973, col: 5, offset: 63342},
+					pos: position{line: 1973, col: 5, offset: 63421},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1974, col: 5, offset: 63370},
+							pos: position{line: 1974, col: 5, offset: 63449},
 							expr: &seqExpr{
-								pos: position{line: 1948, col: 5, offset: 62610},
+								pos: position{line: 1948, col: 5, offset: 62689},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1948, col: 5, offset: 62610},
+										pos:        position{line: 1948, col: 5, offset: 62689},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1949, col: 5, offset: 62619},
+										pos: position{line: 1949, col: 5, offset: 62698},
 										expr: &litMatcher{
-											pos:        position{line: 1949, col: 6, offset: 62620},
+											pos:        position{line: 1949, col: 6, offset: 62699},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1950, col: 5, offset: 62683},
+										pos: position{line: 1950, col: 5, offset: 62762},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1954, col: 5, offset: 62792},
+										pos: position{line: 1954, col: 5, offset: 62871},
 										expr: &notExpr{
-											pos: position{line: 1954, col: 7, offset: 62794},
+											pos: position{line: 1954, col: 7, offset: 62873},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89669},
+												pos:        position{line: 2813, col: 13, offset: 89748},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44764,10 +44941,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63407},
+							pos:   position{line: 1975, col: 5, offset: 63486},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 14, offset: 63416},
+								pos:  position{line: 1975, col: 14, offset: 63495},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44777,35 +44954,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1980, col: 1, offset: 63504},
+			pos:  position{line: 1980, col: 1, offset: 63583},
 			expr: &choiceExpr{
-				pos: position{line: 1982, col: 5, offset: 63565},
+				pos: position{line: 1982, col: 5, offset: 63644},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1982, col: 5, offset: 63565},
+						pos: position{line: 1982, col: 5, offset: 63644},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 5, offset: 63565},
+							pos: position{line: 1982, col: 5, offset: 63644},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 5, offset: 63565},
+									pos:   position{line: 1982, col: 5, offset: 63644},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60810},
+										pos: position{line: 1885, col: 25, offset: 60889},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60810},
+											pos: position{line: 1885, col: 25, offset: 60889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60810},
+													pos:        position{line: 1885, col: 25, offset: 60889},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60815},
+													pos: position{line: 1885, col: 30, offset: 60894},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60815},
+														pos:        position{line: 1885, col: 30, offset: 60894},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44816,25 +44993,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1912, col: 38, offset: 61590},
+									pos: position{line: 1912, col: 38, offset: 61669},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1912, col: 38, offset: 61590},
+										pos:        position{line: 1912, col: 38, offset: 61669},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 74, offset: 63634},
+									pos:   position{line: 1982, col: 74, offset: 63713},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 84, offset: 63644},
+										pos:  position{line: 1982, col: 84, offset: 63723},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 113, offset: 63673},
+									pos:        position{line: 1982, col: 113, offset: 63752},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -44843,21 +45020,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1986, col: 7, offset: 63833},
+						pos: position{line: 1986, col: 7, offset: 63912},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 7, offset: 63833},
+							pos: position{line: 1986, col: 7, offset: 63912},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 7, offset: 63833},
+									pos:   position{line: 1986, col: 7, offset: 63912},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44866,21 +45043,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 42, offset: 63868},
+									pos:        position{line: 1986, col: 42, offset: 63947},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 47, offset: 63873},
+									pos:   position{line: 1986, col: 47, offset: 63952},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 57, offset: 63883},
+										pos:  position{line: 1986, col: 57, offset: 63962},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 86, offset: 63912},
+									pos:        position{line: 1986, col: 86, offset: 63991},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44889,21 +45066,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1991, col: 7, offset: 64110},
+						pos: position{line: 1991, col: 7, offset: 64189},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1991, col: 7, offset: 64110},
+							pos: position{line: 1991, col: 7, offset: 64189},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1991, col: 7, offset: 64110},
+									pos:   position{line: 1991, col: 7, offset: 64189},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -44912,21 +45089,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 42, offset: 64145},
+									pos:        position{line: 1991, col: 42, offset: 64224},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1991, col: 46, offset: 64149},
+									pos:   position{line: 1991, col: 46, offset: 64228},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1991, col: 56, offset: 64159},
+										pos:  position{line: 1991, col: 56, offset: 64238},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 85, offset: 64188},
+									pos:        position{line: 1991, col: 85, offset: 64267},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44939,33 +45116,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64762},
+			pos:  position{line: 2011, col: 1, offset: 64841},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64792},
+				pos: position{line: 2012, col: 5, offset: 64871},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64792},
+					pos: position{line: 2012, col: 5, offset: 64871},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2004, col: 40, offset: 64615},
+							pos: position{line: 2004, col: 40, offset: 64694},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 40, offset: 64615},
+								pos:        position{line: 2004, col: 40, offset: 64694},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64833},
+							pos:   position{line: 2013, col: 5, offset: 64912},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64843},
+								pos:  position{line: 2013, col: 15, offset: 64922},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 38, offset: 64756},
+							pos:        position{line: 2009, col: 38, offset: 64835},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -44976,44 +45153,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 65008},
+			pos:  position{line: 2018, col: 1, offset: 65087},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2018, col: 34, offset: 65041},
+				pos: position{line: 2018, col: 34, offset: 65120},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2018, col: 34, offset: 65041},
+					pos:  position{line: 2018, col: 34, offset: 65120},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65073},
+			pos:  position{line: 2020, col: 1, offset: 65152},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65110},
+				pos: position{line: 2021, col: 5, offset: 65189},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65110},
+					pos: position{line: 2021, col: 5, offset: 65189},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65121},
+							pos: position{line: 2022, col: 5, offset: 65200},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 38, offset: 64756},
+								pos:        position{line: 2009, col: 38, offset: 64835},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65160},
+							pos:   position{line: 2023, col: 5, offset: 65239},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65169},
+								pos:  position{line: 2023, col: 14, offset: 65248},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45023,29 +45200,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65853},
+			pos:  position{line: 2049, col: 1, offset: 65932},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65883},
+				pos: position{line: 2050, col: 5, offset: 65962},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65883},
+					pos: position{line: 2050, col: 5, offset: 65962},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65411},
+							pos:        position{line: 2032, col: 5, offset: 65490},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65420},
+							pos: position{line: 2033, col: 5, offset: 65499},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65540},
+							pos: position{line: 2037, col: 5, offset: 65619},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65542},
+								pos: position{line: 2037, col: 7, offset: 65621},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65543},
+									pos:        position{line: 2037, col: 8, offset: 65622},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45053,38 +45230,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 65923},
+							pos:   position{line: 2051, col: 5, offset: 66002},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 65933},
+								pos:  position{line: 2051, col: 15, offset: 66012},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65653},
+							pos:        position{line: 2041, col: 5, offset: 65732},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65662},
+							pos: position{line: 2042, col: 5, offset: 65741},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65663},
+								pos:        position{line: 2042, col: 6, offset: 65742},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65728},
+							pos: position{line: 2043, col: 5, offset: 65807},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 65839},
+							pos: position{line: 2047, col: 5, offset: 65918},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 65841},
+								pos: position{line: 2047, col: 7, offset: 65920},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89669},
+									pos:        position{line: 2813, col: 13, offset: 89748},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45098,17 +45275,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66100},
+			pos:  position{line: 2056, col: 1, offset: 66179},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66138},
+				pos: position{line: 2057, col: 5, offset: 66217},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66138},
+					pos: position{line: 2057, col: 5, offset: 66217},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66138},
+							pos: position{line: 2057, col: 5, offset: 66217},
 							expr: &charClassMatcher{
-								pos:        position{line: 2057, col: 6, offset: 66139},
+								pos:        position{line: 2057, col: 6, offset: 66218},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45116,18 +45293,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66181},
+							pos:   position{line: 2058, col: 5, offset: 66260},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66190},
+								pos: position{line: 2058, col: 14, offset: 66269},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66191},
+									pos:  position{line: 2058, col: 15, offset: 66270},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66226},
+							pos: position{line: 2059, col: 5, offset: 66305},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -45136,49 +45313,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66367},
+			pos:  position{line: 2065, col: 1, offset: 66446},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66404},
+				pos: position{line: 2066, col: 5, offset: 66483},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66404},
+					pos: position{line: 2066, col: 5, offset: 66483},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66415},
+							pos: position{line: 2067, col: 5, offset: 66494},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65653},
+								pos: position{line: 2041, col: 5, offset: 65732},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65653},
+										pos:        position{line: 2041, col: 5, offset: 65732},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65662},
+										pos: position{line: 2042, col: 5, offset: 65741},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65663},
+											pos:        position{line: 2042, col: 6, offset: 65742},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65728},
+										pos: position{line: 2043, col: 5, offset: 65807},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 65839},
+										pos: position{line: 2047, col: 5, offset: 65918},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 65841},
+											pos: position{line: 2047, col: 7, offset: 65920},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89669},
+												pos:        position{line: 2813, col: 13, offset: 89748},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45190,10 +45367,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66454},
+							pos:   position{line: 2068, col: 5, offset: 66533},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66463},
+								pos:  position{line: 2068, col: 14, offset: 66542},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45203,35 +45380,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66551},
+			pos:  position{line: 2073, col: 1, offset: 66630},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66616},
+				pos: position{line: 2075, col: 5, offset: 66695},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66616},
+						pos: position{line: 2075, col: 5, offset: 66695},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66616},
+							pos: position{line: 2075, col: 5, offset: 66695},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66616},
+									pos:   position{line: 2075, col: 5, offset: 66695},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60810},
+										pos: position{line: 1885, col: 25, offset: 60889},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60810},
+											pos: position{line: 1885, col: 25, offset: 60889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60810},
+													pos:        position{line: 1885, col: 25, offset: 60889},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60815},
+													pos: position{line: 1885, col: 30, offset: 60894},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60815},
+														pos:        position{line: 1885, col: 30, offset: 60894},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45242,25 +45419,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2004, col: 40, offset: 64615},
+									pos: position{line: 2004, col: 40, offset: 64694},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2004, col: 40, offset: 64615},
+										pos:        position{line: 2004, col: 40, offset: 64694},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 76, offset: 66687},
+									pos:   position{line: 2075, col: 76, offset: 66766},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 86, offset: 66697},
+										pos:  position{line: 2075, col: 86, offset: 66776},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 117, offset: 66728},
+									pos:        position{line: 2075, col: 117, offset: 66807},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -45269,21 +45446,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 66889},
+						pos: position{line: 2079, col: 7, offset: 66968},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 66889},
+							pos: position{line: 2079, col: 7, offset: 66968},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 66889},
+									pos:   position{line: 2079, col: 7, offset: 66968},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45292,21 +45469,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 66924},
+									pos:        position{line: 2079, col: 42, offset: 67003},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 66929},
+									pos:   position{line: 2079, col: 47, offset: 67008},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 66939},
+										pos:  position{line: 2079, col: 57, offset: 67018},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 66970},
+									pos:        position{line: 2079, col: 88, offset: 67049},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45315,21 +45492,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67207},
+						pos: position{line: 2084, col: 7, offset: 67286},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67207},
+							pos: position{line: 2084, col: 7, offset: 67286},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67207},
+									pos:   position{line: 2084, col: 7, offset: 67286},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45338,21 +45515,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67242},
+									pos:        position{line: 2084, col: 42, offset: 67321},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67246},
+									pos:   position{line: 2084, col: 46, offset: 67325},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67256},
+										pos:  position{line: 2084, col: 56, offset: 67335},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67287},
+									pos:        position{line: 2084, col: 87, offset: 67366},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45365,33 +45542,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 67945},
+			pos:  position{line: 2104, col: 1, offset: 68024},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 67978},
+				pos: position{line: 2105, col: 5, offset: 68057},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 67978},
+					pos: position{line: 2105, col: 5, offset: 68057},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2097, col: 43, offset: 67795},
+							pos: position{line: 2097, col: 43, offset: 67874},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2097, col: 43, offset: 67795},
+								pos:        position{line: 2097, col: 43, offset: 67874},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 68022},
+							pos:   position{line: 2106, col: 5, offset: 68101},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 68032},
+								pos:  position{line: 2106, col: 15, offset: 68111},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2102, col: 41, offset: 67939},
+							pos:        position{line: 2102, col: 41, offset: 68018},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45402,44 +45579,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68207},
+			pos:  position{line: 2111, col: 1, offset: 68286},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2111, col: 37, offset: 68243},
+				pos: position{line: 2111, col: 37, offset: 68322},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2111, col: 37, offset: 68243},
+					pos:  position{line: 2111, col: 37, offset: 68322},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2113, col: 1, offset: 68310},
+			pos:  position{line: 2113, col: 1, offset: 68389},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68350},
+				pos: position{line: 2114, col: 5, offset: 68429},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68350},
+					pos: position{line: 2114, col: 5, offset: 68429},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68361},
+							pos: position{line: 2115, col: 5, offset: 68440},
 							expr: &litMatcher{
-								pos:        position{line: 2102, col: 41, offset: 67939},
+								pos:        position{line: 2102, col: 41, offset: 68018},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68403},
+							pos:   position{line: 2116, col: 5, offset: 68482},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2116, col: 14, offset: 68412},
+								pos:  position{line: 2116, col: 14, offset: 68491},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45449,33 +45626,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2134, col: 1, offset: 68954},
+			pos:  position{line: 2134, col: 1, offset: 69033},
 			expr: &seqExpr{
-				pos: position{line: 2135, col: 5, offset: 68999},
+				pos: position{line: 2135, col: 5, offset: 69078},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2135, col: 5, offset: 68999},
+						pos: position{line: 2135, col: 5, offset: 69078},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2135, col: 6, offset: 69000},
+							pos:  position{line: 2135, col: 6, offset: 69079},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2136, col: 5, offset: 69019},
+						pos:        position{line: 2136, col: 5, offset: 69098},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2137, col: 5, offset: 69027},
+						pos: position{line: 2137, col: 5, offset: 69106},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2141, col: 5, offset: 69141},
+						pos: position{line: 2141, col: 5, offset: 69220},
 						expr: &notExpr{
-							pos: position{line: 2141, col: 7, offset: 69143},
+							pos: position{line: 2141, col: 7, offset: 69222},
 							expr: &charClassMatcher{
-								pos:        position{line: 2813, col: 13, offset: 89669},
+								pos:        position{line: 2813, col: 13, offset: 89748},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45488,29 +45665,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2144, col: 1, offset: 69160},
+			pos:  position{line: 2144, col: 1, offset: 69239},
 			expr: &actionExpr{
-				pos: position{line: 2145, col: 5, offset: 69193},
+				pos: position{line: 2145, col: 5, offset: 69272},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2145, col: 5, offset: 69193},
+					pos: position{line: 2145, col: 5, offset: 69272},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2127, col: 5, offset: 68756},
+							pos:        position{line: 2127, col: 5, offset: 68835},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2128, col: 5, offset: 68765},
+							pos: position{line: 2128, col: 5, offset: 68844},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2132, col: 5, offset: 68888},
+							pos: position{line: 2132, col: 5, offset: 68967},
 							expr: &notExpr{
-								pos: position{line: 2132, col: 7, offset: 68890},
+								pos: position{line: 2132, col: 7, offset: 68969},
 								expr: &litMatcher{
-									pos:        position{line: 2132, col: 8, offset: 68891},
+									pos:        position{line: 2132, col: 8, offset: 68970},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45518,15 +45695,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2146, col: 5, offset: 69237},
+							pos:   position{line: 2146, col: 5, offset: 69316},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2146, col: 15, offset: 69247},
+								pos:  position{line: 2146, col: 15, offset: 69326},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2147, col: 5, offset: 69286},
+							pos:  position{line: 2147, col: 5, offset: 69365},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45535,17 +45712,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2151, col: 1, offset: 69423},
+			pos:  position{line: 2151, col: 1, offset: 69502},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69464},
+				pos: position{line: 2152, col: 5, offset: 69543},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69464},
+					pos: position{line: 2152, col: 5, offset: 69543},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2152, col: 5, offset: 69464},
+							pos: position{line: 2152, col: 5, offset: 69543},
 							expr: &charClassMatcher{
-								pos:        position{line: 2152, col: 6, offset: 69465},
+								pos:        position{line: 2152, col: 6, offset: 69544},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45553,18 +45730,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2153, col: 5, offset: 69507},
+							pos:   position{line: 2153, col: 5, offset: 69586},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2153, col: 14, offset: 69516},
+								pos: position{line: 2153, col: 14, offset: 69595},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2153, col: 15, offset: 69517},
+									pos:  position{line: 2153, col: 15, offset: 69596},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2154, col: 5, offset: 69555},
+							pos: position{line: 2154, col: 5, offset: 69634},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45573,31 +45750,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2160, col: 1, offset: 69696},
+			pos:  position{line: 2160, col: 1, offset: 69775},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 69736},
+				pos: position{line: 2161, col: 5, offset: 69815},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 69736},
+					pos: position{line: 2161, col: 5, offset: 69815},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2162, col: 5, offset: 69747},
+							pos: position{line: 2162, col: 5, offset: 69826},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 6, offset: 69748},
+								pos:  position{line: 2162, col: 6, offset: 69827},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 69789},
+							pos:   position{line: 2163, col: 5, offset: 69868},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 14, offset: 69798},
+								pos:  position{line: 2163, col: 14, offset: 69877},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45607,35 +45784,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2168, col: 1, offset: 69886},
+			pos:  position{line: 2168, col: 1, offset: 69965},
 			expr: &choiceExpr{
-				pos: position{line: 2170, col: 5, offset: 69957},
+				pos: position{line: 2170, col: 5, offset: 70036},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2170, col: 5, offset: 69957},
+						pos: position{line: 2170, col: 5, offset: 70036},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 5, offset: 69957},
+							pos: position{line: 2170, col: 5, offset: 70036},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 5, offset: 69957},
+									pos:   position{line: 2170, col: 5, offset: 70036},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60810},
+										pos: position{line: 1885, col: 25, offset: 60889},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60810},
+											pos: position{line: 1885, col: 25, offset: 60889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60810},
+													pos:        position{line: 1885, col: 25, offset: 60889},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60815},
+													pos: position{line: 1885, col: 30, offset: 60894},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60815},
+														pos:        position{line: 1885, col: 30, offset: 60894},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45646,25 +45823,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2097, col: 43, offset: 67795},
+									pos: position{line: 2097, col: 43, offset: 67874},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2097, col: 43, offset: 67795},
+										pos:        position{line: 2097, col: 43, offset: 67874},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 79, offset: 70031},
+									pos:   position{line: 2170, col: 79, offset: 70110},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 89, offset: 70041},
+										pos:  position{line: 2170, col: 89, offset: 70120},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 123, offset: 70075},
+									pos:        position{line: 2170, col: 123, offset: 70154},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45673,21 +45850,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2174, col: 7, offset: 70240},
+						pos: position{line: 2174, col: 7, offset: 70319},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 7, offset: 70240},
+							pos: position{line: 2174, col: 7, offset: 70319},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 7, offset: 70240},
+									pos:   position{line: 2174, col: 7, offset: 70319},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45696,21 +45873,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 42, offset: 70275},
+									pos:        position{line: 2174, col: 42, offset: 70354},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 47, offset: 70280},
+									pos:   position{line: 2174, col: 47, offset: 70359},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 57, offset: 70290},
+										pos:  position{line: 2174, col: 57, offset: 70369},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 91, offset: 70324},
+									pos:        position{line: 2174, col: 91, offset: 70403},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45719,21 +45896,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2179, col: 7, offset: 70526},
+						pos: position{line: 2179, col: 7, offset: 70605},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2179, col: 7, offset: 70526},
+							pos: position{line: 2179, col: 7, offset: 70605},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2179, col: 7, offset: 70526},
+									pos:   position{line: 2179, col: 7, offset: 70605},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45742,21 +45919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 42, offset: 70561},
+									pos:        position{line: 2179, col: 42, offset: 70640},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2179, col: 46, offset: 70565},
+									pos:   position{line: 2179, col: 46, offset: 70644},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2179, col: 56, offset: 70575},
+										pos:  position{line: 2179, col: 56, offset: 70654},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 90, offset: 70609},
+									pos:        position{line: 2179, col: 90, offset: 70688},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45769,33 +45946,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2199, col: 1, offset: 71188},
+			pos:  position{line: 2199, col: 1, offset: 71267},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71218},
+				pos: position{line: 2200, col: 5, offset: 71297},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71218},
+					pos: position{line: 2200, col: 5, offset: 71297},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2192, col: 40, offset: 71041},
+							pos: position{line: 2192, col: 40, offset: 71120},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2192, col: 40, offset: 71041},
+								pos:        position{line: 2192, col: 40, offset: 71120},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71259},
+							pos:   position{line: 2201, col: 5, offset: 71338},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2201, col: 15, offset: 71269},
+								pos:  position{line: 2201, col: 15, offset: 71348},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 38, offset: 71182},
+							pos:        position{line: 2197, col: 38, offset: 71261},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45806,44 +45983,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2206, col: 1, offset: 71435},
+			pos:  position{line: 2206, col: 1, offset: 71514},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2206, col: 34, offset: 71468},
+				pos: position{line: 2206, col: 34, offset: 71547},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2206, col: 34, offset: 71468},
+					pos:  position{line: 2206, col: 34, offset: 71547},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71499},
+			pos:  position{line: 2208, col: 1, offset: 71578},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71568},
+				pos: position{line: 2209, col: 5, offset: 71647},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71568},
+					pos: position{line: 2209, col: 5, offset: 71647},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71579},
+							pos: position{line: 2210, col: 5, offset: 71658},
 							expr: &litMatcher{
-								pos:        position{line: 2197, col: 38, offset: 71182},
+								pos:        position{line: 2197, col: 38, offset: 71261},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71618},
+							pos:   position{line: 2211, col: 5, offset: 71697},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71627},
+								pos:  position{line: 2211, col: 14, offset: 71706},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45853,29 +46030,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2236, col: 1, offset: 72309},
+			pos:  position{line: 2236, col: 1, offset: 72388},
 			expr: &actionExpr{
-				pos: position{line: 2237, col: 5, offset: 72339},
+				pos: position{line: 2237, col: 5, offset: 72418},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2237, col: 5, offset: 72339},
+					pos: position{line: 2237, col: 5, offset: 72418},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2220, col: 5, offset: 71875},
+							pos:        position{line: 2220, col: 5, offset: 71954},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71884},
+							pos: position{line: 2221, col: 5, offset: 71963},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2225, col: 5, offset: 72004},
+							pos: position{line: 2225, col: 5, offset: 72083},
 							expr: &notExpr{
-								pos: position{line: 2225, col: 7, offset: 72006},
+								pos: position{line: 2225, col: 7, offset: 72085},
 								expr: &litMatcher{
-									pos:        position{line: 2225, col: 8, offset: 72007},
+									pos:        position{line: 2225, col: 8, offset: 72086},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -45883,38 +46060,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2238, col: 5, offset: 72379},
+							pos:   position{line: 2238, col: 5, offset: 72458},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2238, col: 15, offset: 72389},
+								pos:  position{line: 2238, col: 15, offset: 72468},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72112},
+							pos:        position{line: 2228, col: 5, offset: 72191},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 72120},
+							pos: position{line: 2229, col: 5, offset: 72199},
 							expr: &litMatcher{
-								pos:        position{line: 2229, col: 6, offset: 72121},
+								pos:        position{line: 2229, col: 6, offset: 72200},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2230, col: 5, offset: 72184},
+							pos: position{line: 2230, col: 5, offset: 72263},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2234, col: 5, offset: 72295},
+							pos: position{line: 2234, col: 5, offset: 72374},
 							expr: &notExpr{
-								pos: position{line: 2234, col: 7, offset: 72297},
+								pos: position{line: 2234, col: 7, offset: 72376},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89669},
+									pos:        position{line: 2813, col: 13, offset: 89748},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45928,17 +46105,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2243, col: 1, offset: 72556},
+			pos:  position{line: 2243, col: 1, offset: 72635},
 			expr: &actionExpr{
-				pos: position{line: 2244, col: 5, offset: 72594},
+				pos: position{line: 2244, col: 5, offset: 72673},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2244, col: 5, offset: 72594},
+					pos: position{line: 2244, col: 5, offset: 72673},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2244, col: 5, offset: 72594},
+							pos: position{line: 2244, col: 5, offset: 72673},
 							expr: &charClassMatcher{
-								pos:        position{line: 2244, col: 6, offset: 72595},
+								pos:        position{line: 2244, col: 6, offset: 72674},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45946,18 +46123,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72637},
+							pos:   position{line: 2245, col: 5, offset: 72716},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2245, col: 14, offset: 72646},
+								pos: position{line: 2245, col: 14, offset: 72725},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2245, col: 15, offset: 72647},
+									pos:  position{line: 2245, col: 15, offset: 72726},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2246, col: 5, offset: 72683},
+							pos: position{line: 2246, col: 5, offset: 72762},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -45966,49 +46143,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2252, col: 1, offset: 72824},
+			pos:  position{line: 2252, col: 1, offset: 72903},
 			expr: &actionExpr{
-				pos: position{line: 2253, col: 5, offset: 72861},
+				pos: position{line: 2253, col: 5, offset: 72940},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2253, col: 5, offset: 72861},
+					pos: position{line: 2253, col: 5, offset: 72940},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2254, col: 5, offset: 72872},
+							pos: position{line: 2254, col: 5, offset: 72951},
 							expr: &seqExpr{
-								pos: position{line: 2228, col: 5, offset: 72112},
+								pos: position{line: 2228, col: 5, offset: 72191},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2228, col: 5, offset: 72112},
+										pos:        position{line: 2228, col: 5, offset: 72191},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2229, col: 5, offset: 72120},
+										pos: position{line: 2229, col: 5, offset: 72199},
 										expr: &litMatcher{
-											pos:        position{line: 2229, col: 6, offset: 72121},
+											pos:        position{line: 2229, col: 6, offset: 72200},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2230, col: 5, offset: 72184},
+										pos: position{line: 2230, col: 5, offset: 72263},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2234, col: 5, offset: 72295},
+										pos: position{line: 2234, col: 5, offset: 72374},
 										expr: &notExpr{
-											pos: position{line: 2234, col: 7, offset: 72297},
+											pos: position{line: 2234, col: 7, offset: 72376},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89669},
+												pos:        position{line: 2813, col: 13, offset: 89748},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46020,10 +46197,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 72911},
+							pos:   position{line: 2255, col: 5, offset: 72990},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 72920},
+								pos:  position{line: 2255, col: 14, offset: 72999},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46033,35 +46210,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2260, col: 1, offset: 73008},
+			pos:  position{line: 2260, col: 1, offset: 73087},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 5, offset: 73072},
+				pos: position{line: 2262, col: 5, offset: 73151},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2262, col: 5, offset: 73072},
+						pos: position{line: 2262, col: 5, offset: 73151},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 5, offset: 73072},
+							pos: position{line: 2262, col: 5, offset: 73151},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 5, offset: 73072},
+									pos:   position{line: 2262, col: 5, offset: 73151},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60810},
+										pos: position{line: 1885, col: 25, offset: 60889},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60810},
+											pos: position{line: 1885, col: 25, offset: 60889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60810},
+													pos:        position{line: 1885, col: 25, offset: 60889},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60815},
+													pos: position{line: 1885, col: 30, offset: 60894},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60815},
+														pos:        position{line: 1885, col: 30, offset: 60894},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -46072,25 +46249,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2192, col: 40, offset: 71041},
+									pos: position{line: 2192, col: 40, offset: 71120},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2192, col: 40, offset: 71041},
+										pos:        position{line: 2192, col: 40, offset: 71120},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 76, offset: 73143},
+									pos:   position{line: 2262, col: 76, offset: 73222},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 86, offset: 73153},
+										pos:  position{line: 2262, col: 86, offset: 73232},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 117, offset: 73184},
+									pos:        position{line: 2262, col: 117, offset: 73263},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -46099,21 +46276,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2266, col: 7, offset: 73345},
+						pos: position{line: 2266, col: 7, offset: 73424},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 7, offset: 73345},
+							pos: position{line: 2266, col: 7, offset: 73424},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 7, offset: 73345},
+									pos:   position{line: 2266, col: 7, offset: 73424},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46122,21 +46299,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 42, offset: 73380},
+									pos:        position{line: 2266, col: 42, offset: 73459},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 47, offset: 73385},
+									pos:   position{line: 2266, col: 47, offset: 73464},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 57, offset: 73395},
+										pos:  position{line: 2266, col: 57, offset: 73474},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 88, offset: 73426},
+									pos:        position{line: 2266, col: 88, offset: 73505},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46145,21 +46322,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 7, offset: 73625},
+						pos: position{line: 2271, col: 7, offset: 73704},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2271, col: 7, offset: 73625},
+							pos: position{line: 2271, col: 7, offset: 73704},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2271, col: 7, offset: 73625},
+									pos:   position{line: 2271, col: 7, offset: 73704},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60737},
+										pos: position{line: 1881, col: 25, offset: 60816},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60737},
+											pos: position{line: 1881, col: 25, offset: 60816},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60737},
+												pos:        position{line: 1881, col: 25, offset: 60816},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46168,21 +46345,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 42, offset: 73660},
+									pos:        position{line: 2271, col: 42, offset: 73739},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2271, col: 46, offset: 73664},
+									pos:   position{line: 2271, col: 46, offset: 73743},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2271, col: 56, offset: 73674},
+										pos:  position{line: 2271, col: 56, offset: 73753},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 87, offset: 73705},
+									pos:        position{line: 2271, col: 87, offset: 73784},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46195,33 +46372,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2278, col: 1, offset: 73968},
+			pos:  position{line: 2278, col: 1, offset: 74047},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 73990},
+				pos: position{line: 2279, col: 5, offset: 74069},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 73990},
+					pos: position{line: 2279, col: 5, offset: 74069},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74246},
+							pos: position{line: 2287, col: 32, offset: 74325},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74246},
+								pos:        position{line: 2287, col: 32, offset: 74325},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 74022},
+							pos:   position{line: 2280, col: 5, offset: 74101},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 74031},
+								pos:  position{line: 2280, col: 14, offset: 74110},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74210},
+							pos:        position{line: 2285, col: 27, offset: 74289},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46232,43 +46409,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2292, col: 1, offset: 74349},
+			pos:  position{line: 2292, col: 1, offset: 74428},
 			expr: &choiceExpr{
-				pos: position{line: 2292, col: 25, offset: 74373},
+				pos: position{line: 2292, col: 25, offset: 74452},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2292, col: 25, offset: 74373},
+						pos:  position{line: 2292, col: 25, offset: 74452},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2294, col: 21, offset: 74425},
+						pos: position{line: 2294, col: 21, offset: 74504},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2294, col: 21, offset: 74425},
+							pos:   position{line: 2294, col: 21, offset: 74504},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2294, col: 29, offset: 74433},
+								pos: position{line: 2294, col: 29, offset: 74512},
 								expr: &choiceExpr{
-									pos: position{line: 2294, col: 30, offset: 74434},
+									pos: position{line: 2294, col: 30, offset: 74513},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80910},
+												pos: position{line: 2513, col: 5, offset: 80989},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80910},
+														pos: position{line: 2513, col: 5, offset: 80989},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 80986},
+														pos:   position{line: 2516, col: 5, offset: 81065},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 81004},
+															pos: position{line: 2517, col: 9, offset: 81083},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 81005},
+																pos:        position{line: 2517, col: 10, offset: 81084},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46280,7 +46457,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2294, col: 49, offset: 74453},
+											pos:        position{line: 2294, col: 49, offset: 74532},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46296,23 +46473,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2298, col: 1, offset: 74512},
+			pos:  position{line: 2298, col: 1, offset: 74591},
 			expr: &actionExpr{
-				pos: position{line: 2300, col: 5, offset: 74579},
+				pos: position{line: 2300, col: 5, offset: 74658},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2300, col: 5, offset: 74579},
+					pos: position{line: 2300, col: 5, offset: 74658},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74579},
+							pos:   position{line: 2300, col: 5, offset: 74658},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60737},
+								pos: position{line: 1881, col: 25, offset: 60816},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60737},
+									pos: position{line: 1881, col: 25, offset: 60816},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60737},
+										pos:        position{line: 1881, col: 25, offset: 60816},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46321,25 +46498,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74246},
+							pos: position{line: 2287, col: 32, offset: 74325},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74246},
+								pos:        position{line: 2287, col: 32, offset: 74325},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 5, offset: 74652},
+							pos:   position{line: 2302, col: 5, offset: 74731},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 14, offset: 74661},
+								pos:  position{line: 2302, col: 14, offset: 74740},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74210},
+							pos:        position{line: 2285, col: 27, offset: 74289},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46350,33 +46527,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2310, col: 1, offset: 74920},
+			pos:  position{line: 2310, col: 1, offset: 74999},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 74944},
+				pos: position{line: 2311, col: 5, offset: 75023},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 74944},
+					pos: position{line: 2311, col: 5, offset: 75023},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75213},
+							pos: position{line: 2319, col: 34, offset: 75292},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75213},
+								pos:        position{line: 2319, col: 34, offset: 75292},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74978},
+							pos:   position{line: 2312, col: 5, offset: 75057},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 74987},
+								pos:  position{line: 2312, col: 14, offset: 75066},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75175},
+							pos:        position{line: 2317, col: 29, offset: 75254},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46387,43 +46564,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2324, col: 1, offset: 75316},
+			pos:  position{line: 2324, col: 1, offset: 75395},
 			expr: &choiceExpr{
-				pos: position{line: 2324, col: 27, offset: 75342},
+				pos: position{line: 2324, col: 27, offset: 75421},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2324, col: 27, offset: 75342},
+						pos:  position{line: 2324, col: 27, offset: 75421},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2326, col: 23, offset: 75398},
+						pos: position{line: 2326, col: 23, offset: 75477},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2326, col: 23, offset: 75398},
+							pos:   position{line: 2326, col: 23, offset: 75477},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2326, col: 31, offset: 75406},
+								pos: position{line: 2326, col: 31, offset: 75485},
 								expr: &choiceExpr{
-									pos: position{line: 2326, col: 32, offset: 75407},
+									pos: position{line: 2326, col: 32, offset: 75486},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80910},
+												pos: position{line: 2513, col: 5, offset: 80989},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80910},
+														pos: position{line: 2513, col: 5, offset: 80989},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 80986},
+														pos:   position{line: 2516, col: 5, offset: 81065},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 81004},
+															pos: position{line: 2517, col: 9, offset: 81083},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 81005},
+																pos:        position{line: 2517, col: 10, offset: 81084},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46435,7 +46612,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2326, col: 51, offset: 75426},
+											pos:        position{line: 2326, col: 51, offset: 75505},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46451,23 +46628,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75485},
+			pos:  position{line: 2330, col: 1, offset: 75564},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75557},
+				pos: position{line: 2332, col: 5, offset: 75636},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75557},
+					pos: position{line: 2332, col: 5, offset: 75636},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75557},
+							pos:   position{line: 2332, col: 5, offset: 75636},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60737},
+								pos: position{line: 1881, col: 25, offset: 60816},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60737},
+									pos: position{line: 1881, col: 25, offset: 60816},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60737},
+										pos:        position{line: 1881, col: 25, offset: 60816},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46476,25 +46653,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75213},
+							pos: position{line: 2319, col: 34, offset: 75292},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75213},
+								pos:        position{line: 2319, col: 34, offset: 75292},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75632},
+							pos:   position{line: 2334, col: 5, offset: 75711},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75641},
+								pos:  position{line: 2334, col: 14, offset: 75720},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75175},
+							pos:        position{line: 2317, col: 29, offset: 75254},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46505,27 +46682,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 76106},
+			pos:  position{line: 2343, col: 1, offset: 76185},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 76122},
+				pos: position{line: 2344, col: 5, offset: 76201},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 76122},
+					pos: position{line: 2344, col: 5, offset: 76201},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 76122},
+							pos: position{line: 2344, col: 5, offset: 76201},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76185},
+							pos:   position{line: 2347, col: 5, offset: 76264},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76192},
+								pos: position{line: 2347, col: 12, offset: 76271},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76192},
+									pos: position{line: 2347, col: 12, offset: 76271},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76193},
+										pos:        position{line: 2347, col: 13, offset: 76272},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46534,16 +46711,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76301},
+							pos: position{line: 2351, col: 5, offset: 76380},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93782},
+							pos: position{line: 2963, col: 11, offset: 93861},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93782},
+								pos: position{line: 2963, col: 11, offset: 93861},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93782},
+									pos:        position{line: 2963, col: 11, offset: 93861},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46552,36 +46729,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76460},
+							pos:   position{line: 2355, col: 12, offset: 76539},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76467},
+								pos:  position{line: 2355, col: 19, offset: 76546},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46590,9 +46767,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -46603,24 +46780,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76563},
+			pos:  position{line: 2359, col: 1, offset: 76642},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76584},
+				pos: position{line: 2360, col: 5, offset: 76663},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76584},
+					pos: position{line: 2360, col: 5, offset: 76663},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76584},
+							pos: position{line: 2360, col: 5, offset: 76663},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76728},
+							pos:   position{line: 2366, col: 5, offset: 76807},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76737},
+								pos: position{line: 2366, col: 14, offset: 76816},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76738},
+									pos:  position{line: 2366, col: 15, offset: 76817},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46631,38 +46808,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76819},
+			pos:  position{line: 2370, col: 1, offset: 76898},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76846},
+				pos: position{line: 2371, col: 5, offset: 76925},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76846},
+					pos: position{line: 2371, col: 5, offset: 76925},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76846},
+							pos: position{line: 2371, col: 5, offset: 76925},
 							expr: &choiceExpr{
-								pos: position{line: 2981, col: 8, offset: 94119},
+								pos: position{line: 2981, col: 8, offset: 94198},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93892},
+										pos: position{line: 2968, col: 12, offset: 93971},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93893},
+											pos: position{line: 2968, col: 13, offset: 93972},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93893},
+													pos:        position{line: 2968, col: 13, offset: 93972},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93900},
+													pos:        position{line: 2968, col: 20, offset: 93979},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93909},
+													pos:        position{line: 2968, col: 29, offset: 93988},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46671,45 +46848,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94069},
+										pos: position{line: 2978, col: 8, offset: 94148},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94070,
+											line: 2978, col: 9, offset: 94149,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76855},
+							pos:   position{line: 2372, col: 5, offset: 76934},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76873},
+								pos: position{line: 2373, col: 9, offset: 76952},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89816},
+										pos: position{line: 2822, col: 5, offset: 89895},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89816},
+											pos: position{line: 2822, col: 5, offset: 89895},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89816},
+													pos: position{line: 2822, col: 5, offset: 89895},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89827},
+														pos: position{line: 2823, col: 9, offset: 89906},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89827},
+																pos: position{line: 2823, col: 9, offset: 89906},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89890},
+																pos:   position{line: 2826, col: 9, offset: 89969},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89202},
+																	pos: position{line: 2798, col: 18, offset: 89281},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89203},
+																		pos: position{line: 2798, col: 19, offset: 89282},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89203},
+																			pos:        position{line: 2798, col: 19, offset: 89282},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46720,28 +46897,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89911},
+																pos:        position{line: 2826, col: 30, offset: 89990},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89998},
+																pos: position{line: 2827, col: 9, offset: 90077},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90110},
+													pos:   position{line: 2831, col: 5, offset: 90189},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90116},
+														pos: position{line: 2831, col: 11, offset: 90195},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90116},
+															pos: position{line: 2831, col: 11, offset: 90195},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90116},
+																pos:        position{line: 2831, col: 11, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46751,32 +46928,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90174},
+													pos: position{line: 2834, col: 5, offset: 90253},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90185},
+														pos: position{line: 2835, col: 9, offset: 90264},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90185},
+																pos:        position{line: 2835, col: 9, offset: 90264},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90234},
+																pos: position{line: 2836, col: 9, offset: 90313},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90314},
+													pos: position{line: 2840, col: 5, offset: 90393},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90325},
+														pos: position{line: 2841, col: 9, offset: 90404},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90325},
+																pos: position{line: 2841, col: 9, offset: 90404},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90325},
+																	pos:        position{line: 2841, col: 9, offset: 90404},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46785,13 +46962,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90339},
+																pos:        position{line: 2841, col: 23, offset: 90418},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90343},
+																pos:        position{line: 2841, col: 27, offset: 90422},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46804,12 +46981,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93782},
+										pos: position{line: 2963, col: 11, offset: 93861},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93782},
+											pos: position{line: 2963, col: 11, offset: 93861},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93782},
+												pos:        position{line: 2963, col: 11, offset: 93861},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46818,25 +46995,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82081},
+										pos: position{line: 2544, col: 5, offset: 82160},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82081},
+											pos: position{line: 2544, col: 5, offset: 82160},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82081},
+													pos: position{line: 2544, col: 5, offset: 82160},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82152},
+													pos:        position{line: 2547, col: 5, offset: 82231},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82157},
+													pos: position{line: 2547, col: 10, offset: 82236},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82158},
+														pos:        position{line: 2547, col: 11, offset: 82237},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46847,29 +47024,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82344},
+										pos: position{line: 2553, col: 5, offset: 82423},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82344},
+											pos: position{line: 2553, col: 5, offset: 82423},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82344},
+													pos: position{line: 2553, col: 5, offset: 82423},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82415},
+													pos: position{line: 2556, col: 5, offset: 82494},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82540},
+													pos:        position{line: 2560, col: 5, offset: 82619},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82544},
+													pos: position{line: 2560, col: 9, offset: 82623},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82545},
+														pos:        position{line: 2560, col: 10, offset: 82624},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -46880,31 +47057,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 76938},
+										pos:  position{line: 2376, col: 11, offset: 77017},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90536},
+										pos: position{line: 2849, col: 5, offset: 90615},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90546},
+											pos: position{line: 2850, col: 9, offset: 90625},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90547},
+													pos:        position{line: 2850, col: 10, offset: 90626},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90644},
+													pos: position{line: 2852, col: 13, offset: 90723},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90644},
+															pos: position{line: 2852, col: 13, offset: 90723},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90744},
+															pos:        position{line: 2855, col: 13, offset: 90823},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46912,20 +47089,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90750},
+													pos:        position{line: 2855, col: 19, offset: 90829},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90788},
+													pos: position{line: 2858, col: 13, offset: 90867},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90788},
+															pos: position{line: 2858, col: 13, offset: 90867},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90881},
+															pos:        position{line: 2861, col: 14, offset: 90960},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46934,18 +47111,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90925},
+													pos: position{line: 2863, col: 12, offset: 91004},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90925},
+															pos:        position{line: 2863, col: 12, offset: 91004},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90929},
+															pos: position{line: 2863, col: 16, offset: 91008},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90930},
+																pos:        position{line: 2863, col: 17, offset: 91009},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46957,35 +47134,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 77011},
+										pos:  position{line: 2378, col: 11, offset: 77090},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 77027},
+										pos:  position{line: 2379, col: 11, offset: 77106},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77055},
+										pos:  position{line: 2380, col: 11, offset: 77134},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80910},
+										pos: position{line: 2513, col: 5, offset: 80989},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80910},
+													pos: position{line: 2513, col: 5, offset: 80989},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80986},
+													pos:   position{line: 2516, col: 5, offset: 81065},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81004},
+														pos: position{line: 2517, col: 9, offset: 81083},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81005},
+															pos:        position{line: 2517, col: 10, offset: 81084},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46997,7 +47174,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77140},
+										pos:  position{line: 2382, col: 11, offset: 77219},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47386,17 +47563,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77593},
+										pos: position{line: 2395, col: 5, offset: 77672},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77593},
+											pos: position{line: 2395, col: 5, offset: 77672},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77593},
+													pos: position{line: 2395, col: 5, offset: 77672},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77648},
+													pos:   position{line: 2398, col: 5, offset: 77727},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -47850,12 +48027,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77669},
+													pos: position{line: 2398, col: 26, offset: 77748},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93721},
+														pos: position{line: 2959, col: 10, offset: 93800},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93721},
+															pos:        position{line: 2959, col: 10, offset: 93800},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -47864,30 +48041,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77676},
+													pos: position{line: 2398, col: 33, offset: 77755},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94119},
+														pos: position{line: 2981, col: 8, offset: 94198},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93892},
+																pos: position{line: 2968, col: 12, offset: 93971},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93893},
+																	pos: position{line: 2968, col: 13, offset: 93972},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93893},
+																			pos:        position{line: 2968, col: 13, offset: 93972},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93900},
+																			pos:        position{line: 2968, col: 20, offset: 93979},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93909},
+																			pos:        position{line: 2968, col: 29, offset: 93988},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -47896,9 +48073,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94069},
+																pos: position{line: 2978, col: 8, offset: 94148},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94070,
+																	line: 2978, col: 9, offset: 94149,
 																},
 															},
 														},
@@ -47923,12 +48100,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93373},
+														pos: position{line: 2944, col: 7, offset: 93452},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93373},
+															pos: position{line: 2944, col: 7, offset: 93452},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93373},
+																pos:        position{line: 2944, col: 7, offset: 93452},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47962,12 +48139,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93373},
+														pos: position{line: 2944, col: 7, offset: 93452},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93373},
+															pos: position{line: 2944, col: 7, offset: 93452},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93373},
+																pos:        position{line: 2944, col: 7, offset: 93452},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -47986,14 +48163,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77394},
+										pos:  position{line: 2387, col: 11, offset: 77473},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91190},
+										pos: position{line: 2871, col: 12, offset: 91269},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91190},
+											pos:        position{line: 2871, col: 12, offset: 91269},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48009,61 +48186,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 77938},
+			pos:  position{line: 2408, col: 1, offset: 78017},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 78025},
+				pos: position{line: 2409, col: 5, offset: 78104},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 78025},
+					pos: position{line: 2409, col: 5, offset: 78104},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 78025},
+							pos:   position{line: 2409, col: 5, offset: 78104},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 78034},
+								pos: position{line: 2409, col: 14, offset: 78113},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 78060},
+									pos: position{line: 2411, col: 9, offset: 78139},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 78060},
+										pos: position{line: 2411, col: 9, offset: 78139},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94055},
+												pos: position{line: 2976, col: 11, offset: 94134},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94057,
+													line: 2976, col: 13, offset: 94136,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 78075},
+												pos:   position{line: 2412, col: 9, offset: 78154},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 78097},
+													pos: position{line: 2413, col: 13, offset: 78176},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2822, col: 5, offset: 89816},
+															pos: position{line: 2822, col: 5, offset: 89895},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2822, col: 5, offset: 89816},
+																pos: position{line: 2822, col: 5, offset: 89895},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2822, col: 5, offset: 89816},
+																		pos: position{line: 2822, col: 5, offset: 89895},
 																		expr: &seqExpr{
-																			pos: position{line: 2823, col: 9, offset: 89827},
+																			pos: position{line: 2823, col: 9, offset: 89906},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2823, col: 9, offset: 89827},
+																					pos: position{line: 2823, col: 9, offset: 89906},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2826, col: 9, offset: 89890},
+																					pos:   position{line: 2826, col: 9, offset: 89969},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2798, col: 18, offset: 89202},
+																						pos: position{line: 2798, col: 18, offset: 89281},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2798, col: 19, offset: 89203},
+																							pos: position{line: 2798, col: 19, offset: 89282},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2798, col: 19, offset: 89203},
+																								pos:        position{line: 2798, col: 19, offset: 89282},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48074,28 +48251,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2826, col: 30, offset: 89911},
+																					pos:        position{line: 2826, col: 30, offset: 89990},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2827, col: 9, offset: 89998},
+																					pos: position{line: 2827, col: 9, offset: 90077},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2831, col: 5, offset: 90110},
+																		pos:   position{line: 2831, col: 5, offset: 90189},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 90116},
+																			pos: position{line: 2831, col: 11, offset: 90195},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 11, offset: 90116},
+																				pos: position{line: 2831, col: 11, offset: 90195},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 11, offset: 90116},
+																					pos:        position{line: 2831, col: 11, offset: 90195},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48105,32 +48282,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2834, col: 5, offset: 90174},
+																		pos: position{line: 2834, col: 5, offset: 90253},
 																		expr: &seqExpr{
-																			pos: position{line: 2835, col: 9, offset: 90185},
+																			pos: position{line: 2835, col: 9, offset: 90264},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2835, col: 9, offset: 90185},
+																					pos:        position{line: 2835, col: 9, offset: 90264},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2836, col: 9, offset: 90234},
+																					pos: position{line: 2836, col: 9, offset: 90313},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2840, col: 5, offset: 90314},
+																		pos: position{line: 2840, col: 5, offset: 90393},
 																		expr: &seqExpr{
-																			pos: position{line: 2841, col: 9, offset: 90325},
+																			pos: position{line: 2841, col: 9, offset: 90404},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2841, col: 9, offset: 90325},
+																					pos: position{line: 2841, col: 9, offset: 90404},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2841, col: 9, offset: 90325},
+																						pos:        position{line: 2841, col: 9, offset: 90404},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48139,13 +48316,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2841, col: 23, offset: 90339},
+																					pos:        position{line: 2841, col: 23, offset: 90418},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 27, offset: 90343},
+																					pos:        position{line: 2841, col: 27, offset: 90422},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48158,12 +48335,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2963, col: 11, offset: 93782},
+															pos: position{line: 2963, col: 11, offset: 93861},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2963, col: 11, offset: 93782},
+																pos: position{line: 2963, col: 11, offset: 93861},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 11, offset: 93782},
+																	pos:        position{line: 2963, col: 11, offset: 93861},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48172,29 +48349,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78143},
+															pos:  position{line: 2415, col: 15, offset: 78222},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2544, col: 5, offset: 82081},
+															pos: position{line: 2544, col: 5, offset: 82160},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2544, col: 5, offset: 82081},
+																pos: position{line: 2544, col: 5, offset: 82160},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2544, col: 5, offset: 82081},
+																		pos: position{line: 2544, col: 5, offset: 82160},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2547, col: 5, offset: 82152},
+																		pos:        position{line: 2547, col: 5, offset: 82231},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2547, col: 10, offset: 82157},
+																		pos: position{line: 2547, col: 10, offset: 82236},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2547, col: 11, offset: 82158},
+																			pos:        position{line: 2547, col: 11, offset: 82237},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48205,29 +48382,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2553, col: 5, offset: 82344},
+															pos: position{line: 2553, col: 5, offset: 82423},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2553, col: 5, offset: 82344},
+																pos: position{line: 2553, col: 5, offset: 82423},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2553, col: 5, offset: 82344},
+																		pos: position{line: 2553, col: 5, offset: 82423},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2556, col: 5, offset: 82415},
+																		pos: position{line: 2556, col: 5, offset: 82494},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2560, col: 5, offset: 82540},
+																		pos:        position{line: 2560, col: 5, offset: 82619},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2560, col: 9, offset: 82544},
+																		pos: position{line: 2560, col: 9, offset: 82623},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2560, col: 10, offset: 82545},
+																			pos:        position{line: 2560, col: 10, offset: 82624},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48238,27 +48415,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2849, col: 5, offset: 90536},
+															pos: position{line: 2849, col: 5, offset: 90615},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2850, col: 9, offset: 90546},
+																pos: position{line: 2850, col: 9, offset: 90625},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2850, col: 10, offset: 90547},
+																		pos:        position{line: 2850, col: 10, offset: 90626},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2852, col: 13, offset: 90644},
+																		pos: position{line: 2852, col: 13, offset: 90723},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2852, col: 13, offset: 90644},
+																				pos: position{line: 2852, col: 13, offset: 90723},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90744},
+																				pos:        position{line: 2855, col: 13, offset: 90823},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48266,20 +48443,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 19, offset: 90750},
+																		pos:        position{line: 2855, col: 19, offset: 90829},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2858, col: 13, offset: 90788},
+																		pos: position{line: 2858, col: 13, offset: 90867},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2858, col: 13, offset: 90788},
+																				pos: position{line: 2858, col: 13, offset: 90867},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2861, col: 14, offset: 90881},
+																				pos:        position{line: 2861, col: 14, offset: 90960},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48288,18 +48465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2863, col: 12, offset: 90925},
+																		pos: position{line: 2863, col: 12, offset: 91004},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2863, col: 12, offset: 90925},
+																				pos:        position{line: 2863, col: 12, offset: 91004},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2863, col: 16, offset: 90929},
+																				pos: position{line: 2863, col: 16, offset: 91008},
 																				expr: &litMatcher{
-																					pos:        position{line: 2863, col: 17, offset: 90930},
+																					pos:        position{line: 2863, col: 17, offset: 91009},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48311,25 +48488,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93892},
+															pos: position{line: 2968, col: 12, offset: 93971},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93893},
+																pos: position{line: 2968, col: 13, offset: 93972},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93893},
+																		pos:        position{line: 2968, col: 13, offset: 93972},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93900},
+																		pos:        position{line: 2968, col: 20, offset: 93979},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93909},
+																		pos:        position{line: 2968, col: 29, offset: 93988},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48684,35 +48861,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78310},
+															pos:  position{line: 2420, col: 15, offset: 78389},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78330},
+															pos:  position{line: 2421, col: 15, offset: 78409},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78419},
+															pos:  position{line: 2422, col: 15, offset: 78498},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 5, offset: 80910},
+															pos: position{line: 2513, col: 5, offset: 80989},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 5, offset: 80910},
+																pos: position{line: 2513, col: 5, offset: 80989},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80910},
+																		pos: position{line: 2513, col: 5, offset: 80989},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2516, col: 5, offset: 80986},
+																		pos:   position{line: 2516, col: 5, offset: 81065},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2517, col: 9, offset: 81004},
+																			pos: position{line: 2517, col: 9, offset: 81083},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2517, col: 10, offset: 81005},
+																				pos:        position{line: 2517, col: 10, offset: 81084},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48746,10 +48923,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48760,28 +48937,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94119},
+																			pos: position{line: 2981, col: 8, offset: 94198},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48790,9 +48967,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94069},
+																					pos: position{line: 2978, col: 8, offset: 94148},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94070,
+																						line: 2978, col: 9, offset: 94149,
 																					},
 																				},
 																			},
@@ -48802,7 +48979,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78601},
+															pos:  position{line: 2425, col: 15, offset: 78680},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -48845,10 +49022,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 91190},
+															pos: position{line: 2871, col: 12, offset: 91269},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 12, offset: 91190},
+																pos:        position{line: 2871, col: 12, offset: 91269},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -48864,9 +49041,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -48875,28 +49052,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 79039},
+			pos:  position{line: 2436, col: 1, offset: 79118},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 79072},
+				pos: position{line: 2437, col: 5, offset: 79151},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 79072},
+					pos: position{line: 2437, col: 5, offset: 79151},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 79072},
+							pos:   position{line: 2437, col: 5, offset: 79151},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 79081},
+								pos: position{line: 2437, col: 14, offset: 79160},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 79082},
+									pos:  position{line: 2437, col: 15, offset: 79161},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -48905,50 +49082,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79179},
+			pos:  position{line: 2441, col: 1, offset: 79258},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79219},
+				pos: position{line: 2442, col: 5, offset: 79298},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79219},
+					pos: position{line: 2442, col: 5, offset: 79298},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94055},
+							pos: position{line: 2976, col: 11, offset: 94134},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94057,
+								line: 2976, col: 13, offset: 94136,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79230},
+							pos:   position{line: 2443, col: 5, offset: 79309},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79248},
+								pos: position{line: 2444, col: 9, offset: 79327},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89816},
+										pos: position{line: 2822, col: 5, offset: 89895},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89816},
+											pos: position{line: 2822, col: 5, offset: 89895},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89816},
+													pos: position{line: 2822, col: 5, offset: 89895},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89827},
+														pos: position{line: 2823, col: 9, offset: 89906},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89827},
+																pos: position{line: 2823, col: 9, offset: 89906},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89890},
+																pos:   position{line: 2826, col: 9, offset: 89969},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89202},
+																	pos: position{line: 2798, col: 18, offset: 89281},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89203},
+																		pos: position{line: 2798, col: 19, offset: 89282},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89203},
+																			pos:        position{line: 2798, col: 19, offset: 89282},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48959,28 +49136,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89911},
+																pos:        position{line: 2826, col: 30, offset: 89990},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89998},
+																pos: position{line: 2827, col: 9, offset: 90077},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90110},
+													pos:   position{line: 2831, col: 5, offset: 90189},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90116},
+														pos: position{line: 2831, col: 11, offset: 90195},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90116},
+															pos: position{line: 2831, col: 11, offset: 90195},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90116},
+																pos:        position{line: 2831, col: 11, offset: 90195},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -48990,32 +49167,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90174},
+													pos: position{line: 2834, col: 5, offset: 90253},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90185},
+														pos: position{line: 2835, col: 9, offset: 90264},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90185},
+																pos:        position{line: 2835, col: 9, offset: 90264},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90234},
+																pos: position{line: 2836, col: 9, offset: 90313},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90314},
+													pos: position{line: 2840, col: 5, offset: 90393},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90325},
+														pos: position{line: 2841, col: 9, offset: 90404},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90325},
+																pos: position{line: 2841, col: 9, offset: 90404},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90325},
+																	pos:        position{line: 2841, col: 9, offset: 90404},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49024,13 +49201,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90339},
+																pos:        position{line: 2841, col: 23, offset: 90418},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90343},
+																pos:        position{line: 2841, col: 27, offset: 90422},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49043,10 +49220,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93721},
+										pos: position{line: 2959, col: 10, offset: 93800},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93721},
+											pos:        position{line: 2959, col: 10, offset: 93800},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49054,29 +49231,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79286},
+										pos:  position{line: 2446, col: 11, offset: 79365},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82081},
+										pos: position{line: 2544, col: 5, offset: 82160},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82081},
+											pos: position{line: 2544, col: 5, offset: 82160},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82081},
+													pos: position{line: 2544, col: 5, offset: 82160},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82152},
+													pos:        position{line: 2547, col: 5, offset: 82231},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82157},
+													pos: position{line: 2547, col: 10, offset: 82236},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82158},
+														pos:        position{line: 2547, col: 11, offset: 82237},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49087,29 +49264,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82344},
+										pos: position{line: 2553, col: 5, offset: 82423},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82344},
+											pos: position{line: 2553, col: 5, offset: 82423},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82344},
+													pos: position{line: 2553, col: 5, offset: 82423},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82415},
+													pos: position{line: 2556, col: 5, offset: 82494},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82540},
+													pos:        position{line: 2560, col: 5, offset: 82619},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82544},
+													pos: position{line: 2560, col: 9, offset: 82623},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82545},
+														pos:        position{line: 2560, col: 10, offset: 82624},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49120,27 +49297,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90536},
+										pos: position{line: 2849, col: 5, offset: 90615},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90546},
+											pos: position{line: 2850, col: 9, offset: 90625},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90547},
+													pos:        position{line: 2850, col: 10, offset: 90626},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90644},
+													pos: position{line: 2852, col: 13, offset: 90723},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90644},
+															pos: position{line: 2852, col: 13, offset: 90723},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90744},
+															pos:        position{line: 2855, col: 13, offset: 90823},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49148,20 +49325,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90750},
+													pos:        position{line: 2855, col: 19, offset: 90829},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90788},
+													pos: position{line: 2858, col: 13, offset: 90867},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90788},
+															pos: position{line: 2858, col: 13, offset: 90867},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90881},
+															pos:        position{line: 2861, col: 14, offset: 90960},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49170,18 +49347,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 90925},
+													pos: position{line: 2863, col: 12, offset: 91004},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 90925},
+															pos:        position{line: 2863, col: 12, offset: 91004},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 90929},
+															pos: position{line: 2863, col: 16, offset: 91008},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 90930},
+																pos:        position{line: 2863, col: 17, offset: 91009},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49193,31 +49370,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79386},
+										pos:  position{line: 2449, col: 11, offset: 79465},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79402},
+										pos:  position{line: 2450, col: 11, offset: 79481},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80910},
+										pos: position{line: 2513, col: 5, offset: 80989},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80910},
+											pos: position{line: 2513, col: 5, offset: 80989},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80910},
+													pos: position{line: 2513, col: 5, offset: 80989},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 80986},
+													pos:   position{line: 2516, col: 5, offset: 81065},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81004},
+														pos: position{line: 2517, col: 9, offset: 81083},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81005},
+															pos:        position{line: 2517, col: 10, offset: 81084},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49268,25 +49445,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93892},
+										pos: position{line: 2968, col: 12, offset: 93971},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93893},
+											pos: position{line: 2968, col: 13, offset: 93972},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93893},
+													pos:        position{line: 2968, col: 13, offset: 93972},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93900},
+													pos:        position{line: 2968, col: 20, offset: 93979},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93909},
+													pos:        position{line: 2968, col: 29, offset: 93988},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49295,10 +49472,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91190},
+										pos: position{line: 2871, col: 12, offset: 91269},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91190},
+											pos:        position{line: 2871, col: 12, offset: 91269},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49314,49 +49491,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2461, col: 1, offset: 79672},
+			pos:  position{line: 2461, col: 1, offset: 79751},
 			expr: &actionExpr{
-				pos: position{line: 2463, col: 5, offset: 79754},
+				pos: position{line: 2463, col: 5, offset: 79833},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2463, col: 5, offset: 79754},
+					pos: position{line: 2463, col: 5, offset: 79833},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2463, col: 5, offset: 79754},
+							pos: position{line: 2463, col: 5, offset: 79833},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2466, col: 5, offset: 79819},
+							pos:   position{line: 2466, col: 5, offset: 79898},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2467, col: 9, offset: 79837},
+								pos: position{line: 2467, col: 9, offset: 79916},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 9, offset: 79837},
+										pos:  position{line: 2467, col: 9, offset: 79916},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79858},
+										pos:  position{line: 2468, col: 11, offset: 79937},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79881},
+										pos:  position{line: 2469, col: 11, offset: 79960},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79897},
+										pos:  position{line: 2470, col: 11, offset: 79976},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 79926},
+										pos:  position{line: 2471, col: 11, offset: 80005},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79952},
+										pos:  position{line: 2472, col: 11, offset: 80031},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 79978},
+										pos:  position{line: 2473, col: 11, offset: 80057},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49375,12 +49552,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93373},
+														pos: position{line: 2944, col: 7, offset: 93452},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93373},
+															pos: position{line: 2944, col: 7, offset: 93452},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93373},
+																pos:        position{line: 2944, col: 7, offset: 93452},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49414,12 +49591,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93373},
+														pos: position{line: 2944, col: 7, offset: 93452},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93373},
+															pos: position{line: 2944, col: 7, offset: 93452},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93373},
+																pos:        position{line: 2944, col: 7, offset: 93452},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49461,17 +49638,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2813, col: 13, offset: 89669},
+																		pos:        position{line: 2813, col: 13, offset: 89748},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93721},
+																		pos: position{line: 2959, col: 10, offset: 93800},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93721},
+																			pos:        position{line: 2959, col: 10, offset: 93800},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49497,10 +49674,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49517,10 +49694,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49540,17 +49717,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89669},
+																							pos:        position{line: 2813, col: 13, offset: 89748},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49581,10 +49758,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49601,10 +49778,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93721},
+																			pos: position{line: 2959, col: 10, offset: 93800},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93721},
+																				pos:        position{line: 2959, col: 10, offset: 93800},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49624,17 +49801,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89669},
+																							pos:        position{line: 2813, col: 13, offset: 89748},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93721},
+																							pos: position{line: 2959, col: 10, offset: 93800},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93721},
+																								pos:        position{line: 2959, col: 10, offset: 93800},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49661,15 +49838,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80057},
+										pos:  position{line: 2476, col: 11, offset: 80136},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80077},
+										pos:  position{line: 2477, col: 11, offset: 80156},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2478, col: 11, offset: 80100},
+										pos:  position{line: 2478, col: 11, offset: 80179},
 										name: "InlineMenu",
 									},
 								},
@@ -49681,22 +49858,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2482, col: 1, offset: 80157},
+			pos:  position{line: 2482, col: 1, offset: 80236},
 			expr: &actionExpr{
-				pos: position{line: 2484, col: 5, offset: 80245},
+				pos: position{line: 2484, col: 5, offset: 80324},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2484, col: 5, offset: 80245},
+					pos: position{line: 2484, col: 5, offset: 80324},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2484, col: 5, offset: 80245},
+							pos: position{line: 2484, col: 5, offset: 80324},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2487, col: 5, offset: 80322},
+							pos:   position{line: 2487, col: 5, offset: 80401},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2488, col: 9, offset: 80340},
+								pos: position{line: 2488, col: 9, offset: 80419},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1412, col: 26, offset: 44933},
@@ -49751,10 +49928,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 12, offset: 45379},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93721},
+																					pos: position{line: 2959, col: 10, offset: 93800},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93721},
+																						pos:        position{line: 2959, col: 10, offset: 93800},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49765,25 +49942,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1418, col: 19, offset: 45386},
 																				expr: &actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93892},
+																					pos: position{line: 2968, col: 12, offset: 93971},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93893},
+																						pos: position{line: 2968, col: 13, offset: 93972},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93893},
+																								pos:        position{line: 2968, col: 13, offset: 93972},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93900},
+																								pos:        position{line: 2968, col: 20, offset: 93979},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93909},
+																								pos:        position{line: 2968, col: 29, offset: 93988},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49820,7 +49997,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1412, col: 121, offset: 45028},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89669},
+														pos:        position{line: 2813, col: 13, offset: 89748},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -49866,10 +50043,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 64, offset: 44488},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -49880,25 +50057,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1404, col: 71, offset: 44495},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -49921,12 +50098,12 @@ var g = &grammar{
 																							pos: position{line: 1404, col: 86, offset: 44510},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93782},
+																									pos: position{line: 2963, col: 11, offset: 93861},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93782},
+																										pos: position{line: 2963, col: 11, offset: 93861},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93782},
+																											pos:        position{line: 2963, col: 11, offset: 93861},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -49955,25 +50132,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1404, col: 151, offset: 44575},
 																						expr: &actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93892},
+																							pos: position{line: 2968, col: 12, offset: 93971},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93893},
+																								pos: position{line: 2968, col: 13, offset: 93972},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93893},
+																										pos:        position{line: 2968, col: 13, offset: 93972},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93900},
+																										pos:        position{line: 2968, col: 20, offset: 93979},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93909},
+																										pos:        position{line: 2968, col: 29, offset: 93988},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50000,10 +50177,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 12, offset: 44735},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93721},
+																				pos: position{line: 2959, col: 10, offset: 93800},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93721},
+																					pos:        position{line: 2959, col: 10, offset: 93800},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50014,25 +50191,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1406, col: 19, offset: 44742},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93892},
+																				pos: position{line: 2968, col: 12, offset: 93971},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93893},
+																					pos: position{line: 2968, col: 13, offset: 93972},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93893},
+																							pos:        position{line: 2968, col: 13, offset: 93972},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93900},
+																							pos:        position{line: 2968, col: 20, offset: 93979},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93909},
+																							pos:        position{line: 2968, col: 29, offset: 93988},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50068,7 +50245,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1400, col: 121, offset: 44311},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89669},
+														pos:        position{line: 2813, col: 13, offset: 89748},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50079,7 +50256,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 57, offset: 80388},
+										pos:  position{line: 2488, col: 57, offset: 80467},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50091,16 +50268,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2493, col: 1, offset: 80448},
+			pos:  position{line: 2493, col: 1, offset: 80527},
 			expr: &seqExpr{
-				pos: position{line: 2495, col: 5, offset: 80524},
+				pos: position{line: 2495, col: 5, offset: 80603},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2495, col: 5, offset: 80524},
+						pos: position{line: 2495, col: 5, offset: 80603},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2498, col: 5, offset: 80589},
+						pos:  position{line: 2498, col: 5, offset: 80668},
 						name: "QuotedText",
 					},
 				},
@@ -50108,22 +50285,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2500, col: 1, offset: 80602},
+			pos:  position{line: 2500, col: 1, offset: 80681},
 			expr: &actionExpr{
-				pos: position{line: 2502, col: 5, offset: 80684},
+				pos: position{line: 2502, col: 5, offset: 80763},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2502, col: 5, offset: 80684},
+					pos: position{line: 2502, col: 5, offset: 80763},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2502, col: 5, offset: 80684},
+							pos: position{line: 2502, col: 5, offset: 80763},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2505, col: 5, offset: 80755},
+							pos:   position{line: 2505, col: 5, offset: 80834},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2506, col: 9, offset: 80773},
+								pos:  position{line: 2506, col: 9, offset: 80852},
 								name: "Symbol",
 							},
 						},
@@ -50133,103 +50310,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2564, col: 1, offset: 82597},
+			pos:  position{line: 2564, col: 1, offset: 82676},
 			expr: &choiceExpr{
-				pos: position{line: 2566, col: 5, offset: 82627},
+				pos: position{line: 2566, col: 5, offset: 82706},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82627},
+						pos: position{line: 2566, col: 5, offset: 82706},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82627},
+							pos: position{line: 2566, col: 5, offset: 82706},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82627},
+									pos:        position{line: 2566, col: 5, offset: 82706},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2566, col: 10, offset: 82632},
+									pos: position{line: 2566, col: 10, offset: 82711},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2566, col: 10, offset: 82632},
+											pos:  position{line: 2566, col: 10, offset: 82711},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83730},
+											pos: position{line: 2595, col: 14, offset: 83809},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83730},
+												pos:        position{line: 2595, col: 14, offset: 83809},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 14, offset: 83796},
+											pos: position{line: 2599, col: 14, offset: 83875},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 14, offset: 83796},
+												pos:        position{line: 2599, col: 14, offset: 83875},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 15, offset: 83865},
+											pos: position{line: 2603, col: 15, offset: 83944},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 15, offset: 83865},
+												pos:        position{line: 2603, col: 15, offset: 83944},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 13, offset: 83930},
+											pos: position{line: 2607, col: 13, offset: 84009},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 13, offset: 83930},
+												pos:        position{line: 2607, col: 13, offset: 84009},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 21, offset: 84500},
+											pos: position{line: 2635, col: 21, offset: 84579},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 21, offset: 84500},
+												pos:        position{line: 2635, col: 21, offset: 84579},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 5, offset: 84086},
+											pos: position{line: 2614, col: 5, offset: 84165},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2614, col: 5, offset: 84086},
+												pos: position{line: 2614, col: 5, offset: 84165},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2614, col: 5, offset: 84086},
+														pos:        position{line: 2614, col: 5, offset: 84165},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2615, col: 5, offset: 84096},
+														pos: position{line: 2615, col: 5, offset: 84175},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 6, offset: 84183},
+														pos: position{line: 2619, col: 6, offset: 84262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93721},
+																pos: position{line: 2959, col: 10, offset: 93800},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93721},
+																	pos:        position{line: 2959, col: 10, offset: 93800},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50237,30 +50414,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2619, col: 14, offset: 84191},
+																pos: position{line: 2619, col: 14, offset: 84270},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94119},
+																	pos: position{line: 2981, col: 8, offset: 94198},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93892},
+																			pos: position{line: 2968, col: 12, offset: 93971},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93893},
+																				pos: position{line: 2968, col: 13, offset: 93972},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93893},
+																						pos:        position{line: 2968, col: 13, offset: 93972},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93900},
+																						pos:        position{line: 2968, col: 20, offset: 93979},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93909},
+																						pos:        position{line: 2968, col: 29, offset: 93988},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50269,9 +50446,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94069},
+																			pos: position{line: 2978, col: 8, offset: 94148},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94070,
+																				line: 2978, col: 9, offset: 94149,
 																			},
 																		},
 																	},
@@ -50283,53 +50460,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2624, col: 5, offset: 84311},
+											pos: position{line: 2624, col: 5, offset: 84390},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2624, col: 5, offset: 84311},
+												pos: position{line: 2624, col: 5, offset: 84390},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2624, col: 5, offset: 84311},
+														pos:        position{line: 2624, col: 5, offset: 84390},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2625, col: 5, offset: 84321},
+														pos: position{line: 2625, col: 5, offset: 84400},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2629, col: 5, offset: 84410},
+														pos: position{line: 2629, col: 5, offset: 84489},
 														expr: &choiceExpr{
-															pos: position{line: 2629, col: 7, offset: 84412},
+															pos: position{line: 2629, col: 7, offset: 84491},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2813, col: 13, offset: 89669},
+																	pos:        position{line: 2813, col: 13, offset: 89748},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93892},
+																	pos: position{line: 2968, col: 12, offset: 93971},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93893},
+																		pos: position{line: 2968, col: 13, offset: 93972},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93893},
+																				pos:        position{line: 2968, col: 13, offset: 93972},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93900},
+																				pos:        position{line: 2968, col: 20, offset: 93979},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93909},
+																				pos:        position{line: 2968, col: 29, offset: 93988},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50338,9 +50515,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -50350,30 +50527,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 20, offset: 84570},
+											pos: position{line: 2639, col: 20, offset: 84649},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 20, offset: 84570},
+												pos:        position{line: 2639, col: 20, offset: 84649},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 21, offset: 84641},
+											pos: position{line: 2643, col: 21, offset: 84720},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 21, offset: 84641},
+												pos:        position{line: 2643, col: 21, offset: 84720},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 20, offset: 84711},
+											pos: position{line: 2647, col: 20, offset: 84790},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 20, offset: 84711},
+												pos:        position{line: 2647, col: 20, offset: 84790},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50385,73 +50562,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2570, col: 7, offset: 82881},
+						pos:  position{line: 2570, col: 7, offset: 82960},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83730},
+						pos: position{line: 2595, col: 14, offset: 83809},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83730},
+							pos:        position{line: 2595, col: 14, offset: 83809},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 14, offset: 83796},
+						pos: position{line: 2599, col: 14, offset: 83875},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 14, offset: 83796},
+							pos:        position{line: 2599, col: 14, offset: 83875},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 15, offset: 83865},
+						pos: position{line: 2603, col: 15, offset: 83944},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 15, offset: 83865},
+							pos:        position{line: 2603, col: 15, offset: 83944},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 13, offset: 83930},
+						pos: position{line: 2607, col: 13, offset: 84009},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 13, offset: 83930},
+							pos:        position{line: 2607, col: 13, offset: 84009},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 5, offset: 84086},
+						pos: position{line: 2614, col: 5, offset: 84165},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2614, col: 5, offset: 84086},
+							pos: position{line: 2614, col: 5, offset: 84165},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2614, col: 5, offset: 84086},
+									pos:        position{line: 2614, col: 5, offset: 84165},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2615, col: 5, offset: 84096},
+									pos: position{line: 2615, col: 5, offset: 84175},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2619, col: 6, offset: 84183},
+									pos: position{line: 2619, col: 6, offset: 84262},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93721},
+											pos: position{line: 2959, col: 10, offset: 93800},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93721},
+												pos:        position{line: 2959, col: 10, offset: 93800},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50459,30 +50636,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2619, col: 14, offset: 84191},
+											pos: position{line: 2619, col: 14, offset: 84270},
 											expr: &choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94119},
+												pos: position{line: 2981, col: 8, offset: 94198},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93892},
+														pos: position{line: 2968, col: 12, offset: 93971},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93893},
+															pos: position{line: 2968, col: 13, offset: 93972},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93893},
+																	pos:        position{line: 2968, col: 13, offset: 93972},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93900},
+																	pos:        position{line: 2968, col: 20, offset: 93979},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93909},
+																	pos:        position{line: 2968, col: 29, offset: 93988},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50491,9 +50668,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94069},
+														pos: position{line: 2978, col: 8, offset: 94148},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94070,
+															line: 2978, col: 9, offset: 94149,
 														},
 													},
 												},
@@ -50505,53 +50682,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2624, col: 5, offset: 84311},
+						pos: position{line: 2624, col: 5, offset: 84390},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2624, col: 5, offset: 84311},
+							pos: position{line: 2624, col: 5, offset: 84390},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2624, col: 5, offset: 84311},
+									pos:        position{line: 2624, col: 5, offset: 84390},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2625, col: 5, offset: 84321},
+									pos: position{line: 2625, col: 5, offset: 84400},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2629, col: 5, offset: 84410},
+									pos: position{line: 2629, col: 5, offset: 84489},
 									expr: &choiceExpr{
-										pos: position{line: 2629, col: 7, offset: 84412},
+										pos: position{line: 2629, col: 7, offset: 84491},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89669},
+												pos:        position{line: 2813, col: 13, offset: 89748},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93892},
+												pos: position{line: 2968, col: 12, offset: 93971},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93893},
+													pos: position{line: 2968, col: 13, offset: 93972},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93893},
+															pos:        position{line: 2968, col: 13, offset: 93972},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93900},
+															pos:        position{line: 2968, col: 20, offset: 93979},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93909},
+															pos:        position{line: 2968, col: 29, offset: 93988},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50560,9 +50737,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94069},
+												pos: position{line: 2978, col: 8, offset: 94148},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94070,
+													line: 2978, col: 9, offset: 94149,
 												},
 											},
 										},
@@ -50572,40 +50749,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 21, offset: 84500},
+						pos: position{line: 2635, col: 21, offset: 84579},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 21, offset: 84500},
+							pos:        position{line: 2635, col: 21, offset: 84579},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 20, offset: 84570},
+						pos: position{line: 2639, col: 20, offset: 84649},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 20, offset: 84570},
+							pos:        position{line: 2639, col: 20, offset: 84649},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 21, offset: 84641},
+						pos: position{line: 2643, col: 21, offset: 84720},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 21, offset: 84641},
+							pos:        position{line: 2643, col: 21, offset: 84720},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 20, offset: 84711},
+						pos: position{line: 2647, col: 20, offset: 84790},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 20, offset: 84711},
+							pos:        position{line: 2647, col: 20, offset: 84790},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50616,43 +50793,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2581, col: 1, offset: 83071},
+			pos:  position{line: 2581, col: 1, offset: 83150},
 			expr: &choiceExpr{
-				pos: position{line: 2582, col: 5, offset: 83093},
+				pos: position{line: 2582, col: 5, offset: 83172},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 83093},
+						pos: position{line: 2582, col: 5, offset: 83172},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 83093},
+							pos: position{line: 2582, col: 5, offset: 83172},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 83093},
+									pos:        position{line: 2582, col: 5, offset: 83172},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2582, col: 11, offset: 83099},
+									pos: position{line: 2582, col: 11, offset: 83178},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68756},
+										pos: position{line: 2127, col: 5, offset: 68835},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68756},
+												pos:        position{line: 2127, col: 5, offset: 68835},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68765},
+												pos: position{line: 2128, col: 5, offset: 68844},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68888},
+												pos: position{line: 2132, col: 5, offset: 68967},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68890},
+													pos: position{line: 2132, col: 7, offset: 68969},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68891},
+														pos:        position{line: 2132, col: 8, offset: 68970},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50666,21 +50843,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 7, offset: 83252},
+						pos: position{line: 2585, col: 7, offset: 83331},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2585, col: 7, offset: 83252},
+							pos: position{line: 2585, col: 7, offset: 83331},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2585, col: 7, offset: 83252},
+									pos:        position{line: 2585, col: 7, offset: 83331},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2585, col: 13, offset: 83258},
+									pos: position{line: 2585, col: 13, offset: 83337},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2585, col: 14, offset: 83259},
+										pos:  position{line: 2585, col: 14, offset: 83338},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50688,38 +50865,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 7, offset: 83409},
+						pos: position{line: 2588, col: 7, offset: 83488},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2588, col: 7, offset: 83409},
+							pos: position{line: 2588, col: 7, offset: 83488},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2588, col: 7, offset: 83409},
+									pos:        position{line: 2588, col: 7, offset: 83488},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2588, col: 12, offset: 83414},
+									pos: position{line: 2588, col: 12, offset: 83493},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68756},
+										pos: position{line: 2127, col: 5, offset: 68835},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68756},
+												pos:        position{line: 2127, col: 5, offset: 68835},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68765},
+												pos: position{line: 2128, col: 5, offset: 68844},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68888},
+												pos: position{line: 2132, col: 5, offset: 68967},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68890},
+													pos: position{line: 2132, col: 7, offset: 68969},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68891},
+														pos:        position{line: 2132, col: 8, offset: 68970},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50733,21 +50910,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 7, offset: 83567},
+						pos: position{line: 2591, col: 7, offset: 83646},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 7, offset: 83567},
+							pos: position{line: 2591, col: 7, offset: 83646},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 7, offset: 83567},
+									pos:        position{line: 2591, col: 7, offset: 83646},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2591, col: 12, offset: 83572},
+									pos: position{line: 2591, col: 12, offset: 83651},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2591, col: 13, offset: 83573},
+										pos:  position{line: 2591, col: 13, offset: 83652},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50759,63 +50936,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2724, col: 1, offset: 86613},
+			pos:  position{line: 2724, col: 1, offset: 86692},
 			expr: &actionExpr{
-				pos: position{line: 2724, col: 26, offset: 86638},
+				pos: position{line: 2724, col: 26, offset: 86717},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2724, col: 26, offset: 86638},
+					pos: position{line: 2724, col: 26, offset: 86717},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2724, col: 26, offset: 86638},
+							pos:   position{line: 2724, col: 26, offset: 86717},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2724, col: 31, offset: 86643},
+								pos: position{line: 2724, col: 31, offset: 86722},
 								expr: &actionExpr{
-									pos: position{line: 2729, col: 5, offset: 86706},
+									pos: position{line: 2729, col: 5, offset: 86785},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2729, col: 5, offset: 86706},
+										pos: position{line: 2729, col: 5, offset: 86785},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94055},
+												pos: position{line: 2976, col: 11, offset: 94134},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94057,
+													line: 2976, col: 13, offset: 94136,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86832},
+												pos:   position{line: 2732, col: 5, offset: 86911},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 16, offset: 86843},
+													pos: position{line: 2732, col: 16, offset: 86922},
 													expr: &actionExpr{
-														pos: position{line: 2732, col: 17, offset: 86844},
+														pos: position{line: 2732, col: 17, offset: 86923},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2732, col: 17, offset: 86844},
+															pos: position{line: 2732, col: 17, offset: 86923},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2732, col: 17, offset: 86844},
+																	pos:   position{line: 2732, col: 17, offset: 86923},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93548},
+																		pos: position{line: 2951, col: 12, offset: 93627},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93549},
+																			pos: position{line: 2951, col: 13, offset: 93628},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93549},
+																					pos: position{line: 2951, col: 13, offset: 93628},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93549},
+																						pos:        position{line: 2951, col: 13, offset: 93628},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93554},
+																					pos: position{line: 2951, col: 18, offset: 93633},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93554},
+																						pos:        position{line: 2951, col: 18, offset: 93633},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50827,7 +51004,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2732, col: 27, offset: 86854},
+																	pos:        position{line: 2732, col: 27, offset: 86933},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -50838,38 +51015,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2733, col: 5, offset: 86882},
+												pos:   position{line: 2733, col: 5, offset: 86961},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2733, col: 12, offset: 86889},
+													pos: position{line: 2733, col: 12, offset: 86968},
 													expr: &choiceExpr{
-														pos: position{line: 2734, col: 9, offset: 86899},
+														pos: position{line: 2734, col: 9, offset: 86978},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2734, col: 9, offset: 86899},
+																pos: position{line: 2734, col: 9, offset: 86978},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 9, offset: 86899},
+																	pos:        position{line: 2734, col: 9, offset: 86978},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2735, col: 11, offset: 86946},
+																pos: position{line: 2735, col: 11, offset: 87025},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 11, offset: 86946},
+																	pos:        position{line: 2735, col: 11, offset: 87025},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 11, offset: 86994},
+																pos: position{line: 2736, col: 11, offset: 87073},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 11, offset: 86994},
+																	pos:        position{line: 2736, col: 11, offset: 87073},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -50880,38 +51057,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2738, col: 5, offset: 87044},
+												pos:   position{line: 2738, col: 5, offset: 87123},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2738, col: 12, offset: 87051},
+													pos: position{line: 2738, col: 12, offset: 87130},
 													expr: &choiceExpr{
-														pos: position{line: 2739, col: 9, offset: 87061},
+														pos: position{line: 2739, col: 9, offset: 87140},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2739, col: 9, offset: 87061},
+																pos: position{line: 2739, col: 9, offset: 87140},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 9, offset: 87061},
+																	pos:        position{line: 2739, col: 9, offset: 87140},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87108},
+																pos: position{line: 2740, col: 11, offset: 87187},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87108},
+																	pos:        position{line: 2740, col: 11, offset: 87187},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2741, col: 11, offset: 87158},
+																pos: position{line: 2741, col: 11, offset: 87237},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2741, col: 11, offset: 87158},
+																	pos:        position{line: 2741, col: 11, offset: 87237},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -50922,32 +51099,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2743, col: 5, offset: 87209},
+												pos:   position{line: 2743, col: 5, offset: 87288},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2743, col: 12, offset: 87216},
+													pos: position{line: 2743, col: 12, offset: 87295},
 													expr: &choiceExpr{
-														pos: position{line: 2743, col: 13, offset: 87217},
+														pos: position{line: 2743, col: 13, offset: 87296},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93548},
+																pos: position{line: 2951, col: 12, offset: 93627},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93549},
+																	pos: position{line: 2951, col: 13, offset: 93628},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93549},
+																			pos: position{line: 2951, col: 13, offset: 93628},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93549},
+																				pos:        position{line: 2951, col: 13, offset: 93628},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93554},
+																			pos: position{line: 2951, col: 18, offset: 93633},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93554},
+																				pos:        position{line: 2951, col: 18, offset: 93633},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -50958,10 +51135,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 24, offset: 87228},
+																pos: position{line: 2743, col: 24, offset: 87307},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 24, offset: 87228},
+																	pos:        position{line: 2743, col: 24, offset: 87307},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -50972,15 +51149,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2744, col: 5, offset: 87270},
+												pos:   position{line: 2744, col: 5, offset: 87349},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2744, col: 11, offset: 87276},
+													pos: position{line: 2744, col: 11, offset: 87355},
 													expr: &actionExpr{
-														pos: position{line: 2744, col: 12, offset: 87277},
+														pos: position{line: 2744, col: 12, offset: 87356},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2744, col: 12, offset: 87277},
+															pos:        position{line: 2744, col: 12, offset: 87356},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -50990,12 +51167,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87407},
+												pos:   position{line: 2746, col: 5, offset: 87486},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 11, offset: 87413},
+													pos: position{line: 2746, col: 11, offset: 87492},
 													expr: &litMatcher{
-														pos:        position{line: 2746, col: 12, offset: 87414},
+														pos:        position{line: 2746, col: 12, offset: 87493},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51003,7 +51180,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2747, col: 5, offset: 87424},
+												pos: position{line: 2747, col: 5, offset: 87503},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51012,9 +51189,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94069},
+							pos: position{line: 2978, col: 8, offset: 94148},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94070,
+								line: 2978, col: 9, offset: 94149,
 							},
 						},
 					},
@@ -51023,23 +51200,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2774, col: 1, offset: 88433},
+			pos:  position{line: 2774, col: 1, offset: 88512},
 			expr: &actionExpr{
-				pos: position{line: 2775, col: 5, offset: 88456},
+				pos: position{line: 2775, col: 5, offset: 88535},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2775, col: 5, offset: 88456},
+					pos: position{line: 2775, col: 5, offset: 88535},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88456},
+							pos:   position{line: 2775, col: 5, offset: 88535},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89202},
+								pos: position{line: 2798, col: 18, offset: 89281},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89203},
+									pos: position{line: 2798, col: 19, offset: 89282},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89203},
+										pos:        position{line: 2798, col: 19, offset: 89282},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51050,39 +51227,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2776, col: 5, offset: 88482},
+							pos: position{line: 2776, col: 5, offset: 88561},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2780, col: 5, offset: 88610},
+							pos:        position{line: 2780, col: 5, offset: 88689},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2781, col: 5, offset: 88620},
+							pos:   position{line: 2781, col: 5, offset: 88699},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 24, offset: 89364},
+								pos: position{line: 2806, col: 24, offset: 89443},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2806, col: 24, offset: 89364},
+									pos: position{line: 2806, col: 24, offset: 89443},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 25, offset: 89365},
+										pos: position{line: 2806, col: 25, offset: 89444},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2806, col: 25, offset: 89365},
+												pos: position{line: 2806, col: 25, offset: 89444},
 												expr: &litMatcher{
-													pos:        position{line: 2806, col: 26, offset: 89366},
+													pos:        position{line: 2806, col: 26, offset: 89445},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2806, col: 30, offset: 89370},
+												pos: position{line: 2806, col: 30, offset: 89449},
 												expr: &charClassMatcher{
-													pos:        position{line: 2806, col: 30, offset: 89370},
+													pos:        position{line: 2806, col: 30, offset: 89449},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51090,23 +51267,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2806, col: 41, offset: 89381},
+												pos: position{line: 2806, col: 41, offset: 89460},
 												expr: &seqExpr{
-													pos: position{line: 2806, col: 42, offset: 89382},
+													pos: position{line: 2806, col: 42, offset: 89461},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 42, offset: 89382},
+															pos: position{line: 2806, col: 42, offset: 89461},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 42, offset: 89382},
+																pos:        position{line: 2806, col: 42, offset: 89461},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 47, offset: 89387},
+															pos: position{line: 2806, col: 47, offset: 89466},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 47, offset: 89387},
+																pos:        position{line: 2806, col: 47, offset: 89466},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51122,36 +51299,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2782, col: 5, offset: 88653},
+							pos:   position{line: 2782, col: 5, offset: 88732},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2782, col: 17, offset: 88665},
+								pos:  position{line: 2782, col: 17, offset: 88744},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94119},
+							pos: position{line: 2981, col: 8, offset: 94198},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93892},
+									pos: position{line: 2968, col: 12, offset: 93971},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93893},
+										pos: position{line: 2968, col: 13, offset: 93972},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93893},
+												pos:        position{line: 2968, col: 13, offset: 93972},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93900},
+												pos:        position{line: 2968, col: 20, offset: 93979},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93909},
+												pos:        position{line: 2968, col: 29, offset: 93988},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51160,9 +51337,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94069},
+									pos: position{line: 2978, col: 8, offset: 94148},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94070,
+										line: 2978, col: 9, offset: 94149,
 									},
 								},
 							},
@@ -51173,23 +51350,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2786, col: 1, offset: 88813},
+			pos:  position{line: 2786, col: 1, offset: 88892},
 			expr: &actionExpr{
-				pos: position{line: 2787, col: 5, offset: 88837},
+				pos: position{line: 2787, col: 5, offset: 88916},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2787, col: 5, offset: 88837},
+					pos: position{line: 2787, col: 5, offset: 88916},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2787, col: 5, offset: 88837},
+							pos:   position{line: 2787, col: 5, offset: 88916},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89202},
+								pos: position{line: 2798, col: 18, offset: 89281},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89203},
+									pos: position{line: 2798, col: 19, offset: 89282},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89203},
+										pos:        position{line: 2798, col: 19, offset: 89282},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51200,39 +51377,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2788, col: 5, offset: 88863},
+							pos: position{line: 2788, col: 5, offset: 88942},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2792, col: 5, offset: 88991},
+							pos:        position{line: 2792, col: 5, offset: 89070},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2793, col: 5, offset: 89000},
+							pos:   position{line: 2793, col: 5, offset: 89079},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 19, offset: 89278},
+								pos: position{line: 2802, col: 19, offset: 89357},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2802, col: 19, offset: 89278},
+									pos: position{line: 2802, col: 19, offset: 89357},
 									expr: &seqExpr{
-										pos: position{line: 2802, col: 20, offset: 89279},
+										pos: position{line: 2802, col: 20, offset: 89358},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2802, col: 20, offset: 89279},
+												pos: position{line: 2802, col: 20, offset: 89358},
 												expr: &litMatcher{
-													pos:        position{line: 2802, col: 21, offset: 89280},
+													pos:        position{line: 2802, col: 21, offset: 89359},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2802, col: 25, offset: 89284},
+												pos: position{line: 2802, col: 25, offset: 89363},
 												expr: &charClassMatcher{
-													pos:        position{line: 2802, col: 25, offset: 89284},
+													pos:        position{line: 2802, col: 25, offset: 89363},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51245,10 +51422,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2794, col: 5, offset: 89028},
+							pos:   position{line: 2794, col: 5, offset: 89107},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2794, col: 17, offset: 89040},
+								pos:  position{line: 2794, col: 17, offset: 89119},
 								name: "InlineAttributes",
 							},
 						},
@@ -51258,43 +51435,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2886, col: 1, offset: 91529},
+			pos:  position{line: 2886, col: 1, offset: 91608},
 			expr: &actionExpr{
-				pos: position{line: 2886, col: 17, offset: 91545},
+				pos: position{line: 2886, col: 17, offset: 91624},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2886, col: 17, offset: 91545},
+					pos:   position{line: 2886, col: 17, offset: 91624},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2907, col: 5, offset: 92130},
+						pos: position{line: 2907, col: 5, offset: 92209},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2907, col: 5, offset: 92130},
+							pos:   position{line: 2907, col: 5, offset: 92209},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2907, col: 14, offset: 92139},
+								pos: position{line: 2907, col: 14, offset: 92218},
 								expr: &choiceExpr{
-									pos: position{line: 2908, col: 9, offset: 92149},
+									pos: position{line: 2908, col: 9, offset: 92228},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2908, col: 9, offset: 92149},
+											pos: position{line: 2908, col: 9, offset: 92228},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2908, col: 9, offset: 92149},
+												pos: position{line: 2908, col: 9, offset: 92228},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2908, col: 9, offset: 92149},
+														pos: position{line: 2908, col: 9, offset: 92228},
 														expr: &litMatcher{
-															pos:        position{line: 2908, col: 10, offset: 92150},
+															pos:        position{line: 2908, col: 10, offset: 92229},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2909, col: 9, offset: 92178},
+														pos: position{line: 2909, col: 9, offset: 92257},
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 92179},
+															pos:        position{line: 2909, col: 10, offset: 92258},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51305,27 +51482,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2912, col: 11, offset: 92391},
+											pos: position{line: 2912, col: 11, offset: 92470},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2912, col: 11, offset: 92391},
+													pos:        position{line: 2912, col: 11, offset: 92470},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2912, col: 19, offset: 92399},
+													pos: position{line: 2912, col: 19, offset: 92478},
 													expr: &seqExpr{
-														pos: position{line: 2912, col: 21, offset: 92401},
+														pos: position{line: 2912, col: 21, offset: 92480},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2912, col: 21, offset: 92401},
+																pos: position{line: 2912, col: 21, offset: 92480},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93721},
+																	pos: position{line: 2959, col: 10, offset: 93800},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93721},
+																		pos:        position{line: 2959, col: 10, offset: 93800},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51334,11 +51511,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2912, col: 28, offset: 92408},
+																pos: position{line: 2912, col: 28, offset: 92487},
 																expr: &notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94069},
+																	pos: position{line: 2978, col: 8, offset: 94148},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94070,
+																		line: 2978, col: 9, offset: 94149,
 																	},
 																},
 															},
@@ -51733,10 +51910,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2915, col: 11, offset: 92528},
+											pos: position{line: 2915, col: 11, offset: 92607},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2915, col: 11, offset: 92528},
+												pos:        position{line: 2915, col: 11, offset: 92607},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -68114,48 +68291,126 @@ func (p *parser) callonListContinuation19() (interface{}, error) {
 	return p.cur.onListContinuation19()
 }
 
-func (c *current) onListContinuation36() (interface{}, error) {
+func (c *current) onListContinuation38() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuation38() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation38()
+}
+
+func (c *current) onListContinuation41() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuation41() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation41()
+}
+
+func (c *current) onListContinuation33() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonListContinuation33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation33()
+}
+
+func (c *current) onListContinuation54() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuation54() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation54()
+}
+
+func (c *current) onListContinuation58() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuation58() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation58()
+}
+
+func (c *current) onListContinuation48(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuation48() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation48(stack["content"])
+}
+
+func (c *current) onListContinuation29(e interface{}) (interface{}, error) {
+	return e, nil
+}
+
+func (p *parser) callonListContinuation29() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuation29(stack["e"])
+}
+
+func (c *current) onListContinuation75() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuation36() (interface{}, error) {
+func (p *parser) callonListContinuation75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation36()
+	return p.cur.onListContinuation75()
 }
 
-func (c *current) onListContinuation39() (interface{}, error) {
+func (c *current) onListContinuation78() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuation39() (interface{}, error) {
+func (p *parser) callonListContinuation78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation39()
+	return p.cur.onListContinuation78()
 }
 
-func (c *current) onListContinuation31() (interface{}, error) {
+func (c *current) onListContinuation70() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuation31() (interface{}, error) {
+func (p *parser) callonListContinuation70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation31()
+	return p.cur.onListContinuation70()
 }
 
-func (c *current) onListContinuation28(e interface{}) (interface{}, error) {
+func (c *current) onListContinuation67(e interface{}) (interface{}, error) {
 	return e, nil
 }
 
-func (p *parser) callonListContinuation28() (interface{}, error) {
+func (p *parser) callonListContinuation67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuation28(stack["e"])
+	return p.cur.onListContinuation67(stack["e"])
 }
 
 func (c *current) onListContinuation1(offset, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b8dd57f..19d2338 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1566,7 +1566,7 @@ ListElementContent <-
 ListContinuation <- 
     offset:(Space* Newline)* 
     "+" Space* EOL
-    element:(BlankLine* e:ListContinuationElement { return e, nil })?
+    element:((BlankLine / SinglelineComment)* e:ListContinuationElement { return e, nil } / BlankLine* e:ListContinuationElement { return e, nil })?
     {
         return types.NewListContinuation(len(offset.([]interface{})), element)    
     }
-- 
2.43.0


From 75ddeea92f5dcde057ace390779f77f8b2ca7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 103/117] fix: render the roles of inline icons

---
 pkg/renderer/sgml/icon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 4674927..4c083a1 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -18,6 +18,10 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 	if err != nil {
 		return "", err
 	}
+	roles, err := r.renderElementRoles(ctx, icon.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render icon roles")
+	}
 	return r.execute(r.inlineIcon, struct {
 		Class  string
 		Role   string
@@ -31,7 +35,7 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID:     r.renderElementID(icon.Attributes),
 		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
 		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
-		Role:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrRoles, "")),
+		Role:   roles,
 	})
 }
 
-- 
2.43.0


From b996ac9a002115b37e99b2140dbb39c20ed89294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 104/117] fix: keep the URLs of the directories of icons

---
 pkg/renderer/sgml/icon.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 4c083a1..3e4b432 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -124,9 +124,17 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 func renderIconPath(ctx *context, name string) string {
 	// Icon files by default are in {imagesdir}/icons, where {imagesdir} defaults to "./images"
 	dir := ctx.attributes.GetAsStringWithDefault("iconsdir",
-		path.Join(ctx.attributes.GetAsStringWithDefault(types.AttrImagesDir, "./images"), "icons"))
+		joinPath(ctx.attributes.GetAsStringWithDefault(types.AttrImagesDir, "./images"), "icons"))
 	// TODO: perform attribute substitutions here!
 	ext := ctx.attributes.GetAsStringWithDefault("icontype", "png")
 
-	return path.Join(dir, name+"."+ext)
+	return joinPath(dir, name+"."+ext)
+}
+
+// joinPath appends the name to the directory, which may be the one of a URL
+func joinPath(dir, name string) string {
+	if strings.Contains(dir, "://") {
+		return strings.TrimSuffix(dir, "/") + "/" + name
+	}
+	return path.Join(dir, name)
 }
-- 
2.43.0


From 9c2dd75dfaa4fe10e7f2767ced0f8e3540c091f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 105/117] fix: no stray quote in icons without label

---
 pkg/renderer/sgml/html5/icon.go  | 2 +-
 pkg/renderer/sgml/xhtml5/icon.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index d9a35a5..c35eeda 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -12,7 +12,7 @@ const (
 		`</span>`
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index d431554..a9202e6 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -9,7 +9,7 @@ const (
 	// Only the img tag needs to be made XHTML safe.
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
-- 
2.43.0


From 75b699a6cad497cfa771734e24e9dcc858b19b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 106/117] fix: close the row of the last term of horizontal
 lists when it has no description

---
 pkg/renderer/sgml/html5/labeled_list.go  | 2 +-
 pkg/renderer/sgml/list.go                | 8 +++++---
 pkg/renderer/sgml/xhtml5/labeled_list.go | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/html5/labeled_list.go b/pkg/renderer/sgml/html5/labeled_list.go
index cc03070..d5459c1 100644
--- a/pkg/renderer/sgml/html5/labeled_list.go
+++ b/pkg/renderer/sgml/html5/labeled_list.go
@@ -20,7 +20,7 @@ const (
 	labeledListHorizontalElementTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 
 	qAndAListTmpl = "<div{{ if .ID }} id=\"{{ .ID }}\"{{ end }} " +
 		"class=\"qlist qanda{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index a7cf6ad..898e9e5 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -205,12 +205,12 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 
 	content := &strings.Builder{}
 	cont := false
-	for _, element := range l.Elements {
+	for i, element := range l.Elements {
 		e, ok := element.(*types.LabeledListElement)
 		if !ok {
 			return "", errors.Errorf("unable to render labeled list element of type '%T'", element)
 		}
-		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, e); err != nil {
+		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, i == len(l.Elements)-1, e); err != nil {
 			return "", errors.Wrap(err, "unable to render labeled list")
 		}
 	}
@@ -281,7 +281,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 	return listTmpl, listElementTmpl, nil
 }
 
-func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, element *types.LabeledListElement) (bool, error) {
+func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation, last bool, element *types.LabeledListElement) (bool, error) {
 
 	term, err := r.renderInlineElements(ctx, element.Term)
 	if err != nil {
@@ -296,10 +296,12 @@ func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Te
 		Term         string
 		Content      string
 		Continuation bool
+		Last         bool
 	}{
 		Context:      ctx,
 		Term:         string(term),
 		Continuation: continuation,
+		Last:         last,
 		Content:      string(content),
 	})
 	return content == "", err
diff --git a/pkg/renderer/sgml/xhtml5/labeled_list.go b/pkg/renderer/sgml/xhtml5/labeled_list.go
index 7933bb4..408f2d7 100644
--- a/pkg/renderer/sgml/xhtml5/labeled_list.go
+++ b/pkg/renderer/sgml/xhtml5/labeled_list.go
@@ -4,5 +4,5 @@ const (
 	labeledListHorizontalItemTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br/>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 )
-- 
2.43.0


From 3aa229ca981f7535ffdb743bc45e069f9db53663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 107/117] fix: a single break in lines with a mark when all
 lines have one

---
 pkg/renderer/sgml/paragraph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 654a83b..186964b 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -178,6 +178,8 @@ func (r *sgmlRenderer) renderParagraphElements(ctx *context, p *types.Paragraph)
 			return "", errors.Wrap(err, "unable to render line break")
 		}
 		result = strings.ReplaceAll(result, "\n", linebreak.String()+"\n")
+		// (the lines which already had a break have a single one)
+		result = strings.ReplaceAll(result, linebreak.String()+linebreak.String()+"\n", linebreak.String()+"\n")
 	}
 	return result, nil
 }
-- 
2.43.0


From d5737408c163fb30e9fcf76310ba06936cccb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:15 +0000
Subject: [PATCH 108/117] fix: break the lines of the items of lists and of
 embedded paragraphs, too

---
 pkg/renderer/sgml/paragraph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 186964b..a019105 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -83,7 +83,7 @@ func (r *sgmlRenderer) renderManpageNameParagraph(ctx *context, p *types.Paragra
 }
 
 func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph, class string) (string, error) {
-	content, err := r.renderElements(ctx, p.Elements)
+	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render embedded paragraph content")
 	}
-- 
2.43.0


From 9a648e55a8666a96e46d402df2037346bb4ab833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:42 +0000
Subject: [PATCH 109/117] fix: escape the roles of inline icons

---
 pkg/renderer/sgml/icon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 3e4b432..db45862 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -35,7 +35,7 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID:     r.renderElementID(icon.Attributes),
 		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
 		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
-		Role:   roles,
+		Role:   escapeString(roles),
 	})
 }
 
-- 
2.43.0


From 1b202e786c052aeaee3571f3d05194a5d768c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:35 +0000
Subject: [PATCH 110/117] fix: no passthrough which starts right after a letter
 or a digit

---
 pkg/parser/parser.go  | 12893 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     6 +-
 2 files changed, 6459 insertions(+), 6440 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 1469ba0..14efd0d 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93627},
+																pos: position{line: 2955, col: 12, offset: 93691},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93628},
+																	pos: position{line: 2955, col: 13, offset: 93692},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93628},
+																			pos: position{line: 2955, col: 13, offset: 93692},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93628},
+																				pos:        position{line: 2955, col: 13, offset: 93692},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93633},
+																			pos: position{line: 2955, col: 18, offset: 93697},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93633},
+																				pos:        position{line: 2955, col: 18, offset: 93697},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93627},
+																pos: position{line: 2955, col: 12, offset: 93691},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93628},
+																	pos: position{line: 2955, col: 13, offset: 93692},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93628},
+																			pos: position{line: 2955, col: 13, offset: 93692},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93628},
+																				pos:        position{line: 2955, col: 13, offset: 93692},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93633},
+																			pos: position{line: 2955, col: 18, offset: 93697},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93633},
+																				pos:        position{line: 2955, col: 18, offset: 93697},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89748},
+														pos:        position{line: 2817, col: 13, offset: 89812},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93861},
+													pos: position{line: 2967, col: 11, offset: 93925},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93861},
+														pos: position{line: 2967, col: 11, offset: 93925},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93861},
+															pos:        position{line: 2967, col: 11, offset: 93925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2882, col: 14, offset: 91554},
+													pos: position{line: 2886, col: 14, offset: 91618},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 14, offset: 91554},
+														pos: position{line: 2886, col: 14, offset: 91618},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 14, offset: 91554},
+															pos:        position{line: 2886, col: 14, offset: 91618},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 17, offset: 91624},
+												pos: position{line: 2890, col: 17, offset: 91688},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2886, col: 17, offset: 91624},
+													pos:   position{line: 2890, col: 17, offset: 91688},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93627},
+																				pos: position{line: 2955, col: 12, offset: 93691},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93628},
+																					pos: position{line: 2955, col: 13, offset: 93692},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93628},
+																							pos: position{line: 2955, col: 13, offset: 93692},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93628},
+																								pos:        position{line: 2955, col: 13, offset: 93692},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93633},
+																							pos: position{line: 2955, col: 18, offset: 93697},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93633},
+																								pos:        position{line: 2955, col: 18, offset: 93697},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2951, col: 12, offset: 93627},
+																				pos: position{line: 2955, col: 12, offset: 93691},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2951, col: 13, offset: 93628},
+																					pos: position{line: 2955, col: 13, offset: 93692},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2951, col: 13, offset: 93628},
+																							pos: position{line: 2955, col: 13, offset: 93692},
 																							expr: &litMatcher{
-																								pos:        position{line: 2951, col: 13, offset: 93628},
+																								pos:        position{line: 2955, col: 13, offset: 93692},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2951, col: 18, offset: 93633},
+																							pos: position{line: 2955, col: 18, offset: 93697},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2951, col: 18, offset: 93633},
+																								pos:        position{line: 2955, col: 18, offset: 93697},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93627},
+																		pos: position{line: 2955, col: 12, offset: 93691},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93628},
+																			pos: position{line: 2955, col: 13, offset: 93692},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93628},
+																					pos: position{line: 2955, col: 13, offset: 93692},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93628},
+																						pos:        position{line: 2955, col: 13, offset: 93692},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93633},
+																					pos: position{line: 2955, col: 18, offset: 93697},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93633},
+																						pos:        position{line: 2955, col: 18, offset: 93697},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93627},
+																									pos: position{line: 2955, col: 12, offset: 93691},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93628},
+																										pos: position{line: 2955, col: 13, offset: 93692},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93628},
+																												pos: position{line: 2955, col: 13, offset: 93692},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93628},
+																													pos:        position{line: 2955, col: 13, offset: 93692},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93633},
+																												pos: position{line: 2955, col: 18, offset: 93697},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93633},
+																													pos:        position{line: 2955, col: 18, offset: 93697},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2951, col: 12, offset: 93627},
+																									pos: position{line: 2955, col: 12, offset: 93691},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2951, col: 13, offset: 93628},
+																										pos: position{line: 2955, col: 13, offset: 93692},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2951, col: 13, offset: 93628},
+																												pos: position{line: 2955, col: 13, offset: 93692},
 																												expr: &litMatcher{
-																													pos:        position{line: 2951, col: 13, offset: 93628},
+																													pos:        position{line: 2955, col: 13, offset: 93692},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2951, col: 18, offset: 93633},
+																												pos: position{line: 2955, col: 18, offset: 93697},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2951, col: 18, offset: 93633},
+																													pos:        position{line: 2955, col: 18, offset: 93697},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2951, col: 12, offset: 93627},
+																							pos: position{line: 2955, col: 12, offset: 93691},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2951, col: 13, offset: 93628},
+																								pos: position{line: 2955, col: 13, offset: 93692},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2951, col: 13, offset: 93628},
+																										pos: position{line: 2955, col: 13, offset: 93692},
 																										expr: &litMatcher{
-																											pos:        position{line: 2951, col: 13, offset: 93628},
+																											pos:        position{line: 2955, col: 13, offset: 93692},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2951, col: 18, offset: 93633},
+																										pos: position{line: 2955, col: 18, offset: 93697},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2951, col: 18, offset: 93633},
+																											pos:        position{line: 2955, col: 18, offset: 93697},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93627},
+														pos: position{line: 2955, col: 12, offset: 93691},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93628},
+															pos: position{line: 2955, col: 13, offset: 93692},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93628},
+																	pos: position{line: 2955, col: 13, offset: 93692},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93628},
+																		pos:        position{line: 2955, col: 13, offset: 93692},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93633},
+																	pos: position{line: 2955, col: 18, offset: 93697},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93633},
+																		pos:        position{line: 2955, col: 18, offset: 93697},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2951, col: 12, offset: 93627},
+														pos: position{line: 2955, col: 12, offset: 93691},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2951, col: 13, offset: 93628},
+															pos: position{line: 2955, col: 13, offset: 93692},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2951, col: 13, offset: 93628},
+																	pos: position{line: 2955, col: 13, offset: 93692},
 																	expr: &litMatcher{
-																		pos:        position{line: 2951, col: 13, offset: 93628},
+																		pos:        position{line: 2955, col: 13, offset: 93692},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2951, col: 18, offset: 93633},
+																	pos: position{line: 2955, col: 18, offset: 93697},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2951, col: 18, offset: 93633},
+																		pos:        position{line: 2955, col: 18, offset: 93697},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2951, col: 12, offset: 93627},
+												pos: position{line: 2955, col: 12, offset: 93691},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2951, col: 13, offset: 93628},
+													pos: position{line: 2955, col: 13, offset: 93692},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2951, col: 13, offset: 93628},
+															pos: position{line: 2955, col: 13, offset: 93692},
 															expr: &litMatcher{
-																pos:        position{line: 2951, col: 13, offset: 93628},
+																pos:        position{line: 2955, col: 13, offset: 93692},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2951, col: 18, offset: 93633},
+															pos: position{line: 2955, col: 18, offset: 93697},
 															expr: &charClassMatcher{
-																pos:        position{line: 2951, col: 18, offset: 93633},
+																pos:        position{line: 2955, col: 18, offset: 93697},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2817, col: 14, offset: 89822},
+																		pos: position{line: 2821, col: 14, offset: 89886},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2817, col: 14, offset: 89822},
+																			pos: position{line: 2821, col: 14, offset: 89886},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89822},
+																				pos:        position{line: 2821, col: 14, offset: 89886},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89822},
+																				pos: position{line: 2821, col: 14, offset: 89886},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89822},
+																					pos: position{line: 2821, col: 14, offset: 89886},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89822},
+																						pos:        position{line: 2821, col: 14, offset: 89886},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2817, col: 14, offset: 89822},
+																							pos: position{line: 2821, col: 14, offset: 89886},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2817, col: 14, offset: 89822},
+																								pos: position{line: 2821, col: 14, offset: 89886},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2817, col: 14, offset: 89822},
+																									pos:        position{line: 2821, col: 14, offset: 89886},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2817, col: 14, offset: 89822},
+																									pos: position{line: 2821, col: 14, offset: 89886},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2817, col: 14, offset: 89822},
+																										pos: position{line: 2821, col: 14, offset: 89886},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2817, col: 14, offset: 89822},
+																											pos:        position{line: 2821, col: 14, offset: 89886},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89822},
+																pos: position{line: 2821, col: 14, offset: 89886},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89822},
+																	pos: position{line: 2821, col: 14, offset: 89886},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89822},
+																		pos:        position{line: 2821, col: 14, offset: 89886},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2817, col: 14, offset: 89822},
+																pos: position{line: 2821, col: 14, offset: 89886},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2817, col: 14, offset: 89822},
+																	pos: position{line: 2821, col: 14, offset: 89886},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2817, col: 14, offset: 89822},
+																		pos:        position{line: 2821, col: 14, offset: 89886},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2976, col: 11, offset: 94134},
+														pos: position{line: 2980, col: 11, offset: 94198},
 														expr: &anyMatcher{
-															line: 2976, col: 13, offset: 94136,
+															line: 2980, col: 13, offset: 94200,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91554},
+																			pos: position{line: 2886, col: 14, offset: 91618},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91554},
+																				pos: position{line: 2886, col: 14, offset: 91618},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91554},
+																					pos:        position{line: 2886, col: 14, offset: 91618},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2976, col: 11, offset: 94134},
+																									pos: position{line: 2980, col: 11, offset: 94198},
 																									expr: &anyMatcher{
-																										line: 2976, col: 13, offset: 94136,
+																										line: 2980, col: 13, offset: 94200,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91554},
+																						pos: position{line: 2886, col: 14, offset: 91618},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91554},
+																							pos: position{line: 2886, col: 14, offset: 91618},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91554},
+																								pos:        position{line: 2886, col: 14, offset: 91618},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1824, col: 5, offset: 59001},
+																		pos: position{line: 1828, col: 5, offset: 59065},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1824, col: 5, offset: 59001},
+																			pos: position{line: 1828, col: 5, offset: 59065},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1824, col: 5, offset: 59001},
+																					pos:   position{line: 1828, col: 5, offset: 59065},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2882, col: 14, offset: 91554},
+																						pos: position{line: 2886, col: 14, offset: 91618},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2882, col: 14, offset: 91554},
+																							pos: position{line: 2886, col: 14, offset: 91618},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2882, col: 14, offset: 91554},
+																								pos:        position{line: 2886, col: 14, offset: 91618},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1825, col: 5, offset: 59025},
+																					pos: position{line: 1829, col: 5, offset: 59089},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2764, col: 18, offset: 88107},
+											pos: position{line: 2768, col: 18, offset: 88171},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2765, col: 9, offset: 88117},
+												pos: position{line: 2769, col: 9, offset: 88181},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2765, col: 9, offset: 88117},
+														pos: position{line: 2769, col: 9, offset: 88181},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 88117},
+																pos:        position{line: 2769, col: 9, offset: 88181},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2765, col: 15, offset: 88123},
+																pos: position{line: 2769, col: 15, offset: 88187},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2766, col: 11, offset: 88156},
+														pos: position{line: 2770, col: 11, offset: 88220},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2766, col: 12, offset: 88157},
+																pos: position{line: 2770, col: 12, offset: 88221},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 12, offset: 88157},
+																		pos:        position{line: 2770, col: 12, offset: 88221},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 20, offset: 88165},
+																		pos:        position{line: 2770, col: 20, offset: 88229},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 30, offset: 88175},
+																		pos:        position{line: 2770, col: 30, offset: 88239},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 38, offset: 88183},
+																		pos:        position{line: 2770, col: 38, offset: 88247},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 48, offset: 88193},
+																		pos:        position{line: 2770, col: 48, offset: 88257},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2766, col: 56, offset: 88201},
+																		pos:        position{line: 2770, col: 56, offset: 88265},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2766, col: 65, offset: 88210},
+																pos: position{line: 2770, col: 65, offset: 88274},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2766, col: 76, offset: 88221},
+																pos: position{line: 2770, col: 76, offset: 88285},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2655, col: 5, offset: 85043},
+											pos: position{line: 2659, col: 5, offset: 85107},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2655, col: 5, offset: 85043},
+												pos: position{line: 2659, col: 5, offset: 85107},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2661, col: 19, offset: 85200},
+														pos:        position{line: 2665, col: 19, offset: 85264},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2661, col: 26, offset: 85207},
+														pos: position{line: 2665, col: 26, offset: 85271},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2656, col: 5, offset: 85067},
+														pos:   position{line: 2660, col: 5, offset: 85131},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2656, col: 11, offset: 85073},
+															pos: position{line: 2660, col: 11, offset: 85137},
 															expr: &choiceExpr{
-																pos: position{line: 2656, col: 12, offset: 85074},
+																pos: position{line: 2660, col: 12, offset: 85138},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94134},
+																					pos: position{line: 2980, col: 11, offset: 94198},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94136,
+																						line: 2980, col: 13, offset: 94200,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2668, col: 5, offset: 85319},
+																		pos: position{line: 2672, col: 5, offset: 85383},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2668, col: 5, offset: 85319},
+																			pos: position{line: 2672, col: 5, offset: 85383},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2668, col: 5, offset: 85319},
+																					pos: position{line: 2672, col: 5, offset: 85383},
 																					expr: &choiceExpr{
-																						pos: position{line: 2665, col: 22, offset: 85280},
+																						pos: position{line: 2669, col: 22, offset: 85344},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2661, col: 19, offset: 85200},
+																								pos: position{line: 2665, col: 19, offset: 85264},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2661, col: 19, offset: 85200},
+																										pos:        position{line: 2665, col: 19, offset: 85264},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2661, col: 26, offset: 85207},
+																										pos: position{line: 2665, col: 26, offset: 85271},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94198},
+																										pos: position{line: 2985, col: 8, offset: 94262},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93971},
+																												pos: position{line: 2972, col: 12, offset: 94035},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93972},
+																													pos: position{line: 2972, col: 13, offset: 94036},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93972},
+																															pos:        position{line: 2972, col: 13, offset: 94036},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93979},
+																															pos:        position{line: 2972, col: 20, offset: 94043},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93988},
+																															pos:        position{line: 2972, col: 29, offset: 94052},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94148},
+																												pos: position{line: 2982, col: 8, offset: 94212},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94149,
+																													line: 2982, col: 9, offset: 94213,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2669, col: 5, offset: 85342},
+																					pos:   position{line: 2673, col: 5, offset: 85406},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2670, col: 9, offset: 85360},
+																						pos: position{line: 2674, col: 9, offset: 85424},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2670, col: 10, offset: 85361},
+																								pos: position{line: 2674, col: 10, offset: 85425},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2670, col: 10, offset: 85361},
+																									pos:   position{line: 2674, col: 10, offset: 85425},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2670, col: 17, offset: 85368},
+																										pos: position{line: 2674, col: 17, offset: 85432},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2678, col: 21, offset: 85564},
+																												pos: position{line: 2682, col: 21, offset: 85628},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2678, col: 21, offset: 85564},
+																													pos: position{line: 2682, col: 21, offset: 85628},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2678, col: 21, offset: 85564},
+																															pos:   position{line: 2682, col: 21, offset: 85628},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2678, col: 27, offset: 85570},
+																																pos: position{line: 2682, col: 27, offset: 85634},
 																																expr: &actionExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85645},
+																																	pos: position{line: 2687, col: 5, offset: 85709},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2683, col: 5, offset: 85645},
+																																		pos: position{line: 2687, col: 5, offset: 85709},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2683, col: 5, offset: 85645},
+																																				pos:        position{line: 2687, col: 5, offset: 85709},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2683, col: 9, offset: 85649},
+																																				pos: position{line: 2687, col: 9, offset: 85713},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2959, col: 10, offset: 93800},
+																																					pos: position{line: 2963, col: 10, offset: 93864},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2959, col: 10, offset: 93800},
+																																						pos:        position{line: 2963, col: 10, offset: 93864},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2683, col: 16, offset: 85656},
+																																				pos:   position{line: 2687, col: 16, offset: 85720},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2689, col: 5, offset: 85856},
+																																					pos: position{line: 2693, col: 5, offset: 85920},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2689, col: 5, offset: 85856},
+																																						pos:   position{line: 2693, col: 5, offset: 85920},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85865},
+																																							pos: position{line: 2693, col: 14, offset: 85929},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2689, col: 14, offset: 85865},
+																																								pos: position{line: 2693, col: 14, offset: 85929},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2689, col: 14, offset: 85865},
+																																									pos:        position{line: 2693, col: 14, offset: 85929},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2981, col: 8, offset: 94198},
+																															pos: position{line: 2985, col: 8, offset: 94262},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2968, col: 12, offset: 93971},
+																																	pos: position{line: 2972, col: 12, offset: 94035},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2968, col: 13, offset: 93972},
+																																		pos: position{line: 2972, col: 13, offset: 94036},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 13, offset: 93972},
+																																				pos:        position{line: 2972, col: 13, offset: 94036},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 20, offset: 93979},
+																																				pos:        position{line: 2972, col: 20, offset: 94043},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2968, col: 29, offset: 93988},
+																																				pos:        position{line: 2972, col: 29, offset: 94052},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2978, col: 8, offset: 94148},
+																																	pos: position{line: 2982, col: 8, offset: 94212},
 																																	expr: &anyMatcher{
-																																		line: 2978, col: 9, offset: 94149,
+																																		line: 2982, col: 9, offset: 94213,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2695, col: 24, offset: 86001},
+																												pos: position{line: 2699, col: 24, offset: 86065},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2695, col: 24, offset: 86001},
+																													pos:   position{line: 2699, col: 24, offset: 86065},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2695, col: 30, offset: 86007},
+																														pos: position{line: 2699, col: 30, offset: 86071},
 																														expr: &actionExpr{
-																															pos: position{line: 2700, col: 5, offset: 86083},
+																															pos: position{line: 2704, col: 5, offset: 86147},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2700, col: 5, offset: 86083},
+																																pos: position{line: 2704, col: 5, offset: 86147},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2700, col: 5, offset: 86083},
+																																		pos: position{line: 2704, col: 5, offset: 86147},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2665, col: 22, offset: 85280},
+																																			pos: position{line: 2669, col: 22, offset: 85344},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2661, col: 19, offset: 85200},
+																																					pos: position{line: 2665, col: 19, offset: 85264},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2661, col: 19, offset: 85200},
+																																							pos:        position{line: 2665, col: 19, offset: 85264},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2661, col: 26, offset: 85207},
+																																							pos: position{line: 2665, col: 26, offset: 85271},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2959, col: 10, offset: 93800},
+																																								pos: position{line: 2963, col: 10, offset: 93864},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2959, col: 10, offset: 93800},
+																																									pos:        position{line: 2963, col: 10, offset: 93864},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94198},
+																																							pos: position{line: 2985, col: 8, offset: 94262},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93971},
+																																									pos: position{line: 2972, col: 12, offset: 94035},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93972},
+																																										pos: position{line: 2972, col: 13, offset: 94036},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93972},
+																																												pos:        position{line: 2972, col: 13, offset: 94036},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93979},
+																																												pos:        position{line: 2972, col: 20, offset: 94043},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93988},
+																																												pos:        position{line: 2972, col: 29, offset: 94052},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94148},
+																																									pos: position{line: 2982, col: 8, offset: 94212},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94149,
+																																										line: 2982, col: 9, offset: 94213,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2978, col: 8, offset: 94148},
+																																					pos: position{line: 2982, col: 8, offset: 94212},
 																																					expr: &anyMatcher{
-																																						line: 2978, col: 9, offset: 94149,
+																																						line: 2982, col: 9, offset: 94213,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2701, col: 5, offset: 86106},
+																																		pos: position{line: 2705, col: 5, offset: 86170},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2976, col: 11, offset: 94134},
+																																						pos: position{line: 2980, col: 11, offset: 94198},
 																																						expr: &anyMatcher{
-																																							line: 2976, col: 13, offset: 94136,
+																																							line: 2980, col: 13, offset: 94200,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93800},
+																																							pos: position{line: 2963, col: 10, offset: 93864},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93800},
+																																								pos:        position{line: 2963, col: 10, offset: 93864},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94198},
+																																						pos: position{line: 2985, col: 8, offset: 94262},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93971},
+																																								pos: position{line: 2972, col: 12, offset: 94035},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93972},
+																																									pos: position{line: 2972, col: 13, offset: 94036},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93972},
+																																											pos:        position{line: 2972, col: 13, offset: 94036},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93979},
+																																											pos:        position{line: 2972, col: 20, offset: 94043},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93988},
+																																											pos:        position{line: 2972, col: 29, offset: 94052},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94148},
+																																								pos: position{line: 2982, col: 8, offset: 94212},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94149,
+																																									line: 2982, col: 9, offset: 94213,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 5, offset: 86121},
+																																		pos:   position{line: 2706, col: 5, offset: 86185},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2702, col: 12, offset: 86128},
+																																			pos: position{line: 2706, col: 12, offset: 86192},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86592},
+																																				pos: position{line: 2723, col: 20, offset: 86656},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2719, col: 20, offset: 86592},
+																																					pos: position{line: 2723, col: 20, offset: 86656},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2719, col: 20, offset: 86592},
+																																						pos:        position{line: 2723, col: 20, offset: 86656},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2702, col: 31, offset: 86147},
+																																		pos:        position{line: 2706, col: 31, offset: 86211},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2702, col: 35, offset: 86151},
+																																		pos: position{line: 2706, col: 35, offset: 86215},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2959, col: 10, offset: 93800},
+																																			pos: position{line: 2963, col: 10, offset: 93864},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2959, col: 10, offset: 93800},
+																																				pos:        position{line: 2963, col: 10, offset: 93864},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 42, offset: 86158},
+																																		pos: position{line: 2706, col: 42, offset: 86222},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2968, col: 12, offset: 93971},
+																																			pos: position{line: 2972, col: 12, offset: 94035},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2968, col: 13, offset: 93972},
+																																				pos: position{line: 2972, col: 13, offset: 94036},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 13, offset: 93972},
+																																						pos:        position{line: 2972, col: 13, offset: 94036},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 20, offset: 93979},
+																																						pos:        position{line: 2972, col: 20, offset: 94043},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2968, col: 29, offset: 93988},
+																																						pos:        position{line: 2972, col: 29, offset: 94052},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2702, col: 51, offset: 86167},
+																																		pos:   position{line: 2706, col: 51, offset: 86231},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2708, col: 5, offset: 86326},
+																																			pos: position{line: 2712, col: 5, offset: 86390},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86336},
+																																				pos: position{line: 2713, col: 9, offset: 86400},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2709, col: 9, offset: 86336},
+																																					pos: position{line: 2713, col: 9, offset: 86400},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2709, col: 9, offset: 86336},
+																																							pos: position{line: 2713, col: 9, offset: 86400},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2665, col: 22, offset: 85280},
+																																								pos: position{line: 2669, col: 22, offset: 85344},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2661, col: 19, offset: 85200},
+																																										pos: position{line: 2665, col: 19, offset: 85264},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2661, col: 19, offset: 85200},
+																																												pos:        position{line: 2665, col: 19, offset: 85264},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2661, col: 26, offset: 85207},
+																																												pos: position{line: 2665, col: 26, offset: 85271},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2959, col: 10, offset: 93800},
+																																													pos: position{line: 2963, col: 10, offset: 93864},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2959, col: 10, offset: 93800},
+																																														pos:        position{line: 2963, col: 10, offset: 93864},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2981, col: 8, offset: 94198},
+																																												pos: position{line: 2985, col: 8, offset: 94262},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2968, col: 12, offset: 93971},
+																																														pos: position{line: 2972, col: 12, offset: 94035},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2968, col: 13, offset: 93972},
+																																															pos: position{line: 2972, col: 13, offset: 94036},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2978, col: 8, offset: 94148},
+																																														pos: position{line: 2982, col: 8, offset: 94212},
 																																														expr: &anyMatcher{
-																																															line: 2978, col: 9, offset: 94149,
+																																															line: 2982, col: 9, offset: 94213,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94148},
+																																										pos: position{line: 2982, col: 8, offset: 94212},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94149,
+																																											line: 2982, col: 9, offset: 94213,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2710, col: 9, offset: 86363},
+																																							pos: position{line: 2714, col: 9, offset: 86427},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2976, col: 11, offset: 94134},
+																																											pos: position{line: 2980, col: 11, offset: 94198},
 																																											expr: &anyMatcher{
-																																												line: 2976, col: 13, offset: 94136,
+																																												line: 2980, col: 13, offset: 94200,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93800},
+																																												pos: position{line: 2963, col: 10, offset: 93864},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93800},
+																																													pos:        position{line: 2963, col: 10, offset: 93864},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94198},
+																																											pos: position{line: 2985, col: 8, offset: 94262},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93971},
+																																													pos: position{line: 2972, col: 12, offset: 94035},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93972},
+																																														pos: position{line: 2972, col: 13, offset: 94036},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94148},
+																																													pos: position{line: 2982, col: 8, offset: 94212},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94149,
+																																														line: 2982, col: 9, offset: 94213,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2711, col: 9, offset: 86382},
+																																							pos: position{line: 2715, col: 9, offset: 86446},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2711, col: 11, offset: 86384},
+																																								pos: position{line: 2715, col: 11, offset: 86448},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2711, col: 11, offset: 86384},
+																																										pos:   position{line: 2715, col: 11, offset: 86448},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2711, col: 18, offset: 86391},
+																																											pos: position{line: 2715, col: 18, offset: 86455},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86592},
+																																												pos: position{line: 2723, col: 20, offset: 86656},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2719, col: 20, offset: 86592},
+																																													pos: position{line: 2723, col: 20, offset: 86656},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2719, col: 20, offset: 86592},
+																																														pos:        position{line: 2723, col: 20, offset: 86656},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2711, col: 37, offset: 86410},
+																																										pos:        position{line: 2715, col: 37, offset: 86474},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2712, col: 9, offset: 86423},
+																																							pos:   position{line: 2716, col: 9, offset: 86487},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86432},
+																																								pos: position{line: 2716, col: 18, offset: 86496},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2712, col: 18, offset: 86432},
+																																									pos: position{line: 2716, col: 18, offset: 86496},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2712, col: 18, offset: 86432},
+																																										pos:        position{line: 2716, col: 18, offset: 86496},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2714, col: 12, offset: 86494},
+																																							pos: position{line: 2718, col: 12, offset: 86558},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2981, col: 8, offset: 94198},
+																																								pos: position{line: 2985, col: 8, offset: 94262},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2968, col: 12, offset: 93971},
+																																										pos: position{line: 2972, col: 12, offset: 94035},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2968, col: 13, offset: 93972},
+																																											pos: position{line: 2972, col: 13, offset: 94036},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 13, offset: 93972},
+																																													pos:        position{line: 2972, col: 13, offset: 94036},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 20, offset: 93979},
+																																													pos:        position{line: 2972, col: 20, offset: 94043},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2968, col: 29, offset: 93988},
+																																													pos:        position{line: 2972, col: 29, offset: 94052},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2978, col: 8, offset: 94148},
+																																										pos: position{line: 2982, col: 8, offset: 94212},
 																																										expr: &anyMatcher{
-																																											line: 2978, col: 9, offset: 94149,
+																																											line: 2982, col: 9, offset: 94213,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94134},
+																											pos: position{line: 2980, col: 11, offset: 94198},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94136,
+																												line: 2980, col: 13, offset: 94200,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2665, col: 22, offset: 85280},
+														pos: position{line: 2669, col: 22, offset: 85344},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85200},
+																pos: position{line: 2665, col: 19, offset: 85264},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85200},
+																		pos:        position{line: 2665, col: 19, offset: 85264},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85207},
+																		pos: position{line: 2665, col: 26, offset: 85271},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81443},
+												pos: position{line: 2530, col: 22, offset: 81507},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81664},
+														pos:        position{line: 2535, col: 31, offset: 81728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81669},
+														pos: position{line: 2535, col: 36, offset: 81733},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81670},
+															pos:        position{line: 2535, col: 37, offset: 81734},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81470},
+														pos:   position{line: 2530, col: 49, offset: 81534},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91487},
+																pos: position{line: 2882, col: 13, offset: 91551},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91487},
+																	pos:        position{line: 2882, col: 13, offset: 91551},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94198},
+																										pos: position{line: 2985, col: 8, offset: 94262},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93971},
+																												pos: position{line: 2972, col: 12, offset: 94035},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93972},
+																													pos: position{line: 2972, col: 13, offset: 94036},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93972},
+																															pos:        position{line: 2972, col: 13, offset: 94036},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93979},
+																															pos:        position{line: 2972, col: 20, offset: 94043},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93988},
+																															pos:        position{line: 2972, col: 29, offset: 94052},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94148},
+																												pos: position{line: 2982, col: 8, offset: 94212},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94149,
+																													line: 2982, col: 9, offset: 94213,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2963, col: 11, offset: 93861},
+												pos: position{line: 2967, col: 11, offset: 93925},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2963, col: 11, offset: 93861},
+													pos: position{line: 2967, col: 11, offset: 93925},
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 11, offset: 93861},
+														pos:        position{line: 2967, col: 11, offset: 93925},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93971},
+												pos: position{line: 2972, col: 12, offset: 94035},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93972},
+													pos: position{line: 2972, col: 13, offset: 94036},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93972},
+															pos:        position{line: 2972, col: 13, offset: 94036},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93979},
+															pos:        position{line: 2972, col: 20, offset: 94043},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93988},
+															pos:        position{line: 2972, col: 29, offset: 94052},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93800},
+													pos: position{line: 2963, col: 10, offset: 93864},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93800},
+														pos:        position{line: 2963, col: 10, offset: 93864},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93800},
+											pos: position{line: 2963, col: 10, offset: 93864},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93800},
+												pos:        position{line: 2963, col: 10, offset: 93864},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2981, col: 8, offset: 94198},
+										pos: position{line: 2985, col: 8, offset: 94262},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93971},
+												pos: position{line: 2972, col: 12, offset: 94035},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93972},
+													pos: position{line: 2972, col: 13, offset: 94036},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93972},
+															pos:        position{line: 2972, col: 13, offset: 94036},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93979},
+															pos:        position{line: 2972, col: 20, offset: 94043},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93988},
+															pos:        position{line: 2972, col: 29, offset: 94052},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94148},
+												pos: position{line: 2982, col: 8, offset: 94212},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94149,
+													line: 2982, col: 9, offset: 94213,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80989},
+										pos: position{line: 2517, col: 5, offset: 81053},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80989},
+													pos: position{line: 2517, col: 5, offset: 81053},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 81065},
+													pos:   position{line: 2520, col: 5, offset: 81129},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81083},
+														pos: position{line: 2521, col: 9, offset: 81147},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81084},
+															pos:        position{line: 2521, col: 10, offset: 81148},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93800},
+										pos: position{line: 2963, col: 10, offset: 93864},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93800},
+											pos:        position{line: 2963, col: 10, offset: 93864},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93800},
+													pos: position{line: 2963, col: 10, offset: 93864},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93800},
+														pos:        position{line: 2963, col: 10, offset: 93864},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94198},
+												pos: position{line: 2985, col: 8, offset: 94262},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93971},
+														pos: position{line: 2972, col: 12, offset: 94035},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93972},
+															pos: position{line: 2972, col: 13, offset: 94036},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93972},
+																	pos:        position{line: 2972, col: 13, offset: 94036},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93979},
+																	pos:        position{line: 2972, col: 20, offset: 94043},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93988},
+																	pos:        position{line: 2972, col: 29, offset: 94052},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94148},
+														pos: position{line: 2982, col: 8, offset: 94212},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94149,
+															line: 2982, col: 9, offset: 94213,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94134},
+																pos: position{line: 2980, col: 11, offset: 94198},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94136,
+																	line: 2980, col: 13, offset: 94200,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2817, col: 14, offset: 89822},
+																				pos: position{line: 2821, col: 14, offset: 89886},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2817, col: 14, offset: 89822},
+																					pos: position{line: 2821, col: 14, offset: 89886},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2817, col: 14, offset: 89822},
+																						pos:        position{line: 2821, col: 14, offset: 89886},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2849, col: 5, offset: 90615},
+																				pos: position{line: 2853, col: 5, offset: 90679},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2850, col: 9, offset: 90625},
+																					pos: position{line: 2854, col: 9, offset: 90689},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90626},
+																							pos:        position{line: 2854, col: 10, offset: 90690},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2852, col: 13, offset: 90723},
+																							pos: position{line: 2856, col: 13, offset: 90787},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2852, col: 13, offset: 90723},
+																									pos: position{line: 2856, col: 13, offset: 90787},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2855, col: 13, offset: 90823},
+																									pos:        position{line: 2859, col: 13, offset: 90887},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2855, col: 19, offset: 90829},
+																							pos:        position{line: 2859, col: 19, offset: 90893},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2858, col: 13, offset: 90867},
+																							pos: position{line: 2862, col: 13, offset: 90931},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2858, col: 13, offset: 90867},
+																									pos: position{line: 2862, col: 13, offset: 90931},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2861, col: 14, offset: 90960},
+																									pos:        position{line: 2865, col: 14, offset: 91024},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2863, col: 12, offset: 91004},
+																							pos: position{line: 2867, col: 12, offset: 91068},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2863, col: 12, offset: 91004},
+																									pos:        position{line: 2867, col: 12, offset: 91068},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2863, col: 16, offset: 91008},
+																									pos: position{line: 2867, col: 16, offset: 91072},
 																									expr: &litMatcher{
-																										pos:        position{line: 2863, col: 17, offset: 91009},
+																										pos:        position{line: 2867, col: 17, offset: 91073},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 91269},
+																				pos: position{line: 2875, col: 12, offset: 91333},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2871, col: 12, offset: 91269},
+																					pos:        position{line: 2875, col: 12, offset: 91333},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93800},
+													pos: position{line: 2963, col: 10, offset: 93864},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93800},
+														pos:        position{line: 2963, col: 10, offset: 93864},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94198},
+												pos: position{line: 2985, col: 8, offset: 94262},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93971},
+														pos: position{line: 2972, col: 12, offset: 94035},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93972},
+															pos: position{line: 2972, col: 13, offset: 94036},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93972},
+																	pos:        position{line: 2972, col: 13, offset: 94036},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93979},
+																	pos:        position{line: 2972, col: 20, offset: 94043},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93988},
+																	pos:        position{line: 2972, col: 29, offset: 94052},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94148},
+														pos: position{line: 2982, col: 8, offset: 94212},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94149,
+															line: 2982, col: 9, offset: 94213,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94134},
+																pos: position{line: 2980, col: 11, offset: 94198},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94136,
+																	line: 2980, col: 13, offset: 94200,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93800},
+													pos: position{line: 2963, col: 10, offset: 93864},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93800},
+														pos:        position{line: 2963, col: 10, offset: 93864},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94198},
+												pos: position{line: 2985, col: 8, offset: 94262},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93971},
+														pos: position{line: 2972, col: 12, offset: 94035},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93972},
+															pos: position{line: 2972, col: 13, offset: 94036},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93972},
+																	pos:        position{line: 2972, col: 13, offset: 94036},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93979},
+																	pos:        position{line: 2972, col: 20, offset: 94043},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93988},
+																	pos:        position{line: 2972, col: 29, offset: 94052},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94148},
+														pos: position{line: 2982, col: 8, offset: 94212},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94149,
+															line: 2982, col: 9, offset: 94213,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94134},
+																pos: position{line: 2980, col: 11, offset: 94198},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94136,
+																	line: 2980, col: 13, offset: 94200,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93800},
+											pos: position{line: 2963, col: 10, offset: 93864},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93800},
+												pos:        position{line: 2963, col: 10, offset: 93864},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2959, col: 10, offset: 93800},
+													pos: position{line: 2963, col: 10, offset: 93864},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2959, col: 10, offset: 93800},
+														pos:        position{line: 2963, col: 10, offset: 93864},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93800},
+												pos: position{line: 2963, col: 10, offset: 93864},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93800},
+													pos:        position{line: 2963, col: 10, offset: 93864},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93800},
+											pos: position{line: 2963, col: 10, offset: 93864},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93800},
+												pos:        position{line: 2963, col: 10, offset: 93864},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93800},
+												pos: position{line: 2963, col: 10, offset: 93864},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93800},
+													pos:        position{line: 2963, col: 10, offset: 93864},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89822},
+									pos: position{line: 2821, col: 14, offset: 89886},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89822},
+										pos: position{line: 2821, col: 14, offset: 89886},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89822},
+											pos:        position{line: 2821, col: 14, offset: 89886},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93800},
+									pos: position{line: 2963, col: 10, offset: 93864},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93800},
+										pos:        position{line: 2963, col: 10, offset: 93864},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93800},
+												pos: position{line: 2963, col: 10, offset: 93864},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93800},
+													pos:        position{line: 2963, col: 10, offset: 93864},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89822},
+									pos: position{line: 2821, col: 14, offset: 89886},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89822},
+										pos: position{line: 2821, col: 14, offset: 89886},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89822},
+											pos:        position{line: 2821, col: 14, offset: 89886},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93800},
+									pos: position{line: 2963, col: 10, offset: 93864},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93800},
+										pos:        position{line: 2963, col: 10, offset: 93864},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93800},
+											pos: position{line: 2963, col: 10, offset: 93864},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93800},
+												pos:        position{line: 2963, col: 10, offset: 93864},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93452},
+										pos: position{line: 2948, col: 7, offset: 93516},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93452},
+											pos: position{line: 2948, col: 7, offset: 93516},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93452},
+												pos:        position{line: 2948, col: 7, offset: 93516},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93800},
+										pos: position{line: 2963, col: 10, offset: 93864},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93800},
+											pos:        position{line: 2963, col: 10, offset: 93864},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2944, col: 7, offset: 93452},
+										pos: position{line: 2948, col: 7, offset: 93516},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2944, col: 7, offset: 93452},
+											pos: position{line: 2948, col: 7, offset: 93516},
 											expr: &charClassMatcher{
-												pos:        position{line: 2944, col: 7, offset: 93452},
+												pos:        position{line: 2948, col: 7, offset: 93516},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 17, offset: 91624},
+								pos: position{line: 2890, col: 17, offset: 91688},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2886, col: 17, offset: 91624},
+									pos:   position{line: 2890, col: 17, offset: 91688},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2907, col: 5, offset: 92209},
+										pos: position{line: 2911, col: 5, offset: 92273},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2907, col: 5, offset: 92209},
+											pos:   position{line: 2911, col: 5, offset: 92273},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2907, col: 14, offset: 92218},
+												pos: position{line: 2911, col: 14, offset: 92282},
 												expr: &choiceExpr{
-													pos: position{line: 2908, col: 9, offset: 92228},
+													pos: position{line: 2912, col: 9, offset: 92292},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2908, col: 9, offset: 92228},
+															pos: position{line: 2912, col: 9, offset: 92292},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2908, col: 9, offset: 92228},
+																pos: position{line: 2912, col: 9, offset: 92292},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2908, col: 9, offset: 92228},
+																		pos: position{line: 2912, col: 9, offset: 92292},
 																		expr: &litMatcher{
-																			pos:        position{line: 2908, col: 10, offset: 92229},
+																			pos:        position{line: 2912, col: 10, offset: 92293},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2909, col: 9, offset: 92257},
+																		pos: position{line: 2913, col: 9, offset: 92321},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 10, offset: 92258},
+																			pos:        position{line: 2913, col: 10, offset: 92322},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2912, col: 11, offset: 92470},
+															pos: position{line: 2916, col: 11, offset: 92534},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2912, col: 11, offset: 92470},
+																	pos:        position{line: 2916, col: 11, offset: 92534},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2912, col: 19, offset: 92478},
+																	pos: position{line: 2916, col: 19, offset: 92542},
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 21, offset: 92480},
+																		pos: position{line: 2916, col: 21, offset: 92544},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 21, offset: 92480},
+																				pos: position{line: 2916, col: 21, offset: 92544},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2912, col: 28, offset: 92487},
+																				pos: position{line: 2916, col: 28, offset: 92551},
 																				expr: &notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2915, col: 11, offset: 92607},
+															pos: position{line: 2919, col: 11, offset: 92671},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2915, col: 11, offset: 92607},
+																pos:        position{line: 2919, col: 11, offset: 92671},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2882, col: 14, offset: 91554},
+								pos: position{line: 2886, col: 14, offset: 91618},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2882, col: 14, offset: 91554},
+									pos: position{line: 2886, col: 14, offset: 91618},
 									expr: &charClassMatcher{
-										pos:        position{line: 2882, col: 14, offset: 91554},
+										pos:        position{line: 2886, col: 14, offset: 91618},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81443},
+										pos: position{line: 2530, col: 22, offset: 81507},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81664},
+													pos:        position{line: 2535, col: 31, offset: 81728},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81669},
+													pos: position{line: 2535, col: 36, offset: 81733},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81670},
+														pos:        position{line: 2535, col: 37, offset: 81734},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81470},
+													pos:   position{line: 2530, col: 49, offset: 81534},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91487},
+														pos: position{line: 2882, col: 13, offset: 91551},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91487},
+																pos:        position{line: 2882, col: 13, offset: 91551},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81443},
+										pos: position{line: 2530, col: 22, offset: 81507},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81664},
+													pos:        position{line: 2535, col: 31, offset: 81728},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81669},
+													pos: position{line: 2535, col: 36, offset: 81733},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81670},
+														pos:        position{line: 2535, col: 37, offset: 81734},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81470},
+													pos:   position{line: 2530, col: 49, offset: 81534},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91487},
+														pos: position{line: 2882, col: 13, offset: 91551},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91487},
+																pos:        position{line: 2882, col: 13, offset: 91551},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94134},
+																										pos: position{line: 2980, col: 11, offset: 94198},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94136,
+																											line: 2980, col: 13, offset: 94200,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81443},
+															pos: position{line: 2530, col: 22, offset: 81507},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81443},
+																pos: position{line: 2530, col: 22, offset: 81507},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81664},
+																		pos:        position{line: 2535, col: 31, offset: 81728},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81669},
+																		pos: position{line: 2535, col: 36, offset: 81733},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81670},
+																			pos:        position{line: 2535, col: 37, offset: 81734},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81470},
+																		pos:   position{line: 2530, col: 49, offset: 81534},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91487},
+																			pos: position{line: 2882, col: 13, offset: 91551},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91487},
+																				pos: position{line: 2882, col: 13, offset: 91551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91487},
+																					pos:        position{line: 2882, col: 13, offset: 91551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2959, col: 10, offset: 93800},
+																																	pos: position{line: 2963, col: 10, offset: 93864},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2959, col: 10, offset: 93800},
+																																		pos:        position{line: 2963, col: 10, offset: 93864},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2981, col: 8, offset: 94198},
+																																pos: position{line: 2985, col: 8, offset: 94262},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93971},
+																																		pos: position{line: 2972, col: 12, offset: 94035},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93972},
+																																			pos: position{line: 2972, col: 13, offset: 94036},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93972},
+																																					pos:        position{line: 2972, col: 13, offset: 94036},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93979},
+																																					pos:        position{line: 2972, col: 20, offset: 94043},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93988},
+																																					pos:        position{line: 2972, col: 29, offset: 94052},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2978, col: 8, offset: 94148},
+																																		pos: position{line: 2982, col: 8, offset: 94212},
 																																		expr: &anyMatcher{
-																																			line: 2978, col: 9, offset: 94149,
+																																			line: 2982, col: 9, offset: 94213,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2976, col: 11, offset: 94134},
+																											pos: position{line: 2980, col: 11, offset: 94198},
 																											expr: &anyMatcher{
-																												line: 2976, col: 13, offset: 94136,
+																												line: 2980, col: 13, offset: 94200,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 13, offset: 91487},
+																												pos: position{line: 2882, col: 13, offset: 91551},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2878, col: 13, offset: 91487},
+																													pos: position{line: 2882, col: 13, offset: 91551},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 13, offset: 91487},
+																														pos:        position{line: 2882, col: 13, offset: 91551},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2959, col: 10, offset: 93800},
+															pos: position{line: 2963, col: 10, offset: 93864},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2959, col: 10, offset: 93800},
+																pos:        position{line: 2963, col: 10, offset: 93864},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2526, col: 22, offset: 81443},
+												pos: position{line: 2530, col: 22, offset: 81507},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2531, col: 31, offset: 81664},
+														pos:        position{line: 2535, col: 31, offset: 81728},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2531, col: 36, offset: 81669},
+														pos: position{line: 2535, col: 36, offset: 81733},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 37, offset: 81670},
+															pos:        position{line: 2535, col: 37, offset: 81734},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2526, col: 49, offset: 81470},
+														pos:   position{line: 2530, col: 49, offset: 81534},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2878, col: 13, offset: 91487},
+																pos: position{line: 2882, col: 13, offset: 91551},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 13, offset: 91487},
+																	pos:        position{line: 2882, col: 13, offset: 91551},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2959, col: 10, offset: 93800},
+																													pos: position{line: 2963, col: 10, offset: 93864},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2959, col: 10, offset: 93800},
+																														pos:        position{line: 2963, col: 10, offset: 93864},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2981, col: 8, offset: 94198},
+																												pos: position{line: 2985, col: 8, offset: 94262},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2968, col: 12, offset: 93971},
+																														pos: position{line: 2972, col: 12, offset: 94035},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2968, col: 13, offset: 93972},
+																															pos: position{line: 2972, col: 13, offset: 94036},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 13, offset: 93972},
+																																	pos:        position{line: 2972, col: 13, offset: 94036},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 20, offset: 93979},
+																																	pos:        position{line: 2972, col: 20, offset: 94043},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2968, col: 29, offset: 93988},
+																																	pos:        position{line: 2972, col: 29, offset: 94052},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2978, col: 8, offset: 94148},
+																														pos: position{line: 2982, col: 8, offset: 94212},
 																														expr: &anyMatcher{
-																															line: 2978, col: 9, offset: 94149,
+																															line: 2982, col: 9, offset: 94213,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2878, col: 13, offset: 91487},
+																									pos: position{line: 2882, col: 13, offset: 91551},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 13, offset: 91487},
+																										pos:        position{line: 2882, col: 13, offset: 91551},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93861},
+							pos: position{line: 2967, col: 11, offset: 93925},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93861},
+								pos: position{line: 2967, col: 11, offset: 93925},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93861},
+									pos:        position{line: 2967, col: 11, offset: 93925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2944, col: 7, offset: 93452},
+								pos: position{line: 2948, col: 7, offset: 93516},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2944, col: 7, offset: 93452},
+									pos: position{line: 2948, col: 7, offset: 93516},
 									expr: &charClassMatcher{
-										pos:        position{line: 2944, col: 7, offset: 93452},
+										pos:        position{line: 2948, col: 7, offset: 93516},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2817, col: 14, offset: 89822},
+									pos: position{line: 2821, col: 14, offset: 89886},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2817, col: 14, offset: 89822},
+										pos: position{line: 2821, col: 14, offset: 89886},
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89822},
+											pos:        position{line: 2821, col: 14, offset: 89886},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2959, col: 10, offset: 93800},
+									pos: position{line: 2963, col: 10, offset: 93864},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2959, col: 10, offset: 93800},
+										pos:        position{line: 2963, col: 10, offset: 93864},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2513, col: 5, offset: 80989},
+									pos: position{line: 2517, col: 5, offset: 81053},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2513, col: 5, offset: 80989},
+										pos: position{line: 2517, col: 5, offset: 81053},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2513, col: 5, offset: 80989},
+												pos: position{line: 2517, col: 5, offset: 81053},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2516, col: 5, offset: 81065},
+												pos:   position{line: 2520, col: 5, offset: 81129},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2517, col: 9, offset: 81083},
+													pos: position{line: 2521, col: 9, offset: 81147},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81084},
+														pos:        position{line: 2521, col: 10, offset: 81148},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91720},
+								pos: position{line: 2894, col: 13, offset: 91784},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91720},
+									pos: position{line: 2894, col: 13, offset: 91784},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91720},
+											pos:   position{line: 2894, col: 13, offset: 91784},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91727},
+												pos: position{line: 2894, col: 20, offset: 91791},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 92097},
+													pos: position{line: 2906, col: 11, offset: 92161},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 92098},
+														pos: position{line: 2906, col: 12, offset: 92162},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 92098},
+																pos:        position{line: 2906, col: 12, offset: 92162},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92110},
+																pos:        position{line: 2906, col: 24, offset: 92174},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92123},
+																pos:        position{line: 2906, col: 37, offset: 92187},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92134},
+																pos:        position{line: 2906, col: 48, offset: 92198},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92145},
+																pos:        position{line: 2906, col: 59, offset: 92209},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91737},
+											pos:   position{line: 2894, col: 30, offset: 91801},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92209},
+												pos: position{line: 2911, col: 5, offset: 92273},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92209},
+													pos:   position{line: 2911, col: 5, offset: 92273},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92218},
+														pos: position{line: 2911, col: 14, offset: 92282},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92228},
+															pos: position{line: 2912, col: 9, offset: 92292},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92228},
+																		pos: position{line: 2912, col: 9, offset: 92292},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92229},
+																					pos:        position{line: 2912, col: 10, offset: 92293},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92257},
+																				pos: position{line: 2913, col: 9, offset: 92321},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92258},
+																					pos:        position{line: 2913, col: 10, offset: 92322},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92470},
+																	pos: position{line: 2916, col: 11, offset: 92534},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92470},
+																			pos:        position{line: 2916, col: 11, offset: 92534},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92478},
+																			pos: position{line: 2916, col: 19, offset: 92542},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92480},
+																				pos: position{line: 2916, col: 21, offset: 92544},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92487},
+																						pos: position{line: 2916, col: 28, offset: 92551},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92607},
+																	pos: position{line: 2919, col: 11, offset: 92671},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92607},
+																		pos:        position{line: 2919, col: 11, offset: 92671},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 13, offset: 91720},
+								pos: position{line: 2894, col: 13, offset: 91784},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2890, col: 13, offset: 91720},
+									pos: position{line: 2894, col: 13, offset: 91784},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2890, col: 13, offset: 91720},
+											pos:   position{line: 2894, col: 13, offset: 91784},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2890, col: 20, offset: 91727},
+												pos: position{line: 2894, col: 20, offset: 91791},
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 11, offset: 92097},
+													pos: position{line: 2906, col: 11, offset: 92161},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 12, offset: 92098},
+														pos: position{line: 2906, col: 12, offset: 92162},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2902, col: 12, offset: 92098},
+																pos:        position{line: 2906, col: 12, offset: 92162},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 24, offset: 92110},
+																pos:        position{line: 2906, col: 24, offset: 92174},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 37, offset: 92123},
+																pos:        position{line: 2906, col: 37, offset: 92187},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 48, offset: 92134},
+																pos:        position{line: 2906, col: 48, offset: 92198},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2902, col: 59, offset: 92145},
+																pos:        position{line: 2906, col: 59, offset: 92209},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2890, col: 30, offset: 91737},
+											pos:   position{line: 2894, col: 30, offset: 91801},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2907, col: 5, offset: 92209},
+												pos: position{line: 2911, col: 5, offset: 92273},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2907, col: 5, offset: 92209},
+													pos:   position{line: 2911, col: 5, offset: 92273},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 14, offset: 92218},
+														pos: position{line: 2911, col: 14, offset: 92282},
 														expr: &choiceExpr{
-															pos: position{line: 2908, col: 9, offset: 92228},
+															pos: position{line: 2912, col: 9, offset: 92292},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2908, col: 9, offset: 92228},
+																		pos: position{line: 2912, col: 9, offset: 92292},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				expr: &litMatcher{
-																					pos:        position{line: 2908, col: 10, offset: 92229},
+																					pos:        position{line: 2912, col: 10, offset: 92293},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2909, col: 9, offset: 92257},
+																				pos: position{line: 2913, col: 9, offset: 92321},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 10, offset: 92258},
+																					pos:        position{line: 2913, col: 10, offset: 92322},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2912, col: 11, offset: 92470},
+																	pos: position{line: 2916, col: 11, offset: 92534},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2912, col: 11, offset: 92470},
+																			pos:        position{line: 2916, col: 11, offset: 92534},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2912, col: 19, offset: 92478},
+																			pos: position{line: 2916, col: 19, offset: 92542},
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 21, offset: 92480},
+																				pos: position{line: 2916, col: 21, offset: 92544},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2912, col: 28, offset: 92487},
+																						pos: position{line: 2916, col: 28, offset: 92551},
 																						expr: &notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2915, col: 11, offset: 92607},
+																	pos: position{line: 2919, col: 11, offset: 92671},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2915, col: 11, offset: 92607},
+																		pos:        position{line: 2919, col: 11, offset: 92671},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89895},
+										pos: position{line: 2826, col: 5, offset: 89959},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89895},
+											pos: position{line: 2826, col: 5, offset: 89959},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89895},
+													pos: position{line: 2826, col: 5, offset: 89959},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89906},
+														pos: position{line: 2827, col: 9, offset: 89970},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89906},
+																pos: position{line: 2827, col: 9, offset: 89970},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89969},
+																pos:   position{line: 2830, col: 9, offset: 90033},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89281},
+																	pos: position{line: 2802, col: 18, offset: 89345},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89282},
+																		pos: position{line: 2802, col: 19, offset: 89346},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89282},
+																			pos:        position{line: 2802, col: 19, offset: 89346},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89990},
+																pos:        position{line: 2830, col: 30, offset: 90054},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 90077},
+																pos: position{line: 2831, col: 9, offset: 90141},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90189},
+													pos:   position{line: 2835, col: 5, offset: 90253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90195},
+														pos: position{line: 2835, col: 11, offset: 90259},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90195},
+															pos: position{line: 2835, col: 11, offset: 90259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90195},
+																pos:        position{line: 2835, col: 11, offset: 90259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90253},
+													pos: position{line: 2838, col: 5, offset: 90317},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90264},
+														pos: position{line: 2839, col: 9, offset: 90328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90264},
+																pos:        position{line: 2839, col: 9, offset: 90328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90313},
+																pos: position{line: 2840, col: 9, offset: 90377},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90393},
+													pos: position{line: 2844, col: 5, offset: 90457},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90404},
+														pos: position{line: 2845, col: 9, offset: 90468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90404},
+																pos: position{line: 2845, col: 9, offset: 90468},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90404},
+																	pos:        position{line: 2845, col: 9, offset: 90468},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90418},
+																pos:        position{line: 2845, col: 23, offset: 90482},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90422},
+																pos:        position{line: 2845, col: 27, offset: 90486},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93861},
+										pos: position{line: 2967, col: 11, offset: 93925},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93861},
+											pos: position{line: 2967, col: 11, offset: 93925},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93861},
+												pos:        position{line: 2967, col: 11, offset: 93925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82160},
+										pos: position{line: 2548, col: 5, offset: 82224},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82160},
+											pos: position{line: 2548, col: 5, offset: 82224},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82160},
+													pos: position{line: 2548, col: 5, offset: 82224},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82231},
+													pos:        position{line: 2551, col: 5, offset: 82295},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82236},
+													pos: position{line: 2551, col: 10, offset: 82300},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82237},
+														pos:        position{line: 2551, col: 11, offset: 82301},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82423},
+										pos: position{line: 2557, col: 5, offset: 82487},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82423},
+											pos: position{line: 2557, col: 5, offset: 82487},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82423},
+													pos: position{line: 2557, col: 5, offset: 82487},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82494},
+													pos: position{line: 2560, col: 5, offset: 82558},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82619},
+													pos:        position{line: 2564, col: 5, offset: 82683},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82623},
+													pos: position{line: 2564, col: 9, offset: 82687},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82624},
+														pos:        position{line: 2564, col: 10, offset: 82688},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90615},
+										pos: position{line: 2853, col: 5, offset: 90679},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90625},
+											pos: position{line: 2854, col: 9, offset: 90689},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90626},
+													pos:        position{line: 2854, col: 10, offset: 90690},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90723},
+													pos: position{line: 2856, col: 13, offset: 90787},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90723},
+															pos: position{line: 2856, col: 13, offset: 90787},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90823},
+															pos:        position{line: 2859, col: 13, offset: 90887},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90829},
+													pos:        position{line: 2859, col: 19, offset: 90893},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90867},
+													pos: position{line: 2862, col: 13, offset: 90931},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90867},
+															pos: position{line: 2862, col: 13, offset: 90931},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90960},
+															pos:        position{line: 2865, col: 14, offset: 91024},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 91004},
+													pos: position{line: 2867, col: 12, offset: 91068},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 91004},
+															pos:        position{line: 2867, col: 12, offset: 91068},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 91008},
+															pos: position{line: 2867, col: 16, offset: 91072},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 91009},
+																pos:        position{line: 2867, col: 17, offset: 91073},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80989},
+										pos: position{line: 2517, col: 5, offset: 81053},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80989},
+													pos: position{line: 2517, col: 5, offset: 81053},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 81065},
+													pos:   position{line: 2520, col: 5, offset: 81129},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81083},
+														pos: position{line: 2521, col: 9, offset: 81147},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81084},
+															pos:        position{line: 2521, col: 10, offset: 81148},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93971},
+										pos: position{line: 2972, col: 12, offset: 94035},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93972},
+											pos: position{line: 2972, col: 13, offset: 94036},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93972},
+													pos:        position{line: 2972, col: 13, offset: 94036},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93979},
+													pos:        position{line: 2972, col: 20, offset: 94043},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93988},
+													pos:        position{line: 2972, col: 29, offset: 94052},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91269},
+										pos: position{line: 2875, col: 12, offset: 91333},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91269},
+											pos:        position{line: 2875, col: 12, offset: 91333},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22252,32 +22252,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1422, col: 1, offset: 45515},
+			pos:  position{line: 1426, col: 1, offset: 45579},
 			expr: &choiceExpr{
-				pos: position{line: 1422, col: 21, offset: 45535},
+				pos: position{line: 1426, col: 21, offset: 45599},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1422, col: 21, offset: 45535},
+						pos: position{line: 1426, col: 21, offset: 45599},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1422, col: 21, offset: 45535},
+							pos: position{line: 1426, col: 21, offset: 45599},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1422, col: 21, offset: 45535},
+									pos:        position{line: 1426, col: 21, offset: 45599},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1422, col: 30, offset: 45544},
+									pos:   position{line: 1426, col: 30, offset: 45608},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1422, col: 38, offset: 45552},
+										pos: position{line: 1426, col: 38, offset: 45616},
 										expr: &actionExpr{
-											pos: position{line: 1428, col: 30, offset: 45878},
+											pos: position{line: 1432, col: 30, offset: 45942},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1428, col: 30, offset: 45878},
+												pos:        position{line: 1432, col: 30, offset: 45942},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22287,7 +22287,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1422, col: 67, offset: 45581},
+									pos:        position{line: 1426, col: 67, offset: 45645},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22296,34 +22296,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 9, offset: 45685},
+						pos: position{line: 1428, col: 9, offset: 45749},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 9, offset: 45685},
+							pos: position{line: 1428, col: 9, offset: 45749},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 9, offset: 45685},
+									pos:        position{line: 1428, col: 9, offset: 45749},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 19, offset: 45695},
+									pos:   position{line: 1428, col: 19, offset: 45759},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1424, col: 27, offset: 45703},
+										pos: position{line: 1428, col: 27, offset: 45767},
 										expr: &choiceExpr{
-											pos: position{line: 1424, col: 28, offset: 45704},
+											pos: position{line: 1428, col: 28, offset: 45768},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1424, col: 28, offset: 45704},
+													pos:  position{line: 1428, col: 28, offset: 45768},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1428, col: 30, offset: 45878},
+													pos: position{line: 1432, col: 30, offset: 45942},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1428, col: 30, offset: 45878},
+														pos:        position{line: 1432, col: 30, offset: 45942},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22335,7 +22335,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 69, offset: 45745},
+									pos:        position{line: 1428, col: 69, offset: 45809},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22348,75 +22348,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1435, col: 1, offset: 46134},
+			pos:  position{line: 1439, col: 1, offset: 46198},
 			expr: &choiceExpr{
-				pos: position{line: 1435, col: 9, offset: 46142},
+				pos: position{line: 1439, col: 9, offset: 46206},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46211},
+						pos: position{line: 1442, col: 5, offset: 46275},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46211},
+							pos: position{line: 1442, col: 5, offset: 46275},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46211},
+									pos:        position{line: 1442, col: 5, offset: 46275},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 5, offset: 46220},
+									pos:   position{line: 1443, col: 5, offset: 46284},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91847},
+										pos: position{line: 2898, col: 23, offset: 91911},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91847},
+											pos: position{line: 2898, col: 23, offset: 91911},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91847},
+													pos: position{line: 2898, col: 23, offset: 91911},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91848},
+														pos:        position{line: 2898, col: 24, offset: 91912},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91852},
+													pos:   position{line: 2898, col: 28, offset: 91916},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92097},
+														pos: position{line: 2906, col: 11, offset: 92161},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92098},
+															pos: position{line: 2906, col: 12, offset: 92162},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92098},
+																	pos:        position{line: 2906, col: 12, offset: 92162},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92110},
+																	pos:        position{line: 2906, col: 24, offset: 92174},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92123},
+																	pos:        position{line: 2906, col: 37, offset: 92187},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92134},
+																	pos:        position{line: 2906, col: 48, offset: 92198},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92145},
+																	pos:        position{line: 2906, col: 59, offset: 92209},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91868},
+													pos:   position{line: 2898, col: 44, offset: 91932},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -22896,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22916,7 +22916,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46439},
+									pos:        position{line: 1448, col: 5, offset: 46503},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22925,38 +22925,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 19, offset: 46152},
+						pos:  position{line: 1439, col: 19, offset: 46216},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1435, col: 34, offset: 46167},
+						pos:  position{line: 1439, col: 34, offset: 46231},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1478, col: 17, offset: 47549},
+						pos: position{line: 1482, col: 17, offset: 47613},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1478, col: 17, offset: 47549},
+							pos: position{line: 1482, col: 17, offset: 47613},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1478, col: 17, offset: 47549},
+									pos:   position{line: 1482, col: 17, offset: 47613},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1483, col: 5, offset: 47714},
+										pos: position{line: 1487, col: 5, offset: 47778},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1483, col: 5, offset: 47714},
+											pos: position{line: 1487, col: 5, offset: 47778},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1483, col: 5, offset: 47714},
+													pos:   position{line: 1487, col: 5, offset: 47778},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1483, col: 12, offset: 47721},
+														pos: position{line: 1487, col: 12, offset: 47785},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1483, col: 12, offset: 47721},
+															pos: position{line: 1487, col: 12, offset: 47785},
 															expr: &charClassMatcher{
-																pos:        position{line: 1483, col: 12, offset: 47721},
+																pos:        position{line: 1487, col: 12, offset: 47785},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22968,7 +22968,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1486, col: 5, offset: 47805},
+													pos: position{line: 1490, col: 5, offset: 47869},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22976,33 +22976,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1478, col: 43, offset: 47575},
+									pos:        position{line: 1482, col: 43, offset: 47639},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1478, col: 47, offset: 47579},
+									pos:   position{line: 1482, col: 47, offset: 47643},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1495, col: 23, offset: 48099},
+										pos: position{line: 1499, col: 23, offset: 48163},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1495, col: 23, offset: 48099},
+											pos: position{line: 1499, col: 23, offset: 48163},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1495, col: 23, offset: 48099},
+													pos:   position{line: 1499, col: 23, offset: 48163},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1495, col: 31, offset: 48107},
+														pos: position{line: 1499, col: 31, offset: 48171},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1495, col: 31, offset: 48107},
+															pos: position{line: 1499, col: 31, offset: 48171},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1495, col: 31, offset: 48107},
+																	pos: position{line: 1499, col: 31, offset: 48171},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1495, col: 31, offset: 48107},
+																		pos:        position{line: 1499, col: 31, offset: 48171},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23010,23 +23010,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1495, col: 41, offset: 48117},
+																	pos: position{line: 1499, col: 41, offset: 48181},
 																	expr: &seqExpr{
-																		pos: position{line: 1495, col: 42, offset: 48118},
+																		pos: position{line: 1499, col: 42, offset: 48182},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 42, offset: 48118},
+																				pos: position{line: 1499, col: 42, offset: 48182},
 																				expr: &litMatcher{
-																					pos:        position{line: 1495, col: 42, offset: 48118},
+																					pos:        position{line: 1499, col: 42, offset: 48182},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 47, offset: 48123},
+																				pos: position{line: 1499, col: 47, offset: 48187},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1495, col: 47, offset: 48123},
+																					pos:        position{line: 1499, col: 47, offset: 48187},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -23037,20 +23037,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1495, col: 59, offset: 48135},
+																	pos: position{line: 1499, col: 59, offset: 48199},
 																	expr: &seqExpr{
-																		pos: position{line: 1495, col: 60, offset: 48136},
+																		pos: position{line: 1499, col: 60, offset: 48200},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1495, col: 60, offset: 48136},
+																				pos:        position{line: 1499, col: 60, offset: 48200},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1495, col: 64, offset: 48140},
+																				pos: position{line: 1499, col: 64, offset: 48204},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1495, col: 64, offset: 48140},
+																					pos:        position{line: 1499, col: 64, offset: 48204},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23066,7 +23066,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1498, col: 5, offset: 48201},
+													pos: position{line: 1502, col: 5, offset: 48265},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23081,68 +23081,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1450, col: 1, offset: 46587},
+			pos:  position{line: 1454, col: 1, offset: 46651},
 			expr: &choiceExpr{
-				pos: position{line: 1452, col: 5, offset: 46623},
+				pos: position{line: 1456, col: 5, offset: 46687},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1452, col: 5, offset: 46623},
+						pos: position{line: 1456, col: 5, offset: 46687},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1452, col: 5, offset: 46623},
+							pos: position{line: 1456, col: 5, offset: 46687},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1452, col: 5, offset: 46623},
+									pos:        position{line: 1456, col: 5, offset: 46687},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 17, offset: 46635},
+									pos:   position{line: 1456, col: 17, offset: 46699},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91720},
+										pos: position{line: 2894, col: 13, offset: 91784},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91720},
+											pos: position{line: 2894, col: 13, offset: 91784},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91720},
+													pos:   position{line: 2894, col: 13, offset: 91784},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91727},
+														pos: position{line: 2894, col: 20, offset: 91791},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 92097},
+															pos: position{line: 2906, col: 11, offset: 92161},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 92098},
+																pos: position{line: 2906, col: 12, offset: 92162},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 92098},
+																		pos:        position{line: 2906, col: 12, offset: 92162},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92110},
+																		pos:        position{line: 2906, col: 24, offset: 92174},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92123},
+																		pos:        position{line: 2906, col: 37, offset: 92187},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92134},
+																		pos:        position{line: 2906, col: 48, offset: 92198},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92145},
+																		pos:        position{line: 2906, col: 59, offset: 92209},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91737},
+													pos:   position{line: 2894, col: 30, offset: 91801},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -23623,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23643,10 +23643,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 32, offset: 46650},
+									pos:   position{line: 1456, col: 32, offset: 46714},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1452, col: 44, offset: 46662},
+										pos:  position{line: 1456, col: 44, offset: 46726},
 										name: "InlineAttributes",
 									},
 								},
@@ -23654,63 +23654,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1457, col: 5, offset: 46788},
+						pos: position{line: 1461, col: 5, offset: 46852},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1457, col: 5, offset: 46788},
+							pos: position{line: 1461, col: 5, offset: 46852},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1457, col: 5, offset: 46788},
+									pos:        position{line: 1461, col: 5, offset: 46852},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 13, offset: 46796},
+									pos:   position{line: 1461, col: 13, offset: 46860},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 13, offset: 91720},
+										pos: position{line: 2894, col: 13, offset: 91784},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2890, col: 13, offset: 91720},
+											pos: position{line: 2894, col: 13, offset: 91784},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2890, col: 13, offset: 91720},
+													pos:   position{line: 2894, col: 13, offset: 91784},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2890, col: 20, offset: 91727},
+														pos: position{line: 2894, col: 20, offset: 91791},
 														expr: &actionExpr{
-															pos: position{line: 2902, col: 11, offset: 92097},
+															pos: position{line: 2906, col: 11, offset: 92161},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2902, col: 12, offset: 92098},
+																pos: position{line: 2906, col: 12, offset: 92162},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 12, offset: 92098},
+																		pos:        position{line: 2906, col: 12, offset: 92162},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 24, offset: 92110},
+																		pos:        position{line: 2906, col: 24, offset: 92174},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 37, offset: 92123},
+																		pos:        position{line: 2906, col: 37, offset: 92187},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 48, offset: 92134},
+																		pos:        position{line: 2906, col: 48, offset: 92198},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2902, col: 59, offset: 92145},
+																		pos:        position{line: 2906, col: 59, offset: 92209},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2890, col: 30, offset: 91737},
+													pos:   position{line: 2894, col: 30, offset: 91801},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -24191,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24211,10 +24211,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 28, offset: 46811},
+									pos:   position{line: 1461, col: 28, offset: 46875},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1457, col: 40, offset: 46823},
+										pos:  position{line: 1461, col: 40, offset: 46887},
 										name: "InlineAttributes",
 									},
 								},
@@ -24226,75 +24226,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1461, col: 1, offset: 46939},
+			pos:  position{line: 1465, col: 1, offset: 47003},
 			expr: &choiceExpr{
-				pos: position{line: 1464, col: 5, offset: 47101},
+				pos: position{line: 1468, col: 5, offset: 47165},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1464, col: 5, offset: 47101},
+						pos: position{line: 1468, col: 5, offset: 47165},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1464, col: 5, offset: 47101},
+							pos: position{line: 1468, col: 5, offset: 47165},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1464, col: 5, offset: 47101},
+									pos:        position{line: 1468, col: 5, offset: 47165},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 9, offset: 47105},
+									pos:   position{line: 1468, col: 9, offset: 47169},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91847},
+										pos: position{line: 2898, col: 23, offset: 91911},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91847},
+											pos: position{line: 2898, col: 23, offset: 91911},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91847},
+													pos: position{line: 2898, col: 23, offset: 91911},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91848},
+														pos:        position{line: 2898, col: 24, offset: 91912},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91852},
+													pos:   position{line: 2898, col: 28, offset: 91916},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92097},
+														pos: position{line: 2906, col: 11, offset: 92161},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92098},
+															pos: position{line: 2906, col: 12, offset: 92162},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92098},
+																	pos:        position{line: 2906, col: 12, offset: 92162},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92110},
+																	pos:        position{line: 2906, col: 24, offset: 92174},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92123},
+																	pos:        position{line: 2906, col: 37, offset: 92187},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92134},
+																	pos:        position{line: 2906, col: 48, offset: 92198},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92145},
+																	pos:        position{line: 2906, col: 59, offset: 92209},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91868},
+													pos:   position{line: 2898, col: 44, offset: 91932},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -24774,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24794,12 +24794,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1464, col: 34, offset: 47130},
+									pos:   position{line: 1468, col: 34, offset: 47194},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1464, col: 45, offset: 47141},
+										pos: position{line: 1468, col: 45, offset: 47205},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1464, col: 46, offset: 47142},
+											pos:  position{line: 1468, col: 46, offset: 47206},
 											name: "InlineAttributes",
 										},
 									},
@@ -24808,64 +24808,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1469, col: 5, offset: 47269},
+						pos: position{line: 1473, col: 5, offset: 47333},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1469, col: 5, offset: 47269},
+							pos: position{line: 1473, col: 5, offset: 47333},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1469, col: 5, offset: 47269},
+									pos:   position{line: 1473, col: 5, offset: 47333},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 23, offset: 91847},
+										pos: position{line: 2898, col: 23, offset: 91911},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 23, offset: 91847},
+											pos: position{line: 2898, col: 23, offset: 91911},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2894, col: 23, offset: 91847},
+													pos: position{line: 2898, col: 23, offset: 91911},
 													expr: &litMatcher{
-														pos:        position{line: 2894, col: 24, offset: 91848},
+														pos:        position{line: 2898, col: 24, offset: 91912},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 28, offset: 91852},
+													pos:   position{line: 2898, col: 28, offset: 91916},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2902, col: 11, offset: 92097},
+														pos: position{line: 2906, col: 11, offset: 92161},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2902, col: 12, offset: 92098},
+															pos: position{line: 2906, col: 12, offset: 92162},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2902, col: 12, offset: 92098},
+																	pos:        position{line: 2906, col: 12, offset: 92162},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 24, offset: 92110},
+																	pos:        position{line: 2906, col: 24, offset: 92174},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 37, offset: 92123},
+																	pos:        position{line: 2906, col: 37, offset: 92187},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 48, offset: 92134},
+																	pos:        position{line: 2906, col: 48, offset: 92198},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2902, col: 59, offset: 92145},
+																	pos:        position{line: 2906, col: 59, offset: 92209},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 44, offset: 91868},
+													pos:   position{line: 2898, col: 44, offset: 91932},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2907, col: 5, offset: 92209},
+														pos: position{line: 2911, col: 5, offset: 92273},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2907, col: 5, offset: 92209},
+															pos:   position{line: 2911, col: 5, offset: 92273},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 14, offset: 92218},
+																pos: position{line: 2911, col: 14, offset: 92282},
 																expr: &choiceExpr{
-																	pos: position{line: 2908, col: 9, offset: 92228},
+																	pos: position{line: 2912, col: 9, offset: 92292},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2908, col: 9, offset: 92228},
+																			pos: position{line: 2912, col: 9, offset: 92292},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2908, col: 9, offset: 92228},
+																				pos: position{line: 2912, col: 9, offset: 92292},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2908, col: 9, offset: 92228},
+																						pos: position{line: 2912, col: 9, offset: 92292},
 																						expr: &litMatcher{
-																							pos:        position{line: 2908, col: 10, offset: 92229},
+																							pos:        position{line: 2912, col: 10, offset: 92293},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2909, col: 9, offset: 92257},
+																						pos: position{line: 2913, col: 9, offset: 92321},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 10, offset: 92258},
+																							pos:        position{line: 2913, col: 10, offset: 92322},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2912, col: 11, offset: 92470},
+																			pos: position{line: 2916, col: 11, offset: 92534},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2912, col: 11, offset: 92470},
+																					pos:        position{line: 2916, col: 11, offset: 92534},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2912, col: 19, offset: 92478},
+																					pos: position{line: 2916, col: 19, offset: 92542},
 																					expr: &seqExpr{
-																						pos: position{line: 2912, col: 21, offset: 92480},
+																						pos: position{line: 2916, col: 21, offset: 92544},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2912, col: 21, offset: 92480},
+																								pos: position{line: 2916, col: 21, offset: 92544},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2912, col: 28, offset: 92487},
+																								pos: position{line: 2916, col: 28, offset: 92551},
 																								expr: &notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -25345,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2915, col: 11, offset: 92607},
+																			pos: position{line: 2919, col: 11, offset: 92671},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2915, col: 11, offset: 92607},
+																				pos:        position{line: 2919, col: 11, offset: 92671},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25365,10 +25365,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1469, col: 30, offset: 47294},
+									pos:   position{line: 1473, col: 30, offset: 47358},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1469, col: 42, offset: 47306},
+										pos:  position{line: 1473, col: 42, offset: 47370},
 										name: "InlineAttributes",
 									},
 								},
@@ -25376,61 +25376,61 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1474, col: 5, offset: 47432},
+						pos: position{line: 1478, col: 5, offset: 47496},
 						run: (*parser).callonExternalLink238,
 						expr: &labeledExpr{
-							pos:   position{line: 1474, col: 5, offset: 47432},
+							pos:   position{line: 1478, col: 5, offset: 47496},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 27, offset: 91982},
+								pos: position{line: 2902, col: 27, offset: 92046},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2898, col: 27, offset: 91982},
+									pos: position{line: 2902, col: 27, offset: 92046},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2898, col: 27, offset: 91982},
+											pos: position{line: 2902, col: 27, offset: 92046},
 											expr: &litMatcher{
-												pos:        position{line: 2898, col: 28, offset: 91983},
+												pos:        position{line: 2902, col: 28, offset: 92047},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 32, offset: 91987},
+											pos:   position{line: 2902, col: 32, offset: 92051},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2902, col: 11, offset: 92097},
+												pos: position{line: 2906, col: 11, offset: 92161},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2902, col: 12, offset: 92098},
+													pos: position{line: 2906, col: 12, offset: 92162},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2902, col: 12, offset: 92098},
+															pos:        position{line: 2906, col: 12, offset: 92162},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 24, offset: 92110},
+															pos:        position{line: 2906, col: 24, offset: 92174},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 37, offset: 92123},
+															pos:        position{line: 2906, col: 37, offset: 92187},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 48, offset: 92134},
+															pos:        position{line: 2906, col: 48, offset: 92198},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2902, col: 59, offset: 92145},
+															pos:        position{line: 2906, col: 59, offset: 92209},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2898, col: 48, offset: 92003},
+											pos:   position{line: 2902, col: 48, offset: 92067},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2923, col: 5, offset: 92893},
+												pos: position{line: 2927, col: 5, offset: 92957},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2923, col: 5, offset: 92893},
+													pos:   position{line: 2927, col: 5, offset: 92957},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2923, col: 14, offset: 92902},
+														pos: position{line: 2927, col: 14, offset: 92966},
 														expr: &choiceExpr{
-															pos: position{line: 2924, col: 9, offset: 92912},
+															pos: position{line: 2928, col: 9, offset: 92976},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2924, col: 9, offset: 92912},
+																	pos: position{line: 2928, col: 9, offset: 92976},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2924, col: 9, offset: 92912},
+																		pos: position{line: 2928, col: 9, offset: 92976},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2924, col: 10, offset: 92913},
+																			pos:        position{line: 2928, col: 10, offset: 92977},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2927, col: 11, offset: 93004},
+																	pos: position{line: 2931, col: 11, offset: 93068},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2927, col: 11, offset: 93004},
+																		pos: position{line: 2931, col: 11, offset: 93068},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 11, offset: 93004},
+																				pos:        position{line: 2931, col: 11, offset: 93068},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2927, col: 15, offset: 93008},
+																				pos: position{line: 2931, col: 15, offset: 93072},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2927, col: 15, offset: 93008},
+																					pos:        position{line: 2931, col: 15, offset: 93072},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2927, col: 39, offset: 93032},
+																				pos:        position{line: 2931, col: 39, offset: 93096},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2930, col: 11, offset: 93097},
+																	pos: position{line: 2934, col: 11, offset: 93161},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2930, col: 11, offset: 93097},
+																		pos:        position{line: 2934, col: 11, offset: 93161},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2933, col: 11, offset: 93162},
+																	pos: position{line: 2937, col: 11, offset: 93226},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2933, col: 11, offset: 93162},
+																		pos: position{line: 2937, col: 11, offset: 93226},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2933, col: 11, offset: 93162},
+																				pos: position{line: 2937, col: 11, offset: 93226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 11, offset: 93162},
+																					pos:        position{line: 2937, col: 11, offset: 93226},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2933, col: 21, offset: 93172},
+																				pos: position{line: 2937, col: 21, offset: 93236},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2933, col: 23, offset: 93174},
+																					pos:        position{line: 2937, col: 23, offset: 93238},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2938, col: 11, offset: 93315},
+																	pos: position{line: 2942, col: 11, offset: 93379},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2938, col: 11, offset: 93315},
+																		pos:        position{line: 2942, col: 11, offset: 93379},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25948,41 +25948,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1508, col: 1, offset: 48594},
+			pos:  position{line: 1512, col: 1, offset: 48658},
 			expr: &actionExpr{
-				pos: position{line: 1509, col: 5, offset: 48615},
+				pos: position{line: 1513, col: 5, offset: 48679},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1509, col: 5, offset: 48615},
+					pos: position{line: 1513, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1509, col: 5, offset: 48615},
+							pos:   position{line: 1513, col: 5, offset: 48679},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 5, offset: 48817},
+								pos: position{line: 1519, col: 5, offset: 48881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51895},
+										pos: position{line: 1613, col: 5, offset: 51959},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51895},
+											pos: position{line: 1613, col: 5, offset: 51959},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51895},
+													pos:   position{line: 1613, col: 5, offset: 51959},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52103},
+														pos: position{line: 1620, col: 5, offset: 52167},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52103},
+															pos: position{line: 1620, col: 5, offset: 52167},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52103},
+																	pos: position{line: 1620, col: 5, offset: 52167},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25991,27 +25991,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52110},
+																	pos:   position{line: 1620, col: 12, offset: 52174},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52173},
+																		pos: position{line: 1622, col: 9, offset: 52237},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52173},
+																				pos: position{line: 1622, col: 9, offset: 52237},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52173},
+																					pos: position{line: 1622, col: 9, offset: 52237},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52173},
+																							pos:   position{line: 1622, col: 9, offset: 52237},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52180},
+																								pos: position{line: 1622, col: 16, offset: 52244},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52180},
+																									pos: position{line: 1622, col: 16, offset: 52244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52181},
+																										pos:        position{line: 1622, col: 17, offset: 52245},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26020,22 +26020,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52281},
+																							pos: position{line: 1626, col: 9, offset: 52345},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52998},
+																				pos: position{line: 1645, col: 11, offset: 53062},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52998},
+																					pos: position{line: 1645, col: 11, offset: 53062},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52998},
+																							pos: position{line: 1645, col: 11, offset: 53062},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52999},
+																								pos:        position{line: 1645, col: 12, offset: 53063},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26043,7 +26043,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 53007},
+																							pos:        position{line: 1645, col: 20, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26052,20 +26052,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53124},
+																				pos: position{line: 1647, col: 13, offset: 53188},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53124},
+																					pos: position{line: 1647, col: 13, offset: 53188},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53125},
+																							pos:        position{line: 1647, col: 14, offset: 53189},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53132},
+																							pos:        position{line: 1647, col: 21, offset: 53196},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26074,20 +26074,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53252},
+																				pos: position{line: 1649, col: 13, offset: 53316},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53252},
+																					pos: position{line: 1649, col: 13, offset: 53316},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53253},
+																							pos:        position{line: 1649, col: 14, offset: 53317},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53260},
+																							pos:        position{line: 1649, col: 21, offset: 53324},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26096,15 +26096,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53380},
+																				pos: position{line: 1651, col: 13, offset: 53444},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53380},
+																					pos: position{line: 1651, col: 13, offset: 53444},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53380},
+																							pos: position{line: 1651, col: 13, offset: 53444},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53381},
+																								pos:        position{line: 1651, col: 14, offset: 53445},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26112,7 +26112,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53393},
+																							pos:        position{line: 1651, col: 26, offset: 53457},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26121,15 +26121,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53513},
+																				pos: position{line: 1653, col: 13, offset: 53577},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53513},
+																					pos: position{line: 1653, col: 13, offset: 53577},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53513},
+																							pos: position{line: 1653, col: 13, offset: 53577},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53514},
+																								pos:        position{line: 1653, col: 14, offset: 53578},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26137,7 +26137,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53526},
+																							pos:        position{line: 1653, col: 26, offset: 53590},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26149,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26167,26 +26167,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51934},
+													pos:   position{line: 1614, col: 5, offset: 51998},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26197,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -26242,27 +26242,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53792},
+										pos: position{line: 1663, col: 5, offset: 53856},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53792},
+											pos: position{line: 1663, col: 5, offset: 53856},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53792},
+													pos:   position{line: 1663, col: 5, offset: 53856},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54065},
+														pos: position{line: 1670, col: 5, offset: 54129},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54065},
+															pos: position{line: 1670, col: 5, offset: 54129},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54065},
+																	pos: position{line: 1670, col: 5, offset: 54129},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26271,24 +26271,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54077},
+																	pos:   position{line: 1671, col: 5, offset: 54141},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54093},
+																		pos: position{line: 1672, col: 9, offset: 54157},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54094},
+																			pos: position{line: 1672, col: 10, offset: 54158},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54095},
+																					pos:        position{line: 1672, col: 11, offset: 54159},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54102},
+																					pos: position{line: 1672, col: 18, offset: 54166},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54103},
+																						pos:        position{line: 1672, col: 19, offset: 54167},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26299,16 +26299,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54193},
+																	pos: position{line: 1675, col: 7, offset: 54257},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26321,56 +26321,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53833},
+													pos:   position{line: 1664, col: 5, offset: 53897},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53844},
+														pos: position{line: 1664, col: 16, offset: 53908},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54458},
+															pos: position{line: 1685, col: 5, offset: 54522},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54458},
+																pos: position{line: 1685, col: 5, offset: 54522},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54458},
+																		pos: position{line: 1685, col: 5, offset: 54522},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54459},
+																			pos:        position{line: 1685, col: 6, offset: 54523},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54463},
+																		pos:   position{line: 1685, col: 10, offset: 54527},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54477},
+																			pos: position{line: 1686, col: 7, offset: 54541},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54477},
+																					pos: position{line: 1686, col: 7, offset: 54541},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54477},
+																						pos:        position{line: 1686, col: 7, offset: 54541},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54522},
+																					pos: position{line: 1687, col: 7, offset: 54586},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54522},
+																						pos:        position{line: 1687, col: 7, offset: 54586},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54565},
+																					pos: position{line: 1688, col: 7, offset: 54629},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54565},
+																						pos:        position{line: 1688, col: 7, offset: 54629},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26380,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26399,26 +26399,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53883},
+													pos:   position{line: 1665, col: 5, offset: 53947},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26429,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -26474,36 +26474,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56405},
+										pos: position{line: 1753, col: 5, offset: 56469},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56405},
+											pos: position{line: 1753, col: 5, offset: 56469},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56405},
+													pos:   position{line: 1753, col: 5, offset: 56469},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56602},
+														pos: position{line: 1759, col: 5, offset: 56666},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56602},
+															pos: position{line: 1759, col: 5, offset: 56666},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56602},
+																	pos:        position{line: 1759, col: 5, offset: 56666},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56606},
+																	pos:   position{line: 1759, col: 9, offset: 56670},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56611},
+																		pos: position{line: 1759, col: 14, offset: 56675},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56611},
+																			pos: position{line: 1759, col: 14, offset: 56675},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56611},
+																				pos:        position{line: 1759, col: 14, offset: 56675},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26513,18 +26513,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56659},
+																	pos:        position{line: 1759, col: 62, offset: 56723},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26537,26 +26537,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56441},
+													pos:   position{line: 1754, col: 5, offset: 56505},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26567,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -26612,40 +26612,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54758},
+										pos: position{line: 1697, col: 5, offset: 54822},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54758},
+											pos: position{line: 1697, col: 5, offset: 54822},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54758},
+													pos:   position{line: 1697, col: 5, offset: 54822},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55084},
+														pos: position{line: 1705, col: 5, offset: 55148},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55084},
+															pos: position{line: 1705, col: 5, offset: 55148},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55085},
+																pos: position{line: 1705, col: 6, offset: 55149},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55085},
+																		pos: position{line: 1705, col: 6, offset: 55149},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55235},
+																			pos: position{line: 1710, col: 5, offset: 55299},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55235},
+																				pos: position{line: 1710, col: 5, offset: 55299},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55235},
+																						pos:   position{line: 1710, col: 5, offset: 55299},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55246},
+																							pos: position{line: 1710, col: 16, offset: 55310},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55246},
+																								pos: position{line: 1710, col: 16, offset: 55310},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55247},
+																									pos:        position{line: 1710, col: 17, offset: 55311},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26654,7 +26654,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55304},
+																						pos: position{line: 1713, col: 5, offset: 55368},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26662,30 +26662,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55114},
+																		pos: position{line: 1705, col: 35, offset: 55178},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,16 +26694,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55119,
+																		line: 1705, col: 40, offset: 55183,
 																	},
 																},
 															},
@@ -26711,24 +26711,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54793},
+													pos:   position{line: 1698, col: 5, offset: 54857},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55235},
+														pos: position{line: 1710, col: 5, offset: 55299},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55235},
+															pos: position{line: 1710, col: 5, offset: 55299},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55235},
+																	pos:   position{line: 1710, col: 5, offset: 55299},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55246},
+																		pos: position{line: 1710, col: 16, offset: 55310},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55246},
+																			pos: position{line: 1710, col: 16, offset: 55310},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55247},
+																				pos:        position{line: 1710, col: 17, offset: 55311},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26737,7 +26737,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55304},
+																	pos: position{line: 1713, col: 5, offset: 55368},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26745,24 +26745,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54838},
+													pos:   position{line: 1699, col: 5, offset: 54902},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55553},
+														pos: position{line: 1721, col: 5, offset: 55617},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55619},
+																pos: position{line: 1723, col: 9, offset: 55683},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55619},
+																	pos: position{line: 1723, col: 9, offset: 55683},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55619},
+																			pos: position{line: 1723, col: 9, offset: 55683},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,15 +26801,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55638},
+																			pos: position{line: 1724, col: 9, offset: 55702},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26817,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -26882,18 +26882,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55767},
+																pos: position{line: 1730, col: 9, offset: 55831},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55767},
+																	pos: position{line: 1730, col: 9, offset: 55831},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93861},
+																				pos: position{line: 2967, col: 11, offset: 93925},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93861},
+																					pos:        position{line: 2967, col: 11, offset: 93925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26902,15 +26902,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55840},
+																			pos:   position{line: 1731, col: 9, offset: 55904},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55849},
+																				pos: position{line: 1731, col: 18, offset: 55913},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55849},
+																					pos: position{line: 1731, col: 18, offset: 55913},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55849},
+																						pos:        position{line: 1731, col: 18, offset: 55913},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26920,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -26970,10 +26970,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1510, col: 5, offset: 48646},
+							pos:   position{line: 1514, col: 5, offset: 48710},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1510, col: 20, offset: 48661},
+								pos:  position{line: 1514, col: 20, offset: 48725},
 								name: "ExtraListElements",
 							},
 						},
@@ -26983,17 +26983,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1520, col: 1, offset: 48916},
+			pos:  position{line: 1524, col: 1, offset: 48980},
 			expr: &actionExpr{
-				pos: position{line: 1520, col: 22, offset: 48937},
+				pos: position{line: 1524, col: 22, offset: 49001},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1520, col: 22, offset: 48937},
+					pos:   position{line: 1524, col: 22, offset: 49001},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1520, col: 31, offset: 48946},
+						pos: position{line: 1524, col: 31, offset: 49010},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1520, col: 32, offset: 48947},
+							pos:  position{line: 1524, col: 32, offset: 49011},
 							name: "ExtraListElement",
 						},
 					},
@@ -27002,33 +27002,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1524, col: 1, offset: 49027},
+			pos:  position{line: 1528, col: 1, offset: 49091},
 			expr: &actionExpr{
-				pos: position{line: 1525, col: 5, offset: 49166},
+				pos: position{line: 1529, col: 5, offset: 49230},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1525, col: 5, offset: 49166},
+					pos: position{line: 1529, col: 5, offset: 49230},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1526, col: 5, offset: 49178},
+							pos:   position{line: 1530, col: 5, offset: 49242},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1527, col: 9, offset: 49196},
+								pos: position{line: 1531, col: 9, offset: 49260},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1527, col: 13, offset: 49200},
+										pos: position{line: 1531, col: 13, offset: 49264},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1527, col: 13, offset: 49200},
+											pos: position{line: 1531, col: 13, offset: 49264},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1527, col: 13, offset: 49200},
+													pos: position{line: 1531, col: 13, offset: 49264},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -27036,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94134},
+																	pos: position{line: 2980, col: 11, offset: 94198},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94136,
+																		line: 2980, col: 13, offset: 94200,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -27098,33 +27098,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1528, col: 13, offset: 49224},
+													pos:   position{line: 1532, col: 13, offset: 49288},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1528, col: 22, offset: 49233},
+														pos: position{line: 1532, col: 22, offset: 49297},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51895},
+																pos: position{line: 1613, col: 5, offset: 51959},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51895},
+																	pos: position{line: 1613, col: 5, offset: 51959},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51895},
+																			pos:   position{line: 1613, col: 5, offset: 51959},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52103},
+																				pos: position{line: 1620, col: 5, offset: 52167},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52103},
+																					pos: position{line: 1620, col: 5, offset: 52167},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52103},
+																							pos: position{line: 1620, col: 5, offset: 52167},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27133,27 +27133,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52110},
+																							pos:   position{line: 1620, col: 12, offset: 52174},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52173},
+																								pos: position{line: 1622, col: 9, offset: 52237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52173},
+																										pos: position{line: 1622, col: 9, offset: 52237},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52173},
+																											pos: position{line: 1622, col: 9, offset: 52237},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52173},
+																													pos:   position{line: 1622, col: 9, offset: 52237},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52180},
+																														pos: position{line: 1622, col: 16, offset: 52244},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52180},
+																															pos: position{line: 1622, col: 16, offset: 52244},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52181},
+																																pos:        position{line: 1622, col: 17, offset: 52245},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27162,22 +27162,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52281},
+																													pos: position{line: 1626, col: 9, offset: 52345},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52998},
+																										pos: position{line: 1645, col: 11, offset: 53062},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52998},
+																											pos: position{line: 1645, col: 11, offset: 53062},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52998},
+																													pos: position{line: 1645, col: 11, offset: 53062},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52999},
+																														pos:        position{line: 1645, col: 12, offset: 53063},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27185,7 +27185,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 53007},
+																													pos:        position{line: 1645, col: 20, offset: 53071},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27194,20 +27194,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53124},
+																										pos: position{line: 1647, col: 13, offset: 53188},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53124},
+																											pos: position{line: 1647, col: 13, offset: 53188},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53125},
+																													pos:        position{line: 1647, col: 14, offset: 53189},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53132},
+																													pos:        position{line: 1647, col: 21, offset: 53196},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27216,20 +27216,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53252},
+																										pos: position{line: 1649, col: 13, offset: 53316},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53252},
+																											pos: position{line: 1649, col: 13, offset: 53316},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53253},
+																													pos:        position{line: 1649, col: 14, offset: 53317},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53260},
+																													pos:        position{line: 1649, col: 21, offset: 53324},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27238,15 +27238,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53380},
+																										pos: position{line: 1651, col: 13, offset: 53444},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53380},
+																											pos: position{line: 1651, col: 13, offset: 53444},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53380},
+																													pos: position{line: 1651, col: 13, offset: 53444},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53381},
+																														pos:        position{line: 1651, col: 14, offset: 53445},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27254,7 +27254,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53393},
+																													pos:        position{line: 1651, col: 26, offset: 53457},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27263,15 +27263,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53513},
+																										pos: position{line: 1653, col: 13, offset: 53577},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53513},
+																											pos: position{line: 1653, col: 13, offset: 53577},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53513},
+																													pos: position{line: 1653, col: 13, offset: 53577},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53514},
+																														pos:        position{line: 1653, col: 14, offset: 53578},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27279,7 +27279,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53526},
+																													pos:        position{line: 1653, col: 26, offset: 53590},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27291,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27309,26 +27309,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51934},
+																			pos:   position{line: 1614, col: 5, offset: 51998},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27339,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -27384,27 +27384,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53792},
+																pos: position{line: 1663, col: 5, offset: 53856},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53792},
+																	pos: position{line: 1663, col: 5, offset: 53856},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53792},
+																			pos:   position{line: 1663, col: 5, offset: 53856},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 54065},
+																				pos: position{line: 1670, col: 5, offset: 54129},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 54065},
+																					pos: position{line: 1670, col: 5, offset: 54129},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 54065},
+																							pos: position{line: 1670, col: 5, offset: 54129},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27413,24 +27413,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54077},
+																							pos:   position{line: 1671, col: 5, offset: 54141},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54093},
+																								pos: position{line: 1672, col: 9, offset: 54157},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54094},
+																									pos: position{line: 1672, col: 10, offset: 54158},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54095},
+																											pos:        position{line: 1672, col: 11, offset: 54159},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54102},
+																											pos: position{line: 1672, col: 18, offset: 54166},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54103},
+																												pos:        position{line: 1672, col: 19, offset: 54167},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27441,16 +27441,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54193},
+																							pos: position{line: 1675, col: 7, offset: 54257},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27463,56 +27463,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53833},
+																			pos:   position{line: 1664, col: 5, offset: 53897},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53844},
+																				pos: position{line: 1664, col: 16, offset: 53908},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54458},
+																					pos: position{line: 1685, col: 5, offset: 54522},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54458},
+																						pos: position{line: 1685, col: 5, offset: 54522},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54458},
+																								pos: position{line: 1685, col: 5, offset: 54522},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54459},
+																									pos:        position{line: 1685, col: 6, offset: 54523},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54463},
+																								pos:   position{line: 1685, col: 10, offset: 54527},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54477},
+																									pos: position{line: 1686, col: 7, offset: 54541},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54477},
+																											pos: position{line: 1686, col: 7, offset: 54541},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54477},
+																												pos:        position{line: 1686, col: 7, offset: 54541},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54522},
+																											pos: position{line: 1687, col: 7, offset: 54586},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54522},
+																												pos:        position{line: 1687, col: 7, offset: 54586},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54565},
+																											pos: position{line: 1688, col: 7, offset: 54629},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54565},
+																												pos:        position{line: 1688, col: 7, offset: 54629},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27522,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27541,26 +27541,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53883},
+																			pos:   position{line: 1665, col: 5, offset: 53947},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27571,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -27616,36 +27616,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56405},
+																pos: position{line: 1753, col: 5, offset: 56469},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56405},
+																	pos: position{line: 1753, col: 5, offset: 56469},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56405},
+																			pos:   position{line: 1753, col: 5, offset: 56469},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56602},
+																				pos: position{line: 1759, col: 5, offset: 56666},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56602},
+																					pos: position{line: 1759, col: 5, offset: 56666},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56602},
+																							pos:        position{line: 1759, col: 5, offset: 56666},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56606},
+																							pos:   position{line: 1759, col: 9, offset: 56670},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56611},
+																								pos: position{line: 1759, col: 14, offset: 56675},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56611},
+																									pos: position{line: 1759, col: 14, offset: 56675},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56611},
+																										pos:        position{line: 1759, col: 14, offset: 56675},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27655,18 +27655,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56659},
+																							pos:        position{line: 1759, col: 62, offset: 56723},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27679,26 +27679,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56441},
+																			pos:   position{line: 1754, col: 5, offset: 56505},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27709,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -27754,40 +27754,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54758},
+																pos: position{line: 1697, col: 5, offset: 54822},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54758},
+																	pos: position{line: 1697, col: 5, offset: 54822},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54758},
+																			pos:   position{line: 1697, col: 5, offset: 54822},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55084},
+																				pos: position{line: 1705, col: 5, offset: 55148},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55084},
+																					pos: position{line: 1705, col: 5, offset: 55148},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55085},
+																						pos: position{line: 1705, col: 6, offset: 55149},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55085},
+																								pos: position{line: 1705, col: 6, offset: 55149},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55235},
+																									pos: position{line: 1710, col: 5, offset: 55299},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55235},
+																										pos: position{line: 1710, col: 5, offset: 55299},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55235},
+																												pos:   position{line: 1710, col: 5, offset: 55299},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55246},
+																													pos: position{line: 1710, col: 16, offset: 55310},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55246},
+																														pos: position{line: 1710, col: 16, offset: 55310},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55247},
+																															pos:        position{line: 1710, col: 17, offset: 55311},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27796,7 +27796,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55304},
+																												pos: position{line: 1713, col: 5, offset: 55368},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27804,30 +27804,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55114},
+																								pos: position{line: 1705, col: 35, offset: 55178},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,16 +27836,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55119,
+																								line: 1705, col: 40, offset: 55183,
 																							},
 																						},
 																					},
@@ -27853,24 +27853,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54793},
+																			pos:   position{line: 1698, col: 5, offset: 54857},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55235},
+																				pos: position{line: 1710, col: 5, offset: 55299},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55235},
+																					pos: position{line: 1710, col: 5, offset: 55299},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55235},
+																							pos:   position{line: 1710, col: 5, offset: 55299},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55246},
+																								pos: position{line: 1710, col: 16, offset: 55310},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55246},
+																									pos: position{line: 1710, col: 16, offset: 55310},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55247},
+																										pos:        position{line: 1710, col: 17, offset: 55311},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27879,7 +27879,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55304},
+																							pos: position{line: 1713, col: 5, offset: 55368},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27887,24 +27887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54838},
+																			pos:   position{line: 1699, col: 5, offset: 54902},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55553},
+																				pos: position{line: 1721, col: 5, offset: 55617},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55619},
+																						pos: position{line: 1723, col: 9, offset: 55683},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55619},
+																							pos: position{line: 1723, col: 9, offset: 55683},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55619},
+																									pos: position{line: 1723, col: 9, offset: 55683},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,15 +27943,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55638},
+																									pos: position{line: 1724, col: 9, offset: 55702},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94134},
+																													pos: position{line: 2980, col: 11, offset: 94198},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94136,
+																														line: 2980, col: 13, offset: 94200,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -28024,18 +28024,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55767},
+																						pos: position{line: 1730, col: 9, offset: 55831},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55767},
+																							pos: position{line: 1730, col: 9, offset: 55831},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93861},
+																										pos: position{line: 2967, col: 11, offset: 93925},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93861},
+																											pos:        position{line: 2967, col: 11, offset: 93925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28044,15 +28044,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55840},
+																									pos:   position{line: 1731, col: 9, offset: 55904},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55849},
+																										pos: position{line: 1731, col: 18, offset: 55913},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55849},
+																											pos: position{line: 1731, col: 18, offset: 55913},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55849},
+																												pos:        position{line: 1731, col: 18, offset: 55913},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28062,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -28115,50 +28115,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1531, col: 13, offset: 49384},
+										pos: position{line: 1535, col: 13, offset: 49448},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 13, offset: 49384},
+											pos: position{line: 1535, col: 13, offset: 49448},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1531, col: 13, offset: 49384},
+													pos:   position{line: 1535, col: 13, offset: 49448},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1531, col: 24, offset: 49395},
+														pos: position{line: 1535, col: 24, offset: 49459},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1531, col: 25, offset: 49396},
+															pos:  position{line: 1535, col: 25, offset: 49460},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 13, offset: 49427},
+													pos:   position{line: 1536, col: 13, offset: 49491},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1532, col: 22, offset: 49436},
+														pos: position{line: 1536, col: 22, offset: 49500},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1609, col: 5, offset: 51895},
+																pos: position{line: 1613, col: 5, offset: 51959},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1609, col: 5, offset: 51895},
+																	pos: position{line: 1613, col: 5, offset: 51959},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1609, col: 5, offset: 51895},
+																			pos:   position{line: 1613, col: 5, offset: 51959},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1616, col: 5, offset: 52103},
+																				pos: position{line: 1620, col: 5, offset: 52167},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 5, offset: 52103},
+																					pos: position{line: 1620, col: 5, offset: 52167},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1616, col: 5, offset: 52103},
+																							pos: position{line: 1620, col: 5, offset: 52167},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28167,27 +28167,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1616, col: 12, offset: 52110},
+																							pos:   position{line: 1620, col: 12, offset: 52174},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1618, col: 9, offset: 52173},
+																								pos: position{line: 1622, col: 9, offset: 52237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1618, col: 9, offset: 52173},
+																										pos: position{line: 1622, col: 9, offset: 52237},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 9, offset: 52173},
+																											pos: position{line: 1622, col: 9, offset: 52237},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1618, col: 9, offset: 52173},
+																													pos:   position{line: 1622, col: 9, offset: 52237},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1618, col: 16, offset: 52180},
+																														pos: position{line: 1622, col: 16, offset: 52244},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1618, col: 16, offset: 52180},
+																															pos: position{line: 1622, col: 16, offset: 52244},
 																															expr: &litMatcher{
-																																pos:        position{line: 1618, col: 17, offset: 52181},
+																																pos:        position{line: 1622, col: 17, offset: 52245},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28196,22 +28196,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1622, col: 9, offset: 52281},
+																													pos: position{line: 1626, col: 9, offset: 52345},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1641, col: 11, offset: 52998},
+																										pos: position{line: 1645, col: 11, offset: 53062},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1641, col: 11, offset: 52998},
+																											pos: position{line: 1645, col: 11, offset: 53062},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1641, col: 11, offset: 52998},
+																													pos: position{line: 1645, col: 11, offset: 53062},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1641, col: 12, offset: 52999},
+																														pos:        position{line: 1645, col: 12, offset: 53063},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28219,7 +28219,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1641, col: 20, offset: 53007},
+																													pos:        position{line: 1645, col: 20, offset: 53071},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28228,20 +28228,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1643, col: 13, offset: 53124},
+																										pos: position{line: 1647, col: 13, offset: 53188},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1643, col: 13, offset: 53124},
+																											pos: position{line: 1647, col: 13, offset: 53188},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1643, col: 14, offset: 53125},
+																													pos:        position{line: 1647, col: 14, offset: 53189},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1643, col: 21, offset: 53132},
+																													pos:        position{line: 1647, col: 21, offset: 53196},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28250,20 +28250,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 13, offset: 53252},
+																										pos: position{line: 1649, col: 13, offset: 53316},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 13, offset: 53252},
+																											pos: position{line: 1649, col: 13, offset: 53316},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1645, col: 14, offset: 53253},
+																													pos:        position{line: 1649, col: 14, offset: 53317},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 21, offset: 53260},
+																													pos:        position{line: 1649, col: 21, offset: 53324},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28272,15 +28272,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53380},
+																										pos: position{line: 1651, col: 13, offset: 53444},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53380},
+																											pos: position{line: 1651, col: 13, offset: 53444},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1647, col: 13, offset: 53380},
+																													pos: position{line: 1651, col: 13, offset: 53444},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1647, col: 14, offset: 53381},
+																														pos:        position{line: 1651, col: 14, offset: 53445},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28288,7 +28288,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 26, offset: 53393},
+																													pos:        position{line: 1651, col: 26, offset: 53457},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28297,15 +28297,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53513},
+																										pos: position{line: 1653, col: 13, offset: 53577},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53513},
+																											pos: position{line: 1653, col: 13, offset: 53577},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1649, col: 13, offset: 53513},
+																													pos: position{line: 1653, col: 13, offset: 53577},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1649, col: 14, offset: 53514},
+																														pos:        position{line: 1653, col: 14, offset: 53578},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28313,7 +28313,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 26, offset: 53526},
+																													pos:        position{line: 1653, col: 26, offset: 53590},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28325,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28343,26 +28343,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1610, col: 5, offset: 51934},
+																			pos:   position{line: 1614, col: 5, offset: 51998},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28373,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -28418,27 +28418,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1659, col: 5, offset: 53792},
+																pos: position{line: 1663, col: 5, offset: 53856},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1659, col: 5, offset: 53792},
+																	pos: position{line: 1663, col: 5, offset: 53856},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1659, col: 5, offset: 53792},
+																			pos:   position{line: 1663, col: 5, offset: 53856},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1666, col: 5, offset: 54065},
+																				pos: position{line: 1670, col: 5, offset: 54129},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1666, col: 5, offset: 54065},
+																					pos: position{line: 1670, col: 5, offset: 54129},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1666, col: 5, offset: 54065},
+																							pos: position{line: 1670, col: 5, offset: 54129},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28447,24 +28447,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54077},
+																							pos:   position{line: 1671, col: 5, offset: 54141},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 9, offset: 54093},
+																								pos: position{line: 1672, col: 9, offset: 54157},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1668, col: 10, offset: 54094},
+																									pos: position{line: 1672, col: 10, offset: 54158},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1668, col: 11, offset: 54095},
+																											pos:        position{line: 1672, col: 11, offset: 54159},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1668, col: 18, offset: 54102},
+																											pos: position{line: 1672, col: 18, offset: 54166},
 																											expr: &litMatcher{
-																												pos:        position{line: 1668, col: 19, offset: 54103},
+																												pos:        position{line: 1672, col: 19, offset: 54167},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28475,16 +28475,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 7, offset: 54193},
+																							pos: position{line: 1675, col: 7, offset: 54257},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28497,56 +28497,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53833},
+																			pos:   position{line: 1664, col: 5, offset: 53897},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1660, col: 16, offset: 53844},
+																				pos: position{line: 1664, col: 16, offset: 53908},
 																				expr: &actionExpr{
-																					pos: position{line: 1681, col: 5, offset: 54458},
+																					pos: position{line: 1685, col: 5, offset: 54522},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1681, col: 5, offset: 54458},
+																						pos: position{line: 1685, col: 5, offset: 54522},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1681, col: 5, offset: 54458},
+																								pos: position{line: 1685, col: 5, offset: 54522},
 																								expr: &litMatcher{
-																									pos:        position{line: 1681, col: 6, offset: 54459},
+																									pos:        position{line: 1685, col: 6, offset: 54523},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1681, col: 10, offset: 54463},
+																								pos:   position{line: 1685, col: 10, offset: 54527},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 7, offset: 54477},
+																									pos: position{line: 1686, col: 7, offset: 54541},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1682, col: 7, offset: 54477},
+																											pos: position{line: 1686, col: 7, offset: 54541},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 7, offset: 54477},
+																												pos:        position{line: 1686, col: 7, offset: 54541},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1683, col: 7, offset: 54522},
+																											pos: position{line: 1687, col: 7, offset: 54586},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1683, col: 7, offset: 54522},
+																												pos:        position{line: 1687, col: 7, offset: 54586},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1684, col: 7, offset: 54565},
+																											pos: position{line: 1688, col: 7, offset: 54629},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1684, col: 7, offset: 54565},
+																												pos:        position{line: 1688, col: 7, offset: 54629},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28556,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28575,26 +28575,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53883},
+																			pos:   position{line: 1665, col: 5, offset: 53947},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -28650,36 +28650,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1749, col: 5, offset: 56405},
+																pos: position{line: 1753, col: 5, offset: 56469},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1749, col: 5, offset: 56405},
+																	pos: position{line: 1753, col: 5, offset: 56469},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1749, col: 5, offset: 56405},
+																			pos:   position{line: 1753, col: 5, offset: 56469},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1755, col: 5, offset: 56602},
+																				pos: position{line: 1759, col: 5, offset: 56666},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1755, col: 5, offset: 56602},
+																					pos: position{line: 1759, col: 5, offset: 56666},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 5, offset: 56602},
+																							pos:        position{line: 1759, col: 5, offset: 56666},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1755, col: 9, offset: 56606},
+																							pos:   position{line: 1759, col: 9, offset: 56670},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1755, col: 14, offset: 56611},
+																								pos: position{line: 1759, col: 14, offset: 56675},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1755, col: 14, offset: 56611},
+																									pos: position{line: 1759, col: 14, offset: 56675},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1755, col: 14, offset: 56611},
+																										pos:        position{line: 1759, col: 14, offset: 56675},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28689,18 +28689,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1755, col: 62, offset: 56659},
+																							pos:        position{line: 1759, col: 62, offset: 56723},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,26 +28713,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1750, col: 5, offset: 56441},
+																			pos:   position{line: 1754, col: 5, offset: 56505},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1556, col: 5, offset: 50297},
+																				pos: position{line: 1560, col: 5, offset: 50361},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1556, col: 5, offset: 50297},
+																					pos: position{line: 1560, col: 5, offset: 50361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1556, col: 5, offset: 50297},
+																							pos:   position{line: 1560, col: 5, offset: 50361},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1556, col: 14, offset: 50306},
+																								pos: position{line: 1560, col: 14, offset: 50370},
 																								expr: &actionExpr{
-																									pos: position{line: 1556, col: 15, offset: 50307},
+																									pos: position{line: 1560, col: 15, offset: 50371},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1556, col: 15, offset: 50307},
+																										pos: position{line: 1560, col: 15, offset: 50371},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1556, col: 15, offset: 50307},
+																											pos:        position{line: 1560, col: 15, offset: 50371},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28743,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -28788,40 +28788,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1693, col: 5, offset: 54758},
+																pos: position{line: 1697, col: 5, offset: 54822},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 5, offset: 54758},
+																	pos: position{line: 1697, col: 5, offset: 54822},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1693, col: 5, offset: 54758},
+																			pos:   position{line: 1697, col: 5, offset: 54822},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55084},
+																				pos: position{line: 1705, col: 5, offset: 55148},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55084},
+																					pos: position{line: 1705, col: 5, offset: 55148},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55085},
+																						pos: position{line: 1705, col: 6, offset: 55149},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55085},
+																								pos: position{line: 1705, col: 6, offset: 55149},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55235},
+																									pos: position{line: 1710, col: 5, offset: 55299},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55235},
+																										pos: position{line: 1710, col: 5, offset: 55299},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55235},
+																												pos:   position{line: 1710, col: 5, offset: 55299},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55246},
+																													pos: position{line: 1710, col: 16, offset: 55310},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55246},
+																														pos: position{line: 1710, col: 16, offset: 55310},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55247},
+																															pos:        position{line: 1710, col: 17, offset: 55311},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28830,7 +28830,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55304},
+																												pos: position{line: 1713, col: 5, offset: 55368},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28838,30 +28838,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55114},
+																								pos: position{line: 1705, col: 35, offset: 55178},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,16 +28870,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55119,
+																								line: 1705, col: 40, offset: 55183,
 																							},
 																						},
 																					},
@@ -28887,24 +28887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54793},
+																			pos:   position{line: 1698, col: 5, offset: 54857},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55235},
+																				pos: position{line: 1710, col: 5, offset: 55299},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55235},
+																					pos: position{line: 1710, col: 5, offset: 55299},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55235},
+																							pos:   position{line: 1710, col: 5, offset: 55299},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55246},
+																								pos: position{line: 1710, col: 16, offset: 55310},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55246},
+																									pos: position{line: 1710, col: 16, offset: 55310},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55247},
+																										pos:        position{line: 1710, col: 17, offset: 55311},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28913,7 +28913,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55304},
+																							pos: position{line: 1713, col: 5, offset: 55368},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28921,24 +28921,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 5, offset: 54838},
+																			pos:   position{line: 1699, col: 5, offset: 54902},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1717, col: 5, offset: 55553},
+																				pos: position{line: 1721, col: 5, offset: 55617},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1719, col: 9, offset: 55619},
+																						pos: position{line: 1723, col: 9, offset: 55683},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1719, col: 9, offset: 55619},
+																							pos: position{line: 1723, col: 9, offset: 55683},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1719, col: 9, offset: 55619},
+																									pos: position{line: 1723, col: 9, offset: 55683},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,15 +28977,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1720, col: 9, offset: 55638},
+																									pos: position{line: 1724, col: 9, offset: 55702},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28993,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2976, col: 11, offset: 94134},
+																													pos: position{line: 2980, col: 11, offset: 94198},
 																													expr: &anyMatcher{
-																														line: 2976, col: 13, offset: 94136,
+																														line: 2980, col: 13, offset: 94200,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -29058,18 +29058,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1726, col: 9, offset: 55767},
+																						pos: position{line: 1730, col: 9, offset: 55831},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1726, col: 9, offset: 55767},
+																							pos: position{line: 1730, col: 9, offset: 55831},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93861},
+																										pos: position{line: 2967, col: 11, offset: 93925},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93861},
+																											pos:        position{line: 2967, col: 11, offset: 93925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29078,15 +29078,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1727, col: 9, offset: 55840},
+																									pos:   position{line: 1731, col: 9, offset: 55904},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1727, col: 18, offset: 55849},
+																										pos: position{line: 1731, col: 18, offset: 55913},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1727, col: 18, offset: 55849},
+																											pos: position{line: 1731, col: 18, offset: 55913},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1727, col: 18, offset: 55849},
+																												pos:        position{line: 1731, col: 18, offset: 55913},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29096,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -29149,40 +29149,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1535, col: 11, offset: 49621},
+										pos:  position{line: 1539, col: 11, offset: 49685},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81443},
+										pos: position{line: 2530, col: 22, offset: 81507},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81664},
+													pos:        position{line: 2535, col: 31, offset: 81728},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81669},
+													pos: position{line: 2535, col: 36, offset: 81733},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81670},
+														pos:        position{line: 2535, col: 37, offset: 81734},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81470},
+													pos:   position{line: 2530, col: 49, offset: 81534},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91487},
+														pos: position{line: 2882, col: 13, offset: 91551},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91487},
+																pos:        position{line: 2882, col: 13, offset: 91551},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -29233,13 +29233,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1543, col: 5, offset: 49885},
+										pos: position{line: 1547, col: 5, offset: 49949},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1543, col: 5, offset: 49885},
+											pos: position{line: 1547, col: 5, offset: 49949},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1543, col: 5, offset: 49885},
+													pos: position{line: 1547, col: 5, offset: 49949},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -29247,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2976, col: 11, offset: 94134},
+																	pos: position{line: 2980, col: 11, offset: 94198},
 																	expr: &anyMatcher{
-																		line: 2976, col: 13, offset: 94136,
+																		line: 2980, col: 13, offset: 94200,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -29309,23 +29309,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1544, col: 5, offset: 49900},
+													pos: position{line: 1548, col: 5, offset: 49964},
 													expr: &seqExpr{
-														pos: position{line: 1574, col: 27, offset: 50884},
+														pos: position{line: 1578, col: 27, offset: 50948},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1574, col: 27, offset: 50884},
+																pos:        position{line: 1578, col: 27, offset: 50948},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1574, col: 31, offset: 50888},
+																pos: position{line: 1578, col: 31, offset: 50952},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29364,20 +29364,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1545, col: 5, offset: 49928},
+													pos: position{line: 1549, col: 5, offset: 49992},
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52103},
+														pos: position{line: 1620, col: 5, offset: 52167},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52103},
+															pos: position{line: 1620, col: 5, offset: 52167},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52103},
+																	pos: position{line: 1620, col: 5, offset: 52167},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29386,27 +29386,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52110},
+																	pos:   position{line: 1620, col: 12, offset: 52174},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52173},
+																		pos: position{line: 1622, col: 9, offset: 52237},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52173},
+																				pos: position{line: 1622, col: 9, offset: 52237},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52173},
+																					pos: position{line: 1622, col: 9, offset: 52237},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52173},
+																							pos:   position{line: 1622, col: 9, offset: 52237},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52180},
+																								pos: position{line: 1622, col: 16, offset: 52244},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52180},
+																									pos: position{line: 1622, col: 16, offset: 52244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52181},
+																										pos:        position{line: 1622, col: 17, offset: 52245},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29415,22 +29415,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52281},
+																							pos: position{line: 1626, col: 9, offset: 52345},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52998},
+																				pos: position{line: 1645, col: 11, offset: 53062},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52998},
+																					pos: position{line: 1645, col: 11, offset: 53062},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52998},
+																							pos: position{line: 1645, col: 11, offset: 53062},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52999},
+																								pos:        position{line: 1645, col: 12, offset: 53063},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29438,7 +29438,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 53007},
+																							pos:        position{line: 1645, col: 20, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29447,20 +29447,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53124},
+																				pos: position{line: 1647, col: 13, offset: 53188},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53124},
+																					pos: position{line: 1647, col: 13, offset: 53188},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53125},
+																							pos:        position{line: 1647, col: 14, offset: 53189},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53132},
+																							pos:        position{line: 1647, col: 21, offset: 53196},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29469,20 +29469,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53252},
+																				pos: position{line: 1649, col: 13, offset: 53316},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53252},
+																					pos: position{line: 1649, col: 13, offset: 53316},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53253},
+																							pos:        position{line: 1649, col: 14, offset: 53317},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53260},
+																							pos:        position{line: 1649, col: 21, offset: 53324},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29491,15 +29491,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53380},
+																				pos: position{line: 1651, col: 13, offset: 53444},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53380},
+																					pos: position{line: 1651, col: 13, offset: 53444},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53380},
+																							pos: position{line: 1651, col: 13, offset: 53444},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53381},
+																								pos:        position{line: 1651, col: 14, offset: 53445},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29507,7 +29507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53393},
+																							pos:        position{line: 1651, col: 26, offset: 53457},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29516,15 +29516,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53513},
+																				pos: position{line: 1653, col: 13, offset: 53577},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53513},
+																					pos: position{line: 1653, col: 13, offset: 53577},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53513},
+																							pos: position{line: 1653, col: 13, offset: 53577},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53514},
+																								pos:        position{line: 1653, col: 14, offset: 53578},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29532,7 +29532,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53526},
+																							pos:        position{line: 1653, col: 26, offset: 53590},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29544,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29562,20 +29562,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1546, col: 5, offset: 49958},
+													pos: position{line: 1550, col: 5, offset: 50022},
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54065},
+														pos: position{line: 1670, col: 5, offset: 54129},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54065},
+															pos: position{line: 1670, col: 5, offset: 54129},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54065},
+																	pos: position{line: 1670, col: 5, offset: 54129},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29584,24 +29584,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54077},
+																	pos:   position{line: 1671, col: 5, offset: 54141},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54093},
+																		pos: position{line: 1672, col: 9, offset: 54157},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54094},
+																			pos: position{line: 1672, col: 10, offset: 54158},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54095},
+																					pos:        position{line: 1672, col: 11, offset: 54159},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54102},
+																					pos: position{line: 1672, col: 18, offset: 54166},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54103},
+																						pos:        position{line: 1672, col: 19, offset: 54167},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29612,16 +29612,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54193},
+																	pos: position{line: 1675, col: 7, offset: 54257},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29634,29 +29634,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1547, col: 5, offset: 49990},
+													pos: position{line: 1551, col: 5, offset: 50054},
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56602},
+														pos: position{line: 1759, col: 5, offset: 56666},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56602},
+															pos: position{line: 1759, col: 5, offset: 56666},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56602},
+																	pos:        position{line: 1759, col: 5, offset: 56666},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56606},
+																	pos:   position{line: 1759, col: 9, offset: 56670},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56611},
+																		pos: position{line: 1759, col: 14, offset: 56675},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56611},
+																			pos: position{line: 1759, col: 14, offset: 56675},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56611},
+																				pos:        position{line: 1759, col: 14, offset: 56675},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29666,18 +29666,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56659},
+																	pos:        position{line: 1759, col: 62, offset: 56723},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29690,36 +29690,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1548, col: 5, offset: 50020},
+													pos: position{line: 1552, col: 5, offset: 50084},
 													expr: &seqExpr{
-														pos: position{line: 1548, col: 7, offset: 50022},
+														pos: position{line: 1552, col: 7, offset: 50086},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1701, col: 5, offset: 55084},
+																pos: position{line: 1705, col: 5, offset: 55148},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1701, col: 5, offset: 55084},
+																	pos: position{line: 1705, col: 5, offset: 55148},
 																	expr: &seqExpr{
-																		pos: position{line: 1701, col: 6, offset: 55085},
+																		pos: position{line: 1705, col: 6, offset: 55149},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1701, col: 6, offset: 55085},
+																				pos: position{line: 1705, col: 6, offset: 55149},
 																				expr: &actionExpr{
-																					pos: position{line: 1706, col: 5, offset: 55235},
+																					pos: position{line: 1710, col: 5, offset: 55299},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1706, col: 5, offset: 55235},
+																						pos: position{line: 1710, col: 5, offset: 55299},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1706, col: 5, offset: 55235},
+																								pos:   position{line: 1710, col: 5, offset: 55299},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 16, offset: 55246},
+																									pos: position{line: 1710, col: 16, offset: 55310},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1706, col: 16, offset: 55246},
+																										pos: position{line: 1710, col: 16, offset: 55310},
 																										expr: &litMatcher{
-																											pos:        position{line: 1706, col: 17, offset: 55247},
+																											pos:        position{line: 1710, col: 17, offset: 55311},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29728,7 +29728,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1709, col: 5, offset: 55304},
+																								pos: position{line: 1713, col: 5, offset: 55368},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29736,30 +29736,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1701, col: 35, offset: 55114},
+																				pos: position{line: 1705, col: 35, offset: 55178},
 																				expr: &choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,37 +29768,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1701, col: 40, offset: 55119,
+																				line: 1705, col: 40, offset: 55183,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1706, col: 5, offset: 55235},
+																pos: position{line: 1710, col: 5, offset: 55299},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1706, col: 5, offset: 55235},
+																	pos: position{line: 1710, col: 5, offset: 55299},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1706, col: 5, offset: 55235},
+																			pos:   position{line: 1710, col: 5, offset: 55299},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1706, col: 16, offset: 55246},
+																				pos: position{line: 1710, col: 16, offset: 55310},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1706, col: 16, offset: 55246},
+																					pos: position{line: 1710, col: 16, offset: 55310},
 																					expr: &litMatcher{
-																						pos:        position{line: 1706, col: 17, offset: 55247},
+																						pos:        position{line: 1710, col: 17, offset: 55311},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29807,20 +29807,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1709, col: 5, offset: 55304},
+																			pos: position{line: 1713, col: 5, offset: 55368},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1548, col: 59, offset: 50074},
+																pos: position{line: 1552, col: 59, offset: 50138},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -29866,9 +29866,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1549, col: 5, offset: 50092},
+													pos: position{line: 1553, col: 5, offset: 50156},
 													expr: &choiceExpr{
-														pos: position{line: 1549, col: 7, offset: 50094},
+														pos: position{line: 1553, col: 7, offset: 50158},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29879,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 13, offset: 89748},
+																				pos:        position{line: 2817, col: 13, offset: 89812},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30018,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30103,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30192,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30281,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30370,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30459,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30548,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30637,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -30718,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -30771,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2661, col: 19, offset: 85200},
+																pos: position{line: 2665, col: 19, offset: 85264},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2661, col: 19, offset: 85200},
+																		pos:        position{line: 2665, col: 19, offset: 85264},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2661, col: 26, offset: 85207},
+																		pos: position{line: 2665, col: 26, offset: 85271},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -30837,15 +30837,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1550, col: 5, offset: 50152},
+													pos:   position{line: 1554, col: 5, offset: 50216},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 14, offset: 91554},
+														pos: position{line: 2886, col: 14, offset: 91618},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2882, col: 14, offset: 91554},
+															pos: position{line: 2886, col: 14, offset: 91618},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 14, offset: 91554},
+																pos:        position{line: 2886, col: 14, offset: 91618},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -30904,28 +30904,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1566, col: 1, offset: 50543},
+			pos:  position{line: 1570, col: 1, offset: 50607},
 			expr: &actionExpr{
-				pos: position{line: 1567, col: 5, offset: 50568},
+				pos: position{line: 1571, col: 5, offset: 50632},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1567, col: 5, offset: 50568},
+					pos: position{line: 1571, col: 5, offset: 50632},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1567, col: 5, offset: 50568},
+							pos:   position{line: 1571, col: 5, offset: 50632},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1567, col: 12, offset: 50575},
+								pos: position{line: 1571, col: 12, offset: 50639},
 								expr: &seqExpr{
-									pos: position{line: 1567, col: 13, offset: 50576},
+									pos: position{line: 1571, col: 13, offset: 50640},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1567, col: 13, offset: 50576},
+											pos: position{line: 1571, col: 13, offset: 50640},
 											expr: &actionExpr{
-												pos: position{line: 2959, col: 10, offset: 93800},
+												pos: position{line: 2963, col: 10, offset: 93864},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2959, col: 10, offset: 93800},
+													pos:        position{line: 2963, col: 10, offset: 93864},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2968, col: 12, offset: 93971},
+											pos: position{line: 2972, col: 12, offset: 94035},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2968, col: 13, offset: 93972},
+												pos: position{line: 2972, col: 13, offset: 94036},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2968, col: 13, offset: 93972},
+														pos:        position{line: 2972, col: 13, offset: 94036},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 20, offset: 93979},
+														pos:        position{line: 2972, col: 20, offset: 94043},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2968, col: 29, offset: 93988},
+														pos:        position{line: 2972, col: 29, offset: 94052},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30965,18 +30965,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1568, col: 5, offset: 50598},
+							pos:        position{line: 1572, col: 5, offset: 50662},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1568, col: 9, offset: 50602},
+							pos: position{line: 1572, col: 9, offset: 50666},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,31 +31015,31 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1569, col: 5, offset: 50617},
+							pos:   position{line: 1573, col: 5, offset: 50681},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1569, col: 13, offset: 50625},
+								pos: position{line: 1573, col: 13, offset: 50689},
 								expr: &choiceExpr{
-									pos: position{line: 1569, col: 14, offset: 50626},
+									pos: position{line: 1573, col: 14, offset: 50690},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1569, col: 14, offset: 50626},
+											pos: position{line: 1573, col: 14, offset: 50690},
 											run: (*parser).callonListContinuation29,
 											expr: &seqExpr{
-												pos: position{line: 1569, col: 14, offset: 50626},
+												pos: position{line: 1573, col: 14, offset: 50690},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1569, col: 14, offset: 50626},
+														pos: position{line: 1573, col: 14, offset: 50690},
 														expr: &choiceExpr{
-															pos: position{line: 1569, col: 15, offset: 50627},
+															pos: position{line: 1573, col: 15, offset: 50691},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -31048,18 +31048,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2976, col: 11, offset: 94134},
+																				pos: position{line: 2980, col: 11, offset: 94198},
 																				expr: &anyMatcher{
-																					line: 2976, col: 13, offset: 94136,
+																					line: 2980, col: 13, offset: 94200,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonListContinuation38,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -31068,28 +31068,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuation41,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31098,9 +31098,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -31109,36 +31109,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2526, col: 22, offset: 81443},
+																	pos: position{line: 2530, col: 22, offset: 81507},
 																	run: (*parser).callonListContinuation48,
 																	expr: &seqExpr{
-																		pos: position{line: 2526, col: 22, offset: 81443},
+																		pos: position{line: 2530, col: 22, offset: 81507},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2531, col: 31, offset: 81664},
+																				pos:        position{line: 2535, col: 31, offset: 81728},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2531, col: 36, offset: 81669},
+																				pos: position{line: 2535, col: 36, offset: 81733},
 																				expr: &litMatcher{
-																					pos:        position{line: 2531, col: 37, offset: 81670},
+																					pos:        position{line: 2535, col: 37, offset: 81734},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2526, col: 49, offset: 81470},
+																				pos:   position{line: 2530, col: 49, offset: 81534},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 13, offset: 91487},
+																					pos: position{line: 2882, col: 13, offset: 91551},
 																					run: (*parser).callonListContinuation54,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2878, col: 13, offset: 91487},
+																						pos: position{line: 2882, col: 13, offset: 91551},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 13, offset: 91487},
+																							pos:        position{line: 2882, col: 13, offset: 91551},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -31148,28 +31148,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuation58,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31178,9 +31178,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -31192,10 +31192,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1569, col: 47, offset: 50659},
+														pos:   position{line: 1573, col: 47, offset: 50723},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1569, col: 49, offset: 50661},
+															pos:  position{line: 1573, col: 49, offset: 50725},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31203,13 +31203,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1569, col: 93, offset: 50705},
+											pos: position{line: 1573, col: 93, offset: 50769},
 											run: (*parser).callonListContinuation67,
 											expr: &seqExpr{
-												pos: position{line: 1569, col: 93, offset: 50705},
+												pos: position{line: 1573, col: 93, offset: 50769},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1569, col: 93, offset: 50705},
+														pos: position{line: 1573, col: 93, offset: 50769},
 														expr: &actionExpr{
 															pos: position{line: 697, col: 14, offset: 22135},
 															run: (*parser).callonListContinuation70,
@@ -31217,18 +31217,18 @@ var g = &grammar{
 																pos: position{line: 697, col: 14, offset: 22135},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2976, col: 11, offset: 94134},
+																		pos: position{line: 2980, col: 11, offset: 94198},
 																		expr: &anyMatcher{
-																			line: 2976, col: 13, offset: 94136,
+																			line: 2980, col: 13, offset: 94200,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 697, col: 21, offset: 22142},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonListContinuation75,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31237,28 +31237,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonListContinuation78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -31267,9 +31267,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -31279,10 +31279,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1569, col: 104, offset: 50716},
+														pos:   position{line: 1573, col: 104, offset: 50780},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1569, col: 106, offset: 50718},
+															pos:  position{line: 1573, col: 106, offset: 50782},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31299,46 +31299,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1576, col: 1, offset: 50904},
+			pos:  position{line: 1580, col: 1, offset: 50968},
 			expr: &actionExpr{
-				pos: position{line: 1577, col: 5, offset: 50950},
+				pos: position{line: 1581, col: 5, offset: 51014},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1577, col: 5, offset: 50950},
+					pos: position{line: 1581, col: 5, offset: 51014},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1578, col: 5, offset: 50978},
+							pos: position{line: 1582, col: 5, offset: 51042},
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 5, offset: 48817},
+								pos: position{line: 1519, col: 5, offset: 48881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1609, col: 5, offset: 51895},
+										pos: position{line: 1613, col: 5, offset: 51959},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1609, col: 5, offset: 51895},
+											pos: position{line: 1613, col: 5, offset: 51959},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1609, col: 5, offset: 51895},
+													pos:   position{line: 1613, col: 5, offset: 51959},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1616, col: 5, offset: 52103},
+														pos: position{line: 1620, col: 5, offset: 52167},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1616, col: 5, offset: 52103},
+															pos: position{line: 1620, col: 5, offset: 52167},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1616, col: 5, offset: 52103},
+																	pos: position{line: 1620, col: 5, offset: 52167},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31347,27 +31347,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1616, col: 12, offset: 52110},
+																	pos:   position{line: 1620, col: 12, offset: 52174},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1618, col: 9, offset: 52173},
+																		pos: position{line: 1622, col: 9, offset: 52237},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1618, col: 9, offset: 52173},
+																				pos: position{line: 1622, col: 9, offset: 52237},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 9, offset: 52173},
+																					pos: position{line: 1622, col: 9, offset: 52237},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1618, col: 9, offset: 52173},
+																							pos:   position{line: 1622, col: 9, offset: 52237},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1618, col: 16, offset: 52180},
+																								pos: position{line: 1622, col: 16, offset: 52244},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1618, col: 16, offset: 52180},
+																									pos: position{line: 1622, col: 16, offset: 52244},
 																									expr: &litMatcher{
-																										pos:        position{line: 1618, col: 17, offset: 52181},
+																										pos:        position{line: 1622, col: 17, offset: 52245},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31376,22 +31376,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1622, col: 9, offset: 52281},
+																							pos: position{line: 1626, col: 9, offset: 52345},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1641, col: 11, offset: 52998},
+																				pos: position{line: 1645, col: 11, offset: 53062},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1641, col: 11, offset: 52998},
+																					pos: position{line: 1645, col: 11, offset: 53062},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1641, col: 11, offset: 52998},
+																							pos: position{line: 1645, col: 11, offset: 53062},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1641, col: 12, offset: 52999},
+																								pos:        position{line: 1645, col: 12, offset: 53063},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31399,7 +31399,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1641, col: 20, offset: 53007},
+																							pos:        position{line: 1645, col: 20, offset: 53071},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31408,20 +31408,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1643, col: 13, offset: 53124},
+																				pos: position{line: 1647, col: 13, offset: 53188},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1643, col: 13, offset: 53124},
+																					pos: position{line: 1647, col: 13, offset: 53188},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1643, col: 14, offset: 53125},
+																							pos:        position{line: 1647, col: 14, offset: 53189},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1643, col: 21, offset: 53132},
+																							pos:        position{line: 1647, col: 21, offset: 53196},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31430,20 +31430,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 13, offset: 53252},
+																				pos: position{line: 1649, col: 13, offset: 53316},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 13, offset: 53252},
+																					pos: position{line: 1649, col: 13, offset: 53316},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1645, col: 14, offset: 53253},
+																							pos:        position{line: 1649, col: 14, offset: 53317},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 21, offset: 53260},
+																							pos:        position{line: 1649, col: 21, offset: 53324},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31452,15 +31452,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53380},
+																				pos: position{line: 1651, col: 13, offset: 53444},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53380},
+																					pos: position{line: 1651, col: 13, offset: 53444},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1647, col: 13, offset: 53380},
+																							pos: position{line: 1651, col: 13, offset: 53444},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1647, col: 14, offset: 53381},
+																								pos:        position{line: 1651, col: 14, offset: 53445},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31468,7 +31468,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 26, offset: 53393},
+																							pos:        position{line: 1651, col: 26, offset: 53457},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31477,15 +31477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53513},
+																				pos: position{line: 1653, col: 13, offset: 53577},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53513},
+																					pos: position{line: 1653, col: 13, offset: 53577},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1649, col: 13, offset: 53513},
+																							pos: position{line: 1653, col: 13, offset: 53577},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1649, col: 14, offset: 53514},
+																								pos:        position{line: 1653, col: 14, offset: 53578},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31493,7 +31493,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 26, offset: 53526},
+																							pos:        position{line: 1653, col: 26, offset: 53590},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31505,12 +31505,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31523,26 +31523,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1610, col: 5, offset: 51934},
+													pos:   position{line: 1614, col: 5, offset: 51998},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31553,28 +31553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31583,9 +31583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -31598,27 +31598,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1659, col: 5, offset: 53792},
+										pos: position{line: 1663, col: 5, offset: 53856},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1659, col: 5, offset: 53792},
+											pos: position{line: 1663, col: 5, offset: 53856},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1659, col: 5, offset: 53792},
+													pos:   position{line: 1663, col: 5, offset: 53856},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1666, col: 5, offset: 54065},
+														pos: position{line: 1670, col: 5, offset: 54129},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1666, col: 5, offset: 54065},
+															pos: position{line: 1670, col: 5, offset: 54129},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1666, col: 5, offset: 54065},
+																	pos: position{line: 1670, col: 5, offset: 54129},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31627,24 +31627,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54077},
+																	pos:   position{line: 1671, col: 5, offset: 54141},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 9, offset: 54093},
+																		pos: position{line: 1672, col: 9, offset: 54157},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1668, col: 10, offset: 54094},
+																			pos: position{line: 1672, col: 10, offset: 54158},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1668, col: 11, offset: 54095},
+																					pos:        position{line: 1672, col: 11, offset: 54159},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1668, col: 18, offset: 54102},
+																					pos: position{line: 1672, col: 18, offset: 54166},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 19, offset: 54103},
+																						pos:        position{line: 1672, col: 19, offset: 54167},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31655,16 +31655,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 7, offset: 54193},
+																	pos: position{line: 1675, col: 7, offset: 54257},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31677,56 +31677,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53833},
+													pos:   position{line: 1664, col: 5, offset: 53897},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1660, col: 16, offset: 53844},
+														pos: position{line: 1664, col: 16, offset: 53908},
 														expr: &actionExpr{
-															pos: position{line: 1681, col: 5, offset: 54458},
+															pos: position{line: 1685, col: 5, offset: 54522},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1681, col: 5, offset: 54458},
+																pos: position{line: 1685, col: 5, offset: 54522},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1681, col: 5, offset: 54458},
+																		pos: position{line: 1685, col: 5, offset: 54522},
 																		expr: &litMatcher{
-																			pos:        position{line: 1681, col: 6, offset: 54459},
+																			pos:        position{line: 1685, col: 6, offset: 54523},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1681, col: 10, offset: 54463},
+																		pos:   position{line: 1685, col: 10, offset: 54527},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 7, offset: 54477},
+																			pos: position{line: 1686, col: 7, offset: 54541},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1682, col: 7, offset: 54477},
+																					pos: position{line: 1686, col: 7, offset: 54541},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 7, offset: 54477},
+																						pos:        position{line: 1686, col: 7, offset: 54541},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1683, col: 7, offset: 54522},
+																					pos: position{line: 1687, col: 7, offset: 54586},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 7, offset: 54522},
+																						pos:        position{line: 1687, col: 7, offset: 54586},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1684, col: 7, offset: 54565},
+																					pos: position{line: 1688, col: 7, offset: 54629},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1684, col: 7, offset: 54565},
+																						pos:        position{line: 1688, col: 7, offset: 54629},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31736,12 +31736,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31755,26 +31755,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53883},
+													pos:   position{line: 1665, col: 5, offset: 53947},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31785,28 +31785,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31815,9 +31815,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -31830,36 +31830,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1749, col: 5, offset: 56405},
+										pos: position{line: 1753, col: 5, offset: 56469},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1749, col: 5, offset: 56405},
+											pos: position{line: 1753, col: 5, offset: 56469},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1749, col: 5, offset: 56405},
+													pos:   position{line: 1753, col: 5, offset: 56469},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1755, col: 5, offset: 56602},
+														pos: position{line: 1759, col: 5, offset: 56666},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1755, col: 5, offset: 56602},
+															pos: position{line: 1759, col: 5, offset: 56666},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1755, col: 5, offset: 56602},
+																	pos:        position{line: 1759, col: 5, offset: 56666},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1755, col: 9, offset: 56606},
+																	pos:   position{line: 1759, col: 9, offset: 56670},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 14, offset: 56611},
+																		pos: position{line: 1759, col: 14, offset: 56675},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1755, col: 14, offset: 56611},
+																			pos: position{line: 1759, col: 14, offset: 56675},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1755, col: 14, offset: 56611},
+																				pos:        position{line: 1759, col: 14, offset: 56675},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31869,18 +31869,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1755, col: 62, offset: 56659},
+																	pos:        position{line: 1759, col: 62, offset: 56723},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31893,26 +31893,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1750, col: 5, offset: 56441},
+													pos:   position{line: 1754, col: 5, offset: 56505},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1556, col: 5, offset: 50297},
+														pos: position{line: 1560, col: 5, offset: 50361},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1556, col: 5, offset: 50297},
+															pos: position{line: 1560, col: 5, offset: 50361},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1556, col: 5, offset: 50297},
+																	pos:   position{line: 1560, col: 5, offset: 50361},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1556, col: 14, offset: 50306},
+																		pos: position{line: 1560, col: 14, offset: 50370},
 																		expr: &actionExpr{
-																			pos: position{line: 1556, col: 15, offset: 50307},
+																			pos: position{line: 1560, col: 15, offset: 50371},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1556, col: 15, offset: 50307},
+																				pos: position{line: 1560, col: 15, offset: 50371},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1556, col: 15, offset: 50307},
+																					pos:        position{line: 1560, col: 15, offset: 50371},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31923,28 +31923,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31953,9 +31953,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -31968,40 +31968,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1693, col: 5, offset: 54758},
+										pos: position{line: 1697, col: 5, offset: 54822},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1693, col: 5, offset: 54758},
+											pos: position{line: 1697, col: 5, offset: 54822},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1693, col: 5, offset: 54758},
+													pos:   position{line: 1697, col: 5, offset: 54822},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1701, col: 5, offset: 55084},
+														pos: position{line: 1705, col: 5, offset: 55148},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1701, col: 5, offset: 55084},
+															pos: position{line: 1705, col: 5, offset: 55148},
 															expr: &seqExpr{
-																pos: position{line: 1701, col: 6, offset: 55085},
+																pos: position{line: 1705, col: 6, offset: 55149},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1701, col: 6, offset: 55085},
+																		pos: position{line: 1705, col: 6, offset: 55149},
 																		expr: &actionExpr{
-																			pos: position{line: 1706, col: 5, offset: 55235},
+																			pos: position{line: 1710, col: 5, offset: 55299},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1706, col: 5, offset: 55235},
+																				pos: position{line: 1710, col: 5, offset: 55299},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1706, col: 5, offset: 55235},
+																						pos:   position{line: 1710, col: 5, offset: 55299},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1706, col: 16, offset: 55246},
+																							pos: position{line: 1710, col: 16, offset: 55310},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1706, col: 16, offset: 55246},
+																								pos: position{line: 1710, col: 16, offset: 55310},
 																								expr: &litMatcher{
-																									pos:        position{line: 1706, col: 17, offset: 55247},
+																									pos:        position{line: 1710, col: 17, offset: 55311},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -32010,7 +32010,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1709, col: 5, offset: 55304},
+																						pos: position{line: 1713, col: 5, offset: 55368},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -32018,30 +32018,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1701, col: 35, offset: 55114},
+																		pos: position{line: 1705, col: 35, offset: 55178},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32050,16 +32050,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1701, col: 40, offset: 55119,
+																		line: 1705, col: 40, offset: 55183,
 																	},
 																},
 															},
@@ -32067,24 +32067,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1694, col: 5, offset: 54793},
+													pos:   position{line: 1698, col: 5, offset: 54857},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1706, col: 5, offset: 55235},
+														pos: position{line: 1710, col: 5, offset: 55299},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1706, col: 5, offset: 55235},
+															pos: position{line: 1710, col: 5, offset: 55299},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1706, col: 5, offset: 55235},
+																	pos:   position{line: 1710, col: 5, offset: 55299},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1706, col: 16, offset: 55246},
+																		pos: position{line: 1710, col: 16, offset: 55310},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1706, col: 16, offset: 55246},
+																			pos: position{line: 1710, col: 16, offset: 55310},
 																			expr: &litMatcher{
-																				pos:        position{line: 1706, col: 17, offset: 55247},
+																				pos:        position{line: 1710, col: 17, offset: 55311},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -32093,7 +32093,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1709, col: 5, offset: 55304},
+																	pos: position{line: 1713, col: 5, offset: 55368},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -32101,24 +32101,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1695, col: 5, offset: 54838},
+													pos:   position{line: 1699, col: 5, offset: 54902},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1717, col: 5, offset: 55553},
+														pos: position{line: 1721, col: 5, offset: 55617},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1719, col: 9, offset: 55619},
+																pos: position{line: 1723, col: 9, offset: 55683},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1719, col: 9, offset: 55619},
+																	pos: position{line: 1723, col: 9, offset: 55683},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1719, col: 9, offset: 55619},
+																			pos: position{line: 1723, col: 9, offset: 55683},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
+																				pos: position{line: 2963, col: 10, offset: 93864},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32127,28 +32127,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32157,15 +32157,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1720, col: 9, offset: 55638},
+																			pos: position{line: 1724, col: 9, offset: 55702},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -32173,18 +32173,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2976, col: 11, offset: 94134},
+																							pos: position{line: 2980, col: 11, offset: 94198},
 																							expr: &anyMatcher{
-																								line: 2976, col: 13, offset: 94136,
+																								line: 2980, col: 13, offset: 94200,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32193,28 +32193,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32223,9 +32223,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -32238,18 +32238,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 9, offset: 55767},
+																pos: position{line: 1730, col: 9, offset: 55831},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 9, offset: 55767},
+																	pos: position{line: 1730, col: 9, offset: 55831},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2963, col: 11, offset: 93861},
+																				pos: position{line: 2967, col: 11, offset: 93925},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 11, offset: 93861},
+																					pos:        position{line: 2967, col: 11, offset: 93925},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32258,15 +32258,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 9, offset: 55840},
+																			pos:   position{line: 1731, col: 9, offset: 55904},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 18, offset: 55849},
+																				pos: position{line: 1731, col: 18, offset: 55913},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1727, col: 18, offset: 55849},
+																					pos: position{line: 1731, col: 18, offset: 55913},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1727, col: 18, offset: 55849},
+																						pos:        position{line: 1731, col: 18, offset: 55913},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32276,28 +32276,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32306,9 +32306,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -32326,21 +32326,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1579, col: 5, offset: 50995},
+							pos:   position{line: 1583, col: 5, offset: 51059},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1579, col: 16, offset: 51006},
+								pos: position{line: 1583, col: 16, offset: 51070},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1579, col: 17, offset: 51007},
+									pos:  position{line: 1583, col: 17, offset: 51071},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1580, col: 5, offset: 51029},
+							pos:   position{line: 1584, col: 5, offset: 51093},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1581, col: 9, offset: 51047},
+								pos: position{line: 1585, col: 9, offset: 51111},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32349,18 +32349,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2976, col: 11, offset: 94134},
+													pos: position{line: 2980, col: 11, offset: 94198},
 													expr: &anyMatcher{
-														line: 2976, col: 13, offset: 94136,
+														line: 2980, col: 13, offset: 94200,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32369,28 +32369,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32399,9 +32399,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -32410,7 +32410,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1582, col: 11, offset: 51067},
+										pos:  position{line: 1586, col: 11, offset: 51131},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32466,10 +32466,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32478,28 +32478,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32508,9 +32508,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -32571,10 +32571,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32583,28 +32583,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32613,9 +32613,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -32669,10 +32669,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32681,28 +32681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32711,9 +32711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -32785,10 +32785,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32797,28 +32797,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32827,9 +32827,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -32845,9 +32845,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -32863,21 +32863,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32887,28 +32887,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32917,9 +32917,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -32981,10 +32981,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32993,28 +32993,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33023,9 +33023,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -33041,9 +33041,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -33098,10 +33098,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33110,28 +33110,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33140,9 +33140,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -33214,10 +33214,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33226,28 +33226,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33256,9 +33256,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -33292,21 +33292,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33316,28 +33316,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33346,9 +33346,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -33413,10 +33413,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33425,28 +33425,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33455,9 +33455,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -33473,9 +33473,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -33527,10 +33527,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33539,28 +33539,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33569,9 +33569,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -33605,10 +33605,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33617,28 +33617,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33647,9 +33647,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -33667,21 +33667,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33691,28 +33691,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33721,9 +33721,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -33751,10 +33751,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33763,28 +33763,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33793,9 +33793,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -33852,10 +33852,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33864,28 +33864,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33894,9 +33894,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -33968,10 +33968,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33980,28 +33980,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34010,9 +34010,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -34028,9 +34028,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -34046,21 +34046,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34070,28 +34070,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34100,9 +34100,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -34167,10 +34167,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34179,28 +34179,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34209,9 +34209,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -34227,9 +34227,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -34285,10 +34285,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34297,28 +34297,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34327,9 +34327,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -34401,10 +34401,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34413,28 +34413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34443,9 +34443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -34461,9 +34461,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -34479,21 +34479,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34503,28 +34503,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34533,9 +34533,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -34600,10 +34600,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34612,28 +34612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34642,9 +34642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -34660,9 +34660,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -34718,10 +34718,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34730,28 +34730,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34760,9 +34760,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -34834,10 +34834,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34846,28 +34846,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34876,9 +34876,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -34894,9 +34894,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -34912,21 +34912,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34936,28 +34936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34966,9 +34966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -35033,10 +35033,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35045,28 +35045,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35075,9 +35075,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -35093,9 +35093,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -35129,18 +35129,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94134},
+																					pos: position{line: 2980, col: 11, offset: 94198},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94136,
+																						line: 2980, col: 13, offset: 94200,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -35149,28 +35149,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35179,9 +35179,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -35200,12 +35200,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91554},
+																		pos: position{line: 2886, col: 14, offset: 91618},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91554},
+																			pos: position{line: 2886, col: 14, offset: 91618},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91554},
+																				pos:        position{line: 2886, col: 14, offset: 91618},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35215,28 +35215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35245,9 +35245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -35279,18 +35279,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2976, col: 11, offset: 94134},
+																								pos: position{line: 2980, col: 11, offset: 94198},
 																								expr: &anyMatcher{
-																									line: 2976, col: 13, offset: 94136,
+																									line: 2980, col: 13, offset: 94200,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35299,28 +35299,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35329,9 +35329,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -35350,12 +35350,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91554},
+																					pos: position{line: 2886, col: 14, offset: 91618},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91554},
+																						pos: position{line: 2886, col: 14, offset: 91618},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91554},
+																							pos:        position{line: 2886, col: 14, offset: 91618},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35365,28 +35365,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35395,9 +35395,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -35406,21 +35406,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1824, col: 5, offset: 59001},
+																	pos: position{line: 1828, col: 5, offset: 59065},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1824, col: 5, offset: 59001},
+																		pos: position{line: 1828, col: 5, offset: 59065},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1824, col: 5, offset: 59001},
+																				pos:   position{line: 1828, col: 5, offset: 59065},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 14, offset: 91554},
+																					pos: position{line: 2886, col: 14, offset: 91618},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 14, offset: 91554},
+																						pos: position{line: 2886, col: 14, offset: 91618},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 14, offset: 91554},
+																							pos:        position{line: 2886, col: 14, offset: 91618},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35430,32 +35430,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1825, col: 5, offset: 59025},
+																				pos: position{line: 1829, col: 5, offset: 59089},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35464,9 +35464,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -35513,10 +35513,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35525,28 +35525,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35555,9 +35555,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -35605,10 +35605,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35617,28 +35617,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35647,9 +35647,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -35658,9 +35658,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -35676,21 +35676,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35700,28 +35700,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35730,9 +35730,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -35777,10 +35777,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35789,28 +35789,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35819,9 +35819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -35830,9 +35830,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -35888,10 +35888,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35900,28 +35900,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35930,9 +35930,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -36004,10 +36004,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36016,28 +36016,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36046,9 +36046,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -36064,9 +36064,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -36082,21 +36082,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36106,28 +36106,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36136,9 +36136,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -36203,10 +36203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36215,28 +36215,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36245,9 +36245,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -36263,9 +36263,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -36321,10 +36321,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36333,28 +36333,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36363,9 +36363,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -36437,10 +36437,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36449,28 +36449,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36479,9 +36479,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -36497,9 +36497,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -36515,21 +36515,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36539,28 +36539,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36569,9 +36569,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -36636,10 +36636,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36648,28 +36648,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36678,9 +36678,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -36696,9 +36696,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -36754,10 +36754,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36766,28 +36766,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36796,9 +36796,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -36870,10 +36870,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2959, col: 10, offset: 93800},
+																												pos: position{line: 2963, col: 10, offset: 93864},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2959, col: 10, offset: 93800},
+																													pos:        position{line: 2963, col: 10, offset: 93864},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36882,28 +36882,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2981, col: 8, offset: 94198},
+																											pos: position{line: 2985, col: 8, offset: 94262},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2968, col: 12, offset: 93971},
+																													pos: position{line: 2972, col: 12, offset: 94035},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2968, col: 13, offset: 93972},
+																														pos: position{line: 2972, col: 13, offset: 94036},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36912,9 +36912,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2978, col: 8, offset: 94148},
+																													pos: position{line: 2982, col: 8, offset: 94212},
 																													expr: &anyMatcher{
-																														line: 2978, col: 9, offset: 94149,
+																														line: 2982, col: 9, offset: 94213,
 																													},
 																												},
 																											},
@@ -36930,9 +36930,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -36948,21 +36948,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2976, col: 11, offset: 94134},
+																						pos: position{line: 2980, col: 11, offset: 94198},
 																						expr: &anyMatcher{
-																							line: 2976, col: 13, offset: 94136,
+																							line: 2980, col: 13, offset: 94200,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 13, offset: 91487},
+																							pos: position{line: 2882, col: 13, offset: 91551},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2878, col: 13, offset: 91487},
+																								pos: position{line: 2882, col: 13, offset: 91551},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 13, offset: 91487},
+																									pos:        position{line: 2882, col: 13, offset: 91551},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36972,28 +36972,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37002,9 +37002,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -37069,10 +37069,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37081,28 +37081,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -37111,9 +37111,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -37129,9 +37129,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -37142,27 +37142,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2764, col: 18, offset: 88107},
+										pos: position{line: 2768, col: 18, offset: 88171},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2765, col: 9, offset: 88117},
+											pos: position{line: 2769, col: 9, offset: 88181},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2765, col: 9, offset: 88117},
+													pos: position{line: 2769, col: 9, offset: 88181},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2765, col: 9, offset: 88117},
+															pos:        position{line: 2769, col: 9, offset: 88181},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2765, col: 15, offset: 88123},
+															pos: position{line: 2769, col: 15, offset: 88187},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37171,28 +37171,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94198},
+															pos: position{line: 2985, col: 8, offset: 94262},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93971},
+																	pos: position{line: 2972, col: 12, offset: 94035},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93972},
+																		pos: position{line: 2972, col: 13, offset: 94036},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93972},
+																				pos:        position{line: 2972, col: 13, offset: 94036},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93979},
+																				pos:        position{line: 2972, col: 20, offset: 94043},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93988},
+																				pos:        position{line: 2972, col: 29, offset: 94052},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37201,9 +37201,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -37211,43 +37211,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2766, col: 11, offset: 88156},
+													pos: position{line: 2770, col: 11, offset: 88220},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2766, col: 12, offset: 88157},
+															pos: position{line: 2770, col: 12, offset: 88221},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2766, col: 12, offset: 88157},
+																	pos:        position{line: 2770, col: 12, offset: 88221},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 20, offset: 88165},
+																	pos:        position{line: 2770, col: 20, offset: 88229},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 30, offset: 88175},
+																	pos:        position{line: 2770, col: 30, offset: 88239},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 38, offset: 88183},
+																	pos:        position{line: 2770, col: 38, offset: 88247},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 48, offset: 88193},
+																	pos:        position{line: 2770, col: 48, offset: 88257},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2766, col: 56, offset: 88201},
+																	pos:        position{line: 2770, col: 56, offset: 88265},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37255,12 +37255,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2766, col: 65, offset: 88210},
+															pos: position{line: 2770, col: 65, offset: 88274},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37269,28 +37269,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94198},
+															pos: position{line: 2985, col: 8, offset: 94262},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93971},
+																	pos: position{line: 2972, col: 12, offset: 94035},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93972},
+																		pos: position{line: 2972, col: 13, offset: 94036},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93972},
+																				pos:        position{line: 2972, col: 13, offset: 94036},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93979},
+																				pos:        position{line: 2972, col: 20, offset: 94043},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93988},
+																				pos:        position{line: 2972, col: 29, offset: 94052},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37299,38 +37299,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2766, col: 76, offset: 88221},
+															pos: position{line: 2770, col: 76, offset: 88285},
 															expr: &choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37339,9 +37339,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -37353,32 +37353,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1586, col: 11, offset: 51209},
+										pos:  position{line: 1590, col: 11, offset: 51273},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1587, col: 11, offset: 51230},
+										pos:  position{line: 1591, col: 11, offset: 51294},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2655, col: 5, offset: 85043},
+										pos: position{line: 2659, col: 5, offset: 85107},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2655, col: 5, offset: 85043},
+											pos: position{line: 2659, col: 5, offset: 85107},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2661, col: 19, offset: 85200},
+													pos:        position{line: 2665, col: 19, offset: 85264},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2661, col: 26, offset: 85207},
+													pos: position{line: 2665, col: 26, offset: 85271},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37387,28 +37387,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37417,20 +37417,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2656, col: 5, offset: 85067},
+													pos:   position{line: 2660, col: 5, offset: 85131},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2656, col: 11, offset: 85073},
+														pos: position{line: 2660, col: 11, offset: 85137},
 														expr: &choiceExpr{
-															pos: position{line: 2656, col: 12, offset: 85074},
+															pos: position{line: 2660, col: 12, offset: 85138},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37439,18 +37439,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2976, col: 11, offset: 94134},
+																				pos: position{line: 2980, col: 11, offset: 94198},
 																				expr: &anyMatcher{
-																					line: 2976, col: 13, offset: 94136,
+																					line: 2980, col: 13, offset: 94200,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37459,28 +37459,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2981, col: 8, offset: 94198},
+																				pos: position{line: 2985, col: 8, offset: 94262},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37489,9 +37489,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -37500,32 +37500,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2668, col: 5, offset: 85319},
+																	pos: position{line: 2672, col: 5, offset: 85383},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2668, col: 5, offset: 85319},
+																		pos: position{line: 2672, col: 5, offset: 85383},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2668, col: 5, offset: 85319},
+																				pos: position{line: 2672, col: 5, offset: 85383},
 																				expr: &choiceExpr{
-																					pos: position{line: 2665, col: 22, offset: 85280},
+																					pos: position{line: 2669, col: 22, offset: 85344},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2661, col: 19, offset: 85200},
+																							pos: position{line: 2665, col: 19, offset: 85264},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2661, col: 19, offset: 85200},
+																									pos:        position{line: 2665, col: 19, offset: 85264},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2661, col: 26, offset: 85207},
+																									pos: position{line: 2665, col: 26, offset: 85271},
 																									expr: &actionExpr{
-																										pos: position{line: 2959, col: 10, offset: 93800},
+																										pos: position{line: 2963, col: 10, offset: 93864},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2959, col: 10, offset: 93800},
+																											pos:        position{line: 2963, col: 10, offset: 93864},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37534,28 +37534,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37564,9 +37564,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
@@ -37574,59 +37574,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2669, col: 5, offset: 85342},
+																				pos:   position{line: 2673, col: 5, offset: 85406},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2670, col: 9, offset: 85360},
+																					pos: position{line: 2674, col: 9, offset: 85424},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2670, col: 10, offset: 85361},
+																							pos: position{line: 2674, col: 10, offset: 85425},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2670, col: 10, offset: 85361},
+																								pos:   position{line: 2674, col: 10, offset: 85425},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2670, col: 17, offset: 85368},
+																									pos: position{line: 2674, col: 17, offset: 85432},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2678, col: 21, offset: 85564},
+																											pos: position{line: 2682, col: 21, offset: 85628},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2678, col: 21, offset: 85564},
+																												pos: position{line: 2682, col: 21, offset: 85628},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2678, col: 21, offset: 85564},
+																														pos:   position{line: 2682, col: 21, offset: 85628},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2678, col: 27, offset: 85570},
+																															pos: position{line: 2682, col: 27, offset: 85634},
 																															expr: &actionExpr{
-																																pos: position{line: 2683, col: 5, offset: 85645},
+																																pos: position{line: 2687, col: 5, offset: 85709},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2683, col: 5, offset: 85645},
+																																	pos: position{line: 2687, col: 5, offset: 85709},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2683, col: 5, offset: 85645},
+																																			pos:        position{line: 2687, col: 5, offset: 85709},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2683, col: 9, offset: 85649},
+																																			pos: position{line: 2687, col: 9, offset: 85713},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2959, col: 10, offset: 93800},
+																																				pos: position{line: 2963, col: 10, offset: 93864},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2959, col: 10, offset: 93800},
+																																					pos:        position{line: 2963, col: 10, offset: 93864},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37635,21 +37635,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2683, col: 16, offset: 85656},
+																																			pos:   position{line: 2687, col: 16, offset: 85720},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2689, col: 5, offset: 85856},
+																																				pos: position{line: 2693, col: 5, offset: 85920},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2689, col: 5, offset: 85856},
+																																					pos:   position{line: 2693, col: 5, offset: 85920},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2689, col: 14, offset: 85865},
+																																						pos: position{line: 2693, col: 14, offset: 85929},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2689, col: 14, offset: 85865},
+																																							pos: position{line: 2693, col: 14, offset: 85929},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2689, col: 14, offset: 85865},
+																																								pos:        position{line: 2693, col: 14, offset: 85929},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37666,28 +37666,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2981, col: 8, offset: 94198},
+																														pos: position{line: 2985, col: 8, offset: 94262},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2968, col: 12, offset: 93971},
+																																pos: position{line: 2972, col: 12, offset: 94035},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2968, col: 13, offset: 93972},
+																																	pos: position{line: 2972, col: 13, offset: 94036},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 13, offset: 93972},
+																																			pos:        position{line: 2972, col: 13, offset: 94036},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 20, offset: 93979},
+																																			pos:        position{line: 2972, col: 20, offset: 94043},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2968, col: 29, offset: 93988},
+																																			pos:        position{line: 2972, col: 29, offset: 94052},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37696,9 +37696,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2978, col: 8, offset: 94148},
+																																pos: position{line: 2982, col: 8, offset: 94212},
 																																expr: &anyMatcher{
-																																	line: 2978, col: 9, offset: 94149,
+																																	line: 2982, col: 9, offset: 94213,
 																																},
 																															},
 																														},
@@ -37707,40 +37707,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2695, col: 24, offset: 86001},
+																											pos: position{line: 2699, col: 24, offset: 86065},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2695, col: 24, offset: 86001},
+																												pos:   position{line: 2699, col: 24, offset: 86065},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2695, col: 30, offset: 86007},
+																													pos: position{line: 2699, col: 30, offset: 86071},
 																													expr: &actionExpr{
-																														pos: position{line: 2700, col: 5, offset: 86083},
+																														pos: position{line: 2704, col: 5, offset: 86147},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2700, col: 5, offset: 86083},
+																															pos: position{line: 2704, col: 5, offset: 86147},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2700, col: 5, offset: 86083},
+																																	pos: position{line: 2704, col: 5, offset: 86147},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2665, col: 22, offset: 85280},
+																																		pos: position{line: 2669, col: 22, offset: 85344},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2661, col: 19, offset: 85200},
+																																				pos: position{line: 2665, col: 19, offset: 85264},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2661, col: 19, offset: 85200},
+																																						pos:        position{line: 2665, col: 19, offset: 85264},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2661, col: 26, offset: 85207},
+																																						pos: position{line: 2665, col: 26, offset: 85271},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2959, col: 10, offset: 93800},
+																																							pos: position{line: 2963, col: 10, offset: 93864},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2959, col: 10, offset: 93800},
+																																								pos:        position{line: 2963, col: 10, offset: 93864},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37749,28 +37749,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2981, col: 8, offset: 94198},
+																																						pos: position{line: 2985, col: 8, offset: 94262},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2968, col: 12, offset: 93971},
+																																								pos: position{line: 2972, col: 12, offset: 94035},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2968, col: 13, offset: 93972},
+																																									pos: position{line: 2972, col: 13, offset: 94036},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 13, offset: 93972},
+																																											pos:        position{line: 2972, col: 13, offset: 94036},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 20, offset: 93979},
+																																											pos:        position{line: 2972, col: 20, offset: 94043},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2968, col: 29, offset: 93988},
+																																											pos:        position{line: 2972, col: 29, offset: 94052},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37779,9 +37779,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2978, col: 8, offset: 94148},
+																																								pos: position{line: 2982, col: 8, offset: 94212},
 																																								expr: &anyMatcher{
-																																									line: 2978, col: 9, offset: 94149,
+																																									line: 2982, col: 9, offset: 94213,
 																																								},
 																																							},
 																																						},
@@ -37789,16 +37789,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2978, col: 8, offset: 94148},
+																																				pos: position{line: 2982, col: 8, offset: 94212},
 																																				expr: &anyMatcher{
-																																					line: 2978, col: 9, offset: 94149,
+																																					line: 2982, col: 9, offset: 94213,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2701, col: 5, offset: 86106},
+																																	pos: position{line: 2705, col: 5, offset: 86170},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37806,18 +37806,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2976, col: 11, offset: 94134},
+																																					pos: position{line: 2980, col: 11, offset: 94198},
 																																					expr: &anyMatcher{
-																																						line: 2976, col: 13, offset: 94136,
+																																						line: 2980, col: 13, offset: 94200,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2959, col: 10, offset: 93800},
+																																						pos: position{line: 2963, col: 10, offset: 93864},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2959, col: 10, offset: 93800},
+																																							pos:        position{line: 2963, col: 10, offset: 93864},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37826,28 +37826,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2981, col: 8, offset: 94198},
+																																					pos: position{line: 2985, col: 8, offset: 94262},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2968, col: 12, offset: 93971},
+																																							pos: position{line: 2972, col: 12, offset: 94035},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2968, col: 13, offset: 93972},
+																																								pos: position{line: 2972, col: 13, offset: 94036},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 13, offset: 93972},
+																																										pos:        position{line: 2972, col: 13, offset: 94036},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 20, offset: 93979},
+																																										pos:        position{line: 2972, col: 20, offset: 94043},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2968, col: 29, offset: 93988},
+																																										pos:        position{line: 2972, col: 29, offset: 94052},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37856,9 +37856,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2978, col: 8, offset: 94148},
+																																							pos: position{line: 2982, col: 8, offset: 94212},
 																																							expr: &anyMatcher{
-																																								line: 2978, col: 9, offset: 94149,
+																																								line: 2982, col: 9, offset: 94213,
 																																							},
 																																						},
 																																					},
@@ -37868,17 +37868,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 5, offset: 86121},
+																																	pos:   position{line: 2706, col: 5, offset: 86185},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2702, col: 12, offset: 86128},
+																																		pos: position{line: 2706, col: 12, offset: 86192},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2719, col: 20, offset: 86592},
+																																			pos: position{line: 2723, col: 20, offset: 86656},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2719, col: 20, offset: 86592},
+																																				pos: position{line: 2723, col: 20, offset: 86656},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2719, col: 20, offset: 86592},
+																																					pos:        position{line: 2723, col: 20, offset: 86656},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37889,18 +37889,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2702, col: 31, offset: 86147},
+																																	pos:        position{line: 2706, col: 31, offset: 86211},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2702, col: 35, offset: 86151},
+																																	pos: position{line: 2706, col: 35, offset: 86215},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2959, col: 10, offset: 93800},
+																																		pos: position{line: 2963, col: 10, offset: 93864},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2959, col: 10, offset: 93800},
+																																			pos:        position{line: 2963, col: 10, offset: 93864},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37909,27 +37909,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2702, col: 42, offset: 86158},
+																																	pos: position{line: 2706, col: 42, offset: 86222},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2968, col: 12, offset: 93971},
+																																		pos: position{line: 2972, col: 12, offset: 94035},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2968, col: 13, offset: 93972},
+																																			pos: position{line: 2972, col: 13, offset: 94036},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 13, offset: 93972},
+																																					pos:        position{line: 2972, col: 13, offset: 94036},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 20, offset: 93979},
+																																					pos:        position{line: 2972, col: 20, offset: 94043},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2968, col: 29, offset: 93988},
+																																					pos:        position{line: 2972, col: 29, offset: 94052},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37939,37 +37939,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2702, col: 51, offset: 86167},
+																																	pos:   position{line: 2706, col: 51, offset: 86231},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2708, col: 5, offset: 86326},
+																																		pos: position{line: 2712, col: 5, offset: 86390},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2709, col: 9, offset: 86336},
+																																			pos: position{line: 2713, col: 9, offset: 86400},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2709, col: 9, offset: 86336},
+																																				pos: position{line: 2713, col: 9, offset: 86400},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2709, col: 9, offset: 86336},
+																																						pos: position{line: 2713, col: 9, offset: 86400},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2665, col: 22, offset: 85280},
+																																							pos: position{line: 2669, col: 22, offset: 85344},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2661, col: 19, offset: 85200},
+																																									pos: position{line: 2665, col: 19, offset: 85264},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2661, col: 19, offset: 85200},
+																																											pos:        position{line: 2665, col: 19, offset: 85264},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2661, col: 26, offset: 85207},
+																																											pos: position{line: 2665, col: 26, offset: 85271},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2959, col: 10, offset: 93800},
+																																												pos: position{line: 2963, col: 10, offset: 93864},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2959, col: 10, offset: 93800},
+																																													pos:        position{line: 2963, col: 10, offset: 93864},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37978,28 +37978,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2981, col: 8, offset: 94198},
+																																											pos: position{line: 2985, col: 8, offset: 94262},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2968, col: 12, offset: 93971},
+																																													pos: position{line: 2972, col: 12, offset: 94035},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2968, col: 13, offset: 93972},
+																																														pos: position{line: 2972, col: 13, offset: 94036},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 13, offset: 93972},
+																																																pos:        position{line: 2972, col: 13, offset: 94036},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 20, offset: 93979},
+																																																pos:        position{line: 2972, col: 20, offset: 94043},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2968, col: 29, offset: 93988},
+																																																pos:        position{line: 2972, col: 29, offset: 94052},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -38008,9 +38008,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2978, col: 8, offset: 94148},
+																																													pos: position{line: 2982, col: 8, offset: 94212},
 																																													expr: &anyMatcher{
-																																														line: 2978, col: 9, offset: 94149,
+																																														line: 2982, col: 9, offset: 94213,
 																																													},
 																																												},
 																																											},
@@ -38018,16 +38018,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94148},
+																																									pos: position{line: 2982, col: 8, offset: 94212},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94149,
+																																										line: 2982, col: 9, offset: 94213,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2710, col: 9, offset: 86363},
+																																						pos: position{line: 2714, col: 9, offset: 86427},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -38035,18 +38035,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2976, col: 11, offset: 94134},
+																																										pos: position{line: 2980, col: 11, offset: 94198},
 																																										expr: &anyMatcher{
-																																											line: 2976, col: 13, offset: 94136,
+																																											line: 2980, col: 13, offset: 94200,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2959, col: 10, offset: 93800},
+																																											pos: position{line: 2963, col: 10, offset: 93864},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2959, col: 10, offset: 93800},
+																																												pos:        position{line: 2963, col: 10, offset: 93864},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -38055,28 +38055,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2981, col: 8, offset: 94198},
+																																										pos: position{line: 2985, col: 8, offset: 94262},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2968, col: 12, offset: 93971},
+																																												pos: position{line: 2972, col: 12, offset: 94035},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2968, col: 13, offset: 93972},
+																																													pos: position{line: 2972, col: 13, offset: 94036},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 13, offset: 93972},
+																																															pos:        position{line: 2972, col: 13, offset: 94036},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 20, offset: 93979},
+																																															pos:        position{line: 2972, col: 20, offset: 94043},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2968, col: 29, offset: 93988},
+																																															pos:        position{line: 2972, col: 29, offset: 94052},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -38085,9 +38085,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2978, col: 8, offset: 94148},
+																																												pos: position{line: 2982, col: 8, offset: 94212},
 																																												expr: &anyMatcher{
-																																													line: 2978, col: 9, offset: 94149,
+																																													line: 2982, col: 9, offset: 94213,
 																																												},
 																																											},
 																																										},
@@ -38097,22 +38097,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2711, col: 9, offset: 86382},
+																																						pos: position{line: 2715, col: 9, offset: 86446},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2711, col: 11, offset: 86384},
+																																							pos: position{line: 2715, col: 11, offset: 86448},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2711, col: 11, offset: 86384},
+																																									pos:   position{line: 2715, col: 11, offset: 86448},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2711, col: 18, offset: 86391},
+																																										pos: position{line: 2715, col: 18, offset: 86455},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2719, col: 20, offset: 86592},
+																																											pos: position{line: 2723, col: 20, offset: 86656},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2719, col: 20, offset: 86592},
+																																												pos: position{line: 2723, col: 20, offset: 86656},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2719, col: 20, offset: 86592},
+																																													pos:        position{line: 2723, col: 20, offset: 86656},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -38123,7 +38123,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2711, col: 37, offset: 86410},
+																																									pos:        position{line: 2715, col: 37, offset: 86474},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -38132,15 +38132,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2712, col: 9, offset: 86423},
+																																						pos:   position{line: 2716, col: 9, offset: 86487},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2712, col: 18, offset: 86432},
+																																							pos: position{line: 2716, col: 18, offset: 86496},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2712, col: 18, offset: 86432},
+																																								pos: position{line: 2716, col: 18, offset: 86496},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2712, col: 18, offset: 86432},
+																																									pos:        position{line: 2716, col: 18, offset: 86496},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -38150,30 +38150,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2714, col: 12, offset: 86494},
+																																						pos: position{line: 2718, col: 12, offset: 86558},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2981, col: 8, offset: 94198},
+																																							pos: position{line: 2985, col: 8, offset: 94262},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2968, col: 12, offset: 93971},
+																																									pos: position{line: 2972, col: 12, offset: 94035},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2968, col: 13, offset: 93972},
+																																										pos: position{line: 2972, col: 13, offset: 94036},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 13, offset: 93972},
+																																												pos:        position{line: 2972, col: 13, offset: 94036},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 20, offset: 93979},
+																																												pos:        position{line: 2972, col: 20, offset: 94043},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2968, col: 29, offset: 93988},
+																																												pos:        position{line: 2972, col: 29, offset: 94052},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38182,9 +38182,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2978, col: 8, offset: 94148},
+																																									pos: position{line: 2982, col: 8, offset: 94212},
 																																									expr: &anyMatcher{
-																																										line: 2978, col: 9, offset: 94149,
+																																										line: 2982, col: 9, offset: 94213,
 																																									},
 																																								},
 																																							},
@@ -38212,18 +38212,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2976, col: 11, offset: 94134},
+																										pos: position{line: 2980, col: 11, offset: 94198},
 																										expr: &anyMatcher{
-																											line: 2976, col: 13, offset: 94136,
+																											line: 2980, col: 13, offset: 94200,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2959, col: 10, offset: 93800},
+																											pos: position{line: 2963, col: 10, offset: 93864},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2959, col: 10, offset: 93800},
+																												pos:        position{line: 2963, col: 10, offset: 93864},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38232,28 +38232,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2981, col: 8, offset: 94198},
+																										pos: position{line: 2985, col: 8, offset: 94262},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2968, col: 12, offset: 93971},
+																												pos: position{line: 2972, col: 12, offset: 94035},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2968, col: 13, offset: 93972},
+																													pos: position{line: 2972, col: 13, offset: 94036},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 13, offset: 93972},
+																															pos:        position{line: 2972, col: 13, offset: 94036},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 20, offset: 93979},
+																															pos:        position{line: 2972, col: 20, offset: 94043},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2968, col: 29, offset: 93988},
+																															pos:        position{line: 2972, col: 29, offset: 94052},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38262,9 +38262,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2978, col: 8, offset: 94148},
+																												pos: position{line: 2982, col: 8, offset: 94212},
 																												expr: &anyMatcher{
-																													line: 2978, col: 9, offset: 94149,
+																													line: 2982, col: 9, offset: 94213,
 																												},
 																											},
 																										},
@@ -38283,24 +38283,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2665, col: 22, offset: 85280},
+													pos: position{line: 2669, col: 22, offset: 85344},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85200},
+															pos: position{line: 2665, col: 19, offset: 85264},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85200},
+																	pos:        position{line: 2665, col: 19, offset: 85264},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85207},
+																	pos: position{line: 2665, col: 26, offset: 85271},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38309,28 +38309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38339,9 +38339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -38349,9 +38349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -38360,36 +38360,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2526, col: 22, offset: 81443},
+										pos: position{line: 2530, col: 22, offset: 81507},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2526, col: 22, offset: 81443},
+											pos: position{line: 2530, col: 22, offset: 81507},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2531, col: 31, offset: 81664},
+													pos:        position{line: 2535, col: 31, offset: 81728},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2531, col: 36, offset: 81669},
+													pos: position{line: 2535, col: 36, offset: 81733},
 													expr: &litMatcher{
-														pos:        position{line: 2531, col: 37, offset: 81670},
+														pos:        position{line: 2535, col: 37, offset: 81734},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2526, col: 49, offset: 81470},
+													pos:   position{line: 2530, col: 49, offset: 81534},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 13, offset: 91487},
+														pos: position{line: 2882, col: 13, offset: 91551},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2878, col: 13, offset: 91487},
+															pos: position{line: 2882, col: 13, offset: 91551},
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 13, offset: 91487},
+																pos:        position{line: 2882, col: 13, offset: 91551},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38399,28 +38399,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2981, col: 8, offset: 94198},
+													pos: position{line: 2985, col: 8, offset: 94262},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38429,9 +38429,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2978, col: 8, offset: 94148},
+															pos: position{line: 2982, col: 8, offset: 94212},
 															expr: &anyMatcher{
-																line: 2978, col: 9, offset: 94149,
+																line: 2982, col: 9, offset: 94213,
 															},
 														},
 													},
@@ -38440,51 +38440,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1600, col: 5, offset: 51664},
+										pos: position{line: 1604, col: 5, offset: 51728},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1600, col: 5, offset: 51664},
+											pos: position{line: 1604, col: 5, offset: 51728},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1600, col: 5, offset: 51664},
+													pos:   position{line: 1604, col: 5, offset: 51728},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1600, col: 11, offset: 51670},
+														pos: position{line: 1604, col: 11, offset: 51734},
 														expr: &actionExpr{
-															pos: position{line: 1764, col: 5, offset: 56987},
+															pos: position{line: 1768, col: 5, offset: 57051},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1764, col: 5, offset: 56987},
+																pos: position{line: 1768, col: 5, offset: 57051},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1764, col: 5, offset: 56987},
+																		pos: position{line: 1768, col: 5, offset: 57051},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1767, col: 5, offset: 57050},
+																		pos:   position{line: 1771, col: 5, offset: 57114},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1767, col: 12, offset: 57057},
+																			pos: position{line: 1771, col: 12, offset: 57121},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1767, col: 12, offset: 57057},
+																					pos: position{line: 1771, col: 12, offset: 57121},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &seqExpr{
-																						pos: position{line: 1767, col: 12, offset: 57057},
+																						pos: position{line: 1771, col: 12, offset: 57121},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1767, col: 12, offset: 57057},
+																								pos:        position{line: 1771, col: 12, offset: 57121},
 																								val:        "TIP:",
 																								ignoreCase: false,
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38496,24 +38496,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1769, col: 13, offset: 57119},
+																					pos: position{line: 1773, col: 13, offset: 57183},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &seqExpr{
-																						pos: position{line: 1769, col: 13, offset: 57119},
+																						pos: position{line: 1773, col: 13, offset: 57183},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1769, col: 13, offset: 57119},
+																								pos:        position{line: 1773, col: 13, offset: 57183},
 																								val:        "NOTE:",
 																								ignoreCase: false,
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38525,24 +38525,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1771, col: 13, offset: 57183},
+																					pos: position{line: 1775, col: 13, offset: 57247},
 																					run: (*parser).callonListContinuationElement1604,
 																					expr: &seqExpr{
-																						pos: position{line: 1771, col: 13, offset: 57183},
+																						pos: position{line: 1775, col: 13, offset: 57247},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1771, col: 13, offset: 57183},
+																								pos:        position{line: 1775, col: 13, offset: 57247},
 																								val:        "IMPORTANT:",
 																								ignoreCase: false,
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38554,24 +38554,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57257},
+																					pos: position{line: 1777, col: 13, offset: 57321},
 																					run: (*parser).callonListContinuationElement1610,
 																					expr: &seqExpr{
-																						pos: position{line: 1773, col: 13, offset: 57257},
+																						pos: position{line: 1777, col: 13, offset: 57321},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1773, col: 13, offset: 57257},
+																								pos:        position{line: 1777, col: 13, offset: 57321},
 																								val:        "WARNING:",
 																								ignoreCase: false,
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38583,24 +38583,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57327},
+																					pos: position{line: 1779, col: 13, offset: 57391},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &seqExpr{
-																						pos: position{line: 1775, col: 13, offset: 57327},
+																						pos: position{line: 1779, col: 13, offset: 57391},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1775, col: 13, offset: 57327},
+																								pos:        position{line: 1779, col: 13, offset: 57391},
 																								val:        "CAUTION:",
 																								ignoreCase: false,
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
+																									pos: position{line: 2967, col: 11, offset: 93925},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 11, offset: 93861},
+																										pos:        position{line: 2967, col: 11, offset: 93925},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38612,17 +38612,17 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57397},
+																					pos: position{line: 1781, col: 13, offset: 57461},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1777, col: 13, offset: 57397},
+																						pos: position{line: 1781, col: 13, offset: 57461},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 11, offset: 93861},
+																							pos: position{line: 2967, col: 11, offset: 93925},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2963, col: 11, offset: 93861},
+																								pos: position{line: 2967, col: 11, offset: 93925},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 11, offset: 93861},
+																									pos:        position{line: 2967, col: 11, offset: 93925},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38636,17 +38636,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1779, col: 12, offset: 57477},
+																		pos: position{line: 1783, col: 12, offset: 57541},
 																		expr: &seqExpr{
-																			pos: position{line: 1779, col: 14, offset: 57479},
+																			pos: position{line: 1783, col: 14, offset: 57543},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1779, col: 14, offset: 57479},
+																					pos: position{line: 1783, col: 14, offset: 57543},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38655,28 +38655,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38685,9 +38685,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -38701,16 +38701,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1601, col: 5, offset: 51693},
+													pos:   position{line: 1605, col: 5, offset: 51757},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1543, col: 5, offset: 49885},
+														pos: position{line: 1547, col: 5, offset: 49949},
 														run: (*parser).callonListContinuationElement1641,
 														expr: &seqExpr{
-															pos: position{line: 1543, col: 5, offset: 49885},
+															pos: position{line: 1547, col: 5, offset: 49949},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1543, col: 5, offset: 49885},
+																	pos: position{line: 1547, col: 5, offset: 49949},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1644,
@@ -38718,18 +38718,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2976, col: 11, offset: 94134},
+																					pos: position{line: 2980, col: 11, offset: 94198},
 																					expr: &anyMatcher{
-																						line: 2976, col: 13, offset: 94136,
+																						line: 2980, col: 13, offset: 94200,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38738,28 +38738,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2981, col: 8, offset: 94198},
+																					pos: position{line: 2985, col: 8, offset: 94262},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
+																							pos: position{line: 2972, col: 12, offset: 94035},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38768,9 +38768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2978, col: 8, offset: 94148},
+																							pos: position{line: 2982, col: 8, offset: 94212},
 																							expr: &anyMatcher{
-																								line: 2978, col: 9, offset: 94149,
+																								line: 2982, col: 9, offset: 94213,
 																							},
 																						},
 																					},
@@ -38780,23 +38780,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1544, col: 5, offset: 49900},
+																	pos: position{line: 1548, col: 5, offset: 49964},
 																	expr: &seqExpr{
-																		pos: position{line: 1574, col: 27, offset: 50884},
+																		pos: position{line: 1578, col: 27, offset: 50948},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1574, col: 27, offset: 50884},
+																				pos:        position{line: 1578, col: 27, offset: 50948},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1574, col: 31, offset: 50888},
+																				pos: position{line: 1578, col: 31, offset: 50952},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38805,25 +38805,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38835,20 +38835,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1545, col: 5, offset: 49928},
+																	pos: position{line: 1549, col: 5, offset: 49992},
 																	expr: &actionExpr{
-																		pos: position{line: 1616, col: 5, offset: 52103},
+																		pos: position{line: 1620, col: 5, offset: 52167},
 																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
-																			pos: position{line: 1616, col: 5, offset: 52103},
+																			pos: position{line: 1620, col: 5, offset: 52167},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1616, col: 5, offset: 52103},
+																					pos: position{line: 1620, col: 5, offset: 52167},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38857,27 +38857,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1616, col: 12, offset: 52110},
+																					pos:   position{line: 1620, col: 12, offset: 52174},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1618, col: 9, offset: 52173},
+																						pos: position{line: 1622, col: 9, offset: 52237},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1618, col: 9, offset: 52173},
+																								pos: position{line: 1622, col: 9, offset: 52237},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 9, offset: 52173},
+																									pos: position{line: 1622, col: 9, offset: 52237},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1618, col: 9, offset: 52173},
+																											pos:   position{line: 1622, col: 9, offset: 52237},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1618, col: 16, offset: 52180},
+																												pos: position{line: 1622, col: 16, offset: 52244},
 																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1618, col: 16, offset: 52180},
+																													pos: position{line: 1622, col: 16, offset: 52244},
 																													expr: &litMatcher{
-																														pos:        position{line: 1618, col: 17, offset: 52181},
+																														pos:        position{line: 1622, col: 17, offset: 52245},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38886,22 +38886,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1622, col: 9, offset: 52281},
+																											pos: position{line: 1626, col: 9, offset: 52345},
 																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1641, col: 11, offset: 52998},
+																								pos: position{line: 1645, col: 11, offset: 53062},
 																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
-																									pos: position{line: 1641, col: 11, offset: 52998},
+																									pos: position{line: 1645, col: 11, offset: 53062},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 11, offset: 52998},
+																											pos: position{line: 1645, col: 11, offset: 53062},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1641, col: 12, offset: 52999},
+																												pos:        position{line: 1645, col: 12, offset: 53063},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38909,7 +38909,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 20, offset: 53007},
+																											pos:        position{line: 1645, col: 20, offset: 53071},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38918,20 +38918,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1643, col: 13, offset: 53124},
+																								pos: position{line: 1647, col: 13, offset: 53188},
 																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
-																									pos: position{line: 1643, col: 13, offset: 53124},
+																									pos: position{line: 1647, col: 13, offset: 53188},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1643, col: 14, offset: 53125},
+																											pos:        position{line: 1647, col: 14, offset: 53189},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1643, col: 21, offset: 53132},
+																											pos:        position{line: 1647, col: 21, offset: 53196},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38940,20 +38940,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1645, col: 13, offset: 53252},
+																								pos: position{line: 1649, col: 13, offset: 53316},
 																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
-																									pos: position{line: 1645, col: 13, offset: 53252},
+																									pos: position{line: 1649, col: 13, offset: 53316},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1645, col: 14, offset: 53253},
+																											pos:        position{line: 1649, col: 14, offset: 53317},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1645, col: 21, offset: 53260},
+																											pos:        position{line: 1649, col: 21, offset: 53324},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38962,15 +38962,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1647, col: 13, offset: 53380},
+																								pos: position{line: 1651, col: 13, offset: 53444},
 																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1647, col: 13, offset: 53380},
+																									pos: position{line: 1651, col: 13, offset: 53444},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1647, col: 13, offset: 53380},
+																											pos: position{line: 1651, col: 13, offset: 53444},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1647, col: 14, offset: 53381},
+																												pos:        position{line: 1651, col: 14, offset: 53445},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38978,7 +38978,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1647, col: 26, offset: 53393},
+																											pos:        position{line: 1651, col: 26, offset: 53457},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38987,15 +38987,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1649, col: 13, offset: 53513},
+																								pos: position{line: 1653, col: 13, offset: 53577},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1649, col: 13, offset: 53513},
+																									pos: position{line: 1653, col: 13, offset: 53577},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1649, col: 13, offset: 53513},
+																											pos: position{line: 1653, col: 13, offset: 53577},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1649, col: 14, offset: 53514},
+																												pos:        position{line: 1653, col: 14, offset: 53578},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -39003,7 +39003,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 26, offset: 53526},
+																											pos:        position{line: 1653, col: 26, offset: 53590},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -39015,12 +39015,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93861},
+																					pos: position{line: 2967, col: 11, offset: 93925},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93861},
+																						pos: position{line: 2967, col: 11, offset: 93925},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93861},
+																							pos:        position{line: 2967, col: 11, offset: 93925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39033,20 +39033,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1546, col: 5, offset: 49958},
+																	pos: position{line: 1550, col: 5, offset: 50022},
 																	expr: &actionExpr{
-																		pos: position{line: 1666, col: 5, offset: 54065},
+																		pos: position{line: 1670, col: 5, offset: 54129},
 																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
-																			pos: position{line: 1666, col: 5, offset: 54065},
+																			pos: position{line: 1670, col: 5, offset: 54129},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1666, col: 5, offset: 54065},
+																					pos: position{line: 1670, col: 5, offset: 54129},
 																					expr: &actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39055,24 +39055,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1667, col: 5, offset: 54077},
+																					pos:   position{line: 1671, col: 5, offset: 54141},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1668, col: 9, offset: 54093},
+																						pos: position{line: 1672, col: 9, offset: 54157},
 																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
-																							pos: position{line: 1668, col: 10, offset: 54094},
+																							pos: position{line: 1672, col: 10, offset: 54158},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1668, col: 11, offset: 54095},
+																									pos:        position{line: 1672, col: 11, offset: 54159},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1668, col: 18, offset: 54102},
+																									pos: position{line: 1672, col: 18, offset: 54166},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 19, offset: 54103},
+																										pos:        position{line: 1672, col: 19, offset: 54167},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -39083,16 +39083,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1671, col: 7, offset: 54193},
+																					pos: position{line: 1675, col: 7, offset: 54257},
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93861},
+																					pos: position{line: 2967, col: 11, offset: 93925},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93861},
+																						pos: position{line: 2967, col: 11, offset: 93925},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93861},
+																							pos:        position{line: 2967, col: 11, offset: 93925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39105,29 +39105,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1547, col: 5, offset: 49990},
+																	pos: position{line: 1551, col: 5, offset: 50054},
 																	expr: &actionExpr{
-																		pos: position{line: 1755, col: 5, offset: 56602},
+																		pos: position{line: 1759, col: 5, offset: 56666},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1755, col: 5, offset: 56602},
+																			pos: position{line: 1759, col: 5, offset: 56666},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 5, offset: 56602},
+																					pos:        position{line: 1759, col: 5, offset: 56666},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1755, col: 9, offset: 56606},
+																					pos:   position{line: 1759, col: 9, offset: 56670},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1755, col: 14, offset: 56611},
+																						pos: position{line: 1759, col: 14, offset: 56675},
 																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1755, col: 14, offset: 56611},
+																							pos: position{line: 1759, col: 14, offset: 56675},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1755, col: 14, offset: 56611},
+																								pos:        position{line: 1759, col: 14, offset: 56675},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -39137,18 +39137,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1755, col: 62, offset: 56659},
+																					pos:        position{line: 1759, col: 62, offset: 56723},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2963, col: 11, offset: 93861},
+																					pos: position{line: 2967, col: 11, offset: 93925},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2963, col: 11, offset: 93861},
+																						pos: position{line: 2967, col: 11, offset: 93925},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 11, offset: 93861},
+																							pos:        position{line: 2967, col: 11, offset: 93925},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39161,36 +39161,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1548, col: 5, offset: 50020},
+																	pos: position{line: 1552, col: 5, offset: 50084},
 																	expr: &seqExpr{
-																		pos: position{line: 1548, col: 7, offset: 50022},
+																		pos: position{line: 1552, col: 7, offset: 50086},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1701, col: 5, offset: 55084},
+																				pos: position{line: 1705, col: 5, offset: 55148},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 5, offset: 55084},
+																					pos: position{line: 1705, col: 5, offset: 55148},
 																					expr: &seqExpr{
-																						pos: position{line: 1701, col: 6, offset: 55085},
+																						pos: position{line: 1705, col: 6, offset: 55149},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1701, col: 6, offset: 55085},
+																								pos: position{line: 1705, col: 6, offset: 55149},
 																								expr: &actionExpr{
-																									pos: position{line: 1706, col: 5, offset: 55235},
+																									pos: position{line: 1710, col: 5, offset: 55299},
 																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
-																										pos: position{line: 1706, col: 5, offset: 55235},
+																										pos: position{line: 1710, col: 5, offset: 55299},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1706, col: 5, offset: 55235},
+																												pos:   position{line: 1710, col: 5, offset: 55299},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1706, col: 16, offset: 55246},
+																													pos: position{line: 1710, col: 16, offset: 55310},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1706, col: 16, offset: 55246},
+																														pos: position{line: 1710, col: 16, offset: 55310},
 																														expr: &litMatcher{
-																															pos:        position{line: 1706, col: 17, offset: 55247},
+																															pos:        position{line: 1710, col: 17, offset: 55311},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -39199,7 +39199,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1709, col: 5, offset: 55304},
+																												pos: position{line: 1713, col: 5, offset: 55368},
 																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
@@ -39207,30 +39207,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1701, col: 35, offset: 55114},
+																								pos: position{line: 1705, col: 35, offset: 55178},
 																								expr: &choiceExpr{
-																									pos: position{line: 2981, col: 8, offset: 94198},
+																									pos: position{line: 2985, col: 8, offset: 94262},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2968, col: 12, offset: 93971},
+																											pos: position{line: 2972, col: 12, offset: 94035},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2968, col: 13, offset: 93972},
+																												pos: position{line: 2972, col: 13, offset: 94036},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 13, offset: 93972},
+																														pos:        position{line: 2972, col: 13, offset: 94036},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 20, offset: 93979},
+																														pos:        position{line: 2972, col: 20, offset: 94043},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2968, col: 29, offset: 93988},
+																														pos:        position{line: 2972, col: 29, offset: 94052},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39239,37 +39239,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2978, col: 8, offset: 94148},
+																											pos: position{line: 2982, col: 8, offset: 94212},
 																											expr: &anyMatcher{
-																												line: 2978, col: 9, offset: 94149,
+																												line: 2982, col: 9, offset: 94213,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1701, col: 40, offset: 55119,
+																								line: 1705, col: 40, offset: 55183,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1706, col: 5, offset: 55235},
+																				pos: position{line: 1710, col: 5, offset: 55299},
 																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
-																					pos: position{line: 1706, col: 5, offset: 55235},
+																					pos: position{line: 1710, col: 5, offset: 55299},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1706, col: 5, offset: 55235},
+																							pos:   position{line: 1710, col: 5, offset: 55299},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1706, col: 16, offset: 55246},
+																								pos: position{line: 1710, col: 16, offset: 55310},
 																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1706, col: 16, offset: 55246},
+																									pos: position{line: 1710, col: 16, offset: 55310},
 																									expr: &litMatcher{
-																										pos:        position{line: 1706, col: 17, offset: 55247},
+																										pos:        position{line: 1710, col: 17, offset: 55311},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39278,20 +39278,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1709, col: 5, offset: 55304},
+																							pos: position{line: 1713, col: 5, offset: 55368},
 																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1548, col: 59, offset: 50074},
+																				pos: position{line: 1552, col: 59, offset: 50138},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2959, col: 10, offset: 93800},
+																						pos: position{line: 2963, col: 10, offset: 93864},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2959, col: 10, offset: 93800},
+																							pos:        position{line: 2963, col: 10, offset: 93864},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39299,25 +39299,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2968, col: 12, offset: 93971},
+																						pos: position{line: 2972, col: 12, offset: 94035},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2968, col: 13, offset: 93972},
+																							pos: position{line: 2972, col: 13, offset: 94036},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 13, offset: 93972},
+																									pos:        position{line: 2972, col: 13, offset: 94036},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 20, offset: 93979},
+																									pos:        position{line: 2972, col: 20, offset: 94043},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2968, col: 29, offset: 93988},
+																									pos:        position{line: 2972, col: 29, offset: 94052},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39326,9 +39326,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2978, col: 8, offset: 94148},
+																						pos: position{line: 2982, col: 8, offset: 94212},
 																						expr: &anyMatcher{
-																							line: 2978, col: 9, offset: 94149,
+																							line: 2982, col: 9, offset: 94213,
 																						},
 																					},
 																				},
@@ -39337,9 +39337,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1549, col: 5, offset: 50092},
+																	pos: position{line: 1553, col: 5, offset: 50156},
 																	expr: &choiceExpr{
-																		pos: position{line: 1549, col: 7, offset: 50094},
+																		pos: position{line: 1553, col: 7, offset: 50158},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -39350,7 +39350,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2813, col: 13, offset: 89748},
+																								pos:        position{line: 2817, col: 13, offset: 89812},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39400,10 +39400,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39412,28 +39412,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39442,9 +39442,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39489,10 +39489,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39501,28 +39501,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39531,9 +39531,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39574,10 +39574,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39586,28 +39586,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39616,9 +39616,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39663,10 +39663,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39675,28 +39675,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39705,9 +39705,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39752,10 +39752,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39764,28 +39764,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39794,9 +39794,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39841,10 +39841,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39853,28 +39853,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39883,9 +39883,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -39930,10 +39930,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39942,28 +39942,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39972,9 +39972,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -40019,10 +40019,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40031,28 +40031,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40061,9 +40061,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -40108,10 +40108,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2959, col: 10, offset: 93800},
+																														pos: position{line: 2963, col: 10, offset: 93864},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2959, col: 10, offset: 93800},
+																															pos:        position{line: 2963, col: 10, offset: 93864},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40120,28 +40120,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2981, col: 8, offset: 94198},
+																													pos: position{line: 2985, col: 8, offset: 94262},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2968, col: 12, offset: 93971},
+																															pos: position{line: 2972, col: 12, offset: 94035},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2968, col: 13, offset: 93972},
+																																pos: position{line: 2972, col: 13, offset: 94036},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 13, offset: 93972},
+																																		pos:        position{line: 2972, col: 13, offset: 94036},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 20, offset: 93979},
+																																		pos:        position{line: 2972, col: 20, offset: 94043},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2968, col: 29, offset: 93988},
+																																		pos:        position{line: 2972, col: 29, offset: 94052},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40150,9 +40150,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2978, col: 8, offset: 94148},
+																															pos: position{line: 2982, col: 8, offset: 94212},
 																															expr: &anyMatcher{
-																																line: 2978, col: 9, offset: 94149,
+																																line: 2982, col: 9, offset: 94213,
 																															},
 																														},
 																													},
@@ -40189,10 +40189,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2959, col: 10, offset: 93800},
+																								pos: position{line: 2963, col: 10, offset: 93864},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2959, col: 10, offset: 93800},
+																									pos:        position{line: 2963, col: 10, offset: 93864},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40201,28 +40201,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2981, col: 8, offset: 94198},
+																							pos: position{line: 2985, col: 8, offset: 94262},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2968, col: 12, offset: 93971},
+																									pos: position{line: 2972, col: 12, offset: 94035},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2968, col: 13, offset: 93972},
+																										pos: position{line: 2972, col: 13, offset: 94036},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 13, offset: 93972},
+																												pos:        position{line: 2972, col: 13, offset: 94036},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 20, offset: 93979},
+																												pos:        position{line: 2972, col: 20, offset: 94043},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2968, col: 29, offset: 93988},
+																												pos:        position{line: 2972, col: 29, offset: 94052},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40231,9 +40231,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2978, col: 8, offset: 94148},
+																									pos: position{line: 2982, col: 8, offset: 94212},
 																									expr: &anyMatcher{
-																										line: 2978, col: 9, offset: 94149,
+																										line: 2982, col: 9, offset: 94213,
 																									},
 																								},
 																							},
@@ -40242,21 +40242,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2661, col: 19, offset: 85200},
+																				pos: position{line: 2665, col: 19, offset: 85264},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2661, col: 19, offset: 85200},
+																						pos:        position{line: 2665, col: 19, offset: 85264},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2661, col: 26, offset: 85207},
+																						pos: position{line: 2665, col: 26, offset: 85271},
 																						expr: &actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40265,28 +40265,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2981, col: 8, offset: 94198},
+																						pos: position{line: 2985, col: 8, offset: 94262},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2968, col: 12, offset: 93971},
+																								pos: position{line: 2972, col: 12, offset: 94035},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2968, col: 13, offset: 93972},
+																									pos: position{line: 2972, col: 13, offset: 94036},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 13, offset: 93972},
+																											pos:        position{line: 2972, col: 13, offset: 94036},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 20, offset: 93979},
+																											pos:        position{line: 2972, col: 20, offset: 94043},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2968, col: 29, offset: 93988},
+																											pos:        position{line: 2972, col: 29, offset: 94052},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40295,9 +40295,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2978, col: 8, offset: 94148},
+																								pos: position{line: 2982, col: 8, offset: 94212},
 																								expr: &anyMatcher{
-																									line: 2978, col: 9, offset: 94149,
+																									line: 2982, col: 9, offset: 94213,
 																								},
 																							},
 																						},
@@ -40308,15 +40308,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1550, col: 5, offset: 50152},
+																	pos:   position{line: 1554, col: 5, offset: 50216},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2882, col: 14, offset: 91554},
+																		pos: position{line: 2886, col: 14, offset: 91618},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 14, offset: 91554},
+																			pos: position{line: 2886, col: 14, offset: 91618},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 14, offset: 91554},
+																				pos:        position{line: 2886, col: 14, offset: 91618},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40326,28 +40326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40356,9 +40356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -40379,33 +40379,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1739, col: 1, offset: 56096},
+			pos:  position{line: 1743, col: 1, offset: 56160},
 			expr: &actionExpr{
-				pos: position{line: 1741, col: 5, offset: 56174},
+				pos: position{line: 1745, col: 5, offset: 56238},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1741, col: 5, offset: 56174},
+					pos: position{line: 1745, col: 5, offset: 56238},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1741, col: 5, offset: 56174},
+							pos: position{line: 1745, col: 5, offset: 56238},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 5, offset: 56241},
+							pos:        position{line: 1748, col: 5, offset: 56305},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1744, col: 9, offset: 56245},
+							pos:   position{line: 1748, col: 9, offset: 56309},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1744, col: 14, offset: 56250},
+								pos: position{line: 1748, col: 14, offset: 56314},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1744, col: 14, offset: 56250},
+									pos: position{line: 1748, col: 14, offset: 56314},
 									expr: &charClassMatcher{
-										pos:        position{line: 1744, col: 14, offset: 56250},
+										pos:        position{line: 1748, col: 14, offset: 56314},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40415,18 +40415,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1744, col: 62, offset: 56298},
+							pos:        position{line: 1748, col: 62, offset: 56362},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1744, col: 66, offset: 56302},
+							pos: position{line: 1748, col: 66, offset: 56366},
 							expr: &actionExpr{
-								pos: position{line: 2959, col: 10, offset: 93800},
+								pos: position{line: 2963, col: 10, offset: 93864},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2959, col: 10, offset: 93800},
+									pos:        position{line: 2963, col: 10, offset: 93864},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40435,30 +40435,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1744, col: 73, offset: 56309},
+							pos: position{line: 1748, col: 73, offset: 56373},
 							expr: &choiceExpr{
-								pos: position{line: 1744, col: 75, offset: 56311},
+								pos: position{line: 1748, col: 75, offset: 56375},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93971},
+										pos: position{line: 2972, col: 12, offset: 94035},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93972},
+											pos: position{line: 2972, col: 13, offset: 94036},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93972},
+													pos:        position{line: 2972, col: 13, offset: 94036},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93979},
+													pos:        position{line: 2972, col: 20, offset: 94043},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93988},
+													pos:        position{line: 2972, col: 29, offset: 94052},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40467,13 +40467,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94148},
+										pos: position{line: 2982, col: 8, offset: 94212},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94149,
+											line: 2982, col: 9, offset: 94213,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1744, col: 81, offset: 56317},
+										pos:  position{line: 1748, col: 81, offset: 56381},
 										name: "Callout",
 									},
 								},
@@ -40485,44 +40485,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1783, col: 1, offset: 57534},
+			pos:  position{line: 1787, col: 1, offset: 57598},
 			expr: &actionExpr{
-				pos: position{line: 1785, col: 5, offset: 57608},
+				pos: position{line: 1789, col: 5, offset: 57672},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1785, col: 5, offset: 57608},
+					pos: position{line: 1789, col: 5, offset: 57672},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1785, col: 5, offset: 57608},
+							pos: position{line: 1789, col: 5, offset: 57672},
 							expr: &seqExpr{
-								pos: position{line: 1785, col: 7, offset: 57610},
+								pos: position{line: 1789, col: 7, offset: 57674},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2813, col: 13, offset: 89748},
+										pos:        position{line: 2817, col: 13, offset: 89812},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1785, col: 16, offset: 57619},
+										pos: position{line: 1789, col: 16, offset: 57683},
 										expr: &seqExpr{
-											pos: position{line: 1785, col: 18, offset: 57621},
+											pos: position{line: 1789, col: 18, offset: 57685},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1785, col: 19, offset: 57622},
+													pos:        position{line: 1789, col: 19, offset: 57686},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2963, col: 11, offset: 93861},
+													pos: position{line: 2967, col: 11, offset: 93925},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2963, col: 11, offset: 93861},
+														pos: position{line: 2967, col: 11, offset: 93925},
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 11, offset: 93861},
+															pos:        position{line: 2967, col: 11, offset: 93925},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40537,45 +40537,45 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57762},
+							pos:   position{line: 1790, col: 5, offset: 57826},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57768},
+								pos: position{line: 1790, col: 11, offset: 57832},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56987},
+									pos: position{line: 1768, col: 5, offset: 57051},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56987},
+										pos: position{line: 1768, col: 5, offset: 57051},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56987},
+												pos: position{line: 1768, col: 5, offset: 57051},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 57050},
+												pos:   position{line: 1771, col: 5, offset: 57114},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 57057},
+													pos: position{line: 1771, col: 12, offset: 57121},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 57057},
+															pos: position{line: 1771, col: 12, offset: 57121},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &seqExpr{
-																pos: position{line: 1767, col: 12, offset: 57057},
+																pos: position{line: 1771, col: 12, offset: 57121},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1767, col: 12, offset: 57057},
+																		pos:        position{line: 1771, col: 12, offset: 57121},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40587,24 +40587,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57119},
+															pos: position{line: 1773, col: 13, offset: 57183},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &seqExpr{
-																pos: position{line: 1769, col: 13, offset: 57119},
+																pos: position{line: 1773, col: 13, offset: 57183},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1769, col: 13, offset: 57119},
+																		pos:        position{line: 1773, col: 13, offset: 57183},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40616,24 +40616,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57183},
+															pos: position{line: 1775, col: 13, offset: 57247},
 															run: (*parser).callonShortcutParagraph31,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 13, offset: 57183},
+																pos: position{line: 1775, col: 13, offset: 57247},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 13, offset: 57183},
+																		pos:        position{line: 1775, col: 13, offset: 57247},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40645,24 +40645,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57257},
+															pos: position{line: 1777, col: 13, offset: 57321},
 															run: (*parser).callonShortcutParagraph37,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57257},
+																pos: position{line: 1777, col: 13, offset: 57321},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57257},
+																		pos:        position{line: 1777, col: 13, offset: 57321},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40674,24 +40674,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57327},
+															pos: position{line: 1779, col: 13, offset: 57391},
 															run: (*parser).callonShortcutParagraph43,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57327},
+																pos: position{line: 1779, col: 13, offset: 57391},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57327},
+																		pos:        position{line: 1779, col: 13, offset: 57391},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40703,17 +40703,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57397},
+															pos: position{line: 1781, col: 13, offset: 57461},
 															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57397},
+																pos: position{line: 1781, col: 13, offset: 57461},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40727,17 +40727,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57477},
+												pos: position{line: 1783, col: 12, offset: 57541},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57479},
+													pos: position{line: 1783, col: 14, offset: 57543},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57479},
+															pos: position{line: 1783, col: 14, offset: 57543},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40746,28 +40746,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94198},
+															pos: position{line: 2985, col: 8, offset: 94262},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93971},
+																	pos: position{line: 2972, col: 12, offset: 94035},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93972},
+																		pos: position{line: 2972, col: 13, offset: 94036},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93972},
+																				pos:        position{line: 2972, col: 13, offset: 94036},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93979},
+																				pos:        position{line: 2972, col: 20, offset: 94043},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93988},
+																				pos:        position{line: 2972, col: 29, offset: 94052},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40776,9 +40776,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -40792,24 +40792,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57790},
+							pos:   position{line: 1791, col: 5, offset: 57854},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 59001},
+								pos: position{line: 1828, col: 5, offset: 59065},
 								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 59001},
+									pos: position{line: 1828, col: 5, offset: 59065},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 59001},
+											pos:   position{line: 1828, col: 5, offset: 59065},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91554},
+												pos: position{line: 2886, col: 14, offset: 91618},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91554},
+													pos: position{line: 2886, col: 14, offset: 91618},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91554},
+														pos:        position{line: 2886, col: 14, offset: 91618},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40819,32 +40819,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 59025},
+											pos: position{line: 1829, col: 5, offset: 59089},
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94198},
+											pos: position{line: 2985, col: 8, offset: 94262},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93971},
+													pos: position{line: 2972, col: 12, offset: 94035},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93972},
+														pos: position{line: 2972, col: 13, offset: 94036},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93972},
+																pos:        position{line: 2972, col: 13, offset: 94036},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93979},
+																pos:        position{line: 2972, col: 20, offset: 94043},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93988},
+																pos:        position{line: 2972, col: 29, offset: 94052},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40853,9 +40853,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -40865,28 +40865,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1788, col: 5, offset: 57824},
+							pos: position{line: 1792, col: 5, offset: 57888},
 							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1795, col: 5, offset: 58154},
+							pos:   position{line: 1799, col: 5, offset: 58218},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1795, col: 16, offset: 58165},
+								pos: position{line: 1799, col: 16, offset: 58229},
 								expr: &actionExpr{
-									pos: position{line: 1796, col: 9, offset: 58175},
+									pos: position{line: 1800, col: 9, offset: 58239},
 									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1796, col: 9, offset: 58175},
+										pos: position{line: 1800, col: 9, offset: 58239},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94134},
+												pos: position{line: 2980, col: 11, offset: 94198},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94136,
+													line: 2980, col: 13, offset: 94200,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58191},
+												pos: position{line: 1801, col: 9, offset: 58255},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph91,
@@ -40894,18 +40894,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94134},
+																pos: position{line: 2980, col: 11, offset: 94198},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94136,
+																	line: 2980, col: 13, offset: 94200,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40914,28 +40914,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40944,9 +40944,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -40956,16 +40956,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58210},
+												pos: position{line: 1802, col: 9, offset: 58274},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1798, col: 10, offset: 58211},
+													pos:  position{line: 1802, col: 10, offset: 58275},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1799, col: 9, offset: 58235},
+												pos: position{line: 1803, col: 9, offset: 58299},
 												expr: &choiceExpr{
-													pos: position{line: 1799, col: 11, offset: 58237},
+													pos: position{line: 1803, col: 11, offset: 58301},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40976,7 +40976,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89748},
+																			pos:        position{line: 2817, col: 13, offset: 89812},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41026,10 +41026,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41038,28 +41038,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41068,9 +41068,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41115,10 +41115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41127,28 +41127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41157,9 +41157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41200,10 +41200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41212,28 +41212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41242,9 +41242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41289,10 +41289,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41301,28 +41301,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41331,9 +41331,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41378,10 +41378,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41390,28 +41390,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41420,9 +41420,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41467,10 +41467,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41479,28 +41479,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41509,9 +41509,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41556,10 +41556,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41568,28 +41568,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41598,9 +41598,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41645,10 +41645,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41657,28 +41657,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41687,9 +41687,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41734,10 +41734,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41746,28 +41746,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41776,9 +41776,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -41815,10 +41815,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41827,28 +41827,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41857,9 +41857,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -41868,21 +41868,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85200},
+															pos: position{line: 2665, col: 19, offset: 85264},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85200},
+																	pos:        position{line: 2665, col: 19, offset: 85264},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85207},
+																	pos: position{line: 2665, col: 26, offset: 85271},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41891,28 +41891,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41921,9 +41921,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -41934,23 +41934,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1800, col: 9, offset: 58299},
+												pos: position{line: 1804, col: 9, offset: 58363},
 												expr: &seqExpr{
-													pos: position{line: 1574, col: 27, offset: 50884},
+													pos: position{line: 1578, col: 27, offset: 50948},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1574, col: 27, offset: 50884},
+															pos:        position{line: 1578, col: 27, offset: 50948},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1574, col: 31, offset: 50888},
+															pos: position{line: 1578, col: 31, offset: 50952},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41959,25 +41959,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41989,42 +41989,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1801, col: 9, offset: 58331},
+												pos:   position{line: 1805, col: 9, offset: 58395},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1801, col: 15, offset: 58337},
+													pos: position{line: 1805, col: 15, offset: 58401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81443},
+															pos: position{line: 2530, col: 22, offset: 81507},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81443},
+																pos: position{line: 2530, col: 22, offset: 81507},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81664},
+																		pos:        position{line: 2535, col: 31, offset: 81728},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81669},
+																		pos: position{line: 2535, col: 36, offset: 81733},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81670},
+																			pos:        position{line: 2535, col: 37, offset: 81734},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81470},
+																		pos:   position{line: 2530, col: 49, offset: 81534},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91487},
+																			pos: position{line: 2882, col: 13, offset: 91551},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91487},
+																				pos: position{line: 2882, col: 13, offset: 91551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91487},
+																					pos:        position{line: 2882, col: 13, offset: 91551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42034,28 +42034,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42064,9 +42064,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -42075,21 +42075,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 59001},
+															pos: position{line: 1828, col: 5, offset: 59065},
 															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 59001},
+																pos: position{line: 1828, col: 5, offset: 59065},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 59001},
+																		pos:   position{line: 1828, col: 5, offset: 59065},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91554},
+																			pos: position{line: 2886, col: 14, offset: 91618},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91554},
+																				pos: position{line: 2886, col: 14, offset: 91618},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91554},
+																					pos:        position{line: 2886, col: 14, offset: 91618},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42099,32 +42099,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 59025},
+																		pos: position{line: 1829, col: 5, offset: 59089},
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42133,9 +42133,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -42157,53 +42157,53 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1808, col: 1, offset: 58541},
+			pos:  position{line: 1812, col: 1, offset: 58605},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58559},
+				pos: position{line: 1813, col: 5, offset: 58623},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58559},
+					pos: position{line: 1813, col: 5, offset: 58623},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58559},
+							pos:   position{line: 1813, col: 5, offset: 58623},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 11, offset: 58565},
+								pos: position{line: 1813, col: 11, offset: 58629},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 5, offset: 56987},
+									pos: position{line: 1768, col: 5, offset: 57051},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 5, offset: 56987},
+										pos: position{line: 1768, col: 5, offset: 57051},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1764, col: 5, offset: 56987},
+												pos: position{line: 1768, col: 5, offset: 57051},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1767, col: 5, offset: 57050},
+												pos:   position{line: 1771, col: 5, offset: 57114},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1767, col: 12, offset: 57057},
+													pos: position{line: 1771, col: 12, offset: 57121},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1767, col: 12, offset: 57057},
+															pos: position{line: 1771, col: 12, offset: 57121},
 															run: (*parser).callonParagraph10,
 															expr: &seqExpr{
-																pos: position{line: 1767, col: 12, offset: 57057},
+																pos: position{line: 1771, col: 12, offset: 57121},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1767, col: 12, offset: 57057},
+																		pos:        position{line: 1771, col: 12, offset: 57121},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42215,24 +42215,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1769, col: 13, offset: 57119},
+															pos: position{line: 1773, col: 13, offset: 57183},
 															run: (*parser).callonParagraph16,
 															expr: &seqExpr{
-																pos: position{line: 1769, col: 13, offset: 57119},
+																pos: position{line: 1773, col: 13, offset: 57183},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1769, col: 13, offset: 57119},
+																		pos:        position{line: 1773, col: 13, offset: 57183},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42244,24 +42244,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1771, col: 13, offset: 57183},
+															pos: position{line: 1775, col: 13, offset: 57247},
 															run: (*parser).callonParagraph22,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 13, offset: 57183},
+																pos: position{line: 1775, col: 13, offset: 57247},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 13, offset: 57183},
+																		pos:        position{line: 1775, col: 13, offset: 57247},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42273,24 +42273,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57257},
+															pos: position{line: 1777, col: 13, offset: 57321},
 															run: (*parser).callonParagraph28,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57257},
+																pos: position{line: 1777, col: 13, offset: 57321},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57257},
+																		pos:        position{line: 1777, col: 13, offset: 57321},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42302,24 +42302,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57327},
+															pos: position{line: 1779, col: 13, offset: 57391},
 															run: (*parser).callonParagraph34,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57327},
+																pos: position{line: 1779, col: 13, offset: 57391},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57327},
+																		pos:        position{line: 1779, col: 13, offset: 57391},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2963, col: 11, offset: 93861},
+																			pos: position{line: 2967, col: 11, offset: 93925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 11, offset: 93861},
+																				pos:        position{line: 2967, col: 11, offset: 93925},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42331,17 +42331,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57397},
+															pos: position{line: 1781, col: 13, offset: 57461},
 															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1777, col: 13, offset: 57397},
+																pos: position{line: 1781, col: 13, offset: 57461},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 11, offset: 93861},
+																	pos: position{line: 2967, col: 11, offset: 93925},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2963, col: 11, offset: 93861},
+																		pos: position{line: 2967, col: 11, offset: 93925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 11, offset: 93861},
+																			pos:        position{line: 2967, col: 11, offset: 93925},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42355,17 +42355,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1779, col: 12, offset: 57477},
+												pos: position{line: 1783, col: 12, offset: 57541},
 												expr: &seqExpr{
-													pos: position{line: 1779, col: 14, offset: 57479},
+													pos: position{line: 1783, col: 14, offset: 57543},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1779, col: 14, offset: 57479},
+															pos: position{line: 1783, col: 14, offset: 57543},
 															expr: &actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42374,28 +42374,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2981, col: 8, offset: 94198},
+															pos: position{line: 2985, col: 8, offset: 94262},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93971},
+																	pos: position{line: 2972, col: 12, offset: 94035},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93972},
+																		pos: position{line: 2972, col: 13, offset: 94036},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93972},
+																				pos:        position{line: 2972, col: 13, offset: 94036},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93979},
+																				pos:        position{line: 2972, col: 20, offset: 94043},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93988},
+																				pos:        position{line: 2972, col: 29, offset: 94052},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42404,9 +42404,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -42420,24 +42420,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58588},
+							pos:   position{line: 1814, col: 5, offset: 58652},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1824, col: 5, offset: 59001},
+								pos: position{line: 1828, col: 5, offset: 59065},
 								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1824, col: 5, offset: 59001},
+									pos: position{line: 1828, col: 5, offset: 59065},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1824, col: 5, offset: 59001},
+											pos:   position{line: 1828, col: 5, offset: 59065},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2882, col: 14, offset: 91554},
+												pos: position{line: 2886, col: 14, offset: 91618},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 14, offset: 91554},
+													pos: position{line: 2886, col: 14, offset: 91618},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 14, offset: 91554},
+														pos:        position{line: 2886, col: 14, offset: 91618},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42447,32 +42447,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1825, col: 5, offset: 59025},
+											pos: position{line: 1829, col: 5, offset: 59089},
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2981, col: 8, offset: 94198},
+											pos: position{line: 2985, col: 8, offset: 94262},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2968, col: 12, offset: 93971},
+													pos: position{line: 2972, col: 12, offset: 94035},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2968, col: 13, offset: 93972},
+														pos: position{line: 2972, col: 13, offset: 94036},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2968, col: 13, offset: 93972},
+																pos:        position{line: 2972, col: 13, offset: 94036},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 20, offset: 93979},
+																pos:        position{line: 2972, col: 20, offset: 94043},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2968, col: 29, offset: 93988},
+																pos:        position{line: 2972, col: 29, offset: 94052},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42481,9 +42481,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2978, col: 8, offset: 94148},
+													pos: position{line: 2982, col: 8, offset: 94212},
 													expr: &anyMatcher{
-														line: 2978, col: 9, offset: 94149,
+														line: 2982, col: 9, offset: 94213,
 													},
 												},
 											},
@@ -42493,24 +42493,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58622},
+							pos:   position{line: 1815, col: 5, offset: 58686},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1811, col: 16, offset: 58633},
+								pos: position{line: 1815, col: 16, offset: 58697},
 								expr: &actionExpr{
-									pos: position{line: 1812, col: 9, offset: 58643},
+									pos: position{line: 1816, col: 9, offset: 58707},
 									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1812, col: 9, offset: 58643},
+										pos: position{line: 1816, col: 9, offset: 58707},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94134},
+												pos: position{line: 2980, col: 11, offset: 94198},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94136,
+													line: 2980, col: 13, offset: 94200,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58658},
+												pos: position{line: 1817, col: 9, offset: 58722},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph81,
@@ -42518,18 +42518,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2976, col: 11, offset: 94134},
+																pos: position{line: 2980, col: 11, offset: 94198},
 																expr: &anyMatcher{
-																	line: 2976, col: 13, offset: 94136,
+																	line: 2980, col: 13, offset: 94200,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42538,28 +42538,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2981, col: 8, offset: 94198},
+																pos: position{line: 2985, col: 8, offset: 94262},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2968, col: 12, offset: 93971},
+																		pos: position{line: 2972, col: 12, offset: 94035},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2968, col: 13, offset: 93972},
+																			pos: position{line: 2972, col: 13, offset: 94036},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 13, offset: 93972},
+																					pos:        position{line: 2972, col: 13, offset: 94036},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 20, offset: 93979},
+																					pos:        position{line: 2972, col: 20, offset: 94043},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2968, col: 29, offset: 93988},
+																					pos:        position{line: 2972, col: 29, offset: 94052},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42568,9 +42568,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2978, col: 8, offset: 94148},
+																		pos: position{line: 2982, col: 8, offset: 94212},
 																		expr: &anyMatcher{
-																			line: 2978, col: 9, offset: 94149,
+																			line: 2982, col: 9, offset: 94213,
 																		},
 																	},
 																},
@@ -42580,16 +42580,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58677},
+												pos: position{line: 1818, col: 9, offset: 58741},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1814, col: 10, offset: 58678},
+													pos:  position{line: 1818, col: 10, offset: 58742},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1815, col: 9, offset: 58702},
+												pos: position{line: 1819, col: 9, offset: 58766},
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 11, offset: 58704},
+													pos: position{line: 1819, col: 11, offset: 58768},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42600,7 +42600,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2813, col: 13, offset: 89748},
+																			pos:        position{line: 2817, col: 13, offset: 89812},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42650,10 +42650,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42662,28 +42662,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42692,9 +42692,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -42739,10 +42739,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42751,28 +42751,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42781,9 +42781,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -42824,10 +42824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42836,28 +42836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42866,9 +42866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -42913,10 +42913,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42925,28 +42925,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42955,9 +42955,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43002,10 +43002,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43014,28 +43014,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43044,9 +43044,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43091,10 +43091,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43103,28 +43103,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43133,9 +43133,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43180,10 +43180,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43192,28 +43192,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43222,9 +43222,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43269,10 +43269,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43281,28 +43281,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43311,9 +43311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43358,10 +43358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2959, col: 10, offset: 93800},
+																									pos: position{line: 2963, col: 10, offset: 93864},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2959, col: 10, offset: 93800},
+																										pos:        position{line: 2963, col: 10, offset: 93864},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43370,28 +43370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2981, col: 8, offset: 94198},
+																								pos: position{line: 2985, col: 8, offset: 94262},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2968, col: 12, offset: 93971},
+																										pos: position{line: 2972, col: 12, offset: 94035},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2968, col: 13, offset: 93972},
+																											pos: position{line: 2972, col: 13, offset: 94036},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 13, offset: 93972},
+																													pos:        position{line: 2972, col: 13, offset: 94036},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 20, offset: 93979},
+																													pos:        position{line: 2972, col: 20, offset: 94043},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2968, col: 29, offset: 93988},
+																													pos:        position{line: 2972, col: 29, offset: 94052},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43400,9 +43400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2978, col: 8, offset: 94148},
+																										pos: position{line: 2982, col: 8, offset: 94212},
 																										expr: &anyMatcher{
-																											line: 2978, col: 9, offset: 94149,
+																											line: 2982, col: 9, offset: 94213,
 																										},
 																									},
 																								},
@@ -43439,10 +43439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43451,28 +43451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43481,9 +43481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -43492,21 +43492,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2661, col: 19, offset: 85200},
+															pos: position{line: 2665, col: 19, offset: 85264},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2661, col: 19, offset: 85200},
+																	pos:        position{line: 2665, col: 19, offset: 85264},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2661, col: 26, offset: 85207},
+																	pos: position{line: 2665, col: 26, offset: 85271},
 																	expr: &actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43515,28 +43515,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43545,9 +43545,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -43558,42 +43558,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1816, col: 9, offset: 58766},
+												pos:   position{line: 1820, col: 9, offset: 58830},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1816, col: 15, offset: 58772},
+													pos: position{line: 1820, col: 15, offset: 58836},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2526, col: 22, offset: 81443},
+															pos: position{line: 2530, col: 22, offset: 81507},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2526, col: 22, offset: 81443},
+																pos: position{line: 2530, col: 22, offset: 81507},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 31, offset: 81664},
+																		pos:        position{line: 2535, col: 31, offset: 81728},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2531, col: 36, offset: 81669},
+																		pos: position{line: 2535, col: 36, offset: 81733},
 																		expr: &litMatcher{
-																			pos:        position{line: 2531, col: 37, offset: 81670},
+																			pos:        position{line: 2535, col: 37, offset: 81734},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2526, col: 49, offset: 81470},
+																		pos:   position{line: 2530, col: 49, offset: 81534},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 13, offset: 91487},
+																			pos: position{line: 2882, col: 13, offset: 91551},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2878, col: 13, offset: 91487},
+																				pos: position{line: 2882, col: 13, offset: 91551},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 13, offset: 91487},
+																					pos:        position{line: 2882, col: 13, offset: 91551},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43603,28 +43603,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43633,9 +43633,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -43644,21 +43644,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1824, col: 5, offset: 59001},
+															pos: position{line: 1828, col: 5, offset: 59065},
 															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1824, col: 5, offset: 59001},
+																pos: position{line: 1828, col: 5, offset: 59065},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1824, col: 5, offset: 59001},
+																		pos:   position{line: 1828, col: 5, offset: 59065},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 14, offset: 91554},
+																			pos: position{line: 2886, col: 14, offset: 91618},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 14, offset: 91554},
+																				pos: position{line: 2886, col: 14, offset: 91618},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 14, offset: 91554},
+																					pos:        position{line: 2886, col: 14, offset: 91618},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43668,32 +43668,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1825, col: 5, offset: 59025},
+																		pos: position{line: 1829, col: 5, offset: 59089},
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2981, col: 8, offset: 94198},
+																		pos: position{line: 2985, col: 8, offset: 94262},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
+																				pos: position{line: 2972, col: 12, offset: 94035},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43702,9 +43702,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2978, col: 8, offset: 94148},
+																				pos: position{line: 2982, col: 8, offset: 94212},
 																				expr: &anyMatcher{
-																					line: 2978, col: 9, offset: 94149,
+																					line: 2982, col: 9, offset: 94213,
 																				},
 																			},
 																		},
@@ -43726,16 +43726,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59508},
+			pos:  position{line: 1839, col: 1, offset: 59572},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 15, offset: 59522},
+				pos: position{line: 1839, col: 15, offset: 59586},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 15, offset: 59522},
+						pos:  position{line: 1839, col: 15, offset: 59586},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 35, offset: 59542},
+						pos:  position{line: 1839, col: 35, offset: 59606},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43743,65 +43743,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1837, col: 1, offset: 59563},
+			pos:  position{line: 1841, col: 1, offset: 59627},
 			expr: &actionExpr{
-				pos: position{line: 1838, col: 5, offset: 59588},
+				pos: position{line: 1842, col: 5, offset: 59652},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1838, col: 5, offset: 59588},
+					pos: position{line: 1842, col: 5, offset: 59652},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1838, col: 5, offset: 59588},
+							pos:   position{line: 1842, col: 5, offset: 59652},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1838, col: 16, offset: 59599},
+								pos: position{line: 1842, col: 16, offset: 59663},
 								expr: &actionExpr{
-									pos: position{line: 1838, col: 17, offset: 59600},
+									pos: position{line: 1842, col: 17, offset: 59664},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1838, col: 17, offset: 59600},
+										pos:  position{line: 1842, col: 17, offset: 59664},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1841, col: 5, offset: 59668},
+							pos: position{line: 1845, col: 5, offset: 59732},
 							expr: &litMatcher{
-								pos:        position{line: 1841, col: 7, offset: 59670},
+								pos:        position{line: 1845, col: 7, offset: 59734},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59679},
+							pos:   position{line: 1846, col: 5, offset: 59743},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1843, col: 9, offset: 59697},
+								pos: position{line: 1847, col: 9, offset: 59761},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1843, col: 9, offset: 59697},
+										pos:  position{line: 1847, col: 9, offset: 59761},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1844, col: 11, offset: 59724},
+										pos:  position{line: 1848, col: 11, offset: 59788},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1845, col: 11, offset: 59752},
+										pos:  position{line: 1849, col: 11, offset: 59816},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1846, col: 11, offset: 59783},
+										pos:  position{line: 1850, col: 11, offset: 59847},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 11, offset: 59811},
+										pos:  position{line: 1851, col: 11, offset: 59875},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59842},
+										pos:  position{line: 1852, col: 11, offset: 59906},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43813,36 +43813,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1853, col: 1, offset: 59962},
+			pos:  position{line: 1857, col: 1, offset: 60026},
 			expr: &actionExpr{
-				pos: position{line: 1854, col: 5, offset: 60004},
+				pos: position{line: 1858, col: 5, offset: 60068},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1854, col: 5, offset: 60004},
+					pos: position{line: 1858, col: 5, offset: 60068},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1854, col: 5, offset: 60004},
+							pos:   position{line: 1858, col: 5, offset: 60068},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1854, col: 16, offset: 60015},
+								pos: position{line: 1858, col: 16, offset: 60079},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1854, col: 17, offset: 60016},
+									pos:  position{line: 1858, col: 17, offset: 60080},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1855, col: 5, offset: 60041},
+							pos:   position{line: 1859, col: 5, offset: 60105},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1855, col: 14, offset: 60050},
+								pos: position{line: 1859, col: 14, offset: 60114},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 14, offset: 60050},
+										pos:  position{line: 1859, col: 14, offset: 60114},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1855, col: 33, offset: 60069},
+										pos:  position{line: 1859, col: 33, offset: 60133},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43854,32 +43854,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1863, col: 1, offset: 60300},
+			pos:  position{line: 1867, col: 1, offset: 60364},
 			expr: &choiceExpr{
-				pos: position{line: 1864, col: 5, offset: 60325},
+				pos: position{line: 1868, col: 5, offset: 60389},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 5, offset: 60325},
+						pos:  position{line: 1868, col: 5, offset: 60389},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60352},
+						pos:  position{line: 1869, col: 7, offset: 60416},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60380},
+						pos:  position{line: 1870, col: 7, offset: 60444},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1867, col: 7, offset: 60412},
+						pos:  position{line: 1871, col: 7, offset: 60476},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60440},
+						pos:  position{line: 1872, col: 7, offset: 60504},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60461},
+						pos:  position{line: 1873, col: 7, offset: 60525},
 						name: "SuperscriptText",
 					},
 				},
@@ -43887,24 +43887,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1871, col: 1, offset: 60479},
+			pos:  position{line: 1875, col: 1, offset: 60543},
 			expr: &choiceExpr{
-				pos: position{line: 1872, col: 5, offset: 60504},
+				pos: position{line: 1876, col: 5, offset: 60568},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 5, offset: 60504},
+						pos:  position{line: 1876, col: 5, offset: 60568},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60530},
+						pos:  position{line: 1877, col: 7, offset: 60594},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60558},
+						pos:  position{line: 1878, col: 7, offset: 60622},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1875, col: 7, offset: 60589},
+						pos:  position{line: 1879, col: 7, offset: 60653},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43912,35 +43912,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1889, col: 1, offset: 60943},
+			pos:  position{line: 1893, col: 1, offset: 61007},
 			expr: &choiceExpr{
-				pos: position{line: 1890, col: 5, offset: 60969},
+				pos: position{line: 1894, col: 5, offset: 61033},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2822, col: 5, offset: 89895},
+						pos: position{line: 2826, col: 5, offset: 89959},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2822, col: 5, offset: 89895},
+							pos: position{line: 2826, col: 5, offset: 89959},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2822, col: 5, offset: 89895},
+									pos: position{line: 2826, col: 5, offset: 89959},
 									expr: &seqExpr{
-										pos: position{line: 2823, col: 9, offset: 89906},
+										pos: position{line: 2827, col: 9, offset: 89970},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2823, col: 9, offset: 89906},
+												pos: position{line: 2827, col: 9, offset: 89970},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2826, col: 9, offset: 89969},
+												pos:   position{line: 2830, col: 9, offset: 90033},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2798, col: 18, offset: 89281},
+													pos: position{line: 2802, col: 18, offset: 89345},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2798, col: 19, offset: 89282},
+														pos: position{line: 2802, col: 19, offset: 89346},
 														expr: &charClassMatcher{
-															pos:        position{line: 2798, col: 19, offset: 89282},
+															pos:        position{line: 2802, col: 19, offset: 89346},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43951,28 +43951,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2826, col: 30, offset: 89990},
+												pos:        position{line: 2830, col: 30, offset: 90054},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2827, col: 9, offset: 90077},
+												pos: position{line: 2831, col: 9, offset: 90141},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2831, col: 5, offset: 90189},
+									pos:   position{line: 2835, col: 5, offset: 90253},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 11, offset: 90195},
+										pos: position{line: 2835, col: 11, offset: 90259},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2831, col: 11, offset: 90195},
+											pos: position{line: 2835, col: 11, offset: 90259},
 											expr: &charClassMatcher{
-												pos:        position{line: 2831, col: 11, offset: 90195},
+												pos:        position{line: 2835, col: 11, offset: 90259},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43982,32 +43982,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2834, col: 5, offset: 90253},
+									pos: position{line: 2838, col: 5, offset: 90317},
 									expr: &seqExpr{
-										pos: position{line: 2835, col: 9, offset: 90264},
+										pos: position{line: 2839, col: 9, offset: 90328},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2835, col: 9, offset: 90264},
+												pos:        position{line: 2839, col: 9, offset: 90328},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2836, col: 9, offset: 90313},
+												pos: position{line: 2840, col: 9, offset: 90377},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2840, col: 5, offset: 90393},
+									pos: position{line: 2844, col: 5, offset: 90457},
 									expr: &seqExpr{
-										pos: position{line: 2841, col: 9, offset: 90404},
+										pos: position{line: 2845, col: 9, offset: 90468},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2841, col: 9, offset: 90404},
+												pos: position{line: 2845, col: 9, offset: 90468},
 												expr: &charClassMatcher{
-													pos:        position{line: 2841, col: 9, offset: 90404},
+													pos:        position{line: 2845, col: 9, offset: 90468},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44016,13 +44016,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2841, col: 23, offset: 90418},
+												pos:        position{line: 2845, col: 23, offset: 90482},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2841, col: 27, offset: 90422},
+												pos:        position{line: 2845, col: 27, offset: 90486},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44035,12 +44035,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2963, col: 11, offset: 93861},
+						pos: position{line: 2967, col: 11, offset: 93925},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2963, col: 11, offset: 93861},
+							pos: position{line: 2967, col: 11, offset: 93925},
 							expr: &charClassMatcher{
-								pos:        position{line: 2963, col: 11, offset: 93861},
+								pos:        position{line: 2967, col: 11, offset: 93925},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -44049,29 +44049,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1892, col: 7, offset: 61032},
+						pos:  position{line: 1896, col: 7, offset: 61096},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 5, offset: 82160},
+						pos: position{line: 2548, col: 5, offset: 82224},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 5, offset: 82160},
+							pos: position{line: 2548, col: 5, offset: 82224},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2544, col: 5, offset: 82160},
+									pos: position{line: 2548, col: 5, offset: 82224},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 82231},
+									pos:        position{line: 2551, col: 5, offset: 82295},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2547, col: 10, offset: 82236},
+									pos: position{line: 2551, col: 10, offset: 82300},
 									expr: &charClassMatcher{
-										pos:        position{line: 2547, col: 11, offset: 82237},
+										pos:        position{line: 2551, col: 11, offset: 82301},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44082,29 +44082,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 5, offset: 82423},
+						pos: position{line: 2557, col: 5, offset: 82487},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2553, col: 5, offset: 82423},
+							pos: position{line: 2557, col: 5, offset: 82487},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2553, col: 5, offset: 82423},
+									pos: position{line: 2557, col: 5, offset: 82487},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2556, col: 5, offset: 82494},
+									pos: position{line: 2560, col: 5, offset: 82558},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2560, col: 5, offset: 82619},
+									pos:        position{line: 2564, col: 5, offset: 82683},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2560, col: 9, offset: 82623},
+									pos: position{line: 2564, col: 9, offset: 82687},
 									expr: &charClassMatcher{
-										pos:        position{line: 2560, col: 10, offset: 82624},
+										pos:        position{line: 2564, col: 10, offset: 82688},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44115,27 +44115,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2849, col: 5, offset: 90615},
+						pos: position{line: 2853, col: 5, offset: 90679},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2850, col: 9, offset: 90625},
+							pos: position{line: 2854, col: 9, offset: 90689},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2850, col: 10, offset: 90626},
+									pos:        position{line: 2854, col: 10, offset: 90690},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2852, col: 13, offset: 90723},
+									pos: position{line: 2856, col: 13, offset: 90787},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2852, col: 13, offset: 90723},
+											pos: position{line: 2856, col: 13, offset: 90787},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2855, col: 13, offset: 90823},
+											pos:        position{line: 2859, col: 13, offset: 90887},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -44143,20 +44143,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2855, col: 19, offset: 90829},
+									pos:        position{line: 2859, col: 19, offset: 90893},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2858, col: 13, offset: 90867},
+									pos: position{line: 2862, col: 13, offset: 90931},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2858, col: 13, offset: 90867},
+											pos: position{line: 2862, col: 13, offset: 90931},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2861, col: 14, offset: 90960},
+											pos:        position{line: 2865, col: 14, offset: 91024},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -44165,18 +44165,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2863, col: 12, offset: 91004},
+									pos: position{line: 2867, col: 12, offset: 91068},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2863, col: 12, offset: 91004},
+											pos:        position{line: 2867, col: 12, offset: 91068},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2863, col: 16, offset: 91008},
+											pos: position{line: 2867, col: 16, offset: 91072},
 											expr: &litMatcher{
-												pos:        position{line: 2863, col: 17, offset: 91009},
+												pos:        position{line: 2867, col: 17, offset: 91073},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44534,31 +44534,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2972, col: 18, offset: 94071},
+						pos: position{line: 2976, col: 18, offset: 94135},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2972, col: 18, offset: 94071},
+							pos: position{line: 2976, col: 18, offset: 94135},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44567,27 +44567,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2972, col: 26, offset: 94079},
+									pos: position{line: 2976, col: 26, offset: 94143},
 									expr: &actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93971},
+										pos: position{line: 2972, col: 12, offset: 94035},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93972},
+											pos: position{line: 2972, col: 13, offset: 94036},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93972},
+													pos:        position{line: 2972, col: 13, offset: 94036},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93979},
+													pos:        position{line: 2972, col: 20, offset: 94043},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93988},
+													pos:        position{line: 2972, col: 29, offset: 94052},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44600,31 +44600,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1897, col: 7, offset: 61199},
+						pos:  position{line: 1901, col: 7, offset: 61263},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1898, col: 7, offset: 61246},
+						pos:  position{line: 1902, col: 7, offset: 61310},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2513, col: 5, offset: 80989},
+						pos: position{line: 2517, col: 5, offset: 81053},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 5, offset: 80989},
+							pos: position{line: 2517, col: 5, offset: 81053},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80989},
+									pos: position{line: 2517, col: 5, offset: 81053},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2516, col: 5, offset: 81065},
+									pos:   position{line: 2520, col: 5, offset: 81129},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2517, col: 9, offset: 81083},
+										pos: position{line: 2521, col: 9, offset: 81147},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2517, col: 10, offset: 81084},
+											pos:        position{line: 2521, col: 10, offset: 81148},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44675,10 +44675,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2871, col: 12, offset: 91269},
+						pos: position{line: 2875, col: 12, offset: 91333},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2871, col: 12, offset: 91269},
+							pos:        position{line: 2875, col: 12, offset: 91333},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44690,33 +44690,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1919, col: 1, offset: 61814},
+			pos:  position{line: 1923, col: 1, offset: 61878},
 			expr: &actionExpr{
-				pos: position{line: 1920, col: 5, offset: 61842},
+				pos: position{line: 1924, col: 5, offset: 61906},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1920, col: 5, offset: 61842},
+					pos: position{line: 1924, col: 5, offset: 61906},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1912, col: 38, offset: 61669},
+							pos: position{line: 1916, col: 38, offset: 61733},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1912, col: 38, offset: 61669},
+								pos:        position{line: 1916, col: 38, offset: 61733},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1921, col: 5, offset: 61881},
+							pos:   position{line: 1925, col: 5, offset: 61945},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1921, col: 15, offset: 61891},
+								pos:  position{line: 1925, col: 15, offset: 61955},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 36, offset: 61808},
+							pos:        position{line: 1921, col: 36, offset: 61872},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44727,44 +44727,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1926, col: 1, offset: 62051},
+			pos:  position{line: 1930, col: 1, offset: 62115},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1926, col: 32, offset: 62082},
+				pos: position{line: 1930, col: 32, offset: 62146},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1926, col: 32, offset: 62082},
+					pos:  position{line: 1930, col: 32, offset: 62146},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1928, col: 1, offset: 62113},
+			pos:  position{line: 1932, col: 1, offset: 62177},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 62148},
+				pos: position{line: 1933, col: 5, offset: 62212},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 62148},
+					pos: position{line: 1933, col: 5, offset: 62212},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1930, col: 5, offset: 62159},
+							pos: position{line: 1934, col: 5, offset: 62223},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 36, offset: 61808},
+								pos:        position{line: 1921, col: 36, offset: 61872},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 62196},
+							pos:   position{line: 1935, col: 5, offset: 62260},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1931, col: 14, offset: 62205},
+								pos:  position{line: 1935, col: 14, offset: 62269},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44774,29 +44774,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1956, col: 1, offset: 62885},
+			pos:  position{line: 1960, col: 1, offset: 62949},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62913},
+				pos: position{line: 1961, col: 5, offset: 62977},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62913},
+					pos: position{line: 1961, col: 5, offset: 62977},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1940, col: 5, offset: 62439},
+							pos:        position{line: 1944, col: 5, offset: 62503},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62448},
+							pos: position{line: 1945, col: 5, offset: 62512},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1945, col: 5, offset: 62566},
+							pos: position{line: 1949, col: 5, offset: 62630},
 							expr: &notExpr{
-								pos: position{line: 1945, col: 7, offset: 62568},
+								pos: position{line: 1949, col: 7, offset: 62632},
 								expr: &litMatcher{
-									pos:        position{line: 1945, col: 8, offset: 62569},
+									pos:        position{line: 1949, col: 8, offset: 62633},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44804,38 +44804,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1958, col: 5, offset: 62951},
+							pos:   position{line: 1962, col: 5, offset: 63015},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1958, col: 15, offset: 62961},
+								pos:  position{line: 1962, col: 15, offset: 63025},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1948, col: 5, offset: 62689},
+							pos:        position{line: 1952, col: 5, offset: 62753},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1949, col: 5, offset: 62698},
+							pos: position{line: 1953, col: 5, offset: 62762},
 							expr: &litMatcher{
-								pos:        position{line: 1949, col: 6, offset: 62699},
+								pos:        position{line: 1953, col: 6, offset: 62763},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62762},
+							pos: position{line: 1954, col: 5, offset: 62826},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1954, col: 5, offset: 62871},
+							pos: position{line: 1958, col: 5, offset: 62935},
 							expr: &notExpr{
-								pos: position{line: 1954, col: 7, offset: 62873},
+								pos: position{line: 1958, col: 7, offset: 62937},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89748},
+									pos:        position{line: 2817, col: 13, offset: 89812},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44849,17 +44849,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1963, col: 1, offset: 63121},
+			pos:  position{line: 1967, col: 1, offset: 63185},
 			expr: &actionExpr{
-				pos: position{line: 1964, col: 5, offset: 63158},
+				pos: position{line: 1968, col: 5, offset: 63222},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1964, col: 5, offset: 63158},
+					pos: position{line: 1968, col: 5, offset: 63222},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1964, col: 5, offset: 63158},
+							pos: position{line: 1968, col: 5, offset: 63222},
 							expr: &charClassMatcher{
-								pos:        position{line: 1964, col: 6, offset: 63159},
+								pos:        position{line: 1968, col: 6, offset: 63223},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44867,18 +44867,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1965, col: 5, offset: 63201},
+							pos:   position{line: 1969, col: 5, offset: 63265},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1965, col: 14, offset: 63210},
+								pos: position{line: 1969, col: 14, offset: 63274},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1965, col: 15, offset: 63211},
+									pos:  position{line: 1969, col: 15, offset: 63275},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1966, col: 5, offset: 63245},
+							pos: position{line: 1970, col: 5, offset: 63309},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44887,49 +44887,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1972, col: 1, offset: 63386},
+			pos:  position{line: 1976, col: 1, offset: 63450},
 			expr: &actionExpr{
-				pos: position{line: 1973, col: 5, offset: 63421},
+				pos: position{line: 1977, col: 5, offset: 63485},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1973, col: 5, offset: 63421},
+					pos: position{line: 1977, col: 5, offset: 63485},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1974, col: 5, offset: 63449},
+							pos: position{line: 1978, col: 5, offset: 63513},
 							expr: &seqExpr{
-								pos: position{line: 1948, col: 5, offset: 62689},
+								pos: position{line: 1952, col: 5, offset: 62753},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1948, col: 5, offset: 62689},
+										pos:        position{line: 1952, col: 5, offset: 62753},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1949, col: 5, offset: 62698},
+										pos: position{line: 1953, col: 5, offset: 62762},
 										expr: &litMatcher{
-											pos:        position{line: 1949, col: 6, offset: 62699},
+											pos:        position{line: 1953, col: 6, offset: 62763},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1950, col: 5, offset: 62762},
+										pos: position{line: 1954, col: 5, offset: 62826},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1954, col: 5, offset: 62871},
+										pos: position{line: 1958, col: 5, offset: 62935},
 										expr: &notExpr{
-											pos: position{line: 1954, col: 7, offset: 62873},
+											pos: position{line: 1958, col: 7, offset: 62937},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89748},
+												pos:        position{line: 2817, col: 13, offset: 89812},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44941,10 +44941,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63486},
+							pos:   position{line: 1979, col: 5, offset: 63550},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 14, offset: 63495},
+								pos:  position{line: 1979, col: 14, offset: 63559},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44954,35 +44954,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1980, col: 1, offset: 63583},
+			pos:  position{line: 1984, col: 1, offset: 63647},
 			expr: &choiceExpr{
-				pos: position{line: 1982, col: 5, offset: 63644},
+				pos: position{line: 1986, col: 5, offset: 63708},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1982, col: 5, offset: 63644},
+						pos: position{line: 1986, col: 5, offset: 63708},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1982, col: 5, offset: 63644},
+							pos: position{line: 1986, col: 5, offset: 63708},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1982, col: 5, offset: 63644},
+									pos:   position{line: 1986, col: 5, offset: 63708},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60889},
+										pos: position{line: 1889, col: 25, offset: 60953},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60889},
+											pos: position{line: 1889, col: 25, offset: 60953},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60889},
+													pos:        position{line: 1889, col: 25, offset: 60953},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60894},
+													pos: position{line: 1889, col: 30, offset: 60958},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60894},
+														pos:        position{line: 1889, col: 30, offset: 60958},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44993,25 +44993,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1912, col: 38, offset: 61669},
+									pos: position{line: 1916, col: 38, offset: 61733},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1912, col: 38, offset: 61669},
+										pos:        position{line: 1916, col: 38, offset: 61733},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1982, col: 74, offset: 63713},
+									pos:   position{line: 1986, col: 74, offset: 63777},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1982, col: 84, offset: 63723},
+										pos:  position{line: 1986, col: 84, offset: 63787},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1982, col: 113, offset: 63752},
+									pos:        position{line: 1986, col: 113, offset: 63816},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -45020,21 +45020,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1986, col: 7, offset: 63912},
+						pos: position{line: 1990, col: 7, offset: 63976},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 7, offset: 63912},
+							pos: position{line: 1990, col: 7, offset: 63976},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 7, offset: 63912},
+									pos:   position{line: 1990, col: 7, offset: 63976},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45043,21 +45043,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 42, offset: 63947},
+									pos:        position{line: 1990, col: 42, offset: 64011},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 47, offset: 63952},
+									pos:   position{line: 1990, col: 47, offset: 64016},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 57, offset: 63962},
+										pos:  position{line: 1990, col: 57, offset: 64026},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 86, offset: 63991},
+									pos:        position{line: 1990, col: 86, offset: 64055},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45066,21 +45066,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1991, col: 7, offset: 64189},
+						pos: position{line: 1995, col: 7, offset: 64253},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1991, col: 7, offset: 64189},
+							pos: position{line: 1995, col: 7, offset: 64253},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1991, col: 7, offset: 64189},
+									pos:   position{line: 1995, col: 7, offset: 64253},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45089,21 +45089,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 42, offset: 64224},
+									pos:        position{line: 1995, col: 42, offset: 64288},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1991, col: 46, offset: 64228},
+									pos:   position{line: 1995, col: 46, offset: 64292},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1991, col: 56, offset: 64238},
+										pos:  position{line: 1995, col: 56, offset: 64302},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1991, col: 85, offset: 64267},
+									pos:        position{line: 1995, col: 85, offset: 64331},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45116,33 +45116,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64841},
+			pos:  position{line: 2015, col: 1, offset: 64905},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64871},
+				pos: position{line: 2016, col: 5, offset: 64935},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64871},
+					pos: position{line: 2016, col: 5, offset: 64935},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2004, col: 40, offset: 64694},
+							pos: position{line: 2008, col: 40, offset: 64758},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 40, offset: 64694},
+								pos:        position{line: 2008, col: 40, offset: 64758},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64912},
+							pos:   position{line: 2017, col: 5, offset: 64976},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64922},
+								pos:  position{line: 2017, col: 15, offset: 64986},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 38, offset: 64835},
+							pos:        position{line: 2013, col: 38, offset: 64899},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -45153,44 +45153,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 65087},
+			pos:  position{line: 2022, col: 1, offset: 65151},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2018, col: 34, offset: 65120},
+				pos: position{line: 2022, col: 34, offset: 65184},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2018, col: 34, offset: 65120},
+					pos:  position{line: 2022, col: 34, offset: 65184},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65152},
+			pos:  position{line: 2024, col: 1, offset: 65216},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65189},
+				pos: position{line: 2025, col: 5, offset: 65253},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65189},
+					pos: position{line: 2025, col: 5, offset: 65253},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65200},
+							pos: position{line: 2026, col: 5, offset: 65264},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 38, offset: 64835},
+								pos:        position{line: 2013, col: 38, offset: 64899},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65239},
+							pos:   position{line: 2027, col: 5, offset: 65303},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65248},
+								pos:  position{line: 2027, col: 14, offset: 65312},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45200,29 +45200,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2049, col: 1, offset: 65932},
+			pos:  position{line: 2053, col: 1, offset: 65996},
 			expr: &actionExpr{
-				pos: position{line: 2050, col: 5, offset: 65962},
+				pos: position{line: 2054, col: 5, offset: 66026},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2050, col: 5, offset: 65962},
+					pos: position{line: 2054, col: 5, offset: 66026},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2032, col: 5, offset: 65490},
+							pos:        position{line: 2036, col: 5, offset: 65554},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2033, col: 5, offset: 65499},
+							pos: position{line: 2037, col: 5, offset: 65563},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2037, col: 5, offset: 65619},
+							pos: position{line: 2041, col: 5, offset: 65683},
 							expr: &notExpr{
-								pos: position{line: 2037, col: 7, offset: 65621},
+								pos: position{line: 2041, col: 7, offset: 65685},
 								expr: &litMatcher{
-									pos:        position{line: 2037, col: 8, offset: 65622},
+									pos:        position{line: 2041, col: 8, offset: 65686},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45230,38 +45230,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2051, col: 5, offset: 66002},
+							pos:   position{line: 2055, col: 5, offset: 66066},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2051, col: 15, offset: 66012},
+								pos:  position{line: 2055, col: 15, offset: 66076},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2041, col: 5, offset: 65732},
+							pos:        position{line: 2045, col: 5, offset: 65796},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 65741},
+							pos: position{line: 2046, col: 5, offset: 65805},
 							expr: &litMatcher{
-								pos:        position{line: 2042, col: 6, offset: 65742},
+								pos:        position{line: 2046, col: 6, offset: 65806},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2043, col: 5, offset: 65807},
+							pos: position{line: 2047, col: 5, offset: 65871},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2047, col: 5, offset: 65918},
+							pos: position{line: 2051, col: 5, offset: 65982},
 							expr: &notExpr{
-								pos: position{line: 2047, col: 7, offset: 65920},
+								pos: position{line: 2051, col: 7, offset: 65984},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89748},
+									pos:        position{line: 2817, col: 13, offset: 89812},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45275,17 +45275,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2056, col: 1, offset: 66179},
+			pos:  position{line: 2060, col: 1, offset: 66243},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66217},
+				pos: position{line: 2061, col: 5, offset: 66281},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66217},
+					pos: position{line: 2061, col: 5, offset: 66281},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2057, col: 5, offset: 66217},
+							pos: position{line: 2061, col: 5, offset: 66281},
 							expr: &charClassMatcher{
-								pos:        position{line: 2057, col: 6, offset: 66218},
+								pos:        position{line: 2061, col: 6, offset: 66282},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45293,18 +45293,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66260},
+							pos:   position{line: 2062, col: 5, offset: 66324},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2058, col: 14, offset: 66269},
+								pos: position{line: 2062, col: 14, offset: 66333},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2058, col: 15, offset: 66270},
+									pos:  position{line: 2062, col: 15, offset: 66334},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2059, col: 5, offset: 66305},
+							pos: position{line: 2063, col: 5, offset: 66369},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -45313,49 +45313,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66446},
+			pos:  position{line: 2069, col: 1, offset: 66510},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66483},
+				pos: position{line: 2070, col: 5, offset: 66547},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66483},
+					pos: position{line: 2070, col: 5, offset: 66547},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66494},
+							pos: position{line: 2071, col: 5, offset: 66558},
 							expr: &seqExpr{
-								pos: position{line: 2041, col: 5, offset: 65732},
+								pos: position{line: 2045, col: 5, offset: 65796},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2041, col: 5, offset: 65732},
+										pos:        position{line: 2045, col: 5, offset: 65796},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2042, col: 5, offset: 65741},
+										pos: position{line: 2046, col: 5, offset: 65805},
 										expr: &litMatcher{
-											pos:        position{line: 2042, col: 6, offset: 65742},
+											pos:        position{line: 2046, col: 6, offset: 65806},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2043, col: 5, offset: 65807},
+										pos: position{line: 2047, col: 5, offset: 65871},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2047, col: 5, offset: 65918},
+										pos: position{line: 2051, col: 5, offset: 65982},
 										expr: &notExpr{
-											pos: position{line: 2047, col: 7, offset: 65920},
+											pos: position{line: 2051, col: 7, offset: 65984},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89748},
+												pos:        position{line: 2817, col: 13, offset: 89812},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45367,10 +45367,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66533},
+							pos:   position{line: 2072, col: 5, offset: 66597},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66542},
+								pos:  position{line: 2072, col: 14, offset: 66606},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45380,35 +45380,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2073, col: 1, offset: 66630},
+			pos:  position{line: 2077, col: 1, offset: 66694},
 			expr: &choiceExpr{
-				pos: position{line: 2075, col: 5, offset: 66695},
+				pos: position{line: 2079, col: 5, offset: 66759},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2075, col: 5, offset: 66695},
+						pos: position{line: 2079, col: 5, offset: 66759},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2075, col: 5, offset: 66695},
+							pos: position{line: 2079, col: 5, offset: 66759},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2075, col: 5, offset: 66695},
+									pos:   position{line: 2079, col: 5, offset: 66759},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60889},
+										pos: position{line: 1889, col: 25, offset: 60953},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60889},
+											pos: position{line: 1889, col: 25, offset: 60953},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60889},
+													pos:        position{line: 1889, col: 25, offset: 60953},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60894},
+													pos: position{line: 1889, col: 30, offset: 60958},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60894},
+														pos:        position{line: 1889, col: 30, offset: 60958},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45419,25 +45419,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2004, col: 40, offset: 64694},
+									pos: position{line: 2008, col: 40, offset: 64758},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2004, col: 40, offset: 64694},
+										pos:        position{line: 2008, col: 40, offset: 64758},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2075, col: 76, offset: 66766},
+									pos:   position{line: 2079, col: 76, offset: 66830},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2075, col: 86, offset: 66776},
+										pos:  position{line: 2079, col: 86, offset: 66840},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2075, col: 117, offset: 66807},
+									pos:        position{line: 2079, col: 117, offset: 66871},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -45446,21 +45446,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2079, col: 7, offset: 66968},
+						pos: position{line: 2083, col: 7, offset: 67032},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 7, offset: 66968},
+							pos: position{line: 2083, col: 7, offset: 67032},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 7, offset: 66968},
+									pos:   position{line: 2083, col: 7, offset: 67032},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45469,21 +45469,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 42, offset: 67003},
+									pos:        position{line: 2083, col: 42, offset: 67067},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 47, offset: 67008},
+									pos:   position{line: 2083, col: 47, offset: 67072},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 57, offset: 67018},
+										pos:  position{line: 2083, col: 57, offset: 67082},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 88, offset: 67049},
+									pos:        position{line: 2083, col: 88, offset: 67113},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45492,21 +45492,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2084, col: 7, offset: 67286},
+						pos: position{line: 2088, col: 7, offset: 67350},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2084, col: 7, offset: 67286},
+							pos: position{line: 2088, col: 7, offset: 67350},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2084, col: 7, offset: 67286},
+									pos:   position{line: 2088, col: 7, offset: 67350},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45515,21 +45515,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 42, offset: 67321},
+									pos:        position{line: 2088, col: 42, offset: 67385},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2084, col: 46, offset: 67325},
+									pos:   position{line: 2088, col: 46, offset: 67389},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2084, col: 56, offset: 67335},
+										pos:  position{line: 2088, col: 56, offset: 67399},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2084, col: 87, offset: 67366},
+									pos:        position{line: 2088, col: 87, offset: 67430},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45542,33 +45542,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2104, col: 1, offset: 68024},
+			pos:  position{line: 2108, col: 1, offset: 68088},
 			expr: &actionExpr{
-				pos: position{line: 2105, col: 5, offset: 68057},
+				pos: position{line: 2109, col: 5, offset: 68121},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2105, col: 5, offset: 68057},
+					pos: position{line: 2109, col: 5, offset: 68121},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2097, col: 43, offset: 67874},
+							pos: position{line: 2101, col: 43, offset: 67938},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2097, col: 43, offset: 67874},
+								pos:        position{line: 2101, col: 43, offset: 67938},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2106, col: 5, offset: 68101},
+							pos:   position{line: 2110, col: 5, offset: 68165},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2106, col: 15, offset: 68111},
+								pos:  position{line: 2110, col: 15, offset: 68175},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2102, col: 41, offset: 68018},
+							pos:        position{line: 2106, col: 41, offset: 68082},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45579,44 +45579,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2111, col: 1, offset: 68286},
+			pos:  position{line: 2115, col: 1, offset: 68350},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2111, col: 37, offset: 68322},
+				pos: position{line: 2115, col: 37, offset: 68386},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2111, col: 37, offset: 68322},
+					pos:  position{line: 2115, col: 37, offset: 68386},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2113, col: 1, offset: 68389},
+			pos:  position{line: 2117, col: 1, offset: 68453},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68429},
+				pos: position{line: 2118, col: 5, offset: 68493},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68429},
+					pos: position{line: 2118, col: 5, offset: 68493},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68440},
+							pos: position{line: 2119, col: 5, offset: 68504},
 							expr: &litMatcher{
-								pos:        position{line: 2102, col: 41, offset: 68018},
+								pos:        position{line: 2106, col: 41, offset: 68082},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68482},
+							pos:   position{line: 2120, col: 5, offset: 68546},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2116, col: 14, offset: 68491},
+								pos:  position{line: 2120, col: 14, offset: 68555},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45626,33 +45626,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2134, col: 1, offset: 69033},
+			pos:  position{line: 2138, col: 1, offset: 69097},
 			expr: &seqExpr{
-				pos: position{line: 2135, col: 5, offset: 69078},
+				pos: position{line: 2139, col: 5, offset: 69142},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2135, col: 5, offset: 69078},
+						pos: position{line: 2139, col: 5, offset: 69142},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2135, col: 6, offset: 69079},
+							pos:  position{line: 2139, col: 6, offset: 69143},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2136, col: 5, offset: 69098},
+						pos:        position{line: 2140, col: 5, offset: 69162},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2137, col: 5, offset: 69106},
+						pos: position{line: 2141, col: 5, offset: 69170},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2141, col: 5, offset: 69220},
+						pos: position{line: 2145, col: 5, offset: 69284},
 						expr: &notExpr{
-							pos: position{line: 2141, col: 7, offset: 69222},
+							pos: position{line: 2145, col: 7, offset: 69286},
 							expr: &charClassMatcher{
-								pos:        position{line: 2813, col: 13, offset: 89748},
+								pos:        position{line: 2817, col: 13, offset: 89812},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45665,29 +45665,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2144, col: 1, offset: 69239},
+			pos:  position{line: 2148, col: 1, offset: 69303},
 			expr: &actionExpr{
-				pos: position{line: 2145, col: 5, offset: 69272},
+				pos: position{line: 2149, col: 5, offset: 69336},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2145, col: 5, offset: 69272},
+					pos: position{line: 2149, col: 5, offset: 69336},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2127, col: 5, offset: 68835},
+							pos:        position{line: 2131, col: 5, offset: 68899},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2128, col: 5, offset: 68844},
+							pos: position{line: 2132, col: 5, offset: 68908},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2132, col: 5, offset: 68967},
+							pos: position{line: 2136, col: 5, offset: 69031},
 							expr: &notExpr{
-								pos: position{line: 2132, col: 7, offset: 68969},
+								pos: position{line: 2136, col: 7, offset: 69033},
 								expr: &litMatcher{
-									pos:        position{line: 2132, col: 8, offset: 68970},
+									pos:        position{line: 2136, col: 8, offset: 69034},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45695,15 +45695,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2146, col: 5, offset: 69316},
+							pos:   position{line: 2150, col: 5, offset: 69380},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2146, col: 15, offset: 69326},
+								pos:  position{line: 2150, col: 15, offset: 69390},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2147, col: 5, offset: 69365},
+							pos:  position{line: 2151, col: 5, offset: 69429},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45712,17 +45712,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2151, col: 1, offset: 69502},
+			pos:  position{line: 2155, col: 1, offset: 69566},
 			expr: &actionExpr{
-				pos: position{line: 2152, col: 5, offset: 69543},
+				pos: position{line: 2156, col: 5, offset: 69607},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2152, col: 5, offset: 69543},
+					pos: position{line: 2156, col: 5, offset: 69607},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2152, col: 5, offset: 69543},
+							pos: position{line: 2156, col: 5, offset: 69607},
 							expr: &charClassMatcher{
-								pos:        position{line: 2152, col: 6, offset: 69544},
+								pos:        position{line: 2156, col: 6, offset: 69608},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45730,18 +45730,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2153, col: 5, offset: 69586},
+							pos:   position{line: 2157, col: 5, offset: 69650},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2153, col: 14, offset: 69595},
+								pos: position{line: 2157, col: 14, offset: 69659},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2153, col: 15, offset: 69596},
+									pos:  position{line: 2157, col: 15, offset: 69660},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2154, col: 5, offset: 69634},
+							pos: position{line: 2158, col: 5, offset: 69698},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45750,31 +45750,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2160, col: 1, offset: 69775},
+			pos:  position{line: 2164, col: 1, offset: 69839},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 69815},
+				pos: position{line: 2165, col: 5, offset: 69879},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 69815},
+					pos: position{line: 2165, col: 5, offset: 69879},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2162, col: 5, offset: 69826},
+							pos: position{line: 2166, col: 5, offset: 69890},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 6, offset: 69827},
+								pos:  position{line: 2166, col: 6, offset: 69891},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 69868},
+							pos:   position{line: 2167, col: 5, offset: 69932},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 14, offset: 69877},
+								pos:  position{line: 2167, col: 14, offset: 69941},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45784,35 +45784,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2168, col: 1, offset: 69965},
+			pos:  position{line: 2172, col: 1, offset: 70029},
 			expr: &choiceExpr{
-				pos: position{line: 2170, col: 5, offset: 70036},
+				pos: position{line: 2174, col: 5, offset: 70100},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2170, col: 5, offset: 70036},
+						pos: position{line: 2174, col: 5, offset: 70100},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2170, col: 5, offset: 70036},
+							pos: position{line: 2174, col: 5, offset: 70100},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2170, col: 5, offset: 70036},
+									pos:   position{line: 2174, col: 5, offset: 70100},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60889},
+										pos: position{line: 1889, col: 25, offset: 60953},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60889},
+											pos: position{line: 1889, col: 25, offset: 60953},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60889},
+													pos:        position{line: 1889, col: 25, offset: 60953},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60894},
+													pos: position{line: 1889, col: 30, offset: 60958},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60894},
+														pos:        position{line: 1889, col: 30, offset: 60958},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45823,25 +45823,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2097, col: 43, offset: 67874},
+									pos: position{line: 2101, col: 43, offset: 67938},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2097, col: 43, offset: 67874},
+										pos:        position{line: 2101, col: 43, offset: 67938},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2170, col: 79, offset: 70110},
+									pos:   position{line: 2174, col: 79, offset: 70174},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2170, col: 89, offset: 70120},
+										pos:  position{line: 2174, col: 89, offset: 70184},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2170, col: 123, offset: 70154},
+									pos:        position{line: 2174, col: 123, offset: 70218},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45850,21 +45850,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2174, col: 7, offset: 70319},
+						pos: position{line: 2178, col: 7, offset: 70383},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 7, offset: 70319},
+							pos: position{line: 2178, col: 7, offset: 70383},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 7, offset: 70319},
+									pos:   position{line: 2178, col: 7, offset: 70383},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45873,21 +45873,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 42, offset: 70354},
+									pos:        position{line: 2178, col: 42, offset: 70418},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 47, offset: 70359},
+									pos:   position{line: 2178, col: 47, offset: 70423},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 57, offset: 70369},
+										pos:  position{line: 2178, col: 57, offset: 70433},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 91, offset: 70403},
+									pos:        position{line: 2178, col: 91, offset: 70467},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45896,21 +45896,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2179, col: 7, offset: 70605},
+						pos: position{line: 2183, col: 7, offset: 70669},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2179, col: 7, offset: 70605},
+							pos: position{line: 2183, col: 7, offset: 70669},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2179, col: 7, offset: 70605},
+									pos:   position{line: 2183, col: 7, offset: 70669},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45919,21 +45919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 42, offset: 70640},
+									pos:        position{line: 2183, col: 42, offset: 70704},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2179, col: 46, offset: 70644},
+									pos:   position{line: 2183, col: 46, offset: 70708},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2179, col: 56, offset: 70654},
+										pos:  position{line: 2183, col: 56, offset: 70718},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2179, col: 90, offset: 70688},
+									pos:        position{line: 2183, col: 90, offset: 70752},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45946,33 +45946,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2199, col: 1, offset: 71267},
+			pos:  position{line: 2203, col: 1, offset: 71331},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71297},
+				pos: position{line: 2204, col: 5, offset: 71361},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71297},
+					pos: position{line: 2204, col: 5, offset: 71361},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2192, col: 40, offset: 71120},
+							pos: position{line: 2196, col: 40, offset: 71184},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2192, col: 40, offset: 71120},
+								pos:        position{line: 2196, col: 40, offset: 71184},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71338},
+							pos:   position{line: 2205, col: 5, offset: 71402},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2201, col: 15, offset: 71348},
+								pos:  position{line: 2205, col: 15, offset: 71412},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2197, col: 38, offset: 71261},
+							pos:        position{line: 2201, col: 38, offset: 71325},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45983,44 +45983,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2206, col: 1, offset: 71514},
+			pos:  position{line: 2210, col: 1, offset: 71578},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2206, col: 34, offset: 71547},
+				pos: position{line: 2210, col: 34, offset: 71611},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2206, col: 34, offset: 71547},
+					pos:  position{line: 2210, col: 34, offset: 71611},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71578},
+			pos:  position{line: 2212, col: 1, offset: 71642},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71647},
+				pos: position{line: 2213, col: 5, offset: 71711},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71647},
+					pos: position{line: 2213, col: 5, offset: 71711},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71658},
+							pos: position{line: 2214, col: 5, offset: 71722},
 							expr: &litMatcher{
-								pos:        position{line: 2197, col: 38, offset: 71261},
+								pos:        position{line: 2201, col: 38, offset: 71325},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71697},
+							pos:   position{line: 2215, col: 5, offset: 71761},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71706},
+								pos:  position{line: 2215, col: 14, offset: 71770},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46030,29 +46030,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2236, col: 1, offset: 72388},
+			pos:  position{line: 2240, col: 1, offset: 72452},
 			expr: &actionExpr{
-				pos: position{line: 2237, col: 5, offset: 72418},
+				pos: position{line: 2241, col: 5, offset: 72482},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2237, col: 5, offset: 72418},
+					pos: position{line: 2241, col: 5, offset: 72482},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2220, col: 5, offset: 71954},
+							pos:        position{line: 2224, col: 5, offset: 72018},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71963},
+							pos: position{line: 2225, col: 5, offset: 72027},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2225, col: 5, offset: 72083},
+							pos: position{line: 2229, col: 5, offset: 72147},
 							expr: &notExpr{
-								pos: position{line: 2225, col: 7, offset: 72085},
+								pos: position{line: 2229, col: 7, offset: 72149},
 								expr: &litMatcher{
-									pos:        position{line: 2225, col: 8, offset: 72086},
+									pos:        position{line: 2229, col: 8, offset: 72150},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46060,38 +46060,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2238, col: 5, offset: 72458},
+							pos:   position{line: 2242, col: 5, offset: 72522},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2238, col: 15, offset: 72468},
+								pos:  position{line: 2242, col: 15, offset: 72532},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2228, col: 5, offset: 72191},
+							pos:        position{line: 2232, col: 5, offset: 72255},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 72199},
+							pos: position{line: 2233, col: 5, offset: 72263},
 							expr: &litMatcher{
-								pos:        position{line: 2229, col: 6, offset: 72200},
+								pos:        position{line: 2233, col: 6, offset: 72264},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2230, col: 5, offset: 72263},
+							pos: position{line: 2234, col: 5, offset: 72327},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2234, col: 5, offset: 72374},
+							pos: position{line: 2238, col: 5, offset: 72438},
 							expr: &notExpr{
-								pos: position{line: 2234, col: 7, offset: 72376},
+								pos: position{line: 2238, col: 7, offset: 72440},
 								expr: &charClassMatcher{
-									pos:        position{line: 2813, col: 13, offset: 89748},
+									pos:        position{line: 2817, col: 13, offset: 89812},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -46105,17 +46105,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2243, col: 1, offset: 72635},
+			pos:  position{line: 2247, col: 1, offset: 72699},
 			expr: &actionExpr{
-				pos: position{line: 2244, col: 5, offset: 72673},
+				pos: position{line: 2248, col: 5, offset: 72737},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2244, col: 5, offset: 72673},
+					pos: position{line: 2248, col: 5, offset: 72737},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2244, col: 5, offset: 72673},
+							pos: position{line: 2248, col: 5, offset: 72737},
 							expr: &charClassMatcher{
-								pos:        position{line: 2244, col: 6, offset: 72674},
+								pos:        position{line: 2248, col: 6, offset: 72738},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -46123,18 +46123,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72716},
+							pos:   position{line: 2249, col: 5, offset: 72780},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2245, col: 14, offset: 72725},
+								pos: position{line: 2249, col: 14, offset: 72789},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2245, col: 15, offset: 72726},
+									pos:  position{line: 2249, col: 15, offset: 72790},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2246, col: 5, offset: 72762},
+							pos: position{line: 2250, col: 5, offset: 72826},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -46143,49 +46143,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2252, col: 1, offset: 72903},
+			pos:  position{line: 2256, col: 1, offset: 72967},
 			expr: &actionExpr{
-				pos: position{line: 2253, col: 5, offset: 72940},
+				pos: position{line: 2257, col: 5, offset: 73004},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2253, col: 5, offset: 72940},
+					pos: position{line: 2257, col: 5, offset: 73004},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2254, col: 5, offset: 72951},
+							pos: position{line: 2258, col: 5, offset: 73015},
 							expr: &seqExpr{
-								pos: position{line: 2228, col: 5, offset: 72191},
+								pos: position{line: 2232, col: 5, offset: 72255},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2228, col: 5, offset: 72191},
+										pos:        position{line: 2232, col: 5, offset: 72255},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2229, col: 5, offset: 72199},
+										pos: position{line: 2233, col: 5, offset: 72263},
 										expr: &litMatcher{
-											pos:        position{line: 2229, col: 6, offset: 72200},
+											pos:        position{line: 2233, col: 6, offset: 72264},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2230, col: 5, offset: 72263},
+										pos: position{line: 2234, col: 5, offset: 72327},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2234, col: 5, offset: 72374},
+										pos: position{line: 2238, col: 5, offset: 72438},
 										expr: &notExpr{
-											pos: position{line: 2234, col: 7, offset: 72376},
+											pos: position{line: 2238, col: 7, offset: 72440},
 											expr: &charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89748},
+												pos:        position{line: 2817, col: 13, offset: 89812},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46197,10 +46197,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 72990},
+							pos:   position{line: 2259, col: 5, offset: 73054},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 72999},
+								pos:  position{line: 2259, col: 14, offset: 73063},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46210,35 +46210,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2260, col: 1, offset: 73087},
+			pos:  position{line: 2264, col: 1, offset: 73151},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 5, offset: 73151},
+				pos: position{line: 2266, col: 5, offset: 73215},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2262, col: 5, offset: 73151},
+						pos: position{line: 2266, col: 5, offset: 73215},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2262, col: 5, offset: 73151},
+							pos: position{line: 2266, col: 5, offset: 73215},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2262, col: 5, offset: 73151},
+									pos:   position{line: 2266, col: 5, offset: 73215},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60889},
+										pos: position{line: 1889, col: 25, offset: 60953},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1885, col: 25, offset: 60889},
+											pos: position{line: 1889, col: 25, offset: 60953},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1885, col: 25, offset: 60889},
+													pos:        position{line: 1889, col: 25, offset: 60953},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1885, col: 30, offset: 60894},
+													pos: position{line: 1889, col: 30, offset: 60958},
 													expr: &litMatcher{
-														pos:        position{line: 1885, col: 30, offset: 60894},
+														pos:        position{line: 1889, col: 30, offset: 60958},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -46249,25 +46249,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2192, col: 40, offset: 71120},
+									pos: position{line: 2196, col: 40, offset: 71184},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2192, col: 40, offset: 71120},
+										pos:        position{line: 2196, col: 40, offset: 71184},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2262, col: 76, offset: 73222},
+									pos:   position{line: 2266, col: 76, offset: 73286},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2262, col: 86, offset: 73232},
+										pos:  position{line: 2266, col: 86, offset: 73296},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2262, col: 117, offset: 73263},
+									pos:        position{line: 2266, col: 117, offset: 73327},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -46276,21 +46276,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2266, col: 7, offset: 73424},
+						pos: position{line: 2270, col: 7, offset: 73488},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 7, offset: 73424},
+							pos: position{line: 2270, col: 7, offset: 73488},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 7, offset: 73424},
+									pos:   position{line: 2270, col: 7, offset: 73488},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46299,21 +46299,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 42, offset: 73459},
+									pos:        position{line: 2270, col: 42, offset: 73523},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 47, offset: 73464},
+									pos:   position{line: 2270, col: 47, offset: 73528},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 57, offset: 73474},
+										pos:  position{line: 2270, col: 57, offset: 73538},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 88, offset: 73505},
+									pos:        position{line: 2270, col: 88, offset: 73569},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46322,21 +46322,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 7, offset: 73704},
+						pos: position{line: 2275, col: 7, offset: 73768},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2271, col: 7, offset: 73704},
+							pos: position{line: 2275, col: 7, offset: 73768},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2271, col: 7, offset: 73704},
+									pos:   position{line: 2275, col: 7, offset: 73768},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1881, col: 25, offset: 60816},
+										pos: position{line: 1885, col: 25, offset: 60880},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1881, col: 25, offset: 60816},
+											pos: position{line: 1885, col: 25, offset: 60880},
 											expr: &litMatcher{
-												pos:        position{line: 1881, col: 25, offset: 60816},
+												pos:        position{line: 1885, col: 25, offset: 60880},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46345,21 +46345,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 42, offset: 73739},
+									pos:        position{line: 2275, col: 42, offset: 73803},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2271, col: 46, offset: 73743},
+									pos:   position{line: 2275, col: 46, offset: 73807},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2271, col: 56, offset: 73753},
+										pos:  position{line: 2275, col: 56, offset: 73817},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2271, col: 87, offset: 73784},
+									pos:        position{line: 2275, col: 87, offset: 73848},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46372,33 +46372,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2278, col: 1, offset: 74047},
+			pos:  position{line: 2282, col: 1, offset: 74111},
 			expr: &actionExpr{
-				pos: position{line: 2279, col: 5, offset: 74069},
+				pos: position{line: 2283, col: 5, offset: 74133},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2279, col: 5, offset: 74069},
+					pos: position{line: 2283, col: 5, offset: 74133},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74325},
+							pos: position{line: 2291, col: 32, offset: 74389},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74325},
+								pos:        position{line: 2291, col: 32, offset: 74389},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 74101},
+							pos:   position{line: 2284, col: 5, offset: 74165},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 74110},
+								pos:  position{line: 2284, col: 14, offset: 74174},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74289},
+							pos:        position{line: 2289, col: 27, offset: 74353},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46409,43 +46409,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2292, col: 1, offset: 74428},
+			pos:  position{line: 2296, col: 1, offset: 74492},
 			expr: &choiceExpr{
-				pos: position{line: 2292, col: 25, offset: 74452},
+				pos: position{line: 2296, col: 25, offset: 74516},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2292, col: 25, offset: 74452},
+						pos:  position{line: 2296, col: 25, offset: 74516},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2294, col: 21, offset: 74504},
+						pos: position{line: 2298, col: 21, offset: 74568},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2294, col: 21, offset: 74504},
+							pos:   position{line: 2298, col: 21, offset: 74568},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2294, col: 29, offset: 74512},
+								pos: position{line: 2298, col: 29, offset: 74576},
 								expr: &choiceExpr{
-									pos: position{line: 2294, col: 30, offset: 74513},
+									pos: position{line: 2298, col: 30, offset: 74577},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80989},
+												pos: position{line: 2517, col: 5, offset: 81053},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80989},
+														pos: position{line: 2517, col: 5, offset: 81053},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 81065},
+														pos:   position{line: 2520, col: 5, offset: 81129},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 81083},
+															pos: position{line: 2521, col: 9, offset: 81147},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 81084},
+																pos:        position{line: 2521, col: 10, offset: 81148},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46457,7 +46457,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2294, col: 49, offset: 74532},
+											pos:        position{line: 2298, col: 49, offset: 74596},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46473,23 +46473,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2298, col: 1, offset: 74591},
+			pos:  position{line: 2302, col: 1, offset: 74655},
 			expr: &actionExpr{
-				pos: position{line: 2300, col: 5, offset: 74658},
+				pos: position{line: 2304, col: 5, offset: 74722},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2300, col: 5, offset: 74658},
+					pos: position{line: 2304, col: 5, offset: 74722},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2300, col: 5, offset: 74658},
+							pos:   position{line: 2304, col: 5, offset: 74722},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60816},
+								pos: position{line: 1885, col: 25, offset: 60880},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60816},
+									pos: position{line: 1885, col: 25, offset: 60880},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60816},
+										pos:        position{line: 1885, col: 25, offset: 60880},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46498,25 +46498,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2287, col: 32, offset: 74325},
+							pos: position{line: 2291, col: 32, offset: 74389},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2287, col: 32, offset: 74325},
+								pos:        position{line: 2291, col: 32, offset: 74389},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2302, col: 5, offset: 74731},
+							pos:   position{line: 2306, col: 5, offset: 74795},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2302, col: 14, offset: 74740},
+								pos:  position{line: 2306, col: 14, offset: 74804},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2285, col: 27, offset: 74289},
+							pos:        position{line: 2289, col: 27, offset: 74353},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46527,33 +46527,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2310, col: 1, offset: 74999},
+			pos:  position{line: 2314, col: 1, offset: 75063},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 75023},
+				pos: position{line: 2315, col: 5, offset: 75087},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 75023},
+					pos: position{line: 2315, col: 5, offset: 75087},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75292},
+							pos: position{line: 2323, col: 34, offset: 75356},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75292},
+								pos:        position{line: 2323, col: 34, offset: 75356},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 75057},
+							pos:   position{line: 2316, col: 5, offset: 75121},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2312, col: 14, offset: 75066},
+								pos:  position{line: 2316, col: 14, offset: 75130},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75254},
+							pos:        position{line: 2321, col: 29, offset: 75318},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46564,43 +46564,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2324, col: 1, offset: 75395},
+			pos:  position{line: 2328, col: 1, offset: 75459},
 			expr: &choiceExpr{
-				pos: position{line: 2324, col: 27, offset: 75421},
+				pos: position{line: 2328, col: 27, offset: 75485},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2324, col: 27, offset: 75421},
+						pos:  position{line: 2328, col: 27, offset: 75485},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2326, col: 23, offset: 75477},
+						pos: position{line: 2330, col: 23, offset: 75541},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2326, col: 23, offset: 75477},
+							pos:   position{line: 2330, col: 23, offset: 75541},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2326, col: 31, offset: 75485},
+								pos: position{line: 2330, col: 31, offset: 75549},
 								expr: &choiceExpr{
-									pos: position{line: 2326, col: 32, offset: 75486},
+									pos: position{line: 2330, col: 32, offset: 75550},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2513, col: 5, offset: 80989},
+												pos: position{line: 2517, col: 5, offset: 81053},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2513, col: 5, offset: 80989},
+														pos: position{line: 2517, col: 5, offset: 81053},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2516, col: 5, offset: 81065},
+														pos:   position{line: 2520, col: 5, offset: 81129},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2517, col: 9, offset: 81083},
+															pos: position{line: 2521, col: 9, offset: 81147},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2517, col: 10, offset: 81084},
+																pos:        position{line: 2521, col: 10, offset: 81148},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46612,7 +46612,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2326, col: 51, offset: 75505},
+											pos:        position{line: 2330, col: 51, offset: 75569},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46628,23 +46628,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2330, col: 1, offset: 75564},
+			pos:  position{line: 2334, col: 1, offset: 75628},
 			expr: &actionExpr{
-				pos: position{line: 2332, col: 5, offset: 75636},
+				pos: position{line: 2336, col: 5, offset: 75700},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2332, col: 5, offset: 75636},
+					pos: position{line: 2336, col: 5, offset: 75700},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75636},
+							pos:   position{line: 2336, col: 5, offset: 75700},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1881, col: 25, offset: 60816},
+								pos: position{line: 1885, col: 25, offset: 60880},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1881, col: 25, offset: 60816},
+									pos: position{line: 1885, col: 25, offset: 60880},
 									expr: &litMatcher{
-										pos:        position{line: 1881, col: 25, offset: 60816},
+										pos:        position{line: 1885, col: 25, offset: 60880},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46653,25 +46653,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2319, col: 34, offset: 75292},
+							pos: position{line: 2323, col: 34, offset: 75356},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2319, col: 34, offset: 75292},
+								pos:        position{line: 2323, col: 34, offset: 75356},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 75711},
+							pos:   position{line: 2338, col: 5, offset: 75775},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2334, col: 14, offset: 75720},
+								pos:  position{line: 2338, col: 14, offset: 75784},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2317, col: 29, offset: 75254},
+							pos:        position{line: 2321, col: 29, offset: 75318},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46682,27 +46682,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2343, col: 1, offset: 76185},
+			pos:  position{line: 2347, col: 1, offset: 76249},
 			expr: &actionExpr{
-				pos: position{line: 2344, col: 5, offset: 76201},
+				pos: position{line: 2348, col: 5, offset: 76265},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2344, col: 5, offset: 76201},
+					pos: position{line: 2348, col: 5, offset: 76265},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 76201},
+							pos: position{line: 2348, col: 5, offset: 76265},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76264},
+							pos:   position{line: 2351, col: 5, offset: 76328},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2347, col: 12, offset: 76271},
+								pos: position{line: 2351, col: 12, offset: 76335},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2347, col: 12, offset: 76271},
+									pos: position{line: 2351, col: 12, offset: 76335},
 									expr: &litMatcher{
-										pos:        position{line: 2347, col: 13, offset: 76272},
+										pos:        position{line: 2351, col: 13, offset: 76336},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46711,16 +46711,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2351, col: 5, offset: 76380},
+							pos: position{line: 2355, col: 5, offset: 76444},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2963, col: 11, offset: 93861},
+							pos: position{line: 2967, col: 11, offset: 93925},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2963, col: 11, offset: 93861},
+								pos: position{line: 2967, col: 11, offset: 93925},
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 11, offset: 93861},
+									pos:        position{line: 2967, col: 11, offset: 93925},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46729,36 +46729,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2355, col: 12, offset: 76539},
+							pos:   position{line: 2359, col: 12, offset: 76603},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2355, col: 19, offset: 76546},
+								pos:  position{line: 2359, col: 19, offset: 76610},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46767,9 +46767,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -46780,24 +46780,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2359, col: 1, offset: 76642},
+			pos:  position{line: 2363, col: 1, offset: 76706},
 			expr: &actionExpr{
-				pos: position{line: 2360, col: 5, offset: 76663},
+				pos: position{line: 2364, col: 5, offset: 76727},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2360, col: 5, offset: 76663},
+					pos: position{line: 2364, col: 5, offset: 76727},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2360, col: 5, offset: 76663},
+							pos: position{line: 2364, col: 5, offset: 76727},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2366, col: 5, offset: 76807},
+							pos:   position{line: 2370, col: 5, offset: 76871},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2366, col: 14, offset: 76816},
+								pos: position{line: 2370, col: 14, offset: 76880},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2366, col: 15, offset: 76817},
+									pos:  position{line: 2370, col: 15, offset: 76881},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46808,38 +46808,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2370, col: 1, offset: 76898},
+			pos:  position{line: 2374, col: 1, offset: 76962},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76925},
+				pos: position{line: 2375, col: 5, offset: 76989},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76925},
+					pos: position{line: 2375, col: 5, offset: 76989},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2371, col: 5, offset: 76925},
+							pos: position{line: 2375, col: 5, offset: 76989},
 							expr: &choiceExpr{
-								pos: position{line: 2981, col: 8, offset: 94198},
+								pos: position{line: 2985, col: 8, offset: 94262},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93971},
+										pos: position{line: 2972, col: 12, offset: 94035},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93972},
+											pos: position{line: 2972, col: 13, offset: 94036},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93972},
+													pos:        position{line: 2972, col: 13, offset: 94036},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93979},
+													pos:        position{line: 2972, col: 20, offset: 94043},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93988},
+													pos:        position{line: 2972, col: 29, offset: 94052},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46848,45 +46848,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2978, col: 8, offset: 94148},
+										pos: position{line: 2982, col: 8, offset: 94212},
 										expr: &anyMatcher{
-											line: 2978, col: 9, offset: 94149,
+											line: 2982, col: 9, offset: 94213,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76934},
+							pos:   position{line: 2376, col: 5, offset: 76998},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2373, col: 9, offset: 76952},
+								pos: position{line: 2377, col: 9, offset: 77016},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89895},
+										pos: position{line: 2826, col: 5, offset: 89959},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89895},
+											pos: position{line: 2826, col: 5, offset: 89959},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89895},
+													pos: position{line: 2826, col: 5, offset: 89959},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89906},
+														pos: position{line: 2827, col: 9, offset: 89970},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89906},
+																pos: position{line: 2827, col: 9, offset: 89970},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89969},
+																pos:   position{line: 2830, col: 9, offset: 90033},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89281},
+																	pos: position{line: 2802, col: 18, offset: 89345},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89282},
+																		pos: position{line: 2802, col: 19, offset: 89346},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89282},
+																			pos:        position{line: 2802, col: 19, offset: 89346},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46897,28 +46897,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89990},
+																pos:        position{line: 2830, col: 30, offset: 90054},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 90077},
+																pos: position{line: 2831, col: 9, offset: 90141},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90189},
+													pos:   position{line: 2835, col: 5, offset: 90253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90195},
+														pos: position{line: 2835, col: 11, offset: 90259},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90195},
+															pos: position{line: 2835, col: 11, offset: 90259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90195},
+																pos:        position{line: 2835, col: 11, offset: 90259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46928,32 +46928,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90253},
+													pos: position{line: 2838, col: 5, offset: 90317},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90264},
+														pos: position{line: 2839, col: 9, offset: 90328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90264},
+																pos:        position{line: 2839, col: 9, offset: 90328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90313},
+																pos: position{line: 2840, col: 9, offset: 90377},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90393},
+													pos: position{line: 2844, col: 5, offset: 90457},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90404},
+														pos: position{line: 2845, col: 9, offset: 90468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90404},
+																pos: position{line: 2845, col: 9, offset: 90468},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90404},
+																	pos:        position{line: 2845, col: 9, offset: 90468},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46962,13 +46962,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90418},
+																pos:        position{line: 2845, col: 23, offset: 90482},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90422},
+																pos:        position{line: 2845, col: 27, offset: 90486},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46981,12 +46981,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 11, offset: 93861},
+										pos: position{line: 2967, col: 11, offset: 93925},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2963, col: 11, offset: 93861},
+											pos: position{line: 2967, col: 11, offset: 93925},
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 11, offset: 93861},
+												pos:        position{line: 2967, col: 11, offset: 93925},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46995,25 +46995,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82160},
+										pos: position{line: 2548, col: 5, offset: 82224},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82160},
+											pos: position{line: 2548, col: 5, offset: 82224},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82160},
+													pos: position{line: 2548, col: 5, offset: 82224},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82231},
+													pos:        position{line: 2551, col: 5, offset: 82295},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82236},
+													pos: position{line: 2551, col: 10, offset: 82300},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82237},
+														pos:        position{line: 2551, col: 11, offset: 82301},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47024,29 +47024,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82423},
+										pos: position{line: 2557, col: 5, offset: 82487},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82423},
+											pos: position{line: 2557, col: 5, offset: 82487},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82423},
+													pos: position{line: 2557, col: 5, offset: 82487},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82494},
+													pos: position{line: 2560, col: 5, offset: 82558},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82619},
+													pos:        position{line: 2564, col: 5, offset: 82683},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82623},
+													pos: position{line: 2564, col: 9, offset: 82687},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82624},
+														pos:        position{line: 2564, col: 10, offset: 82688},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47057,31 +47057,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2376, col: 11, offset: 77017},
+										pos:  position{line: 2380, col: 11, offset: 77081},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90615},
+										pos: position{line: 2853, col: 5, offset: 90679},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90625},
+											pos: position{line: 2854, col: 9, offset: 90689},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90626},
+													pos:        position{line: 2854, col: 10, offset: 90690},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90723},
+													pos: position{line: 2856, col: 13, offset: 90787},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90723},
+															pos: position{line: 2856, col: 13, offset: 90787},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90823},
+															pos:        position{line: 2859, col: 13, offset: 90887},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47089,20 +47089,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90829},
+													pos:        position{line: 2859, col: 19, offset: 90893},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90867},
+													pos: position{line: 2862, col: 13, offset: 90931},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90867},
+															pos: position{line: 2862, col: 13, offset: 90931},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90960},
+															pos:        position{line: 2865, col: 14, offset: 91024},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47111,18 +47111,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 91004},
+													pos: position{line: 2867, col: 12, offset: 91068},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 91004},
+															pos:        position{line: 2867, col: 12, offset: 91068},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 91008},
+															pos: position{line: 2867, col: 16, offset: 91072},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 91009},
+																pos:        position{line: 2867, col: 17, offset: 91073},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47134,35 +47134,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2378, col: 11, offset: 77090},
+										pos:  position{line: 2382, col: 11, offset: 77154},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2379, col: 11, offset: 77106},
+										pos:  position{line: 2383, col: 11, offset: 77170},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77134},
+										pos:  position{line: 2384, col: 11, offset: 77198},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80989},
+										pos: position{line: 2517, col: 5, offset: 81053},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80989},
+													pos: position{line: 2517, col: 5, offset: 81053},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 81065},
+													pos:   position{line: 2520, col: 5, offset: 81129},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81083},
+														pos: position{line: 2521, col: 9, offset: 81147},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81084},
+															pos:        position{line: 2521, col: 10, offset: 81148},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47174,7 +47174,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77219},
+										pos:  position{line: 2386, col: 11, offset: 77283},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47563,17 +47563,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2395, col: 5, offset: 77672},
+										pos: position{line: 2399, col: 5, offset: 77736},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2395, col: 5, offset: 77672},
+											pos: position{line: 2399, col: 5, offset: 77736},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2395, col: 5, offset: 77672},
+													pos: position{line: 2399, col: 5, offset: 77736},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2398, col: 5, offset: 77727},
+													pos:   position{line: 2402, col: 5, offset: 77791},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -48027,12 +48027,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2398, col: 26, offset: 77748},
+													pos: position{line: 2402, col: 26, offset: 77812},
 													expr: &actionExpr{
-														pos: position{line: 2959, col: 10, offset: 93800},
+														pos: position{line: 2963, col: 10, offset: 93864},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2959, col: 10, offset: 93800},
+															pos:        position{line: 2963, col: 10, offset: 93864},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -48041,30 +48041,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2398, col: 33, offset: 77755},
+													pos: position{line: 2402, col: 33, offset: 77819},
 													expr: &choiceExpr{
-														pos: position{line: 2981, col: 8, offset: 94198},
+														pos: position{line: 2985, col: 8, offset: 94262},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2968, col: 12, offset: 93971},
+																pos: position{line: 2972, col: 12, offset: 94035},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2968, col: 13, offset: 93972},
+																	pos: position{line: 2972, col: 13, offset: 94036},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 13, offset: 93972},
+																			pos:        position{line: 2972, col: 13, offset: 94036},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 20, offset: 93979},
+																			pos:        position{line: 2972, col: 20, offset: 94043},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2968, col: 29, offset: 93988},
+																			pos:        position{line: 2972, col: 29, offset: 94052},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -48073,9 +48073,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2978, col: 8, offset: 94148},
+																pos: position{line: 2982, col: 8, offset: 94212},
 																expr: &anyMatcher{
-																	line: 2978, col: 9, offset: 94149,
+																	line: 2982, col: 9, offset: 94213,
 																},
 															},
 														},
@@ -48100,12 +48100,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93452},
+														pos: position{line: 2948, col: 7, offset: 93516},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93452},
+															pos: position{line: 2948, col: 7, offset: 93516},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93452},
+																pos:        position{line: 2948, col: 7, offset: 93516},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48139,12 +48139,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93452},
+														pos: position{line: 2948, col: 7, offset: 93516},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93452},
+															pos: position{line: 2948, col: 7, offset: 93516},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93452},
+																pos:        position{line: 2948, col: 7, offset: 93516},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48163,14 +48163,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2387, col: 11, offset: 77473},
+										pos:  position{line: 2391, col: 11, offset: 77537},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91269},
+										pos: position{line: 2875, col: 12, offset: 91333},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91269},
+											pos:        position{line: 2875, col: 12, offset: 91333},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48186,61 +48186,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2408, col: 1, offset: 78017},
+			pos:  position{line: 2412, col: 1, offset: 78081},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 78104},
+				pos: position{line: 2413, col: 5, offset: 78168},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 78104},
+					pos: position{line: 2413, col: 5, offset: 78168},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 78104},
+							pos:   position{line: 2413, col: 5, offset: 78168},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 78113},
+								pos: position{line: 2413, col: 14, offset: 78177},
 								expr: &actionExpr{
-									pos: position{line: 2411, col: 9, offset: 78139},
+									pos: position{line: 2415, col: 9, offset: 78203},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2411, col: 9, offset: 78139},
+										pos: position{line: 2415, col: 9, offset: 78203},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94134},
+												pos: position{line: 2980, col: 11, offset: 94198},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94136,
+													line: 2980, col: 13, offset: 94200,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2412, col: 9, offset: 78154},
+												pos:   position{line: 2416, col: 9, offset: 78218},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2413, col: 13, offset: 78176},
+													pos: position{line: 2417, col: 13, offset: 78240},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2822, col: 5, offset: 89895},
+															pos: position{line: 2826, col: 5, offset: 89959},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2822, col: 5, offset: 89895},
+																pos: position{line: 2826, col: 5, offset: 89959},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2822, col: 5, offset: 89895},
+																		pos: position{line: 2826, col: 5, offset: 89959},
 																		expr: &seqExpr{
-																			pos: position{line: 2823, col: 9, offset: 89906},
+																			pos: position{line: 2827, col: 9, offset: 89970},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2823, col: 9, offset: 89906},
+																					pos: position{line: 2827, col: 9, offset: 89970},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2826, col: 9, offset: 89969},
+																					pos:   position{line: 2830, col: 9, offset: 90033},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2798, col: 18, offset: 89281},
+																						pos: position{line: 2802, col: 18, offset: 89345},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2798, col: 19, offset: 89282},
+																							pos: position{line: 2802, col: 19, offset: 89346},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2798, col: 19, offset: 89282},
+																								pos:        position{line: 2802, col: 19, offset: 89346},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48251,28 +48251,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2826, col: 30, offset: 89990},
+																					pos:        position{line: 2830, col: 30, offset: 90054},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2827, col: 9, offset: 90077},
+																					pos: position{line: 2831, col: 9, offset: 90141},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2831, col: 5, offset: 90189},
+																		pos:   position{line: 2835, col: 5, offset: 90253},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 90195},
+																			pos: position{line: 2835, col: 11, offset: 90259},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 11, offset: 90195},
+																				pos: position{line: 2835, col: 11, offset: 90259},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 11, offset: 90195},
+																					pos:        position{line: 2835, col: 11, offset: 90259},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48282,32 +48282,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2834, col: 5, offset: 90253},
+																		pos: position{line: 2838, col: 5, offset: 90317},
 																		expr: &seqExpr{
-																			pos: position{line: 2835, col: 9, offset: 90264},
+																			pos: position{line: 2839, col: 9, offset: 90328},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2835, col: 9, offset: 90264},
+																					pos:        position{line: 2839, col: 9, offset: 90328},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2836, col: 9, offset: 90313},
+																					pos: position{line: 2840, col: 9, offset: 90377},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2840, col: 5, offset: 90393},
+																		pos: position{line: 2844, col: 5, offset: 90457},
 																		expr: &seqExpr{
-																			pos: position{line: 2841, col: 9, offset: 90404},
+																			pos: position{line: 2845, col: 9, offset: 90468},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2841, col: 9, offset: 90404},
+																					pos: position{line: 2845, col: 9, offset: 90468},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2841, col: 9, offset: 90404},
+																						pos:        position{line: 2845, col: 9, offset: 90468},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48316,13 +48316,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2841, col: 23, offset: 90418},
+																					pos:        position{line: 2845, col: 23, offset: 90482},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 27, offset: 90422},
+																					pos:        position{line: 2845, col: 27, offset: 90486},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48335,12 +48335,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2963, col: 11, offset: 93861},
+															pos: position{line: 2967, col: 11, offset: 93925},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2963, col: 11, offset: 93861},
+																pos: position{line: 2967, col: 11, offset: 93925},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 11, offset: 93861},
+																	pos:        position{line: 2967, col: 11, offset: 93925},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48349,29 +48349,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2415, col: 15, offset: 78222},
+															pos:  position{line: 2419, col: 15, offset: 78286},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2544, col: 5, offset: 82160},
+															pos: position{line: 2548, col: 5, offset: 82224},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2544, col: 5, offset: 82160},
+																pos: position{line: 2548, col: 5, offset: 82224},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2544, col: 5, offset: 82160},
+																		pos: position{line: 2548, col: 5, offset: 82224},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2547, col: 5, offset: 82231},
+																		pos:        position{line: 2551, col: 5, offset: 82295},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2547, col: 10, offset: 82236},
+																		pos: position{line: 2551, col: 10, offset: 82300},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2547, col: 11, offset: 82237},
+																			pos:        position{line: 2551, col: 11, offset: 82301},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48382,29 +48382,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2553, col: 5, offset: 82423},
+															pos: position{line: 2557, col: 5, offset: 82487},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2553, col: 5, offset: 82423},
+																pos: position{line: 2557, col: 5, offset: 82487},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2553, col: 5, offset: 82423},
+																		pos: position{line: 2557, col: 5, offset: 82487},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2556, col: 5, offset: 82494},
+																		pos: position{line: 2560, col: 5, offset: 82558},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2560, col: 5, offset: 82619},
+																		pos:        position{line: 2564, col: 5, offset: 82683},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2560, col: 9, offset: 82623},
+																		pos: position{line: 2564, col: 9, offset: 82687},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2560, col: 10, offset: 82624},
+																			pos:        position{line: 2564, col: 10, offset: 82688},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48415,27 +48415,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2849, col: 5, offset: 90615},
+															pos: position{line: 2853, col: 5, offset: 90679},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2850, col: 9, offset: 90625},
+																pos: position{line: 2854, col: 9, offset: 90689},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2850, col: 10, offset: 90626},
+																		pos:        position{line: 2854, col: 10, offset: 90690},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2852, col: 13, offset: 90723},
+																		pos: position{line: 2856, col: 13, offset: 90787},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2852, col: 13, offset: 90723},
+																				pos: position{line: 2856, col: 13, offset: 90787},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90823},
+																				pos:        position{line: 2859, col: 13, offset: 90887},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48443,20 +48443,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 19, offset: 90829},
+																		pos:        position{line: 2859, col: 19, offset: 90893},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2858, col: 13, offset: 90867},
+																		pos: position{line: 2862, col: 13, offset: 90931},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2858, col: 13, offset: 90867},
+																				pos: position{line: 2862, col: 13, offset: 90931},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2861, col: 14, offset: 90960},
+																				pos:        position{line: 2865, col: 14, offset: 91024},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48465,18 +48465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2863, col: 12, offset: 91004},
+																		pos: position{line: 2867, col: 12, offset: 91068},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2863, col: 12, offset: 91004},
+																				pos:        position{line: 2867, col: 12, offset: 91068},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2863, col: 16, offset: 91008},
+																				pos: position{line: 2867, col: 16, offset: 91072},
 																				expr: &litMatcher{
-																					pos:        position{line: 2863, col: 17, offset: 91009},
+																					pos:        position{line: 2867, col: 17, offset: 91073},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48488,25 +48488,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2968, col: 12, offset: 93971},
+															pos: position{line: 2972, col: 12, offset: 94035},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2968, col: 13, offset: 93972},
+																pos: position{line: 2972, col: 13, offset: 94036},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 13, offset: 93972},
+																		pos:        position{line: 2972, col: 13, offset: 94036},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 20, offset: 93979},
+																		pos:        position{line: 2972, col: 20, offset: 94043},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2968, col: 29, offset: 93988},
+																		pos:        position{line: 2972, col: 29, offset: 94052},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48861,35 +48861,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2420, col: 15, offset: 78389},
+															pos:  position{line: 2424, col: 15, offset: 78453},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2421, col: 15, offset: 78409},
+															pos:  position{line: 2425, col: 15, offset: 78473},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2422, col: 15, offset: 78498},
+															pos:  position{line: 2426, col: 15, offset: 78562},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2513, col: 5, offset: 80989},
+															pos: position{line: 2517, col: 5, offset: 81053},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2513, col: 5, offset: 80989},
+																pos: position{line: 2517, col: 5, offset: 81053},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80989},
+																		pos: position{line: 2517, col: 5, offset: 81053},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2516, col: 5, offset: 81065},
+																		pos:   position{line: 2520, col: 5, offset: 81129},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2517, col: 9, offset: 81083},
+																			pos: position{line: 2521, col: 9, offset: 81147},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2517, col: 10, offset: 81084},
+																				pos:        position{line: 2521, col: 10, offset: 81148},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48923,10 +48923,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48937,28 +48937,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2981, col: 8, offset: 94198},
+																			pos: position{line: 2985, col: 8, offset: 94262},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48967,9 +48967,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2978, col: 8, offset: 94148},
+																					pos: position{line: 2982, col: 8, offset: 94212},
 																					expr: &anyMatcher{
-																						line: 2978, col: 9, offset: 94149,
+																						line: 2982, col: 9, offset: 94213,
 																					},
 																				},
 																			},
@@ -48979,7 +48979,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78680},
+															pos:  position{line: 2429, col: 15, offset: 78744},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -49022,10 +49022,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 91269},
+															pos: position{line: 2875, col: 12, offset: 91333},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2871, col: 12, offset: 91269},
+																pos:        position{line: 2875, col: 12, offset: 91333},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -49041,9 +49041,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -49052,28 +49052,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2436, col: 1, offset: 79118},
+			pos:  position{line: 2440, col: 1, offset: 79182},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 79151},
+				pos: position{line: 2441, col: 5, offset: 79215},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 79151},
+					pos: position{line: 2441, col: 5, offset: 79215},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 79151},
+							pos:   position{line: 2441, col: 5, offset: 79215},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2437, col: 14, offset: 79160},
+								pos: position{line: 2441, col: 14, offset: 79224},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2437, col: 15, offset: 79161},
+									pos:  position{line: 2441, col: 15, offset: 79225},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -49082,50 +49082,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2441, col: 1, offset: 79258},
+			pos:  position{line: 2445, col: 1, offset: 79322},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 79298},
+				pos: position{line: 2446, col: 5, offset: 79362},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 79298},
+					pos: position{line: 2446, col: 5, offset: 79362},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2976, col: 11, offset: 94134},
+							pos: position{line: 2980, col: 11, offset: 94198},
 							expr: &anyMatcher{
-								line: 2976, col: 13, offset: 94136,
+								line: 2980, col: 13, offset: 94200,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79309},
+							pos:   position{line: 2447, col: 5, offset: 79373},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79327},
+								pos: position{line: 2448, col: 9, offset: 79391},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89895},
+										pos: position{line: 2826, col: 5, offset: 89959},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 5, offset: 89895},
+											pos: position{line: 2826, col: 5, offset: 89959},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 5, offset: 89895},
+													pos: position{line: 2826, col: 5, offset: 89959},
 													expr: &seqExpr{
-														pos: position{line: 2823, col: 9, offset: 89906},
+														pos: position{line: 2827, col: 9, offset: 89970},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2823, col: 9, offset: 89906},
+																pos: position{line: 2827, col: 9, offset: 89970},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2826, col: 9, offset: 89969},
+																pos:   position{line: 2830, col: 9, offset: 90033},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2798, col: 18, offset: 89281},
+																	pos: position{line: 2802, col: 18, offset: 89345},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2798, col: 19, offset: 89282},
+																		pos: position{line: 2802, col: 19, offset: 89346},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2798, col: 19, offset: 89282},
+																			pos:        position{line: 2802, col: 19, offset: 89346},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49136,28 +49136,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 30, offset: 89990},
+																pos:        position{line: 2830, col: 30, offset: 90054},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 90077},
+																pos: position{line: 2831, col: 9, offset: 90141},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 90189},
+													pos:   position{line: 2835, col: 5, offset: 90253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 90195},
+														pos: position{line: 2835, col: 11, offset: 90259},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 11, offset: 90195},
+															pos: position{line: 2835, col: 11, offset: 90259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 11, offset: 90195},
+																pos:        position{line: 2835, col: 11, offset: 90259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49167,32 +49167,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2834, col: 5, offset: 90253},
+													pos: position{line: 2838, col: 5, offset: 90317},
 													expr: &seqExpr{
-														pos: position{line: 2835, col: 9, offset: 90264},
+														pos: position{line: 2839, col: 9, offset: 90328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2835, col: 9, offset: 90264},
+																pos:        position{line: 2839, col: 9, offset: 90328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2836, col: 9, offset: 90313},
+																pos: position{line: 2840, col: 9, offset: 90377},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2840, col: 5, offset: 90393},
+													pos: position{line: 2844, col: 5, offset: 90457},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 9, offset: 90404},
+														pos: position{line: 2845, col: 9, offset: 90468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2841, col: 9, offset: 90404},
+																pos: position{line: 2845, col: 9, offset: 90468},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2841, col: 9, offset: 90404},
+																	pos:        position{line: 2845, col: 9, offset: 90468},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49201,13 +49201,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2841, col: 23, offset: 90418},
+																pos:        position{line: 2845, col: 23, offset: 90482},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2841, col: 27, offset: 90422},
+																pos:        position{line: 2845, col: 27, offset: 90486},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49220,10 +49220,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2959, col: 10, offset: 93800},
+										pos: position{line: 2963, col: 10, offset: 93864},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2959, col: 10, offset: 93800},
+											pos:        position{line: 2963, col: 10, offset: 93864},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49231,29 +49231,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79365},
+										pos:  position{line: 2450, col: 11, offset: 79429},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2544, col: 5, offset: 82160},
+										pos: position{line: 2548, col: 5, offset: 82224},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2544, col: 5, offset: 82160},
+											pos: position{line: 2548, col: 5, offset: 82224},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2544, col: 5, offset: 82160},
+													pos: position{line: 2548, col: 5, offset: 82224},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2547, col: 5, offset: 82231},
+													pos:        position{line: 2551, col: 5, offset: 82295},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2547, col: 10, offset: 82236},
+													pos: position{line: 2551, col: 10, offset: 82300},
 													expr: &charClassMatcher{
-														pos:        position{line: 2547, col: 11, offset: 82237},
+														pos:        position{line: 2551, col: 11, offset: 82301},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49264,29 +49264,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2553, col: 5, offset: 82423},
+										pos: position{line: 2557, col: 5, offset: 82487},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2553, col: 5, offset: 82423},
+											pos: position{line: 2557, col: 5, offset: 82487},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2553, col: 5, offset: 82423},
+													pos: position{line: 2557, col: 5, offset: 82487},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2556, col: 5, offset: 82494},
+													pos: position{line: 2560, col: 5, offset: 82558},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2560, col: 5, offset: 82619},
+													pos:        position{line: 2564, col: 5, offset: 82683},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2560, col: 9, offset: 82623},
+													pos: position{line: 2564, col: 9, offset: 82687},
 													expr: &charClassMatcher{
-														pos:        position{line: 2560, col: 10, offset: 82624},
+														pos:        position{line: 2564, col: 10, offset: 82688},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49297,27 +49297,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90615},
+										pos: position{line: 2853, col: 5, offset: 90679},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2850, col: 9, offset: 90625},
+											pos: position{line: 2854, col: 9, offset: 90689},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2850, col: 10, offset: 90626},
+													pos:        position{line: 2854, col: 10, offset: 90690},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90723},
+													pos: position{line: 2856, col: 13, offset: 90787},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2852, col: 13, offset: 90723},
+															pos: position{line: 2856, col: 13, offset: 90787},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2855, col: 13, offset: 90823},
+															pos:        position{line: 2859, col: 13, offset: 90887},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49325,20 +49325,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2855, col: 19, offset: 90829},
+													pos:        position{line: 2859, col: 19, offset: 90893},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90867},
+													pos: position{line: 2862, col: 13, offset: 90931},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2858, col: 13, offset: 90867},
+															pos: position{line: 2862, col: 13, offset: 90931},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2861, col: 14, offset: 90960},
+															pos:        position{line: 2865, col: 14, offset: 91024},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49347,18 +49347,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2863, col: 12, offset: 91004},
+													pos: position{line: 2867, col: 12, offset: 91068},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2863, col: 12, offset: 91004},
+															pos:        position{line: 2867, col: 12, offset: 91068},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2863, col: 16, offset: 91008},
+															pos: position{line: 2867, col: 16, offset: 91072},
 															expr: &litMatcher{
-																pos:        position{line: 2863, col: 17, offset: 91009},
+																pos:        position{line: 2867, col: 17, offset: 91073},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49370,31 +49370,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79465},
+										pos:  position{line: 2453, col: 11, offset: 79529},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79481},
+										pos:  position{line: 2454, col: 11, offset: 79545},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2513, col: 5, offset: 80989},
+										pos: position{line: 2517, col: 5, offset: 81053},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2513, col: 5, offset: 80989},
+											pos: position{line: 2517, col: 5, offset: 81053},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80989},
+													pos: position{line: 2517, col: 5, offset: 81053},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2516, col: 5, offset: 81065},
+													pos:   position{line: 2520, col: 5, offset: 81129},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2517, col: 9, offset: 81083},
+														pos: position{line: 2521, col: 9, offset: 81147},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2517, col: 10, offset: 81084},
+															pos:        position{line: 2521, col: 10, offset: 81148},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49445,25 +49445,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2968, col: 12, offset: 93971},
+										pos: position{line: 2972, col: 12, offset: 94035},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2968, col: 13, offset: 93972},
+											pos: position{line: 2972, col: 13, offset: 94036},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2968, col: 13, offset: 93972},
+													pos:        position{line: 2972, col: 13, offset: 94036},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 20, offset: 93979},
+													pos:        position{line: 2972, col: 20, offset: 94043},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2968, col: 29, offset: 93988},
+													pos:        position{line: 2972, col: 29, offset: 94052},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49472,10 +49472,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 91269},
+										pos: position{line: 2875, col: 12, offset: 91333},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2871, col: 12, offset: 91269},
+											pos:        position{line: 2875, col: 12, offset: 91333},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49491,49 +49491,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2461, col: 1, offset: 79751},
+			pos:  position{line: 2465, col: 1, offset: 79815},
 			expr: &actionExpr{
-				pos: position{line: 2463, col: 5, offset: 79833},
+				pos: position{line: 2467, col: 5, offset: 79897},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2463, col: 5, offset: 79833},
+					pos: position{line: 2467, col: 5, offset: 79897},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2463, col: 5, offset: 79833},
+							pos: position{line: 2467, col: 5, offset: 79897},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2466, col: 5, offset: 79898},
+							pos:   position{line: 2470, col: 5, offset: 79962},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2467, col: 9, offset: 79916},
+								pos: position{line: 2471, col: 9, offset: 79980},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2467, col: 9, offset: 79916},
+										pos:  position{line: 2471, col: 9, offset: 79980},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2468, col: 11, offset: 79937},
+										pos:  position{line: 2472, col: 11, offset: 80001},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2469, col: 11, offset: 79960},
+										pos:  position{line: 2473, col: 11, offset: 80024},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2470, col: 11, offset: 79976},
+										pos:  position{line: 2474, col: 11, offset: 80040},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 11, offset: 80005},
+										pos:  position{line: 2475, col: 11, offset: 80069},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 80031},
+										pos:  position{line: 2476, col: 11, offset: 80095},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 80057},
+										pos:  position{line: 2477, col: 11, offset: 80121},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49552,12 +49552,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93452},
+														pos: position{line: 2948, col: 7, offset: 93516},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93452},
+															pos: position{line: 2948, col: 7, offset: 93516},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93452},
+																pos:        position{line: 2948, col: 7, offset: 93516},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49591,12 +49591,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2944, col: 7, offset: 93452},
+														pos: position{line: 2948, col: 7, offset: 93516},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2944, col: 7, offset: 93452},
+															pos: position{line: 2948, col: 7, offset: 93516},
 															expr: &charClassMatcher{
-																pos:        position{line: 2944, col: 7, offset: 93452},
+																pos:        position{line: 2948, col: 7, offset: 93516},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49638,17 +49638,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2813, col: 13, offset: 89748},
+																		pos:        position{line: 2817, col: 13, offset: 89812},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2959, col: 10, offset: 93800},
+																		pos: position{line: 2963, col: 10, offset: 93864},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2959, col: 10, offset: 93800},
+																			pos:        position{line: 2963, col: 10, offset: 93864},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49674,10 +49674,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49694,10 +49694,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49717,17 +49717,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89748},
+																							pos:        position{line: 2817, col: 13, offset: 89812},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49758,10 +49758,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49778,10 +49778,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2959, col: 10, offset: 93800},
+																			pos: position{line: 2963, col: 10, offset: 93864},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2959, col: 10, offset: 93800},
+																				pos:        position{line: 2963, col: 10, offset: 93864},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49801,17 +49801,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2813, col: 13, offset: 89748},
+																							pos:        position{line: 2817, col: 13, offset: 89812},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2959, col: 10, offset: 93800},
+																							pos: position{line: 2963, col: 10, offset: 93864},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2959, col: 10, offset: 93800},
+																								pos:        position{line: 2963, col: 10, offset: 93864},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49838,15 +49838,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80136},
+										pos:  position{line: 2480, col: 11, offset: 80200},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80156},
+										pos:  position{line: 2481, col: 11, offset: 80220},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2478, col: 11, offset: 80179},
+										pos:  position{line: 2482, col: 11, offset: 80243},
 										name: "InlineMenu",
 									},
 								},
@@ -49858,80 +49858,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2482, col: 1, offset: 80236},
+			pos:  position{line: 2486, col: 1, offset: 80300},
 			expr: &actionExpr{
-				pos: position{line: 2484, col: 5, offset: 80324},
+				pos: position{line: 2488, col: 5, offset: 80388},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2484, col: 5, offset: 80324},
+					pos: position{line: 2488, col: 5, offset: 80388},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2484, col: 5, offset: 80324},
+							pos: position{line: 2488, col: 5, offset: 80388},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2487, col: 5, offset: 80401},
+							pos:   position{line: 2491, col: 5, offset: 80465},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2488, col: 9, offset: 80419},
+								pos: position{line: 2492, col: 9, offset: 80483},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1412, col: 26, offset: 44933},
+										pos: position{line: 1416, col: 26, offset: 44997},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1412, col: 26, offset: 44933},
+											pos: position{line: 1416, col: 26, offset: 44997},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44901},
+													pos:        position{line: 1414, col: 32, offset: 44965},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1412, col: 54, offset: 44961},
+													pos:   position{line: 1416, col: 54, offset: 45025},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1416, col: 33, offset: 45174},
+														pos: position{line: 1420, col: 33, offset: 45238},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1416, col: 34, offset: 45175},
+																pos: position{line: 1420, col: 34, offset: 45239},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1416, col: 34, offset: 45175},
+																	pos: position{line: 1420, col: 34, offset: 45239},
 																	expr: &seqExpr{
-																		pos: position{line: 1416, col: 35, offset: 45176},
+																		pos: position{line: 1420, col: 35, offset: 45240},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1416, col: 35, offset: 45176},
+																				pos: position{line: 1420, col: 35, offset: 45240},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44901},
+																					pos:        position{line: 1414, col: 32, offset: 44965},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1416, col: 64, offset: 45205,
+																				line: 1420, col: 64, offset: 45269,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1418, col: 11, offset: 45378},
+																pos: position{line: 1422, col: 11, offset: 45442},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1418, col: 11, offset: 45378},
+																	pos: position{line: 1422, col: 11, offset: 45442},
 																	expr: &seqExpr{
-																		pos: position{line: 1418, col: 12, offset: 45379},
+																		pos: position{line: 1422, col: 12, offset: 45443},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1418, col: 12, offset: 45379},
+																				pos: position{line: 1422, col: 12, offset: 45443},
 																				expr: &actionExpr{
-																					pos: position{line: 2959, col: 10, offset: 93800},
+																					pos: position{line: 2963, col: 10, offset: 93864},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2959, col: 10, offset: 93800},
+																						pos:        position{line: 2963, col: 10, offset: 93864},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49940,27 +49940,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 19, offset: 45386},
+																				pos: position{line: 1422, col: 19, offset: 45450},
 																				expr: &actionExpr{
-																					pos: position{line: 2968, col: 12, offset: 93971},
+																					pos: position{line: 2972, col: 12, offset: 94035},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2968, col: 13, offset: 93972},
+																						pos: position{line: 2972, col: 13, offset: 94036},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 13, offset: 93972},
+																								pos:        position{line: 2972, col: 13, offset: 94036},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 20, offset: 93979},
+																								pos:        position{line: 2972, col: 20, offset: 94043},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2968, col: 29, offset: 93988},
+																								pos:        position{line: 2972, col: 29, offset: 94052},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49970,16 +49970,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1418, col: 28, offset: 45395},
+																				pos: position{line: 1422, col: 28, offset: 45459},
 																				expr: &litMatcher{
-																					pos:        position{line: 1410, col: 32, offset: 44901},
+																					pos:        position{line: 1414, col: 32, offset: 44965},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1418, col: 57, offset: 45424,
+																				line: 1422, col: 57, offset: 45488,
 																			},
 																		},
 																	},
@@ -49989,15 +49989,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1410, col: 32, offset: 44901},
+													pos:        position{line: 1414, col: 32, offset: 44965},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1412, col: 121, offset: 45028},
+													pos: position{line: 1416, col: 121, offset: 45092},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89748},
+														pos:        position{line: 2817, col: 13, offset: 89812},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50008,11 +50008,15 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1400, col: 26, offset: 44216},
+										pos: position{line: 1401, col: 5, offset: 44221},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1400, col: 26, offset: 44216},
+											pos: position{line: 1401, col: 5, offset: 44221},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 1401, col: 5, offset: 44221},
+													run: (*parser).callonInlinePassthrough37,
+												},
 												&litMatcher{
 													pos:        position{line: 1398, col: 32, offset: 44186},
 													val:        "+",
@@ -50020,19 +50024,19 @@ var g = &grammar{
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1400, col: 54, offset: 44244},
+													pos:   position{line: 1404, col: 33, offset: 44308},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1404, col: 33, offset: 44457},
+														pos: position{line: 1408, col: 33, offset: 44521},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1404, col: 34, offset: 44458},
-																run: (*parser).callonInlinePassthrough40,
+																pos: position{line: 1408, col: 34, offset: 44522},
+																run: (*parser).callonInlinePassthrough41,
 																expr: &seqExpr{
-																	pos: position{line: 1404, col: 34, offset: 44458},
+																	pos: position{line: 1408, col: 34, offset: 44522},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1404, col: 35, offset: 44459},
+																			pos: position{line: 1408, col: 35, offset: 44523},
 																			expr: &litMatcher{
 																				pos:        position{line: 1398, col: 32, offset: 44186},
 																				val:        "+",
@@ -50041,12 +50045,12 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 64, offset: 44488},
+																			pos: position{line: 1408, col: 64, offset: 44552},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
-																				run: (*parser).callonInlinePassthrough45,
+																				pos: position{line: 2963, col: 10, offset: 93864},
+																				run: (*parser).callonInlinePassthrough46,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50055,27 +50059,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1404, col: 71, offset: 44495},
+																			pos: position{line: 1408, col: 71, offset: 44559},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
-																				run: (*parser).callonInlinePassthrough48,
+																				pos: position{line: 2972, col: 12, offset: 94035},
+																				run: (*parser).callonInlinePassthrough49,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50085,25 +50089,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1404, col: 80, offset: 44504,
+																			line: 1408, col: 80, offset: 44568,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1404, col: 83, offset: 44507},
+																			pos: position{line: 1408, col: 83, offset: 44571},
 																			expr: &seqExpr{
-																				pos: position{line: 1404, col: 84, offset: 44508},
+																				pos: position{line: 1408, col: 84, offset: 44572},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1404, col: 84, offset: 44508},
+																						pos: position{line: 1408, col: 84, offset: 44572},
 																						expr: &seqExpr{
-																							pos: position{line: 1404, col: 86, offset: 44510},
+																							pos: position{line: 1408, col: 86, offset: 44574},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2963, col: 11, offset: 93861},
-																									run: (*parser).callonInlinePassthrough58,
+																									pos: position{line: 2967, col: 11, offset: 93925},
+																									run: (*parser).callonInlinePassthrough59,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2963, col: 11, offset: 93861},
+																										pos: position{line: 2967, col: 11, offset: 93925},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 11, offset: 93861},
+																											pos:        position{line: 2967, col: 11, offset: 93925},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -50121,7 +50125,7 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 122, offset: 44546},
+																						pos: position{line: 1408, col: 122, offset: 44610},
 																						expr: &litMatcher{
 																							pos:        position{line: 1398, col: 32, offset: 44186},
 																							val:        "+",
@@ -50130,27 +50134,27 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1404, col: 151, offset: 44575},
+																						pos: position{line: 1408, col: 151, offset: 44639},
 																						expr: &actionExpr{
-																							pos: position{line: 2968, col: 12, offset: 93971},
-																							run: (*parser).callonInlinePassthrough65,
+																							pos: position{line: 2972, col: 12, offset: 94035},
+																							run: (*parser).callonInlinePassthrough66,
 																							expr: &choiceExpr{
-																								pos: position{line: 2968, col: 13, offset: 93972},
+																								pos: position{line: 2972, col: 13, offset: 94036},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 13, offset: 93972},
+																										pos:        position{line: 2972, col: 13, offset: 94036},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 20, offset: 93979},
+																										pos:        position{line: 2972, col: 20, offset: 94043},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2968, col: 29, offset: 93988},
+																										pos:        position{line: 2972, col: 29, offset: 94052},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50160,7 +50164,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1404, col: 160, offset: 44584,
+																						line: 1408, col: 160, offset: 44648,
 																					},
 																				},
 																			},
@@ -50169,18 +50173,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1406, col: 11, offset: 44734},
-																run: (*parser).callonInlinePassthrough71,
+																pos: position{line: 1410, col: 11, offset: 44798},
+																run: (*parser).callonInlinePassthrough72,
 																expr: &seqExpr{
-																	pos: position{line: 1406, col: 12, offset: 44735},
+																	pos: position{line: 1410, col: 12, offset: 44799},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1406, col: 12, offset: 44735},
+																			pos: position{line: 1410, col: 12, offset: 44799},
 																			expr: &actionExpr{
-																				pos: position{line: 2959, col: 10, offset: 93800},
-																				run: (*parser).callonInlinePassthrough74,
+																				pos: position{line: 2963, col: 10, offset: 93864},
+																				run: (*parser).callonInlinePassthrough75,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2959, col: 10, offset: 93800},
+																					pos:        position{line: 2963, col: 10, offset: 93864},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50189,27 +50193,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 19, offset: 44742},
+																			pos: position{line: 1410, col: 19, offset: 44806},
 																			expr: &actionExpr{
-																				pos: position{line: 2968, col: 12, offset: 93971},
-																				run: (*parser).callonInlinePassthrough77,
+																				pos: position{line: 2972, col: 12, offset: 94035},
+																				run: (*parser).callonInlinePassthrough78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2968, col: 13, offset: 93972},
+																					pos: position{line: 2972, col: 13, offset: 94036},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 13, offset: 93972},
+																							pos:        position{line: 2972, col: 13, offset: 94036},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 20, offset: 93979},
+																							pos:        position{line: 2972, col: 20, offset: 94043},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2968, col: 29, offset: 93988},
+																							pos:        position{line: 2972, col: 29, offset: 94052},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50219,7 +50223,7 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1406, col: 28, offset: 44751},
+																			pos: position{line: 1410, col: 28, offset: 44815},
 																			expr: &litMatcher{
 																				pos:        position{line: 1398, col: 32, offset: 44186},
 																				val:        "+",
@@ -50228,7 +50232,7 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1406, col: 57, offset: 44780,
+																			line: 1410, col: 57, offset: 44844,
 																		},
 																	},
 																},
@@ -50243,9 +50247,9 @@ var g = &grammar{
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1400, col: 121, offset: 44311},
+													pos: position{line: 1404, col: 100, offset: 44375},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 13, offset: 89748},
+														pos:        position{line: 2817, col: 13, offset: 89812},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50256,7 +50260,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2488, col: 57, offset: 80467},
+										pos:  position{line: 2492, col: 57, offset: 80531},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50268,16 +50272,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2493, col: 1, offset: 80527},
+			pos:  position{line: 2497, col: 1, offset: 80591},
 			expr: &seqExpr{
-				pos: position{line: 2495, col: 5, offset: 80603},
+				pos: position{line: 2499, col: 5, offset: 80667},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2495, col: 5, offset: 80603},
+						pos: position{line: 2499, col: 5, offset: 80667},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2498, col: 5, offset: 80668},
+						pos:  position{line: 2502, col: 5, offset: 80732},
 						name: "QuotedText",
 					},
 				},
@@ -50285,22 +50289,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2500, col: 1, offset: 80681},
+			pos:  position{line: 2504, col: 1, offset: 80745},
 			expr: &actionExpr{
-				pos: position{line: 2502, col: 5, offset: 80763},
+				pos: position{line: 2506, col: 5, offset: 80827},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2502, col: 5, offset: 80763},
+					pos: position{line: 2506, col: 5, offset: 80827},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2502, col: 5, offset: 80763},
+							pos: position{line: 2506, col: 5, offset: 80827},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2505, col: 5, offset: 80834},
+							pos:   position{line: 2509, col: 5, offset: 80898},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2506, col: 9, offset: 80852},
+								pos:  position{line: 2510, col: 9, offset: 80916},
 								name: "Symbol",
 							},
 						},
@@ -50310,103 +50314,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2564, col: 1, offset: 82676},
+			pos:  position{line: 2568, col: 1, offset: 82740},
 			expr: &choiceExpr{
-				pos: position{line: 2566, col: 5, offset: 82706},
+				pos: position{line: 2570, col: 5, offset: 82770},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2566, col: 5, offset: 82706},
+						pos: position{line: 2570, col: 5, offset: 82770},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2566, col: 5, offset: 82706},
+							pos: position{line: 2570, col: 5, offset: 82770},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2566, col: 5, offset: 82706},
+									pos:        position{line: 2570, col: 5, offset: 82770},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2566, col: 10, offset: 82711},
+									pos: position{line: 2570, col: 10, offset: 82775},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2566, col: 10, offset: 82711},
+											pos:  position{line: 2570, col: 10, offset: 82775},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 14, offset: 83809},
+											pos: position{line: 2599, col: 14, offset: 83873},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2595, col: 14, offset: 83809},
+												pos:        position{line: 2599, col: 14, offset: 83873},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 14, offset: 83875},
+											pos: position{line: 2603, col: 14, offset: 83939},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 14, offset: 83875},
+												pos:        position{line: 2603, col: 14, offset: 83939},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 15, offset: 83944},
+											pos: position{line: 2607, col: 15, offset: 84008},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 15, offset: 83944},
+												pos:        position{line: 2607, col: 15, offset: 84008},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 13, offset: 84009},
+											pos: position{line: 2611, col: 13, offset: 84073},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 13, offset: 84009},
+												pos:        position{line: 2611, col: 13, offset: 84073},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 21, offset: 84579},
+											pos: position{line: 2639, col: 21, offset: 84643},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2635, col: 21, offset: 84579},
+												pos:        position{line: 2639, col: 21, offset: 84643},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 5, offset: 84165},
+											pos: position{line: 2618, col: 5, offset: 84229},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2614, col: 5, offset: 84165},
+												pos: position{line: 2618, col: 5, offset: 84229},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2614, col: 5, offset: 84165},
+														pos:        position{line: 2618, col: 5, offset: 84229},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2615, col: 5, offset: 84175},
+														pos: position{line: 2619, col: 5, offset: 84239},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 6, offset: 84262},
+														pos: position{line: 2623, col: 6, offset: 84326},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2959, col: 10, offset: 93800},
+																pos: position{line: 2963, col: 10, offset: 93864},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2959, col: 10, offset: 93800},
+																	pos:        position{line: 2963, col: 10, offset: 93864},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50414,30 +50418,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2619, col: 14, offset: 84270},
+																pos: position{line: 2623, col: 14, offset: 84334},
 																expr: &choiceExpr{
-																	pos: position{line: 2981, col: 8, offset: 94198},
+																	pos: position{line: 2985, col: 8, offset: 94262},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2968, col: 12, offset: 93971},
+																			pos: position{line: 2972, col: 12, offset: 94035},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2968, col: 13, offset: 93972},
+																				pos: position{line: 2972, col: 13, offset: 94036},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 13, offset: 93972},
+																						pos:        position{line: 2972, col: 13, offset: 94036},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 20, offset: 93979},
+																						pos:        position{line: 2972, col: 20, offset: 94043},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2968, col: 29, offset: 93988},
+																						pos:        position{line: 2972, col: 29, offset: 94052},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50446,9 +50450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2978, col: 8, offset: 94148},
+																			pos: position{line: 2982, col: 8, offset: 94212},
 																			expr: &anyMatcher{
-																				line: 2978, col: 9, offset: 94149,
+																				line: 2982, col: 9, offset: 94213,
 																			},
 																		},
 																	},
@@ -50460,53 +50464,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2624, col: 5, offset: 84390},
+											pos: position{line: 2628, col: 5, offset: 84454},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2624, col: 5, offset: 84390},
+												pos: position{line: 2628, col: 5, offset: 84454},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2624, col: 5, offset: 84390},
+														pos:        position{line: 2628, col: 5, offset: 84454},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2625, col: 5, offset: 84400},
+														pos: position{line: 2629, col: 5, offset: 84464},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2629, col: 5, offset: 84489},
+														pos: position{line: 2633, col: 5, offset: 84553},
 														expr: &choiceExpr{
-															pos: position{line: 2629, col: 7, offset: 84491},
+															pos: position{line: 2633, col: 7, offset: 84555},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2813, col: 13, offset: 89748},
+																	pos:        position{line: 2817, col: 13, offset: 89812},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2968, col: 12, offset: 93971},
+																	pos: position{line: 2972, col: 12, offset: 94035},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2968, col: 13, offset: 93972},
+																		pos: position{line: 2972, col: 13, offset: 94036},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 13, offset: 93972},
+																				pos:        position{line: 2972, col: 13, offset: 94036},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 20, offset: 93979},
+																				pos:        position{line: 2972, col: 20, offset: 94043},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2968, col: 29, offset: 93988},
+																				pos:        position{line: 2972, col: 29, offset: 94052},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50515,9 +50519,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -50527,30 +50531,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 20, offset: 84649},
+											pos: position{line: 2643, col: 20, offset: 84713},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 20, offset: 84649},
+												pos:        position{line: 2643, col: 20, offset: 84713},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 21, offset: 84720},
+											pos: position{line: 2647, col: 21, offset: 84784},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 21, offset: 84720},
+												pos:        position{line: 2647, col: 21, offset: 84784},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 20, offset: 84790},
+											pos: position{line: 2651, col: 20, offset: 84854},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 20, offset: 84790},
+												pos:        position{line: 2651, col: 20, offset: 84854},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50562,73 +50566,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2570, col: 7, offset: 82960},
+						pos:  position{line: 2574, col: 7, offset: 83024},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 14, offset: 83809},
+						pos: position{line: 2599, col: 14, offset: 83873},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2595, col: 14, offset: 83809},
+							pos:        position{line: 2599, col: 14, offset: 83873},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 14, offset: 83875},
+						pos: position{line: 2603, col: 14, offset: 83939},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 14, offset: 83875},
+							pos:        position{line: 2603, col: 14, offset: 83939},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 15, offset: 83944},
+						pos: position{line: 2607, col: 15, offset: 84008},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 15, offset: 83944},
+							pos:        position{line: 2607, col: 15, offset: 84008},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 13, offset: 84009},
+						pos: position{line: 2611, col: 13, offset: 84073},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 13, offset: 84009},
+							pos:        position{line: 2611, col: 13, offset: 84073},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 5, offset: 84165},
+						pos: position{line: 2618, col: 5, offset: 84229},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2614, col: 5, offset: 84165},
+							pos: position{line: 2618, col: 5, offset: 84229},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2614, col: 5, offset: 84165},
+									pos:        position{line: 2618, col: 5, offset: 84229},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2615, col: 5, offset: 84175},
+									pos: position{line: 2619, col: 5, offset: 84239},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2619, col: 6, offset: 84262},
+									pos: position{line: 2623, col: 6, offset: 84326},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2959, col: 10, offset: 93800},
+											pos: position{line: 2963, col: 10, offset: 93864},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2959, col: 10, offset: 93800},
+												pos:        position{line: 2963, col: 10, offset: 93864},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50636,30 +50640,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2619, col: 14, offset: 84270},
+											pos: position{line: 2623, col: 14, offset: 84334},
 											expr: &choiceExpr{
-												pos: position{line: 2981, col: 8, offset: 94198},
+												pos: position{line: 2985, col: 8, offset: 94262},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2968, col: 12, offset: 93971},
+														pos: position{line: 2972, col: 12, offset: 94035},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2968, col: 13, offset: 93972},
+															pos: position{line: 2972, col: 13, offset: 94036},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2968, col: 13, offset: 93972},
+																	pos:        position{line: 2972, col: 13, offset: 94036},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 20, offset: 93979},
+																	pos:        position{line: 2972, col: 20, offset: 94043},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2968, col: 29, offset: 93988},
+																	pos:        position{line: 2972, col: 29, offset: 94052},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50668,9 +50672,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2978, col: 8, offset: 94148},
+														pos: position{line: 2982, col: 8, offset: 94212},
 														expr: &anyMatcher{
-															line: 2978, col: 9, offset: 94149,
+															line: 2982, col: 9, offset: 94213,
 														},
 													},
 												},
@@ -50682,53 +50686,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2624, col: 5, offset: 84390},
+						pos: position{line: 2628, col: 5, offset: 84454},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2624, col: 5, offset: 84390},
+							pos: position{line: 2628, col: 5, offset: 84454},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2624, col: 5, offset: 84390},
+									pos:        position{line: 2628, col: 5, offset: 84454},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2625, col: 5, offset: 84400},
+									pos: position{line: 2629, col: 5, offset: 84464},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2629, col: 5, offset: 84489},
+									pos: position{line: 2633, col: 5, offset: 84553},
 									expr: &choiceExpr{
-										pos: position{line: 2629, col: 7, offset: 84491},
+										pos: position{line: 2633, col: 7, offset: 84555},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2813, col: 13, offset: 89748},
+												pos:        position{line: 2817, col: 13, offset: 89812},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2968, col: 12, offset: 93971},
+												pos: position{line: 2972, col: 12, offset: 94035},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2968, col: 13, offset: 93972},
+													pos: position{line: 2972, col: 13, offset: 94036},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2968, col: 13, offset: 93972},
+															pos:        position{line: 2972, col: 13, offset: 94036},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 20, offset: 93979},
+															pos:        position{line: 2972, col: 20, offset: 94043},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2968, col: 29, offset: 93988},
+															pos:        position{line: 2972, col: 29, offset: 94052},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50737,9 +50741,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2978, col: 8, offset: 94148},
+												pos: position{line: 2982, col: 8, offset: 94212},
 												expr: &anyMatcher{
-													line: 2978, col: 9, offset: 94149,
+													line: 2982, col: 9, offset: 94213,
 												},
 											},
 										},
@@ -50749,40 +50753,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2635, col: 21, offset: 84579},
+						pos: position{line: 2639, col: 21, offset: 84643},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2635, col: 21, offset: 84579},
+							pos:        position{line: 2639, col: 21, offset: 84643},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 20, offset: 84649},
+						pos: position{line: 2643, col: 20, offset: 84713},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 20, offset: 84649},
+							pos:        position{line: 2643, col: 20, offset: 84713},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 21, offset: 84720},
+						pos: position{line: 2647, col: 21, offset: 84784},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 21, offset: 84720},
+							pos:        position{line: 2647, col: 21, offset: 84784},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 20, offset: 84790},
+						pos: position{line: 2651, col: 20, offset: 84854},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 20, offset: 84790},
+							pos:        position{line: 2651, col: 20, offset: 84854},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50793,43 +50797,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2581, col: 1, offset: 83150},
+			pos:  position{line: 2585, col: 1, offset: 83214},
 			expr: &choiceExpr{
-				pos: position{line: 2582, col: 5, offset: 83172},
+				pos: position{line: 2586, col: 5, offset: 83236},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 83172},
+						pos: position{line: 2586, col: 5, offset: 83236},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 83172},
+							pos: position{line: 2586, col: 5, offset: 83236},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 83172},
+									pos:        position{line: 2586, col: 5, offset: 83236},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2582, col: 11, offset: 83178},
+									pos: position{line: 2586, col: 11, offset: 83242},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68835},
+										pos: position{line: 2131, col: 5, offset: 68899},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68835},
+												pos:        position{line: 2131, col: 5, offset: 68899},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68844},
+												pos: position{line: 2132, col: 5, offset: 68908},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68967},
+												pos: position{line: 2136, col: 5, offset: 69031},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68969},
+													pos: position{line: 2136, col: 7, offset: 69033},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68970},
+														pos:        position{line: 2136, col: 8, offset: 69034},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50843,21 +50847,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 7, offset: 83331},
+						pos: position{line: 2589, col: 7, offset: 83395},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2585, col: 7, offset: 83331},
+							pos: position{line: 2589, col: 7, offset: 83395},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2585, col: 7, offset: 83331},
+									pos:        position{line: 2589, col: 7, offset: 83395},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2585, col: 13, offset: 83337},
+									pos: position{line: 2589, col: 13, offset: 83401},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2585, col: 14, offset: 83338},
+										pos:  position{line: 2589, col: 14, offset: 83402},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50865,38 +50869,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 7, offset: 83488},
+						pos: position{line: 2592, col: 7, offset: 83552},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2588, col: 7, offset: 83488},
+							pos: position{line: 2592, col: 7, offset: 83552},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2588, col: 7, offset: 83488},
+									pos:        position{line: 2592, col: 7, offset: 83552},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2588, col: 12, offset: 83493},
+									pos: position{line: 2592, col: 12, offset: 83557},
 									expr: &seqExpr{
-										pos: position{line: 2127, col: 5, offset: 68835},
+										pos: position{line: 2131, col: 5, offset: 68899},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2127, col: 5, offset: 68835},
+												pos:        position{line: 2131, col: 5, offset: 68899},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2128, col: 5, offset: 68844},
+												pos: position{line: 2132, col: 5, offset: 68908},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2132, col: 5, offset: 68967},
+												pos: position{line: 2136, col: 5, offset: 69031},
 												expr: &notExpr{
-													pos: position{line: 2132, col: 7, offset: 68969},
+													pos: position{line: 2136, col: 7, offset: 69033},
 													expr: &litMatcher{
-														pos:        position{line: 2132, col: 8, offset: 68970},
+														pos:        position{line: 2136, col: 8, offset: 69034},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50910,21 +50914,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 7, offset: 83646},
+						pos: position{line: 2595, col: 7, offset: 83710},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 7, offset: 83646},
+							pos: position{line: 2595, col: 7, offset: 83710},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 7, offset: 83646},
+									pos:        position{line: 2595, col: 7, offset: 83710},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2591, col: 12, offset: 83651},
+									pos: position{line: 2595, col: 12, offset: 83715},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2591, col: 13, offset: 83652},
+										pos:  position{line: 2595, col: 13, offset: 83716},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50936,63 +50940,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2724, col: 1, offset: 86692},
+			pos:  position{line: 2728, col: 1, offset: 86756},
 			expr: &actionExpr{
-				pos: position{line: 2724, col: 26, offset: 86717},
+				pos: position{line: 2728, col: 26, offset: 86781},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2724, col: 26, offset: 86717},
+					pos: position{line: 2728, col: 26, offset: 86781},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2724, col: 26, offset: 86717},
+							pos:   position{line: 2728, col: 26, offset: 86781},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2724, col: 31, offset: 86722},
+								pos: position{line: 2728, col: 31, offset: 86786},
 								expr: &actionExpr{
-									pos: position{line: 2729, col: 5, offset: 86785},
+									pos: position{line: 2733, col: 5, offset: 86849},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2729, col: 5, offset: 86785},
+										pos: position{line: 2733, col: 5, offset: 86849},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2976, col: 11, offset: 94134},
+												pos: position{line: 2980, col: 11, offset: 94198},
 												expr: &anyMatcher{
-													line: 2976, col: 13, offset: 94136,
+													line: 2980, col: 13, offset: 94200,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86911},
+												pos:   position{line: 2736, col: 5, offset: 86975},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 16, offset: 86922},
+													pos: position{line: 2736, col: 16, offset: 86986},
 													expr: &actionExpr{
-														pos: position{line: 2732, col: 17, offset: 86923},
+														pos: position{line: 2736, col: 17, offset: 86987},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2732, col: 17, offset: 86923},
+															pos: position{line: 2736, col: 17, offset: 86987},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2732, col: 17, offset: 86923},
+																	pos:   position{line: 2736, col: 17, offset: 86987},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2951, col: 12, offset: 93627},
+																		pos: position{line: 2955, col: 12, offset: 93691},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2951, col: 13, offset: 93628},
+																			pos: position{line: 2955, col: 13, offset: 93692},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2951, col: 13, offset: 93628},
+																					pos: position{line: 2955, col: 13, offset: 93692},
 																					expr: &litMatcher{
-																						pos:        position{line: 2951, col: 13, offset: 93628},
+																						pos:        position{line: 2955, col: 13, offset: 93692},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2951, col: 18, offset: 93633},
+																					pos: position{line: 2955, col: 18, offset: 93697},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2951, col: 18, offset: 93633},
+																						pos:        position{line: 2955, col: 18, offset: 93697},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -51004,7 +51008,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2732, col: 27, offset: 86933},
+																	pos:        position{line: 2736, col: 27, offset: 86997},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -51015,38 +51019,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2733, col: 5, offset: 86961},
+												pos:   position{line: 2737, col: 5, offset: 87025},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2733, col: 12, offset: 86968},
+													pos: position{line: 2737, col: 12, offset: 87032},
 													expr: &choiceExpr{
-														pos: position{line: 2734, col: 9, offset: 86978},
+														pos: position{line: 2738, col: 9, offset: 87042},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2734, col: 9, offset: 86978},
+																pos: position{line: 2738, col: 9, offset: 87042},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2734, col: 9, offset: 86978},
+																	pos:        position{line: 2738, col: 9, offset: 87042},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2735, col: 11, offset: 87025},
+																pos: position{line: 2739, col: 11, offset: 87089},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2735, col: 11, offset: 87025},
+																	pos:        position{line: 2739, col: 11, offset: 87089},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2736, col: 11, offset: 87073},
+																pos: position{line: 2740, col: 11, offset: 87137},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2736, col: 11, offset: 87073},
+																	pos:        position{line: 2740, col: 11, offset: 87137},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -51057,38 +51061,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2738, col: 5, offset: 87123},
+												pos:   position{line: 2742, col: 5, offset: 87187},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2738, col: 12, offset: 87130},
+													pos: position{line: 2742, col: 12, offset: 87194},
 													expr: &choiceExpr{
-														pos: position{line: 2739, col: 9, offset: 87140},
+														pos: position{line: 2743, col: 9, offset: 87204},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2739, col: 9, offset: 87140},
+																pos: position{line: 2743, col: 9, offset: 87204},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 9, offset: 87140},
+																	pos:        position{line: 2743, col: 9, offset: 87204},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87187},
+																pos: position{line: 2744, col: 11, offset: 87251},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87187},
+																	pos:        position{line: 2744, col: 11, offset: 87251},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2741, col: 11, offset: 87237},
+																pos: position{line: 2745, col: 11, offset: 87301},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2741, col: 11, offset: 87237},
+																	pos:        position{line: 2745, col: 11, offset: 87301},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -51099,32 +51103,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2743, col: 5, offset: 87288},
+												pos:   position{line: 2747, col: 5, offset: 87352},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2743, col: 12, offset: 87295},
+													pos: position{line: 2747, col: 12, offset: 87359},
 													expr: &choiceExpr{
-														pos: position{line: 2743, col: 13, offset: 87296},
+														pos: position{line: 2747, col: 13, offset: 87360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2951, col: 12, offset: 93627},
+																pos: position{line: 2955, col: 12, offset: 93691},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2951, col: 13, offset: 93628},
+																	pos: position{line: 2955, col: 13, offset: 93692},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2951, col: 13, offset: 93628},
+																			pos: position{line: 2955, col: 13, offset: 93692},
 																			expr: &litMatcher{
-																				pos:        position{line: 2951, col: 13, offset: 93628},
+																				pos:        position{line: 2955, col: 13, offset: 93692},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2951, col: 18, offset: 93633},
+																			pos: position{line: 2955, col: 18, offset: 93697},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2951, col: 18, offset: 93633},
+																				pos:        position{line: 2955, col: 18, offset: 93697},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -51135,10 +51139,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2743, col: 24, offset: 87307},
+																pos: position{line: 2747, col: 24, offset: 87371},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 24, offset: 87307},
+																	pos:        position{line: 2747, col: 24, offset: 87371},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -51149,15 +51153,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2744, col: 5, offset: 87349},
+												pos:   position{line: 2748, col: 5, offset: 87413},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2744, col: 11, offset: 87355},
+													pos: position{line: 2748, col: 11, offset: 87419},
 													expr: &actionExpr{
-														pos: position{line: 2744, col: 12, offset: 87356},
+														pos: position{line: 2748, col: 12, offset: 87420},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2744, col: 12, offset: 87356},
+															pos:        position{line: 2748, col: 12, offset: 87420},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -51167,12 +51171,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87486},
+												pos:   position{line: 2750, col: 5, offset: 87550},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 11, offset: 87492},
+													pos: position{line: 2750, col: 11, offset: 87556},
 													expr: &litMatcher{
-														pos:        position{line: 2746, col: 12, offset: 87493},
+														pos:        position{line: 2750, col: 12, offset: 87557},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51180,7 +51184,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2747, col: 5, offset: 87503},
+												pos: position{line: 2751, col: 5, offset: 87567},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51189,9 +51193,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2978, col: 8, offset: 94148},
+							pos: position{line: 2982, col: 8, offset: 94212},
 							expr: &anyMatcher{
-								line: 2978, col: 9, offset: 94149,
+								line: 2982, col: 9, offset: 94213,
 							},
 						},
 					},
@@ -51200,23 +51204,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2774, col: 1, offset: 88512},
+			pos:  position{line: 2778, col: 1, offset: 88576},
 			expr: &actionExpr{
-				pos: position{line: 2775, col: 5, offset: 88535},
+				pos: position{line: 2779, col: 5, offset: 88599},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2775, col: 5, offset: 88535},
+					pos: position{line: 2779, col: 5, offset: 88599},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2775, col: 5, offset: 88535},
+							pos:   position{line: 2779, col: 5, offset: 88599},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89281},
+								pos: position{line: 2802, col: 18, offset: 89345},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89282},
+									pos: position{line: 2802, col: 19, offset: 89346},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89282},
+										pos:        position{line: 2802, col: 19, offset: 89346},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51227,39 +51231,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2776, col: 5, offset: 88561},
+							pos: position{line: 2780, col: 5, offset: 88625},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2780, col: 5, offset: 88689},
+							pos:        position{line: 2784, col: 5, offset: 88753},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2781, col: 5, offset: 88699},
+							pos:   position{line: 2785, col: 5, offset: 88763},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 24, offset: 89443},
+								pos: position{line: 2810, col: 24, offset: 89507},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2806, col: 24, offset: 89443},
+									pos: position{line: 2810, col: 24, offset: 89507},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 25, offset: 89444},
+										pos: position{line: 2810, col: 25, offset: 89508},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2806, col: 25, offset: 89444},
+												pos: position{line: 2810, col: 25, offset: 89508},
 												expr: &litMatcher{
-													pos:        position{line: 2806, col: 26, offset: 89445},
+													pos:        position{line: 2810, col: 26, offset: 89509},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2806, col: 30, offset: 89449},
+												pos: position{line: 2810, col: 30, offset: 89513},
 												expr: &charClassMatcher{
-													pos:        position{line: 2806, col: 30, offset: 89449},
+													pos:        position{line: 2810, col: 30, offset: 89513},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51267,23 +51271,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2806, col: 41, offset: 89460},
+												pos: position{line: 2810, col: 41, offset: 89524},
 												expr: &seqExpr{
-													pos: position{line: 2806, col: 42, offset: 89461},
+													pos: position{line: 2810, col: 42, offset: 89525},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 42, offset: 89461},
+															pos: position{line: 2810, col: 42, offset: 89525},
 															expr: &litMatcher{
-																pos:        position{line: 2806, col: 42, offset: 89461},
+																pos:        position{line: 2810, col: 42, offset: 89525},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2806, col: 47, offset: 89466},
+															pos: position{line: 2810, col: 47, offset: 89530},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 47, offset: 89466},
+																pos:        position{line: 2810, col: 47, offset: 89530},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51299,36 +51303,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2782, col: 5, offset: 88732},
+							pos:   position{line: 2786, col: 5, offset: 88796},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2782, col: 17, offset: 88744},
+								pos:  position{line: 2786, col: 17, offset: 88808},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2981, col: 8, offset: 94198},
+							pos: position{line: 2985, col: 8, offset: 94262},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2968, col: 12, offset: 93971},
+									pos: position{line: 2972, col: 12, offset: 94035},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2968, col: 13, offset: 93972},
+										pos: position{line: 2972, col: 13, offset: 94036},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2968, col: 13, offset: 93972},
+												pos:        position{line: 2972, col: 13, offset: 94036},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 20, offset: 93979},
+												pos:        position{line: 2972, col: 20, offset: 94043},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2968, col: 29, offset: 93988},
+												pos:        position{line: 2972, col: 29, offset: 94052},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51337,9 +51341,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2978, col: 8, offset: 94148},
+									pos: position{line: 2982, col: 8, offset: 94212},
 									expr: &anyMatcher{
-										line: 2978, col: 9, offset: 94149,
+										line: 2982, col: 9, offset: 94213,
 									},
 								},
 							},
@@ -51350,23 +51354,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2786, col: 1, offset: 88892},
+			pos:  position{line: 2790, col: 1, offset: 88956},
 			expr: &actionExpr{
-				pos: position{line: 2787, col: 5, offset: 88916},
+				pos: position{line: 2791, col: 5, offset: 88980},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2787, col: 5, offset: 88916},
+					pos: position{line: 2791, col: 5, offset: 88980},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2787, col: 5, offset: 88916},
+							pos:   position{line: 2791, col: 5, offset: 88980},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2798, col: 18, offset: 89281},
+								pos: position{line: 2802, col: 18, offset: 89345},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2798, col: 19, offset: 89282},
+									pos: position{line: 2802, col: 19, offset: 89346},
 									expr: &charClassMatcher{
-										pos:        position{line: 2798, col: 19, offset: 89282},
+										pos:        position{line: 2802, col: 19, offset: 89346},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51377,39 +51381,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2788, col: 5, offset: 88942},
+							pos: position{line: 2792, col: 5, offset: 89006},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2792, col: 5, offset: 89070},
+							pos:        position{line: 2796, col: 5, offset: 89134},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2793, col: 5, offset: 89079},
+							pos:   position{line: 2797, col: 5, offset: 89143},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 19, offset: 89357},
+								pos: position{line: 2806, col: 19, offset: 89421},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2802, col: 19, offset: 89357},
+									pos: position{line: 2806, col: 19, offset: 89421},
 									expr: &seqExpr{
-										pos: position{line: 2802, col: 20, offset: 89358},
+										pos: position{line: 2806, col: 20, offset: 89422},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2802, col: 20, offset: 89358},
+												pos: position{line: 2806, col: 20, offset: 89422},
 												expr: &litMatcher{
-													pos:        position{line: 2802, col: 21, offset: 89359},
+													pos:        position{line: 2806, col: 21, offset: 89423},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2802, col: 25, offset: 89363},
+												pos: position{line: 2806, col: 25, offset: 89427},
 												expr: &charClassMatcher{
-													pos:        position{line: 2802, col: 25, offset: 89363},
+													pos:        position{line: 2806, col: 25, offset: 89427},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51422,10 +51426,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2794, col: 5, offset: 89107},
+							pos:   position{line: 2798, col: 5, offset: 89171},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2794, col: 17, offset: 89119},
+								pos:  position{line: 2798, col: 17, offset: 89183},
 								name: "InlineAttributes",
 							},
 						},
@@ -51435,43 +51439,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2886, col: 1, offset: 91608},
+			pos:  position{line: 2890, col: 1, offset: 91672},
 			expr: &actionExpr{
-				pos: position{line: 2886, col: 17, offset: 91624},
+				pos: position{line: 2890, col: 17, offset: 91688},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2886, col: 17, offset: 91624},
+					pos:   position{line: 2890, col: 17, offset: 91688},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2907, col: 5, offset: 92209},
+						pos: position{line: 2911, col: 5, offset: 92273},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2907, col: 5, offset: 92209},
+							pos:   position{line: 2911, col: 5, offset: 92273},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2907, col: 14, offset: 92218},
+								pos: position{line: 2911, col: 14, offset: 92282},
 								expr: &choiceExpr{
-									pos: position{line: 2908, col: 9, offset: 92228},
+									pos: position{line: 2912, col: 9, offset: 92292},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2908, col: 9, offset: 92228},
+											pos: position{line: 2912, col: 9, offset: 92292},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2908, col: 9, offset: 92228},
+												pos: position{line: 2912, col: 9, offset: 92292},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2908, col: 9, offset: 92228},
+														pos: position{line: 2912, col: 9, offset: 92292},
 														expr: &litMatcher{
-															pos:        position{line: 2908, col: 10, offset: 92229},
+															pos:        position{line: 2912, col: 10, offset: 92293},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2909, col: 9, offset: 92257},
+														pos: position{line: 2913, col: 9, offset: 92321},
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 10, offset: 92258},
+															pos:        position{line: 2913, col: 10, offset: 92322},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51482,27 +51486,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2912, col: 11, offset: 92470},
+											pos: position{line: 2916, col: 11, offset: 92534},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2912, col: 11, offset: 92470},
+													pos:        position{line: 2916, col: 11, offset: 92534},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2912, col: 19, offset: 92478},
+													pos: position{line: 2916, col: 19, offset: 92542},
 													expr: &seqExpr{
-														pos: position{line: 2912, col: 21, offset: 92480},
+														pos: position{line: 2916, col: 21, offset: 92544},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2912, col: 21, offset: 92480},
+																pos: position{line: 2916, col: 21, offset: 92544},
 																expr: &actionExpr{
-																	pos: position{line: 2959, col: 10, offset: 93800},
+																	pos: position{line: 2963, col: 10, offset: 93864},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2959, col: 10, offset: 93800},
+																		pos:        position{line: 2963, col: 10, offset: 93864},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51511,11 +51515,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2912, col: 28, offset: 92487},
+																pos: position{line: 2916, col: 28, offset: 92551},
 																expr: &notExpr{
-																	pos: position{line: 2978, col: 8, offset: 94148},
+																	pos: position{line: 2982, col: 8, offset: 94212},
 																	expr: &anyMatcher{
-																		line: 2978, col: 9, offset: 94149,
+																		line: 2982, col: 9, offset: 94213,
 																	},
 																},
 															},
@@ -51910,10 +51914,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2915, col: 11, offset: 92607},
+											pos: position{line: 2919, col: 11, offset: 92671},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2915, col: 11, offset: 92607},
+												pos:        position{line: 2919, col: 11, offset: 92671},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -78539,97 +78543,108 @@ func (p *parser) callonInlinePassthrough6() (interface{}, error) {
 	return p.cur.onInlinePassthrough6(stack["content"])
 }
 
-func (c *current) onInlinePassthrough45() (interface{}, error) {
+func (c *current) onInlinePassthrough37() (bool, error) {
+	return !c.isPrecededByAlphanum(), nil
+
+}
+
+func (p *parser) callonInlinePassthrough37() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onInlinePassthrough37()
+}
+
+func (c *current) onInlinePassthrough46() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough45() (interface{}, error) {
+func (p *parser) callonInlinePassthrough46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough45()
+	return p.cur.onInlinePassthrough46()
 }
 
-func (c *current) onInlinePassthrough48() (interface{}, error) {
+func (c *current) onInlinePassthrough49() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough48() (interface{}, error) {
+func (p *parser) callonInlinePassthrough49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough48()
+	return p.cur.onInlinePassthrough49()
 }
 
-func (c *current) onInlinePassthrough58() (interface{}, error) {
+func (c *current) onInlinePassthrough59() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough58() (interface{}, error) {
+func (p *parser) callonInlinePassthrough59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough58()
+	return p.cur.onInlinePassthrough59()
 }
 
-func (c *current) onInlinePassthrough65() (interface{}, error) {
+func (c *current) onInlinePassthrough66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough65() (interface{}, error) {
+func (p *parser) callonInlinePassthrough66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough65()
+	return p.cur.onInlinePassthrough66()
 }
 
-func (c *current) onInlinePassthrough40() (interface{}, error) {
+func (c *current) onInlinePassthrough41() (interface{}, error) {
 	// no space in the first or last position of the content, but allowed elsewhere
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough40() (interface{}, error) {
+func (p *parser) callonInlinePassthrough41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough40()
+	return p.cur.onInlinePassthrough41()
 }
 
-func (c *current) onInlinePassthrough74() (interface{}, error) {
+func (c *current) onInlinePassthrough75() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough74() (interface{}, error) {
+func (p *parser) callonInlinePassthrough75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough74()
+	return p.cur.onInlinePassthrough75()
 }
 
-func (c *current) onInlinePassthrough77() (interface{}, error) {
+func (c *current) onInlinePassthrough78() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough77() (interface{}, error) {
+func (p *parser) callonInlinePassthrough78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough77()
+	return p.cur.onInlinePassthrough78()
 }
 
-func (c *current) onInlinePassthrough71() (interface{}, error) {
+func (c *current) onInlinePassthrough72() (interface{}, error) {
 	// a single character
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough71() (interface{}, error) {
+func (p *parser) callonInlinePassthrough72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough71()
+	return p.cur.onInlinePassthrough72()
 }
 
 func (c *current) onInlinePassthrough35(content interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 19d2338..01fe190 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1397,7 +1397,11 @@ FootnoteElement <-
 
 SinglePlusPassthroughPrefix <- "+"
 
-SinglePlusPassthrough <- SinglePlusPassthroughPrefix content:(SinglePlusPassthroughContent) SinglePlusPassthroughPrefix !Alphanum {
+SinglePlusPassthrough <- 
+    &{
+        return !c.isPrecededByAlphanum(), nil
+    }
+    SinglePlusPassthroughPrefix content:(SinglePlusPassthroughContent) SinglePlusPassthroughPrefix !Alphanum {
         return types.NewInlinePassthrough(types.SinglePlusPassthrough, []interface{}{content})
     }
 
-- 
2.43.0


From 9a1fd12877a60026d446aa992b592bb9f41e79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:44 +0000
Subject: [PATCH 111/117] fix: accept letters after triple plus passthroughs

---
 pkg/parser/parser.go  | 12838 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 6415 insertions(+), 6425 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 14efd0d..8d919a6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93691},
+																pos: position{line: 2955, col: 12, offset: 93681},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93692},
+																	pos: position{line: 2955, col: 13, offset: 93682},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93692},
+																			pos: position{line: 2955, col: 13, offset: 93682},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93692},
+																				pos:        position{line: 2955, col: 13, offset: 93682},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93697},
+																			pos: position{line: 2955, col: 18, offset: 93687},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93697},
+																				pos:        position{line: 2955, col: 18, offset: 93687},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93691},
+																pos: position{line: 2955, col: 12, offset: 93681},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93692},
+																	pos: position{line: 2955, col: 13, offset: 93682},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93692},
+																			pos: position{line: 2955, col: 13, offset: 93682},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93692},
+																				pos:        position{line: 2955, col: 13, offset: 93682},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93697},
+																			pos: position{line: 2955, col: 18, offset: 93687},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93697},
+																				pos:        position{line: 2955, col: 18, offset: 93687},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 13, offset: 89812},
+														pos:        position{line: 2817, col: 13, offset: 89802},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2967, col: 11, offset: 93925},
+													pos: position{line: 2967, col: 11, offset: 93915},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2967, col: 11, offset: 93925},
+														pos: position{line: 2967, col: 11, offset: 93915},
 														expr: &charClassMatcher{
-															pos:        position{line: 2967, col: 11, offset: 93925},
+															pos:        position{line: 2967, col: 11, offset: 93915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2886, col: 14, offset: 91618},
+													pos: position{line: 2886, col: 14, offset: 91608},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2886, col: 14, offset: 91618},
+														pos: position{line: 2886, col: 14, offset: 91608},
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 14, offset: 91618},
+															pos:        position{line: 2886, col: 14, offset: 91608},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 17, offset: 91688},
+												pos: position{line: 2890, col: 17, offset: 91678},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2890, col: 17, offset: 91688},
+													pos:   position{line: 2890, col: 17, offset: 91678},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 12, offset: 93691},
+																				pos: position{line: 2955, col: 12, offset: 93681},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2955, col: 13, offset: 93692},
+																					pos: position{line: 2955, col: 13, offset: 93682},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2955, col: 13, offset: 93692},
+																							pos: position{line: 2955, col: 13, offset: 93682},
 																							expr: &litMatcher{
-																								pos:        position{line: 2955, col: 13, offset: 93692},
+																								pos:        position{line: 2955, col: 13, offset: 93682},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2955, col: 18, offset: 93697},
+																							pos: position{line: 2955, col: 18, offset: 93687},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 18, offset: 93697},
+																								pos:        position{line: 2955, col: 18, offset: 93687},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 12, offset: 93691},
+																				pos: position{line: 2955, col: 12, offset: 93681},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2955, col: 13, offset: 93692},
+																					pos: position{line: 2955, col: 13, offset: 93682},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2955, col: 13, offset: 93692},
+																							pos: position{line: 2955, col: 13, offset: 93682},
 																							expr: &litMatcher{
-																								pos:        position{line: 2955, col: 13, offset: 93692},
+																								pos:        position{line: 2955, col: 13, offset: 93682},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2955, col: 18, offset: 93697},
+																							pos: position{line: 2955, col: 18, offset: 93687},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 18, offset: 93697},
+																								pos:        position{line: 2955, col: 18, offset: 93687},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 12, offset: 93691},
+																		pos: position{line: 2955, col: 12, offset: 93681},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2955, col: 13, offset: 93692},
+																			pos: position{line: 2955, col: 13, offset: 93682},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2955, col: 13, offset: 93692},
+																					pos: position{line: 2955, col: 13, offset: 93682},
 																					expr: &litMatcher{
-																						pos:        position{line: 2955, col: 13, offset: 93692},
+																						pos:        position{line: 2955, col: 13, offset: 93682},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2955, col: 18, offset: 93697},
+																					pos: position{line: 2955, col: 18, offset: 93687},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 18, offset: 93697},
+																						pos:        position{line: 2955, col: 18, offset: 93687},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 12, offset: 93691},
+																									pos: position{line: 2955, col: 12, offset: 93681},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2955, col: 13, offset: 93692},
+																										pos: position{line: 2955, col: 13, offset: 93682},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2955, col: 13, offset: 93692},
+																												pos: position{line: 2955, col: 13, offset: 93682},
 																												expr: &litMatcher{
-																													pos:        position{line: 2955, col: 13, offset: 93692},
+																													pos:        position{line: 2955, col: 13, offset: 93682},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2955, col: 18, offset: 93697},
+																												pos: position{line: 2955, col: 18, offset: 93687},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 18, offset: 93697},
+																													pos:        position{line: 2955, col: 18, offset: 93687},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 12, offset: 93691},
+																									pos: position{line: 2955, col: 12, offset: 93681},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2955, col: 13, offset: 93692},
+																										pos: position{line: 2955, col: 13, offset: 93682},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2955, col: 13, offset: 93692},
+																												pos: position{line: 2955, col: 13, offset: 93682},
 																												expr: &litMatcher{
-																													pos:        position{line: 2955, col: 13, offset: 93692},
+																													pos:        position{line: 2955, col: 13, offset: 93682},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2955, col: 18, offset: 93697},
+																												pos: position{line: 2955, col: 18, offset: 93687},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 18, offset: 93697},
+																													pos:        position{line: 2955, col: 18, offset: 93687},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 12, offset: 93691},
+																							pos: position{line: 2955, col: 12, offset: 93681},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2955, col: 13, offset: 93692},
+																								pos: position{line: 2955, col: 13, offset: 93682},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2955, col: 13, offset: 93692},
+																										pos: position{line: 2955, col: 13, offset: 93682},
 																										expr: &litMatcher{
-																											pos:        position{line: 2955, col: 13, offset: 93692},
+																											pos:        position{line: 2955, col: 13, offset: 93682},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2955, col: 18, offset: 93697},
+																										pos: position{line: 2955, col: 18, offset: 93687},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 18, offset: 93697},
+																											pos:        position{line: 2955, col: 18, offset: 93687},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 12, offset: 93691},
+														pos: position{line: 2955, col: 12, offset: 93681},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2955, col: 13, offset: 93692},
+															pos: position{line: 2955, col: 13, offset: 93682},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2955, col: 13, offset: 93692},
+																	pos: position{line: 2955, col: 13, offset: 93682},
 																	expr: &litMatcher{
-																		pos:        position{line: 2955, col: 13, offset: 93692},
+																		pos:        position{line: 2955, col: 13, offset: 93682},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2955, col: 18, offset: 93697},
+																	pos: position{line: 2955, col: 18, offset: 93687},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 18, offset: 93697},
+																		pos:        position{line: 2955, col: 18, offset: 93687},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 12, offset: 93691},
+														pos: position{line: 2955, col: 12, offset: 93681},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2955, col: 13, offset: 93692},
+															pos: position{line: 2955, col: 13, offset: 93682},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2955, col: 13, offset: 93692},
+																	pos: position{line: 2955, col: 13, offset: 93682},
 																	expr: &litMatcher{
-																		pos:        position{line: 2955, col: 13, offset: 93692},
+																		pos:        position{line: 2955, col: 13, offset: 93682},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2955, col: 18, offset: 93697},
+																	pos: position{line: 2955, col: 18, offset: 93687},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 18, offset: 93697},
+																		pos:        position{line: 2955, col: 18, offset: 93687},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 12, offset: 93691},
+												pos: position{line: 2955, col: 12, offset: 93681},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2955, col: 13, offset: 93692},
+													pos: position{line: 2955, col: 13, offset: 93682},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2955, col: 13, offset: 93692},
+															pos: position{line: 2955, col: 13, offset: 93682},
 															expr: &litMatcher{
-																pos:        position{line: 2955, col: 13, offset: 93692},
+																pos:        position{line: 2955, col: 13, offset: 93682},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2955, col: 18, offset: 93697},
+															pos: position{line: 2955, col: 18, offset: 93687},
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 18, offset: 93697},
+																pos:        position{line: 2955, col: 18, offset: 93687},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2821, col: 14, offset: 89886},
+																		pos: position{line: 2821, col: 14, offset: 89876},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2821, col: 14, offset: 89886},
+																			pos: position{line: 2821, col: 14, offset: 89876},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2821, col: 14, offset: 89886},
+																				pos:        position{line: 2821, col: 14, offset: 89876},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2821, col: 14, offset: 89886},
+																				pos: position{line: 2821, col: 14, offset: 89876},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2821, col: 14, offset: 89886},
+																					pos: position{line: 2821, col: 14, offset: 89876},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2821, col: 14, offset: 89886},
+																						pos:        position{line: 2821, col: 14, offset: 89876},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2821, col: 14, offset: 89886},
+																							pos: position{line: 2821, col: 14, offset: 89876},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2821, col: 14, offset: 89886},
+																								pos: position{line: 2821, col: 14, offset: 89876},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 14, offset: 89886},
+																									pos:        position{line: 2821, col: 14, offset: 89876},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2821, col: 14, offset: 89886},
+																									pos: position{line: 2821, col: 14, offset: 89876},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2821, col: 14, offset: 89886},
+																										pos: position{line: 2821, col: 14, offset: 89876},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2821, col: 14, offset: 89886},
+																											pos:        position{line: 2821, col: 14, offset: 89876},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2821, col: 14, offset: 89886},
+																pos: position{line: 2821, col: 14, offset: 89876},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2821, col: 14, offset: 89886},
+																	pos: position{line: 2821, col: 14, offset: 89876},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2821, col: 14, offset: 89886},
+																		pos:        position{line: 2821, col: 14, offset: 89876},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2821, col: 14, offset: 89886},
+																pos: position{line: 2821, col: 14, offset: 89876},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2821, col: 14, offset: 89886},
+																	pos: position{line: 2821, col: 14, offset: 89876},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2821, col: 14, offset: 89886},
+																		pos:        position{line: 2821, col: 14, offset: 89876},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2980, col: 11, offset: 94198},
+														pos: position{line: 2980, col: 11, offset: 94188},
 														expr: &anyMatcher{
-															line: 2980, col: 13, offset: 94200,
+															line: 2980, col: 13, offset: 94190,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91618},
+																			pos: position{line: 2886, col: 14, offset: 91608},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91618},
+																				pos: position{line: 2886, col: 14, offset: 91608},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91618},
+																					pos:        position{line: 2886, col: 14, offset: 91608},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2980, col: 11, offset: 94198},
+																									pos: position{line: 2980, col: 11, offset: 94188},
 																									expr: &anyMatcher{
-																										line: 2980, col: 13, offset: 94200,
+																										line: 2980, col: 13, offset: 94190,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 14, offset: 91618},
+																						pos: position{line: 2886, col: 14, offset: 91608},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2886, col: 14, offset: 91618},
+																							pos: position{line: 2886, col: 14, offset: 91608},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 14, offset: 91618},
+																								pos:        position{line: 2886, col: 14, offset: 91608},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1828, col: 5, offset: 59065},
+																		pos: position{line: 1828, col: 5, offset: 59055},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1828, col: 5, offset: 59065},
+																			pos: position{line: 1828, col: 5, offset: 59055},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1828, col: 5, offset: 59065},
+																					pos:   position{line: 1828, col: 5, offset: 59055},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 14, offset: 91618},
+																						pos: position{line: 2886, col: 14, offset: 91608},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2886, col: 14, offset: 91618},
+																							pos: position{line: 2886, col: 14, offset: 91608},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 14, offset: 91618},
+																								pos:        position{line: 2886, col: 14, offset: 91608},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1829, col: 5, offset: 59089},
+																					pos: position{line: 1829, col: 5, offset: 59079},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2768, col: 18, offset: 88171},
+											pos: position{line: 2768, col: 18, offset: 88161},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2769, col: 9, offset: 88181},
+												pos: position{line: 2769, col: 9, offset: 88171},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88181},
+														pos: position{line: 2769, col: 9, offset: 88171},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88181},
+																pos:        position{line: 2769, col: 9, offset: 88171},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2769, col: 15, offset: 88187},
+																pos: position{line: 2769, col: 15, offset: 88177},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2770, col: 11, offset: 88220},
+														pos: position{line: 2770, col: 11, offset: 88210},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2770, col: 12, offset: 88221},
+																pos: position{line: 2770, col: 12, offset: 88211},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 12, offset: 88221},
+																		pos:        position{line: 2770, col: 12, offset: 88211},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 20, offset: 88229},
+																		pos:        position{line: 2770, col: 20, offset: 88219},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 30, offset: 88239},
+																		pos:        position{line: 2770, col: 30, offset: 88229},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 38, offset: 88247},
+																		pos:        position{line: 2770, col: 38, offset: 88237},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 48, offset: 88257},
+																		pos:        position{line: 2770, col: 48, offset: 88247},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 56, offset: 88265},
+																		pos:        position{line: 2770, col: 56, offset: 88255},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2770, col: 65, offset: 88274},
+																pos: position{line: 2770, col: 65, offset: 88264},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2770, col: 76, offset: 88285},
+																pos: position{line: 2770, col: 76, offset: 88275},
 																expr: &choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2659, col: 5, offset: 85107},
+											pos: position{line: 2659, col: 5, offset: 85097},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2659, col: 5, offset: 85107},
+												pos: position{line: 2659, col: 5, offset: 85097},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2665, col: 19, offset: 85264},
+														pos:        position{line: 2665, col: 19, offset: 85254},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2665, col: 26, offset: 85271},
+														pos: position{line: 2665, col: 26, offset: 85261},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2660, col: 5, offset: 85131},
+														pos:   position{line: 2660, col: 5, offset: 85121},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2660, col: 11, offset: 85137},
+															pos: position{line: 2660, col: 11, offset: 85127},
 															expr: &choiceExpr{
-																pos: position{line: 2660, col: 12, offset: 85138},
+																pos: position{line: 2660, col: 12, offset: 85128},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94198},
+																					pos: position{line: 2980, col: 11, offset: 94188},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94200,
+																						line: 2980, col: 13, offset: 94190,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2672, col: 5, offset: 85383},
+																		pos: position{line: 2672, col: 5, offset: 85373},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2672, col: 5, offset: 85383},
+																			pos: position{line: 2672, col: 5, offset: 85373},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2672, col: 5, offset: 85383},
+																					pos: position{line: 2672, col: 5, offset: 85373},
 																					expr: &choiceExpr{
-																						pos: position{line: 2669, col: 22, offset: 85344},
+																						pos: position{line: 2669, col: 22, offset: 85334},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2665, col: 19, offset: 85264},
+																								pos: position{line: 2665, col: 19, offset: 85254},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2665, col: 19, offset: 85264},
+																										pos:        position{line: 2665, col: 19, offset: 85254},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2665, col: 26, offset: 85271},
+																										pos: position{line: 2665, col: 26, offset: 85261},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94262},
+																										pos: position{line: 2985, col: 8, offset: 94252},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94035},
+																												pos: position{line: 2972, col: 12, offset: 94025},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94036},
+																													pos: position{line: 2972, col: 13, offset: 94026},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94036},
+																															pos:        position{line: 2972, col: 13, offset: 94026},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94043},
+																															pos:        position{line: 2972, col: 20, offset: 94033},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94052},
+																															pos:        position{line: 2972, col: 29, offset: 94042},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94212},
+																												pos: position{line: 2982, col: 8, offset: 94202},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94213,
+																													line: 2982, col: 9, offset: 94203,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2673, col: 5, offset: 85406},
+																					pos:   position{line: 2673, col: 5, offset: 85396},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2674, col: 9, offset: 85424},
+																						pos: position{line: 2674, col: 9, offset: 85414},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2674, col: 10, offset: 85425},
+																								pos: position{line: 2674, col: 10, offset: 85415},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2674, col: 10, offset: 85425},
+																									pos:   position{line: 2674, col: 10, offset: 85415},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2674, col: 17, offset: 85432},
+																										pos: position{line: 2674, col: 17, offset: 85422},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2682, col: 21, offset: 85628},
+																												pos: position{line: 2682, col: 21, offset: 85618},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2682, col: 21, offset: 85628},
+																													pos: position{line: 2682, col: 21, offset: 85618},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2682, col: 21, offset: 85628},
+																															pos:   position{line: 2682, col: 21, offset: 85618},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2682, col: 27, offset: 85634},
+																																pos: position{line: 2682, col: 27, offset: 85624},
 																																expr: &actionExpr{
-																																	pos: position{line: 2687, col: 5, offset: 85709},
+																																	pos: position{line: 2687, col: 5, offset: 85699},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2687, col: 5, offset: 85709},
+																																		pos: position{line: 2687, col: 5, offset: 85699},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2687, col: 5, offset: 85709},
+																																				pos:        position{line: 2687, col: 5, offset: 85699},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2687, col: 9, offset: 85713},
+																																				pos: position{line: 2687, col: 9, offset: 85703},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2963, col: 10, offset: 93864},
+																																					pos: position{line: 2963, col: 10, offset: 93854},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2963, col: 10, offset: 93864},
+																																						pos:        position{line: 2963, col: 10, offset: 93854},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2687, col: 16, offset: 85720},
+																																				pos:   position{line: 2687, col: 16, offset: 85710},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2693, col: 5, offset: 85920},
+																																					pos: position{line: 2693, col: 5, offset: 85910},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2693, col: 5, offset: 85920},
+																																						pos:   position{line: 2693, col: 5, offset: 85910},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2693, col: 14, offset: 85929},
+																																							pos: position{line: 2693, col: 14, offset: 85919},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2693, col: 14, offset: 85929},
+																																								pos: position{line: 2693, col: 14, offset: 85919},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2693, col: 14, offset: 85929},
+																																									pos:        position{line: 2693, col: 14, offset: 85919},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2985, col: 8, offset: 94262},
+																															pos: position{line: 2985, col: 8, offset: 94252},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2972, col: 12, offset: 94035},
+																																	pos: position{line: 2972, col: 12, offset: 94025},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2972, col: 13, offset: 94036},
+																																		pos: position{line: 2972, col: 13, offset: 94026},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 13, offset: 94036},
+																																				pos:        position{line: 2972, col: 13, offset: 94026},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 20, offset: 94043},
+																																				pos:        position{line: 2972, col: 20, offset: 94033},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 29, offset: 94052},
+																																				pos:        position{line: 2972, col: 29, offset: 94042},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2982, col: 8, offset: 94212},
+																																	pos: position{line: 2982, col: 8, offset: 94202},
 																																	expr: &anyMatcher{
-																																		line: 2982, col: 9, offset: 94213,
+																																		line: 2982, col: 9, offset: 94203,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2699, col: 24, offset: 86065},
+																												pos: position{line: 2699, col: 24, offset: 86055},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2699, col: 24, offset: 86065},
+																													pos:   position{line: 2699, col: 24, offset: 86055},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2699, col: 30, offset: 86071},
+																														pos: position{line: 2699, col: 30, offset: 86061},
 																														expr: &actionExpr{
-																															pos: position{line: 2704, col: 5, offset: 86147},
+																															pos: position{line: 2704, col: 5, offset: 86137},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2704, col: 5, offset: 86147},
+																																pos: position{line: 2704, col: 5, offset: 86137},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86147},
+																																		pos: position{line: 2704, col: 5, offset: 86137},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2669, col: 22, offset: 85344},
+																																			pos: position{line: 2669, col: 22, offset: 85334},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2665, col: 19, offset: 85264},
+																																					pos: position{line: 2665, col: 19, offset: 85254},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2665, col: 19, offset: 85264},
+																																							pos:        position{line: 2665, col: 19, offset: 85254},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2665, col: 26, offset: 85271},
+																																							pos: position{line: 2665, col: 26, offset: 85261},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2963, col: 10, offset: 93864},
+																																								pos: position{line: 2963, col: 10, offset: 93854},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2963, col: 10, offset: 93864},
+																																									pos:        position{line: 2963, col: 10, offset: 93854},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2985, col: 8, offset: 94262},
+																																							pos: position{line: 2985, col: 8, offset: 94252},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2972, col: 12, offset: 94035},
+																																									pos: position{line: 2972, col: 12, offset: 94025},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2972, col: 13, offset: 94036},
+																																										pos: position{line: 2972, col: 13, offset: 94026},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 13, offset: 94036},
+																																												pos:        position{line: 2972, col: 13, offset: 94026},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 20, offset: 94043},
+																																												pos:        position{line: 2972, col: 20, offset: 94033},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 29, offset: 94052},
+																																												pos:        position{line: 2972, col: 29, offset: 94042},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94212},
+																																									pos: position{line: 2982, col: 8, offset: 94202},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94213,
+																																										line: 2982, col: 9, offset: 94203,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2982, col: 8, offset: 94212},
+																																					pos: position{line: 2982, col: 8, offset: 94202},
 																																					expr: &anyMatcher{
-																																						line: 2982, col: 9, offset: 94213,
+																																						line: 2982, col: 9, offset: 94203,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2705, col: 5, offset: 86170},
+																																		pos: position{line: 2705, col: 5, offset: 86160},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2980, col: 11, offset: 94198},
+																																						pos: position{line: 2980, col: 11, offset: 94188},
 																																						expr: &anyMatcher{
-																																							line: 2980, col: 13, offset: 94200,
+																																							line: 2980, col: 13, offset: 94190,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2963, col: 10, offset: 93864},
+																																							pos: position{line: 2963, col: 10, offset: 93854},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2963, col: 10, offset: 93864},
+																																								pos:        position{line: 2963, col: 10, offset: 93854},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2985, col: 8, offset: 94262},
+																																						pos: position{line: 2985, col: 8, offset: 94252},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2972, col: 12, offset: 94035},
+																																								pos: position{line: 2972, col: 12, offset: 94025},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2972, col: 13, offset: 94036},
+																																									pos: position{line: 2972, col: 13, offset: 94026},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 13, offset: 94036},
+																																											pos:        position{line: 2972, col: 13, offset: 94026},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 20, offset: 94043},
+																																											pos:        position{line: 2972, col: 20, offset: 94033},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 29, offset: 94052},
+																																											pos:        position{line: 2972, col: 29, offset: 94042},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2982, col: 8, offset: 94212},
+																																								pos: position{line: 2982, col: 8, offset: 94202},
 																																								expr: &anyMatcher{
-																																									line: 2982, col: 9, offset: 94213,
+																																									line: 2982, col: 9, offset: 94203,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2706, col: 5, offset: 86185},
+																																		pos:   position{line: 2706, col: 5, offset: 86175},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2706, col: 12, offset: 86192},
+																																			pos: position{line: 2706, col: 12, offset: 86182},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2723, col: 20, offset: 86656},
+																																				pos: position{line: 2723, col: 20, offset: 86646},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2723, col: 20, offset: 86656},
+																																					pos: position{line: 2723, col: 20, offset: 86646},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2723, col: 20, offset: 86656},
+																																						pos:        position{line: 2723, col: 20, offset: 86646},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2706, col: 31, offset: 86211},
+																																		pos:        position{line: 2706, col: 31, offset: 86201},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2706, col: 35, offset: 86215},
+																																		pos: position{line: 2706, col: 35, offset: 86205},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2963, col: 10, offset: 93864},
+																																			pos: position{line: 2963, col: 10, offset: 93854},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2963, col: 10, offset: 93864},
+																																				pos:        position{line: 2963, col: 10, offset: 93854},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2706, col: 42, offset: 86222},
+																																		pos: position{line: 2706, col: 42, offset: 86212},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2972, col: 12, offset: 94035},
+																																			pos: position{line: 2972, col: 12, offset: 94025},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2972, col: 13, offset: 94036},
+																																				pos: position{line: 2972, col: 13, offset: 94026},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 13, offset: 94036},
+																																						pos:        position{line: 2972, col: 13, offset: 94026},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 20, offset: 94043},
+																																						pos:        position{line: 2972, col: 20, offset: 94033},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 29, offset: 94052},
+																																						pos:        position{line: 2972, col: 29, offset: 94042},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2706, col: 51, offset: 86231},
+																																		pos:   position{line: 2706, col: 51, offset: 86221},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2712, col: 5, offset: 86390},
+																																			pos: position{line: 2712, col: 5, offset: 86380},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2713, col: 9, offset: 86400},
+																																				pos: position{line: 2713, col: 9, offset: 86390},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2713, col: 9, offset: 86400},
+																																					pos: position{line: 2713, col: 9, offset: 86390},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2713, col: 9, offset: 86400},
+																																							pos: position{line: 2713, col: 9, offset: 86390},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2669, col: 22, offset: 85344},
+																																								pos: position{line: 2669, col: 22, offset: 85334},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2665, col: 19, offset: 85264},
+																																										pos: position{line: 2665, col: 19, offset: 85254},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2665, col: 19, offset: 85264},
+																																												pos:        position{line: 2665, col: 19, offset: 85254},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2665, col: 26, offset: 85271},
+																																												pos: position{line: 2665, col: 26, offset: 85261},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2963, col: 10, offset: 93864},
+																																													pos: position{line: 2963, col: 10, offset: 93854},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2963, col: 10, offset: 93864},
+																																														pos:        position{line: 2963, col: 10, offset: 93854},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2985, col: 8, offset: 94262},
+																																												pos: position{line: 2985, col: 8, offset: 94252},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2972, col: 12, offset: 94035},
+																																														pos: position{line: 2972, col: 12, offset: 94025},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2972, col: 13, offset: 94036},
+																																															pos: position{line: 2972, col: 13, offset: 94026},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2982, col: 8, offset: 94212},
+																																														pos: position{line: 2982, col: 8, offset: 94202},
 																																														expr: &anyMatcher{
-																																															line: 2982, col: 9, offset: 94213,
+																																															line: 2982, col: 9, offset: 94203,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2982, col: 8, offset: 94212},
+																																										pos: position{line: 2982, col: 8, offset: 94202},
 																																										expr: &anyMatcher{
-																																											line: 2982, col: 9, offset: 94213,
+																																											line: 2982, col: 9, offset: 94203,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2714, col: 9, offset: 86427},
+																																							pos: position{line: 2714, col: 9, offset: 86417},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2980, col: 11, offset: 94198},
+																																											pos: position{line: 2980, col: 11, offset: 94188},
 																																											expr: &anyMatcher{
-																																												line: 2980, col: 13, offset: 94200,
+																																												line: 2980, col: 13, offset: 94190,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2963, col: 10, offset: 93864},
+																																												pos: position{line: 2963, col: 10, offset: 93854},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2963, col: 10, offset: 93864},
+																																													pos:        position{line: 2963, col: 10, offset: 93854},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2985, col: 8, offset: 94262},
+																																											pos: position{line: 2985, col: 8, offset: 94252},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2972, col: 12, offset: 94035},
+																																													pos: position{line: 2972, col: 12, offset: 94025},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2972, col: 13, offset: 94036},
+																																														pos: position{line: 2972, col: 13, offset: 94026},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2982, col: 8, offset: 94212},
+																																													pos: position{line: 2982, col: 8, offset: 94202},
 																																													expr: &anyMatcher{
-																																														line: 2982, col: 9, offset: 94213,
+																																														line: 2982, col: 9, offset: 94203,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2715, col: 9, offset: 86446},
+																																							pos: position{line: 2715, col: 9, offset: 86436},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2715, col: 11, offset: 86448},
+																																								pos: position{line: 2715, col: 11, offset: 86438},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2715, col: 11, offset: 86448},
+																																										pos:   position{line: 2715, col: 11, offset: 86438},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86455},
+																																											pos: position{line: 2715, col: 18, offset: 86445},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2723, col: 20, offset: 86656},
+																																												pos: position{line: 2723, col: 20, offset: 86646},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2723, col: 20, offset: 86656},
+																																													pos: position{line: 2723, col: 20, offset: 86646},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2723, col: 20, offset: 86656},
+																																														pos:        position{line: 2723, col: 20, offset: 86646},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2715, col: 37, offset: 86474},
+																																										pos:        position{line: 2715, col: 37, offset: 86464},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2716, col: 9, offset: 86487},
+																																							pos:   position{line: 2716, col: 9, offset: 86477},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2716, col: 18, offset: 86496},
+																																								pos: position{line: 2716, col: 18, offset: 86486},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2716, col: 18, offset: 86496},
+																																									pos: position{line: 2716, col: 18, offset: 86486},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2716, col: 18, offset: 86496},
+																																										pos:        position{line: 2716, col: 18, offset: 86486},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2718, col: 12, offset: 86558},
+																																							pos: position{line: 2718, col: 12, offset: 86548},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2985, col: 8, offset: 94262},
+																																								pos: position{line: 2985, col: 8, offset: 94252},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2972, col: 12, offset: 94035},
+																																										pos: position{line: 2972, col: 12, offset: 94025},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2972, col: 13, offset: 94036},
+																																											pos: position{line: 2972, col: 13, offset: 94026},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 13, offset: 94036},
+																																													pos:        position{line: 2972, col: 13, offset: 94026},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 20, offset: 94043},
+																																													pos:        position{line: 2972, col: 20, offset: 94033},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 29, offset: 94052},
+																																													pos:        position{line: 2972, col: 29, offset: 94042},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2982, col: 8, offset: 94212},
+																																										pos: position{line: 2982, col: 8, offset: 94202},
 																																										expr: &anyMatcher{
-																																											line: 2982, col: 9, offset: 94213,
+																																											line: 2982, col: 9, offset: 94203,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2980, col: 11, offset: 94198},
+																											pos: position{line: 2980, col: 11, offset: 94188},
 																											expr: &anyMatcher{
-																												line: 2980, col: 13, offset: 94200,
+																												line: 2980, col: 13, offset: 94190,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2669, col: 22, offset: 85344},
+														pos: position{line: 2669, col: 22, offset: 85334},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2665, col: 19, offset: 85264},
+																pos: position{line: 2665, col: 19, offset: 85254},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2665, col: 19, offset: 85264},
+																		pos:        position{line: 2665, col: 19, offset: 85254},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2665, col: 26, offset: 85271},
+																		pos: position{line: 2665, col: 26, offset: 85261},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2530, col: 22, offset: 81507},
+												pos: position{line: 2530, col: 22, offset: 81497},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2535, col: 31, offset: 81728},
+														pos:        position{line: 2535, col: 31, offset: 81718},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2535, col: 36, offset: 81733},
+														pos: position{line: 2535, col: 36, offset: 81723},
 														expr: &litMatcher{
-															pos:        position{line: 2535, col: 37, offset: 81734},
+															pos:        position{line: 2535, col: 37, offset: 81724},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 49, offset: 81534},
+														pos:   position{line: 2530, col: 49, offset: 81524},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2882, col: 13, offset: 91551},
+																pos: position{line: 2882, col: 13, offset: 91541},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91551},
+																	pos:        position{line: 2882, col: 13, offset: 91541},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94262},
+																										pos: position{line: 2985, col: 8, offset: 94252},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94035},
+																												pos: position{line: 2972, col: 12, offset: 94025},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94036},
+																													pos: position{line: 2972, col: 13, offset: 94026},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94036},
+																															pos:        position{line: 2972, col: 13, offset: 94026},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94043},
+																															pos:        position{line: 2972, col: 20, offset: 94033},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94052},
+																															pos:        position{line: 2972, col: 29, offset: 94042},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94212},
+																												pos: position{line: 2982, col: 8, offset: 94202},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94213,
+																													line: 2982, col: 9, offset: 94203,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2967, col: 11, offset: 93925},
+												pos: position{line: 2967, col: 11, offset: 93915},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2967, col: 11, offset: 93925},
+													pos: position{line: 2967, col: 11, offset: 93915},
 													expr: &charClassMatcher{
-														pos:        position{line: 2967, col: 11, offset: 93925},
+														pos:        position{line: 2967, col: 11, offset: 93915},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94035},
+												pos: position{line: 2972, col: 12, offset: 94025},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94036},
+													pos: position{line: 2972, col: 13, offset: 94026},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94036},
+															pos:        position{line: 2972, col: 13, offset: 94026},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94043},
+															pos:        position{line: 2972, col: 20, offset: 94033},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94052},
+															pos:        position{line: 2972, col: 29, offset: 94042},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93864},
+													pos: position{line: 2963, col: 10, offset: 93854},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93864},
+														pos:        position{line: 2963, col: 10, offset: 93854},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93864},
+											pos: position{line: 2963, col: 10, offset: 93854},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93864},
+												pos:        position{line: 2963, col: 10, offset: 93854},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2985, col: 8, offset: 94262},
+										pos: position{line: 2985, col: 8, offset: 94252},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94035},
+												pos: position{line: 2972, col: 12, offset: 94025},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94036},
+													pos: position{line: 2972, col: 13, offset: 94026},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94036},
+															pos:        position{line: 2972, col: 13, offset: 94026},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94043},
+															pos:        position{line: 2972, col: 20, offset: 94033},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94052},
+															pos:        position{line: 2972, col: 29, offset: 94042},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2982, col: 8, offset: 94212},
+												pos: position{line: 2982, col: 8, offset: 94202},
 												expr: &anyMatcher{
-													line: 2982, col: 9, offset: 94213,
+													line: 2982, col: 9, offset: 94203,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81053},
+										pos: position{line: 2517, col: 5, offset: 81043},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81053},
+													pos: position{line: 2517, col: 5, offset: 81043},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81129},
+													pos:   position{line: 2520, col: 5, offset: 81119},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81147},
+														pos: position{line: 2521, col: 9, offset: 81137},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81148},
+															pos:        position{line: 2521, col: 10, offset: 81138},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93864},
+										pos: position{line: 2963, col: 10, offset: 93854},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93864},
+											pos:        position{line: 2963, col: 10, offset: 93854},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93864},
+													pos: position{line: 2963, col: 10, offset: 93854},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93864},
+														pos:        position{line: 2963, col: 10, offset: 93854},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94262},
+												pos: position{line: 2985, col: 8, offset: 94252},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94035},
+														pos: position{line: 2972, col: 12, offset: 94025},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94036},
+															pos: position{line: 2972, col: 13, offset: 94026},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94036},
+																	pos:        position{line: 2972, col: 13, offset: 94026},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94043},
+																	pos:        position{line: 2972, col: 20, offset: 94033},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94052},
+																	pos:        position{line: 2972, col: 29, offset: 94042},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94212},
+														pos: position{line: 2982, col: 8, offset: 94202},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94213,
+															line: 2982, col: 9, offset: 94203,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94198},
+																pos: position{line: 2980, col: 11, offset: 94188},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94200,
+																	line: 2980, col: 13, offset: 94190,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2821, col: 14, offset: 89886},
+																				pos: position{line: 2821, col: 14, offset: 89876},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2821, col: 14, offset: 89886},
+																					pos: position{line: 2821, col: 14, offset: 89876},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2821, col: 14, offset: 89886},
+																						pos:        position{line: 2821, col: 14, offset: 89876},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2853, col: 5, offset: 90679},
+																				pos: position{line: 2853, col: 5, offset: 90669},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2854, col: 9, offset: 90689},
+																					pos: position{line: 2854, col: 9, offset: 90679},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90690},
+																							pos:        position{line: 2854, col: 10, offset: 90680},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2856, col: 13, offset: 90787},
+																							pos: position{line: 2856, col: 13, offset: 90777},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2856, col: 13, offset: 90787},
+																									pos: position{line: 2856, col: 13, offset: 90777},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2859, col: 13, offset: 90887},
+																									pos:        position{line: 2859, col: 13, offset: 90877},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2859, col: 19, offset: 90893},
+																							pos:        position{line: 2859, col: 19, offset: 90883},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2862, col: 13, offset: 90931},
+																							pos: position{line: 2862, col: 13, offset: 90921},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2862, col: 13, offset: 90931},
+																									pos: position{line: 2862, col: 13, offset: 90921},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2865, col: 14, offset: 91024},
+																									pos:        position{line: 2865, col: 14, offset: 91014},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2867, col: 12, offset: 91068},
+																							pos: position{line: 2867, col: 12, offset: 91058},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2867, col: 12, offset: 91068},
+																									pos:        position{line: 2867, col: 12, offset: 91058},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2867, col: 16, offset: 91072},
+																									pos: position{line: 2867, col: 16, offset: 91062},
 																									expr: &litMatcher{
-																										pos:        position{line: 2867, col: 17, offset: 91073},
+																										pos:        position{line: 2867, col: 17, offset: 91063},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 91333},
+																				pos: position{line: 2875, col: 12, offset: 91323},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 12, offset: 91333},
+																					pos:        position{line: 2875, col: 12, offset: 91323},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93864},
+													pos: position{line: 2963, col: 10, offset: 93854},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93864},
+														pos:        position{line: 2963, col: 10, offset: 93854},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94262},
+												pos: position{line: 2985, col: 8, offset: 94252},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94035},
+														pos: position{line: 2972, col: 12, offset: 94025},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94036},
+															pos: position{line: 2972, col: 13, offset: 94026},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94036},
+																	pos:        position{line: 2972, col: 13, offset: 94026},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94043},
+																	pos:        position{line: 2972, col: 20, offset: 94033},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94052},
+																	pos:        position{line: 2972, col: 29, offset: 94042},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94212},
+														pos: position{line: 2982, col: 8, offset: 94202},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94213,
+															line: 2982, col: 9, offset: 94203,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94198},
+																pos: position{line: 2980, col: 11, offset: 94188},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94200,
+																	line: 2980, col: 13, offset: 94190,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93864},
+													pos: position{line: 2963, col: 10, offset: 93854},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93864},
+														pos:        position{line: 2963, col: 10, offset: 93854},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94262},
+												pos: position{line: 2985, col: 8, offset: 94252},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94035},
+														pos: position{line: 2972, col: 12, offset: 94025},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94036},
+															pos: position{line: 2972, col: 13, offset: 94026},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94036},
+																	pos:        position{line: 2972, col: 13, offset: 94026},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94043},
+																	pos:        position{line: 2972, col: 20, offset: 94033},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94052},
+																	pos:        position{line: 2972, col: 29, offset: 94042},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94212},
+														pos: position{line: 2982, col: 8, offset: 94202},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94213,
+															line: 2982, col: 9, offset: 94203,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94198},
+																pos: position{line: 2980, col: 11, offset: 94188},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94200,
+																	line: 2980, col: 13, offset: 94190,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93864},
+											pos: position{line: 2963, col: 10, offset: 93854},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93864},
+												pos:        position{line: 2963, col: 10, offset: 93854},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93864},
+													pos: position{line: 2963, col: 10, offset: 93854},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93864},
+														pos:        position{line: 2963, col: 10, offset: 93854},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93864},
+												pos: position{line: 2963, col: 10, offset: 93854},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93864},
+													pos:        position{line: 2963, col: 10, offset: 93854},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93864},
+											pos: position{line: 2963, col: 10, offset: 93854},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93864},
+												pos:        position{line: 2963, col: 10, offset: 93854},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93864},
+												pos: position{line: 2963, col: 10, offset: 93854},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93864},
+													pos:        position{line: 2963, col: 10, offset: 93854},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89886},
+									pos: position{line: 2821, col: 14, offset: 89876},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89886},
+										pos: position{line: 2821, col: 14, offset: 89876},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89886},
+											pos:        position{line: 2821, col: 14, offset: 89876},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93864},
+									pos: position{line: 2963, col: 10, offset: 93854},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93864},
+										pos:        position{line: 2963, col: 10, offset: 93854},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93864},
+												pos: position{line: 2963, col: 10, offset: 93854},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93864},
+													pos:        position{line: 2963, col: 10, offset: 93854},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89886},
+									pos: position{line: 2821, col: 14, offset: 89876},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89886},
+										pos: position{line: 2821, col: 14, offset: 89876},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89886},
+											pos:        position{line: 2821, col: 14, offset: 89876},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93864},
+									pos: position{line: 2963, col: 10, offset: 93854},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93864},
+										pos:        position{line: 2963, col: 10, offset: 93854},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93864},
+											pos: position{line: 2963, col: 10, offset: 93854},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93864},
+												pos:        position{line: 2963, col: 10, offset: 93854},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2948, col: 7, offset: 93516},
+										pos: position{line: 2948, col: 7, offset: 93506},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 7, offset: 93516},
+											pos: position{line: 2948, col: 7, offset: 93506},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 7, offset: 93516},
+												pos:        position{line: 2948, col: 7, offset: 93506},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93864},
+										pos: position{line: 2963, col: 10, offset: 93854},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93864},
+											pos:        position{line: 2963, col: 10, offset: 93854},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2948, col: 7, offset: 93516},
+										pos: position{line: 2948, col: 7, offset: 93506},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 7, offset: 93516},
+											pos: position{line: 2948, col: 7, offset: 93506},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 7, offset: 93516},
+												pos:        position{line: 2948, col: 7, offset: 93506},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 17, offset: 91688},
+								pos: position{line: 2890, col: 17, offset: 91678},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2890, col: 17, offset: 91688},
+									pos:   position{line: 2890, col: 17, offset: 91678},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2911, col: 5, offset: 92273},
+										pos: position{line: 2911, col: 5, offset: 92263},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2911, col: 5, offset: 92273},
+											pos:   position{line: 2911, col: 5, offset: 92263},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2911, col: 14, offset: 92282},
+												pos: position{line: 2911, col: 14, offset: 92272},
 												expr: &choiceExpr{
-													pos: position{line: 2912, col: 9, offset: 92292},
+													pos: position{line: 2912, col: 9, offset: 92282},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 9, offset: 92292},
+															pos: position{line: 2912, col: 9, offset: 92282},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2912, col: 9, offset: 92292},
+																pos: position{line: 2912, col: 9, offset: 92282},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2912, col: 9, offset: 92292},
+																		pos: position{line: 2912, col: 9, offset: 92282},
 																		expr: &litMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 92293},
+																			pos:        position{line: 2912, col: 10, offset: 92283},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2913, col: 9, offset: 92321},
+																		pos: position{line: 2913, col: 9, offset: 92311},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 10, offset: 92322},
+																			pos:        position{line: 2913, col: 10, offset: 92312},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2916, col: 11, offset: 92534},
+															pos: position{line: 2916, col: 11, offset: 92524},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2916, col: 11, offset: 92534},
+																	pos:        position{line: 2916, col: 11, offset: 92524},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2916, col: 19, offset: 92542},
+																	pos: position{line: 2916, col: 19, offset: 92532},
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 21, offset: 92544},
+																		pos: position{line: 2916, col: 21, offset: 92534},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 21, offset: 92544},
+																				pos: position{line: 2916, col: 21, offset: 92534},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2916, col: 28, offset: 92551},
+																				pos: position{line: 2916, col: 28, offset: 92541},
 																				expr: &notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2919, col: 11, offset: 92671},
+															pos: position{line: 2919, col: 11, offset: 92661},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2919, col: 11, offset: 92671},
+																pos:        position{line: 2919, col: 11, offset: 92661},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 14, offset: 91618},
+								pos: position{line: 2886, col: 14, offset: 91608},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2886, col: 14, offset: 91618},
+									pos: position{line: 2886, col: 14, offset: 91608},
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 14, offset: 91618},
+										pos:        position{line: 2886, col: 14, offset: 91608},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81507},
+										pos: position{line: 2530, col: 22, offset: 81497},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81728},
+													pos:        position{line: 2535, col: 31, offset: 81718},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81733},
+													pos: position{line: 2535, col: 36, offset: 81723},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81734},
+														pos:        position{line: 2535, col: 37, offset: 81724},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81534},
+													pos:   position{line: 2530, col: 49, offset: 81524},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91551},
+														pos: position{line: 2882, col: 13, offset: 91541},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91551},
+																pos:        position{line: 2882, col: 13, offset: 91541},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81507},
+										pos: position{line: 2530, col: 22, offset: 81497},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81728},
+													pos:        position{line: 2535, col: 31, offset: 81718},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81733},
+													pos: position{line: 2535, col: 36, offset: 81723},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81734},
+														pos:        position{line: 2535, col: 37, offset: 81724},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81534},
+													pos:   position{line: 2530, col: 49, offset: 81524},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91551},
+														pos: position{line: 2882, col: 13, offset: 91541},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91551},
+																pos:        position{line: 2882, col: 13, offset: 91541},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2980, col: 11, offset: 94198},
+																										pos: position{line: 2980, col: 11, offset: 94188},
 																										expr: &anyMatcher{
-																											line: 2980, col: 13, offset: 94200,
+																											line: 2980, col: 13, offset: 94190,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81507},
+															pos: position{line: 2530, col: 22, offset: 81497},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81507},
+																pos: position{line: 2530, col: 22, offset: 81497},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81728},
+																		pos:        position{line: 2535, col: 31, offset: 81718},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81733},
+																		pos: position{line: 2535, col: 36, offset: 81723},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81734},
+																			pos:        position{line: 2535, col: 37, offset: 81724},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81534},
+																		pos:   position{line: 2530, col: 49, offset: 81524},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91551},
+																			pos: position{line: 2882, col: 13, offset: 91541},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91551},
+																				pos: position{line: 2882, col: 13, offset: 91541},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91551},
+																					pos:        position{line: 2882, col: 13, offset: 91541},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2963, col: 10, offset: 93864},
+																																	pos: position{line: 2963, col: 10, offset: 93854},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2963, col: 10, offset: 93864},
+																																		pos:        position{line: 2963, col: 10, offset: 93854},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2985, col: 8, offset: 94262},
+																																pos: position{line: 2985, col: 8, offset: 94252},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2972, col: 12, offset: 94035},
+																																		pos: position{line: 2972, col: 12, offset: 94025},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2972, col: 13, offset: 94036},
+																																			pos: position{line: 2972, col: 13, offset: 94026},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 13, offset: 94036},
+																																					pos:        position{line: 2972, col: 13, offset: 94026},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 20, offset: 94043},
+																																					pos:        position{line: 2972, col: 20, offset: 94033},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 29, offset: 94052},
+																																					pos:        position{line: 2972, col: 29, offset: 94042},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2982, col: 8, offset: 94212},
+																																		pos: position{line: 2982, col: 8, offset: 94202},
 																																		expr: &anyMatcher{
-																																			line: 2982, col: 9, offset: 94213,
+																																			line: 2982, col: 9, offset: 94203,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2980, col: 11, offset: 94198},
+																											pos: position{line: 2980, col: 11, offset: 94188},
 																											expr: &anyMatcher{
-																												line: 2980, col: 13, offset: 94200,
+																												line: 2980, col: 13, offset: 94190,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2882, col: 13, offset: 91551},
+																												pos: position{line: 2882, col: 13, offset: 91541},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2882, col: 13, offset: 91551},
+																													pos: position{line: 2882, col: 13, offset: 91541},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91551},
+																														pos:        position{line: 2882, col: 13, offset: 91541},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93864},
+															pos: position{line: 2963, col: 10, offset: 93854},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93864},
+																pos:        position{line: 2963, col: 10, offset: 93854},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2530, col: 22, offset: 81507},
+												pos: position{line: 2530, col: 22, offset: 81497},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2535, col: 31, offset: 81728},
+														pos:        position{line: 2535, col: 31, offset: 81718},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2535, col: 36, offset: 81733},
+														pos: position{line: 2535, col: 36, offset: 81723},
 														expr: &litMatcher{
-															pos:        position{line: 2535, col: 37, offset: 81734},
+															pos:        position{line: 2535, col: 37, offset: 81724},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 49, offset: 81534},
+														pos:   position{line: 2530, col: 49, offset: 81524},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2882, col: 13, offset: 91551},
+																pos: position{line: 2882, col: 13, offset: 91541},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91551},
+																	pos:        position{line: 2882, col: 13, offset: 91541},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93864},
+																													pos: position{line: 2963, col: 10, offset: 93854},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93864},
+																														pos:        position{line: 2963, col: 10, offset: 93854},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94262},
+																												pos: position{line: 2985, col: 8, offset: 94252},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94035},
+																														pos: position{line: 2972, col: 12, offset: 94025},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94036},
+																															pos: position{line: 2972, col: 13, offset: 94026},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94036},
+																																	pos:        position{line: 2972, col: 13, offset: 94026},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94043},
+																																	pos:        position{line: 2972, col: 20, offset: 94033},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94052},
+																																	pos:        position{line: 2972, col: 29, offset: 94042},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94212},
+																														pos: position{line: 2982, col: 8, offset: 94202},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94213,
+																															line: 2982, col: 9, offset: 94203,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91551},
+																									pos: position{line: 2882, col: 13, offset: 91541},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91551},
+																										pos:        position{line: 2882, col: 13, offset: 91541},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2967, col: 11, offset: 93925},
+							pos: position{line: 2967, col: 11, offset: 93915},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2967, col: 11, offset: 93925},
+								pos: position{line: 2967, col: 11, offset: 93915},
 								expr: &charClassMatcher{
-									pos:        position{line: 2967, col: 11, offset: 93925},
+									pos:        position{line: 2967, col: 11, offset: 93915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2948, col: 7, offset: 93516},
+								pos: position{line: 2948, col: 7, offset: 93506},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2948, col: 7, offset: 93516},
+									pos: position{line: 2948, col: 7, offset: 93506},
 									expr: &charClassMatcher{
-										pos:        position{line: 2948, col: 7, offset: 93516},
+										pos:        position{line: 2948, col: 7, offset: 93506},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89886},
+									pos: position{line: 2821, col: 14, offset: 89876},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89886},
+										pos: position{line: 2821, col: 14, offset: 89876},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89886},
+											pos:        position{line: 2821, col: 14, offset: 89876},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93864},
+									pos: position{line: 2963, col: 10, offset: 93854},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93864},
+										pos:        position{line: 2963, col: 10, offset: 93854},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2517, col: 5, offset: 81053},
+									pos: position{line: 2517, col: 5, offset: 81043},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2517, col: 5, offset: 81053},
+										pos: position{line: 2517, col: 5, offset: 81043},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2517, col: 5, offset: 81053},
+												pos: position{line: 2517, col: 5, offset: 81043},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2520, col: 5, offset: 81129},
+												pos:   position{line: 2520, col: 5, offset: 81119},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2521, col: 9, offset: 81147},
+													pos: position{line: 2521, col: 9, offset: 81137},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 10, offset: 81148},
+														pos:        position{line: 2521, col: 10, offset: 81138},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 13, offset: 91784},
+								pos: position{line: 2894, col: 13, offset: 91774},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 13, offset: 91784},
+									pos: position{line: 2894, col: 13, offset: 91774},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2894, col: 13, offset: 91784},
+											pos:   position{line: 2894, col: 13, offset: 91774},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2894, col: 20, offset: 91791},
+												pos: position{line: 2894, col: 20, offset: 91781},
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 11, offset: 92161},
+													pos: position{line: 2906, col: 11, offset: 92151},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2906, col: 12, offset: 92162},
+														pos: position{line: 2906, col: 12, offset: 92152},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2906, col: 12, offset: 92162},
+																pos:        position{line: 2906, col: 12, offset: 92152},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 24, offset: 92174},
+																pos:        position{line: 2906, col: 24, offset: 92164},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 37, offset: 92187},
+																pos:        position{line: 2906, col: 37, offset: 92177},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 48, offset: 92198},
+																pos:        position{line: 2906, col: 48, offset: 92188},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 59, offset: 92209},
+																pos:        position{line: 2906, col: 59, offset: 92199},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 30, offset: 91801},
+											pos:   position{line: 2894, col: 30, offset: 91791},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2911, col: 5, offset: 92273},
+												pos: position{line: 2911, col: 5, offset: 92263},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2911, col: 5, offset: 92273},
+													pos:   position{line: 2911, col: 5, offset: 92263},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2911, col: 14, offset: 92282},
+														pos: position{line: 2911, col: 14, offset: 92272},
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 9, offset: 92292},
+															pos: position{line: 2912, col: 9, offset: 92282},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 9, offset: 92292},
+																		pos: position{line: 2912, col: 9, offset: 92282},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				expr: &litMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 92293},
+																					pos:        position{line: 2912, col: 10, offset: 92283},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2913, col: 9, offset: 92321},
+																				pos: position{line: 2913, col: 9, offset: 92311},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 10, offset: 92322},
+																					pos:        position{line: 2913, col: 10, offset: 92312},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2916, col: 11, offset: 92534},
+																	pos: position{line: 2916, col: 11, offset: 92524},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 92534},
+																			pos:        position{line: 2916, col: 11, offset: 92524},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2916, col: 19, offset: 92542},
+																			pos: position{line: 2916, col: 19, offset: 92532},
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 21, offset: 92544},
+																				pos: position{line: 2916, col: 21, offset: 92534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2916, col: 28, offset: 92551},
+																						pos: position{line: 2916, col: 28, offset: 92541},
 																						expr: &notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2919, col: 11, offset: 92671},
+																	pos: position{line: 2919, col: 11, offset: 92661},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2919, col: 11, offset: 92671},
+																		pos:        position{line: 2919, col: 11, offset: 92661},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 13, offset: 91784},
+								pos: position{line: 2894, col: 13, offset: 91774},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 13, offset: 91784},
+									pos: position{line: 2894, col: 13, offset: 91774},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2894, col: 13, offset: 91784},
+											pos:   position{line: 2894, col: 13, offset: 91774},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2894, col: 20, offset: 91791},
+												pos: position{line: 2894, col: 20, offset: 91781},
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 11, offset: 92161},
+													pos: position{line: 2906, col: 11, offset: 92151},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2906, col: 12, offset: 92162},
+														pos: position{line: 2906, col: 12, offset: 92152},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2906, col: 12, offset: 92162},
+																pos:        position{line: 2906, col: 12, offset: 92152},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 24, offset: 92174},
+																pos:        position{line: 2906, col: 24, offset: 92164},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 37, offset: 92187},
+																pos:        position{line: 2906, col: 37, offset: 92177},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 48, offset: 92198},
+																pos:        position{line: 2906, col: 48, offset: 92188},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 59, offset: 92209},
+																pos:        position{line: 2906, col: 59, offset: 92199},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 30, offset: 91801},
+											pos:   position{line: 2894, col: 30, offset: 91791},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2911, col: 5, offset: 92273},
+												pos: position{line: 2911, col: 5, offset: 92263},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2911, col: 5, offset: 92273},
+													pos:   position{line: 2911, col: 5, offset: 92263},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2911, col: 14, offset: 92282},
+														pos: position{line: 2911, col: 14, offset: 92272},
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 9, offset: 92292},
+															pos: position{line: 2912, col: 9, offset: 92282},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 9, offset: 92292},
+																		pos: position{line: 2912, col: 9, offset: 92282},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				expr: &litMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 92293},
+																					pos:        position{line: 2912, col: 10, offset: 92283},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2913, col: 9, offset: 92321},
+																				pos: position{line: 2913, col: 9, offset: 92311},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 10, offset: 92322},
+																					pos:        position{line: 2913, col: 10, offset: 92312},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2916, col: 11, offset: 92534},
+																	pos: position{line: 2916, col: 11, offset: 92524},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 92534},
+																			pos:        position{line: 2916, col: 11, offset: 92524},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2916, col: 19, offset: 92542},
+																			pos: position{line: 2916, col: 19, offset: 92532},
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 21, offset: 92544},
+																				pos: position{line: 2916, col: 21, offset: 92534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2916, col: 28, offset: 92551},
+																						pos: position{line: 2916, col: 28, offset: 92541},
 																						expr: &notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2919, col: 11, offset: 92671},
+																	pos: position{line: 2919, col: 11, offset: 92661},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2919, col: 11, offset: 92671},
+																		pos:        position{line: 2919, col: 11, offset: 92661},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89959},
+										pos: position{line: 2826, col: 5, offset: 89949},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89959},
+											pos: position{line: 2826, col: 5, offset: 89949},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89959},
+													pos: position{line: 2826, col: 5, offset: 89949},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89970},
+														pos: position{line: 2827, col: 9, offset: 89960},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89970},
+																pos: position{line: 2827, col: 9, offset: 89960},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90033},
+																pos:   position{line: 2830, col: 9, offset: 90023},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89345},
+																	pos: position{line: 2802, col: 18, offset: 89335},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89346},
+																		pos: position{line: 2802, col: 19, offset: 89336},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89346},
+																			pos:        position{line: 2802, col: 19, offset: 89336},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90054},
+																pos:        position{line: 2830, col: 30, offset: 90044},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90141},
+																pos: position{line: 2831, col: 9, offset: 90131},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90253},
+													pos:   position{line: 2835, col: 5, offset: 90243},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90259},
+														pos: position{line: 2835, col: 11, offset: 90249},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90259},
+															pos: position{line: 2835, col: 11, offset: 90249},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90259},
+																pos:        position{line: 2835, col: 11, offset: 90249},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90317},
+													pos: position{line: 2838, col: 5, offset: 90307},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90328},
+														pos: position{line: 2839, col: 9, offset: 90318},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90328},
+																pos:        position{line: 2839, col: 9, offset: 90318},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90377},
+																pos: position{line: 2840, col: 9, offset: 90367},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90457},
+													pos: position{line: 2844, col: 5, offset: 90447},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90468},
+														pos: position{line: 2845, col: 9, offset: 90458},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90468},
+																pos: position{line: 2845, col: 9, offset: 90458},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90468},
+																	pos:        position{line: 2845, col: 9, offset: 90458},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90482},
+																pos:        position{line: 2845, col: 23, offset: 90472},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90486},
+																pos:        position{line: 2845, col: 27, offset: 90476},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 11, offset: 93925},
+										pos: position{line: 2967, col: 11, offset: 93915},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2967, col: 11, offset: 93925},
+											pos: position{line: 2967, col: 11, offset: 93915},
 											expr: &charClassMatcher{
-												pos:        position{line: 2967, col: 11, offset: 93925},
+												pos:        position{line: 2967, col: 11, offset: 93915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82224},
+										pos: position{line: 2548, col: 5, offset: 82214},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82224},
+											pos: position{line: 2548, col: 5, offset: 82214},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82224},
+													pos: position{line: 2548, col: 5, offset: 82214},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82295},
+													pos:        position{line: 2551, col: 5, offset: 82285},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82300},
+													pos: position{line: 2551, col: 10, offset: 82290},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82301},
+														pos:        position{line: 2551, col: 11, offset: 82291},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82487},
+										pos: position{line: 2557, col: 5, offset: 82477},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82487},
+											pos: position{line: 2557, col: 5, offset: 82477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82487},
+													pos: position{line: 2557, col: 5, offset: 82477},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82558},
+													pos: position{line: 2560, col: 5, offset: 82548},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82683},
+													pos:        position{line: 2564, col: 5, offset: 82673},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82687},
+													pos: position{line: 2564, col: 9, offset: 82677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82688},
+														pos:        position{line: 2564, col: 10, offset: 82678},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90679},
+										pos: position{line: 2853, col: 5, offset: 90669},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90689},
+											pos: position{line: 2854, col: 9, offset: 90679},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90690},
+													pos:        position{line: 2854, col: 10, offset: 90680},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90787},
+													pos: position{line: 2856, col: 13, offset: 90777},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90787},
+															pos: position{line: 2856, col: 13, offset: 90777},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90887},
+															pos:        position{line: 2859, col: 13, offset: 90877},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90893},
+													pos:        position{line: 2859, col: 19, offset: 90883},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90931},
+													pos: position{line: 2862, col: 13, offset: 90921},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90931},
+															pos: position{line: 2862, col: 13, offset: 90921},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91024},
+															pos:        position{line: 2865, col: 14, offset: 91014},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91068},
+													pos: position{line: 2867, col: 12, offset: 91058},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91068},
+															pos:        position{line: 2867, col: 12, offset: 91058},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91072},
+															pos: position{line: 2867, col: 16, offset: 91062},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91073},
+																pos:        position{line: 2867, col: 17, offset: 91063},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81053},
+										pos: position{line: 2517, col: 5, offset: 81043},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81053},
+													pos: position{line: 2517, col: 5, offset: 81043},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81129},
+													pos:   position{line: 2520, col: 5, offset: 81119},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81147},
+														pos: position{line: 2521, col: 9, offset: 81137},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81148},
+															pos:        position{line: 2521, col: 10, offset: 81138},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94035},
+										pos: position{line: 2972, col: 12, offset: 94025},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94036},
+											pos: position{line: 2972, col: 13, offset: 94026},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94036},
+													pos:        position{line: 2972, col: 13, offset: 94026},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94043},
+													pos:        position{line: 2972, col: 20, offset: 94033},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94052},
+													pos:        position{line: 2972, col: 29, offset: 94042},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91333},
+										pos: position{line: 2875, col: 12, offset: 91323},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91333},
+											pos:        position{line: 2875, col: 12, offset: 91323},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22252,32 +22252,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1426, col: 1, offset: 45579},
+			pos:  position{line: 1426, col: 1, offset: 45569},
 			expr: &choiceExpr{
-				pos: position{line: 1426, col: 21, offset: 45599},
+				pos: position{line: 1426, col: 21, offset: 45589},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1426, col: 21, offset: 45599},
+						pos: position{line: 1426, col: 21, offset: 45589},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1426, col: 21, offset: 45599},
+							pos: position{line: 1426, col: 21, offset: 45589},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1426, col: 21, offset: 45599},
+									pos:        position{line: 1426, col: 21, offset: 45589},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1426, col: 30, offset: 45608},
+									pos:   position{line: 1426, col: 30, offset: 45598},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1426, col: 38, offset: 45616},
+										pos: position{line: 1426, col: 38, offset: 45606},
 										expr: &actionExpr{
-											pos: position{line: 1432, col: 30, offset: 45942},
+											pos: position{line: 1432, col: 30, offset: 45932},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1432, col: 30, offset: 45942},
+												pos:        position{line: 1432, col: 30, offset: 45932},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22287,7 +22287,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1426, col: 67, offset: 45645},
+									pos:        position{line: 1426, col: 67, offset: 45635},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22296,34 +22296,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1428, col: 9, offset: 45749},
+						pos: position{line: 1428, col: 9, offset: 45739},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1428, col: 9, offset: 45749},
+							pos: position{line: 1428, col: 9, offset: 45739},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1428, col: 9, offset: 45749},
+									pos:        position{line: 1428, col: 9, offset: 45739},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 19, offset: 45759},
+									pos:   position{line: 1428, col: 19, offset: 45749},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1428, col: 27, offset: 45767},
+										pos: position{line: 1428, col: 27, offset: 45757},
 										expr: &choiceExpr{
-											pos: position{line: 1428, col: 28, offset: 45768},
+											pos: position{line: 1428, col: 28, offset: 45758},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1428, col: 28, offset: 45768},
+													pos:  position{line: 1428, col: 28, offset: 45758},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1432, col: 30, offset: 45942},
+													pos: position{line: 1432, col: 30, offset: 45932},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1432, col: 30, offset: 45942},
+														pos:        position{line: 1432, col: 30, offset: 45932},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22335,7 +22335,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1428, col: 69, offset: 45809},
+									pos:        position{line: 1428, col: 69, offset: 45799},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22348,75 +22348,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1439, col: 1, offset: 46198},
+			pos:  position{line: 1439, col: 1, offset: 46188},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 9, offset: 46206},
+				pos: position{line: 1439, col: 9, offset: 46196},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46275},
+						pos: position{line: 1442, col: 5, offset: 46265},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46275},
+							pos: position{line: 1442, col: 5, offset: 46265},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46275},
+									pos:        position{line: 1442, col: 5, offset: 46265},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1443, col: 5, offset: 46284},
+									pos:   position{line: 1443, col: 5, offset: 46274},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91911},
+										pos: position{line: 2898, col: 23, offset: 91901},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91911},
+											pos: position{line: 2898, col: 23, offset: 91901},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91911},
+													pos: position{line: 2898, col: 23, offset: 91901},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91912},
+														pos:        position{line: 2898, col: 24, offset: 91902},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91916},
+													pos:   position{line: 2898, col: 28, offset: 91906},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92161},
+														pos: position{line: 2906, col: 11, offset: 92151},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92162},
+															pos: position{line: 2906, col: 12, offset: 92152},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92162},
+																	pos:        position{line: 2906, col: 12, offset: 92152},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92174},
+																	pos:        position{line: 2906, col: 24, offset: 92164},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92187},
+																	pos:        position{line: 2906, col: 37, offset: 92177},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92198},
+																	pos:        position{line: 2906, col: 48, offset: 92188},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92209},
+																	pos:        position{line: 2906, col: 59, offset: 92199},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22426,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91932},
+													pos:   position{line: 2898, col: 44, offset: 91922},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22468,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22497,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -22896,10 +22896,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22916,7 +22916,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 5, offset: 46503},
+									pos:        position{line: 1448, col: 5, offset: 46493},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22925,38 +22925,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1439, col: 19, offset: 46216},
+						pos:  position{line: 1439, col: 19, offset: 46206},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1439, col: 34, offset: 46231},
+						pos:  position{line: 1439, col: 34, offset: 46221},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1482, col: 17, offset: 47613},
+						pos: position{line: 1482, col: 17, offset: 47603},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1482, col: 17, offset: 47613},
+							pos: position{line: 1482, col: 17, offset: 47603},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1482, col: 17, offset: 47613},
+									pos:   position{line: 1482, col: 17, offset: 47603},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1487, col: 5, offset: 47778},
+										pos: position{line: 1487, col: 5, offset: 47768},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1487, col: 5, offset: 47778},
+											pos: position{line: 1487, col: 5, offset: 47768},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1487, col: 5, offset: 47778},
+													pos:   position{line: 1487, col: 5, offset: 47768},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1487, col: 12, offset: 47785},
+														pos: position{line: 1487, col: 12, offset: 47775},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1487, col: 12, offset: 47785},
+															pos: position{line: 1487, col: 12, offset: 47775},
 															expr: &charClassMatcher{
-																pos:        position{line: 1487, col: 12, offset: 47785},
+																pos:        position{line: 1487, col: 12, offset: 47775},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22968,7 +22968,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1490, col: 5, offset: 47869},
+													pos: position{line: 1490, col: 5, offset: 47859},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22976,33 +22976,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1482, col: 43, offset: 47639},
+									pos:        position{line: 1482, col: 43, offset: 47629},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1482, col: 47, offset: 47643},
+									pos:   position{line: 1482, col: 47, offset: 47633},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1499, col: 23, offset: 48163},
+										pos: position{line: 1499, col: 23, offset: 48153},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 23, offset: 48163},
+											pos: position{line: 1499, col: 23, offset: 48153},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1499, col: 23, offset: 48163},
+													pos:   position{line: 1499, col: 23, offset: 48153},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1499, col: 31, offset: 48171},
+														pos: position{line: 1499, col: 31, offset: 48161},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1499, col: 31, offset: 48171},
+															pos: position{line: 1499, col: 31, offset: 48161},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1499, col: 31, offset: 48171},
+																	pos: position{line: 1499, col: 31, offset: 48161},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1499, col: 31, offset: 48171},
+																		pos:        position{line: 1499, col: 31, offset: 48161},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23010,23 +23010,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1499, col: 41, offset: 48181},
+																	pos: position{line: 1499, col: 41, offset: 48171},
 																	expr: &seqExpr{
-																		pos: position{line: 1499, col: 42, offset: 48182},
+																		pos: position{line: 1499, col: 42, offset: 48172},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 42, offset: 48182},
+																				pos: position{line: 1499, col: 42, offset: 48172},
 																				expr: &litMatcher{
-																					pos:        position{line: 1499, col: 42, offset: 48182},
+																					pos:        position{line: 1499, col: 42, offset: 48172},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 47, offset: 48187},
+																				pos: position{line: 1499, col: 47, offset: 48177},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1499, col: 47, offset: 48187},
+																					pos:        position{line: 1499, col: 47, offset: 48177},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -23037,20 +23037,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1499, col: 59, offset: 48199},
+																	pos: position{line: 1499, col: 59, offset: 48189},
 																	expr: &seqExpr{
-																		pos: position{line: 1499, col: 60, offset: 48200},
+																		pos: position{line: 1499, col: 60, offset: 48190},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1499, col: 60, offset: 48200},
+																				pos:        position{line: 1499, col: 60, offset: 48190},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 64, offset: 48204},
+																				pos: position{line: 1499, col: 64, offset: 48194},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1499, col: 64, offset: 48204},
+																					pos:        position{line: 1499, col: 64, offset: 48194},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23066,7 +23066,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1502, col: 5, offset: 48265},
+													pos: position{line: 1502, col: 5, offset: 48255},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23081,68 +23081,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1454, col: 1, offset: 46651},
+			pos:  position{line: 1454, col: 1, offset: 46641},
 			expr: &choiceExpr{
-				pos: position{line: 1456, col: 5, offset: 46687},
+				pos: position{line: 1456, col: 5, offset: 46677},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1456, col: 5, offset: 46687},
+						pos: position{line: 1456, col: 5, offset: 46677},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1456, col: 5, offset: 46687},
+							pos: position{line: 1456, col: 5, offset: 46677},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1456, col: 5, offset: 46687},
+									pos:        position{line: 1456, col: 5, offset: 46677},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1456, col: 17, offset: 46699},
+									pos:   position{line: 1456, col: 17, offset: 46689},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 13, offset: 91784},
+										pos: position{line: 2894, col: 13, offset: 91774},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 13, offset: 91784},
+											pos: position{line: 2894, col: 13, offset: 91774},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2894, col: 13, offset: 91784},
+													pos:   position{line: 2894, col: 13, offset: 91774},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2894, col: 20, offset: 91791},
+														pos: position{line: 2894, col: 20, offset: 91781},
 														expr: &actionExpr{
-															pos: position{line: 2906, col: 11, offset: 92161},
+															pos: position{line: 2906, col: 11, offset: 92151},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2906, col: 12, offset: 92162},
+																pos: position{line: 2906, col: 12, offset: 92152},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 12, offset: 92162},
+																		pos:        position{line: 2906, col: 12, offset: 92152},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 24, offset: 92174},
+																		pos:        position{line: 2906, col: 24, offset: 92164},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 37, offset: 92187},
+																		pos:        position{line: 2906, col: 37, offset: 92177},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 48, offset: 92198},
+																		pos:        position{line: 2906, col: 48, offset: 92188},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 59, offset: 92209},
+																		pos:        position{line: 2906, col: 59, offset: 92199},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23153,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 30, offset: 91801},
+													pos:   position{line: 2894, col: 30, offset: 91791},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23195,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23224,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -23623,10 +23623,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23643,10 +23643,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1456, col: 32, offset: 46714},
+									pos:   position{line: 1456, col: 32, offset: 46704},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1456, col: 44, offset: 46726},
+										pos:  position{line: 1456, col: 44, offset: 46716},
 										name: "InlineAttributes",
 									},
 								},
@@ -23654,63 +23654,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1461, col: 5, offset: 46852},
+						pos: position{line: 1461, col: 5, offset: 46842},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1461, col: 5, offset: 46852},
+							pos: position{line: 1461, col: 5, offset: 46842},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1461, col: 5, offset: 46852},
+									pos:        position{line: 1461, col: 5, offset: 46842},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 13, offset: 46860},
+									pos:   position{line: 1461, col: 13, offset: 46850},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 13, offset: 91784},
+										pos: position{line: 2894, col: 13, offset: 91774},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 13, offset: 91784},
+											pos: position{line: 2894, col: 13, offset: 91774},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2894, col: 13, offset: 91784},
+													pos:   position{line: 2894, col: 13, offset: 91774},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2894, col: 20, offset: 91791},
+														pos: position{line: 2894, col: 20, offset: 91781},
 														expr: &actionExpr{
-															pos: position{line: 2906, col: 11, offset: 92161},
+															pos: position{line: 2906, col: 11, offset: 92151},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2906, col: 12, offset: 92162},
+																pos: position{line: 2906, col: 12, offset: 92152},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 12, offset: 92162},
+																		pos:        position{line: 2906, col: 12, offset: 92152},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 24, offset: 92174},
+																		pos:        position{line: 2906, col: 24, offset: 92164},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 37, offset: 92187},
+																		pos:        position{line: 2906, col: 37, offset: 92177},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 48, offset: 92198},
+																		pos:        position{line: 2906, col: 48, offset: 92188},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 59, offset: 92209},
+																		pos:        position{line: 2906, col: 59, offset: 92199},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23721,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 30, offset: 91801},
+													pos:   position{line: 2894, col: 30, offset: 91791},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23792,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -24191,10 +24191,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24211,10 +24211,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 28, offset: 46875},
+									pos:   position{line: 1461, col: 28, offset: 46865},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1461, col: 40, offset: 46887},
+										pos:  position{line: 1461, col: 40, offset: 46877},
 										name: "InlineAttributes",
 									},
 								},
@@ -24226,75 +24226,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1465, col: 1, offset: 47003},
+			pos:  position{line: 1465, col: 1, offset: 46993},
 			expr: &choiceExpr{
-				pos: position{line: 1468, col: 5, offset: 47165},
+				pos: position{line: 1468, col: 5, offset: 47155},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1468, col: 5, offset: 47165},
+						pos: position{line: 1468, col: 5, offset: 47155},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1468, col: 5, offset: 47165},
+							pos: position{line: 1468, col: 5, offset: 47155},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1468, col: 5, offset: 47165},
+									pos:        position{line: 1468, col: 5, offset: 47155},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1468, col: 9, offset: 47169},
+									pos:   position{line: 1468, col: 9, offset: 47159},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91911},
+										pos: position{line: 2898, col: 23, offset: 91901},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91911},
+											pos: position{line: 2898, col: 23, offset: 91901},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91911},
+													pos: position{line: 2898, col: 23, offset: 91901},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91912},
+														pos:        position{line: 2898, col: 24, offset: 91902},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91916},
+													pos:   position{line: 2898, col: 28, offset: 91906},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92161},
+														pos: position{line: 2906, col: 11, offset: 92151},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92162},
+															pos: position{line: 2906, col: 12, offset: 92152},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92162},
+																	pos:        position{line: 2906, col: 12, offset: 92152},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92174},
+																	pos:        position{line: 2906, col: 24, offset: 92164},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92187},
+																	pos:        position{line: 2906, col: 37, offset: 92177},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92198},
+																	pos:        position{line: 2906, col: 48, offset: 92188},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92209},
+																	pos:        position{line: 2906, col: 59, offset: 92199},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24304,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91932},
+													pos:   position{line: 2898, col: 44, offset: 91922},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24346,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24375,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -24774,10 +24774,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24794,12 +24794,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1468, col: 34, offset: 47194},
+									pos:   position{line: 1468, col: 34, offset: 47184},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1468, col: 45, offset: 47205},
+										pos: position{line: 1468, col: 45, offset: 47195},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1468, col: 46, offset: 47206},
+											pos:  position{line: 1468, col: 46, offset: 47196},
 											name: "InlineAttributes",
 										},
 									},
@@ -24808,64 +24808,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1473, col: 5, offset: 47333},
+						pos: position{line: 1473, col: 5, offset: 47323},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1473, col: 5, offset: 47333},
+							pos: position{line: 1473, col: 5, offset: 47323},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1473, col: 5, offset: 47333},
+									pos:   position{line: 1473, col: 5, offset: 47323},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91911},
+										pos: position{line: 2898, col: 23, offset: 91901},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91911},
+											pos: position{line: 2898, col: 23, offset: 91901},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91911},
+													pos: position{line: 2898, col: 23, offset: 91901},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91912},
+														pos:        position{line: 2898, col: 24, offset: 91902},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91916},
+													pos:   position{line: 2898, col: 28, offset: 91906},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92161},
+														pos: position{line: 2906, col: 11, offset: 92151},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92162},
+															pos: position{line: 2906, col: 12, offset: 92152},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92162},
+																	pos:        position{line: 2906, col: 12, offset: 92152},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92174},
+																	pos:        position{line: 2906, col: 24, offset: 92164},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92187},
+																	pos:        position{line: 2906, col: 37, offset: 92177},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92198},
+																	pos:        position{line: 2906, col: 48, offset: 92188},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92209},
+																	pos:        position{line: 2906, col: 59, offset: 92199},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24875,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91932},
+													pos:   position{line: 2898, col: 44, offset: 91922},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92273},
+														pos: position{line: 2911, col: 5, offset: 92263},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92273},
+															pos:   position{line: 2911, col: 5, offset: 92263},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92282},
+																pos: position{line: 2911, col: 14, offset: 92272},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92292},
+																	pos: position{line: 2912, col: 9, offset: 92282},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92292},
+																			pos: position{line: 2912, col: 9, offset: 92282},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92292},
+																				pos: position{line: 2912, col: 9, offset: 92282},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92292},
+																						pos: position{line: 2912, col: 9, offset: 92282},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92293},
+																							pos:        position{line: 2912, col: 10, offset: 92283},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92321},
+																						pos: position{line: 2913, col: 9, offset: 92311},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92322},
+																							pos:        position{line: 2913, col: 10, offset: 92312},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24917,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92534},
+																			pos: position{line: 2916, col: 11, offset: 92524},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92534},
+																					pos:        position{line: 2916, col: 11, offset: 92524},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92542},
+																					pos: position{line: 2916, col: 19, offset: 92532},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92544},
+																						pos: position{line: 2916, col: 21, offset: 92534},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92544},
+																								pos: position{line: 2916, col: 21, offset: 92534},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24946,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92551},
+																								pos: position{line: 2916, col: 28, offset: 92541},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -25345,10 +25345,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92671},
+																			pos: position{line: 2919, col: 11, offset: 92661},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92671},
+																				pos:        position{line: 2919, col: 11, offset: 92661},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25365,10 +25365,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1473, col: 30, offset: 47358},
+									pos:   position{line: 1473, col: 30, offset: 47348},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1473, col: 42, offset: 47370},
+										pos:  position{line: 1473, col: 42, offset: 47360},
 										name: "InlineAttributes",
 									},
 								},
@@ -25376,61 +25376,61 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1478, col: 5, offset: 47496},
+						pos: position{line: 1478, col: 5, offset: 47486},
 						run: (*parser).callonExternalLink238,
 						expr: &labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47496},
+							pos:   position{line: 1478, col: 5, offset: 47486},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 27, offset: 92046},
+								pos: position{line: 2902, col: 27, offset: 92036},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 27, offset: 92046},
+									pos: position{line: 2902, col: 27, offset: 92036},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2902, col: 27, offset: 92046},
+											pos: position{line: 2902, col: 27, offset: 92036},
 											expr: &litMatcher{
-												pos:        position{line: 2902, col: 28, offset: 92047},
+												pos:        position{line: 2902, col: 28, offset: 92037},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 32, offset: 92051},
+											pos:   position{line: 2902, col: 32, offset: 92041},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 11, offset: 92161},
+												pos: position{line: 2906, col: 11, offset: 92151},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2906, col: 12, offset: 92162},
+													pos: position{line: 2906, col: 12, offset: 92152},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2906, col: 12, offset: 92162},
+															pos:        position{line: 2906, col: 12, offset: 92152},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 24, offset: 92174},
+															pos:        position{line: 2906, col: 24, offset: 92164},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 37, offset: 92187},
+															pos:        position{line: 2906, col: 37, offset: 92177},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 48, offset: 92198},
+															pos:        position{line: 2906, col: 48, offset: 92188},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 59, offset: 92209},
+															pos:        position{line: 2906, col: 59, offset: 92199},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25440,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 48, offset: 92067},
+											pos:   position{line: 2902, col: 48, offset: 92057},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2927, col: 5, offset: 92957},
+												pos: position{line: 2927, col: 5, offset: 92947},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2927, col: 5, offset: 92957},
+													pos:   position{line: 2927, col: 5, offset: 92947},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2927, col: 14, offset: 92966},
+														pos: position{line: 2927, col: 14, offset: 92956},
 														expr: &choiceExpr{
-															pos: position{line: 2928, col: 9, offset: 92976},
+															pos: position{line: 2928, col: 9, offset: 92966},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2928, col: 9, offset: 92976},
+																	pos: position{line: 2928, col: 9, offset: 92966},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2928, col: 9, offset: 92976},
+																		pos: position{line: 2928, col: 9, offset: 92966},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2928, col: 10, offset: 92977},
+																			pos:        position{line: 2928, col: 10, offset: 92967},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25468,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 11, offset: 93068},
+																	pos: position{line: 2931, col: 11, offset: 93058},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2931, col: 11, offset: 93068},
+																		pos: position{line: 2931, col: 11, offset: 93058},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 11, offset: 93068},
+																				pos:        position{line: 2931, col: 11, offset: 93058},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2931, col: 15, offset: 93072},
+																				pos: position{line: 2931, col: 15, offset: 93062},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2931, col: 15, offset: 93072},
+																					pos:        position{line: 2931, col: 15, offset: 93062},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25490,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 39, offset: 93096},
+																				pos:        position{line: 2931, col: 39, offset: 93086},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25499,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2934, col: 11, offset: 93161},
+																	pos: position{line: 2934, col: 11, offset: 93151},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2934, col: 11, offset: 93161},
+																		pos:        position{line: 2934, col: 11, offset: 93151},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 93226},
+																	pos: position{line: 2937, col: 11, offset: 93216},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2937, col: 11, offset: 93226},
+																		pos: position{line: 2937, col: 11, offset: 93216},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2937, col: 11, offset: 93226},
+																				pos: position{line: 2937, col: 11, offset: 93216},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 11, offset: 93226},
+																					pos:        position{line: 2937, col: 11, offset: 93216},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2937, col: 21, offset: 93236},
+																				pos: position{line: 2937, col: 21, offset: 93226},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 23, offset: 93238},
+																					pos:        position{line: 2937, col: 23, offset: 93228},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2942, col: 11, offset: 93379},
+																	pos: position{line: 2942, col: 11, offset: 93369},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2942, col: 11, offset: 93379},
+																		pos:        position{line: 2942, col: 11, offset: 93369},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25948,41 +25948,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1512, col: 1, offset: 48658},
+			pos:  position{line: 1512, col: 1, offset: 48648},
 			expr: &actionExpr{
-				pos: position{line: 1513, col: 5, offset: 48679},
+				pos: position{line: 1513, col: 5, offset: 48669},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1513, col: 5, offset: 48679},
+					pos: position{line: 1513, col: 5, offset: 48669},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1513, col: 5, offset: 48679},
+							pos:   position{line: 1513, col: 5, offset: 48669},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 5, offset: 48881},
+								pos: position{line: 1519, col: 5, offset: 48871},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1613, col: 5, offset: 51959},
+										pos: position{line: 1613, col: 5, offset: 51949},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1613, col: 5, offset: 51959},
+											pos: position{line: 1613, col: 5, offset: 51949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1613, col: 5, offset: 51959},
+													pos:   position{line: 1613, col: 5, offset: 51949},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52167},
+														pos: position{line: 1620, col: 5, offset: 52157},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52167},
+															pos: position{line: 1620, col: 5, offset: 52157},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52167},
+																	pos: position{line: 1620, col: 5, offset: 52157},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25991,27 +25991,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52174},
+																	pos:   position{line: 1620, col: 12, offset: 52164},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52237},
+																		pos: position{line: 1622, col: 9, offset: 52227},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52237},
+																				pos: position{line: 1622, col: 9, offset: 52227},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52237},
+																					pos: position{line: 1622, col: 9, offset: 52227},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52237},
+																							pos:   position{line: 1622, col: 9, offset: 52227},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52244},
+																								pos: position{line: 1622, col: 16, offset: 52234},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52244},
+																									pos: position{line: 1622, col: 16, offset: 52234},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52245},
+																										pos:        position{line: 1622, col: 17, offset: 52235},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26020,22 +26020,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52345},
+																							pos: position{line: 1626, col: 9, offset: 52335},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53062},
+																				pos: position{line: 1645, col: 11, offset: 53052},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53062},
+																					pos: position{line: 1645, col: 11, offset: 53052},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53062},
+																							pos: position{line: 1645, col: 11, offset: 53052},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53063},
+																								pos:        position{line: 1645, col: 12, offset: 53053},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26043,7 +26043,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53071},
+																							pos:        position{line: 1645, col: 20, offset: 53061},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26052,20 +26052,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53188},
+																				pos: position{line: 1647, col: 13, offset: 53178},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53188},
+																					pos: position{line: 1647, col: 13, offset: 53178},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53189},
+																							pos:        position{line: 1647, col: 14, offset: 53179},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53196},
+																							pos:        position{line: 1647, col: 21, offset: 53186},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26074,20 +26074,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53316},
+																				pos: position{line: 1649, col: 13, offset: 53306},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53316},
+																					pos: position{line: 1649, col: 13, offset: 53306},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53317},
+																							pos:        position{line: 1649, col: 14, offset: 53307},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53324},
+																							pos:        position{line: 1649, col: 21, offset: 53314},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26096,15 +26096,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53444},
+																				pos: position{line: 1651, col: 13, offset: 53434},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53444},
+																					pos: position{line: 1651, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53444},
+																							pos: position{line: 1651, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53445},
+																								pos:        position{line: 1651, col: 14, offset: 53435},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26112,7 +26112,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53457},
+																							pos:        position{line: 1651, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26121,15 +26121,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53577},
+																				pos: position{line: 1653, col: 13, offset: 53567},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53577},
+																					pos: position{line: 1653, col: 13, offset: 53567},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53577},
+																							pos: position{line: 1653, col: 13, offset: 53567},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53578},
+																								pos:        position{line: 1653, col: 14, offset: 53568},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26137,7 +26137,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53590},
+																							pos:        position{line: 1653, col: 26, offset: 53580},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26149,12 +26149,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26167,26 +26167,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1614, col: 5, offset: 51998},
+													pos:   position{line: 1614, col: 5, offset: 51988},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26197,28 +26197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -26242,27 +26242,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53856},
+										pos: position{line: 1663, col: 5, offset: 53846},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53856},
+											pos: position{line: 1663, col: 5, offset: 53846},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53856},
+													pos:   position{line: 1663, col: 5, offset: 53846},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54129},
+														pos: position{line: 1670, col: 5, offset: 54119},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54129},
+															pos: position{line: 1670, col: 5, offset: 54119},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54129},
+																	pos: position{line: 1670, col: 5, offset: 54119},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26271,24 +26271,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54141},
+																	pos:   position{line: 1671, col: 5, offset: 54131},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54157},
+																		pos: position{line: 1672, col: 9, offset: 54147},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54158},
+																			pos: position{line: 1672, col: 10, offset: 54148},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54159},
+																					pos:        position{line: 1672, col: 11, offset: 54149},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54166},
+																					pos: position{line: 1672, col: 18, offset: 54156},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54167},
+																						pos:        position{line: 1672, col: 19, offset: 54157},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26299,16 +26299,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54257},
+																	pos: position{line: 1675, col: 7, offset: 54247},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26321,56 +26321,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53897},
+													pos:   position{line: 1664, col: 5, offset: 53887},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1664, col: 16, offset: 53908},
+														pos: position{line: 1664, col: 16, offset: 53898},
 														expr: &actionExpr{
-															pos: position{line: 1685, col: 5, offset: 54522},
+															pos: position{line: 1685, col: 5, offset: 54512},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1685, col: 5, offset: 54522},
+																pos: position{line: 1685, col: 5, offset: 54512},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1685, col: 5, offset: 54522},
+																		pos: position{line: 1685, col: 5, offset: 54512},
 																		expr: &litMatcher{
-																			pos:        position{line: 1685, col: 6, offset: 54523},
+																			pos:        position{line: 1685, col: 6, offset: 54513},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1685, col: 10, offset: 54527},
+																		pos:   position{line: 1685, col: 10, offset: 54517},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1686, col: 7, offset: 54541},
+																			pos: position{line: 1686, col: 7, offset: 54531},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1686, col: 7, offset: 54541},
+																					pos: position{line: 1686, col: 7, offset: 54531},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1686, col: 7, offset: 54541},
+																						pos:        position{line: 1686, col: 7, offset: 54531},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1687, col: 7, offset: 54586},
+																					pos: position{line: 1687, col: 7, offset: 54576},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 7, offset: 54586},
+																						pos:        position{line: 1687, col: 7, offset: 54576},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1688, col: 7, offset: 54629},
+																					pos: position{line: 1688, col: 7, offset: 54619},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1688, col: 7, offset: 54629},
+																						pos:        position{line: 1688, col: 7, offset: 54619},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26380,12 +26380,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26399,26 +26399,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53947},
+													pos:   position{line: 1665, col: 5, offset: 53937},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26429,28 +26429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -26474,36 +26474,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1753, col: 5, offset: 56469},
+										pos: position{line: 1753, col: 5, offset: 56459},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 5, offset: 56469},
+											pos: position{line: 1753, col: 5, offset: 56459},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1753, col: 5, offset: 56469},
+													pos:   position{line: 1753, col: 5, offset: 56459},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56666},
+														pos: position{line: 1759, col: 5, offset: 56656},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56666},
+															pos: position{line: 1759, col: 5, offset: 56656},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56666},
+																	pos:        position{line: 1759, col: 5, offset: 56656},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56670},
+																	pos:   position{line: 1759, col: 9, offset: 56660},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56675},
+																		pos: position{line: 1759, col: 14, offset: 56665},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56675},
+																			pos: position{line: 1759, col: 14, offset: 56665},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56675},
+																				pos:        position{line: 1759, col: 14, offset: 56665},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26513,18 +26513,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56723},
+																	pos:        position{line: 1759, col: 62, offset: 56713},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26537,26 +26537,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1754, col: 5, offset: 56505},
+													pos:   position{line: 1754, col: 5, offset: 56495},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26567,28 +26567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -26612,40 +26612,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1697, col: 5, offset: 54822},
+										pos: position{line: 1697, col: 5, offset: 54812},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1697, col: 5, offset: 54822},
+											pos: position{line: 1697, col: 5, offset: 54812},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1697, col: 5, offset: 54822},
+													pos:   position{line: 1697, col: 5, offset: 54812},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55148},
+														pos: position{line: 1705, col: 5, offset: 55138},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1705, col: 5, offset: 55148},
+															pos: position{line: 1705, col: 5, offset: 55138},
 															expr: &seqExpr{
-																pos: position{line: 1705, col: 6, offset: 55149},
+																pos: position{line: 1705, col: 6, offset: 55139},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1705, col: 6, offset: 55149},
+																		pos: position{line: 1705, col: 6, offset: 55139},
 																		expr: &actionExpr{
-																			pos: position{line: 1710, col: 5, offset: 55299},
+																			pos: position{line: 1710, col: 5, offset: 55289},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1710, col: 5, offset: 55299},
+																				pos: position{line: 1710, col: 5, offset: 55289},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1710, col: 5, offset: 55299},
+																						pos:   position{line: 1710, col: 5, offset: 55289},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1710, col: 16, offset: 55310},
+																							pos: position{line: 1710, col: 16, offset: 55300},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1710, col: 16, offset: 55310},
+																								pos: position{line: 1710, col: 16, offset: 55300},
 																								expr: &litMatcher{
-																									pos:        position{line: 1710, col: 17, offset: 55311},
+																									pos:        position{line: 1710, col: 17, offset: 55301},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26654,7 +26654,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1713, col: 5, offset: 55368},
+																						pos: position{line: 1713, col: 5, offset: 55358},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26662,30 +26662,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1705, col: 35, offset: 55178},
+																		pos: position{line: 1705, col: 35, offset: 55168},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,16 +26694,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1705, col: 40, offset: 55183,
+																		line: 1705, col: 40, offset: 55173,
 																	},
 																},
 															},
@@ -26711,24 +26711,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1698, col: 5, offset: 54857},
+													pos:   position{line: 1698, col: 5, offset: 54847},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1710, col: 5, offset: 55299},
+														pos: position{line: 1710, col: 5, offset: 55289},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1710, col: 5, offset: 55299},
+															pos: position{line: 1710, col: 5, offset: 55289},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1710, col: 5, offset: 55299},
+																	pos:   position{line: 1710, col: 5, offset: 55289},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1710, col: 16, offset: 55310},
+																		pos: position{line: 1710, col: 16, offset: 55300},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1710, col: 16, offset: 55310},
+																			pos: position{line: 1710, col: 16, offset: 55300},
 																			expr: &litMatcher{
-																				pos:        position{line: 1710, col: 17, offset: 55311},
+																				pos:        position{line: 1710, col: 17, offset: 55301},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26737,7 +26737,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1713, col: 5, offset: 55368},
+																	pos: position{line: 1713, col: 5, offset: 55358},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26745,24 +26745,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1699, col: 5, offset: 54902},
+													pos:   position{line: 1699, col: 5, offset: 54892},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1721, col: 5, offset: 55617},
+														pos: position{line: 1721, col: 5, offset: 55607},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1723, col: 9, offset: 55683},
+																pos: position{line: 1723, col: 9, offset: 55673},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 9, offset: 55683},
+																	pos: position{line: 1723, col: 9, offset: 55673},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1723, col: 9, offset: 55683},
+																			pos: position{line: 1723, col: 9, offset: 55673},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26771,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,15 +26801,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1724, col: 9, offset: 55702},
+																			pos: position{line: 1724, col: 9, offset: 55692},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26817,18 +26817,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26837,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26867,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -26882,18 +26882,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 9, offset: 55831},
+																pos: position{line: 1730, col: 9, offset: 55821},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 9, offset: 55831},
+																	pos: position{line: 1730, col: 9, offset: 55821},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2967, col: 11, offset: 93925},
+																				pos: position{line: 2967, col: 11, offset: 93915},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2967, col: 11, offset: 93925},
+																					pos:        position{line: 2967, col: 11, offset: 93915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26902,15 +26902,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 9, offset: 55904},
+																			pos:   position{line: 1731, col: 9, offset: 55894},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1731, col: 18, offset: 55913},
+																				pos: position{line: 1731, col: 18, offset: 55903},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1731, col: 18, offset: 55913},
+																					pos: position{line: 1731, col: 18, offset: 55903},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1731, col: 18, offset: 55913},
+																						pos:        position{line: 1731, col: 18, offset: 55903},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26920,28 +26920,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -26970,10 +26970,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1514, col: 5, offset: 48710},
+							pos:   position{line: 1514, col: 5, offset: 48700},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1514, col: 20, offset: 48725},
+								pos:  position{line: 1514, col: 20, offset: 48715},
 								name: "ExtraListElements",
 							},
 						},
@@ -26983,17 +26983,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1524, col: 1, offset: 48980},
+			pos:  position{line: 1524, col: 1, offset: 48970},
 			expr: &actionExpr{
-				pos: position{line: 1524, col: 22, offset: 49001},
+				pos: position{line: 1524, col: 22, offset: 48991},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1524, col: 22, offset: 49001},
+					pos:   position{line: 1524, col: 22, offset: 48991},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1524, col: 31, offset: 49010},
+						pos: position{line: 1524, col: 31, offset: 49000},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1524, col: 32, offset: 49011},
+							pos:  position{line: 1524, col: 32, offset: 49001},
 							name: "ExtraListElement",
 						},
 					},
@@ -27002,33 +27002,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1528, col: 1, offset: 49091},
+			pos:  position{line: 1528, col: 1, offset: 49081},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49230},
+				pos: position{line: 1529, col: 5, offset: 49220},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49230},
+					pos: position{line: 1529, col: 5, offset: 49220},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1530, col: 5, offset: 49242},
+							pos:   position{line: 1530, col: 5, offset: 49232},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1531, col: 9, offset: 49260},
+								pos: position{line: 1531, col: 9, offset: 49250},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1531, col: 13, offset: 49264},
+										pos: position{line: 1531, col: 13, offset: 49254},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 13, offset: 49264},
+											pos: position{line: 1531, col: 13, offset: 49254},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1531, col: 13, offset: 49264},
+													pos: position{line: 1531, col: 13, offset: 49254},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -27036,18 +27036,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2980, col: 11, offset: 94198},
+																	pos: position{line: 2980, col: 11, offset: 94188},
 																	expr: &anyMatcher{
-																		line: 2980, col: 13, offset: 94200,
+																		line: 2980, col: 13, offset: 94190,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -27098,33 +27098,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 13, offset: 49288},
+													pos:   position{line: 1532, col: 13, offset: 49278},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1532, col: 22, offset: 49297},
+														pos: position{line: 1532, col: 22, offset: 49287},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1613, col: 5, offset: 51959},
+																pos: position{line: 1613, col: 5, offset: 51949},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1613, col: 5, offset: 51959},
+																	pos: position{line: 1613, col: 5, offset: 51949},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1613, col: 5, offset: 51959},
+																			pos:   position{line: 1613, col: 5, offset: 51949},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1620, col: 5, offset: 52167},
+																				pos: position{line: 1620, col: 5, offset: 52157},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 5, offset: 52167},
+																					pos: position{line: 1620, col: 5, offset: 52157},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1620, col: 5, offset: 52167},
+																							pos: position{line: 1620, col: 5, offset: 52157},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27133,27 +27133,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1620, col: 12, offset: 52174},
+																							pos:   position{line: 1620, col: 12, offset: 52164},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1622, col: 9, offset: 52237},
+																								pos: position{line: 1622, col: 9, offset: 52227},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1622, col: 9, offset: 52237},
+																										pos: position{line: 1622, col: 9, offset: 52227},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 9, offset: 52237},
+																											pos: position{line: 1622, col: 9, offset: 52227},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1622, col: 9, offset: 52237},
+																													pos:   position{line: 1622, col: 9, offset: 52227},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1622, col: 16, offset: 52244},
+																														pos: position{line: 1622, col: 16, offset: 52234},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1622, col: 16, offset: 52244},
+																															pos: position{line: 1622, col: 16, offset: 52234},
 																															expr: &litMatcher{
-																																pos:        position{line: 1622, col: 17, offset: 52245},
+																																pos:        position{line: 1622, col: 17, offset: 52235},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27162,22 +27162,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1626, col: 9, offset: 52345},
+																													pos: position{line: 1626, col: 9, offset: 52335},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 11, offset: 53062},
+																										pos: position{line: 1645, col: 11, offset: 53052},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 11, offset: 53062},
+																											pos: position{line: 1645, col: 11, offset: 53052},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1645, col: 11, offset: 53062},
+																													pos: position{line: 1645, col: 11, offset: 53052},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1645, col: 12, offset: 53063},
+																														pos:        position{line: 1645, col: 12, offset: 53053},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27185,7 +27185,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 20, offset: 53071},
+																													pos:        position{line: 1645, col: 20, offset: 53061},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27194,20 +27194,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53188},
+																										pos: position{line: 1647, col: 13, offset: 53178},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53188},
+																											pos: position{line: 1647, col: 13, offset: 53178},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1647, col: 14, offset: 53189},
+																													pos:        position{line: 1647, col: 14, offset: 53179},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 21, offset: 53196},
+																													pos:        position{line: 1647, col: 21, offset: 53186},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27216,20 +27216,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53316},
+																										pos: position{line: 1649, col: 13, offset: 53306},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53316},
+																											pos: position{line: 1649, col: 13, offset: 53306},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1649, col: 14, offset: 53317},
+																													pos:        position{line: 1649, col: 14, offset: 53307},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 21, offset: 53324},
+																													pos:        position{line: 1649, col: 21, offset: 53314},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27238,15 +27238,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1651, col: 13, offset: 53444},
+																										pos: position{line: 1651, col: 13, offset: 53434},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1651, col: 13, offset: 53444},
+																											pos: position{line: 1651, col: 13, offset: 53434},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1651, col: 13, offset: 53444},
+																													pos: position{line: 1651, col: 13, offset: 53434},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1651, col: 14, offset: 53445},
+																														pos:        position{line: 1651, col: 14, offset: 53435},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27254,7 +27254,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1651, col: 26, offset: 53457},
+																													pos:        position{line: 1651, col: 26, offset: 53447},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27263,15 +27263,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1653, col: 13, offset: 53577},
+																										pos: position{line: 1653, col: 13, offset: 53567},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1653, col: 13, offset: 53577},
+																											pos: position{line: 1653, col: 13, offset: 53567},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1653, col: 13, offset: 53577},
+																													pos: position{line: 1653, col: 13, offset: 53567},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1653, col: 14, offset: 53578},
+																														pos:        position{line: 1653, col: 14, offset: 53568},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27279,7 +27279,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1653, col: 26, offset: 53590},
+																													pos:        position{line: 1653, col: 26, offset: 53580},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27291,12 +27291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27309,26 +27309,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1614, col: 5, offset: 51998},
+																			pos:   position{line: 1614, col: 5, offset: 51988},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27339,28 +27339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -27384,27 +27384,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53856},
+																pos: position{line: 1663, col: 5, offset: 53846},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53856},
+																	pos: position{line: 1663, col: 5, offset: 53846},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53856},
+																			pos:   position{line: 1663, col: 5, offset: 53846},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54129},
+																				pos: position{line: 1670, col: 5, offset: 54119},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1670, col: 5, offset: 54129},
+																					pos: position{line: 1670, col: 5, offset: 54119},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54129},
+																							pos: position{line: 1670, col: 5, offset: 54119},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27413,24 +27413,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1671, col: 5, offset: 54141},
+																							pos:   position{line: 1671, col: 5, offset: 54131},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 9, offset: 54157},
+																								pos: position{line: 1672, col: 9, offset: 54147},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1672, col: 10, offset: 54158},
+																									pos: position{line: 1672, col: 10, offset: 54148},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1672, col: 11, offset: 54159},
+																											pos:        position{line: 1672, col: 11, offset: 54149},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1672, col: 18, offset: 54166},
+																											pos: position{line: 1672, col: 18, offset: 54156},
 																											expr: &litMatcher{
-																												pos:        position{line: 1672, col: 19, offset: 54167},
+																												pos:        position{line: 1672, col: 19, offset: 54157},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27441,16 +27441,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 7, offset: 54257},
+																							pos: position{line: 1675, col: 7, offset: 54247},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27463,56 +27463,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53897},
+																			pos:   position{line: 1664, col: 5, offset: 53887},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1664, col: 16, offset: 53908},
+																				pos: position{line: 1664, col: 16, offset: 53898},
 																				expr: &actionExpr{
-																					pos: position{line: 1685, col: 5, offset: 54522},
+																					pos: position{line: 1685, col: 5, offset: 54512},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1685, col: 5, offset: 54522},
+																						pos: position{line: 1685, col: 5, offset: 54512},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1685, col: 5, offset: 54522},
+																								pos: position{line: 1685, col: 5, offset: 54512},
 																								expr: &litMatcher{
-																									pos:        position{line: 1685, col: 6, offset: 54523},
+																									pos:        position{line: 1685, col: 6, offset: 54513},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1685, col: 10, offset: 54527},
+																								pos:   position{line: 1685, col: 10, offset: 54517},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1686, col: 7, offset: 54541},
+																									pos: position{line: 1686, col: 7, offset: 54531},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1686, col: 7, offset: 54541},
+																											pos: position{line: 1686, col: 7, offset: 54531},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1686, col: 7, offset: 54541},
+																												pos:        position{line: 1686, col: 7, offset: 54531},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1687, col: 7, offset: 54586},
+																											pos: position{line: 1687, col: 7, offset: 54576},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1687, col: 7, offset: 54586},
+																												pos:        position{line: 1687, col: 7, offset: 54576},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1688, col: 7, offset: 54629},
+																											pos: position{line: 1688, col: 7, offset: 54619},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1688, col: 7, offset: 54629},
+																												pos:        position{line: 1688, col: 7, offset: 54619},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27522,12 +27522,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27541,26 +27541,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53947},
+																			pos:   position{line: 1665, col: 5, offset: 53937},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27571,28 +27571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -27616,36 +27616,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1753, col: 5, offset: 56469},
+																pos: position{line: 1753, col: 5, offset: 56459},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1753, col: 5, offset: 56469},
+																	pos: position{line: 1753, col: 5, offset: 56459},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1753, col: 5, offset: 56469},
+																			pos:   position{line: 1753, col: 5, offset: 56459},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1759, col: 5, offset: 56666},
+																				pos: position{line: 1759, col: 5, offset: 56656},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1759, col: 5, offset: 56666},
+																					pos: position{line: 1759, col: 5, offset: 56656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 5, offset: 56666},
+																							pos:        position{line: 1759, col: 5, offset: 56656},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1759, col: 9, offset: 56670},
+																							pos:   position{line: 1759, col: 9, offset: 56660},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1759, col: 14, offset: 56675},
+																								pos: position{line: 1759, col: 14, offset: 56665},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1759, col: 14, offset: 56675},
+																									pos: position{line: 1759, col: 14, offset: 56665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1759, col: 14, offset: 56675},
+																										pos:        position{line: 1759, col: 14, offset: 56665},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27655,18 +27655,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 62, offset: 56723},
+																							pos:        position{line: 1759, col: 62, offset: 56713},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27679,26 +27679,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1754, col: 5, offset: 56505},
+																			pos:   position{line: 1754, col: 5, offset: 56495},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27709,28 +27709,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27739,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -27754,40 +27754,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 5, offset: 54822},
+																pos: position{line: 1697, col: 5, offset: 54812},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 5, offset: 54822},
+																	pos: position{line: 1697, col: 5, offset: 54812},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1697, col: 5, offset: 54822},
+																			pos:   position{line: 1697, col: 5, offset: 54812},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55148},
+																				pos: position{line: 1705, col: 5, offset: 55138},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55148},
+																					pos: position{line: 1705, col: 5, offset: 55138},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55149},
+																						pos: position{line: 1705, col: 6, offset: 55139},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55149},
+																								pos: position{line: 1705, col: 6, offset: 55139},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55299},
+																									pos: position{line: 1710, col: 5, offset: 55289},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55299},
+																										pos: position{line: 1710, col: 5, offset: 55289},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55299},
+																												pos:   position{line: 1710, col: 5, offset: 55289},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55310},
+																													pos: position{line: 1710, col: 16, offset: 55300},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55310},
+																														pos: position{line: 1710, col: 16, offset: 55300},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55311},
+																															pos:        position{line: 1710, col: 17, offset: 55301},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27796,7 +27796,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55368},
+																												pos: position{line: 1713, col: 5, offset: 55358},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27804,30 +27804,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55178},
+																								pos: position{line: 1705, col: 35, offset: 55168},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,16 +27836,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55183,
+																								line: 1705, col: 40, offset: 55173,
 																							},
 																						},
 																					},
@@ -27853,24 +27853,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 5, offset: 54857},
+																			pos:   position{line: 1698, col: 5, offset: 54847},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55299},
+																				pos: position{line: 1710, col: 5, offset: 55289},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55299},
+																					pos: position{line: 1710, col: 5, offset: 55289},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55299},
+																							pos:   position{line: 1710, col: 5, offset: 55289},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55310},
+																								pos: position{line: 1710, col: 16, offset: 55300},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55310},
+																									pos: position{line: 1710, col: 16, offset: 55300},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55311},
+																										pos:        position{line: 1710, col: 17, offset: 55301},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27879,7 +27879,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55368},
+																							pos: position{line: 1713, col: 5, offset: 55358},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27887,24 +27887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 54902},
+																			pos:   position{line: 1699, col: 5, offset: 54892},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1721, col: 5, offset: 55617},
+																				pos: position{line: 1721, col: 5, offset: 55607},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1723, col: 9, offset: 55683},
+																						pos: position{line: 1723, col: 9, offset: 55673},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1723, col: 9, offset: 55683},
+																							pos: position{line: 1723, col: 9, offset: 55673},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1723, col: 9, offset: 55683},
+																									pos: position{line: 1723, col: 9, offset: 55673},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27913,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,15 +27943,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1724, col: 9, offset: 55702},
+																									pos: position{line: 1724, col: 9, offset: 55692},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27959,18 +27959,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2980, col: 11, offset: 94198},
+																													pos: position{line: 2980, col: 11, offset: 94188},
 																													expr: &anyMatcher{
-																														line: 2980, col: 13, offset: 94200,
+																														line: 2980, col: 13, offset: 94190,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27979,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28009,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -28024,18 +28024,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1730, col: 9, offset: 55831},
+																						pos: position{line: 1730, col: 9, offset: 55821},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1730, col: 9, offset: 55831},
+																							pos: position{line: 1730, col: 9, offset: 55821},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93925},
+																										pos: position{line: 2967, col: 11, offset: 93915},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93925},
+																											pos:        position{line: 2967, col: 11, offset: 93915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28044,15 +28044,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1731, col: 9, offset: 55904},
+																									pos:   position{line: 1731, col: 9, offset: 55894},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1731, col: 18, offset: 55913},
+																										pos: position{line: 1731, col: 18, offset: 55903},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1731, col: 18, offset: 55913},
+																											pos: position{line: 1731, col: 18, offset: 55903},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1731, col: 18, offset: 55913},
+																												pos:        position{line: 1731, col: 18, offset: 55903},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28062,28 +28062,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28092,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -28115,50 +28115,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1535, col: 13, offset: 49448},
+										pos: position{line: 1535, col: 13, offset: 49438},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1535, col: 13, offset: 49448},
+											pos: position{line: 1535, col: 13, offset: 49438},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1535, col: 13, offset: 49448},
+													pos:   position{line: 1535, col: 13, offset: 49438},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1535, col: 24, offset: 49459},
+														pos: position{line: 1535, col: 24, offset: 49449},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1535, col: 25, offset: 49460},
+															pos:  position{line: 1535, col: 25, offset: 49450},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1536, col: 13, offset: 49491},
+													pos:   position{line: 1536, col: 13, offset: 49481},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1536, col: 22, offset: 49500},
+														pos: position{line: 1536, col: 22, offset: 49490},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1613, col: 5, offset: 51959},
+																pos: position{line: 1613, col: 5, offset: 51949},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1613, col: 5, offset: 51959},
+																	pos: position{line: 1613, col: 5, offset: 51949},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1613, col: 5, offset: 51959},
+																			pos:   position{line: 1613, col: 5, offset: 51949},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1620, col: 5, offset: 52167},
+																				pos: position{line: 1620, col: 5, offset: 52157},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 5, offset: 52167},
+																					pos: position{line: 1620, col: 5, offset: 52157},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1620, col: 5, offset: 52167},
+																							pos: position{line: 1620, col: 5, offset: 52157},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28167,27 +28167,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1620, col: 12, offset: 52174},
+																							pos:   position{line: 1620, col: 12, offset: 52164},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1622, col: 9, offset: 52237},
+																								pos: position{line: 1622, col: 9, offset: 52227},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1622, col: 9, offset: 52237},
+																										pos: position{line: 1622, col: 9, offset: 52227},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 9, offset: 52237},
+																											pos: position{line: 1622, col: 9, offset: 52227},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1622, col: 9, offset: 52237},
+																													pos:   position{line: 1622, col: 9, offset: 52227},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1622, col: 16, offset: 52244},
+																														pos: position{line: 1622, col: 16, offset: 52234},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1622, col: 16, offset: 52244},
+																															pos: position{line: 1622, col: 16, offset: 52234},
 																															expr: &litMatcher{
-																																pos:        position{line: 1622, col: 17, offset: 52245},
+																																pos:        position{line: 1622, col: 17, offset: 52235},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28196,22 +28196,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1626, col: 9, offset: 52345},
+																													pos: position{line: 1626, col: 9, offset: 52335},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 11, offset: 53062},
+																										pos: position{line: 1645, col: 11, offset: 53052},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 11, offset: 53062},
+																											pos: position{line: 1645, col: 11, offset: 53052},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1645, col: 11, offset: 53062},
+																													pos: position{line: 1645, col: 11, offset: 53052},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1645, col: 12, offset: 53063},
+																														pos:        position{line: 1645, col: 12, offset: 53053},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28219,7 +28219,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 20, offset: 53071},
+																													pos:        position{line: 1645, col: 20, offset: 53061},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28228,20 +28228,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53188},
+																										pos: position{line: 1647, col: 13, offset: 53178},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53188},
+																											pos: position{line: 1647, col: 13, offset: 53178},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1647, col: 14, offset: 53189},
+																													pos:        position{line: 1647, col: 14, offset: 53179},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 21, offset: 53196},
+																													pos:        position{line: 1647, col: 21, offset: 53186},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28250,20 +28250,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53316},
+																										pos: position{line: 1649, col: 13, offset: 53306},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53316},
+																											pos: position{line: 1649, col: 13, offset: 53306},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1649, col: 14, offset: 53317},
+																													pos:        position{line: 1649, col: 14, offset: 53307},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 21, offset: 53324},
+																													pos:        position{line: 1649, col: 21, offset: 53314},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28272,15 +28272,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1651, col: 13, offset: 53444},
+																										pos: position{line: 1651, col: 13, offset: 53434},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1651, col: 13, offset: 53444},
+																											pos: position{line: 1651, col: 13, offset: 53434},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1651, col: 13, offset: 53444},
+																													pos: position{line: 1651, col: 13, offset: 53434},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1651, col: 14, offset: 53445},
+																														pos:        position{line: 1651, col: 14, offset: 53435},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28288,7 +28288,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1651, col: 26, offset: 53457},
+																													pos:        position{line: 1651, col: 26, offset: 53447},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28297,15 +28297,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1653, col: 13, offset: 53577},
+																										pos: position{line: 1653, col: 13, offset: 53567},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1653, col: 13, offset: 53577},
+																											pos: position{line: 1653, col: 13, offset: 53567},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1653, col: 13, offset: 53577},
+																													pos: position{line: 1653, col: 13, offset: 53567},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1653, col: 14, offset: 53578},
+																														pos:        position{line: 1653, col: 14, offset: 53568},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28313,7 +28313,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1653, col: 26, offset: 53590},
+																													pos:        position{line: 1653, col: 26, offset: 53580},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28325,12 +28325,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28343,26 +28343,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1614, col: 5, offset: 51998},
+																			pos:   position{line: 1614, col: 5, offset: 51988},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28373,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -28418,27 +28418,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53856},
+																pos: position{line: 1663, col: 5, offset: 53846},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53856},
+																	pos: position{line: 1663, col: 5, offset: 53846},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53856},
+																			pos:   position{line: 1663, col: 5, offset: 53846},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54129},
+																				pos: position{line: 1670, col: 5, offset: 54119},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1670, col: 5, offset: 54129},
+																					pos: position{line: 1670, col: 5, offset: 54119},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54129},
+																							pos: position{line: 1670, col: 5, offset: 54119},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28447,24 +28447,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1671, col: 5, offset: 54141},
+																							pos:   position{line: 1671, col: 5, offset: 54131},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 9, offset: 54157},
+																								pos: position{line: 1672, col: 9, offset: 54147},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1672, col: 10, offset: 54158},
+																									pos: position{line: 1672, col: 10, offset: 54148},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1672, col: 11, offset: 54159},
+																											pos:        position{line: 1672, col: 11, offset: 54149},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1672, col: 18, offset: 54166},
+																											pos: position{line: 1672, col: 18, offset: 54156},
 																											expr: &litMatcher{
-																												pos:        position{line: 1672, col: 19, offset: 54167},
+																												pos:        position{line: 1672, col: 19, offset: 54157},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28475,16 +28475,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 7, offset: 54257},
+																							pos: position{line: 1675, col: 7, offset: 54247},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28497,56 +28497,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53897},
+																			pos:   position{line: 1664, col: 5, offset: 53887},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1664, col: 16, offset: 53908},
+																				pos: position{line: 1664, col: 16, offset: 53898},
 																				expr: &actionExpr{
-																					pos: position{line: 1685, col: 5, offset: 54522},
+																					pos: position{line: 1685, col: 5, offset: 54512},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1685, col: 5, offset: 54522},
+																						pos: position{line: 1685, col: 5, offset: 54512},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1685, col: 5, offset: 54522},
+																								pos: position{line: 1685, col: 5, offset: 54512},
 																								expr: &litMatcher{
-																									pos:        position{line: 1685, col: 6, offset: 54523},
+																									pos:        position{line: 1685, col: 6, offset: 54513},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1685, col: 10, offset: 54527},
+																								pos:   position{line: 1685, col: 10, offset: 54517},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1686, col: 7, offset: 54541},
+																									pos: position{line: 1686, col: 7, offset: 54531},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1686, col: 7, offset: 54541},
+																											pos: position{line: 1686, col: 7, offset: 54531},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1686, col: 7, offset: 54541},
+																												pos:        position{line: 1686, col: 7, offset: 54531},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1687, col: 7, offset: 54586},
+																											pos: position{line: 1687, col: 7, offset: 54576},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1687, col: 7, offset: 54586},
+																												pos:        position{line: 1687, col: 7, offset: 54576},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1688, col: 7, offset: 54629},
+																											pos: position{line: 1688, col: 7, offset: 54619},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1688, col: 7, offset: 54629},
+																												pos:        position{line: 1688, col: 7, offset: 54619},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28556,12 +28556,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28575,26 +28575,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53947},
+																			pos:   position{line: 1665, col: 5, offset: 53937},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28605,28 +28605,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28635,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -28650,36 +28650,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1753, col: 5, offset: 56469},
+																pos: position{line: 1753, col: 5, offset: 56459},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1753, col: 5, offset: 56469},
+																	pos: position{line: 1753, col: 5, offset: 56459},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1753, col: 5, offset: 56469},
+																			pos:   position{line: 1753, col: 5, offset: 56459},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1759, col: 5, offset: 56666},
+																				pos: position{line: 1759, col: 5, offset: 56656},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1759, col: 5, offset: 56666},
+																					pos: position{line: 1759, col: 5, offset: 56656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 5, offset: 56666},
+																							pos:        position{line: 1759, col: 5, offset: 56656},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1759, col: 9, offset: 56670},
+																							pos:   position{line: 1759, col: 9, offset: 56660},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1759, col: 14, offset: 56675},
+																								pos: position{line: 1759, col: 14, offset: 56665},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1759, col: 14, offset: 56675},
+																									pos: position{line: 1759, col: 14, offset: 56665},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1759, col: 14, offset: 56675},
+																										pos:        position{line: 1759, col: 14, offset: 56665},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28689,18 +28689,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 62, offset: 56723},
+																							pos:        position{line: 1759, col: 62, offset: 56713},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,26 +28713,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1754, col: 5, offset: 56505},
+																			pos:   position{line: 1754, col: 5, offset: 56495},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50361},
+																				pos: position{line: 1560, col: 5, offset: 50351},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50361},
+																					pos: position{line: 1560, col: 5, offset: 50351},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50361},
+																							pos:   position{line: 1560, col: 5, offset: 50351},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50370},
+																								pos: position{line: 1560, col: 14, offset: 50360},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50371},
+																									pos: position{line: 1560, col: 15, offset: 50361},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50371},
+																										pos: position{line: 1560, col: 15, offset: 50361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50371},
+																											pos:        position{line: 1560, col: 15, offset: 50361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28743,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -28788,40 +28788,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 5, offset: 54822},
+																pos: position{line: 1697, col: 5, offset: 54812},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 5, offset: 54822},
+																	pos: position{line: 1697, col: 5, offset: 54812},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1697, col: 5, offset: 54822},
+																			pos:   position{line: 1697, col: 5, offset: 54812},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55148},
+																				pos: position{line: 1705, col: 5, offset: 55138},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55148},
+																					pos: position{line: 1705, col: 5, offset: 55138},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55149},
+																						pos: position{line: 1705, col: 6, offset: 55139},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55149},
+																								pos: position{line: 1705, col: 6, offset: 55139},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55299},
+																									pos: position{line: 1710, col: 5, offset: 55289},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55299},
+																										pos: position{line: 1710, col: 5, offset: 55289},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55299},
+																												pos:   position{line: 1710, col: 5, offset: 55289},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55310},
+																													pos: position{line: 1710, col: 16, offset: 55300},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55310},
+																														pos: position{line: 1710, col: 16, offset: 55300},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55311},
+																															pos:        position{line: 1710, col: 17, offset: 55301},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28830,7 +28830,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55368},
+																												pos: position{line: 1713, col: 5, offset: 55358},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28838,30 +28838,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55178},
+																								pos: position{line: 1705, col: 35, offset: 55168},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,16 +28870,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55183,
+																								line: 1705, col: 40, offset: 55173,
 																							},
 																						},
 																					},
@@ -28887,24 +28887,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 5, offset: 54857},
+																			pos:   position{line: 1698, col: 5, offset: 54847},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55299},
+																				pos: position{line: 1710, col: 5, offset: 55289},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55299},
+																					pos: position{line: 1710, col: 5, offset: 55289},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55299},
+																							pos:   position{line: 1710, col: 5, offset: 55289},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55310},
+																								pos: position{line: 1710, col: 16, offset: 55300},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55310},
+																									pos: position{line: 1710, col: 16, offset: 55300},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55311},
+																										pos:        position{line: 1710, col: 17, offset: 55301},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28913,7 +28913,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55368},
+																							pos: position{line: 1713, col: 5, offset: 55358},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28921,24 +28921,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 54902},
+																			pos:   position{line: 1699, col: 5, offset: 54892},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1721, col: 5, offset: 55617},
+																				pos: position{line: 1721, col: 5, offset: 55607},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1723, col: 9, offset: 55683},
+																						pos: position{line: 1723, col: 9, offset: 55673},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1723, col: 9, offset: 55683},
+																							pos: position{line: 1723, col: 9, offset: 55673},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1723, col: 9, offset: 55683},
+																									pos: position{line: 1723, col: 9, offset: 55673},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28947,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,15 +28977,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1724, col: 9, offset: 55702},
+																									pos: position{line: 1724, col: 9, offset: 55692},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28993,18 +28993,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2980, col: 11, offset: 94198},
+																													pos: position{line: 2980, col: 11, offset: 94188},
 																													expr: &anyMatcher{
-																														line: 2980, col: 13, offset: 94200,
+																														line: 2980, col: 13, offset: 94190,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29013,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29043,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -29058,18 +29058,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1730, col: 9, offset: 55831},
+																						pos: position{line: 1730, col: 9, offset: 55821},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1730, col: 9, offset: 55831},
+																							pos: position{line: 1730, col: 9, offset: 55821},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93925},
+																										pos: position{line: 2967, col: 11, offset: 93915},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93925},
+																											pos:        position{line: 2967, col: 11, offset: 93915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29078,15 +29078,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1731, col: 9, offset: 55904},
+																									pos:   position{line: 1731, col: 9, offset: 55894},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1731, col: 18, offset: 55913},
+																										pos: position{line: 1731, col: 18, offset: 55903},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1731, col: 18, offset: 55913},
+																											pos: position{line: 1731, col: 18, offset: 55903},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1731, col: 18, offset: 55913},
+																												pos:        position{line: 1731, col: 18, offset: 55903},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29096,28 +29096,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29126,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -29149,40 +29149,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1539, col: 11, offset: 49685},
+										pos:  position{line: 1539, col: 11, offset: 49675},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81507},
+										pos: position{line: 2530, col: 22, offset: 81497},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81728},
+													pos:        position{line: 2535, col: 31, offset: 81718},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81733},
+													pos: position{line: 2535, col: 36, offset: 81723},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81734},
+														pos:        position{line: 2535, col: 37, offset: 81724},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81534},
+													pos:   position{line: 2530, col: 49, offset: 81524},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91551},
+														pos: position{line: 2882, col: 13, offset: 91541},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91551},
+																pos:        position{line: 2882, col: 13, offset: 91541},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29192,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29222,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -29233,13 +29233,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1547, col: 5, offset: 49949},
+										pos: position{line: 1547, col: 5, offset: 49939},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1547, col: 5, offset: 49949},
+											pos: position{line: 1547, col: 5, offset: 49939},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1547, col: 5, offset: 49949},
+													pos: position{line: 1547, col: 5, offset: 49939},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -29247,18 +29247,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2980, col: 11, offset: 94198},
+																	pos: position{line: 2980, col: 11, offset: 94188},
 																	expr: &anyMatcher{
-																		line: 2980, col: 13, offset: 94200,
+																		line: 2980, col: 13, offset: 94190,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29267,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29297,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -29309,23 +29309,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1548, col: 5, offset: 49964},
+													pos: position{line: 1548, col: 5, offset: 49954},
 													expr: &seqExpr{
-														pos: position{line: 1578, col: 27, offset: 50948},
+														pos: position{line: 1578, col: 27, offset: 50938},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1578, col: 27, offset: 50948},
+																pos:        position{line: 1578, col: 27, offset: 50938},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1578, col: 31, offset: 50952},
+																pos: position{line: 1578, col: 31, offset: 50942},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29334,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29364,20 +29364,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1549, col: 5, offset: 49992},
+													pos: position{line: 1549, col: 5, offset: 49982},
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52167},
+														pos: position{line: 1620, col: 5, offset: 52157},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52167},
+															pos: position{line: 1620, col: 5, offset: 52157},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52167},
+																	pos: position{line: 1620, col: 5, offset: 52157},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29386,27 +29386,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52174},
+																	pos:   position{line: 1620, col: 12, offset: 52164},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52237},
+																		pos: position{line: 1622, col: 9, offset: 52227},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52237},
+																				pos: position{line: 1622, col: 9, offset: 52227},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52237},
+																					pos: position{line: 1622, col: 9, offset: 52227},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52237},
+																							pos:   position{line: 1622, col: 9, offset: 52227},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52244},
+																								pos: position{line: 1622, col: 16, offset: 52234},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52244},
+																									pos: position{line: 1622, col: 16, offset: 52234},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52245},
+																										pos:        position{line: 1622, col: 17, offset: 52235},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29415,22 +29415,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52345},
+																							pos: position{line: 1626, col: 9, offset: 52335},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53062},
+																				pos: position{line: 1645, col: 11, offset: 53052},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53062},
+																					pos: position{line: 1645, col: 11, offset: 53052},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53062},
+																							pos: position{line: 1645, col: 11, offset: 53052},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53063},
+																								pos:        position{line: 1645, col: 12, offset: 53053},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29438,7 +29438,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53071},
+																							pos:        position{line: 1645, col: 20, offset: 53061},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29447,20 +29447,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53188},
+																				pos: position{line: 1647, col: 13, offset: 53178},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53188},
+																					pos: position{line: 1647, col: 13, offset: 53178},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53189},
+																							pos:        position{line: 1647, col: 14, offset: 53179},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53196},
+																							pos:        position{line: 1647, col: 21, offset: 53186},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29469,20 +29469,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53316},
+																				pos: position{line: 1649, col: 13, offset: 53306},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53316},
+																					pos: position{line: 1649, col: 13, offset: 53306},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53317},
+																							pos:        position{line: 1649, col: 14, offset: 53307},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53324},
+																							pos:        position{line: 1649, col: 21, offset: 53314},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29491,15 +29491,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53444},
+																				pos: position{line: 1651, col: 13, offset: 53434},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53444},
+																					pos: position{line: 1651, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53444},
+																							pos: position{line: 1651, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53445},
+																								pos:        position{line: 1651, col: 14, offset: 53435},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29507,7 +29507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53457},
+																							pos:        position{line: 1651, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29516,15 +29516,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53577},
+																				pos: position{line: 1653, col: 13, offset: 53567},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53577},
+																					pos: position{line: 1653, col: 13, offset: 53567},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53577},
+																							pos: position{line: 1653, col: 13, offset: 53567},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53578},
+																								pos:        position{line: 1653, col: 14, offset: 53568},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29532,7 +29532,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53590},
+																							pos:        position{line: 1653, col: 26, offset: 53580},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29544,12 +29544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29562,20 +29562,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1550, col: 5, offset: 50022},
+													pos: position{line: 1550, col: 5, offset: 50012},
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54129},
+														pos: position{line: 1670, col: 5, offset: 54119},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54129},
+															pos: position{line: 1670, col: 5, offset: 54119},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54129},
+																	pos: position{line: 1670, col: 5, offset: 54119},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29584,24 +29584,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54141},
+																	pos:   position{line: 1671, col: 5, offset: 54131},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54157},
+																		pos: position{line: 1672, col: 9, offset: 54147},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54158},
+																			pos: position{line: 1672, col: 10, offset: 54148},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54159},
+																					pos:        position{line: 1672, col: 11, offset: 54149},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54166},
+																					pos: position{line: 1672, col: 18, offset: 54156},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54167},
+																						pos:        position{line: 1672, col: 19, offset: 54157},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29612,16 +29612,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54257},
+																	pos: position{line: 1675, col: 7, offset: 54247},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29634,29 +29634,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1551, col: 5, offset: 50054},
+													pos: position{line: 1551, col: 5, offset: 50044},
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56666},
+														pos: position{line: 1759, col: 5, offset: 56656},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56666},
+															pos: position{line: 1759, col: 5, offset: 56656},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56666},
+																	pos:        position{line: 1759, col: 5, offset: 56656},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56670},
+																	pos:   position{line: 1759, col: 9, offset: 56660},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56675},
+																		pos: position{line: 1759, col: 14, offset: 56665},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56675},
+																			pos: position{line: 1759, col: 14, offset: 56665},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56675},
+																				pos:        position{line: 1759, col: 14, offset: 56665},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29666,18 +29666,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56723},
+																	pos:        position{line: 1759, col: 62, offset: 56713},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29690,36 +29690,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1552, col: 5, offset: 50084},
+													pos: position{line: 1552, col: 5, offset: 50074},
 													expr: &seqExpr{
-														pos: position{line: 1552, col: 7, offset: 50086},
+														pos: position{line: 1552, col: 7, offset: 50076},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1705, col: 5, offset: 55148},
+																pos: position{line: 1705, col: 5, offset: 55138},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1705, col: 5, offset: 55148},
+																	pos: position{line: 1705, col: 5, offset: 55138},
 																	expr: &seqExpr{
-																		pos: position{line: 1705, col: 6, offset: 55149},
+																		pos: position{line: 1705, col: 6, offset: 55139},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1705, col: 6, offset: 55149},
+																				pos: position{line: 1705, col: 6, offset: 55139},
 																				expr: &actionExpr{
-																					pos: position{line: 1710, col: 5, offset: 55299},
+																					pos: position{line: 1710, col: 5, offset: 55289},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1710, col: 5, offset: 55299},
+																						pos: position{line: 1710, col: 5, offset: 55289},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1710, col: 5, offset: 55299},
+																								pos:   position{line: 1710, col: 5, offset: 55289},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 16, offset: 55310},
+																									pos: position{line: 1710, col: 16, offset: 55300},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1710, col: 16, offset: 55310},
+																										pos: position{line: 1710, col: 16, offset: 55300},
 																										expr: &litMatcher{
-																											pos:        position{line: 1710, col: 17, offset: 55311},
+																											pos:        position{line: 1710, col: 17, offset: 55301},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29728,7 +29728,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1713, col: 5, offset: 55368},
+																								pos: position{line: 1713, col: 5, offset: 55358},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29736,30 +29736,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1705, col: 35, offset: 55178},
+																				pos: position{line: 1705, col: 35, offset: 55168},
 																				expr: &choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,37 +29768,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1705, col: 40, offset: 55183,
+																				line: 1705, col: 40, offset: 55173,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55299},
+																pos: position{line: 1710, col: 5, offset: 55289},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55299},
+																	pos: position{line: 1710, col: 5, offset: 55289},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55299},
+																			pos:   position{line: 1710, col: 5, offset: 55289},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 16, offset: 55310},
+																				pos: position{line: 1710, col: 16, offset: 55300},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1710, col: 16, offset: 55310},
+																					pos: position{line: 1710, col: 16, offset: 55300},
 																					expr: &litMatcher{
-																						pos:        position{line: 1710, col: 17, offset: 55311},
+																						pos:        position{line: 1710, col: 17, offset: 55301},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29807,20 +29807,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1713, col: 5, offset: 55368},
+																			pos: position{line: 1713, col: 5, offset: 55358},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1552, col: 59, offset: 50138},
+																pos: position{line: 1552, col: 59, offset: 50128},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29828,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29855,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -29866,9 +29866,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1553, col: 5, offset: 50156},
+													pos: position{line: 1553, col: 5, offset: 50146},
 													expr: &choiceExpr{
-														pos: position{line: 1553, col: 7, offset: 50158},
+														pos: position{line: 1553, col: 7, offset: 50148},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29879,7 +29879,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 13, offset: 89812},
+																				pos:        position{line: 2817, col: 13, offset: 89802},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29929,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29941,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29971,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30018,10 +30018,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30030,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30060,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30103,10 +30103,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30115,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30145,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30192,10 +30192,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30204,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30234,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30281,10 +30281,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30293,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30323,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30370,10 +30370,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30382,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30412,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30459,10 +30459,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30471,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30501,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30548,10 +30548,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30560,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30590,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30637,10 +30637,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30649,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30679,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -30718,10 +30718,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30730,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30760,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -30771,21 +30771,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2665, col: 19, offset: 85264},
+																pos: position{line: 2665, col: 19, offset: 85254},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2665, col: 19, offset: 85264},
+																		pos:        position{line: 2665, col: 19, offset: 85254},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2665, col: 26, offset: 85271},
+																		pos: position{line: 2665, col: 26, offset: 85261},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30794,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30824,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -30837,15 +30837,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1554, col: 5, offset: 50216},
+													pos:   position{line: 1554, col: 5, offset: 50206},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 14, offset: 91618},
+														pos: position{line: 2886, col: 14, offset: 91608},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 14, offset: 91618},
+															pos: position{line: 2886, col: 14, offset: 91608},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 14, offset: 91618},
+																pos:        position{line: 2886, col: 14, offset: 91608},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30855,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30885,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -30904,28 +30904,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1570, col: 1, offset: 50607},
+			pos:  position{line: 1570, col: 1, offset: 50597},
 			expr: &actionExpr{
-				pos: position{line: 1571, col: 5, offset: 50632},
+				pos: position{line: 1571, col: 5, offset: 50622},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1571, col: 5, offset: 50632},
+					pos: position{line: 1571, col: 5, offset: 50622},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1571, col: 5, offset: 50632},
+							pos:   position{line: 1571, col: 5, offset: 50622},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1571, col: 12, offset: 50639},
+								pos: position{line: 1571, col: 12, offset: 50629},
 								expr: &seqExpr{
-									pos: position{line: 1571, col: 13, offset: 50640},
+									pos: position{line: 1571, col: 13, offset: 50630},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1571, col: 13, offset: 50640},
+											pos: position{line: 1571, col: 13, offset: 50630},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93864},
+												pos: position{line: 2963, col: 10, offset: 93854},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93864},
+													pos:        position{line: 2963, col: 10, offset: 93854},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30934,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2972, col: 12, offset: 94035},
+											pos: position{line: 2972, col: 12, offset: 94025},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2972, col: 13, offset: 94036},
+												pos: position{line: 2972, col: 13, offset: 94026},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2972, col: 13, offset: 94036},
+														pos:        position{line: 2972, col: 13, offset: 94026},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2972, col: 20, offset: 94043},
+														pos:        position{line: 2972, col: 20, offset: 94033},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2972, col: 29, offset: 94052},
+														pos:        position{line: 2972, col: 29, offset: 94042},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30965,18 +30965,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1572, col: 5, offset: 50662},
+							pos:        position{line: 1572, col: 5, offset: 50652},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1572, col: 9, offset: 50666},
+							pos: position{line: 1572, col: 9, offset: 50656},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +30985,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,31 +31015,31 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1573, col: 5, offset: 50681},
+							pos:   position{line: 1573, col: 5, offset: 50671},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1573, col: 13, offset: 50689},
+								pos: position{line: 1573, col: 13, offset: 50679},
 								expr: &choiceExpr{
-									pos: position{line: 1573, col: 14, offset: 50690},
+									pos: position{line: 1573, col: 14, offset: 50680},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1573, col: 14, offset: 50690},
+											pos: position{line: 1573, col: 14, offset: 50680},
 											run: (*parser).callonListContinuation29,
 											expr: &seqExpr{
-												pos: position{line: 1573, col: 14, offset: 50690},
+												pos: position{line: 1573, col: 14, offset: 50680},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1573, col: 14, offset: 50690},
+														pos: position{line: 1573, col: 14, offset: 50680},
 														expr: &choiceExpr{
-															pos: position{line: 1573, col: 15, offset: 50691},
+															pos: position{line: 1573, col: 15, offset: 50681},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -31048,18 +31048,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2980, col: 11, offset: 94198},
+																				pos: position{line: 2980, col: 11, offset: 94188},
 																				expr: &anyMatcher{
-																					line: 2980, col: 13, offset: 94200,
+																					line: 2980, col: 13, offset: 94190,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonListContinuation38,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -31068,28 +31068,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuation41,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31098,9 +31098,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -31109,36 +31109,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2530, col: 22, offset: 81507},
+																	pos: position{line: 2530, col: 22, offset: 81497},
 																	run: (*parser).callonListContinuation48,
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 22, offset: 81507},
+																		pos: position{line: 2530, col: 22, offset: 81497},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2535, col: 31, offset: 81728},
+																				pos:        position{line: 2535, col: 31, offset: 81718},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2535, col: 36, offset: 81733},
+																				pos: position{line: 2535, col: 36, offset: 81723},
 																				expr: &litMatcher{
-																					pos:        position{line: 2535, col: 37, offset: 81734},
+																					pos:        position{line: 2535, col: 37, offset: 81724},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2530, col: 49, offset: 81534},
+																				pos:   position{line: 2530, col: 49, offset: 81524},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 13, offset: 91551},
+																					pos: position{line: 2882, col: 13, offset: 91541},
 																					run: (*parser).callonListContinuation54,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2882, col: 13, offset: 91551},
+																						pos: position{line: 2882, col: 13, offset: 91541},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91551},
+																							pos:        position{line: 2882, col: 13, offset: 91541},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -31148,28 +31148,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuation58,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31178,9 +31178,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -31192,10 +31192,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1573, col: 47, offset: 50723},
+														pos:   position{line: 1573, col: 47, offset: 50713},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1573, col: 49, offset: 50725},
+															pos:  position{line: 1573, col: 49, offset: 50715},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31203,13 +31203,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1573, col: 93, offset: 50769},
+											pos: position{line: 1573, col: 93, offset: 50759},
 											run: (*parser).callonListContinuation67,
 											expr: &seqExpr{
-												pos: position{line: 1573, col: 93, offset: 50769},
+												pos: position{line: 1573, col: 93, offset: 50759},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1573, col: 93, offset: 50769},
+														pos: position{line: 1573, col: 93, offset: 50759},
 														expr: &actionExpr{
 															pos: position{line: 697, col: 14, offset: 22135},
 															run: (*parser).callonListContinuation70,
@@ -31217,18 +31217,18 @@ var g = &grammar{
 																pos: position{line: 697, col: 14, offset: 22135},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2980, col: 11, offset: 94198},
+																		pos: position{line: 2980, col: 11, offset: 94188},
 																		expr: &anyMatcher{
-																			line: 2980, col: 13, offset: 94200,
+																			line: 2980, col: 13, offset: 94190,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 697, col: 21, offset: 22142},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonListContinuation75,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31237,28 +31237,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonListContinuation78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -31267,9 +31267,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -31279,10 +31279,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1573, col: 104, offset: 50780},
+														pos:   position{line: 1573, col: 104, offset: 50770},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1573, col: 106, offset: 50782},
+															pos:  position{line: 1573, col: 106, offset: 50772},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31299,46 +31299,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1580, col: 1, offset: 50968},
+			pos:  position{line: 1580, col: 1, offset: 50958},
 			expr: &actionExpr{
-				pos: position{line: 1581, col: 5, offset: 51014},
+				pos: position{line: 1581, col: 5, offset: 51004},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1581, col: 5, offset: 51014},
+					pos: position{line: 1581, col: 5, offset: 51004},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1582, col: 5, offset: 51042},
+							pos: position{line: 1582, col: 5, offset: 51032},
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 5, offset: 48881},
+								pos: position{line: 1519, col: 5, offset: 48871},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1613, col: 5, offset: 51959},
+										pos: position{line: 1613, col: 5, offset: 51949},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1613, col: 5, offset: 51959},
+											pos: position{line: 1613, col: 5, offset: 51949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1613, col: 5, offset: 51959},
+													pos:   position{line: 1613, col: 5, offset: 51949},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52167},
+														pos: position{line: 1620, col: 5, offset: 52157},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52167},
+															pos: position{line: 1620, col: 5, offset: 52157},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52167},
+																	pos: position{line: 1620, col: 5, offset: 52157},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31347,27 +31347,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52174},
+																	pos:   position{line: 1620, col: 12, offset: 52164},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52237},
+																		pos: position{line: 1622, col: 9, offset: 52227},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52237},
+																				pos: position{line: 1622, col: 9, offset: 52227},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52237},
+																					pos: position{line: 1622, col: 9, offset: 52227},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52237},
+																							pos:   position{line: 1622, col: 9, offset: 52227},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52244},
+																								pos: position{line: 1622, col: 16, offset: 52234},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52244},
+																									pos: position{line: 1622, col: 16, offset: 52234},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52245},
+																										pos:        position{line: 1622, col: 17, offset: 52235},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31376,22 +31376,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52345},
+																							pos: position{line: 1626, col: 9, offset: 52335},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53062},
+																				pos: position{line: 1645, col: 11, offset: 53052},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53062},
+																					pos: position{line: 1645, col: 11, offset: 53052},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53062},
+																							pos: position{line: 1645, col: 11, offset: 53052},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53063},
+																								pos:        position{line: 1645, col: 12, offset: 53053},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31399,7 +31399,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53071},
+																							pos:        position{line: 1645, col: 20, offset: 53061},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31408,20 +31408,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53188},
+																				pos: position{line: 1647, col: 13, offset: 53178},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53188},
+																					pos: position{line: 1647, col: 13, offset: 53178},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53189},
+																							pos:        position{line: 1647, col: 14, offset: 53179},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53196},
+																							pos:        position{line: 1647, col: 21, offset: 53186},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31430,20 +31430,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53316},
+																				pos: position{line: 1649, col: 13, offset: 53306},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53316},
+																					pos: position{line: 1649, col: 13, offset: 53306},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53317},
+																							pos:        position{line: 1649, col: 14, offset: 53307},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53324},
+																							pos:        position{line: 1649, col: 21, offset: 53314},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31452,15 +31452,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53444},
+																				pos: position{line: 1651, col: 13, offset: 53434},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53444},
+																					pos: position{line: 1651, col: 13, offset: 53434},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53444},
+																							pos: position{line: 1651, col: 13, offset: 53434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53445},
+																								pos:        position{line: 1651, col: 14, offset: 53435},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31468,7 +31468,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53457},
+																							pos:        position{line: 1651, col: 26, offset: 53447},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31477,15 +31477,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53577},
+																				pos: position{line: 1653, col: 13, offset: 53567},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53577},
+																					pos: position{line: 1653, col: 13, offset: 53567},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53577},
+																							pos: position{line: 1653, col: 13, offset: 53567},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53578},
+																								pos:        position{line: 1653, col: 14, offset: 53568},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31493,7 +31493,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53590},
+																							pos:        position{line: 1653, col: 26, offset: 53580},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31505,12 +31505,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31523,26 +31523,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1614, col: 5, offset: 51998},
+													pos:   position{line: 1614, col: 5, offset: 51988},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31553,28 +31553,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31583,9 +31583,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -31598,27 +31598,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53856},
+										pos: position{line: 1663, col: 5, offset: 53846},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53856},
+											pos: position{line: 1663, col: 5, offset: 53846},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53856},
+													pos:   position{line: 1663, col: 5, offset: 53846},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54129},
+														pos: position{line: 1670, col: 5, offset: 54119},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54129},
+															pos: position{line: 1670, col: 5, offset: 54119},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54129},
+																	pos: position{line: 1670, col: 5, offset: 54119},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31627,24 +31627,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54141},
+																	pos:   position{line: 1671, col: 5, offset: 54131},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54157},
+																		pos: position{line: 1672, col: 9, offset: 54147},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54158},
+																			pos: position{line: 1672, col: 10, offset: 54148},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54159},
+																					pos:        position{line: 1672, col: 11, offset: 54149},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54166},
+																					pos: position{line: 1672, col: 18, offset: 54156},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54167},
+																						pos:        position{line: 1672, col: 19, offset: 54157},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31655,16 +31655,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54257},
+																	pos: position{line: 1675, col: 7, offset: 54247},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31677,56 +31677,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53897},
+													pos:   position{line: 1664, col: 5, offset: 53887},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1664, col: 16, offset: 53908},
+														pos: position{line: 1664, col: 16, offset: 53898},
 														expr: &actionExpr{
-															pos: position{line: 1685, col: 5, offset: 54522},
+															pos: position{line: 1685, col: 5, offset: 54512},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1685, col: 5, offset: 54522},
+																pos: position{line: 1685, col: 5, offset: 54512},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1685, col: 5, offset: 54522},
+																		pos: position{line: 1685, col: 5, offset: 54512},
 																		expr: &litMatcher{
-																			pos:        position{line: 1685, col: 6, offset: 54523},
+																			pos:        position{line: 1685, col: 6, offset: 54513},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1685, col: 10, offset: 54527},
+																		pos:   position{line: 1685, col: 10, offset: 54517},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1686, col: 7, offset: 54541},
+																			pos: position{line: 1686, col: 7, offset: 54531},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1686, col: 7, offset: 54541},
+																					pos: position{line: 1686, col: 7, offset: 54531},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1686, col: 7, offset: 54541},
+																						pos:        position{line: 1686, col: 7, offset: 54531},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1687, col: 7, offset: 54586},
+																					pos: position{line: 1687, col: 7, offset: 54576},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 7, offset: 54586},
+																						pos:        position{line: 1687, col: 7, offset: 54576},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1688, col: 7, offset: 54629},
+																					pos: position{line: 1688, col: 7, offset: 54619},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1688, col: 7, offset: 54629},
+																						pos:        position{line: 1688, col: 7, offset: 54619},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31736,12 +31736,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31755,26 +31755,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53947},
+													pos:   position{line: 1665, col: 5, offset: 53937},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31785,28 +31785,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31815,9 +31815,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -31830,36 +31830,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1753, col: 5, offset: 56469},
+										pos: position{line: 1753, col: 5, offset: 56459},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 5, offset: 56469},
+											pos: position{line: 1753, col: 5, offset: 56459},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1753, col: 5, offset: 56469},
+													pos:   position{line: 1753, col: 5, offset: 56459},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56666},
+														pos: position{line: 1759, col: 5, offset: 56656},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56666},
+															pos: position{line: 1759, col: 5, offset: 56656},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56666},
+																	pos:        position{line: 1759, col: 5, offset: 56656},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56670},
+																	pos:   position{line: 1759, col: 9, offset: 56660},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56675},
+																		pos: position{line: 1759, col: 14, offset: 56665},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56675},
+																			pos: position{line: 1759, col: 14, offset: 56665},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56675},
+																				pos:        position{line: 1759, col: 14, offset: 56665},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31869,18 +31869,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56723},
+																	pos:        position{line: 1759, col: 62, offset: 56713},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31893,26 +31893,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1754, col: 5, offset: 56505},
+													pos:   position{line: 1754, col: 5, offset: 56495},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50361},
+														pos: position{line: 1560, col: 5, offset: 50351},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50361},
+															pos: position{line: 1560, col: 5, offset: 50351},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50361},
+																	pos:   position{line: 1560, col: 5, offset: 50351},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50370},
+																		pos: position{line: 1560, col: 14, offset: 50360},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50371},
+																			pos: position{line: 1560, col: 15, offset: 50361},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50371},
+																				pos: position{line: 1560, col: 15, offset: 50361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50371},
+																					pos:        position{line: 1560, col: 15, offset: 50361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31923,28 +31923,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31953,9 +31953,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -31968,40 +31968,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1697, col: 5, offset: 54822},
+										pos: position{line: 1697, col: 5, offset: 54812},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1697, col: 5, offset: 54822},
+											pos: position{line: 1697, col: 5, offset: 54812},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1697, col: 5, offset: 54822},
+													pos:   position{line: 1697, col: 5, offset: 54812},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55148},
+														pos: position{line: 1705, col: 5, offset: 55138},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1705, col: 5, offset: 55148},
+															pos: position{line: 1705, col: 5, offset: 55138},
 															expr: &seqExpr{
-																pos: position{line: 1705, col: 6, offset: 55149},
+																pos: position{line: 1705, col: 6, offset: 55139},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1705, col: 6, offset: 55149},
+																		pos: position{line: 1705, col: 6, offset: 55139},
 																		expr: &actionExpr{
-																			pos: position{line: 1710, col: 5, offset: 55299},
+																			pos: position{line: 1710, col: 5, offset: 55289},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1710, col: 5, offset: 55299},
+																				pos: position{line: 1710, col: 5, offset: 55289},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1710, col: 5, offset: 55299},
+																						pos:   position{line: 1710, col: 5, offset: 55289},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1710, col: 16, offset: 55310},
+																							pos: position{line: 1710, col: 16, offset: 55300},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1710, col: 16, offset: 55310},
+																								pos: position{line: 1710, col: 16, offset: 55300},
 																								expr: &litMatcher{
-																									pos:        position{line: 1710, col: 17, offset: 55311},
+																									pos:        position{line: 1710, col: 17, offset: 55301},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -32010,7 +32010,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1713, col: 5, offset: 55368},
+																						pos: position{line: 1713, col: 5, offset: 55358},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -32018,30 +32018,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1705, col: 35, offset: 55178},
+																		pos: position{line: 1705, col: 35, offset: 55168},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32050,16 +32050,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1705, col: 40, offset: 55183,
+																		line: 1705, col: 40, offset: 55173,
 																	},
 																},
 															},
@@ -32067,24 +32067,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1698, col: 5, offset: 54857},
+													pos:   position{line: 1698, col: 5, offset: 54847},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1710, col: 5, offset: 55299},
+														pos: position{line: 1710, col: 5, offset: 55289},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1710, col: 5, offset: 55299},
+															pos: position{line: 1710, col: 5, offset: 55289},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1710, col: 5, offset: 55299},
+																	pos:   position{line: 1710, col: 5, offset: 55289},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1710, col: 16, offset: 55310},
+																		pos: position{line: 1710, col: 16, offset: 55300},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1710, col: 16, offset: 55310},
+																			pos: position{line: 1710, col: 16, offset: 55300},
 																			expr: &litMatcher{
-																				pos:        position{line: 1710, col: 17, offset: 55311},
+																				pos:        position{line: 1710, col: 17, offset: 55301},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -32093,7 +32093,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1713, col: 5, offset: 55368},
+																	pos: position{line: 1713, col: 5, offset: 55358},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -32101,24 +32101,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1699, col: 5, offset: 54902},
+													pos:   position{line: 1699, col: 5, offset: 54892},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1721, col: 5, offset: 55617},
+														pos: position{line: 1721, col: 5, offset: 55607},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1723, col: 9, offset: 55683},
+																pos: position{line: 1723, col: 9, offset: 55673},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 9, offset: 55683},
+																	pos: position{line: 1723, col: 9, offset: 55673},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1723, col: 9, offset: 55683},
+																			pos: position{line: 1723, col: 9, offset: 55673},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
+																				pos: position{line: 2963, col: 10, offset: 93854},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32127,28 +32127,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32157,15 +32157,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1724, col: 9, offset: 55702},
+																			pos: position{line: 1724, col: 9, offset: 55692},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -32173,18 +32173,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94198},
+																							pos: position{line: 2980, col: 11, offset: 94188},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94200,
+																								line: 2980, col: 13, offset: 94190,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32193,28 +32193,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32223,9 +32223,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -32238,18 +32238,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 9, offset: 55831},
+																pos: position{line: 1730, col: 9, offset: 55821},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 9, offset: 55831},
+																	pos: position{line: 1730, col: 9, offset: 55821},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2967, col: 11, offset: 93925},
+																				pos: position{line: 2967, col: 11, offset: 93915},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2967, col: 11, offset: 93925},
+																					pos:        position{line: 2967, col: 11, offset: 93915},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32258,15 +32258,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 9, offset: 55904},
+																			pos:   position{line: 1731, col: 9, offset: 55894},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1731, col: 18, offset: 55913},
+																				pos: position{line: 1731, col: 18, offset: 55903},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1731, col: 18, offset: 55913},
+																					pos: position{line: 1731, col: 18, offset: 55903},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1731, col: 18, offset: 55913},
+																						pos:        position{line: 1731, col: 18, offset: 55903},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32276,28 +32276,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32306,9 +32306,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -32326,21 +32326,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1583, col: 5, offset: 51059},
+							pos:   position{line: 1583, col: 5, offset: 51049},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1583, col: 16, offset: 51070},
+								pos: position{line: 1583, col: 16, offset: 51060},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1583, col: 17, offset: 51071},
+									pos:  position{line: 1583, col: 17, offset: 51061},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1584, col: 5, offset: 51093},
+							pos:   position{line: 1584, col: 5, offset: 51083},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1585, col: 9, offset: 51111},
+								pos: position{line: 1585, col: 9, offset: 51101},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32349,18 +32349,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2980, col: 11, offset: 94198},
+													pos: position{line: 2980, col: 11, offset: 94188},
 													expr: &anyMatcher{
-														line: 2980, col: 13, offset: 94200,
+														line: 2980, col: 13, offset: 94190,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32369,28 +32369,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32399,9 +32399,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -32410,7 +32410,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1586, col: 11, offset: 51131},
+										pos:  position{line: 1586, col: 11, offset: 51121},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32466,10 +32466,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32478,28 +32478,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32508,9 +32508,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -32571,10 +32571,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32583,28 +32583,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32613,9 +32613,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -32669,10 +32669,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32681,28 +32681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32711,9 +32711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -32785,10 +32785,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32797,28 +32797,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32827,9 +32827,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -32845,9 +32845,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -32863,21 +32863,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32887,28 +32887,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32917,9 +32917,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -32981,10 +32981,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32993,28 +32993,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33023,9 +33023,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -33041,9 +33041,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -33098,10 +33098,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33110,28 +33110,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33140,9 +33140,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -33214,10 +33214,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33226,28 +33226,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33256,9 +33256,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -33292,21 +33292,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33316,28 +33316,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33346,9 +33346,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -33413,10 +33413,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33425,28 +33425,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33455,9 +33455,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -33473,9 +33473,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -33527,10 +33527,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33539,28 +33539,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33569,9 +33569,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -33605,10 +33605,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33617,28 +33617,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33647,9 +33647,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -33667,21 +33667,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33691,28 +33691,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33721,9 +33721,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -33751,10 +33751,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33763,28 +33763,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33793,9 +33793,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -33852,10 +33852,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33864,28 +33864,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33894,9 +33894,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -33968,10 +33968,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33980,28 +33980,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34010,9 +34010,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -34028,9 +34028,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -34046,21 +34046,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34070,28 +34070,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34100,9 +34100,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -34167,10 +34167,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34179,28 +34179,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34209,9 +34209,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -34227,9 +34227,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -34285,10 +34285,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34297,28 +34297,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34327,9 +34327,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -34401,10 +34401,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34413,28 +34413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34443,9 +34443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -34461,9 +34461,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -34479,21 +34479,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34503,28 +34503,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34533,9 +34533,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -34600,10 +34600,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34612,28 +34612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34642,9 +34642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -34660,9 +34660,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -34718,10 +34718,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34730,28 +34730,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34760,9 +34760,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -34834,10 +34834,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34846,28 +34846,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34876,9 +34876,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -34894,9 +34894,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -34912,21 +34912,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34936,28 +34936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34966,9 +34966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -35033,10 +35033,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35045,28 +35045,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35075,9 +35075,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -35093,9 +35093,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -35129,18 +35129,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94198},
+																					pos: position{line: 2980, col: 11, offset: 94188},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94200,
+																						line: 2980, col: 13, offset: 94190,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -35149,28 +35149,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35179,9 +35179,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -35200,12 +35200,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 14, offset: 91618},
+																		pos: position{line: 2886, col: 14, offset: 91608},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2886, col: 14, offset: 91618},
+																			pos: position{line: 2886, col: 14, offset: 91608},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 14, offset: 91618},
+																				pos:        position{line: 2886, col: 14, offset: 91608},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35215,28 +35215,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35245,9 +35245,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -35279,18 +35279,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2980, col: 11, offset: 94198},
+																								pos: position{line: 2980, col: 11, offset: 94188},
 																								expr: &anyMatcher{
-																									line: 2980, col: 13, offset: 94200,
+																									line: 2980, col: 13, offset: 94190,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35299,28 +35299,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35329,9 +35329,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -35350,12 +35350,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 14, offset: 91618},
+																					pos: position{line: 2886, col: 14, offset: 91608},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2886, col: 14, offset: 91618},
+																						pos: position{line: 2886, col: 14, offset: 91608},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 14, offset: 91618},
+																							pos:        position{line: 2886, col: 14, offset: 91608},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35365,28 +35365,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35395,9 +35395,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -35406,21 +35406,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1828, col: 5, offset: 59065},
+																	pos: position{line: 1828, col: 5, offset: 59055},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1828, col: 5, offset: 59065},
+																		pos: position{line: 1828, col: 5, offset: 59055},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1828, col: 5, offset: 59065},
+																				pos:   position{line: 1828, col: 5, offset: 59055},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 14, offset: 91618},
+																					pos: position{line: 2886, col: 14, offset: 91608},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2886, col: 14, offset: 91618},
+																						pos: position{line: 2886, col: 14, offset: 91608},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 14, offset: 91618},
+																							pos:        position{line: 2886, col: 14, offset: 91608},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35430,32 +35430,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1829, col: 5, offset: 59089},
+																				pos: position{line: 1829, col: 5, offset: 59079},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35464,9 +35464,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -35513,10 +35513,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35525,28 +35525,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35555,9 +35555,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -35605,10 +35605,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35617,28 +35617,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35647,9 +35647,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -35658,9 +35658,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -35676,21 +35676,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35700,28 +35700,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35730,9 +35730,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -35777,10 +35777,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35789,28 +35789,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35819,9 +35819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -35830,9 +35830,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -35888,10 +35888,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35900,28 +35900,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35930,9 +35930,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -36004,10 +36004,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36016,28 +36016,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36046,9 +36046,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -36064,9 +36064,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -36082,21 +36082,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36106,28 +36106,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36136,9 +36136,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -36203,10 +36203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36215,28 +36215,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36245,9 +36245,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -36263,9 +36263,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -36321,10 +36321,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36333,28 +36333,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36363,9 +36363,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -36437,10 +36437,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36449,28 +36449,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36479,9 +36479,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -36497,9 +36497,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -36515,21 +36515,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36539,28 +36539,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36569,9 +36569,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -36636,10 +36636,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36648,28 +36648,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36678,9 +36678,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -36696,9 +36696,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -36754,10 +36754,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36766,28 +36766,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36796,9 +36796,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -36870,10 +36870,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93864},
+																												pos: position{line: 2963, col: 10, offset: 93854},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93864},
+																													pos:        position{line: 2963, col: 10, offset: 93854},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36882,28 +36882,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94262},
+																											pos: position{line: 2985, col: 8, offset: 94252},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94035},
+																													pos: position{line: 2972, col: 12, offset: 94025},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94036},
+																														pos: position{line: 2972, col: 13, offset: 94026},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36912,9 +36912,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94212},
+																													pos: position{line: 2982, col: 8, offset: 94202},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94213,
+																														line: 2982, col: 9, offset: 94203,
 																													},
 																												},
 																											},
@@ -36930,9 +36930,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -36948,21 +36948,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94198},
+																						pos: position{line: 2980, col: 11, offset: 94188},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94200,
+																							line: 2980, col: 13, offset: 94190,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91551},
+																							pos: position{line: 2882, col: 13, offset: 91541},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91551},
+																								pos: position{line: 2882, col: 13, offset: 91541},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91551},
+																									pos:        position{line: 2882, col: 13, offset: 91541},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36972,28 +36972,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37002,9 +37002,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -37069,10 +37069,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37081,28 +37081,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -37111,9 +37111,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -37129,9 +37129,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -37142,27 +37142,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2768, col: 18, offset: 88171},
+										pos: position{line: 2768, col: 18, offset: 88161},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2769, col: 9, offset: 88181},
+											pos: position{line: 2769, col: 9, offset: 88171},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2769, col: 9, offset: 88181},
+													pos: position{line: 2769, col: 9, offset: 88171},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2769, col: 9, offset: 88181},
+															pos:        position{line: 2769, col: 9, offset: 88171},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2769, col: 15, offset: 88187},
+															pos: position{line: 2769, col: 15, offset: 88177},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37171,28 +37171,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94262},
+															pos: position{line: 2985, col: 8, offset: 94252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94035},
+																	pos: position{line: 2972, col: 12, offset: 94025},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94036},
+																		pos: position{line: 2972, col: 13, offset: 94026},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94036},
+																				pos:        position{line: 2972, col: 13, offset: 94026},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94043},
+																				pos:        position{line: 2972, col: 20, offset: 94033},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94052},
+																				pos:        position{line: 2972, col: 29, offset: 94042},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37201,9 +37201,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -37211,43 +37211,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2770, col: 11, offset: 88220},
+													pos: position{line: 2770, col: 11, offset: 88210},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2770, col: 12, offset: 88221},
+															pos: position{line: 2770, col: 12, offset: 88211},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2770, col: 12, offset: 88221},
+																	pos:        position{line: 2770, col: 12, offset: 88211},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 20, offset: 88229},
+																	pos:        position{line: 2770, col: 20, offset: 88219},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 30, offset: 88239},
+																	pos:        position{line: 2770, col: 30, offset: 88229},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 38, offset: 88247},
+																	pos:        position{line: 2770, col: 38, offset: 88237},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 48, offset: 88257},
+																	pos:        position{line: 2770, col: 48, offset: 88247},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 56, offset: 88265},
+																	pos:        position{line: 2770, col: 56, offset: 88255},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37255,12 +37255,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2770, col: 65, offset: 88274},
+															pos: position{line: 2770, col: 65, offset: 88264},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37269,28 +37269,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94262},
+															pos: position{line: 2985, col: 8, offset: 94252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94035},
+																	pos: position{line: 2972, col: 12, offset: 94025},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94036},
+																		pos: position{line: 2972, col: 13, offset: 94026},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94036},
+																				pos:        position{line: 2972, col: 13, offset: 94026},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94043},
+																				pos:        position{line: 2972, col: 20, offset: 94033},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94052},
+																				pos:        position{line: 2972, col: 29, offset: 94042},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37299,38 +37299,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2770, col: 76, offset: 88285},
+															pos: position{line: 2770, col: 76, offset: 88275},
 															expr: &choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37339,9 +37339,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -37353,32 +37353,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1590, col: 11, offset: 51273},
+										pos:  position{line: 1590, col: 11, offset: 51263},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1591, col: 11, offset: 51294},
+										pos:  position{line: 1591, col: 11, offset: 51284},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2659, col: 5, offset: 85107},
+										pos: position{line: 2659, col: 5, offset: 85097},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2659, col: 5, offset: 85107},
+											pos: position{line: 2659, col: 5, offset: 85097},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2665, col: 19, offset: 85264},
+													pos:        position{line: 2665, col: 19, offset: 85254},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2665, col: 26, offset: 85271},
+													pos: position{line: 2665, col: 26, offset: 85261},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37387,28 +37387,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37417,20 +37417,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2660, col: 5, offset: 85131},
+													pos:   position{line: 2660, col: 5, offset: 85121},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2660, col: 11, offset: 85137},
+														pos: position{line: 2660, col: 11, offset: 85127},
 														expr: &choiceExpr{
-															pos: position{line: 2660, col: 12, offset: 85138},
+															pos: position{line: 2660, col: 12, offset: 85128},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37439,18 +37439,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2980, col: 11, offset: 94198},
+																				pos: position{line: 2980, col: 11, offset: 94188},
 																				expr: &anyMatcher{
-																					line: 2980, col: 13, offset: 94200,
+																					line: 2980, col: 13, offset: 94190,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37459,28 +37459,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94262},
+																				pos: position{line: 2985, col: 8, offset: 94252},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37489,9 +37489,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -37500,32 +37500,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2672, col: 5, offset: 85383},
+																	pos: position{line: 2672, col: 5, offset: 85373},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2672, col: 5, offset: 85383},
+																		pos: position{line: 2672, col: 5, offset: 85373},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2672, col: 5, offset: 85383},
+																				pos: position{line: 2672, col: 5, offset: 85373},
 																				expr: &choiceExpr{
-																					pos: position{line: 2669, col: 22, offset: 85344},
+																					pos: position{line: 2669, col: 22, offset: 85334},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2665, col: 19, offset: 85264},
+																							pos: position{line: 2665, col: 19, offset: 85254},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2665, col: 19, offset: 85264},
+																									pos:        position{line: 2665, col: 19, offset: 85254},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2665, col: 26, offset: 85271},
+																									pos: position{line: 2665, col: 26, offset: 85261},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93864},
+																										pos: position{line: 2963, col: 10, offset: 93854},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93864},
+																											pos:        position{line: 2963, col: 10, offset: 93854},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37534,28 +37534,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37564,9 +37564,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
@@ -37574,59 +37574,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2673, col: 5, offset: 85406},
+																				pos:   position{line: 2673, col: 5, offset: 85396},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2674, col: 9, offset: 85424},
+																					pos: position{line: 2674, col: 9, offset: 85414},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2674, col: 10, offset: 85425},
+																							pos: position{line: 2674, col: 10, offset: 85415},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2674, col: 10, offset: 85425},
+																								pos:   position{line: 2674, col: 10, offset: 85415},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2674, col: 17, offset: 85432},
+																									pos: position{line: 2674, col: 17, offset: 85422},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2682, col: 21, offset: 85628},
+																											pos: position{line: 2682, col: 21, offset: 85618},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2682, col: 21, offset: 85628},
+																												pos: position{line: 2682, col: 21, offset: 85618},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2682, col: 21, offset: 85628},
+																														pos:   position{line: 2682, col: 21, offset: 85618},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2682, col: 27, offset: 85634},
+																															pos: position{line: 2682, col: 27, offset: 85624},
 																															expr: &actionExpr{
-																																pos: position{line: 2687, col: 5, offset: 85709},
+																																pos: position{line: 2687, col: 5, offset: 85699},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2687, col: 5, offset: 85709},
+																																	pos: position{line: 2687, col: 5, offset: 85699},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2687, col: 5, offset: 85709},
+																																			pos:        position{line: 2687, col: 5, offset: 85699},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2687, col: 9, offset: 85713},
+																																			pos: position{line: 2687, col: 9, offset: 85703},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2963, col: 10, offset: 93864},
+																																				pos: position{line: 2963, col: 10, offset: 93854},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2963, col: 10, offset: 93864},
+																																					pos:        position{line: 2963, col: 10, offset: 93854},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37635,21 +37635,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2687, col: 16, offset: 85720},
+																																			pos:   position{line: 2687, col: 16, offset: 85710},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2693, col: 5, offset: 85920},
+																																				pos: position{line: 2693, col: 5, offset: 85910},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2693, col: 5, offset: 85920},
+																																					pos:   position{line: 2693, col: 5, offset: 85910},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2693, col: 14, offset: 85929},
+																																						pos: position{line: 2693, col: 14, offset: 85919},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2693, col: 14, offset: 85929},
+																																							pos: position{line: 2693, col: 14, offset: 85919},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2693, col: 14, offset: 85929},
+																																								pos:        position{line: 2693, col: 14, offset: 85919},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37666,28 +37666,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2985, col: 8, offset: 94262},
+																														pos: position{line: 2985, col: 8, offset: 94252},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2972, col: 12, offset: 94035},
+																																pos: position{line: 2972, col: 12, offset: 94025},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2972, col: 13, offset: 94036},
+																																	pos: position{line: 2972, col: 13, offset: 94026},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 13, offset: 94036},
+																																			pos:        position{line: 2972, col: 13, offset: 94026},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 20, offset: 94043},
+																																			pos:        position{line: 2972, col: 20, offset: 94033},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 29, offset: 94052},
+																																			pos:        position{line: 2972, col: 29, offset: 94042},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37696,9 +37696,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2982, col: 8, offset: 94212},
+																																pos: position{line: 2982, col: 8, offset: 94202},
 																																expr: &anyMatcher{
-																																	line: 2982, col: 9, offset: 94213,
+																																	line: 2982, col: 9, offset: 94203,
 																																},
 																															},
 																														},
@@ -37707,40 +37707,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2699, col: 24, offset: 86065},
+																											pos: position{line: 2699, col: 24, offset: 86055},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2699, col: 24, offset: 86065},
+																												pos:   position{line: 2699, col: 24, offset: 86055},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2699, col: 30, offset: 86071},
+																													pos: position{line: 2699, col: 30, offset: 86061},
 																													expr: &actionExpr{
-																														pos: position{line: 2704, col: 5, offset: 86147},
+																														pos: position{line: 2704, col: 5, offset: 86137},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2704, col: 5, offset: 86147},
+																															pos: position{line: 2704, col: 5, offset: 86137},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2704, col: 5, offset: 86147},
+																																	pos: position{line: 2704, col: 5, offset: 86137},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2669, col: 22, offset: 85344},
+																																		pos: position{line: 2669, col: 22, offset: 85334},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2665, col: 19, offset: 85264},
+																																				pos: position{line: 2665, col: 19, offset: 85254},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2665, col: 19, offset: 85264},
+																																						pos:        position{line: 2665, col: 19, offset: 85254},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2665, col: 26, offset: 85271},
+																																						pos: position{line: 2665, col: 26, offset: 85261},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2963, col: 10, offset: 93864},
+																																							pos: position{line: 2963, col: 10, offset: 93854},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2963, col: 10, offset: 93864},
+																																								pos:        position{line: 2963, col: 10, offset: 93854},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37749,28 +37749,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2985, col: 8, offset: 94262},
+																																						pos: position{line: 2985, col: 8, offset: 94252},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2972, col: 12, offset: 94035},
+																																								pos: position{line: 2972, col: 12, offset: 94025},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2972, col: 13, offset: 94036},
+																																									pos: position{line: 2972, col: 13, offset: 94026},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 13, offset: 94036},
+																																											pos:        position{line: 2972, col: 13, offset: 94026},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 20, offset: 94043},
+																																											pos:        position{line: 2972, col: 20, offset: 94033},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 29, offset: 94052},
+																																											pos:        position{line: 2972, col: 29, offset: 94042},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37779,9 +37779,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2982, col: 8, offset: 94212},
+																																								pos: position{line: 2982, col: 8, offset: 94202},
 																																								expr: &anyMatcher{
-																																									line: 2982, col: 9, offset: 94213,
+																																									line: 2982, col: 9, offset: 94203,
 																																								},
 																																							},
 																																						},
@@ -37789,16 +37789,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2982, col: 8, offset: 94212},
+																																				pos: position{line: 2982, col: 8, offset: 94202},
 																																				expr: &anyMatcher{
-																																					line: 2982, col: 9, offset: 94213,
+																																					line: 2982, col: 9, offset: 94203,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2705, col: 5, offset: 86170},
+																																	pos: position{line: 2705, col: 5, offset: 86160},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37806,18 +37806,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2980, col: 11, offset: 94198},
+																																					pos: position{line: 2980, col: 11, offset: 94188},
 																																					expr: &anyMatcher{
-																																						line: 2980, col: 13, offset: 94200,
+																																						line: 2980, col: 13, offset: 94190,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2963, col: 10, offset: 93864},
+																																						pos: position{line: 2963, col: 10, offset: 93854},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2963, col: 10, offset: 93864},
+																																							pos:        position{line: 2963, col: 10, offset: 93854},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37826,28 +37826,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2985, col: 8, offset: 94262},
+																																					pos: position{line: 2985, col: 8, offset: 94252},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2972, col: 12, offset: 94035},
+																																							pos: position{line: 2972, col: 12, offset: 94025},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2972, col: 13, offset: 94036},
+																																								pos: position{line: 2972, col: 13, offset: 94026},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 13, offset: 94036},
+																																										pos:        position{line: 2972, col: 13, offset: 94026},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 20, offset: 94043},
+																																										pos:        position{line: 2972, col: 20, offset: 94033},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 29, offset: 94052},
+																																										pos:        position{line: 2972, col: 29, offset: 94042},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37856,9 +37856,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2982, col: 8, offset: 94212},
+																																							pos: position{line: 2982, col: 8, offset: 94202},
 																																							expr: &anyMatcher{
-																																								line: 2982, col: 9, offset: 94213,
+																																								line: 2982, col: 9, offset: 94203,
 																																							},
 																																						},
 																																					},
@@ -37868,17 +37868,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2706, col: 5, offset: 86185},
+																																	pos:   position{line: 2706, col: 5, offset: 86175},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2706, col: 12, offset: 86192},
+																																		pos: position{line: 2706, col: 12, offset: 86182},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2723, col: 20, offset: 86656},
+																																			pos: position{line: 2723, col: 20, offset: 86646},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2723, col: 20, offset: 86656},
+																																				pos: position{line: 2723, col: 20, offset: 86646},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2723, col: 20, offset: 86656},
+																																					pos:        position{line: 2723, col: 20, offset: 86646},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37889,18 +37889,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2706, col: 31, offset: 86211},
+																																	pos:        position{line: 2706, col: 31, offset: 86201},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2706, col: 35, offset: 86215},
+																																	pos: position{line: 2706, col: 35, offset: 86205},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2963, col: 10, offset: 93864},
+																																		pos: position{line: 2963, col: 10, offset: 93854},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2963, col: 10, offset: 93864},
+																																			pos:        position{line: 2963, col: 10, offset: 93854},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37909,27 +37909,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2706, col: 42, offset: 86222},
+																																	pos: position{line: 2706, col: 42, offset: 86212},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2972, col: 12, offset: 94035},
+																																		pos: position{line: 2972, col: 12, offset: 94025},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2972, col: 13, offset: 94036},
+																																			pos: position{line: 2972, col: 13, offset: 94026},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 13, offset: 94036},
+																																					pos:        position{line: 2972, col: 13, offset: 94026},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 20, offset: 94043},
+																																					pos:        position{line: 2972, col: 20, offset: 94033},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 29, offset: 94052},
+																																					pos:        position{line: 2972, col: 29, offset: 94042},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37939,37 +37939,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2706, col: 51, offset: 86231},
+																																	pos:   position{line: 2706, col: 51, offset: 86221},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2712, col: 5, offset: 86390},
+																																		pos: position{line: 2712, col: 5, offset: 86380},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2713, col: 9, offset: 86400},
+																																			pos: position{line: 2713, col: 9, offset: 86390},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2713, col: 9, offset: 86400},
+																																				pos: position{line: 2713, col: 9, offset: 86390},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2713, col: 9, offset: 86400},
+																																						pos: position{line: 2713, col: 9, offset: 86390},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2669, col: 22, offset: 85344},
+																																							pos: position{line: 2669, col: 22, offset: 85334},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2665, col: 19, offset: 85264},
+																																									pos: position{line: 2665, col: 19, offset: 85254},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2665, col: 19, offset: 85264},
+																																											pos:        position{line: 2665, col: 19, offset: 85254},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2665, col: 26, offset: 85271},
+																																											pos: position{line: 2665, col: 26, offset: 85261},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2963, col: 10, offset: 93864},
+																																												pos: position{line: 2963, col: 10, offset: 93854},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2963, col: 10, offset: 93864},
+																																													pos:        position{line: 2963, col: 10, offset: 93854},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37978,28 +37978,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2985, col: 8, offset: 94262},
+																																											pos: position{line: 2985, col: 8, offset: 94252},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2972, col: 12, offset: 94035},
+																																													pos: position{line: 2972, col: 12, offset: 94025},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2972, col: 13, offset: 94036},
+																																														pos: position{line: 2972, col: 13, offset: 94026},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 13, offset: 94036},
+																																																pos:        position{line: 2972, col: 13, offset: 94026},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 20, offset: 94043},
+																																																pos:        position{line: 2972, col: 20, offset: 94033},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 29, offset: 94052},
+																																																pos:        position{line: 2972, col: 29, offset: 94042},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -38008,9 +38008,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2982, col: 8, offset: 94212},
+																																													pos: position{line: 2982, col: 8, offset: 94202},
 																																													expr: &anyMatcher{
-																																														line: 2982, col: 9, offset: 94213,
+																																														line: 2982, col: 9, offset: 94203,
 																																													},
 																																												},
 																																											},
@@ -38018,16 +38018,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94212},
+																																									pos: position{line: 2982, col: 8, offset: 94202},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94213,
+																																										line: 2982, col: 9, offset: 94203,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2714, col: 9, offset: 86427},
+																																						pos: position{line: 2714, col: 9, offset: 86417},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -38035,18 +38035,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2980, col: 11, offset: 94198},
+																																										pos: position{line: 2980, col: 11, offset: 94188},
 																																										expr: &anyMatcher{
-																																											line: 2980, col: 13, offset: 94200,
+																																											line: 2980, col: 13, offset: 94190,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2963, col: 10, offset: 93864},
+																																											pos: position{line: 2963, col: 10, offset: 93854},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2963, col: 10, offset: 93864},
+																																												pos:        position{line: 2963, col: 10, offset: 93854},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -38055,28 +38055,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2985, col: 8, offset: 94262},
+																																										pos: position{line: 2985, col: 8, offset: 94252},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2972, col: 12, offset: 94035},
+																																												pos: position{line: 2972, col: 12, offset: 94025},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2972, col: 13, offset: 94036},
+																																													pos: position{line: 2972, col: 13, offset: 94026},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 13, offset: 94036},
+																																															pos:        position{line: 2972, col: 13, offset: 94026},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 20, offset: 94043},
+																																															pos:        position{line: 2972, col: 20, offset: 94033},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 29, offset: 94052},
+																																															pos:        position{line: 2972, col: 29, offset: 94042},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -38085,9 +38085,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2982, col: 8, offset: 94212},
+																																												pos: position{line: 2982, col: 8, offset: 94202},
 																																												expr: &anyMatcher{
-																																													line: 2982, col: 9, offset: 94213,
+																																													line: 2982, col: 9, offset: 94203,
 																																												},
 																																											},
 																																										},
@@ -38097,22 +38097,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2715, col: 9, offset: 86446},
+																																						pos: position{line: 2715, col: 9, offset: 86436},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2715, col: 11, offset: 86448},
+																																							pos: position{line: 2715, col: 11, offset: 86438},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 11, offset: 86448},
+																																									pos:   position{line: 2715, col: 11, offset: 86438},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86455},
+																																										pos: position{line: 2715, col: 18, offset: 86445},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2723, col: 20, offset: 86656},
+																																											pos: position{line: 2723, col: 20, offset: 86646},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2723, col: 20, offset: 86656},
+																																												pos: position{line: 2723, col: 20, offset: 86646},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2723, col: 20, offset: 86656},
+																																													pos:        position{line: 2723, col: 20, offset: 86646},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -38123,7 +38123,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2715, col: 37, offset: 86474},
+																																									pos:        position{line: 2715, col: 37, offset: 86464},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -38132,15 +38132,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2716, col: 9, offset: 86487},
+																																						pos:   position{line: 2716, col: 9, offset: 86477},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2716, col: 18, offset: 86496},
+																																							pos: position{line: 2716, col: 18, offset: 86486},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2716, col: 18, offset: 86496},
+																																								pos: position{line: 2716, col: 18, offset: 86486},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2716, col: 18, offset: 86496},
+																																									pos:        position{line: 2716, col: 18, offset: 86486},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -38150,30 +38150,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2718, col: 12, offset: 86558},
+																																						pos: position{line: 2718, col: 12, offset: 86548},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2985, col: 8, offset: 94262},
+																																							pos: position{line: 2985, col: 8, offset: 94252},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2972, col: 12, offset: 94035},
+																																									pos: position{line: 2972, col: 12, offset: 94025},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2972, col: 13, offset: 94036},
+																																										pos: position{line: 2972, col: 13, offset: 94026},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 13, offset: 94036},
+																																												pos:        position{line: 2972, col: 13, offset: 94026},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 20, offset: 94043},
+																																												pos:        position{line: 2972, col: 20, offset: 94033},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 29, offset: 94052},
+																																												pos:        position{line: 2972, col: 29, offset: 94042},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38182,9 +38182,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94212},
+																																									pos: position{line: 2982, col: 8, offset: 94202},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94213,
+																																										line: 2982, col: 9, offset: 94203,
 																																									},
 																																								},
 																																							},
@@ -38212,18 +38212,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2980, col: 11, offset: 94198},
+																										pos: position{line: 2980, col: 11, offset: 94188},
 																										expr: &anyMatcher{
-																											line: 2980, col: 13, offset: 94200,
+																											line: 2980, col: 13, offset: 94190,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93864},
+																											pos: position{line: 2963, col: 10, offset: 93854},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93864},
+																												pos:        position{line: 2963, col: 10, offset: 93854},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38232,28 +38232,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94262},
+																										pos: position{line: 2985, col: 8, offset: 94252},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94035},
+																												pos: position{line: 2972, col: 12, offset: 94025},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94036},
+																													pos: position{line: 2972, col: 13, offset: 94026},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94036},
+																															pos:        position{line: 2972, col: 13, offset: 94026},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94043},
+																															pos:        position{line: 2972, col: 20, offset: 94033},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94052},
+																															pos:        position{line: 2972, col: 29, offset: 94042},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38262,9 +38262,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94212},
+																												pos: position{line: 2982, col: 8, offset: 94202},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94213,
+																													line: 2982, col: 9, offset: 94203,
 																												},
 																											},
 																										},
@@ -38283,24 +38283,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2669, col: 22, offset: 85344},
+													pos: position{line: 2669, col: 22, offset: 85334},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85264},
+															pos: position{line: 2665, col: 19, offset: 85254},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85264},
+																	pos:        position{line: 2665, col: 19, offset: 85254},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85271},
+																	pos: position{line: 2665, col: 26, offset: 85261},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38309,28 +38309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38339,9 +38339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -38349,9 +38349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -38360,36 +38360,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81507},
+										pos: position{line: 2530, col: 22, offset: 81497},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81507},
+											pos: position{line: 2530, col: 22, offset: 81497},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81728},
+													pos:        position{line: 2535, col: 31, offset: 81718},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81733},
+													pos: position{line: 2535, col: 36, offset: 81723},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81734},
+														pos:        position{line: 2535, col: 37, offset: 81724},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81534},
+													pos:   position{line: 2530, col: 49, offset: 81524},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91551},
+														pos: position{line: 2882, col: 13, offset: 91541},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91551},
+															pos: position{line: 2882, col: 13, offset: 91541},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91551},
+																pos:        position{line: 2882, col: 13, offset: 91541},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38399,28 +38399,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94262},
+													pos: position{line: 2985, col: 8, offset: 94252},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38429,9 +38429,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94212},
+															pos: position{line: 2982, col: 8, offset: 94202},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94213,
+																line: 2982, col: 9, offset: 94203,
 															},
 														},
 													},
@@ -38440,51 +38440,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1604, col: 5, offset: 51728},
+										pos: position{line: 1604, col: 5, offset: 51718},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1604, col: 5, offset: 51728},
+											pos: position{line: 1604, col: 5, offset: 51718},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51728},
+													pos:   position{line: 1604, col: 5, offset: 51718},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1604, col: 11, offset: 51734},
+														pos: position{line: 1604, col: 11, offset: 51724},
 														expr: &actionExpr{
-															pos: position{line: 1768, col: 5, offset: 57051},
+															pos: position{line: 1768, col: 5, offset: 57041},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1768, col: 5, offset: 57051},
+																pos: position{line: 1768, col: 5, offset: 57041},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1768, col: 5, offset: 57051},
+																		pos: position{line: 1768, col: 5, offset: 57041},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1771, col: 5, offset: 57114},
+																		pos:   position{line: 1771, col: 5, offset: 57104},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1771, col: 12, offset: 57121},
+																			pos: position{line: 1771, col: 12, offset: 57111},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1771, col: 12, offset: 57121},
+																					pos: position{line: 1771, col: 12, offset: 57111},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &seqExpr{
-																						pos: position{line: 1771, col: 12, offset: 57121},
+																						pos: position{line: 1771, col: 12, offset: 57111},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1771, col: 12, offset: 57121},
+																								pos:        position{line: 1771, col: 12, offset: 57111},
 																								val:        "TIP:",
 																								ignoreCase: false,
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38496,24 +38496,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57183},
+																					pos: position{line: 1773, col: 13, offset: 57173},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &seqExpr{
-																						pos: position{line: 1773, col: 13, offset: 57183},
+																						pos: position{line: 1773, col: 13, offset: 57173},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1773, col: 13, offset: 57183},
+																								pos:        position{line: 1773, col: 13, offset: 57173},
 																								val:        "NOTE:",
 																								ignoreCase: false,
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38525,24 +38525,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57247},
+																					pos: position{line: 1775, col: 13, offset: 57237},
 																					run: (*parser).callonListContinuationElement1604,
 																					expr: &seqExpr{
-																						pos: position{line: 1775, col: 13, offset: 57247},
+																						pos: position{line: 1775, col: 13, offset: 57237},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1775, col: 13, offset: 57247},
+																								pos:        position{line: 1775, col: 13, offset: 57237},
 																								val:        "IMPORTANT:",
 																								ignoreCase: false,
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38554,24 +38554,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57321},
+																					pos: position{line: 1777, col: 13, offset: 57311},
 																					run: (*parser).callonListContinuationElement1610,
 																					expr: &seqExpr{
-																						pos: position{line: 1777, col: 13, offset: 57321},
+																						pos: position{line: 1777, col: 13, offset: 57311},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1777, col: 13, offset: 57321},
+																								pos:        position{line: 1777, col: 13, offset: 57311},
 																								val:        "WARNING:",
 																								ignoreCase: false,
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38583,24 +38583,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1779, col: 13, offset: 57391},
+																					pos: position{line: 1779, col: 13, offset: 57381},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &seqExpr{
-																						pos: position{line: 1779, col: 13, offset: 57391},
+																						pos: position{line: 1779, col: 13, offset: 57381},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1779, col: 13, offset: 57391},
+																								pos:        position{line: 1779, col: 13, offset: 57381},
 																								val:        "CAUTION:",
 																								ignoreCase: false,
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
+																									pos: position{line: 2967, col: 11, offset: 93915},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93925},
+																										pos:        position{line: 2967, col: 11, offset: 93915},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38612,17 +38612,17 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1781, col: 13, offset: 57461},
+																					pos: position{line: 1781, col: 13, offset: 57451},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1781, col: 13, offset: 57461},
+																						pos: position{line: 1781, col: 13, offset: 57451},
 																						expr: &actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93925},
+																							pos: position{line: 2967, col: 11, offset: 93915},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93925},
+																								pos: position{line: 2967, col: 11, offset: 93915},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93925},
+																									pos:        position{line: 2967, col: 11, offset: 93915},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38636,17 +38636,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1783, col: 12, offset: 57541},
+																		pos: position{line: 1783, col: 12, offset: 57531},
 																		expr: &seqExpr{
-																			pos: position{line: 1783, col: 14, offset: 57543},
+																			pos: position{line: 1783, col: 14, offset: 57533},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1783, col: 14, offset: 57543},
+																					pos: position{line: 1783, col: 14, offset: 57533},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38655,28 +38655,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38685,9 +38685,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -38701,16 +38701,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1605, col: 5, offset: 51757},
+													pos:   position{line: 1605, col: 5, offset: 51747},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1547, col: 5, offset: 49949},
+														pos: position{line: 1547, col: 5, offset: 49939},
 														run: (*parser).callonListContinuationElement1641,
 														expr: &seqExpr{
-															pos: position{line: 1547, col: 5, offset: 49949},
+															pos: position{line: 1547, col: 5, offset: 49939},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1547, col: 5, offset: 49949},
+																	pos: position{line: 1547, col: 5, offset: 49939},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1644,
@@ -38718,18 +38718,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94198},
+																					pos: position{line: 2980, col: 11, offset: 94188},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94200,
+																						line: 2980, col: 13, offset: 94190,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38738,28 +38738,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94262},
+																					pos: position{line: 2985, col: 8, offset: 94252},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
+																							pos: position{line: 2972, col: 12, offset: 94025},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38768,9 +38768,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94212},
+																							pos: position{line: 2982, col: 8, offset: 94202},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94213,
+																								line: 2982, col: 9, offset: 94203,
 																							},
 																						},
 																					},
@@ -38780,23 +38780,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1548, col: 5, offset: 49964},
+																	pos: position{line: 1548, col: 5, offset: 49954},
 																	expr: &seqExpr{
-																		pos: position{line: 1578, col: 27, offset: 50948},
+																		pos: position{line: 1578, col: 27, offset: 50938},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1578, col: 27, offset: 50948},
+																				pos:        position{line: 1578, col: 27, offset: 50938},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1578, col: 31, offset: 50952},
+																				pos: position{line: 1578, col: 31, offset: 50942},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38805,25 +38805,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38835,20 +38835,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1549, col: 5, offset: 49992},
+																	pos: position{line: 1549, col: 5, offset: 49982},
 																	expr: &actionExpr{
-																		pos: position{line: 1620, col: 5, offset: 52167},
+																		pos: position{line: 1620, col: 5, offset: 52157},
 																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
-																			pos: position{line: 1620, col: 5, offset: 52167},
+																			pos: position{line: 1620, col: 5, offset: 52157},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1620, col: 5, offset: 52167},
+																					pos: position{line: 1620, col: 5, offset: 52157},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38857,27 +38857,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1620, col: 12, offset: 52174},
+																					pos:   position{line: 1620, col: 12, offset: 52164},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1622, col: 9, offset: 52237},
+																						pos: position{line: 1622, col: 9, offset: 52227},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1622, col: 9, offset: 52237},
+																								pos: position{line: 1622, col: 9, offset: 52227},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 9, offset: 52237},
+																									pos: position{line: 1622, col: 9, offset: 52227},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1622, col: 9, offset: 52237},
+																											pos:   position{line: 1622, col: 9, offset: 52227},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1622, col: 16, offset: 52244},
+																												pos: position{line: 1622, col: 16, offset: 52234},
 																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1622, col: 16, offset: 52244},
+																													pos: position{line: 1622, col: 16, offset: 52234},
 																													expr: &litMatcher{
-																														pos:        position{line: 1622, col: 17, offset: 52245},
+																														pos:        position{line: 1622, col: 17, offset: 52235},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38886,22 +38886,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1626, col: 9, offset: 52345},
+																											pos: position{line: 1626, col: 9, offset: 52335},
 																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1645, col: 11, offset: 53062},
+																								pos: position{line: 1645, col: 11, offset: 53052},
 																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
-																									pos: position{line: 1645, col: 11, offset: 53062},
+																									pos: position{line: 1645, col: 11, offset: 53052},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1645, col: 11, offset: 53062},
+																											pos: position{line: 1645, col: 11, offset: 53052},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1645, col: 12, offset: 53063},
+																												pos:        position{line: 1645, col: 12, offset: 53053},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38909,7 +38909,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1645, col: 20, offset: 53071},
+																											pos:        position{line: 1645, col: 20, offset: 53061},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38918,20 +38918,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1647, col: 13, offset: 53188},
+																								pos: position{line: 1647, col: 13, offset: 53178},
 																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
-																									pos: position{line: 1647, col: 13, offset: 53188},
+																									pos: position{line: 1647, col: 13, offset: 53178},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1647, col: 14, offset: 53189},
+																											pos:        position{line: 1647, col: 14, offset: 53179},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1647, col: 21, offset: 53196},
+																											pos:        position{line: 1647, col: 21, offset: 53186},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38940,20 +38940,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1649, col: 13, offset: 53316},
+																								pos: position{line: 1649, col: 13, offset: 53306},
 																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
-																									pos: position{line: 1649, col: 13, offset: 53316},
+																									pos: position{line: 1649, col: 13, offset: 53306},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1649, col: 14, offset: 53317},
+																											pos:        position{line: 1649, col: 14, offset: 53307},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 21, offset: 53324},
+																											pos:        position{line: 1649, col: 21, offset: 53314},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38962,15 +38962,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1651, col: 13, offset: 53444},
+																								pos: position{line: 1651, col: 13, offset: 53434},
 																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1651, col: 13, offset: 53444},
+																									pos: position{line: 1651, col: 13, offset: 53434},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1651, col: 13, offset: 53444},
+																											pos: position{line: 1651, col: 13, offset: 53434},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1651, col: 14, offset: 53445},
+																												pos:        position{line: 1651, col: 14, offset: 53435},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38978,7 +38978,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1651, col: 26, offset: 53457},
+																											pos:        position{line: 1651, col: 26, offset: 53447},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38987,15 +38987,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1653, col: 13, offset: 53577},
+																								pos: position{line: 1653, col: 13, offset: 53567},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1653, col: 13, offset: 53577},
+																									pos: position{line: 1653, col: 13, offset: 53567},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1653, col: 13, offset: 53577},
+																											pos: position{line: 1653, col: 13, offset: 53567},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1653, col: 14, offset: 53578},
+																												pos:        position{line: 1653, col: 14, offset: 53568},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -39003,7 +39003,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1653, col: 26, offset: 53590},
+																											pos:        position{line: 1653, col: 26, offset: 53580},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -39015,12 +39015,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93925},
+																					pos: position{line: 2967, col: 11, offset: 93915},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93925},
+																						pos: position{line: 2967, col: 11, offset: 93915},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93925},
+																							pos:        position{line: 2967, col: 11, offset: 93915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39033,20 +39033,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1550, col: 5, offset: 50022},
+																	pos: position{line: 1550, col: 5, offset: 50012},
 																	expr: &actionExpr{
-																		pos: position{line: 1670, col: 5, offset: 54129},
+																		pos: position{line: 1670, col: 5, offset: 54119},
 																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
-																			pos: position{line: 1670, col: 5, offset: 54129},
+																			pos: position{line: 1670, col: 5, offset: 54119},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54129},
+																					pos: position{line: 1670, col: 5, offset: 54119},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39055,24 +39055,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1671, col: 5, offset: 54141},
+																					pos:   position{line: 1671, col: 5, offset: 54131},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1672, col: 9, offset: 54157},
+																						pos: position{line: 1672, col: 9, offset: 54147},
 																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
-																							pos: position{line: 1672, col: 10, offset: 54158},
+																							pos: position{line: 1672, col: 10, offset: 54148},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1672, col: 11, offset: 54159},
+																									pos:        position{line: 1672, col: 11, offset: 54149},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1672, col: 18, offset: 54166},
+																									pos: position{line: 1672, col: 18, offset: 54156},
 																									expr: &litMatcher{
-																										pos:        position{line: 1672, col: 19, offset: 54167},
+																										pos:        position{line: 1672, col: 19, offset: 54157},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -39083,16 +39083,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1675, col: 7, offset: 54257},
+																					pos: position{line: 1675, col: 7, offset: 54247},
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93925},
+																					pos: position{line: 2967, col: 11, offset: 93915},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93925},
+																						pos: position{line: 2967, col: 11, offset: 93915},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93925},
+																							pos:        position{line: 2967, col: 11, offset: 93915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39105,29 +39105,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1551, col: 5, offset: 50054},
+																	pos: position{line: 1551, col: 5, offset: 50044},
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 5, offset: 56666},
+																		pos: position{line: 1759, col: 5, offset: 56656},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1759, col: 5, offset: 56666},
+																			pos: position{line: 1759, col: 5, offset: 56656},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1759, col: 5, offset: 56666},
+																					pos:        position{line: 1759, col: 5, offset: 56656},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1759, col: 9, offset: 56670},
+																					pos:   position{line: 1759, col: 9, offset: 56660},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1759, col: 14, offset: 56675},
+																						pos: position{line: 1759, col: 14, offset: 56665},
 																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1759, col: 14, offset: 56675},
+																							pos: position{line: 1759, col: 14, offset: 56665},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1759, col: 14, offset: 56675},
+																								pos:        position{line: 1759, col: 14, offset: 56665},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -39137,18 +39137,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1759, col: 62, offset: 56723},
+																					pos:        position{line: 1759, col: 62, offset: 56713},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93925},
+																					pos: position{line: 2967, col: 11, offset: 93915},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93925},
+																						pos: position{line: 2967, col: 11, offset: 93915},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93925},
+																							pos:        position{line: 2967, col: 11, offset: 93915},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39161,36 +39161,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1552, col: 5, offset: 50084},
+																	pos: position{line: 1552, col: 5, offset: 50074},
 																	expr: &seqExpr{
-																		pos: position{line: 1552, col: 7, offset: 50086},
+																		pos: position{line: 1552, col: 7, offset: 50076},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55148},
+																				pos: position{line: 1705, col: 5, offset: 55138},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55148},
+																					pos: position{line: 1705, col: 5, offset: 55138},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55149},
+																						pos: position{line: 1705, col: 6, offset: 55139},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55149},
+																								pos: position{line: 1705, col: 6, offset: 55139},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55299},
+																									pos: position{line: 1710, col: 5, offset: 55289},
 																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55299},
+																										pos: position{line: 1710, col: 5, offset: 55289},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55299},
+																												pos:   position{line: 1710, col: 5, offset: 55289},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55310},
+																													pos: position{line: 1710, col: 16, offset: 55300},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55310},
+																														pos: position{line: 1710, col: 16, offset: 55300},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55311},
+																															pos:        position{line: 1710, col: 17, offset: 55301},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -39199,7 +39199,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55368},
+																												pos: position{line: 1713, col: 5, offset: 55358},
 																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
@@ -39207,30 +39207,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55178},
+																								pos: position{line: 1705, col: 35, offset: 55168},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94262},
+																									pos: position{line: 2985, col: 8, offset: 94252},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94035},
+																											pos: position{line: 2972, col: 12, offset: 94025},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94036},
+																												pos: position{line: 2972, col: 13, offset: 94026},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94036},
+																														pos:        position{line: 2972, col: 13, offset: 94026},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94043},
+																														pos:        position{line: 2972, col: 20, offset: 94033},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94052},
+																														pos:        position{line: 2972, col: 29, offset: 94042},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39239,37 +39239,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94212},
+																											pos: position{line: 2982, col: 8, offset: 94202},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94213,
+																												line: 2982, col: 9, offset: 94203,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55183,
+																								line: 1705, col: 40, offset: 55173,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55299},
+																				pos: position{line: 1710, col: 5, offset: 55289},
 																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55299},
+																					pos: position{line: 1710, col: 5, offset: 55289},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55299},
+																							pos:   position{line: 1710, col: 5, offset: 55289},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55310},
+																								pos: position{line: 1710, col: 16, offset: 55300},
 																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55310},
+																									pos: position{line: 1710, col: 16, offset: 55300},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55311},
+																										pos:        position{line: 1710, col: 17, offset: 55301},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39278,20 +39278,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55368},
+																							pos: position{line: 1713, col: 5, offset: 55358},
 																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1552, col: 59, offset: 50138},
+																				pos: position{line: 1552, col: 59, offset: 50128},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93864},
+																						pos: position{line: 2963, col: 10, offset: 93854},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93864},
+																							pos:        position{line: 2963, col: 10, offset: 93854},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39299,25 +39299,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94035},
+																						pos: position{line: 2972, col: 12, offset: 94025},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94036},
+																							pos: position{line: 2972, col: 13, offset: 94026},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94036},
+																									pos:        position{line: 2972, col: 13, offset: 94026},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94043},
+																									pos:        position{line: 2972, col: 20, offset: 94033},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94052},
+																									pos:        position{line: 2972, col: 29, offset: 94042},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39326,9 +39326,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94212},
+																						pos: position{line: 2982, col: 8, offset: 94202},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94213,
+																							line: 2982, col: 9, offset: 94203,
 																						},
 																					},
 																				},
@@ -39337,9 +39337,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1553, col: 5, offset: 50156},
+																	pos: position{line: 1553, col: 5, offset: 50146},
 																	expr: &choiceExpr{
-																		pos: position{line: 1553, col: 7, offset: 50158},
+																		pos: position{line: 1553, col: 7, offset: 50148},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -39350,7 +39350,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2817, col: 13, offset: 89812},
+																								pos:        position{line: 2817, col: 13, offset: 89802},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39400,10 +39400,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39412,28 +39412,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39442,9 +39442,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39489,10 +39489,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39501,28 +39501,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39531,9 +39531,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39574,10 +39574,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39586,28 +39586,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39616,9 +39616,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39663,10 +39663,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39675,28 +39675,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39705,9 +39705,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39752,10 +39752,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39764,28 +39764,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39794,9 +39794,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39841,10 +39841,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39853,28 +39853,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39883,9 +39883,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -39930,10 +39930,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39942,28 +39942,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39972,9 +39972,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -40019,10 +40019,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40031,28 +40031,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40061,9 +40061,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -40108,10 +40108,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93864},
+																														pos: position{line: 2963, col: 10, offset: 93854},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93864},
+																															pos:        position{line: 2963, col: 10, offset: 93854},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40120,28 +40120,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94262},
+																													pos: position{line: 2985, col: 8, offset: 94252},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94035},
+																															pos: position{line: 2972, col: 12, offset: 94025},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94036},
+																																pos: position{line: 2972, col: 13, offset: 94026},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94036},
+																																		pos:        position{line: 2972, col: 13, offset: 94026},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94043},
+																																		pos:        position{line: 2972, col: 20, offset: 94033},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94052},
+																																		pos:        position{line: 2972, col: 29, offset: 94042},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40150,9 +40150,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94212},
+																															pos: position{line: 2982, col: 8, offset: 94202},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94213,
+																																line: 2982, col: 9, offset: 94203,
 																															},
 																														},
 																													},
@@ -40189,10 +40189,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93864},
+																								pos: position{line: 2963, col: 10, offset: 93854},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93864},
+																									pos:        position{line: 2963, col: 10, offset: 93854},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40201,28 +40201,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94262},
+																							pos: position{line: 2985, col: 8, offset: 94252},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94035},
+																									pos: position{line: 2972, col: 12, offset: 94025},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94036},
+																										pos: position{line: 2972, col: 13, offset: 94026},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94036},
+																												pos:        position{line: 2972, col: 13, offset: 94026},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94043},
+																												pos:        position{line: 2972, col: 20, offset: 94033},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94052},
+																												pos:        position{line: 2972, col: 29, offset: 94042},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40231,9 +40231,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94212},
+																									pos: position{line: 2982, col: 8, offset: 94202},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94213,
+																										line: 2982, col: 9, offset: 94203,
 																									},
 																								},
 																							},
@@ -40242,21 +40242,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2665, col: 19, offset: 85264},
+																				pos: position{line: 2665, col: 19, offset: 85254},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2665, col: 19, offset: 85264},
+																						pos:        position{line: 2665, col: 19, offset: 85254},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2665, col: 26, offset: 85271},
+																						pos: position{line: 2665, col: 26, offset: 85261},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40265,28 +40265,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94262},
+																						pos: position{line: 2985, col: 8, offset: 94252},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94035},
+																								pos: position{line: 2972, col: 12, offset: 94025},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94036},
+																									pos: position{line: 2972, col: 13, offset: 94026},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94036},
+																											pos:        position{line: 2972, col: 13, offset: 94026},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94043},
+																											pos:        position{line: 2972, col: 20, offset: 94033},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94052},
+																											pos:        position{line: 2972, col: 29, offset: 94042},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40295,9 +40295,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94212},
+																								pos: position{line: 2982, col: 8, offset: 94202},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94213,
+																									line: 2982, col: 9, offset: 94203,
 																								},
 																							},
 																						},
@@ -40308,15 +40308,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1554, col: 5, offset: 50216},
+																	pos:   position{line: 1554, col: 5, offset: 50206},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 14, offset: 91618},
+																		pos: position{line: 2886, col: 14, offset: 91608},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2886, col: 14, offset: 91618},
+																			pos: position{line: 2886, col: 14, offset: 91608},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 14, offset: 91618},
+																				pos:        position{line: 2886, col: 14, offset: 91608},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40326,28 +40326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40356,9 +40356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -40379,33 +40379,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1743, col: 1, offset: 56160},
+			pos:  position{line: 1743, col: 1, offset: 56150},
 			expr: &actionExpr{
-				pos: position{line: 1745, col: 5, offset: 56238},
+				pos: position{line: 1745, col: 5, offset: 56228},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1745, col: 5, offset: 56238},
+					pos: position{line: 1745, col: 5, offset: 56228},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1745, col: 5, offset: 56238},
+							pos: position{line: 1745, col: 5, offset: 56228},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1748, col: 5, offset: 56305},
+							pos:        position{line: 1748, col: 5, offset: 56295},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 9, offset: 56309},
+							pos:   position{line: 1748, col: 9, offset: 56299},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1748, col: 14, offset: 56314},
+								pos: position{line: 1748, col: 14, offset: 56304},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1748, col: 14, offset: 56314},
+									pos: position{line: 1748, col: 14, offset: 56304},
 									expr: &charClassMatcher{
-										pos:        position{line: 1748, col: 14, offset: 56314},
+										pos:        position{line: 1748, col: 14, offset: 56304},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40415,18 +40415,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1748, col: 62, offset: 56362},
+							pos:        position{line: 1748, col: 62, offset: 56352},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1748, col: 66, offset: 56366},
+							pos: position{line: 1748, col: 66, offset: 56356},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93864},
+								pos: position{line: 2963, col: 10, offset: 93854},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93864},
+									pos:        position{line: 2963, col: 10, offset: 93854},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40435,30 +40435,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1748, col: 73, offset: 56373},
+							pos: position{line: 1748, col: 73, offset: 56363},
 							expr: &choiceExpr{
-								pos: position{line: 1748, col: 75, offset: 56375},
+								pos: position{line: 1748, col: 75, offset: 56365},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94035},
+										pos: position{line: 2972, col: 12, offset: 94025},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94036},
+											pos: position{line: 2972, col: 13, offset: 94026},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94036},
+													pos:        position{line: 2972, col: 13, offset: 94026},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94043},
+													pos:        position{line: 2972, col: 20, offset: 94033},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94052},
+													pos:        position{line: 2972, col: 29, offset: 94042},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40467,13 +40467,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2982, col: 8, offset: 94212},
+										pos: position{line: 2982, col: 8, offset: 94202},
 										expr: &anyMatcher{
-											line: 2982, col: 9, offset: 94213,
+											line: 2982, col: 9, offset: 94203,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1748, col: 81, offset: 56381},
+										pos:  position{line: 1748, col: 81, offset: 56371},
 										name: "Callout",
 									},
 								},
@@ -40485,44 +40485,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1787, col: 1, offset: 57598},
+			pos:  position{line: 1787, col: 1, offset: 57588},
 			expr: &actionExpr{
-				pos: position{line: 1789, col: 5, offset: 57672},
+				pos: position{line: 1789, col: 5, offset: 57662},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1789, col: 5, offset: 57672},
+					pos: position{line: 1789, col: 5, offset: 57662},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1789, col: 5, offset: 57672},
+							pos: position{line: 1789, col: 5, offset: 57662},
 							expr: &seqExpr{
-								pos: position{line: 1789, col: 7, offset: 57674},
+								pos: position{line: 1789, col: 7, offset: 57664},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2817, col: 13, offset: 89812},
+										pos:        position{line: 2817, col: 13, offset: 89802},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1789, col: 16, offset: 57683},
+										pos: position{line: 1789, col: 16, offset: 57673},
 										expr: &seqExpr{
-											pos: position{line: 1789, col: 18, offset: 57685},
+											pos: position{line: 1789, col: 18, offset: 57675},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1789, col: 19, offset: 57686},
+													pos:        position{line: 1789, col: 19, offset: 57676},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2967, col: 11, offset: 93925},
+													pos: position{line: 2967, col: 11, offset: 93915},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2967, col: 11, offset: 93925},
+														pos: position{line: 2967, col: 11, offset: 93915},
 														expr: &charClassMatcher{
-															pos:        position{line: 2967, col: 11, offset: 93925},
+															pos:        position{line: 2967, col: 11, offset: 93915},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40537,45 +40537,45 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 57826},
+							pos:   position{line: 1790, col: 5, offset: 57816},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 57832},
+								pos: position{line: 1790, col: 11, offset: 57822},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 5, offset: 57051},
+									pos: position{line: 1768, col: 5, offset: 57041},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 5, offset: 57051},
+										pos: position{line: 1768, col: 5, offset: 57041},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1768, col: 5, offset: 57051},
+												pos: position{line: 1768, col: 5, offset: 57041},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1771, col: 5, offset: 57114},
+												pos:   position{line: 1771, col: 5, offset: 57104},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1771, col: 12, offset: 57121},
+													pos: position{line: 1771, col: 12, offset: 57111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1771, col: 12, offset: 57121},
+															pos: position{line: 1771, col: 12, offset: 57111},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 12, offset: 57121},
+																pos: position{line: 1771, col: 12, offset: 57111},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 12, offset: 57121},
+																		pos:        position{line: 1771, col: 12, offset: 57111},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40587,24 +40587,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57183},
+															pos: position{line: 1773, col: 13, offset: 57173},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57183},
+																pos: position{line: 1773, col: 13, offset: 57173},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57183},
+																		pos:        position{line: 1773, col: 13, offset: 57173},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40616,24 +40616,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57247},
+															pos: position{line: 1775, col: 13, offset: 57237},
 															run: (*parser).callonShortcutParagraph31,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57247},
+																pos: position{line: 1775, col: 13, offset: 57237},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57247},
+																		pos:        position{line: 1775, col: 13, offset: 57237},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40645,24 +40645,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57321},
+															pos: position{line: 1777, col: 13, offset: 57311},
 															run: (*parser).callonShortcutParagraph37,
 															expr: &seqExpr{
-																pos: position{line: 1777, col: 13, offset: 57321},
+																pos: position{line: 1777, col: 13, offset: 57311},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1777, col: 13, offset: 57321},
+																		pos:        position{line: 1777, col: 13, offset: 57311},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40674,24 +40674,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1779, col: 13, offset: 57391},
+															pos: position{line: 1779, col: 13, offset: 57381},
 															run: (*parser).callonShortcutParagraph43,
 															expr: &seqExpr{
-																pos: position{line: 1779, col: 13, offset: 57391},
+																pos: position{line: 1779, col: 13, offset: 57381},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1779, col: 13, offset: 57391},
+																		pos:        position{line: 1779, col: 13, offset: 57381},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40703,17 +40703,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1781, col: 13, offset: 57461},
+															pos: position{line: 1781, col: 13, offset: 57451},
 															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1781, col: 13, offset: 57461},
+																pos: position{line: 1781, col: 13, offset: 57451},
 																expr: &actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40727,17 +40727,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 12, offset: 57541},
+												pos: position{line: 1783, col: 12, offset: 57531},
 												expr: &seqExpr{
-													pos: position{line: 1783, col: 14, offset: 57543},
+													pos: position{line: 1783, col: 14, offset: 57533},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1783, col: 14, offset: 57543},
+															pos: position{line: 1783, col: 14, offset: 57533},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40746,28 +40746,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94262},
+															pos: position{line: 2985, col: 8, offset: 94252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94035},
+																	pos: position{line: 2972, col: 12, offset: 94025},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94036},
+																		pos: position{line: 2972, col: 13, offset: 94026},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94036},
+																				pos:        position{line: 2972, col: 13, offset: 94026},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94043},
+																				pos:        position{line: 2972, col: 20, offset: 94033},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94052},
+																				pos:        position{line: 2972, col: 29, offset: 94042},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40776,9 +40776,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -40792,24 +40792,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 57854},
+							pos:   position{line: 1791, col: 5, offset: 57844},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1828, col: 5, offset: 59065},
+								pos: position{line: 1828, col: 5, offset: 59055},
 								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1828, col: 5, offset: 59065},
+									pos: position{line: 1828, col: 5, offset: 59055},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1828, col: 5, offset: 59065},
+											pos:   position{line: 1828, col: 5, offset: 59055},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 14, offset: 91618},
+												pos: position{line: 2886, col: 14, offset: 91608},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2886, col: 14, offset: 91618},
+													pos: position{line: 2886, col: 14, offset: 91608},
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 14, offset: 91618},
+														pos:        position{line: 2886, col: 14, offset: 91608},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40819,32 +40819,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1829, col: 5, offset: 59089},
+											pos: position{line: 1829, col: 5, offset: 59079},
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2985, col: 8, offset: 94262},
+											pos: position{line: 2985, col: 8, offset: 94252},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2972, col: 12, offset: 94035},
+													pos: position{line: 2972, col: 12, offset: 94025},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2972, col: 13, offset: 94036},
+														pos: position{line: 2972, col: 13, offset: 94026},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2972, col: 13, offset: 94036},
+																pos:        position{line: 2972, col: 13, offset: 94026},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 20, offset: 94043},
+																pos:        position{line: 2972, col: 20, offset: 94033},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 29, offset: 94052},
+																pos:        position{line: 2972, col: 29, offset: 94042},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40853,9 +40853,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -40865,28 +40865,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1792, col: 5, offset: 57888},
+							pos: position{line: 1792, col: 5, offset: 57878},
 							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58218},
+							pos:   position{line: 1799, col: 5, offset: 58208},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1799, col: 16, offset: 58229},
+								pos: position{line: 1799, col: 16, offset: 58219},
 								expr: &actionExpr{
-									pos: position{line: 1800, col: 9, offset: 58239},
+									pos: position{line: 1800, col: 9, offset: 58229},
 									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1800, col: 9, offset: 58239},
+										pos: position{line: 1800, col: 9, offset: 58229},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94198},
+												pos: position{line: 2980, col: 11, offset: 94188},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94200,
+													line: 2980, col: 13, offset: 94190,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1801, col: 9, offset: 58255},
+												pos: position{line: 1801, col: 9, offset: 58245},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph91,
@@ -40894,18 +40894,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94198},
+																pos: position{line: 2980, col: 11, offset: 94188},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94200,
+																	line: 2980, col: 13, offset: 94190,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40914,28 +40914,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40944,9 +40944,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -40956,16 +40956,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1802, col: 9, offset: 58274},
+												pos: position{line: 1802, col: 9, offset: 58264},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1802, col: 10, offset: 58275},
+													pos:  position{line: 1802, col: 10, offset: 58265},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1803, col: 9, offset: 58299},
+												pos: position{line: 1803, col: 9, offset: 58289},
 												expr: &choiceExpr{
-													pos: position{line: 1803, col: 11, offset: 58301},
+													pos: position{line: 1803, col: 11, offset: 58291},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40976,7 +40976,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2817, col: 13, offset: 89812},
+																			pos:        position{line: 2817, col: 13, offset: 89802},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41026,10 +41026,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41038,28 +41038,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41068,9 +41068,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41115,10 +41115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41127,28 +41127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41157,9 +41157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41200,10 +41200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41212,28 +41212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41242,9 +41242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41289,10 +41289,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41301,28 +41301,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41331,9 +41331,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41378,10 +41378,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41390,28 +41390,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41420,9 +41420,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41467,10 +41467,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41479,28 +41479,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41509,9 +41509,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41556,10 +41556,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41568,28 +41568,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41598,9 +41598,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41645,10 +41645,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41657,28 +41657,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41687,9 +41687,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41734,10 +41734,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41746,28 +41746,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41776,9 +41776,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -41815,10 +41815,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41827,28 +41827,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41857,9 +41857,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -41868,21 +41868,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85264},
+															pos: position{line: 2665, col: 19, offset: 85254},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85264},
+																	pos:        position{line: 2665, col: 19, offset: 85254},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85271},
+																	pos: position{line: 2665, col: 26, offset: 85261},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41891,28 +41891,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41921,9 +41921,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -41934,23 +41934,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1804, col: 9, offset: 58363},
+												pos: position{line: 1804, col: 9, offset: 58353},
 												expr: &seqExpr{
-													pos: position{line: 1578, col: 27, offset: 50948},
+													pos: position{line: 1578, col: 27, offset: 50938},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1578, col: 27, offset: 50948},
+															pos:        position{line: 1578, col: 27, offset: 50938},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1578, col: 31, offset: 50952},
+															pos: position{line: 1578, col: 31, offset: 50942},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41959,25 +41959,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41989,42 +41989,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1805, col: 9, offset: 58395},
+												pos:   position{line: 1805, col: 9, offset: 58385},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1805, col: 15, offset: 58401},
+													pos: position{line: 1805, col: 15, offset: 58391},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81507},
+															pos: position{line: 2530, col: 22, offset: 81497},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81507},
+																pos: position{line: 2530, col: 22, offset: 81497},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81728},
+																		pos:        position{line: 2535, col: 31, offset: 81718},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81733},
+																		pos: position{line: 2535, col: 36, offset: 81723},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81734},
+																			pos:        position{line: 2535, col: 37, offset: 81724},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81534},
+																		pos:   position{line: 2530, col: 49, offset: 81524},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91551},
+																			pos: position{line: 2882, col: 13, offset: 91541},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91551},
+																				pos: position{line: 2882, col: 13, offset: 91541},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91551},
+																					pos:        position{line: 2882, col: 13, offset: 91541},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42034,28 +42034,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42064,9 +42064,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -42075,21 +42075,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1828, col: 5, offset: 59065},
+															pos: position{line: 1828, col: 5, offset: 59055},
 															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1828, col: 5, offset: 59065},
+																pos: position{line: 1828, col: 5, offset: 59055},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1828, col: 5, offset: 59065},
+																		pos:   position{line: 1828, col: 5, offset: 59055},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91618},
+																			pos: position{line: 2886, col: 14, offset: 91608},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91618},
+																				pos: position{line: 2886, col: 14, offset: 91608},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91618},
+																					pos:        position{line: 2886, col: 14, offset: 91608},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42099,32 +42099,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1829, col: 5, offset: 59089},
+																		pos: position{line: 1829, col: 5, offset: 59079},
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42133,9 +42133,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -42157,53 +42157,53 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1812, col: 1, offset: 58605},
+			pos:  position{line: 1812, col: 1, offset: 58595},
 			expr: &actionExpr{
-				pos: position{line: 1813, col: 5, offset: 58623},
+				pos: position{line: 1813, col: 5, offset: 58613},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1813, col: 5, offset: 58623},
+					pos: position{line: 1813, col: 5, offset: 58613},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58623},
+							pos:   position{line: 1813, col: 5, offset: 58613},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1813, col: 11, offset: 58629},
+								pos: position{line: 1813, col: 11, offset: 58619},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 5, offset: 57051},
+									pos: position{line: 1768, col: 5, offset: 57041},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 5, offset: 57051},
+										pos: position{line: 1768, col: 5, offset: 57041},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1768, col: 5, offset: 57051},
+												pos: position{line: 1768, col: 5, offset: 57041},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1771, col: 5, offset: 57114},
+												pos:   position{line: 1771, col: 5, offset: 57104},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1771, col: 12, offset: 57121},
+													pos: position{line: 1771, col: 12, offset: 57111},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1771, col: 12, offset: 57121},
+															pos: position{line: 1771, col: 12, offset: 57111},
 															run: (*parser).callonParagraph10,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 12, offset: 57121},
+																pos: position{line: 1771, col: 12, offset: 57111},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 12, offset: 57121},
+																		pos:        position{line: 1771, col: 12, offset: 57111},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42215,24 +42215,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57183},
+															pos: position{line: 1773, col: 13, offset: 57173},
 															run: (*parser).callonParagraph16,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57183},
+																pos: position{line: 1773, col: 13, offset: 57173},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57183},
+																		pos:        position{line: 1773, col: 13, offset: 57173},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42244,24 +42244,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57247},
+															pos: position{line: 1775, col: 13, offset: 57237},
 															run: (*parser).callonParagraph22,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57247},
+																pos: position{line: 1775, col: 13, offset: 57237},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57247},
+																		pos:        position{line: 1775, col: 13, offset: 57237},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42273,24 +42273,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57321},
+															pos: position{line: 1777, col: 13, offset: 57311},
 															run: (*parser).callonParagraph28,
 															expr: &seqExpr{
-																pos: position{line: 1777, col: 13, offset: 57321},
+																pos: position{line: 1777, col: 13, offset: 57311},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1777, col: 13, offset: 57321},
+																		pos:        position{line: 1777, col: 13, offset: 57311},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42302,24 +42302,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1779, col: 13, offset: 57391},
+															pos: position{line: 1779, col: 13, offset: 57381},
 															run: (*parser).callonParagraph34,
 															expr: &seqExpr{
-																pos: position{line: 1779, col: 13, offset: 57391},
+																pos: position{line: 1779, col: 13, offset: 57381},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1779, col: 13, offset: 57391},
+																		pos:        position{line: 1779, col: 13, offset: 57381},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93925},
+																			pos: position{line: 2967, col: 11, offset: 93915},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93925},
+																				pos:        position{line: 2967, col: 11, offset: 93915},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42331,17 +42331,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1781, col: 13, offset: 57461},
+															pos: position{line: 1781, col: 13, offset: 57451},
 															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1781, col: 13, offset: 57461},
+																pos: position{line: 1781, col: 13, offset: 57451},
 																expr: &actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93925},
+																	pos: position{line: 2967, col: 11, offset: 93915},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93925},
+																		pos: position{line: 2967, col: 11, offset: 93915},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93925},
+																			pos:        position{line: 2967, col: 11, offset: 93915},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42355,17 +42355,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 12, offset: 57541},
+												pos: position{line: 1783, col: 12, offset: 57531},
 												expr: &seqExpr{
-													pos: position{line: 1783, col: 14, offset: 57543},
+													pos: position{line: 1783, col: 14, offset: 57533},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1783, col: 14, offset: 57543},
+															pos: position{line: 1783, col: 14, offset: 57533},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42374,28 +42374,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94262},
+															pos: position{line: 2985, col: 8, offset: 94252},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94035},
+																	pos: position{line: 2972, col: 12, offset: 94025},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94036},
+																		pos: position{line: 2972, col: 13, offset: 94026},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94036},
+																				pos:        position{line: 2972, col: 13, offset: 94026},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94043},
+																				pos:        position{line: 2972, col: 20, offset: 94033},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94052},
+																				pos:        position{line: 2972, col: 29, offset: 94042},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42404,9 +42404,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -42420,24 +42420,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58652},
+							pos:   position{line: 1814, col: 5, offset: 58642},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1828, col: 5, offset: 59065},
+								pos: position{line: 1828, col: 5, offset: 59055},
 								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1828, col: 5, offset: 59065},
+									pos: position{line: 1828, col: 5, offset: 59055},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1828, col: 5, offset: 59065},
+											pos:   position{line: 1828, col: 5, offset: 59055},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 14, offset: 91618},
+												pos: position{line: 2886, col: 14, offset: 91608},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2886, col: 14, offset: 91618},
+													pos: position{line: 2886, col: 14, offset: 91608},
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 14, offset: 91618},
+														pos:        position{line: 2886, col: 14, offset: 91608},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42447,32 +42447,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1829, col: 5, offset: 59089},
+											pos: position{line: 1829, col: 5, offset: 59079},
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2985, col: 8, offset: 94262},
+											pos: position{line: 2985, col: 8, offset: 94252},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2972, col: 12, offset: 94035},
+													pos: position{line: 2972, col: 12, offset: 94025},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2972, col: 13, offset: 94036},
+														pos: position{line: 2972, col: 13, offset: 94026},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2972, col: 13, offset: 94036},
+																pos:        position{line: 2972, col: 13, offset: 94026},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 20, offset: 94043},
+																pos:        position{line: 2972, col: 20, offset: 94033},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 29, offset: 94052},
+																pos:        position{line: 2972, col: 29, offset: 94042},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42481,9 +42481,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94212},
+													pos: position{line: 2982, col: 8, offset: 94202},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94213,
+														line: 2982, col: 9, offset: 94203,
 													},
 												},
 											},
@@ -42493,24 +42493,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58686},
+							pos:   position{line: 1815, col: 5, offset: 58676},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1815, col: 16, offset: 58697},
+								pos: position{line: 1815, col: 16, offset: 58687},
 								expr: &actionExpr{
-									pos: position{line: 1816, col: 9, offset: 58707},
+									pos: position{line: 1816, col: 9, offset: 58697},
 									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1816, col: 9, offset: 58707},
+										pos: position{line: 1816, col: 9, offset: 58697},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94198},
+												pos: position{line: 2980, col: 11, offset: 94188},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94200,
+													line: 2980, col: 13, offset: 94190,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1817, col: 9, offset: 58722},
+												pos: position{line: 1817, col: 9, offset: 58712},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph81,
@@ -42518,18 +42518,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94198},
+																pos: position{line: 2980, col: 11, offset: 94188},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94200,
+																	line: 2980, col: 13, offset: 94190,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42538,28 +42538,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94262},
+																pos: position{line: 2985, col: 8, offset: 94252},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94035},
+																		pos: position{line: 2972, col: 12, offset: 94025},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94036},
+																			pos: position{line: 2972, col: 13, offset: 94026},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94036},
+																					pos:        position{line: 2972, col: 13, offset: 94026},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94043},
+																					pos:        position{line: 2972, col: 20, offset: 94033},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94052},
+																					pos:        position{line: 2972, col: 29, offset: 94042},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42568,9 +42568,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94212},
+																		pos: position{line: 2982, col: 8, offset: 94202},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94213,
+																			line: 2982, col: 9, offset: 94203,
 																		},
 																	},
 																},
@@ -42580,16 +42580,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1818, col: 9, offset: 58741},
+												pos: position{line: 1818, col: 9, offset: 58731},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1818, col: 10, offset: 58742},
+													pos:  position{line: 1818, col: 10, offset: 58732},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1819, col: 9, offset: 58766},
+												pos: position{line: 1819, col: 9, offset: 58756},
 												expr: &choiceExpr{
-													pos: position{line: 1819, col: 11, offset: 58768},
+													pos: position{line: 1819, col: 11, offset: 58758},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42600,7 +42600,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2817, col: 13, offset: 89812},
+																			pos:        position{line: 2817, col: 13, offset: 89802},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42650,10 +42650,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42662,28 +42662,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42692,9 +42692,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -42739,10 +42739,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42751,28 +42751,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42781,9 +42781,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -42824,10 +42824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42836,28 +42836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42866,9 +42866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -42913,10 +42913,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42925,28 +42925,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42955,9 +42955,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43002,10 +43002,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43014,28 +43014,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43044,9 +43044,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43091,10 +43091,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43103,28 +43103,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43133,9 +43133,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43180,10 +43180,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43192,28 +43192,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43222,9 +43222,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43269,10 +43269,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43281,28 +43281,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43311,9 +43311,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43358,10 +43358,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93864},
+																									pos: position{line: 2963, col: 10, offset: 93854},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93864},
+																										pos:        position{line: 2963, col: 10, offset: 93854},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43370,28 +43370,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94262},
+																								pos: position{line: 2985, col: 8, offset: 94252},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94035},
+																										pos: position{line: 2972, col: 12, offset: 94025},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94036},
+																											pos: position{line: 2972, col: 13, offset: 94026},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94036},
+																													pos:        position{line: 2972, col: 13, offset: 94026},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94043},
+																													pos:        position{line: 2972, col: 20, offset: 94033},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94052},
+																													pos:        position{line: 2972, col: 29, offset: 94042},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43400,9 +43400,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94212},
+																										pos: position{line: 2982, col: 8, offset: 94202},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94213,
+																											line: 2982, col: 9, offset: 94203,
 																										},
 																									},
 																								},
@@ -43439,10 +43439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43451,28 +43451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43481,9 +43481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -43492,21 +43492,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85264},
+															pos: position{line: 2665, col: 19, offset: 85254},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85264},
+																	pos:        position{line: 2665, col: 19, offset: 85254},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85271},
+																	pos: position{line: 2665, col: 26, offset: 85261},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43515,28 +43515,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43545,9 +43545,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -43558,42 +43558,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1820, col: 9, offset: 58830},
+												pos:   position{line: 1820, col: 9, offset: 58820},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1820, col: 15, offset: 58836},
+													pos: position{line: 1820, col: 15, offset: 58826},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81507},
+															pos: position{line: 2530, col: 22, offset: 81497},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81507},
+																pos: position{line: 2530, col: 22, offset: 81497},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81728},
+																		pos:        position{line: 2535, col: 31, offset: 81718},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81733},
+																		pos: position{line: 2535, col: 36, offset: 81723},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81734},
+																			pos:        position{line: 2535, col: 37, offset: 81724},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81534},
+																		pos:   position{line: 2530, col: 49, offset: 81524},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91551},
+																			pos: position{line: 2882, col: 13, offset: 91541},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91551},
+																				pos: position{line: 2882, col: 13, offset: 91541},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91551},
+																					pos:        position{line: 2882, col: 13, offset: 91541},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43603,28 +43603,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43633,9 +43633,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -43644,21 +43644,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1828, col: 5, offset: 59065},
+															pos: position{line: 1828, col: 5, offset: 59055},
 															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1828, col: 5, offset: 59065},
+																pos: position{line: 1828, col: 5, offset: 59055},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1828, col: 5, offset: 59065},
+																		pos:   position{line: 1828, col: 5, offset: 59055},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91618},
+																			pos: position{line: 2886, col: 14, offset: 91608},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91618},
+																				pos: position{line: 2886, col: 14, offset: 91608},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91618},
+																					pos:        position{line: 2886, col: 14, offset: 91608},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43668,32 +43668,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1829, col: 5, offset: 59089},
+																		pos: position{line: 1829, col: 5, offset: 59079},
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94262},
+																		pos: position{line: 2985, col: 8, offset: 94252},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
+																				pos: position{line: 2972, col: 12, offset: 94025},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43702,9 +43702,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94212},
+																				pos: position{line: 2982, col: 8, offset: 94202},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94213,
+																					line: 2982, col: 9, offset: 94203,
 																				},
 																			},
 																		},
@@ -43726,16 +43726,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59572},
+			pos:  position{line: 1839, col: 1, offset: 59562},
 			expr: &choiceExpr{
-				pos: position{line: 1839, col: 15, offset: 59586},
+				pos: position{line: 1839, col: 15, offset: 59576},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 15, offset: 59586},
+						pos:  position{line: 1839, col: 15, offset: 59576},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 35, offset: 59606},
+						pos:  position{line: 1839, col: 35, offset: 59596},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43743,65 +43743,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1841, col: 1, offset: 59627},
+			pos:  position{line: 1841, col: 1, offset: 59617},
 			expr: &actionExpr{
-				pos: position{line: 1842, col: 5, offset: 59652},
+				pos: position{line: 1842, col: 5, offset: 59642},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1842, col: 5, offset: 59652},
+					pos: position{line: 1842, col: 5, offset: 59642},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59652},
+							pos:   position{line: 1842, col: 5, offset: 59642},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1842, col: 16, offset: 59663},
+								pos: position{line: 1842, col: 16, offset: 59653},
 								expr: &actionExpr{
-									pos: position{line: 1842, col: 17, offset: 59664},
+									pos: position{line: 1842, col: 17, offset: 59654},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1842, col: 17, offset: 59664},
+										pos:  position{line: 1842, col: 17, offset: 59654},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1845, col: 5, offset: 59732},
+							pos: position{line: 1845, col: 5, offset: 59722},
 							expr: &litMatcher{
-								pos:        position{line: 1845, col: 7, offset: 59734},
+								pos:        position{line: 1845, col: 7, offset: 59724},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1846, col: 5, offset: 59743},
+							pos:   position{line: 1846, col: 5, offset: 59733},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1847, col: 9, offset: 59761},
+								pos: position{line: 1847, col: 9, offset: 59751},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 9, offset: 59761},
+										pos:  position{line: 1847, col: 9, offset: 59751},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59788},
+										pos:  position{line: 1848, col: 11, offset: 59778},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 11, offset: 59816},
+										pos:  position{line: 1849, col: 11, offset: 59806},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1850, col: 11, offset: 59847},
+										pos:  position{line: 1850, col: 11, offset: 59837},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1851, col: 11, offset: 59875},
+										pos:  position{line: 1851, col: 11, offset: 59865},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1852, col: 11, offset: 59906},
+										pos:  position{line: 1852, col: 11, offset: 59896},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43813,36 +43813,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1857, col: 1, offset: 60026},
+			pos:  position{line: 1857, col: 1, offset: 60016},
 			expr: &actionExpr{
-				pos: position{line: 1858, col: 5, offset: 60068},
+				pos: position{line: 1858, col: 5, offset: 60058},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1858, col: 5, offset: 60068},
+					pos: position{line: 1858, col: 5, offset: 60058},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1858, col: 5, offset: 60068},
+							pos:   position{line: 1858, col: 5, offset: 60058},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1858, col: 16, offset: 60079},
+								pos: position{line: 1858, col: 16, offset: 60069},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1858, col: 17, offset: 60080},
+									pos:  position{line: 1858, col: 17, offset: 60070},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1859, col: 5, offset: 60105},
+							pos:   position{line: 1859, col: 5, offset: 60095},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1859, col: 14, offset: 60114},
+								pos: position{line: 1859, col: 14, offset: 60104},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1859, col: 14, offset: 60114},
+										pos:  position{line: 1859, col: 14, offset: 60104},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1859, col: 33, offset: 60133},
+										pos:  position{line: 1859, col: 33, offset: 60123},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43854,32 +43854,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1867, col: 1, offset: 60364},
+			pos:  position{line: 1867, col: 1, offset: 60354},
 			expr: &choiceExpr{
-				pos: position{line: 1868, col: 5, offset: 60389},
+				pos: position{line: 1868, col: 5, offset: 60379},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 5, offset: 60389},
+						pos:  position{line: 1868, col: 5, offset: 60379},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60416},
+						pos:  position{line: 1869, col: 7, offset: 60406},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60444},
+						pos:  position{line: 1870, col: 7, offset: 60434},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 7, offset: 60476},
+						pos:  position{line: 1871, col: 7, offset: 60466},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60504},
+						pos:  position{line: 1872, col: 7, offset: 60494},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60525},
+						pos:  position{line: 1873, col: 7, offset: 60515},
 						name: "SuperscriptText",
 					},
 				},
@@ -43887,24 +43887,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1875, col: 1, offset: 60543},
+			pos:  position{line: 1875, col: 1, offset: 60533},
 			expr: &choiceExpr{
-				pos: position{line: 1876, col: 5, offset: 60568},
+				pos: position{line: 1876, col: 5, offset: 60558},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1876, col: 5, offset: 60568},
+						pos:  position{line: 1876, col: 5, offset: 60558},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60594},
+						pos:  position{line: 1877, col: 7, offset: 60584},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60622},
+						pos:  position{line: 1878, col: 7, offset: 60612},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60653},
+						pos:  position{line: 1879, col: 7, offset: 60643},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43912,35 +43912,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1893, col: 1, offset: 61007},
+			pos:  position{line: 1893, col: 1, offset: 60997},
 			expr: &choiceExpr{
-				pos: position{line: 1894, col: 5, offset: 61033},
+				pos: position{line: 1894, col: 5, offset: 61023},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2826, col: 5, offset: 89959},
+						pos: position{line: 2826, col: 5, offset: 89949},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2826, col: 5, offset: 89959},
+							pos: position{line: 2826, col: 5, offset: 89949},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2826, col: 5, offset: 89959},
+									pos: position{line: 2826, col: 5, offset: 89949},
 									expr: &seqExpr{
-										pos: position{line: 2827, col: 9, offset: 89970},
+										pos: position{line: 2827, col: 9, offset: 89960},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2827, col: 9, offset: 89970},
+												pos: position{line: 2827, col: 9, offset: 89960},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2830, col: 9, offset: 90033},
+												pos:   position{line: 2830, col: 9, offset: 90023},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2802, col: 18, offset: 89345},
+													pos: position{line: 2802, col: 18, offset: 89335},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 19, offset: 89346},
+														pos: position{line: 2802, col: 19, offset: 89336},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 19, offset: 89346},
+															pos:        position{line: 2802, col: 19, offset: 89336},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43951,28 +43951,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2830, col: 30, offset: 90054},
+												pos:        position{line: 2830, col: 30, offset: 90044},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2831, col: 9, offset: 90141},
+												pos: position{line: 2831, col: 9, offset: 90131},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2835, col: 5, offset: 90253},
+									pos:   position{line: 2835, col: 5, offset: 90243},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 11, offset: 90259},
+										pos: position{line: 2835, col: 11, offset: 90249},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2835, col: 11, offset: 90259},
+											pos: position{line: 2835, col: 11, offset: 90249},
 											expr: &charClassMatcher{
-												pos:        position{line: 2835, col: 11, offset: 90259},
+												pos:        position{line: 2835, col: 11, offset: 90249},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43982,32 +43982,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2838, col: 5, offset: 90317},
+									pos: position{line: 2838, col: 5, offset: 90307},
 									expr: &seqExpr{
-										pos: position{line: 2839, col: 9, offset: 90328},
+										pos: position{line: 2839, col: 9, offset: 90318},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2839, col: 9, offset: 90328},
+												pos:        position{line: 2839, col: 9, offset: 90318},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2840, col: 9, offset: 90377},
+												pos: position{line: 2840, col: 9, offset: 90367},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2844, col: 5, offset: 90457},
+									pos: position{line: 2844, col: 5, offset: 90447},
 									expr: &seqExpr{
-										pos: position{line: 2845, col: 9, offset: 90468},
+										pos: position{line: 2845, col: 9, offset: 90458},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2845, col: 9, offset: 90468},
+												pos: position{line: 2845, col: 9, offset: 90458},
 												expr: &charClassMatcher{
-													pos:        position{line: 2845, col: 9, offset: 90468},
+													pos:        position{line: 2845, col: 9, offset: 90458},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44016,13 +44016,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2845, col: 23, offset: 90482},
+												pos:        position{line: 2845, col: 23, offset: 90472},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2845, col: 27, offset: 90486},
+												pos:        position{line: 2845, col: 27, offset: 90476},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44035,12 +44035,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2967, col: 11, offset: 93925},
+						pos: position{line: 2967, col: 11, offset: 93915},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2967, col: 11, offset: 93925},
+							pos: position{line: 2967, col: 11, offset: 93915},
 							expr: &charClassMatcher{
-								pos:        position{line: 2967, col: 11, offset: 93925},
+								pos:        position{line: 2967, col: 11, offset: 93915},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -44049,29 +44049,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1896, col: 7, offset: 61096},
+						pos:  position{line: 1896, col: 7, offset: 61086},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 5, offset: 82224},
+						pos: position{line: 2548, col: 5, offset: 82214},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 5, offset: 82224},
+							pos: position{line: 2548, col: 5, offset: 82214},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 82224},
+									pos: position{line: 2548, col: 5, offset: 82214},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2551, col: 5, offset: 82295},
+									pos:        position{line: 2551, col: 5, offset: 82285},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2551, col: 10, offset: 82300},
+									pos: position{line: 2551, col: 10, offset: 82290},
 									expr: &charClassMatcher{
-										pos:        position{line: 2551, col: 11, offset: 82301},
+										pos:        position{line: 2551, col: 11, offset: 82291},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44082,29 +44082,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82487},
+						pos: position{line: 2557, col: 5, offset: 82477},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82487},
+							pos: position{line: 2557, col: 5, offset: 82477},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2557, col: 5, offset: 82487},
+									pos: position{line: 2557, col: 5, offset: 82477},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2560, col: 5, offset: 82558},
+									pos: position{line: 2560, col: 5, offset: 82548},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2564, col: 5, offset: 82683},
+									pos:        position{line: 2564, col: 5, offset: 82673},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2564, col: 9, offset: 82687},
+									pos: position{line: 2564, col: 9, offset: 82677},
 									expr: &charClassMatcher{
-										pos:        position{line: 2564, col: 10, offset: 82688},
+										pos:        position{line: 2564, col: 10, offset: 82678},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44115,27 +44115,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2853, col: 5, offset: 90679},
+						pos: position{line: 2853, col: 5, offset: 90669},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2854, col: 9, offset: 90689},
+							pos: position{line: 2854, col: 9, offset: 90679},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2854, col: 10, offset: 90690},
+									pos:        position{line: 2854, col: 10, offset: 90680},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2856, col: 13, offset: 90787},
+									pos: position{line: 2856, col: 13, offset: 90777},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2856, col: 13, offset: 90787},
+											pos: position{line: 2856, col: 13, offset: 90777},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2859, col: 13, offset: 90887},
+											pos:        position{line: 2859, col: 13, offset: 90877},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -44143,20 +44143,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2859, col: 19, offset: 90893},
+									pos:        position{line: 2859, col: 19, offset: 90883},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2862, col: 13, offset: 90931},
+									pos: position{line: 2862, col: 13, offset: 90921},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2862, col: 13, offset: 90931},
+											pos: position{line: 2862, col: 13, offset: 90921},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2865, col: 14, offset: 91024},
+											pos:        position{line: 2865, col: 14, offset: 91014},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -44165,18 +44165,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2867, col: 12, offset: 91068},
+									pos: position{line: 2867, col: 12, offset: 91058},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91068},
+											pos:        position{line: 2867, col: 12, offset: 91058},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2867, col: 16, offset: 91072},
+											pos: position{line: 2867, col: 16, offset: 91062},
 											expr: &litMatcher{
-												pos:        position{line: 2867, col: 17, offset: 91073},
+												pos:        position{line: 2867, col: 17, offset: 91063},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44534,31 +44534,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2976, col: 18, offset: 94135},
+						pos: position{line: 2976, col: 18, offset: 94125},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2976, col: 18, offset: 94135},
+							pos: position{line: 2976, col: 18, offset: 94125},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44567,27 +44567,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2976, col: 26, offset: 94143},
+									pos: position{line: 2976, col: 26, offset: 94133},
 									expr: &actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94035},
+										pos: position{line: 2972, col: 12, offset: 94025},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94036},
+											pos: position{line: 2972, col: 13, offset: 94026},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94036},
+													pos:        position{line: 2972, col: 13, offset: 94026},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94043},
+													pos:        position{line: 2972, col: 20, offset: 94033},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94052},
+													pos:        position{line: 2972, col: 29, offset: 94042},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44600,31 +44600,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1901, col: 7, offset: 61263},
+						pos:  position{line: 1901, col: 7, offset: 61253},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1902, col: 7, offset: 61310},
+						pos:  position{line: 1902, col: 7, offset: 61300},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2517, col: 5, offset: 81053},
+						pos: position{line: 2517, col: 5, offset: 81043},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2517, col: 5, offset: 81053},
+							pos: position{line: 2517, col: 5, offset: 81043},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2517, col: 5, offset: 81053},
+									pos: position{line: 2517, col: 5, offset: 81043},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2520, col: 5, offset: 81129},
+									pos:   position{line: 2520, col: 5, offset: 81119},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2521, col: 9, offset: 81147},
+										pos: position{line: 2521, col: 9, offset: 81137},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2521, col: 10, offset: 81148},
+											pos:        position{line: 2521, col: 10, offset: 81138},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44675,10 +44675,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2875, col: 12, offset: 91333},
+						pos: position{line: 2875, col: 12, offset: 91323},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2875, col: 12, offset: 91333},
+							pos:        position{line: 2875, col: 12, offset: 91323},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44690,33 +44690,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1923, col: 1, offset: 61878},
+			pos:  position{line: 1923, col: 1, offset: 61868},
 			expr: &actionExpr{
-				pos: position{line: 1924, col: 5, offset: 61906},
+				pos: position{line: 1924, col: 5, offset: 61896},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1924, col: 5, offset: 61906},
+					pos: position{line: 1924, col: 5, offset: 61896},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1916, col: 38, offset: 61733},
+							pos: position{line: 1916, col: 38, offset: 61723},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1916, col: 38, offset: 61733},
+								pos:        position{line: 1916, col: 38, offset: 61723},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1925, col: 5, offset: 61945},
+							pos:   position{line: 1925, col: 5, offset: 61935},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1925, col: 15, offset: 61955},
+								pos:  position{line: 1925, col: 15, offset: 61945},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1921, col: 36, offset: 61872},
+							pos:        position{line: 1921, col: 36, offset: 61862},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44727,44 +44727,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1930, col: 1, offset: 62115},
+			pos:  position{line: 1930, col: 1, offset: 62105},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1930, col: 32, offset: 62146},
+				pos: position{line: 1930, col: 32, offset: 62136},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1930, col: 32, offset: 62146},
+					pos:  position{line: 1930, col: 32, offset: 62136},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1932, col: 1, offset: 62177},
+			pos:  position{line: 1932, col: 1, offset: 62167},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62212},
+				pos: position{line: 1933, col: 5, offset: 62202},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62212},
+					pos: position{line: 1933, col: 5, offset: 62202},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1934, col: 5, offset: 62223},
+							pos: position{line: 1934, col: 5, offset: 62213},
 							expr: &litMatcher{
-								pos:        position{line: 1921, col: 36, offset: 61872},
+								pos:        position{line: 1921, col: 36, offset: 61862},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62260},
+							pos:   position{line: 1935, col: 5, offset: 62250},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1935, col: 14, offset: 62269},
+								pos:  position{line: 1935, col: 14, offset: 62259},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44774,29 +44774,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1960, col: 1, offset: 62949},
+			pos:  position{line: 1960, col: 1, offset: 62939},
 			expr: &actionExpr{
-				pos: position{line: 1961, col: 5, offset: 62977},
+				pos: position{line: 1961, col: 5, offset: 62967},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1961, col: 5, offset: 62977},
+					pos: position{line: 1961, col: 5, offset: 62967},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62503},
+							pos:        position{line: 1944, col: 5, offset: 62493},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1945, col: 5, offset: 62512},
+							pos: position{line: 1945, col: 5, offset: 62502},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1949, col: 5, offset: 62630},
+							pos: position{line: 1949, col: 5, offset: 62620},
 							expr: &notExpr{
-								pos: position{line: 1949, col: 7, offset: 62632},
+								pos: position{line: 1949, col: 7, offset: 62622},
 								expr: &litMatcher{
-									pos:        position{line: 1949, col: 8, offset: 62633},
+									pos:        position{line: 1949, col: 8, offset: 62623},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44804,38 +44804,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1962, col: 5, offset: 63015},
+							pos:   position{line: 1962, col: 5, offset: 63005},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1962, col: 15, offset: 63025},
+								pos:  position{line: 1962, col: 15, offset: 63015},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1952, col: 5, offset: 62753},
+							pos:        position{line: 1952, col: 5, offset: 62743},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1953, col: 5, offset: 62762},
+							pos: position{line: 1953, col: 5, offset: 62752},
 							expr: &litMatcher{
-								pos:        position{line: 1953, col: 6, offset: 62763},
+								pos:        position{line: 1953, col: 6, offset: 62753},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1954, col: 5, offset: 62826},
+							pos: position{line: 1954, col: 5, offset: 62816},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1958, col: 5, offset: 62935},
+							pos: position{line: 1958, col: 5, offset: 62925},
 							expr: &notExpr{
-								pos: position{line: 1958, col: 7, offset: 62937},
+								pos: position{line: 1958, col: 7, offset: 62927},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89812},
+									pos:        position{line: 2817, col: 13, offset: 89802},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44849,17 +44849,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1967, col: 1, offset: 63185},
+			pos:  position{line: 1967, col: 1, offset: 63175},
 			expr: &actionExpr{
-				pos: position{line: 1968, col: 5, offset: 63222},
+				pos: position{line: 1968, col: 5, offset: 63212},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1968, col: 5, offset: 63222},
+					pos: position{line: 1968, col: 5, offset: 63212},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1968, col: 5, offset: 63222},
+							pos: position{line: 1968, col: 5, offset: 63212},
 							expr: &charClassMatcher{
-								pos:        position{line: 1968, col: 6, offset: 63223},
+								pos:        position{line: 1968, col: 6, offset: 63213},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44867,18 +44867,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1969, col: 5, offset: 63265},
+							pos:   position{line: 1969, col: 5, offset: 63255},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1969, col: 14, offset: 63274},
+								pos: position{line: 1969, col: 14, offset: 63264},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1969, col: 15, offset: 63275},
+									pos:  position{line: 1969, col: 15, offset: 63265},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1970, col: 5, offset: 63309},
+							pos: position{line: 1970, col: 5, offset: 63299},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44887,49 +44887,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1976, col: 1, offset: 63450},
+			pos:  position{line: 1976, col: 1, offset: 63440},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63485},
+				pos: position{line: 1977, col: 5, offset: 63475},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63485},
+					pos: position{line: 1977, col: 5, offset: 63475},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1978, col: 5, offset: 63513},
+							pos: position{line: 1978, col: 5, offset: 63503},
 							expr: &seqExpr{
-								pos: position{line: 1952, col: 5, offset: 62753},
+								pos: position{line: 1952, col: 5, offset: 62743},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1952, col: 5, offset: 62753},
+										pos:        position{line: 1952, col: 5, offset: 62743},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1953, col: 5, offset: 62762},
+										pos: position{line: 1953, col: 5, offset: 62752},
 										expr: &litMatcher{
-											pos:        position{line: 1953, col: 6, offset: 62763},
+											pos:        position{line: 1953, col: 6, offset: 62753},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1954, col: 5, offset: 62826},
+										pos: position{line: 1954, col: 5, offset: 62816},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1958, col: 5, offset: 62935},
+										pos: position{line: 1958, col: 5, offset: 62925},
 										expr: &notExpr{
-											pos: position{line: 1958, col: 7, offset: 62937},
+											pos: position{line: 1958, col: 7, offset: 62927},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89812},
+												pos:        position{line: 2817, col: 13, offset: 89802},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44941,10 +44941,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63550},
+							pos:   position{line: 1979, col: 5, offset: 63540},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 14, offset: 63559},
+								pos:  position{line: 1979, col: 14, offset: 63549},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44954,35 +44954,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1984, col: 1, offset: 63647},
+			pos:  position{line: 1984, col: 1, offset: 63637},
 			expr: &choiceExpr{
-				pos: position{line: 1986, col: 5, offset: 63708},
+				pos: position{line: 1986, col: 5, offset: 63698},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1986, col: 5, offset: 63708},
+						pos: position{line: 1986, col: 5, offset: 63698},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 5, offset: 63708},
+							pos: position{line: 1986, col: 5, offset: 63698},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 5, offset: 63708},
+									pos:   position{line: 1986, col: 5, offset: 63698},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60953},
+										pos: position{line: 1889, col: 25, offset: 60943},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60953},
+											pos: position{line: 1889, col: 25, offset: 60943},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60953},
+													pos:        position{line: 1889, col: 25, offset: 60943},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60958},
+													pos: position{line: 1889, col: 30, offset: 60948},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60958},
+														pos:        position{line: 1889, col: 30, offset: 60948},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44993,25 +44993,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1916, col: 38, offset: 61733},
+									pos: position{line: 1916, col: 38, offset: 61723},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1916, col: 38, offset: 61733},
+										pos:        position{line: 1916, col: 38, offset: 61723},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 74, offset: 63777},
+									pos:   position{line: 1986, col: 74, offset: 63767},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 84, offset: 63787},
+										pos:  position{line: 1986, col: 84, offset: 63777},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 113, offset: 63816},
+									pos:        position{line: 1986, col: 113, offset: 63806},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -45020,21 +45020,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1990, col: 7, offset: 63976},
+						pos: position{line: 1990, col: 7, offset: 63966},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1990, col: 7, offset: 63976},
+							pos: position{line: 1990, col: 7, offset: 63966},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1990, col: 7, offset: 63976},
+									pos:   position{line: 1990, col: 7, offset: 63966},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45043,21 +45043,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1990, col: 42, offset: 64011},
+									pos:        position{line: 1990, col: 42, offset: 64001},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1990, col: 47, offset: 64016},
+									pos:   position{line: 1990, col: 47, offset: 64006},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1990, col: 57, offset: 64026},
+										pos:  position{line: 1990, col: 57, offset: 64016},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1990, col: 86, offset: 64055},
+									pos:        position{line: 1990, col: 86, offset: 64045},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45066,21 +45066,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1995, col: 7, offset: 64253},
+						pos: position{line: 1995, col: 7, offset: 64243},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1995, col: 7, offset: 64253},
+							pos: position{line: 1995, col: 7, offset: 64243},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1995, col: 7, offset: 64253},
+									pos:   position{line: 1995, col: 7, offset: 64243},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45089,21 +45089,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1995, col: 42, offset: 64288},
+									pos:        position{line: 1995, col: 42, offset: 64278},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1995, col: 46, offset: 64292},
+									pos:   position{line: 1995, col: 46, offset: 64282},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1995, col: 56, offset: 64302},
+										pos:  position{line: 1995, col: 56, offset: 64292},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1995, col: 85, offset: 64331},
+									pos:        position{line: 1995, col: 85, offset: 64321},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45116,33 +45116,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 64905},
+			pos:  position{line: 2015, col: 1, offset: 64895},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 64935},
+				pos: position{line: 2016, col: 5, offset: 64925},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 64935},
+					pos: position{line: 2016, col: 5, offset: 64925},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2008, col: 40, offset: 64758},
+							pos: position{line: 2008, col: 40, offset: 64748},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 40, offset: 64758},
+								pos:        position{line: 2008, col: 40, offset: 64748},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64976},
+							pos:   position{line: 2017, col: 5, offset: 64966},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 64986},
+								pos:  position{line: 2017, col: 15, offset: 64976},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2013, col: 38, offset: 64899},
+							pos:        position{line: 2013, col: 38, offset: 64889},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -45153,44 +45153,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 65151},
+			pos:  position{line: 2022, col: 1, offset: 65141},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2022, col: 34, offset: 65184},
+				pos: position{line: 2022, col: 34, offset: 65174},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2022, col: 34, offset: 65184},
+					pos:  position{line: 2022, col: 34, offset: 65174},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2024, col: 1, offset: 65216},
+			pos:  position{line: 2024, col: 1, offset: 65206},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65253},
+				pos: position{line: 2025, col: 5, offset: 65243},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65253},
+					pos: position{line: 2025, col: 5, offset: 65243},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2026, col: 5, offset: 65264},
+							pos: position{line: 2026, col: 5, offset: 65254},
 							expr: &litMatcher{
-								pos:        position{line: 2013, col: 38, offset: 64899},
+								pos:        position{line: 2013, col: 38, offset: 64889},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2027, col: 5, offset: 65303},
+							pos:   position{line: 2027, col: 5, offset: 65293},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2027, col: 14, offset: 65312},
+								pos:  position{line: 2027, col: 14, offset: 65302},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45200,29 +45200,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2053, col: 1, offset: 65996},
+			pos:  position{line: 2053, col: 1, offset: 65986},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66026},
+				pos: position{line: 2054, col: 5, offset: 66016},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66026},
+					pos: position{line: 2054, col: 5, offset: 66016},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2036, col: 5, offset: 65554},
+							pos:        position{line: 2036, col: 5, offset: 65544},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2037, col: 5, offset: 65563},
+							pos: position{line: 2037, col: 5, offset: 65553},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2041, col: 5, offset: 65683},
+							pos: position{line: 2041, col: 5, offset: 65673},
 							expr: &notExpr{
-								pos: position{line: 2041, col: 7, offset: 65685},
+								pos: position{line: 2041, col: 7, offset: 65675},
 								expr: &litMatcher{
-									pos:        position{line: 2041, col: 8, offset: 65686},
+									pos:        position{line: 2041, col: 8, offset: 65676},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45230,38 +45230,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2055, col: 5, offset: 66066},
+							pos:   position{line: 2055, col: 5, offset: 66056},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2055, col: 15, offset: 66076},
+								pos:  position{line: 2055, col: 15, offset: 66066},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2045, col: 5, offset: 65796},
+							pos:        position{line: 2045, col: 5, offset: 65786},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2046, col: 5, offset: 65805},
+							pos: position{line: 2046, col: 5, offset: 65795},
 							expr: &litMatcher{
-								pos:        position{line: 2046, col: 6, offset: 65806},
+								pos:        position{line: 2046, col: 6, offset: 65796},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65871},
+							pos: position{line: 2047, col: 5, offset: 65861},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2051, col: 5, offset: 65982},
+							pos: position{line: 2051, col: 5, offset: 65972},
 							expr: &notExpr{
-								pos: position{line: 2051, col: 7, offset: 65984},
+								pos: position{line: 2051, col: 7, offset: 65974},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89812},
+									pos:        position{line: 2817, col: 13, offset: 89802},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45275,17 +45275,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2060, col: 1, offset: 66243},
+			pos:  position{line: 2060, col: 1, offset: 66233},
 			expr: &actionExpr{
-				pos: position{line: 2061, col: 5, offset: 66281},
+				pos: position{line: 2061, col: 5, offset: 66271},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2061, col: 5, offset: 66281},
+					pos: position{line: 2061, col: 5, offset: 66271},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2061, col: 5, offset: 66281},
+							pos: position{line: 2061, col: 5, offset: 66271},
 							expr: &charClassMatcher{
-								pos:        position{line: 2061, col: 6, offset: 66282},
+								pos:        position{line: 2061, col: 6, offset: 66272},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45293,18 +45293,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2062, col: 5, offset: 66324},
+							pos:   position{line: 2062, col: 5, offset: 66314},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2062, col: 14, offset: 66333},
+								pos: position{line: 2062, col: 14, offset: 66323},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2062, col: 15, offset: 66334},
+									pos:  position{line: 2062, col: 15, offset: 66324},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2063, col: 5, offset: 66369},
+							pos: position{line: 2063, col: 5, offset: 66359},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -45313,49 +45313,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2069, col: 1, offset: 66510},
+			pos:  position{line: 2069, col: 1, offset: 66500},
 			expr: &actionExpr{
-				pos: position{line: 2070, col: 5, offset: 66547},
+				pos: position{line: 2070, col: 5, offset: 66537},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2070, col: 5, offset: 66547},
+					pos: position{line: 2070, col: 5, offset: 66537},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2071, col: 5, offset: 66558},
+							pos: position{line: 2071, col: 5, offset: 66548},
 							expr: &seqExpr{
-								pos: position{line: 2045, col: 5, offset: 65796},
+								pos: position{line: 2045, col: 5, offset: 65786},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2045, col: 5, offset: 65796},
+										pos:        position{line: 2045, col: 5, offset: 65786},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2046, col: 5, offset: 65805},
+										pos: position{line: 2046, col: 5, offset: 65795},
 										expr: &litMatcher{
-											pos:        position{line: 2046, col: 6, offset: 65806},
+											pos:        position{line: 2046, col: 6, offset: 65796},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2047, col: 5, offset: 65871},
+										pos: position{line: 2047, col: 5, offset: 65861},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2051, col: 5, offset: 65982},
+										pos: position{line: 2051, col: 5, offset: 65972},
 										expr: &notExpr{
-											pos: position{line: 2051, col: 7, offset: 65984},
+											pos: position{line: 2051, col: 7, offset: 65974},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89812},
+												pos:        position{line: 2817, col: 13, offset: 89802},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45367,10 +45367,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2072, col: 5, offset: 66597},
+							pos:   position{line: 2072, col: 5, offset: 66587},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2072, col: 14, offset: 66606},
+								pos:  position{line: 2072, col: 14, offset: 66596},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45380,35 +45380,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2077, col: 1, offset: 66694},
+			pos:  position{line: 2077, col: 1, offset: 66684},
 			expr: &choiceExpr{
-				pos: position{line: 2079, col: 5, offset: 66759},
+				pos: position{line: 2079, col: 5, offset: 66749},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2079, col: 5, offset: 66759},
+						pos: position{line: 2079, col: 5, offset: 66749},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 5, offset: 66759},
+							pos: position{line: 2079, col: 5, offset: 66749},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 5, offset: 66759},
+									pos:   position{line: 2079, col: 5, offset: 66749},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60953},
+										pos: position{line: 1889, col: 25, offset: 60943},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60953},
+											pos: position{line: 1889, col: 25, offset: 60943},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60953},
+													pos:        position{line: 1889, col: 25, offset: 60943},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60958},
+													pos: position{line: 1889, col: 30, offset: 60948},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60958},
+														pos:        position{line: 1889, col: 30, offset: 60948},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45419,25 +45419,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2008, col: 40, offset: 64758},
+									pos: position{line: 2008, col: 40, offset: 64748},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2008, col: 40, offset: 64758},
+										pos:        position{line: 2008, col: 40, offset: 64748},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 76, offset: 66830},
+									pos:   position{line: 2079, col: 76, offset: 66820},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 86, offset: 66840},
+										pos:  position{line: 2079, col: 86, offset: 66830},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 117, offset: 66871},
+									pos:        position{line: 2079, col: 117, offset: 66861},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -45446,21 +45446,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2083, col: 7, offset: 67032},
+						pos: position{line: 2083, col: 7, offset: 67022},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2083, col: 7, offset: 67032},
+							pos: position{line: 2083, col: 7, offset: 67022},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2083, col: 7, offset: 67032},
+									pos:   position{line: 2083, col: 7, offset: 67022},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45469,21 +45469,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2083, col: 42, offset: 67067},
+									pos:        position{line: 2083, col: 42, offset: 67057},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2083, col: 47, offset: 67072},
+									pos:   position{line: 2083, col: 47, offset: 67062},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2083, col: 57, offset: 67082},
+										pos:  position{line: 2083, col: 57, offset: 67072},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2083, col: 88, offset: 67113},
+									pos:        position{line: 2083, col: 88, offset: 67103},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45492,21 +45492,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2088, col: 7, offset: 67350},
+						pos: position{line: 2088, col: 7, offset: 67340},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2088, col: 7, offset: 67350},
+							pos: position{line: 2088, col: 7, offset: 67340},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2088, col: 7, offset: 67350},
+									pos:   position{line: 2088, col: 7, offset: 67340},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45515,21 +45515,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2088, col: 42, offset: 67385},
+									pos:        position{line: 2088, col: 42, offset: 67375},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2088, col: 46, offset: 67389},
+									pos:   position{line: 2088, col: 46, offset: 67379},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2088, col: 56, offset: 67399},
+										pos:  position{line: 2088, col: 56, offset: 67389},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2088, col: 87, offset: 67430},
+									pos:        position{line: 2088, col: 87, offset: 67420},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45542,33 +45542,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2108, col: 1, offset: 68088},
+			pos:  position{line: 2108, col: 1, offset: 68078},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68121},
+				pos: position{line: 2109, col: 5, offset: 68111},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68121},
+					pos: position{line: 2109, col: 5, offset: 68111},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2101, col: 43, offset: 67938},
+							pos: position{line: 2101, col: 43, offset: 67928},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2101, col: 43, offset: 67938},
+								pos:        position{line: 2101, col: 43, offset: 67928},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2110, col: 5, offset: 68165},
+							pos:   position{line: 2110, col: 5, offset: 68155},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2110, col: 15, offset: 68175},
+								pos:  position{line: 2110, col: 15, offset: 68165},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2106, col: 41, offset: 68082},
+							pos:        position{line: 2106, col: 41, offset: 68072},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45579,44 +45579,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2115, col: 1, offset: 68350},
+			pos:  position{line: 2115, col: 1, offset: 68340},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2115, col: 37, offset: 68386},
+				pos: position{line: 2115, col: 37, offset: 68376},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2115, col: 37, offset: 68386},
+					pos:  position{line: 2115, col: 37, offset: 68376},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2117, col: 1, offset: 68453},
+			pos:  position{line: 2117, col: 1, offset: 68443},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68493},
+				pos: position{line: 2118, col: 5, offset: 68483},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68493},
+					pos: position{line: 2118, col: 5, offset: 68483},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68504},
+							pos: position{line: 2119, col: 5, offset: 68494},
 							expr: &litMatcher{
-								pos:        position{line: 2106, col: 41, offset: 68082},
+								pos:        position{line: 2106, col: 41, offset: 68072},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68546},
+							pos:   position{line: 2120, col: 5, offset: 68536},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 14, offset: 68555},
+								pos:  position{line: 2120, col: 14, offset: 68545},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45626,33 +45626,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2138, col: 1, offset: 69097},
+			pos:  position{line: 2138, col: 1, offset: 69087},
 			expr: &seqExpr{
-				pos: position{line: 2139, col: 5, offset: 69142},
+				pos: position{line: 2139, col: 5, offset: 69132},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2139, col: 5, offset: 69142},
+						pos: position{line: 2139, col: 5, offset: 69132},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2139, col: 6, offset: 69143},
+							pos:  position{line: 2139, col: 6, offset: 69133},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2140, col: 5, offset: 69162},
+						pos:        position{line: 2140, col: 5, offset: 69152},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2141, col: 5, offset: 69170},
+						pos: position{line: 2141, col: 5, offset: 69160},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2145, col: 5, offset: 69284},
+						pos: position{line: 2145, col: 5, offset: 69274},
 						expr: &notExpr{
-							pos: position{line: 2145, col: 7, offset: 69286},
+							pos: position{line: 2145, col: 7, offset: 69276},
 							expr: &charClassMatcher{
-								pos:        position{line: 2817, col: 13, offset: 89812},
+								pos:        position{line: 2817, col: 13, offset: 89802},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45665,29 +45665,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69303},
+			pos:  position{line: 2148, col: 1, offset: 69293},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69336},
+				pos: position{line: 2149, col: 5, offset: 69326},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69336},
+					pos: position{line: 2149, col: 5, offset: 69326},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2131, col: 5, offset: 68899},
+							pos:        position{line: 2131, col: 5, offset: 68889},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68908},
+							pos: position{line: 2132, col: 5, offset: 68898},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2136, col: 5, offset: 69031},
+							pos: position{line: 2136, col: 5, offset: 69021},
 							expr: &notExpr{
-								pos: position{line: 2136, col: 7, offset: 69033},
+								pos: position{line: 2136, col: 7, offset: 69023},
 								expr: &litMatcher{
-									pos:        position{line: 2136, col: 8, offset: 69034},
+									pos:        position{line: 2136, col: 8, offset: 69024},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45695,15 +45695,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69380},
+							pos:   position{line: 2150, col: 5, offset: 69370},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69390},
+								pos:  position{line: 2150, col: 15, offset: 69380},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2151, col: 5, offset: 69429},
+							pos:  position{line: 2151, col: 5, offset: 69419},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45712,17 +45712,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69566},
+			pos:  position{line: 2155, col: 1, offset: 69556},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69607},
+				pos: position{line: 2156, col: 5, offset: 69597},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69607},
+					pos: position{line: 2156, col: 5, offset: 69597},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2156, col: 5, offset: 69607},
+							pos: position{line: 2156, col: 5, offset: 69597},
 							expr: &charClassMatcher{
-								pos:        position{line: 2156, col: 6, offset: 69608},
+								pos:        position{line: 2156, col: 6, offset: 69598},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45730,18 +45730,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69650},
+							pos:   position{line: 2157, col: 5, offset: 69640},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2157, col: 14, offset: 69659},
+								pos: position{line: 2157, col: 14, offset: 69649},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2157, col: 15, offset: 69660},
+									pos:  position{line: 2157, col: 15, offset: 69650},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2158, col: 5, offset: 69698},
+							pos: position{line: 2158, col: 5, offset: 69688},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45750,31 +45750,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69839},
+			pos:  position{line: 2164, col: 1, offset: 69829},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 69879},
+				pos: position{line: 2165, col: 5, offset: 69869},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 69879},
+					pos: position{line: 2165, col: 5, offset: 69869},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69890},
+							pos: position{line: 2166, col: 5, offset: 69880},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 6, offset: 69891},
+								pos:  position{line: 2166, col: 6, offset: 69881},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 69932},
+							pos:   position{line: 2167, col: 5, offset: 69922},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 69941},
+								pos:  position{line: 2167, col: 14, offset: 69931},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45784,35 +45784,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2172, col: 1, offset: 70029},
+			pos:  position{line: 2172, col: 1, offset: 70019},
 			expr: &choiceExpr{
-				pos: position{line: 2174, col: 5, offset: 70100},
+				pos: position{line: 2174, col: 5, offset: 70090},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2174, col: 5, offset: 70100},
+						pos: position{line: 2174, col: 5, offset: 70090},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 5, offset: 70100},
+							pos: position{line: 2174, col: 5, offset: 70090},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 5, offset: 70100},
+									pos:   position{line: 2174, col: 5, offset: 70090},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60953},
+										pos: position{line: 1889, col: 25, offset: 60943},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60953},
+											pos: position{line: 1889, col: 25, offset: 60943},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60953},
+													pos:        position{line: 1889, col: 25, offset: 60943},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60958},
+													pos: position{line: 1889, col: 30, offset: 60948},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60958},
+														pos:        position{line: 1889, col: 30, offset: 60948},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45823,25 +45823,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2101, col: 43, offset: 67938},
+									pos: position{line: 2101, col: 43, offset: 67928},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2101, col: 43, offset: 67938},
+										pos:        position{line: 2101, col: 43, offset: 67928},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 79, offset: 70174},
+									pos:   position{line: 2174, col: 79, offset: 70164},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 89, offset: 70184},
+										pos:  position{line: 2174, col: 89, offset: 70174},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 123, offset: 70218},
+									pos:        position{line: 2174, col: 123, offset: 70208},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45850,21 +45850,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2178, col: 7, offset: 70383},
+						pos: position{line: 2178, col: 7, offset: 70373},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2178, col: 7, offset: 70383},
+							pos: position{line: 2178, col: 7, offset: 70373},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2178, col: 7, offset: 70383},
+									pos:   position{line: 2178, col: 7, offset: 70373},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45873,21 +45873,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 42, offset: 70418},
+									pos:        position{line: 2178, col: 42, offset: 70408},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2178, col: 47, offset: 70423},
+									pos:   position{line: 2178, col: 47, offset: 70413},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2178, col: 57, offset: 70433},
+										pos:  position{line: 2178, col: 57, offset: 70423},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 91, offset: 70467},
+									pos:        position{line: 2178, col: 91, offset: 70457},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45896,21 +45896,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2183, col: 7, offset: 70669},
+						pos: position{line: 2183, col: 7, offset: 70659},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2183, col: 7, offset: 70669},
+							pos: position{line: 2183, col: 7, offset: 70659},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2183, col: 7, offset: 70669},
+									pos:   position{line: 2183, col: 7, offset: 70659},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45919,21 +45919,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 42, offset: 70704},
+									pos:        position{line: 2183, col: 42, offset: 70694},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2183, col: 46, offset: 70708},
+									pos:   position{line: 2183, col: 46, offset: 70698},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2183, col: 56, offset: 70718},
+										pos:  position{line: 2183, col: 56, offset: 70708},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 90, offset: 70752},
+									pos:        position{line: 2183, col: 90, offset: 70742},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45946,33 +45946,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2203, col: 1, offset: 71331},
+			pos:  position{line: 2203, col: 1, offset: 71321},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71361},
+				pos: position{line: 2204, col: 5, offset: 71351},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71361},
+					pos: position{line: 2204, col: 5, offset: 71351},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2196, col: 40, offset: 71184},
+							pos: position{line: 2196, col: 40, offset: 71174},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2196, col: 40, offset: 71184},
+								pos:        position{line: 2196, col: 40, offset: 71174},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71402},
+							pos:   position{line: 2205, col: 5, offset: 71392},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2205, col: 15, offset: 71412},
+								pos:  position{line: 2205, col: 15, offset: 71402},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2201, col: 38, offset: 71325},
+							pos:        position{line: 2201, col: 38, offset: 71315},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45983,44 +45983,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2210, col: 1, offset: 71578},
+			pos:  position{line: 2210, col: 1, offset: 71568},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2210, col: 34, offset: 71611},
+				pos: position{line: 2210, col: 34, offset: 71601},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2210, col: 34, offset: 71611},
+					pos:  position{line: 2210, col: 34, offset: 71601},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71642},
+			pos:  position{line: 2212, col: 1, offset: 71632},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71711},
+				pos: position{line: 2213, col: 5, offset: 71701},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71711},
+					pos: position{line: 2213, col: 5, offset: 71701},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71722},
+							pos: position{line: 2214, col: 5, offset: 71712},
 							expr: &litMatcher{
-								pos:        position{line: 2201, col: 38, offset: 71325},
+								pos:        position{line: 2201, col: 38, offset: 71315},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71761},
+							pos:   position{line: 2215, col: 5, offset: 71751},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71770},
+								pos:  position{line: 2215, col: 14, offset: 71760},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46030,29 +46030,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2240, col: 1, offset: 72452},
+			pos:  position{line: 2240, col: 1, offset: 72442},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72482},
+				pos: position{line: 2241, col: 5, offset: 72472},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72482},
+					pos: position{line: 2241, col: 5, offset: 72472},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 72018},
+							pos:        position{line: 2224, col: 5, offset: 72008},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2225, col: 5, offset: 72027},
+							pos: position{line: 2225, col: 5, offset: 72017},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2229, col: 5, offset: 72147},
+							pos: position{line: 2229, col: 5, offset: 72137},
 							expr: &notExpr{
-								pos: position{line: 2229, col: 7, offset: 72149},
+								pos: position{line: 2229, col: 7, offset: 72139},
 								expr: &litMatcher{
-									pos:        position{line: 2229, col: 8, offset: 72150},
+									pos:        position{line: 2229, col: 8, offset: 72140},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46060,38 +46060,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2242, col: 5, offset: 72522},
+							pos:   position{line: 2242, col: 5, offset: 72512},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2242, col: 15, offset: 72532},
+								pos:  position{line: 2242, col: 15, offset: 72522},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2232, col: 5, offset: 72255},
+							pos:        position{line: 2232, col: 5, offset: 72245},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2233, col: 5, offset: 72263},
+							pos: position{line: 2233, col: 5, offset: 72253},
 							expr: &litMatcher{
-								pos:        position{line: 2233, col: 6, offset: 72264},
+								pos:        position{line: 2233, col: 6, offset: 72254},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2234, col: 5, offset: 72327},
+							pos: position{line: 2234, col: 5, offset: 72317},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2238, col: 5, offset: 72438},
+							pos: position{line: 2238, col: 5, offset: 72428},
 							expr: &notExpr{
-								pos: position{line: 2238, col: 7, offset: 72440},
+								pos: position{line: 2238, col: 7, offset: 72430},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89812},
+									pos:        position{line: 2817, col: 13, offset: 89802},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -46105,17 +46105,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2247, col: 1, offset: 72699},
+			pos:  position{line: 2247, col: 1, offset: 72689},
 			expr: &actionExpr{
-				pos: position{line: 2248, col: 5, offset: 72737},
+				pos: position{line: 2248, col: 5, offset: 72727},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2248, col: 5, offset: 72737},
+					pos: position{line: 2248, col: 5, offset: 72727},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2248, col: 5, offset: 72737},
+							pos: position{line: 2248, col: 5, offset: 72727},
 							expr: &charClassMatcher{
-								pos:        position{line: 2248, col: 6, offset: 72738},
+								pos:        position{line: 2248, col: 6, offset: 72728},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -46123,18 +46123,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2249, col: 5, offset: 72780},
+							pos:   position{line: 2249, col: 5, offset: 72770},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2249, col: 14, offset: 72789},
+								pos: position{line: 2249, col: 14, offset: 72779},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2249, col: 15, offset: 72790},
+									pos:  position{line: 2249, col: 15, offset: 72780},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2250, col: 5, offset: 72826},
+							pos: position{line: 2250, col: 5, offset: 72816},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -46143,49 +46143,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2256, col: 1, offset: 72967},
+			pos:  position{line: 2256, col: 1, offset: 72957},
 			expr: &actionExpr{
-				pos: position{line: 2257, col: 5, offset: 73004},
+				pos: position{line: 2257, col: 5, offset: 72994},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2257, col: 5, offset: 73004},
+					pos: position{line: 2257, col: 5, offset: 72994},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2258, col: 5, offset: 73015},
+							pos: position{line: 2258, col: 5, offset: 73005},
 							expr: &seqExpr{
-								pos: position{line: 2232, col: 5, offset: 72255},
+								pos: position{line: 2232, col: 5, offset: 72245},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2232, col: 5, offset: 72255},
+										pos:        position{line: 2232, col: 5, offset: 72245},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2233, col: 5, offset: 72263},
+										pos: position{line: 2233, col: 5, offset: 72253},
 										expr: &litMatcher{
-											pos:        position{line: 2233, col: 6, offset: 72264},
+											pos:        position{line: 2233, col: 6, offset: 72254},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2234, col: 5, offset: 72327},
+										pos: position{line: 2234, col: 5, offset: 72317},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2238, col: 5, offset: 72438},
+										pos: position{line: 2238, col: 5, offset: 72428},
 										expr: &notExpr{
-											pos: position{line: 2238, col: 7, offset: 72440},
+											pos: position{line: 2238, col: 7, offset: 72430},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89812},
+												pos:        position{line: 2817, col: 13, offset: 89802},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46197,10 +46197,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73054},
+							pos:   position{line: 2259, col: 5, offset: 73044},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2259, col: 14, offset: 73063},
+								pos:  position{line: 2259, col: 14, offset: 73053},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46210,35 +46210,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2264, col: 1, offset: 73151},
+			pos:  position{line: 2264, col: 1, offset: 73141},
 			expr: &choiceExpr{
-				pos: position{line: 2266, col: 5, offset: 73215},
+				pos: position{line: 2266, col: 5, offset: 73205},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2266, col: 5, offset: 73215},
+						pos: position{line: 2266, col: 5, offset: 73205},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 5, offset: 73215},
+							pos: position{line: 2266, col: 5, offset: 73205},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 5, offset: 73215},
+									pos:   position{line: 2266, col: 5, offset: 73205},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60953},
+										pos: position{line: 1889, col: 25, offset: 60943},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60953},
+											pos: position{line: 1889, col: 25, offset: 60943},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60953},
+													pos:        position{line: 1889, col: 25, offset: 60943},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60958},
+													pos: position{line: 1889, col: 30, offset: 60948},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60958},
+														pos:        position{line: 1889, col: 30, offset: 60948},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -46249,25 +46249,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2196, col: 40, offset: 71184},
+									pos: position{line: 2196, col: 40, offset: 71174},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2196, col: 40, offset: 71184},
+										pos:        position{line: 2196, col: 40, offset: 71174},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 76, offset: 73286},
+									pos:   position{line: 2266, col: 76, offset: 73276},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 86, offset: 73296},
+										pos:  position{line: 2266, col: 86, offset: 73286},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 117, offset: 73327},
+									pos:        position{line: 2266, col: 117, offset: 73317},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -46276,21 +46276,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2270, col: 7, offset: 73488},
+						pos: position{line: 2270, col: 7, offset: 73478},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2270, col: 7, offset: 73488},
+							pos: position{line: 2270, col: 7, offset: 73478},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2270, col: 7, offset: 73488},
+									pos:   position{line: 2270, col: 7, offset: 73478},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46299,21 +46299,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 42, offset: 73523},
+									pos:        position{line: 2270, col: 42, offset: 73513},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2270, col: 47, offset: 73528},
+									pos:   position{line: 2270, col: 47, offset: 73518},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2270, col: 57, offset: 73538},
+										pos:  position{line: 2270, col: 57, offset: 73528},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 88, offset: 73569},
+									pos:        position{line: 2270, col: 88, offset: 73559},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46322,21 +46322,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 7, offset: 73768},
+						pos: position{line: 2275, col: 7, offset: 73758},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2275, col: 7, offset: 73768},
+							pos: position{line: 2275, col: 7, offset: 73758},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2275, col: 7, offset: 73768},
+									pos:   position{line: 2275, col: 7, offset: 73758},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60880},
+										pos: position{line: 1885, col: 25, offset: 60870},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60880},
+											pos: position{line: 1885, col: 25, offset: 60870},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60880},
+												pos:        position{line: 1885, col: 25, offset: 60870},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46345,21 +46345,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2275, col: 42, offset: 73803},
+									pos:        position{line: 2275, col: 42, offset: 73793},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2275, col: 46, offset: 73807},
+									pos:   position{line: 2275, col: 46, offset: 73797},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2275, col: 56, offset: 73817},
+										pos:  position{line: 2275, col: 56, offset: 73807},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2275, col: 87, offset: 73848},
+									pos:        position{line: 2275, col: 87, offset: 73838},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46372,33 +46372,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2282, col: 1, offset: 74111},
+			pos:  position{line: 2282, col: 1, offset: 74101},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 74133},
+				pos: position{line: 2283, col: 5, offset: 74123},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 74133},
+					pos: position{line: 2283, col: 5, offset: 74123},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2291, col: 32, offset: 74389},
+							pos: position{line: 2291, col: 32, offset: 74379},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2291, col: 32, offset: 74389},
+								pos:        position{line: 2291, col: 32, offset: 74379},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74165},
+							pos:   position{line: 2284, col: 5, offset: 74155},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74174},
+								pos:  position{line: 2284, col: 14, offset: 74164},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 27, offset: 74353},
+							pos:        position{line: 2289, col: 27, offset: 74343},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46409,43 +46409,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2296, col: 1, offset: 74492},
+			pos:  position{line: 2296, col: 1, offset: 74482},
 			expr: &choiceExpr{
-				pos: position{line: 2296, col: 25, offset: 74516},
+				pos: position{line: 2296, col: 25, offset: 74506},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2296, col: 25, offset: 74516},
+						pos:  position{line: 2296, col: 25, offset: 74506},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2298, col: 21, offset: 74568},
+						pos: position{line: 2298, col: 21, offset: 74558},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2298, col: 21, offset: 74568},
+							pos:   position{line: 2298, col: 21, offset: 74558},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2298, col: 29, offset: 74576},
+								pos: position{line: 2298, col: 29, offset: 74566},
 								expr: &choiceExpr{
-									pos: position{line: 2298, col: 30, offset: 74577},
+									pos: position{line: 2298, col: 30, offset: 74567},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2517, col: 5, offset: 81053},
+												pos: position{line: 2517, col: 5, offset: 81043},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2517, col: 5, offset: 81053},
+														pos: position{line: 2517, col: 5, offset: 81043},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2520, col: 5, offset: 81129},
+														pos:   position{line: 2520, col: 5, offset: 81119},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2521, col: 9, offset: 81147},
+															pos: position{line: 2521, col: 9, offset: 81137},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2521, col: 10, offset: 81148},
+																pos:        position{line: 2521, col: 10, offset: 81138},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46457,7 +46457,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2298, col: 49, offset: 74596},
+											pos:        position{line: 2298, col: 49, offset: 74586},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46473,23 +46473,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2302, col: 1, offset: 74655},
+			pos:  position{line: 2302, col: 1, offset: 74645},
 			expr: &actionExpr{
-				pos: position{line: 2304, col: 5, offset: 74722},
+				pos: position{line: 2304, col: 5, offset: 74712},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2304, col: 5, offset: 74722},
+					pos: position{line: 2304, col: 5, offset: 74712},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74722},
+							pos:   position{line: 2304, col: 5, offset: 74712},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1885, col: 25, offset: 60880},
+								pos: position{line: 1885, col: 25, offset: 60870},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1885, col: 25, offset: 60880},
+									pos: position{line: 1885, col: 25, offset: 60870},
 									expr: &litMatcher{
-										pos:        position{line: 1885, col: 25, offset: 60880},
+										pos:        position{line: 1885, col: 25, offset: 60870},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46498,25 +46498,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2291, col: 32, offset: 74389},
+							pos: position{line: 2291, col: 32, offset: 74379},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2291, col: 32, offset: 74389},
+								pos:        position{line: 2291, col: 32, offset: 74379},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74795},
+							pos:   position{line: 2306, col: 5, offset: 74785},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 14, offset: 74804},
+								pos:  position{line: 2306, col: 14, offset: 74794},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 27, offset: 74353},
+							pos:        position{line: 2289, col: 27, offset: 74343},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46527,33 +46527,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2314, col: 1, offset: 75063},
+			pos:  position{line: 2314, col: 1, offset: 75053},
 			expr: &actionExpr{
-				pos: position{line: 2315, col: 5, offset: 75087},
+				pos: position{line: 2315, col: 5, offset: 75077},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2315, col: 5, offset: 75087},
+					pos: position{line: 2315, col: 5, offset: 75077},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2323, col: 34, offset: 75356},
+							pos: position{line: 2323, col: 34, offset: 75346},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2323, col: 34, offset: 75356},
+								pos:        position{line: 2323, col: 34, offset: 75346},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75121},
+							pos:   position{line: 2316, col: 5, offset: 75111},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2316, col: 14, offset: 75130},
+								pos:  position{line: 2316, col: 14, offset: 75120},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2321, col: 29, offset: 75318},
+							pos:        position{line: 2321, col: 29, offset: 75308},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46564,43 +46564,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2328, col: 1, offset: 75459},
+			pos:  position{line: 2328, col: 1, offset: 75449},
 			expr: &choiceExpr{
-				pos: position{line: 2328, col: 27, offset: 75485},
+				pos: position{line: 2328, col: 27, offset: 75475},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2328, col: 27, offset: 75485},
+						pos:  position{line: 2328, col: 27, offset: 75475},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2330, col: 23, offset: 75541},
+						pos: position{line: 2330, col: 23, offset: 75531},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2330, col: 23, offset: 75541},
+							pos:   position{line: 2330, col: 23, offset: 75531},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2330, col: 31, offset: 75549},
+								pos: position{line: 2330, col: 31, offset: 75539},
 								expr: &choiceExpr{
-									pos: position{line: 2330, col: 32, offset: 75550},
+									pos: position{line: 2330, col: 32, offset: 75540},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2517, col: 5, offset: 81053},
+												pos: position{line: 2517, col: 5, offset: 81043},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2517, col: 5, offset: 81053},
+														pos: position{line: 2517, col: 5, offset: 81043},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2520, col: 5, offset: 81129},
+														pos:   position{line: 2520, col: 5, offset: 81119},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2521, col: 9, offset: 81147},
+															pos: position{line: 2521, col: 9, offset: 81137},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2521, col: 10, offset: 81148},
+																pos:        position{line: 2521, col: 10, offset: 81138},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46612,7 +46612,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2330, col: 51, offset: 75569},
+											pos:        position{line: 2330, col: 51, offset: 75559},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46628,23 +46628,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2334, col: 1, offset: 75628},
+			pos:  position{line: 2334, col: 1, offset: 75618},
 			expr: &actionExpr{
-				pos: position{line: 2336, col: 5, offset: 75700},
+				pos: position{line: 2336, col: 5, offset: 75690},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2336, col: 5, offset: 75700},
+					pos: position{line: 2336, col: 5, offset: 75690},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2336, col: 5, offset: 75700},
+							pos:   position{line: 2336, col: 5, offset: 75690},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1885, col: 25, offset: 60880},
+								pos: position{line: 1885, col: 25, offset: 60870},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1885, col: 25, offset: 60880},
+									pos: position{line: 1885, col: 25, offset: 60870},
 									expr: &litMatcher{
-										pos:        position{line: 1885, col: 25, offset: 60880},
+										pos:        position{line: 1885, col: 25, offset: 60870},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46653,25 +46653,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2323, col: 34, offset: 75356},
+							pos: position{line: 2323, col: 34, offset: 75346},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2323, col: 34, offset: 75356},
+								pos:        position{line: 2323, col: 34, offset: 75346},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2338, col: 5, offset: 75775},
+							pos:   position{line: 2338, col: 5, offset: 75765},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2338, col: 14, offset: 75784},
+								pos:  position{line: 2338, col: 14, offset: 75774},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2321, col: 29, offset: 75318},
+							pos:        position{line: 2321, col: 29, offset: 75308},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46682,27 +46682,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2347, col: 1, offset: 76249},
+			pos:  position{line: 2347, col: 1, offset: 76239},
 			expr: &actionExpr{
-				pos: position{line: 2348, col: 5, offset: 76265},
+				pos: position{line: 2348, col: 5, offset: 76255},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2348, col: 5, offset: 76265},
+					pos: position{line: 2348, col: 5, offset: 76255},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2348, col: 5, offset: 76265},
+							pos: position{line: 2348, col: 5, offset: 76255},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2351, col: 5, offset: 76328},
+							pos:   position{line: 2351, col: 5, offset: 76318},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2351, col: 12, offset: 76335},
+								pos: position{line: 2351, col: 12, offset: 76325},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2351, col: 12, offset: 76335},
+									pos: position{line: 2351, col: 12, offset: 76325},
 									expr: &litMatcher{
-										pos:        position{line: 2351, col: 13, offset: 76336},
+										pos:        position{line: 2351, col: 13, offset: 76326},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46711,16 +46711,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2355, col: 5, offset: 76444},
+							pos: position{line: 2355, col: 5, offset: 76434},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2967, col: 11, offset: 93925},
+							pos: position{line: 2967, col: 11, offset: 93915},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2967, col: 11, offset: 93925},
+								pos: position{line: 2967, col: 11, offset: 93915},
 								expr: &charClassMatcher{
-									pos:        position{line: 2967, col: 11, offset: 93925},
+									pos:        position{line: 2967, col: 11, offset: 93915},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46729,36 +46729,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 12, offset: 76603},
+							pos:   position{line: 2359, col: 12, offset: 76593},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2359, col: 19, offset: 76610},
+								pos:  position{line: 2359, col: 19, offset: 76600},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46767,9 +46767,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -46780,24 +46780,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2363, col: 1, offset: 76706},
+			pos:  position{line: 2363, col: 1, offset: 76696},
 			expr: &actionExpr{
-				pos: position{line: 2364, col: 5, offset: 76727},
+				pos: position{line: 2364, col: 5, offset: 76717},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2364, col: 5, offset: 76727},
+					pos: position{line: 2364, col: 5, offset: 76717},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2364, col: 5, offset: 76727},
+							pos: position{line: 2364, col: 5, offset: 76717},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2370, col: 5, offset: 76871},
+							pos:   position{line: 2370, col: 5, offset: 76861},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2370, col: 14, offset: 76880},
+								pos: position{line: 2370, col: 14, offset: 76870},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2370, col: 15, offset: 76881},
+									pos:  position{line: 2370, col: 15, offset: 76871},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46808,38 +46808,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2374, col: 1, offset: 76962},
+			pos:  position{line: 2374, col: 1, offset: 76952},
 			expr: &actionExpr{
-				pos: position{line: 2375, col: 5, offset: 76989},
+				pos: position{line: 2375, col: 5, offset: 76979},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2375, col: 5, offset: 76989},
+					pos: position{line: 2375, col: 5, offset: 76979},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2375, col: 5, offset: 76989},
+							pos: position{line: 2375, col: 5, offset: 76979},
 							expr: &choiceExpr{
-								pos: position{line: 2985, col: 8, offset: 94262},
+								pos: position{line: 2985, col: 8, offset: 94252},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94035},
+										pos: position{line: 2972, col: 12, offset: 94025},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94036},
+											pos: position{line: 2972, col: 13, offset: 94026},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94036},
+													pos:        position{line: 2972, col: 13, offset: 94026},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94043},
+													pos:        position{line: 2972, col: 20, offset: 94033},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94052},
+													pos:        position{line: 2972, col: 29, offset: 94042},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46848,45 +46848,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2982, col: 8, offset: 94212},
+										pos: position{line: 2982, col: 8, offset: 94202},
 										expr: &anyMatcher{
-											line: 2982, col: 9, offset: 94213,
+											line: 2982, col: 9, offset: 94203,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2376, col: 5, offset: 76998},
+							pos:   position{line: 2376, col: 5, offset: 76988},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2377, col: 9, offset: 77016},
+								pos: position{line: 2377, col: 9, offset: 77006},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89959},
+										pos: position{line: 2826, col: 5, offset: 89949},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89959},
+											pos: position{line: 2826, col: 5, offset: 89949},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89959},
+													pos: position{line: 2826, col: 5, offset: 89949},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89970},
+														pos: position{line: 2827, col: 9, offset: 89960},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89970},
+																pos: position{line: 2827, col: 9, offset: 89960},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90033},
+																pos:   position{line: 2830, col: 9, offset: 90023},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89345},
+																	pos: position{line: 2802, col: 18, offset: 89335},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89346},
+																		pos: position{line: 2802, col: 19, offset: 89336},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89346},
+																			pos:        position{line: 2802, col: 19, offset: 89336},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46897,28 +46897,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90054},
+																pos:        position{line: 2830, col: 30, offset: 90044},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90141},
+																pos: position{line: 2831, col: 9, offset: 90131},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90253},
+													pos:   position{line: 2835, col: 5, offset: 90243},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90259},
+														pos: position{line: 2835, col: 11, offset: 90249},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90259},
+															pos: position{line: 2835, col: 11, offset: 90249},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90259},
+																pos:        position{line: 2835, col: 11, offset: 90249},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46928,32 +46928,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90317},
+													pos: position{line: 2838, col: 5, offset: 90307},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90328},
+														pos: position{line: 2839, col: 9, offset: 90318},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90328},
+																pos:        position{line: 2839, col: 9, offset: 90318},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90377},
+																pos: position{line: 2840, col: 9, offset: 90367},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90457},
+													pos: position{line: 2844, col: 5, offset: 90447},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90468},
+														pos: position{line: 2845, col: 9, offset: 90458},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90468},
+																pos: position{line: 2845, col: 9, offset: 90458},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90468},
+																	pos:        position{line: 2845, col: 9, offset: 90458},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46962,13 +46962,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90482},
+																pos:        position{line: 2845, col: 23, offset: 90472},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90486},
+																pos:        position{line: 2845, col: 27, offset: 90476},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46981,12 +46981,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 11, offset: 93925},
+										pos: position{line: 2967, col: 11, offset: 93915},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2967, col: 11, offset: 93925},
+											pos: position{line: 2967, col: 11, offset: 93915},
 											expr: &charClassMatcher{
-												pos:        position{line: 2967, col: 11, offset: 93925},
+												pos:        position{line: 2967, col: 11, offset: 93915},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46995,25 +46995,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82224},
+										pos: position{line: 2548, col: 5, offset: 82214},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82224},
+											pos: position{line: 2548, col: 5, offset: 82214},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82224},
+													pos: position{line: 2548, col: 5, offset: 82214},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82295},
+													pos:        position{line: 2551, col: 5, offset: 82285},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82300},
+													pos: position{line: 2551, col: 10, offset: 82290},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82301},
+														pos:        position{line: 2551, col: 11, offset: 82291},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47024,29 +47024,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82487},
+										pos: position{line: 2557, col: 5, offset: 82477},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82487},
+											pos: position{line: 2557, col: 5, offset: 82477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82487},
+													pos: position{line: 2557, col: 5, offset: 82477},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82558},
+													pos: position{line: 2560, col: 5, offset: 82548},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82683},
+													pos:        position{line: 2564, col: 5, offset: 82673},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82687},
+													pos: position{line: 2564, col: 9, offset: 82677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82688},
+														pos:        position{line: 2564, col: 10, offset: 82678},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47057,31 +47057,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77081},
+										pos:  position{line: 2380, col: 11, offset: 77071},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90679},
+										pos: position{line: 2853, col: 5, offset: 90669},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90689},
+											pos: position{line: 2854, col: 9, offset: 90679},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90690},
+													pos:        position{line: 2854, col: 10, offset: 90680},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90787},
+													pos: position{line: 2856, col: 13, offset: 90777},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90787},
+															pos: position{line: 2856, col: 13, offset: 90777},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90887},
+															pos:        position{line: 2859, col: 13, offset: 90877},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47089,20 +47089,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90893},
+													pos:        position{line: 2859, col: 19, offset: 90883},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90931},
+													pos: position{line: 2862, col: 13, offset: 90921},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90931},
+															pos: position{line: 2862, col: 13, offset: 90921},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91024},
+															pos:        position{line: 2865, col: 14, offset: 91014},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47111,18 +47111,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91068},
+													pos: position{line: 2867, col: 12, offset: 91058},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91068},
+															pos:        position{line: 2867, col: 12, offset: 91058},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91072},
+															pos: position{line: 2867, col: 16, offset: 91062},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91073},
+																pos:        position{line: 2867, col: 17, offset: 91063},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47134,35 +47134,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77154},
+										pos:  position{line: 2382, col: 11, offset: 77144},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77170},
+										pos:  position{line: 2383, col: 11, offset: 77160},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2384, col: 11, offset: 77198},
+										pos:  position{line: 2384, col: 11, offset: 77188},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81053},
+										pos: position{line: 2517, col: 5, offset: 81043},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81053},
+													pos: position{line: 2517, col: 5, offset: 81043},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81129},
+													pos:   position{line: 2520, col: 5, offset: 81119},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81147},
+														pos: position{line: 2521, col: 9, offset: 81137},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81148},
+															pos:        position{line: 2521, col: 10, offset: 81138},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47174,7 +47174,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77283},
+										pos:  position{line: 2386, col: 11, offset: 77273},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47563,17 +47563,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2399, col: 5, offset: 77736},
+										pos: position{line: 2399, col: 5, offset: 77726},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2399, col: 5, offset: 77736},
+											pos: position{line: 2399, col: 5, offset: 77726},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2399, col: 5, offset: 77736},
+													pos: position{line: 2399, col: 5, offset: 77726},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2402, col: 5, offset: 77791},
+													pos:   position{line: 2402, col: 5, offset: 77781},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -48027,12 +48027,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2402, col: 26, offset: 77812},
+													pos: position{line: 2402, col: 26, offset: 77802},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93864},
+														pos: position{line: 2963, col: 10, offset: 93854},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93864},
+															pos:        position{line: 2963, col: 10, offset: 93854},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -48041,30 +48041,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2402, col: 33, offset: 77819},
+													pos: position{line: 2402, col: 33, offset: 77809},
 													expr: &choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94262},
+														pos: position{line: 2985, col: 8, offset: 94252},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94035},
+																pos: position{line: 2972, col: 12, offset: 94025},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94036},
+																	pos: position{line: 2972, col: 13, offset: 94026},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94036},
+																			pos:        position{line: 2972, col: 13, offset: 94026},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94043},
+																			pos:        position{line: 2972, col: 20, offset: 94033},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94052},
+																			pos:        position{line: 2972, col: 29, offset: 94042},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -48073,9 +48073,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94212},
+																pos: position{line: 2982, col: 8, offset: 94202},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94213,
+																	line: 2982, col: 9, offset: 94203,
 																},
 															},
 														},
@@ -48100,12 +48100,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93516},
+														pos: position{line: 2948, col: 7, offset: 93506},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93516},
+															pos: position{line: 2948, col: 7, offset: 93506},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93516},
+																pos:        position{line: 2948, col: 7, offset: 93506},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48139,12 +48139,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93516},
+														pos: position{line: 2948, col: 7, offset: 93506},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93516},
+															pos: position{line: 2948, col: 7, offset: 93506},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93516},
+																pos:        position{line: 2948, col: 7, offset: 93506},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48163,14 +48163,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77537},
+										pos:  position{line: 2391, col: 11, offset: 77527},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91333},
+										pos: position{line: 2875, col: 12, offset: 91323},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91333},
+											pos:        position{line: 2875, col: 12, offset: 91323},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48186,61 +48186,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2412, col: 1, offset: 78081},
+			pos:  position{line: 2412, col: 1, offset: 78071},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78168},
+				pos: position{line: 2413, col: 5, offset: 78158},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78168},
+					pos: position{line: 2413, col: 5, offset: 78158},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2413, col: 5, offset: 78168},
+							pos:   position{line: 2413, col: 5, offset: 78158},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2413, col: 14, offset: 78177},
+								pos: position{line: 2413, col: 14, offset: 78167},
 								expr: &actionExpr{
-									pos: position{line: 2415, col: 9, offset: 78203},
+									pos: position{line: 2415, col: 9, offset: 78193},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2415, col: 9, offset: 78203},
+										pos: position{line: 2415, col: 9, offset: 78193},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94198},
+												pos: position{line: 2980, col: 11, offset: 94188},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94200,
+													line: 2980, col: 13, offset: 94190,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2416, col: 9, offset: 78218},
+												pos:   position{line: 2416, col: 9, offset: 78208},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2417, col: 13, offset: 78240},
+													pos: position{line: 2417, col: 13, offset: 78230},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2826, col: 5, offset: 89959},
+															pos: position{line: 2826, col: 5, offset: 89949},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2826, col: 5, offset: 89959},
+																pos: position{line: 2826, col: 5, offset: 89949},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2826, col: 5, offset: 89959},
+																		pos: position{line: 2826, col: 5, offset: 89949},
 																		expr: &seqExpr{
-																			pos: position{line: 2827, col: 9, offset: 89970},
+																			pos: position{line: 2827, col: 9, offset: 89960},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2827, col: 9, offset: 89970},
+																					pos: position{line: 2827, col: 9, offset: 89960},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2830, col: 9, offset: 90033},
+																					pos:   position{line: 2830, col: 9, offset: 90023},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 18, offset: 89345},
+																						pos: position{line: 2802, col: 18, offset: 89335},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 19, offset: 89346},
+																							pos: position{line: 2802, col: 19, offset: 89336},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 19, offset: 89346},
+																								pos:        position{line: 2802, col: 19, offset: 89336},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48251,28 +48251,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2830, col: 30, offset: 90054},
+																					pos:        position{line: 2830, col: 30, offset: 90044},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2831, col: 9, offset: 90141},
+																					pos: position{line: 2831, col: 9, offset: 90131},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2835, col: 5, offset: 90253},
+																		pos:   position{line: 2835, col: 5, offset: 90243},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 11, offset: 90259},
+																			pos: position{line: 2835, col: 11, offset: 90249},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2835, col: 11, offset: 90259},
+																				pos: position{line: 2835, col: 11, offset: 90249},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 11, offset: 90259},
+																					pos:        position{line: 2835, col: 11, offset: 90249},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48282,32 +48282,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2838, col: 5, offset: 90317},
+																		pos: position{line: 2838, col: 5, offset: 90307},
 																		expr: &seqExpr{
-																			pos: position{line: 2839, col: 9, offset: 90328},
+																			pos: position{line: 2839, col: 9, offset: 90318},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2839, col: 9, offset: 90328},
+																					pos:        position{line: 2839, col: 9, offset: 90318},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2840, col: 9, offset: 90377},
+																					pos: position{line: 2840, col: 9, offset: 90367},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2844, col: 5, offset: 90457},
+																		pos: position{line: 2844, col: 5, offset: 90447},
 																		expr: &seqExpr{
-																			pos: position{line: 2845, col: 9, offset: 90468},
+																			pos: position{line: 2845, col: 9, offset: 90458},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2845, col: 9, offset: 90468},
+																					pos: position{line: 2845, col: 9, offset: 90458},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2845, col: 9, offset: 90468},
+																						pos:        position{line: 2845, col: 9, offset: 90458},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48316,13 +48316,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2845, col: 23, offset: 90482},
+																					pos:        position{line: 2845, col: 23, offset: 90472},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2845, col: 27, offset: 90486},
+																					pos:        position{line: 2845, col: 27, offset: 90476},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48335,12 +48335,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2967, col: 11, offset: 93925},
+															pos: position{line: 2967, col: 11, offset: 93915},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2967, col: 11, offset: 93925},
+																pos: position{line: 2967, col: 11, offset: 93915},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2967, col: 11, offset: 93925},
+																	pos:        position{line: 2967, col: 11, offset: 93915},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48349,29 +48349,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2419, col: 15, offset: 78286},
+															pos:  position{line: 2419, col: 15, offset: 78276},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2548, col: 5, offset: 82224},
+															pos: position{line: 2548, col: 5, offset: 82214},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2548, col: 5, offset: 82224},
+																pos: position{line: 2548, col: 5, offset: 82214},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2548, col: 5, offset: 82224},
+																		pos: position{line: 2548, col: 5, offset: 82214},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2551, col: 5, offset: 82295},
+																		pos:        position{line: 2551, col: 5, offset: 82285},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2551, col: 10, offset: 82300},
+																		pos: position{line: 2551, col: 10, offset: 82290},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2551, col: 11, offset: 82301},
+																			pos:        position{line: 2551, col: 11, offset: 82291},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48382,29 +48382,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2557, col: 5, offset: 82487},
+															pos: position{line: 2557, col: 5, offset: 82477},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2557, col: 5, offset: 82487},
+																pos: position{line: 2557, col: 5, offset: 82477},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2557, col: 5, offset: 82487},
+																		pos: position{line: 2557, col: 5, offset: 82477},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2560, col: 5, offset: 82558},
+																		pos: position{line: 2560, col: 5, offset: 82548},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2564, col: 5, offset: 82683},
+																		pos:        position{line: 2564, col: 5, offset: 82673},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2564, col: 9, offset: 82687},
+																		pos: position{line: 2564, col: 9, offset: 82677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2564, col: 10, offset: 82688},
+																			pos:        position{line: 2564, col: 10, offset: 82678},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48415,27 +48415,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2853, col: 5, offset: 90679},
+															pos: position{line: 2853, col: 5, offset: 90669},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2854, col: 9, offset: 90689},
+																pos: position{line: 2854, col: 9, offset: 90679},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2854, col: 10, offset: 90690},
+																		pos:        position{line: 2854, col: 10, offset: 90680},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2856, col: 13, offset: 90787},
+																		pos: position{line: 2856, col: 13, offset: 90777},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2856, col: 13, offset: 90787},
+																				pos: position{line: 2856, col: 13, offset: 90777},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2859, col: 13, offset: 90887},
+																				pos:        position{line: 2859, col: 13, offset: 90877},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48443,20 +48443,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2859, col: 19, offset: 90893},
+																		pos:        position{line: 2859, col: 19, offset: 90883},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2862, col: 13, offset: 90931},
+																		pos: position{line: 2862, col: 13, offset: 90921},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2862, col: 13, offset: 90931},
+																				pos: position{line: 2862, col: 13, offset: 90921},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2865, col: 14, offset: 91024},
+																				pos:        position{line: 2865, col: 14, offset: 91014},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48465,18 +48465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2867, col: 12, offset: 91068},
+																		pos: position{line: 2867, col: 12, offset: 91058},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2867, col: 12, offset: 91068},
+																				pos:        position{line: 2867, col: 12, offset: 91058},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2867, col: 16, offset: 91072},
+																				pos: position{line: 2867, col: 16, offset: 91062},
 																				expr: &litMatcher{
-																					pos:        position{line: 2867, col: 17, offset: 91073},
+																					pos:        position{line: 2867, col: 17, offset: 91063},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48488,25 +48488,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94035},
+															pos: position{line: 2972, col: 12, offset: 94025},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94036},
+																pos: position{line: 2972, col: 13, offset: 94026},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94036},
+																		pos:        position{line: 2972, col: 13, offset: 94026},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94043},
+																		pos:        position{line: 2972, col: 20, offset: 94033},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94052},
+																		pos:        position{line: 2972, col: 29, offset: 94042},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48861,35 +48861,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2424, col: 15, offset: 78453},
+															pos:  position{line: 2424, col: 15, offset: 78443},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78473},
+															pos:  position{line: 2425, col: 15, offset: 78463},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2426, col: 15, offset: 78562},
+															pos:  position{line: 2426, col: 15, offset: 78552},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2517, col: 5, offset: 81053},
+															pos: position{line: 2517, col: 5, offset: 81043},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2517, col: 5, offset: 81053},
+																pos: position{line: 2517, col: 5, offset: 81043},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2517, col: 5, offset: 81053},
+																		pos: position{line: 2517, col: 5, offset: 81043},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2520, col: 5, offset: 81129},
+																		pos:   position{line: 2520, col: 5, offset: 81119},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2521, col: 9, offset: 81147},
+																			pos: position{line: 2521, col: 9, offset: 81137},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2521, col: 10, offset: 81148},
+																				pos:        position{line: 2521, col: 10, offset: 81138},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48923,10 +48923,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48937,28 +48937,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94262},
+																			pos: position{line: 2985, col: 8, offset: 94252},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48967,9 +48967,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94212},
+																					pos: position{line: 2982, col: 8, offset: 94202},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94213,
+																						line: 2982, col: 9, offset: 94203,
 																					},
 																				},
 																			},
@@ -48979,7 +48979,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2429, col: 15, offset: 78744},
+															pos:  position{line: 2429, col: 15, offset: 78734},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -49022,10 +49022,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 91333},
+															pos: position{line: 2875, col: 12, offset: 91323},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91333},
+																pos:        position{line: 2875, col: 12, offset: 91323},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -49041,9 +49041,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -49052,28 +49052,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2440, col: 1, offset: 79182},
+			pos:  position{line: 2440, col: 1, offset: 79172},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 79215},
+				pos: position{line: 2441, col: 5, offset: 79205},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 79215},
+					pos: position{line: 2441, col: 5, offset: 79205},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 79215},
+							pos:   position{line: 2441, col: 5, offset: 79205},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2441, col: 14, offset: 79224},
+								pos: position{line: 2441, col: 14, offset: 79214},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2441, col: 15, offset: 79225},
+									pos:  position{line: 2441, col: 15, offset: 79215},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -49082,50 +49082,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2445, col: 1, offset: 79322},
+			pos:  position{line: 2445, col: 1, offset: 79312},
 			expr: &actionExpr{
-				pos: position{line: 2446, col: 5, offset: 79362},
+				pos: position{line: 2446, col: 5, offset: 79352},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2446, col: 5, offset: 79362},
+					pos: position{line: 2446, col: 5, offset: 79352},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94198},
+							pos: position{line: 2980, col: 11, offset: 94188},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94200,
+								line: 2980, col: 13, offset: 94190,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2447, col: 5, offset: 79373},
+							pos:   position{line: 2447, col: 5, offset: 79363},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2448, col: 9, offset: 79391},
+								pos: position{line: 2448, col: 9, offset: 79381},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89959},
+										pos: position{line: 2826, col: 5, offset: 89949},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89959},
+											pos: position{line: 2826, col: 5, offset: 89949},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89959},
+													pos: position{line: 2826, col: 5, offset: 89949},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89970},
+														pos: position{line: 2827, col: 9, offset: 89960},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89970},
+																pos: position{line: 2827, col: 9, offset: 89960},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90033},
+																pos:   position{line: 2830, col: 9, offset: 90023},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89345},
+																	pos: position{line: 2802, col: 18, offset: 89335},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89346},
+																		pos: position{line: 2802, col: 19, offset: 89336},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89346},
+																			pos:        position{line: 2802, col: 19, offset: 89336},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49136,28 +49136,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90054},
+																pos:        position{line: 2830, col: 30, offset: 90044},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90141},
+																pos: position{line: 2831, col: 9, offset: 90131},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90253},
+													pos:   position{line: 2835, col: 5, offset: 90243},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90259},
+														pos: position{line: 2835, col: 11, offset: 90249},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90259},
+															pos: position{line: 2835, col: 11, offset: 90249},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90259},
+																pos:        position{line: 2835, col: 11, offset: 90249},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49167,32 +49167,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90317},
+													pos: position{line: 2838, col: 5, offset: 90307},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90328},
+														pos: position{line: 2839, col: 9, offset: 90318},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90328},
+																pos:        position{line: 2839, col: 9, offset: 90318},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90377},
+																pos: position{line: 2840, col: 9, offset: 90367},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90457},
+													pos: position{line: 2844, col: 5, offset: 90447},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90468},
+														pos: position{line: 2845, col: 9, offset: 90458},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90468},
+																pos: position{line: 2845, col: 9, offset: 90458},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90468},
+																	pos:        position{line: 2845, col: 9, offset: 90458},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49201,13 +49201,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90482},
+																pos:        position{line: 2845, col: 23, offset: 90472},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90486},
+																pos:        position{line: 2845, col: 27, offset: 90476},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49220,10 +49220,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93864},
+										pos: position{line: 2963, col: 10, offset: 93854},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93864},
+											pos:        position{line: 2963, col: 10, offset: 93854},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49231,29 +49231,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79429},
+										pos:  position{line: 2450, col: 11, offset: 79419},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82224},
+										pos: position{line: 2548, col: 5, offset: 82214},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82224},
+											pos: position{line: 2548, col: 5, offset: 82214},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82224},
+													pos: position{line: 2548, col: 5, offset: 82214},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82295},
+													pos:        position{line: 2551, col: 5, offset: 82285},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82300},
+													pos: position{line: 2551, col: 10, offset: 82290},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82301},
+														pos:        position{line: 2551, col: 11, offset: 82291},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49264,29 +49264,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82487},
+										pos: position{line: 2557, col: 5, offset: 82477},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82487},
+											pos: position{line: 2557, col: 5, offset: 82477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82487},
+													pos: position{line: 2557, col: 5, offset: 82477},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82558},
+													pos: position{line: 2560, col: 5, offset: 82548},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82683},
+													pos:        position{line: 2564, col: 5, offset: 82673},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82687},
+													pos: position{line: 2564, col: 9, offset: 82677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82688},
+														pos:        position{line: 2564, col: 10, offset: 82678},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49297,27 +49297,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90679},
+										pos: position{line: 2853, col: 5, offset: 90669},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90689},
+											pos: position{line: 2854, col: 9, offset: 90679},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90690},
+													pos:        position{line: 2854, col: 10, offset: 90680},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90787},
+													pos: position{line: 2856, col: 13, offset: 90777},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90787},
+															pos: position{line: 2856, col: 13, offset: 90777},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90887},
+															pos:        position{line: 2859, col: 13, offset: 90877},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49325,20 +49325,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90893},
+													pos:        position{line: 2859, col: 19, offset: 90883},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90931},
+													pos: position{line: 2862, col: 13, offset: 90921},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90931},
+															pos: position{line: 2862, col: 13, offset: 90921},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91024},
+															pos:        position{line: 2865, col: 14, offset: 91014},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49347,18 +49347,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91068},
+													pos: position{line: 2867, col: 12, offset: 91058},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91068},
+															pos:        position{line: 2867, col: 12, offset: 91058},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91072},
+															pos: position{line: 2867, col: 16, offset: 91062},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91073},
+																pos:        position{line: 2867, col: 17, offset: 91063},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49370,31 +49370,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79529},
+										pos:  position{line: 2453, col: 11, offset: 79519},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 79545},
+										pos:  position{line: 2454, col: 11, offset: 79535},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81053},
+										pos: position{line: 2517, col: 5, offset: 81043},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81053},
+											pos: position{line: 2517, col: 5, offset: 81043},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81053},
+													pos: position{line: 2517, col: 5, offset: 81043},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81129},
+													pos:   position{line: 2520, col: 5, offset: 81119},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81147},
+														pos: position{line: 2521, col: 9, offset: 81137},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81148},
+															pos:        position{line: 2521, col: 10, offset: 81138},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49445,25 +49445,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94035},
+										pos: position{line: 2972, col: 12, offset: 94025},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94036},
+											pos: position{line: 2972, col: 13, offset: 94026},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94036},
+													pos:        position{line: 2972, col: 13, offset: 94026},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94043},
+													pos:        position{line: 2972, col: 20, offset: 94033},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94052},
+													pos:        position{line: 2972, col: 29, offset: 94042},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49472,10 +49472,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91333},
+										pos: position{line: 2875, col: 12, offset: 91323},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91333},
+											pos:        position{line: 2875, col: 12, offset: 91323},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49491,49 +49491,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2465, col: 1, offset: 79815},
+			pos:  position{line: 2465, col: 1, offset: 79805},
 			expr: &actionExpr{
-				pos: position{line: 2467, col: 5, offset: 79897},
+				pos: position{line: 2467, col: 5, offset: 79887},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2467, col: 5, offset: 79897},
+					pos: position{line: 2467, col: 5, offset: 79887},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2467, col: 5, offset: 79897},
+							pos: position{line: 2467, col: 5, offset: 79887},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2470, col: 5, offset: 79962},
+							pos:   position{line: 2470, col: 5, offset: 79952},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2471, col: 9, offset: 79980},
+								pos: position{line: 2471, col: 9, offset: 79970},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 9, offset: 79980},
+										pos:  position{line: 2471, col: 9, offset: 79970},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 80001},
+										pos:  position{line: 2472, col: 11, offset: 79991},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 80024},
+										pos:  position{line: 2473, col: 11, offset: 80014},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2474, col: 11, offset: 80040},
+										pos:  position{line: 2474, col: 11, offset: 80030},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 80069},
+										pos:  position{line: 2475, col: 11, offset: 80059},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80095},
+										pos:  position{line: 2476, col: 11, offset: 80085},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80121},
+										pos:  position{line: 2477, col: 11, offset: 80111},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49552,12 +49552,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93516},
+														pos: position{line: 2948, col: 7, offset: 93506},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93516},
+															pos: position{line: 2948, col: 7, offset: 93506},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93516},
+																pos:        position{line: 2948, col: 7, offset: 93506},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49591,12 +49591,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93516},
+														pos: position{line: 2948, col: 7, offset: 93506},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93516},
+															pos: position{line: 2948, col: 7, offset: 93506},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93516},
+																pos:        position{line: 2948, col: 7, offset: 93506},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49638,17 +49638,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2817, col: 13, offset: 89812},
+																		pos:        position{line: 2817, col: 13, offset: 89802},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93864},
+																		pos: position{line: 2963, col: 10, offset: 93854},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93864},
+																			pos:        position{line: 2963, col: 10, offset: 93854},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49674,10 +49674,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49694,10 +49694,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49717,17 +49717,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2817, col: 13, offset: 89812},
+																							pos:        position{line: 2817, col: 13, offset: 89802},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49758,10 +49758,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49778,10 +49778,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93864},
+																			pos: position{line: 2963, col: 10, offset: 93854},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93864},
+																				pos:        position{line: 2963, col: 10, offset: 93854},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49801,17 +49801,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2817, col: 13, offset: 89812},
+																							pos:        position{line: 2817, col: 13, offset: 89802},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93864},
+																							pos: position{line: 2963, col: 10, offset: 93854},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93864},
+																								pos:        position{line: 2963, col: 10, offset: 93854},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49838,15 +49838,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80200},
+										pos:  position{line: 2480, col: 11, offset: 80190},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80220},
+										pos:  position{line: 2481, col: 11, offset: 80210},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80243},
+										pos:  position{line: 2482, col: 11, offset: 80233},
 										name: "InlineMenu",
 									},
 								},
@@ -49858,22 +49858,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2486, col: 1, offset: 80300},
+			pos:  position{line: 2486, col: 1, offset: 80290},
 			expr: &actionExpr{
-				pos: position{line: 2488, col: 5, offset: 80388},
+				pos: position{line: 2488, col: 5, offset: 80378},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2488, col: 5, offset: 80388},
+					pos: position{line: 2488, col: 5, offset: 80378},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2488, col: 5, offset: 80388},
+							pos: position{line: 2488, col: 5, offset: 80378},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2491, col: 5, offset: 80465},
+							pos:   position{line: 2491, col: 5, offset: 80455},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2492, col: 9, offset: 80483},
+								pos: position{line: 2492, col: 9, offset: 80473},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1416, col: 26, offset: 44997},
@@ -49891,18 +49891,18 @@ var g = &grammar{
 													pos:   position{line: 1416, col: 54, offset: 45025},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1420, col: 33, offset: 45238},
+														pos: position{line: 1420, col: 33, offset: 45228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1420, col: 34, offset: 45239},
+																pos: position{line: 1420, col: 34, offset: 45229},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1420, col: 34, offset: 45239},
+																	pos: position{line: 1420, col: 34, offset: 45229},
 																	expr: &seqExpr{
-																		pos: position{line: 1420, col: 35, offset: 45240},
+																		pos: position{line: 1420, col: 35, offset: 45230},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1420, col: 35, offset: 45240},
+																				pos: position{line: 1420, col: 35, offset: 45230},
 																				expr: &litMatcher{
 																					pos:        position{line: 1414, col: 32, offset: 44965},
 																					val:        "+++",
@@ -49911,27 +49911,27 @@ var g = &grammar{
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1420, col: 64, offset: 45269,
+																				line: 1420, col: 64, offset: 45259,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1422, col: 11, offset: 45442},
+																pos: position{line: 1422, col: 11, offset: 45432},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1422, col: 11, offset: 45442},
+																	pos: position{line: 1422, col: 11, offset: 45432},
 																	expr: &seqExpr{
-																		pos: position{line: 1422, col: 12, offset: 45443},
+																		pos: position{line: 1422, col: 12, offset: 45433},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1422, col: 12, offset: 45443},
+																				pos: position{line: 1422, col: 12, offset: 45433},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93864},
+																					pos: position{line: 2963, col: 10, offset: 93854},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93864},
+																						pos:        position{line: 2963, col: 10, offset: 93854},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49940,27 +49940,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1422, col: 19, offset: 45450},
+																				pos: position{line: 1422, col: 19, offset: 45440},
 																				expr: &actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94035},
+																					pos: position{line: 2972, col: 12, offset: 94025},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94036},
+																						pos: position{line: 2972, col: 13, offset: 94026},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94036},
+																								pos:        position{line: 2972, col: 13, offset: 94026},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94043},
+																								pos:        position{line: 2972, col: 20, offset: 94033},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94052},
+																								pos:        position{line: 2972, col: 29, offset: 94042},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49970,7 +49970,7 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1422, col: 28, offset: 45459},
+																				pos: position{line: 1422, col: 28, offset: 45449},
 																				expr: &litMatcher{
 																					pos:        position{line: 1414, col: 32, offset: 44965},
 																					val:        "+++",
@@ -49979,7 +49979,7 @@ var g = &grammar{
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1422, col: 57, offset: 45488,
+																				line: 1422, col: 57, offset: 45478,
 																			},
 																		},
 																	},
@@ -49994,28 +49994,18 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
-												&notExpr{
-													pos: position{line: 1416, col: 121, offset: 45092},
-													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 13, offset: 89812},
-														val:        "[\\pL\\pN]",
-														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
 											},
 										},
 									},
 									&actionExpr{
 										pos: position{line: 1401, col: 5, offset: 44221},
-										run: (*parser).callonInlinePassthrough35,
+										run: (*parser).callonInlinePassthrough33,
 										expr: &seqExpr{
 											pos: position{line: 1401, col: 5, offset: 44221},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1401, col: 5, offset: 44221},
-													run: (*parser).callonInlinePassthrough37,
+													run: (*parser).callonInlinePassthrough35,
 												},
 												&litMatcher{
 													pos:        position{line: 1398, col: 32, offset: 44186},
@@ -50031,7 +50021,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1408, col: 34, offset: 44522},
-																run: (*parser).callonInlinePassthrough41,
+																run: (*parser).callonInlinePassthrough39,
 																expr: &seqExpr{
 																	pos: position{line: 1408, col: 34, offset: 44522},
 																	exprs: []interface{}{
@@ -50047,10 +50037,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 64, offset: 44552},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
-																				run: (*parser).callonInlinePassthrough46,
+																				pos: position{line: 2963, col: 10, offset: 93854},
+																				run: (*parser).callonInlinePassthrough44,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50061,25 +50051,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 71, offset: 44559},
 																			expr: &actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
-																				run: (*parser).callonInlinePassthrough49,
+																				pos: position{line: 2972, col: 12, offset: 94025},
+																				run: (*parser).callonInlinePassthrough47,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50102,12 +50092,12 @@ var g = &grammar{
 																							pos: position{line: 1408, col: 86, offset: 44574},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93925},
-																									run: (*parser).callonInlinePassthrough59,
+																									pos: position{line: 2967, col: 11, offset: 93915},
+																									run: (*parser).callonInlinePassthrough57,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93925},
+																										pos: position{line: 2967, col: 11, offset: 93915},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93925},
+																											pos:        position{line: 2967, col: 11, offset: 93915},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -50136,25 +50126,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1408, col: 151, offset: 44639},
 																						expr: &actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94035},
-																							run: (*parser).callonInlinePassthrough66,
+																							pos: position{line: 2972, col: 12, offset: 94025},
+																							run: (*parser).callonInlinePassthrough64,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94036},
+																								pos: position{line: 2972, col: 13, offset: 94026},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94036},
+																										pos:        position{line: 2972, col: 13, offset: 94026},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94043},
+																										pos:        position{line: 2972, col: 20, offset: 94033},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94052},
+																										pos:        position{line: 2972, col: 29, offset: 94042},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50174,17 +50164,17 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1410, col: 11, offset: 44798},
-																run: (*parser).callonInlinePassthrough72,
+																run: (*parser).callonInlinePassthrough70,
 																expr: &seqExpr{
 																	pos: position{line: 1410, col: 12, offset: 44799},
 																	exprs: []interface{}{
 																		&notExpr{
 																			pos: position{line: 1410, col: 12, offset: 44799},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93864},
-																				run: (*parser).callonInlinePassthrough75,
+																				pos: position{line: 2963, col: 10, offset: 93854},
+																				run: (*parser).callonInlinePassthrough73,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93864},
+																					pos:        position{line: 2963, col: 10, offset: 93854},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50195,25 +50185,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1410, col: 19, offset: 44806},
 																			expr: &actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94035},
-																				run: (*parser).callonInlinePassthrough78,
+																				pos: position{line: 2972, col: 12, offset: 94025},
+																				run: (*parser).callonInlinePassthrough76,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94036},
+																					pos: position{line: 2972, col: 13, offset: 94026},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94036},
+																							pos:        position{line: 2972, col: 13, offset: 94026},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94043},
+																							pos:        position{line: 2972, col: 20, offset: 94033},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94052},
+																							pos:        position{line: 2972, col: 29, offset: 94042},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50249,7 +50239,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1404, col: 100, offset: 44375},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 13, offset: 89812},
+														pos:        position{line: 2817, col: 13, offset: 89802},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50260,7 +50250,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2492, col: 57, offset: 80531},
+										pos:  position{line: 2492, col: 57, offset: 80521},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50272,16 +50262,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2497, col: 1, offset: 80591},
+			pos:  position{line: 2497, col: 1, offset: 80581},
 			expr: &seqExpr{
-				pos: position{line: 2499, col: 5, offset: 80667},
+				pos: position{line: 2499, col: 5, offset: 80657},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2499, col: 5, offset: 80667},
+						pos: position{line: 2499, col: 5, offset: 80657},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2502, col: 5, offset: 80732},
+						pos:  position{line: 2502, col: 5, offset: 80722},
 						name: "QuotedText",
 					},
 				},
@@ -50289,22 +50279,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2504, col: 1, offset: 80745},
+			pos:  position{line: 2504, col: 1, offset: 80735},
 			expr: &actionExpr{
-				pos: position{line: 2506, col: 5, offset: 80827},
+				pos: position{line: 2506, col: 5, offset: 80817},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2506, col: 5, offset: 80827},
+					pos: position{line: 2506, col: 5, offset: 80817},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2506, col: 5, offset: 80827},
+							pos: position{line: 2506, col: 5, offset: 80817},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2509, col: 5, offset: 80898},
+							pos:   position{line: 2509, col: 5, offset: 80888},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2510, col: 9, offset: 80916},
+								pos:  position{line: 2510, col: 9, offset: 80906},
 								name: "Symbol",
 							},
 						},
@@ -50314,103 +50304,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2568, col: 1, offset: 82740},
+			pos:  position{line: 2568, col: 1, offset: 82730},
 			expr: &choiceExpr{
-				pos: position{line: 2570, col: 5, offset: 82770},
+				pos: position{line: 2570, col: 5, offset: 82760},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2570, col: 5, offset: 82770},
+						pos: position{line: 2570, col: 5, offset: 82760},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2570, col: 5, offset: 82770},
+							pos: position{line: 2570, col: 5, offset: 82760},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2570, col: 5, offset: 82770},
+									pos:        position{line: 2570, col: 5, offset: 82760},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2570, col: 10, offset: 82775},
+									pos: position{line: 2570, col: 10, offset: 82765},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2570, col: 10, offset: 82775},
+											pos:  position{line: 2570, col: 10, offset: 82765},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 14, offset: 83873},
+											pos: position{line: 2599, col: 14, offset: 83863},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 14, offset: 83873},
+												pos:        position{line: 2599, col: 14, offset: 83863},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 14, offset: 83939},
+											pos: position{line: 2603, col: 14, offset: 83929},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 14, offset: 83939},
+												pos:        position{line: 2603, col: 14, offset: 83929},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 15, offset: 84008},
+											pos: position{line: 2607, col: 15, offset: 83998},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 15, offset: 84008},
+												pos:        position{line: 2607, col: 15, offset: 83998},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 13, offset: 84073},
+											pos: position{line: 2611, col: 13, offset: 84063},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 13, offset: 84073},
+												pos:        position{line: 2611, col: 13, offset: 84063},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84643},
+											pos: position{line: 2639, col: 21, offset: 84633},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84643},
+												pos:        position{line: 2639, col: 21, offset: 84633},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2618, col: 5, offset: 84229},
+											pos: position{line: 2618, col: 5, offset: 84219},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2618, col: 5, offset: 84229},
+												pos: position{line: 2618, col: 5, offset: 84219},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 5, offset: 84229},
+														pos:        position{line: 2618, col: 5, offset: 84219},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2619, col: 5, offset: 84239},
+														pos: position{line: 2619, col: 5, offset: 84229},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2623, col: 6, offset: 84326},
+														pos: position{line: 2623, col: 6, offset: 84316},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93864},
+																pos: position{line: 2963, col: 10, offset: 93854},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93864},
+																	pos:        position{line: 2963, col: 10, offset: 93854},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50418,30 +50408,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2623, col: 14, offset: 84334},
+																pos: position{line: 2623, col: 14, offset: 84324},
 																expr: &choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94262},
+																	pos: position{line: 2985, col: 8, offset: 94252},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94035},
+																			pos: position{line: 2972, col: 12, offset: 94025},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94036},
+																				pos: position{line: 2972, col: 13, offset: 94026},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94036},
+																						pos:        position{line: 2972, col: 13, offset: 94026},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94043},
+																						pos:        position{line: 2972, col: 20, offset: 94033},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94052},
+																						pos:        position{line: 2972, col: 29, offset: 94042},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50450,9 +50440,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94212},
+																			pos: position{line: 2982, col: 8, offset: 94202},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94213,
+																				line: 2982, col: 9, offset: 94203,
 																			},
 																		},
 																	},
@@ -50464,53 +50454,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 5, offset: 84454},
+											pos: position{line: 2628, col: 5, offset: 84444},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2628, col: 5, offset: 84454},
+												pos: position{line: 2628, col: 5, offset: 84444},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 5, offset: 84454},
+														pos:        position{line: 2628, col: 5, offset: 84444},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2629, col: 5, offset: 84464},
+														pos: position{line: 2629, col: 5, offset: 84454},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2633, col: 5, offset: 84553},
+														pos: position{line: 2633, col: 5, offset: 84543},
 														expr: &choiceExpr{
-															pos: position{line: 2633, col: 7, offset: 84555},
+															pos: position{line: 2633, col: 7, offset: 84545},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2817, col: 13, offset: 89812},
+																	pos:        position{line: 2817, col: 13, offset: 89802},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94035},
+																	pos: position{line: 2972, col: 12, offset: 94025},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94036},
+																		pos: position{line: 2972, col: 13, offset: 94026},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94036},
+																				pos:        position{line: 2972, col: 13, offset: 94026},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94043},
+																				pos:        position{line: 2972, col: 20, offset: 94033},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94052},
+																				pos:        position{line: 2972, col: 29, offset: 94042},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50519,9 +50509,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -50531,30 +50521,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84713},
+											pos: position{line: 2643, col: 20, offset: 84703},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84713},
+												pos:        position{line: 2643, col: 20, offset: 84703},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 21, offset: 84784},
+											pos: position{line: 2647, col: 21, offset: 84774},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 21, offset: 84784},
+												pos:        position{line: 2647, col: 21, offset: 84774},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 20, offset: 84854},
+											pos: position{line: 2651, col: 20, offset: 84844},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2651, col: 20, offset: 84854},
+												pos:        position{line: 2651, col: 20, offset: 84844},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50566,73 +50556,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2574, col: 7, offset: 83024},
+						pos:  position{line: 2574, col: 7, offset: 83014},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 14, offset: 83873},
+						pos: position{line: 2599, col: 14, offset: 83863},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 14, offset: 83873},
+							pos:        position{line: 2599, col: 14, offset: 83863},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 14, offset: 83939},
+						pos: position{line: 2603, col: 14, offset: 83929},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 14, offset: 83939},
+							pos:        position{line: 2603, col: 14, offset: 83929},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 15, offset: 84008},
+						pos: position{line: 2607, col: 15, offset: 83998},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 15, offset: 84008},
+							pos:        position{line: 2607, col: 15, offset: 83998},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 13, offset: 84073},
+						pos: position{line: 2611, col: 13, offset: 84063},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 13, offset: 84073},
+							pos:        position{line: 2611, col: 13, offset: 84063},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2618, col: 5, offset: 84229},
+						pos: position{line: 2618, col: 5, offset: 84219},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2618, col: 5, offset: 84229},
+							pos: position{line: 2618, col: 5, offset: 84219},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2618, col: 5, offset: 84229},
+									pos:        position{line: 2618, col: 5, offset: 84219},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2619, col: 5, offset: 84239},
+									pos: position{line: 2619, col: 5, offset: 84229},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2623, col: 6, offset: 84326},
+									pos: position{line: 2623, col: 6, offset: 84316},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93864},
+											pos: position{line: 2963, col: 10, offset: 93854},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93864},
+												pos:        position{line: 2963, col: 10, offset: 93854},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50640,30 +50630,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2623, col: 14, offset: 84334},
+											pos: position{line: 2623, col: 14, offset: 84324},
 											expr: &choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94262},
+												pos: position{line: 2985, col: 8, offset: 94252},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94035},
+														pos: position{line: 2972, col: 12, offset: 94025},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94036},
+															pos: position{line: 2972, col: 13, offset: 94026},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94036},
+																	pos:        position{line: 2972, col: 13, offset: 94026},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94043},
+																	pos:        position{line: 2972, col: 20, offset: 94033},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94052},
+																	pos:        position{line: 2972, col: 29, offset: 94042},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50672,9 +50662,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94212},
+														pos: position{line: 2982, col: 8, offset: 94202},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94213,
+															line: 2982, col: 9, offset: 94203,
 														},
 													},
 												},
@@ -50686,53 +50676,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2628, col: 5, offset: 84454},
+						pos: position{line: 2628, col: 5, offset: 84444},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2628, col: 5, offset: 84454},
+							pos: position{line: 2628, col: 5, offset: 84444},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2628, col: 5, offset: 84454},
+									pos:        position{line: 2628, col: 5, offset: 84444},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2629, col: 5, offset: 84464},
+									pos: position{line: 2629, col: 5, offset: 84454},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2633, col: 5, offset: 84553},
+									pos: position{line: 2633, col: 5, offset: 84543},
 									expr: &choiceExpr{
-										pos: position{line: 2633, col: 7, offset: 84555},
+										pos: position{line: 2633, col: 7, offset: 84545},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89812},
+												pos:        position{line: 2817, col: 13, offset: 89802},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94035},
+												pos: position{line: 2972, col: 12, offset: 94025},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94036},
+													pos: position{line: 2972, col: 13, offset: 94026},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94036},
+															pos:        position{line: 2972, col: 13, offset: 94026},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94043},
+															pos:        position{line: 2972, col: 20, offset: 94033},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94052},
+															pos:        position{line: 2972, col: 29, offset: 94042},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50741,9 +50731,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2982, col: 8, offset: 94212},
+												pos: position{line: 2982, col: 8, offset: 94202},
 												expr: &anyMatcher{
-													line: 2982, col: 9, offset: 94213,
+													line: 2982, col: 9, offset: 94203,
 												},
 											},
 										},
@@ -50753,40 +50743,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84643},
+						pos: position{line: 2639, col: 21, offset: 84633},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84643},
+							pos:        position{line: 2639, col: 21, offset: 84633},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84713},
+						pos: position{line: 2643, col: 20, offset: 84703},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84713},
+							pos:        position{line: 2643, col: 20, offset: 84703},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 21, offset: 84784},
+						pos: position{line: 2647, col: 21, offset: 84774},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 21, offset: 84784},
+							pos:        position{line: 2647, col: 21, offset: 84774},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2651, col: 20, offset: 84854},
+						pos: position{line: 2651, col: 20, offset: 84844},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2651, col: 20, offset: 84854},
+							pos:        position{line: 2651, col: 20, offset: 84844},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50797,43 +50787,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2585, col: 1, offset: 83214},
+			pos:  position{line: 2585, col: 1, offset: 83204},
 			expr: &choiceExpr{
-				pos: position{line: 2586, col: 5, offset: 83236},
+				pos: position{line: 2586, col: 5, offset: 83226},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2586, col: 5, offset: 83236},
+						pos: position{line: 2586, col: 5, offset: 83226},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2586, col: 5, offset: 83236},
+							pos: position{line: 2586, col: 5, offset: 83226},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2586, col: 5, offset: 83236},
+									pos:        position{line: 2586, col: 5, offset: 83226},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2586, col: 11, offset: 83242},
+									pos: position{line: 2586, col: 11, offset: 83232},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68899},
+										pos: position{line: 2131, col: 5, offset: 68889},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68899},
+												pos:        position{line: 2131, col: 5, offset: 68889},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68908},
+												pos: position{line: 2132, col: 5, offset: 68898},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69031},
+												pos: position{line: 2136, col: 5, offset: 69021},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69033},
+													pos: position{line: 2136, col: 7, offset: 69023},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69034},
+														pos:        position{line: 2136, col: 8, offset: 69024},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50847,21 +50837,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 7, offset: 83395},
+						pos: position{line: 2589, col: 7, offset: 83385},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2589, col: 7, offset: 83395},
+							pos: position{line: 2589, col: 7, offset: 83385},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2589, col: 7, offset: 83395},
+									pos:        position{line: 2589, col: 7, offset: 83385},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2589, col: 13, offset: 83401},
+									pos: position{line: 2589, col: 13, offset: 83391},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2589, col: 14, offset: 83402},
+										pos:  position{line: 2589, col: 14, offset: 83392},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50869,38 +50859,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 7, offset: 83552},
+						pos: position{line: 2592, col: 7, offset: 83542},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2592, col: 7, offset: 83552},
+							pos: position{line: 2592, col: 7, offset: 83542},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2592, col: 7, offset: 83552},
+									pos:        position{line: 2592, col: 7, offset: 83542},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2592, col: 12, offset: 83557},
+									pos: position{line: 2592, col: 12, offset: 83547},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68899},
+										pos: position{line: 2131, col: 5, offset: 68889},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68899},
+												pos:        position{line: 2131, col: 5, offset: 68889},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68908},
+												pos: position{line: 2132, col: 5, offset: 68898},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69031},
+												pos: position{line: 2136, col: 5, offset: 69021},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69033},
+													pos: position{line: 2136, col: 7, offset: 69023},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69034},
+														pos:        position{line: 2136, col: 8, offset: 69024},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50914,21 +50904,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 7, offset: 83710},
+						pos: position{line: 2595, col: 7, offset: 83700},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2595, col: 7, offset: 83710},
+							pos: position{line: 2595, col: 7, offset: 83700},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2595, col: 7, offset: 83710},
+									pos:        position{line: 2595, col: 7, offset: 83700},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2595, col: 12, offset: 83715},
+									pos: position{line: 2595, col: 12, offset: 83705},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2595, col: 13, offset: 83716},
+										pos:  position{line: 2595, col: 13, offset: 83706},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50940,63 +50930,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2728, col: 1, offset: 86756},
+			pos:  position{line: 2728, col: 1, offset: 86746},
 			expr: &actionExpr{
-				pos: position{line: 2728, col: 26, offset: 86781},
+				pos: position{line: 2728, col: 26, offset: 86771},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2728, col: 26, offset: 86781},
+					pos: position{line: 2728, col: 26, offset: 86771},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2728, col: 26, offset: 86781},
+							pos:   position{line: 2728, col: 26, offset: 86771},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2728, col: 31, offset: 86786},
+								pos: position{line: 2728, col: 31, offset: 86776},
 								expr: &actionExpr{
-									pos: position{line: 2733, col: 5, offset: 86849},
+									pos: position{line: 2733, col: 5, offset: 86839},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2733, col: 5, offset: 86849},
+										pos: position{line: 2733, col: 5, offset: 86839},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94198},
+												pos: position{line: 2980, col: 11, offset: 94188},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94200,
+													line: 2980, col: 13, offset: 94190,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86975},
+												pos:   position{line: 2736, col: 5, offset: 86965},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 16, offset: 86986},
+													pos: position{line: 2736, col: 16, offset: 86976},
 													expr: &actionExpr{
-														pos: position{line: 2736, col: 17, offset: 86987},
+														pos: position{line: 2736, col: 17, offset: 86977},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2736, col: 17, offset: 86987},
+															pos: position{line: 2736, col: 17, offset: 86977},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2736, col: 17, offset: 86987},
+																	pos:   position{line: 2736, col: 17, offset: 86977},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 12, offset: 93691},
+																		pos: position{line: 2955, col: 12, offset: 93681},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2955, col: 13, offset: 93692},
+																			pos: position{line: 2955, col: 13, offset: 93682},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2955, col: 13, offset: 93692},
+																					pos: position{line: 2955, col: 13, offset: 93682},
 																					expr: &litMatcher{
-																						pos:        position{line: 2955, col: 13, offset: 93692},
+																						pos:        position{line: 2955, col: 13, offset: 93682},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2955, col: 18, offset: 93697},
+																					pos: position{line: 2955, col: 18, offset: 93687},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 18, offset: 93697},
+																						pos:        position{line: 2955, col: 18, offset: 93687},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -51008,7 +50998,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2736, col: 27, offset: 86997},
+																	pos:        position{line: 2736, col: 27, offset: 86987},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -51019,38 +51009,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 87025},
+												pos:   position{line: 2737, col: 5, offset: 87015},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 12, offset: 87032},
+													pos: position{line: 2737, col: 12, offset: 87022},
 													expr: &choiceExpr{
-														pos: position{line: 2738, col: 9, offset: 87042},
+														pos: position{line: 2738, col: 9, offset: 87032},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2738, col: 9, offset: 87042},
+																pos: position{line: 2738, col: 9, offset: 87032},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 9, offset: 87042},
+																	pos:        position{line: 2738, col: 9, offset: 87032},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 87089},
+																pos: position{line: 2739, col: 11, offset: 87079},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 87089},
+																	pos:        position{line: 2739, col: 11, offset: 87079},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87137},
+																pos: position{line: 2740, col: 11, offset: 87127},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87137},
+																	pos:        position{line: 2740, col: 11, offset: 87127},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -51061,38 +51051,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 87187},
+												pos:   position{line: 2742, col: 5, offset: 87177},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 12, offset: 87194},
+													pos: position{line: 2742, col: 12, offset: 87184},
 													expr: &choiceExpr{
-														pos: position{line: 2743, col: 9, offset: 87204},
+														pos: position{line: 2743, col: 9, offset: 87194},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2743, col: 9, offset: 87204},
+																pos: position{line: 2743, col: 9, offset: 87194},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 9, offset: 87204},
+																	pos:        position{line: 2743, col: 9, offset: 87194},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87251},
+																pos: position{line: 2744, col: 11, offset: 87241},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87251},
+																	pos:        position{line: 2744, col: 11, offset: 87241},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2745, col: 11, offset: 87301},
+																pos: position{line: 2745, col: 11, offset: 87291},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2745, col: 11, offset: 87301},
+																	pos:        position{line: 2745, col: 11, offset: 87291},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -51103,32 +51093,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87352},
+												pos:   position{line: 2747, col: 5, offset: 87342},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 12, offset: 87359},
+													pos: position{line: 2747, col: 12, offset: 87349},
 													expr: &choiceExpr{
-														pos: position{line: 2747, col: 13, offset: 87360},
+														pos: position{line: 2747, col: 13, offset: 87350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93691},
+																pos: position{line: 2955, col: 12, offset: 93681},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93692},
+																	pos: position{line: 2955, col: 13, offset: 93682},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93692},
+																			pos: position{line: 2955, col: 13, offset: 93682},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93692},
+																				pos:        position{line: 2955, col: 13, offset: 93682},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93697},
+																			pos: position{line: 2955, col: 18, offset: 93687},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93697},
+																				pos:        position{line: 2955, col: 18, offset: 93687},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -51139,10 +51129,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2747, col: 24, offset: 87371},
+																pos: position{line: 2747, col: 24, offset: 87361},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2747, col: 24, offset: 87371},
+																	pos:        position{line: 2747, col: 24, offset: 87361},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -51153,15 +51143,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2748, col: 5, offset: 87413},
+												pos:   position{line: 2748, col: 5, offset: 87403},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2748, col: 11, offset: 87419},
+													pos: position{line: 2748, col: 11, offset: 87409},
 													expr: &actionExpr{
-														pos: position{line: 2748, col: 12, offset: 87420},
+														pos: position{line: 2748, col: 12, offset: 87410},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2748, col: 12, offset: 87420},
+															pos:        position{line: 2748, col: 12, offset: 87410},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -51171,12 +51161,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2750, col: 5, offset: 87550},
+												pos:   position{line: 2750, col: 5, offset: 87540},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2750, col: 11, offset: 87556},
+													pos: position{line: 2750, col: 11, offset: 87546},
 													expr: &litMatcher{
-														pos:        position{line: 2750, col: 12, offset: 87557},
+														pos:        position{line: 2750, col: 12, offset: 87547},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51184,7 +51174,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2751, col: 5, offset: 87567},
+												pos: position{line: 2751, col: 5, offset: 87557},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51193,9 +51183,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94212},
+							pos: position{line: 2982, col: 8, offset: 94202},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94213,
+								line: 2982, col: 9, offset: 94203,
 							},
 						},
 					},
@@ -51204,23 +51194,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2778, col: 1, offset: 88576},
+			pos:  position{line: 2778, col: 1, offset: 88566},
 			expr: &actionExpr{
-				pos: position{line: 2779, col: 5, offset: 88599},
+				pos: position{line: 2779, col: 5, offset: 88589},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2779, col: 5, offset: 88599},
+					pos: position{line: 2779, col: 5, offset: 88589},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2779, col: 5, offset: 88599},
+							pos:   position{line: 2779, col: 5, offset: 88589},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 18, offset: 89345},
+								pos: position{line: 2802, col: 18, offset: 89335},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 19, offset: 89346},
+									pos: position{line: 2802, col: 19, offset: 89336},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 19, offset: 89346},
+										pos:        position{line: 2802, col: 19, offset: 89336},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51231,39 +51221,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2780, col: 5, offset: 88625},
+							pos: position{line: 2780, col: 5, offset: 88615},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2784, col: 5, offset: 88753},
+							pos:        position{line: 2784, col: 5, offset: 88743},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88763},
+							pos:   position{line: 2785, col: 5, offset: 88753},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 24, offset: 89507},
+								pos: position{line: 2810, col: 24, offset: 89497},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2810, col: 24, offset: 89507},
+									pos: position{line: 2810, col: 24, offset: 89497},
 									expr: &seqExpr{
-										pos: position{line: 2810, col: 25, offset: 89508},
+										pos: position{line: 2810, col: 25, offset: 89498},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2810, col: 25, offset: 89508},
+												pos: position{line: 2810, col: 25, offset: 89498},
 												expr: &litMatcher{
-													pos:        position{line: 2810, col: 26, offset: 89509},
+													pos:        position{line: 2810, col: 26, offset: 89499},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2810, col: 30, offset: 89513},
+												pos: position{line: 2810, col: 30, offset: 89503},
 												expr: &charClassMatcher{
-													pos:        position{line: 2810, col: 30, offset: 89513},
+													pos:        position{line: 2810, col: 30, offset: 89503},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51271,23 +51261,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2810, col: 41, offset: 89524},
+												pos: position{line: 2810, col: 41, offset: 89514},
 												expr: &seqExpr{
-													pos: position{line: 2810, col: 42, offset: 89525},
+													pos: position{line: 2810, col: 42, offset: 89515},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2810, col: 42, offset: 89525},
+															pos: position{line: 2810, col: 42, offset: 89515},
 															expr: &litMatcher{
-																pos:        position{line: 2810, col: 42, offset: 89525},
+																pos:        position{line: 2810, col: 42, offset: 89515},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2810, col: 47, offset: 89530},
+															pos: position{line: 2810, col: 47, offset: 89520},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 47, offset: 89530},
+																pos:        position{line: 2810, col: 47, offset: 89520},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51303,36 +51293,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2786, col: 5, offset: 88796},
+							pos:   position{line: 2786, col: 5, offset: 88786},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2786, col: 17, offset: 88808},
+								pos:  position{line: 2786, col: 17, offset: 88798},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94262},
+							pos: position{line: 2985, col: 8, offset: 94252},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94035},
+									pos: position{line: 2972, col: 12, offset: 94025},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94036},
+										pos: position{line: 2972, col: 13, offset: 94026},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94036},
+												pos:        position{line: 2972, col: 13, offset: 94026},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94043},
+												pos:        position{line: 2972, col: 20, offset: 94033},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94052},
+												pos:        position{line: 2972, col: 29, offset: 94042},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51341,9 +51331,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94212},
+									pos: position{line: 2982, col: 8, offset: 94202},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94213,
+										line: 2982, col: 9, offset: 94203,
 									},
 								},
 							},
@@ -51354,23 +51344,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2790, col: 1, offset: 88956},
+			pos:  position{line: 2790, col: 1, offset: 88946},
 			expr: &actionExpr{
-				pos: position{line: 2791, col: 5, offset: 88980},
+				pos: position{line: 2791, col: 5, offset: 88970},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2791, col: 5, offset: 88980},
+					pos: position{line: 2791, col: 5, offset: 88970},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2791, col: 5, offset: 88980},
+							pos:   position{line: 2791, col: 5, offset: 88970},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 18, offset: 89345},
+								pos: position{line: 2802, col: 18, offset: 89335},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 19, offset: 89346},
+									pos: position{line: 2802, col: 19, offset: 89336},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 19, offset: 89346},
+										pos:        position{line: 2802, col: 19, offset: 89336},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51381,39 +51371,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2792, col: 5, offset: 89006},
+							pos: position{line: 2792, col: 5, offset: 88996},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2796, col: 5, offset: 89134},
+							pos:        position{line: 2796, col: 5, offset: 89124},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89143},
+							pos:   position{line: 2797, col: 5, offset: 89133},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 19, offset: 89421},
+								pos: position{line: 2806, col: 19, offset: 89411},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2806, col: 19, offset: 89421},
+									pos: position{line: 2806, col: 19, offset: 89411},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 20, offset: 89422},
+										pos: position{line: 2806, col: 20, offset: 89412},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2806, col: 20, offset: 89422},
+												pos: position{line: 2806, col: 20, offset: 89412},
 												expr: &litMatcher{
-													pos:        position{line: 2806, col: 21, offset: 89423},
+													pos:        position{line: 2806, col: 21, offset: 89413},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2806, col: 25, offset: 89427},
+												pos: position{line: 2806, col: 25, offset: 89417},
 												expr: &charClassMatcher{
-													pos:        position{line: 2806, col: 25, offset: 89427},
+													pos:        position{line: 2806, col: 25, offset: 89417},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51426,10 +51416,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2798, col: 5, offset: 89171},
+							pos:   position{line: 2798, col: 5, offset: 89161},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2798, col: 17, offset: 89183},
+								pos:  position{line: 2798, col: 17, offset: 89173},
 								name: "InlineAttributes",
 							},
 						},
@@ -51439,43 +51429,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2890, col: 1, offset: 91672},
+			pos:  position{line: 2890, col: 1, offset: 91662},
 			expr: &actionExpr{
-				pos: position{line: 2890, col: 17, offset: 91688},
+				pos: position{line: 2890, col: 17, offset: 91678},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2890, col: 17, offset: 91688},
+					pos:   position{line: 2890, col: 17, offset: 91678},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2911, col: 5, offset: 92273},
+						pos: position{line: 2911, col: 5, offset: 92263},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2911, col: 5, offset: 92273},
+							pos:   position{line: 2911, col: 5, offset: 92263},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2911, col: 14, offset: 92282},
+								pos: position{line: 2911, col: 14, offset: 92272},
 								expr: &choiceExpr{
-									pos: position{line: 2912, col: 9, offset: 92292},
+									pos: position{line: 2912, col: 9, offset: 92282},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2912, col: 9, offset: 92292},
+											pos: position{line: 2912, col: 9, offset: 92282},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2912, col: 9, offset: 92292},
+												pos: position{line: 2912, col: 9, offset: 92282},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2912, col: 9, offset: 92292},
+														pos: position{line: 2912, col: 9, offset: 92282},
 														expr: &litMatcher{
-															pos:        position{line: 2912, col: 10, offset: 92293},
+															pos:        position{line: 2912, col: 10, offset: 92283},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2913, col: 9, offset: 92321},
+														pos: position{line: 2913, col: 9, offset: 92311},
 														expr: &charClassMatcher{
-															pos:        position{line: 2913, col: 10, offset: 92322},
+															pos:        position{line: 2913, col: 10, offset: 92312},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51486,27 +51476,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2916, col: 11, offset: 92534},
+											pos: position{line: 2916, col: 11, offset: 92524},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2916, col: 11, offset: 92534},
+													pos:        position{line: 2916, col: 11, offset: 92524},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2916, col: 19, offset: 92542},
+													pos: position{line: 2916, col: 19, offset: 92532},
 													expr: &seqExpr{
-														pos: position{line: 2916, col: 21, offset: 92544},
+														pos: position{line: 2916, col: 21, offset: 92534},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2916, col: 21, offset: 92544},
+																pos: position{line: 2916, col: 21, offset: 92534},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93864},
+																	pos: position{line: 2963, col: 10, offset: 93854},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93864},
+																		pos:        position{line: 2963, col: 10, offset: 93854},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51515,11 +51505,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2916, col: 28, offset: 92551},
+																pos: position{line: 2916, col: 28, offset: 92541},
 																expr: &notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94212},
+																	pos: position{line: 2982, col: 8, offset: 94202},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94213,
+																		line: 2982, col: 9, offset: 94203,
 																	},
 																},
 															},
@@ -51914,10 +51904,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2919, col: 11, offset: 92671},
+											pos: position{line: 2919, col: 11, offset: 92661},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2919, col: 11, offset: 92671},
+												pos:        position{line: 2919, col: 11, offset: 92661},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -78543,119 +78533,119 @@ func (p *parser) callonInlinePassthrough6() (interface{}, error) {
 	return p.cur.onInlinePassthrough6(stack["content"])
 }
 
-func (c *current) onInlinePassthrough37() (bool, error) {
+func (c *current) onInlinePassthrough35() (bool, error) {
 	return !c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonInlinePassthrough37() (bool, error) {
+func (p *parser) callonInlinePassthrough35() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough37()
+	return p.cur.onInlinePassthrough35()
 }
 
-func (c *current) onInlinePassthrough46() (interface{}, error) {
+func (c *current) onInlinePassthrough44() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough46() (interface{}, error) {
+func (p *parser) callonInlinePassthrough44() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough46()
+	return p.cur.onInlinePassthrough44()
 }
 
-func (c *current) onInlinePassthrough49() (interface{}, error) {
+func (c *current) onInlinePassthrough47() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough49() (interface{}, error) {
+func (p *parser) callonInlinePassthrough47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough49()
+	return p.cur.onInlinePassthrough47()
 }
 
-func (c *current) onInlinePassthrough59() (interface{}, error) {
+func (c *current) onInlinePassthrough57() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough59() (interface{}, error) {
+func (p *parser) callonInlinePassthrough57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough59()
+	return p.cur.onInlinePassthrough57()
 }
 
-func (c *current) onInlinePassthrough66() (interface{}, error) {
+func (c *current) onInlinePassthrough64() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough66() (interface{}, error) {
+func (p *parser) callonInlinePassthrough64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough66()
+	return p.cur.onInlinePassthrough64()
 }
 
-func (c *current) onInlinePassthrough41() (interface{}, error) {
+func (c *current) onInlinePassthrough39() (interface{}, error) {
 	// no space in the first or last position of the content, but allowed elsewhere
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough41() (interface{}, error) {
+func (p *parser) callonInlinePassthrough39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough41()
+	return p.cur.onInlinePassthrough39()
 }
 
-func (c *current) onInlinePassthrough75() (interface{}, error) {
+func (c *current) onInlinePassthrough73() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlinePassthrough75() (interface{}, error) {
+func (p *parser) callonInlinePassthrough73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough75()
+	return p.cur.onInlinePassthrough73()
 }
 
-func (c *current) onInlinePassthrough78() (interface{}, error) {
+func (c *current) onInlinePassthrough76() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonInlinePassthrough78() (interface{}, error) {
+func (p *parser) callonInlinePassthrough76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough78()
+	return p.cur.onInlinePassthrough76()
 }
 
-func (c *current) onInlinePassthrough72() (interface{}, error) {
+func (c *current) onInlinePassthrough70() (interface{}, error) {
 	// a single character
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonInlinePassthrough72() (interface{}, error) {
+func (p *parser) callonInlinePassthrough70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough72()
+	return p.cur.onInlinePassthrough70()
 }
 
-func (c *current) onInlinePassthrough35(content interface{}) (interface{}, error) {
+func (c *current) onInlinePassthrough33(content interface{}) (interface{}, error) {
 	return types.NewInlinePassthrough(types.SinglePlusPassthrough, []interface{}{content})
 
 }
 
-func (p *parser) callonInlinePassthrough35() (interface{}, error) {
+func (p *parser) callonInlinePassthrough33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlinePassthrough35(stack["content"])
+	return p.cur.onInlinePassthrough33(stack["content"])
 }
 
 func (c *current) onInlinePassthrough1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 01fe190..4f9ecc8 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1413,7 +1413,7 @@ SinglePlusPassthroughContent <- ((!SinglePlusPassthroughPrefix !Space !Newline .
 
 TriplePlusPassthroughPrefix <- "+++"
 
-TriplePlusPassthrough <- TriplePlusPassthroughPrefix content:(TriplePlusPassthroughContent) TriplePlusPassthroughPrefix !Alphanum {
+TriplePlusPassthrough <- TriplePlusPassthroughPrefix content:(TriplePlusPassthroughContent) TriplePlusPassthroughPrefix {
         return types.NewInlinePassthrough(types.TriplePlusPassthrough, []interface{}{content})
     }
 
-- 
2.43.0


From 5cccaab5f64bfb004553eec93b8e669d666c291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:52 +0000
Subject: [PATCH 112/117] fix: apply the rules of the boundaries of the quotes
 in passthrough macros

---
 pkg/parser/parser.go  | 12792 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    12 +-
 2 files changed, 6429 insertions(+), 6375 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 8d919a6..bdc5df1 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93681},
+																pos: position{line: 2965, col: 12, offset: 93997},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93682},
+																	pos: position{line: 2965, col: 13, offset: 93998},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93682},
+																			pos: position{line: 2965, col: 13, offset: 93998},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93682},
+																				pos:        position{line: 2965, col: 13, offset: 93998},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93687},
+																			pos: position{line: 2965, col: 18, offset: 94003},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93687},
+																				pos:        position{line: 2965, col: 18, offset: 94003},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93681},
+																pos: position{line: 2965, col: 12, offset: 93997},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93682},
+																	pos: position{line: 2965, col: 13, offset: 93998},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93682},
+																			pos: position{line: 2965, col: 13, offset: 93998},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93682},
+																				pos:        position{line: 2965, col: 13, offset: 93998},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93687},
+																			pos: position{line: 2965, col: 18, offset: 94003},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93687},
+																				pos:        position{line: 2965, col: 18, offset: 94003},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 13, offset: 89802},
+														pos:        position{line: 2827, col: 13, offset: 90118},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2967, col: 11, offset: 93915},
+													pos: position{line: 2977, col: 11, offset: 94231},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2967, col: 11, offset: 93915},
+														pos: position{line: 2977, col: 11, offset: 94231},
 														expr: &charClassMatcher{
-															pos:        position{line: 2967, col: 11, offset: 93915},
+															pos:        position{line: 2977, col: 11, offset: 94231},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2886, col: 14, offset: 91608},
+													pos: position{line: 2896, col: 14, offset: 91924},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2886, col: 14, offset: 91608},
+														pos: position{line: 2896, col: 14, offset: 91924},
 														expr: &charClassMatcher{
-															pos:        position{line: 2886, col: 14, offset: 91608},
+															pos:        position{line: 2896, col: 14, offset: 91924},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 17, offset: 91678},
+												pos: position{line: 2900, col: 17, offset: 91994},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2890, col: 17, offset: 91678},
+													pos:   position{line: 2900, col: 17, offset: 91994},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 12, offset: 93681},
+																				pos: position{line: 2965, col: 12, offset: 93997},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2955, col: 13, offset: 93682},
+																					pos: position{line: 2965, col: 13, offset: 93998},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2955, col: 13, offset: 93682},
+																							pos: position{line: 2965, col: 13, offset: 93998},
 																							expr: &litMatcher{
-																								pos:        position{line: 2955, col: 13, offset: 93682},
+																								pos:        position{line: 2965, col: 13, offset: 93998},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2955, col: 18, offset: 93687},
+																							pos: position{line: 2965, col: 18, offset: 94003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 18, offset: 93687},
+																								pos:        position{line: 2965, col: 18, offset: 94003},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2955, col: 12, offset: 93681},
+																				pos: position{line: 2965, col: 12, offset: 93997},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2955, col: 13, offset: 93682},
+																					pos: position{line: 2965, col: 13, offset: 93998},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2955, col: 13, offset: 93682},
+																							pos: position{line: 2965, col: 13, offset: 93998},
 																							expr: &litMatcher{
-																								pos:        position{line: 2955, col: 13, offset: 93682},
+																								pos:        position{line: 2965, col: 13, offset: 93998},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2955, col: 18, offset: 93687},
+																							pos: position{line: 2965, col: 18, offset: 94003},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2955, col: 18, offset: 93687},
+																								pos:        position{line: 2965, col: 18, offset: 94003},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 12, offset: 93681},
+																		pos: position{line: 2965, col: 12, offset: 93997},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2955, col: 13, offset: 93682},
+																			pos: position{line: 2965, col: 13, offset: 93998},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2955, col: 13, offset: 93682},
+																					pos: position{line: 2965, col: 13, offset: 93998},
 																					expr: &litMatcher{
-																						pos:        position{line: 2955, col: 13, offset: 93682},
+																						pos:        position{line: 2965, col: 13, offset: 93998},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2955, col: 18, offset: 93687},
+																					pos: position{line: 2965, col: 18, offset: 94003},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 18, offset: 93687},
+																						pos:        position{line: 2965, col: 18, offset: 94003},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 12, offset: 93681},
+																									pos: position{line: 2965, col: 12, offset: 93997},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2955, col: 13, offset: 93682},
+																										pos: position{line: 2965, col: 13, offset: 93998},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2955, col: 13, offset: 93682},
+																												pos: position{line: 2965, col: 13, offset: 93998},
 																												expr: &litMatcher{
-																													pos:        position{line: 2955, col: 13, offset: 93682},
+																													pos:        position{line: 2965, col: 13, offset: 93998},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2955, col: 18, offset: 93687},
+																												pos: position{line: 2965, col: 18, offset: 94003},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 18, offset: 93687},
+																													pos:        position{line: 2965, col: 18, offset: 94003},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2955, col: 12, offset: 93681},
+																									pos: position{line: 2965, col: 12, offset: 93997},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2955, col: 13, offset: 93682},
+																										pos: position{line: 2965, col: 13, offset: 93998},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2955, col: 13, offset: 93682},
+																												pos: position{line: 2965, col: 13, offset: 93998},
 																												expr: &litMatcher{
-																													pos:        position{line: 2955, col: 13, offset: 93682},
+																													pos:        position{line: 2965, col: 13, offset: 93998},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2955, col: 18, offset: 93687},
+																												pos: position{line: 2965, col: 18, offset: 94003},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2955, col: 18, offset: 93687},
+																													pos:        position{line: 2965, col: 18, offset: 94003},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2955, col: 12, offset: 93681},
+																							pos: position{line: 2965, col: 12, offset: 93997},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2955, col: 13, offset: 93682},
+																								pos: position{line: 2965, col: 13, offset: 93998},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2955, col: 13, offset: 93682},
+																										pos: position{line: 2965, col: 13, offset: 93998},
 																										expr: &litMatcher{
-																											pos:        position{line: 2955, col: 13, offset: 93682},
+																											pos:        position{line: 2965, col: 13, offset: 93998},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2955, col: 18, offset: 93687},
+																										pos: position{line: 2965, col: 18, offset: 94003},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2955, col: 18, offset: 93687},
+																											pos:        position{line: 2965, col: 18, offset: 94003},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 12, offset: 93681},
+														pos: position{line: 2965, col: 12, offset: 93997},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2955, col: 13, offset: 93682},
+															pos: position{line: 2965, col: 13, offset: 93998},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2955, col: 13, offset: 93682},
+																	pos: position{line: 2965, col: 13, offset: 93998},
 																	expr: &litMatcher{
-																		pos:        position{line: 2955, col: 13, offset: 93682},
+																		pos:        position{line: 2965, col: 13, offset: 93998},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2955, col: 18, offset: 93687},
+																	pos: position{line: 2965, col: 18, offset: 94003},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 18, offset: 93687},
+																		pos:        position{line: 2965, col: 18, offset: 94003},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2955, col: 12, offset: 93681},
+														pos: position{line: 2965, col: 12, offset: 93997},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2955, col: 13, offset: 93682},
+															pos: position{line: 2965, col: 13, offset: 93998},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2955, col: 13, offset: 93682},
+																	pos: position{line: 2965, col: 13, offset: 93998},
 																	expr: &litMatcher{
-																		pos:        position{line: 2955, col: 13, offset: 93682},
+																		pos:        position{line: 2965, col: 13, offset: 93998},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2955, col: 18, offset: 93687},
+																	pos: position{line: 2965, col: 18, offset: 94003},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2955, col: 18, offset: 93687},
+																		pos:        position{line: 2965, col: 18, offset: 94003},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2955, col: 12, offset: 93681},
+												pos: position{line: 2965, col: 12, offset: 93997},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2955, col: 13, offset: 93682},
+													pos: position{line: 2965, col: 13, offset: 93998},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2955, col: 13, offset: 93682},
+															pos: position{line: 2965, col: 13, offset: 93998},
 															expr: &litMatcher{
-																pos:        position{line: 2955, col: 13, offset: 93682},
+																pos:        position{line: 2965, col: 13, offset: 93998},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2955, col: 18, offset: 93687},
+															pos: position{line: 2965, col: 18, offset: 94003},
 															expr: &charClassMatcher{
-																pos:        position{line: 2955, col: 18, offset: 93687},
+																pos:        position{line: 2965, col: 18, offset: 94003},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2821, col: 14, offset: 89876},
+																		pos: position{line: 2831, col: 14, offset: 90192},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2821, col: 14, offset: 89876},
+																			pos: position{line: 2831, col: 14, offset: 90192},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2821, col: 14, offset: 89876},
+																				pos:        position{line: 2831, col: 14, offset: 90192},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2821, col: 14, offset: 89876},
+																				pos: position{line: 2831, col: 14, offset: 90192},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2821, col: 14, offset: 89876},
+																					pos: position{line: 2831, col: 14, offset: 90192},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2821, col: 14, offset: 89876},
+																						pos:        position{line: 2831, col: 14, offset: 90192},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2821, col: 14, offset: 89876},
+																							pos: position{line: 2831, col: 14, offset: 90192},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2821, col: 14, offset: 89876},
+																								pos: position{line: 2831, col: 14, offset: 90192},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2821, col: 14, offset: 89876},
+																									pos:        position{line: 2831, col: 14, offset: 90192},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2821, col: 14, offset: 89876},
+																									pos: position{line: 2831, col: 14, offset: 90192},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2821, col: 14, offset: 89876},
+																										pos: position{line: 2831, col: 14, offset: 90192},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2821, col: 14, offset: 89876},
+																											pos:        position{line: 2831, col: 14, offset: 90192},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2821, col: 14, offset: 89876},
+																pos: position{line: 2831, col: 14, offset: 90192},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2821, col: 14, offset: 89876},
+																	pos: position{line: 2831, col: 14, offset: 90192},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2821, col: 14, offset: 89876},
+																		pos:        position{line: 2831, col: 14, offset: 90192},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2821, col: 14, offset: 89876},
+																pos: position{line: 2831, col: 14, offset: 90192},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2821, col: 14, offset: 89876},
+																	pos: position{line: 2831, col: 14, offset: 90192},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2821, col: 14, offset: 89876},
+																		pos:        position{line: 2831, col: 14, offset: 90192},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2980, col: 11, offset: 94188},
+														pos: position{line: 2990, col: 11, offset: 94504},
 														expr: &anyMatcher{
-															line: 2980, col: 13, offset: 94190,
+															line: 2990, col: 13, offset: 94506,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91608},
+																			pos: position{line: 2896, col: 14, offset: 91924},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91608},
+																				pos: position{line: 2896, col: 14, offset: 91924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91608},
+																					pos:        position{line: 2896, col: 14, offset: 91924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2980, col: 11, offset: 94188},
+																									pos: position{line: 2990, col: 11, offset: 94504},
 																									expr: &anyMatcher{
-																										line: 2980, col: 13, offset: 94190,
+																										line: 2990, col: 13, offset: 94506,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 14, offset: 91608},
+																						pos: position{line: 2896, col: 14, offset: 91924},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2886, col: 14, offset: 91608},
+																							pos: position{line: 2896, col: 14, offset: 91924},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 14, offset: 91608},
+																								pos:        position{line: 2896, col: 14, offset: 91924},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1828, col: 5, offset: 59055},
+																		pos: position{line: 1838, col: 5, offset: 59371},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1828, col: 5, offset: 59055},
+																			pos: position{line: 1838, col: 5, offset: 59371},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1828, col: 5, offset: 59055},
+																					pos:   position{line: 1838, col: 5, offset: 59371},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2886, col: 14, offset: 91608},
+																						pos: position{line: 2896, col: 14, offset: 91924},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2886, col: 14, offset: 91608},
+																							pos: position{line: 2896, col: 14, offset: 91924},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2886, col: 14, offset: 91608},
+																								pos:        position{line: 2896, col: 14, offset: 91924},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1829, col: 5, offset: 59079},
+																					pos: position{line: 1839, col: 5, offset: 59395},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2768, col: 18, offset: 88161},
+											pos: position{line: 2778, col: 18, offset: 88477},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2769, col: 9, offset: 88171},
+												pos: position{line: 2779, col: 9, offset: 88487},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88171},
+														pos: position{line: 2779, col: 9, offset: 88487},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88171},
+																pos:        position{line: 2779, col: 9, offset: 88487},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2769, col: 15, offset: 88177},
+																pos: position{line: 2779, col: 15, offset: 88493},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2770, col: 11, offset: 88210},
+														pos: position{line: 2780, col: 11, offset: 88526},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2770, col: 12, offset: 88211},
+																pos: position{line: 2780, col: 12, offset: 88527},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 12, offset: 88211},
+																		pos:        position{line: 2780, col: 12, offset: 88527},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 20, offset: 88219},
+																		pos:        position{line: 2780, col: 20, offset: 88535},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 30, offset: 88229},
+																		pos:        position{line: 2780, col: 30, offset: 88545},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 38, offset: 88237},
+																		pos:        position{line: 2780, col: 38, offset: 88553},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 48, offset: 88247},
+																		pos:        position{line: 2780, col: 48, offset: 88563},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2770, col: 56, offset: 88255},
+																		pos:        position{line: 2780, col: 56, offset: 88571},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2770, col: 65, offset: 88264},
+																pos: position{line: 2780, col: 65, offset: 88580},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2770, col: 76, offset: 88275},
+																pos: position{line: 2780, col: 76, offset: 88591},
 																expr: &choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2659, col: 5, offset: 85097},
+											pos: position{line: 2669, col: 5, offset: 85413},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2659, col: 5, offset: 85097},
+												pos: position{line: 2669, col: 5, offset: 85413},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2665, col: 19, offset: 85254},
+														pos:        position{line: 2675, col: 19, offset: 85570},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2665, col: 26, offset: 85261},
+														pos: position{line: 2675, col: 26, offset: 85577},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2660, col: 5, offset: 85121},
+														pos:   position{line: 2670, col: 5, offset: 85437},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2660, col: 11, offset: 85127},
+															pos: position{line: 2670, col: 11, offset: 85443},
 															expr: &choiceExpr{
-																pos: position{line: 2660, col: 12, offset: 85128},
+																pos: position{line: 2670, col: 12, offset: 85444},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94188},
+																					pos: position{line: 2990, col: 11, offset: 94504},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94190,
+																						line: 2990, col: 13, offset: 94506,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2672, col: 5, offset: 85373},
+																		pos: position{line: 2682, col: 5, offset: 85689},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2672, col: 5, offset: 85373},
+																			pos: position{line: 2682, col: 5, offset: 85689},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2672, col: 5, offset: 85373},
+																					pos: position{line: 2682, col: 5, offset: 85689},
 																					expr: &choiceExpr{
-																						pos: position{line: 2669, col: 22, offset: 85334},
+																						pos: position{line: 2679, col: 22, offset: 85650},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2665, col: 19, offset: 85254},
+																								pos: position{line: 2675, col: 19, offset: 85570},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2665, col: 19, offset: 85254},
+																										pos:        position{line: 2675, col: 19, offset: 85570},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2665, col: 26, offset: 85261},
+																										pos: position{line: 2675, col: 26, offset: 85577},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94252},
+																										pos: position{line: 2995, col: 8, offset: 94568},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94025},
+																												pos: position{line: 2982, col: 12, offset: 94341},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94026},
+																													pos: position{line: 2982, col: 13, offset: 94342},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94026},
+																															pos:        position{line: 2982, col: 13, offset: 94342},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94033},
+																															pos:        position{line: 2982, col: 20, offset: 94349},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94042},
+																															pos:        position{line: 2982, col: 29, offset: 94358},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94202},
+																												pos: position{line: 2992, col: 8, offset: 94518},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94203,
+																													line: 2992, col: 9, offset: 94519,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2673, col: 5, offset: 85396},
+																					pos:   position{line: 2683, col: 5, offset: 85712},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2674, col: 9, offset: 85414},
+																						pos: position{line: 2684, col: 9, offset: 85730},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2674, col: 10, offset: 85415},
+																								pos: position{line: 2684, col: 10, offset: 85731},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2674, col: 10, offset: 85415},
+																									pos:   position{line: 2684, col: 10, offset: 85731},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2674, col: 17, offset: 85422},
+																										pos: position{line: 2684, col: 17, offset: 85738},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2682, col: 21, offset: 85618},
+																												pos: position{line: 2692, col: 21, offset: 85934},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2682, col: 21, offset: 85618},
+																													pos: position{line: 2692, col: 21, offset: 85934},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2682, col: 21, offset: 85618},
+																															pos:   position{line: 2692, col: 21, offset: 85934},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2682, col: 27, offset: 85624},
+																																pos: position{line: 2692, col: 27, offset: 85940},
 																																expr: &actionExpr{
-																																	pos: position{line: 2687, col: 5, offset: 85699},
+																																	pos: position{line: 2697, col: 5, offset: 86015},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2687, col: 5, offset: 85699},
+																																		pos: position{line: 2697, col: 5, offset: 86015},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2687, col: 5, offset: 85699},
+																																				pos:        position{line: 2697, col: 5, offset: 86015},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2687, col: 9, offset: 85703},
+																																				pos: position{line: 2697, col: 9, offset: 86019},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2963, col: 10, offset: 93854},
+																																					pos: position{line: 2973, col: 10, offset: 94170},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2963, col: 10, offset: 93854},
+																																						pos:        position{line: 2973, col: 10, offset: 94170},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2687, col: 16, offset: 85710},
+																																				pos:   position{line: 2697, col: 16, offset: 86026},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2693, col: 5, offset: 85910},
+																																					pos: position{line: 2703, col: 5, offset: 86226},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2693, col: 5, offset: 85910},
+																																						pos:   position{line: 2703, col: 5, offset: 86226},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2693, col: 14, offset: 85919},
+																																							pos: position{line: 2703, col: 14, offset: 86235},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2693, col: 14, offset: 85919},
+																																								pos: position{line: 2703, col: 14, offset: 86235},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2693, col: 14, offset: 85919},
+																																									pos:        position{line: 2703, col: 14, offset: 86235},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2985, col: 8, offset: 94252},
+																															pos: position{line: 2995, col: 8, offset: 94568},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2972, col: 12, offset: 94025},
+																																	pos: position{line: 2982, col: 12, offset: 94341},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2972, col: 13, offset: 94026},
+																																		pos: position{line: 2982, col: 13, offset: 94342},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 13, offset: 94026},
+																																				pos:        position{line: 2982, col: 13, offset: 94342},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 20, offset: 94033},
+																																				pos:        position{line: 2982, col: 20, offset: 94349},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2972, col: 29, offset: 94042},
+																																				pos:        position{line: 2982, col: 29, offset: 94358},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2982, col: 8, offset: 94202},
+																																	pos: position{line: 2992, col: 8, offset: 94518},
 																																	expr: &anyMatcher{
-																																		line: 2982, col: 9, offset: 94203,
+																																		line: 2992, col: 9, offset: 94519,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2699, col: 24, offset: 86055},
+																												pos: position{line: 2709, col: 24, offset: 86371},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2699, col: 24, offset: 86055},
+																													pos:   position{line: 2709, col: 24, offset: 86371},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2699, col: 30, offset: 86061},
+																														pos: position{line: 2709, col: 30, offset: 86377},
 																														expr: &actionExpr{
-																															pos: position{line: 2704, col: 5, offset: 86137},
+																															pos: position{line: 2714, col: 5, offset: 86453},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2704, col: 5, offset: 86137},
+																																pos: position{line: 2714, col: 5, offset: 86453},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2704, col: 5, offset: 86137},
+																																		pos: position{line: 2714, col: 5, offset: 86453},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2669, col: 22, offset: 85334},
+																																			pos: position{line: 2679, col: 22, offset: 85650},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2665, col: 19, offset: 85254},
+																																					pos: position{line: 2675, col: 19, offset: 85570},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2665, col: 19, offset: 85254},
+																																							pos:        position{line: 2675, col: 19, offset: 85570},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2665, col: 26, offset: 85261},
+																																							pos: position{line: 2675, col: 26, offset: 85577},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2963, col: 10, offset: 93854},
+																																								pos: position{line: 2973, col: 10, offset: 94170},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2963, col: 10, offset: 93854},
+																																									pos:        position{line: 2973, col: 10, offset: 94170},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2985, col: 8, offset: 94252},
+																																							pos: position{line: 2995, col: 8, offset: 94568},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2972, col: 12, offset: 94025},
+																																									pos: position{line: 2982, col: 12, offset: 94341},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2972, col: 13, offset: 94026},
+																																										pos: position{line: 2982, col: 13, offset: 94342},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 13, offset: 94026},
+																																												pos:        position{line: 2982, col: 13, offset: 94342},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 20, offset: 94033},
+																																												pos:        position{line: 2982, col: 20, offset: 94349},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 29, offset: 94042},
+																																												pos:        position{line: 2982, col: 29, offset: 94358},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94202},
+																																									pos: position{line: 2992, col: 8, offset: 94518},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94203,
+																																										line: 2992, col: 9, offset: 94519,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2982, col: 8, offset: 94202},
+																																					pos: position{line: 2992, col: 8, offset: 94518},
 																																					expr: &anyMatcher{
-																																						line: 2982, col: 9, offset: 94203,
+																																						line: 2992, col: 9, offset: 94519,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2705, col: 5, offset: 86160},
+																																		pos: position{line: 2715, col: 5, offset: 86476},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2980, col: 11, offset: 94188},
+																																						pos: position{line: 2990, col: 11, offset: 94504},
 																																						expr: &anyMatcher{
-																																							line: 2980, col: 13, offset: 94190,
+																																							line: 2990, col: 13, offset: 94506,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2963, col: 10, offset: 93854},
+																																							pos: position{line: 2973, col: 10, offset: 94170},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2963, col: 10, offset: 93854},
+																																								pos:        position{line: 2973, col: 10, offset: 94170},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2985, col: 8, offset: 94252},
+																																						pos: position{line: 2995, col: 8, offset: 94568},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2972, col: 12, offset: 94025},
+																																								pos: position{line: 2982, col: 12, offset: 94341},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2972, col: 13, offset: 94026},
+																																									pos: position{line: 2982, col: 13, offset: 94342},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 13, offset: 94026},
+																																											pos:        position{line: 2982, col: 13, offset: 94342},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 20, offset: 94033},
+																																											pos:        position{line: 2982, col: 20, offset: 94349},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 29, offset: 94042},
+																																											pos:        position{line: 2982, col: 29, offset: 94358},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2982, col: 8, offset: 94202},
+																																								pos: position{line: 2992, col: 8, offset: 94518},
 																																								expr: &anyMatcher{
-																																									line: 2982, col: 9, offset: 94203,
+																																									line: 2992, col: 9, offset: 94519,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2706, col: 5, offset: 86175},
+																																		pos:   position{line: 2716, col: 5, offset: 86491},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2706, col: 12, offset: 86182},
+																																			pos: position{line: 2716, col: 12, offset: 86498},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2723, col: 20, offset: 86646},
+																																				pos: position{line: 2733, col: 20, offset: 86962},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2723, col: 20, offset: 86646},
+																																					pos: position{line: 2733, col: 20, offset: 86962},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2723, col: 20, offset: 86646},
+																																						pos:        position{line: 2733, col: 20, offset: 86962},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2706, col: 31, offset: 86201},
+																																		pos:        position{line: 2716, col: 31, offset: 86517},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2706, col: 35, offset: 86205},
+																																		pos: position{line: 2716, col: 35, offset: 86521},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2963, col: 10, offset: 93854},
+																																			pos: position{line: 2973, col: 10, offset: 94170},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2963, col: 10, offset: 93854},
+																																				pos:        position{line: 2973, col: 10, offset: 94170},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2706, col: 42, offset: 86212},
+																																		pos: position{line: 2716, col: 42, offset: 86528},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2972, col: 12, offset: 94025},
+																																			pos: position{line: 2982, col: 12, offset: 94341},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2972, col: 13, offset: 94026},
+																																				pos: position{line: 2982, col: 13, offset: 94342},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 13, offset: 94026},
+																																						pos:        position{line: 2982, col: 13, offset: 94342},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 20, offset: 94033},
+																																						pos:        position{line: 2982, col: 20, offset: 94349},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2972, col: 29, offset: 94042},
+																																						pos:        position{line: 2982, col: 29, offset: 94358},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2706, col: 51, offset: 86221},
+																																		pos:   position{line: 2716, col: 51, offset: 86537},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2712, col: 5, offset: 86380},
+																																			pos: position{line: 2722, col: 5, offset: 86696},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2713, col: 9, offset: 86390},
+																																				pos: position{line: 2723, col: 9, offset: 86706},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2713, col: 9, offset: 86390},
+																																					pos: position{line: 2723, col: 9, offset: 86706},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2713, col: 9, offset: 86390},
+																																							pos: position{line: 2723, col: 9, offset: 86706},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2669, col: 22, offset: 85334},
+																																								pos: position{line: 2679, col: 22, offset: 85650},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2665, col: 19, offset: 85254},
+																																										pos: position{line: 2675, col: 19, offset: 85570},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2665, col: 19, offset: 85254},
+																																												pos:        position{line: 2675, col: 19, offset: 85570},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2665, col: 26, offset: 85261},
+																																												pos: position{line: 2675, col: 26, offset: 85577},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2963, col: 10, offset: 93854},
+																																													pos: position{line: 2973, col: 10, offset: 94170},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2963, col: 10, offset: 93854},
+																																														pos:        position{line: 2973, col: 10, offset: 94170},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2985, col: 8, offset: 94252},
+																																												pos: position{line: 2995, col: 8, offset: 94568},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2972, col: 12, offset: 94025},
+																																														pos: position{line: 2982, col: 12, offset: 94341},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2972, col: 13, offset: 94026},
+																																															pos: position{line: 2982, col: 13, offset: 94342},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2982, col: 8, offset: 94202},
+																																														pos: position{line: 2992, col: 8, offset: 94518},
 																																														expr: &anyMatcher{
-																																															line: 2982, col: 9, offset: 94203,
+																																															line: 2992, col: 9, offset: 94519,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2982, col: 8, offset: 94202},
+																																										pos: position{line: 2992, col: 8, offset: 94518},
 																																										expr: &anyMatcher{
-																																											line: 2982, col: 9, offset: 94203,
+																																											line: 2992, col: 9, offset: 94519,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2714, col: 9, offset: 86417},
+																																							pos: position{line: 2724, col: 9, offset: 86733},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2980, col: 11, offset: 94188},
+																																											pos: position{line: 2990, col: 11, offset: 94504},
 																																											expr: &anyMatcher{
-																																												line: 2980, col: 13, offset: 94190,
+																																												line: 2990, col: 13, offset: 94506,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2963, col: 10, offset: 93854},
+																																												pos: position{line: 2973, col: 10, offset: 94170},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2963, col: 10, offset: 93854},
+																																													pos:        position{line: 2973, col: 10, offset: 94170},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2985, col: 8, offset: 94252},
+																																											pos: position{line: 2995, col: 8, offset: 94568},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2972, col: 12, offset: 94025},
+																																													pos: position{line: 2982, col: 12, offset: 94341},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2972, col: 13, offset: 94026},
+																																														pos: position{line: 2982, col: 13, offset: 94342},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2982, col: 8, offset: 94202},
+																																													pos: position{line: 2992, col: 8, offset: 94518},
 																																													expr: &anyMatcher{
-																																														line: 2982, col: 9, offset: 94203,
+																																														line: 2992, col: 9, offset: 94519,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2715, col: 9, offset: 86436},
+																																							pos: position{line: 2725, col: 9, offset: 86752},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2715, col: 11, offset: 86438},
+																																								pos: position{line: 2725, col: 11, offset: 86754},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2715, col: 11, offset: 86438},
+																																										pos:   position{line: 2725, col: 11, offset: 86754},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2715, col: 18, offset: 86445},
+																																											pos: position{line: 2725, col: 18, offset: 86761},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2723, col: 20, offset: 86646},
+																																												pos: position{line: 2733, col: 20, offset: 86962},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2723, col: 20, offset: 86646},
+																																													pos: position{line: 2733, col: 20, offset: 86962},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2723, col: 20, offset: 86646},
+																																														pos:        position{line: 2733, col: 20, offset: 86962},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2715, col: 37, offset: 86464},
+																																										pos:        position{line: 2725, col: 37, offset: 86780},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2716, col: 9, offset: 86477},
+																																							pos:   position{line: 2726, col: 9, offset: 86793},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2716, col: 18, offset: 86486},
+																																								pos: position{line: 2726, col: 18, offset: 86802},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2716, col: 18, offset: 86486},
+																																									pos: position{line: 2726, col: 18, offset: 86802},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2716, col: 18, offset: 86486},
+																																										pos:        position{line: 2726, col: 18, offset: 86802},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2718, col: 12, offset: 86548},
+																																							pos: position{line: 2728, col: 12, offset: 86864},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2985, col: 8, offset: 94252},
+																																								pos: position{line: 2995, col: 8, offset: 94568},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2972, col: 12, offset: 94025},
+																																										pos: position{line: 2982, col: 12, offset: 94341},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2972, col: 13, offset: 94026},
+																																											pos: position{line: 2982, col: 13, offset: 94342},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 13, offset: 94026},
+																																													pos:        position{line: 2982, col: 13, offset: 94342},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 20, offset: 94033},
+																																													pos:        position{line: 2982, col: 20, offset: 94349},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2972, col: 29, offset: 94042},
+																																													pos:        position{line: 2982, col: 29, offset: 94358},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2982, col: 8, offset: 94202},
+																																										pos: position{line: 2992, col: 8, offset: 94518},
 																																										expr: &anyMatcher{
-																																											line: 2982, col: 9, offset: 94203,
+																																											line: 2992, col: 9, offset: 94519,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2980, col: 11, offset: 94188},
+																											pos: position{line: 2990, col: 11, offset: 94504},
 																											expr: &anyMatcher{
-																												line: 2980, col: 13, offset: 94190,
+																												line: 2990, col: 13, offset: 94506,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2669, col: 22, offset: 85334},
+														pos: position{line: 2679, col: 22, offset: 85650},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2665, col: 19, offset: 85254},
+																pos: position{line: 2675, col: 19, offset: 85570},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2665, col: 19, offset: 85254},
+																		pos:        position{line: 2675, col: 19, offset: 85570},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2665, col: 26, offset: 85261},
+																		pos: position{line: 2675, col: 26, offset: 85577},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2530, col: 22, offset: 81497},
+												pos: position{line: 2540, col: 22, offset: 81813},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2535, col: 31, offset: 81718},
+														pos:        position{line: 2545, col: 31, offset: 82034},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2535, col: 36, offset: 81723},
+														pos: position{line: 2545, col: 36, offset: 82039},
 														expr: &litMatcher{
-															pos:        position{line: 2535, col: 37, offset: 81724},
+															pos:        position{line: 2545, col: 37, offset: 82040},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 49, offset: 81524},
+														pos:   position{line: 2540, col: 49, offset: 81840},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2882, col: 13, offset: 91541},
+																pos: position{line: 2892, col: 13, offset: 91857},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91541},
+																	pos:        position{line: 2892, col: 13, offset: 91857},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94252},
+																										pos: position{line: 2995, col: 8, offset: 94568},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94025},
+																												pos: position{line: 2982, col: 12, offset: 94341},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94026},
+																													pos: position{line: 2982, col: 13, offset: 94342},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94026},
+																															pos:        position{line: 2982, col: 13, offset: 94342},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94033},
+																															pos:        position{line: 2982, col: 20, offset: 94349},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94042},
+																															pos:        position{line: 2982, col: 29, offset: 94358},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94202},
+																												pos: position{line: 2992, col: 8, offset: 94518},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94203,
+																													line: 2992, col: 9, offset: 94519,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2967, col: 11, offset: 93915},
+												pos: position{line: 2977, col: 11, offset: 94231},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2967, col: 11, offset: 93915},
+													pos: position{line: 2977, col: 11, offset: 94231},
 													expr: &charClassMatcher{
-														pos:        position{line: 2967, col: 11, offset: 93915},
+														pos:        position{line: 2977, col: 11, offset: 94231},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94025},
+												pos: position{line: 2982, col: 12, offset: 94341},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94026},
+													pos: position{line: 2982, col: 13, offset: 94342},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94026},
+															pos:        position{line: 2982, col: 13, offset: 94342},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94033},
+															pos:        position{line: 2982, col: 20, offset: 94349},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94042},
+															pos:        position{line: 2982, col: 29, offset: 94358},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93854},
+													pos: position{line: 2973, col: 10, offset: 94170},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93854},
+														pos:        position{line: 2973, col: 10, offset: 94170},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93854},
+											pos: position{line: 2973, col: 10, offset: 94170},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93854},
+												pos:        position{line: 2973, col: 10, offset: 94170},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2985, col: 8, offset: 94252},
+										pos: position{line: 2995, col: 8, offset: 94568},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94025},
+												pos: position{line: 2982, col: 12, offset: 94341},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94026},
+													pos: position{line: 2982, col: 13, offset: 94342},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94026},
+															pos:        position{line: 2982, col: 13, offset: 94342},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94033},
+															pos:        position{line: 2982, col: 20, offset: 94349},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94042},
+															pos:        position{line: 2982, col: 29, offset: 94358},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2982, col: 8, offset: 94202},
+												pos: position{line: 2992, col: 8, offset: 94518},
 												expr: &anyMatcher{
-													line: 2982, col: 9, offset: 94203,
+													line: 2992, col: 9, offset: 94519,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81043},
+										pos: position{line: 2527, col: 5, offset: 81359},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81043},
+													pos: position{line: 2527, col: 5, offset: 81359},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81119},
+													pos:   position{line: 2530, col: 5, offset: 81435},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81137},
+														pos: position{line: 2531, col: 9, offset: 81453},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81138},
+															pos:        position{line: 2531, col: 10, offset: 81454},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93854},
+										pos: position{line: 2973, col: 10, offset: 94170},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93854},
+											pos:        position{line: 2973, col: 10, offset: 94170},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93854},
+													pos: position{line: 2973, col: 10, offset: 94170},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93854},
+														pos:        position{line: 2973, col: 10, offset: 94170},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94252},
+												pos: position{line: 2995, col: 8, offset: 94568},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94025},
+														pos: position{line: 2982, col: 12, offset: 94341},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94026},
+															pos: position{line: 2982, col: 13, offset: 94342},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94026},
+																	pos:        position{line: 2982, col: 13, offset: 94342},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94033},
+																	pos:        position{line: 2982, col: 20, offset: 94349},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94042},
+																	pos:        position{line: 2982, col: 29, offset: 94358},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94202},
+														pos: position{line: 2992, col: 8, offset: 94518},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94203,
+															line: 2992, col: 9, offset: 94519,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94188},
+																pos: position{line: 2990, col: 11, offset: 94504},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94190,
+																	line: 2990, col: 13, offset: 94506,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2821, col: 14, offset: 89876},
+																				pos: position{line: 2831, col: 14, offset: 90192},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2821, col: 14, offset: 89876},
+																					pos: position{line: 2831, col: 14, offset: 90192},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2821, col: 14, offset: 89876},
+																						pos:        position{line: 2831, col: 14, offset: 90192},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2853, col: 5, offset: 90669},
+																				pos: position{line: 2863, col: 5, offset: 90985},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2854, col: 9, offset: 90679},
+																					pos: position{line: 2864, col: 9, offset: 90995},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90680},
+																							pos:        position{line: 2864, col: 10, offset: 90996},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2856, col: 13, offset: 90777},
+																							pos: position{line: 2866, col: 13, offset: 91093},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2856, col: 13, offset: 90777},
+																									pos: position{line: 2866, col: 13, offset: 91093},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2859, col: 13, offset: 90877},
+																									pos:        position{line: 2869, col: 13, offset: 91193},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2859, col: 19, offset: 90883},
+																							pos:        position{line: 2869, col: 19, offset: 91199},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2862, col: 13, offset: 90921},
+																							pos: position{line: 2872, col: 13, offset: 91237},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2862, col: 13, offset: 90921},
+																									pos: position{line: 2872, col: 13, offset: 91237},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2865, col: 14, offset: 91014},
+																									pos:        position{line: 2875, col: 14, offset: 91330},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2867, col: 12, offset: 91058},
+																							pos: position{line: 2877, col: 12, offset: 91374},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2867, col: 12, offset: 91058},
+																									pos:        position{line: 2877, col: 12, offset: 91374},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2867, col: 16, offset: 91062},
+																									pos: position{line: 2877, col: 16, offset: 91378},
 																									expr: &litMatcher{
-																										pos:        position{line: 2867, col: 17, offset: 91063},
+																										pos:        position{line: 2877, col: 17, offset: 91379},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 91323},
+																				pos: position{line: 2885, col: 12, offset: 91639},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2875, col: 12, offset: 91323},
+																					pos:        position{line: 2885, col: 12, offset: 91639},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93854},
+													pos: position{line: 2973, col: 10, offset: 94170},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93854},
+														pos:        position{line: 2973, col: 10, offset: 94170},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94252},
+												pos: position{line: 2995, col: 8, offset: 94568},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94025},
+														pos: position{line: 2982, col: 12, offset: 94341},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94026},
+															pos: position{line: 2982, col: 13, offset: 94342},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94026},
+																	pos:        position{line: 2982, col: 13, offset: 94342},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94033},
+																	pos:        position{line: 2982, col: 20, offset: 94349},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94042},
+																	pos:        position{line: 2982, col: 29, offset: 94358},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94202},
+														pos: position{line: 2992, col: 8, offset: 94518},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94203,
+															line: 2992, col: 9, offset: 94519,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94188},
+																pos: position{line: 2990, col: 11, offset: 94504},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94190,
+																	line: 2990, col: 13, offset: 94506,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93854},
+													pos: position{line: 2973, col: 10, offset: 94170},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93854},
+														pos:        position{line: 2973, col: 10, offset: 94170},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94252},
+												pos: position{line: 2995, col: 8, offset: 94568},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94025},
+														pos: position{line: 2982, col: 12, offset: 94341},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94026},
+															pos: position{line: 2982, col: 13, offset: 94342},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94026},
+																	pos:        position{line: 2982, col: 13, offset: 94342},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94033},
+																	pos:        position{line: 2982, col: 20, offset: 94349},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94042},
+																	pos:        position{line: 2982, col: 29, offset: 94358},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94202},
+														pos: position{line: 2992, col: 8, offset: 94518},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94203,
+															line: 2992, col: 9, offset: 94519,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94188},
+																pos: position{line: 2990, col: 11, offset: 94504},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94190,
+																	line: 2990, col: 13, offset: 94506,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93854},
+											pos: position{line: 2973, col: 10, offset: 94170},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93854},
+												pos:        position{line: 2973, col: 10, offset: 94170},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2963, col: 10, offset: 93854},
+													pos: position{line: 2973, col: 10, offset: 94170},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2963, col: 10, offset: 93854},
+														pos:        position{line: 2973, col: 10, offset: 94170},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93854},
+												pos: position{line: 2973, col: 10, offset: 94170},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93854},
+													pos:        position{line: 2973, col: 10, offset: 94170},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93854},
+											pos: position{line: 2973, col: 10, offset: 94170},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93854},
+												pos:        position{line: 2973, col: 10, offset: 94170},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93854},
+												pos: position{line: 2973, col: 10, offset: 94170},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93854},
+													pos:        position{line: 2973, col: 10, offset: 94170},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89876},
+									pos: position{line: 2831, col: 14, offset: 90192},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89876},
+										pos: position{line: 2831, col: 14, offset: 90192},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89876},
+											pos:        position{line: 2831, col: 14, offset: 90192},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93854},
+									pos: position{line: 2973, col: 10, offset: 94170},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93854},
+										pos:        position{line: 2973, col: 10, offset: 94170},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93854},
+												pos: position{line: 2973, col: 10, offset: 94170},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93854},
+													pos:        position{line: 2973, col: 10, offset: 94170},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89876},
+									pos: position{line: 2831, col: 14, offset: 90192},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89876},
+										pos: position{line: 2831, col: 14, offset: 90192},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89876},
+											pos:        position{line: 2831, col: 14, offset: 90192},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93854},
+									pos: position{line: 2973, col: 10, offset: 94170},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93854},
+										pos:        position{line: 2973, col: 10, offset: 94170},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93854},
+											pos: position{line: 2973, col: 10, offset: 94170},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93854},
+												pos:        position{line: 2973, col: 10, offset: 94170},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2948, col: 7, offset: 93506},
+										pos: position{line: 2958, col: 7, offset: 93822},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 7, offset: 93506},
+											pos: position{line: 2958, col: 7, offset: 93822},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 7, offset: 93506},
+												pos:        position{line: 2958, col: 7, offset: 93822},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93854},
+										pos: position{line: 2973, col: 10, offset: 94170},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93854},
+											pos:        position{line: 2973, col: 10, offset: 94170},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2948, col: 7, offset: 93506},
+										pos: position{line: 2958, col: 7, offset: 93822},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2948, col: 7, offset: 93506},
+											pos: position{line: 2958, col: 7, offset: 93822},
 											expr: &charClassMatcher{
-												pos:        position{line: 2948, col: 7, offset: 93506},
+												pos:        position{line: 2958, col: 7, offset: 93822},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 17, offset: 91678},
+								pos: position{line: 2900, col: 17, offset: 91994},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2890, col: 17, offset: 91678},
+									pos:   position{line: 2900, col: 17, offset: 91994},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2911, col: 5, offset: 92263},
+										pos: position{line: 2921, col: 5, offset: 92579},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2911, col: 5, offset: 92263},
+											pos:   position{line: 2921, col: 5, offset: 92579},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2911, col: 14, offset: 92272},
+												pos: position{line: 2921, col: 14, offset: 92588},
 												expr: &choiceExpr{
-													pos: position{line: 2912, col: 9, offset: 92282},
+													pos: position{line: 2922, col: 9, offset: 92598},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 9, offset: 92282},
+															pos: position{line: 2922, col: 9, offset: 92598},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2912, col: 9, offset: 92282},
+																pos: position{line: 2922, col: 9, offset: 92598},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2912, col: 9, offset: 92282},
+																		pos: position{line: 2922, col: 9, offset: 92598},
 																		expr: &litMatcher{
-																			pos:        position{line: 2912, col: 10, offset: 92283},
+																			pos:        position{line: 2922, col: 10, offset: 92599},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2913, col: 9, offset: 92311},
+																		pos: position{line: 2923, col: 9, offset: 92627},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2913, col: 10, offset: 92312},
+																			pos:        position{line: 2923, col: 10, offset: 92628},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2916, col: 11, offset: 92524},
+															pos: position{line: 2926, col: 11, offset: 92840},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2916, col: 11, offset: 92524},
+																	pos:        position{line: 2926, col: 11, offset: 92840},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2916, col: 19, offset: 92532},
+																	pos: position{line: 2926, col: 19, offset: 92848},
 																	expr: &seqExpr{
-																		pos: position{line: 2916, col: 21, offset: 92534},
+																		pos: position{line: 2926, col: 21, offset: 92850},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2916, col: 21, offset: 92534},
+																				pos: position{line: 2926, col: 21, offset: 92850},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2916, col: 28, offset: 92541},
+																				pos: position{line: 2926, col: 28, offset: 92857},
 																				expr: &notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2919, col: 11, offset: 92661},
+															pos: position{line: 2929, col: 11, offset: 92977},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2919, col: 11, offset: 92661},
+																pos:        position{line: 2929, col: 11, offset: 92977},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2886, col: 14, offset: 91608},
+								pos: position{line: 2896, col: 14, offset: 91924},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2886, col: 14, offset: 91608},
+									pos: position{line: 2896, col: 14, offset: 91924},
 									expr: &charClassMatcher{
-										pos:        position{line: 2886, col: 14, offset: 91608},
+										pos:        position{line: 2896, col: 14, offset: 91924},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81497},
+										pos: position{line: 2540, col: 22, offset: 81813},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81718},
+													pos:        position{line: 2545, col: 31, offset: 82034},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81723},
+													pos: position{line: 2545, col: 36, offset: 82039},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81724},
+														pos:        position{line: 2545, col: 37, offset: 82040},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81524},
+													pos:   position{line: 2540, col: 49, offset: 81840},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91541},
+														pos: position{line: 2892, col: 13, offset: 91857},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91541},
+																pos:        position{line: 2892, col: 13, offset: 91857},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81497},
+										pos: position{line: 2540, col: 22, offset: 81813},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81718},
+													pos:        position{line: 2545, col: 31, offset: 82034},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81723},
+													pos: position{line: 2545, col: 36, offset: 82039},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81724},
+														pos:        position{line: 2545, col: 37, offset: 82040},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81524},
+													pos:   position{line: 2540, col: 49, offset: 81840},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91541},
+														pos: position{line: 2892, col: 13, offset: 91857},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91541},
+																pos:        position{line: 2892, col: 13, offset: 91857},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2980, col: 11, offset: 94188},
+																										pos: position{line: 2990, col: 11, offset: 94504},
 																										expr: &anyMatcher{
-																											line: 2980, col: 13, offset: 94190,
+																											line: 2990, col: 13, offset: 94506,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81497},
+															pos: position{line: 2540, col: 22, offset: 81813},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81497},
+																pos: position{line: 2540, col: 22, offset: 81813},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81718},
+																		pos:        position{line: 2545, col: 31, offset: 82034},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81723},
+																		pos: position{line: 2545, col: 36, offset: 82039},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81724},
+																			pos:        position{line: 2545, col: 37, offset: 82040},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81524},
+																		pos:   position{line: 2540, col: 49, offset: 81840},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91541},
+																			pos: position{line: 2892, col: 13, offset: 91857},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91541},
+																				pos: position{line: 2892, col: 13, offset: 91857},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91541},
+																					pos:        position{line: 2892, col: 13, offset: 91857},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2963, col: 10, offset: 93854},
+																																	pos: position{line: 2973, col: 10, offset: 94170},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2963, col: 10, offset: 93854},
+																																		pos:        position{line: 2973, col: 10, offset: 94170},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2985, col: 8, offset: 94252},
+																																pos: position{line: 2995, col: 8, offset: 94568},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2972, col: 12, offset: 94025},
+																																		pos: position{line: 2982, col: 12, offset: 94341},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2972, col: 13, offset: 94026},
+																																			pos: position{line: 2982, col: 13, offset: 94342},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 13, offset: 94026},
+																																					pos:        position{line: 2982, col: 13, offset: 94342},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 20, offset: 94033},
+																																					pos:        position{line: 2982, col: 20, offset: 94349},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 29, offset: 94042},
+																																					pos:        position{line: 2982, col: 29, offset: 94358},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2982, col: 8, offset: 94202},
+																																		pos: position{line: 2992, col: 8, offset: 94518},
 																																		expr: &anyMatcher{
-																																			line: 2982, col: 9, offset: 94203,
+																																			line: 2992, col: 9, offset: 94519,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2980, col: 11, offset: 94188},
+																											pos: position{line: 2990, col: 11, offset: 94504},
 																											expr: &anyMatcher{
-																												line: 2980, col: 13, offset: 94190,
+																												line: 2990, col: 13, offset: 94506,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2882, col: 13, offset: 91541},
+																												pos: position{line: 2892, col: 13, offset: 91857},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2882, col: 13, offset: 91541},
+																													pos: position{line: 2892, col: 13, offset: 91857},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91541},
+																														pos:        position{line: 2892, col: 13, offset: 91857},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2963, col: 10, offset: 93854},
+															pos: position{line: 2973, col: 10, offset: 94170},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2963, col: 10, offset: 93854},
+																pos:        position{line: 2973, col: 10, offset: 94170},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2530, col: 22, offset: 81497},
+												pos: position{line: 2540, col: 22, offset: 81813},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2535, col: 31, offset: 81718},
+														pos:        position{line: 2545, col: 31, offset: 82034},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2535, col: 36, offset: 81723},
+														pos: position{line: 2545, col: 36, offset: 82039},
 														expr: &litMatcher{
-															pos:        position{line: 2535, col: 37, offset: 81724},
+															pos:        position{line: 2545, col: 37, offset: 82040},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 49, offset: 81524},
+														pos:   position{line: 2540, col: 49, offset: 81840},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2882, col: 13, offset: 91541},
+																pos: position{line: 2892, col: 13, offset: 91857},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91541},
+																	pos:        position{line: 2892, col: 13, offset: 91857},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2963, col: 10, offset: 93854},
+																													pos: position{line: 2973, col: 10, offset: 94170},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2963, col: 10, offset: 93854},
+																														pos:        position{line: 2973, col: 10, offset: 94170},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2985, col: 8, offset: 94252},
+																												pos: position{line: 2995, col: 8, offset: 94568},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2972, col: 12, offset: 94025},
+																														pos: position{line: 2982, col: 12, offset: 94341},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2972, col: 13, offset: 94026},
+																															pos: position{line: 2982, col: 13, offset: 94342},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 13, offset: 94026},
+																																	pos:        position{line: 2982, col: 13, offset: 94342},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 20, offset: 94033},
+																																	pos:        position{line: 2982, col: 20, offset: 94349},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2972, col: 29, offset: 94042},
+																																	pos:        position{line: 2982, col: 29, offset: 94358},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2982, col: 8, offset: 94202},
+																														pos: position{line: 2992, col: 8, offset: 94518},
 																														expr: &anyMatcher{
-																															line: 2982, col: 9, offset: 94203,
+																															line: 2992, col: 9, offset: 94519,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2882, col: 13, offset: 91541},
+																									pos: position{line: 2892, col: 13, offset: 91857},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91541},
+																										pos:        position{line: 2892, col: 13, offset: 91857},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2967, col: 11, offset: 93915},
+							pos: position{line: 2977, col: 11, offset: 94231},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2967, col: 11, offset: 93915},
+								pos: position{line: 2977, col: 11, offset: 94231},
 								expr: &charClassMatcher{
-									pos:        position{line: 2967, col: 11, offset: 93915},
+									pos:        position{line: 2977, col: 11, offset: 94231},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2948, col: 7, offset: 93506},
+								pos: position{line: 2958, col: 7, offset: 93822},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2948, col: 7, offset: 93506},
+									pos: position{line: 2958, col: 7, offset: 93822},
 									expr: &charClassMatcher{
-										pos:        position{line: 2948, col: 7, offset: 93506},
+										pos:        position{line: 2958, col: 7, offset: 93822},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2821, col: 14, offset: 89876},
+									pos: position{line: 2831, col: 14, offset: 90192},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2821, col: 14, offset: 89876},
+										pos: position{line: 2831, col: 14, offset: 90192},
 										expr: &charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89876},
+											pos:        position{line: 2831, col: 14, offset: 90192},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2963, col: 10, offset: 93854},
+									pos: position{line: 2973, col: 10, offset: 94170},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2963, col: 10, offset: 93854},
+										pos:        position{line: 2973, col: 10, offset: 94170},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2517, col: 5, offset: 81043},
+									pos: position{line: 2527, col: 5, offset: 81359},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2517, col: 5, offset: 81043},
+										pos: position{line: 2527, col: 5, offset: 81359},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2517, col: 5, offset: 81043},
+												pos: position{line: 2527, col: 5, offset: 81359},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2520, col: 5, offset: 81119},
+												pos:   position{line: 2530, col: 5, offset: 81435},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2521, col: 9, offset: 81137},
+													pos: position{line: 2531, col: 9, offset: 81453},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 10, offset: 81138},
+														pos:        position{line: 2531, col: 10, offset: 81454},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 13, offset: 91774},
+								pos: position{line: 2904, col: 13, offset: 92090},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 13, offset: 91774},
+									pos: position{line: 2904, col: 13, offset: 92090},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2894, col: 13, offset: 91774},
+											pos:   position{line: 2904, col: 13, offset: 92090},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2894, col: 20, offset: 91781},
+												pos: position{line: 2904, col: 20, offset: 92097},
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 11, offset: 92151},
+													pos: position{line: 2916, col: 11, offset: 92467},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2906, col: 12, offset: 92152},
+														pos: position{line: 2916, col: 12, offset: 92468},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2906, col: 12, offset: 92152},
+																pos:        position{line: 2916, col: 12, offset: 92468},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 24, offset: 92164},
+																pos:        position{line: 2916, col: 24, offset: 92480},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 37, offset: 92177},
+																pos:        position{line: 2916, col: 37, offset: 92493},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 48, offset: 92188},
+																pos:        position{line: 2916, col: 48, offset: 92504},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 59, offset: 92199},
+																pos:        position{line: 2916, col: 59, offset: 92515},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 30, offset: 91791},
+											pos:   position{line: 2904, col: 30, offset: 92107},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2911, col: 5, offset: 92263},
+												pos: position{line: 2921, col: 5, offset: 92579},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2911, col: 5, offset: 92263},
+													pos:   position{line: 2921, col: 5, offset: 92579},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2911, col: 14, offset: 92272},
+														pos: position{line: 2921, col: 14, offset: 92588},
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 9, offset: 92282},
+															pos: position{line: 2922, col: 9, offset: 92598},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 9, offset: 92282},
+																		pos: position{line: 2922, col: 9, offset: 92598},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				expr: &litMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 92283},
+																					pos:        position{line: 2922, col: 10, offset: 92599},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2913, col: 9, offset: 92311},
+																				pos: position{line: 2923, col: 9, offset: 92627},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 10, offset: 92312},
+																					pos:        position{line: 2923, col: 10, offset: 92628},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2916, col: 11, offset: 92524},
+																	pos: position{line: 2926, col: 11, offset: 92840},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 92524},
+																			pos:        position{line: 2926, col: 11, offset: 92840},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2916, col: 19, offset: 92532},
+																			pos: position{line: 2926, col: 19, offset: 92848},
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 21, offset: 92534},
+																				pos: position{line: 2926, col: 21, offset: 92850},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2916, col: 28, offset: 92541},
+																						pos: position{line: 2926, col: 28, offset: 92857},
 																						expr: &notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2919, col: 11, offset: 92661},
+																	pos: position{line: 2929, col: 11, offset: 92977},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2919, col: 11, offset: 92661},
+																		pos:        position{line: 2929, col: 11, offset: 92977},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2894, col: 13, offset: 91774},
+								pos: position{line: 2904, col: 13, offset: 92090},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2894, col: 13, offset: 91774},
+									pos: position{line: 2904, col: 13, offset: 92090},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2894, col: 13, offset: 91774},
+											pos:   position{line: 2904, col: 13, offset: 92090},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2894, col: 20, offset: 91781},
+												pos: position{line: 2904, col: 20, offset: 92097},
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 11, offset: 92151},
+													pos: position{line: 2916, col: 11, offset: 92467},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2906, col: 12, offset: 92152},
+														pos: position{line: 2916, col: 12, offset: 92468},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2906, col: 12, offset: 92152},
+																pos:        position{line: 2916, col: 12, offset: 92468},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 24, offset: 92164},
+																pos:        position{line: 2916, col: 24, offset: 92480},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 37, offset: 92177},
+																pos:        position{line: 2916, col: 37, offset: 92493},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 48, offset: 92188},
+																pos:        position{line: 2916, col: 48, offset: 92504},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2906, col: 59, offset: 92199},
+																pos:        position{line: 2916, col: 59, offset: 92515},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2894, col: 30, offset: 91791},
+											pos:   position{line: 2904, col: 30, offset: 92107},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2911, col: 5, offset: 92263},
+												pos: position{line: 2921, col: 5, offset: 92579},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2911, col: 5, offset: 92263},
+													pos:   position{line: 2921, col: 5, offset: 92579},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2911, col: 14, offset: 92272},
+														pos: position{line: 2921, col: 14, offset: 92588},
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 9, offset: 92282},
+															pos: position{line: 2922, col: 9, offset: 92598},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2912, col: 9, offset: 92282},
+																		pos: position{line: 2922, col: 9, offset: 92598},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				expr: &litMatcher{
-																					pos:        position{line: 2912, col: 10, offset: 92283},
+																					pos:        position{line: 2922, col: 10, offset: 92599},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2913, col: 9, offset: 92311},
+																				pos: position{line: 2923, col: 9, offset: 92627},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2913, col: 10, offset: 92312},
+																					pos:        position{line: 2923, col: 10, offset: 92628},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2916, col: 11, offset: 92524},
+																	pos: position{line: 2926, col: 11, offset: 92840},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2916, col: 11, offset: 92524},
+																			pos:        position{line: 2926, col: 11, offset: 92840},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2916, col: 19, offset: 92532},
+																			pos: position{line: 2926, col: 19, offset: 92848},
 																			expr: &seqExpr{
-																				pos: position{line: 2916, col: 21, offset: 92534},
+																				pos: position{line: 2926, col: 21, offset: 92850},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2916, col: 28, offset: 92541},
+																						pos: position{line: 2926, col: 28, offset: 92857},
 																						expr: &notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2919, col: 11, offset: 92661},
+																	pos: position{line: 2929, col: 11, offset: 92977},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2919, col: 11, offset: 92661},
+																		pos:        position{line: 2929, col: 11, offset: 92977},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89949},
+										pos: position{line: 2836, col: 5, offset: 90265},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89949},
+											pos: position{line: 2836, col: 5, offset: 90265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89949},
+													pos: position{line: 2836, col: 5, offset: 90265},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89960},
+														pos: position{line: 2837, col: 9, offset: 90276},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89960},
+																pos: position{line: 2837, col: 9, offset: 90276},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90023},
+																pos:   position{line: 2840, col: 9, offset: 90339},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89335},
+																	pos: position{line: 2812, col: 18, offset: 89651},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89336},
+																		pos: position{line: 2812, col: 19, offset: 89652},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89336},
+																			pos:        position{line: 2812, col: 19, offset: 89652},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90044},
+																pos:        position{line: 2840, col: 30, offset: 90360},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90131},
+																pos: position{line: 2841, col: 9, offset: 90447},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90243},
+													pos:   position{line: 2845, col: 5, offset: 90559},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90249},
+														pos: position{line: 2845, col: 11, offset: 90565},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90249},
+															pos: position{line: 2845, col: 11, offset: 90565},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90249},
+																pos:        position{line: 2845, col: 11, offset: 90565},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90307},
+													pos: position{line: 2848, col: 5, offset: 90623},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90318},
+														pos: position{line: 2849, col: 9, offset: 90634},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90318},
+																pos:        position{line: 2849, col: 9, offset: 90634},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90367},
+																pos: position{line: 2850, col: 9, offset: 90683},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90447},
+													pos: position{line: 2854, col: 5, offset: 90763},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90458},
+														pos: position{line: 2855, col: 9, offset: 90774},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90458},
+																pos: position{line: 2855, col: 9, offset: 90774},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90458},
+																	pos:        position{line: 2855, col: 9, offset: 90774},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90472},
+																pos:        position{line: 2855, col: 23, offset: 90788},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90476},
+																pos:        position{line: 2855, col: 27, offset: 90792},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 11, offset: 93915},
+										pos: position{line: 2977, col: 11, offset: 94231},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2967, col: 11, offset: 93915},
+											pos: position{line: 2977, col: 11, offset: 94231},
 											expr: &charClassMatcher{
-												pos:        position{line: 2967, col: 11, offset: 93915},
+												pos:        position{line: 2977, col: 11, offset: 94231},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82214},
+										pos: position{line: 2558, col: 5, offset: 82530},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82214},
+											pos: position{line: 2558, col: 5, offset: 82530},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82214},
+													pos: position{line: 2558, col: 5, offset: 82530},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82285},
+													pos:        position{line: 2561, col: 5, offset: 82601},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82290},
+													pos: position{line: 2561, col: 10, offset: 82606},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82291},
+														pos:        position{line: 2561, col: 11, offset: 82607},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82477},
+										pos: position{line: 2567, col: 5, offset: 82793},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82477},
+											pos: position{line: 2567, col: 5, offset: 82793},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82477},
+													pos: position{line: 2567, col: 5, offset: 82793},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82548},
+													pos: position{line: 2570, col: 5, offset: 82864},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82673},
+													pos:        position{line: 2574, col: 5, offset: 82989},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82677},
+													pos: position{line: 2574, col: 9, offset: 82993},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82678},
+														pos:        position{line: 2574, col: 10, offset: 82994},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90669},
+										pos: position{line: 2863, col: 5, offset: 90985},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90679},
+											pos: position{line: 2864, col: 9, offset: 90995},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90680},
+													pos:        position{line: 2864, col: 10, offset: 90996},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90777},
+													pos: position{line: 2866, col: 13, offset: 91093},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90777},
+															pos: position{line: 2866, col: 13, offset: 91093},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90877},
+															pos:        position{line: 2869, col: 13, offset: 91193},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90883},
+													pos:        position{line: 2869, col: 19, offset: 91199},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90921},
+													pos: position{line: 2872, col: 13, offset: 91237},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90921},
+															pos: position{line: 2872, col: 13, offset: 91237},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91014},
+															pos:        position{line: 2875, col: 14, offset: 91330},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91058},
+													pos: position{line: 2877, col: 12, offset: 91374},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91058},
+															pos:        position{line: 2877, col: 12, offset: 91374},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91062},
+															pos: position{line: 2877, col: 16, offset: 91378},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91063},
+																pos:        position{line: 2877, col: 17, offset: 91379},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81043},
+										pos: position{line: 2527, col: 5, offset: 81359},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81043},
+													pos: position{line: 2527, col: 5, offset: 81359},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81119},
+													pos:   position{line: 2530, col: 5, offset: 81435},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81137},
+														pos: position{line: 2531, col: 9, offset: 81453},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81138},
+															pos:        position{line: 2531, col: 10, offset: 81454},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94025},
+										pos: position{line: 2982, col: 12, offset: 94341},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94026},
+											pos: position{line: 2982, col: 13, offset: 94342},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94026},
+													pos:        position{line: 2982, col: 13, offset: 94342},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94033},
+													pos:        position{line: 2982, col: 20, offset: 94349},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94042},
+													pos:        position{line: 2982, col: 29, offset: 94358},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91323},
+										pos: position{line: 2885, col: 12, offset: 91639},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91323},
+											pos:        position{line: 2885, col: 12, offset: 91639},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22274,10 +22274,10 @@ var g = &grammar{
 									expr: &zeroOrMoreExpr{
 										pos: position{line: 1426, col: 38, offset: 45606},
 										expr: &actionExpr{
-											pos: position{line: 1432, col: 30, offset: 45932},
+											pos: position{line: 1442, col: 30, offset: 46248},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1432, col: 30, offset: 45932},
+												pos:        position{line: 1442, col: 30, offset: 46248},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22301,41 +22301,29 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 1428, col: 9, offset: 45739},
 							exprs: []interface{}{
-								&litMatcher{
-									pos:        position{line: 1428, col: 9, offset: 45739},
-									val:        "pass:q[",
-									ignoreCase: false,
-									want:       "\"pass:q[\"",
+								&actionExpr{
+									pos: position{line: 1432, col: 37, offset: 45957},
+									run: (*parser).callonPassthroughMacro12,
+									expr: &litMatcher{
+										pos:        position{line: 1432, col: 37, offset: 45957},
+										val:        "pass:q[",
+										ignoreCase: false,
+										want:       "\"pass:q[\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 19, offset: 45749},
+									pos:   position{line: 1428, col: 42, offset: 45772},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1428, col: 27, offset: 45757},
-										expr: &choiceExpr{
-											pos: position{line: 1428, col: 28, offset: 45758},
-											alternatives: []interface{}{
-												&ruleRefExpr{
-													pos:  position{line: 1428, col: 28, offset: 45758},
-													name: "QuotedText",
-												},
-												&actionExpr{
-													pos: position{line: 1432, col: 30, offset: 45932},
-													run: (*parser).callonPassthroughMacro17,
-													expr: &charClassMatcher{
-														pos:        position{line: 1432, col: 30, offset: 45932},
-														val:        "[^]]",
-														chars:      []rune{']'},
-														ignoreCase: false,
-														inverted:   true,
-													},
-												},
-											},
+										pos: position{line: 1428, col: 50, offset: 45780},
+										expr: &ruleRefExpr{
+											pos:  position{line: 1428, col: 51, offset: 45781},
+											name: "PassthroughMacroWithQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1428, col: 69, offset: 45799},
+									pos:        position{line: 1428, col: 87, offset: 45817},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22346,77 +22334,109 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "PassthroughMacroWithQuotesElement",
+			pos:  position{line: 1437, col: 1, offset: 46064},
+			expr: &actionExpr{
+				pos: position{line: 1437, col: 38, offset: 46101},
+				run: (*parser).callonPassthroughMacroWithQuotesElement1,
+				expr: &labeledExpr{
+					pos:   position{line: 1437, col: 38, offset: 46101},
+					label: "element",
+					expr: &choiceExpr{
+						pos: position{line: 1437, col: 47, offset: 46110},
+						alternatives: []interface{}{
+							&ruleRefExpr{
+								pos:  position{line: 1437, col: 47, offset: 46110},
+								name: "QuotedText",
+							},
+							&actionExpr{
+								pos: position{line: 1442, col: 30, offset: 46248},
+								run: (*parser).callonPassthroughMacroWithQuotesElement5,
+								expr: &charClassMatcher{
+									pos:        position{line: 1442, col: 30, offset: 46248},
+									val:        "[^]]",
+									chars:      []rune{']'},
+									ignoreCase: false,
+									inverted:   true,
+								},
+							},
+						},
+					},
+				},
+			},
+		},
 		{
 			name: "Link",
-			pos:  position{line: 1439, col: 1, offset: 46188},
+			pos:  position{line: 1449, col: 1, offset: 46504},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 9, offset: 46196},
+				pos: position{line: 1449, col: 9, offset: 46512},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1442, col: 5, offset: 46265},
+						pos: position{line: 1452, col: 5, offset: 46581},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1442, col: 5, offset: 46265},
+							pos: position{line: 1452, col: 5, offset: 46581},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1442, col: 5, offset: 46265},
+									pos:        position{line: 1452, col: 5, offset: 46581},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1443, col: 5, offset: 46274},
+									pos:   position{line: 1453, col: 5, offset: 46590},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91901},
+										pos: position{line: 2908, col: 23, offset: 92217},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91901},
+											pos: position{line: 2908, col: 23, offset: 92217},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91901},
+													pos: position{line: 2908, col: 23, offset: 92217},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91902},
+														pos:        position{line: 2908, col: 24, offset: 92218},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91906},
+													pos:   position{line: 2908, col: 28, offset: 92222},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92151},
+														pos: position{line: 2916, col: 11, offset: 92467},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92152},
+															pos: position{line: 2916, col: 12, offset: 92468},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92152},
+																	pos:        position{line: 2916, col: 12, offset: 92468},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92164},
+																	pos:        position{line: 2916, col: 24, offset: 92480},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92177},
+																	pos:        position{line: 2916, col: 37, offset: 92493},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92188},
+																	pos:        position{line: 2916, col: 48, offset: 92504},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92199},
+																	pos:        position{line: 2916, col: 59, offset: 92515},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22426,38 +22446,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91922},
+													pos:   position{line: 2908, col: 44, offset: 92238},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22468,27 +22488,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22497,11 +22517,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -22896,10 +22916,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22916,7 +22936,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 5, offset: 46493},
+									pos:        position{line: 1458, col: 5, offset: 46809},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22925,38 +22945,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1439, col: 19, offset: 46206},
+						pos:  position{line: 1449, col: 19, offset: 46522},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1439, col: 34, offset: 46221},
+						pos:  position{line: 1449, col: 34, offset: 46537},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1482, col: 17, offset: 47603},
+						pos: position{line: 1492, col: 17, offset: 47919},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1482, col: 17, offset: 47603},
+							pos: position{line: 1492, col: 17, offset: 47919},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1482, col: 17, offset: 47603},
+									pos:   position{line: 1492, col: 17, offset: 47919},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1487, col: 5, offset: 47768},
+										pos: position{line: 1497, col: 5, offset: 48084},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1487, col: 5, offset: 47768},
+											pos: position{line: 1497, col: 5, offset: 48084},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1487, col: 5, offset: 47768},
+													pos:   position{line: 1497, col: 5, offset: 48084},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1487, col: 12, offset: 47775},
+														pos: position{line: 1497, col: 12, offset: 48091},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1487, col: 12, offset: 47775},
+															pos: position{line: 1497, col: 12, offset: 48091},
 															expr: &charClassMatcher{
-																pos:        position{line: 1487, col: 12, offset: 47775},
+																pos:        position{line: 1497, col: 12, offset: 48091},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22968,7 +22988,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1490, col: 5, offset: 47859},
+													pos: position{line: 1500, col: 5, offset: 48175},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22976,33 +22996,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1482, col: 43, offset: 47629},
+									pos:        position{line: 1492, col: 43, offset: 47945},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1482, col: 47, offset: 47633},
+									pos:   position{line: 1492, col: 47, offset: 47949},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1499, col: 23, offset: 48153},
+										pos: position{line: 1509, col: 23, offset: 48469},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 23, offset: 48153},
+											pos: position{line: 1509, col: 23, offset: 48469},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1499, col: 23, offset: 48153},
+													pos:   position{line: 1509, col: 23, offset: 48469},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1499, col: 31, offset: 48161},
+														pos: position{line: 1509, col: 31, offset: 48477},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1499, col: 31, offset: 48161},
+															pos: position{line: 1509, col: 31, offset: 48477},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1499, col: 31, offset: 48161},
+																	pos: position{line: 1509, col: 31, offset: 48477},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1499, col: 31, offset: 48161},
+																		pos:        position{line: 1509, col: 31, offset: 48477},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23010,23 +23030,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1499, col: 41, offset: 48171},
+																	pos: position{line: 1509, col: 41, offset: 48487},
 																	expr: &seqExpr{
-																		pos: position{line: 1499, col: 42, offset: 48172},
+																		pos: position{line: 1509, col: 42, offset: 48488},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 42, offset: 48172},
+																				pos: position{line: 1509, col: 42, offset: 48488},
 																				expr: &litMatcher{
-																					pos:        position{line: 1499, col: 42, offset: 48172},
+																					pos:        position{line: 1509, col: 42, offset: 48488},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 47, offset: 48177},
+																				pos: position{line: 1509, col: 47, offset: 48493},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1499, col: 47, offset: 48177},
+																					pos:        position{line: 1509, col: 47, offset: 48493},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -23037,20 +23057,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1499, col: 59, offset: 48189},
+																	pos: position{line: 1509, col: 59, offset: 48505},
 																	expr: &seqExpr{
-																		pos: position{line: 1499, col: 60, offset: 48190},
+																		pos: position{line: 1509, col: 60, offset: 48506},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1499, col: 60, offset: 48190},
+																				pos:        position{line: 1509, col: 60, offset: 48506},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1499, col: 64, offset: 48194},
+																				pos: position{line: 1509, col: 64, offset: 48510},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1499, col: 64, offset: 48194},
+																					pos:        position{line: 1509, col: 64, offset: 48510},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23066,7 +23086,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1502, col: 5, offset: 48255},
+													pos: position{line: 1512, col: 5, offset: 48571},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23081,68 +23101,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1454, col: 1, offset: 46641},
+			pos:  position{line: 1464, col: 1, offset: 46957},
 			expr: &choiceExpr{
-				pos: position{line: 1456, col: 5, offset: 46677},
+				pos: position{line: 1466, col: 5, offset: 46993},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1456, col: 5, offset: 46677},
+						pos: position{line: 1466, col: 5, offset: 46993},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1456, col: 5, offset: 46677},
+							pos: position{line: 1466, col: 5, offset: 46993},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1456, col: 5, offset: 46677},
+									pos:        position{line: 1466, col: 5, offset: 46993},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1456, col: 17, offset: 46689},
+									pos:   position{line: 1466, col: 17, offset: 47005},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 13, offset: 91774},
+										pos: position{line: 2904, col: 13, offset: 92090},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 13, offset: 91774},
+											pos: position{line: 2904, col: 13, offset: 92090},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2894, col: 13, offset: 91774},
+													pos:   position{line: 2904, col: 13, offset: 92090},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2894, col: 20, offset: 91781},
+														pos: position{line: 2904, col: 20, offset: 92097},
 														expr: &actionExpr{
-															pos: position{line: 2906, col: 11, offset: 92151},
+															pos: position{line: 2916, col: 11, offset: 92467},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2906, col: 12, offset: 92152},
+																pos: position{line: 2916, col: 12, offset: 92468},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 12, offset: 92152},
+																		pos:        position{line: 2916, col: 12, offset: 92468},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 24, offset: 92164},
+																		pos:        position{line: 2916, col: 24, offset: 92480},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 37, offset: 92177},
+																		pos:        position{line: 2916, col: 37, offset: 92493},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 48, offset: 92188},
+																		pos:        position{line: 2916, col: 48, offset: 92504},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 59, offset: 92199},
+																		pos:        position{line: 2916, col: 59, offset: 92515},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23153,38 +23173,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 30, offset: 91791},
+													pos:   position{line: 2904, col: 30, offset: 92107},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23195,27 +23215,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23224,11 +23244,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -23623,10 +23643,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23643,10 +23663,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1456, col: 32, offset: 46704},
+									pos:   position{line: 1466, col: 32, offset: 47020},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1456, col: 44, offset: 46716},
+										pos:  position{line: 1466, col: 44, offset: 47032},
 										name: "InlineAttributes",
 									},
 								},
@@ -23654,63 +23674,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1461, col: 5, offset: 46842},
+						pos: position{line: 1471, col: 5, offset: 47158},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1461, col: 5, offset: 46842},
+							pos: position{line: 1471, col: 5, offset: 47158},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1461, col: 5, offset: 46842},
+									pos:        position{line: 1471, col: 5, offset: 47158},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 13, offset: 46850},
+									pos:   position{line: 1471, col: 13, offset: 47166},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2894, col: 13, offset: 91774},
+										pos: position{line: 2904, col: 13, offset: 92090},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2894, col: 13, offset: 91774},
+											pos: position{line: 2904, col: 13, offset: 92090},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2894, col: 13, offset: 91774},
+													pos:   position{line: 2904, col: 13, offset: 92090},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2894, col: 20, offset: 91781},
+														pos: position{line: 2904, col: 20, offset: 92097},
 														expr: &actionExpr{
-															pos: position{line: 2906, col: 11, offset: 92151},
+															pos: position{line: 2916, col: 11, offset: 92467},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2906, col: 12, offset: 92152},
+																pos: position{line: 2916, col: 12, offset: 92468},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 12, offset: 92152},
+																		pos:        position{line: 2916, col: 12, offset: 92468},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 24, offset: 92164},
+																		pos:        position{line: 2916, col: 24, offset: 92480},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 37, offset: 92177},
+																		pos:        position{line: 2916, col: 37, offset: 92493},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 48, offset: 92188},
+																		pos:        position{line: 2916, col: 48, offset: 92504},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2906, col: 59, offset: 92199},
+																		pos:        position{line: 2916, col: 59, offset: 92515},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23721,38 +23741,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2894, col: 30, offset: 91791},
+													pos:   position{line: 2904, col: 30, offset: 92107},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23763,27 +23783,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23792,11 +23812,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -24191,10 +24211,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24211,10 +24231,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1461, col: 28, offset: 46865},
+									pos:   position{line: 1471, col: 28, offset: 47181},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1461, col: 40, offset: 46877},
+										pos:  position{line: 1471, col: 40, offset: 47193},
 										name: "InlineAttributes",
 									},
 								},
@@ -24226,75 +24246,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1465, col: 1, offset: 46993},
+			pos:  position{line: 1475, col: 1, offset: 47309},
 			expr: &choiceExpr{
-				pos: position{line: 1468, col: 5, offset: 47155},
+				pos: position{line: 1478, col: 5, offset: 47471},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1468, col: 5, offset: 47155},
+						pos: position{line: 1478, col: 5, offset: 47471},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1468, col: 5, offset: 47155},
+							pos: position{line: 1478, col: 5, offset: 47471},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1468, col: 5, offset: 47155},
+									pos:        position{line: 1478, col: 5, offset: 47471},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1468, col: 9, offset: 47159},
+									pos:   position{line: 1478, col: 9, offset: 47475},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91901},
+										pos: position{line: 2908, col: 23, offset: 92217},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91901},
+											pos: position{line: 2908, col: 23, offset: 92217},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91901},
+													pos: position{line: 2908, col: 23, offset: 92217},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91902},
+														pos:        position{line: 2908, col: 24, offset: 92218},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91906},
+													pos:   position{line: 2908, col: 28, offset: 92222},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92151},
+														pos: position{line: 2916, col: 11, offset: 92467},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92152},
+															pos: position{line: 2916, col: 12, offset: 92468},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92152},
+																	pos:        position{line: 2916, col: 12, offset: 92468},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92164},
+																	pos:        position{line: 2916, col: 24, offset: 92480},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92177},
+																	pos:        position{line: 2916, col: 37, offset: 92493},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92188},
+																	pos:        position{line: 2916, col: 48, offset: 92504},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92199},
+																	pos:        position{line: 2916, col: 59, offset: 92515},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24304,38 +24324,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91922},
+													pos:   position{line: 2908, col: 44, offset: 92238},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24346,27 +24366,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24375,11 +24395,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -24774,10 +24794,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24794,12 +24814,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1468, col: 34, offset: 47184},
+									pos:   position{line: 1478, col: 34, offset: 47500},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1468, col: 45, offset: 47195},
+										pos: position{line: 1478, col: 45, offset: 47511},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1468, col: 46, offset: 47196},
+											pos:  position{line: 1478, col: 46, offset: 47512},
 											name: "InlineAttributes",
 										},
 									},
@@ -24808,64 +24828,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1473, col: 5, offset: 47323},
+						pos: position{line: 1483, col: 5, offset: 47639},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1473, col: 5, offset: 47323},
+							pos: position{line: 1483, col: 5, offset: 47639},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1473, col: 5, offset: 47323},
+									pos:   position{line: 1483, col: 5, offset: 47639},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 23, offset: 91901},
+										pos: position{line: 2908, col: 23, offset: 92217},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2898, col: 23, offset: 91901},
+											pos: position{line: 2908, col: 23, offset: 92217},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2898, col: 23, offset: 91901},
+													pos: position{line: 2908, col: 23, offset: 92217},
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 24, offset: 91902},
+														pos:        position{line: 2908, col: 24, offset: 92218},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 28, offset: 91906},
+													pos:   position{line: 2908, col: 28, offset: 92222},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2906, col: 11, offset: 92151},
+														pos: position{line: 2916, col: 11, offset: 92467},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2906, col: 12, offset: 92152},
+															pos: position{line: 2916, col: 12, offset: 92468},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2906, col: 12, offset: 92152},
+																	pos:        position{line: 2916, col: 12, offset: 92468},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 24, offset: 92164},
+																	pos:        position{line: 2916, col: 24, offset: 92480},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 37, offset: 92177},
+																	pos:        position{line: 2916, col: 37, offset: 92493},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 48, offset: 92188},
+																	pos:        position{line: 2916, col: 48, offset: 92504},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2906, col: 59, offset: 92199},
+																	pos:        position{line: 2916, col: 59, offset: 92515},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24875,38 +24895,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2898, col: 44, offset: 91922},
+													pos:   position{line: 2908, col: 44, offset: 92238},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2911, col: 5, offset: 92263},
+														pos: position{line: 2921, col: 5, offset: 92579},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2911, col: 5, offset: 92263},
+															pos:   position{line: 2921, col: 5, offset: 92579},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2911, col: 14, offset: 92272},
+																pos: position{line: 2921, col: 14, offset: 92588},
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 9, offset: 92282},
+																	pos: position{line: 2922, col: 9, offset: 92598},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 9, offset: 92282},
+																			pos: position{line: 2922, col: 9, offset: 92598},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2912, col: 9, offset: 92282},
+																				pos: position{line: 2922, col: 9, offset: 92598},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2912, col: 9, offset: 92282},
+																						pos: position{line: 2922, col: 9, offset: 92598},
 																						expr: &litMatcher{
-																							pos:        position{line: 2912, col: 10, offset: 92283},
+																							pos:        position{line: 2922, col: 10, offset: 92599},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2913, col: 9, offset: 92311},
+																						pos: position{line: 2923, col: 9, offset: 92627},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2913, col: 10, offset: 92312},
+																							pos:        position{line: 2923, col: 10, offset: 92628},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24917,27 +24937,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2916, col: 11, offset: 92524},
+																			pos: position{line: 2926, col: 11, offset: 92840},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2916, col: 11, offset: 92524},
+																					pos:        position{line: 2926, col: 11, offset: 92840},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2916, col: 19, offset: 92532},
+																					pos: position{line: 2926, col: 19, offset: 92848},
 																					expr: &seqExpr{
-																						pos: position{line: 2916, col: 21, offset: 92534},
+																						pos: position{line: 2926, col: 21, offset: 92850},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2916, col: 21, offset: 92534},
+																								pos: position{line: 2926, col: 21, offset: 92850},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24946,11 +24966,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2916, col: 28, offset: 92541},
+																								pos: position{line: 2926, col: 28, offset: 92857},
 																								expr: &notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -25345,10 +25365,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2919, col: 11, offset: 92661},
+																			pos: position{line: 2929, col: 11, offset: 92977},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2919, col: 11, offset: 92661},
+																				pos:        position{line: 2929, col: 11, offset: 92977},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25365,10 +25385,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1473, col: 30, offset: 47348},
+									pos:   position{line: 1483, col: 30, offset: 47664},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1473, col: 42, offset: 47360},
+										pos:  position{line: 1483, col: 42, offset: 47676},
 										name: "InlineAttributes",
 									},
 								},
@@ -25376,61 +25396,61 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1478, col: 5, offset: 47486},
+						pos: position{line: 1488, col: 5, offset: 47802},
 						run: (*parser).callonExternalLink238,
 						expr: &labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47486},
+							pos:   position{line: 1488, col: 5, offset: 47802},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 27, offset: 92036},
+								pos: position{line: 2912, col: 27, offset: 92352},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2902, col: 27, offset: 92036},
+									pos: position{line: 2912, col: 27, offset: 92352},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2902, col: 27, offset: 92036},
+											pos: position{line: 2912, col: 27, offset: 92352},
 											expr: &litMatcher{
-												pos:        position{line: 2902, col: 28, offset: 92037},
+												pos:        position{line: 2912, col: 28, offset: 92353},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 32, offset: 92041},
+											pos:   position{line: 2912, col: 32, offset: 92357},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2906, col: 11, offset: 92151},
+												pos: position{line: 2916, col: 11, offset: 92467},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2906, col: 12, offset: 92152},
+													pos: position{line: 2916, col: 12, offset: 92468},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2906, col: 12, offset: 92152},
+															pos:        position{line: 2916, col: 12, offset: 92468},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 24, offset: 92164},
+															pos:        position{line: 2916, col: 24, offset: 92480},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 37, offset: 92177},
+															pos:        position{line: 2916, col: 37, offset: 92493},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 48, offset: 92188},
+															pos:        position{line: 2916, col: 48, offset: 92504},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2906, col: 59, offset: 92199},
+															pos:        position{line: 2916, col: 59, offset: 92515},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25440,26 +25460,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2902, col: 48, offset: 92057},
+											pos:   position{line: 2912, col: 48, offset: 92373},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2927, col: 5, offset: 92947},
+												pos: position{line: 2937, col: 5, offset: 93263},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2927, col: 5, offset: 92947},
+													pos:   position{line: 2937, col: 5, offset: 93263},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2927, col: 14, offset: 92956},
+														pos: position{line: 2937, col: 14, offset: 93272},
 														expr: &choiceExpr{
-															pos: position{line: 2928, col: 9, offset: 92966},
+															pos: position{line: 2938, col: 9, offset: 93282},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2928, col: 9, offset: 92966},
+																	pos: position{line: 2938, col: 9, offset: 93282},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2928, col: 9, offset: 92966},
+																		pos: position{line: 2938, col: 9, offset: 93282},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2928, col: 10, offset: 92967},
+																			pos:        position{line: 2938, col: 10, offset: 93283},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25468,21 +25488,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2931, col: 11, offset: 93058},
+																	pos: position{line: 2941, col: 11, offset: 93374},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2931, col: 11, offset: 93058},
+																		pos: position{line: 2941, col: 11, offset: 93374},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 11, offset: 93058},
+																				pos:        position{line: 2941, col: 11, offset: 93374},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2931, col: 15, offset: 93062},
+																				pos: position{line: 2941, col: 15, offset: 93378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2931, col: 15, offset: 93062},
+																					pos:        position{line: 2941, col: 15, offset: 93378},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25490,7 +25510,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2931, col: 39, offset: 93086},
+																				pos:        position{line: 2941, col: 39, offset: 93402},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25499,25 +25519,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2934, col: 11, offset: 93151},
+																	pos: position{line: 2944, col: 11, offset: 93467},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2934, col: 11, offset: 93151},
+																		pos:        position{line: 2944, col: 11, offset: 93467},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2937, col: 11, offset: 93216},
+																	pos: position{line: 2947, col: 11, offset: 93532},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2937, col: 11, offset: 93216},
+																		pos: position{line: 2947, col: 11, offset: 93532},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2937, col: 11, offset: 93216},
+																				pos: position{line: 2947, col: 11, offset: 93532},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 11, offset: 93216},
+																					pos:        position{line: 2947, col: 11, offset: 93532},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25525,9 +25545,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2937, col: 21, offset: 93226},
+																				pos: position{line: 2947, col: 21, offset: 93542},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2937, col: 23, offset: 93228},
+																					pos:        position{line: 2947, col: 23, offset: 93544},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25923,10 +25943,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2942, col: 11, offset: 93369},
+																	pos: position{line: 2952, col: 11, offset: 93685},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2942, col: 11, offset: 93369},
+																		pos:        position{line: 2952, col: 11, offset: 93685},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25948,41 +25968,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1512, col: 1, offset: 48648},
+			pos:  position{line: 1522, col: 1, offset: 48964},
 			expr: &actionExpr{
-				pos: position{line: 1513, col: 5, offset: 48669},
+				pos: position{line: 1523, col: 5, offset: 48985},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1513, col: 5, offset: 48669},
+					pos: position{line: 1523, col: 5, offset: 48985},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1513, col: 5, offset: 48669},
+							pos:   position{line: 1523, col: 5, offset: 48985},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 5, offset: 48871},
+								pos: position{line: 1529, col: 5, offset: 49187},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1613, col: 5, offset: 51949},
+										pos: position{line: 1623, col: 5, offset: 52265},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1613, col: 5, offset: 51949},
+											pos: position{line: 1623, col: 5, offset: 52265},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1613, col: 5, offset: 51949},
+													pos:   position{line: 1623, col: 5, offset: 52265},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52157},
+														pos: position{line: 1630, col: 5, offset: 52473},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52157},
+															pos: position{line: 1630, col: 5, offset: 52473},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52157},
+																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25991,27 +26011,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52164},
+																	pos:   position{line: 1630, col: 12, offset: 52480},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52227},
+																		pos: position{line: 1632, col: 9, offset: 52543},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52227},
+																				pos: position{line: 1632, col: 9, offset: 52543},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52227},
+																					pos: position{line: 1632, col: 9, offset: 52543},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52227},
+																							pos:   position{line: 1632, col: 9, offset: 52543},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52234},
+																								pos: position{line: 1632, col: 16, offset: 52550},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52234},
+																									pos: position{line: 1632, col: 16, offset: 52550},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52235},
+																										pos:        position{line: 1632, col: 17, offset: 52551},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26020,22 +26040,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52335},
+																							pos: position{line: 1636, col: 9, offset: 52651},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53052},
+																				pos: position{line: 1655, col: 11, offset: 53368},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53052},
+																					pos: position{line: 1655, col: 11, offset: 53368},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53052},
+																							pos: position{line: 1655, col: 11, offset: 53368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53053},
+																								pos:        position{line: 1655, col: 12, offset: 53369},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26043,7 +26063,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53061},
+																							pos:        position{line: 1655, col: 20, offset: 53377},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26052,20 +26072,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53178},
+																				pos: position{line: 1657, col: 13, offset: 53494},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53178},
+																					pos: position{line: 1657, col: 13, offset: 53494},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53179},
+																							pos:        position{line: 1657, col: 14, offset: 53495},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53186},
+																							pos:        position{line: 1657, col: 21, offset: 53502},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26074,20 +26094,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53306},
+																				pos: position{line: 1659, col: 13, offset: 53622},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53306},
+																					pos: position{line: 1659, col: 13, offset: 53622},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53307},
+																							pos:        position{line: 1659, col: 14, offset: 53623},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53314},
+																							pos:        position{line: 1659, col: 21, offset: 53630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26096,15 +26116,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53434},
+																				pos: position{line: 1661, col: 13, offset: 53750},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53434},
+																					pos: position{line: 1661, col: 13, offset: 53750},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53434},
+																							pos: position{line: 1661, col: 13, offset: 53750},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53435},
+																								pos:        position{line: 1661, col: 14, offset: 53751},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26112,7 +26132,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53447},
+																							pos:        position{line: 1661, col: 26, offset: 53763},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26121,15 +26141,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53567},
+																				pos: position{line: 1663, col: 13, offset: 53883},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53567},
+																					pos: position{line: 1663, col: 13, offset: 53883},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53567},
+																							pos: position{line: 1663, col: 13, offset: 53883},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53568},
+																								pos:        position{line: 1663, col: 14, offset: 53884},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26137,7 +26157,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53580},
+																							pos:        position{line: 1663, col: 26, offset: 53896},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26149,12 +26169,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26167,26 +26187,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1614, col: 5, offset: 51988},
+													pos:   position{line: 1624, col: 5, offset: 52304},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26197,28 +26217,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26227,9 +26247,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -26242,27 +26262,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53846},
+										pos: position{line: 1673, col: 5, offset: 54162},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53846},
+											pos: position{line: 1673, col: 5, offset: 54162},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53846},
+													pos:   position{line: 1673, col: 5, offset: 54162},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54119},
+														pos: position{line: 1680, col: 5, offset: 54435},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54119},
+															pos: position{line: 1680, col: 5, offset: 54435},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54119},
+																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26271,24 +26291,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54131},
+																	pos:   position{line: 1681, col: 5, offset: 54447},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54147},
+																		pos: position{line: 1682, col: 9, offset: 54463},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54148},
+																			pos: position{line: 1682, col: 10, offset: 54464},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54149},
+																					pos:        position{line: 1682, col: 11, offset: 54465},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54156},
+																					pos: position{line: 1682, col: 18, offset: 54472},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54157},
+																						pos:        position{line: 1682, col: 19, offset: 54473},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26299,16 +26319,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54247},
+																	pos: position{line: 1685, col: 7, offset: 54563},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26321,56 +26341,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53887},
+													pos:   position{line: 1674, col: 5, offset: 54203},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1664, col: 16, offset: 53898},
+														pos: position{line: 1674, col: 16, offset: 54214},
 														expr: &actionExpr{
-															pos: position{line: 1685, col: 5, offset: 54512},
+															pos: position{line: 1695, col: 5, offset: 54828},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1685, col: 5, offset: 54512},
+																pos: position{line: 1695, col: 5, offset: 54828},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1685, col: 5, offset: 54512},
+																		pos: position{line: 1695, col: 5, offset: 54828},
 																		expr: &litMatcher{
-																			pos:        position{line: 1685, col: 6, offset: 54513},
+																			pos:        position{line: 1695, col: 6, offset: 54829},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1685, col: 10, offset: 54517},
+																		pos:   position{line: 1695, col: 10, offset: 54833},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1686, col: 7, offset: 54531},
+																			pos: position{line: 1696, col: 7, offset: 54847},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1686, col: 7, offset: 54531},
+																					pos: position{line: 1696, col: 7, offset: 54847},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1686, col: 7, offset: 54531},
+																						pos:        position{line: 1696, col: 7, offset: 54847},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1687, col: 7, offset: 54576},
+																					pos: position{line: 1697, col: 7, offset: 54892},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 7, offset: 54576},
+																						pos:        position{line: 1697, col: 7, offset: 54892},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1688, col: 7, offset: 54619},
+																					pos: position{line: 1698, col: 7, offset: 54935},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1688, col: 7, offset: 54619},
+																						pos:        position{line: 1698, col: 7, offset: 54935},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26380,12 +26400,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26399,26 +26419,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53937},
+													pos:   position{line: 1675, col: 5, offset: 54253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26429,28 +26449,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26459,9 +26479,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -26474,36 +26494,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1753, col: 5, offset: 56459},
+										pos: position{line: 1763, col: 5, offset: 56775},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 5, offset: 56459},
+											pos: position{line: 1763, col: 5, offset: 56775},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1753, col: 5, offset: 56459},
+													pos:   position{line: 1763, col: 5, offset: 56775},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56656},
+														pos: position{line: 1769, col: 5, offset: 56972},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56656},
+															pos: position{line: 1769, col: 5, offset: 56972},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56656},
+																	pos:        position{line: 1769, col: 5, offset: 56972},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56660},
+																	pos:   position{line: 1769, col: 9, offset: 56976},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56665},
+																		pos: position{line: 1769, col: 14, offset: 56981},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56665},
+																			pos: position{line: 1769, col: 14, offset: 56981},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56665},
+																				pos:        position{line: 1769, col: 14, offset: 56981},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26513,18 +26533,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56713},
+																	pos:        position{line: 1769, col: 62, offset: 57029},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26537,26 +26557,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1754, col: 5, offset: 56495},
+													pos:   position{line: 1764, col: 5, offset: 56811},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26567,28 +26587,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26597,9 +26617,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -26612,40 +26632,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1697, col: 5, offset: 54812},
+										pos: position{line: 1707, col: 5, offset: 55128},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1697, col: 5, offset: 54812},
+											pos: position{line: 1707, col: 5, offset: 55128},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1697, col: 5, offset: 54812},
+													pos:   position{line: 1707, col: 5, offset: 55128},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55138},
+														pos: position{line: 1715, col: 5, offset: 55454},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1705, col: 5, offset: 55138},
+															pos: position{line: 1715, col: 5, offset: 55454},
 															expr: &seqExpr{
-																pos: position{line: 1705, col: 6, offset: 55139},
+																pos: position{line: 1715, col: 6, offset: 55455},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1705, col: 6, offset: 55139},
+																		pos: position{line: 1715, col: 6, offset: 55455},
 																		expr: &actionExpr{
-																			pos: position{line: 1710, col: 5, offset: 55289},
+																			pos: position{line: 1720, col: 5, offset: 55605},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1710, col: 5, offset: 55289},
+																				pos: position{line: 1720, col: 5, offset: 55605},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1710, col: 5, offset: 55289},
+																						pos:   position{line: 1720, col: 5, offset: 55605},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1710, col: 16, offset: 55300},
+																							pos: position{line: 1720, col: 16, offset: 55616},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1710, col: 16, offset: 55300},
+																								pos: position{line: 1720, col: 16, offset: 55616},
 																								expr: &litMatcher{
-																									pos:        position{line: 1710, col: 17, offset: 55301},
+																									pos:        position{line: 1720, col: 17, offset: 55617},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26654,7 +26674,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1713, col: 5, offset: 55358},
+																						pos: position{line: 1723, col: 5, offset: 55674},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26662,30 +26682,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1705, col: 35, offset: 55168},
+																		pos: position{line: 1715, col: 35, offset: 55484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26694,16 +26714,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1705, col: 40, offset: 55173,
+																		line: 1715, col: 40, offset: 55489,
 																	},
 																},
 															},
@@ -26711,24 +26731,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1698, col: 5, offset: 54847},
+													pos:   position{line: 1708, col: 5, offset: 55163},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1710, col: 5, offset: 55289},
+														pos: position{line: 1720, col: 5, offset: 55605},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1710, col: 5, offset: 55289},
+															pos: position{line: 1720, col: 5, offset: 55605},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1710, col: 5, offset: 55289},
+																	pos:   position{line: 1720, col: 5, offset: 55605},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1710, col: 16, offset: 55300},
+																		pos: position{line: 1720, col: 16, offset: 55616},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1710, col: 16, offset: 55300},
+																			pos: position{line: 1720, col: 16, offset: 55616},
 																			expr: &litMatcher{
-																				pos:        position{line: 1710, col: 17, offset: 55301},
+																				pos:        position{line: 1720, col: 17, offset: 55617},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26737,7 +26757,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1713, col: 5, offset: 55358},
+																	pos: position{line: 1723, col: 5, offset: 55674},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26745,24 +26765,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1699, col: 5, offset: 54892},
+													pos:   position{line: 1709, col: 5, offset: 55208},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1721, col: 5, offset: 55607},
+														pos: position{line: 1731, col: 5, offset: 55923},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1723, col: 9, offset: 55673},
+																pos: position{line: 1733, col: 9, offset: 55989},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 9, offset: 55673},
+																	pos: position{line: 1733, col: 9, offset: 55989},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1723, col: 9, offset: 55673},
+																			pos: position{line: 1733, col: 9, offset: 55989},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26771,28 +26791,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26801,15 +26821,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1724, col: 9, offset: 55692},
+																			pos: position{line: 1734, col: 9, offset: 56008},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26817,18 +26837,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26837,28 +26857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26867,9 +26887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -26882,18 +26902,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 9, offset: 55821},
+																pos: position{line: 1740, col: 9, offset: 56137},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 9, offset: 55821},
+																	pos: position{line: 1740, col: 9, offset: 56137},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2967, col: 11, offset: 93915},
+																				pos: position{line: 2977, col: 11, offset: 94231},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2967, col: 11, offset: 93915},
+																					pos:        position{line: 2977, col: 11, offset: 94231},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26902,15 +26922,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 9, offset: 55894},
+																			pos:   position{line: 1741, col: 9, offset: 56210},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1731, col: 18, offset: 55903},
+																				pos: position{line: 1741, col: 18, offset: 56219},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1731, col: 18, offset: 55903},
+																					pos: position{line: 1741, col: 18, offset: 56219},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1731, col: 18, offset: 55903},
+																						pos:        position{line: 1741, col: 18, offset: 56219},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26920,28 +26940,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26950,9 +26970,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -26970,10 +26990,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1514, col: 5, offset: 48700},
+							pos:   position{line: 1524, col: 5, offset: 49016},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1514, col: 20, offset: 48715},
+								pos:  position{line: 1524, col: 20, offset: 49031},
 								name: "ExtraListElements",
 							},
 						},
@@ -26983,17 +27003,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1524, col: 1, offset: 48970},
+			pos:  position{line: 1534, col: 1, offset: 49286},
 			expr: &actionExpr{
-				pos: position{line: 1524, col: 22, offset: 48991},
+				pos: position{line: 1534, col: 22, offset: 49307},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1524, col: 22, offset: 48991},
+					pos:   position{line: 1534, col: 22, offset: 49307},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1524, col: 31, offset: 49000},
+						pos: position{line: 1534, col: 31, offset: 49316},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1524, col: 32, offset: 49001},
+							pos:  position{line: 1534, col: 32, offset: 49317},
 							name: "ExtraListElement",
 						},
 					},
@@ -27002,33 +27022,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1528, col: 1, offset: 49081},
+			pos:  position{line: 1538, col: 1, offset: 49397},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49220},
+				pos: position{line: 1539, col: 5, offset: 49536},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49220},
+					pos: position{line: 1539, col: 5, offset: 49536},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1530, col: 5, offset: 49232},
+							pos:   position{line: 1540, col: 5, offset: 49548},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1531, col: 9, offset: 49250},
+								pos: position{line: 1541, col: 9, offset: 49566},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1531, col: 13, offset: 49254},
+										pos: position{line: 1541, col: 13, offset: 49570},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 13, offset: 49254},
+											pos: position{line: 1541, col: 13, offset: 49570},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1531, col: 13, offset: 49254},
+													pos: position{line: 1541, col: 13, offset: 49570},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -27036,18 +27056,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2980, col: 11, offset: 94188},
+																	pos: position{line: 2990, col: 11, offset: 94504},
 																	expr: &anyMatcher{
-																		line: 2980, col: 13, offset: 94190,
+																		line: 2990, col: 13, offset: 94506,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27056,28 +27076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27086,9 +27106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -27098,33 +27118,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1532, col: 13, offset: 49278},
+													pos:   position{line: 1542, col: 13, offset: 49594},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1532, col: 22, offset: 49287},
+														pos: position{line: 1542, col: 22, offset: 49603},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1613, col: 5, offset: 51949},
+																pos: position{line: 1623, col: 5, offset: 52265},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1613, col: 5, offset: 51949},
+																	pos: position{line: 1623, col: 5, offset: 52265},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1613, col: 5, offset: 51949},
+																			pos:   position{line: 1623, col: 5, offset: 52265},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1620, col: 5, offset: 52157},
+																				pos: position{line: 1630, col: 5, offset: 52473},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 5, offset: 52157},
+																					pos: position{line: 1630, col: 5, offset: 52473},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1620, col: 5, offset: 52157},
+																							pos: position{line: 1630, col: 5, offset: 52473},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27133,27 +27153,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1620, col: 12, offset: 52164},
+																							pos:   position{line: 1630, col: 12, offset: 52480},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1622, col: 9, offset: 52227},
+																								pos: position{line: 1632, col: 9, offset: 52543},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1622, col: 9, offset: 52227},
+																										pos: position{line: 1632, col: 9, offset: 52543},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 9, offset: 52227},
+																											pos: position{line: 1632, col: 9, offset: 52543},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1622, col: 9, offset: 52227},
+																													pos:   position{line: 1632, col: 9, offset: 52543},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1622, col: 16, offset: 52234},
+																														pos: position{line: 1632, col: 16, offset: 52550},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1622, col: 16, offset: 52234},
+																															pos: position{line: 1632, col: 16, offset: 52550},
 																															expr: &litMatcher{
-																																pos:        position{line: 1622, col: 17, offset: 52235},
+																																pos:        position{line: 1632, col: 17, offset: 52551},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27162,22 +27182,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1626, col: 9, offset: 52335},
+																													pos: position{line: 1636, col: 9, offset: 52651},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 11, offset: 53052},
+																										pos: position{line: 1655, col: 11, offset: 53368},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 11, offset: 53052},
+																											pos: position{line: 1655, col: 11, offset: 53368},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1645, col: 11, offset: 53052},
+																													pos: position{line: 1655, col: 11, offset: 53368},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1645, col: 12, offset: 53053},
+																														pos:        position{line: 1655, col: 12, offset: 53369},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27185,7 +27205,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 20, offset: 53061},
+																													pos:        position{line: 1655, col: 20, offset: 53377},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27194,20 +27214,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53178},
+																										pos: position{line: 1657, col: 13, offset: 53494},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53178},
+																											pos: position{line: 1657, col: 13, offset: 53494},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1647, col: 14, offset: 53179},
+																													pos:        position{line: 1657, col: 14, offset: 53495},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 21, offset: 53186},
+																													pos:        position{line: 1657, col: 21, offset: 53502},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27216,20 +27236,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53306},
+																										pos: position{line: 1659, col: 13, offset: 53622},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53306},
+																											pos: position{line: 1659, col: 13, offset: 53622},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1649, col: 14, offset: 53307},
+																													pos:        position{line: 1659, col: 14, offset: 53623},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 21, offset: 53314},
+																													pos:        position{line: 1659, col: 21, offset: 53630},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27238,15 +27258,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1651, col: 13, offset: 53434},
+																										pos: position{line: 1661, col: 13, offset: 53750},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1651, col: 13, offset: 53434},
+																											pos: position{line: 1661, col: 13, offset: 53750},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1651, col: 13, offset: 53434},
+																													pos: position{line: 1661, col: 13, offset: 53750},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1651, col: 14, offset: 53435},
+																														pos:        position{line: 1661, col: 14, offset: 53751},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27254,7 +27274,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1651, col: 26, offset: 53447},
+																													pos:        position{line: 1661, col: 26, offset: 53763},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27263,15 +27283,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1653, col: 13, offset: 53567},
+																										pos: position{line: 1663, col: 13, offset: 53883},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1653, col: 13, offset: 53567},
+																											pos: position{line: 1663, col: 13, offset: 53883},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1653, col: 13, offset: 53567},
+																													pos: position{line: 1663, col: 13, offset: 53883},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1653, col: 14, offset: 53568},
+																														pos:        position{line: 1663, col: 14, offset: 53884},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27279,7 +27299,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1653, col: 26, offset: 53580},
+																													pos:        position{line: 1663, col: 26, offset: 53896},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27291,12 +27311,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27309,26 +27329,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1614, col: 5, offset: 51988},
+																			pos:   position{line: 1624, col: 5, offset: 52304},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27339,28 +27359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27369,9 +27389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -27384,27 +27404,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53846},
+																pos: position{line: 1673, col: 5, offset: 54162},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53846},
+																	pos: position{line: 1673, col: 5, offset: 54162},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53846},
+																			pos:   position{line: 1673, col: 5, offset: 54162},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54119},
+																				pos: position{line: 1680, col: 5, offset: 54435},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1670, col: 5, offset: 54119},
+																					pos: position{line: 1680, col: 5, offset: 54435},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54119},
+																							pos: position{line: 1680, col: 5, offset: 54435},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27413,24 +27433,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1671, col: 5, offset: 54131},
+																							pos:   position{line: 1681, col: 5, offset: 54447},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 9, offset: 54147},
+																								pos: position{line: 1682, col: 9, offset: 54463},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1672, col: 10, offset: 54148},
+																									pos: position{line: 1682, col: 10, offset: 54464},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1672, col: 11, offset: 54149},
+																											pos:        position{line: 1682, col: 11, offset: 54465},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1672, col: 18, offset: 54156},
+																											pos: position{line: 1682, col: 18, offset: 54472},
 																											expr: &litMatcher{
-																												pos:        position{line: 1672, col: 19, offset: 54157},
+																												pos:        position{line: 1682, col: 19, offset: 54473},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27441,16 +27461,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 7, offset: 54247},
+																							pos: position{line: 1685, col: 7, offset: 54563},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27463,56 +27483,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53887},
+																			pos:   position{line: 1674, col: 5, offset: 54203},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1664, col: 16, offset: 53898},
+																				pos: position{line: 1674, col: 16, offset: 54214},
 																				expr: &actionExpr{
-																					pos: position{line: 1685, col: 5, offset: 54512},
+																					pos: position{line: 1695, col: 5, offset: 54828},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1685, col: 5, offset: 54512},
+																						pos: position{line: 1695, col: 5, offset: 54828},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1685, col: 5, offset: 54512},
+																								pos: position{line: 1695, col: 5, offset: 54828},
 																								expr: &litMatcher{
-																									pos:        position{line: 1685, col: 6, offset: 54513},
+																									pos:        position{line: 1695, col: 6, offset: 54829},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1685, col: 10, offset: 54517},
+																								pos:   position{line: 1695, col: 10, offset: 54833},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1686, col: 7, offset: 54531},
+																									pos: position{line: 1696, col: 7, offset: 54847},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1686, col: 7, offset: 54531},
+																											pos: position{line: 1696, col: 7, offset: 54847},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1686, col: 7, offset: 54531},
+																												pos:        position{line: 1696, col: 7, offset: 54847},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1687, col: 7, offset: 54576},
+																											pos: position{line: 1697, col: 7, offset: 54892},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1687, col: 7, offset: 54576},
+																												pos:        position{line: 1697, col: 7, offset: 54892},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1688, col: 7, offset: 54619},
+																											pos: position{line: 1698, col: 7, offset: 54935},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1688, col: 7, offset: 54619},
+																												pos:        position{line: 1698, col: 7, offset: 54935},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27522,12 +27542,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27541,26 +27561,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53937},
+																			pos:   position{line: 1675, col: 5, offset: 54253},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27571,28 +27591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27601,9 +27621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -27616,36 +27636,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1753, col: 5, offset: 56459},
+																pos: position{line: 1763, col: 5, offset: 56775},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1753, col: 5, offset: 56459},
+																	pos: position{line: 1763, col: 5, offset: 56775},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1753, col: 5, offset: 56459},
+																			pos:   position{line: 1763, col: 5, offset: 56775},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1759, col: 5, offset: 56656},
+																				pos: position{line: 1769, col: 5, offset: 56972},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1759, col: 5, offset: 56656},
+																					pos: position{line: 1769, col: 5, offset: 56972},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 5, offset: 56656},
+																							pos:        position{line: 1769, col: 5, offset: 56972},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1759, col: 9, offset: 56660},
+																							pos:   position{line: 1769, col: 9, offset: 56976},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1759, col: 14, offset: 56665},
+																								pos: position{line: 1769, col: 14, offset: 56981},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1759, col: 14, offset: 56665},
+																									pos: position{line: 1769, col: 14, offset: 56981},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1759, col: 14, offset: 56665},
+																										pos:        position{line: 1769, col: 14, offset: 56981},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27655,18 +27675,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 62, offset: 56713},
+																							pos:        position{line: 1769, col: 62, offset: 57029},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27679,26 +27699,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1754, col: 5, offset: 56495},
+																			pos:   position{line: 1764, col: 5, offset: 56811},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27709,28 +27729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27739,9 +27759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -27754,40 +27774,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 5, offset: 54812},
+																pos: position{line: 1707, col: 5, offset: 55128},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 5, offset: 54812},
+																	pos: position{line: 1707, col: 5, offset: 55128},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1697, col: 5, offset: 54812},
+																			pos:   position{line: 1707, col: 5, offset: 55128},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55138},
+																				pos: position{line: 1715, col: 5, offset: 55454},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55138},
+																					pos: position{line: 1715, col: 5, offset: 55454},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55139},
+																						pos: position{line: 1715, col: 6, offset: 55455},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55139},
+																								pos: position{line: 1715, col: 6, offset: 55455},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55289},
+																									pos: position{line: 1720, col: 5, offset: 55605},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55289},
+																										pos: position{line: 1720, col: 5, offset: 55605},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55289},
+																												pos:   position{line: 1720, col: 5, offset: 55605},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55300},
+																													pos: position{line: 1720, col: 16, offset: 55616},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55300},
+																														pos: position{line: 1720, col: 16, offset: 55616},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55301},
+																															pos:        position{line: 1720, col: 17, offset: 55617},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27796,7 +27816,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55358},
+																												pos: position{line: 1723, col: 5, offset: 55674},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27804,30 +27824,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55168},
+																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27836,16 +27856,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55173,
+																								line: 1715, col: 40, offset: 55489,
 																							},
 																						},
 																					},
@@ -27853,24 +27873,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 5, offset: 54847},
+																			pos:   position{line: 1708, col: 5, offset: 55163},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55289},
+																				pos: position{line: 1720, col: 5, offset: 55605},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55289},
+																					pos: position{line: 1720, col: 5, offset: 55605},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55289},
+																							pos:   position{line: 1720, col: 5, offset: 55605},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55300},
+																								pos: position{line: 1720, col: 16, offset: 55616},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55300},
+																									pos: position{line: 1720, col: 16, offset: 55616},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55301},
+																										pos:        position{line: 1720, col: 17, offset: 55617},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27879,7 +27899,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55358},
+																							pos: position{line: 1723, col: 5, offset: 55674},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27887,24 +27907,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 54892},
+																			pos:   position{line: 1709, col: 5, offset: 55208},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1721, col: 5, offset: 55607},
+																				pos: position{line: 1731, col: 5, offset: 55923},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1723, col: 9, offset: 55673},
+																						pos: position{line: 1733, col: 9, offset: 55989},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1723, col: 9, offset: 55673},
+																							pos: position{line: 1733, col: 9, offset: 55989},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1723, col: 9, offset: 55673},
+																									pos: position{line: 1733, col: 9, offset: 55989},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27913,28 +27933,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27943,15 +27963,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1724, col: 9, offset: 55692},
+																									pos: position{line: 1734, col: 9, offset: 56008},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27959,18 +27979,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2980, col: 11, offset: 94188},
+																													pos: position{line: 2990, col: 11, offset: 94504},
 																													expr: &anyMatcher{
-																														line: 2980, col: 13, offset: 94190,
+																														line: 2990, col: 13, offset: 94506,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27979,28 +27999,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28009,9 +28029,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -28024,18 +28044,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1730, col: 9, offset: 55821},
+																						pos: position{line: 1740, col: 9, offset: 56137},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1730, col: 9, offset: 55821},
+																							pos: position{line: 1740, col: 9, offset: 56137},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93915},
+																										pos: position{line: 2977, col: 11, offset: 94231},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93915},
+																											pos:        position{line: 2977, col: 11, offset: 94231},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28044,15 +28064,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1731, col: 9, offset: 55894},
+																									pos:   position{line: 1741, col: 9, offset: 56210},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1731, col: 18, offset: 55903},
+																										pos: position{line: 1741, col: 18, offset: 56219},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1731, col: 18, offset: 55903},
+																											pos: position{line: 1741, col: 18, offset: 56219},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1731, col: 18, offset: 55903},
+																												pos:        position{line: 1741, col: 18, offset: 56219},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28062,28 +28082,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28092,9 +28112,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -28115,50 +28135,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1535, col: 13, offset: 49438},
+										pos: position{line: 1545, col: 13, offset: 49754},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1535, col: 13, offset: 49438},
+											pos: position{line: 1545, col: 13, offset: 49754},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1535, col: 13, offset: 49438},
+													pos:   position{line: 1545, col: 13, offset: 49754},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1535, col: 24, offset: 49449},
+														pos: position{line: 1545, col: 24, offset: 49765},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1535, col: 25, offset: 49450},
+															pos:  position{line: 1545, col: 25, offset: 49766},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1536, col: 13, offset: 49481},
+													pos:   position{line: 1546, col: 13, offset: 49797},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1536, col: 22, offset: 49490},
+														pos: position{line: 1546, col: 22, offset: 49806},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1613, col: 5, offset: 51949},
+																pos: position{line: 1623, col: 5, offset: 52265},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1613, col: 5, offset: 51949},
+																	pos: position{line: 1623, col: 5, offset: 52265},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1613, col: 5, offset: 51949},
+																			pos:   position{line: 1623, col: 5, offset: 52265},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1620, col: 5, offset: 52157},
+																				pos: position{line: 1630, col: 5, offset: 52473},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 5, offset: 52157},
+																					pos: position{line: 1630, col: 5, offset: 52473},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1620, col: 5, offset: 52157},
+																							pos: position{line: 1630, col: 5, offset: 52473},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28167,27 +28187,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1620, col: 12, offset: 52164},
+																							pos:   position{line: 1630, col: 12, offset: 52480},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1622, col: 9, offset: 52227},
+																								pos: position{line: 1632, col: 9, offset: 52543},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1622, col: 9, offset: 52227},
+																										pos: position{line: 1632, col: 9, offset: 52543},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 9, offset: 52227},
+																											pos: position{line: 1632, col: 9, offset: 52543},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1622, col: 9, offset: 52227},
+																													pos:   position{line: 1632, col: 9, offset: 52543},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1622, col: 16, offset: 52234},
+																														pos: position{line: 1632, col: 16, offset: 52550},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1622, col: 16, offset: 52234},
+																															pos: position{line: 1632, col: 16, offset: 52550},
 																															expr: &litMatcher{
-																																pos:        position{line: 1622, col: 17, offset: 52235},
+																																pos:        position{line: 1632, col: 17, offset: 52551},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28196,22 +28216,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1626, col: 9, offset: 52335},
+																													pos: position{line: 1636, col: 9, offset: 52651},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1645, col: 11, offset: 53052},
+																										pos: position{line: 1655, col: 11, offset: 53368},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1645, col: 11, offset: 53052},
+																											pos: position{line: 1655, col: 11, offset: 53368},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1645, col: 11, offset: 53052},
+																													pos: position{line: 1655, col: 11, offset: 53368},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1645, col: 12, offset: 53053},
+																														pos:        position{line: 1655, col: 12, offset: 53369},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28219,7 +28239,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1645, col: 20, offset: 53061},
+																													pos:        position{line: 1655, col: 20, offset: 53377},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28228,20 +28248,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1647, col: 13, offset: 53178},
+																										pos: position{line: 1657, col: 13, offset: 53494},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1647, col: 13, offset: 53178},
+																											pos: position{line: 1657, col: 13, offset: 53494},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1647, col: 14, offset: 53179},
+																													pos:        position{line: 1657, col: 14, offset: 53495},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1647, col: 21, offset: 53186},
+																													pos:        position{line: 1657, col: 21, offset: 53502},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28250,20 +28270,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1649, col: 13, offset: 53306},
+																										pos: position{line: 1659, col: 13, offset: 53622},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1649, col: 13, offset: 53306},
+																											pos: position{line: 1659, col: 13, offset: 53622},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1649, col: 14, offset: 53307},
+																													pos:        position{line: 1659, col: 14, offset: 53623},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1649, col: 21, offset: 53314},
+																													pos:        position{line: 1659, col: 21, offset: 53630},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28272,15 +28292,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1651, col: 13, offset: 53434},
+																										pos: position{line: 1661, col: 13, offset: 53750},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1651, col: 13, offset: 53434},
+																											pos: position{line: 1661, col: 13, offset: 53750},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1651, col: 13, offset: 53434},
+																													pos: position{line: 1661, col: 13, offset: 53750},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1651, col: 14, offset: 53435},
+																														pos:        position{line: 1661, col: 14, offset: 53751},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28288,7 +28308,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1651, col: 26, offset: 53447},
+																													pos:        position{line: 1661, col: 26, offset: 53763},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28297,15 +28317,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1653, col: 13, offset: 53567},
+																										pos: position{line: 1663, col: 13, offset: 53883},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1653, col: 13, offset: 53567},
+																											pos: position{line: 1663, col: 13, offset: 53883},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1653, col: 13, offset: 53567},
+																													pos: position{line: 1663, col: 13, offset: 53883},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1653, col: 14, offset: 53568},
+																														pos:        position{line: 1663, col: 14, offset: 53884},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28313,7 +28333,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1653, col: 26, offset: 53580},
+																													pos:        position{line: 1663, col: 26, offset: 53896},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28325,12 +28345,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28343,26 +28363,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1614, col: 5, offset: 51988},
+																			pos:   position{line: 1624, col: 5, offset: 52304},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28373,28 +28393,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28423,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -28418,27 +28438,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1663, col: 5, offset: 53846},
+																pos: position{line: 1673, col: 5, offset: 54162},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1663, col: 5, offset: 53846},
+																	pos: position{line: 1673, col: 5, offset: 54162},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53846},
+																			pos:   position{line: 1673, col: 5, offset: 54162},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54119},
+																				pos: position{line: 1680, col: 5, offset: 54435},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1670, col: 5, offset: 54119},
+																					pos: position{line: 1680, col: 5, offset: 54435},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54119},
+																							pos: position{line: 1680, col: 5, offset: 54435},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28447,24 +28467,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1671, col: 5, offset: 54131},
+																							pos:   position{line: 1681, col: 5, offset: 54447},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1672, col: 9, offset: 54147},
+																								pos: position{line: 1682, col: 9, offset: 54463},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1672, col: 10, offset: 54148},
+																									pos: position{line: 1682, col: 10, offset: 54464},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1672, col: 11, offset: 54149},
+																											pos:        position{line: 1682, col: 11, offset: 54465},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1672, col: 18, offset: 54156},
+																											pos: position{line: 1682, col: 18, offset: 54472},
 																											expr: &litMatcher{
-																												pos:        position{line: 1672, col: 19, offset: 54157},
+																												pos:        position{line: 1682, col: 19, offset: 54473},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28475,16 +28495,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1675, col: 7, offset: 54247},
+																							pos: position{line: 1685, col: 7, offset: 54563},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28497,56 +28517,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53887},
+																			pos:   position{line: 1674, col: 5, offset: 54203},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1664, col: 16, offset: 53898},
+																				pos: position{line: 1674, col: 16, offset: 54214},
 																				expr: &actionExpr{
-																					pos: position{line: 1685, col: 5, offset: 54512},
+																					pos: position{line: 1695, col: 5, offset: 54828},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1685, col: 5, offset: 54512},
+																						pos: position{line: 1695, col: 5, offset: 54828},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1685, col: 5, offset: 54512},
+																								pos: position{line: 1695, col: 5, offset: 54828},
 																								expr: &litMatcher{
-																									pos:        position{line: 1685, col: 6, offset: 54513},
+																									pos:        position{line: 1695, col: 6, offset: 54829},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1685, col: 10, offset: 54517},
+																								pos:   position{line: 1695, col: 10, offset: 54833},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1686, col: 7, offset: 54531},
+																									pos: position{line: 1696, col: 7, offset: 54847},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1686, col: 7, offset: 54531},
+																											pos: position{line: 1696, col: 7, offset: 54847},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1686, col: 7, offset: 54531},
+																												pos:        position{line: 1696, col: 7, offset: 54847},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1687, col: 7, offset: 54576},
+																											pos: position{line: 1697, col: 7, offset: 54892},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1687, col: 7, offset: 54576},
+																												pos:        position{line: 1697, col: 7, offset: 54892},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1688, col: 7, offset: 54619},
+																											pos: position{line: 1698, col: 7, offset: 54935},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1688, col: 7, offset: 54619},
+																												pos:        position{line: 1698, col: 7, offset: 54935},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28556,12 +28576,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28575,26 +28595,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53937},
+																			pos:   position{line: 1675, col: 5, offset: 54253},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28605,28 +28625,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28635,9 +28655,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -28650,36 +28670,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1753, col: 5, offset: 56459},
+																pos: position{line: 1763, col: 5, offset: 56775},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1753, col: 5, offset: 56459},
+																	pos: position{line: 1763, col: 5, offset: 56775},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1753, col: 5, offset: 56459},
+																			pos:   position{line: 1763, col: 5, offset: 56775},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1759, col: 5, offset: 56656},
+																				pos: position{line: 1769, col: 5, offset: 56972},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1759, col: 5, offset: 56656},
+																					pos: position{line: 1769, col: 5, offset: 56972},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 5, offset: 56656},
+																							pos:        position{line: 1769, col: 5, offset: 56972},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1759, col: 9, offset: 56660},
+																							pos:   position{line: 1769, col: 9, offset: 56976},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1759, col: 14, offset: 56665},
+																								pos: position{line: 1769, col: 14, offset: 56981},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1759, col: 14, offset: 56665},
+																									pos: position{line: 1769, col: 14, offset: 56981},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1759, col: 14, offset: 56665},
+																										pos:        position{line: 1769, col: 14, offset: 56981},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28689,18 +28709,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1759, col: 62, offset: 56713},
+																							pos:        position{line: 1769, col: 62, offset: 57029},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,26 +28733,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1754, col: 5, offset: 56495},
+																			pos:   position{line: 1764, col: 5, offset: 56811},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1560, col: 5, offset: 50351},
+																				pos: position{line: 1570, col: 5, offset: 50667},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1560, col: 5, offset: 50351},
+																					pos: position{line: 1570, col: 5, offset: 50667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1560, col: 5, offset: 50351},
+																							pos:   position{line: 1570, col: 5, offset: 50667},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1560, col: 14, offset: 50360},
+																								pos: position{line: 1570, col: 14, offset: 50676},
 																								expr: &actionExpr{
-																									pos: position{line: 1560, col: 15, offset: 50361},
+																									pos: position{line: 1570, col: 15, offset: 50677},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1560, col: 15, offset: 50361},
+																										pos: position{line: 1570, col: 15, offset: 50677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1560, col: 15, offset: 50361},
+																											pos:        position{line: 1570, col: 15, offset: 50677},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28743,28 +28763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -28788,40 +28808,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1697, col: 5, offset: 54812},
+																pos: position{line: 1707, col: 5, offset: 55128},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1697, col: 5, offset: 54812},
+																	pos: position{line: 1707, col: 5, offset: 55128},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1697, col: 5, offset: 54812},
+																			pos:   position{line: 1707, col: 5, offset: 55128},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55138},
+																				pos: position{line: 1715, col: 5, offset: 55454},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55138},
+																					pos: position{line: 1715, col: 5, offset: 55454},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55139},
+																						pos: position{line: 1715, col: 6, offset: 55455},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55139},
+																								pos: position{line: 1715, col: 6, offset: 55455},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55289},
+																									pos: position{line: 1720, col: 5, offset: 55605},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55289},
+																										pos: position{line: 1720, col: 5, offset: 55605},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55289},
+																												pos:   position{line: 1720, col: 5, offset: 55605},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55300},
+																													pos: position{line: 1720, col: 16, offset: 55616},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55300},
+																														pos: position{line: 1720, col: 16, offset: 55616},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55301},
+																															pos:        position{line: 1720, col: 17, offset: 55617},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28830,7 +28850,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55358},
+																												pos: position{line: 1723, col: 5, offset: 55674},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28838,30 +28858,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55168},
+																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28870,16 +28890,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55173,
+																								line: 1715, col: 40, offset: 55489,
 																							},
 																						},
 																					},
@@ -28887,24 +28907,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1698, col: 5, offset: 54847},
+																			pos:   position{line: 1708, col: 5, offset: 55163},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55289},
+																				pos: position{line: 1720, col: 5, offset: 55605},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55289},
+																					pos: position{line: 1720, col: 5, offset: 55605},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55289},
+																							pos:   position{line: 1720, col: 5, offset: 55605},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55300},
+																								pos: position{line: 1720, col: 16, offset: 55616},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55300},
+																									pos: position{line: 1720, col: 16, offset: 55616},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55301},
+																										pos:        position{line: 1720, col: 17, offset: 55617},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28913,7 +28933,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55358},
+																							pos: position{line: 1723, col: 5, offset: 55674},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28921,24 +28941,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 5, offset: 54892},
+																			pos:   position{line: 1709, col: 5, offset: 55208},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1721, col: 5, offset: 55607},
+																				pos: position{line: 1731, col: 5, offset: 55923},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1723, col: 9, offset: 55673},
+																						pos: position{line: 1733, col: 9, offset: 55989},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1723, col: 9, offset: 55673},
+																							pos: position{line: 1733, col: 9, offset: 55989},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1723, col: 9, offset: 55673},
+																									pos: position{line: 1733, col: 9, offset: 55989},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28947,28 +28967,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28977,15 +28997,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1724, col: 9, offset: 55692},
+																									pos: position{line: 1734, col: 9, offset: 56008},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -28993,18 +29013,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2980, col: 11, offset: 94188},
+																													pos: position{line: 2990, col: 11, offset: 94504},
 																													expr: &anyMatcher{
-																														line: 2980, col: 13, offset: 94190,
+																														line: 2990, col: 13, offset: 94506,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29013,28 +29033,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29043,9 +29063,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -29058,18 +29078,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1730, col: 9, offset: 55821},
+																						pos: position{line: 1740, col: 9, offset: 56137},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1730, col: 9, offset: 55821},
+																							pos: position{line: 1740, col: 9, offset: 56137},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93915},
+																										pos: position{line: 2977, col: 11, offset: 94231},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93915},
+																											pos:        position{line: 2977, col: 11, offset: 94231},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29078,15 +29098,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1731, col: 9, offset: 55894},
+																									pos:   position{line: 1741, col: 9, offset: 56210},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1731, col: 18, offset: 55903},
+																										pos: position{line: 1741, col: 18, offset: 56219},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1731, col: 18, offset: 55903},
+																											pos: position{line: 1741, col: 18, offset: 56219},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1731, col: 18, offset: 55903},
+																												pos:        position{line: 1741, col: 18, offset: 56219},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29096,28 +29116,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29126,9 +29146,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -29149,40 +29169,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1539, col: 11, offset: 49675},
+										pos:  position{line: 1549, col: 11, offset: 49991},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81497},
+										pos: position{line: 2540, col: 22, offset: 81813},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81718},
+													pos:        position{line: 2545, col: 31, offset: 82034},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81723},
+													pos: position{line: 2545, col: 36, offset: 82039},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81724},
+														pos:        position{line: 2545, col: 37, offset: 82040},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81524},
+													pos:   position{line: 2540, col: 49, offset: 81840},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91541},
+														pos: position{line: 2892, col: 13, offset: 91857},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91541},
+																pos:        position{line: 2892, col: 13, offset: 91857},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29192,28 +29212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29222,9 +29242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -29233,13 +29253,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1547, col: 5, offset: 49939},
+										pos: position{line: 1557, col: 5, offset: 50255},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1547, col: 5, offset: 49939},
+											pos: position{line: 1557, col: 5, offset: 50255},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1547, col: 5, offset: 49939},
+													pos: position{line: 1557, col: 5, offset: 50255},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -29247,18 +29267,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2980, col: 11, offset: 94188},
+																	pos: position{line: 2990, col: 11, offset: 94504},
 																	expr: &anyMatcher{
-																		line: 2980, col: 13, offset: 94190,
+																		line: 2990, col: 13, offset: 94506,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29267,28 +29287,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29297,9 +29317,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -29309,23 +29329,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1548, col: 5, offset: 49954},
+													pos: position{line: 1558, col: 5, offset: 50270},
 													expr: &seqExpr{
-														pos: position{line: 1578, col: 27, offset: 50938},
+														pos: position{line: 1588, col: 27, offset: 51254},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1578, col: 27, offset: 50938},
+																pos:        position{line: 1588, col: 27, offset: 51254},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1578, col: 31, offset: 50942},
+																pos: position{line: 1588, col: 31, offset: 51258},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29334,25 +29354,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29364,20 +29384,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1549, col: 5, offset: 49982},
+													pos: position{line: 1559, col: 5, offset: 50298},
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52157},
+														pos: position{line: 1630, col: 5, offset: 52473},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52157},
+															pos: position{line: 1630, col: 5, offset: 52473},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52157},
+																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29386,27 +29406,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52164},
+																	pos:   position{line: 1630, col: 12, offset: 52480},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52227},
+																		pos: position{line: 1632, col: 9, offset: 52543},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52227},
+																				pos: position{line: 1632, col: 9, offset: 52543},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52227},
+																					pos: position{line: 1632, col: 9, offset: 52543},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52227},
+																							pos:   position{line: 1632, col: 9, offset: 52543},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52234},
+																								pos: position{line: 1632, col: 16, offset: 52550},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52234},
+																									pos: position{line: 1632, col: 16, offset: 52550},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52235},
+																										pos:        position{line: 1632, col: 17, offset: 52551},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29415,22 +29435,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52335},
+																							pos: position{line: 1636, col: 9, offset: 52651},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53052},
+																				pos: position{line: 1655, col: 11, offset: 53368},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53052},
+																					pos: position{line: 1655, col: 11, offset: 53368},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53052},
+																							pos: position{line: 1655, col: 11, offset: 53368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53053},
+																								pos:        position{line: 1655, col: 12, offset: 53369},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29438,7 +29458,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53061},
+																							pos:        position{line: 1655, col: 20, offset: 53377},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29447,20 +29467,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53178},
+																				pos: position{line: 1657, col: 13, offset: 53494},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53178},
+																					pos: position{line: 1657, col: 13, offset: 53494},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53179},
+																							pos:        position{line: 1657, col: 14, offset: 53495},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53186},
+																							pos:        position{line: 1657, col: 21, offset: 53502},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29469,20 +29489,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53306},
+																				pos: position{line: 1659, col: 13, offset: 53622},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53306},
+																					pos: position{line: 1659, col: 13, offset: 53622},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53307},
+																							pos:        position{line: 1659, col: 14, offset: 53623},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53314},
+																							pos:        position{line: 1659, col: 21, offset: 53630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29491,15 +29511,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53434},
+																				pos: position{line: 1661, col: 13, offset: 53750},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53434},
+																					pos: position{line: 1661, col: 13, offset: 53750},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53434},
+																							pos: position{line: 1661, col: 13, offset: 53750},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53435},
+																								pos:        position{line: 1661, col: 14, offset: 53751},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29507,7 +29527,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53447},
+																							pos:        position{line: 1661, col: 26, offset: 53763},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29516,15 +29536,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53567},
+																				pos: position{line: 1663, col: 13, offset: 53883},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53567},
+																					pos: position{line: 1663, col: 13, offset: 53883},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53567},
+																							pos: position{line: 1663, col: 13, offset: 53883},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53568},
+																								pos:        position{line: 1663, col: 14, offset: 53884},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29532,7 +29552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53580},
+																							pos:        position{line: 1663, col: 26, offset: 53896},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29544,12 +29564,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29562,20 +29582,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1550, col: 5, offset: 50012},
+													pos: position{line: 1560, col: 5, offset: 50328},
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54119},
+														pos: position{line: 1680, col: 5, offset: 54435},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54119},
+															pos: position{line: 1680, col: 5, offset: 54435},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54119},
+																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29584,24 +29604,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54131},
+																	pos:   position{line: 1681, col: 5, offset: 54447},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54147},
+																		pos: position{line: 1682, col: 9, offset: 54463},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54148},
+																			pos: position{line: 1682, col: 10, offset: 54464},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54149},
+																					pos:        position{line: 1682, col: 11, offset: 54465},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54156},
+																					pos: position{line: 1682, col: 18, offset: 54472},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54157},
+																						pos:        position{line: 1682, col: 19, offset: 54473},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29612,16 +29632,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54247},
+																	pos: position{line: 1685, col: 7, offset: 54563},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29634,29 +29654,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1551, col: 5, offset: 50044},
+													pos: position{line: 1561, col: 5, offset: 50360},
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56656},
+														pos: position{line: 1769, col: 5, offset: 56972},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56656},
+															pos: position{line: 1769, col: 5, offset: 56972},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56656},
+																	pos:        position{line: 1769, col: 5, offset: 56972},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56660},
+																	pos:   position{line: 1769, col: 9, offset: 56976},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56665},
+																		pos: position{line: 1769, col: 14, offset: 56981},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56665},
+																			pos: position{line: 1769, col: 14, offset: 56981},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56665},
+																				pos:        position{line: 1769, col: 14, offset: 56981},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29666,18 +29686,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56713},
+																	pos:        position{line: 1769, col: 62, offset: 57029},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29690,36 +29710,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1552, col: 5, offset: 50074},
+													pos: position{line: 1562, col: 5, offset: 50390},
 													expr: &seqExpr{
-														pos: position{line: 1552, col: 7, offset: 50076},
+														pos: position{line: 1562, col: 7, offset: 50392},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1705, col: 5, offset: 55138},
+																pos: position{line: 1715, col: 5, offset: 55454},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1705, col: 5, offset: 55138},
+																	pos: position{line: 1715, col: 5, offset: 55454},
 																	expr: &seqExpr{
-																		pos: position{line: 1705, col: 6, offset: 55139},
+																		pos: position{line: 1715, col: 6, offset: 55455},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1705, col: 6, offset: 55139},
+																				pos: position{line: 1715, col: 6, offset: 55455},
 																				expr: &actionExpr{
-																					pos: position{line: 1710, col: 5, offset: 55289},
+																					pos: position{line: 1720, col: 5, offset: 55605},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1710, col: 5, offset: 55289},
+																						pos: position{line: 1720, col: 5, offset: 55605},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1710, col: 5, offset: 55289},
+																								pos:   position{line: 1720, col: 5, offset: 55605},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 16, offset: 55300},
+																									pos: position{line: 1720, col: 16, offset: 55616},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1710, col: 16, offset: 55300},
+																										pos: position{line: 1720, col: 16, offset: 55616},
 																										expr: &litMatcher{
-																											pos:        position{line: 1710, col: 17, offset: 55301},
+																											pos:        position{line: 1720, col: 17, offset: 55617},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29728,7 +29748,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1713, col: 5, offset: 55358},
+																								pos: position{line: 1723, col: 5, offset: 55674},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29736,30 +29756,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1705, col: 35, offset: 55168},
+																				pos: position{line: 1715, col: 35, offset: 55484},
 																				expr: &choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29768,37 +29788,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1705, col: 40, offset: 55173,
+																				line: 1715, col: 40, offset: 55489,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55289},
+																pos: position{line: 1720, col: 5, offset: 55605},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55289},
+																	pos: position{line: 1720, col: 5, offset: 55605},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55289},
+																			pos:   position{line: 1720, col: 5, offset: 55605},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1710, col: 16, offset: 55300},
+																				pos: position{line: 1720, col: 16, offset: 55616},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1710, col: 16, offset: 55300},
+																					pos: position{line: 1720, col: 16, offset: 55616},
 																					expr: &litMatcher{
-																						pos:        position{line: 1710, col: 17, offset: 55301},
+																						pos:        position{line: 1720, col: 17, offset: 55617},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29807,20 +29827,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1713, col: 5, offset: 55358},
+																			pos: position{line: 1723, col: 5, offset: 55674},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1552, col: 59, offset: 50128},
+																pos: position{line: 1562, col: 59, offset: 50444},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29828,25 +29848,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29855,9 +29875,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -29866,9 +29886,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1553, col: 5, offset: 50146},
+													pos: position{line: 1563, col: 5, offset: 50462},
 													expr: &choiceExpr{
-														pos: position{line: 1553, col: 7, offset: 50148},
+														pos: position{line: 1563, col: 7, offset: 50464},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29879,7 +29899,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2817, col: 13, offset: 89802},
+																				pos:        position{line: 2827, col: 13, offset: 90118},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29929,10 +29949,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29941,28 +29961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29971,9 +29991,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30018,10 +30038,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30030,28 +30050,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30060,9 +30080,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30103,10 +30123,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30115,28 +30135,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30145,9 +30165,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30192,10 +30212,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30204,28 +30224,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30234,9 +30254,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30281,10 +30301,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30293,28 +30313,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30323,9 +30343,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30370,10 +30390,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30382,28 +30402,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30412,9 +30432,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30459,10 +30479,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30471,28 +30491,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30501,9 +30521,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30548,10 +30568,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30560,28 +30580,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30590,9 +30610,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30637,10 +30657,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30649,28 +30669,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30679,9 +30699,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -30718,10 +30738,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30730,28 +30750,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30760,9 +30780,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -30771,21 +30791,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2665, col: 19, offset: 85254},
+																pos: position{line: 2675, col: 19, offset: 85570},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2665, col: 19, offset: 85254},
+																		pos:        position{line: 2675, col: 19, offset: 85570},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2665, col: 26, offset: 85261},
+																		pos: position{line: 2675, col: 26, offset: 85577},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30794,28 +30814,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30824,9 +30844,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -30837,15 +30857,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1554, col: 5, offset: 50206},
+													pos:   position{line: 1564, col: 5, offset: 50522},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2886, col: 14, offset: 91608},
+														pos: position{line: 2896, col: 14, offset: 91924},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2886, col: 14, offset: 91608},
+															pos: position{line: 2896, col: 14, offset: 91924},
 															expr: &charClassMatcher{
-																pos:        position{line: 2886, col: 14, offset: 91608},
+																pos:        position{line: 2896, col: 14, offset: 91924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30855,28 +30875,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30885,9 +30905,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -30904,28 +30924,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1570, col: 1, offset: 50597},
+			pos:  position{line: 1580, col: 1, offset: 50913},
 			expr: &actionExpr{
-				pos: position{line: 1571, col: 5, offset: 50622},
+				pos: position{line: 1581, col: 5, offset: 50938},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1571, col: 5, offset: 50622},
+					pos: position{line: 1581, col: 5, offset: 50938},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1571, col: 5, offset: 50622},
+							pos:   position{line: 1581, col: 5, offset: 50938},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1571, col: 12, offset: 50629},
+								pos: position{line: 1581, col: 12, offset: 50945},
 								expr: &seqExpr{
-									pos: position{line: 1571, col: 13, offset: 50630},
+									pos: position{line: 1581, col: 13, offset: 50946},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1571, col: 13, offset: 50630},
+											pos: position{line: 1581, col: 13, offset: 50946},
 											expr: &actionExpr{
-												pos: position{line: 2963, col: 10, offset: 93854},
+												pos: position{line: 2973, col: 10, offset: 94170},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2963, col: 10, offset: 93854},
+													pos:        position{line: 2973, col: 10, offset: 94170},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30934,25 +30954,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2972, col: 12, offset: 94025},
+											pos: position{line: 2982, col: 12, offset: 94341},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2972, col: 13, offset: 94026},
+												pos: position{line: 2982, col: 13, offset: 94342},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2972, col: 13, offset: 94026},
+														pos:        position{line: 2982, col: 13, offset: 94342},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2972, col: 20, offset: 94033},
+														pos:        position{line: 2982, col: 20, offset: 94349},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2972, col: 29, offset: 94042},
+														pos:        position{line: 2982, col: 29, offset: 94358},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30965,18 +30985,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1572, col: 5, offset: 50652},
+							pos:        position{line: 1582, col: 5, offset: 50968},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1572, col: 9, offset: 50656},
+							pos: position{line: 1582, col: 9, offset: 50972},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30985,28 +31005,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31015,31 +31035,31 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1573, col: 5, offset: 50671},
+							pos:   position{line: 1583, col: 5, offset: 50987},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1573, col: 13, offset: 50679},
+								pos: position{line: 1583, col: 13, offset: 50995},
 								expr: &choiceExpr{
-									pos: position{line: 1573, col: 14, offset: 50680},
+									pos: position{line: 1583, col: 14, offset: 50996},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1573, col: 14, offset: 50680},
+											pos: position{line: 1583, col: 14, offset: 50996},
 											run: (*parser).callonListContinuation29,
 											expr: &seqExpr{
-												pos: position{line: 1573, col: 14, offset: 50680},
+												pos: position{line: 1583, col: 14, offset: 50996},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1573, col: 14, offset: 50680},
+														pos: position{line: 1583, col: 14, offset: 50996},
 														expr: &choiceExpr{
-															pos: position{line: 1573, col: 15, offset: 50681},
+															pos: position{line: 1583, col: 15, offset: 50997},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -31048,18 +31068,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2980, col: 11, offset: 94188},
+																				pos: position{line: 2990, col: 11, offset: 94504},
 																				expr: &anyMatcher{
-																					line: 2980, col: 13, offset: 94190,
+																					line: 2990, col: 13, offset: 94506,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonListContinuation38,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -31068,28 +31088,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuation41,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31098,9 +31118,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -31109,36 +31129,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2530, col: 22, offset: 81497},
+																	pos: position{line: 2540, col: 22, offset: 81813},
 																	run: (*parser).callonListContinuation48,
 																	expr: &seqExpr{
-																		pos: position{line: 2530, col: 22, offset: 81497},
+																		pos: position{line: 2540, col: 22, offset: 81813},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2535, col: 31, offset: 81718},
+																				pos:        position{line: 2545, col: 31, offset: 82034},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2535, col: 36, offset: 81723},
+																				pos: position{line: 2545, col: 36, offset: 82039},
 																				expr: &litMatcher{
-																					pos:        position{line: 2535, col: 37, offset: 81724},
+																					pos:        position{line: 2545, col: 37, offset: 82040},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2530, col: 49, offset: 81524},
+																				pos:   position{line: 2540, col: 49, offset: 81840},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 13, offset: 91541},
+																					pos: position{line: 2892, col: 13, offset: 91857},
 																					run: (*parser).callonListContinuation54,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2882, col: 13, offset: 91541},
+																						pos: position{line: 2892, col: 13, offset: 91857},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91541},
+																							pos:        position{line: 2892, col: 13, offset: 91857},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -31148,28 +31168,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuation58,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31178,9 +31198,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -31192,10 +31212,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1573, col: 47, offset: 50713},
+														pos:   position{line: 1583, col: 47, offset: 51029},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1573, col: 49, offset: 50715},
+															pos:  position{line: 1583, col: 49, offset: 51031},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31203,13 +31223,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1573, col: 93, offset: 50759},
+											pos: position{line: 1583, col: 93, offset: 51075},
 											run: (*parser).callonListContinuation67,
 											expr: &seqExpr{
-												pos: position{line: 1573, col: 93, offset: 50759},
+												pos: position{line: 1583, col: 93, offset: 51075},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1573, col: 93, offset: 50759},
+														pos: position{line: 1583, col: 93, offset: 51075},
 														expr: &actionExpr{
 															pos: position{line: 697, col: 14, offset: 22135},
 															run: (*parser).callonListContinuation70,
@@ -31217,18 +31237,18 @@ var g = &grammar{
 																pos: position{line: 697, col: 14, offset: 22135},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2980, col: 11, offset: 94188},
+																		pos: position{line: 2990, col: 11, offset: 94504},
 																		expr: &anyMatcher{
-																			line: 2980, col: 13, offset: 94190,
+																			line: 2990, col: 13, offset: 94506,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 697, col: 21, offset: 22142},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonListContinuation75,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31237,28 +31257,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonListContinuation78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -31267,9 +31287,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -31279,10 +31299,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1573, col: 104, offset: 50770},
+														pos:   position{line: 1583, col: 104, offset: 51086},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1573, col: 106, offset: 50772},
+															pos:  position{line: 1583, col: 106, offset: 51088},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31299,46 +31319,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1580, col: 1, offset: 50958},
+			pos:  position{line: 1590, col: 1, offset: 51274},
 			expr: &actionExpr{
-				pos: position{line: 1581, col: 5, offset: 51004},
+				pos: position{line: 1591, col: 5, offset: 51320},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1581, col: 5, offset: 51004},
+					pos: position{line: 1591, col: 5, offset: 51320},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1582, col: 5, offset: 51032},
+							pos: position{line: 1592, col: 5, offset: 51348},
 							expr: &choiceExpr{
-								pos: position{line: 1519, col: 5, offset: 48871},
+								pos: position{line: 1529, col: 5, offset: 49187},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1613, col: 5, offset: 51949},
+										pos: position{line: 1623, col: 5, offset: 52265},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1613, col: 5, offset: 51949},
+											pos: position{line: 1623, col: 5, offset: 52265},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1613, col: 5, offset: 51949},
+													pos:   position{line: 1623, col: 5, offset: 52265},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1620, col: 5, offset: 52157},
+														pos: position{line: 1630, col: 5, offset: 52473},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1620, col: 5, offset: 52157},
+															pos: position{line: 1630, col: 5, offset: 52473},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1620, col: 5, offset: 52157},
+																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31347,27 +31367,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1620, col: 12, offset: 52164},
+																	pos:   position{line: 1630, col: 12, offset: 52480},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1622, col: 9, offset: 52227},
+																		pos: position{line: 1632, col: 9, offset: 52543},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1622, col: 9, offset: 52227},
+																				pos: position{line: 1632, col: 9, offset: 52543},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 9, offset: 52227},
+																					pos: position{line: 1632, col: 9, offset: 52543},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1622, col: 9, offset: 52227},
+																							pos:   position{line: 1632, col: 9, offset: 52543},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1622, col: 16, offset: 52234},
+																								pos: position{line: 1632, col: 16, offset: 52550},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1622, col: 16, offset: 52234},
+																									pos: position{line: 1632, col: 16, offset: 52550},
 																									expr: &litMatcher{
-																										pos:        position{line: 1622, col: 17, offset: 52235},
+																										pos:        position{line: 1632, col: 17, offset: 52551},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31376,22 +31396,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1626, col: 9, offset: 52335},
+																							pos: position{line: 1636, col: 9, offset: 52651},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1645, col: 11, offset: 53052},
+																				pos: position{line: 1655, col: 11, offset: 53368},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1645, col: 11, offset: 53052},
+																					pos: position{line: 1655, col: 11, offset: 53368},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1645, col: 11, offset: 53052},
+																							pos: position{line: 1655, col: 11, offset: 53368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1645, col: 12, offset: 53053},
+																								pos:        position{line: 1655, col: 12, offset: 53369},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31399,7 +31419,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1645, col: 20, offset: 53061},
+																							pos:        position{line: 1655, col: 20, offset: 53377},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31408,20 +31428,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1647, col: 13, offset: 53178},
+																				pos: position{line: 1657, col: 13, offset: 53494},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1647, col: 13, offset: 53178},
+																					pos: position{line: 1657, col: 13, offset: 53494},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1647, col: 14, offset: 53179},
+																							pos:        position{line: 1657, col: 14, offset: 53495},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1647, col: 21, offset: 53186},
+																							pos:        position{line: 1657, col: 21, offset: 53502},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31430,20 +31450,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1649, col: 13, offset: 53306},
+																				pos: position{line: 1659, col: 13, offset: 53622},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 13, offset: 53306},
+																					pos: position{line: 1659, col: 13, offset: 53622},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1649, col: 14, offset: 53307},
+																							pos:        position{line: 1659, col: 14, offset: 53623},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1649, col: 21, offset: 53314},
+																							pos:        position{line: 1659, col: 21, offset: 53630},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31452,15 +31472,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1651, col: 13, offset: 53434},
+																				pos: position{line: 1661, col: 13, offset: 53750},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1651, col: 13, offset: 53434},
+																					pos: position{line: 1661, col: 13, offset: 53750},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1651, col: 13, offset: 53434},
+																							pos: position{line: 1661, col: 13, offset: 53750},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1651, col: 14, offset: 53435},
+																								pos:        position{line: 1661, col: 14, offset: 53751},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31468,7 +31488,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1651, col: 26, offset: 53447},
+																							pos:        position{line: 1661, col: 26, offset: 53763},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31477,15 +31497,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1653, col: 13, offset: 53567},
+																				pos: position{line: 1663, col: 13, offset: 53883},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 13, offset: 53567},
+																					pos: position{line: 1663, col: 13, offset: 53883},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1653, col: 13, offset: 53567},
+																							pos: position{line: 1663, col: 13, offset: 53883},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1653, col: 14, offset: 53568},
+																								pos:        position{line: 1663, col: 14, offset: 53884},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31493,7 +31513,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1653, col: 26, offset: 53580},
+																							pos:        position{line: 1663, col: 26, offset: 53896},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31505,12 +31525,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31523,26 +31543,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1614, col: 5, offset: 51988},
+													pos:   position{line: 1624, col: 5, offset: 52304},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31553,28 +31573,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31583,9 +31603,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -31598,27 +31618,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1663, col: 5, offset: 53846},
+										pos: position{line: 1673, col: 5, offset: 54162},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1663, col: 5, offset: 53846},
+											pos: position{line: 1673, col: 5, offset: 54162},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53846},
+													pos:   position{line: 1673, col: 5, offset: 54162},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54119},
+														pos: position{line: 1680, col: 5, offset: 54435},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1670, col: 5, offset: 54119},
+															pos: position{line: 1680, col: 5, offset: 54435},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54119},
+																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31627,24 +31647,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1671, col: 5, offset: 54131},
+																	pos:   position{line: 1681, col: 5, offset: 54447},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1672, col: 9, offset: 54147},
+																		pos: position{line: 1682, col: 9, offset: 54463},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1672, col: 10, offset: 54148},
+																			pos: position{line: 1682, col: 10, offset: 54464},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1672, col: 11, offset: 54149},
+																					pos:        position{line: 1682, col: 11, offset: 54465},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1672, col: 18, offset: 54156},
+																					pos: position{line: 1682, col: 18, offset: 54472},
 																					expr: &litMatcher{
-																						pos:        position{line: 1672, col: 19, offset: 54157},
+																						pos:        position{line: 1682, col: 19, offset: 54473},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31655,16 +31675,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1675, col: 7, offset: 54247},
+																	pos: position{line: 1685, col: 7, offset: 54563},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31677,56 +31697,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53887},
+													pos:   position{line: 1674, col: 5, offset: 54203},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1664, col: 16, offset: 53898},
+														pos: position{line: 1674, col: 16, offset: 54214},
 														expr: &actionExpr{
-															pos: position{line: 1685, col: 5, offset: 54512},
+															pos: position{line: 1695, col: 5, offset: 54828},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1685, col: 5, offset: 54512},
+																pos: position{line: 1695, col: 5, offset: 54828},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1685, col: 5, offset: 54512},
+																		pos: position{line: 1695, col: 5, offset: 54828},
 																		expr: &litMatcher{
-																			pos:        position{line: 1685, col: 6, offset: 54513},
+																			pos:        position{line: 1695, col: 6, offset: 54829},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1685, col: 10, offset: 54517},
+																		pos:   position{line: 1695, col: 10, offset: 54833},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1686, col: 7, offset: 54531},
+																			pos: position{line: 1696, col: 7, offset: 54847},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1686, col: 7, offset: 54531},
+																					pos: position{line: 1696, col: 7, offset: 54847},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1686, col: 7, offset: 54531},
+																						pos:        position{line: 1696, col: 7, offset: 54847},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1687, col: 7, offset: 54576},
+																					pos: position{line: 1697, col: 7, offset: 54892},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1687, col: 7, offset: 54576},
+																						pos:        position{line: 1697, col: 7, offset: 54892},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1688, col: 7, offset: 54619},
+																					pos: position{line: 1698, col: 7, offset: 54935},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1688, col: 7, offset: 54619},
+																						pos:        position{line: 1698, col: 7, offset: 54935},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31736,12 +31756,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31755,26 +31775,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53937},
+													pos:   position{line: 1675, col: 5, offset: 54253},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31785,28 +31805,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31815,9 +31835,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -31830,36 +31850,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1753, col: 5, offset: 56459},
+										pos: position{line: 1763, col: 5, offset: 56775},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 5, offset: 56459},
+											pos: position{line: 1763, col: 5, offset: 56775},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1753, col: 5, offset: 56459},
+													pos:   position{line: 1763, col: 5, offset: 56775},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1759, col: 5, offset: 56656},
+														pos: position{line: 1769, col: 5, offset: 56972},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1759, col: 5, offset: 56656},
+															pos: position{line: 1769, col: 5, offset: 56972},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1759, col: 5, offset: 56656},
+																	pos:        position{line: 1769, col: 5, offset: 56972},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1759, col: 9, offset: 56660},
+																	pos:   position{line: 1769, col: 9, offset: 56976},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 14, offset: 56665},
+																		pos: position{line: 1769, col: 14, offset: 56981},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1759, col: 14, offset: 56665},
+																			pos: position{line: 1769, col: 14, offset: 56981},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1759, col: 14, offset: 56665},
+																				pos:        position{line: 1769, col: 14, offset: 56981},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31869,18 +31889,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1759, col: 62, offset: 56713},
+																	pos:        position{line: 1769, col: 62, offset: 57029},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31893,26 +31913,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1754, col: 5, offset: 56495},
+													pos:   position{line: 1764, col: 5, offset: 56811},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1560, col: 5, offset: 50351},
+														pos: position{line: 1570, col: 5, offset: 50667},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1560, col: 5, offset: 50351},
+															pos: position{line: 1570, col: 5, offset: 50667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1560, col: 5, offset: 50351},
+																	pos:   position{line: 1570, col: 5, offset: 50667},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1560, col: 14, offset: 50360},
+																		pos: position{line: 1570, col: 14, offset: 50676},
 																		expr: &actionExpr{
-																			pos: position{line: 1560, col: 15, offset: 50361},
+																			pos: position{line: 1570, col: 15, offset: 50677},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1560, col: 15, offset: 50361},
+																				pos: position{line: 1570, col: 15, offset: 50677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1560, col: 15, offset: 50361},
+																					pos:        position{line: 1570, col: 15, offset: 50677},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31923,28 +31943,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31953,9 +31973,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -31968,40 +31988,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1697, col: 5, offset: 54812},
+										pos: position{line: 1707, col: 5, offset: 55128},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1697, col: 5, offset: 54812},
+											pos: position{line: 1707, col: 5, offset: 55128},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1697, col: 5, offset: 54812},
+													pos:   position{line: 1707, col: 5, offset: 55128},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1705, col: 5, offset: 55138},
+														pos: position{line: 1715, col: 5, offset: 55454},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1705, col: 5, offset: 55138},
+															pos: position{line: 1715, col: 5, offset: 55454},
 															expr: &seqExpr{
-																pos: position{line: 1705, col: 6, offset: 55139},
+																pos: position{line: 1715, col: 6, offset: 55455},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1705, col: 6, offset: 55139},
+																		pos: position{line: 1715, col: 6, offset: 55455},
 																		expr: &actionExpr{
-																			pos: position{line: 1710, col: 5, offset: 55289},
+																			pos: position{line: 1720, col: 5, offset: 55605},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1710, col: 5, offset: 55289},
+																				pos: position{line: 1720, col: 5, offset: 55605},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1710, col: 5, offset: 55289},
+																						pos:   position{line: 1720, col: 5, offset: 55605},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1710, col: 16, offset: 55300},
+																							pos: position{line: 1720, col: 16, offset: 55616},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1710, col: 16, offset: 55300},
+																								pos: position{line: 1720, col: 16, offset: 55616},
 																								expr: &litMatcher{
-																									pos:        position{line: 1710, col: 17, offset: 55301},
+																									pos:        position{line: 1720, col: 17, offset: 55617},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -32010,7 +32030,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1713, col: 5, offset: 55358},
+																						pos: position{line: 1723, col: 5, offset: 55674},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -32018,30 +32038,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1705, col: 35, offset: 55168},
+																		pos: position{line: 1715, col: 35, offset: 55484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32050,16 +32070,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1705, col: 40, offset: 55173,
+																		line: 1715, col: 40, offset: 55489,
 																	},
 																},
 															},
@@ -32067,24 +32087,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1698, col: 5, offset: 54847},
+													pos:   position{line: 1708, col: 5, offset: 55163},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1710, col: 5, offset: 55289},
+														pos: position{line: 1720, col: 5, offset: 55605},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1710, col: 5, offset: 55289},
+															pos: position{line: 1720, col: 5, offset: 55605},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1710, col: 5, offset: 55289},
+																	pos:   position{line: 1720, col: 5, offset: 55605},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1710, col: 16, offset: 55300},
+																		pos: position{line: 1720, col: 16, offset: 55616},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1710, col: 16, offset: 55300},
+																			pos: position{line: 1720, col: 16, offset: 55616},
 																			expr: &litMatcher{
-																				pos:        position{line: 1710, col: 17, offset: 55301},
+																				pos:        position{line: 1720, col: 17, offset: 55617},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -32093,7 +32113,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1713, col: 5, offset: 55358},
+																	pos: position{line: 1723, col: 5, offset: 55674},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -32101,24 +32121,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1699, col: 5, offset: 54892},
+													pos:   position{line: 1709, col: 5, offset: 55208},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1721, col: 5, offset: 55607},
+														pos: position{line: 1731, col: 5, offset: 55923},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1723, col: 9, offset: 55673},
+																pos: position{line: 1733, col: 9, offset: 55989},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 9, offset: 55673},
+																	pos: position{line: 1733, col: 9, offset: 55989},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1723, col: 9, offset: 55673},
+																			pos: position{line: 1733, col: 9, offset: 55989},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32127,28 +32147,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32157,15 +32177,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1724, col: 9, offset: 55692},
+																			pos: position{line: 1734, col: 9, offset: 56008},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -32173,18 +32193,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2980, col: 11, offset: 94188},
+																							pos: position{line: 2990, col: 11, offset: 94504},
 																							expr: &anyMatcher{
-																								line: 2980, col: 13, offset: 94190,
+																								line: 2990, col: 13, offset: 94506,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32193,28 +32213,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32223,9 +32243,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -32238,18 +32258,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1730, col: 9, offset: 55821},
+																pos: position{line: 1740, col: 9, offset: 56137},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1730, col: 9, offset: 55821},
+																	pos: position{line: 1740, col: 9, offset: 56137},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2967, col: 11, offset: 93915},
+																				pos: position{line: 2977, col: 11, offset: 94231},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2967, col: 11, offset: 93915},
+																					pos:        position{line: 2977, col: 11, offset: 94231},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32258,15 +32278,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1731, col: 9, offset: 55894},
+																			pos:   position{line: 1741, col: 9, offset: 56210},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1731, col: 18, offset: 55903},
+																				pos: position{line: 1741, col: 18, offset: 56219},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1731, col: 18, offset: 55903},
+																					pos: position{line: 1741, col: 18, offset: 56219},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1731, col: 18, offset: 55903},
+																						pos:        position{line: 1741, col: 18, offset: 56219},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32276,28 +32296,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32306,9 +32326,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -32326,21 +32346,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1583, col: 5, offset: 51049},
+							pos:   position{line: 1593, col: 5, offset: 51365},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1583, col: 16, offset: 51060},
+								pos: position{line: 1593, col: 16, offset: 51376},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1583, col: 17, offset: 51061},
+									pos:  position{line: 1593, col: 17, offset: 51377},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1584, col: 5, offset: 51083},
+							pos:   position{line: 1594, col: 5, offset: 51399},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1585, col: 9, offset: 51101},
+								pos: position{line: 1595, col: 9, offset: 51417},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32349,18 +32369,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2980, col: 11, offset: 94188},
+													pos: position{line: 2990, col: 11, offset: 94504},
 													expr: &anyMatcher{
-														line: 2980, col: 13, offset: 94190,
+														line: 2990, col: 13, offset: 94506,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32369,28 +32389,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32399,9 +32419,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -32410,7 +32430,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1586, col: 11, offset: 51121},
+										pos:  position{line: 1596, col: 11, offset: 51437},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32466,10 +32486,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32478,28 +32498,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32508,9 +32528,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -32571,10 +32591,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32583,28 +32603,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32613,9 +32633,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -32669,10 +32689,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32681,28 +32701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32711,9 +32731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -32785,10 +32805,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32797,28 +32817,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32827,9 +32847,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -32845,9 +32865,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -32863,21 +32883,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32887,28 +32907,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32917,9 +32937,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -32981,10 +33001,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -32993,28 +33013,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33023,9 +33043,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -33041,9 +33061,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -33098,10 +33118,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33110,28 +33130,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33140,9 +33160,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -33214,10 +33234,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33226,28 +33246,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33256,9 +33276,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -33274,9 +33294,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -33292,21 +33312,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33316,28 +33336,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33346,9 +33366,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -33413,10 +33433,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33425,28 +33445,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33455,9 +33475,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -33473,9 +33493,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -33527,10 +33547,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33539,28 +33559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33569,9 +33589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -33605,10 +33625,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33617,28 +33637,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33647,9 +33667,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -33667,21 +33687,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33691,28 +33711,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33721,9 +33741,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -33751,10 +33771,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33763,28 +33783,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33793,9 +33813,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -33852,10 +33872,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33864,28 +33884,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33894,9 +33914,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -33968,10 +33988,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33980,28 +34000,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34010,9 +34030,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -34028,9 +34048,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -34046,21 +34066,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34070,28 +34090,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34100,9 +34120,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -34167,10 +34187,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34179,28 +34199,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34209,9 +34229,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -34227,9 +34247,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -34285,10 +34305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34297,28 +34317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34327,9 +34347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -34401,10 +34421,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34413,28 +34433,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34443,9 +34463,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -34461,9 +34481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -34479,21 +34499,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34503,28 +34523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34533,9 +34553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -34600,10 +34620,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34612,28 +34632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34642,9 +34662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -34660,9 +34680,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -34718,10 +34738,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34730,28 +34750,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34760,9 +34780,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -34834,10 +34854,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34846,28 +34866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34876,9 +34896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -34894,9 +34914,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -34912,21 +34932,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34936,28 +34956,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34966,9 +34986,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -35033,10 +35053,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35045,28 +35065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35075,9 +35095,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -35093,9 +35113,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -35129,18 +35149,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94188},
+																					pos: position{line: 2990, col: 11, offset: 94504},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94190,
+																						line: 2990, col: 13, offset: 94506,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -35149,28 +35169,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35179,9 +35199,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -35200,12 +35220,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 14, offset: 91608},
+																		pos: position{line: 2896, col: 14, offset: 91924},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2886, col: 14, offset: 91608},
+																			pos: position{line: 2896, col: 14, offset: 91924},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 14, offset: 91608},
+																				pos:        position{line: 2896, col: 14, offset: 91924},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35215,28 +35235,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35245,9 +35265,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -35279,18 +35299,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2980, col: 11, offset: 94188},
+																								pos: position{line: 2990, col: 11, offset: 94504},
 																								expr: &anyMatcher{
-																									line: 2980, col: 13, offset: 94190,
+																									line: 2990, col: 13, offset: 94506,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35299,28 +35319,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35329,9 +35349,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -35350,12 +35370,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 14, offset: 91608},
+																					pos: position{line: 2896, col: 14, offset: 91924},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2886, col: 14, offset: 91608},
+																						pos: position{line: 2896, col: 14, offset: 91924},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 14, offset: 91608},
+																							pos:        position{line: 2896, col: 14, offset: 91924},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35365,28 +35385,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35395,9 +35415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -35406,21 +35426,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1828, col: 5, offset: 59055},
+																	pos: position{line: 1838, col: 5, offset: 59371},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1828, col: 5, offset: 59055},
+																		pos: position{line: 1838, col: 5, offset: 59371},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1828, col: 5, offset: 59055},
+																				pos:   position{line: 1838, col: 5, offset: 59371},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 14, offset: 91608},
+																					pos: position{line: 2896, col: 14, offset: 91924},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2886, col: 14, offset: 91608},
+																						pos: position{line: 2896, col: 14, offset: 91924},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2886, col: 14, offset: 91608},
+																							pos:        position{line: 2896, col: 14, offset: 91924},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35430,32 +35450,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1829, col: 5, offset: 59079},
+																				pos: position{line: 1839, col: 5, offset: 59395},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35464,9 +35484,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -35513,10 +35533,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35525,28 +35545,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35555,9 +35575,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -35605,10 +35625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35617,28 +35637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35647,9 +35667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -35658,9 +35678,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -35676,21 +35696,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35700,28 +35720,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35730,9 +35750,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -35777,10 +35797,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35789,28 +35809,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35819,9 +35839,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -35830,9 +35850,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -35888,10 +35908,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35900,28 +35920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35930,9 +35950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -36004,10 +36024,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36016,28 +36036,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36046,9 +36066,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -36064,9 +36084,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -36082,21 +36102,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36106,28 +36126,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36136,9 +36156,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -36203,10 +36223,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36215,28 +36235,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36245,9 +36265,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -36263,9 +36283,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -36321,10 +36341,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36333,28 +36353,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36363,9 +36383,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -36437,10 +36457,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36449,28 +36469,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36479,9 +36499,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -36497,9 +36517,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -36515,21 +36535,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36539,28 +36559,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36569,9 +36589,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -36636,10 +36656,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36648,28 +36668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36678,9 +36698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -36696,9 +36716,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -36754,10 +36774,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36766,28 +36786,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36796,9 +36816,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -36870,10 +36890,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2963, col: 10, offset: 93854},
+																												pos: position{line: 2973, col: 10, offset: 94170},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2963, col: 10, offset: 93854},
+																													pos:        position{line: 2973, col: 10, offset: 94170},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36882,28 +36902,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2985, col: 8, offset: 94252},
+																											pos: position{line: 2995, col: 8, offset: 94568},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2972, col: 12, offset: 94025},
+																													pos: position{line: 2982, col: 12, offset: 94341},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2972, col: 13, offset: 94026},
+																														pos: position{line: 2982, col: 13, offset: 94342},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36912,9 +36932,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2982, col: 8, offset: 94202},
+																													pos: position{line: 2992, col: 8, offset: 94518},
 																													expr: &anyMatcher{
-																														line: 2982, col: 9, offset: 94203,
+																														line: 2992, col: 9, offset: 94519,
 																													},
 																												},
 																											},
@@ -36930,9 +36950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -36948,21 +36968,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2980, col: 11, offset: 94188},
+																						pos: position{line: 2990, col: 11, offset: 94504},
 																						expr: &anyMatcher{
-																							line: 2980, col: 13, offset: 94190,
+																							line: 2990, col: 13, offset: 94506,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 13, offset: 91541},
+																							pos: position{line: 2892, col: 13, offset: 91857},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2882, col: 13, offset: 91541},
+																								pos: position{line: 2892, col: 13, offset: 91857},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91541},
+																									pos:        position{line: 2892, col: 13, offset: 91857},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36972,28 +36992,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37002,9 +37022,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -37069,10 +37089,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37081,28 +37101,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -37111,9 +37131,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -37129,9 +37149,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -37142,27 +37162,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2768, col: 18, offset: 88161},
+										pos: position{line: 2778, col: 18, offset: 88477},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2769, col: 9, offset: 88171},
+											pos: position{line: 2779, col: 9, offset: 88487},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2769, col: 9, offset: 88171},
+													pos: position{line: 2779, col: 9, offset: 88487},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2769, col: 9, offset: 88171},
+															pos:        position{line: 2779, col: 9, offset: 88487},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2769, col: 15, offset: 88177},
+															pos: position{line: 2779, col: 15, offset: 88493},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37171,28 +37191,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94252},
+															pos: position{line: 2995, col: 8, offset: 94568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94025},
+																	pos: position{line: 2982, col: 12, offset: 94341},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94026},
+																		pos: position{line: 2982, col: 13, offset: 94342},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94026},
+																				pos:        position{line: 2982, col: 13, offset: 94342},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94033},
+																				pos:        position{line: 2982, col: 20, offset: 94349},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94042},
+																				pos:        position{line: 2982, col: 29, offset: 94358},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37201,9 +37221,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -37211,43 +37231,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2770, col: 11, offset: 88210},
+													pos: position{line: 2780, col: 11, offset: 88526},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2770, col: 12, offset: 88211},
+															pos: position{line: 2780, col: 12, offset: 88527},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2770, col: 12, offset: 88211},
+																	pos:        position{line: 2780, col: 12, offset: 88527},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 20, offset: 88219},
+																	pos:        position{line: 2780, col: 20, offset: 88535},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 30, offset: 88229},
+																	pos:        position{line: 2780, col: 30, offset: 88545},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 38, offset: 88237},
+																	pos:        position{line: 2780, col: 38, offset: 88553},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 48, offset: 88247},
+																	pos:        position{line: 2780, col: 48, offset: 88563},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2770, col: 56, offset: 88255},
+																	pos:        position{line: 2780, col: 56, offset: 88571},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37255,12 +37275,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2770, col: 65, offset: 88264},
+															pos: position{line: 2780, col: 65, offset: 88580},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37269,28 +37289,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94252},
+															pos: position{line: 2995, col: 8, offset: 94568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94025},
+																	pos: position{line: 2982, col: 12, offset: 94341},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94026},
+																		pos: position{line: 2982, col: 13, offset: 94342},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94026},
+																				pos:        position{line: 2982, col: 13, offset: 94342},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94033},
+																				pos:        position{line: 2982, col: 20, offset: 94349},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94042},
+																				pos:        position{line: 2982, col: 29, offset: 94358},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37299,38 +37319,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2770, col: 76, offset: 88275},
+															pos: position{line: 2780, col: 76, offset: 88591},
 															expr: &choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37339,9 +37359,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -37353,32 +37373,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1590, col: 11, offset: 51263},
+										pos:  position{line: 1600, col: 11, offset: 51579},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1591, col: 11, offset: 51284},
+										pos:  position{line: 1601, col: 11, offset: 51600},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2659, col: 5, offset: 85097},
+										pos: position{line: 2669, col: 5, offset: 85413},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2659, col: 5, offset: 85097},
+											pos: position{line: 2669, col: 5, offset: 85413},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2665, col: 19, offset: 85254},
+													pos:        position{line: 2675, col: 19, offset: 85570},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2665, col: 26, offset: 85261},
+													pos: position{line: 2675, col: 26, offset: 85577},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37387,28 +37407,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37417,20 +37437,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2660, col: 5, offset: 85121},
+													pos:   position{line: 2670, col: 5, offset: 85437},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2660, col: 11, offset: 85127},
+														pos: position{line: 2670, col: 11, offset: 85443},
 														expr: &choiceExpr{
-															pos: position{line: 2660, col: 12, offset: 85128},
+															pos: position{line: 2670, col: 12, offset: 85444},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37439,18 +37459,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2980, col: 11, offset: 94188},
+																				pos: position{line: 2990, col: 11, offset: 94504},
 																				expr: &anyMatcher{
-																					line: 2980, col: 13, offset: 94190,
+																					line: 2990, col: 13, offset: 94506,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37459,28 +37479,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2985, col: 8, offset: 94252},
+																				pos: position{line: 2995, col: 8, offset: 94568},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37489,9 +37509,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -37500,32 +37520,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2672, col: 5, offset: 85373},
+																	pos: position{line: 2682, col: 5, offset: 85689},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2672, col: 5, offset: 85373},
+																		pos: position{line: 2682, col: 5, offset: 85689},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2672, col: 5, offset: 85373},
+																				pos: position{line: 2682, col: 5, offset: 85689},
 																				expr: &choiceExpr{
-																					pos: position{line: 2669, col: 22, offset: 85334},
+																					pos: position{line: 2679, col: 22, offset: 85650},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2665, col: 19, offset: 85254},
+																							pos: position{line: 2675, col: 19, offset: 85570},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2665, col: 19, offset: 85254},
+																									pos:        position{line: 2675, col: 19, offset: 85570},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2665, col: 26, offset: 85261},
+																									pos: position{line: 2675, col: 26, offset: 85577},
 																									expr: &actionExpr{
-																										pos: position{line: 2963, col: 10, offset: 93854},
+																										pos: position{line: 2973, col: 10, offset: 94170},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2963, col: 10, offset: 93854},
+																											pos:        position{line: 2973, col: 10, offset: 94170},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37534,28 +37554,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37564,9 +37584,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
@@ -37574,59 +37594,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2673, col: 5, offset: 85396},
+																				pos:   position{line: 2683, col: 5, offset: 85712},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2674, col: 9, offset: 85414},
+																					pos: position{line: 2684, col: 9, offset: 85730},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2674, col: 10, offset: 85415},
+																							pos: position{line: 2684, col: 10, offset: 85731},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2674, col: 10, offset: 85415},
+																								pos:   position{line: 2684, col: 10, offset: 85731},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2674, col: 17, offset: 85422},
+																									pos: position{line: 2684, col: 17, offset: 85738},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2682, col: 21, offset: 85618},
+																											pos: position{line: 2692, col: 21, offset: 85934},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2682, col: 21, offset: 85618},
+																												pos: position{line: 2692, col: 21, offset: 85934},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2682, col: 21, offset: 85618},
+																														pos:   position{line: 2692, col: 21, offset: 85934},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2682, col: 27, offset: 85624},
+																															pos: position{line: 2692, col: 27, offset: 85940},
 																															expr: &actionExpr{
-																																pos: position{line: 2687, col: 5, offset: 85699},
+																																pos: position{line: 2697, col: 5, offset: 86015},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2687, col: 5, offset: 85699},
+																																	pos: position{line: 2697, col: 5, offset: 86015},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2687, col: 5, offset: 85699},
+																																			pos:        position{line: 2697, col: 5, offset: 86015},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2687, col: 9, offset: 85703},
+																																			pos: position{line: 2697, col: 9, offset: 86019},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2963, col: 10, offset: 93854},
+																																				pos: position{line: 2973, col: 10, offset: 94170},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2963, col: 10, offset: 93854},
+																																					pos:        position{line: 2973, col: 10, offset: 94170},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37635,21 +37655,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2687, col: 16, offset: 85710},
+																																			pos:   position{line: 2697, col: 16, offset: 86026},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2693, col: 5, offset: 85910},
+																																				pos: position{line: 2703, col: 5, offset: 86226},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2693, col: 5, offset: 85910},
+																																					pos:   position{line: 2703, col: 5, offset: 86226},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2693, col: 14, offset: 85919},
+																																						pos: position{line: 2703, col: 14, offset: 86235},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2693, col: 14, offset: 85919},
+																																							pos: position{line: 2703, col: 14, offset: 86235},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2693, col: 14, offset: 85919},
+																																								pos:        position{line: 2703, col: 14, offset: 86235},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37666,28 +37686,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2985, col: 8, offset: 94252},
+																														pos: position{line: 2995, col: 8, offset: 94568},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2972, col: 12, offset: 94025},
+																																pos: position{line: 2982, col: 12, offset: 94341},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2972, col: 13, offset: 94026},
+																																	pos: position{line: 2982, col: 13, offset: 94342},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 13, offset: 94026},
+																																			pos:        position{line: 2982, col: 13, offset: 94342},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 20, offset: 94033},
+																																			pos:        position{line: 2982, col: 20, offset: 94349},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2972, col: 29, offset: 94042},
+																																			pos:        position{line: 2982, col: 29, offset: 94358},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37696,9 +37716,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2982, col: 8, offset: 94202},
+																																pos: position{line: 2992, col: 8, offset: 94518},
 																																expr: &anyMatcher{
-																																	line: 2982, col: 9, offset: 94203,
+																																	line: 2992, col: 9, offset: 94519,
 																																},
 																															},
 																														},
@@ -37707,40 +37727,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2699, col: 24, offset: 86055},
+																											pos: position{line: 2709, col: 24, offset: 86371},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2699, col: 24, offset: 86055},
+																												pos:   position{line: 2709, col: 24, offset: 86371},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2699, col: 30, offset: 86061},
+																													pos: position{line: 2709, col: 30, offset: 86377},
 																													expr: &actionExpr{
-																														pos: position{line: 2704, col: 5, offset: 86137},
+																														pos: position{line: 2714, col: 5, offset: 86453},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2704, col: 5, offset: 86137},
+																															pos: position{line: 2714, col: 5, offset: 86453},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2704, col: 5, offset: 86137},
+																																	pos: position{line: 2714, col: 5, offset: 86453},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2669, col: 22, offset: 85334},
+																																		pos: position{line: 2679, col: 22, offset: 85650},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2665, col: 19, offset: 85254},
+																																				pos: position{line: 2675, col: 19, offset: 85570},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2665, col: 19, offset: 85254},
+																																						pos:        position{line: 2675, col: 19, offset: 85570},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2665, col: 26, offset: 85261},
+																																						pos: position{line: 2675, col: 26, offset: 85577},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2963, col: 10, offset: 93854},
+																																							pos: position{line: 2973, col: 10, offset: 94170},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2963, col: 10, offset: 93854},
+																																								pos:        position{line: 2973, col: 10, offset: 94170},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37749,28 +37769,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2985, col: 8, offset: 94252},
+																																						pos: position{line: 2995, col: 8, offset: 94568},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2972, col: 12, offset: 94025},
+																																								pos: position{line: 2982, col: 12, offset: 94341},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2972, col: 13, offset: 94026},
+																																									pos: position{line: 2982, col: 13, offset: 94342},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 13, offset: 94026},
+																																											pos:        position{line: 2982, col: 13, offset: 94342},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 20, offset: 94033},
+																																											pos:        position{line: 2982, col: 20, offset: 94349},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2972, col: 29, offset: 94042},
+																																											pos:        position{line: 2982, col: 29, offset: 94358},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37779,9 +37799,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2982, col: 8, offset: 94202},
+																																								pos: position{line: 2992, col: 8, offset: 94518},
 																																								expr: &anyMatcher{
-																																									line: 2982, col: 9, offset: 94203,
+																																									line: 2992, col: 9, offset: 94519,
 																																								},
 																																							},
 																																						},
@@ -37789,16 +37809,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2982, col: 8, offset: 94202},
+																																				pos: position{line: 2992, col: 8, offset: 94518},
 																																				expr: &anyMatcher{
-																																					line: 2982, col: 9, offset: 94203,
+																																					line: 2992, col: 9, offset: 94519,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2705, col: 5, offset: 86160},
+																																	pos: position{line: 2715, col: 5, offset: 86476},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37806,18 +37826,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2980, col: 11, offset: 94188},
+																																					pos: position{line: 2990, col: 11, offset: 94504},
 																																					expr: &anyMatcher{
-																																						line: 2980, col: 13, offset: 94190,
+																																						line: 2990, col: 13, offset: 94506,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2963, col: 10, offset: 93854},
+																																						pos: position{line: 2973, col: 10, offset: 94170},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2963, col: 10, offset: 93854},
+																																							pos:        position{line: 2973, col: 10, offset: 94170},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37826,28 +37846,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2985, col: 8, offset: 94252},
+																																					pos: position{line: 2995, col: 8, offset: 94568},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2972, col: 12, offset: 94025},
+																																							pos: position{line: 2982, col: 12, offset: 94341},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2972, col: 13, offset: 94026},
+																																								pos: position{line: 2982, col: 13, offset: 94342},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 13, offset: 94026},
+																																										pos:        position{line: 2982, col: 13, offset: 94342},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 20, offset: 94033},
+																																										pos:        position{line: 2982, col: 20, offset: 94349},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2972, col: 29, offset: 94042},
+																																										pos:        position{line: 2982, col: 29, offset: 94358},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37856,9 +37876,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2982, col: 8, offset: 94202},
+																																							pos: position{line: 2992, col: 8, offset: 94518},
 																																							expr: &anyMatcher{
-																																								line: 2982, col: 9, offset: 94203,
+																																								line: 2992, col: 9, offset: 94519,
 																																							},
 																																						},
 																																					},
@@ -37868,17 +37888,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2706, col: 5, offset: 86175},
+																																	pos:   position{line: 2716, col: 5, offset: 86491},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2706, col: 12, offset: 86182},
+																																		pos: position{line: 2716, col: 12, offset: 86498},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2723, col: 20, offset: 86646},
+																																			pos: position{line: 2733, col: 20, offset: 86962},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2723, col: 20, offset: 86646},
+																																				pos: position{line: 2733, col: 20, offset: 86962},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2723, col: 20, offset: 86646},
+																																					pos:        position{line: 2733, col: 20, offset: 86962},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37889,18 +37909,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2706, col: 31, offset: 86201},
+																																	pos:        position{line: 2716, col: 31, offset: 86517},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2706, col: 35, offset: 86205},
+																																	pos: position{line: 2716, col: 35, offset: 86521},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2963, col: 10, offset: 93854},
+																																		pos: position{line: 2973, col: 10, offset: 94170},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2963, col: 10, offset: 93854},
+																																			pos:        position{line: 2973, col: 10, offset: 94170},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37909,27 +37929,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2706, col: 42, offset: 86212},
+																																	pos: position{line: 2716, col: 42, offset: 86528},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2972, col: 12, offset: 94025},
+																																		pos: position{line: 2982, col: 12, offset: 94341},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2972, col: 13, offset: 94026},
+																																			pos: position{line: 2982, col: 13, offset: 94342},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 13, offset: 94026},
+																																					pos:        position{line: 2982, col: 13, offset: 94342},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 20, offset: 94033},
+																																					pos:        position{line: 2982, col: 20, offset: 94349},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2972, col: 29, offset: 94042},
+																																					pos:        position{line: 2982, col: 29, offset: 94358},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37939,37 +37959,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2706, col: 51, offset: 86221},
+																																	pos:   position{line: 2716, col: 51, offset: 86537},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2712, col: 5, offset: 86380},
+																																		pos: position{line: 2722, col: 5, offset: 86696},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2713, col: 9, offset: 86390},
+																																			pos: position{line: 2723, col: 9, offset: 86706},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2713, col: 9, offset: 86390},
+																																				pos: position{line: 2723, col: 9, offset: 86706},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2713, col: 9, offset: 86390},
+																																						pos: position{line: 2723, col: 9, offset: 86706},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2669, col: 22, offset: 85334},
+																																							pos: position{line: 2679, col: 22, offset: 85650},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2665, col: 19, offset: 85254},
+																																									pos: position{line: 2675, col: 19, offset: 85570},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2665, col: 19, offset: 85254},
+																																											pos:        position{line: 2675, col: 19, offset: 85570},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2665, col: 26, offset: 85261},
+																																											pos: position{line: 2675, col: 26, offset: 85577},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2963, col: 10, offset: 93854},
+																																												pos: position{line: 2973, col: 10, offset: 94170},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2963, col: 10, offset: 93854},
+																																													pos:        position{line: 2973, col: 10, offset: 94170},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37978,28 +37998,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2985, col: 8, offset: 94252},
+																																											pos: position{line: 2995, col: 8, offset: 94568},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2972, col: 12, offset: 94025},
+																																													pos: position{line: 2982, col: 12, offset: 94341},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2972, col: 13, offset: 94026},
+																																														pos: position{line: 2982, col: 13, offset: 94342},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 13, offset: 94026},
+																																																pos:        position{line: 2982, col: 13, offset: 94342},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 20, offset: 94033},
+																																																pos:        position{line: 2982, col: 20, offset: 94349},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2972, col: 29, offset: 94042},
+																																																pos:        position{line: 2982, col: 29, offset: 94358},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -38008,9 +38028,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2982, col: 8, offset: 94202},
+																																													pos: position{line: 2992, col: 8, offset: 94518},
 																																													expr: &anyMatcher{
-																																														line: 2982, col: 9, offset: 94203,
+																																														line: 2992, col: 9, offset: 94519,
 																																													},
 																																												},
 																																											},
@@ -38018,16 +38038,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94202},
+																																									pos: position{line: 2992, col: 8, offset: 94518},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94203,
+																																										line: 2992, col: 9, offset: 94519,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2714, col: 9, offset: 86417},
+																																						pos: position{line: 2724, col: 9, offset: 86733},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -38035,18 +38055,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2980, col: 11, offset: 94188},
+																																										pos: position{line: 2990, col: 11, offset: 94504},
 																																										expr: &anyMatcher{
-																																											line: 2980, col: 13, offset: 94190,
+																																											line: 2990, col: 13, offset: 94506,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2963, col: 10, offset: 93854},
+																																											pos: position{line: 2973, col: 10, offset: 94170},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2963, col: 10, offset: 93854},
+																																												pos:        position{line: 2973, col: 10, offset: 94170},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -38055,28 +38075,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2985, col: 8, offset: 94252},
+																																										pos: position{line: 2995, col: 8, offset: 94568},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2972, col: 12, offset: 94025},
+																																												pos: position{line: 2982, col: 12, offset: 94341},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2972, col: 13, offset: 94026},
+																																													pos: position{line: 2982, col: 13, offset: 94342},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 13, offset: 94026},
+																																															pos:        position{line: 2982, col: 13, offset: 94342},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 20, offset: 94033},
+																																															pos:        position{line: 2982, col: 20, offset: 94349},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2972, col: 29, offset: 94042},
+																																															pos:        position{line: 2982, col: 29, offset: 94358},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -38085,9 +38105,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2982, col: 8, offset: 94202},
+																																												pos: position{line: 2992, col: 8, offset: 94518},
 																																												expr: &anyMatcher{
-																																													line: 2982, col: 9, offset: 94203,
+																																													line: 2992, col: 9, offset: 94519,
 																																												},
 																																											},
 																																										},
@@ -38097,22 +38117,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2715, col: 9, offset: 86436},
+																																						pos: position{line: 2725, col: 9, offset: 86752},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2715, col: 11, offset: 86438},
+																																							pos: position{line: 2725, col: 11, offset: 86754},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2715, col: 11, offset: 86438},
+																																									pos:   position{line: 2725, col: 11, offset: 86754},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2715, col: 18, offset: 86445},
+																																										pos: position{line: 2725, col: 18, offset: 86761},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2723, col: 20, offset: 86646},
+																																											pos: position{line: 2733, col: 20, offset: 86962},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2723, col: 20, offset: 86646},
+																																												pos: position{line: 2733, col: 20, offset: 86962},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2723, col: 20, offset: 86646},
+																																													pos:        position{line: 2733, col: 20, offset: 86962},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -38123,7 +38143,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2715, col: 37, offset: 86464},
+																																									pos:        position{line: 2725, col: 37, offset: 86780},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -38132,15 +38152,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2716, col: 9, offset: 86477},
+																																						pos:   position{line: 2726, col: 9, offset: 86793},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2716, col: 18, offset: 86486},
+																																							pos: position{line: 2726, col: 18, offset: 86802},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2716, col: 18, offset: 86486},
+																																								pos: position{line: 2726, col: 18, offset: 86802},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2716, col: 18, offset: 86486},
+																																									pos:        position{line: 2726, col: 18, offset: 86802},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -38150,30 +38170,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2718, col: 12, offset: 86548},
+																																						pos: position{line: 2728, col: 12, offset: 86864},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2985, col: 8, offset: 94252},
+																																							pos: position{line: 2995, col: 8, offset: 94568},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2972, col: 12, offset: 94025},
+																																									pos: position{line: 2982, col: 12, offset: 94341},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2972, col: 13, offset: 94026},
+																																										pos: position{line: 2982, col: 13, offset: 94342},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 13, offset: 94026},
+																																												pos:        position{line: 2982, col: 13, offset: 94342},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 20, offset: 94033},
+																																												pos:        position{line: 2982, col: 20, offset: 94349},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2972, col: 29, offset: 94042},
+																																												pos:        position{line: 2982, col: 29, offset: 94358},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38182,9 +38202,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2982, col: 8, offset: 94202},
+																																									pos: position{line: 2992, col: 8, offset: 94518},
 																																									expr: &anyMatcher{
-																																										line: 2982, col: 9, offset: 94203,
+																																										line: 2992, col: 9, offset: 94519,
 																																									},
 																																								},
 																																							},
@@ -38212,18 +38232,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2980, col: 11, offset: 94188},
+																										pos: position{line: 2990, col: 11, offset: 94504},
 																										expr: &anyMatcher{
-																											line: 2980, col: 13, offset: 94190,
+																											line: 2990, col: 13, offset: 94506,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2963, col: 10, offset: 93854},
+																											pos: position{line: 2973, col: 10, offset: 94170},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2963, col: 10, offset: 93854},
+																												pos:        position{line: 2973, col: 10, offset: 94170},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38232,28 +38252,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2985, col: 8, offset: 94252},
+																										pos: position{line: 2995, col: 8, offset: 94568},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2972, col: 12, offset: 94025},
+																												pos: position{line: 2982, col: 12, offset: 94341},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2972, col: 13, offset: 94026},
+																													pos: position{line: 2982, col: 13, offset: 94342},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 13, offset: 94026},
+																															pos:        position{line: 2982, col: 13, offset: 94342},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 20, offset: 94033},
+																															pos:        position{line: 2982, col: 20, offset: 94349},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2972, col: 29, offset: 94042},
+																															pos:        position{line: 2982, col: 29, offset: 94358},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38262,9 +38282,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2982, col: 8, offset: 94202},
+																												pos: position{line: 2992, col: 8, offset: 94518},
 																												expr: &anyMatcher{
-																													line: 2982, col: 9, offset: 94203,
+																													line: 2992, col: 9, offset: 94519,
 																												},
 																											},
 																										},
@@ -38283,24 +38303,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2669, col: 22, offset: 85334},
+													pos: position{line: 2679, col: 22, offset: 85650},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85254},
+															pos: position{line: 2675, col: 19, offset: 85570},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85254},
+																	pos:        position{line: 2675, col: 19, offset: 85570},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85261},
+																	pos: position{line: 2675, col: 26, offset: 85577},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38309,28 +38329,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38339,9 +38359,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -38349,9 +38369,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -38360,36 +38380,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 22, offset: 81497},
+										pos: position{line: 2540, col: 22, offset: 81813},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 22, offset: 81497},
+											pos: position{line: 2540, col: 22, offset: 81813},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2535, col: 31, offset: 81718},
+													pos:        position{line: 2545, col: 31, offset: 82034},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2535, col: 36, offset: 81723},
+													pos: position{line: 2545, col: 36, offset: 82039},
 													expr: &litMatcher{
-														pos:        position{line: 2535, col: 37, offset: 81724},
+														pos:        position{line: 2545, col: 37, offset: 82040},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 49, offset: 81524},
+													pos:   position{line: 2540, col: 49, offset: 81840},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2882, col: 13, offset: 91541},
+														pos: position{line: 2892, col: 13, offset: 91857},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2882, col: 13, offset: 91541},
+															pos: position{line: 2892, col: 13, offset: 91857},
 															expr: &charClassMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91541},
+																pos:        position{line: 2892, col: 13, offset: 91857},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38399,28 +38419,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2985, col: 8, offset: 94252},
+													pos: position{line: 2995, col: 8, offset: 94568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38429,9 +38449,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2982, col: 8, offset: 94202},
+															pos: position{line: 2992, col: 8, offset: 94518},
 															expr: &anyMatcher{
-																line: 2982, col: 9, offset: 94203,
+																line: 2992, col: 9, offset: 94519,
 															},
 														},
 													},
@@ -38440,51 +38460,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1604, col: 5, offset: 51718},
+										pos: position{line: 1614, col: 5, offset: 52034},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1604, col: 5, offset: 51718},
+											pos: position{line: 1614, col: 5, offset: 52034},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1604, col: 5, offset: 51718},
+													pos:   position{line: 1614, col: 5, offset: 52034},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1604, col: 11, offset: 51724},
+														pos: position{line: 1614, col: 11, offset: 52040},
 														expr: &actionExpr{
-															pos: position{line: 1768, col: 5, offset: 57041},
+															pos: position{line: 1778, col: 5, offset: 57357},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1768, col: 5, offset: 57041},
+																pos: position{line: 1778, col: 5, offset: 57357},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1768, col: 5, offset: 57041},
+																		pos: position{line: 1778, col: 5, offset: 57357},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1771, col: 5, offset: 57104},
+																		pos:   position{line: 1781, col: 5, offset: 57420},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1771, col: 12, offset: 57111},
+																			pos: position{line: 1781, col: 12, offset: 57427},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1771, col: 12, offset: 57111},
+																					pos: position{line: 1781, col: 12, offset: 57427},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &seqExpr{
-																						pos: position{line: 1771, col: 12, offset: 57111},
+																						pos: position{line: 1781, col: 12, offset: 57427},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1771, col: 12, offset: 57111},
+																								pos:        position{line: 1781, col: 12, offset: 57427},
 																								val:        "TIP:",
 																								ignoreCase: false,
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38496,24 +38516,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1773, col: 13, offset: 57173},
+																					pos: position{line: 1783, col: 13, offset: 57489},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &seqExpr{
-																						pos: position{line: 1773, col: 13, offset: 57173},
+																						pos: position{line: 1783, col: 13, offset: 57489},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1773, col: 13, offset: 57173},
+																								pos:        position{line: 1783, col: 13, offset: 57489},
 																								val:        "NOTE:",
 																								ignoreCase: false,
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38525,24 +38545,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1775, col: 13, offset: 57237},
+																					pos: position{line: 1785, col: 13, offset: 57553},
 																					run: (*parser).callonListContinuationElement1604,
 																					expr: &seqExpr{
-																						pos: position{line: 1775, col: 13, offset: 57237},
+																						pos: position{line: 1785, col: 13, offset: 57553},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1775, col: 13, offset: 57237},
+																								pos:        position{line: 1785, col: 13, offset: 57553},
 																								val:        "IMPORTANT:",
 																								ignoreCase: false,
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38554,24 +38574,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1777, col: 13, offset: 57311},
+																					pos: position{line: 1787, col: 13, offset: 57627},
 																					run: (*parser).callonListContinuationElement1610,
 																					expr: &seqExpr{
-																						pos: position{line: 1777, col: 13, offset: 57311},
+																						pos: position{line: 1787, col: 13, offset: 57627},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1777, col: 13, offset: 57311},
+																								pos:        position{line: 1787, col: 13, offset: 57627},
 																								val:        "WARNING:",
 																								ignoreCase: false,
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38583,24 +38603,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1779, col: 13, offset: 57381},
+																					pos: position{line: 1789, col: 13, offset: 57697},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &seqExpr{
-																						pos: position{line: 1779, col: 13, offset: 57381},
+																						pos: position{line: 1789, col: 13, offset: 57697},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1779, col: 13, offset: 57381},
+																								pos:        position{line: 1789, col: 13, offset: 57697},
 																								val:        "CAUTION:",
 																								ignoreCase: false,
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2967, col: 11, offset: 93915},
+																										pos:        position{line: 2977, col: 11, offset: 94231},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38612,17 +38632,17 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1781, col: 13, offset: 57451},
+																					pos: position{line: 1791, col: 13, offset: 57767},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1781, col: 13, offset: 57451},
+																						pos: position{line: 1791, col: 13, offset: 57767},
 																						expr: &actionExpr{
-																							pos: position{line: 2967, col: 11, offset: 93915},
+																							pos: position{line: 2977, col: 11, offset: 94231},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2967, col: 11, offset: 93915},
+																								pos: position{line: 2977, col: 11, offset: 94231},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2967, col: 11, offset: 93915},
+																									pos:        position{line: 2977, col: 11, offset: 94231},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38636,17 +38656,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1783, col: 12, offset: 57531},
+																		pos: position{line: 1793, col: 12, offset: 57847},
 																		expr: &seqExpr{
-																			pos: position{line: 1783, col: 14, offset: 57533},
+																			pos: position{line: 1793, col: 14, offset: 57849},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1783, col: 14, offset: 57533},
+																					pos: position{line: 1793, col: 14, offset: 57849},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38655,28 +38675,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38685,9 +38705,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -38701,16 +38721,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1605, col: 5, offset: 51747},
+													pos:   position{line: 1615, col: 5, offset: 52063},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1547, col: 5, offset: 49939},
+														pos: position{line: 1557, col: 5, offset: 50255},
 														run: (*parser).callonListContinuationElement1641,
 														expr: &seqExpr{
-															pos: position{line: 1547, col: 5, offset: 49939},
+															pos: position{line: 1557, col: 5, offset: 50255},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1547, col: 5, offset: 49939},
+																	pos: position{line: 1557, col: 5, offset: 50255},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1644,
@@ -38718,18 +38738,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2980, col: 11, offset: 94188},
+																					pos: position{line: 2990, col: 11, offset: 94504},
 																					expr: &anyMatcher{
-																						line: 2980, col: 13, offset: 94190,
+																						line: 2990, col: 13, offset: 94506,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38738,28 +38758,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2985, col: 8, offset: 94252},
+																					pos: position{line: 2995, col: 8, offset: 94568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38768,9 +38788,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2982, col: 8, offset: 94202},
+																							pos: position{line: 2992, col: 8, offset: 94518},
 																							expr: &anyMatcher{
-																								line: 2982, col: 9, offset: 94203,
+																								line: 2992, col: 9, offset: 94519,
 																							},
 																						},
 																					},
@@ -38780,23 +38800,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1548, col: 5, offset: 49954},
+																	pos: position{line: 1558, col: 5, offset: 50270},
 																	expr: &seqExpr{
-																		pos: position{line: 1578, col: 27, offset: 50938},
+																		pos: position{line: 1588, col: 27, offset: 51254},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1578, col: 27, offset: 50938},
+																				pos:        position{line: 1588, col: 27, offset: 51254},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1578, col: 31, offset: 50942},
+																				pos: position{line: 1588, col: 31, offset: 51258},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38805,25 +38825,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38835,20 +38855,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1549, col: 5, offset: 49982},
+																	pos: position{line: 1559, col: 5, offset: 50298},
 																	expr: &actionExpr{
-																		pos: position{line: 1620, col: 5, offset: 52157},
+																		pos: position{line: 1630, col: 5, offset: 52473},
 																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
-																			pos: position{line: 1620, col: 5, offset: 52157},
+																			pos: position{line: 1630, col: 5, offset: 52473},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1620, col: 5, offset: 52157},
+																					pos: position{line: 1630, col: 5, offset: 52473},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38857,27 +38877,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1620, col: 12, offset: 52164},
+																					pos:   position{line: 1630, col: 12, offset: 52480},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1622, col: 9, offset: 52227},
+																						pos: position{line: 1632, col: 9, offset: 52543},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1622, col: 9, offset: 52227},
+																								pos: position{line: 1632, col: 9, offset: 52543},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 9, offset: 52227},
+																									pos: position{line: 1632, col: 9, offset: 52543},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1622, col: 9, offset: 52227},
+																											pos:   position{line: 1632, col: 9, offset: 52543},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1622, col: 16, offset: 52234},
+																												pos: position{line: 1632, col: 16, offset: 52550},
 																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1622, col: 16, offset: 52234},
+																													pos: position{line: 1632, col: 16, offset: 52550},
 																													expr: &litMatcher{
-																														pos:        position{line: 1622, col: 17, offset: 52235},
+																														pos:        position{line: 1632, col: 17, offset: 52551},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38886,22 +38906,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1626, col: 9, offset: 52335},
+																											pos: position{line: 1636, col: 9, offset: 52651},
 																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1645, col: 11, offset: 53052},
+																								pos: position{line: 1655, col: 11, offset: 53368},
 																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
-																									pos: position{line: 1645, col: 11, offset: 53052},
+																									pos: position{line: 1655, col: 11, offset: 53368},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1645, col: 11, offset: 53052},
+																											pos: position{line: 1655, col: 11, offset: 53368},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1645, col: 12, offset: 53053},
+																												pos:        position{line: 1655, col: 12, offset: 53369},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38909,7 +38929,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1645, col: 20, offset: 53061},
+																											pos:        position{line: 1655, col: 20, offset: 53377},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38918,20 +38938,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1647, col: 13, offset: 53178},
+																								pos: position{line: 1657, col: 13, offset: 53494},
 																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
-																									pos: position{line: 1647, col: 13, offset: 53178},
+																									pos: position{line: 1657, col: 13, offset: 53494},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1647, col: 14, offset: 53179},
+																											pos:        position{line: 1657, col: 14, offset: 53495},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1647, col: 21, offset: 53186},
+																											pos:        position{line: 1657, col: 21, offset: 53502},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38940,20 +38960,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1649, col: 13, offset: 53306},
+																								pos: position{line: 1659, col: 13, offset: 53622},
 																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
-																									pos: position{line: 1649, col: 13, offset: 53306},
+																									pos: position{line: 1659, col: 13, offset: 53622},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1649, col: 14, offset: 53307},
+																											pos:        position{line: 1659, col: 14, offset: 53623},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1649, col: 21, offset: 53314},
+																											pos:        position{line: 1659, col: 21, offset: 53630},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38962,15 +38982,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1651, col: 13, offset: 53434},
+																								pos: position{line: 1661, col: 13, offset: 53750},
 																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1651, col: 13, offset: 53434},
+																									pos: position{line: 1661, col: 13, offset: 53750},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1651, col: 13, offset: 53434},
+																											pos: position{line: 1661, col: 13, offset: 53750},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1651, col: 14, offset: 53435},
+																												pos:        position{line: 1661, col: 14, offset: 53751},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38978,7 +38998,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1651, col: 26, offset: 53447},
+																											pos:        position{line: 1661, col: 26, offset: 53763},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38987,15 +39007,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1653, col: 13, offset: 53567},
+																								pos: position{line: 1663, col: 13, offset: 53883},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1653, col: 13, offset: 53567},
+																									pos: position{line: 1663, col: 13, offset: 53883},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1653, col: 13, offset: 53567},
+																											pos: position{line: 1663, col: 13, offset: 53883},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1653, col: 14, offset: 53568},
+																												pos:        position{line: 1663, col: 14, offset: 53884},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -39003,7 +39023,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1653, col: 26, offset: 53580},
+																											pos:        position{line: 1663, col: 26, offset: 53896},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -39015,12 +39035,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93915},
+																					pos: position{line: 2977, col: 11, offset: 94231},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93915},
+																						pos: position{line: 2977, col: 11, offset: 94231},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93915},
+																							pos:        position{line: 2977, col: 11, offset: 94231},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39033,20 +39053,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1550, col: 5, offset: 50012},
+																	pos: position{line: 1560, col: 5, offset: 50328},
 																	expr: &actionExpr{
-																		pos: position{line: 1670, col: 5, offset: 54119},
+																		pos: position{line: 1680, col: 5, offset: 54435},
 																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
-																			pos: position{line: 1670, col: 5, offset: 54119},
+																			pos: position{line: 1680, col: 5, offset: 54435},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54119},
+																					pos: position{line: 1680, col: 5, offset: 54435},
 																					expr: &actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39055,24 +39075,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1671, col: 5, offset: 54131},
+																					pos:   position{line: 1681, col: 5, offset: 54447},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1672, col: 9, offset: 54147},
+																						pos: position{line: 1682, col: 9, offset: 54463},
 																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
-																							pos: position{line: 1672, col: 10, offset: 54148},
+																							pos: position{line: 1682, col: 10, offset: 54464},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1672, col: 11, offset: 54149},
+																									pos:        position{line: 1682, col: 11, offset: 54465},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1672, col: 18, offset: 54156},
+																									pos: position{line: 1682, col: 18, offset: 54472},
 																									expr: &litMatcher{
-																										pos:        position{line: 1672, col: 19, offset: 54157},
+																										pos:        position{line: 1682, col: 19, offset: 54473},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -39083,16 +39103,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1675, col: 7, offset: 54247},
+																					pos: position{line: 1685, col: 7, offset: 54563},
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93915},
+																					pos: position{line: 2977, col: 11, offset: 94231},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93915},
+																						pos: position{line: 2977, col: 11, offset: 94231},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93915},
+																							pos:        position{line: 2977, col: 11, offset: 94231},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39105,29 +39125,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1551, col: 5, offset: 50044},
+																	pos: position{line: 1561, col: 5, offset: 50360},
 																	expr: &actionExpr{
-																		pos: position{line: 1759, col: 5, offset: 56656},
+																		pos: position{line: 1769, col: 5, offset: 56972},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1759, col: 5, offset: 56656},
+																			pos: position{line: 1769, col: 5, offset: 56972},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1759, col: 5, offset: 56656},
+																					pos:        position{line: 1769, col: 5, offset: 56972},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1759, col: 9, offset: 56660},
+																					pos:   position{line: 1769, col: 9, offset: 56976},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1759, col: 14, offset: 56665},
+																						pos: position{line: 1769, col: 14, offset: 56981},
 																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1759, col: 14, offset: 56665},
+																							pos: position{line: 1769, col: 14, offset: 56981},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1759, col: 14, offset: 56665},
+																								pos:        position{line: 1769, col: 14, offset: 56981},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -39137,18 +39157,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1759, col: 62, offset: 56713},
+																					pos:        position{line: 1769, col: 62, offset: 57029},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2967, col: 11, offset: 93915},
+																					pos: position{line: 2977, col: 11, offset: 94231},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2967, col: 11, offset: 93915},
+																						pos: position{line: 2977, col: 11, offset: 94231},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2967, col: 11, offset: 93915},
+																							pos:        position{line: 2977, col: 11, offset: 94231},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39161,36 +39181,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1552, col: 5, offset: 50074},
+																	pos: position{line: 1562, col: 5, offset: 50390},
 																	expr: &seqExpr{
-																		pos: position{line: 1552, col: 7, offset: 50076},
+																		pos: position{line: 1562, col: 7, offset: 50392},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1705, col: 5, offset: 55138},
+																				pos: position{line: 1715, col: 5, offset: 55454},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1705, col: 5, offset: 55138},
+																					pos: position{line: 1715, col: 5, offset: 55454},
 																					expr: &seqExpr{
-																						pos: position{line: 1705, col: 6, offset: 55139},
+																						pos: position{line: 1715, col: 6, offset: 55455},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1705, col: 6, offset: 55139},
+																								pos: position{line: 1715, col: 6, offset: 55455},
 																								expr: &actionExpr{
-																									pos: position{line: 1710, col: 5, offset: 55289},
+																									pos: position{line: 1720, col: 5, offset: 55605},
 																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
-																										pos: position{line: 1710, col: 5, offset: 55289},
+																										pos: position{line: 1720, col: 5, offset: 55605},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1710, col: 5, offset: 55289},
+																												pos:   position{line: 1720, col: 5, offset: 55605},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1710, col: 16, offset: 55300},
+																													pos: position{line: 1720, col: 16, offset: 55616},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1710, col: 16, offset: 55300},
+																														pos: position{line: 1720, col: 16, offset: 55616},
 																														expr: &litMatcher{
-																															pos:        position{line: 1710, col: 17, offset: 55301},
+																															pos:        position{line: 1720, col: 17, offset: 55617},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -39199,7 +39219,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1713, col: 5, offset: 55358},
+																												pos: position{line: 1723, col: 5, offset: 55674},
 																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
@@ -39207,30 +39227,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1705, col: 35, offset: 55168},
+																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2985, col: 8, offset: 94252},
+																									pos: position{line: 2995, col: 8, offset: 94568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2972, col: 12, offset: 94025},
+																											pos: position{line: 2982, col: 12, offset: 94341},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2972, col: 13, offset: 94026},
+																												pos: position{line: 2982, col: 13, offset: 94342},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 13, offset: 94026},
+																														pos:        position{line: 2982, col: 13, offset: 94342},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 20, offset: 94033},
+																														pos:        position{line: 2982, col: 20, offset: 94349},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2972, col: 29, offset: 94042},
+																														pos:        position{line: 2982, col: 29, offset: 94358},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39239,37 +39259,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2982, col: 8, offset: 94202},
+																											pos: position{line: 2992, col: 8, offset: 94518},
 																											expr: &anyMatcher{
-																												line: 2982, col: 9, offset: 94203,
+																												line: 2992, col: 9, offset: 94519,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1705, col: 40, offset: 55173,
+																								line: 1715, col: 40, offset: 55489,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1710, col: 5, offset: 55289},
+																				pos: position{line: 1720, col: 5, offset: 55605},
 																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
-																					pos: position{line: 1710, col: 5, offset: 55289},
+																					pos: position{line: 1720, col: 5, offset: 55605},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1710, col: 5, offset: 55289},
+																							pos:   position{line: 1720, col: 5, offset: 55605},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1710, col: 16, offset: 55300},
+																								pos: position{line: 1720, col: 16, offset: 55616},
 																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1710, col: 16, offset: 55300},
+																									pos: position{line: 1720, col: 16, offset: 55616},
 																									expr: &litMatcher{
-																										pos:        position{line: 1710, col: 17, offset: 55301},
+																										pos:        position{line: 1720, col: 17, offset: 55617},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39278,20 +39298,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1713, col: 5, offset: 55358},
+																							pos: position{line: 1723, col: 5, offset: 55674},
 																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1552, col: 59, offset: 50128},
+																				pos: position{line: 1562, col: 59, offset: 50444},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2963, col: 10, offset: 93854},
+																						pos: position{line: 2973, col: 10, offset: 94170},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2963, col: 10, offset: 93854},
+																							pos:        position{line: 2973, col: 10, offset: 94170},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39299,25 +39319,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2972, col: 12, offset: 94025},
+																						pos: position{line: 2982, col: 12, offset: 94341},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2972, col: 13, offset: 94026},
+																							pos: position{line: 2982, col: 13, offset: 94342},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 13, offset: 94026},
+																									pos:        position{line: 2982, col: 13, offset: 94342},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 20, offset: 94033},
+																									pos:        position{line: 2982, col: 20, offset: 94349},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2972, col: 29, offset: 94042},
+																									pos:        position{line: 2982, col: 29, offset: 94358},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39326,9 +39346,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2982, col: 8, offset: 94202},
+																						pos: position{line: 2992, col: 8, offset: 94518},
 																						expr: &anyMatcher{
-																							line: 2982, col: 9, offset: 94203,
+																							line: 2992, col: 9, offset: 94519,
 																						},
 																					},
 																				},
@@ -39337,9 +39357,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1553, col: 5, offset: 50146},
+																	pos: position{line: 1563, col: 5, offset: 50462},
 																	expr: &choiceExpr{
-																		pos: position{line: 1553, col: 7, offset: 50148},
+																		pos: position{line: 1563, col: 7, offset: 50464},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -39350,7 +39370,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2817, col: 13, offset: 89802},
+																								pos:        position{line: 2827, col: 13, offset: 90118},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39400,10 +39420,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39412,28 +39432,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39442,9 +39462,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39489,10 +39509,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39501,28 +39521,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39531,9 +39551,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39574,10 +39594,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39586,28 +39606,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39616,9 +39636,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39663,10 +39683,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39675,28 +39695,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39705,9 +39725,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39752,10 +39772,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39764,28 +39784,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39794,9 +39814,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39841,10 +39861,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39853,28 +39873,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39883,9 +39903,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -39930,10 +39950,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39942,28 +39962,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39972,9 +39992,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -40019,10 +40039,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40031,28 +40051,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40061,9 +40081,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -40108,10 +40128,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2963, col: 10, offset: 93854},
+																														pos: position{line: 2973, col: 10, offset: 94170},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2963, col: 10, offset: 93854},
+																															pos:        position{line: 2973, col: 10, offset: 94170},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40120,28 +40140,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2985, col: 8, offset: 94252},
+																													pos: position{line: 2995, col: 8, offset: 94568},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2972, col: 12, offset: 94025},
+																															pos: position{line: 2982, col: 12, offset: 94341},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2972, col: 13, offset: 94026},
+																																pos: position{line: 2982, col: 13, offset: 94342},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 13, offset: 94026},
+																																		pos:        position{line: 2982, col: 13, offset: 94342},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 20, offset: 94033},
+																																		pos:        position{line: 2982, col: 20, offset: 94349},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2972, col: 29, offset: 94042},
+																																		pos:        position{line: 2982, col: 29, offset: 94358},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40150,9 +40170,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2982, col: 8, offset: 94202},
+																															pos: position{line: 2992, col: 8, offset: 94518},
 																															expr: &anyMatcher{
-																																line: 2982, col: 9, offset: 94203,
+																																line: 2992, col: 9, offset: 94519,
 																															},
 																														},
 																													},
@@ -40189,10 +40209,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2963, col: 10, offset: 93854},
+																								pos: position{line: 2973, col: 10, offset: 94170},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2963, col: 10, offset: 93854},
+																									pos:        position{line: 2973, col: 10, offset: 94170},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40201,28 +40221,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2985, col: 8, offset: 94252},
+																							pos: position{line: 2995, col: 8, offset: 94568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2972, col: 12, offset: 94025},
+																									pos: position{line: 2982, col: 12, offset: 94341},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2972, col: 13, offset: 94026},
+																										pos: position{line: 2982, col: 13, offset: 94342},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 13, offset: 94026},
+																												pos:        position{line: 2982, col: 13, offset: 94342},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 20, offset: 94033},
+																												pos:        position{line: 2982, col: 20, offset: 94349},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2972, col: 29, offset: 94042},
+																												pos:        position{line: 2982, col: 29, offset: 94358},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40231,9 +40251,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2982, col: 8, offset: 94202},
+																									pos: position{line: 2992, col: 8, offset: 94518},
 																									expr: &anyMatcher{
-																										line: 2982, col: 9, offset: 94203,
+																										line: 2992, col: 9, offset: 94519,
 																									},
 																								},
 																							},
@@ -40242,21 +40262,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2665, col: 19, offset: 85254},
+																				pos: position{line: 2675, col: 19, offset: 85570},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2665, col: 19, offset: 85254},
+																						pos:        position{line: 2675, col: 19, offset: 85570},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2665, col: 26, offset: 85261},
+																						pos: position{line: 2675, col: 26, offset: 85577},
 																						expr: &actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40265,28 +40285,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2985, col: 8, offset: 94252},
+																						pos: position{line: 2995, col: 8, offset: 94568},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2972, col: 12, offset: 94025},
+																								pos: position{line: 2982, col: 12, offset: 94341},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2972, col: 13, offset: 94026},
+																									pos: position{line: 2982, col: 13, offset: 94342},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 13, offset: 94026},
+																											pos:        position{line: 2982, col: 13, offset: 94342},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 20, offset: 94033},
+																											pos:        position{line: 2982, col: 20, offset: 94349},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2972, col: 29, offset: 94042},
+																											pos:        position{line: 2982, col: 29, offset: 94358},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40295,9 +40315,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2982, col: 8, offset: 94202},
+																								pos: position{line: 2992, col: 8, offset: 94518},
 																								expr: &anyMatcher{
-																									line: 2982, col: 9, offset: 94203,
+																									line: 2992, col: 9, offset: 94519,
 																								},
 																							},
 																						},
@@ -40308,15 +40328,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1554, col: 5, offset: 50206},
+																	pos:   position{line: 1564, col: 5, offset: 50522},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2886, col: 14, offset: 91608},
+																		pos: position{line: 2896, col: 14, offset: 91924},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2886, col: 14, offset: 91608},
+																			pos: position{line: 2896, col: 14, offset: 91924},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2886, col: 14, offset: 91608},
+																				pos:        position{line: 2896, col: 14, offset: 91924},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40326,28 +40346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40356,9 +40376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -40379,33 +40399,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1743, col: 1, offset: 56150},
+			pos:  position{line: 1753, col: 1, offset: 56466},
 			expr: &actionExpr{
-				pos: position{line: 1745, col: 5, offset: 56228},
+				pos: position{line: 1755, col: 5, offset: 56544},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1745, col: 5, offset: 56228},
+					pos: position{line: 1755, col: 5, offset: 56544},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1745, col: 5, offset: 56228},
+							pos: position{line: 1755, col: 5, offset: 56544},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1748, col: 5, offset: 56295},
+							pos:        position{line: 1758, col: 5, offset: 56611},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 9, offset: 56299},
+							pos:   position{line: 1758, col: 9, offset: 56615},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1748, col: 14, offset: 56304},
+								pos: position{line: 1758, col: 14, offset: 56620},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1748, col: 14, offset: 56304},
+									pos: position{line: 1758, col: 14, offset: 56620},
 									expr: &charClassMatcher{
-										pos:        position{line: 1748, col: 14, offset: 56304},
+										pos:        position{line: 1758, col: 14, offset: 56620},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40415,18 +40435,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1748, col: 62, offset: 56352},
+							pos:        position{line: 1758, col: 62, offset: 56668},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1748, col: 66, offset: 56356},
+							pos: position{line: 1758, col: 66, offset: 56672},
 							expr: &actionExpr{
-								pos: position{line: 2963, col: 10, offset: 93854},
+								pos: position{line: 2973, col: 10, offset: 94170},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2963, col: 10, offset: 93854},
+									pos:        position{line: 2973, col: 10, offset: 94170},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40435,30 +40455,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1748, col: 73, offset: 56363},
+							pos: position{line: 1758, col: 73, offset: 56679},
 							expr: &choiceExpr{
-								pos: position{line: 1748, col: 75, offset: 56365},
+								pos: position{line: 1758, col: 75, offset: 56681},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94025},
+										pos: position{line: 2982, col: 12, offset: 94341},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94026},
+											pos: position{line: 2982, col: 13, offset: 94342},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94026},
+													pos:        position{line: 2982, col: 13, offset: 94342},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94033},
+													pos:        position{line: 2982, col: 20, offset: 94349},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94042},
+													pos:        position{line: 2982, col: 29, offset: 94358},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40467,13 +40487,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2982, col: 8, offset: 94202},
+										pos: position{line: 2992, col: 8, offset: 94518},
 										expr: &anyMatcher{
-											line: 2982, col: 9, offset: 94203,
+											line: 2992, col: 9, offset: 94519,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1748, col: 81, offset: 56371},
+										pos:  position{line: 1758, col: 81, offset: 56687},
 										name: "Callout",
 									},
 								},
@@ -40485,44 +40505,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1787, col: 1, offset: 57588},
+			pos:  position{line: 1797, col: 1, offset: 57904},
 			expr: &actionExpr{
-				pos: position{line: 1789, col: 5, offset: 57662},
+				pos: position{line: 1799, col: 5, offset: 57978},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1789, col: 5, offset: 57662},
+					pos: position{line: 1799, col: 5, offset: 57978},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1789, col: 5, offset: 57662},
+							pos: position{line: 1799, col: 5, offset: 57978},
 							expr: &seqExpr{
-								pos: position{line: 1789, col: 7, offset: 57664},
+								pos: position{line: 1799, col: 7, offset: 57980},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2817, col: 13, offset: 89802},
+										pos:        position{line: 2827, col: 13, offset: 90118},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1789, col: 16, offset: 57673},
+										pos: position{line: 1799, col: 16, offset: 57989},
 										expr: &seqExpr{
-											pos: position{line: 1789, col: 18, offset: 57675},
+											pos: position{line: 1799, col: 18, offset: 57991},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1789, col: 19, offset: 57676},
+													pos:        position{line: 1799, col: 19, offset: 57992},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2967, col: 11, offset: 93915},
+													pos: position{line: 2977, col: 11, offset: 94231},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2967, col: 11, offset: 93915},
+														pos: position{line: 2977, col: 11, offset: 94231},
 														expr: &charClassMatcher{
-															pos:        position{line: 2967, col: 11, offset: 93915},
+															pos:        position{line: 2977, col: 11, offset: 94231},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40537,45 +40557,45 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1790, col: 5, offset: 57816},
+							pos:   position{line: 1800, col: 5, offset: 58132},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1790, col: 11, offset: 57822},
+								pos: position{line: 1800, col: 11, offset: 58138},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 5, offset: 57041},
+									pos: position{line: 1778, col: 5, offset: 57357},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 5, offset: 57041},
+										pos: position{line: 1778, col: 5, offset: 57357},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1768, col: 5, offset: 57041},
+												pos: position{line: 1778, col: 5, offset: 57357},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1771, col: 5, offset: 57104},
+												pos:   position{line: 1781, col: 5, offset: 57420},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1771, col: 12, offset: 57111},
+													pos: position{line: 1781, col: 12, offset: 57427},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1771, col: 12, offset: 57111},
+															pos: position{line: 1781, col: 12, offset: 57427},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 12, offset: 57111},
+																pos: position{line: 1781, col: 12, offset: 57427},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 12, offset: 57111},
+																		pos:        position{line: 1781, col: 12, offset: 57427},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40587,24 +40607,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57173},
+															pos: position{line: 1783, col: 13, offset: 57489},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57173},
+																pos: position{line: 1783, col: 13, offset: 57489},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57173},
+																		pos:        position{line: 1783, col: 13, offset: 57489},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40616,24 +40636,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57237},
+															pos: position{line: 1785, col: 13, offset: 57553},
 															run: (*parser).callonShortcutParagraph31,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57237},
+																pos: position{line: 1785, col: 13, offset: 57553},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57237},
+																		pos:        position{line: 1785, col: 13, offset: 57553},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40645,24 +40665,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57311},
+															pos: position{line: 1787, col: 13, offset: 57627},
 															run: (*parser).callonShortcutParagraph37,
 															expr: &seqExpr{
-																pos: position{line: 1777, col: 13, offset: 57311},
+																pos: position{line: 1787, col: 13, offset: 57627},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1777, col: 13, offset: 57311},
+																		pos:        position{line: 1787, col: 13, offset: 57627},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40674,24 +40694,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1779, col: 13, offset: 57381},
+															pos: position{line: 1789, col: 13, offset: 57697},
 															run: (*parser).callonShortcutParagraph43,
 															expr: &seqExpr{
-																pos: position{line: 1779, col: 13, offset: 57381},
+																pos: position{line: 1789, col: 13, offset: 57697},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1779, col: 13, offset: 57381},
+																		pos:        position{line: 1789, col: 13, offset: 57697},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40703,17 +40723,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1781, col: 13, offset: 57451},
+															pos: position{line: 1791, col: 13, offset: 57767},
 															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1781, col: 13, offset: 57451},
+																pos: position{line: 1791, col: 13, offset: 57767},
 																expr: &actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40727,17 +40747,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 12, offset: 57531},
+												pos: position{line: 1793, col: 12, offset: 57847},
 												expr: &seqExpr{
-													pos: position{line: 1783, col: 14, offset: 57533},
+													pos: position{line: 1793, col: 14, offset: 57849},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1783, col: 14, offset: 57533},
+															pos: position{line: 1793, col: 14, offset: 57849},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40746,28 +40766,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94252},
+															pos: position{line: 2995, col: 8, offset: 94568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94025},
+																	pos: position{line: 2982, col: 12, offset: 94341},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94026},
+																		pos: position{line: 2982, col: 13, offset: 94342},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94026},
+																				pos:        position{line: 2982, col: 13, offset: 94342},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94033},
+																				pos:        position{line: 2982, col: 20, offset: 94349},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94042},
+																				pos:        position{line: 2982, col: 29, offset: 94358},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40776,9 +40796,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -40792,24 +40812,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1791, col: 5, offset: 57844},
+							pos:   position{line: 1801, col: 5, offset: 58160},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1828, col: 5, offset: 59055},
+								pos: position{line: 1838, col: 5, offset: 59371},
 								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1828, col: 5, offset: 59055},
+									pos: position{line: 1838, col: 5, offset: 59371},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1828, col: 5, offset: 59055},
+											pos:   position{line: 1838, col: 5, offset: 59371},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 14, offset: 91608},
+												pos: position{line: 2896, col: 14, offset: 91924},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2886, col: 14, offset: 91608},
+													pos: position{line: 2896, col: 14, offset: 91924},
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 14, offset: 91608},
+														pos:        position{line: 2896, col: 14, offset: 91924},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40819,32 +40839,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1829, col: 5, offset: 59079},
+											pos: position{line: 1839, col: 5, offset: 59395},
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2985, col: 8, offset: 94252},
+											pos: position{line: 2995, col: 8, offset: 94568},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2972, col: 12, offset: 94025},
+													pos: position{line: 2982, col: 12, offset: 94341},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2972, col: 13, offset: 94026},
+														pos: position{line: 2982, col: 13, offset: 94342},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2972, col: 13, offset: 94026},
+																pos:        position{line: 2982, col: 13, offset: 94342},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 20, offset: 94033},
+																pos:        position{line: 2982, col: 20, offset: 94349},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 29, offset: 94042},
+																pos:        position{line: 2982, col: 29, offset: 94358},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40853,9 +40873,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -40865,28 +40885,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1792, col: 5, offset: 57878},
+							pos: position{line: 1802, col: 5, offset: 58194},
 							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58208},
+							pos:   position{line: 1809, col: 5, offset: 58524},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1799, col: 16, offset: 58219},
+								pos: position{line: 1809, col: 16, offset: 58535},
 								expr: &actionExpr{
-									pos: position{line: 1800, col: 9, offset: 58229},
+									pos: position{line: 1810, col: 9, offset: 58545},
 									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1800, col: 9, offset: 58229},
+										pos: position{line: 1810, col: 9, offset: 58545},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94188},
+												pos: position{line: 2990, col: 11, offset: 94504},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94190,
+													line: 2990, col: 13, offset: 94506,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1801, col: 9, offset: 58245},
+												pos: position{line: 1811, col: 9, offset: 58561},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph91,
@@ -40894,18 +40914,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94188},
+																pos: position{line: 2990, col: 11, offset: 94504},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94190,
+																	line: 2990, col: 13, offset: 94506,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40914,28 +40934,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40944,9 +40964,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -40956,16 +40976,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1802, col: 9, offset: 58264},
+												pos: position{line: 1812, col: 9, offset: 58580},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1802, col: 10, offset: 58265},
+													pos:  position{line: 1812, col: 10, offset: 58581},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1803, col: 9, offset: 58289},
+												pos: position{line: 1813, col: 9, offset: 58605},
 												expr: &choiceExpr{
-													pos: position{line: 1803, col: 11, offset: 58291},
+													pos: position{line: 1813, col: 11, offset: 58607},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40976,7 +40996,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2817, col: 13, offset: 89802},
+																			pos:        position{line: 2827, col: 13, offset: 90118},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41026,10 +41046,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41038,28 +41058,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41068,9 +41088,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41115,10 +41135,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41127,28 +41147,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41157,9 +41177,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41200,10 +41220,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41212,28 +41232,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41242,9 +41262,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41289,10 +41309,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41301,28 +41321,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41331,9 +41351,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41378,10 +41398,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41390,28 +41410,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41420,9 +41440,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41467,10 +41487,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41479,28 +41499,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41509,9 +41529,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41556,10 +41576,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41568,28 +41588,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41598,9 +41618,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41645,10 +41665,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41657,28 +41677,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41687,9 +41707,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41734,10 +41754,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41746,28 +41766,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41776,9 +41796,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -41815,10 +41835,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41827,28 +41847,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41857,9 +41877,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -41868,21 +41888,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85254},
+															pos: position{line: 2675, col: 19, offset: 85570},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85254},
+																	pos:        position{line: 2675, col: 19, offset: 85570},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85261},
+																	pos: position{line: 2675, col: 26, offset: 85577},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41891,28 +41911,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41921,9 +41941,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -41934,23 +41954,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1804, col: 9, offset: 58353},
+												pos: position{line: 1814, col: 9, offset: 58669},
 												expr: &seqExpr{
-													pos: position{line: 1578, col: 27, offset: 50938},
+													pos: position{line: 1588, col: 27, offset: 51254},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1578, col: 27, offset: 50938},
+															pos:        position{line: 1588, col: 27, offset: 51254},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1578, col: 31, offset: 50942},
+															pos: position{line: 1588, col: 31, offset: 51258},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41959,25 +41979,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -41989,42 +42009,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1805, col: 9, offset: 58385},
+												pos:   position{line: 1815, col: 9, offset: 58701},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1805, col: 15, offset: 58391},
+													pos: position{line: 1815, col: 15, offset: 58707},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81497},
+															pos: position{line: 2540, col: 22, offset: 81813},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81497},
+																pos: position{line: 2540, col: 22, offset: 81813},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81718},
+																		pos:        position{line: 2545, col: 31, offset: 82034},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81723},
+																		pos: position{line: 2545, col: 36, offset: 82039},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81724},
+																			pos:        position{line: 2545, col: 37, offset: 82040},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81524},
+																		pos:   position{line: 2540, col: 49, offset: 81840},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91541},
+																			pos: position{line: 2892, col: 13, offset: 91857},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91541},
+																				pos: position{line: 2892, col: 13, offset: 91857},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91541},
+																					pos:        position{line: 2892, col: 13, offset: 91857},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42034,28 +42054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42064,9 +42084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -42075,21 +42095,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1828, col: 5, offset: 59055},
+															pos: position{line: 1838, col: 5, offset: 59371},
 															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1828, col: 5, offset: 59055},
+																pos: position{line: 1838, col: 5, offset: 59371},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1828, col: 5, offset: 59055},
+																		pos:   position{line: 1838, col: 5, offset: 59371},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91608},
+																			pos: position{line: 2896, col: 14, offset: 91924},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91608},
+																				pos: position{line: 2896, col: 14, offset: 91924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91608},
+																					pos:        position{line: 2896, col: 14, offset: 91924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42099,32 +42119,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1829, col: 5, offset: 59079},
+																		pos: position{line: 1839, col: 5, offset: 59395},
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42133,9 +42153,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -42157,53 +42177,53 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1812, col: 1, offset: 58595},
+			pos:  position{line: 1822, col: 1, offset: 58911},
 			expr: &actionExpr{
-				pos: position{line: 1813, col: 5, offset: 58613},
+				pos: position{line: 1823, col: 5, offset: 58929},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1813, col: 5, offset: 58613},
+					pos: position{line: 1823, col: 5, offset: 58929},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58613},
+							pos:   position{line: 1823, col: 5, offset: 58929},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1813, col: 11, offset: 58619},
+								pos: position{line: 1823, col: 11, offset: 58935},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 5, offset: 57041},
+									pos: position{line: 1778, col: 5, offset: 57357},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 5, offset: 57041},
+										pos: position{line: 1778, col: 5, offset: 57357},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1768, col: 5, offset: 57041},
+												pos: position{line: 1778, col: 5, offset: 57357},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1771, col: 5, offset: 57104},
+												pos:   position{line: 1781, col: 5, offset: 57420},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1771, col: 12, offset: 57111},
+													pos: position{line: 1781, col: 12, offset: 57427},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1771, col: 12, offset: 57111},
+															pos: position{line: 1781, col: 12, offset: 57427},
 															run: (*parser).callonParagraph10,
 															expr: &seqExpr{
-																pos: position{line: 1771, col: 12, offset: 57111},
+																pos: position{line: 1781, col: 12, offset: 57427},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1771, col: 12, offset: 57111},
+																		pos:        position{line: 1781, col: 12, offset: 57427},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42215,24 +42235,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1773, col: 13, offset: 57173},
+															pos: position{line: 1783, col: 13, offset: 57489},
 															run: (*parser).callonParagraph16,
 															expr: &seqExpr{
-																pos: position{line: 1773, col: 13, offset: 57173},
+																pos: position{line: 1783, col: 13, offset: 57489},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1773, col: 13, offset: 57173},
+																		pos:        position{line: 1783, col: 13, offset: 57489},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42244,24 +42264,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1775, col: 13, offset: 57237},
+															pos: position{line: 1785, col: 13, offset: 57553},
 															run: (*parser).callonParagraph22,
 															expr: &seqExpr{
-																pos: position{line: 1775, col: 13, offset: 57237},
+																pos: position{line: 1785, col: 13, offset: 57553},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1775, col: 13, offset: 57237},
+																		pos:        position{line: 1785, col: 13, offset: 57553},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42273,24 +42293,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1777, col: 13, offset: 57311},
+															pos: position{line: 1787, col: 13, offset: 57627},
 															run: (*parser).callonParagraph28,
 															expr: &seqExpr{
-																pos: position{line: 1777, col: 13, offset: 57311},
+																pos: position{line: 1787, col: 13, offset: 57627},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1777, col: 13, offset: 57311},
+																		pos:        position{line: 1787, col: 13, offset: 57627},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42302,24 +42322,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1779, col: 13, offset: 57381},
+															pos: position{line: 1789, col: 13, offset: 57697},
 															run: (*parser).callonParagraph34,
 															expr: &seqExpr{
-																pos: position{line: 1779, col: 13, offset: 57381},
+																pos: position{line: 1789, col: 13, offset: 57697},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1779, col: 13, offset: 57381},
+																		pos:        position{line: 1789, col: 13, offset: 57697},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2967, col: 11, offset: 93915},
+																			pos: position{line: 2977, col: 11, offset: 94231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2967, col: 11, offset: 93915},
+																				pos:        position{line: 2977, col: 11, offset: 94231},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42331,17 +42351,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1781, col: 13, offset: 57451},
+															pos: position{line: 1791, col: 13, offset: 57767},
 															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1781, col: 13, offset: 57451},
+																pos: position{line: 1791, col: 13, offset: 57767},
 																expr: &actionExpr{
-																	pos: position{line: 2967, col: 11, offset: 93915},
+																	pos: position{line: 2977, col: 11, offset: 94231},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2967, col: 11, offset: 93915},
+																		pos: position{line: 2977, col: 11, offset: 94231},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2967, col: 11, offset: 93915},
+																			pos:        position{line: 2977, col: 11, offset: 94231},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42355,17 +42375,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 12, offset: 57531},
+												pos: position{line: 1793, col: 12, offset: 57847},
 												expr: &seqExpr{
-													pos: position{line: 1783, col: 14, offset: 57533},
+													pos: position{line: 1793, col: 14, offset: 57849},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1783, col: 14, offset: 57533},
+															pos: position{line: 1793, col: 14, offset: 57849},
 															expr: &actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42374,28 +42394,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2985, col: 8, offset: 94252},
+															pos: position{line: 2995, col: 8, offset: 94568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94025},
+																	pos: position{line: 2982, col: 12, offset: 94341},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94026},
+																		pos: position{line: 2982, col: 13, offset: 94342},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94026},
+																				pos:        position{line: 2982, col: 13, offset: 94342},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94033},
+																				pos:        position{line: 2982, col: 20, offset: 94349},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94042},
+																				pos:        position{line: 2982, col: 29, offset: 94358},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42404,9 +42424,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -42420,24 +42440,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58642},
+							pos:   position{line: 1824, col: 5, offset: 58958},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1828, col: 5, offset: 59055},
+								pos: position{line: 1838, col: 5, offset: 59371},
 								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1828, col: 5, offset: 59055},
+									pos: position{line: 1838, col: 5, offset: 59371},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1828, col: 5, offset: 59055},
+											pos:   position{line: 1838, col: 5, offset: 59371},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2886, col: 14, offset: 91608},
+												pos: position{line: 2896, col: 14, offset: 91924},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2886, col: 14, offset: 91608},
+													pos: position{line: 2896, col: 14, offset: 91924},
 													expr: &charClassMatcher{
-														pos:        position{line: 2886, col: 14, offset: 91608},
+														pos:        position{line: 2896, col: 14, offset: 91924},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42447,32 +42467,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1829, col: 5, offset: 59079},
+											pos: position{line: 1839, col: 5, offset: 59395},
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2985, col: 8, offset: 94252},
+											pos: position{line: 2995, col: 8, offset: 94568},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2972, col: 12, offset: 94025},
+													pos: position{line: 2982, col: 12, offset: 94341},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2972, col: 13, offset: 94026},
+														pos: position{line: 2982, col: 13, offset: 94342},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2972, col: 13, offset: 94026},
+																pos:        position{line: 2982, col: 13, offset: 94342},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 20, offset: 94033},
+																pos:        position{line: 2982, col: 20, offset: 94349},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2972, col: 29, offset: 94042},
+																pos:        position{line: 2982, col: 29, offset: 94358},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42481,9 +42501,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2982, col: 8, offset: 94202},
+													pos: position{line: 2992, col: 8, offset: 94518},
 													expr: &anyMatcher{
-														line: 2982, col: 9, offset: 94203,
+														line: 2992, col: 9, offset: 94519,
 													},
 												},
 											},
@@ -42493,24 +42513,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58676},
+							pos:   position{line: 1825, col: 5, offset: 58992},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1815, col: 16, offset: 58687},
+								pos: position{line: 1825, col: 16, offset: 59003},
 								expr: &actionExpr{
-									pos: position{line: 1816, col: 9, offset: 58697},
+									pos: position{line: 1826, col: 9, offset: 59013},
 									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1816, col: 9, offset: 58697},
+										pos: position{line: 1826, col: 9, offset: 59013},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94188},
+												pos: position{line: 2990, col: 11, offset: 94504},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94190,
+													line: 2990, col: 13, offset: 94506,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1817, col: 9, offset: 58712},
+												pos: position{line: 1827, col: 9, offset: 59028},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph81,
@@ -42518,18 +42538,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2980, col: 11, offset: 94188},
+																pos: position{line: 2990, col: 11, offset: 94504},
 																expr: &anyMatcher{
-																	line: 2980, col: 13, offset: 94190,
+																	line: 2990, col: 13, offset: 94506,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42538,28 +42558,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2985, col: 8, offset: 94252},
+																pos: position{line: 2995, col: 8, offset: 94568},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2972, col: 12, offset: 94025},
+																		pos: position{line: 2982, col: 12, offset: 94341},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2972, col: 13, offset: 94026},
+																			pos: position{line: 2982, col: 13, offset: 94342},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 13, offset: 94026},
+																					pos:        position{line: 2982, col: 13, offset: 94342},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 20, offset: 94033},
+																					pos:        position{line: 2982, col: 20, offset: 94349},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2972, col: 29, offset: 94042},
+																					pos:        position{line: 2982, col: 29, offset: 94358},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42568,9 +42588,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2982, col: 8, offset: 94202},
+																		pos: position{line: 2992, col: 8, offset: 94518},
 																		expr: &anyMatcher{
-																			line: 2982, col: 9, offset: 94203,
+																			line: 2992, col: 9, offset: 94519,
 																		},
 																	},
 																},
@@ -42580,16 +42600,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1818, col: 9, offset: 58731},
+												pos: position{line: 1828, col: 9, offset: 59047},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1818, col: 10, offset: 58732},
+													pos:  position{line: 1828, col: 10, offset: 59048},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1819, col: 9, offset: 58756},
+												pos: position{line: 1829, col: 9, offset: 59072},
 												expr: &choiceExpr{
-													pos: position{line: 1819, col: 11, offset: 58758},
+													pos: position{line: 1829, col: 11, offset: 59074},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42600,7 +42620,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2817, col: 13, offset: 89802},
+																			pos:        position{line: 2827, col: 13, offset: 90118},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42650,10 +42670,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42662,28 +42682,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42692,9 +42712,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -42739,10 +42759,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42751,28 +42771,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42781,9 +42801,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -42824,10 +42844,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42836,28 +42856,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42866,9 +42886,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -42913,10 +42933,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42925,28 +42945,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42955,9 +42975,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43002,10 +43022,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43014,28 +43034,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43044,9 +43064,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43091,10 +43111,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43103,28 +43123,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43133,9 +43153,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43180,10 +43200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43192,28 +43212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43222,9 +43242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43269,10 +43289,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43281,28 +43301,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43311,9 +43331,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43358,10 +43378,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2963, col: 10, offset: 93854},
+																									pos: position{line: 2973, col: 10, offset: 94170},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2963, col: 10, offset: 93854},
+																										pos:        position{line: 2973, col: 10, offset: 94170},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43370,28 +43390,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2985, col: 8, offset: 94252},
+																								pos: position{line: 2995, col: 8, offset: 94568},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2972, col: 12, offset: 94025},
+																										pos: position{line: 2982, col: 12, offset: 94341},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2972, col: 13, offset: 94026},
+																											pos: position{line: 2982, col: 13, offset: 94342},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 13, offset: 94026},
+																													pos:        position{line: 2982, col: 13, offset: 94342},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 20, offset: 94033},
+																													pos:        position{line: 2982, col: 20, offset: 94349},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2972, col: 29, offset: 94042},
+																													pos:        position{line: 2982, col: 29, offset: 94358},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43400,9 +43420,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2982, col: 8, offset: 94202},
+																										pos: position{line: 2992, col: 8, offset: 94518},
 																										expr: &anyMatcher{
-																											line: 2982, col: 9, offset: 94203,
+																											line: 2992, col: 9, offset: 94519,
 																										},
 																									},
 																								},
@@ -43439,10 +43459,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43451,28 +43471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43481,9 +43501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -43492,21 +43512,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2665, col: 19, offset: 85254},
+															pos: position{line: 2675, col: 19, offset: 85570},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2665, col: 19, offset: 85254},
+																	pos:        position{line: 2675, col: 19, offset: 85570},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2665, col: 26, offset: 85261},
+																	pos: position{line: 2675, col: 26, offset: 85577},
 																	expr: &actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43515,28 +43535,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43545,9 +43565,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -43558,42 +43578,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1820, col: 9, offset: 58820},
+												pos:   position{line: 1830, col: 9, offset: 59136},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1820, col: 15, offset: 58826},
+													pos: position{line: 1830, col: 15, offset: 59142},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2530, col: 22, offset: 81497},
+															pos: position{line: 2540, col: 22, offset: 81813},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 22, offset: 81497},
+																pos: position{line: 2540, col: 22, offset: 81813},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2535, col: 31, offset: 81718},
+																		pos:        position{line: 2545, col: 31, offset: 82034},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2535, col: 36, offset: 81723},
+																		pos: position{line: 2545, col: 36, offset: 82039},
 																		expr: &litMatcher{
-																			pos:        position{line: 2535, col: 37, offset: 81724},
+																			pos:        position{line: 2545, col: 37, offset: 82040},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 49, offset: 81524},
+																		pos:   position{line: 2540, col: 49, offset: 81840},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2882, col: 13, offset: 91541},
+																			pos: position{line: 2892, col: 13, offset: 91857},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2882, col: 13, offset: 91541},
+																				pos: position{line: 2892, col: 13, offset: 91857},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91541},
+																					pos:        position{line: 2892, col: 13, offset: 91857},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43603,28 +43623,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43633,9 +43653,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -43644,21 +43664,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1828, col: 5, offset: 59055},
+															pos: position{line: 1838, col: 5, offset: 59371},
 															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1828, col: 5, offset: 59055},
+																pos: position{line: 1838, col: 5, offset: 59371},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1828, col: 5, offset: 59055},
+																		pos:   position{line: 1838, col: 5, offset: 59371},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2886, col: 14, offset: 91608},
+																			pos: position{line: 2896, col: 14, offset: 91924},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2886, col: 14, offset: 91608},
+																				pos: position{line: 2896, col: 14, offset: 91924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2886, col: 14, offset: 91608},
+																					pos:        position{line: 2896, col: 14, offset: 91924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43668,32 +43688,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1829, col: 5, offset: 59079},
+																		pos: position{line: 1839, col: 5, offset: 59395},
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2985, col: 8, offset: 94252},
+																		pos: position{line: 2995, col: 8, offset: 94568},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43702,9 +43722,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2982, col: 8, offset: 94202},
+																				pos: position{line: 2992, col: 8, offset: 94518},
 																				expr: &anyMatcher{
-																					line: 2982, col: 9, offset: 94203,
+																					line: 2992, col: 9, offset: 94519,
 																				},
 																			},
 																		},
@@ -43726,16 +43746,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59562},
+			pos:  position{line: 1849, col: 1, offset: 59878},
 			expr: &choiceExpr{
-				pos: position{line: 1839, col: 15, offset: 59576},
+				pos: position{line: 1849, col: 15, offset: 59892},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 15, offset: 59576},
+						pos:  position{line: 1849, col: 15, offset: 59892},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 35, offset: 59596},
+						pos:  position{line: 1849, col: 35, offset: 59912},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43743,65 +43763,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1841, col: 1, offset: 59617},
+			pos:  position{line: 1851, col: 1, offset: 59933},
 			expr: &actionExpr{
-				pos: position{line: 1842, col: 5, offset: 59642},
+				pos: position{line: 1852, col: 5, offset: 59958},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1842, col: 5, offset: 59642},
+					pos: position{line: 1852, col: 5, offset: 59958},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59642},
+							pos:   position{line: 1852, col: 5, offset: 59958},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1842, col: 16, offset: 59653},
+								pos: position{line: 1852, col: 16, offset: 59969},
 								expr: &actionExpr{
-									pos: position{line: 1842, col: 17, offset: 59654},
+									pos: position{line: 1852, col: 17, offset: 59970},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1842, col: 17, offset: 59654},
+										pos:  position{line: 1852, col: 17, offset: 59970},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1845, col: 5, offset: 59722},
+							pos: position{line: 1855, col: 5, offset: 60038},
 							expr: &litMatcher{
-								pos:        position{line: 1845, col: 7, offset: 59724},
+								pos:        position{line: 1855, col: 7, offset: 60040},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1846, col: 5, offset: 59733},
+							pos:   position{line: 1856, col: 5, offset: 60049},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1847, col: 9, offset: 59751},
+								pos: position{line: 1857, col: 9, offset: 60067},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1847, col: 9, offset: 59751},
+										pos:  position{line: 1857, col: 9, offset: 60067},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1848, col: 11, offset: 59778},
+										pos:  position{line: 1858, col: 11, offset: 60094},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1849, col: 11, offset: 59806},
+										pos:  position{line: 1859, col: 11, offset: 60122},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1850, col: 11, offset: 59837},
+										pos:  position{line: 1860, col: 11, offset: 60153},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1851, col: 11, offset: 59865},
+										pos:  position{line: 1861, col: 11, offset: 60181},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1852, col: 11, offset: 59896},
+										pos:  position{line: 1862, col: 11, offset: 60212},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43813,36 +43833,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1857, col: 1, offset: 60016},
+			pos:  position{line: 1867, col: 1, offset: 60332},
 			expr: &actionExpr{
-				pos: position{line: 1858, col: 5, offset: 60058},
+				pos: position{line: 1868, col: 5, offset: 60374},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1858, col: 5, offset: 60058},
+					pos: position{line: 1868, col: 5, offset: 60374},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1858, col: 5, offset: 60058},
+							pos:   position{line: 1868, col: 5, offset: 60374},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1858, col: 16, offset: 60069},
+								pos: position{line: 1868, col: 16, offset: 60385},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1858, col: 17, offset: 60070},
+									pos:  position{line: 1868, col: 17, offset: 60386},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1859, col: 5, offset: 60095},
+							pos:   position{line: 1869, col: 5, offset: 60411},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1859, col: 14, offset: 60104},
+								pos: position{line: 1869, col: 14, offset: 60420},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1859, col: 14, offset: 60104},
+										pos:  position{line: 1869, col: 14, offset: 60420},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1859, col: 33, offset: 60123},
+										pos:  position{line: 1869, col: 33, offset: 60439},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43854,32 +43874,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1867, col: 1, offset: 60354},
+			pos:  position{line: 1877, col: 1, offset: 60670},
 			expr: &choiceExpr{
-				pos: position{line: 1868, col: 5, offset: 60379},
+				pos: position{line: 1878, col: 5, offset: 60695},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 5, offset: 60379},
+						pos:  position{line: 1878, col: 5, offset: 60695},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60406},
+						pos:  position{line: 1879, col: 7, offset: 60722},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60434},
+						pos:  position{line: 1880, col: 7, offset: 60750},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 7, offset: 60466},
+						pos:  position{line: 1881, col: 7, offset: 60782},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1872, col: 7, offset: 60494},
+						pos:  position{line: 1882, col: 7, offset: 60810},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60515},
+						pos:  position{line: 1883, col: 7, offset: 60831},
 						name: "SuperscriptText",
 					},
 				},
@@ -43887,24 +43907,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1875, col: 1, offset: 60533},
+			pos:  position{line: 1885, col: 1, offset: 60849},
 			expr: &choiceExpr{
-				pos: position{line: 1876, col: 5, offset: 60558},
+				pos: position{line: 1886, col: 5, offset: 60874},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1876, col: 5, offset: 60558},
+						pos:  position{line: 1886, col: 5, offset: 60874},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1877, col: 7, offset: 60584},
+						pos:  position{line: 1887, col: 7, offset: 60900},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 7, offset: 60612},
+						pos:  position{line: 1888, col: 7, offset: 60928},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60643},
+						pos:  position{line: 1889, col: 7, offset: 60959},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43912,35 +43932,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1893, col: 1, offset: 60997},
+			pos:  position{line: 1903, col: 1, offset: 61313},
 			expr: &choiceExpr{
-				pos: position{line: 1894, col: 5, offset: 61023},
+				pos: position{line: 1904, col: 5, offset: 61339},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2826, col: 5, offset: 89949},
+						pos: position{line: 2836, col: 5, offset: 90265},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2826, col: 5, offset: 89949},
+							pos: position{line: 2836, col: 5, offset: 90265},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2826, col: 5, offset: 89949},
+									pos: position{line: 2836, col: 5, offset: 90265},
 									expr: &seqExpr{
-										pos: position{line: 2827, col: 9, offset: 89960},
+										pos: position{line: 2837, col: 9, offset: 90276},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2827, col: 9, offset: 89960},
+												pos: position{line: 2837, col: 9, offset: 90276},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2830, col: 9, offset: 90023},
+												pos:   position{line: 2840, col: 9, offset: 90339},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2802, col: 18, offset: 89335},
+													pos: position{line: 2812, col: 18, offset: 89651},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 19, offset: 89336},
+														pos: position{line: 2812, col: 19, offset: 89652},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 19, offset: 89336},
+															pos:        position{line: 2812, col: 19, offset: 89652},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43951,28 +43971,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2830, col: 30, offset: 90044},
+												pos:        position{line: 2840, col: 30, offset: 90360},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2831, col: 9, offset: 90131},
+												pos: position{line: 2841, col: 9, offset: 90447},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2835, col: 5, offset: 90243},
+									pos:   position{line: 2845, col: 5, offset: 90559},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 11, offset: 90249},
+										pos: position{line: 2845, col: 11, offset: 90565},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2835, col: 11, offset: 90249},
+											pos: position{line: 2845, col: 11, offset: 90565},
 											expr: &charClassMatcher{
-												pos:        position{line: 2835, col: 11, offset: 90249},
+												pos:        position{line: 2845, col: 11, offset: 90565},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43982,32 +44002,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2838, col: 5, offset: 90307},
+									pos: position{line: 2848, col: 5, offset: 90623},
 									expr: &seqExpr{
-										pos: position{line: 2839, col: 9, offset: 90318},
+										pos: position{line: 2849, col: 9, offset: 90634},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2839, col: 9, offset: 90318},
+												pos:        position{line: 2849, col: 9, offset: 90634},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2840, col: 9, offset: 90367},
+												pos: position{line: 2850, col: 9, offset: 90683},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2844, col: 5, offset: 90447},
+									pos: position{line: 2854, col: 5, offset: 90763},
 									expr: &seqExpr{
-										pos: position{line: 2845, col: 9, offset: 90458},
+										pos: position{line: 2855, col: 9, offset: 90774},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2845, col: 9, offset: 90458},
+												pos: position{line: 2855, col: 9, offset: 90774},
 												expr: &charClassMatcher{
-													pos:        position{line: 2845, col: 9, offset: 90458},
+													pos:        position{line: 2855, col: 9, offset: 90774},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44016,13 +44036,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2845, col: 23, offset: 90472},
+												pos:        position{line: 2855, col: 23, offset: 90788},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2845, col: 27, offset: 90476},
+												pos:        position{line: 2855, col: 27, offset: 90792},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44035,12 +44055,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2967, col: 11, offset: 93915},
+						pos: position{line: 2977, col: 11, offset: 94231},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2967, col: 11, offset: 93915},
+							pos: position{line: 2977, col: 11, offset: 94231},
 							expr: &charClassMatcher{
-								pos:        position{line: 2967, col: 11, offset: 93915},
+								pos:        position{line: 2977, col: 11, offset: 94231},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -44049,29 +44069,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1896, col: 7, offset: 61086},
+						pos:  position{line: 1906, col: 7, offset: 61402},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 5, offset: 82214},
+						pos: position{line: 2558, col: 5, offset: 82530},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 5, offset: 82214},
+							pos: position{line: 2558, col: 5, offset: 82530},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 82214},
+									pos: position{line: 2558, col: 5, offset: 82530},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2551, col: 5, offset: 82285},
+									pos:        position{line: 2561, col: 5, offset: 82601},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2551, col: 10, offset: 82290},
+									pos: position{line: 2561, col: 10, offset: 82606},
 									expr: &charClassMatcher{
-										pos:        position{line: 2551, col: 11, offset: 82291},
+										pos:        position{line: 2561, col: 11, offset: 82607},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44082,29 +44102,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82477},
+						pos: position{line: 2567, col: 5, offset: 82793},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82477},
+							pos: position{line: 2567, col: 5, offset: 82793},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2557, col: 5, offset: 82477},
+									pos: position{line: 2567, col: 5, offset: 82793},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2560, col: 5, offset: 82548},
+									pos: position{line: 2570, col: 5, offset: 82864},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2564, col: 5, offset: 82673},
+									pos:        position{line: 2574, col: 5, offset: 82989},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2564, col: 9, offset: 82677},
+									pos: position{line: 2574, col: 9, offset: 82993},
 									expr: &charClassMatcher{
-										pos:        position{line: 2564, col: 10, offset: 82678},
+										pos:        position{line: 2574, col: 10, offset: 82994},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44115,27 +44135,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2853, col: 5, offset: 90669},
+						pos: position{line: 2863, col: 5, offset: 90985},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2854, col: 9, offset: 90679},
+							pos: position{line: 2864, col: 9, offset: 90995},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2854, col: 10, offset: 90680},
+									pos:        position{line: 2864, col: 10, offset: 90996},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2856, col: 13, offset: 90777},
+									pos: position{line: 2866, col: 13, offset: 91093},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2856, col: 13, offset: 90777},
+											pos: position{line: 2866, col: 13, offset: 91093},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2859, col: 13, offset: 90877},
+											pos:        position{line: 2869, col: 13, offset: 91193},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -44143,20 +44163,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2859, col: 19, offset: 90883},
+									pos:        position{line: 2869, col: 19, offset: 91199},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2862, col: 13, offset: 90921},
+									pos: position{line: 2872, col: 13, offset: 91237},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2862, col: 13, offset: 90921},
+											pos: position{line: 2872, col: 13, offset: 91237},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2865, col: 14, offset: 91014},
+											pos:        position{line: 2875, col: 14, offset: 91330},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -44165,18 +44185,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2867, col: 12, offset: 91058},
+									pos: position{line: 2877, col: 12, offset: 91374},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2867, col: 12, offset: 91058},
+											pos:        position{line: 2877, col: 12, offset: 91374},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2867, col: 16, offset: 91062},
+											pos: position{line: 2877, col: 16, offset: 91378},
 											expr: &litMatcher{
-												pos:        position{line: 2867, col: 17, offset: 91063},
+												pos:        position{line: 2877, col: 17, offset: 91379},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44534,31 +44554,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2976, col: 18, offset: 94125},
+						pos: position{line: 2986, col: 18, offset: 94441},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2976, col: 18, offset: 94125},
+							pos: position{line: 2986, col: 18, offset: 94441},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44567,27 +44587,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2976, col: 26, offset: 94133},
+									pos: position{line: 2986, col: 26, offset: 94449},
 									expr: &actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94025},
+										pos: position{line: 2982, col: 12, offset: 94341},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94026},
+											pos: position{line: 2982, col: 13, offset: 94342},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94026},
+													pos:        position{line: 2982, col: 13, offset: 94342},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94033},
+													pos:        position{line: 2982, col: 20, offset: 94349},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94042},
+													pos:        position{line: 2982, col: 29, offset: 94358},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44600,31 +44620,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1901, col: 7, offset: 61253},
+						pos:  position{line: 1911, col: 7, offset: 61569},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1902, col: 7, offset: 61300},
+						pos:  position{line: 1912, col: 7, offset: 61616},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2517, col: 5, offset: 81043},
+						pos: position{line: 2527, col: 5, offset: 81359},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2517, col: 5, offset: 81043},
+							pos: position{line: 2527, col: 5, offset: 81359},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2517, col: 5, offset: 81043},
+									pos: position{line: 2527, col: 5, offset: 81359},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2520, col: 5, offset: 81119},
+									pos:   position{line: 2530, col: 5, offset: 81435},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2521, col: 9, offset: 81137},
+										pos: position{line: 2531, col: 9, offset: 81453},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2521, col: 10, offset: 81138},
+											pos:        position{line: 2531, col: 10, offset: 81454},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44675,10 +44695,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2875, col: 12, offset: 91323},
+						pos: position{line: 2885, col: 12, offset: 91639},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2875, col: 12, offset: 91323},
+							pos:        position{line: 2885, col: 12, offset: 91639},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44690,33 +44710,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1923, col: 1, offset: 61868},
+			pos:  position{line: 1933, col: 1, offset: 62184},
 			expr: &actionExpr{
-				pos: position{line: 1924, col: 5, offset: 61896},
+				pos: position{line: 1934, col: 5, offset: 62212},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1924, col: 5, offset: 61896},
+					pos: position{line: 1934, col: 5, offset: 62212},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1916, col: 38, offset: 61723},
+							pos: position{line: 1926, col: 38, offset: 62039},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1916, col: 38, offset: 61723},
+								pos:        position{line: 1926, col: 38, offset: 62039},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1925, col: 5, offset: 61935},
+							pos:   position{line: 1935, col: 5, offset: 62251},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1925, col: 15, offset: 61945},
+								pos:  position{line: 1935, col: 15, offset: 62261},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1921, col: 36, offset: 61862},
+							pos:        position{line: 1931, col: 36, offset: 62178},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44727,44 +44747,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1930, col: 1, offset: 62105},
+			pos:  position{line: 1940, col: 1, offset: 62421},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1930, col: 32, offset: 62136},
+				pos: position{line: 1940, col: 32, offset: 62452},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1930, col: 32, offset: 62136},
+					pos:  position{line: 1940, col: 32, offset: 62452},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1932, col: 1, offset: 62167},
+			pos:  position{line: 1942, col: 1, offset: 62483},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62202},
+				pos: position{line: 1943, col: 5, offset: 62518},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62202},
+					pos: position{line: 1943, col: 5, offset: 62518},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1934, col: 5, offset: 62213},
+							pos: position{line: 1944, col: 5, offset: 62529},
 							expr: &litMatcher{
-								pos:        position{line: 1921, col: 36, offset: 61862},
+								pos:        position{line: 1931, col: 36, offset: 62178},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62250},
+							pos:   position{line: 1945, col: 5, offset: 62566},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1935, col: 14, offset: 62259},
+								pos:  position{line: 1945, col: 14, offset: 62575},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44774,29 +44794,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1960, col: 1, offset: 62939},
+			pos:  position{line: 1970, col: 1, offset: 63255},
 			expr: &actionExpr{
-				pos: position{line: 1961, col: 5, offset: 62967},
+				pos: position{line: 1971, col: 5, offset: 63283},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1961, col: 5, offset: 62967},
+					pos: position{line: 1971, col: 5, offset: 63283},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1944, col: 5, offset: 62493},
+							pos:        position{line: 1954, col: 5, offset: 62809},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1945, col: 5, offset: 62502},
+							pos: position{line: 1955, col: 5, offset: 62818},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1949, col: 5, offset: 62620},
+							pos: position{line: 1959, col: 5, offset: 62936},
 							expr: &notExpr{
-								pos: position{line: 1949, col: 7, offset: 62622},
+								pos: position{line: 1959, col: 7, offset: 62938},
 								expr: &litMatcher{
-									pos:        position{line: 1949, col: 8, offset: 62623},
+									pos:        position{line: 1959, col: 8, offset: 62939},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44804,38 +44824,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1962, col: 5, offset: 63005},
+							pos:   position{line: 1972, col: 5, offset: 63321},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1962, col: 15, offset: 63015},
+								pos:  position{line: 1972, col: 15, offset: 63331},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1952, col: 5, offset: 62743},
+							pos:        position{line: 1962, col: 5, offset: 63059},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1953, col: 5, offset: 62752},
+							pos: position{line: 1963, col: 5, offset: 63068},
 							expr: &litMatcher{
-								pos:        position{line: 1953, col: 6, offset: 62753},
+								pos:        position{line: 1963, col: 6, offset: 63069},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1954, col: 5, offset: 62816},
+							pos: position{line: 1964, col: 5, offset: 63132},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1958, col: 5, offset: 62925},
+							pos: position{line: 1968, col: 5, offset: 63241},
 							expr: &notExpr{
-								pos: position{line: 1958, col: 7, offset: 62927},
+								pos: position{line: 1968, col: 7, offset: 63243},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89802},
+									pos:        position{line: 2827, col: 13, offset: 90118},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44849,17 +44869,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1967, col: 1, offset: 63175},
+			pos:  position{line: 1977, col: 1, offset: 63491},
 			expr: &actionExpr{
-				pos: position{line: 1968, col: 5, offset: 63212},
+				pos: position{line: 1978, col: 5, offset: 63528},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1968, col: 5, offset: 63212},
+					pos: position{line: 1978, col: 5, offset: 63528},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1968, col: 5, offset: 63212},
+							pos: position{line: 1978, col: 5, offset: 63528},
 							expr: &charClassMatcher{
-								pos:        position{line: 1968, col: 6, offset: 63213},
+								pos:        position{line: 1978, col: 6, offset: 63529},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44867,18 +44887,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1969, col: 5, offset: 63255},
+							pos:   position{line: 1979, col: 5, offset: 63571},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1969, col: 14, offset: 63264},
+								pos: position{line: 1979, col: 14, offset: 63580},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1969, col: 15, offset: 63265},
+									pos:  position{line: 1979, col: 15, offset: 63581},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1970, col: 5, offset: 63299},
+							pos: position{line: 1980, col: 5, offset: 63615},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44887,49 +44907,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1976, col: 1, offset: 63440},
+			pos:  position{line: 1986, col: 1, offset: 63756},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63475},
+				pos: position{line: 1987, col: 5, offset: 63791},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63475},
+					pos: position{line: 1987, col: 5, offset: 63791},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1978, col: 5, offset: 63503},
+							pos: position{line: 1988, col: 5, offset: 63819},
 							expr: &seqExpr{
-								pos: position{line: 1952, col: 5, offset: 62743},
+								pos: position{line: 1962, col: 5, offset: 63059},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1952, col: 5, offset: 62743},
+										pos:        position{line: 1962, col: 5, offset: 63059},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1953, col: 5, offset: 62752},
+										pos: position{line: 1963, col: 5, offset: 63068},
 										expr: &litMatcher{
-											pos:        position{line: 1953, col: 6, offset: 62753},
+											pos:        position{line: 1963, col: 6, offset: 63069},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1954, col: 5, offset: 62816},
+										pos: position{line: 1964, col: 5, offset: 63132},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1958, col: 5, offset: 62925},
+										pos: position{line: 1968, col: 5, offset: 63241},
 										expr: &notExpr{
-											pos: position{line: 1958, col: 7, offset: 62927},
+											pos: position{line: 1968, col: 7, offset: 63243},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89802},
+												pos:        position{line: 2827, col: 13, offset: 90118},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44941,10 +44961,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63540},
+							pos:   position{line: 1989, col: 5, offset: 63856},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 14, offset: 63549},
+								pos:  position{line: 1989, col: 14, offset: 63865},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44954,35 +44974,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1984, col: 1, offset: 63637},
+			pos:  position{line: 1994, col: 1, offset: 63953},
 			expr: &choiceExpr{
-				pos: position{line: 1986, col: 5, offset: 63698},
+				pos: position{line: 1996, col: 5, offset: 64014},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1986, col: 5, offset: 63698},
+						pos: position{line: 1996, col: 5, offset: 64014},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1986, col: 5, offset: 63698},
+							pos: position{line: 1996, col: 5, offset: 64014},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1986, col: 5, offset: 63698},
+									pos:   position{line: 1996, col: 5, offset: 64014},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60943},
+										pos: position{line: 1899, col: 25, offset: 61259},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60943},
+											pos: position{line: 1899, col: 25, offset: 61259},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60943},
+													pos:        position{line: 1899, col: 25, offset: 61259},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60948},
+													pos: position{line: 1899, col: 30, offset: 61264},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60948},
+														pos:        position{line: 1899, col: 30, offset: 61264},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -44993,25 +45013,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1916, col: 38, offset: 61723},
+									pos: position{line: 1926, col: 38, offset: 62039},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1916, col: 38, offset: 61723},
+										pos:        position{line: 1926, col: 38, offset: 62039},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1986, col: 74, offset: 63767},
+									pos:   position{line: 1996, col: 74, offset: 64083},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1986, col: 84, offset: 63777},
+										pos:  position{line: 1996, col: 84, offset: 64093},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1986, col: 113, offset: 63806},
+									pos:        position{line: 1996, col: 113, offset: 64122},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -45020,21 +45040,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1990, col: 7, offset: 63966},
+						pos: position{line: 2000, col: 7, offset: 64282},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 1990, col: 7, offset: 63966},
+							pos: position{line: 2000, col: 7, offset: 64282},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1990, col: 7, offset: 63966},
+									pos:   position{line: 2000, col: 7, offset: 64282},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45043,21 +45063,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1990, col: 42, offset: 64001},
+									pos:        position{line: 2000, col: 42, offset: 64317},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1990, col: 47, offset: 64006},
+									pos:   position{line: 2000, col: 47, offset: 64322},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1990, col: 57, offset: 64016},
+										pos:  position{line: 2000, col: 57, offset: 64332},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1990, col: 86, offset: 64045},
+									pos:        position{line: 2000, col: 86, offset: 64361},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45066,21 +45086,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1995, col: 7, offset: 64243},
+						pos: position{line: 2005, col: 7, offset: 64559},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 1995, col: 7, offset: 64243},
+							pos: position{line: 2005, col: 7, offset: 64559},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1995, col: 7, offset: 64243},
+									pos:   position{line: 2005, col: 7, offset: 64559},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45089,21 +45109,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1995, col: 42, offset: 64278},
+									pos:        position{line: 2005, col: 42, offset: 64594},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1995, col: 46, offset: 64282},
+									pos:   position{line: 2005, col: 46, offset: 64598},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1995, col: 56, offset: 64292},
+										pos:  position{line: 2005, col: 56, offset: 64608},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1995, col: 85, offset: 64321},
+									pos:        position{line: 2005, col: 85, offset: 64637},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45116,33 +45136,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 64895},
+			pos:  position{line: 2025, col: 1, offset: 65211},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 64925},
+				pos: position{line: 2026, col: 5, offset: 65241},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 64925},
+					pos: position{line: 2026, col: 5, offset: 65241},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2008, col: 40, offset: 64748},
+							pos: position{line: 2018, col: 40, offset: 65064},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 40, offset: 64748},
+								pos:        position{line: 2018, col: 40, offset: 65064},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64966},
+							pos:   position{line: 2027, col: 5, offset: 65282},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 64976},
+								pos:  position{line: 2027, col: 15, offset: 65292},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2013, col: 38, offset: 64889},
+							pos:        position{line: 2023, col: 38, offset: 65205},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -45153,44 +45173,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 65141},
+			pos:  position{line: 2032, col: 1, offset: 65457},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2022, col: 34, offset: 65174},
+				pos: position{line: 2032, col: 34, offset: 65490},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2022, col: 34, offset: 65174},
+					pos:  position{line: 2032, col: 34, offset: 65490},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2024, col: 1, offset: 65206},
+			pos:  position{line: 2034, col: 1, offset: 65522},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65243},
+				pos: position{line: 2035, col: 5, offset: 65559},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65243},
+					pos: position{line: 2035, col: 5, offset: 65559},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2026, col: 5, offset: 65254},
+							pos: position{line: 2036, col: 5, offset: 65570},
 							expr: &litMatcher{
-								pos:        position{line: 2013, col: 38, offset: 64889},
+								pos:        position{line: 2023, col: 38, offset: 65205},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2027, col: 5, offset: 65293},
+							pos:   position{line: 2037, col: 5, offset: 65609},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2027, col: 14, offset: 65302},
+								pos:  position{line: 2037, col: 14, offset: 65618},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45200,29 +45220,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2053, col: 1, offset: 65986},
+			pos:  position{line: 2063, col: 1, offset: 66302},
 			expr: &actionExpr{
-				pos: position{line: 2054, col: 5, offset: 66016},
+				pos: position{line: 2064, col: 5, offset: 66332},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2054, col: 5, offset: 66016},
+					pos: position{line: 2064, col: 5, offset: 66332},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2036, col: 5, offset: 65544},
+							pos:        position{line: 2046, col: 5, offset: 65860},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2037, col: 5, offset: 65553},
+							pos: position{line: 2047, col: 5, offset: 65869},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2041, col: 5, offset: 65673},
+							pos: position{line: 2051, col: 5, offset: 65989},
 							expr: &notExpr{
-								pos: position{line: 2041, col: 7, offset: 65675},
+								pos: position{line: 2051, col: 7, offset: 65991},
 								expr: &litMatcher{
-									pos:        position{line: 2041, col: 8, offset: 65676},
+									pos:        position{line: 2051, col: 8, offset: 65992},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45230,38 +45250,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2055, col: 5, offset: 66056},
+							pos:   position{line: 2065, col: 5, offset: 66372},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2055, col: 15, offset: 66066},
+								pos:  position{line: 2065, col: 15, offset: 66382},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2045, col: 5, offset: 65786},
+							pos:        position{line: 2055, col: 5, offset: 66102},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2046, col: 5, offset: 65795},
+							pos: position{line: 2056, col: 5, offset: 66111},
 							expr: &litMatcher{
-								pos:        position{line: 2046, col: 6, offset: 65796},
+								pos:        position{line: 2056, col: 6, offset: 66112},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65861},
+							pos: position{line: 2057, col: 5, offset: 66177},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2051, col: 5, offset: 65972},
+							pos: position{line: 2061, col: 5, offset: 66288},
 							expr: &notExpr{
-								pos: position{line: 2051, col: 7, offset: 65974},
+								pos: position{line: 2061, col: 7, offset: 66290},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89802},
+									pos:        position{line: 2827, col: 13, offset: 90118},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45275,17 +45295,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2060, col: 1, offset: 66233},
+			pos:  position{line: 2070, col: 1, offset: 66549},
 			expr: &actionExpr{
-				pos: position{line: 2061, col: 5, offset: 66271},
+				pos: position{line: 2071, col: 5, offset: 66587},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2061, col: 5, offset: 66271},
+					pos: position{line: 2071, col: 5, offset: 66587},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2061, col: 5, offset: 66271},
+							pos: position{line: 2071, col: 5, offset: 66587},
 							expr: &charClassMatcher{
-								pos:        position{line: 2061, col: 6, offset: 66272},
+								pos:        position{line: 2071, col: 6, offset: 66588},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45293,18 +45313,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2062, col: 5, offset: 66314},
+							pos:   position{line: 2072, col: 5, offset: 66630},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2062, col: 14, offset: 66323},
+								pos: position{line: 2072, col: 14, offset: 66639},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2062, col: 15, offset: 66324},
+									pos:  position{line: 2072, col: 15, offset: 66640},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2063, col: 5, offset: 66359},
+							pos: position{line: 2073, col: 5, offset: 66675},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -45313,49 +45333,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2069, col: 1, offset: 66500},
+			pos:  position{line: 2079, col: 1, offset: 66816},
 			expr: &actionExpr{
-				pos: position{line: 2070, col: 5, offset: 66537},
+				pos: position{line: 2080, col: 5, offset: 66853},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2070, col: 5, offset: 66537},
+					pos: position{line: 2080, col: 5, offset: 66853},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2071, col: 5, offset: 66548},
+							pos: position{line: 2081, col: 5, offset: 66864},
 							expr: &seqExpr{
-								pos: position{line: 2045, col: 5, offset: 65786},
+								pos: position{line: 2055, col: 5, offset: 66102},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2045, col: 5, offset: 65786},
+										pos:        position{line: 2055, col: 5, offset: 66102},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2046, col: 5, offset: 65795},
+										pos: position{line: 2056, col: 5, offset: 66111},
 										expr: &litMatcher{
-											pos:        position{line: 2046, col: 6, offset: 65796},
+											pos:        position{line: 2056, col: 6, offset: 66112},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2047, col: 5, offset: 65861},
+										pos: position{line: 2057, col: 5, offset: 66177},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2051, col: 5, offset: 65972},
+										pos: position{line: 2061, col: 5, offset: 66288},
 										expr: &notExpr{
-											pos: position{line: 2051, col: 7, offset: 65974},
+											pos: position{line: 2061, col: 7, offset: 66290},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89802},
+												pos:        position{line: 2827, col: 13, offset: 90118},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45367,10 +45387,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2072, col: 5, offset: 66587},
+							pos:   position{line: 2082, col: 5, offset: 66903},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2072, col: 14, offset: 66596},
+								pos:  position{line: 2082, col: 14, offset: 66912},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45380,35 +45400,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2077, col: 1, offset: 66684},
+			pos:  position{line: 2087, col: 1, offset: 67000},
 			expr: &choiceExpr{
-				pos: position{line: 2079, col: 5, offset: 66749},
+				pos: position{line: 2089, col: 5, offset: 67065},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2079, col: 5, offset: 66749},
+						pos: position{line: 2089, col: 5, offset: 67065},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2079, col: 5, offset: 66749},
+							pos: position{line: 2089, col: 5, offset: 67065},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2079, col: 5, offset: 66749},
+									pos:   position{line: 2089, col: 5, offset: 67065},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60943},
+										pos: position{line: 1899, col: 25, offset: 61259},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60943},
+											pos: position{line: 1899, col: 25, offset: 61259},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60943},
+													pos:        position{line: 1899, col: 25, offset: 61259},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60948},
+													pos: position{line: 1899, col: 30, offset: 61264},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60948},
+														pos:        position{line: 1899, col: 30, offset: 61264},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45419,25 +45439,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2008, col: 40, offset: 64748},
+									pos: position{line: 2018, col: 40, offset: 65064},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2008, col: 40, offset: 64748},
+										pos:        position{line: 2018, col: 40, offset: 65064},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2079, col: 76, offset: 66820},
+									pos:   position{line: 2089, col: 76, offset: 67136},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2079, col: 86, offset: 66830},
+										pos:  position{line: 2089, col: 86, offset: 67146},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2079, col: 117, offset: 66861},
+									pos:        position{line: 2089, col: 117, offset: 67177},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -45446,21 +45466,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2083, col: 7, offset: 67022},
+						pos: position{line: 2093, col: 7, offset: 67338},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2083, col: 7, offset: 67022},
+							pos: position{line: 2093, col: 7, offset: 67338},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2083, col: 7, offset: 67022},
+									pos:   position{line: 2093, col: 7, offset: 67338},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45469,21 +45489,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2083, col: 42, offset: 67057},
+									pos:        position{line: 2093, col: 42, offset: 67373},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2083, col: 47, offset: 67062},
+									pos:   position{line: 2093, col: 47, offset: 67378},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2083, col: 57, offset: 67072},
+										pos:  position{line: 2093, col: 57, offset: 67388},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2083, col: 88, offset: 67103},
+									pos:        position{line: 2093, col: 88, offset: 67419},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45492,21 +45512,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2088, col: 7, offset: 67340},
+						pos: position{line: 2098, col: 7, offset: 67656},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2088, col: 7, offset: 67340},
+							pos: position{line: 2098, col: 7, offset: 67656},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2088, col: 7, offset: 67340},
+									pos:   position{line: 2098, col: 7, offset: 67656},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45515,21 +45535,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2088, col: 42, offset: 67375},
+									pos:        position{line: 2098, col: 42, offset: 67691},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2088, col: 46, offset: 67379},
+									pos:   position{line: 2098, col: 46, offset: 67695},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2088, col: 56, offset: 67389},
+										pos:  position{line: 2098, col: 56, offset: 67705},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2088, col: 87, offset: 67420},
+									pos:        position{line: 2098, col: 87, offset: 67736},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45542,33 +45562,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2108, col: 1, offset: 68078},
+			pos:  position{line: 2118, col: 1, offset: 68394},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68111},
+				pos: position{line: 2119, col: 5, offset: 68427},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68111},
+					pos: position{line: 2119, col: 5, offset: 68427},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2101, col: 43, offset: 67928},
+							pos: position{line: 2111, col: 43, offset: 68244},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2101, col: 43, offset: 67928},
+								pos:        position{line: 2111, col: 43, offset: 68244},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2110, col: 5, offset: 68155},
+							pos:   position{line: 2120, col: 5, offset: 68471},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2110, col: 15, offset: 68165},
+								pos:  position{line: 2120, col: 15, offset: 68481},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2106, col: 41, offset: 68072},
+							pos:        position{line: 2116, col: 41, offset: 68388},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45579,44 +45599,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2115, col: 1, offset: 68340},
+			pos:  position{line: 2125, col: 1, offset: 68656},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2115, col: 37, offset: 68376},
+				pos: position{line: 2125, col: 37, offset: 68692},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2115, col: 37, offset: 68376},
+					pos:  position{line: 2125, col: 37, offset: 68692},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2117, col: 1, offset: 68443},
+			pos:  position{line: 2127, col: 1, offset: 68759},
 			expr: &actionExpr{
-				pos: position{line: 2118, col: 5, offset: 68483},
+				pos: position{line: 2128, col: 5, offset: 68799},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2118, col: 5, offset: 68483},
+					pos: position{line: 2128, col: 5, offset: 68799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68494},
+							pos: position{line: 2129, col: 5, offset: 68810},
 							expr: &litMatcher{
-								pos:        position{line: 2106, col: 41, offset: 68072},
+								pos:        position{line: 2116, col: 41, offset: 68388},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68536},
+							pos:   position{line: 2130, col: 5, offset: 68852},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 14, offset: 68545},
+								pos:  position{line: 2130, col: 14, offset: 68861},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45626,33 +45646,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2138, col: 1, offset: 69087},
+			pos:  position{line: 2148, col: 1, offset: 69403},
 			expr: &seqExpr{
-				pos: position{line: 2139, col: 5, offset: 69132},
+				pos: position{line: 2149, col: 5, offset: 69448},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2139, col: 5, offset: 69132},
+						pos: position{line: 2149, col: 5, offset: 69448},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2139, col: 6, offset: 69133},
+							pos:  position{line: 2149, col: 6, offset: 69449},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2140, col: 5, offset: 69152},
+						pos:        position{line: 2150, col: 5, offset: 69468},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2141, col: 5, offset: 69160},
+						pos: position{line: 2151, col: 5, offset: 69476},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2145, col: 5, offset: 69274},
+						pos: position{line: 2155, col: 5, offset: 69590},
 						expr: &notExpr{
-							pos: position{line: 2145, col: 7, offset: 69276},
+							pos: position{line: 2155, col: 7, offset: 69592},
 							expr: &charClassMatcher{
-								pos:        position{line: 2817, col: 13, offset: 89802},
+								pos:        position{line: 2827, col: 13, offset: 90118},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45665,29 +45685,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2148, col: 1, offset: 69293},
+			pos:  position{line: 2158, col: 1, offset: 69609},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69326},
+				pos: position{line: 2159, col: 5, offset: 69642},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69326},
+					pos: position{line: 2159, col: 5, offset: 69642},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2131, col: 5, offset: 68889},
+							pos:        position{line: 2141, col: 5, offset: 69205},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68898},
+							pos: position{line: 2142, col: 5, offset: 69214},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2136, col: 5, offset: 69021},
+							pos: position{line: 2146, col: 5, offset: 69337},
 							expr: &notExpr{
-								pos: position{line: 2136, col: 7, offset: 69023},
+								pos: position{line: 2146, col: 7, offset: 69339},
 								expr: &litMatcher{
-									pos:        position{line: 2136, col: 8, offset: 69024},
+									pos:        position{line: 2146, col: 8, offset: 69340},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45695,15 +45715,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69370},
+							pos:   position{line: 2160, col: 5, offset: 69686},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69380},
+								pos:  position{line: 2160, col: 15, offset: 69696},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2151, col: 5, offset: 69419},
+							pos:  position{line: 2161, col: 5, offset: 69735},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45712,17 +45732,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69556},
+			pos:  position{line: 2165, col: 1, offset: 69872},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69597},
+				pos: position{line: 2166, col: 5, offset: 69913},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69597},
+					pos: position{line: 2166, col: 5, offset: 69913},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2156, col: 5, offset: 69597},
+							pos: position{line: 2166, col: 5, offset: 69913},
 							expr: &charClassMatcher{
-								pos:        position{line: 2156, col: 6, offset: 69598},
+								pos:        position{line: 2166, col: 6, offset: 69914},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45730,18 +45750,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69640},
+							pos:   position{line: 2167, col: 5, offset: 69956},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2157, col: 14, offset: 69649},
+								pos: position{line: 2167, col: 14, offset: 69965},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2157, col: 15, offset: 69650},
+									pos:  position{line: 2167, col: 15, offset: 69966},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2158, col: 5, offset: 69688},
+							pos: position{line: 2168, col: 5, offset: 70004},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45750,31 +45770,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69829},
+			pos:  position{line: 2174, col: 1, offset: 70145},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 69869},
+				pos: position{line: 2175, col: 5, offset: 70185},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 69869},
+					pos: position{line: 2175, col: 5, offset: 70185},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69880},
+							pos: position{line: 2176, col: 5, offset: 70196},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 6, offset: 69881},
+								pos:  position{line: 2176, col: 6, offset: 70197},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 69922},
+							pos:   position{line: 2177, col: 5, offset: 70238},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 69931},
+								pos:  position{line: 2177, col: 14, offset: 70247},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45784,35 +45804,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2172, col: 1, offset: 70019},
+			pos:  position{line: 2182, col: 1, offset: 70335},
 			expr: &choiceExpr{
-				pos: position{line: 2174, col: 5, offset: 70090},
+				pos: position{line: 2184, col: 5, offset: 70406},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2174, col: 5, offset: 70090},
+						pos: position{line: 2184, col: 5, offset: 70406},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2174, col: 5, offset: 70090},
+							pos: position{line: 2184, col: 5, offset: 70406},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2174, col: 5, offset: 70090},
+									pos:   position{line: 2184, col: 5, offset: 70406},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60943},
+										pos: position{line: 1899, col: 25, offset: 61259},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60943},
+											pos: position{line: 1899, col: 25, offset: 61259},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60943},
+													pos:        position{line: 1899, col: 25, offset: 61259},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60948},
+													pos: position{line: 1899, col: 30, offset: 61264},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60948},
+														pos:        position{line: 1899, col: 30, offset: 61264},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45823,25 +45843,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2101, col: 43, offset: 67928},
+									pos: position{line: 2111, col: 43, offset: 68244},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2101, col: 43, offset: 67928},
+										pos:        position{line: 2111, col: 43, offset: 68244},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2174, col: 79, offset: 70164},
+									pos:   position{line: 2184, col: 79, offset: 70480},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2174, col: 89, offset: 70174},
+										pos:  position{line: 2184, col: 89, offset: 70490},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2174, col: 123, offset: 70208},
+									pos:        position{line: 2184, col: 123, offset: 70524},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45850,21 +45870,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2178, col: 7, offset: 70373},
+						pos: position{line: 2188, col: 7, offset: 70689},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2178, col: 7, offset: 70373},
+							pos: position{line: 2188, col: 7, offset: 70689},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2178, col: 7, offset: 70373},
+									pos:   position{line: 2188, col: 7, offset: 70689},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45873,21 +45893,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 42, offset: 70408},
+									pos:        position{line: 2188, col: 42, offset: 70724},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2178, col: 47, offset: 70413},
+									pos:   position{line: 2188, col: 47, offset: 70729},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2178, col: 57, offset: 70423},
+										pos:  position{line: 2188, col: 57, offset: 70739},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2178, col: 91, offset: 70457},
+									pos:        position{line: 2188, col: 91, offset: 70773},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45896,21 +45916,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2183, col: 7, offset: 70659},
+						pos: position{line: 2193, col: 7, offset: 70975},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2183, col: 7, offset: 70659},
+							pos: position{line: 2193, col: 7, offset: 70975},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2183, col: 7, offset: 70659},
+									pos:   position{line: 2193, col: 7, offset: 70975},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45919,21 +45939,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 42, offset: 70694},
+									pos:        position{line: 2193, col: 42, offset: 71010},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2183, col: 46, offset: 70698},
+									pos:   position{line: 2193, col: 46, offset: 71014},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2183, col: 56, offset: 70708},
+										pos:  position{line: 2193, col: 56, offset: 71024},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2183, col: 90, offset: 70742},
+									pos:        position{line: 2193, col: 90, offset: 71058},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45946,33 +45966,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2203, col: 1, offset: 71321},
+			pos:  position{line: 2213, col: 1, offset: 71637},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71351},
+				pos: position{line: 2214, col: 5, offset: 71667},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71351},
+					pos: position{line: 2214, col: 5, offset: 71667},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2196, col: 40, offset: 71174},
+							pos: position{line: 2206, col: 40, offset: 71490},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2196, col: 40, offset: 71174},
+								pos:        position{line: 2206, col: 40, offset: 71490},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71392},
+							pos:   position{line: 2215, col: 5, offset: 71708},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2205, col: 15, offset: 71402},
+								pos:  position{line: 2215, col: 15, offset: 71718},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2201, col: 38, offset: 71315},
+							pos:        position{line: 2211, col: 38, offset: 71631},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -45983,44 +46003,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2210, col: 1, offset: 71568},
+			pos:  position{line: 2220, col: 1, offset: 71884},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2210, col: 34, offset: 71601},
+				pos: position{line: 2220, col: 34, offset: 71917},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2210, col: 34, offset: 71601},
+					pos:  position{line: 2220, col: 34, offset: 71917},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71632},
+			pos:  position{line: 2222, col: 1, offset: 71948},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71701},
+				pos: position{line: 2223, col: 5, offset: 72017},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71701},
+					pos: position{line: 2223, col: 5, offset: 72017},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71712},
+							pos: position{line: 2224, col: 5, offset: 72028},
 							expr: &litMatcher{
-								pos:        position{line: 2201, col: 38, offset: 71315},
+								pos:        position{line: 2211, col: 38, offset: 71631},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71751},
+							pos:   position{line: 2225, col: 5, offset: 72067},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71760},
+								pos:  position{line: 2225, col: 14, offset: 72076},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46030,29 +46050,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2240, col: 1, offset: 72442},
+			pos:  position{line: 2250, col: 1, offset: 72758},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72472},
+				pos: position{line: 2251, col: 5, offset: 72788},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72472},
+					pos: position{line: 2251, col: 5, offset: 72788},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2224, col: 5, offset: 72008},
+							pos:        position{line: 2234, col: 5, offset: 72324},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2225, col: 5, offset: 72017},
+							pos: position{line: 2235, col: 5, offset: 72333},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2229, col: 5, offset: 72137},
+							pos: position{line: 2239, col: 5, offset: 72453},
 							expr: &notExpr{
-								pos: position{line: 2229, col: 7, offset: 72139},
+								pos: position{line: 2239, col: 7, offset: 72455},
 								expr: &litMatcher{
-									pos:        position{line: 2229, col: 8, offset: 72140},
+									pos:        position{line: 2239, col: 8, offset: 72456},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46060,38 +46080,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2242, col: 5, offset: 72512},
+							pos:   position{line: 2252, col: 5, offset: 72828},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2242, col: 15, offset: 72522},
+								pos:  position{line: 2252, col: 15, offset: 72838},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2232, col: 5, offset: 72245},
+							pos:        position{line: 2242, col: 5, offset: 72561},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2233, col: 5, offset: 72253},
+							pos: position{line: 2243, col: 5, offset: 72569},
 							expr: &litMatcher{
-								pos:        position{line: 2233, col: 6, offset: 72254},
+								pos:        position{line: 2243, col: 6, offset: 72570},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2234, col: 5, offset: 72317},
+							pos: position{line: 2244, col: 5, offset: 72633},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2238, col: 5, offset: 72428},
+							pos: position{line: 2248, col: 5, offset: 72744},
 							expr: &notExpr{
-								pos: position{line: 2238, col: 7, offset: 72430},
+								pos: position{line: 2248, col: 7, offset: 72746},
 								expr: &charClassMatcher{
-									pos:        position{line: 2817, col: 13, offset: 89802},
+									pos:        position{line: 2827, col: 13, offset: 90118},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -46105,17 +46125,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2247, col: 1, offset: 72689},
+			pos:  position{line: 2257, col: 1, offset: 73005},
 			expr: &actionExpr{
-				pos: position{line: 2248, col: 5, offset: 72727},
+				pos: position{line: 2258, col: 5, offset: 73043},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2248, col: 5, offset: 72727},
+					pos: position{line: 2258, col: 5, offset: 73043},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2248, col: 5, offset: 72727},
+							pos: position{line: 2258, col: 5, offset: 73043},
 							expr: &charClassMatcher{
-								pos:        position{line: 2248, col: 6, offset: 72728},
+								pos:        position{line: 2258, col: 6, offset: 73044},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -46123,18 +46143,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2249, col: 5, offset: 72770},
+							pos:   position{line: 2259, col: 5, offset: 73086},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2249, col: 14, offset: 72779},
+								pos: position{line: 2259, col: 14, offset: 73095},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2249, col: 15, offset: 72780},
+									pos:  position{line: 2259, col: 15, offset: 73096},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2250, col: 5, offset: 72816},
+							pos: position{line: 2260, col: 5, offset: 73132},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -46143,49 +46163,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2256, col: 1, offset: 72957},
+			pos:  position{line: 2266, col: 1, offset: 73273},
 			expr: &actionExpr{
-				pos: position{line: 2257, col: 5, offset: 72994},
+				pos: position{line: 2267, col: 5, offset: 73310},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2257, col: 5, offset: 72994},
+					pos: position{line: 2267, col: 5, offset: 73310},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2258, col: 5, offset: 73005},
+							pos: position{line: 2268, col: 5, offset: 73321},
 							expr: &seqExpr{
-								pos: position{line: 2232, col: 5, offset: 72245},
+								pos: position{line: 2242, col: 5, offset: 72561},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2232, col: 5, offset: 72245},
+										pos:        position{line: 2242, col: 5, offset: 72561},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2233, col: 5, offset: 72253},
+										pos: position{line: 2243, col: 5, offset: 72569},
 										expr: &litMatcher{
-											pos:        position{line: 2233, col: 6, offset: 72254},
+											pos:        position{line: 2243, col: 6, offset: 72570},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2234, col: 5, offset: 72317},
+										pos: position{line: 2244, col: 5, offset: 72633},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2238, col: 5, offset: 72428},
+										pos: position{line: 2248, col: 5, offset: 72744},
 										expr: &notExpr{
-											pos: position{line: 2238, col: 7, offset: 72430},
+											pos: position{line: 2248, col: 7, offset: 72746},
 											expr: &charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89802},
+												pos:        position{line: 2827, col: 13, offset: 90118},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46197,10 +46217,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73044},
+							pos:   position{line: 2269, col: 5, offset: 73360},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2259, col: 14, offset: 73053},
+								pos:  position{line: 2269, col: 14, offset: 73369},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46210,35 +46230,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2264, col: 1, offset: 73141},
+			pos:  position{line: 2274, col: 1, offset: 73457},
 			expr: &choiceExpr{
-				pos: position{line: 2266, col: 5, offset: 73205},
+				pos: position{line: 2276, col: 5, offset: 73521},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2266, col: 5, offset: 73205},
+						pos: position{line: 2276, col: 5, offset: 73521},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2266, col: 5, offset: 73205},
+							pos: position{line: 2276, col: 5, offset: 73521},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2266, col: 5, offset: 73205},
+									pos:   position{line: 2276, col: 5, offset: 73521},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1889, col: 25, offset: 60943},
+										pos: position{line: 1899, col: 25, offset: 61259},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1889, col: 25, offset: 60943},
+											pos: position{line: 1899, col: 25, offset: 61259},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1889, col: 25, offset: 60943},
+													pos:        position{line: 1899, col: 25, offset: 61259},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1889, col: 30, offset: 60948},
+													pos: position{line: 1899, col: 30, offset: 61264},
 													expr: &litMatcher{
-														pos:        position{line: 1889, col: 30, offset: 60948},
+														pos:        position{line: 1899, col: 30, offset: 61264},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -46249,25 +46269,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2196, col: 40, offset: 71174},
+									pos: position{line: 2206, col: 40, offset: 71490},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2196, col: 40, offset: 71174},
+										pos:        position{line: 2206, col: 40, offset: 71490},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2266, col: 76, offset: 73276},
+									pos:   position{line: 2276, col: 76, offset: 73592},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2266, col: 86, offset: 73286},
+										pos:  position{line: 2276, col: 86, offset: 73602},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2266, col: 117, offset: 73317},
+									pos:        position{line: 2276, col: 117, offset: 73633},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -46276,21 +46296,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2270, col: 7, offset: 73478},
+						pos: position{line: 2280, col: 7, offset: 73794},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2270, col: 7, offset: 73478},
+							pos: position{line: 2280, col: 7, offset: 73794},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2270, col: 7, offset: 73478},
+									pos:   position{line: 2280, col: 7, offset: 73794},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46299,21 +46319,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 42, offset: 73513},
+									pos:        position{line: 2280, col: 42, offset: 73829},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2270, col: 47, offset: 73518},
+									pos:   position{line: 2280, col: 47, offset: 73834},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2270, col: 57, offset: 73528},
+										pos:  position{line: 2280, col: 57, offset: 73844},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2270, col: 88, offset: 73559},
+									pos:        position{line: 2280, col: 88, offset: 73875},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46322,21 +46342,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 7, offset: 73758},
+						pos: position{line: 2285, col: 7, offset: 74074},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2275, col: 7, offset: 73758},
+							pos: position{line: 2285, col: 7, offset: 74074},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2275, col: 7, offset: 73758},
+									pos:   position{line: 2285, col: 7, offset: 74074},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1885, col: 25, offset: 60870},
+										pos: position{line: 1895, col: 25, offset: 61186},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1885, col: 25, offset: 60870},
+											pos: position{line: 1895, col: 25, offset: 61186},
 											expr: &litMatcher{
-												pos:        position{line: 1885, col: 25, offset: 60870},
+												pos:        position{line: 1895, col: 25, offset: 61186},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46345,21 +46365,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2275, col: 42, offset: 73793},
+									pos:        position{line: 2285, col: 42, offset: 74109},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2275, col: 46, offset: 73797},
+									pos:   position{line: 2285, col: 46, offset: 74113},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2275, col: 56, offset: 73807},
+										pos:  position{line: 2285, col: 56, offset: 74123},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2275, col: 87, offset: 73838},
+									pos:        position{line: 2285, col: 87, offset: 74154},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46372,33 +46392,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2282, col: 1, offset: 74101},
+			pos:  position{line: 2292, col: 1, offset: 74417},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 74123},
+				pos: position{line: 2293, col: 5, offset: 74439},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 74123},
+					pos: position{line: 2293, col: 5, offset: 74439},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2291, col: 32, offset: 74379},
+							pos: position{line: 2301, col: 32, offset: 74695},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2291, col: 32, offset: 74379},
+								pos:        position{line: 2301, col: 32, offset: 74695},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74155},
+							pos:   position{line: 2294, col: 5, offset: 74471},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74164},
+								pos:  position{line: 2294, col: 14, offset: 74480},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 27, offset: 74343},
+							pos:        position{line: 2299, col: 27, offset: 74659},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46409,43 +46429,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2296, col: 1, offset: 74482},
+			pos:  position{line: 2306, col: 1, offset: 74798},
 			expr: &choiceExpr{
-				pos: position{line: 2296, col: 25, offset: 74506},
+				pos: position{line: 2306, col: 25, offset: 74822},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2296, col: 25, offset: 74506},
+						pos:  position{line: 2306, col: 25, offset: 74822},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2298, col: 21, offset: 74558},
+						pos: position{line: 2308, col: 21, offset: 74874},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2298, col: 21, offset: 74558},
+							pos:   position{line: 2308, col: 21, offset: 74874},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2298, col: 29, offset: 74566},
+								pos: position{line: 2308, col: 29, offset: 74882},
 								expr: &choiceExpr{
-									pos: position{line: 2298, col: 30, offset: 74567},
+									pos: position{line: 2308, col: 30, offset: 74883},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2517, col: 5, offset: 81043},
+												pos: position{line: 2527, col: 5, offset: 81359},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2517, col: 5, offset: 81043},
+														pos: position{line: 2527, col: 5, offset: 81359},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2520, col: 5, offset: 81119},
+														pos:   position{line: 2530, col: 5, offset: 81435},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2521, col: 9, offset: 81137},
+															pos: position{line: 2531, col: 9, offset: 81453},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2521, col: 10, offset: 81138},
+																pos:        position{line: 2531, col: 10, offset: 81454},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46457,7 +46477,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2298, col: 49, offset: 74586},
+											pos:        position{line: 2308, col: 49, offset: 74902},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46473,23 +46493,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2302, col: 1, offset: 74645},
+			pos:  position{line: 2312, col: 1, offset: 74961},
 			expr: &actionExpr{
-				pos: position{line: 2304, col: 5, offset: 74712},
+				pos: position{line: 2314, col: 5, offset: 75028},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2304, col: 5, offset: 74712},
+					pos: position{line: 2314, col: 5, offset: 75028},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74712},
+							pos:   position{line: 2314, col: 5, offset: 75028},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1885, col: 25, offset: 60870},
+								pos: position{line: 1895, col: 25, offset: 61186},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1885, col: 25, offset: 60870},
+									pos: position{line: 1895, col: 25, offset: 61186},
 									expr: &litMatcher{
-										pos:        position{line: 1885, col: 25, offset: 60870},
+										pos:        position{line: 1895, col: 25, offset: 61186},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46498,25 +46518,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2291, col: 32, offset: 74379},
+							pos: position{line: 2301, col: 32, offset: 74695},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2291, col: 32, offset: 74379},
+								pos:        position{line: 2301, col: 32, offset: 74695},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 5, offset: 74785},
+							pos:   position{line: 2316, col: 5, offset: 75101},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 14, offset: 74794},
+								pos:  position{line: 2316, col: 14, offset: 75110},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 27, offset: 74343},
+							pos:        position{line: 2299, col: 27, offset: 74659},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46527,33 +46547,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2314, col: 1, offset: 75053},
+			pos:  position{line: 2324, col: 1, offset: 75369},
 			expr: &actionExpr{
-				pos: position{line: 2315, col: 5, offset: 75077},
+				pos: position{line: 2325, col: 5, offset: 75393},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2315, col: 5, offset: 75077},
+					pos: position{line: 2325, col: 5, offset: 75393},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2323, col: 34, offset: 75346},
+							pos: position{line: 2333, col: 34, offset: 75662},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2323, col: 34, offset: 75346},
+								pos:        position{line: 2333, col: 34, offset: 75662},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75111},
+							pos:   position{line: 2326, col: 5, offset: 75427},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2316, col: 14, offset: 75120},
+								pos:  position{line: 2326, col: 14, offset: 75436},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2321, col: 29, offset: 75308},
+							pos:        position{line: 2331, col: 29, offset: 75624},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46564,43 +46584,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2328, col: 1, offset: 75449},
+			pos:  position{line: 2338, col: 1, offset: 75765},
 			expr: &choiceExpr{
-				pos: position{line: 2328, col: 27, offset: 75475},
+				pos: position{line: 2338, col: 27, offset: 75791},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2328, col: 27, offset: 75475},
+						pos:  position{line: 2338, col: 27, offset: 75791},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2330, col: 23, offset: 75531},
+						pos: position{line: 2340, col: 23, offset: 75847},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2330, col: 23, offset: 75531},
+							pos:   position{line: 2340, col: 23, offset: 75847},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2330, col: 31, offset: 75539},
+								pos: position{line: 2340, col: 31, offset: 75855},
 								expr: &choiceExpr{
-									pos: position{line: 2330, col: 32, offset: 75540},
+									pos: position{line: 2340, col: 32, offset: 75856},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2517, col: 5, offset: 81043},
+												pos: position{line: 2527, col: 5, offset: 81359},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2517, col: 5, offset: 81043},
+														pos: position{line: 2527, col: 5, offset: 81359},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2520, col: 5, offset: 81119},
+														pos:   position{line: 2530, col: 5, offset: 81435},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2521, col: 9, offset: 81137},
+															pos: position{line: 2531, col: 9, offset: 81453},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2521, col: 10, offset: 81138},
+																pos:        position{line: 2531, col: 10, offset: 81454},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46612,7 +46632,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2330, col: 51, offset: 75559},
+											pos:        position{line: 2340, col: 51, offset: 75875},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46628,23 +46648,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2334, col: 1, offset: 75618},
+			pos:  position{line: 2344, col: 1, offset: 75934},
 			expr: &actionExpr{
-				pos: position{line: 2336, col: 5, offset: 75690},
+				pos: position{line: 2346, col: 5, offset: 76006},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2336, col: 5, offset: 75690},
+					pos: position{line: 2346, col: 5, offset: 76006},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2336, col: 5, offset: 75690},
+							pos:   position{line: 2346, col: 5, offset: 76006},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1885, col: 25, offset: 60870},
+								pos: position{line: 1895, col: 25, offset: 61186},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1885, col: 25, offset: 60870},
+									pos: position{line: 1895, col: 25, offset: 61186},
 									expr: &litMatcher{
-										pos:        position{line: 1885, col: 25, offset: 60870},
+										pos:        position{line: 1895, col: 25, offset: 61186},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46653,25 +46673,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2323, col: 34, offset: 75346},
+							pos: position{line: 2333, col: 34, offset: 75662},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2323, col: 34, offset: 75346},
+								pos:        position{line: 2333, col: 34, offset: 75662},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2338, col: 5, offset: 75765},
+							pos:   position{line: 2348, col: 5, offset: 76081},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2338, col: 14, offset: 75774},
+								pos:  position{line: 2348, col: 14, offset: 76090},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2321, col: 29, offset: 75308},
+							pos:        position{line: 2331, col: 29, offset: 75624},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46682,27 +46702,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2347, col: 1, offset: 76239},
+			pos:  position{line: 2357, col: 1, offset: 76555},
 			expr: &actionExpr{
-				pos: position{line: 2348, col: 5, offset: 76255},
+				pos: position{line: 2358, col: 5, offset: 76571},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2348, col: 5, offset: 76255},
+					pos: position{line: 2358, col: 5, offset: 76571},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2348, col: 5, offset: 76255},
+							pos: position{line: 2358, col: 5, offset: 76571},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2351, col: 5, offset: 76318},
+							pos:   position{line: 2361, col: 5, offset: 76634},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2351, col: 12, offset: 76325},
+								pos: position{line: 2361, col: 12, offset: 76641},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2351, col: 12, offset: 76325},
+									pos: position{line: 2361, col: 12, offset: 76641},
 									expr: &litMatcher{
-										pos:        position{line: 2351, col: 13, offset: 76326},
+										pos:        position{line: 2361, col: 13, offset: 76642},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46711,16 +46731,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2355, col: 5, offset: 76434},
+							pos: position{line: 2365, col: 5, offset: 76750},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2967, col: 11, offset: 93915},
+							pos: position{line: 2977, col: 11, offset: 94231},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2967, col: 11, offset: 93915},
+								pos: position{line: 2977, col: 11, offset: 94231},
 								expr: &charClassMatcher{
-									pos:        position{line: 2967, col: 11, offset: 93915},
+									pos:        position{line: 2977, col: 11, offset: 94231},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46729,36 +46749,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2359, col: 12, offset: 76593},
+							pos:   position{line: 2369, col: 12, offset: 76909},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2359, col: 19, offset: 76600},
+								pos:  position{line: 2369, col: 19, offset: 76916},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46767,9 +46787,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -46780,24 +46800,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2363, col: 1, offset: 76696},
+			pos:  position{line: 2373, col: 1, offset: 77012},
 			expr: &actionExpr{
-				pos: position{line: 2364, col: 5, offset: 76717},
+				pos: position{line: 2374, col: 5, offset: 77033},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2364, col: 5, offset: 76717},
+					pos: position{line: 2374, col: 5, offset: 77033},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2364, col: 5, offset: 76717},
+							pos: position{line: 2374, col: 5, offset: 77033},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2370, col: 5, offset: 76861},
+							pos:   position{line: 2380, col: 5, offset: 77177},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2370, col: 14, offset: 76870},
+								pos: position{line: 2380, col: 14, offset: 77186},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2370, col: 15, offset: 76871},
+									pos:  position{line: 2380, col: 15, offset: 77187},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46808,38 +46828,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2374, col: 1, offset: 76952},
+			pos:  position{line: 2384, col: 1, offset: 77268},
 			expr: &actionExpr{
-				pos: position{line: 2375, col: 5, offset: 76979},
+				pos: position{line: 2385, col: 5, offset: 77295},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2375, col: 5, offset: 76979},
+					pos: position{line: 2385, col: 5, offset: 77295},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2375, col: 5, offset: 76979},
+							pos: position{line: 2385, col: 5, offset: 77295},
 							expr: &choiceExpr{
-								pos: position{line: 2985, col: 8, offset: 94252},
+								pos: position{line: 2995, col: 8, offset: 94568},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94025},
+										pos: position{line: 2982, col: 12, offset: 94341},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94026},
+											pos: position{line: 2982, col: 13, offset: 94342},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94026},
+													pos:        position{line: 2982, col: 13, offset: 94342},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94033},
+													pos:        position{line: 2982, col: 20, offset: 94349},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94042},
+													pos:        position{line: 2982, col: 29, offset: 94358},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46848,45 +46868,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2982, col: 8, offset: 94202},
+										pos: position{line: 2992, col: 8, offset: 94518},
 										expr: &anyMatcher{
-											line: 2982, col: 9, offset: 94203,
+											line: 2992, col: 9, offset: 94519,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2376, col: 5, offset: 76988},
+							pos:   position{line: 2386, col: 5, offset: 77304},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2377, col: 9, offset: 77006},
+								pos: position{line: 2387, col: 9, offset: 77322},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89949},
+										pos: position{line: 2836, col: 5, offset: 90265},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89949},
+											pos: position{line: 2836, col: 5, offset: 90265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89949},
+													pos: position{line: 2836, col: 5, offset: 90265},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89960},
+														pos: position{line: 2837, col: 9, offset: 90276},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89960},
+																pos: position{line: 2837, col: 9, offset: 90276},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90023},
+																pos:   position{line: 2840, col: 9, offset: 90339},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89335},
+																	pos: position{line: 2812, col: 18, offset: 89651},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89336},
+																		pos: position{line: 2812, col: 19, offset: 89652},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89336},
+																			pos:        position{line: 2812, col: 19, offset: 89652},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46897,28 +46917,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90044},
+																pos:        position{line: 2840, col: 30, offset: 90360},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90131},
+																pos: position{line: 2841, col: 9, offset: 90447},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90243},
+													pos:   position{line: 2845, col: 5, offset: 90559},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90249},
+														pos: position{line: 2845, col: 11, offset: 90565},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90249},
+															pos: position{line: 2845, col: 11, offset: 90565},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90249},
+																pos:        position{line: 2845, col: 11, offset: 90565},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46928,32 +46948,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90307},
+													pos: position{line: 2848, col: 5, offset: 90623},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90318},
+														pos: position{line: 2849, col: 9, offset: 90634},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90318},
+																pos:        position{line: 2849, col: 9, offset: 90634},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90367},
+																pos: position{line: 2850, col: 9, offset: 90683},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90447},
+													pos: position{line: 2854, col: 5, offset: 90763},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90458},
+														pos: position{line: 2855, col: 9, offset: 90774},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90458},
+																pos: position{line: 2855, col: 9, offset: 90774},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90458},
+																	pos:        position{line: 2855, col: 9, offset: 90774},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46962,13 +46982,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90472},
+																pos:        position{line: 2855, col: 23, offset: 90788},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90476},
+																pos:        position{line: 2855, col: 27, offset: 90792},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46981,12 +47001,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2967, col: 11, offset: 93915},
+										pos: position{line: 2977, col: 11, offset: 94231},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2967, col: 11, offset: 93915},
+											pos: position{line: 2977, col: 11, offset: 94231},
 											expr: &charClassMatcher{
-												pos:        position{line: 2967, col: 11, offset: 93915},
+												pos:        position{line: 2977, col: 11, offset: 94231},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46995,25 +47015,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82214},
+										pos: position{line: 2558, col: 5, offset: 82530},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82214},
+											pos: position{line: 2558, col: 5, offset: 82530},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82214},
+													pos: position{line: 2558, col: 5, offset: 82530},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82285},
+													pos:        position{line: 2561, col: 5, offset: 82601},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82290},
+													pos: position{line: 2561, col: 10, offset: 82606},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82291},
+														pos:        position{line: 2561, col: 11, offset: 82607},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47024,29 +47044,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82477},
+										pos: position{line: 2567, col: 5, offset: 82793},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82477},
+											pos: position{line: 2567, col: 5, offset: 82793},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82477},
+													pos: position{line: 2567, col: 5, offset: 82793},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82548},
+													pos: position{line: 2570, col: 5, offset: 82864},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82673},
+													pos:        position{line: 2574, col: 5, offset: 82989},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82677},
+													pos: position{line: 2574, col: 9, offset: 82993},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82678},
+														pos:        position{line: 2574, col: 10, offset: 82994},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47057,31 +47077,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2380, col: 11, offset: 77071},
+										pos:  position{line: 2390, col: 11, offset: 77387},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90669},
+										pos: position{line: 2863, col: 5, offset: 90985},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90679},
+											pos: position{line: 2864, col: 9, offset: 90995},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90680},
+													pos:        position{line: 2864, col: 10, offset: 90996},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90777},
+													pos: position{line: 2866, col: 13, offset: 91093},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90777},
+															pos: position{line: 2866, col: 13, offset: 91093},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90877},
+															pos:        position{line: 2869, col: 13, offset: 91193},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47089,20 +47109,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90883},
+													pos:        position{line: 2869, col: 19, offset: 91199},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90921},
+													pos: position{line: 2872, col: 13, offset: 91237},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90921},
+															pos: position{line: 2872, col: 13, offset: 91237},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91014},
+															pos:        position{line: 2875, col: 14, offset: 91330},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47111,18 +47131,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91058},
+													pos: position{line: 2877, col: 12, offset: 91374},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91058},
+															pos:        position{line: 2877, col: 12, offset: 91374},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91062},
+															pos: position{line: 2877, col: 16, offset: 91378},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91063},
+																pos:        position{line: 2877, col: 17, offset: 91379},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47134,35 +47154,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2382, col: 11, offset: 77144},
+										pos:  position{line: 2392, col: 11, offset: 77460},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77160},
+										pos:  position{line: 2393, col: 11, offset: 77476},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2384, col: 11, offset: 77188},
+										pos:  position{line: 2394, col: 11, offset: 77504},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81043},
+										pos: position{line: 2527, col: 5, offset: 81359},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81043},
+													pos: position{line: 2527, col: 5, offset: 81359},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81119},
+													pos:   position{line: 2530, col: 5, offset: 81435},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81137},
+														pos: position{line: 2531, col: 9, offset: 81453},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81138},
+															pos:        position{line: 2531, col: 10, offset: 81454},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47174,7 +47194,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77273},
+										pos:  position{line: 2396, col: 11, offset: 77589},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47563,17 +47583,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2399, col: 5, offset: 77726},
+										pos: position{line: 2409, col: 5, offset: 78042},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2399, col: 5, offset: 77726},
+											pos: position{line: 2409, col: 5, offset: 78042},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2399, col: 5, offset: 77726},
+													pos: position{line: 2409, col: 5, offset: 78042},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2402, col: 5, offset: 77781},
+													pos:   position{line: 2412, col: 5, offset: 78097},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -48027,12 +48047,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2402, col: 26, offset: 77802},
+													pos: position{line: 2412, col: 26, offset: 78118},
 													expr: &actionExpr{
-														pos: position{line: 2963, col: 10, offset: 93854},
+														pos: position{line: 2973, col: 10, offset: 94170},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2963, col: 10, offset: 93854},
+															pos:        position{line: 2973, col: 10, offset: 94170},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -48041,30 +48061,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2402, col: 33, offset: 77809},
+													pos: position{line: 2412, col: 33, offset: 78125},
 													expr: &choiceExpr{
-														pos: position{line: 2985, col: 8, offset: 94252},
+														pos: position{line: 2995, col: 8, offset: 94568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2972, col: 12, offset: 94025},
+																pos: position{line: 2982, col: 12, offset: 94341},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2972, col: 13, offset: 94026},
+																	pos: position{line: 2982, col: 13, offset: 94342},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 13, offset: 94026},
+																			pos:        position{line: 2982, col: 13, offset: 94342},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 20, offset: 94033},
+																			pos:        position{line: 2982, col: 20, offset: 94349},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2972, col: 29, offset: 94042},
+																			pos:        position{line: 2982, col: 29, offset: 94358},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -48073,9 +48093,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2982, col: 8, offset: 94202},
+																pos: position{line: 2992, col: 8, offset: 94518},
 																expr: &anyMatcher{
-																	line: 2982, col: 9, offset: 94203,
+																	line: 2992, col: 9, offset: 94519,
 																},
 															},
 														},
@@ -48100,12 +48120,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93506},
+														pos: position{line: 2958, col: 7, offset: 93822},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93506},
+															pos: position{line: 2958, col: 7, offset: 93822},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93506},
+																pos:        position{line: 2958, col: 7, offset: 93822},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48139,12 +48159,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93506},
+														pos: position{line: 2958, col: 7, offset: 93822},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93506},
+															pos: position{line: 2958, col: 7, offset: 93822},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93506},
+																pos:        position{line: 2958, col: 7, offset: 93822},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48163,14 +48183,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77527},
+										pos:  position{line: 2401, col: 11, offset: 77843},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91323},
+										pos: position{line: 2885, col: 12, offset: 91639},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91323},
+											pos:        position{line: 2885, col: 12, offset: 91639},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48186,61 +48206,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2412, col: 1, offset: 78071},
+			pos:  position{line: 2422, col: 1, offset: 78387},
 			expr: &actionExpr{
-				pos: position{line: 2413, col: 5, offset: 78158},
+				pos: position{line: 2423, col: 5, offset: 78474},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2413, col: 5, offset: 78158},
+					pos: position{line: 2423, col: 5, offset: 78474},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2413, col: 5, offset: 78158},
+							pos:   position{line: 2423, col: 5, offset: 78474},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2413, col: 14, offset: 78167},
+								pos: position{line: 2423, col: 14, offset: 78483},
 								expr: &actionExpr{
-									pos: position{line: 2415, col: 9, offset: 78193},
+									pos: position{line: 2425, col: 9, offset: 78509},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2415, col: 9, offset: 78193},
+										pos: position{line: 2425, col: 9, offset: 78509},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94188},
+												pos: position{line: 2990, col: 11, offset: 94504},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94190,
+													line: 2990, col: 13, offset: 94506,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2416, col: 9, offset: 78208},
+												pos:   position{line: 2426, col: 9, offset: 78524},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2417, col: 13, offset: 78230},
+													pos: position{line: 2427, col: 13, offset: 78546},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2826, col: 5, offset: 89949},
+															pos: position{line: 2836, col: 5, offset: 90265},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2826, col: 5, offset: 89949},
+																pos: position{line: 2836, col: 5, offset: 90265},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2826, col: 5, offset: 89949},
+																		pos: position{line: 2836, col: 5, offset: 90265},
 																		expr: &seqExpr{
-																			pos: position{line: 2827, col: 9, offset: 89960},
+																			pos: position{line: 2837, col: 9, offset: 90276},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2827, col: 9, offset: 89960},
+																					pos: position{line: 2837, col: 9, offset: 90276},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2830, col: 9, offset: 90023},
+																					pos:   position{line: 2840, col: 9, offset: 90339},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 18, offset: 89335},
+																						pos: position{line: 2812, col: 18, offset: 89651},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 19, offset: 89336},
+																							pos: position{line: 2812, col: 19, offset: 89652},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 19, offset: 89336},
+																								pos:        position{line: 2812, col: 19, offset: 89652},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48251,28 +48271,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2830, col: 30, offset: 90044},
+																					pos:        position{line: 2840, col: 30, offset: 90360},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2831, col: 9, offset: 90131},
+																					pos: position{line: 2841, col: 9, offset: 90447},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2835, col: 5, offset: 90243},
+																		pos:   position{line: 2845, col: 5, offset: 90559},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 11, offset: 90249},
+																			pos: position{line: 2845, col: 11, offset: 90565},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2835, col: 11, offset: 90249},
+																				pos: position{line: 2845, col: 11, offset: 90565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 11, offset: 90249},
+																					pos:        position{line: 2845, col: 11, offset: 90565},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48282,32 +48302,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2838, col: 5, offset: 90307},
+																		pos: position{line: 2848, col: 5, offset: 90623},
 																		expr: &seqExpr{
-																			pos: position{line: 2839, col: 9, offset: 90318},
+																			pos: position{line: 2849, col: 9, offset: 90634},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2839, col: 9, offset: 90318},
+																					pos:        position{line: 2849, col: 9, offset: 90634},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2840, col: 9, offset: 90367},
+																					pos: position{line: 2850, col: 9, offset: 90683},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2844, col: 5, offset: 90447},
+																		pos: position{line: 2854, col: 5, offset: 90763},
 																		expr: &seqExpr{
-																			pos: position{line: 2845, col: 9, offset: 90458},
+																			pos: position{line: 2855, col: 9, offset: 90774},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2845, col: 9, offset: 90458},
+																					pos: position{line: 2855, col: 9, offset: 90774},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2845, col: 9, offset: 90458},
+																						pos:        position{line: 2855, col: 9, offset: 90774},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48316,13 +48336,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2845, col: 23, offset: 90472},
+																					pos:        position{line: 2855, col: 23, offset: 90788},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2845, col: 27, offset: 90476},
+																					pos:        position{line: 2855, col: 27, offset: 90792},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48335,12 +48355,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2967, col: 11, offset: 93915},
+															pos: position{line: 2977, col: 11, offset: 94231},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2967, col: 11, offset: 93915},
+																pos: position{line: 2977, col: 11, offset: 94231},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2967, col: 11, offset: 93915},
+																	pos:        position{line: 2977, col: 11, offset: 94231},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48349,29 +48369,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2419, col: 15, offset: 78276},
+															pos:  position{line: 2429, col: 15, offset: 78592},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2548, col: 5, offset: 82214},
+															pos: position{line: 2558, col: 5, offset: 82530},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2548, col: 5, offset: 82214},
+																pos: position{line: 2558, col: 5, offset: 82530},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2548, col: 5, offset: 82214},
+																		pos: position{line: 2558, col: 5, offset: 82530},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2551, col: 5, offset: 82285},
+																		pos:        position{line: 2561, col: 5, offset: 82601},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2551, col: 10, offset: 82290},
+																		pos: position{line: 2561, col: 10, offset: 82606},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2551, col: 11, offset: 82291},
+																			pos:        position{line: 2561, col: 11, offset: 82607},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48382,29 +48402,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2557, col: 5, offset: 82477},
+															pos: position{line: 2567, col: 5, offset: 82793},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2557, col: 5, offset: 82477},
+																pos: position{line: 2567, col: 5, offset: 82793},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2557, col: 5, offset: 82477},
+																		pos: position{line: 2567, col: 5, offset: 82793},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2560, col: 5, offset: 82548},
+																		pos: position{line: 2570, col: 5, offset: 82864},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2564, col: 5, offset: 82673},
+																		pos:        position{line: 2574, col: 5, offset: 82989},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2564, col: 9, offset: 82677},
+																		pos: position{line: 2574, col: 9, offset: 82993},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2564, col: 10, offset: 82678},
+																			pos:        position{line: 2574, col: 10, offset: 82994},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48415,27 +48435,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2853, col: 5, offset: 90669},
+															pos: position{line: 2863, col: 5, offset: 90985},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2854, col: 9, offset: 90679},
+																pos: position{line: 2864, col: 9, offset: 90995},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2854, col: 10, offset: 90680},
+																		pos:        position{line: 2864, col: 10, offset: 90996},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2856, col: 13, offset: 90777},
+																		pos: position{line: 2866, col: 13, offset: 91093},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2856, col: 13, offset: 90777},
+																				pos: position{line: 2866, col: 13, offset: 91093},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2859, col: 13, offset: 90877},
+																				pos:        position{line: 2869, col: 13, offset: 91193},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48443,20 +48463,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2859, col: 19, offset: 90883},
+																		pos:        position{line: 2869, col: 19, offset: 91199},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2862, col: 13, offset: 90921},
+																		pos: position{line: 2872, col: 13, offset: 91237},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2862, col: 13, offset: 90921},
+																				pos: position{line: 2872, col: 13, offset: 91237},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2865, col: 14, offset: 91014},
+																				pos:        position{line: 2875, col: 14, offset: 91330},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48465,18 +48485,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2867, col: 12, offset: 91058},
+																		pos: position{line: 2877, col: 12, offset: 91374},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2867, col: 12, offset: 91058},
+																				pos:        position{line: 2877, col: 12, offset: 91374},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2867, col: 16, offset: 91062},
+																				pos: position{line: 2877, col: 16, offset: 91378},
 																				expr: &litMatcher{
-																					pos:        position{line: 2867, col: 17, offset: 91063},
+																					pos:        position{line: 2877, col: 17, offset: 91379},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48488,25 +48508,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2972, col: 12, offset: 94025},
+															pos: position{line: 2982, col: 12, offset: 94341},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2972, col: 13, offset: 94026},
+																pos: position{line: 2982, col: 13, offset: 94342},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 13, offset: 94026},
+																		pos:        position{line: 2982, col: 13, offset: 94342},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 20, offset: 94033},
+																		pos:        position{line: 2982, col: 20, offset: 94349},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2972, col: 29, offset: 94042},
+																		pos:        position{line: 2982, col: 29, offset: 94358},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48861,35 +48881,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2424, col: 15, offset: 78443},
+															pos:  position{line: 2434, col: 15, offset: 78759},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2425, col: 15, offset: 78463},
+															pos:  position{line: 2435, col: 15, offset: 78779},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2426, col: 15, offset: 78552},
+															pos:  position{line: 2436, col: 15, offset: 78868},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2517, col: 5, offset: 81043},
+															pos: position{line: 2527, col: 5, offset: 81359},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2517, col: 5, offset: 81043},
+																pos: position{line: 2527, col: 5, offset: 81359},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2517, col: 5, offset: 81043},
+																		pos: position{line: 2527, col: 5, offset: 81359},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2520, col: 5, offset: 81119},
+																		pos:   position{line: 2530, col: 5, offset: 81435},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2521, col: 9, offset: 81137},
+																			pos: position{line: 2531, col: 9, offset: 81453},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2521, col: 10, offset: 81138},
+																				pos:        position{line: 2531, col: 10, offset: 81454},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48923,10 +48943,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48937,28 +48957,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2985, col: 8, offset: 94252},
+																			pos: position{line: 2995, col: 8, offset: 94568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48967,9 +48987,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2982, col: 8, offset: 94202},
+																					pos: position{line: 2992, col: 8, offset: 94518},
 																					expr: &anyMatcher{
-																						line: 2982, col: 9, offset: 94203,
+																						line: 2992, col: 9, offset: 94519,
 																					},
 																				},
 																			},
@@ -48979,7 +48999,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2429, col: 15, offset: 78734},
+															pos:  position{line: 2439, col: 15, offset: 79050},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -49022,10 +49042,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 91323},
+															pos: position{line: 2885, col: 12, offset: 91639},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 12, offset: 91323},
+																pos:        position{line: 2885, col: 12, offset: 91639},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -49041,9 +49061,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -49052,28 +49072,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2440, col: 1, offset: 79172},
+			pos:  position{line: 2450, col: 1, offset: 79488},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 79205},
+				pos: position{line: 2451, col: 5, offset: 79521},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 79205},
+					pos: position{line: 2451, col: 5, offset: 79521},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 79205},
+							pos:   position{line: 2451, col: 5, offset: 79521},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2441, col: 14, offset: 79214},
+								pos: position{line: 2451, col: 14, offset: 79530},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2441, col: 15, offset: 79215},
+									pos:  position{line: 2451, col: 15, offset: 79531},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -49082,50 +49102,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2445, col: 1, offset: 79312},
+			pos:  position{line: 2455, col: 1, offset: 79628},
 			expr: &actionExpr{
-				pos: position{line: 2446, col: 5, offset: 79352},
+				pos: position{line: 2456, col: 5, offset: 79668},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2446, col: 5, offset: 79352},
+					pos: position{line: 2456, col: 5, offset: 79668},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2980, col: 11, offset: 94188},
+							pos: position{line: 2990, col: 11, offset: 94504},
 							expr: &anyMatcher{
-								line: 2980, col: 13, offset: 94190,
+								line: 2990, col: 13, offset: 94506,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2447, col: 5, offset: 79363},
+							pos:   position{line: 2457, col: 5, offset: 79679},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2448, col: 9, offset: 79381},
+								pos: position{line: 2458, col: 9, offset: 79697},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2826, col: 5, offset: 89949},
+										pos: position{line: 2836, col: 5, offset: 90265},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 5, offset: 89949},
+											pos: position{line: 2836, col: 5, offset: 90265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 5, offset: 89949},
+													pos: position{line: 2836, col: 5, offset: 90265},
 													expr: &seqExpr{
-														pos: position{line: 2827, col: 9, offset: 89960},
+														pos: position{line: 2837, col: 9, offset: 90276},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2827, col: 9, offset: 89960},
+																pos: position{line: 2837, col: 9, offset: 90276},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2830, col: 9, offset: 90023},
+																pos:   position{line: 2840, col: 9, offset: 90339},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2802, col: 18, offset: 89335},
+																	pos: position{line: 2812, col: 18, offset: 89651},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2802, col: 19, offset: 89336},
+																		pos: position{line: 2812, col: 19, offset: 89652},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2802, col: 19, offset: 89336},
+																			pos:        position{line: 2812, col: 19, offset: 89652},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49136,28 +49156,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 30, offset: 90044},
+																pos:        position{line: 2840, col: 30, offset: 90360},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2831, col: 9, offset: 90131},
+																pos: position{line: 2841, col: 9, offset: 90447},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 90243},
+													pos:   position{line: 2845, col: 5, offset: 90559},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 11, offset: 90249},
+														pos: position{line: 2845, col: 11, offset: 90565},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2835, col: 11, offset: 90249},
+															pos: position{line: 2845, col: 11, offset: 90565},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 11, offset: 90249},
+																pos:        position{line: 2845, col: 11, offset: 90565},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49167,32 +49187,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2838, col: 5, offset: 90307},
+													pos: position{line: 2848, col: 5, offset: 90623},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 9, offset: 90318},
+														pos: position{line: 2849, col: 9, offset: 90634},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 9, offset: 90318},
+																pos:        position{line: 2849, col: 9, offset: 90634},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2840, col: 9, offset: 90367},
+																pos: position{line: 2850, col: 9, offset: 90683},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2844, col: 5, offset: 90447},
+													pos: position{line: 2854, col: 5, offset: 90763},
 													expr: &seqExpr{
-														pos: position{line: 2845, col: 9, offset: 90458},
+														pos: position{line: 2855, col: 9, offset: 90774},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2845, col: 9, offset: 90458},
+																pos: position{line: 2855, col: 9, offset: 90774},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2845, col: 9, offset: 90458},
+																	pos:        position{line: 2855, col: 9, offset: 90774},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49201,13 +49221,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2845, col: 23, offset: 90472},
+																pos:        position{line: 2855, col: 23, offset: 90788},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2845, col: 27, offset: 90476},
+																pos:        position{line: 2855, col: 27, offset: 90792},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49220,10 +49240,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2963, col: 10, offset: 93854},
+										pos: position{line: 2973, col: 10, offset: 94170},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2963, col: 10, offset: 93854},
+											pos:        position{line: 2973, col: 10, offset: 94170},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49231,29 +49251,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79419},
+										pos:  position{line: 2460, col: 11, offset: 79735},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2548, col: 5, offset: 82214},
+										pos: position{line: 2558, col: 5, offset: 82530},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2548, col: 5, offset: 82214},
+											pos: position{line: 2558, col: 5, offset: 82530},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2548, col: 5, offset: 82214},
+													pos: position{line: 2558, col: 5, offset: 82530},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2551, col: 5, offset: 82285},
+													pos:        position{line: 2561, col: 5, offset: 82601},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2551, col: 10, offset: 82290},
+													pos: position{line: 2561, col: 10, offset: 82606},
 													expr: &charClassMatcher{
-														pos:        position{line: 2551, col: 11, offset: 82291},
+														pos:        position{line: 2561, col: 11, offset: 82607},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49264,29 +49284,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2557, col: 5, offset: 82477},
+										pos: position{line: 2567, col: 5, offset: 82793},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2557, col: 5, offset: 82477},
+											pos: position{line: 2567, col: 5, offset: 82793},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2557, col: 5, offset: 82477},
+													pos: position{line: 2567, col: 5, offset: 82793},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2560, col: 5, offset: 82548},
+													pos: position{line: 2570, col: 5, offset: 82864},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2564, col: 5, offset: 82673},
+													pos:        position{line: 2574, col: 5, offset: 82989},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2564, col: 9, offset: 82677},
+													pos: position{line: 2574, col: 9, offset: 82993},
 													expr: &charClassMatcher{
-														pos:        position{line: 2564, col: 10, offset: 82678},
+														pos:        position{line: 2574, col: 10, offset: 82994},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49297,27 +49317,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2853, col: 5, offset: 90669},
+										pos: position{line: 2863, col: 5, offset: 90985},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2854, col: 9, offset: 90679},
+											pos: position{line: 2864, col: 9, offset: 90995},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 10, offset: 90680},
+													pos:        position{line: 2864, col: 10, offset: 90996},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90777},
+													pos: position{line: 2866, col: 13, offset: 91093},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2856, col: 13, offset: 90777},
+															pos: position{line: 2866, col: 13, offset: 91093},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2859, col: 13, offset: 90877},
+															pos:        position{line: 2869, col: 13, offset: 91193},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49325,20 +49345,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2859, col: 19, offset: 90883},
+													pos:        position{line: 2869, col: 19, offset: 91199},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2862, col: 13, offset: 90921},
+													pos: position{line: 2872, col: 13, offset: 91237},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2862, col: 13, offset: 90921},
+															pos: position{line: 2872, col: 13, offset: 91237},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2865, col: 14, offset: 91014},
+															pos:        position{line: 2875, col: 14, offset: 91330},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49347,18 +49367,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2867, col: 12, offset: 91058},
+													pos: position{line: 2877, col: 12, offset: 91374},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2867, col: 12, offset: 91058},
+															pos:        position{line: 2877, col: 12, offset: 91374},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2867, col: 16, offset: 91062},
+															pos: position{line: 2877, col: 16, offset: 91378},
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 17, offset: 91063},
+																pos:        position{line: 2877, col: 17, offset: 91379},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49370,31 +49390,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79519},
+										pos:  position{line: 2463, col: 11, offset: 79835},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 79535},
+										pos:  position{line: 2464, col: 11, offset: 79851},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81043},
+										pos: position{line: 2527, col: 5, offset: 81359},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81043},
+											pos: position{line: 2527, col: 5, offset: 81359},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81043},
+													pos: position{line: 2527, col: 5, offset: 81359},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2520, col: 5, offset: 81119},
+													pos:   position{line: 2530, col: 5, offset: 81435},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2521, col: 9, offset: 81137},
+														pos: position{line: 2531, col: 9, offset: 81453},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2521, col: 10, offset: 81138},
+															pos:        position{line: 2531, col: 10, offset: 81454},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49445,25 +49465,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2972, col: 12, offset: 94025},
+										pos: position{line: 2982, col: 12, offset: 94341},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2972, col: 13, offset: 94026},
+											pos: position{line: 2982, col: 13, offset: 94342},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2972, col: 13, offset: 94026},
+													pos:        position{line: 2982, col: 13, offset: 94342},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 20, offset: 94033},
+													pos:        position{line: 2982, col: 20, offset: 94349},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2972, col: 29, offset: 94042},
+													pos:        position{line: 2982, col: 29, offset: 94358},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49472,10 +49492,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 91323},
+										pos: position{line: 2885, col: 12, offset: 91639},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2875, col: 12, offset: 91323},
+											pos:        position{line: 2885, col: 12, offset: 91639},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49491,49 +49511,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2465, col: 1, offset: 79805},
+			pos:  position{line: 2475, col: 1, offset: 80121},
 			expr: &actionExpr{
-				pos: position{line: 2467, col: 5, offset: 79887},
+				pos: position{line: 2477, col: 5, offset: 80203},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2467, col: 5, offset: 79887},
+					pos: position{line: 2477, col: 5, offset: 80203},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2467, col: 5, offset: 79887},
+							pos: position{line: 2477, col: 5, offset: 80203},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2470, col: 5, offset: 79952},
+							pos:   position{line: 2480, col: 5, offset: 80268},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2471, col: 9, offset: 79970},
+								pos: position{line: 2481, col: 9, offset: 80286},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2471, col: 9, offset: 79970},
+										pos:  position{line: 2481, col: 9, offset: 80286},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2472, col: 11, offset: 79991},
+										pos:  position{line: 2482, col: 11, offset: 80307},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2473, col: 11, offset: 80014},
+										pos:  position{line: 2483, col: 11, offset: 80330},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2474, col: 11, offset: 80030},
+										pos:  position{line: 2484, col: 11, offset: 80346},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2475, col: 11, offset: 80059},
+										pos:  position{line: 2485, col: 11, offset: 80375},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2476, col: 11, offset: 80085},
+										pos:  position{line: 2486, col: 11, offset: 80401},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2477, col: 11, offset: 80111},
+										pos:  position{line: 2487, col: 11, offset: 80427},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49552,12 +49572,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93506},
+														pos: position{line: 2958, col: 7, offset: 93822},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93506},
+															pos: position{line: 2958, col: 7, offset: 93822},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93506},
+																pos:        position{line: 2958, col: 7, offset: 93822},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49591,12 +49611,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2948, col: 7, offset: 93506},
+														pos: position{line: 2958, col: 7, offset: 93822},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2948, col: 7, offset: 93506},
+															pos: position{line: 2958, col: 7, offset: 93822},
 															expr: &charClassMatcher{
-																pos:        position{line: 2948, col: 7, offset: 93506},
+																pos:        position{line: 2958, col: 7, offset: 93822},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49638,17 +49658,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2817, col: 13, offset: 89802},
+																		pos:        position{line: 2827, col: 13, offset: 90118},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2963, col: 10, offset: 93854},
+																		pos: position{line: 2973, col: 10, offset: 94170},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2963, col: 10, offset: 93854},
+																			pos:        position{line: 2973, col: 10, offset: 94170},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49674,10 +49694,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49694,10 +49714,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49717,17 +49737,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2817, col: 13, offset: 89802},
+																							pos:        position{line: 2827, col: 13, offset: 90118},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49758,10 +49778,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49778,10 +49798,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2963, col: 10, offset: 93854},
+																			pos: position{line: 2973, col: 10, offset: 94170},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2963, col: 10, offset: 93854},
+																				pos:        position{line: 2973, col: 10, offset: 94170},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49801,17 +49821,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2817, col: 13, offset: 89802},
+																							pos:        position{line: 2827, col: 13, offset: 90118},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2963, col: 10, offset: 93854},
+																							pos: position{line: 2973, col: 10, offset: 94170},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2963, col: 10, offset: 93854},
+																								pos:        position{line: 2973, col: 10, offset: 94170},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49838,15 +49858,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2480, col: 11, offset: 80190},
+										pos:  position{line: 2490, col: 11, offset: 80506},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 11, offset: 80210},
+										pos:  position{line: 2491, col: 11, offset: 80526},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80233},
+										pos:  position{line: 2492, col: 11, offset: 80549},
 										name: "InlineMenu",
 									},
 								},
@@ -49858,22 +49878,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2486, col: 1, offset: 80290},
+			pos:  position{line: 2496, col: 1, offset: 80606},
 			expr: &actionExpr{
-				pos: position{line: 2488, col: 5, offset: 80378},
+				pos: position{line: 2498, col: 5, offset: 80694},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2488, col: 5, offset: 80378},
+					pos: position{line: 2498, col: 5, offset: 80694},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2488, col: 5, offset: 80378},
+							pos: position{line: 2498, col: 5, offset: 80694},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2491, col: 5, offset: 80455},
+							pos:   position{line: 2501, col: 5, offset: 80771},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2492, col: 9, offset: 80473},
+								pos: position{line: 2502, col: 9, offset: 80789},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1416, col: 26, offset: 44997},
@@ -49928,10 +49948,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1422, col: 12, offset: 45433},
 																				expr: &actionExpr{
-																					pos: position{line: 2963, col: 10, offset: 93854},
+																					pos: position{line: 2973, col: 10, offset: 94170},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2963, col: 10, offset: 93854},
+																						pos:        position{line: 2973, col: 10, offset: 94170},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49942,25 +49962,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1422, col: 19, offset: 45440},
 																				expr: &actionExpr{
-																					pos: position{line: 2972, col: 12, offset: 94025},
+																					pos: position{line: 2982, col: 12, offset: 94341},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2972, col: 13, offset: 94026},
+																						pos: position{line: 2982, col: 13, offset: 94342},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 13, offset: 94026},
+																								pos:        position{line: 2982, col: 13, offset: 94342},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 20, offset: 94033},
+																								pos:        position{line: 2982, col: 20, offset: 94349},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2972, col: 29, offset: 94042},
+																								pos:        position{line: 2982, col: 29, offset: 94358},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -50037,10 +50057,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 64, offset: 44552},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonInlinePassthrough44,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50051,25 +50071,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 71, offset: 44559},
 																			expr: &actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonInlinePassthrough47,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50092,12 +50112,12 @@ var g = &grammar{
 																							pos: position{line: 1408, col: 86, offset: 44574},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2967, col: 11, offset: 93915},
+																									pos: position{line: 2977, col: 11, offset: 94231},
 																									run: (*parser).callonInlinePassthrough57,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2967, col: 11, offset: 93915},
+																										pos: position{line: 2977, col: 11, offset: 94231},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2967, col: 11, offset: 93915},
+																											pos:        position{line: 2977, col: 11, offset: 94231},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -50126,25 +50146,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1408, col: 151, offset: 44639},
 																						expr: &actionExpr{
-																							pos: position{line: 2972, col: 12, offset: 94025},
+																							pos: position{line: 2982, col: 12, offset: 94341},
 																							run: (*parser).callonInlinePassthrough64,
 																							expr: &choiceExpr{
-																								pos: position{line: 2972, col: 13, offset: 94026},
+																								pos: position{line: 2982, col: 13, offset: 94342},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 13, offset: 94026},
+																										pos:        position{line: 2982, col: 13, offset: 94342},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 20, offset: 94033},
+																										pos:        position{line: 2982, col: 20, offset: 94349},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2972, col: 29, offset: 94042},
+																										pos:        position{line: 2982, col: 29, offset: 94358},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50171,10 +50191,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1410, col: 12, offset: 44799},
 																			expr: &actionExpr{
-																				pos: position{line: 2963, col: 10, offset: 93854},
+																				pos: position{line: 2973, col: 10, offset: 94170},
 																				run: (*parser).callonInlinePassthrough73,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2963, col: 10, offset: 93854},
+																					pos:        position{line: 2973, col: 10, offset: 94170},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50185,25 +50205,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1410, col: 19, offset: 44806},
 																			expr: &actionExpr{
-																				pos: position{line: 2972, col: 12, offset: 94025},
+																				pos: position{line: 2982, col: 12, offset: 94341},
 																				run: (*parser).callonInlinePassthrough76,
 																				expr: &choiceExpr{
-																					pos: position{line: 2972, col: 13, offset: 94026},
+																					pos: position{line: 2982, col: 13, offset: 94342},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 13, offset: 94026},
+																							pos:        position{line: 2982, col: 13, offset: 94342},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 20, offset: 94033},
+																							pos:        position{line: 2982, col: 20, offset: 94349},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2972, col: 29, offset: 94042},
+																							pos:        position{line: 2982, col: 29, offset: 94358},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50239,7 +50259,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1404, col: 100, offset: 44375},
 													expr: &charClassMatcher{
-														pos:        position{line: 2817, col: 13, offset: 89802},
+														pos:        position{line: 2827, col: 13, offset: 90118},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50250,7 +50270,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2492, col: 57, offset: 80521},
+										pos:  position{line: 2502, col: 57, offset: 80837},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50262,16 +50282,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2497, col: 1, offset: 80581},
+			pos:  position{line: 2507, col: 1, offset: 80897},
 			expr: &seqExpr{
-				pos: position{line: 2499, col: 5, offset: 80657},
+				pos: position{line: 2509, col: 5, offset: 80973},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2499, col: 5, offset: 80657},
+						pos: position{line: 2509, col: 5, offset: 80973},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2502, col: 5, offset: 80722},
+						pos:  position{line: 2512, col: 5, offset: 81038},
 						name: "QuotedText",
 					},
 				},
@@ -50279,22 +50299,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2504, col: 1, offset: 80735},
+			pos:  position{line: 2514, col: 1, offset: 81051},
 			expr: &actionExpr{
-				pos: position{line: 2506, col: 5, offset: 80817},
+				pos: position{line: 2516, col: 5, offset: 81133},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2506, col: 5, offset: 80817},
+					pos: position{line: 2516, col: 5, offset: 81133},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2506, col: 5, offset: 80817},
+							pos: position{line: 2516, col: 5, offset: 81133},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2509, col: 5, offset: 80888},
+							pos:   position{line: 2519, col: 5, offset: 81204},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2510, col: 9, offset: 80906},
+								pos:  position{line: 2520, col: 9, offset: 81222},
 								name: "Symbol",
 							},
 						},
@@ -50304,103 +50324,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2568, col: 1, offset: 82730},
+			pos:  position{line: 2578, col: 1, offset: 83046},
 			expr: &choiceExpr{
-				pos: position{line: 2570, col: 5, offset: 82760},
+				pos: position{line: 2580, col: 5, offset: 83076},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2570, col: 5, offset: 82760},
+						pos: position{line: 2580, col: 5, offset: 83076},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2570, col: 5, offset: 82760},
+							pos: position{line: 2580, col: 5, offset: 83076},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2570, col: 5, offset: 82760},
+									pos:        position{line: 2580, col: 5, offset: 83076},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2570, col: 10, offset: 82765},
+									pos: position{line: 2580, col: 10, offset: 83081},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2570, col: 10, offset: 82765},
+											pos:  position{line: 2580, col: 10, offset: 83081},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 14, offset: 83863},
+											pos: position{line: 2609, col: 14, offset: 84179},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 14, offset: 83863},
+												pos:        position{line: 2609, col: 14, offset: 84179},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 14, offset: 83929},
+											pos: position{line: 2613, col: 14, offset: 84245},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 14, offset: 83929},
+												pos:        position{line: 2613, col: 14, offset: 84245},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 15, offset: 83998},
+											pos: position{line: 2617, col: 15, offset: 84314},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 15, offset: 83998},
+												pos:        position{line: 2617, col: 15, offset: 84314},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 13, offset: 84063},
+											pos: position{line: 2621, col: 13, offset: 84379},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 13, offset: 84063},
+												pos:        position{line: 2621, col: 13, offset: 84379},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2639, col: 21, offset: 84633},
+											pos: position{line: 2649, col: 21, offset: 84949},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2639, col: 21, offset: 84633},
+												pos:        position{line: 2649, col: 21, offset: 84949},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2618, col: 5, offset: 84219},
+											pos: position{line: 2628, col: 5, offset: 84535},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2618, col: 5, offset: 84219},
+												pos: position{line: 2628, col: 5, offset: 84535},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 5, offset: 84219},
+														pos:        position{line: 2628, col: 5, offset: 84535},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2619, col: 5, offset: 84229},
+														pos: position{line: 2629, col: 5, offset: 84545},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2623, col: 6, offset: 84316},
+														pos: position{line: 2633, col: 6, offset: 84632},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2963, col: 10, offset: 93854},
+																pos: position{line: 2973, col: 10, offset: 94170},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2963, col: 10, offset: 93854},
+																	pos:        position{line: 2973, col: 10, offset: 94170},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50408,30 +50428,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2623, col: 14, offset: 84324},
+																pos: position{line: 2633, col: 14, offset: 84640},
 																expr: &choiceExpr{
-																	pos: position{line: 2985, col: 8, offset: 94252},
+																	pos: position{line: 2995, col: 8, offset: 94568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2972, col: 12, offset: 94025},
+																			pos: position{line: 2982, col: 12, offset: 94341},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2972, col: 13, offset: 94026},
+																				pos: position{line: 2982, col: 13, offset: 94342},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 13, offset: 94026},
+																						pos:        position{line: 2982, col: 13, offset: 94342},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 20, offset: 94033},
+																						pos:        position{line: 2982, col: 20, offset: 94349},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2972, col: 29, offset: 94042},
+																						pos:        position{line: 2982, col: 29, offset: 94358},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50440,9 +50460,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2982, col: 8, offset: 94202},
+																			pos: position{line: 2992, col: 8, offset: 94518},
 																			expr: &anyMatcher{
-																				line: 2982, col: 9, offset: 94203,
+																				line: 2992, col: 9, offset: 94519,
 																			},
 																		},
 																	},
@@ -50454,53 +50474,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 5, offset: 84444},
+											pos: position{line: 2638, col: 5, offset: 84760},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2628, col: 5, offset: 84444},
+												pos: position{line: 2638, col: 5, offset: 84760},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 5, offset: 84444},
+														pos:        position{line: 2638, col: 5, offset: 84760},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2629, col: 5, offset: 84454},
+														pos: position{line: 2639, col: 5, offset: 84770},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2633, col: 5, offset: 84543},
+														pos: position{line: 2643, col: 5, offset: 84859},
 														expr: &choiceExpr{
-															pos: position{line: 2633, col: 7, offset: 84545},
+															pos: position{line: 2643, col: 7, offset: 84861},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2817, col: 13, offset: 89802},
+																	pos:        position{line: 2827, col: 13, offset: 90118},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2972, col: 12, offset: 94025},
+																	pos: position{line: 2982, col: 12, offset: 94341},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2972, col: 13, offset: 94026},
+																		pos: position{line: 2982, col: 13, offset: 94342},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 13, offset: 94026},
+																				pos:        position{line: 2982, col: 13, offset: 94342},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 20, offset: 94033},
+																				pos:        position{line: 2982, col: 20, offset: 94349},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2972, col: 29, offset: 94042},
+																				pos:        position{line: 2982, col: 29, offset: 94358},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50509,9 +50529,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -50521,30 +50541,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2643, col: 20, offset: 84703},
+											pos: position{line: 2653, col: 20, offset: 85019},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2643, col: 20, offset: 84703},
+												pos:        position{line: 2653, col: 20, offset: 85019},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2647, col: 21, offset: 84774},
+											pos: position{line: 2657, col: 21, offset: 85090},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2647, col: 21, offset: 84774},
+												pos:        position{line: 2657, col: 21, offset: 85090},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2651, col: 20, offset: 84844},
+											pos: position{line: 2661, col: 20, offset: 85160},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2651, col: 20, offset: 84844},
+												pos:        position{line: 2661, col: 20, offset: 85160},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50556,73 +50576,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2574, col: 7, offset: 83014},
+						pos:  position{line: 2584, col: 7, offset: 83330},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 14, offset: 83863},
+						pos: position{line: 2609, col: 14, offset: 84179},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 14, offset: 83863},
+							pos:        position{line: 2609, col: 14, offset: 84179},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 14, offset: 83929},
+						pos: position{line: 2613, col: 14, offset: 84245},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 14, offset: 83929},
+							pos:        position{line: 2613, col: 14, offset: 84245},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 15, offset: 83998},
+						pos: position{line: 2617, col: 15, offset: 84314},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 15, offset: 83998},
+							pos:        position{line: 2617, col: 15, offset: 84314},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 13, offset: 84063},
+						pos: position{line: 2621, col: 13, offset: 84379},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 13, offset: 84063},
+							pos:        position{line: 2621, col: 13, offset: 84379},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2618, col: 5, offset: 84219},
+						pos: position{line: 2628, col: 5, offset: 84535},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2618, col: 5, offset: 84219},
+							pos: position{line: 2628, col: 5, offset: 84535},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2618, col: 5, offset: 84219},
+									pos:        position{line: 2628, col: 5, offset: 84535},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2619, col: 5, offset: 84229},
+									pos: position{line: 2629, col: 5, offset: 84545},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2623, col: 6, offset: 84316},
+									pos: position{line: 2633, col: 6, offset: 84632},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2963, col: 10, offset: 93854},
+											pos: position{line: 2973, col: 10, offset: 94170},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2963, col: 10, offset: 93854},
+												pos:        position{line: 2973, col: 10, offset: 94170},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50630,30 +50650,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2623, col: 14, offset: 84324},
+											pos: position{line: 2633, col: 14, offset: 84640},
 											expr: &choiceExpr{
-												pos: position{line: 2985, col: 8, offset: 94252},
+												pos: position{line: 2995, col: 8, offset: 94568},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2972, col: 12, offset: 94025},
+														pos: position{line: 2982, col: 12, offset: 94341},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2972, col: 13, offset: 94026},
+															pos: position{line: 2982, col: 13, offset: 94342},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2972, col: 13, offset: 94026},
+																	pos:        position{line: 2982, col: 13, offset: 94342},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 20, offset: 94033},
+																	pos:        position{line: 2982, col: 20, offset: 94349},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2972, col: 29, offset: 94042},
+																	pos:        position{line: 2982, col: 29, offset: 94358},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50662,9 +50682,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2982, col: 8, offset: 94202},
+														pos: position{line: 2992, col: 8, offset: 94518},
 														expr: &anyMatcher{
-															line: 2982, col: 9, offset: 94203,
+															line: 2992, col: 9, offset: 94519,
 														},
 													},
 												},
@@ -50676,53 +50696,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2628, col: 5, offset: 84444},
+						pos: position{line: 2638, col: 5, offset: 84760},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2628, col: 5, offset: 84444},
+							pos: position{line: 2638, col: 5, offset: 84760},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2628, col: 5, offset: 84444},
+									pos:        position{line: 2638, col: 5, offset: 84760},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2629, col: 5, offset: 84454},
+									pos: position{line: 2639, col: 5, offset: 84770},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2633, col: 5, offset: 84543},
+									pos: position{line: 2643, col: 5, offset: 84859},
 									expr: &choiceExpr{
-										pos: position{line: 2633, col: 7, offset: 84545},
+										pos: position{line: 2643, col: 7, offset: 84861},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2817, col: 13, offset: 89802},
+												pos:        position{line: 2827, col: 13, offset: 90118},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2972, col: 12, offset: 94025},
+												pos: position{line: 2982, col: 12, offset: 94341},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2972, col: 13, offset: 94026},
+													pos: position{line: 2982, col: 13, offset: 94342},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2972, col: 13, offset: 94026},
+															pos:        position{line: 2982, col: 13, offset: 94342},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 20, offset: 94033},
+															pos:        position{line: 2982, col: 20, offset: 94349},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2972, col: 29, offset: 94042},
+															pos:        position{line: 2982, col: 29, offset: 94358},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50731,9 +50751,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2982, col: 8, offset: 94202},
+												pos: position{line: 2992, col: 8, offset: 94518},
 												expr: &anyMatcher{
-													line: 2982, col: 9, offset: 94203,
+													line: 2992, col: 9, offset: 94519,
 												},
 											},
 										},
@@ -50743,40 +50763,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2639, col: 21, offset: 84633},
+						pos: position{line: 2649, col: 21, offset: 84949},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2639, col: 21, offset: 84633},
+							pos:        position{line: 2649, col: 21, offset: 84949},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2643, col: 20, offset: 84703},
+						pos: position{line: 2653, col: 20, offset: 85019},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2643, col: 20, offset: 84703},
+							pos:        position{line: 2653, col: 20, offset: 85019},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2647, col: 21, offset: 84774},
+						pos: position{line: 2657, col: 21, offset: 85090},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2647, col: 21, offset: 84774},
+							pos:        position{line: 2657, col: 21, offset: 85090},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2651, col: 20, offset: 84844},
+						pos: position{line: 2661, col: 20, offset: 85160},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2651, col: 20, offset: 84844},
+							pos:        position{line: 2661, col: 20, offset: 85160},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50787,43 +50807,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2585, col: 1, offset: 83204},
+			pos:  position{line: 2595, col: 1, offset: 83520},
 			expr: &choiceExpr{
-				pos: position{line: 2586, col: 5, offset: 83226},
+				pos: position{line: 2596, col: 5, offset: 83542},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2586, col: 5, offset: 83226},
+						pos: position{line: 2596, col: 5, offset: 83542},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2586, col: 5, offset: 83226},
+							pos: position{line: 2596, col: 5, offset: 83542},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2586, col: 5, offset: 83226},
+									pos:        position{line: 2596, col: 5, offset: 83542},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2586, col: 11, offset: 83232},
+									pos: position{line: 2596, col: 11, offset: 83548},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68889},
+										pos: position{line: 2141, col: 5, offset: 69205},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68889},
+												pos:        position{line: 2141, col: 5, offset: 69205},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68898},
+												pos: position{line: 2142, col: 5, offset: 69214},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69021},
+												pos: position{line: 2146, col: 5, offset: 69337},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69023},
+													pos: position{line: 2146, col: 7, offset: 69339},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69024},
+														pos:        position{line: 2146, col: 8, offset: 69340},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50837,21 +50857,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 7, offset: 83385},
+						pos: position{line: 2599, col: 7, offset: 83701},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2589, col: 7, offset: 83385},
+							pos: position{line: 2599, col: 7, offset: 83701},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2589, col: 7, offset: 83385},
+									pos:        position{line: 2599, col: 7, offset: 83701},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2589, col: 13, offset: 83391},
+									pos: position{line: 2599, col: 13, offset: 83707},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2589, col: 14, offset: 83392},
+										pos:  position{line: 2599, col: 14, offset: 83708},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50859,38 +50879,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 7, offset: 83542},
+						pos: position{line: 2602, col: 7, offset: 83858},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2592, col: 7, offset: 83542},
+							pos: position{line: 2602, col: 7, offset: 83858},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2592, col: 7, offset: 83542},
+									pos:        position{line: 2602, col: 7, offset: 83858},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2592, col: 12, offset: 83547},
+									pos: position{line: 2602, col: 12, offset: 83863},
 									expr: &seqExpr{
-										pos: position{line: 2131, col: 5, offset: 68889},
+										pos: position{line: 2141, col: 5, offset: 69205},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2131, col: 5, offset: 68889},
+												pos:        position{line: 2141, col: 5, offset: 69205},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2132, col: 5, offset: 68898},
+												pos: position{line: 2142, col: 5, offset: 69214},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2136, col: 5, offset: 69021},
+												pos: position{line: 2146, col: 5, offset: 69337},
 												expr: &notExpr{
-													pos: position{line: 2136, col: 7, offset: 69023},
+													pos: position{line: 2146, col: 7, offset: 69339},
 													expr: &litMatcher{
-														pos:        position{line: 2136, col: 8, offset: 69024},
+														pos:        position{line: 2146, col: 8, offset: 69340},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50904,21 +50924,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 7, offset: 83700},
+						pos: position{line: 2605, col: 7, offset: 84016},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2595, col: 7, offset: 83700},
+							pos: position{line: 2605, col: 7, offset: 84016},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2595, col: 7, offset: 83700},
+									pos:        position{line: 2605, col: 7, offset: 84016},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2595, col: 12, offset: 83705},
+									pos: position{line: 2605, col: 12, offset: 84021},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2595, col: 13, offset: 83706},
+										pos:  position{line: 2605, col: 13, offset: 84022},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50930,63 +50950,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2728, col: 1, offset: 86746},
+			pos:  position{line: 2738, col: 1, offset: 87062},
 			expr: &actionExpr{
-				pos: position{line: 2728, col: 26, offset: 86771},
+				pos: position{line: 2738, col: 26, offset: 87087},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2728, col: 26, offset: 86771},
+					pos: position{line: 2738, col: 26, offset: 87087},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2728, col: 26, offset: 86771},
+							pos:   position{line: 2738, col: 26, offset: 87087},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2728, col: 31, offset: 86776},
+								pos: position{line: 2738, col: 31, offset: 87092},
 								expr: &actionExpr{
-									pos: position{line: 2733, col: 5, offset: 86839},
+									pos: position{line: 2743, col: 5, offset: 87155},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2733, col: 5, offset: 86839},
+										pos: position{line: 2743, col: 5, offset: 87155},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2980, col: 11, offset: 94188},
+												pos: position{line: 2990, col: 11, offset: 94504},
 												expr: &anyMatcher{
-													line: 2980, col: 13, offset: 94190,
+													line: 2990, col: 13, offset: 94506,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2736, col: 5, offset: 86965},
+												pos:   position{line: 2746, col: 5, offset: 87281},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2736, col: 16, offset: 86976},
+													pos: position{line: 2746, col: 16, offset: 87292},
 													expr: &actionExpr{
-														pos: position{line: 2736, col: 17, offset: 86977},
+														pos: position{line: 2746, col: 17, offset: 87293},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2736, col: 17, offset: 86977},
+															pos: position{line: 2746, col: 17, offset: 87293},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2736, col: 17, offset: 86977},
+																	pos:   position{line: 2746, col: 17, offset: 87293},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2955, col: 12, offset: 93681},
+																		pos: position{line: 2965, col: 12, offset: 93997},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2955, col: 13, offset: 93682},
+																			pos: position{line: 2965, col: 13, offset: 93998},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2955, col: 13, offset: 93682},
+																					pos: position{line: 2965, col: 13, offset: 93998},
 																					expr: &litMatcher{
-																						pos:        position{line: 2955, col: 13, offset: 93682},
+																						pos:        position{line: 2965, col: 13, offset: 93998},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2955, col: 18, offset: 93687},
+																					pos: position{line: 2965, col: 18, offset: 94003},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2955, col: 18, offset: 93687},
+																						pos:        position{line: 2965, col: 18, offset: 94003},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -50998,7 +51018,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2736, col: 27, offset: 86987},
+																	pos:        position{line: 2746, col: 27, offset: 87303},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -51009,38 +51029,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2737, col: 5, offset: 87015},
+												pos:   position{line: 2747, col: 5, offset: 87331},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2737, col: 12, offset: 87022},
+													pos: position{line: 2747, col: 12, offset: 87338},
 													expr: &choiceExpr{
-														pos: position{line: 2738, col: 9, offset: 87032},
+														pos: position{line: 2748, col: 9, offset: 87348},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2738, col: 9, offset: 87032},
+																pos: position{line: 2748, col: 9, offset: 87348},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2738, col: 9, offset: 87032},
+																	pos:        position{line: 2748, col: 9, offset: 87348},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2739, col: 11, offset: 87079},
+																pos: position{line: 2749, col: 11, offset: 87395},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2739, col: 11, offset: 87079},
+																	pos:        position{line: 2749, col: 11, offset: 87395},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2740, col: 11, offset: 87127},
+																pos: position{line: 2750, col: 11, offset: 87443},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2740, col: 11, offset: 87127},
+																	pos:        position{line: 2750, col: 11, offset: 87443},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -51051,38 +51071,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2742, col: 5, offset: 87177},
+												pos:   position{line: 2752, col: 5, offset: 87493},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2742, col: 12, offset: 87184},
+													pos: position{line: 2752, col: 12, offset: 87500},
 													expr: &choiceExpr{
-														pos: position{line: 2743, col: 9, offset: 87194},
+														pos: position{line: 2753, col: 9, offset: 87510},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2743, col: 9, offset: 87194},
+																pos: position{line: 2753, col: 9, offset: 87510},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2743, col: 9, offset: 87194},
+																	pos:        position{line: 2753, col: 9, offset: 87510},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2744, col: 11, offset: 87241},
+																pos: position{line: 2754, col: 11, offset: 87557},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2744, col: 11, offset: 87241},
+																	pos:        position{line: 2754, col: 11, offset: 87557},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2745, col: 11, offset: 87291},
+																pos: position{line: 2755, col: 11, offset: 87607},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2745, col: 11, offset: 87291},
+																	pos:        position{line: 2755, col: 11, offset: 87607},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -51093,32 +51113,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87342},
+												pos:   position{line: 2757, col: 5, offset: 87658},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 12, offset: 87349},
+													pos: position{line: 2757, col: 12, offset: 87665},
 													expr: &choiceExpr{
-														pos: position{line: 2747, col: 13, offset: 87350},
+														pos: position{line: 2757, col: 13, offset: 87666},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2955, col: 12, offset: 93681},
+																pos: position{line: 2965, col: 12, offset: 93997},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2955, col: 13, offset: 93682},
+																	pos: position{line: 2965, col: 13, offset: 93998},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2955, col: 13, offset: 93682},
+																			pos: position{line: 2965, col: 13, offset: 93998},
 																			expr: &litMatcher{
-																				pos:        position{line: 2955, col: 13, offset: 93682},
+																				pos:        position{line: 2965, col: 13, offset: 93998},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2955, col: 18, offset: 93687},
+																			pos: position{line: 2965, col: 18, offset: 94003},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2955, col: 18, offset: 93687},
+																				pos:        position{line: 2965, col: 18, offset: 94003},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -51129,10 +51149,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2747, col: 24, offset: 87361},
+																pos: position{line: 2757, col: 24, offset: 87677},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2747, col: 24, offset: 87361},
+																	pos:        position{line: 2757, col: 24, offset: 87677},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -51143,15 +51163,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2748, col: 5, offset: 87403},
+												pos:   position{line: 2758, col: 5, offset: 87719},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2748, col: 11, offset: 87409},
+													pos: position{line: 2758, col: 11, offset: 87725},
 													expr: &actionExpr{
-														pos: position{line: 2748, col: 12, offset: 87410},
+														pos: position{line: 2758, col: 12, offset: 87726},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2748, col: 12, offset: 87410},
+															pos:        position{line: 2758, col: 12, offset: 87726},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -51161,12 +51181,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2750, col: 5, offset: 87540},
+												pos:   position{line: 2760, col: 5, offset: 87856},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2750, col: 11, offset: 87546},
+													pos: position{line: 2760, col: 11, offset: 87862},
 													expr: &litMatcher{
-														pos:        position{line: 2750, col: 12, offset: 87547},
+														pos:        position{line: 2760, col: 12, offset: 87863},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51174,7 +51194,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2751, col: 5, offset: 87557},
+												pos: position{line: 2761, col: 5, offset: 87873},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51183,9 +51203,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2982, col: 8, offset: 94202},
+							pos: position{line: 2992, col: 8, offset: 94518},
 							expr: &anyMatcher{
-								line: 2982, col: 9, offset: 94203,
+								line: 2992, col: 9, offset: 94519,
 							},
 						},
 					},
@@ -51194,23 +51214,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2778, col: 1, offset: 88566},
+			pos:  position{line: 2788, col: 1, offset: 88882},
 			expr: &actionExpr{
-				pos: position{line: 2779, col: 5, offset: 88589},
+				pos: position{line: 2789, col: 5, offset: 88905},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2779, col: 5, offset: 88589},
+					pos: position{line: 2789, col: 5, offset: 88905},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2779, col: 5, offset: 88589},
+							pos:   position{line: 2789, col: 5, offset: 88905},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 18, offset: 89335},
+								pos: position{line: 2812, col: 18, offset: 89651},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 19, offset: 89336},
+									pos: position{line: 2812, col: 19, offset: 89652},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 19, offset: 89336},
+										pos:        position{line: 2812, col: 19, offset: 89652},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51221,39 +51241,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2780, col: 5, offset: 88615},
+							pos: position{line: 2790, col: 5, offset: 88931},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2784, col: 5, offset: 88743},
+							pos:        position{line: 2794, col: 5, offset: 89059},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2785, col: 5, offset: 88753},
+							pos:   position{line: 2795, col: 5, offset: 89069},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 24, offset: 89497},
+								pos: position{line: 2820, col: 24, offset: 89813},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2810, col: 24, offset: 89497},
+									pos: position{line: 2820, col: 24, offset: 89813},
 									expr: &seqExpr{
-										pos: position{line: 2810, col: 25, offset: 89498},
+										pos: position{line: 2820, col: 25, offset: 89814},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2810, col: 25, offset: 89498},
+												pos: position{line: 2820, col: 25, offset: 89814},
 												expr: &litMatcher{
-													pos:        position{line: 2810, col: 26, offset: 89499},
+													pos:        position{line: 2820, col: 26, offset: 89815},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2810, col: 30, offset: 89503},
+												pos: position{line: 2820, col: 30, offset: 89819},
 												expr: &charClassMatcher{
-													pos:        position{line: 2810, col: 30, offset: 89503},
+													pos:        position{line: 2820, col: 30, offset: 89819},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51261,23 +51281,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2810, col: 41, offset: 89514},
+												pos: position{line: 2820, col: 41, offset: 89830},
 												expr: &seqExpr{
-													pos: position{line: 2810, col: 42, offset: 89515},
+													pos: position{line: 2820, col: 42, offset: 89831},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2810, col: 42, offset: 89515},
+															pos: position{line: 2820, col: 42, offset: 89831},
 															expr: &litMatcher{
-																pos:        position{line: 2810, col: 42, offset: 89515},
+																pos:        position{line: 2820, col: 42, offset: 89831},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2810, col: 47, offset: 89520},
+															pos: position{line: 2820, col: 47, offset: 89836},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 47, offset: 89520},
+																pos:        position{line: 2820, col: 47, offset: 89836},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51293,36 +51313,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2786, col: 5, offset: 88786},
+							pos:   position{line: 2796, col: 5, offset: 89102},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2786, col: 17, offset: 88798},
+								pos:  position{line: 2796, col: 17, offset: 89114},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2985, col: 8, offset: 94252},
+							pos: position{line: 2995, col: 8, offset: 94568},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2972, col: 12, offset: 94025},
+									pos: position{line: 2982, col: 12, offset: 94341},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2972, col: 13, offset: 94026},
+										pos: position{line: 2982, col: 13, offset: 94342},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2972, col: 13, offset: 94026},
+												pos:        position{line: 2982, col: 13, offset: 94342},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 20, offset: 94033},
+												pos:        position{line: 2982, col: 20, offset: 94349},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2972, col: 29, offset: 94042},
+												pos:        position{line: 2982, col: 29, offset: 94358},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51331,9 +51351,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2982, col: 8, offset: 94202},
+									pos: position{line: 2992, col: 8, offset: 94518},
 									expr: &anyMatcher{
-										line: 2982, col: 9, offset: 94203,
+										line: 2992, col: 9, offset: 94519,
 									},
 								},
 							},
@@ -51344,23 +51364,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2790, col: 1, offset: 88946},
+			pos:  position{line: 2800, col: 1, offset: 89262},
 			expr: &actionExpr{
-				pos: position{line: 2791, col: 5, offset: 88970},
+				pos: position{line: 2801, col: 5, offset: 89286},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2791, col: 5, offset: 88970},
+					pos: position{line: 2801, col: 5, offset: 89286},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2791, col: 5, offset: 88970},
+							pos:   position{line: 2801, col: 5, offset: 89286},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 18, offset: 89335},
+								pos: position{line: 2812, col: 18, offset: 89651},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 19, offset: 89336},
+									pos: position{line: 2812, col: 19, offset: 89652},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 19, offset: 89336},
+										pos:        position{line: 2812, col: 19, offset: 89652},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51371,39 +51391,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2792, col: 5, offset: 88996},
+							pos: position{line: 2802, col: 5, offset: 89312},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2796, col: 5, offset: 89124},
+							pos:        position{line: 2806, col: 5, offset: 89440},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2797, col: 5, offset: 89133},
+							pos:   position{line: 2807, col: 5, offset: 89449},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 19, offset: 89411},
+								pos: position{line: 2816, col: 19, offset: 89727},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2806, col: 19, offset: 89411},
+									pos: position{line: 2816, col: 19, offset: 89727},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 20, offset: 89412},
+										pos: position{line: 2816, col: 20, offset: 89728},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2806, col: 20, offset: 89412},
+												pos: position{line: 2816, col: 20, offset: 89728},
 												expr: &litMatcher{
-													pos:        position{line: 2806, col: 21, offset: 89413},
+													pos:        position{line: 2816, col: 21, offset: 89729},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2806, col: 25, offset: 89417},
+												pos: position{line: 2816, col: 25, offset: 89733},
 												expr: &charClassMatcher{
-													pos:        position{line: 2806, col: 25, offset: 89417},
+													pos:        position{line: 2816, col: 25, offset: 89733},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51416,10 +51436,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2798, col: 5, offset: 89161},
+							pos:   position{line: 2808, col: 5, offset: 89477},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2798, col: 17, offset: 89173},
+								pos:  position{line: 2808, col: 17, offset: 89489},
 								name: "InlineAttributes",
 							},
 						},
@@ -51429,43 +51449,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2890, col: 1, offset: 91662},
+			pos:  position{line: 2900, col: 1, offset: 91978},
 			expr: &actionExpr{
-				pos: position{line: 2890, col: 17, offset: 91678},
+				pos: position{line: 2900, col: 17, offset: 91994},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2890, col: 17, offset: 91678},
+					pos:   position{line: 2900, col: 17, offset: 91994},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2911, col: 5, offset: 92263},
+						pos: position{line: 2921, col: 5, offset: 92579},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2911, col: 5, offset: 92263},
+							pos:   position{line: 2921, col: 5, offset: 92579},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2911, col: 14, offset: 92272},
+								pos: position{line: 2921, col: 14, offset: 92588},
 								expr: &choiceExpr{
-									pos: position{line: 2912, col: 9, offset: 92282},
+									pos: position{line: 2922, col: 9, offset: 92598},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2912, col: 9, offset: 92282},
+											pos: position{line: 2922, col: 9, offset: 92598},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2912, col: 9, offset: 92282},
+												pos: position{line: 2922, col: 9, offset: 92598},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2912, col: 9, offset: 92282},
+														pos: position{line: 2922, col: 9, offset: 92598},
 														expr: &litMatcher{
-															pos:        position{line: 2912, col: 10, offset: 92283},
+															pos:        position{line: 2922, col: 10, offset: 92599},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2913, col: 9, offset: 92311},
+														pos: position{line: 2923, col: 9, offset: 92627},
 														expr: &charClassMatcher{
-															pos:        position{line: 2913, col: 10, offset: 92312},
+															pos:        position{line: 2923, col: 10, offset: 92628},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51476,27 +51496,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2916, col: 11, offset: 92524},
+											pos: position{line: 2926, col: 11, offset: 92840},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2916, col: 11, offset: 92524},
+													pos:        position{line: 2926, col: 11, offset: 92840},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2916, col: 19, offset: 92532},
+													pos: position{line: 2926, col: 19, offset: 92848},
 													expr: &seqExpr{
-														pos: position{line: 2916, col: 21, offset: 92534},
+														pos: position{line: 2926, col: 21, offset: 92850},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2916, col: 21, offset: 92534},
+																pos: position{line: 2926, col: 21, offset: 92850},
 																expr: &actionExpr{
-																	pos: position{line: 2963, col: 10, offset: 93854},
+																	pos: position{line: 2973, col: 10, offset: 94170},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2963, col: 10, offset: 93854},
+																		pos:        position{line: 2973, col: 10, offset: 94170},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51505,11 +51525,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2916, col: 28, offset: 92541},
+																pos: position{line: 2926, col: 28, offset: 92857},
 																expr: &notExpr{
-																	pos: position{line: 2982, col: 8, offset: 94202},
+																	pos: position{line: 2992, col: 8, offset: 94518},
 																	expr: &anyMatcher{
-																		line: 2982, col: 9, offset: 94203,
+																		line: 2992, col: 9, offset: 94519,
 																	},
 																},
 															},
@@ -51904,10 +51924,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2919, col: 11, offset: 92661},
+											pos: position{line: 2929, col: 11, offset: 92977},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2919, col: 11, offset: 92661},
+												pos:        position{line: 2929, col: 11, offset: 92977},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -63465,15 +63485,16 @@ func (p *parser) callonPassthroughMacro2() (interface{}, error) {
 	return p.cur.onPassthroughMacro2(stack["content"])
 }
 
-func (c *current) onPassthroughMacro17() (interface{}, error) {
-	return types.NewStringElement(string(c.text))
+func (c *current) onPassthroughMacro12() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the bracket
+	return nil, nil
 
 }
 
-func (p *parser) callonPassthroughMacro17() (interface{}, error) {
+func (p *parser) callonPassthroughMacro12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onPassthroughMacro17()
+	return p.cur.onPassthroughMacro12()
 }
 
 func (c *current) onPassthroughMacro10(content interface{}) (interface{}, error) {
@@ -63487,6 +63508,29 @@ func (p *parser) callonPassthroughMacro10() (interface{}, error) {
 	return p.cur.onPassthroughMacro10(stack["content"])
 }
 
+func (c *current) onPassthroughMacroWithQuotesElement5() (interface{}, error) {
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonPassthroughMacroWithQuotesElement5() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onPassthroughMacroWithQuotesElement5()
+}
+
+func (c *current) onPassthroughMacroWithQuotesElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
+
+}
+
+func (p *parser) callonPassthroughMacroWithQuotesElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onPassthroughMacroWithQuotesElement1(stack["element"])
+}
+
 func (c *current) onLink11() (interface{}, error) {
 	return string(c.text), nil
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 4f9ecc8..feab4b1 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1425,10 +1425,20 @@ TriplePlusPassthroughContent <- ((!TriplePlusPassthroughPrefix .)* { // spaces a
 
 PassthroughMacro <- "pass:[" content:(PassthroughMacroCharacter)* "]" {
         return types.NewInlinePassthrough(types.PassthroughMacro, []interface{}{content})
-    } / "pass:q[" content:(QuotedText / PassthroughMacroCharacter)* "]" {
+    } / PassthroughMacroWithQuotesPrefix content:(PassthroughMacroWithQuotesElement)* "]" {
         return types.NewInlinePassthrough(types.PassthroughMacro, content.([]interface{}))
     }
 
+PassthroughMacroWithQuotesPrefix <- "pass:q[" {
+        c.trackElement(nil) // the text comes after the bracket
+        return nil, nil
+    }
+
+PassthroughMacroWithQuotesElement <- element:(QuotedText / PassthroughMacroCharacter) {
+        c.trackElement(element)
+        return element, nil
+    }
+
 PassthroughMacroCharacter <- [^\]] {
         return types.NewStringElement(string(c.text))
     }
-- 
2.43.0


From ba3d9c0adbb7e62f940f3097059970964ae0ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:01 +0000
Subject: [PATCH 113/117] fix: look for passthroughs before email addresses

---
 pkg/parser/parser.go  | 9542 ++++++++++++++++++++---------------------
 pkg/parser/parser.peg |    2 +-
 2 files changed, 4772 insertions(+), 4772 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index bdc5df1..e87511e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 93997},
+																pos: position{line: 2965, col: 12, offset: 94045},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 93998},
+																	pos: position{line: 2965, col: 13, offset: 94046},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 93998},
+																			pos: position{line: 2965, col: 13, offset: 94046},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 93998},
+																				pos:        position{line: 2965, col: 13, offset: 94046},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94003},
+																			pos: position{line: 2965, col: 18, offset: 94051},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94003},
+																				pos:        position{line: 2965, col: 18, offset: 94051},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 93997},
+																pos: position{line: 2965, col: 12, offset: 94045},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 93998},
+																	pos: position{line: 2965, col: 13, offset: 94046},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 93998},
+																			pos: position{line: 2965, col: 13, offset: 94046},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 93998},
+																				pos:        position{line: 2965, col: 13, offset: 94046},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94003},
+																			pos: position{line: 2965, col: 18, offset: 94051},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94003},
+																				pos:        position{line: 2965, col: 18, offset: 94051},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 13, offset: 90118},
+														pos:        position{line: 2827, col: 13, offset: 90166},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2977, col: 11, offset: 94231},
+													pos: position{line: 2977, col: 11, offset: 94279},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2977, col: 11, offset: 94231},
+														pos: position{line: 2977, col: 11, offset: 94279},
 														expr: &charClassMatcher{
-															pos:        position{line: 2977, col: 11, offset: 94231},
+															pos:        position{line: 2977, col: 11, offset: 94279},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2896, col: 14, offset: 91924},
+													pos: position{line: 2896, col: 14, offset: 91972},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2896, col: 14, offset: 91924},
+														pos: position{line: 2896, col: 14, offset: 91972},
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 14, offset: 91924},
+															pos:        position{line: 2896, col: 14, offset: 91972},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 17, offset: 91994},
+												pos: position{line: 2900, col: 17, offset: 92042},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2900, col: 17, offset: 91994},
+													pos:   position{line: 2900, col: 17, offset: 92042},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2965, col: 12, offset: 93997},
+																				pos: position{line: 2965, col: 12, offset: 94045},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2965, col: 13, offset: 93998},
+																					pos: position{line: 2965, col: 13, offset: 94046},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2965, col: 13, offset: 93998},
+																							pos: position{line: 2965, col: 13, offset: 94046},
 																							expr: &litMatcher{
-																								pos:        position{line: 2965, col: 13, offset: 93998},
+																								pos:        position{line: 2965, col: 13, offset: 94046},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2965, col: 18, offset: 94003},
+																							pos: position{line: 2965, col: 18, offset: 94051},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2965, col: 18, offset: 94003},
+																								pos:        position{line: 2965, col: 18, offset: 94051},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2965, col: 12, offset: 93997},
+																				pos: position{line: 2965, col: 12, offset: 94045},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2965, col: 13, offset: 93998},
+																					pos: position{line: 2965, col: 13, offset: 94046},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2965, col: 13, offset: 93998},
+																							pos: position{line: 2965, col: 13, offset: 94046},
 																							expr: &litMatcher{
-																								pos:        position{line: 2965, col: 13, offset: 93998},
+																								pos:        position{line: 2965, col: 13, offset: 94046},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2965, col: 18, offset: 94003},
+																							pos: position{line: 2965, col: 18, offset: 94051},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2965, col: 18, offset: 94003},
+																								pos:        position{line: 2965, col: 18, offset: 94051},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2965, col: 12, offset: 93997},
+																		pos: position{line: 2965, col: 12, offset: 94045},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2965, col: 13, offset: 93998},
+																			pos: position{line: 2965, col: 13, offset: 94046},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2965, col: 13, offset: 93998},
+																					pos: position{line: 2965, col: 13, offset: 94046},
 																					expr: &litMatcher{
-																						pos:        position{line: 2965, col: 13, offset: 93998},
+																						pos:        position{line: 2965, col: 13, offset: 94046},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2965, col: 18, offset: 94003},
+																					pos: position{line: 2965, col: 18, offset: 94051},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2965, col: 18, offset: 94003},
+																						pos:        position{line: 2965, col: 18, offset: 94051},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2965, col: 12, offset: 93997},
+																									pos: position{line: 2965, col: 12, offset: 94045},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2965, col: 13, offset: 93998},
+																										pos: position{line: 2965, col: 13, offset: 94046},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2965, col: 13, offset: 93998},
+																												pos: position{line: 2965, col: 13, offset: 94046},
 																												expr: &litMatcher{
-																													pos:        position{line: 2965, col: 13, offset: 93998},
+																													pos:        position{line: 2965, col: 13, offset: 94046},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2965, col: 18, offset: 94003},
+																												pos: position{line: 2965, col: 18, offset: 94051},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2965, col: 18, offset: 94003},
+																													pos:        position{line: 2965, col: 18, offset: 94051},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2965, col: 12, offset: 93997},
+																									pos: position{line: 2965, col: 12, offset: 94045},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2965, col: 13, offset: 93998},
+																										pos: position{line: 2965, col: 13, offset: 94046},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2965, col: 13, offset: 93998},
+																												pos: position{line: 2965, col: 13, offset: 94046},
 																												expr: &litMatcher{
-																													pos:        position{line: 2965, col: 13, offset: 93998},
+																													pos:        position{line: 2965, col: 13, offset: 94046},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2965, col: 18, offset: 94003},
+																												pos: position{line: 2965, col: 18, offset: 94051},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2965, col: 18, offset: 94003},
+																													pos:        position{line: 2965, col: 18, offset: 94051},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2965, col: 12, offset: 93997},
+																							pos: position{line: 2965, col: 12, offset: 94045},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2965, col: 13, offset: 93998},
+																								pos: position{line: 2965, col: 13, offset: 94046},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2965, col: 13, offset: 93998},
+																										pos: position{line: 2965, col: 13, offset: 94046},
 																										expr: &litMatcher{
-																											pos:        position{line: 2965, col: 13, offset: 93998},
+																											pos:        position{line: 2965, col: 13, offset: 94046},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2965, col: 18, offset: 94003},
+																										pos: position{line: 2965, col: 18, offset: 94051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2965, col: 18, offset: 94003},
+																											pos:        position{line: 2965, col: 18, offset: 94051},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2965, col: 12, offset: 93997},
+														pos: position{line: 2965, col: 12, offset: 94045},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2965, col: 13, offset: 93998},
+															pos: position{line: 2965, col: 13, offset: 94046},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2965, col: 13, offset: 93998},
+																	pos: position{line: 2965, col: 13, offset: 94046},
 																	expr: &litMatcher{
-																		pos:        position{line: 2965, col: 13, offset: 93998},
+																		pos:        position{line: 2965, col: 13, offset: 94046},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2965, col: 18, offset: 94003},
+																	pos: position{line: 2965, col: 18, offset: 94051},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2965, col: 18, offset: 94003},
+																		pos:        position{line: 2965, col: 18, offset: 94051},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2965, col: 12, offset: 93997},
+														pos: position{line: 2965, col: 12, offset: 94045},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2965, col: 13, offset: 93998},
+															pos: position{line: 2965, col: 13, offset: 94046},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2965, col: 13, offset: 93998},
+																	pos: position{line: 2965, col: 13, offset: 94046},
 																	expr: &litMatcher{
-																		pos:        position{line: 2965, col: 13, offset: 93998},
+																		pos:        position{line: 2965, col: 13, offset: 94046},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2965, col: 18, offset: 94003},
+																	pos: position{line: 2965, col: 18, offset: 94051},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2965, col: 18, offset: 94003},
+																		pos:        position{line: 2965, col: 18, offset: 94051},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2965, col: 12, offset: 93997},
+												pos: position{line: 2965, col: 12, offset: 94045},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2965, col: 13, offset: 93998},
+													pos: position{line: 2965, col: 13, offset: 94046},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2965, col: 13, offset: 93998},
+															pos: position{line: 2965, col: 13, offset: 94046},
 															expr: &litMatcher{
-																pos:        position{line: 2965, col: 13, offset: 93998},
+																pos:        position{line: 2965, col: 13, offset: 94046},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2965, col: 18, offset: 94003},
+															pos: position{line: 2965, col: 18, offset: 94051},
 															expr: &charClassMatcher{
-																pos:        position{line: 2965, col: 18, offset: 94003},
+																pos:        position{line: 2965, col: 18, offset: 94051},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2831, col: 14, offset: 90192},
+																		pos: position{line: 2831, col: 14, offset: 90240},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2831, col: 14, offset: 90192},
+																			pos: position{line: 2831, col: 14, offset: 90240},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2831, col: 14, offset: 90192},
+																				pos:        position{line: 2831, col: 14, offset: 90240},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2831, col: 14, offset: 90192},
+																				pos: position{line: 2831, col: 14, offset: 90240},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2831, col: 14, offset: 90192},
+																					pos: position{line: 2831, col: 14, offset: 90240},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2831, col: 14, offset: 90192},
+																						pos:        position{line: 2831, col: 14, offset: 90240},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2831, col: 14, offset: 90192},
+																							pos: position{line: 2831, col: 14, offset: 90240},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2831, col: 14, offset: 90192},
+																								pos: position{line: 2831, col: 14, offset: 90240},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2831, col: 14, offset: 90192},
+																									pos:        position{line: 2831, col: 14, offset: 90240},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2831, col: 14, offset: 90192},
+																									pos: position{line: 2831, col: 14, offset: 90240},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2831, col: 14, offset: 90192},
+																										pos: position{line: 2831, col: 14, offset: 90240},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2831, col: 14, offset: 90192},
+																											pos:        position{line: 2831, col: 14, offset: 90240},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2831, col: 14, offset: 90192},
+																pos: position{line: 2831, col: 14, offset: 90240},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2831, col: 14, offset: 90192},
+																	pos: position{line: 2831, col: 14, offset: 90240},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2831, col: 14, offset: 90192},
+																		pos:        position{line: 2831, col: 14, offset: 90240},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2831, col: 14, offset: 90192},
+																pos: position{line: 2831, col: 14, offset: 90240},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2831, col: 14, offset: 90192},
+																	pos: position{line: 2831, col: 14, offset: 90240},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2831, col: 14, offset: 90192},
+																		pos:        position{line: 2831, col: 14, offset: 90240},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2990, col: 11, offset: 94504},
+														pos: position{line: 2990, col: 11, offset: 94552},
 														expr: &anyMatcher{
-															line: 2990, col: 13, offset: 94506,
+															line: 2990, col: 13, offset: 94554,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91924},
+																			pos: position{line: 2896, col: 14, offset: 91972},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91924},
+																				pos: position{line: 2896, col: 14, offset: 91972},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91924},
+																					pos:        position{line: 2896, col: 14, offset: 91972},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2990, col: 11, offset: 94504},
+																									pos: position{line: 2990, col: 11, offset: 94552},
 																									expr: &anyMatcher{
-																										line: 2990, col: 13, offset: 94506,
+																										line: 2990, col: 13, offset: 94554,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 14, offset: 91924},
+																						pos: position{line: 2896, col: 14, offset: 91972},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2896, col: 14, offset: 91924},
+																							pos: position{line: 2896, col: 14, offset: 91972},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 14, offset: 91924},
+																								pos:        position{line: 2896, col: 14, offset: 91972},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -7202,12 +7202,12 @@ var g = &grammar{
 																					pos:   position{line: 1838, col: 5, offset: 59371},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 14, offset: 91924},
+																						pos: position{line: 2896, col: 14, offset: 91972},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2896, col: 14, offset: 91924},
+																							pos: position{line: 2896, col: 14, offset: 91972},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 14, offset: 91924},
+																								pos:        position{line: 2896, col: 14, offset: 91972},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,28 +7221,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2778, col: 18, offset: 88477},
+											pos: position{line: 2778, col: 18, offset: 88525},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2779, col: 9, offset: 88487},
+												pos: position{line: 2779, col: 9, offset: 88535},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88487},
+														pos: position{line: 2779, col: 9, offset: 88535},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88487},
+																pos:        position{line: 2779, col: 9, offset: 88535},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2779, col: 15, offset: 88493},
+																pos: position{line: 2779, col: 15, offset: 88541},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2780, col: 11, offset: 88526},
+														pos: position{line: 2780, col: 11, offset: 88574},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2780, col: 12, offset: 88527},
+																pos: position{line: 2780, col: 12, offset: 88575},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 12, offset: 88527},
+																		pos:        position{line: 2780, col: 12, offset: 88575},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 20, offset: 88535},
+																		pos:        position{line: 2780, col: 20, offset: 88583},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 30, offset: 88545},
+																		pos:        position{line: 2780, col: 30, offset: 88593},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 38, offset: 88553},
+																		pos:        position{line: 2780, col: 38, offset: 88601},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 48, offset: 88563},
+																		pos:        position{line: 2780, col: 48, offset: 88611},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 56, offset: 88571},
+																		pos:        position{line: 2780, col: 56, offset: 88619},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2780, col: 65, offset: 88580},
+																pos: position{line: 2780, col: 65, offset: 88628},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2780, col: 76, offset: 88591},
+																pos: position{line: 2780, col: 76, offset: 88639},
 																expr: &choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2669, col: 5, offset: 85413},
+											pos: position{line: 2669, col: 5, offset: 85461},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2669, col: 5, offset: 85413},
+												pos: position{line: 2669, col: 5, offset: 85461},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2675, col: 19, offset: 85570},
+														pos:        position{line: 2675, col: 19, offset: 85618},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2675, col: 26, offset: 85577},
+														pos: position{line: 2675, col: 26, offset: 85625},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2670, col: 5, offset: 85437},
+														pos:   position{line: 2670, col: 5, offset: 85485},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2670, col: 11, offset: 85443},
+															pos: position{line: 2670, col: 11, offset: 85491},
 															expr: &choiceExpr{
-																pos: position{line: 2670, col: 12, offset: 85444},
+																pos: position{line: 2670, col: 12, offset: 85492},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94504},
+																					pos: position{line: 2990, col: 11, offset: 94552},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94506,
+																						line: 2990, col: 13, offset: 94554,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2682, col: 5, offset: 85689},
+																		pos: position{line: 2682, col: 5, offset: 85737},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2682, col: 5, offset: 85689},
+																			pos: position{line: 2682, col: 5, offset: 85737},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2682, col: 5, offset: 85689},
+																					pos: position{line: 2682, col: 5, offset: 85737},
 																					expr: &choiceExpr{
-																						pos: position{line: 2679, col: 22, offset: 85650},
+																						pos: position{line: 2679, col: 22, offset: 85698},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2675, col: 19, offset: 85570},
+																								pos: position{line: 2675, col: 19, offset: 85618},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2675, col: 19, offset: 85570},
+																										pos:        position{line: 2675, col: 19, offset: 85618},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2675, col: 26, offset: 85577},
+																										pos: position{line: 2675, col: 26, offset: 85625},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94568},
+																										pos: position{line: 2995, col: 8, offset: 94616},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94341},
+																												pos: position{line: 2982, col: 12, offset: 94389},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94342},
+																													pos: position{line: 2982, col: 13, offset: 94390},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94342},
+																															pos:        position{line: 2982, col: 13, offset: 94390},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94349},
+																															pos:        position{line: 2982, col: 20, offset: 94397},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94358},
+																															pos:        position{line: 2982, col: 29, offset: 94406},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94518},
+																												pos: position{line: 2992, col: 8, offset: 94566},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94519,
+																													line: 2992, col: 9, offset: 94567,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2683, col: 5, offset: 85712},
+																					pos:   position{line: 2683, col: 5, offset: 85760},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2684, col: 9, offset: 85730},
+																						pos: position{line: 2684, col: 9, offset: 85778},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2684, col: 10, offset: 85731},
+																								pos: position{line: 2684, col: 10, offset: 85779},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2684, col: 10, offset: 85731},
+																									pos:   position{line: 2684, col: 10, offset: 85779},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2684, col: 17, offset: 85738},
+																										pos: position{line: 2684, col: 17, offset: 85786},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2692, col: 21, offset: 85934},
+																												pos: position{line: 2692, col: 21, offset: 85982},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2692, col: 21, offset: 85934},
+																													pos: position{line: 2692, col: 21, offset: 85982},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2692, col: 21, offset: 85934},
+																															pos:   position{line: 2692, col: 21, offset: 85982},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2692, col: 27, offset: 85940},
+																																pos: position{line: 2692, col: 27, offset: 85988},
 																																expr: &actionExpr{
-																																	pos: position{line: 2697, col: 5, offset: 86015},
+																																	pos: position{line: 2697, col: 5, offset: 86063},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2697, col: 5, offset: 86015},
+																																		pos: position{line: 2697, col: 5, offset: 86063},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2697, col: 5, offset: 86015},
+																																				pos:        position{line: 2697, col: 5, offset: 86063},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2697, col: 9, offset: 86019},
+																																				pos: position{line: 2697, col: 9, offset: 86067},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2973, col: 10, offset: 94170},
+																																					pos: position{line: 2973, col: 10, offset: 94218},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2973, col: 10, offset: 94170},
+																																						pos:        position{line: 2973, col: 10, offset: 94218},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2697, col: 16, offset: 86026},
+																																				pos:   position{line: 2697, col: 16, offset: 86074},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2703, col: 5, offset: 86226},
+																																					pos: position{line: 2703, col: 5, offset: 86274},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2703, col: 5, offset: 86226},
+																																						pos:   position{line: 2703, col: 5, offset: 86274},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2703, col: 14, offset: 86235},
+																																							pos: position{line: 2703, col: 14, offset: 86283},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2703, col: 14, offset: 86235},
+																																								pos: position{line: 2703, col: 14, offset: 86283},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2703, col: 14, offset: 86235},
+																																									pos:        position{line: 2703, col: 14, offset: 86283},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2995, col: 8, offset: 94568},
+																															pos: position{line: 2995, col: 8, offset: 94616},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2982, col: 12, offset: 94341},
+																																	pos: position{line: 2982, col: 12, offset: 94389},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2982, col: 13, offset: 94342},
+																																		pos: position{line: 2982, col: 13, offset: 94390},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 13, offset: 94342},
+																																				pos:        position{line: 2982, col: 13, offset: 94390},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 20, offset: 94349},
+																																				pos:        position{line: 2982, col: 20, offset: 94397},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 29, offset: 94358},
+																																				pos:        position{line: 2982, col: 29, offset: 94406},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2992, col: 8, offset: 94518},
+																																	pos: position{line: 2992, col: 8, offset: 94566},
 																																	expr: &anyMatcher{
-																																		line: 2992, col: 9, offset: 94519,
+																																		line: 2992, col: 9, offset: 94567,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2709, col: 24, offset: 86371},
+																												pos: position{line: 2709, col: 24, offset: 86419},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2709, col: 24, offset: 86371},
+																													pos:   position{line: 2709, col: 24, offset: 86419},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2709, col: 30, offset: 86377},
+																														pos: position{line: 2709, col: 30, offset: 86425},
 																														expr: &actionExpr{
-																															pos: position{line: 2714, col: 5, offset: 86453},
+																															pos: position{line: 2714, col: 5, offset: 86501},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2714, col: 5, offset: 86453},
+																																pos: position{line: 2714, col: 5, offset: 86501},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2714, col: 5, offset: 86453},
+																																		pos: position{line: 2714, col: 5, offset: 86501},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2679, col: 22, offset: 85650},
+																																			pos: position{line: 2679, col: 22, offset: 85698},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2675, col: 19, offset: 85570},
+																																					pos: position{line: 2675, col: 19, offset: 85618},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2675, col: 19, offset: 85570},
+																																							pos:        position{line: 2675, col: 19, offset: 85618},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2675, col: 26, offset: 85577},
+																																							pos: position{line: 2675, col: 26, offset: 85625},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2973, col: 10, offset: 94170},
+																																								pos: position{line: 2973, col: 10, offset: 94218},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2973, col: 10, offset: 94170},
+																																									pos:        position{line: 2973, col: 10, offset: 94218},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2995, col: 8, offset: 94568},
+																																							pos: position{line: 2995, col: 8, offset: 94616},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2982, col: 12, offset: 94341},
+																																									pos: position{line: 2982, col: 12, offset: 94389},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2982, col: 13, offset: 94342},
+																																										pos: position{line: 2982, col: 13, offset: 94390},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 13, offset: 94342},
+																																												pos:        position{line: 2982, col: 13, offset: 94390},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 20, offset: 94349},
+																																												pos:        position{line: 2982, col: 20, offset: 94397},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 29, offset: 94358},
+																																												pos:        position{line: 2982, col: 29, offset: 94406},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94518},
+																																									pos: position{line: 2992, col: 8, offset: 94566},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94519,
+																																										line: 2992, col: 9, offset: 94567,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2992, col: 8, offset: 94518},
+																																					pos: position{line: 2992, col: 8, offset: 94566},
 																																					expr: &anyMatcher{
-																																						line: 2992, col: 9, offset: 94519,
+																																						line: 2992, col: 9, offset: 94567,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2715, col: 5, offset: 86476},
+																																		pos: position{line: 2715, col: 5, offset: 86524},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2990, col: 11, offset: 94504},
+																																						pos: position{line: 2990, col: 11, offset: 94552},
 																																						expr: &anyMatcher{
-																																							line: 2990, col: 13, offset: 94506,
+																																							line: 2990, col: 13, offset: 94554,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2973, col: 10, offset: 94170},
+																																							pos: position{line: 2973, col: 10, offset: 94218},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2973, col: 10, offset: 94170},
+																																								pos:        position{line: 2973, col: 10, offset: 94218},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2995, col: 8, offset: 94568},
+																																						pos: position{line: 2995, col: 8, offset: 94616},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2982, col: 12, offset: 94341},
+																																								pos: position{line: 2982, col: 12, offset: 94389},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2982, col: 13, offset: 94342},
+																																									pos: position{line: 2982, col: 13, offset: 94390},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 13, offset: 94342},
+																																											pos:        position{line: 2982, col: 13, offset: 94390},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 20, offset: 94349},
+																																											pos:        position{line: 2982, col: 20, offset: 94397},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 29, offset: 94358},
+																																											pos:        position{line: 2982, col: 29, offset: 94406},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2992, col: 8, offset: 94518},
+																																								pos: position{line: 2992, col: 8, offset: 94566},
 																																								expr: &anyMatcher{
-																																									line: 2992, col: 9, offset: 94519,
+																																									line: 2992, col: 9, offset: 94567,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2716, col: 5, offset: 86491},
+																																		pos:   position{line: 2716, col: 5, offset: 86539},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2716, col: 12, offset: 86498},
+																																			pos: position{line: 2716, col: 12, offset: 86546},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2733, col: 20, offset: 86962},
+																																				pos: position{line: 2733, col: 20, offset: 87010},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2733, col: 20, offset: 86962},
+																																					pos: position{line: 2733, col: 20, offset: 87010},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2733, col: 20, offset: 86962},
+																																						pos:        position{line: 2733, col: 20, offset: 87010},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2716, col: 31, offset: 86517},
+																																		pos:        position{line: 2716, col: 31, offset: 86565},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2716, col: 35, offset: 86521},
+																																		pos: position{line: 2716, col: 35, offset: 86569},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2973, col: 10, offset: 94170},
+																																			pos: position{line: 2973, col: 10, offset: 94218},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2973, col: 10, offset: 94170},
+																																				pos:        position{line: 2973, col: 10, offset: 94218},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2716, col: 42, offset: 86528},
+																																		pos: position{line: 2716, col: 42, offset: 86576},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2982, col: 12, offset: 94341},
+																																			pos: position{line: 2982, col: 12, offset: 94389},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2982, col: 13, offset: 94342},
+																																				pos: position{line: 2982, col: 13, offset: 94390},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 13, offset: 94342},
+																																						pos:        position{line: 2982, col: 13, offset: 94390},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 20, offset: 94349},
+																																						pos:        position{line: 2982, col: 20, offset: 94397},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 29, offset: 94358},
+																																						pos:        position{line: 2982, col: 29, offset: 94406},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2716, col: 51, offset: 86537},
+																																		pos:   position{line: 2716, col: 51, offset: 86585},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2722, col: 5, offset: 86696},
+																																			pos: position{line: 2722, col: 5, offset: 86744},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2723, col: 9, offset: 86706},
+																																				pos: position{line: 2723, col: 9, offset: 86754},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2723, col: 9, offset: 86706},
+																																					pos: position{line: 2723, col: 9, offset: 86754},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2723, col: 9, offset: 86706},
+																																							pos: position{line: 2723, col: 9, offset: 86754},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2679, col: 22, offset: 85650},
+																																								pos: position{line: 2679, col: 22, offset: 85698},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2675, col: 19, offset: 85570},
+																																										pos: position{line: 2675, col: 19, offset: 85618},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2675, col: 19, offset: 85570},
+																																												pos:        position{line: 2675, col: 19, offset: 85618},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2675, col: 26, offset: 85577},
+																																												pos: position{line: 2675, col: 26, offset: 85625},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2973, col: 10, offset: 94170},
+																																													pos: position{line: 2973, col: 10, offset: 94218},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2973, col: 10, offset: 94170},
+																																														pos:        position{line: 2973, col: 10, offset: 94218},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2995, col: 8, offset: 94568},
+																																												pos: position{line: 2995, col: 8, offset: 94616},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2982, col: 12, offset: 94341},
+																																														pos: position{line: 2982, col: 12, offset: 94389},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2982, col: 13, offset: 94342},
+																																															pos: position{line: 2982, col: 13, offset: 94390},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2992, col: 8, offset: 94518},
+																																														pos: position{line: 2992, col: 8, offset: 94566},
 																																														expr: &anyMatcher{
-																																															line: 2992, col: 9, offset: 94519,
+																																															line: 2992, col: 9, offset: 94567,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2992, col: 8, offset: 94518},
+																																										pos: position{line: 2992, col: 8, offset: 94566},
 																																										expr: &anyMatcher{
-																																											line: 2992, col: 9, offset: 94519,
+																																											line: 2992, col: 9, offset: 94567,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2724, col: 9, offset: 86733},
+																																							pos: position{line: 2724, col: 9, offset: 86781},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2990, col: 11, offset: 94504},
+																																											pos: position{line: 2990, col: 11, offset: 94552},
 																																											expr: &anyMatcher{
-																																												line: 2990, col: 13, offset: 94506,
+																																												line: 2990, col: 13, offset: 94554,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2973, col: 10, offset: 94170},
+																																												pos: position{line: 2973, col: 10, offset: 94218},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2973, col: 10, offset: 94170},
+																																													pos:        position{line: 2973, col: 10, offset: 94218},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2995, col: 8, offset: 94568},
+																																											pos: position{line: 2995, col: 8, offset: 94616},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2982, col: 12, offset: 94341},
+																																													pos: position{line: 2982, col: 12, offset: 94389},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2982, col: 13, offset: 94342},
+																																														pos: position{line: 2982, col: 13, offset: 94390},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2992, col: 8, offset: 94518},
+																																													pos: position{line: 2992, col: 8, offset: 94566},
 																																													expr: &anyMatcher{
-																																														line: 2992, col: 9, offset: 94519,
+																																														line: 2992, col: 9, offset: 94567,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2725, col: 9, offset: 86752},
+																																							pos: position{line: 2725, col: 9, offset: 86800},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2725, col: 11, offset: 86754},
+																																								pos: position{line: 2725, col: 11, offset: 86802},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2725, col: 11, offset: 86754},
+																																										pos:   position{line: 2725, col: 11, offset: 86802},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2725, col: 18, offset: 86761},
+																																											pos: position{line: 2725, col: 18, offset: 86809},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2733, col: 20, offset: 86962},
+																																												pos: position{line: 2733, col: 20, offset: 87010},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2733, col: 20, offset: 86962},
+																																													pos: position{line: 2733, col: 20, offset: 87010},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2733, col: 20, offset: 86962},
+																																														pos:        position{line: 2733, col: 20, offset: 87010},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2725, col: 37, offset: 86780},
+																																										pos:        position{line: 2725, col: 37, offset: 86828},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2726, col: 9, offset: 86793},
+																																							pos:   position{line: 2726, col: 9, offset: 86841},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2726, col: 18, offset: 86802},
+																																								pos: position{line: 2726, col: 18, offset: 86850},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2726, col: 18, offset: 86802},
+																																									pos: position{line: 2726, col: 18, offset: 86850},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2726, col: 18, offset: 86802},
+																																										pos:        position{line: 2726, col: 18, offset: 86850},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2728, col: 12, offset: 86864},
+																																							pos: position{line: 2728, col: 12, offset: 86912},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2995, col: 8, offset: 94568},
+																																								pos: position{line: 2995, col: 8, offset: 94616},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2982, col: 12, offset: 94341},
+																																										pos: position{line: 2982, col: 12, offset: 94389},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2982, col: 13, offset: 94342},
+																																											pos: position{line: 2982, col: 13, offset: 94390},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 13, offset: 94342},
+																																													pos:        position{line: 2982, col: 13, offset: 94390},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 20, offset: 94349},
+																																													pos:        position{line: 2982, col: 20, offset: 94397},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 29, offset: 94358},
+																																													pos:        position{line: 2982, col: 29, offset: 94406},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2992, col: 8, offset: 94518},
+																																										pos: position{line: 2992, col: 8, offset: 94566},
 																																										expr: &anyMatcher{
-																																											line: 2992, col: 9, offset: 94519,
+																																											line: 2992, col: 9, offset: 94567,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2990, col: 11, offset: 94504},
+																											pos: position{line: 2990, col: 11, offset: 94552},
 																											expr: &anyMatcher{
-																												line: 2990, col: 13, offset: 94506,
+																												line: 2990, col: 13, offset: 94554,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2679, col: 22, offset: 85650},
+														pos: position{line: 2679, col: 22, offset: 85698},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2675, col: 19, offset: 85570},
+																pos: position{line: 2675, col: 19, offset: 85618},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2675, col: 19, offset: 85570},
+																		pos:        position{line: 2675, col: 19, offset: 85618},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2675, col: 26, offset: 85577},
+																		pos: position{line: 2675, col: 26, offset: 85625},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2540, col: 22, offset: 81813},
+												pos: position{line: 2540, col: 22, offset: 81861},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2545, col: 31, offset: 82034},
+														pos:        position{line: 2545, col: 31, offset: 82082},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2545, col: 36, offset: 82039},
+														pos: position{line: 2545, col: 36, offset: 82087},
 														expr: &litMatcher{
-															pos:        position{line: 2545, col: 37, offset: 82040},
+															pos:        position{line: 2545, col: 37, offset: 82088},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2540, col: 49, offset: 81840},
+														pos:   position{line: 2540, col: 49, offset: 81888},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2892, col: 13, offset: 91857},
+																pos: position{line: 2892, col: 13, offset: 91905},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91857},
+																	pos:        position{line: 2892, col: 13, offset: 91905},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94568},
+																										pos: position{line: 2995, col: 8, offset: 94616},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94341},
+																												pos: position{line: 2982, col: 12, offset: 94389},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94342},
+																													pos: position{line: 2982, col: 13, offset: 94390},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94342},
+																															pos:        position{line: 2982, col: 13, offset: 94390},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94349},
+																															pos:        position{line: 2982, col: 20, offset: 94397},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94358},
+																															pos:        position{line: 2982, col: 29, offset: 94406},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94518},
+																												pos: position{line: 2992, col: 8, offset: 94566},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94519,
+																													line: 2992, col: 9, offset: 94567,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2977, col: 11, offset: 94231},
+												pos: position{line: 2977, col: 11, offset: 94279},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2977, col: 11, offset: 94231},
+													pos: position{line: 2977, col: 11, offset: 94279},
 													expr: &charClassMatcher{
-														pos:        position{line: 2977, col: 11, offset: 94231},
+														pos:        position{line: 2977, col: 11, offset: 94279},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94341},
+												pos: position{line: 2982, col: 12, offset: 94389},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94342},
+													pos: position{line: 2982, col: 13, offset: 94390},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94342},
+															pos:        position{line: 2982, col: 13, offset: 94390},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94349},
+															pos:        position{line: 2982, col: 20, offset: 94397},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94358},
+															pos:        position{line: 2982, col: 29, offset: 94406},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94170},
+													pos: position{line: 2973, col: 10, offset: 94218},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94170},
+														pos:        position{line: 2973, col: 10, offset: 94218},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94170},
+											pos: position{line: 2973, col: 10, offset: 94218},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94170},
+												pos:        position{line: 2973, col: 10, offset: 94218},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2995, col: 8, offset: 94568},
+										pos: position{line: 2995, col: 8, offset: 94616},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94341},
+												pos: position{line: 2982, col: 12, offset: 94389},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94342},
+													pos: position{line: 2982, col: 13, offset: 94390},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94342},
+															pos:        position{line: 2982, col: 13, offset: 94390},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94349},
+															pos:        position{line: 2982, col: 20, offset: 94397},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94358},
+															pos:        position{line: 2982, col: 29, offset: 94406},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2992, col: 8, offset: 94518},
+												pos: position{line: 2992, col: 8, offset: 94566},
 												expr: &anyMatcher{
-													line: 2992, col: 9, offset: 94519,
+													line: 2992, col: 9, offset: 94567,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81359},
+										pos: position{line: 2527, col: 5, offset: 81407},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81359},
+													pos: position{line: 2527, col: 5, offset: 81407},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81435},
+													pos:   position{line: 2530, col: 5, offset: 81483},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81453},
+														pos: position{line: 2531, col: 9, offset: 81501},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81454},
+															pos:        position{line: 2531, col: 10, offset: 81502},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94170},
+										pos: position{line: 2973, col: 10, offset: 94218},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94170},
+											pos:        position{line: 2973, col: 10, offset: 94218},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94170},
+													pos: position{line: 2973, col: 10, offset: 94218},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94170},
+														pos:        position{line: 2973, col: 10, offset: 94218},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94568},
+												pos: position{line: 2995, col: 8, offset: 94616},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94341},
+														pos: position{line: 2982, col: 12, offset: 94389},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94342},
+															pos: position{line: 2982, col: 13, offset: 94390},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94342},
+																	pos:        position{line: 2982, col: 13, offset: 94390},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94349},
+																	pos:        position{line: 2982, col: 20, offset: 94397},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94358},
+																	pos:        position{line: 2982, col: 29, offset: 94406},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94518},
+														pos: position{line: 2992, col: 8, offset: 94566},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94519,
+															line: 2992, col: 9, offset: 94567,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94504},
+																pos: position{line: 2990, col: 11, offset: 94552},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94506,
+																	line: 2990, col: 13, offset: 94554,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2831, col: 14, offset: 90192},
+																				pos: position{line: 2831, col: 14, offset: 90240},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2831, col: 14, offset: 90192},
+																					pos: position{line: 2831, col: 14, offset: 90240},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2831, col: 14, offset: 90192},
+																						pos:        position{line: 2831, col: 14, offset: 90240},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2863, col: 5, offset: 90985},
+																				pos: position{line: 2863, col: 5, offset: 91033},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2864, col: 9, offset: 90995},
+																					pos: position{line: 2864, col: 9, offset: 91043},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90996},
+																							pos:        position{line: 2864, col: 10, offset: 91044},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2866, col: 13, offset: 91093},
+																							pos: position{line: 2866, col: 13, offset: 91141},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2866, col: 13, offset: 91093},
+																									pos: position{line: 2866, col: 13, offset: 91141},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 91193},
+																									pos:        position{line: 2869, col: 13, offset: 91241},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 19, offset: 91199},
+																							pos:        position{line: 2869, col: 19, offset: 91247},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2872, col: 13, offset: 91237},
+																							pos: position{line: 2872, col: 13, offset: 91285},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2872, col: 13, offset: 91237},
+																									pos: position{line: 2872, col: 13, offset: 91285},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2875, col: 14, offset: 91330},
+																									pos:        position{line: 2875, col: 14, offset: 91378},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2877, col: 12, offset: 91374},
+																							pos: position{line: 2877, col: 12, offset: 91422},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 12, offset: 91374},
+																									pos:        position{line: 2877, col: 12, offset: 91422},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2877, col: 16, offset: 91378},
+																									pos: position{line: 2877, col: 16, offset: 91426},
 																									expr: &litMatcher{
-																										pos:        position{line: 2877, col: 17, offset: 91379},
+																										pos:        position{line: 2877, col: 17, offset: 91427},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91639},
+																				pos: position{line: 2885, col: 12, offset: 91687},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 12, offset: 91639},
+																					pos:        position{line: 2885, col: 12, offset: 91687},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94170},
+													pos: position{line: 2973, col: 10, offset: 94218},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94170},
+														pos:        position{line: 2973, col: 10, offset: 94218},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94568},
+												pos: position{line: 2995, col: 8, offset: 94616},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94341},
+														pos: position{line: 2982, col: 12, offset: 94389},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94342},
+															pos: position{line: 2982, col: 13, offset: 94390},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94342},
+																	pos:        position{line: 2982, col: 13, offset: 94390},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94349},
+																	pos:        position{line: 2982, col: 20, offset: 94397},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94358},
+																	pos:        position{line: 2982, col: 29, offset: 94406},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94518},
+														pos: position{line: 2992, col: 8, offset: 94566},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94519,
+															line: 2992, col: 9, offset: 94567,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94504},
+																pos: position{line: 2990, col: 11, offset: 94552},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94506,
+																	line: 2990, col: 13, offset: 94554,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94170},
+													pos: position{line: 2973, col: 10, offset: 94218},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94170},
+														pos:        position{line: 2973, col: 10, offset: 94218},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94568},
+												pos: position{line: 2995, col: 8, offset: 94616},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94341},
+														pos: position{line: 2982, col: 12, offset: 94389},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94342},
+															pos: position{line: 2982, col: 13, offset: 94390},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94342},
+																	pos:        position{line: 2982, col: 13, offset: 94390},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94349},
+																	pos:        position{line: 2982, col: 20, offset: 94397},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94358},
+																	pos:        position{line: 2982, col: 29, offset: 94406},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94518},
+														pos: position{line: 2992, col: 8, offset: 94566},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94519,
+															line: 2992, col: 9, offset: 94567,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94504},
+																pos: position{line: 2990, col: 11, offset: 94552},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94506,
+																	line: 2990, col: 13, offset: 94554,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94170},
+											pos: position{line: 2973, col: 10, offset: 94218},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94170},
+												pos:        position{line: 2973, col: 10, offset: 94218},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94170},
+													pos: position{line: 2973, col: 10, offset: 94218},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94170},
+														pos:        position{line: 2973, col: 10, offset: 94218},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94170},
+												pos: position{line: 2973, col: 10, offset: 94218},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94170},
+													pos:        position{line: 2973, col: 10, offset: 94218},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94170},
+											pos: position{line: 2973, col: 10, offset: 94218},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94170},
+												pos:        position{line: 2973, col: 10, offset: 94218},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94170},
+												pos: position{line: 2973, col: 10, offset: 94218},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94170},
+													pos:        position{line: 2973, col: 10, offset: 94218},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90192},
+									pos: position{line: 2831, col: 14, offset: 90240},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90192},
+										pos: position{line: 2831, col: 14, offset: 90240},
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90192},
+											pos:        position{line: 2831, col: 14, offset: 90240},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94170},
+									pos: position{line: 2973, col: 10, offset: 94218},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94170},
+										pos:        position{line: 2973, col: 10, offset: 94218},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94170},
+												pos: position{line: 2973, col: 10, offset: 94218},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94170},
+													pos:        position{line: 2973, col: 10, offset: 94218},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90192},
+									pos: position{line: 2831, col: 14, offset: 90240},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90192},
+										pos: position{line: 2831, col: 14, offset: 90240},
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90192},
+											pos:        position{line: 2831, col: 14, offset: 90240},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94170},
+									pos: position{line: 2973, col: 10, offset: 94218},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94170},
+										pos:        position{line: 2973, col: 10, offset: 94218},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94170},
+											pos: position{line: 2973, col: 10, offset: 94218},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94170},
+												pos:        position{line: 2973, col: 10, offset: 94218},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2958, col: 7, offset: 93822},
+										pos: position{line: 2958, col: 7, offset: 93870},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2958, col: 7, offset: 93822},
+											pos: position{line: 2958, col: 7, offset: 93870},
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 7, offset: 93822},
+												pos:        position{line: 2958, col: 7, offset: 93870},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94170},
+										pos: position{line: 2973, col: 10, offset: 94218},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94170},
+											pos:        position{line: 2973, col: 10, offset: 94218},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2958, col: 7, offset: 93822},
+										pos: position{line: 2958, col: 7, offset: 93870},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2958, col: 7, offset: 93822},
+											pos: position{line: 2958, col: 7, offset: 93870},
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 7, offset: 93822},
+												pos:        position{line: 2958, col: 7, offset: 93870},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 17, offset: 91994},
+								pos: position{line: 2900, col: 17, offset: 92042},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2900, col: 17, offset: 91994},
+									pos:   position{line: 2900, col: 17, offset: 92042},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2921, col: 5, offset: 92579},
+										pos: position{line: 2921, col: 5, offset: 92627},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2921, col: 5, offset: 92579},
+											pos:   position{line: 2921, col: 5, offset: 92627},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2921, col: 14, offset: 92588},
+												pos: position{line: 2921, col: 14, offset: 92636},
 												expr: &choiceExpr{
-													pos: position{line: 2922, col: 9, offset: 92598},
+													pos: position{line: 2922, col: 9, offset: 92646},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2922, col: 9, offset: 92598},
+															pos: position{line: 2922, col: 9, offset: 92646},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2922, col: 9, offset: 92598},
+																pos: position{line: 2922, col: 9, offset: 92646},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2922, col: 9, offset: 92598},
+																		pos: position{line: 2922, col: 9, offset: 92646},
 																		expr: &litMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92599},
+																			pos:        position{line: 2922, col: 10, offset: 92647},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2923, col: 9, offset: 92627},
+																		pos: position{line: 2923, col: 9, offset: 92675},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2923, col: 10, offset: 92628},
+																			pos:        position{line: 2923, col: 10, offset: 92676},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2926, col: 11, offset: 92840},
+															pos: position{line: 2926, col: 11, offset: 92888},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92840},
+																	pos:        position{line: 2926, col: 11, offset: 92888},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2926, col: 19, offset: 92848},
+																	pos: position{line: 2926, col: 19, offset: 92896},
 																	expr: &seqExpr{
-																		pos: position{line: 2926, col: 21, offset: 92850},
+																		pos: position{line: 2926, col: 21, offset: 92898},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2926, col: 21, offset: 92850},
+																				pos: position{line: 2926, col: 21, offset: 92898},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2926, col: 28, offset: 92857},
+																				pos: position{line: 2926, col: 28, offset: 92905},
 																				expr: &notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2929, col: 11, offset: 92977},
+															pos: position{line: 2929, col: 11, offset: 93025},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2929, col: 11, offset: 92977},
+																pos:        position{line: 2929, col: 11, offset: 93025},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 14, offset: 91924},
+								pos: position{line: 2896, col: 14, offset: 91972},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2896, col: 14, offset: 91924},
+									pos: position{line: 2896, col: 14, offset: 91972},
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 14, offset: 91924},
+										pos:        position{line: 2896, col: 14, offset: 91972},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81813},
+										pos: position{line: 2540, col: 22, offset: 81861},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82034},
+													pos:        position{line: 2545, col: 31, offset: 82082},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82039},
+													pos: position{line: 2545, col: 36, offset: 82087},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82040},
+														pos:        position{line: 2545, col: 37, offset: 82088},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81840},
+													pos:   position{line: 2540, col: 49, offset: 81888},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91857},
+														pos: position{line: 2892, col: 13, offset: 91905},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91857},
+																pos:        position{line: 2892, col: 13, offset: 91905},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81813},
+										pos: position{line: 2540, col: 22, offset: 81861},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82034},
+													pos:        position{line: 2545, col: 31, offset: 82082},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82039},
+													pos: position{line: 2545, col: 36, offset: 82087},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82040},
+														pos:        position{line: 2545, col: 37, offset: 82088},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81840},
+													pos:   position{line: 2540, col: 49, offset: 81888},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91857},
+														pos: position{line: 2892, col: 13, offset: 91905},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91857},
+																pos:        position{line: 2892, col: 13, offset: 91905},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2990, col: 11, offset: 94504},
+																										pos: position{line: 2990, col: 11, offset: 94552},
 																										expr: &anyMatcher{
-																											line: 2990, col: 13, offset: 94506,
+																											line: 2990, col: 13, offset: 94554,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81813},
+															pos: position{line: 2540, col: 22, offset: 81861},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81813},
+																pos: position{line: 2540, col: 22, offset: 81861},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82034},
+																		pos:        position{line: 2545, col: 31, offset: 82082},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82039},
+																		pos: position{line: 2545, col: 36, offset: 82087},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82040},
+																			pos:        position{line: 2545, col: 37, offset: 82088},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81840},
+																		pos:   position{line: 2540, col: 49, offset: 81888},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91857},
+																			pos: position{line: 2892, col: 13, offset: 91905},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91857},
+																				pos: position{line: 2892, col: 13, offset: 91905},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91857},
+																					pos:        position{line: 2892, col: 13, offset: 91905},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2973, col: 10, offset: 94170},
+																																	pos: position{line: 2973, col: 10, offset: 94218},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2973, col: 10, offset: 94170},
+																																		pos:        position{line: 2973, col: 10, offset: 94218},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2995, col: 8, offset: 94568},
+																																pos: position{line: 2995, col: 8, offset: 94616},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2982, col: 12, offset: 94341},
+																																		pos: position{line: 2982, col: 12, offset: 94389},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2982, col: 13, offset: 94342},
+																																			pos: position{line: 2982, col: 13, offset: 94390},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 13, offset: 94342},
+																																					pos:        position{line: 2982, col: 13, offset: 94390},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 20, offset: 94349},
+																																					pos:        position{line: 2982, col: 20, offset: 94397},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 29, offset: 94358},
+																																					pos:        position{line: 2982, col: 29, offset: 94406},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2992, col: 8, offset: 94518},
+																																		pos: position{line: 2992, col: 8, offset: 94566},
 																																		expr: &anyMatcher{
-																																			line: 2992, col: 9, offset: 94519,
+																																			line: 2992, col: 9, offset: 94567,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2990, col: 11, offset: 94504},
+																											pos: position{line: 2990, col: 11, offset: 94552},
 																											expr: &anyMatcher{
-																												line: 2990, col: 13, offset: 94506,
+																												line: 2990, col: 13, offset: 94554,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 13, offset: 91857},
+																												pos: position{line: 2892, col: 13, offset: 91905},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2892, col: 13, offset: 91857},
+																													pos: position{line: 2892, col: 13, offset: 91905},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91857},
+																														pos:        position{line: 2892, col: 13, offset: 91905},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94170},
+															pos: position{line: 2973, col: 10, offset: 94218},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94170},
+																pos:        position{line: 2973, col: 10, offset: 94218},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2540, col: 22, offset: 81813},
+												pos: position{line: 2540, col: 22, offset: 81861},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2545, col: 31, offset: 82034},
+														pos:        position{line: 2545, col: 31, offset: 82082},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2545, col: 36, offset: 82039},
+														pos: position{line: 2545, col: 36, offset: 82087},
 														expr: &litMatcher{
-															pos:        position{line: 2545, col: 37, offset: 82040},
+															pos:        position{line: 2545, col: 37, offset: 82088},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2540, col: 49, offset: 81840},
+														pos:   position{line: 2540, col: 49, offset: 81888},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2892, col: 13, offset: 91857},
+																pos: position{line: 2892, col: 13, offset: 91905},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91857},
+																	pos:        position{line: 2892, col: 13, offset: 91905},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94170},
+																													pos: position{line: 2973, col: 10, offset: 94218},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94170},
+																														pos:        position{line: 2973, col: 10, offset: 94218},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94568},
+																												pos: position{line: 2995, col: 8, offset: 94616},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94341},
+																														pos: position{line: 2982, col: 12, offset: 94389},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94342},
+																															pos: position{line: 2982, col: 13, offset: 94390},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94342},
+																																	pos:        position{line: 2982, col: 13, offset: 94390},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94349},
+																																	pos:        position{line: 2982, col: 20, offset: 94397},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94358},
+																																	pos:        position{line: 2982, col: 29, offset: 94406},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94518},
+																														pos: position{line: 2992, col: 8, offset: 94566},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94519,
+																															line: 2992, col: 9, offset: 94567,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91857},
+																									pos: position{line: 2892, col: 13, offset: 91905},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91857},
+																										pos:        position{line: 2892, col: 13, offset: 91905},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2977, col: 11, offset: 94231},
+							pos: position{line: 2977, col: 11, offset: 94279},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2977, col: 11, offset: 94231},
+								pos: position{line: 2977, col: 11, offset: 94279},
 								expr: &charClassMatcher{
-									pos:        position{line: 2977, col: 11, offset: 94231},
+									pos:        position{line: 2977, col: 11, offset: 94279},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 7, offset: 93822},
+								pos: position{line: 2958, col: 7, offset: 93870},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2958, col: 7, offset: 93822},
+									pos: position{line: 2958, col: 7, offset: 93870},
 									expr: &charClassMatcher{
-										pos:        position{line: 2958, col: 7, offset: 93822},
+										pos:        position{line: 2958, col: 7, offset: 93870},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19997,12 +19997,12 @@ var g = &grammar{
 							pos: position{line: 1324, col: 31, offset: 41118},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90192},
+									pos: position{line: 2831, col: 14, offset: 90240},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90192},
+										pos: position{line: 2831, col: 14, offset: 90240},
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90192},
+											pos:        position{line: 2831, col: 14, offset: 90240},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20015,10 +20015,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94170},
+									pos: position{line: 2973, col: 10, offset: 94218},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94170},
+										pos:        position{line: 2973, col: 10, offset: 94218},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -20026,23 +20026,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2527, col: 5, offset: 81359},
+									pos: position{line: 2527, col: 5, offset: 81407},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2527, col: 5, offset: 81359},
+										pos: position{line: 2527, col: 5, offset: 81407},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2527, col: 5, offset: 81359},
+												pos: position{line: 2527, col: 5, offset: 81407},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2530, col: 5, offset: 81435},
+												pos:   position{line: 2530, col: 5, offset: 81483},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2531, col: 9, offset: 81453},
+													pos: position{line: 2531, col: 9, offset: 81501},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 10, offset: 81454},
+														pos:        position{line: 2531, col: 10, offset: 81502},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20138,48 +20138,48 @@ var g = &grammar{
 							pos:   position{line: 1345, col: 15, offset: 41936},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2904, col: 13, offset: 92090},
+								pos: position{line: 2904, col: 13, offset: 92138},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2904, col: 13, offset: 92090},
+									pos: position{line: 2904, col: 13, offset: 92138},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2904, col: 13, offset: 92090},
+											pos:   position{line: 2904, col: 13, offset: 92138},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2904, col: 20, offset: 92097},
+												pos: position{line: 2904, col: 20, offset: 92145},
 												expr: &actionExpr{
-													pos: position{line: 2916, col: 11, offset: 92467},
+													pos: position{line: 2916, col: 11, offset: 92515},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2916, col: 12, offset: 92468},
+														pos: position{line: 2916, col: 12, offset: 92516},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2916, col: 12, offset: 92468},
+																pos:        position{line: 2916, col: 12, offset: 92516},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 24, offset: 92480},
+																pos:        position{line: 2916, col: 24, offset: 92528},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 37, offset: 92493},
+																pos:        position{line: 2916, col: 37, offset: 92541},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 48, offset: 92504},
+																pos:        position{line: 2916, col: 48, offset: 92552},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 59, offset: 92515},
+																pos:        position{line: 2916, col: 59, offset: 92563},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20190,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2904, col: 30, offset: 92107},
+											pos:   position{line: 2904, col: 30, offset: 92155},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2921, col: 5, offset: 92579},
+												pos: position{line: 2921, col: 5, offset: 92627},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2921, col: 5, offset: 92579},
+													pos:   position{line: 2921, col: 5, offset: 92627},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2921, col: 14, offset: 92588},
+														pos: position{line: 2921, col: 14, offset: 92636},
 														expr: &choiceExpr{
-															pos: position{line: 2922, col: 9, offset: 92598},
+															pos: position{line: 2922, col: 9, offset: 92646},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2922, col: 9, offset: 92598},
+																		pos: position{line: 2922, col: 9, offset: 92646},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				expr: &litMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92599},
+																					pos:        position{line: 2922, col: 10, offset: 92647},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2923, col: 9, offset: 92627},
+																				pos: position{line: 2923, col: 9, offset: 92675},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 10, offset: 92628},
+																					pos:        position{line: 2923, col: 10, offset: 92676},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20232,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2926, col: 11, offset: 92840},
+																	pos: position{line: 2926, col: 11, offset: 92888},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92840},
+																			pos:        position{line: 2926, col: 11, offset: 92888},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2926, col: 19, offset: 92848},
+																			pos: position{line: 2926, col: 19, offset: 92896},
 																			expr: &seqExpr{
-																				pos: position{line: 2926, col: 21, offset: 92850},
+																				pos: position{line: 2926, col: 21, offset: 92898},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20261,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2926, col: 28, offset: 92857},
+																						pos: position{line: 2926, col: 28, offset: 92905},
 																						expr: &notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -20660,10 +20660,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 92977},
+																	pos: position{line: 2929, col: 11, offset: 93025},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2929, col: 11, offset: 92977},
+																		pos:        position{line: 2929, col: 11, offset: 93025},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20690,10 +20690,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1345, col: 61, offset: 41982},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20702,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20732,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -20771,48 +20771,48 @@ var g = &grammar{
 							pos:   position{line: 1350, col: 30, offset: 42228},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2904, col: 13, offset: 92090},
+								pos: position{line: 2904, col: 13, offset: 92138},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2904, col: 13, offset: 92090},
+									pos: position{line: 2904, col: 13, offset: 92138},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2904, col: 13, offset: 92090},
+											pos:   position{line: 2904, col: 13, offset: 92138},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2904, col: 20, offset: 92097},
+												pos: position{line: 2904, col: 20, offset: 92145},
 												expr: &actionExpr{
-													pos: position{line: 2916, col: 11, offset: 92467},
+													pos: position{line: 2916, col: 11, offset: 92515},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2916, col: 12, offset: 92468},
+														pos: position{line: 2916, col: 12, offset: 92516},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2916, col: 12, offset: 92468},
+																pos:        position{line: 2916, col: 12, offset: 92516},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 24, offset: 92480},
+																pos:        position{line: 2916, col: 24, offset: 92528},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 37, offset: 92493},
+																pos:        position{line: 2916, col: 37, offset: 92541},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 48, offset: 92504},
+																pos:        position{line: 2916, col: 48, offset: 92552},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 59, offset: 92515},
+																pos:        position{line: 2916, col: 59, offset: 92563},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20823,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2904, col: 30, offset: 92107},
+											pos:   position{line: 2904, col: 30, offset: 92155},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2921, col: 5, offset: 92579},
+												pos: position{line: 2921, col: 5, offset: 92627},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2921, col: 5, offset: 92579},
+													pos:   position{line: 2921, col: 5, offset: 92627},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2921, col: 14, offset: 92588},
+														pos: position{line: 2921, col: 14, offset: 92636},
 														expr: &choiceExpr{
-															pos: position{line: 2922, col: 9, offset: 92598},
+															pos: position{line: 2922, col: 9, offset: 92646},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2922, col: 9, offset: 92598},
+																		pos: position{line: 2922, col: 9, offset: 92646},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				expr: &litMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92599},
+																					pos:        position{line: 2922, col: 10, offset: 92647},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2923, col: 9, offset: 92627},
+																				pos: position{line: 2923, col: 9, offset: 92675},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 10, offset: 92628},
+																					pos:        position{line: 2923, col: 10, offset: 92676},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20865,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2926, col: 11, offset: 92840},
+																	pos: position{line: 2926, col: 11, offset: 92888},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92840},
+																			pos:        position{line: 2926, col: 11, offset: 92888},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2926, col: 19, offset: 92848},
+																			pos: position{line: 2926, col: 19, offset: 92896},
 																			expr: &seqExpr{
-																				pos: position{line: 2926, col: 21, offset: 92850},
+																				pos: position{line: 2926, col: 21, offset: 92898},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +20894,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2926, col: 28, offset: 92857},
+																						pos: position{line: 2926, col: 28, offset: 92905},
 																						expr: &notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -21293,10 +21293,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 92977},
+																	pos: position{line: 2929, col: 11, offset: 93025},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2929, col: 11, offset: 92977},
+																		pos:        position{line: 2929, col: 11, offset: 93025},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21475,30 +21475,30 @@ var g = &grammar{
 								pos: position{line: 1377, col: 9, offset: 43514},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90265},
+										pos: position{line: 2836, col: 5, offset: 90313},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90265},
+											pos: position{line: 2836, col: 5, offset: 90313},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90265},
+													pos: position{line: 2836, col: 5, offset: 90313},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90276},
+														pos: position{line: 2837, col: 9, offset: 90324},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90276},
+																pos: position{line: 2837, col: 9, offset: 90324},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90339},
+																pos:   position{line: 2840, col: 9, offset: 90387},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89651},
+																	pos: position{line: 2812, col: 18, offset: 89699},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89652},
+																		pos: position{line: 2812, col: 19, offset: 89700},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89652},
+																			pos:        position{line: 2812, col: 19, offset: 89700},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21509,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90360},
+																pos:        position{line: 2840, col: 30, offset: 90408},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90447},
+																pos: position{line: 2841, col: 9, offset: 90495},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90559},
+													pos:   position{line: 2845, col: 5, offset: 90607},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90565},
+														pos: position{line: 2845, col: 11, offset: 90613},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90565},
+															pos: position{line: 2845, col: 11, offset: 90613},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90565},
+																pos:        position{line: 2845, col: 11, offset: 90613},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21540,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90623},
+													pos: position{line: 2848, col: 5, offset: 90671},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90634},
+														pos: position{line: 2849, col: 9, offset: 90682},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90634},
+																pos:        position{line: 2849, col: 9, offset: 90682},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90683},
+																pos: position{line: 2850, col: 9, offset: 90731},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90763},
+													pos: position{line: 2854, col: 5, offset: 90811},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90774},
+														pos: position{line: 2855, col: 9, offset: 90822},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90774},
+																pos: position{line: 2855, col: 9, offset: 90822},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90774},
+																	pos:        position{line: 2855, col: 9, offset: 90822},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21574,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90788},
+																pos:        position{line: 2855, col: 23, offset: 90836},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90792},
+																pos:        position{line: 2855, col: 27, offset: 90840},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21593,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2977, col: 11, offset: 94231},
+										pos: position{line: 2977, col: 11, offset: 94279},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2977, col: 11, offset: 94231},
+											pos: position{line: 2977, col: 11, offset: 94279},
 											expr: &charClassMatcher{
-												pos:        position{line: 2977, col: 11, offset: 94231},
+												pos:        position{line: 2977, col: 11, offset: 94279},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21607,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82530},
+										pos: position{line: 2558, col: 5, offset: 82578},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82530},
+											pos: position{line: 2558, col: 5, offset: 82578},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82530},
+													pos: position{line: 2558, col: 5, offset: 82578},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82601},
+													pos:        position{line: 2561, col: 5, offset: 82649},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82606},
+													pos: position{line: 2561, col: 10, offset: 82654},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82607},
+														pos:        position{line: 2561, col: 11, offset: 82655},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21636,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82793},
+										pos: position{line: 2567, col: 5, offset: 82841},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82793},
+											pos: position{line: 2567, col: 5, offset: 82841},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82793},
+													pos: position{line: 2567, col: 5, offset: 82841},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82864},
+													pos: position{line: 2570, col: 5, offset: 82912},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 82989},
+													pos:        position{line: 2574, col: 5, offset: 83037},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 82993},
+													pos: position{line: 2574, col: 9, offset: 83041},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 82994},
+														pos:        position{line: 2574, col: 10, offset: 83042},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21677,27 +21677,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 90985},
+										pos: position{line: 2863, col: 5, offset: 91033},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 90995},
+											pos: position{line: 2864, col: 9, offset: 91043},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90996},
+													pos:        position{line: 2864, col: 10, offset: 91044},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91093},
+													pos: position{line: 2866, col: 13, offset: 91141},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91093},
+															pos: position{line: 2866, col: 13, offset: 91141},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91193},
+															pos:        position{line: 2869, col: 13, offset: 91241},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21705,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91199},
+													pos:        position{line: 2869, col: 19, offset: 91247},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91237},
+													pos: position{line: 2872, col: 13, offset: 91285},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91237},
+															pos: position{line: 2872, col: 13, offset: 91285},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91330},
+															pos:        position{line: 2875, col: 14, offset: 91378},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21727,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91374},
+													pos: position{line: 2877, col: 12, offset: 91422},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91374},
+															pos:        position{line: 2877, col: 12, offset: 91422},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91378},
+															pos: position{line: 2877, col: 16, offset: 91426},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91379},
+																pos:        position{line: 2877, col: 17, offset: 91427},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21776,10 +21776,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21790,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21820,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -22178,23 +22178,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81359},
+										pos: position{line: 2527, col: 5, offset: 81407},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81359},
+													pos: position{line: 2527, col: 5, offset: 81407},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81435},
+													pos:   position{line: 2530, col: 5, offset: 81483},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81453},
+														pos: position{line: 2531, col: 9, offset: 81501},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81454},
+															pos:        position{line: 2531, col: 10, offset: 81502},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22206,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94341},
+										pos: position{line: 2982, col: 12, offset: 94389},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94342},
+											pos: position{line: 2982, col: 13, offset: 94390},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94342},
+													pos:        position{line: 2982, col: 13, offset: 94390},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94349},
+													pos:        position{line: 2982, col: 20, offset: 94397},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94358},
+													pos:        position{line: 2982, col: 29, offset: 94406},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22233,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91639},
+										pos: position{line: 2885, col: 12, offset: 91687},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91639},
+											pos:        position{line: 2885, col: 12, offset: 91687},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22388,55 +22388,55 @@ var g = &grammar{
 									pos:   position{line: 1453, col: 5, offset: 46590},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92217},
+										pos: position{line: 2908, col: 23, offset: 92265},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92217},
+											pos: position{line: 2908, col: 23, offset: 92265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92217},
+													pos: position{line: 2908, col: 23, offset: 92265},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92218},
+														pos:        position{line: 2908, col: 24, offset: 92266},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92222},
+													pos:   position{line: 2908, col: 28, offset: 92270},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92467},
+														pos: position{line: 2916, col: 11, offset: 92515},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92468},
+															pos: position{line: 2916, col: 12, offset: 92516},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92468},
+																	pos:        position{line: 2916, col: 12, offset: 92516},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92480},
+																	pos:        position{line: 2916, col: 24, offset: 92528},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92493},
+																	pos:        position{line: 2916, col: 37, offset: 92541},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92504},
+																	pos:        position{line: 2916, col: 48, offset: 92552},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92515},
+																	pos:        position{line: 2916, col: 59, offset: 92563},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22446,38 +22446,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92238},
+													pos:   position{line: 2908, col: 44, offset: 92286},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22488,27 +22488,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22517,11 +22517,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -22916,10 +22916,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23121,48 +23121,48 @@ var g = &grammar{
 									pos:   position{line: 1466, col: 17, offset: 47005},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2904, col: 13, offset: 92090},
+										pos: position{line: 2904, col: 13, offset: 92138},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2904, col: 13, offset: 92090},
+											pos: position{line: 2904, col: 13, offset: 92138},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2904, col: 13, offset: 92090},
+													pos:   position{line: 2904, col: 13, offset: 92138},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2904, col: 20, offset: 92097},
+														pos: position{line: 2904, col: 20, offset: 92145},
 														expr: &actionExpr{
-															pos: position{line: 2916, col: 11, offset: 92467},
+															pos: position{line: 2916, col: 11, offset: 92515},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2916, col: 12, offset: 92468},
+																pos: position{line: 2916, col: 12, offset: 92516},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 12, offset: 92468},
+																		pos:        position{line: 2916, col: 12, offset: 92516},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 24, offset: 92480},
+																		pos:        position{line: 2916, col: 24, offset: 92528},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 37, offset: 92493},
+																		pos:        position{line: 2916, col: 37, offset: 92541},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 48, offset: 92504},
+																		pos:        position{line: 2916, col: 48, offset: 92552},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 59, offset: 92515},
+																		pos:        position{line: 2916, col: 59, offset: 92563},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23173,38 +23173,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2904, col: 30, offset: 92107},
+													pos:   position{line: 2904, col: 30, offset: 92155},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23215,27 +23215,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23244,11 +23244,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -23643,10 +23643,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23689,48 +23689,48 @@ var g = &grammar{
 									pos:   position{line: 1471, col: 13, offset: 47166},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2904, col: 13, offset: 92090},
+										pos: position{line: 2904, col: 13, offset: 92138},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2904, col: 13, offset: 92090},
+											pos: position{line: 2904, col: 13, offset: 92138},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2904, col: 13, offset: 92090},
+													pos:   position{line: 2904, col: 13, offset: 92138},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2904, col: 20, offset: 92097},
+														pos: position{line: 2904, col: 20, offset: 92145},
 														expr: &actionExpr{
-															pos: position{line: 2916, col: 11, offset: 92467},
+															pos: position{line: 2916, col: 11, offset: 92515},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2916, col: 12, offset: 92468},
+																pos: position{line: 2916, col: 12, offset: 92516},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 12, offset: 92468},
+																		pos:        position{line: 2916, col: 12, offset: 92516},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 24, offset: 92480},
+																		pos:        position{line: 2916, col: 24, offset: 92528},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 37, offset: 92493},
+																		pos:        position{line: 2916, col: 37, offset: 92541},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 48, offset: 92504},
+																		pos:        position{line: 2916, col: 48, offset: 92552},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 59, offset: 92515},
+																		pos:        position{line: 2916, col: 59, offset: 92563},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23741,38 +23741,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2904, col: 30, offset: 92107},
+													pos:   position{line: 2904, col: 30, offset: 92155},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23783,27 +23783,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23812,11 +23812,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -24211,10 +24211,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24266,55 +24266,55 @@ var g = &grammar{
 									pos:   position{line: 1478, col: 9, offset: 47475},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92217},
+										pos: position{line: 2908, col: 23, offset: 92265},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92217},
+											pos: position{line: 2908, col: 23, offset: 92265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92217},
+													pos: position{line: 2908, col: 23, offset: 92265},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92218},
+														pos:        position{line: 2908, col: 24, offset: 92266},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92222},
+													pos:   position{line: 2908, col: 28, offset: 92270},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92467},
+														pos: position{line: 2916, col: 11, offset: 92515},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92468},
+															pos: position{line: 2916, col: 12, offset: 92516},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92468},
+																	pos:        position{line: 2916, col: 12, offset: 92516},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92480},
+																	pos:        position{line: 2916, col: 24, offset: 92528},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92493},
+																	pos:        position{line: 2916, col: 37, offset: 92541},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92504},
+																	pos:        position{line: 2916, col: 48, offset: 92552},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92515},
+																	pos:        position{line: 2916, col: 59, offset: 92563},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24324,38 +24324,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92238},
+													pos:   position{line: 2908, col: 44, offset: 92286},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24366,27 +24366,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24395,11 +24395,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -24794,10 +24794,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24837,55 +24837,55 @@ var g = &grammar{
 									pos:   position{line: 1483, col: 5, offset: 47639},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92217},
+										pos: position{line: 2908, col: 23, offset: 92265},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92217},
+											pos: position{line: 2908, col: 23, offset: 92265},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92217},
+													pos: position{line: 2908, col: 23, offset: 92265},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92218},
+														pos:        position{line: 2908, col: 24, offset: 92266},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92222},
+													pos:   position{line: 2908, col: 28, offset: 92270},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92467},
+														pos: position{line: 2916, col: 11, offset: 92515},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92468},
+															pos: position{line: 2916, col: 12, offset: 92516},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92468},
+																	pos:        position{line: 2916, col: 12, offset: 92516},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92480},
+																	pos:        position{line: 2916, col: 24, offset: 92528},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92493},
+																	pos:        position{line: 2916, col: 37, offset: 92541},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92504},
+																	pos:        position{line: 2916, col: 48, offset: 92552},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92515},
+																	pos:        position{line: 2916, col: 59, offset: 92563},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24895,38 +24895,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92238},
+													pos:   position{line: 2908, col: 44, offset: 92286},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92579},
+														pos: position{line: 2921, col: 5, offset: 92627},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92579},
+															pos:   position{line: 2921, col: 5, offset: 92627},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92588},
+																pos: position{line: 2921, col: 14, offset: 92636},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92598},
+																	pos: position{line: 2922, col: 9, offset: 92646},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92598},
+																			pos: position{line: 2922, col: 9, offset: 92646},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92598},
+																				pos: position{line: 2922, col: 9, offset: 92646},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92598},
+																						pos: position{line: 2922, col: 9, offset: 92646},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92599},
+																							pos:        position{line: 2922, col: 10, offset: 92647},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92627},
+																						pos: position{line: 2923, col: 9, offset: 92675},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92628},
+																							pos:        position{line: 2923, col: 10, offset: 92676},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24937,27 +24937,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92840},
+																			pos: position{line: 2926, col: 11, offset: 92888},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92840},
+																					pos:        position{line: 2926, col: 11, offset: 92888},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92848},
+																					pos: position{line: 2926, col: 19, offset: 92896},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92850},
+																						pos: position{line: 2926, col: 21, offset: 92898},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92850},
+																								pos: position{line: 2926, col: 21, offset: 92898},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24966,11 +24966,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92857},
+																								pos: position{line: 2926, col: 28, offset: 92905},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -25365,10 +25365,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 92977},
+																			pos: position{line: 2929, col: 11, offset: 93025},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 92977},
+																				pos:        position{line: 2929, col: 11, offset: 93025},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25402,55 +25402,55 @@ var g = &grammar{
 							pos:   position{line: 1488, col: 5, offset: 47802},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 27, offset: 92352},
+								pos: position{line: 2912, col: 27, offset: 92400},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2912, col: 27, offset: 92352},
+									pos: position{line: 2912, col: 27, offset: 92400},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2912, col: 27, offset: 92352},
+											pos: position{line: 2912, col: 27, offset: 92400},
 											expr: &litMatcher{
-												pos:        position{line: 2912, col: 28, offset: 92353},
+												pos:        position{line: 2912, col: 28, offset: 92401},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2912, col: 32, offset: 92357},
+											pos:   position{line: 2912, col: 32, offset: 92405},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2916, col: 11, offset: 92467},
+												pos: position{line: 2916, col: 11, offset: 92515},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2916, col: 12, offset: 92468},
+													pos: position{line: 2916, col: 12, offset: 92516},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2916, col: 12, offset: 92468},
+															pos:        position{line: 2916, col: 12, offset: 92516},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 24, offset: 92480},
+															pos:        position{line: 2916, col: 24, offset: 92528},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 37, offset: 92493},
+															pos:        position{line: 2916, col: 37, offset: 92541},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 48, offset: 92504},
+															pos:        position{line: 2916, col: 48, offset: 92552},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 59, offset: 92515},
+															pos:        position{line: 2916, col: 59, offset: 92563},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25460,26 +25460,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2912, col: 48, offset: 92373},
+											pos:   position{line: 2912, col: 48, offset: 92421},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2937, col: 5, offset: 93263},
+												pos: position{line: 2937, col: 5, offset: 93311},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2937, col: 5, offset: 93263},
+													pos:   position{line: 2937, col: 5, offset: 93311},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2937, col: 14, offset: 93272},
+														pos: position{line: 2937, col: 14, offset: 93320},
 														expr: &choiceExpr{
-															pos: position{line: 2938, col: 9, offset: 93282},
+															pos: position{line: 2938, col: 9, offset: 93330},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2938, col: 9, offset: 93282},
+																	pos: position{line: 2938, col: 9, offset: 93330},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 9, offset: 93282},
+																		pos: position{line: 2938, col: 9, offset: 93330},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 10, offset: 93283},
+																			pos:        position{line: 2938, col: 10, offset: 93331},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25488,21 +25488,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2941, col: 11, offset: 93374},
+																	pos: position{line: 2941, col: 11, offset: 93422},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2941, col: 11, offset: 93374},
+																		pos: position{line: 2941, col: 11, offset: 93422},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 11, offset: 93374},
+																				pos:        position{line: 2941, col: 11, offset: 93422},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2941, col: 15, offset: 93378},
+																				pos: position{line: 2941, col: 15, offset: 93426},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2941, col: 15, offset: 93378},
+																					pos:        position{line: 2941, col: 15, offset: 93426},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25510,7 +25510,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 39, offset: 93402},
+																				pos:        position{line: 2941, col: 39, offset: 93450},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25519,25 +25519,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2944, col: 11, offset: 93467},
+																	pos: position{line: 2944, col: 11, offset: 93515},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2944, col: 11, offset: 93467},
+																		pos:        position{line: 2944, col: 11, offset: 93515},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2947, col: 11, offset: 93532},
+																	pos: position{line: 2947, col: 11, offset: 93580},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2947, col: 11, offset: 93532},
+																		pos: position{line: 2947, col: 11, offset: 93580},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2947, col: 11, offset: 93532},
+																				pos: position{line: 2947, col: 11, offset: 93580},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2947, col: 11, offset: 93532},
+																					pos:        position{line: 2947, col: 11, offset: 93580},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25545,9 +25545,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2947, col: 21, offset: 93542},
+																				pos: position{line: 2947, col: 21, offset: 93590},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2947, col: 23, offset: 93544},
+																					pos:        position{line: 2947, col: 23, offset: 93592},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25943,10 +25943,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2952, col: 11, offset: 93685},
+																	pos: position{line: 2952, col: 11, offset: 93733},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2952, col: 11, offset: 93685},
+																		pos:        position{line: 2952, col: 11, offset: 93733},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25999,10 +25999,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26169,12 +26169,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26217,28 +26217,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26247,9 +26247,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -26279,10 +26279,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26323,12 +26323,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26400,12 +26400,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26449,28 +26449,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26479,9 +26479,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -26539,12 +26539,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26587,28 +26587,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26617,9 +26617,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -26684,28 +26684,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1715, col: 35, offset: 55484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26714,9 +26714,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -26779,10 +26779,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1733, col: 9, offset: 55989},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26791,28 +26791,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26821,9 +26821,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -26837,18 +26837,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26857,28 +26857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26887,9 +26887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -26908,12 +26908,12 @@ var g = &grammar{
 																	pos: position{line: 1740, col: 9, offset: 56137},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2977, col: 11, offset: 94231},
+																				pos: position{line: 2977, col: 11, offset: 94279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2977, col: 11, offset: 94231},
+																					pos:        position{line: 2977, col: 11, offset: 94279},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26940,28 +26940,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26970,9 +26970,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -27030,9 +27030,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49536},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&labeledExpr{
@@ -27056,18 +27056,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2990, col: 11, offset: 94504},
+																	pos: position{line: 2990, col: 11, offset: 94552},
 																	expr: &anyMatcher{
-																		line: 2990, col: 13, offset: 94506,
+																		line: 2990, col: 13, offset: 94554,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27076,28 +27076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27106,9 +27106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -27141,10 +27141,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1630, col: 5, offset: 52473},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27311,12 +27311,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27359,28 +27359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27389,9 +27389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -27421,10 +27421,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1680, col: 5, offset: 54435},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27465,12 +27465,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27542,12 +27542,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27591,28 +27591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27621,9 +27621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -27681,12 +27681,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27729,28 +27729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27759,9 +27759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -27826,28 +27826,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27856,9 +27856,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -27921,10 +27921,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1733, col: 9, offset: 55989},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27933,28 +27933,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27963,9 +27963,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -27979,18 +27979,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2990, col: 11, offset: 94504},
+																													pos: position{line: 2990, col: 11, offset: 94552},
 																													expr: &anyMatcher{
-																														line: 2990, col: 13, offset: 94506,
+																														line: 2990, col: 13, offset: 94554,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27999,28 +27999,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28029,9 +28029,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -28050,12 +28050,12 @@ var g = &grammar{
 																							pos: position{line: 1740, col: 9, offset: 56137},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94231},
+																										pos: position{line: 2977, col: 11, offset: 94279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94231},
+																											pos:        position{line: 2977, col: 11, offset: 94279},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28082,28 +28082,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28112,9 +28112,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -28175,10 +28175,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1630, col: 5, offset: 52473},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28345,12 +28345,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28393,28 +28393,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28423,9 +28423,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -28455,10 +28455,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1680, col: 5, offset: 54435},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28499,12 +28499,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28576,12 +28576,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28625,28 +28625,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28655,9 +28655,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -28715,12 +28715,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28763,28 +28763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28793,9 +28793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -28860,28 +28860,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28890,9 +28890,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -28955,10 +28955,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1733, col: 9, offset: 55989},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28967,28 +28967,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28997,9 +28997,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -29013,18 +29013,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2990, col: 11, offset: 94504},
+																													pos: position{line: 2990, col: 11, offset: 94552},
 																													expr: &anyMatcher{
-																														line: 2990, col: 13, offset: 94506,
+																														line: 2990, col: 13, offset: 94554,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29033,28 +29033,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29063,9 +29063,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -29084,12 +29084,12 @@ var g = &grammar{
 																							pos: position{line: 1740, col: 9, offset: 56137},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94231},
+																										pos: position{line: 2977, col: 11, offset: 94279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94231},
+																											pos:        position{line: 2977, col: 11, offset: 94279},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29116,28 +29116,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29146,9 +29146,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -29173,36 +29173,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81813},
+										pos: position{line: 2540, col: 22, offset: 81861},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82034},
+													pos:        position{line: 2545, col: 31, offset: 82082},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82039},
+													pos: position{line: 2545, col: 36, offset: 82087},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82040},
+														pos:        position{line: 2545, col: 37, offset: 82088},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81840},
+													pos:   position{line: 2540, col: 49, offset: 81888},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91857},
+														pos: position{line: 2892, col: 13, offset: 91905},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91857},
+																pos:        position{line: 2892, col: 13, offset: 91905},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29212,28 +29212,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29242,9 +29242,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -29267,18 +29267,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2990, col: 11, offset: 94504},
+																	pos: position{line: 2990, col: 11, offset: 94552},
 																	expr: &anyMatcher{
-																		line: 2990, col: 13, offset: 94506,
+																		line: 2990, col: 13, offset: 94554,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29287,28 +29287,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29317,9 +29317,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -29342,10 +29342,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1588, col: 31, offset: 51258},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29354,25 +29354,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29394,10 +29394,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29564,12 +29564,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29592,10 +29592,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29636,12 +29636,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29692,12 +29692,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29758,28 +29758,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1715, col: 35, offset: 55484},
 																				expr: &choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29788,9 +29788,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -29837,10 +29837,10 @@ var g = &grammar{
 																pos: position{line: 1562, col: 59, offset: 50444},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29848,25 +29848,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29875,9 +29875,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -29899,7 +29899,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 13, offset: 90118},
+																				pos:        position{line: 2827, col: 13, offset: 90166},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29949,10 +29949,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29961,28 +29961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29991,9 +29991,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30038,10 +30038,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30050,28 +30050,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30080,9 +30080,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30123,10 +30123,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30135,28 +30135,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30165,9 +30165,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30212,10 +30212,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30224,28 +30224,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30254,9 +30254,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30301,10 +30301,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30313,28 +30313,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30343,9 +30343,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30390,10 +30390,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30402,28 +30402,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30432,9 +30432,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30479,10 +30479,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30491,28 +30491,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30521,9 +30521,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30568,10 +30568,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30580,28 +30580,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30610,9 +30610,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30657,10 +30657,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30669,28 +30669,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30699,9 +30699,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -30738,10 +30738,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30750,28 +30750,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30780,9 +30780,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -30791,21 +30791,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2675, col: 19, offset: 85570},
+																pos: position{line: 2675, col: 19, offset: 85618},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2675, col: 19, offset: 85570},
+																		pos:        position{line: 2675, col: 19, offset: 85618},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2675, col: 26, offset: 85577},
+																		pos: position{line: 2675, col: 26, offset: 85625},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30814,28 +30814,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30844,9 +30844,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -30860,12 +30860,12 @@ var g = &grammar{
 													pos:   position{line: 1564, col: 5, offset: 50522},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 14, offset: 91924},
+														pos: position{line: 2896, col: 14, offset: 91972},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2896, col: 14, offset: 91924},
+															pos: position{line: 2896, col: 14, offset: 91972},
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 14, offset: 91924},
+																pos:        position{line: 2896, col: 14, offset: 91972},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30875,28 +30875,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30905,9 +30905,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -30942,10 +30942,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1581, col: 13, offset: 50946},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94170},
+												pos: position{line: 2973, col: 10, offset: 94218},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94170},
+													pos:        position{line: 2973, col: 10, offset: 94218},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30954,25 +30954,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2982, col: 12, offset: 94341},
+											pos: position{line: 2982, col: 12, offset: 94389},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2982, col: 13, offset: 94342},
+												pos: position{line: 2982, col: 13, offset: 94390},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2982, col: 13, offset: 94342},
+														pos:        position{line: 2982, col: 13, offset: 94390},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2982, col: 20, offset: 94349},
+														pos:        position{line: 2982, col: 20, offset: 94397},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2982, col: 29, offset: 94358},
+														pos:        position{line: 2982, col: 29, offset: 94406},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30993,10 +30993,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1582, col: 9, offset: 50972},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -31005,28 +31005,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31035,9 +31035,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -31068,18 +31068,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2990, col: 11, offset: 94504},
+																				pos: position{line: 2990, col: 11, offset: 94552},
 																				expr: &anyMatcher{
-																					line: 2990, col: 13, offset: 94506,
+																					line: 2990, col: 13, offset: 94554,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonListContinuation38,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -31088,28 +31088,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuation41,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31118,9 +31118,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -31129,36 +31129,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2540, col: 22, offset: 81813},
+																	pos: position{line: 2540, col: 22, offset: 81861},
 																	run: (*parser).callonListContinuation48,
 																	expr: &seqExpr{
-																		pos: position{line: 2540, col: 22, offset: 81813},
+																		pos: position{line: 2540, col: 22, offset: 81861},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2545, col: 31, offset: 82034},
+																				pos:        position{line: 2545, col: 31, offset: 82082},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2545, col: 36, offset: 82039},
+																				pos: position{line: 2545, col: 36, offset: 82087},
 																				expr: &litMatcher{
-																					pos:        position{line: 2545, col: 37, offset: 82040},
+																					pos:        position{line: 2545, col: 37, offset: 82088},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2540, col: 49, offset: 81840},
+																				pos:   position{line: 2540, col: 49, offset: 81888},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 13, offset: 91857},
+																					pos: position{line: 2892, col: 13, offset: 91905},
 																					run: (*parser).callonListContinuation54,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2892, col: 13, offset: 91857},
+																						pos: position{line: 2892, col: 13, offset: 91905},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91857},
+																							pos:        position{line: 2892, col: 13, offset: 91905},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -31168,28 +31168,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuation58,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31198,9 +31198,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -31237,18 +31237,18 @@ var g = &grammar{
 																pos: position{line: 697, col: 14, offset: 22135},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2990, col: 11, offset: 94504},
+																		pos: position{line: 2990, col: 11, offset: 94552},
 																		expr: &anyMatcher{
-																			line: 2990, col: 13, offset: 94506,
+																			line: 2990, col: 13, offset: 94554,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 697, col: 21, offset: 22142},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonListContinuation75,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31257,28 +31257,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonListContinuation78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -31287,9 +31287,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -31327,9 +31327,9 @@ var g = &grammar{
 					pos: position{line: 1591, col: 5, offset: 51320},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -31355,10 +31355,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1630, col: 5, offset: 52473},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31525,12 +31525,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31573,28 +31573,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31603,9 +31603,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -31635,10 +31635,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1680, col: 5, offset: 54435},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31679,12 +31679,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31756,12 +31756,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31805,28 +31805,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31835,9 +31835,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -31895,12 +31895,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31943,28 +31943,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31973,9 +31973,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -32040,28 +32040,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1715, col: 35, offset: 55484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32070,9 +32070,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -32135,10 +32135,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1733, col: 9, offset: 55989},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32147,28 +32147,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32177,9 +32177,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -32193,18 +32193,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94504},
+																							pos: position{line: 2990, col: 11, offset: 94552},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94506,
+																								line: 2990, col: 13, offset: 94554,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32213,28 +32213,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32243,9 +32243,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -32264,12 +32264,12 @@ var g = &grammar{
 																	pos: position{line: 1740, col: 9, offset: 56137},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2977, col: 11, offset: 94231},
+																				pos: position{line: 2977, col: 11, offset: 94279},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2977, col: 11, offset: 94231},
+																					pos:        position{line: 2977, col: 11, offset: 94279},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32296,28 +32296,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32326,9 +32326,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -32369,18 +32369,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2990, col: 11, offset: 94504},
+													pos: position{line: 2990, col: 11, offset: 94552},
 													expr: &anyMatcher{
-														line: 2990, col: 13, offset: 94506,
+														line: 2990, col: 13, offset: 94554,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32389,28 +32389,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32419,9 +32419,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -32486,10 +32486,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32498,28 +32498,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32528,9 +32528,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -32591,10 +32591,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32603,28 +32603,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32633,9 +32633,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -32689,10 +32689,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32701,28 +32701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32731,9 +32731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -32805,10 +32805,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32817,28 +32817,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32847,9 +32847,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -32865,9 +32865,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -32883,21 +32883,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32907,28 +32907,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32937,9 +32937,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -33001,10 +33001,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -33013,28 +33013,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33043,9 +33043,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -33061,9 +33061,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -33118,10 +33118,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33130,28 +33130,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33160,9 +33160,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -33234,10 +33234,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33246,28 +33246,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33276,9 +33276,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -33294,9 +33294,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -33312,21 +33312,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33336,28 +33336,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33366,9 +33366,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -33433,10 +33433,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33445,28 +33445,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33475,9 +33475,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -33493,9 +33493,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -33547,10 +33547,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33559,28 +33559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33589,9 +33589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -33625,10 +33625,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33637,28 +33637,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33667,9 +33667,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -33687,21 +33687,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33711,28 +33711,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33741,9 +33741,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -33771,10 +33771,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33783,28 +33783,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33813,9 +33813,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -33872,10 +33872,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33884,28 +33884,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33914,9 +33914,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -33988,10 +33988,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34000,28 +34000,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34030,9 +34030,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -34048,9 +34048,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -34066,21 +34066,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34090,28 +34090,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34120,9 +34120,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -34187,10 +34187,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34199,28 +34199,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34229,9 +34229,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -34247,9 +34247,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -34305,10 +34305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34317,28 +34317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34347,9 +34347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -34421,10 +34421,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34433,28 +34433,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34463,9 +34463,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -34481,9 +34481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -34499,21 +34499,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34523,28 +34523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34553,9 +34553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -34620,10 +34620,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34632,28 +34632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34662,9 +34662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -34680,9 +34680,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -34738,10 +34738,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34750,28 +34750,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34780,9 +34780,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -34854,10 +34854,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34866,28 +34866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34896,9 +34896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -34914,9 +34914,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -34932,21 +34932,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34956,28 +34956,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34986,9 +34986,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -35053,10 +35053,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35065,28 +35065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35095,9 +35095,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -35113,9 +35113,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -35149,18 +35149,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94504},
+																					pos: position{line: 2990, col: 11, offset: 94552},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94506,
+																						line: 2990, col: 13, offset: 94554,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -35169,28 +35169,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35199,9 +35199,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -35220,12 +35220,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 14, offset: 91924},
+																		pos: position{line: 2896, col: 14, offset: 91972},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 14, offset: 91924},
+																			pos: position{line: 2896, col: 14, offset: 91972},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 14, offset: 91924},
+																				pos:        position{line: 2896, col: 14, offset: 91972},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35235,28 +35235,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35265,9 +35265,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -35299,18 +35299,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2990, col: 11, offset: 94504},
+																								pos: position{line: 2990, col: 11, offset: 94552},
 																								expr: &anyMatcher{
-																									line: 2990, col: 13, offset: 94506,
+																									line: 2990, col: 13, offset: 94554,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35319,28 +35319,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35349,9 +35349,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -35370,12 +35370,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 14, offset: 91924},
+																					pos: position{line: 2896, col: 14, offset: 91972},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 14, offset: 91924},
+																						pos: position{line: 2896, col: 14, offset: 91972},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 14, offset: 91924},
+																							pos:        position{line: 2896, col: 14, offset: 91972},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35385,28 +35385,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35415,9 +35415,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -35435,12 +35435,12 @@ var g = &grammar{
 																				pos:   position{line: 1838, col: 5, offset: 59371},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 14, offset: 91924},
+																					pos: position{line: 2896, col: 14, offset: 91972},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 14, offset: 91924},
+																						pos: position{line: 2896, col: 14, offset: 91972},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 14, offset: 91924},
+																							pos:        position{line: 2896, col: 14, offset: 91972},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35454,28 +35454,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35484,9 +35484,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -35533,10 +35533,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35545,28 +35545,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35575,9 +35575,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -35625,10 +35625,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35637,28 +35637,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35667,9 +35667,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -35678,9 +35678,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -35696,21 +35696,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35720,28 +35720,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35750,9 +35750,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -35797,10 +35797,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35809,28 +35809,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35839,9 +35839,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -35850,9 +35850,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -35908,10 +35908,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35920,28 +35920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35950,9 +35950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -36024,10 +36024,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36036,28 +36036,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36066,9 +36066,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -36084,9 +36084,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -36102,21 +36102,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36126,28 +36126,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36156,9 +36156,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -36223,10 +36223,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36235,28 +36235,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36265,9 +36265,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -36283,9 +36283,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -36341,10 +36341,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36353,28 +36353,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36383,9 +36383,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -36457,10 +36457,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36469,28 +36469,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36499,9 +36499,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -36517,9 +36517,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -36535,21 +36535,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36559,28 +36559,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36589,9 +36589,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -36656,10 +36656,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36668,28 +36668,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36698,9 +36698,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -36716,9 +36716,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -36774,10 +36774,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36786,28 +36786,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36816,9 +36816,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -36890,10 +36890,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94170},
+																												pos: position{line: 2973, col: 10, offset: 94218},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94170},
+																													pos:        position{line: 2973, col: 10, offset: 94218},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36902,28 +36902,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94568},
+																											pos: position{line: 2995, col: 8, offset: 94616},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94341},
+																													pos: position{line: 2982, col: 12, offset: 94389},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94342},
+																														pos: position{line: 2982, col: 13, offset: 94390},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36932,9 +36932,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94518},
+																													pos: position{line: 2992, col: 8, offset: 94566},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94519,
+																														line: 2992, col: 9, offset: 94567,
 																													},
 																												},
 																											},
@@ -36950,9 +36950,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -36968,21 +36968,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94504},
+																						pos: position{line: 2990, col: 11, offset: 94552},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94506,
+																							line: 2990, col: 13, offset: 94554,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91857},
+																							pos: position{line: 2892, col: 13, offset: 91905},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91857},
+																								pos: position{line: 2892, col: 13, offset: 91905},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91857},
+																									pos:        position{line: 2892, col: 13, offset: 91905},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36992,28 +36992,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37022,9 +37022,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -37089,10 +37089,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37101,28 +37101,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -37131,9 +37131,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -37149,9 +37149,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -37162,27 +37162,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 18, offset: 88477},
+										pos: position{line: 2778, col: 18, offset: 88525},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88487},
+											pos: position{line: 2779, col: 9, offset: 88535},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2779, col: 9, offset: 88487},
+													pos: position{line: 2779, col: 9, offset: 88535},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2779, col: 9, offset: 88487},
+															pos:        position{line: 2779, col: 9, offset: 88535},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2779, col: 15, offset: 88493},
+															pos: position{line: 2779, col: 15, offset: 88541},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37191,28 +37191,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94568},
+															pos: position{line: 2995, col: 8, offset: 94616},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94341},
+																	pos: position{line: 2982, col: 12, offset: 94389},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94342},
+																		pos: position{line: 2982, col: 13, offset: 94390},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94342},
+																				pos:        position{line: 2982, col: 13, offset: 94390},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94349},
+																				pos:        position{line: 2982, col: 20, offset: 94397},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94358},
+																				pos:        position{line: 2982, col: 29, offset: 94406},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37221,9 +37221,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -37231,43 +37231,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2780, col: 11, offset: 88526},
+													pos: position{line: 2780, col: 11, offset: 88574},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2780, col: 12, offset: 88527},
+															pos: position{line: 2780, col: 12, offset: 88575},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2780, col: 12, offset: 88527},
+																	pos:        position{line: 2780, col: 12, offset: 88575},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 20, offset: 88535},
+																	pos:        position{line: 2780, col: 20, offset: 88583},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 30, offset: 88545},
+																	pos:        position{line: 2780, col: 30, offset: 88593},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 38, offset: 88553},
+																	pos:        position{line: 2780, col: 38, offset: 88601},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 48, offset: 88563},
+																	pos:        position{line: 2780, col: 48, offset: 88611},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 56, offset: 88571},
+																	pos:        position{line: 2780, col: 56, offset: 88619},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37275,12 +37275,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2780, col: 65, offset: 88580},
+															pos: position{line: 2780, col: 65, offset: 88628},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37289,28 +37289,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94568},
+															pos: position{line: 2995, col: 8, offset: 94616},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94341},
+																	pos: position{line: 2982, col: 12, offset: 94389},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94342},
+																		pos: position{line: 2982, col: 13, offset: 94390},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94342},
+																				pos:        position{line: 2982, col: 13, offset: 94390},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94349},
+																				pos:        position{line: 2982, col: 20, offset: 94397},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94358},
+																				pos:        position{line: 2982, col: 29, offset: 94406},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37319,38 +37319,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2780, col: 76, offset: 88591},
+															pos: position{line: 2780, col: 76, offset: 88639},
 															expr: &choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37359,9 +37359,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -37381,24 +37381,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2669, col: 5, offset: 85413},
+										pos: position{line: 2669, col: 5, offset: 85461},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2669, col: 5, offset: 85413},
+											pos: position{line: 2669, col: 5, offset: 85461},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2675, col: 19, offset: 85570},
+													pos:        position{line: 2675, col: 19, offset: 85618},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2675, col: 26, offset: 85577},
+													pos: position{line: 2675, col: 26, offset: 85625},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37407,28 +37407,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37437,20 +37437,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2670, col: 5, offset: 85437},
+													pos:   position{line: 2670, col: 5, offset: 85485},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2670, col: 11, offset: 85443},
+														pos: position{line: 2670, col: 11, offset: 85491},
 														expr: &choiceExpr{
-															pos: position{line: 2670, col: 12, offset: 85444},
+															pos: position{line: 2670, col: 12, offset: 85492},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37459,18 +37459,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2990, col: 11, offset: 94504},
+																				pos: position{line: 2990, col: 11, offset: 94552},
 																				expr: &anyMatcher{
-																					line: 2990, col: 13, offset: 94506,
+																					line: 2990, col: 13, offset: 94554,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37479,28 +37479,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94568},
+																				pos: position{line: 2995, col: 8, offset: 94616},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37509,9 +37509,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -37520,32 +37520,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2682, col: 5, offset: 85689},
+																	pos: position{line: 2682, col: 5, offset: 85737},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2682, col: 5, offset: 85689},
+																		pos: position{line: 2682, col: 5, offset: 85737},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2682, col: 5, offset: 85689},
+																				pos: position{line: 2682, col: 5, offset: 85737},
 																				expr: &choiceExpr{
-																					pos: position{line: 2679, col: 22, offset: 85650},
+																					pos: position{line: 2679, col: 22, offset: 85698},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2675, col: 19, offset: 85570},
+																							pos: position{line: 2675, col: 19, offset: 85618},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2675, col: 19, offset: 85570},
+																									pos:        position{line: 2675, col: 19, offset: 85618},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2675, col: 26, offset: 85577},
+																									pos: position{line: 2675, col: 26, offset: 85625},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94170},
+																										pos: position{line: 2973, col: 10, offset: 94218},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94170},
+																											pos:        position{line: 2973, col: 10, offset: 94218},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37554,28 +37554,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37584,9 +37584,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -37594,59 +37594,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2683, col: 5, offset: 85712},
+																				pos:   position{line: 2683, col: 5, offset: 85760},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2684, col: 9, offset: 85730},
+																					pos: position{line: 2684, col: 9, offset: 85778},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2684, col: 10, offset: 85731},
+																							pos: position{line: 2684, col: 10, offset: 85779},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2684, col: 10, offset: 85731},
+																								pos:   position{line: 2684, col: 10, offset: 85779},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2684, col: 17, offset: 85738},
+																									pos: position{line: 2684, col: 17, offset: 85786},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2692, col: 21, offset: 85934},
+																											pos: position{line: 2692, col: 21, offset: 85982},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2692, col: 21, offset: 85934},
+																												pos: position{line: 2692, col: 21, offset: 85982},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2692, col: 21, offset: 85934},
+																														pos:   position{line: 2692, col: 21, offset: 85982},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2692, col: 27, offset: 85940},
+																															pos: position{line: 2692, col: 27, offset: 85988},
 																															expr: &actionExpr{
-																																pos: position{line: 2697, col: 5, offset: 86015},
+																																pos: position{line: 2697, col: 5, offset: 86063},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2697, col: 5, offset: 86015},
+																																	pos: position{line: 2697, col: 5, offset: 86063},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2697, col: 5, offset: 86015},
+																																			pos:        position{line: 2697, col: 5, offset: 86063},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2697, col: 9, offset: 86019},
+																																			pos: position{line: 2697, col: 9, offset: 86067},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2973, col: 10, offset: 94170},
+																																				pos: position{line: 2973, col: 10, offset: 94218},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2973, col: 10, offset: 94170},
+																																					pos:        position{line: 2973, col: 10, offset: 94218},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37655,21 +37655,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2697, col: 16, offset: 86026},
+																																			pos:   position{line: 2697, col: 16, offset: 86074},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2703, col: 5, offset: 86226},
+																																				pos: position{line: 2703, col: 5, offset: 86274},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2703, col: 5, offset: 86226},
+																																					pos:   position{line: 2703, col: 5, offset: 86274},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2703, col: 14, offset: 86235},
+																																						pos: position{line: 2703, col: 14, offset: 86283},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2703, col: 14, offset: 86235},
+																																							pos: position{line: 2703, col: 14, offset: 86283},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2703, col: 14, offset: 86235},
+																																								pos:        position{line: 2703, col: 14, offset: 86283},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37686,28 +37686,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2995, col: 8, offset: 94568},
+																														pos: position{line: 2995, col: 8, offset: 94616},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2982, col: 12, offset: 94341},
+																																pos: position{line: 2982, col: 12, offset: 94389},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2982, col: 13, offset: 94342},
+																																	pos: position{line: 2982, col: 13, offset: 94390},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 13, offset: 94342},
+																																			pos:        position{line: 2982, col: 13, offset: 94390},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 20, offset: 94349},
+																																			pos:        position{line: 2982, col: 20, offset: 94397},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 29, offset: 94358},
+																																			pos:        position{line: 2982, col: 29, offset: 94406},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37716,9 +37716,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2992, col: 8, offset: 94518},
+																																pos: position{line: 2992, col: 8, offset: 94566},
 																																expr: &anyMatcher{
-																																	line: 2992, col: 9, offset: 94519,
+																																	line: 2992, col: 9, offset: 94567,
 																																},
 																															},
 																														},
@@ -37727,40 +37727,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2709, col: 24, offset: 86371},
+																											pos: position{line: 2709, col: 24, offset: 86419},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2709, col: 24, offset: 86371},
+																												pos:   position{line: 2709, col: 24, offset: 86419},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2709, col: 30, offset: 86377},
+																													pos: position{line: 2709, col: 30, offset: 86425},
 																													expr: &actionExpr{
-																														pos: position{line: 2714, col: 5, offset: 86453},
+																														pos: position{line: 2714, col: 5, offset: 86501},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2714, col: 5, offset: 86453},
+																															pos: position{line: 2714, col: 5, offset: 86501},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2714, col: 5, offset: 86453},
+																																	pos: position{line: 2714, col: 5, offset: 86501},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2679, col: 22, offset: 85650},
+																																		pos: position{line: 2679, col: 22, offset: 85698},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2675, col: 19, offset: 85570},
+																																				pos: position{line: 2675, col: 19, offset: 85618},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2675, col: 19, offset: 85570},
+																																						pos:        position{line: 2675, col: 19, offset: 85618},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2675, col: 26, offset: 85577},
+																																						pos: position{line: 2675, col: 26, offset: 85625},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2973, col: 10, offset: 94170},
+																																							pos: position{line: 2973, col: 10, offset: 94218},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2973, col: 10, offset: 94170},
+																																								pos:        position{line: 2973, col: 10, offset: 94218},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37769,28 +37769,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2995, col: 8, offset: 94568},
+																																						pos: position{line: 2995, col: 8, offset: 94616},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2982, col: 12, offset: 94341},
+																																								pos: position{line: 2982, col: 12, offset: 94389},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2982, col: 13, offset: 94342},
+																																									pos: position{line: 2982, col: 13, offset: 94390},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 13, offset: 94342},
+																																											pos:        position{line: 2982, col: 13, offset: 94390},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 20, offset: 94349},
+																																											pos:        position{line: 2982, col: 20, offset: 94397},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 29, offset: 94358},
+																																											pos:        position{line: 2982, col: 29, offset: 94406},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37799,9 +37799,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2992, col: 8, offset: 94518},
+																																								pos: position{line: 2992, col: 8, offset: 94566},
 																																								expr: &anyMatcher{
-																																									line: 2992, col: 9, offset: 94519,
+																																									line: 2992, col: 9, offset: 94567,
 																																								},
 																																							},
 																																						},
@@ -37809,16 +37809,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2992, col: 8, offset: 94518},
+																																				pos: position{line: 2992, col: 8, offset: 94566},
 																																				expr: &anyMatcher{
-																																					line: 2992, col: 9, offset: 94519,
+																																					line: 2992, col: 9, offset: 94567,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2715, col: 5, offset: 86476},
+																																	pos: position{line: 2715, col: 5, offset: 86524},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37826,18 +37826,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2990, col: 11, offset: 94504},
+																																					pos: position{line: 2990, col: 11, offset: 94552},
 																																					expr: &anyMatcher{
-																																						line: 2990, col: 13, offset: 94506,
+																																						line: 2990, col: 13, offset: 94554,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2973, col: 10, offset: 94170},
+																																						pos: position{line: 2973, col: 10, offset: 94218},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2973, col: 10, offset: 94170},
+																																							pos:        position{line: 2973, col: 10, offset: 94218},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37846,28 +37846,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2995, col: 8, offset: 94568},
+																																					pos: position{line: 2995, col: 8, offset: 94616},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2982, col: 12, offset: 94341},
+																																							pos: position{line: 2982, col: 12, offset: 94389},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2982, col: 13, offset: 94342},
+																																								pos: position{line: 2982, col: 13, offset: 94390},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 13, offset: 94342},
+																																										pos:        position{line: 2982, col: 13, offset: 94390},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 20, offset: 94349},
+																																										pos:        position{line: 2982, col: 20, offset: 94397},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 29, offset: 94358},
+																																										pos:        position{line: 2982, col: 29, offset: 94406},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37876,9 +37876,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2992, col: 8, offset: 94518},
+																																							pos: position{line: 2992, col: 8, offset: 94566},
 																																							expr: &anyMatcher{
-																																								line: 2992, col: 9, offset: 94519,
+																																								line: 2992, col: 9, offset: 94567,
 																																							},
 																																						},
 																																					},
@@ -37888,17 +37888,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2716, col: 5, offset: 86491},
+																																	pos:   position{line: 2716, col: 5, offset: 86539},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2716, col: 12, offset: 86498},
+																																		pos: position{line: 2716, col: 12, offset: 86546},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2733, col: 20, offset: 86962},
+																																			pos: position{line: 2733, col: 20, offset: 87010},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2733, col: 20, offset: 86962},
+																																				pos: position{line: 2733, col: 20, offset: 87010},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2733, col: 20, offset: 86962},
+																																					pos:        position{line: 2733, col: 20, offset: 87010},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37909,18 +37909,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2716, col: 31, offset: 86517},
+																																	pos:        position{line: 2716, col: 31, offset: 86565},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2716, col: 35, offset: 86521},
+																																	pos: position{line: 2716, col: 35, offset: 86569},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2973, col: 10, offset: 94170},
+																																		pos: position{line: 2973, col: 10, offset: 94218},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2973, col: 10, offset: 94170},
+																																			pos:        position{line: 2973, col: 10, offset: 94218},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37929,27 +37929,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2716, col: 42, offset: 86528},
+																																	pos: position{line: 2716, col: 42, offset: 86576},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2982, col: 12, offset: 94341},
+																																		pos: position{line: 2982, col: 12, offset: 94389},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2982, col: 13, offset: 94342},
+																																			pos: position{line: 2982, col: 13, offset: 94390},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 13, offset: 94342},
+																																					pos:        position{line: 2982, col: 13, offset: 94390},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 20, offset: 94349},
+																																					pos:        position{line: 2982, col: 20, offset: 94397},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 29, offset: 94358},
+																																					pos:        position{line: 2982, col: 29, offset: 94406},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37959,37 +37959,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2716, col: 51, offset: 86537},
+																																	pos:   position{line: 2716, col: 51, offset: 86585},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2722, col: 5, offset: 86696},
+																																		pos: position{line: 2722, col: 5, offset: 86744},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2723, col: 9, offset: 86706},
+																																			pos: position{line: 2723, col: 9, offset: 86754},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2723, col: 9, offset: 86706},
+																																				pos: position{line: 2723, col: 9, offset: 86754},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2723, col: 9, offset: 86706},
+																																						pos: position{line: 2723, col: 9, offset: 86754},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2679, col: 22, offset: 85650},
+																																							pos: position{line: 2679, col: 22, offset: 85698},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2675, col: 19, offset: 85570},
+																																									pos: position{line: 2675, col: 19, offset: 85618},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2675, col: 19, offset: 85570},
+																																											pos:        position{line: 2675, col: 19, offset: 85618},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2675, col: 26, offset: 85577},
+																																											pos: position{line: 2675, col: 26, offset: 85625},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2973, col: 10, offset: 94170},
+																																												pos: position{line: 2973, col: 10, offset: 94218},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2973, col: 10, offset: 94170},
+																																													pos:        position{line: 2973, col: 10, offset: 94218},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37998,28 +37998,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2995, col: 8, offset: 94568},
+																																											pos: position{line: 2995, col: 8, offset: 94616},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2982, col: 12, offset: 94341},
+																																													pos: position{line: 2982, col: 12, offset: 94389},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2982, col: 13, offset: 94342},
+																																														pos: position{line: 2982, col: 13, offset: 94390},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 13, offset: 94342},
+																																																pos:        position{line: 2982, col: 13, offset: 94390},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 20, offset: 94349},
+																																																pos:        position{line: 2982, col: 20, offset: 94397},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 29, offset: 94358},
+																																																pos:        position{line: 2982, col: 29, offset: 94406},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -38028,9 +38028,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2992, col: 8, offset: 94518},
+																																													pos: position{line: 2992, col: 8, offset: 94566},
 																																													expr: &anyMatcher{
-																																														line: 2992, col: 9, offset: 94519,
+																																														line: 2992, col: 9, offset: 94567,
 																																													},
 																																												},
 																																											},
@@ -38038,16 +38038,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94518},
+																																									pos: position{line: 2992, col: 8, offset: 94566},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94519,
+																																										line: 2992, col: 9, offset: 94567,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86733},
+																																						pos: position{line: 2724, col: 9, offset: 86781},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -38055,18 +38055,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2990, col: 11, offset: 94504},
+																																										pos: position{line: 2990, col: 11, offset: 94552},
 																																										expr: &anyMatcher{
-																																											line: 2990, col: 13, offset: 94506,
+																																											line: 2990, col: 13, offset: 94554,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2973, col: 10, offset: 94170},
+																																											pos: position{line: 2973, col: 10, offset: 94218},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2973, col: 10, offset: 94170},
+																																												pos:        position{line: 2973, col: 10, offset: 94218},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -38075,28 +38075,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2995, col: 8, offset: 94568},
+																																										pos: position{line: 2995, col: 8, offset: 94616},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2982, col: 12, offset: 94341},
+																																												pos: position{line: 2982, col: 12, offset: 94389},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2982, col: 13, offset: 94342},
+																																													pos: position{line: 2982, col: 13, offset: 94390},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 13, offset: 94342},
+																																															pos:        position{line: 2982, col: 13, offset: 94390},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 20, offset: 94349},
+																																															pos:        position{line: 2982, col: 20, offset: 94397},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 29, offset: 94358},
+																																															pos:        position{line: 2982, col: 29, offset: 94406},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -38105,9 +38105,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2992, col: 8, offset: 94518},
+																																												pos: position{line: 2992, col: 8, offset: 94566},
 																																												expr: &anyMatcher{
-																																													line: 2992, col: 9, offset: 94519,
+																																													line: 2992, col: 9, offset: 94567,
 																																												},
 																																											},
 																																										},
@@ -38117,22 +38117,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86752},
+																																						pos: position{line: 2725, col: 9, offset: 86800},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2725, col: 11, offset: 86754},
+																																							pos: position{line: 2725, col: 11, offset: 86802},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2725, col: 11, offset: 86754},
+																																									pos:   position{line: 2725, col: 11, offset: 86802},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2725, col: 18, offset: 86761},
+																																										pos: position{line: 2725, col: 18, offset: 86809},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2733, col: 20, offset: 86962},
+																																											pos: position{line: 2733, col: 20, offset: 87010},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2733, col: 20, offset: 86962},
+																																												pos: position{line: 2733, col: 20, offset: 87010},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2733, col: 20, offset: 86962},
+																																													pos:        position{line: 2733, col: 20, offset: 87010},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -38143,7 +38143,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2725, col: 37, offset: 86780},
+																																									pos:        position{line: 2725, col: 37, offset: 86828},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -38152,15 +38152,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2726, col: 9, offset: 86793},
+																																						pos:   position{line: 2726, col: 9, offset: 86841},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2726, col: 18, offset: 86802},
+																																							pos: position{line: 2726, col: 18, offset: 86850},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2726, col: 18, offset: 86802},
+																																								pos: position{line: 2726, col: 18, offset: 86850},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2726, col: 18, offset: 86802},
+																																									pos:        position{line: 2726, col: 18, offset: 86850},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -38170,30 +38170,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2728, col: 12, offset: 86864},
+																																						pos: position{line: 2728, col: 12, offset: 86912},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2995, col: 8, offset: 94568},
+																																							pos: position{line: 2995, col: 8, offset: 94616},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2982, col: 12, offset: 94341},
+																																									pos: position{line: 2982, col: 12, offset: 94389},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2982, col: 13, offset: 94342},
+																																										pos: position{line: 2982, col: 13, offset: 94390},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 13, offset: 94342},
+																																												pos:        position{line: 2982, col: 13, offset: 94390},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 20, offset: 94349},
+																																												pos:        position{line: 2982, col: 20, offset: 94397},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 29, offset: 94358},
+																																												pos:        position{line: 2982, col: 29, offset: 94406},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38202,9 +38202,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94518},
+																																									pos: position{line: 2992, col: 8, offset: 94566},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94519,
+																																										line: 2992, col: 9, offset: 94567,
 																																									},
 																																								},
 																																							},
@@ -38232,18 +38232,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2990, col: 11, offset: 94504},
+																										pos: position{line: 2990, col: 11, offset: 94552},
 																										expr: &anyMatcher{
-																											line: 2990, col: 13, offset: 94506,
+																											line: 2990, col: 13, offset: 94554,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94170},
+																											pos: position{line: 2973, col: 10, offset: 94218},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94170},
+																												pos:        position{line: 2973, col: 10, offset: 94218},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38252,28 +38252,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94568},
+																										pos: position{line: 2995, col: 8, offset: 94616},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94341},
+																												pos: position{line: 2982, col: 12, offset: 94389},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94342},
+																													pos: position{line: 2982, col: 13, offset: 94390},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94342},
+																															pos:        position{line: 2982, col: 13, offset: 94390},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94349},
+																															pos:        position{line: 2982, col: 20, offset: 94397},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94358},
+																															pos:        position{line: 2982, col: 29, offset: 94406},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38282,9 +38282,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94518},
+																												pos: position{line: 2992, col: 8, offset: 94566},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94519,
+																													line: 2992, col: 9, offset: 94567,
 																												},
 																											},
 																										},
@@ -38303,24 +38303,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2679, col: 22, offset: 85650},
+													pos: position{line: 2679, col: 22, offset: 85698},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85570},
+															pos: position{line: 2675, col: 19, offset: 85618},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85570},
+																	pos:        position{line: 2675, col: 19, offset: 85618},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85577},
+																	pos: position{line: 2675, col: 26, offset: 85625},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38329,28 +38329,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38359,9 +38359,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -38369,9 +38369,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -38380,36 +38380,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81813},
+										pos: position{line: 2540, col: 22, offset: 81861},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81813},
+											pos: position{line: 2540, col: 22, offset: 81861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82034},
+													pos:        position{line: 2545, col: 31, offset: 82082},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82039},
+													pos: position{line: 2545, col: 36, offset: 82087},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82040},
+														pos:        position{line: 2545, col: 37, offset: 82088},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81840},
+													pos:   position{line: 2540, col: 49, offset: 81888},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91857},
+														pos: position{line: 2892, col: 13, offset: 91905},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91857},
+															pos: position{line: 2892, col: 13, offset: 91905},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91857},
+																pos:        position{line: 2892, col: 13, offset: 91905},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38419,28 +38419,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94568},
+													pos: position{line: 2995, col: 8, offset: 94616},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38449,9 +38449,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94518},
+															pos: position{line: 2992, col: 8, offset: 94566},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94519,
+																line: 2992, col: 9, offset: 94567,
 															},
 														},
 													},
@@ -38499,12 +38499,12 @@ var g = &grammar{
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38528,12 +38528,12 @@ var g = &grammar{
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38557,12 +38557,12 @@ var g = &grammar{
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38586,12 +38586,12 @@ var g = &grammar{
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38615,12 +38615,12 @@ var g = &grammar{
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94231},
+																										pos:        position{line: 2977, col: 11, offset: 94279},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38637,12 +38637,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1791, col: 13, offset: 57767},
 																						expr: &actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94231},
+																							pos: position{line: 2977, col: 11, offset: 94279},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94231},
+																								pos: position{line: 2977, col: 11, offset: 94279},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94231},
+																									pos:        position{line: 2977, col: 11, offset: 94279},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38663,10 +38663,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1793, col: 14, offset: 57849},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38675,28 +38675,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38705,9 +38705,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -38738,18 +38738,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94504},
+																					pos: position{line: 2990, col: 11, offset: 94552},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94506,
+																						line: 2990, col: 13, offset: 94554,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38758,28 +38758,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94568},
+																					pos: position{line: 2995, col: 8, offset: 94616},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38788,9 +38788,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94518},
+																							pos: position{line: 2992, col: 8, offset: 94566},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94519,
+																								line: 2992, col: 9, offset: 94567,
 																							},
 																						},
 																					},
@@ -38813,10 +38813,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1588, col: 31, offset: 51258},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38825,25 +38825,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38865,10 +38865,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1630, col: 5, offset: 52473},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39035,12 +39035,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94231},
+																					pos: position{line: 2977, col: 11, offset: 94279},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94231},
+																						pos: position{line: 2977, col: 11, offset: 94279},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94231},
+																							pos:        position{line: 2977, col: 11, offset: 94279},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39063,10 +39063,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1680, col: 5, offset: 54435},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39107,12 +39107,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94231},
+																					pos: position{line: 2977, col: 11, offset: 94279},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94231},
+																						pos: position{line: 2977, col: 11, offset: 94279},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94231},
+																							pos:        position{line: 2977, col: 11, offset: 94279},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39163,12 +39163,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94231},
+																					pos: position{line: 2977, col: 11, offset: 94279},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94231},
+																						pos: position{line: 2977, col: 11, offset: 94279},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94231},
+																							pos:        position{line: 2977, col: 11, offset: 94279},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39229,28 +39229,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1715, col: 35, offset: 55484},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94568},
+																									pos: position{line: 2995, col: 8, offset: 94616},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94341},
+																											pos: position{line: 2982, col: 12, offset: 94389},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94342},
+																												pos: position{line: 2982, col: 13, offset: 94390},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94342},
+																														pos:        position{line: 2982, col: 13, offset: 94390},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94349},
+																														pos:        position{line: 2982, col: 20, offset: 94397},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94358},
+																														pos:        position{line: 2982, col: 29, offset: 94406},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39259,9 +39259,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94518},
+																											pos: position{line: 2992, col: 8, offset: 94566},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94519,
+																												line: 2992, col: 9, offset: 94567,
 																											},
 																										},
 																									},
@@ -39308,10 +39308,10 @@ var g = &grammar{
 																				pos: position{line: 1562, col: 59, offset: 50444},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94170},
+																						pos: position{line: 2973, col: 10, offset: 94218},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94170},
+																							pos:        position{line: 2973, col: 10, offset: 94218},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39319,25 +39319,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94341},
+																						pos: position{line: 2982, col: 12, offset: 94389},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94342},
+																							pos: position{line: 2982, col: 13, offset: 94390},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94342},
+																									pos:        position{line: 2982, col: 13, offset: 94390},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94349},
+																									pos:        position{line: 2982, col: 20, offset: 94397},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94358},
+																									pos:        position{line: 2982, col: 29, offset: 94406},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39346,9 +39346,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94518},
+																						pos: position{line: 2992, col: 8, offset: 94566},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94519,
+																							line: 2992, col: 9, offset: 94567,
 																						},
 																					},
 																				},
@@ -39370,7 +39370,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 13, offset: 90118},
+																								pos:        position{line: 2827, col: 13, offset: 90166},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39420,10 +39420,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39432,28 +39432,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39462,9 +39462,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39509,10 +39509,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39521,28 +39521,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39551,9 +39551,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39594,10 +39594,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39606,28 +39606,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39636,9 +39636,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39683,10 +39683,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39695,28 +39695,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39725,9 +39725,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39772,10 +39772,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39784,28 +39784,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39814,9 +39814,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39861,10 +39861,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39873,28 +39873,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39903,9 +39903,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -39950,10 +39950,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39962,28 +39962,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39992,9 +39992,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -40039,10 +40039,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40051,28 +40051,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40081,9 +40081,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -40128,10 +40128,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94170},
+																														pos: position{line: 2973, col: 10, offset: 94218},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94170},
+																															pos:        position{line: 2973, col: 10, offset: 94218},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40140,28 +40140,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94568},
+																													pos: position{line: 2995, col: 8, offset: 94616},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94341},
+																															pos: position{line: 2982, col: 12, offset: 94389},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94342},
+																																pos: position{line: 2982, col: 13, offset: 94390},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94342},
+																																		pos:        position{line: 2982, col: 13, offset: 94390},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94349},
+																																		pos:        position{line: 2982, col: 20, offset: 94397},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94358},
+																																		pos:        position{line: 2982, col: 29, offset: 94406},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40170,9 +40170,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94518},
+																															pos: position{line: 2992, col: 8, offset: 94566},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94519,
+																																line: 2992, col: 9, offset: 94567,
 																															},
 																														},
 																													},
@@ -40209,10 +40209,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94170},
+																								pos: position{line: 2973, col: 10, offset: 94218},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94170},
+																									pos:        position{line: 2973, col: 10, offset: 94218},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40221,28 +40221,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94568},
+																							pos: position{line: 2995, col: 8, offset: 94616},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94341},
+																									pos: position{line: 2982, col: 12, offset: 94389},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94342},
+																										pos: position{line: 2982, col: 13, offset: 94390},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94342},
+																												pos:        position{line: 2982, col: 13, offset: 94390},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94349},
+																												pos:        position{line: 2982, col: 20, offset: 94397},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94358},
+																												pos:        position{line: 2982, col: 29, offset: 94406},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40251,9 +40251,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94518},
+																									pos: position{line: 2992, col: 8, offset: 94566},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94519,
+																										line: 2992, col: 9, offset: 94567,
 																									},
 																								},
 																							},
@@ -40262,21 +40262,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2675, col: 19, offset: 85570},
+																				pos: position{line: 2675, col: 19, offset: 85618},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2675, col: 19, offset: 85570},
+																						pos:        position{line: 2675, col: 19, offset: 85618},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2675, col: 26, offset: 85577},
+																						pos: position{line: 2675, col: 26, offset: 85625},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40285,28 +40285,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94568},
+																						pos: position{line: 2995, col: 8, offset: 94616},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94341},
+																								pos: position{line: 2982, col: 12, offset: 94389},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94342},
+																									pos: position{line: 2982, col: 13, offset: 94390},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94342},
+																											pos:        position{line: 2982, col: 13, offset: 94390},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94349},
+																											pos:        position{line: 2982, col: 20, offset: 94397},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94358},
+																											pos:        position{line: 2982, col: 29, offset: 94406},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40315,9 +40315,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94518},
+																								pos: position{line: 2992, col: 8, offset: 94566},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94519,
+																									line: 2992, col: 9, offset: 94567,
 																								},
 																							},
 																						},
@@ -40331,12 +40331,12 @@ var g = &grammar{
 																	pos:   position{line: 1564, col: 5, offset: 50522},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 14, offset: 91924},
+																		pos: position{line: 2896, col: 14, offset: 91972},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 14, offset: 91924},
+																			pos: position{line: 2896, col: 14, offset: 91972},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 14, offset: 91924},
+																				pos:        position{line: 2896, col: 14, offset: 91972},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40346,28 +40346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40376,9 +40376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -40443,10 +40443,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1758, col: 66, offset: 56672},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94170},
+								pos: position{line: 2973, col: 10, offset: 94218},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94170},
+									pos:        position{line: 2973, col: 10, offset: 94218},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40460,25 +40460,25 @@ var g = &grammar{
 								pos: position{line: 1758, col: 75, offset: 56681},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94341},
+										pos: position{line: 2982, col: 12, offset: 94389},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94342},
+											pos: position{line: 2982, col: 13, offset: 94390},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94342},
+													pos:        position{line: 2982, col: 13, offset: 94390},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94349},
+													pos:        position{line: 2982, col: 20, offset: 94397},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94358},
+													pos:        position{line: 2982, col: 29, offset: 94406},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40487,9 +40487,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2992, col: 8, offset: 94518},
+										pos: position{line: 2992, col: 8, offset: 94566},
 										expr: &anyMatcher{
-											line: 2992, col: 9, offset: 94519,
+											line: 2992, col: 9, offset: 94567,
 										},
 									},
 									&ruleRefExpr{
@@ -40518,7 +40518,7 @@ var g = &grammar{
 								pos: position{line: 1799, col: 7, offset: 57980},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2827, col: 13, offset: 90118},
+										pos:        position{line: 2827, col: 13, offset: 90166},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -40537,12 +40537,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2977, col: 11, offset: 94231},
+													pos: position{line: 2977, col: 11, offset: 94279},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2977, col: 11, offset: 94231},
+														pos: position{line: 2977, col: 11, offset: 94279},
 														expr: &charClassMatcher{
-															pos:        position{line: 2977, col: 11, offset: 94231},
+															pos:        position{line: 2977, col: 11, offset: 94279},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40590,12 +40590,12 @@ var g = &grammar{
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40619,12 +40619,12 @@ var g = &grammar{
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40648,12 +40648,12 @@ var g = &grammar{
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40677,12 +40677,12 @@ var g = &grammar{
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40706,12 +40706,12 @@ var g = &grammar{
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40728,12 +40728,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1791, col: 13, offset: 57767},
 																expr: &actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40754,10 +40754,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1793, col: 14, offset: 57849},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40766,28 +40766,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94568},
+															pos: position{line: 2995, col: 8, offset: 94616},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94341},
+																	pos: position{line: 2982, col: 12, offset: 94389},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94342},
+																		pos: position{line: 2982, col: 13, offset: 94390},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94342},
+																				pos:        position{line: 2982, col: 13, offset: 94390},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94349},
+																				pos:        position{line: 2982, col: 20, offset: 94397},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94358},
+																				pos:        position{line: 2982, col: 29, offset: 94406},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40796,9 +40796,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -40824,12 +40824,12 @@ var g = &grammar{
 											pos:   position{line: 1838, col: 5, offset: 59371},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 14, offset: 91924},
+												pos: position{line: 2896, col: 14, offset: 91972},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2896, col: 14, offset: 91924},
+													pos: position{line: 2896, col: 14, offset: 91972},
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 14, offset: 91924},
+														pos:        position{line: 2896, col: 14, offset: 91972},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40843,28 +40843,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2995, col: 8, offset: 94568},
+											pos: position{line: 2995, col: 8, offset: 94616},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2982, col: 12, offset: 94341},
+													pos: position{line: 2982, col: 12, offset: 94389},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2982, col: 13, offset: 94342},
+														pos: position{line: 2982, col: 13, offset: 94390},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2982, col: 13, offset: 94342},
+																pos:        position{line: 2982, col: 13, offset: 94390},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 20, offset: 94349},
+																pos:        position{line: 2982, col: 20, offset: 94397},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 29, offset: 94358},
+																pos:        position{line: 2982, col: 29, offset: 94406},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40873,9 +40873,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -40900,9 +40900,9 @@ var g = &grammar{
 										pos: position{line: 1810, col: 9, offset: 58545},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94504},
+												pos: position{line: 2990, col: 11, offset: 94552},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94506,
+													line: 2990, col: 13, offset: 94554,
 												},
 											},
 											&notExpr{
@@ -40914,18 +40914,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94504},
+																pos: position{line: 2990, col: 11, offset: 94552},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94506,
+																	line: 2990, col: 13, offset: 94554,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40934,28 +40934,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40964,9 +40964,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -40996,7 +40996,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2827, col: 13, offset: 90118},
+																			pos:        position{line: 2827, col: 13, offset: 90166},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41046,10 +41046,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41058,28 +41058,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41088,9 +41088,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41135,10 +41135,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41147,28 +41147,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41177,9 +41177,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41220,10 +41220,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41232,28 +41232,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41262,9 +41262,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41309,10 +41309,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41321,28 +41321,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41351,9 +41351,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41398,10 +41398,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41410,28 +41410,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41440,9 +41440,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41487,10 +41487,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41499,28 +41499,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41529,9 +41529,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41576,10 +41576,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41588,28 +41588,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41618,9 +41618,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41665,10 +41665,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41677,28 +41677,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41707,9 +41707,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41754,10 +41754,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41766,28 +41766,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41796,9 +41796,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -41835,10 +41835,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41847,28 +41847,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41877,9 +41877,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -41888,21 +41888,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85570},
+															pos: position{line: 2675, col: 19, offset: 85618},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85570},
+																	pos:        position{line: 2675, col: 19, offset: 85618},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85577},
+																	pos: position{line: 2675, col: 26, offset: 85625},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41911,28 +41911,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41941,9 +41941,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -41967,10 +41967,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1588, col: 31, offset: 51258},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41979,25 +41979,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -42015,36 +42015,36 @@ var g = &grammar{
 													pos: position{line: 1815, col: 15, offset: 58707},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81813},
+															pos: position{line: 2540, col: 22, offset: 81861},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81813},
+																pos: position{line: 2540, col: 22, offset: 81861},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82034},
+																		pos:        position{line: 2545, col: 31, offset: 82082},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82039},
+																		pos: position{line: 2545, col: 36, offset: 82087},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82040},
+																			pos:        position{line: 2545, col: 37, offset: 82088},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81840},
+																		pos:   position{line: 2540, col: 49, offset: 81888},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91857},
+																			pos: position{line: 2892, col: 13, offset: 91905},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91857},
+																				pos: position{line: 2892, col: 13, offset: 91905},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91857},
+																					pos:        position{line: 2892, col: 13, offset: 91905},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42054,28 +42054,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42084,9 +42084,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -42104,12 +42104,12 @@ var g = &grammar{
 																		pos:   position{line: 1838, col: 5, offset: 59371},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91924},
+																			pos: position{line: 2896, col: 14, offset: 91972},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91924},
+																				pos: position{line: 2896, col: 14, offset: 91972},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91924},
+																					pos:        position{line: 2896, col: 14, offset: 91972},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42123,28 +42123,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42153,9 +42153,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -42218,12 +42218,12 @@ var g = &grammar{
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42247,12 +42247,12 @@ var g = &grammar{
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42276,12 +42276,12 @@ var g = &grammar{
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42305,12 +42305,12 @@ var g = &grammar{
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42334,12 +42334,12 @@ var g = &grammar{
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94231},
+																			pos: position{line: 2977, col: 11, offset: 94279},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94231},
+																				pos:        position{line: 2977, col: 11, offset: 94279},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42356,12 +42356,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1791, col: 13, offset: 57767},
 																expr: &actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94231},
+																	pos: position{line: 2977, col: 11, offset: 94279},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94231},
+																		pos: position{line: 2977, col: 11, offset: 94279},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94231},
+																			pos:        position{line: 2977, col: 11, offset: 94279},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42382,10 +42382,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1793, col: 14, offset: 57849},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42394,28 +42394,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94568},
+															pos: position{line: 2995, col: 8, offset: 94616},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94341},
+																	pos: position{line: 2982, col: 12, offset: 94389},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94342},
+																		pos: position{line: 2982, col: 13, offset: 94390},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94342},
+																				pos:        position{line: 2982, col: 13, offset: 94390},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94349},
+																				pos:        position{line: 2982, col: 20, offset: 94397},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94358},
+																				pos:        position{line: 2982, col: 29, offset: 94406},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42424,9 +42424,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -42452,12 +42452,12 @@ var g = &grammar{
 											pos:   position{line: 1838, col: 5, offset: 59371},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 14, offset: 91924},
+												pos: position{line: 2896, col: 14, offset: 91972},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2896, col: 14, offset: 91924},
+													pos: position{line: 2896, col: 14, offset: 91972},
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 14, offset: 91924},
+														pos:        position{line: 2896, col: 14, offset: 91972},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42471,28 +42471,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2995, col: 8, offset: 94568},
+											pos: position{line: 2995, col: 8, offset: 94616},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2982, col: 12, offset: 94341},
+													pos: position{line: 2982, col: 12, offset: 94389},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2982, col: 13, offset: 94342},
+														pos: position{line: 2982, col: 13, offset: 94390},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2982, col: 13, offset: 94342},
+																pos:        position{line: 2982, col: 13, offset: 94390},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 20, offset: 94349},
+																pos:        position{line: 2982, col: 20, offset: 94397},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 29, offset: 94358},
+																pos:        position{line: 2982, col: 29, offset: 94406},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42501,9 +42501,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94518},
+													pos: position{line: 2992, col: 8, offset: 94566},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94519,
+														line: 2992, col: 9, offset: 94567,
 													},
 												},
 											},
@@ -42524,9 +42524,9 @@ var g = &grammar{
 										pos: position{line: 1826, col: 9, offset: 59013},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94504},
+												pos: position{line: 2990, col: 11, offset: 94552},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94506,
+													line: 2990, col: 13, offset: 94554,
 												},
 											},
 											&notExpr{
@@ -42538,18 +42538,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94504},
+																pos: position{line: 2990, col: 11, offset: 94552},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94506,
+																	line: 2990, col: 13, offset: 94554,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42558,28 +42558,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94568},
+																pos: position{line: 2995, col: 8, offset: 94616},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94341},
+																		pos: position{line: 2982, col: 12, offset: 94389},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94342},
+																			pos: position{line: 2982, col: 13, offset: 94390},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94342},
+																					pos:        position{line: 2982, col: 13, offset: 94390},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94349},
+																					pos:        position{line: 2982, col: 20, offset: 94397},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94358},
+																					pos:        position{line: 2982, col: 29, offset: 94406},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42588,9 +42588,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94518},
+																		pos: position{line: 2992, col: 8, offset: 94566},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94519,
+																			line: 2992, col: 9, offset: 94567,
 																		},
 																	},
 																},
@@ -42620,7 +42620,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2827, col: 13, offset: 90118},
+																			pos:        position{line: 2827, col: 13, offset: 90166},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42670,10 +42670,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42682,28 +42682,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42712,9 +42712,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -42759,10 +42759,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42771,28 +42771,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42801,9 +42801,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -42844,10 +42844,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42856,28 +42856,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42886,9 +42886,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -42933,10 +42933,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42945,28 +42945,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42975,9 +42975,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43022,10 +43022,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43034,28 +43034,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43064,9 +43064,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43111,10 +43111,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43123,28 +43123,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43153,9 +43153,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43200,10 +43200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43212,28 +43212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43242,9 +43242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43289,10 +43289,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43301,28 +43301,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43331,9 +43331,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43378,10 +43378,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94170},
+																									pos: position{line: 2973, col: 10, offset: 94218},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94170},
+																										pos:        position{line: 2973, col: 10, offset: 94218},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43390,28 +43390,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94568},
+																								pos: position{line: 2995, col: 8, offset: 94616},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94341},
+																										pos: position{line: 2982, col: 12, offset: 94389},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94342},
+																											pos: position{line: 2982, col: 13, offset: 94390},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94342},
+																													pos:        position{line: 2982, col: 13, offset: 94390},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94349},
+																													pos:        position{line: 2982, col: 20, offset: 94397},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94358},
+																													pos:        position{line: 2982, col: 29, offset: 94406},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43420,9 +43420,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94518},
+																										pos: position{line: 2992, col: 8, offset: 94566},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94519,
+																											line: 2992, col: 9, offset: 94567,
 																										},
 																									},
 																								},
@@ -43459,10 +43459,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43471,28 +43471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43501,9 +43501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -43512,21 +43512,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85570},
+															pos: position{line: 2675, col: 19, offset: 85618},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85570},
+																	pos:        position{line: 2675, col: 19, offset: 85618},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85577},
+																	pos: position{line: 2675, col: 26, offset: 85625},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43535,28 +43535,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43565,9 +43565,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -43584,36 +43584,36 @@ var g = &grammar{
 													pos: position{line: 1830, col: 15, offset: 59142},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81813},
+															pos: position{line: 2540, col: 22, offset: 81861},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81813},
+																pos: position{line: 2540, col: 22, offset: 81861},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82034},
+																		pos:        position{line: 2545, col: 31, offset: 82082},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82039},
+																		pos: position{line: 2545, col: 36, offset: 82087},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82040},
+																			pos:        position{line: 2545, col: 37, offset: 82088},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81840},
+																		pos:   position{line: 2540, col: 49, offset: 81888},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91857},
+																			pos: position{line: 2892, col: 13, offset: 91905},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91857},
+																				pos: position{line: 2892, col: 13, offset: 91905},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91857},
+																					pos:        position{line: 2892, col: 13, offset: 91905},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43623,28 +43623,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43653,9 +43653,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -43673,12 +43673,12 @@ var g = &grammar{
 																		pos:   position{line: 1838, col: 5, offset: 59371},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91924},
+																			pos: position{line: 2896, col: 14, offset: 91972},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91924},
+																				pos: position{line: 2896, col: 14, offset: 91972},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91924},
+																					pos:        position{line: 2896, col: 14, offset: 91972},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43692,28 +43692,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94568},
+																		pos: position{line: 2995, col: 8, offset: 94616},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43722,9 +43722,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94518},
+																				pos: position{line: 2992, col: 8, offset: 94566},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94519,
+																					line: 2992, col: 9, offset: 94567,
 																				},
 																			},
 																		},
@@ -43937,30 +43937,30 @@ var g = &grammar{
 				pos: position{line: 1904, col: 5, offset: 61339},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2836, col: 5, offset: 90265},
+						pos: position{line: 2836, col: 5, offset: 90313},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2836, col: 5, offset: 90265},
+							pos: position{line: 2836, col: 5, offset: 90313},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90265},
+									pos: position{line: 2836, col: 5, offset: 90313},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90276},
+										pos: position{line: 2837, col: 9, offset: 90324},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2837, col: 9, offset: 90276},
+												pos: position{line: 2837, col: 9, offset: 90324},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2840, col: 9, offset: 90339},
+												pos:   position{line: 2840, col: 9, offset: 90387},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2812, col: 18, offset: 89651},
+													pos: position{line: 2812, col: 18, offset: 89699},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2812, col: 19, offset: 89652},
+														pos: position{line: 2812, col: 19, offset: 89700},
 														expr: &charClassMatcher{
-															pos:        position{line: 2812, col: 19, offset: 89652},
+															pos:        position{line: 2812, col: 19, offset: 89700},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43971,28 +43971,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2840, col: 30, offset: 90360},
+												pos:        position{line: 2840, col: 30, offset: 90408},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2841, col: 9, offset: 90447},
+												pos: position{line: 2841, col: 9, offset: 90495},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2845, col: 5, offset: 90559},
+									pos:   position{line: 2845, col: 5, offset: 90607},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 11, offset: 90565},
+										pos: position{line: 2845, col: 11, offset: 90613},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2845, col: 11, offset: 90565},
+											pos: position{line: 2845, col: 11, offset: 90613},
 											expr: &charClassMatcher{
-												pos:        position{line: 2845, col: 11, offset: 90565},
+												pos:        position{line: 2845, col: 11, offset: 90613},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44002,32 +44002,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2848, col: 5, offset: 90623},
+									pos: position{line: 2848, col: 5, offset: 90671},
 									expr: &seqExpr{
-										pos: position{line: 2849, col: 9, offset: 90634},
+										pos: position{line: 2849, col: 9, offset: 90682},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2849, col: 9, offset: 90634},
+												pos:        position{line: 2849, col: 9, offset: 90682},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2850, col: 9, offset: 90683},
+												pos: position{line: 2850, col: 9, offset: 90731},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2854, col: 5, offset: 90763},
+									pos: position{line: 2854, col: 5, offset: 90811},
 									expr: &seqExpr{
-										pos: position{line: 2855, col: 9, offset: 90774},
+										pos: position{line: 2855, col: 9, offset: 90822},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2855, col: 9, offset: 90774},
+												pos: position{line: 2855, col: 9, offset: 90822},
 												expr: &charClassMatcher{
-													pos:        position{line: 2855, col: 9, offset: 90774},
+													pos:        position{line: 2855, col: 9, offset: 90822},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44036,13 +44036,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2855, col: 23, offset: 90788},
+												pos:        position{line: 2855, col: 23, offset: 90836},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2855, col: 27, offset: 90792},
+												pos:        position{line: 2855, col: 27, offset: 90840},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44055,12 +44055,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2977, col: 11, offset: 94231},
+						pos: position{line: 2977, col: 11, offset: 94279},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2977, col: 11, offset: 94231},
+							pos: position{line: 2977, col: 11, offset: 94279},
 							expr: &charClassMatcher{
-								pos:        position{line: 2977, col: 11, offset: 94231},
+								pos:        position{line: 2977, col: 11, offset: 94279},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -44073,25 +44073,25 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 5, offset: 82530},
+						pos: position{line: 2558, col: 5, offset: 82578},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 5, offset: 82530},
+							pos: position{line: 2558, col: 5, offset: 82578},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82530},
+									pos: position{line: 2558, col: 5, offset: 82578},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2561, col: 5, offset: 82601},
+									pos:        position{line: 2561, col: 5, offset: 82649},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2561, col: 10, offset: 82606},
+									pos: position{line: 2561, col: 10, offset: 82654},
 									expr: &charClassMatcher{
-										pos:        position{line: 2561, col: 11, offset: 82607},
+										pos:        position{line: 2561, col: 11, offset: 82655},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44102,29 +44102,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 5, offset: 82793},
+						pos: position{line: 2567, col: 5, offset: 82841},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2567, col: 5, offset: 82793},
+							pos: position{line: 2567, col: 5, offset: 82841},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2567, col: 5, offset: 82793},
+									pos: position{line: 2567, col: 5, offset: 82841},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2570, col: 5, offset: 82864},
+									pos: position{line: 2570, col: 5, offset: 82912},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2574, col: 5, offset: 82989},
+									pos:        position{line: 2574, col: 5, offset: 83037},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2574, col: 9, offset: 82993},
+									pos: position{line: 2574, col: 9, offset: 83041},
 									expr: &charClassMatcher{
-										pos:        position{line: 2574, col: 10, offset: 82994},
+										pos:        position{line: 2574, col: 10, offset: 83042},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44135,27 +44135,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2863, col: 5, offset: 90985},
+						pos: position{line: 2863, col: 5, offset: 91033},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2864, col: 9, offset: 90995},
+							pos: position{line: 2864, col: 9, offset: 91043},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90996},
+									pos:        position{line: 2864, col: 10, offset: 91044},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2866, col: 13, offset: 91093},
+									pos: position{line: 2866, col: 13, offset: 91141},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2866, col: 13, offset: 91093},
+											pos: position{line: 2866, col: 13, offset: 91141},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2869, col: 13, offset: 91193},
+											pos:        position{line: 2869, col: 13, offset: 91241},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -44163,20 +44163,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2869, col: 19, offset: 91199},
+									pos:        position{line: 2869, col: 19, offset: 91247},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2872, col: 13, offset: 91237},
+									pos: position{line: 2872, col: 13, offset: 91285},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2872, col: 13, offset: 91237},
+											pos: position{line: 2872, col: 13, offset: 91285},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2875, col: 14, offset: 91330},
+											pos:        position{line: 2875, col: 14, offset: 91378},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -44185,18 +44185,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2877, col: 12, offset: 91374},
+									pos: position{line: 2877, col: 12, offset: 91422},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2877, col: 12, offset: 91374},
+											pos:        position{line: 2877, col: 12, offset: 91422},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2877, col: 16, offset: 91378},
+											pos: position{line: 2877, col: 16, offset: 91426},
 											expr: &litMatcher{
-												pos:        position{line: 2877, col: 17, offset: 91379},
+												pos:        position{line: 2877, col: 17, offset: 91427},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44554,31 +44554,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2986, col: 18, offset: 94441},
+						pos: position{line: 2986, col: 18, offset: 94489},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2986, col: 18, offset: 94441},
+							pos: position{line: 2986, col: 18, offset: 94489},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44587,27 +44587,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2986, col: 26, offset: 94449},
+									pos: position{line: 2986, col: 26, offset: 94497},
 									expr: &actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94341},
+										pos: position{line: 2982, col: 12, offset: 94389},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94342},
+											pos: position{line: 2982, col: 13, offset: 94390},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94342},
+													pos:        position{line: 2982, col: 13, offset: 94390},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94349},
+													pos:        position{line: 2982, col: 20, offset: 94397},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94358},
+													pos:        position{line: 2982, col: 29, offset: 94406},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44628,23 +44628,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 5, offset: 81359},
+						pos: position{line: 2527, col: 5, offset: 81407},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 5, offset: 81359},
+							pos: position{line: 2527, col: 5, offset: 81407},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2527, col: 5, offset: 81359},
+									pos: position{line: 2527, col: 5, offset: 81407},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2530, col: 5, offset: 81435},
+									pos:   position{line: 2530, col: 5, offset: 81483},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2531, col: 9, offset: 81453},
+										pos: position{line: 2531, col: 9, offset: 81501},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2531, col: 10, offset: 81454},
+											pos:        position{line: 2531, col: 10, offset: 81502},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44695,10 +44695,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2885, col: 12, offset: 91639},
+						pos: position{line: 2885, col: 12, offset: 91687},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2885, col: 12, offset: 91639},
+							pos:        position{line: 2885, col: 12, offset: 91687},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44766,9 +44766,9 @@ var g = &grammar{
 					pos: position{line: 1943, col: 5, offset: 62518},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -44855,7 +44855,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1968, col: 7, offset: 63243},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90118},
+									pos:        position{line: 2827, col: 13, offset: 90166},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44915,9 +44915,9 @@ var g = &grammar{
 					pos: position{line: 1987, col: 5, offset: 63791},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -44949,7 +44949,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1968, col: 7, offset: 63243},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90118},
+												pos:        position{line: 2827, col: 13, offset: 90166},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45192,9 +45192,9 @@ var g = &grammar{
 					pos: position{line: 2035, col: 5, offset: 65559},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -45281,7 +45281,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2061, col: 7, offset: 66290},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90118},
+									pos:        position{line: 2827, col: 13, offset: 90166},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45341,9 +45341,9 @@ var g = &grammar{
 					pos: position{line: 2080, col: 5, offset: 66853},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -45375,7 +45375,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2061, col: 7, offset: 66290},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90118},
+												pos:        position{line: 2827, col: 13, offset: 90166},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45618,9 +45618,9 @@ var g = &grammar{
 					pos: position{line: 2128, col: 5, offset: 68799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -45672,7 +45672,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2155, col: 7, offset: 69592},
 							expr: &charClassMatcher{
-								pos:        position{line: 2827, col: 13, offset: 90118},
+								pos:        position{line: 2827, col: 13, offset: 90166},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45778,9 +45778,9 @@ var g = &grammar{
 					pos: position{line: 2175, col: 5, offset: 70185},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -46022,9 +46022,9 @@ var g = &grammar{
 					pos: position{line: 2223, col: 5, offset: 72017},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -46111,7 +46111,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2248, col: 7, offset: 72746},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90118},
+									pos:        position{line: 2827, col: 13, offset: 90166},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -46171,9 +46171,9 @@ var g = &grammar{
 					pos: position{line: 2267, col: 5, offset: 73310},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&notExpr{
@@ -46205,7 +46205,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2248, col: 7, offset: 72746},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90118},
+												pos:        position{line: 2827, col: 13, offset: 90166},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46449,23 +46449,23 @@ var g = &grammar{
 									pos: position{line: 2308, col: 30, offset: 74883},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2527, col: 5, offset: 81359},
+												pos: position{line: 2527, col: 5, offset: 81407},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2527, col: 5, offset: 81359},
+														pos: position{line: 2527, col: 5, offset: 81407},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 5, offset: 81435},
+														pos:   position{line: 2530, col: 5, offset: 81483},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2531, col: 9, offset: 81453},
+															pos: position{line: 2531, col: 9, offset: 81501},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2531, col: 10, offset: 81454},
+																pos:        position{line: 2531, col: 10, offset: 81502},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46604,23 +46604,23 @@ var g = &grammar{
 									pos: position{line: 2340, col: 32, offset: 75856},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2527, col: 5, offset: 81359},
+												pos: position{line: 2527, col: 5, offset: 81407},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2527, col: 5, offset: 81359},
+														pos: position{line: 2527, col: 5, offset: 81407},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 5, offset: 81435},
+														pos:   position{line: 2530, col: 5, offset: 81483},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2531, col: 9, offset: 81453},
+															pos: position{line: 2531, col: 9, offset: 81501},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2531, col: 10, offset: 81454},
+																pos:        position{line: 2531, col: 10, offset: 81502},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46735,12 +46735,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2977, col: 11, offset: 94231},
+							pos: position{line: 2977, col: 11, offset: 94279},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2977, col: 11, offset: 94231},
+								pos: position{line: 2977, col: 11, offset: 94279},
 								expr: &charClassMatcher{
-									pos:        position{line: 2977, col: 11, offset: 94231},
+									pos:        position{line: 2977, col: 11, offset: 94279},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46757,28 +46757,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46787,9 +46787,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -46838,28 +46838,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2385, col: 5, offset: 77295},
 							expr: &choiceExpr{
-								pos: position{line: 2995, col: 8, offset: 94568},
+								pos: position{line: 2995, col: 8, offset: 94616},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94341},
+										pos: position{line: 2982, col: 12, offset: 94389},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94342},
+											pos: position{line: 2982, col: 13, offset: 94390},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94342},
+													pos:        position{line: 2982, col: 13, offset: 94390},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94349},
+													pos:        position{line: 2982, col: 20, offset: 94397},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94358},
+													pos:        position{line: 2982, col: 29, offset: 94406},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46868,9 +46868,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2992, col: 8, offset: 94518},
+										pos: position{line: 2992, col: 8, offset: 94566},
 										expr: &anyMatcher{
-											line: 2992, col: 9, offset: 94519,
+											line: 2992, col: 9, offset: 94567,
 										},
 									},
 								},
@@ -46883,30 +46883,30 @@ var g = &grammar{
 								pos: position{line: 2387, col: 9, offset: 77322},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90265},
+										pos: position{line: 2836, col: 5, offset: 90313},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90265},
+											pos: position{line: 2836, col: 5, offset: 90313},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90265},
+													pos: position{line: 2836, col: 5, offset: 90313},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90276},
+														pos: position{line: 2837, col: 9, offset: 90324},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90276},
+																pos: position{line: 2837, col: 9, offset: 90324},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90339},
+																pos:   position{line: 2840, col: 9, offset: 90387},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89651},
+																	pos: position{line: 2812, col: 18, offset: 89699},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89652},
+																		pos: position{line: 2812, col: 19, offset: 89700},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89652},
+																			pos:        position{line: 2812, col: 19, offset: 89700},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46917,28 +46917,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90360},
+																pos:        position{line: 2840, col: 30, offset: 90408},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90447},
+																pos: position{line: 2841, col: 9, offset: 90495},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90559},
+													pos:   position{line: 2845, col: 5, offset: 90607},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90565},
+														pos: position{line: 2845, col: 11, offset: 90613},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90565},
+															pos: position{line: 2845, col: 11, offset: 90613},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90565},
+																pos:        position{line: 2845, col: 11, offset: 90613},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46948,32 +46948,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90623},
+													pos: position{line: 2848, col: 5, offset: 90671},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90634},
+														pos: position{line: 2849, col: 9, offset: 90682},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90634},
+																pos:        position{line: 2849, col: 9, offset: 90682},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90683},
+																pos: position{line: 2850, col: 9, offset: 90731},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90763},
+													pos: position{line: 2854, col: 5, offset: 90811},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90774},
+														pos: position{line: 2855, col: 9, offset: 90822},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90774},
+																pos: position{line: 2855, col: 9, offset: 90822},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90774},
+																	pos:        position{line: 2855, col: 9, offset: 90822},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46982,13 +46982,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90788},
+																pos:        position{line: 2855, col: 23, offset: 90836},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90792},
+																pos:        position{line: 2855, col: 27, offset: 90840},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47001,12 +47001,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2977, col: 11, offset: 94231},
+										pos: position{line: 2977, col: 11, offset: 94279},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2977, col: 11, offset: 94231},
+											pos: position{line: 2977, col: 11, offset: 94279},
 											expr: &charClassMatcher{
-												pos:        position{line: 2977, col: 11, offset: 94231},
+												pos:        position{line: 2977, col: 11, offset: 94279},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47015,25 +47015,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82530},
+										pos: position{line: 2558, col: 5, offset: 82578},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82530},
+											pos: position{line: 2558, col: 5, offset: 82578},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82530},
+													pos: position{line: 2558, col: 5, offset: 82578},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82601},
+													pos:        position{line: 2561, col: 5, offset: 82649},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82606},
+													pos: position{line: 2561, col: 10, offset: 82654},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82607},
+														pos:        position{line: 2561, col: 11, offset: 82655},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47044,29 +47044,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82793},
+										pos: position{line: 2567, col: 5, offset: 82841},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82793},
+											pos: position{line: 2567, col: 5, offset: 82841},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82793},
+													pos: position{line: 2567, col: 5, offset: 82841},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82864},
+													pos: position{line: 2570, col: 5, offset: 82912},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 82989},
+													pos:        position{line: 2574, col: 5, offset: 83037},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 82993},
+													pos: position{line: 2574, col: 9, offset: 83041},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 82994},
+														pos:        position{line: 2574, col: 10, offset: 83042},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47081,27 +47081,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 90985},
+										pos: position{line: 2863, col: 5, offset: 91033},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 90995},
+											pos: position{line: 2864, col: 9, offset: 91043},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90996},
+													pos:        position{line: 2864, col: 10, offset: 91044},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91093},
+													pos: position{line: 2866, col: 13, offset: 91141},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91093},
+															pos: position{line: 2866, col: 13, offset: 91141},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91193},
+															pos:        position{line: 2869, col: 13, offset: 91241},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47109,20 +47109,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91199},
+													pos:        position{line: 2869, col: 19, offset: 91247},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91237},
+													pos: position{line: 2872, col: 13, offset: 91285},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91237},
+															pos: position{line: 2872, col: 13, offset: 91285},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91330},
+															pos:        position{line: 2875, col: 14, offset: 91378},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47131,18 +47131,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91374},
+													pos: position{line: 2877, col: 12, offset: 91422},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91374},
+															pos:        position{line: 2877, col: 12, offset: 91422},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91378},
+															pos: position{line: 2877, col: 16, offset: 91426},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91379},
+																pos:        position{line: 2877, col: 17, offset: 91427},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47166,23 +47166,23 @@ var g = &grammar{
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81359},
+										pos: position{line: 2527, col: 5, offset: 81407},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81359},
+													pos: position{line: 2527, col: 5, offset: 81407},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81435},
+													pos:   position{line: 2530, col: 5, offset: 81483},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81453},
+														pos: position{line: 2531, col: 9, offset: 81501},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81454},
+															pos:        position{line: 2531, col: 10, offset: 81502},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -48049,10 +48049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2412, col: 26, offset: 78118},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94170},
+														pos: position{line: 2973, col: 10, offset: 94218},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94170},
+															pos:        position{line: 2973, col: 10, offset: 94218},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -48063,28 +48063,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2412, col: 33, offset: 78125},
 													expr: &choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94568},
+														pos: position{line: 2995, col: 8, offset: 94616},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94341},
+																pos: position{line: 2982, col: 12, offset: 94389},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94342},
+																	pos: position{line: 2982, col: 13, offset: 94390},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94342},
+																			pos:        position{line: 2982, col: 13, offset: 94390},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94349},
+																			pos:        position{line: 2982, col: 20, offset: 94397},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94358},
+																			pos:        position{line: 2982, col: 29, offset: 94406},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -48093,9 +48093,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94518},
+																pos: position{line: 2992, col: 8, offset: 94566},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94519,
+																	line: 2992, col: 9, offset: 94567,
 																},
 															},
 														},
@@ -48120,12 +48120,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93822},
+														pos: position{line: 2958, col: 7, offset: 93870},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93822},
+															pos: position{line: 2958, col: 7, offset: 93870},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93822},
+																pos:        position{line: 2958, col: 7, offset: 93870},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48159,12 +48159,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93822},
+														pos: position{line: 2958, col: 7, offset: 93870},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93822},
+															pos: position{line: 2958, col: 7, offset: 93870},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93822},
+																pos:        position{line: 2958, col: 7, offset: 93870},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48187,10 +48187,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91639},
+										pos: position{line: 2885, col: 12, offset: 91687},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91639},
+											pos:        position{line: 2885, col: 12, offset: 91687},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48225,9 +48225,9 @@ var g = &grammar{
 										pos: position{line: 2425, col: 9, offset: 78509},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94504},
+												pos: position{line: 2990, col: 11, offset: 94552},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94506,
+													line: 2990, col: 13, offset: 94554,
 												},
 											},
 											&labeledExpr{
@@ -48237,30 +48237,30 @@ var g = &grammar{
 													pos: position{line: 2427, col: 13, offset: 78546},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2836, col: 5, offset: 90265},
+															pos: position{line: 2836, col: 5, offset: 90313},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2836, col: 5, offset: 90265},
+																pos: position{line: 2836, col: 5, offset: 90313},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90265},
+																		pos: position{line: 2836, col: 5, offset: 90313},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90276},
+																			pos: position{line: 2837, col: 9, offset: 90324},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2837, col: 9, offset: 90276},
+																					pos: position{line: 2837, col: 9, offset: 90324},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2840, col: 9, offset: 90339},
+																					pos:   position{line: 2840, col: 9, offset: 90387},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2812, col: 18, offset: 89651},
+																						pos: position{line: 2812, col: 18, offset: 89699},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2812, col: 19, offset: 89652},
+																							pos: position{line: 2812, col: 19, offset: 89700},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2812, col: 19, offset: 89652},
+																								pos:        position{line: 2812, col: 19, offset: 89700},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48271,28 +48271,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2840, col: 30, offset: 90360},
+																					pos:        position{line: 2840, col: 30, offset: 90408},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2841, col: 9, offset: 90447},
+																					pos: position{line: 2841, col: 9, offset: 90495},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2845, col: 5, offset: 90559},
+																		pos:   position{line: 2845, col: 5, offset: 90607},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90565},
+																			pos: position{line: 2845, col: 11, offset: 90613},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2845, col: 11, offset: 90565},
+																				pos: position{line: 2845, col: 11, offset: 90613},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2845, col: 11, offset: 90565},
+																					pos:        position{line: 2845, col: 11, offset: 90613},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48302,32 +48302,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2848, col: 5, offset: 90623},
+																		pos: position{line: 2848, col: 5, offset: 90671},
 																		expr: &seqExpr{
-																			pos: position{line: 2849, col: 9, offset: 90634},
+																			pos: position{line: 2849, col: 9, offset: 90682},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2849, col: 9, offset: 90634},
+																					pos:        position{line: 2849, col: 9, offset: 90682},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2850, col: 9, offset: 90683},
+																					pos: position{line: 2850, col: 9, offset: 90731},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2854, col: 5, offset: 90763},
+																		pos: position{line: 2854, col: 5, offset: 90811},
 																		expr: &seqExpr{
-																			pos: position{line: 2855, col: 9, offset: 90774},
+																			pos: position{line: 2855, col: 9, offset: 90822},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2855, col: 9, offset: 90774},
+																					pos: position{line: 2855, col: 9, offset: 90822},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2855, col: 9, offset: 90774},
+																						pos:        position{line: 2855, col: 9, offset: 90822},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48336,13 +48336,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2855, col: 23, offset: 90788},
+																					pos:        position{line: 2855, col: 23, offset: 90836},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2855, col: 27, offset: 90792},
+																					pos:        position{line: 2855, col: 27, offset: 90840},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48355,12 +48355,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2977, col: 11, offset: 94231},
+															pos: position{line: 2977, col: 11, offset: 94279},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2977, col: 11, offset: 94231},
+																pos: position{line: 2977, col: 11, offset: 94279},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2977, col: 11, offset: 94231},
+																	pos:        position{line: 2977, col: 11, offset: 94279},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48373,25 +48373,25 @@ var g = &grammar{
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2558, col: 5, offset: 82530},
+															pos: position{line: 2558, col: 5, offset: 82578},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2558, col: 5, offset: 82530},
+																pos: position{line: 2558, col: 5, offset: 82578},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2558, col: 5, offset: 82530},
+																		pos: position{line: 2558, col: 5, offset: 82578},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2561, col: 5, offset: 82601},
+																		pos:        position{line: 2561, col: 5, offset: 82649},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2561, col: 10, offset: 82606},
+																		pos: position{line: 2561, col: 10, offset: 82654},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2561, col: 11, offset: 82607},
+																			pos:        position{line: 2561, col: 11, offset: 82655},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48402,29 +48402,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2567, col: 5, offset: 82793},
+															pos: position{line: 2567, col: 5, offset: 82841},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2567, col: 5, offset: 82793},
+																pos: position{line: 2567, col: 5, offset: 82841},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2567, col: 5, offset: 82793},
+																		pos: position{line: 2567, col: 5, offset: 82841},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2570, col: 5, offset: 82864},
+																		pos: position{line: 2570, col: 5, offset: 82912},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2574, col: 5, offset: 82989},
+																		pos:        position{line: 2574, col: 5, offset: 83037},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2574, col: 9, offset: 82993},
+																		pos: position{line: 2574, col: 9, offset: 83041},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2574, col: 10, offset: 82994},
+																			pos:        position{line: 2574, col: 10, offset: 83042},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48435,27 +48435,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2863, col: 5, offset: 90985},
+															pos: position{line: 2863, col: 5, offset: 91033},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2864, col: 9, offset: 90995},
+																pos: position{line: 2864, col: 9, offset: 91043},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90996},
+																		pos:        position{line: 2864, col: 10, offset: 91044},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2866, col: 13, offset: 91093},
+																		pos: position{line: 2866, col: 13, offset: 91141},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2866, col: 13, offset: 91093},
+																				pos: position{line: 2866, col: 13, offset: 91141},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 91193},
+																				pos:        position{line: 2869, col: 13, offset: 91241},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48463,20 +48463,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 19, offset: 91199},
+																		pos:        position{line: 2869, col: 19, offset: 91247},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2872, col: 13, offset: 91237},
+																		pos: position{line: 2872, col: 13, offset: 91285},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2872, col: 13, offset: 91237},
+																				pos: position{line: 2872, col: 13, offset: 91285},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2875, col: 14, offset: 91330},
+																				pos:        position{line: 2875, col: 14, offset: 91378},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48485,18 +48485,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2877, col: 12, offset: 91374},
+																		pos: position{line: 2877, col: 12, offset: 91422},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2877, col: 12, offset: 91374},
+																				pos:        position{line: 2877, col: 12, offset: 91422},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2877, col: 16, offset: 91378},
+																				pos: position{line: 2877, col: 16, offset: 91426},
 																				expr: &litMatcher{
-																					pos:        position{line: 2877, col: 17, offset: 91379},
+																					pos:        position{line: 2877, col: 17, offset: 91427},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48508,25 +48508,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94341},
+															pos: position{line: 2982, col: 12, offset: 94389},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94342},
+																pos: position{line: 2982, col: 13, offset: 94390},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94342},
+																		pos:        position{line: 2982, col: 13, offset: 94390},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94349},
+																		pos:        position{line: 2982, col: 20, offset: 94397},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94358},
+																		pos:        position{line: 2982, col: 29, offset: 94406},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48893,23 +48893,23 @@ var g = &grammar{
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2527, col: 5, offset: 81359},
+															pos: position{line: 2527, col: 5, offset: 81407},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2527, col: 5, offset: 81359},
+																pos: position{line: 2527, col: 5, offset: 81407},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2527, col: 5, offset: 81359},
+																		pos: position{line: 2527, col: 5, offset: 81407},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 5, offset: 81435},
+																		pos:   position{line: 2530, col: 5, offset: 81483},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2531, col: 9, offset: 81453},
+																			pos: position{line: 2531, col: 9, offset: 81501},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2531, col: 10, offset: 81454},
+																				pos:        position{line: 2531, col: 10, offset: 81502},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48943,10 +48943,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48957,28 +48957,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94568},
+																			pos: position{line: 2995, col: 8, offset: 94616},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48987,9 +48987,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94518},
+																					pos: position{line: 2992, col: 8, offset: 94566},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94519,
+																						line: 2992, col: 9, offset: 94567,
 																					},
 																				},
 																			},
@@ -49042,10 +49042,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91639},
+															pos: position{line: 2885, col: 12, offset: 91687},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 12, offset: 91639},
+																pos:        position{line: 2885, col: 12, offset: 91687},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -49061,9 +49061,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -49091,9 +49091,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -49110,9 +49110,9 @@ var g = &grammar{
 					pos: position{line: 2456, col: 5, offset: 79668},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94504},
+							pos: position{line: 2990, col: 11, offset: 94552},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94506,
+								line: 2990, col: 13, offset: 94554,
 							},
 						},
 						&labeledExpr{
@@ -49122,30 +49122,30 @@ var g = &grammar{
 								pos: position{line: 2458, col: 9, offset: 79697},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90265},
+										pos: position{line: 2836, col: 5, offset: 90313},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90265},
+											pos: position{line: 2836, col: 5, offset: 90313},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90265},
+													pos: position{line: 2836, col: 5, offset: 90313},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90276},
+														pos: position{line: 2837, col: 9, offset: 90324},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90276},
+																pos: position{line: 2837, col: 9, offset: 90324},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90339},
+																pos:   position{line: 2840, col: 9, offset: 90387},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89651},
+																	pos: position{line: 2812, col: 18, offset: 89699},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89652},
+																		pos: position{line: 2812, col: 19, offset: 89700},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89652},
+																			pos:        position{line: 2812, col: 19, offset: 89700},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49156,28 +49156,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90360},
+																pos:        position{line: 2840, col: 30, offset: 90408},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90447},
+																pos: position{line: 2841, col: 9, offset: 90495},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90559},
+													pos:   position{line: 2845, col: 5, offset: 90607},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90565},
+														pos: position{line: 2845, col: 11, offset: 90613},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90565},
+															pos: position{line: 2845, col: 11, offset: 90613},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90565},
+																pos:        position{line: 2845, col: 11, offset: 90613},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49187,32 +49187,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90623},
+													pos: position{line: 2848, col: 5, offset: 90671},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90634},
+														pos: position{line: 2849, col: 9, offset: 90682},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90634},
+																pos:        position{line: 2849, col: 9, offset: 90682},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90683},
+																pos: position{line: 2850, col: 9, offset: 90731},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90763},
+													pos: position{line: 2854, col: 5, offset: 90811},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90774},
+														pos: position{line: 2855, col: 9, offset: 90822},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90774},
+																pos: position{line: 2855, col: 9, offset: 90822},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90774},
+																	pos:        position{line: 2855, col: 9, offset: 90822},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49221,13 +49221,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90788},
+																pos:        position{line: 2855, col: 23, offset: 90836},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90792},
+																pos:        position{line: 2855, col: 27, offset: 90840},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49240,10 +49240,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94170},
+										pos: position{line: 2973, col: 10, offset: 94218},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94170},
+											pos:        position{line: 2973, col: 10, offset: 94218},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49255,25 +49255,25 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82530},
+										pos: position{line: 2558, col: 5, offset: 82578},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82530},
+											pos: position{line: 2558, col: 5, offset: 82578},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82530},
+													pos: position{line: 2558, col: 5, offset: 82578},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82601},
+													pos:        position{line: 2561, col: 5, offset: 82649},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82606},
+													pos: position{line: 2561, col: 10, offset: 82654},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82607},
+														pos:        position{line: 2561, col: 11, offset: 82655},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49284,29 +49284,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82793},
+										pos: position{line: 2567, col: 5, offset: 82841},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82793},
+											pos: position{line: 2567, col: 5, offset: 82841},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82793},
+													pos: position{line: 2567, col: 5, offset: 82841},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82864},
+													pos: position{line: 2570, col: 5, offset: 82912},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 82989},
+													pos:        position{line: 2574, col: 5, offset: 83037},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 82993},
+													pos: position{line: 2574, col: 9, offset: 83041},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 82994},
+														pos:        position{line: 2574, col: 10, offset: 83042},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49317,27 +49317,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 90985},
+										pos: position{line: 2863, col: 5, offset: 91033},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 90995},
+											pos: position{line: 2864, col: 9, offset: 91043},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90996},
+													pos:        position{line: 2864, col: 10, offset: 91044},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91093},
+													pos: position{line: 2866, col: 13, offset: 91141},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91093},
+															pos: position{line: 2866, col: 13, offset: 91141},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91193},
+															pos:        position{line: 2869, col: 13, offset: 91241},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49345,20 +49345,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91199},
+													pos:        position{line: 2869, col: 19, offset: 91247},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91237},
+													pos: position{line: 2872, col: 13, offset: 91285},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91237},
+															pos: position{line: 2872, col: 13, offset: 91285},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91330},
+															pos:        position{line: 2875, col: 14, offset: 91378},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49367,18 +49367,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91374},
+													pos: position{line: 2877, col: 12, offset: 91422},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91374},
+															pos:        position{line: 2877, col: 12, offset: 91422},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91378},
+															pos: position{line: 2877, col: 16, offset: 91426},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91379},
+																pos:        position{line: 2877, col: 17, offset: 91427},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49398,23 +49398,23 @@ var g = &grammar{
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81359},
+										pos: position{line: 2527, col: 5, offset: 81407},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81359},
+											pos: position{line: 2527, col: 5, offset: 81407},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81359},
+													pos: position{line: 2527, col: 5, offset: 81407},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81435},
+													pos:   position{line: 2530, col: 5, offset: 81483},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81453},
+														pos: position{line: 2531, col: 9, offset: 81501},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81454},
+															pos:        position{line: 2531, col: 10, offset: 81502},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49465,25 +49465,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94341},
+										pos: position{line: 2982, col: 12, offset: 94389},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94342},
+											pos: position{line: 2982, col: 13, offset: 94390},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94342},
+													pos:        position{line: 2982, col: 13, offset: 94390},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94349},
+													pos:        position{line: 2982, col: 20, offset: 94397},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94358},
+													pos:        position{line: 2982, col: 29, offset: 94406},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49492,10 +49492,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91639},
+										pos: position{line: 2885, col: 12, offset: 91687},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91639},
+											pos:        position{line: 2885, col: 12, offset: 91687},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49538,22 +49538,22 @@ var g = &grammar{
 									},
 									&ruleRefExpr{
 										pos:  position{line: 2483, col: 11, offset: 80330},
-										name: "Link",
+										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80346},
-										name: "InlinePassthrough",
+										pos:  position{line: 2484, col: 11, offset: 80407},
+										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2485, col: 11, offset: 80375},
+										pos:  position{line: 2485, col: 11, offset: 80423},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2486, col: 11, offset: 80401},
+										pos:  position{line: 2486, col: 11, offset: 80449},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 11, offset: 80427},
+										pos:  position{line: 2487, col: 11, offset: 80475},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49572,12 +49572,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93822},
+														pos: position{line: 2958, col: 7, offset: 93870},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93822},
+															pos: position{line: 2958, col: 7, offset: 93870},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93822},
+																pos:        position{line: 2958, col: 7, offset: 93870},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49611,12 +49611,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93822},
+														pos: position{line: 2958, col: 7, offset: 93870},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93822},
+															pos: position{line: 2958, col: 7, offset: 93870},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93822},
+																pos:        position{line: 2958, col: 7, offset: 93870},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49658,17 +49658,17 @@ var g = &grammar{
 																pos: position{line: 1337, col: 31, offset: 41664},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2827, col: 13, offset: 90118},
+																		pos:        position{line: 2827, col: 13, offset: 90166},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94170},
+																		pos: position{line: 2973, col: 10, offset: 94218},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94170},
+																			pos:        position{line: 2973, col: 10, offset: 94218},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49694,10 +49694,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 12, offset: 41378},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49714,10 +49714,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1331, col: 23, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49737,17 +49737,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2827, col: 13, offset: 90118},
+																							pos:        position{line: 2827, col: 13, offset: 90166},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49778,10 +49778,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 12, offset: 41470},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49798,10 +49798,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1332, col: 23, offset: 41481},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94170},
+																			pos: position{line: 2973, col: 10, offset: 94218},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94170},
+																				pos:        position{line: 2973, col: 10, offset: 94218},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49821,17 +49821,17 @@ var g = &grammar{
 																					pos: position{line: 1337, col: 31, offset: 41664},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2827, col: 13, offset: 90118},
+																							pos:        position{line: 2827, col: 13, offset: 90166},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94170},
+																							pos: position{line: 2973, col: 10, offset: 94218},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94170},
+																								pos:        position{line: 2973, col: 10, offset: 94218},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49858,15 +49858,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2490, col: 11, offset: 80506},
+										pos:  position{line: 2490, col: 11, offset: 80554},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2491, col: 11, offset: 80526},
+										pos:  position{line: 2491, col: 11, offset: 80574},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2492, col: 11, offset: 80549},
+										pos:  position{line: 2492, col: 11, offset: 80597},
 										name: "InlineMenu",
 									},
 								},
@@ -49878,22 +49878,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2496, col: 1, offset: 80606},
+			pos:  position{line: 2496, col: 1, offset: 80654},
 			expr: &actionExpr{
-				pos: position{line: 2498, col: 5, offset: 80694},
+				pos: position{line: 2498, col: 5, offset: 80742},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2498, col: 5, offset: 80694},
+					pos: position{line: 2498, col: 5, offset: 80742},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2498, col: 5, offset: 80694},
+							pos: position{line: 2498, col: 5, offset: 80742},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2501, col: 5, offset: 80771},
+							pos:   position{line: 2501, col: 5, offset: 80819},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2502, col: 9, offset: 80789},
+								pos: position{line: 2502, col: 9, offset: 80837},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1416, col: 26, offset: 44997},
@@ -49948,10 +49948,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1422, col: 12, offset: 45433},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94170},
+																					pos: position{line: 2973, col: 10, offset: 94218},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94170},
+																						pos:        position{line: 2973, col: 10, offset: 94218},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49962,25 +49962,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1422, col: 19, offset: 45440},
 																				expr: &actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94341},
+																					pos: position{line: 2982, col: 12, offset: 94389},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94342},
+																						pos: position{line: 2982, col: 13, offset: 94390},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94342},
+																								pos:        position{line: 2982, col: 13, offset: 94390},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94349},
+																								pos:        position{line: 2982, col: 20, offset: 94397},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94358},
+																								pos:        position{line: 2982, col: 29, offset: 94406},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -50057,10 +50057,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 64, offset: 44552},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonInlinePassthrough44,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50071,25 +50071,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1408, col: 71, offset: 44559},
 																			expr: &actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonInlinePassthrough47,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50112,12 +50112,12 @@ var g = &grammar{
 																							pos: position{line: 1408, col: 86, offset: 44574},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94231},
+																									pos: position{line: 2977, col: 11, offset: 94279},
 																									run: (*parser).callonInlinePassthrough57,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94231},
+																										pos: position{line: 2977, col: 11, offset: 94279},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94231},
+																											pos:        position{line: 2977, col: 11, offset: 94279},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -50146,25 +50146,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1408, col: 151, offset: 44639},
 																						expr: &actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94341},
+																							pos: position{line: 2982, col: 12, offset: 94389},
 																							run: (*parser).callonInlinePassthrough64,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94342},
+																								pos: position{line: 2982, col: 13, offset: 94390},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94342},
+																										pos:        position{line: 2982, col: 13, offset: 94390},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94349},
+																										pos:        position{line: 2982, col: 20, offset: 94397},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94358},
+																										pos:        position{line: 2982, col: 29, offset: 94406},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50191,10 +50191,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1410, col: 12, offset: 44799},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94170},
+																				pos: position{line: 2973, col: 10, offset: 94218},
 																				run: (*parser).callonInlinePassthrough73,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94170},
+																					pos:        position{line: 2973, col: 10, offset: 94218},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50205,25 +50205,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1410, col: 19, offset: 44806},
 																			expr: &actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94341},
+																				pos: position{line: 2982, col: 12, offset: 94389},
 																				run: (*parser).callonInlinePassthrough76,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94342},
+																					pos: position{line: 2982, col: 13, offset: 94390},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94342},
+																							pos:        position{line: 2982, col: 13, offset: 94390},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94349},
+																							pos:        position{line: 2982, col: 20, offset: 94397},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94358},
+																							pos:        position{line: 2982, col: 29, offset: 94406},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50259,7 +50259,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1404, col: 100, offset: 44375},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 13, offset: 90118},
+														pos:        position{line: 2827, col: 13, offset: 90166},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50270,7 +50270,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2502, col: 57, offset: 80837},
+										pos:  position{line: 2502, col: 57, offset: 80885},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50282,16 +50282,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2507, col: 1, offset: 80897},
+			pos:  position{line: 2507, col: 1, offset: 80945},
 			expr: &seqExpr{
-				pos: position{line: 2509, col: 5, offset: 80973},
+				pos: position{line: 2509, col: 5, offset: 81021},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2509, col: 5, offset: 80973},
+						pos: position{line: 2509, col: 5, offset: 81021},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2512, col: 5, offset: 81038},
+						pos:  position{line: 2512, col: 5, offset: 81086},
 						name: "QuotedText",
 					},
 				},
@@ -50299,22 +50299,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2514, col: 1, offset: 81051},
+			pos:  position{line: 2514, col: 1, offset: 81099},
 			expr: &actionExpr{
-				pos: position{line: 2516, col: 5, offset: 81133},
+				pos: position{line: 2516, col: 5, offset: 81181},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2516, col: 5, offset: 81133},
+					pos: position{line: 2516, col: 5, offset: 81181},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2516, col: 5, offset: 81133},
+							pos: position{line: 2516, col: 5, offset: 81181},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2519, col: 5, offset: 81204},
+							pos:   position{line: 2519, col: 5, offset: 81252},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2520, col: 9, offset: 81222},
+								pos:  position{line: 2520, col: 9, offset: 81270},
 								name: "Symbol",
 							},
 						},
@@ -50324,103 +50324,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2578, col: 1, offset: 83046},
+			pos:  position{line: 2578, col: 1, offset: 83094},
 			expr: &choiceExpr{
-				pos: position{line: 2580, col: 5, offset: 83076},
+				pos: position{line: 2580, col: 5, offset: 83124},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2580, col: 5, offset: 83076},
+						pos: position{line: 2580, col: 5, offset: 83124},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2580, col: 5, offset: 83076},
+							pos: position{line: 2580, col: 5, offset: 83124},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2580, col: 5, offset: 83076},
+									pos:        position{line: 2580, col: 5, offset: 83124},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2580, col: 10, offset: 83081},
+									pos: position{line: 2580, col: 10, offset: 83129},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2580, col: 10, offset: 83081},
+											pos:  position{line: 2580, col: 10, offset: 83129},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 14, offset: 84179},
+											pos: position{line: 2609, col: 14, offset: 84227},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2609, col: 14, offset: 84179},
+												pos:        position{line: 2609, col: 14, offset: 84227},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 14, offset: 84245},
+											pos: position{line: 2613, col: 14, offset: 84293},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2613, col: 14, offset: 84245},
+												pos:        position{line: 2613, col: 14, offset: 84293},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2617, col: 15, offset: 84314},
+											pos: position{line: 2617, col: 15, offset: 84362},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2617, col: 15, offset: 84314},
+												pos:        position{line: 2617, col: 15, offset: 84362},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2621, col: 13, offset: 84379},
+											pos: position{line: 2621, col: 13, offset: 84427},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2621, col: 13, offset: 84379},
+												pos:        position{line: 2621, col: 13, offset: 84427},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2649, col: 21, offset: 84949},
+											pos: position{line: 2649, col: 21, offset: 84997},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2649, col: 21, offset: 84949},
+												pos:        position{line: 2649, col: 21, offset: 84997},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 5, offset: 84535},
+											pos: position{line: 2628, col: 5, offset: 84583},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2628, col: 5, offset: 84535},
+												pos: position{line: 2628, col: 5, offset: 84583},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 5, offset: 84535},
+														pos:        position{line: 2628, col: 5, offset: 84583},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2629, col: 5, offset: 84545},
+														pos: position{line: 2629, col: 5, offset: 84593},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2633, col: 6, offset: 84632},
+														pos: position{line: 2633, col: 6, offset: 84680},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94170},
+																pos: position{line: 2973, col: 10, offset: 94218},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94170},
+																	pos:        position{line: 2973, col: 10, offset: 94218},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50428,30 +50428,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2633, col: 14, offset: 84640},
+																pos: position{line: 2633, col: 14, offset: 84688},
 																expr: &choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94568},
+																	pos: position{line: 2995, col: 8, offset: 94616},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94341},
+																			pos: position{line: 2982, col: 12, offset: 94389},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94342},
+																				pos: position{line: 2982, col: 13, offset: 94390},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94342},
+																						pos:        position{line: 2982, col: 13, offset: 94390},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94349},
+																						pos:        position{line: 2982, col: 20, offset: 94397},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94358},
+																						pos:        position{line: 2982, col: 29, offset: 94406},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50460,9 +50460,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94518},
+																			pos: position{line: 2992, col: 8, offset: 94566},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94519,
+																				line: 2992, col: 9, offset: 94567,
 																			},
 																		},
 																	},
@@ -50474,53 +50474,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2638, col: 5, offset: 84760},
+											pos: position{line: 2638, col: 5, offset: 84808},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2638, col: 5, offset: 84760},
+												pos: position{line: 2638, col: 5, offset: 84808},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2638, col: 5, offset: 84760},
+														pos:        position{line: 2638, col: 5, offset: 84808},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2639, col: 5, offset: 84770},
+														pos: position{line: 2639, col: 5, offset: 84818},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2643, col: 5, offset: 84859},
+														pos: position{line: 2643, col: 5, offset: 84907},
 														expr: &choiceExpr{
-															pos: position{line: 2643, col: 7, offset: 84861},
+															pos: position{line: 2643, col: 7, offset: 84909},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2827, col: 13, offset: 90118},
+																	pos:        position{line: 2827, col: 13, offset: 90166},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94341},
+																	pos: position{line: 2982, col: 12, offset: 94389},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94342},
+																		pos: position{line: 2982, col: 13, offset: 94390},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94342},
+																				pos:        position{line: 2982, col: 13, offset: 94390},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94349},
+																				pos:        position{line: 2982, col: 20, offset: 94397},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94358},
+																				pos:        position{line: 2982, col: 29, offset: 94406},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50529,9 +50529,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -50541,30 +50541,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2653, col: 20, offset: 85019},
+											pos: position{line: 2653, col: 20, offset: 85067},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2653, col: 20, offset: 85019},
+												pos:        position{line: 2653, col: 20, offset: 85067},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2657, col: 21, offset: 85090},
+											pos: position{line: 2657, col: 21, offset: 85138},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2657, col: 21, offset: 85090},
+												pos:        position{line: 2657, col: 21, offset: 85138},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2661, col: 20, offset: 85160},
+											pos: position{line: 2661, col: 20, offset: 85208},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2661, col: 20, offset: 85160},
+												pos:        position{line: 2661, col: 20, offset: 85208},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50576,73 +50576,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2584, col: 7, offset: 83330},
+						pos:  position{line: 2584, col: 7, offset: 83378},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2609, col: 14, offset: 84179},
+						pos: position{line: 2609, col: 14, offset: 84227},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2609, col: 14, offset: 84179},
+							pos:        position{line: 2609, col: 14, offset: 84227},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2613, col: 14, offset: 84245},
+						pos: position{line: 2613, col: 14, offset: 84293},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2613, col: 14, offset: 84245},
+							pos:        position{line: 2613, col: 14, offset: 84293},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2617, col: 15, offset: 84314},
+						pos: position{line: 2617, col: 15, offset: 84362},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2617, col: 15, offset: 84314},
+							pos:        position{line: 2617, col: 15, offset: 84362},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2621, col: 13, offset: 84379},
+						pos: position{line: 2621, col: 13, offset: 84427},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2621, col: 13, offset: 84379},
+							pos:        position{line: 2621, col: 13, offset: 84427},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2628, col: 5, offset: 84535},
+						pos: position{line: 2628, col: 5, offset: 84583},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2628, col: 5, offset: 84535},
+							pos: position{line: 2628, col: 5, offset: 84583},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2628, col: 5, offset: 84535},
+									pos:        position{line: 2628, col: 5, offset: 84583},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2629, col: 5, offset: 84545},
+									pos: position{line: 2629, col: 5, offset: 84593},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2633, col: 6, offset: 84632},
+									pos: position{line: 2633, col: 6, offset: 84680},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94170},
+											pos: position{line: 2973, col: 10, offset: 94218},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94170},
+												pos:        position{line: 2973, col: 10, offset: 94218},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50650,30 +50650,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2633, col: 14, offset: 84640},
+											pos: position{line: 2633, col: 14, offset: 84688},
 											expr: &choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94568},
+												pos: position{line: 2995, col: 8, offset: 94616},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94341},
+														pos: position{line: 2982, col: 12, offset: 94389},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94342},
+															pos: position{line: 2982, col: 13, offset: 94390},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94342},
+																	pos:        position{line: 2982, col: 13, offset: 94390},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94349},
+																	pos:        position{line: 2982, col: 20, offset: 94397},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94358},
+																	pos:        position{line: 2982, col: 29, offset: 94406},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50682,9 +50682,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94518},
+														pos: position{line: 2992, col: 8, offset: 94566},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94519,
+															line: 2992, col: 9, offset: 94567,
 														},
 													},
 												},
@@ -50696,53 +50696,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2638, col: 5, offset: 84760},
+						pos: position{line: 2638, col: 5, offset: 84808},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2638, col: 5, offset: 84760},
+							pos: position{line: 2638, col: 5, offset: 84808},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2638, col: 5, offset: 84760},
+									pos:        position{line: 2638, col: 5, offset: 84808},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2639, col: 5, offset: 84770},
+									pos: position{line: 2639, col: 5, offset: 84818},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2643, col: 5, offset: 84859},
+									pos: position{line: 2643, col: 5, offset: 84907},
 									expr: &choiceExpr{
-										pos: position{line: 2643, col: 7, offset: 84861},
+										pos: position{line: 2643, col: 7, offset: 84909},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90118},
+												pos:        position{line: 2827, col: 13, offset: 90166},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94341},
+												pos: position{line: 2982, col: 12, offset: 94389},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94342},
+													pos: position{line: 2982, col: 13, offset: 94390},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94342},
+															pos:        position{line: 2982, col: 13, offset: 94390},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94349},
+															pos:        position{line: 2982, col: 20, offset: 94397},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94358},
+															pos:        position{line: 2982, col: 29, offset: 94406},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50751,9 +50751,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2992, col: 8, offset: 94518},
+												pos: position{line: 2992, col: 8, offset: 94566},
 												expr: &anyMatcher{
-													line: 2992, col: 9, offset: 94519,
+													line: 2992, col: 9, offset: 94567,
 												},
 											},
 										},
@@ -50763,40 +50763,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2649, col: 21, offset: 84949},
+						pos: position{line: 2649, col: 21, offset: 84997},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2649, col: 21, offset: 84949},
+							pos:        position{line: 2649, col: 21, offset: 84997},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2653, col: 20, offset: 85019},
+						pos: position{line: 2653, col: 20, offset: 85067},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2653, col: 20, offset: 85019},
+							pos:        position{line: 2653, col: 20, offset: 85067},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2657, col: 21, offset: 85090},
+						pos: position{line: 2657, col: 21, offset: 85138},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2657, col: 21, offset: 85090},
+							pos:        position{line: 2657, col: 21, offset: 85138},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2661, col: 20, offset: 85160},
+						pos: position{line: 2661, col: 20, offset: 85208},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2661, col: 20, offset: 85160},
+							pos:        position{line: 2661, col: 20, offset: 85208},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50807,24 +50807,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2595, col: 1, offset: 83520},
+			pos:  position{line: 2595, col: 1, offset: 83568},
 			expr: &choiceExpr{
-				pos: position{line: 2596, col: 5, offset: 83542},
+				pos: position{line: 2596, col: 5, offset: 83590},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2596, col: 5, offset: 83542},
+						pos: position{line: 2596, col: 5, offset: 83590},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 5, offset: 83542},
+							pos: position{line: 2596, col: 5, offset: 83590},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 5, offset: 83542},
+									pos:        position{line: 2596, col: 5, offset: 83590},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2596, col: 11, offset: 83548},
+									pos: position{line: 2596, col: 11, offset: 83596},
 									expr: &seqExpr{
 										pos: position{line: 2141, col: 5, offset: 69205},
 										exprs: []interface{}{
@@ -50857,21 +50857,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 7, offset: 83701},
+						pos: position{line: 2599, col: 7, offset: 83749},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2599, col: 7, offset: 83701},
+							pos: position{line: 2599, col: 7, offset: 83749},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2599, col: 7, offset: 83701},
+									pos:        position{line: 2599, col: 7, offset: 83749},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2599, col: 13, offset: 83707},
+									pos: position{line: 2599, col: 13, offset: 83755},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2599, col: 14, offset: 83708},
+										pos:  position{line: 2599, col: 14, offset: 83756},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50879,19 +50879,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 7, offset: 83858},
+						pos: position{line: 2602, col: 7, offset: 83906},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2602, col: 7, offset: 83858},
+							pos: position{line: 2602, col: 7, offset: 83906},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2602, col: 7, offset: 83858},
+									pos:        position{line: 2602, col: 7, offset: 83906},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2602, col: 12, offset: 83863},
+									pos: position{line: 2602, col: 12, offset: 83911},
 									expr: &seqExpr{
 										pos: position{line: 2141, col: 5, offset: 69205},
 										exprs: []interface{}{
@@ -50924,21 +50924,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 7, offset: 84016},
+						pos: position{line: 2605, col: 7, offset: 84064},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2605, col: 7, offset: 84016},
+							pos: position{line: 2605, col: 7, offset: 84064},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2605, col: 7, offset: 84016},
+									pos:        position{line: 2605, col: 7, offset: 84064},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2605, col: 12, offset: 84021},
+									pos: position{line: 2605, col: 12, offset: 84069},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2605, col: 13, offset: 84022},
+										pos:  position{line: 2605, col: 13, offset: 84070},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50950,63 +50950,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2738, col: 1, offset: 87062},
+			pos:  position{line: 2738, col: 1, offset: 87110},
 			expr: &actionExpr{
-				pos: position{line: 2738, col: 26, offset: 87087},
+				pos: position{line: 2738, col: 26, offset: 87135},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2738, col: 26, offset: 87087},
+					pos: position{line: 2738, col: 26, offset: 87135},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2738, col: 26, offset: 87087},
+							pos:   position{line: 2738, col: 26, offset: 87135},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2738, col: 31, offset: 87092},
+								pos: position{line: 2738, col: 31, offset: 87140},
 								expr: &actionExpr{
-									pos: position{line: 2743, col: 5, offset: 87155},
+									pos: position{line: 2743, col: 5, offset: 87203},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2743, col: 5, offset: 87155},
+										pos: position{line: 2743, col: 5, offset: 87203},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94504},
+												pos: position{line: 2990, col: 11, offset: 94552},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94506,
+													line: 2990, col: 13, offset: 94554,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87281},
+												pos:   position{line: 2746, col: 5, offset: 87329},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 16, offset: 87292},
+													pos: position{line: 2746, col: 16, offset: 87340},
 													expr: &actionExpr{
-														pos: position{line: 2746, col: 17, offset: 87293},
+														pos: position{line: 2746, col: 17, offset: 87341},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2746, col: 17, offset: 87293},
+															pos: position{line: 2746, col: 17, offset: 87341},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2746, col: 17, offset: 87293},
+																	pos:   position{line: 2746, col: 17, offset: 87341},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2965, col: 12, offset: 93997},
+																		pos: position{line: 2965, col: 12, offset: 94045},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2965, col: 13, offset: 93998},
+																			pos: position{line: 2965, col: 13, offset: 94046},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2965, col: 13, offset: 93998},
+																					pos: position{line: 2965, col: 13, offset: 94046},
 																					expr: &litMatcher{
-																						pos:        position{line: 2965, col: 13, offset: 93998},
+																						pos:        position{line: 2965, col: 13, offset: 94046},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2965, col: 18, offset: 94003},
+																					pos: position{line: 2965, col: 18, offset: 94051},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2965, col: 18, offset: 94003},
+																						pos:        position{line: 2965, col: 18, offset: 94051},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -51018,7 +51018,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2746, col: 27, offset: 87303},
+																	pos:        position{line: 2746, col: 27, offset: 87351},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -51029,38 +51029,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87331},
+												pos:   position{line: 2747, col: 5, offset: 87379},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 12, offset: 87338},
+													pos: position{line: 2747, col: 12, offset: 87386},
 													expr: &choiceExpr{
-														pos: position{line: 2748, col: 9, offset: 87348},
+														pos: position{line: 2748, col: 9, offset: 87396},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2748, col: 9, offset: 87348},
+																pos: position{line: 2748, col: 9, offset: 87396},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2748, col: 9, offset: 87348},
+																	pos:        position{line: 2748, col: 9, offset: 87396},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2749, col: 11, offset: 87395},
+																pos: position{line: 2749, col: 11, offset: 87443},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2749, col: 11, offset: 87395},
+																	pos:        position{line: 2749, col: 11, offset: 87443},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2750, col: 11, offset: 87443},
+																pos: position{line: 2750, col: 11, offset: 87491},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2750, col: 11, offset: 87443},
+																	pos:        position{line: 2750, col: 11, offset: 87491},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -51071,38 +51071,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2752, col: 5, offset: 87493},
+												pos:   position{line: 2752, col: 5, offset: 87541},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2752, col: 12, offset: 87500},
+													pos: position{line: 2752, col: 12, offset: 87548},
 													expr: &choiceExpr{
-														pos: position{line: 2753, col: 9, offset: 87510},
+														pos: position{line: 2753, col: 9, offset: 87558},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2753, col: 9, offset: 87510},
+																pos: position{line: 2753, col: 9, offset: 87558},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2753, col: 9, offset: 87510},
+																	pos:        position{line: 2753, col: 9, offset: 87558},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2754, col: 11, offset: 87557},
+																pos: position{line: 2754, col: 11, offset: 87605},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2754, col: 11, offset: 87557},
+																	pos:        position{line: 2754, col: 11, offset: 87605},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2755, col: 11, offset: 87607},
+																pos: position{line: 2755, col: 11, offset: 87655},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2755, col: 11, offset: 87607},
+																	pos:        position{line: 2755, col: 11, offset: 87655},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -51113,32 +51113,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2757, col: 5, offset: 87658},
+												pos:   position{line: 2757, col: 5, offset: 87706},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2757, col: 12, offset: 87665},
+													pos: position{line: 2757, col: 12, offset: 87713},
 													expr: &choiceExpr{
-														pos: position{line: 2757, col: 13, offset: 87666},
+														pos: position{line: 2757, col: 13, offset: 87714},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 93997},
+																pos: position{line: 2965, col: 12, offset: 94045},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 93998},
+																	pos: position{line: 2965, col: 13, offset: 94046},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 93998},
+																			pos: position{line: 2965, col: 13, offset: 94046},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 93998},
+																				pos:        position{line: 2965, col: 13, offset: 94046},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94003},
+																			pos: position{line: 2965, col: 18, offset: 94051},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94003},
+																				pos:        position{line: 2965, col: 18, offset: 94051},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -51149,10 +51149,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2757, col: 24, offset: 87677},
+																pos: position{line: 2757, col: 24, offset: 87725},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2757, col: 24, offset: 87677},
+																	pos:        position{line: 2757, col: 24, offset: 87725},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -51163,15 +51163,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87719},
+												pos:   position{line: 2758, col: 5, offset: 87767},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 11, offset: 87725},
+													pos: position{line: 2758, col: 11, offset: 87773},
 													expr: &actionExpr{
-														pos: position{line: 2758, col: 12, offset: 87726},
+														pos: position{line: 2758, col: 12, offset: 87774},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2758, col: 12, offset: 87726},
+															pos:        position{line: 2758, col: 12, offset: 87774},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -51181,12 +51181,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2760, col: 5, offset: 87856},
+												pos:   position{line: 2760, col: 5, offset: 87904},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2760, col: 11, offset: 87862},
+													pos: position{line: 2760, col: 11, offset: 87910},
 													expr: &litMatcher{
-														pos:        position{line: 2760, col: 12, offset: 87863},
+														pos:        position{line: 2760, col: 12, offset: 87911},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51194,7 +51194,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2761, col: 5, offset: 87873},
+												pos: position{line: 2761, col: 5, offset: 87921},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51203,9 +51203,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94518},
+							pos: position{line: 2992, col: 8, offset: 94566},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94519,
+								line: 2992, col: 9, offset: 94567,
 							},
 						},
 					},
@@ -51214,23 +51214,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2788, col: 1, offset: 88882},
+			pos:  position{line: 2788, col: 1, offset: 88930},
 			expr: &actionExpr{
-				pos: position{line: 2789, col: 5, offset: 88905},
+				pos: position{line: 2789, col: 5, offset: 88953},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2789, col: 5, offset: 88905},
+					pos: position{line: 2789, col: 5, offset: 88953},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2789, col: 5, offset: 88905},
+							pos:   position{line: 2789, col: 5, offset: 88953},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2812, col: 18, offset: 89651},
+								pos: position{line: 2812, col: 18, offset: 89699},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2812, col: 19, offset: 89652},
+									pos: position{line: 2812, col: 19, offset: 89700},
 									expr: &charClassMatcher{
-										pos:        position{line: 2812, col: 19, offset: 89652},
+										pos:        position{line: 2812, col: 19, offset: 89700},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51241,39 +51241,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2790, col: 5, offset: 88931},
+							pos: position{line: 2790, col: 5, offset: 88979},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2794, col: 5, offset: 89059},
+							pos:        position{line: 2794, col: 5, offset: 89107},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2795, col: 5, offset: 89069},
+							pos:   position{line: 2795, col: 5, offset: 89117},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 24, offset: 89813},
+								pos: position{line: 2820, col: 24, offset: 89861},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2820, col: 24, offset: 89813},
+									pos: position{line: 2820, col: 24, offset: 89861},
 									expr: &seqExpr{
-										pos: position{line: 2820, col: 25, offset: 89814},
+										pos: position{line: 2820, col: 25, offset: 89862},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2820, col: 25, offset: 89814},
+												pos: position{line: 2820, col: 25, offset: 89862},
 												expr: &litMatcher{
-													pos:        position{line: 2820, col: 26, offset: 89815},
+													pos:        position{line: 2820, col: 26, offset: 89863},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2820, col: 30, offset: 89819},
+												pos: position{line: 2820, col: 30, offset: 89867},
 												expr: &charClassMatcher{
-													pos:        position{line: 2820, col: 30, offset: 89819},
+													pos:        position{line: 2820, col: 30, offset: 89867},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51281,23 +51281,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2820, col: 41, offset: 89830},
+												pos: position{line: 2820, col: 41, offset: 89878},
 												expr: &seqExpr{
-													pos: position{line: 2820, col: 42, offset: 89831},
+													pos: position{line: 2820, col: 42, offset: 89879},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2820, col: 42, offset: 89831},
+															pos: position{line: 2820, col: 42, offset: 89879},
 															expr: &litMatcher{
-																pos:        position{line: 2820, col: 42, offset: 89831},
+																pos:        position{line: 2820, col: 42, offset: 89879},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2820, col: 47, offset: 89836},
+															pos: position{line: 2820, col: 47, offset: 89884},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 47, offset: 89836},
+																pos:        position{line: 2820, col: 47, offset: 89884},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51313,36 +51313,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89102},
+							pos:   position{line: 2796, col: 5, offset: 89150},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2796, col: 17, offset: 89114},
+								pos:  position{line: 2796, col: 17, offset: 89162},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94568},
+							pos: position{line: 2995, col: 8, offset: 94616},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94341},
+									pos: position{line: 2982, col: 12, offset: 94389},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94342},
+										pos: position{line: 2982, col: 13, offset: 94390},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94342},
+												pos:        position{line: 2982, col: 13, offset: 94390},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94349},
+												pos:        position{line: 2982, col: 20, offset: 94397},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94358},
+												pos:        position{line: 2982, col: 29, offset: 94406},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51351,9 +51351,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94518},
+									pos: position{line: 2992, col: 8, offset: 94566},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94519,
+										line: 2992, col: 9, offset: 94567,
 									},
 								},
 							},
@@ -51364,23 +51364,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2800, col: 1, offset: 89262},
+			pos:  position{line: 2800, col: 1, offset: 89310},
 			expr: &actionExpr{
-				pos: position{line: 2801, col: 5, offset: 89286},
+				pos: position{line: 2801, col: 5, offset: 89334},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2801, col: 5, offset: 89286},
+					pos: position{line: 2801, col: 5, offset: 89334},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2801, col: 5, offset: 89286},
+							pos:   position{line: 2801, col: 5, offset: 89334},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2812, col: 18, offset: 89651},
+								pos: position{line: 2812, col: 18, offset: 89699},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2812, col: 19, offset: 89652},
+									pos: position{line: 2812, col: 19, offset: 89700},
 									expr: &charClassMatcher{
-										pos:        position{line: 2812, col: 19, offset: 89652},
+										pos:        position{line: 2812, col: 19, offset: 89700},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51391,39 +51391,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2802, col: 5, offset: 89312},
+							pos: position{line: 2802, col: 5, offset: 89360},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2806, col: 5, offset: 89440},
+							pos:        position{line: 2806, col: 5, offset: 89488},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2807, col: 5, offset: 89449},
+							pos:   position{line: 2807, col: 5, offset: 89497},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2816, col: 19, offset: 89727},
+								pos: position{line: 2816, col: 19, offset: 89775},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2816, col: 19, offset: 89727},
+									pos: position{line: 2816, col: 19, offset: 89775},
 									expr: &seqExpr{
-										pos: position{line: 2816, col: 20, offset: 89728},
+										pos: position{line: 2816, col: 20, offset: 89776},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2816, col: 20, offset: 89728},
+												pos: position{line: 2816, col: 20, offset: 89776},
 												expr: &litMatcher{
-													pos:        position{line: 2816, col: 21, offset: 89729},
+													pos:        position{line: 2816, col: 21, offset: 89777},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2816, col: 25, offset: 89733},
+												pos: position{line: 2816, col: 25, offset: 89781},
 												expr: &charClassMatcher{
-													pos:        position{line: 2816, col: 25, offset: 89733},
+													pos:        position{line: 2816, col: 25, offset: 89781},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51436,10 +51436,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2808, col: 5, offset: 89477},
+							pos:   position{line: 2808, col: 5, offset: 89525},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2808, col: 17, offset: 89489},
+								pos:  position{line: 2808, col: 17, offset: 89537},
 								name: "InlineAttributes",
 							},
 						},
@@ -51449,43 +51449,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2900, col: 1, offset: 91978},
+			pos:  position{line: 2900, col: 1, offset: 92026},
 			expr: &actionExpr{
-				pos: position{line: 2900, col: 17, offset: 91994},
+				pos: position{line: 2900, col: 17, offset: 92042},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2900, col: 17, offset: 91994},
+					pos:   position{line: 2900, col: 17, offset: 92042},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2921, col: 5, offset: 92579},
+						pos: position{line: 2921, col: 5, offset: 92627},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2921, col: 5, offset: 92579},
+							pos:   position{line: 2921, col: 5, offset: 92627},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2921, col: 14, offset: 92588},
+								pos: position{line: 2921, col: 14, offset: 92636},
 								expr: &choiceExpr{
-									pos: position{line: 2922, col: 9, offset: 92598},
+									pos: position{line: 2922, col: 9, offset: 92646},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 9, offset: 92598},
+											pos: position{line: 2922, col: 9, offset: 92646},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2922, col: 9, offset: 92598},
+												pos: position{line: 2922, col: 9, offset: 92646},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2922, col: 9, offset: 92598},
+														pos: position{line: 2922, col: 9, offset: 92646},
 														expr: &litMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92599},
+															pos:        position{line: 2922, col: 10, offset: 92647},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2923, col: 9, offset: 92627},
+														pos: position{line: 2923, col: 9, offset: 92675},
 														expr: &charClassMatcher{
-															pos:        position{line: 2923, col: 10, offset: 92628},
+															pos:        position{line: 2923, col: 10, offset: 92676},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51496,27 +51496,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2926, col: 11, offset: 92840},
+											pos: position{line: 2926, col: 11, offset: 92888},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2926, col: 11, offset: 92840},
+													pos:        position{line: 2926, col: 11, offset: 92888},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2926, col: 19, offset: 92848},
+													pos: position{line: 2926, col: 19, offset: 92896},
 													expr: &seqExpr{
-														pos: position{line: 2926, col: 21, offset: 92850},
+														pos: position{line: 2926, col: 21, offset: 92898},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2926, col: 21, offset: 92850},
+																pos: position{line: 2926, col: 21, offset: 92898},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94170},
+																	pos: position{line: 2973, col: 10, offset: 94218},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94170},
+																		pos:        position{line: 2973, col: 10, offset: 94218},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51525,11 +51525,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2926, col: 28, offset: 92857},
+																pos: position{line: 2926, col: 28, offset: 92905},
 																expr: &notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94518},
+																	pos: position{line: 2992, col: 8, offset: 94566},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94519,
+																		line: 2992, col: 9, offset: 94567,
 																	},
 																},
 															},
@@ -51924,10 +51924,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2929, col: 11, offset: 92977},
+											pos: position{line: 2929, col: 11, offset: 93025},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2929, col: 11, offset: 92977},
+												pos:        position{line: 2929, col: 11, offset: 93025},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index feab4b1..2a9ff1e 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2480,8 +2480,8 @@ InlineMacro <-
     element:(
         InlineIcon
         / InlineImage 
+        / InlinePassthrough // must be before Link (because of EmailAddress)
         / Link 
-        / InlinePassthrough 
         / InlineFootnote 
         / CrossReference 
         / InlineUserMacro 
-- 
2.43.0


From 4939b1c48675e4c5333818242cedaa2b9c733ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:08 +0000
Subject: [PATCH 114/117] fix: accept lists, dates and mappings in the front
 matter

---
 pkg/types/types.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 78dd3a9..c3edd40 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -806,6 +806,14 @@ func NewYamlFrontMatter(content string) (*FrontMatter, error) {
 	if err := yaml.Unmarshal([]byte(content), &attributes); err != nil {
 		return nil, errors.Wrapf(err, "failed to parse the yaml content in the front-matter block")
 	}
+	for k, v := range attributes {
+		if v, ok := frontMatterValue(v); ok {
+			attributes[k] = v
+		} else {
+			log.Warnf("ignoring '%s' in the front-matter block: not a value for an attribute", k)
+			delete(attributes, k)
+		}
+	}
 	if len(attributes) == 0 {
 		attributes = nil
 	}
@@ -815,6 +823,31 @@ func NewYamlFrontMatter(content string) (*FrontMatter, error) {
 	}, nil
 }
 
+// frontMatterValue returns the given value of the front-matter as the value of an attribute: lists are converted into
+// text, and mappings are not supported
+func frontMatterValue(value interface{}) (interface{}, bool) {
+	switch value := value.(type) {
+	case nil, string, bool, int, float64:
+		return value, true
+	case []interface{}:
+		items := make([]string, len(value))
+		for i, item := range value {
+			v, ok := frontMatterValue(item)
+			if !ok {
+				return nil, false
+			}
+			if v != nil {
+				items[i] = fmt.Sprint(v)
+			}
+		}
+		return strings.Join(items, ", "), true
+	case map[interface{}]interface{}:
+		return nil, false
+	default:
+		return fmt.Sprint(value), true
+	}
+}
+
 // ------------------------------------------
 // Lists
 // ------------------------------------------
-- 
2.43.0


From 43993cba33c5a38c938b8159d955f216d6b8e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:15 +0000
Subject: [PATCH 115/117] fix: keep the formatted titles of images in the cross
 references to them

---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index c3edd40..74a2c7f 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2184,8 +2184,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
+	title := i.Attributes[AttrTitle]
+	if id != "" && title != nil {
 		refs[id] = title
 	}
 }
-- 
2.43.0


From 2010af80bd673f9ad5802698dce0b00f522c5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:43 +0000
Subject: [PATCH 116/117] fix: format the text of index terms as any other

---
 pkg/parser/parser.go  | 13435 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    18 +-
 2 files changed, 6826 insertions(+), 6627 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index e87511e..ce37b58 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 94045},
+																pos: position{line: 2975, col: 12, offset: 94351},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 94046},
+																	pos: position{line: 2975, col: 13, offset: 94352},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 94046},
+																			pos: position{line: 2975, col: 13, offset: 94352},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 94046},
+																				pos:        position{line: 2975, col: 13, offset: 94352},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94051},
+																			pos: position{line: 2975, col: 18, offset: 94357},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94051},
+																				pos:        position{line: 2975, col: 18, offset: 94357},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 94045},
+																pos: position{line: 2975, col: 12, offset: 94351},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 94046},
+																	pos: position{line: 2975, col: 13, offset: 94352},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 94046},
+																			pos: position{line: 2975, col: 13, offset: 94352},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 94046},
+																				pos:        position{line: 2975, col: 13, offset: 94352},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94051},
+																			pos: position{line: 2975, col: 18, offset: 94357},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94051},
+																				pos:        position{line: 2975, col: 18, offset: 94357},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 744, col: 5, offset: 23707},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 13, offset: 90166},
+														pos:        position{line: 2837, col: 13, offset: 90472},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 762, col: 8, offset: 24351},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 769, col: 8, offset: 24599},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 780, col: 52, offset: 25011},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 776, col: 8, offset: 24845},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25383},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25859},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 812, col: 8, offset: 26111},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 819, col: 8, offset: 26361},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 826, col: 8, offset: 26607},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2977, col: 11, offset: 94279},
+													pos: position{line: 2987, col: 11, offset: 94585},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2977, col: 11, offset: 94279},
+														pos: position{line: 2987, col: 11, offset: 94585},
 														expr: &charClassMatcher{
-															pos:        position{line: 2977, col: 11, offset: 94279},
+															pos:        position{line: 2987, col: 11, offset: 94585},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2896, col: 14, offset: 91972},
+													pos: position{line: 2906, col: 14, offset: 92278},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2896, col: 14, offset: 91972},
+														pos: position{line: 2906, col: 14, offset: 92278},
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 14, offset: 91972},
+															pos:        position{line: 2906, col: 14, offset: 92278},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2900, col: 17, offset: 92042},
+												pos: position{line: 2910, col: 17, offset: 92348},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2900, col: 17, offset: 92042},
+													pos:   position{line: 2910, col: 17, offset: 92348},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2965, col: 12, offset: 94045},
+																				pos: position{line: 2975, col: 12, offset: 94351},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2965, col: 13, offset: 94046},
+																					pos: position{line: 2975, col: 13, offset: 94352},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2965, col: 13, offset: 94046},
+																							pos: position{line: 2975, col: 13, offset: 94352},
 																							expr: &litMatcher{
-																								pos:        position{line: 2965, col: 13, offset: 94046},
+																								pos:        position{line: 2975, col: 13, offset: 94352},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2965, col: 18, offset: 94051},
+																							pos: position{line: 2975, col: 18, offset: 94357},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2965, col: 18, offset: 94051},
+																								pos:        position{line: 2975, col: 18, offset: 94357},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2965, col: 12, offset: 94045},
+																				pos: position{line: 2975, col: 12, offset: 94351},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2965, col: 13, offset: 94046},
+																					pos: position{line: 2975, col: 13, offset: 94352},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2965, col: 13, offset: 94046},
+																							pos: position{line: 2975, col: 13, offset: 94352},
 																							expr: &litMatcher{
-																								pos:        position{line: 2965, col: 13, offset: 94046},
+																								pos:        position{line: 2975, col: 13, offset: 94352},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2965, col: 18, offset: 94051},
+																							pos: position{line: 2975, col: 18, offset: 94357},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2965, col: 18, offset: 94051},
+																								pos:        position{line: 2975, col: 18, offset: 94357},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2965, col: 12, offset: 94045},
+																		pos: position{line: 2975, col: 12, offset: 94351},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2965, col: 13, offset: 94046},
+																			pos: position{line: 2975, col: 13, offset: 94352},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2965, col: 13, offset: 94046},
+																					pos: position{line: 2975, col: 13, offset: 94352},
 																					expr: &litMatcher{
-																						pos:        position{line: 2965, col: 13, offset: 94046},
+																						pos:        position{line: 2975, col: 13, offset: 94352},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2965, col: 18, offset: 94051},
+																					pos: position{line: 2975, col: 18, offset: 94357},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2965, col: 18, offset: 94051},
+																						pos:        position{line: 2975, col: 18, offset: 94357},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2965, col: 12, offset: 94045},
+																									pos: position{line: 2975, col: 12, offset: 94351},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2965, col: 13, offset: 94046},
+																										pos: position{line: 2975, col: 13, offset: 94352},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2965, col: 13, offset: 94046},
+																												pos: position{line: 2975, col: 13, offset: 94352},
 																												expr: &litMatcher{
-																													pos:        position{line: 2965, col: 13, offset: 94046},
+																													pos:        position{line: 2975, col: 13, offset: 94352},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2965, col: 18, offset: 94051},
+																												pos: position{line: 2975, col: 18, offset: 94357},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2965, col: 18, offset: 94051},
+																													pos:        position{line: 2975, col: 18, offset: 94357},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2965, col: 12, offset: 94045},
+																									pos: position{line: 2975, col: 12, offset: 94351},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2965, col: 13, offset: 94046},
+																										pos: position{line: 2975, col: 13, offset: 94352},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2965, col: 13, offset: 94046},
+																												pos: position{line: 2975, col: 13, offset: 94352},
 																												expr: &litMatcher{
-																													pos:        position{line: 2965, col: 13, offset: 94046},
+																													pos:        position{line: 2975, col: 13, offset: 94352},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2965, col: 18, offset: 94051},
+																												pos: position{line: 2975, col: 18, offset: 94357},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2965, col: 18, offset: 94051},
+																													pos:        position{line: 2975, col: 18, offset: 94357},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2965, col: 12, offset: 94045},
+																							pos: position{line: 2975, col: 12, offset: 94351},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2965, col: 13, offset: 94046},
+																								pos: position{line: 2975, col: 13, offset: 94352},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2965, col: 13, offset: 94046},
+																										pos: position{line: 2975, col: 13, offset: 94352},
 																										expr: &litMatcher{
-																											pos:        position{line: 2965, col: 13, offset: 94046},
+																											pos:        position{line: 2975, col: 13, offset: 94352},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2965, col: 18, offset: 94051},
+																										pos: position{line: 2975, col: 18, offset: 94357},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2965, col: 18, offset: 94051},
+																											pos:        position{line: 2975, col: 18, offset: 94357},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2965, col: 12, offset: 94045},
+														pos: position{line: 2975, col: 12, offset: 94351},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2965, col: 13, offset: 94046},
+															pos: position{line: 2975, col: 13, offset: 94352},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2965, col: 13, offset: 94046},
+																	pos: position{line: 2975, col: 13, offset: 94352},
 																	expr: &litMatcher{
-																		pos:        position{line: 2965, col: 13, offset: 94046},
+																		pos:        position{line: 2975, col: 13, offset: 94352},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2965, col: 18, offset: 94051},
+																	pos: position{line: 2975, col: 18, offset: 94357},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2965, col: 18, offset: 94051},
+																		pos:        position{line: 2975, col: 18, offset: 94357},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2965, col: 12, offset: 94045},
+														pos: position{line: 2975, col: 12, offset: 94351},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2965, col: 13, offset: 94046},
+															pos: position{line: 2975, col: 13, offset: 94352},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2965, col: 13, offset: 94046},
+																	pos: position{line: 2975, col: 13, offset: 94352},
 																	expr: &litMatcher{
-																		pos:        position{line: 2965, col: 13, offset: 94046},
+																		pos:        position{line: 2975, col: 13, offset: 94352},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2965, col: 18, offset: 94051},
+																	pos: position{line: 2975, col: 18, offset: 94357},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2965, col: 18, offset: 94051},
+																		pos:        position{line: 2975, col: 18, offset: 94357},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2965, col: 12, offset: 94045},
+												pos: position{line: 2975, col: 12, offset: 94351},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2965, col: 13, offset: 94046},
+													pos: position{line: 2975, col: 13, offset: 94352},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2965, col: 13, offset: 94046},
+															pos: position{line: 2975, col: 13, offset: 94352},
 															expr: &litMatcher{
-																pos:        position{line: 2965, col: 13, offset: 94046},
+																pos:        position{line: 2975, col: 13, offset: 94352},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2965, col: 18, offset: 94051},
+															pos: position{line: 2975, col: 18, offset: 94357},
 															expr: &charClassMatcher{
-																pos:        position{line: 2965, col: 18, offset: 94051},
+																pos:        position{line: 2975, col: 18, offset: 94357},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2831, col: 14, offset: 90240},
+																		pos: position{line: 2841, col: 14, offset: 90546},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2831, col: 14, offset: 90240},
+																			pos: position{line: 2841, col: 14, offset: 90546},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2831, col: 14, offset: 90240},
+																				pos:        position{line: 2841, col: 14, offset: 90546},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2831, col: 14, offset: 90240},
+																				pos: position{line: 2841, col: 14, offset: 90546},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2831, col: 14, offset: 90240},
+																					pos: position{line: 2841, col: 14, offset: 90546},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2831, col: 14, offset: 90240},
+																						pos:        position{line: 2841, col: 14, offset: 90546},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2831, col: 14, offset: 90240},
+																							pos: position{line: 2841, col: 14, offset: 90546},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2831, col: 14, offset: 90240},
+																								pos: position{line: 2841, col: 14, offset: 90546},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2831, col: 14, offset: 90240},
+																									pos:        position{line: 2841, col: 14, offset: 90546},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2831, col: 14, offset: 90240},
+																									pos: position{line: 2841, col: 14, offset: 90546},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2831, col: 14, offset: 90240},
+																										pos: position{line: 2841, col: 14, offset: 90546},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2831, col: 14, offset: 90240},
+																											pos:        position{line: 2841, col: 14, offset: 90546},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2831, col: 14, offset: 90240},
+																pos: position{line: 2841, col: 14, offset: 90546},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2831, col: 14, offset: 90240},
+																	pos: position{line: 2841, col: 14, offset: 90546},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2831, col: 14, offset: 90240},
+																		pos:        position{line: 2841, col: 14, offset: 90546},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2831, col: 14, offset: 90240},
+																pos: position{line: 2841, col: 14, offset: 90546},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2831, col: 14, offset: 90240},
+																	pos: position{line: 2841, col: 14, offset: 90546},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2831, col: 14, offset: 90240},
+																		pos:        position{line: 2841, col: 14, offset: 90546},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 697, col: 14, offset: 22135},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2990, col: 11, offset: 94552},
+														pos: position{line: 3000, col: 11, offset: 94858},
 														expr: &anyMatcher{
-															line: 2990, col: 13, offset: 94554,
+															line: 3000, col: 13, offset: 94860,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 697, col: 21, offset: 22142},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -4768,10 +4768,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonDocumentFragment158,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -4780,28 +4780,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment161,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4810,9 +4810,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -4828,9 +4828,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -4885,10 +4885,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 769, col: 8, offset: 24599},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment183,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4897,28 +4897,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment186,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4927,9 +4927,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -5001,10 +5001,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 769, col: 8, offset: 24599},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment211,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5013,28 +5013,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment214,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5043,9 +5043,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -5061,9 +5061,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -5079,21 +5079,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment230,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5103,28 +5103,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment234,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5133,9 +5133,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -5200,10 +5200,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment255,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5212,28 +5212,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment258,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5242,9 +5242,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -5260,9 +5260,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -5314,10 +5314,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 780, col: 52, offset: 25011},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment279,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5326,28 +5326,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment282,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5356,9 +5356,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -5392,10 +5392,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 991, col: 40, offset: 31020},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonDocumentFragment297,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5404,28 +5404,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentFragment300,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5434,9 +5434,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -5454,21 +5454,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment313,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5478,28 +5478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment317,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5508,9 +5508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -5538,10 +5538,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 991, col: 40, offset: 31020},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonDocumentFragment328,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5550,28 +5550,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonDocumentFragment331,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5580,9 +5580,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -5639,10 +5639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 776, col: 8, offset: 24845},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment350,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5651,28 +5651,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5681,9 +5681,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -5755,10 +5755,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 776, col: 8, offset: 24845},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment378,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5767,28 +5767,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment381,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5797,9 +5797,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -5815,9 +5815,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -5833,21 +5833,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment397,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5857,28 +5857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment401,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5887,9 +5887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -5954,10 +5954,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment422,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5966,28 +5966,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment425,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5996,9 +5996,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -6014,9 +6014,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -6072,10 +6072,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25383},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment447,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6084,28 +6084,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment450,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6114,9 +6114,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -6188,10 +6188,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25383},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment475,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6200,28 +6200,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment478,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6230,9 +6230,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -6248,9 +6248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -6266,21 +6266,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment494,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6290,28 +6290,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment498,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6320,9 +6320,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -6387,10 +6387,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment519,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6399,28 +6399,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment522,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6429,9 +6429,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -6447,9 +6447,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -6505,10 +6505,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25859},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment544,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6517,28 +6517,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment547,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6547,9 +6547,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -6621,10 +6621,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25859},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment572,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6633,28 +6633,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment575,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6663,9 +6663,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -6681,9 +6681,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -6699,21 +6699,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment591,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6723,28 +6723,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment595,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6753,9 +6753,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -6820,10 +6820,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment616,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6832,28 +6832,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment619,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6862,9 +6862,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -6880,9 +6880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -6916,18 +6916,18 @@ var g = &grammar{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 697, col: 21, offset: 22142},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonDocumentFragment640,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6936,28 +6936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentFragment643,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6966,9 +6966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -6987,12 +6987,12 @@ var g = &grammar{
 																		pos:   position{line: 1012, col: 5, offset: 31555},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91972},
+																			pos: position{line: 2906, col: 14, offset: 92278},
 																			run: (*parser).callonDocumentFragment652,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91972},
+																				pos: position{line: 2906, col: 14, offset: 92278},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91972},
+																					pos:        position{line: 2906, col: 14, offset: 92278},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7002,28 +7002,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment656,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7032,9 +7032,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -7066,18 +7066,18 @@ var g = &grammar{
 																							pos: position{line: 697, col: 14, offset: 22135},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2990, col: 11, offset: 94552},
+																									pos: position{line: 3000, col: 11, offset: 94858},
 																									expr: &anyMatcher{
-																										line: 2990, col: 13, offset: 94554,
+																										line: 3000, col: 13, offset: 94860,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 697, col: 21, offset: 22142},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonDocumentFragment674,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7086,28 +7086,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonDocumentFragment677,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7116,9 +7116,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -7137,12 +7137,12 @@ var g = &grammar{
 																					pos:   position{line: 1012, col: 5, offset: 31555},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 14, offset: 91972},
+																						pos: position{line: 2906, col: 14, offset: 92278},
 																						run: (*parser).callonDocumentFragment686,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2896, col: 14, offset: 91972},
+																							pos: position{line: 2906, col: 14, offset: 92278},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 14, offset: 91972},
+																								pos:        position{line: 2906, col: 14, offset: 92278},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7152,28 +7152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonDocumentFragment690,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7182,9 +7182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -7193,21 +7193,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1838, col: 5, offset: 59371},
+																		pos: position{line: 1848, col: 5, offset: 59677},
 																		run: (*parser).callonDocumentFragment697,
 																		expr: &seqExpr{
-																			pos: position{line: 1838, col: 5, offset: 59371},
+																			pos: position{line: 1848, col: 5, offset: 59677},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1838, col: 5, offset: 59371},
+																					pos:   position{line: 1848, col: 5, offset: 59677},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 14, offset: 91972},
+																						pos: position{line: 2906, col: 14, offset: 92278},
 																						run: (*parser).callonDocumentFragment700,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2896, col: 14, offset: 91972},
+																							pos: position{line: 2906, col: 14, offset: 92278},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 14, offset: 91972},
+																								pos:        position{line: 2906, col: 14, offset: 92278},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7217,32 +7217,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1839, col: 5, offset: 59395},
+																					pos: position{line: 1849, col: 5, offset: 59701},
 																					run: (*parser).callonDocumentFragment703,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonDocumentFragment705,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7251,9 +7251,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -7300,10 +7300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment721,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7312,28 +7312,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment724,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7342,9 +7342,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -7392,10 +7392,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 798, col: 8, offset: 25614},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonDocumentFragment743,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7404,28 +7404,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonDocumentFragment746,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7434,9 +7434,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -7445,9 +7445,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -7463,21 +7463,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment761,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7487,28 +7487,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment765,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7517,9 +7517,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -7564,10 +7564,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 798, col: 8, offset: 25614},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonDocumentFragment781,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7576,28 +7576,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonDocumentFragment784,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7606,9 +7606,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -7617,9 +7617,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -7675,10 +7675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 812, col: 8, offset: 26111},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment805,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7687,28 +7687,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment808,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7717,9 +7717,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -7791,10 +7791,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 812, col: 8, offset: 26111},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment833,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7803,28 +7803,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment836,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7833,9 +7833,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -7851,9 +7851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -7869,21 +7869,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment852,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7893,28 +7893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment856,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7923,9 +7923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -7990,10 +7990,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment877,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8002,28 +8002,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment880,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8032,9 +8032,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -8050,9 +8050,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -8108,10 +8108,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 819, col: 8, offset: 26361},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment902,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8120,28 +8120,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment905,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8150,9 +8150,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -8224,10 +8224,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 819, col: 8, offset: 26361},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment930,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8236,28 +8236,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment933,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8266,9 +8266,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -8284,9 +8284,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -8302,21 +8302,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment949,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8326,28 +8326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment953,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8356,9 +8356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -8423,10 +8423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment974,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8435,28 +8435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment977,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8465,9 +8465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -8483,9 +8483,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -8541,10 +8541,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 826, col: 8, offset: 26607},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment999,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8553,28 +8553,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment1002,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8583,9 +8583,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -8657,10 +8657,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 826, col: 8, offset: 26607},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentFragment1027,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8669,28 +8669,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentFragment1030,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8699,9 +8699,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -8717,9 +8717,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -8735,21 +8735,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentFragment1046,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8759,28 +8759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentFragment1050,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8789,9 +8789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -8856,10 +8856,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonDocumentFragment1071,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8868,28 +8868,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonDocumentFragment1074,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8898,9 +8898,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -8916,9 +8916,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -8929,27 +8929,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2778, col: 18, offset: 88525},
+											pos: position{line: 2788, col: 18, offset: 88831},
 											run: (*parser).callonDocumentFragment1084,
 											expr: &choiceExpr{
-												pos: position{line: 2779, col: 9, offset: 88535},
+												pos: position{line: 2789, col: 9, offset: 88841},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88535},
+														pos: position{line: 2789, col: 9, offset: 88841},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88535},
+																pos:        position{line: 2789, col: 9, offset: 88841},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2779, col: 15, offset: 88541},
+																pos: position{line: 2789, col: 15, offset: 88847},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonDocumentFragment1089,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -8958,28 +8958,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonDocumentFragment1092,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -8988,9 +8988,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -8998,43 +8998,43 @@ var g = &grammar{
 														},
 													},
 													&seqExpr{
-														pos: position{line: 2780, col: 11, offset: 88574},
+														pos: position{line: 2790, col: 11, offset: 88880},
 														exprs: []interface{}{
 															&choiceExpr{
-																pos: position{line: 2780, col: 12, offset: 88575},
+																pos: position{line: 2790, col: 12, offset: 88881},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 12, offset: 88575},
+																		pos:        position{line: 2790, col: 12, offset: 88881},
 																		val:        "***",
 																		ignoreCase: false,
 																		want:       "\"***\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 20, offset: 88583},
+																		pos:        position{line: 2790, col: 20, offset: 88889},
 																		val:        "* * *",
 																		ignoreCase: false,
 																		want:       "\"* * *\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 30, offset: 88593},
+																		pos:        position{line: 2790, col: 30, offset: 88899},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 38, offset: 88601},
+																		pos:        position{line: 2790, col: 38, offset: 88907},
 																		val:        "- - -",
 																		ignoreCase: false,
 																		want:       "\"- - -\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 48, offset: 88611},
+																		pos:        position{line: 2790, col: 48, offset: 88917},
 																		val:        "___",
 																		ignoreCase: false,
 																		want:       "\"___\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2780, col: 56, offset: 88619},
+																		pos:        position{line: 2790, col: 56, offset: 88925},
 																		val:        "_ _ _",
 																		ignoreCase: false,
 																		want:       "\"_ _ _\"",
@@ -9042,12 +9042,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 2780, col: 65, offset: 88628},
+																pos: position{line: 2790, col: 65, offset: 88934},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonDocumentFragment1108,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -9056,28 +9056,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonDocumentFragment1111,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -9086,38 +9086,38 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
 															},
 															&andExpr{
-																pos: position{line: 2780, col: 76, offset: 88639},
+																pos: position{line: 2790, col: 76, offset: 88945},
 																expr: &choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonDocumentFragment1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -9126,9 +9126,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -9144,24 +9144,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2669, col: 5, offset: 85461},
+											pos: position{line: 2679, col: 5, offset: 85767},
 											run: (*parser).callonDocumentFragment1128,
 											expr: &seqExpr{
-												pos: position{line: 2669, col: 5, offset: 85461},
+												pos: position{line: 2679, col: 5, offset: 85767},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2675, col: 19, offset: 85618},
+														pos:        position{line: 2685, col: 19, offset: 85924},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2675, col: 26, offset: 85625},
+														pos: position{line: 2685, col: 26, offset: 85931},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentFragment1132,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9170,28 +9170,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentFragment1135,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9200,20 +9200,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2670, col: 5, offset: 85485},
+														pos:   position{line: 2680, col: 5, offset: 85791},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2670, col: 11, offset: 85491},
+															pos: position{line: 2680, col: 11, offset: 85797},
 															expr: &choiceExpr{
-																pos: position{line: 2670, col: 12, offset: 85492},
+																pos: position{line: 2680, col: 12, offset: 85798},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
@@ -9222,18 +9222,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94552},
+																					pos: position{line: 3000, col: 11, offset: 94858},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94554,
+																						line: 3000, col: 13, offset: 94860,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonDocumentFragment1150,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9242,28 +9242,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonDocumentFragment1153,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9272,9 +9272,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -9283,32 +9283,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2682, col: 5, offset: 85737},
+																		pos: position{line: 2692, col: 5, offset: 86043},
 																		run: (*parser).callonDocumentFragment1160,
 																		expr: &seqExpr{
-																			pos: position{line: 2682, col: 5, offset: 85737},
+																			pos: position{line: 2692, col: 5, offset: 86043},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2682, col: 5, offset: 85737},
+																					pos: position{line: 2692, col: 5, offset: 86043},
 																					expr: &choiceExpr{
-																						pos: position{line: 2679, col: 22, offset: 85698},
+																						pos: position{line: 2689, col: 22, offset: 86004},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2675, col: 19, offset: 85618},
+																								pos: position{line: 2685, col: 19, offset: 85924},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2675, col: 19, offset: 85618},
+																										pos:        position{line: 2685, col: 19, offset: 85924},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2675, col: 26, offset: 85625},
+																										pos: position{line: 2685, col: 26, offset: 85931},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonDocumentFragment1167,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9317,28 +9317,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94616},
+																										pos: position{line: 3005, col: 8, offset: 94922},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94389},
+																												pos: position{line: 2992, col: 12, offset: 94695},
 																												run: (*parser).callonDocumentFragment1170,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94390},
+																													pos: position{line: 2992, col: 13, offset: 94696},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94390},
+																															pos:        position{line: 2992, col: 13, offset: 94696},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94397},
+																															pos:        position{line: 2992, col: 20, offset: 94703},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94406},
+																															pos:        position{line: 2992, col: 29, offset: 94712},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9347,9 +9347,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94566},
+																												pos: position{line: 3002, col: 8, offset: 94872},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94567,
+																													line: 3002, col: 9, offset: 94873,
 																												},
 																											},
 																										},
@@ -9357,59 +9357,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2683, col: 5, offset: 85760},
+																					pos:   position{line: 2693, col: 5, offset: 86066},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2684, col: 9, offset: 85778},
+																						pos: position{line: 2694, col: 9, offset: 86084},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2684, col: 10, offset: 85779},
+																								pos: position{line: 2694, col: 10, offset: 86085},
 																								run: (*parser).callonDocumentFragment1181,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2684, col: 10, offset: 85779},
+																									pos:   position{line: 2694, col: 10, offset: 86085},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2684, col: 17, offset: 85786},
+																										pos: position{line: 2694, col: 17, offset: 86092},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2692, col: 21, offset: 85982},
+																												pos: position{line: 2702, col: 21, offset: 86288},
 																												run: (*parser).callonDocumentFragment1184,
 																												expr: &seqExpr{
-																													pos: position{line: 2692, col: 21, offset: 85982},
+																													pos: position{line: 2702, col: 21, offset: 86288},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2692, col: 21, offset: 85982},
+																															pos:   position{line: 2702, col: 21, offset: 86288},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2692, col: 27, offset: 85988},
+																																pos: position{line: 2702, col: 27, offset: 86294},
 																																expr: &actionExpr{
-																																	pos: position{line: 2697, col: 5, offset: 86063},
+																																	pos: position{line: 2707, col: 5, offset: 86369},
 																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2697, col: 5, offset: 86063},
+																																		pos: position{line: 2707, col: 5, offset: 86369},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2697, col: 5, offset: 86063},
+																																				pos:        position{line: 2707, col: 5, offset: 86369},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2697, col: 9, offset: 86067},
+																																				pos: position{line: 2707, col: 9, offset: 86373},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2973, col: 10, offset: 94218},
+																																					pos: position{line: 2983, col: 10, offset: 94524},
 																																					run: (*parser).callonDocumentFragment1192,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2973, col: 10, offset: 94218},
+																																						pos:        position{line: 2983, col: 10, offset: 94524},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9418,21 +9418,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2697, col: 16, offset: 86074},
+																																				pos:   position{line: 2707, col: 16, offset: 86380},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2703, col: 5, offset: 86274},
+																																					pos: position{line: 2713, col: 5, offset: 86580},
 																																					run: (*parser).callonDocumentFragment1195,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2703, col: 5, offset: 86274},
+																																						pos:   position{line: 2713, col: 5, offset: 86580},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2703, col: 14, offset: 86283},
+																																							pos: position{line: 2713, col: 14, offset: 86589},
 																																							run: (*parser).callonDocumentFragment1197,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2703, col: 14, offset: 86283},
+																																								pos: position{line: 2713, col: 14, offset: 86589},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2703, col: 14, offset: 86283},
+																																									pos:        position{line: 2713, col: 14, offset: 86589},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9449,28 +9449,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2995, col: 8, offset: 94616},
+																															pos: position{line: 3005, col: 8, offset: 94922},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2982, col: 12, offset: 94389},
+																																	pos: position{line: 2992, col: 12, offset: 94695},
 																																	run: (*parser).callonDocumentFragment1201,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2982, col: 13, offset: 94390},
+																																		pos: position{line: 2992, col: 13, offset: 94696},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 13, offset: 94390},
+																																				pos:        position{line: 2992, col: 13, offset: 94696},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 20, offset: 94397},
+																																				pos:        position{line: 2992, col: 20, offset: 94703},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2982, col: 29, offset: 94406},
+																																				pos:        position{line: 2992, col: 29, offset: 94712},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9479,9 +9479,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2992, col: 8, offset: 94566},
+																																	pos: position{line: 3002, col: 8, offset: 94872},
 																																	expr: &anyMatcher{
-																																		line: 2992, col: 9, offset: 94567,
+																																		line: 3002, col: 9, offset: 94873,
 																																	},
 																																},
 																															},
@@ -9490,40 +9490,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2709, col: 24, offset: 86419},
+																												pos: position{line: 2719, col: 24, offset: 86725},
 																												run: (*parser).callonDocumentFragment1208,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2709, col: 24, offset: 86419},
+																													pos:   position{line: 2719, col: 24, offset: 86725},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2709, col: 30, offset: 86425},
+																														pos: position{line: 2719, col: 30, offset: 86731},
 																														expr: &actionExpr{
-																															pos: position{line: 2714, col: 5, offset: 86501},
+																															pos: position{line: 2724, col: 5, offset: 86807},
 																															run: (*parser).callonDocumentFragment1211,
 																															expr: &seqExpr{
-																																pos: position{line: 2714, col: 5, offset: 86501},
+																																pos: position{line: 2724, col: 5, offset: 86807},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2714, col: 5, offset: 86501},
+																																		pos: position{line: 2724, col: 5, offset: 86807},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2679, col: 22, offset: 85698},
+																																			pos: position{line: 2689, col: 22, offset: 86004},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2675, col: 19, offset: 85618},
+																																					pos: position{line: 2685, col: 19, offset: 85924},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2675, col: 19, offset: 85618},
+																																							pos:        position{line: 2685, col: 19, offset: 85924},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2675, col: 26, offset: 85625},
+																																							pos: position{line: 2685, col: 26, offset: 85931},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2973, col: 10, offset: 94218},
+																																								pos: position{line: 2983, col: 10, offset: 94524},
 																																								run: (*parser).callonDocumentFragment1218,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2973, col: 10, offset: 94218},
+																																									pos:        position{line: 2983, col: 10, offset: 94524},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9532,28 +9532,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2995, col: 8, offset: 94616},
+																																							pos: position{line: 3005, col: 8, offset: 94922},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2982, col: 12, offset: 94389},
+																																									pos: position{line: 2992, col: 12, offset: 94695},
 																																									run: (*parser).callonDocumentFragment1221,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2982, col: 13, offset: 94390},
+																																										pos: position{line: 2992, col: 13, offset: 94696},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 13, offset: 94390},
+																																												pos:        position{line: 2992, col: 13, offset: 94696},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 20, offset: 94397},
+																																												pos:        position{line: 2992, col: 20, offset: 94703},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 29, offset: 94406},
+																																												pos:        position{line: 2992, col: 29, offset: 94712},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9562,9 +9562,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94566},
+																																									pos: position{line: 3002, col: 8, offset: 94872},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94567,
+																																										line: 3002, col: 9, offset: 94873,
 																																									},
 																																								},
 																																							},
@@ -9572,16 +9572,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2992, col: 8, offset: 94566},
+																																					pos: position{line: 3002, col: 8, offset: 94872},
 																																					expr: &anyMatcher{
-																																						line: 2992, col: 9, offset: 94567,
+																																						line: 3002, col: 9, offset: 94873,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2715, col: 5, offset: 86524},
+																																		pos: position{line: 2725, col: 5, offset: 86830},
 																																		expr: &actionExpr{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			run: (*parser).callonDocumentFragment1231,
@@ -9589,18 +9589,18 @@ var g = &grammar{
 																																				pos: position{line: 697, col: 14, offset: 22135},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2990, col: 11, offset: 94552},
+																																						pos: position{line: 3000, col: 11, offset: 94858},
 																																						expr: &anyMatcher{
-																																							line: 2990, col: 13, offset: 94554,
+																																							line: 3000, col: 13, offset: 94860,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 697, col: 21, offset: 22142},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2973, col: 10, offset: 94218},
+																																							pos: position{line: 2983, col: 10, offset: 94524},
 																																							run: (*parser).callonDocumentFragment1236,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2973, col: 10, offset: 94218},
+																																								pos:        position{line: 2983, col: 10, offset: 94524},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9609,28 +9609,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2995, col: 8, offset: 94616},
+																																						pos: position{line: 3005, col: 8, offset: 94922},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2982, col: 12, offset: 94389},
+																																								pos: position{line: 2992, col: 12, offset: 94695},
 																																								run: (*parser).callonDocumentFragment1239,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2982, col: 13, offset: 94390},
+																																									pos: position{line: 2992, col: 13, offset: 94696},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 13, offset: 94390},
+																																											pos:        position{line: 2992, col: 13, offset: 94696},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 20, offset: 94397},
+																																											pos:        position{line: 2992, col: 20, offset: 94703},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 29, offset: 94406},
+																																											pos:        position{line: 2992, col: 29, offset: 94712},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9639,9 +9639,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2992, col: 8, offset: 94566},
+																																								pos: position{line: 3002, col: 8, offset: 94872},
 																																								expr: &anyMatcher{
-																																									line: 2992, col: 9, offset: 94567,
+																																									line: 3002, col: 9, offset: 94873,
 																																								},
 																																							},
 																																						},
@@ -9651,17 +9651,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2716, col: 5, offset: 86539},
+																																		pos:   position{line: 2726, col: 5, offset: 86845},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2716, col: 12, offset: 86546},
+																																			pos: position{line: 2726, col: 12, offset: 86852},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2733, col: 20, offset: 87010},
+																																				pos: position{line: 2743, col: 20, offset: 87316},
 																																				run: (*parser).callonDocumentFragment1248,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2733, col: 20, offset: 87010},
+																																					pos: position{line: 2743, col: 20, offset: 87316},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2733, col: 20, offset: 87010},
+																																						pos:        position{line: 2743, col: 20, offset: 87316},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9672,18 +9672,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2716, col: 31, offset: 86565},
+																																		pos:        position{line: 2726, col: 31, offset: 86871},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2716, col: 35, offset: 86569},
+																																		pos: position{line: 2726, col: 35, offset: 86875},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2973, col: 10, offset: 94218},
+																																			pos: position{line: 2983, col: 10, offset: 94524},
 																																			run: (*parser).callonDocumentFragment1253,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2973, col: 10, offset: 94218},
+																																				pos:        position{line: 2983, col: 10, offset: 94524},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9692,27 +9692,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2716, col: 42, offset: 86576},
+																																		pos: position{line: 2726, col: 42, offset: 86882},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2982, col: 12, offset: 94389},
+																																			pos: position{line: 2992, col: 12, offset: 94695},
 																																			run: (*parser).callonDocumentFragment1256,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2982, col: 13, offset: 94390},
+																																				pos: position{line: 2992, col: 13, offset: 94696},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 13, offset: 94390},
+																																						pos:        position{line: 2992, col: 13, offset: 94696},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 20, offset: 94397},
+																																						pos:        position{line: 2992, col: 20, offset: 94703},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2982, col: 29, offset: 94406},
+																																						pos:        position{line: 2992, col: 29, offset: 94712},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9722,37 +9722,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2716, col: 51, offset: 86585},
+																																		pos:   position{line: 2726, col: 51, offset: 86891},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2722, col: 5, offset: 86744},
+																																			pos: position{line: 2732, col: 5, offset: 87050},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2723, col: 9, offset: 86754},
+																																				pos: position{line: 2733, col: 9, offset: 87060},
 																																				run: (*parser).callonDocumentFragment1263,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2723, col: 9, offset: 86754},
+																																					pos: position{line: 2733, col: 9, offset: 87060},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2723, col: 9, offset: 86754},
+																																							pos: position{line: 2733, col: 9, offset: 87060},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2679, col: 22, offset: 85698},
+																																								pos: position{line: 2689, col: 22, offset: 86004},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2675, col: 19, offset: 85618},
+																																										pos: position{line: 2685, col: 19, offset: 85924},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2675, col: 19, offset: 85618},
+																																												pos:        position{line: 2685, col: 19, offset: 85924},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2675, col: 26, offset: 85625},
+																																												pos: position{line: 2685, col: 26, offset: 85931},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2973, col: 10, offset: 94218},
+																																													pos: position{line: 2983, col: 10, offset: 94524},
 																																													run: (*parser).callonDocumentFragment1270,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2973, col: 10, offset: 94218},
+																																														pos:        position{line: 2983, col: 10, offset: 94524},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9761,28 +9761,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2995, col: 8, offset: 94616},
+																																												pos: position{line: 3005, col: 8, offset: 94922},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2982, col: 12, offset: 94389},
+																																														pos: position{line: 2992, col: 12, offset: 94695},
 																																														run: (*parser).callonDocumentFragment1273,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2982, col: 13, offset: 94390},
+																																															pos: position{line: 2992, col: 13, offset: 94696},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9791,9 +9791,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2992, col: 8, offset: 94566},
+																																														pos: position{line: 3002, col: 8, offset: 94872},
 																																														expr: &anyMatcher{
-																																															line: 2992, col: 9, offset: 94567,
+																																															line: 3002, col: 9, offset: 94873,
 																																														},
 																																													},
 																																												},
@@ -9801,16 +9801,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2992, col: 8, offset: 94566},
+																																										pos: position{line: 3002, col: 8, offset: 94872},
 																																										expr: &anyMatcher{
-																																											line: 2992, col: 9, offset: 94567,
+																																											line: 3002, col: 9, offset: 94873,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2724, col: 9, offset: 86781},
+																																							pos: position{line: 2734, col: 9, offset: 87087},
 																																							expr: &actionExpr{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								run: (*parser).callonDocumentFragment1283,
@@ -9818,18 +9818,18 @@ var g = &grammar{
 																																									pos: position{line: 697, col: 14, offset: 22135},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2990, col: 11, offset: 94552},
+																																											pos: position{line: 3000, col: 11, offset: 94858},
 																																											expr: &anyMatcher{
-																																												line: 2990, col: 13, offset: 94554,
+																																												line: 3000, col: 13, offset: 94860,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 697, col: 21, offset: 22142},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2973, col: 10, offset: 94218},
+																																												pos: position{line: 2983, col: 10, offset: 94524},
 																																												run: (*parser).callonDocumentFragment1288,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2973, col: 10, offset: 94218},
+																																													pos:        position{line: 2983, col: 10, offset: 94524},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9838,28 +9838,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2995, col: 8, offset: 94616},
+																																											pos: position{line: 3005, col: 8, offset: 94922},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2982, col: 12, offset: 94389},
+																																													pos: position{line: 2992, col: 12, offset: 94695},
 																																													run: (*parser).callonDocumentFragment1291,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2982, col: 13, offset: 94390},
+																																														pos: position{line: 2992, col: 13, offset: 94696},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9868,9 +9868,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2992, col: 8, offset: 94566},
+																																													pos: position{line: 3002, col: 8, offset: 94872},
 																																													expr: &anyMatcher{
-																																														line: 2992, col: 9, offset: 94567,
+																																														line: 3002, col: 9, offset: 94873,
 																																													},
 																																												},
 																																											},
@@ -9880,22 +9880,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2725, col: 9, offset: 86800},
+																																							pos: position{line: 2735, col: 9, offset: 87106},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2725, col: 11, offset: 86802},
+																																								pos: position{line: 2735, col: 11, offset: 87108},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2725, col: 11, offset: 86802},
+																																										pos:   position{line: 2735, col: 11, offset: 87108},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2725, col: 18, offset: 86809},
+																																											pos: position{line: 2735, col: 18, offset: 87115},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2733, col: 20, offset: 87010},
+																																												pos: position{line: 2743, col: 20, offset: 87316},
 																																												run: (*parser).callonDocumentFragment1302,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2733, col: 20, offset: 87010},
+																																													pos: position{line: 2743, col: 20, offset: 87316},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2733, col: 20, offset: 87010},
+																																														pos:        position{line: 2743, col: 20, offset: 87316},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9906,7 +9906,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2725, col: 37, offset: 86828},
+																																										pos:        position{line: 2735, col: 37, offset: 87134},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9915,15 +9915,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2726, col: 9, offset: 86841},
+																																							pos:   position{line: 2736, col: 9, offset: 87147},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2726, col: 18, offset: 86850},
+																																								pos: position{line: 2736, col: 18, offset: 87156},
 																																								run: (*parser).callonDocumentFragment1307,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2726, col: 18, offset: 86850},
+																																									pos: position{line: 2736, col: 18, offset: 87156},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2726, col: 18, offset: 86850},
+																																										pos:        position{line: 2736, col: 18, offset: 87156},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9933,30 +9933,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2728, col: 12, offset: 86912},
+																																							pos: position{line: 2738, col: 12, offset: 87218},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2995, col: 8, offset: 94616},
+																																								pos: position{line: 3005, col: 8, offset: 94922},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2982, col: 12, offset: 94389},
+																																										pos: position{line: 2992, col: 12, offset: 94695},
 																																										run: (*parser).callonDocumentFragment1312,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2982, col: 13, offset: 94390},
+																																											pos: position{line: 2992, col: 13, offset: 94696},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 13, offset: 94390},
+																																													pos:        position{line: 2992, col: 13, offset: 94696},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 20, offset: 94397},
+																																													pos:        position{line: 2992, col: 20, offset: 94703},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2982, col: 29, offset: 94406},
+																																													pos:        position{line: 2992, col: 29, offset: 94712},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9965,9 +9965,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2992, col: 8, offset: 94566},
+																																										pos: position{line: 3002, col: 8, offset: 94872},
 																																										expr: &anyMatcher{
-																																											line: 2992, col: 9, offset: 94567,
+																																											line: 3002, col: 9, offset: 94873,
 																																										},
 																																									},
 																																								},
@@ -9995,18 +9995,18 @@ var g = &grammar{
 																									pos: position{line: 697, col: 14, offset: 22135},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2990, col: 11, offset: 94552},
+																											pos: position{line: 3000, col: 11, offset: 94858},
 																											expr: &anyMatcher{
-																												line: 2990, col: 13, offset: 94554,
+																												line: 3000, col: 13, offset: 94860,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 697, col: 21, offset: 22142},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonDocumentFragment1324,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10015,28 +10015,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonDocumentFragment1327,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10045,9 +10045,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -10066,24 +10066,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2679, col: 22, offset: 85698},
+														pos: position{line: 2689, col: 22, offset: 86004},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2675, col: 19, offset: 85618},
+																pos: position{line: 2685, col: 19, offset: 85924},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2675, col: 19, offset: 85618},
+																		pos:        position{line: 2685, col: 19, offset: 85924},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2675, col: 26, offset: 85625},
+																		pos: position{line: 2685, col: 26, offset: 85931},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment1338,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10092,28 +10092,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment1341,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10122,9 +10122,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -10132,9 +10132,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -10143,36 +10143,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											run: (*parser).callonDocumentFragment1350,
 											expr: &seqExpr{
-												pos: position{line: 2540, col: 22, offset: 81861},
+												pos: position{line: 2550, col: 22, offset: 82167},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2545, col: 31, offset: 82082},
+														pos:        position{line: 2555, col: 31, offset: 82388},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2545, col: 36, offset: 82087},
+														pos: position{line: 2555, col: 36, offset: 82393},
 														expr: &litMatcher{
-															pos:        position{line: 2545, col: 37, offset: 82088},
+															pos:        position{line: 2555, col: 37, offset: 82394},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2540, col: 49, offset: 81888},
+														pos:   position{line: 2550, col: 49, offset: 82194},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															run: (*parser).callonDocumentFragment1356,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2892, col: 13, offset: 91905},
+																pos: position{line: 2902, col: 13, offset: 92211},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91905},
+																	pos:        position{line: 2902, col: 13, offset: 92211},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10182,28 +10182,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentFragment1360,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10212,9 +10212,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -10250,10 +10250,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment1375,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10262,28 +10262,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment1378,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10292,9 +10292,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1267, col: 36, offset: 39160},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonDocumentFragment1393,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94616},
+																										pos: position{line: 3005, col: 8, offset: 94922},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94389},
+																												pos: position{line: 2992, col: 12, offset: 94695},
 																												run: (*parser).callonDocumentFragment1396,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94390},
+																													pos: position{line: 2992, col: 13, offset: 94696},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94390},
+																															pos:        position{line: 2992, col: 13, offset: 94696},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94397},
+																															pos:        position{line: 2992, col: 20, offset: 94703},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94406},
+																															pos:        position{line: 2992, col: 29, offset: 94712},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94566},
+																												pos: position{line: 3002, col: 8, offset: 94872},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94567,
+																													line: 3002, col: 9, offset: 94873,
 																												},
 																											},
 																										},
@@ -10387,25 +10387,25 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonDocumentFragment1405,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -10427,10 +10427,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1267, col: 36, offset: 39160},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentFragment1412,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10439,28 +10439,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentFragment1415,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10469,9 +10469,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -10572,9 +10572,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -10646,12 +10646,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2977, col: 11, offset: 94279},
+												pos: position{line: 2987, col: 11, offset: 94585},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2977, col: 11, offset: 94279},
+													pos: position{line: 2987, col: 11, offset: 94585},
 													expr: &charClassMatcher{
-														pos:        position{line: 2977, col: 11, offset: 94279},
+														pos:        position{line: 2987, col: 11, offset: 94585},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10675,10 +10675,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10687,28 +10687,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10717,9 +10717,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -10763,25 +10763,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94389},
+												pos: position{line: 2992, col: 12, offset: 94695},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94390},
+													pos: position{line: 2992, col: 13, offset: 94696},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94390},
+															pos:        position{line: 2992, col: 13, offset: 94696},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94397},
+															pos:        position{line: 2992, col: 20, offset: 94703},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94406},
+															pos:        position{line: 2992, col: 29, offset: 94712},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10792,10 +10792,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 327, col: 9, offset: 9945},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94218},
+													pos: position{line: 2983, col: 10, offset: 94524},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94218},
+														pos:        position{line: 2983, col: 10, offset: 94524},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10865,10 +10865,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 345, col: 13, offset: 10490},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94218},
+											pos: position{line: 2983, col: 10, offset: 94524},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94218},
+												pos:        position{line: 2983, col: 10, offset: 94524},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10877,28 +10877,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2995, col: 8, offset: 94616},
+										pos: position{line: 3005, col: 8, offset: 94922},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94389},
+												pos: position{line: 2992, col: 12, offset: 94695},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94390},
+													pos: position{line: 2992, col: 13, offset: 94696},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94390},
+															pos:        position{line: 2992, col: 13, offset: 94696},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94397},
+															pos:        position{line: 2992, col: 20, offset: 94703},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94406},
+															pos:        position{line: 2992, col: 29, offset: 94712},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10907,9 +10907,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2992, col: 8, offset: 94566},
+												pos: position{line: 3002, col: 8, offset: 94872},
 												expr: &anyMatcher{
-													line: 2992, col: 9, offset: 94567,
+													line: 3002, col: 9, offset: 94873,
 												},
 											},
 										},
@@ -10942,23 +10942,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81407},
+										pos: position{line: 2537, col: 5, offset: 81713},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81407},
+													pos: position{line: 2537, col: 5, offset: 81713},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81483},
+													pos:   position{line: 2540, col: 5, offset: 81789},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81501},
+														pos: position{line: 2541, col: 9, offset: 81807},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81502},
+															pos:        position{line: 2541, col: 10, offset: 81808},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10970,10 +10970,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94218},
+										pos: position{line: 2983, col: 10, offset: 94524},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94218},
+											pos:        position{line: 2983, col: 10, offset: 94524},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11810,10 +11810,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 373, col: 35, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94218},
+													pos: position{line: 2983, col: 10, offset: 94524},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94218},
+														pos:        position{line: 2983, col: 10, offset: 94524},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11822,28 +11822,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94616},
+												pos: position{line: 3005, col: 8, offset: 94922},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94389},
+														pos: position{line: 2992, col: 12, offset: 94695},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94390},
+															pos: position{line: 2992, col: 13, offset: 94696},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94390},
+																	pos:        position{line: 2992, col: 13, offset: 94696},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94397},
+																	pos:        position{line: 2992, col: 20, offset: 94703},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94406},
+																	pos:        position{line: 2992, col: 29, offset: 94712},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11852,9 +11852,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94566},
+														pos: position{line: 3002, col: 8, offset: 94872},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94567,
+															line: 3002, col: 9, offset: 94873,
 														},
 													},
 												},
@@ -11868,18 +11868,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94552},
+																pos: position{line: 3000, col: 11, offset: 94858},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94554,
+																	line: 3000, col: 13, offset: 94860,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11888,28 +11888,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11918,9 +11918,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -11972,12 +11972,12 @@ var g = &grammar{
 																		pos: position{line: 427, col: 9, offset: 13075},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2831, col: 14, offset: 90240},
+																				pos: position{line: 2841, col: 14, offset: 90546},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2831, col: 14, offset: 90240},
+																					pos: position{line: 2841, col: 14, offset: 90546},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2831, col: 14, offset: 90240},
+																						pos:        position{line: 2841, col: 14, offset: 90546},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11986,10 +11986,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11997,27 +11997,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2863, col: 5, offset: 91033},
+																				pos: position{line: 2873, col: 5, offset: 91339},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2864, col: 9, offset: 91043},
+																					pos: position{line: 2874, col: 9, offset: 91349},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 91044},
+																							pos:        position{line: 2874, col: 10, offset: 91350},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2866, col: 13, offset: 91141},
+																							pos: position{line: 2876, col: 13, offset: 91447},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2866, col: 13, offset: 91141},
+																									pos: position{line: 2876, col: 13, offset: 91447},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 91241},
+																									pos:        position{line: 2879, col: 13, offset: 91547},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12025,20 +12025,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 19, offset: 91247},
+																							pos:        position{line: 2879, col: 19, offset: 91553},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2872, col: 13, offset: 91285},
+																							pos: position{line: 2882, col: 13, offset: 91591},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2872, col: 13, offset: 91285},
+																									pos: position{line: 2882, col: 13, offset: 91591},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2875, col: 14, offset: 91378},
+																									pos:        position{line: 2885, col: 14, offset: 91684},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12047,18 +12047,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2877, col: 12, offset: 91422},
+																							pos: position{line: 2887, col: 12, offset: 91728},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 12, offset: 91422},
+																									pos:        position{line: 2887, col: 12, offset: 91728},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2877, col: 16, offset: 91426},
+																									pos: position{line: 2887, col: 16, offset: 91732},
 																									expr: &litMatcher{
-																										pos:        position{line: 2877, col: 17, offset: 91427},
+																										pos:        position{line: 2887, col: 17, offset: 91733},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12394,10 +12394,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91687},
+																				pos: position{line: 2895, col: 12, offset: 91993},
 																				run: (*parser).callonBlockAttributes220,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 12, offset: 91687},
+																					pos:        position{line: 2895, col: 12, offset: 91993},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12415,10 +12415,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 377, col: 35, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94218},
+													pos: position{line: 2983, col: 10, offset: 94524},
 													run: (*parser).callonBlockAttributes223,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94218},
+														pos:        position{line: 2983, col: 10, offset: 94524},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12427,28 +12427,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94616},
+												pos: position{line: 3005, col: 8, offset: 94922},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94389},
+														pos: position{line: 2992, col: 12, offset: 94695},
 														run: (*parser).callonBlockAttributes226,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94390},
+															pos: position{line: 2992, col: 13, offset: 94696},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94390},
+																	pos:        position{line: 2992, col: 13, offset: 94696},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94397},
+																	pos:        position{line: 2992, col: 20, offset: 94703},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94406},
+																	pos:        position{line: 2992, col: 29, offset: 94712},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12457,9 +12457,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94566},
+														pos: position{line: 3002, col: 8, offset: 94872},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94567,
+															line: 3002, col: 9, offset: 94873,
 														},
 													},
 												},
@@ -12473,18 +12473,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94552},
+																pos: position{line: 3000, col: 11, offset: 94858},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94554,
+																	line: 3000, col: 13, offset: 94860,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonBlockAttributes239,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12493,28 +12493,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonBlockAttributes242,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12523,9 +12523,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -12554,10 +12554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 381, col: 44, offset: 11787},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94218},
+													pos: position{line: 2983, col: 10, offset: 94524},
 													run: (*parser).callonBlockAttributes254,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94218},
+														pos:        position{line: 2983, col: 10, offset: 94524},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12566,28 +12566,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94616},
+												pos: position{line: 3005, col: 8, offset: 94922},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94389},
+														pos: position{line: 2992, col: 12, offset: 94695},
 														run: (*parser).callonBlockAttributes257,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94390},
+															pos: position{line: 2992, col: 13, offset: 94696},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94390},
+																	pos:        position{line: 2992, col: 13, offset: 94696},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94397},
+																	pos:        position{line: 2992, col: 20, offset: 94703},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94406},
+																	pos:        position{line: 2992, col: 29, offset: 94712},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12596,9 +12596,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94566},
+														pos: position{line: 3002, col: 8, offset: 94872},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94567,
+															line: 3002, col: 9, offset: 94873,
 														},
 													},
 												},
@@ -12612,18 +12612,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94552},
+																pos: position{line: 3000, col: 11, offset: 94858},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94554,
+																	line: 3000, col: 13, offset: 94860,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonBlockAttributes270,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12632,28 +12632,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonBlockAttributes273,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12662,9 +12662,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -12912,10 +12912,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 467, col: 13, offset: 14562},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94218},
+											pos: position{line: 2983, col: 10, offset: 94524},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94218},
+												pos:        position{line: 2983, col: 10, offset: 94524},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13447,10 +13447,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 519, col: 9, offset: 16144},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13511,10 +13511,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 525, col: 34, offset: 16287},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13554,10 +13554,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 530, col: 13, offset: 16451},
 												expr: &actionExpr{
-													pos: position{line: 2973, col: 10, offset: 94218},
+													pos: position{line: 2983, col: 10, offset: 94524},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2973, col: 10, offset: 94218},
+														pos:        position{line: 2983, col: 10, offset: 94524},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13580,10 +13580,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 530, col: 26, offset: 16464},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13638,10 +13638,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 550, col: 22, offset: 17141},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94218},
+												pos: position{line: 2983, col: 10, offset: 94524},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94218},
+													pos:        position{line: 2983, col: 10, offset: 94524},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13672,10 +13672,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 543, col: 9, offset: 16856},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13702,10 +13702,10 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 624, col: 5, offset: 19399},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonNamedAttribute21,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -14092,10 +14092,10 @@ var g = &grammar{
 																	want:       "\"{\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonNamedAttribute100,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -14140,10 +14140,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 544, col: 63, offset: 16926},
 										expr: &actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94218},
+											pos: position{line: 2983, col: 10, offset: 94524},
 											run: (*parser).callonNamedAttribute109,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94218},
+												pos:        position{line: 2983, col: 10, offset: 94524},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14198,10 +14198,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 560, col: 9, offset: 17358},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94218},
+												pos: position{line: 2983, col: 10, offset: 94524},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94218},
+													pos:        position{line: 2983, col: 10, offset: 94524},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14283,12 +14283,12 @@ var g = &grammar{
 							pos: position{line: 576, col: 9, offset: 17756},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90240},
+									pos: position{line: 2841, col: 14, offset: 90546},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90240},
+										pos: position{line: 2841, col: 14, offset: 90546},
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90240},
+											pos:        position{line: 2841, col: 14, offset: 90546},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14297,10 +14297,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94218},
+									pos: position{line: 2983, col: 10, offset: 94524},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94218},
+										pos:        position{line: 2983, col: 10, offset: 94524},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14760,10 +14760,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 596, col: 14, offset: 18497},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94218},
+												pos: position{line: 2983, col: 10, offset: 94524},
 												run: (*parser).callonDoubleQuotedAttributeValue14,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94218},
+													pos:        position{line: 2983, col: 10, offset: 94524},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14800,12 +14800,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18688},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90240},
+									pos: position{line: 2841, col: 14, offset: 90546},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90240},
+										pos: position{line: 2841, col: 14, offset: 90546},
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90240},
+											pos:        position{line: 2841, col: 14, offset: 90546},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14814,10 +14814,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94218},
+									pos: position{line: 2983, col: 10, offset: 94524},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94218},
+										pos:        position{line: 2983, col: 10, offset: 94524},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15244,10 +15244,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 639, col: 5, offset: 19967},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15637,10 +15637,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94218},
+											pos: position{line: 2983, col: 10, offset: 94524},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94218},
+												pos:        position{line: 2983, col: 10, offset: 94524},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15691,12 +15691,12 @@ var g = &grammar{
 									pos:   position{line: 706, col: 32, offset: 22495},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2958, col: 7, offset: 93870},
+										pos: position{line: 2968, col: 7, offset: 94176},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2958, col: 7, offset: 93870},
+											pos: position{line: 2968, col: 7, offset: 94176},
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 7, offset: 93870},
+												pos:        position{line: 2968, col: 7, offset: 94176},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15708,10 +15708,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 706, col: 40, offset: 22503},
 									expr: &actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94218},
+										pos: position{line: 2983, col: 10, offset: 94524},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94218},
+											pos:        position{line: 2983, col: 10, offset: 94524},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -16110,12 +16110,12 @@ var g = &grammar{
 									pos:   position{line: 708, col: 14, offset: 22620},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2958, col: 7, offset: 93870},
+										pos: position{line: 2968, col: 7, offset: 94176},
 										run: (*parser).callonCrossReference90,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2958, col: 7, offset: 93870},
+											pos: position{line: 2968, col: 7, offset: 94176},
 											expr: &charClassMatcher{
-												pos:        position{line: 2958, col: 7, offset: 93870},
+												pos:        position{line: 2968, col: 7, offset: 94176},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -16159,41 +16159,41 @@ var g = &grammar{
 							pos:   position{line: 712, col: 35, offset: 22733},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2900, col: 17, offset: 92042},
+								pos: position{line: 2910, col: 17, offset: 92348},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2900, col: 17, offset: 92042},
+									pos:   position{line: 2910, col: 17, offset: 92348},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2921, col: 5, offset: 92627},
+										pos: position{line: 2931, col: 5, offset: 92933},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2921, col: 5, offset: 92627},
+											pos:   position{line: 2931, col: 5, offset: 92933},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2921, col: 14, offset: 92636},
+												pos: position{line: 2931, col: 14, offset: 92942},
 												expr: &choiceExpr{
-													pos: position{line: 2922, col: 9, offset: 92646},
+													pos: position{line: 2932, col: 9, offset: 92952},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2922, col: 9, offset: 92646},
+															pos: position{line: 2932, col: 9, offset: 92952},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2922, col: 9, offset: 92646},
+																pos: position{line: 2932, col: 9, offset: 92952},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2922, col: 9, offset: 92646},
+																		pos: position{line: 2932, col: 9, offset: 92952},
 																		expr: &litMatcher{
-																			pos:        position{line: 2922, col: 10, offset: 92647},
+																			pos:        position{line: 2932, col: 10, offset: 92953},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2923, col: 9, offset: 92675},
+																		pos: position{line: 2933, col: 9, offset: 92981},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2923, col: 10, offset: 92676},
+																			pos:        position{line: 2933, col: 10, offset: 92982},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -16204,27 +16204,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2926, col: 11, offset: 92888},
+															pos: position{line: 2936, col: 11, offset: 93194},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2926, col: 11, offset: 92888},
+																	pos:        position{line: 2936, col: 11, offset: 93194},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2926, col: 19, offset: 92896},
+																	pos: position{line: 2936, col: 19, offset: 93202},
 																	expr: &seqExpr{
-																		pos: position{line: 2926, col: 21, offset: 92898},
+																		pos: position{line: 2936, col: 21, offset: 93204},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2926, col: 21, offset: 92898},
+																				pos: position{line: 2936, col: 21, offset: 93204},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16233,11 +16233,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2926, col: 28, offset: 92905},
+																				pos: position{line: 2936, col: 28, offset: 93211},
 																				expr: &notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -16632,10 +16632,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2929, col: 11, offset: 93025},
+															pos: position{line: 2939, col: 11, offset: 93331},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2929, col: 11, offset: 93025},
+																pos:        position{line: 2939, col: 11, offset: 93331},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16680,12 +16680,12 @@ var g = &grammar{
 							pos:   position{line: 1017, col: 11, offset: 31677},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 14, offset: 91972},
+								pos: position{line: 2906, col: 14, offset: 92278},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2896, col: 14, offset: 91972},
+									pos: position{line: 2906, col: 14, offset: 92278},
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 14, offset: 91972},
+										pos:        position{line: 2906, col: 14, offset: 92278},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16695,28 +16695,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16725,9 +16725,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -16755,36 +16755,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81861},
+										pos: position{line: 2550, col: 22, offset: 82167},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82082},
+													pos:        position{line: 2555, col: 31, offset: 82388},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82087},
+													pos: position{line: 2555, col: 36, offset: 82393},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82088},
+														pos:        position{line: 2555, col: 37, offset: 82394},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81888},
+													pos:   position{line: 2550, col: 49, offset: 82194},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91905},
+														pos: position{line: 2902, col: 13, offset: 92211},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91905},
+																pos:        position{line: 2902, col: 13, offset: 92211},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16794,28 +16794,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16824,9 +16824,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -16880,10 +16880,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16892,28 +16892,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16922,9 +16922,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -16996,10 +16996,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17008,28 +17008,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17038,9 +17038,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -17056,9 +17056,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -17074,21 +17074,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17098,28 +17098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17128,9 +17128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -17192,10 +17192,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonDocumentHeader106,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17204,28 +17204,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentHeader109,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17234,9 +17234,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -17252,9 +17252,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -17280,36 +17280,36 @@ var g = &grammar{
 								pos: position{line: 1134, col: 6, offset: 34802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81861},
+										pos: position{line: 2550, col: 22, offset: 82167},
 										run: (*parser).callonDocumentHeader123,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82082},
+													pos:        position{line: 2555, col: 31, offset: 82388},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82087},
+													pos: position{line: 2555, col: 36, offset: 82393},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82088},
+														pos:        position{line: 2555, col: 37, offset: 82394},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81888},
+													pos:   position{line: 2550, col: 49, offset: 82194},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91905},
+														pos: position{line: 2902, col: 13, offset: 92211},
 														run: (*parser).callonDocumentHeader129,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91905},
+																pos:        position{line: 2902, col: 13, offset: 92211},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17319,28 +17319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonDocumentHeader133,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17349,9 +17349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -17405,10 +17405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonDocumentHeader152,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17417,28 +17417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonDocumentHeader155,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17447,9 +17447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -17521,10 +17521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonDocumentHeader180,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17533,28 +17533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonDocumentHeader183,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17563,9 +17563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -17581,9 +17581,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -17599,21 +17599,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonDocumentHeader199,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17623,28 +17623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentHeader203,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17653,9 +17653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -17717,10 +17717,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonDocumentHeader223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17729,28 +17729,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentHeader226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17759,9 +17759,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -17777,9 +17777,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -17823,10 +17823,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1153, col: 20, offset: 35557},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonDocumentHeader246,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17877,10 +17877,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1172, col: 5, offset: 36162},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17912,10 +17912,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1176, col: 5, offset: 36261},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonDocumentHeader269,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1180, col: 5, offset: 36358},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonDocumentHeader277,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17975,9 +17975,9 @@ var g = &grammar{
 																								pos: position{line: 1186, col: 5, offset: 36480},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2990, col: 11, offset: 94552},
+																										pos: position{line: 3000, col: 11, offset: 94858},
 																										expr: &anyMatcher{
-																											line: 2990, col: 13, offset: 94554,
+																											line: 3000, col: 13, offset: 94860,
 																										},
 																									},
 																									&litMatcher{
@@ -18018,10 +18018,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 69, offset: 35750},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonDocumentHeader292,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18041,10 +18041,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1158, col: 81, offset: 35762},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonDocumentHeader297,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -18062,28 +18062,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonDocumentHeader301,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -18092,9 +18092,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -18109,36 +18109,36 @@ var g = &grammar{
 													pos: position{line: 1148, col: 6, offset: 35332},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81861},
+															pos: position{line: 2550, col: 22, offset: 82167},
 															run: (*parser).callonDocumentHeader310,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81861},
+																pos: position{line: 2550, col: 22, offset: 82167},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82082},
+																		pos:        position{line: 2555, col: 31, offset: 82388},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82087},
+																		pos: position{line: 2555, col: 36, offset: 82393},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82088},
+																			pos:        position{line: 2555, col: 37, offset: 82394},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81888},
+																		pos:   position{line: 2550, col: 49, offset: 82194},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91905},
+																			pos: position{line: 2902, col: 13, offset: 92211},
 																			run: (*parser).callonDocumentHeader316,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91905},
+																				pos: position{line: 2902, col: 13, offset: 92211},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91905},
+																					pos:        position{line: 2902, col: 13, offset: 92211},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -18148,28 +18148,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentHeader320,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18178,9 +18178,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -18234,10 +18234,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonDocumentHeader339,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18246,28 +18246,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonDocumentHeader342,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18276,9 +18276,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -18350,10 +18350,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 762, col: 8, offset: 24351},
 																																expr: &actionExpr{
-																																	pos: position{line: 2973, col: 10, offset: 94218},
+																																	pos: position{line: 2983, col: 10, offset: 94524},
 																																	run: (*parser).callonDocumentHeader367,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2973, col: 10, offset: 94218},
+																																		pos:        position{line: 2983, col: 10, offset: 94524},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18362,28 +18362,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2995, col: 8, offset: 94616},
+																																pos: position{line: 3005, col: 8, offset: 94922},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2982, col: 12, offset: 94389},
+																																		pos: position{line: 2992, col: 12, offset: 94695},
 																																		run: (*parser).callonDocumentHeader370,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2982, col: 13, offset: 94390},
+																																			pos: position{line: 2992, col: 13, offset: 94696},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 13, offset: 94390},
+																																					pos:        position{line: 2992, col: 13, offset: 94696},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 20, offset: 94397},
+																																					pos:        position{line: 2992, col: 20, offset: 94703},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 29, offset: 94406},
+																																					pos:        position{line: 2992, col: 29, offset: 94712},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18392,9 +18392,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2992, col: 8, offset: 94566},
+																																		pos: position{line: 3002, col: 8, offset: 94872},
 																																		expr: &anyMatcher{
-																																			line: 2992, col: 9, offset: 94567,
+																																			line: 3002, col: 9, offset: 94873,
 																																		},
 																																	},
 																																},
@@ -18410,9 +18410,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -18428,21 +18428,21 @@ var g = &grammar{
 																									pos: position{line: 831, col: 5, offset: 26753},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2990, col: 11, offset: 94552},
+																											pos: position{line: 3000, col: 11, offset: 94858},
 																											expr: &anyMatcher{
-																												line: 2990, col: 13, offset: 94554,
+																												line: 3000, col: 13, offset: 94860,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 832, col: 5, offset: 26828},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 13, offset: 91905},
+																												pos: position{line: 2902, col: 13, offset: 92211},
 																												run: (*parser).callonDocumentHeader386,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2892, col: 13, offset: 91905},
+																													pos: position{line: 2902, col: 13, offset: 92211},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91905},
+																														pos:        position{line: 2902, col: 13, offset: 92211},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18452,28 +18452,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonDocumentHeader390,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18482,9 +18482,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -18546,10 +18546,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonDocumentHeader410,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -18558,28 +18558,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18588,9 +18588,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -18634,10 +18634,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1197, col: 21, offset: 36758},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonDocumentHeader428,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18739,10 +18739,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1209, col: 28, offset: 37389},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonDocumentHeader452,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18889,28 +18889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonDocumentHeader484,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18919,9 +18919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -19001,10 +19001,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 49, offset: 10952},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentHeader506,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19013,28 +19013,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentHeader509,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19043,9 +19043,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -19106,10 +19106,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 363, col: 39, offset: 11073},
 														expr: &actionExpr{
-															pos: position{line: 2973, col: 10, offset: 94218},
+															pos: position{line: 2983, col: 10, offset: 94524},
 															run: (*parser).callonDocumentHeader527,
 															expr: &charClassMatcher{
-																pos:        position{line: 2973, col: 10, offset: 94218},
+																pos:        position{line: 2983, col: 10, offset: 94524},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -19118,28 +19118,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentHeader530,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19148,9 +19148,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -19159,36 +19159,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											run: (*parser).callonDocumentHeader537,
 											expr: &seqExpr{
-												pos: position{line: 2540, col: 22, offset: 81861},
+												pos: position{line: 2550, col: 22, offset: 82167},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2545, col: 31, offset: 82082},
+														pos:        position{line: 2555, col: 31, offset: 82388},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2545, col: 36, offset: 82087},
+														pos: position{line: 2555, col: 36, offset: 82393},
 														expr: &litMatcher{
-															pos:        position{line: 2545, col: 37, offset: 82088},
+															pos:        position{line: 2555, col: 37, offset: 82394},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2540, col: 49, offset: 81888},
+														pos:   position{line: 2550, col: 49, offset: 82194},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															run: (*parser).callonDocumentHeader543,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2892, col: 13, offset: 91905},
+																pos: position{line: 2902, col: 13, offset: 92211},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91905},
+																	pos:        position{line: 2902, col: 13, offset: 92211},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -19198,28 +19198,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonDocumentHeader547,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19228,9 +19228,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -19284,10 +19284,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 762, col: 8, offset: 24351},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonDocumentHeader566,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19296,28 +19296,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonDocumentHeader569,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19326,9 +19326,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -19400,10 +19400,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 762, col: 8, offset: 24351},
 																												expr: &actionExpr{
-																													pos: position{line: 2973, col: 10, offset: 94218},
+																													pos: position{line: 2983, col: 10, offset: 94524},
 																													run: (*parser).callonDocumentHeader594,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2973, col: 10, offset: 94218},
+																														pos:        position{line: 2983, col: 10, offset: 94524},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19412,28 +19412,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2995, col: 8, offset: 94616},
+																												pos: position{line: 3005, col: 8, offset: 94922},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2982, col: 12, offset: 94389},
+																														pos: position{line: 2992, col: 12, offset: 94695},
 																														run: (*parser).callonDocumentHeader597,
 																														expr: &choiceExpr{
-																															pos: position{line: 2982, col: 13, offset: 94390},
+																															pos: position{line: 2992, col: 13, offset: 94696},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 13, offset: 94390},
+																																	pos:        position{line: 2992, col: 13, offset: 94696},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 20, offset: 94397},
+																																	pos:        position{line: 2992, col: 20, offset: 94703},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2982, col: 29, offset: 94406},
+																																	pos:        position{line: 2992, col: 29, offset: 94712},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19442,9 +19442,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2992, col: 8, offset: 94566},
+																														pos: position{line: 3002, col: 8, offset: 94872},
 																														expr: &anyMatcher{
-																															line: 2992, col: 9, offset: 94567,
+																															line: 3002, col: 9, offset: 94873,
 																														},
 																													},
 																												},
@@ -19460,9 +19460,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -19478,21 +19478,21 @@ var g = &grammar{
 																					pos: position{line: 831, col: 5, offset: 26753},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 832, col: 5, offset: 26828},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								run: (*parser).callonDocumentHeader613,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2892, col: 13, offset: 91905},
+																									pos: position{line: 2902, col: 13, offset: 92211},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91905},
+																										pos:        position{line: 2902, col: 13, offset: 92211},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19502,28 +19502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentHeader617,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19532,9 +19532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -19596,10 +19596,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 762, col: 8, offset: 24351},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonDocumentHeader637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -19608,28 +19608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonDocumentHeader640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19638,9 +19638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -19656,9 +19656,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -19691,12 +19691,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2977, col: 11, offset: 94279},
+							pos: position{line: 2987, col: 11, offset: 94585},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2977, col: 11, offset: 94279},
+								pos: position{line: 2987, col: 11, offset: 94585},
 								expr: &charClassMatcher{
-									pos:        position{line: 2977, col: 11, offset: 94279},
+									pos:        position{line: 2987, col: 11, offset: 94585},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19713,28 +19713,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19743,9 +19743,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -19784,10 +19784,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1172, col: 5, offset: 36162},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19819,10 +19819,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1176, col: 5, offset: 36261},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19854,10 +19854,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1180, col: 5, offset: 36358},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19923,12 +19923,12 @@ var g = &grammar{
 							pos:   position{line: 1313, col: 13, offset: 40658},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2958, col: 7, offset: 93870},
+								pos: position{line: 2968, col: 7, offset: 94176},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2958, col: 7, offset: 93870},
+									pos: position{line: 2968, col: 7, offset: 94176},
 									expr: &charClassMatcher{
-										pos:        position{line: 2958, col: 7, offset: 93870},
+										pos:        position{line: 2968, col: 7, offset: 94176},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19958,22 +19958,26 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 1320, col: 14, offset: 40990},
 					exprs: []interface{}{
-						&litMatcher{
-							pos:        position{line: 1320, col: 14, offset: 40990},
-							val:        "((",
-							ignoreCase: false,
-							want:       "\"((\"",
+						&actionExpr{
+							pos: position{line: 1324, col: 20, offset: 41118},
+							run: (*parser).callonIndexTerm3,
+							expr: &litMatcher{
+								pos:        position{line: 1324, col: 20, offset: 41118},
+								val:        "((",
+								ignoreCase: false,
+								want:       "\"((\"",
+							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 19, offset: 40995},
+							pos:   position{line: 1320, col: 30, offset: 41006},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 25, offset: 41001},
+								pos:  position{line: 1320, col: 36, offset: 41012},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1320, col: 43, offset: 41019},
+							pos:        position{line: 1320, col: 54, offset: 41030},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19984,67 +19988,101 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1324, col: 1, offset: 41088},
+			pos:  position{line: 1329, col: 1, offset: 41222},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 21, offset: 41108},
+				pos: position{line: 1329, col: 21, offset: 41242},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1324, col: 21, offset: 41108},
+					pos:   position{line: 1329, col: 21, offset: 41242},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1324, col: 30, offset: 41117},
-						expr: &choiceExpr{
-							pos: position{line: 1324, col: 31, offset: 41118},
-							alternatives: []interface{}{
-								&actionExpr{
-									pos: position{line: 2831, col: 14, offset: 90240},
-									run: (*parser).callonIndexTermContent5,
-									expr: &oneOrMoreExpr{
-										pos: position{line: 2831, col: 14, offset: 90240},
-										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 14, offset: 90240},
-											val:        "[\\pL\\pN]",
-											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-											ignoreCase: false,
-											inverted:   false,
+						pos: position{line: 1329, col: 30, offset: 41251},
+						expr: &ruleRefExpr{
+							pos:  position{line: 1329, col: 31, offset: 41252},
+							name: "IndexTermElement",
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "IndexTermElement",
+			pos:  position{line: 1333, col: 1, offset: 41337},
+			expr: &actionExpr{
+				pos: position{line: 1333, col: 21, offset: 41357},
+				run: (*parser).callonIndexTermElement1,
+				expr: &seqExpr{
+					pos: position{line: 1333, col: 21, offset: 41357},
+					exprs: []interface{}{
+						&notExpr{
+							pos: position{line: 1333, col: 21, offset: 41357},
+							expr: &litMatcher{
+								pos:        position{line: 1333, col: 22, offset: 41358},
+								val:        "))",
+								ignoreCase: false,
+								want:       "\"))\"",
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 1333, col: 27, offset: 41363},
+							label: "element",
+							expr: &choiceExpr{
+								pos: position{line: 1333, col: 36, offset: 41372},
+								alternatives: []interface{}{
+									&actionExpr{
+										pos: position{line: 2841, col: 14, offset: 90546},
+										run: (*parser).callonIndexTermElement7,
+										expr: &oneOrMoreExpr{
+											pos: position{line: 2841, col: 14, offset: 90546},
+											expr: &charClassMatcher{
+												pos:        position{line: 2841, col: 14, offset: 90546},
+												val:        "[\\pL\\pN]",
+												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+												ignoreCase: false,
+												inverted:   false,
+											},
 										},
 									},
-								},
-								&ruleRefExpr{
-									pos:  position{line: 1324, col: 43, offset: 41130},
-									name: "QuotedText",
-								},
-								&actionExpr{
-									pos: position{line: 2973, col: 10, offset: 94218},
-									run: (*parser).callonIndexTermContent9,
-									expr: &charClassMatcher{
-										pos:        position{line: 2973, col: 10, offset: 94218},
-										val:        "[\\t ]",
-										chars:      []rune{'\t', ' '},
-										ignoreCase: false,
-										inverted:   false,
+									&ruleRefExpr{
+										pos:  position{line: 1333, col: 48, offset: 41384},
+										name: "QuotedText",
 									},
-								},
-								&actionExpr{
-									pos: position{line: 2527, col: 5, offset: 81407},
-									run: (*parser).callonIndexTermContent11,
-									expr: &seqExpr{
-										pos: position{line: 2527, col: 5, offset: 81407},
-										exprs: []interface{}{
-											&andCodeExpr{
-												pos: position{line: 2527, col: 5, offset: 81407},
-												run: (*parser).callonIndexTermContent13,
+									&actionExpr{
+										pos: position{line: 2987, col: 11, offset: 94585},
+										run: (*parser).callonIndexTermElement11,
+										expr: &oneOrMoreExpr{
+											pos: position{line: 2987, col: 11, offset: 94585},
+											expr: &charClassMatcher{
+												pos:        position{line: 2987, col: 11, offset: 94585},
+												val:        "[\\t ]",
+												chars:      []rune{'\t', ' '},
+												ignoreCase: false,
+												inverted:   false,
 											},
-											&labeledExpr{
-												pos:   position{line: 2530, col: 5, offset: 81483},
-												label: "element",
-												expr: &actionExpr{
-													pos: position{line: 2531, col: 9, offset: 81501},
-													run: (*parser).callonIndexTermContent15,
+										},
+									},
+									&actionExpr{
+										pos: position{line: 2568, col: 5, offset: 82884},
+										run: (*parser).callonIndexTermElement14,
+										expr: &seqExpr{
+											pos: position{line: 2568, col: 5, offset: 82884},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2568, col: 5, offset: 82884},
+													run: (*parser).callonIndexTermElement16,
+												},
+												&litMatcher{
+													pos:        position{line: 2571, col: 5, offset: 82955},
+													val:        "\\'",
+													ignoreCase: false,
+													want:       "\"\\\\'\"",
+												},
+												&andExpr{
+													pos: position{line: 2571, col: 10, offset: 82960},
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 10, offset: 81502},
-														val:        "[<>&]",
-														chars:      []rune{'<', '>', '&'},
+														pos:        position{line: 2571, col: 11, offset: 82961},
+														val:        "[\\pL]",
+														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
 														inverted:   false,
 													},
@@ -20052,63 +20090,132 @@ var g = &grammar{
 											},
 										},
 									},
-								},
-								&actionExpr{
-									pos: position{line: 1226, col: 23, offset: 37843},
-									run: (*parser).callonIndexTermContent17,
-									expr: &seqExpr{
-										pos: position{line: 1226, col: 23, offset: 37843},
-										exprs: []interface{}{
-											&litMatcher{
-												pos:        position{line: 1224, col: 32, offset: 37811},
-												val:        "�",
-												ignoreCase: false,
-												want:       "\"�\"",
+									&actionExpr{
+										pos: position{line: 2577, col: 5, offset: 83147},
+										run: (*parser).callonIndexTermElement20,
+										expr: &seqExpr{
+											pos: position{line: 2577, col: 5, offset: 83147},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2577, col: 5, offset: 83147},
+													run: (*parser).callonIndexTermElement22,
+												},
+												&andCodeExpr{
+													pos: position{line: 2580, col: 5, offset: 83218},
+													run: (*parser).callonIndexTermElement23,
+												},
+												&litMatcher{
+													pos:        position{line: 2584, col: 5, offset: 83343},
+													val:        "'",
+													ignoreCase: false,
+													want:       "\"'\"",
+												},
+												&andExpr{
+													pos: position{line: 2584, col: 9, offset: 83347},
+													expr: &charClassMatcher{
+														pos:        position{line: 2584, col: 10, offset: 83348},
+														val:        "[\\pL]",
+														classes:    []*unicode.RangeTable{rangeTable("L")},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
 											},
-											&labeledExpr{
-												pos:   position{line: 1226, col: 51, offset: 37871},
-												label: "ref",
-												expr: &actionExpr{
-													pos: position{line: 1226, col: 56, offset: 37876},
-													run: (*parser).callonIndexTermContent21,
-													expr: &oneOrMoreExpr{
-														pos: position{line: 1226, col: 56, offset: 37876},
+										},
+									},
+									&ruleRefExpr{
+										pos:  position{line: 1333, col: 89, offset: 41425},
+										name: "Quote",
+									},
+									&ruleRefExpr{
+										pos:  position{line: 1333, col: 97, offset: 41433},
+										name: "Replacement",
+									},
+									&actionExpr{
+										pos: position{line: 2537, col: 5, offset: 81713},
+										run: (*parser).callonIndexTermElement29,
+										expr: &seqExpr{
+											pos: position{line: 2537, col: 5, offset: 81713},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2537, col: 5, offset: 81713},
+													run: (*parser).callonIndexTermElement31,
+												},
+												&labeledExpr{
+													pos:   position{line: 2540, col: 5, offset: 81789},
+													label: "element",
+													expr: &actionExpr{
+														pos: position{line: 2541, col: 9, offset: 81807},
+														run: (*parser).callonIndexTermElement33,
 														expr: &charClassMatcher{
-															pos:        position{line: 1226, col: 56, offset: 37876},
-															val:        "[0-9]",
-															ranges:     []rune{'0', '9'},
+															pos:        position{line: 2541, col: 10, offset: 81808},
+															val:        "[<>&]",
+															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 													},
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 1224, col: 32, offset: 37811},
-												val:        "�",
-												ignoreCase: false,
-												want:       "\"�\"",
-											},
 										},
 									},
-								},
-								&actionExpr{
-									pos: position{line: 1324, col: 104, offset: 41191},
-									run: (*parser).callonIndexTermContent25,
-									expr: &seqExpr{
-										pos: position{line: 1324, col: 105, offset: 41192},
-										exprs: []interface{}{
-											&notExpr{
-												pos: position{line: 1324, col: 105, offset: 41192},
-												expr: &litMatcher{
-													pos:        position{line: 1324, col: 106, offset: 41193},
-													val:        "))",
+									&actionExpr{
+										pos: position{line: 1226, col: 23, offset: 37843},
+										run: (*parser).callonIndexTermElement35,
+										expr: &seqExpr{
+											pos: position{line: 1226, col: 23, offset: 37843},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 1224, col: 32, offset: 37811},
+													val:        "�",
+													ignoreCase: false,
+													want:       "\"�\"",
+												},
+												&labeledExpr{
+													pos:   position{line: 1226, col: 51, offset: 37871},
+													label: "ref",
+													expr: &actionExpr{
+														pos: position{line: 1226, col: 56, offset: 37876},
+														run: (*parser).callonIndexTermElement39,
+														expr: &oneOrMoreExpr{
+															pos: position{line: 1226, col: 56, offset: 37876},
+															expr: &charClassMatcher{
+																pos:        position{line: 1226, col: 56, offset: 37876},
+																val:        "[0-9]",
+																ranges:     []rune{'0', '9'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+												&litMatcher{
+													pos:        position{line: 1224, col: 32, offset: 37811},
+													val:        "�",
 													ignoreCase: false,
-													want:       "\"))\"",
+													want:       "\"�\"",
 												},
 											},
-											&anyMatcher{
-												line: 1324, col: 111, offset: 41198,
+										},
+									},
+									&actionExpr{
+										pos: position{line: 1333, col: 151, offset: 41487},
+										run: (*parser).callonIndexTermElement43,
+										expr: &seqExpr{
+											pos: position{line: 1333, col: 152, offset: 41488},
+											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 1333, col: 152, offset: 41488},
+													expr: &litMatcher{
+														pos:        position{line: 1333, col: 153, offset: 41489},
+														val:        "))",
+														ignoreCase: false,
+														want:       "\"))\"",
+													},
+												},
+												&anyMatcher{
+													line: 1333, col: 158, offset: 41494,
+												},
 											},
 										},
 									},
@@ -20121,65 +20228,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1344, col: 1, offset: 41907},
+			pos:  position{line: 1354, col: 1, offset: 42213},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 5, offset: 41926},
+				pos: position{line: 1355, col: 5, offset: 42232},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 5, offset: 41926},
+					pos: position{line: 1355, col: 5, offset: 42232},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1345, col: 5, offset: 41926},
+							pos:        position{line: 1355, col: 5, offset: 42232},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 15, offset: 41936},
+							pos:   position{line: 1355, col: 15, offset: 42242},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2904, col: 13, offset: 92138},
+								pos: position{line: 2914, col: 13, offset: 92444},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2904, col: 13, offset: 92138},
+									pos: position{line: 2914, col: 13, offset: 92444},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2904, col: 13, offset: 92138},
+											pos:   position{line: 2914, col: 13, offset: 92444},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2904, col: 20, offset: 92145},
+												pos: position{line: 2914, col: 20, offset: 92451},
 												expr: &actionExpr{
-													pos: position{line: 2916, col: 11, offset: 92515},
+													pos: position{line: 2926, col: 11, offset: 92821},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2916, col: 12, offset: 92516},
+														pos: position{line: 2926, col: 12, offset: 92822},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2916, col: 12, offset: 92516},
+																pos:        position{line: 2926, col: 12, offset: 92822},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 24, offset: 92528},
+																pos:        position{line: 2926, col: 24, offset: 92834},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 37, offset: 92541},
+																pos:        position{line: 2926, col: 37, offset: 92847},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 48, offset: 92552},
+																pos:        position{line: 2926, col: 48, offset: 92858},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 59, offset: 92563},
+																pos:        position{line: 2926, col: 59, offset: 92869},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20190,38 +20297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2904, col: 30, offset: 92155},
+											pos:   position{line: 2914, col: 30, offset: 92461},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2921, col: 5, offset: 92627},
+												pos: position{line: 2931, col: 5, offset: 92933},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2921, col: 5, offset: 92627},
+													pos:   position{line: 2931, col: 5, offset: 92933},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2921, col: 14, offset: 92636},
+														pos: position{line: 2931, col: 14, offset: 92942},
 														expr: &choiceExpr{
-															pos: position{line: 2922, col: 9, offset: 92646},
+															pos: position{line: 2932, col: 9, offset: 92952},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2922, col: 9, offset: 92646},
+																		pos: position{line: 2932, col: 9, offset: 92952},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				expr: &litMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92647},
+																					pos:        position{line: 2932, col: 10, offset: 92953},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2923, col: 9, offset: 92675},
+																				pos: position{line: 2933, col: 9, offset: 92981},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 10, offset: 92676},
+																					pos:        position{line: 2933, col: 10, offset: 92982},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20232,27 +20339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2926, col: 11, offset: 92888},
+																	pos: position{line: 2936, col: 11, offset: 93194},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92888},
+																			pos:        position{line: 2936, col: 11, offset: 93194},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2926, col: 19, offset: 92896},
+																			pos: position{line: 2936, col: 19, offset: 93202},
 																			expr: &seqExpr{
-																				pos: position{line: 2926, col: 21, offset: 92898},
+																				pos: position{line: 2936, col: 21, offset: 93204},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20261,11 +20368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2926, col: 28, offset: 92905},
+																						pos: position{line: 2936, col: 28, offset: 93211},
 																						expr: &notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -20660,10 +20767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 93025},
+																	pos: position{line: 2939, col: 11, offset: 93331},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2929, col: 11, offset: 93025},
+																		pos:        position{line: 2939, col: 11, offset: 93331},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20680,20 +20787,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1345, col: 31, offset: 41952},
+							pos:   position{line: 1355, col: 31, offset: 42258},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1345, col: 43, offset: 41964},
+								pos:  position{line: 1355, col: 43, offset: 42270},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1345, col: 61, offset: 41982},
+							pos: position{line: 1355, col: 61, offset: 42288},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20702,28 +20809,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20732,9 +20839,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -20745,74 +20852,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1350, col: 1, offset: 42199},
+			pos:  position{line: 1360, col: 1, offset: 42505},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 16, offset: 42214},
+				pos: position{line: 1360, col: 16, offset: 42520},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 16, offset: 42214},
+					pos: position{line: 1360, col: 16, offset: 42520},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1350, col: 16, offset: 42214},
+							pos:        position{line: 1360, col: 16, offset: 42520},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1350, col: 25, offset: 42223},
+							pos: position{line: 1360, col: 25, offset: 42529},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 26, offset: 42224},
+								pos:        position{line: 1360, col: 26, offset: 42530},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 30, offset: 42228},
+							pos:   position{line: 1360, col: 30, offset: 42534},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2904, col: 13, offset: 92138},
+								pos: position{line: 2914, col: 13, offset: 92444},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2904, col: 13, offset: 92138},
+									pos: position{line: 2914, col: 13, offset: 92444},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2904, col: 13, offset: 92138},
+											pos:   position{line: 2914, col: 13, offset: 92444},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2904, col: 20, offset: 92145},
+												pos: position{line: 2914, col: 20, offset: 92451},
 												expr: &actionExpr{
-													pos: position{line: 2916, col: 11, offset: 92515},
+													pos: position{line: 2926, col: 11, offset: 92821},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2916, col: 12, offset: 92516},
+														pos: position{line: 2926, col: 12, offset: 92822},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2916, col: 12, offset: 92516},
+																pos:        position{line: 2926, col: 12, offset: 92822},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 24, offset: 92528},
+																pos:        position{line: 2926, col: 24, offset: 92834},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 37, offset: 92541},
+																pos:        position{line: 2926, col: 37, offset: 92847},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 48, offset: 92552},
+																pos:        position{line: 2926, col: 48, offset: 92858},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2916, col: 59, offset: 92563},
+																pos:        position{line: 2926, col: 59, offset: 92869},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20823,38 +20930,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2904, col: 30, offset: 92155},
+											pos:   position{line: 2914, col: 30, offset: 92461},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2921, col: 5, offset: 92627},
+												pos: position{line: 2931, col: 5, offset: 92933},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2921, col: 5, offset: 92627},
+													pos:   position{line: 2931, col: 5, offset: 92933},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2921, col: 14, offset: 92636},
+														pos: position{line: 2931, col: 14, offset: 92942},
 														expr: &choiceExpr{
-															pos: position{line: 2922, col: 9, offset: 92646},
+															pos: position{line: 2932, col: 9, offset: 92952},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2922, col: 9, offset: 92646},
+																		pos: position{line: 2932, col: 9, offset: 92952},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				expr: &litMatcher{
-																					pos:        position{line: 2922, col: 10, offset: 92647},
+																					pos:        position{line: 2932, col: 10, offset: 92953},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2923, col: 9, offset: 92675},
+																				pos: position{line: 2933, col: 9, offset: 92981},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2923, col: 10, offset: 92676},
+																					pos:        position{line: 2933, col: 10, offset: 92982},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20865,27 +20972,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2926, col: 11, offset: 92888},
+																	pos: position{line: 2936, col: 11, offset: 93194},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2926, col: 11, offset: 92888},
+																			pos:        position{line: 2936, col: 11, offset: 93194},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2926, col: 19, offset: 92896},
+																			pos: position{line: 2936, col: 19, offset: 93202},
 																			expr: &seqExpr{
-																				pos: position{line: 2926, col: 21, offset: 92898},
+																				pos: position{line: 2936, col: 21, offset: 93204},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20894,11 +21001,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2926, col: 28, offset: 92905},
+																						pos: position{line: 2936, col: 28, offset: 93211},
 																						expr: &notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -21293,10 +21400,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2929, col: 11, offset: 93025},
+																	pos: position{line: 2939, col: 11, offset: 93331},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2929, col: 11, offset: 93025},
+																		pos:        position{line: 2939, col: 11, offset: 93331},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21313,10 +21420,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 46, offset: 42244},
+							pos:   position{line: 1360, col: 46, offset: 42550},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1350, col: 58, offset: 42256},
+								pos:  position{line: 1360, col: 58, offset: 42562},
 								name: "InlineAttributes",
 							},
 						},
@@ -21326,29 +21433,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1357, col: 1, offset: 42652},
+			pos:  position{line: 1367, col: 1, offset: 42958},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 15, offset: 42666},
+				pos: position{line: 1367, col: 15, offset: 42972},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 15, offset: 42666},
+					pos: position{line: 1367, col: 15, offset: 42972},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1357, col: 15, offset: 42666},
+							pos:        position{line: 1367, col: 15, offset: 42972},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 23, offset: 42674},
+							pos:   position{line: 1367, col: 23, offset: 42980},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1357, col: 29, offset: 42680},
+								pos: position{line: 1367, col: 29, offset: 42986},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1357, col: 29, offset: 42680},
+									pos: position{line: 1367, col: 29, offset: 42986},
 									expr: &charClassMatcher{
-										pos:        position{line: 1357, col: 29, offset: 42680},
+										pos:        position{line: 1367, col: 29, offset: 42986},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21359,10 +21466,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 73, offset: 42724},
+							pos:   position{line: 1367, col: 73, offset: 43030},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1357, col: 85, offset: 42736},
+								pos:  position{line: 1367, col: 85, offset: 43042},
 								name: "InlineAttributes",
 							},
 						},
@@ -21372,31 +21479,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1364, col: 1, offset: 43102},
+			pos:  position{line: 1374, col: 1, offset: 43408},
 			expr: &actionExpr{
-				pos: position{line: 1364, col: 19, offset: 43120},
+				pos: position{line: 1374, col: 19, offset: 43426},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1364, col: 19, offset: 43120},
+					pos: position{line: 1374, col: 19, offset: 43426},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1364, col: 19, offset: 43120},
+							pos:        position{line: 1374, col: 19, offset: 43426},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 31, offset: 43132},
+							pos:   position{line: 1374, col: 31, offset: 43438},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1364, col: 35, offset: 43136},
+								pos: position{line: 1374, col: 35, offset: 43442},
 								expr: &actionExpr{
-									pos: position{line: 1368, col: 16, offset: 43296},
+									pos: position{line: 1378, col: 16, offset: 43602},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1368, col: 16, offset: 43296},
+										pos: position{line: 1378, col: 16, offset: 43602},
 										expr: &charClassMatcher{
-											pos:        position{line: 1368, col: 16, offset: 43296},
+											pos:        position{line: 1378, col: 16, offset: 43602},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21408,21 +21515,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 50, offset: 43151},
+							pos:        position{line: 1374, col: 50, offset: 43457},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1364, col: 54, offset: 43155},
+							pos:   position{line: 1374, col: 54, offset: 43461},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1364, col: 64, offset: 43165},
+								pos:  position{line: 1374, col: 64, offset: 43471},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1364, col: 82, offset: 43183},
+							pos:        position{line: 1374, col: 82, offset: 43489},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21433,17 +21540,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1370, col: 1, offset: 43340},
+			pos:  position{line: 1380, col: 1, offset: 43646},
 			expr: &actionExpr{
-				pos: position{line: 1370, col: 21, offset: 43360},
+				pos: position{line: 1380, col: 21, offset: 43666},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1370, col: 21, offset: 43360},
+					pos:   position{line: 1380, col: 21, offset: 43666},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1370, col: 30, offset: 43369},
+						pos: position{line: 1380, col: 30, offset: 43675},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1370, col: 31, offset: 43370},
+							pos:  position{line: 1380, col: 31, offset: 43676},
 							name: "FootnoteElement",
 						},
 					},
@@ -21452,53 +21559,53 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1374, col: 1, offset: 43462},
+			pos:  position{line: 1384, col: 1, offset: 43768},
 			expr: &actionExpr{
-				pos: position{line: 1375, col: 5, offset: 43486},
+				pos: position{line: 1385, col: 5, offset: 43792},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1375, col: 5, offset: 43486},
+					pos: position{line: 1385, col: 5, offset: 43792},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1375, col: 5, offset: 43486},
+							pos: position{line: 1385, col: 5, offset: 43792},
 							expr: &litMatcher{
-								pos:        position{line: 1375, col: 6, offset: 43487},
+								pos:        position{line: 1385, col: 6, offset: 43793},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1376, col: 5, offset: 43496},
+							pos:   position{line: 1386, col: 5, offset: 43802},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1377, col: 9, offset: 43514},
+								pos: position{line: 1387, col: 9, offset: 43820},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90313},
+										pos: position{line: 2846, col: 5, offset: 90619},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90313},
+											pos: position{line: 2846, col: 5, offset: 90619},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90313},
+													pos: position{line: 2846, col: 5, offset: 90619},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90324},
+														pos: position{line: 2847, col: 9, offset: 90630},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90324},
+																pos: position{line: 2847, col: 9, offset: 90630},
 																run: (*parser).callonFootnoteElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90387},
+																pos:   position{line: 2850, col: 9, offset: 90693},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89699},
+																	pos: position{line: 2822, col: 18, offset: 90005},
 																	run: (*parser).callonFootnoteElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89700},
+																		pos: position{line: 2822, col: 19, offset: 90006},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89700},
+																			pos:        position{line: 2822, col: 19, offset: 90006},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21509,28 +21616,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90408},
+																pos:        position{line: 2850, col: 30, offset: 90714},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90495},
+																pos: position{line: 2851, col: 9, offset: 90801},
 																run: (*parser).callonFootnoteElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90607},
+													pos:   position{line: 2855, col: 5, offset: 90913},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90613},
+														pos: position{line: 2855, col: 11, offset: 90919},
 														run: (*parser).callonFootnoteElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90613},
+															pos: position{line: 2855, col: 11, offset: 90919},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90613},
+																pos:        position{line: 2855, col: 11, offset: 90919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21540,32 +21647,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90671},
+													pos: position{line: 2858, col: 5, offset: 90977},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90682},
+														pos: position{line: 2859, col: 9, offset: 90988},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90682},
+																pos:        position{line: 2859, col: 9, offset: 90988},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90731},
+																pos: position{line: 2860, col: 9, offset: 91037},
 																run: (*parser).callonFootnoteElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90811},
+													pos: position{line: 2864, col: 5, offset: 91117},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90822},
+														pos: position{line: 2865, col: 9, offset: 91128},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90822},
+																pos: position{line: 2865, col: 9, offset: 91128},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90822},
+																	pos:        position{line: 2865, col: 9, offset: 91128},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21574,13 +21681,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90836},
+																pos:        position{line: 2865, col: 23, offset: 91142},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90840},
+																pos:        position{line: 2865, col: 27, offset: 91146},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21593,12 +21700,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2977, col: 11, offset: 94279},
+										pos: position{line: 2987, col: 11, offset: 94585},
 										run: (*parser).callonFootnoteElement32,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2977, col: 11, offset: 94279},
+											pos: position{line: 2987, col: 11, offset: 94585},
 											expr: &charClassMatcher{
-												pos:        position{line: 2977, col: 11, offset: 94279},
+												pos:        position{line: 2987, col: 11, offset: 94585},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21607,25 +21714,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82578},
+										pos: position{line: 2568, col: 5, offset: 82884},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82578},
+											pos: position{line: 2568, col: 5, offset: 82884},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82578},
+													pos: position{line: 2568, col: 5, offset: 82884},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82649},
+													pos:        position{line: 2571, col: 5, offset: 82955},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82654},
+													pos: position{line: 2571, col: 10, offset: 82960},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82655},
+														pos:        position{line: 2571, col: 11, offset: 82961},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21636,29 +21743,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82841},
+										pos: position{line: 2577, col: 5, offset: 83147},
 										run: (*parser).callonFootnoteElement41,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82841},
+											pos: position{line: 2577, col: 5, offset: 83147},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82841},
+													pos: position{line: 2577, col: 5, offset: 83147},
 													run: (*parser).callonFootnoteElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82912},
+													pos: position{line: 2580, col: 5, offset: 83218},
 													run: (*parser).callonFootnoteElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 83037},
+													pos:        position{line: 2584, col: 5, offset: 83343},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 83041},
+													pos: position{line: 2584, col: 9, offset: 83347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 83042},
+														pos:        position{line: 2584, col: 10, offset: 83348},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21669,35 +21776,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1380, col: 11, offset: 43581},
+										pos:  position{line: 1390, col: 11, offset: 43887},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1381, col: 11, offset: 43597},
+										pos:  position{line: 1391, col: 11, offset: 43903},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 91033},
+										pos: position{line: 2873, col: 5, offset: 91339},
 										run: (*parser).callonFootnoteElement50,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 91043},
+											pos: position{line: 2874, col: 9, offset: 91349},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 91044},
+													pos:        position{line: 2874, col: 10, offset: 91350},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91141},
+													pos: position{line: 2876, col: 13, offset: 91447},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91141},
+															pos: position{line: 2876, col: 13, offset: 91447},
 															run: (*parser).callonFootnoteElement54,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91241},
+															pos:        position{line: 2879, col: 13, offset: 91547},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21705,20 +21812,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91247},
+													pos:        position{line: 2879, col: 19, offset: 91553},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91285},
+													pos: position{line: 2882, col: 13, offset: 91591},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91285},
+															pos: position{line: 2882, col: 13, offset: 91591},
 															run: (*parser).callonFootnoteElement58,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91378},
+															pos:        position{line: 2885, col: 14, offset: 91684},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21727,18 +21834,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91422},
+													pos: position{line: 2887, col: 12, offset: 91728},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91422},
+															pos:        position{line: 2887, col: 12, offset: 91728},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91426},
+															pos: position{line: 2887, col: 16, offset: 91732},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91427},
+																pos:        position{line: 2887, col: 17, offset: 91733},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21750,7 +21857,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1383, col: 11, offset: 43670},
+										pos:  position{line: 1393, col: 11, offset: 43976},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -21776,10 +21883,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1242, col: 5, offset: 38460},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonFootnoteElement71,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21790,28 +21897,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1242, col: 12, offset: 38467},
 													expr: &choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonFootnoteElement75,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21820,9 +21927,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -22178,23 +22285,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81407},
+										pos: position{line: 2537, col: 5, offset: 81713},
 										run: (*parser).callonFootnoteElement151,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81407},
+													pos: position{line: 2537, col: 5, offset: 81713},
 													run: (*parser).callonFootnoteElement153,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81483},
+													pos:   position{line: 2540, col: 5, offset: 81789},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81501},
+														pos: position{line: 2541, col: 9, offset: 81807},
 														run: (*parser).callonFootnoteElement155,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81502},
+															pos:        position{line: 2541, col: 10, offset: 81808},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -22206,25 +22313,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94389},
+										pos: position{line: 2992, col: 12, offset: 94695},
 										run: (*parser).callonFootnoteElement157,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94390},
+											pos: position{line: 2992, col: 13, offset: 94696},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94390},
+													pos:        position{line: 2992, col: 13, offset: 94696},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94397},
+													pos:        position{line: 2992, col: 20, offset: 94703},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94406},
+													pos:        position{line: 2992, col: 29, offset: 94712},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -22233,10 +22340,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91687},
+										pos: position{line: 2895, col: 12, offset: 91993},
 										run: (*parser).callonFootnoteElement162,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91687},
+											pos:        position{line: 2895, col: 12, offset: 91993},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22252,32 +22359,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1426, col: 1, offset: 45569},
+			pos:  position{line: 1436, col: 1, offset: 45875},
 			expr: &choiceExpr{
-				pos: position{line: 1426, col: 21, offset: 45589},
+				pos: position{line: 1436, col: 21, offset: 45895},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1426, col: 21, offset: 45589},
+						pos: position{line: 1436, col: 21, offset: 45895},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1426, col: 21, offset: 45589},
+							pos: position{line: 1436, col: 21, offset: 45895},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1426, col: 21, offset: 45589},
+									pos:        position{line: 1436, col: 21, offset: 45895},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1426, col: 30, offset: 45598},
+									pos:   position{line: 1436, col: 30, offset: 45904},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1426, col: 38, offset: 45606},
+										pos: position{line: 1436, col: 38, offset: 45912},
 										expr: &actionExpr{
-											pos: position{line: 1442, col: 30, offset: 46248},
+											pos: position{line: 1452, col: 30, offset: 46554},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1442, col: 30, offset: 46248},
+												pos:        position{line: 1452, col: 30, offset: 46554},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22287,7 +22394,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1426, col: 67, offset: 45635},
+									pos:        position{line: 1436, col: 67, offset: 45941},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22296,34 +22403,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1428, col: 9, offset: 45739},
+						pos: position{line: 1438, col: 9, offset: 46045},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1428, col: 9, offset: 45739},
+							pos: position{line: 1438, col: 9, offset: 46045},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1432, col: 37, offset: 45957},
+									pos: position{line: 1442, col: 37, offset: 46263},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1432, col: 37, offset: 45957},
+										pos:        position{line: 1442, col: 37, offset: 46263},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 42, offset: 45772},
+									pos:   position{line: 1438, col: 42, offset: 46078},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1428, col: 50, offset: 45780},
+										pos: position{line: 1438, col: 50, offset: 46086},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1428, col: 51, offset: 45781},
+											pos:  position{line: 1438, col: 51, offset: 46087},
 											name: "PassthroughMacroWithQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1428, col: 87, offset: 45817},
+									pos:        position{line: 1438, col: 87, offset: 46123},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22336,25 +22443,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroWithQuotesElement",
-			pos:  position{line: 1437, col: 1, offset: 46064},
+			pos:  position{line: 1447, col: 1, offset: 46370},
 			expr: &actionExpr{
-				pos: position{line: 1437, col: 38, offset: 46101},
+				pos: position{line: 1447, col: 38, offset: 46407},
 				run: (*parser).callonPassthroughMacroWithQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1437, col: 38, offset: 46101},
+					pos:   position{line: 1447, col: 38, offset: 46407},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1437, col: 47, offset: 46110},
+						pos: position{line: 1447, col: 47, offset: 46416},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1437, col: 47, offset: 46110},
+								pos:  position{line: 1447, col: 47, offset: 46416},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1442, col: 30, offset: 46248},
+								pos: position{line: 1452, col: 30, offset: 46554},
 								run: (*parser).callonPassthroughMacroWithQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1442, col: 30, offset: 46248},
+									pos:        position{line: 1452, col: 30, offset: 46554},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -22368,75 +22475,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1449, col: 1, offset: 46504},
+			pos:  position{line: 1459, col: 1, offset: 46810},
 			expr: &choiceExpr{
-				pos: position{line: 1449, col: 9, offset: 46512},
+				pos: position{line: 1459, col: 9, offset: 46818},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1452, col: 5, offset: 46581},
+						pos: position{line: 1462, col: 5, offset: 46887},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1452, col: 5, offset: 46581},
+							pos: position{line: 1462, col: 5, offset: 46887},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1452, col: 5, offset: 46581},
+									pos:        position{line: 1462, col: 5, offset: 46887},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 5, offset: 46590},
+									pos:   position{line: 1463, col: 5, offset: 46896},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92265},
+										pos: position{line: 2918, col: 23, offset: 92571},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92265},
+											pos: position{line: 2918, col: 23, offset: 92571},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92265},
+													pos: position{line: 2918, col: 23, offset: 92571},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92266},
+														pos:        position{line: 2918, col: 24, offset: 92572},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92270},
+													pos:   position{line: 2918, col: 28, offset: 92576},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92515},
+														pos: position{line: 2926, col: 11, offset: 92821},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92516},
+															pos: position{line: 2926, col: 12, offset: 92822},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92516},
+																	pos:        position{line: 2926, col: 12, offset: 92822},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92528},
+																	pos:        position{line: 2926, col: 24, offset: 92834},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92541},
+																	pos:        position{line: 2926, col: 37, offset: 92847},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92552},
+																	pos:        position{line: 2926, col: 48, offset: 92858},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92563},
+																	pos:        position{line: 2926, col: 59, offset: 92869},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22446,38 +22553,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92286},
+													pos:   position{line: 2918, col: 44, offset: 92592},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22488,27 +22595,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22517,11 +22624,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -22916,10 +23023,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22936,7 +23043,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1458, col: 5, offset: 46809},
+									pos:        position{line: 1468, col: 5, offset: 47115},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22945,38 +23052,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1449, col: 19, offset: 46522},
+						pos:  position{line: 1459, col: 19, offset: 46828},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1449, col: 34, offset: 46537},
+						pos:  position{line: 1459, col: 34, offset: 46843},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1492, col: 17, offset: 47919},
+						pos: position{line: 1502, col: 17, offset: 48225},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1492, col: 17, offset: 47919},
+							pos: position{line: 1502, col: 17, offset: 48225},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1492, col: 17, offset: 47919},
+									pos:   position{line: 1502, col: 17, offset: 48225},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1497, col: 5, offset: 48084},
+										pos: position{line: 1507, col: 5, offset: 48390},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1497, col: 5, offset: 48084},
+											pos: position{line: 1507, col: 5, offset: 48390},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1497, col: 5, offset: 48084},
+													pos:   position{line: 1507, col: 5, offset: 48390},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1497, col: 12, offset: 48091},
+														pos: position{line: 1507, col: 12, offset: 48397},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1497, col: 12, offset: 48091},
+															pos: position{line: 1507, col: 12, offset: 48397},
 															expr: &charClassMatcher{
-																pos:        position{line: 1497, col: 12, offset: 48091},
+																pos:        position{line: 1507, col: 12, offset: 48397},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22988,7 +23095,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1500, col: 5, offset: 48175},
+													pos: position{line: 1510, col: 5, offset: 48481},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22996,33 +23103,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1492, col: 43, offset: 47945},
+									pos:        position{line: 1502, col: 43, offset: 48251},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1492, col: 47, offset: 47949},
+									pos:   position{line: 1502, col: 47, offset: 48255},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1509, col: 23, offset: 48469},
+										pos: position{line: 1519, col: 23, offset: 48775},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1509, col: 23, offset: 48469},
+											pos: position{line: 1519, col: 23, offset: 48775},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1509, col: 23, offset: 48469},
+													pos:   position{line: 1519, col: 23, offset: 48775},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1509, col: 31, offset: 48477},
+														pos: position{line: 1519, col: 31, offset: 48783},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1509, col: 31, offset: 48477},
+															pos: position{line: 1519, col: 31, offset: 48783},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1509, col: 31, offset: 48477},
+																	pos: position{line: 1519, col: 31, offset: 48783},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1509, col: 31, offset: 48477},
+																		pos:        position{line: 1519, col: 31, offset: 48783},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -23030,23 +23137,23 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1509, col: 41, offset: 48487},
+																	pos: position{line: 1519, col: 41, offset: 48793},
 																	expr: &seqExpr{
-																		pos: position{line: 1509, col: 42, offset: 48488},
+																		pos: position{line: 1519, col: 42, offset: 48794},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 1509, col: 42, offset: 48488},
+																				pos: position{line: 1519, col: 42, offset: 48794},
 																				expr: &litMatcher{
-																					pos:        position{line: 1509, col: 42, offset: 48488},
+																					pos:        position{line: 1519, col: 42, offset: 48794},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1509, col: 47, offset: 48493},
+																				pos: position{line: 1519, col: 47, offset: 48799},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1509, col: 47, offset: 48493},
+																					pos:        position{line: 1519, col: 47, offset: 48799},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -23057,20 +23164,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1509, col: 59, offset: 48505},
+																	pos: position{line: 1519, col: 59, offset: 48811},
 																	expr: &seqExpr{
-																		pos: position{line: 1509, col: 60, offset: 48506},
+																		pos: position{line: 1519, col: 60, offset: 48812},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1509, col: 60, offset: 48506},
+																				pos:        position{line: 1519, col: 60, offset: 48812},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1509, col: 64, offset: 48510},
+																				pos: position{line: 1519, col: 64, offset: 48816},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1509, col: 64, offset: 48510},
+																					pos:        position{line: 1519, col: 64, offset: 48816},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23086,7 +23193,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1512, col: 5, offset: 48571},
+													pos: position{line: 1522, col: 5, offset: 48877},
 													run: (*parser).callonLink151,
 												},
 											},
@@ -23101,68 +23208,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1464, col: 1, offset: 46957},
+			pos:  position{line: 1474, col: 1, offset: 47263},
 			expr: &choiceExpr{
-				pos: position{line: 1466, col: 5, offset: 46993},
+				pos: position{line: 1476, col: 5, offset: 47299},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1466, col: 5, offset: 46993},
+						pos: position{line: 1476, col: 5, offset: 47299},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1466, col: 5, offset: 46993},
+							pos: position{line: 1476, col: 5, offset: 47299},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1466, col: 5, offset: 46993},
+									pos:        position{line: 1476, col: 5, offset: 47299},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1466, col: 17, offset: 47005},
+									pos:   position{line: 1476, col: 17, offset: 47311},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2904, col: 13, offset: 92138},
+										pos: position{line: 2914, col: 13, offset: 92444},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2904, col: 13, offset: 92138},
+											pos: position{line: 2914, col: 13, offset: 92444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2904, col: 13, offset: 92138},
+													pos:   position{line: 2914, col: 13, offset: 92444},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2904, col: 20, offset: 92145},
+														pos: position{line: 2914, col: 20, offset: 92451},
 														expr: &actionExpr{
-															pos: position{line: 2916, col: 11, offset: 92515},
+															pos: position{line: 2926, col: 11, offset: 92821},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2916, col: 12, offset: 92516},
+																pos: position{line: 2926, col: 12, offset: 92822},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 12, offset: 92516},
+																		pos:        position{line: 2926, col: 12, offset: 92822},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 24, offset: 92528},
+																		pos:        position{line: 2926, col: 24, offset: 92834},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 37, offset: 92541},
+																		pos:        position{line: 2926, col: 37, offset: 92847},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 48, offset: 92552},
+																		pos:        position{line: 2926, col: 48, offset: 92858},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 59, offset: 92563},
+																		pos:        position{line: 2926, col: 59, offset: 92869},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23173,38 +23280,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2904, col: 30, offset: 92155},
+													pos:   position{line: 2914, col: 30, offset: 92461},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23215,27 +23322,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23244,11 +23351,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -23643,10 +23750,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23663,10 +23770,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1466, col: 32, offset: 47020},
+									pos:   position{line: 1476, col: 32, offset: 47326},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1466, col: 44, offset: 47032},
+										pos:  position{line: 1476, col: 44, offset: 47338},
 										name: "InlineAttributes",
 									},
 								},
@@ -23674,63 +23781,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1471, col: 5, offset: 47158},
+						pos: position{line: 1481, col: 5, offset: 47464},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1471, col: 5, offset: 47158},
+							pos: position{line: 1481, col: 5, offset: 47464},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1471, col: 5, offset: 47158},
+									pos:        position{line: 1481, col: 5, offset: 47464},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1471, col: 13, offset: 47166},
+									pos:   position{line: 1481, col: 13, offset: 47472},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2904, col: 13, offset: 92138},
+										pos: position{line: 2914, col: 13, offset: 92444},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2904, col: 13, offset: 92138},
+											pos: position{line: 2914, col: 13, offset: 92444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2904, col: 13, offset: 92138},
+													pos:   position{line: 2914, col: 13, offset: 92444},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2904, col: 20, offset: 92145},
+														pos: position{line: 2914, col: 20, offset: 92451},
 														expr: &actionExpr{
-															pos: position{line: 2916, col: 11, offset: 92515},
+															pos: position{line: 2926, col: 11, offset: 92821},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2916, col: 12, offset: 92516},
+																pos: position{line: 2926, col: 12, offset: 92822},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 12, offset: 92516},
+																		pos:        position{line: 2926, col: 12, offset: 92822},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 24, offset: 92528},
+																		pos:        position{line: 2926, col: 24, offset: 92834},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 37, offset: 92541},
+																		pos:        position{line: 2926, col: 37, offset: 92847},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 48, offset: 92552},
+																		pos:        position{line: 2926, col: 48, offset: 92858},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2916, col: 59, offset: 92563},
+																		pos:        position{line: 2926, col: 59, offset: 92869},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23741,38 +23848,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2904, col: 30, offset: 92155},
+													pos:   position{line: 2914, col: 30, offset: 92461},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23783,27 +23890,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23812,11 +23919,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -24211,10 +24318,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24231,10 +24338,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1471, col: 28, offset: 47181},
+									pos:   position{line: 1481, col: 28, offset: 47487},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1471, col: 40, offset: 47193},
+										pos:  position{line: 1481, col: 40, offset: 47499},
 										name: "InlineAttributes",
 									},
 								},
@@ -24246,75 +24353,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1475, col: 1, offset: 47309},
+			pos:  position{line: 1485, col: 1, offset: 47615},
 			expr: &choiceExpr{
-				pos: position{line: 1478, col: 5, offset: 47471},
+				pos: position{line: 1488, col: 5, offset: 47777},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1478, col: 5, offset: 47471},
+						pos: position{line: 1488, col: 5, offset: 47777},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1478, col: 5, offset: 47471},
+							pos: position{line: 1488, col: 5, offset: 47777},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1478, col: 5, offset: 47471},
+									pos:        position{line: 1488, col: 5, offset: 47777},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1478, col: 9, offset: 47475},
+									pos:   position{line: 1488, col: 9, offset: 47781},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92265},
+										pos: position{line: 2918, col: 23, offset: 92571},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92265},
+											pos: position{line: 2918, col: 23, offset: 92571},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92265},
+													pos: position{line: 2918, col: 23, offset: 92571},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92266},
+														pos:        position{line: 2918, col: 24, offset: 92572},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92270},
+													pos:   position{line: 2918, col: 28, offset: 92576},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92515},
+														pos: position{line: 2926, col: 11, offset: 92821},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92516},
+															pos: position{line: 2926, col: 12, offset: 92822},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92516},
+																	pos:        position{line: 2926, col: 12, offset: 92822},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92528},
+																	pos:        position{line: 2926, col: 24, offset: 92834},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92541},
+																	pos:        position{line: 2926, col: 37, offset: 92847},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92552},
+																	pos:        position{line: 2926, col: 48, offset: 92858},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92563},
+																	pos:        position{line: 2926, col: 59, offset: 92869},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24324,38 +24431,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92286},
+													pos:   position{line: 2918, col: 44, offset: 92592},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24366,27 +24473,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24395,11 +24502,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -24794,10 +24901,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24814,12 +24921,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1478, col: 34, offset: 47500},
+									pos:   position{line: 1488, col: 34, offset: 47806},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1478, col: 45, offset: 47511},
+										pos: position{line: 1488, col: 45, offset: 47817},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1478, col: 46, offset: 47512},
+											pos:  position{line: 1488, col: 46, offset: 47818},
 											name: "InlineAttributes",
 										},
 									},
@@ -24828,64 +24935,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1483, col: 5, offset: 47639},
+						pos: position{line: 1493, col: 5, offset: 47945},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1483, col: 5, offset: 47639},
+							pos: position{line: 1493, col: 5, offset: 47945},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1483, col: 5, offset: 47639},
+									pos:   position{line: 1493, col: 5, offset: 47945},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2908, col: 23, offset: 92265},
+										pos: position{line: 2918, col: 23, offset: 92571},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2908, col: 23, offset: 92265},
+											pos: position{line: 2918, col: 23, offset: 92571},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2908, col: 23, offset: 92265},
+													pos: position{line: 2918, col: 23, offset: 92571},
 													expr: &litMatcher{
-														pos:        position{line: 2908, col: 24, offset: 92266},
+														pos:        position{line: 2918, col: 24, offset: 92572},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 28, offset: 92270},
+													pos:   position{line: 2918, col: 28, offset: 92576},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2916, col: 11, offset: 92515},
+														pos: position{line: 2926, col: 11, offset: 92821},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2916, col: 12, offset: 92516},
+															pos: position{line: 2926, col: 12, offset: 92822},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2916, col: 12, offset: 92516},
+																	pos:        position{line: 2926, col: 12, offset: 92822},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 24, offset: 92528},
+																	pos:        position{line: 2926, col: 24, offset: 92834},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 37, offset: 92541},
+																	pos:        position{line: 2926, col: 37, offset: 92847},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 48, offset: 92552},
+																	pos:        position{line: 2926, col: 48, offset: 92858},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2916, col: 59, offset: 92563},
+																	pos:        position{line: 2926, col: 59, offset: 92869},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24895,38 +25002,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2908, col: 44, offset: 92286},
+													pos:   position{line: 2918, col: 44, offset: 92592},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2921, col: 5, offset: 92627},
+														pos: position{line: 2931, col: 5, offset: 92933},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2921, col: 5, offset: 92627},
+															pos:   position{line: 2931, col: 5, offset: 92933},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2921, col: 14, offset: 92636},
+																pos: position{line: 2931, col: 14, offset: 92942},
 																expr: &choiceExpr{
-																	pos: position{line: 2922, col: 9, offset: 92646},
+																	pos: position{line: 2932, col: 9, offset: 92952},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2922, col: 9, offset: 92646},
+																			pos: position{line: 2932, col: 9, offset: 92952},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2922, col: 9, offset: 92646},
+																				pos: position{line: 2932, col: 9, offset: 92952},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2922, col: 9, offset: 92646},
+																						pos: position{line: 2932, col: 9, offset: 92952},
 																						expr: &litMatcher{
-																							pos:        position{line: 2922, col: 10, offset: 92647},
+																							pos:        position{line: 2932, col: 10, offset: 92953},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2923, col: 9, offset: 92675},
+																						pos: position{line: 2933, col: 9, offset: 92981},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2923, col: 10, offset: 92676},
+																							pos:        position{line: 2933, col: 10, offset: 92982},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24937,27 +25044,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2926, col: 11, offset: 92888},
+																			pos: position{line: 2936, col: 11, offset: 93194},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2926, col: 11, offset: 92888},
+																					pos:        position{line: 2936, col: 11, offset: 93194},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2926, col: 19, offset: 92896},
+																					pos: position{line: 2936, col: 19, offset: 93202},
 																					expr: &seqExpr{
-																						pos: position{line: 2926, col: 21, offset: 92898},
+																						pos: position{line: 2936, col: 21, offset: 93204},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2926, col: 21, offset: 92898},
+																								pos: position{line: 2936, col: 21, offset: 93204},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24966,11 +25073,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2926, col: 28, offset: 92905},
+																								pos: position{line: 2936, col: 28, offset: 93211},
 																								expr: &notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -25365,10 +25472,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2929, col: 11, offset: 93025},
+																			pos: position{line: 2939, col: 11, offset: 93331},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2929, col: 11, offset: 93025},
+																				pos:        position{line: 2939, col: 11, offset: 93331},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25385,10 +25492,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1483, col: 30, offset: 47664},
+									pos:   position{line: 1493, col: 30, offset: 47970},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1483, col: 42, offset: 47676},
+										pos:  position{line: 1493, col: 42, offset: 47982},
 										name: "InlineAttributes",
 									},
 								},
@@ -25396,61 +25503,61 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1488, col: 5, offset: 47802},
+						pos: position{line: 1498, col: 5, offset: 48108},
 						run: (*parser).callonExternalLink238,
 						expr: &labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 47802},
+							pos:   position{line: 1498, col: 5, offset: 48108},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2912, col: 27, offset: 92400},
+								pos: position{line: 2922, col: 27, offset: 92706},
 								run: (*parser).callonExternalLink240,
 								expr: &seqExpr{
-									pos: position{line: 2912, col: 27, offset: 92400},
+									pos: position{line: 2922, col: 27, offset: 92706},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 2912, col: 27, offset: 92400},
+											pos: position{line: 2922, col: 27, offset: 92706},
 											expr: &litMatcher{
-												pos:        position{line: 2912, col: 28, offset: 92401},
+												pos:        position{line: 2922, col: 28, offset: 92707},
 												val:        "[",
 												ignoreCase: false,
 												want:       "\"[\"",
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2912, col: 32, offset: 92405},
+											pos:   position{line: 2922, col: 32, offset: 92711},
 											label: "scheme",
 											expr: &actionExpr{
-												pos: position{line: 2916, col: 11, offset: 92515},
+												pos: position{line: 2926, col: 11, offset: 92821},
 												run: (*parser).callonExternalLink245,
 												expr: &choiceExpr{
-													pos: position{line: 2916, col: 12, offset: 92516},
+													pos: position{line: 2926, col: 12, offset: 92822},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2916, col: 12, offset: 92516},
+															pos:        position{line: 2926, col: 12, offset: 92822},
 															val:        "http://",
 															ignoreCase: false,
 															want:       "\"http://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 24, offset: 92528},
+															pos:        position{line: 2926, col: 24, offset: 92834},
 															val:        "https://",
 															ignoreCase: false,
 															want:       "\"https://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 37, offset: 92541},
+															pos:        position{line: 2926, col: 37, offset: 92847},
 															val:        "ftp://",
 															ignoreCase: false,
 															want:       "\"ftp://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 48, offset: 92552},
+															pos:        position{line: 2926, col: 48, offset: 92858},
 															val:        "irc://",
 															ignoreCase: false,
 															want:       "\"irc://\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2916, col: 59, offset: 92563},
+															pos:        position{line: 2926, col: 59, offset: 92869},
 															val:        "mailto:",
 															ignoreCase: false,
 															want:       "\"mailto:\"",
@@ -25460,26 +25567,26 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2912, col: 48, offset: 92421},
+											pos:   position{line: 2922, col: 48, offset: 92727},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2937, col: 5, offset: 93311},
+												pos: position{line: 2947, col: 5, offset: 93617},
 												run: (*parser).callonExternalLink253,
 												expr: &labeledExpr{
-													pos:   position{line: 2937, col: 5, offset: 93311},
+													pos:   position{line: 2947, col: 5, offset: 93617},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2937, col: 14, offset: 93320},
+														pos: position{line: 2947, col: 14, offset: 93626},
 														expr: &choiceExpr{
-															pos: position{line: 2938, col: 9, offset: 93330},
+															pos: position{line: 2948, col: 9, offset: 93636},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2938, col: 9, offset: 93330},
+																	pos: position{line: 2948, col: 9, offset: 93636},
 																	run: (*parser).callonExternalLink257,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2938, col: 9, offset: 93330},
+																		pos: position{line: 2948, col: 9, offset: 93636},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2938, col: 10, offset: 93331},
+																			pos:        position{line: 2948, col: 10, offset: 93637},
 																			val:        "[^\\r\\n[]�{,;?!.()<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '(', ')', '<', '>', ' '},
 																			ignoreCase: false,
@@ -25488,21 +25595,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2941, col: 11, offset: 93422},
+																	pos: position{line: 2951, col: 11, offset: 93728},
 																	run: (*parser).callonExternalLink260,
 																	expr: &seqExpr{
-																		pos: position{line: 2941, col: 11, offset: 93422},
+																		pos: position{line: 2951, col: 11, offset: 93728},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 11, offset: 93422},
+																				pos:        position{line: 2951, col: 11, offset: 93728},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 2941, col: 15, offset: 93426},
+																				pos: position{line: 2951, col: 15, offset: 93732},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2941, col: 15, offset: 93426},
+																					pos:        position{line: 2951, col: 15, offset: 93732},
 																					val:        "[^\\r\\n[]�{()<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', '(', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25510,7 +25617,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2941, col: 39, offset: 93450},
+																				pos:        position{line: 2951, col: 39, offset: 93756},
 																				val:        ")",
 																				ignoreCase: false,
 																				want:       "\")\"",
@@ -25519,25 +25626,25 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2944, col: 11, offset: 93515},
+																	pos: position{line: 2954, col: 11, offset: 93821},
 																	run: (*parser).callonExternalLink266,
 																	expr: &litMatcher{
-																		pos:        position{line: 2944, col: 11, offset: 93515},
+																		pos:        position{line: 2954, col: 11, offset: 93821},
 																		val:        "(",
 																		ignoreCase: false,
 																		want:       "\"(\"",
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2947, col: 11, offset: 93580},
+																	pos: position{line: 2957, col: 11, offset: 93886},
 																	run: (*parser).callonExternalLink268,
 																	expr: &seqExpr{
-																		pos: position{line: 2947, col: 11, offset: 93580},
+																		pos: position{line: 2957, col: 11, offset: 93886},
 																		exprs: []interface{}{
 																			&oneOrMoreExpr{
-																				pos: position{line: 2947, col: 11, offset: 93580},
+																				pos: position{line: 2957, col: 11, offset: 93886},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2947, col: 11, offset: 93580},
+																					pos:        position{line: 2957, col: 11, offset: 93886},
 																					val:        "[,;?!.)]",
 																					chars:      []rune{',', ';', '?', '!', '.', ')'},
 																					ignoreCase: false,
@@ -25545,9 +25652,9 @@ var g = &grammar{
 																				},
 																			},
 																			&andExpr{
-																				pos: position{line: 2947, col: 21, offset: 93590},
+																				pos: position{line: 2957, col: 21, offset: 93896},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2947, col: 23, offset: 93592},
+																					pos:        position{line: 2957, col: 23, offset: 93898},
 																					val:        "[^\\r\\n[],;?!.)<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', ',', ';', '?', '!', '.', ')', '<', '>', ' '},
 																					ignoreCase: false,
@@ -25943,10 +26050,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2952, col: 11, offset: 93733},
+																	pos: position{line: 2962, col: 11, offset: 94039},
 																	run: (*parser).callonExternalLink351,
 																	expr: &litMatcher{
-																		pos:        position{line: 2952, col: 11, offset: 93733},
+																		pos:        position{line: 2962, col: 11, offset: 94039},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -25968,41 +26075,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1522, col: 1, offset: 48964},
+			pos:  position{line: 1532, col: 1, offset: 49270},
 			expr: &actionExpr{
-				pos: position{line: 1523, col: 5, offset: 48985},
+				pos: position{line: 1533, col: 5, offset: 49291},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1523, col: 5, offset: 48985},
+					pos: position{line: 1533, col: 5, offset: 49291},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1523, col: 5, offset: 48985},
+							pos:   position{line: 1533, col: 5, offset: 49291},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1529, col: 5, offset: 49187},
+								pos: position{line: 1539, col: 5, offset: 49493},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1623, col: 5, offset: 52265},
+										pos: position{line: 1633, col: 5, offset: 52571},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1623, col: 5, offset: 52265},
+											pos: position{line: 1633, col: 5, offset: 52571},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1623, col: 5, offset: 52265},
+													pos:   position{line: 1633, col: 5, offset: 52571},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1630, col: 5, offset: 52473},
+														pos: position{line: 1640, col: 5, offset: 52779},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1630, col: 5, offset: 52473},
+															pos: position{line: 1640, col: 5, offset: 52779},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1630, col: 5, offset: 52473},
+																	pos: position{line: 1640, col: 5, offset: 52779},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26011,27 +26118,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1630, col: 12, offset: 52480},
+																	pos:   position{line: 1640, col: 12, offset: 52786},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1632, col: 9, offset: 52543},
+																		pos: position{line: 1642, col: 9, offset: 52849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1632, col: 9, offset: 52543},
+																				pos: position{line: 1642, col: 9, offset: 52849},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 9, offset: 52543},
+																					pos: position{line: 1642, col: 9, offset: 52849},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1632, col: 9, offset: 52543},
+																							pos:   position{line: 1642, col: 9, offset: 52849},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1632, col: 16, offset: 52550},
+																								pos: position{line: 1642, col: 16, offset: 52856},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1632, col: 16, offset: 52550},
+																									pos: position{line: 1642, col: 16, offset: 52856},
 																									expr: &litMatcher{
-																										pos:        position{line: 1632, col: 17, offset: 52551},
+																										pos:        position{line: 1642, col: 17, offset: 52857},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -26040,22 +26147,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1636, col: 9, offset: 52651},
+																							pos: position{line: 1646, col: 9, offset: 52957},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1655, col: 11, offset: 53368},
+																				pos: position{line: 1665, col: 11, offset: 53674},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1655, col: 11, offset: 53368},
+																					pos: position{line: 1665, col: 11, offset: 53674},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1655, col: 11, offset: 53368},
+																							pos: position{line: 1665, col: 11, offset: 53674},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1655, col: 12, offset: 53369},
+																								pos:        position{line: 1665, col: 12, offset: 53675},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -26063,7 +26170,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1655, col: 20, offset: 53377},
+																							pos:        position{line: 1665, col: 20, offset: 53683},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26072,20 +26179,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1657, col: 13, offset: 53494},
+																				pos: position{line: 1667, col: 13, offset: 53800},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1657, col: 13, offset: 53494},
+																					pos: position{line: 1667, col: 13, offset: 53800},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1657, col: 14, offset: 53495},
+																							pos:        position{line: 1667, col: 14, offset: 53801},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1657, col: 21, offset: 53502},
+																							pos:        position{line: 1667, col: 21, offset: 53808},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26094,20 +26201,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1659, col: 13, offset: 53622},
+																				pos: position{line: 1669, col: 13, offset: 53928},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1659, col: 13, offset: 53622},
+																					pos: position{line: 1669, col: 13, offset: 53928},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1659, col: 14, offset: 53623},
+																							pos:        position{line: 1669, col: 14, offset: 53929},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1659, col: 21, offset: 53630},
+																							pos:        position{line: 1669, col: 21, offset: 53936},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -26116,15 +26223,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1661, col: 13, offset: 53750},
+																				pos: position{line: 1671, col: 13, offset: 54056},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1661, col: 13, offset: 53750},
+																					pos: position{line: 1671, col: 13, offset: 54056},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1661, col: 13, offset: 53750},
+																							pos: position{line: 1671, col: 13, offset: 54056},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1661, col: 14, offset: 53751},
+																								pos:        position{line: 1671, col: 14, offset: 54057},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -26132,7 +26239,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1661, col: 26, offset: 53763},
+																							pos:        position{line: 1671, col: 26, offset: 54069},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26141,15 +26248,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1663, col: 13, offset: 53883},
+																				pos: position{line: 1673, col: 13, offset: 54189},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1663, col: 13, offset: 53883},
+																					pos: position{line: 1673, col: 13, offset: 54189},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 13, offset: 53883},
+																							pos: position{line: 1673, col: 13, offset: 54189},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1663, col: 14, offset: 53884},
+																								pos:        position{line: 1673, col: 14, offset: 54190},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -26157,7 +26264,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1663, col: 26, offset: 53896},
+																							pos:        position{line: 1673, col: 26, offset: 54202},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -26169,12 +26276,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26187,26 +26294,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1624, col: 5, offset: 52304},
+													pos:   position{line: 1634, col: 5, offset: 52610},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26217,28 +26324,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26247,9 +26354,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -26262,27 +26369,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54162},
+										pos: position{line: 1683, col: 5, offset: 54468},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54162},
+											pos: position{line: 1683, col: 5, offset: 54468},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54162},
+													pos:   position{line: 1683, col: 5, offset: 54468},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54435},
+														pos: position{line: 1690, col: 5, offset: 54741},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54435},
+															pos: position{line: 1690, col: 5, offset: 54741},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1680, col: 5, offset: 54435},
+																	pos: position{line: 1690, col: 5, offset: 54741},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26291,24 +26398,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1681, col: 5, offset: 54447},
+																	pos:   position{line: 1691, col: 5, offset: 54753},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1682, col: 9, offset: 54463},
+																		pos: position{line: 1692, col: 9, offset: 54769},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 10, offset: 54464},
+																			pos: position{line: 1692, col: 10, offset: 54770},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1682, col: 11, offset: 54465},
+																					pos:        position{line: 1692, col: 11, offset: 54771},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1682, col: 18, offset: 54472},
+																					pos: position{line: 1692, col: 18, offset: 54778},
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 19, offset: 54473},
+																						pos:        position{line: 1692, col: 19, offset: 54779},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -26319,16 +26426,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1685, col: 7, offset: 54563},
+																	pos: position{line: 1695, col: 7, offset: 54869},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26341,56 +26448,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54203},
+													pos:   position{line: 1684, col: 5, offset: 54509},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1674, col: 16, offset: 54214},
+														pos: position{line: 1684, col: 16, offset: 54520},
 														expr: &actionExpr{
-															pos: position{line: 1695, col: 5, offset: 54828},
+															pos: position{line: 1705, col: 5, offset: 55134},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 5, offset: 54828},
+																pos: position{line: 1705, col: 5, offset: 55134},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1695, col: 5, offset: 54828},
+																		pos: position{line: 1705, col: 5, offset: 55134},
 																		expr: &litMatcher{
-																			pos:        position{line: 1695, col: 6, offset: 54829},
+																			pos:        position{line: 1705, col: 6, offset: 55135},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1695, col: 10, offset: 54833},
+																		pos:   position{line: 1705, col: 10, offset: 55139},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1696, col: 7, offset: 54847},
+																			pos: position{line: 1706, col: 7, offset: 55153},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1696, col: 7, offset: 54847},
+																					pos: position{line: 1706, col: 7, offset: 55153},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1696, col: 7, offset: 54847},
+																						pos:        position{line: 1706, col: 7, offset: 55153},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1697, col: 7, offset: 54892},
+																					pos: position{line: 1707, col: 7, offset: 55198},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1697, col: 7, offset: 54892},
+																						pos:        position{line: 1707, col: 7, offset: 55198},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1698, col: 7, offset: 54935},
+																					pos: position{line: 1708, col: 7, offset: 55241},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1698, col: 7, offset: 54935},
+																						pos:        position{line: 1708, col: 7, offset: 55241},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -26400,12 +26507,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -26419,26 +26526,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54253},
+													pos:   position{line: 1685, col: 5, offset: 54559},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26449,28 +26556,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26479,9 +26586,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -26494,36 +26601,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1763, col: 5, offset: 56775},
+										pos: position{line: 1773, col: 5, offset: 57081},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1763, col: 5, offset: 56775},
+											pos: position{line: 1773, col: 5, offset: 57081},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1763, col: 5, offset: 56775},
+													pos:   position{line: 1773, col: 5, offset: 57081},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1769, col: 5, offset: 56972},
+														pos: position{line: 1779, col: 5, offset: 57278},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1769, col: 5, offset: 56972},
+															pos: position{line: 1779, col: 5, offset: 57278},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1769, col: 5, offset: 56972},
+																	pos:        position{line: 1779, col: 5, offset: 57278},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1769, col: 9, offset: 56976},
+																	pos:   position{line: 1779, col: 9, offset: 57282},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1769, col: 14, offset: 56981},
+																		pos: position{line: 1779, col: 14, offset: 57287},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1769, col: 14, offset: 56981},
+																			pos: position{line: 1779, col: 14, offset: 57287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1769, col: 14, offset: 56981},
+																				pos:        position{line: 1779, col: 14, offset: 57287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -26533,18 +26640,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1769, col: 62, offset: 57029},
+																	pos:        position{line: 1779, col: 62, offset: 57335},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26557,26 +26664,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1764, col: 5, offset: 56811},
+													pos:   position{line: 1774, col: 5, offset: 57117},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -26587,28 +26694,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26617,9 +26724,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -26632,40 +26739,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1707, col: 5, offset: 55128},
+										pos: position{line: 1717, col: 5, offset: 55434},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1707, col: 5, offset: 55128},
+											pos: position{line: 1717, col: 5, offset: 55434},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1707, col: 5, offset: 55128},
+													pos:   position{line: 1717, col: 5, offset: 55434},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1715, col: 5, offset: 55454},
+														pos: position{line: 1725, col: 5, offset: 55760},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1715, col: 5, offset: 55454},
+															pos: position{line: 1725, col: 5, offset: 55760},
 															expr: &seqExpr{
-																pos: position{line: 1715, col: 6, offset: 55455},
+																pos: position{line: 1725, col: 6, offset: 55761},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1715, col: 6, offset: 55455},
+																		pos: position{line: 1725, col: 6, offset: 55761},
 																		expr: &actionExpr{
-																			pos: position{line: 1720, col: 5, offset: 55605},
+																			pos: position{line: 1730, col: 5, offset: 55911},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1720, col: 5, offset: 55605},
+																				pos: position{line: 1730, col: 5, offset: 55911},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1720, col: 5, offset: 55605},
+																						pos:   position{line: 1730, col: 5, offset: 55911},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1720, col: 16, offset: 55616},
+																							pos: position{line: 1730, col: 16, offset: 55922},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1720, col: 16, offset: 55616},
+																								pos: position{line: 1730, col: 16, offset: 55922},
 																								expr: &litMatcher{
-																									pos:        position{line: 1720, col: 17, offset: 55617},
+																									pos:        position{line: 1730, col: 17, offset: 55923},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -26674,7 +26781,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1723, col: 5, offset: 55674},
+																						pos: position{line: 1733, col: 5, offset: 55980},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -26682,30 +26789,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1715, col: 35, offset: 55484},
+																		pos: position{line: 1725, col: 35, offset: 55790},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26714,16 +26821,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1715, col: 40, offset: 55489,
+																		line: 1725, col: 40, offset: 55795,
 																	},
 																},
 															},
@@ -26731,24 +26838,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1708, col: 5, offset: 55163},
+													pos:   position{line: 1718, col: 5, offset: 55469},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1720, col: 5, offset: 55605},
+														pos: position{line: 1730, col: 5, offset: 55911},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1720, col: 5, offset: 55605},
+															pos: position{line: 1730, col: 5, offset: 55911},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1720, col: 5, offset: 55605},
+																	pos:   position{line: 1730, col: 5, offset: 55911},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1720, col: 16, offset: 55616},
+																		pos: position{line: 1730, col: 16, offset: 55922},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1720, col: 16, offset: 55616},
+																			pos: position{line: 1730, col: 16, offset: 55922},
 																			expr: &litMatcher{
-																				pos:        position{line: 1720, col: 17, offset: 55617},
+																				pos:        position{line: 1730, col: 17, offset: 55923},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -26757,7 +26864,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1723, col: 5, offset: 55674},
+																	pos: position{line: 1733, col: 5, offset: 55980},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -26765,24 +26872,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1709, col: 5, offset: 55208},
+													pos:   position{line: 1719, col: 5, offset: 55514},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1731, col: 5, offset: 55923},
+														pos: position{line: 1741, col: 5, offset: 56229},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1733, col: 9, offset: 55989},
+																pos: position{line: 1743, col: 9, offset: 56295},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1733, col: 9, offset: 55989},
+																	pos: position{line: 1743, col: 9, offset: 56295},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1733, col: 9, offset: 55989},
+																			pos: position{line: 1743, col: 9, offset: 56295},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26791,28 +26898,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26821,15 +26928,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1734, col: 9, offset: 56008},
+																			pos: position{line: 1744, col: 9, offset: 56314},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListElements193,
@@ -26837,18 +26944,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26857,28 +26964,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26887,9 +26994,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -26902,18 +27009,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1740, col: 9, offset: 56137},
+																pos: position{line: 1750, col: 9, offset: 56443},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1740, col: 9, offset: 56137},
+																	pos: position{line: 1750, col: 9, offset: 56443},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2977, col: 11, offset: 94279},
+																				pos: position{line: 2987, col: 11, offset: 94585},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2977, col: 11, offset: 94279},
+																					pos:        position{line: 2987, col: 11, offset: 94585},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26922,15 +27029,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1741, col: 9, offset: 56210},
+																			pos:   position{line: 1751, col: 9, offset: 56516},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1741, col: 18, offset: 56219},
+																				pos: position{line: 1751, col: 18, offset: 56525},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1741, col: 18, offset: 56219},
+																					pos: position{line: 1751, col: 18, offset: 56525},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1741, col: 18, offset: 56219},
+																						pos:        position{line: 1751, col: 18, offset: 56525},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26940,28 +27047,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26970,9 +27077,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -26990,10 +27097,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1524, col: 5, offset: 49016},
+							pos:   position{line: 1534, col: 5, offset: 49322},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1524, col: 20, offset: 49031},
+								pos:  position{line: 1534, col: 20, offset: 49337},
 								name: "ExtraListElements",
 							},
 						},
@@ -27003,17 +27110,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1534, col: 1, offset: 49286},
+			pos:  position{line: 1544, col: 1, offset: 49592},
 			expr: &actionExpr{
-				pos: position{line: 1534, col: 22, offset: 49307},
+				pos: position{line: 1544, col: 22, offset: 49613},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1534, col: 22, offset: 49307},
+					pos:   position{line: 1544, col: 22, offset: 49613},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1534, col: 31, offset: 49316},
+						pos: position{line: 1544, col: 31, offset: 49622},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1534, col: 32, offset: 49317},
+							pos:  position{line: 1544, col: 32, offset: 49623},
 							name: "ExtraListElement",
 						},
 					},
@@ -27022,33 +27129,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1538, col: 1, offset: 49397},
+			pos:  position{line: 1548, col: 1, offset: 49703},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49536},
+				pos: position{line: 1549, col: 5, offset: 49842},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49536},
+					pos: position{line: 1549, col: 5, offset: 49842},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1540, col: 5, offset: 49548},
+							pos:   position{line: 1550, col: 5, offset: 49854},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1541, col: 9, offset: 49566},
+								pos: position{line: 1551, col: 9, offset: 49872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1541, col: 13, offset: 49570},
+										pos: position{line: 1551, col: 13, offset: 49876},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1541, col: 13, offset: 49570},
+											pos: position{line: 1551, col: 13, offset: 49876},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1541, col: 13, offset: 49570},
+													pos: position{line: 1551, col: 13, offset: 49876},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement10,
@@ -27056,18 +27163,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2990, col: 11, offset: 94552},
+																	pos: position{line: 3000, col: 11, offset: 94858},
 																	expr: &anyMatcher{
-																		line: 2990, col: 13, offset: 94554,
+																		line: 3000, col: 13, offset: 94860,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27076,28 +27183,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27106,9 +27213,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -27118,33 +27225,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1542, col: 13, offset: 49594},
+													pos:   position{line: 1552, col: 13, offset: 49900},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1542, col: 22, offset: 49603},
+														pos: position{line: 1552, col: 22, offset: 49909},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1623, col: 5, offset: 52265},
+																pos: position{line: 1633, col: 5, offset: 52571},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1623, col: 5, offset: 52265},
+																	pos: position{line: 1633, col: 5, offset: 52571},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1623, col: 5, offset: 52265},
+																			pos:   position{line: 1633, col: 5, offset: 52571},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1630, col: 5, offset: 52473},
+																				pos: position{line: 1640, col: 5, offset: 52779},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 5, offset: 52473},
+																					pos: position{line: 1640, col: 5, offset: 52779},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1630, col: 5, offset: 52473},
+																							pos: position{line: 1640, col: 5, offset: 52779},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27153,27 +27260,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1630, col: 12, offset: 52480},
+																							pos:   position{line: 1640, col: 12, offset: 52786},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1632, col: 9, offset: 52543},
+																								pos: position{line: 1642, col: 9, offset: 52849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1632, col: 9, offset: 52543},
+																										pos: position{line: 1642, col: 9, offset: 52849},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 9, offset: 52543},
+																											pos: position{line: 1642, col: 9, offset: 52849},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1632, col: 9, offset: 52543},
+																													pos:   position{line: 1642, col: 9, offset: 52849},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1632, col: 16, offset: 52550},
+																														pos: position{line: 1642, col: 16, offset: 52856},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1632, col: 16, offset: 52550},
+																															pos: position{line: 1642, col: 16, offset: 52856},
 																															expr: &litMatcher{
-																																pos:        position{line: 1632, col: 17, offset: 52551},
+																																pos:        position{line: 1642, col: 17, offset: 52857},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27182,22 +27289,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1636, col: 9, offset: 52651},
+																													pos: position{line: 1646, col: 9, offset: 52957},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1655, col: 11, offset: 53368},
+																										pos: position{line: 1665, col: 11, offset: 53674},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1655, col: 11, offset: 53368},
+																											pos: position{line: 1665, col: 11, offset: 53674},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1655, col: 11, offset: 53368},
+																													pos: position{line: 1665, col: 11, offset: 53674},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1655, col: 12, offset: 53369},
+																														pos:        position{line: 1665, col: 12, offset: 53675},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27205,7 +27312,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1655, col: 20, offset: 53377},
+																													pos:        position{line: 1665, col: 20, offset: 53683},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27214,20 +27321,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1657, col: 13, offset: 53494},
+																										pos: position{line: 1667, col: 13, offset: 53800},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1657, col: 13, offset: 53494},
+																											pos: position{line: 1667, col: 13, offset: 53800},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1657, col: 14, offset: 53495},
+																													pos:        position{line: 1667, col: 14, offset: 53801},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1657, col: 21, offset: 53502},
+																													pos:        position{line: 1667, col: 21, offset: 53808},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27236,20 +27343,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1659, col: 13, offset: 53622},
+																										pos: position{line: 1669, col: 13, offset: 53928},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1659, col: 13, offset: 53622},
+																											pos: position{line: 1669, col: 13, offset: 53928},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1659, col: 14, offset: 53623},
+																													pos:        position{line: 1669, col: 14, offset: 53929},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1659, col: 21, offset: 53630},
+																													pos:        position{line: 1669, col: 21, offset: 53936},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27258,15 +27365,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1661, col: 13, offset: 53750},
+																										pos: position{line: 1671, col: 13, offset: 54056},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1661, col: 13, offset: 53750},
+																											pos: position{line: 1671, col: 13, offset: 54056},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1661, col: 13, offset: 53750},
+																													pos: position{line: 1671, col: 13, offset: 54056},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1661, col: 14, offset: 53751},
+																														pos:        position{line: 1671, col: 14, offset: 54057},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27274,7 +27381,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1661, col: 26, offset: 53763},
+																													pos:        position{line: 1671, col: 26, offset: 54069},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27283,15 +27390,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1663, col: 13, offset: 53883},
+																										pos: position{line: 1673, col: 13, offset: 54189},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1663, col: 13, offset: 53883},
+																											pos: position{line: 1673, col: 13, offset: 54189},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1663, col: 13, offset: 53883},
+																													pos: position{line: 1673, col: 13, offset: 54189},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1663, col: 14, offset: 53884},
+																														pos:        position{line: 1673, col: 14, offset: 54190},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27299,7 +27406,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1663, col: 26, offset: 53896},
+																													pos:        position{line: 1673, col: 26, offset: 54202},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27311,12 +27418,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27329,26 +27436,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1624, col: 5, offset: 52304},
+																			pos:   position{line: 1634, col: 5, offset: 52610},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27359,28 +27466,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27389,9 +27496,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -27404,27 +27511,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54162},
+																pos: position{line: 1683, col: 5, offset: 54468},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54162},
+																	pos: position{line: 1683, col: 5, offset: 54468},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54162},
+																			pos:   position{line: 1683, col: 5, offset: 54468},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54435},
+																				pos: position{line: 1690, col: 5, offset: 54741},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54435},
+																					pos: position{line: 1690, col: 5, offset: 54741},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1680, col: 5, offset: 54435},
+																							pos: position{line: 1690, col: 5, offset: 54741},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27433,24 +27540,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1681, col: 5, offset: 54447},
+																							pos:   position{line: 1691, col: 5, offset: 54753},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1682, col: 9, offset: 54463},
+																								pos: position{line: 1692, col: 9, offset: 54769},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 10, offset: 54464},
+																									pos: position{line: 1692, col: 10, offset: 54770},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1682, col: 11, offset: 54465},
+																											pos:        position{line: 1692, col: 11, offset: 54771},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1682, col: 18, offset: 54472},
+																											pos: position{line: 1692, col: 18, offset: 54778},
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 19, offset: 54473},
+																												pos:        position{line: 1692, col: 19, offset: 54779},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27461,16 +27568,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1685, col: 7, offset: 54563},
+																							pos: position{line: 1695, col: 7, offset: 54869},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27483,56 +27590,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54203},
+																			pos:   position{line: 1684, col: 5, offset: 54509},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1674, col: 16, offset: 54214},
+																				pos: position{line: 1684, col: 16, offset: 54520},
 																				expr: &actionExpr{
-																					pos: position{line: 1695, col: 5, offset: 54828},
+																					pos: position{line: 1705, col: 5, offset: 55134},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 5, offset: 54828},
+																						pos: position{line: 1705, col: 5, offset: 55134},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1695, col: 5, offset: 54828},
+																								pos: position{line: 1705, col: 5, offset: 55134},
 																								expr: &litMatcher{
-																									pos:        position{line: 1695, col: 6, offset: 54829},
+																									pos:        position{line: 1705, col: 6, offset: 55135},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1695, col: 10, offset: 54833},
+																								pos:   position{line: 1705, col: 10, offset: 55139},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1696, col: 7, offset: 54847},
+																									pos: position{line: 1706, col: 7, offset: 55153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1696, col: 7, offset: 54847},
+																											pos: position{line: 1706, col: 7, offset: 55153},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1696, col: 7, offset: 54847},
+																												pos:        position{line: 1706, col: 7, offset: 55153},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1697, col: 7, offset: 54892},
+																											pos: position{line: 1707, col: 7, offset: 55198},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1697, col: 7, offset: 54892},
+																												pos:        position{line: 1707, col: 7, offset: 55198},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1698, col: 7, offset: 54935},
+																											pos: position{line: 1708, col: 7, offset: 55241},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1698, col: 7, offset: 54935},
+																												pos:        position{line: 1708, col: 7, offset: 55241},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27542,12 +27649,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27561,26 +27668,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54253},
+																			pos:   position{line: 1685, col: 5, offset: 54559},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27591,28 +27698,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27621,9 +27728,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -27636,36 +27743,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1763, col: 5, offset: 56775},
+																pos: position{line: 1773, col: 5, offset: 57081},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1763, col: 5, offset: 56775},
+																	pos: position{line: 1773, col: 5, offset: 57081},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1763, col: 5, offset: 56775},
+																			pos:   position{line: 1773, col: 5, offset: 57081},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1769, col: 5, offset: 56972},
+																				pos: position{line: 1779, col: 5, offset: 57278},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1769, col: 5, offset: 56972},
+																					pos: position{line: 1779, col: 5, offset: 57278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1769, col: 5, offset: 56972},
+																							pos:        position{line: 1779, col: 5, offset: 57278},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1769, col: 9, offset: 56976},
+																							pos:   position{line: 1779, col: 9, offset: 57282},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1769, col: 14, offset: 56981},
+																								pos: position{line: 1779, col: 14, offset: 57287},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1769, col: 14, offset: 56981},
+																									pos: position{line: 1779, col: 14, offset: 57287},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1769, col: 14, offset: 56981},
+																										pos:        position{line: 1779, col: 14, offset: 57287},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27675,18 +27782,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1769, col: 62, offset: 57029},
+																							pos:        position{line: 1779, col: 62, offset: 57335},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27699,26 +27806,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1764, col: 5, offset: 56811},
+																			pos:   position{line: 1774, col: 5, offset: 57117},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27729,28 +27836,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27759,9 +27866,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -27774,40 +27881,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 5, offset: 55128},
+																pos: position{line: 1717, col: 5, offset: 55434},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 5, offset: 55128},
+																	pos: position{line: 1717, col: 5, offset: 55434},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1707, col: 5, offset: 55128},
+																			pos:   position{line: 1717, col: 5, offset: 55434},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 5, offset: 55454},
+																				pos: position{line: 1725, col: 5, offset: 55760},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 5, offset: 55454},
+																					pos: position{line: 1725, col: 5, offset: 55760},
 																					expr: &seqExpr{
-																						pos: position{line: 1715, col: 6, offset: 55455},
+																						pos: position{line: 1725, col: 6, offset: 55761},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1715, col: 6, offset: 55455},
+																								pos: position{line: 1725, col: 6, offset: 55761},
 																								expr: &actionExpr{
-																									pos: position{line: 1720, col: 5, offset: 55605},
+																									pos: position{line: 1730, col: 5, offset: 55911},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1720, col: 5, offset: 55605},
+																										pos: position{line: 1730, col: 5, offset: 55911},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1720, col: 5, offset: 55605},
+																												pos:   position{line: 1730, col: 5, offset: 55911},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1720, col: 16, offset: 55616},
+																													pos: position{line: 1730, col: 16, offset: 55922},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1720, col: 16, offset: 55616},
+																														pos: position{line: 1730, col: 16, offset: 55922},
 																														expr: &litMatcher{
-																															pos:        position{line: 1720, col: 17, offset: 55617},
+																															pos:        position{line: 1730, col: 17, offset: 55923},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27816,7 +27923,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1723, col: 5, offset: 55674},
+																												pos: position{line: 1733, col: 5, offset: 55980},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -27824,30 +27931,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1715, col: 35, offset: 55484},
+																								pos: position{line: 1725, col: 35, offset: 55790},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27856,16 +27963,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1715, col: 40, offset: 55489,
+																								line: 1725, col: 40, offset: 55795,
 																							},
 																						},
 																					},
@@ -27873,24 +27980,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 5, offset: 55163},
+																			pos:   position{line: 1718, col: 5, offset: 55469},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 5, offset: 55605},
+																				pos: position{line: 1730, col: 5, offset: 55911},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1720, col: 5, offset: 55605},
+																					pos: position{line: 1730, col: 5, offset: 55911},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1720, col: 5, offset: 55605},
+																							pos:   position{line: 1730, col: 5, offset: 55911},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1720, col: 16, offset: 55616},
+																								pos: position{line: 1730, col: 16, offset: 55922},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1720, col: 16, offset: 55616},
+																									pos: position{line: 1730, col: 16, offset: 55922},
 																									expr: &litMatcher{
-																										pos:        position{line: 1720, col: 17, offset: 55617},
+																										pos:        position{line: 1730, col: 17, offset: 55923},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27899,7 +28006,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1723, col: 5, offset: 55674},
+																							pos: position{line: 1733, col: 5, offset: 55980},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -27907,24 +28014,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1709, col: 5, offset: 55208},
+																			pos:   position{line: 1719, col: 5, offset: 55514},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1731, col: 5, offset: 55923},
+																				pos: position{line: 1741, col: 5, offset: 56229},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1733, col: 9, offset: 55989},
+																						pos: position{line: 1743, col: 9, offset: 56295},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1733, col: 9, offset: 55989},
+																							pos: position{line: 1743, col: 9, offset: 56295},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1733, col: 9, offset: 55989},
+																									pos: position{line: 1743, col: 9, offset: 56295},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27933,28 +28040,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27963,15 +28070,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1734, col: 9, offset: 56008},
+																									pos: position{line: 1744, col: 9, offset: 56314},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement215,
@@ -27979,18 +28086,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2990, col: 11, offset: 94552},
+																													pos: position{line: 3000, col: 11, offset: 94858},
 																													expr: &anyMatcher{
-																														line: 2990, col: 13, offset: 94554,
+																														line: 3000, col: 13, offset: 94860,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27999,28 +28106,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28029,9 +28136,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -28044,18 +28151,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1740, col: 9, offset: 56137},
+																						pos: position{line: 1750, col: 9, offset: 56443},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1740, col: 9, offset: 56137},
+																							pos: position{line: 1750, col: 9, offset: 56443},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94279},
+																										pos: position{line: 2987, col: 11, offset: 94585},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94279},
+																											pos:        position{line: 2987, col: 11, offset: 94585},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28064,15 +28171,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1741, col: 9, offset: 56210},
+																									pos:   position{line: 1751, col: 9, offset: 56516},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1741, col: 18, offset: 56219},
+																										pos: position{line: 1751, col: 18, offset: 56525},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1741, col: 18, offset: 56219},
+																											pos: position{line: 1751, col: 18, offset: 56525},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1741, col: 18, offset: 56219},
+																												pos:        position{line: 1751, col: 18, offset: 56525},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28082,28 +28189,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28112,9 +28219,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -28135,50 +28242,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1545, col: 13, offset: 49754},
+										pos: position{line: 1555, col: 13, offset: 50060},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1545, col: 13, offset: 49754},
+											pos: position{line: 1555, col: 13, offset: 50060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1545, col: 13, offset: 49754},
+													pos:   position{line: 1555, col: 13, offset: 50060},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1545, col: 24, offset: 49765},
+														pos: position{line: 1555, col: 24, offset: 50071},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1545, col: 25, offset: 49766},
+															pos:  position{line: 1555, col: 25, offset: 50072},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1546, col: 13, offset: 49797},
+													pos:   position{line: 1556, col: 13, offset: 50103},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1546, col: 22, offset: 49806},
+														pos: position{line: 1556, col: 22, offset: 50112},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1623, col: 5, offset: 52265},
+																pos: position{line: 1633, col: 5, offset: 52571},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1623, col: 5, offset: 52265},
+																	pos: position{line: 1633, col: 5, offset: 52571},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1623, col: 5, offset: 52265},
+																			pos:   position{line: 1633, col: 5, offset: 52571},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1630, col: 5, offset: 52473},
+																				pos: position{line: 1640, col: 5, offset: 52779},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 5, offset: 52473},
+																					pos: position{line: 1640, col: 5, offset: 52779},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1630, col: 5, offset: 52473},
+																							pos: position{line: 1640, col: 5, offset: 52779},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28187,27 +28294,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1630, col: 12, offset: 52480},
+																							pos:   position{line: 1640, col: 12, offset: 52786},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1632, col: 9, offset: 52543},
+																								pos: position{line: 1642, col: 9, offset: 52849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1632, col: 9, offset: 52543},
+																										pos: position{line: 1642, col: 9, offset: 52849},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 9, offset: 52543},
+																											pos: position{line: 1642, col: 9, offset: 52849},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1632, col: 9, offset: 52543},
+																													pos:   position{line: 1642, col: 9, offset: 52849},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1632, col: 16, offset: 52550},
+																														pos: position{line: 1642, col: 16, offset: 52856},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1632, col: 16, offset: 52550},
+																															pos: position{line: 1642, col: 16, offset: 52856},
 																															expr: &litMatcher{
-																																pos:        position{line: 1632, col: 17, offset: 52551},
+																																pos:        position{line: 1642, col: 17, offset: 52857},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -28216,22 +28323,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1636, col: 9, offset: 52651},
+																													pos: position{line: 1646, col: 9, offset: 52957},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1655, col: 11, offset: 53368},
+																										pos: position{line: 1665, col: 11, offset: 53674},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1655, col: 11, offset: 53368},
+																											pos: position{line: 1665, col: 11, offset: 53674},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1655, col: 11, offset: 53368},
+																													pos: position{line: 1665, col: 11, offset: 53674},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1655, col: 12, offset: 53369},
+																														pos:        position{line: 1665, col: 12, offset: 53675},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -28239,7 +28346,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1655, col: 20, offset: 53377},
+																													pos:        position{line: 1665, col: 20, offset: 53683},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28248,20 +28355,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1657, col: 13, offset: 53494},
+																										pos: position{line: 1667, col: 13, offset: 53800},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1657, col: 13, offset: 53494},
+																											pos: position{line: 1667, col: 13, offset: 53800},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1657, col: 14, offset: 53495},
+																													pos:        position{line: 1667, col: 14, offset: 53801},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1657, col: 21, offset: 53502},
+																													pos:        position{line: 1667, col: 21, offset: 53808},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28270,20 +28377,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1659, col: 13, offset: 53622},
+																										pos: position{line: 1669, col: 13, offset: 53928},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1659, col: 13, offset: 53622},
+																											pos: position{line: 1669, col: 13, offset: 53928},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1659, col: 14, offset: 53623},
+																													pos:        position{line: 1669, col: 14, offset: 53929},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1659, col: 21, offset: 53630},
+																													pos:        position{line: 1669, col: 21, offset: 53936},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -28292,15 +28399,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1661, col: 13, offset: 53750},
+																										pos: position{line: 1671, col: 13, offset: 54056},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1661, col: 13, offset: 53750},
+																											pos: position{line: 1671, col: 13, offset: 54056},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1661, col: 13, offset: 53750},
+																													pos: position{line: 1671, col: 13, offset: 54056},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1661, col: 14, offset: 53751},
+																														pos:        position{line: 1671, col: 14, offset: 54057},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -28308,7 +28415,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1661, col: 26, offset: 53763},
+																													pos:        position{line: 1671, col: 26, offset: 54069},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28317,15 +28424,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1663, col: 13, offset: 53883},
+																										pos: position{line: 1673, col: 13, offset: 54189},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1663, col: 13, offset: 53883},
+																											pos: position{line: 1673, col: 13, offset: 54189},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1663, col: 13, offset: 53883},
+																													pos: position{line: 1673, col: 13, offset: 54189},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1663, col: 14, offset: 53884},
+																														pos:        position{line: 1673, col: 14, offset: 54190},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -28333,7 +28440,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1663, col: 26, offset: 53896},
+																													pos:        position{line: 1673, col: 26, offset: 54202},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -28345,12 +28452,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28363,26 +28470,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1624, col: 5, offset: 52304},
+																			pos:   position{line: 1634, col: 5, offset: 52610},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28393,28 +28500,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28423,9 +28530,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -28438,27 +28545,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54162},
+																pos: position{line: 1683, col: 5, offset: 54468},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54162},
+																	pos: position{line: 1683, col: 5, offset: 54468},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1673, col: 5, offset: 54162},
+																			pos:   position{line: 1683, col: 5, offset: 54468},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54435},
+																				pos: position{line: 1690, col: 5, offset: 54741},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54435},
+																					pos: position{line: 1690, col: 5, offset: 54741},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1680, col: 5, offset: 54435},
+																							pos: position{line: 1690, col: 5, offset: 54741},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28467,24 +28574,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1681, col: 5, offset: 54447},
+																							pos:   position{line: 1691, col: 5, offset: 54753},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1682, col: 9, offset: 54463},
+																								pos: position{line: 1692, col: 9, offset: 54769},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1682, col: 10, offset: 54464},
+																									pos: position{line: 1692, col: 10, offset: 54770},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1682, col: 11, offset: 54465},
+																											pos:        position{line: 1692, col: 11, offset: 54771},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1682, col: 18, offset: 54472},
+																											pos: position{line: 1692, col: 18, offset: 54778},
 																											expr: &litMatcher{
-																												pos:        position{line: 1682, col: 19, offset: 54473},
+																												pos:        position{line: 1692, col: 19, offset: 54779},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28495,16 +28602,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1685, col: 7, offset: 54563},
+																							pos: position{line: 1695, col: 7, offset: 54869},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28517,56 +28624,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54203},
+																			pos:   position{line: 1684, col: 5, offset: 54509},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1674, col: 16, offset: 54214},
+																				pos: position{line: 1684, col: 16, offset: 54520},
 																				expr: &actionExpr{
-																					pos: position{line: 1695, col: 5, offset: 54828},
+																					pos: position{line: 1705, col: 5, offset: 55134},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1695, col: 5, offset: 54828},
+																						pos: position{line: 1705, col: 5, offset: 55134},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1695, col: 5, offset: 54828},
+																								pos: position{line: 1705, col: 5, offset: 55134},
 																								expr: &litMatcher{
-																									pos:        position{line: 1695, col: 6, offset: 54829},
+																									pos:        position{line: 1705, col: 6, offset: 55135},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1695, col: 10, offset: 54833},
+																								pos:   position{line: 1705, col: 10, offset: 55139},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1696, col: 7, offset: 54847},
+																									pos: position{line: 1706, col: 7, offset: 55153},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1696, col: 7, offset: 54847},
+																											pos: position{line: 1706, col: 7, offset: 55153},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1696, col: 7, offset: 54847},
+																												pos:        position{line: 1706, col: 7, offset: 55153},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1697, col: 7, offset: 54892},
+																											pos: position{line: 1707, col: 7, offset: 55198},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1697, col: 7, offset: 54892},
+																												pos:        position{line: 1707, col: 7, offset: 55198},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1698, col: 7, offset: 54935},
+																											pos: position{line: 1708, col: 7, offset: 55241},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1698, col: 7, offset: 54935},
+																												pos:        position{line: 1708, col: 7, offset: 55241},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -28576,12 +28683,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -28595,26 +28702,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54253},
+																			pos:   position{line: 1685, col: 5, offset: 54559},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28625,28 +28732,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28655,9 +28762,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -28670,36 +28777,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1763, col: 5, offset: 56775},
+																pos: position{line: 1773, col: 5, offset: 57081},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1763, col: 5, offset: 56775},
+																	pos: position{line: 1773, col: 5, offset: 57081},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1763, col: 5, offset: 56775},
+																			pos:   position{line: 1773, col: 5, offset: 57081},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1769, col: 5, offset: 56972},
+																				pos: position{line: 1779, col: 5, offset: 57278},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1769, col: 5, offset: 56972},
+																					pos: position{line: 1779, col: 5, offset: 57278},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1769, col: 5, offset: 56972},
+																							pos:        position{line: 1779, col: 5, offset: 57278},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1769, col: 9, offset: 56976},
+																							pos:   position{line: 1779, col: 9, offset: 57282},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1769, col: 14, offset: 56981},
+																								pos: position{line: 1779, col: 14, offset: 57287},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1769, col: 14, offset: 56981},
+																									pos: position{line: 1779, col: 14, offset: 57287},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1769, col: 14, offset: 56981},
+																										pos:        position{line: 1779, col: 14, offset: 57287},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -28709,18 +28816,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1769, col: 62, offset: 57029},
+																							pos:        position{line: 1779, col: 62, offset: 57335},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28733,26 +28840,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1764, col: 5, offset: 56811},
+																			pos:   position{line: 1774, col: 5, offset: 57117},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1570, col: 5, offset: 50667},
+																				pos: position{line: 1580, col: 5, offset: 50973},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1570, col: 5, offset: 50667},
+																					pos: position{line: 1580, col: 5, offset: 50973},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1570, col: 5, offset: 50667},
+																							pos:   position{line: 1580, col: 5, offset: 50973},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1570, col: 14, offset: 50676},
+																								pos: position{line: 1580, col: 14, offset: 50982},
 																								expr: &actionExpr{
-																									pos: position{line: 1570, col: 15, offset: 50677},
+																									pos: position{line: 1580, col: 15, offset: 50983},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1570, col: 15, offset: 50677},
+																										pos: position{line: 1580, col: 15, offset: 50983},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1570, col: 15, offset: 50677},
+																											pos:        position{line: 1580, col: 15, offset: 50983},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -28763,28 +28870,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28793,9 +28900,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -28808,40 +28915,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1707, col: 5, offset: 55128},
+																pos: position{line: 1717, col: 5, offset: 55434},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 5, offset: 55128},
+																	pos: position{line: 1717, col: 5, offset: 55434},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1707, col: 5, offset: 55128},
+																			pos:   position{line: 1717, col: 5, offset: 55434},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 5, offset: 55454},
+																				pos: position{line: 1725, col: 5, offset: 55760},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 5, offset: 55454},
+																					pos: position{line: 1725, col: 5, offset: 55760},
 																					expr: &seqExpr{
-																						pos: position{line: 1715, col: 6, offset: 55455},
+																						pos: position{line: 1725, col: 6, offset: 55761},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1715, col: 6, offset: 55455},
+																								pos: position{line: 1725, col: 6, offset: 55761},
 																								expr: &actionExpr{
-																									pos: position{line: 1720, col: 5, offset: 55605},
+																									pos: position{line: 1730, col: 5, offset: 55911},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1720, col: 5, offset: 55605},
+																										pos: position{line: 1730, col: 5, offset: 55911},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1720, col: 5, offset: 55605},
+																												pos:   position{line: 1730, col: 5, offset: 55911},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1720, col: 16, offset: 55616},
+																													pos: position{line: 1730, col: 16, offset: 55922},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1720, col: 16, offset: 55616},
+																														pos: position{line: 1730, col: 16, offset: 55922},
 																														expr: &litMatcher{
-																															pos:        position{line: 1720, col: 17, offset: 55617},
+																															pos:        position{line: 1730, col: 17, offset: 55923},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -28850,7 +28957,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1723, col: 5, offset: 55674},
+																												pos: position{line: 1733, col: 5, offset: 55980},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -28858,30 +28965,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1715, col: 35, offset: 55484},
+																								pos: position{line: 1725, col: 35, offset: 55790},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28890,16 +28997,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1715, col: 40, offset: 55489,
+																								line: 1725, col: 40, offset: 55795,
 																							},
 																						},
 																					},
@@ -28907,24 +29014,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1708, col: 5, offset: 55163},
+																			pos:   position{line: 1718, col: 5, offset: 55469},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 5, offset: 55605},
+																				pos: position{line: 1730, col: 5, offset: 55911},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1720, col: 5, offset: 55605},
+																					pos: position{line: 1730, col: 5, offset: 55911},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1720, col: 5, offset: 55605},
+																							pos:   position{line: 1730, col: 5, offset: 55911},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1720, col: 16, offset: 55616},
+																								pos: position{line: 1730, col: 16, offset: 55922},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1720, col: 16, offset: 55616},
+																									pos: position{line: 1730, col: 16, offset: 55922},
 																									expr: &litMatcher{
-																										pos:        position{line: 1720, col: 17, offset: 55617},
+																										pos:        position{line: 1730, col: 17, offset: 55923},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28933,7 +29040,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1723, col: 5, offset: 55674},
+																							pos: position{line: 1733, col: 5, offset: 55980},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -28941,24 +29048,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1709, col: 5, offset: 55208},
+																			pos:   position{line: 1719, col: 5, offset: 55514},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1731, col: 5, offset: 55923},
+																				pos: position{line: 1741, col: 5, offset: 56229},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1733, col: 9, offset: 55989},
+																						pos: position{line: 1743, col: 9, offset: 56295},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1733, col: 9, offset: 55989},
+																							pos: position{line: 1743, col: 9, offset: 56295},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1733, col: 9, offset: 55989},
+																									pos: position{line: 1743, col: 9, offset: 56295},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28967,28 +29074,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28997,15 +29104,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1734, col: 9, offset: 56008},
+																									pos: position{line: 1744, col: 9, offset: 56314},
 																									expr: &actionExpr{
 																										pos: position{line: 697, col: 14, offset: 22135},
 																										run: (*parser).callonExtraListElement442,
@@ -29013,18 +29120,18 @@ var g = &grammar{
 																											pos: position{line: 697, col: 14, offset: 22135},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2990, col: 11, offset: 94552},
+																													pos: position{line: 3000, col: 11, offset: 94858},
 																													expr: &anyMatcher{
-																														line: 2990, col: 13, offset: 94554,
+																														line: 3000, col: 13, offset: 94860,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 697, col: 21, offset: 22142},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -29033,28 +29140,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -29063,9 +29170,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -29078,18 +29185,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1740, col: 9, offset: 56137},
+																						pos: position{line: 1750, col: 9, offset: 56443},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1740, col: 9, offset: 56137},
+																							pos: position{line: 1750, col: 9, offset: 56443},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94279},
+																										pos: position{line: 2987, col: 11, offset: 94585},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94279},
+																											pos:        position{line: 2987, col: 11, offset: 94585},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29098,15 +29205,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1741, col: 9, offset: 56210},
+																									pos:   position{line: 1751, col: 9, offset: 56516},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1741, col: 18, offset: 56219},
+																										pos: position{line: 1751, col: 18, offset: 56525},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1741, col: 18, offset: 56219},
+																											pos: position{line: 1751, col: 18, offset: 56525},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1741, col: 18, offset: 56219},
+																												pos:        position{line: 1751, col: 18, offset: 56525},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -29116,28 +29223,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29146,9 +29253,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -29169,40 +29276,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1549, col: 11, offset: 49991},
+										pos:  position{line: 1559, col: 11, offset: 50297},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81861},
+										pos: position{line: 2550, col: 22, offset: 82167},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82082},
+													pos:        position{line: 2555, col: 31, offset: 82388},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82087},
+													pos: position{line: 2555, col: 36, offset: 82393},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82088},
+														pos:        position{line: 2555, col: 37, offset: 82394},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81888},
+													pos:   position{line: 2550, col: 49, offset: 82194},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91905},
+														pos: position{line: 2902, col: 13, offset: 92211},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91905},
+																pos:        position{line: 2902, col: 13, offset: 92211},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29212,28 +29319,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29242,9 +29349,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -29253,13 +29360,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1557, col: 5, offset: 50255},
+										pos: position{line: 1567, col: 5, offset: 50561},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1557, col: 5, offset: 50255},
+											pos: position{line: 1567, col: 5, offset: 50561},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1557, col: 5, offset: 50255},
+													pos: position{line: 1567, col: 5, offset: 50561},
 													expr: &actionExpr{
 														pos: position{line: 697, col: 14, offset: 22135},
 														run: (*parser).callonExtraListElement495,
@@ -29267,18 +29374,18 @@ var g = &grammar{
 															pos: position{line: 697, col: 14, offset: 22135},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2990, col: 11, offset: 94552},
+																	pos: position{line: 3000, col: 11, offset: 94858},
 																	expr: &anyMatcher{
-																		line: 2990, col: 13, offset: 94554,
+																		line: 3000, col: 13, offset: 94860,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 697, col: 21, offset: 22142},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29287,28 +29394,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29317,9 +29424,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -29329,23 +29436,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1558, col: 5, offset: 50270},
+													pos: position{line: 1568, col: 5, offset: 50576},
 													expr: &seqExpr{
-														pos: position{line: 1588, col: 27, offset: 51254},
+														pos: position{line: 1598, col: 27, offset: 51560},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1588, col: 27, offset: 51254},
+																pos:        position{line: 1598, col: 27, offset: 51560},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1588, col: 31, offset: 51258},
+																pos: position{line: 1598, col: 31, offset: 51564},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -29354,25 +29461,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -29384,20 +29491,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1559, col: 5, offset: 50298},
+													pos: position{line: 1569, col: 5, offset: 50604},
 													expr: &actionExpr{
-														pos: position{line: 1630, col: 5, offset: 52473},
+														pos: position{line: 1640, col: 5, offset: 52779},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1630, col: 5, offset: 52473},
+															pos: position{line: 1640, col: 5, offset: 52779},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1630, col: 5, offset: 52473},
+																	pos: position{line: 1640, col: 5, offset: 52779},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29406,27 +29513,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1630, col: 12, offset: 52480},
+																	pos:   position{line: 1640, col: 12, offset: 52786},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1632, col: 9, offset: 52543},
+																		pos: position{line: 1642, col: 9, offset: 52849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1632, col: 9, offset: 52543},
+																				pos: position{line: 1642, col: 9, offset: 52849},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 9, offset: 52543},
+																					pos: position{line: 1642, col: 9, offset: 52849},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1632, col: 9, offset: 52543},
+																							pos:   position{line: 1642, col: 9, offset: 52849},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1632, col: 16, offset: 52550},
+																								pos: position{line: 1642, col: 16, offset: 52856},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1632, col: 16, offset: 52550},
+																									pos: position{line: 1642, col: 16, offset: 52856},
 																									expr: &litMatcher{
-																										pos:        position{line: 1632, col: 17, offset: 52551},
+																										pos:        position{line: 1642, col: 17, offset: 52857},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29435,22 +29542,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1636, col: 9, offset: 52651},
+																							pos: position{line: 1646, col: 9, offset: 52957},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1655, col: 11, offset: 53368},
+																				pos: position{line: 1665, col: 11, offset: 53674},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1655, col: 11, offset: 53368},
+																					pos: position{line: 1665, col: 11, offset: 53674},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1655, col: 11, offset: 53368},
+																							pos: position{line: 1665, col: 11, offset: 53674},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1655, col: 12, offset: 53369},
+																								pos:        position{line: 1665, col: 12, offset: 53675},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29458,7 +29565,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1655, col: 20, offset: 53377},
+																							pos:        position{line: 1665, col: 20, offset: 53683},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29467,20 +29574,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1657, col: 13, offset: 53494},
+																				pos: position{line: 1667, col: 13, offset: 53800},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1657, col: 13, offset: 53494},
+																					pos: position{line: 1667, col: 13, offset: 53800},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1657, col: 14, offset: 53495},
+																							pos:        position{line: 1667, col: 14, offset: 53801},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1657, col: 21, offset: 53502},
+																							pos:        position{line: 1667, col: 21, offset: 53808},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29489,20 +29596,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1659, col: 13, offset: 53622},
+																				pos: position{line: 1669, col: 13, offset: 53928},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1659, col: 13, offset: 53622},
+																					pos: position{line: 1669, col: 13, offset: 53928},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1659, col: 14, offset: 53623},
+																							pos:        position{line: 1669, col: 14, offset: 53929},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1659, col: 21, offset: 53630},
+																							pos:        position{line: 1669, col: 21, offset: 53936},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29511,15 +29618,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1661, col: 13, offset: 53750},
+																				pos: position{line: 1671, col: 13, offset: 54056},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1661, col: 13, offset: 53750},
+																					pos: position{line: 1671, col: 13, offset: 54056},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1661, col: 13, offset: 53750},
+																							pos: position{line: 1671, col: 13, offset: 54056},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1661, col: 14, offset: 53751},
+																								pos:        position{line: 1671, col: 14, offset: 54057},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29527,7 +29634,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1661, col: 26, offset: 53763},
+																							pos:        position{line: 1671, col: 26, offset: 54069},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29536,15 +29643,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1663, col: 13, offset: 53883},
+																				pos: position{line: 1673, col: 13, offset: 54189},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1663, col: 13, offset: 53883},
+																					pos: position{line: 1673, col: 13, offset: 54189},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 13, offset: 53883},
+																							pos: position{line: 1673, col: 13, offset: 54189},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1663, col: 14, offset: 53884},
+																								pos:        position{line: 1673, col: 14, offset: 54190},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29552,7 +29659,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1663, col: 26, offset: 53896},
+																							pos:        position{line: 1673, col: 26, offset: 54202},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29564,12 +29671,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29582,20 +29689,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1560, col: 5, offset: 50328},
+													pos: position{line: 1570, col: 5, offset: 50634},
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54435},
+														pos: position{line: 1690, col: 5, offset: 54741},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54435},
+															pos: position{line: 1690, col: 5, offset: 54741},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1680, col: 5, offset: 54435},
+																	pos: position{line: 1690, col: 5, offset: 54741},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29604,24 +29711,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1681, col: 5, offset: 54447},
+																	pos:   position{line: 1691, col: 5, offset: 54753},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1682, col: 9, offset: 54463},
+																		pos: position{line: 1692, col: 9, offset: 54769},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 10, offset: 54464},
+																			pos: position{line: 1692, col: 10, offset: 54770},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1682, col: 11, offset: 54465},
+																					pos:        position{line: 1692, col: 11, offset: 54771},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1682, col: 18, offset: 54472},
+																					pos: position{line: 1692, col: 18, offset: 54778},
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 19, offset: 54473},
+																						pos:        position{line: 1692, col: 19, offset: 54779},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29632,16 +29739,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1685, col: 7, offset: 54563},
+																	pos: position{line: 1695, col: 7, offset: 54869},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29654,29 +29761,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1561, col: 5, offset: 50360},
+													pos: position{line: 1571, col: 5, offset: 50666},
 													expr: &actionExpr{
-														pos: position{line: 1769, col: 5, offset: 56972},
+														pos: position{line: 1779, col: 5, offset: 57278},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1769, col: 5, offset: 56972},
+															pos: position{line: 1779, col: 5, offset: 57278},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1769, col: 5, offset: 56972},
+																	pos:        position{line: 1779, col: 5, offset: 57278},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1769, col: 9, offset: 56976},
+																	pos:   position{line: 1779, col: 9, offset: 57282},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1769, col: 14, offset: 56981},
+																		pos: position{line: 1779, col: 14, offset: 57287},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1769, col: 14, offset: 56981},
+																			pos: position{line: 1779, col: 14, offset: 57287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1769, col: 14, offset: 56981},
+																				pos:        position{line: 1779, col: 14, offset: 57287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29686,18 +29793,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1769, col: 62, offset: 57029},
+																	pos:        position{line: 1779, col: 62, offset: 57335},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29710,36 +29817,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1562, col: 5, offset: 50390},
+													pos: position{line: 1572, col: 5, offset: 50696},
 													expr: &seqExpr{
-														pos: position{line: 1562, col: 7, offset: 50392},
+														pos: position{line: 1572, col: 7, offset: 50698},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1715, col: 5, offset: 55454},
+																pos: position{line: 1725, col: 5, offset: 55760},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1715, col: 5, offset: 55454},
+																	pos: position{line: 1725, col: 5, offset: 55760},
 																	expr: &seqExpr{
-																		pos: position{line: 1715, col: 6, offset: 55455},
+																		pos: position{line: 1725, col: 6, offset: 55761},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1715, col: 6, offset: 55455},
+																				pos: position{line: 1725, col: 6, offset: 55761},
 																				expr: &actionExpr{
-																					pos: position{line: 1720, col: 5, offset: 55605},
+																					pos: position{line: 1730, col: 5, offset: 55911},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1720, col: 5, offset: 55605},
+																						pos: position{line: 1730, col: 5, offset: 55911},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1720, col: 5, offset: 55605},
+																								pos:   position{line: 1730, col: 5, offset: 55911},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1720, col: 16, offset: 55616},
+																									pos: position{line: 1730, col: 16, offset: 55922},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1720, col: 16, offset: 55616},
+																										pos: position{line: 1730, col: 16, offset: 55922},
 																										expr: &litMatcher{
-																											pos:        position{line: 1720, col: 17, offset: 55617},
+																											pos:        position{line: 1730, col: 17, offset: 55923},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -29748,7 +29855,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1723, col: 5, offset: 55674},
+																								pos: position{line: 1733, col: 5, offset: 55980},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -29756,30 +29863,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1715, col: 35, offset: 55484},
+																				pos: position{line: 1725, col: 35, offset: 55790},
 																				expr: &choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -29788,37 +29895,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1715, col: 40, offset: 55489,
+																				line: 1725, col: 40, offset: 55795,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1720, col: 5, offset: 55605},
+																pos: position{line: 1730, col: 5, offset: 55911},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1720, col: 5, offset: 55605},
+																	pos: position{line: 1730, col: 5, offset: 55911},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1720, col: 5, offset: 55605},
+																			pos:   position{line: 1730, col: 5, offset: 55911},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1720, col: 16, offset: 55616},
+																				pos: position{line: 1730, col: 16, offset: 55922},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1720, col: 16, offset: 55616},
+																					pos: position{line: 1730, col: 16, offset: 55922},
 																					expr: &litMatcher{
-																						pos:        position{line: 1720, col: 17, offset: 55617},
+																						pos:        position{line: 1730, col: 17, offset: 55923},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29827,20 +29934,20 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1723, col: 5, offset: 55674},
+																			pos: position{line: 1733, col: 5, offset: 55980},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 1562, col: 59, offset: 50444},
+																pos: position{line: 1572, col: 59, offset: 50750},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonExtraListElement621,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29848,25 +29955,25 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonExtraListElement623,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -29875,9 +29982,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -29886,9 +29993,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1563, col: 5, offset: 50462},
+													pos: position{line: 1573, col: 5, offset: 50768},
 													expr: &choiceExpr{
-														pos: position{line: 1563, col: 7, offset: 50464},
+														pos: position{line: 1573, col: 7, offset: 50770},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 744, col: 5, offset: 23707},
@@ -29899,7 +30006,7 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 744, col: 5, offset: 23707},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 13, offset: 90166},
+																				pos:        position{line: 2837, col: 13, offset: 90472},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -29949,10 +30056,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 762, col: 8, offset: 24351},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement647,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -29961,28 +30068,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement650,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -29991,9 +30098,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30038,10 +30145,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 769, col: 8, offset: 24599},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30050,28 +30157,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30080,9 +30187,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30123,10 +30230,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 780, col: 52, offset: 25011},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement684,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30135,28 +30242,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement687,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30165,9 +30272,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30212,10 +30319,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 776, col: 8, offset: 24845},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement703,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30224,28 +30331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement706,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30254,9 +30361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30301,10 +30408,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 791, col: 8, offset: 25383},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement722,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30313,28 +30420,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement725,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30343,9 +30450,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30390,10 +30497,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 805, col: 8, offset: 25859},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement741,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30402,28 +30509,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement744,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30432,9 +30539,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30479,10 +30586,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 812, col: 8, offset: 26111},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement760,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30491,28 +30598,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement763,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30521,9 +30628,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30568,10 +30675,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 819, col: 8, offset: 26361},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement779,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30580,28 +30687,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement782,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30610,9 +30717,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30657,10 +30764,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 826, col: 8, offset: 26607},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonExtraListElement798,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -30669,28 +30776,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonExtraListElement801,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -30699,9 +30806,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -30738,10 +30845,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25614},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonExtraListElement814,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30750,28 +30857,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonExtraListElement817,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30780,9 +30887,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -30791,21 +30898,21 @@ var g = &grammar{
 																},
 															},
 															&seqExpr{
-																pos: position{line: 2675, col: 19, offset: 85618},
+																pos: position{line: 2685, col: 19, offset: 85924},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2675, col: 19, offset: 85618},
+																		pos:        position{line: 2685, col: 19, offset: 85924},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2675, col: 26, offset: 85625},
+																		pos: position{line: 2685, col: 26, offset: 85931},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonExtraListElement827,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30814,28 +30921,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonExtraListElement830,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -30844,9 +30951,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -30857,15 +30964,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1564, col: 5, offset: 50522},
+													pos:   position{line: 1574, col: 5, offset: 50828},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 14, offset: 91972},
+														pos: position{line: 2906, col: 14, offset: 92278},
 														run: (*parser).callonExtraListElement838,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2896, col: 14, offset: 91972},
+															pos: position{line: 2906, col: 14, offset: 92278},
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 14, offset: 91972},
+																pos:        position{line: 2906, col: 14, offset: 92278},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -30875,28 +30982,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonExtraListElement842,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30905,9 +31012,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -30924,28 +31031,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1580, col: 1, offset: 50913},
+			pos:  position{line: 1590, col: 1, offset: 51219},
 			expr: &actionExpr{
-				pos: position{line: 1581, col: 5, offset: 50938},
+				pos: position{line: 1591, col: 5, offset: 51244},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1581, col: 5, offset: 50938},
+					pos: position{line: 1591, col: 5, offset: 51244},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1581, col: 5, offset: 50938},
+							pos:   position{line: 1591, col: 5, offset: 51244},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1581, col: 12, offset: 50945},
+								pos: position{line: 1591, col: 12, offset: 51251},
 								expr: &seqExpr{
-									pos: position{line: 1581, col: 13, offset: 50946},
+									pos: position{line: 1591, col: 13, offset: 51252},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1581, col: 13, offset: 50946},
+											pos: position{line: 1591, col: 13, offset: 51252},
 											expr: &actionExpr{
-												pos: position{line: 2973, col: 10, offset: 94218},
+												pos: position{line: 2983, col: 10, offset: 94524},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2973, col: 10, offset: 94218},
+													pos:        position{line: 2983, col: 10, offset: 94524},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30954,25 +31061,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2982, col: 12, offset: 94389},
+											pos: position{line: 2992, col: 12, offset: 94695},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2982, col: 13, offset: 94390},
+												pos: position{line: 2992, col: 13, offset: 94696},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2982, col: 13, offset: 94390},
+														pos:        position{line: 2992, col: 13, offset: 94696},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2982, col: 20, offset: 94397},
+														pos:        position{line: 2992, col: 20, offset: 94703},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2982, col: 29, offset: 94406},
+														pos:        position{line: 2992, col: 29, offset: 94712},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30985,18 +31092,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1582, col: 5, offset: 50968},
+							pos:        position{line: 1592, col: 5, offset: 51274},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1582, col: 9, offset: 50972},
+							pos: position{line: 1592, col: 9, offset: 51278},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -31005,28 +31112,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonListContinuation19,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -31035,31 +31142,31 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1583, col: 5, offset: 50987},
+							pos:   position{line: 1593, col: 5, offset: 51293},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1583, col: 13, offset: 50995},
+								pos: position{line: 1593, col: 13, offset: 51301},
 								expr: &choiceExpr{
-									pos: position{line: 1583, col: 14, offset: 50996},
+									pos: position{line: 1593, col: 14, offset: 51302},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1583, col: 14, offset: 50996},
+											pos: position{line: 1593, col: 14, offset: 51302},
 											run: (*parser).callonListContinuation29,
 											expr: &seqExpr{
-												pos: position{line: 1583, col: 14, offset: 50996},
+												pos: position{line: 1593, col: 14, offset: 51302},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1583, col: 14, offset: 50996},
+														pos: position{line: 1593, col: 14, offset: 51302},
 														expr: &choiceExpr{
-															pos: position{line: 1583, col: 15, offset: 50997},
+															pos: position{line: 1593, col: 15, offset: 51303},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -31068,18 +31175,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2990, col: 11, offset: 94552},
+																				pos: position{line: 3000, col: 11, offset: 94858},
 																				expr: &anyMatcher{
-																					line: 2990, col: 13, offset: 94554,
+																					line: 3000, col: 13, offset: 94860,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonListContinuation38,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -31088,28 +31195,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuation41,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31118,9 +31225,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -31129,36 +31236,36 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2540, col: 22, offset: 81861},
+																	pos: position{line: 2550, col: 22, offset: 82167},
 																	run: (*parser).callonListContinuation48,
 																	expr: &seqExpr{
-																		pos: position{line: 2540, col: 22, offset: 81861},
+																		pos: position{line: 2550, col: 22, offset: 82167},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2545, col: 31, offset: 82082},
+																				pos:        position{line: 2555, col: 31, offset: 82388},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2545, col: 36, offset: 82087},
+																				pos: position{line: 2555, col: 36, offset: 82393},
 																				expr: &litMatcher{
-																					pos:        position{line: 2545, col: 37, offset: 82088},
+																					pos:        position{line: 2555, col: 37, offset: 82394},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2540, col: 49, offset: 81888},
+																				pos:   position{line: 2550, col: 49, offset: 82194},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 13, offset: 91905},
+																					pos: position{line: 2902, col: 13, offset: 92211},
 																					run: (*parser).callonListContinuation54,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2892, col: 13, offset: 91905},
+																						pos: position{line: 2902, col: 13, offset: 92211},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91905},
+																							pos:        position{line: 2902, col: 13, offset: 92211},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -31168,28 +31275,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuation58,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -31198,9 +31305,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -31212,10 +31319,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1583, col: 47, offset: 51029},
+														pos:   position{line: 1593, col: 47, offset: 51335},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1583, col: 49, offset: 51031},
+															pos:  position{line: 1593, col: 49, offset: 51337},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31223,13 +31330,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1583, col: 93, offset: 51075},
+											pos: position{line: 1593, col: 93, offset: 51381},
 											run: (*parser).callonListContinuation67,
 											expr: &seqExpr{
-												pos: position{line: 1583, col: 93, offset: 51075},
+												pos: position{line: 1593, col: 93, offset: 51381},
 												exprs: []interface{}{
 													&zeroOrMoreExpr{
-														pos: position{line: 1583, col: 93, offset: 51075},
+														pos: position{line: 1593, col: 93, offset: 51381},
 														expr: &actionExpr{
 															pos: position{line: 697, col: 14, offset: 22135},
 															run: (*parser).callonListContinuation70,
@@ -31237,18 +31344,18 @@ var g = &grammar{
 																pos: position{line: 697, col: 14, offset: 22135},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 2990, col: 11, offset: 94552},
+																		pos: position{line: 3000, col: 11, offset: 94858},
 																		expr: &anyMatcher{
-																			line: 2990, col: 13, offset: 94554,
+																			line: 3000, col: 13, offset: 94860,
 																		},
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 697, col: 21, offset: 22142},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonListContinuation75,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31257,28 +31364,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonListContinuation78,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -31287,9 +31394,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -31299,10 +31406,10 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1583, col: 104, offset: 51086},
+														pos:   position{line: 1593, col: 104, offset: 51392},
 														label: "e",
 														expr: &ruleRefExpr{
-															pos:  position{line: 1583, col: 106, offset: 51088},
+															pos:  position{line: 1593, col: 106, offset: 51394},
 															name: "ListContinuationElement",
 														},
 													},
@@ -31319,46 +31426,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1590, col: 1, offset: 51274},
+			pos:  position{line: 1600, col: 1, offset: 51580},
 			expr: &actionExpr{
-				pos: position{line: 1591, col: 5, offset: 51320},
+				pos: position{line: 1601, col: 5, offset: 51626},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1591, col: 5, offset: 51320},
+					pos: position{line: 1601, col: 5, offset: 51626},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1592, col: 5, offset: 51348},
+							pos: position{line: 1602, col: 5, offset: 51654},
 							expr: &choiceExpr{
-								pos: position{line: 1529, col: 5, offset: 49187},
+								pos: position{line: 1539, col: 5, offset: 49493},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1623, col: 5, offset: 52265},
+										pos: position{line: 1633, col: 5, offset: 52571},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1623, col: 5, offset: 52265},
+											pos: position{line: 1633, col: 5, offset: 52571},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1623, col: 5, offset: 52265},
+													pos:   position{line: 1633, col: 5, offset: 52571},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1630, col: 5, offset: 52473},
+														pos: position{line: 1640, col: 5, offset: 52779},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1630, col: 5, offset: 52473},
+															pos: position{line: 1640, col: 5, offset: 52779},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1630, col: 5, offset: 52473},
+																	pos: position{line: 1640, col: 5, offset: 52779},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31367,27 +31474,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1630, col: 12, offset: 52480},
+																	pos:   position{line: 1640, col: 12, offset: 52786},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1632, col: 9, offset: 52543},
+																		pos: position{line: 1642, col: 9, offset: 52849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1632, col: 9, offset: 52543},
+																				pos: position{line: 1642, col: 9, offset: 52849},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 9, offset: 52543},
+																					pos: position{line: 1642, col: 9, offset: 52849},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1632, col: 9, offset: 52543},
+																							pos:   position{line: 1642, col: 9, offset: 52849},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1632, col: 16, offset: 52550},
+																								pos: position{line: 1642, col: 16, offset: 52856},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1632, col: 16, offset: 52550},
+																									pos: position{line: 1642, col: 16, offset: 52856},
 																									expr: &litMatcher{
-																										pos:        position{line: 1632, col: 17, offset: 52551},
+																										pos:        position{line: 1642, col: 17, offset: 52857},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -31396,22 +31503,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1636, col: 9, offset: 52651},
+																							pos: position{line: 1646, col: 9, offset: 52957},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1655, col: 11, offset: 53368},
+																				pos: position{line: 1665, col: 11, offset: 53674},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1655, col: 11, offset: 53368},
+																					pos: position{line: 1665, col: 11, offset: 53674},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1655, col: 11, offset: 53368},
+																							pos: position{line: 1665, col: 11, offset: 53674},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1655, col: 12, offset: 53369},
+																								pos:        position{line: 1665, col: 12, offset: 53675},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -31419,7 +31526,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1655, col: 20, offset: 53377},
+																							pos:        position{line: 1665, col: 20, offset: 53683},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31428,20 +31535,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1657, col: 13, offset: 53494},
+																				pos: position{line: 1667, col: 13, offset: 53800},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1657, col: 13, offset: 53494},
+																					pos: position{line: 1667, col: 13, offset: 53800},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1657, col: 14, offset: 53495},
+																							pos:        position{line: 1667, col: 14, offset: 53801},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1657, col: 21, offset: 53502},
+																							pos:        position{line: 1667, col: 21, offset: 53808},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31450,20 +31557,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1659, col: 13, offset: 53622},
+																				pos: position{line: 1669, col: 13, offset: 53928},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1659, col: 13, offset: 53622},
+																					pos: position{line: 1669, col: 13, offset: 53928},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1659, col: 14, offset: 53623},
+																							pos:        position{line: 1669, col: 14, offset: 53929},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1659, col: 21, offset: 53630},
+																							pos:        position{line: 1669, col: 21, offset: 53936},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -31472,15 +31579,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1661, col: 13, offset: 53750},
+																				pos: position{line: 1671, col: 13, offset: 54056},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1661, col: 13, offset: 53750},
+																					pos: position{line: 1671, col: 13, offset: 54056},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1661, col: 13, offset: 53750},
+																							pos: position{line: 1671, col: 13, offset: 54056},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1661, col: 14, offset: 53751},
+																								pos:        position{line: 1671, col: 14, offset: 54057},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -31488,7 +31595,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1661, col: 26, offset: 53763},
+																							pos:        position{line: 1671, col: 26, offset: 54069},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31497,15 +31604,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1663, col: 13, offset: 53883},
+																				pos: position{line: 1673, col: 13, offset: 54189},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1663, col: 13, offset: 53883},
+																					pos: position{line: 1673, col: 13, offset: 54189},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 13, offset: 53883},
+																							pos: position{line: 1673, col: 13, offset: 54189},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1663, col: 14, offset: 53884},
+																								pos:        position{line: 1673, col: 14, offset: 54190},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -31513,7 +31620,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1663, col: 26, offset: 53896},
+																							pos:        position{line: 1673, col: 26, offset: 54202},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -31525,12 +31632,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31543,26 +31650,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1624, col: 5, offset: 52304},
+													pos:   position{line: 1634, col: 5, offset: 52610},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31573,28 +31680,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31603,9 +31710,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -31618,27 +31725,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1673, col: 5, offset: 54162},
+										pos: position{line: 1683, col: 5, offset: 54468},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1673, col: 5, offset: 54162},
+											pos: position{line: 1683, col: 5, offset: 54468},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1673, col: 5, offset: 54162},
+													pos:   position{line: 1683, col: 5, offset: 54468},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54435},
+														pos: position{line: 1690, col: 5, offset: 54741},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54435},
+															pos: position{line: 1690, col: 5, offset: 54741},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1680, col: 5, offset: 54435},
+																	pos: position{line: 1690, col: 5, offset: 54741},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31647,24 +31754,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1681, col: 5, offset: 54447},
+																	pos:   position{line: 1691, col: 5, offset: 54753},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1682, col: 9, offset: 54463},
+																		pos: position{line: 1692, col: 9, offset: 54769},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1682, col: 10, offset: 54464},
+																			pos: position{line: 1692, col: 10, offset: 54770},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1682, col: 11, offset: 54465},
+																					pos:        position{line: 1692, col: 11, offset: 54771},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1682, col: 18, offset: 54472},
+																					pos: position{line: 1692, col: 18, offset: 54778},
 																					expr: &litMatcher{
-																						pos:        position{line: 1682, col: 19, offset: 54473},
+																						pos:        position{line: 1692, col: 19, offset: 54779},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -31675,16 +31782,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1685, col: 7, offset: 54563},
+																	pos: position{line: 1695, col: 7, offset: 54869},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31697,56 +31804,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1674, col: 5, offset: 54203},
+													pos:   position{line: 1684, col: 5, offset: 54509},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1674, col: 16, offset: 54214},
+														pos: position{line: 1684, col: 16, offset: 54520},
 														expr: &actionExpr{
-															pos: position{line: 1695, col: 5, offset: 54828},
+															pos: position{line: 1705, col: 5, offset: 55134},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1695, col: 5, offset: 54828},
+																pos: position{line: 1705, col: 5, offset: 55134},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1695, col: 5, offset: 54828},
+																		pos: position{line: 1705, col: 5, offset: 55134},
 																		expr: &litMatcher{
-																			pos:        position{line: 1695, col: 6, offset: 54829},
+																			pos:        position{line: 1705, col: 6, offset: 55135},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1695, col: 10, offset: 54833},
+																		pos:   position{line: 1705, col: 10, offset: 55139},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1696, col: 7, offset: 54847},
+																			pos: position{line: 1706, col: 7, offset: 55153},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1696, col: 7, offset: 54847},
+																					pos: position{line: 1706, col: 7, offset: 55153},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1696, col: 7, offset: 54847},
+																						pos:        position{line: 1706, col: 7, offset: 55153},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1697, col: 7, offset: 54892},
+																					pos: position{line: 1707, col: 7, offset: 55198},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1697, col: 7, offset: 54892},
+																						pos:        position{line: 1707, col: 7, offset: 55198},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1698, col: 7, offset: 54935},
+																					pos: position{line: 1708, col: 7, offset: 55241},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1698, col: 7, offset: 54935},
+																						pos:        position{line: 1708, col: 7, offset: 55241},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -31756,12 +31863,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -31775,26 +31882,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1675, col: 5, offset: 54253},
+													pos:   position{line: 1685, col: 5, offset: 54559},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31805,28 +31912,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31835,9 +31942,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -31850,36 +31957,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1763, col: 5, offset: 56775},
+										pos: position{line: 1773, col: 5, offset: 57081},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1763, col: 5, offset: 56775},
+											pos: position{line: 1773, col: 5, offset: 57081},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1763, col: 5, offset: 56775},
+													pos:   position{line: 1773, col: 5, offset: 57081},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1769, col: 5, offset: 56972},
+														pos: position{line: 1779, col: 5, offset: 57278},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1769, col: 5, offset: 56972},
+															pos: position{line: 1779, col: 5, offset: 57278},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1769, col: 5, offset: 56972},
+																	pos:        position{line: 1779, col: 5, offset: 57278},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1769, col: 9, offset: 56976},
+																	pos:   position{line: 1779, col: 9, offset: 57282},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1769, col: 14, offset: 56981},
+																		pos: position{line: 1779, col: 14, offset: 57287},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1769, col: 14, offset: 56981},
+																			pos: position{line: 1779, col: 14, offset: 57287},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1769, col: 14, offset: 56981},
+																				pos:        position{line: 1779, col: 14, offset: 57287},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -31889,18 +31996,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1769, col: 62, offset: 57029},
+																	pos:        position{line: 1779, col: 62, offset: 57335},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31913,26 +32020,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1764, col: 5, offset: 56811},
+													pos:   position{line: 1774, col: 5, offset: 57117},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1570, col: 5, offset: 50667},
+														pos: position{line: 1580, col: 5, offset: 50973},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1570, col: 5, offset: 50667},
+															pos: position{line: 1580, col: 5, offset: 50973},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1570, col: 5, offset: 50667},
+																	pos:   position{line: 1580, col: 5, offset: 50973},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1570, col: 14, offset: 50676},
+																		pos: position{line: 1580, col: 14, offset: 50982},
 																		expr: &actionExpr{
-																			pos: position{line: 1570, col: 15, offset: 50677},
+																			pos: position{line: 1580, col: 15, offset: 50983},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1570, col: 15, offset: 50677},
+																				pos: position{line: 1580, col: 15, offset: 50983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1570, col: 15, offset: 50677},
+																					pos:        position{line: 1580, col: 15, offset: 50983},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -31943,28 +32050,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31973,9 +32080,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -31988,40 +32095,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1707, col: 5, offset: 55128},
+										pos: position{line: 1717, col: 5, offset: 55434},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1707, col: 5, offset: 55128},
+											pos: position{line: 1717, col: 5, offset: 55434},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1707, col: 5, offset: 55128},
+													pos:   position{line: 1717, col: 5, offset: 55434},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1715, col: 5, offset: 55454},
+														pos: position{line: 1725, col: 5, offset: 55760},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1715, col: 5, offset: 55454},
+															pos: position{line: 1725, col: 5, offset: 55760},
 															expr: &seqExpr{
-																pos: position{line: 1715, col: 6, offset: 55455},
+																pos: position{line: 1725, col: 6, offset: 55761},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1715, col: 6, offset: 55455},
+																		pos: position{line: 1725, col: 6, offset: 55761},
 																		expr: &actionExpr{
-																			pos: position{line: 1720, col: 5, offset: 55605},
+																			pos: position{line: 1730, col: 5, offset: 55911},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1720, col: 5, offset: 55605},
+																				pos: position{line: 1730, col: 5, offset: 55911},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1720, col: 5, offset: 55605},
+																						pos:   position{line: 1730, col: 5, offset: 55911},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1720, col: 16, offset: 55616},
+																							pos: position{line: 1730, col: 16, offset: 55922},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1720, col: 16, offset: 55616},
+																								pos: position{line: 1730, col: 16, offset: 55922},
 																								expr: &litMatcher{
-																									pos:        position{line: 1720, col: 17, offset: 55617},
+																									pos:        position{line: 1730, col: 17, offset: 55923},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -32030,7 +32137,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1723, col: 5, offset: 55674},
+																						pos: position{line: 1733, col: 5, offset: 55980},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -32038,30 +32145,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1715, col: 35, offset: 55484},
+																		pos: position{line: 1725, col: 35, offset: 55790},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32070,16 +32177,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1715, col: 40, offset: 55489,
+																		line: 1725, col: 40, offset: 55795,
 																	},
 																},
 															},
@@ -32087,24 +32194,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1708, col: 5, offset: 55163},
+													pos:   position{line: 1718, col: 5, offset: 55469},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1720, col: 5, offset: 55605},
+														pos: position{line: 1730, col: 5, offset: 55911},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1720, col: 5, offset: 55605},
+															pos: position{line: 1730, col: 5, offset: 55911},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1720, col: 5, offset: 55605},
+																	pos:   position{line: 1730, col: 5, offset: 55911},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1720, col: 16, offset: 55616},
+																		pos: position{line: 1730, col: 16, offset: 55922},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1720, col: 16, offset: 55616},
+																			pos: position{line: 1730, col: 16, offset: 55922},
 																			expr: &litMatcher{
-																				pos:        position{line: 1720, col: 17, offset: 55617},
+																				pos:        position{line: 1730, col: 17, offset: 55923},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -32113,7 +32220,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1723, col: 5, offset: 55674},
+																	pos: position{line: 1733, col: 5, offset: 55980},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -32121,24 +32228,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1709, col: 5, offset: 55208},
+													pos:   position{line: 1719, col: 5, offset: 55514},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1731, col: 5, offset: 55923},
+														pos: position{line: 1741, col: 5, offset: 56229},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1733, col: 9, offset: 55989},
+																pos: position{line: 1743, col: 9, offset: 56295},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1733, col: 9, offset: 55989},
+																	pos: position{line: 1743, col: 9, offset: 56295},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1733, col: 9, offset: 55989},
+																			pos: position{line: 1743, col: 9, offset: 56295},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32147,28 +32254,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32177,15 +32284,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1734, col: 9, offset: 56008},
+																			pos: position{line: 1744, col: 9, offset: 56314},
 																			expr: &actionExpr{
 																				pos: position{line: 697, col: 14, offset: 22135},
 																				run: (*parser).callonListContinuationElement195,
@@ -32193,18 +32300,18 @@ var g = &grammar{
 																					pos: position{line: 697, col: 14, offset: 22135},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2990, col: 11, offset: 94552},
+																							pos: position{line: 3000, col: 11, offset: 94858},
 																							expr: &anyMatcher{
-																								line: 2990, col: 13, offset: 94554,
+																								line: 3000, col: 13, offset: 94860,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 697, col: 21, offset: 22142},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32213,28 +32320,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32243,9 +32350,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -32258,18 +32365,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1740, col: 9, offset: 56137},
+																pos: position{line: 1750, col: 9, offset: 56443},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1740, col: 9, offset: 56137},
+																	pos: position{line: 1750, col: 9, offset: 56443},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2977, col: 11, offset: 94279},
+																				pos: position{line: 2987, col: 11, offset: 94585},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2977, col: 11, offset: 94279},
+																					pos:        position{line: 2987, col: 11, offset: 94585},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -32278,15 +32385,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1741, col: 9, offset: 56210},
+																			pos:   position{line: 1751, col: 9, offset: 56516},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1741, col: 18, offset: 56219},
+																				pos: position{line: 1751, col: 18, offset: 56525},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1741, col: 18, offset: 56219},
+																					pos: position{line: 1751, col: 18, offset: 56525},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1741, col: 18, offset: 56219},
+																						pos:        position{line: 1751, col: 18, offset: 56525},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -32296,28 +32403,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -32326,9 +32433,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -32346,21 +32453,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1593, col: 5, offset: 51365},
+							pos:   position{line: 1603, col: 5, offset: 51671},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1593, col: 16, offset: 51376},
+								pos: position{line: 1603, col: 16, offset: 51682},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1593, col: 17, offset: 51377},
+									pos:  position{line: 1603, col: 17, offset: 51683},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1594, col: 5, offset: 51399},
+							pos:   position{line: 1604, col: 5, offset: 51705},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1595, col: 9, offset: 51417},
+								pos: position{line: 1605, col: 9, offset: 51723},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 697, col: 14, offset: 22135},
@@ -32369,18 +32476,18 @@ var g = &grammar{
 											pos: position{line: 697, col: 14, offset: 22135},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2990, col: 11, offset: 94552},
+													pos: position{line: 3000, col: 11, offset: 94858},
 													expr: &anyMatcher{
-														line: 2990, col: 13, offset: 94554,
+														line: 3000, col: 13, offset: 94860,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 697, col: 21, offset: 22142},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32389,28 +32496,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32419,9 +32526,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -32430,7 +32537,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1596, col: 11, offset: 51437},
+										pos:  position{line: 1606, col: 11, offset: 51743},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -32486,10 +32593,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 49, offset: 10952},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32498,28 +32605,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32528,9 +32635,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -32591,10 +32698,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 363, col: 39, offset: 11073},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -32603,28 +32710,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -32633,9 +32740,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -32689,10 +32796,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 762, col: 8, offset: 24351},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32701,28 +32808,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32731,9 +32838,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -32805,10 +32912,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 762, col: 8, offset: 24351},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32817,28 +32924,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32847,9 +32954,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -32865,9 +32972,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -32883,21 +32990,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32907,28 +33014,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32937,9 +33044,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -33001,10 +33108,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 762, col: 8, offset: 24351},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonListContinuationElement373,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -33013,28 +33120,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement376,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33043,9 +33150,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -33061,9 +33168,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -33118,10 +33225,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 769, col: 8, offset: 24599},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement398,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33130,28 +33237,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement401,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33160,9 +33267,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -33234,10 +33341,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 769, col: 8, offset: 24599},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement426,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33246,28 +33353,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement429,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33276,9 +33383,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -33294,9 +33401,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -33312,21 +33419,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement445,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33336,28 +33443,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement449,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33366,9 +33473,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -33433,10 +33540,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 769, col: 8, offset: 24599},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement470,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33445,28 +33552,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement473,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33475,9 +33582,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -33493,9 +33600,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -33547,10 +33654,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 780, col: 52, offset: 25011},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement494,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33559,28 +33666,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement497,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33589,9 +33696,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -33625,10 +33732,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 991, col: 40, offset: 31020},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement512,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33637,28 +33744,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonListContinuationElement515,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33667,9 +33774,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -33687,21 +33794,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement528,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33711,28 +33818,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement532,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33741,9 +33848,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -33771,10 +33878,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 991, col: 40, offset: 31020},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonListContinuationElement543,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -33783,28 +33890,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonListContinuationElement546,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -33813,9 +33920,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -33872,10 +33979,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 776, col: 8, offset: 24845},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement565,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33884,28 +33991,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement568,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33914,9 +34021,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -33988,10 +34095,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 776, col: 8, offset: 24845},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement593,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34000,28 +34107,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement596,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34030,9 +34137,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -34048,9 +34155,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -34066,21 +34173,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement612,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34090,28 +34197,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement616,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34120,9 +34227,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -34187,10 +34294,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 776, col: 8, offset: 24845},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement637,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34199,28 +34306,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement640,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34229,9 +34336,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -34247,9 +34354,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -34305,10 +34412,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25383},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement662,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34317,28 +34424,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement665,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34347,9 +34454,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -34421,10 +34528,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25383},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement690,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34433,28 +34540,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement693,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34463,9 +34570,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -34481,9 +34588,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -34499,21 +34606,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement709,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34523,28 +34630,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement713,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34553,9 +34660,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -34620,10 +34727,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25383},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement734,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34632,28 +34739,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement737,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34662,9 +34769,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -34680,9 +34787,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -34738,10 +34845,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25859},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement759,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34750,28 +34857,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement762,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34780,9 +34887,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -34854,10 +34961,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25859},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement787,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34866,28 +34973,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement790,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34896,9 +35003,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -34914,9 +35021,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -34932,21 +35039,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement806,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34956,28 +35063,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement810,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34986,9 +35093,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -35053,10 +35160,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25859},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement831,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35065,28 +35172,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement834,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35095,9 +35202,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -35113,9 +35220,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -35149,18 +35256,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94552},
+																					pos: position{line: 3000, col: 11, offset: 94858},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94554,
+																						line: 3000, col: 13, offset: 94860,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement855,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -35169,28 +35276,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonListContinuationElement858,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -35199,9 +35306,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -35220,12 +35327,12 @@ var g = &grammar{
 																	pos:   position{line: 1012, col: 5, offset: 31555},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 14, offset: 91972},
+																		pos: position{line: 2906, col: 14, offset: 92278},
 																		run: (*parser).callonListContinuationElement867,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 14, offset: 91972},
+																			pos: position{line: 2906, col: 14, offset: 92278},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 14, offset: 91972},
+																				pos:        position{line: 2906, col: 14, offset: 92278},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -35235,28 +35342,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement871,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35265,9 +35372,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -35299,18 +35406,18 @@ var g = &grammar{
 																						pos: position{line: 697, col: 14, offset: 22135},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2990, col: 11, offset: 94552},
+																								pos: position{line: 3000, col: 11, offset: 94858},
 																								expr: &anyMatcher{
-																									line: 2990, col: 13, offset: 94554,
+																									line: 3000, col: 13, offset: 94860,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 697, col: 21, offset: 22142},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonListContinuationElement889,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35319,28 +35426,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonListContinuationElement892,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35349,9 +35456,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -35370,12 +35477,12 @@ var g = &grammar{
 																				pos:   position{line: 1012, col: 5, offset: 31555},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 14, offset: 91972},
+																					pos: position{line: 2906, col: 14, offset: 92278},
 																					run: (*parser).callonListContinuationElement901,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 14, offset: 91972},
+																						pos: position{line: 2906, col: 14, offset: 92278},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 14, offset: 91972},
+																							pos:        position{line: 2906, col: 14, offset: 92278},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35385,28 +35492,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuationElement905,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35415,9 +35522,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -35426,21 +35533,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1838, col: 5, offset: 59371},
+																	pos: position{line: 1848, col: 5, offset: 59677},
 																	run: (*parser).callonListContinuationElement912,
 																	expr: &seqExpr{
-																		pos: position{line: 1838, col: 5, offset: 59371},
+																		pos: position{line: 1848, col: 5, offset: 59677},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1838, col: 5, offset: 59371},
+																				pos:   position{line: 1848, col: 5, offset: 59677},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 14, offset: 91972},
+																					pos: position{line: 2906, col: 14, offset: 92278},
 																					run: (*parser).callonListContinuationElement915,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 14, offset: 91972},
+																						pos: position{line: 2906, col: 14, offset: 92278},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 14, offset: 91972},
+																							pos:        position{line: 2906, col: 14, offset: 92278},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -35450,32 +35557,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1839, col: 5, offset: 59395},
+																				pos: position{line: 1849, col: 5, offset: 59701},
 																				run: (*parser).callonListContinuationElement918,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35484,9 +35591,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -35533,10 +35640,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25614},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement936,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35545,28 +35652,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement939,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35575,9 +35682,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -35625,10 +35732,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25614},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonListContinuationElement958,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -35637,28 +35744,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonListContinuationElement961,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -35667,9 +35774,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -35678,9 +35785,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -35696,21 +35803,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement976,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35720,28 +35827,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement980,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35750,9 +35857,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -35797,10 +35904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 798, col: 8, offset: 25614},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonListContinuationElement996,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35809,28 +35916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuationElement999,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35839,9 +35946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -35850,9 +35957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -35908,10 +36015,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 812, col: 8, offset: 26111},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement1020,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35920,28 +36027,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement1023,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35950,9 +36057,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -36024,10 +36131,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 812, col: 8, offset: 26111},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement1048,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36036,28 +36143,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement1051,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36066,9 +36173,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -36084,9 +36191,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -36102,21 +36209,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement1067,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36126,28 +36233,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement1071,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36156,9 +36263,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -36223,10 +36330,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 812, col: 8, offset: 26111},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement1092,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36235,28 +36342,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement1095,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36265,9 +36372,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -36283,9 +36390,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -36341,10 +36448,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 819, col: 8, offset: 26361},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement1117,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36353,28 +36460,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement1120,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36383,9 +36490,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -36457,10 +36564,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 819, col: 8, offset: 26361},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement1145,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36469,28 +36576,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement1148,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36499,9 +36606,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -36517,9 +36624,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -36535,21 +36642,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement1164,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36559,28 +36666,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement1168,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36589,9 +36696,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -36656,10 +36763,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 819, col: 8, offset: 26361},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement1189,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36668,28 +36775,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement1192,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36698,9 +36805,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -36716,9 +36823,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -36774,10 +36881,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 826, col: 8, offset: 26607},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement1214,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36786,28 +36893,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement1217,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36816,9 +36923,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -36890,10 +36997,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 826, col: 8, offset: 26607},
 																											expr: &actionExpr{
-																												pos: position{line: 2973, col: 10, offset: 94218},
+																												pos: position{line: 2983, col: 10, offset: 94524},
 																												run: (*parser).callonListContinuationElement1242,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2973, col: 10, offset: 94218},
+																													pos:        position{line: 2983, col: 10, offset: 94524},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36902,28 +37009,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2995, col: 8, offset: 94616},
+																											pos: position{line: 3005, col: 8, offset: 94922},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2982, col: 12, offset: 94389},
+																													pos: position{line: 2992, col: 12, offset: 94695},
 																													run: (*parser).callonListContinuationElement1245,
 																													expr: &choiceExpr{
-																														pos: position{line: 2982, col: 13, offset: 94390},
+																														pos: position{line: 2992, col: 13, offset: 94696},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36932,9 +37039,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2992, col: 8, offset: 94566},
+																													pos: position{line: 3002, col: 8, offset: 94872},
 																													expr: &anyMatcher{
-																														line: 2992, col: 9, offset: 94567,
+																														line: 3002, col: 9, offset: 94873,
 																													},
 																												},
 																											},
@@ -36950,9 +37057,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -36968,21 +37075,21 @@ var g = &grammar{
 																				pos: position{line: 831, col: 5, offset: 26753},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2990, col: 11, offset: 94552},
+																						pos: position{line: 3000, col: 11, offset: 94858},
 																						expr: &anyMatcher{
-																							line: 2990, col: 13, offset: 94554,
+																							line: 3000, col: 13, offset: 94860,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 832, col: 5, offset: 26828},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 13, offset: 91905},
+																							pos: position{line: 2902, col: 13, offset: 92211},
 																							run: (*parser).callonListContinuationElement1261,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2892, col: 13, offset: 91905},
+																								pos: position{line: 2902, col: 13, offset: 92211},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91905},
+																									pos:        position{line: 2902, col: 13, offset: 92211},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36992,28 +37099,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement1265,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37022,9 +37129,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -37089,10 +37196,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 826, col: 8, offset: 26607},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement1286,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37101,28 +37208,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement1289,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -37131,9 +37238,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -37149,9 +37256,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -37162,27 +37269,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2778, col: 18, offset: 88525},
+										pos: position{line: 2788, col: 18, offset: 88831},
 										run: (*parser).callonListContinuationElement1299,
 										expr: &choiceExpr{
-											pos: position{line: 2779, col: 9, offset: 88535},
+											pos: position{line: 2789, col: 9, offset: 88841},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 2779, col: 9, offset: 88535},
+													pos: position{line: 2789, col: 9, offset: 88841},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2779, col: 9, offset: 88535},
+															pos:        position{line: 2789, col: 9, offset: 88841},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2779, col: 15, offset: 88541},
+															pos: position{line: 2789, col: 15, offset: 88847},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonListContinuationElement1304,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37191,28 +37298,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94616},
+															pos: position{line: 3005, col: 8, offset: 94922},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94389},
+																	pos: position{line: 2992, col: 12, offset: 94695},
 																	run: (*parser).callonListContinuationElement1307,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94390},
+																		pos: position{line: 2992, col: 13, offset: 94696},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94390},
+																				pos:        position{line: 2992, col: 13, offset: 94696},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94397},
+																				pos:        position{line: 2992, col: 20, offset: 94703},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94406},
+																				pos:        position{line: 2992, col: 29, offset: 94712},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37221,9 +37328,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -37231,43 +37338,43 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2780, col: 11, offset: 88574},
+													pos: position{line: 2790, col: 11, offset: 88880},
 													exprs: []interface{}{
 														&choiceExpr{
-															pos: position{line: 2780, col: 12, offset: 88575},
+															pos: position{line: 2790, col: 12, offset: 88881},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2780, col: 12, offset: 88575},
+																	pos:        position{line: 2790, col: 12, offset: 88881},
 																	val:        "***",
 																	ignoreCase: false,
 																	want:       "\"***\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 20, offset: 88583},
+																	pos:        position{line: 2790, col: 20, offset: 88889},
 																	val:        "* * *",
 																	ignoreCase: false,
 																	want:       "\"* * *\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 30, offset: 88593},
+																	pos:        position{line: 2790, col: 30, offset: 88899},
 																	val:        "---",
 																	ignoreCase: false,
 																	want:       "\"---\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 38, offset: 88601},
+																	pos:        position{line: 2790, col: 38, offset: 88907},
 																	val:        "- - -",
 																	ignoreCase: false,
 																	want:       "\"- - -\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 48, offset: 88611},
+																	pos:        position{line: 2790, col: 48, offset: 88917},
 																	val:        "___",
 																	ignoreCase: false,
 																	want:       "\"___\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2780, col: 56, offset: 88619},
+																	pos:        position{line: 2790, col: 56, offset: 88925},
 																	val:        "_ _ _",
 																	ignoreCase: false,
 																	want:       "\"_ _ _\"",
@@ -37275,12 +37382,12 @@ var g = &grammar{
 															},
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2780, col: 65, offset: 88628},
+															pos: position{line: 2790, col: 65, offset: 88934},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonListContinuationElement1323,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -37289,28 +37396,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94616},
+															pos: position{line: 3005, col: 8, offset: 94922},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94389},
+																	pos: position{line: 2992, col: 12, offset: 94695},
 																	run: (*parser).callonListContinuationElement1326,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94390},
+																		pos: position{line: 2992, col: 13, offset: 94696},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94390},
+																				pos:        position{line: 2992, col: 13, offset: 94696},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94397},
+																				pos:        position{line: 2992, col: 20, offset: 94703},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94406},
+																				pos:        position{line: 2992, col: 29, offset: 94712},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -37319,38 +37426,38 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
 														},
 														&andExpr{
-															pos: position{line: 2780, col: 76, offset: 88639},
+															pos: position{line: 2790, col: 76, offset: 88945},
 															expr: &choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonListContinuationElement1335,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -37359,9 +37466,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -37373,32 +37480,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1600, col: 11, offset: 51579},
+										pos:  position{line: 1610, col: 11, offset: 51885},
 										name: "ImageBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1601, col: 11, offset: 51600},
+										pos:  position{line: 1611, col: 11, offset: 51906},
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2669, col: 5, offset: 85461},
+										pos: position{line: 2679, col: 5, offset: 85767},
 										run: (*parser).callonListContinuationElement1344,
 										expr: &seqExpr{
-											pos: position{line: 2669, col: 5, offset: 85461},
+											pos: position{line: 2679, col: 5, offset: 85767},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2675, col: 19, offset: 85618},
+													pos:        position{line: 2685, col: 19, offset: 85924},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2675, col: 26, offset: 85625},
+													pos: position{line: 2685, col: 26, offset: 85931},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonListContinuationElement1348,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37407,28 +37514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonListContinuationElement1351,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37437,20 +37544,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2670, col: 5, offset: 85485},
+													pos:   position{line: 2680, col: 5, offset: 85791},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2670, col: 11, offset: 85491},
+														pos: position{line: 2680, col: 11, offset: 85797},
 														expr: &choiceExpr{
-															pos: position{line: 2670, col: 12, offset: 85492},
+															pos: position{line: 2680, col: 12, offset: 85798},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 697, col: 14, offset: 22135},
@@ -37459,18 +37566,18 @@ var g = &grammar{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2990, col: 11, offset: 94552},
+																				pos: position{line: 3000, col: 11, offset: 94858},
 																				expr: &anyMatcher{
-																					line: 2990, col: 13, offset: 94554,
+																					line: 3000, col: 13, offset: 94860,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 697, col: 21, offset: 22142},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonListContinuationElement1366,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37479,28 +37586,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2995, col: 8, offset: 94616},
+																				pos: position{line: 3005, col: 8, offset: 94922},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuationElement1369,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -37509,9 +37616,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -37520,32 +37627,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2682, col: 5, offset: 85737},
+																	pos: position{line: 2692, col: 5, offset: 86043},
 																	run: (*parser).callonListContinuationElement1376,
 																	expr: &seqExpr{
-																		pos: position{line: 2682, col: 5, offset: 85737},
+																		pos: position{line: 2692, col: 5, offset: 86043},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2682, col: 5, offset: 85737},
+																				pos: position{line: 2692, col: 5, offset: 86043},
 																				expr: &choiceExpr{
-																					pos: position{line: 2679, col: 22, offset: 85698},
+																					pos: position{line: 2689, col: 22, offset: 86004},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2675, col: 19, offset: 85618},
+																							pos: position{line: 2685, col: 19, offset: 85924},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2675, col: 19, offset: 85618},
+																									pos:        position{line: 2685, col: 19, offset: 85924},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2675, col: 26, offset: 85625},
+																									pos: position{line: 2685, col: 26, offset: 85931},
 																									expr: &actionExpr{
-																										pos: position{line: 2973, col: 10, offset: 94218},
+																										pos: position{line: 2983, col: 10, offset: 94524},
 																										run: (*parser).callonListContinuationElement1383,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2973, col: 10, offset: 94218},
+																											pos:        position{line: 2983, col: 10, offset: 94524},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -37554,28 +37661,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37584,9 +37691,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
@@ -37594,59 +37701,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2683, col: 5, offset: 85760},
+																				pos:   position{line: 2693, col: 5, offset: 86066},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2684, col: 9, offset: 85778},
+																					pos: position{line: 2694, col: 9, offset: 86084},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2684, col: 10, offset: 85779},
+																							pos: position{line: 2694, col: 10, offset: 86085},
 																							run: (*parser).callonListContinuationElement1397,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2684, col: 10, offset: 85779},
+																								pos:   position{line: 2694, col: 10, offset: 86085},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2684, col: 17, offset: 85786},
+																									pos: position{line: 2694, col: 17, offset: 86092},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2692, col: 21, offset: 85982},
+																											pos: position{line: 2702, col: 21, offset: 86288},
 																											run: (*parser).callonListContinuationElement1400,
 																											expr: &seqExpr{
-																												pos: position{line: 2692, col: 21, offset: 85982},
+																												pos: position{line: 2702, col: 21, offset: 86288},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2692, col: 21, offset: 85982},
+																														pos:   position{line: 2702, col: 21, offset: 86288},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2692, col: 27, offset: 85988},
+																															pos: position{line: 2702, col: 27, offset: 86294},
 																															expr: &actionExpr{
-																																pos: position{line: 2697, col: 5, offset: 86063},
+																																pos: position{line: 2707, col: 5, offset: 86369},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &seqExpr{
-																																	pos: position{line: 2697, col: 5, offset: 86063},
+																																	pos: position{line: 2707, col: 5, offset: 86369},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2697, col: 5, offset: 86063},
+																																			pos:        position{line: 2707, col: 5, offset: 86369},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2697, col: 9, offset: 86067},
+																																			pos: position{line: 2707, col: 9, offset: 86373},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2973, col: 10, offset: 94218},
+																																				pos: position{line: 2983, col: 10, offset: 94524},
 																																				run: (*parser).callonListContinuationElement1408,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2973, col: 10, offset: 94218},
+																																					pos:        position{line: 2983, col: 10, offset: 94524},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -37655,21 +37762,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2697, col: 16, offset: 86074},
+																																			pos:   position{line: 2707, col: 16, offset: 86380},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2703, col: 5, offset: 86274},
+																																				pos: position{line: 2713, col: 5, offset: 86580},
 																																				run: (*parser).callonListContinuationElement1411,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2703, col: 5, offset: 86274},
+																																					pos:   position{line: 2713, col: 5, offset: 86580},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2703, col: 14, offset: 86283},
+																																						pos: position{line: 2713, col: 14, offset: 86589},
 																																						run: (*parser).callonListContinuationElement1413,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2703, col: 14, offset: 86283},
+																																							pos: position{line: 2713, col: 14, offset: 86589},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2703, col: 14, offset: 86283},
+																																								pos:        position{line: 2713, col: 14, offset: 86589},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -37686,28 +37793,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2995, col: 8, offset: 94616},
+																														pos: position{line: 3005, col: 8, offset: 94922},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2982, col: 12, offset: 94389},
+																																pos: position{line: 2992, col: 12, offset: 94695},
 																																run: (*parser).callonListContinuationElement1417,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2982, col: 13, offset: 94390},
+																																	pos: position{line: 2992, col: 13, offset: 94696},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 13, offset: 94390},
+																																			pos:        position{line: 2992, col: 13, offset: 94696},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 20, offset: 94397},
+																																			pos:        position{line: 2992, col: 20, offset: 94703},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2982, col: 29, offset: 94406},
+																																			pos:        position{line: 2992, col: 29, offset: 94712},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37716,9 +37823,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2992, col: 8, offset: 94566},
+																																pos: position{line: 3002, col: 8, offset: 94872},
 																																expr: &anyMatcher{
-																																	line: 2992, col: 9, offset: 94567,
+																																	line: 3002, col: 9, offset: 94873,
 																																},
 																															},
 																														},
@@ -37727,40 +37834,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2709, col: 24, offset: 86419},
+																											pos: position{line: 2719, col: 24, offset: 86725},
 																											run: (*parser).callonListContinuationElement1424,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2709, col: 24, offset: 86419},
+																												pos:   position{line: 2719, col: 24, offset: 86725},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2709, col: 30, offset: 86425},
+																													pos: position{line: 2719, col: 30, offset: 86731},
 																													expr: &actionExpr{
-																														pos: position{line: 2714, col: 5, offset: 86501},
+																														pos: position{line: 2724, col: 5, offset: 86807},
 																														run: (*parser).callonListContinuationElement1427,
 																														expr: &seqExpr{
-																															pos: position{line: 2714, col: 5, offset: 86501},
+																															pos: position{line: 2724, col: 5, offset: 86807},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2714, col: 5, offset: 86501},
+																																	pos: position{line: 2724, col: 5, offset: 86807},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2679, col: 22, offset: 85698},
+																																		pos: position{line: 2689, col: 22, offset: 86004},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2675, col: 19, offset: 85618},
+																																				pos: position{line: 2685, col: 19, offset: 85924},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2675, col: 19, offset: 85618},
+																																						pos:        position{line: 2685, col: 19, offset: 85924},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2675, col: 26, offset: 85625},
+																																						pos: position{line: 2685, col: 26, offset: 85931},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2973, col: 10, offset: 94218},
+																																							pos: position{line: 2983, col: 10, offset: 94524},
 																																							run: (*parser).callonListContinuationElement1434,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2973, col: 10, offset: 94218},
+																																								pos:        position{line: 2983, col: 10, offset: 94524},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -37769,28 +37876,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2995, col: 8, offset: 94616},
+																																						pos: position{line: 3005, col: 8, offset: 94922},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2982, col: 12, offset: 94389},
+																																								pos: position{line: 2992, col: 12, offset: 94695},
 																																								run: (*parser).callonListContinuationElement1437,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2982, col: 13, offset: 94390},
+																																									pos: position{line: 2992, col: 13, offset: 94696},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 13, offset: 94390},
+																																											pos:        position{line: 2992, col: 13, offset: 94696},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 20, offset: 94397},
+																																											pos:        position{line: 2992, col: 20, offset: 94703},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2982, col: 29, offset: 94406},
+																																											pos:        position{line: 2992, col: 29, offset: 94712},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37799,9 +37906,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2992, col: 8, offset: 94566},
+																																								pos: position{line: 3002, col: 8, offset: 94872},
 																																								expr: &anyMatcher{
-																																									line: 2992, col: 9, offset: 94567,
+																																									line: 3002, col: 9, offset: 94873,
 																																								},
 																																							},
 																																						},
@@ -37809,16 +37916,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2992, col: 8, offset: 94566},
+																																				pos: position{line: 3002, col: 8, offset: 94872},
 																																				expr: &anyMatcher{
-																																					line: 2992, col: 9, offset: 94567,
+																																					line: 3002, col: 9, offset: 94873,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2715, col: 5, offset: 86524},
+																																	pos: position{line: 2725, col: 5, offset: 86830},
 																																	expr: &actionExpr{
 																																		pos: position{line: 697, col: 14, offset: 22135},
 																																		run: (*parser).callonListContinuationElement1447,
@@ -37826,18 +37933,18 @@ var g = &grammar{
 																																			pos: position{line: 697, col: 14, offset: 22135},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2990, col: 11, offset: 94552},
+																																					pos: position{line: 3000, col: 11, offset: 94858},
 																																					expr: &anyMatcher{
-																																						line: 2990, col: 13, offset: 94554,
+																																						line: 3000, col: 13, offset: 94860,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 697, col: 21, offset: 22142},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2973, col: 10, offset: 94218},
+																																						pos: position{line: 2983, col: 10, offset: 94524},
 																																						run: (*parser).callonListContinuationElement1452,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2973, col: 10, offset: 94218},
+																																							pos:        position{line: 2983, col: 10, offset: 94524},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37846,28 +37953,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2995, col: 8, offset: 94616},
+																																					pos: position{line: 3005, col: 8, offset: 94922},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2982, col: 12, offset: 94389},
+																																							pos: position{line: 2992, col: 12, offset: 94695},
 																																							run: (*parser).callonListContinuationElement1455,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2982, col: 13, offset: 94390},
+																																								pos: position{line: 2992, col: 13, offset: 94696},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 13, offset: 94390},
+																																										pos:        position{line: 2992, col: 13, offset: 94696},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 20, offset: 94397},
+																																										pos:        position{line: 2992, col: 20, offset: 94703},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2982, col: 29, offset: 94406},
+																																										pos:        position{line: 2992, col: 29, offset: 94712},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -37876,9 +37983,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2992, col: 8, offset: 94566},
+																																							pos: position{line: 3002, col: 8, offset: 94872},
 																																							expr: &anyMatcher{
-																																								line: 2992, col: 9, offset: 94567,
+																																								line: 3002, col: 9, offset: 94873,
 																																							},
 																																						},
 																																					},
@@ -37888,17 +37995,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2716, col: 5, offset: 86539},
+																																	pos:   position{line: 2726, col: 5, offset: 86845},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2716, col: 12, offset: 86546},
+																																		pos: position{line: 2726, col: 12, offset: 86852},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2733, col: 20, offset: 87010},
+																																			pos: position{line: 2743, col: 20, offset: 87316},
 																																			run: (*parser).callonListContinuationElement1464,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2733, col: 20, offset: 87010},
+																																				pos: position{line: 2743, col: 20, offset: 87316},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2733, col: 20, offset: 87010},
+																																					pos:        position{line: 2743, col: 20, offset: 87316},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -37909,18 +38016,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2716, col: 31, offset: 86565},
+																																	pos:        position{line: 2726, col: 31, offset: 86871},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2716, col: 35, offset: 86569},
+																																	pos: position{line: 2726, col: 35, offset: 86875},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2973, col: 10, offset: 94218},
+																																		pos: position{line: 2983, col: 10, offset: 94524},
 																																		run: (*parser).callonListContinuationElement1469,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2973, col: 10, offset: 94218},
+																																			pos:        position{line: 2983, col: 10, offset: 94524},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -37929,27 +38036,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2716, col: 42, offset: 86576},
+																																	pos: position{line: 2726, col: 42, offset: 86882},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2982, col: 12, offset: 94389},
+																																		pos: position{line: 2992, col: 12, offset: 94695},
 																																		run: (*parser).callonListContinuationElement1472,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2982, col: 13, offset: 94390},
+																																			pos: position{line: 2992, col: 13, offset: 94696},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 13, offset: 94390},
+																																					pos:        position{line: 2992, col: 13, offset: 94696},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 20, offset: 94397},
+																																					pos:        position{line: 2992, col: 20, offset: 94703},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2982, col: 29, offset: 94406},
+																																					pos:        position{line: 2992, col: 29, offset: 94712},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -37959,37 +38066,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2716, col: 51, offset: 86585},
+																																	pos:   position{line: 2726, col: 51, offset: 86891},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2722, col: 5, offset: 86744},
+																																		pos: position{line: 2732, col: 5, offset: 87050},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2723, col: 9, offset: 86754},
+																																			pos: position{line: 2733, col: 9, offset: 87060},
 																																			run: (*parser).callonListContinuationElement1479,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2723, col: 9, offset: 86754},
+																																				pos: position{line: 2733, col: 9, offset: 87060},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2723, col: 9, offset: 86754},
+																																						pos: position{line: 2733, col: 9, offset: 87060},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2679, col: 22, offset: 85698},
+																																							pos: position{line: 2689, col: 22, offset: 86004},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2675, col: 19, offset: 85618},
+																																									pos: position{line: 2685, col: 19, offset: 85924},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2675, col: 19, offset: 85618},
+																																											pos:        position{line: 2685, col: 19, offset: 85924},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2675, col: 26, offset: 85625},
+																																											pos: position{line: 2685, col: 26, offset: 85931},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2973, col: 10, offset: 94218},
+																																												pos: position{line: 2983, col: 10, offset: 94524},
 																																												run: (*parser).callonListContinuationElement1486,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2973, col: 10, offset: 94218},
+																																													pos:        position{line: 2983, col: 10, offset: 94524},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -37998,28 +38105,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2995, col: 8, offset: 94616},
+																																											pos: position{line: 3005, col: 8, offset: 94922},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2982, col: 12, offset: 94389},
+																																													pos: position{line: 2992, col: 12, offset: 94695},
 																																													run: (*parser).callonListContinuationElement1489,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2982, col: 13, offset: 94390},
+																																														pos: position{line: 2992, col: 13, offset: 94696},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 13, offset: 94390},
+																																																pos:        position{line: 2992, col: 13, offset: 94696},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 20, offset: 94397},
+																																																pos:        position{line: 2992, col: 20, offset: 94703},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2982, col: 29, offset: 94406},
+																																																pos:        position{line: 2992, col: 29, offset: 94712},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -38028,9 +38135,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2992, col: 8, offset: 94566},
+																																													pos: position{line: 3002, col: 8, offset: 94872},
 																																													expr: &anyMatcher{
-																																														line: 2992, col: 9, offset: 94567,
+																																														line: 3002, col: 9, offset: 94873,
 																																													},
 																																												},
 																																											},
@@ -38038,16 +38145,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94566},
+																																									pos: position{line: 3002, col: 8, offset: 94872},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94567,
+																																										line: 3002, col: 9, offset: 94873,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2724, col: 9, offset: 86781},
+																																						pos: position{line: 2734, col: 9, offset: 87087},
 																																						expr: &actionExpr{
 																																							pos: position{line: 697, col: 14, offset: 22135},
 																																							run: (*parser).callonListContinuationElement1499,
@@ -38055,18 +38162,18 @@ var g = &grammar{
 																																								pos: position{line: 697, col: 14, offset: 22135},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2990, col: 11, offset: 94552},
+																																										pos: position{line: 3000, col: 11, offset: 94858},
 																																										expr: &anyMatcher{
-																																											line: 2990, col: 13, offset: 94554,
+																																											line: 3000, col: 13, offset: 94860,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 697, col: 21, offset: 22142},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2973, col: 10, offset: 94218},
+																																											pos: position{line: 2983, col: 10, offset: 94524},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2973, col: 10, offset: 94218},
+																																												pos:        position{line: 2983, col: 10, offset: 94524},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -38075,28 +38182,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2995, col: 8, offset: 94616},
+																																										pos: position{line: 3005, col: 8, offset: 94922},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2982, col: 12, offset: 94389},
+																																												pos: position{line: 2992, col: 12, offset: 94695},
 																																												run: (*parser).callonListContinuationElement1507,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2982, col: 13, offset: 94390},
+																																													pos: position{line: 2992, col: 13, offset: 94696},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 13, offset: 94390},
+																																															pos:        position{line: 2992, col: 13, offset: 94696},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 20, offset: 94397},
+																																															pos:        position{line: 2992, col: 20, offset: 94703},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2982, col: 29, offset: 94406},
+																																															pos:        position{line: 2992, col: 29, offset: 94712},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -38105,9 +38212,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2992, col: 8, offset: 94566},
+																																												pos: position{line: 3002, col: 8, offset: 94872},
 																																												expr: &anyMatcher{
-																																													line: 2992, col: 9, offset: 94567,
+																																													line: 3002, col: 9, offset: 94873,
 																																												},
 																																											},
 																																										},
@@ -38117,22 +38224,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2725, col: 9, offset: 86800},
+																																						pos: position{line: 2735, col: 9, offset: 87106},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2725, col: 11, offset: 86802},
+																																							pos: position{line: 2735, col: 11, offset: 87108},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2725, col: 11, offset: 86802},
+																																									pos:   position{line: 2735, col: 11, offset: 87108},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2725, col: 18, offset: 86809},
+																																										pos: position{line: 2735, col: 18, offset: 87115},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2733, col: 20, offset: 87010},
+																																											pos: position{line: 2743, col: 20, offset: 87316},
 																																											run: (*parser).callonListContinuationElement1518,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2733, col: 20, offset: 87010},
+																																												pos: position{line: 2743, col: 20, offset: 87316},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2733, col: 20, offset: 87010},
+																																													pos:        position{line: 2743, col: 20, offset: 87316},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -38143,7 +38250,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2725, col: 37, offset: 86828},
+																																									pos:        position{line: 2735, col: 37, offset: 87134},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -38152,15 +38259,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2726, col: 9, offset: 86841},
+																																						pos:   position{line: 2736, col: 9, offset: 87147},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2726, col: 18, offset: 86850},
+																																							pos: position{line: 2736, col: 18, offset: 87156},
 																																							run: (*parser).callonListContinuationElement1523,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2726, col: 18, offset: 86850},
+																																								pos: position{line: 2736, col: 18, offset: 87156},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2726, col: 18, offset: 86850},
+																																									pos:        position{line: 2736, col: 18, offset: 87156},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -38170,30 +38277,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2728, col: 12, offset: 86912},
+																																						pos: position{line: 2738, col: 12, offset: 87218},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2995, col: 8, offset: 94616},
+																																							pos: position{line: 3005, col: 8, offset: 94922},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2982, col: 12, offset: 94389},
+																																									pos: position{line: 2992, col: 12, offset: 94695},
 																																									run: (*parser).callonListContinuationElement1528,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2982, col: 13, offset: 94390},
+																																										pos: position{line: 2992, col: 13, offset: 94696},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 13, offset: 94390},
+																																												pos:        position{line: 2992, col: 13, offset: 94696},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 20, offset: 94397},
+																																												pos:        position{line: 2992, col: 20, offset: 94703},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2982, col: 29, offset: 94406},
+																																												pos:        position{line: 2992, col: 29, offset: 94712},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -38202,9 +38309,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2992, col: 8, offset: 94566},
+																																									pos: position{line: 3002, col: 8, offset: 94872},
 																																									expr: &anyMatcher{
-																																										line: 2992, col: 9, offset: 94567,
+																																										line: 3002, col: 9, offset: 94873,
 																																									},
 																																								},
 																																							},
@@ -38232,18 +38339,18 @@ var g = &grammar{
 																								pos: position{line: 697, col: 14, offset: 22135},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2990, col: 11, offset: 94552},
+																										pos: position{line: 3000, col: 11, offset: 94858},
 																										expr: &anyMatcher{
-																											line: 2990, col: 13, offset: 94554,
+																											line: 3000, col: 13, offset: 94860,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 697, col: 21, offset: 22142},
 																										expr: &actionExpr{
-																											pos: position{line: 2973, col: 10, offset: 94218},
+																											pos: position{line: 2983, col: 10, offset: 94524},
 																											run: (*parser).callonListContinuationElement1540,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2973, col: 10, offset: 94218},
+																												pos:        position{line: 2983, col: 10, offset: 94524},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -38252,28 +38359,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2995, col: 8, offset: 94616},
+																										pos: position{line: 3005, col: 8, offset: 94922},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2982, col: 12, offset: 94389},
+																												pos: position{line: 2992, col: 12, offset: 94695},
 																												run: (*parser).callonListContinuationElement1543,
 																												expr: &choiceExpr{
-																													pos: position{line: 2982, col: 13, offset: 94390},
+																													pos: position{line: 2992, col: 13, offset: 94696},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 13, offset: 94390},
+																															pos:        position{line: 2992, col: 13, offset: 94696},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 20, offset: 94397},
+																															pos:        position{line: 2992, col: 20, offset: 94703},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2982, col: 29, offset: 94406},
+																															pos:        position{line: 2992, col: 29, offset: 94712},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -38282,9 +38389,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2992, col: 8, offset: 94566},
+																												pos: position{line: 3002, col: 8, offset: 94872},
 																												expr: &anyMatcher{
-																													line: 2992, col: 9, offset: 94567,
+																													line: 3002, col: 9, offset: 94873,
 																												},
 																											},
 																										},
@@ -38303,24 +38410,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2679, col: 22, offset: 85698},
+													pos: position{line: 2689, col: 22, offset: 86004},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85618},
+															pos: position{line: 2685, col: 19, offset: 85924},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85618},
+																	pos:        position{line: 2685, col: 19, offset: 85924},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85625},
+																	pos: position{line: 2685, col: 26, offset: 85931},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonListContinuationElement1554,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38329,28 +38436,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement1557,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38359,9 +38466,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -38369,9 +38476,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -38380,36 +38487,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2540, col: 22, offset: 81861},
+										pos: position{line: 2550, col: 22, offset: 82167},
 										run: (*parser).callonListContinuationElement1566,
 										expr: &seqExpr{
-											pos: position{line: 2540, col: 22, offset: 81861},
+											pos: position{line: 2550, col: 22, offset: 82167},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2545, col: 31, offset: 82082},
+													pos:        position{line: 2555, col: 31, offset: 82388},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2545, col: 36, offset: 82087},
+													pos: position{line: 2555, col: 36, offset: 82393},
 													expr: &litMatcher{
-														pos:        position{line: 2545, col: 37, offset: 82088},
+														pos:        position{line: 2555, col: 37, offset: 82394},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2540, col: 49, offset: 81888},
+													pos:   position{line: 2550, col: 49, offset: 82194},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 13, offset: 91905},
+														pos: position{line: 2902, col: 13, offset: 92211},
 														run: (*parser).callonListContinuationElement1572,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2892, col: 13, offset: 91905},
+															pos: position{line: 2902, col: 13, offset: 92211},
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91905},
+																pos:        position{line: 2902, col: 13, offset: 92211},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -38419,28 +38526,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2995, col: 8, offset: 94616},
+													pos: position{line: 3005, col: 8, offset: 94922},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonListContinuationElement1576,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38449,9 +38556,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2992, col: 8, offset: 94566},
+															pos: position{line: 3002, col: 8, offset: 94872},
 															expr: &anyMatcher{
-																line: 2992, col: 9, offset: 94567,
+																line: 3002, col: 9, offset: 94873,
 															},
 														},
 													},
@@ -38460,51 +38567,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1614, col: 5, offset: 52034},
+										pos: position{line: 1624, col: 5, offset: 52340},
 										run: (*parser).callonListContinuationElement1583,
 										expr: &seqExpr{
-											pos: position{line: 1614, col: 5, offset: 52034},
+											pos: position{line: 1624, col: 5, offset: 52340},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1614, col: 5, offset: 52034},
+													pos:   position{line: 1624, col: 5, offset: 52340},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1614, col: 11, offset: 52040},
+														pos: position{line: 1624, col: 11, offset: 52346},
 														expr: &actionExpr{
-															pos: position{line: 1778, col: 5, offset: 57357},
+															pos: position{line: 1788, col: 5, offset: 57663},
 															run: (*parser).callonListContinuationElement1587,
 															expr: &seqExpr{
-																pos: position{line: 1778, col: 5, offset: 57357},
+																pos: position{line: 1788, col: 5, offset: 57663},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1778, col: 5, offset: 57357},
+																		pos: position{line: 1788, col: 5, offset: 57663},
 																		run: (*parser).callonListContinuationElement1589,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1781, col: 5, offset: 57420},
+																		pos:   position{line: 1791, col: 5, offset: 57726},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1781, col: 12, offset: 57427},
+																			pos: position{line: 1791, col: 12, offset: 57733},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1781, col: 12, offset: 57427},
+																					pos: position{line: 1791, col: 12, offset: 57733},
 																					run: (*parser).callonListContinuationElement1592,
 																					expr: &seqExpr{
-																						pos: position{line: 1781, col: 12, offset: 57427},
+																						pos: position{line: 1791, col: 12, offset: 57733},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1781, col: 12, offset: 57427},
+																								pos:        position{line: 1791, col: 12, offset: 57733},
 																								val:        "TIP:",
 																								ignoreCase: false,
 																								want:       "\"TIP:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonListContinuationElement1595,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38516,24 +38623,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1783, col: 13, offset: 57489},
+																					pos: position{line: 1793, col: 13, offset: 57795},
 																					run: (*parser).callonListContinuationElement1598,
 																					expr: &seqExpr{
-																						pos: position{line: 1783, col: 13, offset: 57489},
+																						pos: position{line: 1793, col: 13, offset: 57795},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1783, col: 13, offset: 57489},
+																								pos:        position{line: 1793, col: 13, offset: 57795},
 																								val:        "NOTE:",
 																								ignoreCase: false,
 																								want:       "\"NOTE:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonListContinuationElement1601,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38545,24 +38652,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1785, col: 13, offset: 57553},
+																					pos: position{line: 1795, col: 13, offset: 57859},
 																					run: (*parser).callonListContinuationElement1604,
 																					expr: &seqExpr{
-																						pos: position{line: 1785, col: 13, offset: 57553},
+																						pos: position{line: 1795, col: 13, offset: 57859},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1785, col: 13, offset: 57553},
+																								pos:        position{line: 1795, col: 13, offset: 57859},
 																								val:        "IMPORTANT:",
 																								ignoreCase: false,
 																								want:       "\"IMPORTANT:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonListContinuationElement1607,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38574,24 +38681,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1787, col: 13, offset: 57627},
+																					pos: position{line: 1797, col: 13, offset: 57933},
 																					run: (*parser).callonListContinuationElement1610,
 																					expr: &seqExpr{
-																						pos: position{line: 1787, col: 13, offset: 57627},
+																						pos: position{line: 1797, col: 13, offset: 57933},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1787, col: 13, offset: 57627},
+																								pos:        position{line: 1797, col: 13, offset: 57933},
 																								val:        "WARNING:",
 																								ignoreCase: false,
 																								want:       "\"WARNING:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonListContinuationElement1613,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38603,24 +38710,24 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1789, col: 13, offset: 57697},
+																					pos: position{line: 1799, col: 13, offset: 58003},
 																					run: (*parser).callonListContinuationElement1616,
 																					expr: &seqExpr{
-																						pos: position{line: 1789, col: 13, offset: 57697},
+																						pos: position{line: 1799, col: 13, offset: 58003},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1789, col: 13, offset: 57697},
+																								pos:        position{line: 1799, col: 13, offset: 58003},
 																								val:        "CAUTION:",
 																								ignoreCase: false,
 																								want:       "\"CAUTION:\"",
 																							},
 																							&actionExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								run: (*parser).callonListContinuationElement1619,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2977, col: 11, offset: 94279},
+																										pos:        position{line: 2987, col: 11, offset: 94585},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -38632,17 +38739,17 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1791, col: 13, offset: 57767},
+																					pos: position{line: 1801, col: 13, offset: 58073},
 																					run: (*parser).callonListContinuationElement1622,
 																					expr: &andExpr{
-																						pos: position{line: 1791, col: 13, offset: 57767},
+																						pos: position{line: 1801, col: 13, offset: 58073},
 																						expr: &actionExpr{
-																							pos: position{line: 2977, col: 11, offset: 94279},
+																							pos: position{line: 2987, col: 11, offset: 94585},
 																							run: (*parser).callonListContinuationElement1624,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2977, col: 11, offset: 94279},
+																								pos: position{line: 2987, col: 11, offset: 94585},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2977, col: 11, offset: 94279},
+																									pos:        position{line: 2987, col: 11, offset: 94585},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -38656,17 +38763,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1793, col: 12, offset: 57847},
+																		pos: position{line: 1803, col: 12, offset: 58153},
 																		expr: &seqExpr{
-																			pos: position{line: 1793, col: 14, offset: 57849},
+																			pos: position{line: 1803, col: 14, offset: 58155},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1793, col: 14, offset: 57849},
+																					pos: position{line: 1803, col: 14, offset: 58155},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement1630,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38675,28 +38782,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonListContinuationElement1633,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38705,9 +38812,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -38721,16 +38828,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1615, col: 5, offset: 52063},
+													pos:   position{line: 1625, col: 5, offset: 52369},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1557, col: 5, offset: 50255},
+														pos: position{line: 1567, col: 5, offset: 50561},
 														run: (*parser).callonListContinuationElement1641,
 														expr: &seqExpr{
-															pos: position{line: 1557, col: 5, offset: 50255},
+															pos: position{line: 1567, col: 5, offset: 50561},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1557, col: 5, offset: 50255},
+																	pos: position{line: 1567, col: 5, offset: 50561},
 																	expr: &actionExpr{
 																		pos: position{line: 697, col: 14, offset: 22135},
 																		run: (*parser).callonListContinuationElement1644,
@@ -38738,18 +38845,18 @@ var g = &grammar{
 																			pos: position{line: 697, col: 14, offset: 22135},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2990, col: 11, offset: 94552},
+																					pos: position{line: 3000, col: 11, offset: 94858},
 																					expr: &anyMatcher{
-																						line: 2990, col: 13, offset: 94554,
+																						line: 3000, col: 13, offset: 94860,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 697, col: 21, offset: 22142},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement1649,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38758,28 +38865,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2995, col: 8, offset: 94616},
+																					pos: position{line: 3005, col: 8, offset: 94922},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonListContinuationElement1652,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38788,9 +38895,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2992, col: 8, offset: 94566},
+																							pos: position{line: 3002, col: 8, offset: 94872},
 																							expr: &anyMatcher{
-																								line: 2992, col: 9, offset: 94567,
+																								line: 3002, col: 9, offset: 94873,
 																							},
 																						},
 																					},
@@ -38800,23 +38907,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1558, col: 5, offset: 50270},
+																	pos: position{line: 1568, col: 5, offset: 50576},
 																	expr: &seqExpr{
-																		pos: position{line: 1588, col: 27, offset: 51254},
+																		pos: position{line: 1598, col: 27, offset: 51560},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1588, col: 27, offset: 51254},
+																				pos:        position{line: 1598, col: 27, offset: 51560},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1588, col: 31, offset: 51258},
+																				pos: position{line: 1598, col: 31, offset: 51564},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonListContinuationElement1663,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38825,25 +38932,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonListContinuationElement1665,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38855,20 +38962,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1559, col: 5, offset: 50298},
+																	pos: position{line: 1569, col: 5, offset: 50604},
 																	expr: &actionExpr{
-																		pos: position{line: 1630, col: 5, offset: 52473},
+																		pos: position{line: 1640, col: 5, offset: 52779},
 																		run: (*parser).callonListContinuationElement1671,
 																		expr: &seqExpr{
-																			pos: position{line: 1630, col: 5, offset: 52473},
+																			pos: position{line: 1640, col: 5, offset: 52779},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1630, col: 5, offset: 52473},
+																					pos: position{line: 1640, col: 5, offset: 52779},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement1674,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38877,27 +38984,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1630, col: 12, offset: 52480},
+																					pos:   position{line: 1640, col: 12, offset: 52786},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1632, col: 9, offset: 52543},
+																						pos: position{line: 1642, col: 9, offset: 52849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1632, col: 9, offset: 52543},
+																								pos: position{line: 1642, col: 9, offset: 52849},
 																								run: (*parser).callonListContinuationElement1678,
 																								expr: &seqExpr{
-																									pos: position{line: 1632, col: 9, offset: 52543},
+																									pos: position{line: 1642, col: 9, offset: 52849},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1632, col: 9, offset: 52543},
+																											pos:   position{line: 1642, col: 9, offset: 52849},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1632, col: 16, offset: 52550},
+																												pos: position{line: 1642, col: 16, offset: 52856},
 																												run: (*parser).callonListContinuationElement1681,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1632, col: 16, offset: 52550},
+																													pos: position{line: 1642, col: 16, offset: 52856},
 																													expr: &litMatcher{
-																														pos:        position{line: 1632, col: 17, offset: 52551},
+																														pos:        position{line: 1642, col: 17, offset: 52857},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38906,22 +39013,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1636, col: 9, offset: 52651},
+																											pos: position{line: 1646, col: 9, offset: 52957},
 																											run: (*parser).callonListContinuationElement1684,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1655, col: 11, offset: 53368},
+																								pos: position{line: 1665, col: 11, offset: 53674},
 																								run: (*parser).callonListContinuationElement1685,
 																								expr: &seqExpr{
-																									pos: position{line: 1655, col: 11, offset: 53368},
+																									pos: position{line: 1665, col: 11, offset: 53674},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1655, col: 11, offset: 53368},
+																											pos: position{line: 1665, col: 11, offset: 53674},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1655, col: 12, offset: 53369},
+																												pos:        position{line: 1665, col: 12, offset: 53675},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38929,7 +39036,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1655, col: 20, offset: 53377},
+																											pos:        position{line: 1665, col: 20, offset: 53683},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38938,20 +39045,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1657, col: 13, offset: 53494},
+																								pos: position{line: 1667, col: 13, offset: 53800},
 																								run: (*parser).callonListContinuationElement1690,
 																								expr: &seqExpr{
-																									pos: position{line: 1657, col: 13, offset: 53494},
+																									pos: position{line: 1667, col: 13, offset: 53800},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1657, col: 14, offset: 53495},
+																											pos:        position{line: 1667, col: 14, offset: 53801},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1657, col: 21, offset: 53502},
+																											pos:        position{line: 1667, col: 21, offset: 53808},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38960,20 +39067,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1659, col: 13, offset: 53622},
+																								pos: position{line: 1669, col: 13, offset: 53928},
 																								run: (*parser).callonListContinuationElement1694,
 																								expr: &seqExpr{
-																									pos: position{line: 1659, col: 13, offset: 53622},
+																									pos: position{line: 1669, col: 13, offset: 53928},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1659, col: 14, offset: 53623},
+																											pos:        position{line: 1669, col: 14, offset: 53929},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1659, col: 21, offset: 53630},
+																											pos:        position{line: 1669, col: 21, offset: 53936},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38982,15 +39089,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1661, col: 13, offset: 53750},
+																								pos: position{line: 1671, col: 13, offset: 54056},
 																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1661, col: 13, offset: 53750},
+																									pos: position{line: 1671, col: 13, offset: 54056},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1661, col: 13, offset: 53750},
+																											pos: position{line: 1671, col: 13, offset: 54056},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1661, col: 14, offset: 53751},
+																												pos:        position{line: 1671, col: 14, offset: 54057},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38998,7 +39105,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1661, col: 26, offset: 53763},
+																											pos:        position{line: 1671, col: 26, offset: 54069},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -39007,15 +39114,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1663, col: 13, offset: 53883},
+																								pos: position{line: 1673, col: 13, offset: 54189},
 																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1663, col: 13, offset: 53883},
+																									pos: position{line: 1673, col: 13, offset: 54189},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1663, col: 13, offset: 53883},
+																											pos: position{line: 1673, col: 13, offset: 54189},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1663, col: 14, offset: 53884},
+																												pos:        position{line: 1673, col: 14, offset: 54190},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -39023,7 +39130,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1663, col: 26, offset: 53896},
+																											pos:        position{line: 1673, col: 26, offset: 54202},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -39035,12 +39142,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94279},
+																					pos: position{line: 2987, col: 11, offset: 94585},
 																					run: (*parser).callonListContinuationElement1708,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94279},
+																						pos: position{line: 2987, col: 11, offset: 94585},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94279},
+																							pos:        position{line: 2987, col: 11, offset: 94585},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39053,20 +39160,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1560, col: 5, offset: 50328},
+																	pos: position{line: 1570, col: 5, offset: 50634},
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 5, offset: 54435},
+																		pos: position{line: 1690, col: 5, offset: 54741},
 																		run: (*parser).callonListContinuationElement1712,
 																		expr: &seqExpr{
-																			pos: position{line: 1680, col: 5, offset: 54435},
+																			pos: position{line: 1690, col: 5, offset: 54741},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1680, col: 5, offset: 54435},
+																					pos: position{line: 1690, col: 5, offset: 54741},
 																					expr: &actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement1715,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39075,24 +39182,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1681, col: 5, offset: 54447},
+																					pos:   position{line: 1691, col: 5, offset: 54753},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1682, col: 9, offset: 54463},
+																						pos: position{line: 1692, col: 9, offset: 54769},
 																						run: (*parser).callonListContinuationElement1718,
 																						expr: &choiceExpr{
-																							pos: position{line: 1682, col: 10, offset: 54464},
+																							pos: position{line: 1692, col: 10, offset: 54770},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1682, col: 11, offset: 54465},
+																									pos:        position{line: 1692, col: 11, offset: 54771},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1682, col: 18, offset: 54472},
+																									pos: position{line: 1692, col: 18, offset: 54778},
 																									expr: &litMatcher{
-																										pos:        position{line: 1682, col: 19, offset: 54473},
+																										pos:        position{line: 1692, col: 19, offset: 54779},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -39103,16 +39210,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1685, col: 7, offset: 54563},
+																					pos: position{line: 1695, col: 7, offset: 54869},
 																					run: (*parser).callonListContinuationElement1723,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94279},
+																					pos: position{line: 2987, col: 11, offset: 94585},
 																					run: (*parser).callonListContinuationElement1724,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94279},
+																						pos: position{line: 2987, col: 11, offset: 94585},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94279},
+																							pos:        position{line: 2987, col: 11, offset: 94585},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39125,29 +39232,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1561, col: 5, offset: 50360},
+																	pos: position{line: 1571, col: 5, offset: 50666},
 																	expr: &actionExpr{
-																		pos: position{line: 1769, col: 5, offset: 56972},
+																		pos: position{line: 1779, col: 5, offset: 57278},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1769, col: 5, offset: 56972},
+																			pos: position{line: 1779, col: 5, offset: 57278},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1769, col: 5, offset: 56972},
+																					pos:        position{line: 1779, col: 5, offset: 57278},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1769, col: 9, offset: 56976},
+																					pos:   position{line: 1779, col: 9, offset: 57282},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1769, col: 14, offset: 56981},
+																						pos: position{line: 1779, col: 14, offset: 57287},
 																						run: (*parser).callonListContinuationElement1732,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1769, col: 14, offset: 56981},
+																							pos: position{line: 1779, col: 14, offset: 57287},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1769, col: 14, offset: 56981},
+																								pos:        position{line: 1779, col: 14, offset: 57287},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -39157,18 +39264,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1769, col: 62, offset: 57029},
+																					pos:        position{line: 1779, col: 62, offset: 57335},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2977, col: 11, offset: 94279},
+																					pos: position{line: 2987, col: 11, offset: 94585},
 																					run: (*parser).callonListContinuationElement1736,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2977, col: 11, offset: 94279},
+																						pos: position{line: 2987, col: 11, offset: 94585},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2977, col: 11, offset: 94279},
+																							pos:        position{line: 2987, col: 11, offset: 94585},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39181,36 +39288,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1562, col: 5, offset: 50390},
+																	pos: position{line: 1572, col: 5, offset: 50696},
 																	expr: &seqExpr{
-																		pos: position{line: 1562, col: 7, offset: 50392},
+																		pos: position{line: 1572, col: 7, offset: 50698},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1715, col: 5, offset: 55454},
+																				pos: position{line: 1725, col: 5, offset: 55760},
 																				run: (*parser).callonListContinuationElement1741,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 5, offset: 55454},
+																					pos: position{line: 1725, col: 5, offset: 55760},
 																					expr: &seqExpr{
-																						pos: position{line: 1715, col: 6, offset: 55455},
+																						pos: position{line: 1725, col: 6, offset: 55761},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1715, col: 6, offset: 55455},
+																								pos: position{line: 1725, col: 6, offset: 55761},
 																								expr: &actionExpr{
-																									pos: position{line: 1720, col: 5, offset: 55605},
+																									pos: position{line: 1730, col: 5, offset: 55911},
 																									run: (*parser).callonListContinuationElement1745,
 																									expr: &seqExpr{
-																										pos: position{line: 1720, col: 5, offset: 55605},
+																										pos: position{line: 1730, col: 5, offset: 55911},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1720, col: 5, offset: 55605},
+																												pos:   position{line: 1730, col: 5, offset: 55911},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1720, col: 16, offset: 55616},
+																													pos: position{line: 1730, col: 16, offset: 55922},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1720, col: 16, offset: 55616},
+																														pos: position{line: 1730, col: 16, offset: 55922},
 																														expr: &litMatcher{
-																															pos:        position{line: 1720, col: 17, offset: 55617},
+																															pos:        position{line: 1730, col: 17, offset: 55923},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -39219,7 +39326,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1723, col: 5, offset: 55674},
+																												pos: position{line: 1733, col: 5, offset: 55980},
 																												run: (*parser).callonListContinuationElement1751,
 																											},
 																										},
@@ -39227,30 +39334,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1715, col: 35, offset: 55484},
+																								pos: position{line: 1725, col: 35, offset: 55790},
 																								expr: &choiceExpr{
-																									pos: position{line: 2995, col: 8, offset: 94616},
+																									pos: position{line: 3005, col: 8, offset: 94922},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2982, col: 12, offset: 94389},
+																											pos: position{line: 2992, col: 12, offset: 94695},
 																											run: (*parser).callonListContinuationElement1754,
 																											expr: &choiceExpr{
-																												pos: position{line: 2982, col: 13, offset: 94390},
+																												pos: position{line: 2992, col: 13, offset: 94696},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 13, offset: 94390},
+																														pos:        position{line: 2992, col: 13, offset: 94696},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 20, offset: 94397},
+																														pos:        position{line: 2992, col: 20, offset: 94703},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2982, col: 29, offset: 94406},
+																														pos:        position{line: 2992, col: 29, offset: 94712},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -39259,37 +39366,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2992, col: 8, offset: 94566},
+																											pos: position{line: 3002, col: 8, offset: 94872},
 																											expr: &anyMatcher{
-																												line: 2992, col: 9, offset: 94567,
+																												line: 3002, col: 9, offset: 94873,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1715, col: 40, offset: 55489,
+																								line: 1725, col: 40, offset: 55795,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1720, col: 5, offset: 55605},
+																				pos: position{line: 1730, col: 5, offset: 55911},
 																				run: (*parser).callonListContinuationElement1762,
 																				expr: &seqExpr{
-																					pos: position{line: 1720, col: 5, offset: 55605},
+																					pos: position{line: 1730, col: 5, offset: 55911},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1720, col: 5, offset: 55605},
+																							pos:   position{line: 1730, col: 5, offset: 55911},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1720, col: 16, offset: 55616},
+																								pos: position{line: 1730, col: 16, offset: 55922},
 																								run: (*parser).callonListContinuationElement1765,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1720, col: 16, offset: 55616},
+																									pos: position{line: 1730, col: 16, offset: 55922},
 																									expr: &litMatcher{
-																										pos:        position{line: 1720, col: 17, offset: 55617},
+																										pos:        position{line: 1730, col: 17, offset: 55923},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -39298,20 +39405,20 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1723, col: 5, offset: 55674},
+																							pos: position{line: 1733, col: 5, offset: 55980},
 																							run: (*parser).callonListContinuationElement1768,
 																						},
 																					},
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 1562, col: 59, offset: 50444},
+																				pos: position{line: 1572, col: 59, offset: 50750},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2973, col: 10, offset: 94218},
+																						pos: position{line: 2983, col: 10, offset: 94524},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2973, col: 10, offset: 94218},
+																							pos:        position{line: 2983, col: 10, offset: 94524},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -39319,25 +39426,25 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2982, col: 12, offset: 94389},
+																						pos: position{line: 2992, col: 12, offset: 94695},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &choiceExpr{
-																							pos: position{line: 2982, col: 13, offset: 94390},
+																							pos: position{line: 2992, col: 13, offset: 94696},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 13, offset: 94390},
+																									pos:        position{line: 2992, col: 13, offset: 94696},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 20, offset: 94397},
+																									pos:        position{line: 2992, col: 20, offset: 94703},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2982, col: 29, offset: 94406},
+																									pos:        position{line: 2992, col: 29, offset: 94712},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -39346,9 +39453,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2992, col: 8, offset: 94566},
+																						pos: position{line: 3002, col: 8, offset: 94872},
 																						expr: &anyMatcher{
-																							line: 2992, col: 9, offset: 94567,
+																							line: 3002, col: 9, offset: 94873,
 																						},
 																					},
 																				},
@@ -39357,9 +39464,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1563, col: 5, offset: 50462},
+																	pos: position{line: 1573, col: 5, offset: 50768},
 																	expr: &choiceExpr{
-																		pos: position{line: 1563, col: 7, offset: 50464},
+																		pos: position{line: 1573, col: 7, offset: 50770},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 744, col: 5, offset: 23707},
@@ -39370,7 +39477,7 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 744, col: 5, offset: 23707},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 13, offset: 90166},
+																								pos:        position{line: 2837, col: 13, offset: 90472},
 																								val:        "[\\pL\\pN]",
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
@@ -39420,10 +39527,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 762, col: 8, offset: 24351},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1796,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39432,28 +39539,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1799,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39462,9 +39569,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39509,10 +39616,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 769, col: 8, offset: 24599},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1815,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39521,28 +39628,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1818,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39551,9 +39658,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39594,10 +39701,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 780, col: 52, offset: 25011},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1833,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39606,28 +39713,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1836,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39636,9 +39743,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39683,10 +39790,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 776, col: 8, offset: 24845},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1852,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39695,28 +39802,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1855,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39725,9 +39832,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39772,10 +39879,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 791, col: 8, offset: 25383},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1871,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39784,28 +39891,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1874,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39814,9 +39921,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39861,10 +39968,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 805, col: 8, offset: 25859},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1890,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39873,28 +39980,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1893,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39903,9 +40010,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -39950,10 +40057,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 812, col: 8, offset: 26111},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1909,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -39962,28 +40069,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1912,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -39992,9 +40099,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -40039,10 +40146,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 819, col: 8, offset: 26361},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1928,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40051,28 +40158,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1931,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40081,9 +40188,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -40128,10 +40235,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 826, col: 8, offset: 26607},
 																													expr: &actionExpr{
-																														pos: position{line: 2973, col: 10, offset: 94218},
+																														pos: position{line: 2983, col: 10, offset: 94524},
 																														run: (*parser).callonListContinuationElement1947,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2973, col: 10, offset: 94218},
+																															pos:        position{line: 2983, col: 10, offset: 94524},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -40140,28 +40247,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2995, col: 8, offset: 94616},
+																													pos: position{line: 3005, col: 8, offset: 94922},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2982, col: 12, offset: 94389},
+																															pos: position{line: 2992, col: 12, offset: 94695},
 																															run: (*parser).callonListContinuationElement1950,
 																															expr: &choiceExpr{
-																																pos: position{line: 2982, col: 13, offset: 94390},
+																																pos: position{line: 2992, col: 13, offset: 94696},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 13, offset: 94390},
+																																		pos:        position{line: 2992, col: 13, offset: 94696},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 20, offset: 94397},
+																																		pos:        position{line: 2992, col: 20, offset: 94703},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2982, col: 29, offset: 94406},
+																																		pos:        position{line: 2992, col: 29, offset: 94712},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -40170,9 +40277,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2992, col: 8, offset: 94566},
+																															pos: position{line: 3002, col: 8, offset: 94872},
 																															expr: &anyMatcher{
-																																line: 2992, col: 9, offset: 94567,
+																																line: 3002, col: 9, offset: 94873,
 																															},
 																														},
 																													},
@@ -40209,10 +40316,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25614},
 																							expr: &actionExpr{
-																								pos: position{line: 2973, col: 10, offset: 94218},
+																								pos: position{line: 2983, col: 10, offset: 94524},
 																								run: (*parser).callonListContinuationElement1963,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2973, col: 10, offset: 94218},
+																									pos:        position{line: 2983, col: 10, offset: 94524},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -40221,28 +40328,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2995, col: 8, offset: 94616},
+																							pos: position{line: 3005, col: 8, offset: 94922},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2982, col: 12, offset: 94389},
+																									pos: position{line: 2992, col: 12, offset: 94695},
 																									run: (*parser).callonListContinuationElement1966,
 																									expr: &choiceExpr{
-																										pos: position{line: 2982, col: 13, offset: 94390},
+																										pos: position{line: 2992, col: 13, offset: 94696},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 13, offset: 94390},
+																												pos:        position{line: 2992, col: 13, offset: 94696},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 20, offset: 94397},
+																												pos:        position{line: 2992, col: 20, offset: 94703},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2982, col: 29, offset: 94406},
+																												pos:        position{line: 2992, col: 29, offset: 94712},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -40251,9 +40358,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2992, col: 8, offset: 94566},
+																									pos: position{line: 3002, col: 8, offset: 94872},
 																									expr: &anyMatcher{
-																										line: 2992, col: 9, offset: 94567,
+																										line: 3002, col: 9, offset: 94873,
 																									},
 																								},
 																							},
@@ -40262,21 +40369,21 @@ var g = &grammar{
 																				},
 																			},
 																			&seqExpr{
-																				pos: position{line: 2675, col: 19, offset: 85618},
+																				pos: position{line: 2685, col: 19, offset: 85924},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2675, col: 19, offset: 85618},
+																						pos:        position{line: 2685, col: 19, offset: 85924},
 																						val:        "|===",
 																						ignoreCase: false,
 																						want:       "\"|===\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 2675, col: 26, offset: 85625},
+																						pos: position{line: 2685, col: 26, offset: 85931},
 																						expr: &actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonListContinuationElement1976,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40285,28 +40392,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2995, col: 8, offset: 94616},
+																						pos: position{line: 3005, col: 8, offset: 94922},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2982, col: 12, offset: 94389},
+																								pos: position{line: 2992, col: 12, offset: 94695},
 																								run: (*parser).callonListContinuationElement1979,
 																								expr: &choiceExpr{
-																									pos: position{line: 2982, col: 13, offset: 94390},
+																									pos: position{line: 2992, col: 13, offset: 94696},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 13, offset: 94390},
+																											pos:        position{line: 2992, col: 13, offset: 94696},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 20, offset: 94397},
+																											pos:        position{line: 2992, col: 20, offset: 94703},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2982, col: 29, offset: 94406},
+																											pos:        position{line: 2992, col: 29, offset: 94712},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40315,9 +40422,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2992, col: 8, offset: 94566},
+																								pos: position{line: 3002, col: 8, offset: 94872},
 																								expr: &anyMatcher{
-																									line: 2992, col: 9, offset: 94567,
+																									line: 3002, col: 9, offset: 94873,
 																								},
 																							},
 																						},
@@ -40328,15 +40435,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1564, col: 5, offset: 50522},
+																	pos:   position{line: 1574, col: 5, offset: 50828},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 14, offset: 91972},
+																		pos: position{line: 2906, col: 14, offset: 92278},
 																		run: (*parser).callonListContinuationElement1987,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 14, offset: 91972},
+																			pos: position{line: 2906, col: 14, offset: 92278},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 14, offset: 91972},
+																				pos:        position{line: 2906, col: 14, offset: 92278},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -40346,28 +40453,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonListContinuationElement1991,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -40376,9 +40483,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -40399,33 +40506,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1753, col: 1, offset: 56466},
+			pos:  position{line: 1763, col: 1, offset: 56772},
 			expr: &actionExpr{
-				pos: position{line: 1755, col: 5, offset: 56544},
+				pos: position{line: 1765, col: 5, offset: 56850},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1755, col: 5, offset: 56544},
+					pos: position{line: 1765, col: 5, offset: 56850},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1755, col: 5, offset: 56544},
+							pos: position{line: 1765, col: 5, offset: 56850},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1758, col: 5, offset: 56611},
+							pos:        position{line: 1768, col: 5, offset: 56917},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 9, offset: 56615},
+							pos:   position{line: 1768, col: 9, offset: 56921},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1758, col: 14, offset: 56620},
+								pos: position{line: 1768, col: 14, offset: 56926},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1758, col: 14, offset: 56620},
+									pos: position{line: 1768, col: 14, offset: 56926},
 									expr: &charClassMatcher{
-										pos:        position{line: 1758, col: 14, offset: 56620},
+										pos:        position{line: 1768, col: 14, offset: 56926},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -40435,18 +40542,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1758, col: 62, offset: 56668},
+							pos:        position{line: 1768, col: 62, offset: 56974},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1758, col: 66, offset: 56672},
+							pos: position{line: 1768, col: 66, offset: 56978},
 							expr: &actionExpr{
-								pos: position{line: 2973, col: 10, offset: 94218},
+								pos: position{line: 2983, col: 10, offset: 94524},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2973, col: 10, offset: 94218},
+									pos:        position{line: 2983, col: 10, offset: 94524},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40455,30 +40562,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1758, col: 73, offset: 56679},
+							pos: position{line: 1768, col: 73, offset: 56985},
 							expr: &choiceExpr{
-								pos: position{line: 1758, col: 75, offset: 56681},
+								pos: position{line: 1768, col: 75, offset: 56987},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94389},
+										pos: position{line: 2992, col: 12, offset: 94695},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94390},
+											pos: position{line: 2992, col: 13, offset: 94696},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94390},
+													pos:        position{line: 2992, col: 13, offset: 94696},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94397},
+													pos:        position{line: 2992, col: 20, offset: 94703},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94406},
+													pos:        position{line: 2992, col: 29, offset: 94712},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40487,13 +40594,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2992, col: 8, offset: 94566},
+										pos: position{line: 3002, col: 8, offset: 94872},
 										expr: &anyMatcher{
-											line: 2992, col: 9, offset: 94567,
+											line: 3002, col: 9, offset: 94873,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1758, col: 81, offset: 56687},
+										pos:  position{line: 1768, col: 81, offset: 56993},
 										name: "Callout",
 									},
 								},
@@ -40505,44 +40612,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1797, col: 1, offset: 57904},
+			pos:  position{line: 1807, col: 1, offset: 58210},
 			expr: &actionExpr{
-				pos: position{line: 1799, col: 5, offset: 57978},
+				pos: position{line: 1809, col: 5, offset: 58284},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1799, col: 5, offset: 57978},
+					pos: position{line: 1809, col: 5, offset: 58284},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1799, col: 5, offset: 57978},
+							pos: position{line: 1809, col: 5, offset: 58284},
 							expr: &seqExpr{
-								pos: position{line: 1799, col: 7, offset: 57980},
+								pos: position{line: 1809, col: 7, offset: 58286},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2827, col: 13, offset: 90166},
+										pos:        position{line: 2837, col: 13, offset: 90472},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1799, col: 16, offset: 57989},
+										pos: position{line: 1809, col: 16, offset: 58295},
 										expr: &seqExpr{
-											pos: position{line: 1799, col: 18, offset: 57991},
+											pos: position{line: 1809, col: 18, offset: 58297},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1799, col: 19, offset: 57992},
+													pos:        position{line: 1809, col: 19, offset: 58298},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2977, col: 11, offset: 94279},
+													pos: position{line: 2987, col: 11, offset: 94585},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2977, col: 11, offset: 94279},
+														pos: position{line: 2987, col: 11, offset: 94585},
 														expr: &charClassMatcher{
-															pos:        position{line: 2977, col: 11, offset: 94279},
+															pos:        position{line: 2987, col: 11, offset: 94585},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -40557,45 +40664,45 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1800, col: 5, offset: 58132},
+							pos:   position{line: 1810, col: 5, offset: 58438},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1800, col: 11, offset: 58138},
+								pos: position{line: 1810, col: 11, offset: 58444},
 								expr: &actionExpr{
-									pos: position{line: 1778, col: 5, offset: 57357},
+									pos: position{line: 1788, col: 5, offset: 57663},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1778, col: 5, offset: 57357},
+										pos: position{line: 1788, col: 5, offset: 57663},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1778, col: 5, offset: 57357},
+												pos: position{line: 1788, col: 5, offset: 57663},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1781, col: 5, offset: 57420},
+												pos:   position{line: 1791, col: 5, offset: 57726},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1781, col: 12, offset: 57427},
+													pos: position{line: 1791, col: 12, offset: 57733},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1781, col: 12, offset: 57427},
+															pos: position{line: 1791, col: 12, offset: 57733},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &seqExpr{
-																pos: position{line: 1781, col: 12, offset: 57427},
+																pos: position{line: 1791, col: 12, offset: 57733},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1781, col: 12, offset: 57427},
+																		pos:        position{line: 1791, col: 12, offset: 57733},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonShortcutParagraph22,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40607,24 +40714,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1783, col: 13, offset: 57489},
+															pos: position{line: 1793, col: 13, offset: 57795},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &seqExpr{
-																pos: position{line: 1783, col: 13, offset: 57489},
+																pos: position{line: 1793, col: 13, offset: 57795},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1783, col: 13, offset: 57489},
+																		pos:        position{line: 1793, col: 13, offset: 57795},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonShortcutParagraph28,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40636,24 +40743,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 13, offset: 57553},
+															pos: position{line: 1795, col: 13, offset: 57859},
 															run: (*parser).callonShortcutParagraph31,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 13, offset: 57553},
+																pos: position{line: 1795, col: 13, offset: 57859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1785, col: 13, offset: 57553},
+																		pos:        position{line: 1795, col: 13, offset: 57859},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonShortcutParagraph34,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40665,24 +40772,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1787, col: 13, offset: 57627},
+															pos: position{line: 1797, col: 13, offset: 57933},
 															run: (*parser).callonShortcutParagraph37,
 															expr: &seqExpr{
-																pos: position{line: 1787, col: 13, offset: 57627},
+																pos: position{line: 1797, col: 13, offset: 57933},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1787, col: 13, offset: 57627},
+																		pos:        position{line: 1797, col: 13, offset: 57933},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonShortcutParagraph40,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40694,24 +40801,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1789, col: 13, offset: 57697},
+															pos: position{line: 1799, col: 13, offset: 58003},
 															run: (*parser).callonShortcutParagraph43,
 															expr: &seqExpr{
-																pos: position{line: 1789, col: 13, offset: 57697},
+																pos: position{line: 1799, col: 13, offset: 58003},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1789, col: 13, offset: 57697},
+																		pos:        position{line: 1799, col: 13, offset: 58003},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonShortcutParagraph46,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -40723,17 +40830,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 13, offset: 57767},
+															pos: position{line: 1801, col: 13, offset: 58073},
 															run: (*parser).callonShortcutParagraph49,
 															expr: &andExpr{
-																pos: position{line: 1791, col: 13, offset: 57767},
+																pos: position{line: 1801, col: 13, offset: 58073},
 																expr: &actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonShortcutParagraph51,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40747,17 +40854,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 12, offset: 57847},
+												pos: position{line: 1803, col: 12, offset: 58153},
 												expr: &seqExpr{
-													pos: position{line: 1793, col: 14, offset: 57849},
+													pos: position{line: 1803, col: 14, offset: 58155},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1793, col: 14, offset: 57849},
+															pos: position{line: 1803, col: 14, offset: 58155},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonShortcutParagraph57,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40766,28 +40873,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94616},
+															pos: position{line: 3005, col: 8, offset: 94922},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94389},
+																	pos: position{line: 2992, col: 12, offset: 94695},
 																	run: (*parser).callonShortcutParagraph60,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94390},
+																		pos: position{line: 2992, col: 13, offset: 94696},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94390},
+																				pos:        position{line: 2992, col: 13, offset: 94696},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94397},
+																				pos:        position{line: 2992, col: 20, offset: 94703},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94406},
+																				pos:        position{line: 2992, col: 29, offset: 94712},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40796,9 +40903,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -40812,24 +40919,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1801, col: 5, offset: 58160},
+							pos:   position{line: 1811, col: 5, offset: 58466},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1838, col: 5, offset: 59371},
+								pos: position{line: 1848, col: 5, offset: 59677},
 								run: (*parser).callonShortcutParagraph68,
 								expr: &seqExpr{
-									pos: position{line: 1838, col: 5, offset: 59371},
+									pos: position{line: 1848, col: 5, offset: 59677},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1838, col: 5, offset: 59371},
+											pos:   position{line: 1848, col: 5, offset: 59677},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 14, offset: 91972},
+												pos: position{line: 2906, col: 14, offset: 92278},
 												run: (*parser).callonShortcutParagraph71,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2896, col: 14, offset: 91972},
+													pos: position{line: 2906, col: 14, offset: 92278},
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 14, offset: 91972},
+														pos:        position{line: 2906, col: 14, offset: 92278},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40839,32 +40946,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1839, col: 5, offset: 59395},
+											pos: position{line: 1849, col: 5, offset: 59701},
 											run: (*parser).callonShortcutParagraph74,
 										},
 										&choiceExpr{
-											pos: position{line: 2995, col: 8, offset: 94616},
+											pos: position{line: 3005, col: 8, offset: 94922},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2982, col: 12, offset: 94389},
+													pos: position{line: 2992, col: 12, offset: 94695},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &choiceExpr{
-														pos: position{line: 2982, col: 13, offset: 94390},
+														pos: position{line: 2992, col: 13, offset: 94696},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2982, col: 13, offset: 94390},
+																pos:        position{line: 2992, col: 13, offset: 94696},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 20, offset: 94397},
+																pos:        position{line: 2992, col: 20, offset: 94703},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 29, offset: 94406},
+																pos:        position{line: 2992, col: 29, offset: 94712},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40873,9 +40980,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -40885,28 +40992,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1802, col: 5, offset: 58194},
+							pos: position{line: 1812, col: 5, offset: 58500},
 							run: (*parser).callonShortcutParagraph83,
 						},
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58524},
+							pos:   position{line: 1819, col: 5, offset: 58830},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1809, col: 16, offset: 58535},
+								pos: position{line: 1819, col: 16, offset: 58841},
 								expr: &actionExpr{
-									pos: position{line: 1810, col: 9, offset: 58545},
+									pos: position{line: 1820, col: 9, offset: 58851},
 									run: (*parser).callonShortcutParagraph86,
 									expr: &seqExpr{
-										pos: position{line: 1810, col: 9, offset: 58545},
+										pos: position{line: 1820, col: 9, offset: 58851},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94552},
+												pos: position{line: 3000, col: 11, offset: 94858},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94554,
+													line: 3000, col: 13, offset: 94860,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1811, col: 9, offset: 58561},
+												pos: position{line: 1821, col: 9, offset: 58867},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonShortcutParagraph91,
@@ -40914,18 +41021,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94552},
+																pos: position{line: 3000, col: 11, offset: 94858},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94554,
+																	line: 3000, col: 13, offset: 94860,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonShortcutParagraph96,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40934,28 +41041,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonShortcutParagraph99,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40964,9 +41071,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -40976,16 +41083,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1812, col: 9, offset: 58580},
+												pos: position{line: 1822, col: 9, offset: 58886},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1812, col: 10, offset: 58581},
+													pos:  position{line: 1822, col: 10, offset: 58887},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1813, col: 9, offset: 58605},
+												pos: position{line: 1823, col: 9, offset: 58911},
 												expr: &choiceExpr{
-													pos: position{line: 1813, col: 11, offset: 58607},
+													pos: position{line: 1823, col: 11, offset: 58913},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -40996,7 +41103,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2827, col: 13, offset: 90166},
+																			pos:        position{line: 2837, col: 13, offset: 90472},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -41046,10 +41153,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph125,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41058,28 +41165,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph128,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41088,9 +41195,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41135,10 +41242,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph144,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41147,28 +41254,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph147,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41177,9 +41284,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41220,10 +41327,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph162,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41232,28 +41339,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph165,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41262,9 +41369,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41309,10 +41416,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph181,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41321,28 +41428,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph184,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41351,9 +41458,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41398,10 +41505,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph200,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41410,28 +41517,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph203,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41440,9 +41547,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41487,10 +41594,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph219,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41499,28 +41606,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph222,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41529,9 +41636,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41576,10 +41683,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph238,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41588,28 +41695,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph241,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41618,9 +41725,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41665,10 +41772,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph257,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41677,28 +41784,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph260,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41707,9 +41814,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41754,10 +41861,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonShortcutParagraph276,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -41766,28 +41873,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonShortcutParagraph279,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -41796,9 +41903,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -41835,10 +41942,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonShortcutParagraph292,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -41847,28 +41954,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonShortcutParagraph295,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41877,9 +41984,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -41888,21 +41995,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85618},
+															pos: position{line: 2685, col: 19, offset: 85924},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85618},
+																	pos:        position{line: 2685, col: 19, offset: 85924},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85625},
+																	pos: position{line: 2685, col: 26, offset: 85931},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonShortcutParagraph305,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41911,28 +42018,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonShortcutParagraph308,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -41941,9 +42048,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -41954,23 +42061,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1814, col: 9, offset: 58669},
+												pos: position{line: 1824, col: 9, offset: 58975},
 												expr: &seqExpr{
-													pos: position{line: 1588, col: 27, offset: 51254},
+													pos: position{line: 1598, col: 27, offset: 51560},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1588, col: 27, offset: 51254},
+															pos:        position{line: 1598, col: 27, offset: 51560},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1588, col: 31, offset: 51258},
+															pos: position{line: 1598, col: 31, offset: 51564},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonShortcutParagraph319,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -41979,25 +42086,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonShortcutParagraph321,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -42009,42 +42116,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1815, col: 9, offset: 58701},
+												pos:   position{line: 1825, col: 9, offset: 59007},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1815, col: 15, offset: 58707},
+													pos: position{line: 1825, col: 15, offset: 59013},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81861},
+															pos: position{line: 2550, col: 22, offset: 82167},
 															run: (*parser).callonShortcutParagraph328,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81861},
+																pos: position{line: 2550, col: 22, offset: 82167},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82082},
+																		pos:        position{line: 2555, col: 31, offset: 82388},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82087},
+																		pos: position{line: 2555, col: 36, offset: 82393},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82088},
+																			pos:        position{line: 2555, col: 37, offset: 82394},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81888},
+																		pos:   position{line: 2550, col: 49, offset: 82194},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91905},
+																			pos: position{line: 2902, col: 13, offset: 92211},
 																			run: (*parser).callonShortcutParagraph334,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91905},
+																				pos: position{line: 2902, col: 13, offset: 92211},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91905},
+																					pos:        position{line: 2902, col: 13, offset: 92211},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42054,28 +42161,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonShortcutParagraph338,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42084,9 +42191,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -42095,21 +42202,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1838, col: 5, offset: 59371},
+															pos: position{line: 1848, col: 5, offset: 59677},
 															run: (*parser).callonShortcutParagraph345,
 															expr: &seqExpr{
-																pos: position{line: 1838, col: 5, offset: 59371},
+																pos: position{line: 1848, col: 5, offset: 59677},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1838, col: 5, offset: 59371},
+																		pos:   position{line: 1848, col: 5, offset: 59677},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91972},
+																			pos: position{line: 2906, col: 14, offset: 92278},
 																			run: (*parser).callonShortcutParagraph348,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91972},
+																				pos: position{line: 2906, col: 14, offset: 92278},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91972},
+																					pos:        position{line: 2906, col: 14, offset: 92278},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -42119,32 +42226,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1839, col: 5, offset: 59395},
+																		pos: position{line: 1849, col: 5, offset: 59701},
 																		run: (*parser).callonShortcutParagraph351,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonShortcutParagraph353,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -42153,9 +42260,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -42177,53 +42284,53 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1822, col: 1, offset: 58911},
+			pos:  position{line: 1832, col: 1, offset: 59217},
 			expr: &actionExpr{
-				pos: position{line: 1823, col: 5, offset: 58929},
+				pos: position{line: 1833, col: 5, offset: 59235},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1823, col: 5, offset: 58929},
+					pos: position{line: 1833, col: 5, offset: 59235},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58929},
+							pos:   position{line: 1833, col: 5, offset: 59235},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1823, col: 11, offset: 58935},
+								pos: position{line: 1833, col: 11, offset: 59241},
 								expr: &actionExpr{
-									pos: position{line: 1778, col: 5, offset: 57357},
+									pos: position{line: 1788, col: 5, offset: 57663},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1778, col: 5, offset: 57357},
+										pos: position{line: 1788, col: 5, offset: 57663},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1778, col: 5, offset: 57357},
+												pos: position{line: 1788, col: 5, offset: 57663},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1781, col: 5, offset: 57420},
+												pos:   position{line: 1791, col: 5, offset: 57726},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1781, col: 12, offset: 57427},
+													pos: position{line: 1791, col: 12, offset: 57733},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1781, col: 12, offset: 57427},
+															pos: position{line: 1791, col: 12, offset: 57733},
 															run: (*parser).callonParagraph10,
 															expr: &seqExpr{
-																pos: position{line: 1781, col: 12, offset: 57427},
+																pos: position{line: 1791, col: 12, offset: 57733},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1781, col: 12, offset: 57427},
+																		pos:        position{line: 1791, col: 12, offset: 57733},
 																		val:        "TIP:",
 																		ignoreCase: false,
 																		want:       "\"TIP:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonParagraph13,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42235,24 +42342,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1783, col: 13, offset: 57489},
+															pos: position{line: 1793, col: 13, offset: 57795},
 															run: (*parser).callonParagraph16,
 															expr: &seqExpr{
-																pos: position{line: 1783, col: 13, offset: 57489},
+																pos: position{line: 1793, col: 13, offset: 57795},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1783, col: 13, offset: 57489},
+																		pos:        position{line: 1793, col: 13, offset: 57795},
 																		val:        "NOTE:",
 																		ignoreCase: false,
 																		want:       "\"NOTE:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonParagraph19,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42264,24 +42371,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 13, offset: 57553},
+															pos: position{line: 1795, col: 13, offset: 57859},
 															run: (*parser).callonParagraph22,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 13, offset: 57553},
+																pos: position{line: 1795, col: 13, offset: 57859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1785, col: 13, offset: 57553},
+																		pos:        position{line: 1795, col: 13, offset: 57859},
 																		val:        "IMPORTANT:",
 																		ignoreCase: false,
 																		want:       "\"IMPORTANT:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonParagraph25,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42293,24 +42400,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1787, col: 13, offset: 57627},
+															pos: position{line: 1797, col: 13, offset: 57933},
 															run: (*parser).callonParagraph28,
 															expr: &seqExpr{
-																pos: position{line: 1787, col: 13, offset: 57627},
+																pos: position{line: 1797, col: 13, offset: 57933},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1787, col: 13, offset: 57627},
+																		pos:        position{line: 1797, col: 13, offset: 57933},
 																		val:        "WARNING:",
 																		ignoreCase: false,
 																		want:       "\"WARNING:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonParagraph31,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42322,24 +42429,24 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1789, col: 13, offset: 57697},
+															pos: position{line: 1799, col: 13, offset: 58003},
 															run: (*parser).callonParagraph34,
 															expr: &seqExpr{
-																pos: position{line: 1789, col: 13, offset: 57697},
+																pos: position{line: 1799, col: 13, offset: 58003},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1789, col: 13, offset: 57697},
+																		pos:        position{line: 1799, col: 13, offset: 58003},
 																		val:        "CAUTION:",
 																		ignoreCase: false,
 																		want:       "\"CAUTION:\"",
 																	},
 																	&actionExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		run: (*parser).callonParagraph37,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2977, col: 11, offset: 94279},
+																			pos: position{line: 2987, col: 11, offset: 94585},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2977, col: 11, offset: 94279},
+																				pos:        position{line: 2987, col: 11, offset: 94585},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -42351,17 +42458,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 13, offset: 57767},
+															pos: position{line: 1801, col: 13, offset: 58073},
 															run: (*parser).callonParagraph40,
 															expr: &andExpr{
-																pos: position{line: 1791, col: 13, offset: 57767},
+																pos: position{line: 1801, col: 13, offset: 58073},
 																expr: &actionExpr{
-																	pos: position{line: 2977, col: 11, offset: 94279},
+																	pos: position{line: 2987, col: 11, offset: 94585},
 																	run: (*parser).callonParagraph42,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2977, col: 11, offset: 94279},
+																		pos: position{line: 2987, col: 11, offset: 94585},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2977, col: 11, offset: 94279},
+																			pos:        position{line: 2987, col: 11, offset: 94585},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -42375,17 +42482,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1793, col: 12, offset: 57847},
+												pos: position{line: 1803, col: 12, offset: 58153},
 												expr: &seqExpr{
-													pos: position{line: 1793, col: 14, offset: 57849},
+													pos: position{line: 1803, col: 14, offset: 58155},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1793, col: 14, offset: 57849},
+															pos: position{line: 1803, col: 14, offset: 58155},
 															expr: &actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonParagraph48,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -42394,28 +42501,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2995, col: 8, offset: 94616},
+															pos: position{line: 3005, col: 8, offset: 94922},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94389},
+																	pos: position{line: 2992, col: 12, offset: 94695},
 																	run: (*parser).callonParagraph51,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94390},
+																		pos: position{line: 2992, col: 13, offset: 94696},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94390},
+																				pos:        position{line: 2992, col: 13, offset: 94696},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94397},
+																				pos:        position{line: 2992, col: 20, offset: 94703},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94406},
+																				pos:        position{line: 2992, col: 29, offset: 94712},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -42424,9 +42531,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -42440,24 +42547,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1824, col: 5, offset: 58958},
+							pos:   position{line: 1834, col: 5, offset: 59264},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1838, col: 5, offset: 59371},
+								pos: position{line: 1848, col: 5, offset: 59677},
 								run: (*parser).callonParagraph59,
 								expr: &seqExpr{
-									pos: position{line: 1838, col: 5, offset: 59371},
+									pos: position{line: 1848, col: 5, offset: 59677},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1838, col: 5, offset: 59371},
+											pos:   position{line: 1848, col: 5, offset: 59677},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 14, offset: 91972},
+												pos: position{line: 2906, col: 14, offset: 92278},
 												run: (*parser).callonParagraph62,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2896, col: 14, offset: 91972},
+													pos: position{line: 2906, col: 14, offset: 92278},
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 14, offset: 91972},
+														pos:        position{line: 2906, col: 14, offset: 92278},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -42467,32 +42574,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1839, col: 5, offset: 59395},
+											pos: position{line: 1849, col: 5, offset: 59701},
 											run: (*parser).callonParagraph65,
 										},
 										&choiceExpr{
-											pos: position{line: 2995, col: 8, offset: 94616},
+											pos: position{line: 3005, col: 8, offset: 94922},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2982, col: 12, offset: 94389},
+													pos: position{line: 2992, col: 12, offset: 94695},
 													run: (*parser).callonParagraph67,
 													expr: &choiceExpr{
-														pos: position{line: 2982, col: 13, offset: 94390},
+														pos: position{line: 2992, col: 13, offset: 94696},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2982, col: 13, offset: 94390},
+																pos:        position{line: 2992, col: 13, offset: 94696},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 20, offset: 94397},
+																pos:        position{line: 2992, col: 20, offset: 94703},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2982, col: 29, offset: 94406},
+																pos:        position{line: 2992, col: 29, offset: 94712},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -42501,9 +42608,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2992, col: 8, offset: 94566},
+													pos: position{line: 3002, col: 8, offset: 94872},
 													expr: &anyMatcher{
-														line: 2992, col: 9, offset: 94567,
+														line: 3002, col: 9, offset: 94873,
 													},
 												},
 											},
@@ -42513,24 +42620,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 58992},
+							pos:   position{line: 1835, col: 5, offset: 59298},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1825, col: 16, offset: 59003},
+								pos: position{line: 1835, col: 16, offset: 59309},
 								expr: &actionExpr{
-									pos: position{line: 1826, col: 9, offset: 59013},
+									pos: position{line: 1836, col: 9, offset: 59319},
 									run: (*parser).callonParagraph76,
 									expr: &seqExpr{
-										pos: position{line: 1826, col: 9, offset: 59013},
+										pos: position{line: 1836, col: 9, offset: 59319},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94552},
+												pos: position{line: 3000, col: 11, offset: 94858},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94554,
+													line: 3000, col: 13, offset: 94860,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1827, col: 9, offset: 59028},
+												pos: position{line: 1837, col: 9, offset: 59334},
 												expr: &actionExpr{
 													pos: position{line: 697, col: 14, offset: 22135},
 													run: (*parser).callonParagraph81,
@@ -42538,18 +42645,18 @@ var g = &grammar{
 														pos: position{line: 697, col: 14, offset: 22135},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2990, col: 11, offset: 94552},
+																pos: position{line: 3000, col: 11, offset: 94858},
 																expr: &anyMatcher{
-																	line: 2990, col: 13, offset: 94554,
+																	line: 3000, col: 13, offset: 94860,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 697, col: 21, offset: 22142},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonParagraph86,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -42558,28 +42665,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2995, col: 8, offset: 94616},
+																pos: position{line: 3005, col: 8, offset: 94922},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2982, col: 12, offset: 94389},
+																		pos: position{line: 2992, col: 12, offset: 94695},
 																		run: (*parser).callonParagraph89,
 																		expr: &choiceExpr{
-																			pos: position{line: 2982, col: 13, offset: 94390},
+																			pos: position{line: 2992, col: 13, offset: 94696},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 13, offset: 94390},
+																					pos:        position{line: 2992, col: 13, offset: 94696},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 20, offset: 94397},
+																					pos:        position{line: 2992, col: 20, offset: 94703},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2982, col: 29, offset: 94406},
+																					pos:        position{line: 2992, col: 29, offset: 94712},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -42588,9 +42695,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2992, col: 8, offset: 94566},
+																		pos: position{line: 3002, col: 8, offset: 94872},
 																		expr: &anyMatcher{
-																			line: 2992, col: 9, offset: 94567,
+																			line: 3002, col: 9, offset: 94873,
 																		},
 																	},
 																},
@@ -42600,16 +42707,16 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1828, col: 9, offset: 59047},
+												pos: position{line: 1838, col: 9, offset: 59353},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1828, col: 10, offset: 59048},
+													pos:  position{line: 1838, col: 10, offset: 59354},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1829, col: 9, offset: 59072},
+												pos: position{line: 1839, col: 9, offset: 59378},
 												expr: &choiceExpr{
-													pos: position{line: 1829, col: 11, offset: 59074},
+													pos: position{line: 1839, col: 11, offset: 59380},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 744, col: 5, offset: 23707},
@@ -42620,7 +42727,7 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 744, col: 5, offset: 23707},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2827, col: 13, offset: 90166},
+																			pos:        position{line: 2837, col: 13, offset: 90472},
 																			val:        "[\\pL\\pN]",
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
@@ -42670,10 +42777,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 762, col: 8, offset: 24351},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph115,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42682,28 +42789,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph118,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42712,9 +42819,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -42759,10 +42866,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 769, col: 8, offset: 24599},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph134,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42771,28 +42878,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph137,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42801,9 +42908,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -42844,10 +42951,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 780, col: 52, offset: 25011},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42856,28 +42963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph155,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42886,9 +42993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -42933,10 +43040,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 776, col: 8, offset: 24845},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph171,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -42945,28 +43052,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph174,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -42975,9 +43082,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43022,10 +43129,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25383},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph190,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43034,28 +43141,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph193,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43064,9 +43171,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43111,10 +43218,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25859},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph209,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43123,28 +43230,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph212,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43153,9 +43260,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43200,10 +43307,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 812, col: 8, offset: 26111},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph228,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43212,28 +43319,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph231,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43242,9 +43349,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43289,10 +43396,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 819, col: 8, offset: 26361},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43301,28 +43408,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43331,9 +43438,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43378,10 +43485,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 826, col: 8, offset: 26607},
 																								expr: &actionExpr{
-																									pos: position{line: 2973, col: 10, offset: 94218},
+																									pos: position{line: 2983, col: 10, offset: 94524},
 																									run: (*parser).callonParagraph266,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2973, col: 10, offset: 94218},
+																										pos:        position{line: 2983, col: 10, offset: 94524},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -43390,28 +43497,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2995, col: 8, offset: 94616},
+																								pos: position{line: 3005, col: 8, offset: 94922},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2982, col: 12, offset: 94389},
+																										pos: position{line: 2992, col: 12, offset: 94695},
 																										run: (*parser).callonParagraph269,
 																										expr: &choiceExpr{
-																											pos: position{line: 2982, col: 13, offset: 94390},
+																											pos: position{line: 2992, col: 13, offset: 94696},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 13, offset: 94390},
+																													pos:        position{line: 2992, col: 13, offset: 94696},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 20, offset: 94397},
+																													pos:        position{line: 2992, col: 20, offset: 94703},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2982, col: 29, offset: 94406},
+																													pos:        position{line: 2992, col: 29, offset: 94712},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -43420,9 +43527,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2992, col: 8, offset: 94566},
+																										pos: position{line: 3002, col: 8, offset: 94872},
 																										expr: &anyMatcher{
-																											line: 2992, col: 9, offset: 94567,
+																											line: 3002, col: 9, offset: 94873,
 																										},
 																									},
 																								},
@@ -43459,10 +43566,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25614},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonParagraph282,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -43471,28 +43578,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonParagraph285,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43501,9 +43608,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -43512,21 +43619,21 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2675, col: 19, offset: 85618},
+															pos: position{line: 2685, col: 19, offset: 85924},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2675, col: 19, offset: 85618},
+																	pos:        position{line: 2685, col: 19, offset: 85924},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2675, col: 26, offset: 85625},
+																	pos: position{line: 2685, col: 26, offset: 85931},
 																	expr: &actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonParagraph295,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -43535,28 +43642,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonParagraph298,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -43565,9 +43672,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -43578,42 +43685,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1830, col: 9, offset: 59136},
+												pos:   position{line: 1840, col: 9, offset: 59442},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1830, col: 15, offset: 59142},
+													pos: position{line: 1840, col: 15, offset: 59448},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2540, col: 22, offset: 81861},
+															pos: position{line: 2550, col: 22, offset: 82167},
 															run: (*parser).callonParagraph307,
 															expr: &seqExpr{
-																pos: position{line: 2540, col: 22, offset: 81861},
+																pos: position{line: 2550, col: 22, offset: 82167},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2545, col: 31, offset: 82082},
+																		pos:        position{line: 2555, col: 31, offset: 82388},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2545, col: 36, offset: 82087},
+																		pos: position{line: 2555, col: 36, offset: 82393},
 																		expr: &litMatcher{
-																			pos:        position{line: 2545, col: 37, offset: 82088},
+																			pos:        position{line: 2555, col: 37, offset: 82394},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2540, col: 49, offset: 81888},
+																		pos:   position{line: 2550, col: 49, offset: 82194},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 13, offset: 91905},
+																			pos: position{line: 2902, col: 13, offset: 92211},
 																			run: (*parser).callonParagraph313,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2892, col: 13, offset: 91905},
+																				pos: position{line: 2902, col: 13, offset: 92211},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91905},
+																					pos:        position{line: 2902, col: 13, offset: 92211},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43623,28 +43730,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonParagraph317,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43653,9 +43760,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -43664,21 +43771,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1838, col: 5, offset: 59371},
+															pos: position{line: 1848, col: 5, offset: 59677},
 															run: (*parser).callonParagraph324,
 															expr: &seqExpr{
-																pos: position{line: 1838, col: 5, offset: 59371},
+																pos: position{line: 1848, col: 5, offset: 59677},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1838, col: 5, offset: 59371},
+																		pos:   position{line: 1848, col: 5, offset: 59677},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 14, offset: 91972},
+																			pos: position{line: 2906, col: 14, offset: 92278},
 																			run: (*parser).callonParagraph327,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 14, offset: 91972},
+																				pos: position{line: 2906, col: 14, offset: 92278},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 14, offset: 91972},
+																					pos:        position{line: 2906, col: 14, offset: 92278},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -43688,32 +43795,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1839, col: 5, offset: 59395},
+																		pos: position{line: 1849, col: 5, offset: 59701},
 																		run: (*parser).callonParagraph330,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2995, col: 8, offset: 94616},
+																		pos: position{line: 3005, col: 8, offset: 94922},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonParagraph332,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -43722,9 +43829,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2992, col: 8, offset: 94566},
+																				pos: position{line: 3002, col: 8, offset: 94872},
 																				expr: &anyMatcher{
-																					line: 2992, col: 9, offset: 94567,
+																					line: 3002, col: 9, offset: 94873,
 																				},
 																			},
 																		},
@@ -43746,16 +43853,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1849, col: 1, offset: 59878},
+			pos:  position{line: 1859, col: 1, offset: 60184},
 			expr: &choiceExpr{
-				pos: position{line: 1849, col: 15, offset: 59892},
+				pos: position{line: 1859, col: 15, offset: 60198},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 15, offset: 59892},
+						pos:  position{line: 1859, col: 15, offset: 60198},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 35, offset: 59912},
+						pos:  position{line: 1859, col: 35, offset: 60218},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -43763,65 +43870,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1851, col: 1, offset: 59933},
+			pos:  position{line: 1861, col: 1, offset: 60239},
 			expr: &actionExpr{
-				pos: position{line: 1852, col: 5, offset: 59958},
+				pos: position{line: 1862, col: 5, offset: 60264},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1852, col: 5, offset: 59958},
+					pos: position{line: 1862, col: 5, offset: 60264},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1852, col: 5, offset: 59958},
+							pos:   position{line: 1862, col: 5, offset: 60264},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1852, col: 16, offset: 59969},
+								pos: position{line: 1862, col: 16, offset: 60275},
 								expr: &actionExpr{
-									pos: position{line: 1852, col: 17, offset: 59970},
+									pos: position{line: 1862, col: 17, offset: 60276},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1852, col: 17, offset: 59970},
+										pos:  position{line: 1862, col: 17, offset: 60276},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1855, col: 5, offset: 60038},
+							pos: position{line: 1865, col: 5, offset: 60344},
 							expr: &litMatcher{
-								pos:        position{line: 1855, col: 7, offset: 60040},
+								pos:        position{line: 1865, col: 7, offset: 60346},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1856, col: 5, offset: 60049},
+							pos:   position{line: 1866, col: 5, offset: 60355},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1857, col: 9, offset: 60067},
+								pos: position{line: 1867, col: 9, offset: 60373},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1857, col: 9, offset: 60067},
+										pos:  position{line: 1867, col: 9, offset: 60373},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1858, col: 11, offset: 60094},
+										pos:  position{line: 1868, col: 11, offset: 60400},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1859, col: 11, offset: 60122},
+										pos:  position{line: 1869, col: 11, offset: 60428},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1860, col: 11, offset: 60153},
+										pos:  position{line: 1870, col: 11, offset: 60459},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1861, col: 11, offset: 60181},
+										pos:  position{line: 1871, col: 11, offset: 60487},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1862, col: 11, offset: 60212},
+										pos:  position{line: 1872, col: 11, offset: 60518},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -43833,36 +43940,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1867, col: 1, offset: 60332},
+			pos:  position{line: 1877, col: 1, offset: 60638},
 			expr: &actionExpr{
-				pos: position{line: 1868, col: 5, offset: 60374},
+				pos: position{line: 1878, col: 5, offset: 60680},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1868, col: 5, offset: 60374},
+					pos: position{line: 1878, col: 5, offset: 60680},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1868, col: 5, offset: 60374},
+							pos:   position{line: 1878, col: 5, offset: 60680},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1868, col: 16, offset: 60385},
+								pos: position{line: 1878, col: 16, offset: 60691},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1868, col: 17, offset: 60386},
+									pos:  position{line: 1878, col: 17, offset: 60692},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1869, col: 5, offset: 60411},
+							pos:   position{line: 1879, col: 5, offset: 60717},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1869, col: 14, offset: 60420},
+								pos: position{line: 1879, col: 14, offset: 60726},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1869, col: 14, offset: 60420},
+										pos:  position{line: 1879, col: 14, offset: 60726},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1869, col: 33, offset: 60439},
+										pos:  position{line: 1879, col: 33, offset: 60745},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -43874,32 +43981,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1877, col: 1, offset: 60670},
+			pos:  position{line: 1887, col: 1, offset: 60976},
 			expr: &choiceExpr{
-				pos: position{line: 1878, col: 5, offset: 60695},
+				pos: position{line: 1888, col: 5, offset: 61001},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1878, col: 5, offset: 60695},
+						pos:  position{line: 1888, col: 5, offset: 61001},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60722},
+						pos:  position{line: 1889, col: 7, offset: 61028},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1880, col: 7, offset: 60750},
+						pos:  position{line: 1890, col: 7, offset: 61056},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1881, col: 7, offset: 60782},
+						pos:  position{line: 1891, col: 7, offset: 61088},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1882, col: 7, offset: 60810},
+						pos:  position{line: 1892, col: 7, offset: 61116},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1883, col: 7, offset: 60831},
+						pos:  position{line: 1893, col: 7, offset: 61137},
 						name: "SuperscriptText",
 					},
 				},
@@ -43907,24 +44014,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1885, col: 1, offset: 60849},
+			pos:  position{line: 1895, col: 1, offset: 61155},
 			expr: &choiceExpr{
-				pos: position{line: 1886, col: 5, offset: 60874},
+				pos: position{line: 1896, col: 5, offset: 61180},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1886, col: 5, offset: 60874},
+						pos:  position{line: 1896, col: 5, offset: 61180},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1887, col: 7, offset: 60900},
+						pos:  position{line: 1897, col: 7, offset: 61206},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1888, col: 7, offset: 60928},
+						pos:  position{line: 1898, col: 7, offset: 61234},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1889, col: 7, offset: 60959},
+						pos:  position{line: 1899, col: 7, offset: 61265},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -43932,35 +44039,35 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1903, col: 1, offset: 61313},
+			pos:  position{line: 1913, col: 1, offset: 61619},
 			expr: &choiceExpr{
-				pos: position{line: 1904, col: 5, offset: 61339},
+				pos: position{line: 1914, col: 5, offset: 61645},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2836, col: 5, offset: 90313},
+						pos: position{line: 2846, col: 5, offset: 90619},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2836, col: 5, offset: 90313},
+							pos: position{line: 2846, col: 5, offset: 90619},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2836, col: 5, offset: 90313},
+									pos: position{line: 2846, col: 5, offset: 90619},
 									expr: &seqExpr{
-										pos: position{line: 2837, col: 9, offset: 90324},
+										pos: position{line: 2847, col: 9, offset: 90630},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2837, col: 9, offset: 90324},
+												pos: position{line: 2847, col: 9, offset: 90630},
 												run: (*parser).callonQuotedTextElement6,
 											},
 											&labeledExpr{
-												pos:   position{line: 2840, col: 9, offset: 90387},
+												pos:   position{line: 2850, col: 9, offset: 90693},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2812, col: 18, offset: 89699},
+													pos: position{line: 2822, col: 18, offset: 90005},
 													run: (*parser).callonQuotedTextElement8,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2812, col: 19, offset: 89700},
+														pos: position{line: 2822, col: 19, offset: 90006},
 														expr: &charClassMatcher{
-															pos:        position{line: 2812, col: 19, offset: 89700},
+															pos:        position{line: 2822, col: 19, offset: 90006},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43971,28 +44078,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2840, col: 30, offset: 90408},
+												pos:        position{line: 2850, col: 30, offset: 90714},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2841, col: 9, offset: 90495},
+												pos: position{line: 2851, col: 9, offset: 90801},
 												run: (*parser).callonQuotedTextElement12,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2845, col: 5, offset: 90607},
+									pos:   position{line: 2855, col: 5, offset: 90913},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 11, offset: 90613},
+										pos: position{line: 2855, col: 11, offset: 90919},
 										run: (*parser).callonQuotedTextElement14,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2845, col: 11, offset: 90613},
+											pos: position{line: 2855, col: 11, offset: 90919},
 											expr: &charClassMatcher{
-												pos:        position{line: 2845, col: 11, offset: 90613},
+												pos:        position{line: 2855, col: 11, offset: 90919},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44002,32 +44109,32 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2848, col: 5, offset: 90671},
+									pos: position{line: 2858, col: 5, offset: 90977},
 									expr: &seqExpr{
-										pos: position{line: 2849, col: 9, offset: 90682},
+										pos: position{line: 2859, col: 9, offset: 90988},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2849, col: 9, offset: 90682},
+												pos:        position{line: 2859, col: 9, offset: 90988},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2850, col: 9, offset: 90731},
+												pos: position{line: 2860, col: 9, offset: 91037},
 												run: (*parser).callonQuotedTextElement20,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2854, col: 5, offset: 90811},
+									pos: position{line: 2864, col: 5, offset: 91117},
 									expr: &seqExpr{
-										pos: position{line: 2855, col: 9, offset: 90822},
+										pos: position{line: 2865, col: 9, offset: 91128},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2855, col: 9, offset: 90822},
+												pos: position{line: 2865, col: 9, offset: 91128},
 												expr: &charClassMatcher{
-													pos:        position{line: 2855, col: 9, offset: 90822},
+													pos:        position{line: 2865, col: 9, offset: 91128},
 													val:        "[._+-\\pL\\pN]",
 													chars:      []rune{'.', '_', '+', '-'},
 													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44036,13 +44143,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2855, col: 23, offset: 90836},
+												pos:        position{line: 2865, col: 23, offset: 91142},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2855, col: 27, offset: 90840},
+												pos:        position{line: 2865, col: 27, offset: 91146},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44055,12 +44162,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2977, col: 11, offset: 94279},
+						pos: position{line: 2987, col: 11, offset: 94585},
 						run: (*parser).callonQuotedTextElement27,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2977, col: 11, offset: 94279},
+							pos: position{line: 2987, col: 11, offset: 94585},
 							expr: &charClassMatcher{
-								pos:        position{line: 2977, col: 11, offset: 94279},
+								pos:        position{line: 2987, col: 11, offset: 94585},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -44069,29 +44176,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1906, col: 7, offset: 61402},
+						pos:  position{line: 1916, col: 7, offset: 61708},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 5, offset: 82578},
+						pos: position{line: 2568, col: 5, offset: 82884},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 5, offset: 82578},
+							pos: position{line: 2568, col: 5, offset: 82884},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82578},
+									pos: position{line: 2568, col: 5, offset: 82884},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&litMatcher{
-									pos:        position{line: 2561, col: 5, offset: 82649},
+									pos:        position{line: 2571, col: 5, offset: 82955},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2561, col: 10, offset: 82654},
+									pos: position{line: 2571, col: 10, offset: 82960},
 									expr: &charClassMatcher{
-										pos:        position{line: 2561, col: 11, offset: 82655},
+										pos:        position{line: 2571, col: 11, offset: 82961},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44102,29 +44209,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 5, offset: 82841},
+						pos: position{line: 2577, col: 5, offset: 83147},
 						run: (*parser).callonQuotedTextElement37,
 						expr: &seqExpr{
-							pos: position{line: 2567, col: 5, offset: 82841},
+							pos: position{line: 2577, col: 5, offset: 83147},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2567, col: 5, offset: 82841},
+									pos: position{line: 2577, col: 5, offset: 83147},
 									run: (*parser).callonQuotedTextElement39,
 								},
 								&andCodeExpr{
-									pos: position{line: 2570, col: 5, offset: 82912},
+									pos: position{line: 2580, col: 5, offset: 83218},
 									run: (*parser).callonQuotedTextElement40,
 								},
 								&litMatcher{
-									pos:        position{line: 2574, col: 5, offset: 83037},
+									pos:        position{line: 2584, col: 5, offset: 83343},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2574, col: 9, offset: 83041},
+									pos: position{line: 2584, col: 9, offset: 83347},
 									expr: &charClassMatcher{
-										pos:        position{line: 2574, col: 10, offset: 83042},
+										pos:        position{line: 2584, col: 10, offset: 83348},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -44135,27 +44242,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2863, col: 5, offset: 91033},
+						pos: position{line: 2873, col: 5, offset: 91339},
 						run: (*parser).callonQuotedTextElement44,
 						expr: &choiceExpr{
-							pos: position{line: 2864, col: 9, offset: 91043},
+							pos: position{line: 2874, col: 9, offset: 91349},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 91044},
+									pos:        position{line: 2874, col: 10, offset: 91350},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2866, col: 13, offset: 91141},
+									pos: position{line: 2876, col: 13, offset: 91447},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2866, col: 13, offset: 91141},
+											pos: position{line: 2876, col: 13, offset: 91447},
 											run: (*parser).callonQuotedTextElement48,
 										},
 										&litMatcher{
-											pos:        position{line: 2869, col: 13, offset: 91241},
+											pos:        position{line: 2879, col: 13, offset: 91547},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -44163,20 +44270,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2869, col: 19, offset: 91247},
+									pos:        position{line: 2879, col: 19, offset: 91553},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2872, col: 13, offset: 91285},
+									pos: position{line: 2882, col: 13, offset: 91591},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2872, col: 13, offset: 91285},
+											pos: position{line: 2882, col: 13, offset: 91591},
 											run: (*parser).callonQuotedTextElement52,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2875, col: 14, offset: 91378},
+											pos:        position{line: 2885, col: 14, offset: 91684},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -44185,18 +44292,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2877, col: 12, offset: 91422},
+									pos: position{line: 2887, col: 12, offset: 91728},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2877, col: 12, offset: 91422},
+											pos:        position{line: 2887, col: 12, offset: 91728},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2877, col: 16, offset: 91426},
+											pos: position{line: 2887, col: 16, offset: 91732},
 											expr: &litMatcher{
-												pos:        position{line: 2877, col: 17, offset: 91427},
+												pos:        position{line: 2887, col: 17, offset: 91733},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -44554,31 +44661,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2986, col: 18, offset: 94489},
+						pos: position{line: 2996, col: 18, offset: 94795},
 						run: (*parser).callonQuotedTextElement127,
 						expr: &seqExpr{
-							pos: position{line: 2986, col: 18, offset: 94489},
+							pos: position{line: 2996, col: 18, offset: 94795},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonQuotedTextElement129,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44587,27 +44694,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2986, col: 26, offset: 94497},
+									pos: position{line: 2996, col: 26, offset: 94803},
 									expr: &actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94389},
+										pos: position{line: 2992, col: 12, offset: 94695},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94390},
+											pos: position{line: 2992, col: 13, offset: 94696},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94390},
+													pos:        position{line: 2992, col: 13, offset: 94696},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94397},
+													pos:        position{line: 2992, col: 20, offset: 94703},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94406},
+													pos:        position{line: 2992, col: 29, offset: 94712},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44620,31 +44727,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1911, col: 7, offset: 61569},
+						pos:  position{line: 1921, col: 7, offset: 61875},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1912, col: 7, offset: 61616},
+						pos:  position{line: 1922, col: 7, offset: 61922},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 5, offset: 81407},
+						pos: position{line: 2537, col: 5, offset: 81713},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 5, offset: 81407},
+							pos: position{line: 2537, col: 5, offset: 81713},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2527, col: 5, offset: 81407},
+									pos: position{line: 2537, col: 5, offset: 81713},
 									run: (*parser).callonQuotedTextElement144,
 								},
 								&labeledExpr{
-									pos:   position{line: 2530, col: 5, offset: 81483},
+									pos:   position{line: 2540, col: 5, offset: 81789},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2531, col: 9, offset: 81501},
+										pos: position{line: 2541, col: 9, offset: 81807},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &charClassMatcher{
-											pos:        position{line: 2531, col: 10, offset: 81502},
+											pos:        position{line: 2541, col: 10, offset: 81808},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -44695,10 +44802,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2885, col: 12, offset: 91687},
+						pos: position{line: 2895, col: 12, offset: 91993},
 						run: (*parser).callonQuotedTextElement156,
 						expr: &charClassMatcher{
-							pos:        position{line: 2885, col: 12, offset: 91687},
+							pos:        position{line: 2895, col: 12, offset: 91993},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -44710,33 +44817,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1933, col: 1, offset: 62184},
+			pos:  position{line: 1943, col: 1, offset: 62490},
 			expr: &actionExpr{
-				pos: position{line: 1934, col: 5, offset: 62212},
+				pos: position{line: 1944, col: 5, offset: 62518},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1934, col: 5, offset: 62212},
+					pos: position{line: 1944, col: 5, offset: 62518},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 1926, col: 38, offset: 62039},
+							pos: position{line: 1936, col: 38, offset: 62345},
 							run: (*parser).callonDoubleQuoteBoldText3,
 							expr: &litMatcher{
-								pos:        position{line: 1926, col: 38, offset: 62039},
+								pos:        position{line: 1936, col: 38, offset: 62345},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62251},
+							pos:   position{line: 1945, col: 5, offset: 62557},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1935, col: 15, offset: 62261},
+								pos:  position{line: 1945, col: 15, offset: 62567},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1931, col: 36, offset: 62178},
+							pos:        position{line: 1941, col: 36, offset: 62484},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -44747,44 +44854,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1940, col: 1, offset: 62421},
+			pos:  position{line: 1950, col: 1, offset: 62727},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1940, col: 32, offset: 62452},
+				pos: position{line: 1950, col: 32, offset: 62758},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1940, col: 32, offset: 62452},
+					pos:  position{line: 1950, col: 32, offset: 62758},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1942, col: 1, offset: 62483},
+			pos:  position{line: 1952, col: 1, offset: 62789},
 			expr: &actionExpr{
-				pos: position{line: 1943, col: 5, offset: 62518},
+				pos: position{line: 1953, col: 5, offset: 62824},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1943, col: 5, offset: 62518},
+					pos: position{line: 1953, col: 5, offset: 62824},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62529},
+							pos: position{line: 1954, col: 5, offset: 62835},
 							expr: &litMatcher{
-								pos:        position{line: 1931, col: 36, offset: 62178},
+								pos:        position{line: 1941, col: 36, offset: 62484},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62566},
+							pos:   position{line: 1955, col: 5, offset: 62872},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1945, col: 14, offset: 62575},
+								pos:  position{line: 1955, col: 14, offset: 62881},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44794,29 +44901,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1970, col: 1, offset: 63255},
+			pos:  position{line: 1980, col: 1, offset: 63561},
 			expr: &actionExpr{
-				pos: position{line: 1971, col: 5, offset: 63283},
+				pos: position{line: 1981, col: 5, offset: 63589},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1971, col: 5, offset: 63283},
+					pos: position{line: 1981, col: 5, offset: 63589},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1954, col: 5, offset: 62809},
+							pos:        position{line: 1964, col: 5, offset: 63115},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1955, col: 5, offset: 62818},
+							pos: position{line: 1965, col: 5, offset: 63124},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1959, col: 5, offset: 62936},
+							pos: position{line: 1969, col: 5, offset: 63242},
 							expr: &notExpr{
-								pos: position{line: 1959, col: 7, offset: 62938},
+								pos: position{line: 1969, col: 7, offset: 63244},
 								expr: &litMatcher{
-									pos:        position{line: 1959, col: 8, offset: 62939},
+									pos:        position{line: 1969, col: 8, offset: 63245},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -44824,38 +44931,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1972, col: 5, offset: 63321},
+							pos:   position{line: 1982, col: 5, offset: 63627},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1972, col: 15, offset: 63331},
+								pos:  position{line: 1982, col: 15, offset: 63637},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1962, col: 5, offset: 63059},
+							pos:        position{line: 1972, col: 5, offset: 63365},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1963, col: 5, offset: 63068},
+							pos: position{line: 1973, col: 5, offset: 63374},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 6, offset: 63069},
+								pos:        position{line: 1973, col: 6, offset: 63375},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1964, col: 5, offset: 63132},
+							pos: position{line: 1974, col: 5, offset: 63438},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1968, col: 5, offset: 63241},
+							pos: position{line: 1978, col: 5, offset: 63547},
 							expr: &notExpr{
-								pos: position{line: 1968, col: 7, offset: 63243},
+								pos: position{line: 1978, col: 7, offset: 63549},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90166},
+									pos:        position{line: 2837, col: 13, offset: 90472},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -44869,17 +44976,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1977, col: 1, offset: 63491},
+			pos:  position{line: 1987, col: 1, offset: 63797},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63528},
+				pos: position{line: 1988, col: 5, offset: 63834},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63528},
+					pos: position{line: 1988, col: 5, offset: 63834},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1978, col: 5, offset: 63528},
+							pos: position{line: 1988, col: 5, offset: 63834},
 							expr: &charClassMatcher{
-								pos:        position{line: 1978, col: 6, offset: 63529},
+								pos:        position{line: 1988, col: 6, offset: 63835},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -44887,18 +44994,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63571},
+							pos:   position{line: 1989, col: 5, offset: 63877},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1979, col: 14, offset: 63580},
+								pos: position{line: 1989, col: 14, offset: 63886},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1979, col: 15, offset: 63581},
+									pos:  position{line: 1989, col: 15, offset: 63887},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1980, col: 5, offset: 63615},
+							pos: position{line: 1990, col: 5, offset: 63921},
 							run: (*parser).callonSingleQuoteBoldTextElements8,
 						},
 					},
@@ -44907,49 +45014,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1986, col: 1, offset: 63756},
+			pos:  position{line: 1996, col: 1, offset: 64062},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 63791},
+				pos: position{line: 1997, col: 5, offset: 64097},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 63791},
+					pos: position{line: 1997, col: 5, offset: 64097},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1988, col: 5, offset: 63819},
+							pos: position{line: 1998, col: 5, offset: 64125},
 							expr: &seqExpr{
-								pos: position{line: 1962, col: 5, offset: 63059},
+								pos: position{line: 1972, col: 5, offset: 63365},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1962, col: 5, offset: 63059},
+										pos:        position{line: 1972, col: 5, offset: 63365},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1963, col: 5, offset: 63068},
+										pos: position{line: 1973, col: 5, offset: 63374},
 										expr: &litMatcher{
-											pos:        position{line: 1963, col: 6, offset: 63069},
+											pos:        position{line: 1973, col: 6, offset: 63375},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1964, col: 5, offset: 63132},
+										pos: position{line: 1974, col: 5, offset: 63438},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1968, col: 5, offset: 63241},
+										pos: position{line: 1978, col: 5, offset: 63547},
 										expr: &notExpr{
-											pos: position{line: 1968, col: 7, offset: 63243},
+											pos: position{line: 1978, col: 7, offset: 63549},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90166},
+												pos:        position{line: 2837, col: 13, offset: 90472},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44961,10 +45068,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 63856},
+							pos:   position{line: 1999, col: 5, offset: 64162},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1989, col: 14, offset: 63865},
+								pos:  position{line: 1999, col: 14, offset: 64171},
 								name: "QuotedTextElement",
 							},
 						},
@@ -44974,35 +45081,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1994, col: 1, offset: 63953},
+			pos:  position{line: 2004, col: 1, offset: 64259},
 			expr: &choiceExpr{
-				pos: position{line: 1996, col: 5, offset: 64014},
+				pos: position{line: 2006, col: 5, offset: 64320},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1996, col: 5, offset: 64014},
+						pos: position{line: 2006, col: 5, offset: 64320},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1996, col: 5, offset: 64014},
+							pos: position{line: 2006, col: 5, offset: 64320},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1996, col: 5, offset: 64014},
+									pos:   position{line: 2006, col: 5, offset: 64320},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1899, col: 25, offset: 61259},
+										pos: position{line: 1909, col: 25, offset: 61565},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1899, col: 25, offset: 61259},
+											pos: position{line: 1909, col: 25, offset: 61565},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1899, col: 25, offset: 61259},
+													pos:        position{line: 1909, col: 25, offset: 61565},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1899, col: 30, offset: 61264},
+													pos: position{line: 1909, col: 30, offset: 61570},
 													expr: &litMatcher{
-														pos:        position{line: 1899, col: 30, offset: 61264},
+														pos:        position{line: 1909, col: 30, offset: 61570},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45013,25 +45120,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1926, col: 38, offset: 62039},
+									pos: position{line: 1936, col: 38, offset: 62345},
 									run: (*parser).callonEscapedBoldText10,
 									expr: &litMatcher{
-										pos:        position{line: 1926, col: 38, offset: 62039},
+										pos:        position{line: 1936, col: 38, offset: 62345},
 										val:        "**",
 										ignoreCase: false,
 										want:       "\"**\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1996, col: 74, offset: 64083},
+									pos:   position{line: 2006, col: 74, offset: 64389},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1996, col: 84, offset: 64093},
+										pos:  position{line: 2006, col: 84, offset: 64399},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1996, col: 113, offset: 64122},
+									pos:        position{line: 2006, col: 113, offset: 64428},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -45040,21 +45147,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2000, col: 7, offset: 64282},
+						pos: position{line: 2010, col: 7, offset: 64588},
 						run: (*parser).callonEscapedBoldText15,
 						expr: &seqExpr{
-							pos: position{line: 2000, col: 7, offset: 64282},
+							pos: position{line: 2010, col: 7, offset: 64588},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2000, col: 7, offset: 64282},
+									pos:   position{line: 2010, col: 7, offset: 64588},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedBoldText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45063,21 +45170,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2000, col: 42, offset: 64317},
+									pos:        position{line: 2010, col: 42, offset: 64623},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2000, col: 47, offset: 64322},
+									pos:   position{line: 2010, col: 47, offset: 64628},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2000, col: 57, offset: 64332},
+										pos:  position{line: 2010, col: 57, offset: 64638},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2000, col: 86, offset: 64361},
+									pos:        position{line: 2010, col: 86, offset: 64667},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45086,21 +45193,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2005, col: 7, offset: 64559},
+						pos: position{line: 2015, col: 7, offset: 64865},
 						run: (*parser).callonEscapedBoldText25,
 						expr: &seqExpr{
-							pos: position{line: 2005, col: 7, offset: 64559},
+							pos: position{line: 2015, col: 7, offset: 64865},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2005, col: 7, offset: 64559},
+									pos:   position{line: 2015, col: 7, offset: 64865},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedBoldText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45109,21 +45216,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2005, col: 42, offset: 64594},
+									pos:        position{line: 2015, col: 42, offset: 64900},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2005, col: 46, offset: 64598},
+									pos:   position{line: 2015, col: 46, offset: 64904},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2005, col: 56, offset: 64608},
+										pos:  position{line: 2015, col: 56, offset: 64914},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2005, col: 85, offset: 64637},
+									pos:        position{line: 2015, col: 85, offset: 64943},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -45136,33 +45243,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 2025, col: 1, offset: 65211},
+			pos:  position{line: 2035, col: 1, offset: 65517},
 			expr: &actionExpr{
-				pos: position{line: 2026, col: 5, offset: 65241},
+				pos: position{line: 2036, col: 5, offset: 65547},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2026, col: 5, offset: 65241},
+					pos: position{line: 2036, col: 5, offset: 65547},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2018, col: 40, offset: 65064},
+							pos: position{line: 2028, col: 40, offset: 65370},
 							run: (*parser).callonDoubleQuoteItalicText3,
 							expr: &litMatcher{
-								pos:        position{line: 2018, col: 40, offset: 65064},
+								pos:        position{line: 2028, col: 40, offset: 65370},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2027, col: 5, offset: 65282},
+							pos:   position{line: 2037, col: 5, offset: 65588},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2027, col: 15, offset: 65292},
+								pos:  position{line: 2037, col: 15, offset: 65598},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2023, col: 38, offset: 65205},
+							pos:        position{line: 2033, col: 38, offset: 65511},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -45173,44 +45280,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 2032, col: 1, offset: 65457},
+			pos:  position{line: 2042, col: 1, offset: 65763},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2032, col: 34, offset: 65490},
+				pos: position{line: 2042, col: 34, offset: 65796},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2032, col: 34, offset: 65490},
+					pos:  position{line: 2042, col: 34, offset: 65796},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2034, col: 1, offset: 65522},
+			pos:  position{line: 2044, col: 1, offset: 65828},
 			expr: &actionExpr{
-				pos: position{line: 2035, col: 5, offset: 65559},
+				pos: position{line: 2045, col: 5, offset: 65865},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2035, col: 5, offset: 65559},
+					pos: position{line: 2045, col: 5, offset: 65865},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2036, col: 5, offset: 65570},
+							pos: position{line: 2046, col: 5, offset: 65876},
 							expr: &litMatcher{
-								pos:        position{line: 2023, col: 38, offset: 65205},
+								pos:        position{line: 2033, col: 38, offset: 65511},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2037, col: 5, offset: 65609},
+							pos:   position{line: 2047, col: 5, offset: 65915},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2037, col: 14, offset: 65618},
+								pos:  position{line: 2047, col: 14, offset: 65924},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45220,29 +45327,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2063, col: 1, offset: 66302},
+			pos:  position{line: 2073, col: 1, offset: 66608},
 			expr: &actionExpr{
-				pos: position{line: 2064, col: 5, offset: 66332},
+				pos: position{line: 2074, col: 5, offset: 66638},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2064, col: 5, offset: 66332},
+					pos: position{line: 2074, col: 5, offset: 66638},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2046, col: 5, offset: 65860},
+							pos:        position{line: 2056, col: 5, offset: 66166},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2047, col: 5, offset: 65869},
+							pos: position{line: 2057, col: 5, offset: 66175},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2051, col: 5, offset: 65989},
+							pos: position{line: 2061, col: 5, offset: 66295},
 							expr: &notExpr{
-								pos: position{line: 2051, col: 7, offset: 65991},
+								pos: position{line: 2061, col: 7, offset: 66297},
 								expr: &litMatcher{
-									pos:        position{line: 2051, col: 8, offset: 65992},
+									pos:        position{line: 2061, col: 8, offset: 66298},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45250,38 +45357,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2065, col: 5, offset: 66372},
+							pos:   position{line: 2075, col: 5, offset: 66678},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2065, col: 15, offset: 66382},
+								pos:  position{line: 2075, col: 15, offset: 66688},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2055, col: 5, offset: 66102},
+							pos:        position{line: 2065, col: 5, offset: 66408},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2056, col: 5, offset: 66111},
+							pos: position{line: 2066, col: 5, offset: 66417},
 							expr: &litMatcher{
-								pos:        position{line: 2056, col: 6, offset: 66112},
+								pos:        position{line: 2066, col: 6, offset: 66418},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2057, col: 5, offset: 66177},
+							pos: position{line: 2067, col: 5, offset: 66483},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2061, col: 5, offset: 66288},
+							pos: position{line: 2071, col: 5, offset: 66594},
 							expr: &notExpr{
-								pos: position{line: 2061, col: 7, offset: 66290},
+								pos: position{line: 2071, col: 7, offset: 66596},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90166},
+									pos:        position{line: 2837, col: 13, offset: 90472},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -45295,17 +45402,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2070, col: 1, offset: 66549},
+			pos:  position{line: 2080, col: 1, offset: 66855},
 			expr: &actionExpr{
-				pos: position{line: 2071, col: 5, offset: 66587},
+				pos: position{line: 2081, col: 5, offset: 66893},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2071, col: 5, offset: 66587},
+					pos: position{line: 2081, col: 5, offset: 66893},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2071, col: 5, offset: 66587},
+							pos: position{line: 2081, col: 5, offset: 66893},
 							expr: &charClassMatcher{
-								pos:        position{line: 2071, col: 6, offset: 66588},
+								pos:        position{line: 2081, col: 6, offset: 66894},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45313,18 +45420,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2072, col: 5, offset: 66630},
+							pos:   position{line: 2082, col: 5, offset: 66936},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2072, col: 14, offset: 66639},
+								pos: position{line: 2082, col: 14, offset: 66945},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2072, col: 15, offset: 66640},
+									pos:  position{line: 2082, col: 15, offset: 66946},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2073, col: 5, offset: 66675},
+							pos: position{line: 2083, col: 5, offset: 66981},
 							run: (*parser).callonSingleQuoteItalicTextElements8,
 						},
 					},
@@ -45333,49 +45440,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2079, col: 1, offset: 66816},
+			pos:  position{line: 2089, col: 1, offset: 67122},
 			expr: &actionExpr{
-				pos: position{line: 2080, col: 5, offset: 66853},
+				pos: position{line: 2090, col: 5, offset: 67159},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2080, col: 5, offset: 66853},
+					pos: position{line: 2090, col: 5, offset: 67159},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2081, col: 5, offset: 66864},
+							pos: position{line: 2091, col: 5, offset: 67170},
 							expr: &seqExpr{
-								pos: position{line: 2055, col: 5, offset: 66102},
+								pos: position{line: 2065, col: 5, offset: 66408},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2055, col: 5, offset: 66102},
+										pos:        position{line: 2065, col: 5, offset: 66408},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2056, col: 5, offset: 66111},
+										pos: position{line: 2066, col: 5, offset: 66417},
 										expr: &litMatcher{
-											pos:        position{line: 2056, col: 6, offset: 66112},
+											pos:        position{line: 2066, col: 6, offset: 66418},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2057, col: 5, offset: 66177},
+										pos: position{line: 2067, col: 5, offset: 66483},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2061, col: 5, offset: 66288},
+										pos: position{line: 2071, col: 5, offset: 66594},
 										expr: &notExpr{
-											pos: position{line: 2061, col: 7, offset: 66290},
+											pos: position{line: 2071, col: 7, offset: 66596},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90166},
+												pos:        position{line: 2837, col: 13, offset: 90472},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -45387,10 +45494,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2082, col: 5, offset: 66903},
+							pos:   position{line: 2092, col: 5, offset: 67209},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2082, col: 14, offset: 66912},
+								pos:  position{line: 2092, col: 14, offset: 67218},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45400,35 +45507,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2087, col: 1, offset: 67000},
+			pos:  position{line: 2097, col: 1, offset: 67306},
 			expr: &choiceExpr{
-				pos: position{line: 2089, col: 5, offset: 67065},
+				pos: position{line: 2099, col: 5, offset: 67371},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2089, col: 5, offset: 67065},
+						pos: position{line: 2099, col: 5, offset: 67371},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2089, col: 5, offset: 67065},
+							pos: position{line: 2099, col: 5, offset: 67371},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2089, col: 5, offset: 67065},
+									pos:   position{line: 2099, col: 5, offset: 67371},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1899, col: 25, offset: 61259},
+										pos: position{line: 1909, col: 25, offset: 61565},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1899, col: 25, offset: 61259},
+											pos: position{line: 1909, col: 25, offset: 61565},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1899, col: 25, offset: 61259},
+													pos:        position{line: 1909, col: 25, offset: 61565},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1899, col: 30, offset: 61264},
+													pos: position{line: 1909, col: 30, offset: 61570},
 													expr: &litMatcher{
-														pos:        position{line: 1899, col: 30, offset: 61264},
+														pos:        position{line: 1909, col: 30, offset: 61570},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45439,25 +45546,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2018, col: 40, offset: 65064},
+									pos: position{line: 2028, col: 40, offset: 65370},
 									run: (*parser).callonEscapedItalicText10,
 									expr: &litMatcher{
-										pos:        position{line: 2018, col: 40, offset: 65064},
+										pos:        position{line: 2028, col: 40, offset: 65370},
 										val:        "__",
 										ignoreCase: false,
 										want:       "\"__\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2089, col: 76, offset: 67136},
+									pos:   position{line: 2099, col: 76, offset: 67442},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2089, col: 86, offset: 67146},
+										pos:  position{line: 2099, col: 86, offset: 67452},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2089, col: 117, offset: 67177},
+									pos:        position{line: 2099, col: 117, offset: 67483},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -45466,21 +45573,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2093, col: 7, offset: 67338},
+						pos: position{line: 2103, col: 7, offset: 67644},
 						run: (*parser).callonEscapedItalicText15,
 						expr: &seqExpr{
-							pos: position{line: 2093, col: 7, offset: 67338},
+							pos: position{line: 2103, col: 7, offset: 67644},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2093, col: 7, offset: 67338},
+									pos:   position{line: 2103, col: 7, offset: 67644},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedItalicText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45489,21 +45596,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2093, col: 42, offset: 67373},
+									pos:        position{line: 2103, col: 42, offset: 67679},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2093, col: 47, offset: 67378},
+									pos:   position{line: 2103, col: 47, offset: 67684},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2093, col: 57, offset: 67388},
+										pos:  position{line: 2103, col: 57, offset: 67694},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2093, col: 88, offset: 67419},
+									pos:        position{line: 2103, col: 88, offset: 67725},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45512,21 +45619,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2098, col: 7, offset: 67656},
+						pos: position{line: 2108, col: 7, offset: 67962},
 						run: (*parser).callonEscapedItalicText25,
 						expr: &seqExpr{
-							pos: position{line: 2098, col: 7, offset: 67656},
+							pos: position{line: 2108, col: 7, offset: 67962},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2098, col: 7, offset: 67656},
+									pos:   position{line: 2108, col: 7, offset: 67962},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedItalicText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45535,21 +45642,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2098, col: 42, offset: 67691},
+									pos:        position{line: 2108, col: 42, offset: 67997},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2098, col: 46, offset: 67695},
+									pos:   position{line: 2108, col: 46, offset: 68001},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2098, col: 56, offset: 67705},
+										pos:  position{line: 2108, col: 56, offset: 68011},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2098, col: 87, offset: 67736},
+									pos:        position{line: 2108, col: 87, offset: 68042},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -45562,33 +45669,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2118, col: 1, offset: 68394},
+			pos:  position{line: 2128, col: 1, offset: 68700},
 			expr: &actionExpr{
-				pos: position{line: 2119, col: 5, offset: 68427},
+				pos: position{line: 2129, col: 5, offset: 68733},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2119, col: 5, offset: 68427},
+					pos: position{line: 2129, col: 5, offset: 68733},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2111, col: 43, offset: 68244},
+							pos: position{line: 2121, col: 43, offset: 68550},
 							run: (*parser).callonDoubleQuoteMonospaceText3,
 							expr: &litMatcher{
-								pos:        position{line: 2111, col: 43, offset: 68244},
+								pos:        position{line: 2121, col: 43, offset: 68550},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68471},
+							pos:   position{line: 2130, col: 5, offset: 68777},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 15, offset: 68481},
+								pos:  position{line: 2130, col: 15, offset: 68787},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2116, col: 41, offset: 68388},
+							pos:        position{line: 2126, col: 41, offset: 68694},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -45599,44 +45706,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2125, col: 1, offset: 68656},
+			pos:  position{line: 2135, col: 1, offset: 68962},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2125, col: 37, offset: 68692},
+				pos: position{line: 2135, col: 37, offset: 68998},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2125, col: 37, offset: 68692},
+					pos:  position{line: 2135, col: 37, offset: 68998},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2127, col: 1, offset: 68759},
+			pos:  position{line: 2137, col: 1, offset: 69065},
 			expr: &actionExpr{
-				pos: position{line: 2128, col: 5, offset: 68799},
+				pos: position{line: 2138, col: 5, offset: 69105},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2128, col: 5, offset: 68799},
+					pos: position{line: 2138, col: 5, offset: 69105},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2129, col: 5, offset: 68810},
+							pos: position{line: 2139, col: 5, offset: 69116},
 							expr: &litMatcher{
-								pos:        position{line: 2116, col: 41, offset: 68388},
+								pos:        position{line: 2126, col: 41, offset: 68694},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2130, col: 5, offset: 68852},
+							pos:   position{line: 2140, col: 5, offset: 69158},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2130, col: 14, offset: 68861},
+								pos:  position{line: 2140, col: 14, offset: 69167},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45646,33 +45753,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2148, col: 1, offset: 69403},
+			pos:  position{line: 2158, col: 1, offset: 69709},
 			expr: &seqExpr{
-				pos: position{line: 2149, col: 5, offset: 69448},
+				pos: position{line: 2159, col: 5, offset: 69754},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2149, col: 5, offset: 69448},
+						pos: position{line: 2159, col: 5, offset: 69754},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2149, col: 6, offset: 69449},
+							pos:  position{line: 2159, col: 6, offset: 69755},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2150, col: 5, offset: 69468},
+						pos:        position{line: 2160, col: 5, offset: 69774},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2151, col: 5, offset: 69476},
+						pos: position{line: 2161, col: 5, offset: 69782},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2155, col: 5, offset: 69590},
+						pos: position{line: 2165, col: 5, offset: 69896},
 						expr: &notExpr{
-							pos: position{line: 2155, col: 7, offset: 69592},
+							pos: position{line: 2165, col: 7, offset: 69898},
 							expr: &charClassMatcher{
-								pos:        position{line: 2827, col: 13, offset: 90166},
+								pos:        position{line: 2837, col: 13, offset: 90472},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -45685,29 +45792,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2158, col: 1, offset: 69609},
+			pos:  position{line: 2168, col: 1, offset: 69915},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69642},
+				pos: position{line: 2169, col: 5, offset: 69948},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69642},
+					pos: position{line: 2169, col: 5, offset: 69948},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2141, col: 5, offset: 69205},
+							pos:        position{line: 2151, col: 5, offset: 69511},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2142, col: 5, offset: 69214},
+							pos: position{line: 2152, col: 5, offset: 69520},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2146, col: 5, offset: 69337},
+							pos: position{line: 2156, col: 5, offset: 69643},
 							expr: &notExpr{
-								pos: position{line: 2146, col: 7, offset: 69339},
+								pos: position{line: 2156, col: 7, offset: 69645},
 								expr: &litMatcher{
-									pos:        position{line: 2146, col: 8, offset: 69340},
+									pos:        position{line: 2156, col: 8, offset: 69646},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45715,15 +45822,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69686},
+							pos:   position{line: 2170, col: 5, offset: 69992},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 15, offset: 69696},
+								pos:  position{line: 2170, col: 15, offset: 70002},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2161, col: 5, offset: 69735},
+							pos:  position{line: 2171, col: 5, offset: 70041},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -45732,17 +45839,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2165, col: 1, offset: 69872},
+			pos:  position{line: 2175, col: 1, offset: 70178},
 			expr: &actionExpr{
-				pos: position{line: 2166, col: 5, offset: 69913},
+				pos: position{line: 2176, col: 5, offset: 70219},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2166, col: 5, offset: 69913},
+					pos: position{line: 2176, col: 5, offset: 70219},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 69913},
+							pos: position{line: 2176, col: 5, offset: 70219},
 							expr: &charClassMatcher{
-								pos:        position{line: 2166, col: 6, offset: 69914},
+								pos:        position{line: 2176, col: 6, offset: 70220},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -45750,18 +45857,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 69956},
+							pos:   position{line: 2177, col: 5, offset: 70262},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2167, col: 14, offset: 69965},
+								pos: position{line: 2177, col: 14, offset: 70271},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2167, col: 15, offset: 69966},
+									pos:  position{line: 2177, col: 15, offset: 70272},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2168, col: 5, offset: 70004},
+							pos: position{line: 2178, col: 5, offset: 70310},
 							run: (*parser).callonSingleQuoteMonospaceTextElements8,
 						},
 					},
@@ -45770,31 +45877,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2174, col: 1, offset: 70145},
+			pos:  position{line: 2184, col: 1, offset: 70451},
 			expr: &actionExpr{
-				pos: position{line: 2175, col: 5, offset: 70185},
+				pos: position{line: 2185, col: 5, offset: 70491},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2175, col: 5, offset: 70185},
+					pos: position{line: 2185, col: 5, offset: 70491},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2176, col: 5, offset: 70196},
+							pos: position{line: 2186, col: 5, offset: 70502},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2176, col: 6, offset: 70197},
+								pos:  position{line: 2186, col: 6, offset: 70503},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2177, col: 5, offset: 70238},
+							pos:   position{line: 2187, col: 5, offset: 70544},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2177, col: 14, offset: 70247},
+								pos:  position{line: 2187, col: 14, offset: 70553},
 								name: "QuotedTextElement",
 							},
 						},
@@ -45804,35 +45911,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2182, col: 1, offset: 70335},
+			pos:  position{line: 2192, col: 1, offset: 70641},
 			expr: &choiceExpr{
-				pos: position{line: 2184, col: 5, offset: 70406},
+				pos: position{line: 2194, col: 5, offset: 70712},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2184, col: 5, offset: 70406},
+						pos: position{line: 2194, col: 5, offset: 70712},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2184, col: 5, offset: 70406},
+							pos: position{line: 2194, col: 5, offset: 70712},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2184, col: 5, offset: 70406},
+									pos:   position{line: 2194, col: 5, offset: 70712},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1899, col: 25, offset: 61259},
+										pos: position{line: 1909, col: 25, offset: 61565},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1899, col: 25, offset: 61259},
+											pos: position{line: 1909, col: 25, offset: 61565},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1899, col: 25, offset: 61259},
+													pos:        position{line: 1909, col: 25, offset: 61565},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1899, col: 30, offset: 61264},
+													pos: position{line: 1909, col: 30, offset: 61570},
 													expr: &litMatcher{
-														pos:        position{line: 1899, col: 30, offset: 61264},
+														pos:        position{line: 1909, col: 30, offset: 61570},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -45843,25 +45950,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2111, col: 43, offset: 68244},
+									pos: position{line: 2121, col: 43, offset: 68550},
 									run: (*parser).callonEscapedMonospaceText10,
 									expr: &litMatcher{
-										pos:        position{line: 2111, col: 43, offset: 68244},
+										pos:        position{line: 2121, col: 43, offset: 68550},
 										val:        "``",
 										ignoreCase: false,
 										want:       "\"``\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2184, col: 79, offset: 70480},
+									pos:   position{line: 2194, col: 79, offset: 70786},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2184, col: 89, offset: 70490},
+										pos:  position{line: 2194, col: 89, offset: 70796},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2184, col: 123, offset: 70524},
+									pos:        position{line: 2194, col: 123, offset: 70830},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -45870,21 +45977,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2188, col: 7, offset: 70689},
+						pos: position{line: 2198, col: 7, offset: 70995},
 						run: (*parser).callonEscapedMonospaceText15,
 						expr: &seqExpr{
-							pos: position{line: 2188, col: 7, offset: 70689},
+							pos: position{line: 2198, col: 7, offset: 70995},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2188, col: 7, offset: 70689},
+									pos:   position{line: 2198, col: 7, offset: 70995},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedMonospaceText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45893,21 +46000,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2188, col: 42, offset: 70724},
+									pos:        position{line: 2198, col: 42, offset: 71030},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2188, col: 47, offset: 70729},
+									pos:   position{line: 2198, col: 47, offset: 71035},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2188, col: 57, offset: 70739},
+										pos:  position{line: 2198, col: 57, offset: 71045},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2188, col: 91, offset: 70773},
+									pos:        position{line: 2198, col: 91, offset: 71079},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45916,21 +46023,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2193, col: 7, offset: 70975},
+						pos: position{line: 2203, col: 7, offset: 71281},
 						run: (*parser).callonEscapedMonospaceText25,
 						expr: &seqExpr{
-							pos: position{line: 2193, col: 7, offset: 70975},
+							pos: position{line: 2203, col: 7, offset: 71281},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2193, col: 7, offset: 70975},
+									pos:   position{line: 2203, col: 7, offset: 71281},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedMonospaceText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -45939,21 +46046,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2193, col: 42, offset: 71010},
+									pos:        position{line: 2203, col: 42, offset: 71316},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2193, col: 46, offset: 71014},
+									pos:   position{line: 2203, col: 46, offset: 71320},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2193, col: 56, offset: 71024},
+										pos:  position{line: 2203, col: 56, offset: 71330},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2193, col: 90, offset: 71058},
+									pos:        position{line: 2203, col: 90, offset: 71364},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -45966,33 +46073,33 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2213, col: 1, offset: 71637},
+			pos:  position{line: 2223, col: 1, offset: 71943},
 			expr: &actionExpr{
-				pos: position{line: 2214, col: 5, offset: 71667},
+				pos: position{line: 2224, col: 5, offset: 71973},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2214, col: 5, offset: 71667},
+					pos: position{line: 2224, col: 5, offset: 71973},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2206, col: 40, offset: 71490},
+							pos: position{line: 2216, col: 40, offset: 71796},
 							run: (*parser).callonDoubleQuoteMarkedText3,
 							expr: &litMatcher{
-								pos:        position{line: 2206, col: 40, offset: 71490},
+								pos:        position{line: 2216, col: 40, offset: 71796},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71708},
+							pos:   position{line: 2225, col: 5, offset: 72014},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 15, offset: 71718},
+								pos:  position{line: 2225, col: 15, offset: 72024},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2211, col: 38, offset: 71631},
+							pos:        position{line: 2221, col: 38, offset: 71937},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -46003,44 +46110,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2220, col: 1, offset: 71884},
+			pos:  position{line: 2230, col: 1, offset: 72190},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2220, col: 34, offset: 71917},
+				pos: position{line: 2230, col: 34, offset: 72223},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2220, col: 34, offset: 71917},
+					pos:  position{line: 2230, col: 34, offset: 72223},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2222, col: 1, offset: 71948},
+			pos:  position{line: 2232, col: 1, offset: 72254},
 			expr: &actionExpr{
-				pos: position{line: 2223, col: 5, offset: 72017},
+				pos: position{line: 2233, col: 5, offset: 72323},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2223, col: 5, offset: 72017},
+					pos: position{line: 2233, col: 5, offset: 72323},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2224, col: 5, offset: 72028},
+							pos: position{line: 2234, col: 5, offset: 72334},
 							expr: &litMatcher{
-								pos:        position{line: 2211, col: 38, offset: 71631},
+								pos:        position{line: 2221, col: 38, offset: 71937},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2225, col: 5, offset: 72067},
+							pos:   position{line: 2235, col: 5, offset: 72373},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2225, col: 14, offset: 72076},
+								pos:  position{line: 2235, col: 14, offset: 72382},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46050,29 +46157,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2250, col: 1, offset: 72758},
+			pos:  position{line: 2260, col: 1, offset: 73064},
 			expr: &actionExpr{
-				pos: position{line: 2251, col: 5, offset: 72788},
+				pos: position{line: 2261, col: 5, offset: 73094},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2251, col: 5, offset: 72788},
+					pos: position{line: 2261, col: 5, offset: 73094},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2234, col: 5, offset: 72324},
+							pos:        position{line: 2244, col: 5, offset: 72630},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2235, col: 5, offset: 72333},
+							pos: position{line: 2245, col: 5, offset: 72639},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2239, col: 5, offset: 72453},
+							pos: position{line: 2249, col: 5, offset: 72759},
 							expr: &notExpr{
-								pos: position{line: 2239, col: 7, offset: 72455},
+								pos: position{line: 2249, col: 7, offset: 72761},
 								expr: &litMatcher{
-									pos:        position{line: 2239, col: 8, offset: 72456},
+									pos:        position{line: 2249, col: 8, offset: 72762},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46080,38 +46187,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2252, col: 5, offset: 72828},
+							pos:   position{line: 2262, col: 5, offset: 73134},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2252, col: 15, offset: 72838},
+								pos:  position{line: 2262, col: 15, offset: 73144},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2242, col: 5, offset: 72561},
+							pos:        position{line: 2252, col: 5, offset: 72867},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2243, col: 5, offset: 72569},
+							pos: position{line: 2253, col: 5, offset: 72875},
 							expr: &litMatcher{
-								pos:        position{line: 2243, col: 6, offset: 72570},
+								pos:        position{line: 2253, col: 6, offset: 72876},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2244, col: 5, offset: 72633},
+							pos: position{line: 2254, col: 5, offset: 72939},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2248, col: 5, offset: 72744},
+							pos: position{line: 2258, col: 5, offset: 73050},
 							expr: &notExpr{
-								pos: position{line: 2248, col: 7, offset: 72746},
+								pos: position{line: 2258, col: 7, offset: 73052},
 								expr: &charClassMatcher{
-									pos:        position{line: 2827, col: 13, offset: 90166},
+									pos:        position{line: 2837, col: 13, offset: 90472},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -46125,17 +46232,17 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2257, col: 1, offset: 73005},
+			pos:  position{line: 2267, col: 1, offset: 73311},
 			expr: &actionExpr{
-				pos: position{line: 2258, col: 5, offset: 73043},
+				pos: position{line: 2268, col: 5, offset: 73349},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2258, col: 5, offset: 73043},
+					pos: position{line: 2268, col: 5, offset: 73349},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2258, col: 5, offset: 73043},
+							pos: position{line: 2268, col: 5, offset: 73349},
 							expr: &charClassMatcher{
-								pos:        position{line: 2258, col: 6, offset: 73044},
+								pos:        position{line: 2268, col: 6, offset: 73350},
 								val:        "[ \\t\\r\\n]",
 								chars:      []rune{' ', '\t', '\r', '\n'},
 								ignoreCase: false,
@@ -46143,18 +46250,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73086},
+							pos:   position{line: 2269, col: 5, offset: 73392},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2259, col: 14, offset: 73095},
+								pos: position{line: 2269, col: 14, offset: 73401},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2259, col: 15, offset: 73096},
+									pos:  position{line: 2269, col: 15, offset: 73402},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2260, col: 5, offset: 73132},
+							pos: position{line: 2270, col: 5, offset: 73438},
 							run: (*parser).callonSingleQuoteMarkedTextElements8,
 						},
 					},
@@ -46163,49 +46270,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2266, col: 1, offset: 73273},
+			pos:  position{line: 2276, col: 1, offset: 73579},
 			expr: &actionExpr{
-				pos: position{line: 2267, col: 5, offset: 73310},
+				pos: position{line: 2277, col: 5, offset: 73616},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2267, col: 5, offset: 73310},
+					pos: position{line: 2277, col: 5, offset: 73616},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2268, col: 5, offset: 73321},
+							pos: position{line: 2278, col: 5, offset: 73627},
 							expr: &seqExpr{
-								pos: position{line: 2242, col: 5, offset: 72561},
+								pos: position{line: 2252, col: 5, offset: 72867},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2242, col: 5, offset: 72561},
+										pos:        position{line: 2252, col: 5, offset: 72867},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2243, col: 5, offset: 72569},
+										pos: position{line: 2253, col: 5, offset: 72875},
 										expr: &litMatcher{
-											pos:        position{line: 2243, col: 6, offset: 72570},
+											pos:        position{line: 2253, col: 6, offset: 72876},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2244, col: 5, offset: 72633},
+										pos: position{line: 2254, col: 5, offset: 72939},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2248, col: 5, offset: 72744},
+										pos: position{line: 2258, col: 5, offset: 73050},
 										expr: &notExpr{
-											pos: position{line: 2248, col: 7, offset: 72746},
+											pos: position{line: 2258, col: 7, offset: 73052},
 											expr: &charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90166},
+												pos:        position{line: 2837, col: 13, offset: 90472},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -46217,10 +46324,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2269, col: 5, offset: 73360},
+							pos:   position{line: 2279, col: 5, offset: 73666},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2269, col: 14, offset: 73369},
+								pos:  position{line: 2279, col: 14, offset: 73675},
 								name: "QuotedTextElement",
 							},
 						},
@@ -46230,35 +46337,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2274, col: 1, offset: 73457},
+			pos:  position{line: 2284, col: 1, offset: 73763},
 			expr: &choiceExpr{
-				pos: position{line: 2276, col: 5, offset: 73521},
+				pos: position{line: 2286, col: 5, offset: 73827},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2276, col: 5, offset: 73521},
+						pos: position{line: 2286, col: 5, offset: 73827},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2276, col: 5, offset: 73521},
+							pos: position{line: 2286, col: 5, offset: 73827},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2276, col: 5, offset: 73521},
+									pos:   position{line: 2286, col: 5, offset: 73827},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1899, col: 25, offset: 61259},
+										pos: position{line: 1909, col: 25, offset: 61565},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1899, col: 25, offset: 61259},
+											pos: position{line: 1909, col: 25, offset: 61565},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1899, col: 25, offset: 61259},
+													pos:        position{line: 1909, col: 25, offset: 61565},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1899, col: 30, offset: 61264},
+													pos: position{line: 1909, col: 30, offset: 61570},
 													expr: &litMatcher{
-														pos:        position{line: 1899, col: 30, offset: 61264},
+														pos:        position{line: 1909, col: 30, offset: 61570},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -46269,25 +46376,25 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2206, col: 40, offset: 71490},
+									pos: position{line: 2216, col: 40, offset: 71796},
 									run: (*parser).callonEscapedMarkedText10,
 									expr: &litMatcher{
-										pos:        position{line: 2206, col: 40, offset: 71490},
+										pos:        position{line: 2216, col: 40, offset: 71796},
 										val:        "##",
 										ignoreCase: false,
 										want:       "\"##\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2276, col: 76, offset: 73592},
+									pos:   position{line: 2286, col: 76, offset: 73898},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2276, col: 86, offset: 73602},
+										pos:  position{line: 2286, col: 86, offset: 73908},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2276, col: 117, offset: 73633},
+									pos:        position{line: 2286, col: 117, offset: 73939},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -46296,21 +46403,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2280, col: 7, offset: 73794},
+						pos: position{line: 2290, col: 7, offset: 74100},
 						run: (*parser).callonEscapedMarkedText15,
 						expr: &seqExpr{
-							pos: position{line: 2280, col: 7, offset: 73794},
+							pos: position{line: 2290, col: 7, offset: 74100},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2280, col: 7, offset: 73794},
+									pos:   position{line: 2290, col: 7, offset: 74100},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedMarkedText18,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46319,21 +46426,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2280, col: 42, offset: 73829},
+									pos:        position{line: 2290, col: 42, offset: 74135},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2280, col: 47, offset: 73834},
+									pos:   position{line: 2290, col: 47, offset: 74140},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2280, col: 57, offset: 73844},
+										pos:  position{line: 2290, col: 57, offset: 74150},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2280, col: 88, offset: 73875},
+									pos:        position{line: 2290, col: 88, offset: 74181},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46342,21 +46449,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2285, col: 7, offset: 74074},
+						pos: position{line: 2295, col: 7, offset: 74380},
 						run: (*parser).callonEscapedMarkedText25,
 						expr: &seqExpr{
-							pos: position{line: 2285, col: 7, offset: 74074},
+							pos: position{line: 2295, col: 7, offset: 74380},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2285, col: 7, offset: 74074},
+									pos:   position{line: 2295, col: 7, offset: 74380},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1895, col: 25, offset: 61186},
+										pos: position{line: 1905, col: 25, offset: 61492},
 										run: (*parser).callonEscapedMarkedText28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1895, col: 25, offset: 61186},
+											pos: position{line: 1905, col: 25, offset: 61492},
 											expr: &litMatcher{
-												pos:        position{line: 1895, col: 25, offset: 61186},
+												pos:        position{line: 1905, col: 25, offset: 61492},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -46365,21 +46472,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2285, col: 42, offset: 74109},
+									pos:        position{line: 2295, col: 42, offset: 74415},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2285, col: 46, offset: 74113},
+									pos:   position{line: 2295, col: 46, offset: 74419},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2285, col: 56, offset: 74123},
+										pos:  position{line: 2295, col: 56, offset: 74429},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2285, col: 87, offset: 74154},
+									pos:        position{line: 2295, col: 87, offset: 74460},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -46392,33 +46499,33 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2292, col: 1, offset: 74417},
+			pos:  position{line: 2302, col: 1, offset: 74723},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74439},
+				pos: position{line: 2303, col: 5, offset: 74745},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74439},
+					pos: position{line: 2303, col: 5, offset: 74745},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2301, col: 32, offset: 74695},
+							pos: position{line: 2311, col: 32, offset: 75001},
 							run: (*parser).callonSubscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2301, col: 32, offset: 74695},
+								pos:        position{line: 2311, col: 32, offset: 75001},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2294, col: 5, offset: 74471},
+							pos:   position{line: 2304, col: 5, offset: 74777},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2294, col: 14, offset: 74480},
+								pos:  position{line: 2304, col: 14, offset: 74786},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2299, col: 27, offset: 74659},
+							pos:        position{line: 2309, col: 27, offset: 74965},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46429,43 +46536,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2306, col: 1, offset: 74798},
+			pos:  position{line: 2316, col: 1, offset: 75104},
 			expr: &choiceExpr{
-				pos: position{line: 2306, col: 25, offset: 74822},
+				pos: position{line: 2316, col: 25, offset: 75128},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2306, col: 25, offset: 74822},
+						pos:  position{line: 2316, col: 25, offset: 75128},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2308, col: 21, offset: 74874},
+						pos: position{line: 2318, col: 21, offset: 75180},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2308, col: 21, offset: 74874},
+							pos:   position{line: 2318, col: 21, offset: 75180},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2308, col: 29, offset: 74882},
+								pos: position{line: 2318, col: 29, offset: 75188},
 								expr: &choiceExpr{
-									pos: position{line: 2308, col: 30, offset: 74883},
+									pos: position{line: 2318, col: 30, offset: 75189},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2527, col: 5, offset: 81407},
+												pos: position{line: 2537, col: 5, offset: 81713},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2527, col: 5, offset: 81407},
+														pos: position{line: 2537, col: 5, offset: 81713},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 5, offset: 81483},
+														pos:   position{line: 2540, col: 5, offset: 81789},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2531, col: 9, offset: 81501},
+															pos: position{line: 2541, col: 9, offset: 81807},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2531, col: 10, offset: 81502},
+																pos:        position{line: 2541, col: 10, offset: 81808},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46477,7 +46584,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2308, col: 49, offset: 74902},
+											pos:        position{line: 2318, col: 49, offset: 75208},
 											val:        "[^\\r\\n\\t ~]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '~'},
 											ignoreCase: false,
@@ -46493,23 +46600,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2312, col: 1, offset: 74961},
+			pos:  position{line: 2322, col: 1, offset: 75267},
 			expr: &actionExpr{
-				pos: position{line: 2314, col: 5, offset: 75028},
+				pos: position{line: 2324, col: 5, offset: 75334},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2314, col: 5, offset: 75028},
+					pos: position{line: 2324, col: 5, offset: 75334},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75028},
+							pos:   position{line: 2324, col: 5, offset: 75334},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1895, col: 25, offset: 61186},
+								pos: position{line: 1905, col: 25, offset: 61492},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1895, col: 25, offset: 61186},
+									pos: position{line: 1905, col: 25, offset: 61492},
 									expr: &litMatcher{
-										pos:        position{line: 1895, col: 25, offset: 61186},
+										pos:        position{line: 1905, col: 25, offset: 61492},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46518,25 +46625,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2301, col: 32, offset: 74695},
+							pos: position{line: 2311, col: 32, offset: 75001},
 							run: (*parser).callonEscapedSubscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2301, col: 32, offset: 74695},
+								pos:        position{line: 2311, col: 32, offset: 75001},
 								val:        "~",
 								ignoreCase: false,
 								want:       "\"~\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75101},
+							pos:   position{line: 2326, col: 5, offset: 75407},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2316, col: 14, offset: 75110},
+								pos:  position{line: 2326, col: 14, offset: 75416},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2299, col: 27, offset: 74659},
+							pos:        position{line: 2309, col: 27, offset: 74965},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -46547,33 +46654,33 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2324, col: 1, offset: 75369},
+			pos:  position{line: 2334, col: 1, offset: 75675},
 			expr: &actionExpr{
-				pos: position{line: 2325, col: 5, offset: 75393},
+				pos: position{line: 2335, col: 5, offset: 75699},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2325, col: 5, offset: 75393},
+					pos: position{line: 2335, col: 5, offset: 75699},
 					exprs: []interface{}{
 						&actionExpr{
-							pos: position{line: 2333, col: 34, offset: 75662},
+							pos: position{line: 2343, col: 34, offset: 75968},
 							run: (*parser).callonSuperscriptText3,
 							expr: &litMatcher{
-								pos:        position{line: 2333, col: 34, offset: 75662},
+								pos:        position{line: 2343, col: 34, offset: 75968},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75427},
+							pos:   position{line: 2336, col: 5, offset: 75733},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2326, col: 14, offset: 75436},
+								pos:  position{line: 2336, col: 14, offset: 75742},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2331, col: 29, offset: 75624},
+							pos:        position{line: 2341, col: 29, offset: 75930},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46584,43 +46691,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2338, col: 1, offset: 75765},
+			pos:  position{line: 2348, col: 1, offset: 76071},
 			expr: &choiceExpr{
-				pos: position{line: 2338, col: 27, offset: 75791},
+				pos: position{line: 2348, col: 27, offset: 76097},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2338, col: 27, offset: 75791},
+						pos:  position{line: 2348, col: 27, offset: 76097},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2340, col: 23, offset: 75847},
+						pos: position{line: 2350, col: 23, offset: 76153},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2340, col: 23, offset: 75847},
+							pos:   position{line: 2350, col: 23, offset: 76153},
 							label: "content",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2340, col: 31, offset: 75855},
+								pos: position{line: 2350, col: 31, offset: 76161},
 								expr: &choiceExpr{
-									pos: position{line: 2340, col: 32, offset: 75856},
+									pos: position{line: 2350, col: 32, offset: 76162},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2527, col: 5, offset: 81407},
+												pos: position{line: 2537, col: 5, offset: 81713},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2527, col: 5, offset: 81407},
+														pos: position{line: 2537, col: 5, offset: 81713},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2530, col: 5, offset: 81483},
+														pos:   position{line: 2540, col: 5, offset: 81789},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2531, col: 9, offset: 81501},
+															pos: position{line: 2541, col: 9, offset: 81807},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2531, col: 10, offset: 81502},
+																pos:        position{line: 2541, col: 10, offset: 81808},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -46632,7 +46739,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2340, col: 51, offset: 75875},
+											pos:        position{line: 2350, col: 51, offset: 76181},
 											val:        "[^\\r\\n\\t ^]",
 											chars:      []rune{'\r', '\n', '\t', ' ', '^'},
 											ignoreCase: false,
@@ -46648,23 +46755,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2344, col: 1, offset: 75934},
+			pos:  position{line: 2354, col: 1, offset: 76240},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 76006},
+				pos: position{line: 2356, col: 5, offset: 76312},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 76006},
+					pos: position{line: 2356, col: 5, offset: 76312},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 76006},
+							pos:   position{line: 2356, col: 5, offset: 76312},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1895, col: 25, offset: 61186},
+								pos: position{line: 1905, col: 25, offset: 61492},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1895, col: 25, offset: 61186},
+									pos: position{line: 1905, col: 25, offset: 61492},
 									expr: &litMatcher{
-										pos:        position{line: 1895, col: 25, offset: 61186},
+										pos:        position{line: 1905, col: 25, offset: 61492},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -46673,25 +46780,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2333, col: 34, offset: 75662},
+							pos: position{line: 2343, col: 34, offset: 75968},
 							run: (*parser).callonEscapedSuperscriptText7,
 							expr: &litMatcher{
-								pos:        position{line: 2333, col: 34, offset: 75662},
+								pos:        position{line: 2343, col: 34, offset: 75968},
 								val:        "^",
 								ignoreCase: false,
 								want:       "\"^\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2348, col: 5, offset: 76081},
+							pos:   position{line: 2358, col: 5, offset: 76387},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2348, col: 14, offset: 76090},
+								pos:  position{line: 2358, col: 14, offset: 76396},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2331, col: 29, offset: 75624},
+							pos:        position{line: 2341, col: 29, offset: 75930},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -46702,27 +46809,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2357, col: 1, offset: 76555},
+			pos:  position{line: 2367, col: 1, offset: 76861},
 			expr: &actionExpr{
-				pos: position{line: 2358, col: 5, offset: 76571},
+				pos: position{line: 2368, col: 5, offset: 76877},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2358, col: 5, offset: 76571},
+					pos: position{line: 2368, col: 5, offset: 76877},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2358, col: 5, offset: 76571},
+							pos: position{line: 2368, col: 5, offset: 76877},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2361, col: 5, offset: 76634},
+							pos:   position{line: 2371, col: 5, offset: 76940},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2361, col: 12, offset: 76641},
+								pos: position{line: 2371, col: 12, offset: 76947},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2361, col: 12, offset: 76641},
+									pos: position{line: 2371, col: 12, offset: 76947},
 									expr: &litMatcher{
-										pos:        position{line: 2361, col: 13, offset: 76642},
+										pos:        position{line: 2371, col: 13, offset: 76948},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -46731,16 +46838,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2365, col: 5, offset: 76750},
+							pos: position{line: 2375, col: 5, offset: 77056},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2977, col: 11, offset: 94279},
+							pos: position{line: 2987, col: 11, offset: 94585},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2977, col: 11, offset: 94279},
+								pos: position{line: 2987, col: 11, offset: 94585},
 								expr: &charClassMatcher{
-									pos:        position{line: 2977, col: 11, offset: 94279},
+									pos:        position{line: 2987, col: 11, offset: 94585},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -46749,36 +46856,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2369, col: 12, offset: 76909},
+							pos:   position{line: 2379, col: 12, offset: 77215},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2369, col: 19, offset: 76916},
+								pos:  position{line: 2379, col: 19, offset: 77222},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46787,9 +46894,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -46800,24 +46907,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2373, col: 1, offset: 77012},
+			pos:  position{line: 2383, col: 1, offset: 77318},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 77033},
+				pos: position{line: 2384, col: 5, offset: 77339},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 77033},
+					pos: position{line: 2384, col: 5, offset: 77339},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2374, col: 5, offset: 77033},
+							pos: position{line: 2384, col: 5, offset: 77339},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77177},
+							pos:   position{line: 2390, col: 5, offset: 77483},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2380, col: 14, offset: 77186},
+								pos: position{line: 2390, col: 14, offset: 77492},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2380, col: 15, offset: 77187},
+									pos:  position{line: 2390, col: 15, offset: 77493},
 									name: "SectionTitleElement",
 								},
 							},
@@ -46828,38 +46935,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2384, col: 1, offset: 77268},
+			pos:  position{line: 2394, col: 1, offset: 77574},
 			expr: &actionExpr{
-				pos: position{line: 2385, col: 5, offset: 77295},
+				pos: position{line: 2395, col: 5, offset: 77601},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2385, col: 5, offset: 77295},
+					pos: position{line: 2395, col: 5, offset: 77601},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2385, col: 5, offset: 77295},
+							pos: position{line: 2395, col: 5, offset: 77601},
 							expr: &choiceExpr{
-								pos: position{line: 2995, col: 8, offset: 94616},
+								pos: position{line: 3005, col: 8, offset: 94922},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94389},
+										pos: position{line: 2992, col: 12, offset: 94695},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94390},
+											pos: position{line: 2992, col: 13, offset: 94696},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94390},
+													pos:        position{line: 2992, col: 13, offset: 94696},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94397},
+													pos:        position{line: 2992, col: 20, offset: 94703},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94406},
+													pos:        position{line: 2992, col: 29, offset: 94712},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46868,45 +46975,45 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2992, col: 8, offset: 94566},
+										pos: position{line: 3002, col: 8, offset: 94872},
 										expr: &anyMatcher{
-											line: 2992, col: 9, offset: 94567,
+											line: 3002, col: 9, offset: 94873,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2386, col: 5, offset: 77304},
+							pos:   position{line: 2396, col: 5, offset: 77610},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2387, col: 9, offset: 77322},
+								pos: position{line: 2397, col: 9, offset: 77628},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90313},
+										pos: position{line: 2846, col: 5, offset: 90619},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90313},
+											pos: position{line: 2846, col: 5, offset: 90619},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90313},
+													pos: position{line: 2846, col: 5, offset: 90619},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90324},
+														pos: position{line: 2847, col: 9, offset: 90630},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90324},
+																pos: position{line: 2847, col: 9, offset: 90630},
 																run: (*parser).callonSectionTitleElement18,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90387},
+																pos:   position{line: 2850, col: 9, offset: 90693},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89699},
+																	pos: position{line: 2822, col: 18, offset: 90005},
 																	run: (*parser).callonSectionTitleElement20,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89700},
+																		pos: position{line: 2822, col: 19, offset: 90006},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89700},
+																			pos:        position{line: 2822, col: 19, offset: 90006},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46917,28 +47024,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90408},
+																pos:        position{line: 2850, col: 30, offset: 90714},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90495},
+																pos: position{line: 2851, col: 9, offset: 90801},
 																run: (*parser).callonSectionTitleElement24,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90607},
+													pos:   position{line: 2855, col: 5, offset: 90913},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90613},
+														pos: position{line: 2855, col: 11, offset: 90919},
 														run: (*parser).callonSectionTitleElement26,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90613},
+															pos: position{line: 2855, col: 11, offset: 90919},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90613},
+																pos:        position{line: 2855, col: 11, offset: 90919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46948,32 +47055,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90671},
+													pos: position{line: 2858, col: 5, offset: 90977},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90682},
+														pos: position{line: 2859, col: 9, offset: 90988},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90682},
+																pos:        position{line: 2859, col: 9, offset: 90988},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90731},
+																pos: position{line: 2860, col: 9, offset: 91037},
 																run: (*parser).callonSectionTitleElement32,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90811},
+													pos: position{line: 2864, col: 5, offset: 91117},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90822},
+														pos: position{line: 2865, col: 9, offset: 91128},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90822},
+																pos: position{line: 2865, col: 9, offset: 91128},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90822},
+																	pos:        position{line: 2865, col: 9, offset: 91128},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46982,13 +47089,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90836},
+																pos:        position{line: 2865, col: 23, offset: 91142},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90840},
+																pos:        position{line: 2865, col: 27, offset: 91146},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -47001,12 +47108,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2977, col: 11, offset: 94279},
+										pos: position{line: 2987, col: 11, offset: 94585},
 										run: (*parser).callonSectionTitleElement39,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2977, col: 11, offset: 94279},
+											pos: position{line: 2987, col: 11, offset: 94585},
 											expr: &charClassMatcher{
-												pos:        position{line: 2977, col: 11, offset: 94279},
+												pos:        position{line: 2987, col: 11, offset: 94585},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47015,25 +47122,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82578},
+										pos: position{line: 2568, col: 5, offset: 82884},
 										run: (*parser).callonSectionTitleElement42,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82578},
+											pos: position{line: 2568, col: 5, offset: 82884},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82578},
+													pos: position{line: 2568, col: 5, offset: 82884},
 													run: (*parser).callonSectionTitleElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82649},
+													pos:        position{line: 2571, col: 5, offset: 82955},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82654},
+													pos: position{line: 2571, col: 10, offset: 82960},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82655},
+														pos:        position{line: 2571, col: 11, offset: 82961},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47044,29 +47151,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82841},
+										pos: position{line: 2577, col: 5, offset: 83147},
 										run: (*parser).callonSectionTitleElement48,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82841},
+											pos: position{line: 2577, col: 5, offset: 83147},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82841},
+													pos: position{line: 2577, col: 5, offset: 83147},
 													run: (*parser).callonSectionTitleElement50,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82912},
+													pos: position{line: 2580, col: 5, offset: 83218},
 													run: (*parser).callonSectionTitleElement51,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 83037},
+													pos:        position{line: 2584, col: 5, offset: 83343},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 83041},
+													pos: position{line: 2584, col: 9, offset: 83347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 83042},
+														pos:        position{line: 2584, col: 10, offset: 83348},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -47077,31 +47184,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2390, col: 11, offset: 77387},
+										pos:  position{line: 2400, col: 11, offset: 77693},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 91033},
+										pos: position{line: 2873, col: 5, offset: 91339},
 										run: (*parser).callonSectionTitleElement56,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 91043},
+											pos: position{line: 2874, col: 9, offset: 91349},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 91044},
+													pos:        position{line: 2874, col: 10, offset: 91350},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91141},
+													pos: position{line: 2876, col: 13, offset: 91447},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91141},
+															pos: position{line: 2876, col: 13, offset: 91447},
 															run: (*parser).callonSectionTitleElement60,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91241},
+															pos:        position{line: 2879, col: 13, offset: 91547},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -47109,20 +47216,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91247},
+													pos:        position{line: 2879, col: 19, offset: 91553},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91285},
+													pos: position{line: 2882, col: 13, offset: 91591},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91285},
+															pos: position{line: 2882, col: 13, offset: 91591},
 															run: (*parser).callonSectionTitleElement64,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91378},
+															pos:        position{line: 2885, col: 14, offset: 91684},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -47131,18 +47238,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91422},
+													pos: position{line: 2887, col: 12, offset: 91728},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91422},
+															pos:        position{line: 2887, col: 12, offset: 91728},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91426},
+															pos: position{line: 2887, col: 16, offset: 91732},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91427},
+																pos:        position{line: 2887, col: 17, offset: 91733},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -47154,35 +47261,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2392, col: 11, offset: 77460},
+										pos:  position{line: 2402, col: 11, offset: 77766},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2393, col: 11, offset: 77476},
+										pos:  position{line: 2403, col: 11, offset: 77782},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77504},
+										pos:  position{line: 2404, col: 11, offset: 77810},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81407},
+										pos: position{line: 2537, col: 5, offset: 81713},
 										run: (*parser).callonSectionTitleElement73,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81407},
+													pos: position{line: 2537, col: 5, offset: 81713},
 													run: (*parser).callonSectionTitleElement75,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81483},
+													pos:   position{line: 2540, col: 5, offset: 81789},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81501},
+														pos: position{line: 2541, col: 9, offset: 81807},
 														run: (*parser).callonSectionTitleElement77,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81502},
+															pos:        position{line: 2541, col: 10, offset: 81808},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -47194,7 +47301,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2396, col: 11, offset: 77589},
+										pos:  position{line: 2406, col: 11, offset: 77895},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -47583,17 +47690,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2409, col: 5, offset: 78042},
+										pos: position{line: 2419, col: 5, offset: 78348},
 										run: (*parser).callonSectionTitleElement157,
 										expr: &seqExpr{
-											pos: position{line: 2409, col: 5, offset: 78042},
+											pos: position{line: 2419, col: 5, offset: 78348},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2409, col: 5, offset: 78042},
+													pos: position{line: 2419, col: 5, offset: 78348},
 													run: (*parser).callonSectionTitleElement159,
 												},
 												&labeledExpr{
-													pos:   position{line: 2412, col: 5, offset: 78097},
+													pos:   position{line: 2422, col: 5, offset: 78403},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 405, col: 5, offset: 12349},
@@ -48047,12 +48154,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2412, col: 26, offset: 78118},
+													pos: position{line: 2422, col: 26, offset: 78424},
 													expr: &actionExpr{
-														pos: position{line: 2973, col: 10, offset: 94218},
+														pos: position{line: 2983, col: 10, offset: 94524},
 														run: (*parser).callonSectionTitleElement253,
 														expr: &charClassMatcher{
-															pos:        position{line: 2973, col: 10, offset: 94218},
+															pos:        position{line: 2983, col: 10, offset: 94524},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -48061,30 +48168,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2412, col: 33, offset: 78125},
+													pos: position{line: 2422, col: 33, offset: 78431},
 													expr: &choiceExpr{
-														pos: position{line: 2995, col: 8, offset: 94616},
+														pos: position{line: 3005, col: 8, offset: 94922},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2982, col: 12, offset: 94389},
+																pos: position{line: 2992, col: 12, offset: 94695},
 																run: (*parser).callonSectionTitleElement257,
 																expr: &choiceExpr{
-																	pos: position{line: 2982, col: 13, offset: 94390},
+																	pos: position{line: 2992, col: 13, offset: 94696},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 13, offset: 94390},
+																			pos:        position{line: 2992, col: 13, offset: 94696},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 20, offset: 94397},
+																			pos:        position{line: 2992, col: 20, offset: 94703},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2982, col: 29, offset: 94406},
+																			pos:        position{line: 2992, col: 29, offset: 94712},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -48093,9 +48200,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2992, col: 8, offset: 94566},
+																pos: position{line: 3002, col: 8, offset: 94872},
 																expr: &anyMatcher{
-																	line: 2992, col: 9, offset: 94567,
+																	line: 3002, col: 9, offset: 94873,
 																},
 															},
 														},
@@ -48120,12 +48227,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93870},
+														pos: position{line: 2968, col: 7, offset: 94176},
 														run: (*parser).callonSectionTitleElement268,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93870},
+															pos: position{line: 2968, col: 7, offset: 94176},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93870},
+																pos:        position{line: 2968, col: 7, offset: 94176},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48159,12 +48266,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93870},
+														pos: position{line: 2968, col: 7, offset: 94176},
 														run: (*parser).callonSectionTitleElement276,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93870},
+															pos: position{line: 2968, col: 7, offset: 94176},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93870},
+																pos:        position{line: 2968, col: 7, offset: 94176},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -48183,14 +48290,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2401, col: 11, offset: 77843},
+										pos:  position{line: 2411, col: 11, offset: 78149},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91687},
+										pos: position{line: 2895, col: 12, offset: 91993},
 										run: (*parser).callonSectionTitleElement281,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91687},
+											pos:        position{line: 2895, col: 12, offset: 91993},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -48206,61 +48313,61 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2422, col: 1, offset: 78387},
+			pos:  position{line: 2432, col: 1, offset: 78693},
 			expr: &actionExpr{
-				pos: position{line: 2423, col: 5, offset: 78474},
+				pos: position{line: 2433, col: 5, offset: 78780},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2423, col: 5, offset: 78474},
+					pos: position{line: 2433, col: 5, offset: 78780},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78474},
+							pos:   position{line: 2433, col: 5, offset: 78780},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2423, col: 14, offset: 78483},
+								pos: position{line: 2433, col: 14, offset: 78789},
 								expr: &actionExpr{
-									pos: position{line: 2425, col: 9, offset: 78509},
+									pos: position{line: 2435, col: 9, offset: 78815},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2425, col: 9, offset: 78509},
+										pos: position{line: 2435, col: 9, offset: 78815},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94552},
+												pos: position{line: 3000, col: 11, offset: 94858},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94554,
+													line: 3000, col: 13, offset: 94860,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2426, col: 9, offset: 78524},
+												pos:   position{line: 2436, col: 9, offset: 78830},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2427, col: 13, offset: 78546},
+													pos: position{line: 2437, col: 13, offset: 78852},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2836, col: 5, offset: 90313},
+															pos: position{line: 2846, col: 5, offset: 90619},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2836, col: 5, offset: 90313},
+																pos: position{line: 2846, col: 5, offset: 90619},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2836, col: 5, offset: 90313},
+																		pos: position{line: 2846, col: 5, offset: 90619},
 																		expr: &seqExpr{
-																			pos: position{line: 2837, col: 9, offset: 90324},
+																			pos: position{line: 2847, col: 9, offset: 90630},
 																			exprs: []interface{}{
 																				&andCodeExpr{
-																					pos: position{line: 2837, col: 9, offset: 90324},
+																					pos: position{line: 2847, col: 9, offset: 90630},
 																					run: (*parser).callonNormalGroup15,
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2840, col: 9, offset: 90387},
+																					pos:   position{line: 2850, col: 9, offset: 90693},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2812, col: 18, offset: 89699},
+																						pos: position{line: 2822, col: 18, offset: 90005},
 																						run: (*parser).callonNormalGroup17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2812, col: 19, offset: 89700},
+																							pos: position{line: 2822, col: 19, offset: 90006},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2812, col: 19, offset: 89700},
+																								pos:        position{line: 2822, col: 19, offset: 90006},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48271,28 +48378,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2840, col: 30, offset: 90408},
+																					pos:        position{line: 2850, col: 30, offset: 90714},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2841, col: 9, offset: 90495},
+																					pos: position{line: 2851, col: 9, offset: 90801},
 																					run: (*parser).callonNormalGroup21,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2845, col: 5, offset: 90607},
+																		pos:   position{line: 2855, col: 5, offset: 90913},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90613},
+																			pos: position{line: 2855, col: 11, offset: 90919},
 																			run: (*parser).callonNormalGroup23,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2845, col: 11, offset: 90613},
+																				pos: position{line: 2855, col: 11, offset: 90919},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2845, col: 11, offset: 90613},
+																					pos:        position{line: 2855, col: 11, offset: 90919},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48302,32 +48409,32 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2848, col: 5, offset: 90671},
+																		pos: position{line: 2858, col: 5, offset: 90977},
 																		expr: &seqExpr{
-																			pos: position{line: 2849, col: 9, offset: 90682},
+																			pos: position{line: 2859, col: 9, offset: 90988},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2849, col: 9, offset: 90682},
+																					pos:        position{line: 2859, col: 9, offset: 90988},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2850, col: 9, offset: 90731},
+																					pos: position{line: 2860, col: 9, offset: 91037},
 																					run: (*parser).callonNormalGroup29,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2854, col: 5, offset: 90811},
+																		pos: position{line: 2864, col: 5, offset: 91117},
 																		expr: &seqExpr{
-																			pos: position{line: 2855, col: 9, offset: 90822},
+																			pos: position{line: 2865, col: 9, offset: 91128},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2855, col: 9, offset: 90822},
+																					pos: position{line: 2865, col: 9, offset: 91128},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2855, col: 9, offset: 90822},
+																						pos:        position{line: 2865, col: 9, offset: 91128},
 																						val:        "[._+-\\pL\\pN]",
 																						chars:      []rune{'.', '_', '+', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48336,13 +48443,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2855, col: 23, offset: 90836},
+																					pos:        position{line: 2865, col: 23, offset: 91142},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2855, col: 27, offset: 90840},
+																					pos:        position{line: 2865, col: 27, offset: 91146},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48355,12 +48462,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2977, col: 11, offset: 94279},
+															pos: position{line: 2987, col: 11, offset: 94585},
 															run: (*parser).callonNormalGroup36,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2977, col: 11, offset: 94279},
+																pos: position{line: 2987, col: 11, offset: 94585},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2977, col: 11, offset: 94279},
+																	pos:        position{line: 2987, col: 11, offset: 94585},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -48369,29 +48476,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2429, col: 15, offset: 78592},
+															pos:  position{line: 2439, col: 15, offset: 78898},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2558, col: 5, offset: 82578},
+															pos: position{line: 2568, col: 5, offset: 82884},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2558, col: 5, offset: 82578},
+																pos: position{line: 2568, col: 5, offset: 82884},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2558, col: 5, offset: 82578},
+																		pos: position{line: 2568, col: 5, offset: 82884},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2561, col: 5, offset: 82649},
+																		pos:        position{line: 2571, col: 5, offset: 82955},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2561, col: 10, offset: 82654},
+																		pos: position{line: 2571, col: 10, offset: 82960},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2561, col: 11, offset: 82655},
+																			pos:        position{line: 2571, col: 11, offset: 82961},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48402,29 +48509,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2567, col: 5, offset: 82841},
+															pos: position{line: 2577, col: 5, offset: 83147},
 															run: (*parser).callonNormalGroup46,
 															expr: &seqExpr{
-																pos: position{line: 2567, col: 5, offset: 82841},
+																pos: position{line: 2577, col: 5, offset: 83147},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2567, col: 5, offset: 82841},
+																		pos: position{line: 2577, col: 5, offset: 83147},
 																		run: (*parser).callonNormalGroup48,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2570, col: 5, offset: 82912},
+																		pos: position{line: 2580, col: 5, offset: 83218},
 																		run: (*parser).callonNormalGroup49,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2574, col: 5, offset: 83037},
+																		pos:        position{line: 2584, col: 5, offset: 83343},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2574, col: 9, offset: 83041},
+																		pos: position{line: 2584, col: 9, offset: 83347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2574, col: 10, offset: 83042},
+																			pos:        position{line: 2584, col: 10, offset: 83348},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -48435,27 +48542,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2863, col: 5, offset: 91033},
+															pos: position{line: 2873, col: 5, offset: 91339},
 															run: (*parser).callonNormalGroup53,
 															expr: &choiceExpr{
-																pos: position{line: 2864, col: 9, offset: 91043},
+																pos: position{line: 2874, col: 9, offset: 91349},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 91044},
+																		pos:        position{line: 2874, col: 10, offset: 91350},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2866, col: 13, offset: 91141},
+																		pos: position{line: 2876, col: 13, offset: 91447},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2866, col: 13, offset: 91141},
+																				pos: position{line: 2876, col: 13, offset: 91447},
 																				run: (*parser).callonNormalGroup57,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 91241},
+																				pos:        position{line: 2879, col: 13, offset: 91547},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -48463,20 +48570,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 19, offset: 91247},
+																		pos:        position{line: 2879, col: 19, offset: 91553},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2872, col: 13, offset: 91285},
+																		pos: position{line: 2882, col: 13, offset: 91591},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2872, col: 13, offset: 91285},
+																				pos: position{line: 2882, col: 13, offset: 91591},
 																				run: (*parser).callonNormalGroup61,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2875, col: 14, offset: 91378},
+																				pos:        position{line: 2885, col: 14, offset: 91684},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -48485,18 +48592,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2877, col: 12, offset: 91422},
+																		pos: position{line: 2887, col: 12, offset: 91728},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2877, col: 12, offset: 91422},
+																				pos:        position{line: 2887, col: 12, offset: 91728},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2877, col: 16, offset: 91426},
+																				pos: position{line: 2887, col: 16, offset: 91732},
 																				expr: &litMatcher{
-																					pos:        position{line: 2877, col: 17, offset: 91427},
+																					pos:        position{line: 2887, col: 17, offset: 91733},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -48508,25 +48615,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2982, col: 12, offset: 94389},
+															pos: position{line: 2992, col: 12, offset: 94695},
 															run: (*parser).callonNormalGroup67,
 															expr: &choiceExpr{
-																pos: position{line: 2982, col: 13, offset: 94390},
+																pos: position{line: 2992, col: 13, offset: 94696},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 13, offset: 94390},
+																		pos:        position{line: 2992, col: 13, offset: 94696},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 20, offset: 94397},
+																		pos:        position{line: 2992, col: 20, offset: 94703},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2982, col: 29, offset: 94406},
+																		pos:        position{line: 2992, col: 29, offset: 94712},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -48881,35 +48988,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2434, col: 15, offset: 78759},
+															pos:  position{line: 2444, col: 15, offset: 79065},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2435, col: 15, offset: 78779},
+															pos:  position{line: 2445, col: 15, offset: 79085},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2436, col: 15, offset: 78868},
+															pos:  position{line: 2446, col: 15, offset: 79174},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2527, col: 5, offset: 81407},
+															pos: position{line: 2537, col: 5, offset: 81713},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 2527, col: 5, offset: 81407},
+																pos: position{line: 2537, col: 5, offset: 81713},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2527, col: 5, offset: 81407},
+																		pos: position{line: 2537, col: 5, offset: 81713},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2530, col: 5, offset: 81483},
+																		pos:   position{line: 2540, col: 5, offset: 81789},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2531, col: 9, offset: 81501},
+																			pos: position{line: 2541, col: 9, offset: 81807},
 																			run: (*parser).callonNormalGroup148,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2531, col: 10, offset: 81502},
+																				pos:        position{line: 2541, col: 10, offset: 81808},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -48943,10 +49050,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1242, col: 5, offset: 38460},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonNormalGroup156,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -48957,28 +49064,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1242, col: 12, offset: 38467},
 																		expr: &choiceExpr{
-																			pos: position{line: 2995, col: 8, offset: 94616},
+																			pos: position{line: 3005, col: 8, offset: 94922},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonNormalGroup160,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -48987,9 +49094,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2992, col: 8, offset: 94566},
+																					pos: position{line: 3002, col: 8, offset: 94872},
 																					expr: &anyMatcher{
-																						line: 2992, col: 9, offset: 94567,
+																						line: 3002, col: 9, offset: 94873,
 																					},
 																				},
 																			},
@@ -48999,7 +49106,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2439, col: 15, offset: 79050},
+															pos:  position{line: 2449, col: 15, offset: 79356},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -49042,10 +49149,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91687},
+															pos: position{line: 2895, col: 12, offset: 91993},
 															run: (*parser).callonNormalGroup176,
 															expr: &charClassMatcher{
-																pos:        position{line: 2885, col: 12, offset: 91687},
+																pos:        position{line: 2895, col: 12, offset: 91993},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -49061,9 +49168,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -49072,28 +49179,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2450, col: 1, offset: 79488},
+			pos:  position{line: 2460, col: 1, offset: 79794},
 			expr: &actionExpr{
-				pos: position{line: 2451, col: 5, offset: 79521},
+				pos: position{line: 2461, col: 5, offset: 79827},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2451, col: 5, offset: 79521},
+					pos: position{line: 2461, col: 5, offset: 79827},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2451, col: 5, offset: 79521},
+							pos:   position{line: 2461, col: 5, offset: 79827},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2451, col: 14, offset: 79530},
+								pos: position{line: 2461, col: 14, offset: 79836},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2451, col: 15, offset: 79531},
+									pos:  position{line: 2461, col: 15, offset: 79837},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -49102,50 +49209,50 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2455, col: 1, offset: 79628},
+			pos:  position{line: 2465, col: 1, offset: 79934},
 			expr: &actionExpr{
-				pos: position{line: 2456, col: 5, offset: 79668},
+				pos: position{line: 2466, col: 5, offset: 79974},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2456, col: 5, offset: 79668},
+					pos: position{line: 2466, col: 5, offset: 79974},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2990, col: 11, offset: 94552},
+							pos: position{line: 3000, col: 11, offset: 94858},
 							expr: &anyMatcher{
-								line: 2990, col: 13, offset: 94554,
+								line: 3000, col: 13, offset: 94860,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2457, col: 5, offset: 79679},
+							pos:   position{line: 2467, col: 5, offset: 79985},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2458, col: 9, offset: 79697},
+								pos: position{line: 2468, col: 9, offset: 80003},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2836, col: 5, offset: 90313},
+										pos: position{line: 2846, col: 5, offset: 90619},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 5, offset: 90313},
+											pos: position{line: 2846, col: 5, offset: 90619},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2836, col: 5, offset: 90313},
+													pos: position{line: 2846, col: 5, offset: 90619},
 													expr: &seqExpr{
-														pos: position{line: 2837, col: 9, offset: 90324},
+														pos: position{line: 2847, col: 9, offset: 90630},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 2837, col: 9, offset: 90324},
+																pos: position{line: 2847, col: 9, offset: 90630},
 																run: (*parser).callonAttributeStructuredValueElement11,
 															},
 															&labeledExpr{
-																pos:   position{line: 2840, col: 9, offset: 90387},
+																pos:   position{line: 2850, col: 9, offset: 90693},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2812, col: 18, offset: 89699},
+																	pos: position{line: 2822, col: 18, offset: 90005},
 																	run: (*parser).callonAttributeStructuredValueElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2812, col: 19, offset: 89700},
+																		pos: position{line: 2822, col: 19, offset: 90006},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2812, col: 19, offset: 89700},
+																			pos:        position{line: 2822, col: 19, offset: 90006},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49156,28 +49263,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2840, col: 30, offset: 90408},
+																pos:        position{line: 2850, col: 30, offset: 90714},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2841, col: 9, offset: 90495},
+																pos: position{line: 2851, col: 9, offset: 90801},
 																run: (*parser).callonAttributeStructuredValueElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 5, offset: 90607},
+													pos:   position{line: 2855, col: 5, offset: 90913},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 11, offset: 90613},
+														pos: position{line: 2855, col: 11, offset: 90919},
 														run: (*parser).callonAttributeStructuredValueElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 11, offset: 90613},
+															pos: position{line: 2855, col: 11, offset: 90919},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90613},
+																pos:        position{line: 2855, col: 11, offset: 90919},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49187,32 +49294,32 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2848, col: 5, offset: 90671},
+													pos: position{line: 2858, col: 5, offset: 90977},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 9, offset: 90682},
+														pos: position{line: 2859, col: 9, offset: 90988},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 9, offset: 90682},
+																pos:        position{line: 2859, col: 9, offset: 90988},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2850, col: 9, offset: 90731},
+																pos: position{line: 2860, col: 9, offset: 91037},
 																run: (*parser).callonAttributeStructuredValueElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2854, col: 5, offset: 90811},
+													pos: position{line: 2864, col: 5, offset: 91117},
 													expr: &seqExpr{
-														pos: position{line: 2855, col: 9, offset: 90822},
+														pos: position{line: 2865, col: 9, offset: 91128},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2855, col: 9, offset: 90822},
+																pos: position{line: 2865, col: 9, offset: 91128},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2855, col: 9, offset: 90822},
+																	pos:        position{line: 2865, col: 9, offset: 91128},
 																	val:        "[._+-\\pL\\pN]",
 																	chars:      []rune{'.', '_', '+', '-'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49221,13 +49328,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 23, offset: 90836},
+																pos:        position{line: 2865, col: 23, offset: 91142},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2855, col: 27, offset: 90840},
+																pos:        position{line: 2865, col: 27, offset: 91146},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -49240,10 +49347,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2973, col: 10, offset: 94218},
+										pos: position{line: 2983, col: 10, offset: 94524},
 										run: (*parser).callonAttributeStructuredValueElement32,
 										expr: &charClassMatcher{
-											pos:        position{line: 2973, col: 10, offset: 94218},
+											pos:        position{line: 2983, col: 10, offset: 94524},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -49251,29 +49358,29 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2460, col: 11, offset: 79735},
+										pos:  position{line: 2470, col: 11, offset: 80041},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2558, col: 5, offset: 82578},
+										pos: position{line: 2568, col: 5, offset: 82884},
 										run: (*parser).callonAttributeStructuredValueElement35,
 										expr: &seqExpr{
-											pos: position{line: 2558, col: 5, offset: 82578},
+											pos: position{line: 2568, col: 5, offset: 82884},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2558, col: 5, offset: 82578},
+													pos: position{line: 2568, col: 5, offset: 82884},
 													run: (*parser).callonAttributeStructuredValueElement37,
 												},
 												&litMatcher{
-													pos:        position{line: 2561, col: 5, offset: 82649},
+													pos:        position{line: 2571, col: 5, offset: 82955},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2561, col: 10, offset: 82654},
+													pos: position{line: 2571, col: 10, offset: 82960},
 													expr: &charClassMatcher{
-														pos:        position{line: 2561, col: 11, offset: 82655},
+														pos:        position{line: 2571, col: 11, offset: 82961},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49284,29 +49391,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2567, col: 5, offset: 82841},
+										pos: position{line: 2577, col: 5, offset: 83147},
 										run: (*parser).callonAttributeStructuredValueElement41,
 										expr: &seqExpr{
-											pos: position{line: 2567, col: 5, offset: 82841},
+											pos: position{line: 2577, col: 5, offset: 83147},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2567, col: 5, offset: 82841},
+													pos: position{line: 2577, col: 5, offset: 83147},
 													run: (*parser).callonAttributeStructuredValueElement43,
 												},
 												&andCodeExpr{
-													pos: position{line: 2570, col: 5, offset: 82912},
+													pos: position{line: 2580, col: 5, offset: 83218},
 													run: (*parser).callonAttributeStructuredValueElement44,
 												},
 												&litMatcher{
-													pos:        position{line: 2574, col: 5, offset: 83037},
+													pos:        position{line: 2584, col: 5, offset: 83343},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2574, col: 9, offset: 83041},
+													pos: position{line: 2584, col: 9, offset: 83347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2574, col: 10, offset: 83042},
+														pos:        position{line: 2584, col: 10, offset: 83348},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -49317,27 +49424,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 5, offset: 91033},
+										pos: position{line: 2873, col: 5, offset: 91339},
 										run: (*parser).callonAttributeStructuredValueElement48,
 										expr: &choiceExpr{
-											pos: position{line: 2864, col: 9, offset: 91043},
+											pos: position{line: 2874, col: 9, offset: 91349},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 91044},
+													pos:        position{line: 2874, col: 10, offset: 91350},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2866, col: 13, offset: 91141},
+													pos: position{line: 2876, col: 13, offset: 91447},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2866, col: 13, offset: 91141},
+															pos: position{line: 2876, col: 13, offset: 91447},
 															run: (*parser).callonAttributeStructuredValueElement52,
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 91241},
+															pos:        position{line: 2879, col: 13, offset: 91547},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -49345,20 +49452,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 19, offset: 91247},
+													pos:        position{line: 2879, col: 19, offset: 91553},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91285},
+													pos: position{line: 2882, col: 13, offset: 91591},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2872, col: 13, offset: 91285},
+															pos: position{line: 2882, col: 13, offset: 91591},
 															run: (*parser).callonAttributeStructuredValueElement56,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2875, col: 14, offset: 91378},
+															pos:        position{line: 2885, col: 14, offset: 91684},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -49367,18 +49474,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2877, col: 12, offset: 91422},
+													pos: position{line: 2887, col: 12, offset: 91728},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 12, offset: 91422},
+															pos:        position{line: 2887, col: 12, offset: 91728},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2877, col: 16, offset: 91426},
+															pos: position{line: 2887, col: 16, offset: 91732},
 															expr: &litMatcher{
-																pos:        position{line: 2877, col: 17, offset: 91427},
+																pos:        position{line: 2887, col: 17, offset: 91733},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -49390,31 +49497,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2463, col: 11, offset: 79835},
+										pos:  position{line: 2473, col: 11, offset: 80141},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2464, col: 11, offset: 79851},
+										pos:  position{line: 2474, col: 11, offset: 80157},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2527, col: 5, offset: 81407},
+										pos: position{line: 2537, col: 5, offset: 81713},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &seqExpr{
-											pos: position{line: 2527, col: 5, offset: 81407},
+											pos: position{line: 2537, col: 5, offset: 81713},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81407},
+													pos: position{line: 2537, col: 5, offset: 81713},
 													run: (*parser).callonAttributeStructuredValueElement66,
 												},
 												&labeledExpr{
-													pos:   position{line: 2530, col: 5, offset: 81483},
+													pos:   position{line: 2540, col: 5, offset: 81789},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2531, col: 9, offset: 81501},
+														pos: position{line: 2541, col: 9, offset: 81807},
 														run: (*parser).callonAttributeStructuredValueElement68,
 														expr: &charClassMatcher{
-															pos:        position{line: 2531, col: 10, offset: 81502},
+															pos:        position{line: 2541, col: 10, offset: 81808},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -49465,25 +49572,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2982, col: 12, offset: 94389},
+										pos: position{line: 2992, col: 12, offset: 94695},
 										run: (*parser).callonAttributeStructuredValueElement78,
 										expr: &choiceExpr{
-											pos: position{line: 2982, col: 13, offset: 94390},
+											pos: position{line: 2992, col: 13, offset: 94696},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2982, col: 13, offset: 94390},
+													pos:        position{line: 2992, col: 13, offset: 94696},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 20, offset: 94397},
+													pos:        position{line: 2992, col: 20, offset: 94703},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2982, col: 29, offset: 94406},
+													pos:        position{line: 2992, col: 29, offset: 94712},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -49492,10 +49599,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91687},
+										pos: position{line: 2895, col: 12, offset: 91993},
 										run: (*parser).callonAttributeStructuredValueElement83,
 										expr: &charClassMatcher{
-											pos:        position{line: 2885, col: 12, offset: 91687},
+											pos:        position{line: 2895, col: 12, offset: 91993},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -49511,49 +49618,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2475, col: 1, offset: 80121},
+			pos:  position{line: 2485, col: 1, offset: 80427},
 			expr: &actionExpr{
-				pos: position{line: 2477, col: 5, offset: 80203},
+				pos: position{line: 2487, col: 5, offset: 80509},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2477, col: 5, offset: 80203},
+					pos: position{line: 2487, col: 5, offset: 80509},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2477, col: 5, offset: 80203},
+							pos: position{line: 2487, col: 5, offset: 80509},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2480, col: 5, offset: 80268},
+							pos:   position{line: 2490, col: 5, offset: 80574},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2481, col: 9, offset: 80286},
+								pos: position{line: 2491, col: 9, offset: 80592},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2481, col: 9, offset: 80286},
+										pos:  position{line: 2491, col: 9, offset: 80592},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2482, col: 11, offset: 80307},
+										pos:  position{line: 2492, col: 11, offset: 80613},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2483, col: 11, offset: 80330},
+										pos:  position{line: 2493, col: 11, offset: 80636},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2484, col: 11, offset: 80407},
+										pos:  position{line: 2494, col: 11, offset: 80713},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2485, col: 11, offset: 80423},
+										pos:  position{line: 2495, col: 11, offset: 80729},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2486, col: 11, offset: 80449},
+										pos:  position{line: 2496, col: 11, offset: 80755},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2487, col: 11, offset: 80475},
+										pos:  position{line: 2497, col: 11, offset: 80781},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -49572,12 +49679,12 @@ var g = &grammar{
 													pos:   position{line: 1286, col: 14, offset: 39716},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93870},
+														pos: position{line: 2968, col: 7, offset: 94176},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93870},
+															pos: position{line: 2968, col: 7, offset: 94176},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93870},
+																pos:        position{line: 2968, col: 7, offset: 94176},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49611,12 +49718,12 @@ var g = &grammar{
 													pos:   position{line: 1291, col: 10, offset: 39842},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2958, col: 7, offset: 93870},
+														pos: position{line: 2968, col: 7, offset: 94176},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2958, col: 7, offset: 93870},
+															pos: position{line: 2968, col: 7, offset: 94176},
 															expr: &charClassMatcher{
-																pos:        position{line: 2958, col: 7, offset: 93870},
+																pos:        position{line: 2968, col: 7, offset: 94176},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -49635,40 +49742,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1330, col: 23, offset: 41326},
+										pos: position{line: 1340, col: 23, offset: 41632},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1330, col: 23, offset: 41326},
+											pos: position{line: 1340, col: 23, offset: 41632},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1330, col: 23, offset: 41326},
+													pos:        position{line: 1340, col: 23, offset: 41632},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1330, col: 29, offset: 41332},
+													pos:   position{line: 1340, col: 29, offset: 41638},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1337, col: 30, offset: 41663},
+														pos: position{line: 1347, col: 30, offset: 41969},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1337, col: 30, offset: 41663},
+															pos: position{line: 1347, col: 30, offset: 41969},
 															expr: &choiceExpr{
-																pos: position{line: 1337, col: 31, offset: 41664},
+																pos: position{line: 1347, col: 31, offset: 41970},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2827, col: 13, offset: 90166},
+																		pos:        position{line: 2837, col: 13, offset: 90472},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2973, col: 10, offset: 94218},
+																		pos: position{line: 2983, col: 10, offset: 94524},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2973, col: 10, offset: 94218},
+																			pos:        position{line: 2983, col: 10, offset: 94524},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -49681,23 +49788,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1331, col: 5, offset: 41371},
+													pos:   position{line: 1341, col: 5, offset: 41677},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1331, col: 11, offset: 41377},
+														pos: position{line: 1341, col: 11, offset: 41683},
 														expr: &actionExpr{
-															pos: position{line: 1331, col: 12, offset: 41378},
+															pos: position{line: 1341, col: 12, offset: 41684},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1331, col: 12, offset: 41378},
+																pos: position{line: 1341, col: 12, offset: 41684},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 12, offset: 41378},
+																		pos: position{line: 1341, col: 12, offset: 41684},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49706,18 +49813,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1331, col: 19, offset: 41385},
+																		pos:        position{line: 1341, col: 19, offset: 41691},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1331, col: 23, offset: 41389},
+																		pos: position{line: 1341, col: 23, offset: 41695},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49726,28 +49833,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1331, col: 30, offset: 41396},
+																		pos:   position{line: 1341, col: 30, offset: 41702},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41663},
+																			pos: position{line: 1347, col: 30, offset: 41969},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41663},
+																				pos: position{line: 1347, col: 30, offset: 41969},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41664},
+																					pos: position{line: 1347, col: 31, offset: 41970},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2827, col: 13, offset: 90166},
+																							pos:        position{line: 2837, col: 13, offset: 90472},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49765,23 +49872,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1332, col: 5, offset: 41463},
+													pos:   position{line: 1342, col: 5, offset: 41769},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1332, col: 11, offset: 41469},
+														pos: position{line: 1342, col: 11, offset: 41775},
 														expr: &actionExpr{
-															pos: position{line: 1332, col: 12, offset: 41470},
+															pos: position{line: 1342, col: 12, offset: 41776},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1332, col: 12, offset: 41470},
+																pos: position{line: 1342, col: 12, offset: 41776},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 12, offset: 41470},
+																		pos: position{line: 1342, col: 12, offset: 41776},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49790,18 +49897,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1332, col: 19, offset: 41477},
+																		pos:        position{line: 1342, col: 19, offset: 41783},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1332, col: 23, offset: 41481},
+																		pos: position{line: 1342, col: 23, offset: 41787},
 																		expr: &actionExpr{
-																			pos: position{line: 2973, col: 10, offset: 94218},
+																			pos: position{line: 2983, col: 10, offset: 94524},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2973, col: 10, offset: 94218},
+																				pos:        position{line: 2983, col: 10, offset: 94524},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -49810,28 +49917,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1332, col: 30, offset: 41488},
+																		pos:   position{line: 1342, col: 30, offset: 41794},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1337, col: 30, offset: 41663},
+																			pos: position{line: 1347, col: 30, offset: 41969},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1337, col: 30, offset: 41663},
+																				pos: position{line: 1347, col: 30, offset: 41969},
 																				expr: &choiceExpr{
-																					pos: position{line: 1337, col: 31, offset: 41664},
+																					pos: position{line: 1347, col: 31, offset: 41970},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2827, col: 13, offset: 90166},
+																							pos:        position{line: 2837, col: 13, offset: 90472},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2973, col: 10, offset: 94218},
+																							pos: position{line: 2983, col: 10, offset: 94524},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2973, col: 10, offset: 94218},
+																								pos:        position{line: 2983, col: 10, offset: 94524},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -49849,7 +49956,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1333, col: 5, offset: 41555},
+													pos:        position{line: 1343, col: 5, offset: 41861},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -49858,15 +49965,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2490, col: 11, offset: 80554},
+										pos:  position{line: 2500, col: 11, offset: 80860},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2491, col: 11, offset: 80574},
+										pos:  position{line: 2501, col: 11, offset: 80880},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2492, col: 11, offset: 80597},
+										pos:  position{line: 2502, col: 11, offset: 80903},
 										name: "InlineMenu",
 									},
 								},
@@ -49878,80 +49985,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2496, col: 1, offset: 80654},
+			pos:  position{line: 2506, col: 1, offset: 80960},
 			expr: &actionExpr{
-				pos: position{line: 2498, col: 5, offset: 80742},
+				pos: position{line: 2508, col: 5, offset: 81048},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2498, col: 5, offset: 80742},
+					pos: position{line: 2508, col: 5, offset: 81048},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2498, col: 5, offset: 80742},
+							pos: position{line: 2508, col: 5, offset: 81048},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2501, col: 5, offset: 80819},
+							pos:   position{line: 2511, col: 5, offset: 81125},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2502, col: 9, offset: 80837},
+								pos: position{line: 2512, col: 9, offset: 81143},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1416, col: 26, offset: 44997},
+										pos: position{line: 1426, col: 26, offset: 45303},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1416, col: 26, offset: 44997},
+											pos: position{line: 1426, col: 26, offset: 45303},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1414, col: 32, offset: 44965},
+													pos:        position{line: 1424, col: 32, offset: 45271},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1416, col: 54, offset: 45025},
+													pos:   position{line: 1426, col: 54, offset: 45331},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1420, col: 33, offset: 45228},
+														pos: position{line: 1430, col: 33, offset: 45534},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1420, col: 34, offset: 45229},
+																pos: position{line: 1430, col: 34, offset: 45535},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1420, col: 34, offset: 45229},
+																	pos: position{line: 1430, col: 34, offset: 45535},
 																	expr: &seqExpr{
-																		pos: position{line: 1420, col: 35, offset: 45230},
+																		pos: position{line: 1430, col: 35, offset: 45536},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1420, col: 35, offset: 45230},
+																				pos: position{line: 1430, col: 35, offset: 45536},
 																				expr: &litMatcher{
-																					pos:        position{line: 1414, col: 32, offset: 44965},
+																					pos:        position{line: 1424, col: 32, offset: 45271},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1420, col: 64, offset: 45259,
+																				line: 1430, col: 64, offset: 45565,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1422, col: 11, offset: 45432},
+																pos: position{line: 1432, col: 11, offset: 45738},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1422, col: 11, offset: 45432},
+																	pos: position{line: 1432, col: 11, offset: 45738},
 																	expr: &seqExpr{
-																		pos: position{line: 1422, col: 12, offset: 45433},
+																		pos: position{line: 1432, col: 12, offset: 45739},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1422, col: 12, offset: 45433},
+																				pos: position{line: 1432, col: 12, offset: 45739},
 																				expr: &actionExpr{
-																					pos: position{line: 2973, col: 10, offset: 94218},
+																					pos: position{line: 2983, col: 10, offset: 94524},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2973, col: 10, offset: 94218},
+																						pos:        position{line: 2983, col: 10, offset: 94524},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -49960,27 +50067,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1422, col: 19, offset: 45440},
+																				pos: position{line: 1432, col: 19, offset: 45746},
 																				expr: &actionExpr{
-																					pos: position{line: 2982, col: 12, offset: 94389},
+																					pos: position{line: 2992, col: 12, offset: 94695},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2982, col: 13, offset: 94390},
+																						pos: position{line: 2992, col: 13, offset: 94696},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 13, offset: 94390},
+																								pos:        position{line: 2992, col: 13, offset: 94696},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 20, offset: 94397},
+																								pos:        position{line: 2992, col: 20, offset: 94703},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2982, col: 29, offset: 94406},
+																								pos:        position{line: 2992, col: 29, offset: 94712},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -49990,16 +50097,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1422, col: 28, offset: 45449},
+																				pos: position{line: 1432, col: 28, offset: 45755},
 																				expr: &litMatcher{
-																					pos:        position{line: 1414, col: 32, offset: 44965},
+																					pos:        position{line: 1424, col: 32, offset: 45271},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1422, col: 57, offset: 45478,
+																				line: 1432, col: 57, offset: 45784,
 																			},
 																		},
 																	},
@@ -50009,7 +50116,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1414, col: 32, offset: 44965},
+													pos:        position{line: 1424, col: 32, offset: 45271},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
@@ -50018,49 +50125,49 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1401, col: 5, offset: 44221},
+										pos: position{line: 1411, col: 5, offset: 44527},
 										run: (*parser).callonInlinePassthrough33,
 										expr: &seqExpr{
-											pos: position{line: 1401, col: 5, offset: 44221},
+											pos: position{line: 1411, col: 5, offset: 44527},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1401, col: 5, offset: 44221},
+													pos: position{line: 1411, col: 5, offset: 44527},
 													run: (*parser).callonInlinePassthrough35,
 												},
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44186},
+													pos:        position{line: 1408, col: 32, offset: 44492},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1404, col: 33, offset: 44308},
+													pos:   position{line: 1414, col: 33, offset: 44614},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1408, col: 33, offset: 44521},
+														pos: position{line: 1418, col: 33, offset: 44827},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1408, col: 34, offset: 44522},
+																pos: position{line: 1418, col: 34, offset: 44828},
 																run: (*parser).callonInlinePassthrough39,
 																expr: &seqExpr{
-																	pos: position{line: 1408, col: 34, offset: 44522},
+																	pos: position{line: 1418, col: 34, offset: 44828},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1408, col: 35, offset: 44523},
+																			pos: position{line: 1418, col: 35, offset: 44829},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44186},
+																				pos:        position{line: 1408, col: 32, offset: 44492},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1408, col: 64, offset: 44552},
+																			pos: position{line: 1418, col: 64, offset: 44858},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonInlinePassthrough44,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50069,27 +50176,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1408, col: 71, offset: 44559},
+																			pos: position{line: 1418, col: 71, offset: 44865},
 																			expr: &actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonInlinePassthrough47,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50099,25 +50206,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1408, col: 80, offset: 44568,
+																			line: 1418, col: 80, offset: 44874,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1408, col: 83, offset: 44571},
+																			pos: position{line: 1418, col: 83, offset: 44877},
 																			expr: &seqExpr{
-																				pos: position{line: 1408, col: 84, offset: 44572},
+																				pos: position{line: 1418, col: 84, offset: 44878},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1408, col: 84, offset: 44572},
+																						pos: position{line: 1418, col: 84, offset: 44878},
 																						expr: &seqExpr{
-																							pos: position{line: 1408, col: 86, offset: 44574},
+																							pos: position{line: 1418, col: 86, offset: 44880},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2977, col: 11, offset: 94279},
+																									pos: position{line: 2987, col: 11, offset: 94585},
 																									run: (*parser).callonInlinePassthrough57,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2977, col: 11, offset: 94279},
+																										pos: position{line: 2987, col: 11, offset: 94585},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2977, col: 11, offset: 94279},
+																											pos:        position{line: 2987, col: 11, offset: 94585},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -50126,7 +50233,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1398, col: 32, offset: 44186},
+																									pos:        position{line: 1408, col: 32, offset: 44492},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -50135,36 +50242,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1408, col: 122, offset: 44610},
+																						pos: position{line: 1418, col: 122, offset: 44916},
 																						expr: &litMatcher{
-																							pos:        position{line: 1398, col: 32, offset: 44186},
+																							pos:        position{line: 1408, col: 32, offset: 44492},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1408, col: 151, offset: 44639},
+																						pos: position{line: 1418, col: 151, offset: 44945},
 																						expr: &actionExpr{
-																							pos: position{line: 2982, col: 12, offset: 94389},
+																							pos: position{line: 2992, col: 12, offset: 94695},
 																							run: (*parser).callonInlinePassthrough64,
 																							expr: &choiceExpr{
-																								pos: position{line: 2982, col: 13, offset: 94390},
+																								pos: position{line: 2992, col: 13, offset: 94696},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 13, offset: 94390},
+																										pos:        position{line: 2992, col: 13, offset: 94696},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 20, offset: 94397},
+																										pos:        position{line: 2992, col: 20, offset: 94703},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2982, col: 29, offset: 94406},
+																										pos:        position{line: 2992, col: 29, offset: 94712},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -50174,7 +50281,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1408, col: 160, offset: 44648,
+																						line: 1418, col: 160, offset: 44954,
 																					},
 																				},
 																			},
@@ -50183,18 +50290,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1410, col: 11, offset: 44798},
+																pos: position{line: 1420, col: 11, offset: 45104},
 																run: (*parser).callonInlinePassthrough70,
 																expr: &seqExpr{
-																	pos: position{line: 1410, col: 12, offset: 44799},
+																	pos: position{line: 1420, col: 12, offset: 45105},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1410, col: 12, offset: 44799},
+																			pos: position{line: 1420, col: 12, offset: 45105},
 																			expr: &actionExpr{
-																				pos: position{line: 2973, col: 10, offset: 94218},
+																				pos: position{line: 2983, col: 10, offset: 94524},
 																				run: (*parser).callonInlinePassthrough73,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2973, col: 10, offset: 94218},
+																					pos:        position{line: 2983, col: 10, offset: 94524},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -50203,27 +50310,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1410, col: 19, offset: 44806},
+																			pos: position{line: 1420, col: 19, offset: 45112},
 																			expr: &actionExpr{
-																				pos: position{line: 2982, col: 12, offset: 94389},
+																				pos: position{line: 2992, col: 12, offset: 94695},
 																				run: (*parser).callonInlinePassthrough76,
 																				expr: &choiceExpr{
-																					pos: position{line: 2982, col: 13, offset: 94390},
+																					pos: position{line: 2992, col: 13, offset: 94696},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 13, offset: 94390},
+																							pos:        position{line: 2992, col: 13, offset: 94696},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 20, offset: 94397},
+																							pos:        position{line: 2992, col: 20, offset: 94703},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2982, col: 29, offset: 94406},
+																							pos:        position{line: 2992, col: 29, offset: 94712},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -50233,16 +50340,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1410, col: 28, offset: 44815},
+																			pos: position{line: 1420, col: 28, offset: 45121},
 																			expr: &litMatcher{
-																				pos:        position{line: 1398, col: 32, offset: 44186},
+																				pos:        position{line: 1408, col: 32, offset: 44492},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1410, col: 57, offset: 44844,
+																			line: 1420, col: 57, offset: 45150,
 																		},
 																	},
 																},
@@ -50251,15 +50358,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1398, col: 32, offset: 44186},
+													pos:        position{line: 1408, col: 32, offset: 44492},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1404, col: 100, offset: 44375},
+													pos: position{line: 1414, col: 100, offset: 44681},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 13, offset: 90166},
+														pos:        position{line: 2837, col: 13, offset: 90472},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -50270,7 +50377,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2502, col: 57, offset: 80885},
+										pos:  position{line: 2512, col: 57, offset: 81191},
 										name: "PassthroughMacro",
 									},
 								},
@@ -50282,16 +50389,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2507, col: 1, offset: 80945},
+			pos:  position{line: 2517, col: 1, offset: 81251},
 			expr: &seqExpr{
-				pos: position{line: 2509, col: 5, offset: 81021},
+				pos: position{line: 2519, col: 5, offset: 81327},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2509, col: 5, offset: 81021},
+						pos: position{line: 2519, col: 5, offset: 81327},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2512, col: 5, offset: 81086},
+						pos:  position{line: 2522, col: 5, offset: 81392},
 						name: "QuotedText",
 					},
 				},
@@ -50299,22 +50406,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2514, col: 1, offset: 81099},
+			pos:  position{line: 2524, col: 1, offset: 81405},
 			expr: &actionExpr{
-				pos: position{line: 2516, col: 5, offset: 81181},
+				pos: position{line: 2526, col: 5, offset: 81487},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2516, col: 5, offset: 81181},
+					pos: position{line: 2526, col: 5, offset: 81487},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2516, col: 5, offset: 81181},
+							pos: position{line: 2526, col: 5, offset: 81487},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2519, col: 5, offset: 81252},
+							pos:   position{line: 2529, col: 5, offset: 81558},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2520, col: 9, offset: 81270},
+								pos:  position{line: 2530, col: 9, offset: 81576},
 								name: "Symbol",
 							},
 						},
@@ -50324,103 +50431,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2578, col: 1, offset: 83094},
+			pos:  position{line: 2588, col: 1, offset: 83400},
 			expr: &choiceExpr{
-				pos: position{line: 2580, col: 5, offset: 83124},
+				pos: position{line: 2590, col: 5, offset: 83430},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2580, col: 5, offset: 83124},
+						pos: position{line: 2590, col: 5, offset: 83430},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2580, col: 5, offset: 83124},
+							pos: position{line: 2590, col: 5, offset: 83430},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2580, col: 5, offset: 83124},
+									pos:        position{line: 2590, col: 5, offset: 83430},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2580, col: 10, offset: 83129},
+									pos: position{line: 2590, col: 10, offset: 83435},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2580, col: 10, offset: 83129},
+											pos:  position{line: 2590, col: 10, offset: 83435},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 14, offset: 84227},
+											pos: position{line: 2619, col: 14, offset: 84533},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2609, col: 14, offset: 84227},
+												pos:        position{line: 2619, col: 14, offset: 84533},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 14, offset: 84293},
+											pos: position{line: 2623, col: 14, offset: 84599},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2613, col: 14, offset: 84293},
+												pos:        position{line: 2623, col: 14, offset: 84599},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2617, col: 15, offset: 84362},
+											pos: position{line: 2627, col: 15, offset: 84668},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2617, col: 15, offset: 84362},
+												pos:        position{line: 2627, col: 15, offset: 84668},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2621, col: 13, offset: 84427},
+											pos: position{line: 2631, col: 13, offset: 84733},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2621, col: 13, offset: 84427},
+												pos:        position{line: 2631, col: 13, offset: 84733},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2649, col: 21, offset: 84997},
+											pos: position{line: 2659, col: 21, offset: 85303},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2649, col: 21, offset: 84997},
+												pos:        position{line: 2659, col: 21, offset: 85303},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2628, col: 5, offset: 84583},
+											pos: position{line: 2638, col: 5, offset: 84889},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2628, col: 5, offset: 84583},
+												pos: position{line: 2638, col: 5, offset: 84889},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2628, col: 5, offset: 84583},
+														pos:        position{line: 2638, col: 5, offset: 84889},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2629, col: 5, offset: 84593},
+														pos: position{line: 2639, col: 5, offset: 84899},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2633, col: 6, offset: 84680},
+														pos: position{line: 2643, col: 6, offset: 84986},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2973, col: 10, offset: 94218},
+																pos: position{line: 2983, col: 10, offset: 94524},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2973, col: 10, offset: 94218},
+																	pos:        position{line: 2983, col: 10, offset: 94524},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -50428,30 +50535,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2633, col: 14, offset: 84688},
+																pos: position{line: 2643, col: 14, offset: 84994},
 																expr: &choiceExpr{
-																	pos: position{line: 2995, col: 8, offset: 94616},
+																	pos: position{line: 3005, col: 8, offset: 94922},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2982, col: 12, offset: 94389},
+																			pos: position{line: 2992, col: 12, offset: 94695},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2982, col: 13, offset: 94390},
+																				pos: position{line: 2992, col: 13, offset: 94696},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 13, offset: 94390},
+																						pos:        position{line: 2992, col: 13, offset: 94696},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 20, offset: 94397},
+																						pos:        position{line: 2992, col: 20, offset: 94703},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2982, col: 29, offset: 94406},
+																						pos:        position{line: 2992, col: 29, offset: 94712},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -50460,9 +50567,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2992, col: 8, offset: 94566},
+																			pos: position{line: 3002, col: 8, offset: 94872},
 																			expr: &anyMatcher{
-																				line: 2992, col: 9, offset: 94567,
+																				line: 3002, col: 9, offset: 94873,
 																			},
 																		},
 																	},
@@ -50474,53 +50581,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2638, col: 5, offset: 84808},
+											pos: position{line: 2648, col: 5, offset: 85114},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2638, col: 5, offset: 84808},
+												pos: position{line: 2648, col: 5, offset: 85114},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2638, col: 5, offset: 84808},
+														pos:        position{line: 2648, col: 5, offset: 85114},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2639, col: 5, offset: 84818},
+														pos: position{line: 2649, col: 5, offset: 85124},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2643, col: 5, offset: 84907},
+														pos: position{line: 2653, col: 5, offset: 85213},
 														expr: &choiceExpr{
-															pos: position{line: 2643, col: 7, offset: 84909},
+															pos: position{line: 2653, col: 7, offset: 85215},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2827, col: 13, offset: 90166},
+																	pos:        position{line: 2837, col: 13, offset: 90472},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2982, col: 12, offset: 94389},
+																	pos: position{line: 2992, col: 12, offset: 94695},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2982, col: 13, offset: 94390},
+																		pos: position{line: 2992, col: 13, offset: 94696},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 13, offset: 94390},
+																				pos:        position{line: 2992, col: 13, offset: 94696},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 20, offset: 94397},
+																				pos:        position{line: 2992, col: 20, offset: 94703},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2982, col: 29, offset: 94406},
+																				pos:        position{line: 2992, col: 29, offset: 94712},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -50529,9 +50636,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -50541,30 +50648,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2653, col: 20, offset: 85067},
+											pos: position{line: 2663, col: 20, offset: 85373},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2653, col: 20, offset: 85067},
+												pos:        position{line: 2663, col: 20, offset: 85373},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2657, col: 21, offset: 85138},
+											pos: position{line: 2667, col: 21, offset: 85444},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2657, col: 21, offset: 85138},
+												pos:        position{line: 2667, col: 21, offset: 85444},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2661, col: 20, offset: 85208},
+											pos: position{line: 2671, col: 20, offset: 85514},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2661, col: 20, offset: 85208},
+												pos:        position{line: 2671, col: 20, offset: 85514},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -50576,73 +50683,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2584, col: 7, offset: 83378},
+						pos:  position{line: 2594, col: 7, offset: 83684},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2609, col: 14, offset: 84227},
+						pos: position{line: 2619, col: 14, offset: 84533},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2609, col: 14, offset: 84227},
+							pos:        position{line: 2619, col: 14, offset: 84533},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2613, col: 14, offset: 84293},
+						pos: position{line: 2623, col: 14, offset: 84599},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2613, col: 14, offset: 84293},
+							pos:        position{line: 2623, col: 14, offset: 84599},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2617, col: 15, offset: 84362},
+						pos: position{line: 2627, col: 15, offset: 84668},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2617, col: 15, offset: 84362},
+							pos:        position{line: 2627, col: 15, offset: 84668},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2621, col: 13, offset: 84427},
+						pos: position{line: 2631, col: 13, offset: 84733},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2621, col: 13, offset: 84427},
+							pos:        position{line: 2631, col: 13, offset: 84733},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2628, col: 5, offset: 84583},
+						pos: position{line: 2638, col: 5, offset: 84889},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2628, col: 5, offset: 84583},
+							pos: position{line: 2638, col: 5, offset: 84889},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2628, col: 5, offset: 84583},
+									pos:        position{line: 2638, col: 5, offset: 84889},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2629, col: 5, offset: 84593},
+									pos: position{line: 2639, col: 5, offset: 84899},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2633, col: 6, offset: 84680},
+									pos: position{line: 2643, col: 6, offset: 84986},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2973, col: 10, offset: 94218},
+											pos: position{line: 2983, col: 10, offset: 94524},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2973, col: 10, offset: 94218},
+												pos:        position{line: 2983, col: 10, offset: 94524},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -50650,30 +50757,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2633, col: 14, offset: 84688},
+											pos: position{line: 2643, col: 14, offset: 84994},
 											expr: &choiceExpr{
-												pos: position{line: 2995, col: 8, offset: 94616},
+												pos: position{line: 3005, col: 8, offset: 94922},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2982, col: 12, offset: 94389},
+														pos: position{line: 2992, col: 12, offset: 94695},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2982, col: 13, offset: 94390},
+															pos: position{line: 2992, col: 13, offset: 94696},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2982, col: 13, offset: 94390},
+																	pos:        position{line: 2992, col: 13, offset: 94696},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 20, offset: 94397},
+																	pos:        position{line: 2992, col: 20, offset: 94703},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2982, col: 29, offset: 94406},
+																	pos:        position{line: 2992, col: 29, offset: 94712},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -50682,9 +50789,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2992, col: 8, offset: 94566},
+														pos: position{line: 3002, col: 8, offset: 94872},
 														expr: &anyMatcher{
-															line: 2992, col: 9, offset: 94567,
+															line: 3002, col: 9, offset: 94873,
 														},
 													},
 												},
@@ -50696,53 +50803,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2638, col: 5, offset: 84808},
+						pos: position{line: 2648, col: 5, offset: 85114},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2638, col: 5, offset: 84808},
+							pos: position{line: 2648, col: 5, offset: 85114},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2638, col: 5, offset: 84808},
+									pos:        position{line: 2648, col: 5, offset: 85114},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2639, col: 5, offset: 84818},
+									pos: position{line: 2649, col: 5, offset: 85124},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2643, col: 5, offset: 84907},
+									pos: position{line: 2653, col: 5, offset: 85213},
 									expr: &choiceExpr{
-										pos: position{line: 2643, col: 7, offset: 84909},
+										pos: position{line: 2653, col: 7, offset: 85215},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2827, col: 13, offset: 90166},
+												pos:        position{line: 2837, col: 13, offset: 90472},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2982, col: 12, offset: 94389},
+												pos: position{line: 2992, col: 12, offset: 94695},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2982, col: 13, offset: 94390},
+													pos: position{line: 2992, col: 13, offset: 94696},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2982, col: 13, offset: 94390},
+															pos:        position{line: 2992, col: 13, offset: 94696},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 20, offset: 94397},
+															pos:        position{line: 2992, col: 20, offset: 94703},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2982, col: 29, offset: 94406},
+															pos:        position{line: 2992, col: 29, offset: 94712},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -50751,9 +50858,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2992, col: 8, offset: 94566},
+												pos: position{line: 3002, col: 8, offset: 94872},
 												expr: &anyMatcher{
-													line: 2992, col: 9, offset: 94567,
+													line: 3002, col: 9, offset: 94873,
 												},
 											},
 										},
@@ -50763,40 +50870,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2649, col: 21, offset: 84997},
+						pos: position{line: 2659, col: 21, offset: 85303},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2649, col: 21, offset: 84997},
+							pos:        position{line: 2659, col: 21, offset: 85303},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2653, col: 20, offset: 85067},
+						pos: position{line: 2663, col: 20, offset: 85373},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2653, col: 20, offset: 85067},
+							pos:        position{line: 2663, col: 20, offset: 85373},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2657, col: 21, offset: 85138},
+						pos: position{line: 2667, col: 21, offset: 85444},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2657, col: 21, offset: 85138},
+							pos:        position{line: 2667, col: 21, offset: 85444},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2661, col: 20, offset: 85208},
+						pos: position{line: 2671, col: 20, offset: 85514},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2661, col: 20, offset: 85208},
+							pos:        position{line: 2671, col: 20, offset: 85514},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -50807,43 +50914,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2595, col: 1, offset: 83568},
+			pos:  position{line: 2605, col: 1, offset: 83874},
 			expr: &choiceExpr{
-				pos: position{line: 2596, col: 5, offset: 83590},
+				pos: position{line: 2606, col: 5, offset: 83896},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2596, col: 5, offset: 83590},
+						pos: position{line: 2606, col: 5, offset: 83896},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2596, col: 5, offset: 83590},
+							pos: position{line: 2606, col: 5, offset: 83896},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2596, col: 5, offset: 83590},
+									pos:        position{line: 2606, col: 5, offset: 83896},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2596, col: 11, offset: 83596},
+									pos: position{line: 2606, col: 11, offset: 83902},
 									expr: &seqExpr{
-										pos: position{line: 2141, col: 5, offset: 69205},
+										pos: position{line: 2151, col: 5, offset: 69511},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2141, col: 5, offset: 69205},
+												pos:        position{line: 2151, col: 5, offset: 69511},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2142, col: 5, offset: 69214},
+												pos: position{line: 2152, col: 5, offset: 69520},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2146, col: 5, offset: 69337},
+												pos: position{line: 2156, col: 5, offset: 69643},
 												expr: &notExpr{
-													pos: position{line: 2146, col: 7, offset: 69339},
+													pos: position{line: 2156, col: 7, offset: 69645},
 													expr: &litMatcher{
-														pos:        position{line: 2146, col: 8, offset: 69340},
+														pos:        position{line: 2156, col: 8, offset: 69646},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50857,21 +50964,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 7, offset: 83749},
+						pos: position{line: 2609, col: 7, offset: 84055},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2599, col: 7, offset: 83749},
+							pos: position{line: 2609, col: 7, offset: 84055},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2599, col: 7, offset: 83749},
+									pos:        position{line: 2609, col: 7, offset: 84055},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2599, col: 13, offset: 83755},
+									pos: position{line: 2609, col: 13, offset: 84061},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2599, col: 14, offset: 83756},
+										pos:  position{line: 2609, col: 14, offset: 84062},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50879,38 +50986,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 7, offset: 83906},
+						pos: position{line: 2612, col: 7, offset: 84212},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2602, col: 7, offset: 83906},
+							pos: position{line: 2612, col: 7, offset: 84212},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2602, col: 7, offset: 83906},
+									pos:        position{line: 2612, col: 7, offset: 84212},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2602, col: 12, offset: 83911},
+									pos: position{line: 2612, col: 12, offset: 84217},
 									expr: &seqExpr{
-										pos: position{line: 2141, col: 5, offset: 69205},
+										pos: position{line: 2151, col: 5, offset: 69511},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2141, col: 5, offset: 69205},
+												pos:        position{line: 2151, col: 5, offset: 69511},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2142, col: 5, offset: 69214},
+												pos: position{line: 2152, col: 5, offset: 69520},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2146, col: 5, offset: 69337},
+												pos: position{line: 2156, col: 5, offset: 69643},
 												expr: &notExpr{
-													pos: position{line: 2146, col: 7, offset: 69339},
+													pos: position{line: 2156, col: 7, offset: 69645},
 													expr: &litMatcher{
-														pos:        position{line: 2146, col: 8, offset: 69340},
+														pos:        position{line: 2156, col: 8, offset: 69646},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -50924,21 +51031,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 7, offset: 84064},
+						pos: position{line: 2615, col: 7, offset: 84370},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2605, col: 7, offset: 84064},
+							pos: position{line: 2615, col: 7, offset: 84370},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2605, col: 7, offset: 84064},
+									pos:        position{line: 2615, col: 7, offset: 84370},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2605, col: 12, offset: 84069},
+									pos: position{line: 2615, col: 12, offset: 84375},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2605, col: 13, offset: 84070},
+										pos:  position{line: 2615, col: 13, offset: 84376},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -50950,63 +51057,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2738, col: 1, offset: 87110},
+			pos:  position{line: 2748, col: 1, offset: 87416},
 			expr: &actionExpr{
-				pos: position{line: 2738, col: 26, offset: 87135},
+				pos: position{line: 2748, col: 26, offset: 87441},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2738, col: 26, offset: 87135},
+					pos: position{line: 2748, col: 26, offset: 87441},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2738, col: 26, offset: 87135},
+							pos:   position{line: 2748, col: 26, offset: 87441},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2738, col: 31, offset: 87140},
+								pos: position{line: 2748, col: 31, offset: 87446},
 								expr: &actionExpr{
-									pos: position{line: 2743, col: 5, offset: 87203},
+									pos: position{line: 2753, col: 5, offset: 87509},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2743, col: 5, offset: 87203},
+										pos: position{line: 2753, col: 5, offset: 87509},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2990, col: 11, offset: 94552},
+												pos: position{line: 3000, col: 11, offset: 94858},
 												expr: &anyMatcher{
-													line: 2990, col: 13, offset: 94554,
+													line: 3000, col: 13, offset: 94860,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2746, col: 5, offset: 87329},
+												pos:   position{line: 2756, col: 5, offset: 87635},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2746, col: 16, offset: 87340},
+													pos: position{line: 2756, col: 16, offset: 87646},
 													expr: &actionExpr{
-														pos: position{line: 2746, col: 17, offset: 87341},
+														pos: position{line: 2756, col: 17, offset: 87647},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2746, col: 17, offset: 87341},
+															pos: position{line: 2756, col: 17, offset: 87647},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2746, col: 17, offset: 87341},
+																	pos:   position{line: 2756, col: 17, offset: 87647},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2965, col: 12, offset: 94045},
+																		pos: position{line: 2975, col: 12, offset: 94351},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2965, col: 13, offset: 94046},
+																			pos: position{line: 2975, col: 13, offset: 94352},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2965, col: 13, offset: 94046},
+																					pos: position{line: 2975, col: 13, offset: 94352},
 																					expr: &litMatcher{
-																						pos:        position{line: 2965, col: 13, offset: 94046},
+																						pos:        position{line: 2975, col: 13, offset: 94352},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2965, col: 18, offset: 94051},
+																					pos: position{line: 2975, col: 18, offset: 94357},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2965, col: 18, offset: 94051},
+																						pos:        position{line: 2975, col: 18, offset: 94357},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -51018,7 +51125,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2746, col: 27, offset: 87351},
+																	pos:        position{line: 2756, col: 27, offset: 87657},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -51029,38 +51136,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2747, col: 5, offset: 87379},
+												pos:   position{line: 2757, col: 5, offset: 87685},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2747, col: 12, offset: 87386},
+													pos: position{line: 2757, col: 12, offset: 87692},
 													expr: &choiceExpr{
-														pos: position{line: 2748, col: 9, offset: 87396},
+														pos: position{line: 2758, col: 9, offset: 87702},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2748, col: 9, offset: 87396},
+																pos: position{line: 2758, col: 9, offset: 87702},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2748, col: 9, offset: 87396},
+																	pos:        position{line: 2758, col: 9, offset: 87702},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2749, col: 11, offset: 87443},
+																pos: position{line: 2759, col: 11, offset: 87749},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2749, col: 11, offset: 87443},
+																	pos:        position{line: 2759, col: 11, offset: 87749},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2750, col: 11, offset: 87491},
+																pos: position{line: 2760, col: 11, offset: 87797},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2750, col: 11, offset: 87491},
+																	pos:        position{line: 2760, col: 11, offset: 87797},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -51071,38 +51178,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2752, col: 5, offset: 87541},
+												pos:   position{line: 2762, col: 5, offset: 87847},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2752, col: 12, offset: 87548},
+													pos: position{line: 2762, col: 12, offset: 87854},
 													expr: &choiceExpr{
-														pos: position{line: 2753, col: 9, offset: 87558},
+														pos: position{line: 2763, col: 9, offset: 87864},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2753, col: 9, offset: 87558},
+																pos: position{line: 2763, col: 9, offset: 87864},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2753, col: 9, offset: 87558},
+																	pos:        position{line: 2763, col: 9, offset: 87864},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2754, col: 11, offset: 87605},
+																pos: position{line: 2764, col: 11, offset: 87911},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2754, col: 11, offset: 87605},
+																	pos:        position{line: 2764, col: 11, offset: 87911},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2755, col: 11, offset: 87655},
+																pos: position{line: 2765, col: 11, offset: 87961},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2755, col: 11, offset: 87655},
+																	pos:        position{line: 2765, col: 11, offset: 87961},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -51113,32 +51220,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2757, col: 5, offset: 87706},
+												pos:   position{line: 2767, col: 5, offset: 88012},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2757, col: 12, offset: 87713},
+													pos: position{line: 2767, col: 12, offset: 88019},
 													expr: &choiceExpr{
-														pos: position{line: 2757, col: 13, offset: 87714},
+														pos: position{line: 2767, col: 13, offset: 88020},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2965, col: 12, offset: 94045},
+																pos: position{line: 2975, col: 12, offset: 94351},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2965, col: 13, offset: 94046},
+																	pos: position{line: 2975, col: 13, offset: 94352},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2965, col: 13, offset: 94046},
+																			pos: position{line: 2975, col: 13, offset: 94352},
 																			expr: &litMatcher{
-																				pos:        position{line: 2965, col: 13, offset: 94046},
+																				pos:        position{line: 2975, col: 13, offset: 94352},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2965, col: 18, offset: 94051},
+																			pos: position{line: 2975, col: 18, offset: 94357},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2965, col: 18, offset: 94051},
+																				pos:        position{line: 2975, col: 18, offset: 94357},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -51149,10 +51256,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2757, col: 24, offset: 87725},
+																pos: position{line: 2767, col: 24, offset: 88031},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2757, col: 24, offset: 87725},
+																	pos:        position{line: 2767, col: 24, offset: 88031},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -51163,15 +51270,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2758, col: 5, offset: 87767},
+												pos:   position{line: 2768, col: 5, offset: 88073},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2758, col: 11, offset: 87773},
+													pos: position{line: 2768, col: 11, offset: 88079},
 													expr: &actionExpr{
-														pos: position{line: 2758, col: 12, offset: 87774},
+														pos: position{line: 2768, col: 12, offset: 88080},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2758, col: 12, offset: 87774},
+															pos:        position{line: 2768, col: 12, offset: 88080},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -51181,12 +51288,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2760, col: 5, offset: 87904},
+												pos:   position{line: 2770, col: 5, offset: 88210},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2760, col: 11, offset: 87910},
+													pos: position{line: 2770, col: 11, offset: 88216},
 													expr: &litMatcher{
-														pos:        position{line: 2760, col: 12, offset: 87911},
+														pos:        position{line: 2770, col: 12, offset: 88217},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -51194,7 +51301,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2761, col: 5, offset: 87921},
+												pos: position{line: 2771, col: 5, offset: 88227},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -51203,9 +51310,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2992, col: 8, offset: 94566},
+							pos: position{line: 3002, col: 8, offset: 94872},
 							expr: &anyMatcher{
-								line: 2992, col: 9, offset: 94567,
+								line: 3002, col: 9, offset: 94873,
 							},
 						},
 					},
@@ -51214,23 +51321,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2788, col: 1, offset: 88930},
+			pos:  position{line: 2798, col: 1, offset: 89236},
 			expr: &actionExpr{
-				pos: position{line: 2789, col: 5, offset: 88953},
+				pos: position{line: 2799, col: 5, offset: 89259},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2789, col: 5, offset: 88953},
+					pos: position{line: 2799, col: 5, offset: 89259},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2789, col: 5, offset: 88953},
+							pos:   position{line: 2799, col: 5, offset: 89259},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2812, col: 18, offset: 89699},
+								pos: position{line: 2822, col: 18, offset: 90005},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2812, col: 19, offset: 89700},
+									pos: position{line: 2822, col: 19, offset: 90006},
 									expr: &charClassMatcher{
-										pos:        position{line: 2812, col: 19, offset: 89700},
+										pos:        position{line: 2822, col: 19, offset: 90006},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51241,39 +51348,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2790, col: 5, offset: 88979},
+							pos: position{line: 2800, col: 5, offset: 89285},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2794, col: 5, offset: 89107},
+							pos:        position{line: 2804, col: 5, offset: 89413},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2795, col: 5, offset: 89117},
+							pos:   position{line: 2805, col: 5, offset: 89423},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 24, offset: 89861},
+								pos: position{line: 2830, col: 24, offset: 90167},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2820, col: 24, offset: 89861},
+									pos: position{line: 2830, col: 24, offset: 90167},
 									expr: &seqExpr{
-										pos: position{line: 2820, col: 25, offset: 89862},
+										pos: position{line: 2830, col: 25, offset: 90168},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2820, col: 25, offset: 89862},
+												pos: position{line: 2830, col: 25, offset: 90168},
 												expr: &litMatcher{
-													pos:        position{line: 2820, col: 26, offset: 89863},
+													pos:        position{line: 2830, col: 26, offset: 90169},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2820, col: 30, offset: 89867},
+												pos: position{line: 2830, col: 30, offset: 90173},
 												expr: &charClassMatcher{
-													pos:        position{line: 2820, col: 30, offset: 89867},
+													pos:        position{line: 2830, col: 30, offset: 90173},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51281,23 +51388,23 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2820, col: 41, offset: 89878},
+												pos: position{line: 2830, col: 41, offset: 90184},
 												expr: &seqExpr{
-													pos: position{line: 2820, col: 42, offset: 89879},
+													pos: position{line: 2830, col: 42, offset: 90185},
 													exprs: []interface{}{
 														&oneOrMoreExpr{
-															pos: position{line: 2820, col: 42, offset: 89879},
+															pos: position{line: 2830, col: 42, offset: 90185},
 															expr: &litMatcher{
-																pos:        position{line: 2820, col: 42, offset: 89879},
+																pos:        position{line: 2830, col: 42, offset: 90185},
 																val:        " ",
 																ignoreCase: false,
 																want:       "\" \"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2820, col: 47, offset: 89884},
+															pos: position{line: 2830, col: 47, offset: 90190},
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 47, offset: 89884},
+																pos:        position{line: 2830, col: 47, offset: 90190},
 																val:        "[^[ \\r\\n]",
 																chars:      []rune{'[', ' ', '\r', '\n'},
 																ignoreCase: false,
@@ -51313,36 +51420,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2796, col: 5, offset: 89150},
+							pos:   position{line: 2806, col: 5, offset: 89456},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2796, col: 17, offset: 89162},
+								pos:  position{line: 2806, col: 17, offset: 89468},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2995, col: 8, offset: 94616},
+							pos: position{line: 3005, col: 8, offset: 94922},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2982, col: 12, offset: 94389},
+									pos: position{line: 2992, col: 12, offset: 94695},
 									run: (*parser).callonUserMacroBlock26,
 									expr: &choiceExpr{
-										pos: position{line: 2982, col: 13, offset: 94390},
+										pos: position{line: 2992, col: 13, offset: 94696},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2982, col: 13, offset: 94390},
+												pos:        position{line: 2992, col: 13, offset: 94696},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 20, offset: 94397},
+												pos:        position{line: 2992, col: 20, offset: 94703},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2982, col: 29, offset: 94406},
+												pos:        position{line: 2992, col: 29, offset: 94712},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -51351,9 +51458,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2992, col: 8, offset: 94566},
+									pos: position{line: 3002, col: 8, offset: 94872},
 									expr: &anyMatcher{
-										line: 2992, col: 9, offset: 94567,
+										line: 3002, col: 9, offset: 94873,
 									},
 								},
 							},
@@ -51364,23 +51471,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2800, col: 1, offset: 89310},
+			pos:  position{line: 2810, col: 1, offset: 89616},
 			expr: &actionExpr{
-				pos: position{line: 2801, col: 5, offset: 89334},
+				pos: position{line: 2811, col: 5, offset: 89640},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2801, col: 5, offset: 89334},
+					pos: position{line: 2811, col: 5, offset: 89640},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2801, col: 5, offset: 89334},
+							pos:   position{line: 2811, col: 5, offset: 89640},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2812, col: 18, offset: 89699},
+								pos: position{line: 2822, col: 18, offset: 90005},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2812, col: 19, offset: 89700},
+									pos: position{line: 2822, col: 19, offset: 90006},
 									expr: &charClassMatcher{
-										pos:        position{line: 2812, col: 19, offset: 89700},
+										pos:        position{line: 2822, col: 19, offset: 90006},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -51391,39 +51498,39 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2802, col: 5, offset: 89360},
+							pos: position{line: 2812, col: 5, offset: 89666},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2806, col: 5, offset: 89488},
+							pos:        position{line: 2816, col: 5, offset: 89794},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2807, col: 5, offset: 89497},
+							pos:   position{line: 2817, col: 5, offset: 89803},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2816, col: 19, offset: 89775},
+								pos: position{line: 2826, col: 19, offset: 90081},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrOneExpr{
-									pos: position{line: 2816, col: 19, offset: 89775},
+									pos: position{line: 2826, col: 19, offset: 90081},
 									expr: &seqExpr{
-										pos: position{line: 2816, col: 20, offset: 89776},
+										pos: position{line: 2826, col: 20, offset: 90082},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 2816, col: 20, offset: 89776},
+												pos: position{line: 2826, col: 20, offset: 90082},
 												expr: &litMatcher{
-													pos:        position{line: 2816, col: 21, offset: 89777},
+													pos:        position{line: 2826, col: 21, offset: 90083},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 2816, col: 25, offset: 89781},
+												pos: position{line: 2826, col: 25, offset: 90087},
 												expr: &charClassMatcher{
-													pos:        position{line: 2816, col: 25, offset: 89781},
+													pos:        position{line: 2826, col: 25, offset: 90087},
 													val:        "[^[ \\r\\n]",
 													chars:      []rune{'[', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -51436,10 +51543,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2808, col: 5, offset: 89525},
+							pos:   position{line: 2818, col: 5, offset: 89831},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2808, col: 17, offset: 89537},
+								pos:  position{line: 2818, col: 17, offset: 89843},
 								name: "InlineAttributes",
 							},
 						},
@@ -51449,43 +51556,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2900, col: 1, offset: 92026},
+			pos:  position{line: 2910, col: 1, offset: 92332},
 			expr: &actionExpr{
-				pos: position{line: 2900, col: 17, offset: 92042},
+				pos: position{line: 2910, col: 17, offset: 92348},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2900, col: 17, offset: 92042},
+					pos:   position{line: 2910, col: 17, offset: 92348},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2921, col: 5, offset: 92627},
+						pos: position{line: 2931, col: 5, offset: 92933},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2921, col: 5, offset: 92627},
+							pos:   position{line: 2931, col: 5, offset: 92933},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2921, col: 14, offset: 92636},
+								pos: position{line: 2931, col: 14, offset: 92942},
 								expr: &choiceExpr{
-									pos: position{line: 2922, col: 9, offset: 92646},
+									pos: position{line: 2932, col: 9, offset: 92952},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2922, col: 9, offset: 92646},
+											pos: position{line: 2932, col: 9, offset: 92952},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2922, col: 9, offset: 92646},
+												pos: position{line: 2932, col: 9, offset: 92952},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2922, col: 9, offset: 92646},
+														pos: position{line: 2932, col: 9, offset: 92952},
 														expr: &litMatcher{
-															pos:        position{line: 2922, col: 10, offset: 92647},
+															pos:        position{line: 2932, col: 10, offset: 92953},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2923, col: 9, offset: 92675},
+														pos: position{line: 2933, col: 9, offset: 92981},
 														expr: &charClassMatcher{
-															pos:        position{line: 2923, col: 10, offset: 92676},
+															pos:        position{line: 2933, col: 10, offset: 92982},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -51496,27 +51603,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2926, col: 11, offset: 92888},
+											pos: position{line: 2936, col: 11, offset: 93194},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2926, col: 11, offset: 92888},
+													pos:        position{line: 2936, col: 11, offset: 93194},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2926, col: 19, offset: 92896},
+													pos: position{line: 2936, col: 19, offset: 93202},
 													expr: &seqExpr{
-														pos: position{line: 2926, col: 21, offset: 92898},
+														pos: position{line: 2936, col: 21, offset: 93204},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2926, col: 21, offset: 92898},
+																pos: position{line: 2936, col: 21, offset: 93204},
 																expr: &actionExpr{
-																	pos: position{line: 2973, col: 10, offset: 94218},
+																	pos: position{line: 2983, col: 10, offset: 94524},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2973, col: 10, offset: 94218},
+																		pos:        position{line: 2983, col: 10, offset: 94524},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -51525,11 +51632,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2926, col: 28, offset: 92905},
+																pos: position{line: 2936, col: 28, offset: 93211},
 																expr: &notExpr{
-																	pos: position{line: 2992, col: 8, offset: 94566},
+																	pos: position{line: 3002, col: 8, offset: 94872},
 																	expr: &anyMatcher{
-																		line: 2992, col: 9, offset: 94567,
+																		line: 3002, col: 9, offset: 94873,
 																	},
 																},
 															},
@@ -51924,10 +52031,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2929, col: 11, offset: 93025},
+											pos: position{line: 2939, col: 11, offset: 93331},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2929, col: 11, offset: 93025},
+												pos:        position{line: 2939, col: 11, offset: 93331},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -62239,6 +62346,18 @@ func (p *parser) callonInlineMenu1() (interface{}, error) {
 	return p.cur.onInlineMenu1(stack["id"], stack["attributes"])
 }
 
+func (c *current) onIndexTerm3() (interface{}, error) {
+	c.trackElement(nil) // the text comes after the delimiter
+	return nil, nil
+
+}
+
+func (p *parser) callonIndexTerm3() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTerm3()
+}
+
 func (c *current) onIndexTerm1(term interface{}) (interface{}, error) {
 	return types.NewIndexTerm(term.([]interface{}))
 
@@ -62250,100 +62369,170 @@ func (p *parser) callonIndexTerm1() (interface{}, error) {
 	return p.cur.onIndexTerm1(stack["term"])
 }
 
-func (c *current) onIndexTermContent5() (interface{}, error) {
+func (c *current) onIndexTermContent1(elements interface{}) (interface{}, error) {
+	return types.NewInlineElements(elements.([]interface{}))
+}
+
+func (p *parser) callonIndexTermContent1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermContent1(stack["elements"])
+}
+
+func (c *current) onIndexTermElement7() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonIndexTermContent5() (interface{}, error) {
+func (p *parser) callonIndexTermElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent5()
+	return p.cur.onIndexTermElement7()
 }
 
-func (c *current) onIndexTermContent9() (interface{}, error) {
-
+func (c *current) onIndexTermElement11() (interface{}, error) {
+	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonIndexTermContent9() (interface{}, error) {
+func (p *parser) callonIndexTermElement11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermElement11()
+}
+
+func (c *current) onIndexTermElement16() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonIndexTermElement16() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermElement16()
+}
+
+func (c *current) onIndexTermElement14() (interface{}, error) {
+	//log.Debug("matched escaped apostrophe")
+	return c.newEscapedText(`'`) // retain the apostrophe, but discard the `\` escape char
+
+}
+
+func (p *parser) callonIndexTermElement14() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent9()
+	return p.cur.onIndexTermElement14()
 }
 
-func (c *current) onIndexTermContent13() (bool, error) {
+func (c *current) onIndexTermElement22() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonIndexTermElement22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermElement22()
+}
+
+func (c *current) onIndexTermElement23() (bool, error) {
+	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
+	return c.isPrecededByAlphanum(), nil
+
+}
+
+func (p *parser) callonIndexTermElement23() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermElement23()
+}
+
+func (c *current) onIndexTermElement20() (interface{}, error) {
+	return types.NewSymbol("'")
+
+}
+
+func (p *parser) callonIndexTermElement20() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermElement20()
+}
+
+func (c *current) onIndexTermElement31() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonIndexTermContent13() (bool, error) {
+func (p *parser) callonIndexTermElement31() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent13()
+	return p.cur.onIndexTermElement31()
 }
 
-func (c *current) onIndexTermContent15() (interface{}, error) {
+func (c *current) onIndexTermElement33() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonIndexTermContent15() (interface{}, error) {
+func (p *parser) callonIndexTermElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent15()
+	return p.cur.onIndexTermElement33()
 }
 
-func (c *current) onIndexTermContent11(element interface{}) (interface{}, error) {
+func (c *current) onIndexTermElement29(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonIndexTermContent11() (interface{}, error) {
+func (p *parser) callonIndexTermElement29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent11(stack["element"])
+	return p.cur.onIndexTermElement29(stack["element"])
 }
 
-func (c *current) onIndexTermContent21() (interface{}, error) {
+func (c *current) onIndexTermElement39() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonIndexTermContent21() (interface{}, error) {
+func (p *parser) callonIndexTermElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent21()
+	return p.cur.onIndexTermElement39()
 }
 
-func (c *current) onIndexTermContent17(ref interface{}) (interface{}, error) {
+func (c *current) onIndexTermElement35(ref interface{}) (interface{}, error) {
 	return c.resolveElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonIndexTermContent17() (interface{}, error) {
+func (p *parser) callonIndexTermElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent17(stack["ref"])
+	return p.cur.onIndexTermElement35(stack["ref"])
 }
 
-func (c *current) onIndexTermContent25() (interface{}, error) {
+func (c *current) onIndexTermElement43() (interface{}, error) {
 	return string(c.text), nil
+
 }
 
-func (p *parser) callonIndexTermContent25() (interface{}, error) {
+func (p *parser) callonIndexTermElement43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent25()
+	return p.cur.onIndexTermElement43()
 }
 
-func (c *current) onIndexTermContent1(elements interface{}) (interface{}, error) {
-	return types.NewInlineElements(elements.([]interface{}))
+func (c *current) onIndexTermElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
+
 }
 
-func (p *parser) callonIndexTermContent1() (interface{}, error) {
+func (p *parser) callonIndexTermElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent1(stack["elements"])
+	return p.cur.onIndexTermElement1(stack["element"])
 }
 
 func (c *current) onImageBlock9() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 2a9ff1e..11f871e 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1317,16 +1317,26 @@ InlineMenu <-
 // -------------------------------------------------------------------------------------
 // Index Terms
 // -------------------------------------------------------------------------------------
-IndexTerm <- "((" term:(IndexTermContent) "))" {
+IndexTerm <- IndexTermPrefix term:(IndexTermContent) "))" {
        return types.NewIndexTerm(term.([]interface{}))
     }
 
-IndexTermContent <- elements:(Alphanums / QuotedText / Space / SpecialCharacter / ElementPlaceHolder / (!"))" .) {
-    return string(c.text), nil
-})+ {
+IndexTermPrefix <- "((" {
+        c.trackElement(nil) // the text comes after the delimiter
+        return nil, nil
+    }
+
+IndexTermContent <- elements:(IndexTermElement)+ {
     return types.NewInlineElements(elements.([]interface{}))
 }
 
+IndexTermElement <- !"))" element:(Alphanums / QuotedText / Spaces / TypographicQuote / Quote / Replacement / SpecialCharacter / ElementPlaceHolder / (!"))" .) {
+        return string(c.text), nil
+    }) {
+        c.trackElement(element)
+        return element, nil
+    }
+
 ConcealedIndexTerm <- "(((" term1:(ConcealedIndexTermContent) 
     term2:(Space* "," Space* content:(ConcealedIndexTermContent) { return content, nil })? 
     term3:(Space* "," Space* content:(ConcealedIndexTermContent) { return content, nil })? 
-- 
2.43.0


From 4e6f4136367591755f9fd6a51270912ee71240ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:12 +0000
Subject: [PATCH 117/117] fix: keep all the options of a block

The options which are separated with a comma and a space, in several
attributes or on several lines, were lost except the ones of the last
attribute.
---
 pkg/types/attributes.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index d14fa0d..d111f86 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -420,19 +420,23 @@ func (a Attributes) Set(key string, value interface{}) Attributes {
 			a[AttrOptions] = Options{value}
 		}
 	case AttrOptions: // make sure the value is wrapped into a []interface{}
+		var options Options
 		switch v := value.(type) {
 		case Options:
-			a[AttrOptions] = v
+			options = v
 		case string:
 			values := strings.Split(v, ",")
-			options := make(Options, len(values))
+			options = make(Options, len(values))
 			for i, v := range values {
-				options[i] = v
+				options[i] = strings.TrimSpace(v)
 			}
-			a[AttrOptions] = options
 		default:
-			a[AttrOptions] = Options{value}
+			options = Options{value}
+		}
+		if o, ok := a[AttrOptions].(Options); ok {
+			options = append(o[:len(o):len(o)], options...)
 		}
+		a[AttrOptions] = options
 	default:
 		a[key] = value
 	}
-- 
2.43.0

